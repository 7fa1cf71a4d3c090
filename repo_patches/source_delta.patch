From 3f2a84db95042ae0e18b7bd857521ec6415901eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:25 +0000
Subject: [PATCH 001/110] fix: mdbx_cursor_scan() by values of a key which has
 the single value

The scan with MDBX_NEXT_DUP or MDBX_PREV_DUP stepped the nested cursor even when
the current key has no nested values, so the search went through an undefined
root page (assertion, MDBX_CORRUPTED or MDBX_ENODATA instead of the end-of-data).
---
 mdbx.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mdbx.c b/mdbx.c
index fb8a379..2716299 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -6045,6 +6045,8 @@ __hot static int scan_confinue(MDBX_cursor *mc, MDBX_predicate_func predicate, v
         rc = predicate(context, key, value, arg);
         if (rc != MDBX_RESULT_FALSE)
           return rc;
+        if (!inner_pointed(mc))
+          return MDBX_RESULT_FALSE /* the key has the single value */;
         rc = inner_next(&mc->subcur->cursor, value);
         if (unlikely(rc != MDBX_SUCCESS))
           return (rc == MDBX_NOTFOUND) ? MDBX_RESULT_FALSE : rc;
@@ -6057,6 +6059,8 @@ __hot static int scan_confinue(MDBX_cursor *mc, MDBX_predicate_func predicate, v
         rc = predicate(context, key, value, arg);
         if (rc != MDBX_RESULT_FALSE)
           return rc;
+        if (!inner_pointed(mc))
+          return MDBX_RESULT_FALSE /* the key has the single value */;
         rc = inner_prev(&mc->subcur->cursor, value);
         if (unlikely(rc != MDBX_SUCCESS))
           return (rc == MDBX_NOTFOUND) ? MDBX_RESULT_FALSE : rc;
-- 
2.43.0


From 12d21efd73f7732f43f2f89d1da7eed80c3a991d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:25 +0000
Subject: [PATCH 002/110] fix: don't treat a cursor beyond the last item as
 filled after MDBX_NEXT

After a failed search beyond the last item the following MDBX_NEXT returned
MDBX_NOTFOUND but cleared the hard-eof mark while the index still pointed past
the end of the page, so MDBX_GET_CURRENT, MDBX_LAST_DUP or mdbx_cursor_del()
accessed a node which doesn't exist (out-of-bounds access).
---
 mdbx.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index 2716299..cf63163 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -16428,8 +16428,13 @@ __hot int cursor_ops(MDBX_cursor *mc, MDBX_val *key, MDBX_val *data, const MDBX_
   case MDBX_NEXT:
   case MDBX_NEXT_NODUP:
     rc = outer_next(mc, key, data, op);
-    mc->flags &= ~z_eof_hard;
-    ((cursor_couple_t *)mc)->inner.cursor.flags &= ~z_eof_hard;
+    /* The position after the last item must not be treated as filled. */
+    if (is_pointed(mc) && (mc->flags & z_hollow) == 0 && mc->ki[mc->top] < page_numkeys(mc->pg[mc->top])) {
+      mc->flags &= ~z_eof_hard;
+      if (is_filled(mc) && inner_pointed(mc) && (mc->subcur->cursor.flags & z_hollow) == 0 &&
+          mc->subcur->cursor.ki[mc->subcur->cursor.top] < page_numkeys(mc->subcur->cursor.pg[mc->subcur->cursor.top]))
+        mc->subcur->cursor.flags &= ~z_eof_hard;
+    }
     return rc;
 
   case MDBX_PREV_DUP:
-- 
2.43.0


From 35bd00d286a3a849c71c39f3901318f6793c5dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:39 +0000
Subject: [PATCH 003/110] fix: mdbx_replace_ex() must unlink its cursor on the
 EINVAL path

The check for overlapped buffers returned right after the on-stack cursor was
linked into the transaction's list, leaving there a dangling pointer.
---
 mdbx.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index cf63163..9f19884 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -10926,8 +10926,10 @@ int mdbx_replace_ex(MDBX_txn *txn, MDBX_dbi dbi, const MDBX_val *key, MDBX_val *
       goto bailout;
   } else {
     /* в old_data буфер для сохранения предыдущего значения */
-    if (unlikely(new_data && old_data->iov_base == new_data->iov_base))
-      return LOG_IFERR(MDBX_EINVAL);
+    if (unlikely(new_data && old_data->iov_base == new_data->iov_base)) {
+      rc = MDBX_EINVAL;
+      goto bailout;
+    }
     MDBX_val present_data;
     rc = cursor_seek(&cx.outer, &present_key, &present_data, MDBX_SET_KEY).err;
     if (unlikely(rc != MDBX_SUCCESS)) {
-- 
2.43.0


From e8eed5791b62d36769072005b3f507845fcd73d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:04 +0000
Subject: [PATCH 004/110] fix: MDBX_NEXT/MDBX_PREV from the last item must look
 at the actual neighbours

The soft-eof mark set by MDBX_LAST (or by a MDBX_NEXT which returned MDBX_NOTFOUND)
made the next MDBX_NEXT return MDBX_NOTFOUND even when other cursor has inserted
items after the current one, and MDBX_PREV skip the rest of values of the last key.
---
 mdbx.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index 9f19884..9fa08c7 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -14929,7 +14929,8 @@ static __always_inline int cursor_step(const bool inner, const bool forward, MDB
   cASSERT0(mc, nkeys > 0);
 
   intptr_t ki = mc->ki[mc->top];
-  const uint8_t state = mc->flags & (z_after_delete | z_hollow | z_eof_hard | z_eof_soft);
+  /* The soft-eof mark is just a hint which may be outdated by insertions after the current item. */
+  const uint8_t state = mc->flags & (z_after_delete | z_hollow | z_eof_hard);
   if (likely(state == 0)) {
     cASSERT0(mc, ki < nkeys);
     if (!inner && op != (forward ? MDBX_NEXT_NODUP : MDBX_PREV_NODUP)) {
@@ -14963,7 +14964,7 @@ static __always_inline int cursor_step(const bool inner, const bool forward, MDB
         if (ki < nkeys)
           goto bring;
       } else {
-        cASSERT0(mc, state & (z_eof_soft | z_eof_hard));
+        cASSERT0(mc, state & z_eof_hard);
         return MDBX_NOTFOUND;
       }
     } else if (state & z_eof_hard) {
-- 
2.43.0


From 201a96933f54c3bdd7401147aac46e9554fef0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:02 +0000
Subject: [PATCH 005/110] fix: cursor's upper-level pages after a pure-right
 split with splitting of the parent

---
 mdbx.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index 9fa08c7..c5a7288 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -34047,8 +34047,10 @@ __hot int page_split(MDBX_cursor *mc, const MDBX_val *const newkey, MDBX_val *co
       goto done;
 
     if (pure_right) {
-      for (intptr_t i = 0; i < mc->top; i++)
+      for (intptr_t i = 0; i < mc->top; i++) {
+        mc->pg[i] = mn->pg[i];
         mc->ki[i] = mn->ki[i];
+      }
     } else if (mc->ki[mc->top - 1] == 0) {
       for (intptr_t i = 2; i <= mc->top; ++i)
         if (mc->ki[mc->top - i]) {
-- 
2.43.0


From f56e5fb1ce7dd138dde06df6570c56497cf9084e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:39 +0000
Subject: [PATCH 006/110] fix: stale nested tree info of sibling cursors after
 adding a value to the same key

---
 mdbx.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/mdbx.c b/mdbx.c
index c5a7288..cfee752 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -15714,6 +15714,13 @@ insert_node:;
         memcpy(db, &mc->subcur->nested_tree, sizeof(tree_t));
       }
       insert_data = (probe != (size_t)mc->subcur->nested_tree.items);
+      /* Keep actual the nested tree copies of other cursors standing at the same key,
+       * otherwise a subsequent deletion by such cursor will be based on the stale info. */
+      for (MDBX_cursor *m2 = mc->txn->cursors[cursor_dbi(mc)]; m2; m2 = m2->next) {
+        if (is_related(mc, m2) && m2->pg[mc->top] == mc->pg[mc->top] &&
+            m2->ki[mc->top] == mc->ki[mc->top] && inner_pointed(m2))
+          m2->subcur->nested_tree = mc->subcur->nested_tree;
+      }
     }
     /* Increment count unless we just replaced an existing item. */
     if (insert_data)
-- 
2.43.0


From d6210a2a3f7fa3940ebb6775c5df6e928a1b5643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:40 +0000
Subject: [PATCH 007/110] fix: assertions in mdbx_put() and mdbx_replace_ex()
 must allow a nested page with the single value

---
 mdbx.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index cfee752..ff96abe 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -10838,7 +10838,7 @@ int mdbx_put(MDBX_txn *txn, MDBX_dbi dbi, const MDBX_val *key, MDBX_val *data, M
       /* LY: allows update (explicit overwrite) only for unique keys */
       node_t *node = page_node(cx.outer.pg[cx.outer.top], cx.outer.ki[cx.outer.top]);
       if (node_flags(node) & N_DUP) {
-        cASSERT0(txn, inner_pointed(&cx.outer) && cx.outer.subcur->nested_tree.items > 1);
+        cASSERT0(txn, inner_pointed(&cx.outer) && cx.outer.subcur->nested_tree.items > 0);
         rc = MDBX_EMULTIVAL;
         if ((flags & MDBX_NOOVERWRITE) == 0) {
           flags -= MDBX_CURRENT;
@@ -10948,7 +10948,7 @@ int mdbx_replace_ex(MDBX_txn *txn, MDBX_dbi dbi, const MDBX_val *key, MDBX_val *
           /* disallow update/delete for multi-values */
           node_t *node = page_node(page, cx.outer.ki[cx.outer.top]);
           if (node_flags(node) & N_DUP) {
-            cASSERT0(txn, inner_pointed(&cx.outer) && cx.outer.subcur->nested_tree.items > 1);
+            cASSERT0(txn, inner_pointed(&cx.outer) && cx.outer.subcur->nested_tree.items > 0);
             if (cx.outer.subcur->nested_tree.items > 1) {
               rc = MDBX_EMULTIVAL;
               goto bailout;
-- 
2.43.0


From bde9123b9cc95748fab87496ebfdab3d8e5f290e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:24 +0000
Subject: [PATCH 008/110] fix: MDBX_TO_EXACT_KEY_VALUE_xxx and MDBX_TO_PAIR_xxx
 must return the data of the found multi-value

---
 mdbx.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index ff96abe..fb3076c 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -16559,7 +16559,8 @@ __hot int cursor_ops(MDBX_cursor *mc, MDBX_val *key, MDBX_val *data, const MDBX_
         cASSERT0(mc, csr.exact);
         if (inner_pointed(mc)) {
           MDBX_cursor *const mx = &mc->subcur->cursor;
-          csr = cursor_seek(mx, &save_data, nullptr, MDBX_SET_RANGE);
+          *data = save_data;
+          csr = cursor_seek(mx, data, nullptr, MDBX_SET_RANGE);
           rc = csr.err;
           if (csr.exact) {
             cASSERT0(mc, csr.err == MDBX_SUCCESS);
@@ -16612,7 +16613,8 @@ __hot int cursor_ops(MDBX_cursor *mc, MDBX_val *key, MDBX_val *data, const MDBX_
         cASSERT0(mc, csr.err == MDBX_SUCCESS);
         if (inner_pointed(mc)) {
           MDBX_cursor *const mx = &mc->subcur->cursor;
-          csr = cursor_seek(mx, &save_data, nullptr, MDBX_SET_RANGE);
+          *data = save_data;
+          csr = cursor_seek(mx, data, nullptr, MDBX_SET_RANGE);
           rc = csr.err;
           if (csr.exact) {
             cASSERT0(mc, csr.err == MDBX_SUCCESS);
-- 
2.43.0


From 33ae08d349a5f5714230da9d6a8849709fe4e7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:00 +0000
Subject: [PATCH 009/110] fix: MDBX_ALLDUPS must replace the single value too
 and re-search the insertion point

---
 mdbx.c | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index fb3076c..70b6674 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -15133,15 +15133,21 @@ __hot int cursor_put(MDBX_cursor *mc, const MDBX_val *key, MDBX_val *data, unsig
         /* nested subtree of DUPSORT-database with the same key, nothing to update */
         return (flags & MDBX_NODUPDATA) ? MDBX_KEYEXIST : MDBX_SUCCESS;
       }
-      if (inner_pointed(mc)) {
-        if (unlikely(flags & MDBX_ALLDUPS)) {
-          rc = cursor_del(mc, MDBX_ALLDUPS);
-          if (unlikely(rc != MDBX_SUCCESS))
-            return rc;
-          flags -= MDBX_ALLDUPS;
-          cASSERT0(mc, mc->top + 1 == mc->tree->height);
-          rc = (mc->top >= 0) ? MDBX_NOTFOUND : MDBX_NO_ROOT;
-        } else if ((flags & (MDBX_RESERVE | MDBX_MULTIPLE)) == 0) {
+      if (unlikely(flags & MDBX_ALLDUPS) && mc->subcur) {
+        /* replace all values of the key, including the case of the single one */
+        rc = cursor_del(mc, MDBX_ALLDUPS);
+        if (unlikely(rc != MDBX_SUCCESS))
+          return rc;
+        flags -= MDBX_ALLDUPS;
+        if (mc->tree->height) {
+          /* the deletion could move the cursor to a sibling page, so the insertion point must be searched again */
+          rc = cursor_seek(mc, (MDBX_val *)key, &old_data, MDBX_SET).err;
+          if (unlikely(rc != MDBX_NOTFOUND))
+            return (rc == MDBX_SUCCESS) ? MDBX_PROBLEM : rc;
+        } else
+          rc = MDBX_NO_ROOT;
+      } else if (inner_pointed(mc)) {
+        if ((flags & (MDBX_RESERVE | MDBX_MULTIPLE)) == 0) {
           old_data = *data;
           csr_t csr = cursor_seek(&mc->subcur->cursor, &old_data, nullptr, MDBX_SET_RANGE);
           if (unlikely(csr.exact)) {
-- 
2.43.0


From 323575516aaac275148f473dbdafe92dc84602d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:07 +0000
Subject: [PATCH 010/110] fix: MDBX_CURRENT+MDBX_ALLDUPS for a nested page with
 the single value

---
 mdbx.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index 70b6674..fbd7134 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -15061,7 +15061,7 @@ __hot int cursor_put(MDBX_cursor *mc, const MDBX_val *key, MDBX_val *data, unsig
         /* Если за ключом более одного значения, либо если размер данных
          * отличается, то вместо обновления требуется удаление и
          * последующая вставка. */
-        if (mc->subcur->nested_tree.items > 1 || current_data.iov_len != data->iov_len) {
+        if (mc->subcur->nested_tree.items > 1 || current_data.iov_len != data->iov_len || (flags & MDBX_ALLDUPS)) {
           err = cursor_del(mc, flags & MDBX_ALLDUPS);
           if (unlikely(err != MDBX_SUCCESS))
             return err;
-- 
2.43.0


From 61e9df72e36a4bb5bbdc8e0119ac0c72147b3f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:54 +0000
Subject: [PATCH 011/110] fix: MDBX_FIRST_DUP/MDBX_LAST_DUP with the dropped
 nested cursor

---
 mdbx.c | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index fbd7134..d7013d2 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -16474,9 +16474,15 @@ __hot int cursor_ops(MDBX_cursor *mc, MDBX_val *key, MDBX_val *data, const MDBX_
       get_key_optional(node, key);
       if ((node_flags(node) & N_DUP) == 0)
         return node_read(mc, node, data, mc->pg[mc->top]);
-      else if (MDBX_DISABLE_VALIDATION || likely(mc->subcur))
+      else if (MDBX_DISABLE_VALIDATION || likely(mc->subcur)) {
+        if (unlikely(!inner_pointed(mc))) {
+          /* the nested cursor may be dropped, e.g. after a deletion or an unsuccessful step */
+          rc = cursor_dupsort_setup(mc, node, mc->pg[mc->top]);
+          if (unlikely(rc != MDBX_SUCCESS))
+            return rc;
+        }
         return ((op == MDBX_FIRST_DUP) ? inner_first : inner_last)(&mc->subcur->cursor, data);
-      else
+      } else
         return unexpected_dupsort(mc);
     }
     break;
-- 
2.43.0


From 193d89b40cdd7c0a8438e626e3368bbb7e5c6762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:48 +0000
Subject: [PATCH 012/110] fix: mdbx_replace_ex() must preserve the old value
 from spilled pages too

---
 mdbx.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index d7013d2..299477f 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -10961,7 +10961,7 @@ int mdbx_replace_ex(MDBX_txn *txn, MDBX_dbi dbi, const MDBX_val *key, MDBX_val *
         }
       }
 
-      if (is_modifable(txn, page)) {
+      if (!is_frozen(txn, page)) {
         if (new_data && eq_fast(&present_data, new_data)) {
           /* если данные совпадают, то ничего делать не надо */
           *old_data = *new_data;
-- 
2.43.0


From 6f802156ed32fe9c7d133309508fc2ba4a9fa5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:55 +0000
Subject: [PATCH 013/110] fix: wrong-length key must not redefine the key width
 of a non-empty MDBX_INTEGERKEY table

---
 mdbx.c | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index 299477f..e279da9 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -15809,8 +15809,22 @@ __hot int cursor_put_checklen(MDBX_cursor *mc, const MDBX_val *key, MDBX_val *da
     } else
       return MDBX_BAD_VALSIZE;
 
-    if (unlikely(mc->clc->k.lmin != mc->clc->k.lmax))
-      mc->clc->k.lmin = mc->clc->k.lmax = key->iov_len;
+    if (unlikely(mc->clc->k.lmin != mc->clc->k.lmax)) {
+      size_t keylen = key->iov_len;
+      if (mc->tree->height) {
+        /* the table isn't empty, so the length is determined by the keys already present */
+        page_t *mp;
+        int err = page_get(mc, mc->tree->root, &mp, mc->txn->front_txnid);
+        if (unlikely(err != MDBX_SUCCESS))
+          return err;
+        keylen = node_ks(page_node(mp, is_branch(mp)));
+        if (unlikely(keylen != 4 && keylen != 8))
+          return MDBX_CORRUPTED;
+      }
+      mc->clc->k.lmin = mc->clc->k.lmax = keylen;
+      if (unlikely(key->iov_len != keylen))
+        return MDBX_BAD_VALSIZE;
+    }
   }
   if (mc->tree->flags & MDBX_INTEGERDUP) {
     if (data->iov_len == 8) {
-- 
2.43.0


From 0fbc4f8b2464cc405e8a2518a3c47e9c8f8a32ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:52 +0000
Subject: [PATCH 014/110] fix: mdbx_cursor_del() must not revive unset nested
 cursors of other cursors

---
 mdbx.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index e279da9..6ccb96d 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -16010,7 +16010,7 @@ del_key:
     if (top > m3->top || m3->pg[top] != mp)
       continue;
     /* if m3 points past last node in page, find next sibling */
-    if (m3->ki[top] >= nkeys) {
+    if (m3->ki[top] >= nkeys && (m3->flags & z_hollow) == 0 /* an unset cursor must remain so */) {
       rc = cursor_sibling_right(m3);
       if (rc == MDBX_NOTFOUND) {
         rc = MDBX_SUCCESS;
-- 
2.43.0


From 1fa4195f15f28f89bf1286610d478519dde9a58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:00 +0000
Subject: [PATCH 015/110] fix: spilling during a split of a nested tree must
 not use the uninitialized stack of a cursor clone

---
 mdbx.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index 6ccb96d..00b74b7 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -14682,6 +14682,11 @@ MDBX_cursor *cursor_clone_slightly(const MDBX_cursor *csrc, cursor_couple_t *cou
     couple->inner.cursor.txn = csrc->txn;
     couple->inner.cursor.dbi_state = csrc->dbi_state;
     couple->outer.subcur = &couple->inner;
+    /* the outer cursor may be tracked together with the nested one, so its stack must be valid */
+    const MDBX_cursor *const outer = cursor_outer((MDBX_cursor *)csrc);
+    couple->outer.clc = outer->clc;
+    couple->outer.tree = outer->tree;
+    cursor_cpstk(outer, &couple->outer);
     cdst = &couple->inner.cursor;
   }
 
@@ -36137,7 +36142,8 @@ static size_t spill_cursor_keep(const MDBX_txn *const txn, const MDBX_cursor *mc
       }
     } while (++i <= mc->top);
 
-    cASSERT0(txn, is_leaf(mp));
+    /* the last page may be a branch, since a cursor walks up the stack during splitting or updating a parent page */
+    cASSERT0(txn, is_leaf(mp) || is_branch(mp));
     if (!inner_pointed(mc))
       break;
     mc = &mc->subcur->cursor;
-- 
2.43.0


From f4c8fd952a79b9d0c5901c5ef42549edd85e0fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:00 +0000
Subject: [PATCH 016/110] fix: a nested transaction must inherit
 MDBX_TXN_SPILLS after spilling of the parent's pages

---
 mdbx.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index 00b74b7..64f7ec6 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -40037,11 +40037,7 @@ int txn_nested_create(MDBX_txn *parent, bool readonly) {
     return MDBX_INCOMPATIBLE;
   }
 
-  unsigned flags = parent->flags & (MDBX_TXN_SPILLS | MDBX_NOSTICKYTHREADS | MDBX_WRITEMAP);
-  if (readonly)
-    flags |= txn_ro_nested;
-
-  if (parent->env->options.spill_parent4child_denominator && (flags & txn_ro_nested) == 0) {
+  if (parent->env->options.spill_parent4child_denominator && !readonly) {
     /* Spill dirty-pages of parent to provide dirtyroom for child txn */
     int err =
         txn_spill(parent, nullptr, parent->wr.dirtylist->length / parent->env->options.spill_parent4child_denominator);
@@ -40050,6 +40046,11 @@ int txn_nested_create(MDBX_txn *parent, bool readonly) {
   }
   tASSERT2(parent, audit_ex(parent, 0, false) == 0);
 
+  /* the parent may just got the MDBX_TXN_SPILLS above */
+  unsigned flags = parent->flags & (MDBX_TXN_SPILLS | MDBX_NOSTICKYTHREADS | MDBX_WRITEMAP);
+  if (readonly)
+    flags |= txn_ro_nested;
+
   MDBX_txn *const nested = txn_alloc(flags, parent->env);
   if (unlikely(!nested))
     return LOG_IFERR(MDBX_ENOMEM);
-- 
2.43.0


From 2246e7003465c80022c0a5d73ff971503ff23476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:56 +0000
Subject: [PATCH 017/110] fix: refresh nested cursors of cursors standing
 beyond the last item after converting a nested page to a tree

---
 mdbx.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index 64f7ec6..0a258ec 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -15700,7 +15700,7 @@ insert_node:;
             continue;
           if (/* пропускаем незаполненные курсоры, иначе получится что у такого
                  курсора будет инициализирован вложенный, что антилогично и бесполезно. */
-              is_filled(m2) && m2->ki[mc->top] == mc->ki[mc->top]) {
+              (is_filled(m2) || inner_pointed(m2)) && m2->ki[mc->top] == mc->ki[mc->top]) {
             cASSERT0(m2, m2->subcur->cursor.clc == mx->cursor.clc);
             m2->subcur->nested_tree = mx->nested_tree;
             m2->subcur->cursor.pg[0] = mx->cursor.pg[0];
-- 
2.43.0


From b5c06222a97f58f528ed6976bbf42bfd98a64e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:01 +0000
Subject: [PATCH 018/110] fix: early cleaning of GC-records during a page
 allocation must not spill just allocated pages

---
 mdbx.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index 0a258ec..b2a52d9 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -3142,6 +3142,16 @@ MDBX_NOTHROW_PURE_FUNCTION static inline bool gc_may_clean_reclaimed(const MDBX_
          txn->dbs[FREE_DBI].height * 2u + 3u;
 }
 
+/* The deletion of a GC-record during a page allocation must not spill pages, since the caller may hold
+ * just allocated pages which are not yet reachable by cursors, i.e. which spill_txn_keep() unable to preserve. */
+MDBX_NOTHROW_PURE_FUNCTION static inline bool gc_clean_wont_spill(const MDBX_txn *txn) {
+  /* the same estimation as done by cursor_touch() for a GC-cursor */
+  const size_t need = (CURSOR_STACK_SIZE + (size_t)3) * 2 + /* node_size(nullptr, nullptr) */ 2;
+  return !txn->wr.dirtylist ||
+         (need <= txn->wr.dirtyroom + txn->wr.loose_count &&
+          need + txn->wr.dirtylist->pages_including_loose <= txn->env->options.dp_limit + txn->wr.loose_count);
+}
+
 static inline txnid_t txnid_min(txnid_t a, txnid_t b) { return (a < b) ? a : b; }
 
 static inline txnid_t txnid_max(txnid_t a, txnid_t b) { return (a > b) ? a : b; }
@@ -22825,7 +22835,7 @@ next_gc:
   eASSERT0(env, op == MDBX_PREV || op == MDBX_NEXT);
   rkl_t *rkl = &txn->wr.gc.reclaimed;
   const char *rkl_name = "reclaimed";
-  if (mc->dbi_state != txn->dbi_state && (MDBX_DEBUG > 0 || gc_may_clean_reclaimed(txn))) {
+  if (mc->dbi_state != txn->dbi_state && (MDBX_DEBUG > 0 || gc_may_clean_reclaimed(txn)) && gc_clean_wont_spill(txn)) {
     gc->next = txn->cursors[FREE_DBI];
     txn->cursors[FREE_DBI] = gc;
     ret.err = cursor_del(gc, 0);
-- 
2.43.0


From 5ff0226470ef20ccfcd438b5ff94e1171aeb149e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:46 +0000
Subject: [PATCH 019/110] fix: don't poison pages spilled by the running write
 transaction (ASAN/Valgrind builds)

---
 mdbx.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mdbx.c b/mdbx.c
index b2a52d9..0e2da33 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -20131,6 +20131,9 @@ void dxb_sanitize_tail(MDBX_env *env, MDBX_txn *txn) {
     } else if (env_owned_wrtxn(env)) {
       /* inside write-txn */
       last = meta_recent(env, &env->basal_txn->wr.troika).ptr_v->geometry.first_unallocated;
+      /* don't poison pages which could be already spilled by the running write-txn */
+      if (env->txn && last < env->txn->geo.first_unallocated)
+        last = env->txn->geo.first_unallocated;
     } else if (env->flags & MDBX_RDONLY) {
       /* read-only mode, no write-txn, no wlock mutex */
       last = NUM_METAS;
-- 
2.43.0


From e55781ae5b8cec9c2374b2233d469a9664716265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:13 +0000
Subject: [PATCH 020/110] fix: leaks of the list of spilled pages by aborting
 of a nested transaction and by checkpoints

---
 mdbx.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mdbx.c b/mdbx.c
index 0e2da33..b0254bd 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -39247,6 +39247,7 @@ static int basal_start_locked(MDBX_txn *txn, unsigned flags) {
   txn->wr.loose_refund_wl = 0;
 #endif /* MDBX_ENABLE_REFUND */
   pnl_setsize(txn->wr.retired_pages, 0);
+  pnl_free(txn->wr.spilled.list);
   txn->wr.spilled.list = nullptr;
   txn->wr.spilled.least_removed = 0;
   txn->wr.gc.spent = 0;
@@ -39939,6 +39940,7 @@ static void nested_merge(MDBX_txn *const parent, MDBX_txn *const nested, const s
       parent->wr.spilled.list = nested->wr.spilled.list;
       parent->wr.spilled.least_removed = nested->wr.spilled.least_removed;
     }
+    nested->wr.spilled.list = nullptr;
     tASSERT1(parent, txn_dpl_check(parent));
   }
 
@@ -40131,6 +40133,7 @@ static void nested_free(MDBX_txn *nested) {
   rkl_destroy(&nested->wr.gc.ready4reuse);
 
   txn_dpl_free(nested);
+  pnl_free(nested->wr.spilled.list);
   pnl_free(nested->wr.repnl);
   osal_free(nested);
 
-- 
2.43.0


From 3154cad65c21e8190fd13e36bdf03088aa609533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:35 +0000
Subject: [PATCH 021/110] fix: mdbx_cursor_bunch_delete() with an unset cursor
 must return MDBX_ENODATA and delete nothing

---
 mdbx.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mdbx.c b/mdbx.c
index b0254bd..e8fc705 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -6322,6 +6322,12 @@ int mdbx_cursor_bunch_delete(MDBX_cursor *mc, MDBX_bunch_action_t action, uint64
   if (unlikely(action < MDBX_DELETE_CURRENT_VALUE || action > MDBX_DELETE_WHOLE))
     return LOG_IFERR(MDBX_EINVAL);
 
+  if (unlikely(action != MDBX_DELETE_WHOLE && !is_filled(mc))) {
+    if (number_of_affected)
+      *number_of_affected = 0;
+    return LOG_IFERR(MDBX_ENODATA);
+  }
+
 #if MDBX_ENABLE_BUNCHES_REMOVAL
   cursor_couple_t couple;
   MDBX_cursor *axe = nullptr;
-- 
2.43.0


From d46ec6f8260cef5acd814a593b1e1913a43322ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:35 +0000
Subject: [PATCH 022/110] fix: an inverted range of multi-values must be
 refused by mdbx_cursor_delete_range()

---
 mdbx.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index e8fc705..2b7f08c 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -37265,7 +37265,7 @@ int tree_curoff_range(MDBX_cursor *begin, MDBX_cursor *end, bool end_including)
 
     const intptr_t inner_level = tree_diff_level(&begin->subcur->cursor, &end->subcur->cursor);
     if (unlikely(inner_level < 0)) {
-      if (unlikely(level != MDBX_RESULT_TRUE))
+      if (unlikely(inner_level != MDBX_RESULT_TRUE))
         return MDBX_ENODATA;
       /* у вложенных dupsort-курсоров позиции тоже совпадают, нечего удалять */
       return end_including ? cutoff_leaf(begin, 0) : MDBX_SUCCESS;
-- 
2.43.0


From aedd68c047a603411c1354cfe1bcabf1063e7446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:21 +0000
Subject: [PATCH 023/110] fix: mdbx_estimate_distance() between values of the
 same key: sign and a cursor beyond the last item

---
 mdbx.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index 2b7f08c..917acbe 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -10361,11 +10361,11 @@ __hot int mdbx_estimate_distance(const MDBX_cursor *first, const MDBX_cursor *la
   if (unlikely(rc != MDBX_SUCCESS))
     return LOG_IFERR(rc);
 
-  cASSERT0(first, dr.diff || inner_pointed(first) == inner_pointed(last));
-  if (unlikely(dr.diff == 0) && inner_pointed(first)) {
+  /* один из курсоров может стоять за последним элементом, т.е. без позиционирования вложенного */
+  if (unlikely(dr.diff == 0) && inner_pointed(first) && inner_pointed(last)) {
     first = &first->subcur->cursor;
     last = &last->subcur->cursor;
-    rc = cursor_diff(first, last, &dr);
+    rc = cursor_diff(last, first, &dr);
     if (unlikely(rc != MDBX_SUCCESS))
       return LOG_IFERR(rc);
   }
-- 
2.43.0


From f7241069cef7fe84509babde30ee9cfb5e4c34e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:21 +0000
Subject: [PATCH 024/110] fix: mdbx_cursor_distance() must count from the
 current value of a multi-value

---
 mdbx.c | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/mdbx.c b/mdbx.c
index 917acbe..f79080f 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -16856,6 +16856,21 @@ cdr_t cursor_distance(MDBX_cursor *iter, const MDBX_cursor *end, int level) {
   }
 
   /* запрошенный уровень предполагает учет mutivalues/дубликатов */
+  size_t skip = 0;
+  if (inner_pointed(iter)) {
+    /* расстояние отсчитывается от текущего значения, а не от первого среди значений ключа */
+    cursor_couple_t couple;
+    MDBX_cursor *const head = &cursor_clone_complete(iter, &couple)->subcur->cursor;
+    tdr.err = inner_first(head, nullptr);
+    if (unlikely(tdr.err != MDBX_SUCCESS))
+      return tdr;
+    const cdr_t head_tdr = cursor_distance_at(head, &iter->subcur->cursor, level - iter->tree->height);
+    tdr.err = head_tdr.err;
+    if (unlikely(tdr.err != MDBX_SUCCESS))
+      return tdr;
+    skip = head_tdr.distance;
+  }
+
   while (iter->pg[iter->top] != end->pg[iter->top]) {
     cdr_t leaf_tdr = cursor_leaf_amount(iter->pg[iter->top], iter->ki[iter->top], page_numkeys(iter->pg[iter->top]));
     tdr.distance += leaf_tdr.distance;
@@ -16890,6 +16905,7 @@ cdr_t cursor_distance(MDBX_cursor *iter, const MDBX_cursor *end, int level) {
     tdr.err = subtree_tdr.err;
   }
 
+  tdr.distance -= skip;
   return tdr;
 }
 
-- 
2.43.0


From 99cc4aadd84ee976307fd254a11ea192bb8723a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:21 +0000
Subject: [PATCH 025/110] fix: mdbx_cursor_scroll() and
 mdbx_cursor_distribute() over keys with single and multiple values

---
 mdbx.c | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index f79080f..46570fe 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -17002,6 +17002,9 @@ int cursor_scroll_forward(MDBX_cursor *mc, intptr_t amount, int level) {
       return err;
     mc->subcur->nested_tree.root = 0;
     mc->subcur->cursor.top_and_flags = z_inner | z_poor_mark;
+  } else {
+    /* уход с текущего единственного значения ключа */
+    amount -= 1;
   }
 
   while (true) {
@@ -17013,8 +17016,10 @@ int cursor_scroll_forward(MDBX_cursor *mc, intptr_t amount, int level) {
 
     const node_t *node = page_node(mc->pg[mc->top], mc->ki[mc->top]);
     if ((node->flags & N_DUP) == 0) {
-      if (unlikely(--amount == 0))
-        return tree_deepen_edge(mc, Z_FIRST);
+      if (amount-- == 0) {
+        be_filled(mc);
+        return MDBX_SUCCESS;
+      }
       continue;
     }
 
@@ -17025,6 +17030,7 @@ int cursor_scroll_forward(MDBX_cursor *mc, intptr_t amount, int level) {
       err = inner_first(&mc->subcur->cursor, nullptr);
       if (unlikely(err != MDBX_SUCCESS))
         return err;
+      be_filled(mc);
       return cursor_forward_at(&mc->subcur->cursor, amount, level - mc->tree->height).err;
     }
     amount -= mc->subcur->nested_tree.items;
@@ -17048,6 +17054,9 @@ int cursor_scroll_backward(MDBX_cursor *mc, intptr_t amount, int level) {
       return err;
     mc->subcur->nested_tree.root = 0;
     mc->subcur->cursor.top_and_flags = z_inner | z_poor_mark;
+  } else {
+    /* уход с текущего единственного значения ключа */
+    amount -= 1;
   }
 
   while (true) {
@@ -17059,8 +17068,10 @@ int cursor_scroll_backward(MDBX_cursor *mc, intptr_t amount, int level) {
 
     const node_t *node = page_node(mc->pg[mc->top], mc->ki[mc->top]);
     if ((node->flags & N_DUP) == 0) {
-      if (unlikely(--amount == 0))
-        return tree_deepen_edge(mc, Z_LAST);
+      if (amount-- == 0) {
+        be_filled(mc);
+        return MDBX_SUCCESS;
+      }
       continue;
     }
 
@@ -17071,6 +17082,7 @@ int cursor_scroll_backward(MDBX_cursor *mc, intptr_t amount, int level) {
       err = inner_last(&mc->subcur->cursor, nullptr);
       if (unlikely(err != MDBX_SUCCESS))
         return err;
+      be_filled(mc);
       return cursor_backward_at(&mc->subcur->cursor, amount, level - mc->tree->height).err;
     }
     amount -= mc->subcur->nested_tree.items;
-- 
2.43.0


From 71ac953d4277a13ed1dc643aff57fa3c617b07bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:44 +0000
Subject: [PATCH 026/110] fix: false-positive assertions inside
 mdbx_cache_get()

---
 mdbx.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index 46570fe..fd51a19 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -8779,6 +8779,8 @@ static inline bool is_not_commited(const MDBX_txn *txn, const page_t *mp) {
 }
 
 MDBX_MAYBE_UNUSED static inline bool is_inside_dxb_and_commited(const MDBX_txn *txn, const void *ptr) {
+  /* an empty value could be at the very end of a page, but the preceding byte always belongs to this page */
+  ptr = ptr_disp(ptr, -1);
   return !is_outside_dxb(txn, ptr) && !is_not_commited(txn, ptr2page(txn->env, ptr));
 }
 
@@ -8874,7 +8876,6 @@ __hot static MDBX_cache_result_t cache_get(const MDBX_txn *txn, MDBX_dbi dbi, co
           status = MDBX_CACHE_CONFIRMED;
           if (entry->offset || !entry->trunk_txnid) {
             status = MDBX_CACHE_REFRESHED;
-            cASSERT0(txn, (!entry->offset && !entry->trunk_txnid) || trunk_txnid > entry->trunk_txnid);
             entry->offset = 0;
             entry->length = 0;
             entry->trunk_txnid = trunk_txnid;
@@ -8891,7 +8892,6 @@ __hot static MDBX_cache_result_t cache_get(const MDBX_txn *txn, MDBX_dbi dbi, co
   if (trunk_txnid <= entry->last_confirmed_txnid) {
     /* the corresponding table has not been changed since the last check. */
     cASSERT0(txn, (txn->dbi_state[dbi] & DBI_DIRTY) == 0);
-    cASSERT0(txn, trunk_txnid == entry->trunk_txnid);
   confirmed:
     cASSERT0(txn, trunk_txnid <= committed_snapshot_txnid && trunk_txnid <= entry->last_confirmed_txnid);
     data->iov_base = entry->offset ? ptr_disp(txn->env->dxb_mmap.base, entry->offset) : nullptr;
@@ -8905,7 +8905,6 @@ __hot static MDBX_cache_result_t cache_get(const MDBX_txn *txn, MDBX_dbi dbi, co
 
   if (unlikely(txn->dbs[dbi].root == P_INVALID)) {
     /* the corresponding table is empty now */
-    cASSERT0(txn, !entry->offset || trunk_txnid > entry->trunk_txnid);
     goto not_found;
   }
 
-- 
2.43.0


From e73b0eebf1561940ad49c0cd8d9d1f3f241246be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:44 +0000
Subject: [PATCH 027/110] fix: mdbx_cache_get() must not confirm a presence or
 absence by a page which doesn't cover the key

---
 mdbx.c | 102 ++++++++++++++++-----------------------------------------
 1 file changed, 29 insertions(+), 73 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index fd51a19..daf7b4b 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -8803,9 +8803,19 @@ static inline MDBX_cache_result_t cache_fallback(const MDBX_txn *txn, MDBX_dbi d
   return result;
 }
 
-static inline bool is_afterlast(MDBX_cursor *mc, const page_t *mp, const MDBX_val *key) {
-  MDBX_val last = get_key(page_node(mp, page_numkeys(mp) - 1));
-  return mc->clc->k.cmp(key, &last) > 0;
+/* Returns true if the given key is definitely belongs to the given page: i.e. in any MVCC-snapshot which includes the
+ * page, the search for the key inevitably comes through it. The key less than the first one on a page (such page may
+ * become the leftmost after deletion of preceding ones) or greater than the last one could be on another page before. */
+static inline bool is_covered(MDBX_cursor *mc, const page_t *mp, const MDBX_val *key) {
+  const size_t nkeys = page_numkeys(mp);
+  const size_t ifirst = is_branch(mp) ? 1 /* the first key of a branch-page is not used */ : 0;
+  if (unlikely(nkeys <= ifirst))
+    return false;
+  const MDBX_val last = get_key(page_node(mp, nkeys - 1));
+  if (mc->clc->k.cmp(key, &last) > 0)
+    return false;
+  const MDBX_val first = get_key(page_node(mp, ifirst));
+  return mc->clc->k.cmp(key, &first) >= 0;
 }
 
 __hot static MDBX_cache_result_t cache_get(const MDBX_txn *txn, MDBX_dbi dbi, const MDBX_val *key, MDBX_val *data,
@@ -8927,44 +8937,20 @@ __hot static MDBX_cache_result_t cache_get(const MDBX_txn *txn, MDBX_dbi dbi, co
   /* walking along the branches of the tree to the leaves */
   while (is_branch(mp)) {
     if (mp->txnid <= entry->last_confirmed_txnid) {
-      /* Страница НЕ была обновлена после последней проверки,
-       * проверяем остальные условия для раннего завершения поиска. */
-      if (!entry->offset) {
-        /* Ключа не было и он не мог быть добавлен без изменения страницы. */
-      notfound_elevate_trunk:
-        if (trunk_txnid > entry->trunk_txnid)
-          goto not_found;
-        for (intptr_t i = cx.outer.top - 1; i >= 0; --i) {
-          trunk_txnid = cx.outer.pg[i]->txnid;
-          if (trunk_txnid > entry->trunk_txnid)
-            goto not_found;
-        }
-        trunk_txnid = txn->dbs[dbi].mod_txnid ? txn->dbs[dbi].mod_txnid : txn->front_txnid;
-        cASSERT0(txn, trunk_txnid > entry->trunk_txnid);
-        goto not_found;
-      }
-      if (mp->txnid < entry->trunk_txnid) {
-        /* Попали на более старую страницу, такое может быть только при "схлопывании" b-tree,
-         * когда целевой ключ был удален вместе с ведущими к нему branch-страницами. */
-        goto notfound_elevate_trunk;
-      }
-
-      /* Искомый ключ больше или равен первому на этой странице и меньше следующего с родительской,
-       * но может быть больше последнего ключа на этой странице. */
-      if (!is_afterlast(&cx.outer, mp, &aligned.key)) {
-        /* Следовательно, если ключ не-больше последнего на этой страницы,
-         * то он не мог быть изменен или удалён. */
+      /* Страница НЕ была обновлена после последней проверки.
+       * Если искомый ключ не меньше первого и не больше последнего ключа на этой странице,
+       * то он не мог быть добавлен, изменен или удалён без изменения этой страницы. */
+      if (is_covered(&cx.outer, mp, &aligned.key)) {
         trunk_txnid = mp->txnid;
         goto confirmed;
       }
 
-      /* Но если искомый ключ больше последнего на этой страницы, то он мог быть удалён вместе со всеми
-       * страницами расположенными дальше/после текущей и до следующего узла родительской страницы.
-       * Следует продолжить поиск. */
+      /* Иначе искомый ключ мог быть удалён (либо добавлен и затем удалён) вместе со страницами расположенными
+       * перед или после текущей. Следует продолжить поиск. */
     }
 
     trunk_txnid = mp->txnid;
-    const size_t ki = tree_search_branch(&cx.outer, key);
+    const size_t ki = tree_search_branch(&cx.outer, &aligned.key);
     cx.outer.ki[cx.outer.top] = (indx_t)ki;
     err = page_get(&cx.outer, node_pgno(page_node(mp, ki)), &mp, trunk_txnid);
     if (unlikely(err != MDBX_SUCCESS))
@@ -8981,49 +8967,19 @@ __hot static MDBX_cache_result_t cache_get(const MDBX_txn *txn, MDBX_dbi dbi, co
     return cache_error(LOG_IFERR(err));
   }
 
-  if (mp->txnid <= entry->last_confirmed_txnid) {
-    if (!entry->offset) {
-      /* Ключа не было и он не мог быть добавлен без изменения страницы. */
-      goto notfound_elevate_trunk;
-    }
-    if (mp->txnid < entry->trunk_txnid) {
-      /* Попали на более старую страницу, такое может быть только при "схлопывании" b-tree,
-       * когда целевой ключ был удален вместе с ведущими к нему branch-страницами. */
-      tASSERT1(txn, !tree_search_foliage(&cx.outer, &aligned.key).exact);
-      goto notfound_elevate_trunk;
-    }
-
-    /* Искомый ключ больше или равен первому на этой странице и меньше следующего с родительской,
-     * но может быть больше последнего ключа на этой странице. Страница не была обновлена после
-     * последней проверки наличия ключа. */
-    if (!is_afterlast(&cx.outer, mp, &aligned.key)) {
-      /* Следовательно, если ключ не-больше последнего на этой страницы,
-       * то он не мог быть изменен или удалён. */
-      trunk_txnid = mp->txnid;
-      goto confirmed;
-    }
-
-    /* Но если искомый ключ больше последнего на этой страницы, то он мог быть удалён вместе со всеми
-     * страницами расположенными дальше/после текущей и до следующего узла родительской страницы.
-     *
-     * В зоне branch-страниц дерева следовало-бы продолжить поиск, но в случае листовой страницы можно
-     * быть уверенным что ключ отсутствует, так он больше последнего ключа на этой странице и меньше
-     * первого на следующей, а таких ключей нет физически. */
-    tASSERT1(txn, !tree_search_foliage(&cx.outer, &aligned.key).exact);
-    goto notfound_elevate_trunk;
+  if (mp->txnid <= entry->last_confirmed_txnid && is_covered(&cx.outer, mp, &aligned.key)) {
+    /* Страница не была обновлена после последней проверки наличия ключа, а искомый ключ не меньше первого и
+     * не больше последнего на этой странице. Следовательно он не мог быть добавлен, изменен или удалён. */
+    trunk_txnid = mp->txnid;
+    goto confirmed;
   }
 
   sfr_t sfr = tree_search_foliage(&cx.outer, &aligned.key);
   if (!sfr.exact) {
-    cASSERT0(txn, !entry->offset || trunk_txnid > entry->trunk_txnid);
-    if (sfr.node)
-      /* Обновлять метку trunk_txnid можно только если искомый ключ должен был находится на текущей листовой странице,
-       * но не в случае когда он болмьше последнего. Тогда trunk_txnid будет связан с родительской страницей и при
-       * добавлении искомого ключа этом изменение можно будет отследить. Иначе trunk_txnid будет связан с текущей
-       * листовой страницей, которая может не измениться при добавлении искомого ключа, так как он больше последнего
-       * на этой странице и может быть добавлен в следующую страницу справа. Такое несоответствие может стать причиной
-       * пропуска изменений и/или выдачи неверного результата. */
-      trunk_txnid = mp->txnid;
+    /* Связывать отсутствие ключа с версией текущей листовой страницы можно только если искомый ключ больше первого
+     * и меньше последнего на ней. Иначе ключ мог находиться на страницах, которые расположены перед или после текущей,
+     * и исчезнуть вместе с ними, в том числе в текущей ещё не зафиксированной транзакции. */
+    trunk_txnid = is_covered(&cx.outer, mp, &aligned.key) ? mp->txnid : tbl_root_txnid(txn, dbi);
     goto not_found;
   }
 
-- 
2.43.0


From 6faf8ef16a5fb26a84ba59b049289e898e0328ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:04 +0000
Subject: [PATCH 028/110] fix: ptr2page() must not rely on alignment of the
 mapping to the DB page size

---
 mdbx.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index daf7b4b..d777e5e 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -2151,8 +2151,9 @@ MDBX_NOTHROW_PURE_FUNCTION MDBX_MAYBE_UNUSED static inline const page_t *ptr2pag
                                                                                   const void *ptr) {
   eASSERT0(env,
            ptr_dist(ptr, env->dxb_mmap.base) >= 0 && (size_t)ptr_dist(ptr, env->dxb_mmap.base) < env->dxb_mmap.limit);
-  const uintptr_t mask = env->ps - 1;
-  return (page_t *)((uintptr_t)ptr & ~mask);
+  /* the mapping could be not aligned to the size of DB page, if one is greater than the system page size */
+  const size_t offset = (size_t)ptr_dist(ptr, env->dxb_mmap.base) & ~((size_t)env->ps - 1);
+  return (const page_t *)ptr_disp(env->dxb_mmap.base, offset);
 }
 
 MDBX_NOTHROW_PURE_FUNCTION static inline meta_t *page_meta(page_t *mp) { return (meta_t *)page2payload(mp); }
-- 
2.43.0


From 0c9700d4c24f48fe7f72b3d69ea9d05f7cfafeb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:28 +0000
Subject: [PATCH 029/110] fix: a failed mdbx_dbi_open() must not close the
 DBI-handle which is in use by others

---
 mdbx.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index d777e5e..053f1bb 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -17536,11 +17536,11 @@ static int dbi_open_locked(MDBX_txn *txn, cursor_couple_t *maindb_cx, unsigned u
         rc = dbi_import(txn, slot);
       }
       if (unlikely(rc != MDBX_SUCCESS))
-        goto gone;
+        return rc;
 
       rc = dbi_bind(txn, slot, user_flags, keycmp, datacmp);
       if (unlikely(rc != MDBX_SUCCESS))
-        goto gone;
+        return rc;
 
       if (unlikely((txn->dbi_state[slot] & DBI_STALE) == 0))
         goto done;
@@ -17567,8 +17567,10 @@ static int dbi_open_locked(MDBX_txn *txn, cursor_couple_t *maindb_cx, unsigned u
         goto create;
       }
 
-    gone:
-      *defer_chain = dbi_close_locked(env, slot);
+      /* the handle is shared with other transactions, so it could be released only if the table is gone in
+       * the most recent state, but neither is absent in an outdated MVCC-snapshot nor because of other errors */
+      if (rc == MDBX_NOTFOUND && (txn->flags & txn_ro_both) == 0)
+        *defer_chain = dbi_close_locked(env, slot);
       return rc;
     }
   }
-- 
2.43.0


From 8d1f09a41e15aaddd528cf4f991cb038464b3f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:28 +0000
Subject: [PATCH 030/110] fix: mdbx_dbi_open() of a non-empty table with
 MDBX_CREATE and other flags must be refused

---
 mdbx.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index 053f1bb..e8a7d2c 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -17407,7 +17407,7 @@ int dbi_bind(MDBX_txn *txn, const size_t dbi, unsigned user_flags, MDBX_cmp_func
       if (txn->dbi_state[dbi] & DBI_STALE) {
         eASSERT0(env, env->dbs_flags[dbi] & DB_VALID);
         int err = tbl_refresh(txn, dbi);
-        if (unlikely(err != MDBX_NOTFOUND))
+        if (unlikely(err != MDBX_SUCCESS && err != MDBX_NOTFOUND))
           return err;
       }
       eASSERT0(env, ((env->dbs_flags[dbi] ^ txn->dbs[dbi].flags) & DB_PERSISTENT_FLAGS) == 0);
-- 
2.43.0


From cddf9aae4556311ae85d007645d5a8ee257865b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:28 +0000
Subject: [PATCH 031/110] fix: mdbx_txn_park() of a write transaction must
 return MDBX_BAD_TXN

---
 mdbx.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index e8a7d2c..6d8c743 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -11130,7 +11130,7 @@ int mdbx_txn_park(MDBX_txn *txn, bool autounpark) {
     return LOG_IFERR(rc);
 
   if (unlikely((txn->flags & txn_ro_flat) == 0))
-    return LOG_IFERR(MDBX_TXN_INVALID);
+    return LOG_IFERR(MDBX_BAD_TXN);
 
   return LOG_IFERR(txn_ro_park(txn, autounpark));
 }
-- 
2.43.0


From 2aa693488e50bda79e0c498e42ed1235e779a760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:28 +0000
Subject: [PATCH 032/110] fix: refuse cursors of different transactions or
 tables in ranged operations

---
 mdbx.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index 6d8c743..aabbaa2 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -6507,7 +6507,7 @@ int mdbx_cursor_delete_range(MDBX_cursor *begin, MDBX_cursor *end, bool end_incl
       return LOG_IFERR(MDBX_ENODATA);
   }
 
-  if (unlikely(begin && end && begin->txn != end->txn && begin->tree != end->tree))
+  if (unlikely(begin && end && (begin->txn != end->txn || begin->tree != end->tree)))
     return LOG_IFERR(MDBX_EINVAL);
 
   cursor_couple_t couple;
@@ -6564,7 +6564,7 @@ int mdbx_cursor_distribute(const MDBX_cursor *begin, const MDBX_cursor *end, MDB
       return LOG_IFERR(MDBX_ENODATA);
   }
 
-  if (unlikely(begin && end && begin->txn != end->txn && begin->tree != end->tree))
+  if (unlikely(begin && end && (begin->txn != end->txn || begin->tree != end->tree)))
     return LOG_IFERR(MDBX_EINVAL);
 
   const MDBX_cursor *ref = begin ? begin : end;
@@ -6574,7 +6574,7 @@ int mdbx_cursor_distribute(const MDBX_cursor *begin, const MDBX_cursor *end, MDB
       rc = cursor_check_pure(iter = array[i]);
       if (unlikely(rc != MDBX_SUCCESS))
         return LOG_IFERR(rc);
-      if (unlikely(iter->txn != ref->txn && iter->tree != ref->tree))
+      if (unlikely(iter->txn != ref->txn || iter->tree != ref->tree))
         return LOG_IFERR(MDBX_EINVAL);
     }
   }
@@ -6638,7 +6638,7 @@ int mdbx_cursor_distance(const MDBX_cursor *begin, const MDBX_cursor *end, intpt
       return LOG_IFERR(MDBX_ENODATA);
   }
 
-  if (unlikely(begin && end && begin->txn != end->txn && begin->tree != end->tree))
+  if (unlikely(begin && end && (begin->txn != end->txn || begin->tree != end->tree)))
     return LOG_IFERR(MDBX_EINVAL);
 
   cursor_couple_t couple_opposite;
-- 
2.43.0


From 8c24e2bedf74d47ccd8a43034a235e51beac1f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:28 +0000
Subject: [PATCH 033/110] fix: mdbx_cursor_renew() must check the given
 transaction and binding of the cursor

---
 mdbx.c | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index aabbaa2..b692fbe 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -5609,7 +5609,17 @@ MDBX_cursor *mdbx_cursor_create(void *context) {
 }
 
 int mdbx_cursor_renew(MDBX_txn *txn, MDBX_cursor *mc) {
-  return likely(mc) ? mdbx_cursor_bind(txn, mc, (kvx_t *)mc->clc - txn->env->kvs) : LOG_IFERR(MDBX_EINVAL);
+  if (unlikely(!mc))
+    return LOG_IFERR(MDBX_EINVAL);
+
+  int rc = check_txn(txn, MDBX_TXN_FINISHED | MDBX_TXN_HAS_CHILD);
+  if (unlikely(rc != MDBX_SUCCESS))
+    return LOG_IFERR(rc);
+
+  if (unlikely(!mc->clc))
+    return LOG_IFERR(MDBX_BAD_DBI);
+
+  return mdbx_cursor_bind(txn, mc, (kvx_t *)mc->clc - txn->env->kvs);
 }
 
 int mdbx_cursor_reset(MDBX_cursor *mc) {
-- 
2.43.0


From 70f84ec24642ce4f2f4aa9f0de926438d22cbf49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:29 +0000
Subject: [PATCH 034/110] fix: bulk deletion of all items must not reset the
 sequence of a table

---
 mdbx.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index b692fbe..fbf552e 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -6744,9 +6744,12 @@ __cold int mdbx_drop(MDBX_txn *txn, MDBX_dbi dbi, bool del) {
   if (unlikely(rc != MDBX_SUCCESS))
     return LOG_IFERR(rc);
 
+  /* the sequence should be reset by clearing of a table, but not by deletion of items */
+  const uint64_t sequence = cx.outer.tree->height ? 0 : cx.outer.tree->sequence;
   rc = tbl_purge(&cx.outer);
   if (unlikely(rc != MDBX_SUCCESS))
     return LOG_IFERR(rc);
+  cx.outer.tree->sequence = sequence;
 
   if (!del || dbi < CORE_DBS)
     return MDBX_SUCCESS;
@@ -36669,7 +36672,6 @@ int tbl_purge(MDBX_cursor *mc) {
     mc->tree->large_pages = 0;
     mc->tree->items = 0;
     mc->tree->root = P_INVALID;
-    mc->tree->sequence = 0;
     /* mc->tree->mod_txnid = txn->txnid; */
     mc->txn->flags |= MDBX_TXN_DIRTY;
 
-- 
2.43.0


From 5034894f009865b7468bac0c784ee61f8f61963b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:36 +0000
Subject: [PATCH 035/110] fix: mdbx_txn_amend() must sign the write transaction
 even when it is the first one of the environment

---
 mdbx.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mdbx.c b/mdbx.c
index fbf552e..b5470fc 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -11774,6 +11774,7 @@ int mdbx_txn_amend(MDBX_txn *rtxn, MDBX_txn **ptxn, MDBX_txn_flags_t flags, void
 
   if (!F_ISSET(flags, MDBX_TXN_RDONLY_PREPARE))
     txn_ro_free(rtxn);
+  env->basal_txn->signature = txn_signature;
   env->basal_txn->userctx = context;
   *ptxn = env->basal_txn;
   return MDBX_SUCCESS;
-- 
2.43.0


From da10ee74a31dd70bd1f5f1cc7b1bb02cb0ab5deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:09 +0000
Subject: [PATCH 036/110] fix: MDBX_TXN_TRY must not remain among the flags of
 a write transaction

---
 mdbx.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index b5470fc..2a9bd6f 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -39244,7 +39244,7 @@ static int basal_start_locked(MDBX_txn *txn, unsigned flags) {
     return MDBX_EPERM;
 #endif /* Windows */
 
-  txn->flags = flags & ~txn_rw_already_locked;
+  txn->flags = flags & ~(txn_rw_already_locked | MDBX_TXN_TRY);
   txn->nested = nullptr;
   txn->wr.loose_pages = nullptr;
   txn->wr.loose_count = 0;
-- 
2.43.0


From fa6cf5ce498e63b9f2025e43bb4b684d9b4259bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:10 +0000
Subject: [PATCH 037/110] fix: mdbx_txn_refresh() must not take an older
 snapshot for the recent one while meta-pages are being updated

---
 mdbx.c | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index 2a9bd6f..f684a74 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -27486,9 +27486,14 @@ __hot troika_t meta_tap(const MDBX_env *env) {
 }
 
 txnid_t recent_committed_txnid(const MDBX_env *env) {
-  const txnid_t m0 = meta_txnid(METAPAGE(env, 0));
-  const txnid_t m1 = meta_txnid(METAPAGE(env, 1));
-  const txnid_t m2 = meta_txnid(METAPAGE(env, 2));
+  /* The meta-pages could be updated in between of reads, i.e. the values must be confirmed by reading again,
+   * otherwise a mix of an older values with one being updated could be obtained. */
+  txnid_t m0, m1, m2;
+  do {
+    m0 = meta_txnid(METAPAGE(env, 0));
+    m1 = meta_txnid(METAPAGE(env, 1));
+    m2 = meta_txnid(METAPAGE(env, 2));
+  } while (unlikely(m0 != meta_txnid(METAPAGE(env, 0)) || m1 != meta_txnid(METAPAGE(env, 1))));
   return (m0 > m1) ? ((m0 > m2) ? m0 : m2) : ((m1 > m2) ? m1 : m2);
 }
 
-- 
2.43.0


From 1ee6363e50463ae27cb4111d754c85b7a40d853b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:00 +0000
Subject: [PATCH 038/110] Mark the advisory shared words for ThreadSanitizer
 (guarded by MDBX_VF_TSAN)

---
 mdbx-internals.h | 14 +++++++++++---
 mdbx.c           | 12 ++++++------
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/mdbx-internals.h b/mdbx-internals.h
index 36d6c60..f302396 100644
--- a/mdbx-internals.h
+++ b/mdbx-internals.h
@@ -1277,15 +1277,23 @@ MDBX_MAYBE_UNUSED static inline bool osal_yield(void) {
 #endif
 }
 
+/* With MDBX_VF_TSAN the words, that threads are deliberately read without an ordering, are volatile and so could be
+ * distinguished by ThreadSanitizer (see -tsan-distinguish-volatile) from all the rest. */
+#ifdef MDBX_VF_TSAN
+#define vf_advisory volatile
+#else
+#define vf_advisory
+#endif /* MDBX_VF_TSAN */
+
 typedef struct osal_mmap {
   union {
     void *base;
     struct shared_lck *lck;
   };
   mdbx_filehandle_t fd;
-  size_t limit;   /* mapping length, but NOT a size of file nor DB */
-  size_t current; /* mapped region size, i.e. the size of file and DB */
-  uint64_t filesize /* in-process cache of a file size */;
+  vf_advisory size_t limit;   /* mapping length, but NOT a size of file nor DB */
+  vf_advisory size_t current; /* mapped region size, i.e. the size of file and DB */
+  vf_advisory uint64_t filesize /* in-process cache of a file size */;
 #if defined(_WIN32) || defined(_WIN64)
   HANDLE section; /* memory-mapped section handle */
 #endif
diff --git a/mdbx.c b/mdbx.c
index f684a74..f707e25 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -920,10 +920,10 @@ typedef sfr_t (*MDBX_search_foliage)(MDBX_cursor *mc, const MDBX_val *key);
 
 /* Comparing/ordering and length constraints */
 typedef struct clc {
-  MDBX_cmp_func cmp; /* comparator */
-  size_t lmin, lmax; /* min/max length constraints */
-  MDBX_search_branch search_branch;
-  MDBX_search_foliage search_foliage;
+  vf_advisory MDBX_cmp_func cmp; /* comparator */
+  vf_advisory size_t lmin, lmax; /* min/max length constraints */
+  vf_advisory MDBX_search_branch search_branch;
+  vf_advisory MDBX_search_foliage search_foliage;
   void *reserve_node_add;
   void *reserve_node_del;
 } clc_t;
@@ -1003,7 +1003,7 @@ struct MDBX_txn {
   int32_t signature;
   uint32_t flags; /* Transaction Flags */
   size_t n_dbi;
-  size_t owner; /* thread ID that owns this transaction */
+  vf_advisory size_t owner; /* thread ID that owns this transaction */
 
   MDBX_txn *parent; /* parent of a nested txn */
   MDBX_txn *nested; /* nested txn under this txn,
@@ -1321,7 +1321,7 @@ struct MDBX_env {
 
   /* --------------------------------------------------- mostly volatile part */
 
-  MDBX_txn *txn; /* current write transaction */
+  MDBX_txn *vf_advisory txn; /* current write transaction */
   struct {
     txnid_t detent;
   } gc;
-- 
2.43.0


From 1b898ea90dfdd567256b353ee49495033c6b8d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:38 +0000
Subject: [PATCH 039/110] fix: options for pages reserve and augmentation must
 be changed under the writer lock

---
 mdbx.c | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index f707e25..37efefb 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -9839,13 +9839,13 @@ __cold int mdbx_env_set_option(MDBX_env *env, const MDBX_option_t option, uint64
       value = default_dp_reserve_limit(env);
     if (unlikely(value > INT_MAX))
       return LOG_IFERR(MDBX_EINVAL);
+    if (lock_needed) {
+      err = lck_txn_lock(env, false);
+      if (unlikely(err != MDBX_SUCCESS))
+        return LOG_IFERR(err);
+      should_unlock = true;
+    }
     if (env->options.dp_reserve_limit != (unsigned)value) {
-      if (lock_needed) {
-        err = lck_txn_lock(env, false);
-        if (unlikely(err != MDBX_SUCCESS))
-          return LOG_IFERR(err);
-        should_unlock = true;
-      }
       env->options.dp_reserve_limit = (unsigned)value;
       while (env->shadow_reserve_len > env->options.dp_reserve_limit) {
         eASSERT0(env, env->shadow_reserve != nullptr);
@@ -9861,12 +9861,18 @@ __cold int mdbx_env_set_option(MDBX_env *env, const MDBX_option_t option, uint64
     break;
 
   case MDBX_opt_rp_augment_limit:
+    if (value != /* default */ UINT64_MAX && unlikely(value > PAGELIST_LIMIT))
+      return LOG_IFERR(MDBX_EINVAL);
+    if (lock_needed) {
+      err = lck_txn_lock(env, false);
+      if (unlikely(err != MDBX_SUCCESS))
+        return LOG_IFERR(err);
+      should_unlock = true;
+    }
     if (value == /* default */ UINT64_MAX) {
       env->options.flags.non_auto.rp_augment_limit = 0;
       env->options.rp_augment_limit = default_rp_augment_limit(env);
-    } else if (unlikely(value > PAGELIST_LIMIT))
-      return LOG_IFERR(MDBX_EINVAL);
-    else {
+    } else {
       env->options.flags.non_auto.rp_augment_limit = 1;
       env->options.rp_augment_limit = (unsigned)value;
     }
-- 
2.43.0


From b846354cec5aed19788d0f15a74b34de2c0aa3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:40 +0000
Subject: [PATCH 040/110] fix: don't assert on a meta-page whose update was
 interrupted by the death of a previous writer

---
 mdbx.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index 37efefb..06222df 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -3355,7 +3355,8 @@ MDBX_NOTHROW_PURE_FUNCTION static inline txnid_t constmeta_txnid(const meta_t *m
 
 static inline void meta_update_begin(const MDBX_env *env, meta_t *meta, txnid_t txnid) {
   eASSERT0(env, meta >= METAPAGE(env, 0) && meta < METAPAGE_END(env));
-  eASSERT0(env, unaligned_peek_u64(4, meta->txnid_a) < txnid && unaligned_peek_u64(4, meta->txnid_b) < txnid);
+  /* txnid_a could be equal to the txnid if a previous writer was killed amid the update of the same meta-page */
+  eASSERT0(env, unaligned_peek_u64(4, meta->txnid_a) <= txnid && unaligned_peek_u64(4, meta->txnid_b) < txnid);
   (void)env;
 #if (defined(__amd64__) || defined(__e2k__)) && !defined(ENABLE_UBSAN) && MDBX_UNALIGNED_OK >= 8
   atomic_store64((mdbx_atomic_uint64_t *)&meta->txnid_b, 0, mo_AcquireRelease);
-- 
2.43.0


From 02c2050881526bd1502edca132c3350e67821150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:58 +0000
Subject: [PATCH 041/110] fix: opening a DB must choose among steady and
 same-boot weak meta-pages regardless of their order

---
 mdbx.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index 06222df..dddf3fe 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -19859,12 +19859,10 @@ __cold int dxb_read_header(MDBX_env *env, meta_t *dest, const int lck_exclusive,
     bool latch;
     if (env->stuck_meta >= 0)
       latch = (meta_number == (unsigned)env->stuck_meta);
-    else if (meta_bootid_match(meta))
-      latch = meta_choice_recent(meta->unsafe_txnid, SIGN_IS_STEADY(meta->unsafe_sign), dest->unsafe_txnid,
-                                 SIGN_IS_STEADY(dest->unsafe_sign));
     else
-      latch = meta_choice_steady(meta->unsafe_txnid, SIGN_IS_STEADY(meta->unsafe_sign), dest->unsafe_txnid,
-                                 SIGN_IS_STEADY(dest->unsafe_sign));
+      /* A weak meta-page of the current boot is as good as a steady one, regardless of the order of pages. */
+      latch = meta_choice_steady(meta->unsafe_txnid, SIGN_IS_STEADY(meta->unsafe_sign) || meta_bootid_match(meta),
+                                 dest->unsafe_txnid, SIGN_IS_STEADY(dest->unsafe_sign) || meta_bootid_match(dest));
     if (latch) {
       *dest = *meta;
       if (!lck_exclusive && !meta_is_steady(dest))
-- 
2.43.0


From 8cb61c56283cbb25baa38ceff600483e5ca01c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:26 +0000
Subject: [PATCH 042/110] fix: deletion of a table within a nested transaction
 must not lose its changes made by outer ones

---
 mdbx.c | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index dddf3fe..fbf3fc8 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -6768,7 +6768,10 @@ __cold int mdbx_drop(MDBX_txn *txn, MDBX_dbi dbi, bool del) {
       if (likely(rc == MDBX_SUCCESS)) {
         cASSERT0(txn, txn->dbi_state[MAIN_DBI] & DBI_DIRTY);
         cASSERT0(txn, txn->flags & MDBX_TXN_DIRTY);
-        txn->dbi_state[dbi] = DBI_LINDO | DBI_OLDEN;
+        /* the handle will be closed for the outer transactions too, even if the nested one will be aborted,
+         * while their changes of the table was already saved into the MainDB by nested_start() */
+        for (MDBX_txn *scan = txn; scan; scan = scan->parent)
+          scan->dbi_state[dbi] = DBI_LINDO | DBI_OLDEN;
         rc = osal_fastmutex_acquire(&env->dbi_lock);
         if (likely(rc == MDBX_SUCCESS))
           return LOG_IFERR(dbi_close_release(env, dbi));
@@ -17261,7 +17264,7 @@ __noinline int dbi_import(MDBX_txn *txn, const size_t dbi) {
     txn->dbi_seqs[dbi] = 0;
     txn->dbi_state[dbi] = DBI_LINDO;
   } else {
-    eASSERT0(env, txn->dbi_seqs[dbi] != env->dbi_seqs[dbi].weak);
+    eASSERT0(env, txn->dbi_seqs[dbi] != env->dbi_seqs[dbi].weak || (txn->dbi_state[dbi] & DBI_OLDEN) != 0);
     if (unlikely(txn->cursors[dbi])) {
       /* хендл уже использовался в транзакции и остались висячие курсоры */
       txn->dbi_seqs[dbi] = env->dbi_seqs[dbi].weak;
@@ -39969,6 +39972,16 @@ static void nested_merge(MDBX_txn *const parent, MDBX_txn *const nested, const s
 static int nested_start(MDBX_txn *const nested, MDBX_txn *parent) {
   tASSERT1(parent, txn_dpl_check(parent));
 
+  int err = MDBX_SUCCESS;
+  if ((parent->flags & MDBX_TXN_DIRTY) && !(nested->flags & txn_ro_nested)) {
+    /* Save the changes of tables made by the parent into the MainDB, otherwise these would be lost
+     * when the nested transaction deletes a table (i.e. closes its handle) and then will be aborted. */
+    parent->flags &= ~MDBX_TXN_HAS_CHILD;
+    nested->env->txn = parent;
+    err = txn_basal_update_tbl_roots(parent);
+    nested->flags |= parent->flags & MDBX_TXN_SPILLS;
+  }
+
   nested->txnid = parent->txnid;
   nested->front_txnid = parent->front_txnid + 1;
   nested->canary = parent->canary;
@@ -39991,7 +40004,8 @@ static int nested_start(MDBX_txn *const nested, MDBX_txn *parent) {
   nested->dbi_seqs = parent->dbi_seqs;
   nested->geo = parent->geo;
 
-  int err = txn_dpl_alloc(nested);
+  if (likely(err == MDBX_SUCCESS))
+    err = txn_dpl_alloc(nested);
   if (unlikely(err != MDBX_SUCCESS))
     return LOG_IFERR(err);
 
@@ -40229,7 +40243,7 @@ static int nested_join(MDBX_txn *nested, struct commit_timestamp *ts) {
   eASSERT0(env, parent->n_dbi == nested->n_dbi);
   TXN_FOREACH_DBI_ALL(nested, dbi) {
     if (nested->dbi_state[dbi] != (parent->dbi_state[dbi] & ~(DBI_FRESH | DBI_CREAT | DBI_DIRTY))) {
-      eASSERT0(env, (nested->dbi_state[dbi] & (DBI_CREAT | DBI_FRESH | DBI_DIRTY)) != 0 ||
+      eASSERT0(env, ((nested->dbi_state[dbi] & (DBI_CREAT | DBI_FRESH | DBI_DIRTY)) | (parent->dbi_state[dbi] & DBI_OLDEN)) != 0 ||
                         (nested->dbi_state[dbi] | DBI_STALE) ==
                             (parent->dbi_state[dbi] & ~(DBI_FRESH | DBI_CREAT | DBI_DIRTY)));
       parent->dbs[dbi] = nested->dbs[dbi];
-- 
2.43.0


From a7340740ef78c45e74701dc55f012ddc4dbd6b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:57 +0000
Subject: [PATCH 043/110] fix: an explicit shrinking must not truncate pages
 used by the last committed or the last steady snapshot

---
 mdbx.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index fbf3fc8..30cf193 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -8013,7 +8013,16 @@ __cold int mdbx_env_set_geometry(MDBX_env *env, intptr_t size_lower, intptr_t si
     if (shrink_threshold < 0)
       shrink_threshold = pgno2bytes(env, pv2pages(geo->shrink_pv));
 
-    const size_t usedbytes = pgno_ceil2os_bytes(env, mvcc_snapshot_largest(env, geo->first_unallocated));
+    /* the file must not be truncated below the pages used by the last committed and the last steady snapshots,
+     * i.e. until the current transaction and/or a weak one have not become durable */
+    pgno_t last_used = geo->first_unallocated;
+    const meta_ptr_t recent = meta_recent(env, &env->basal_txn->wr.troika);
+    if (last_used < recent.ptr_c->geometry.first_unallocated)
+      last_used = recent.ptr_c->geometry.first_unallocated;
+    const meta_ptr_t prefer_steady = meta_prefer_steady(env, &env->basal_txn->wr.troika);
+    if (last_used < prefer_steady.ptr_c->geometry.first_unallocated)
+      last_used = prefer_steady.ptr_c->geometry.first_unallocated;
+    const size_t usedbytes = pgno_ceil2os_bytes(env, mvcc_snapshot_largest(env, last_used));
     if ((size_t)size_upper < usedbytes) {
       rc = MDBX_MAP_FULL;
       goto bailout;
-- 
2.43.0


From c9df07818bab213261cf2283509abcce5d60e8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:36 +0000
Subject: [PATCH 044/110] fix: a steady checkpoint made to reclaim pages must
 be flushed together with its meta-page

Otherwise the pages of the previous steady snapshot were overwritten while the
new meta-page might be not written yet, so a system crash corrupted the DB.
---
 mdbx.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index 30cf193..d3507d4 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -18076,7 +18076,7 @@ static int defrag_load_gc(dfc_t *dfc) {
             const meta_ptr_t recent = meta_recent(txn->env, &txn->wr.troika);
             ASSERT(recent.txnid > txn->env->gc.detent);
             meta_t meta = *recent.ptr_c;
-            rc = dxb_sync_locked(txn->env, txn->env->flags & (MDBX_WRITEMAP | MDBX_NOMETASYNC), &meta, &txn->wr.troika);
+            rc = dxb_sync_locked(txn->env, txn->env->flags & MDBX_WRITEMAP, &meta, &txn->wr.troika);
             if (unlikely(rc != MDBX_SUCCESS))
               break;
           }
@@ -22983,7 +22983,7 @@ depleted_gc:
       env->lck->pgops.gc_prof.flushes += 1;
 #endif /* MDBX_ENABLE_PROFGC */
       meta_t meta = *recent.ptr_c;
-      ret.err = dxb_sync_locked(env, env->flags & (MDBX_WRITEMAP | MDBX_NOMETASYNC), &meta, &txn->wr.troika);
+      ret.err = dxb_sync_locked(env, env->flags & MDBX_WRITEMAP, &meta, &txn->wr.troika);
       DEBUG("gc-make-steady, rc %d", ret.err);
       eASSERT0(env, ret.err != MDBX_RESULT_TRUE);
       if (unlikely(ret.err != MDBX_SUCCESS))
-- 
2.43.0


From 48bd870eb4814110e74cb1bc5403c9e257e7b3db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:39 +0000
Subject: [PATCH 045/110] fix: nested_join() must not assert on a table handle
 which is not used by the parent transaction

---
 mdbx.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index d3507d4..ae1fc36 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -40252,7 +40252,8 @@ static int nested_join(MDBX_txn *nested, struct commit_timestamp *ts) {
   eASSERT0(env, parent->n_dbi == nested->n_dbi);
   TXN_FOREACH_DBI_ALL(nested, dbi) {
     if (nested->dbi_state[dbi] != (parent->dbi_state[dbi] & ~(DBI_FRESH | DBI_CREAT | DBI_DIRTY))) {
-      eASSERT0(env, ((nested->dbi_state[dbi] & (DBI_CREAT | DBI_FRESH | DBI_DIRTY)) | (parent->dbi_state[dbi] & DBI_OLDEN)) != 0 ||
+      eASSERT0(env, (nested->dbi_state[dbi] & (DBI_CREAT | DBI_FRESH | DBI_DIRTY)) != 0 ||
+                        (parent->dbi_state[dbi] & DBI_VALID) == 0 ||
                         (nested->dbi_state[dbi] | DBI_STALE) ==
                             (parent->dbi_state[dbi] & ~(DBI_FRESH | DBI_CREAT | DBI_DIRTY)));
       parent->dbs[dbi] = nested->dbs[dbi];
-- 
2.43.0


From 02bd8863c14835d69f7c5dcc9b15c1726f4fb694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:39 +0000
Subject: [PATCH 046/110] fix: don't assert on a meta-page whose rollback was
 interrupted

---
 mdbx.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index ae1fc36..52b7c03 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -3355,8 +3355,10 @@ MDBX_NOTHROW_PURE_FUNCTION static inline txnid_t constmeta_txnid(const meta_t *m
 
 static inline void meta_update_begin(const MDBX_env *env, meta_t *meta, txnid_t txnid) {
   eASSERT0(env, meta >= METAPAGE(env, 0) && meta < METAPAGE_END(env));
-  /* txnid_a could be equal to the txnid if a previous writer was killed amid the update of the same meta-page */
-  eASSERT0(env, unaligned_peek_u64(4, meta->txnid_a) <= txnid && unaligned_peek_u64(4, meta->txnid_b) < txnid);
+  /* txnid_a and txnid_b could be any but not the same, if a previous update of the same meta-page was interrupted,
+   * including by a death amid the rollback of a meta-page which has a greater txnid */
+  eASSERT0(env, unaligned_peek_u64(4, meta->txnid_a) != unaligned_peek_u64(4, meta->txnid_b) ||
+                    unaligned_peek_u64(4, meta->txnid_a) < txnid);
   (void)env;
 #if (defined(__amd64__) || defined(__e2k__)) && !defined(ENABLE_UBSAN) && MDBX_UNALIGNED_OK >= 8
   atomic_store64((mdbx_atomic_uint64_t *)&meta->txnid_b, 0, mo_AcquireRelease);
-- 
2.43.0


From f0924b7bf741884497cd87e4f73fe7fd7c6f9617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:39 +0000
Subject: [PATCH 047/110] fix: MDBX_NOMETASYNC must not reuse or drop the
 previous snapshot until the recent meta-page is flushed

A lazily written meta-page was considered as a steady immediately, so pages of
the previous steady snapshot (or its meta-page) were overwritten while the new
meta-page might be not on the disk yet. A system crash at this moment led to a
corrupted DB or to a loss of more than the last transaction.
---
 mdbx.c | 49 ++++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 44 insertions(+), 5 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index 52b7c03..b47f663 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -3168,6 +3168,7 @@ typedef struct gc_pnl_result {
   const char *reason;
 } glr_t;
 MDBX_INTERNAL glr_t gc_row_pnl(const MDBX_txn *const txn, const MDBX_val data);
+MDBX_INTERNAL int gc_ensure_recent_flushed(const MDBX_txn *const txn, const txnid_t id);
 
 typedef struct defract_context {
   MDBX_txn *txn;
@@ -8311,6 +8312,13 @@ __cold int mdbx_env_set_geometry(MDBX_env *env, intptr_t size_lower, intptr_t si
       }
 #endif /* Windows */
 
+      if (new_geo.now < current_geo->now) {
+        /* pages of the previous steady snapshot could be truncated only when the recent meta-page is on the disk */
+        rc = gc_ensure_recent_flushed(env->basal_txn, MAX_TXNID);
+        if (unlikely(rc != MDBX_SUCCESS))
+          goto bailout;
+      }
+
       if (new_geo.now != current_geo->now || new_geo.upper != current_geo->upper) {
         rc = dxb_resize(env, current_geo->first_unallocated, new_geo.now, new_geo.upper, explicit_resize);
         if (unlikely(rc != MDBX_SUCCESS))
@@ -18092,6 +18100,9 @@ static int defrag_load_gc(dfc_t *dfc) {
       }
       dfc->gc_retained_pages += pnl_size(glr.pnl);
     } else if (!gc_is_reclaimed(txn, id)) {
+      rc = gc_ensure_recent_flushed(txn, id);
+      if (unlikely(rc != MDBX_SUCCESS))
+        break;
       rc = rkl_push(&txn->wr.gc.reclaimed, id);
       if (unlikely(rc != MDBX_SUCCESS))
         break;
@@ -20896,11 +20907,10 @@ int dxb_sync_locked(MDBX_env *env, unsigned flags, meta_t *const pending, troika
 
   /* LY: step#1 - sync previously written/updated data-pages */
   rc = MDBX_RESULT_FALSE /* carry steady */;
+  bool head_flushed = head.txnid == pending->unsafe_txnid || !head.is_steady || env->incore ||
+                      atomic_load32(&env->lck->meta_sync_txnid, mo_Relaxed) == (uint32_t)head.txnid;
   const uint64_t snap_unsynced_pages = atomic_load64(&env->lck->unsynced_pages, mo_Relaxed);
   if (snap_unsynced_pages) {
-    if (snap_unsynced_pages == 1 && (flags & MDBX_NOMETASYNC))
-      goto skip_lastmeta_sync;
-
     eASSERT0(env, ((flags ^ env->flags) & MDBX_WRITEMAP) == 0);
     enum osal_syncmode_bits mode_bits = MDBX_SYNC_NONE;
     if ((flags & MDBX_SAFE_NOSYNC) == 0) {
@@ -20918,6 +20928,7 @@ int dxb_sync_locked(MDBX_env *env, unsigned flags, meta_t *const pending, troika
       rc = dxb_fsync(env, mode_bits);
     if (unlikely(rc != MDBX_SUCCESS))
       goto fail;
+    head_flushed |= (mode_bits & MDBX_SYNC_DATA) != 0;
     rc = (flags & MDBX_SAFE_NOSYNC) ? MDBX_RESULT_TRUE /* carry non-steady */
                                     : MDBX_RESULT_FALSE /* carry steady */;
   }
@@ -20935,7 +20946,16 @@ int dxb_sync_locked(MDBX_env *env, unsigned flags, meta_t *const pending, troika
     /* Может быть нулевым если unsynced_pages > 0 в результате спиллинга.
      * eASSERT0(env, env->lck->eoos_timestamp.weak != 0); */
     unaligned_poke_u64(4, pending->sign, DATASIGN_WEAK);
-  skip_lastmeta_sync:;
+  }
+
+  if (unlikely(!head_flushed)) {
+    /* The steady head meta-page was updated in the MDBX_NOMETASYNC mode and still not flushed to the disk.
+     * It must be done before the previous steady meta-page becomes a tail and could be overwritten. */
+    const int err = meta_sync(env, head);
+    if (unlikely(err != MDBX_SUCCESS)) {
+      rc = err;
+      goto fail;
+    }
   }
 
   const bool legal4overwrite = head.txnid == pending->unsafe_txnid &&
@@ -21583,7 +21603,8 @@ __cold int env_open(MDBX_env *env, mdbx_mode_t mode) {
   env->flags |= ENV_ACTIVE;
   if (!lck || lck_rc == MDBX_RESULT_TRUE) {
     env->lck->envmode.weak = env->flags & mode_flags;
-    env->lck->meta_sync_txnid.weak = (uint32_t)recent_committed_txnid(env);
+    /* it is unknown whether the recent meta-page was flushed to the disk by a previous process(es) */
+    env->lck->meta_sync_txnid.weak = (uint32_t)recent_committed_txnid(env) - MDBX_NOMETASYNC_LAZY_UNK;
     env->lck->readers_check_timestamp.weak = osal_monotime();
   }
   if (lck) {
@@ -22605,6 +22626,21 @@ MDBX_cursor *gc_cursor_init(MDBX_txn *txn) {
   return gc;
 }
 
+/* Pages retired by the recent transaction(s) still belong to the previous steady snapshot. So before such pages will be
+ * reused, the recent steady meta-page must be flushed to the disk, which is postponed in the MDBX_NOMETASYNC mode. */
+int gc_ensure_recent_flushed(const MDBX_txn *const txn, const txnid_t id) {
+  const MDBX_env *const env = txn->env;
+  const troika_t *const troika = &txn->wr.troika;
+  const meta_ptr_t recent = meta_recent(env, troika);
+  if (likely(!recent.is_steady || env->incore ||
+             atomic_load32(&env->lck->meta_sync_txnid, mo_Relaxed) == (uint32_t)recent.txnid))
+    return MDBX_SUCCESS;
+  for (size_t i = 0; i < NUM_METAS; ++i)
+    if (i != troika->recent && ((troika->fsm >> i) & 1) && id <= troika->txnid[i])
+      return MDBX_SUCCESS;
+  return meta_sync(env, recent);
+}
+
 pgr_t gc_alloc_ex(const MDBX_cursor *const mc, const size_t num, uint8_t flags) {
   pgr_t ret;
   MDBX_txn *const txn = mc->txn;
@@ -22751,6 +22787,9 @@ next_gc:
       goto next_gc;
   }
   txn->flags &= ~txn_gc_drained;
+  ret.err = gc_ensure_recent_flushed(txn, id);
+  if (unlikely(ret.err != MDBX_SUCCESS))
+    goto fail;
 
   /* Reading GC record */
   MDBX_val data;
-- 
2.43.0


From e77d3029285acabf8526455445f723c411231214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:00 +0000
Subject: [PATCH 048/110] fix: a torn signature of a meta-page must not be
 taken as a steady one

---
 mdbx-internals.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mdbx-internals.h b/mdbx-internals.h
index f302396..ea9ec99 100644
--- a/mdbx-internals.h
+++ b/mdbx-internals.h
@@ -2541,7 +2541,8 @@ typedef struct meta {
 
 #define DATASIGN_NONE 0u
 #define DATASIGN_WEAK 1u
-#define SIGN_IS_STEADY(sign) ((sign) > DATASIGN_WEAK)
+/* A signature is not updated atomically, so both halves must be checked: a torn one shouldn't be taken as a steady */
+#define SIGN_IS_STEADY(sign) ((uint32_t)(sign) > DATASIGN_WEAK && (uint32_t)((sign) >> 32) > 0)
   union {
     uint32_t sign[2];
     uint64_t unsafe_sign;
-- 
2.43.0


From 963e2d943129574035878b5ac20786e065efb7a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:51 +0000
Subject: [PATCH 049/110] fix: plain (not compacting) copy of a database has to
 carry the snapshot's trees and geometry in its meta-page

---
 mdbx.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/mdbx.c b/mdbx.c
index b47f663..e946ee4 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -5219,6 +5219,15 @@ __cold static int copy_asis(MDBX_env *env, MDBX_txn *txn, mdbx_filehandle_t fd,
   meta_t *const meta = meta_init_triplet(env, buffer);
   meta_set_txnid(env, meta, txn->txnid);
 
+  /* the snapshot being copied */
+  meta->geometry = txn->geo;
+  meta->trees.gc = txn->dbs[FREE_DBI];
+  meta->trees.main = txn->dbs[MAIN_DBI];
+  if (!meta->trees.gc.mod_txnid && meta->trees.gc.root != P_INVALID)
+    meta->trees.gc.mod_txnid = txn->txnid;
+  if (!meta->trees.main.mod_txnid && meta->trees.main.root != P_INVALID)
+    meta->trees.main.mod_txnid = txn->txnid;
+
   if (flags & MDBX_CP_FORCE_DYNAMIC_SIZE)
     meta_make_sizeable(meta);
 
@@ -5227,6 +5236,7 @@ __cold static int copy_asis(MDBX_env *env, MDBX_txn *txn, mdbx_filehandle_t fd,
     meta->canary = txn->canary;
     meta->canary.v = constmeta_txnid(meta);
   }
+  meta_sign_as_steady(meta);
 
   int rc = MDBX_SUCCESS;
   if (flags & MDBX_CP_THROTTLE_MVCC) {
-- 
2.43.0


From dac03c26534c2f0b302b71475da11e877b6d92ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:28 +0000
Subject: [PATCH 050/110] fix: compacting copy to a pipe has to point to the
 root page where it will be in the copy

---
 mdbx.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index e946ee4..83e41a0 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -5136,9 +5136,12 @@ __cold static int copy_with_compacting(MDBX_env *env, MDBX_txn *txn, mdbx_fileha
     osal_thread_t thread;
     int thread_err = osal_thread_create(&thread, compacting_write_thread, &ctx);
     if (likely(thread_err == MDBX_SUCCESS)) {
+      tree_t main_tree = meta->trees.main;
       if (dest_is_pipe) {
         if (!meta->trees.main.mod_txnid)
           meta->trees.main.mod_txnid = txn->txnid;
+        /* the root page will be the last one of the copy */
+        meta->trees.main.root = meta->geometry.first_unallocated - 1;
         compacting_fixup_meta(env, meta);
         if (flags & MDBX_CP_THROTTLE_MVCC)
           mdbx_txn_park(txn, false);
@@ -5147,7 +5150,9 @@ __cold static int copy_with_compacting(MDBX_env *env, MDBX_txn *txn, mdbx_fileha
           rc = mdbx_txn_unpark(txn, false);
       }
       if (likely(rc == MDBX_SUCCESS))
-        rc = compacting_walk_tree(&ctx, &meta->trees.main);
+        rc = compacting_walk_tree(&ctx, &main_tree);
+      if (likely(rc == MDBX_SUCCESS) && !dest_is_pipe)
+        meta->trees.main = main_tree;
       if (ctx.write_len[ctx.head & 1])
         /* toggle to flush non-empty buffers */
         compacting_toggle_write_buffers(&ctx);
-- 
2.43.0


From 021335e81e96447874131d24e22043f35ce0ff30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:28 +0000
Subject: [PATCH 051/110] fix: plain copy to a pipe must not write the
 meta-pages twice

---
 mdbx.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index 83e41a0..21f8d80 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -5256,7 +5256,6 @@ __cold static int copy_asis(MDBX_env *env, MDBX_txn *txn, mdbx_filehandle_t fd,
     rc = osal_write(fd, buffer, meta_bytes);
     if (unlikely(rc != MDBX_SUCCESS))
       return rc;
-    offset = 0;
   }
 
 #if MDBX_USE_COPYFILERANGE
-- 
2.43.0


From cabf4d667b78becb0e3b3c8fc9b04e617da0dfe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:18 +0000
Subject: [PATCH 052/110] fix: the number of pages shrinked by a
 defragmentation may be negative

---
 mdbx.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index 21f8d80..0c60cb1 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -17960,7 +17960,7 @@ uint64_t defrag_result(dfc_t *dfc, MDBX_defrag_result_t *out, uint64_t now_cache
   memset(out, 0, sizeof(*out));
   if (dfc->txn)
     dfc->last_allocated = dfc->txn->geo.first_unallocated;
-  out->pages_shrinked = dfc->before_defrag - dfc->last_allocated;
+  out->pages_shrinked = (intptr_t)dfc->before_defrag - (intptr_t)dfc->last_allocated;
   out->pages_moved = dfc->cycle_pages_moved;
   out->pages_scheduled = dfc->cycle_pages_scheduled;
   out->pages_retained = dfc->gc_retained_pages;
-- 
2.43.0


From eea990ec688de59f3c2f8994cbe6fa3e965fb218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:45 +0000
Subject: [PATCH 053/110] fix: defragmentation must not move pages to and fro
 endlessly without a gain

---
 mdbx.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/mdbx.c b/mdbx.c
index 0c60cb1..02d749a 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -8741,6 +8741,8 @@ __cold int mdbx_env_defrag(MDBX_env *env, size_t defrag_atleast, size_t time_atl
   dfc.user_ctx = ctx;
   dfc.user_callback = progress_callback;
 
+  pgno_t best_allocated = txn->geo.first_unallocated;
+  size_t idle_moves = 0;
   while ((size_t)acceptable_backlash + dfc.payload_pages < txn->geo.first_unallocated && !defrag_discontinued(&dfc)) {
     const pgno_t prev_stumble = dfc.stumble_pgno;
     rc = defrag_cycle(&dfc);
@@ -8763,6 +8765,16 @@ __cold int mdbx_env_defrag(MDBX_env *env, size_t defrag_atleast, size_t time_atl
       break;
     }
 
+    /* moving of pages to and fro without any gain must not last forever */
+    idle_moves += dfc.cycle_pages_moved + 1;
+    if (txn->geo.first_unallocated < best_allocated) {
+      best_allocated = txn->geo.first_unallocated;
+      idle_moves = 0;
+    } else if (idle_moves > txn->geo.first_unallocated && !MDBX_IS_ERROR(rc)) {
+      NOTICE("bailout since no gain after %zu movements", idle_moves);
+      rc = MDBX_RESULT_TRUE;
+    }
+
     if ((dfc.stopping_reasons & MDBX_defrag_laggard_reader) != 0 && txn_gc_detent(txn))
       dfc.stopping_reasons -= MDBX_defrag_laggard_reader;
 
-- 
2.43.0


From 0ab3c70ea9c0eb6668b381e0a6718fcdacb25803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:41 +0000
Subject: [PATCH 054/110] fix: defragmentation must report the size reached by
 what it committed

---
 mdbx.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index 02d749a..702cb33 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -8741,6 +8741,7 @@ __cold int mdbx_env_defrag(MDBX_env *env, size_t defrag_atleast, size_t time_atl
   dfc.user_ctx = ctx;
   dfc.user_callback = progress_callback;
 
+  pgno_t committed_allocated = txn->geo.first_unallocated;
   pgno_t best_allocated = txn->geo.first_unallocated;
   size_t idle_moves = 0;
   while ((size_t)acceptable_backlash + dfc.payload_pages < txn->geo.first_unallocated && !defrag_discontinued(&dfc)) {
@@ -8790,16 +8791,20 @@ __cold int mdbx_env_defrag(MDBX_env *env, size_t defrag_atleast, size_t time_atl
     rc = txn_basal_checkpoint(txn, MDBX_TXN_NOMETASYNC, nullptr);
     if (unlikely(rc != MDBX_SUCCESS)) {
       dfc.txn = txn = nullptr;
+      dfc.last_allocated = committed_allocated;
       dfc.stopping_reasons |= MDBX_defrag_error;
       break;
     }
+    committed_allocated = txn->geo.first_unallocated;
   }
 
   if (txn && txn->userctx == &dfc) {
+    dfc.last_allocated = committed_allocated;
     if ((txn->flags & MDBX_TXN_ERROR) == 0) {
-      if (defrag_score(&dfc, dfc.last_allocated = txn->geo.first_unallocated) > dfc.cycle_initial_score) {
+      if (defrag_score(&dfc, txn->geo.first_unallocated) > dfc.cycle_initial_score) {
         rc = txn_basal_commit(txn, nullptr);
-        dfc.last_allocated = txn->geo.first_unallocated;
+        if (likely(rc == MDBX_SUCCESS))
+          dfc.last_allocated = txn->geo.first_unallocated;
       }
     }
     dfc.txn = nullptr;
-- 
2.43.0


From a7f7dda38843a9ce06eced22a2f5ed9b0aff7035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:59 +0000
Subject: [PATCH 055/110] fix: mdbx_env_chk() has to report the steady and the
 recent txnid

---
 mdbx.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mdbx.c b/mdbx.c
index 702cb33..156c9fb 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -13480,6 +13480,8 @@ __cold static int env_chk(MDBX_chk_scope_t *const scope) {
       const uint64_t prefer_steady_txnid = chk->troika.txnid[prefer_steady_metanum];
       const unsigned recent_metanum = chk->troika.recent;
       const uint64_t recent_txnid = chk->troika.txnid[recent_metanum];
+      usr->result.steady_txnid = prefer_steady_txnid;
+      usr->result.recent_txnid = recent_txnid;
       if (env->flags & MDBX_EXCLUSIVE) {
         chk_line_end(
             chk_puts(chk_line_begin(inner, MDBX_chk_verbose), "performs full check recent-txn-id with meta-pages"));
-- 
2.43.0


From 72fc17d95e1d7f11596b2a6809e56479354cb845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:43 +0000
Subject: [PATCH 056/110] fix: the initial size of a list of dirty pages must
 not be less than the minimal one

---
 mdbx.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index 156c9fb..b5737ae 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -19380,10 +19380,12 @@ dpl_t *txn_dpl_reserve(MDBX_txn *txn, size_t size) {
 int txn_dpl_alloc(MDBX_txn *txn) {
   cASSERT0(txn, (txn->flags & txn_ro_flat) == 0);
   cASSERT0(txn, (txn->flags & MDBX_WRITEMAP) == 0 || MDBX_AVOID_MSYNC);
-  const size_t wanna =
+  size_t wanna =
       ((txn->flags & txn_ro_nested) == 0)
           ? ((txn->env->options.dp_initial < txn->geo.upper) ? txn->env->options.dp_initial : txn->geo.upper)
           : /* minimal */ CURSOR_STACK_SIZE;
+  if (wanna < CURSOR_STACK_SIZE)
+    wanna = CURSOR_STACK_SIZE /* the upper limit of a small DB could be less */;
 #if MDBX_CHECKING > 0
   if (txn->wr.dirtylist)
     /* обнуляем чтобы не сработал ассерт внутри dpl_reserve() */
-- 
2.43.0


From bb5c259e2745b0101dcc8cfa1e909c27a412c795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:43 +0000
Subject: [PATCH 057/110] fix: the datafile size must be restored when a resize
 fails to extend the mapping

---
 mdbx.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mdbx.c b/mdbx.c
index b5737ae..d3750f8 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -20100,6 +20100,14 @@ __cold int dxb_resize(MDBX_env *const env, const pgno_t allocated_pgno, const pg
   }
 
   rc = osal_mresize(mresize_flags, &env->dxb_mmap, size_bytes, limit_bytes);
+#if !(defined(_WIN32) || defined(_WIN64))
+  if (unlikely(rc == MDBX_UNABLE_EXTEND_MAPSIZE) && env->dxb_mmap.limit == prev_limit) {
+    /* the file was already resized, but the mapping was not: bring the file back to the size in force */
+    int err = osal_mresize(mresize_flags, &env->dxb_mmap, prev_size, prev_limit);
+    if (unlikely(err != MDBX_SUCCESS))
+      WARNING("unable restore datafile size %" PRIuPTR ", errcode %d", prev_size, err);
+  }
+#endif /* !Windows */
   eASSERT0(env, env->dxb_mmap.limit >= env->dxb_mmap.current);
 
   if (rc == MDBX_SUCCESS) {
-- 
2.43.0


From ee908b52a03fec60fbf26268e32c4ae28d5bff85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:43 +0000
Subject: [PATCH 058/110] fix: discarding of unused pages must not go beyond
 the mapping (zeroed a foreign memory)

---
 mdbx.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index d3750f8..a9ee1bb 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -20869,7 +20869,11 @@ int dxb_sync_locked(MDBX_env *env, unsigned flags, meta_t *const pending, troika
 #if defined(MADV_DONTNEED) || defined(POSIX_MADV_DONTNEED)
       const size_t discard_edge_pgno = pgno_ceil2os_pgno(env, largest_pgno);
       if (prev_discarded_pgno >= discard_edge_pgno + env->madv_threshold) {
-        const size_t prev_discarded_bytes = pgno_ceil2os_bytes(env, prev_discarded_pgno);
+        size_t prev_discarded_bytes = pgno_ceil2os_bytes(env, prev_discarded_pgno);
+        if (prev_discarded_bytes > env->dxb_mmap.limit)
+          /* the mark is aligned to the allocation granularity and/or made by a process with a larger mapping,
+           * but here nothing beyond our own mapping should be touched */
+          prev_discarded_bytes = env->dxb_mmap.limit;
         const size_t discard_edge_bytes = pgno2bytes(env, discard_edge_pgno);
         /* из-за выравнивания prev_discarded_bytes и discard_edge_bytes
          * могут быть равны */
-- 
2.43.0


From 13c4ca64d4e6f1cbc4660872ce98b9789d62c5c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:09 +0000
Subject: [PATCH 059/110] fix: a failed commit inside
 mdbx_txn_commit_embark_read() must not dereference NULL

---
 mdbx.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index a9ee1bb..78dd8ea 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -11436,7 +11436,7 @@ int mdbx_txn_commit_embark_read(MDBX_txn **ptxn, MDBX_commit_latency *latency) {
     if (likely(rc == MDBX_SUCCESS)) {
       rtxn->userctx = preserved_context;
       rtxn->signature = txn_signature;
-    } else {
+    } else if (rtxn) {
       txn_ro_free(rtxn);
       rtxn = nullptr;
     }
-- 
2.43.0


From 332c909d0968309e2d138ec2c03f38b7f9a45dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:18 +0000
Subject: [PATCH 060/110] fix: a corrupted GC record must be refused whatever
 the logging level is

---
 mdbx.c | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index 78dd8ea..66acded 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -8649,13 +8649,15 @@ __cold int mdbx_gc_info(MDBX_txn *txn, MDBX_gc_info_t *info, size_t bytes, MDBX_
     txn->cursors[FREE_DBI] = &cx.outer;
     for (;;) {
       if (unlikely(gc_check_keylen(gc_key.iov_len))) {
-        ERROR("%s/%d: %s", "corrupted GC-record", rc = MDBX_CORRUPTED, gc_check_keylen(gc_key.iov_len));
+        rc = MDBX_CORRUPTED;
+        ERROR("%s/%d: %s", "corrupted GC-record", rc, gc_check_keylen(gc_key.iov_len));
         break;
       }
 
       const glr_t glr = gc_row_pnl(txn, gc_data);
       if (unlikely(glr.err != MDBX_SUCCESS)) {
-        ERROR("%s/%d: %s", "corrupted GC-record", rc = glr.err, glr.reason);
+        rc = glr.err;
+        ERROR("%s/%d: %s", "corrupted GC-record", rc, glr.reason);
         break;
       }
 
@@ -18099,12 +18101,14 @@ static int defrag_load_gc(dfc_t *dfc) {
   int rc = outer_first(gc, &gc_key, &gc_data);
   while (rc == MDBX_SUCCESS) {
     if (unlikely(gc_check_keylen(gc_key.iov_len))) {
-      ERROR("%s/%d: %s", "corrupted GC-record", rc = MDBX_CORRUPTED, gc_check_keylen(gc_key.iov_len));
+      rc = MDBX_CORRUPTED;
+      ERROR("%s/%d: %s", "corrupted GC-record", rc, gc_check_keylen(gc_key.iov_len));
       break;
     }
     const glr_t glr = gc_row_pnl(txn, gc_data);
     if (unlikely(glr.err != MDBX_SUCCESS)) {
-      ERROR("%s/%d: %s", "corrupted GC-record", rc = glr.err, glr.reason);
+      rc = glr.err;
+      ERROR("%s/%d: %s", "corrupted GC-record", rc, glr.reason);
       break;
     }
     const txnid_t id = unaligned_peek_u64(4, gc_key.iov_base);
@@ -18186,7 +18190,8 @@ static int defrag_clear_reclaimed(dfc_t *dfc) {
         if (unlikely(rc != MDBX_SUCCESS))
           break;
         if (unlikely(gc_check_keylen(gc_key.iov_len))) {
-          ERROR("%s/%d: %s", "corrupted GC-record", rc = MDBX_CORRUPTED, gc_check_keylen(gc_key.iov_len));
+          rc = MDBX_CORRUPTED;
+          ERROR("%s/%d: %s", "corrupted GC-record", rc, gc_check_keylen(gc_key.iov_len));
           break;
         }
 
@@ -18300,12 +18305,14 @@ __cold static int defrag_gc_lookup_page(dfc_t *dfc, pgno_t pgno, txnid_t *id) {
   int rc = outer_first(gc, &gc_key, &gc_data);
   while (rc == MDBX_SUCCESS) {
     if (unlikely(gc_check_keylen(gc_key.iov_len))) {
-      ERROR("%s/%d: %s", "corrupted GC-record", rc = MDBX_CORRUPTED, gc_check_keylen(gc_key.iov_len));
+      rc = MDBX_CORRUPTED;
+      ERROR("%s/%d: %s", "corrupted GC-record", rc, gc_check_keylen(gc_key.iov_len));
       break;
     }
     const glr_t glr = gc_row_pnl(txn, gc_data);
     if (unlikely(glr.err != MDBX_SUCCESS)) {
-      ERROR("%s/%d: %s", "corrupted GC-record", rc = glr.err, glr.reason);
+      rc = glr.err;
+      ERROR("%s/%d: %s", "corrupted GC-record", rc, glr.reason);
       break;
     }
 
@@ -22658,7 +22665,8 @@ const char *gc_check_rowdata(const MDBX_txn *const txn, const MDBX_val data) {
 glr_t gc_row_pnl(const MDBX_txn *const txn, const MDBX_val data) {
   glr_t result = {.pnl = (const pgno_t *)data.iov_base, .err = MDBX_SUCCESS, .reason = gc_check_rowdata(txn, data)};
   if (unlikely(result.reason)) {
-    ERROR("%s/%d: %s", "MDBX_CORRUPTED", result.err = MDBX_CORRUPTED, result.reason);
+    result.err = MDBX_CORRUPTED;
+    ERROR("%s/%d: %s", "MDBX_CORRUPTED", result.err, result.reason);
     result.pnl = nullptr;
   }
   return result;
@@ -22817,7 +22825,8 @@ next_gc:
     goto depleted_gc;
   }
   if (unlikely(gc_check_keylen(key.iov_len))) {
-    ERROR("%s/%d: %s", "corrupted GC-record", ret.err = MDBX_CORRUPTED, gc_check_keylen(key.iov_len));
+    ret.err = MDBX_CORRUPTED;
+    ERROR("%s/%d: %s", "corrupted GC-record", ret.err, gc_check_keylen(key.iov_len));
     goto fail;
   }
 
@@ -22846,7 +22855,8 @@ next_gc:
 
   const glr_t glr = gc_row_pnl(txn, data);
   if (unlikely(glr.err != MDBX_SUCCESS)) {
-    ERROR("%s/%d: %s", "corrupted GC-record", ret.err = glr.err, glr.reason);
+    ret.err = glr.err;
+    ERROR("%s/%d: %s", "corrupted GC-record", ret.err, glr.reason);
     goto fail;
   }
 
-- 
2.43.0


From 94fca6ad4d804bd46b46ded3ba93175650259553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:07 +0000
Subject: [PATCH 061/110] fix: mdbx_gc_info() must neither hang on reclaimed
 records nor ignore the result of a callback

---
 mdbx.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index 66acded..425df35 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -8663,7 +8663,7 @@ __cold int mdbx_gc_info(MDBX_txn *txn, MDBX_gc_info_t *info, size_t bytes, MDBX_
 
       const txnid_t id = unaligned_peek_u64(4, gc_key.iov_base);
       if ((txn->flags & txn_ro_flat) == 0 && gc_is_reclaimed(txn, id))
-        continue;
+        goto next;
 
       const size_t len = pnl_size(glr.pnl);
       const bool is_reclaimable = id <= reclaiming_detent;
@@ -8680,16 +8680,18 @@ __cold int mdbx_gc_info(MDBX_txn *txn, MDBX_gc_info_t *info, size_t bytes, MDBX_
         if (iter_func) {
           rc = iter_func(iter_ctx, txn, id, pgno, span, is_reclaimable);
           if (rc != MDBX_RESULT_FALSE)
-            break;
+            goto done;
         }
       }
 
+    next:
       rc = outer_next(&cx.outer, &gc_key, &gc_data, MDBX_NEXT);
       if (rc != MDBX_SUCCESS) {
         rc = (rc == MDBX_NOTFOUND) ? MDBX_SUCCESS : rc;
         break;
       }
     }
+  done:
     txn->cursors[FREE_DBI] = cx.outer.next;
   }
   return LOG_IFERR(rc);
-- 
2.43.0


From 251bad23bc4a2971021684747dcc8101ffed2aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:07 +0000
Subject: [PATCH 062/110] fix: estimation of a range must not divide by zero on
 a damaged tree record

---
 mdbx.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mdbx.c b/mdbx.c
index 425df35..cb645af 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -10338,6 +10338,8 @@ __hot static ptrdiff_t estimate(const tree_t *tree, diff_t *const __restrict dr)
      total(branch_entries) = leaf_pages + branch_pages - 1 (root page) */
   const size_t log2_fixedpoint = sizeof(size_t) - 1;
   const size_t half = UINT64_C(1) << (log2_fixedpoint - 1);
+  if (unlikely(tree->branch_pages < 1))
+    return estimated /* the tree record is damaged */;
   const size_t factor = ((tree->leaf_pages + tree->branch_pages - 1) << log2_fixedpoint) / tree->branch_pages;
   while (1) {
     switch ((size_t)btree_power) {
-- 
2.43.0


From e4b19956e97ed90f6091bdc3379b4f10b3c471c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:43 +0000
Subject: [PATCH 063/110] fix: validation of a page must check bounds of nested
 pages before reading their items

---
 mdbx.c | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index cb645af..4f08fb3 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -32705,6 +32705,12 @@ __cold int page_check(const MDBX_cursor *const mc, const page_t *const mp) {
             continue;
           }
 
+          if (unlikely(sp->upper < sp->lower || (sp->lower & 1) || PAGEHDRSZ + (size_t)sp->upper > dsize)) {
+            rc = bad_page(mp, "invalid nested/sub-page lower(%u)/upper(%u) with limit %zu\n", sp->lower, sp->upper,
+                          dsize - PAGEHDRSZ);
+            continue;
+          }
+
           const char *const end_of_subpage = data + dsize;
           const intptr_t nsubkeys = page_numkeys(sp);
           if (unlikely(nsubkeys == 0) && !(mc->checking & z_updating) && mc->tree->items)
@@ -32753,6 +32759,10 @@ __cold int page_check(const MDBX_cursor *const mc, const page_t *const mp) {
               const size_t sub_dsize = node_ds(sub_node);
               /* char *sub_data = node_data(sub_node); */
 
+              if (unlikely(end_of_subpage < sub_key + sub_ksize)) {
+                rc = bad_page(mp, "nested-node-key beyond (%zu) nested-page\n", sub_key + sub_ksize - end_of_subpage);
+                continue;
+              }
               if (unlikely(sub_ksize < v_clc.lmin || sub_ksize > v_clc.lmax))
                 rc = bad_page(mp,
                               "nested-node-key size (%zu) <> min/max "
@@ -32768,8 +32778,6 @@ __cold int page_check(const MDBX_cursor *const mc, const page_t *const mp) {
               }
               if (unlikely(sub_dsize != 0))
                 rc = bad_page(mp, "nested-node non-empty data size (%zu)\n", sub_dsize);
-              if (unlikely(end_of_subpage < sub_key + sub_ksize))
-                rc = bad_page(mp, "nested-node-key beyond (%zu) nested-page\n", sub_key + sub_ksize - end_of_subpage);
             }
           }
         }
-- 
2.43.0


From 3926ec2e3acbb077bd0fb555a9a92c1d4e8e8a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:40 +0000
Subject: [PATCH 064/110] fix: copying with compactification must refuse a tree
 whose leaf pages are at different depths

---
 mdbx.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mdbx.c b/mdbx.c
index 4f08fb3..bada549 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -4965,6 +4965,11 @@ __cold static int compacting_walk(ctx_t *ctx, MDBX_cursor *mc, pgno_t *const par
             rc = MDBX_CURSOR_FULL;
             goto bailout;
           }
+          if (unlikely(is_branch(mp) != (mc->top + 1 < deep_limit))) {
+            ERROR("%s/%d: %s", "MDBX_CORRUPTED", MDBX_CORRUPTED, "leaf pages of a tree are at different depths");
+            rc = MDBX_CORRUPTED;
+            goto bailout;
+          }
           mc->ki[mc->top] = 0;
           if (!is_branch(mp)) {
             mc->pg[mc->top] = mp;
-- 
2.43.0


From c706c0b77d3bcba8ffd1595e026a3d94d5289cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:40 +0000
Subject: [PATCH 065/110] fix: validation of a page must refuse nodes below the
 upper bound of its free space

---
 mdbx.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/mdbx.c b/mdbx.c
index bada549..7ef3f22 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -32591,6 +32591,10 @@ __cold int page_check(const MDBX_cursor *const mc, const page_t *const mp) {
         rc = bad_page(mp, "node[%zu] (%zu) beyond page-end\n", i, node_end - end_of_page);
         continue;
       }
+      if (unlikely((const char *)node < (const char *)ptr_disp(mp, PAGEHDRSZ + mp->upper))) {
+        rc = bad_page(mp, "node[%zu] is below of page upper(%u)\n", i, mp->upper);
+        continue;
+      }
       const size_t ksize = node_ks(node);
       if (unlikely(ksize > ksize_max))
         rc = bad_page(mp, "node[%zu] too long key (%zu)\n", i, ksize);
@@ -32756,6 +32760,10 @@ __cold int page_check(const MDBX_cursor *const mc, const page_t *const mp) {
                 rc = bad_page(mp, "nested-node beyond (%zu) nested-page\n", end_of_subpage - sub_node_end);
                 continue;
               }
+              if (unlikely((const char *)sub_node < (const char *)ptr_disp(sp, PAGEHDRSZ + sp->upper))) {
+                rc = bad_page(mp, "nested-node is below of nested-page upper(%u)\n", sp->upper);
+                continue;
+              }
               if (unlikely(node_flags(sub_node) != 0))
                 rc = bad_page(mp, "nested-node invalid flags (%u)\n", node_flags(sub_node));
 
-- 
2.43.0


From c54499496469682c2e4d82b4117ea17283309db2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:40 +0000
Subject: [PATCH 066/110] fix: estimation of a range must not divide by zero
 leaf pages of a damaged tree record

---
 mdbx.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mdbx.c b/mdbx.c
index 7ef3f22..a3cbcd5 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -10330,6 +10330,9 @@ __hot static ptrdiff_t estimate(const tree_t *tree, diff_t *const __restrict dr)
   if (btree_power < 0)
     return dr->diff;
 
+  if (unlikely(tree->leaf_pages < 1))
+    return dr->diff /* the tree record is damaged */;
+
   ptrdiff_t estimated = (ptrdiff_t)tree->items * dr->diff / (ptrdiff_t)tree->leaf_pages;
   if (btree_power == 0)
     return estimated;
-- 
2.43.0


From 69d51b55e71805aaba7a5ea5d185f554864d2987 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:08 +0000
Subject: [PATCH 067/110] fix: copying with compactification must refuse nested
 tables and too short large pages

---
 mdbx.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/mdbx.c b/mdbx.c
index a3cbcd5..cef04ca 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -4725,6 +4725,7 @@ typedef struct compacting_context {
   MDBX_txn *txn;
   MDBX_copy_flags_t flags;
   pgno_t first_unallocated;
+  bool inside_table;
   osal_condpair_t condpair;
   volatile unsigned head;
   volatile unsigned tail;
@@ -4912,6 +4913,11 @@ __cold static int compacting_walk(ctx_t *ctx, MDBX_cursor *mc, pgno_t *const par
               goto bailout;
             const size_t datasize = node_ds(node);
             const pgno_t npages = largechunk_npages(ctx->env, datasize);
+            if (unlikely(lp.page->pages < npages)) {
+              ERROR("%s/%d: %s", "MDBX_CORRUPTED", MDBX_CORRUPTED, "too less n-pages for bigdata-node");
+              rc = MDBX_CORRUPTED;
+              goto bailout;
+            }
             poke_pgno(node_data(node), ctx->first_unallocated);
             rc = compacting_put_page(ctx, lp.page, PAGEHDRSZ + datasize, 0, npages);
             if (unlikely(rc != MDBX_SUCCESS))
@@ -4941,10 +4947,17 @@ __cold static int compacting_walk(ctx_t *ctx, MDBX_cursor *mc, pgno_t *const par
               }
             } else {
               cASSERT0(mc, (mc->flags & z_inner) == 0 && mc->subcur == 0);
+              if (unlikely(ctx->inside_table)) {
+                ERROR("%s/%d: %s", "MDBX_CORRUPTED", MDBX_CORRUPTED, "table inside of a table");
+                rc = MDBX_CORRUPTED;
+                goto bailout;
+              }
               cursor_couple_t *couple = container_of(mc, cursor_couple_t, outer);
               nested = &couple->inner.nested_tree;
               memcpy(nested, node_data(node), sizeof(tree_t));
+              ctx->inside_table = true;
               rc = compacting_walk_tree(ctx, nested);
+              ctx->inside_table = false;
             }
             if (unlikely(rc != MDBX_SUCCESS))
               goto bailout;
-- 
2.43.0


From 8871903669e50b0a5688e47767c3e1f16a6f7e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:08 +0000
Subject: [PATCH 068/110] fix: the check of GC must not read beyond a record
 with a wrong length

---
 mdbx.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index cef04ca..64c0bdf 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -13277,7 +13277,7 @@ __cold static int chk_handle_gc(MDBX_chk_scope_t *const scope, MDBX_chk_table_t
         chk_object_issue(scope, "entry", txnid, "invalid pnl alignment", "%" PRIuPTR, (size_t)data->iov_base);
       size_t number = (data->iov_len >= sizeof(pgno_t) && (size_t)data->iov_base % sizeof(pgno_t) == 0) ? *pnl : 0;
       if (number > PAGELIST_LIMIT)
-        chk_object_issue(scope, "entry", txnid, "wrong idl length", "%" PRIuPTR, number);
+        chk_object_issue(scope, "entry", txnid, "wrong idl length", "%" PRIuPTR, number), number = 0;
       else if ((number + 1) * sizeof(pgno_t) > data->iov_len) {
         chk_object_issue(scope, "entry", txnid, "trimmed idl", "%" PRIuSIZE " > %" PRIuSIZE " (corruption)",
                          (number + 1) * sizeof(pgno_t), data->iov_len);
@@ -13332,7 +13332,7 @@ __cold static int chk_handle_gc(MDBX_chk_scope_t *const scope, MDBX_chk_table_t
       if (tbl->cookie) {
         chk_line_end(chk_print(chk_line_begin(scope, MDBX_chk_details),
                                "transaction %" PRIaTXN ", %" PRIuSIZE " pages, maxspan %" PRIuSIZE "%s", txnid, number,
-                               pnl_maxspan(pnl), bad));
+                               (number && number == pnl_size(pnl)) ? pnl_maxspan(pnl) : (size_t)0, bad));
         for (size_t span, i = 1; i <= number; i += span) {
           span = pnl_scan_span(pnl, i);
           const size_t pgno = pnl[i];
-- 
2.43.0


From 4ccbcd27a0e7905b5c5e5f46f4dbb2043cf70896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:08 +0000
Subject: [PATCH 069/110] fix: walking through pages must not dereference an
 unavailable page

---
 mdbx.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index 64c0bdf..9f8a38c 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -41636,8 +41636,8 @@ __cold static int walk_pgno(walk_ctx_t *ctx, walk_tbl_t *tbl, const pgno_t pgno,
     }
   }
 
-  int rc = ctx->visitor(pgno, 1, ctx->userctx, ctx->deep, tbl, ctx->txn->env->ps, type, mp->txnid, err, nentries,
-                        payload_size, header_size, unused_size + align_bytes, parent_pgno);
+  int rc = ctx->visitor(pgno, 1, ctx->userctx, ctx->deep, tbl, ctx->txn->env->ps, type, mp ? mp->txnid : parent_txnid,
+                        err, nentries, payload_size, header_size, unused_size + align_bytes, parent_pgno);
   if (unlikely(rc != MDBX_SUCCESS))
     return rc;
 
-- 
2.43.0


From 9216e29bd3b90d0a03797e5c41f238733c44ed02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:08 +0000
Subject: [PATCH 070/110] fix: mdbx_dbi_dupsort_depthmask() must refuse a wrong
 height of a nested tree

---
 mdbx.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index 9f8a38c..f939f0d 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -10659,7 +10659,11 @@ __cold int mdbx_dbi_dupsort_depthmask(const MDBX_txn *txn, MDBX_dbi dbi, uint32_
       break;
     case N_DUP | N_TREE:
       /* sub-tree */
-      *mask |= 1 << UNALIGNED_PEEK_16(db, tree_t, height);
+      if (unlikely(UNALIGNED_PEEK_16(db, tree_t, height) >= CURSOR_STACK_SIZE)) {
+        ERROR("%s/%d: %s", "MDBX_CORRUPTED", MDBX_CORRUPTED, "invalid height of a nested tree");
+        return LOG_IFERR(MDBX_CORRUPTED);
+      }
+      *mask |= UINT32_C(1) << UNALIGNED_PEEK_16(db, tree_t, height);
       break;
     default:
       ERROR("%s/%d: %s %u", "MDBX_CORRUPTED", MDBX_CORRUPTED, "invalid node-size", flags);
-- 
2.43.0


From 86a5ce3e6cbea51a65e2c39fc9c1ec9d84eaeb84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:24 +0000
Subject: [PATCH 071/110] fix: moving of a cursor to a sibling page must refuse
 a leaf page at a branch level

---
 mdbx.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index f939f0d..179eff2 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -14815,9 +14815,15 @@ static __always_inline int sibling(MDBX_cursor *mc, bool right) {
     mc->ki[mc->top] += right ? 1 : -1;
     DEBUG("just moving to %s index key %u", right ? "right" : "left", mc->ki[mc->top]);
   }
-  cASSERT0(mc, is_branch(mc->pg[mc->top]));
 
   page_t *mp = mc->pg[mc->top];
+  if (!MDBX_DISABLE_VALIDATION && unlikely(!is_branch(mp))) {
+    ERROR("unexpected page #%" PRIaPGNO " type 0x%x at a branch level", mp->pgno, mp->flags);
+    err = MDBX_CORRUPTED;
+    goto bailout;
+  }
+  cASSERT0(mc, is_branch(mp));
+
   const node_t *node = page_node(mp, mc->ki[mc->top]);
   err = page_get(mc, node_pgno(node), &mp, mp->txnid);
   if (likely(err == MDBX_SUCCESS)) {
-- 
2.43.0


From 48118ee2eda6bf758c11a78117c020683fc54cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:24 +0000
Subject: [PATCH 072/110] fix: the check of GC must not scan spans beyond a
 trimmed record

---
 mdbx.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index 179eff2..4c2988a 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -13338,7 +13338,7 @@ __cold static int chk_handle_gc(MDBX_chk_scope_t *const scope, MDBX_chk_table_t
                                "transaction %" PRIaTXN ", %" PRIuSIZE " pages, maxspan %" PRIuSIZE "%s", txnid, number,
                                (number && number == pnl_size(pnl)) ? pnl_maxspan(pnl) : (size_t)0, bad));
         for (size_t span, i = 1; i <= number; i += span) {
-          span = pnl_scan_span(pnl, i);
+          span = (number == pnl_size(pnl)) ? pnl_scan_span(pnl, i) : 1;
           const size_t pgno = pnl[i];
           histogram_acc(span, &tbl->histogram.nested_height_or_gc_span_length);
           MDBX_chk_line_t *line = chk_line_begin(scope, MDBX_chk_extra);
-- 
2.43.0


From 95e49ab87883cce36bd8a7dedf35c85f68024a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:50 +0000
Subject: [PATCH 073/110] fix: a failed start of a nested transaction must not
 trigger assertions nor damage the list of retired pages

---
 mdbx.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index 4c2988a..8142453 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -40233,6 +40233,8 @@ static int nested_start(MDBX_txn *const nested, MDBX_txn *parent) {
   return txn_shadow_cursors(parent, MAIN_DBI);
 }
 
+static void nested_discard(MDBX_txn *nested);
+
 int txn_nested_create(MDBX_txn *parent, bool readonly) {
   if (unlikely(parent->flags & MDBX_WRITEMAP)) {
     ERROR("%s mode is incompatible with nested transactions", "MDBX_WRITEMAP");
@@ -40260,7 +40262,7 @@ int txn_nested_create(MDBX_txn *parent, bool readonly) {
   rkl_init(&nested->wr.gc.comeback);
   int rc = nested_start(nested, parent);
   if (unlikely(rc != MDBX_SUCCESS))
-    txn_nested_abort(nested);
+    nested_discard(nested);
   return rc;
 }
 
@@ -40277,6 +40279,7 @@ static int nested_undo(MDBX_txn *nested) {
     cASSERT0(parent, pnl_size(nested->wr.retired_pages) >= (uintptr_t)parent->wr.retired_pages);
     pnl_setsize(nested->wr.retired_pages, (uintptr_t)parent->wr.retired_pages);
     parent->wr.retired_pages = nested->wr.retired_pages;
+    nested->wr.retired_pages = nullptr;
   }
 
   nested->flags = MDBX_TXN_FINISHED;
@@ -40340,6 +40343,12 @@ int txn_nested_abort(MDBX_txn *nested) {
   return rc;
 }
 
+/* Gets rid of a nested transaction that failed to start, i.e. may be not fully initialized. */
+static void nested_discard(MDBX_txn *nested) {
+  nested_undo(nested);
+  nested_free(nested);
+}
+
 static int nested_join(MDBX_txn *nested, struct commit_timestamp *ts) {
   MDBX_env *const env = nested->env;
   MDBX_txn *const parent = nested->parent;
@@ -40484,7 +40493,7 @@ int txn_nested_checkpoint(MDBX_txn *nested, struct commit_timestamp *ts) {
     cASSERT0(nested, nested->env->txn == nested);
   }
   if (unlikely(rc != MDBX_SUCCESS))
-    txn_nested_abort(nested);
+    nested_discard(nested);
   return rc;
 }
 
@@ -40527,7 +40536,7 @@ int txn_nested_rollback(MDBX_txn *nested) {
   if (likely(rc == MDBX_SUCCESS))
     nested->flags |= preserved_flags;
   else
-    txn_nested_abort(nested);
+    nested_discard(nested);
   return rc;
 }
 
-- 
2.43.0


From b66576bd103668ad813df7f507e3aa0b0af2b715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:22 +0000
Subject: [PATCH 074/110] fix: a table with any flags must be opened with
 MDBX_DB_ACCEDE and given comparators

The rescue mode of mdbx_dump skipped every table whose flags are not zero.
---
 mdbx.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index 8142453..82945a5 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -17511,8 +17511,9 @@ int dbi_bind(MDBX_txn *txn, const size_t dbi, unsigned user_flags, MDBX_cmp_func
    */
   if ((user_flags ^ env->dbs_flags[dbi]) & DB_PERSISTENT_FLAGS) {
     /* flags are differs, check other conditions */
-    if (((!keycmp || keycmp == env->kvs[dbi].clc.k.cmp) && (!datacmp || datacmp == env->kvs[dbi].clc.v.cmp)) &&
-        (user_flags & MDBX_DB_ACCEDE) != 0) {
+    if ((user_flags & MDBX_DB_ACCEDE) != 0 &&
+        (/* not opened yet */ (env->dbs_flags[dbi] & DB_VALID) == 0 ||
+         ((!keycmp || keycmp == env->kvs[dbi].clc.k.cmp) && (!datacmp || datacmp == env->kvs[dbi].clc.v.cmp)))) {
       user_flags = env->dbs_flags[dbi] & DB_PERSISTENT_FLAGS;
     } else if ((user_flags & MDBX_CREATE) == 0)
       return /* FIXME: return extended info */ MDBX_INCOMPATIBLE;
-- 
2.43.0


From c434be14693e73f9ffa284635dde24c877104faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:55 +0000
Subject: [PATCH 075/110] fix: mdbx_load must continue after skipping an item

The loop ended at the first skipped item since the error code was kept.
---
 mdbx_load.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mdbx_load.c b/mdbx_load.c
index 2c8c8b0..4c34bf1 100644
--- a/mdbx_load.c
+++ b/mdbx_load.c
@@ -827,11 +827,14 @@ int main(int argc, char *argv[]) {
       }
 
       err = mdbx_cursor_put(mc, &key, &data, putflags);
-      if (err == MDBX_KEYEXIST && putflags)
+      if (err == MDBX_KEYEXIST && putflags) {
+        err = MDBX_SUCCESS;
         continue;
+      }
       if (err == MDBX_BAD_VALSIZE && rescue) {
         if (!quiet)
           fprintf(stderr, "%s: skip line %" PRIiSIZE ": due %s\n", prog, lineno, mdbx_strerror(err));
+        err = MDBX_SUCCESS;
         continue;
       }
       if (unlikely(err != MDBX_SUCCESS)) {
-- 
2.43.0


From 1b5e0f4b82c69d77eb6d7ef8dc61b51cd6aa92c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:55 +0000
Subject: [PATCH 076/110] fix: mdbx_load must purge a table before setting its
 sequence

Otherwise the loaded sequence number is lost.
---
 mdbx_load.c | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/mdbx_load.c b/mdbx_load.c
index 4c34bf1..41a03b5 100644
--- a/mdbx_load.c
+++ b/mdbx_load.c
@@ -773,6 +773,14 @@ int main(int argc, char *argv[]) {
       goto bailout;
     }
 
+    if (purge) {
+      err = mdbx_drop(txn, dbi, false);
+      if (unlikely(err != MDBX_SUCCESS)) {
+        error("mdbx_drop", err);
+        goto bailout;
+      }
+    }
+
     uint64_t present_sequence;
     err = mdbx_dbi_sequence(txn, dbi, &present_sequence, 0);
     if (unlikely(err != MDBX_SUCCESS)) {
@@ -794,14 +802,6 @@ int main(int argc, char *argv[]) {
       }
     }
 
-    if (purge) {
-      err = mdbx_drop(txn, dbi, false);
-      if (unlikely(err != MDBX_SUCCESS)) {
-        error("mdbx_drop", err);
-        goto bailout;
-      }
-    }
-
     if (putflags & MDBX_APPEND)
       putflags = (dbi_flags & MDBX_DUPSORT) ? putflags | MDBX_APPENDDUP : putflags & ~MDBX_APPENDDUP;
 
-- 
2.43.0


From 96e6bac071fc8300bb7b41fd39c354272fd05934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:55 +0000
Subject: [PATCH 077/110] fix: mdbx_load must not hang on a plaintext line with
 a leading space

A repeated value is a feature of the dump format, but not of the headerless plaintext.
---
 mdbx_load.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdbx_load.c b/mdbx_load.c
index 41a03b5..1ac286b 100644
--- a/mdbx_load.c
+++ b/mdbx_load.c
@@ -402,7 +402,7 @@ __hot static int readline(MDBX_val *out, MDBX_val *buf) {
   c = fgetc(stdin);
   if (c == EOF)
     return errno ? errno : EOF;
-  if (c == ' ')
+  if (c == ' ' && !(mode & NOHDR))
     return (ungetc(c, stdin) == c) ? MDBX_SUCCESS : (errno ? errno : EOF);
 
   ((char *)buf->iov_base)[0] = c;
-- 
2.43.0


From 4287b4f877ae3734a915666e85a018de3dfd8900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:55 +0000
Subject: [PATCH 078/110] fix: mdbx_dump must escape a leading space of a value

A space in the second position of a line means the previous value for mdbx_load.
---
 mdbx_dump.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdbx_dump.c b/mdbx_dump.c
index a1bfe8d..972e16d 100644
--- a/mdbx_dump.c
+++ b/mdbx_dump.c
@@ -75,7 +75,7 @@ static void dumpval(const MDBX_val *v) {
   putchar(' ');
   for (const unsigned char *c = v->iov_base, *end = c + v->iov_len; c < end; ++c) {
     if (mode & PRINT) {
-      if (isprint(*c) && *c != '\\') {
+      if (isprint(*c) && *c != '\\' && !(*c == ' ' && c == v->iov_base)) {
         putchar(*c);
         continue;
       } else
-- 
2.43.0


From 5337002bd705ab0069127c4981f3d3312c7b0f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:05 +0000
Subject: [PATCH 079/110] fix: mdbx_gc_info() must pass the starting page of a
 span to a callback

The last page was passed since lists of pages are in descending order.
---
 mdbx.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index 82945a5..dbb6acb 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -8690,7 +8690,7 @@ __cold int mdbx_gc_info(MDBX_txn *txn, MDBX_gc_info_t *info, size_t bytes, MDBX_
         info->gc_reclaimable.pages += len;
       for (size_t span, i = 1; i <= len; i += span) {
         span = pnl_scan_span(glr.pnl, i);
-        const size_t pgno = glr.pnl[i];
+        const size_t pgno = MDBX_PNL_ASCENDING ? glr.pnl[i] : glr.pnl[i + span - 1];
         if (is_reclaimable) {
           histogram_acc(span, &info->gc_reclaimable.span_histogram);
           histogram_acc(pgno, &info->gc_reclaimable.pgno_distribution);
-- 
2.43.0


From 9ae5c1beb09a4e9f6444bb263fd11958f30f7bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:48 +0000
Subject: [PATCH 080/110] fix: mdbx_stat must not fail when GC is empty

---
 mdbx_stat.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mdbx_stat.c b/mdbx_stat.c
index e73cf5d..8bd6b69 100644
--- a/mdbx_stat.c
+++ b/mdbx_stat.c
@@ -384,6 +384,7 @@ int main(int argc, char *argv[]) {
 
     switch (rc) {
     case MDBX_SUCCESS:
+    case MDBX_NOTFOUND /* the GC is empty for now */:
       break;
     case MDBX_EINTR:
       if (!quiet)
-- 
2.43.0


From 478468ac49da077a43085d0351c68ba5f8486e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:02 +0000
Subject: [PATCH 081/110] fix: mdbx_load must not fail on a batch that changes
 nothing

---
 mdbx_load.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mdbx_load.c b/mdbx_load.c
index 1ac286b..f7a2e2d 100644
--- a/mdbx_load.c
+++ b/mdbx_load.c
@@ -857,8 +857,8 @@ int main(int argc, char *argv[]) {
 
       if (should_checkpoint) {
         err = mdbx_txn_checkpoint(txn, MDBX_TXN_NOMETASYNC, nullptr);
-        if (unlikely(err != MDBX_SUCCESS)) {
-          error("mdbx_txn_commit", err);
+        if (unlikely(err != MDBX_SUCCESS && err != MDBX_RESULT_TRUE /* no changes */)) {
+          error("mdbx_txn_checkpoint", err);
           goto bailout;
         }
         count = 0;
-- 
2.43.0


From 624fccda74d8995f0789ef5fee5694dc4bb3a8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:02 +0000
Subject: [PATCH 082/110] fix: mdbx_load must be able to append to the main
 table

Comparators of the main table can't be overridden.
---
 mdbx_load.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mdbx_load.c b/mdbx_load.c
index f7a2e2d..4e91345 100644
--- a/mdbx_load.c
+++ b/mdbx_load.c
@@ -766,8 +766,8 @@ int main(int argc, char *argv[]) {
 
     const char *const dbi_name = subname ? subname : "@MAIN";
     err = mdbx_dbi_open_ex(txn, subname, dbi_flags | MDBX_CREATE, &dbi,
-                           (putflags & MDBX_APPEND) ? equal_or_greater : nullptr,
-                           (putflags & MDBX_APPEND) ? equal_or_greater : nullptr);
+                           (subname && (putflags & MDBX_APPEND)) ? equal_or_greater : nullptr,
+                           (subname && (putflags & MDBX_APPEND)) ? equal_or_greater : nullptr);
     if (unlikely(err != MDBX_SUCCESS)) {
       error("mdbx_dbi_open_ex", err);
       goto bailout;
-- 
2.43.0


From 9e9bcd8c34b73e4b188fca57e7455a662a291830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:02 +0000
Subject: [PATCH 083/110] fix: mdbx_defrag must not fail when GC is empty

---
 mdbx_defrag.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mdbx_defrag.c b/mdbx_defrag.c
index bfef2cd..2d8c4d4 100644
--- a/mdbx_defrag.c
+++ b/mdbx_defrag.c
@@ -362,6 +362,8 @@ int main(int argc, char *argv[]) {
   memset(&info_gc, 0, sizeof(info_gc)); /* zap `uninitialized` warning */
   if (rc == MDBX_SUCCESS)
     rc = mdbx_gc_info(txn, &info_gc, sizeof(info_gc), nullptr, nullptr);
+  if (rc == MDBX_NOTFOUND)
+    rc = MDBX_SUCCESS /* the GC is empty for now */;
 
   char ratio_buffer[42];
   if (rc == MDBX_SUCCESS) {
-- 
2.43.0


From 90ae5a164af99e9bef8781563a3c393c5a2210d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:02 +0000
Subject: [PATCH 084/110] fix: mdbx_defrag must respect the percentage of the
 -f option

---
 mdbx_defrag.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdbx_defrag.c b/mdbx_defrag.c
index 2d8c4d4..d3fc3eb 100644
--- a/mdbx_defrag.c
+++ b/mdbx_defrag.c
@@ -372,7 +372,7 @@ int main(int argc, char *argv[]) {
     const size_t preferred_batch = (step_size_MiB > INT_MAX / pages_per_MiB) ? 0 : step_size_MiB * pages_per_MiB;
     const size_t duration_limit_dot16 =
         (time_limit_seconds > SIZE_MAX >> 16) ? /* unlimited */ 0 : time_limit_seconds << /* seconds to dot16 */ 16;
-    const size_t defrag_enough = (wanna_defrag_percent < 100u) ? (info_gc.pages_gc + 99u) / 100u : 0;
+    const size_t defrag_enough = (wanna_defrag_percent < 100u) ? (info_gc.pages_gc * wanna_defrag_percent + 99u) / 100u : 0;
     const intptr_t acceptable_residue =
         acceptable_residue_percent ? (intptr_t)((payload_pages + 99u) / 100u * acceptable_residue_percent) : -1;
 
-- 
2.43.0


From a9f129a90a9e16aea912a42602e1bd7819de391f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:21 +0000
Subject: [PATCH 085/110] fix: mdbx_load must load a dump of the main table
 into the table given by the -s option

The option was reset while reading a header.
---
 mdbx_load.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/mdbx_load.c b/mdbx_load.c
index 4e91345..801870a 100644
--- a/mdbx_load.c
+++ b/mdbx_load.c
@@ -129,6 +129,7 @@ static bool valbool(char *line, const char *item, bool *value) {
 /*----------------------------------------------------------------------------*/
 
 static char *subname = nullptr;
+static const char *default_subname = nullptr;
 static int dbi_flags;
 static txnid_t txnid;
 static uint64_t sequence;
@@ -163,6 +164,14 @@ static int readhdr(void) {
     free(subname);
     subname = nullptr;
   }
+  if (default_subname) {
+    subname = osal_strdup(default_subname);
+    if (!subname) {
+      if (!quiet)
+        perror("strdup()");
+      exit(EXIT_FAILURE);
+    }
+  }
   dbi_flags = 0;
   txnid = 0;
   sequence = 0;
@@ -568,6 +577,7 @@ int main(int argc, char *argv[]) {
       envflags |= MDBX_NOSUBDIR;
       break;
     case 's':
+      default_subname = optarg;
       subname = osal_strdup(optarg);
       break;
     case 'N':
-- 
2.43.0


From 9e930d4bf8a3274558213454f4c44b047f402a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:59 +0000
Subject: [PATCH 086/110] fix: compacting copy keeps the sequence of an empty
 main table

---
 mdbx.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mdbx.c b/mdbx.c
index dbb6acb..de52bfe 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -5098,6 +5098,7 @@ __cold static int copy_with_compacting(MDBX_env *env, MDBX_txn *txn, mdbx_fileha
     /* When the DB is empty, handle it specially to
      * fix any breakage like page leaks from ITS#8174. */
     meta->trees.main.flags = txn->dbs[MAIN_DBI].flags;
+    meta->trees.main.sequence = txn->dbs[MAIN_DBI].sequence;
     compacting_fixup_meta(env, meta);
     if (dest_is_pipe) {
       if (flags & MDBX_CP_THROTTLE_MVCC)
-- 
2.43.0


From f39329a4a7dda46c563073ee3f792a9c91d5abc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:26 +0000
Subject: [PATCH 087/110] fix: mdbx_gc_info skips reclaimed GC-records before
 checking ones

---
 mdbx.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index de52bfe..bb1e339 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -8673,6 +8673,10 @@ __cold int mdbx_gc_info(MDBX_txn *txn, MDBX_gc_info_t *info, size_t bytes, MDBX_
         break;
       }
 
+      const txnid_t id = unaligned_peek_u64(4, gc_key.iov_base);
+      if ((txn->flags & txn_ro_flat) == 0 && gc_is_reclaimed(txn, id))
+        goto next;
+
       const glr_t glr = gc_row_pnl(txn, gc_data);
       if (unlikely(glr.err != MDBX_SUCCESS)) {
         rc = glr.err;
@@ -8680,10 +8684,6 @@ __cold int mdbx_gc_info(MDBX_txn *txn, MDBX_gc_info_t *info, size_t bytes, MDBX_
         break;
       }
 
-      const txnid_t id = unaligned_peek_u64(4, gc_key.iov_base);
-      if ((txn->flags & txn_ro_flat) == 0 && gc_is_reclaimed(txn, id))
-        goto next;
-
       const size_t len = pnl_size(glr.pnl);
       const bool is_reclaimable = id <= reclaiming_detent;
       info->pages_gc += len;
-- 
2.43.0


From 7d4806f89cb46b15d6c2d1059c2d6138a62691f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:00 +0000
Subject: [PATCH 088/110] fix: mdbx_jsonInteger_from_key() decodes the key of
 zero

---
 mdbx.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index bb1e339..5b9874c 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -9344,7 +9344,7 @@ int64_t mdbx_jsonInteger_from_key(const MDBX_val v) {
   ASSERT(v.iov_len == 8);
   const uint64_t key = unaligned_peek_u64(2, v.iov_base);
   const uint64_t bias = UINT64_C(0x8000000000000000);
-  const uint64_t covalent = (key > bias) ? key - bias : bias - key - 1;
+  const uint64_t covalent = (key >= bias) ? key - bias : bias - key - 1;
   const int shift = IEEE754_DOUBLE_EXPONENTA_BIAS + 63 -
                     (IEEE754_DOUBLE_EXPONENTA_MAX & (int)(covalent >> IEEE754_DOUBLE_MANTISSA_SIZE));
   if (unlikely(shift < 1))
-- 
2.43.0


From 4487cdf0e14b14cd52288cc04bab7098dc76540a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:01 +0000
Subject: [PATCH 089/110] fix: no undefined shifts and negation while making
 keys from JSON integers

---
 mdbx.c | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index 5b9874c..1676f1b 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -9297,12 +9297,13 @@ uint64_t mdbx_key_from_jsonInteger(const int64_t json_integer) {
   if (json_integer > 0) {
     const uint64_t u64 = json_integer;
     int shift = clz64(u64) - (64 - IEEE754_DOUBLE_MANTISSA_SIZE - 1);
-    uint64_t mantissa = u64 << shift;
+    uint64_t mantissa;
     if (unlikely(shift < 0)) {
       mantissa = round_mantissa(u64, shift);
       if (mantissa > IEEE754_DOUBLE_MANTISSA_AMAX)
         mantissa = round_mantissa(u64, --shift);
-    }
+    } else
+      mantissa = u64 << shift;
 
     ASSERT(mantissa >= IEEE754_DOUBLE_IMPLICIT_LEAD && mantissa <= IEEE754_DOUBLE_MANTISSA_AMAX);
     const uint64_t exponent = (uint64_t)IEEE754_DOUBLE_EXPONENTA_BIAS + IEEE754_DOUBLE_MANTISSA_SIZE - shift;
@@ -9316,14 +9317,15 @@ uint64_t mdbx_key_from_jsonInteger(const int64_t json_integer) {
   }
 
   if (json_integer < 0) {
-    const uint64_t u64 = -json_integer;
+    const uint64_t u64 = UINT64_C(0) - (uint64_t)json_integer;
     int shift = clz64(u64) - (64 - IEEE754_DOUBLE_MANTISSA_SIZE - 1);
-    uint64_t mantissa = u64 << shift;
+    uint64_t mantissa;
     if (unlikely(shift < 0)) {
       mantissa = round_mantissa(u64, shift);
       if (mantissa > IEEE754_DOUBLE_MANTISSA_AMAX)
         mantissa = round_mantissa(u64, --shift);
-    }
+    } else
+      mantissa = u64 << shift;
 
     ASSERT(mantissa >= IEEE754_DOUBLE_IMPLICIT_LEAD && mantissa <= IEEE754_DOUBLE_MANTISSA_AMAX);
     const uint64_t exponent = (uint64_t)IEEE754_DOUBLE_EXPONENTA_BIAS + IEEE754_DOUBLE_MANTISSA_SIZE - shift;
-- 
2.43.0


From 944352bd663d680577719c56679e31369165f1c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:12 +0000
Subject: [PATCH 090/110] fix: mdbx_dbi_open() must not succeed for a table
 which is absent in the snapshot of a transaction

---
 mdbx.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mdbx.c b/mdbx.c
index 1676f1b..e0d03fe 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -17879,6 +17879,8 @@ int dbi_open(MDBX_txn *txn, const MDBX_val *const name, unsigned user_flags, MDB
     if (txn->dbi_state[slot] & DBI_STALE) {
       rc = tbl_fetch(txn, &cx.outer, fastpath_slot = slot, name, user_flags);
       if (unlikely(rc != MDBX_SUCCESS)) {
+        if (!(user_flags & MDBX_CREATE))
+          fastpath_slot = 0;
         /* таблица отсутствует, её нужно создавать (если запрос с MDBX_CREATE), либо освобождать слот. */
         goto slowpath_locking;
       }
-- 
2.43.0


From b2ade7aa4740aac56db6765987ea8ed2b9493e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:12 +0000
Subject: [PATCH 091/110] fix: mdbx_dbi_open() must create an absent table when
 a handle of the same name has other flags

---
 mdbx.c | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index e0d03fe..c9f8b0e 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -17521,20 +17521,30 @@ int dbi_bind(MDBX_txn *txn, const size_t dbi, unsigned user_flags, MDBX_cmp_func
     } else if ((user_flags & MDBX_CREATE) == 0)
       return /* FIXME: return extended info */ MDBX_INCOMPATIBLE;
     else {
+      bool absent = false;
       if (txn->dbi_state[dbi] & DBI_STALE) {
         eASSERT0(env, env->dbs_flags[dbi] & DB_VALID);
         int err = tbl_refresh(txn, dbi);
         if (unlikely(err != MDBX_SUCCESS && err != MDBX_NOTFOUND))
           return err;
+        absent = err != MDBX_SUCCESS;
       }
-      eASSERT0(env, ((env->dbs_flags[dbi] ^ txn->dbs[dbi].flags) & DB_PERSISTENT_FLAGS) == 0);
-      eASSERT0(env, (txn->dbi_state[dbi] & (DBI_LINDO | DBI_VALID | DBI_STALE)) == (DBI_LINDO | DBI_VALID));
-      if (unlikely(txn->dbs[dbi].leaf_pages))
+      eASSERT0(env, absent || ((env->dbs_flags[dbi] ^ txn->dbs[dbi].flags) & DB_PERSISTENT_FLAGS) == 0);
+      eASSERT0(env, absent || (txn->dbi_state[dbi] & (DBI_LINDO | DBI_VALID | DBI_STALE)) == (DBI_LINDO | DBI_VALID));
+      if (unlikely(!absent && txn->dbs[dbi].leaf_pages))
         return /* FIXME: return extended info */ MDBX_INCOMPATIBLE;
 
       /* Пересоздаём table если там пусто */
       if (unlikely(txn->cursors[dbi]))
         return MDBX_DANGLING_DBI;
+      if (absent) {
+        cursor_couple_t cx;
+        int err = cursor_init(&cx.outer, txn, MAIN_DBI);
+        if (likely(err == MDBX_SUCCESS))
+          err = tbl_create(txn, &cx.outer, dbi, &env->kvs[dbi].name, user_flags);
+        if (unlikely(err != MDBX_SUCCESS))
+          return err;
+      }
       env->dbs_flags[dbi] = DB_POISON;
       atomic_store32(&env->dbi_seqs[dbi], dbi_seq_next(env, dbi), mo_AcquireRelease);
 
-- 
2.43.0


From d5e886d4e1e3fee6df7c28e0941b8085dc30aa52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:22 +0000
Subject: [PATCH 092/110] fix: mdbx_dbi_rename() must read the record of a
 table before copying one

---
 mdbx.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mdbx.c b/mdbx.c
index c9f8b0e..e550fa0 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -17930,6 +17930,12 @@ __cold struct dbi_rename_result dbi_rename_locked(MDBX_txn *txn, MDBX_dbi dbi, M
   if (unlikely(pair.err != MDBX_SUCCESS))
     return pair;
 
+  if (txn->dbi_state[dbi] & DBI_STALE) {
+    pair.err = tbl_refresh_absent2baddbi(txn, dbi);
+    if (unlikely(pair.err != MDBX_SUCCESS))
+      return pair;
+  }
+
   MDBX_env *const env = txn->env;
   MDBX_val old_name = env->kvs[dbi].name;
   if (env->kvs[MAIN_DBI].clc.k.cmp(&new_name, &old_name) == 0 && MDBX_DEBUG < 1)
-- 
2.43.0


From 5f26f153e6a33c9d5ae38fb485d589f7b389a2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:22 +0000
Subject: [PATCH 093/110] fix: a handle closed by aborting of a nested
 transaction must not be used by outer ones

---
 mdbx.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/mdbx.c b/mdbx.c
index e550fa0..fce8149 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -17465,6 +17465,10 @@ int dbi_update(MDBX_txn *txn, bool keep) {
         osal_flush_incoherent_cpu_writeback();
         item->next = defer_chain;
         defer_chain = item;
+        /* the changes made by outer transactions was already saved into the MainDB by nested_start() */
+        for (MDBX_txn *scan = txn->parent; scan; scan = scan->parent)
+          if (dbi < scan->n_dbi && (scan->dbi_state[dbi] & DBI_VALID))
+            scan->dbi_state[dbi] = DBI_LINDO | DBI_OLDEN;
       } else {
         eASSERT0(env, env->kvs[dbi].name.iov_len == 0);
         eASSERT0(env, env->dbs_flags[dbi] == 0);
-- 
2.43.0


From 03278bfdc5d8cf44169e70644be4e4ff3facaba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:22 +0000
Subject: [PATCH 094/110] fix: aborting of a transaction must close handles of
 tables renamed by one

---
 mdbx.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mdbx.c b/mdbx.c
index fce8149..8444edd 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -17974,6 +17974,9 @@ __cold struct dbi_rename_result dbi_rename_locked(MDBX_txn *txn, MDBX_dbi dbi, M
     if (likely(pair.err == MDBX_SUCCESS)) {
       pair.defer = env->kvs[dbi].name.iov_base;
       env->kvs[dbi].name = new_name;
+      /* the handle should be closed if the transaction will be aborted,
+       * since otherwise it will refer to an another or absent table by the new name */
+      txn->dbi_state[dbi] |= DBI_CREAT;
     } else
       txn->flags |= MDBX_TXN_ERROR;
   }
-- 
2.43.0


From 3cdcbc0c6e40d0da7bf3378afc67a927b2560629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:41 +0000
Subject: [PATCH 095/110] fix: mdbx_enumerate_tables() must not show one table
 by the state of an another which had the same handle before

---
 mdbx.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index 8444edd..15f5d0a 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -18022,8 +18022,8 @@ __cold const tree_t *dbi_dig(const MDBX_txn *txn, const size_t dbi, tree_t *fall
     if (state & DBI_LINDO)
       switch (state & (DBI_VALID | DBI_STALE | DBI_OLDEN)) {
       case DBI_VALID:
+        return dbi_changed(dig, dbi) ? fallback : dig->dbs + dbi;
       case DBI_OLDEN:
-        return dig->dbs + dbi;
       case 0:
         return fallback;
       case DBI_VALID | DBI_STALE:
-- 
2.43.0


From 6a0c6bdfa80344769f041c951d942b2ccc0b246c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:56 +0000
Subject: [PATCH 096/110] fix: mdbx_enumerate_tables() must not use states of
 handles for a read-only snapshot

---
 mdbx.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index 15f5d0a..75ac100 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -7018,7 +7018,9 @@ __cold int mdbx_enumerate_tables(const MDBX_txn *txn, MDBX_table_enum_func func,
       if (env->kvs[MAIN_DBI].clc.k.cmp(&name, &env->kvs[i].name))
         continue;
 
-      tree = dbi_dig(txn, i, &reside);
+      /* the handle may be already renamed by a writer, while the records of a snapshot are always actual */
+      if ((txn->flags & txn_ro_flat) == 0)
+        tree = dbi_dig(txn, i, &reside);
       dbi = (MDBX_dbi)i;
       break;
     }
-- 
2.43.0


From 94993faa34c58595c2b2f18533576bb1504b7d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:57 +0000
Subject: [PATCH 097/110] fix: mdbx_dbi_open() must release a DBI-slot in case
 of failure

---
 mdbx.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index 75ac100..598def3 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -17736,14 +17736,18 @@ static int dbi_open_locked(MDBX_txn *txn, cursor_couple_t *maindb_cx, unsigned u
   maindb_cx->userctx = preserve_userctx;
 #endif /* MEMCHECK || ASAN */
   if (unlikely(rc != MDBX_SUCCESS)) {
-    if (rc != MDBX_NOTFOUND || !(user_flags & MDBX_CREATE))
+    if (rc != MDBX_NOTFOUND || !(user_flags & MDBX_CREATE)) {
+      env->dbs_flags[slot] = 0;
       return rc;
+    }
   }
 
   /* Done here so we cannot fail after creating a new DB */
   clone = osal_malloc(dbi_namelen(name));
-  if (unlikely(!clone))
+  if (unlikely(!clone)) {
+    env->dbs_flags[slot] = 0;
     return MDBX_ENOMEM;
+  }
   memcpy(clone, name.iov_base, name.iov_len);
   name.iov_base = clone;
 
-- 
2.43.0


From 1254aa34d766cf35770e2b8db494fa46e21029f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:45 +0000
Subject: [PATCH 098/110] fix: mdbx_dbi_rename() must close an other handle
 left with the new name

---
 mdbx.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index 598def3..11a21e3 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -6849,7 +6849,7 @@ __cold int mdbx_dbi_rename2(MDBX_txn *txn, MDBX_dbi dbi, const MDBX_val *new_nam
   rc = osal_fastmutex_acquire(&txn->env->dbi_lock);
   if (likely(rc == MDBX_SUCCESS)) {
     struct dbi_rename_result pair = dbi_rename_locked(txn, dbi, *new_name);
-    if (pair.defer)
+    if (pair.defer && pair.err != MDBX_SUCCESS)
       pair.defer->next = nullptr;
     dbi_defer_release(txn->env, pair.defer);
     rc = pair.err;
@@ -17978,7 +17978,16 @@ __cold struct dbi_rename_result dbi_rename_locked(MDBX_txn *txn, MDBX_dbi dbi, M
     if (likely(pair.err == MDBX_SUCCESS))
       pair.err = cursor_del(&cx.outer, N_TREE);
     if (likely(pair.err == MDBX_SUCCESS)) {
+      /* a handle with the same name may be left by a reader of an older snapshot where such a table exists,
+       * but two handles of one table must not be used by a single transaction */
+      defer_free_item_t *chain = nullptr;
+      for (size_t i = CORE_DBS; i < env->n_dbi; ++i)
+        if (i != dbi && env->kvs[i].name.iov_base && env->kvs[MAIN_DBI].clc.k.cmp(&new_name, &env->kvs[i].name) == 0) {
+          chain = dbi_close_locked(env, (MDBX_dbi)i);
+          break;
+        }
       pair.defer = env->kvs[dbi].name.iov_base;
+      pair.defer->next = chain;
       env->kvs[dbi].name = new_name;
       /* the handle should be closed if the transaction will be aborted,
        * since otherwise it will refer to an another or absent table by the new name */
-- 
2.43.0


From ce06628297284445e1f9fde6aa49f301f6a93fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:42 +0000
Subject: [PATCH 099/110] fix: mdbx_dbi_open() must create a table only if one
 is absent, not because of an other error

---
 mdbx.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index 11a21e3..5155e5e 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -17899,7 +17899,7 @@ int dbi_open(MDBX_txn *txn, const MDBX_val *const name, unsigned user_flags, MDB
     if (txn->dbi_state[slot] & DBI_STALE) {
       rc = tbl_fetch(txn, &cx.outer, fastpath_slot = slot, name, user_flags);
       if (unlikely(rc != MDBX_SUCCESS)) {
-        if (!(user_flags & MDBX_CREATE))
+        if (!(user_flags & MDBX_CREATE) || rc != MDBX_NOTFOUND)
           fastpath_slot = 0;
         /* таблица отсутствует, её нужно создавать (если запрос с MDBX_CREATE), либо освобождать слот. */
         goto slowpath_locking;
-- 
2.43.0


From cf7fa8b93d0cf171a53c20de84ec01036243398c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:42 +0000
Subject: [PATCH 100/110] fix: a handle must not be used for a table re-created
 with different flags

---
 mdbx.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/mdbx.c b/mdbx.c
index 5155e5e..4f574ff 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -36822,6 +36822,12 @@ int tbl_fetch(MDBX_txn *txn, MDBX_cursor *mc, size_t dbi, const MDBX_val *name,
     return MDBX_INCOMPATIBLE /* not a named DB */;
   }
 
+  /* comparators of an already opened handle are not suitable for a table with different flags */
+  if (unlikely(dbi < txn->env->n_dbi && (txn->env->dbs_flags[dbi] & DB_VALID) &&
+               ((txn->env->dbs_flags[dbi] ^ db_flags) & DB_PERSISTENT_FLAGS)) &&
+      txn->env->dbs_flags[dbi] != DB_POISON)
+    return MDBX_INCOMPATIBLE;
+
   tree_t *const db = &txn->dbs[dbi];
   memcpy(db, data.iov_base, sizeof(tree_t));
 #if !MDBX_DISABLE_VALIDATION
-- 
2.43.0


From 271221d2c21b280bdb9e1d663968b90a91d213cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:42 +0000
Subject: [PATCH 101/110] fix: a failed writer thread of a compacting copy must
 wake up the waiting main thread

---
 mdbx.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index 4f574ff..8f5aad0 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -4786,6 +4786,8 @@ __cold static THREAD_RESULT THREAD_CALL compacting_write_thread(void *arg) {
     osal_condpair_signal(&ctx->condpair, false);
   }
 bailout:
+  /* wake up the copying thread, which may be waiting for a free buffer */
+  osal_condpair_signal(&ctx->condpair, false);
   osal_condpair_unlock(&ctx->condpair);
   return (THREAD_RESULT)0;
 }
@@ -5195,7 +5197,7 @@ __cold static int copy_with_compacting(MDBX_env *env, MDBX_txn *txn, mdbx_fileha
       }
 
       /* toggle with empty buffers to exit thread's loop */
-      eASSERT0(env, (ctx.write_len[ctx.head & 1]) == 0);
+      eASSERT0(env, ctx.write_len[ctx.head & 1] == 0 || ctx.error);
       compacting_toggle_write_buffers(&ctx);
       thread_err = osal_thread_join(thread);
       eASSERT0(env, (ctx.tail == ctx.head && ctx.write_len[ctx.head & 1] == 0) || ctx.error);
-- 
2.43.0


From de7a45bec4135de5a15b88dc1fece93e39021462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:10 +0000
Subject: [PATCH 102/110] fix: closing an environment with a pending nested
 transaction must not free a bogus pointer

---
 mdbx.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/mdbx.c b/mdbx.c
index 8f5aad0..3666756 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -39438,6 +39438,15 @@ __cold void txn_basal_destroy(MDBX_txn *txn) {
   rkl_destroy(&txn->wr.gc.reclaimed);
   rkl_destroy(&txn->wr.gc.ready4reuse);
   rkl_destroy(&txn->wr.gc.comeback);
+  if (unlikely(txn->nested)) {
+    /* The pending nested transactions can't be aborted after a fatal error nor in a child process after fork(),
+     * in such cases the list of retired pages is held by the innermost one, a parent has the list's length only. */
+    MDBX_txn *innermost = txn->nested;
+    while (innermost->nested)
+      innermost = innermost->nested;
+    txn->wr.retired_pages = innermost->wr.retired_pages;
+    innermost->wr.retired_pages = nullptr;
+  }
   pnl_free(txn->wr.retired_pages);
   pnl_free(txn->wr.spilled.list);
   pnl_free(txn->wr.repnl);
-- 
2.43.0


From 289b6f44ac4861bb305a11f5e78852a076a3a552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:18 +0000
Subject: [PATCH 103/110] fix: wiping of steady meta-pages must leave the most
 recent for the last

---
 mdbx.c | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index 3666756..0aff778 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -27761,13 +27761,16 @@ static int meta_unsteady(MDBX_env *env, const txnid_t inclusive_upto, const pgno
 }
 
 __cold int meta_wipe_steady(MDBX_env *env, txnid_t inclusive_upto) {
-  int err = meta_unsteady(env, inclusive_upto, 0);
-  if (likely(!MDBX_IS_ERROR(err)))
-    err = meta_unsteady(env, inclusive_upto, 1);
-  if (likely(!MDBX_IS_ERROR(err)))
-    err = meta_unsteady(env, inclusive_upto, 2);
+  int err = MDBX_SUCCESS;
+  bool wiped = false;
+  /* The last meta-page to be wiped is the most recent one, otherwise in case of an error
+   * an older meta-page becomes the last steady, but its pages may already be recycled. */
+  for (size_t i = 0; i < NUM_METAS * 2 && likely(!MDBX_IS_ERROR(err)); ++i) {
+    err = meta_unsteady(env, inclusive_upto - (i < NUM_METAS), i % NUM_METAS);
+    wiped |= err == MDBX_RESULT_TRUE;
+  }
 
-  if (err == MDBX_RESULT_TRUE) {
+  if (likely(!MDBX_IS_ERROR(err)) && wiped) {
     err = MDBX_SUCCESS;
     if (!MDBX_AVOID_MSYNC && (env->flags & MDBX_WRITEMAP))
       err = dxb_msync(env, NUM_METAS, MDBX_SYNC_DATA | MDBX_SYNC_IODQ);
-- 
2.43.0


From ff61c2fa5336ee92232f990509c59d63edfb8d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:46 +0000
Subject: [PATCH 104/110] fix: a writer must not inherit the mode of a
 read-only environment opened with extra flags

---
 mdbx.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index 0aff778..d7b62d1 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -21655,8 +21655,9 @@ __cold int env_open(MDBX_env *env, mdbx_mode_t mode) {
   lck_t *const lck = env->lck_mmap.lck;
   if (lck && lck_rc != MDBX_RESULT_TRUE && (env->flags & MDBX_RDONLY) == 0) {
     MDBX_env_flags_t snap_flags;
-    while ((snap_flags = atomic_load32(&lck->envmode, mo_AcquireRelease)) == MDBX_RDONLY) {
-      if (atomic_cas32(&lck->envmode, MDBX_RDONLY, (snap_flags = (env->flags & mode_flags)))) {
+    while ((snap_flags = atomic_load32(&lck->envmode, mo_AcquireRelease)) & MDBX_RDONLY) {
+      if (atomic_cas32(&lck->envmode, snap_flags, env->flags & mode_flags)) {
+        snap_flags = env->flags & mode_flags;
         /* The case:
          *  - let's assume that for some reason the DB file is smaller
          *    than it should be according to the geometry,
-- 
2.43.0


From e018b2e43c2cf442d08a2a0b65d7379f30c3a8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:01 +0000
Subject: [PATCH 105/110] fix: a lock taken by another thread must not pass for
 an own write transaction

With MDBX_NOSTICKYTHREADS any non-zero owner of the basal transaction was
treated as a write transaction that belongs to the caller. But the owner is also
set while the writer lock is held for a short time by another thread without a
transaction: by dxb_resize() at the start of a read transaction, by
mdbx_env_sync(), mdbx_env_set_geometry() and so on, or by mdbx_txn_begin() that
did not finish yet. Thus a concurrent mdbx_env_sync() skipped the locking and
used a stale or not yet initialized state of the basal transaction, up to
updating a meta-page without the lock.
---
 mdbx.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index d7b62d1..69b3c97 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -21271,8 +21271,8 @@ fail:
 
 MDBX_txn *env_owned_wrtxn(const MDBX_env *env) {
   if (likely(env->basal_txn)) {
-    const bool is_owned = (env->flags & MDBX_NOSTICKYTHREADS) ? (env->basal_txn->owner != 0)
-                                                              : (env->basal_txn->owner == osal_thread_self());
+    const bool is_owned = (env->basal_txn->owner == osal_thread_self()) ||
+                          ((env->flags & MDBX_NOSTICKYTHREADS) && env->basal_txn->owner && env->txn);
     if (is_owned)
       return env->txn ? env->txn : env->basal_txn;
   }
-- 
2.43.0


From 15a7e3e4672efe6dfa2ffc5fb9afefaf1a020764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:06 +0000
Subject: [PATCH 106/110] fix: an ousted or dead reader must be taken into
 account by the allocation that removed it

mvcc_kick_laggards() left the loop with the snapshot of the oldest reader taken
before the parked reader was ousted or the slot of a dead one was cleared, so it
reported that nothing was freed. If there was no more room, the very allocation
that removed the reader failed with MDBX_MAP_FULL (and without calling the HSR
callback for the next laggard).
---
 mdbx.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index 69b3c97..7f9602e 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -28599,8 +28599,12 @@ __cold bool mvcc_kick_laggards(MDBX_txn *txn, const txnid_t straggler,
       }
     }
 
-    if (!stucked)
+    if (!stucked) {
+      /* nobody holds the oldest snapshot any more, i.e. the reader was just ousted, or gone, or it was a dead one */
+      env->lck->rdt_refresh_flag.weak = /* force refresh */ true;
+      orsi = mvcc_shapshot_oldest_rw(txn);
       break;
+    }
 
     mdbx_pid_t pid = atomic_load_pid(&stucked->pid, mo_AcquireRelease);
     if (safe64_read(&stucked->txnid) != straggler || safe64_read(&stucked->tid) != stucked_tid || !pid)
-- 
2.43.0


From c523cfff6d1fb7b33da3d1ac37431888f0418b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:33 +0000
Subject: [PATCH 107/110] fix: mdbx_env_close() must survive a lock left by a
 dead writer

The final sync of mdbx_env_close() runs with the signature of the environment
already cleared. If the writer lock was left by a died process, its recovery called
mvcc_cleanup_dead(), which checked the signature. So the sync was skipped and
mdbx_env_close() answered MDBX_EBADSIGN, though the environment was closed.
The arguments should be checked in mdbx_reader_check() only.
---
 mdbx.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index 7f9602e..00c9a13 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -8499,6 +8499,11 @@ __cold int mdbx_reader_list(const MDBX_env *env, MDBX_reader_list_func func, voi
 __cold int mdbx_reader_check(MDBX_env *env, int *dead) {
   if (dead)
     *dead = 0;
+
+  int rc = check_env(env, true);
+  if (unlikely(rc != MDBX_SUCCESS))
+    return LOG_IFERR(rc);
+
   return LOG_IFERR(mvcc_cleanup_dead(env, false, dead));
 }
 
@@ -28429,10 +28434,7 @@ static bool pid_insert(mdbx_pid_t *list, mdbx_pid_t pid) {
 }
 
 __cold int mvcc_cleanup_dead(MDBX_env *env, int rdt_locked, int *dead) {
-  int rc = check_env(env, true);
-  if (unlikely(rc != MDBX_SUCCESS))
-    return rc;
-
+  int rc = MDBX_SUCCESS;
   eASSERT0(env, rdt_locked >= 0);
   lck_t *const lck = env->lck_mmap.lck;
   if (unlikely(lck == nullptr)) {
-- 
2.43.0


From afb04d6a505d39c93d0946fb719bc84b3d0fab51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:36 +0000
Subject: [PATCH 108/110] fix: opening must answer MDBX_BUSY if another process
 uses the database exclusively

mdbx_env_open() with MDBX_EXCLUSIVE is documented to answer MDBX_BUSY if
the environment is in use by another process. But if that process holds it in
the exclusive mode, the raw errno (EAGAIN) of fcntl() was returned.
---
 mdbx.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mdbx.c b/mdbx.c
index 00c9a13..f8384b7 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -25957,7 +25957,7 @@ retry:
   if (rc != MDBX_SUCCESS) {
     ERROR("%s, err %u", "lock-against-without-lck", rc);
     eASSERT0(env, MDBX_IS_ERROR(rc));
-    return rc;
+    return (rc == EAGAIN || rc == EACCES || rc == EBUSY || rc == EWOULDBLOCK) ? MDBX_BUSY : rc;
   }
 
   /* Done: return with shared locking. */
-- 
2.43.0


From 21a6d4773a246041d65894f889d1901d82a2d411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:51 +0000
Subject: [PATCH 109/110] fix: ending a read transaction inherited through
 fork() must not touch a slot of the child

mdbx_env_resurrect_after_fork() requires the child to abort the read
transactions inherited from the parent. If by that time the parent had
freed the corresponding reader slot and the child itself had bound it for
an own new reader, then the ending of the inherited transaction reset this
active slot, so the child lost the protection of its own snapshot (or
failed on an ENSURE). So remember the process which had bound the slot.
---
 mdbx.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/mdbx.c b/mdbx.c
index f8384b7..aeb683f 100644
--- a/mdbx.c
+++ b/mdbx.c
@@ -1049,6 +1049,8 @@ struct MDBX_txn {
     struct {
       /* For read txns: This thread/txn's slot table slot, or nullptr. */
       reader_slot_t *slot;
+      /* The process which had bound the slot */
+      mdbx_pid_t pid;
     } ro;
     struct {
       troika_t troika;
@@ -40631,12 +40633,12 @@ static __noinline int ro_slot_mismatch_pid(MDBX_txn *txn, const mdbx_pid_t snap_
     NOTICE("ignore pid mismatch of transaction %p mvcc %" PRIu64 "reader-slot after fork",
            __Wpedantic_format_voidptr(txn), txn->txnid);
 
-  return (current_pid != snap_slot_pid) ? MDBX_BAD_RSLOT : MDBX_SUCCESS;
+  return (current_pid != snap_slot_pid || current_pid != txn->ro.pid) ? MDBX_BAD_RSLOT : MDBX_SUCCESS;
 }
 
 static inline int ro_slot_checkpid(MDBX_txn *txn) {
   const mdbx_pid_t snap_slot_pid = ro_slot_pid(txn->ro.slot);
-  if (likely(snap_slot_pid == txn->env->registered_reader_pid)) {
+  if (likely(snap_slot_pid == txn->env->registered_reader_pid && snap_slot_pid == txn->ro.pid)) {
     tASSERT0(txn, snap_slot_pid == osal_getpid());
     if ((txn->flags & MDBX_TXN_FINISHED) == 0)
       cASSERT0(txn, ro_slot_tid(txn->ro.slot) == ((txn->env->flags & MDBX_NOSTICKYTHREADS) ? 0 : osal_thread_self()) ||
@@ -40662,6 +40664,7 @@ static int ro_slot_alloc(MDBX_txn *txn) {
       if (likely(snap_slot_pid == env->registered_reader_pid && ro_slot_txnid(slot) >= SAFE64_INVALID_THRESHOLD)) {
         tASSERT1(txn, ro_slot_tid(slot) == ((env->flags & MDBX_NOSTICKYTHREADS) ? 0 : osal_thread_self()));
         txn->ro.slot = slot;
+        txn->ro.pid = snap_slot_pid;
         return MDBX_SUCCESS;
       }
       if (unlikely(snap_slot_pid) || !(globals.runtime_flags & MDBX_DBG_LEGACY_MULTIOPEN))
@@ -40679,6 +40682,7 @@ static int ro_slot_alloc(MDBX_txn *txn) {
   }
 
   txn->ro.slot = brs.slot;
+  txn->ro.pid = env->registered_reader_pid;
   return brs.err;
 }
 
@@ -40686,9 +40690,8 @@ static void ro_slot_release(MDBX_txn *txn) {
   tASSERT0(txn, is_ro_txn(txn) && txn->ro.slot);
   reader_slot_t *slot = txn->ro.slot;
   MDBX_env *const env = txn->env;
-  eASSERT0(env, ro_slot_pid(slot) == osal_getpid());
-  eASSERT0(env, slot->txnid.weak >= SAFE64_INVALID_THRESHOLD);
-  if (ro_slot_pid(slot) == osal_getpid()) {
+  if (ro_slot_pid(slot) == osal_getpid() && txn->ro.pid == osal_getpid()) {
+    eASSERT0(env, slot->txnid.weak >= SAFE64_INVALID_THRESHOLD);
     safe64_reset(&slot->txnid, false);
     if ((env->flags & ENV_TXKEY) == 0)
       atomic_store32(&slot->pid, 0, mo_Relaxed);
-- 
2.43.0


From f5f8b72fee2fed3f8b8d865fb0f80e42a4095519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:01:43 +0000
Subject: [PATCH 110/110] fix: txn::extract(), txn::replace() and
 txn::replace_reserve() with buffers could not be compiled

---
 mdbx.h++ | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/mdbx.h++ b/mdbx.h++
index ccf1c20..80ddfad 100644
--- a/mdbx.h++
+++ b/mdbx.h++
@@ -1937,7 +1937,7 @@ private:
 
   struct data_preserver : public exception_thunk {
     buffer data;
-    data_preserver(allocator_type &alloc) : data(alloc) {}
+    data_preserver(const allocator_type &alloc) : data(alloc) {}
     static int callback(void *context, MDBX_val *target, const void *src, size_t bytes) noexcept {
       auto self = static_cast<data_preserver *>(context);
       assert(self->is_clean());
@@ -3987,20 +3987,20 @@ public:
   inline buffer<ALLOCATOR, CAPACITY_POLICY>
   extract(map_handle map, const slice &key,
           const typename buffer<ALLOCATOR, CAPACITY_POLICY>::allocator_type &alloc =
-              buffer<ALLOCATOR, CAPACITY_POLICY>::allocator_type());
+              typename buffer<ALLOCATOR, CAPACITY_POLICY>::allocator_type());
 
   /// \brief Replaces and returns a value of the key with new one.
   template <class ALLOCATOR, typename CAPACITY_POLICY>
   inline buffer<ALLOCATOR, CAPACITY_POLICY>
   replace(map_handle map, const slice &key, const slice &new_value,
           const typename buffer<ALLOCATOR, CAPACITY_POLICY>::allocator_type &alloc =
-              buffer<ALLOCATOR, CAPACITY_POLICY>::allocator_type());
+              typename buffer<ALLOCATOR, CAPACITY_POLICY>::allocator_type());
 
   template <class ALLOCATOR, typename CAPACITY_POLICY>
   inline buffer<ALLOCATOR, CAPACITY_POLICY>
   replace_reserve(map_handle map, const slice &key, slice &new_value,
                   const typename buffer<ALLOCATOR, CAPACITY_POLICY>::allocator_type &alloc =
-                      buffer<ALLOCATOR, CAPACITY_POLICY>::allocator_type());
+                      typename buffer<ALLOCATOR, CAPACITY_POLICY>::allocator_type());
 
   /// \brief Adding a key-value pair, provided that ascending order of the keys
   /// and (optionally) values are preserved.
@@ -6068,7 +6068,7 @@ txn::extract(map_handle map, const slice &key,
              const typename buffer<ALLOCATOR, CAPACITY_POLICY>::allocator_type &alloc) {
   typename buffer<ALLOCATOR, CAPACITY_POLICY>::data_preserver result(alloc);
   error::success_or_throw(
-      ::mdbx_replace_ex(handle_, map.dbi, &key, nullptr, &result.slice_, MDBX_CURRENT, result, &result), result);
+      ::mdbx_replace_ex(handle_, map.dbi, &key, nullptr, &result.data, MDBX_CURRENT, result, &result), result);
   return result;
 }
 
@@ -6077,7 +6077,7 @@ inline buffer<ALLOCATOR, CAPACITY_POLICY>
 txn::replace(map_handle map, const slice &key, const slice &new_value,
              const typename buffer<ALLOCATOR, CAPACITY_POLICY>::allocator_type &alloc) {
   typename buffer<ALLOCATOR, CAPACITY_POLICY>::data_preserver result(alloc);
-  error::success_or_throw(::mdbx_replace_ex(handle_, map.dbi, &key, const_cast<slice *>(&new_value), &result.slice_,
+  error::success_or_throw(::mdbx_replace_ex(handle_, map.dbi, &key, const_cast<slice *>(&new_value), &result.data,
                                             MDBX_CURRENT, result, &result),
                           result);
   return result;
@@ -6088,7 +6088,7 @@ inline buffer<ALLOCATOR, CAPACITY_POLICY>
 txn::replace_reserve(map_handle map, const slice &key, slice &new_value,
                      const typename buffer<ALLOCATOR, CAPACITY_POLICY>::allocator_type &alloc) {
   typename buffer<ALLOCATOR, CAPACITY_POLICY>::data_preserver result(alloc);
-  error::success_or_throw(::mdbx_replace_ex(handle_, map.dbi, &key, &new_value, &result.slice_,
+  error::success_or_throw(::mdbx_replace_ex(handle_, map.dbi, &key, &new_value, &result.data,
                                             MDBX_CURRENT | MDBX_RESERVE, result, &result),
                           result);
   return result;
-- 
2.43.0

