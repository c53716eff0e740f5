From e85ea1c7cb76b5a3dd7fdde6a3da14b1c1c01d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:52 +0000
Subject: [PATCH 01/28] fix: MP: refuse positions that do not fit in a path
 step

---
 treebeard/mp_tree.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/treebeard/mp_tree.py b/treebeard/mp_tree.py
index 0401923..4376a44 100644
--- a/treebeard/mp_tree.py
+++ b/treebeard/mp_tree.py
@@ -1115,6 +1115,8 @@ class MP_Node(Node):
         """
         parentpath = cls._get_basepath(path, depth - 1)
         key = cls._int2str(newstep)
+        if len(key) > cls.steplen:
+            raise PathOverflow(_(f"Path Overflow: no position {newstep} under '{parentpath}'"))
         return f"{parentpath}{cls.alphabet[0] * (cls.steplen - len(key))}{key}"
 
     def _inc_path(self):
-- 
2.43.0


From 79aa60d5058fb1f09f7b7cd91fbdb63cd78c677e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:52 +0000
Subject: [PATCH 02/28] fix: NS: keep the parent's rgt right after add_child on
 a non-leaf

---
 treebeard/ns_tree.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/treebeard/ns_tree.py b/treebeard/ns_tree.py
index 7a8a8dd..ffea801 100644
--- a/treebeard/ns_tree.py
+++ b/treebeard/ns_tree.py
@@ -155,7 +155,6 @@ class NS_NodeManager(NodeManager):
             last_child = self.get_last_child(node)
             last_child._cached_parent_obj = node
             new_sibling = self.add_sibling(last_child, pos, create_kwargs=create_kwargs, instance=instance)
-            node.rgt += 2
             target.rgt = node.rgt + 2  # Update the rgt of the parent object, which may be used again in a loop
             return new_sibling
 
-- 
2.43.0


From 0df027c65578402049595d02a3e352d0d5addd05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:52 +0000
Subject: [PATCH 03/28] fix: NS: get_descendant_count returns an integer

---
 treebeard/ns_tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/treebeard/ns_tree.py b/treebeard/ns_tree.py
index ffea801..fb709d6 100644
--- a/treebeard/ns_tree.py
+++ b/treebeard/ns_tree.py
@@ -510,7 +510,7 @@ class NS_NodeManager(NodeManager):
         to the node.
         """
         if not max_depth:
-            return (node.rgt - node.lft - 1) / 2
+            return (node.rgt - node.lft - 1) // 2
 
         return self.get_descendants(node, max_depth=max_depth).count()
 
-- 
2.43.0


From 1438be9d4cf4b5f23f5aa65b21f87ade9dbb264e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:32 +0000
Subject: [PATCH 04/28] fix: MP: keep the parent's numchild right in memory

---
 treebeard/mp_tree.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/treebeard/mp_tree.py b/treebeard/mp_tree.py
index 4376a44..7f32947 100644
--- a/treebeard/mp_tree.py
+++ b/treebeard/mp_tree.py
@@ -401,7 +401,7 @@ class MP_NodeManager(NodeManager):
         if self.model.node_order_by and not node.is_leaf():
             # there are child nodes and node_order_by has been set
             # delegate sorted insertion to add_sibling
-            target.numchild += 1
+            target.numchild = node.numchild + 1
             return self.add_sibling(self.get_last_child(node), "sorted-sibling", create_kwargs, instance=instance)
 
         newobj = instance or self.model(**create_kwargs)
@@ -491,6 +491,7 @@ class MP_NodeManager(NodeManager):
         # initialize variables and if moving to a child, updates "move to
         # child" to become a "move to sibling" if possible (if it can't
         # be done, it means that we are  adding the first child)
+        original_target = target
         target, newdepth, siblings, newpos, pos = self.update_move_to_child_vars(node=node, target=target, pos=pos)
 
         if target.is_descendant_of(node):
@@ -531,7 +532,7 @@ class MP_NodeManager(NodeManager):
 
         self.update_parent_counts_after_move(oldpath, newpath)
         node.refresh_from_db()  # Node path and depth will have changed
-        target.refresh_from_db()
+        original_target.refresh_from_db()
 
     def update_parent_counts_after_move(self, oldpath, newpath):
         """
@@ -556,7 +557,6 @@ class MP_NodeManager(NodeManager):
                 raise InvalidMoveToDescendant(_("Can't move node to itself."))
 
             # moving to a child
-            parent = target
             newdepth += 1
             if target.is_leaf():
                 # moving as a target's first child
@@ -571,11 +571,6 @@ class MP_NodeManager(NodeManager):
                     "sorted-child": "sorted-sibling",
                 }[pos]
 
-            # this is not for save(), since if needed, will be handled with a
-            # custom UPDATE, this is only here to update django's object,
-            # should be useful in loops
-            parent.numchild += 1
-
         return target, newdepth, siblings, newpos, pos
 
     def get_root_nodes(self):
-- 
2.43.0


From 3ddbcac353562750d5c487821172e80235b4c578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:32 +0000
Subject: [PATCH 05/28] fix: refresh the target of add_sibling and move, and
 the moved AL node

---
 treebeard/al_tree.py        | 5 +++++
 treebeard/ltree/__init__.py | 5 ++++-
 treebeard/mp_tree.py        | 1 +
 treebeard/ns_tree.py        | 2 ++
 4 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/treebeard/al_tree.py b/treebeard/al_tree.py
index 4c786cf..2cee398 100644
--- a/treebeard/al_tree.py
+++ b/treebeard/al_tree.py
@@ -103,6 +103,8 @@ class AL_NodeManager(NodeManager):
             newobj.sib_order = self._get_new_sibling_order(pos, target)
         newobj.parent_id = target.parent_id
         newobj.save(using=self._db)
+        if not target.node_order_by:
+            target.refresh_from_db(fields=["sib_order"])  # The target may have been shifted
         return newobj
 
     @transaction.atomic
@@ -113,6 +115,7 @@ class AL_NodeManager(NodeManager):
         """
 
         pos = self._prepare_pos_var_for_move(pos)
+        original_target = target
 
         sib_order = None
         parent = None
@@ -151,6 +154,8 @@ class AL_NodeManager(NodeManager):
             node.sib_order = sib_order or self._get_new_sibling_order(pos, target)
 
         node.save(using=self._db)
+        node.refresh_from_db()  # The cached depth may have changed
+        original_target.refresh_from_db()
 
     def get_root_nodes(self):
         """:returns: A queryset containing the root nodes in the tree."""
diff --git a/treebeard/ltree/__init__.py b/treebeard/ltree/__init__.py
index fd90305..9a524d6 100644
--- a/treebeard/ltree/__init__.py
+++ b/treebeard/ltree/__init__.py
@@ -259,8 +259,10 @@ class LT_NodeManager(NodeManager):
         elif pos == "last-sibling":
             insert_after = self.get_last_sibling(target)
 
-        newobj.path, _ = self._get_new_path(target.path[:-1], insert_before, insert_after)
+        newobj.path, nodes_moved = self._get_new_path(target.path[:-1], insert_before, insert_after)
         newobj.save(using=self._db)
+        if nodes_moved:
+            target.refresh_from_db(fields=["path"])
         return newobj
 
     @transaction.atomic
@@ -332,6 +334,7 @@ class LT_NodeManager(NodeManager):
             new_path=new_path,
             using=queryset.db,
         )
+        target.refresh_from_db()
 
     def get_root_nodes(self):
         """:returns: A queryset containing the root nodes in the tree."""
diff --git a/treebeard/mp_tree.py b/treebeard/mp_tree.py
index 7f32947..0cabc36 100644
--- a/treebeard/mp_tree.py
+++ b/treebeard/mp_tree.py
@@ -474,6 +474,7 @@ class MP_NodeManager(NodeManager):
         # saving the instance before returning it
         newobj.path = newpath
         newobj.save(using=self._db)
+        target.refresh_from_db(fields=["path", "depth", "numchild"])  # The target may have been shifted
 
         return newobj
 
diff --git a/treebeard/ns_tree.py b/treebeard/ns_tree.py
index fb709d6..61d4dc2 100644
--- a/treebeard/ns_tree.py
+++ b/treebeard/ns_tree.py
@@ -183,6 +183,7 @@ class NS_NodeManager(NodeManager):
         """Adds a new node as a sibling to the target."""
 
         pos = self._prepare_pos_var_for_add_sibling(pos)
+        original_target = target
 
         newobj = instance or self.model(**create_kwargs)
         newobj.depth = target.depth
@@ -250,6 +251,7 @@ class NS_NodeManager(NodeManager):
 
         # saving the instance before returning it
         newobj.save(using=self._db)
+        original_target.refresh_from_db(fields=["tree_id", "lft", "rgt", "depth"])  # It may have been shifted
 
         return newobj
 
-- 
2.43.0


From e2357b82196d6d20e480c4798397c26a03b0924d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:38 +0000
Subject: [PATCH 06/28] fix: treat max_depth=0 as a limit in AL, NS and LT
 trees

---
 treebeard/al_tree.py        | 4 ++--
 treebeard/ltree/__init__.py | 2 +-
 treebeard/ns_tree.py        | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/treebeard/al_tree.py b/treebeard/al_tree.py
index 2cee398..ea1ee01 100644
--- a/treebeard/al_tree.py
+++ b/treebeard/al_tree.py
@@ -35,7 +35,7 @@ class AL_NodeManager(NodeManager):
             depth = parent.get_depth() + 1
             parent.node_has_children = self.get_children(parent).exists()
             results = [parent]
-            if max_depth:
+            if max_depth is not None:
                 max_depth += parent.get_depth()
         else:
             depth = 1
@@ -45,7 +45,7 @@ class AL_NodeManager(NodeManager):
         return results
 
     def _get_tree_recursively(self, results, parent, depth, max_depth):
-        if max_depth and depth > max_depth:
+        if max_depth is not None and depth > max_depth:
             return results
 
         if parent:
diff --git a/treebeard/ltree/__init__.py b/treebeard/ltree/__init__.py
index 9a524d6..424b902 100644
--- a/treebeard/ltree/__init__.py
+++ b/treebeard/ltree/__init__.py
@@ -154,7 +154,7 @@ class LT_NodeManager(NodeManager):
         if parent:
             filters["path__descendants"] = parent.path
 
-        if max_depth:
+        if max_depth is not None:
             filters["path__depth__lte"] = max_depth + (parent.get_depth() if parent else 0)
 
         return cls.objects.filter(**filters)
diff --git a/treebeard/ns_tree.py b/treebeard/ns_tree.py
index 61d4dc2..48940f6 100644
--- a/treebeard/ns_tree.py
+++ b/treebeard/ns_tree.py
@@ -104,7 +104,7 @@ class NS_NodeManager(NodeManager):
             filters["tree_id"] = parent.tree_id
             filters["lft__range"] = (parent.lft, parent.rgt - 1)
 
-        if max_depth:
+        if max_depth is not None:
             filters["depth__lte"] = max_depth + (parent.depth if parent else 0)
 
         return cls.objects.filter(**filters)
@@ -511,7 +511,7 @@ class NS_NodeManager(NodeManager):
         If max_depth is set then the count is limited to the specified depth relative
         to the node.
         """
-        if not max_depth:
+        if max_depth is None:
             return (node.rgt - node.lft - 1) // 2
 
         return self.get_descendants(node, max_depth=max_depth).count()
-- 
2.43.0


From 64136edeff25608b9509bcea96ad740aa9bba7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:38 +0000
Subject: [PATCH 07/28] fix: get_annotated_list(max_depth) works for trees
 without a depth column

---
 treebeard/models.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/treebeard/models.py b/treebeard/models.py
index e3059a6..7d67c9c 100644
--- a/treebeard/models.py
+++ b/treebeard/models.py
@@ -430,9 +430,12 @@ class NodeManager(models.Manager):
 
             Optionally limit to specified depth
         """
-        qs = self.get_tree(parent)
-        if max_depth:
-            qs = qs.filter(depth__lte=max_depth)
+        if not max_depth:
+            qs = self.get_tree(parent)
+        else:
+            # get_tree() limits the depth relative to the parent
+            relative_depth = max_depth - (parent.get_depth() if parent else 0)
+            qs = self.get_tree(parent, max_depth=relative_depth) if relative_depth >= 0 else []
         return self.get_annotated_list_qs(qs)
 
     @transaction.atomic
-- 
2.43.0


From 4fa20170fab104c4e59d58184f348351b8e49dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:38 +0000
Subject: [PATCH 08/28] fix: AL: previous and next sibling of sorted trees

---
 treebeard/al_tree.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/treebeard/al_tree.py b/treebeard/al_tree.py
index ea1ee01..dedeb67 100644
--- a/treebeard/al_tree.py
+++ b/treebeard/al_tree.py
@@ -229,9 +229,13 @@ class AL_NodeManager(NodeManager):
         return len(self.get_descendants(node, max_depth=max_depth))
 
     def get_prev_sibling(self, node):
+        if node.node_order_by:  # there is no sib_order
+            return super().get_prev_sibling(node)
         return self.get_siblings(node).filter(sib_order__lt=node.sib_order).last()
 
     def get_next_sibling(self, node):
+        if node.node_order_by:  # there is no sib_order
+            return super().get_next_sibling(node)
         return self.get_siblings(node).filter(sib_order__gt=node.sib_order).first()
 
     def get_root(self, node):
-- 
2.43.0


From 8f5f7f7c3c2fa4a4da5f025ff5811336a8e3d2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:38 +0000
Subject: [PATCH 09/28] fix: a proxy of a proxy keeps its class as tree model

---
 treebeard/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/treebeard/models.py b/treebeard/models.py
index 7d67c9c..30356c3 100644
--- a/treebeard/models.py
+++ b/treebeard/models.py
@@ -197,7 +197,7 @@ class NodeManager(models.Manager):
         """
         cls = self.model
         base_class = cls._meta.get_field(cls.TREEBEARD_IDENTIFYING_FIELD).model
-        if cls._meta.proxy_for_model == base_class:
+        if cls._meta.concrete_model == base_class:
             return cls
 
         return base_class
-- 
2.43.0


From 87ca50ef1ca61e226af8966d1c07ed549bc10c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:38 +0000
Subject: [PATCH 10/28] fix: MoveNodeForm always puts a new node into the tree

---
 treebeard/forms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/treebeard/forms.py b/treebeard/forms.py
index 723b752..de30509 100644
--- a/treebeard/forms.py
+++ b/treebeard/forms.py
@@ -162,13 +162,13 @@ class MoveNodeForm(forms.ModelForm):
         position_type = self.cleaned_data.pop("treebeard_position")
         manager = self._meta.model.objects
 
-        # If no treebeard fields have been modified, skip treebeard-specific logic and delegate to parent class
+        # If no treebeard fields of a saved node have been modified, skip treebeard-specific logic and delegate to parent class
         treebeard_fields = {
             "treebeard_ref_node",
             "treebeard_position",
             *(manager.tree_model.node_order_by or []),
         }
-        if not set(self.changed_data) & treebeard_fields:
+        if not self.instance._state.adding and not set(self.changed_data) & treebeard_fields:
             return super().save(commit=commit)
 
         if self.instance._state.adding:
-- 
2.43.0


From 9ee1095f17f29fd8273d8009535dca434e15c626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:38 +0000
Subject: [PATCH 11/28] fix: LT: a node that belongs last is placed after the
 last sibling

---
 treebeard/ltree/__init__.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/treebeard/ltree/__init__.py b/treebeard/ltree/__init__.py
index 424b902..e0f4817 100644
--- a/treebeard/ltree/__init__.py
+++ b/treebeard/ltree/__init__.py
@@ -179,7 +179,9 @@ class LT_NodeManager(NodeManager):
 
         if last_root:
             # adding the new root node as the last one
-            newobj.path = generate_path(skip=self.get_root_nodes().values_list("path", flat=True))
+            newobj.path = generate_path(
+                skip=self.get_root_nodes().values_list("path", flat=True), after=last_root.path[-1]
+            )
         else:
             # adding the first root node
             newobj.path = generate_path()
@@ -248,6 +250,8 @@ class LT_NodeManager(NodeManager):
             insert_before = self.get_sorted_pos_queryset(self.get_siblings(target), newobj).first()
             if insert_before:
                 insert_after = self.get_prev_sibling(insert_before)
+            else:
+                insert_after = self.get_last_sibling(target)
         elif pos == "first-sibling":
             insert_before = self.get_first_sibling(target)
         elif pos == "left":
@@ -288,10 +292,14 @@ class LT_NodeManager(NodeManager):
             insert_before = self.get_sorted_pos_queryset(self.get_siblings(target), node).first()
             if insert_before:
                 insert_after = self.get_prev_sibling(insert_before)
+            else:
+                insert_after = self.get_last_sibling(target)
         elif pos == "sorted-child":
             insert_before = self.get_sorted_pos_queryset(self.get_children(target), node).first()
             if insert_before:
                 insert_after = self.get_prev_sibling(insert_before)
+            else:
+                insert_after = self.get_last_child(target)
             prefix = target.path
         elif pos == "first-sibling":
             insert_before = self.get_siblings(target).first()
-- 
2.43.0


From 4c059deac32e592e794adfa26da323ad56d6f58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:36 +0000
Subject: [PATCH 12/28] fix: MP and NS: deleting a queryset of nodes is atomic

---
 treebeard/mp_tree.py | 29 +++++++++++++++--------------
 treebeard/ns_tree.py | 31 +++++++++++++++++--------------
 2 files changed, 32 insertions(+), 28 deletions(-)

diff --git a/treebeard/mp_tree.py b/treebeard/mp_tree.py
index 0cabc36..0c4584c 100644
--- a/treebeard/mp_tree.py
+++ b/treebeard/mp_tree.py
@@ -69,20 +69,21 @@ class MP_NodeQuerySet(models.query.QuerySet):
 
         model = self.model.objects.tree_model
 
-        # Save the updated numchild of all parents
-        for path, num_lost in parents.items():
-            model.objects.filter(path=path).update(numchild=Greatest(F("numchild") - num_lost, 0))
-
-        # Django will handle this as a SELECT and then a DELETE of
-        # ids, and will deal with removing related objects
-        query = Q(pk__in=pks_to_remove)
-        for path in paths_to_remove:
-            query |= Q(path__startswith=path)
-        count, deletion_map = super(MP_NodeQuerySet, model.objects.filter(query)).delete(*args, **kwargs)
-        if count > 0:
-            nodes_deleted.send(
-                sender=model, pks_to_remove=pks_to_remove, paths_to_remove=paths_to_remove, using=self.db
-            )
+        with transaction.atomic(using=router.db_for_write(model), savepoint=False):
+            # Save the updated numchild of all parents
+            for path, num_lost in parents.items():
+                model.objects.filter(path=path).update(numchild=Greatest(F("numchild") - num_lost, 0))
+
+            # Django will handle this as a SELECT and then a DELETE of
+            # ids, and will deal with removing related objects
+            query = Q(pk__in=pks_to_remove)
+            for path in paths_to_remove:
+                query |= Q(path__startswith=path)
+            count, deletion_map = super(MP_NodeQuerySet, model.objects.filter(query)).delete(*args, **kwargs)
+            if count > 0:
+                nodes_deleted.send(
+                    sender=model, pks_to_remove=pks_to_remove, paths_to_remove=paths_to_remove, using=self.db
+                )
         return count, deletion_map
 
     delete.alters_data = True
diff --git a/treebeard/ns_tree.py b/treebeard/ns_tree.py
index 48940f6..2a72eec 100644
--- a/treebeard/ns_tree.py
+++ b/treebeard/ns_tree.py
@@ -5,7 +5,7 @@ from functools import reduce
 from itertools import groupby
 
 from django.core import serializers
-from django.db import models, transaction
+from django.db import models, router, transaction
 from django.db.models import Case, F, Q, When
 from django.dispatch import Signal
 from django.utils.translation import gettext_noop as _
@@ -57,19 +57,22 @@ class NS_NodeQuerySet(models.query.QuerySet):
         if not toremove:
             return (0, {})
 
-        # call the default django delete method with the full set of nodes and descendants to delete,
-        # and let it handle the removal of the user's foreign keys
-        result = super(NS_NodeQuerySet, model.objects.filter(reduce(operator.or_, toremove))).delete(*args, **kwargs)
-        nodes_deleted.send(sender=model, removed_ranges=ranges, using=self.db)
-
-        # Now closing the gap (Celko's trees book, page 62)
-        # We do this for every gap that was left in the tree when the nodes
-        # were removed.  If many nodes were removed, we're going to update
-        # the same nodes over and over again. This would be probably
-        # cheaper precalculating the gapsize per intervals, or just do a
-        # complete reordering of the tree (uses COUNT)...
-        for tree_id, drop_lft, drop_rgt in sorted(ranges, reverse=True):
-            model.objects._close_gap(drop_lft, drop_rgt, tree_id)
+        with transaction.atomic(using=router.db_for_write(model), savepoint=False):
+            # call the default django delete method with the full set of nodes and descendants to delete,
+            # and let it handle the removal of the user's foreign keys
+            result = super(NS_NodeQuerySet, model.objects.filter(reduce(operator.or_, toremove))).delete(
+                *args, **kwargs
+            )
+            nodes_deleted.send(sender=model, removed_ranges=ranges, using=self.db)
+
+            # Now closing the gap (Celko's trees book, page 62)
+            # We do this for every gap that was left in the tree when the nodes
+            # were removed.  If many nodes were removed, we're going to update
+            # the same nodes over and over again. This would be probably
+            # cheaper precalculating the gapsize per intervals, or just do a
+            # complete reordering of the tree (uses COUNT)...
+            for tree_id, drop_lft, drop_rgt in sorted(ranges, reverse=True):
+                model.objects._close_gap(drop_lft, drop_rgt, tree_id)
         return result
 
     delete.alters_data = True
-- 
2.43.0


From 0de2e39836c9163ac0c8b1e0bf86691c91e18dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:36 +0000
Subject: [PATCH 13/28] fix: MP: load_bulk(bulk_create=True) refuses paths that
 are too long

---
 treebeard/mp_tree.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/treebeard/mp_tree.py b/treebeard/mp_tree.py
index 0c4584c..277ffd9 100644
--- a/treebeard/mp_tree.py
+++ b/treebeard/mp_tree.py
@@ -411,15 +411,7 @@ class MP_NodeManager(NodeManager):
         if node.is_leaf():
             # the node had no children, adding the first child
             newobj.path = self.model._get_path(node.path, newobj.depth, 1)
-            max_length = self.model._meta.get_field("path").max_length
-            if len(newobj.path) > max_length:
-                raise PathOverflow(
-                    _(
-                        "The new node is too deep in the tree, try"
-                        " increasing the path.max_length property"
-                        " and UPDATE your database"
-                    )
-                )
+            self._check_path_length(len(newobj.path))
         else:
             # adding the new child as the last one
             newobj.path = self.get_last_child(node)._inc_path()
@@ -678,6 +670,7 @@ class MP_NodeManager(NodeManager):
                 child.object.depth = child_depth
                 child.object.numchild = len(child.children)
                 child.object.path = self.model._get_path(parent_node.path, child_depth, i + 1)
+                self._check_path_length(len(child.object.path))
 
                 children_to_create.append(child)
 
@@ -746,6 +739,16 @@ class MP_NodeManager(NodeManager):
             lnk[path] = newobj
         return ret
 
+    def _check_path_length(self, length):
+        if length > self.model._meta.get_field("path").max_length:
+            raise PathOverflow(
+                _(
+                    "The new node is too deep in the tree, try"
+                    " increasing the path.max_length property"
+                    " and UPDATE your database"
+                )
+            )
+
     def _increment_numchild(self, path):
         self.tree_model.objects.filter(path=path).update(numchild=F("numchild") + 1)
 
-- 
2.43.0


From 7b87122a00aea8f1bb62634ba32b463c0f924e13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:36 +0000
Subject: [PATCH 14/28] fix: MP: move refuses to make paths too long

---
 treebeard/mp_tree.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/treebeard/mp_tree.py b/treebeard/mp_tree.py
index 277ffd9..eede01b 100644
--- a/treebeard/mp_tree.py
+++ b/treebeard/mp_tree.py
@@ -7,7 +7,7 @@ from typing import Any
 
 from django.core import serializers
 from django.db import connections, models, router, transaction
-from django.db.models import F, Func, OuterRef, Q, Subquery, Value
+from django.db.models import F, Func, Max, OuterRef, Q, Subquery, Value
 from django.db.models.functions import Concat, Greatest, Length, Substr
 from django.dispatch import Signal
 from django.utils.translation import gettext_noop as _
@@ -519,6 +519,11 @@ class MP_NodeManager(NodeManager):
         ):
             return
 
+        if newdepth > node.depth:
+            # The whole branch moves down, the deepest descendants must still fit
+            longest = self.get_tree(node).aggregate(longest=Max(Length("path")))["longest"] or len(node.path)
+            self._check_path_length(longest + (newdepth - node.depth) * self.model.steplen)
+
         # Move nodes
         oldpath, newpath = self._reorder_nodes_before_add_or_move(
             pos, newpos, newdepth, target, siblings, node.path, True
-- 
2.43.0


From 1605665d027833db13c366257f16710c44869608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:16 +0000
Subject: [PATCH 15/28] fix: MP: load_bulk(bulk_create=True) on sorted trees
 puts children under the right node

---
 treebeard/mp_tree.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/treebeard/mp_tree.py b/treebeard/mp_tree.py
index eede01b..4a92c68 100644
--- a/treebeard/mp_tree.py
+++ b/treebeard/mp_tree.py
@@ -666,7 +666,7 @@ class MP_NodeManager(NodeManager):
 
         added = []
         bulk_data = prepare_dumpdata_for_loading(self.model, data=bulk_data, keep_ids=keep_ids)
-        children_to_create = []
+        first_level, children_to_create = [], []
 
         def _build_children(parent_node, children) -> None:
             child_depth = parent_node.depth + 1
@@ -692,7 +692,13 @@ class MP_NodeManager(NodeManager):
             )
             save_m2m(node_obj, deserialized_obj)
             added.append(node_obj.pk)
-            _build_children(node_obj, deserialized_obj.children)
+            first_level.append((node_obj, deserialized_obj.children))
+
+        for node_obj, children in first_level:
+            if self.model.node_order_by:
+                # The node may have been shifted by a node that was added after it
+                node_obj.refresh_from_db(fields=["path"])
+            _build_children(node_obj, children)
 
         # Bulk create descendants
         created = self.bulk_create([obj.object for obj in children_to_create], batch_size=batch_size)
-- 
2.43.0


From 8ca2f2ac0fa29d26dbf9b3bdc0911b37a4c3080c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:35 +0000
Subject: [PATCH 16/28] fix: position next to a node of an inherited model in
 nested sets

Instances of a multi-table child are never equal to the base instances the
sibling querysets return, so pos="right" placed the node on the left.
---
 treebeard/ns_tree.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/treebeard/ns_tree.py b/treebeard/ns_tree.py
index 2a72eec..f7d57b0 100644
--- a/treebeard/ns_tree.py
+++ b/treebeard/ns_tree.py
@@ -225,7 +225,7 @@ class NS_NodeManager(NodeManager):
                 siblings = self.get_siblings(target)
 
                 if pos == "right":
-                    if target == siblings.last():
+                    if target.pk == siblings.last().pk:
                         pos = "last-sibling"
                     else:
                         pos = "left"
@@ -234,7 +234,7 @@ class NS_NodeManager(NodeManager):
                             if found:
                                 target = node
                                 break
-                            elif node == target:
+                            elif node.pk == target.pk:
                                 found = True
                 if pos == "left":
                     if target == siblings.first():
@@ -307,7 +307,7 @@ class NS_NodeManager(NodeManager):
             siblings = self.get_siblings(target)
 
             if pos == "right":
-                if target == siblings.last():
+                if target.pk == siblings.last().pk:
                     pos = "last-sibling"
                 else:
                     pos = "left"
@@ -316,7 +316,7 @@ class NS_NodeManager(NodeManager):
                         if found:
                             target = sib
                             break
-                        elif sib == target:
+                        elif sib.pk == target.pk:
                             found = True
             if pos == "left":
                 if target == siblings.first():
-- 
2.43.0


From 62e271a52b2ab92bce85a1259ee785117137c97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:59 +0000
Subject: [PATCH 17/28] fix: reference nodes of the move form for inherited
 models on adjacency lists

The form offered the base nodes of the tree but only accepted instances of
the child model, and offered the node itself.
---
 treebeard/forms.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/treebeard/forms.py b/treebeard/forms.py
index de30509..6c8305d 100644
--- a/treebeard/forms.py
+++ b/treebeard/forms.py
@@ -103,18 +103,19 @@ class MoveNodeForm(forms.ModelForm):
         Excludes the instance and its descendants since a move relative to those would be invalid
         """
         if issubclass(opts.model, AL_Node):
-            choices = opts.model.objects.get_tree()
-            descendants = opts.model.objects.get_descendants(instance, include_self=True) if instance else []
+            manager = opts.model.objects
+            choices = manager.get_tree()
+            descendants = {node.pk for node in manager.get_descendants(instance, include_self=True)} if instance else ()
             field = self.fields["treebeard_ref_node"]
             self.fields["treebeard_ref_node"]._choices = [("", "--------")] + [
                 (field.prepare_value(node), field.label_from_instance(node))
                 for node in choices
-                if node not in descendants
+                if node.pk not in descendants
             ]
             # Must set queryset so that the manually defined choices are valid.
             # Must also do this *after* setting _choices above, otherwise the setter
             # for queryset will overwrite the choices.
-            self.fields["treebeard_ref_node"].queryset = opts.model.objects.all()
+            self.fields["treebeard_ref_node"].queryset = manager.tree_model.objects.all()
             return
 
         queryset = opts.model.objects.get_tree()
-- 
2.43.0


From c66379c7e16d104927a5c57ff93791bee061a22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:03 +0000
Subject: [PATCH 18/28] fix: refuse to move a node of an inherited model below
 its own base instance

Model equality is false between a multi-table child and its base instance, so
the guard did not recognise the node as the target.
---
 treebeard/al_tree.py        | 2 +-
 treebeard/ltree/__init__.py | 2 +-
 treebeard/mp_tree.py        | 2 +-
 treebeard/ns_tree.py        | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/treebeard/al_tree.py b/treebeard/al_tree.py
index dedeb67..0720fbd 100644
--- a/treebeard/al_tree.py
+++ b/treebeard/al_tree.py
@@ -121,7 +121,7 @@ class AL_NodeManager(NodeManager):
         parent = None
 
         if pos in ("first-child", "last-child", "sorted-child"):
-            if node == target:
+            if node.pk == target.pk:
                 raise InvalidMoveToDescendant(_("Can't move node to itself."))
 
             # moving to a child
diff --git a/treebeard/ltree/__init__.py b/treebeard/ltree/__init__.py
index e0f4817..c7e37e5 100644
--- a/treebeard/ltree/__init__.py
+++ b/treebeard/ltree/__init__.py
@@ -278,7 +278,7 @@ class LT_NodeManager(NodeManager):
         pos = self._prepare_pos_var_for_move(pos)
 
         if pos in ("first-child", "last-child", "sorted-child"):
-            if target == node:
+            if target.pk == node.pk:
                 raise InvalidMoveToDescendant(_("Can't move node to itself."))
 
         if target.is_descendant_of(node):
diff --git a/treebeard/mp_tree.py b/treebeard/mp_tree.py
index 4a92c68..be0a5f8 100644
--- a/treebeard/mp_tree.py
+++ b/treebeard/mp_tree.py
@@ -552,7 +552,7 @@ class MP_NodeManager(NodeManager):
         newpos = None
         siblings = []
         if pos in ("first-child", "last-child", "sorted-child"):
-            if target == node:
+            if target.pk == node.pk:
                 raise InvalidMoveToDescendant(_("Can't move node to itself."))
 
             # moving to a child
diff --git a/treebeard/ns_tree.py b/treebeard/ns_tree.py
index f7d57b0..fac4192 100644
--- a/treebeard/ns_tree.py
+++ b/treebeard/ns_tree.py
@@ -272,7 +272,7 @@ class NS_NodeManager(NodeManager):
         parent = None
 
         if pos in ("first-child", "last-child", "sorted-child"):
-            if node == target:
+            if node.pk == target.pk:
                 raise InvalidMoveToDescendant(_("Can't move node to itself."))
 
             # moving to a child
-- 
2.43.0


From 73f6efb4b89e94bf17c67c60eecfecb9bf3e672a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:13 +0000
Subject: [PATCH 19/28] fix: AL_NodeManager.get_parent of a proxy of a
 multi-table child finds parents that are base rows

---
 treebeard/al_tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/treebeard/al_tree.py b/treebeard/al_tree.py
index 0720fbd..fdea228 100644
--- a/treebeard/al_tree.py
+++ b/treebeard/al_tree.py
@@ -254,7 +254,7 @@ class AL_NodeManager(NodeManager):
             if node.parent_id is None:
                 return None
 
-            return self.get(pk=node.parent_id)
+            return self.tree_model.objects.get(pk=node.parent_id)
 
         return node.parent
 
-- 
2.43.0


From 7f65497586a3f196528364a8bb1e50c7e3c93439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:43 +0000
Subject: [PATCH 20/28] fix: LT_NodeManager.add_child uses the locked row of
 the parent, not the path the object was loaded with

---
 treebeard/ltree/__init__.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/treebeard/ltree/__init__.py b/treebeard/ltree/__init__.py
index c7e37e5..270de2c 100644
--- a/treebeard/ltree/__init__.py
+++ b/treebeard/ltree/__init__.py
@@ -202,26 +202,26 @@ class LT_NodeManager(NodeManager):
         obj = self.__class__(**create_kwargs)
         ```
         """
-        # Lock parent row
-        self.tree_model.objects.filter(pk=target.pk).select_for_update().only("pk").get()
-        if self.model.node_order_by and not target.is_leaf():
+        # Lock the parent row
+        node = self.tree_model.objects.filter(pk=target.pk).select_for_update().get()
+        if self.model.node_order_by and not node.is_leaf():
             # there are child nodes and node_order_by has been set
             # delegate sorted insertion to add_sibling
             return self.add_sibling(
-                self.get_last_child(target), "sorted-sibling", create_kwargs=create_kwargs, instance=instance
+                self.get_last_child(node), "sorted-sibling", create_kwargs=create_kwargs, instance=instance
             )
 
         newobj = instance or self.model(**create_kwargs)
 
-        if target.is_leaf():
+        if node.is_leaf():
             # the node had no children, adding the first child
-            newobj.path = generate_path(prefix=target.path)
+            newobj.path = generate_path(prefix=node.path)
         else:
             # adding the new child as the last one
             newobj.path = generate_path(
-                prefix=target.path,
-                skip=self.get_children(target).values_list("path", flat=True),
-                after=self.get_children(target).last().path[-1],
+                prefix=node.path,
+                skip=self.get_children(node).values_list("path", flat=True),
+                after=self.get_children(node).last().path[-1],
             )
 
         # saving the instance before returning it
-- 
2.43.0


From 8bdb3d0b18af3a53507bcdfb178ba022de62d2ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:37 +0000
Subject: [PATCH 21/28] fix: run tree operations in a transaction on the
 database the model is routed to

The manager methods opened their transaction on the default database. For a
model that a router keeps elsewhere, an operation that failed half way left
its first statements behind (e.g. siblings shifted and the child count of the
parent changed although the new row was refused).
---
 treebeard/al_tree.py        | 12 ++++++------
 treebeard/ltree/__init__.py | 12 ++++++------
 treebeard/models.py         |  6 +++---
 treebeard/mp_tree.py        | 14 +++++++-------
 treebeard/ns_tree.py        | 10 +++++-----
 treebeard/utils.py          | 17 ++++++++++++++++-
 6 files changed, 43 insertions(+), 28 deletions(-)

diff --git a/treebeard/al_tree.py b/treebeard/al_tree.py
index fdea228..594ec84 100644
--- a/treebeard/al_tree.py
+++ b/treebeard/al_tree.py
@@ -1,13 +1,13 @@
 """Adjacency List"""
 
 from django.core import serializers
-from django.db import models, transaction
+from django.db import models
 from django.db.models import Exists, Max, Min, OuterRef
 from django.utils.translation import gettext_noop as _
 
 from treebeard.exceptions import InvalidMoveToDescendant
 from treebeard.models import Node, NodeManager
-from treebeard.utils import check_create_args
+from treebeard.utils import atomic_write, check_create_args
 
 
 class AL_NodeManager(NodeManager):
@@ -61,7 +61,7 @@ class AL_NodeManager(NodeManager):
             results.append(node)
             self._get_tree_recursively(results, node, depth + 1, max_depth=max_depth)
 
-    @transaction.atomic
+    @atomic_write
     @check_create_args
     def add_root(self, create_kwargs=None, *, instance=None):
         """Adds a root node to the tree."""
@@ -73,7 +73,7 @@ class AL_NodeManager(NodeManager):
         newobj.save(using=self._db)
         return newobj
 
-    @transaction.atomic
+    @atomic_write
     @check_create_args
     def add_child(self, target, create_kwargs=None, *, instance=None):
         """Adds a child to the node."""
@@ -92,7 +92,7 @@ class AL_NodeManager(NodeManager):
         newobj.save(using=self._db)
         return newobj
 
-    @transaction.atomic
+    @atomic_write
     @check_create_args
     def add_sibling(self, target, pos=None, create_kwargs=None, instance=None):
         """Adds a new node as a sibling to the current node object."""
@@ -107,7 +107,7 @@ class AL_NodeManager(NodeManager):
             target.refresh_from_db(fields=["sib_order"])  # The target may have been shifted
         return newobj
 
-    @transaction.atomic
+    @atomic_write
     def move(self, node, target, pos=None):
         """
         Moves the current node and all it's descendants to a new position
diff --git a/treebeard/ltree/__init__.py b/treebeard/ltree/__init__.py
index 270de2c..1d27dd3 100644
--- a/treebeard/ltree/__init__.py
+++ b/treebeard/ltree/__init__.py
@@ -7,7 +7,7 @@ import string
 from collections.abc import Iterable
 
 from django.core import serializers
-from django.db import models, transaction
+from django.db import models
 from django.db.models import F, Func, OuterRef, Q, Subquery, Value
 from django.db.models.functions import Concat
 from django.dispatch import Signal
@@ -15,7 +15,7 @@ from django.utils.translation import gettext_noop as _
 
 from treebeard.exceptions import InvalidMoveToDescendant, PathOverflow
 from treebeard.models import Node, NodeManager
-from treebeard.utils import check_create_args
+from treebeard.utils import atomic_write, check_create_args
 
 from .fields import Ltree2Text, PathField, PathValue, Subpath, Text2LTree
 
@@ -159,7 +159,7 @@ class LT_NodeManager(NodeManager):
 
         return cls.objects.filter(**filters)
 
-    @transaction.atomic
+    @atomic_write
     @check_create_args
     def add_root(self, create_kwargs=None, *, instance=None):
         """
@@ -190,7 +190,7 @@ class LT_NodeManager(NodeManager):
         newobj.save(using=self._db)
         return newobj
 
-    @transaction.atomic
+    @atomic_write
     @check_create_args
     def add_child(self, target, create_kwargs=None, *, instance=None):
         """
@@ -228,7 +228,7 @@ class LT_NodeManager(NodeManager):
         newobj.save(using=self._db)
         return newobj
 
-    @transaction.atomic
+    @atomic_write
     @check_create_args
     def add_sibling(self, target, pos=None, create_kwargs=None, *, instance=None):
         """
@@ -269,7 +269,7 @@ class LT_NodeManager(NodeManager):
             target.refresh_from_db(fields=["path"])
         return newobj
 
-    @transaction.atomic
+    @atomic_write
     def move(self, node, target, pos=None):
         """
         Moves the current node and all it's descendants to a new position
diff --git a/treebeard/models.py b/treebeard/models.py
index 30356c3..4f7cf63 100644
--- a/treebeard/models.py
+++ b/treebeard/models.py
@@ -6,13 +6,13 @@ from contextlib import suppress
 from functools import reduce
 
 from django.core import checks
-from django.db import models, transaction
+from django.db import models
 from django.db.models import Q
 from django.utils.functional import cached_property
 
 from treebeard.deprecation import RemovedInTreebeard8Warning, get_moved_manager_classmethod, get_moved_manager_method
 from treebeard.exceptions import InvalidPosition, MissingNodeOrderBy
-from treebeard.utils import prepare_dumpdata_for_loading, save_m2m
+from treebeard.utils import atomic_write, prepare_dumpdata_for_loading, save_m2m
 
 
 class Node(models.Model):
@@ -438,7 +438,7 @@ class NodeManager(models.Manager):
             qs = self.get_tree(parent, max_depth=relative_depth) if relative_depth >= 0 else []
         return self.get_annotated_list_qs(qs)
 
-    @transaction.atomic
+    @atomic_write
     def load_bulk(self, bulk_data, parent=None, keep_ids=False):
         """
         Loads a list/dictionary structure to the tree.
diff --git a/treebeard/mp_tree.py b/treebeard/mp_tree.py
index be0a5f8..780be6a 100644
--- a/treebeard/mp_tree.py
+++ b/treebeard/mp_tree.py
@@ -16,7 +16,7 @@ from treebeard.deprecation import RemovedInTreebeard8Warning
 from treebeard.exceptions import InvalidMoveToDescendant, PathOverflow
 from treebeard.models import Node, NodeManager
 from treebeard.numconv import NumConv
-from treebeard.utils import check_create_args, prepare_dumpdata_for_loading, save_m2m
+from treebeard.utils import atomic_write, check_create_args, prepare_dumpdata_for_loading, save_m2m
 
 path_updated = Signal()
 nodes_deleted = Signal()
@@ -165,7 +165,7 @@ class MP_NodeManager(NodeManager):
         self._fix_numchild(qs)
 
         if fix_paths:
-            with transaction.atomic():
+            with transaction.atomic(using=router.db_for_write(cls)):
                 # To fix holes and mis-orderings in paths, we consider each non-leaf node in turn
                 # and ensure that its children's path values are consecutive (and in the order
                 # given by node_order_by, if applicable). children_to_fix is a queue of child sets
@@ -337,7 +337,7 @@ class MP_NodeManager(NodeManager):
 
         return evil_chars, bad_steplen, orphans, wrong_depth, wrong_numchild
 
-    @transaction.atomic
+    @atomic_write
     @check_create_args
     def add_root(self, create_kwargs=None, *, instance=None):
         """
@@ -381,7 +381,7 @@ class MP_NodeManager(NodeManager):
         newobj.save(using=self._db)
         return newobj
 
-    @transaction.atomic
+    @atomic_write
     @check_create_args
     def add_child(self, target, create_kwargs=None, *, instance=None):
         """
@@ -426,7 +426,7 @@ class MP_NodeManager(NodeManager):
 
         return newobj
 
-    @transaction.atomic
+    @atomic_write
     @check_create_args
     def add_sibling(self, target, pos=None, create_kwargs=None, *, instance=None):
         """
@@ -471,7 +471,7 @@ class MP_NodeManager(NodeManager):
 
         return newobj
 
-    @transaction.atomic
+    @atomic_write
     def move(self, node, target, pos=None):
         """
         Moves node and all its descendants to a new position
@@ -604,7 +604,7 @@ class MP_NodeManager(NodeManager):
         )  # Subtract the parent node from the count
         return qs
 
-    @transaction.atomic
+    @atomic_write
     def load_bulk(
         self,
         bulk_data,
diff --git a/treebeard/ns_tree.py b/treebeard/ns_tree.py
index fac4192..dd35aee 100644
--- a/treebeard/ns_tree.py
+++ b/treebeard/ns_tree.py
@@ -12,7 +12,7 @@ from django.utils.translation import gettext_noop as _
 
 from treebeard.exceptions import InvalidMoveToDescendant
 from treebeard.models import Node, NodeManager
-from treebeard.utils import check_create_args
+from treebeard.utils import atomic_write, check_create_args
 
 gap_altered = Signal()
 tree_ids_incremented = Signal()
@@ -112,7 +112,7 @@ class NS_NodeManager(NodeManager):
 
         return cls.objects.filter(**filters)
 
-    @transaction.atomic
+    @atomic_write
     @check_create_args
     def add_root(self, create_kwargs=None, *, instance=None):
         """Adds a root node to the tree."""
@@ -141,7 +141,7 @@ class NS_NodeManager(NodeManager):
         newobj.save(using=self._db)
         return newobj
 
-    @transaction.atomic
+    @atomic_write
     @check_create_args
     def add_child(self, target, create_kwargs=None, *, instance=None):
         """Adds a child to the target."""
@@ -180,7 +180,7 @@ class NS_NodeManager(NodeManager):
 
         return newobj
 
-    @transaction.atomic
+    @atomic_write
     @check_create_args
     def add_sibling(self, target, pos=None, create_kwargs=None, *, instance=None):
         """Adds a new node as a sibling to the target."""
@@ -258,7 +258,7 @@ class NS_NodeManager(NodeManager):
 
         return newobj
 
-    @transaction.atomic
+    @atomic_write
     def move(self, node, target, pos=None):
         """
         Moves the current node and all it's descendants to a new position
diff --git a/treebeard/utils.py b/treebeard/utils.py
index b2575bf..c9806f1 100644
--- a/treebeard/utils.py
+++ b/treebeard/utils.py
@@ -1,9 +1,10 @@
 import inspect
+from functools import wraps
 from typing import Any, TypedDict
 
 from django.core import serializers
 from django.core.serializers.base import DeserializedObject
-from django.db import models
+from django.db import models, router, transaction
 
 from treebeard.exceptions import NodeAlreadySaved
 
@@ -41,6 +42,20 @@ def save_m2m(node: models.Model, deserialized_obj: DeserializedObject):
         deserialized_obj.m2m_data = None  # Avoid accidental reuse of m2m_data if save() is called on the object
 
 
+def atomic_write(func):
+    """
+    Decorator to run a manager method in a transaction on the database that its model is written to,
+    which is not necessarily the default one.
+    """
+
+    @wraps(func)
+    def wrapper(self, *args, **kwargs):
+        with transaction.atomic(using=self._db or router.db_for_write(self.model)):
+            return func(self, *args, **kwargs)
+
+    return wrapper
+
+
 def check_create_args(func):
     """
     Decorator to validate `create_kwargs` and `instance` parameters for methods that
-- 
2.43.0


From 8741116aabede9478a7b7e4bf620624155a2e26b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:58 +0000
Subject: [PATCH 22/28] fix: roll back the database of the model when an admin
 form has errors

The rollback flag was set on the default connection: for a model that a router
keeps elsewhere the request ended in a TransactionManagementError.
---
 treebeard/admin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/treebeard/admin.py b/treebeard/admin.py
index 38ad92c..975bd34 100644
--- a/treebeard/admin.py
+++ b/treebeard/admin.py
@@ -6,7 +6,7 @@ from django import forms
 from django.contrib import admin, messages
 from django.contrib.admin.templatetags.admin_list import result_list
 from django.core.exceptions import PermissionDenied
-from django.db import transaction
+from django.db import router, transaction
 from django.db.models.query import QuerySet
 from django.http import HttpResponse, HttpResponseBadRequest, JsonResponse
 from django.shortcuts import get_object_or_404
@@ -60,7 +60,7 @@ class TreeAdmin(admin.ModelAdmin):
         response = super()._changeform_view(*args, **kwargs)
         if getattr(response, "context_data", {}).get("errors", None):
             # There was an error somewhere, likely in an inline, so we'll need to roll back
-            transaction.set_rollback(True)
+            transaction.set_rollback(True, using=router.db_for_write(self.model))
         return response
 
     def get_urls(self):
-- 
2.43.0


From c4a9d2e10d1951675116f2b123b6d0e645873541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:34 +0000
Subject: [PATCH 23/28] fix: delete from the database of the queryset or the
 instance

Model.objects.using(alias).delete() and the deletion of an instance that was
read from another database removed the nodes at the same places of the default
database instead. For ltree the signal is now sent inside the transaction, as
for the other trees.
---
 treebeard/ltree/__init__.py | 10 ++++++----
 treebeard/models.py         |  5 +++--
 treebeard/mp_tree.py        | 11 +++++++----
 treebeard/ns_tree.py        | 15 ++++++++-------
 4 files changed, 24 insertions(+), 17 deletions(-)

diff --git a/treebeard/ltree/__init__.py b/treebeard/ltree/__init__.py
index 1d27dd3..190dfa2 100644
--- a/treebeard/ltree/__init__.py
+++ b/treebeard/ltree/__init__.py
@@ -7,7 +7,7 @@ import string
 from collections.abc import Iterable
 
 from django.core import serializers
-from django.db import models
+from django.db import models, router, transaction
 from django.db.models import F, Func, OuterRef, Q, Subquery, Value
 from django.db.models.functions import Concat
 from django.dispatch import Signal
@@ -118,13 +118,15 @@ class LT_NodeQuerySet(models.query.QuerySet):
                 paths_to_remove.add(str(node.path))
 
         model = self.model.objects.tree_model
+        using = self._db or router.db_for_write(model)
 
         if not paths_to_remove:
-            return super(LT_NodeQuerySet, model.objects.none()).delete(*args, **kwargs)
+            return super(LT_NodeQuerySet, model.objects.using(using).none()).delete(*args, **kwargs)
 
         query = functools.reduce(operator.or_, [Q(path__descendants=path) for path in paths_to_remove])
-        result = super(LT_NodeQuerySet, model.objects.filter(query)).delete(*args, **kwargs)
-        nodes_deleted.send(sender=model, paths_to_remove=paths_to_remove, using=self.db)
+        with transaction.atomic(using=using, savepoint=False):
+            result = super(LT_NodeQuerySet, model.objects.using(using).filter(query)).delete(*args, **kwargs)
+            nodes_deleted.send(sender=model, paths_to_remove=paths_to_remove, using=using)
         return result
 
     delete.alters_data = True
diff --git a/treebeard/models.py b/treebeard/models.py
index 4f7cf63..0d60444 100644
--- a/treebeard/models.py
+++ b/treebeard/models.py
@@ -6,7 +6,7 @@ from contextlib import suppress
 from functools import reduce
 
 from django.core import checks
-from django.db import models
+from django.db import models, router
 from django.db.models import Q
 from django.utils.functional import cached_property
 
@@ -97,7 +97,8 @@ class Node(models.Model):
     def delete(self, *args, **kwargs):
         """Removes a node and all it's descendants."""
         # Call the queryset delete method, which handles deletion of descendants
-        return self.__class__.objects.filter(pk=self.pk).delete(*args, **kwargs)
+        using = router.db_for_write(self.__class__, instance=self)
+        return self.__class__.objects.using(using).filter(pk=self.pk).delete(*args, **kwargs)
 
     delete.alters_data = True
     delete.queryset_only = True
diff --git a/treebeard/mp_tree.py b/treebeard/mp_tree.py
index 780be6a..7ae1827 100644
--- a/treebeard/mp_tree.py
+++ b/treebeard/mp_tree.py
@@ -68,21 +68,24 @@ class MP_NodeQuerySet(models.query.QuerySet):
                 paths_to_remove.append(node.path)
 
         model = self.model.objects.tree_model
+        using = self._db or router.db_for_write(model)
 
-        with transaction.atomic(using=router.db_for_write(model), savepoint=False):
+        with transaction.atomic(using=using, savepoint=False):
             # Save the updated numchild of all parents
             for path, num_lost in parents.items():
-                model.objects.filter(path=path).update(numchild=Greatest(F("numchild") - num_lost, 0))
+                model.objects.using(using).filter(path=path).update(numchild=Greatest(F("numchild") - num_lost, 0))
 
             # Django will handle this as a SELECT and then a DELETE of
             # ids, and will deal with removing related objects
             query = Q(pk__in=pks_to_remove)
             for path in paths_to_remove:
                 query |= Q(path__startswith=path)
-            count, deletion_map = super(MP_NodeQuerySet, model.objects.filter(query)).delete(*args, **kwargs)
+            count, deletion_map = super(MP_NodeQuerySet, model.objects.using(using).filter(query)).delete(
+                *args, **kwargs
+            )
             if count > 0:
                 nodes_deleted.send(
-                    sender=model, pks_to_remove=pks_to_remove, paths_to_remove=paths_to_remove, using=self.db
+                    sender=model, pks_to_remove=pks_to_remove, paths_to_remove=paths_to_remove, using=using
                 )
         return count, deletion_map
 
diff --git a/treebeard/ns_tree.py b/treebeard/ns_tree.py
index dd35aee..f1b5e98 100644
--- a/treebeard/ns_tree.py
+++ b/treebeard/ns_tree.py
@@ -57,13 +57,14 @@ class NS_NodeQuerySet(models.query.QuerySet):
         if not toremove:
             return (0, {})
 
-        with transaction.atomic(using=router.db_for_write(model), savepoint=False):
+        using = self._db or router.db_for_write(model)
+
+        with transaction.atomic(using=using, savepoint=False):
             # call the default django delete method with the full set of nodes and descendants to delete,
             # and let it handle the removal of the user's foreign keys
-            result = super(NS_NodeQuerySet, model.objects.filter(reduce(operator.or_, toremove))).delete(
-                *args, **kwargs
-            )
-            nodes_deleted.send(sender=model, removed_ranges=ranges, using=self.db)
+            queryset = model.objects.using(using).filter(reduce(operator.or_, toremove))
+            result = super(NS_NodeQuerySet, queryset).delete(*args, **kwargs)
+            nodes_deleted.send(sender=model, removed_ranges=ranges, using=using)
 
             # Now closing the gap (Celko's trees book, page 62)
             # We do this for every gap that was left in the tree when the nodes
@@ -72,7 +73,7 @@ class NS_NodeQuerySet(models.query.QuerySet):
             # cheaper precalculating the gapsize per intervals, or just do a
             # complete reordering of the tree (uses COUNT)...
             for tree_id, drop_lft, drop_rgt in sorted(ranges, reverse=True):
-                model.objects._close_gap(drop_lft, drop_rgt, tree_id)
+                model.objects.db_manager(using)._close_gap(drop_lft, drop_rgt, tree_id)
         return result
 
     delete.alters_data = True
@@ -573,7 +574,7 @@ class NS_NodeManager(NodeManager):
         start_index within the given tree by the given offset.
         """
         output_field = models.PositiveIntegerField()
-        queryset = self.tree_model.objects.filter(rgt__gte=start_index, tree_id=tree_id)
+        queryset = self.tree_model.objects.using(self._db).filter(rgt__gte=start_index, tree_id=tree_id)
         update_count = queryset.update(
             lft=Case(When(lft__gte=start_index, then=F("lft") + offset), default=F("lft"), output_field=output_field),
             rgt=F("rgt") + offset,
-- 
2.43.0


From ca1ab7cf6dcb4d754bec2a9b2e3d217db9b648fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:09 +0000
Subject: [PATCH 24/28] fix: load the path of an ltree node when the field was
 deferred

Reading node.path after only() or defer() raised KeyError instead of loading
the value as Django does for other fields, so the node could not be used in
any tree method.
---
 treebeard/ltree/fields.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/treebeard/ltree/fields.py b/treebeard/ltree/fields.py
index 7c3575d..bdefd79 100644
--- a/treebeard/ltree/fields.py
+++ b/treebeard/ltree/fields.py
@@ -45,6 +45,10 @@ class PathValueProxy:
         if instance is None:
             return self
 
+        if self.field_name not in instance.__dict__:
+            # The field was deferred: load it, like Django does for other fields
+            instance.refresh_from_db(fields=[self.field_name])
+
         value = instance.__dict__[self.field_name]
 
         if value is None:
-- 
2.43.0


From 7fe657ce941183a41bfc19fc70528095810bf149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:27 +0000
Subject: [PATCH 25/28] fix: movenodeform_factory leaves the list of excluded
 fields it is given alone

---
 treebeard/forms.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/treebeard/forms.py b/treebeard/forms.py
index 6c8305d..b55d52f 100644
--- a/treebeard/forms.py
+++ b/treebeard/forms.py
@@ -208,7 +208,6 @@ def movenodeform_factory(model, form=MoveNodeForm, exclude=None, **kwargs):
 
     :return: A :py:class:`MoveNodeForm` subclass
     """
-    if exclude is None:
-        exclude = ()
-    exclude += getattr(model, "MOVENODE_FORM_EXCLUDED_FIELDS", ())
+    # Do not extend the caller's list in place: it may be used for other forms
+    exclude = (*(exclude or ()), *getattr(model, "MOVENODE_FORM_EXCLUDED_FIELDS", ()))
     return django_modelform_factory(model, form, exclude=exclude, **kwargs)
-- 
2.43.0


From 018f40de2228da1a2bc6a73b73c06d221e1414b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:13 +0000
Subject: [PATCH 26/28] fix: the change list of a tree admin answers HEAD
 requests

---
 treebeard/admin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/treebeard/admin.py b/treebeard/admin.py
index 975bd34..9f179f3 100644
--- a/treebeard/admin.py
+++ b/treebeard/admin.py
@@ -75,7 +75,7 @@ class TreeAdmin(admin.ModelAdmin):
         return new_urls + super().get_urls()
 
     def changelist_view(self, request, extra_context=None):
-        if request.method == "GET":
+        if request.method in ("GET", "HEAD"):
             request._treebeard_parent_id = None
         return super().changelist_view(request, extra_context)
 
-- 
2.43.0


From ca8e90a3709e9e9e93e4b503e044ef8b5743247e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:23 +0000
Subject: [PATCH 27/28] fix: a row clicked again while its children load is not
 left marked as collapsed

---
 treebeard/static/treebeard/treebeard-admin.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/treebeard/static/treebeard/treebeard-admin.js b/treebeard/static/treebeard/treebeard-admin.js
index 4010f20..f71dcb2 100644
--- a/treebeard/static/treebeard/treebeard-admin.js
+++ b/treebeard/static/treebeard/treebeard-admin.js
@@ -66,7 +66,7 @@
                 const $resultList = $(resultList);
                 setupData($resultList, contextList);
                 $resultList.insertAfter(this.$elem);
-                this.$elem.find("a.treebeard-collapse").removeClass("treebeard-loading").addClass("treebeard-expanded");
+                this.$elem.find("a.treebeard-collapse").removeClass("treebeard-loading treebeard-collapsed").addClass("treebeard-expanded");
             });
         }
     }
-- 
2.43.0


From 3e698fb314d4320ab7f2e9d516c6a7da6a15e328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:23 +0000
Subject: [PATCH 28/28] fix: children that failed to load in the change list
 are requested again on the next click

---
 treebeard/static/treebeard/treebeard-admin.js | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/treebeard/static/treebeard/treebeard-admin.js b/treebeard/static/treebeard/treebeard-admin.js
index f71dcb2..1431084 100644
--- a/treebeard/static/treebeard/treebeard-admin.js
+++ b/treebeard/static/treebeard/treebeard-admin.js
@@ -67,6 +67,10 @@
                 setupData($resultList, contextList);
                 $resultList.insertAfter(this.$elem);
                 this.$elem.find("a.treebeard-collapse").removeClass("treebeard-loading treebeard-collapsed").addClass("treebeard-expanded");
+            }).fail(() => {
+                // Let the next click request the children again
+                this.$elem.removeAttr("data-children-loaded").removeData("children-loaded");
+                this.$elem.find("a.treebeard-collapse").removeClass("treebeard-loading").addClass("treebeard-collapsed");
             });
         }
     }
-- 
2.43.0

