From 9dd529692d0b38eae386b0237cf00fb9b266d2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:01 +0000
Subject: [PATCH 01/71] fix: SequenceList.append keeps time order when an entry
 starts at 0

---
 src/aligned_textgrid/sequence_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/sequence_list.py b/src/aligned_textgrid/sequence_list.py
index 5cf3b9e..408340f 100644
--- a/src/aligned_textgrid/sequence_list.py
+++ b/src/aligned_textgrid/sequence_list.py
@@ -201,7 +201,7 @@ class SequenceList(Sequence):
         elif hasattr(value, "time"):
             this_time = value.time
         
-        if len(self.starts) > 0 and all(self.starts):
+        if len(self.starts) > 0 and all(s is not None for s in self.starts):
             insert_idx = self.starts.searchsorted(this_time)
             self._values.insert(insert_idx, value)
             return
-- 
2.43.0


From 028cdba2fd62680a152a5603bb7278ab5d82a207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:06 +0000
Subject: [PATCH 02/71] fix: SequenceList.concat keeps a plain list of values

---
 src/aligned_textgrid/sequence_list.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/sequence_list.py b/src/aligned_textgrid/sequence_list.py
index 408340f..e7dbeb5 100644
--- a/src/aligned_textgrid/sequence_list.py
+++ b/src/aligned_textgrid/sequence_list.py
@@ -229,7 +229,7 @@ class SequenceList(Sequence):
         intervals._shift(increment)          
         
         new_values = self + intervals
-        self._values = new_values
+        self._values = list(new_values)
 
        
     def remove(self:Sequence[SeqVar], x:SeqVar)->None:
-- 
2.43.0


From 80475c6ae2f3ce3ebeecbd9bf456bd38ee270556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:10 +0000
Subject: [PATCH 03/71] fix: PointsGroup.xmax is the time of the last point

---
 src/aligned_textgrid/points/tiers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/points/tiers.py b/src/aligned_textgrid/points/tiers.py
index cdbf1f3..adefbd7 100644
--- a/src/aligned_textgrid/points/tiers.py
+++ b/src/aligned_textgrid/points/tiers.py
@@ -318,7 +318,7 @@ class PointsGroup(Sequence, TierGroupMixins, WithinMixins):
     @property    
     def xmax(self):
         times = np.array(
-            [t.xmin for t in self.tier_list]
+            [t.xmax for t in self.tier_list]
         )
         return times.max()
     
-- 
2.43.0


From 5edd14320f952eca8387562819df0d61ced05879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:14 +0000
Subject: [PATCH 04/71] fix: point distances are defined when the neighbouring
 point is at time 0

---
 src/aligned_textgrid/points/points.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/aligned_textgrid/points/points.py b/src/aligned_textgrid/points/points.py
index 83e6f96..6a81b46 100644
--- a/src/aligned_textgrid/points/points.py
+++ b/src/aligned_textgrid/points/points.py
@@ -139,10 +139,10 @@ class  SequencePoint(SequenceBaseClass, PrecedenceMixins, InTierMixins, WithinMi
 
     @property
     def fol_distance(self):
-        if self.fol and self.fol.time:
+        if self.fol and self.fol.time is not None:
             return self.fol.time - self.time
         
-        if self.fol and not self.fol.time:
+        if self.fol and self.fol.time is None:
             warnings.warn("Final point")
             return None
 
@@ -152,10 +152,10 @@ class  SequencePoint(SequenceBaseClass, PrecedenceMixins, InTierMixins, WithinMi
         
     @property
     def prev_distance(self):
-        if self.prev and self.prev.time:
+        if self.prev and self.prev.time is not None:
             return self.prev.time - self.time
         
-        if self.prev and not self.prev.time:
+        if self.prev and self.prev.time is None:
             warnings.warn("initial point")
             return None
 
-- 
2.43.0


From 5b1295377ffe7dff7e29390718efd4e468c7a6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:17 +0000
Subject: [PATCH 05/71] fix: get_interval_at_point returns None when no
 interval is at the point

---
 src/aligned_textgrid/points/points.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/points/points.py b/src/aligned_textgrid/points/points.py
index 6a81b46..278e8b7 100644
--- a/src/aligned_textgrid/points/points.py
+++ b/src/aligned_textgrid/points/points.py
@@ -222,7 +222,10 @@ class  SequencePoint(SequenceBaseClass, PrecedenceMixins, InTierMixins, WithinMi
                 The SequenceInterval within which the current point falls
         """
         if tier and isinstance(tier, SequenceTier):
-            return tier[self.get_interval_index_at_time(tier)]
+            int_idx = self.get_interval_index_at_time(tier)
+            if int_idx is None:
+                return None
+            return tier[int_idx]
 
     
 SequencePoint._set_seq_type(SequencePoint)
\ No newline at end of file
-- 
2.43.0


From 5ae7d5d965e891c67411d8a10e02bb462b6e2fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:32 +0000
Subject: [PATCH 06/71] fix: custom_classes returns classes in the named return
 order

---
 src/aligned_textgrid/custom_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/custom_classes.py b/src/aligned_textgrid/custom_classes.py
index 1669264..48af75d 100644
--- a/src/aligned_textgrid/custom_classes.py
+++ b/src/aligned_textgrid/custom_classes.py
@@ -146,7 +146,7 @@ def custom_classes(
         if type(return_order[0]) is int:
             return_list = [class_out_list[idx] for idx in return_order]
         elif type(return_order[0]) is str:
-            return_idx = [return_order.index(x) for x in class_list]
+            return_idx = [class_list.index(x) for x in return_order]
             return_list = [class_out_list[idx] for idx in return_idx] 
         return return_list
 
-- 
2.43.0


From fdb48c2eb9ec8229188f018dc3217b424b028207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:19:50 +0000
Subject: [PATCH 07/71] fix: tier edits keep precedence in step with the tier
 and the subset lists

---
 src/aligned_textgrid/sequences/tiers.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index f68a872..022c2a2 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -136,13 +136,18 @@ class SequenceTier(Sequence, TierMixins, WithinMixins):
 
 
     def __set_precedence(self)->None:
+        # Entries that have been related to a super_instance
+        # only precede and follow entries within the same one.
+        last_idx = len(self._sequence_list)-1
         for idx,seq in enumerate(self._sequence_list):
             self.__set_intier(seq)
-            if idx == 0:
+            if idx == 0 or \
+               self._sequence_list[idx-1].super_instance is not seq.super_instance:
                 seq.set_initial()
             else:
                 seq.set_prev(self._sequence_list[idx-1])
-            if idx == len(self._sequence_list)-1:
+            if idx == last_idx or \
+               self._sequence_list[idx+1].super_instance is not seq.super_instance:
                 seq.set_final()
             else:
                 seq.set_fol(self._sequence_list[idx+1])
@@ -171,8 +176,7 @@ class SequenceTier(Sequence, TierMixins, WithinMixins):
         """
         if entry in self.sequence_list:
             self.sequence_list.remove(entry)
-            if self.superset_class is Top:
-                self.__set_precedence()
+            self.__set_precedence()
         else:
             raise Exception("Entry not in tier")                    
 
-- 
2.43.0


From e4b297a54eed0305e5a39c104e5d46f708db9fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:57 +0000
Subject: [PATCH 08/71] fix: points added to a point tier get their precedence
 and tier

---
 src/aligned_textgrid/points/tiers.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/points/tiers.py b/src/aligned_textgrid/points/tiers.py
index adefbd7..a90e6ff 100644
--- a/src/aligned_textgrid/points/tiers.py
+++ b/src/aligned_textgrid/points/tiers.py
@@ -98,9 +98,9 @@ class SequencePointTier(Sequence, TierMixins, WithinMixins):
         self.entry_list = entries
         self.entry_class = entry_class
         self.name = name
+        self._sequence_list = SequenceList()
         entry_order = np.argsort([x.time for x in self.entry_list])
         self.entry_list = [self.entry_list[idx] for idx in entry_order]
-        self.sequence_list = SequenceList()
        
         for entry in self.entry_list:
             this_point = self.entry_class._cast(entry)
@@ -136,6 +136,15 @@ class SequencePointTier(Sequence, TierMixins, WithinMixins):
     def __repr__(self):
         return f"Sequence Point tier of {self.entry_class.__name__};"
 
+    @property
+    def sequence_list(self)->SequenceList:
+        return self._sequence_list
+    
+    @sequence_list.setter
+    def sequence_list(self, new:Sequence):
+        self._sequence_list = SequenceList(*new)
+        self.__set_precedence()
+
     @property
     def times(self):
         return self.sequence_list.starts
-- 
2.43.0


From da08c69f50ef8d93a81b6811d049ce4daebacade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:01 +0000
Subject: [PATCH 09/71] fix: a point tier made from a point tier has its
 current points

---
 src/aligned_textgrid/points/tiers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/points/tiers.py b/src/aligned_textgrid/points/tiers.py
index a90e6ff..2436f11 100644
--- a/src/aligned_textgrid/points/tiers.py
+++ b/src/aligned_textgrid/points/tiers.py
@@ -91,7 +91,7 @@ class SequencePointTier(Sequence, TierMixins, WithinMixins):
             name = tier.name
 
         if isinstance(tier, SequencePointTier):
-            entries = tier.entry_list
+            entries = tier.sequence_list
             if tier.name != tier.entry_class.__name__:
                 name = tier.name
         
-- 
2.43.0


From 29d2640a3023f3324c625b2c91af19ba60ae1921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:24 +0000
Subject: [PATCH 10/71] fix: fusing keeps the neighbour's precedence in step
 outside of tiers

---
 src/aligned_textgrid/sequences/sequences.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aligned_textgrid/sequences/sequences.py b/src/aligned_textgrid/sequences/sequences.py
index 5bde7fe..2feb486 100644
--- a/src/aligned_textgrid/sequences/sequences.py
+++ b/src/aligned_textgrid/sequences/sequences.py
@@ -595,7 +595,7 @@ class SequenceInterval(SequenceBaseClass, InstanceMixins, InTierMixins, Preceden
         if not fusee.label == "#":
 
             fuser.end = fusee.end
-            fuser.fol = fusee.fol
+            fuser.set_fol(fusee.fol)
             fuser.label = label_fun(fuser.label, fusee.label)
 
             new_list = fuser._subset_list + fusee.subset_list
@@ -626,7 +626,7 @@ class SequenceInterval(SequenceBaseClass, InstanceMixins, InTierMixins, Preceden
         if not fusee.label == "#":
 
             fuser.start = fusee.start
-            fuser.prev = fusee.prev
+            fuser.set_prev(fusee.prev)
             fuser.label = label_fun(fusee.label, fuser.label)
 
             new_list = fusee.subset_list + fuser._subset_list
-- 
2.43.0


From c5f8c87787d18c07e585267da5996ef6d2063875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:27 +0000
Subject: [PATCH 11/71] fix: set_super_instance removes the interval from its
 previous superset

---
 src/aligned_textgrid/sequences/sequences.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/aligned_textgrid/sequences/sequences.py b/src/aligned_textgrid/sequences/sequences.py
index 2feb486..da21331 100644
--- a/src/aligned_textgrid/sequences/sequences.py
+++ b/src/aligned_textgrid/sequences/sequences.py
@@ -127,6 +127,7 @@ class InstanceMixins(HierarchyMixins, WithinMixins):
         if super_instance is None:
             warnings.warn("No superset instance provided")   
         elif isinstance(super_instance, self.superset_class) and not super_instance is self.super_instance:
+            self.remove_superset()
             self.super_instance = super_instance
             self.super_instance.append_subset_list(self)
         else:
-- 
2.43.0


From 5dbbf5d68313bd9acd0f08973d74d52d0abe3c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:30 +0000
Subject: [PATCH 12/71] fix: intervals appended to a subset list are within the
 superset

---
 src/aligned_textgrid/sequences/sequences.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/aligned_textgrid/sequences/sequences.py b/src/aligned_textgrid/sequences/sequences.py
index da21331..7b66495 100644
--- a/src/aligned_textgrid/sequences/sequences.py
+++ b/src/aligned_textgrid/sequences/sequences.py
@@ -183,6 +183,7 @@ class InstanceMixins(HierarchyMixins, WithinMixins):
             # avoid recursion
             if not self is subset_instance.super_instance:
                 subset_instance.set_super_instance(self)
+            self._set_within()
             #self.validate()
         elif isinstance(subset_instance, self.subset_class):
             pass
-- 
2.43.0


From 0b2db49e843f4d005bf731e087f6bd9f5f97c15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:34 +0000
Subject: [PATCH 13/71] fix: set_subset_list releases the intervals it replaces

---
 src/aligned_textgrid/sequences/sequences.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/aligned_textgrid/sequences/sequences.py b/src/aligned_textgrid/sequences/sequences.py
index 7b66495..416b056 100644
--- a/src/aligned_textgrid/sequences/sequences.py
+++ b/src/aligned_textgrid/sequences/sequences.py
@@ -150,7 +150,11 @@ class InstanceMixins(HierarchyMixins, WithinMixins):
             return
 
         if all([isinstance(subint, self.subset_class) for subint in subset_list]):
+            orig_list = self._subset_list
             self._subset_list = SequenceList(*subset_list)
+            for orig in orig_list:
+                if orig not in self._subset_list:
+                    orig.remove_superset()
             for element in subset_list:
                 if not self is element.super_instance:
                     element.remove_superset()
-- 
2.43.0


From 534ab53fafc5ba3167551023602fd5d543617824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:38 +0000
Subject: [PATCH 14/71] fix: return_textgrid never renames a tier to a name
 already in use

---
 src/aligned_textgrid/aligned_textgrid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aligned_textgrid/aligned_textgrid.py b/src/aligned_textgrid/aligned_textgrid.py
index 44706f1..63cf146 100644
--- a/src/aligned_textgrid/aligned_textgrid.py
+++ b/src/aligned_textgrid/aligned_textgrid.py
@@ -799,8 +799,8 @@ class AlignedTextGrid(Sequence, WithinMixins):
         for group in self.tier_groups:
             for tier in group:
                 name = tier.name
-                if name in tier_names:
-                    name = f"{name}_{dup_idx}"
+                while name in tier_names:
+                    name = f"{tier.name}_{dup_idx}"
                     dup_idx += 1 
                 tier_names += [name]
                 out_tg.addTier(tier = tier.return_tier(name))
-- 
2.43.0


From 2ea74d1fec7aac56ef42415613a2b263e5b81801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:41 +0000
Subject: [PATCH 15/71] fix: appending a TierGroup to an AlignedTextGrid keeps
 its tier names

---
 src/aligned_textgrid/aligned_textgrid.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/aligned_textgrid/aligned_textgrid.py b/src/aligned_textgrid/aligned_textgrid.py
index 63cf146..1b02773 100644
--- a/src/aligned_textgrid/aligned_textgrid.py
+++ b/src/aligned_textgrid/aligned_textgrid.py
@@ -447,8 +447,9 @@ class AlignedTextGrid(Sequence, WithinMixins):
         self._reclone_classes(tier_group.entry_classes)
         new_classes = self._swap_classes(tier_group.entry_classes, self._cloned_classes)
         for cl, tier in zip(new_classes, tier_group):
-            entries = [cl._cast(i) for i in tier]
-            tier.__init__(entries, entry_class = cl)
+            for i in tier:
+                cl._cast(i)
+            tier.__init__(tier, entry_class = cl)
         
         tier_group.__init__(tier_group)
      
-- 
2.43.0


From b7cf466af576851c51505cea1d6b837a1a790441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:23:45 +0000
Subject: [PATCH 16/71] fix: TierGroup.concat accepts points and keeps
 intervals that look alike

---
 src/aligned_textgrid/mixins/tiermixins.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aligned_textgrid/mixins/tiermixins.py b/src/aligned_textgrid/mixins/tiermixins.py
index a2d4abf..7aec7d1 100644
--- a/src/aligned_textgrid/mixins/tiermixins.py
+++ b/src/aligned_textgrid/mixins/tiermixins.py
@@ -297,9 +297,9 @@ class TierGroupMixins:
         increment = self.xmax
         for t1, t2 in zip(self, new):
             for interval in t2:
-                if interval.super_instance is not None:
+                if getattr(interval, "super_instance", None) is not None:
                     continue
-                if interval in t1:
+                if any(interval is i for i in t1):
                     continue
                 interval._shift(increment)
                 t1.append(interval)
-- 
2.43.0


From 6374f9663f9da4d3c342ec1d0875caf5ae4d9803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:08 +0000
Subject: [PATCH 17/71] fix: set_subset_list releases replaced intervals that
 look alike

---
 src/aligned_textgrid/sequences/sequences.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/aligned_textgrid/sequences/sequences.py b/src/aligned_textgrid/sequences/sequences.py
index 416b056..018fa60 100644
--- a/src/aligned_textgrid/sequences/sequences.py
+++ b/src/aligned_textgrid/sequences/sequences.py
@@ -153,8 +153,9 @@ class InstanceMixins(HierarchyMixins, WithinMixins):
             orig_list = self._subset_list
             self._subset_list = SequenceList(*subset_list)
             for orig in orig_list:
-                if orig not in self._subset_list:
-                    orig.remove_superset()
+                if not any(orig is new for new in self._subset_list):
+                    orig.super_instance = None
+                    orig.within = None
             for element in subset_list:
                 if not self is element.super_instance:
                     element.remove_superset()
-- 
2.43.0


From 3440f222f6c60131897c5cb7e02bcbb83e3ad556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:11 +0000
Subject: [PATCH 18/71] fix: tiers are within their TierGroup when it stops
 short of the bottom class

---
 src/aligned_textgrid/mixins/tiermixins.py   | 6 ++++--
 src/aligned_textgrid/sequences/sequences.py | 5 +++--
 src/aligned_textgrid/sequences/tiers.py     | 4 ++--
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/aligned_textgrid/mixins/tiermixins.py b/src/aligned_textgrid/mixins/tiermixins.py
index 7aec7d1..b82f959 100644
--- a/src/aligned_textgrid/mixins/tiermixins.py
+++ b/src/aligned_textgrid/mixins/tiermixins.py
@@ -113,13 +113,15 @@ class TierMixins:
            and self.within:
             down_tier = self.within_index+1
             for interval in new.subset_list:
-                self.within[down_tier].append(interval, re_relate = False)
+                if down_tier < len(self.within):
+                    self.within[down_tier].append(interval, re_relate = False)
         
         if hasattr(new, "super_instance")\
            and new.super_instance \
            and self.within:
             uptier  = self.within_index-1
-            self.within[uptier].append(new.super_instance, re_relate = False)
+            if uptier >= 0:
+                self.within[uptier].append(new.super_instance, re_relate = False)
             
         if self.within and re_relate:
             self.within.re_relate()
diff --git a/src/aligned_textgrid/sequences/sequences.py b/src/aligned_textgrid/sequences/sequences.py
index 018fa60..be28566 100644
--- a/src/aligned_textgrid/sequences/sequences.py
+++ b/src/aligned_textgrid/sequences/sequences.py
@@ -110,8 +110,9 @@ class InstanceMixins(HierarchyMixins, WithinMixins):
         if issubclass(self.subset_class, other.entry_class):
             self.subset_list += [other]
             if self.intier and self.intier.within:
-                self_tier_idx = self.intier.within_index
-                self.intier.within[self_tier_idx+1].append(other, re_relate = False)
+                down_tier = self.intier.within_index+1
+                if down_tier < len(self.intier.within):
+                    self.intier.within[down_tier].append(other, re_relate = False)
             return
         raise ValueError("Appended SequenceInterval must be the subset class of the original.")
 
diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index 022c2a2..78980d2 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -257,7 +257,7 @@ class SequenceTier(Sequence, TierMixins, WithinMixins):
                 self.within.re_relate()
                 return
         
-        if self.within:
+        if self.within and self.within_index+1 < len(self.within):
             next_tier = self.within[self.within_index+1]
             next_tier.cleanup()
 
@@ -572,7 +572,7 @@ class TierGroup(Sequence,TierGroupMixins, WithinMixins):
                 try:
                     next_idx = [x.entry_class for x in tiers].index(curr.subset_class)
                 except ValueError:
-                    return top_to_bottom
+                    break
                 
                 top_to_bottom.append(tiers[next_idx])
         self.contains = top_to_bottom
-- 
2.43.0


From fd5c495b09c01bc643fdc006844c526ab2ba9014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:33 +0000
Subject: [PATCH 19/71] fix: gap intervals added to a subset list while
 relating tiers are on the lower tier

---
 src/aligned_textgrid/sequences/tiers.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index 78980d2..ffa79b0 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -467,14 +467,14 @@ class TierGroup(Sequence,TierGroupMixins, WithinMixins):
 
                 # Close internal gaps
                 for lowers in lower_sequences:
-                    if not np.allclose(lowers.starts[1:], lowers.ends[:1]):
+                    if not np.allclose(lowers.starts[1:], lowers.ends[:-1]):
                         boundaries = np.unique(np.concat([lowers.starts, lowers.ends]))
                         new_starts = boundaries[:-1][~np.isin(boundaries[:-1], lowers.starts)]
                         new_ends = boundaries[1:][~np.isin(boundaries[1:], lowers.ends)]
                         for s, e in zip(new_starts, new_ends):
-                            lowers.append(
-                                lowers[0].entry_class((s, e, ""))
-                            )
+                            new = lowers[0].entry_class((s, e, ""))
+                            lowers.append(new)
+                            lower_tier.append(new, re_relate = False)
 
                 u_durs = np.array([
                     u.end - u.start
-- 
2.43.0


From 9c3b065c307ba2edc4c505a56091be01ba8f495f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:38 +0000
Subject: [PATCH 20/71] fix: relating tiers leaves intervals alone that overlap
 with no upper interval

---
 src/aligned_textgrid/sequences/tiers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index ffa79b0..30240bc 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -422,6 +422,9 @@ class TierGroup(Sequence,TierGroupMixins, WithinMixins):
                 # get the index of the upper interval
                 # it has the most overlap with.
                 upper_container = overlaps.argmax(axis = 1)
+                # A lower interval that doesn't overlap with any 
+                # upper interval isn't contained in one.
+                upper_container[(max_overlaps <= 0) & (lower_durations > 0)] = -1
                 lower_idx = np.arange(len(lower_tier))
 
                 _starts = np.array([
-- 
2.43.0


From 92eefa54cda78a2e5f0fb3d21f5e37088df4193b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:42 +0000
Subject: [PATCH 21/71] fix: relating tiers leaves the lower tier in time order

---
 src/aligned_textgrid/sequences/tiers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index 30240bc..cb45ef2 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -510,6 +510,10 @@ class TierGroup(Sequence,TierGroupMixins, WithinMixins):
                     
                     if squish and not delay_cleanup:
                         u.cleanup()
+
+                ## start times may have changed.
+                ## triggers sorting and precedence resetting
+                lower_tier.sequence_list = lower_tier.sequence_list
     
     def __getitem__(
             self,
-- 
2.43.0


From 4d0bfff4432badeea81d72d9a293330927f53469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:46 +0000
Subject: [PATCH 22/71] fix: AlignedTextGrid.cleanup pads only interval groups
 that end early

---
 src/aligned_textgrid/aligned_textgrid.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/aligned_textgrid/aligned_textgrid.py b/src/aligned_textgrid/aligned_textgrid.py
index 1b02773..66cb0e5 100644
--- a/src/aligned_textgrid/aligned_textgrid.py
+++ b/src/aligned_textgrid/aligned_textgrid.py
@@ -474,6 +474,8 @@ class AlignedTextGrid(Sequence, WithinMixins):
                     tg.cleanup()
             
             interval_tgs = [tg for tg in self if isinstance(tg, TierGroup)]
+            if len(interval_tgs) < 1:
+                return
             tg_starts = np.array([tg.xmin for tg in interval_tgs])
             tg_ends = np.array([tg.xmax for tg in interval_tgs])
 
@@ -481,7 +483,7 @@ class AlignedTextGrid(Sequence, WithinMixins):
             np.allclose(tg_ends.min(), tg_ends.max()):
                 return
             
-            for tg in self.tier_groups:
+            for tg in interval_tgs:
                 if np.allclose(tg.xmin, tg_starts.min()):
                     continue
 
@@ -495,8 +497,8 @@ class AlignedTextGrid(Sequence, WithinMixins):
                     tier.append(interval, re_relate = False)
 
                 
-            for tg in self.tier_groups:
-                if np.allclose(tg.xmax, tg_starts.max()):
+            for tg in interval_tgs:
+                if np.allclose(tg.xmax, tg_ends.max()):
                     continue
 
                 start = tg.xmax
-- 
2.43.0


From 09caedf5cd6c428d63b0f748897a450b696d548a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:49 +0000
Subject: [PATCH 23/71] fix: intervals added by SequenceTier.cleanup get their
 precedence and tier

---
 src/aligned_textgrid/sequences/tiers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index cb45ef2..2b4d18a 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -250,7 +250,8 @@ class SequenceTier(Sequence, TierMixins, WithinMixins):
         new_ends = boundaries[1:][~np.isin(boundaries[1:], self.ends)]
         for s,e in zip(new_starts, new_ends):
             new = self.entry_class((s, e, ""))
-            self.sequence_list.append(new)
+            ## triggers precedence resetting
+            self.sequence_list += [new]
 
         if issubclass(self.subset_class, Bottom):
             if self.within:
-- 
2.43.0


From 33affb077e0f7d2ac02a26ba68242b7af4a4a1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:41 +0000
Subject: [PATCH 24/71] fix: AlignedTextGrid.cleanup relates the intervals it
 adds

---
 src/aligned_textgrid/aligned_textgrid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aligned_textgrid/aligned_textgrid.py b/src/aligned_textgrid/aligned_textgrid.py
index 66cb0e5..cbfc980 100644
--- a/src/aligned_textgrid/aligned_textgrid.py
+++ b/src/aligned_textgrid/aligned_textgrid.py
@@ -510,8 +510,8 @@ class AlignedTextGrid(Sequence, WithinMixins):
                 for tier, interval in zip(tg, empty_intervals):
                     tier.append(interval, re_relate = False)
             
-            # for tg in self.tier_groups:
-            #     tg.re_relate()
+            for tg in interval_tgs:
+                tg.re_relate()
                 
     def shift(
             self,
-- 
2.43.0


From 0d4b20017a06792397e68e08474750bf7238c61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:54 +0000
Subject: [PATCH 25/71] fix: precedence on a tier that becomes the top tier
 runs along the tier

---
 src/aligned_textgrid/sequences/tiers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index 2b4d18a..843d969 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -394,6 +394,10 @@ class TierGroup(Sequence,TierGroupMixins, WithinMixins):
                 if hasattr(entry, "super_instance"):
                     
                     entry.remove_superset()
+        ## triggers precedence resetting
+        top_tier = self.tier_list[0]
+        top_tier.sequence_list = top_tier.sequence_list
+
         #self.entry_classes = [x.__class__ for x in self.tier_list]
         for tidx, tier in enumerate(self.tier_list):
             if tidx == len(self.tier_list)-1:
-- 
2.43.0


From 84a5a81ede93ef19ef499ca37a8d51e20c35956d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:57 +0000
Subject: [PATCH 26/71] fix: a tier that is no longer the top tier doesn't
 contain its entries

---
 src/aligned_textgrid/sequences/tiers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index 843d969..d7b3ef0 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -153,6 +153,8 @@ class SequenceTier(Sequence, TierMixins, WithinMixins):
                 seq.set_fol(self._sequence_list[idx+1])
         if issubclass(self.superset_class, Top):
             self.contains = self._sequence_list
+        else:
+            self.contains = []
 
     def __set_intier(
             self,
-- 
2.43.0


From 9ae40732385818bc50f7211d24d7f04ae2b7c0f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:41 +0000
Subject: [PATCH 27/71] fix: tier edits leave the precedence within subset
 lists alone

---
 src/aligned_textgrid/sequences/tiers.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index d7b3ef0..ae1aa3f 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -136,18 +136,18 @@ class SequenceTier(Sequence, TierMixins, WithinMixins):
 
 
     def __set_precedence(self)->None:
-        # Entries that have been related to a super_instance
-        # only precede and follow entries within the same one.
         last_idx = len(self._sequence_list)-1
         for idx,seq in enumerate(self._sequence_list):
             self.__set_intier(seq)
-            if idx == 0 or \
-               self._sequence_list[idx-1].super_instance is not seq.super_instance:
+            # The precedence of entries with a super_instance
+            # is set within its subset_list
+            if seq.super_instance is not None:
+                continue
+            if idx == 0 or self._sequence_list[idx-1].super_instance is not None:
                 seq.set_initial()
             else:
                 seq.set_prev(self._sequence_list[idx-1])
-            if idx == last_idx or \
-               self._sequence_list[idx+1].super_instance is not seq.super_instance:
+            if idx == last_idx or self._sequence_list[idx+1].super_instance is not None:
                 seq.set_final()
             else:
                 seq.set_fol(self._sequence_list[idx+1])
-- 
2.43.0


From f815dee1127992661d7f533e1fec8550b509d0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:49:29 +0000
Subject: [PATCH 28/71] fix: tiers trimmed to the tier below them are related
 to the tier above again

---
 src/aligned_textgrid/sequences/tiers.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index ae1aa3f..bff089c 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -400,6 +400,7 @@ class TierGroup(Sequence,TierGroupMixins, WithinMixins):
         top_tier = self.tier_list[0]
         top_tier.sequence_list = top_tier.sequence_list
 
+        any_trimmed = False
         #self.entry_classes = [x.__class__ for x in self.tier_list]
         for tidx, tier in enumerate(self.tier_list):
             if tidx == len(self.tier_list)-1:
@@ -510,6 +511,8 @@ class TierGroup(Sequence,TierGroupMixins, WithinMixins):
                     if any_mismatch and not delay_cleanup:
                         s_start = np.array([u.start, u.first.start]).max()
                         s_end = np.array([u.end, u.last.end]).min()
+                        if tidx > 0 and (u.start != s_start or u.end != s_end):
+                            any_trimmed = True
                         u.start = s_start
                         u.first.start = s_start
                         u.end = s_end
@@ -521,6 +524,11 @@ class TierGroup(Sequence,TierGroupMixins, WithinMixins):
                 ## start times may have changed.
                 ## triggers sorting and precedence resetting
                 lower_tier.sequence_list = lower_tier.sequence_list
+
+        # An interval trimmed to its subset list
+        # may not fill out its super_instance anymore.
+        if any_trimmed:
+            self.re_relate()
     
     def __getitem__(
             self,
-- 
2.43.0


From d750fd5750216f144c9a14510eafa62b9897d7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:53:30 +0000
Subject: [PATCH 29/71] fix: TierGroup.cleanup fills tiers that start late or
 end early

---
 src/aligned_textgrid/sequences/tiers.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index bff089c..4d89329 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -641,7 +641,15 @@ class TierGroup(Sequence,TierGroupMixins, WithinMixins):
         with an empty label.
         """
         not_tight = False
-        
+
+        extents = np.array([
+            [tier.xmin, tier.xmax]
+            for tier in self
+            if len(tier) > 0
+        ])
+        if not np.allclose(extents[1:], extents[:-1]):
+            not_tight = True
+
         for tier in self:
             starts = tier.starts
             ends = tier.ends
-- 
2.43.0


From 3e329384befb5e6d35f372746446af8f94b62d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:34 +0000
Subject: [PATCH 30/71] fix: SequenceList.append with shift keeps an entry that
 looks like an existing one

---
 src/aligned_textgrid/sequence_list.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/sequence_list.py b/src/aligned_textgrid/sequence_list.py
index e7dbeb5..d4592b0 100644
--- a/src/aligned_textgrid/sequence_list.py
+++ b/src/aligned_textgrid/sequence_list.py
@@ -181,7 +181,9 @@ class SequenceList(Sequence):
             value (SequenceInterval): 
                 A SequenceInterval to append
         """
-        if value in self:
+        # An entry to be shifted may look like an
+        # existing one beforehand.
+        if any(value is v for v in self) or (not shift and value in self):
             return
         
         self._entry_class_checker(value)
-- 
2.43.0


From 6220f44c933dcc07b0184e986a50ec6c6baad463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:46:23 +0000
Subject: [PATCH 31/71] fix: adding a second subset member to an interval with
 + keeps the first

---
 src/aligned_textgrid/sequences/sequences.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/aligned_textgrid/sequences/sequences.py b/src/aligned_textgrid/sequences/sequences.py
index be28566..05ceea1 100644
--- a/src/aligned_textgrid/sequences/sequences.py
+++ b/src/aligned_textgrid/sequences/sequences.py
@@ -98,6 +98,10 @@ class InstanceMixins(HierarchyMixins, WithinMixins):
         self_copy.__dict__ = self.__dict__
 
         if issubclass(self.entry_class, other.superset_class):
+            # The existing subset members are the copy's now.
+            for sub in self_copy.subset_list:
+                sub.super_instance = self_copy
+                sub.within = self_copy
             self_copy.subset_list += [other]
             return self_copy
         if issubclass(self.entry_class, other.subset_class):
-- 
2.43.0


From 12836135fe474525f0114ab09d08932d218dac5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:49:36 +0000
Subject: [PATCH 32/71] fix: save_as_tg of a tier saves the tier

---
 src/aligned_textgrid/points/tiers.py    | 2 +-
 src/aligned_textgrid/sequences/tiers.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aligned_textgrid/points/tiers.py b/src/aligned_textgrid/points/tiers.py
index 2436f11..1fecedf 100644
--- a/src/aligned_textgrid/points/tiers.py
+++ b/src/aligned_textgrid/points/tiers.py
@@ -234,7 +234,7 @@ class SequencePointTier(Sequence, TierMixins, WithinMixins):
         point_tier = self.return_tier()
         out_tg = Textgrid()
         out_tg.addTier(tier = point_tier)
-        out_tg.save(save_path, "long_textgrid")
+        out_tg.save(save_path, "long_textgrid", includeBlankSpaces = True)
 
 class PointsGroup(Sequence, TierGroupMixins, WithinMixins):
     """A collection of point tiers
diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index 4d89329..7070901 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -344,7 +344,7 @@ class SequenceTier(Sequence, TierMixins, WithinMixins):
         interval_tier = self.return_tier()
         out_tg = Textgrid()
         out_tg.addTier(tier = interval_tier)
-        out_tg.save(save_path, "long_textgrid")
+        out_tg.save(save_path, "long_textgrid", includeBlankSpaces = True)
 
 
 class TierGroup(Sequence,TierGroupMixins, WithinMixins):
-- 
2.43.0


From 1bbba7da7b5c1696033e0f7a9df077075acb2677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:20 +0000
Subject: [PATCH 33/71] fix: TierGroup.cleanup fills a tier whose outer
 interval was popped

---
 src/aligned_textgrid/sequences/tiers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index 7070901..5fbd629 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -649,6 +649,9 @@ class TierGroup(Sequence,TierGroupMixins, WithinMixins):
         ])
         if not np.allclose(extents[1:], extents[:-1]):
             not_tight = True
+            # An interval may be within an interval
+            # that isn't on a tier anymore.
+            self.re_relate()
 
         for tier in self:
             starts = tier.starts
-- 
2.43.0


From 4ea3d0d77cb833ff68bc3a4b40c87b37c6bfdcaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:53:38 +0000
Subject: [PATCH 34/71] fix: to_df works for mixed int and float times and for
 intervals outside of tiers

---
 src/aligned_textgrid/outputs/to_dataframe.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/outputs/to_dataframe.py b/src/aligned_textgrid/outputs/to_dataframe.py
index a678a94..8a4136d 100644
--- a/src/aligned_textgrid/outputs/to_dataframe.py
+++ b/src/aligned_textgrid/outputs/to_dataframe.py
@@ -47,7 +47,23 @@ def sequence_to_df(
         for att in attributes_to_get
     }
 
-    df = pl.DataFrame(out_dict, schema=col_names)
+    # The type of a column can't depend on the values
+    # of a single entry.
+    col_types = {
+        "id": pl.String,
+        "tier_index": pl.Int64,
+        "label": pl.String,
+        "start": pl.Float64,
+        "end": pl.Float64
+    }
+
+    df = pl.DataFrame(
+        out_dict, 
+        schema=[
+            (name, col_types[att]) 
+            for name, att in zip(col_names, attributes_to_get)
+        ]
+    )
     if sub_df_rows:
         df = df.with_columns(
             n=pl.lit(sub_df_rows)
-- 
2.43.0


From d8f51350ad86bd2b84021c23280f6f87a7f309f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:06 +0000
Subject: [PATCH 35/71] fix: an entry popped from a tier is no longer within it

---
 src/aligned_textgrid/sequences/tiers.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index 5fbd629..eff50fe 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -178,6 +178,12 @@ class SequenceTier(Sequence, TierMixins, WithinMixins):
         """
         if entry in self.sequence_list:
             self.sequence_list.remove(entry)
+            # A popped entry isn't on the tier anymore.
+            if not any(entry is i for i in self.sequence_list):
+                if entry.intier is self:
+                    entry.intier = None
+                if entry.within is self:
+                    entry.within = None
             self.__set_precedence()
         else:
             raise Exception("Entry not in tier")                    
-- 
2.43.0


From 20469ae31b4d5c21aa8723ab6bd74a901be06e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:38 +0000
Subject: [PATCH 36/71] fix: interleave_class with no tier to take the timing
 from changes nothing

---
 src/aligned_textgrid/aligned_textgrid.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/aligned_textgrid/aligned_textgrid.py b/src/aligned_textgrid/aligned_textgrid.py
index cbfc980..6b1a94c 100644
--- a/src/aligned_textgrid/aligned_textgrid.py
+++ b/src/aligned_textgrid/aligned_textgrid.py
@@ -614,6 +614,12 @@ class AlignedTextGrid(Sequence, WithinMixins):
                 "Must be either 'above' or 'below'."
             )
 
+        for tg in self.tier_groups:
+            if specified_class in tg.entry_classes and not copy_class in tg.entry_classes:
+                raise ValueError(
+                    f"There is no tier {timing_from} to draw the timing of {name} from."
+                )
+
         new_class.set_superset_class(up_class)
         new_class.set_subset_class(down_class)
         
-- 
2.43.0


From 890c33210b83b300e7f5efdb8ae6cd5087414559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:40 +0000
Subject: [PATCH 37/71] fix: pop_class removes the last TierGroup too

---
 src/aligned_textgrid/aligned_textgrid.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/aligned_textgrid/aligned_textgrid.py b/src/aligned_textgrid/aligned_textgrid.py
index 6b1a94c..ef50656 100644
--- a/src/aligned_textgrid/aligned_textgrid.py
+++ b/src/aligned_textgrid/aligned_textgrid.py
@@ -375,9 +375,6 @@ class AlignedTextGrid(Sequence, WithinMixins):
         if not(isinstance(new, Sequence) and all([isinstance(v, TierGroupMixins) for v in new])):
             raise ValueError("Ony a list of TierGroups can be set as tier groups.")
         
-        if len(new) < 1:
-            return
-        
         self._tier_groups = new
         self.contains = self.tier_groups
 
-- 
2.43.0


From 5efbf892bdbad0241c334ed5cd01d01a6b1a7848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:14 +0000
Subject: [PATCH 38/71] fix: named accessors follow the groups after
 interleave_class and pop_class

---
 src/aligned_textgrid/aligned_textgrid.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/aligned_textgrid/aligned_textgrid.py b/src/aligned_textgrid/aligned_textgrid.py
index ef50656..1ff384d 100644
--- a/src/aligned_textgrid/aligned_textgrid.py
+++ b/src/aligned_textgrid/aligned_textgrid.py
@@ -344,6 +344,13 @@ class AlignedTextGrid(Sequence, WithinMixins):
         return tier_groups
     
     def _set_group_names(self):
+        # Named accessors may be of groups
+        # that aren't in the textgrid anymore.
+        for name, value in list(vars(self).items()):
+            if isinstance(value, TierGroupMixins) \
+               and not any(value is tg for tg in self.tier_groups):
+                delattr(self, name)
+
         tier_group_names = [x.name for x in self.tier_groups]
         duplicate_names = [
             name 
@@ -654,6 +661,7 @@ class AlignedTextGrid(Sequence, WithinMixins):
         for tgr in self.tier_groups:
             tgr.within = self
         self.contains = self.tier_groups
+        self._set_group_names()
 
     def pop_class(
             self, 
@@ -737,6 +745,7 @@ class AlignedTextGrid(Sequence, WithinMixins):
         for tgr in self.tier_groups:
             tgr.within = self
         self.contains = self.tier_groups            
+        self._set_group_names()
             
     def get_class_by_name(
             self, 
-- 
2.43.0


From 61f274fd791b103d9bd1a69b81ebb16748895e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:28 +0000
Subject: [PATCH 39/71] fix: get_tierwise doesn't wrap around at the start of a
 tier

---
 src/aligned_textgrid/mixins/mixins.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/mixins/mixins.py b/src/aligned_textgrid/mixins/mixins.py
index 8e03039..8f2dfba 100644
--- a/src/aligned_textgrid/mixins/mixins.py
+++ b/src/aligned_textgrid/mixins/mixins.py
@@ -178,7 +178,10 @@ class InTierMixins:
             (SequenceInterval|SequencePoint): The entry at the relative index
         """
         if not self.intier is None:
-            return self.intier[self.tier_index + idx]
+            rel_idx = self.tier_index + idx
+            if rel_idx < 0:
+                raise IndexError("Relative index exceeds the start of the tier")
+            return self.intier[rel_idx]
         else:
             return None
         
-- 
2.43.0


From cdd8dcccc92ecc713b2ee3477b57151975855a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:08:31 +0000
Subject: [PATCH 40/71] fix: an interval can be iterated over in nested loops

---
 src/aligned_textgrid/sequences/sequences.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/sequences/sequences.py b/src/aligned_textgrid/sequences/sequences.py
index 05ceea1..9d00130 100644
--- a/src/aligned_textgrid/sequences/sequences.py
+++ b/src/aligned_textgrid/sequences/sequences.py
@@ -430,7 +430,8 @@ class SequenceInterval(SequenceBaseClass, InstanceMixins, InTierMixins, Preceden
 
     def __iter__(self):
         self.current = 0
-        return self
+        # Independent iterators, so loops can be nested.
+        return iter(self.subset_list)
     
     def __len__(self)->int:
         return len(self.subset_list)
-- 
2.43.0


From 442b67cb20ae4c0a3d4a7ac99f5e34b5ee9d117e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:14 +0000
Subject: [PATCH 41/71] fix: to_df of an empty tier has no rows

---
 src/aligned_textgrid/outputs/to_dataframe.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/aligned_textgrid/outputs/to_dataframe.py b/src/aligned_textgrid/outputs/to_dataframe.py
index 8a4136d..9283229 100644
--- a/src/aligned_textgrid/outputs/to_dataframe.py
+++ b/src/aligned_textgrid/outputs/to_dataframe.py
@@ -85,6 +85,11 @@ def tier_to_df(
         with_subset: bool = True
         ) -> pl.DataFrame:
     
+    if len(obj) < 1:
+        # The columns of an entry, without any rows
+        blank = (None, "") if isinstance(obj, SequencePointTier) else (None, None, "")
+        return sequence_to_df(obj.entry_class(blank), with_subset).clear()
+
     all_interval_dfs = [
         sequence_to_df(x, with_subset) for x in obj
     ]
-- 
2.43.0


From 2beaae43d4d8704e74660ff676002be45a3ad9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:16 +0000
Subject: [PATCH 42/71] fix: an empty point tier has no nearest point

---
 src/aligned_textgrid/points/tiers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/aligned_textgrid/points/tiers.py b/src/aligned_textgrid/points/tiers.py
index 1fecedf..af85743 100644
--- a/src/aligned_textgrid/points/tiers.py
+++ b/src/aligned_textgrid/points/tiers.py
@@ -193,6 +193,8 @@ class SequencePointTier(Sequence, TierMixins, WithinMixins):
         Returns:
             (int): The index of the nearest point within the tier
         """
+        if len(self) < 1:
+            return None
         out_idx = np.abs(self.times-time).argmin()
         return out_idx
     
@@ -209,6 +211,8 @@ class SequencePointTier(Sequence, TierMixins, WithinMixins):
             (SequencePoint): the nearest point to `time`
         """
         out_idx = self.get_nearest_point_index(time)
+        if out_idx is None:
+            return None
         return self.sequence_list[out_idx]
 
     def return_tier(self, name:str|None = None) -> PointTier:
-- 
2.43.0


From a5e8b788f0b8f0615eddb5bf5d653670b1692b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:18 +0000
Subject: [PATCH 43/71] fix: empty tiers don't count for the extent of groups
 and textgrids

---
 src/aligned_textgrid/aligned_textgrid.py | 12 ++++++++++--
 src/aligned_textgrid/points/tiers.py     |  8 ++++++--
 src/aligned_textgrid/sequences/tiers.py  | 10 ++++++++--
 3 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/aligned_textgrid/aligned_textgrid.py b/src/aligned_textgrid/aligned_textgrid.py
index 1ff384d..c737d60 100644
--- a/src/aligned_textgrid/aligned_textgrid.py
+++ b/src/aligned_textgrid/aligned_textgrid.py
@@ -399,13 +399,21 @@ class AlignedTextGrid(Sequence, WithinMixins):
     def xmin(self)->np.array:
         if len(self) == 0:
             raise ValueError('No minimum time for empty TextGrid.')
-        return np.array([tgroup.xmin for tgroup in self.tier_groups]).min()
+        times = [tgroup.xmin for tgroup in self.tier_groups]
+        times = np.array([t for t in times if t is not None])
+        if times.size < 1:
+            return None
+        return times.min()
 
     @property
     def xmax(self)->np.array:
         if len(self) == 0:
             raise ValueError('No maximum time for empty TextGrid.')
-        return np.array([tgroup.xmax for tgroup in self.tier_groups]).max()
+        times = [tgroup.xmax for tgroup in self.tier_groups]
+        times = np.array([t for t in times if t is not None])
+        if times.size < 1:
+            return None
+        return times.max()
     
     def append(self, tier_group:TierGroup):
         """Append a new TierGroup to an existing 
diff --git a/src/aligned_textgrid/points/tiers.py b/src/aligned_textgrid/points/tiers.py
index af85743..790cd77 100644
--- a/src/aligned_textgrid/points/tiers.py
+++ b/src/aligned_textgrid/points/tiers.py
@@ -324,15 +324,19 @@ class PointsGroup(Sequence, TierGroupMixins, WithinMixins):
     @property
     def xmin(self):
         times = np.array(
-            [t.xmin for t in self.tier_list]
+            [t.xmin for t in self.tier_list if len(t) > 0]
         )
+        if times.size < 1:
+            return None
         return times.min()
 
     @property    
     def xmax(self):
         times = np.array(
-            [t.xmax for t in self.tier_list]
+            [t.xmax for t in self.tier_list if len(t) > 0]
         )
+        if times.size < 1:
+            return None
         return times.max()
     
     def __repr__(self):
diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index eff50fe..720f0b5 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -616,11 +616,17 @@ class TierGroup(Sequence,TierGroupMixins, WithinMixins):
     
     @property
     def xmin(self)->float:
-        return np.array([tier.xmin for tier in self.tier_list]).min()
+        times = np.array([tier.xmin for tier in self.tier_list if len(tier) > 0])
+        if times.size < 1:
+            return None
+        return times.min()
     
     @property
     def xmax(self)->float:
-        return np.array([tier.xmax for tier in self.tier_list]).max()
+        times = np.array([tier.xmax for tier in self.tier_list if len(tier) > 0])
+        if times.size < 1:
+            return None
+        return times.max()
     
     def _project_up(self, interval:SequenceInterval)->None:
         """
-- 
2.43.0


From 9dfc688a8e92e07aafbfd23ed9dbe02107e0ee1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:21 +0000
Subject: [PATCH 44/71] fix: textgrids with empty tiers can be saved

---
 src/aligned_textgrid/aligned_textgrid.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/aligned_textgrid/aligned_textgrid.py b/src/aligned_textgrid/aligned_textgrid.py
index c737d60..00746eb 100644
--- a/src/aligned_textgrid/aligned_textgrid.py
+++ b/src/aligned_textgrid/aligned_textgrid.py
@@ -826,6 +826,11 @@ class AlignedTextGrid(Sequence, WithinMixins):
                     name = f"{tier.name}_{dup_idx}"
                     dup_idx += 1 
                 tier_names += [name]
+                if len(tier) < 1:
+                    # praatio needs to be told the extent of an empty tier
+                    praatio_class = PointTier if isinstance(tier, SequencePointTier) else IntervalTier
+                    out_tg.addTier(tier = praatio_class(name, [], self.xmin, self.xmax))
+                    continue
                 out_tg.addTier(tier = tier.return_tier(name))
         return out_tg
 
-- 
2.43.0


From 802afd5c8be3609f4aa830f3083036aa0e0fdc0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:46 +0000
Subject: [PATCH 45/71] fix: a group can be concatenated onto a group without
 entries

---
 src/aligned_textgrid/mixins/tiermixins.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/aligned_textgrid/mixins/tiermixins.py b/src/aligned_textgrid/mixins/tiermixins.py
index b82f959..2a9471f 100644
--- a/src/aligned_textgrid/mixins/tiermixins.py
+++ b/src/aligned_textgrid/mixins/tiermixins.py
@@ -297,6 +297,8 @@ class TierGroupMixins:
         """
         self._class_check(new)
         increment = self.xmax
+        if increment is None:
+            increment = 0
         for t1, t2 in zip(self, new):
             for interval in t2:
                 if getattr(interval, "super_instance", None) is not None:
-- 
2.43.0


From 8d3a5c0c885d357957f13bbfd7c54a3fa374a043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:30 +0000
Subject: [PATCH 46/71] fix: point groups have tier names

---
 src/aligned_textgrid/points/tiers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/aligned_textgrid/points/tiers.py b/src/aligned_textgrid/points/tiers.py
index 790cd77..4278d5b 100644
--- a/src/aligned_textgrid/points/tiers.py
+++ b/src/aligned_textgrid/points/tiers.py
@@ -320,6 +320,10 @@ class PointsGroup(Sequence, TierGroupMixins, WithinMixins):
     @property
     def entry_classes(self):
         return [x.entry_class for x in self.tier_list]
+
+    @property
+    def tier_names(self)->list[str]:
+        return [x.name for x in self.tier_list]
     
     @property
     def xmin(self):
-- 
2.43.0


From 3a994c459d9adb5dc1c4e41ca2bce4ad113e5740 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:33 +0000
Subject: [PATCH 47/71] fix: tiers with integer times can be shifted by
 fractions

---
 src/aligned_textgrid/points/tiers.py    | 2 +-
 src/aligned_textgrid/sequences/tiers.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/aligned_textgrid/points/tiers.py b/src/aligned_textgrid/points/tiers.py
index 4278d5b..666455e 100644
--- a/src/aligned_textgrid/points/tiers.py
+++ b/src/aligned_textgrid/points/tiers.py
@@ -176,7 +176,7 @@ class SequencePointTier(Sequence, TierMixins, WithinMixins):
             return None
         
     def _shift(self, increment):
-        self.times += increment
+        self.times = self.times + increment
     
     def cleanup(self):
         pass
diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index 720f0b5..f09dca8 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -225,8 +225,8 @@ class SequenceTier(Sequence, TierMixins, WithinMixins):
             i.end = t
 
     def _shift(self, increment:float) -> None:
-        self.starts += increment
-        self.ends   += increment
+        self.starts = self.starts + increment
+        self.ends   = self.ends + increment
 
     @property
     def labels(self)->list[str]:
-- 
2.43.0


From d30f0ddb99339be97ab886a487295471f45e13cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:35 +0000
Subject: [PATCH 48/71] fix: PolarGrids without levels, ranges or turning
 points can be read

---
 src/aligned_textgrid/polar/polar_grid.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/polar/polar_grid.py b/src/aligned_textgrid/polar/polar_grid.py
index 00cf871..7b2af9c 100644
--- a/src/aligned_textgrid/polar/polar_grid.py
+++ b/src/aligned_textgrid/polar/polar_grid.py
@@ -44,12 +44,14 @@ class PolarGrid(AlignedTextGrid):
                 setattr(self, tier.entry_class.__name__, tier)
 
     def _relate_levels_and_ranges(self):
-        if self.Levels and self.Ranges:
+        if getattr(self, "Levels", None) and getattr(self, "Ranges", None):
             for l in self.Levels:
                 l.set_ranges_tier(self.Ranges)
                 l.set_range_interval()
 
     def _relate_levels_and_points(self):
+        if not (getattr(self, "Levels", None) and getattr(self, "TurningPoints", None)):
+            return
         for l in self.Levels:
             l.set_turning_point(self.TurningPoints)
     
-- 
2.43.0


From 94eb785e65fa773f6dedc5364a4e5cb9f8f7ff1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:35:39 +0000
Subject: [PATCH 49/71] fix: the mark of uncertainty is not an override value

---
 src/aligned_textgrid/polar/polar_classes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/polar/polar_classes.py b/src/aligned_textgrid/polar/polar_classes.py
index dcbdad3..526c71f 100644
--- a/src/aligned_textgrid/polar/polar_classes.py
+++ b/src/aligned_textgrid/polar/polar_classes.py
@@ -86,7 +86,7 @@ class TurningPoints(SequencePoint):
     
     @property
     def override(self):
-        override_value = self.label.split(",")[-1]
+        override_value = self.label.replace("?", "").split(",")[-1]
         if override_value == "0":
             return None
         return override_value
-- 
2.43.0


From 855310bd82fcc65cf171c5c74550bb92dc28f981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:43:19 +0000
Subject: [PATCH 50/71] fix: a refused concatenation leaves the times alone

---
 src/aligned_textgrid/sequence_list.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/aligned_textgrid/sequence_list.py b/src/aligned_textgrid/sequence_list.py
index d4592b0..7c56109 100644
--- a/src/aligned_textgrid/sequence_list.py
+++ b/src/aligned_textgrid/sequence_list.py
@@ -223,6 +223,8 @@ class SequenceList(Sequence):
                 SequenceIntervals or SequencePoints
         """
         intervals = SequenceList(*intervals)
+        if len(intervals) > 0:
+            self._entry_class_checker(intervals[0])
 
         increment = 0
         if len(self.ends) > 0:
-- 
2.43.0


From 9bcb071f4e6eba324da041c5822afb368bcf8594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:49:37 +0000
Subject: [PATCH 51/71] fix: classes of one name in different hierarchies are
 kept apart

---
 src/aligned_textgrid/aligned_textgrid.py | 30 ++++++++++++++++++------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/aligned_textgrid/aligned_textgrid.py b/src/aligned_textgrid/aligned_textgrid.py
index 00746eb..4b43090 100644
--- a/src/aligned_textgrid/aligned_textgrid.py
+++ b/src/aligned_textgrid/aligned_textgrid.py
@@ -180,6 +180,17 @@ class AlignedTextGrid(Sequence, WithinMixins):
         
         return entry_classes
 
+    def _class_key(
+            self, 
+            entry_class: type[SequenceInterval]|type[SequencePoint]
+        )->list[str]:
+        # Classes of the same name may have 
+        # different places in different hierarchies
+        hierarchy = []
+        if issubclass(entry_class, SequenceInterval):
+            hierarchy = get_class_hierarchy(entry_class, [])
+        return [entry_class.__name__] + [c.__name__ for c in hierarchy]
+
     def _reclone_classes(
             self, 
             entry_classes:list[SequenceInterval|SequencePoint]|list[list[SequenceInterval|SequencePoint]]
@@ -192,7 +203,7 @@ class AlignedTextGrid(Sequence, WithinMixins):
         
         unique_classes = list(set(flat_classes))
 
-        cloned_class_names = [cl.__name__ for cl in self._cloned_classes]
+        cloned_class_keys = [self._class_key(cl) for cl in self._cloned_classes]
     
         points = [c for c in unique_classes if issubclass(c, SequencePoint)]
         tops = [
@@ -204,17 +215,17 @@ class AlignedTextGrid(Sequence, WithinMixins):
 
         points_clone = []
         for p in points:
-            if p.__name__ in cloned_class_names:
+            if self._class_key(p) in cloned_class_keys:
                 points_clone.append(
-                    self._cloned_classes[cloned_class_names.index(p.__name__)]
+                    self._cloned_classes[cloned_class_keys.index(self._class_key(p))]
                 )
             else:
                 points_clone.append(clone_class(p))
         tops_clone = []
         for t in tops:
-            if t.__name__ in cloned_class_names:
+            if self._class_key(t) in cloned_class_keys:
                 tops_clone.append(
-                    self._cloned_classes[cloned_class_names.index(t.__name__)]
+                    self._cloned_classes[cloned_class_keys.index(self._class_key(t))]
                 )
             else:
                 tops_clone.append(clone_class(t))
@@ -232,9 +243,14 @@ class AlignedTextGrid(Sequence, WithinMixins):
             new_classes: list[SequenceInterval,SequencePoint]
         )->list[SequenceInterval]|list[SequencePoint]:
         new_classes_names = [c.__name__ for c in new_classes]
-        orig_classes_names = [c.__name__ for c in orig_classes]
+        new_classes_keys = [self._class_key(c) for c in new_classes]
 
-        new_idx = [new_classes_names.index(on) for on in orig_classes_names]
+        new_idx = [
+            new_classes_keys.index(self._class_key(c)) 
+            if self._class_key(c) in new_classes_keys 
+            else new_classes_names.index(c.__name__)
+            for c in orig_classes
+        ]
 
         out_classes = [new_classes[i] for i in new_idx]
         return out_classes
-- 
2.43.0


From e922c529c66f8bfcd2ea8b7277050010c0b8c874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:55:09 +0000
Subject: [PATCH 52/71] fix: a popped class is not reused for groups appended
 later

---
 src/aligned_textgrid/aligned_textgrid.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/aligned_textgrid/aligned_textgrid.py b/src/aligned_textgrid/aligned_textgrid.py
index 4b43090..010e7ac 100644
--- a/src/aligned_textgrid/aligned_textgrid.py
+++ b/src/aligned_textgrid/aligned_textgrid.py
@@ -765,6 +765,9 @@ class AlignedTextGrid(Sequence, WithinMixins):
             new_tg.name = tg.name
             new_tier_groups.append(new_tg)
         
+        self._cloned_classes = [
+            c for c in self._cloned_classes if c.__name__ != name
+        ]
         self.tier_groups = new_tier_groups
         for tgr in self.tier_groups:
             tgr.within = self
-- 
2.43.0


From 496e2f8e4ff72628c149bc0e3d48b3b9687f39be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:55:12 +0000
Subject: [PATCH 53/71] fix: entry classes can be nested in tuples

---
 src/aligned_textgrid/aligned_textgrid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aligned_textgrid/aligned_textgrid.py b/src/aligned_textgrid/aligned_textgrid.py
index 010e7ac..8132ee5 100644
--- a/src/aligned_textgrid/aligned_textgrid.py
+++ b/src/aligned_textgrid/aligned_textgrid.py
@@ -198,7 +198,7 @@ class AlignedTextGrid(Sequence, WithinMixins):
         
         flat_classes = entry_classes
 
-        if type(entry_classes[0]) is list:
+        if type(entry_classes[0]) in [list, tuple]:
             flat_classes = [c for tg in entry_classes for c in tg]
         
         unique_classes = list(set(flat_classes))
@@ -340,7 +340,7 @@ class AlignedTextGrid(Sequence, WithinMixins):
         self._reclone_classes(entry_classes)
         # This check seems overly cautious, since 
         # _nestify_tiers should always return a list of lists.
-        if type(entry_classes[0]) is list:
+        if type(entry_classes[0]) in [list, tuple]:
             entry_classes = [self._swap_classes(ecs, self._cloned_classes) for ecs in entry_classes]
         else:
             entry_classes = self._swap_classes(entry_classes, self._cloned_classes)
-- 
2.43.0


From 41cc0558208437cdf2900f3d98d1e86d5e214c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:55:15 +0000
Subject: [PATCH 54/71] fix: flat entry classes may be of points

---
 src/aligned_textgrid/aligned_textgrid.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/aligned_textgrid.py b/src/aligned_textgrid/aligned_textgrid.py
index 8132ee5..e28d4ac 100644
--- a/src/aligned_textgrid/aligned_textgrid.py
+++ b/src/aligned_textgrid/aligned_textgrid.py
@@ -160,7 +160,11 @@ class AlignedTextGrid(Sequence, WithinMixins):
 
         ntiers = len(tg.tiers)
         if not type(entry_classes[0]) in [list, tuple]:
-            class_supers = [c.superset_class for c in entry_classes]
+            class_supers = [
+                c.superset_class 
+                for c in entry_classes 
+                if issubclass(c, SequenceInterval)
+            ]
             try:
                 top_idxes = [i for i,c in enumerate(class_supers) if issubclass(c, Top)]
             except ValueError:
-- 
2.43.0


From 3eb097ce2558ec8527df07981541699f12c6dfd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:37 +0000
Subject: [PATCH 55/71] fix: get_class_hierarchy remembers nothing between
 calls

---
 src/aligned_textgrid/custom_classes.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/aligned_textgrid/custom_classes.py b/src/aligned_textgrid/custom_classes.py
index 48af75d..f45fc50 100644
--- a/src/aligned_textgrid/custom_classes.py
+++ b/src/aligned_textgrid/custom_classes.py
@@ -207,7 +207,7 @@ def clone_class(
 
 def get_class_hierarchy(
         entry_class:SequenceInterval, 
-        out_list = []
+        out_list = None
     )->list[SequenceInterval]:
     """Given a SequenceInterval, this will return
     the entire class hierarchy
@@ -217,12 +217,15 @@ def get_class_hierarchy(
             Entry class to search the hierarchy for
         out_list (list, optional): 
             Used internally for recursive search.
-            Defaults to [].
+            Defaults to None.
 
     Returns:
         (list[SequenceInterval]):
             The class hierarchy
     """
+    if out_list is None:
+        out_list = []
+
     if (not issubclass(entry_class.superset_class, Top)) \
        and entry_class.superset_class not in out_list:
         out_list = get_class_hierarchy(entry_class.superset_class, out_list)
-- 
2.43.0


From 7a07d159bb0acaf6fadc5efd27dc44f541b3d86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:39 +0000
Subject: [PATCH 56/71] fix: custom_classes of no names is no classes

---
 src/aligned_textgrid/custom_classes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/aligned_textgrid/custom_classes.py b/src/aligned_textgrid/custom_classes.py
index f45fc50..728d5bb 100644
--- a/src/aligned_textgrid/custom_classes.py
+++ b/src/aligned_textgrid/custom_classes.py
@@ -143,6 +143,9 @@ def custom_classes(
             else:
                 entry.set_subset_class(interval_classes[idx+1])
 
+        if len(return_order) < 1:
+            return []
+
         if type(return_order[0]) is int:
             return_list = [class_out_list[idx] for idx in return_order]
         elif type(return_order[0]) is str:
-- 
2.43.0


From 1b1a635636a3c0b4c40f972616defdcd56c31204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:19 +0000
Subject: [PATCH 57/71] fix: a PointsGroup keeps its name in an AlignedTextGrid

---
 src/aligned_textgrid/points/tiers.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/points/tiers.py b/src/aligned_textgrid/points/tiers.py
index 666455e..5abc87a 100644
--- a/src/aligned_textgrid/points/tiers.py
+++ b/src/aligned_textgrid/points/tiers.py
@@ -257,12 +257,17 @@ class PointsGroup(Sequence, TierGroupMixins, WithinMixins):
             self,
             tiers: list[SequencePointTier]|Self = [SequencePointTier()]
     ):
+        name = None
         if isinstance(tiers, PointsGroup):
+            name = tiers.name
             tiers = [tier for tier in tiers]
         self.tier_list = tiers
         self.contains = self.tier_list
         self._set_tier_names()
-        self._name = self.make_name()
+        if name:
+            self._name = name
+        else:
+            self._name = self.make_name()
 
     def __getitem__(
             self,
-- 
2.43.0


From f16fafd2a5439908107a035173470485b33cd3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:11:34 +0000
Subject: [PATCH 58/71] fix: the Interval keyword accepts an interval without a
 subset list

---
 src/aligned_textgrid/sequences/sequences.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/sequences/sequences.py b/src/aligned_textgrid/sequences/sequences.py
index 9d00130..b56874e 100644
--- a/src/aligned_textgrid/sequences/sequences.py
+++ b/src/aligned_textgrid/sequences/sequences.py
@@ -385,7 +385,7 @@ class SequenceInterval(SequenceBaseClass, InstanceMixins, InTierMixins, Preceden
         Interval = None
     ):
         self._seq_type = SequenceInterval
-        if Interval:
+        if Interval is not None:
             interval = Interval
 
         if isinstance(interval, SequenceInterval):
-- 
2.43.0


From 05203122492014622605978d5879529d0f35b721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:52 +0000
Subject: [PATCH 59/71] fix: cleanup of a textgrid fills groups without any
 interval

---
 src/aligned_textgrid/aligned_textgrid.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/aligned_textgrid/aligned_textgrid.py b/src/aligned_textgrid/aligned_textgrid.py
index e28d4ac..06e8d76 100644
--- a/src/aligned_textgrid/aligned_textgrid.py
+++ b/src/aligned_textgrid/aligned_textgrid.py
@@ -508,20 +508,27 @@ class AlignedTextGrid(Sequence, WithinMixins):
             interval_tgs = [tg for tg in self if isinstance(tg, TierGroup)]
             if len(interval_tgs) < 1:
                 return
-            tg_starts = np.array([tg.xmin for tg in interval_tgs])
-            tg_ends = np.array([tg.xmax for tg in interval_tgs])
+            # Groups without any interval have no extent
+            filled_tgs = [tg for tg in interval_tgs if tg.xmin is not None]
+            if len(filled_tgs) < 1:
+                return
+            tg_starts = np.array([tg.xmin for tg in filled_tgs])
+            tg_ends = np.array([tg.xmax for tg in filled_tgs])
 
-            if np.allclose(tg_starts.min(), tg_starts.max()) and \
+            if len(filled_tgs) == len(interval_tgs) and \
+            np.allclose(tg_starts.min(), tg_starts.max()) and \
             np.allclose(tg_ends.min(), tg_ends.max()):
                 return
             
             for tg in interval_tgs:
-                if np.allclose(tg.xmin, tg_starts.min()):
-                    continue
-
                 start = tg_starts.min()
                 end = tg.xmin
 
+                if end is None:
+                    end = tg_ends.max()
+                elif np.allclose(end, start):
+                    continue
+
                 tg_classes = tg.entry_classes
 
                 empty_intervals = [c((start, end, "")) for c in tg_classes]
-- 
2.43.0


From 74cf57107bc0af3bca758b9dce89948fb24bcc98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:29:06 +0000
Subject: [PATCH 60/71] fix: interleaving a class gives it to groups without
 intervals too

---
 src/aligned_textgrid/aligned_textgrid.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/aligned_textgrid.py b/src/aligned_textgrid/aligned_textgrid.py
index 06e8d76..39ded7d 100644
--- a/src/aligned_textgrid/aligned_textgrid.py
+++ b/src/aligned_textgrid/aligned_textgrid.py
@@ -670,7 +670,8 @@ class AlignedTextGrid(Sequence, WithinMixins):
             else:
                 copy_tier = [tier for tier in tg if tier.entry_class is copy_class][0]
                 new_tier = SequenceTier(
-                    [new_class(seq) for seq in copy_tier]
+                    [new_class(seq) for seq in copy_tier],
+                    entry_class = new_class
                 )
                 if not copy_labels:
                     for seq in new_tier:
-- 
2.43.0


From 337f5a2d7e6c5198e3d0d8eca0a72d0a88803cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:09 +0000
Subject: [PATCH 61/71] fix: cleaning up a tier relates the tiers of its group
 again

---
 src/aligned_textgrid/sequences/tiers.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index f09dca8..a8cb278 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -261,15 +261,16 @@ class SequenceTier(Sequence, TierMixins, WithinMixins):
             ## triggers precedence resetting
             self.sequence_list += [new]
 
-        if issubclass(self.subset_class, Bottom):
-            if self.within:
-                self.within.re_relate()
-                return
-        
-        if self.within and self.within_index+1 < len(self.within):
+        if not self.within:
+            return
+
+        if self.within_index+1 < len(self.within):
             next_tier = self.within[self.within_index+1]
             next_tier.cleanup()
 
+        # The next tier may have had nothing to clean up.
+        self.within.re_relate()
+
         # existing_intervals = self.sequence_list
 
         # n_existing = len(existing_intervals)
-- 
2.43.0


From b14d76f0c7ead024667d568a97f982fbfc6becca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:06:03 +0000
Subject: [PATCH 62/71] fix: appending to a list sorts entries whose times have
 changed

---
 src/aligned_textgrid/sequence_list.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/aligned_textgrid/sequence_list.py b/src/aligned_textgrid/sequence_list.py
index 7c56109..a6a477e 100644
--- a/src/aligned_textgrid/sequence_list.py
+++ b/src/aligned_textgrid/sequence_list.py
@@ -206,6 +206,8 @@ class SequenceList(Sequence):
         if len(self.starts) > 0 and all(s is not None for s in self.starts):
             insert_idx = self.starts.searchsorted(this_time)
             self._values.insert(insert_idx, value)
+            # Times may have changed since the last sorting.
+            self._sort()
             return
         
         self._values.append(value)
-- 
2.43.0


From 4cc40829e23b433406dafafdf6a571d31baf04e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:37 +0000
Subject: [PATCH 63/71] fix: a tier group keeps its name when a tier is
 appended to it

---
 src/aligned_textgrid/mixins/tiermixins.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/aligned_textgrid/mixins/tiermixins.py b/src/aligned_textgrid/mixins/tiermixins.py
index 2a9471f..97a6af9 100644
--- a/src/aligned_textgrid/mixins/tiermixins.py
+++ b/src/aligned_textgrid/mixins/tiermixins.py
@@ -275,10 +275,17 @@ class TierGroupMixins:
                 "does not fit into the sequence hierarchy."
             ))
 
+        # A name that was given, or that the textgrid 
+        # finds the group by, stays.
+        name = self.name
+        keep_name = self.within or name != self.make_name()
+
         orig_tiers = self.tier_list
         orig_tiers += [new]
 
         self.__init__(orig_tiers)
+        if keep_name:
+            self.name = name
         
 
         pass
-- 
2.43.0


From 2bfbd28b84073b878dd6c439a0bf7dadcc4709c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:40:36 +0000
Subject: [PATCH 64/71] fix: a class that was interleaved is known when a group
 is appended

---
 src/aligned_textgrid/aligned_textgrid.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/aligned_textgrid/aligned_textgrid.py b/src/aligned_textgrid/aligned_textgrid.py
index 39ded7d..4bc19ca 100644
--- a/src/aligned_textgrid/aligned_textgrid.py
+++ b/src/aligned_textgrid/aligned_textgrid.py
@@ -661,6 +661,7 @@ class AlignedTextGrid(Sequence, WithinMixins):
 
         new_class.set_superset_class(up_class)
         new_class.set_subset_class(down_class)
+        self._cloned_classes = self._cloned_classes + [new_class]
         
         new_tiergoups = []
 
-- 
2.43.0


From f3ec0141e5597ef490663320dbfda3640c617098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:47 +0000
Subject: [PATCH 65/71] fix: a tier that a group refuses keeps its class

---
 src/aligned_textgrid/mixins/tiermixins.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/aligned_textgrid/mixins/tiermixins.py b/src/aligned_textgrid/mixins/tiermixins.py
index 97a6af9..e3acd2b 100644
--- a/src/aligned_textgrid/mixins/tiermixins.py
+++ b/src/aligned_textgrid/mixins/tiermixins.py
@@ -235,10 +235,10 @@ class TierGroupMixins:
                 f"can be appended to a {self.__class__.__name__}"
             ))
         
+        new_class = new.entry_class
         if self.within:
             self.within._reclone_classes([new.entry_class])
             new_class, = self.within._swap_classes([new.entry_class], self.within._cloned_classes)
-            new.__init__(new, entry_class=new_class)
         
         possible_set = {SequenceBaseClass}
         existing_set = set()
@@ -254,27 +254,31 @@ class TierGroupMixins:
             existing_set = {tier.entry_class for tier in self}
 
         existing_matches = [
-            issubclass(cl, new.entry_class) or issubclass(new.entry_class, cl)
+            issubclass(cl, new_class) or issubclass(new_class, cl)
             for cl in existing_set
         ]
 
         if any(existing_matches):
             raise ValueError((
                 f"This {self.__class__.__name__} already has a "
-                f"{new.entry_class.__name__} tier"
+                f"{new_class.__name__} tier"
             ))
 
         possible_matches = [
-            issubclass(cl, new.entry_class) or issubclass(new.entry_class, cl)
+            issubclass(cl, new_class) or issubclass(new_class, cl)
             for cl in possible_set
         ]
 
         if not any(possible_matches):
             raise ValueError((
-                f"A tier with {new.entry_class.__name__} entry class "
+                f"A tier with {new_class.__name__} entry class "
                 "does not fit into the sequence hierarchy."
             ))
 
+        # A tier that isn't accepted keeps its class.
+        if self.within:
+            new.__init__(new, entry_class=new_class)
+
         # A name that was given, or that the textgrid 
         # finds the group by, stays.
         name = self.name
-- 
2.43.0


From ca4010654b09abb2f11adaf2e9ce48d43c1763f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:56 +0000
Subject: [PATCH 66/71] fix: a tier concatenated within a group brings what its
 entries contain

---
 src/aligned_textgrid/mixins/tiermixins.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/aligned_textgrid/mixins/tiermixins.py b/src/aligned_textgrid/mixins/tiermixins.py
index e3acd2b..d8a5d19 100644
--- a/src/aligned_textgrid/mixins/tiermixins.py
+++ b/src/aligned_textgrid/mixins/tiermixins.py
@@ -149,6 +149,19 @@ class TierMixins:
 
         self.sequence_list = lhs
 
+        if not self.within:
+            return
+
+        # As when appending, what the new entries 
+        # contain is appended to the tiers below.
+        down_tier = self.within_index+1
+        if down_tier < len(self.within):
+            for entry in rhs:
+                for interval in getattr(entry, "subset_list", []):
+                    self.within[down_tier].append(interval, re_relate = False)
+
+        self.within.re_relate()
+
     @property
     def first(self) -> 'SequenceInterval|SequencePoint':
         if hasattr(self, "sequence_list") and len(self.sequence_list) > 0:
-- 
2.43.0


From fc1952c650d8c45494b054e802a8511aa2385bc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:14 +0000
Subject: [PATCH 67/71] fix: classes with Top or Bottom in their names are
 related like others

---
 src/aligned_textgrid/sequences/sequences.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aligned_textgrid/sequences/sequences.py b/src/aligned_textgrid/sequences/sequences.py
index b56874e..244e818 100644
--- a/src/aligned_textgrid/sequences/sequences.py
+++ b/src/aligned_textgrid/sequences/sequences.py
@@ -50,7 +50,7 @@ class HierarchyMixins:
         """
         if superset_class is None:
             cls.superset_class = None
-        elif "Top" in cls.__name__ :
+        elif issubclass(cls, Top):
             cls.superset_class = None
         elif issubclass(superset_class, HierarchyPart) and not superset_class is cls:
             cls.superset_class = superset_class
@@ -76,7 +76,7 @@ class HierarchyMixins:
 
         if subset_class is None:
             cls.subset_class = None
-        elif "Bottom" in cls.__name__:
+        elif issubclass(cls, Bottom):
             cls.subset_class = None
         elif issubclass(subset_class, HierarchyPart) and not subset_class is cls:
             cls.subset_class = subset_class
-- 
2.43.0


From 61bf4f1e1c81d90bad568965dec71bb34373d284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:53 +0000
Subject: [PATCH 68/71] fix: cleanup of an interval fills only actual gaps
 between its children

---
 src/aligned_textgrid/sequences/sequences.py | 28 ++++++++++++---------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/aligned_textgrid/sequences/sequences.py b/src/aligned_textgrid/sequences/sequences.py
index 244e818..009e2f6 100644
--- a/src/aligned_textgrid/sequences/sequences.py
+++ b/src/aligned_textgrid/sequences/sequences.py
@@ -573,22 +573,26 @@ class SequenceInterval(SequenceBaseClass, InstanceMixins, InTierMixins, Preceden
         
         to_add = SequenceList()
 
-        if not np.allclose(self.start, self.first.start):
+        # Only actual gaps are filled: overlapping children leave none
+        # between them, and children sticking out leave none at the edges.
+        def is_gap(start, end):
+            return start < end and not np.allclose(start, end)
+
+        if is_gap(self.start, self.first.start):
             new_interval = self.subset_class((self.start, self.first.start, ""))
             to_add += [new_interval]
-        
-        if not np.allclose(self.end, self.last.end):
-            new_interval = self.subset_class((self.last.end, self.end, ""))
-            to_add += [new_interval]
-
-        for idx, interval in enumerate(self.subset_list):
-            if idx + 1 == len(self):
-                break
 
-            if not np.allclose(interval.end, self[idx+1].start):
-                new_interval = self.subset_class((interval.end,self[idx+1].start, ""))
+        covered = self.first.end
+        for interval in self.subset_list[1:]:
+            if is_gap(covered, interval.start):
+                new_interval = self.subset_class((covered, interval.start, ""))
                 to_add += [new_interval]
-            
+            covered = max(covered, interval.end)
+
+        if is_gap(covered, self.end):
+            new_interval = self.subset_class((covered, self.end, ""))
+            to_add += [new_interval]
+
         for interval in to_add:
             self.append(interval)
 
-- 
2.43.0


From 60f84ad68a5a49508ffca0c8dfda364b6d805108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:07 +0000
Subject: [PATCH 69/71] fix: cleanup of tiers and groups fills only actual
 gaps, also where intervals overlap

---
 src/aligned_textgrid/sequences/tiers.py | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index a8cb278..e14598c 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -246,6 +246,19 @@ class SequenceTier(Sequence, TierMixins, WithinMixins):
         else:
             return None
 
+    def _find_gaps(self, starts:np.ndarray, ends:np.ndarray)->list[tuple]:
+        """
+        Find the gaps between intervals given in order of their start times.
+        Overlapping intervals leave no gap between them.
+        """
+        gaps = []
+        covered = ends[0]
+        for start, end in zip(starts[1:], ends[1:]):
+            if covered < start:
+                gaps.append((covered, start))
+            covered = max(covered, end)
+        return gaps
+
     def cleanup(self)->None:
         """
         Insert empty intervals where there are gaps in the existing tier.
@@ -253,10 +266,7 @@ class SequenceTier(Sequence, TierMixins, WithinMixins):
         if np.allclose(self.starts[1:], self.ends[:-1]):
             return
         
-        boundaries = np.unique(np.concatenate([self.starts, self.ends]))
-        new_starts = boundaries[:-1][~np.isin(boundaries[:-1], self.starts)]
-        new_ends = boundaries[1:][~np.isin(boundaries[1:], self.ends)]
-        for s,e in zip(new_starts, new_ends):
+        for s,e in self._find_gaps(self.starts, self.ends):
             new = self.entry_class((s, e, ""))
             ## triggers precedence resetting
             self.sequence_list += [new]
@@ -486,10 +496,7 @@ class TierGroup(Sequence,TierGroupMixins, WithinMixins):
                 # Close internal gaps
                 for lowers in lower_sequences:
                     if not np.allclose(lowers.starts[1:], lowers.ends[:-1]):
-                        boundaries = np.unique(np.concat([lowers.starts, lowers.ends]))
-                        new_starts = boundaries[:-1][~np.isin(boundaries[:-1], lowers.starts)]
-                        new_ends = boundaries[1:][~np.isin(boundaries[1:], lowers.ends)]
-                        for s, e in zip(new_starts, new_ends):
+                        for s, e in lower_tier._find_gaps(lowers.starts, lowers.ends):
                             new = lowers[0].entry_class((s, e, ""))
                             lowers.append(new)
                             lower_tier.append(new, re_relate = False)
-- 
2.43.0


From 52f53807dd8d0346efe0d16d76921dda93bf0dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:09 +0000
Subject: [PATCH 70/71] fix: groups made from nothing don't share a tier

---
 src/aligned_textgrid/points/tiers.py    | 6 +++++-
 src/aligned_textgrid/sequences/tiers.py | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/aligned_textgrid/points/tiers.py b/src/aligned_textgrid/points/tiers.py
index 5abc87a..8bd8c29 100644
--- a/src/aligned_textgrid/points/tiers.py
+++ b/src/aligned_textgrid/points/tiers.py
@@ -255,8 +255,12 @@ class PointsGroup(Sequence, TierGroupMixins, WithinMixins):
     """    
     def __init__(
             self,
-            tiers: list[SequencePointTier]|Self = [SequencePointTier()]
+            tiers: list[SequencePointTier]|Self = None
     ):
+        # Groups made from nothing don't share a tier.
+        if tiers is None:
+            tiers = [SequencePointTier()]
+
         name = None
         if isinstance(tiers, PointsGroup):
             name = tiers.name
diff --git a/src/aligned_textgrid/sequences/tiers.py b/src/aligned_textgrid/sequences/tiers.py
index e14598c..c697360 100644
--- a/src/aligned_textgrid/sequences/tiers.py
+++ b/src/aligned_textgrid/sequences/tiers.py
@@ -390,9 +390,13 @@ class TierGroup(Sequence,TierGroupMixins, WithinMixins):
     """
     def __init__(
         self,
-        tiers: list[SequenceTier]|Self = [SequenceTier()],
+        tiers: list[SequenceTier]|Self = None,
         delay_cleanup = False
     ):
+        # Groups made from nothing don't share a tier.
+        if tiers is None:
+            tiers = [SequenceTier()]
+
         name = None        
         if hasattr(tiers, "name"):
             name = tiers.name
-- 
2.43.0


From 16f7d2a6c3dff46bdd242873e66757b72db0c565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:25 +0000
Subject: [PATCH 71/71] fix: a points group doesn't share the list it is made
 from

---
 src/aligned_textgrid/points/tiers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/aligned_textgrid/points/tiers.py b/src/aligned_textgrid/points/tiers.py
index 8bd8c29..408474c 100644
--- a/src/aligned_textgrid/points/tiers.py
+++ b/src/aligned_textgrid/points/tiers.py
@@ -265,7 +265,8 @@ class PointsGroup(Sequence, TierGroupMixins, WithinMixins):
         if isinstance(tiers, PointsGroup):
             name = tiers.name
             tiers = [tier for tier in tiers]
-        self.tier_list = tiers
+        # The list given stays the caller's own.
+        self.tier_list = list(tiers)
         self.contains = self.tier_list
         self._set_tier_names()
         if name:
-- 
2.43.0

