From e14fcadaa97889a9803fdc6a4e5d9c0a3a5c8f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:05:10 +0000
Subject: [PATCH 01/33] fix: account for count when tracking report size for
 alignment

A Value with count > 1 occupies size * count bits, but the streamer only
accounted for size, so that later alignment padding was wrong.
---
 hrdc/descriptor/streamer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrdc/descriptor/streamer.py b/hrdc/descriptor/streamer.py
index e9d70e3..5bf7511 100644
--- a/hrdc/descriptor/streamer.py
+++ b/hrdc/descriptor/streamer.py
@@ -89,7 +89,7 @@ class Streamer(descriptor.Visitor):
 
             a(item.ReportCount(e.count))
             a(item.ReportSize(e.size))
-            self.report_size[int(e.way)][self.report_id] += int(e.size)
+            self.report_size[int(e.way)][self.report_id] += int(e.size) * int(e.count)
             a(item.Item.itemclass(item.Item.Main, e.way)(e.flags))
 
             if e.namedArray and not constant and e.usage:
-- 
2.43.0


From 38f9b5baaba8ba6b1f91eccac21c7157071ae2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:06:12 +0000
Subject: [PATCH 02/33] fix: restore the enclosing report ID when leaving a
 nested Report

A Report sets the report ID for its subtree only; members of the
enclosing Report that follow a nested one were put in the nested one.
---
 hrdc/descriptor/streamer.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/hrdc/descriptor/streamer.py b/hrdc/descriptor/streamer.py
index 5bf7511..eab7699 100644
--- a/hrdc/descriptor/streamer.py
+++ b/hrdc/descriptor/streamer.py
@@ -12,11 +12,13 @@ class Streamer(descriptor.Visitor):
             int(item.MainItem.Feature) : [0] * 256,
             }
         self.report_id = 0
+        self.outer_report_ids = []
 
     def enter(self, e):
         a = self.stream.append
 
         if isinstance(e, descriptor.Report):
+            self.outer_report_ids.append(self.report_id)
             self.report_id = e.id
             if e.id:
                 a(item.ReportID(e.id))
@@ -28,7 +30,13 @@ class Streamer(descriptor.Visitor):
     def leave(self, e):
         a = self.stream.append
 
-        if isinstance(e, descriptor.Collection):
+        if isinstance(e, descriptor.Report):
+            outer = self.outer_report_ids.pop()
+            if outer:
+                self.report_id = outer
+                a(item.ReportID(outer))
+
+        elif isinstance(e, descriptor.Collection):
             a(item.EndCollection())
 
     def element(self, e):
-- 
2.43.0


From df5eb1272a54e8456c88597c7059c527bc2ac6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:03 +0000
Subject: [PATCH 03/33] fix: keep physical ranges when merging them with
 logical ranges

PhysicalMerge never recorded which physical range was in effect, so a
physical range (or its reset to 0) was dropped while a different one was
still in effect, and a range left implicit then followed later logical
range changes.
---
 hrdc/stream/optimizer/physical_merge.py | 84 ++++++++++++++++---------
 1 file changed, 53 insertions(+), 31 deletions(-)

diff --git a/hrdc/stream/optimizer/physical_merge.py b/hrdc/stream/optimizer/physical_merge.py
index 19b38e0..4c3420d 100644
--- a/hrdc/stream/optimizer/physical_merge.py
+++ b/hrdc/stream/optimizer/physical_merge.py
@@ -4,50 +4,72 @@ class PhysicalMerge(Optimizer):
     precedence = 50
 
     def __init__(self, stream):
-        from ..item import Item, GlobalItem,\
-             LogicalMaximum, LogicalMinimum,\
-             PhysicalMaximum, PhysicalMinimum
+        from ..item import GlobalItem
 
         self.stream = stream
+        # Values declared by source stream
         self.current = {
-            GlobalItem.LogicalMinimum: LogicalMinimum(0),
-            GlobalItem.LogicalMaximum: LogicalMaximum(0),
-            GlobalItem.PhysicalMinimum: PhysicalMinimum(0),
-            GlobalItem.PhysicalMaximum: PhysicalMaximum(0),
+            GlobalItem.LogicalMinimum: 0,
+            GlobalItem.LogicalMaximum: 0,
+            GlobalItem.PhysicalMinimum: 0,
+            GlobalItem.PhysicalMaximum: 0,
             }
-        self.changed = dict(list(self.current.items()))
+        # Physical range as seen by downstream
+        self.emitted = {
+            GlobalItem.PhysicalMinimum: 0,
+            GlobalItem.PhysicalMaximum: 0,
+            }
+        self.stack = []
         self.pending = []
 
-    def append(self, item):
+    def flush(self):
+        from ..item import Item
+
+        for i in self.pending:
+            if i.kind == Item.Global and i.tag in self.emitted:
+                self.emitted[i.tag] = int(i.value)
+            self.stream.append(i)
+        self.pending = []
+
+    def physicalRewrite(self):
         from ..item import Item, GlobalItem, PhysicalMinimum, PhysicalMaximum
 
+        low = self.current[GlobalItem.PhysicalMinimum]
+        high = self.current[GlobalItem.PhysicalMaximum]
+        if low == self.current[GlobalItem.LogicalMinimum] \
+           and high == self.current[GlobalItem.LogicalMaximum]:
+            low, high = 0, 0
+
+        self.pending = [x for x in self.pending
+                        if x.kind != Item.Global
+                        or x.tag not in self.emitted]
+        if low != self.emitted[GlobalItem.PhysicalMinimum] \
+           or high != self.emitted[GlobalItem.PhysicalMaximum]:
+            self.pending[:0] = [PhysicalMinimum(low), PhysicalMaximum(high)]
+
+    def append(self, item):
+        from ..item import Item, GlobalItem, MainItem
+
         if item.kind == Item.Main:
-            if int(self.current[GlobalItem.PhysicalMinimum].value) == 0 \
-                and int(self.current[GlobalItem.PhysicalMaximum].value) == 0 \
-                and int(self.changed[GlobalItem.PhysicalMinimum].value) \
-                == int(self.changed[GlobalItem.LogicalMinimum].value) \
-                and int(self.changed[GlobalItem.PhysicalMaximum].value) \
-                == int(self.changed[GlobalItem.LogicalMaximum].value):
-                self.pending = [x for x in self.pending
-                                if x.kind != Item.Global
-                                or x.tag not in (GlobalItem.PhysicalMinimum,
-                                                  GlobalItem.PhysicalMaximum)]
-            for i in self.pending:
-                self.stream.append(i)
-            self.pending = []
-            self.changed = dict(list(self.current.items()))
+            if item.tag in (MainItem.Input, MainItem.Output, MainItem.Feature):
+                self.physicalRewrite()
+            self.flush()
+            self.stream.append(item)
+
+        elif item.kind == Item.Global and item.tag in (GlobalItem.Push, GlobalItem.Pop):
+            self.flush()
+            if item.tag == GlobalItem.Push:
+                self.stack.append((dict(self.current), dict(self.emitted)))
+            elif self.stack:
+                self.current, self.emitted = self.stack.pop()
             self.stream.append(item)
+
         else:
             self.pending.append(item)
 
-            if item.kind == Item.Global \
-                   and item.tag in (GlobalItem.LogicalMinimum,
-                                    GlobalItem.LogicalMaximum,
-                                    GlobalItem.PhysicalMinimum,
-                                    GlobalItem.PhysicalMaximum):
-                self.changed[item.tag] = item
+            if item.kind == Item.Global and item.tag in self.current:
+                self.current[item.tag] = int(item.value)
 
     def close(self):
-        for i in self.pending:
-            self.stream.append(i)
+        self.flush()
         self.stream.close()
-- 
2.43.0


From b186555832516d57ab1c42f36c58af46a191c4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:03 +0000
Subject: [PATCH 04/33] fix: emit merged data items when closing the stream

When the stream ended right after data items being merged, MainMerge
emitted all their usages followed by separate main items, so that all
usages went to the first one.
---
 hrdc/stream/optimizer/main_merge.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/hrdc/stream/optimizer/main_merge.py b/hrdc/stream/optimizer/main_merge.py
index 602920c..6f018b1 100644
--- a/hrdc/stream/optimizer/main_merge.py
+++ b/hrdc/stream/optimizer/main_merge.py
@@ -81,10 +81,8 @@ class MainMerge(Optimizer):
         self.beforeCount = 0
 
     def close(self):
+        self.flush()
         for i in self.beforeMain:
             self.stream.append(i)
-        for i in self.mainItems:
-            self.stream.append(i)
-        for i in self.afterMain:
-            self.stream.append(i)
+        self.beforeMain = []
         self.stream.close()
-- 
2.43.0


From 8eca5d776ba41b38d86147f8cf1e4eed08721fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:52 +0000
Subject: [PATCH 05/33] fix: only merge data items whose fields keep their own
 local items

Merging arrays concatenated the usages of unrelated arrays, and merging
fields where only some have a usage, designator or string shifted these
to other fields.
---
 hrdc/stream/optimizer/main_merge.py | 31 ++++++++++++++++++++++++++++-
 1 file changed, 30 insertions(+), 1 deletion(-)

diff --git a/hrdc/stream/optimizer/main_merge.py b/hrdc/stream/optimizer/main_merge.py
index 6f018b1..b70d3ad 100644
--- a/hrdc/stream/optimizer/main_merge.py
+++ b/hrdc/stream/optimizer/main_merge.py
@@ -22,6 +22,8 @@ class MainMerge(Optimizer):
         self.afterMain = []
         self.beforeCount = 0
         self.afterCount = 0
+        self.beforeLocals = []
+        self.afterLocals = []
         
         self.props = {}
         
@@ -33,6 +35,7 @@ class MainMerge(Optimizer):
 
         if item.kind == Item.Local:
             self.afterMain.append(item)
+            self.afterLocals.append(item)
 
         elif item.kind == Item.Global:
             self.afterMain.append(item)
@@ -49,21 +52,46 @@ class MainMerge(Optimizer):
             if item.tag not in (MainItem.Input, MainItem.Output, MainItem.Feature):
                 self.afterMain.append(item)
                 self.flush()
+                self.afterLocals = []
                 return
 
-            if self.mainItems and item != self.mainItems[0]:
+            if self.mainItems and not self.mergeable(item):
                 self.flush()
 
             flush_after = self.afterCount != 1
 
             self.beforeMain += self.afterMain
             self.beforeCount += self.afterCount
+            self.beforeLocals += self.afterLocals
             self.afterMain = []
+            self.afterLocals = []
             self.mainItems.append(item)
 
             if flush_after:
                 self.flush()
 
+    def mergeable(self, item):
+        from ..item import LocalItem, DataItem
+
+        if item != self.mainItems[0]:
+            return False
+
+        # Slots of an array all share the same usages
+        if not int(item.value) & int(DataItem.Variable | DataItem.Constant):
+            return False
+
+        # Each field must still get its own usage, designator and
+        # string after merging.
+        for tag in (LocalItem.Usage, LocalItem.DesignatorIndex, LocalItem.StringIndex):
+            count = len([x for x in self.beforeLocals if x.tag == tag])
+            has_more = bool([x for x in self.afterLocals if x.tag == tag])
+            if bool(count) != has_more or (count and count != int(self.beforeCount)):
+                return False
+
+        # No range
+        return not [x for x in self.beforeLocals + self.afterLocals
+                    if x.tag not in (LocalItem.Usage, LocalItem.DesignatorIndex, LocalItem.StringIndex)]
+
     def flush(self, until = 0):
         from ..item import ReportCount, Item, MainItem, GlobalItem
 
@@ -79,6 +107,7 @@ class MainMerge(Optimizer):
         self.mainItems = []
         self.afterMain = []
         self.beforeCount = 0
+        self.beforeLocals = []
 
     def close(self):
         self.flush()
-- 
2.43.0


From e36c63ea0daa8957241cc0638e0686209dfea27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:15 +0000
Subject: [PATCH 06/33] fix: keep usages in their page when optimizing

Short usages (as parsed from any existing descriptor) were moved to usage
page 0, and usages from different pages were put in one main item, where
a host only takes the last declared page for all of them.
---
 hrdc/stream/optimizer/main_merge.py |  7 ++++
 hrdc/stream/optimizer/usage_page.py | 52 +++++++++++++++++++++++------
 2 files changed, 48 insertions(+), 11 deletions(-)

diff --git a/hrdc/stream/optimizer/main_merge.py b/hrdc/stream/optimizer/main_merge.py
index b70d3ad..c549a42 100644
--- a/hrdc/stream/optimizer/main_merge.py
+++ b/hrdc/stream/optimizer/main_merge.py
@@ -13,6 +13,7 @@ class MainMerge(Optimizer):
         GlobalItem.UnitExponent,
         GlobalItem.ReportSize,
         GlobalItem.ReportID,
+        GlobalItem.UsagePage,
         )
 
     def __init__(self, stream):
@@ -88,6 +89,12 @@ class MainMerge(Optimizer):
             if bool(count) != has_more or (count and count != int(self.beforeCount)):
                 return False
 
+        # Usage page is the same for all usages of a main item
+        pages = set(int(x.value) >> 16 for x in self.beforeLocals + self.afterLocals
+                    if x.tag == LocalItem.Usage)
+        if len(pages) > 1:
+            return False
+
         # No range
         return not [x for x in self.beforeLocals + self.afterLocals
                     if x.tag not in (LocalItem.Usage, LocalItem.DesignatorIndex, LocalItem.StringIndex)]
diff --git a/hrdc/stream/optimizer/usage_page.py b/hrdc/stream/optimizer/usage_page.py
index 5bceda4..e7483b1 100644
--- a/hrdc/stream/optimizer/usage_page.py
+++ b/hrdc/stream/optimizer/usage_page.py
@@ -5,27 +5,57 @@ class UsagePage(Optimizer):
 
     def __init__(self, stream):
         self.stream = stream
+        # Page for short usages in source stream
+        self.declared = 0
+        # Page in effect downstream
         self.page = None
+        self.stack = []
+        self.usages = []
 
-    def append(self, item):
-        from ..item import Item, GlobalItem, LocalItem, UsagePage, Usage
-        from ...util import NamedConstant
+    def flush(self):
+        from ..item import Item, LocalItem, UsagePage
         from ...usage import Usage
 
-        if item.kind == Item.Local and item.tag in (LocalItem.Usage, LocalItem.UsageMinimum, LocalItem.UsageMaximum):
+        # A main item has one usage page for all its short usages.
+        # Others are kept as 32-bit.
+        if [x for x in self.usages if not int(x.value) >> 16]:
+            page = Usage.page(self.declared)
+        elif self.usages:
+            page = Usage.lookup(self.usages[0].value).split()[0]
+
+        if self.usages and (self.page or 0) != int(page):
+            self.page = int(page)
+            self.stream.append(UsagePage(page))
+
+        for item in self.usages:
+            if int(item.value) >> 16 == self.page:
+                sp, su = Usage.lookup(item.value).split()
+                item = Item.itemclass(item.kind, item.tag)(su)
+            self.stream.append(item)
 
-            sp, su = Usage.lookup(item.value).split()
+        self.usages = []
 
-            if self.page is None or self.page != int(sp):
-                self.page = int(sp)
-                self.stream.append(UsagePage(sp))
+    def append(self, item):
+        from ..item import Item, GlobalItem, LocalItem
+
+        if item.kind == Item.Local and item.tag in (LocalItem.Usage, LocalItem.UsageMinimum, LocalItem.UsageMaximum):
+            self.usages.append(item)
+            return
 
-            item = Item.itemclass(item.kind, item.tag)(su)
+        if item.kind == Item.Main or (item.kind == Item.Local and item.tag == LocalItem.Delimiter):
+            self.flush()
 
         self.stream.append(item)
 
-        if item.kind == Item.Global and item.tag == GlobalItem.UsagePage:
-            self.page = int(item.value)
+        if item.kind == Item.Global:
+            if item.tag == GlobalItem.UsagePage:
+                self.declared = int(item.value)
+                self.page = int(item.value)
+            elif item.tag == GlobalItem.Push:
+                self.stack.append((self.declared, self.page))
+            elif item.tag == GlobalItem.Pop and self.stack:
+                self.declared, self.page = self.stack.pop()
 
     def close(self):
+        self.flush()
         self.stream.close()
-- 
2.43.0


From f20b085c194cf0fa36eac8f36b35be95626683e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:19 +0000
Subject: [PATCH 07/33] fix: honour Push and Pop in global and main merging

Global items were dropped, and data items merged, as if Pop left the
global state untouched.
---
 hrdc/stream/optimizer/global_merge.py | 15 +++++++++++----
 hrdc/stream/optimizer/main_merge.py   | 10 ++++++++++
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/hrdc/stream/optimizer/global_merge.py b/hrdc/stream/optimizer/global_merge.py
index 11db9de..5c437a7 100644
--- a/hrdc/stream/optimizer/global_merge.py
+++ b/hrdc/stream/optimizer/global_merge.py
@@ -10,6 +10,7 @@ class GlobalMerge(Optimizer):
 
         self.stream = stream
         self.locals = {}
+        self.stack = []
         self.globals = {
             GlobalItem.Unit: Unit(0),
             GlobalItem.UnitExponent: UnitExponent(0),
@@ -26,11 +27,17 @@ class GlobalMerge(Optimizer):
         from ..item import Item, GlobalItem
 
         if item.kind == Item.Global:
-            if self.globals.get(item.tag, None) != item \
-                   or item.tag == GlobalItem.Push \
-                   or item.tag == GlobalItem.Pop:
+            if item.tag == GlobalItem.Push:
+                self.stack.append(dict(self.globals))
                 self.stream.append(item)
-            self.globals[item.tag] = item
+            elif item.tag == GlobalItem.Pop:
+                if self.stack:
+                    self.globals = self.stack.pop()
+                self.stream.append(item)
+            else:
+                if self.globals.get(item.tag, None) != item:
+                    self.stream.append(item)
+                self.globals[item.tag] = item
 
         elif item.kind == Item.Local:
             self.stream.append(item)
diff --git a/hrdc/stream/optimizer/main_merge.py b/hrdc/stream/optimizer/main_merge.py
index c549a42..984630e 100644
--- a/hrdc/stream/optimizer/main_merge.py
+++ b/hrdc/stream/optimizer/main_merge.py
@@ -27,6 +27,7 @@ class MainMerge(Optimizer):
         self.afterLocals = []
         
         self.props = {}
+        self.stack = []
         
         for key in self.to_watch:
             self.props[key] = 0
@@ -49,6 +50,15 @@ class MainMerge(Optimizer):
             if item.tag == GlobalItem.ReportCount:
                 self.afterCount = item.value
 
+            elif item.tag == GlobalItem.Push:
+                self.stack.append((dict(self.props), self.afterCount))
+                self.flush()
+
+            elif item.tag == GlobalItem.Pop:
+                if self.stack:
+                    self.props, self.afterCount = self.stack.pop()
+                self.flush()
+
         else:
             if item.tag not in (MainItem.Input, MainItem.Output, MainItem.Feature):
                 self.afterMain.append(item)
-- 
2.43.0


From 73642ec2cceb18a824e62084f5c15444201ee3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:00 +0000
Subject: [PATCH 08/33] fix: look at all designators of a main item before
 dropping one

Designators of a main item separated by a global item were considered
separately, and locals pending at end of stream were lost.
---
 hrdc/stream/optimizer/designator_uniq.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/hrdc/stream/optimizer/designator_uniq.py b/hrdc/stream/optimizer/designator_uniq.py
index 8d9ba00..50d31bb 100644
--- a/hrdc/stream/optimizer/designator_uniq.py
+++ b/hrdc/stream/optimizer/designator_uniq.py
@@ -11,7 +11,16 @@ class DesignatorUniq(Optimizer):
         self.pending = []
         self.designatorToFilter = None
 
+    def flush(self):
+        if self.designatorToFilter:
+            self.pending = [x for x in self.pending if x is not self.designatorToFilter]
+        for i in self.pending:
+            self.stream.append(i)
+        self.pending = []
+        self.designatorToFilter = None
+
     def close(self):
+        self.flush()
         self.stream.close()
         
     def append(self, item):
@@ -26,11 +35,5 @@ class DesignatorUniq(Optimizer):
                     self.designatorToFilter = item
                 else:
                     self.designatorToFilter = False
-        else:
-            if self.designatorToFilter:
-                self.pending = [x for x in self.pending if x is not self.designatorToFilter]
-            for i in self.pending:
-                self.stream.append(i)
-            self.pending = []
-            self.designatorToFilter = None
-            
+        elif item.kind == Item.Main:
+            self.flush()
-- 
2.43.0


From b9aed906929369ae8bdab350ac75390f6f702031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:15:00 +0000
Subject: [PATCH 09/33] fix: keep delimited usages in place, and ranges within
 a usage page

---
 hrdc/stream/optimizer/range_merge.py |  5 +++--
 hrdc/stream/optimizer/usage_page.py  | 24 +++++++++++++-----------
 2 files changed, 16 insertions(+), 13 deletions(-)

diff --git a/hrdc/stream/optimizer/range_merge.py b/hrdc/stream/optimizer/range_merge.py
index 303ea57..9acf72c 100644
--- a/hrdc/stream/optimizer/range_merge.py
+++ b/hrdc/stream/optimizer/range_merge.py
@@ -45,14 +45,15 @@ class RangeMerge(Optimizer):
         from ..item import Item, LocalItem
 
         if self.merging and item.kind == Item.Local:
-            if item.tag in (self.min, self.max):
+            if item.tag in (self.min, self.max, LocalItem.Delimiter):
                 self.merging = False
                 
             elif item.tag == self.lookup:
                 if self.maxValue is None:
                     self.maxValue = item.value
                     self.minValue = item.value
-                elif int(item.value) == int(self.maxValue) + 1:
+                elif int(item.value) == int(self.maxValue) + 1 \
+                     and int(item.value) & 0xffff:
                     self.maxValue = item.value
                 else:
                     self.merging = False
diff --git a/hrdc/stream/optimizer/usage_page.py b/hrdc/stream/optimizer/usage_page.py
index e7483b1..c93d99c 100644
--- a/hrdc/stream/optimizer/usage_page.py
+++ b/hrdc/stream/optimizer/usage_page.py
@@ -10,39 +10,41 @@ class UsagePage(Optimizer):
         # Page in effect downstream
         self.page = None
         self.stack = []
-        self.usages = []
+        self.pending = []
 
     def flush(self):
         from ..item import Item, LocalItem, UsagePage
         from ...usage import Usage
 
+        usages = [x for x in self.pending if x.tag != LocalItem.Delimiter]
+
         # A main item has one usage page for all its short usages.
         # Others are kept as 32-bit.
-        if [x for x in self.usages if not int(x.value) >> 16]:
+        if [x for x in usages if not int(x.value) >> 16]:
             page = Usage.page(self.declared)
-        elif self.usages:
-            page = Usage.lookup(self.usages[0].value).split()[0]
+        elif usages:
+            page = Usage.lookup(usages[0].value).split()[0]
 
-        if self.usages and (self.page or 0) != int(page):
+        if usages and (self.page or 0) != int(page):
             self.page = int(page)
             self.stream.append(UsagePage(page))
 
-        for item in self.usages:
-            if int(item.value) >> 16 == self.page:
+        for item in self.pending:
+            if item.tag != LocalItem.Delimiter and int(item.value) >> 16 == self.page:
                 sp, su = Usage.lookup(item.value).split()
                 item = Item.itemclass(item.kind, item.tag)(su)
             self.stream.append(item)
 
-        self.usages = []
+        self.pending = []
 
     def append(self, item):
         from ..item import Item, GlobalItem, LocalItem
 
-        if item.kind == Item.Local and item.tag in (LocalItem.Usage, LocalItem.UsageMinimum, LocalItem.UsageMaximum):
-            self.usages.append(item)
+        if item.kind == Item.Local and item.tag in (LocalItem.Usage, LocalItem.UsageMinimum, LocalItem.UsageMaximum, LocalItem.Delimiter):
+            self.pending.append(item)
             return
 
-        if item.kind == Item.Main or (item.kind == Item.Local and item.tag == LocalItem.Delimiter):
+        if item.kind == Item.Main:
             self.flush()
 
         self.stream.append(item)
-- 
2.43.0


From 6c4304e874068ac2e1319925fbd530fa7f543449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:41 +0000
Subject: [PATCH 10/33] fix: use binary streams for named files too when format
 is binary

---
 hrdc/stream/formatter/binary.py | 8 +++-----
 hrdc/stream/parser/binary.py    | 9 +++------
 2 files changed, 6 insertions(+), 11 deletions(-)

diff --git a/hrdc/stream/formatter/binary.py b/hrdc/stream/formatter/binary.py
index 62f1399..b59fbd1 100644
--- a/hrdc/stream/formatter/binary.py
+++ b/hrdc/stream/formatter/binary.py
@@ -2,11 +2,9 @@ from .base import Formatter
 
 class Binary(Formatter):
     def __init__(self, output):
-        import sys
-        if output == sys.stdout and hasattr(output, "buffer"):
-            self.output = output.buffer
-        else:
-            self.output = output
+        # Text streams (stdout, files opened by argparse) carry their
+        # binary counterpart
+        self.output = getattr(output, "buffer", output)
 
     def append(self, i):
         self.output.write(i.bytes())
diff --git a/hrdc/stream/parser/binary.py b/hrdc/stream/parser/binary.py
index ccfa24e..54d8bd3 100644
--- a/hrdc/stream/parser/binary.py
+++ b/hrdc/stream/parser/binary.py
@@ -2,12 +2,9 @@ from .base import Parser
 
 class Binary(Parser):
     def __init__(self, input, output):
-        import sys
-
-        if input == sys.stdin and hasattr(input, "buffer"):
-            input = input.buffer
-
-        Parser.__init__(self, input, output)
+        # Text streams (stdin, files opened by argparse) carry their
+        # binary counterpart
+        Parser.__init__(self, getattr(input, "buffer", input), output)
 
     def read(self, *args):
         blob = self.input.read(*args)
-- 
2.43.0


From d44ef38a245dba50c89ad0f651f1b474b0c1ce9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:41 +0000
Subject: [PATCH 11/33] fix: write whole items to unbuffered binary outputs

---
 hrdc/stream/formatter/binary.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/hrdc/stream/formatter/binary.py b/hrdc/stream/formatter/binary.py
index b59fbd1..7350fc6 100644
--- a/hrdc/stream/formatter/binary.py
+++ b/hrdc/stream/formatter/binary.py
@@ -7,7 +7,13 @@ class Binary(Formatter):
         self.output = getattr(output, "buffer", output)
 
     def append(self, i):
-        self.output.write(i.bytes())
+        blob = i.bytes()
+        while blob:
+            # Unbuffered streams may accept only a part of the data
+            written = self.output.write(blob)
+            if written is None:
+                break
+            blob = blob[written:]
 
     def close(self):
         pass
-- 
2.43.0


From a9586dacbc5a2ebcaaaf0c7bd2ef478c5c6998e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:41 +0000
Subject: [PATCH 12/33] fix: report errors flushing output before exiting
 successfully

---
 hrdc/converter.py            | 1 +
 hrdc/descriptor/compiler.py  | 1 +
 hrdc/descriptor/extractor.py | 1 +
 3 files changed, 3 insertions(+)

diff --git a/hrdc/converter.py b/hrdc/converter.py
index 758f37b..4c2ad36 100644
--- a/hrdc/converter.py
+++ b/hrdc/converter.py
@@ -34,6 +34,7 @@ def _main():
 
     p = _parser(args.input, stream)
     p.read()
+    args.output.flush()
 
 if __name__ == '__main__':
     _main()
diff --git a/hrdc/descriptor/compiler.py b/hrdc/descriptor/compiler.py
index 4713f76..24d514a 100644
--- a/hrdc/descriptor/compiler.py
+++ b/hrdc/descriptor/compiler.py
@@ -32,3 +32,4 @@ def compile_main(desc):
     visitor = streamer.Streamer(output)
     desc.accept(visitor)
     output.close()
+    args.output.flush()
diff --git a/hrdc/descriptor/extractor.py b/hrdc/descriptor/extractor.py
index 792b45f..93092aa 100644
--- a/hrdc/descriptor/extractor.py
+++ b/hrdc/descriptor/extractor.py
@@ -290,6 +290,7 @@ def main():
 
     from .dumper import Dumper
     extractor.root.accept(Dumper(args.output))
+    args.output.flush()
 
 
 if __name__ == "__main__":
-- 
2.43.0


From 20f36cfab53c74aff935ad6252eebe6bbaa0eaa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:41 +0000
Subject: [PATCH 13/33] fix: refuse to decompile a descriptor ending inside a
 collection

---
 hrdc/descriptor/extractor.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hrdc/descriptor/extractor.py b/hrdc/descriptor/extractor.py
index 93092aa..95066ca 100644
--- a/hrdc/descriptor/extractor.py
+++ b/hrdc/descriptor/extractor.py
@@ -64,6 +64,10 @@ class Extractor(Stream):
             print("designators", self.designators)
             raise
 
+    def close(self):
+        if self.stack or self.inNamedArrayCollection:
+            raise ValueError("Descriptor ends inside a collection")
+
     def _append(self, i):
         if i.kind == item.Item.Global:
             self.globals[int(i.tag)] = i.value
-- 
2.43.0


From 98943f24e246096bc54bca1c6d6fdeaf4d37bbd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:23:41 +0000
Subject: [PATCH 14/33] fix: let interruptions through usage lookups

---
 hrdc/usage/usage.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hrdc/usage/usage.py b/hrdc/usage/usage.py
index 2211ad2..2759c1d 100644
--- a/hrdc/usage/usage.py
+++ b/hrdc/usage/usage.py
@@ -51,7 +51,7 @@ class Usage(_util.NamedConstant):
         if int(value) >> 16:
             try:
                 return cls.reverse[int(value)]
-            except:
+            except KeyError:
                 pass
         return cls(hex(int(value)), int(value), register = False)
 
@@ -62,7 +62,7 @@ class Usage(_util.NamedConstant):
                 _util.NamedConstant(p, self.value >> 16),
                 _util.NamedConstant(u, self.value & 0xffff),
                 )
-        except:
+        except ValueError:
             u = int(self.value) & 0xffff
             return self.page(int(self.value) >> 16), _util.NamedConstant(str(u), u)
 
-- 
2.43.0


From d3c6021bc2930d794d1f7bfd65d6b92174c4a9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:24 +0000
Subject: [PATCH 15/33] fix: keep diagnostics out of decompiled sources

---
 hrdc/descriptor/extractor.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/hrdc/descriptor/extractor.py b/hrdc/descriptor/extractor.py
index 95066ca..35a5a0e 100644
--- a/hrdc/descriptor/extractor.py
+++ b/hrdc/descriptor/extractor.py
@@ -214,8 +214,7 @@ class Extractor(Stream):
             uArray = list(map(self.usage, list(range(len(self.usages)))))
             try:
                 uArray = usage.UsageRange.from_array(uArray)
-            except ValueError as e:
-                print(e)
+            except ValueError:
                 pass
             for no in range(self.globalValue(item.GlobalItem.ReportCount)):
                 self.addValue(
-- 
2.43.0


From 05a7318a8bfb88e4e948f664c821006aeae40398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:31 +0000
Subject: [PATCH 16/33] fix: recognise comment marks inside the other kind of
 comment

---
 hrdc/stream/parser/code.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/hrdc/stream/parser/code.py b/hrdc/stream/parser/code.py
index 20105bf..667c6d7 100644
--- a/hrdc/stream/parser/code.py
+++ b/hrdc/stream/parser/code.py
@@ -3,10 +3,8 @@ import re
 
 class Code(Parser):
     def read(self, *args):
-        contents = ""
-        for line in self.input.read(*args).split("\n"):
-            contents += line.split("//", 1)[0] + " "
-        contents = re.sub(r"/\*.*?\*/", "", contents)
+        # Comments of either kind may contain the marks of the other one
+        contents = re.sub(r"//[^\n]*|/\*.*?\*/", "", self.input.read(*args), flags = re.DOTALL)
         contents = re.sub(r"\s+", "", contents)
         blob = bytes(int(x, 16) for x in contents.split(",") if x)
         self.blobParse(blob)
-- 
2.43.0


From 8f9ec2ac00c0b8ec566288d7f5d486c5ddbb90aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:55:59 +0000
Subject: [PATCH 17/33] fix: name usages and units as the attributes they are
 found under

Decompiled sources refer to them by that name and did not run.
---
 hrdc/stream/item.py      | 2 +-
 hrdc/usage/desktop.py    | 6 +++---
 hrdc/usage/simulation.py | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/hrdc/stream/item.py b/hrdc/stream/item.py
index 5a5ad36..dff0547 100644
--- a/hrdc/stream/item.py
+++ b/hrdc/stream/item.py
@@ -295,7 +295,7 @@ class Unit(GlobalItem):
     Fahrenheit = NamedConstant("Fahrenheit", EnglishLinear | temperature(1))
     Ampere = NamedConstant("Ampere", current(1))
     Candela = NamedConstant("Candela", luminousintensity(1))
-    CmPerSec = NamedConstant("Velocity", SILinear | time(-1) | length(1))
+    CmPerSec = NamedConstant("CmPerSec", SILinear | time(-1) | length(1))
     Momentum = NamedConstant("Momentum", SILinear | time(-1) | length(1) | mass(1))
     G = NamedConstant("G", SILinear | time(-2) | length(1))
     Newton = NamedConstant("Newton", SILinear | time(-2) | length(1) | mass(1))
diff --git a/hrdc/usage/desktop.py b/hrdc/usage/desktop.py
index 8798e7b..698e598 100644
--- a/hrdc/usage/desktop.py
+++ b/hrdc/usage/desktop.py
@@ -7,7 +7,7 @@ Gamepad = Usage("desktop.Gamepad", 0x10005, CA)
 Keyboard = Usage("desktop.Keyboard", 0x10006, CA)
 Keypad = Usage("desktop.Keypad", 0x10007, CA)
 MultiAxisCtrl = Usage("desktop.MultiAxisCtrl", 0x10008, CA)
-TabletPCSystem = Usage("desktop.TabletPcSystem", 0x10009, CA)
+TabletPCSystem = Usage("desktop.TabletPCSystem", 0x10009, CA)
 
 # HUTRR51
 PortableDeviceControl = Usage("desktop.PortableDeviceControl", 0x1000d, CA)
@@ -25,8 +25,8 @@ HatSwitch = Usage("desktop.HatSwitch", 0x10039, DV)
 CountedBuffer = Usage("desktop.CountedBuffer", 0x1003A, CL)
 ByteCount = Usage("desktop.ByteCount", 0x1003B, DV)
 MotionWakeup = Usage("desktop.MotionWakeup", 0x1003C, OSC)
-Start = Usage("desktop.start", 0x1003D, OOC)
-Select = Usage("desktop.select", 0x1003E, OOC)
+Start = Usage("desktop.Start", 0x1003D, OOC)
+Select = Usage("desktop.Select", 0x1003E, OOC)
 Vx = Usage("desktop.Vx", 0x10040, DV)
 Vy = Usage("desktop.Vy", 0x10041, DV)
 Vz = Usage("desktop.Vz", 0x10042, DV)
diff --git a/hrdc/usage/simulation.py b/hrdc/usage/simulation.py
index 6595585..4146b65 100644
--- a/hrdc/usage/simulation.py
+++ b/hrdc/usage/simulation.py
@@ -20,7 +20,7 @@ FlightYoke = Usage("simulation.FlightYoke", 0x20024, CA)
 TrackControl = Usage("simulation.TrackControl", 0x20025, CP)
 Aileron = Usage("simulation.Aileron", 0x200B0, DV)
 AileronTrim = Usage("simulation.AileronTrim", 0x200B1, DV)
-AntiTorqueControl = Usage("simulation.TorqueControl", 0x200B2, DV)
+AntiTorqueControl = Usage("simulation.AntiTorqueControl", 0x200B2, DV)
 AutopilotEnable = Usage("simulation.AutopilotEnable", 0x200B3, OOC)
 ChaffRelease = Usage("simulation.ChaffRelease", 0x200B4, OSC)
 CollectiveControl = Usage("simulation.CollectiveControl", 0x200B5, DV)
-- 
2.43.0


From c1773fd2d5259390ff36e973b37de3979c0b753c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:01 +0000
Subject: [PATCH 18/33] fix: keep the bit position of unaligned values when
 decompiling

---
 hrdc/descriptor/extractor.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/hrdc/descriptor/extractor.py b/hrdc/descriptor/extractor.py
index 35a5a0e..4b1c29f 100644
--- a/hrdc/descriptor/extractor.py
+++ b/hrdc/descriptor/extractor.py
@@ -14,6 +14,7 @@ class Extractor(Stream):
         self.stack = []
         self.currentLevel = TopLevel()
         self.inNamedArrayCollection = False
+        self.reportSizes = {}
 
     def localsClear(self):
         self.usages = []
@@ -132,7 +133,16 @@ class Extractor(Stream):
             level.__report_ids |= child.__report_ids
 
     def addValue(self, v):
-        v.__report_ids = set([int(self.globalValue(item.GlobalItem.ReportID))])
+        report_id = int(self.globalValue(item.GlobalItem.ReportID))
+        v.__report_ids = set([report_id])
+
+        # Values that are not where automatic alignment would put them
+        # have to say so
+        offset = self.reportSizes.get((int(v.way), report_id), 0)
+        if v.alignment > 1 and offset % v.alignment:
+            v.alignment = 1
+        self.reportSizes[int(v.way), report_id] = offset + int(v.size) * int(v.count)
+
         self.currentLevel.append(v)
 
     def ended(self, root):
-- 
2.43.0


From 73a99de9e84a8336697ecec1642f7ebe8042dec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:03 +0000
Subject: [PATCH 19/33] fix: keep empty collections when decompiling

---
 hrdc/descriptor/extractor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrdc/descriptor/extractor.py b/hrdc/descriptor/extractor.py
index 4b1c29f..28967bc 100644
--- a/hrdc/descriptor/extractor.py
+++ b/hrdc/descriptor/extractor.py
@@ -123,7 +123,7 @@ class Extractor(Stream):
 
     def leave(self, level = None):
         self.currentLevel = self.stack.pop()
-        if level:
+        if level is not None:
             self.reportIdMerge(level)
             self.currentLevel.append(level)
 
-- 
2.43.0


From 365aeea657f13836a7d1fbee68f9db6e9ffa0c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:04 +0000
Subject: [PATCH 20/33] fix: keep all usages of buffered bytes values when
 decompiling

---
 hrdc/descriptor/extractor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hrdc/descriptor/extractor.py b/hrdc/descriptor/extractor.py
index 28967bc..c67d24f 100644
--- a/hrdc/descriptor/extractor.py
+++ b/hrdc/descriptor/extractor.py
@@ -237,7 +237,8 @@ class Extractor(Stream):
                           )
                     )
 
-        elif i.value & item.DataItem.BufferedBytes:
+        elif (i.value & item.DataItem.BufferedBytes
+              and max(len(self.usages), len(self.designators), len(self.strings)) <= 1):
 
             ue = self.globalValue(item.GlobalItem.UnitExponent)
             self.addValue(
-- 
2.43.0


From ec3992bc3ee4524a44309bef75d85233d7cfe9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:06 +0000
Subject: [PATCH 21/33] fix: write vendor collection kinds as numbers in
 decompiled sources

---
 hrdc/descriptor/dumper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hrdc/descriptor/dumper.py b/hrdc/descriptor/dumper.py
index 944f729..d48d679 100644
--- a/hrdc/descriptor/dumper.py
+++ b/hrdc/descriptor/dumper.py
@@ -35,7 +35,8 @@ descriptor = """)
 
             self.__indent += 1
         elif isinstance(e, descriptor.Collection):
-            self.write(self.indent() + "Collection(Collection.%s, %s,\n" % (e.kind, Usage.lookup(e.usage) if e.usage is not None else None))
+            kind = "Collection.%s" % e.kind if isinstance(e.kind, NamedConstant) else "%d" % e.kind
+            self.write(self.indent() + "Collection(%s, %s,\n" % (kind, Usage.lookup(e.usage) if e.usage is not None else None))
             
             self.__indent += 1
 
-- 
2.43.0


From e439810ec88e76e5cb1707ad150939d97b85610e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:08 +0000
Subject: [PATCH 22/33] fix: do not take a collection that already has members
 for a named array

---
 hrdc/descriptor/extractor.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hrdc/descriptor/extractor.py b/hrdc/descriptor/extractor.py
index c67d24f..40445f4 100644
--- a/hrdc/descriptor/extractor.py
+++ b/hrdc/descriptor/extractor.py
@@ -185,6 +185,7 @@ class Extractor(Stream):
                                           * self.globalValue(item.GlobalItem.ReportCount)))
 
         elif (self.globalValue(item.GlobalItem.ReportCount) == 1
+              and len(self.currentLevel) == 0
               and len(self.usages) == (self.globalValue(item.GlobalItem.LogicalMaximum)
                                        - self.globalValue(item.GlobalItem.LogicalMinimum) + 1)
               and ((i.value == item.DataItem.Variable
-- 
2.43.0


From 1391a5b4b0b65d7186ebb24f3c1f48f0c0130273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:09 +0000
Subject: [PATCH 23/33] fix: follow Push and Pop when decompiling

---
 hrdc/descriptor/extractor.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/hrdc/descriptor/extractor.py b/hrdc/descriptor/extractor.py
index 40445f4..263f22f 100644
--- a/hrdc/descriptor/extractor.py
+++ b/hrdc/descriptor/extractor.py
@@ -10,6 +10,7 @@ class Extractor(Stream):
         for kind, tag in item.Item.registry.keys():
             if kind == item.Item.Global:
                 self.globals[int(tag)] = 0
+        self.globalStack = []
         self.localsClear()
         self.stack = []
         self.currentLevel = TopLevel()
@@ -71,7 +72,12 @@ class Extractor(Stream):
 
     def _append(self, i):
         if i.kind == item.Item.Global:
-            self.globals[int(i.tag)] = i.value
+            if i.tag == item.GlobalItem.Push:
+                self.globalStack.append(dict(self.globals))
+            elif i.tag == item.GlobalItem.Pop:
+                self.globals = self.globalStack.pop()
+            else:
+                self.globals[int(i.tag)] = i.value
 
         elif i.kind == item.Item.Local:
             if i.tag == item.LocalItem.Usage:
-- 
2.43.0


From 2089dfc2403693418a56249ce216665af2a30e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:11 +0000
Subject: [PATCH 24/33] fix: keep single usages and ranges of one scope
 together when decompiling

---
 hrdc/descriptor/extractor.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hrdc/descriptor/extractor.py b/hrdc/descriptor/extractor.py
index 263f22f..4716593 100644
--- a/hrdc/descriptor/extractor.py
+++ b/hrdc/descriptor/extractor.py
@@ -92,17 +92,18 @@ class Extractor(Stream):
             else:
                 self.locals[int(i.tag)] = i.value
 
-        elif i.kind == item.Item.Main:
             # Expand ranges
             for min, max, target in [
                 (item.LocalItem.UsageMinimum, item.LocalItem.UsageMaximum, self.usages),
                 (item.LocalItem.DesignatorMinimum, item.LocalItem.DesignatorMaximum, self.designators),
                 (item.LocalItem.StringMinimum, item.LocalItem.StringMaximum, self.strings),
                 ]:
-                if self.locals[int(min)] is not None and self.locals[int(max)] is not None and not target:
+                if self.locals[int(min)] is not None and self.locals[int(max)] is not None:
                     for val in range(int(self.locals[int(min)]), int(self.locals[int(max)] + 1)):
                         target.append(val)
+                    self.locals[int(min)] = self.locals[int(max)] = None
 
+        elif i.kind == item.Item.Main:
             if i.tag == item.MainItem.Collection:
                 self.enter(i.value, self.usage())
 
-- 
2.43.0


From 3a18a285d207be2b9005170f403efca4b98e8a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:44 +0000
Subject: [PATCH 25/33] fix: give desktop.SystemDisplayRotationLockButton its
 usage value

---
 hrdc/usage/desktop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrdc/usage/desktop.py b/hrdc/usage/desktop.py
index 698e598..3827d46 100644
--- a/hrdc/usage/desktop.py
+++ b/hrdc/usage/desktop.py
@@ -81,7 +81,7 @@ WirelessRadioLed = Usage("desktop.WirelessRadioLed", 0x100c7, OOC)
 WirelessRadioSliderSwitch = Usage("desktop.WirelessRadioSliderSwitch", 0x100c8, OOC)
 
 # HUTRR52
-SystemDisplayRotationLockButton = Usage("desktop.SystemDisplayRotationLockButton", 0x1000C9, OOC)
+SystemDisplayRotationLockButton = Usage("desktop.SystemDisplayRotationLockButton", 0x100C9, OOC)
 SystemDisplayRotationLockSliderSwitch = Usage("desktop.SystemDisplayRotationLockSliderSwitch", 0x100CA, OOC)
 
 # HUTRR50
-- 
2.43.0


From ba5fbb09f7599a9f560a7d5ac80f5af2f727b46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:44 +0000
Subject: [PATCH 26/33] fix: name lighting.MinUpdateIntervalInMicroseconds
 without a space

---
 hrdc/usage/lighting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hrdc/usage/lighting.py b/hrdc/usage/lighting.py
index 0a0b05c..4229d8b 100644
--- a/hrdc/usage/lighting.py
+++ b/hrdc/usage/lighting.py
@@ -9,7 +9,7 @@ BoundingBoxWidthInMicrometers = Usage("lighting.BoundingBoxWidthInMicrometers",
 BoundingBoxHeightInMicrometers = Usage("lighting.BoundingBoxHeightInMicrometers", 0x590005, SV)
 BoundingBoxDepthInMicrometers = Usage("lighting.BoundingBoxDepthInMicrometers", 0x590006, SV)
 LampArrayKind = Usage("lighting.LampArrayKind", 0x590007, SV)
-MinUpdateIntervalInMicroseconds = Usage("lighting. MinUpdateIntervalInMicroseconds", 0x590008, SV)
+MinUpdateIntervalInMicroseconds = Usage("lighting.MinUpdateIntervalInMicroseconds", 0x590008, SV)
 LampAttributesRequestReport = Usage("lighting.LampAttributesRequestReport", 0x590020, CL)
 LampId = Usage("lighting.LampId", 0x590021, SV)
 LampAttributesResponseReport = Usage("lighting.LampAttributesResponseReport", 0x590022, CL)
-- 
2.43.0


From 634cdedc12955d635d6c85c68541611f52c10346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:01:44 +0000
Subject: [PATCH 27/33] fix: let comments of the expected code contain comment
 marks

---
 hrdc/stream/comparer.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/hrdc/stream/comparer.py b/hrdc/stream/comparer.py
index f7a66f9..567fb93 100644
--- a/hrdc/stream/comparer.py
+++ b/hrdc/stream/comparer.py
@@ -7,10 +7,8 @@ class ExpectedStream(stream.Stream):
     def __init__(self, test_case, expected_code):
         self.test_case = test_case
 
-        contents = ""
-        for line in expected_code.split("\n"):
-            contents += line.split("//", 1)[0] + " "
-        contents = re.sub(r"/\*.*?\*/", "", contents)
+        # Comments of either kind may contain the marks of the other one
+        contents = re.sub(r"//[^\n]*|/\*.*?\*/", "", expected_code, flags = re.DOTALL)
         contents = re.sub(r"\s+", "", contents)
         self.expected = bytes(int(x, 16) for x in contents.split(",") if x)
         self.point = 0
-- 
2.43.0


From 32671e103cb062ae307c35b7e0cbdfaa12d7b159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:38 +0000
Subject: [PATCH 28/33] fix: follow Push and Pop when naming usages while
 parsing

---
 hrdc/stream/parser/base.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/hrdc/stream/parser/base.py b/hrdc/stream/parser/base.py
index 7411b9d..2eddeb7 100644
--- a/hrdc/stream/parser/base.py
+++ b/hrdc/stream/parser/base.py
@@ -21,6 +21,7 @@ class Parser(Stream, metaclass = _ParserMeta):
         self.input = input
         self.output = output
         self.usagePage = 0
+        self.usagePageStack = []
 
     def blobParse(self, blob):
         while blob:
@@ -40,6 +41,12 @@ class Parser(Stream, metaclass = _ParserMeta):
             self.usagePage = int(i.value)
             i = item.UsagePage(usage.Usage.page(i.value))
 
+        if i.kind == item.Item.Global and i.tag == item.GlobalItem.Push:
+            self.usagePageStack.append(self.usagePage)
+
+        if i.kind == item.Item.Global and i.tag == item.GlobalItem.Pop and self.usagePageStack:
+            self.usagePage = self.usagePageStack.pop()
+
         if i.kind == item.Item.Local \
                and i.tag in (item.LocalItem.Usage, item.LocalItem.UsageMinimum, item.LocalItem.UsageMaximum) \
                and (int(i.value) >> 16) == 0:
-- 
2.43.0


From 72c0982fc6bafa0b7d195dd2612ece930d92d9a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:58 +0000
Subject: [PATCH 29/33] fix: do not take a non-blocking input without data for
 an empty descriptor

---
 hrdc/stream/parser/binary.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hrdc/stream/parser/binary.py b/hrdc/stream/parser/binary.py
index 54d8bd3..4044aca 100644
--- a/hrdc/stream/parser/binary.py
+++ b/hrdc/stream/parser/binary.py
@@ -8,5 +8,7 @@ class Binary(Parser):
 
     def read(self, *args):
         blob = self.input.read(*args)
+        if blob is None:
+            raise BlockingIOError("No data available from non-blocking input")
         self.blobParse(blob)
             
-- 
2.43.0


From d2b061fee541d762d1dafe573abc5ea2c44e4209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:07:58 +0000
Subject: [PATCH 30/33] fix: do not lose items on a non-blocking output that
 accepts no data

---
 hrdc/stream/formatter/binary.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hrdc/stream/formatter/binary.py b/hrdc/stream/formatter/binary.py
index 7350fc6..5d01aff 100644
--- a/hrdc/stream/formatter/binary.py
+++ b/hrdc/stream/formatter/binary.py
@@ -1,3 +1,4 @@
+import io
 from .base import Formatter
 
 class Binary(Formatter):
@@ -12,6 +13,8 @@ class Binary(Formatter):
             # Unbuffered streams may accept only a part of the data
             written = self.output.write(blob)
             if written is None:
+                if isinstance(self.output, io.RawIOBase):
+                    raise BlockingIOError("Non-blocking output accepts no data")
                 break
             blob = blob[written:]
 
-- 
2.43.0


From efde5beaa5569f5f3f078741f466f97391e236a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:38 +0000
Subject: [PATCH 31/33] fix: notice write errors that only closing the output
 reveals

---
 hrdc/converter.py            | 3 +++
 hrdc/descriptor/compiler.py  | 3 +++
 hrdc/descriptor/extractor.py | 3 +++
 3 files changed, 9 insertions(+)

diff --git a/hrdc/converter.py b/hrdc/converter.py
index 4c2ad36..892e1ec 100644
--- a/hrdc/converter.py
+++ b/hrdc/converter.py
@@ -35,6 +35,9 @@ def _main():
     p = _parser(args.input, stream)
     p.read()
     args.output.flush()
+    if args.output is not sys.stdout:
+        # Some file systems only tell about failed writes now
+        args.output.close()
 
 if __name__ == '__main__':
     _main()
diff --git a/hrdc/descriptor/compiler.py b/hrdc/descriptor/compiler.py
index 24d514a..c172b75 100644
--- a/hrdc/descriptor/compiler.py
+++ b/hrdc/descriptor/compiler.py
@@ -33,3 +33,6 @@ def compile_main(desc):
     desc.accept(visitor)
     output.close()
     args.output.flush()
+    if args.output is not sys.stdout:
+        # Some file systems only tell about failed writes now
+        args.output.close()
diff --git a/hrdc/descriptor/extractor.py b/hrdc/descriptor/extractor.py
index 4716593..d77eb08 100644
--- a/hrdc/descriptor/extractor.py
+++ b/hrdc/descriptor/extractor.py
@@ -313,6 +313,9 @@ def main():
     from .dumper import Dumper
     extractor.root.accept(Dumper(args.output))
     args.output.flush()
+    if args.output is not sys.stdout:
+        # Some file systems only tell about failed writes now
+        args.output.close()
 
 
 if __name__ == "__main__":
-- 
2.43.0


From dc379d28c4ea2a5521afb67960e4e552e71f5e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:06 +0000
Subject: [PATCH 32/33] fix: keep diagnostics of a failing decompilation out of
 its output

---
 hrdc/descriptor/extractor.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/hrdc/descriptor/extractor.py b/hrdc/descriptor/extractor.py
index d77eb08..80f09b9 100644
--- a/hrdc/descriptor/extractor.py
+++ b/hrdc/descriptor/extractor.py
@@ -3,6 +3,7 @@ from ..stream import item
 from .. import usage
 from .descriptor import *
 from .descriptor import Hierarchical
+import sys
 
 class Extractor(Stream):
     def __init__(self):
@@ -58,12 +59,12 @@ class Extractor(Stream):
         try:
             self._append(i)
         except Exception as e:
-            print("Exception while appending item", i)
-            print("globals", self.globals)
-            print("locals", self.locals)
-            print("usages", self.usages)
-            print("strings", self.strings)
-            print("designators", self.designators)
+            print("Exception while appending item", i, file = sys.stderr)
+            print("globals", self.globals, file = sys.stderr)
+            print("locals", self.locals, file = sys.stderr)
+            print("usages", self.usages, file = sys.stderr)
+            print("strings", self.strings, file = sys.stderr)
+            print("designators", self.designators, file = sys.stderr)
             raise
 
     def close(self):
@@ -284,7 +285,6 @@ class Extractor(Stream):
                     )
 
 def main():
-    import sys
     import argparse
     from ..stream import parser
 
-- 
2.43.0


From aa6eb670cb6e35bf316bafc7ae070072fd453af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:16 +0000
Subject: [PATCH 33/33] fix: refuse payloads of EndCollection, Push and Pop
 with assertions disabled too

---
 hrdc/stream/item.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/hrdc/stream/item.py b/hrdc/stream/item.py
index dff0547..319d723 100644
--- a/hrdc/stream/item.py
+++ b/hrdc/stream/item.py
@@ -226,7 +226,8 @@ class EndCollection(MainItem):
     tag = MainItem.EndCollection
 
     def __init__(self, val = 0):
-        assert val == 0
+        if val != 0:
+            raise ValueError("Unexpected value for %s: %d" % (self.__class__.__name__, val))
         MainItem.__init__(self, 0)
 
 class UsagePage(GlobalItem):
@@ -348,14 +349,16 @@ class Push(GlobalItem):
     tag = GlobalItem.Push
 
     def __init__(self, val = 0):
-        assert val == 0
+        if val != 0:
+            raise ValueError("Unexpected value for %s: %d" % (self.__class__.__name__, val))
         GlobalItem.__init__(self, 0)
 
 class Pop(GlobalItem):
     tag = GlobalItem.Pop
 
     def __init__(self, val = 0):
-        assert val == 0
+        if val != 0:
+            raise ValueError("Unexpected value for %s: %d" % (self.__class__.__name__, val))
         GlobalItem.__init__(self, 0)
 
 class Usage(LocalItem):
-- 
2.43.0

