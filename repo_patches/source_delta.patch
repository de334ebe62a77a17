From d59b6dd98033e327e2f9077e06e48761b8f086c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:48 +0000
Subject: [PATCH 01/97] fix: WebDBer.flush no longer marks writes made while
 sync is awaited as flushed

---
 src/keri/db/webdbing.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/keri/db/webdbing.py b/src/keri/db/webdbing.py
index d9f55ba..6e6ac10 100644
--- a/src/keri/db/webdbing.py
+++ b/src/keri/db/webdbing.py
@@ -320,10 +320,15 @@ class WebDBer:
         for subdb in self._stores.values():
             if not subdb.dirty:
                 continue
+            # Still dirty, but marked by this flush. A write or another flush
+            # while sync is awaited replaces the mark so it stays dirty.
+            mark = object()
+            subdb.dirty = mark
             subdb.handle[_RECORDS_KEY] = _serialize_records(subdb.items)
             subdb.handle[_META_KEY] = _serialize_meta({"dupsort": subdb.dupsort})
             await subdb.handle.sync()
-            subdb.dirty = False
+            if subdb.dirty is mark:
+                subdb.dirty = False
             count += 1
         return count
 
-- 
2.43.0


From f359a27a053f6cbe2e19e89dc57e704f15ef7aa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:06 +0000
Subject: [PATCH 02/97] fix: WebDBer.flush writes store metadata before records
 so a crash between the two leaves an openable store

---
 src/keri/db/webdbing.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/keri/db/webdbing.py b/src/keri/db/webdbing.py
index 6e6ac10..fca496d 100644
--- a/src/keri/db/webdbing.py
+++ b/src/keri/db/webdbing.py
@@ -324,8 +324,10 @@ class WebDBer:
             # while sync is awaited replaces the mark so it stays dirty.
             mark = object()
             subdb.dirty = mark
-            subdb.handle[_RECORDS_KEY] = _serialize_records(subdb.items)
+            # Metadata first. Storage may persist one assignment without the
+            # next and open() refuses records that have no metadata.
             subdb.handle[_META_KEY] = _serialize_meta({"dupsort": subdb.dupsort})
+            subdb.handle[_RECORDS_KEY] = _serialize_records(subdb.items)
             await subdb.handle.sync()
             if subdb.dirty is mark:
                 subdb.dirty = False
-- 
2.43.0


From 04371fa1ac47f1f1f0361dc7016d2f8a8c157b0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:06 +0000
Subject: [PATCH 03/97] fix: WebDBer.appendOnIoSetVals marks the store dirty so
 the append is flushed

---
 src/keri/db/webdbing.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/keri/db/webdbing.py b/src/keri/db/webdbing.py
index fca496d..dd9fb07 100644
--- a/src/keri/db/webdbing.py
+++ b/src/keri/db/webdbing.py
@@ -1598,6 +1598,7 @@ class WebDBer:
                     f"Failed appending {val=} at {key=} {on=} offset {ion=}."
                 )
             items[iokey] = val
+            db.dirty = True
 
         return on
 
-- 
2.43.0


From 25e35479d0ee0be5cc3f27d0c1e3f6b4b8499a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:06 +0000
Subject: [PATCH 04/97] fix: WebDBer.remOnAllIoSet marks the store dirty so the
 removal is flushed

---
 src/keri/db/webdbing.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/keri/db/webdbing.py b/src/keri/db/webdbing.py
index dd9fb07..442642b 100644
--- a/src/keri/db/webdbing.py
+++ b/src/keri/db/webdbing.py
@@ -1788,6 +1788,7 @@ class WebDBer:
         result = False
         for iokey in toDelete:
             del items[iokey]
+            db.dirty = True
             result = True
 
         return result
-- 
2.43.0


From 50a96cc0e9d9d3ebb87a3e409c98ad4a11ba8a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:47 +0000
Subject: [PATCH 05/97] fix: WebDBer append walks back past entries of keys
 that extend key with sep

---
 src/keri/db/webdbing.py | 36 +++++++++++++++---------------------
 1 file changed, 15 insertions(+), 21 deletions(-)

diff --git a/src/keri/db/webdbing.py b/src/keri/db/webdbing.py
index 442642b..4691521 100644
--- a/src/keri/db/webdbing.py
+++ b/src/keri/db/webdbing.py
@@ -591,19 +591,18 @@ class WebDBer:
         if not key or val is None:
             raise ValueError(f"Bad append parameter: {key=} or {val=}")
 
-        onkey = onKey(key, MaxON, sep=sep)
-        idx = db.items.bisect_right(onkey)
-        if idx:
-            ponkey, _ = db.items.peekitem(idx - 1)
-            ckey, cn = splitOnKey(ponkey, sep=sep)
+        # Walk back over any interleaved entries of other keys that extend key
+        # with sep, e.g. b'a.b' for key b'a', to last prior entry of key itself.
+        on = 0
+        for okey in db.items.irange(minimum=onKey(key, 0, sep=sep),
+                                    maximum=onKey(key, MaxON, sep=sep),
+                                    reverse=True):
+            ckey, cn = splitOnKey(okey, sep=sep)
             if ckey == key:
                 if cn >= MaxON:
                     raise ValueError(f"Number part {cn=} for key part {key=} exceeds maximum size.")
                 on = cn + 1
-            else:
-                on = 0
-        else:
-            on = 0
+                break
 
         if not self.putVal(db=db, key=onKey(key, on, sep=sep), val=val):
             raise ValueError(f"Failed appending {val=} at {key=}.")
@@ -1563,16 +1562,13 @@ class WebDBer:
 
         items = db.items
 
-        # 1. Find the last key <= maxIokey
-
-        # irange with maximum gives us all keys <= maxIokey
-        # The last of those is the LMDB cursor.last() equivalent.
-        lastIokey = next(items.irange(maximum=maxIokey, reverse=True), None)
+        # 1. Find last prior entry of key itself, walking back over any
+        # interleaved entries of other keys that extend key with sep,
+        # e.g. b'a.b' for key b'a'. When none ON = 0
+        on = 0
+        minIokey = suffix(onKey(key, on=0, sep=sep), ion=0, sep=sep)
 
-        if lastIokey is None:
-            # No entries at all → ON = 0
-            on = 0
-        else:
+        for lastIokey in items.irange(minimum=minIokey, maximum=maxIokey, reverse=True):
             lastOnkey, _ = unsuffix(lastIokey, sep=sep)
             lastKey, lastOn = splitOnKey(lastOnkey, sep=sep)
 
@@ -1583,9 +1579,7 @@ class WebDBer:
                         f"Failed append entry to {key=}, would exceed max on at {MaxON=}"
                     )
                 on = lastOn + 1
-            else:
-                # Last key belongs to a different logical key -> ON = 0
-                on = 0
+                break
 
         # 2. Insert new ON-group 
 
-- 
2.43.0


From a74ecc76a06b09fb5134582cb35660f75137f593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:24 +0000
Subject: [PATCH 06/97] fix: LMDBer append walks back past entries of keys that
 extend key with sep

---
 src/keri/db/dbing.py | 63 ++++++++++++++++++++++----------------------
 1 file changed, 31 insertions(+), 32 deletions(-)

diff --git a/src/keri/db/dbing.py b/src/keri/db/dbing.py
index 760c527..7dcffe1 100644
--- a/src/keri/db/dbing.py
+++ b/src/keri/db/dbing.py
@@ -824,27 +824,27 @@ class LMDBer(filing.Filer):
             if not cursor.set_range(onkey):  # max is past end of database
                 #  so either empty database or last is earlier key or
                 #  last is last entry  at same key
-                if cursor.last():  # not empty db. last entry earlier than max
-                    onkey = cursor.key()
-                    ckey, cn = splitOnKey(onkey, sep=sep)
-                    if ckey == key:  # last is last entry for same key
-                        on = cn + 1  # increment
+                more = cursor.last()  # not empty db. last entry earlier than max
             else:  # not past end so not empty either later key or max entry at key
                 onkey = cursor.key()
                 ckey, cn = splitOnKey(onkey, sep=sep)
                 if ckey == key:  # last entry for key is already at max
                     raise ValueError(f"Number part {cn=} for key part {ckey=}"
                                      f"exceeds maximum size.")
-                else:  # later key so backup once
-                    # either earlier no entry before last or earlier entry
-                    # at same or earlier key
-                    if cursor.prev():  # earlier entry, maybe same or earlier key
-                        onkey = cursor.key()
-                        ckey, cn = splitOnKey(onkey, sep=sep)
-                        if ckey == key:  # earlier entry as same key so increment
-                            on = cn + 1  # increment
-                        # otherwise no earlier entry at same key so create below
-                    # otherwise no earlier entry at any key so create below
+                more = cursor.prev()  # later key so backup once
+
+            # walk back past any interleaved entries of other keys that extend
+            # key with sep, e.g. b'a.b' for key b'a', to last entry at key if any
+            floor = onKey(key, 0, sep=sep)
+            while more:
+                onkey = bytes(cursor.key())
+                if onkey < floor:  # earlier key so no entry at same key
+                    break
+                ckey, cn = splitOnKey(onkey, sep=sep)
+                if ckey == key:  # last entry for same key
+                    on = cn + 1  # increment
+                    break
+                more = cursor.prev()
 
             onkey = onKey(key, on, sep=sep)  # create new entry at new on
 
@@ -1615,14 +1615,7 @@ class LMDBer(filing.Filer):
             if not cursor.set_range(iokey):  # max at key is past end of database
                 # either empty database or key missing but greater than
                 # exiting keys or key exists and is greatest with its last < max
-                if cursor.last():  # last is there so not empty
-                    ciokey = cursor.key()
-                    conkey, cion = unsuffix(ciokey, sep=sep)
-                    ckey, con = splitOnKey(conkey, sep=sep)
-                    if ckey == key:  # same key greatest and last < max
-                        on = con + 1  # increment on to append
-                    # else key missing but greater so create zeroth entry at key
-                # else no last so empty db so create zeroth entry at key
+                more = cursor.last()
             else:  # max not past end so db not empty.
                 ciokey = cursor.key()  # last is greater key or max at same key
                 conkey, cion = unsuffix(ciokey, sep=sep)
@@ -1630,15 +1623,21 @@ class LMDBer(filing.Filer):
                 if ckey == key:  # last entry for same key is already at max
                     raise ValueError(f"Failed append entry to {key=}, would "
                                      f"exceed max on at {MaxON=}")
-                else:  # last is zeroth entry at next greater key than key
-                    if cursor.prev():  #backup one key to same key or earlier key
-                        ciokey = cursor.key()
-                        conkey, cion = unsuffix(ciokey, sep=sep)
-                        ckey, con = splitOnKey(conkey, sep=sep)
-                        if ckey == key:  # found last entry at same key
-                            on = con + 1  # increment on
-                        # else earlier key so create zeroth entry at key
-                    # else no earlier key so create zeroth entry at key
+                more = cursor.prev()  # backup one key to same key or earlier key
+
+            # walk back past any interleaved entries of other keys that extend
+            # key with sep, e.g. b'a.b' for key b'a', to last entry at key if any
+            floor = suffix(onKey(key, 0, sep=sep), ion=0, sep=sep)
+            while more:
+                ciokey = bytes(cursor.key())
+                if ciokey < floor:  # earlier key so create zeroth entry at key
+                    break
+                conkey, cion = unsuffix(ciokey, sep=sep)
+                ckey, con = splitOnKey(conkey, sep=sep)
+                if ckey == key:  # found last entry at same key
+                    on = con + 1  # increment on
+                    break
+                more = cursor.prev()
 
             onkey = onKey(key, on, sep=sep)  # create onkey at on
             for ion, val in enumerate(vals):
-- 
2.43.0


From b24a180725cf9b779570f14ed91b2ed3f82e0d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:36 +0000
Subject: [PATCH 07/97] fix: LMDBer back iterators over OnIoSet yield nothing
 for missing key and pass over entries of keys that extend key

---
 src/keri/db/dbing.py | 62 ++++++++++++++++----------------------------
 1 file changed, 22 insertions(+), 40 deletions(-)

diff --git a/src/keri/db/dbing.py b/src/keri/db/dbing.py
index 7dcffe1..b06f15f 100644
--- a/src/keri/db/dbing.py
+++ b/src/keri/db/dbing.py
@@ -2081,27 +2081,21 @@ class LMDBer(filing.Filer):
                     onkey = onKey(key, on, sep=sep)  # start replay at this enty
                     iokey = suffix(onkey, ion=MaxON, sep=sep)  # set to max ion
 
-                if not cursor.set_range(iokey):  # key is last key so maxon to big
-                    cursor.last()  # so find greatest on
-
-                ciokey = cursor.key()
-                conkey, cion = unsuffix(ciokey, sep=sep)
-                ckey, con = splitOnKey(conkey, sep=sep)
-                if not ckey == key or not con <= on:  # cursor at next onkey
-                    cursor.prev()
-                    ciokey = cursor.key()
-                    conkey, cion = unsuffix(ciokey, sep=sep)
-                    ckey, con = splitOnKey(conkey, sep=sep)
-                # else greatest is max  or key not in db
-                if not ckey == key:  # key not in db
-                    return
+                if cursor.set_range(iokey):  # at iokey itself or at later entry
+                    if bytes(cursor.key()) != iokey and not cursor.prev():
+                        return  # no earlier entry so key not in db
+                else:  # past end so greatest is last in db
+                    cursor.last()
+                floor = onKey(key, 0, sep=sep)  # any entry at key is not less
 
             # cursor should now be correctly positioned
             for ciokey, cval in cursor.iterprev(): # iterate backwards
+                if key and bytes(ciokey) < floor:  # no more entries at key
+                    return
                 conkey, cion = unsuffix(ciokey, sep=sep)
                 ckey, con = splitOnKey(conkey, sep=sep)
-                if key and ckey != key:
-                    return
+                if key and ckey != key:  # interleaved entry of other key that
+                    continue  # extends key with sep
                 yield (ckey, con, cval)
 
 
@@ -2144,42 +2138,30 @@ class LMDBer(filing.Filer):
                     onkey = onKey(key, on, sep=sep)  # start replay at this enty
                     iokey = suffix(onkey, ion=MaxON, sep=sep)  # set to max ion
 
-                if not cursor.set_range(iokey):  # key is last key so maxon to big
-                    cursor.last()  # so find greatest on
-
-                ciokey, cval= cursor.item()
-                conkey, cion = unsuffix(ciokey, sep=sep)
-                ckey, con = splitOnKey(conkey, sep=sep)
-                if not ckey == key or not con <= on:  # cursor at next onkey
-                    cursor.prev()
-                    ciokey, cval= cursor.item()
-                    conkey, cion = unsuffix(ciokey, sep=sep)
-                    ckey, con = splitOnKey(conkey, sep=sep)
-                # else greatest is max  or key not in db
-                if not ckey == key:  # key not in db
-                    return
+                if cursor.set_range(iokey):  # at iokey itself or at later entry
+                    if bytes(cursor.key()) != iokey and not cursor.prev():
+                        return  # no earlier entry so key not in db
+                elif not cursor.last():  # past end so greatest is last in db
+                    return  # empty database so raise StopIteration
+                floor = onKey(key, 0, sep=sep)  # any entry at key is not less
             else:  # no key so start at end of db
                 if not cursor.last():  # position cursor at last entry in db
                     return  # empty database so raise StopIteration
-                ciokey, cval = cursor.item()
-                conkey, cion = unsuffix(ciokey, sep=sep)
-                ckey, con = splitOnKey(conkey, sep=sep)
 
             # cursor should now be correctly positioned, either at:
             # last set entry of on of key when key and on
             # last set entry of last on of key when key and on None
             # last set entry in db of last on of last key when not key
-            yield(ckey, con, cval)  # yield last
-            lkey = ckey  # last key
-            lon = con    # last on
-            if not cursor.prev():  # no earlier entries
-                return
+            lkey = None  # last key
+            lon = None   # last on
 
             for ciokey, cval in cursor.iterprev(): # iterate backwards
+                if key and bytes(ciokey) < floor:  # done iterating over key
+                    return
                 conkey, cion = unsuffix(ciokey, sep=sep)
                 ckey, con = splitOnKey(conkey, sep=sep)
-                if key and ckey != key:  # done iterating over key
-                    return
+                if key and ckey != key:  # interleaved entry of other key that
+                    continue  # extends key with sep
 
                 if ckey != lkey:  # found new last of next lower key
                     yield (ckey, con, cval)
-- 
2.43.0


From 8623bb16ffa4a97dd3319e5d6c37f14d5059a970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:44 +0000
Subject: [PATCH 08/97] fix: WebDBer iterators yield from a snapshot so
 changing the store while iterating is safe

---
 src/keri/db/webdbing.py | 58 +++++++++++++++++++++++++----------------
 1 file changed, 35 insertions(+), 23 deletions(-)

diff --git a/src/keri/db/webdbing.py b/src/keri/db/webdbing.py
index 4691521..a5e4fae 100644
--- a/src/keri/db/webdbing.py
+++ b/src/keri/db/webdbing.py
@@ -866,14 +866,15 @@ class WebDBer:
         prefix = top
 
         if not prefix:
-            for key, val in db.items.items():
-                yield key, val
+            yield from _snapshot(db.items)
             return
 
+        branch = []  # snapshot so changing db while iterating is safe
         for key in db.items.irange(minimum=prefix):
             if not key.startswith(prefix):
                 break
-            yield key, db.items[key]
+            branch.append((key, db.items[key]))
+        yield from branch
 
     def remTop(self, db: SubDb, top: bytes = b"") -> bool:
         """
@@ -1133,13 +1134,13 @@ class WebDBer:
         iokey = suffix(key, ion, sep=sep)
 
         # Iterate through items from the starting key
-        for iokey in db.items.irange(minimum=iokey):
+        for iokey, val in _snapshot(db.items, iokey, suffix(key, MaxON, sep=sep)):
             ckey, cion = unsuffix(iokey, sep=sep)
             # Stop when we leave this IoSet
             if ckey != key:
                 break
-            
-            yield (ckey, db.items[iokey])
+
+            yield (ckey, val)
 
 
     def getIoSetLastItem(self, db, key, *, sep=b'.'):
@@ -1395,7 +1396,7 @@ class WebDBer:
         currKey = None
 
         # Iterate forward through the DB
-        for iokey in items.irange(startKey, None):
+        for iokey, val in _snapshot(items, startKey):
             # Split into (apparent_key, ordinal)
             apparent, ion = unsuffix(iokey, sep=sep)
 
@@ -1407,7 +1408,7 @@ class WebDBer:
 
             # Update tracking
             currKey = apparent
-            last = (apparent, items[iokey])
+            last = (apparent, val)
 
         # Yield the final group
         if last is not None:
@@ -1935,8 +1936,9 @@ class WebDBer:
         # Case 2: iterate ON >= requested ON for this key
         startOnkey = onKey(key, on, sep=sep)
         startIokey = suffix(startOnkey, ion=0, sep=sep)
+        endIokey = suffix(onKey(key, MaxON, sep=sep), ion=MaxON, sep=sep)
 
-        for iokey in items.irange(minimum=startIokey):
+        for iokey, val in _snapshot(items, startIokey, endIokey):
             # Extract (onkey, ion)
             onkey, ion = unsuffix(iokey, sep=sep)
 
@@ -1948,7 +1950,7 @@ class WebDBer:
                 break
 
             # Yield LMDB‑accurate triple
-            yield (ckey, con, items[iokey])
+            yield (ckey, con, val)
 
 
     def getOnAllIoSetLastItemIter(self, db, key=b'', on=0, *, sep=b'.'):
@@ -1992,11 +1994,12 @@ class WebDBer:
         # Case 2: iterate ON >= requested ON for this key
         startOnkey = onKey(key, on, sep=sep)
         startIokey = suffix(startOnkey, ion=0, sep=sep)
+        endIokey = suffix(onKey(key, MaxON, sep=sep), ion=MaxON, sep=sep)
 
         last = None
         currentOn = None
 
-        for iokey in items.irange(minimum=startIokey):
+        for iokey, val in _snapshot(items, startIokey, endIokey):
             # Extract (conkey, cion)
             conkey, cion = unsuffix(iokey, sep=sep)
 
@@ -2014,7 +2017,7 @@ class WebDBer:
 
             # Update tracking
             currentOn = con
-            last = (ckey, con, items[iokey])
+            last = (ckey, con, val)
 
         # After iteration, yield the last ON-group's last item
         if last:
@@ -2057,10 +2060,10 @@ class WebDBer:
 
         # Case 1: key empty so iterate whole DB backwards
         if not key:
-            for ciokey in items.irange(reverse=True):
+            for ciokey, cval in _snapshot(items, reverse=True):
                 conkey, cion = unsuffix(ciokey, sep=sep)
                 ckey, con = splitOnKey(conkey, sep=sep)
-                yield (ckey, con, items[ciokey])
+                yield (ckey, con, cval)
             return
 
         # Case 2: key non-empty
@@ -2075,7 +2078,7 @@ class WebDBer:
 
         # Collect all matching entries up to this bound
         candidates = []
-        for ciokey in items.irange(maximum=iokey, reverse=True):
+        for ciokey, cval in _snapshot(items, onKey(key, 0, sep=sep), iokey, reverse=True):
             conkey, cion = unsuffix(ciokey, sep=sep)
             ckey, con = splitOnKey(conkey, sep=sep)
 
@@ -2087,7 +2090,7 @@ class WebDBer:
             if con > on:
                 continue
 
-            yield (ckey, con, items[ciokey])
+            yield (ckey, con, cval)
 
 
     def getOnAllIoSetLastItemBackIter(self, db, key=b"", on=None, *, sep=b'.'):
@@ -2135,10 +2138,9 @@ class WebDBer:
             lkey = None
             lon = None
 
-            for ciokey in items.irange(reverse=True):
+            for ciokey, cval in _snapshot(items, reverse=True):
                 conkey, cion = unsuffix(ciokey, sep=sep)
                 ckey, con = splitOnKey(conkey, sep=sep)
-                cval = items[ciokey]
 
                 if last is None:
                     # First item encountered (largest key/on/ion)
@@ -2186,7 +2188,7 @@ class WebDBer:
         lval = None
 
         # Collect all matching entries up to this bound
-        for ciokey in items.irange(maximum=iokey, reverse=True):
+        for ciokey, cval in _snapshot(items, onKey(key, 0, sep=sep), iokey, reverse=True):
             conkey, cion = unsuffix(ciokey, sep=sep)
             ckey, con = splitOnKey(conkey, sep=sep)
 
@@ -2198,8 +2200,6 @@ class WebDBer:
             if con > on:
                 continue
 
-            cval = items[ciokey]
-
             if lcon is None:
                 # First matching ON-group
                 lcon, lval = con, cval
@@ -2232,6 +2232,17 @@ def _serialize_meta(meta: dict[str, Any]) -> str:
     return json.dumps(meta, sort_keys=True)
 
 
+def _snapshot(items, minimum=None, maximum=None, reverse=False):
+    """Return list of (key, val) in range as of now.
+
+    Iterators yield from a snapshot, as LMDBer iterators do from their read
+    transaction, so that changing the store while iterating is safe. A live
+    SortedDict iteration would skip entries or raise IndexError.
+    """
+    return [(key, items[key])
+            for key in items.irange(minimum, maximum, reverse=reverse)]
+
+
 def _iterOnItems(
     *,
     db: SubDb,
@@ -2266,13 +2277,14 @@ def _iterOnItems(
             as an ordinal key with the provided separator.
     """
     start = onKey(key, on, sep=sep) if key else b""
+    end = onKey(key, MaxON, sep=sep) if key else None
 
     # Fixed-width ordinal suffixes make lexical order match ordinal order.
-    for okey in db.items.irange(minimum=start):
+    for okey, val in _snapshot(db.items, start, end):
         ckey, cn = splitOnKey(okey, sep=sep)
         if key and ckey != key:
             break
-        yield ckey, cn, db.items[okey]
+        yield ckey, cn, val
 
 
 def _deserialize_records(raw: Any) -> dict[bytes, bytes]:
-- 
2.43.0


From d6997d12d44d67751553c72364401096e1a89416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:52 +0000
Subject: [PATCH 09/97] fix: LMDBer last item iterators over io sets honour sep
 when finding the first entry

---
 src/keri/db/dbing.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/keri/db/dbing.py b/src/keri/db/dbing.py
index b06f15f..ce24bbc 100644
--- a/src/keri/db/dbing.py
+++ b/src/keri/db/dbing.py
@@ -1269,7 +1269,7 @@ class LMDBer(filing.Filer):
             last = ()
             if not key:
                 return last
-            iokey = suffix(key, 0) # walk hidden branches starting from zero
+            iokey = suffix(key, 0, sep=sep) # walk hidden branches starting from zero
             cursor = txn.cursor()  # create cursor to walk back
             if cursor.set_range(iokey):  # not past end of database
                 for ciokey, cval in cursor.iternext():  # get iokey, val at cursor
@@ -1454,7 +1454,7 @@ class LMDBer(filing.Filer):
                 key, ion= unsuffix(iokey, sep=sep)
             else:
                 ion = 0
-                iokey = suffix(key, ion) # walk hidden branches starting from zero
+                iokey = suffix(key, ion, sep=sep) # walk hidden branches starting from zero
             last = None
             if cursor.set_range(iokey):  # not past end of database
                 for ciokey, cval in cursor.iternext():  # get iokey, val at cursor
@@ -2015,8 +2015,8 @@ class LMDBer(filing.Filer):
                     return  # raises StopIterationError
                 iokey = cursor.key()
             else:
-                onkey = onKey(key, on)
-                iokey = suffix(onkey, 0) # walk hidden branches starting from zero
+                onkey = onKey(key, on, sep=sep)
+                iokey = suffix(onkey, 0, sep=sep) # walk hidden branches starting from zero
 
             last = None
 
-- 
2.43.0


From 214ee9e890a9074cb9888380caaa6c6bec27e695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:52 +0000
Subject: [PATCH 10/97] fix: LMDBer putIoDupVals and putOnIoDupVals add a val
 repeated in vals only once

---
 src/keri/db/dbing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/keri/db/dbing.py b/src/keri/db/dbing.py
index ce24bbc..63b5127 100644
--- a/src/keri/db/dbing.py
+++ b/src/keri/db/dbing.py
@@ -2403,6 +2403,7 @@ class LMDBer(filing.Filer):
 
             for val in vals:
                 if val not in dups:
+                    dups.add(val)  # each val only once even when repeated in vals
                     val = (b'%032x.' % (idx)) +  val  # prepend ordering proem
                     txn.put(key, val, dupdata=True)
                     idx += 1
@@ -2778,6 +2779,7 @@ class LMDBer(filing.Filer):
 
             for val in vals:
                 if val not in dups:
+                    dups.add(val)  # each val only once even when repeated in vals
                     val = (b'%032x.' % (idx)) +  val  # prepend ordering proem
                     txn.put(onkey, val, dupdata=True)
                     idx += 1
-- 
2.43.0


From a7095d805057f21ba5dcd234d13470168761e999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:52 +0000
Subject: [PATCH 11/97] fix: LMDBer.getOnIoDupLastItemIter steps to next key so
 custom sep does not repeat forever

---
 src/keri/db/dbing.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/keri/db/dbing.py b/src/keri/db/dbing.py
index 63b5127..1ff1fb1 100644
--- a/src/keri/db/dbing.py
+++ b/src/keri/db/dbing.py
@@ -3038,8 +3038,7 @@ class LMDBer(filing.Filer):
                     break
 
                 yield (ckey, on, cval[33:])  # slice off prepended ordering proem
-                onkey = onKey(ckey, on+1)
-                if not cursor.set_range(onkey):  # # moves to first_dup at key>=onkey
+                if not cursor.next_nodup():  # moves to first_dup at next onkey
                     return  # no values end of db raises StopIteration
 
 
-- 
2.43.0


From cf6fd22d1aa4da9464f2cd70a208b84b58ee9d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:53 +0000
Subject: [PATCH 12/97] fix: LMDBer.getOnIoDupItemBackIter starts at or before
 on when on itself is missing

---
 src/keri/db/dbing.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/keri/db/dbing.py b/src/keri/db/dbing.py
index 1ff1fb1..536361a 100644
--- a/src/keri/db/dbing.py
+++ b/src/keri/db/dbing.py
@@ -3190,8 +3190,7 @@ class LMDBer(filing.Filer):
             if key:  # not empty so attempt to position at starting key not last
                 onkey = onKey(key, on, sep=sep)  # start replay at this enty 0 is earliest
                 if cursor.set_range(onkey):  #  found key >= onkey
-                    ckey, cn = splitOnKey(cursor.key(), sep=sep)
-                    if ckey == key: # onkey in db
+                    if bytes(cursor.key()) == onkey: # onkey in db
                         cursor.last_dup()  # start at its last dup
                     else:  # get closest key < onkey
                         if not cursor.prev():  # last dup of previous key
-- 
2.43.0


From f823d49b7bfc16f3ed6b8cd4fa32b8d4befb942c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:53 +0000
Subject: [PATCH 13/97] fix: LMDBer.pinIoSetVals replaces set in one
 transaction

---
 src/keri/db/dbing.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/keri/db/dbing.py b/src/keri/db/dbing.py
index 536361a..7168a98 100644
--- a/src/keri/db/dbing.py
+++ b/src/keri/db/dbing.py
@@ -1163,9 +1163,18 @@ class LMDBer(filing.Filer):
         if not key or not vals:  # empty key or empty vals or vals None
             return result  # do not delete
 
-        self.remIoSet(db=db, key=key, sep=sep)
+        # remove and add in same transaction so replacement is all or nothing
         with self.env.begin(db=db, write=True, buffers=True) as txn:
             vals = oset(vals)  # make set
+            cursor = txn.cursor()
+            if cursor.set_range(suffix(key, 0, sep=sep)):  # first entry at key if any
+                iokey, cval = cursor.item()
+                while iokey:  # end of database iokey == b'' cant internext.
+                    ckey, cion = unsuffix(iokey, sep=sep)
+                    if ckey != key:  # past key
+                        break
+                    cursor.delete()  # delete moves cursor to next item
+                    iokey, cval = cursor.item()  # cursor now at next item after deleted
 
             for i, val in enumerate(vals):
                 iokey = suffix(key, i, sep=sep)  # ion is at add on amount
-- 
2.43.0


From ca38cde46279b9362c43b12c6b5a6599b8de2760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:53 +0000
Subject: [PATCH 14/97] fix: LMDBer.reopen stamps version only on a brand new
 database

---
 src/keri/db/dbing.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/keri/db/dbing.py b/src/keri/db/dbing.py
index 7168a98..4bb64fa 100644
--- a/src/keri/db/dbing.py
+++ b/src/keri/db/dbing.py
@@ -435,7 +435,6 @@ class LMDBer(filing.Filer):
             fext (str): File extension when .filed
             readonly (bool): True means open database in readonly mode
                 False means open database in read/write mode"""
-        exists = self.exists(name=self.name, base=self.base)
         opened = super(LMDBer, self).reopen(**kwa)
         if readonly is not None:
             self.readonly = readonly
@@ -455,7 +454,9 @@ class LMDBer(filing.Filer):
 
         self.opened = True if opened and self.env else False
 
-        if self.opened and not self.readonly and (not exists or self.temp):
+        # brand new env when main db holds neither version nor any named sub db
+        if (self.opened and not self.readonly and
+                (self.temp or self.env.stat()["entries"] == 0)):
             self.version = __version__
 
         return self.opened
-- 
2.43.0


From 0b62ad7f883ff66b2cbbf9228d4f8b70d3084491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:10 +0000
Subject: [PATCH 15/97] fix: LMDBer.putOnIoDupVals compares with the vals at
 same on and sep

---
 src/keri/db/dbing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/db/dbing.py b/src/keri/db/dbing.py
index 4bb64fa..81140bb 100644
--- a/src/keri/db/dbing.py
+++ b/src/keri/db/dbing.py
@@ -2774,7 +2774,7 @@ class LMDBer(filing.Filer):
             sep (bytes): separator character for split"""
 
         result = False
-        dups = set(self.getOnIoDupVals(db, key))  #get preexisting dups if any
+        dups = set(self.getOnIoDupVals(db, key, on, sep=sep))  #get preexisting dups if any
         with self.env.begin(db=db, write=True, buffers=True) as txn:
             idx = 0
             cursor = txn.cursor()
-- 
2.43.0


From 2c17513bb2d4f4457cefba341d131f97a9405e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:29 +0000
Subject: [PATCH 16/97] fix: LMDBer.appendOnIoSetVals raises instead of
 exceeding MaxON

---
 src/keri/db/dbing.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/keri/db/dbing.py b/src/keri/db/dbing.py
index 81140bb..18aba0e 100644
--- a/src/keri/db/dbing.py
+++ b/src/keri/db/dbing.py
@@ -1645,6 +1645,9 @@ class LMDBer(filing.Filer):
                 conkey, cion = unsuffix(ciokey, sep=sep)
                 ckey, con = splitOnKey(conkey, sep=sep)
                 if ckey == key:  # found last entry at same key
+                    if con >= MaxON:
+                        raise ValueError(f"Failed append entry to {key=}, would "
+                                         f"exceed max on at {MaxON=}")
                     on = con + 1  # increment on
                     break
                 more = cursor.prev()
-- 
2.43.0


From 675123de0b39c053d655e6d5fc7f6539269e4a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:21 +0000
Subject: [PATCH 17/97] fix: accept witness cuts listed in another order than
 the witness list

---
 src/keri/core/eventing.py | 6 +++---
 src/keri/vdr/eventing.py  | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index b500346..7a4794f 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -801,7 +801,7 @@ def rotate(pre,
     if len(cutset) != len(cuts):
         raise ValueError(f"Invalid cuts = {cuts}, has duplicates.")
 
-    if (witset & cutset) != cutset:  # some cuts not in wits
+    if cutset - witset:  # some cuts not in wits
         raise ValueError(f"Invalid cuts = {cuts}, not all members in wits.")
 
     adds = adds if adds is not None else []
@@ -2708,7 +2708,7 @@ class Kever:
             raise ValidationError("Invalid cuts = {cuts}, has duplicates for "
                                   f"evt = {serder.ked}.")
 
-        if (witset & cutset) != cutset:  # some cuts not in wits
+        if cutset - witset:  # some cuts not in wits
             raise ValidationError(f"Invalid cuts = {cuts}, not all members in "
                                   f"wits for evt = {serder.ked}.")
 
@@ -7148,7 +7148,7 @@ class Kevery:
                 if len(cutset) != len(cuts):
                     raise ValidationError("Invalid cuts={}, has duplicates "
                                           "for evt={}.".format(cuts, serder.ked))
-                if (witset & cutset) != cutset:  # some cuts not in wits
+                if cutset - witset:  # some cuts not in wits
                     raise ValidationError("Invalid cuts={}, not all members "
                                           "in wits for evt={}.".format(cuts, serder.ked))
                 if len(addset) != len(adds):
diff --git a/src/keri/vdr/eventing.py b/src/keri/vdr/eventing.py
index b3531b2..069afb2 100644
--- a/src/keri/vdr/eventing.py
+++ b/src/keri/vdr/eventing.py
@@ -964,7 +964,7 @@ class Tever:
             raise ValidationError("Invalid cuts = {}, has duplicates for evt = "
                                   "{}.".format(cuts, ked))
 
-        if (witset & cutset) != cutset:  # some cuts not in baks
+        if cutset - witset:  # some cuts not in baks
             raise ValidationError("Invalid cuts = {}, not all members in baks"
                                   " for evt = {}.".format(cuts, ked))
 
-- 
2.43.0


From e319fdeeab4e6b11b59dc1c33d0733f4d8a15be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:34 +0000
Subject: [PATCH 18/97] fix: count each key index once towards signing,
 rotation and witness thresholds

---
 src/keri/core/coring.py   | 3 ++-
 src/keri/core/eventing.py | 7 ++++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/keri/core/coring.py b/src/keri/core/coring.py
index 006fbd7..b6d3892 100644
--- a/src/keri/core/coring.py
+++ b/src/keri/core/coring.py
@@ -4661,7 +4661,8 @@ class Tholder:
         Parameters:
             indices: list of indices (offsets into key list) of verified signatures"""
         try:
-            if self.thold > 0 and len(indices) >= self.thold:  # at least one
+            # count each index once
+            if self.thold > 0 and len(set(indices)) >= self.thold:  # at least one
                 return True
 
         except Exception as ex:
diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index 7a4794f..4110d73 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -317,7 +317,7 @@ def verifySigs(raw, sigers, verfers):
     """
     Returns tuple of (vsigers, vindices) where:
         vsigers is list  of unique verified sigers with assigned verfer
-        vindices is list of indices from those verified sigers
+        vindices is list of unique indices from those verified sigers
 
     The returned vsigers  and vindices may be used for threshold validation
 
@@ -353,7 +353,8 @@ def verifySigs(raw, sigers, verfers):
     vsigers = []
     for siger in uvsigers:
         if siger.verfer.verify(siger.raw, raw):
-            vindices.append(siger.index)
+            if siger.index not in vindices:  # same key may sign under several codes
+                vindices.append(siger.index)
             vsigers.append(siger)
 
     return (vsigers, vindices)
@@ -2986,7 +2987,7 @@ class Kever:
                                       #f'to expose digest.') from ex
 
             kdig = Diger(ser=siger.verfer.qb64b, code=diger.code).qb64
-            if kdig == diger.qb64:
+            if kdig == diger.qb64 and siger.ondex not in odxs:
                 odxs.append(siger.ondex)
 
         return odxs
-- 
2.43.0


From 0352d56ed9657bcafe3d087131b244f72ac7becd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:56 +0000
Subject: [PATCH 19/97] fix: reject a delegated rotation of an identifier that
 is not delegated

---
 src/keri/core/eventing.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index 4110d73..2cb05ca 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -2483,6 +2483,11 @@ class Kever:
                                       "delegated pre = {} with evt = {}."
                                       "".format(serder.pre, ked))
 
+            if ilk == Ilks.drt and not self.delegated:
+                raise ValidationError("Attempted delegated rotation on non "
+                                      "delegated pre = {} with evt = {}."
+                                      "".format(serder.pre, ked))
+
             tholder, toader, wits, cuts, adds = self.rotate(serder)
 
             # Validates signers, delegation if any, and witnessing when applicable
-- 
2.43.0


From ff84b8dbf3fd5c09ef5ffc5d273afea212559d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:25 +0000
Subject: [PATCH 20/97] fix: judge a superseding delegated rotation on the
 establishment event it builds on and by its delegator's log

A delegated rotation that supersedes the latest delegated rotation was judged
on the superseded event's next keys and its witness changes were ignored,
bosn.Ilk raised AttributeError, its delegator comparison was made on the wrong
events and a duplicate of the latest rotation was taken for a superseding one.
---
 src/keri/core/eventing.py | 93 ++++++++++++++++++++++++++++-----------
 1 file changed, 68 insertions(+), 25 deletions(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index 2cb05ca..aea2d98 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -2662,7 +2662,8 @@ class Kever:
                                       "".format(prior, self.serder.said, ked))
 
         # check derivation code of pre for non-transferable
-        if not self.ndigers:  # prior next list is empty so rotations not allowed
+        _, ndigers, _ = self.fetchPriorEst(serder)
+        if not ndigers:  # prior next list is empty so rotations not allowed
             raise ValidationError("Attempted rotation for nontransferable"
                                   " prefix = {} for evt = {}."
                                   "".format(self.prefixer.qb64, ked))
@@ -2704,10 +2705,12 @@ class Kever:
 
         Parameters:
             serder (SerderKeri): instance of current event"""
-        if serder.ilk not in (Ilks.rot, Ilks.drt) or self.sn >= serder.sn:  # no changes
+        if (serder.ilk not in (Ilks.rot, Ilks.drt) or serder.sn < self.lastEst.s
+                or serder.said == self.lastEst.d):  # no changes
             return self.wits, self.cuts, self.adds
 
-        witset = oset(self.wits)
+        wits, _, _ = self.fetchPriorEst(serder)  # est event state it builds on
+        witset = oset(wits)
         cuts = serder.cuts
         cutset = oset(cuts)
         if len(cutset) != len(cuts):
@@ -2729,18 +2732,43 @@ class Kever:
                                   f"for evt = {serder.ked}.")
 
         if witset & addset:  # non empty intersection
-            raise ValidationError(f"Intersecting wits = {self.wits} and  adds ="
+            raise ValidationError(f"Intersecting wits = {wits} and  adds ="
                                   f"{adds} for evt = {serder.ked}.")
 
         wits = list((witset - cutset) | addset)
 
-        if len(wits) != (len(self.wits) - len(cuts) + len(adds)):  # redundant?
+        if len(wits) != (len(witset) - len(cuts) + len(adds)):  # redundant?
             raise ValidationError(f"Invalid member combination among wits = "
-                                  f"{self.wits}, cuts ={cuts}, and adds = "
+                                  f"{list(witset)}, cuts ={cuts}, and adds = "
                                   f"{adds,} for evt = {serder.ked}.")
         return (wits, cuts, adds)
 
 
+    def fetchPriorEst(self, serder):
+        """Returns tuple (wits, ndigers, ntholder) of the establishment event that
+        rotation event serder builds on. This is the latest establishment event
+        unless serder supersedes it, i.e. a delegated rotation superseding the
+        latest delegated rotation at the same sn, which builds on the
+        establishment event prior to the superseded one.
+
+        Returns:
+            wnt (tuple): of
+            wits (list[str]): prefixes of witnesses as of that event
+            ndigers (list[Diger]): next key digests committed to by that event
+            ntholder (Tholder): next threshold committed to by that event
+
+        Parameters:
+            serder (SerderKERI): instance of rotation event"""
+        if serder.sn == self.lastEst.s and serder.said != self.lastEst.d:
+            pre = self.prefixer.qb64
+            for dig in self.db.kels.getBackIter(keys=pre, on=serder.sn - 1):
+                pserder = self.db.evts.get(keys=(pre, dig))
+                if pserder is not None and pserder.estive:
+                    wits = [wit.qb64 for wit in self.db.wits.get(keys=(pre, dig))]
+                    return (wits, pserder.ndigers, pserder.ntholder)
+
+        return (self.wits, self.ndigers, self.ntholder)
+
 
     def valSigsWigsDel(self, serder, sigers, verfers, tholder,
                                 wigers, toader, wits, *,
@@ -2864,13 +2892,14 @@ class Kever:
 
         # escrow if not fully signed vs prior next rotation threshold
         if serder.ilk in (Ilks.rot, Ilks.drt):  # rotation so check prior next threshold
-            # prior next threshold in .ntholder and digers in .ndigers
-            ondices = self.exposeds(sigers)
-            if not self.ntholder.satisfy(indices=ondices):
+            # prior next threshold and digers of event that serder builds on
+            _, ndigers, ntholder = self.fetchPriorEst(serder)
+            ondices = self.exposeds(sigers, ndigers)
+            if not ntholder.satisfy(indices=ondices):
                 self.escrowPSEvent(serder=serder, sigers=sigers, wigers=wigers,
                                    delsner=delsner, delsger=delsger,local=local)
                 msg = (
-                    f"AID {pre[:4]}...{pre[-4:]}: Failure satisfying prior nsith = {self.ntholder.sith} "
+                    f"AID {pre[:4]}...{pre[-4:]}: Failure satisfying prior nsith = {ntholder.sith} "
                     f"with exposed sigs {[siger.qb64 for siger in sigers]} "
                     f"for new est evt={serder.said}")
                 logger.trace(msg)
@@ -2952,9 +2981,9 @@ class Kever:
 
 
 
-    def exposeds(self, sigers):
+    def exposeds(self, sigers, ndigers=None):
         """Returns list of ondices (indices) suitable for Tholder.satisfy
-        from self.ndigers (prior next key digests ) as exposed by event sigers.
+        from ndigers (prior next key digests ) as exposed by event sigers.
         Uses dual index feature of siger. Assumes that each siger.verfer is
         from the correct key given by siger.index and the signature has been verified.
 
@@ -2979,11 +3008,14 @@ class Kever:
         digests defined by the rotation event.
 
         Parameters:
-            sigers (list): of Siger instances  of indexed signature with .verfer"""
+            sigers (list): of Siger instances  of indexed signature with .verfer
+            ndigers (list | None): of Diger instances of prior next key digests
+                None means use self.ndigers"""
+        ndigers = ndigers if ndigers is not None else self.ndigers
         odxs = []
         for siger in sigers:
             try:
-                diger = self.ndigers[siger.ondex]
+                diger = ndigers[siger.ondex]
             except TypeError as ex:  # ondex may be None
                 continue
             except IndexError as ex:
@@ -3399,11 +3431,8 @@ class Kever:
         # Returning delegator indicates success and eventually results in acceptance
         # via Kever.logEvent which also writes the delgating event source couple to
         # db.aess so we can find it later
-        if ((serder.ilk == Ilks.dip) or  # superseding is delegated inception or
-            (serder.sner.num == self.sner.num + 1) or  # superseding is inorder later or
-            (serder.sner.num == self.sner.num and  # superseding event at same sn and
-                self.ilk == Ilks.ixn and  # superseded is interaction and
-                serder.ilk == Ilks.drt)):  # superseding is rotation
+        if ((serder.ilk == Ilks.dip) or  # delegated inception or
+            (serder.sner.num > self.lastEst.s)):  # inorder or supersedes only interactions
                     return (delsner, delsger) # indicates delegation valid
 
         # get to here means drt rotation superseding another drt rotation
@@ -3413,7 +3442,10 @@ class Kever:
 
         # set up recursive search for superseding delegations
         # get original potentially superseded delegation
-        serfo = self.serder  # original accepted delegated event i.e. serf original
+        # original accepted delegated event i.e. serf original, is latest rotation
+        if (serfo := self.db.evts.get(keys=(serder.pre, self.lastEst.d))) is None:
+            raise ValidationError(f"Missing latest establishment event "
+                                  f"{self.lastEst.d} of {serder.pre}")
         if not (bosso := self.fetchDelegatingEvent(delpre, serfo, original=True,
                                                    eager=eager)):
             self.escrowPDEvent(serder=serder, sigers=sigers, wigers=wigers,
@@ -3431,8 +3463,9 @@ class Kever:
             # Only get to here if same sn for delegated event and both
             # existing and superseding delegated events are rotations
             if (bossn.sn > bosso.sn or  # superseding delgation is later or
-                (bossn.Ilk == Ilks.drt and  # superseding  delegation is rotation and
-                 bosso.Ilk == Ilks.ixn) ): # superseded delegation is interaction
+                (bossn.sn == bosso.sn and  # at same sn and
+                 bossn.ilk in (Ilks.rot, Ilks.drt) and  # superseding  delegation is rotation and
+                 bosso.ilk == Ilks.ixn) ): # superseded delegation is interaction
                     # valid superseding delegation up chain so tail link valid
                     return (delsner, delsger)  # tail event's delegation source
 
@@ -3462,7 +3495,16 @@ class Kever:
                     logger.debug("Delegator Event Body=\n%s\n", serfn.pretty())
                     raise ValidationError(msg)
 
-            # tie condition same sn and drt so need to climb delegation chain
+            # only tie condition same sn and both drt may climb delegation chain
+            if (bossn.sn != bosso.sn or bossn.ilk != Ilks.drt or
+                    bosso.ilk != Ilks.drt):
+                msg = f"Invalid delegation recovery rotation of {serfo.pre} by {serfn.pre}"
+                logger.info(msg)
+                logger.debug("Delegate Event Body=\n%s\n", serfo.pretty())
+                logger.debug("Delegator Event Body=\n%s\n", serfn.pretty())
+                raise ValidationError(msg)
+
+            delpre = self.kevers[bossn.pre].delpre  # delegator of delegator
             serfn = bossn
             if not (bossn := self.fetchDelegatingEvent(delpre, serfn,
                                                        original=False,
@@ -4377,8 +4419,9 @@ class Kevery:
                 elif ((sn == sno) or  # inorder event (ixn, rot, drt) or
                       (ilk == Ilks.rot and  # superseding recovery rot or
                         kever.lastEst.s < sn <= sno) or
-                      (ilk == Ilks.drt and #exts['sigers'].extend(result) delegated superseding recovery drt
-                        kever.lastEst.s <= sn <= sno)):
+                      (ilk == Ilks.drt and  # delegated superseding recovery drt
+                        kever.lastEst.s <= sn <= sno and
+                        said != kever.lastEst.d)):  # not duplicate of latest drt
 
                     # verify signatures etc and update state if valid
                     # raise exception if problem.
-- 
2.43.0


From ae11620b1dff13f4ef88e234a7683ba2c62a0961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:43 +0000
Subject: [PATCH 21/97] fix: key state reloaded from the database cues queries
 instead of raising AttributeError and losing the event

---
 src/keri/core/eventing.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index aea2d98..1c89a79 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -2828,7 +2828,7 @@ class Kever:
                 for siger in list(sigers):  # copy so clean del on original elements
                     if siger.index in indices:
                         sigers.remove(siger)
-                        if self.cues:
+                        if self.cues is not None:
                             self.cues.push(dict(kin="remoteMemberedSig",
                                                 serder=serder,
                                                 index=siger.index))
@@ -2931,7 +2931,8 @@ class Kever:
                                           delsner=delsner, delsger=delsger,
                                           local=local):
                         # cue to query for witness receipts
-                        self.cues.push(dict(kin="query", q=dict(pre=serder.pre, sn=serder.snh)))
+                        if self.cues is not None:
+                            self.cues.push(dict(kin="query", q=dict(pre=serder.pre, sn=serder.snh)))
                     msg = (f"AID {pre[:4]}...{pre[-4:]}: Failure satisfying toad={toader.num} "
                            f"on witness sigs {[siger.qb64 for siger in wigers]} "
                            f"for event={serder.said}")
@@ -3359,7 +3360,8 @@ class Kever:
                 # Have to wait until delegating event at sn shows up in kel
                 # ToDo XXXX process  this cue of query to fetch delegating event from
                 # delegator
-                self.cues.push(dict(kin="query", q=dict(pre=delpre,
+                if self.cues is not None:
+                    self.cues.push(dict(kin="query", q=dict(pre=delpre,
                                                                   sn=delsner.numh,
                                                                   dig=delsger.qb64)))
                 #  escrow event here
@@ -4423,6 +4425,9 @@ class Kevery:
                         kever.lastEst.s <= sn <= sno and
                         said != kever.lastEst.d)):  # not duplicate of latest drt
 
+                    if kever.cues is None:  # reloaded from key state in db
+                        kever.cues = self.cues
+
                     # verify signatures etc and update state if valid
                     # raise exception if problem.
                     # Otherwise adds to KELs
-- 
2.43.0


From f24ec5e45f828f2f24249eea926969908bc8ad9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:15 +0000
Subject: [PATCH 22/97] fix: record likely duplicitous events instead of
 raising AttributeError

---
 src/keri/core/eventing.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index 1c89a79..681b4d8 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -4399,7 +4399,7 @@ class Kevery:
                         kever.logEvent(serder, sigers=sigers, wigers=wigers)
 
                 else:  # escrow likely duplicitous event
-                    self.escrowLDEvent(serder=serder, sigers=sigers)
+                    self.escrowLDEvent(serder=serder, sigers=sigers, local=local)
                     msg = f"Likely Duplicitous Event sn={serder.sn} type={serder.ilk} SAID={serder.said}"
                     logger.debug(msg)
                     logger.debug("Duplicitous event body=\n%s\n", serder.pretty())
@@ -4488,7 +4488,7 @@ class Kevery:
                             kever.logEvent(serder, sigers=sigers, wigers=wigers)  # idempotent update db logs
 
                     else:  # escrow likely duplicitous event
-                        self.escrowLDEvent(serder=serder, sigers=sigers)
+                        self.escrowLDEvent(serder=serder, sigers=sigers, local=local)
                         msg = f"Likely Duplicitous Event sn={serder.sn} type={serder.ilk} SAID={serder.said}"
                         logger.debug(msg)
                         logger.debug("Duplicitous event body=\n%s\n", serder.pretty())
@@ -5865,7 +5865,7 @@ class Kevery:
         self.db.dtss.put(keys=dgkey, val=Dater())
         self.db.sigs.put(keys=dgkey, vals=sigers)
         self.db.evts.put(keys=(serder.preb, serder.saidb), val=serder)
-        self.db.addLde(snKey(serder.preb, serder.sn), serder.saidb)
+        self.db.ldes.add(keys=serder.preb, on=serder.sn, val=serder.saidb)
         # log duplicitous
         logger.debug("Kevery process: escrowed likely duplicitous event=\n%s\n", serder.pretty())
 
-- 
2.43.0


From 02e51032bcf9d91898fdad35b51f0dcb55515be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:39 +0000
Subject: [PATCH 23/97] fix: event escrowed again after its escrow timed out
 gets its timeout anew

---
 src/keri/core/eventing.py | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index 681b4d8..fdfc4e2 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -1938,6 +1938,23 @@ def messagize(serder, *, sigers=None, tsgs=None, lsgs=None, wigers=None,
     return gims
 
 
+def stampEscrow(db, dgkey, fresh):
+    """Sets datetime stamp used to time out escrowed event at dgkey. Restarts the
+    timeout when event newly enters an escrow, such as, when received again after
+    its earlier escrow timed out. Otherwise does not change already set datetime.
+    Never changes the first seen datetime of an already accepted event.
+
+    Parameters:
+        db (Baser): instance of database
+        dgkey (bytes): digest key of event
+        fresh (bool): True means event is not already in that escrow.
+            False otherwise"""
+    if fresh and db.fons.get(keys=dgkey) is None:
+        db.dtss.pin(keys=dgkey, val=Dater())
+    else:
+        db.dtss.put(keys=dgkey, val=Dater())  # idempotent
+
+
 class Kever:
     """
     Kever is KERI key event verifier class
@@ -3808,7 +3825,7 @@ class Kever:
             esr = EventSourceRecord(local=local)
             self.db.esrs.put(keys=dgkey, val=esr)
 
-        self.db.dtss.put(keys=dgkey, val=Dater())
+        stampEscrow(self.db, dgkey, serder.said not in self.db.delegables.get(keys=snKey(serder.preb, serder.sn)))
         self.db.sigs.put(keys=dgkey, vals=sigers)
         self.db.evts.put(keys=(serder.preb, serder.saidb), val=serder)
         if wigers:
@@ -3836,7 +3853,7 @@ class Kever:
                 Event validation logic is a function of local or remote"""
         local = True if local else False
         dgkey = dgKey(serder.preb, serder.saidb)
-        self.db.dtss.put(keys=dgkey, val=Dater())  # idempotent
+        stampEscrow(self.db, dgkey, serder.said not in self.db.pses.get(keys=serder.preb, on=serder.sn))
         if sigers:
             self.db.sigs.put(keys=dgkey, vals=sigers)
         if wigers:
@@ -3877,7 +3894,7 @@ class Kever:
                 Event validation logic is a function of local or remote"""
         local = True if local else False
         dgkey = dgKey(serder.preb, serder.saidb)
-        self.db.dtss.put(keys=dgkey, val=Dater())  # idempotent
+        stampEscrow(self.db, dgkey, serder.said not in self.db.pwes.get(keys=serder.preb, on=serder.sn))
 
         if sigers:
             self.db.sigs.put(keys=dgkey, vals=sigers)
@@ -3929,7 +3946,7 @@ class Kever:
                 Event validation logic is a function of local or remote"""
         local = True if local else False
         dgkey = dgKey(serder.preb, serder.saidb)
-        self.db.dtss.put(keys=dgkey, val=Dater())  # idempotent
+        stampEscrow(self.db, dgkey, serder.said not in self.db.pdes.get(keys=serder.preb, on=serder.sn))
 
         if sigers:  # idempotent
             self.db.sigs.put(keys=dgkey, vals=sigers)
@@ -5806,7 +5823,7 @@ class Kevery:
             esr = EventSourceRecord(local=local)
             self.db.esrs.put(keys=dgkey, val=esr)
 
-        self.db.dtss.put(keys=dgkey, val=Dater())
+        stampEscrow(self.db, dgkey, serder.said not in self.db.ooes.get(keys=serder.preb, on=serder.sn))
         self.db.sigs.put(keys=dgkey, vals=sigers)
         self.db.evts.put(keys=(serder.preb, serder.saidb), val=serder)
         if wigers:
@@ -5862,7 +5879,7 @@ class Kevery:
             esr = EventSourceRecord(local=local)
             self.db.esrs.put(keys=dgkey, val=esr)
 
-        self.db.dtss.put(keys=dgkey, val=Dater())
+        stampEscrow(self.db, dgkey, serder.said not in self.db.ldes.get(keys=serder.preb, on=serder.sn))
         self.db.sigs.put(keys=dgkey, vals=sigers)
         self.db.evts.put(keys=(serder.preb, serder.saidb), val=serder)
         self.db.ldes.add(keys=serder.preb, on=serder.sn, val=serder.saidb)
-- 
2.43.0


From 00f1544c381149ef3d930ca4bbe8650b9a8f6706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:50 +0000
Subject: [PATCH 24/97] fix: a receipt is stored under the event it signs, an
 unknown version is refused and early rsgs receipts are escrowed

---
 src/keri/core/eventing.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index fdfc4e2..6b6bf1e 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -4557,8 +4557,8 @@ class Kevery:
             # retrieve event by dig assumes if ldig is not None that event exists at ldig
             dgkey = dgKey(serder.preb, serder.saidb)
             lserder = self.db.evts.get(keys=(serder.preb, serder.saidb))  # retrieve receipted event at dig
-            # assumes db ensures that lserder must not be none
-            if not lserder.compare(said=ked["d"]):  # stale receipt at sn discard
+            # receipt may be for other version of event at sn so may not be in db
+            if lserder is None or not lserder.compare(said=ked["d"]):  # stale receipt at sn discard
                 raise ValidationError("Stale receipt at sn = {} for rct = {}."
                                       "".format(ked["s"], ked))
 
@@ -4674,7 +4674,7 @@ class Kevery:
                     siger.verfer = sverfers[siger.index]  # assign verfer
                     if siger.verfer.verify(siger.raw, lserder.raw):  # verify sig
                         # good sig so write receipt to database
-                        keys = (pre, ldig, sprefixer.qb64, snumber.onkey, sdiger.qb64)
+                        keys = (pre, serder.said, sprefixer.qb64, snumber.onkey, sdiger.qb64)
                         self.db.vrcs.add(keys=keys, val=siger)  # add to ioset at keys
 
             for sprefixer, snumber, sdiger, sigers in rsgs:  # iterate over each tsg
@@ -4732,7 +4732,7 @@ class Kevery:
                     siger.verfer = sverfers[siger.index]  # assign verfer
                     if siger.verfer.verify(siger.raw, lserder.raw):  # verify sig
                         # good sig so write receipt to database
-                        keys = (pre, ldig, sprefixer.qb64, snumber.onkey, sdiger.qb64)
+                        keys = (pre, serder.said, sprefixer.qb64, snumber.onkey, sdiger.qb64)
                         self.db.vrcs.add(keys=keys, val=siger)  # add to ioset at keys
 
         else:  # no events to be receipted yet at that sn so escrow
@@ -4742,6 +4742,9 @@ class Kevery:
             if tsgs:
                 self.escrowTRGroups(serder, tsgs)
 
+            if rsgs:
+                self.escrowTRGroups(serder, rsgs)
+
             if wigers:
                 self.escrowUWReceipt(serder=serder, wigers=wigers, said=ked["d"])
 
@@ -4965,7 +4968,7 @@ class Kevery:
                     continue  # skip own receipt attachment on non-local event
 
             if cigar.verfer.verify(cigar.raw, serder.raw):
-                wits = self.fetchWitnessState(pre, sn)
+                wits = [wit.qb64 for wit in self.fetchWitnessState(pre, sn)]
                 rpre = cigar.verfer.qb64  # prefix of receiptor
                 if rpre in wits:  # its a witness receipt
                     index = wits.index(rpre)
-- 
2.43.0


From 52b9320022a49e86a7bce8ba289175393df91dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:50 +0000
Subject: [PATCH 25/97] fix: undo acceptance of an event interrupted by a crash
 before the key state was updated

---
 src/keri/core/eventing.py |  1 +
 src/keri/db/basing.py     | 35 +++++++++++++++++++++++++++++++++++
 2 files changed, 36 insertions(+)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index 6b6bf1e..8a48a8c 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -3738,6 +3738,7 @@ class Kever:
 
         pre = self.prefixer.qb64
         if first:  # append event dig to first seen database in order
+            self.db.unwind(serder.pre)  # any event whose acceptance was interrupted
             fn = self.db.fels.append(keys=serder.preb, val=serder.saidb)
             if firner and fn != firner.sn:  # cloned replay but replay fn not match
                 if self.cues is not None:  # cue to notice BadCloneFN
diff --git a/src/keri/db/basing.py b/src/keri/db/basing.py
index 6de2d91..c137996 100644
--- a/src/keri/db/basing.py
+++ b/src/keri/db/basing.py
@@ -1343,6 +1343,18 @@ class Baser(LMDBer):
         if not self.current:
             raise DatabaseError(f"Database migrations must be run. DB version {self.version}; current {__version__}")
 
+        if not self.readonly:
+            pres = []  # first seen prefixes
+            with self.env.begin(db=self.fels.sdb, write=False) as txn:
+                cursor = txn.cursor()
+                key = b''
+                while cursor.set_range(key) if key else cursor.first():
+                    pre, _, _ = bytes(cursor.key()).rpartition(b'.')
+                    pres.append(pre.decode())
+                    key = pre + b'/'  # just past all keys pre.on
+            for pre in pres:
+                self.unwind(pre)
+
         removes = []
         for keys, data in self.habs.getTopItemIter():
             if (ksr := self.states.get(keys=data.hid)) is not None:
@@ -1365,6 +1377,29 @@ class Baser(LMDBer):
         for keys in removes:  # remove bare .habs records
             self.habs.rem(keys=keys)
 
+    def unwind(self, pre):
+        """
+        Undoes acceptance of latest first seen event of pre when its acceptance
+        was interrupted, such as by a crash, before the key state of pre was
+        updated. Otherwise that event would be first seen twice when accepted
+        again or the logs would contain an event that is not part of key state.
+        Escrows that event so it gets processed again.
+
+        Parameters:
+            pre (str): qb64 identifier prefix
+        """
+        ksr = self.states.get(keys=pre)
+        fn = int(ksr.f, 16) + 1 if ksr is not None else 0
+        saids = list(self.fels.getAllIter(keys=pre, on=fn))
+        if len(saids) != 1:  # at most one event may be interrupted
+            return
+        said = saids[0]
+        if (serder := self.evts.get(keys=(pre, said))) is not None:
+            self.pses.add(keys=pre, on=serder.sn, val=said)
+            self.kels.rem(keys=pre, on=serder.sn, val=said)
+        self.fons.rem(keys=(pre, said))
+        self.fels.rem(keys=pre, on=fn)  # last so repeated when interrupted itself
+
     def migrate(self):
         """ Run all migrations required
 
-- 
2.43.0


From 1ef4462c966c9a4529a442176501a09d5b6c7391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:14 +0000
Subject: [PATCH 26/97] fix: judge an event fully witnessed by the witness
 threshold in force at that event

---
 src/keri/db/basing.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/keri/db/basing.py b/src/keri/db/basing.py
index c137996..fb7e8a6 100644
--- a/src/keri/db/basing.py
+++ b/src/keri/db/basing.py
@@ -2112,8 +2112,12 @@ class Baser(LMDBer):
         # have been gathered if this ius a witness for serder.pre
         # get unique verified wigers and windices lists from wigers list
         wigers = self.wigs.get(keys=(serder.preb, serder.saidb))
-        kever = self.kevers[serder.pre]
-        toad = kever.toader.num
+        # toad as of event, that of current key state may differ
+        eserder = serder
+        while eserder is not None and not eserder.estive:
+            eserder = self.evts.get(keys=(serder.preb, eserder.prior))
+        toad = (eserder.bn if eserder is not None
+                else self.kevers[serder.pre].toader.num)
 
         return not len(wigers) < toad
 
-- 
2.43.0


From 4d7af330c9be4ff4c4b65013e07946e2e3f6229d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:14 +0000
Subject: [PATCH 27/97] fix: judge escrowed receipts of an accepted event by
 the witnesses of that event

---
 src/keri/core/eventing.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index 8a48a8c..7e3ad5d 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -6925,10 +6925,8 @@ class Kevery:
                         logger.trace("Kevery unescrow error: %s", msg)
                         raise UnverifiedReceiptError(msg)
 
-                    # get current wits from kever state assuming not stale
-                    # receipt. Need function here to compute wits for actual
-                    # state at pre, sn. XXXX
-                    wits = self.kevers[serder.pre].wits
+                    # get wits as of receipted event, current wits may differ
+                    wits = [wit.qb64 for wit in self.fetchWitnessState(serder.pre, serder.sn)]
                     rpre = cigar.verfer.qb64  # prefix of receiptor
                     if rpre in wits:  # its a witness receipt
                         # this only works for extra receipts that come in later
@@ -7203,7 +7201,12 @@ class Kevery:
                 continue  # not match keep looking
 
             # Extract or compute witness list
-            if serder.ked['t'] in (Ilks.icp, Ilks.dip):  # inception get from event
+            if self.db.kels.getLast(keys=pre, on=sn) == serder.said:
+                # already accepted but not yet removed from .Pwes so the witness
+                # state as of event is known and must not be derived again
+                wits = [wit.qb64 for wit in self.fetchWitnessState(serder.pre, serder.sn)]
+
+            elif serder.ked['t'] in (Ilks.icp, Ilks.dip):  # inception get from event
                 wits = serder.ked['b']  # get wits from event itself
                 if len(oset(wits)) != len(wits):
                     raise ValidationError("Invalid wits = {}, has duplicates for evt = {}."
-- 
2.43.0


From ad634221f7345c925c54d805621a53ea92982b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:46 +0000
Subject: [PATCH 28/97] fix: an event already in the key event log is not
 accepted again as a superseding event

---
 src/keri/core/eventing.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index 7e3ad5d..353a787 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -4437,11 +4437,11 @@ class Kevery:
                     raise OutOfOrderError(msg)
 
                 elif ((sn == sno) or  # inorder event (ixn, rot, drt) or
-                      (ilk == Ilks.rot and  # superseding recovery rot or
-                        kever.lastEst.s < sn <= sno) or
-                      (ilk == Ilks.drt and  # delegated superseding recovery drt
-                        kever.lastEst.s <= sn <= sno and
-                        said != kever.lastEst.d)):  # not duplicate of latest drt
+                      (said not in self.db.kels.get(keys=pre, on=sn) and  # not yet seen
+                        ((ilk == Ilks.rot and  # superseding recovery rot or
+                            kever.lastEst.s < sn <= sno) or
+                         (ilk == Ilks.drt and  # delegated superseding recovery drt
+                            kever.lastEst.s <= sn <= sno)))):
 
                     if kever.cues is None:  # reloaded from key state in db
                         kever.cues = self.cues
-- 
2.43.0


From 90f5fc6a17caa45a3f0c9144bfcaa98e24e39f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:46 +0000
Subject: [PATCH 29/97] fix: a receipt is judged by the witnesses of the event
 it signs, superseded or superseding

---
 src/keri/core/eventing.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index 353a787..296dd25 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -4282,12 +4282,14 @@ class Kevery:
         Returns:
             list:  list of Prefixer objects representing the witness state for the identifier prefix at
                 the sequence number"""
-        preb = pre.encode("utf-8")
-        for digb in self.db.kels.getBackIter(keys=preb, on=sn):
-            serder = self.db.evts.get(keys=(preb, digb))
+        # walk back by prior digs since event at earlier sn may be superseded
+        dig = self.db.kels.getLast(keys=pre, on=sn)
+        while dig is not None:
+            if (serder := self.db.evts.get(keys=(pre, dig))) is None:
+                break
             if serder.estive:
-                wits = self.db.wits.get(keys=(preb, digb))
-                return wits
+                return self.db.wits.get(keys=(pre, dig))
+            dig = serder.prior
 
         return []
 
@@ -4554,12 +4556,17 @@ class Kevery:
         # Only accept receipt if for last seen version of event at sn
         ldig = self.db.kels.getLast(keys=pre, on=sn) # retrieve dig of last event at sn.
 
+        if (ldig is not None and ldig != serder.said and
+                serder.said in self.db.pwes.get(keys=pre, on=sn)):
+            ldig = None  # receipt of superseding event still waiting on receipts
+
         if ldig is not None:  # verify digs match
             # retrieve event by dig assumes if ldig is not None that event exists at ldig
             dgkey = dgKey(serder.preb, serder.saidb)
             lserder = self.db.evts.get(keys=(serder.preb, serder.saidb))  # retrieve receipted event at dig
             # receipt may be for other version of event at sn so may not be in db
-            if lserder is None or not lserder.compare(said=ked["d"]):  # stale receipt at sn discard
+            if (lserder is None or ldig != serder.said or
+                    not lserder.compare(said=ked["d"])):  # stale receipt at sn discard
                 raise ValidationError("Stale receipt at sn = {} for rct = {}."
                                       "".format(ked["s"], ked))
 
-- 
2.43.0


From 7492a0259533d5f670dacb78728287a18e67ba91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:57 +0000
Subject: [PATCH 30/97] fix: remove the stale signature groups of a reply that
 is accepted with later ones

---
 src/keri/core/routing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/keri/core/routing.py b/src/keri/core/routing.py
index d2b9b27..3d574af 100644
--- a/src/keri/core/routing.py
+++ b/src/keri/core/routing.py
@@ -403,13 +403,13 @@ class Revery:
                 # remove stale signatures .tsgs for this saider
                 # this ensures that zeroth tsg is authoritative
                 for prr, snr, dgr, _ in fetchTsgs(
-                    db=self.db.tsgs, diger=saider, snh=snumber.snh
+                    db=self.db.tsgs, diger=saider, snh=f"{snumber.sn:032x}"
                 ):
                     if (snr.sn < snumber.sn) or (
                         snr.sn == snumber.sn and dgr.qb64 != sdiger.qb64
                     ):
                         self.db.tsgs.trim(
-                            keys=(prr.qb64, f"{snr.sn:032h}", dgr.qb64, "")
+                            keys=(saider.qb64, prr.qb64, f"{snr.sn:032x}", dgr.qb64, "")
                         )
 
                 accepted = True
-- 
2.43.0


From b7cba0e8ee637364150a1ebed383b98dc8d16383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:57 +0000
Subject: [PATCH 31/97] fix: a reply dropped from escrow keeps its artifacts
 when it is the accepted one

---
 src/keri/core/routing.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/keri/core/routing.py b/src/keri/core/routing.py
index 3d574af..83bc967 100644
--- a/src/keri/core/routing.py
+++ b/src/keri/core/routing.py
@@ -465,6 +465,18 @@ class Revery:
             quadkeys = (saider.qb64, prefixer.qb64, f"{seqner.sn:032x}", diger.qb64)
             self.db.tsgs.put(keys=quadkeys, vals=sigers)
 
+    def dropReply(self, saider):
+        """Remove Reply SAD artifacts of a reply dropped from escrow unless these
+        are the artifacts of an already accepted reply.
+
+        Parameters:
+            saider (Diger): instance from said in serder (SAD)"""
+        for ans in (self.db.eans, self.db.lans, self.db.wwas):
+            for _, val in ans.getTopItemIter():
+                if val.qb64b == saider.qb64b:
+                    return
+        self.removeReply(saider=saider)
+
     def removeReply(self, saider):
         """Remove Reply SAD artifacts given by saider.
 
@@ -543,7 +555,7 @@ class Revery:
 
                 except Exception as ex:  # other error so remove from reply escrow
                     self.db.rpes.rem(keys=(route,), val=diger)  # remove escrow only
-                    self.removeReply(diger)  # remove escrow reply artifacts
+                    self.dropReply(diger)  # remove escrow reply artifacts
                     if logger.isEnabledFor(logging.DEBUG):
                         logger.exception(
                             "Revery unescrowed due to error: %s", ex.args[0]
@@ -560,7 +572,7 @@ class Revery:
 
             except Exception as ex:  # log diagnostics errors etc
                 self.db.rpes.rem(keys=(route,), val=diger)  # remove escrow only
-                self.removeReply(diger)  # remove escrow reply artifacts
+                self.dropReply(diger)  # remove escrow reply artifacts
                 if logger.isEnabledFor(logging.DEBUG):
                     logger.exception("Revery unescrowed due to error: %s", ex.args[0])
                 else:
-- 
2.43.0


From 93a6a61d3b96ebdf2ca32b70fd7e48429039f393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:57 +0000
Subject: [PATCH 32/97] fix: an accepted reply presented again stays accepted,
 and the reply it replaces is removed last

---
 src/keri/core/eventing.py |  6 ++++--
 src/keri/core/routing.py  | 33 +++++++++++++++++++++++++++++----
 2 files changed, 33 insertions(+), 6 deletions(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index 296dd25..d9218bd 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -5226,8 +5226,6 @@ class Kevery:
         aid = cid  # authorizing attribution id
         keys = (aid, role, eid)
         osaider = self.db.eans.get(keys=keys)  # get old said if any
-        if osaider is not None and osaider.qb64b == diger.qb64b: # check idempotent
-            osaider = None
         # BADA Logic
         accepted = self.rvy.acceptReply(serder=serder, saider=diger, route=route,
                                         aid=aid, osaider=osaider, cigars=cigars,
@@ -5239,6 +5237,7 @@ class Kevery:
             raise UnverifiedReplyError(msg)
 
         self.updateEnd(keys=keys, saider=diger, allowed=allowed)  # update .eans and .ends
+        self.rvy.obsoleteReply(route=route, saider=diger, osaider=osaider)
 
 
     def processReplyLocScheme(self, *, serder, diger, route,
@@ -5337,6 +5336,7 @@ class Kevery:
             raise UnverifiedReplyError(msg)
 
         self.updateLoc(keys=keys, saider=diger, url=url)  # update .lans and .locs
+        self.rvy.obsoleteReply(route=route, saider=diger, osaider=osaider)
 
 
     def processReplyKeyStateNotice(self, *, serder, diger, route,
@@ -5463,6 +5463,7 @@ class Kevery:
                 raise ValidationError(f"Mismatch keystate at sn = {int(ksr.s,16)} with db.")
 
         self.updateKeyState(aid=aid, ksr=ksr, saider=ksr_diger, dater=dater)
+        self.rvy.obsoleteReply(route=route, saider=diger, osaider=osaider)
         self.cues.push(dict(kin="keyStateSaved", ksn=asdict(ksr)))
 
 
@@ -5604,6 +5605,7 @@ class Kevery:
         if oobi:
             self.db.oobis.pin(keys=(oobi,), val=OobiRecord(date=helping.nowIso8601()))
         self.updateWatched(keys=keys, saider=diger, enabled=enabled)
+        self.rvy.obsoleteReply(route=route, saider=diger, osaider=osaider)
 
     def updateWatched(self, keys, saider, enabled=None):
         """
diff --git a/src/keri/core/routing.py b/src/keri/core/routing.py
index 83bc967..363ef61 100644
--- a/src/keri/core/routing.py
+++ b/src/keri/core/routing.py
@@ -227,6 +227,8 @@ class Revery:
         i.e. route is address of buffer with route specific handler of escrow."""
         # BADA logic.
         accepted = False  # flag to raise UnverifiedReplyError not accepted
+        # same reply already accepted, so only its signatures may be more recent
+        same = osaider is not None and osaider.qb64b == saider.qb64b
         cigars = cigars if cigars is not None else []
         tsgs = tsgs if tsgs is not None else []
 
@@ -266,7 +268,7 @@ class Revery:
                 logger.debug("Reply Body=\n%s\n", serder.pretty())
                 continue  # skip invalid cig's verfer is not aid
 
-            if odater:  # get old compare datetimes to see if later
+            if odater and not same:  # get old compare datetimes to see if later
                 if dater.datetime <= odater.datetime:
                     logger.trace(
                         "Revery: skipped stale update from %s of reply at route= %s",
@@ -289,7 +291,6 @@ class Revery:
 
             # All constraints satisfied so update
             self.updateReply(serder=serder, saider=saider, dater=dater, cigar=cigar)
-            self.removeReply(saider=osaider)  # remove obsoleted reply artifacts
             accepted = True
             break  # first valid cigar sufficient ignore any duplicates in cigars
 
@@ -329,7 +330,7 @@ class Revery:
                         logger.debug("event=\n%s\n", serder.pretty())
                         continue  # skip if sn earlier
 
-                    if snumber.sn == osqr.sn:  # sn same so check datetime
+                    if snumber.sn == osqr.sn and not same:  # sn same so check datetime
                         if odater:
                             if dater.datetime <= odater.datetime:
                                 logger.info(
@@ -399,7 +400,6 @@ class Revery:
                     diger=sdiger,
                     sigers=sigers,
                 )
-                self.removeReply(saider=osaider)  # remove obsoleted reply artifacts
                 # remove stale signatures .tsgs for this saider
                 # this ensures that zeroth tsg is authoritative
                 for prr, snr, dgr, _ in fetchTsgs(
@@ -465,6 +465,24 @@ class Revery:
             quadkeys = (saider.qb64, prefixer.qb64, f"{seqner.sn:032x}", diger.qb64)
             self.db.tsgs.put(keys=quadkeys, vals=sigers)
 
+    def obsoleteReply(self, route, saider, osaider=None):
+        """Remove Reply SAD artifacts of the reply replaced by an accepted reply.
+
+        To be called once the databases that refer to the accepted reply have
+        been updated, so that at any time what they refer to exists. The
+        artifacts of a replaced reply that waits in escrow for its later
+        signatures are left to the processing of that escrow.
+
+        Parameters:
+            route (str): reply route as used for escrow
+            saider (Diger): instance from said of accepted reply
+            osaider (Diger): instance from said of previous reply if any"""
+        if osaider is None or osaider.qb64b == saider.qb64b:
+            return
+        if any(val.qb64b == osaider.qb64b for val in self.db.rpes.get(keys=(route,))):
+            return
+        self.removeReply(saider=osaider)
+
     def dropReply(self, saider):
         """Remove Reply SAD artifacts of a reply dropped from escrow unless these
         are the artifacts of an already accepted reply.
@@ -564,6 +582,13 @@ class Revery:
                         logger.error("Revery unescrowed due to error: %s", ex.args[0])
 
                 else:  # unescrow succeded
+                    # later signatures still waiting on signer's est event
+                    if any(
+                        self.db.kels.getLast(keys=pre.qb64, on=snr.sn) is None
+                        for pre, snr, _, _ in tsgs
+                    ):
+                        continue
+
                     self.db.rpes.rem(keys=(route,), val=diger)  # remove escrow only
                     logger.info(
                         "Revery unescrow succeeded for reply said=%s", serder.said
-- 
2.43.0


From d8f33c1eb42af89448561f749aed4b44d976b682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:36 +0000
Subject: [PATCH 33/97] fix: KRAM takes the latest establishment event, not the
 latest event, as current key state

---
 src/keri/core/kraming.py | 37 ++++++++++++++++++-------------------
 1 file changed, 18 insertions(+), 19 deletions(-)

diff --git a/src/keri/core/kraming.py b/src/keri/core/kraming.py
index d25f4f7..625b07e 100644
--- a/src/keri/core/kraming.py
+++ b/src/keri/core/kraming.py
@@ -20,7 +20,7 @@ from hio.base import doing
 from hio.help import ogler
 
 
-from .coring import Verser, Prefixer, Diger
+from .coring import Verser, Prefixer, Diger, Number
 from .indexing import Siger
 from .eventing import verifySigs
 
@@ -69,8 +69,7 @@ Fields:
 
 Key state ref and tholder are derivable from the sender's kever
 (current key state) and are not included here. Callers that need
-them should construct directly from kever.sner, kever.serder.said,
-and kever.tholder.
+them should construct directly from kever.lastEst and kever.tholder.
 """
 
 
@@ -455,8 +454,8 @@ class Kramer:
                 exist (``kramit`` ensures this before calling).
         """
         tsgs = kwa.get('tsgs', [])
-        cur_sn = kever.sner.num
-        cur_said = kever.serder.said
+        cur_sn = kever.lastEst.s
+        cur_said = kever.lastEst.d
         for prefixer, number, sdiger, sigers in tsgs:
             if prefixer.qb64 != senderId:
                 continue
@@ -552,8 +551,8 @@ class Kramer:
         if not tsgs:
             return stale_tsgs
 
-        cur_sn = kever.sner.num
-        cur_said = kever.serder.said
+        cur_sn = kever.lastEst.s
+        cur_said = kever.lastEst.d
         new_tsgs = []
         for quad in tsgs:
             prefixer, number, sdiger, sigers = quad
@@ -608,8 +607,8 @@ class Kramer:
             if not kwa['lsgs']:
                 kwa.pop('lsgs', None)
 
-        curSn = kever.sner.num
-        curSaid = kever.serder.said
+        curSn = kever.lastEst.s
+        curSaid = kever.lastEst.d
         if kwa.get('tsgs'):
             newTsgs = []
             for quad in kwa['tsgs']:
@@ -694,8 +693,8 @@ class Kramer:
         for prefixer, number, sdiger, sigers in kwa.get('tsgs', []):
             if prefixer.qb64 != senderId:
                 continue
-            if (number.sn != kever.sner.num or
-                    sdiger.qb64 != kever.serder.said):
+            if (number.sn != kever.lastEst.s or
+                    sdiger.qb64 != kever.lastEst.d):
                 continue
             for siger in sigers:
                 pool.add(siger.qb64)
@@ -1093,8 +1092,8 @@ class Kramer:
 
                 # Key state change detection:
                 # Compare stored key state ref against current kever state
-                currentKeyState = (kever.sner,
-                                   Diger(qb64=kever.serder.said))
+                currentKeyState = (Number(num=kever.lastEst.s),
+                                   Diger(qb64=kever.lastEst.d))
                 storedKeyState = self.db.kramPMSK.get(key)
                 if storedKeyState:
                     storedSn, storedSaid = storedKeyState
@@ -1248,8 +1247,8 @@ class Kramer:
                         return msg
 
                     # Threshold not met, store partials for accumulation
-                    currentKeyState = (kever.sner,
-                                       Diger(qb64=kever.serder.said))
+                    currentKeyState = (Number(num=kever.lastEst.s),
+                                       Diger(qb64=kever.lastEst.d))
                     self.db.kramPMKM.put(key, msg)
                     for sig in sigResult.sigers:
                         self.db.kramPMKS.add(key, sig)
@@ -1326,8 +1325,8 @@ class Kramer:
                 # Key state change detection:
                 # Compare stored key state ref against current kever state.
                 # Partial dbs use (AID.MID) key per spec, not (AID.XID.MID).
-                currentKeyState = (kever.sner,
-                                   Diger(qb64=kever.serder.said))
+                currentKeyState = (Number(num=kever.lastEst.s),
+                                   Diger(qb64=kever.lastEst.d))
                 storedKeyState = self.db.kramPMSK.get(partialKey)
                 if storedKeyState:
                     storedSn, storedSaid = storedKeyState
@@ -1534,8 +1533,8 @@ class Kramer:
 
                     # Threshold not met, store partials for accumulation.
                     # Partial dbs use (AID.MID) key per spec, not (AID.XID.MID).
-                    currentKeyState = (kever.sner,
-                                       Diger(qb64=kever.serder.said))
+                    currentKeyState = (Number(num=kever.lastEst.s),
+                                       Diger(qb64=kever.lastEst.d))
                     self.db.kramPMKM.put(partialKey, msg)
                     for sig in sigResult.sigers:
                         self.db.kramPMKS.add(partialKey, sig)
-- 
2.43.0


From 5476c23e65d33801f47fb13dd126b61691207158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:36 +0000
Subject: [PATCH 34/97] fix: KRAM finds the key state of a sender held only in
 the database

---
 src/keri/core/kraming.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/keri/core/kraming.py b/src/keri/core/kraming.py
index 625b07e..4d02729 100644
--- a/src/keri/core/kraming.py
+++ b/src/keri/core/kraming.py
@@ -964,6 +964,8 @@ class Kramer:
             for d in self.denials:
                 if md.startswith(d):
                     return serder
+            if serder.pre:  # pull key state not in memory from the database
+                _ = serder.pre in self.db.kevers
             return self.kramit(serder, kwa)
         return serder  # KRAM disabled for all messages return message for further processing
 
-- 
2.43.0


From 086cc6c047e7684268d04efe54692fe5a10d7f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:19 +0000
Subject: [PATCH 35/97] fix: KRAM drops a multi-key request that already met
 its threshold when more of it arrives

---
 src/keri/core/kraming.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/keri/core/kraming.py b/src/keri/core/kraming.py
index 4d02729..6909da2 100644
--- a/src/keri/core/kraming.py
+++ b/src/keri/core/kraming.py
@@ -1109,6 +1109,10 @@ class Kramer:
                     existingSigs = []
 
                 existingSigIndices = {sig.index for sig in existingSigs}
+                if (existingSigIndices and
+                        kever.tholder.satisfy(indices=sorted(existingSigIndices))):
+                    return None  # replay, already passed with earlier delivery
+
                 newSigs = [sig for sig in sigResult.sigers
                            if sig.index not in existingSigIndices]
 
@@ -1342,6 +1346,10 @@ class Kramer:
                     existingSigs = []
 
                 existingSigIndices = {sig.index for sig in existingSigs}
+                if (existingSigIndices and
+                        kever.tholder.satisfy(indices=sorted(existingSigIndices))):
+                    return None  # replay, already passed with earlier delivery
+
                 newSigs = [sig for sig in sigResult.sigers
                            if sig.index not in existingSigIndices]
 
-- 
2.43.0


From c4f45573817ea686bf175889c6a08a5c8371b890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:58 +0000
Subject: [PATCH 36/97] fix: KRAM keeps a cache entry until the message itself
 can no longer be replayed

---
 src/keri/core/kraming.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/keri/core/kraming.py b/src/keri/core/kraming.py
index 6909da2..22c3072 100644
--- a/src/keri/core/kraming.py
+++ b/src/keri/core/kraming.py
@@ -2121,8 +2121,9 @@ class Kramer:
             d = cache.d
             pml = cache.pml
 
-            # Apply the comparison from the whitepaper
-            if not rdt_ms - d - pml <= mdt_ms <= rdt_ms + d:
+            # Expired once past prune lag. Entry dated ahead of receiver clock,
+            # as when that clock was set back, still protects from replay.
+            if mdt_ms < rdt_ms - d - pml:
                 self.db.kramMSGC.rem(keys=(aid, mid))
                 self.db.kramPMKM.rem(keys=(aid, mid))
                 self.db.kramPMKS.rem(keys=(aid, mid))
@@ -2150,11 +2151,14 @@ class Kramer:
             # Get the exchange time from the cache
             xdt_ms = int(helping.fromIso8601(cache.xdt).timestamp() * 1000)
 
+            mdt_ms = int(helping.fromIso8601(cache.mdt).timestamp() * 1000)
+
             # Get the prune lag values from the cache record
             pxl = cache.pxl
 
-            # Apply the comparison
-            if not xdt_ms <= rdt_ms <= xdt_ms + pxl:
+            # Expired once exchange is past its prune lag and message itself is
+            # past its own, until then entry protects from replay of message.
+            if rdt_ms > xdt_ms + pxl and mdt_ms < rdt_ms - cache.d - cache.pml:
                 self.db.kramTMSC.rem(keys=(aid, xid, mid))
                 self.db.kramPMKM.rem(keys=(aid, mid))
                 self.db.kramPMKS.rem(keys=(aid, mid))
-- 
2.43.0


From 3537d695352651648fa6fc4324118e23f7abd6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:40 +0000
Subject: [PATCH 37/97] fix: KRAM remembers a sealed request of a multi-key
 sender as long as its signed form is acceptable

---
 src/keri/core/kraming.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/keri/core/kraming.py b/src/keri/core/kraming.py
index 22c3072..d1255fb 100644
--- a/src/keri/core/kraming.py
+++ b/src/keri/core/kraming.py
@@ -1174,6 +1174,9 @@ class Kramer:
                 else:
                     ml = cacheTypeRecord.sl   # short lag for seal/single-key
                     pml = cacheTypeRecord.psl
+                    if len(kever.verfers) > 1:
+                        # replay with seal replaced by signatures has long lag
+                        pml = max(pml, cacheTypeRecord.pll)
 
                 # Timeliness check (millisecond units)
                 rdt = helping.fromIso8601(
@@ -1409,6 +1412,9 @@ class Kramer:
                 else:
                     ml = cacheTypeRecord.sl   # short lag for seal/single-key
                     pml = cacheTypeRecord.psl
+                    if len(kever.verfers) > 1:
+                        # replay with seal replaced by signatures has long lag
+                        pml = max(pml, cacheTypeRecord.pll)
 
                 if authType == AuthTypes.AttachedSealReference or authType == AuthTypes.AttachedSignatureSingleKey:
                     match msgType:
-- 
2.43.0


From fd7b17b47706f5b399f41407488caf9cf7d16953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:40 +0000
Subject: [PATCH 38/97] fix: KRAM falls back to signatures when the event a
 pending request refers to as its seal is unknown

---
 src/keri/core/kraming.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/keri/core/kraming.py b/src/keri/core/kraming.py
index d1255fb..a21d214 100644
--- a/src/keri/core/kraming.py
+++ b/src/keri/core/kraming.py
@@ -1071,7 +1071,9 @@ class Kramer:
 
                 # "Both attached" case, try seal validation first
                 if hasSealRef and hasSigs:
-                    if self._validateSenderSeal(msg, senderId, kwa):
+                    authType, _ = self._resolveAuthType(
+                        msg, kwa, kever, hasSealRef, hasSigs, senderId)
+                    if authType == AuthTypes.AttachedSealReference:
                         # Seal valid -> treat as seal auth -> idempotent drop
                         return None
                     # Seal invalid -> fall through to signature auth below
@@ -1310,7 +1312,9 @@ class Kramer:
 
                 # "Both attached" case, try seal validation first
                 if hasSealRef and hasSigs:
-                    if self._validateSenderSeal(msg, senderId, kwa):
+                    authType, _ = self._resolveAuthType(
+                        msg, kwa, kever, hasSealRef, hasSigs, senderId)
+                    if authType == AuthTypes.AttachedSealReference:
                         # Seal valid -> treat as seal auth -> idempotent drop
                         return None
                     # Seal invalid -> fall through to signature auth below
-- 
2.43.0


From cca09fc444d499f5ab06dbf50686b83a2b644de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:40 +0000
Subject: [PATCH 39/97] fix: KRAM stores the key state of a partially signed
 request before its signatures

---
 src/keri/core/kraming.py | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/src/keri/core/kraming.py b/src/keri/core/kraming.py
index a21d214..c32adf7 100644
--- a/src/keri/core/kraming.py
+++ b/src/keri/core/kraming.py
@@ -1118,16 +1118,17 @@ class Kramer:
                 newSigs = [sig for sig in sigResult.sigers
                            if sig.index not in existingSigIndices]
 
-                for sig in newSigs:
-                    self.db.kramPMKS.add(key, sig)
-
-                # Store message and key state on first verified signature
+                # Store message and key state on first verified signature,
+                # key state first, signatures count only relative to it
                 if newSigs:
+                    if storedKeyState is None:
+                        self.db.kramPMSK.pin(key, currentKeyState)
+
                     if self.db.kramPMKM.get(key) is None:
                         self.db.kramPMKM.put(key, msg)
 
-                    if storedKeyState is None:
-                        self.db.kramPMSK.pin(key, currentKeyState)
+                    for sig in newSigs:
+                        self.db.kramPMKS.add(key, sig)
 
                     # Store non-auth attachments alongside new sigs
                     self._storeNonAuthAttachments(key, senderId, kwa)
@@ -1260,12 +1261,12 @@ class Kramer:
                     # Threshold not met, store partials for accumulation
                     currentKeyState = (Number(num=kever.lastEst.s),
                                        Diger(qb64=kever.lastEst.d))
+                    # Key state first, signatures count only relative to it
+                    self.db.kramPMSK.pin(key, currentKeyState)
                     self.db.kramPMKM.put(key, msg)
                     for sig in sigResult.sigers:
                         self.db.kramPMKS.add(key, sig)
 
-                    self.db.kramPMSK.pin(key, currentKeyState)
-
                     # Store non-auth attachments for forwarding on threshold satisfaction
                     self._storeNonAuthAttachments(key, senderId, kwa)
 
@@ -1360,16 +1361,17 @@ class Kramer:
                 newSigs = [sig for sig in sigResult.sigers
                            if sig.index not in existingSigIndices]
 
-                for sig in newSigs:
-                    self.db.kramPMKS.add(partialKey, sig)
-
-                # Store message and key state on first verified signature
+                # Store message and key state on first verified signature,
+                # key state first, signatures count only relative to it
                 if newSigs:
+                    if storedKeyState is None:
+                        self.db.kramPMSK.pin(partialKey, currentKeyState)
+
                     if self.db.kramPMKM.get(partialKey) is None:
                         self.db.kramPMKM.put(partialKey, msg)
 
-                    if storedKeyState is None:
-                        self.db.kramPMSK.pin(partialKey, currentKeyState)
+                    for sig in newSigs:
+                        self.db.kramPMKS.add(partialKey, sig)
 
                     # Store non-auth attachments alongside new sigs
                     self._storeNonAuthAttachments(partialKey, senderId, kwa)
@@ -1555,12 +1557,12 @@ class Kramer:
                     # Partial dbs use (AID.MID) key per spec, not (AID.XID.MID).
                     currentKeyState = (Number(num=kever.lastEst.s),
                                        Diger(qb64=kever.lastEst.d))
+                    # Key state first, signatures count only relative to it
+                    self.db.kramPMSK.pin(partialKey, currentKeyState)
                     self.db.kramPMKM.put(partialKey, msg)
                     for sig in sigResult.sigers:
                         self.db.kramPMKS.add(partialKey, sig)
 
-                    self.db.kramPMSK.pin(partialKey, currentKeyState)
-
                     # Store non-auth attachments for forwarding on threshold satisfaction
                     self._storeNonAuthAttachments(partialKey, senderId, kwa)
 
-- 
2.43.0


From d6732c54e97f2d114e8031ecc036a95b5c7a2019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:40 +0000
Subject: [PATCH 40/97] fix: KRAM prunes a cache entry after its partial
 signatures so an interrupted prune is redone

---
 src/keri/core/kraming.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/keri/core/kraming.py b/src/keri/core/kraming.py
index c32adf7..d10b368 100644
--- a/src/keri/core/kraming.py
+++ b/src/keri/core/kraming.py
@@ -2136,7 +2136,6 @@ class Kramer:
             # Expired once past prune lag. Entry dated ahead of receiver clock,
             # as when that clock was set back, still protects from replay.
             if mdt_ms < rdt_ms - d - pml:
-                self.db.kramMSGC.rem(keys=(aid, mid))
                 self.db.kramPMKM.rem(keys=(aid, mid))
                 self.db.kramPMKS.rem(keys=(aid, mid))
                 self.db.kramPMSK.rem(keys=(aid, mid))
@@ -2144,6 +2143,9 @@ class Kramer:
                 # Remove non Auth Partials
                 self._remNonAuthAttachments((aid, mid))
 
+                # Remove last so interrupted prune is redone
+                self.db.kramMSGC.rem(keys=(aid, mid))
+
                 pruned = True
 
         return pruned
@@ -2171,7 +2173,6 @@ class Kramer:
             # Expired once exchange is past its prune lag and message itself is
             # past its own, until then entry protects from replay of message.
             if rdt_ms > xdt_ms + pxl and mdt_ms < rdt_ms - cache.d - cache.pml:
-                self.db.kramTMSC.rem(keys=(aid, xid, mid))
                 self.db.kramPMKM.rem(keys=(aid, mid))
                 self.db.kramPMKS.rem(keys=(aid, mid))
                 self.db.kramPMSK.rem(keys=(aid, mid))
@@ -2179,6 +2180,9 @@ class Kramer:
                 # Remove non Auth Partials
                 self._remNonAuthAttachments((aid, mid))
 
+                # Remove last so interrupted prune is redone
+                self.db.kramTMSC.rem(keys=(aid, xid, mid))
+
                 pruned = True
 
         return pruned
-- 
2.43.0


From ef6e3c701d4246b8fe187708f8973eb63852a385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:36 +0000
Subject: [PATCH 41/97] fix: KRAM rejects an empty cache-type configuration as
 a coverage hole

---
 src/keri/core/kraming.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/core/kraming.py b/src/keri/core/kraming.py
index d10b368..62ff6d8 100644
--- a/src/keri/core/kraming.py
+++ b/src/keri/core/kraming.py
@@ -2084,11 +2084,11 @@ class Kramer:
         # No coverage holes
         # Check each pattern in the old graph against the new ones
         for old_pat in set().union(*oldGraph.values()):
+            old_msg, old_route = old_pat
             covered = False
             for pats in newGraph.values():
                 for new_pat in pats:
                     new_msg, new_route = new_pat
-                    old_msg, old_route = old_pat
 
                     # Check if the new message type covers the old message type either by being ANY or the exact same message type
                     msg_ok = (new_msg == "ANY") or (new_msg == old_msg)
-- 
2.43.0


From 071b8f770764483910535828b1294f21fa2550c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:36 +0000
Subject: [PATCH 42/97] fix: a KRAM window change supersedes an earlier one
 still waiting to be applied

---
 src/keri/core/kraming.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/keri/core/kraming.py b/src/keri/core/kraming.py
index 62ff6d8..66fc569 100644
--- a/src/keri/core/kraming.py
+++ b/src/keri/core/kraming.py
@@ -1724,6 +1724,8 @@ class Kramer:
             if (sl_new <= sl_old and ll_new <= ll_old and xl_new <= xl_old and
                 psl_new <= psl_old and pll_new <= pll_old and pxl_new <= pxl_old):
 
+                self._pending.pop(ctype, None)  # superseded
+
                 # Create cache record with the new values
                 rec = CacheTypeRecord(
                     d=d_old,    # Drift is unchanged
@@ -1782,6 +1784,7 @@ class Kramer:
         # Delete old cache type to prevent corruption due to specification
         for ctype in list(old.keys()):
             if ctype not in new:
+                self._pending.pop(ctype, None)  # superseded
                 self.db.kramCTYP.rem(ctype)
 
         self._kramCTYPCf = new
-- 
2.43.0


From bb96ab00f6ee86c78b501de22b7a5049040f9d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:59 +0000
Subject: [PATCH 43/97] fix: KRAM accept windows in force while a change is
 staged never exceed the prune windows

---
 src/keri/core/kraming.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/keri/core/kraming.py b/src/keri/core/kraming.py
index 66fc569..9fb9b0a 100644
--- a/src/keri/core/kraming.py
+++ b/src/keri/core/kraming.py
@@ -1708,7 +1708,7 @@ class Kramer:
                 }
                 rec = CacheTypeRecord(
                     d=d_new,
-                    sl=min_sl, ll=min_ll, xl=min_xl,
+                    sl=min(min_sl, sl_new), ll=min(min_ll, ll_new), xl=min(min_xl, xl_new),
                     psl=max(psl_new, sl_new),
                     pll=max(pll_new, ll_new),
                     pxl=max(pxl_new, xl_new),
@@ -1739,10 +1739,10 @@ class Kramer:
 
             # Case 2: increases = prune values changes immediately, accept window changes are staged
 
-            # Keep the old message lag values
-            sl_cur = sl_old
-            ll_cur = ll_old
-            xl_cur = xl_old
+            # Keep the old message lag values except those that decrease
+            sl_cur = min(sl_old, sl_new)
+            ll_cur = min(ll_old, ll_new)
+            xl_cur = min(xl_old, xl_new)
 
             # Get the highest value for pruning to make sure it doesn't
             # go against the invariant pruning window >= accept window
-- 
2.43.0


From 59ec7fb470b192bc6135d2218d6a8074556996de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:25 +0000
Subject: [PATCH 44/97] fix: KRAM keeps existing cache entries as long as
 windows grown by reconfiguration could admit their messages

---
 src/keri/core/kraming.py | 40 ++++++++++++++++++++++++++++++++--------
 1 file changed, 32 insertions(+), 8 deletions(-)

diff --git a/src/keri/core/kraming.py b/src/keri/core/kraming.py
index 9fb9b0a..bb8db30 100644
--- a/src/keri/core/kraming.py
+++ b/src/keri/core/kraming.py
@@ -125,6 +125,10 @@ class Kramer:
         # Staged accept-window increases (see changeConfig, reconcileConfig)
         self._pending = {}
 
+        # Prune lag in ms, drift included, that changeConfig extends to cache
+        # entries of messages dated up to the given time in ms (see _expired)
+        self._extended = (0, 0)
+
     @classmethod
     def _mergeOobiDenials(cls, fullDenials):
         """Add built-in OOBI denial exemptions unless config already covers them.
@@ -1781,6 +1785,14 @@ class Kramer:
             # Update the cache record inside db
             self.db.kramCTYP.pin(ctype, rec)
 
+        # Entries cached so far keep the prune lags of their creation, so keep
+        # them as long as the new accept windows could admit their messages again
+        now = helping.fromIso8601(helping.nowIso8601()).timestamp() * 1000
+        recs = [rec for _, rec in self.db.kramCTYP.getTopItemIter()]
+        drift = max((rec.d for rec in recs), default=0)
+        lag = max((max(rec.psl, rec.pll) for rec in recs), default=0)
+        self._extended = (now + drift, max(self._extended[1], lag + drift))
+
         # Delete old cache type to prevent corruption due to specification
         for ctype in list(old.keys()):
             if ctype not in new:
@@ -2116,6 +2128,24 @@ class Kramer:
                 raise KramError("Coverage hole detected, new configuration is invalid")
 
 
+    def _expired(self, mdt_ms, rdt_ms, cache):
+        """
+        True means message with cache entry can not be accepted anymore, so its
+        entry is not needed to protect from replay. Entry dated ahead of the
+        receiver clock, as when that clock was set back, still protects.
+
+        Parameters:
+            mdt_ms (int): message datetime in milliseconds
+            rdt_ms (int): receiver time in milliseconds
+            cache (MsgCacheRecord | TxnMsgCacheRecord): cache entry
+        """
+        lag = cache.d + cache.pml
+        until, extended = self._extended
+        if mdt_ms <= until:
+            lag = max(lag, extended)
+        return mdt_ms < rdt_ms - lag
+
+
     def _pruneMessages(self, rdt_ms):
         """
         Check message ID and prune expired cache entries and associated state.
@@ -2132,13 +2162,7 @@ class Kramer:
             # Convert messsage time from cache to milliseconds Int for comparison
             mdt_ms = int(helping.fromIso8601(cache.mdt).timestamp() * 1000)
 
-            # Get the drift and prune lag values from the cache record
-            d = cache.d
-            pml = cache.pml
-
-            # Expired once past prune lag. Entry dated ahead of receiver clock,
-            # as when that clock was set back, still protects from replay.
-            if mdt_ms < rdt_ms - d - pml:
+            if self._expired(mdt_ms, rdt_ms, cache):
                 self.db.kramPMKM.rem(keys=(aid, mid))
                 self.db.kramPMKS.rem(keys=(aid, mid))
                 self.db.kramPMSK.rem(keys=(aid, mid))
@@ -2175,7 +2199,7 @@ class Kramer:
 
             # Expired once exchange is past its prune lag and message itself is
             # past its own, until then entry protects from replay of message.
-            if rdt_ms > xdt_ms + pxl and mdt_ms < rdt_ms - cache.d - cache.pml:
+            if rdt_ms > xdt_ms + pxl and self._expired(mdt_ms, rdt_ms, cache):
                 self.db.kramPMKM.rem(keys=(aid, mid))
                 self.db.kramPMKS.rem(keys=(aid, mid))
                 self.db.kramPMSK.rem(keys=(aid, mid))
-- 
2.43.0


From 633fec56e6ad80c3eee106e3f5c251172b9a4982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:32 +0000
Subject: [PATCH 45/97] fix: KRAM stages a window change against the windows in
 force, not those still waiting to be applied

---
 src/keri/core/kraming.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/keri/core/kraming.py b/src/keri/core/kraming.py
index bb8db30..9fa2986 100644
--- a/src/keri/core/kraming.py
+++ b/src/keri/core/kraming.py
@@ -1637,8 +1637,12 @@ class Kramer:
                 – Accept windows are staged
                 – Staging delta = max(Case‑2 delta, Case‑3 delta)
         """
-        # Get the old Kram config
-        old = self._kramCTYPCf
+        # Get the old Kram config with the windows in force, which differ from
+        # those configured while an earlier change is staged
+        old = {}
+        for ctype, vals in self._kramCTYPCf.items():
+            rec = self.db.kramCTYP.get(ctype)
+            old[ctype] = list(vals) if rec is None else list(astuple(rec))
 
         # Get the new config
         config = newCf.get()
-- 
2.43.0


From 6fab65d3b36bc563dcd3d770c5d618db9957c0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:28 +0000
Subject: [PATCH 46/97] fix: adding to an ordinal keyed set with an empty key
 adds nothing, as documented

---
 src/keri/db/dbing.py    | 2 ++
 src/keri/db/webdbing.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/keri/db/dbing.py b/src/keri/db/dbing.py
index 18aba0e..b33cb26 100644
--- a/src/keri/db/dbing.py
+++ b/src/keri/db/dbing.py
@@ -1689,6 +1689,8 @@ class LMDBer(filing.Filer):
         Uses hidden ordinal key suffix for insertion ordering which is
         transparently suffixed and unsuffixed
         Assumes DB opened with dupsort=False"""
+        if not key:
+            return False
         # val of None will return False
         return self.addIoSetVal(db=db, key=onKey(key, on, sep=sep), val=val, sep=sep)
 
diff --git a/src/keri/db/webdbing.py b/src/keri/db/webdbing.py
index a5e4fae..632be70 100644
--- a/src/keri/db/webdbing.py
+++ b/src/keri/db/webdbing.py
@@ -1623,6 +1623,8 @@ class WebDBer:
         transparently suffixed and unsuffixed
         Assumes DB opened with dupsort=False
         """
+        if not key:
+            return False
         # val of None will return False
         return self.addIoSetVal(db=db, key=onKey(key, on, sep=sep), val=val, sep=sep)
 
-- 
2.43.0


From 8ff85f4c1d0f0178a728c96e88c9af0df41f8d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:07 +0000
Subject: [PATCH 47/97] fix: a credential's status and revocation belong to the
 registry that issued it

---
 src/keri/vdr/eventing.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/keri/vdr/eventing.py b/src/keri/vdr/eventing.py
index 069afb2..221fec4 100644
--- a/src/keri/vdr/eventing.py
+++ b/src/keri/vdr/eventing.py
@@ -1102,6 +1102,10 @@ class Tever:
             raise ValidationError("revoke without issue... probably have to escrow")
 
         iserder = SerderKERI(raw=ievt.encode("utf-8"))
+        if not self.issued(iserder):  # not the registry that issued the credential
+            raise ValidationError(f"Revocation evt = {ked} of credential not "
+                                  f"issued from registry = {self.prefixer.qb64}.")
+
         if not iserder.compare(said=ked["p"]):  # prior event dig not match
             raise ValidationError("Mismatch event dig = {} with state dig"
                                   " = {} for evt = {}.".format(ked["p"],
@@ -1141,6 +1145,18 @@ class Tever:
         else:
             raise ValidationError("Unsupported ilk = {} for evt = {}.".format(ilk, ked))
 
+    def issued(self, serder):
+        """ Returns True if serder is issuance event from this registry, False otherwise
+
+        Parameters:
+            serder (Serder): first event in TEL of credential
+        """
+        if serder.ilk == Ilks.iss:
+            return serder.ked["ri"] == self.prefixer.qb64
+        if serder.ilk == Ilks.bis:
+            return serder.ked["ra"]["i"] == self.prefixer.qb64
+        return False
+
     def vcState(self, vci):
         """ Calculate state (issued/revoked) of VC from db.
 
@@ -1158,6 +1174,10 @@ class Tever:
         if len(digs) == 0:
             return None
 
+        iraw = self.reger.tvts.get(keys=dgKey(vci, digs[0]))
+        if iraw is None or not self.issued(SerderKERI(raw=iraw.encode("utf-8"))):
+            return None  # issued from some other registry
+
         vcsn = len(digs) - 1
         vcdig = digs[-1].encode("utf-8")
 
-- 
2.43.0


From e0f640ba09ed04ab2c1e21aeb96d3cdda607508c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:07 +0000
Subject: [PATCH 48/97] fix: a credential counts as issued only in a registry
 its issuer controls

---
 src/keri/vdr/verifying.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/keri/vdr/verifying.py b/src/keri/vdr/verifying.py
index 7d1c7be..c8981c8 100644
--- a/src/keri/vdr/verifying.py
+++ b/src/keri/vdr/verifying.py
@@ -127,6 +127,10 @@ class Verifier:
                 self.cues.append(dict(kin="telquery", q=dict(ri=regk, i=vcid, issr=creder.israid)))
             raise MissingRegistryError("registry identifier {} not in Tevers".format(regk))
 
+        if self.tevers[regk].pre != creder.israid:  # not issuer's registry
+            raise ValidationError(f"credential {vcid} issuer {creder.israid} does not "
+                                  f"control registry {regk}")
+
         state = self.tevers[regk].vcState(vcid)
         if state is None:  # credential issuance event not found yet
             if self.escrowMRE(creder, prefixer, seqner, saider):
-- 
2.43.0


From 3efec7d105a1b2e24a0b3f1a7c37baf5c8225ada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:08 +0000
Subject: [PATCH 49/97] fix: registry state survives a restart after a registry
 rotation

---
 src/keri/vdr/eventing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/keri/vdr/eventing.py b/src/keri/vdr/eventing.py
index 221fec4..4834b86 100644
--- a/src/keri/vdr/eventing.py
+++ b/src/keri/vdr/eventing.py
@@ -1582,6 +1582,8 @@ class Tevery:
                 raise OutOfOrderError("Out-of-order event={}.".format(ked))
             elif sn == sno:  # new inorder event
                 tever.update(serder=serder, seqner=seqner, saider=saider, bigers=wigers)
+                if ilk in [Ilks.vrt]:
+                    self.tevers[regk] = tever  # persist changed registry state
 
                 if regk not in self.registries:
                     # witness style backers will need to send receipts so lets queue them up for now
-- 
2.43.0


From 89091c29e0c279ad797304db5afc71133aad3f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:08 +0000
Subject: [PATCH 50/97] fix: unescrowing one registry event leaves other events
 escrowed at the same sequence number

---
 src/keri/vdr/eventing.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/keri/vdr/eventing.py b/src/keri/vdr/eventing.py
index 4834b86..7f16828 100644
--- a/src/keri/vdr/eventing.py
+++ b/src/keri/vdr/eventing.py
@@ -2053,7 +2053,7 @@ class Tevery:
 
             except Exception as ex:  # log diagnostics errors etc
                 # error other than out of order so remove from OO escrow
-                self.reger.oots.rem(keys=pre, on=sn)  # removes one escrow at key val
+                self.reger.oots.rem(keys=pre, on=sn, val=digb)  # removes one escrow at key val
                 if logger.isEnabledFor(logging.DEBUG):
                     logger.exception("Tevery OOO unescrowed: %s", ex.args[0])
                 else:
@@ -2063,7 +2063,7 @@ class Tevery:
                 # We don't remove all escrows at pre,sn because some might be
                 # duplicitous so we process remaining escrows in spite of found
                 # valid event escrow.
-                self.reger.oots.rem(keys=pre, on=sn)  # removes from escrow
+                self.reger.oots.rem(keys=pre, on=sn, val=digb)  # removes from escrow
                 logger.info("Tevery OOO unescrow succeeded in valid event: said=%s", tserder.said)
                 logger.debug("Event=\n%s\n", tserder.pretty())
 
@@ -2111,7 +2111,7 @@ class Tevery:
 
             except Exception as ex:  # log diagnostics errors etc
                 # error other than out of order so remove from OO escrow
-                self.reger.taes.rem(keys=pre, on=sn)  # removes one escrow at key val
+                self.reger.taes.rem(keys=pre, on=sn, val=digb)  # removes one escrow at key val
                 if logger.isEnabledFor(logging.DEBUG):
                     logger.exception("Tevery ANC unescrowed: %s", ex.args[0])
                 else:
@@ -2121,7 +2121,7 @@ class Tevery:
                 # We don't remove all escrows at pre,sn because some might be
                 # duplicitous so we process remaining escrows in spite of found
                 # valid event escrow.
-                self.reger.taes.rem(keys=pre, on=sn)  # removes from escrow
+                self.reger.taes.rem(keys=pre, on=sn, val=digb)  # removes from escrow
                 logger.info("Tevery ANC unescrow succeeded in valid event: said=%s", tserder.said)
                 logger.debug("event=\n%s\n", tserder.pretty())
 
-- 
2.43.0


From 580c0c90c44236180ad3da355bbcc8029124d2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:29 +0000
Subject: [PATCH 51/97] fix: out of order registry events keep their backer
 signatures in escrow and need an anchor

---
 src/keri/vdr/eventing.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/keri/vdr/eventing.py b/src/keri/vdr/eventing.py
index 7f16828..6241c7a 100644
--- a/src/keri/vdr/eventing.py
+++ b/src/keri/vdr/eventing.py
@@ -1550,7 +1550,7 @@ class Tevery:
                     pass
             else:
                 # out of order, need to escrow
-                self.escrowOOEvent(serder=serder, seqner=seqner, saider=saider)
+                self.escrowOOEvent(serder=serder, seqner=seqner, saider=saider, wigers=wigers)
                 msg = f"Escrowed out of order event of type = {ilk} pre = {pre} SAID = {serder.said}"
                 logger.debug(msg)
                 logger.debug("TEL Event Body=\n%s\n", serder.pretty())
@@ -1578,7 +1578,7 @@ class Tevery:
 
             if sn > sno:  # sn later than sno so out of order escrow
                 # escrow out-of-order event
-                self.escrowOOEvent(serder=serder, seqner=seqner, saider=saider)
+                self.escrowOOEvent(serder=serder, seqner=seqner, saider=saider, wigers=wigers)
                 raise OutOfOrderError("Out-of-order event={}.".format(ked))
             elif sn == sno:  # new inorder event
                 tever.update(serder=serder, seqner=seqner, saider=saider, bigers=wigers)
@@ -1964,7 +1964,7 @@ class Tevery:
         else:
             raise ValidationError("invalid ilk {} for tevery event = {}".format(ilk, serder.ked))
 
-    def escrowOOEvent(self, serder, seqner, saider):
+    def escrowOOEvent(self, serder, seqner, saider, wigers=None):
         """ Escrow out-of-order TEL events.
 
         Saves the serialized event, anchor and event digest in escrow for any
@@ -1977,12 +1977,18 @@ class Tevery:
         Parameters:
             serder (Serder): serder of event message
             seqner (Seqner): sequence number of anchoring TEL event
-                saider (Diger) digest of anchoring TEL event"""
+                saider (Diger) digest of anchoring TEL event
+            wigers (list): optional list of Siger instances of attached backer indexed sigs"""
+        if seqner is None or saider is None:  # can't ever verify without anchor
+            raise ValidationError(f"Missing anchor of out of order event={serder.ked}.")
+
         key = dgKey(serder.preb, serder.saidb)
         self.reger.tvts.put(keys=key, val=serder.raw)
         number = Number(num=seqner.sn)
         diger = Diger(qb64=saider.qb64)
         self.reger.ancs.put(keys=key, val=(number, diger))
+        if wigers:
+            self.reger.tibs.put(keys=key, vals=wigers)
         self.reger.oots.put(keys=serder.preb, on=serder.sn, vals=serder.saidb)
         logger.debug("Tever state: Escrowed our of order TEL event "
                      "event = %s", serder.ked)
-- 
2.43.0


From 83958f29d760b9b8d4700d70e461faa77cb74b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:29 +0000
Subject: [PATCH 52/97] fix: the anchor recorded for a registry event is the
 one it was verified with

---
 src/keri/vdr/eventing.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/keri/vdr/eventing.py b/src/keri/vdr/eventing.py
index 6241c7a..216fa3d 100644
--- a/src/keri/vdr/eventing.py
+++ b/src/keri/vdr/eventing.py
@@ -1245,7 +1245,7 @@ class Tever:
         key = dgKey(pre, dig)
         number = Number(num=seqner.sn)
         diger = Diger(qb64=saider.qb64)
-        self.reger.ancs.put(keys=key, val=(number, diger))
+        self.reger.ancs.pin(keys=key, val=(number, diger))
         if bigers:
             self.reger.tibs.pin(keys=key, vals=bigers)
         if baks:
@@ -1373,7 +1373,7 @@ class Tever:
         dgkey = dgKey(serder.preb, serder.saidb)
         number = Number(num=seqner.sn)
         diger = Diger(qb64=saider.qb64)
-        self.reger.ancs.put(keys=dgkey, val=(number, diger))
+        self.reger.ancs.pin(keys=dgkey, val=(number, diger))
         if bigers:
             self.reger.tibs.pin(keys=dgkey, vals=bigers)
         self.reger.tvts.put(keys=dgkey, val=serder.raw)
@@ -1397,7 +1397,7 @@ class Tever:
         if seqner and saider:
             number = Number(num=seqner.sn)
             diger = Diger(qb64=saider.qb64)
-            self.reger.ancs.put(keys=key, val=(number, diger))
+            self.reger.ancs.pin(keys=key, val=(number, diger))
         if bigers:
             self.reger.tibs.pin(keys=key, vals=bigers)
         if baks:
@@ -1986,7 +1986,7 @@ class Tevery:
         self.reger.tvts.put(keys=key, val=serder.raw)
         number = Number(num=seqner.sn)
         diger = Diger(qb64=saider.qb64)
-        self.reger.ancs.put(keys=key, val=(number, diger))
+        self.reger.ancs.pin(keys=key, val=(number, diger))
         if wigers:
             self.reger.tibs.put(keys=key, vals=wigers)
         self.reger.oots.put(keys=serder.preb, on=serder.sn, vals=serder.saidb)
-- 
2.43.0


From 8eda4be0a0b41ab91ad6526a4a6e2f6296a2a44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:29 +0000
Subject: [PATCH 53/97] fix: an anchor that is not an event seal does not
 verify instead of raising KeyError

---
 src/keri/vdr/eventing.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/keri/vdr/eventing.py b/src/keri/vdr/eventing.py
index 216fa3d..5bc33e4 100644
--- a/src/keri/vdr/eventing.py
+++ b/src/keri/vdr/eventing.py
@@ -1283,8 +1283,6 @@ class Tever:
 
         Returns:
             list: unique validated signature verified members of inputed bigers"""
-        for bak in baks:
-            print("BAK :", bak)
         berfers = [Verfer(qb64=bak) for bak in baks]
 
         # get unique verified bigers and bindices lists from bigers list
@@ -1352,9 +1350,12 @@ class Tever:
             return False
 
         seal = seal[0]
-        spre = seal["i"]
-        ssn = seal["s"]
-        sdig = seal["d"]
+        try:
+            spre = seal["i"]
+            ssn = seal["s"]
+            sdig = seal["d"]
+        except (KeyError, TypeError):  # not event seal
+            return False
 
         if spre == serder.ked["i"] and ssn == serder.ked["s"] \
                 and serder.said == sdig:
-- 
2.43.0


From 94779e81748f9e2ea644362fb96a3a2665b9e97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:19 +0000
Subject: [PATCH 54/97] fix: a registry rotation may cut backers in any order

---
 src/keri/vdr/eventing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/vdr/eventing.py b/src/keri/vdr/eventing.py
index 5bc33e4..2cadcd0 100644
--- a/src/keri/vdr/eventing.py
+++ b/src/keri/vdr/eventing.py
@@ -167,7 +167,7 @@ def rotate(
     if len(cutset) != len(cuts):
         raise ValueError("Invalid cuts = {}, has duplicates.".format(cuts))
 
-    if (bakset & cutset) != cutset:  # some cuts not in wits
+    if cutset - bakset:  # some cuts not in wits
         raise ValueError("Invalid cuts = {}, not all members in baks.".format(cuts))
 
     adds = adds if adds is not None else []
-- 
2.43.0


From c72874de20961f69a508956a3b0b9f583db3bbc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:19 +0000
Subject: [PATCH 55/97] fix: a backed credential event waits in escrow for the
 registry event it names and relies on it only once accepted

---
 src/keri/vdr/eventing.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/keri/vdr/eventing.py b/src/keri/vdr/eventing.py
index 2cadcd0..c091732 100644
--- a/src/keri/vdr/eventing.py
+++ b/src/keri/vdr/eventing.py
@@ -1431,10 +1431,12 @@ class Tever:
         # load backer list and toad (via event) for specific event in registry from seal in event
         dgkey = dgKey(regi, regd)
         revt = self.reger.tvts.get(keys=dgkey)
-        if revt is None:
-            raise ValidationError("have to escrow this somewhere")
+        rserder = SerderKERI(raw=revt.encode("utf-8")) if revt is not None else None
+        if rserder is None or self.reger.tels.get(keys=regi, on=rserder.sn) != regd:
+            # registry event not accepted (yet), may only be in escrow
+            raise OutOfOrderError(f"Missing registry event said = {regd} for "
+                                  f"evt = {ked}.")
 
-        rserder = SerderKERI(raw=revt.encode("utf-8"))
         # the backer threshold at this event in mgmt TEL
         rtoad = rserder.ked["bt"]
 
@@ -1582,7 +1584,11 @@ class Tevery:
                 self.escrowOOEvent(serder=serder, seqner=seqner, saider=saider, wigers=wigers)
                 raise OutOfOrderError("Out-of-order event={}.".format(ked))
             elif sn == sno:  # new inorder event
-                tever.update(serder=serder, seqner=seqner, saider=saider, bigers=wigers)
+                try:
+                    tever.update(serder=serder, seqner=seqner, saider=saider, bigers=wigers)
+                except OutOfOrderError:  # names registry event not accepted yet
+                    self.escrowOOEvent(serder=serder, seqner=seqner, saider=saider, wigers=wigers)
+                    raise
                 if ilk in [Ilks.vrt]:
                     self.tevers[regk] = tever  # persist changed registry state
 
-- 
2.43.0


From d81261a5b0bfa76a0815dc2bc47a7a87f67d0ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:19 +0000
Subject: [PATCH 56/97] fix: a registry or credential event already in the log
 is never passed over for another at the same sequence number

---
 src/keri/vdr/eventing.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/keri/vdr/eventing.py b/src/keri/vdr/eventing.py
index c091732..81a905a 100644
--- a/src/keri/vdr/eventing.py
+++ b/src/keri/vdr/eventing.py
@@ -892,6 +892,14 @@ class Tever:
                                         toad=toad,
                                         baks=baks)
 
+            self.logEvent(pre=self.prefixer.qb64b,
+                          sn=sn,
+                          serder=serder,
+                          seqner=seqner,
+                          saider=saider,
+                          bigers=bigers,
+                          baks=baks)
+
             self.sn = sn
             self.serder = serder
             self.ilk = ilk
@@ -900,14 +908,6 @@ class Tever:
             self.cuts = cuts
             self.adds = adds
 
-            self.logEvent(pre=self.prefixer.qb64b,
-                          sn=sn,
-                          serder=serder,
-                          seqner=seqner,
-                          saider=saider,
-                          bigers=bigers,
-                          baks=self.baks)
-
             return
 
         elif ilk in (Ilks.iss, Ilks.bis):
@@ -1242,6 +1242,11 @@ class Tever:
             pre = pre.encode("utf-8")  # convert str to bytes
 
         dig = serder.saidb
+        old = self.reger.tels.get(keys=pre, on=sn)
+        if old is not None and old != serder.said:  # first seen is never replaced
+            raise LikelyDuplicitousError(f"Likely Duplicitous Event of type={serder.ilk} "
+                                         f"sn={sn} SAID={serder.said}")
+
         key = dgKey(pre, dig)
         number = Number(num=seqner.sn)
         diger = Diger(qb64=saider.qb64)
-- 
2.43.0


From f0b0931a5f56cd344623f9cfdd39dd5a61c44c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:20 +0000
Subject: [PATCH 57/97] fix: a credential without a registry is refused as
 invalid instead of failing with TypeError

---
 src/keri/vdr/verifying.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/keri/vdr/verifying.py b/src/keri/vdr/verifying.py
index c8981c8..be9103b 100644
--- a/src/keri/vdr/verifying.py
+++ b/src/keri/vdr/verifying.py
@@ -122,6 +122,9 @@ class Verifier:
         schema = creder.schema
         prov = creder.edge if creder.edge is not None else {}
 
+        if regk is None:  # status can't ever be verified
+            raise ValidationError(f"credential {vcid} without registry")
+
         if regk not in self.tevers:  # registry event not found yet
             if self.escrowMRE(creder, prefixer, seqner, saider):
                 self.cues.append(dict(kin="telquery", q=dict(ri=regk, i=vcid, issr=creder.israid)))
-- 
2.43.0


From 503bd5af5502b60083af345ac6a02c09d89f4d1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:12 +0000
Subject: [PATCH 58/97] fix: a credential is marked saved only once every index
 lists it

---
 src/keri/vdr/verifying.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/keri/vdr/verifying.py b/src/keri/vdr/verifying.py
index be9103b..d337258 100644
--- a/src/keri/vdr/verifying.py
+++ b/src/keri/vdr/verifying.py
@@ -384,7 +384,6 @@ class Verifier:
 
         # Look up indicies
         saider = Saider(qb64=creder.said)
-        self.reger.saved.pin(keys=saider.qb64b, val=saider)
         self.reger.issus.add(keys=issuer, val=saider)
         self.reger.schms.add(keys=schema, val=saider)
 
@@ -395,6 +394,9 @@ class Verifier:
             subject = creder.iseaid.encode("utf-8")
             self.reger.subjs.add(keys=subject, val=saider)
 
+        # last so that once saved always found by every index
+        self.reger.saved.pin(keys=saider.qb64b, val=saider)
+
     def query(self, pre, regk, vcid, *, dt=None, dta=None, dtb=None, **kwa):
         """ Returns query message for querying registry
         """
-- 
2.43.0


From 6e09b9062b1fef99992628602ce09fc6d15bda9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:45 +0000
Subject: [PATCH 59/97] fix: Manager.rotate stores next secrets before the lot
 that refers to them

When interrupted in between, the keystore considered keys current or next
whose private keys it did not hold.
---
 src/keri/app/keeping.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/keri/app/keeping.py b/src/keri/app/keeping.py
index 5091bec..d2c5ef9 100644
--- a/src/keri/app/keeping.py
+++ b/src/keri/app/keeping.py
@@ -1239,15 +1239,17 @@ class Manager:
         ps.nxt = PubLot(pubs=[signer.verfer.qb64 for signer in signers],
                               ridx=ridx, kidx=kidx, dt=dt)
 
-        if not self.ks.sits.pin(pre, val=ps):
-            raise ValueError("Problem updating pubsit db for pre={}.".format(pre))
-
+        # store secrets before the lot that refers to them so that when
+        # interrupted .sits never refers to keys whose secrets are missing
         for signer in signers:  # store secrets (private key val keyed by public key)
             self.ks.pris.put(keys=signer.verfer.qb64b, val=signer,
                              encrypter=self.encrypter)
 
+        if not self.ks.sits.pin(pre, val=ps):
+            raise ValueError("Problem updating pubsit db for pre={}.".format(pre))
+
         # store public keys for lookup of private keys by public key for replay
-        self.ks.pubs.put(riKey(pre, ri=ps.nxt.ridx), val=PubSet(pubs=ps.nxt.pubs))
+        self.ks.pubs.pin(riKey(pre, ri=ps.nxt.ridx), val=PubSet(pubs=ps.nxt.pubs))
 
         if erase:
             for pub in old.pubs:  # remove prior old prikeys not current old
-- 
2.43.0


From efeaceaf764649b3f42553066cc791b76850fbb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:13 +0000
Subject: [PATCH 60/97] fix: Hab.rotate recovers from an earlier rotation that
 was interrupted

A crash after the keystore was advanced but before the rotation event became
part of the KEL left the keystore one rotation ahead of the KEL so that the
identifier could never be rotated again.
---
 src/keri/app/habbing.py | 51 ++++++++++++++++++++++++++++++++++++++---
 1 file changed, 48 insertions(+), 3 deletions(-)

diff --git a/src/keri/app/habbing.py b/src/keri/app/habbing.py
index af91178..68e3778 100644
--- a/src/keri/app/habbing.py
+++ b/src/keri/app/habbing.py
@@ -11,7 +11,7 @@ from hio.base import doing
 from hio.help import hicting, ogler
 
 from .configing import Configer
-from .keeping import Keeper, Manager
+from .keeping import Keeper, Manager, PreSit, PubLot, riKey
 
 from ..peer import Exchanger,  specialExchange
 from ..db import Baser, dgKey, fetchTsgs
@@ -3057,7 +3057,10 @@ class Hab(BaseHab):
         # state before the rotation event is validated by BaseHab.rotate().
         # Without rollback, a failed rotation leaves the key store out of
         # sync with the KEL (issue #819).
+        self._resync()  # when earlier rotation was interrupted
         ps_before = self.mgr.ks.sits.get(self.pre)
+        nkey = riKey(self.pre, ps_before.nxt.ridx + 1)
+        pubs_before = self.mgr.ks.pubs.get(nkey)
 
         try:
             verfers, digers = self.mgr.replay(pre=self.pre, erase=False)
@@ -3075,10 +3078,17 @@ class Hab(BaseHab):
                                           cuts=cuts,
                                           adds=adds,
                                           data=data, **kwa)
-        except Exception:
+        except Exception as ex:
             # Rotation event validation failed. Rollback key state to
             # pre-rotation snapshot so KEL and key store stay in sync.
-            self.mgr.ks.sits.pin(self.pre, val=ps_before)
+            # When instead storage failed the event may already be part of the
+            # KEL so leave that to be resolved by the next rotation.
+            if isinstance(ex.__cause__ or ex, (KeriError, ValueError, TypeError)):
+                if pubs_before is None:
+                    self.mgr.ks.pubs.rem(nkey)
+                else:
+                    self.mgr.ks.pubs.pin(nkey, val=pubs_before)
+                self.mgr.ks.sits.pin(self.pre, val=ps_before)
             raise
 
         # Event validated successfully. Now safe to erase old stale
@@ -3089,6 +3099,41 @@ class Hab(BaseHab):
 
         return msg
 
+    def _resync(self):
+        """Undo the key store part of a rotation that was interrupted, such as
+        by a crash, after the key store was advanced but before the rotation
+        event became part of the KEL. Otherwise the key store stays one rotation
+        ahead of the KEL so that no later rotation exposes the next keys
+        committed to in the KEL."""
+        if not self._ahead():
+            return
+
+        # acceptance of the event itself may be what was interrupted
+        self.kvy.processEscrowPartialSigs()
+        if not self._ahead():
+            return
+
+        ps = self.mgr.ks.sits.get(self.pre)
+        if self.mgr.ks.pubs.get(riKey(self.pre, ps.nxt.ridx + 1)) is None:
+            # next keys created for interrupted rotation are not committed to
+            self.mgr.ks.pubs.rem(riKey(self.pre, ps.nxt.ridx))
+
+        old = PubLot()
+        if (ps.old.ridx > 0 and
+                (pset := self.mgr.ks.pubs.get(riKey(self.pre, ps.old.ridx - 1))) is not None):
+            old = PubLot(pubs=pset.pubs, ridx=ps.old.ridx - 1,
+                         kidx=ps.old.kidx - len(pset.pubs), dt=ps.old.dt)
+        self.mgr.ks.sits.pin(self.pre, val=PreSit(old=old, new=ps.old, nxt=ps.new))
+
+    def _ahead(self):
+        """
+        Returns:
+            bool: ``True`` when the key store is one rotation ahead of the KEL"""
+        if (ps := self.mgr.ks.sits.get(self.pre)) is None:
+            return False
+        pubs = [verfer.qb64 for verfer in self.kever.verfers]
+        return pubs != ps.new.pubs and pubs == ps.old.pubs
+
 
 class SignifyHab(BaseHab):
     """Remote-signer habitat for a given identifier controller.
-- 
2.43.0


From 5937d264ac52a2ecf7a1da599419ffd5fe604e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:13 +0000
Subject: [PATCH 61/97] fix: Manager.ingest encrypts the next secrets it
 creates

---
 src/keri/app/keeping.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/keri/app/keeping.py b/src/keri/app/keeping.py
index d2c5ef9..93133fc 100644
--- a/src/keri/app/keeping.py
+++ b/src/keri/app/keeping.py
@@ -1647,7 +1647,8 @@ class Manager:
 
 
         for signer in nsigners:  # store secrets (private key val keyed by public key)
-            self.ks.pris.put(keys=signer.verfer.qb64b, val=signer)
+            self.ks.pris.put(keys=signer.verfer.qb64b, val=signer,
+                             encrypter=self.encrypter)
 
         pubs = [signer.verfer.qb64 for signer in nsigners]
         self.ks.pubs.put(riKey(pre, ri=ridx), val=PubSet(pubs=pubs))
-- 
2.43.0


From f1f01d3855b0afd20ad6882040bdce7e645d7152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:13 +0000
Subject: [PATCH 62/97] fix: passcode set derives the new seed the way Habery
 does

The seed was derived differently from the one Habery derives on opening so the
keystore either could not be re-encrypted or not be opened with the new
passcode.
---
 src/keri/cli/commands/passcode/set.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/cli/commands/passcode/set.py b/src/keri/cli/commands/passcode/set.py
index 2a57bce..9a4e3bc 100644
--- a/src/keri/cli/commands/passcode/set.py
+++ b/src/keri/cli/commands/passcode/set.py
@@ -57,7 +57,7 @@ def set_passcode(tymth, tock=0.0, **opts):
                     else:
                         break
 
-            bran = MtrDex.Salt_128 + newpasscode[:22]  # qb64 salt for seed
+            bran = MtrDex.Salt_128 + 'A' + newpasscode[:21]  # qb64 salt for seed
             signer = Salter(qb64=bran).signer(transferable=False,
                                                      temp=False)
             seed = signer.qb64
-- 
2.43.0


From c97816367e91696efa2b23fd20c0c6ca12d61cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:06:13 +0000
Subject: [PATCH 63/97] fix: Manager.updateAeid updates all secrets in one
 transaction

An interruption left some secrets encrypted with the old and others with the
new key, a first passcode did not encrypt the secrets already there, and the
removal of the passcode failed after having decrypted all secrets.
---
 src/keri/app/keeping.py | 59 ++++++++++++++++++++++++-----------------
 1 file changed, 35 insertions(+), 24 deletions(-)

diff --git a/src/keri/app/keeping.py b/src/keri/app/keeping.py
index 93133fc..e19c430 100644
--- a/src/keri/app/keeping.py
+++ b/src/keri/app/keeping.py
@@ -803,41 +803,52 @@ class Manager:
                                        "not associated with last aeid={}."
                                        "".format(self.aeid))
 
+        encrypter = self.encrypter
         if aeid:  # aeid provided
             if aeid != self.aeid:  # changing to a new aeid so update .encrypter
-                self.encrypter = Encrypter(verkey=aeid)  # derive encrypter from aeid
+                encrypter = Encrypter(verkey=aeid)  # derive encrypter from aeid
                 # verifies new seed belongs to new aeid
-                if not seed or not self.encrypter.verifySeed(seed):
+                if not seed or not encrypter.verifySeed(seed):
                     raise AuthError("Seed missing or provided seed not associated"
                                            "  with provided aeid={}.".format(aeid))
         else:  # changing to empty aeid so new encrypter is None
-            self.encrypter = None
+            aeid = ''
+            encrypter = None
 
         # fetch all secrets from db, decrypt all secrets with self.decrypter
         # unless they decrypt automatically on fetch and then re-encrypt with
-        # encrypter  update db with re-encrypted values
+        # encrypter. Update db with re-encrypted values all together in one
+        # transaction so that when interrupted either all or none are updated.
+        vals = []  # triples of (suber, keys, serialized val)
 
-        # re-encypt root salt secret, .salt property is automatically decrypted on fetch
+        # re-encrypt root salt secret, .salt property is automatically decrypted on fetch
         if (salt := self.salt) is not None:  # decrypted salt
-            self.salt = salt
-            # self.salt = self.encrypter.encrypt(ser=salt).qb64 if self.encrypter else salt
-
-        # other secrets
-        if self.decrypter:
-            # re-encrypt root salt secrets by prefix parameters .prms
-            for keys, data in self.ks.prms.getTopItemIter():  # keys is tuple of pre qb64
-                if data.salt:
-                    salter = self.decrypter.decrypt(qb64=data.salt)
-                    data.salt = (self.encrypter.encrypt(prim=salter).qb64
-                                 if self.encrypter else salter.qb64)
-                    self.ks.prms.pin(keys, val=data)
-
-            # private signing key seeds
-            # keys is tuple == (verkey.qb64,) .pris database auto decrypts
-            for keys, signer in self.ks.pris.getTopItemIter(decrypter=self.decrypter):
-                self.ks.pris.pin(keys, signer, encrypter=self.encrypter)
-
-        self.ks.gbls.pin("aeid", aeid)  # set aeid in db
+            if encrypter:
+                salt = encrypter.encrypt(ser=salt, code=MtrDex.X25519_Cipher_Salt).qb64
+            vals.append((self.ks.gbls, "salt", salt.encode("utf-8")))
+
+        # re-encrypt root salt secrets by prefix parameters .prms
+        for keys, data in self.ks.prms.getTopItemIter():  # keys is tuple of pre qb64
+            if data.salt:
+                salter = (self.decrypter.decrypt(qb64=data.salt) if self.decrypter
+                          else Salter(qb64=data.salt))
+                data.salt = (encrypter.encrypt(prim=salter).qb64
+                             if encrypter else salter.qb64)
+                vals.append((self.ks.prms, keys, self.ks.prms._ser(data)))
+
+        # private signing key seeds
+        # keys is tuple == (verkey.qb64,) .pris database auto decrypts
+        for keys, signer in self.ks.pris.getTopItemIter(decrypter=self.decrypter):
+            prim = encrypter.encrypt(prim=signer) if encrypter else signer
+            vals.append((self.ks.pris, keys, prim.qb64b))
+
+        vals.append((self.ks.gbls, "aeid", aeid.encode("utf-8")))  # set aeid in db
+
+        with self.ks.env.begin(write=True, buffers=True) as txn:
+            for suber, keys, val in vals:
+                txn.put(suber._tokey(keys), val, db=suber.sdb)
+
+        self.encrypter = encrypter
         self._seed = seed  # set .seed in memory
 
         # update .decrypter
-- 
2.43.0


From f64184e63713d2328226d103c50a0977a7d5413f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:37 +0000
Subject: [PATCH 64/97] fix: Baser.reload drops names of identifiers that do
 not exist

When the making or deletion of an identifier was interrupted its name stayed
taken.
---
 src/keri/db/basing.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/keri/db/basing.py b/src/keri/db/basing.py
index fb7e8a6..65e2dd8 100644
--- a/src/keri/db/basing.py
+++ b/src/keri/db/basing.py
@@ -1377,6 +1377,11 @@ class Baser(LMDBer):
         for keys in removes:  # remove bare .habs records
             self.habs.rem(keys=keys)
 
+        # remove names of .habs records that no longer exist
+        for keys in [keys for keys, pre in self.names.getTopItemIter()
+                     if self.habs.get(keys=pre) is None]:
+            self.names.rem(keys=keys)
+
     def unwind(self, pre):
         """
         Undoes acceptance of latest first seen event of pre when its acceptance
-- 
2.43.0


From c7f8d3eb2fbc92a91187f34ef7d7505ce1104e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:37 +0000
Subject: [PATCH 65/97] fix: a name already taken is refused before a record of
 the new Hab is stored

---
 src/keri/app/habbing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/keri/app/habbing.py b/src/keri/app/habbing.py
index 68e3778..ada6f0c 100644
--- a/src/keri/app/habbing.py
+++ b/src/keri/app/habbing.py
@@ -1141,12 +1141,12 @@ class BaseHab:
 
 
     def save(self, habord):
-        self.db.habs.pin(keys=self.pre,
-                         val=habord)
         ns = "" if self.ns is None else self.ns
         if self.db.names.get(keys=(ns, self.name)) is not None:
             raise ValueError("AID already exists with that name")
 
+        self.db.habs.pin(keys=self.pre,
+                         val=habord)
         self.db.names.pin(keys=(ns, self.name),
                           val=self.pre)
 
-- 
2.43.0


From a748cf49627201a802e3925343aa280b60baacc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:57 +0000
Subject: [PATCH 66/97] fix: Hab.incept makes other keys when keys for its name
 were made before

A name whose making was refused or interrupted, or whose identifier was
deleted, could not be used again. When that name was the wallet's own signator
the wallet did not open any more.
---
 src/keri/app/habbing.py | 27 +++++++++++++++++----------
 src/keri/app/keeping.py |  8 ++++++--
 2 files changed, 23 insertions(+), 12 deletions(-)

diff --git a/src/keri/app/habbing.py b/src/keri/app/habbing.py
index ada6f0c..fa41958 100644
--- a/src/keri/app/habbing.py
+++ b/src/keri/app/habbing.py
@@ -2950,16 +2950,23 @@ class Hab(BaseHab):
             verfers, digers = self.mgr.replay(pre=ipre, advance=False)
 
         else:  # use defaults
-            verfers, digers = self.mgr.incept(icount=icount,
-                                              icode=icode,
-                                              ncount=ncount,
-                                              stem=stem,
-                                              transferable=transferable,
-                                              dcode=dcode,
-                                              algo=algo,
-                                              salt=salt,
-                                              tier=tier,
-                                              temp=self.temp)
+            kwa = dict(icount=icount,
+                       icode=icode,
+                       ncount=ncount,
+                       transferable=transferable,
+                       dcode=dcode,
+                       algo=algo,
+                       salt=salt,
+                       tier=tier,
+                       temp=self.temp)
+            try:
+                verfers, digers = self.mgr.incept(stem=stem, **kwa)
+            except ValueError:
+                # key store already has keys for stem, such as, from a deleted
+                # Hab with same name or one whose inception was refused or
+                # interrupted. Must not reuse those keys so make others.
+                verfers, digers = self.mgr.incept(stem=f"{stem}.{self.mgr.pidx:x}",
+                                                  **kwa)
 
         serder = super(Hab, self).incept(isith=isith,
                                        verfers=verfers,
diff --git a/src/keri/app/keeping.py b/src/keri/app/keeping.py
index e19c430..d39cf0d 100644
--- a/src/keri/app/keeping.py
+++ b/src/keri/app/keeping.py
@@ -1068,14 +1068,18 @@ class Manager:
                                    ridx=ridx+1, kidx=kidx+len(icodes), dt=dt))
 
         pre = verfers[0].qb64b
+        if self.ks.pres.get(pre) is not None:
+            raise ValueError("Already incepted pre={}.".format(pre.decode("utf-8")))
+
+        # increment for next inception first so never reused when interrupted
+        self.pidx = pidx + 1
+
         if not self.ks.pres.put(pre, val=Prefixer(qb64=pre)):
             raise ValueError("Already incepted pre={}.".format(pre.decode("utf-8")))
 
         if not self.ks.prms.put(pre, val=pp):
             raise ValueError("Already incepted prm for pre={}.".format(pre.decode("utf-8")))
 
-        self.pidx = pidx + 1  # increment for next inception
-
         if not self.ks.sits.put(pre, val=ps):
             raise ValueError("Already incepted sit for pre={}.".format(pre.decode("utf-8")))
 
-- 
2.43.0


From 2c94428ce700f941aac39201752efd86edcc0c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:20 +0000
Subject: [PATCH 67/97] fix: a message group that ends gives the stream back
 its own framing

---
 src/keri/core/parsing.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/keri/core/parsing.py b/src/keri/core/parsing.py
index a38acd2..d0a359f 100644
--- a/src/keri/core/parsing.py
+++ b/src/keri/core/parsing.py
@@ -787,7 +787,7 @@ class Parser:
 
         self.version = version  # when not None which sets .methods .codes .mucodes .sucodes
 
-        stack = deque()  # (svrsn, ims) stack of nested substreams framed by generic groups
+        stack = deque()  # (svrsn, ims, framed) stack of nested substreams framed by generic groups
         svrsn = None
         eggs = None  # used in preflused error
         result = None
@@ -795,8 +795,10 @@ class Parser:
         try:
             while True:  # process stream until done
                 while not ims and stack:  # happens when ascending (un-nesting)
-                    svrsn, ims = stack.pop()  # un-nest
+                    svrsn, ims, framed = stack.pop()  # un-nest
                     self.version = svrsn  # only changes if svrsn is not None
+                    if not stack:  # back at top level so no enclosing group
+                        eggs = None
 
                 if not ims:  # no stream
                     break
@@ -835,7 +837,7 @@ class Parser:
                         else:
                             svrsn == None  # no change to substream version
 
-                        stack.append((self.version, ims))  # push current version ims
+                        stack.append((self.version, ims, framed))  # push current version ims
                         self.version = svrsn  # replace with new version if not None
                         ims = eims  # replace ims to nest down one level
                         # top-level nested generics enclose messages plus attachments
@@ -905,7 +907,7 @@ class Parser:
 
         finally:  # restore version at top level
             while stack:  # when tail end of group has validation error
-                svrsn, _ = stack.pop()
+                svrsn, _, _ = stack.pop()
                 if svrsn:
                     self.version = svrsn
         return result if processive else results
-- 
2.43.0


From cb3366653244bba42cdb8ca88e133a06429dd9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:20 +0000
Subject: [PATCH 68/97] fix: a message group without a version code keeps the
 stream's version

---
 src/keri/core/parsing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/core/parsing.py b/src/keri/core/parsing.py
index d0a359f..e4a6642 100644
--- a/src/keri/core/parsing.py
+++ b/src/keri/core/parsing.py
@@ -835,7 +835,7 @@ class Parser:
                             # get new substream version
                             svrsn = Counter.b64ToVer(ctr.countToB64(l=3))
                         else:
-                            svrsn == None  # no change to substream version
+                            svrsn = None  # no change to substream version
 
                         stack.append((self.version, ims, framed))  # push current version ims
                         self.version = svrsn  # replace with new version if not None
-- 
2.43.0


From 27bfd814943462b9dfdc73c4363feaf68dbf235c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:20 +0000
Subject: [PATCH 69/97] fix: a query signed only by non-transferable signers is
 processed

---
 src/keri/core/parsing.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/keri/core/parsing.py b/src/keri/core/parsing.py
index e4a6642..7f7846f 100644
--- a/src/keri/core/parsing.py
+++ b/src/keri/core/parsing.py
@@ -1453,6 +1453,7 @@ class Parser:
                     exts["source"] = pre
                     exts["sigers"] = sigers
                 else:
+                    exts["source"] = None
                     exts['sigers'] = []  # just in case sigers provided not by lsgs
 
                 if not (exts['source'] or exts['cigars']):  # need one or the other
-- 
2.43.0


From 26dc2aa053a529eb78c9ea859c727a9b3f176c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:20 +0000
Subject: [PATCH 70/97] fix: a primitive whose size characters have not all
 arrived waits for them

---
 src/keri/core/coring.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/keri/core/coring.py b/src/keri/core/coring.py
index b6d3892..9541459 100644
--- a/src/keri/core/coring.py
+++ b/src/keri/core/coring.py
@@ -1381,6 +1381,9 @@ class Matter:
         # when fs is None then ss > 0 otherwise fs > hs + ss when ss > 0
 
 
+        if len(qb64b) < cs:  # need more bytes for soft part of code
+            raise ShortageError(f"Need {cs - len(qb64b)} more characters.")
+
         # extract soft chars including xtra, empty when ss==0 and xs == 0
         # assumes that when ss == 0 then xs must be 0
         soft = qb64b[hs:hs+ss]
-- 
2.43.0


From a986e1ad862da33d229e4dd287d085a99bc9581c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:20 +0000
Subject: [PATCH 71/97] fix: an attachment group with a bad nested group is
 dropped, not waited on

---
 src/keri/core/parsing.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/keri/core/parsing.py b/src/keri/core/parsing.py
index 7f7846f..de1570a 100644
--- a/src/keri/core/parsing.py
+++ b/src/keri/core/parsing.py
@@ -1241,7 +1241,8 @@ class Parser:
                         cbs = ctr.byteSize(cold=cold)  # counter size of counter itself
                         fmgs = ctr.byteCount(cold=cold)  # fixed body content size
                         size = cbs + fmgs  # size of ctr and its content
-                        while len(ims) < size and not framed:  # framed already in ims
+                        while (len(ims) < size and
+                               not (framed or enclosed)):  # already in ims
                             yield  # until full ctr and its content in ims
 
                         del ims[:size]  # strip ctr and its content from ims
@@ -1258,7 +1259,7 @@ class Parser:
                         # enclosed so group belongs to nested message substream
                         # extract as nested msg+atc and append to exts.nests
                         subexts = yield from self.msgParsator(ims=ims,
-                                                              framed=framed,
+                                                              framed=True,  # since enclosed
                                                               piped=piped,
                                                               local=local,
                                                               version=self.version)
-- 
2.43.0


From deb6ff0000d3368b3e167d818ec04ed26d819758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:20 +0000
Subject: [PATCH 72/97] fix: undecodable bytes at the front of a stream are
 flushed

---
 src/keri/core/parsing.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/keri/core/parsing.py b/src/keri/core/parsing.py
index de1570a..de98cc5 100644
--- a/src/keri/core/parsing.py
+++ b/src/keri/core/parsing.py
@@ -893,7 +893,7 @@ class Parser:
                     results.append(exts)
 
 
-        except ExtractionError as ex:  # maybe this needs to be more granular
+        except Exception as ex:  # extraction error of any kind
             if logger.isEnabledFor(logging.TRACE):
                 logger.exception("GroupParsator error during extraction"
                                              " of msg+atc : %s", ex)
@@ -902,8 +902,10 @@ class Parser:
                                          "msg+atc : %s", ex)
             if eggs is not None:  # extracted enclosed message group is preflushed
                 raise SizedGroupError(f"Error processing generic group"
-                                                 f" of size={eggs}")
-            raise  # no enclosing message group so can't preflush, must flush stream
+                                                 f" of size={eggs}") from ex
+            if isinstance(ex, ExtractionError):
+                raise  # no enclosing message group so can't preflush, must flush stream
+            raise ExtractionError("Error extracting from stream") from ex
 
         finally:  # restore version at top level
             while stack:  # when tail end of group has validation error
-- 
2.43.0


From 6c598d2882728955017d3ac252b2ee743f591aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:20 +0000
Subject: [PATCH 73/97] fix: a damaged counted group costs its own message, not
 the rest of the stream

---
 src/keri/core/parsing.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/keri/core/parsing.py b/src/keri/core/parsing.py
index de98cc5..82376f7 100644
--- a/src/keri/core/parsing.py
+++ b/src/keri/core/parsing.py
@@ -863,6 +863,15 @@ class Parser:
                     # this is the normal way to handle it, so do not log
                     continue  # control thrown here to parse new generic group
 
+                except SizedGroupError as ex:  # error inside sized group
+                    # msgParsator already flushed group from stream so do not
+                    # flush rest of stream, resume extracting next message.
+                    if logger.isEnabledFor(logging.DEBUG):
+                        logger.exception("Parser sized group error: %s", ex)
+                    else:
+                        logger.error("Parser sized group error: %s", ex)
+                    continue
+
                 except (ExtractionError, Exception) as ex:  # error while extracting
                     raise ExtractionError from ex
 
@@ -1154,10 +1163,12 @@ class Parser:
                         exts.serder = serder
                         break  # break out of while loop
 
-        except ExtractionError as ex:
+        except Exception as ex:  # extraction error of any kind
+            while verstack:  # restore version to what it was
+                self.version = verstack.pop()
             if emgs is not None:  # extracted enclosed message group is preflushed
                 raise SizedGroupError(f"Error processing enclosing "
-                                             f"message group of size={emgs}")
+                                             f"message group of size={emgs}") from ex
             raise  # no enclosing group so can't preflush, must flush stream
 
 
@@ -1303,10 +1314,10 @@ class Parser:
                 # so just proceed to process current message
 
 
-        except ExtractionError as ex:
+        except Exception as ex:  # extraction error of any kind
             if enclosed:  # extracted enclosed attachment group is preflushed
-                raise SizedGroupError(f"Error processing attachment group"
-                                             " of size={eags}")
+                raise SizedGroupError("Error processing enclosed attachment "
+                                      "group") from ex
             raise  # no enclosing attachment group so can't preflush, must flush stream
 
         finally:
-- 
2.43.0


From e958a10590f301e1fae1c7f10b0b1dd39b27468c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:05 +0000
Subject: [PATCH 74/97] fix: exchange messages signed by non-transferable
 authors can be cloned

verify() took the (verfer, cigar) couples of .ecigs for cigars, so cloning raised AttributeError.
---
 src/keri/peer/exchanging.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/keri/peer/exchanging.py b/src/keri/peer/exchanging.py
index 86c7ae8..48a0a75 100644
--- a/src/keri/peer/exchanging.py
+++ b/src/keri/peer/exchanging.py
@@ -756,8 +756,10 @@ def verify(hby, serder):
             raise MissingSignatureError(msg)
         accepted = True
 
-    cigars = hby.db.ecigs.get(keys=(serder.said,))
-    for cigar in cigars:
+    cigars = []
+    for verfer, cigar in hby.db.ecigs.get(keys=(serder.said,)):
+        cigar.verfer = verfer
+        cigars.append(cigar)
         if not cigar.verfer.verify(cigar.raw, serder.raw):  # cig not verify
             msg = f"Failure satisfying exn on cigs for {cigar} for evt = {serder.said}"
             logger.info(msg)
-- 
2.43.0


From 3858019327b3ecd871f50f8d587e6f429b5f8cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:05 +0000
Subject: [PATCH 75/97] fix: an error inside an exchange handler is not taken
 as its consent

processEvent treated any AttributeError raised in behavior.verify as if the handler had no verify.
---
 src/keri/peer/exchanging.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/keri/peer/exchanging.py b/src/keri/peer/exchanging.py
index 48a0a75..03fcc5d 100644
--- a/src/keri/peer/exchanging.py
+++ b/src/keri/peer/exchanging.py
@@ -170,13 +170,13 @@ class Exchanger:
                 raise ValidationError(f"essr diger={diger.qb64} is invalid against content")
 
         # Perform behavior specific verification, think IPEX chaining requirements
-        try:
+        if hasattr(behavior, "verify"):
             if not behavior.verify(serder=serder, **kwa):
                 logger.error("exn event for route %s failed behavior verification. said=%s", route, serder.said)
                 logger.debug(f"Event=\n%s\n", serder.pretty())
                 return
 
-        except AttributeError:
+        else:
             logger.debug("Behavior for %s missing or does not have verify for said %s", route, serder.said)
             logger.debug("Exn Event Body=\n%s\n", serder.pretty())
 
@@ -185,9 +185,9 @@ class Exchanger:
         self.cues.append(dict(kin="saved", said=serder.said))
 
         # Execute any behavior specific handling, not sure if this should be different than verify
-        try:
+        if hasattr(behavior, "handle"):
             behavior.handle(serder=serder, **kwa)
-        except AttributeError:
+        else:
             logger.debug("Behavior for %s missing or does not have handle for SAID=%s", route, serder.said)
             logger.debug("Event=\n%s\n", serder.pretty())
 
-- 
2.43.0


From 132027ed729bcf02d3cacdd54b9bf429640d3034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:05 +0000
Subject: [PATCH 76/97] fix: IpexHandlers accept the attachments the Exchanger
 hands them

Nested or ESSR attachments raised TypeError and a missing m attribute KeyError after the message was stored.
---
 src/keri/acdc/ipexing.py   | 6 +++---
 src/keri/vc/protocoling.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/keri/acdc/ipexing.py b/src/keri/acdc/ipexing.py
index ec0a5e9..527646c 100644
--- a/src/keri/acdc/ipexing.py
+++ b/src/keri/acdc/ipexing.py
@@ -211,7 +211,7 @@ class IpexHandler:
         self.hby = hby
         self.notifier = notifier
 
-    def verify(self, serder, attachments=None, nests=None):
+    def verify(self, serder, attachments=None, nests=None, **kwa):
         """Validate the verb, prior link, and single-response rule.
 
         Parameters:
@@ -321,7 +321,7 @@ class IpexHandler:
 
         return None
 
-    def handle(self, serder, attachments=None, nests=None):
+    def handle(self, serder, attachments=None, nests=None, **kwa):
         """Emit a notifier record for an accepted IPEX message.
 
         Parameters:
@@ -338,7 +338,7 @@ class IpexHandler:
         self.notifier.add(attrs=dict(
             r=f"/exn{serder.ked['r']}",
             d=serder.said,
-            m=attrs["m"],
+            m=attrs.get("m", ""),
         ))
 
 
diff --git a/src/keri/vc/protocoling.py b/src/keri/vc/protocoling.py
index c26c657..dbd9881 100644
--- a/src/keri/vc/protocoling.py
+++ b/src/keri/vc/protocoling.py
@@ -52,7 +52,7 @@ class IpexHandler:
         self.hby = hby
         self.notifier = notifier
 
-    def verify(self, serder, attachments=None):
+    def verify(self, serder, attachments=None, **kwa):
         """  Do route specific processsing of IPEX protocol exn messages
 
         Parameters:
@@ -120,7 +120,7 @@ class IpexHandler:
 
         return None
 
-    def handle(self, serder, attachments=None):
+    def handle(self, serder, attachments=None, **kwa):
         """  Do route specific processsing of IPEX protocol exn messages
 
         Parameters:
@@ -131,7 +131,7 @@ class IpexHandler:
         data = dict(
             r=f"/exn{serder.ked['r']}",
             d=serder.said,
-            m=attrs["m"]
+            m=attrs.get("m", "")
         )
 
         self.notifier.add(attrs=data)
-- 
2.43.0


From 86aabb15699bd454c2d8a0a862586f39ce695b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:05 +0000
Subject: [PATCH 77/97] fix: IpexHandler only accepts IPEX messages as priors

---
 src/keri/vc/protocoling.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/keri/vc/protocoling.py b/src/keri/vc/protocoling.py
index dbd9881..703f7b8 100644
--- a/src/keri/vc/protocoling.py
+++ b/src/keri/vc/protocoling.py
@@ -81,7 +81,7 @@ class IpexHandler:
                 pverb = os.path.basename(os.path.normpath(proute))
 
                 # Use established PreviousRoutes to determine if this response is valid
-                if pverb not in PreviousRoutes[verb]:
+                if proute != f"/ipex/{pverb}" or pverb not in PreviousRoutes[verb]:
                     return False
 
                 return self.response(pserder) is None  # Make sure we don't have a response already
@@ -98,7 +98,7 @@ class IpexHandler:
                 pverb = os.path.basename(os.path.normpath(proute))
 
                 # Use established PreviousRoutes to determine if this response is valid
-                if pverb not in PreviousRoutes[verb]:
+                if proute != f"/ipex/{pverb}" or pverb not in PreviousRoutes[verb]:
                     return False
 
                 return self.response(pserder) is None  # Make sure we don't have a response already
-- 
2.43.0


From 25167ca680c419ea6a767b676e689c7e78014f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:05 +0000
Subject: [PATCH 78/97] fix: escrowed exchange messages keep their ESSR payload

---
 src/keri/peer/exchanging.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/keri/peer/exchanging.py b/src/keri/peer/exchanging.py
index 03fcc5d..2ee0187 100644
--- a/src/keri/peer/exchanging.py
+++ b/src/keri/peer/exchanging.py
@@ -96,7 +96,7 @@ class Exchanger:
 
                 if prefixer.qb64 not in self.kevers or self.kevers[prefixer.qb64].sn < snumber.sn:
                     if self.escrowPSEvent(serder=serder, tsgs=tsgs, pathed=ptds,
-                                          nests=nests):
+                                          nests=nests, essrs=essrs):
                         self.cues.append(dict(kin="query", q=dict(r="logs", pre=prefixer.qb64, sn=snumber.snh)))
                     msg = f"Unable to find sender {prefixer.qb64} in kevers for evt = {serder.said}"
                     logger.info(msg)
@@ -109,7 +109,7 @@ class Exchanger:
 
                 if not tholder.satisfy(indices):  # We still don't have all the sigers, need to escrow
                     if self.escrowPSEvent(serder=serder, tsgs=tsgs, pathed=ptds,
-                                          nests=nests):
+                                          nests=nests, essrs=essrs):
                         self.cues.append(dict(kin="query", q=dict(r="logs", pre=prefixer.qb64, sn=snumber.snh)))
                     msg = (f"Not enough signatures in idx={indices} route={route} "
                            f"for evt = {serder.said} receiver={serder.ked.get('rp', '')}")
@@ -134,7 +134,7 @@ class Exchanger:
                     raise MissingSignatureError(msg)
         else:
             self.escrowPSEvent(serder=serder, tsgs=[], pathed=ptds,
-                               nests=nests)
+                               nests=nests, essrs=essrs)
             msg = (
                 f"Failure satisfying exn, no cigs or sigs for evt = {serder.said} "
                 f"on route {route} receiver = {serder.ked.get('rp', '')}")
@@ -195,7 +195,7 @@ class Exchanger:
         """ Process all escrows for `exn` messages"""
         self.processEscrowPartialSigned()
 
-    def escrowPSEvent(self, serder, tsgs, pathed, nests=None):
+    def escrowPSEvent(self, serder, tsgs, pathed, nests=None, essrs=None):
         """ Escrow event that does not have enough signatures.
 
         Parameters:
@@ -203,6 +203,7 @@ class Exchanger:
             tsgs (list): quadlet of prefixer seqner, saider, sigers
             pathed (list): list of bytes of attached paths
             nests (list | None): parsed V2 nested substreams to preserve
+            essrs (list[Texter] | None): ESSR streams as Texters to preserve
 
         """
         dig = serder.said
@@ -216,6 +217,8 @@ class Exchanger:
         if nests:
             self.hby.db.enst.pin(keys=(dig,),
                                  vals=[bytes(serializeParsedSubstream(nest)) for nest in nests])
+        if essrs:
+            self.hby.db.essrs.pin(keys=(dig,), vals=essrs)
         return self.hby.db.epse.put(keys=(dig,), val=serder)
 
     def processEscrowPartialSigned(self):
@@ -273,6 +276,7 @@ class Exchanger:
                 if not saved:
                     self.hby.db.epath.rem(keys=(dig,))
                     self.hby.db.enst.rem(keys=(dig,))
+                    self.hby.db.essrs.rem(keys=(dig,))
                 if logger.isEnabledFor(logging.DEBUG):
                     logger.exception("Exchange partially signed unescrowed: %s", ex.args[0])
                 else:
@@ -285,6 +289,7 @@ class Exchanger:
                 if not saved:
                     self.hby.db.epath.rem(keys=(dig,))
                     self.hby.db.enst.rem(keys=(dig,))
+                    self.hby.db.essrs.rem(keys=(dig,))
                     logger.info("Exchanger unescrow rejected exchange: said=%s", serder.said)
                     continue
                 logger.info("Exchanger unescrow succeeded in valid exchange: creder=%s", serder.said)
-- 
2.43.0


From 683602851b13d4ce97b89943f61f56f22c7a4deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:05 +0000
Subject: [PATCH 79/97] fix: signature groups of others escrowed with an
 exchange message do not hide its valid ones

verify() raised on the first group in .esigs it could not verify, and anyone can have a group of a later event escrowed.
---
 src/keri/peer/exchanging.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/keri/peer/exchanging.py b/src/keri/peer/exchanging.py
index 2ee0187..40ecb8f 100644
--- a/src/keri/peer/exchanging.py
+++ b/src/keri/peer/exchanging.py
@@ -743,22 +743,28 @@ def verify(hby, serder):
         tsgs.append((prefixer, seqner, saider, sigers))
 
     accepted = False
+    valid = []
     for prefixer, seqner, ssaider, sigers in tsgs:
         if prefixer.qb64 not in hby.kevers or hby.kevers[prefixer.qb64].sn < seqner.sn:
             msg = f"Unable to find sender {prefixer.qb64} in kevers for evt = {serder.said}"
             logger.info(msg)
             logger.debug("Exn Body=\n%s\n", serder.pretty())
-            raise MissingSignatureError(msg)
+            continue  # escrowed signatures of other group may be valid
 
         # Verify the signatures are valid and that the signature threshold as of the signing event is met
-        tholder, verfers = hby.db.resolveVerifiers(pre=prefixer.qb64, sn=seqner.sn, dig=ssaider.qb64)
+        try:
+            tholder, verfers = hby.db.resolveVerifiers(pre=prefixer.qb64, sn=seqner.sn, dig=ssaider.qb64)
+        except ValidationError as ex:
+            logger.info("Bad signature group for evt = %s: %s", serder.said, ex.args[0])
+            continue  # escrowed signatures of other group may be valid
         _, indices = verifySigs(serder.raw, sigers, verfers)
 
         if not tholder.satisfy(indices):  # We still don't have all the sigers, need to escrow
             msg = f"Not enough signatures in idx={indices} for evt = {serder.said}"
             logger.info(msg)
             logger.debug("Exn Body=\n%s\n", serder.pretty())
-            raise MissingSignatureError(msg)
+            continue  # escrowed signatures of other group may be valid
+        valid.append((prefixer, seqner, ssaider, sigers))
         accepted = True
 
     cigars = []
@@ -778,7 +784,7 @@ def verify(hby, serder):
         logger.debug("Exn Body=\n%s\n", serder.pretty())
         raise MissingSignatureError(msg)
 
-    return tsgs, cigars
+    return valid, cigars
 
 
 def serializeParsedSubstream(parsed, gvrsn=Vrsn_2_0):
-- 
2.43.0


From ee85580b272cc04729db409e83817f332e84ac18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:05 +0000
Subject: [PATCH 80/97] fix: only a message of the same protocol counts as
 response of an exchange message

---
 src/keri/peer/exchanging.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/keri/peer/exchanging.py b/src/keri/peer/exchanging.py
index 40ecb8f..f4f1c4d 100644
--- a/src/keri/peer/exchanging.py
+++ b/src/keri/peer/exchanging.py
@@ -317,8 +317,10 @@ class Exchanger:
                                  vals=[bytes(serializeParsedSubstream(nest)) for nest in nests])
         for texter in essrs:
             self.hby.db.essrs.add(keys=(dig,), val=texter)
-        if pdig:
-            self.hby.db.erpy.pin(keys=(pdig,), val=diger)
+        if pdig and (prior := self.hby.db.exns.get(keys=(pdig,))) is not None:
+            # only message of same protocol, i.e. top of route, is its response
+            if prior.ked['r'].split("/")[:2] == serder.ked['r'].split("/")[:2]:
+                self.hby.db.erpy.pin(keys=(pdig,), val=diger)
 
         self.hby.db.exns.put(keys=(dig,), val=serder)
 
-- 
2.43.0


From 7e71c23b5820d849098b51966e6f46abc0610b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:05 +0000
Subject: [PATCH 81/97] fix: mailbox gives messages back as stored

A CBOR or MGPK message made its whole topic unreadable, and a crash left an index without its message.
---
 src/keri/app/storing.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/keri/app/storing.py b/src/keri/app/storing.py
index 718fa6b..9e4bd9b 100644
--- a/src/keri/app/storing.py
+++ b/src/keri/app/storing.py
@@ -92,8 +92,8 @@ class Mailboxer(LMDBer):
                 to form key at at which to initiate retrieval"""
         msgs = []
         for keys, on, dig in self.tpcs.getAllItemIter(keys=topic, on=fn):
-            if msg := self.msgs.get(keys=dig):
-                msgs.append(msg.encode())  # want bytes not str
+            if msg := self.getMsg(dig):
+                msgs.append(msg)
         return msgs
 
 
@@ -114,8 +114,21 @@ class Mailboxer(LMDBer):
             msg = msg.encode("utf-8")
 
         digb = Diger(ser=msg, code=MtrDex.Blake3_256).qb64b
-        on = self.tpcs.append(keys=topic, val=digb)
-        return self.msgs.pin(keys=digb, val=msg)
+        result = self.msgs.pin(keys=digb, val=msg)  # before index so never dangles
+        self.tpcs.append(keys=topic, val=digb)
+        return result
+
+
+    def getMsg(self, dig):
+        """
+        Returns:
+            msg (bytes|None): message stored at its digest as is, since message
+                body kind may be other than text, None when not stored
+
+        Parameters:
+            dig (str|bytes): msg digest"""
+        val = self.getVal(db=self.msgs.sdb, key=self.msgs._tokey(dig))
+        return bytes(val) if val is not None else None
 
 
     def cloneTopicIter(self, topic, fn=0):
@@ -136,8 +149,8 @@ class Mailboxer(LMDBer):
         Ordinal Numbered db.  since should not be using hidden ion has not
         hidden."""
         for keys, on, dig in self.tpcs.getAllItemIter(keys=topic, on=fn):
-            if msg := self.msgs.get(keys=dig):
-                yield (on, topic, msg.encode("utf-8"))
+            if msg := self.getMsg(dig):
+                yield (on, topic, msg)
 
 
 
-- 
2.43.0


From 42d10b88fbed73f06e6667dd3be4c110cdd9e4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:06 +0000
Subject: [PATCH 82/97] fix: iterating ordinals of a key passes interleaved
 entries of keys that extend it

A mailbox topic ending in an ordinal hid later messages of the topic it extends.
---
 src/keri/db/dbing.py | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/src/keri/db/dbing.py b/src/keri/db/dbing.py
index b33cb26..18fc90f 100644
--- a/src/keri/db/dbing.py
+++ b/src/keri/db/dbing.py
@@ -211,6 +211,18 @@ def splitOnKey(key, *, sep=b'.'):
     return (top, on)
 
 
+def isExtended(ckey, key, *, sep=b'.'):
+    """
+    Returns True when ckey extends key with sep so that entries at ordinals of
+    ckey may be interleaved among entries at ordinals of key, False otherwise
+    Accepts either bytes or str key and sep"""
+    if hasattr(key, "encode"):
+        key = key.encode()
+    if hasattr(sep, "encode"):
+        sep = sep.encode()
+    return bytes(ckey).startswith(key + sep)
+
+
 splitSnKey = splitOnKey  # alias so intent is clear, sn vs fn
 splitFnKey = splitOnKey  # alias so intent is clear, sn vs fn
 
@@ -965,9 +977,12 @@ class LMDBer(filing.Filer):
             if cursor.set_range(onkey):  # move to entry at key >= onkey if any
                 conkey = cursor.key()
                 ckey, con = splitOnKey(conkey, sep=sep)
-                while ckey == key: # on >= on at key so delete
-                    # delete moves cursor to next item
-                    result = cursor.delete() or result  # moves cursor to next
+                while ckey == key or isExtended(ckey, key, sep=sep):
+                    if ckey == key:  # on >= on at key so delete
+                        # delete moves cursor to next item
+                        result = cursor.delete() or result  # moves cursor to next
+                    else:  # interleaved entry of other key that extends key
+                        cursor.next()
                     if not (conkey := cursor.key()):  # get next key if any
                         break
                     ckey, con = splitOnKey(conkey, sep=sep)
@@ -1012,8 +1027,10 @@ class LMDBer(filing.Filer):
                 except ValueError as ex:  # not splittable key
                     break
 
-                if key and ckey != key:  # prev is now the last event for pre
-                    break  # done
+                if key and ckey != key:
+                    if isExtended(ckey, key, sep=sep):  # interleaved entry
+                        continue  # of other key that extends key with sep
+                    break  # done prev was the last event for pre
                 count = count+1
 
             return count
@@ -1079,6 +1096,8 @@ class LMDBer(filing.Filer):
             for ckey, cval in cursor.iternext():  # get key, val at cursor
                 ckey, cn = splitOnKey(ckey, sep=sep)
                 if key and not ckey == key:
+                    if isExtended(ckey, key, sep=sep):  # interleaved entry
+                        continue  # of other key that extends key with sep
                     break
                 yield (ckey, cn, cval)
 
@@ -3050,6 +3069,8 @@ class LMDBer(filing.Filer):
                 onkey, cval = cursor.item() # get ckey cval of last dup
                 ckey, on = splitOnKey(onkey, sep=sep)  # get key on
                 if key and not ckey == key:
+                    if isExtended(ckey, key, sep=sep) and cursor.next_nodup():
+                        continue  # past interleaved entry of other longer key
                     break
 
                 yield (ckey, on, cval[33:])  # slice off prepended ordering proem
@@ -3216,6 +3237,8 @@ class LMDBer(filing.Filer):
             for onkey, cval in cursor.iterprev(): # iterate backwards
                 ckey, on = splitOnKey(onkey, sep=sep)
                 if key and ckey != key:
+                    if isExtended(ckey, key, sep=sep):  # interleaved entry
+                        continue  # of other key that extends key with sep
                     return
                 yield (ckey, on, cval[33:])
 
-- 
2.43.0


From 77c956d1d31dc7fe58a6686132c1d732adb9832f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:25 +0000
Subject: [PATCH 83/97] fix: keep queries of non-transferable queriers until
 they can be answered

---
 src/keri/core/eventing.py | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index d9218bd..eefde44 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -5852,20 +5852,23 @@ class Kevery:
         Update associated logs for escrow of Query Not Found event
 
         Parameters:
-            prefixer (Prefixer): source of query message
+            prefixer (Prefixer | None): source of query message. None means
+                nontransferable source given by the verfer of the first of cigars
             serder (SerderKERI): instance of  event
             sigers (list): of Siger instance for  event
             cigars (list): of non-transferable receipts"""
         cigars = cigars if cigars is not None else []
+        if prefixer is None:
+            prefixer = Prefixer(qb64=cigars[0].verfer.qb64)
         dgkey = dgKey(prefixer.qb64b, serder.saidb)
         self.db.dtss.put(keys=dgkey, val=Dater())
         self.db.sigs.put(keys=dgkey, vals=sigers)
         self.db.evts.put(keys=(prefixer.qb64b, serder.saidb), val=serder)
-        self.db.qnfs.add(keys=(prefixer.qb64, serder.said), val=serder.saidb)
-
         for cigar in cigars:
             self.db.rcts.add(keys=(prefixer.qb64, serder.said), val=(cigar.verfer, cigar))
 
+        self.db.qnfs.add(keys=(prefixer.qb64, serder.said), val=serder.saidb)
+
         # log escrowed
         logger.trace("Kevery: escrowed query not found event = %s", serder.said)
         logger.trace("Event Body=\n%s\n", serder.pretty())
@@ -7130,14 +7133,6 @@ class Kevery:
 
                     #  get sigs and attach
                     sigers = self.db.sigs.get(keys=(pre, edig))
-                    if not sigers:  # otherwise its a list of sigs
-                        # no sigs so raise ValidationError which unescrows below
-                        msg = f"QNF Missing escrowed evt sigs at dig = {edig}"
-                        logger.trace("Kevery unescrow error: %s", msg)
-                        raise ValidationError(msg)
-
-                    # process event
-                    sigers = self.db.sigs.get(keys=(pre, edig))
 
                     # ToDo XXXX get trans endorsements
                     # getVrcs
@@ -7145,8 +7140,16 @@ class Kevery:
                     #  get nontrans endorsements
                     cigars = []
                     for prefixer, cigar in self.db.rcts.getIter(keys=(pre.encode("utf-8"), edig.encode("utf-8"))):
+                        cigar.verfer = Verfer(qb64=prefixer.qb64)
                         cigars.append(cigar)
 
+                    if not sigers and not cigars:
+                        # no sigs so raise ValidationError which unescrows below
+                        msg = f"QNF Missing escrowed evt sigs at dig = {edig}"
+                        logger.trace("Kevery unescrow error: %s", msg)
+                        raise ValidationError(msg)
+
+                    # process event
                     source = Prefixer(qb64b=pre)
                     self.processQuery(serder=eserder, source=source, sigers=sigers, cigars=cigars)
 
-- 
2.43.0


From 860ade7efe9e9512d0ee70497cfdaecdcc09082e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:25 +0000
Subject: [PATCH 84/97] fix: a query sent again after its timeout waits anew

---
 src/keri/core/eventing.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index eefde44..59daaba 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -5861,7 +5861,8 @@ class Kevery:
         if prefixer is None:
             prefixer = Prefixer(qb64=cigars[0].verfer.qb64)
         dgkey = dgKey(prefixer.qb64b, serder.saidb)
-        self.db.dtss.put(keys=dgkey, val=Dater())
+        if serder.said not in self.db.qnfs.get(keys=(prefixer.qb64, serder.said)):
+            self.db.dtss.pin(keys=dgkey, val=Dater())  # not waiting so starts anew
         self.db.sigs.put(keys=dgkey, vals=sigers)
         self.db.evts.put(keys=(prefixer.qb64b, serder.saidb), val=serder)
         for cigar in cigars:
-- 
2.43.0


From 557fc643182bdd68dac63c31dfbc27ce563f1bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:25 +0000
Subject: [PATCH 85/97] fix: a witness that lacks the delegator still answers
 log queries

---
 src/keri/core/eventing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/keri/core/eventing.py b/src/keri/core/eventing.py
index 59daaba..e2208e1 100644
--- a/src/keri/core/eventing.py
+++ b/src/keri/core/eventing.py
@@ -5682,7 +5682,7 @@ class Kevery:
             for msg in self.db.clonePreIter(pre=pre, fn=fn, version=kever.serder.pvrsn):
                 msgs.append(msg)
 
-            if kever.delpre:
+            if kever.delpre and kever.delpre in self.kevers:  # witness may not have delegator
                 dkever = self.kevers[kever.delpre]  # Get the delegator's kever so we can set the version for the iterator
                 cloner = self.db.clonePreIter(pre=kever.delpre, fn=0, version=dkever.serder.pvrsn)  # create iterator at 0
                 for msg in cloner:
-- 
2.43.0


From 5e451d38d9d200989a353a53e83b4380a6e95b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:25 +0000
Subject: [PATCH 86/97] fix: turn replay and key state reply cues as Kevery
 makes them into messages

---
 src/keri/app/habbing.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/keri/app/habbing.py b/src/keri/app/habbing.py
index fa41958..a9dd863 100644
--- a/src/keri/app/habbing.py
+++ b/src/keri/app/habbing.py
@@ -2749,14 +2749,21 @@ class BaseHab:
                 yield msgs
 
             elif cueKin in ("replay",):
-                msgs = cue["msgs"]
+                if isinstance(cue["msgs"], (bytes, bytearray)):  # one stream of messages
+                    msgs.extend(cue["msgs"])
+                else:  # sequence of messages
+                    for msg in cue["msgs"]:
+                        msgs.extend(msg)
                 yield msgs
 
             elif cueKin in ("reply",):
-                data = cue["data"]
-                route = cue["route"]
-                msg = self.reply(data=data, route=route,
-                                 gvrsn=gvrsn, version=version, kind=kind)
+                if (rserder := cue.get("serder")) is not None:  # already built reply
+                    msg = self.endorse(rserder, framed=True, gvrsn=rserder.pvrsn)
+                else:
+                    data = cue["data"]
+                    route = cue["route"]
+                    msg = self.reply(data=data, route=route,
+                                     gvrsn=gvrsn, version=version, kind=kind)
                 yield msg
 
             elif cueKin in ("witness",):  # cue to witness a received event, own pre must be a witness
-- 
2.43.0


From 625ce7908e6d0f78141e63d7a886f753d52760f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:15:25 +0000
Subject: [PATCH 87/97] fix: do not fail on query cues that name no attester

---
 src/keri/app/habbing.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/keri/app/habbing.py b/src/keri/app/habbing.py
index a9dd863..99d9480 100644
--- a/src/keri/app/habbing.py
+++ b/src/keri/app/habbing.py
@@ -2777,6 +2777,10 @@ class BaseHab:
                 yield msgs
 
             elif cueKin in ("query",):  # cue to send a query message
+                if "pre" not in cue or "src" not in cue:  # no attester to query
+                    logger.info("%s got cue: kin=%s q=%s without source to query",
+                                self.pre, cueKin, cue.get("q"))
+                    continue
                 pre = cue["pre"]
                 src = cue["src"]
                 route = cue.get("route")
-- 
2.43.0


From 5398e47815535068810d19b64816eec33c111ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:16:37 +0000
Subject: [PATCH 88/97] fix: browser store ordinals of a key pass interleaved
 entries of keys that extend it

Removing, counting and iterating the ordinals of a key stopped at the first
entry of a longer key that sorts among them.
---
 src/keri/db/webdbing.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/keri/db/webdbing.py b/src/keri/db/webdbing.py
index 632be70..d1f8f4d 100644
--- a/src/keri/db/webdbing.py
+++ b/src/keri/db/webdbing.py
@@ -731,10 +731,11 @@ class WebDBer:
             return self.remTop(db=db, top=b"")
 
         doomed = []
-        for okey in db.items.irange(minimum=onKey(key, on, sep=sep)):
+        for okey in db.items.irange(minimum=onKey(key, on, sep=sep),
+                                    maximum=onKey(key, MaxON, sep=sep)):
             ckey, _ = splitOnKey(okey, sep=sep)
             if ckey != key:
-                break
+                continue  # interleaved entry of other key that extends key
             doomed.append(okey)
 
         if not doomed:
@@ -772,16 +773,17 @@ class WebDBer:
             sep (bytes): separator character for split.
         """
         start = onKey(key, on, sep=sep) if key else b""
+        end = onKey(key, MaxON, sep=sep) if key else None
         count = 0
 
-        for okey in db.items.irange(minimum=start):
+        for okey in db.items.irange(minimum=start, maximum=end):
             try:
                 ckey, _ = splitOnKey(okey, sep=sep)
             except ValueError:
                 break
 
             if key and ckey != key:
-                break
+                continue  # interleaved entry of other key that extends key
             count += 1
 
         return count
@@ -2285,7 +2287,7 @@ def _iterOnItems(
     for okey, val in _snapshot(db.items, start, end):
         ckey, cn = splitOnKey(okey, sep=sep)
         if key and ckey != key:
-            break
+            continue  # interleaved entry of other key that extends key
         yield ckey, cn, val
 
 
-- 
2.43.0


From 3cd3011e46763d3cb1819f0f9f4904c7da2c2953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:06 +0000
Subject: [PATCH 89/97] fix: answer registry state queries so that responders
 can send them

---
 src/keri/vdr/eventing.py | 32 ++++++++++++++++++++++++--------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/src/keri/vdr/eventing.py b/src/keri/vdr/eventing.py
index 81a905a..bba8f92 100644
--- a/src/keri/vdr/eventing.py
+++ b/src/keri/vdr/eventing.py
@@ -24,7 +24,8 @@ from ..kering import (Kinds, Ilks, versify,
 
 from ..core import (Salter, SealEvent, SealSource,
                     TraitDex, MtrDex, ample, verifySigs,
-                    query as queryCore, messagize as coreMessagize)
+                    query as queryCore, reply as replyCore,
+                    messagize as coreMessagize)
 
 from ..db import (Baser, Broker, Komer, LMDBer,
                   Suber, OnSuber, CatCesrSuber, IoDupSuber,
@@ -1632,17 +1633,18 @@ class Tevery:
         if source is None and cigars:
             source = cigars[0].verfer
 
+        src = qry["src"]
+        vci = qry.get("i")  # credential when query is about credential also
 
         if route == "tels":
             mgmt = qry["ri"]
-            src = qry["src"]
 
             cloner = self.reger.clonePreIter(pre=mgmt, fn=0)  # create iterator at 0
             msgs = list()  # outgoing messages
             for msg in cloner:
                 msgs.append(msg)
 
-            if vci := qry["i"]:
+            if vci:
                 cloner = self.reger.clonePreIter(pre=vci, fn=0)  # create iterator at 0
                 for msg in cloner:
                     msgs.append(msg)
@@ -1654,17 +1656,31 @@ class Tevery:
             ri = qry["ri"]
             if ri in self.tevers:
                 tever = self.tevers[ri]
-                tsn = tever.state()
-                self.cues.push(dict(kin="reply", route="/tsn/registry", data=asdict(tsn), dest=source))
+                self.cueState(src=src, dest=source.qb64, route="/tsn/registry",
+                              tsn=tever.state(), serder=serder)
 
-                if vcpre := qry["i"]:
-                    tsn = tever.vcState(vcpre=vcpre)
-                    self.cues.push(dict(kin="reply", route="/tsn/credential", data=asdict(tsn), dest=source))
+                if vci and (tsn := tever.vcState(vci)) is not None:
+                    self.cueState(src=src, dest=source.qb64, route="/tsn/credential",
+                                  tsn=tsn, serder=serder)
 
         else:
             raise ValidationError("invalid query message {} for evt = {}".format(ilk, ked))
 
 
+    def cueState(self, src, dest, route, tsn, serder):
+        """Cue reply with transaction state as answer to state query
+
+        Parameters:
+            src (str): qb64 identifier prefix of responder
+            dest (str): qb64 identifier prefix of querier
+            route (str): route of kind of state
+            tsn (RegStateRecord | VcStateRecord): state
+            serder (Serder): query message serder"""
+        rserder = replyCore(pre=src, route=f"{route}/{src}", data=asdict(tsn),
+                            version=serder.pvrsn, kind=serder.kind)
+        self.cues.push(dict(kin="reply", src=src, route=route, serder=rserder, dest=dest))
+
+
     def registerReplyRoutes(self, router):
         """ Register the routes for processing messages embedded in `rpy` event messages
 
-- 
2.43.0


From 98fb4c3130ceeef6e2ad13b84d2ce519d84f7589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:56 +0000
Subject: [PATCH 90/97] fix: group identifier whose inception awaits members is
 a group again after restart

---
 src/keri/app/habbing.py | 9 +++++++--
 src/keri/db/basing.py   | 4 ++++
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/keri/app/habbing.py b/src/keri/app/habbing.py
index 99d9480..6a00072 100644
--- a/src/keri/app/habbing.py
+++ b/src/keri/app/habbing.py
@@ -325,14 +325,15 @@ class Habery:
             if habord.mid and not habord.sid:
                 hab = GroupHab(ks=self.ks, db=self.db, cf=self.cf, mgr=self.mgr,
                                rtr=self.rtr, rvy=self.rvy, kvy=self.kvy, psr=self.psr,
-                               name=habord.name, pre=pre, temp=self.temp, smids=habord.smids)
+                               name=habord.name, pre=pre, temp=self.temp, smids=habord.smids,
+                               rmids=habord.rmids)
                 groups.append(habord)
             elif habord.sid and not habord.mid:
                 hab = SignifyHab(ks=self.ks, db=self.db, cf=self.cf, mgr=self.mgr,
                                  rtr=self.rtr, rvy=self.rvy, kvy=self.kvy, psr=self.psr,
                                  name=habord.name, pre=habord.sid)
             elif habord.sid and habord.mid:
-                hab = SignifyGroupHab(smids=habord.smids, ks=self.ks, db=self.db, cf=self.cf, mgr=self.mgr,
+                hab = SignifyGroupHab(smids=habord.smids, rmids=habord.rmids, ks=self.ks, db=self.db, cf=self.cf, mgr=self.mgr,
                                       rtr=self.rtr, rvy=self.rvy, kvy=self.kvy, psr=self.psr,
                                       name=habord.name, pre=pre)
                 groups.append(habord)
@@ -540,6 +541,7 @@ class Habery:
 
         hab.save(habord)
         hab.prefixes.add(pre)
+        hab.db.groups.add(pre)
         hab.inited = True
 
         self.habs[hab.pre] = hab
@@ -653,6 +655,7 @@ class Habery:
 
         hab.save(habord)
         hab.prefixes.add(pre)
+        hab.db.groups.add(pre)
         hab.inited = True
 
         self.habs[hab.pre] = hab
@@ -3612,6 +3615,7 @@ class SignifyGroupHab(SignifyHab):
             **kwa: Absorbed for API compatibility; not used."""
         self.pre = serder.ked["i"]  # new pre
         self.prefixes.add(self.pre)
+        self.db.groups.add(self.pre)
         self.processEvent(serder, sigers)
         habord = HabitatRecord(hid=self.pre, mid=self.mhab.pre, smids=self.smids, rmids=self.rmids,
                                       sid=self.pre, name=self.name, domain=self.ns)
@@ -3828,6 +3832,7 @@ class GroupHab(BaseHab):
                                       rmids=self.rmids)
         self.save(habord)
         self.prefixes.add(self.pre)
+        self.db.groups.add(self.pre)
 
         # during delegation initialization of a habitat we ignore the MissingDelegationError and
         # MissingSignatureError
diff --git a/src/keri/db/basing.py b/src/keri/db/basing.py
index 65e2dd8..8285422 100644
--- a/src/keri/db/basing.py
+++ b/src/keri/db/basing.py
@@ -1374,6 +1374,10 @@ class Baser(LMDBer):
             elif data.mid is None:  # in .habs but no corresponding key state and not a group so remove
                 removes.append(keys)  # no key state or KEL event for .hab record
 
+            else:  # group whose inception is still awaiting acceptance
+                self.prefixes.add(data.hid)
+                self.groups.add(data.hid)
+
         for keys in removes:  # remove bare .habs records
             self.habs.rem(keys=keys)
 
-- 
2.43.0


From e2890d94706bc70c5298808d06af9745865094c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:56 +0000
Subject: [PATCH 91/97] fix: interrupted make of a group identifier could not
 be made again

---
 src/keri/app/habbing.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/keri/app/habbing.py b/src/keri/app/habbing.py
index 6a00072..f6724a6 100644
--- a/src/keri/app/habbing.py
+++ b/src/keri/app/habbing.py
@@ -3830,7 +3830,9 @@ class GroupHab(BaseHab):
                                       domain=self.ns,
                                       smids=self.smids,
                                       rmids=self.rmids)
-        self.save(habord)
+        ns = "" if self.ns is None else self.ns
+        if self.db.names.get(keys=(ns, self.name)) is not None:
+            raise ValueError("AID already exists with that name")
         self.prefixes.add(self.pre)
         self.db.groups.add(self.pre)
 
@@ -3844,6 +3846,9 @@ class GroupHab(BaseHab):
             raise ConfigurationError("Improper Habitat inception for "
                                             "pre={} {}".format(self.pre, ex))
 
+        # only take the name once inception is accepted or in escrow so that an
+        # interrupted inception, such as by a crash, may be made again
+        self.save(habord)
 
         self.inited = True
 
-- 
2.43.0


From 4f9674825af3b444a630e90ab7ddd17a6e16505a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:56 +0000
Subject: [PATCH 92/97] fix: counselor lost or mixed up pending events of a
 group and their witness submission

---
 src/keri/app/grouping.py | 157 ++++++++++++++++++++++++++-------------
 1 file changed, 104 insertions(+), 53 deletions(-)

diff --git a/src/keri/app/grouping.py b/src/keri/app/grouping.py
index dcc5169..b7b1e20 100644
--- a/src/keri/app/grouping.py
+++ b/src/keri/app/grouping.py
@@ -58,6 +58,7 @@ class Counselor(doing.DoDoer):
         self.proxy = proxy
         self.witDoer = Receiptor(hby=self.hby)
         self.witq = WitnessInquisitor(hby=hby)
+        self.submitted = set()  # (pre, sn) of events submitted to witnesses
 
         doers = [self.swain, self.witq, self.witDoer, doing.doify(self.escrowDo)]
 
@@ -146,50 +147,45 @@ class Counselor(doing.DoDoer):
 
         """
         for (pre,), (number, diger) in self.hby.db.gpse.getTopItemIter():  # group partially signed escrow
-            sdig = self.hby.db.kels.getLast(keys=pre, on=number.sn)
-            if sdig:
-                sdig = sdig.encode("utf-8")
-                self.hby.db.gpse.rem(keys=(pre,))
-                ghab = self.hby.habs[pre]
-                kever = ghab.kever
-                keys = [verfer.qb64 for verfer in kever.verfers]
-                sigers = self.hby.db.sigs.get(keys=(pre, sdig))
-                if not sigers:  # otherwise its a list of sigs
-                    continue
+            if not self.hby.db.kels.getLast(keys=pre, on=number.sn):
+                continue  # nothing accepted yet at number.sn
 
+            ghab = self.hby.habs[pre]
+            kever = ghab.kever
+            sigers = self.hby.db.sigs.get(keys=(pre, diger.qb64))
+            if not sigers:  # otherwise its a list of sigs
+                continue
+
+            if kever.delegated and kever.ilk in (Ilks.dip, Ilks.drt):
+                keys = [verfer.qb64 for verfer in kever.verfers]
                 windex = min([siger.index for siger in sigers])
 
                 # True if Elected to perform delegation and witnessing
                 witered = ghab.mhab.kever.verfers[0].qb64 == keys[windex]
 
-                if kever.delegated and kever.ilk in (Ilks.dip, Ilks.drt):
-                    # We are a delegated identifier, must wait for delegator approval for dip and drt
-                    if witered:  # We are elected to perform delegation and witnessing messaging
-                        logger.info("AID %s...%s: We are the witnesser, sending %s to delegator", pre[:4], pre[-4:], pre)
-                        self.swain.delegation(pre=pre, sn=number.sn)
+                # We are a delegated identifier, must wait for delegator approval for dip and drt
+                if witered:  # We are elected to perform delegation and witnessing messaging
+                    logger.info("AID %s...%s: We are the witnesser, sending %s to delegator", pre[:4], pre[-4:], pre)
+                    self.swain.delegation(pre=pre, sn=number.sn)
+                else:
+                    anchor = dict(i=pre, s=number.snh, d=diger.qb64)
+                    kwa = dict(version=self.version, gvrsn=self.version, kind=self.kind) if self.version is not None else {}
+                    if self.proxy:
+                        self.witq.query(hab=self.proxy, pre=kever.delpre, anchor=anchor,
+                                        **kwa)
                     else:
-                        anchor = dict(i=pre, s=number.snh, d=diger.qb64)
-                        kwa = dict(version=self.version, gvrsn=self.version, kind=self.kind) if self.version is not None else {}
-                        if self.proxy:
-                            self.witq.query(hab=self.proxy, pre=kever.delpre, anchor=anchor,
-                                            **kwa)
-                        else:
-                            self.witq.query(src=ghab.mhab.pre, pre=kever.delpre, anchor=anchor,
-                                            **kwa)
-
-                    logger.info("AID %s...%s: Waiting for delegation approval...", pre[:4], pre[-4:])
-                    self.hby.db.gdee.add(keys=(pre,), val=(number, diger))
-                else:  # Non-delegation, move on to witnessing
-                    if witered:  # We are elected witnesser, send off event to witnesses
-                        logger.info(
-                            "AID %s...%s: We are the fully signed witnesser %s, sending to witnesses",
+                        self.witq.query(src=ghab.mhab.pre, pre=kever.delpre, anchor=anchor,
+                                        **kwa)
+
+                logger.info("AID %s...%s: Waiting for delegation approval...", pre[:4], pre[-4:])
+                self.hby.db.gdee.add(keys=(pre,), val=(number, diger))
+            else:  # Non-delegation, move on to witnessing
+                # Move to escrow waiting for acceptance and witness receipts
+                logger.info("AID %s...%s: Waiting for fully signed witness receipts for %s",
                             pre[:4], pre[-4:], number.sn)
-                        self.witDoer.msgs.append(dict(pre=pre, sn=number.sn))
+                self.hby.db.gpwe.add(keys=(pre,), val=(number, diger))
 
-                    # Move to escrow waiting for witness receipts
-                    logger.info("AID %s...%s: Waiting for fully signed witness receipts for %s",
-                                pre[:4], pre[-4:], number.sn)
-                    self.hby.db.gpwe.add(keys=(pre,), val=(number, diger))
+            self.unescrow(self.hby.db.gpse, pre, number, diger)
 
     def processDelegateEscrow(self):
         """
@@ -201,31 +197,28 @@ class Counselor(doing.DoDoer):
             anchor = dict(i=pre, s=number.numh, d=diger.qb64)
             ghab = self.hby.habs[pre]
             kever = ghab.kevers[pre]
+            serder = self.hby.db.evts.get(keys=(pre, diger.qb64))
 
-            keys = [verfer.qb64 for verfer in kever.verfers]
-            witer = ghab.mhab.kever.verfers[0].qb64 == keys[0]  # We are elected to perform delegation and witnessing
-
-            if witer:  # We are elected witnesser, We've already done out part in Boatswain, we are done.
-                if self.swain.complete(prefixer=kever.prefixer, number=Number(num=kever.sn, code=NumDex.Huge)):
-                    self.hby.db.gdee.rem(keys=(pre,))
+            if self.elected(ghab, serder):  # We are elected witnesser, We've already done out part in Boatswain, we are done.
+                if self.swain.complete(prefixer=kever.prefixer, number=Number(num=number.sn, code=NumDex.Huge)):
                     logger.info("AID %s...%s: Delegation approval for %s received.", pre[:4], pre[-4:], pre)
 
                     self.hby.db.cgms.put(keys=(pre, number.qb64), val=diger)
+                    self.unescrow(self.hby.db.gdee, pre, number, diger)
 
             else:  # Not witnesser, we need to look for the anchor and then wait for receipts
-                if serder := self.hby.db.fetchLastSealingEventByEventSeal(kever.delpre,
-                                                                          seal=anchor):
-                    sner = Number(num=serder.sn, code=NumDex.Huge)
-                    adiger = Diger(qb64b=serder.saidb)
+                if aserder := self.hby.db.fetchLastSealingEventByEventSeal(kever.delpre,
+                                                                           seal=anchor):
+                    sner = Number(num=aserder.sn, code=NumDex.Huge)
+                    adiger = Diger(qb64b=aserder.saidb)
                     self.hby.db.aess.pin(keys=(pre, diger.qb64b),
                                          val=(sner, adiger))  # authorizer event seal (delegator/issuer)
-                    self.hby.db.gdee.rem(keys=(pre,))
                     logger.info("AID %s...%s: Delegation approval for %s received.", pre[:4], pre[-4:], pre)
 
                     # Move to escrow waiting for witness receipts
                     logger.info("AID %s...%s: Waiting for witness receipts for %s", pre[:4], pre[-4:], pre)
-                    self.hby.db.gdee.rem(keys=(pre,))
                     self.hby.db.gpwe.add(keys=(pre,), val=(number, diger))
+                    self.unescrow(self.hby.db.gdee, pre, number, diger)
 
     def processPartialWitnessEscrow(self):
         """
@@ -235,15 +228,25 @@ class Counselor(doing.DoDoer):
 
         """
         for (pre,), (number, diger) in self.hby.db.gpwe.getTopItemIter():  # group partial witness escrow
-            kever = self.hby.kevers[pre]
+            if diger.qb64 not in self.hby.db.kels.get(keys=pre, on=number.sn):
+                continue  # some other event accepted at number.sn
 
             # Load all the witness receipts we have so far
             wigers = self.hby.db.wigs.get(keys=(pre, diger.qb64))
             ghab = self.hby.habs[pre]
-            keys = [verfer.qb64 for verfer in kever.verfers]
-            witer = ghab.mhab.kever.verfers[0].qb64 == keys[0]
-            if len(wigers) == len(kever.wits):  # We have all of them, this event is finished
-                if witer and len(kever.wits) > 0:
+            serder = self.hby.db.evts.get(keys=(pre, diger.qb64))
+            wits = self.hby.db.wits.get(keys=(pre, self.establisher(serder).said))
+            witer = self.elected(ghab, serder)
+
+            if witer and wits and (pre, number.sn) not in self.submitted:
+                # submission is in memory so is made anew after a restart
+                logger.info("AID %s...%s: We are the fully signed witnesser %s, sending to witnesses",
+                            pre[:4], pre[-4:], number.sn)
+                self.submitted.add((pre, number.sn))
+                self.witDoer.msgs.append(dict(pre=pre, sn=number.sn))
+
+            if len(wigers) == len(wits):  # We have all of them, this event is finished
+                if witer and wits:
                     witnessed = False
                     for cue in self.witDoer.cues:
                         if cue["pre"] == ghab.pre and cue["sn"] == number.sn:
@@ -251,11 +254,59 @@ class Counselor(doing.DoDoer):
                     if not witnessed:
                         continue
                 logger.info("AID %s...%s: Witness receipts complete, %s confirmed.", pre[:4], pre[-4:], pre)
-                self.hby.db.gpwe.rem(keys=(pre,))
                 self.hby.db.cgms.put(keys=(pre, number.qb64), val=diger)
+                self.unescrow(self.hby.db.gpwe, pre, number, diger)
             elif not witer:
                 self.witDoer.gets.append(dict(pre=pre, sn=number.sn))
 
+    def establisher(self, serder):
+        """ Returns the establishment event in effect for event
+
+        Parameters:
+            serder (SerderKERI): event of group identifier
+
+        Returns:
+            SerderKERI: serder itself when establishment event, otherwise the latest
+                one its chain of prior events leads back to
+
+        """
+        while not serder.estive:
+            serder = self.hby.db.evts.get(keys=(serder.pre, serder.prior))
+
+        return serder
+
+    def elected(self, ghab, serder):
+        """ Elect the member with the lowest signing index to perform delegation and
+        witnessing. Member may have rotated own keys since.
+
+        Parameters:
+            ghab (Hab): group Habitat
+            serder (SerderKERI): event of group identifier
+
+        Returns:
+            bool: True if local member is elected
+
+        """
+        sigers = self.hby.db.sigs.get(keys=(serder.pre, serder.said))
+        windex = min([siger.index for siger in sigers])
+        verfer = self.establisher(serder).verfers[windex]
+        return ghab.mhab.kever.fetchLatestContribTo(verfers=[verfer]) is not None
+
+    def unescrow(self, escrow, pre, number, diger):
+        """ Remove event from escrow, leaves other events of same group identifier
+
+        Parameters:
+            escrow (CatCesrIoSetSuber): escrow subdb
+            pre (str): qb64 identifier prefix of group identifier
+            number (Number): sequence number of event
+            diger (Diger): digest of event
+
+        """
+        if any(other.qb64 != diger.qb64 for (opre,), (_, other) in escrow.getTopItemIter() if opre == pre):
+            escrow.rem(keys=(pre,), val=(number, diger))
+        else:
+            escrow.rem(keys=(pre,))
+
 
 class MultisigNotificationHandler:
     """
-- 
2.43.0


From cac12e0979bee35f7b000666506be21dd54b2b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:56 +0000
Subject: [PATCH 93/97] fix: exchange message with an escrowed copy was handled
 twice, later bad copies replaced its attachments

---
 src/keri/peer/exchanging.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/keri/peer/exchanging.py b/src/keri/peer/exchanging.py
index f4f1c4d..84fc7c3 100644
--- a/src/keri/peer/exchanging.py
+++ b/src/keri/peer/exchanging.py
@@ -191,6 +191,11 @@ class Exchanger:
             logger.debug("Behavior for %s missing or does not have handle for SAID=%s", route, serder.said)
             logger.debug("Event=\n%s\n", serder.pretty())
 
+        # handled, so an escrow of an earlier copy (its signatures did not
+        # suffice) must not be handled again with the signatures stored now
+        self.hby.db.epse.rem(keys=(serder.said,))
+        self.hby.db.epsd.rem(keys=(serder.said,))
+
     def processEscrow(self):
         """ Process all escrows for `exn` messages"""
         self.processEscrowPartialSigned()
@@ -207,6 +212,11 @@ class Exchanger:
 
         """
         dig = serder.said
+        if self.hby.db.exns.get(keys=(dig,)) is not None:
+            # already accepted, a copy with signatures that do not suffice must
+            # not replace what was stored with the accepted one
+            return False
+
         for prefixer, seqner, ssaider, sigers in tsgs:  # iterate over each tsg
             quadkeys = (serder.said, prefixer.qb64, f"{seqner.sn:032x}", ssaider.qb64)
             for siger in sigers:
-- 
2.43.0


From dc3057c10224cde571984667d3c03f3fd6816b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:51 +0000
Subject: [PATCH 94/97] fix: registry event escrowed before its anchor was
 recorded was dropped by the escrow pass

---
 src/keri/vdr/eventing.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/keri/vdr/eventing.py b/src/keri/vdr/eventing.py
index bba8f92..d930332 100644
--- a/src/keri/vdr/eventing.py
+++ b/src/keri/vdr/eventing.py
@@ -2061,7 +2061,7 @@ class Tevery:
                 traw = self.reger.tvts.get(keys=dgkey)
                 if traw is None:
                     # no event so raise ValidationError which unescrows below
-                    msg = f"OOO Missing escrowed event at dig = {bytes(digb).decode()}"
+                    msg = f"OOO Missing escrowed event at dig = {digb}"
                     logger.info("Tevery unescrow error: %s", msg)
                     raise ValidationError(msg)
 
@@ -2071,7 +2071,7 @@ class Tevery:
 
                 couple = self.reger.ancs.get(keys=dgkey)
                 if couple is None:
-                    msg = f"OOO Missing escrowed anchor at dig = {bytes(digb).decode()}"
+                    msg = f"OOO Missing escrowed anchor at dig = {digb}"
                     logger.info("Tevery unescrow error: %s", msg)
                     raise ValidationError(msg)
                 number, diger = couple
@@ -2118,7 +2118,7 @@ class Tevery:
                 traw = self.reger.tvts.get(keys=dgkey)
                 if traw is None:
                     # no event so raise ValidationError which unescrows below
-                    msg = f"ANC Missing escrowed event at dig = {bytes(digb).decode()}"
+                    msg = f"ANC Missing escrowed event at dig = {digb}"
                     logger.trace("Tevery unescrow error: %s", msg)
                     raise ValidationError(msg)
 
@@ -2128,7 +2128,7 @@ class Tevery:
 
                 couple = self.reger.ancs.get(keys=dgkey)
                 if couple is None:
-                    msg = f"ANC Missing escrowed anchor at dig = {bytes(digb).decode()}"
+                    msg = f"ANC Missing escrowed anchor at dig = {digb}"
                     logger.trace("Tevery unescrow error: %s", msg)
                     raise MissingAnchorError(msg)
                 number, diger = couple
-- 
2.43.0


From 03269ae35609ce1690592e5ebd862e46e9eb0092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:51 +0000
Subject: [PATCH 95/97] fix: credential sources were sent with attachments of
 another version than the rest

---
 src/keri/vdr/eventing.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/keri/vdr/eventing.py b/src/keri/vdr/eventing.py
index d930332..376485b 100644
--- a/src/keri/vdr/eventing.py
+++ b/src/keri/vdr/eventing.py
@@ -2622,12 +2622,13 @@ class Reger(LMDBer):
         return coreMessagize(serder, wigers=tibs or None, bonds=seal,
                              framed=False, gvrsn=gvrsn)
 
-    def sources(self, db, creder):
+    def sources(self, db, creder, gvrsn=Version):
         """ Returns raw bytes of any source ('e') credential that is in our database
 
         Parameters:
             db (LMDBer): table to search
             creder (Creder): root credential
+            gvrsn (Versionage): CESR genus version for attachments
 
         Returns:
             list: credential sources as resolved from `e` in creder.crd"""
@@ -2648,11 +2649,11 @@ class Reger(LMDBer):
 
             msg = coreMessagize(screder,
                                 bonds=[SealEvent(i=prefixer, s=number, d=saider)],
-                                framed=True, gvrsn=screder.pvrsn)
+                                framed=True, gvrsn=gvrsn)
             atc = bytearray(msg[screder.size:])
 
             sources.append((screder, atc))
-            sources.extend(self.sources(db, screder))
+            sources.extend(self.sources(db, screder, gvrsn=gvrsn))
 
         return sources
 
-- 
2.43.0


From 5e698bf158f58418dad0ac939a510249ec874d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:51 +0000
Subject: [PATCH 96/97] fix: registrar waited for the wrong key event and
 witnesses, forgot completions and submissions at restart

---
 src/keri/vdr/credentialing.py | 46 +++++++++++++++++++++++++----------
 1 file changed, 33 insertions(+), 13 deletions(-)

diff --git a/src/keri/vdr/credentialing.py b/src/keri/vdr/credentialing.py
index 926d78a..018aef8 100644
--- a/src/keri/vdr/credentialing.py
+++ b/src/keri/vdr/credentialing.py
@@ -564,6 +564,8 @@ class Registrar(doing.DoDoer):
         from ..app.agenting import Receiptor, WitnessPublisher
         self.receiptor = Receiptor(hby=self.hby)
         self.witPub = WitnessPublisher(hby=self.hby)
+        self.submitted = set()  # (pre, sn) of anchoring events submitted to witnesses
+        self.published = set()  # (pre, sn) of TEL events handed to publisher
 
         doers = [self.receiptor, self.witPub, doing.doify(self.escrowDo)]
 
@@ -584,15 +586,15 @@ class Registrar(doing.DoDoer):
         rnum = Number(num=0, code=NumDex.Huge)
 
         if not isinstance(hab, GroupHab):  # not a multisig group
-            number = Number(sn=hab.kever.sner.num)
-            diger = Diger(qb64=hab.kever.serder.said)
+            number = Number(sn=anc.sn)
+            diger = Diger(qb64=anc.said)
             registry.anchorMsg(pre=iserder.pre,
                                regd=iserder.said,
                                seqner=number,
                                saider=diger)
 
             print("Waiting for TEL event witness receipts")
-            self.receiptor.msgs.append(dict(pre=anc.pre, sn=number.sn))
+            self.submit(pre=hab.pre, sn=number.sn)
 
             self.rgy.reger.tpwe.add(keys=(registry.regk, rnum.qb64), val=(hab.kever.prefixer, number, diger))
 
@@ -629,12 +631,12 @@ class Registrar(doing.DoDoer):
         rnum = Number(num=iserder.ked["s"], code=NumDex.Huge)
 
         if not isinstance(hab, GroupHab):  # not a multisig group
-            number = Number(sn=hab.kever.sner.num)
-            diger = Diger(qb64=hab.kever.serder.said)
+            number = Number(sn=anc.sn)
+            diger = Diger(qb64=anc.said)
             registry.anchorMsg(pre=vcid, regd=iserder.said, seqner=number, saider=diger)
 
             print("Waiting for TEL event witness receipts")
-            self.receiptor.msgs.append(dict(pre=hab.pre, sn=number.sn))
+            self.submit(pre=hab.pre, sn=number.sn)
 
             self.rgy.reger.tpwe.add(keys=(vcid, rnum.qb64), val=(hab.kever.prefixer, number, diger))
 
@@ -673,12 +675,12 @@ class Registrar(doing.DoDoer):
         rnum = Number(num=rserder.ked["s"], code=NumDex.Huge)
 
         if not isinstance(hab, GroupHab):  # not a multisig group
-            number = Number(sn=hab.kever.sner.num)
-            diger = Diger(qb64=hab.kever.serder.said)
+            number = Number(sn=anc.sn)
+            diger = Diger(qb64=anc.said)
             registry.anchorMsg(pre=vcid, regd=rserder.said, seqner=number, saider=diger)
 
             print("Waiting for TEL event witness receipts")
-            self.receiptor.msgs.append(dict(pre=hab.pre, sn=number.sn))
+            self.submit(pre=hab.pre, sn=number.sn)
 
             self.rgy.reger.tpwe.add(keys=(vcid, rnum.qb64), val=(hab.kever.prefixer, number, diger))
             return vcid, rnum.sn
@@ -735,7 +737,18 @@ class Registrar(doing.DoDoer):
 
         seqner = Seqner(sn=sn)
         said = self.rgy.reger.ctel.get(keys=(pre, seqner.qb64))
-        return said is not None and self.witPub.sent(said=pre)
+        # publication is in memory only, so nothing to wait for when completed before a restart
+        return said is not None and ((pre, sn) not in self.published or self.witPub.sent(said=pre))
+
+    def submit(self, pre, sn):
+        """ Submit anchoring event to witnesses for receipts
+
+        Parameters:
+            pre (str): qb64 identifier prefix of anchoring event
+            sn (int): integer sequence number of anchoring event
+        """
+        self.submitted.add((pre, sn))
+        self.receiptor.msgs.append(dict(pre=pre, sn=sn))
 
     def escrowDo(self, tymth, tock=1.0, **kwa):
         """Process escrows of TEL events and their underlying KEL events waiting to be fully signed
@@ -778,12 +791,17 @@ class Registrar(doing.DoDoer):
         that the event is complete.
         """
         for (regk, snq), (prefixer, number, diger) in self.rgy.reger.tpwe.getTopItemIter():  # partial witness escrow
-            kever = self.hby.kevers[prefixer.qb64]
+            # witnesses of anchoring event, may have been rotated since
+            wits = self.hby.kvy.fetchWitnessState(prefixer.qb64, number.sn)
+
+            if wits and (prefixer.qb64, number.sn) not in self.submitted:
+                # submission is in memory so is made anew after a restart
+                self.submit(pre=prefixer.qb64, sn=number.sn)
 
             # Load all the witness receipts we have so far
             wigers = self.hby.db.wigs.get(keys=(prefixer.qb64b, diger.qb64))
-            if kever.wits:
-                if len(wigers) == len(kever.wits):  # We have all of them, this event is finished
+            if wits:
+                if len(wigers) == len(wits):  # We have all of them, this event is finished
                     hab = self.hby.habs[prefixer.qb64]
                     witnessed = False
                     for cue in self.receiptor.cues:
@@ -845,6 +863,8 @@ class Registrar(doing.DoDoer):
             print(f"Sending TEL events to witnesses")
             # Fire and forget the TEL event to the witnesses.  Consumers will have to query
             # to determine when the Witnesses have received the TEL events.
+            if self.rgy.reger.ctel.get(keys=(regk, rnum.qb64)) is None:
+                self.published.add((regk, rnum.sn))
             self.witPub.msgs.append(dict(pre=prefixer.qb64, said=regk, msg=tevt))
             self.rgy.reger.ctel.put(keys=(regk, rnum.qb64), val=saider)  # idempotent
 
-- 
2.43.0


From d74629c2f86b68dcd52426c300afb05a884bf6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:38:51 +0000
Subject: [PATCH 97/97] fix: crash between escrows lost pending registry events
 and credentials

---
 src/keri/vdr/credentialing.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/keri/vdr/credentialing.py b/src/keri/vdr/credentialing.py
index 018aef8..9742e8d 100644
--- a/src/keri/vdr/credentialing.py
+++ b/src/keri/vdr/credentialing.py
@@ -814,10 +814,10 @@ class Registrar(doing.DoDoer):
                     continue
 
             rnum = Number(qb64=snq, code=NumDex.Huge)
-            self.rgy.reger.tpwe.rem(keys=(regk, snq))
-
             self.rgy.reger.tede.add(keys=(regk, rnum.qb64), val=(prefixer, number, diger))
 
+            self.rgy.reger.tpwe.rem(keys=(regk, snq))
+
     def processMultisigEscrow(self):
         """
         Process escrow of group multisig events that do not have a full complement of receipts
@@ -839,8 +839,8 @@ class Registrar(doing.DoDoer):
             number = Number(num=number.sn)
             self.rgy.reger.ancs.put(keys=key, val=(number, diger))
 
-            self.rgy.reger.tmse.rem(keys=(regk, snq, regd))
             self.rgy.reger.tede.add(keys=(regk, rnum.qb64), val=(prefixer, number, diger))
+            self.rgy.reger.tmse.rem(keys=(regk, snq, regd))
 
     def processDisseminationEscrow(self):
         """
@@ -854,8 +854,6 @@ class Registrar(doing.DoDoer):
             if dig is None:
                 continue
 
-            self.rgy.reger.tede.rem(keys=(regk, snq))
-
             tevt = bytearray()
             for msg in self.rgy.reger.clonePreIter(pre=regk, fn=rnum.sn):
                 tevt.extend(msg)
@@ -867,6 +865,7 @@ class Registrar(doing.DoDoer):
                 self.published.add((regk, rnum.sn))
             self.witPub.msgs.append(dict(pre=prefixer.qb64, said=regk, msg=tevt))
             self.rgy.reger.ctel.put(keys=(regk, rnum.qb64), val=saider)  # idempotent
+            self.rgy.reger.tede.rem(keys=(regk, snq))
 
 
 class Credentialer(doing.DoDoer):
@@ -1000,12 +999,12 @@ class Credentialer(doing.DoDoer):
             if saider is None:
                 continue
 
-            # Remove from this escrow
-            self.rgy.reger.cmse.rem(keys=(said, snq))
-
             # place in escrow to disseminate to other if witnesser and if there is an issuee
             self.rgy.reger.ccrd.put(keys=(said,), val=creder)
 
+            # Remove from this escrow
+            self.rgy.reger.cmse.rem(keys=(said, snq))
+
     def complete(self, said):
         """
         A credential event is complete when issued and sent to witnesses for receipting.
-- 
2.43.0

