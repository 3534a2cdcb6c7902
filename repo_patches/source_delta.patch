From 085ce6a56861951d5b3a36f18dd901329cdefef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:40 +0000
Subject: [PATCH 01/47] fix: Heap negative indices select from the largest
 values

heap[-2] to heap[-9] returned the wrong element, and heap[-1] on an
empty heap raised ValueError instead of IndexError.
---
 big/heap.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/big/heap.py b/big/heap.py
index 187902e..11191f9 100644
--- a/big/heap.py
+++ b/big/heap.py
@@ -139,14 +139,12 @@ class Heap:
             # fall through! it'll work!
         elif item == 0:
             return self._queue[0]
-        elif item == -1:
-            return max(self._queue)
         elif 0 < item < 10:
             l = nsmallest(item + 1, self._queue)
             return l[item]
         elif -10 < item < 0:
-            l = nlargest((-item) + 1, self._queue)
-            return l[item]
+            l = nlargest(-item, self._queue)
+            return l[-item - 1]
         l = sorted(self._queue)
         # __getitem__ on a list handles ints and slices!
         return l[item]
-- 
2.43.0


From 63ba11c36229e747b213af4c351a4770c797aa86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:40 +0000
Subject: [PATCH 02/47] fix: HeapIterator is an iterator: give it __iter__

list(iter(heap)) raised TypeError.
---
 big/heap.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/big/heap.py b/big/heap.py
index 11191f9..88ef66a 100644
--- a/big/heap.py
+++ b/big/heap.py
@@ -155,6 +155,9 @@ class Heap:
             self._copy = heap._queue.copy()
             self._version = heap._version
 
+        def __iter__(self):
+            return self
+
         def __next__(self):
             if self._version != self._heap._version:
                 raise RuntimeError("heap modified during iteration")
-- 
2.43.0


From 25a70fb5851e12ec82d0088e62216a3dbfaa788e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:40 +0000
Subject: [PATCH 03/47] fix: PushbackIterator propagates errors and accepts
 falsy iterators

__next__ swallowed every exception the wrapped iterator raised (ending
the iteration early), and an iterator that is false in a boolean context
was treated as exhausted.
---
 big/itertools.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/big/itertools.py b/big/itertools.py
index e385373..29a8c8c 100644
--- a/big/itertools.py
+++ b/big/itertools.py
@@ -20,7 +20,7 @@ class PushbackIterator:
     __slots__ = ('i', 'stack')
 
     def __init__(self, iterable=None):
-        if (iterable != None) and (not hasattr(iterable, '__next__')):
+        if (iterable is not None) and (not hasattr(iterable, '__next__')):
             iterable = iter(iterable)
         self.i = iterable
         self.stack = []
@@ -41,10 +41,10 @@ class PushbackIterator:
     def __next__(self):
         if self.stack:
             return self.stack.pop()
-        if self.i:
+        if self.i is not None:
             try:
                 return next(self.i)
-            except:
+            except StopIteration:
                 self.i = None
         raise StopIteration
 
@@ -57,7 +57,7 @@ class PushbackIterator:
         """
         if self.stack:
             return self.stack.pop()
-        if self.i:
+        if self.i is not None:
             try:
                 return next(self.i)
             except StopIteration:
@@ -67,7 +67,7 @@ class PushbackIterator:
     def __bool__(self):
         if self.stack:
             return True
-        if self.i:
+        if self.i is not None:
             try:
                 o = next(self.i)
                 self.push(o)
-- 
2.43.0


From bf88d5960e02f71df5a3b2af6b9a1fbc1c49b418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:52 +0000
Subject: [PATCH 04/47] fix: Version accepts pre-release labels in any case

Version("1.0RC1") failed with an AssertionError; PEP 440 says letter case
is insignificant.
---
 big/version.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/big/version.py b/big/version.py
index 6138dc7..dd4be21 100644
--- a/big/version.py
+++ b/big/version.py
@@ -210,6 +210,7 @@ class Version:
             release_level = get('pre_l')
             if release_level is None:
                 release_level = 'final'
+            release_level = release_level.lower()
             release_level = _release_level_normalize.get(release_level, release_level)
             # don't need to validate this, it's constrained by the regex
             # if release_level not in _release_level_allowed_values:
-- 
2.43.0


From 48e3f602f16525ea1e094a97e31eef5e5f097eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:52 +0000
Subject: [PATCH 05/47] fix: Version only accepts ASCII letters and digits

With re.IGNORECASE alone, [a-z] and the labels also match the non-ASCII
letters U+0131, U+017F and U+212A ("1.0prev\u0131ew1" failed with an
AssertionError), and the check of a local segment passed as a keyword
argument allowed a trailing newline.
---
 big/version.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/big/version.py b/big/version.py
index dd4be21..2bdc19d 100644
--- a/big/version.py
+++ b/big/version.py
@@ -57,6 +57,7 @@ _sys_version_info_release_level_normalize = { 'candidate': 'rc', 'final': ''}
 #
 
 VERSION_PATTERN = r"^\s*" + r"""
+    (?a:
     v?
     (?:
         (?:(?P<epoch>[0-9]+)!)?                           # epoch
@@ -85,13 +86,14 @@ VERSION_PATTERN = r"^\s*" + r"""
         )?
     )
     (?:\+(?P<local>[a-z0-9]+(?:[-_\.][a-z0-9]+)*))?       # local version
+    )
 """ + r"\s*$"
 
 _re_parse_version = re.compile(VERSION_PATTERN, re.VERBOSE | re.IGNORECASE).match
 
 del VERSION_PATTERN
 
-_re_is_valid_local_segment = re.compile("^[A-Za-z0-9]+$").match
+_re_is_valid_local_segment = re.compile("[A-Za-z0-9]+").fullmatch
 
 
 
-- 
2.43.0


From 9957f6813aa6bd784464e6d40d14024a51aa21df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:52 +0000
Subject: [PATCH 06/47] fix: Version honors implicit post and dev release
 numbers

"1.0.dev" and "1.0.post" were both silently parsed as "1.0"; PEP 440
says they mean "1.0.dev0" and "1.0.post0".
---
 big/version.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/big/version.py b/big/version.py
index 2bdc19d..8d16851 100644
--- a/big/version.py
+++ b/big/version.py
@@ -230,9 +230,9 @@ class Version:
             if post_n1 is not None:
                 assert (post_l is None) and (post_n2 is None)
                 post = post_n1
-            elif post_n2 is not None:
-                assert post_l is not None
-                post = post_n2
+            elif post_l is not None:
+                # "Implicit post release number"
+                post = post_n2 or 0
             else:
                 post = None
 
@@ -242,6 +242,9 @@ class Version:
             dev = get('dev_n')
             if dev is not None:
                 assert dev_l is not None
+            elif dev_l is not None:
+                # "Implicit development release number"
+                dev = 0
             dev = int(dev) if dev is not None else None
 
             local = original_local = get('local')
-- 
2.43.0


From 40689398a3ebf48bcbff17c1d5e98b5b599fcb12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:52 +0000
Subject: [PATCH 07/47] fix: equal Version objects hash equally

Version("1.0a") == Version("1.0a0") and Version("0!1.0") == Version("1.0"),
but their hashes differed.
---
 big/version.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/big/version.py b/big/version.py
index 8d16851..6a5bdac 100644
--- a/big/version.py
+++ b/big/version.py
@@ -358,15 +358,7 @@ class Version:
 
 
     def __hash__(self):
-        return (
-            hash(self._epoch)
-            ^ hash(self._release)
-            ^ hash(self._release_level)
-            ^ hash(self._serial)
-            ^ hash(self._post)
-            ^ hash(self._dev)
-            ^ hash(self._local)
-            )
+        return hash(self._tuple)
 
     @property
     def epoch(self):
-- 
2.43.0


From 2d2a861429397264145e20829db321baf9e7e7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:52 +0000
Subject: [PATCH 08/47] fix: Version normalizes local versions to lowercase

PEP 440: "1.0+ABC" and "1.0+abc" are the same version.
---
 big/version.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/big/version.py b/big/version.py
index 6a5bdac..70949ac 100644
--- a/big/version.py
+++ b/big/version.py
@@ -254,6 +254,8 @@ class Version:
         if local:
             # if local is true, it's an iterable of strings.
             # convert elements to ints where possible, leave as strings otherwise.
+            # (local versions are case-insensitive, the normal form is lowercase.)
+            local = tuple(element.lower() for element in local)
             compare_local = tuple((2, int(element)) if element.isdigit() else (1, element) for element in local)
         else:
             local = None
-- 
2.43.0


From 9dca6eb0c6e5d10a2c7edb4b025952f6923f5004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:52 +0000
Subject: [PATCH 09/47] fix: Version normalizes and validates its keyword
 arguments

Passing the fields as keyword arguments skipped the documented
normalization (trailing zeroes in release, the abbreviated names of
release_level) and accepted negative release numbers, and a serial on a
final release, which made str() fail.
---
 big/version.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/big/version.py b/big/version.py
index 70949ac..1e3c515 100644
--- a/big/version.py
+++ b/big/version.py
@@ -124,12 +124,16 @@ class Version:
             elif not (isinstance(epoch, int) and (epoch >= 0)):
                 raise ValueError(f"epoch must be non-negative int or None, not {epoch!r}")
 
-            if not (isinstance(release, tuple) and release and all(isinstance(element, int) for element in release)):
-                raise ValueError(f"release must be a tuple of length 1+ containing only ints, not {release!r}")
+            if not (isinstance(release, tuple) and release and all(isinstance(element, int) and (element >= 0) for element in release)):
+                raise ValueError(f"release must be a tuple of length 1+ containing only non-negative ints, not {release!r}")
+            while (len(release) > 1) and (not release[-1]):
+                release = release[:-1]
 
             original_release_level = release_level
             if release_level is None:
                 release_level = 'final'
+            elif isinstance(release_level, str):
+                release_level = _release_level_normalize.get(release_level, release_level)
             if not (release_level in _release_level_allowed_values):
                 raise ValueError(f"release_level {release_level!r} must be one of 'alpha', 'beta', 'rc', 'final', or None")
 
@@ -137,6 +141,8 @@ class Version:
                 serial = 0
             elif not (isinstance(serial, int) and (serial >= 0)):
                 raise ValueError(f"serial must be non-negative int or None, not {serial!r}")
+            if serial and (release_level == 'final'):
+                raise ValueError("you can't specify a serial without a release_level")
 
             if not ((post is None) or (isinstance(post, int) and (post >= 0))):
                 raise ValueError(f"post must be non-negative int or None, not {post!r}")
-- 
2.43.0


From dbb42e75a02c09fab4544e50af85c4169d8c14aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:27 +0000
Subject: [PATCH 10/47] fix: ThreadSafeRegulator.wake also wakes a thread that
 is about to sleep

---
 big/scheduler.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/big/scheduler.py b/big/scheduler.py
index 7bf6617..0e324fb 100644
--- a/big/scheduler.py
+++ b/big/scheduler.py
@@ -173,11 +173,14 @@ class ThreadSafeRegulator(Regulator):
         return time.monotonic()
 
     def wake(self):
+        # Every sleep fetched so far waits on the current event,
+        # including a sleep that hasn't been called yet.
         self.event.set()
-        self.event.clear()
+        self.event = threading.Event()
 
-    def sleep(self, interval):
-        self.event.wait(interval)
+    @property
+    def sleep(self):
+        return self.event.wait
 
 
 DEFAULT_PRIORITY = 100
-- 
2.43.0


From 23c7c2fbc249dc8287ab9dfbd468ada558cc7eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:21 +0000
Subject: [PATCH 11/47] fix: a new dependency on a done node doesn't block its
 successor forever

---
 big/graph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/big/graph.py b/big/graph.py
index 8b1dc7d..3478612 100644
--- a/big/graph.py
+++ b/big/graph.py
@@ -291,7 +291,7 @@ class TopologicalSorter:
                 self._conflicts[node].add(successor)
                 self._reverse_conflicts[successor].add(node)
 
-            if successor not in self._done:
+            if not ((node in self._done) or (successor in self._done)):
                 self._predecessors[successor] += 1
                 if self._predecessors[successor] == 1:
                     try:
-- 
2.43.0


From 2dc60d78adf7428d0a5f2a1c6912a23850df44ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:27 +0000
Subject: [PATCH 12/47] fix: TopologicalSorter done() counts each node once,
 and all or nothing

---
 big/graph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/big/graph.py b/big/graph.py
index 3478612..9f3533e 100644
--- a/big/graph.py
+++ b/big/graph.py
@@ -208,11 +208,13 @@ class TopologicalSorter:
                 raise ValueError("TopologicalSorter view has already been closed")
             if self._conflicts:
                 self._raise_conflicts()
+            nodes = dict.fromkeys(nodes)
             for node in nodes:
                 if node not in self.graph.nodes:
                     raise ValueError(f"node {node!r} was not added using add()")
                 if node not in self._yielded:
                     raise ValueError(f"node {node!r} was not passed out")
+            for node in nodes:
                 # print("CALL _mark_node_done", node, self.graph.nodes[node])
                 self._mark_node_done(node, self.graph.nodes[node][1])
             nodes = set(nodes)
-- 
2.43.0


From c895e723cabf579d497317d7049600bac6d7d875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:32 +0000
Subject: [PATCH 13/47] fix: TopologicalSorter.copy() makes an independent
 graph

---
 big/graph.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/big/graph.py b/big/graph.py
index 9f3533e..221db50 100644
--- a/big/graph.py
+++ b/big/graph.py
@@ -566,11 +566,11 @@ class TopologicalSorter:
         for node, p_s in self.nodes.items():
             p, s = p_s
             clone.nodes[node] = [p, s.copy()]
+        clone.dirty = self.dirty
 
-        clone._default_view = self._default_view.copy()
-        clone._default_view.graph = clone
-        clone._stock_view = self._stock_view.copy()
-        clone._stock_view.graph = clone
+        clone.views.clear()
+        clone._default_view = self.View(clone, original=self._default_view)
+        clone._stock_view = self.View(clone, original=self._stock_view)
 
         return clone
 
-- 
2.43.0


From c152940cf2997b0bbfcc12282dbc9d035ed98b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:33 +0000
Subject: [PATCH 14/47] fix: StateManager calls the current observers even if
 they compare equal to earlier ones

---
 big/state.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/big/state.py b/big/state.py
index 6bed7dc..fbedd70 100644
--- a/big/state.py
+++ b/big/state.py
@@ -231,12 +231,9 @@ class StateManager:
             on_exit = getattr(self.__state, self.on_exit, None)
             if on_exit is not None:
                 on_exit()
-        if self.observers:
-            if self.observers != self._observers_copy:
-                self._observers_copy = list(self.observers)
-                self._observers_tuple = tuple(self.observers)
-            for o in self._observers_tuple:
-                o(self)
+        # observers may modify the list, iterate over a copy
+        for o in tuple(self.observers):
+            o(self)
 
         self.__state = state
         self.__next = None
@@ -277,8 +274,6 @@ class StateManager:
         self.on_exit = on_exit
 
         self.observers = []
-        self._observers_copy = []
-        self._observers_tuple = ()
         self.state = state
 
     def __repr__(self):
-- 
2.43.0


From 86b87abd996e574ad0f3c2d0ce2a010834995aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:03 +0000
Subject: [PATCH 15/47] fix: number conversions treat overflow as a failed
 conversion, and keep inf and nan

---
 big/builtin.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/big/builtin.py b/big/builtin.py
index 7cca96a..cdc32bf 100644
--- a/big/builtin.py
+++ b/big/builtin.py
@@ -48,7 +48,7 @@ def try_float(o):
     try:
         float(o)
         return True
-    except (TypeError, ValueError):
+    except (TypeError, ValueError, OverflowError):
         return False
 
 @export
@@ -60,7 +60,7 @@ def try_int(o):
     try:
         int(o)
         return True
-    except (TypeError, ValueError):
+    except (TypeError, ValueError, OverflowError):
         return False
 
 _sentinel = object()
@@ -75,7 +75,7 @@ def get_float(o, default=_sentinel):
     """
     try:
         return float(o)
-    except (TypeError, ValueError):
+    except (TypeError, ValueError, OverflowError):
         if default != _sentinel:
             return default
         return o
@@ -90,7 +90,7 @@ def get_int(o, default=_sentinel):
     """
     try:
         return int(o)
-    except (TypeError, ValueError):
+    except (TypeError, ValueError, OverflowError):
         if default != _sentinel:
             return default
         return o
@@ -113,18 +113,17 @@ def get_int_or_float(o, default=_sentinel):
     if isinstance(o, int):
         return o
     if isinstance(o, float):
-        int_o = int(o)
-        if int_o == o:
-            return int_o
+        if o.is_integer():
+            return int(o)
         return o
     try:
         return int(o)
-    except (TypeError, ValueError):
+    except (TypeError, ValueError, OverflowError):
         try:
             # if you pass in the *string* "0.0",
             # this will return 0, not 0.0.
             return get_int_or_float(float(o))
-        except (TypeError, ValueError):
+        except (TypeError, ValueError, OverflowError):
             if default != _sentinel:
                 return default
             return o
-- 
2.43.0


From 7d706cc37ea87fe249202ddb3933816f756fec75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:40 +0000
Subject: [PATCH 16/47] fix: multistrip keeps a trailing newline that is not a
 separator

---
 big/text.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/big/text.py b/big/text.py
index 58c5e8d..9546eae 100644
--- a/big/text.py
+++ b/big/text.py
@@ -896,7 +896,7 @@ def multistrip(s, separators, left=True, right=True):
     if is_bytes:
         s_type = bytes
         head = b'^'
-        tail = b'$'
+        tail = rb'\Z'
 
         if isinstance(separators, str):
             raise TypeError("separators must be an iterable of non-empty objects the same type as s")
@@ -911,7 +911,7 @@ def multistrip(s, separators, left=True, right=True):
     else:
         s_type = str
         head = '^'
-        tail = '$'
+        tail = r'\Z'
 
         if isinstance(separators, bytes):
             raise TypeError("separators must be an iterable of non-empty objects the same type as s")
-- 
2.43.0


From 766e873010b7ca829c4b8ff52451a67b835c5480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:47 +0000
Subject: [PATCH 17/47] fix: multisplit treats maxsplit None and every negative
 maxsplit as no limit

---
 big/text.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/big/text.py b/big/text.py
index 9546eae..c0bccde 100644
--- a/big/text.py
+++ b/big/text.py
@@ -1245,6 +1245,10 @@ def multisplit(s, separators=None, *,
     elif not separators:
         raise ValueError(f"separators must be either None or an iterable of objects the same type as s; s is {type(s).__name__}, separators is {separators!r}")
 
+    if maxsplit is None or maxsplit < 0:
+        # every negative number means "no limit"
+        maxsplit = -1
+
     # check_separators is True if separators isn't str or bytes
     # or something we split ourselves.
     if check_separators:
-- 
2.43.0


From deab90aa58bd567837271b967b280ac4f5c949cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:55 +0000
Subject: [PATCH 18/47] fix: multisplit accepts separators as a one-shot
 iterator

---
 big/text.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/big/text.py b/big/text.py
index c0bccde..7a5ee5b 100644
--- a/big/text.py
+++ b/big/text.py
@@ -1254,6 +1254,8 @@ def multisplit(s, separators=None, *,
     if check_separators:
         if not hasattr(separators, '__iter__'):
             raise TypeError(f"separators must be either None or an iterable of objects the same type as s; s is {type(s).__name__}, separators is {separators!r}")
+        # separators might be an iterator, and we need it more than once.
+        separators = tuple(separators)
         for o in separators:
             if not isinstance(o, s_type):
                 raise TypeError(f"separators must be either None or an iterable of objects the same type as s; s is {type(s).__name__}, separators is {separators!r}")
-- 
2.43.0


From fea0d557352126f7d56a58dab54dfed726cd8244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:07 +0000
Subject: [PATCH 19/47] fix: re_partition and re_rpartition split where the
 pattern matched, not where its text first appears

---
 big/text.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/big/text.py b/big/text.py
index 7a5ee5b..421ac96 100644
--- a/big/text.py
+++ b/big/text.py
@@ -441,8 +441,7 @@ def re_partition(s, pattern, count=1, *, flags=0, reverse=False):
         match = pattern.search(s)
         if not match:
             return (s, None, empty)
-        before, separator, after = s.partition(match.group(0))
-        return (before, match, after)
+        return (s[:match.start()], match, s[match.end():])
 
     if count == 0:
         return (s,)
@@ -453,17 +452,18 @@ def re_partition(s, pattern, count=1, *, flags=0, reverse=False):
     result = []
     extend = result.extend
     matches_iterator = pattern.finditer(s)
+    start = 0
 
     try:
         for remaining in range(count, 0, -1):
             match = next(matches_iterator)
-            before, separator, s = s.partition(match.group(0))
-            extend((before, match))
+            extend((s[start:match.start()], match))
+            start = match.end()
         extension = ()
     except StopIteration:
         extension *= remaining
 
-    result.append(s)
+    result.append(s[start:])
     return tuple(result) + extension
 
 
@@ -787,8 +787,7 @@ def re_rpartition(s, pattern, count=1, *, flags=0):
         matches_iterator = reversed_re_finditer(pattern, s, flags)
         try:
             match = next(matches_iterator)
-            before, separator, after = s.rpartition(match.group(0))
-            return (before, match, after)
+            return (s[:match.start()], match, s[match.end():])
         except StopIteration:
             return (empty, None, s)
 
@@ -801,17 +800,18 @@ def re_rpartition(s, pattern, count=1, *, flags=0):
     result = []
     extend = result.extend
     matches_iterator = reversed_re_finditer(pattern, s, flags)
+    end = len(s)
 
     try:
         for remaining in range(count, 0, -1):
             match = next(matches_iterator)
-            s, separator, after = s.rpartition(match.group(0))
-            extend((after, match))
+            extend((s[match.end():end], match))
+            end = match.start()
         extension = ()
     except StopIteration:
         extension *= remaining
 
-    result.append(s)
+    result.append(s[:end])
     result.reverse()
     return extension + tuple(result)
 
-- 
2.43.0


From 31096b6668b8a161017a04a0e1a3e99e6a5f4829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:58 +0000
Subject: [PATCH 20/47] fix: reversed_re_finditer finds overlapping matches
 that start inside an earlier forward match

---
 big/text.py | 167 ++++++++++++++++++----------------------------------
 1 file changed, 57 insertions(+), 110 deletions(-)

diff --git a/big/text.py b/big/text.py
index 421ac96..37b7f67 100644
--- a/big/text.py
+++ b/big/text.py
@@ -24,6 +24,7 @@ OTHERWISE, ARISING FROM, OUT OF OR IN CONNECTION WITH THE SOFTWARE OR
 THE USE OR OTHER DEALINGS IN THE SOFTWARE.
 """
 
+import bisect
 import enum
 import functools
 import heapq
@@ -490,17 +491,34 @@ def reversed_re_finditer(pattern, string):
     # also work.
 
 
-    # matches and overlapping_matches are lists of 3-tuples of:
+    # matches is a list of 3-tuples of:
     #    (end_pos, -start_pos, match)
-    # If we sort one of those lists, the last element will be
+    # If we sort the list, the last element will be
     # the correct last match in "reverse" order.  See
     #    https://en.wikipedia.org/wiki/Schwartzian_transform
     #
-    # matches contains the list of matches we got directly from
-    # re.finditer(), reversed.  since this was found using re in
-    # "forward" order, we need to check every match in this list
-    # for potential overlapping matches.
-    matches = [(match.end(), -match.start(), match) for match in pattern.finditer(string)]
+    # matches contains the matches we got directly from
+    # re.finditer(), and the potential overlapping matches
+    # starting at the other positions inside those matches.
+    # All of those have to be found up front: a match starting
+    # inside one of the matches from re.finditer() can extend
+    # past the end of the following one.  (There can't be a match
+    # starting at any other position, because then re.finditer()
+    # would have found it.)
+
+    # cache a method lookup
+    pattern_match = pattern.match
+
+    matches = []
+    append = matches.append
+    for match in pattern.finditer(string):
+        start, end = match.span()
+        append((end, -start, match))
+        for pos in range(start + 1, end):
+            match = pattern_match(string, pos)
+            if match:
+                append((match.end(), -pos, match))
+
     if not matches:
         # print(f"no matches at all! exiting immediately.")
         return
@@ -581,14 +599,6 @@ def reversed_re_finditer(pattern, string):
 
     matches.sort()
 
-    # overlapping_matches is a list of the possibly-viable
-    # overlapping matches we found from checking a match
-    # we got from "matches".
-    overlapping_matches = []
-
-    result = []
-    match = None
-
     # We truncate each match at the start
     # of the previously yielded match.
     #
@@ -596,105 +606,42 @@ def reversed_re_finditer(pattern, string):
     # to extend all the way to the end of the string.
     previous_match_start = len(string)
 
-    # cache some method lookups
-    pattern_match = pattern.match
-    append = overlapping_matches.append
+    while matches:
+        t = matches.pop()
+        end, negated_start, match = t
+        start = -negated_start
 
-    while True:
-        if overlapping_matches:
-            # overlapping_matches contains the overlapping
-            # matches found *last* time around, before we
-            # yielded the most recent match.
-            #
-            # The thing is, some of these matches might overlap that match.
-            # But we only yield *non*-overlapping matches.  So we need to
-            # filter the matches in overlapping_matches accordingly.
-
-            truncated_matches = []
-            # (overlapping_matches will be set to truncated_matches in a few lines)
-            append = truncated_matches.append
-
-            for t in overlapping_matches:
-                end, negated_start, match = t
-                start = -negated_start
-                if start > previous_match_start:
-                    # This match starts *after* the previous match started.
-                    # All matches starting at this position are no longer
-                    # viable.  Throw away the match.
-                    continue
-                if end <= previous_match_start:
-                    # This match ends *before* the previous match started.
-                    # In other words, this match is still 100% viable.
-                    # Keep it, we don't need to change it at all.
-                    append(t)
-                    continue
+        if start > previous_match_start:
+            # This match starts *after* the previous match started.
+            # All matches starting at this position are no longer
+            # viable.  Throw away the match.
+            continue
 
-                # This match starts before the previous match started,
-                # but ends after the previous match start.
-                # In other words, it overlaps the previous match.
-                #
-                # So this match is itself no longer viable.  But!
-                # There might be a *different* match starting at this
-                # position in the string.  So we do a fresh re.match here,
-                # stopping at the start of the previously yielded match.
-                # (That's the third parameter, "endpos".)
-
-                match = pattern_match(string, start, previous_match_start)
-                if match:
-                    append((match.end(), -start, match))
-
-            overlapping_matches = truncated_matches
-
-        if (not overlapping_matches) and matches:
-            # We don't currently have any pre-screened
-            # overlapping matches we can use.
+        if end > previous_match_start:
+            # This match starts before the previous match started,
+            # but ends after the previous match start.
+            # In other words, it overlaps the previous match.
             #
-            # But we *do* have a match (or matches) found in forwards mode.
-            # Grab the next one that's still viable.
-
-            scan_for_overlapping_matches = False
-            while matches:
-                t = matches.pop()
-                end, negated_start, match = t
-                start = -negated_start
-                if end <= previous_match_start:
-                    assert start <= previous_match_start
-                    append(t)
-                    start += 1
-                    scan_for_overlapping_matches = True
-                    break
-
-            if scan_for_overlapping_matches:
-                # We scan every** position inside the match for an
-                # overlapping match.  All the matches we find go in
-                # overlapping_matches, then we sort it and yield
-                # the last one.
-                #
-                # ** We don't actually need to check the *first* position,
-                #    "start", because we already know what we'll find:
-                #    the match that we got from re.finditer() and
-                #    scanned for overlaps.
-                #
-                # As mentioned, the match we got from finditer
-                # is viable here, so add it to the list.
-
-                end = min(end, previous_match_start)
-                for pos in range(start, end):
-                    match = pattern_match(string, pos, previous_match_start)
-                    if match:
-                        # print(f"  found {match=}")
-                        append((match.end(), -pos, match))
-
-        if not overlapping_matches:
-            # matches and overlapping matches are both empty.
-            # We've exhausted the matches.  Stop iterating.
-            return
+            # So this match is itself no longer viable.  But!
+            # There might be a *different* match starting at this
+            # position in the string.  So we do a fresh re.match here,
+            # stopping at the start of the previously yielded match.
+            # (That's the third parameter, "endpos".)
+            #
+            # If we find one, we put it back in its proper place.
+            # (Unless we already have it.  It's important to not
+            # compare the match objects here, they aren't orderable.)
+
+            match = pattern_match(string, start, previous_match_start)
+            if match:
+                key = (match.end(), negated_start)
+                index = bisect.bisect_left(matches, key)
+                if (index == len(matches)) or (matches[index][:2] != key):
+                    matches.insert(index, key + (match,))
+            continue
 
-        # overlapping_matches is now guaranteed current and non-empty.
-        # We sort it so the rightmost match is last, and yield that.
-        overlapping_matches.sort()
-        match = overlapping_matches.pop()[2]
-        previous_match_start = match.start()
+        # The rightmost match that's still viable.
+        previous_match_start = start
         yield match
 
 _reversed_re_finditer = reversed_re_finditer
-- 
2.43.0


From a3de3728af75e40f42d900a55ab5145ea9f216c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:00 +0000
Subject: [PATCH 21/47] fix: gently_title capitalizes the word after a lone D,
 O or quote mark

---
 big/text.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/big/text.py b/big/text.py
index 37b7f67..ca09ae0 100644
--- a/big/text.py
+++ b/big/text.py
@@ -1665,6 +1665,9 @@ def gently_title(s, *, apostrophes=None, double_quotes=None):
                     state = _after_whitespace_then_D_or_O
                 else:
                     state = _in_word
+        elif is_space:
+            # (in all the remaining states)
+            state = _after_whitespace
         elif state == _after_whitespace_then_apostrophe_or_double_quote:
             if not (is_apostrophe or is_double_quote):
                 c = c.upper()
-- 
2.43.0


From fc9cabd0df5dc519ff6efb4664eab7233a74e64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:08 +0000
Subject: [PATCH 22/47] fix: wrap_words honors two_spaces=False

---
 big/text.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/big/text.py b/big/text.py
index ca09ae0..fdf8fbb 100644
--- a/big/text.py
+++ b/big/text.py
@@ -3699,13 +3699,13 @@ def wrap_words(words, margin=79, *, two_spaces=True):
             if isinstance(word, bytes):
                 empty = lastword = b''
                 sentence_ending_punctuation = (b'.', b'?', b'!')
-                two_spaces = b'  '
+                two_space = b'  '
                 one_space = b' '
                 newline = b'\n'
             else:
                 empty = lastword = ''
                 sentence_ending_punctuation = ('.', '?', '!')
-                two_spaces = '  '
+                two_space = '  '
                 one_space = ' '
                 newline = '\n'
 
@@ -3718,7 +3718,7 @@ def wrap_words(words, margin=79, *, two_spaces=True):
         l = len(word)
 
         if two_spaces and lastword.endswith(sentence_ending_punctuation):
-            space = two_spaces
+            space = two_space
             len_space = 2
         else:
             space = one_space
-- 
2.43.0


From 9ce54d98ad94a677a72ff9d595e65d4ecfc005d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:17 +0000
Subject: [PATCH 23/47] fix: lines_strip with separators clips the separators
 it stripped

---
 big/text.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/big/text.py b/big/text.py
index fdf8fbb..f051352 100644
--- a/big/text.py
+++ b/big/text.py
@@ -3122,9 +3122,11 @@ def lines_strip(li, separators=None):
         for info, line in li:
             leading = trailing = None
             if line:
-                stripped = multistrip(line, separators)
-                if stripped:
-                    leading, _, trailing = line.partition(stripped)
+                lstripped = multistrip(line, separators, right=False)
+                if lstripped:
+                    leading = line[:len(line) - len(lstripped)]
+                    stripped = multistrip(lstripped, separators, left=False)
+                    trailing = lstripped[len(stripped):]
                 else:
                     trailing = line
 
-- 
2.43.0


From 97a61a30748d88cbf3a33272a2237889fba995a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:26 +0000
Subject: [PATCH 24/47] fix: lines_strip_indent permits dedenting several
 levels to a previous indent

---
 big/text.py | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/big/text.py b/big/text.py
index f051352..5542be5 100644
--- a/big/text.py
+++ b/big/text.py
@@ -3597,17 +3597,10 @@ def lines_strip_indent(li):
             # we're outdenting.
             # ensure that this line's indent is one we've seen before.
             assert leadings
-            leadings.pop()
-            indent -= 1
-            while leadings:
-                l = leadings[-1]
-                if l >= column_number:
-                    if l > column_number:
-                        leadings.clear()
-                    break
+            while leadings and (leadings[-1] > column_number):
                 leadings.pop()
                 indent -= 1
-            if not leadings:
+            if not (leadings and (leadings[-1] == column_number)):
                 raise IndentationError(f"Line {info.line_number} column {column_number}: unindent doesn't match any outer indentation level")
             new_indent = False
 
-- 
2.43.0


From 52b243e670b071ab2698f8cc279b849cc6ee6d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:33 +0000
Subject: [PATCH 25/47] fix: split_quoted_strings honors escape inside
 multiline quotes

---
 big/text.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/big/text.py b/big/text.py
index 5542be5..f1bbd12 100644
--- a/big/text.py
+++ b/big/text.py
@@ -2079,8 +2079,8 @@ def split_quoted_strings(s, quotes=_sqs_quotes_str, *, escape=_sqs_escape_str, m
 
     # and also all escaped quote marks.
     if escape:
-        for first_character in {q[0:] for q in quotes}:
-            separators.append(escape + first_character)
+        for quote in all_quotes_set:
+            separators.append(escape + quote)
         separators.append(escape + escape)
 
     # help multisplit work better--it memoizes the conversion to a regular expression
-- 
2.43.0


From 67bf55be1701a12b3d18b5e599dcd9e682ef8015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:17 +0000
Subject: [PATCH 26/47] fix: split_delimiters counts ignored tokens when it
 resplits

---
 big/text.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/big/text.py b/big/text.py
index f1bbd12..790b3c0 100644
--- a/big/text.py
+++ b/big/text.py
@@ -2593,6 +2593,7 @@ def split_delimiters(text, all_tokens, current, stack, empty, laden, str_or_byte
                 consumed += len(delimiter)
             elif action is _ACTION_FLUSH:
                 append(delimiter)
+                consumed += len(delimiter)
             elif action is _ACTION_FLUSH_1_AND_RESPLIT:
                 # flush first character of delimiter, and resplit.
                 append(delimiter[0:1])
-- 
2.43.0


From ce701166b3962d7da31088d2538a024fca0fcd45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:01 +0000
Subject: [PATCH 27/47] fix: LineInfo restores the column of a fully clipped
 line with tabs

---
 big/text.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/big/text.py b/big/text.py
index 790b3c0..a9f78a1 100644
--- a/big/text.py
+++ b/big/text.py
@@ -2866,7 +2866,7 @@ class LineInfo:
             # (minus end)
             assert self.line.endswith(self.end)
             empty = self._empty
-            self.column_number -= len(self.leading)
+            self.column_number -= len(self.detab(self.leading))
             if self.end:
                 self.trailing = self.line[:-len(self.end)]
             else:
@@ -2907,7 +2907,7 @@ class LineInfo:
             # if you clip the entire line, we move the entire line into trailing (minus end)
             assert self.line.endswith(self.end)
             empty = self._empty
-            self.column_number -= len(self.leading)
+            self.column_number -= len(self.detab(self.leading))
             if self.end:
                 self.trailing = self.line[:-len(self.end)]
             else:
-- 
2.43.0


From 637b2e5e933bec666025deb002f35e48006f6d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:08 +0000
Subject: [PATCH 28/47] fix: LineInfo.clip_trailing of nothing clips nothing

---
 big/text.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/big/text.py b/big/text.py
index a9f78a1..e53c217 100644
--- a/big/text.py
+++ b/big/text.py
@@ -2902,6 +2902,9 @@ class LineInfo:
             i = s
             s = None
             l = line
+        if not i:
+            # nothing to clip (line[:-0] would clip everything)
+            return line
         line = line[:-i]
         if not line:
             # if you clip the entire line, we move the entire line into trailing (minus end)
@@ -3091,14 +3094,14 @@ def lines_rstrip(li, separators=None):
         for info, line in li:
             rstripped = line.rstrip()
             if rstripped != line:
-                line = info.clip_trailing(line, -len(rstripped))
+                line = info.clip_trailing(line, line[len(rstripped):])
             yield (info, line)
         return
 
     for info, line in li:
         rstripped = multistrip(line, separators, left=False, right=True)
         if rstripped != line:
-            line = info.clip_trailing(line, -len(rstripped))
+            line = info.clip_trailing(line, line[len(rstripped):])
         yield (info, rstripped)
 
 
-- 
2.43.0


From de03789665ab2217c388ea47084bb616e5c44474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:48 +0000
Subject: [PATCH 29/47] fix: LineInfo accepts the re.Match object its match
 parameter is documented to be

---
 big/text.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/big/text.py b/big/text.py
index e53c217..18a2acd 100644
--- a/big/text.py
+++ b/big/text.py
@@ -44,15 +44,22 @@ try:
 except ImportError: # pragma: no cover
     re_Pattern = re._pattern_type
 
+re_Match = type(re.match('', ''))
+
 try:
     import regex
     regex_Pattern = regex.Pattern
+    regex_Match = regex.Match
     def isinstance_re_pattern(o):
         return isinstance(o, (re_Pattern, regex_Pattern))
+    def isinstance_re_match(o):
+        return isinstance(o, (re_Match, regex_Match))
 except ImportError: # pragma: no cover
     regex_Pattern = re_Pattern
     def isinstance_re_pattern(o):
         return isinstance(o, re_Pattern)
+    def isinstance_re_match(o):
+        return isinstance(o, re_Match)
 
 
 __all__ = []
@@ -2815,8 +2822,8 @@ class LineInfo:
         elif not isinstance(end, line_type):
             raise TypeError(f"end must be same type as line or None, not {end!r}")
 
-        if not ((match == None) or isinstance_re_pattern(match)):
-            raise TypeError("match must be None or re.Pattern")
+        if not ((match == None) or isinstance_re_match(match)):
+            raise TypeError("match must be None or re.Match")
 
         self.lines = lines
         self.line = line
-- 
2.43.0


From 3480c312d6c5344cc1c536ffec5f2fb16a0a621a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:09 +0000
Subject: [PATCH 30/47] fix: lines comment modifiers accept any iterable of
 comment markers

---
 big/text.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/big/text.py b/big/text.py
index 18a2acd..290bae3 100644
--- a/big/text.py
+++ b/big/text.py
@@ -3213,17 +3213,17 @@ def lines_filter_line_comment_lines(li, comment_markers):
     if not comment_markers:
         raise ValueError("illegal comment_markers")
 
-    comment_markers_is_bytes = isinstance(comment_markers, bytes) or isinstance(comment_markers[0], bytes)
+    # comment_markers may be any iterable, including a set or an iterator
+    comment_markers = tuple(_iterate_over_bytes(comment_markers))
+    if not comment_markers:
+        raise ValueError("illegal comment_markers")
+
+    comment_markers_is_bytes = isinstance(comment_markers[0], bytes)
     if comment_markers_is_bytes:
-        comment_markers = _iterate_over_bytes(comment_markers)
         skip_whitespace = b"\\s*"
     else:
         skip_whitespace = "\\s*"
 
-    # in case comment_markers is an iterator
-    # (for example, we just called _iterate_over_bytes on a bytes string)
-    comment_markers = tuple(comment_markers)
-
     if len(comment_markers) == 1:
         comment_marker = comment_markers[0]
         def match(s):
@@ -3471,6 +3471,9 @@ def lines_strip_line_comments(li, line_comment_markers, *,
     """
 
     # check line_comment_markers
+    if line_comment_markers and not isinstance(line_comment_markers, (bytes, str)):
+        # line_comment_markers may be any iterable, including a set or an iterator
+        line_comment_markers = tuple(line_comment_markers)
     if not line_comment_markers:
         bad_value = True
     elif isinstance(line_comment_markers, bytes):
-- 
2.43.0


From 460c72237cd08f2fac539537faf84f62b872bf7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:22 +0000
Subject: [PATCH 31/47] fix: reversed_re_finditer finds empty matches that
 depend on what precedes them

---
 big/text.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/big/text.py b/big/text.py
index 290bae3..0acc20d 100644
--- a/big/text.py
+++ b/big/text.py
@@ -531,7 +531,8 @@ def reversed_re_finditer(pattern, string):
         return
 
     # Does this pattern match zero-length strings?
-    zero_length_match = pattern.match(string, 0, 0)
+    # (It might only do so at some positions, e.g. '(?<=a)b*'.)
+    zero_length_match = any(pattern_match(string, -t[1], -t[1]) for t in matches)
     if zero_length_match:
         # This pattern matches zero-length strings.
         # Since the rules are a little different for
-- 
2.43.0


From eaed45a9d870ceb567d86205753f89d458107777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:35 +0000
Subject: [PATCH 32/47] fix: split_text_with_code keeps a last code line that
 lacks a newline

---
 big/text.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/big/text.py b/big/text.py
index 0acc20d..53abc24 100644
--- a/big/text.py
+++ b/big/text.py
@@ -3904,6 +3904,11 @@ class _column_wrapper_splitter:
             self.state(empty.join(self.leading), empty.join(self.word))
             self.leading.clear()
             self.word.clear()
+        # flush the current line of code, if any.
+        # (it's only flushed already if it ended with a newline.)
+        if self.state == self.state_in_code_line:
+            self.emit(self.empty.join(self.code))
+            self.code.clear()
 
     def state_paragraph_start(self, leading, word):
         """
-- 
2.43.0


From 591b06783ea2fff73e12391c1098cef9137f2210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:22:40 +0000
Subject: [PATCH 33/47] fix: split_text_with_code forgets blank lines after
 code once text follows

---
 big/text.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/big/text.py b/big/text.py
index 53abc24..911c2f5 100644
--- a/big/text.py
+++ b/big/text.py
@@ -3966,6 +3966,8 @@ class _column_wrapper_splitter:
 
         if self.previous_paragraph == _code_paragraph:
             self.paragraph_break()
+            # forget the blank lines after the code
+            self.code.clear()
         self.state = self.state_text_line_start
         self.state(leading, word)
 
-- 
2.43.0


From 94faec37f5da68e916aae9ce733bd0d8022c11f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:55 +0000
Subject: [PATCH 34/47] fix: merge_columns ignores whitespace at the end of a
 line, also when padding

---
 big/text.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/big/text.py b/big/text.py
index 911c2f5..ca39667 100644
--- a/big/text.py
+++ b/big/text.py
@@ -4238,6 +4238,7 @@ def merge_columns(*columns, column_separator=None,
         in_overflow = False
         next_overflow()
         for line_number, line in enumerate(lines):
+            line = line.rstrip()
             if line_number > overflow_end:
                 in_overflow = False
                 next_overflow()
-- 
2.43.0


From 7076c79075af842d9b6025bb20de0960e63ef422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:20 +0000
Subject: [PATCH 35/47] fix: deprecated split_quoted_strings accepts a quote at
 the end of the text

---
 big/deprecated.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/big/deprecated.py b/big/deprecated.py
index 84ec58f..2d67ed6 100644
--- a/big/deprecated.py
+++ b/big/deprecated.py
@@ -153,10 +153,11 @@ def split_quoted_strings(s, quotes=None, *, triple_quotes=True, backslash=None):
                 in_quote = c
                 continue
             # scan for triple quotes.
-            c2 = next(i)
+            c2 = i.next(None)
             if c2 != c:
                 # only a single quote mark. flush unquoted string, start quoted string.
-                i.push(c2)
+                if c2 is not None:
+                    i.push(c2)
                 if text:
                     yield False, empty_join(text)
                     text.clear()
-- 
2.43.0


From 187bcaa8ddc43ab4156a7113e1af7161b24dda3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:26 +0000
Subject: [PATCH 36/47] fix: parse_delimiters raises its ValueErrors for bytes
 too

---
 big/deprecated.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/big/deprecated.py b/big/deprecated.py
index 2d67ed6..9c4e3c1 100644
--- a/big/deprecated.py
+++ b/big/deprecated.py
@@ -367,7 +367,7 @@ def parse_delimiters(s, delimiters, backslash_character, closers, empty):
     if len(stack):
         stack.pop(0)
         stack.append(d)
-        raise ValueError("s does not close all opened delimiters, needs " + " ".join(d.close for d in reversed(stack)))
+        raise ValueError("s does not close all opened delimiters, needs " + " ".join(str(d.close) for d in reversed(stack)))
 
     if text:
         yield flush(empty, empty)
@@ -448,7 +448,7 @@ def parse_delimiters(s, delimiters=None):
     disallowed = {disallowed_delimiters}
     illegal_delimiters = disallowed & delimiter_characters
     if illegal_delimiters:
-        raise ValueError("illegal delimiters used: " + "".join(illegal_delimiters))
+        raise ValueError("illegal delimiters used: " + "".join(map(str, illegal_delimiters)))
 
     # closers is a set of closing delimiters *only*.
     # if open and close delimiters are the same (e.g. quote marks)
@@ -464,7 +464,7 @@ def parse_delimiters(s, delimiters=None):
             closers.add(d.close)
 
     if repeated:
-        raise ValueError("these opening delimiters were used multiple times: " + " ".join(repeated))
+        raise ValueError("these opening delimiters were used multiple times: " + " ".join(map(str, repeated)))
 
     return _parse_delimiters(s, delimiters, backslash_character, closers, empty)
 
-- 
2.43.0


From 2d7712c85a80bc327f71793d899b5b2b998cddd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:31 +0000
Subject: [PATCH 37/47] fix: Log.print shows the fraction of a second beyond
 the first second

---
 big/log.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/big/log.py b/big/log.py
index ef96c9c..0665d5d 100644
--- a/big/log.py
+++ b/big/log.py
@@ -179,7 +179,7 @@ class Log:
         def format_time(t):
             assert t is not None
             seconds = t // 1_000_000_000
-            nanoseconds = f"{t - seconds:>09}"
+            nanoseconds = f"{t - seconds * 1_000_000_000:>09}"
             nanoseconds = nanoseconds[:fractional_width]
             return f"{seconds:0{seconds_width}}.{nanoseconds}"
 
-- 
2.43.0


From dbd7a3f2d47609f3148135029a78da211083f644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:37 +0000
Subject: [PATCH 38/47] fix: pushd restores the directory that was current when
 its block was entered

---
 big/file.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/big/file.py b/big/file.py
index d9bcf65..7631983 100644
--- a/big/file.py
+++ b/big/file.py
@@ -192,11 +192,13 @@ class pushd:
     """
     def __init__(self, path):
         self.path = path
-        self.cwd = os.getcwd()
+        self.cwds = []
     def __enter__(self):
+        cwd = os.getcwd()
         os.chdir(self.path)
+        self.cwds.append(cwd)
     def __exit__(self, exc_type, exc_value, traceback):
-        os.chdir(self.cwd)
+        os.chdir(self.cwds.pop())
 
 
 @export
-- 
2.43.0


From 78a83f27f1b1df03be333f0c5277b51210831bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:42 +0000
Subject: [PATCH 39/47] fix: time stamps of a struct_time use its offset from
 UTC, or the zone name UTC

---
 big/time.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/big/time.py b/big/time.py
index 4212e19..b70936f 100644
--- a/big/time.py
+++ b/big/time.py
@@ -45,6 +45,14 @@ def export(o):
 
 _timestamp_human_format = "%Y/%m/%d %H:%M:%S"
 
+def _struct_time_to_timestamp(t):
+    if t.tm_gmtoff is not None:
+        return calendar.timegm(t) - t.tm_gmtoff
+    if t.tm_zone in ("GMT", "UTC"):
+        return calendar.timegm(t)
+    return time.mktime(t)
+
+
 @export
 def timestamp_human(t=None, want_microseconds=None):
     """
@@ -74,10 +82,7 @@ def timestamp_human(t=None, want_microseconds=None):
     value None.
     """
     if isinstance(t, time.struct_time):
-        if t.tm_zone == "GMT":
-            t = calendar.timegm(t)
-        else:
-            t = time.mktime(t)
+        t = _struct_time_to_timestamp(t)
         # force None to False
         want_microseconds = bool(want_microseconds)
 
@@ -138,10 +143,7 @@ def timestamp_3339Z(t=None, want_microseconds=None):
     value None.
     """
     if isinstance(t, time.struct_time):
-        if t.tm_zone == "GMT":
-            t = calendar.timegm(t)
-        else:
-            t = time.mktime(t)
+        t = _struct_time_to_timestamp(t)
         want_microseconds = bool(want_microseconds)
 
     if t is None:
-- 
2.43.0


From d2f5bdb49b2250c3eb675e4e047e4657c0f8b0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:45 +0000
Subject: [PATCH 40/47] fix: get_int, get_float and get_int_or_float return any
 default, also one that compares equal to everything

---
 big/builtin.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/big/builtin.py b/big/builtin.py
index cdc32bf..5175556 100644
--- a/big/builtin.py
+++ b/big/builtin.py
@@ -76,7 +76,7 @@ def get_float(o, default=_sentinel):
     try:
         return float(o)
     except (TypeError, ValueError, OverflowError):
-        if default != _sentinel:
+        if default is not _sentinel:
             return default
         return o
 
@@ -91,7 +91,7 @@ def get_int(o, default=_sentinel):
     try:
         return int(o)
     except (TypeError, ValueError, OverflowError):
-        if default != _sentinel:
+        if default is not _sentinel:
             return default
         return o
 
@@ -124,7 +124,7 @@ def get_int_or_float(o, default=_sentinel):
             # this will return 0, not 0.0.
             return get_int_or_float(float(o))
         except (TypeError, ValueError, OverflowError):
-            if default != _sentinel:
+            if default is not _sentinel:
                 return default
             return o
 
-- 
2.43.0


From 6f43cec517ff0c4e2d11b5f450c068d5f66cdc8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:34 +0000
Subject: [PATCH 41/47] fix: Heap.extend leaves the heap as it was when the
 iterable raises

---
 big/heap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/big/heap.py b/big/heap.py
index 88ef66a..b069d9c 100644
--- a/big/heap.py
+++ b/big/heap.py
@@ -75,7 +75,7 @@ class Heap:
         return copy
 
     def extend(self, i):
-        self._queue.extend(i)
+        self._queue.extend(list(i))
         heapify(self._queue)
         self._version += 1
 
-- 
2.43.0


From c7644a3c69b9520e2bbcea766f07b61cc9c113d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:03 +0000
Subject: [PATCH 42/47] fix: versions can be compared with <= and >= as well

---
 big/version.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/big/version.py b/big/version.py
index 1e3c515..d2243d6 100644
--- a/big/version.py
+++ b/big/version.py
@@ -37,6 +37,7 @@ THE USE OR OTHER DEALINGS IN THE SOFTWARE.
 #        https://packaging.python.org/en/latest/specifications/version-specifiers/
 
 
+import functools
 import itertools
 import math
 import re
@@ -97,6 +98,7 @@ _re_is_valid_local_segment = re.compile("[A-Za-z0-9]+").fullmatch
 
 
 
+@functools.total_ordering
 class Version:
     def __init__(self, s=None, *, epoch=None, release=None, release_level=None, serial=None, post=None, dev=None, local=None):
         """
-- 
2.43.0


From aad74956f54582b78d85e6677394c18c7cb8d344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:54 +0000
Subject: [PATCH 43/47] fix: split_quoted_strings: take quotes and
 multiline_quotes from one-shot iterators too

---
 big/text.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/big/text.py b/big/text.py
index ca39667..2a3ce1e 100644
--- a/big/text.py
+++ b/big/text.py
@@ -1992,8 +1992,8 @@ def split_quoted_strings(s, quotes=_sqs_quotes_str, *, escape=_sqs_escape_str, m
         if quotes in (_sqs_quotes_str, None):
             quotes = _sqs_quotes_bytes
         else:
-            if isinstance(quotes, bytes):
-                quotes = tuple(_iterate_over_bytes(quotes))
+            # quotes may be any iterable, including an iterator
+            quotes = tuple(_iterate_over_bytes(quotes))
             for q in quotes:
                 if not isinstance(q, s_type):
                     raise TypeError(f"values in quotes must match s (str or bytes), not {q!r}")
@@ -2002,8 +2002,7 @@ def split_quoted_strings(s, quotes=_sqs_quotes_str, *, escape=_sqs_escape_str, m
         if escape in (_sqs_escape_str, None):
             escape = _sqs_escape_bytes
         if multiline_quotes:
-            if isinstance(multiline_quotes, bytes):
-                multiline_quotes = tuple(_iterate_over_bytes(multiline_quotes))
+            multiline_quotes = tuple(_iterate_over_bytes(multiline_quotes))
             for q in multiline_quotes:
                 if not isinstance(q, s_type):
                     raise TypeError(f"values in multiline_quotes must match s (str or bytes), not {q!r}")
@@ -2018,6 +2017,8 @@ def split_quoted_strings(s, quotes=_sqs_quotes_str, *, escape=_sqs_escape_str, m
         if quotes in (_sqs_quotes_bytes, None):
             quotes = _sqs_quotes_str
         else:
+            # quotes may be any iterable, including an iterator
+            quotes = tuple(quotes)
             for q in quotes:
                 if not isinstance(q, s_type):
                     raise TypeError(f"values in quotes must match s (str or bytes), not {q!r}")
@@ -2026,6 +2027,7 @@ def split_quoted_strings(s, quotes=_sqs_quotes_str, *, escape=_sqs_escape_str, m
         if escape in (_sqs_escape_bytes, None):
             escape = _sqs_escape_str
         if multiline_quotes:
+            multiline_quotes = tuple(multiline_quotes)
             for q in multiline_quotes:
                 if not isinstance(q, s_type):
                     raise TypeError(f"values in multiline_quotes must match s (str or bytes), not {q!r}")
-- 
2.43.0


From 4b64303897dbab68482b94bacabd1c9256635a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:04:58 +0000
Subject: [PATCH 44/47] fix: lines_strip_line_comments: quotes and
 multiline_quotes may be sets or iterators

---
 big/text.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/big/text.py b/big/text.py
index 2a3ce1e..678c86a 100644
--- a/big/text.py
+++ b/big/text.py
@@ -3496,12 +3496,12 @@ def lines_strip_line_comments(li, line_comment_markers, *,
         raise ValueError(f"line comment markers must be str, bytes, or an non-empty iterable of str or bytes, not {line_comment_markers!r}")
 
     # use split_quoted_string to validate quotes, multiline_quotes, and escape, if specified
+    # quotes and multiline_quotes may be any iterable, including a set or an iterator, and we need them for every line
+    quotes = tuple(_iterate_over_bytes(quotes)) if quotes else ()
+    multiline_quotes = tuple(_iterate_over_bytes(multiline_quotes)) if multiline_quotes else ()
     not_empty = quotes or multiline_quotes
     if not_empty:
-        if isinstance(not_empty, bytes):
-            test_text = b'x'
-        # if not_empty is not bytes, it's safe to index into
-        elif isinstance(not_empty[0], bytes):
+        if isinstance(not_empty[0], bytes):
             test_text = b'x'
         else:
             test_text = 'x'
-- 
2.43.0


From faf9b086dcbb7271fd1ef978d9cf2dd9c8352655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:32 +0000
Subject: [PATCH 45/47] fix: lines_sort: any false key means the default order,
 as documented

---
 big/text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/big/text.py b/big/text.py
index 678c86a..92a9a73 100644
--- a/big/text.py
+++ b/big/text.py
@@ -3331,7 +3331,7 @@ def lines_sort(li, *, key=None, reverse=False):
     Composable with all the lines_ modifier functions in the big.text module.
     """
     lines = list(li)
-    if key == None:
+    if not key:
         fn = lambda t: t[1]
     else:
         fn = lambda t: key(t)
-- 
2.43.0


From e990886d352a1550cbb059e9edeea133d7505eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:49:38 +0000
Subject: [PATCH 46/47] fix: multisplit, re_partition and re_rpartition never
 return an instance of a subclass of str or bytes, as documented

---
 big/text.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/big/text.py b/big/text.py
index 92a9a73..396d344 100644
--- a/big/text.py
+++ b/big/text.py
@@ -441,6 +441,9 @@ def re_partition(s, pattern, count=1, *, flags=0, reverse=False):
         empty = ''
         extension = (None, '')
 
+    # (slicing an instance of a subclass gives a plain str or bytes)
+    s = s[:]
+
     if not isinstance_re_pattern(pattern):
         pattern = re.compile(pattern, flags=flags)
 
@@ -737,6 +740,9 @@ def re_rpartition(s, pattern, count=1, *, flags=0):
         empty = ''
         extension = ('', None)
 
+    # (slicing an instance of a subclass gives a plain str or bytes)
+    s = s[:]
+
     # optimized fast path for the most frequent use case
     if count == 1:
         matches_iterator = reversed_re_finditer(pattern, s, flags)
@@ -1215,6 +1221,9 @@ def multisplit(s, separators=None, *,
             if not isinstance(o, s_type):
                 raise TypeError(f"separators must be either None or an iterable of objects the same type as s; s is {type(s).__name__}, separators is {separators!r}")
 
+    # (slicing an instance of a subclass gives a plain str or bytes)
+    s = s[:]
+
     separators_to_re_keep = keep
 
     if strip:
-- 
2.43.0


From e95c096b8166a1d94095f883c826f03a124b245c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:50:45 +0000
Subject: [PATCH 47/47] fix: normalize_whitespace never returns an instance of
 a subclass of str given as replacement

---
 big/text.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/big/text.py b/big/text.py
index 396d344..8e20f7d 100644
--- a/big/text.py
+++ b/big/text.py
@@ -1783,7 +1783,8 @@ def normalize_whitespace(s, separators=None, replacement=None):
         or (separators is whitespace)
         ):
         if not s.strip():
-            return replacement
+            # (always a plain str)
+            return replacement[:]
         words = s.split()
         if s[:1].isspace():
             words.insert(0, empty)
-- 
2.43.0

