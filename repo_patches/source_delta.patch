From aa2037df4667b7ee41c33bb058ed2e21de521656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:28 +0000
Subject: [PATCH 01/51] fix: StringView: negative and out of range integer
 indices

---
 DHParser/stringview.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/DHParser/stringview.py b/DHParser/stringview.py
index bf7ac04..0a4d384 100644
--- a/DHParser/stringview.py
+++ b/DHParser/stringview.py
@@ -195,8 +195,10 @@ class StringView:  # collections.abc.Sized
             return StringView(self._text, _begin + start, _begin + stop)
         except AttributeError:
             _index = index
-            if _index >= self._len:
-                raise IndexError("StringView index %i out of range 0 - %i" % (_index, self._len))
+            if _index < 0:
+                _index += self._len
+            if not 0 <= _index < self._len:
+                raise IndexError("StringView index %i out of range 0 - %i" % (index, self._len))
             _begin = self._begin
             return StringView(self._text, self._begin + _index, self._begin + _index + 1)
             # return self._text[self._begin + index] # leads to type errors
-- 
2.43.0


From fb1c3deadda43e7eeb2b62bcc45388173d93cad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:42 +0000
Subject: [PATCH 02/51] fix: StringView: a slice with its end before its begin
 is an empty view

StringView('abc')[2:1].find('') yielded -1 and regexes did not match the
empty string, because the bounds of the view remained inverted.
---
 DHParser/stringview.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/DHParser/stringview.py b/DHParser/stringview.py
index 0a4d384..6e0cb94 100644
--- a/DHParser/stringview.py
+++ b/DHParser/stringview.py
@@ -121,6 +121,7 @@ class StringView:  # collections.abc.Sized
         _len = _end - _begin  # type: int
         if _len < 0:
             _len = 0
+            _end = _begin
         self._begin = _begin   # type: int
         self._end = _end       # type: int
         self._len = _len       # type: int
-- 
2.43.0


From beef6fa82ffcc2b72923ffa2c5c674d6c21d755d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:42 +0000
Subject: [PATCH 03/51] fix: StringView: find, rfind and count with a start
 beyond the end of the view

The result for an empty search string depended on whether the string of the
view had been cached already.
---
 DHParser/stringview.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/DHParser/stringview.py b/DHParser/stringview.py
index 6e0cb94..2de648e 100644
--- a/DHParser/stringview.py
+++ b/DHParser/stringview.py
@@ -222,6 +222,8 @@ class StringView:  # collections.abc.Sized
         elif start is None and end is None:
             return self._text.count(sub, self._begin, self._end)
         else:
+            if start is not None and start > self._len:
+                return 0
             _start, _end = fast_real_indices(start, end, self._len)
             return self._text.count(sub, self._begin + _start, self._begin + _end)
 
@@ -242,6 +244,8 @@ class StringView:  # collections.abc.Sized
             return max(self._text.find(sub, _begin, self._end) - _begin, -1)
         else:
             _begin = self._begin  # type: int
+            if start is not None and start > self._len:
+                return -1
             _start, _end = fast_real_indices(start, end, self._len)
             return max(self._text.find(sub, self._begin + _start, _begin + _end) - _begin, -1)
 
@@ -262,6 +266,8 @@ class StringView:  # collections.abc.Sized
             return max(self._text.rfind(sub, _begin, self._end) - _begin, -1)
         else:
             _begin = self._begin  # type: int
+            if start is not None and start > self._len:
+                return -1
             _start, _end = fast_real_indices(start, end, self._len)
             return max(self._text.rfind(sub, _begin + _start, _begin + _end) - _begin, -1)
 
-- 
2.43.0


From 059b9a10e25bf0ccd4da2fe1e163f715ac5832b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:42 +0000
Subject: [PATCH 04/51] fix: StringView: startswith and endswith looked beyond
 the bounds of the view

An end-argument beyond the end of the view or a negative start or end made
startswith() and endswith() compare with text outside of the view.
---
 DHParser/stringview.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/DHParser/stringview.py b/DHParser/stringview.py
index 2de648e..a440d69 100644
--- a/DHParser/stringview.py
+++ b/DHParser/stringview.py
@@ -279,9 +279,10 @@ class StringView:  # collections.abc.Sized
         With optional `start`, test S beginning at that position.
         With optional `end`, stop comparing S at that position.
         """
-        start += self._begin
-        end = self._end if end is None else self._begin + end
-        return self._text.startswith(prefix, start, end)
+        if start > self._len:
+            return False
+        start, end = fast_real_indices(start, end, self._len)
+        return self._text.startswith(prefix, self._begin + start, self._begin + end)
 
     def endswith(self,
                  suffix: str,
@@ -291,9 +292,10 @@ class StringView:  # collections.abc.Sized
         With optional `start`, test S beginning at that position.
         With optional `end`, stop comparing S at that position.
         """
-        start += self._begin
-        end = self._end if end is None else self._begin + end
-        return self._text.endswith(suffix, start, end)
+        if start > self._len:
+            return False
+        start, end = fast_real_indices(start, end, self._len)
+        return self._text.endswith(suffix, self._begin + start, self._begin + end)
 
     def match(self, regex, flags: cython.int = 0):
         """Executes `regex.match` on the StringView object and returns the
-- 
2.43.0


From 8800b0b3ee4991e8a8698afc3d0082cf400bbdf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:42 +0000
Subject: [PATCH 05/51] fix: StringView: split without separator

StringView.split(None) raised a TypeError and split('') did not terminate,
unless the string of the view had been cached before.
---
 DHParser/stringview.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DHParser/stringview.py b/DHParser/stringview.py
index a440d69..edcb473 100644
--- a/DHParser/stringview.py
+++ b/DHParser/stringview.py
@@ -374,8 +374,8 @@ class StringView:  # collections.abc.Sized
         whitespace string is a separator and empty strings are
         removed from the result.
         """
-        if self._fullstring:
-            return self._fullstring.split(sep)
+        if self._fullstring or not sep:
+            return str(self).split(sep)
         else:
             pieces = []   # type: List[Union['StringView', str]]
             length = len(sep)
-- 
2.43.0


From cfa94d3f4783ec8ffd49c22b09a88b1c1ac858de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:06 +0000
Subject: [PATCH 06/51] fix: get_config_values: values set in the thread were
 lost for additional patterns

For keys matching only one of the additional patterns the preset was returned
and even written back, overwriting the value set in the current thread.
---
 DHParser/configuration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/configuration.py b/DHParser/configuration.py
index 963ba4e..bb28914 100644
--- a/DHParser/configuration.py
+++ b/DHParser/configuration.py
@@ -471,7 +471,7 @@ def get_config_values(key_pattern: str = "*", *additional_patterns) -> Dict:
                 cfg_values.update(cfg)
             else:
                 cfg_values.update({key: value for key, value in cfg.items()
-                                   if fnmatch.fnmatchcase(key, key_pattern)})
+                                   if fnmatch.fnmatchcase(key, pattern)})
         presets.update(cfg_values)
         cfg.update(presets)
     return presets
-- 
2.43.0


From e3c242f8be709d18b2554165fdb1fe8b6e84f88e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:09 +0000
Subject: [PATCH 07/51] fix: TextBuffer: length of an empty text

---
 DHParser/stringview.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/stringview.py b/DHParser/stringview.py
index edcb473..b10736e 100644
--- a/DHParser/stringview.py
+++ b/DHParser/stringview.py
@@ -429,7 +429,7 @@ class TextBuffer:
         return str(self.snapshot('\n'))
 
     def __len__(self) -> int:
-        if self._text:
+        if self._text or not self._buffer:
             return len(self._text)
         else:
             return sum(len(line) for line in self._buffer) + len(self._buffer) - 1
-- 
2.43.0


From 3e8f385f919d9ac3178944e974f3c31730cfefd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:09 +0000
Subject: [PATCH 08/51] fix: json_dumps: quotation marks and control characters
 in keys were not escaped if partially_serialized

---
 DHParser/toolkit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/toolkit.py b/DHParser/toolkit.py
index 1b81546..13af435 100644
--- a/DHParser/toolkit.py
+++ b/DHParser/toolkit.py
@@ -1598,7 +1598,7 @@ def json_dumps(obj: JSON_Type, *, cls=json.JSONEncoder, partially_serialized: bo
             if obj:
                 r = ['{']
                 for k, v in obj.items():
-                    r.append('"' + k + '":')
+                    r.append(json_encode_string(k) + ':')
                     r.extend(serialize(v))
                     r.append(',')
                 r[-1] = '}'
-- 
2.43.0


From 5cead574cb6aaaca3defdc4304ca483be82dbd24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:27 +0000
Subject: [PATCH 09/51] fix: ReadIncludeOnce: text of files that are included
 twice was lost for source mapping

---
 DHParser/preprocess.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/DHParser/preprocess.py b/DHParser/preprocess.py
index 3d72da5..061132e 100644
--- a/DHParser/preprocess.py
+++ b/DHParser/preprocess.py
@@ -524,7 +524,10 @@ def generate_include_map(original_name: str,
             map.file_names.extend(inner_map.file_names[:-1])
             map.positions.extend(inner_map.positions[:-1])
             map.offsets.extend(inner_map.offsets[:-1])
-            map.originals_dict.update(inner_map.originals_dict)
+            for name, text in inner_map.originals_dict.items():
+                # keep the text that was read first: include-readers may return the empty
+                # string, when the same file is included again (see ReadIncludeOnce)
+                map.originals_dict.setdefault(name, text)
             result.append(inner_text)
             inner_length = len(inner_text)
             result_pointer += inner_length
-- 
2.43.0


From 20fc3d9d53773797c701c47a0b9059d462163d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:27 +0000
Subject: [PATCH 10/51] fix: source map of tokenized texts did not cover the
 end of the text after a token

---
 DHParser/preprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/preprocess.py b/DHParser/preprocess.py
index 061132e..1e6fe0e 100644
--- a/DHParser/preprocess.py
+++ b/DHParser/preprocess.py
@@ -379,7 +379,7 @@ def tokenized_to_original_mapping(tokenized_text: str,
         positions.extend([d + 1, e + 1])
         offsets.extend([o + 1, o])
         i = tokenized_text.find(BEGIN_TOKEN, e + 1)
-    if e + 1 < len(tokenized_text):
+    if e + 1 <= len(tokenized_text):
         positions.append(len(tokenized_text) + 1)
         offsets.append(offsets[-1])
 
-- 
2.43.0


From 44f8a55b23d43bf0963fd6973f6912c1d770206a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:27 +0000
Subject: [PATCH 11/51] fix: make_token accepted token names and arguments that
 cannot be recognized as tokens

---
 DHParser/preprocess.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DHParser/preprocess.py b/DHParser/preprocess.py
index 1e6fe0e..c2adef0 100644
--- a/DHParser/preprocess.py
+++ b/DHParser/preprocess.py
@@ -222,8 +222,8 @@ def make_token(token: str, argument: str = '') -> str:
     This function is a support function that should be used by
     preprocessors to inject preprocessor tokens into the source text.
     """
-    assert RX_TOKEN_NAME.match(token)
-    assert RX_TOKEN_ARGUMENT.match(argument)
+    assert RX_TOKEN_NAME.fullmatch(token)
+    assert RX_TOKEN_ARGUMENT.fullmatch(argument)
 
     return BEGIN_TOKEN + token + TOKEN_DELIMITER + argument + END_TOKEN
 
-- 
2.43.0


From e7cf554a6401e62deb7a855732fbfaa3bca6aa5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:27 +0000
Subject: [PATCH 12/51] fix: SourceMap.validate: different lengths of the lists
 were not always detected

---
 DHParser/preprocess.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/preprocess.py b/DHParser/preprocess.py
index c2adef0..754c931 100644
--- a/DHParser/preprocess.py
+++ b/DHParser/preprocess.py
@@ -291,7 +291,7 @@ class SourceMap(NamedTuple):
     __module__ = __name__       # needed for cython compatibility
 
     def validate(self) -> SourceMap:   # actually returns Self
-        if len(self.positions) != len(self.offsets) != len(self.file_names):
+        if not (len(self.positions) == len(self.offsets) == len(self.file_names)):
             raise ValueError("The length of the lists of positions, offsets and file names "
                              "must be equal.")
         if len(self.positions) < 2:
-- 
2.43.0


From 1f8d7db91c8bde154f75ef558c85f6de13603685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:03 +0000
Subject: [PATCH 13/51] fix: RootNode.transfer_errors: destination node was
 registered for the positions of unrelated errors

---
 DHParser/nodetree.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index 2f518a3..d34d26a 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -3181,8 +3181,9 @@ class RootNode(Node):
             self.error_nodes.setdefault(destId, []).extend(errorList)
             del self.error_nodes[srcId]
             for nodeSet in self.error_positions.values():
-                nodeSet.discard(srcId)
-                nodeSet.add(destId)
+                if srcId in nodeSet:
+                    nodeSet.discard(srcId)
+                    nodeSet.add(destId)
 
     @property
     def errors_sorted(self) -> List[Error]:
-- 
2.43.0


From f7d66ade0bf573b27a75f8a3a6cefad5c0a1ad94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:03 +0000
Subject: [PATCH 14/51] fix: RootNode.swallow: errors of the swallowed node
 were not found on the root-node

---
 DHParser/nodetree.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index d34d26a..cf70226 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -3047,8 +3047,7 @@ class RootNode(Node):
         if node.has_attr():
             self._attributes = node._attributes
         # self._content = node._content
-        if id(node) in self.error_nodes:
-            self.error_nodes[id(self)] = self.error_nodes[id(node)]
+        self.transfer_errors(node, self)
         if self.source:
             add_source_locations(self.errors, self.source_mapping)
         return self
-- 
2.43.0


From a4537cb86332bed64dd569906e374c352e84539d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:03 +0000
Subject: [PATCH 15/51] fix: Node.locate and Node.locate_path: negative
 locations lie outside the content

---
 DHParser/nodetree.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index cf70226..26af51d 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -1379,6 +1379,7 @@ class Node:  # (collections.abc.Sized): Base class omitted for cython-compatibil
         See also :py:class:`ContentMapping` for a more
         general approach to locating string positions within the tree.
         """
+        if location < 0:  return None
         end = 0
         for nd in self.select_if(lambda nd: not nd._children, include_root=True):
             end += nd.strlen()
@@ -1490,6 +1491,7 @@ class Node:  # (collections.abc.Sized): Base class omitted for cython-compatibil
         Like :py:meth:`Node.locate()`, only that the entire path (i.e.
         chain of descendants) relative to `self` is returned.
         """
+        if location < 0:  return []
         end = 0
         for path in self.select_path_if(lambda path: not path[-1]._children, include_root=True):
             end += path[-1].strlen()
-- 
2.43.0


From 965a6d552ef9abe282d0b2ded162b865f203303e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:36 +0000
Subject: [PATCH 16/51] fix: circular includes with relative paths like
 "../main" were not detected

---
 DHParser/preprocess.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/DHParser/preprocess.py b/DHParser/preprocess.py
index 754c931..5fc125d 100644
--- a/DHParser/preprocess.py
+++ b/DHParser/preprocess.py
@@ -492,9 +492,10 @@ def generate_include_map(original_name: str,
         map = SourceMap(source_name, [0], [0], [source_name], {source_name: source_text})
         result = []
 
-        if source_name in file_names:
+        normalized_name = os.path.normpath(source_name)
+        if normalized_name in file_names:
             raise ValueError(f'Circular include of {source_name} detected!')
-        file_names.add(source_name)
+        file_names.add(normalized_name)
 
         dirname = os.path.dirname(source_name)
         original_pointer = 0
@@ -544,7 +545,7 @@ def generate_include_map(original_name: str,
             map.positions.append(map.positions[-1] + len(rest))
             map.offsets.append(original_offset)
             map.file_names.append(source_name)
-        file_names.remove(source_name)
+        file_names.remove(normalized_name)
         # map.file_offsets = [-offset for offset in map.offsets]  # only for debugging!
         return map, ''.join(result)
 
-- 
2.43.0


From 4cb063b81ba9841bbbdcf080565f837d92f0bfaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:58 +0000
Subject: [PATCH 17/51] fix: select_path_if: paths that had already been
 yielded were changed when the iteration continued

---
 DHParser/nodetree.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index 26af51d..42d288f 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -4118,14 +4118,14 @@ def select_path_if(start_path: Path,
     path = start_path.copy()
     while path:
         if include_root:
-            yield from recursive(path)
+            yield from recursive(path.copy())
         else:
             include_root = True
         node = path.pop()
         edge, delta = (0, -1) if reverse else (-1, 1)
         while path and node is path[-1]._children[edge]:
             if match_func(path):
-                yield path
+                yield path.copy()
             node = path.pop()
         if path:
             parent = path[-1]
-- 
2.43.0


From f09c72e9082cf2e37a90d275059ca06b5ad72d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:58 +0000
Subject: [PATCH 18/51] fix: select_path_if: skip-function was ignored for the
 siblings along the start path

---
 DHParser/nodetree.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index 42d288f..9906685 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -4108,12 +4108,12 @@ def select_path_if(start_path: Path,
         nonlocal match_func, reverse, skip_func
         if match_func(path):
             yield path
+        if skip_func(path):
+            return
         top = path[-1]
         child_iterator = reversed(top._children) if reverse else top._children
         for child in child_iterator:
-            child_path = path + [child]
-            if not skip_func(child_path):
-                yield from recursive(child_path)
+            yield from recursive(path + [child])
 
     path = start_path.copy()
     while path:
-- 
2.43.0


From 42acf6b33333f6b05472ca7ca9a353eb89b836dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:47 +0000
Subject: [PATCH 19/51] fix: parse_sxpr: pos-attribute could not be read if no
 quotation mark follows

---
 DHParser/nodetree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index 9906685..22517fb 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -3373,7 +3373,7 @@ def parse_sxpr(sxpr: Union[str, StringView]) -> RootNode:
         while sxpr[:L] == attr_start:
             i = sxpr.find('"')
             k = sxpr.find(')')
-            if k > i:
+            if 0 <= i < k:
                 k = sxpr.find(')', sxpr.find('"', i + 1))
             if i < 0:
                 i = k + 1
-- 
2.43.0


From d96b9edebed103213e2ffc194a5a474ad666e4c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:47 +0000
Subject: [PATCH 20/51] fix: flatten_sxpr changed whitespace inside of quoted
 strings

---
 DHParser/nodetree.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index 22517fb..fd6bdc4 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -414,6 +414,7 @@ def create_path_match_function(criterion: PathSelector) -> PathMatchFunction:
 RX_IS_SXPR = LazyRE(r'\s*\(')
 RX_IS_XML = LazyRE(r'\s*<')
 RX_ATTR_NAME = LazyRE(r'[\w.:-]')
+RX_SXPR_QUOTED = re.compile(r'''(?<=[\s(])("(?!"")[^"]*"|'(?!'')[^'\n]*')(?=[\s)])''')
 
 
 def flatten_sxpr(sxpr: str, threshold: int = -1) -> str:
@@ -442,14 +443,11 @@ def flatten_sxpr(sxpr: str, threshold: int = -1) -> str:
     assert RX_IS_SXPR.match(sxpr)
     if threshold == 0:
         return sxpr
-    flat = re.sub(r'\s(?=\))', '', re.sub(r'\n\s*', ' ', sxpr)).strip()
-    l = flat.split('"')
-    if len(l) > 1:
-        for i in range(0, len(l), 2):
-            l[i] = re.sub(r'  +', ' ', l[i])
-        flat = '"'.join(l)
-    else:
-        flat =  re.sub(r'  +', ' ', flat)
+    l = RX_SXPR_QUOTED.split(sxpr)
+    for i in range(0, len(l), 2):  # quoted strings (odd indices) must not be changed
+        gap = re.sub(r'\s(?=\))', '', re.sub(r'\n\s*', ' ', l[i]))
+        l[i] = re.sub(r'  +', ' ', gap)
+    flat = ''.join(l).strip()
     if len(flat) > threshold > 0:
         return sxpr.strip()
     return flat
-- 
2.43.0


From 1882781016dac213ae96c1366d0c3fdfa3976fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:13 +0000
Subject: [PATCH 21/51] fix: Node.from_json_obj: children with names ending
 with two underscores were lost

---
 DHParser/nodetree.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index fd6bdc4..5f18e3e 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -2450,7 +2450,8 @@ class Node:  # (collections.abc.Sized): Base class omitted for cython-compatibil
                 content = result.get('content__', None)
                 if content is None:
                     result = tuple(Node.from_json_obj({k: v})
-                                   for k, v in result_iter if k[-2:] != '__')
+                                   for k, v in result_iter
+                                   if k not in ('pos__', 'attributes__'))
                 else:
                     result = content
             node = Node(name, result)
-- 
2.43.0


From 2b35bb4ce1b2dc794b8f26a5dca1510d2ccd34c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:27 +0000
Subject: [PATCH 22/51] fix: ContentMapping.rebuild_mapping_slice: wrong
 content if the last leaf of the slice had been split

---
 DHParser/nodetree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index 5f18e3e..36ce283 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -5611,7 +5611,7 @@ class ContentMapping:
         content, offsets, paths = self._generate_mapping(common_ancestor, stump)
         assert offsets[0] == 0
         start_pos = self._pos_list[first_index]
-        end_pos = self._pos_list[last_index] + self._path_list[last_index][-1].strlen()
+        end_pos = self._pos_list[last_index + 1] if last_index < last else len(self.content)
         offsets = [offset + start_pos for offset in offsets]
         if stump:  paths = [stump + path for path in paths]
 
-- 
2.43.0


From cf31965d618ef50557f0ed117d05693e83556d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:27 +0000
Subject: [PATCH 23/51] fix: ContentMapping: ignore-function received
 incomplete paths when rebuilding the mapping

---
 DHParser/nodetree.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index 36ce283..4df5690 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -5202,10 +5202,11 @@ class ContentMapping:
         path_list = []
         pos_list = []
         select_func = (lambda pth: self.select_func(stump + pth)) if stump else self.select_func
-        if self.ignore_func([origin]):
+        ignore_func = (lambda pth: self.ignore_func(stump + pth)) if stump else self.ignore_func
+        if ignore_func([origin]):
             return '', [], []
         for path in origin.select_path_if(
-                select_func, include_root=True, skip_func=self.ignore_func):
+                select_func, include_root=True, skip_func=ignore_func):
             #  if self.ignore_func(path):  continue
             pos_list.append(pos)
             path_list.append(path)
-- 
2.43.0


From df424fba653847151c64bde3cfd41cc855defdce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:27 +0000
Subject: [PATCH 24/51] fix: ContentMapping.insert_node: inserted nodes were
 missing in the updated mapping

---
 DHParser/nodetree.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index 4df5690..a731a4a 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -5520,7 +5520,8 @@ class ContentMapping:
         return next(self.select(criterion, start_from, reverse), (None, -1))
 
     @cython.locals(i=cython.int, start_pos=cython.int, end_pos=cython.int, offset=cython.int)
-    def rebuild_mapping_slice(self, first_index: cython.int, last_index: cython.int):
+    def rebuild_mapping_slice(self, first_index: cython.int, last_index: cython.int,
+                              ancestor: Optional[Node] = None):
         """Reconstructs a particular section of the context mapping after the
         underlying tree has been restructured. Other than
         :py:meth:`ContentMappin.rebuild_mapping`, the section that needs repairing
@@ -5534,6 +5535,8 @@ class ContentMapping:
             of the last path that has been affected by restruturing of the tree.
             Use :py:meth:`ContentMapping.get_path_index` to determine the path-index
             if only the position is known.
+        :param ancestor: If given, all paths that run through this node will be
+            reconstructed as well, e.g. because children have been added to it.
 
         Examples::
 
@@ -5602,6 +5605,8 @@ class ContentMapping:
         end_path = self._path_list[last_index]
         common_ancestor, i = find_common_ancestor(start_path, end_path)
         assert common_ancestor
+        if ancestor in start_path[:i]:
+            common_ancestor, i = cast(Node, ancestor), start_path.index(ancestor)
         while first_index > 0 and self._path_list[first_index - 1][i:i + 1] == [common_ancestor]:
             first_index -= 1
         last = len(self._path_list) - 1
@@ -5671,7 +5676,7 @@ class ContentMapping:
         if self.auto_cleanup:
             i1 = self.get_path_index(pos, left_biased=True)
             i2 = self.get_path_index(pos + node.strlen(), left_biased=False)
-            self.rebuild_mapping_slice(i1, i2)
+            self.rebuild_mapping_slice(i1, i2, parent)
         return NodeLocation(parent, index)
 
 
-- 
2.43.0


From c3d9bc9e4652cc91b9ca837d11c04cee28e12f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:27 +0000
Subject: [PATCH 25/51] fix: move_fringes: nodes were lost if leaf-nodes and
 branch-nodes could not be merged

---
 DHParser/transform.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/DHParser/transform.py b/DHParser/transform.py
index eee6236..7550e69 100644
--- a/DHParser/transform.py
+++ b/DHParser/transform.py
@@ -1613,12 +1613,16 @@ def move_fringes(path: Path, condition: CondFunc, *, side:str = "both", merge: b
                 target = before[-1] if before else prevN[0]
                 if merge_results(target, prevN + before, path[0]):
                     before = (target,)
+                else:
+                    before = prevN + before
             before = before or prevN
 
             if len(after) + len(nextN) > 1:
                 target = after[0] if after else nextN[-1]
                 if merge_results(target, after + nextN, path[0]):
                     after = (target,)
+                else:
+                    after = after + nextN
             after = after or nextN
 
         parent._set_result(parent_children[:a + 1] + before + (node,) + after + parent_children[b:])
-- 
2.43.0


From 3d8f0487cfd8c7b444f831e165d39a6f7145d652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:27 +0000
Subject: [PATCH 26/51] fix: merge_adjacent, merge_connected: cyclic trees if
 the name of merged nodes is swallowed

---
 DHParser/transform.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/DHParser/transform.py b/DHParser/transform.py
index 7550e69..5052fb1 100644
--- a/DHParser/transform.py
+++ b/DHParser/transform.py
@@ -1414,11 +1414,13 @@ def merge_adjacent(path: Path,
                 if i > k:
                     adjacent = children[k:i]
                     head = adjacent[0]
+                    # fuse first, because swallow() might yield True for the renamed head
+                    fused = fuse(adjacent, swallow)
                     if swallow is not None and swallow([head]):
                         head = Node(preferred_name or head.name, '').with_pos(head._pos)
                     elif preferred_name and len(adjacent) > 1:
                         head.name = preferred_name
-                    head.result = fuse(adjacent, swallow)
+                    head.result = fused
                     update_attr_unless(head, adjacent[1:], path[0], swallow)
                     new_result.append(head)
             else:
@@ -1473,11 +1475,13 @@ def merge_connected(path: Path, content: CondFunc, delimiter: CondFunc,
                 if i > k:
                     adjacent = children[k:i]
                     head = adjacent[0]
+                    # fuse first, because swallow() might yield True for the renamed head
+                    fused = fuse(adjacent, swallow)
                     if swallow is not None and swallow([head]):
                         head = Node(content_name, '').with_pos(head._pos)
                     elif content_name:
                         head.name = content_name
-                    head.result = fuse(adjacent, swallow)  # reduce(operator.add, (nd.result for nd in adjacent), initial)
+                    head.result = fused  # reduce(operator.add, (nd.result for nd in adjacent), initial)
                     update_attr_unless(head, adjacent[1:], path[0], swallow)
                     new_result.append(head)
             else:
-- 
2.43.0


From 00f188396bd8956bd84f544cba07cc29563258db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:27 +0000
Subject: [PATCH 27/51] fix: content_matches: a trailing linefeed was ignored

---
 DHParser/transform.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/DHParser/transform.py b/DHParser/transform.py
index 5052fb1..c36f246 100644
--- a/DHParser/transform.py
+++ b/DHParser/transform.py
@@ -772,9 +772,7 @@ def content_matches(path: Path, regexp: str) -> bool:
     In contrast to ``re.match`` the regular expression must match the complete
     string and not just the beginning of the string to succeed!
     """
-    if not regexp.endswith('$'):
-        regexp = f"(?:{regexp})$"
-    return bool(re.match(regexp, path[-1].content))
+    return bool(re.fullmatch(regexp, path[-1].content))
 
 
 @transformation_factory
-- 
2.43.0


From 1f335eef26960725689f0ea3a731fed5c6e24ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:03 +0000
Subject: [PATCH 28/51] fix: Counted: text was skipped after a failure because
 a wrong location was returned

---
 DHParser/parse.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index 0753432..a62425c 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -3900,14 +3900,15 @@ class Counted(UnaryParser):
         copy_combined_parser_attrs(self, duplicate)
         return duplicate
 
-    @cython.locals(location_=cython.int)
+    @cython.locals(start=cython.int, location_=cython.int)
     def _parse(self, location: cython.int):
         results: Tuple[Node, ...] = ()
+        start = location
         location_ = location
         for _ in range(self.repetitions[0]):
             node, location = self.parser(location)
             if node is None:
-                return None, location_
+                return None, start
             if node._result or node.name[0] != ':':
                 results += (node,)
             if location_ >= location:
-- 
2.43.0


From b1d14703f0734b8438b785a9e7ab3a5d0543b26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:03 +0000
Subject: [PATCH 29/51] fix: Interleave: elements were skipped if another
 element matched the empty text

---
 DHParser/parse.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index a62425c..bbf63f1 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -4567,7 +4567,13 @@ class Interleave(ErrorCatchingNary):
                             results += (node,)
                             # location_ = location__
                         counter[i] += 1
-                        if counter[i] >= self.repetitions[i][1]:
+                        if location__ <= location_:
+                            # infinite loop protection: an empty match can be repeated any
+                            # number of times, but the other parsers must still be tried
+                            infinite_loop_warning(self, node, location_)
+                            counter[i] = max(counter[i], self.repetitions[i][0])
+                            consumed.add(parser)
+                        elif counter[i] >= self.repetitions[i][1]:
                             consumed.add(parser)
                         break
             else:
@@ -4585,9 +4591,9 @@ class Interleave(ErrorCatchingNary):
                 results += (err_node,)
                 if reloc < 0:
                     break
-            if location__ <= location_:
-                infinite_loop_warning(self, node, location)
-                break  # infinite loop protection
+                if location__ <= location_:
+                    infinite_loop_warning(self, err_node, location)
+                    break  # infinite loop protection
             location_ = location__
         nd = self._return_values(results)  # type: Node
         if error and reloc < 0:  # no worry: reloc is always defined when error is True
-- 
2.43.0


From 76cfa711526bb6531d2ba10b8a62d137a30b8a03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:17 +0000
Subject: [PATCH 30/51] fix: mandatory violation: wrong position of the node;
 crash if the parser drops its content

---
 DHParser/parse.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index bbf63f1..f615f4e 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -4364,6 +4364,14 @@ class ErrorCatchingNary(NaryParser):
                 self, err_node, reloc, location, error, first_throw=False)
         return error, location + max(reloc, 0)
 
+    def error_result(self, node: Node, results: Sequence[Node], location: cython.int) -> Node:
+        """Returns the node that is passed on with a parser-error. This is ``node``
+        unless the parser drops its content, which must not happen in case of an
+        error. The node is positioned at ``location``, i.e. where the parser started."""
+        if node is EMPTY_NODE:
+            node = Node(self.node_name, tuple(results))
+        return node if node._pos >= 0 else node.with_pos(location)
+
     def static_analysis(self) -> List['AnalysisError']:
         errors = super().static_analysis()
         msg = []
@@ -4472,7 +4480,7 @@ class Series(ErrorCatchingNary):
         ret_node = self._return_values(tuple(results))  # type: Node
         if error and reloc < 0:  # no worry: reloc is always defined when error is True
             # parser will be moved forward, even if no relocation point has been found
-            raise ParserError(self, ret_node.with_pos(location_),
+            raise ParserError(self, self.error_result(ret_node, results, location),
                               location_ - location,
                               location, error, first_throw=True)
         return ret_node, location_
@@ -4598,7 +4606,7 @@ class Interleave(ErrorCatchingNary):
         nd = self._return_values(results)  # type: Node
         if error and reloc < 0:  # no worry: reloc is always defined when error is True
             # parser will be moved forward, even if no relocation point has been found
-            raise ParserError(self, nd.with_pos(location),
+            raise ParserError(self, self.error_result(nd, results, location),
                               location_ - location,
                               location, error, first_throw=True)
         return nd, location_
-- 
2.43.0


From 75c756b7022e4d2a58fcf385be8ee2244693d520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:17 +0000
Subject: [PATCH 31/51] fix: parsing an empty document: root-node without
 position

---
 DHParser/parse.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index f615f4e..be78773 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -2022,6 +2022,8 @@ class Grammar:
                 result, _ = parser(0)
             except ParserError as pe:
                 result = pe.node
+            if result is EMPTY_NODE:  # don't ever deal out the EMPTY_NODE singleton!
+                result = Node(EMPTY_PTYPE, '').with_pos(0)
             if result is None:
                 result = Node(ZOMBIE_TAG, '').with_pos(0)
                 if lookahead_failure_only(parser):
-- 
2.43.0


From 83927faa6b303bbc247341788d6c99f8304126c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:02 +0000
Subject: [PATCH 32/51] fix: negative lookaround without preceding failure:
 errors were located behind the end of the text

---
 DHParser/parse.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index be78773..3b48314 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -4704,7 +4704,8 @@ def _negative_match(grammar, bool_value) -> bool:
     else:
         # invert the farthest failure, because, due to negation, it's not
         # a failure anymore and should be overwritten by any other failure
-        grammar.ff_pos__ = -grammar.ff_pos__
+        if grammar.ff_pos__ > 0:
+            grammar.ff_pos__ = -grammar.ff_pos__
         return True
 
 
-- 
2.43.0


From bf5c619f7ef5e1481fd4742f5e87039c4b2b2297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:02 +0000
Subject: [PATCH 33/51] fix: error code for values left on the capture-stack
 varied randomly

---
 DHParser/parse.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index 3b48314..0ec9c8d 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -1165,21 +1165,26 @@ def is_parser_placeholder(parser: Optional[Parser]) -> bool:
 # functions for analysing the parser tree/graph ###
 
 
-def has_non_autocaptured_symbols(ptrail: ParserTrail) -> Optional[bool]:
-    """Returns True, if the parser-path contains a Capture-Parser that is not
-    shielded by a Retrieve-Parser. This is the case for captured symbols
-    that are not "auto-captured" by a Retrieve-Parser.
+def has_non_autocaptured_symbols(parser: Parser) -> bool:
+    """Returns True, if ``parser`` contains a Capture-Parser that is (on at least
+    one path) not shielded by a Retrieve-Parser. This is the case for captured
+    symbols that are not "auto-captured" by a Retrieve-Parser.
     """
-    for parser in ptrail:
-        if parser.ptype == ":Retrieve":
-            break
-        elif parser.ptype == ":Capture":
+    visited = set()
+    stack = [parser]
+    while stack:
+        parser = stack.pop()
+        if parser in visited or parser.ptype == ":Retrieve":
+            continue
+        visited.add(parser)
+        if parser.ptype == ":Capture":
             p = cast(UnaryParser, parser).parser
             while p.ptype in (":Synonym", ":Forward"):
                 p = cast(UnaryParser, p).parser
             if not isinstance(p, Retrieve):
                 return True
-    return None
+        stack.extend(parser.sub_parsers)
+    return False
 
 
 ########################################################################
@@ -2180,7 +2185,7 @@ class Grammar:
             error_msg = "Capture-stack not empty after end of parsing: " \
                 + ', '.join(f'{v} {len(l)} {"items" if len(l) > 1 else "item"}'
                             for v, l in self.variables__.items() if len(l) >= 1)
-            if parser.apply_to_trail(has_non_autocaptured_symbols):
+            if has_non_autocaptured_symbols(parser):
                 if all(cast(Capture, self[v]).can_capture_zero_length
                        for v, l in self.variables__.items() if len(l) >= 1):
                     error_code = CAPTURE_STACK_NOT_EMPTY_WARNING
-- 
2.43.0


From 3f9275ad5942b8e1544910f3c853a281b707d4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:02 +0000
Subject: [PATCH 34/51] fix: crash if a value captured via a Forward-parser is
 left on the capture-stack

---
 DHParser/parse.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index 0ec9c8d..4baa39e 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -2186,7 +2186,12 @@ class Grammar:
                 + ', '.join(f'{v} {len(l)} {"items" if len(l) > 1 else "item"}'
                             for v, l in self.variables__.items() if len(l) >= 1)
             if has_non_autocaptured_symbols(parser):
-                if all(cast(Capture, self[v]).can_capture_zero_length
+                def capture_parser(v: str) -> Capture:
+                    p = self[v]
+                    while isinstance(p, Forward):  p = p.parser
+                    return cast(Capture, p)
+
+                if all(capture_parser(v).can_capture_zero_length
                        for v, l in self.variables__.items() if len(l) >= 1):
                     error_code = CAPTURE_STACK_NOT_EMPTY_WARNING
                 elif parser is self.root_parser__:
-- 
2.43.0


From 19ef647afe68d595502c5be3163655aeb1d9aa6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:38 +0000
Subject: [PATCH 35/51] fix: RuntimeError "dictionary changed size" if parsing
 is aborted while variables are captured

---
 DHParser/parse.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index 4baa39e..7cf0bec 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -2049,13 +2049,13 @@ class Grammar:
                 result, location = parser(location)
             except ParserError as pe:
                 result, location = pe.node, L
-                for k in self.variables__:  del self.variables__[k]
+                self.variables__.clear()
             except CancelError as ce:
                 result = Node(EMPTY_NODE.name, '').with_pos(0)
                 self.tree__.new_error(
                     result, f'Parsing was canceled at position: {ce.location} of {L}!', CANCELED)
                 location = L
-                for k in self.variables__:  del self.variables__[k]
+                self.variables__.clear()
             if result is EMPTY_NODE:  # don't ever deal out the EMPTY_NODE singleton!
                 result = Node(EMPTY_PTYPE, '').with_pos(0)
 
-- 
2.43.0


From 10eb35d44e89494b645a9038439448ad1f6ebb5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:38 +0000
Subject: [PATCH 36/51] fix: captures abandoned at the end of parsing were not
 taken back (spurious capture-stack error)

---
 DHParser/parse.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index 7cf0bec..78ba159 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -2047,6 +2047,8 @@ class Grammar:
         while location < L and len(stitches) < max_parser_dropouts:
             try:
                 result, location = parser(location)
+                # take back captures of lookaheads or abandoned branches beyond the match
+                self.rollback_to__(location)
             except ParserError as pe:
                 result, location = pe.node, L
                 self.variables__.clear()
-- 
2.43.0


From 77d183f0772e1ec59f02de5c6af9e4f2d06e504c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:45 +0000
Subject: [PATCH 37/51] fix: zero-length-check of captures depended on the
 document and polluted the memo

---
 DHParser/parse.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index 78ba159..5ad061c 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -4874,7 +4874,14 @@ class Capture(ContextSensitive):
     @property
     def can_capture_zero_length(self) -> bool:
         if self._can_capture_zero_length is None:
-            self._can_capture_zero_length = self.parser._parse(0)[0] is not None
+            # use a copy with an empty document, so that neither the result depends on the
+            # document being parsed nor the state of the parser is affected
+            grammar = Grammar(Synonym(self.parser), static_analysis=False)
+            try:
+                node, _ = grammar.root_parser__._parse(0)
+            except ParserError:
+                node = None
+            self._can_capture_zero_length = node is not None
         return cast(bool, self._can_capture_zero_length)
 
     def _rollback(self):
@@ -4910,16 +4917,12 @@ class Capture(ContextSensitive):
                 0, CAPTURE_DROPPED_CONTENT_WARNING
             )))
         if self.zero_length_warning:
-            node, _ = self.parser._parse(0)
-            if node is not None:
+            if self.can_capture_zero_length:
                 errors.append(AnalysisError(self.pname, self, Error(
                     'Variable "%s" captures zero length strings, which can lead to '
                     'its remaining on the stack after backtracking!' % (self.pname or str(self)),
                     0, ZERO_LENGTH_CAPTURE_POSSIBLE_WARNING
                 )))
-                self._can_capture_zero_length = True
-            else:
-                self._can_capture_zero_length = False
         return errors
 
 
-- 
2.43.0


From 60e53499979552f514cf34541f6b9420c46c2226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:26 +0000
Subject: [PATCH 38/51] fix: AssertionError if the error-node of a disposable
 root-parser is returned as result

---
 DHParser/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index 5ad061c..dd2d666 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -2077,7 +2077,7 @@ class Grammar:
                 rest = self.document__[location:]
                 fwd = rest.find("\n") + 1 or len(rest)
                 skip, location = rest[:fwd], location + fwd
-                if result is None or (result.name == ZOMBIE_TAG and len(result) == 0):
+                if result is None or (result.name == ZOMBIE_TAG and not result.result):
                     err_pos = self.ff_pos__
                     associated_symbol = self.associated_symbol__(self.ff_parser__)
                     if associated_symbol != self.ff_parser__:
-- 
2.43.0


From b506d7e97228d1d6129673a7ae7e8c6b56e7190b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:26 +0000
Subject: [PATCH 39/51] fix: Forward-parser failed to match again after a
 mandatory violation at the same location

---
 DHParser/parse.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index dd2d666..4deca7c 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -5258,7 +5258,11 @@ class Forward(UnaryParser):
             grammar.suspend_memoization__ = False
             history_pointer = len(grammar.history__)
 
-            result = self.parser(location)
+            try:
+                result = self.parser(location)
+            except ParserError:
+                del self.recursion_counter[location]  # no recursion any more: don't fail next time
+                raise
 
             if result[0] is not None:
                 # keep calling the (potentially left-)recursive parser and increase
@@ -5433,7 +5437,11 @@ class Ref(LateBindingUnary):
             grammar.suspend_memoization__ = False
             history_pointer = len(grammar.history__)
 
-            result = self.parser(location)
+            try:
+                result = self.parser(location)
+            except ParserError:
+                del self.recursion_counter[location]  # no recursion any more: don't fail next time
+                raise
 
             if result[0] is not None:
                 # keep calling the (potentially left-)recursive parser and increase
-- 
2.43.0


From fca09a53cdd06aa3c070ee3a400bb11ef7106e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:09 +0000
Subject: [PATCH 40/51] fix: mandatory violation: rest of the document was lost
 if the start-parser is a Forward-parser

---
 DHParser/parse.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index 4deca7c..feadc87 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -679,7 +679,9 @@ class Parser:
         i, skip_node = reentry_point(
             rest, rules, grammar.comment_rx__, grammar.reentry_search_window__,
             f'{pe.parser.symbol}_resume')
-        if i >= 0 or self == grammar.start_parser__:
+        start_parser = grammar.start_parser__
+        while isinstance(start_parser, Forward):  start_parser = start_parser.parser
+        if i >= 0 or self == start_parser:
             # either a reentry point was found or the
             # error has fallen through to the first level
             assert pe.node._children or (not pe.node.result)
-- 
2.43.0


From 24fd1be89930bf655ac35477438a313c54a2d280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:08 +0000
Subject: [PATCH 41/51] fix: error-resumption: skipped text was inserted before
 already parsed text

---
 DHParser/parse.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index feadc87..c8e2734 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -687,8 +687,9 @@ class Parser:
             assert pe.node._children or (not pe.node.result)
             # apply reentry-rule or catch error at root-parser
             if i < 0:  i = 0
-            zombie = pe.node.pick_child(artifact)  # type: Optional[Node]
-            if zombie and not zombie.result:
+            # only the last child can be filled without changing the order of the text
+            zombie = pe.node._children[-1] if pe.node._children else None  # type: Optional[Node]
+            if zombie and artifact(zombie) and not zombie.result:
                 zombie.result = rest[:i]
                 zombie.name = skip_node.name
                 tail = tuple()  # type: ChildrenType
-- 
2.43.0


From 1880163fd66a4b1cdd6a7b6d754f17a80b8f776d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:00 +0000
Subject: [PATCH 42/51] fix: mandatory violation at the end of the document:
 text between the start of the enclosing parser and the failing parser was
 lost

---
 DHParser/parse.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index c8e2734..fc2cbd8 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -711,10 +711,11 @@ class Parser:
         elif grammar.tree__.errors[-1].code in \
                 (MANDATORY_CONTINUATION_AT_EOF, MANDATORY_CONTINUATION_AT_EOF_NON_ROOT):
             # try to create tree as faithful as possible
-            node = Node(self.node_name, pe.node).with_pos(location)
+            result = (Node(ZOMBIE_TAG, cut), pe.node) if gap else pe.node  # type: ResultType
+            node = Node(self.node_name, result).with_pos(location)
         else:
             # fall through but skip the gap
-            result = (Node(ZOMBIE_TAG, cut), pe.node) if gap else pe.node  # type: ResultType
+            result = (Node(ZOMBIE_TAG, cut), pe.node) if gap else pe.node
             raise pe.new_PE(node=Node(self.node_name, result).with_pos(location),
                             node_orig_len=pe.node_orig_len + gap,
                             location=location, first_throw=False)
-- 
2.43.0


From 8ff21e938fae9b10582c2da2b8cbe4fe6047299f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:55 +0000
Subject: [PATCH 43/51] fix: read_full_block: wrong content-length, missing
 data or backlog, depending on how the data arrives

---
 DHParser/server.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/DHParser/server.py b/DHParser/server.py
index 2d134a1..26224a6 100644
--- a/DHParser/server.py
+++ b/DHParser/server.py
@@ -677,17 +677,21 @@ async def read_full_block(reader: StreamReaderType) -> Tuple[int, bytes, bytes]:
         i = data.find(b'Content-Length:', 0, 512)
         m = RX_CONTENT_LENGTH.match(data, i, i + 100) if i >= 0 else None
     if m:
-        content_length = int(m.group(1))
         m2 = re.search(RE_DATA_START, data)
         while not m2 and not reader.at_eof():
             data += await reader.read()
             m2 = re.search(RE_DATA_START, data)
         if m2:
+            # match again, because the number might not have been complete before
+            m = RX_CONTENT_LENGTH.match(data, i, i + 100)
+            content_length = int(m.group(1))
             header_size = m2.end()
             missing = header_size + content_length - len(data)
-            if missing > 0:
+            while missing > 0 and not reader.at_eof():
                 data += await reader.read(missing)
-                backlog = data[header_size + content_length:]
+                missing = header_size + content_length - len(data)
+            backlog = data[header_size + content_length:]
+            data = data[:header_size + content_length]
         else:
             header_size = 0
     else:
-- 
2.43.0


From 6983d71742265d8b54681a5d432cc4e397810502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:55 +0000
Subject: [PATCH 44/51] fix: server hangs in an endless loop after a message
 with content-length zero

---
 DHParser/server.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/DHParser/server.py b/DHParser/server.py
index 26224a6..71873fe 100644
--- a/DHParser/server.py
+++ b/DHParser/server.py
@@ -1602,7 +1602,7 @@ class Server:
             # reset the data variable
             data = bytearray()  # type: bytearray
             # reset the content length
-            content_length = 0  # type: int
+            content_length = -1  # type: int
             # reset the length of the header, represented by the variable `k`
             k = 0  # type: int
 
@@ -1638,7 +1638,7 @@ class Server:
             #
             # see also: test/test_server.TestLanguageServer.test_varying_data_chunk_sizes
 
-            while (content_length <= 0 or len(data) < content_length + k) and connection_alive():
+            while (content_length < 0 or len(data) < content_length + k) and connection_alive():
                 if buffer:
                     # if there is any data in the buffer, retrieve this first,
                     # before awaiting further data from the stream
@@ -1647,13 +1647,14 @@ class Server:
                 else:
                     try:
                         # await asyncio.sleep(0)
-                        data += await reader.read(content_length or self.max_data_size)
+                        data += await reader.read(content_length if content_length > 0
+                                                  else self.max_data_size)
                     except ConnectionError as err:  # (ConnectionAbortedError, ConnectionResetError)
                         self.log('ERROR while awaiting data: ', str(err), '\n')
                         if id_connection:
                             self.connection.alive = False
                         break
-                if content_length <= 0 or k <= 0:
+                if content_length < 0 or k <= 0:
                     # If content-length has not been set, look for it in the received data package.
                     i = data.find(b'Content-Length:', 0, 512)
                     m = RX_CONTENT_LENGTH.match(data, i, i + 100) if i >= 0 else None
@@ -1668,7 +1669,7 @@ class Server:
                                 data = data[:k + content_length]
                         else:
                             k = len(data)
-                            content_length = 0
+                            content_length = -1
                     elif not incomplete_header(data):
                         # no header or no content-length given
                         # set `context_length` to the size of the data to break the loop
-- 
2.43.0


From c35d8a628755ee937b7139ade9d61584b5abaece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:55 +0000
Subject: [PATCH 45/51] fix: incomplete headers starting with Content-Type were
 not recognized as incomplete

---
 DHParser/server.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/DHParser/server.py b/DHParser/server.py
index 71873fe..e04cd29 100644
--- a/DHParser/server.py
+++ b/DHParser/server.py
@@ -319,8 +319,9 @@ def http_response(html: Union[str, bytes], mime_type: str = 'text/html') -> byte
 
 def incomplete_header(data: BytesType) -> bool:
     """Returns `True` if data appears to represent an incomplete header."""
-    return b'Content-Length'.startswith(data) or \
-           (data.startswith(b'Content-Length') and not re.search(RE_DATA_START, data))
+    return any(field.startswith(data) or
+               (data.startswith(field) and not re.search(RE_DATA_START, data))
+               for field in (b'Content-Length', b'Content-Type'))
 
 
 def split_header(data: BytesType) -> Tuple[BytesType, BytesType, BytesType]:
-- 
2.43.0


From c5903987c97964719525191d98411791b3d88155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:23 +0000
Subject: [PATCH 46/51] fix: messages that have already been received were lost
 or truncated if the stream ends

---
 DHParser/server.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/DHParser/server.py b/DHParser/server.py
index e04cd29..2d9fab5 100644
--- a/DHParser/server.py
+++ b/DHParser/server.py
@@ -1596,7 +1596,7 @@ class Server:
         def connection_alive() -> bool:
             """-> `False` if connection is dead or shall be shut down."""
             return not self.kill_switch and self.connection is not None \
-                   and self.connection.alive and not reader.at_eof()  # and not reader.closed
+                   and self.connection.alive and (buffer or not reader.at_eof())
 
         buffer = bytearray()  # type: bytearray
         while connection_alive():
@@ -1690,6 +1690,14 @@ class Server:
             if self.connection is None or not self.connection.alive:
                 break
 
+            if len(data) < content_length + k:
+                self.log('ERROR: connection was closed before the message was complete\n')
+                if not id_connection:
+                    writer.close()
+                    return
+                self.connection.alive = False
+                break
+
             if id_connection:
                 if self.connection.alive:
                     if not data and self.connection.reader.at_eof():
-- 
2.43.0


From 67e42d6dd1976a731dbf65275e4b97d970469da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:19 +0000
Subject: [PATCH 47/51] fix: Retrieve takes an auto-captured value back if the
 retrieval does not match

---
 DHParser/parse.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index fc2cbd8..da2e485 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -5027,7 +5027,8 @@ class Retrieve(ContextSensitive):
     @cython.locals(location_=cython.int)
     def _parse(self, location: cython.int) -> ParsingResult:
         # auto-capture on first use if symbol was not captured before
-        if len(self._grammar.variables__[self.symbol_pname]) == 0:
+        auto_captured = len(self._grammar.variables__[self.symbol_pname]) == 0
+        if auto_captured:
             node, location_ = self.parser(location)   # auto-capture value
             if node is None:
                 # set last_rb__loc__ to avoid memoizing of retrieved results
@@ -5035,6 +5036,9 @@ class Retrieve(ContextSensitive):
                     self._rollback_location(location, location_), lambda: None)
                 return None, location_
         node, location_ = self.retrieve_and_match(location)
+        if auto_captured and node is None:
+            # take the captured value back, before a rollback for an earlier location is pushed
+            self._grammar.rollback_to__(location)
         # set last_rb__loc__ to avoid memoizing of retrieved results
         self._grammar.push_rollback__(
             self._rollback_location(location, location_), lambda: None)
-- 
2.43.0


From 1a44fb66adcbe48d934f42ef30b4c838b1149690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:04 +0000
Subject: [PATCH 48/51] fix: Pop crashed if an exhausted variable was popped
 twice at the same place

---
 DHParser/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index da2e485..52ba355 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -5107,7 +5107,7 @@ class Pop(Retrieve):
     @cython.locals(location_=cython.int)
     def _parse(self, location: cython.int) -> ParsingResult:
         node, location_ = self.retrieve_and_match(location)
-        if node is not None and not id(node) in self._grammar.tree__.error_nodes:
+        if node is not None and self._grammar.variables__[self.symbol_pname]:
             self.values.append(self._grammar.variables__[self.symbol_pname].pop())
             self._grammar.push_rollback__(self._rollback_location(location, location_), self._rollback)
         else:
-- 
2.43.0


From 2eee4074a42bc4efecd37d9fab92a7efeaa4e388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:49 +0000
Subject: [PATCH 49/51] fix: IgnoreCase does not move past the end of the
 document

---
 DHParser/parse.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/DHParser/parse.py b/DHParser/parse.py
index 52ba355..d10586f 100644
--- a/DHParser/parse.py
+++ b/DHParser/parse.py
@@ -2738,8 +2738,8 @@ class IgnoreCase(Text):
     @cython.locals(location_=cython.int)
     @cython.returns((object, cython.int))
     def _parse(self, location: cython.int) -> ParsingResult:
-        location_ = location + self.len
-        comp_text = self._grammar.text__[location:location_]
+        comp_text = self._grammar.text__[location:location + self.len]
+        location_ = location + len(comp_text)  # may be less than self.len at the end of the document
         if comp_text.lower() == self.text:
             if self.drop_content:
                 return EMPTY_NODE, location_
-- 
2.43.0


From 763d3fbf4dd474066c7b2143513f79952bf85f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:34 +0000
Subject: [PATCH 50/51] fix: update_attr_unless failed with an AttributeError
 for a single source node and a condition

---
 DHParser/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/DHParser/transform.py b/DHParser/transform.py
index c36f246..3921231 100644
--- a/DHParser/transform.py
+++ b/DHParser/transform.py
@@ -948,7 +948,7 @@ def update_attr_unless(dest: Node,
         update_attr(dest, src, root)
     else:
         if isinstance(src, Node):
-            src = (Node,)
+            src = (src,)
         src = tuple(s for s in src if not exclude([s]))
         update_attr(dest, src, root)
 
-- 
2.43.0


From 17bca09a1dd3bd153ae95b19fde69b4ac745827a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:56 +0000
Subject: [PATCH 51/51] fix: S-expressions: attributes the names of which start
 with pos or err are not special

---
 DHParser/nodetree.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/DHParser/nodetree.py b/DHParser/nodetree.py
index a731a4a..6c2c64c 100644
--- a/DHParser/nodetree.py
+++ b/DHParser/nodetree.py
@@ -3378,11 +3378,12 @@ def parse_sxpr(sxpr: Union[str, StringView]) -> RootNode:
                 i = k + 1
             if k < 0:
                 raise ValueError('Unbalanced parantheses in S-Expression: ' + str(sxpr))
+            special = re.match(r'(?:pos|err)(?![\w.:-])', str(sxpr[L:L + 4]))
             # read very special attribute pos
-            if sxpr[L:L + 3] == "pos" and (L == 1 or 0 < k < i):
+            if special and sxpr[L:L + 3] == "pos" and (L == 1 or 0 < k < i):
                 pos = int(str(sxpr[L + 3:k].strip(' \'"').split(' ')[0]))
             # ignore very special attribute err
-            elif sxpr[L:L + 3] == "err" and 0 <= sxpr.find('`', L + 3) < k:
+            elif special and sxpr[L:L + 3] == "err" and 0 <= sxpr.find('`', L + 3) < k:
                 m = sxpr.find('(', L + 3)
                 while 0 <= m < k:
                     m = sxpr.find('(', k)
-- 
2.43.0

