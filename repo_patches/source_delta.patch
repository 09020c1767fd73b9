From eaa873713b8fb5cdf7be3ce888adce9383a909e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:11 +0000
Subject: [PATCH 001/153] fix: order dev, pre and post releases of a version as
 pep440 does

---
 pkm/src/pkm/api/versions/version.py | 40 +++++++++++++----------------
 1 file changed, 18 insertions(+), 22 deletions(-)

diff --git a/pkm/src/pkm/api/versions/version.py b/pkm/src/pkm/api/versions/version.py
index 74b6711..6fef9a4 100644
--- a/pkm/src/pkm/api/versions/version.py
+++ b/pkm/src/pkm/api/versions/version.py
@@ -254,6 +254,21 @@ class StandardVersion(Version):
         return VersionParser(txt.lower()).read_version()
 
 
+def _release_phase(v: StandardVersion) -> Tuple:
+    """
+    :return: sort key for versions sharing the same epoch and release segment (see pep440), in this order:
+        .devN, aN, bN, rcN, <no suffix>, .postN - each of which comes after its own .devN releases
+    """
+
+    dev, pre, post = v.dev_release, v.pre_release, v.post_release
+    if pre is not None:
+        pre_key = (0, *pre)
+    else:
+        pre_key = (-1,) if dev is not None and post is None else (1,)
+
+    return pre_key, -1 if post is None else post, (1,) if dev is None else (0, dev)
+
+
 def _less(v1: Version, v2: Version) -> bool:
     swap = False
 
@@ -288,28 +303,9 @@ def _less(v1: Version, v2: Version) -> bool:
             continue
         return s < o
 
-    if v1.dev_release != v2.dev_release:
-        if (v1.dev_release is None) ^ (v2.dev_release is None):
-            return v2.dev_release is None
-
-        if v1.dev_release != v2.dev_release:
-            return v1.dev_release < v2.dev_release
-
-    if v1.pre_release != v2.pre_release:
-        if (v1.pre_release is None) ^ (v2.pre_release is None):
-            return v2.pre_release is None
-
-        for s, o in zip(v1.pre_release, v2.pre_release):
-            if s == o: continue  # noqa
-            return s < o
-
-    if v1.post_release != v2.post_release:
-        if (v1.post_release is None) ^ (v2.post_release is None):
-            return v1.post_release is None
-
-        s, o = v1.post_release, v2.post_release
-        if s != o:
-            return s < o
+    phase1, phase2 = _release_phase(v1), _release_phase(v2)
+    if phase1 != phase2:
+        return phase1 < phase2
 
     my_local_segments = (v1.local_label or "").split('.')
     other_local_segments = (v2.local_label or "").split('.')
-- 
2.43.0


From 7039feb0dc551314ee48bd8ce19378d161949dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:11 +0000
Subject: [PATCH 002/153] fix: compare numeric segments of local version labels
 by their value

---
 pkm/src/pkm/api/versions/version.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/versions/version.py b/pkm/src/pkm/api/versions/version.py
index 6fef9a4..d3d60bf 100644
--- a/pkm/src/pkm/api/versions/version.py
+++ b/pkm/src/pkm/api/versions/version.py
@@ -316,7 +316,7 @@ def _less(v1: Version, v2: Version) -> bool:
 
         m_num, o_num = m.isnumeric(), o.isnumeric()
         if m_num and o_num:
-            return int(m_num) < int(o_num)
+            return int(m) < int(o)
         if m_num or o_num:
             return o_num
 
-- 
2.43.0


From 4446c25e45cc8aa7d7324505c28b18eecaa46a94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:11 +0000
Subject: [PATCH 003/153] fix: equal versions have equal hashes and do not
 compare as less than each other

---
 pkm/src/pkm/api/versions/version.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/api/versions/version.py b/pkm/src/pkm/api/versions/version.py
index d3d60bf..4573043 100644
--- a/pkm/src/pkm/api/versions/version.py
+++ b/pkm/src/pkm/api/versions/version.py
@@ -64,6 +64,9 @@ class UrlVersion(Version):
     def __eq__(self, other) -> bool:
         return isinstance(other, UrlVersion) and self.protocol == other.protocol and self.url == other.url
 
+    def __hash__(self):
+        return hash((self.protocol, self.url))
+
     def __str__(self):
         if self._protocol:
             return self._protocol + "+" + self.url
@@ -134,7 +137,7 @@ class StandardVersion(Version):
 
     def __hash__(self):
         s = self.standartize()
-        return hash((s.release, s.epoch, s.dev_release, s.post_release, s.pre_release, s.local_label))
+        return hash((s.release, s.epoch or 0, s.dev_release, s.post_release, s.pre_release, s.local_label))
 
     def is_pre_or_dev_release(self) -> bool:
         return self.pre_release is not None or self.dev_release is not None
@@ -278,7 +281,7 @@ def _less(v1: Version, v2: Version) -> bool:
         if swap: return not _less(v2, v1)  # noqa
 
         if isinstance(v2, UrlVersion):
-            return str(v1) < str(v2)
+            return (v1.protocol, v1.url) < (v2.protocol, v2.url)
 
         return True
 
-- 
2.43.0


From 15387c0522c78e243b91dae73916392ea8977388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:05 +0000
Subject: [PATCH 004/153] fix: parse all the release suffix spellings that
 pep440 accepts

---
 pkm/src/pkm/api/versions/version_parser.py | 47 +++++++++++++---------
 1 file changed, 29 insertions(+), 18 deletions(-)

diff --git a/pkm/src/pkm/api/versions/version_parser.py b/pkm/src/pkm/api/versions/version_parser.py
index 235a9f3..a70d46d 100644
--- a/pkm/src/pkm/api/versions/version_parser.py
+++ b/pkm/src/pkm/api/versions/version_parser.py
@@ -1,6 +1,6 @@
 from dataclasses import replace
 from pathlib import Path
-from typing import List
+from typing import List, Optional
 
 from pkm.api.versions.version import Version, NamedVersion, StandardVersion, UrlVersion
 from pkm.api.versions.version_specifiers import VersionSpecifier, AllowAllVersions, VersionMatch
@@ -24,12 +24,31 @@ def parse_specifier(specifier_str: str) -> VersionSpecifier:
 
 
 _PRE_RELEASE_TYPE_NORMALIZER = {
-    'a': 'a', 'b': 'b', 'rc': 'rc', 'c': 'rc', 'alpha': 'a', 'beta': 'b', 'preview': 'rc'
+    # keywords which are a prefix of another keyword must come after it
+    'alpha': 'a', 'a': 'a', 'beta': 'b', 'b': 'b', 'rc': 'rc', 'c': 'rc', 'preview': 'rc', 'pre': 'rc'
 }
 
 
 class VersionParser(SimpleParser):
 
+    def _match_release_keyword(self, *keywords: str) -> Optional[str]:
+        p = self.position
+        if self.peek_prev() != '.':  # the separator may already been consumed as part of the release
+            self.match_any('.', '-', '_')
+
+        if not (keyword := self.match_any(*keywords)):
+            self.position = p
+        return keyword
+
+    def _read_release_number(self) -> int:
+        p = self.position
+        self.match_any('.', '-', '_')
+
+        if not self.peek().isdigit():
+            self.position = p
+            return 0
+        return int(self.read_digits())
+
     def read_version(self) -> StandardVersion:
         self.match_ws()
 
@@ -49,26 +68,18 @@ class VersionParser(SimpleParser):
             release.append(int(self.read_digits()))
 
         pre_release = None
-        # pre_release_type = self.peek_prev() != '.' and self.match_any(*_PRE_RELEASE_TYPE_NORMALIZER.keys())
-        pre_release_type = self.match_any(*_PRE_RELEASE_TYPE_NORMALIZER.keys())
-        if pre_release_type:
-            self.match_any('.', '-', '_')
-            pre_release_num = 0 if not self.peek().isdigit() else int(self.read_digits())
-            pre_release = (_PRE_RELEASE_TYPE_NORMALIZER[pre_release_type], pre_release_num)
+        if pre_release_type := self._match_release_keyword(*_PRE_RELEASE_TYPE_NORMALIZER.keys()):
+            pre_release = (_PRE_RELEASE_TYPE_NORMALIZER[pre_release_type], self._read_release_number())
 
         post_release = None
-
-        if (prev := self.peek_prev()).isdigit() or prev in _PRE_RELEASE_TYPE_NORMALIZER:
-            self.match_any('.', '-', '_')
-        if self.match_any('post', 'r', 'rev') or (self.peek_prev() == '-' and self.peek().isdigit()):
-            self.match('-')
-            post_release = 0 if not self.peek().isdigit() else int(self.read_digits())
+        if self._match_release_keyword('post', 'rev', 'r'):
+            post_release = self._read_release_number()
+        elif self.peek() == '-' and self.peek(2)[1:].isdigit():
+            post_release = self._read_release_number()
 
         dev_release = None
-        if self.peek_prev().isdigit():
-            self.match_any('.', '-', '_')
-        if self.match('dev'):
-            dev_release = 0 if not self.peek().isdigit() else int(self.read_digits())
+        if self._match_release_keyword('dev'):
+            dev_release = self._read_release_number()
 
         local_label = None
         if self.match('+'):
-- 
2.43.0


From 36fecb49ac651fc124272b9c1ce49cb74b63d6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:30 +0000
Subject: [PATCH 005/153] fix: a text that only starts with a version is not
 parsed as that version

---
 pkm/src/pkm/api/versions/version_parser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/versions/version_parser.py b/pkm/src/pkm/api/versions/version_parser.py
index a70d46d..b7314c4 100644
--- a/pkm/src/pkm/api/versions/version_parser.py
+++ b/pkm/src/pkm/api/versions/version_parser.py
@@ -13,7 +13,10 @@ def parse_version(version_str: str) -> Version:
         if '://' in lowered_vstr:
             return UrlVersion.parse(lowered_vstr)
 
-        return VersionParser(lowered_vstr).read_version()
+        parser = VersionParser(lowered_vstr)
+        version = parser.read_version()
+        if parser.is_empty():
+            return version
     except ValueError:
         ...
     return NamedVersion(version_str)
-- 
2.43.0


From b478876d15da88db600d77553a582f6dcf155419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:30 +0000
Subject: [PATCH 006/153] fix: union of version ranges where one contains the
 other

---
 pkm/src/pkm/api/versions/version_specifiers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/api/versions/version_specifiers.py b/pkm/src/pkm/api/versions/version_specifiers.py
index 18408b6..9ea1392 100644
--- a/pkm/src/pkm/api/versions/version_specifiers.py
+++ b/pkm/src/pkm/api/versions/version_specifiers.py
@@ -561,16 +561,18 @@ class StandardVersionRange(VersionSpecifier):
         if other < self:
             return other._union_with(self)
 
-        imin, imax = self.includes_min, other.includes_max
+        imin, max_, imax = self.includes_min, other.max, other.includes_max
         if not other.min or not self.max or other.min < self.max:
             if self.min == other.min:
                 imin = self.includes_min or other.includes_min
             if self.max == other.max:
                 imax = self.includes_max or other.includes_max
+            elif not self.max or (other.max and other.max < self.max):
+                max_, imax = self.max, self.includes_max
         elif (not self.includes_max and not other.includes_min) or other.min != self.max:
             return VersionsUnion([self, other])
 
-        return VersionSpecifier.create_range(self.min, other.max, imin, imax)
+        return VersionSpecifier.create_range(self.min, max_, imin, imax)
 
     def union_with(self, other: VersionSpecifier) -> VersionSpecifier:
         if isinstance(other, (_RestrictAll, _AllowAll, VersionsUnion, HetroVersionIntersection, VersionMatch)):
-- 
2.43.0


From f43d9d309d7a12cf40f162d136e84a940e2f6931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:28 +0000
Subject: [PATCH 007/153] fix: union of version specifiers must not empty its
 operand, and may end up with a single segment

---
 pkm/src/pkm/api/versions/version_specifiers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/api/versions/version_specifiers.py b/pkm/src/pkm/api/versions/version_specifiers.py
index 9ea1392..a4aa9fd 100644
--- a/pkm/src/pkm/api/versions/version_specifiers.py
+++ b/pkm/src/pkm/api/versions/version_specifiers.py
@@ -207,7 +207,7 @@ class VersionsUnion(VersionSpecifier):
             return other.union_with(self)
 
         new_segments = [*self.segments]
-        other_segments = other.segments if isinstance(other, VersionsUnion) else [other]
+        other_segments = [*other.segments] if isinstance(other, VersionsUnion) else [other]
 
         while other_segments:
             os = other_segments.pop()
@@ -224,7 +224,7 @@ class VersionsUnion(VersionSpecifier):
             else:
                 new_segments.append(os)
 
-        return VersionsUnion(new_segments)
+        return VersionsUnion(new_segments) if len(new_segments) > 1 else new_segments[0]
 
     def intersect_with(self, other: VersionSpecifier) -> VersionSpecifier:
         if isinstance(other, (_AllowAll, _RestrictAll)):
-- 
2.43.0


From 04f5c3f7aee8b2b2b455f3f43a72a7ea3ccfde4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:36 +0000
Subject: [PATCH 008/153] fix: set operations on version specifiers agree with
 the versions the specifiers allow

---
 .../pkm/api/versions/version_specifiers.py    | 116 +++++++++---------
 1 file changed, 61 insertions(+), 55 deletions(-)

diff --git a/pkm/src/pkm/api/versions/version_specifiers.py b/pkm/src/pkm/api/versions/version_specifiers.py
index a4aa9fd..fc8a8ae 100644
--- a/pkm/src/pkm/api/versions/version_specifiers.py
+++ b/pkm/src/pkm/api/versions/version_specifiers.py
@@ -14,7 +14,13 @@ from pkm.utils.seqs import seq
 class VersionSpecifier(ABC):
 
     def allows_all(self, other: VersionSpecifier) -> bool:
-        return self.intersect_with(other) == other
+        if isinstance(other, VersionsUnion):
+            return all(self.allows_all(segment) for segment in other.segments)
+
+        if isinstance(other, VersionMatch) and other.allow and not isinstance(other.version, StandardVersion):
+            return self.allows_version(other.version)
+
+        return other.difference_from(self) is RestrictAllVersions
 
     def allows_any(self, other: VersionSpecifier) -> bool:
         return self.intersect_with(other) is not RestrictAllVersions
@@ -107,7 +113,7 @@ class _RestrictAll(VersionSpecifier):
         return False
 
     def allows_all(self, other: VersionSpecifier) -> bool:
-        return False
+        return other is RestrictAllVersions
 
     def __str__(self):
         return "<none>"
@@ -135,9 +141,6 @@ class _AllowAll(VersionSpecifier):
         return other is AllowAllVersions
 
     def allows_all(self, other: VersionSpecifier) -> bool:
-        if other is RestrictAllVersions:
-            return other.allows_all(self)
-
         return True
 
     def allows_any(self, other: VersionSpecifier) -> bool:
@@ -253,39 +256,28 @@ class HetroVersionIntersection(VersionSpecifier):
         return HashBuilder().unordered_seq(self.blacklist).regular(self.standard_spec).build()
 
     def allows_version(self, version: Version) -> bool:
-        if version in self.blacklist:
-            return False
-
-        return not isinstance(version, StandardVersion) or self.standard_spec.allows_version(version)
+        return self.standard_spec.allows_version(version) \
+               and all(VersionMatch(it, False).allows_version(version) for it in self.blacklist)
 
     def union_with(self, other: VersionSpecifier) -> VersionSpecifier:
         if isinstance(other, (_RestrictAll, _AllowAll, VersionsUnion)):
             return other.union_with(self)
 
         if isinstance(other, HetroVersionIntersection):
-            standard_spec = self.standard_spec.union_with(other.standard_spec)
-            if len(other.blacklist.union(self.blacklist)) != len(self.blacklist):
-                return standard_spec
-
-            return HetroVersionIntersection.create(
-                self.blacklist if len(self.blacklist) < len(other.blacklist) else other.blacklist, standard_spec)
-
-        if isinstance(other, VersionMatch):
-            if isinstance(other.version, StandardVersion) and other.allow:
-                return HetroVersionIntersection.create(self.blacklist, self.standard_spec.union_with(other))
-
-            blacklist = set(self.blacklist)
-            if other.allow:
-                blacklist.remove(other.version)
-            else:
-                blacklist.add(other.version)
-
-            return HetroVersionIntersection.create(blacklist, self.standard_spec)
-
-        if isinstance(other, StandardVersionRange):
-            return HetroVersionIntersection.create(self.blacklist, self.standard_spec.union_with(other))
+            other_blacklist, other_spec = other.blacklist, other.standard_spec
+        elif isinstance(other, VersionMatch) and not other.allow:
+            other_blacklist, other_spec = {other.version}, AllowAllVersions
+        else:
+            other_blacklist, other_spec = set(), other
+
+        standard_spec = self.standard_spec.union_with(other_spec)
+        if isinstance(standard_spec, VersionsUnion):
+            return VersionsUnion([self, other])
 
-        raise UnsupportedOperationException()
+        return HetroVersionIntersection.create(
+            {it for it in self.blacklist.union(other_blacklist)
+             if not self.allows_version(it) and not other.allows_version(it)},
+            standard_spec)
 
     def intersect_with(self, other: VersionSpecifier) -> VersionSpecifier:
         if isinstance(other, (_RestrictAll, _AllowAll, VersionsUnion)):
@@ -296,15 +288,14 @@ class HetroVersionIntersection(VersionSpecifier):
                 self.blacklist.union(other.blacklist), self.standard_spec.intersect_with(other.standard_spec))
 
         if isinstance(other, VersionMatch):
-            if isinstance(other.version, StandardVersion) and other.allow:
-                if self.standard_spec.allows_version(other.version) and other.version not in self.blacklist:
-                    return other
-                return RestrictAllVersions
-
             if other.allow:
-                if other.version in self.blacklist:
+                if not self.standard_spec.allows_version(other.version):
                     return RestrictAllVersions
-                return other
+
+                result = other
+                for it in self.blacklist:
+                    result = result.intersect_with(VersionMatch(it, False))
+                return result
 
             return HetroVersionIntersection.create({*self.blacklist, other.version}, self.standard_spec)
 
@@ -314,10 +305,10 @@ class HetroVersionIntersection(VersionSpecifier):
         raise UnsupportedOperationException()
 
     def inverse(self) -> VersionSpecifier:
-        union = [*(VersionMatch(it) for it in self.blacklist)]
-        if self.standard_spec is not AllowAllVersions:
-            union.append(self.standard_spec.inverse())
-        return VersionsUnion(union)
+        result = self.standard_spec.inverse()
+        for it in self.blacklist:
+            result = result.union_with(VersionMatch(it))
+        return result
 
     def __str__(self) -> str:
         result = ", ".join(f"!={it}" for it in self.blacklist)
@@ -350,10 +341,12 @@ class HetroVersionIntersection(VersionSpecifier):
 
     @classmethod
     def create(cls, blacklist: Set[Version], standard_spec: VersionSpecifier) -> VersionSpecifier:
-        blacklist = {it for it in blacklist if not isinstance(it, StandardVersion) or standard_spec.allows_version(it)}
+        blacklist = {it for it in blacklist if standard_spec.allows_version(it)}
 
         if standard_spec is RestrictAllVersions:
             return RestrictAllVersions
+        if isinstance(standard_spec, VersionMatch) and standard_spec.allow and standard_spec.version in blacklist:
+            return RestrictAllVersions
         if len(blacklist) == 0:
             return standard_spec
         if len(blacklist) == 1 and standard_spec is AllowAllVersions:
@@ -423,9 +416,20 @@ class VersionMatch(VersionSpecifier):
             if self == other:
                 return self
 
-            if self.version == other.version:
-                if self.allow != other.allow:
-                    return AllowAllVersions
+            if not self.allow and not other.allow:
+                return self.inverse().intersect_with(other.inverse()).inverse()
+
+            if not self.allow:
+                return other.union_with(self)
+
+            if not other.allow and self.allows_version(other.version):
+                return AllowAllVersions
+
+            if other.allows_version(self.version):
+                return other
+
+            if other.allow and self.allows_version(other.version):
+                return self
 
         if isinstance(other, StandardVersionRange):
             if other.allows_version(self.version):
@@ -449,18 +453,17 @@ class VersionMatch(VersionSpecifier):
             if self == other:
                 return self
 
-            my_ver, ot_ver = self.version, other.version
-            if my_ver.is_local() != ot_ver.is_local():
-                my_ver, ot_ver = my_ver.without_local(), ot_ver.without_local()
-
             if self.allow and other.allow:
-                if my_ver == ot_ver:
-                    return self if self.version.is_local() else other
-                return RestrictAllVersions
+                if other.allows_version(self.version):
+                    return self
+                return other if self.allows_version(other.version) else RestrictAllVersions
+
             if self.allow or other.allow:
-                if my_ver == ot_ver:
+                allowed, disallowed = (self, other) if self.allow else (other, self)
+                if not disallowed.allows_version(allowed.version):
                     return RestrictAllVersions
-                return self if self.allow else other
+                return HetroVersionIntersection.create({disallowed.version}, allowed)
+
             return HetroVersionIntersection({self.version, other.version}, AllowAllVersions)
 
         if isinstance(other, StandardVersionRange) and isinstance(self.version, StandardVersion):
@@ -618,6 +621,9 @@ class StandardVersionRange(VersionSpecifier):
         raise NotImplemented()
 
     def allows_version(self, version: Version) -> bool:
+        if not isinstance(version, StandardVersion):
+            return False
+
         min_, max_ = self.min, self.max
         if (min_ is not None and self.includes_min and min_ == version) \
                 or (max_ is not None and self.includes_max and max_ == version):
-- 
2.43.0


From 243899a87c52b47fc87fb18f5e4e72c7dd1caefa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:19 +0000
Subject: [PATCH 009/153] fix: render a version range as ~= only if it is
 exactly that range

---
 pkm/src/pkm/api/versions/version_specifiers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/versions/version_specifiers.py b/pkm/src/pkm/api/versions/version_specifiers.py
index fc8a8ae..006a502 100644
--- a/pkm/src/pkm/api/versions/version_specifiers.py
+++ b/pkm/src/pkm/api/versions/version_specifiers.py
@@ -539,7 +539,7 @@ class StandardVersionRange(VersionSpecifier):
         if self.includes_min and (not self.includes_max) \
                 and self.min and self.max \
                 and len(smr := self.min.release) > 1 \
-                and self.max.release == (*smr[:-2], smr[-2] + 1, 0):
+                and self.max == StandardVersion((*smr[:-2], smr[-2] + 1, 0), epoch=self.min.epoch):
 
             return f"~={self.min}"
 
-- 
2.43.0


From c1fcdb6fc6de8a80f6b3e9d5dea97cedbbac5c90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:52 +0000
Subject: [PATCH 010/153] fix: keep the letter case of urls and named versions

---
 pkm/src/pkm/api/versions/version.py        |  7 ++++---
 pkm/src/pkm/api/versions/version_parser.py | 18 ++++++++++--------
 2 files changed, 14 insertions(+), 11 deletions(-)

diff --git a/pkm/src/pkm/api/versions/version.py b/pkm/src/pkm/api/versions/version.py
index 4573043..701b25d 100644
--- a/pkm/src/pkm/api/versions/version.py
+++ b/pkm/src/pkm/api/versions/version.py
@@ -77,9 +77,10 @@ class UrlVersion(Version):
 
     @classmethod
     def parse(cls, txt: str) -> UrlVersion:
-        match = VERSION_URL_RX.match(txt.lower())
+        match = VERSION_URL_RX.match(txt)
         parsed_url = Url.parse(match.group('url'))
-        return cls(match.group('url'), match.group('repo'), parsed_url.scheme)
+        protocol = match.group('repo')
+        return cls(match.group('url'), protocol and protocol.lower(), parsed_url.scheme)
 
 
 @dataclass(frozen=True)
@@ -254,7 +255,7 @@ class StandardVersion(Version):
     @classmethod
     def parse(cls, txt: str) -> "StandardVersion":
         from pkm.api.versions.version_parser import VersionParser
-        return VersionParser(txt.lower()).read_version()
+        return VersionParser(txt).read_version()
 
 
 def _release_phase(v: StandardVersion) -> Tuple:
diff --git a/pkm/src/pkm/api/versions/version_parser.py b/pkm/src/pkm/api/versions/version_parser.py
index b7314c4..2c8460f 100644
--- a/pkm/src/pkm/api/versions/version_parser.py
+++ b/pkm/src/pkm/api/versions/version_parser.py
@@ -9,11 +9,10 @@ from pkm.utils.parsers import SimpleParser
 
 def parse_version(version_str: str) -> Version:
     try:
-        lowered_vstr = version_str.lower()
-        if '://' in lowered_vstr:
-            return UrlVersion.parse(lowered_vstr)
+        if '://' in version_str:
+            return UrlVersion.parse(version_str)
 
-        parser = VersionParser(lowered_vstr)
+        parser = VersionParser(version_str)
         version = parser.read_version()
         if parser.is_empty():
             return version
@@ -23,7 +22,7 @@ def parse_version(version_str: str) -> Version:
 
 
 def parse_specifier(specifier_str: str) -> VersionSpecifier:
-    return VersionParser(specifier_str.lower()).read_specifier()
+    return VersionParser(specifier_str).read_specifier()
 
 
 _PRE_RELEASE_TYPE_NORMALIZER = {
@@ -39,8 +38,11 @@ class VersionParser(SimpleParser):
         if self.peek_prev() != '.':  # the separator may already been consumed as part of the release
             self.match_any('.', '-', '_')
 
-        if not (keyword := self.match_any(*keywords)):
+        if not (keyword := next((it for it in keywords if self.peek(len(it)).lower() == it), None)):
             self.position = p
+            return None
+
+        self.position += len(keyword)
         return keyword
 
     def _read_release_number(self) -> int:
@@ -58,7 +60,7 @@ class VersionParser(SimpleParser):
         wrapping_brakets = self.match("(", "")
         wrapping_quotes = self.match("'", "") or self.match("\"", "")
 
-        self.match('v')
+        self.match_any('v', 'V')
 
         epoch = None
         n = self.read_digits()
@@ -87,7 +89,7 @@ class VersionParser(SimpleParser):
         local_label = None
         if self.match('+'):
             local_label = self.until(lambda i, s: s[i] not in ".-_" and not s[i].isalnum())
-            local_label = local_label.translate(local_label.maketrans('-_', '..'))
+            local_label = local_label.lower().translate(local_label.maketrans('-_', '..'))
 
         if self.peek_prev() == '.':
             self.position -= 1
-- 
2.43.0


From c328b26e3cda935f075d80d6f7d6dc1531a1b99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:54 +0000
Subject: [PATCH 011/153] fix: an arbitrary equality specifier (===) allows the
 standard version it names

---
 pkm/src/pkm/api/versions/version_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/versions/version_parser.py b/pkm/src/pkm/api/versions/version_parser.py
index 2c8460f..892b01b 100644
--- a/pkm/src/pkm/api/versions/version_parser.py
+++ b/pkm/src/pkm/api/versions/version_parser.py
@@ -123,7 +123,7 @@ class VersionParser(SimpleParser):
         if self.match('==='):
             self.match_ws()
             version_str = self.until(lambda i, t: t[i].isspace() or t[i] == ',')
-            return VersionMatch(NamedVersion(version_str))
+            return VersionMatch(parse_version(version_str))
 
         exclusion_inclusion = self.match_any('==', '!=')
         if exclusion_inclusion:
-- 
2.43.0


From eb29ce2571bd6b551b52a368a02f697b710e7151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:21 +0000
Subject: [PATCH 012/153] fix: accept the letter J in the strings of
 environment markers

---
 pkm/src/pkm/api/dependencies/env_markers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/dependencies/env_markers.py b/pkm/src/pkm/api/dependencies/env_markers.py
index 8c98a18..3b62355 100644
--- a/pkm/src/pkm/api/dependencies/env_markers.py
+++ b/pkm/src/pkm/api/dependencies/env_markers.py
@@ -33,7 +33,7 @@ class EnvironmentMarker:
 
 
 _MARKER_STR_CHARS = set(
-    ' \t0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIZKLMNOPQRSTUVWXYZ().{}-_*#:;,/?[]!`~@$%^&=+|<>')
+    ' \t0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ().{}-_*#:;,/?[]!`~@$%^&=+|<>')
 
 
 class PEP508EnvMarkerParser(SimpleParser):
-- 
2.43.0


From d4e7744dfa0f9fbb4fb4fc1f8c2fe92903629abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:33 +0000
Subject: [PATCH 013/153] fix: compare environment markers as strings when they
 are not versions, support === and extra !=

---
 pkm/src/pkm/api/dependencies/env_markers.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/pkm/src/pkm/api/dependencies/env_markers.py b/pkm/src/pkm/api/dependencies/env_markers.py
index 3b62355..e100db3 100644
--- a/pkm/src/pkm/api/dependencies/env_markers.py
+++ b/pkm/src/pkm/api/dependencies/env_markers.py
@@ -1,6 +1,6 @@
 from typing import Callable, Optional, List, Sequence, TYPE_CHECKING
 
-from pkm.api.versions.version import Version
+from pkm.api.versions.version import StandardVersion, Version
 from pkm.api.versions.version_specifiers import VersionSpecifier
 from pkm.utils.parsers import SimpleParser
 
@@ -64,18 +64,24 @@ class PEP508EnvMarkerParser(SimpleParser):
             return lambda e, x: e.markers[v_ident]
 
     def _read_marker_op(self) -> _MARKER_OP_T:
-        version_or_string_op = self.match_any("<=", "<", ">=", ">", "!=", "==", "===", "~=")
+        version_or_string_op = self.match_any("<=", "<", ">=", ">", "!=", "===", "==", "~=")
         if version_or_string_op:
             def _op(a: Sequence[str], b: Sequence[str]) -> bool:
 
-                if version_or_string_op in ('==', '==='):
+                if version_or_string_op in ('==', '===', '!='):
+                    positive = version_or_string_op != '!='
                     if isinstance(a, _EXTRAS_COLLECTION_T):
-                        return b in a
+                        return (b in a) is positive
                     elif isinstance(b, _EXTRAS_COLLECTION_T):
-                        return a in b
+                        return (a in b) is positive
+
+                if version_or_string_op == '===':
+                    return str(a) == str(b)
 
                 try:
-                    a_ver = Version.parse(str(a))
+                    a_ver, b_ver = Version.parse(str(a)), Version.parse(b[:-2] if b.endswith(".*") else b)
+                    if not isinstance(a_ver, StandardVersion) or not isinstance(b_ver, StandardVersion):
+                        raise ValueError(f"not versions: {a}, {b}")
                     spec = VersionSpecifier.parse(f"{version_or_string_op} {b}")
                     return spec.allows_version(a_ver)
                 except ValueError:
-- 
2.43.0


From cfcc3949076976599d2e65bfdb085f0f5ae7a089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:33 +0000
Subject: [PATCH 014/153] fix: report an environment marker that misses an
 operand as a parsing error

---
 pkm/src/pkm/api/dependencies/env_markers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/dependencies/env_markers.py b/pkm/src/pkm/api/dependencies/env_markers.py
index e100db3..4f70988 100644
--- a/pkm/src/pkm/api/dependencies/env_markers.py
+++ b/pkm/src/pkm/api/dependencies/env_markers.py
@@ -52,7 +52,7 @@ class PEP508EnvMarkerParser(SimpleParser):
         return content
 
     def _read_marker_var(self) -> _MARKER_GET_T:
-        if self.peek() in '"\'':
+        if self.peek() in ('"', "'"):
             v_str = self._read_str()
             return lambda e, x: v_str
         else:
-- 
2.43.0


From c22f32a8e354a5ac42c68fad30e95c091d52354b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:08 +0000
Subject: [PATCH 015/153] fix: accept package names and extras that start with
 a digit in a dependency

---
 pkm/src/pkm/api/dependencies/dependency.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/dependencies/dependency.py b/pkm/src/pkm/api/dependencies/dependency.py
index da92f0b..255b129 100644
--- a/pkm/src/pkm/api/dependencies/dependency.py
+++ b/pkm/src/pkm/api/dependencies/dependency.py
@@ -91,7 +91,7 @@ class PEP508DependencyParser(SimpleParser):
         return self.subparser(VersionParser).read_specifier()
 
     def _read_identifier(self) -> str:
-        if (p := self.peek()).isalpha() or p == '_':
+        if (p := self.peek()).isalnum() or p == '_':
             return self.until(lambda i, t: not t[i].isalnum() and t[i] not in '_-.')
         self.raise_err('expecting identifier')
 
-- 
2.43.0


From 2269fea6dd1eb806e2b74fd9d38f73d6c47521ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:08 +0000
Subject: [PATCH 016/153] fix: accept an empty extras list in a dependency

---
 pkm/src/pkm/api/dependencies/dependency.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/dependencies/dependency.py b/pkm/src/pkm/api/dependencies/dependency.py
index 255b129..034bc03 100644
--- a/pkm/src/pkm/api/dependencies/dependency.py
+++ b/pkm/src/pkm/api/dependencies/dependency.py
@@ -76,7 +76,8 @@ class PEP508DependencyParser(SimpleParser):
         self.match_or_err('[', 'expecting extras start ([)')
         extras: List[str] = []
 
-        while self.is_not_empty():
+        self.match_ws()
+        while self.is_not_empty() and self.peek() != ']':
             self.match_ws()
             extras.append(self._read_identifier())
             self.match_ws()
-- 
2.43.0


From 537285fd2402fc04f48f57d71dc0e9648cdc91f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:10 +0000
Subject: [PATCH 017/153] fix: report unknown environment marker variables as a
 parsing error

---
 pkm/src/pkm/api/dependencies/env_markers.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pkm/src/pkm/api/dependencies/env_markers.py b/pkm/src/pkm/api/dependencies/env_markers.py
index 4f70988..74a8d60 100644
--- a/pkm/src/pkm/api/dependencies/env_markers.py
+++ b/pkm/src/pkm/api/dependencies/env_markers.py
@@ -36,6 +36,12 @@ _MARKER_STR_CHARS = set(
     ' \t0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ().{}-_*#:;,/?[]!`~@$%^&=+|<>')
 
 
+_MARKER_VARIABLES = {
+    'os_name', 'sys_platform', 'platform_machine', 'platform_python_implementation', 'platform_release',
+    'platform_system', 'platform_version', 'python_version', 'python_full_version', 'implementation_name',
+    'implementation_version'}
+
+
 class PEP508EnvMarkerParser(SimpleParser):
 
     def _read_identifier(self) -> str:
@@ -61,6 +67,9 @@ class PEP508EnvMarkerParser(SimpleParser):
             if v_ident == 'extra':
                 return lambda e, x: x
 
+            if v_ident not in _MARKER_VARIABLES:
+                self.raise_err(f'unknown environment marker variable: {v_ident}')
+
             return lambda e, x: e.markers[v_ident]
 
     def _read_marker_op(self) -> _MARKER_OP_T:
-- 
2.43.0


From 7f0fb7c0a3ee57d036c456fa8defae8c302093d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:21 +0000
Subject: [PATCH 018/153] fix: reject text that follows a complete environment
 marker

---
 pkm/src/pkm/api/dependencies/env_markers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/dependencies/env_markers.py b/pkm/src/pkm/api/dependencies/env_markers.py
index 74a8d60..a4b1b34 100644
--- a/pkm/src/pkm/api/dependencies/env_markers.py
+++ b/pkm/src/pkm/api/dependencies/env_markers.py
@@ -29,7 +29,11 @@ class EnvironmentMarker:
 
     @classmethod
     def parse_pep508(cls, text: str) -> "EnvironmentMarker":
-        return PEP508EnvMarkerParser(text).read_marker()
+        parser = PEP508EnvMarkerParser(text)
+        result = parser.read_marker()
+        if parser.is_not_empty():
+            parser.raise_err('unexpected text after the environment marker')
+        return result
 
 
 _MARKER_STR_CHARS = set(
-- 
2.43.0


From 68a7be5911e2b76a07c67384e5fe41d0f6cab255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:18 +0000
Subject: [PATCH 019/153] fix: names that differ only in runs of separators are
 the same package

---
 pkm/src/pkm/api/packages/package.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/packages/package.py b/pkm/src/pkm/api/packages/package.py
index 7e4c57f..d966ae1 100644
--- a/pkm/src/pkm/api/packages/package.py
+++ b/pkm/src/pkm/api/packages/package.py
@@ -69,7 +69,7 @@ class PackageDescriptor:
 
     @staticmethod
     def package_name_key(package_name: str) -> str:
-        return PackageDescriptor.normalize_src_package_name(package_name).lower()
+        return re.sub('_+', '_', PackageDescriptor.normalize_src_package_name(package_name)).lower()
 
     @staticmethod
     def normalize_src_package_name(package_name: str) -> str:
-- 
2.43.0


From a3cd8e11ced2cdb1927a4ba8cbe59494795515bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:57 +0000
Subject: [PATCH 020/153] fix: printed dependencies keep the marker apart from
 a url or an arbitrary version

---
 pkm/src/pkm/api/dependencies/dependency.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/dependencies/dependency.py b/pkm/src/pkm/api/dependencies/dependency.py
index 034bc03..17d889d 100644
--- a/pkm/src/pkm/api/dependencies/dependency.py
+++ b/pkm/src/pkm/api/dependencies/dependency.py
@@ -58,7 +58,8 @@ class Dependency:
 
         version_str = "" if self.version_spec is AllowAllVersions else f" {str(self.version_spec)}"
 
-        marker_str = f";{self.env_marker}" if self.env_marker else ''
+        # the space separates the marker from versions that extend to the next space (urls and === versions)
+        marker_str = f" ;{self.env_marker}" if self.env_marker else ''
 
         return f"{self.package_name}{extras_str}{version_str}{marker_str}"
 
-- 
2.43.0


From 79bc278e51818ad49d125453c9a728cd775f0c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:57 +0000
Subject: [PATCH 021/153] fix: dependencies with extras are hashable

---
 pkm/src/pkm/api/dependencies/dependency.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/api/dependencies/dependency.py b/pkm/src/pkm/api/dependencies/dependency.py
index 17d889d..c6a01d5 100644
--- a/pkm/src/pkm/api/dependencies/dependency.py
+++ b/pkm/src/pkm/api/dependencies/dependency.py
@@ -1,6 +1,6 @@
 from __future__ import annotations
 
-from dataclasses import dataclass, replace
+from dataclasses import dataclass, field, replace
 from typing import Optional, List, TYPE_CHECKING
 
 from pkm.api.dependencies.env_markers import PEP508EnvMarkerParser, EnvironmentMarker
@@ -26,7 +26,7 @@ class Dependency:
 
     package_name: str
     version_spec: VersionSpecifier = AllowAllVersions
-    extras: Optional[List[str]] = None
+    extras: Optional[List[str]] = field(default=None, hash=False)
     env_marker: Optional[EnvironmentMarker] = None
 
     @cached_property
-- 
2.43.0


From 2b8e12edf147a5940c3bcc8ae42da639dbb5d346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:40 +0000
Subject: [PATCH 022/153] fix: all the dependencies of a version on the same
 package must hold

---
 pkm/src/pkm/resolution/pubgrub.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/resolution/pubgrub.py b/pkm/src/pkm/resolution/pubgrub.py
index d877a77..f68054f 100644
--- a/pkm/src/pkm/resolution/pubgrub.py
+++ b/pkm/src/pkm/resolution/pubgrub.py
@@ -479,9 +479,14 @@ class _PackageVersion:
     def fetch_dependencies_info(self, problem: Problem):
         if not self.dependencies:
             version_dependencies = problem.get_dependencies(self.term.package, self.version)
+            terms: Dict[PKG, List[Term]] = defaultdict(list)
+            for d in version_dependencies:
+                terms[d.package].append(d)
+
+            # a version may have several dependencies on the same package, all of them must hold
             self.dependencies = {
-                d.package: PackageDependency(d)
-                for d in version_dependencies}
+                package: PackageDependency(Term.join(package, package_terms))
+                for package, package_terms in terms.items()}
 
     def compute_incompatibilities(self) -> List[Incompatibility]:
         result: List[Incompatibility] = []
-- 
2.43.0


From 461254549fe9cb5ecc5f9da267c3457ff538bd7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:47 +0000
Subject: [PATCH 023/153] fix: the solver tells packages that are not selected
 from versions that are not allowed

terms had no notion of a package that is not selected, conflict resolution learned
incompatibilities that did not follow, and known incompatibilities were changed in place:
solvable problems were reported as unsolvable, ended in assertion errors or never ended
---
 pkm/src/pkm/resolution/pubgrub.py | 179 +++++++++++-------------------
 1 file changed, 63 insertions(+), 116 deletions(-)

diff --git a/pkm/src/pkm/resolution/pubgrub.py b/pkm/src/pkm/resolution/pubgrub.py
index f68054f..0d6824f 100644
--- a/pkm/src/pkm/resolution/pubgrub.py
+++ b/pkm/src/pkm/resolution/pubgrub.py
@@ -41,19 +41,29 @@ class MalformedPackageException(Exception):
 
 @dataclass(frozen=True)
 class Term:
+    """
+    a statement about the selected version of `package`: it is one of the versions allowed by `constraint`
+    or, in `optional` terms (i.e., the negation of non-optional ones), the package is not selected at all.
+    """
+
     package: PKG
     constraint: VersionSpecifier
+    optional: bool = False
 
     def negate(self) -> "Term":
-        return Term(self.package, self.constraint.inverse())
+        return Term(self.package, self.constraint.inverse(), not self.optional)
 
     def intersect(self, other: "Term") -> "Term":
         assert self.package == other.package, 'cannot intersect terms of different packages'
-        return Term(self.package, self.constraint.intersect_with(other.constraint))
+        return Term(self.package, self.constraint.intersect_with(other.constraint), self.optional and other.optional)
 
-    def satisfies(self, constraint: VersionSpecifier) -> bool:
+    def satisfies(self, term: "Term") -> bool:
         """self ⊆ term"""
-        return constraint.allows_all(self.constraint)
+        return (term.optional or not self.optional) and term.constraint.allows_all(self.constraint)
+
+    def contradicts(self, term: "Term") -> bool:
+        """self ∩ term = ∅"""
+        return not (self.optional and term.optional) and not term.constraint.allows_any(self.constraint)
 
     @classmethod
     def join(cls, package: PKG, terms: Iterable["Term"]) -> "Term":
@@ -67,14 +77,13 @@ class Term:
         if not next_term:
             return first_term
 
-        package = first_term.package
-        constraint = first_term.constraint
+        result = first_term
 
         while next_term is not None:
-            constraint = constraint.intersect_with(next_term.constraint)
+            result = result.intersect(next_term)
             next_term = next(terms_iter, None)
 
-        return cls(package, constraint)
+        return result
 
     def __repr__(self):
         return f"[{self.package} {self.constraint}]"
@@ -90,7 +99,7 @@ class Assignment:
     decision_level: int
     order_index: int
     cause: Optional["Incompatibility"]
-    accumulated: VersionSpecifier
+    accumulated: Term
 
     def is_decision(self) -> bool:
         return self.cause is None
@@ -104,16 +113,19 @@ class PartialSolution:
         self._root_package = root_package
         self._assignments_by_order: List[Assignment] = []
         self.assignments_by_package: DefaultDict[PKG, List[Assignment]] = defaultdict(list)
-        self._required_packages: Dict[PKG, int] = {}
         self._decisions: Dict[PKG, Assignment] = {}
 
     def notify_state(self, current_package: PKG, monitor: DependencyResolutionMonitoredOp):
         # noinspection PyTypeChecker
-        DependencyResolutionIterationEvent(self._decisions.keys(), self._required_packages.keys(), current_package) \
+        DependencyResolutionIterationEvent(self._decisions.keys(), self._required_packages(), current_package) \
             .notify(monitor)
 
+    def _required_packages(self) -> List[PKG]:
+        return [package for package, assignments in self.assignments_by_package.items()
+                if assignments and not assignments[-1].accumulated.optional]
+
     def undecided_packages(self) -> List[PKG]:
-        return [req for req in self._required_packages if req not in self._decisions]
+        return [req for req in self._required_packages() if req not in self._decisions]
 
     def requirement_decision_level(self, package: PKG) -> int:
         """
@@ -121,19 +133,13 @@ class PartialSolution:
         :param package: the package to check
         :return: the decision level if the package is required, otherwise -1
         """
-        return self._required_packages.get(package) or -1
+        requirement = find_first(self.assignments_by_package[package], lambda it: not it.accumulated.optional)
+        return requirement.decision_level if requirement else -1
 
     @property
     def _decision_level(self) -> int:
         return max(0, len(self._decisions) - 1)
 
-    def requiering_decision(self, package: PKG):
-        decision_level = self._required_packages[package]
-        result = next((acc for acc in self._decisions.values() if acc.decision_level == decision_level), None)
-        assert result, f"requiring decision could not be found for package {package} " \
-                       f"- no decider for level {decision_level}"
-        return result
-
     def backtrack(self, decision_level: int):
         # print(f"backtrack to decision_level: {decision_level}")
 
@@ -148,40 +154,25 @@ class PartialSolution:
 
         self.assignments_by_package = assignments_by_package
 
-        self._required_packages = {
-            package: req_decision_level
-            for package, req_decision_level in self._required_packages.items()
-            if req_decision_level <= decision_level
-        }
-
         self._decisions = {
             package: decision
             for package, decision in self._decisions.items()
             if decision.decision_level <= decision_level
         }
 
-    def require(self, packages: Iterable[PKG]):
-        required_packages = self._required_packages
-        for package in packages:
-            if package not in required_packages:
-                required_packages[package] = self._decision_level
-
-    def requires(self, package: PKG) -> bool:
-        return package in self._required_packages
-
     def make_assignment(self, assignment_value: Term, cause: Optional["Incompatibility"] = None):
         package_assignments = self.assignments_by_package[assignment_value.package]
 
-        accumulated_constraint = assignment_value.constraint
+        accumulated = assignment_value
         if package_assignments:
-            accumulated_constraint = package_assignments[-1].accumulated.intersect_with(accumulated_constraint)
+            accumulated = package_assignments[-1].accumulated.intersect(assignment_value)
 
         dlevel = self._decision_level
 
         if cause is None and assignment_value.package != self._root_package:
             dlevel += 1
 
-        return Assignment(assignment_value, dlevel, len(self._assignments_by_order), cause, accumulated_constraint)
+        return Assignment(assignment_value, dlevel, len(self._assignments_by_order), cause, accumulated)
 
     def assign(self, assignment_value: Union[Term, Assignment], cause: Optional["Incompatibility"] = None):
         assignment = self.make_assignment(assignment_value, cause) \
@@ -230,16 +221,16 @@ class IncompatibilitySatisfaction:
     ) -> Optional[Assignment]:
 
         if package_assignments := solution.assignments_by_package[term.package]:
-            if term.constraint.allows_all(package_assignments[-1].accumulated):
+            if package_assignments[-1].accumulated.satisfies(term):
                 for assignment in package_assignments:
                     if assignment is next_satisfier:
                         return None
 
                     acc = assignment.accumulated
                     if next_satisfier:
-                        if term.constraint.allows_all(acc.intersect_with(next_satisfier.term.constraint)):
-                            return assignment
-                    elif term.constraint.allows_all(acc):
+                        acc = acc.intersect(next_satisfier.term)
+
+                    if acc.satisfies(term):
                         return assignment
         return None
 
@@ -259,10 +250,7 @@ class IncompatibilitySatisfaction:
         satisfier = satisfiers.pop(satisfier_index)
 
         for term in incompatibility.terms:
-            if solution.requires(term.package):
-                satisfiers.append(solution.requiering_decision(term.package))
-
-            if term.package == satisfier.term.package:
+            if term.package == satisfier.term.package and not satisfier.term.satisfies(term):
                 if prev_satisfier := cls.find_satisfier(solution, term, satisfier):
                     satisfiers.append(prev_satisfier)
 
@@ -297,15 +285,10 @@ class Incompatibility:
         undecided_term: Optional[Term] = None
         satisfiers: List[Assignment] = []
 
-        for term in self.terms:
-            package_assignments = assignments[term.package]
-            if package_assignments and package_assignments[-1].accumulated is RestrictAllVersions:
-                return IncompatibilitySatisfaction.create_unsatisfied(self)
-
         for term in self.terms:
             satisfier = IncompatibilitySatisfaction.find_satisfier(solution, term)
-            if not satisfier and (assignments := solution.assignments_by_package[term.package]) \
-                    and not assignments[-1].accumulated.allows_any(term.constraint):
+            if not satisfier and (package_assignments := assignments[term.package]) \
+                    and package_assignments[-1].accumulated.contradicts(term):
                 return IncompatibilitySatisfaction.create_unsatisfied(self)
 
             if not satisfier:
@@ -336,7 +319,7 @@ class Incompatibility:
 
         terms = self.terms
         if len(terms) == 1:
-            if terms[0].constraint is AllowAllVersions:
+            if terms[0].constraint is AllowAllVersions and not terms[0].optional:
                 return f"{terms[0].package} cannot be resolved"
             return f"{terms[0].package} must be {terms[0].constraint.inverse()}"
 
@@ -427,42 +410,23 @@ class Incompatibility:
         sorted_terms = sorted(normalized_terms, key=lambda x: str(x.package))
         return cls(tuple(sorted_terms), internal_cause, external_cause)
 
-    def update_inavailability(self, new_constraint: VersionSpecifier):
-        assert len(self.terms) == 1, 'attempting to update terms for non inavailability incompatability'
-        self.terms = (replace(self.terms[0], constraint=new_constraint),)
-        self.external_cause = f'Compatible version for {self.terms[0]} not found'
-
 
 class DependencyIncompatibility(Incompatibility):
     def __init__(self, dependant: Term, dependency: Term):
+        terms = [dependency.negate(), dependant]
+        if dependency.constraint is RestrictAllVersions:  # no version can satisfy it
+            terms = [dependant]
+        elif dependency.package == dependant.package:
+            terms = [Term.join(dependant.package, terms)]
+
         super().__init__(
-            tuple(sorted([dependency.negate(), dependant], key=lambda x: str(x.package))), None,
+            tuple(sorted(terms, key=lambda x: str(x.package))), None,
             f"{dependant} depends on {dependency}")
 
         self.dependant = dependant
         self.dependency = dependency
         self.added = False
 
-    def check_satisfaction(self, solution: "PartialSolution") -> IncompatibilitySatisfaction:
-        if dependant_assignments := solution.assignments_by_package[self.dependant.package]:
-            dependant_assignment = dependant_assignments[-1]
-            acc = dependant_assignment.accumulated
-
-            if acc.allows_any(self.dependant.constraint) or \
-                    (acc is not RestrictAllVersions and self.dependant.constraint.allows_all(acc)):
-                return super().check_satisfaction(solution)
-
-        return IncompatibilitySatisfaction.create_unsatisfied(self)
-
-    def update_dependant(self, new_dependant: Term):
-        package = str(new_dependant.package)
-        assert package == str(self.dependant.package), \
-            "attempting to update dependency incompatibility with a term that does not belongs to it"
-
-        self.dependant = new_dependant
-        self.terms = tuple(sorted([self.dependency.negate(), new_dependant], key=lambda x: str(x.package)))
-        self.external_cause = f"{new_dependant} depends on {self.dependency}"
-
 
 @dataclass
 class _PackageVersion:
@@ -505,16 +469,12 @@ class _PackageVersion:
 
                 last_requiring = nxt
 
+            nt = Term(self.term.package, self.effective_constraint_range)
             if last_requiring is not self:
                 incompatibility = last_requiring.dependencies[dependency.term.package].incompatibility
                 if incompatibility:
-                    result.append(incompatibility)
-                    incompatibility.update_dependant(
-                        Term(self.term.package,
-                             incompatibility.dependant.constraint.union_with(self.effective_constraint_range)))
-                    continue
+                    nt = replace(nt, constraint=incompatibility.dependant.constraint.union_with(nt.constraint))
 
-            nt = Term(self.term.package, self.effective_constraint_range)
             dependency.incompatibility = DependencyIncompatibility(nt, dependency.term)
             result.append(dependency.incompatibility)
 
@@ -569,7 +529,6 @@ class Solver(Generic[PKG_T]):
         self._problem = problem
         self._solution = PartialSolution(root_package)
         self._package_versions: Dict[PKG, List[_PackageVersion]] = {}
-        self._package_availability_incompatibilities: Dict[PKG, Incompatibility] = {}
         self._package_trouble_level: Counter[PKG] = Counter()
 
         # incompatibilities by package
@@ -593,8 +552,6 @@ class Solver(Generic[PKG_T]):
             self._add_incompatibility(
                 Incompatibility.create([root_term.negate()], external_cause='Root Project'))
 
-            self._solution.require([root_term.package])
-
             next_package = root_term.package
             while next_package is not None:
                 self._solution.notify_state(next_package, mop)
@@ -618,7 +575,8 @@ class Solver(Generic[PKG_T]):
                 satisfaction: IncompatibilitySatisfaction = incompatibility.check_satisfaction(self._solution)
                 if satisfaction.is_full():
                     # print(f"incompatibility: {incompatibility} satisfied, entering conflict resolution")
-                    changed.add(self._resolve_conflict(incompatibility, satisfaction))
+                    changed = {self._resolve_conflict(incompatibility, satisfaction)}
+                    break
 
                 elif satisfaction.is_almost_full():
                     term = satisfaction.undecided_term
@@ -628,7 +586,7 @@ class Solver(Generic[PKG_T]):
 
     def _is_tautology(self, incompatibility: Incompatibility) -> bool:
         return not (terms := incompatibility.terms) or \
-               (len(terms) == 1 and terms[0].package == self._root_package)
+               (len(terms) == 1 and terms[0].package == self._root_package and not terms[0].optional)
 
     def _resolve_conflict(
             self, incompatibility: Incompatibility, satisfaction: IncompatibilitySatisfaction) -> PKG:
@@ -670,21 +628,13 @@ class Solver(Generic[PKG_T]):
                 if term.package != satisfier.term.package}
 
             assert satisfier.cause != incompatibility  # this massup the error reporting...
-            if not satisfier.term.satisfies(term.constraint) or not prior_cause_terms:
-                prior_cause_terms.add(
-                    Term(satisfier.term.package,
-                         # satisfier.term.constraint.difference_from(term.constraint).inverse()))
-                         satisfier.accumulated.difference_from(term.constraint).inverse()))
+            if not satisfier.term.satisfies(term):
+                prior_cause_terms.add(satisfier.term.intersect(term.negate()).negate())
 
             prev_incompatibility = incompatibility
             incompatibility = Incompatibility.create(
                 list(prior_cause_terms), internal_cause=(satisfier.cause, incompatibility))
 
-            if len(prior_cause_terms) == 0:
-                self._solution.backtrack(0)
-                self._solution.assign(Term(term.package, RestrictAllVersions), cause=incompatibility)
-                return term.package
-
             # print(f"root cause: {incompatibility}")
 
             if not self._is_tautology(incompatibility):
@@ -706,7 +656,7 @@ class Solver(Generic[PKG_T]):
                 sorted_versions[i].next = sorted_versions[i + 1]
 
             if len(sorted_versions) == 1:
-                sorted_versions[0].effective_constraint_range = AllowAllVersions
+                sorted_versions[0].effective_constraint_range = sorted_versions[0].term.constraint
             elif sorted_versions:
                 for i in range(1, len(versions) - 1):
                     sorted_versions[i].effective_constraint_range = VersionSpecifier.create_range(
@@ -729,12 +679,15 @@ class Solver(Generic[PKG_T]):
 
         minor_adjustment_dlevel = -1
         for conflict in conflicts:
-            dependency: Term = find_first(conflict.terms, lambda it: it.package != package)
+            dependency: Optional[Term] = find_first(conflict.terms, lambda it: it.package != package)
+            if not dependency:  # this version cannot be selected, regardless of the other packages
+                return False
+
             dependency_assignments = self._solution.assignments_by_package[dependency.package]
             dependency_requirement = dependency.constraint.inverse()
             if len(dependency_assignments) > 1 and dependency_assignments[-1].is_decision():
                 actual_limitation = dependency_assignments[-2].accumulated
-                if actual_limitation.allows_any(dependency_requirement):
+                if actual_limitation.constraint.allows_any(dependency_requirement):
                     # print(f"{package} is conflicting with {dependency.package}, it requires that ", end='')
                     # print(f"{dependency_requirement} but it actual limitation in solution is '{actual_limitation}'")
                     dlevel = dependency_assignments[-1].decision_level - 1
@@ -761,7 +714,7 @@ class Solver(Generic[PKG_T]):
         # print(f"undecided packages: {undecided_packages}")
         package_matching_versions: Dict[PKG, List[_PackageVersion]] = {}
         for package in undecided_packages:
-            acc_assignment = self._solution.assignments_by_package[package][-1].accumulated
+            acc_assignment = self._solution.assignments_by_package[package][-1].accumulated.constraint
 
             if isinstance(acc_assignment, VersionMatch) and acc_assignment.allow and \
                     not isinstance(acc_assignment.version, StandardVersion):
@@ -785,17 +738,12 @@ class Solver(Generic[PKG_T]):
 
         while True:
             if not versions:
-                acc_assignment = self._solution.assignments_by_package[package][-1].accumulated
+                acc_assignment = self._solution.assignments_by_package[package][-1].accumulated.constraint
 
-                if ic := self._package_availability_incompatibilities.get(package):
-                    ic.update_inavailability(ic.terms[0].constraint.union_with(acc_assignment))
-                else:
-                    # print(f"could not find version that match {acc_assignment}")
-                    ic = Incompatibility.create(
-                        [Term(package, acc_assignment)],
-                        external_cause=f'Compatible version for [{package} {acc_assignment}] not found')
-                    self._package_availability_incompatibilities[package] = ic
-                    self._add_incompatibility(ic)
+                # print(f"could not find version that match {acc_assignment}")
+                self._add_incompatibility(Incompatibility.create(
+                    [Term(package, acc_assignment)],
+                    external_cause=f'Compatible version for [{package} {acc_assignment}] not found'))
                 return package
 
             version = versions.pop(0)
@@ -827,7 +775,6 @@ class Solver(Generic[PKG_T]):
         if not conflicts:
             # print("we can!")
             self._solution.assign(assignment)
-            self._solution.require(version.dependencies.keys())
         else:
             # print(f"we cant.. ({conflicts})")
             ...
-- 
2.43.0


From e41e47ce29cd8182a86576e265901a4b9e9bbedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:07 +0000
Subject: [PATCH 024/153] fix: different spellings of a package name or of its
 extras are the same package while resolving dependencies

---
 pkm/src/pkm/resolution/dependency_resolver.py | 52 +++++++++----------
 1 file changed, 25 insertions(+), 27 deletions(-)

diff --git a/pkm/src/pkm/resolution/dependency_resolver.py b/pkm/src/pkm/resolution/dependency_resolver.py
index 02e58b8..c0e1645 100644
--- a/pkm/src/pkm/resolution/dependency_resolver.py
+++ b/pkm/src/pkm/resolution/dependency_resolver.py
@@ -1,7 +1,7 @@
 from __future__ import annotations
 
-from dataclasses import dataclass, replace
-from typing import List, Dict, Optional, TYPE_CHECKING, cast
+from dataclasses import dataclass, replace, field
+from typing import List, Dict, Optional, Tuple, TYPE_CHECKING, cast
 
 from pkm.api.dependencies.dependency import Dependency
 from pkm.api.packages.package import PackageDescriptor, Package
@@ -10,7 +10,6 @@ from pkm.api.versions.version_specifiers import VersionMatch
 from pkm.build.external_builders import BuildError
 from pkm.resolution.pubgrub import Problem, MalformedPackageException, Term, Solver
 from pkm.utils.dicts import get_or_put
-from pkm.utils.hashes import HashBuilder
 from pkm.utils.promises import Promise
 from pkm.utils.sequences import single_or_raise
 
@@ -43,7 +42,7 @@ def resolve_dependencies(root: Dependency, target: "PackageInstallationTarget",
         if pkg.extras:
             continue
 
-        result.append(problem.opened_packages[PackageDescriptor(pkg.name, version)])
+        result.append(problem.opened_packages[pkg.name_key, version])
 
     return result
 
@@ -55,12 +54,15 @@ class _PkmPackageInstallationProblem(Problem):
         self._target = target
         self._repo = repo
         self._root = root
-        self._dependency_overrides = dependency_overrides or {}
+        self._dependency_overrides = {
+            PackageDescriptor.package_name_key(name): dependency
+            for name, dependency in (dependency_overrides or {}).items()}
 
         from pkm.api.pkm import pkm
         self._threads = pkm.threads
 
-        self.opened_packages: Dict[PackageDescriptor, Package] = {}
+        # opened packages by their name key and version
+        self.opened_packages: Dict[Tuple[str, Version], Package] = {}
         self._prefetched_packages: Dict[_Pkg, Promise[List[Package]]] = {}
 
     def _prefetch(self, package: _Pkg) -> Promise[List[Package]]:
@@ -68,30 +70,31 @@ class _PkmPackageInstallationProblem(Problem):
                           lambda: Promise.execute(self._threads, self._repo.list, package.name, self._target.env))
 
     def get_dependencies(self, package: _Pkg, version: Version) -> List[Term]:
-        descriptor = PackageDescriptor(package.name, version)
+        package_key = package.name_key, version
+        extras = list(package.extras)
 
         try:
-            if isinstance(version, UrlVersion) and descriptor not in self.opened_packages:
-                self.opened_packages[descriptor] = single_or_raise(
+            if isinstance(version, UrlVersion) and package_key not in self.opened_packages:
+                self.opened_packages[package_key] = single_or_raise(
                     self._repo.match(f"{package} @ {version}", self._target.env))
 
-            dependencies = self.opened_packages[descriptor].dependencies(self._target, package.extras)
+            dependencies = self.opened_packages[package_key].dependencies(self._target, extras)
 
             for d in dependencies:
                 if not d.required_url():
                     self._prefetch(_Pkg.of(d))
 
         except (ValueError, IOError, BuildError) as e:
-            raise MalformedPackageException(str(descriptor)) from e
+            raise MalformedPackageException(f"{package.name} {version}") from e
 
         result: List[Term] = []
 
         if package.extras:  # add the package itself together with its extras
-            result.append(Term(replace(package, extras=None), VersionMatch(version)))
+            result.append(Term(replace(package, extras=()), VersionMatch(version)))
 
         for d in dependencies:
-            if d.is_applicable_for(self._target.env, package.extras):
-                if o := self._dependency_overrides.get(d.package_name):
+            if d.is_applicable_for(self._target.env, extras):
+                if o := self._dependency_overrides.get(d.package_name_key):
                     result.append(Term(_Pkg.of(o), o.version_spec))
                 else:
                     result.append(Term(_Pkg.of(d), d.version_spec))
@@ -104,19 +107,21 @@ class _PkmPackageInstallationProblem(Problem):
         # make versions unique
         packages = list({p.version: p for p in all_packages if p.is_compatible_with(self._target.env)}.values())
 
-        for package in packages:
-            self.opened_packages[replace(package.descriptor, name=package.descriptor.name.lower())] = package
+        for matched_package in packages:
+            self.opened_packages[package.name_key, matched_package.version] = matched_package
 
         return cast(List[StandardVersion], [p.version for p in packages if isinstance(p.version, StandardVersion)])
 
     def has_version(self, package: _Pkg, version: Version) -> bool:
-        return bool(self._repo.match(Dependency(package.name, VersionMatch(version), package.extras), self._target.env))
+        return bool(self._repo.match(Dependency(package.name, VersionMatch(version), list(package.extras)), self._target.env))
 
 
 @dataclass(frozen=True, eq=True)
 class _Pkg:
-    name: str
-    extras: Optional[List[str]]
+    # the name as it was spelled by the dependency, different spellings denote the same package
+    name: str = field(compare=False)
+    name_key: str
+    extras: Tuple[str, ...]
 
     def __str__(self):
         result = self.name
@@ -130,13 +135,6 @@ class _Pkg:
     def __lt__(self, other):
         return str(self) < str(other)
 
-    def __hash__(self):
-        hb = HashBuilder().regular(self.name)
-        if self.extras:
-            hb.ordered_seq(self.extras)
-
-        return hb.build()
-
     @classmethod
     def of(cls, d: Dependency) -> _Pkg:
-        return _Pkg(d.package_name.lower(), d.extras)
+        return _Pkg(d.package_name.lower(), d.package_name_key, tuple(sorted(set(d.extras or ()))))
-- 
2.43.0


From b65d655efab517122eed473863497186ea7964a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:53 +0000
Subject: [PATCH 025/153] fix: values in a WHEEL file may contain colons

---
 pkm/src/pkm/config/configfiles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/config/configfiles.py b/pkm/src/pkm/config/configfiles.py
index 7682f8d..fa1df95 100644
--- a/pkm/src/pkm/config/configfiles.py
+++ b/pkm/src/pkm/config/configfiles.py
@@ -89,7 +89,7 @@ class WheelFileConfigIO(ConfigIO):
     def read(self, path: Path) -> _RAW_CONFIG_T:
         seperator_rx = re.compile("\\s*:\\s*")
         lines = (line.strip() for line in path.read_text().splitlines())
-        kvs = (seperator_rx.split(kv) for kv in lines if kv)
+        kvs = (seperator_rx.split(kv, maxsplit=1) for kv in lines if kv)
         return {k: v for k, v in kvs}
 
 
-- 
2.43.0


From f1404ac1754e9e81866e05d8e267c3ab8841f2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:53 +0000
Subject: [PATCH 026/153] fix: nested empty directories of a wheel are not
 installed (nothing would remove them again)

---
 pkm/src/pkm/api/distributions/wheel_distribution.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pkm/src/pkm/api/distributions/wheel_distribution.py b/pkm/src/pkm/api/distributions/wheel_distribution.py
index b42c0ed..edc8dba 100644
--- a/pkm/src/pkm/api/distributions/wheel_distribution.py
+++ b/pkm/src/pkm/api/distributions/wheel_distribution.py
@@ -190,9 +190,11 @@ def _find_dist_info(unpacked_wheel: Path, package: PackageDescriptor) -> DistInf
 
 
 def _remove_empty_directories(content: Path):
-    to_del = [d for d in content.glob("**/") if is_empty_directory(d)]
-    for d in to_del:
-        d.rmdir()
+    # children first: a directory may become empty after its children are removed
+    directories = sorted((d for d in content.rglob("*") if d.is_dir()), key=lambda it: len(it.parts), reverse=True)
+    for d in directories:
+        if is_empty_directory(d):
+            d.rmdir()
 
 
 def _verify_records(dist_info: DistInfo, content: Path, records_file: RecordsFileConfiguration):
-- 
2.43.0


From 1bac3c936f53f54e7e6196ad5c8b3d5efa9de84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:53 +0000
Subject: [PATCH 027/153] fix: wheels with headers can be installed

---
 pkm/src/pkm/api/distributions/wheel_distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/distributions/wheel_distribution.py b/pkm/src/pkm/api/distributions/wheel_distribution.py
index edc8dba..be914ff 100644
--- a/pkm/src/pkm/api/distributions/wheel_distribution.py
+++ b/pkm/src/pkm/api/distributions/wheel_distribution.py
@@ -109,7 +109,7 @@ class WheelDistribution(Distribution):
                 if d.is_dir():
                     if d == data_dir:
                         for k in d.iterdir():
-                            target_path = getattr(target, k.name) or Path(target.data, k.name)
+                            target_path = getattr(target, k.name, None) or Path(target.data, k.name)
                             if k.name == 'scripts':
                                 ct.copy_tree(
                                     k, Path(target_path),
-- 
2.43.0


From 17b04b41815ef7a7858e692c21cf9c8883a282d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:53 +0000
Subject: [PATCH 028/153] fix: uninstalling removes the emptied directories
 also when the site is reached through a symlink

---
 pkm/src/pkm/api/packages/site_packages.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/packages/site_packages.py b/pkm/src/pkm/api/packages/site_packages.py
index 47ac6a5..7369cde 100644
--- a/pkm/src/pkm/api/packages/site_packages.py
+++ b/pkm/src/pkm/api/packages/site_packages.py
@@ -215,7 +215,8 @@ class InstalledPackage(Package, Serializable):
             installed_file.unlink(missing_ok=True)
             parents_to_check.add(installed_file.parent)
 
-        installation_site = self.dist_info.path.parent
+        # the installed files are resolved paths
+        installation_site = self.dist_info.path.parent.resolve()
         while parents_to_check:
             parent = parents_to_check.pop()  # noqa : pycharm does not know's about set's pop method?
 
-- 
2.43.0


From b4208b6b394d1780fc6768b8bdc6f38a652c390b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:09 +0000
Subject: [PATCH 029/153] fix: a directory is not inside another one whose name
 is a prefix of its own name

---
 pkm/src/pkm/utils/files.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/utils/files.py b/pkm/src/pkm/utils/files.py
index cef9a65..24d0742 100644
--- a/pkm/src/pkm/utils/files.py
+++ b/pkm/src/pkm/utils/files.py
@@ -276,7 +276,8 @@ def is_relative_to(path: Path, root: Path) -> bool:
     :param root: the path that may contain `path`
     """
 
-    return str(path.absolute()).startswith(str(root.absolute()))
+    path, root = path.absolute(), root.absolute()
+    return path == root or root in path.parents
 
 
 def dir_size(directory: Path) -> int:
-- 
2.43.0


From bffbcec1aba6f9b9b2d6055f40d8b1447e72dbfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:09 +0000
Subject: [PATCH 030/153] fix: uninstalling removes the emptied directories of
 both the purelib and the platlib

---
 pkm/src/pkm/api/packages/site_packages.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/api/packages/site_packages.py b/pkm/src/pkm/api/packages/site_packages.py
index 7369cde..38a66b2 100644
--- a/pkm/src/pkm/api/packages/site_packages.py
+++ b/pkm/src/pkm/api/packages/site_packages.py
@@ -216,11 +216,14 @@ class InstalledPackage(Package, Serializable):
             parents_to_check.add(installed_file.parent)
 
         # the installed files are resolved paths
-        installation_site = self.dist_info.path.parent.resolve()
+        installation_sites = {self.dist_info.path.parent.resolve()}
+        if self.site:  # the package may have files in both the purelib and the platlib
+            installation_sites.update(site.resolve() for site in self.site.all_sites())
+
         while parents_to_check:
             parent = parents_to_check.pop()  # noqa : pycharm does not know's about set's pop method?
 
-            if parent == installation_site or not is_relative_to(parent, installation_site):
+            if parent in installation_sites or not any(is_relative_to(parent, site) for site in installation_sites):
                 continue
 
             if (precompiled := parent / "__pycache__").exists():
-- 
2.43.0


From 8f367c2b81374d2aaaafd4553f2d9a338f957f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:31 +0000
Subject: [PATCH 031/153] fix: script launchers of windows environments

---
 pkm/src/pkm/api/environments/environment.py | 2 +-
 pkm/src/pkm/launchers/__init__.py           | 6 +++---
 pkm/src/pkm/launchers/executables.py        | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/pkm/src/pkm/api/environments/environment.py b/pkm/src/pkm/api/environments/environment.py
index 3997669..1fef38e 100644
--- a/pkm/src/pkm/api/environments/environment.py
+++ b/pkm/src/pkm/api/environments/environment.py
@@ -359,7 +359,7 @@ class OperatingPlatform:
     python_interpreter_bits: int  # 32 or 64
 
     def has_windows_os(self) -> bool:
-        return self.os == 'Windows'
+        return self.os == 'windows'
 
     def has_x86_cpu(self) -> bool:
         return self.machine in ("i386", "amd64", "x86", "x86_64")
diff --git a/pkm/src/pkm/launchers/__init__.py b/pkm/src/pkm/launchers/__init__.py
index f0746cd..54c561a 100644
--- a/pkm/src/pkm/launchers/__init__.py
+++ b/pkm/src/pkm/launchers/__init__.py
@@ -31,7 +31,7 @@ def build_windows_script_launcher(
 
     op_plat = env.operating_platform
     arch_suffix = '-arm' if op_plat.has_arm_cpu() else ''
-    launcher_kind = 't' if is_gui else 'w'
+    launcher_kind = 'w' if is_gui else 't'  # windowed or text (console)
     launcher_name = f"{launcher_kind}{arch_suffix}{op_plat.os_bits}.exe"
 
     launcher_data = resources.read_binary('pkm.launchers', launcher_name)
@@ -40,7 +40,7 @@ def build_windows_script_launcher(
     with result_file.open('wb') as result_fd:
         result_fd.write(launcher_data)
         result_fd.write(f"#!{env.interpreter_path.absolute()}\r\n".encode())
-        with ZipFile(result_fd) as result_zip_fd:
+        with ZipFile(result_fd, 'w') as result_zip_fd:
             result_zip_fd.writestr("__main__.py", script.encode())
 
     return result_file
@@ -61,5 +61,5 @@ def build_windows_entrypoint_launcher(
 
     return build_windows_script_launcher(
         env, target_dir, entrypoint.name, entrypoint.ref.execution_script_snippet(),
-        entrypoint.group == EntryPoint.G_CONSOLE_SCRIPTS
+        entrypoint.group == EntryPoint.G_GUI_SCRIPTS
     )
diff --git a/pkm/src/pkm/launchers/executables.py b/pkm/src/pkm/launchers/executables.py
index c04d77c..5079e7a 100644
--- a/pkm/src/pkm/launchers/executables.py
+++ b/pkm/src/pkm/launchers/executables.py
@@ -72,4 +72,4 @@ class Executables:
 
         return Executables.generate(
             env, target_dir, entrypoint.name, entrypoint.ref.execution_script_snippet(),
-            entrypoint.group == EntryPoint.G_CONSOLE_SCRIPTS)
+            entrypoint.group == EntryPoint.G_GUI_SCRIPTS)
-- 
2.43.0


From 6bed9c8a1aa00ef3cf2ce66297e30e0d842997ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:30 +0000
Subject: [PATCH 032/153] fix: a failed wheel installation restores everything
 that it changed

---
 .../api/distributions/wheel_distribution.py   | 23 +++++-----
 pkm/src/pkm/utils/files.py                    | 43 ++++++++++---------
 2 files changed, 34 insertions(+), 32 deletions(-)

diff --git a/pkm/src/pkm/api/distributions/wheel_distribution.py b/pkm/src/pkm/api/distributions/wheel_distribution.py
index be914ff..733f19f 100644
--- a/pkm/src/pkm/api/distributions/wheel_distribution.py
+++ b/pkm/src/pkm/api/distributions/wheel_distribution.py
@@ -124,22 +124,20 @@ class WheelDistribution(Distribution):
 
             # build entry points
             scripts_path = Path(target.scripts)
-            for entrypoint in entrypoints:
-                if entrypoint.is_script():
-                    ct.touch(Executables.generate_for_entrypoint(target.env, entrypoint, scripts_path))
+            with temp_dir() as generated_scripts:
+                for entrypoint in entrypoints:
+                    if entrypoint.is_script():
+                        script = Executables.generate_for_entrypoint(target.env, entrypoint, generated_scripts)
+                        ct.copy(script, scripts_path / script.name)
 
             #  compile py to pyc
-            new_pyc_files: List[str] = []
             with warnings.catch_warnings():
                 warnings.filterwarnings('ignore')
-                for cc in ct.copied_files:
+                for cc in list(ct.copied_files):
                     if cc.suffix == '.py':
+                        # the compiled files are part of the transaction, so they will be added to record
+                        ct.prepare(Path(importlib.util.cache_from_source(str(cc))))
                         compileall.compile_file(cc, force=True, quiet=2)
-                        new_pyc_files.append(importlib.util.cache_from_source(str(cc)))
-
-            # mark the compiled files in the transaction, so that they will be added to record
-            for npf in new_pyc_files:
-                ct.touch(Path(npf))
 
             # build the new records file
             new_dist_info = DistInfo.load(site_packages / dist_info.path.name)
@@ -150,13 +148,16 @@ class WheelDistribution(Distribution):
             } if not skip_record_verification else None
             new_record_file.sign_files(ct.copied_files, site_packages, precomputed_hashes)
 
+            ct.prepare(new_record_file.path)
             new_record_file.save()
 
             # and finally, mark the installer and the requested flag
-            (new_dist_info.path / "INSTALLER").write_text(f"pkm")
+            ct.prepare(new_dist_info.path / "INSTALLER").write_text(f"pkm")
             if user_request:
+                ct.prepare(new_dist_info.user_requested_path())
                 new_dist_info.mark_as_user_requested(user_request)
             if installation_info:
+                ct.prepare(new_dist_info.installation_info_path())
                 new_dist_info.save_installation_info(installation_info)
 
     def install_to(self, target: "PackageInstallationTarget", user_request: Optional[Dependency] = None,
diff --git a/pkm/src/pkm/utils/files.py b/pkm/src/pkm/utils/files.py
index 24d0742..a0fd935 100644
--- a/pkm/src/pkm/utils/files.py
+++ b/pkm/src/pkm/utils/files.py
@@ -143,8 +143,7 @@ class CopyTransaction:
 
         if file_copy:
             def cp(s, d):
-                file_copy(s, d)
-                self.touch(d)
+                file_copy(s, self.prepare(d))
         else:
             cp = self.copy
 
@@ -154,7 +153,7 @@ class CopyTransaction:
                 continue
 
             if file.is_dir():
-                self.copy_tree(file, target / file.name, accept)
+                self.copy_tree(file, target / file.name, accept, file_copy)
             else:
                 cp(file, target / file.name)
 
@@ -167,8 +166,8 @@ class CopyTransaction:
         if not target.exists():
             if not target.parent.exists():
                 self.mkdir(target.parent)
-            target.mkdir()
             self._copied_files.add(target)
+            target.mkdir()
 
         return target
 
@@ -181,19 +180,21 @@ class CopyTransaction:
         if source.is_dir():
             raise UnsupportedOperationException("copy should not work with directories, use copy_tree or mkdir instead")
 
-        if target.exists():
-            self.rm(target)
+        shutil.copy(source, self.prepare(target))
 
-        try:
-            shutil.copy(source, target)
-        except FileNotFoundError:
-            if not target.exists():
-                self.mkdir(target.parent)
-                shutil.copy(source, target)
-            else:
-                raise
+    def prepare(self, target: Path) -> Path:
+        """
+        prepare to (over)write the `target` file by any means, so that whatever will be written to it can be rolled back
+        :param target: the path of the file that is about to be written
+        :return: `target` to be used with chaining
+        """
+        if os.path.lexists(target):
+            self.rm(target)
+        else:
+            self.mkdir(target.parent)
 
         self._copied_files.add(target)
+        return target
 
     @property
     def copied_files(self) -> Iterator[Path]:
@@ -250,19 +251,19 @@ class CopyTransaction:
             self._commit()
 
     def _commit(self):
-        shutil.rmtree(self._temp_dir)
+        shutil.rmtree(self._temp_dir, ignore_errors=True)
         self._temp_dir = None
 
     def _rollback(self):
-        for file in self._copied_files:
-            if not file.is_dir():
+        # children before their parents, so that the created directories will be empty when their turn comes
+        for file in sorted(self._copied_files, key=lambda it: len(it.parts), reverse=True):
+            if file.is_symlink() or not file.is_dir():
                 file.unlink(missing_ok=True)
-
-        for file in self._copied_files:
-            if file.is_dir() and is_empty_directory(file):
+            elif is_empty_directory(file):
                 file.rmdir()
 
-        for i, path in enumerate(self._overwritten_files):
+        # last overwritten first, the same file may have been overwritten more than once
+        for i, path in reversed(list(enumerate(self._overwritten_files))):
             restore_path = self._temp_dir / str(i)
             shutil.move(restore_path, path)
 
-- 
2.43.0


From 588d18e1f0c2d690790a4ce896df06a3bc761820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:30 +0000
Subject: [PATCH 033/153] fix: ini files that cannot be read are not treated as
 empty files

---
 pkm/src/pkm/config/configfiles.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/config/configfiles.py b/pkm/src/pkm/config/configfiles.py
index fa1df95..6113c06 100644
--- a/pkm/src/pkm/config/configfiles.py
+++ b/pkm/src/pkm/config/configfiles.py
@@ -56,7 +56,8 @@ class INIConfigIO(ConfigIO):
     def read(self, path: Path) -> _RAW_CONFIG_T:
         data = {}
         cp = _CaseSensitiveConfigParser()
-        cp.read(str(path))
+        with path.open("r") as inp:  # note that cp.read(path) ignores files that it cannot open
+            cp.read_file(inp)
         for section_name, section_values in cp.items():
             if section_name and section_name != cp.default_section:
                 data[section_name] = {**section_values}
-- 
2.43.0


From c2cfb9fbde03da343a510afc95796438f3175d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:33 +0000
Subject: [PATCH 034/153] fix: an interrupted uninstallation can be repeated

---
 pkm/src/pkm/api/packages/site_packages.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/packages/site_packages.py b/pkm/src/pkm/api/packages/site_packages.py
index 38a66b2..f836d27 100644
--- a/pkm/src/pkm/api/packages/site_packages.py
+++ b/pkm/src/pkm/api/packages/site_packages.py
@@ -210,9 +210,13 @@ class InstalledPackage(Package, Serializable):
         uninstall this package from its site packages
         """
 
+        # the RECORD itself is removed last (with the dist-info), so that an interrupted uninstallation can be repeated
+        record_path = self._dist_info.record_path().resolve()
+
         parents_to_check = set()
         for installed_file in self._dist_info.installed_files():
-            installed_file.unlink(missing_ok=True)
+            if installed_file.resolve() != record_path:
+                installed_file.unlink(missing_ok=True)
             parents_to_check.add(installed_file.parent)
 
         # the installed files are resolved paths
-- 
2.43.0


From dda15397b5348eb2b0d5f866865fd63aadf7cc29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:26 +0000
Subject: [PATCH 035/153] fix: uninstalling removes links that replaced
 installed files, not the targets of these links

---
 pkm/src/pkm/api/distributions/distinfo.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/api/distributions/distinfo.py b/pkm/src/pkm/api/distributions/distinfo.py
index df9e68a..86aa8fb 100644
--- a/pkm/src/pkm/api/distributions/distinfo.py
+++ b/pkm/src/pkm/api/distributions/distinfo.py
@@ -201,8 +201,9 @@ class DistInfo(Serializable):
         """
         root = self.path.parent
         for record in self.load_record_cfg().records:
-            file = Path(root, record.file).resolve()
-            yield file
+            file = Path(root, record.file)
+            # only resolve the directory: if the file itself is a symlink, its target was not installed by this package
+            yield file.parent.resolve() / file.name
 
         yield self.record_path()
 
-- 
2.43.0


From 6c0334b3513e5f350451d5f195a986cb19630f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:09 +0000
Subject: [PATCH 036/153] fix: names of extras in markers are compared in their
 normalized form

---
 pkm/src/pkm/api/dependencies/env_markers.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/api/dependencies/env_markers.py b/pkm/src/pkm/api/dependencies/env_markers.py
index a4b1b34..8722deb 100644
--- a/pkm/src/pkm/api/dependencies/env_markers.py
+++ b/pkm/src/pkm/api/dependencies/env_markers.py
@@ -1,3 +1,4 @@
+import re
 from typing import Callable, Optional, List, Sequence, TYPE_CHECKING
 
 from pkm.api.versions.version import StandardVersion, Version
@@ -46,6 +47,17 @@ _MARKER_VARIABLES = {
     'implementation_version'}
 
 
+def _contains_extra(extras: _EXTRAS_T, extra: str) -> bool:
+    """
+    :return: True if `extra` is one of `extras`, names of extras are compared as names of packages are (see pep685)
+    """
+    return _extra_key(extra) in (_extra_key(it) for it in extras)
+
+
+def _extra_key(extra: str) -> str:
+    return re.sub(r"[-_.]+", "-", str(extra)).lower()
+
+
 class PEP508EnvMarkerParser(SimpleParser):
 
     def _read_identifier(self) -> str:
@@ -84,9 +96,9 @@ class PEP508EnvMarkerParser(SimpleParser):
                 if version_or_string_op in ('==', '===', '!='):
                     positive = version_or_string_op != '!='
                     if isinstance(a, _EXTRAS_COLLECTION_T):
-                        return (b in a) is positive
+                        return _contains_extra(a, b) is positive
                     elif isinstance(b, _EXTRAS_COLLECTION_T):
-                        return (a in b) is positive
+                        return _contains_extra(b, a) is positive
 
                 if version_or_string_op == '===':
                     return str(a) == str(b)
-- 
2.43.0


From 6fdb0bfebde925993f0a82fffe00e8bcc961658d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:09 +0000
Subject: [PATCH 037/153] fix: updated packages are not lost and keep previous
 requests working, names in updates and store modes may be spelled in any way

an installation that listed packages to update removed those that the new
dependencies did not need, ignored previous requests for them and did not
recognize names with dashes or upper case letters; several dependencies on one
package replaced each other; overrides were forgotten and packages that came
from elsewhere were lost when installed packages had to be changed; unknown
packages were reported with a ValueError.
---
 .../pkm/api/packages/package_installation.py  | 52 +++++++++++++------
 1 file changed, 37 insertions(+), 15 deletions(-)

diff --git a/pkm/src/pkm/api/packages/package_installation.py b/pkm/src/pkm/api/packages/package_installation.py
index 84b9aa3..b8eed05 100644
--- a/pkm/src/pkm/api/packages/package_installation.py
+++ b/pkm/src/pkm/api/packages/package_installation.py
@@ -3,10 +3,10 @@ from __future__ import annotations
 from _ast import Set
 from abc import ABC
 from concurrent.futures import ThreadPoolExecutor
-from dataclasses import dataclass
+from dataclasses import dataclass, replace
 from enum import Enum
 from pathlib import Path
-from typing import List, Dict, Optional, Union, Set, TYPE_CHECKING
+from typing import List, Dict, Optional, Union, Set, Iterable, TYPE_CHECKING
 
 from pkm.api.dependencies.dependency import Dependency
 from pkm.api.packages.package_installation_info import StoreMode
@@ -107,7 +107,7 @@ class PackageInstallationTarget:  # TODO: maybe rename into package installation
         plan = self.plan_installation(
             dependencies, repository, user_requested, dependencies_override, updates
         )
-        plan.store_modes = store_mode
+        plan.store_modes = {PackageDescriptor.package_name_key(name): mode for name, mode in (store_mode or {}).items()}
         plan.execute()
 
     def force_remove(self, package: str) -> bool:
@@ -146,18 +146,21 @@ class PackageInstallationTarget:  # TODO: maybe rename into package installation
 
         self.reload()
 
-        updates = set(updates or ())
-        preinstalled_packages = [p for p in self.site_packages.installed_packages() if p.name_key not in updates]
-        pre_requested_deps = {p.name_key: p.user_request for p in preinstalled_packages if p.user_request}
+        updates = {PackageDescriptor.package_name_key(name) for name in updates or ()}
+        all_preinstalled_packages = list(self.site_packages.installed_packages())
+        preinstalled_packages = [p for p in all_preinstalled_packages if p.name_key not in updates]
+        pre_requested_deps = {p.name_key: p.user_request for p in all_preinstalled_packages if p.user_request}
+        new_deps = _merge_by_package(d for d in dependencies if d.is_applicable_for(self.env, []))
+
         unspecified_spec_packages = \
             unspecified_spec_packages or [
                 d.package_name_key
-                for d in dependencies if d.version_spec is AllowAllVersions]
+                for d in new_deps.values() if d.version_spec is AllowAllVersions]
 
         unspecified_spec_packages = set(unspecified_spec_packages)
 
-        new_deps = {d.package_name_key: d for d in dependencies}
-        all_deps = {**pre_requested_deps, **new_deps}
+        # the new dependencies replace previous user requests for the same packages (if they are user requests themselves)
+        kept_requests = [d for name, d in pre_requested_deps.items() if not user_requested or name not in new_deps]
 
         run_slow_path = False
         installation = None
@@ -165,7 +168,12 @@ class PackageInstallationTarget:  # TODO: maybe rename into package installation
         try:
             # first we try the fast path: only adding packages without updating
             # but requiring latest matching versions of new user requested packages
-            user_request = _UserRequestPackage(list(new_deps.values()))
+            requests = list(new_deps.values())
+            if len(preinstalled_packages) != len(all_preinstalled_packages):
+                # previously requested packages should keep working with the updated ones
+                requests.extend(kept_requests)
+
+            user_request = _UserRequestPackage(requests)
             installation_repo = _InstallationRepository(
                 repository, preinstalled_packages, user_request, unspecified_spec_packages, True)
 
@@ -173,7 +181,7 @@ class PackageInstallationTarget:  # TODO: maybe rename into package installation
                 user_request.to_dependency(), self, installation_repo, dependencies_override)
 
             installation_names = {i.name_key for i in installation}
-            for preinstalled in preinstalled_packages:
+            for preinstalled in all_preinstalled_packages:
                 if preinstalled.name_key not in installation_names:
                     installation.append(preinstalled)
 
@@ -183,11 +191,11 @@ class PackageInstallationTarget:  # TODO: maybe rename into package installation
 
         if run_slow_path:
             # if we cannot we try the slow path in which we allow preinstalled packages dependencies to be updated
-            user_request = _UserRequestPackage(list(all_deps.values()))
+            user_request = _UserRequestPackage([*new_deps.values(), *kept_requests])
             installation_repo = _InstallationRepository(
                 repository, preinstalled_packages, user_request, unspecified_spec_packages, False)
             installation = resolve_dependencies(
-                user_request.to_dependency(), self, installation_repo)
+                user_request.to_dependency(), self, installation_repo, dependencies_override)
 
         user_requests = {**pre_requested_deps}
         if user_requested:
@@ -196,6 +204,17 @@ class PackageInstallationTarget:  # TODO: maybe rename into package installation
         return InstallationPlan(self, installation, user_requests)
 
 
+def _merge_by_package(dependencies: Iterable[Dependency]) -> Dict[str, Dependency]:
+    result: Dict[str, Dependency] = {}
+    for d in dependencies:
+        if prev := result.get(d.package_name_key):
+            d = replace(
+                d, version_spec=prev.version_spec.intersect_with(d.version_spec),
+                extras=[*(prev.extras or ()), *(d.extras or ())])
+        result[d.package_name_key] = d
+    return result
+
+
 class PackageOperation(Enum):
     INSTALL = "install"
     UPDATE = "update"
@@ -438,8 +457,11 @@ class _InstallationRepository(Repository, ABC):
 
         packages = self._repo.match(dependency, env)
         if installed:
-            packages.sort(key=lambda it: 0 if installed.version == it.version else 1)
-        elif self._fast_plan_mode and dependency.package_name_key in self._unspecified_spec_packages:
+            if any(it.version == installed.version for it in packages):
+                packages = sorted(packages, key=lambda it: 0 if installed.version == it.version else 1)
+            elif dependency.version_spec.allows_version(installed.version):
+                packages = [installed, *packages]  # installed from elsewhere, can still be used
+        elif packages and self._fast_plan_mode and dependency.package_name_key in self._unspecified_spec_packages:
             max_version_package = max(packages, key=lambda it: it.version)
             if not isinstance(max_version_package.version, StandardVersion):
                 unspecified_limit = VersionMatch(max_version_package.version)
-- 
2.43.0


From a2292a066bdc7ecbfe2dafc030f191e8b294c9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:08 +0000
Subject: [PATCH 038/153] fix: uninstallation follows what is installed,
 whatever the names, versions and extras in use

it failed on environments with unsatisfied version constraints, did not
recognize names that were spelled differently, removed unrelated packages that
nobody requested and reported packages that were never installed as removed;
orphans and installation trees ignored markers and extras.
---
 .../pkm/api/packages/package_installation.py  | 80 ++++---------------
 pkm/src/pkm/api/packages/site_packages.py     | 47 +++++------
 2 files changed, 33 insertions(+), 94 deletions(-)

diff --git a/pkm/src/pkm/api/packages/package_installation.py b/pkm/src/pkm/api/packages/package_installation.py
index b8eed05..80350ea 100644
--- a/pkm/src/pkm/api/packages/package_installation.py
+++ b/pkm/src/pkm/api/packages/package_installation.py
@@ -14,7 +14,7 @@ from pkm.api.packages.package import Package, PackageDescriptor
 from pkm.api.packages.package_monitors import PackageOperationMonitoredOp
 from pkm.api.packages.site_packages import InstalledPackage
 from pkm.api.packages.site_packages import SitePackages
-from pkm.api.repositories.repository import Repository, AbstractRepository
+from pkm.api.repositories.repository import Repository
 from pkm.api.versions.version import StandardVersion
 from pkm.api.versions.version_specifiers import VersionMatch, StandardVersionRange, AllowAllVersions
 from pkm.resolution.dependency_resolver import resolve_dependencies
@@ -72,25 +72,24 @@ class PackageInstallationTarget:  # TODO: maybe rename into package installation
 
         self.reload()
 
-        preinstalled_packages = list(self.site_packages.installed_packages())
-        requested_deps = {p.name: p.user_request for p in preinstalled_packages if p.user_request}
-        for package_name in packages_to_remove:
-            requested_deps.pop(package_name, None)
+        site = self.site_packages
+        names_to_remove = {PackageDescriptor.package_name_key(name) for name in packages_to_remove}
+        requested_deps = {p.name_key: p.user_request for p in site.installed_packages() if p.user_request}
 
-        user_request = _UserRequestPackage(list(requested_deps.values()))
-        installation_repo = _RemovalRepository(preinstalled_packages, user_request)
+        required = site.packages_required_by(d for name, d in requested_deps.items() if name not in names_to_remove)
+        affected = site.packages_required_by([
+            *(Dependency(name) for name in names_to_remove),
+            *(d for name, d in requested_deps.items() if name in names_to_remove)])
 
-        installation = resolve_dependencies(user_request.to_dependency(), self, installation_repo)
-        InstallationPlan(self, installation, {}).execute()
+        removed = {name for name in affected if name not in required}
+        InstallationPlan(self, [p for p in site.installed_packages() if p.name_key not in removed], {}).execute()
 
-        kept = {p.name for p in installation}
-
-        for p in packages_to_remove:
-            if p in kept:
-                self.site_packages.installed_package(p).dist_info.unmark_as_user_requested()
+        for name in names_to_remove:
+            if kept := required.get(name):
+                kept.dist_info.unmark_as_user_requested()
 
         self.reload()
-        return {p for p in packages_to_remove if p not in kept}
+        return {name for name in packages_to_remove if PackageDescriptor.package_name_key(name) in removed}
 
     def install(
             self, dependencies: List[Dependency], repository: Optional[Repository] = None, user_requested: bool = True,
@@ -379,57 +378,6 @@ class _UserRequestPackage(Package):
         return Dependency(self.name, VersionMatch(self.version))
 
 
-class _RemovalRepository(AbstractRepository):
-
-    def __init__(self, preinstalled: List[InstalledPackage], user_request: Package):
-        super().__init__('removal repository')
-        self._preinstalled: Dict[str, InstalledPackage] = {
-            p.name_key: p
-            for p in preinstalled
-        }
-
-        self._user_request = user_request
-
-    def _do_match(self, dependency: "Dependency", env: Environment) -> List[Package]:
-        if dependency.package_name == self._user_request.name:
-            return [self._user_request]
-
-        match = self._preinstalled.get(dependency.package_name_key)
-        return [_RemovalPackage(match)] if match else []
-
-
-class _RemovalPackage(Package, Serializable):
-
-    def __init__(self, p: InstalledPackage):
-        self.package = p
-
-    def __getstate__(self):
-        return [self.package]
-
-    def __setstate__(self, state):
-        self.__init__(*state)
-
-    @property
-    def descriptor(self) -> PackageDescriptor:
-        return self.package.descriptor
-
-    def dependencies(
-            self, target: "PackageInstallationTarget", extras: Optional[List[str]] = None) -> List["Dependency"]:
-        sitep = target.site_packages
-        return [d for d in self.package.dependencies(target, extras) if sitep.installed_package(d.package_name)]
-
-    def is_compatible_with(self, env: "Environment") -> bool:
-        return self.package.is_compatible_with(env)
-
-    def install_to(self, target: "PackageInstallationTarget", user_request: Optional["Dependency"] = None,
-                   store_mode: StoreMode = StoreMode.AUTO):
-        raise UnsupportedOperationException()
-
-    def update_at(self, target: "PackageInstallationTarget", user_request: Optional["Dependency"] = None,
-                  store_mode: StoreMode = StoreMode.AUTO):
-        self.package.update_at(target, user_request, store_mode)
-
-
 @delegate(Repository, '_repo')
 class _InstallationRepository(Repository, ABC):
     def __init__(
diff --git a/pkm/src/pkm/api/packages/site_packages.py b/pkm/src/pkm/api/packages/site_packages.py
index f836d27..cd416ad 100644
--- a/pkm/src/pkm/api/packages/site_packages.py
+++ b/pkm/src/pkm/api/packages/site_packages.py
@@ -10,7 +10,6 @@ from pkm.api.packages.package import Package, PackageDescriptor
 from pkm.api.packages.package_installation_info import StoreMode, PackageInstallationInfo
 from pkm.api.packages.package_metadata import PackageMetadata
 from pkm.api.versions.version_specifiers import VersionMatch
-from pkm.utils.dicts import put_if_absent
 from pkm.utils.files import is_empty_directory, is_relative_to
 from pkm.utils.types import Serializable
 from pkm.utils.properties import cached_property, clear_cached_properties
@@ -61,19 +60,26 @@ class SitePackages(Serializable):
         :return: the given [package] and all the other packages that this [package] depends on recursively
         """
 
-        collected: Dict[str, InstalledPackage] = {}
+        return self.packages_required_by([Dependency(package)]).values()
 
-        def collect(p: InstalledPackage):
-            if put_if_absent(collected, p.name_key, p):
-                for dependency in p.dependencies(self.env.installation_target):
-                    if q := self.installed_package(dependency.package_name):
-                        collect(q)
+    def packages_required_by(self, dependencies: Iterable[Dependency]) -> Dict[str, InstalledPackage]:
+        """
+        :param dependencies: the dependencies to start from
+        :return: the installed packages that the given `dependencies` need (directly or indirectly) by their name key,
+                 dependencies that are not installed are ignored and so are their required versions
+        """
+
+        result: Dict[str, InstalledPackage] = {}
+        done = set()
+        remaining = list(dependencies)
 
-        if installed_package := self.installed_package(package):
-            collect(installed_package)
-            return collected.values()
+        while next_ := pop_or_none(remaining):
+            if package := self.installed_package(next_.package_name):
+                result[package.name_key] = package
+                if add_if_absent(done, (package.name_key, frozenset(next_.extras or ()))):
+                    remaining.extend(package.dependencies(self.env.installation_target, next_.extras))
 
-        return ()
+        return result
 
     @cached_property
     def _name_to_packages(self) -> Dict[str, InstalledPackage]:
@@ -99,23 +105,8 @@ class SitePackages(Serializable):
         return [r for r in self.installed_packages() if r.user_request is not None]
 
     def find_orphan_packages(self) -> Iterable[InstalledPackage]:
-        installed = self.installed_packages()
-        requested = [p for p in installed if p.user_request is not None]
-        orphans = {p.name_key: p for p in installed}
-        done = set()
-
-        while next_ := pop_or_none(requested):
-            name = next_.name_key
-            if not add_if_absent(done, name):
-                continue
-
-            orphans.pop(name, None)
-
-            requested.extend(
-                i for d in next_.published_metadata.dependencies
-                if (i := self.installed_package(d.package_name)) is not None)
-
-        return orphans.values()
+        required = self.packages_required_by(p.user_request for p in self.find_requested_packages())
+        return [p for p in self.installed_packages() if p.name_key not in required]
 
     def reload(self):
         clear_cached_properties(self)
-- 
2.43.0


From 86f9c245cc3ee72d569bcc3e9cc82d2812d10c04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:33 +0000
Subject: [PATCH 039/153] fix: operations of parallel installations do not
 break each other in shared directories

Directories that several packages share were created, tested for emptiness and removed
without regard to other operations that create, fill or remove them at the same time, and
uninstalling a package removed the compiled files of other packages.
---
 pkm/src/pkm/api/packages/site_packages.py | 23 +++++++--
 pkm/src/pkm/utils/files.py                | 61 +++++++++++++++++++----
 2 files changed, 68 insertions(+), 16 deletions(-)

diff --git a/pkm/src/pkm/api/packages/site_packages.py b/pkm/src/pkm/api/packages/site_packages.py
index cd416ad..6fb4045 100644
--- a/pkm/src/pkm/api/packages/site_packages.py
+++ b/pkm/src/pkm/api/packages/site_packages.py
@@ -10,7 +10,7 @@ from pkm.api.packages.package import Package, PackageDescriptor
 from pkm.api.packages.package_installation_info import StoreMode, PackageInstallationInfo
 from pkm.api.packages.package_metadata import PackageMetadata
 from pkm.api.versions.version_specifiers import VersionMatch
-from pkm.utils.files import is_empty_directory, is_relative_to
+from pkm.utils.files import is_relative_to, remove_empty_directory
 from pkm.utils.types import Serializable
 from pkm.utils.properties import cached_property, clear_cached_properties
 from pkm.utils.sequences import pop_or_none
@@ -120,6 +120,20 @@ def _read_user_request(dist_info: DistInfo, metadata: PackageMetadata) -> Option
     return None
 
 
+def _remove_stale_cache(precompiled: Path):
+    """
+    remove from the given "__pycache__" directory whatever was compiled from sources that does not exist anymore
+    (the directory may be shared with other packages), and the directory itself if nothing is left in it
+    """
+    try:
+        for cached in precompiled.iterdir():
+            if not (precompiled.parent / f"{cached.name.split('.')[0]}.py").exists():
+                cached.unlink()
+        remove_empty_directory(precompiled)
+    except OSError:
+        pass  # best effort
+
+
 class InstalledPackage(Package, Serializable):
 
     def __init__(self, dist_info: DistInfo, site: Optional[SitePackages] = None):
@@ -221,11 +235,10 @@ class InstalledPackage(Package, Serializable):
             if parent in installation_sites or not any(is_relative_to(parent, site) for site in installation_sites):
                 continue
 
-            if (precompiled := parent / "__pycache__").exists():
-                shutil.rmtree(precompiled, ignore_errors=True)
+            if (precompiled := parent / "__pycache__").is_dir():
+                _remove_stale_cache(precompiled)
 
-            if is_empty_directory(parent):
-                parent.rmdir()
+            if remove_empty_directory(parent):
                 parents_to_check.add(parent.parent)
 
         if self._dist_info.path.exists():
diff --git a/pkm/src/pkm/utils/files.py b/pkm/src/pkm/utils/files.py
index a0fd935..5c3a40c 100644
--- a/pkm/src/pkm/utils/files.py
+++ b/pkm/src/pkm/utils/files.py
@@ -1,11 +1,12 @@
 from __future__ import annotations
 
+import errno
 import os
 import shutil
 from contextlib import contextmanager
 from pathlib import Path
 from tempfile import mkdtemp
-from typing import Optional, Callable, ContextManager, Iterator, List, Set
+from typing import Any, Optional, Callable, ContextManager, Iterator, List, Set
 
 from pkm.utils.commons import UnsupportedOperationException
 
@@ -20,6 +21,23 @@ def is_empty_directory(path: Path) -> bool:
     return path.is_dir() and next(path.iterdir(), None) is None
 
 
+def remove_empty_directory(path: Path) -> bool:
+    """
+    remove the given directory if it is empty, taking into account that others may fill or remove it at the same time
+    :param path: the directory to remove
+    :return: True if the directory was removed by this call, False if it is not empty or does not exist
+    """
+    try:
+        path.rmdir()
+        return True
+    except FileNotFoundError:
+        return False
+    except OSError as e:
+        if e.errno in (errno.ENOTEMPTY, errno.EEXIST):
+            return False
+        raise
+
+
 def ensure_exists(path: Path, error_msg: Optional[Callable[[], str]] = None) -> Path:
     """
     :param path: the path to check if exists
@@ -116,6 +134,9 @@ def name_without_ext(path: Path) -> str:
         return name
 
 
+_MAX_WRITE_ATTEMPTS = 100
+
+
 class CopyTransaction:
     """
     a context manager for copy transactions,
@@ -143,7 +164,7 @@ class CopyTransaction:
 
         if file_copy:
             def cp(s, d):
-                file_copy(s, self.prepare(d))
+                self._write(d, lambda: file_copy(s, d))
         else:
             cp = self.copy
 
@@ -163,13 +184,19 @@ class CopyTransaction:
         :param target: the directory path to create
         :return `target` to be used with chaining
         """
-        if not target.exists():
-            if not target.parent.exists():
-                self.mkdir(target.parent)
-            self._copied_files.add(target)
-            target.mkdir()
+        for _ in range(_MAX_WRITE_ATTEMPTS):
+            if target.exists():
+                return target
 
-        return target
+            self.mkdir(target.parent)
+            try:
+                target.mkdir()
+                self._copied_files.add(target)
+                return target
+            except (FileExistsError, FileNotFoundError):
+                pass  # other transactions may create, or remove, the same directories at the same time
+
+        raise FileNotFoundError(f"could not create directory: {target}")
 
     def copy(self, source: Path, target: Path):
         """
@@ -180,7 +207,18 @@ class CopyTransaction:
         if source.is_dir():
             raise UnsupportedOperationException("copy should not work with directories, use copy_tree or mkdir instead")
 
-        shutil.copy(source, self.prepare(target))
+        self._write(target, lambda: shutil.copy(source, target))
+
+    def _write(self, target: Path, writer: Callable[[], Any]):
+        for attempts_left in reversed(range(_MAX_WRITE_ATTEMPTS)):
+            self.prepare(target)
+            try:
+                writer()
+                return
+            except FileNotFoundError as e:
+                # the target directory may have been removed by others (while empty) after it was prepared
+                if not attempts_left or e.filename is None or Path(e.filename) != target:
+                    raise
 
     def prepare(self, target: Path) -> Path:
         """
@@ -259,12 +297,13 @@ class CopyTransaction:
         for file in sorted(self._copied_files, key=lambda it: len(it.parts), reverse=True):
             if file.is_symlink() or not file.is_dir():
                 file.unlink(missing_ok=True)
-            elif is_empty_directory(file):
-                file.rmdir()
+            else:
+                remove_empty_directory(file)
 
         # last overwritten first, the same file may have been overwritten more than once
         for i, path in reversed(list(enumerate(self._overwritten_files))):
             restore_path = self._temp_dir / str(i)
+            mkdir(path.parent)
             shutil.move(restore_path, path)
 
         self._commit()
-- 
2.43.0


From ab063658d06c02cc9b8d761eab128627d2f36fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:33 +0000
Subject: [PATCH 040/153] fix: removed packages are removed before the packages
 that take over their files are installed

---
 pkm/src/pkm/api/packages/package_installation.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pkm/src/pkm/api/packages/package_installation.py b/pkm/src/pkm/api/packages/package_installation.py
index 80350ea..f297b41 100644
--- a/pkm/src/pkm/api/packages/package_installation.py
+++ b/pkm/src/pkm/api/packages/package_installation.py
@@ -308,12 +308,13 @@ class InstallationPlan:
         parallelism = pkm.config.concurrency_mode if concurrency_mode is None else concurrency_mode
         threads = pkm.threads if parallelism != "none" else None
 
-        if parallelism == "proc" and sum(1 for it in tasks if it.can_be_multiprocessesd()) > 1:
-            procpool = pkm.processes
-            await_all_promises_or_cancel([task.execute(threads, procpool) for task in tasks])
+        multiproc = parallelism == "proc" and sum(1 for it in tasks if it.can_be_multiprocessesd()) > 1
+        procpool = pkm.processes if multiproc else None
 
-        else:
-            await_all_promises_or_cancel([task.execute(threads, None) for task in tasks])
+        # the files of removed and updated packages may be taken over by other (new) packages
+        for phase in (PackageOperation.REMOVE, PackageOperation.UPDATE, PackageOperation.INSTALL):
+            await_all_promises_or_cancel(
+                [task.execute(threads, procpool) for task in tasks if task.operation == phase])
 
         site.reload()
 
@@ -327,6 +328,10 @@ class _PackageOperationTask:
         self._user_request = user_request
         self._target = target
 
+    @property
+    def operation(self) -> PackageOperation:
+        return self._operation
+
     def can_be_multiprocessesd(self):
         return isinstance(self._package, Serializable)
 
-- 
2.43.0


From 8e84c27ea198778a582f2bf69651ab0f29dc0598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:39 +0000
Subject: [PATCH 041/153] fix: the specifiers that allow all or no versions
 stay the same instance when sent to another process

---
 pkm/src/pkm/api/versions/version_specifiers.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkm/src/pkm/api/versions/version_specifiers.py b/pkm/src/pkm/api/versions/version_specifiers.py
index 006a502..4da9b46 100644
--- a/pkm/src/pkm/api/versions/version_specifiers.py
+++ b/pkm/src/pkm/api/versions/version_specifiers.py
@@ -97,6 +97,9 @@ class VersionSpecifier(ABC):
 @dataclass(unsafe_hash=True)
 class _RestrictAll(VersionSpecifier):
 
+    def __reduce__(self):
+        return 'RestrictAllVersions'  # stay the same (single) instance after pickling
+
     def inverse(self) -> VersionSpecifier:
         return AllowAllVersions
 
@@ -131,6 +134,9 @@ RestrictAllVersions = _RestrictAll()
 @dataclass(unsafe_hash=True)
 class _AllowAll(VersionSpecifier):
 
+    def __reduce__(self):
+        return 'AllowAllVersions'  # stay the same (single) instance after pickling
+
     def inverse(self) -> VersionSpecifier:
         return RestrictAllVersions
 
-- 
2.43.0


From 41a77371593d337ee4ed6ae36cffb75613f432da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:39 +0000
Subject: [PATCH 042/153] fix: running operations of worker processes are not
 reported as canceled

---
 pkm/src/pkm/utils/multiproc/__init__.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pkm/src/pkm/utils/multiproc/__init__.py b/pkm/src/pkm/utils/multiproc/__init__.py
index bb410c9..c66bf81 100644
--- a/pkm/src/pkm/utils/multiproc/__init__.py
+++ b/pkm/src/pkm/utils/multiproc/__init__.py
@@ -7,6 +7,7 @@ import sys
 import traceback
 import typing
 from abc import ABC, abstractmethod
+from concurrent.futures import CancelledError
 from dataclasses import dataclass
 from io import StringIO
 from pathlib import Path
@@ -205,12 +206,14 @@ class _TaskResult:
         return True
 
     def _on_cancel(self) -> bool:
-        if self._canceled or self.deferred.promise().is_completed():
-            with self._lock:
-                self._canceled = True
-                if self._attached_worker:
-                    self._attached_worker.kill()
+        with self._lock:
+            if self._canceled:
+                return True
+            if self._attached_worker:
+                return False  # already running, killing its worker may leave half of its work behind
+            self._canceled = True
 
+        self.deferred.fail(CancelledError())
         return True
 
 
-- 
2.43.0


From f8d7267f1f4aeb0eb9c1467f0fcef15214e15d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:03 +0000
Subject: [PATCH 043/153] fix: toml: a comment in the last line of a file
 without a new line hangs the parser

---
 pkm/src/pkm/config/toml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/config/toml.py b/pkm/src/pkm/config/toml.py
index c3498b3..1f36deb 100644
--- a/pkm/src/pkm/config/toml.py
+++ b/pkm/src/pkm/config/toml.py
@@ -407,7 +407,7 @@ class _TomlParser(SimpleParser):
             result += self.match_ws(allow_new_lines)
             n = self.peek()
             if n == '#':  # comment
-                result += self.until_match('\n')
+                result += self.until(lambda i, t: t[i] == '\n')
             else:
                 break
 
-- 
2.43.0


From 5ebb1fc2a4d2c06bdc864e7fa007f3738b2724ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:40 +0000
Subject: [PATCH 044/153] fix: toml: read strings by the toml rules instead of
 evaluating them as python source (escaped backslash before the closing quote,
 leading new line, unicode escapes)

---
 pkm/src/pkm/config/toml.py | 61 +++++++++++++++++++++++++-------------
 1 file changed, 41 insertions(+), 20 deletions(-)

diff --git a/pkm/src/pkm/config/toml.py b/pkm/src/pkm/config/toml.py
index 1f36deb..b5b7c32 100644
--- a/pkm/src/pkm/config/toml.py
+++ b/pkm/src/pkm/config/toml.py
@@ -8,6 +8,13 @@ from typing import Optional, Dict, Any, Mapping, List, Tuple, Union, MutableMapp
 from pkm.utils.parsers import SimpleParser
 
 _KEY_RX = re.compile(r'[a-zA-Z\d\-_]+')
+_BASIC_STR_RX = re.compile(r'((?:[^"\\\n]|\\.)*)"')
+_LITERAL_STR_RX = re.compile(r"([^'\n]*)'")
+_MULTILINE_BASIC_STR_RX = re.compile(r'\n?((?:[^"\\]|\\.|"{1,2}(?!"))*(?:"{1,2}(?="{3}(?!")))?)"""', re.DOTALL)
+_MULTILINE_LITERAL_STR_RX = re.compile(r"\n?((?:[^']|'{1,2}(?!'))*(?:'{1,2}(?='{3}(?!')))?)'''")
+_ESCAPE_RX = re.compile(
+    r'\\(?:u(?P<u4>[0-9a-fA-F]{4})|U(?P<u8>[0-9a-fA-F]{8})|(?P<newline>[ \t]*\n\s*)|.)', re.DOTALL)
+_ESCAPES = {'b': '\b', 't': '\t', 'n': '\n', 'f': '\f', 'r': '\r', '"': '"', '\\': '\\'}
 KEY_T = Tuple
 DUMPS_T = Callable[[Dict[str, Any]], str]
 
@@ -413,39 +420,53 @@ class _TomlParser(SimpleParser):
 
         return result
 
+    def _unescape(self, s: str, multiline: bool) -> str:
+        def replacement(m: re.Match) -> str:
+            escape = m.group()
+            if escape[1:2] in _ESCAPES:
+                return _ESCAPES[escape[1]]
+            code = int(m.group('u4') or m.group('u8') or 'D800', 16)
+            if code <= 0x10FFFF and not 0xD800 <= code <= 0xDFFF:
+                return chr(code)
+            if multiline and m.group('newline'):
+                return ''
+            self.raise_err(f'illegal escape sequence in string: {escape}')
+
+        return _ESCAPE_RX.sub(replacement, s)
+
     def read_multiline_basic_str(self) -> str:
         self.match_or_err('"""', 'multiline basic string expected')
-        s = '"""' + self.until_match('"""')
-        while s[-1] == '\\':
-            s += self.next(3) + self.until_match('"""')
+        if not (m := _MULTILINE_BASIC_STR_RX.match(self.text, self.position)):
+            self.raise_err('multiline basic string ending expected')
 
-        s += '"""'
-        self.match_or_err('"""', 'multiline basic string ending expected')
-
-        return eval(s)
+        result = self._unescape(m.group(1), True)
+        self.position = m.end()
+        return result
 
     def read_multiline_literal_str(self) -> str:
         self.match_or_err("'''", 'multiline literal string expected')
-        string = self.until_match("'''")
-        self.match_or_err("'''", "missing multiline literal string closing")
-        return string
+        if not (m := _MULTILINE_LITERAL_STR_RX.match(self.text, self.position)):
+            self.raise_err("missing multiline literal string closing")
+
+        self.position = m.end()
+        return m.group(1)
 
     def read_basic_str(self) -> str:
         self.match_or_err('"', 'basic string expected')
-        s = '"' + self.until_match('"')
-        while s[-1] == '\\':
-            s += self.next() + self.until_match('"')
-
-        s += '"'
-        self.match_or_err('"', 'basic string ending expected')
+        if not (m := _BASIC_STR_RX.match(self.text, self.position)):
+            self.raise_err('basic string ending expected')
 
-        return eval(s)
+        result = self._unescape(m.group(1), False)
+        self.position = m.end()
+        return result
 
     def read_literal_str(self) -> str:
         self.match_or_err("'", 'literal string expected')
-        string = self.until_match("'")
-        self.match_or_err("'", "missing literal string closing")
-        return string
+        if not (m := _LITERAL_STR_RX.match(self.text, self.position)):
+            self.raise_err("missing literal string closing")
+
+        self.position = m.end()
+        return m.group(1)
 
     def read_str(self) -> str:
         n = self.peek(3)
-- 
2.43.0


From 0c8a101d8c78287438e8c944039cab30cf464921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:40 +0000
Subject: [PATCH 045/153] fix: toml: read numbers and dates by the toml rules
 (dates and numbers at the end of the file failed, hexadecimal and _ separated
 numbers were cut)

---
 pkm/src/pkm/config/toml.py | 33 +++++++++++++++++----------------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/pkm/src/pkm/config/toml.py b/pkm/src/pkm/config/toml.py
index b5b7c32..55791f4 100644
--- a/pkm/src/pkm/config/toml.py
+++ b/pkm/src/pkm/config/toml.py
@@ -15,6 +15,13 @@ _MULTILINE_LITERAL_STR_RX = re.compile(r"\n?((?:[^']|'{1,2}(?!'))*(?:'{1,2}(?='{
 _ESCAPE_RX = re.compile(
     r'\\(?:u(?P<u4>[0-9a-fA-F]{4})|U(?P<u8>[0-9a-fA-F]{8})|(?P<newline>[ \t]*\n\s*)|.)', re.DOTALL)
 _ESCAPES = {'b': '\b', 't': '\t', 'n': '\n', 'f': '\f', 'r': '\r', '"': '"', '\\': '\\'}
+_DATE_RX = re.compile(
+    r'[0-9]{4}-[0-9]{2}-[0-9]{2}(?:[Tt ][0-9]{2}:[0-9]{2}:[0-9]{2}(?:\.[0-9]+)?(?:[Zz]|[+-][0-9]{2}:[0-9]{2})?)?'
+    r'|[0-9]{2}:[0-9]{2}:[0-9]{2}(?:\.[0-9]+)?')
+_NUMBER_RX = re.compile(
+    r'(?P<float>[+-]?(?:inf|nan|(?:0|[1-9](?:_?[0-9])*)'
+    r'(?:\.[0-9](?:_?[0-9])*(?:[eE][+-]?[0-9](?:_?[0-9])*)?|[eE][+-]?[0-9](?:_?[0-9])*)))'
+    r'|0x[0-9a-fA-F](?:_?[0-9a-fA-F])*|0o[0-7](?:_?[0-7])*|0b[01](?:_?[01])*|[+-]?(?:0|[1-9](?:_?[0-9])*)')
 KEY_T = Tuple
 DUMPS_T = Callable[[Dict[str, Any]], str]
 
@@ -550,25 +557,17 @@ class _TomlParser(SimpleParser):
             dtable_key = (*table_key, *key[0:i])
             self.style.update_value_auto_display(dtable_key, {}, display)
 
-    def read_date(self) -> TimeLiteral:
-        ts = self.until(lambda s, i: s[i].isnumeric() or s[i] in '-.: TZ')
-        return TimeLiteral(ts)
-
     def read_number_or_date(self) -> Union[Number, TimeLiteral]:
-        pos = self.position
-
-        sign = (self.match('-') and '-') or (self.match('+') and '+') or ''
-        nstr = sign + self.until(lambda i, s: not s[i].isnumeric() and s[i] not in '.e')
-
-        n = self.peek()
-        if n in '-:':
-            self.position = pos
-            return self.read_date()
+        if m := _DATE_RX.match(self.text, self.position):
+            self.position = m.end()
+            return TimeLiteral(m.group())
 
-        if not nstr:
+        if not (m := _NUMBER_RX.match(self.text, self.position)):
             self.raise_err("number expected")
 
-        return eval(nstr)
+        self.position = m.end()
+        nstr = m.group().replace('_', '')
+        return float(nstr) if m.group('float') else int(nstr, 0)
 
     def read_bool(self) -> bool:
         if self.match('true'):
@@ -626,7 +625,9 @@ class _TomlParser(SimpleParser):
         p = self.position
         n = self.peek()
         result = None
-        if n in "+-" or n.isnumeric():
+        if not n:
+            self.raise_err("value expected")
+        elif n in "+-0123456789in":
             result = self.read_number_or_date()
             value_str = self.text[p:self.position]
         elif n in '\'"':
-- 
2.43.0


From c8ada3da95fa08f09e218825d3a8e87289814120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:26 +0000
Subject: [PATCH 046/153] fix: toml: read empty inline tables, reject text
 after a value instead of reading it as a table name

---
 pkm/src/pkm/config/toml.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/config/toml.py b/pkm/src/pkm/config/toml.py
index 55791f4..d297cd6 100644
--- a/pkm/src/pkm/config/toml.py
+++ b/pkm/src/pkm/config/toml.py
@@ -686,7 +686,7 @@ class _TomlParser(SimpleParser):
             self.read_non_data()
             key_start = self.peek()
             self.position = p
-            if not key_start or key_start == '[':
+            if not key_start or key_start in '[}':
                 break
 
             k = self.read_key(base_key=table_key)
@@ -706,6 +706,8 @@ class _TomlParser(SimpleParser):
 
     def read_regular_table(self) -> Tuple[KEY_T, Dict[str, Any]]:
         prolog = self.read_non_data()
+        if self.peek() != '[':
+            self.raise_err('expecting a table or the end of the line')
         key = self.read_key()
         self._mark_internal_tables((), key[:-1], 'hidden')
 
-- 
2.43.0


From 76af81bb9eef31bbdbedc9c9f37b87ee527ce76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:26 +0000
Subject: [PATCH 047/153] fix: toml: keep the comment that follows a list or an
 inline table, read blank inline tables

---
 pkm/src/pkm/config/toml.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/pkm/src/pkm/config/toml.py b/pkm/src/pkm/config/toml.py
index d297cd6..a150580 100644
--- a/pkm/src/pkm/config/toml.py
+++ b/pkm/src/pkm/config/toml.py
@@ -595,7 +595,7 @@ class _TomlParser(SimpleParser):
             next_ = self.read_inline_value(item_key)
             item_style = self.style.value_style(item_key, next_)
             item_style.prolog = item_prolog
-            item_style.epilog = self.read_non_data()
+            item_style.epilog += self.read_non_data()
             result.append(next_)
 
             p = self.position
@@ -604,8 +604,7 @@ class _TomlParser(SimpleParser):
 
         content_trailing = content_trailing or self.read_non_data()
         self.match_or_err(']', 'expecting list end')
-        epilog = self.read_non_data(False)
-        self.style.set_value_style(key, result, _ValueStyle(prolog=prolog, epilog=epilog, display='inline',
+        self.style.set_value_style(key, result, _ValueStyle(prolog=prolog, display='inline',
                                                             content_trailing=content_trailing))
         return result
 
@@ -613,9 +612,9 @@ class _TomlParser(SimpleParser):
         prolog = self.read_non_data(False)
         self.match_or_err('{', 'expecting inline-table start')
         result = self.read_table_assignments(key, inline=True)
+        self.match_ws(False)
         self.match_or_err('}', 'expecting inline-table end')
-        epilog = self.read_non_data(False)
-        self.style.set_value_style(key, result, _ValueStyle(prolog=prolog, epilog=epilog, display='inline'))
+        self.style.set_value_style(key, result, _ValueStyle(prolog=prolog, display='inline'))
         return result
 
     def read_inline_value(self, key: KEY_T) -> Any:
-- 
2.43.0


From df989ee6e21ad361ae3d0594f88942c6bcb2fa9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:01 +0000
Subject: [PATCH 048/153] fix: toml: tables that follow their sub tables
 dropped them, sub tables of table arrays lost their comments

---
 pkm/src/pkm/config/toml.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/pkm/src/pkm/config/toml.py b/pkm/src/pkm/config/toml.py
index a150580..1ec68db 100644
--- a/pkm/src/pkm/config/toml.py
+++ b/pkm/src/pkm/config/toml.py
@@ -92,9 +92,18 @@ class _StyleSheet:
 
     def lastify(self, key: KEY_T) -> KEY_T:
         lk = len(key) + 1
-        index = sum(len(k) == lk and k[:-1] == key for k in self.keys.keys())
+        index = sum(len(k) == lk and k[:-1] == key and isinstance(k[-1], int) for k in self.keys.keys())
         return *key, index
 
+    def resolve(self, key: KEY_T) -> KEY_T:
+        """ adds to the given table `key` the index of the last item of each table array it passes through """
+        result = ()
+        for part in key:
+            index = self.lastify(result)[-1]
+            result = (*result, index - 1, part) if index else (*result, part)
+
+        return result
+
     def set_key_style(self, key: KEY_T, style: _KeyStyle):
         self.keys[key] = style
 
@@ -534,6 +543,7 @@ class _TomlParser(SimpleParser):
 
         if table_key:
             self.match_or_err(']', 'expecting table key termination')
+            key = self.style.resolve(key)
 
         if table_list_key:
             self.match_ws()
@@ -661,11 +671,14 @@ class _TomlParser(SimpleParser):
                 data.append(value)
                 return
 
-            return self._enter(data[-1], key, value)
+            return self._enter(data[-1], key[1:], value)
 
         if isinstance(data, MutableMapping):
             if len(key) == 1:
-                data[key[0]] = value
+                if isinstance(value, Mapping) and isinstance(data.get(key[0]), Mapping):
+                    data[key[0]].update(value)  # tables that are defined before the table that contains them
+                else:
+                    data[key[0]] = value
                 return
 
             if key[0] not in data:
-- 
2.43.0


From 28537cb00b30d4e42570ab3a1de1e89cb39b1d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:23 +0000
Subject: [PATCH 049/153] fix: toml: write dotted tables that are nested, in
 inline tables, or next to sub tables

---
 pkm/src/pkm/config/toml.py | 81 ++++++++++++++++----------------------
 1 file changed, 33 insertions(+), 48 deletions(-)

diff --git a/pkm/src/pkm/config/toml.py b/pkm/src/pkm/config/toml.py
index 1ec68db..11dd678 100644
--- a/pkm/src/pkm/config/toml.py
+++ b/pkm/src/pkm/config/toml.py
@@ -78,6 +78,7 @@ class _KeyStyle:
     prolog: str = ''
     epilog: str = ''
     key_str: Optional[str] = None
+    offset: int = 0  # the length of the key of the table that contains this key
     display: str = 'auto'
 
 
@@ -125,6 +126,7 @@ class _StyleSheet:
         if display != 'auto' and result.display != display:
             result = copy(result)
             result.display = display
+            result.key_str = None
             if display == 'assignment':
                 result.epilog = ' '
 
@@ -247,9 +249,6 @@ class _Writer:
         if vstyle.display == 'inline':
             return self._write_inline_table(data, key, vstyle)
 
-        if vstyle.display == 'dotted':
-            return self._write_dotted_table(data, key, vstyle)
-
         raise ValueError(f"unknown table display style: {vstyle.display}")
 
     def _write_str(self, data: str, vstyle: _ValueStyle) -> str:
@@ -278,7 +277,7 @@ class _Writer:
         result = key_style.prolog
 
         key_str = key_style.key_str
-        if not key_str:
+        if not key_str or key_style.offset != offset:
             key_str = ''
             if display == 'table':
                 key_str += '['
@@ -317,24 +316,10 @@ class _Writer:
         result += self._write_key(key, 0, key_display)
 
         delayed_items: Dict[KEY_T, Any] = {}
-        has_assignments = False
-
-        for partial_key, item in data.items():
-            item_key = (*key, partial_key)
-            item_style = self.style.value_style(item_key, item)
+        assignments = self._write_assignments(data, key, len(key), delayed_items)
+        result += ''.join(f'{it}\n' for it in assignments)
 
-            if item_style.display == 'inline':
-                result += f"{self._write_key(item_key, len(key), 'assignment')}" \
-                          f"={self._write_value(item, item_key, item_style)}\n"
-                has_assignments = True
-            else:
-                if item_style.display == 'dotted':
-                    result += self._write_value(item, item_key, self.style.value_style(item_key, item))
-                    has_assignments = True
-                else:
-                    delayed_items[item_key] = item
-
-        if has_assignments:
+        if assignments:
             result += '\n'
 
         for item_key, item in delayed_items.items():
@@ -376,37 +361,36 @@ class _Writer:
     def _write_inline_table(self, data: Mapping[str, Any], key: KEY_T, vstyle: _ValueStyle) -> str:
         result = f"{vstyle.prolog}{{"
 
-        def _write_assignment(partial_key: str, item: Any) -> str:
+        result += ', '.join(self._write_assignments(data, key, len(key)))
+        result += f"}}{vstyle.epilog}"
+        return result
+
+    def _write_assignments(
+            self, data: Mapping[str, Any], key: KEY_T, offset: int,
+            delayed_items: Optional[Dict[KEY_T, Any]] = None) -> List[str]:
+        """
+        :param offset: the length of the key of the table that the assignments are written in, it is shorter than the
+                       given `key` if `data` is a dotted table
+        :param delayed_items: if given, the items that cannot be assigned are added to it, otherwise they are inlined
+        """
+        result = []
+        for partial_key, item in data.items():
             item_key = (*key, partial_key)
-            item_style = self.style.value_style(item_key, item, 'inline')
+            item_style = self.style.value_style(item_key, item)
 
-            return f"{self._write_key(item_key, len(key), 'assignment')}" \
-                   f"={self._write_value(item, item_key, item_style)}"
+            if item_style.display == 'dotted' and item:
+                result.extend(self._write_assignments(item, item_key, offset, delayed_items))
+                continue
 
-        result += ', '.join(_write_assignment(k, v) for k, v in data.items())
-        result += f"}}{vstyle.epilog}"
-        return result
+            if item_style.display != 'inline':
+                if delayed_items is not None and item_style.display != 'dotted':
+                    delayed_items[item_key] = item
+                    continue
+                item_style = self.style.value_style(item_key, item, 'inline')
 
-    def _write_dotted_table(self, data: Mapping[str, Any], key: KEY_T, vstyle: _ValueStyle) -> str:
-        subkey = self._write_key_part(key)
-        result = ""
+            result.append(f"{self._write_key(item_key, offset, 'assignment')}"
+                          f"={self._write_value(item, item_key, item_style)}")
 
-        def _write_assignment(partial_key: str, item: Any) -> str:
-            item_key = (*key, partial_key)
-            key_style = self.style.key_style(item_key)
-            key_str = self._write_key(item_key, len(key), 'assignment')
-            if not key_style.key_str:
-                key_str = f"{subkey}.{key_str}"
-            item_style = self.style.value_style(item_key, item, 'inline')
-            value_str = self._write_value(item, item_key, item_style)
-
-            if isinstance(item, Mapping) and item_style.display == 'dotted':
-                return value_str
-            return f"{key_str}={value_str}"
-
-        result += '\n'.join(_write_assignment(k, v) for k, v in data.items())
-        result += '\n'
-        result += vstyle.epilog
         return result
 
     def _write_table_list(self, data: List[Mapping[str, Any]], key: KEY_T, vstyle: _ValueStyle) -> str:
@@ -559,7 +543,8 @@ class _TomlParser(SimpleParser):
             display = 'table-array-item'
 
         self.style.set_key_style((*base_key, *key),
-                                 _KeyStyle(prolog=prolog, epilog=epilog, key_str=key_str, display=display))
+                                 _KeyStyle(prolog=prolog, epilog=epilog, key_str=key_str, offset=len(base_key),
+                                           display=display))
         return key
 
     def _mark_internal_tables(self, table_key: KEY_T, key: KEY_T, display: str):
-- 
2.43.0


From d525ce476760a3f907d5d4dd97fc13edbb5f9497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:24 +0000
Subject: [PATCH 050/153] fix: toml: escape control characters and non ascii
 digits of keys

---
 pkm/src/pkm/config/toml.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/config/toml.py b/pkm/src/pkm/config/toml.py
index 11dd678..b795287 100644
--- a/pkm/src/pkm/config/toml.py
+++ b/pkm/src/pkm/config/toml.py
@@ -7,7 +7,7 @@ from typing import Optional, Dict, Any, Mapping, List, Tuple, Union, MutableMapp
 
 from pkm.utils.parsers import SimpleParser
 
-_KEY_RX = re.compile(r'[a-zA-Z\d\-_]+')
+_KEY_RX = re.compile(r'[a-zA-Z0-9\-_]+')
 _BASIC_STR_RX = re.compile(r'((?:[^"\\\n]|\\.)*)"')
 _LITERAL_STR_RX = re.compile(r"([^'\n]*)'")
 _MULTILINE_BASIC_STR_RX = re.compile(r'\n?((?:[^"\\]|\\.|"{1,2}(?!"))*(?:"{1,2}(?="{3}(?!")))?)"""', re.DOTALL)
@@ -264,6 +264,7 @@ class _Writer:
                 ord('\\'): '\\\\',
             })
 
+            escaped = re.sub(r'[\x00-\x1f\x7f]', lambda m: f'\\u{ord(m.group()):04x}', escaped)
             value_str = f'"{escaped}"'
 
         return f'{vstyle.prolog}{value_str}{vstyle.epilog}'
-- 
2.43.0


From fe061478046d60789bd6c443b5e2b238a1424dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:24 +0000
Subject: [PATCH 051/153] fix: toml: a value that is replaced by an equal value
 of another type (e.g., 1 by true) keeps its old text

---
 pkm/src/pkm/config/toml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/config/toml.py b/pkm/src/pkm/config/toml.py
index b795287..6f47151 100644
--- a/pkm/src/pkm/config/toml.py
+++ b/pkm/src/pkm/config/toml.py
@@ -38,7 +38,7 @@ class _ValueSignature:
             # return type(other) == type(self._value)
             return isinstance(other, type(self._value))
 
-        return id(self._value) == id(other) or self._value == other
+        return id(self._value) == id(other) or (type(self._value) is type(other) and self._value == other)
 
 
 _none_signature = _ValueSignature(None)
-- 
2.43.0


From f32b049941eb4b5a4cd8eaf620f35f25fa28d324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:24 +0000
Subject: [PATCH 052/153] fix: toml: empty tables and lists in tables without a
 header were not written

---
 pkm/src/pkm/config/toml.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pkm/src/pkm/config/toml.py b/pkm/src/pkm/config/toml.py
index 6f47151..b87dde6 100644
--- a/pkm/src/pkm/config/toml.py
+++ b/pkm/src/pkm/config/toml.py
@@ -163,7 +163,7 @@ class _StyleSheet:
 
                 if is_root:
                     vstyle.display = 'regular'
-                elif has_no_assignments:
+                elif value and has_no_assignments:
                     vstyle.display = 'hidden'
                 elif contains_large_data or is_first_level:
                     vstyle.display = 'regular'
@@ -243,9 +243,12 @@ class _Writer:
         if vstyle.display == 'regular':
             return self._write_regular_table(data, key, vstyle)
 
-        if vstyle.display == 'hidden':
+        if vstyle.display == 'hidden' and data:
             return self._write_hidden_table(data, key, vstyle)
 
+        if vstyle.display == 'hidden':
+            return self._write_regular_table(data, key, self.style.value_style(key, data, 'regular'))
+
         if vstyle.display == 'inline':
             return self._write_inline_table(data, key, vstyle)
 
@@ -341,7 +344,8 @@ class _Writer:
             is_table = isinstance(item, Mapping)
 
             inappropriate_item = not is_list and not is_table
-            inappropriate_item = inappropriate_item or is_list and any(not isinstance(it, Mapping) for it in item)
+            inappropriate_item = inappropriate_item or is_list and (
+                    not item or any(not isinstance(it, Mapping) for it in item))
 
             if inappropriate_item:
                 return self._write_regular_table(data, key, self.style.value_style(key, data, 'regular'))
-- 
2.43.0


From 55ab81d563dfe6186e5fe8ffee41399ade5b4282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:12 +0000
Subject: [PATCH 053/153] fix: toml: tables that became empty below a table
 without a header were not written

---
 pkm/src/pkm/config/toml.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/config/toml.py b/pkm/src/pkm/config/toml.py
index b87dde6..4744d9e 100644
--- a/pkm/src/pkm/config/toml.py
+++ b/pkm/src/pkm/config/toml.py
@@ -356,7 +356,7 @@ class _Writer:
 
             if is_list:
                 result += self._write_table_list(item, item_key, item_style)
-            elif item_style.display == 'hidden':
+            elif item_style.display == 'hidden' and item:
                 result += self._write_hidden_table(item, item_key, item_style)
             else:
                 result += self._write_regular_table(item, item_key, item_style)
@@ -701,6 +701,8 @@ class _TomlParser(SimpleParser):
             if inline and not self.match(', ') and not self.match(','):
                 break
             if not inline and not self.match('\n'):
+                if self.is_not_empty():
+                    self.raise_err('expecting the end of the line')
                 break
 
         self.match('\n')  # drop last \n seperating assignments and next table - it is added implicitly
-- 
2.43.0


From 65e21b16081cb179919790977dfefde7e8dd0c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:39 +0000
Subject: [PATCH 054/153] fix: toml: comments of a table that is turned into an
 inline table break the written document

---
 pkm/src/pkm/config/toml.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/pkm/src/pkm/config/toml.py b/pkm/src/pkm/config/toml.py
index 4744d9e..979bcde 100644
--- a/pkm/src/pkm/config/toml.py
+++ b/pkm/src/pkm/config/toml.py
@@ -1,6 +1,6 @@
 import re
 from copy import copy
-from dataclasses import dataclass
+from dataclasses import dataclass, replace
 from numbers import Number
 from pathlib import Path
 from typing import Optional, Dict, Any, Mapping, List, Tuple, Union, MutableMapping, Callable
@@ -82,6 +82,11 @@ class _KeyStyle:
     display: str = 'auto'
 
 
+
+def _has_comment_or_newline(*texts: str) -> bool:
+    return any('#' in it or '\n' in it for it in texts)
+
+
 _DEFAULT_VALUE_STYLE = _ValueStyle()
 _DEFAULT_KEY_STYLE = _KeyStyle()
 
@@ -393,8 +398,15 @@ class _Writer:
                     continue
                 item_style = self.style.value_style(item_key, item, 'inline')
 
-            result.append(f"{self._write_key(item_key, offset, 'assignment')}"
-                          f"={self._write_value(item, item_key, item_style)}")
+            key_str = self._write_key(item_key, offset, 'assignment')
+            if delayed_items is None:  # the item is inlined: comments and new lines around it are illegal
+                if _has_comment_or_newline(item_style.prolog, item_style.epilog):
+                    item_style = replace(item_style, prolog=' ', epilog='')
+                key_style = self.style.key_style(item_key, 'assignment')
+                if _has_comment_or_newline(key_style.prolog):
+                    key_str = key_str[len(key_style.prolog):]
+
+            result.append(f"{key_str}={self._write_value(item, item_key, item_style)}")
 
         return result
 
-- 
2.43.0


From 5914bbd23bb12a517c6959dd091782d2a6c7116a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:43 +0000
Subject: [PATCH 055/153] fix: toml: data that is added to a document that is
 only a comment became part of the comment

---
 pkm/src/pkm/config/toml.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkm/src/pkm/config/toml.py b/pkm/src/pkm/config/toml.py
index 979bcde..5000cd2 100644
--- a/pkm/src/pkm/config/toml.py
+++ b/pkm/src/pkm/config/toml.py
@@ -740,6 +740,8 @@ class _TomlParser(SimpleParser):
 
     def read(self) -> Dict[str, Any]:
         prolog = self.read_non_data()
+        if prolog and self.is_empty():
+            prolog += '\n'  # data may be added after a comment that ends the file
         epilog = ''
         data = self.read_table_assignments(())
 
-- 
2.43.0


From e0bbb2df8fae3514c86395c523ec0e3a0ce67553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:42 +0000
Subject: [PATCH 056/153] fix: toml: white space before the closing bracket of
 a table header

---
 pkm/src/pkm/config/toml.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkm/src/pkm/config/toml.py b/pkm/src/pkm/config/toml.py
index 5000cd2..a0dfc36 100644
--- a/pkm/src/pkm/config/toml.py
+++ b/pkm/src/pkm/config/toml.py
@@ -543,6 +543,7 @@ class _TomlParser(SimpleParser):
         key = tuple(parts)
 
         if table_key:
+            self.match_ws(False)
             self.match_or_err(']', 'expecting table key termination')
             key = self.style.resolve(key)
 
-- 
2.43.0


From f6b9ff38de062cd2ccb480699c941886378bf959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:42 +0000
Subject: [PATCH 057/153] fix: toml: texts with windows line ends

---
 pkm/src/pkm/config/toml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/config/toml.py b/pkm/src/pkm/config/toml.py
index a0dfc36..c1a29f3 100644
--- a/pkm/src/pkm/config/toml.py
+++ b/pkm/src/pkm/config/toml.py
@@ -766,7 +766,7 @@ def key2path(key: str) -> KEY_T:
 
 
 def loads(data: str, file_name: Optional[str] = None) -> Tuple[Dict[str, Any], DUMPS_T]:
-    reader = _TomlParser(data, file_name)
+    reader = _TomlParser(data.replace('\r\n', '\n'), file_name)
     data = reader.read()
 
     return data, lambda x: _Writer(reader.style).write(x)
-- 
2.43.0


From 9436419fc5d591a5669dd5a09a2f0edde1e523ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:20 +0000
Subject: [PATCH 058/153] fix: locked packages are found under any spelling of
 their name

---
 pkm/src/pkm/resolution/packages_lock.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkm/src/pkm/resolution/packages_lock.py b/pkm/src/pkm/resolution/packages_lock.py
index 348b0bd..e330d20 100644
--- a/pkm/src/pkm/resolution/packages_lock.py
+++ b/pkm/src/pkm/resolution/packages_lock.py
@@ -38,7 +38,7 @@ class PackagesLock:
     def __init__(self, locked_packages: Optional[List[_LockedVersion]] = None, lock_file: Optional[Path] = None):
         locked_packages = unone(locked_packages, list)
         self._locked_packages: Dict[str, List[_LockedVersion]] = \
-            groupby(locked_packages, lambda it: it.package.name)
+            groupby(locked_packages, lambda it: it.package.name_key)
         self._lock_file = lock_file
 
     def unlock_packages(self, package_names: Iterable[str]) -> PackagesLock:
@@ -49,7 +49,7 @@ class PackagesLock:
         :return self (for chaining support)
         """
         for pn in package_names:
-            self._locked_packages.pop(pn, None)
+            self._locked_packages.pop(PackageDescriptor.package_name_key(pn), None)
 
         return self
 
@@ -71,7 +71,7 @@ class PackagesLock:
         """
 
         relevant_locks = [lp for lst in self._locked_packages.values() for lp in lst] if not package else \
-            [lp for lp in (self._locked_packages.get(package) or ())]
+            [lp for lp in (self._locked_packages.get(PackageDescriptor.package_name_key(package)) or ())]
 
         if not relevant_locks:
             return []
@@ -102,7 +102,7 @@ class PackagesLock:
         for package in env.site_packages.installed_packages():
             new_locks.append(_LockedVersion(env_hash, package.descriptor))
 
-        self._locked_packages = groupby(new_locks, lambda it: it.package.name)
+        self._locked_packages = groupby(new_locks, lambda it: it.package.name_key)
         return self
 
     def save(self, lock_file: Optional[Path] = None):
-- 
2.43.0


From 8240bd7c9566f7461eb8fe6d4cdceb8a17f54162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:21 +0000
Subject: [PATCH 059/153] fix: the versions locked for an environment are
 preferred over those locked for other environments

---
 pkm/src/pkm/resolution/packages_lock.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/resolution/packages_lock.py b/pkm/src/pkm/resolution/packages_lock.py
index e330d20..0c89ddf 100644
--- a/pkm/src/pkm/resolution/packages_lock.py
+++ b/pkm/src/pkm/resolution/packages_lock.py
@@ -120,8 +120,11 @@ class PackagesLock:
 
     def sort_packages_by_lock_preference(self, env: Environment, packages: List[Package]) -> List[Package]:
         if packages:
+            env_locks = {lp.version for lp in self.env_specific_locks(env) if lp.name_key == packages[0].name_key}
             locked_versions = {lp.version for lp in self.locked_versions(env, packages[0].name)}
-            packages.sort(key=lambda it: 0 if it.version in locked_versions else 1)
+
+            # the version that is locked for the given environment comes before those that are locked for other ones
+            packages.sort(key=lambda it: 0 if it.version in env_locks else 1 if it.version in locked_versions else 2)
 
         return packages
 
-- 
2.43.0


From 9c2c61b5b91bf73a1d2a39a7eaf346f3e8084fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:13 +0000
Subject: [PATCH 060/153] fix: the dependencies of distribution files are those
 of their metadata

---
 pkm/src/pkm/api/distributions/distribution.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/distributions/distribution.py b/pkm/src/pkm/api/distributions/distribution.py
index 951743c..e950757 100644
--- a/pkm/src/pkm/api/distributions/distribution.py
+++ b/pkm/src/pkm/api/distributions/distribution.py
@@ -88,7 +88,7 @@ class _DistributionPackage(Package, Serializable):
     def dependencies(
             self, target: "PackageInstallationTarget",
             extras: Optional[List[str]] = None) -> List["Dependency"]:
-        return [d for d in self.published_metadata.dependencies if d.is_applicable_for(target.env, extras)]
+        return [d for d in self._metadata(target.env).dependencies if d.is_applicable_for(target.env, extras)]
 
     def is_compatible_with(self, env: "Environment") -> bool:
         from pkm.api.distributions.wheel_distribution import WheelDistribution
-- 
2.43.0


From ed0aa3831da850d0e5c949729c9c17c52f2bccca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:02 +0000
Subject: [PATCH 061/153] fix: PKM_HOME is usable as the home of pkm

---
 pkm/src/pkm/api/pkm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/pkm.py b/pkm/src/pkm/api/pkm.py
index 7ed1ab8..67e9c01 100644
--- a/pkm/src/pkm/api/pkm.py
+++ b/pkm/src/pkm/api/pkm.py
@@ -155,5 +155,6 @@ def _default_home_directory():
     return (path / 'pkm').expanduser().resolve()
 
 
-pkm_home = os.environ.get(ENV_PKM_HOME) or _default_home_directory()
+_env_home = os.environ.get(ENV_PKM_HOME)
+pkm_home = Path(_env_home).expanduser().resolve() if _env_home else _default_home_directory()
 pkm: Pkm = Pkm(pkm_home)
-- 
2.43.0


From cbead5072526eeff7755c0b1435c6a5e699411c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:02 +0000
Subject: [PATCH 062/153] fix: a context that inherits only the global
 repositories still uses its own ones

---
 pkm/src/pkm/api/repositories/repository_management.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/repositories/repository_management.py b/pkm/src/pkm/api/repositories/repository_management.py
index fe0d330..cb610a5 100644
--- a/pkm/src/pkm/api/repositories/repository_management.py
+++ b/pkm/src/pkm/api/repositories/repository_management.py
@@ -56,7 +56,7 @@ class RepositoryManagement(ABC):
 
     def package_lookup_chain(self) -> List[RepositoryManagement]:
         if self.configuration.inheritance_mode == RepositoriesConfigInheritanceMode.INHERIT_GLOBAL:
-            return [pkm.repository_management]
+            return [self] if self.context is pkm else [self, pkm.repository_management]
         elif self.configuration.inheritance_mode != RepositoriesConfigInheritanceMode.INHERIT_CONTEXT:
             return [self]
 
-- 
2.43.0


From 5a86b58c668767dc7e59d8bce25ccb949a974d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:02 +0000
Subject: [PATCH 063/153] fix: contexts without repositories that inherit none
 do not inherit the repositories of their parents

---
 pkm/src/pkm/api/repositories/repository_loader.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/pkm/src/pkm/api/repositories/repository_loader.py b/pkm/src/pkm/api/repositories/repository_loader.py
index 93f9ade..e04b344 100644
--- a/pkm/src/pkm/api/repositories/repository_loader.py
+++ b/pkm/src/pkm/api/repositories/repository_loader.py
@@ -111,11 +111,6 @@ class RepositoryLoader:
                 package_search_list.append(binding)
                 package_binding[package] = binding.name
 
-        if not package_search_list:
-            if config.inheritance_mode == RepositoriesConfigInheritanceMode.INHERIT_GLOBAL:
-                return self.global_repo
-            return next_in_context
-
         return _CompositeRepository(name, package_search_list, binding_only_repositories, package_binding)
 
     def build(self, name: str, builder: str, **args) -> Repository:
-- 
2.43.0


From aa914de80fbc4b1a5dac7dffda714da61f267e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:30 +0000
Subject: [PATCH 064/153] fix: loading a package binding does not change the
 configuration it was loaded from

---
 pkm/src/pkm/api/repositories/repository_loader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/api/repositories/repository_loader.py b/pkm/src/pkm/api/repositories/repository_loader.py
index e04b344..ea1d5e2 100644
--- a/pkm/src/pkm/api/repositories/repository_loader.py
+++ b/pkm/src/pkm/api/repositories/repository_loader.py
@@ -105,8 +105,8 @@ class RepositoryLoader:
             if isinstance(binding, str):
                 package_binding[package] = binding
             else:
-                type_ = binding.pop('type')
-                binding = self.build(name, type_, **binding)
+                type_ = binding['type']
+                binding = self.build(name, type_, **{k: v for k, v in binding.items() if k != 'type'})
                 binding_only_repositories.add(binding.name)
                 package_search_list.append(binding)
                 package_binding[package] = binding.name
-- 
2.43.0


From 75c35b95e83af5354deb24aed7b75a652151c713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:30 +0000
Subject: [PATCH 065/153] fix: repositories that are configured equally under
 different names are different repositories

---
 pkm/src/pkm/api/repositories/repository_loader.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pkm/src/pkm/api/repositories/repository_loader.py b/pkm/src/pkm/api/repositories/repository_loader.py
index ea1d5e2..57990aa 100644
--- a/pkm/src/pkm/api/repositories/repository_loader.py
+++ b/pkm/src/pkm/api/repositories/repository_loader.py
@@ -114,11 +114,11 @@ class RepositoryLoader:
         return _CompositeRepository(name, package_search_list, binding_only_repositories, package_binding)
 
     def build(self, name: str, builder: str, **args) -> Repository:
-        key = _CachedRepositoryKey(builder, args)
+        key = _CachedRepositoryKey(name, builder, args)
         if not (cached := self._cached_instances.get(key)):
-            if not (builder := self._builders.get(builder)):
+            if not (repo_builder := self._builders.get(builder)):
                 raise KeyError(f"unknown repository type: {builder}")
-            cached = builder.build(name, **{k.replace("-", "_"): v for k, v in args.items()})
+            cached = repo_builder.build(name, **{k.replace("-", "_"): v for k, v in args.items()})
             self._cached_instances[key] = cached
 
         return cached
@@ -126,11 +126,13 @@ class RepositoryLoader:
 
 @dataclass(eq=True)
 class _CachedRepositoryKey:
+    name: str
     builder: str
     args: Dict[str, str]
 
     def __hash__(self):
         return HashBuilder() \
+            .regular(self.name) \
             .regular(self.builder) \
             .unordered_mapping(self.args) \
             .build()
-- 
2.43.0


From cd1962dbe1e3dbf7b912f4076ccefeb987ed6afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:30 +0000
Subject: [PATCH 066/153] fix: package bindings hold for any spelling of the
 package, each inline one for its own repository

---
 pkm/src/pkm/api/repositories/repository_loader.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pkm/src/pkm/api/repositories/repository_loader.py b/pkm/src/pkm/api/repositories/repository_loader.py
index 57990aa..3bfe810 100644
--- a/pkm/src/pkm/api/repositories/repository_loader.py
+++ b/pkm/src/pkm/api/repositories/repository_loader.py
@@ -8,7 +8,7 @@ from typing import List, Dict, Iterable, Optional, Set, Mapping
 
 from pkm.api.dependencies.dependency import Dependency
 from pkm.api.environments.environment import Environment
-from pkm.api.packages.package import Package
+from pkm.api.packages.package import Package, PackageDescriptor
 from pkm.api.repositories.repositories_configuration import RepositoriesConfiguration, \
     RepositoriesConfigInheritanceMode
 from pkm.api.repositories.repository import Repository, RepositoryBuilder, AbstractRepository
@@ -102,11 +102,14 @@ class RepositoryLoader:
 
         package_binding: Dict[str, str] = {}
         for package, binding in config.package_bindings.items():
+            package = PackageDescriptor.package_name_key(package)
             if isinstance(binding, str):
                 package_binding[package] = binding
             else:
                 type_ = binding['type']
-                binding = self.build(name, type_, **{k: v for k, v in binding.items() if k != 'type'})
+                # the repository has no name, the name that it is given must differ from that of any other repository
+                binding = self.build(
+                    f"{name}#{package}", type_, **{k: v for k, v in binding.items() if k != 'type'})
                 binding_only_repositories.add(binding.name)
                 package_search_list.append(binding)
                 package_binding[package] = binding.name
@@ -163,7 +166,7 @@ class _CompositeRepository(AbstractRepository):
                     return match
             raise []
 
-        if repo_name := self._package_binding.get(dependency.package_name):
+        if repo_name := self._package_binding.get(dependency.package_name_key):
             if not (repo := first_or_none(it for it in self._package_search_list if it.name == repo_name)):
                 raise NoSuchElementException(f"package: {dependency.package_name} is bound to "
                                              f"repository: {repo_name}, but this repository is not defined")
-- 
2.43.0


From 12492ffe8fbb7898ada5c1197097a6db38dd192d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:30 +0000
Subject: [PATCH 067/153] fix: url dependencies that no repository handles do
 not match instead of failing with a TypeError

---
 pkm/src/pkm/api/repositories/repository_loader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/repositories/repository_loader.py b/pkm/src/pkm/api/repositories/repository_loader.py
index 3bfe810..592f340 100644
--- a/pkm/src/pkm/api/repositories/repository_loader.py
+++ b/pkm/src/pkm/api/repositories/repository_loader.py
@@ -164,7 +164,7 @@ class _CompositeRepository(AbstractRepository):
             for repo in self._url_handlers[url.protocol]:
                 if match := repo.match(dependency, env):
                     return match
-            raise []
+            return []
 
         if repo_name := self._package_binding.get(dependency.package_name_key):
             if not (repo := first_or_none(it for it in self._package_search_list if it.name == repo_name)):
-- 
2.43.0


From a9014db79da5d845006942e88aa77737bd85b0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:50 +0000
Subject: [PATCH 068/153] fix: bind-only repositories do not hide the inherited
 repositories that have the same name

---
 pkm/src/pkm/api/repositories/repository_loader.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/pkm/src/pkm/api/repositories/repository_loader.py b/pkm/src/pkm/api/repositories/repository_loader.py
index 592f340..0e55735 100644
--- a/pkm/src/pkm/api/repositories/repository_loader.py
+++ b/pkm/src/pkm/api/repositories/repository_loader.py
@@ -4,7 +4,7 @@ import warnings
 from collections import defaultdict
 from dataclasses import dataclass, field
 from pathlib import Path
-from typing import List, Dict, Iterable, Optional, Set, Mapping
+from typing import List, Dict, Iterable, Optional, Mapping
 
 from pkm.api.dependencies.dependency import Dependency
 from pkm.api.environments.environment import Environment
@@ -68,7 +68,7 @@ class RepositoryLoader:
                 warnings.warn(f"malformed repository entrypoint: {epoint}")
                 traceback.print_exc()
 
-        base = _CompositeRepository('base', base_repositories, set(), {})
+        base = _CompositeRepository('base', base_repositories, [], {})
 
         self._cached_instances: Dict[_CachedRepositoryKey, Repository] = {}
 
@@ -87,13 +87,13 @@ class RepositoryLoader:
 
     def load(self, name: str, config: RepositoriesConfiguration, next_in_context: Repository) -> Repository:
         package_search_list = []
-        binding_only_repositories = set()
+        binding_only_repositories: List[Repository] = []
 
         for defined_name, definition in config.repos.items():
             instance = self.build(defined_name, definition.type, **definition.args)
             package_search_list.append(instance)
             if definition.bind_only:
-                binding_only_repositories.add(defined_name)
+                binding_only_repositories.append(instance)
 
         if config.inheritance_mode == RepositoriesConfigInheritanceMode.INHERIT_CONTEXT:
             package_search_list.append(next_in_context)
@@ -110,7 +110,7 @@ class RepositoryLoader:
                 # the repository has no name, the name that it is given must differ from that of any other repository
                 binding = self.build(
                     f"{name}#{package}", type_, **{k: v for k, v in binding.items() if k != 'type'})
-                binding_only_repositories.add(binding.name)
+                binding_only_repositories.append(binding)
                 package_search_list.append(binding)
                 package_binding[package] = binding.name
 
@@ -144,7 +144,7 @@ class _CachedRepositoryKey:
 class _CompositeRepository(AbstractRepository):
     def __init__(
             self, name: str, package_search_list: List[Repository],
-            binding_only_repositories: Set[str], package_bindings: Mapping[str, str]):
+            binding_only_repositories: List[Repository], package_bindings: Mapping[str, str]):
         super().__init__(name)
 
         self._url_handlers: Dict[str, List[Repository]] = defaultdict(list)
@@ -173,7 +173,8 @@ class _CompositeRepository(AbstractRepository):
             return repo.match(dependency, env)
 
         for repo in self._package_search_list:
-            if repo.name not in self._binding_only_repositories and (result := repo.match(dependency, env)):
+            # compared by identity: an inherited repository may have the same name as a bind-only one
+            if all(repo is not it for it in self._binding_only_repositories) and (result := repo.match(dependency, env)):
                 return result
 
         return []
-- 
2.43.0


From 77363fd2319909822f46f30a57ca2b40a65eb621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:50 +0000
Subject: [PATCH 069/153] fix: file-system repositories find packages under any
 spelling, directories of distributions are not projects

---
 pkm/src/pkm/repositories/file_system_repository.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pkm/src/pkm/repositories/file_system_repository.py b/pkm/src/pkm/repositories/file_system_repository.py
index 55a5b08..d7d8ccb 100644
--- a/pkm/src/pkm/repositories/file_system_repository.py
+++ b/pkm/src/pkm/repositories/file_system_repository.py
@@ -22,7 +22,7 @@ class PackagesDictRepository(AbstractRepository):
         self._packages = packages
 
     def _do_match(self, dependency: Dependency, env: Environment) -> List[Package]:
-        all_packages = self._packages.get(dependency.package_name) or []
+        all_packages = self._packages.get(dependency.package_name_key) or []
         return self._sorted_by_version([p for p in all_packages if dependency.version_spec.allows_version(p.version)])
 
 
@@ -40,21 +40,21 @@ class FileSystemRepositoryBuilder(RepositoryBuilder):
             if ProjectGroup.is_valid(path):
                 project_group = ProjectGroup.load(path)
                 for project in project_group.project_children_recursive:
-                    packages[project.name].append(project)
-            else:
+                    packages[project.name_key].append(project)
+            elif (path / 'pyproject.toml').exists() or (path / 'setup.py').exists():
                 try:
                     project = Project.load(path)
-                    packages[project.name].append(project)
+                    packages[project.name_key].append(project)
                 except MalformedPackageException:
                     pass
 
             for dist in path.iterdir():
                 if _is_distribution(dist):
                     package = Distribution.package_from(dist)
-                    packages[package.name].append(package)
+                    packages[package.name_key].append(package)
         elif _is_distribution(path):
             package = Distribution.package_from(path)
-            packages[package.name].append(package)
+            packages[package.name_key].append(package)
 
         return PackagesDictRepository(name, packages)
 
-- 
2.43.0


From 5c9763abdc830f46b59b49a64273670018d9e80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:09 +0000
Subject: [PATCH 070/153] fix: packages can be bound to a repository instance,
 their previous bindings are found under any spelling

---
 .../api/repositories/repository_management.py | 24 ++++++++-----------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/pkm/src/pkm/api/repositories/repository_management.py b/pkm/src/pkm/api/repositories/repository_management.py
index cb610a5..c51701b 100644
--- a/pkm/src/pkm/api/repositories/repository_management.py
+++ b/pkm/src/pkm/api/repositories/repository_management.py
@@ -7,7 +7,7 @@ from typing import Dict, List, Optional, Tuple, Iterable, Union, Set
 from pkm.api.dependencies.dependency import Dependency
 from pkm.api.environments.environment import Environment
 from pkm.api.environments.environments_zoo import EnvironmentsZoo
-from pkm.api.packages.package import Package
+from pkm.api.packages.package import Package, PackageDescriptor
 from pkm.api.pkm import HasAttachedRepository, Pkm, pkm
 from pkm.api.projects.project import Project
 from pkm.api.projects.project_group import ProjectGroup
@@ -97,19 +97,15 @@ class RepositoryManagement(ABC):
         return result
 
     def register_bindings(self, packages: List[str], repo: Optional[Union[str, RepositoryInstanceConfig]]):
-        if repo:
-            if isinstance(repo, RepositoryInstanceConfig):
-                repo = repo.to_config()
-
-            self.configuration.package_bindings = {
-                **self.configuration.package_bindings,
-                **{p: repo for p in packages}
-            }
-        else:
-            self.configuration.package_bindings = {
-                p: r for p, r in self.configuration.package_bindings.items()
-                if p not in packages
-            }
+        if isinstance(repo, RepositoryInstanceConfig):
+            repo = {'type': repo.type, **repo.args}
+
+        package_keys = {PackageDescriptor.package_name_key(p) for p in packages}
+        self.configuration.package_bindings = {
+            **{p: r for p, r in self.configuration.package_bindings.items()
+               if PackageDescriptor.package_name_key(p) not in package_keys},
+            **({p: repo for p in packages} if repo else {})
+        }
 
         self._update_config()
 
-- 
2.43.0


From 2bfbc1b976f3ad3b69ff26d998db3446d9984ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:56 +0000
Subject: [PATCH 071/153] fix: install can bind packages to unnamed
 repositories, remove bindings and install into environments

---
 pkm-cli/src/pkm_cli/main.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/pkm-cli/src/pkm_cli/main.py b/pkm-cli/src/pkm_cli/main.py
index 1a8b3be..4dfec52 100644
--- a/pkm-cli/src/pkm_cli/main.py
+++ b/pkm-cli/src/pkm_cli/main.py
@@ -35,6 +35,10 @@ from pkm_cli.utils.context import Context
 tasks: Optional[TasksRunner] = None
 
 
+#: given instead of a repository name, it removes the bindings of the packages
+_DEFAULT_REPOSITORY = "default"
+
+
 class RepositoryInstanceFieldsProvider(ArgumentFieldsProvider):
 
     def provide(self, cmd: Command, arg: ArgumentDef, value: Any) -> Iterable[OptionDef]:
@@ -52,6 +56,9 @@ class AvailableRepositorySelectionReader(ArgumentReader):
             raise UnsupportedOperationException("context does not support attached repositories")
 
         name = buf.next_or_raise("expecting repository name")
+        if name == _DEFAULT_REPOSITORY:
+            return name
+
         repos_by_name = dict(har.repository_management.all_repositories())
         if not (repo := repos_by_name.get(name, None)):
             raise ValueError(f"undefined repository: {name} given for {argument.display_name}")
@@ -148,13 +155,17 @@ def pkm_install(cmd: Command):
     store_mode = enum_by_name(StoreMode, cmd.mode.upper())
 
     def register_repo_bindings(contex: HasAttachedRepository):
-        if repo := cmd.repo:
+        if cmd.repo == _DEFAULT_REPOSITORY:
+            contex.repository_management.register_bindings([d.package_name for d in dependencies], None)
+            cmd.force = True
+        elif repo := cmd.repo:
             if any(contex.repository_management.configuration.package_bindings.get(d.package_name) != repo
                    for d in dependencies):
                 contex.repository_management.register_bindings([d.package_name for d in dependencies], repo)
                 cmd.force = True
-        elif repo_type := cmd.unnamed_repo:
-            instance_config = RepositoryInstanceConfig(repo_type, True, getattr(args, 'unnamed_repo_extras', {}))
+        elif unnamed_repo := cmd.unnamed_repo:
+            repo_args = {k: v for k, v in unnamed_repo.items() if k != 'value' and v is not None}
+            instance_config = RepositoryInstanceConfig(unnamed_repo['value'], True, repo_args)
             contex.repository_management.register_bindings([d.package_name for d in dependencies], instance_config)
             cmd.force = True
 
@@ -192,7 +203,7 @@ def pkm_install(cmd: Command):
 
             if dependencies:
                 force(target)
-                updates = [d.package_name for d in dependencies] if args.update else None
+                updates = [d.package_name for d in dependencies] if cmd.update else None
                 store_modes = {d.package_name: store_mode for d in dependencies}
                 target.install(dependencies, updates=updates, store_mode=store_modes)
 
-- 
2.43.0


From 20aed16bb58a52b142688684da45e9a709d015e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:18 +0000
Subject: [PATCH 072/153] fix: wheel files are not compatible with the
 interpreters that their metadata rules out

---
 pkm/src/pkm/api/distributions/distribution.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/distributions/distribution.py b/pkm/src/pkm/api/distributions/distribution.py
index e950757..7ea8fc1 100644
--- a/pkm/src/pkm/api/distributions/distribution.py
+++ b/pkm/src/pkm/api/distributions/distribution.py
@@ -94,7 +94,8 @@ class _DistributionPackage(Package, Serializable):
         from pkm.api.distributions.wheel_distribution import WheelDistribution
 
         if isinstance(self._dist, WheelDistribution):
-            return env.compatibility_tag_score(self._dist.compute_compatibility_tags()) is not None
+            return env.compatibility_tag_score(self._dist.compute_compatibility_tags()) is not None \
+                and self._metadata(env).required_python_spec.allows_version(env.interpreter_version)
         return True
 
     def install_to(
-- 
2.43.0


From 924c2521ce90e1e7136da1652f458c1ce95b2fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:56 +0000
Subject: [PATCH 073/153] fix: the versions of source distribution files do not
 include their extension

---
 pkm/src/pkm/api/packages/package.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pkm/src/pkm/api/packages/package.py b/pkm/src/pkm/api/packages/package.py
index d966ae1..a5a1cf7 100644
--- a/pkm/src/pkm/api/packages/package.py
+++ b/pkm/src/pkm/api/packages/package.py
@@ -10,6 +10,9 @@ from pkm.api.versions.version import Version, StandardVersion
 from pkm.api.versions.version_specifiers import VersionMatch, StandardVersionRange
 from pkm.utils.commons import UnsupportedOperationException
 from pkm.utils.properties import cached_property
+from pkm.utils.strings import endswith_any, without_suffix
+
+_SDIST_SUFFIXES = ('.tar.gz', '.zip')
 
 if TYPE_CHECKING:
     from pkm.api.environments.environment import Environment
@@ -103,9 +106,13 @@ class PackageDescriptor:
         :param name: the file name
         :return: the resulted package descriptor
         """
-        parts = name.split("-")
-        version = Version.parse(parts[1])
-        return PackageDescriptor(parts[0], version)
+        if (suffix := endswith_any(name, _SDIST_SUFFIXES)) is not None:
+            # the version of source distributions comes last, the names of older ones may contain hyphens
+            package_name, _, version = without_suffix(name, suffix).rpartition("-")
+        else:
+            package_name, version = name.split("-")[:2]
+
+        return PackageDescriptor(package_name, Version.parse(version))
 
 
 class Package(ABC):
-- 
2.43.0


From 08f1b7af3cdb9966acfc45b2b9ea060a9043c7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:56 +0000
Subject: [PATCH 074/153] fix: environment zoos with default settings have an
 attached repository

---
 pkm/src/pkm/api/environments/environments_zoo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/environments/environments_zoo.py b/pkm/src/pkm/api/environments/environments_zoo.py
index dfc264d..45f56f3 100644
--- a/pkm/src/pkm/api/environments/environments_zoo.py
+++ b/pkm/src/pkm/api/environments/environments_zoo.py
@@ -137,4 +137,4 @@ class PackageSharingConfig:
 
 @config(io=TomlConfigIO())
 class EnvironmentZooConfiguration(ConfigFile):
-    package_sharing: PackageSharingConfig
+    package_sharing: PackageSharingConfig = config_field(default_factory=PackageSharingConfig)
-- 
2.43.0


From d3a6248f4b840a36860febbe85e14a794e34f09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:31 +0000
Subject: [PATCH 075/153] fix: configured package bindings can be loaded and
 saved

---
 pkm/src/pkm/api/repositories/repositories_configuration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/api/repositories/repositories_configuration.py b/pkm/src/pkm/api/repositories/repositories_configuration.py
index 99f9925..23d3af0 100644
--- a/pkm/src/pkm/api/repositories/repositories_configuration.py
+++ b/pkm/src/pkm/api/repositories/repositories_configuration.py
@@ -2,7 +2,7 @@ from __future__ import annotations
 
 from dataclasses import dataclass
 from enum import Enum
-from typing import Any, Dict, Mapping
+from typing import Any, Dict
 
 from pkm.config.configclass import config, config_field, ConfigFile
 from pkm.config.configfiles import TomlConfigIO
@@ -29,7 +29,7 @@ class RepositoryInstanceConfig:
 class RepositoriesConfiguration(ConfigFile):
     repos: Dict[str, RepositoryInstanceConfig] = config_field(default_factory=dict)
     inheritance: str = "context"
-    package_bindings: Mapping[str, Any] = config_field(key="package-bindings", default_factory=dict)
+    package_bindings: Dict[str, Any] = config_field(key="package-bindings", default_factory=dict)
 
     @cached_property
     def inheritance_mode(self) -> RepositoriesConfigInheritanceMode:
-- 
2.43.0


From 288ddc58e7e68da3e63721530065c9ba4db70313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:39 +0000
Subject: [PATCH 076/153] fix: absent python requirements are not written as
 '*', which is not a version specifier

---
 pkm/src/pkm/api/packages/package_metadata.py        | 11 ++++++++---
 pkm/src/pkm/api/projects/pyproject_configuration.py |  4 +++-
 pkm/src/pkm/config/configclass.py                   |  3 +++
 3 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/pkm/src/pkm/api/packages/package_metadata.py b/pkm/src/pkm/api/packages/package_metadata.py
index 84360f6..dcd31ae 100644
--- a/pkm/src/pkm/api/packages/package_metadata.py
+++ b/pkm/src/pkm/api/packages/package_metadata.py
@@ -10,7 +10,7 @@ from typing import List, TYPE_CHECKING, Dict, Any
 from pkm.api.dependencies.dependency import Dependency
 from pkm.api.versions.version import Version
 from pkm.api.versions.version_specifiers import VersionSpecifier, AllowAllVersions
-from pkm.config.configclass import ConfigIO, config, config_field, ConfigFile
+from pkm.config.configclass import ConfigIO, config, config_field, config_field_codec, ConfigFile
 from pkm.utils.dicts import get_or_put, remove_none_values
 
 if TYPE_CHECKING:
@@ -18,6 +18,10 @@ if TYPE_CHECKING:
 
 _METADATA_VERSION = '2.1'
 
+#: without a requirement the field is left out ('*' is not a version specifier)
+REQUIRES_PYTHON_CODEC = config_field_codec(
+    lambda v: VersionSpecifier.parse(str(v)), lambda v: None if v is AllowAllVersions else str(v))
+
 _MULTI_FIELDS = {
     'Provides-Extra', 'Platform', 'Supported-Platform', 'Classifier', 'Requires-Dist', 'Provides-Dist',
     'Obsoletes-Dist', 'Requires-External', 'Project-URL', 'Dynamic'
@@ -89,7 +93,8 @@ class PackageMetadata(ConfigFile):
     summary: str = config_field(key="Summary")
     description: str = config_field(key="Description")
     dependencies: List[Dependency] = config_field(key="Requires-Dist", default_factory=list)
-    required_python_spec: VersionSpecifier = config_field(key="Requires-Python", default=AllowAllVersions)
+    required_python_spec: VersionSpecifier = config_field(
+        key="Requires-Python", default=AllowAllVersions, codec=REQUIRES_PYTHON_CODEC)
     leftovers = config_field(leftover=True)
 
     @classmethod
@@ -118,7 +123,7 @@ class PackageMetadata(ConfigFile):
             'Author': ', '.join(author_names), 'Author-email': ', '.join(author_emails),
             'Maintainer': ', '.join(maintainer_names), 'Maintainer-email': ', '.join(maintainer_emails),
             'License': prjc.license_content(), 'Classifier': prjc.classifiers,
-            'Requires-Dist': [str(d) for d in all_deps], 'Requires-Python': str(prjc.requires_python),
+            'Requires-Dist': [str(d) for d in all_deps], 'Requires-Python': None if prjc.requires_python is AllowAllVersions else str(prjc.requires_python),
             'Provides-Extra': extras,
             # 'Dynamic': prjc.dynamic or [], add back when pypi supports metadata version 2.2
         }
diff --git a/pkm/src/pkm/api/projects/pyproject_configuration.py b/pkm/src/pkm/api/projects/pyproject_configuration.py
index 4ae90da..bdfbffe 100644
--- a/pkm/src/pkm/api/projects/pyproject_configuration.py
+++ b/pkm/src/pkm/api/projects/pyproject_configuration.py
@@ -12,6 +12,7 @@ from pkm.api.dependencies.dependency import Dependency
 from pkm.api.dependencies.env_markers import EnvironmentMarker
 from pkm.api.distributions.distinfo import EntryPoint, ObjectReference
 from pkm.api.packages.package import PackageDescriptor
+from pkm.api.packages.package_metadata import REQUIRES_PYTHON_CODEC
 from pkm.api.versions.version import Version
 from pkm.api.versions.version_specifiers import VersionSpecifier, AllowAllVersions
 from pkm.config.configclass import config, config_field, ConfigFieldCodec, ConfigCodec, ConfigFile
@@ -143,7 +144,8 @@ class ProjectConfig:
     # data in the corresponding field means that a user tool provides it dynamically
     dynamic: List[str] = None
     # The Python version requirements of the project.
-    requires_python: VersionSpecifier = config_field(key="requires-python", default=AllowAllVersions)
+    requires_python: VersionSpecifier = config_field(
+        key="requires-python", default=AllowAllVersions, codec=REQUIRES_PYTHON_CODEC)
     # The dependencies of the project.
     dependencies: List[Dependency] = config_field(default_factory=list)
     # The optional dependencies of the project, grouped by the 'extra' name that provides them.
diff --git a/pkm/src/pkm/config/configclass.py b/pkm/src/pkm/config/configclass.py
index 39b3f94..33b8e67 100644
--- a/pkm/src/pkm/config/configclass.py
+++ b/pkm/src/pkm/config/configclass.py
@@ -361,6 +361,9 @@ class ConfigCodec:
                 else:
                     raise ValueError(f"no codec could be found for type: {schema.type}")
 
+                if value is None:  # the codec decided that this value should be represented by the absence of the field
+                    continue
+
                 _shove_key(target_config, schema.key or field, value)
         return target_config
 
-- 
2.43.0


From 24109a030b451d1a28dfc1e87deaa500a6ca609a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:39 +0000
Subject: [PATCH 077/153] fix: updating dependencies of a project that is
 locked

---
 pkm/src/pkm/api/projects/project.py     |  7 ++++---
 pkm/src/pkm/resolution/packages_lock.py | 16 +++++++++++++++-
 2 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/pkm/src/pkm/api/projects/project.py b/pkm/src/pkm/api/projects/project.py
index 46b8458..998e88e 100644
--- a/pkm/src/pkm/api/projects/project.py
+++ b/pkm/src/pkm/api/projects/project.py
@@ -197,9 +197,10 @@ class Project(Package, HasAttachedRepository, Serializable):
         if packages_to_update:
             updates.extend(packages_to_update)
 
-        self.attached_environment.install(
-            [dependency], repository=self.attached_repository,
-            updates=updates, store_modes=packages_store_mode)
+        with self.lock.ignoring(packages_to_update or ()):  # otherwise the locked versions would be preferred
+            self.attached_environment.install(
+                [dependency], repository=self.attached_repository,
+                updates=updates, store_modes=packages_store_mode)
 
     def _reload(self):
         clear_cached_properties(self)
diff --git a/pkm/src/pkm/resolution/packages_lock.py b/pkm/src/pkm/resolution/packages_lock.py
index 0c89ddf..c4780f6 100644
--- a/pkm/src/pkm/resolution/packages_lock.py
+++ b/pkm/src/pkm/resolution/packages_lock.py
@@ -1,8 +1,9 @@
 from __future__ import annotations
 
+from contextlib import contextmanager
 from dataclasses import dataclass
 from pathlib import Path
-from typing import List, Dict, Optional, Iterable
+from typing import List, Dict, Optional, Iterable, Iterator
 
 from pkm.api.dependencies.dependency import Dependency
 from pkm.api.environments.environment import Environment
@@ -53,6 +54,19 @@ class PackagesLock:
 
         return self
 
+    @contextmanager
+    def ignoring(self, package_names: Iterable[str]) -> Iterator[None]:
+        """
+        context manager in which the given packages are not locked, leaving this context restores their locks
+        :param package_names: the packages to ignore the locks of
+        """
+        locked_packages = {**self._locked_packages}
+        self.unlock_packages(package_names)
+        try:
+            yield
+        finally:
+            self._locked_packages = locked_packages
+
     def env_specific_locks(self, env: Environment):
         """
         :param env: the environment to extract lock information to
-- 
2.43.0


From 02b735a2b32e3c6172c78979624a6b1273d4c64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:48 +0000
Subject: [PATCH 078/153] fix: projects whose dependencies changed are
 installed again although their version is the same

---
 pkm/src/pkm/api/packages/package_installation.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/packages/package_installation.py b/pkm/src/pkm/api/packages/package_installation.py
index f297b41..26ea142 100644
--- a/pkm/src/pkm/api/packages/package_installation.py
+++ b/pkm/src/pkm/api/packages/package_installation.py
@@ -253,7 +253,8 @@ class InstallationPlan:
         for name_key, package_to_install in toinstall.items():
 
             if preinstalled_package := preinstalled.pop(name_key, None):
-                if preinstalled_package.version == package_to_install.version:
+                if preinstalled_package.version == package_to_install.version \
+                        and not self._is_outdated(preinstalled_package, package_to_install, target):
                     prev_store_mode = preinstalled_package.installation_info.store_mode
                     store_mode = store_modes.get(name_key, StoreMode.AUTO)
                     store_mode_matching = (store_mode == StoreMode.AUTO or store_mode == prev_store_mode)
@@ -280,6 +281,19 @@ class InstallationPlan:
 
         return operations
 
+    @staticmethod
+    def _is_outdated(installed: "InstalledPackage", package: Package, target: PackageInstallationTarget) -> bool:
+        """
+        :return: True if the installed package does not match the given one although they have the same version,
+        this may be the case for projects: their configuration changes without changing their version
+        """
+        from pkm.api.projects.project import Project
+        if not isinstance(package, Project) or package.is_containerized_application():
+            return False
+
+        dependencies = package.compute_metadata(target.env).dependencies
+        return {str(d) for d in installed.published_metadata.dependencies} != {str(d) for d in dependencies}
+
     def execute(self, target: Optional[PackageInstallationTarget] = None, concurrency_mode: Optional[str] = None):
         """
         executes the prepared installation inside the given `target`
-- 
2.43.0


From e3c838bead09148bd52ebd5b5b2a1ea70fafb6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:06 +0000
Subject: [PATCH 079/153] fix: pkm install without packages installs the
 project instead of printing the help

---
 pkm-cli/src/pkm_cli/main.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkm-cli/src/pkm_cli/main.py b/pkm-cli/src/pkm_cli/main.py
index 4dfec52..671031d 100644
--- a/pkm-cli/src/pkm_cli/main.py
+++ b/pkm-cli/src/pkm_cli/main.py
@@ -145,7 +145,8 @@ def pkm_new(_: Command, next_args: ArgumentsBuffer) -> List[CommandDef]:
            help="bind the given packages to a specific repository by name"),
     option('-R, --unnamed-repo', fields_provider=RepositoryInstanceFieldsProvider(), default=None,
            help="bind the given packages to a new unnamed repositry given its configuration"),
-    positional('packages', n_values="*", help="the packages to install (support pep508 dependency syntax)"))
+    positional('packages', n_values="*", default=[],
+               help="the packages to install (support pep508 dependency syntax)"))
 def pkm_install(cmd: Command):
     """
     install packages under the current context
-- 
2.43.0


From 14d902022313792e28fa57c27b218a74b4aed58c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:26 +0000
Subject: [PATCH 080/153] fix: the extras and markers of installed dependencies
 are kept in pyproject.toml

---
 pkm-cli/src/pkm_cli/controllers/prj_controller.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pkm-cli/src/pkm_cli/controllers/prj_controller.py b/pkm-cli/src/pkm_cli/controllers/prj_controller.py
index 061c83b..65b4e51 100644
--- a/pkm-cli/src/pkm_cli/controllers/prj_controller.py
+++ b/pkm-cli/src/pkm_cli/controllers/prj_controller.py
@@ -1,4 +1,6 @@
 from __future__ import annotations
+
+from dataclasses import replace
 from typing import Optional, List, Iterable, Dict
 
 from pkm.api.dependencies.dependency import Dependency
@@ -72,11 +74,15 @@ class PrjController:
             site_packages = self.prj.attached_environment.site_packages
             for dependency in dependencies:
                 if dependency.version_spec is AllowAllVersions:
+                    if not dependency.is_applicable_for(self.prj.attached_environment, []):
+                        continue  # not installed, there is no version to be compatible with
                     installed = site_packages.installed_package(dependency.package_name)
                     assert installed, f"could not find {dependency.package_name}"
                     dependency_index = seq(configured_dependencies) \
                         .index_of_matching(lambda it: it.package_name_key == dependency.package_name_key)
-                    configured_dependencies[dependency_index] = installed.descriptor.to_dependency(generalize=True)
+                    configured_dependencies[dependency_index] = replace(
+                        dependency, package_name=installed.name,
+                        version_spec=installed.descriptor.to_dependency(generalize=True).version_spec)
 
             self.prj.config.save()
             self.prj.lock.update_lock(self.prj.attached_environment).save()
-- 
2.43.0


From bb3b1e5542e3d99bccdef74f821170082e414302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:37 +0000
Subject: [PATCH 081/153] fix: the upper bound of generalized dependencies is a
 plain major version

---
 pkm/src/pkm/api/packages/package.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkm/src/pkm/api/packages/package.py b/pkm/src/pkm/api/packages/package.py
index a5a1cf7..c8b3820 100644
--- a/pkm/src/pkm/api/packages/package.py
+++ b/pkm/src/pkm/api/packages/package.py
@@ -2,7 +2,7 @@ from __future__ import annotations
 
 import re
 from abc import abstractmethod, ABC
-from dataclasses import dataclass, replace
+from dataclasses import dataclass
 from typing import List, Optional, Dict, Any, TYPE_CHECKING
 
 from pkm.api.packages.package_installation_info import StoreMode
@@ -54,8 +54,8 @@ class PackageDescriptor:
             installed_version = self.version
             if isinstance(installed_version, StandardVersion):
                 spec = StandardVersionRange(
-                    installed_version,
-                    replace(installed_version, release=(installed_version.release[0] + 1,)),
+                    installed_version.without_local(),
+                    StandardVersion((installed_version.release[0] + 1,), epoch=installed_version.epoch),
                     True, False)
 
         return Dependency(self.name, spec)
-- 
2.43.0


From 9fafeebee35eb904d89b8e56bd0e0f203ca05cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:30 +0000
Subject: [PATCH 082/153] fix: environments that the user cannot write to can
 be inspected

---
 pkm/src/pkm/api/environments/environment_introspection.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/api/environments/environment_introspection.py b/pkm/src/pkm/api/environments/environment_introspection.py
index 124eb5a..a20b1e4 100644
--- a/pkm/src/pkm/api/environments/environment_introspection.py
+++ b/pkm/src/pkm/api/environments/environment_introspection.py
@@ -415,8 +415,11 @@ class EnvironmentIntrospection:
         if save_if_recomputed:
             data = result._data
             data['introspection'] = current_introspection_sentinal
-            path.parent.mkdir(exist_ok=True, parents=True)
-            path.write_text(json.dumps(data))
+            try:
+                path.parent.mkdir(exist_ok=True, parents=True)
+                path.write_text(json.dumps(data))
+            except PermissionError:
+                ...  # the environment cannot be changed by this user, it can still be used
 
         return result
 
-- 
2.43.0


From 086a9c04f80710ee901fb552a53106c91727611c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:46 +0000
Subject: [PATCH 083/153] fix: projects notice that their configured
 dependencies changed

---
 pkm/src/pkm/api/projects/project.py                 | 2 +-
 pkm/src/pkm/api/projects/pyproject_configuration.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/api/projects/project.py b/pkm/src/pkm/api/projects/project.py
index 998e88e..4213b7a 100644
--- a/pkm/src/pkm/api/projects/project.py
+++ b/pkm/src/pkm/api/projects/project.py
@@ -82,7 +82,7 @@ class Project(Package, HasAttachedRepository, Serializable):
         """
         return self._path
 
-    @cached_property
+    @property
     def published_metadata(self) -> Optional[PackageMetadata]:
         return PackageMetadata.from_project_config(self.config.project)
 
diff --git a/pkm/src/pkm/api/projects/pyproject_configuration.py b/pkm/src/pkm/api/projects/pyproject_configuration.py
index bdfbffe..042b45e 100644
--- a/pkm/src/pkm/api/projects/pyproject_configuration.py
+++ b/pkm/src/pkm/api/projects/pyproject_configuration.py
@@ -191,7 +191,7 @@ class ProjectConfig:
         """
         return (d := self.dynamic) and field in d  # noqa
 
-    @cached_property
+    @property
     def all_dependencies(self) -> List[Dependency]:
         all_deps = [d for d in (self.dependencies or [])]
         optional_deps = self.optional_dependencies or {}
-- 
2.43.0


From 14ec853b41a128a146864bf21c26502111819beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:03 +0000
Subject: [PATCH 084/153] fix: optional dependencies can have environment
 markers

---
 pkm/src/pkm/api/projects/pyproject_configuration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/api/projects/pyproject_configuration.py b/pkm/src/pkm/api/projects/pyproject_configuration.py
index 042b45e..b972e39 100644
--- a/pkm/src/pkm/api/projects/pyproject_configuration.py
+++ b/pkm/src/pkm/api/projects/pyproject_configuration.py
@@ -196,10 +196,10 @@ class ProjectConfig:
         all_deps = [d for d in (self.dependencies or [])]
         optional_deps = self.optional_dependencies or {}
         for od_group, deps in optional_deps.items():
-            extra_rx = re.compile(f'extra\\s*==\\s*(\'{od_group}\'|"{od_group}")')
+            extra_rx = re.compile(f'extra\\s*==\\s*(\'{re.escape(od_group)}\'|"{re.escape(od_group)}")')
             for dep in deps:
                 if not dep.env_marker or not extra_rx.match(str(dep.env_marker)):
-                    new_marker = (str(dep.env_marker).rstrip(';') + ';') if dep.env_marker else ''
+                    new_marker = f"({dep.env_marker}) and " if dep.env_marker else ''
                     new_marker = f"{new_marker}extra==\'{od_group}\'"
                     all_deps.append(replace(dep, env_marker=EnvironmentMarker.parse_pep508(new_marker)))
                 else:
-- 
2.43.0


From e0e4ed9a60129458fc14a03cb0fa0afe07228604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:38 +0000
Subject: [PATCH 085/153] fix: environments see what was installed into them
 after their installation target was reloaded

---
 pkm/src/pkm/api/environments/environment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/environments/environment.py b/pkm/src/pkm/api/environments/environment.py
index 1fef38e..d71d3bd 100644
--- a/pkm/src/pkm/api/environments/environment.py
+++ b/pkm/src/pkm/api/environments/environment.py
@@ -156,7 +156,7 @@ class Environment(HasAttachedRepository, Serializable):
         """
         return self._introspection.compute_markers()
 
-    @cached_property
+    @property
     def site_packages(self) -> SitePackages:
         return self.installation_target.site_packages
 
-- 
2.43.0


From 9209bb3d60b540171c36acbbd00fb0a405de4f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:21 +0000
Subject: [PATCH 086/153] fix: entry points and gui scripts of projects are put
 into their groups

---
 pkm/src/pkm/api/projects/pyproject_configuration.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/api/projects/pyproject_configuration.py b/pkm/src/pkm/api/projects/pyproject_configuration.py
index b972e39..2ec2d7f 100644
--- a/pkm/src/pkm/api/projects/pyproject_configuration.py
+++ b/pkm/src/pkm/api/projects/pyproject_configuration.py
@@ -167,13 +167,13 @@ class ProjectConfig:
     def entry_points(self) -> Mapping[str, List[EntryPoint]]:
         result: Dict[str, List[EntryPoint]] = defaultdict(list)
         if self._entry_points:
-            result.update({g: _entrypoints_from_config(g, eps) for g, eps in self.entry_points.values()})
+            result.update({g: _entrypoints_from_config(g, eps) for g, eps in self._entry_points.items()})
         if self._scripts:
             result[EntryPoint.G_CONSOLE_SCRIPTS] \
                 .extend(_entrypoints_from_config(EntryPoint.G_CONSOLE_SCRIPTS, self._scripts))
         if self._gui_scripts:
             result[EntryPoint.G_GUI_SCRIPTS] \
-                .extend(_entrypoints_from_config(EntryPoint.G_CONSOLE_SCRIPTS, self._gui_scripts))
+                .extend(_entrypoints_from_config(EntryPoint.G_GUI_SCRIPTS, self._gui_scripts))
 
         return result
 
-- 
2.43.0


From dbdfc35a3317c05edb0898c19e292fbd2619b0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:44 +0000
Subject: [PATCH 087/153] fix: contacts without a name or with special names,
 maintainers of built packages

---
 pkm/src/pkm/api/packages/package_metadata.py  | 12 ++++-----
 .../api/projects/pyproject_configuration.py   | 25 +++++++------------
 2 files changed, 15 insertions(+), 22 deletions(-)

diff --git a/pkm/src/pkm/api/packages/package_metadata.py b/pkm/src/pkm/api/packages/package_metadata.py
index dcd31ae..99d7b0e 100644
--- a/pkm/src/pkm/api/packages/package_metadata.py
+++ b/pkm/src/pkm/api/packages/package_metadata.py
@@ -106,11 +106,11 @@ class PackageMetadata(ConfigFile):
         #    with the format {name} <{email}> (with appropriate quoting, e.g. using email.headerregistry.Address).
         # 4. Multiple values should be separated by commas.
 
-        author_names = [a.name for a in (prjc.authors or []) if a.name]
-        author_emails = [a.email for a in (prjc.authors or []) if a.email]
+        author_names = [a.name for a in (prjc.authors or []) if a.name and not a.email]
+        author_emails = [str(a) for a in (prjc.authors or []) if a.email]
 
-        maintainer_names = [a.name for a in (prjc.authors or []) if a.name]
-        maintainer_emails = [a.email for a in (prjc.authors or []) if a.email]
+        maintainer_names = [m.name for m in (prjc.maintainers or []) if m.name and not m.email]
+        maintainer_emails = [str(m) for m in (prjc.maintainers or []) if m.email]
 
         extras = list((prjc.optional_dependencies or {}).keys())
         all_deps = prjc.all_dependencies
@@ -120,8 +120,8 @@ class PackageMetadata(ConfigFile):
             'Name': prjc.name, 'Version': str(prjc.version),
             'Summary': prjc.description, 'Description': prjc.readme_content(),
             'Description-Content-Type': prjc.readme_content_type(), 'Keywords': prjc.keywords or [],
-            'Author': ', '.join(author_names), 'Author-email': ', '.join(author_emails),
-            'Maintainer': ', '.join(maintainer_names), 'Maintainer-email': ', '.join(maintainer_emails),
+            'Author': ', '.join(author_names) or None, 'Author-email': ', '.join(author_emails) or None,
+            'Maintainer': ', '.join(maintainer_names) or None, 'Maintainer-email': ', '.join(maintainer_emails) or None,
             'License': prjc.license_content(), 'Classifier': prjc.classifiers,
             'Requires-Dist': [str(d) for d in all_deps], 'Requires-Python': None if prjc.requires_python is AllowAllVersions else str(prjc.requires_python),
             'Provides-Extra': extras,
diff --git a/pkm/src/pkm/api/projects/pyproject_configuration.py b/pkm/src/pkm/api/projects/pyproject_configuration.py
index 2ec2d7f..a08fc94 100644
--- a/pkm/src/pkm/api/projects/pyproject_configuration.py
+++ b/pkm/src/pkm/api/projects/pyproject_configuration.py
@@ -3,7 +3,6 @@ from __future__ import annotations
 import re
 from collections import defaultdict
 from dataclasses import dataclass, replace
-from email.header import Charset  # noqa
 from email.utils import specialsre, escapesre  # noqa
 from pathlib import Path
 from typing import List, Optional, Union, Dict, Mapping, Any, Iterator, Type
@@ -30,29 +29,23 @@ class BuildSystemConfig:
     backend_path: List[str] = config_field(key='backend-path')
 
 
-_contect_info_charset = Charset('utf-8')
-
-
 @dataclass(eq=True)
 @config
 class ContactInfo:
     name: str = None
     email: str = None
 
-    def __post_init__(self):
+    def __str__(self):
         """
-        adjusted from source of email.utils.formataddr, make sure the given name is according to rfc822
+        :return: the contact as it should be written in the package metadata, adjusted from source of
+                 email.utils.formataddr (which encodes non-ascii names, although the metadata is written in utf-8)
         """
-        try:
-            self.name.encode('ascii')
-        except UnicodeEncodeError:
-            self.name = _contect_info_charset.header_encode(self.name)
-        else:
-            quotes = ''
-            if specialsre.search(self.name):
-                quotes = '"'
-            name = escapesre.sub(r'\\\g<0>', self.name)
-            self.name = f"{quotes}{name}{quotes}"
+        if not self.name or not self.email:
+            return self.name or self.email or ''
+
+        quotes = '"' if specialsre.search(self.name) else ''
+        name = escapesre.sub(r'\\\g<0>', self.name)
+        return f"{quotes}{name}{quotes} <{self.email}>"
 
 
 def _entrypoints_from_config(group: str, ep: Dict[str, str]) -> List[EntryPoint]:
-- 
2.43.0


From 06c19f3c25d639731d67c533ebfa748092110e4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:12 +0000
Subject: [PATCH 088/153] fix: metadata of built packages is complete, valid
 and readable again

---
 pkm/src/pkm/api/packages/package_metadata.py | 33 ++++++++++----------
 1 file changed, 17 insertions(+), 16 deletions(-)

diff --git a/pkm/src/pkm/api/packages/package_metadata.py b/pkm/src/pkm/api/packages/package_metadata.py
index 99d7b0e..3aa9e3e 100644
--- a/pkm/src/pkm/api/packages/package_metadata.py
+++ b/pkm/src/pkm/api/packages/package_metadata.py
@@ -1,8 +1,6 @@
 from __future__ import annotations
 
-import warnings
 from dataclasses import dataclass
-from email.message import EmailMessage
 from email.parser import Parser
 from pathlib import Path
 from typing import List, TYPE_CHECKING, Dict, Any
@@ -27,11 +25,14 @@ _MULTI_FIELDS = {
     'Obsoletes-Dist', 'Requires-External', 'Project-URL', 'Dynamic'
 }
 
+# the lines of a multi line value are indented, otherwise they are other fields or the end of the fields
+_CONTINUATION = "\n        "
+
 
 class PackageMetadataIO(ConfigIO):
 
     def write(self, path: Path, data: Dict[str, Any]):
-        msg = EmailMessage()
+        lines: List[str] = []
         for key, value in data.items():
             if value is None:
                 continue
@@ -42,26 +43,22 @@ class PackageMetadataIO(ConfigIO):
             if key == 'Description':
                 continue  # will add it in payload
 
-            if isinstance(value, List):
-                for item in value:
-                    msg[key] = item
-            else:
-                try:
-                    msg[key] = value
-                except Exception as e:
-                    warnings.warn(f"malformed metadata key,value ({key}={value}) | {e}, ignoring it")
+            for item in (value if isinstance(value, List) else [value]):
+                lines.append(f"{key}: {_CONTINUATION.join(str(item).strip().splitlines())}")
 
+        content = "\n".join(lines) + "\n"
         if payload := data.get("Description"):
-            msg.set_payload(payload)
+            content += f"\n{payload}"
 
-        path.write_text(msg.as_string())
+        with path.open('w', encoding='utf-8', newline='') as path_fd:
+            path_fd.write(content)
 
     def read(self, path: Path) -> Dict[str, Any]:
         if not path.exists():
             return {}
 
         parser = Parser()
-        with path.open('r', errors="ignore") as path_fd:
+        with path.open('r', encoding='utf-8', errors="ignore") as path_fd:
             content = parser.parse(path_fd)
 
             data = {}
@@ -76,6 +73,9 @@ class PackageMetadataIO(ConfigIO):
                 else:
                     data[key] = value
 
+            if 'Description' not in data and (payload := content.get_payload()):
+                data['Description'] = payload
+
         return data
 
 
@@ -119,12 +119,13 @@ class PackageMetadata(ConfigFile):
             'Metadata-Version': _METADATA_VERSION,
             'Name': prjc.name, 'Version': str(prjc.version),
             'Summary': prjc.description, 'Description': prjc.readme_content(),
-            'Description-Content-Type': prjc.readme_content_type(), 'Keywords': prjc.keywords or [],
+            'Description-Content-Type': prjc.readme_content_type(), 'Keywords': ','.join(prjc.keywords or []) or None,
             'Author': ', '.join(author_names) or None, 'Author-email': ', '.join(author_emails) or None,
             'Maintainer': ', '.join(maintainer_names) or None, 'Maintainer-email': ', '.join(maintainer_emails) or None,
-            'License': prjc.license_content(), 'Classifier': prjc.classifiers,
+            'License': prjc.license_content() or None, 'Classifier': prjc.classifiers,
             'Requires-Dist': [str(d) for d in all_deps], 'Requires-Python': None if prjc.requires_python is AllowAllVersions else str(prjc.requires_python),
             'Provides-Extra': extras,
+            'Project-URL': [f"{label}, {url}" for label, url in (prjc.urls or {}).items()],
             # 'Dynamic': prjc.dynamic or [], add back when pypi supports metadata version 2.2
         }
 
-- 
2.43.0


From 9623ec8336c8008ffeecf6ff76a06202151acbcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:20 +0000
Subject: [PATCH 089/153] fix: readme and license files are relative to the
 project, a readme text is a path

---
 pkm/src/pkm/api/packages/package_metadata.py  |  13 ++-
 pkm/src/pkm/api/projects/project.py           |   4 +-
 .../api/projects/pyproject_configuration.py   | 105 +++++++++++-------
 pkm/src/pkm/build/pkm_builders.py             |   4 +-
 4 files changed, 80 insertions(+), 46 deletions(-)

diff --git a/pkm/src/pkm/api/packages/package_metadata.py b/pkm/src/pkm/api/packages/package_metadata.py
index 3aa9e3e..44eb50a 100644
--- a/pkm/src/pkm/api/packages/package_metadata.py
+++ b/pkm/src/pkm/api/packages/package_metadata.py
@@ -3,7 +3,7 @@ from __future__ import annotations
 from dataclasses import dataclass
 from email.parser import Parser
 from pathlib import Path
-from typing import List, TYPE_CHECKING, Dict, Any
+from typing import List, TYPE_CHECKING, Dict, Any, Optional
 
 from pkm.api.dependencies.dependency import Dependency
 from pkm.api.versions.version import Version
@@ -98,7 +98,12 @@ class PackageMetadata(ConfigFile):
     leftovers = config_field(leftover=True)
 
     @classmethod
-    def from_project_config(cls, prjc: "ProjectConfig") -> PackageMetadata:
+    def from_project_config(cls, prjc: "ProjectConfig", project_dir: Optional[Path] = None) -> PackageMetadata:
+        """
+        :param prjc: the configuration of the project
+        :param project_dir: the directory of the project, files that its configuration mentions are relative to it
+        :return: the metadata of the packages that are built from the project
+        """
         # filling authors and maintainers according to pep-621:
         # 1. If only name is provided, the value goes in Author/Maintainer as appropriate.
         # 2. If only email is provided, the value goes in Author-email/Maintainer-email as appropriate.
@@ -118,11 +123,11 @@ class PackageMetadata(ConfigFile):
         data = {
             'Metadata-Version': _METADATA_VERSION,
             'Name': prjc.name, 'Version': str(prjc.version),
-            'Summary': prjc.description, 'Description': prjc.readme_content(),
+            'Summary': prjc.description, 'Description': prjc.readme_content(project_dir),
             'Description-Content-Type': prjc.readme_content_type(), 'Keywords': ','.join(prjc.keywords or []) or None,
             'Author': ', '.join(author_names) or None, 'Author-email': ', '.join(author_emails) or None,
             'Maintainer': ', '.join(maintainer_names) or None, 'Maintainer-email': ', '.join(maintainer_emails) or None,
-            'License': prjc.license_content() or None, 'Classifier': prjc.classifiers,
+            'License': prjc.license_content(project_dir) or None, 'Classifier': prjc.classifiers,
             'Requires-Dist': [str(d) for d in all_deps], 'Requires-Python': None if prjc.requires_python is AllowAllVersions else str(prjc.requires_python),
             'Provides-Extra': extras,
             'Project-URL': [f"{label}, {url}" for label, url in (prjc.urls or {}).items()],
diff --git a/pkm/src/pkm/api/projects/project.py b/pkm/src/pkm/api/projects/project.py
index 4213b7a..1255063 100644
--- a/pkm/src/pkm/api/projects/project.py
+++ b/pkm/src/pkm/api/projects/project.py
@@ -84,7 +84,7 @@ class Project(Package, HasAttachedRepository, Serializable):
 
     @property
     def published_metadata(self) -> Optional[PackageMetadata]:
-        return PackageMetadata.from_project_config(self.config.project)
+        return PackageMetadata.from_project_config(self.config.project, self.path)
 
     def compute_metadata(self, env: Environment) -> PackageMetadata:
         if self.config.project.dynamic:
@@ -341,7 +341,7 @@ class Project(Package, HasAttachedRepository, Serializable):
         if not publisher:
             raise UnsupportedOperationException(f"the given repository ({repository.name}) is not publishable")
 
-        metadata = PackageMetadata.from_project_config(self._pyproject.project)
+        metadata = PackageMetadata.from_project_config(self._pyproject.project, self.path)
         for distribution in distributions_dir.iterdir():
             if distribution.is_file():
                 publisher.publish(auth_args, metadata, distribution)
diff --git a/pkm/src/pkm/api/projects/pyproject_configuration.py b/pkm/src/pkm/api/projects/pyproject_configuration.py
index a08fc94..fee1e15 100644
--- a/pkm/src/pkm/api/projects/pyproject_configuration.py
+++ b/pkm/src/pkm/api/projects/pyproject_configuration.py
@@ -83,30 +83,54 @@ class PkmProjectConfig:
     group: Optional[str] = None  # TODO: remove group and use conventions only?
 
 
-class _TextOrFileConfigFieldCodec(ConfigFieldCodec):
+class TextOrFile:
+    """
+    a field that is given by its text or by the path to a text file (relative to the project)
+    """
 
-    def __init__(self, allows_raw_text: bool):
-        self._allows_raw_text = allows_raw_text
+    def __init__(self, value: Union[str, Mapping[str, str]]):
+        """
+        :param value: the value of the field as written in the configuration,
+                      a string is the path to the file, otherwise a table with the key 'text' or 'file'
+        """
+        if not isinstance(value, str) and not (isinstance(value, Mapping) and ('text' in value or 'file' in value)):
+            raise ValueError(f"malformed value: {value}")
+        self.value = value
 
-    def parse(self, parent: ConfigCodec, type_: Type, v: Any) -> Union[Path, str, None]:
-        if self._allows_raw_text and isinstance(v, str):
-            return v
+    def __eq__(self, other):
+        return isinstance(other, TextOrFile) and self.value == other.value
 
-        if not isinstance(v, Mapping):
-            raise ValueError(f"malformed value: {v}")
+    def __repr__(self):
+        return f"TextOrFile({self.value!r})"
+
+    @property
+    def file(self) -> Optional[Path]:
+        if isinstance(self.value, str):
+            return Path(self.value)
+        return Path(self.value['file']) if 'text' not in self.value else None
+
+    @property
+    def content_type(self) -> Optional[str]:
+        return None if isinstance(self.value, str) else self.value.get('content-type')
+
+    def read(self, project_dir: Optional[Path] = None) -> str:
+        if not (file := self.file):
+            return self.value['text']
+        return Path(project_dir or '', file).read_text(encoding='utf-8')
+
+
+class _TextOrFileConfigFieldCodec(ConfigFieldCodec):
 
-        if 'text' in v:
-            return v['text']
-        else:
-            return Path(v['file'])
+    def __init__(self, allows_path: bool):
+        self._allows_path = allows_path
 
-    def unparse(self, parent: ConfigCodec, type_: Type, v: Union[Path, str, None]) -> Any:
-        if isinstance(v, Path):
-            return {'file': str(v)}
-        elif self._allows_raw_text:
-            return v
-        else:
-            return {'text': v}
+    def parse(self, parent: ConfigCodec, type_: Type, v: Any) -> TextOrFile:
+        if isinstance(v, str) and not self._allows_path:
+            raise ValueError(f"malformed value: {v}")
+        return TextOrFile(v)
+
+    def unparse(self, parent: ConfigCodec, type_: Type, v: TextOrFile) -> Any:
+        return v.value
 
 
 @dataclass(eq=True)
@@ -144,9 +168,9 @@ class ProjectConfig:
     # The optional dependencies of the project, grouped by the 'extra' name that provides them.
     optional_dependencies: Dict[str, List[Dependency]] = config_field(key="optional-dependencies", default_factory=dict)
     # The actual text or Path to a text file containing the full description of this project.
-    readme: Union[Path, str, None] = config_field(codec=_TextOrFileConfigFieldCodec(True))
+    readme: Optional[TextOrFile] = config_field(codec=_TextOrFileConfigFieldCodec(True))
     # The project licence identifier or path to the actual licence file
-    license: Union[str, Path, None] = config_field(codec=_TextOrFileConfigFieldCodec(False))
+    license: Optional[TextOrFile] = config_field(codec=_TextOrFileConfigFieldCodec(False))
     # list of entry points, following https://packaging.python.org/en/latest/specifications/entry-points/.
     _entry_points: Dict[str, Dict[str, str]] = config_field(key="entry-points", default_factory=dict)
     _scripts: Dict[str, str] = config_field(key="scripts", default_factory=dict)
@@ -202,17 +226,18 @@ class ProjectConfig:
     def package_descriptor(self) -> PackageDescriptor:
         return PackageDescriptor(self.name, self.version)
 
-    def readme_content(self) -> str:
+    def readme_content(self, project_dir: Optional[Path] = None) -> str:
+        """
+        :param project_dir: the directory that a readme file is relative to, defaults to the current one
+        :return: the full description of this project, or the empty string if there is none
+        """
         if not self.readme:
             return ""
 
-        if isinstance(self.readme, str):
-            return self.readme
-
-        if self.readme.exists():
-            return self.readme.read_text()
+        if (file := self.readme.file) and not Path(project_dir or '', file).exists():
+            return ""
 
-        return ""
+        return self.readme.read(project_dir)
 
     def script_entrypoints(self) -> Iterator[EntryPoint]:
         """
@@ -225,8 +250,14 @@ class ProjectConfig:
             yield from gui_scripts
 
     def readme_content_type(self) -> str:
-        if self.readme and isinstance(self.readme, Path):
-            readme_suffix = self.readme.suffix
+        if not self.readme:
+            return 'text/plain'
+
+        if content_type := self.readme.content_type:
+            return content_type
+
+        if file := self.readme.file:
+            readme_suffix = file.suffix
             if readme_suffix == '.md':
                 return 'text/markdown'
             elif readme_suffix == '.rst':
@@ -234,14 +265,12 @@ class ProjectConfig:
 
         return 'text/plain'
 
-    def license_content(self) -> str:
-        if not self.license:
-            return ""
-
-        if isinstance(self.license, str):
-            return self.license
-
-        return self.license.read_text()
+    def license_content(self, project_dir: Optional[Path] = None) -> str:
+        """
+        :param project_dir: the directory that a license file is relative to, defaults to the current one
+        :return: the license of this project, or the empty string if there is none
+        """
+        return self.license.read(project_dir) if self.license else ""
 
 
 _LEGACY_PROJECT_DYNAMIC = [
diff --git a/pkm/src/pkm/build/pkm_builders.py b/pkm/src/pkm/build/pkm_builders.py
index cf530d4..59f6a7f 100644
--- a/pkm/src/pkm/build/pkm_builders.py
+++ b/pkm/src/pkm/build/pkm_builders.py
@@ -132,9 +132,9 @@ class _BuildContext:
         dst.mkdir(exist_ok=True, parents=True)
         project_config: ProjectConfig = self.pyproject.project
 
-        PackageMetadata.from_project_config(project_config).save(di.metadata_path())
+        PackageMetadata.from_project_config(project_config, self.project.path).save(di.metadata_path())
         di.license_path().write_text(
-            project_config.license_content())
+            project_config.license_content(self.project.path), encoding='utf-8')
 
         # TODO: probably later we will want to add the version of pkm in the generator..
         WheelFileConfiguration.create(generator="pkm", purelib=True).save(di.wheel_path())
-- 
2.43.0


From 7674e6b3147d0c7d4c7259693c4632c614fb136a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:43 +0000
Subject: [PATCH 090/153] fix: specifiers with excluded prefixes (!=X.*) can be
 written

---
 .../pkm/api/versions/version_specifiers.py    | 66 ++++++++++++++++++-
 1 file changed, 65 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/versions/version_specifiers.py b/pkm/src/pkm/api/versions/version_specifiers.py
index 4da9b46..b4c2b57 100644
--- a/pkm/src/pkm/api/versions/version_specifiers.py
+++ b/pkm/src/pkm/api/versions/version_specifiers.py
@@ -170,6 +170,39 @@ class _AllowAll(VersionSpecifier):
 
 AllowAllVersions = _AllowAll()
 
+_MAX_EXCLUDED_PREFIXES = 50
+
+
+def _prefixes_between(
+        start: Optional[StandardVersion], end: Optional[StandardVersion]) -> Optional[List[StandardVersion]]:
+    """
+    :return: the version prefixes (X of the clause "!=X.*") that exclude exactly the versions starting at `start`
+             and before `end`, None if there are no such prefixes
+    """
+    if not start or not end or start.epoch != end.epoch \
+            or any(v != StandardVersion(v.release, epoch=v.epoch) for v in (start, end)):
+        return None
+
+    result: List[StandardVersion] = []
+    release = start.release
+    while len(release) > 1 and release[-1] == 0:
+        release = release[:-1]
+
+    prefix = StandardVersion(release, epoch=start.epoch)
+    while prefix < end:
+        *head, tail = prefix.release
+        following = StandardVersion((*head, tail + 1), epoch=start.epoch)
+        if following <= end:
+            result.append(prefix)
+            prefix = following
+        else:
+            prefix = StandardVersion((*prefix.release, 0), epoch=start.epoch)
+
+        if len(result) > _MAX_EXCLUDED_PREFIXES or len(prefix.release) > len(end.release):
+            return None
+
+    return result
+
 
 @dataclass
 class VersionsUnion(VersionSpecifier):
@@ -209,7 +242,38 @@ class VersionsUnion(VersionSpecifier):
             if isinstance(s1, StandardVersionRange) and isinstance(s2, StandardVersionRange):
                 if not s1.min and not s2.max and s1.max == s2.min:
                     return f"!={s1.max}"
-        return seq(segs).str_join('; ')
+
+        return self._str_with_exclusions() or seq(segs).str_join('; ')
+
+    def _str_with_exclusions(self) -> Optional[str]:
+        """
+        :return: the text of this union as a single range with exclusions (e.g., ">=3.8, !=3.9.*"), which in contrast
+                 to the ranges of the union, can be written in a single specifier. None if there is no such text
+        """
+        ranges = []
+        clauses: List[str] = []
+        for segment in self.segments:
+            if isinstance(segment, HetroVersionIntersection):
+                clauses.extend(f"!={it}" for it in segment.blacklist)
+                segment = segment.standard_spec
+            elif isinstance(segment, VersionMatch) and segment.allow and isinstance(segment.version, StandardVersion):
+                ranges.append((segment.version, segment.version, True, True))
+                continue
+            if not isinstance(segment, StandardVersionRange):
+                return None
+            ranges.append((segment.min, segment.max, segment.includes_min, segment.includes_max))
+
+        for (_, start, _, start_included), (end, _, end_included, _) in zip(ranges, ranges[1:]):
+            if start_included or not end_included or (exclusions := _prefixes_between(start, end)) is None:
+                return None
+            clauses.extend(f"!={prefix}.*" for prefix in exclusions)
+
+        (min_, _, includes_min, _), (_, max_, _, includes_max) = ranges[0], ranges[-1]
+        bounds = VersionSpecifier.create_range(min_, max_, includes_min, includes_max)
+        if bounds is not AllowAllVersions:
+            clauses.insert(0, str(bounds))
+
+        return ', '.join(clauses)
 
     def union_with(self, other: VersionSpecifier) -> VersionSpecifier:
         if isinstance(other, (_AllowAll, _RestrictAll)):
-- 
2.43.0


From 92667be269f0a47ffee5a120190a68f32ce5fb8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:23 +0000
Subject: [PATCH 091/153] fix: projects that require no minimal python version
 can be built

---
 pkm/src/pkm/api/distributions/wheel_distribution.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pkm/src/pkm/api/distributions/wheel_distribution.py b/pkm/src/pkm/api/distributions/wheel_distribution.py
index 733f19f..c843af2 100644
--- a/pkm/src/pkm/api/distributions/wheel_distribution.py
+++ b/pkm/src/pkm/api/distributions/wheel_distribution.py
@@ -74,9 +74,11 @@ class WheelDistribution(Distribution):
         project_config = project.config.project
         req = project_config.requires_python
 
-        min_interpreter: StandardVersion = req.min \
-            if req and isinstance(req, StandardVersionRange) else \
-            StandardVersion((Environment.current().interpreter_version.release[0],))
+        # without a minimum (or with one of an older major version, that the tag would limit this wheel to)
+        # the major version of the current interpreter is used
+        min_interpreter = StandardVersion((Environment.current().interpreter_version.release[0],))
+        if req and isinstance(req, StandardVersionRange) and req.min and req.min > min_interpreter:
+            min_interpreter = req.min
 
         req_interpreter = 'py' + ''.join(str(it) for it in min_interpreter.release[:2])
         return f"{project.descriptor.expected_src_package_name}-{project.version}-{req_interpreter}-none-any.whl"
-- 
2.43.0


From d0937d7acfab47fc3f0ccadcc70cb25ceacd48ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:23 +0000
Subject: [PATCH 092/153] fix: the dist-info of wheels is named like the wheel

---
 pkm/src/pkm/build/pkm_builders.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/pkm/src/pkm/build/pkm_builders.py b/pkm/src/pkm/build/pkm_builders.py
index 59f6a7f..d416cb0 100644
--- a/pkm/src/pkm/build/pkm_builders.py
+++ b/pkm/src/pkm/build/pkm_builders.py
@@ -96,12 +96,8 @@ def build_wheel(project: Project, target_dir: Optional[Path] = None, only_meta:
 
 @contextmanager
 def _build_context(project: Project) -> ContextManager["_BuildContext"]:
-    project_cfg: ProjectConfig = project.config.project
-
-    project_name_underscores = project_cfg.name.replace('-', '_')
-
     with temp_dir() as build_dir:
-        yield _BuildContext(project, build_dir, project_name_underscores)
+        yield _BuildContext(project, build_dir, project.descriptor.expected_src_package_name)
 
 
 @dataclass
-- 
2.43.0


From b738419f46ec2e9ce2ade66fef3deab99bbe71c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:50 +0000
Subject: [PATCH 093/153] fix: source distributions keep the layout of the
 configured packages and contain the readme and license

---
 pkm/src/pkm/build/pkm_builders.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/pkm/src/pkm/build/pkm_builders.py b/pkm/src/pkm/build/pkm_builders.py
index d416cb0..c22efbc 100644
--- a/pkm/src/pkm/build/pkm_builders.py
+++ b/pkm/src/pkm/build/pkm_builders.py
@@ -1,3 +1,4 @@
+import os
 import shutil
 import tarfile
 import zipfile
@@ -15,7 +16,7 @@ from pkm.api.environments.environment import Environment
 from pkm.api.packages.package_metadata import PackageMetadata
 from pkm.api.projects.project import ProjectDirectories, Project
 from pkm.api.projects.pyproject_configuration import ProjectConfig, PyProjectConfiguration
-from pkm.utils.files import temp_dir
+from pkm.utils.files import temp_dir, path_to
 from pkm.utils.iterators import distinct
 
 
@@ -42,10 +43,17 @@ def build_sdist(project: Project, target_dir: Optional[Path] = None) -> Path:
         bc.pyproject.save(data_dir / 'pyproject.toml')
 
         if bc.pyproject.pkm_project.packages:
-            bc.copy_sources(data_dir)
+            bc.copy_sources(data_dir, keep_layout=True)
         else:
             bc.copy_sources(data_dir / 'src')
 
+        project_cfg = project.config.project
+        for field in (project_cfg.readme, project_cfg.license):  # the metadata cannot be built without them
+            if field and (file := field.file) and (project.path / file).exists():
+                destination = data_dir / _path_in_project(project, file)
+                destination.parent.mkdir(parents=True, exist_ok=True)
+                shutil.copy(project.path / file, destination)
+
         with tarfile.open(sdist_path, 'w:gz', format=tarfile.PAX_FORMAT) as sdist:
             for file in data_dir.glob('*'):
                 sdist.add(file, file.relative_to(bc.build_dir))
@@ -94,6 +102,13 @@ def build_wheel(project: Project, target_dir: Optional[Path] = None, only_meta:
     return wheel_path
 
 
+def _path_in_project(project: Project, path: Path) -> Path:
+    result = path_to(project.path, Path(os.path.normpath(project.path / path)))
+    if '..' in result.parts:
+        raise ValueError(f"{path}, which is specified in pyproject.toml, is not inside the project")
+    return result
+
+
 @contextmanager
 def _build_context(project: Project) -> ContextManager["_BuildContext"]:
     with temp_dir() as build_dir:
@@ -141,7 +156,7 @@ class _BuildContext:
 
         return di
 
-    def copy_sources(self, dst: Path, link_only: bool = False):
+    def copy_sources(self, dst: Path, link_only: bool = False, keep_layout: bool = False):
         dirs = ProjectDirectories.create(self.pyproject)
 
         if link_only:
@@ -152,7 +167,7 @@ class _BuildContext:
             return
 
         for package_dir in dirs.src_packages:
-            destination = dst / package_dir.name
+            destination = dst / (_path_in_project(self.project, package_dir) if keep_layout else package_dir.name)
             if package_dir.exists():
                 shutil.copytree(package_dir, destination, ignore=ignore_patterns('__pycache__'))
             else:
-- 
2.43.0


From ecab2bd24a33d286a8dabaa581aeee8a4cd67523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:50 +0000
Subject: [PATCH 094/153] fix: the settings of [tool.pkm.project] can be used

---
 pkm/src/pkm/config/configclass.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pkm/src/pkm/config/configclass.py b/pkm/src/pkm/config/configclass.py
index 33b8e67..c95e70b 100644
--- a/pkm/src/pkm/config/configclass.py
+++ b/pkm/src/pkm/config/configclass.py
@@ -391,6 +391,14 @@ def config_field(
     return ConfigField(**locals())
 
 
+def _unwrap_optional(type_: Type) -> Type:
+    if typing.get_origin(type_) is typing.Union:
+        options = [it for it in typing.get_args(type_) if it is not type(None)]
+        if len(options) == 1:
+            return options[0]
+    return type_
+
+
 def config(cls: Type[_T] = None, *, io: ConfigIO = None) -> Type[_T]:
     """
     important note: if you want to apply both config and dataclass, use first dataclass and then config
@@ -401,6 +409,7 @@ def config(cls: Type[_T] = None, *, io: ConfigIO = None) -> Type[_T]:
 
         config_schema = {}
         for field, type_ in annotated_fields.items():
+            type_ = _unwrap_optional(type_)
             schema = getattr(cls_, field, None)
             if schema or not field.startswith("_"):
 
-- 
2.43.0


From 912258b19c4dfcc25beb88db7430f44a1a836ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:50 +0000
Subject: [PATCH 095/153] fix: caches, environments, pkm's own and hidden
 directories are not packages of a project

---
 pkm/src/pkm/api/projects/project.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/projects/project.py b/pkm/src/pkm/api/projects/project.py
index 1255063..f33a50c 100644
--- a/pkm/src/pkm/api/projects/project.py
+++ b/pkm/src/pkm/api/projects/project.py
@@ -354,6 +354,10 @@ class Project(Package, HasAttachedRepository, Serializable):
         return Project(pyproject, group=group)
 
 
+_NOT_PACKAGES = {'__pycache__'}
+_NOT_PACKAGES_IN_PROJECT = {'dist', 'etc'}
+
+
 @dataclass()
 class ProjectDirectories:
     src_packages: List[Path]
@@ -386,9 +390,14 @@ class ProjectDirectories:
         if packages_relative:
             packages = [project_path / p for p in packages_relative]
         else:
+            not_packages = _NOT_PACKAGES
             if not (src_dir := project_path / 'src').exists():
                 src_dir = project_path
-            packages = [p for p in src_dir.iterdir() if p.is_dir()]
+                not_packages = _NOT_PACKAGES | _NOT_PACKAGES_IN_PROJECT
+            packages = [
+                p for p in src_dir.iterdir()
+                if p.is_dir() and p.name not in not_packages and not p.name.startswith('.')
+                and p.suffix != '.egg-info' and not (p / 'pyvenv.cfg').exists()]
 
         etc_pkm = project_path / 'etc' / 'pkm'
         etc_pkm.mkdir(parents=True, exist_ok=True)
-- 
2.43.0


From def1619e0a38e5c155764db3089258f2324be2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:51 +0000
Subject: [PATCH 096/153] fix: wheels of files with early timestamps can be
 built

---
 pkm/src/pkm/build/pkm_app_builders.py | 2 +-
 pkm/src/pkm/build/pkm_builders.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/build/pkm_app_builders.py b/pkm/src/pkm/build/pkm_app_builders.py
index 7465ec4..ac8124e 100644
--- a/pkm/src/pkm/build/pkm_app_builders.py
+++ b/pkm/src/pkm/build/pkm_app_builders.py
@@ -43,7 +43,7 @@ def build_wheel(project: "Project", target_dir: Optional[Path] = None,
         # build the actual wheel
         wheel_path = target_dir / WheelDistribution.expected_wheel_file_name(project)
         target_dir.mkdir(parents=True, exist_ok=True)
-        with ZipFile(wheel_path, 'w', compression=zipfile.ZIP_DEFLATED) as wheel:
+        with ZipFile(wheel_path, 'w', compression=zipfile.ZIP_DEFLATED, strict_timestamps=False) as wheel:
             build_dir = Path(target.purelib)
             for file in build_dir.rglob('*'):
                 wheel.write(file, file.relative_to(build_dir))
diff --git a/pkm/src/pkm/build/pkm_builders.py b/pkm/src/pkm/build/pkm_builders.py
index c22efbc..c56cc4f 100644
--- a/pkm/src/pkm/build/pkm_builders.py
+++ b/pkm/src/pkm/build/pkm_builders.py
@@ -95,7 +95,7 @@ def build_wheel(project: Project, target_dir: Optional[Path] = None, only_meta:
 
         wheel_path = target_dir / bc.wheel_file_name()
         target_dir.mkdir(parents=True, exist_ok=True)
-        with ZipFile(wheel_path, 'w', compression=zipfile.ZIP_DEFLATED) as wheel:
+        with ZipFile(wheel_path, 'w', compression=zipfile.ZIP_DEFLATED, strict_timestamps=False) as wheel:
             for file in bc.build_dir.rglob('*'):
                 wheel.write(file, file.relative_to(bc.build_dir))
 
-- 
2.43.0


From 52c42b9ffac27abe38af6615a64a220903497aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:47 +0000
Subject: [PATCH 097/153] fix: saving a configuration keeps the settings inside
 of tables that have unknown settings too

---
 pkm/src/pkm/config/configclass.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/config/configclass.py b/pkm/src/pkm/config/configclass.py
index c95e70b..f2ad467 100644
--- a/pkm/src/pkm/config/configclass.py
+++ b/pkm/src/pkm/config/configclass.py
@@ -269,6 +269,17 @@ def _shove_key(config_: _RAW_CONFIG_T, key: str, value: Any):
     config_[parts[-1]] = value
 
 
+def _merge_missing(config_: _RAW_CONFIG_T, values: Mapping[str, Any]):
+    """
+    adds the given values to the config, in contrast to dict.update: the content of tables that exist in both is merged
+    """
+    for key, value in values.items():
+        if isinstance(value, Mapping) and isinstance(existing := config_.get(key), dict):
+            _merge_missing(existing, value)
+        else:
+            config_[key] = value
+
+
 class ConfigCodec:
 
     def __init__(self, field_codecs: Mapping[Type, ConfigFieldCodec] = None):
@@ -346,7 +357,7 @@ class ConfigCodec:
             value = getattr(config_object, field, None)
             if value is not None:
                 if schema.leftover:
-                    target_config.update(value)
+                    _merge_missing(target_config, value)
                     continue
                 elif codec := schema.codec or self.field_codec_for_or_none(schema.type):
                     try:
-- 
2.43.0


From 44c75552cabb35b69ecd2959b10f0457ba3ddaee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:34 +0000
Subject: [PATCH 098/153] fix: projects have their new version after it was
 bumped

---
 pkm/src/pkm/api/projects/project.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkm/src/pkm/api/projects/project.py b/pkm/src/pkm/api/projects/project.py
index f33a50c..bd2089e 100644
--- a/pkm/src/pkm/api/projects/project.py
+++ b/pkm/src/pkm/api/projects/project.py
@@ -173,6 +173,7 @@ class Project(Package, HasAttachedRepository, Serializable):
             new_version = version.bump(particle)
 
         self.config.project.version = new_version
+        self._descriptor = self.config.project.package_descriptor()
         if save:
             self.config.save()
         return new_version
-- 
2.43.0


From a4881c5dc6448afc513cd403d139ccb3fc0dbd14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:26 +0000
Subject: [PATCH 099/153] fix: interrupted builds leave no partial
 distributions

---
 pkm/src/pkm/build/pkm_app_builders.py |  5 +++--
 pkm/src/pkm/build/pkm_builders.py     |  8 +++++---
 pkm/src/pkm/utils/files.py            | 15 +++++++++++++++
 3 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/pkm/src/pkm/build/pkm_app_builders.py b/pkm/src/pkm/build/pkm_app_builders.py
index ac8124e..030f4af 100644
--- a/pkm/src/pkm/build/pkm_app_builders.py
+++ b/pkm/src/pkm/build/pkm_app_builders.py
@@ -9,7 +9,7 @@ from pkm.api.environments.environment import Environment
 from pkm.api.environments.environment_builder import EnvironmentBuilder
 from pkm.api.projects.project import Project
 from pkm.utils.commons import UnsupportedOperationException
-from pkm.utils.files import temp_dir
+from pkm.utils.files import temp_dir, written_at_once
 
 CONTAINERIZED_APP_SITE_PATH = "__packages__"
 CONTAINERIZED_APP_BIN_PATH = "__bin__"
@@ -43,7 +43,8 @@ def build_wheel(project: "Project", target_dir: Optional[Path] = None,
         # build the actual wheel
         wheel_path = target_dir / WheelDistribution.expected_wheel_file_name(project)
         target_dir.mkdir(parents=True, exist_ok=True)
-        with ZipFile(wheel_path, 'w', compression=zipfile.ZIP_DEFLATED, strict_timestamps=False) as wheel:
+        with written_at_once(wheel_path) as temp_path, ZipFile(
+                temp_path, 'w', compression=zipfile.ZIP_DEFLATED, strict_timestamps=False) as wheel:
             build_dir = Path(target.purelib)
             for file in build_dir.rglob('*'):
                 wheel.write(file, file.relative_to(build_dir))
diff --git a/pkm/src/pkm/build/pkm_builders.py b/pkm/src/pkm/build/pkm_builders.py
index c56cc4f..8472a28 100644
--- a/pkm/src/pkm/build/pkm_builders.py
+++ b/pkm/src/pkm/build/pkm_builders.py
@@ -16,7 +16,7 @@ from pkm.api.environments.environment import Environment
 from pkm.api.packages.package_metadata import PackageMetadata
 from pkm.api.projects.project import ProjectDirectories, Project
 from pkm.api.projects.pyproject_configuration import ProjectConfig, PyProjectConfiguration
-from pkm.utils.files import temp_dir, path_to
+from pkm.utils.files import temp_dir, path_to, written_at_once
 from pkm.utils.iterators import distinct
 
 
@@ -54,7 +54,8 @@ def build_sdist(project: Project, target_dir: Optional[Path] = None) -> Path:
                 destination.parent.mkdir(parents=True, exist_ok=True)
                 shutil.copy(project.path / file, destination)
 
-        with tarfile.open(sdist_path, 'w:gz', format=tarfile.PAX_FORMAT) as sdist:
+        with written_at_once(sdist_path) as temp_path, \
+                tarfile.open(temp_path, 'w:gz', format=tarfile.PAX_FORMAT) as sdist:
             for file in data_dir.glob('*'):
                 sdist.add(file, file.relative_to(bc.build_dir))
 
@@ -95,7 +96,8 @@ def build_wheel(project: Project, target_dir: Optional[Path] = None, only_meta:
 
         wheel_path = target_dir / bc.wheel_file_name()
         target_dir.mkdir(parents=True, exist_ok=True)
-        with ZipFile(wheel_path, 'w', compression=zipfile.ZIP_DEFLATED, strict_timestamps=False) as wheel:
+        with written_at_once(wheel_path) as temp_path, ZipFile(
+                temp_path, 'w', compression=zipfile.ZIP_DEFLATED, strict_timestamps=False) as wheel:
             for file in bc.build_dir.rglob('*'):
                 wheel.write(file, file.relative_to(bc.build_dir))
 
diff --git a/pkm/src/pkm/utils/files.py b/pkm/src/pkm/utils/files.py
index 5c3a40c..e6f32cd 100644
--- a/pkm/src/pkm/utils/files.py
+++ b/pkm/src/pkm/utils/files.py
@@ -78,6 +78,21 @@ def path_to(source: Path, destination: Path) -> Path:
     return Path((f'..{os.sep}' * back) + str(destination.relative_to(p)))
 
 
+@contextmanager
+def written_at_once(path: Path) -> ContextManager[Path]:
+    """
+    context manager for writing a file such that it exists only if it was written completely
+    :param path: the file to write, its directory must exist
+    :return: the path to write the file to, when the context is closed (without an exception) it is moved to `path`
+    """
+    temp_path = Path(mkdtemp(prefix='.', dir=path.parent)) / path.name
+    try:
+        yield temp_path
+        os.replace(temp_path, path)
+    finally:
+        shutil.rmtree(temp_path.parent, ignore_errors=True)
+
+
 def is_root_path(path: Path) -> bool:
     """
     :param path: the path to check
-- 
2.43.0


From 74f2d5926a9bec8a7bcdacb92bd2f8ccb9e45b64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:35 +0000
Subject: [PATCH 100/153] fix: unions of versions print as such, excluded
 prefixes are used in what is written only

---
 pkm/src/pkm/api/dependencies/dependency.py     |  2 +-
 pkm/src/pkm/api/packages/package_metadata.py   |  5 +++--
 pkm/src/pkm/api/versions/version_specifiers.py | 12 +++++++++++-
 3 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/pkm/src/pkm/api/dependencies/dependency.py b/pkm/src/pkm/api/dependencies/dependency.py
index c6a01d5..353142e 100644
--- a/pkm/src/pkm/api/dependencies/dependency.py
+++ b/pkm/src/pkm/api/dependencies/dependency.py
@@ -56,7 +56,7 @@ class Dependency:
     def __str__(self):
         extras_str = f"[{','.join(self.extras)}]" if self.extras else ''
 
-        version_str = "" if self.version_spec is AllowAllVersions else f" {str(self.version_spec)}"
+        version_str = "" if self.version_spec is AllowAllVersions else f" {self.version_spec.to_requirement_text()}"
 
         # the space separates the marker from versions that extend to the next space (urls and === versions)
         marker_str = f" ;{self.env_marker}" if self.env_marker else ''
diff --git a/pkm/src/pkm/api/packages/package_metadata.py b/pkm/src/pkm/api/packages/package_metadata.py
index 44eb50a..53caec3 100644
--- a/pkm/src/pkm/api/packages/package_metadata.py
+++ b/pkm/src/pkm/api/packages/package_metadata.py
@@ -18,7 +18,7 @@ _METADATA_VERSION = '2.1'
 
 #: without a requirement the field is left out ('*' is not a version specifier)
 REQUIRES_PYTHON_CODEC = config_field_codec(
-    lambda v: VersionSpecifier.parse(str(v)), lambda v: None if v is AllowAllVersions else str(v))
+    lambda v: VersionSpecifier.parse(str(v)), lambda v: None if v is AllowAllVersions else v.to_requirement_text())
 
 _MULTI_FIELDS = {
     'Provides-Extra', 'Platform', 'Supported-Platform', 'Classifier', 'Requires-Dist', 'Provides-Dist',
@@ -128,7 +128,8 @@ class PackageMetadata(ConfigFile):
             'Author': ', '.join(author_names) or None, 'Author-email': ', '.join(author_emails) or None,
             'Maintainer': ', '.join(maintainer_names) or None, 'Maintainer-email': ', '.join(maintainer_emails) or None,
             'License': prjc.license_content(project_dir) or None, 'Classifier': prjc.classifiers,
-            'Requires-Dist': [str(d) for d in all_deps], 'Requires-Python': None if prjc.requires_python is AllowAllVersions else str(prjc.requires_python),
+            'Requires-Dist': [str(d) for d in all_deps],
+            'Requires-Python': REQUIRES_PYTHON_CODEC.unparse(None, VersionSpecifier, prjc.requires_python),
             'Provides-Extra': extras,
             'Project-URL': [f"{label}, {url}" for label, url in (prjc.urls or {}).items()],
             # 'Dynamic': prjc.dynamic or [], add back when pypi supports metadata version 2.2
diff --git a/pkm/src/pkm/api/versions/version_specifiers.py b/pkm/src/pkm/api/versions/version_specifiers.py
index b4c2b57..c4149b4 100644
--- a/pkm/src/pkm/api/versions/version_specifiers.py
+++ b/pkm/src/pkm/api/versions/version_specifiers.py
@@ -51,6 +51,13 @@ class VersionSpecifier(ABC):
     def __str__(self) -> str:
         ...
 
+    def to_requirement_text(self) -> str:
+        """
+        :return: the text of this specifier as it is written to files (e.g., to the metadata of a package),
+                 where there is no way to write an union of ranges
+        """
+        return str(self)
+
     @abstractmethod
     def __lt__(self, other: VersionSpecifier) -> VersionSpecifier:
         ...
@@ -243,7 +250,10 @@ class VersionsUnion(VersionSpecifier):
                 if not s1.min and not s2.max and s1.max == s2.min:
                     return f"!={s1.max}"
 
-        return self._str_with_exclusions() or seq(segs).str_join('; ')
+        return seq(segs).str_join('; ')
+
+    def to_requirement_text(self) -> str:
+        return self._str_with_exclusions() or str(self)
 
     def _str_with_exclusions(self) -> Optional[str]:
         """
-- 
2.43.0


From 3e50d17fedbdd5e8b5b6f87d47c52a2d16f638d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:19 +0000
Subject: [PATCH 101/153] fix: the introspection of environments is kept
 between processes

---
 pkm/src/pkm/api/environments/environment_introspection.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/environments/environment_introspection.py b/pkm/src/pkm/api/environments/environment_introspection.py
index a20b1e4..8edf0d4 100644
--- a/pkm/src/pkm/api/environments/environment_introspection.py
+++ b/pkm/src/pkm/api/environments/environment_introspection.py
@@ -6,6 +6,7 @@ import re
 import subprocess
 import warnings
 from dataclasses import dataclass
+from hashlib import sha256
 from json import JSONDecodeError
 from pathlib import Path
 from struct import Struct
@@ -406,7 +407,9 @@ class EnvironmentIntrospection:
             warnings.warn(f"env introspection is corrupted, rebuilding it: {err}")
             data = {}
 
-        current_introspection_sentinal = hash((_INTROSPECTION_CODE, str(interpreter_path.absolute())))
+        # not using hash(): it is different in each process
+        current_introspection_sentinal = sha256(
+            f"{interpreter_path.absolute()}\n{_INTROSPECTION_CODE}".encode()).hexdigest()
         if (introspection_sentinal := data.get('introspection')) \
                 and introspection_sentinal == current_introspection_sentinal:
             return cls(data=data)
-- 
2.43.0


From 081e1308064eb18aa086893fea29af77ffd595f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:24 +0000
Subject: [PATCH 102/153] fix: urls with credentials, ipv6 hosts, without a
 path or with characters that must be encoded

---
 pkm/src/pkm/utils/http/http_client.py | 39 ++++++++++++++++++---------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/pkm/src/pkm/utils/http/http_client.py b/pkm/src/pkm/utils/http/http_client.py
index 4e4140b..d9453c4 100644
--- a/pkm/src/pkm/utils/http/http_client.py
+++ b/pkm/src/pkm/utils/http/http_client.py
@@ -13,13 +13,14 @@ from http.client import HTTPSConnection, HTTPConnection, HTTPResponse
 from pathlib import Path
 from socket import AddressFamily
 from threading import Lock
-from typing import Deque, Dict, Type, Optional, cast, Any, ContextManager, IO, Union, Iterable
-from urllib.parse import urlsplit
+from typing import Deque, Dict, Type, Optional, cast, Any, ContextManager, IO, Union, Iterable, Iterator
+from urllib.parse import quote, unquote, urljoin, urlsplit
 
 from pkm.config.configclass import ConfigFile, config, config_field
 from pkm.config.configfiles import TomlConfigIO
 from pkm.utils.commons import Closeable, IllegalStateException
 from pkm.utils.dicts import get_or_put
+from pkm.utils.http.auth import BasicAuthentication
 from pkm.utils.http.cache_directive import CacheDirective
 from pkm.utils.http.http_monitors import FetchResourceMonitoredOp, FetchResourceCacheHitEvent, \
     FetchResourceDownloadStartEvent
@@ -51,6 +52,9 @@ class HttpException(IOError):
         self.response = response
 
 
+_URL_CHARACTERS = "%/:?#[]@!$&'()*+,;=-._~|\\^`{}\"<>"
+
+
 @dataclass(frozen=True, eq=True)
 class Url:
     scheme: str
@@ -59,39 +63,48 @@ class Url:
     path: str
     query_string: str
     fragment: str
+    username: Optional[str] = None
+    password: Optional[str] = None
+
+    def auth_headers(self) -> Dict[str, str]:
+        if self.username is None:
+            return {}
+        return dict([BasicAuthentication(self.username, self.password or '').as_header()])
 
     def connection_part(self) -> str:
-        return f"{self.scheme}://{self.host}:{self.port}"
+        return f"{self.scheme}://{self._host_part()}:{self.port}"
 
     def resource_part(self) -> str:
         query_str = "" if not self.query_string else f"?{self.query_string}"
-        fragment_str = "" if not self.fragment else f"#{self.fragment}"
-        return f"{self.path}{query_str}{fragment_str}"
+        # everything that is not allowed in urls is encoded, what is encoded already stays as it is
+        return quote(f"{self.path or '/'}{query_str}", safe=_URL_CHARACTERS)
 
     def __str__(self):
         default_port = (self.scheme == 'https' and self.port == 443) or (self.scheme == 'http' and self.port == 80)
         port_str = "" if default_port else f":{self.port}"
         query_str = "" if not self.query_string else f"?{self.query_string}"
         fragment_str = "" if not self.fragment else f"#{self.fragment}"
-        return f"{self.scheme}://{self.host}{port_str}{self.path}{query_str}{fragment_str}"
+        return f"{self.scheme}://{self._host_part()}{port_str}{self.path}{query_str}{fragment_str}"
+
+    def _host_part(self) -> str:
+        return f"[{self.host}]" if ':' in self.host else self.host
 
     @property
     def connection_type(self) -> Type[HTTPConnection]:
         if self.scheme == 'https':
             return HTTPSConnection
-        return HTTPConnection
+        if self.scheme == 'http':
+            return HTTPConnection
+        raise HttpException(f"unsupported url: {self}")
 
     @classmethod
     def parse(cls, url: str) -> "Url":
         parts = urlsplit(url)
         scheme = parts.scheme
-        if ':' in parts.netloc:
-            host, port = parts.netloc.split(':')
-        else:
-            host = parts.netloc
-            port = '80' if scheme == 'http' else '443'
+        port = parts.port or (80 if scheme == 'http' else 443)
+        username, password = (unquote(it) if it is not None else None for it in (parts.username, parts.password))
 
-        return Url(scheme, host, int(port), parts.path, parts.query, parts.fragment)
+        return Url(scheme, parts.hostname or '', port, parts.path, parts.query, parts.fragment, username, password)
 
 
 class _ConnectionProxy(Closeable):
-- 
2.43.0


From 98eaa40f8cc3bf6992b8f9950ab2e0c3df27578f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:25 +0000
Subject: [PATCH 103/153] fix: connections that broke or have unread content
 are not used again, requests are sent again as they were

---
 pkm/src/pkm/utils/http/http_client.py | 72 ++++++++++++++++++++-------
 1 file changed, 54 insertions(+), 18 deletions(-)

diff --git a/pkm/src/pkm/utils/http/http_client.py b/pkm/src/pkm/utils/http/http_client.py
index d9453c4..571f392 100644
--- a/pkm/src/pkm/utils/http/http_client.py
+++ b/pkm/src/pkm/utils/http/http_client.py
@@ -121,6 +121,13 @@ class _ConnectionProxy(Closeable):
     def __del__(self):
         self.close()
 
+    def disconnect(self):
+        """
+        closes the connection to the server, the next request (of whoever uses this connection) opens a new one
+        """
+        if self._conn is not None:
+            self._conn.close()
+
     def close(self):
         if self._conn is not None:
             # noinspection PyProtectedMember
@@ -281,6 +288,27 @@ class FetchedResource:
             raise
 
 
+class _RepeatableBody:
+    """
+    the payload of a request, which can be sent again
+    """
+
+    def __init__(self, payload: Union[IO, str, bytes, None, Iterable[bytes]]):
+        self._payload = payload
+        self._sent = False
+        self._file_position = payload.tell() if hasattr(payload, 'seek') else None
+
+    def get(self) -> Union[IO, str, bytes, None, Iterable[bytes]]:
+        if self._sent:
+            if self._file_position is not None:
+                self._payload.seek(self._file_position)
+            elif isinstance(self._payload, Iterator):
+                raise HttpException("connection failed and the payload of the request cannot be sent again")
+
+        self._sent = True
+        return self._payload
+
+
 class _GzipResponseWrapper:
     def __init__(self, response: HTTPResponse):
         self._response = response
@@ -335,39 +363,47 @@ class HttpClient:
             max_redirects: int = -1
     ) -> ContextManager[HTTPResponse]:
 
-        conn: HTTPConnection
+        conn: _ConnectionProxy
         num_redirects_performed = 0
         num_connection_retries = 0
 
         max_redirects = self._max_redirects if max_redirects < 0 else max_redirects
+        body = _RepeatableBody(payload)
 
         while num_connection_retries < self._max_connection_retries and num_redirects_performed <= max_redirects:
             with self._pool.connection_for(url) as conn:
                 try:
                     # print(f"[CONN] using connection {conn.number} to connect to {str(url)}")  # noqa
-                    conn.request(mtd, url.resource_part(), headers=headers, body=payload)
-                    with conn.getresponse() as response:
-                        if response.status in (301, 302, 303, 307, 308):
-                            num_redirects_performed += 1
-                            num_connection_retries = 0
-                            if not (new_location := response.headers.get("Location")):
-                                raise HttpException(
-                                    "server responded with redirect but without supplying a new location")
-                            if new_location.startswith("/"):
-                                url = replace(url, path=new_location)
-                            else:
-                                url = Url.parse(new_location)
-                            response.read()
-                        else:
+                    conn.request(mtd, url.resource_part(), headers={**url.auth_headers(), **headers}, body=body.get())
+                    response = conn.getresponse()
+                except ConnectionError:
+                    conn.disconnect()
+                    num_connection_retries += 1
+                    continue
+                except BaseException:
+                    conn.disconnect()
+                    raise
+
+                with response:
+                    try:
+                        if response.status not in (301, 302, 303, 307, 308):
                             if response.headers.get('Content-Encoding') == 'gzip':
                                 yield cast(HTTPResponse, _GzipResponseWrapper(response))
                             else:
                                 yield response
                             return
-                except ConnectionError:
-                    num_connection_retries += 1
 
-        error = "max redirects reached" if num_redirects_performed > self._max_redirects else "connection failed"
+                        num_redirects_performed += 1
+                        num_connection_retries = 0
+                        if not (new_location := response.headers.get("Location")):
+                            raise HttpException(
+                                "server responded with redirect but without supplying a new location")
+                        url = Url.parse(urljoin(str(url), new_location))
+                    finally:
+                        if not response.isclosed():  # what is left must not be read by those that use it next
+                            conn.disconnect()
+
+        error = "max redirects reached" if num_redirects_performed > max_redirects else "connection failed"
         raise HttpException(error)
 
     @contextmanager
-- 
2.43.0


From 94a06dffd7f0ce8cfd1b8734c63e1d7fa422e37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:25 +0000
Subject: [PATCH 104/153] fix: incomplete downloads do not enter the cache,
 which has a file for every url

---
 pkm/src/pkm/utils/http/http_client.py | 39 ++++++++++++++++-----------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/pkm/src/pkm/utils/http/http_client.py b/pkm/src/pkm/utils/http/http_client.py
index 571f392..51fdf51 100644
--- a/pkm/src/pkm/utils/http/http_client.py
+++ b/pkm/src/pkm/utils/http/http_client.py
@@ -20,6 +20,7 @@ from pkm.config.configclass import ConfigFile, config, config_field
 from pkm.config.configfiles import TomlConfigIO
 from pkm.utils.commons import Closeable, IllegalStateException
 from pkm.utils.dicts import get_or_put
+from pkm.utils.files import written_at_once
 from pkm.utils.http.auth import BasicAuthentication
 from pkm.utils.http.cache_directive import CacheDirective
 from pkm.utils.http.http_monitors import FetchResourceMonitoredOp, FetchResourceCacheHitEvent, \
@@ -264,25 +265,33 @@ class FetchedResource:
 
     def save(self, response: HTTPResponse):
         self.data.parent.mkdir(exist_ok=True, parents=True)
-        if self.fetch_info.exists():
-            self.fetch_info.unlink()
 
-        try:
-            with open(self.data, 'wb') as df:
+        with written_at_once(self.data) as temp_data:
+            with open(temp_data, 'wb') as df:
                 shutil.copyfileobj(response, df)
 
+            if response.length:
+                raise HttpException("connection closed before the whole content was received", response)
+
+            # the fetch info must not belong to other data
+            self.fetch_info.unlink(missing_ok=True)
+
+        try:
             rheaders = response.headers
             last_modified = rheaders.get('last-modified', rheaders.get('date'))
 
-            # noinspection PyPropertyAccess
-            fetch_info = self.fetch_info_data = FetchInfoConfig()
+            fetch_info = FetchInfoConfig()
             fetch_info.path = self.fetch_info
 
             # fetch_info.fetch_time = last_modified or datetime.utcnow().strftime(TF_HTTP)
             fetch_info.fetch_time = last_modified or eu.format_datetime(datetime.now().astimezone(timezone.utc), True)
             fetch_info.etag = rheaders.get("etag") or ''
 
-            fetch_info.save()
+            with written_at_once(self.fetch_info) as temp_info:
+                fetch_info.save(temp_info)
+
+            # noinspection PyPropertyAccess
+            self.fetch_info_data = fetch_info
         except:  # noqa
             self.delete()
             raise
@@ -330,6 +339,9 @@ def _add_standard_headers(headers: Dict[str, str]):
     headers['connection'] = 'keep-alive'
 
 
+_MAX_FILE_NAME = 60  # characters
+
+
 class HttpClient:
 
     def __init__(self, workspace: Path, max_redirects: int = 3, max_connection_retries: int = 2):
@@ -343,15 +355,12 @@ class HttpClient:
         self._max_connection_retries = max_connection_retries
 
     def _resource_files_of(self, url: Url) -> FetchedResource:
-        url_hash = hashlib.md5(str(url).encode('ascii')).hexdigest()
-        url_path = Path(url.path.lstrip('/'))
-
-        if url_path.parent:
-            cache_dir = self.workspace / url.host / url_path.parent / url_hash
-        else:
-            cache_dir = self.workspace / url.host / url_hash
+        url_hash = hashlib.md5(str(url).encode()).hexdigest()
+        # the path of the url must not lead out of the cache
+        path_parts = [part[:_MAX_FILE_NAME] for part in url.path.split('/') if part not in ('', '.', '..')]
 
-        data_file = cache_dir / url_path.name
+        cache_dir = self.workspace.joinpath(url.host.replace(':', '_'), *path_parts[:-1], url_hash)
+        data_file = cache_dir / (path_parts[-1] if path_parts else 'index')
         fetch_file = data_file.with_suffix(".fetch.toml")
 
         return FetchedResource(fetch_file, data_file, self.workspace)
-- 
2.43.0


From 79d7a280d6829f44caba4ea9f2e06f545fa29308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:25 +0000
Subject: [PATCH 105/153] fix: fetches in progress are forgotten when they end,
 each uses its own cache directive

---
 pkm/src/pkm/utils/http/http_client.py | 192 ++++++++++++++------------
 1 file changed, 100 insertions(+), 92 deletions(-)

diff --git a/pkm/src/pkm/utils/http/http_client.py b/pkm/src/pkm/utils/http/http_client.py
index 51fdf51..5f29ea1 100644
--- a/pkm/src/pkm/utils/http/http_client.py
+++ b/pkm/src/pkm/utils/http/http_client.py
@@ -5,7 +5,7 @@ import shutil
 import socket
 from collections import deque
 from contextlib import contextmanager
-from dataclasses import dataclass, replace
+from dataclasses import dataclass
 from datetime import datetime
 from datetime import timezone
 from gzip import GzipFile
@@ -13,7 +13,7 @@ from http.client import HTTPSConnection, HTTPConnection, HTTPResponse
 from pathlib import Path
 from socket import AddressFamily
 from threading import Lock
-from typing import Deque, Dict, Type, Optional, cast, Any, ContextManager, IO, Union, Iterable, Iterator
+from typing import Deque, Dict, Type, Optional, cast, Any, ContextManager, IO, Union, Iterable, Iterator, Tuple
 from urllib.parse import quote, unquote, urljoin, urlsplit
 
 from pkm.config.configclass import ConfigFile, config, config_field
@@ -25,7 +25,7 @@ from pkm.utils.http.auth import BasicAuthentication
 from pkm.utils.http.cache_directive import CacheDirective
 from pkm.utils.http.http_monitors import FetchResourceMonitoredOp, FetchResourceCacheHitEvent, \
     FetchResourceDownloadStartEvent
-from pkm.utils.promises import Promise, Deferred
+from pkm.utils.promises import Promise, Deferred, await_all_promises
 from pkm.utils.properties import clear_cached_properties, cached_property
 
 HTTPConnection.debuglevel = 0
@@ -53,6 +53,7 @@ class HttpException(IOError):
         self.response = response
 
 
+_DEFAULT_PORTS = {'http': 80, 'https': 443}
 _URL_CHARACTERS = "%/:?#[]@!$&'()*+,;=-._~|\\^`{}\"<>"
 
 
@@ -60,7 +61,7 @@ _URL_CHARACTERS = "%/:?#[]@!$&'()*+,;=-._~|\\^`{}\"<>"
 class Url:
     scheme: str
     host: str
-    port: int
+    port: Optional[int]
     path: str
     query_string: str
     fragment: str
@@ -81,7 +82,7 @@ class Url:
         return quote(f"{self.path or '/'}{query_str}", safe=_URL_CHARACTERS)
 
     def __str__(self):
-        default_port = (self.scheme == 'https' and self.port == 443) or (self.scheme == 'http' and self.port == 80)
+        default_port = self.port == _DEFAULT_PORTS.get(self.scheme)
         port_str = "" if default_port else f":{self.port}"
         query_str = "" if not self.query_string else f"?{self.query_string}"
         fragment_str = "" if not self.fragment else f"#{self.fragment}"
@@ -102,7 +103,7 @@ class Url:
     def parse(cls, url: str) -> "Url":
         parts = urlsplit(url)
         scheme = parts.scheme
-        port = parts.port or (80 if scheme == 'http' else 443)
+        port = parts.port or _DEFAULT_PORTS.get(scheme)
         username, password = (unquote(it) if it is not None else None for it in (parts.username, parts.password))
 
         return Url(scheme, parts.hostname or '', port, parts.path, parts.query, parts.fragment, username, password)
@@ -235,8 +236,20 @@ class FetchedResource:
     def exists(self) -> bool:
         return self.data.exists() and self.fetch_info.exists()
 
+    def load_fetch_info(self) -> Optional[FetchInfoConfig]:
+        """
+        :return: the information about the cached data, or None if there are no (usable) cached data
+        """
+        if not self.exists():
+            return None
+
+        try:
+            return self.fetch_info_data
+        except Exception:  # noqa : whatever it is, we did not write it (or not all of it)
+            return None
+
     def read_data_as_json(self) -> Any:
-        with self.data.open('r') as inp:
+        with self.data.open('r', encoding='utf-8') as inp:
             return json.load(inp)
 
     @cached_property
@@ -333,13 +346,11 @@ class _GzipResponseWrapper:
         return getattr(self._response, item)
 
 
-def _add_standard_headers(headers: Dict[str, str]):
-    headers['user-agent'] = f'pkm'
-    headers['accept-encoding'] = 'gzip'
-    headers['connection'] = 'keep-alive'
+def _with_standard_headers(headers: Optional[Dict[str, str]]) -> Dict[str, str]:
+    return {**(headers or {}), 'user-agent': 'pkm', 'accept-encoding': 'gzip', 'connection': 'keep-alive'}
 
 
-_MAX_FILE_NAME = 60  # characters
+_MAX_FILE_NAME = 200  # bytes
 
 
 class HttpClient:
@@ -349,15 +360,16 @@ class HttpClient:
         workspace.mkdir(exist_ok=True, parents=True)
 
         self._pool = _ConnectionPool()
-        self._fetch_inprogress: Dict[str, Promise[FetchedResource]] = {}
+        self._fetch_inprogress: Dict[str, Tuple[CacheDirective, Promise[FetchedResource]]] = {}
         self._fetch_lock = Lock()
         self._max_redirects = max_redirects
         self._max_connection_retries = max_connection_retries
 
     def _resource_files_of(self, url: Url) -> FetchedResource:
-        url_hash = hashlib.md5(str(url).encode()).hexdigest()
+        url_hash = hashlib.md5(repr((str(url), url.username, url.password)).encode()).hexdigest()
         # the path of the url must not lead out of the cache
-        path_parts = [part[:_MAX_FILE_NAME] for part in url.path.split('/') if part not in ('', '.', '..')]
+        path_parts = [part.encode()[:_MAX_FILE_NAME].decode(errors='ignore')
+                      for part in url.path.split('/') if part not in ('', '.', '..')]
 
         cache_dir = self.workspace.joinpath(url.host.replace(':', '_'), *path_parts[:-1], url_hash)
         data_file = cache_dir / (path_parts[-1] if path_parts else 'index')
@@ -420,22 +432,15 @@ class HttpClient:
             self, url: str, payload: Union[IO, str, bytes, None, Iterable[bytes]] = None,
             headers: Optional[Dict[str, str]] = None, *, max_redirects: int = -1) -> ContextManager[HTTPResponse]:
 
-        headers = headers or {}
-        url = Url.parse(url)
-        _add_standard_headers(headers)
-
-        with self._request("POST", url, headers, payload, max_redirects=max_redirects) as response:
+        with self._request("POST", Url.parse(url), _with_standard_headers(headers), payload,
+                           max_redirects=max_redirects) as response:
             yield response
 
     @contextmanager
     def get(self, url: str, headers: Optional[Dict[str, str]] = None, *,
             max_redirects: int = -1) -> ContextManager[HTTPResponse]:
 
-        headers = headers or {}
-        url = Url.parse(url)
-        _add_standard_headers(headers)
-
-        with self._request("GET", url, headers, max_redirects=max_redirects) as response:
+        with self._request("GET", Url.parse(url), _with_standard_headers(headers), max_redirects=max_redirects) as response:
             yield response
 
     def fetch_resource(
@@ -446,76 +451,79 @@ class HttpClient:
         resource_name = resource_name or parsed_url.path.split("/")[-1]
 
         with FetchResourceMonitoredOp(resource_name, url) as mop:
-            if not cache:
-                cache = CacheDirective.allways()
-
-            cached = True
-            with self._fetch_lock:
-
-                # If I am already requesting this url - no need to actually do it twice, note that
-                # this may pose a problem if one of the recipients will delete the files, if it revealed to be a problem
-                # we can fix it by adding a ref-counting delete operation for the FetchedResource for example
-                promise = self._fetch_inprogress.get(url)
-
-                if not promise:
-                    cached = False
-
-                    def _fetch() -> Optional[FetchedResource]:
-                        headers = {}
-                        cache_files = self._resource_files_of(parsed_url)
-                        fetch_info = FetchInfoConfig.load(
-                            cache_files.fetch_info)  # TODO: maybe add the response headers
-                        _add_standard_headers(headers)
-
-                        use_cached_data = cache_files.exists() and cache.is_cache_valid(fetch_info)
-                        if use_cached_data:
-                            mop.notify(FetchResourceCacheHitEvent())
-                        else:
-                            # console.log(f"[Start]: GET {url}...")
-                            response: Optional[HTTPResponse] = None
-
-                            # noinspection PyShadowingNames
-                            try:
-                                cache.add_headers(fetch_info, headers)
-                                with self._request("GET", parsed_url, headers=headers) as response:
-                                    clength = int(response.headers.get('content-length', '-1'))
-                                    mop.notify(FetchResourceDownloadStartEvent(clength, cache_files.data))
-
-                                    # print(f"[MID] GET {url} resulted with status code: {response.status}...")
-
-                                    if response.status == 200:
-                                        cache_files.save(response)
-                                    elif response.status != 304:
-                                        raise HttpException(
-                                            f"request to {url} ended with unexpected status code:"
-                                            f" {response.status} ({response.msg})", response)
-                            except Exception as e:
-                                if isinstance(e, HttpException):
-                                    raise
-                                else:
-                                    raise HttpException(str(e), response) from e
-                            finally:
-                                # print(f"thread: {threading.current_thread().ident} attempting to release task")
-                                with self._fetch_lock:
-                                    del self._fetch_inprogress[url]
-                                # print(f"thread: {threading.current_thread().ident} succss to release task")
-
-                        # print(f"[END] GET {url} resulted with cache files: {cache_files}")
-                        return cache_files
-
-                    deffered: Deferred[Optional[FetchedResource]] = Deferred()
-                    promise = self._fetch_inprogress[url] = deffered.promise()
-
-            if cached:
-                mop.notify(FetchResourceCacheHitEvent())
-                return promise.result()
+            cache = cache or CacheDirective.allways()
+            fetch_key = str(parsed_url)
+
+            while True:
+                with self._fetch_lock:
+                    # If I am already requesting this url - no need to actually do it twice, note that
+                    # this may pose a problem if one of the recipients will delete the files, if it revealed to be a problem
+                    # we can fix it by adding a ref-counting delete operation for the FetchedResource for example
+                    inprogress = self._fetch_inprogress.get(fetch_key)
+
+                    if not inprogress:
+                        deferred: Deferred[FetchedResource] = Deferred()
+                        self._fetch_inprogress[fetch_key] = (cache, deferred.promise())
+                        break
+
+                inprogress_cache, promise = inprogress
+                if inprogress_cache is cache:
+                    mop.notify(FetchResourceCacheHitEvent())
+                    return promise.result()
+
+                # it may use cached data that are not good enough here, and the cache files must not be written twice at once
+                await_all_promises([promise], ignore_error=True)
 
             try:
-                deffered.complete(_fetch())
-            except Exception as e:
-                deffered.fail(e)
+                result = self._fetch(url, parsed_url, cache, mop)
+            except BaseException as e:
+                self._fetch_completed(fetch_key)
+                deferred.fail(e)
+                raise
+
+            self._fetch_completed(fetch_key)
+            deferred.complete(result)
+            return result
+
+    def _fetch_completed(self, fetch_key: str):
+        with self._fetch_lock:
+            del self._fetch_inprogress[fetch_key]
+
+    def _fetch(
+            self, url: str, parsed_url: Url, cache: CacheDirective, mop: FetchResourceMonitoredOp) -> FetchedResource:
+
+        response: Optional[HTTPResponse] = None
 
-            return promise.result()
+        try:
+            cache_files = self._resource_files_of(parsed_url)
+            fetch_info = cache_files.load_fetch_info()  # TODO: maybe add the response headers
+
+            if fetch_info and cache.is_cache_valid(fetch_info):
+                mop.notify(FetchResourceCacheHitEvent())
+                return cache_files
+
+            headers = _with_standard_headers({})
+            num_unconditional_headers = len(headers)
+            if fetch_info:
+                cache.add_headers(fetch_info, headers)
+            conditional = len(headers) > num_unconditional_headers
+
+            with self._request("GET", parsed_url, headers=headers) as response:
+                clength = int(response.headers.get('content-length', '-1'))
+                mop.notify(FetchResourceDownloadStartEvent(clength, cache_files.data))
+
+                if response.status == 200:
+                    cache_files.save(response)
+                elif response.status != 304 or not conditional:
+                    raise HttpException(
+                        f"request to {url} ended with unexpected status code:"
+                        f" {response.status} ({response.msg})", response)
+
+            return cache_files
+        except HttpException:
+            raise
+        except Exception as e:
+            raise HttpException(str(e), response) from e
 
     def clear_resources(self):
         shutil.rmtree(self.workspace)
-- 
2.43.0


From 541a6e5bdd46281753c2a698915650e32c370225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:25 +0000
Subject: [PATCH 106/153] fix: form payloads have an end and can be sent again

---
 pkm/src/pkm/utils/http/mfd_payload.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkm/src/pkm/utils/http/mfd_payload.py b/pkm/src/pkm/utils/http/mfd_payload.py
index 8404434..3900e1a 100644
--- a/pkm/src/pkm/utils/http/mfd_payload.py
+++ b/pkm/src/pkm/utils/http/mfd_payload.py
@@ -14,6 +14,7 @@ class FormField:
     def __init__(self, name: str, payload: Union[IO, str, bytes], filename: Optional[str] = None):
         self.name: str = name
         self.payload = payload
+        self.payload_start = payload.tell() if isinstance(payload, IOBase) and payload.seekable() else 0
         self.filename = filename or name
         filename_header_part = f'; filename="{filename}"' if filename else ""
         self.headers = {
@@ -54,6 +55,8 @@ class MultipartFormDataPayload:
 
             payload = field.payload
             if isinstance(payload, IOBase):
+                if payload.seekable():  # the request may be sent again
+                    payload.seek(field.payload_start)
                 yield from chunks(payload, chunk_size)
             elif isinstance(payload, str):
                 yield payload.encode()
@@ -64,6 +67,8 @@ class MultipartFormDataPayload:
 
             yield newline
 
+        yield f"--{self._boundary}--\r\n".encode()
+
 
 def _guess_content_type(filename: Optional[str], default="application/octet-stream"):
     if filename:
-- 
2.43.0


From c0034a93650e5e4e386fae45fa188a8e97211472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:26 +0000
Subject: [PATCH 107/153] fix: one file with malformed python requirements does
 not hide its whole package

---
 pkm/src/pkm/api/packages/standard_package.py  | 18 ++++++++++++++++++
 pkm/src/pkm/repositories/pypi_repository.py   |  7 +------
 pkm/src/pkm/repositories/simple_repository.py |  8 ++------
 3 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/pkm/src/pkm/api/packages/standard_package.py b/pkm/src/pkm/api/packages/standard_package.py
index 8425b75..0d2deb4 100644
--- a/pkm/src/pkm/api/packages/standard_package.py
+++ b/pkm/src/pkm/api/packages/standard_package.py
@@ -24,6 +24,24 @@ class PackageArtifact:
     requires_python: Optional[VersionSpecifier] = None
     other_info: Dict[str, Any] = field(default_factory=dict)
 
+    @classmethod
+    def of_index(
+            cls, file_name: str, requires_python: Optional[str],
+            other_info: Dict[str, Any]) -> Optional["PackageArtifact"]:
+        """
+        :param file_name: the file name of the artifact
+        :param requires_python: the python versions that the artifact requires, as written in the index
+        :param other_info: other information about the artifact
+        :return: the artifact or None if its requirements cannot be understood, such an artifact cannot be used
+                 (but other artifacts of the same package can)
+        """
+        try:
+            python_spec = VersionSpecifier.parse(requires_python) if requires_python else None
+        except ValueError:
+            return None
+
+        return cls(file_name, python_spec, other_info)
+
     def is_binary(self):
         return self.file_name.endswith(".whl")
 
diff --git a/pkm/src/pkm/repositories/pypi_repository.py b/pkm/src/pkm/repositories/pypi_repository.py
index 6577c9f..abbda63 100644
--- a/pkm/src/pkm/repositories/pypi_repository.py
+++ b/pkm/src/pkm/repositories/pypi_repository.py
@@ -12,7 +12,6 @@ from pkm.api.pkm import pkm
 from pkm.api.repositories.repository import AbstractRepository, RepositoryBuilder, Repository, AuthParam, AuthParamType
 from pkm.api.repositories.repository import RepositoryPublisher
 from pkm.api.versions.version import Version
-from pkm.api.versions.version_specifiers import VersionSpecifier
 from pkm.utils.http.auth import BasicAuthentication
 from pkm.utils.http.cache_directive import CacheDirective
 from pkm.utils.http.http_client import HttpClient, HttpException
@@ -126,15 +125,11 @@ class PypiPackage(AbstractPackage, Serializable):
 
 
 def _create_artifact_from_pypi_release(release: Dict[str, Any]) -> Optional[PackageArtifact]:
-    requires_python = release.get('requires_python')
-
     file_name: str = release.get('filename')
     if not file_name:
         return None
 
-    return PackageArtifact(
-        file_name, VersionSpecifier.parse(requires_python) if requires_python else None, release
-    )
+    return PackageArtifact.of_index(file_name, release.get('requires_python'), release)
 
 
 # https://warehouse.pypa.io/api-reference/legacy.html
diff --git a/pkm/src/pkm/repositories/simple_repository.py b/pkm/src/pkm/repositories/simple_repository.py
index e704b85..6eac1b4 100644
--- a/pkm/src/pkm/repositories/simple_repository.py
+++ b/pkm/src/pkm/repositories/simple_repository.py
@@ -10,7 +10,6 @@ from pkm.api.packages.standard_package import PackageArtifact, AbstractPackage
 from pkm.api.pkm import pkm
 from pkm.api.repositories.repository import Repository, RepositoryBuilder, AbstractRepository
 from pkm.api.versions.version import Version
-from pkm.api.versions.version_specifiers import VersionSpecifier
 from pkm.utils.http.cache_directive import CacheDirective
 from pkm.utils.http.http_client import Url
 from pkm.utils.types import Serializable
@@ -87,16 +86,13 @@ class _HtmlArtifactsExtractor(HTMLParser):
     def handle_element(self, tag: str, attrs: Dict[str, str], text: str):
         self._text_handler = None
         if tag == 'a' and 'href' in attrs:
-            requires_python = None
-            if requires_python_str := attrs.get('data-requires-python'):
-                requires_python = VersionSpecifier.parse(requires_python_str)
-
             url = attrs.get('href')
             if not url.startswith('http'):
                 url = f"{self._base_url}/{url.lstrip('/')}"
 
             if endswith_any(text, _DISTRIBUTION_EXTENSIONS):
-                self.artifacts.append(PackageArtifact(text, requires_python, {'url': url}))
+                if artifact := PackageArtifact.of_index(text, attrs.get('data-requires-python'), {'url': url}):
+                    self.artifacts.append(artifact)
 
 
 class _SimplePackage(AbstractPackage, Serializable):
-- 
2.43.0


From ae9ffb29cc73728a01f0df686d1237dbd7e84bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:26 +0000
Subject: [PATCH 108/153] fix: the files of a version are those of one package,
 however the version is written

---
 pkm/src/pkm/repositories/pypi_repository.py   | 20 ++++++++++---------
 pkm/src/pkm/repositories/simple_repository.py | 14 ++++++-------
 2 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/pkm/src/pkm/repositories/pypi_repository.py b/pkm/src/pkm/repositories/pypi_repository.py
index abbda63..1c62d59 100644
--- a/pkm/src/pkm/repositories/pypi_repository.py
+++ b/pkm/src/pkm/repositories/pypi_repository.py
@@ -12,6 +12,7 @@ from pkm.api.pkm import pkm
 from pkm.api.repositories.repository import AbstractRepository, RepositoryBuilder, Repository, AuthParam, AuthParamType
 from pkm.api.repositories.repository import RepositoryPublisher
 from pkm.api.versions.version import Version
+from pkm.utils.dicts import get_or_put
 from pkm.utils.http.auth import BasicAuthentication
 from pkm.utils.http.cache_directive import CacheDirective
 from pkm.utils.http.http_client import HttpClient, HttpException
@@ -55,7 +56,7 @@ class PyPiRepository(AbstractRepository, Serializable):
 
         package_info: Dict[str, Any] = {k.replace('_', '-').title(): v for k, v in json['info'].items()}
 
-        packages: List[PypiPackage] = []
+        artifacts_by_version: Dict[Version, List[PackageArtifact]] = {}
         releases: Dict[str, Any] = json['releases']
         for version_str, release in releases.items():
 
@@ -66,14 +67,15 @@ class PyPiRepository(AbstractRepository, Serializable):
                         relevant_artifacts.append(sa)
 
             if relevant_artifacts:
-                version = Version.parse(version_str)
-                if dependency.version_spec.allows_version(version):
-                    packages.append(PypiPackage(
-                        PackageDescriptor(dependency.package_name, version),
-                        relevant_artifacts, self, PackageMetadata.from_config(package_info)
-                    ))
-
-        return self._sorted_by_version(packages)
+                # the same version may be written differently (e.g., 1.0 and 1.0.0)
+                get_or_put(artifacts_by_version, Version.parse(version_str), list).extend(relevant_artifacts)
+
+        return self._sorted_by_version([
+            PypiPackage(
+                PackageDescriptor(dependency.package_name, version),
+                artifacts, self, PackageMetadata.from_config(package_info))
+            for version, artifacts in artifacts_by_version.items() if dependency.version_spec.allows_version(version)
+        ])
 
 
 # noinspection PyProtectedMember
diff --git a/pkm/src/pkm/repositories/simple_repository.py b/pkm/src/pkm/repositories/simple_repository.py
index 6eac1b4..4a9b9f4 100644
--- a/pkm/src/pkm/repositories/simple_repository.py
+++ b/pkm/src/pkm/repositories/simple_repository.py
@@ -26,7 +26,7 @@ class SimpleRepository(AbstractRepository):
         super().__init__(name)
         self._url = url
         self._base_url = Url.parse(url).connection_part()
-        self._packages: Dict[str, Dict[str, Package]] = {}  # name -> version -> package
+        self._packages: Dict[str, Dict[Version, Package]] = {}  # name -> version -> package
 
     def _do_match(self, dependency: Dependency, env: Environment) -> List[Package]:
         # monitor.on_dependency_match(dependency)
@@ -36,15 +36,13 @@ class SimpleRepository(AbstractRepository):
             extractor.feed(data.read_text())
 
             all_artifacts = extractor.artifacts
-            grouped_by_version: Dict[str, List[PackageArtifact]] = groupby(
-                all_artifacts, lambda a: _extract_version(a.file_name))
+            # the same version may be written differently (e.g., 1.0 and 1.0.0)
+            grouped_by_version: Dict[Version, List[PackageArtifact]] = groupby(
+                all_artifacts, lambda a: Version.parse(_extract_version(a.file_name)))
 
             version_to_package = {
-                version_str: _SimplePackage(
-                    PackageDescriptor(dependency.package_name, Version.parse(version_str)),
-                    version_artifacts)
-
-                for version_str, version_artifacts in grouped_by_version.items()
+                version: _SimplePackage(PackageDescriptor(dependency.package_name, version), version_artifacts)
+                for version, version_artifacts in grouped_by_version.items()
             }
             self._packages[dependency.package_name] = version_to_package
 
-- 
2.43.0


From 0401d594ab18d7f3c82be48b286b89de0b16d981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:27 +0000
Subject: [PATCH 109/153] fix: packages that one repository does not have can
 be found in another

---
 pkm/src/pkm/repositories/pypi_repository.py   |  3 +++
 pkm/src/pkm/repositories/simple_repository.py | 10 ++++++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/repositories/pypi_repository.py b/pkm/src/pkm/repositories/pypi_repository.py
index 1c62d59..fa7b0a2 100644
--- a/pkm/src/pkm/repositories/pypi_repository.py
+++ b/pkm/src/pkm/repositories/pypi_repository.py
@@ -51,6 +51,9 @@ class PyPiRepository(AbstractRepository, Serializable):
                                 resource_name=f"matching packages for {dependency}") \
                 .read_data_as_json()
         except HttpException as e:
+            if e.response is not None and e.response.status == 404:
+                return []  # no such package in this repository
+
             raise InstallationException(
                 f"package: '{dependency.package_name}' could not be retrieved from repository: '{self.name}'") from e
 
diff --git a/pkm/src/pkm/repositories/simple_repository.py b/pkm/src/pkm/repositories/simple_repository.py
index 4a9b9f4..a29f125 100644
--- a/pkm/src/pkm/repositories/simple_repository.py
+++ b/pkm/src/pkm/repositories/simple_repository.py
@@ -11,7 +11,7 @@ from pkm.api.pkm import pkm
 from pkm.api.repositories.repository import Repository, RepositoryBuilder, AbstractRepository
 from pkm.api.versions.version import Version
 from pkm.utils.http.cache_directive import CacheDirective
-from pkm.utils.http.http_client import Url
+from pkm.utils.http.http_client import HttpException, Url
 from pkm.utils.types import Serializable
 from pkm.utils.iterators import groupby
 from pkm.utils.strings import endswith_any, without_suffix
@@ -31,7 +31,13 @@ class SimpleRepository(AbstractRepository):
     def _do_match(self, dependency: Dependency, env: Environment) -> List[Package]:
         # monitor.on_dependency_match(dependency)
         if not (version_to_package := self._packages.get(dependency.package_name)):
-            data = pkm.httpclient.fetch_resource(f"{self._url}/{dependency.package_name}").data
+            try:
+                data = pkm.httpclient.fetch_resource(f"{self._url}/{dependency.package_name}").data
+            except HttpException as e:
+                if e.response is not None and e.response.status == 404:
+                    return []  # no such package in this repository
+                raise
+
             extractor = _HtmlArtifactsExtractor(self._base_url)
             extractor.feed(data.read_text())
 
-- 
2.43.0


From aea3bddc10cf899787454720b0e617d6bc329ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:27 +0000
Subject: [PATCH 110/153] fix: simple repositories: pages that change, relative
 links, yanked files and names that are not normalized

---
 pkm/src/pkm/repositories/simple_repository.py | 30 ++++++++++++-------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/pkm/src/pkm/repositories/simple_repository.py b/pkm/src/pkm/repositories/simple_repository.py
index a29f125..0b53bb5 100644
--- a/pkm/src/pkm/repositories/simple_repository.py
+++ b/pkm/src/pkm/repositories/simple_repository.py
@@ -1,6 +1,7 @@
 from html.parser import HTMLParser
 from pathlib import Path
 from typing import List, Union, Tuple, Dict, Optional, Callable
+from urllib.parse import urljoin
 
 from pkm.api.dependencies.dependency import Dependency
 from pkm.api.distributions.wheel_distribution import InstallationException
@@ -25,21 +26,26 @@ class SimpleRepository(AbstractRepository):
     def __init__(self, name: str, url: str):
         super().__init__(name)
         self._url = url
-        self._base_url = Url.parse(url).connection_part()
         self._packages: Dict[str, Dict[Version, Package]] = {}  # name -> version -> package
 
     def _do_match(self, dependency: Dependency, env: Environment) -> List[Package]:
         # monitor.on_dependency_match(dependency)
-        if not (version_to_package := self._packages.get(dependency.package_name)):
+        # pep503: the pages of the packages are named by their normalized names
+        index_name = PackageDescriptor.package_name_key(dependency.package_name).replace('_', '-')
+        if not (version_to_package := self._packages.get(index_name)):
+            page_url = f"{self._url}/{index_name}/"
+
             try:
-                data = pkm.httpclient.fetch_resource(f"{self._url}/{dependency.package_name}").data
+                data = pkm.httpclient.fetch_resource(
+                    page_url, CacheDirective.ask_for_update(), f"matching packages for {dependency}").data
             except HttpException as e:
                 if e.response is not None and e.response.status == 404:
                     return []  # no such package in this repository
                 raise
 
-            extractor = _HtmlArtifactsExtractor(self._base_url)
-            extractor.feed(data.read_text())
+            extractor = _HtmlArtifactsExtractor(page_url)
+            extractor.feed(data.read_text(encoding='utf-8', errors='replace'))
+            extractor.close()
 
             all_artifacts = extractor.artifacts
             # the same version may be written differently (e.g., 1.0 and 1.0.0)
@@ -50,7 +56,7 @@ class SimpleRepository(AbstractRepository):
                 version: _SimplePackage(PackageDescriptor(dependency.package_name, version), version_artifacts)
                 for version, version_artifacts in grouped_by_version.items()
             }
-            self._packages[dependency.package_name] = version_to_package
+            self._packages[index_name] = version_to_package
 
         packages = [p for p in version_to_package.values() if dependency.version_spec.allows_version(p.version)]
         return self._sorted_by_version(packages)
@@ -84,15 +90,17 @@ class _HtmlArtifactsExtractor(HTMLParser):
             self._text_handler('')
 
     def handle_starttag(self, tag: str, attrs: List[Tuple[str, Union[str, None]]]) -> None:
+        if tag == 'base' and (href := dict(attrs).get('href')):
+            self._base_url = urljoin(self._base_url, href)
+
         self._text_handler = \
-            lambda txt: self.handle_element(tag, {kv[0]: kv[1] for kv in attrs if kv[1] is not None}, txt)
+            lambda txt: self.handle_element(tag, {k: v or '' for k, v in attrs}, txt)
 
     def handle_element(self, tag: str, attrs: Dict[str, str], text: str):
         self._text_handler = None
-        if tag == 'a' and 'href' in attrs:
-            url = attrs.get('href')
-            if not url.startswith('http'):
-                url = f"{self._base_url}/{url.lstrip('/')}"
+        text = text.strip()
+        if tag == 'a' and 'href' in attrs and 'data-yanked' not in attrs:
+            url = urljoin(self._base_url, attrs['href'])
 
             if endswith_any(text, _DISTRIBUTION_EXTENSIONS):
                 if artifact := PackageArtifact.of_index(text, attrs.get('data-requires-python'), {'url': url}):
-- 
2.43.0


From 1f9fe3b03709832984759ac40d10ffde231b735b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:55 +0000
Subject: [PATCH 111/153] fix: downloads that are not what the index says leave
 the cache, their hashes may be written in any way

---
 pkm/src/pkm/repositories/pypi_repository.py   | 12 ++++++------
 pkm/src/pkm/repositories/simple_repository.py |  5 ++++-
 pkm/src/pkm/utils/http/http_client.py         |  2 +-
 3 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/pkm/src/pkm/repositories/pypi_repository.py b/pkm/src/pkm/repositories/pypi_repository.py
index fa7b0a2..80cda70 100644
--- a/pkm/src/pkm/repositories/pypi_repository.py
+++ b/pkm/src/pkm/repositories/pypi_repository.py
@@ -106,13 +106,13 @@ class PypiPackage(AbstractPackage, Serializable):
             raise FileNotFoundError(f'cannot find requested artifact: {artifact.file_name}')
 
         # validate package hash if available
-        if digests := artifact.other_info['digests']:
-            hash_function = 'sha256'
-            if hash_function not in digests:
-                hash_function = first_or_none(digests.keys())
+        digests = artifact.other_info.get('digests') or {}
+        hash_function = first_or_none(
+            h for h in ('sha256', *digests) if h in digests and h in hashlib.algorithms_available)
 
-            if hash_function is not None and not resource.is_hash_valid(hash_function, digests[hash_function]):
-                raise InstallationException(f"invalid hash for resource downloaded from {url}")
+        if hash_function is not None and not resource.is_hash_valid(hash_function, digests[hash_function]):
+            resource.delete()  # otherwise it will be found again when the user tries again
+            raise InstallationException(f"invalid hash for resource downloaded from {url}")
 
         return resource.data
 
diff --git a/pkm/src/pkm/repositories/simple_repository.py b/pkm/src/pkm/repositories/simple_repository.py
index 0b53bb5..52c30c2 100644
--- a/pkm/src/pkm/repositories/simple_repository.py
+++ b/pkm/src/pkm/repositories/simple_repository.py
@@ -1,3 +1,4 @@
+import hashlib
 from html.parser import HTMLParser
 from pathlib import Path
 from typing import List, Union, Tuple, Dict, Optional, Callable
@@ -126,7 +127,9 @@ class _SimplePackage(AbstractPackage, Serializable):
         fragment = Url.parse(url).fragment
         if fragment:
             hash_function, _, hash_value = fragment.partition("=")
-            if hash_function and hash_value and not resource.is_hash_valid(hash_function, hash_value):
+            if hash_value and hash_function in hashlib.algorithms_available \
+                    and not resource.is_hash_valid(hash_function, hash_value):
+                resource.delete()  # otherwise it will be found again when the user tries again
                 raise InstallationException(f"Invalid hash for a resource received from {url}")
 
         return resource.data
diff --git a/pkm/src/pkm/utils/http/http_client.py b/pkm/src/pkm/utils/http/http_client.py
index 5f29ea1..1b7fa82 100644
--- a/pkm/src/pkm/utils/http/http_client.py
+++ b/pkm/src/pkm/utils/http/http_client.py
@@ -274,7 +274,7 @@ class FetchedResource:
             fetch_info.hash[hash_function] = fetch_hash
             fetch_info.save()
 
-        return fetch_hash == hash_hex_value
+        return fetch_hash == hash_hex_value.lower()
 
     def save(self, response: HTTPResponse):
         self.data.parent.mkdir(exist_ok=True, parents=True)
-- 
2.43.0


From 76cabd49ebb59a7a40e20e71d8e26a85c11d0bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:02:55 +0000
Subject: [PATCH 112/153] fix: the pypi index is asked for normalized names,
 the python tag of uploads with a build number

---
 pkm/src/pkm/repositories/pypi_repository.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pkm/src/pkm/repositories/pypi_repository.py b/pkm/src/pkm/repositories/pypi_repository.py
index 80cda70..c3b51a5 100644
--- a/pkm/src/pkm/repositories/pypi_repository.py
+++ b/pkm/src/pkm/repositories/pypi_repository.py
@@ -44,9 +44,10 @@ class PyPiRepository(AbstractRepository, Serializable):
         return None
 
     def _do_match(self, dependency: Dependency, env: Environment) -> List[Package]:
+        index_name = PackageDescriptor.package_name_key(dependency.package_name).replace('_', '-')
         try:
             json: Dict[str, Any] = self._http \
-                .fetch_resource(f'{self._fetch_url}/{dependency.package_name}/json',
+                .fetch_resource(f'{self._fetch_url}/{index_name}/json',
                                 cache=CacheDirective.ask_for_update(),
                                 resource_name=f"matching packages for {dependency}") \
                 .read_data_as_json()
@@ -117,8 +118,9 @@ class PypiPackage(AbstractPackage, Serializable):
         return resource.data
 
     def _unfiltered_dependencies(self, environment: Environment) -> List["Dependency"]:
+        index_name = self.descriptor.name_key.replace('_', '-')
         json: Dict[str, Any] = self._repo._http \
-            .fetch_resource(f'{self._repo._fetch_url}/{self.name}/{self.version}/json',
+            .fetch_resource(f'{self._repo._fetch_url}/{index_name}/{self.version}/json',
                             resource_name=f"metadata for {self.name} {self.version}") \
             .read_data_as_json()
 
@@ -153,7 +155,7 @@ class PyPiPublisher(RepositoryPublisher):
 
         data = {k.replace('-', '_').lower(): v for k, v in package_meta.to_config().items()}
         file_type = 'bdist_wheel' if distribution.suffix == '.whl' else 'sdist'
-        py_version = distribution.name.split("-")[2] if distribution.suffix == '.whl' else 'source'
+        py_version = distribution.name.split("-")[-3] if distribution.suffix == '.whl' else 'source'
 
         md5, sha256, blake2 = hashlib.md5(), hashlib.sha256(), hashlib.blake2b(digest_size=256 // 8)
         with distribution.open('rb') as d_fd:
-- 
2.43.0


From da6a60037576330a1212bd736cb1f5c1341213ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:42 +0000
Subject: [PATCH 113/153] fix: containerized applications are installed from
 the repositories of the environment that hosts them

---
 .../api/environments/package_containers.py    | 24 +++++++++----------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/pkm/src/pkm/api/environments/package_containers.py b/pkm/src/pkm/api/environments/package_containers.py
index 284a062..d928b96 100644
--- a/pkm/src/pkm/api/environments/package_containers.py
+++ b/pkm/src/pkm/api/environments/package_containers.py
@@ -15,12 +15,11 @@ from pkm.api.packages.site_packages import InstalledPackage
 from pkm.api.projects.project import Project
 from pkm.api.projects.pyproject_configuration import PyProjectConfiguration, PkmApplicationConfig, ProjectConfig, \
     BuildSystemConfig
-from pkm.api.repositories.repositories_configuration import RepositoriesConfiguration, RepositoryInstanceConfig
-from pkm.api.repositories.repository_loader import REPOSITORIES_CONFIGURATION_PATH
+from pkm.api.repositories.repository import Repository
+from pkm.api.repositories.repository_management import ProjectsRepository
 from pkm.api.versions.version import Version
 from pkm.launchers.executables import Executables
 from pkm.build.pkm_builders import build_wheel
-from pkm.repositories.file_system_repository import FILE_SYSTEM_REPOSITORY_TYPE
 from pkm.utils.entrypoints import EntryPoint, ObjectReference
 from pkm.utils.files import temp_dir, mkdir, CopyTransaction, path_to
 from pkm.utils.hashes import HashSignature
@@ -122,13 +121,6 @@ class PackageContainers:
             pyprj = PyProjectConfiguration.load(tdir / 'pyproject.toml')
 
             if isinstance(app, Project):
-                repocfg = RepositoriesConfiguration.load(tdir / REPOSITORIES_CONFIGURATION_PATH)
-                repocfg.repositories = [RepositoryInstanceConfig.from_config('wrapped-project', {
-                    'type': FILE_SYSTEM_REPOSITORY_TYPE,
-                    'path': app.path
-                })]
-
-                repocfg.save()
                 app = app.descriptor.to_dependency()
 
             pyprj.project = ProjectConfig(
@@ -143,7 +135,8 @@ class PackageContainers:
             yield Project.load(tdir)
 
     def _install(
-            self, app: "Project", store_mode: StoreMode = StoreMode.AUTO) -> PackageContainer:
+            self, app: "Project", store_mode: StoreMode = StoreMode.AUTO,
+            repository: Optional[Repository] = None) -> PackageContainer:
 
         editable = store_mode != StoreMode.COPY
         contained_target = self._target_of(app.name)
@@ -162,7 +155,7 @@ class PackageContainers:
 
             contained_target.install(
                 app_config.dependencies, dependencies_override=app_config.dependency_overwrites,
-                repository=app.attached_repository,
+                repository=repository or app.attached_repository,
                 store_mode={d.package_name: store_mode for d in app_config.dependencies},
                 updates=[d.package_name for d in app_config.dependencies])
 
@@ -278,8 +271,13 @@ class PackageContainers:
         if isinstance(app, Project) and app.is_containerized_application():
             return self._install(app, store_mode)
 
+        # the wrapper project itself has no repositories (and no environment) of its own
+        repository = self._target.env.attached_repository
+        if isinstance(app, Project):
+            repository = ProjectsRepository.create('wrapped-project', [app], repository)
+
         with self._wrapper_project(app) as prj:
-            return self.install(prj, store_mode, True)
+            return self._install(prj, store_mode, repository)
 
 
 def _entrypoints_script(epoints: List[EntryPoint]):
-- 
2.43.0


From 13b799806d3a1c365a31a0487a11429ac43b4e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:42 +0000
Subject: [PATCH 114/153] fix: the commands of containerized applications keep
 their exit status and may have any name

---
 .../api/environments/package_containers.py    | 20 ++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/pkm/src/pkm/api/environments/package_containers.py b/pkm/src/pkm/api/environments/package_containers.py
index d928b96..f85befd 100644
--- a/pkm/src/pkm/api/environments/package_containers.py
+++ b/pkm/src/pkm/api/environments/package_containers.py
@@ -200,10 +200,9 @@ class PackageContainers:
                 app_entrypoints_script.write_text(_entrypoints_script(script_entrypoints))
                 ct.touch(app_entrypoints_script)
                 scripts_path = Path(self._target.scripts)
-                for script_ep in script_entrypoints:
-                    epn = PackageDescriptor.normalize_src_package_name(script_ep.name)
-                    entrypoints.append(
-                        script_ep := replace(script_ep, ref=ObjectReference.parse(f"{app_dir.name}.entrypoints:{epn}")))
+                for i, script_ep in enumerate(script_entrypoints):
+                    entrypoints.append(script_ep := replace(
+                        script_ep, ref=ObjectReference(f"{app_dir.name}.entrypoints", _entrypoint_function(i))))
                     ct.touch(Executables.generate_for_entrypoint(self._target.env, script_ep, scripts_path))
 
             app_entrypoints.entrypoints = entrypoints
@@ -280,13 +279,16 @@ class PackageContainers:
             return self._install(prj, store_mode, repository)
 
 
+def _entrypoint_function(index: int) -> str:
+    return f"entrypoint_{index}"  # the names of entrypoints are not necessarily valid (or unique) names of functions
+
+
 def _entrypoints_script(epoints: List[EntryPoint]):
-    def define_epfunc(ep: EntryPoint):
-        epn = PackageDescriptor.normalize_src_package_name(ep.name)
+    def define_epfunc(index: int, ep: EntryPoint):
         ref = ep.ref
-        return f"def {epn}():del sys.modules[__package__];" \
+        return f"def {_entrypoint_function(index)}():del sys.modules[__package__];" \
                f"import {ref.module_path};" \
-               f"{ref.module_path}.{ref.object_path}()"
+               f"return {ref.module_path}.{ref.object_path}()"
 
     prolog = dedent("""
     import sys
@@ -295,7 +297,7 @@ def _entrypoints_script(epoints: List[EntryPoint]):
     register()
     
     """)
-    return prolog + os.linesep.join([define_epfunc(ep) for ep in epoints])
+    return prolog + os.linesep.join([define_epfunc(i, ep) for i, ep in enumerate(epoints)])
 
 
 def _register_container_script(name: str) -> str:
-- 
2.43.0


From 74d603e35d851ab0d680e1a8d7bbbe939217e455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:42 +0000
Subject: [PATCH 115/153] fix: links inside a container (e.g., editable
 packages) do not make it use the packages of the environment

---
 pkm/src/pkm/api/environments/package_containers.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/environments/package_containers.py b/pkm/src/pkm/api/environments/package_containers.py
index f85befd..d8a6dd3 100644
--- a/pkm/src/pkm/api/environments/package_containers.py
+++ b/pkm/src/pkm/api/environments/package_containers.py
@@ -318,8 +318,11 @@ def _register_container_script(name: str) -> str:
     
         container_path = Path(__file__).parent
         container_site = str(container_path / '{CONTAINERIZED_APP_SITE_PATH}')
+        others = list(sys.path)
         site.addsitedir(container_site)
-        sys.path.insert(1, sys.path.pop())
+        # the site itself and whatever its links (.pth files) lead to
+        added = sys.path[len(others):]
+        sys.path[:] = [*others[:1], *added, *others[1:]]
     
         old_path = os.environ.get('PATH')
         path = str(container_path / '{CONTAINERIZED_APP_BIN_PATH}')
-- 
2.43.0


From 38e1a513b72b0abf79160a263c6c2631400d7353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:42 +0000
Subject: [PATCH 116/153] fix: the container of a package is found also if the
 package is installed next to it

---
 pkm/src/pkm/api/environments/package_containers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/api/environments/package_containers.py b/pkm/src/pkm/api/environments/package_containers.py
index d8a6dd3..1106d58 100644
--- a/pkm/src/pkm/api/environments/package_containers.py
+++ b/pkm/src/pkm/api/environments/package_containers.py
@@ -109,8 +109,8 @@ class PackageContainers:
 
         spacks = self._target.site_packages
         package_cnt = package + _CONTAINERIZED_WRAPPER_SUFFIX
-        if (cnt := spacks.installed_package(package)) or (cnt := spacks.installed_package(package_cnt)):
-            if cnt.dist_info.is_app_container():
+        for name in (package, package_cnt):  # the package may also be installed regularly, next to its container
+            if (cnt := spacks.installed_package(name)) and cnt.dist_info.is_app_container():
                 return PackageContainer(cnt, self._target_of(cnt.name))
         return None
 
-- 
2.43.0


From a5a20d71416fe616d25503bd024466f379081a2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:42 +0000
Subject: [PATCH 117/153] fix: the records of containers contain the signatures
 of the files as they were installed

---
 pkm/src/pkm/api/environments/package_containers.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/environments/package_containers.py b/pkm/src/pkm/api/environments/package_containers.py
index 1106d58..50eb248 100644
--- a/pkm/src/pkm/api/environments/package_containers.py
+++ b/pkm/src/pkm/api/environments/package_containers.py
@@ -184,6 +184,13 @@ class PackageContainers:
             contained_metadata.dependencies = app_config.dependencies
             contained_metadata.save()
 
+            contained_records = contained_distinfo.load_record_cfg()
+            contained_records.records = [
+                it for it in contained_records.records if Path(it.file).name != contained_metadata.path.name
+                or Path(it.file).parent.name != contained_distinfo.path.name]
+            contained_records.sign_files([contained_metadata.path], contained_distinfo.path.parent)
+            contained_records.save()
+
             # collect script entrypoints
             script_entrypoints: List[EntryPoint] = []
             apps_to_expose = app_config.exposed_packages + [app.name]
@@ -234,7 +241,9 @@ class PackageContainers:
                     path_relative_to_site = str(path_to(installation_site, record.absolute_path(pk.dist_info)))
                     precomputed_hashes[path_relative_to_site] = record.hash_signature
 
-            records.sign_files(ct.copied_files, installation_site, precomputed_hashes)
+            # the records file cannot contain its own signature
+            records.sign_files(
+                [it for it in ct.copied_files if it != records.path], installation_site, precomputed_hashes)
             records.save()
 
         self._target.site_packages.reload()
-- 
2.43.0


From f567d9cfef019e0bf4d05e864d8a3c6ee2c4e457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:22 +0000
Subject: [PATCH 118/153] fix: plugins (and empty directories) of a container
 are removed when it is uninstalled

---
 pkm/src/pkm/api/environments/package_containers.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkm/src/pkm/api/environments/package_containers.py b/pkm/src/pkm/api/environments/package_containers.py
index 50eb248..f7fbacf 100644
--- a/pkm/src/pkm/api/environments/package_containers.py
+++ b/pkm/src/pkm/api/environments/package_containers.py
@@ -1,4 +1,5 @@
 import os
+import shutil
 from contextlib import contextmanager
 from dataclasses import replace
 from pathlib import Path
@@ -62,6 +63,13 @@ class PackageContainer:
         """
         uninstall this container - removing it from the hosting environment
         """
+        # plugins were installed after the container was recorded, so they are not part of its records
+        for package in list(self._target.site_packages.installed_packages()):
+            package.uninstall()
+
+        if (container_data := Path(self._target.data)).exists():
+            shutil.rmtree(container_data)
+
         self.package.uninstall()
 
     def list_installed_plugins(self) -> List[InstalledPackage]:
-- 
2.43.0


From 6b8d6274d2f9956f752e58a608f5a906caf4f01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:22 +0000
Subject: [PATCH 119/153] fix: installations of containers that fail leave the
 environment as it was, updates leave nothing of what they replace

---
 .../api/environments/package_containers.py    | 55 ++++++++++++++-----
 1 file changed, 41 insertions(+), 14 deletions(-)

diff --git a/pkm/src/pkm/api/environments/package_containers.py b/pkm/src/pkm/api/environments/package_containers.py
index f7fbacf..7635ee1 100644
--- a/pkm/src/pkm/api/environments/package_containers.py
+++ b/pkm/src/pkm/api/environments/package_containers.py
@@ -22,7 +22,7 @@ from pkm.api.versions.version import Version
 from pkm.launchers.executables import Executables
 from pkm.build.pkm_builders import build_wheel
 from pkm.utils.entrypoints import EntryPoint, ObjectReference
-from pkm.utils.files import temp_dir, mkdir, CopyTransaction, path_to
+from pkm.utils.files import temp_dir, mkdir, CopyTransaction, path_to, is_relative_to
 from pkm.utils.hashes import HashSignature
 from pkm.utils.properties import cached_property
 
@@ -150,7 +150,7 @@ class PackageContainers:
         contained_target = self._target_of(app.name)
         app_dir = Path(contained_target.purelib).parent.parent
 
-        with temp_dir() as tdir, CopyTransaction() as ct:
+        with temp_dir() as tdir, _restored_on_failure(app_dir, tdir / "previous"), CopyTransaction() as ct:
 
             if Path(contained_target.purelib).exists():
                 contained_target.force_remove(app.name)
@@ -179,11 +179,18 @@ class PackageContainers:
             contained_app = contained_site.installed_package(app.name)
             contained_distinfo = contained_app.dist_info
 
+            # remove what the previous version exposed to the environment
+            self._target.site_packages.reload()
+            if previous := self._target.site_packages.installed_package(app.name):
+                container_data = Path(contained_target.data).resolve()
+                for file in previous.dist_info.installed_files():
+                    if file.exists() and not is_relative_to(file, container_data):
+                        ct.rm(file)
+                if previous.dist_info.path.exists():
+                    ct.rm(previous.dist_info.path)
+
             # now create the dist-info
-            dist_info_path = app_dir.parent / contained_distinfo.path.name
-            if dist_info_path.exists():
-                ct.rm(dist_info_path)
-            dist_info = DistInfo.load(mkdir(dist_info_path))
+            dist_info = DistInfo.load(ct.mkdir(app_dir.parent / contained_distinfo.path.name))
 
             ct.copy_tree(contained_distinfo.path, dist_info.path)
             ct.touch(app_dir / "__init__.py", True)
@@ -211,27 +218,26 @@ class PackageContainers:
             app_entrypoints = dist_info.load_entrypoints_cfg()
             entrypoints = []
             if script_entrypoints:
-                app_entrypoints_script = (app_dir / "entrypoints.py")
+                app_entrypoints_script = ct.prepare(app_dir / "entrypoints.py")
                 app_entrypoints_script.write_text(_entrypoints_script(script_entrypoints))
-                ct.touch(app_entrypoints_script)
                 scripts_path = Path(self._target.scripts)
+                generated_scripts = mkdir(tdir / "scripts")
                 for i, script_ep in enumerate(script_entrypoints):
                     entrypoints.append(script_ep := replace(
                         script_ep, ref=ObjectReference(f"{app_dir.name}.entrypoints", _entrypoint_function(i))))
-                    ct.touch(Executables.generate_for_entrypoint(self._target.env, script_ep, scripts_path))
+                    script = Executables.generate_for_entrypoint(self._target.env, script_ep, generated_scripts)
+                    ct.copy(script, scripts_path / script.name)
 
             app_entrypoints.entrypoints = entrypoints
             app_entrypoints.save()
 
             # submit container registration hooks
-            container_registration_script = app_dir / "register_container.py"
+            container_registration_script = ct.prepare(app_dir / "register_container.py")
             container_registration_script.write_text(_register_container_script(app.name))
-            ct.touch(container_registration_script)
 
-            container_registration_pth = Path(
-                self._target.purelib) / f"register_{app.descriptor.expected_src_package_name}_container.pth"
+            container_registration_pth = ct.prepare(Path(
+                self._target.purelib) / f"register_{app.descriptor.expected_src_package_name}_container.pth")
             container_registration_pth.write_text(_register_container_import_hook(app_dir.name))
-            ct.touch(container_registration_pth)
 
             dist_info.save_installation_info(PackageInstallationInfo(containerized=True, store_mode=StoreMode.COPY))
             ct.touch(dist_info.installation_info_path())
@@ -296,6 +302,27 @@ class PackageContainers:
             return self._install(prj, store_mode, repository)
 
 
+@contextmanager
+def _restored_on_failure(directory: Path, backup: Path):
+    """
+    context manager that brings the given `directory` back to what it was if its body fails
+    :param directory: the directory to restore, may be missing (in which case it will be missing after a failure too)
+    :param backup: where to keep a copy of the directory
+    """
+    existed = directory.exists()
+    if existed:
+        shutil.copytree(directory, backup, symlinks=True)
+
+    try:
+        yield
+    except BaseException:
+        if directory.exists():
+            shutil.rmtree(directory)
+        if existed:
+            shutil.move(backup, directory)
+        raise
+
+
 def _entrypoint_function(index: int) -> str:
     return f"entrypoint_{index}"  # the names of entrypoints are not necessarily valid (or unique) names of functions
 
-- 
2.43.0


From ddd069cd0919c25e248ef5333562d50ca7045062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:26 +0000
Subject: [PATCH 120/153] fix: interrupted uninstallations of containers can be
 repeated

---
 pkm/src/pkm/api/packages/site_packages.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkm/src/pkm/api/packages/site_packages.py b/pkm/src/pkm/api/packages/site_packages.py
index 6fb4045..03dd605 100644
--- a/pkm/src/pkm/api/packages/site_packages.py
+++ b/pkm/src/pkm/api/packages/site_packages.py
@@ -215,12 +215,12 @@ class InstalledPackage(Package, Serializable):
         uninstall this package from its site packages
         """
 
-        # the RECORD itself is removed last (with the dist-info), so that an interrupted uninstallation can be repeated
-        record_path = self._dist_info.record_path().resolve()
+        # the dist-info (with its RECORD) is removed last, so that an interrupted uninstallation can be repeated
+        dist_info_path = self._dist_info.path.resolve()
 
         parents_to_check = set()
         for installed_file in self._dist_info.installed_files():
-            if installed_file.resolve() != record_path:
+            if not is_relative_to(installed_file.resolve(), dist_info_path):
                 installed_file.unlink(missing_ok=True)
             parents_to_check.add(installed_file.parent)
 
-- 
2.43.0


From d130ca087ee1ff540c576726dae3c3a2eb2abb16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:30 +0000
Subject: [PATCH 121/153] fix: the dependencies of containerized application
 projects are not their plugins

---
 pkm/src/pkm/api/environments/package_containers.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pkm/src/pkm/api/environments/package_containers.py b/pkm/src/pkm/api/environments/package_containers.py
index 7635ee1..ec048cd 100644
--- a/pkm/src/pkm/api/environments/package_containers.py
+++ b/pkm/src/pkm/api/environments/package_containers.py
@@ -76,11 +76,14 @@ class PackageContainer:
         """
         :return: list of all user installed packages that are not the main containerized
         """
+        site = self._target.site_packages
+        application_packages = {self.containerized_package.name_key, self.package.name_key}
+        if application := site.installed_package(self.package.name):
+            application_packages.update(d.package_name_key for d in application.published_metadata.dependencies)
+
         return [it
-                for it in self._target.site_packages.installed_packages()
-                if it.dist_info.is_user_requested()
-                and it.name != self.containerized_package.name
-                and it.name != self.package.name]
+                for it in site.installed_packages()
+                if it.dist_info.is_user_requested() and it.name_key not in application_packages]
 
 
 class PackageContainers:
-- 
2.43.0


From 702926eb199dd93b32924182c54b90a4df66095c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:30 +0000
Subject: [PATCH 122/153] fix: the records of containerized applications wheels
 contain only the files of the wheel

---
 pkm/src/pkm/build/pkm_app_builders.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/build/pkm_app_builders.py b/pkm/src/pkm/build/pkm_app_builders.py
index 030f4af..a30e4be 100644
--- a/pkm/src/pkm/build/pkm_app_builders.py
+++ b/pkm/src/pkm/build/pkm_app_builders.py
@@ -38,7 +38,12 @@ def build_wheel(project: "Project", target_dir: Optional[Path] = None,
         tenv = EnvironmentBuilder.create(tdir / "env", interpreter_path)
         target = tenv.installation_target
 
-        target.package_containers.install(project, store_mode=StoreMode.from_editable_flag(editable))
+        container = target.package_containers.install(project, store_mode=StoreMode.from_editable_flag(editable))
+
+        # the scripts of the application are not part of the wheel, they are generated when it gets installed
+        records = container.package.dist_info.load_record_cfg()
+        records.records = [it for it in records.records if not it.file.startswith('..')]
+        records.save()
 
         # build the actual wheel
         wheel_path = target_dir / WheelDistribution.expected_wheel_file_name(project)
-- 
2.43.0


From 3c7eeaf2ec805be959c044c6c656551bbc786354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:55 +0000
Subject: [PATCH 123/153] fix: dependencies that a containerized application
 does not need anymore do not become its plugins

---
 pkm/src/pkm/api/environments/package_containers.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkm/src/pkm/api/environments/package_containers.py b/pkm/src/pkm/api/environments/package_containers.py
index ec048cd..cb5845d 100644
--- a/pkm/src/pkm/api/environments/package_containers.py
+++ b/pkm/src/pkm/api/environments/package_containers.py
@@ -156,6 +156,11 @@ class PackageContainers:
         with temp_dir() as tdir, _restored_on_failure(app_dir, tdir / "previous"), CopyTransaction() as ct:
 
             if Path(contained_target.purelib).exists():
+                if previous := contained_target.site_packages.installed_package(app.name):
+                    for dependency in previous.published_metadata.dependencies:  # may not be required anymore
+                        if installed := contained_target.site_packages.installed_package(dependency.package_name):
+                            installed.dist_info.unmark_as_user_requested()
+
                 contained_target.force_remove(app.name)
             else:
                 for path in _CONTAINERIZED_TARGET_USED_PATHS:
-- 
2.43.0


From 4f6322fdbcf10280be8619c519207560c4952dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:51 +0000
Subject: [PATCH 124/153] fix: wheels of containerized applications can be
 installed as containers (records, installation info)

---
 pkm/src/pkm/api/distributions/wheel_distribution.py |  9 +++++++--
 pkm/src/pkm/build/pkm_app_builders.py               | 12 ++++++++++--
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/pkm/src/pkm/api/distributions/wheel_distribution.py b/pkm/src/pkm/api/distributions/wheel_distribution.py
index c843af2..19b3232 100644
--- a/pkm/src/pkm/api/distributions/wheel_distribution.py
+++ b/pkm/src/pkm/api/distributions/wheel_distribution.py
@@ -148,7 +148,10 @@ class WheelDistribution(Distribution):
             precomputed_hashes = {
                 r.file: r.hash_signature for r in records_file.records if r.hash_signature
             } if not skip_record_verification else None
-            new_record_file.sign_files(ct.copied_files, site_packages, precomputed_hashes)
+            # the installation info that came with the wheel is about to be replaced
+            installation_info_path = new_dist_info.installation_info_path()
+            new_record_file.sign_files(
+                [it for it in ct.copied_files if it != installation_info_path], site_packages, precomputed_hashes)
 
             ct.prepare(new_record_file.path)
             new_record_file.save()
@@ -159,7 +162,9 @@ class WheelDistribution(Distribution):
                 ct.prepare(new_dist_info.user_requested_path())
                 new_dist_info.mark_as_user_requested(user_request)
             if installation_info:
-                ct.prepare(new_dist_info.installation_info_path())
+                if (packaged_info := dist_info.load_installation_info()) and packaged_info.containerized:
+                    installation_info = replace(installation_info, containerized=True)
+                ct.prepare(installation_info_path)
                 new_dist_info.save_installation_info(installation_info)
 
     def install_to(self, target: "PackageInstallationTarget", user_request: Optional[Dependency] = None,
diff --git a/pkm/src/pkm/build/pkm_app_builders.py b/pkm/src/pkm/build/pkm_app_builders.py
index a30e4be..8bf5987 100644
--- a/pkm/src/pkm/build/pkm_app_builders.py
+++ b/pkm/src/pkm/build/pkm_app_builders.py
@@ -41,10 +41,18 @@ def build_wheel(project: "Project", target_dir: Optional[Path] = None,
         container = target.package_containers.install(project, store_mode=StoreMode.from_editable_flag(editable))
 
         # the scripts of the application are not part of the wheel, they are generated when it gets installed
-        records = container.package.dist_info.load_record_cfg()
-        records.records = [it for it in records.records if not it.file.startswith('..')]
+        # as well as the files that tell who installed it and why
+        dist_info = container.package.dist_info
+        installation_files = {dist_info.path / 'INSTALLER', dist_info.user_requested_path()}
+        records = dist_info.load_record_cfg()
+        records.records = [
+            it for it in records.records
+            if not it.file.startswith('..') and (dist_info.path.parent / it.file) not in installation_files]
         records.save()
 
+        for file in installation_files:
+            file.unlink(missing_ok=True)
+
         # build the actual wheel
         wheel_path = target_dir / WheelDistribution.expected_wheel_file_name(project)
         target_dir.mkdir(parents=True, exist_ok=True)
-- 
2.43.0


From 99a208f4203926ee617b282b0244fc851968edbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:25 +0000
Subject: [PATCH 125/153] fix: the settings of containerized applications are
 optional

---
 pkm/src/pkm/api/projects/pyproject_configuration.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkm/src/pkm/api/projects/pyproject_configuration.py b/pkm/src/pkm/api/projects/pyproject_configuration.py
index fee1e15..9cfcbb5 100644
--- a/pkm/src/pkm/api/projects/pyproject_configuration.py
+++ b/pkm/src/pkm/api/projects/pyproject_configuration.py
@@ -70,10 +70,10 @@ class PkmDistributionConfig:
 @dataclass(eq=True)
 @config
 class PkmApplicationConfig:
-    containerized: bool
-    dependencies: List[Dependency]
-    dependency_overwrites: Dict[str, Dependency] = config_field(key='dependency-overwrites')
-    exposed_packages: List[str] = config_field(key='exposed-packages')
+    containerized: bool = False
+    dependencies: List[Dependency] = config_field(default_factory=list)
+    dependency_overwrites: Dict[str, Dependency] = config_field(key='dependency-overwrites', default_factory=dict)
+    exposed_packages: List[str] = config_field(key='exposed-packages', default_factory=list)
 
 
 @dataclass(eq=True)
-- 
2.43.0


From 2bda2af4aed93ab116816cdc54cb8b63fa653dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:52 +0000
Subject: [PATCH 126/153] fix: packages are shared between the environments of
 a zoo, failing to do so changes nothing

---
 .../pkm/repositories/shared_pacakges_repo.py  | 212 ++++++++++--------
 1 file changed, 113 insertions(+), 99 deletions(-)

diff --git a/pkm/src/pkm/repositories/shared_pacakges_repo.py b/pkm/src/pkm/repositories/shared_pacakges_repo.py
index dfa145f..c05089b 100644
--- a/pkm/src/pkm/repositories/shared_pacakges_repo.py
+++ b/pkm/src/pkm/repositories/shared_pacakges_repo.py
@@ -1,22 +1,23 @@
 import shutil
-import warnings
-from dataclasses import dataclass
+import sys
+from dataclasses import dataclass, replace
 from pathlib import Path
+from tempfile import mkdtemp
 from typing import List, Optional, Set, Iterator, Iterable
 
 from pkm.api.dependencies.dependency import Dependency
-from pkm.api.distributions.distinfo import DistInfo, RecordsFileConfiguration
+from pkm.api.distributions.distinfo import DistInfo
 from pkm.api.packages.package_installation_info import StoreMode
 from pkm.api.distributions.pth_link import PthLink
 from pkm.api.environments.environment import Environment
 from pkm.api.packages.package import Package, PackageDescriptor
 from pkm.api.packages.package_installation import PackageInstallationTarget
 from pkm.api.packages.package_metadata import PackageMetadata
-from pkm.api.packages.site_packages import InstalledPackage
 from pkm.api.repositories.repository import AbstractRepository, Repository
+from pkm.api.versions.version import StandardVersion
 from pkm.launchers.executables import Executables
 from pkm.utils.commons import NoSuchElementException
-from pkm.utils.files import CopyTransaction, is_empty_directory, is_relative_to
+from pkm.utils.files import CopyTransaction, is_empty_directory, temp_dir
 from pkm.utils.types import Serializable
 from pkm.utils.iterators import first_or_none
 
@@ -57,13 +58,17 @@ class SharedPackagesRepository(AbstractRepository):
                 package_dir.rmdir()
 
     def _do_match(self, dependency: Dependency, env: Environment) -> List[Package]:
-        packages_dir = self._workspace / dependency.package_name
+        packages_dir = self._workspace / PackageDescriptor.package_name_key(dependency.package_name)
         packages = self._base_repo.match(dependency, env)
         return self._sort_by_priority([
-            _SharedPackage(p, packages_dir / str(p.version))
+            _SharedPackage(p, packages_dir / str(p.version)) if self._is_sharable(p) else p
             for p in packages
         ])
 
+    def _is_sharable(self, package: Package) -> bool:
+        # what urls and names of versions (e.g., branches) refer to may change
+        return isinstance(package.version, StandardVersion)
+
     @staticmethod
     def _sort_by_priority(packages: List[Package]) -> List[Package]:
         def key(p: Package):
@@ -85,6 +90,10 @@ class _SharedPackageArtifact:
     metadata: PackageMetadata
     compatibility_tags: str
 
+    @classmethod
+    def load(cls, path: Path) -> "_SharedPackageArtifact":
+        return cls(path, PackageMetadata.load(path / "dist-info/METADATA"), path.name)
+
 
 class _SharedPackage(Package):
 
@@ -97,8 +106,9 @@ class _SharedPackage(Package):
 
         if shared_path.exists():
             self._artifacts = [
-                _SharedPackageArtifact(artifact, PackageMetadata.load(artifact / "dist-info/METADATA"), artifact.name)
+                _SharedPackageArtifact.load(artifact)
                 for artifact in shared_path.iterdir()
+                if not artifact.name.startswith('.')  # else, it is (still) being created
             ]
         else:
             self._artifacts = []
@@ -117,7 +127,7 @@ class _SharedPackage(Package):
         try:
             return max(
                 ((a, s) for a in self._artifacts
-                 if (s := env.compatibility_tag_score(a.compatibility_tag)) is not None),
+                 if (s := env.compatibility_tag_score(a.compatibility_tags)) is not None),
                 key=lambda it: it[1]
             )[0]
         except ValueError:
@@ -130,7 +140,7 @@ class _SharedPackage(Package):
         if artifact := self._shared_artifact_for(target.env):
             deps = artifact.metadata.dependencies
         else:
-            deps = self._package.dependencies(target)
+            return self._package.dependencies(target, extras)
 
         return [d for d in deps if d.is_applicable_for(target.env, extras)]
 
@@ -140,87 +150,87 @@ class _SharedPackage(Package):
     def install_to(
             self, target: "PackageInstallationTarget", user_request: Optional["Dependency"] = None,
             store_mode: StoreMode = StoreMode.AUTO):
-        if shared := self._shared_artifact_for(target.env):
-            _link_shared(self.descriptor, shared, target)
+        shared = None
+        if store_mode != StoreMode.EDITABLE:
+            shared = self._shared_artifact_for(target.env) or _share(self._package, target, self._shared_path)
+
+        if shared:
+            _link_shared(self.descriptor, shared, target, user_request)
         else:
             self._package.install_to(target, user_request, store_mode)
-            if shared := _move_to_shared(self._package.descriptor, target, self._shared_path):
-                _link_shared(self.descriptor, shared, target)
-
-
-def _copy_records(root: Path, shared: Path, records: List[Path]) -> List[Path]:
-    shared.mkdir(parents=True)
-    records_left = []
-    for record in records:
-        if is_relative_to(record, root):  # the path may lead out of the required source
-            shared_path = shared / record.relative_to(root)
-            if record.is_dir():
-                shared_path.mkdir(exist_ok=True, parents=True)
-            elif record.exists():
-                shared_path.parent.mkdir(exist_ok=True, parents=True)
-                shutil.copy(record, shared_path)
-        else:
-            records_left.append(record)
-    return records_left
-
-
-def _move_to_shared(package: PackageDescriptor,
-                    target: PackageInstallationTarget, shared_path: Path) -> Optional[_SharedPackageArtifact]:
-    psname = (package.expected_src_package_name + "-").lower()
-
-    for site in ('purelib', 'platlib'):
-        dist_info_path = first_or_none(
-            it for it in Path(getattr(target, site)).glob("*.dist-info") if it.name.lower().startswith(psname))
-
-        if dist_info_path:
-            break
-    else:
-        raise NoSuchElementException(f"package: {package} is reported as installed but could not be find inside venv")
 
-    dist_info = DistInfo.load(dist_info_path)
 
-    iinfo = dist_info.load_installation_info()
-    if iinfo.compatibility_tag:
-        compatibility_tags = iinfo.compatibility_tag
-        shared_target = shared_path / compatibility_tags
-    else:
-        return None  # TODO should probably notify the user that sharing is impossible for this package
-
-    records = list(dist_info.installed_files())
-
-    # filter dist info records:
-    records = [
-        r for r in records
-        if not is_relative_to(r, dist_info.path)]
-
-    # copy site
-    shared_purelib = shared_target / site
-    records = _copy_records(dist_info.path.parent, shared_purelib, records)
-
-    # copy scripts
-    script_entrypoints = {e.name for e in dist_info.load_entrypoints_cfg().entrypoints if e.is_script()}
-    bin_path = Path(target.scripts)
-    shared_bin = shared_target / "bin"
-
-    # filter script entrypoints - they should be re-generated
-    records = [r for r in records if not is_relative_to(r, bin_path) or r.stem not in script_entrypoints]
-    records = _copy_records(bin_path, shared_bin, records)
-
-    # copy dist-info
-    shutil.copytree(dist_info.path, shared_target / 'dist-info')
+def _share(package: Package, target: PackageInstallationTarget, shared_path: Path) -> Optional[_SharedPackageArtifact]:
+    """
+    install the given `package` into a shared location
+    :param package: the package to share
+    :param target: an installation target for which the package is going to be used
+    :param shared_path: the directory of the shared artifacts of the given package
+    :return: the shared artifact or None if the package cannot be shared (e.g., since it has files outside its site)
+    """
+    shared_path.mkdir(parents=True, exist_ok=True)
+    staging = Path(mkdtemp(prefix='.', dir=shared_path))
+    try:
+        site_names = ('purelib', 'platlib')
+        bin_dir = staging / 'bin'
+        package.install_to(replace(
+            target, **{site: str(staging / site) for site in site_names}, scripts=str(bin_dir),
+            data=str(staging / 'data'), include=str(staging / 'include'), platinclude=str(staging / 'include')))
+
+        distinfo_path = first_or_none(it for site in site_names for it in (staging / site).glob('*.dist-info'))
+        if not distinfo_path:
+            raise NoSuchElementException(f"package: {package} is reported as installed but could not be found")
+
+        distinfo = DistInfo.load(distinfo_path)
+        sharable = {distinfo_path.parent.name, 'bin'}
+        tags = distinfo.load_installation_info().compatibility_tag
+
+        if not tags or any(it.name not in sharable and not is_empty_directory(it) for it in staging.iterdir()):
+            return None  # TODO should probably notify the user that sharing is impossible for this package
+
+        # remove script entrypoints - they should be re-generated
+        script_entrypoints = {e.name for e in distinfo.load_entrypoints_cfg().entrypoints if e.is_script()}
+        if bin_dir.exists():
+            for script in bin_dir.iterdir():
+                if script.stem in script_entrypoints or script.name in script_entrypoints:
+                    script.unlink()
+                else:
+                    _generalize_shabang(script, target.env.interpreter_path)
+
+        distinfo_path.rename(staging / 'dist-info')
+        for file in staging.iterdir():
+            if file.name not in sharable and file.name != 'dist-info':
+                file.rmdir()
+        staging.chmod(0o755)
+
+        shared_target = shared_path / tags
+        try:
+            staging.rename(shared_target)
+        except OSError:
+            if not shared_target.exists():  # otherwise, others have shared it in the meantime
+                raise
 
-    if records:
-        warnings.warn(f"{len(records)} unsharable records found in package: {package.name} {package.version}: "
-                      f"{', '.join(str(r) for r in records)}")
+        return _SharedPackageArtifact.load(shared_target)
+    finally:
+        shutil.rmtree(staging, ignore_errors=True)
+        if is_empty_directory(shared_path):
+            shared_path.rmdir()
 
-    # uninstall the original package
-    InstalledPackage(dist_info).uninstall()
 
-    return _SharedPackageArtifact(shared_target, dist_info.load_metadata_cfg(), shared_target.name)
+def _generalize_shabang(script: Path, interpreter: Path):
+    """
+    make the shabang line of the given script independent of the environment that the script was installed for
+    """
+    prefix = f"#!{interpreter.absolute()}".encode(sys.getfilesystemencoding())
+    content = script.read_bytes()
+    if content.startswith(prefix):
+        script.write_bytes(b"#!python" + content[len(prefix):])
 
 
-def _link_shared(package: PackageDescriptor, shared: _SharedPackageArtifact, target: PackageInstallationTarget):
-    with CopyTransaction() as ct:
+def _link_shared(
+        package: PackageDescriptor, shared: _SharedPackageArtifact, target: PackageInstallationTarget,
+        user_request: Optional[Dependency] = None):
+    with CopyTransaction() as ct, temp_dir() as generated_scripts:
 
         package_prefix = f"{package.expected_src_package_name}-{package.version}"
 
@@ -228,30 +238,34 @@ def _link_shared(package: PackageDescriptor, shared: _SharedPackageArtifact, tar
         site_path = Path(getattr(target, site_name))
 
         # first link the site data
-        purelib_link = PthLink(site_path / f"{package_prefix}.pth", [shared.path / site_name])
-        purelib_link.save()
-        ct.touch(purelib_link.path)
+        PthLink(ct.prepare(site_path / f"{package_prefix}.pth"), [shared.path / site_name]).save()
 
         # now create all script entrypoints
         shared_distinfo = DistInfo.load(shared.path / "dist-info", non_standard_name_ok=True)
         bin_dir = Path(target.scripts)
         for entrypoint in shared_distinfo.load_entrypoints_cfg().entrypoints:
             if entrypoint.is_script():
-                ct.touch(Executables.generate_for_entrypoint(target.env, entrypoint, bin_dir))
+                script = Executables.generate_for_entrypoint(target.env, entrypoint, generated_scripts)
+                ct.copy(script, bin_dir / script.name)
 
         # then, patch non entrypoint scripts
-        for script in (shared.path / 'bin').iterdir():
-            target_script = bin_dir / script.name
-            Executables.patch_shabang_for_interpreter(script, target_script, target.env.interpreter_path)
-            ct.touch(target_script)
+        if (shared_bin := shared.path / 'bin').exists():
+            ct.copy_tree(
+                shared_bin, bin_dir,
+                file_copy=lambda s, t: Executables.patch_shabang_for_interpreter(s, t, target.env.interpreter_path))
 
         # we are almost done, copy dist-info
-        distinfo_path = site_path / f"{package_prefix}.dist-info"
-        ct.copy_tree(shared_distinfo.path, distinfo_path, lambda it: it.name != "RECORD")
-        shared_marker = (distinfo_path / "SHARED")
-        shared_marker.write_text(str(shared.path.absolute()))
-        ct.touch(shared_marker)
-
-        # and finally, sign the installation
-        record_path = distinfo_path / "RECORD"
-        RecordsFileConfiguration.load(record_path).sign_files(ct.copied_files, site_path).save()
+        distinfo = DistInfo.load(ct.mkdir(site_path / f"{package_prefix}.dist-info"))
+        ct.copy_tree(shared_distinfo.path, distinfo.path, lambda it: it.name != "RECORD")
+        ct.prepare(distinfo.path / "SHARED").write_text(str(shared.path.absolute()))
+
+        # sign the installation
+        records = distinfo.load_record_cfg()
+        records.sign_files(ct.copied_files, site_path)
+        ct.prepare(records.path)
+        records.save()
+
+        # and finally, mark the requested flag
+        if user_request:
+            ct.prepare(distinfo.user_requested_path())
+            distinfo.mark_as_user_requested(user_request)
-- 
2.43.0


From 90061e340347e5889bd9dc2696769c4efcde95f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:52 +0000
Subject: [PATCH 127/153] fix: the package sharing settings of environment zoos
 are used

---
 pkm/src/pkm/api/environments/environments_zoo.py      | 6 +++++-
 pkm/src/pkm/api/repositories/repository_management.py | 3 ++-
 pkm/src/pkm/repositories/shared_pacakges_repo.py      | 5 +++--
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/pkm/src/pkm/api/environments/environments_zoo.py b/pkm/src/pkm/api/environments/environments_zoo.py
index 45f56f3..8e29a39 100644
--- a/pkm/src/pkm/api/environments/environments_zoo.py
+++ b/pkm/src/pkm/api/environments/environments_zoo.py
@@ -39,6 +39,10 @@ class EnvironmentsZoo(HasAttachedRepository, Serializable):
     def _bin_path(self) -> Path:
         return self.path / ".zoo/bin"
 
+    @property
+    def shared_packages_path(self) -> Path:
+        return self.path / ".zoo/shared"
+
     @cached_property
     def repository_management(self) -> "RepositoryManagement":
         from pkm.api.repositories.repository_management import ZooRepositoryManagement
@@ -137,4 +141,4 @@ class PackageSharingConfig:
 
 @config(io=TomlConfigIO())
 class EnvironmentZooConfiguration(ConfigFile):
-    package_sharing: PackageSharingConfig = config_field(default_factory=PackageSharingConfig)
+    package_sharing: PackageSharingConfig = config_field(key="package-sharing", default_factory=PackageSharingConfig)
diff --git a/pkm/src/pkm/api/repositories/repository_management.py b/pkm/src/pkm/api/repositories/repository_management.py
index c51701b..d6e3a15 100644
--- a/pkm/src/pkm/api/repositories/repository_management.py
+++ b/pkm/src/pkm/api/repositories/repository_management.py
@@ -202,7 +202,8 @@ class ZooRepositoryManagement(RepositoryManagement):
 
     def _wrap_attached_repository(self, inherited: Optional[Repository]) -> Repository:
         if self.zoo.config.package_sharing.enabled:
-            inherited = SharedPackagesRepository(self.zoo.path / ".zoo/shared", inherited)
+            inherited = SharedPackagesRepository(
+                self.zoo.shared_packages_path, inherited, self.zoo.config.package_sharing.exclude)
 
         return inherited
 
diff --git a/pkm/src/pkm/repositories/shared_pacakges_repo.py b/pkm/src/pkm/repositories/shared_pacakges_repo.py
index c05089b..599d92d 100644
--- a/pkm/src/pkm/repositories/shared_pacakges_repo.py
+++ b/pkm/src/pkm/repositories/shared_pacakges_repo.py
@@ -24,10 +24,11 @@ from pkm.utils.iterators import first_or_none
 
 class SharedPackagesRepository(AbstractRepository):
 
-    def __init__(self, workspace: Path, base_repository: Repository):
+    def __init__(self, workspace: Path, base_repository: Repository, exclude: Iterable[str] = ()):
         super().__init__("shared")
         self._workspace = workspace
         self._base_repo = base_repository
+        self._exclude = {PackageDescriptor.package_name_key(it) for it in exclude}
 
     def remove_unused_packages(self, package_users: Iterator[Environment]):
         used_packages: Set[str] = set()
@@ -67,7 +68,7 @@ class SharedPackagesRepository(AbstractRepository):
 
     def _is_sharable(self, package: Package) -> bool:
         # what urls and names of versions (e.g., branches) refer to may change
-        return isinstance(package.version, StandardVersion)
+        return package.name_key not in self._exclude and isinstance(package.version, StandardVersion)
 
     @staticmethod
     def _sort_by_priority(packages: List[Package]) -> List[Package]:
-- 
2.43.0


From d170d44be8a64f8bf9c70d982bdf45a92c0d24da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:52 +0000
Subject: [PATCH 128/153] fix: shared packages that are used by containers, or
 via links, are not cleaned

---
 pkm/src/pkm/repositories/shared_pacakges_repo.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pkm/src/pkm/repositories/shared_pacakges_repo.py b/pkm/src/pkm/repositories/shared_pacakges_repo.py
index 599d92d..28d4a1c 100644
--- a/pkm/src/pkm/repositories/shared_pacakges_repo.py
+++ b/pkm/src/pkm/repositories/shared_pacakges_repo.py
@@ -33,9 +33,14 @@ class SharedPackagesRepository(AbstractRepository):
     def remove_unused_packages(self, package_users: Iterator[Environment]):
         used_packages: Set[str] = set()
         for package_user in package_users:
-            for used_package in package_user.site_packages.installed_packages():
+            sites = [package_user.site_packages]
+            sites.extend(it.installation_target.site_packages for it in package_user.package_containers.containers())
+            for used_package in (package for site in sites for package in site.installed_packages()):
                 if (shared_marker := used_package.dist_info.path / "SHARED").exists():
-                    used_packages.add(shared_marker.read_text())
+                    used_packages.add(str(Path(shared_marker.read_text()).resolve()))
+
+        if not self._workspace.exists():
+            return
 
         for package_dir in self._workspace.iterdir():
             if not package_dir.is_dir():
@@ -49,7 +54,7 @@ class SharedPackagesRepository(AbstractRepository):
                     if not shared_dir.is_dir():
                         continue
 
-                    if str(shared_dir.absolute()) not in used_packages:
+                    if str(shared_dir.resolve()) not in used_packages:
                         shutil.rmtree(shared_dir)
 
                 if is_empty_directory(version_dir):
-- 
2.43.0


From 141507eec7415edbe72c477441286e9474fb6c9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:52 +0000
Subject: [PATCH 129/153] fix: exporting from, activating and deleting from an
 environment zoo

---
 pkm/src/pkm/api/environments/environments_zoo.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pkm/src/pkm/api/environments/environments_zoo.py b/pkm/src/pkm/api/environments/environments_zoo.py
index 8e29a39..dc54042 100644
--- a/pkm/src/pkm/api/environments/environments_zoo.py
+++ b/pkm/src/pkm/api/environments/environments_zoo.py
@@ -15,7 +15,7 @@ from pkm.config.configclass import config, config_field, ConfigFile
 from pkm.config.configfiles import TomlConfigIO
 from pkm.repositories.shared_pacakges_repo import SharedPackagesRepository
 from pkm.utils.commons import NoSuchElementException
-from pkm.utils.files import is_relative_to
+from pkm.utils.files import is_relative_to, mkdir
 from pkm.utils.types import Serializable
 from pkm.utils.properties import cached_property
 
@@ -57,7 +57,7 @@ class EnvironmentsZoo(HasAttachedRepository, Serializable):
 
     def delete_environment(self, name: str):
         # shared repository gc
-        shutil.rmtree(self.path / name)
+        shutil.rmtree(self.load_environment(name).path)
 
     def clean_unused_shared(self):
         repo = self.attached_repository
@@ -74,10 +74,10 @@ class EnvironmentsZoo(HasAttachedRepository, Serializable):
         try:
             yield
         finally:
-            if prev_path:
+            if prev_path is not None:
                 env["PATH"] = prev_path
             else:
-                del env["PATH"]
+                env.pop("PATH", None)
 
     def list(self) -> Iterator[Environment]:
         """
@@ -103,12 +103,12 @@ class EnvironmentsZoo(HasAttachedRepository, Serializable):
                 and not (script_file := env_scripts / f"{script_name}.exe").exists():
             raise NoSuchElementException(f"script {script_name} could not be find in environment {env_name}")
 
-        shutil.copy(script_file, self._bin_path / script_file.name)
+        shutil.copy(script_file, mkdir(self._bin_path) / script_file.name)
 
     def export_all_scripts(self, env_name: str, package: str):
         env = self.load_environment(env_name)
         env_scripts = env.installation_target.scripts
-        bin_path = self._bin_path
+        bin_path = mkdir(self._bin_path)
 
         for file in env.site_packages.installed_package(package).dist_info.installed_files():
             if is_relative_to(file, Path(env_scripts)):
-- 
2.43.0


From 54dfd89113c559da28a52aa80b3f0d45dd015c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:55 +0000
Subject: [PATCH 130/153] fix: the commands of environments that are reached
 via links can be exported

---
 pkm/src/pkm/api/environments/environments_zoo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/api/environments/environments_zoo.py b/pkm/src/pkm/api/environments/environments_zoo.py
index dc54042..f100e3f 100644
--- a/pkm/src/pkm/api/environments/environments_zoo.py
+++ b/pkm/src/pkm/api/environments/environments_zoo.py
@@ -107,11 +107,11 @@ class EnvironmentsZoo(HasAttachedRepository, Serializable):
 
     def export_all_scripts(self, env_name: str, package: str):
         env = self.load_environment(env_name)
-        env_scripts = env.installation_target.scripts
+        env_scripts = Path(env.installation_target.scripts).resolve()
         bin_path = mkdir(self._bin_path)
 
         for file in env.site_packages.installed_package(package).dist_info.installed_files():
-            if is_relative_to(file, Path(env_scripts)):
+            if is_relative_to(file, env_scripts):
                 shutil.copy(file, bin_path / file.name)
 
     @classmethod
-- 
2.43.0


From 4dd35ffae0384c72099bfbe3d306c124ecb039b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:08 +0000
Subject: [PATCH 131/153] fix: wheels can be installed on systems without
 glibc, musllinux wheels are supported

---
 .../environments/environment_introspection.py  | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/pkm/src/pkm/api/environments/environment_introspection.py b/pkm/src/pkm/api/environments/environment_introspection.py
index 8edf0d4..6eff549 100644
--- a/pkm/src/pkm/api/environments/environment_introspection.py
+++ b/pkm/src/pkm/api/environments/environment_introspection.py
@@ -198,11 +198,9 @@ class EnvironmentIntrospection:
         if not version_string:
             return None
 
-        try:
-            # os.confstr("CS_GNU_LIBC_VERSION") returns a string like "glibc 2.17".
-            return StandardVersion.parse(version_string.split()[1])
-        except ValueError:
-            return None
+        # os.confstr("CS_GNU_LIBC_VERSION") returns a string like "glibc 2.17", vendors may add suffixes.
+        match = re.match(r"\S+\s+(\d+\.\d+)", version_string)
+        return StandardVersion.parse(match.group(1)) if match else None
 
     def _compute_cpython_abis(self, py_version: Tuple[int, ...]) -> List[str]:
         abis = []
@@ -295,7 +293,7 @@ class EnvironmentIntrospection:
             my_glibc_version = None
             my_musl_version = None
             if (elf := _ElfData.read(Path(self.interpreter_path))) and elf.have_compatible_abi(my_arch):
-                my_glibc_version = self._glibc_version.release[:2]
+                my_glibc_version = self._glibc_version.release[:2] if self._glibc_version else None
                 my_musl_version = elf.compute_musl_version()
 
             def linux_score(plt: str) -> Optional[Tuple]:
@@ -317,7 +315,7 @@ class EnvironmentIntrospection:
                     return None
 
                 if my_musl_version is not None and plt_no_arch.startswith("musllinux_"):
-                    musl_ver = tuple(int(it) for it in plt_no_arch.split("_"))[1:3]
+                    musl_ver = tuple(int(it) for it in plt_no_arch.split("_")[1:3])
                     if len(musl_ver) != 2 or musl_ver[0] != my_musl_version[0] or musl_ver[1] > my_musl_version[1]:
                         return None
                     return (1, *vdscore(my_musl_version, musl_ver))
@@ -531,7 +529,11 @@ class _ElfData:
         if not self.interpreter:
             return None
 
-        proc = subprocess.run([self.interpreter], stderr=subprocess.PIPE, universal_newlines=True)
+        try:
+            proc = subprocess.run([self.interpreter], stderr=subprocess.PIPE, universal_newlines=True)
+        except OSError:
+            return None
+
         lines = [n for n in (n.strip() for n in proc.stderr.splitlines()) if n]
         if len(lines) >= 2 and lines[0].startswith('musl'):
             try:
-- 
2.43.0


From 871002d62789b274fbeaaf701830d7c74816905b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:24 +0000
Subject: [PATCH 132/153] fix: wheels for other versions, or another word size,
 of the interpreter are not compatible

---
 pkm/src/pkm/api/environments/environment_introspection.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/environments/environment_introspection.py b/pkm/src/pkm/api/environments/environment_introspection.py
index 6eff549..0902742 100644
--- a/pkm/src/pkm/api/environments/environment_introspection.py
+++ b/pkm/src/pkm/api/environments/environment_introspection.py
@@ -342,7 +342,7 @@ class EnvironmentIntrospection:
             # (binary_format or os score , identifying_component_major_score, identifying_component_minor_score)
             if plt == 'any':
                 score_components.extend((0, 0, 0))
-            elif plt == my_platform:
+            elif plt == my_platform and my_platform_type != "Linux":
                 score_components.extend((1, 0, 0))
             elif my_platform_type == "Darwin":
                 if (dscore := darwin_score(plt)) is None:
@@ -376,6 +376,10 @@ class EnvironmentIntrospection:
             if my_ipt_version[0] != ipt_version[0] or my_ipt_version[1] < ipt_version[1]:
                 return None
 
+            # extensions for other versions of the interpreter can only be used via the stable abi
+            if abi != 'abi3' and not ipt.startswith('py') and ipt_version != my_ipt_version:
+                return None
+
             score_components.append(vdscore(my_ipt_version, ipt_version)[1])
 
             return tuple(score_components)
-- 
2.43.0


From f82bf8c48e7a58055d0ed9e124d81621a9d82686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:25 +0000
Subject: [PATCH 133/153] fix: free threaded interpreters can only use the
 extensions that were built for them

---
 .../api/environments/environment_introspection.py  | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/pkm/src/pkm/api/environments/environment_introspection.py b/pkm/src/pkm/api/environments/environment_introspection.py
index 0902742..485ce71 100644
--- a/pkm/src/pkm/api/environments/environment_introspection.py
+++ b/pkm/src/pkm/api/environments/environment_introspection.py
@@ -189,6 +189,10 @@ class EnvironmentIntrospection:
     def is_32bit_interpreter(self):
         return self._data['sys']['maxsize'] <= 2 ** 32
 
+    @property
+    def _is_free_threaded(self) -> bool:
+        return bool(self._data['sysconfig']['vars'].get("Py_GIL_DISABLED"))
+
     @cached_property
     def _glibc_version(self) -> Optional[StandardVersion]:
         # this is correct that the pkm's os and the actual os that will execute this
@@ -205,7 +209,7 @@ class EnvironmentIntrospection:
     def _compute_cpython_abis(self, py_version: Tuple[int, ...]) -> List[str]:
         abis = []
         version = ''.join(str(v) for v in py_version)
-        debug = pymalloc = ucs4 = ""
+        threading = debug = pymalloc = ucs4 = ""
         with_debug = self._data['sysconfig']['vars'].get("Py_DEBUG")
         has_refcount = self._data['sys']['has_totalrefcount']
         # Windows doesn't set Py_DEBUG, so checking for support of debug-compiled
@@ -214,6 +218,8 @@ class EnvironmentIntrospection:
         has_ext = "_d.pyd" in self._data['importlib']['machinery']['EXTENSION_SUFFIXES']
         if with_debug or (with_debug is None and (has_refcount or has_ext)):
             debug = "d"
+        if self._is_free_threaded:
+            threading = "t"
         if py_version < (3, 8):
             with_pymalloc = self._data['sysconfig']['vars'].get("WITH_PYMALLOC")
             if with_pymalloc or with_pymalloc is None:
@@ -227,8 +233,8 @@ class EnvironmentIntrospection:
         elif debug:
             # Debug builds can also load "normal" extension modules.
             # We can also assume no UCS-4 or pymalloc requirement.
-            abis.append(f"cp{version}")
-        abis.insert(0, f"cp{version}{debug}{pymalloc}{ucs4}", )
+            abis.append(f"cp{version}{threading}")
+        abis.insert(0, f"cp{version}{threading}{debug}{pymalloc}{ucs4}", )
         return abis
 
     @cached_property
@@ -249,7 +255,7 @@ class EnvironmentIntrospection:
 
         if my_ipt == 'cp':
             my_abis = self._compute_cpython_abis(my_ipt_version) if len(my_ipt_version) > 1 else []
-            if _abi3_applies(my_ipt_version):
+            if _abi3_applies(my_ipt_version) and not self._is_free_threaded:
                 my_abis.append('abi3')
         else:
             my_abis = list(self._compute_generic_abis())
-- 
2.43.0


From f36034a7fe81376bac18b9910f914db3d34693d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:37 +0000
Subject: [PATCH 134/153] fix: malformed parts of a compatibility tag do not
 affect the others

---
 .../environments/environment_introspection.py | 33 +++++++++++--------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/pkm/src/pkm/api/environments/environment_introspection.py b/pkm/src/pkm/api/environments/environment_introspection.py
index 485ce71..ca6673f 100644
--- a/pkm/src/pkm/api/environments/environment_introspection.py
+++ b/pkm/src/pkm/api/environments/environment_introspection.py
@@ -9,7 +9,7 @@ from dataclasses import dataclass
 from hashlib import sha256
 from json import JSONDecodeError
 from pathlib import Path
-from struct import Struct
+from struct import Struct, error as StructError
 from typing import Iterator, Tuple, List, Optional, Dict, IO, Callable, Any
 
 from pkm.api.versions.version import StandardVersion
@@ -150,20 +150,22 @@ class EnvironmentIntrospection:
                  which can be treated as a score (read: higher is better)
         """
         try:
-            max_score = None
             interpreters, abis, platforms = tag.split("-")
-            for interpreter in interpreters.split("."):
-                for abi in abis.split("."):
-                    for platform_ in platforms.split("."):
+        except ValueError:
+            return None
+
+        max_score = None
+        for interpreter in interpreters.split("."):
+            for abi in abis.split("."):
+                for platform_ in platforms.split("."):
+                    try:
                         score = self._compatibility_tag_scorer(interpreter, abi, platform_)
+                    except (ValueError, IndexError):  # malformed version, other tags in the set may be well formed
+                        continue
 
-                        if score is not None and (max_score is None or max_score < score):
-                            max_score = score
-            return max_score
-        except:  # noqa
-            import traceback
-            traceback.print_exc()
-            return None
+                    if score is not None and (max_score is None or max_score < score):
+                        max_score = score
+        return max_score
 
     @property
     def interpreter_name(self) -> str:
@@ -298,7 +300,12 @@ class EnvironmentIntrospection:
 
             my_glibc_version = None
             my_musl_version = None
-            if (elf := _ElfData.read(Path(self.interpreter_path))) and elf.have_compatible_abi(my_arch):
+            try:
+                elf = _ElfData.read(Path(self.interpreter_path))
+            except (OSError, StructError):
+                elf = None  # the executable cannot be read, or is not a complete elf file
+
+            if elf and elf.have_compatible_abi(my_arch):
                 my_glibc_version = self._glibc_version.release[:2] if self._glibc_version else None
                 my_musl_version = elf.compute_musl_version()
 
-- 
2.43.0


From 359eb06ce90918d4f18b392d56655e08b5f73ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:08 +0000
Subject: [PATCH 135/153] fix: wheels for the very macos version of the
 interpreter are preferred to those for older ones

---
 pkm/src/pkm/api/environments/environment_introspection.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkm/src/pkm/api/environments/environment_introspection.py b/pkm/src/pkm/api/environments/environment_introspection.py
index ca6673f..157be1c 100644
--- a/pkm/src/pkm/api/environments/environment_introspection.py
+++ b/pkm/src/pkm/api/environments/environment_introspection.py
@@ -355,8 +355,6 @@ class EnvironmentIntrospection:
             # (binary_format or os score , identifying_component_major_score, identifying_component_minor_score)
             if plt == 'any':
                 score_components.extend((0, 0, 0))
-            elif plt == my_platform and my_platform_type != "Linux":
-                score_components.extend((1, 0, 0))
             elif my_platform_type == "Darwin":
                 if (dscore := darwin_score(plt)) is None:
                     return None
@@ -365,6 +363,8 @@ class EnvironmentIntrospection:
                 if (lscore := linux_score(plt)) is None:
                     return None
                 score_components.extend(lscore)
+            elif plt == my_platform:
+                score_components.extend((1, 0, 0))
             else:
                 return None
 
-- 
2.43.0


From d3307064543ea4ba98ce142be9c05cd168b563cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:43:38 +0000
Subject: [PATCH 136/153] fix: packages can be installed by 32 bit interpreters
 on linux

---
 pkm/src/pkm/api/environments/environment_introspection.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pkm/src/pkm/api/environments/environment_introspection.py b/pkm/src/pkm/api/environments/environment_introspection.py
index 157be1c..885335b 100644
--- a/pkm/src/pkm/api/environments/environment_introspection.py
+++ b/pkm/src/pkm/api/environments/environment_introspection.py
@@ -514,6 +514,8 @@ class _ElfStructs:
 
         self.header_suffix = Struct(f"{e}2HI3{L}I6H")
         self.program_header = Struct(f"{e}2I4{L}")
+        # the location of (type, offset, size) in the program header
+        self.program_header_fields = (0, 1, 4) if is_32_bit else (0, 2, 5)
 
 
 def _unpack(fd: IO, struct: Struct) -> Tuple:
@@ -584,9 +586,9 @@ class _ElfData:
             for i in range(n_ph):
                 fd.seek(ph_offset + i * ph_size)
                 header = _unpack(fd, structs.program_header)
-                if header[0] == _PT_INTERP:
-                    sz = header[5]
-                    fd.seek(header[2])
+                kind, offset, sz = (header[field] for field in structs.program_header_fields)
+                if kind == _PT_INTERP:
+                    fd.seek(offset)
                     interpreter = os.fsdecode(fd.read(sz)).strip("\0")
                     break
 
-- 
2.43.0


From f577d9725a89e1df9a96c5e1ad75d34a192e827b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:13 +0000
Subject: [PATCH 137/153] fix: processes may print what is not utf-8

---
 pkm/src/pkm/utils/processes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/utils/processes.py b/pkm/src/pkm/utils/processes.py
index 26063e4..08749ac 100644
--- a/pkm/src/pkm/utils/processes.py
+++ b/pkm/src/pkm/utils/processes.py
@@ -29,7 +29,7 @@ def monitored_run(execution_name: str, cmd: List[str], **subprocess_run_kwargs)
         def decode(line):  # noqa
             nonlocal decode
             if hasattr(line, 'decode'):
-                decode = lambda line: line.decode()  # noqa
+                decode = lambda line: line.decode(errors='replace')  # noqa
             else:
                 decode = lambda line: line  # noqa
 
-- 
2.43.0


From 388e2d3a67da1c3d1936597d3bd8b5fcb41b1f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:27 +0000
Subject: [PATCH 138/153] fix: build requirements that are only available as
 source distributions are built

---
 pkm/src/pkm/build/external_builders.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/pkm/src/pkm/build/external_builders.py b/pkm/src/pkm/build/external_builders.py
index 526008b..96ff28f 100644
--- a/pkm/src/pkm/build/external_builders.py
+++ b/pkm/src/pkm/build/external_builders.py
@@ -2,13 +2,12 @@ import json
 from dataclasses import dataclass
 from pathlib import Path
 from textwrap import dedent
-from typing import Optional, Literal, Any, List, TYPE_CHECKING
+from typing import Optional, Literal, Any, List, Tuple, TYPE_CHECKING
 
 from pkm.api.dependencies.dependency import Dependency
 from pkm.api.distributions.build_monitors import BuildPackageMonitoredOp, BuildPackageHookExecutionEvent
 from pkm.api.packages.package import PackageDescriptor
 from pkm.api.projects.pyproject_configuration import BuildSystemConfig
-from pkm.utils.dicts import put_if_absent
 from pkm.utils.files import temp_dir
 
 if TYPE_CHECKING:
@@ -92,16 +91,16 @@ def build_wheel(project: "Project", target_dir: Optional[Path] = None, only_meta
     from pkm.api.environments.environment_builder import EnvironmentBuilder
     target_dir = target_dir or (project.directories.dist / str(project.version))
 
-    if not target_env or (current_build_path := getattr(target_env, _CURRENT_BUILD_PATH_ATTR, None)) is None:
-        current_build_path = dict()
+    # the packages that this build is a part of their builds (other builds, even of the same package, are not)
+    current_build_path: Tuple[PackageDescriptor, ...] = getattr(target_env, _CURRENT_BUILD_PATH_ATTR, ())
 
-    if not put_if_absent(current_build_path, project.descriptor, True):
+    if project.descriptor in current_build_path:
         def pstr(p: PackageDescriptor):
             return f"{p.name} {p.version}"
 
         raise BuildError(
             f"build cycle detected: "
-            f"{' -> '.join(pstr(it) for it in current_build_path.keys())} -> {pstr(project.descriptor)}")
+            f"{' -> '.join(pstr(it) for it in current_build_path)} -> {pstr(project.descriptor)}")
 
     interpreter_path = target_env.interpreter_path if target_env else project.attached_environment.interpreter_path
 
@@ -114,7 +113,7 @@ def build_wheel(project: "Project", target_dir: Optional[Path] = None, only_meta
         build_packages_repo = project.attached_repository
 
         build_env = EnvironmentBuilder.create(tdir / 'venv', interpreter_path)
-        setattr(build_env, _CURRENT_BUILD_PATH_ATTR, current_build_path)
+        setattr(build_env, _CURRENT_BUILD_PATH_ATTR, (*current_build_path, project.descriptor))
 
         if buildsys.requirements:
             build_env.install(buildsys.requirements, build_packages_repo)
-- 
2.43.0


From 1881d957228802ccffbb0e0e3b0ffc0d036d5267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:13:27 +0000
Subject: [PATCH 139/153] fix: the metadata of source distributions without the
 prepare_metadata_for_build_wheel hook

---
 pkm/src/pkm/build/source_build_cache.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkm/src/pkm/build/source_build_cache.py b/pkm/src/pkm/build/source_build_cache.py
index ae5fb75..16b8620 100644
--- a/pkm/src/pkm/build/source_build_cache.py
+++ b/pkm/src/pkm/build/source_build_cache.py
@@ -81,11 +81,11 @@ class SourceBuildCache:
                 shutil.copy(wheel_metadata_path, metadata_file)
                 return PackageMetadata.load(wheel_metadata_path)
             else:
+                wheel_metadata = WheelDistribution(dist.owner_package, output).extract_metadata(target.env)
                 if not metadata_file.exists():
-                    metadata = WheelDistribution(dist.owner_package, output).extract_metadata()
-                    metadata.save(metadata_file)
+                    wheel_metadata.save(metadata_file)
 
                 cached_output = cache_dir / output.name
                 cache_dir.mkdir(parents=True, exist_ok=True)
                 shutil.move(output, cached_output)
-                return cached_output
+                return wheel_metadata if metadata else cached_output
-- 
2.43.0


From 4b14ea339b19b7b51ab13dfd2800f1c45e6f7423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:34 +0000
Subject: [PATCH 140/153] fix: interrupted builds do not leave partial files in
 the build cache

---
 pkm/src/pkm/build/source_build_cache.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pkm/src/pkm/build/source_build_cache.py b/pkm/src/pkm/build/source_build_cache.py
index 16b8620..35be9cb 100644
--- a/pkm/src/pkm/build/source_build_cache.py
+++ b/pkm/src/pkm/build/source_build_cache.py
@@ -13,7 +13,7 @@ from pkm.api.packages.package_metadata import PackageMetadata
 from pkm.api.projects.project import Project
 from pkm.build.external_builders import BuildError
 from pkm.utils.archives import extract_archive
-from pkm.utils.files import temp_dir
+from pkm.utils.files import temp_dir, written_at_once
 from pkm.utils.hashes import stream
 from pkm.utils.iterators import single_or, single_or_raise
 
@@ -78,14 +78,17 @@ class SourceBuildCache:
                     raise BuildError("build backend did not create a wheel METADATA file")
 
                 cache_dir.mkdir(parents=True, exist_ok=True)
-                shutil.copy(wheel_metadata_path, metadata_file)
+                with written_at_once(metadata_file) as temp_file:
+                    shutil.copy(wheel_metadata_path, temp_file)
                 return PackageMetadata.load(wheel_metadata_path)
             else:
                 wheel_metadata = WheelDistribution(dist.owner_package, output).extract_metadata(target.env)
-                if not metadata_file.exists():
-                    wheel_metadata.save(metadata_file)
-
                 cached_output = cache_dir / output.name
                 cache_dir.mkdir(parents=True, exist_ok=True)
-                shutil.move(output, cached_output)
+                if not metadata_file.exists():
+                    with written_at_once(metadata_file) as temp_file:
+                        wheel_metadata.save(temp_file)
+
+                with written_at_once(cached_output) as temp_file:
+                    shutil.move(output, temp_file)
                 return wheel_metadata if metadata else cached_output
-- 
2.43.0


From b3ac149249c1e697b918f425d823c8ca4b199e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:22 +0000
Subject: [PATCH 141/153] fix: the group of projects and groups is found
 however their path is written

---
 pkm/src/pkm/api/projects/project_group.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/projects/project_group.py b/pkm/src/pkm/api/projects/project_group.py
index ee85537..d65bbd5 100644
--- a/pkm/src/pkm/api/projects/project_group.py
+++ b/pkm/src/pkm/api/projects/project_group.py
@@ -59,6 +59,7 @@ class ProjectGroup(HasAttachedRepository, Serializable):
         if not (parent := self._config.parent):
             return ProjectGroup._find_group(self.path.resolve())
         else:
+            parent = self.path / parent
             return ProjectGroup(PyProjectGroupConfiguration.load(
                 ensure_exists(parent, lambda: f"{self.path}'s parent path {parent} doesn't exists")
             ))
@@ -152,7 +153,7 @@ class ProjectGroup(HasAttachedRepository, Serializable):
         """
         if (pkm_project := project.config.pkm_project) and (group := pkm_project.group):
             return ProjectGroup(PyProjectGroupConfiguration.load(Path(project.path, group)))
-        return cls._find_group(project.path)
+        return cls._find_group(project.path.resolve())
 
     @classmethod
     def load(cls, path: Path) -> "ProjectGroup":
-- 
2.43.0


From bd82a0f9bdc8fdeeef58a3573c92cbbd1af7e839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:22 +0000
Subject: [PATCH 142/153] fix: the root of a project group is its top most
 parent

---
 pkm/src/pkm/api/projects/project_group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/projects/project_group.py b/pkm/src/pkm/api/projects/project_group.py
index d65bbd5..853e6d4 100644
--- a/pkm/src/pkm/api/projects/project_group.py
+++ b/pkm/src/pkm/api/projects/project_group.py
@@ -69,7 +69,7 @@ class ProjectGroup(HasAttachedRepository, Serializable):
         """
         :return: the top most parent of this project group
         """
-        return parent.root if (parent := self.parent) else None
+        return (parent.root or parent) if (parent := self.parent) else None
 
     @cached_property
     def children(self) -> Iterable[Union[Project, "ProjectGroup"]]:
-- 
2.43.0


From 2fe4f9b133e3940fb5ce20bf4a9cf43c6b65b4dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:22 +0000
Subject: [PATCH 143/153] fix: children of project groups that are neither
 projects nor groups are ignored

---
 pkm/src/pkm/api/projects/project_group.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/projects/project_group.py b/pkm/src/pkm/api/projects/project_group.py
index 853e6d4..df91394 100644
--- a/pkm/src/pkm/api/projects/project_group.py
+++ b/pkm/src/pkm/api/projects/project_group.py
@@ -80,7 +80,7 @@ class ProjectGroup(HasAttachedRepository, Serializable):
         for child in self._config.resolved_children:
             if (child / 'pyproject.toml').exists():
                 result.append(Project.load(child, group=self))
-            elif (child / 'pyproject-group.toml').exists:
+            elif (child / 'pyproject-group.toml').exists():
                 result.append(
                     ProjectGroup(PyProjectGroupConfiguration.load(child / 'pyproject-group.toml'), parent=self))
 
-- 
2.43.0


From 37a310bfd70df8b09e76f5bf0b6b7453ba990e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:22 +0000
Subject: [PATCH 144/153] fix: adding to and removing from project groups

---
 pkm/src/pkm/api/projects/project_group.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/pkm/src/pkm/api/projects/project_group.py b/pkm/src/pkm/api/projects/project_group.py
index df91394..dce5f29 100644
--- a/pkm/src/pkm/api/projects/project_group.py
+++ b/pkm/src/pkm/api/projects/project_group.py
@@ -42,6 +42,13 @@ class ProjectGroup(HasAttachedRepository, Serializable):
     def config(self) -> "PyProjectGroupConfiguration":
         return self._config
 
+    @property
+    def name(self) -> str:
+        """
+        :return: the name of this project group
+        """
+        return self._config.name
+
     @cached_property
     def environments_config(self) -> EnvironmentsConfiguration:
         return EnvironmentsConfiguration.load(self.path / ENVIRONMENT_CONFIGURATION_PATH)
@@ -107,9 +114,9 @@ class ProjectGroup(HasAttachedRepository, Serializable):
         :param project: the project to add
         """
 
-        project_path = project if isinstance(project, Path) else project.path
-        self._config.children.append(project_path)
-        self._config.save()
+        project_path = (project if isinstance(project, Path) else project.path).resolve()
+        if project_path not in self._config.resolved_children:
+            self._save_children([*self._config.children, project_path])
 
     def remove(self, project: Union[str, Path]):
         """
@@ -121,9 +128,14 @@ class ProjectGroup(HasAttachedRepository, Serializable):
 
         project = project.resolve()
 
-        self._config.children = [
-            p for p, rp in zip(self._config.children, self._config.resolved_children) if rp != project]
+        self._save_children([
+            p for p, rp in zip(self._config.children, self._config.resolved_children) if rp != project])
+
+    def _save_children(self, children: List[Path]):
+        self._config.children = children
         self._config.save()
+        del self.children
+        del self.project_children_recursive
 
     def build_all(self):
         """
@@ -178,6 +190,7 @@ class PyProjectGroupConfiguration(ConfigFile):
     _name: str = config_field(key="name")
     children: List[Path] = config_field(default_factory=list)
     parent: Path = None
+    _leftovers = config_field(leftover=True)
 
     @property
     def resolved_children(self) -> Iterable[Path]:
-- 
2.43.0


From 53423c0ee29dd56d87d5c9999d6094de218eeb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:18 +0000
Subject: [PATCH 145/153] fix: executables that are no interpreters do not hide
 the installed interpreters

---
 pkm/src/pkm/api/environments/installed_pythons_locator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkm/src/pkm/api/environments/installed_pythons_locator.py b/pkm/src/pkm/api/environments/installed_pythons_locator.py
index 19167da..353d62d 100644
--- a/pkm/src/pkm/api/environments/installed_pythons_locator.py
+++ b/pkm/src/pkm/api/environments/installed_pythons_locator.py
@@ -53,7 +53,7 @@ class InstalledPythonsLocator:
                     executable,
                     PackageDescriptor("python", Version.parse(version_str.strip()))))
 
-            except (ChildProcessError, CalledProcessError):
+            except (OSError, ValueError, CalledProcessError):
                 # import traceback
                 # traceback.print_exc()
                 pass  # skip this interpreter
-- 
2.43.0


From f8e4b8cc2c3ebe5204ec4108058af131144155c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:18 +0000
Subject: [PATCH 146/153] fix: paths in PATH that are not readable directories
 are ignored

---
 .../api/environments/installed_pythons_locator.py   | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pkm/src/pkm/api/environments/installed_pythons_locator.py b/pkm/src/pkm/api/environments/installed_pythons_locator.py
index 353d62d..77ea6fb 100644
--- a/pkm/src/pkm/api/environments/installed_pythons_locator.py
+++ b/pkm/src/pkm/api/environments/installed_pythons_locator.py
@@ -106,10 +106,15 @@ def _lookup_in_path(path: Path):
 
 
 def _lookup_in_env_path() -> Set[Path]:
-    path_parts = [path for it in (os.environ.get("PATH") or "").split(os.pathsep) if (path := Path(it)).exists()]
-
     return {
         executable
-        for path in path_parts
-        for file in path.iterdir()
+        for it in (os.environ.get("PATH") or "").split(os.pathsep)
+        for file in _files_in(Path(it))
         if (executable := _as_python_executeable(file))}
+
+
+def _files_in(directory: Path) -> List[Path]:
+    try:
+        return list(directory.iterdir())
+    except OSError:  # it may be missing, a file or not readable
+        return []
-- 
2.43.0


From 04ad5208a32d68d5329156f841db2b6e8723282e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:18 +0000
Subject: [PATCH 147/153] fix: of interpreters with the same version the one
 that is first in PATH is preferred

---
 .../environments/installed_pythons_locator.py   | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/pkm/src/pkm/api/environments/installed_pythons_locator.py b/pkm/src/pkm/api/environments/installed_pythons_locator.py
index 77ea6fb..f6b6c73 100644
--- a/pkm/src/pkm/api/environments/installed_pythons_locator.py
+++ b/pkm/src/pkm/api/environments/installed_pythons_locator.py
@@ -8,7 +8,7 @@ import sys
 from dataclasses import dataclass
 from pathlib import Path
 from subprocess import CalledProcessError
-from typing import List, Optional, Set
+from typing import Dict, List, Optional, Set
 
 from pkm.api.environments.environment import Environment
 from pkm.api.packages.package import PackageDescriptor
@@ -32,7 +32,7 @@ class InstalledPythonsLocator:
         interpreters_in_path = _lookup_in_env_path()
         for sp in self._search_paths:
             interpreters_in_path.update(_lookup_in_path(Path(sp).expanduser()))
-        interpreters_in_path.add(Path(sys.executable).resolve())
+        interpreters_in_path.setdefault(Path(sys.executable).resolve())
         for interpreter_path in interpreters_in_path:
             try:
                 cmdout = subprocess.run(
@@ -97,19 +97,20 @@ def _as_python_executeable(file: Path) -> Optional[Path]:
     return None
 
 
-def _lookup_in_path(path: Path):
+def _lookup_in_path(path: Path) -> Dict[Path, None]:
     return {
-        executable
-        for file in path.rglob("python")
+        executable: None
+        for file in sorted(path.rglob("python"))
         if (executable := _as_python_executeable(file))
     }
 
 
-def _lookup_in_env_path() -> Set[Path]:
+def _lookup_in_env_path() -> Dict[Path, None]:
+    # a dictionary, the order in which they are found is the order of preference
     return {
-        executable
+        executable: None
         for it in (os.environ.get("PATH") or "").split(os.pathsep)
-        for file in _files_in(Path(it))
+        for file in sorted(_files_in(Path(it)))
         if (executable := _as_python_executeable(file))}
 
 
-- 
2.43.0


From 657067f07d9d877139d3a5de358bccda584b242d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:03:55 +0000
Subject: [PATCH 148/153] fix: executables that cannot be accessed are ignored

---
 pkm/src/pkm/api/environments/installed_pythons_locator.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkm/src/pkm/api/environments/installed_pythons_locator.py b/pkm/src/pkm/api/environments/installed_pythons_locator.py
index f6b6c73..2aecb80 100644
--- a/pkm/src/pkm/api/environments/installed_pythons_locator.py
+++ b/pkm/src/pkm/api/environments/installed_pythons_locator.py
@@ -89,11 +89,11 @@ _PYTHON_EXEC_RX = re.compile(r"python-?[\d.]*(.exe)?")
 
 
 def _as_python_executeable(file: Path) -> Optional[Path]:
-    if (not file.is_dir()) and _PYTHON_EXEC_RX.fullmatch(file.name.lower()) and is_executable(file):
-        try:
+    try:
+        if (not file.is_dir()) and _PYTHON_EXEC_RX.fullmatch(file.name.lower()) and is_executable(file):
             return file.resolve()
-        except:  # noqa
-            pass
+    except:  # noqa
+        pass
     return None
 
 
-- 
2.43.0


From d51b012beeda597b9af205ccd58b7dcfe2c733a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:33 +0000
Subject: [PATCH 149/153] fix: branches of git dependencies are updated

---
 pkm/src/pkm/repositories/git_repository.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/pkm/src/pkm/repositories/git_repository.py b/pkm/src/pkm/repositories/git_repository.py
index 18e32f3..9f5462f 100644
--- a/pkm/src/pkm/repositories/git_repository.py
+++ b/pkm/src/pkm/repositories/git_repository.py
@@ -21,6 +21,9 @@ if TYPE_CHECKING:
     from pkm.api.environments.environment import Environment
 
 
+_BRANCH_PREFIX = 'ref: refs/heads/'
+
+
 # noinspection PyMethodMayBeStatic
 class _Git:
     def __init__(self):
@@ -31,20 +34,22 @@ class _Git:
     def is_valid_git_dir(self, dir_: Path) -> bool:
         return (dir_ / '.git').exists()
 
-    def _is_detached(self, dir_: Path):
+    def _branch_of(self, dir_: Path) -> Optional[str]:
         """
         :param dir_: the cloned repository directory to look at
-        :return: True if the repository directory is in a detached head state, False if it in a branch
+        :return: the branch that the repository directory is in, None if it is in a detached head state
         """
-        head = (dir_ / '.git/HEAD').read_text()
-        return not (dir_ / '.git/heads' / head).exists()
+        head = (dir_ / '.git/HEAD').read_text().strip()
+        return head[len(_BRANCH_PREFIX):] if head.startswith(_BRANCH_PREFIX) else None
 
     def update(self, package_name: str, repo_dir: Path):
-        if self._is_detached(repo_dir):
+        if not (branch := self._branch_of(repo_dir)):
             return
 
-        monitored_run(
-            f'fetch {package_name}', [self._git_cmd, 'pull'], cwd=str(repo_dir)).check_returncode()
+        # the history of the branch may have changed, it cannot be pulled then
+        for args in (['fetch', 'origin', f'refs/heads/{branch}'], ['reset', '--hard', 'FETCH_HEAD']):
+            monitored_run(
+                f'fetch {package_name}', [self._git_cmd, *args], cwd=str(repo_dir)).check_returncode()
 
     def clone(self, package_name: str, repository_url: str, branch_or_commit: Optional[str], target_dir: Path):
         # TODO: the monitoring should probably run as part of a larger "match" monitored operation
-- 
2.43.0


From 11cf4a604e378650648d649c07610f0c6c84f2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:33 +0000
Subject: [PATCH 150/153] fix: clones of the references of a git repository are
 not inside of each other

---
 pkm/src/pkm/repositories/git_repository.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pkm/src/pkm/repositories/git_repository.py b/pkm/src/pkm/repositories/git_repository.py
index 9f5462f..b4b6915 100644
--- a/pkm/src/pkm/repositories/git_repository.py
+++ b/pkm/src/pkm/repositories/git_repository.py
@@ -1,4 +1,5 @@
 import shutil
+from hashlib import sha256
 from pathlib import Path
 from typing import List, Optional, cast, TYPE_CHECKING, Iterable
 
@@ -94,9 +95,9 @@ class GitRepository(AbstractRepository):
         else:
             raise ValueError(f"malformed git url: {url}")
 
-        target_dir = self._workspace / dependency.package_name / url.host / url.path.lstrip('/')
-        if branch:
-            target_dir /= branch
+        # clones must not be inside of each other
+        clone_id = sha256(f"{url}\n{branch or ''}".encode()).hexdigest()
+        target_dir = self._workspace / dependency.package_name_key / clone_id
 
         if target_dir.exists():
             self._git_client.update(dependency.package_name, target_dir)
-- 
2.43.0


From fcbb437fe8c05c77644b2398ccd19e5b17925c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:33 +0000
Subject: [PATCH 151/153] fix: git urls with user names and fragments

---
 pkm/src/pkm/repositories/git_repository.py | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/pkm/src/pkm/repositories/git_repository.py b/pkm/src/pkm/repositories/git_repository.py
index b4b6915..46d4294 100644
--- a/pkm/src/pkm/repositories/git_repository.py
+++ b/pkm/src/pkm/repositories/git_repository.py
@@ -12,7 +12,6 @@ from pkm.api.projects.project_group import ProjectGroup
 from pkm.api.repositories.repository import AbstractRepository
 from pkm.api.versions.version import NamedVersion
 from pkm.utils.commons import NoSuchElementException
-from pkm.utils.http.http_client import Url
 from pkm.utils.types import Serializable
 from pkm.utils.iterators import single_or_raise
 from pkm.utils.processes import monitored_run
@@ -86,14 +85,10 @@ class GitRepository(AbstractRepository):
         if not (version := dependency.required_url()) or version.protocol != 'git':
             return []
 
-        parts = version.url.split("@")
-        url = Url.parse(parts[0])
-        if (sz := len(parts)) == 1:
-            branch = None
-        elif sz == 2:
-            branch = parts[1]
-        else:
-            raise ValueError(f"malformed git url: {url}")
+        scheme, _, location = version.url.partition("#")[0].partition("://")
+        host, _, path = location.partition("/")  # the host may contain a user name
+        path, _, branch = path.rpartition("@") if "@" in path else (path, "", None)
+        url = f"{scheme}://{host}/{path}"
 
         # clones must not be inside of each other
         clone_id = sha256(f"{url}\n{branch or ''}".encode()).hexdigest()
@@ -102,7 +97,7 @@ class GitRepository(AbstractRepository):
         if target_dir.exists():
             self._git_client.update(dependency.package_name, target_dir)
         else:
-            self._git_client.clone(dependency.package_name, str(url), branch, target_dir)
+            self._git_client.clone(dependency.package_name, url, branch, target_dir)
 
         desc = PackageDescriptor(dependency.package_name, version)
 
-- 
2.43.0


From 49a6cedbbcf942d9367b5c03ce4e942f346c1ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:33 +0000
Subject: [PATCH 152/153] fix: packages in the project group of a git
 repository

---
 pkm/src/pkm/repositories/git_repository.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/pkm/src/pkm/repositories/git_repository.py b/pkm/src/pkm/repositories/git_repository.py
index 46d4294..ab64a0e 100644
--- a/pkm/src/pkm/repositories/git_repository.py
+++ b/pkm/src/pkm/repositories/git_repository.py
@@ -1,7 +1,7 @@
 import shutil
 from hashlib import sha256
 from pathlib import Path
-from typing import List, Optional, cast, TYPE_CHECKING, Iterable
+from typing import List, Optional, TYPE_CHECKING, Iterable
 
 from pkm.api.dependencies.dependency import Dependency
 from pkm.api.packages.package_installation_info import StoreMode
@@ -10,7 +10,6 @@ from pkm.api.packages.package_installation import PackageInstallationTarget
 from pkm.api.projects.project import Project
 from pkm.api.projects.project_group import ProjectGroup
 from pkm.api.repositories.repository import AbstractRepository
-from pkm.api.versions.version import NamedVersion
 from pkm.utils.commons import NoSuchElementException
 from pkm.utils.types import Serializable
 from pkm.utils.iterators import single_or_raise
@@ -103,8 +102,7 @@ class GitRepository(AbstractRepository):
 
         if ProjectGroup.is_valid(target_dir):
             project = single_or_raise(p for p in ProjectGroup.load(target_dir).project_children_recursive
-                                      if p.name == dependency.package_name)
-            project.bump_version('name', cast(NamedVersion, desc.version).name, save=False)
+                                      if p.name_key == dependency.package_name_key)
         else:
             project = Project.load(target_dir, package=desc)
 
-- 
2.43.0


From 360546055c5ecc329a4ab4c27cd8db2c6de89606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:08:33 +0000
Subject: [PATCH 153/153] fix: interrupted clones of git repositories are not
 used

---
 pkm/src/pkm/repositories/git_repository.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/pkm/src/pkm/repositories/git_repository.py b/pkm/src/pkm/repositories/git_repository.py
index ab64a0e..54fb363 100644
--- a/pkm/src/pkm/repositories/git_repository.py
+++ b/pkm/src/pkm/repositories/git_repository.py
@@ -1,6 +1,7 @@
 import shutil
 from hashlib import sha256
 from pathlib import Path
+from tempfile import mkdtemp
 from typing import List, Optional, TYPE_CHECKING, Iterable
 
 from pkm.api.dependencies.dependency import Dependency
@@ -11,6 +12,7 @@ from pkm.api.projects.project import Project
 from pkm.api.projects.project_group import ProjectGroup
 from pkm.api.repositories.repository import AbstractRepository
 from pkm.utils.commons import NoSuchElementException
+from pkm.utils.files import mkdir
 from pkm.utils.types import Serializable
 from pkm.utils.iterators import single_or_raise
 from pkm.utils.processes import monitored_run
@@ -53,17 +55,22 @@ class _Git:
     def clone(self, package_name: str, repository_url: str, branch_or_commit: Optional[str], target_dir: Path):
         # TODO: the monitoring should probably run as part of a larger "match" monitored operation
 
+        # only complete clones are at the target directory, also if this process ends while it is cloned
+        tmp_dir = Path(mkdtemp(dir=mkdir(target_dir.parent)))
+        clone_dir = tmp_dir / 'clone'
+
         try:
             monitored_run(
-                f'fetch {package_name}', [self._git_cmd, 'clone', repository_url, str(target_dir)]).check_returncode()
+                f'fetch {package_name}', [self._git_cmd, 'clone', repository_url, str(clone_dir)]).check_returncode()
 
             if branch_or_commit:
                 monitored_run(
-                    f'fetch {package_name}', [self._git_cmd, 'checkout', branch_or_commit],
-                    cwd=str(target_dir)).check_returncode()
-        except Exception:
-            shutil.rmtree(target_dir, ignore_errors=True)
-            raise
+                    f'fetch {package_name}', [self._git_cmd, 'checkout', branch_or_commit, '--'],
+                    cwd=str(clone_dir)).check_returncode()
+
+            clone_dir.rename(target_dir)
+        finally:
+            shutil.rmtree(tmp_dir, ignore_errors=True)
 
 
 class GitRepository(AbstractRepository):
-- 
2.43.0

