From e1e6e1b1d6961f856ec460dc6f0cb11b7e440296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:22 +0000
Subject: [PATCH 01/39] fix: split only treats BagIt's own files at the bag
 root as special

Payload and tag files that merely share a basename with (or resemble) a BagIt
special file were silently left out of the split.
---
 multibag/access/extended.py | 9 +++++----
 multibag/split.py           | 4 ++--
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/multibag/access/extended.py b/multibag/access/extended.py
index e9f27b7..94785fd 100644
--- a/multibag/access/extended.py
+++ b/multibag/access/extended.py
@@ -159,16 +159,17 @@ class ExtendedReadMixin(object):
         in output multibags).
         """
         special = [re.compile(r) for r in
-                       r"^bagit.txt$ ^bag-info.txt$ ^fetch.txt$".split() +
-                       r"^(tag)?manifest-(\w+).txt$".split()]
+                       r"^bagit\.txt$ ^bag-info\.txt$ ^fetch\.txt$".split() +
+                       r"^(tag)?manifest-(\w+)\.txt$".split()]
 
         for dir, subdirs, files in self.walk():
             if len(subdirs) == 0 and len(files) == 0:
                 # spit out a directory if it is empty
                 yield dir
             for file in files:
-                # don't spit out a file is it's one of the special ones
-                if not any([bool(spf.match(file)) for spf in special]):
+                # don't spit out a file is it's one of the special ones (which
+                # only exist directly below the bag's root directory)
+                if dir or not any([bool(spf.match(file)) for spf in special]):
                     yield os.path.join(dir, file)
 
     def _load_bag_info(self):
diff --git a/multibag/split.py b/multibag/split.py
index e8ac308..c52e54f 100644
--- a/multibag/split.py
+++ b/multibag/split.py
@@ -602,8 +602,8 @@ class WellPackedSplitter(Splitter):
         }
         
     _special = [re.compile(r) for r in
-                       r"^/bagit.txt$ ^/bag-info.txt$ ^/fetch.txt$".split() +
-                       r"^/(tag)?manifest-(\w+).txt$".split()]
+                       r"^/bagit\.txt$ ^/bag-info\.txt$ ^/fetch\.txt$".split() +
+                       r"^/(tag)?manifest-(\w+)\.txt$".split()]
     def _is_special(self, filename):
         for r in self._special:
             if r.match(filename):
-- 
2.43.0


From 18f3337e19dfe213057f091b4a969a3fef3dbdbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:22 +0000
Subject: [PATCH 02/39] fix: SplitPlan accepts the path to a serialized bag as
 documented

---
 multibag/split.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/multibag/split.py b/multibag/split.py
index c52e54f..c83c6a1 100644
--- a/multibag/split.py
+++ b/multibag/split.py
@@ -9,7 +9,7 @@ from copy import deepcopy
 from functools import cmp_to_key
 
 from .constants import CURRENT_VERSION as MBAG_VERSION, DEF_ENC
-from .access.bagit import Bag, ReadOnlyBag
+from .access.bagit import Bag, ReadOnlyBag, open_bag
 from .access.multibag import as_headbag, MissingMultibagFileError
 from .access.extended import as_extended, ExtendedReadMixin as ProgenitorMixin
 from bagit import _parse_tags
@@ -65,7 +65,7 @@ class SplitPlan(object):
         """
         if isinstance(source, (str, _unicode)):
             if os.path.isfile(source):
-                source = ReadOnlyBag(source)
+                source = open_bag(source)
             else:
                 # so that we can replicate with hard links when possible
                 source = Bag(source)
-- 
2.43.0


From 3f308386fc08797ff2b4e86ca6f73c547aab9455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:22 +0000
Subject: [PATCH 03/39] fix: split a source bag that has no bag-info.txt

bag-info.txt is optional in BagIt; splitting such a bag failed while writing the
head bag.
---
 multibag/split.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/multibag/split.py b/multibag/split.py
index c83c6a1..586976c 100644
--- a/multibag/split.py
+++ b/multibag/split.py
@@ -389,11 +389,12 @@ class SplitPlan(object):
                              'w', encoding=DEF_ENC) as fd:
                     for f in filedest:
                         fd.write(u"%s\t%s\n" % (f, filedest[f]))
-                with io.open(os.path.join(mbagdir, "aggregation-info.txt"),
-                             'w', encoding=DEF_ENC) as fd:
-                    with self.progenitor.open_text_file("bag-info.txt") as ifd:
-                        for f in ifd:
-                            fd.write(f)
+                if self.progenitor.isfile("bag-info.txt"):
+                    with io.open(os.path.join(mbagdir, "aggregation-info.txt"),
+                                 'w', encoding=DEF_ENC) as fd:
+                        with self.progenitor.open_text_file("bag-info.txt") as ifd:
+                            for f in ifd:
+                                fd.write(f)
                 
 
             yield bagdir
-- 
2.43.0


From 5da95e715313db193361c1d2071b046c326faa4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:22 +0000
Subject: [PATCH 04/39] fix: splitter's forhead list is honored and the
 caller's list not modified

The normalization was applied to the caller's list instead of the splitter's own,
so files were never reserved for the head bag.
---
 multibag/split.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/multibag/split.py b/multibag/split.py
index 586976c..23d214c 100644
--- a/multibag/split.py
+++ b/multibag/split.py
@@ -537,9 +537,9 @@ class WellPackedSplitter(Splitter):
         if forhead is None:
             forhead = []
         self.forhead = list(forhead)
-        for i in range(len(forhead)):
-            if not forhead[i].startswith('/'):
-                forhead[i] = '/'+forhead[i]
+        for i in range(len(self.forhead)):
+            if not self.forhead[i].startswith('/'):
+                self.forhead[i] = '/'+self.forhead[i]
                 
 
     def _create_plan(self, bagpath):
-- 
2.43.0


From dc990a17fe49d8a90264a73bcfe02826d163ed0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:22 +0000
Subject: [PATCH 05/39] fix: naming iterators work with Python 3 and when
 initially empty

---
 multibag/split.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/multibag/split.py b/multibag/split.py
index 23d214c..16cb45f 100644
--- a/multibag/split.py
+++ b/multibag/split.py
@@ -158,6 +158,7 @@ class SplitPlan(object):
         use = self._manifests
         if reverse:
             use = reversed(use)
+        name = None
         try:
             for m in use:
                 name = next(naming_iter)
@@ -261,7 +262,7 @@ class SplitPlan(object):
             bagname = m.get('name')
             if naming_iter:
                 try:
-                    bagname = naming_iter.next()
+                    bagname = next(naming_iter)
                 except StopIteration as ex:
                     if logger and not m.get('ishead'):
                         logger.warn("naming iterator ran out of names before "+
-- 
2.43.0


From 8fb6b83f3f79929dc587be0626e637c49c3ec704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:42:18 +0000
Subject: [PATCH 06/39] fix: versions given as text and as tuples can be
 compared with each other

---
 multibag/constants.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/multibag/constants.py b/multibag/constants.py
index 2b7994f..cf1188e 100644
--- a/multibag/constants.py
+++ b/multibag/constants.py
@@ -44,12 +44,12 @@ class Version(object):
     def __eq__(self, other):
         if not isinstance(other, Version):
             other = Version(other)
-        return self.fields == other.fields
+        return tuple(self.fields) == tuple(other.fields)
 
     def __lt__(self, other):
         if not isinstance(other, Version):
             other = Version(other)
-        return self.fields < other.fields
+        return tuple(self.fields) < tuple(other.fields)
 
     def __le__(self, other):
         if not isinstance(other, Version):
-- 
2.43.0


From 465f96d37b8e91abf0ffa0eb9fd7ec84fdd978fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:43:32 +0000
Subject: [PATCH 07/39] fix: split sets Multibag-Tag-Directory only in the head
 bag

The profile reserves this element for head bags.
---
 multibag/split.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multibag/split.py b/multibag/split.py
index 16cb45f..f43ad4b 100644
--- a/multibag/split.py
+++ b/multibag/split.py
@@ -363,9 +363,9 @@ class SplitPlan(object):
 
                     _write_item(fd, name, vals)
 
-                _write_item(fd, "Multibag-Tag-Directory", "multibag")
                 if m.get('ishead'):
                     # this is the head bag!
+                    _write_item(fd, "Multibag-Tag-Directory", "multibag")
                     _write_item(fd, "Multibag-Head-Version", self.head_version)
                     if self._deprecates:
                         name = "Multibag-Head-Deprecates"
-- 
2.43.0


From 79e3270caccdc3a5c7de6d43da7d2a0f9fe41ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:54:17 +0000
Subject: [PATCH 08/39] fix: restore merges manifests and fetch lists, drops
 deleted files, and honors the tag directory

Manifests and fetch.txt were copied verbatim from the first bag that had
them: mixed checksum algorithms raised KeyError, fetch.txt lines were keyed
on the wrong column, the head bag's fetch.txt was dropped, deleted paths kept
their manifest and fetch entries, and files deleted from the head bag itself
survived an in-place restoration.  A non-default tag directory was ignored
and the default member cache was left in the restored bag.
---
 multibag/restore.py | 153 +++++++++++++++++++++++++++-----------------
 1 file changed, 93 insertions(+), 60 deletions(-)

diff --git a/multibag/restore.py b/multibag/restore.py
index 0abd844..df08d29 100644
--- a/multibag/restore.py
+++ b/multibag/restore.py
@@ -23,6 +23,8 @@ else:
     FileNotFoundError = _FileNotFoundError 
 
 serialized_extensions = set(_ext_fs_lookup.keys())
+_def_cache = os.path.join("multibag", "_membercache")
+_merged_re = re.compile(r"^(fetch|(tag)?manifest-\w+)\.txt$")
 
 class BagRestorer(object):
     """
@@ -91,7 +93,7 @@ class BagRestorer(object):
         if not compdir:
             if self._fetcher:
                 # set a default cached directory inside the target destination bag
-                compdir = os.path.join(self._destdir, "multibag", "_membercache")
+                compdir = os.path.join(self._destdir, _def_cache)
             else:
                 compdir = os.path.dirname(os.path.abspath(self._head.path))
         self._cachedir = compdir
@@ -163,13 +165,22 @@ class BagRestorer(object):
         self._restore_from(src, skip, overwrite)
 
         if fetch is not None:
-            membag = open_bag(src)
-            if membag.isfile("fetch.txt"):
-                with membag.open_text_file("fetch.txt") as fd:
-                    for line in fd:
-                        filen = line.strip().rsplit(None, 1)[0]
-                        if filen not in fetch:
-                            fetch[filen] = line
+            fetch.update((p, ln) for p, ln in self._read_fetch(open_bag(src)).items() if p not in fetch)
+
+    def _read_fetch(self, bag):
+        # return the lines of a bag's fetch.txt file, keyed by the path to the file to be fetched
+        out = OrderedDict()
+        if bag.isfile("fetch.txt"):
+            with bag.open_text_file("fetch.txt") as fd:
+                for line in fd:
+                    parts = line.strip().split(None, 2)
+                    if len(parts) > 2:
+                        out[parts[2]] = line.strip() + u"\n"
+        return out
+
+    def _is_deleted(self, path, skip):
+        # return True if the path or one of its parent directories is listed in skip
+        return path in skip or any(path.startswith(f+'/') for f in skip)
 
     def _restore_from(self, srcbag, skip=None, overwrite=False):
         if os.path.abspath(srcbag) == self._destdir:
@@ -192,6 +203,9 @@ class BagRestorer(object):
             for f in files:
                 if os.path.join(root, f) in skip:
                     continue
+                if not root and _merged_re.match(f):
+                    # these are not copied but merged (see _update_manifests(), restore_fetch())
+                    continue
                 destf = os.path.join(self._destdir, root, f)
                 if overwrite and os.path.exists(destf):
                     os.remove(destf)
@@ -221,44 +235,43 @@ class BagRestorer(object):
             if rmtime:
                 os.utime(os.path.join(self._destdir, root), (time.time(), rmtime))
 
-        if updated:
-            self._update_manifests(srcbag, updated)
+        self._update_manifests(srcbag, updated, skip)
 
-    def _update_manifests(self, srcbag, updated):
+    def _update_manifests(self, srcbag, updated, skip=()):
         destbag = open_bag(self._destdir)
-
-        updated_by_alg = OrderedDict()
-        for path in updated:
-            if path in srcbag.entries:
-                for alg in srcbag.entries[path]:
-                    if alg not in updated_by_alg:
-                        updated_by_alg[alg] = OrderedDict()
-                    updated_by_alg[alg][path] = srcbag.entries[path][alg]
-                
-        for path in destbag.entries:
-            for alg in updated_by_alg:
-                if path not in updated_by_alg[alg]:
-                    updated_by_alg[alg][path] = destbag.entries[path][alg]
-
-        for alg in updated_by_alg:
-            files = [f for f in updated_by_alg[alg].keys() if f.startswith("data/")]
-            if len(files) > 0:
-                mfp = os.path.join(self._destdir, "manifest-%s.txt" % alg)
-                with io.open(mfp, 'w', encoding=DEF_ENC) as fd:
-                    for f in files:
-                        fd.write("%s %s\n" % (updated_by_alg[alg][f], f))
-
-            files = [f for f in updated_by_alg[alg].keys() if not f.startswith("data/")]
-            if len(files) > 0:
-                mfp = os.path.join(self._destdir, "tagmanifest-%s.txt" % alg)
-                with io.open(mfp, 'w', encoding=DEF_ENC) as fd:
-                    for f in files:
-                        fd.write("%s %s\n" % (updated_by_alg[alg][f], f))
-
+        updated = set(p.lstrip('/') for p in updated)
+
+        # start with what was previously restored, except for what has just been updated
+        entries = OrderedDict(p for p in destbag.entries.items()
+                              if p[0] not in updated and not self._is_deleted(p[0], skip))
+
+        # add what came from the source bag, including the payload files it does not contain but 
+        # lists in its fetch.txt 
+        for path in srcbag.entries:
+            if path in updated or (path.startswith("data/") and path not in entries and
+                                   not srcbag.isfile(path) and not self._is_deleted(path, skip)):
+                entries[path] = srcbag.entries[path]
+
+        for bag in (destbag, srcbag):
+            for mfile in bag.manifest_files():
+                self._write_manifest(os.path.basename(mfile), entries)
+            for mfile in bag.tagmanifest_files():
+                self._write_manifest(os.path.basename(mfile), entries)
+
+    def _write_manifest(self, mfile, entries):
+        ispayload = mfile.startswith("manifest-")
+        alg = mfile[:-len(".txt")].split("-", 1)[1]
+        with io.open(os.path.join(self._destdir, mfile), 'w', encoding=DEF_ENC) as fd:
+            for path in entries:
+                if path.startswith("data/") == ispayload and alg in entries[path]:
+                    fd.write(u"%s %s\n" % (entries[path][alg], path))
         
-    def restore_fetch(self, members=None):
+    def restore_fetch(self, members=None, skip=()):
         """
         restore the fetch file to the output bag.  
+        :param list members:  the descriptions of the member bags to draw from, in the order that 
+                              they should be combined; if not provided, all members are included.
+        :param skip:          a list of paths to leave out (because they've been marked as deleted)
         """
         if not os.path.exists(self._destdir):
             self._create_dest_bag()
@@ -267,19 +280,18 @@ class BagRestorer(object):
             members = list(self._head.member_bags())
         fetch = OrderedDict()
         for member in members:
-            src = self.get_member_bag(member.name)
-            bag = open_bag(src)
-            if bag.isfile("fetch.txt"):
-                with bag.open_text_file("fetch.txt") as fd:
-                    for line in fd:
-                        parts = line.strip().rsplit(None, 1)
-                        if len(parts) > 1 and parts[1]:
-                            fetch[parts[1]] = line
+            src = self._head.path
+            if member.name != self._head.name:
+                src = self.get_member_bag(member.name)
+            fetch.update(self._read_fetch(open_bag(src)))
+
+        fetch = [fetch[f] for f in fetch if not self._is_deleted(f, skip)]
+        fp = os.path.join(self._destdir, "fetch.txt")
         if fetch:
-            fp = os.path.join(self._destdir, "fetch.txt")
             with io.open(fp, 'w', encoding=DEF_ENC) as fd:
-                for f in fetch:
-                    fd.write(fetch[f])
+                fd.writelines(fetch)
+        elif os.path.exists(fp):
+            os.remove(fp)
 
     def restore(self, update_sizes=True, remove_multibag_tags=True):
         """
@@ -288,17 +300,20 @@ class BagRestorer(object):
         """
         skip = self._head.deleted_paths()
         members = list(reversed(self._head.member_bags()))
+        tagdir = self._head.multibag_tag_dir
         if not os.path.exists(self._destdir):
             self._create_dest_bag()
 
-        if self._head.isfile("multibag/aggregation-info.txt"):
-            with self._head.open_text_file("multibag/aggregation-info.txt") as fd:
+        if self._head.isfile(tagdir+"/aggregation-info.txt"):
+            with self._head.open_text_file(tagdir+"/aggregation-info.txt") as fd:
                 content = fd.read()
             bif = os.path.join(self._destdir, "bag-info.txt")
             with io.open(bif, 'w', encoding=DEF_ENC) as fd:
                 fd.write(content)
                     
-        if not self._inplace:
+        if self._inplace:
+            self._remove_deleted(skip)
+        else:
             self._restore_from(self._head.path, skip)
         if members and members[0].name == self._head.name:
             members.pop(0)
@@ -307,25 +322,43 @@ class BagRestorer(object):
             self.restore_member(member.name, skip)
 
         # now build the fetch.txt file if any found
-        if members:  # skipping head bag
-            self.restore_fetch(members)
+        self.restore_fetch(skip=skip)
 
         restoredbag = as_extended(Bag(self._destdir))
         if remove_multibag_tags:
-            shutil.rmtree(os.path.join(self._destdir, "multibag"))
+            shutil.rmtree(os.path.join(self._destdir, tagdir))
             mbkeys = "Multibag-Version Multibag-Reference Multibag-Tag-Directory".split()
             mbkeys += "Multibag-Head-Version Multibag-Head-Deprecates".split()
             mbkeys = [k for k in mbkeys if k in restoredbag.info]
             for key in mbkeys:
                 del restoredbag.info[key]
-            restoredbag.save()
+        if os.path.isdir(os.path.join(self._destdir, _def_cache)):
+            # the cached member bags are not part of the restored bag
+            shutil.rmtree(os.path.join(self._destdir, _def_cache))
+            if not os.listdir(os.path.join(self._destdir, "multibag")):
+                os.rmdir(os.path.join(self._destdir, "multibag"))
+        if not os.path.isdir(os.path.join(self._destdir, "data")):
+            # everything in it has been deleted
+            os.mkdir(os.path.join(self._destdir, "data"))
+        restoredbag.save()
             
         if update_sizes:
             restoredbag.update_oxum()
             restoredbag.save()
             restoredbag.update_bag_size()
             restoredbag.save()
-            
+
+    def _remove_deleted(self, skip):
+        # remove the deleted files from a bag being restored in-place
+        for path in skip:
+            target = os.path.normpath(os.path.join(self._destdir, path))
+            if not target.startswith(self._destdir+os.sep):
+                continue
+            if os.path.isdir(target):
+                shutil.rmtree(target)
+            elif os.path.isfile(target):
+                os.remove(target)
+        self._update_manifests(open_bag(self._destdir), [], skip)
 
 def restore_bag(headbag, destbag=None, compdir=None, fetcher=None):
     """
-- 
2.43.0


From d212a4d8612f0ae6a942cb58ffe42b4796946305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:00 +0000
Subject: [PATCH 09/39] fix: member-bags.tsv and file-lookup.tsv lines are
 written and parsed as the profile says

MemberInfo.format() raised NameError when there were extra fields and shifted
them into the URL column when there was no URL; spaces around TABs became part
of the names; an empty URL came back as ''; a comment was cut at a TAB or lost
its own leading '#'; lines with an empty first column were accepted.
---
 multibag/access/multibag.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/multibag/access/multibag.py b/multibag/access/multibag.py
index 064160b..752b681 100644
--- a/multibag/access/multibag.py
+++ b/multibag/access/multibag.py
@@ -53,10 +53,10 @@ class MemberInfo(object):
         The output will contain a trailing newline character.
         """
         out = self.name
-        if self.uri:
-            out += "\t"+self.uri
+        if self.uri or self.info:
+            out += "\t"+(self.uri or "")
         if self.info:
-            out += "\t"+"\t".join(info)
+            out += "\t"+"\t".join(self.info)
         if self.comment:
             out += "\t# " + self.comment
         out += "\n"
@@ -68,18 +68,22 @@ class MemberInfo(object):
         parse a line from a member-bags.tsv file according to the multibag
         profile version 0.4, returning a MemberInfo object
         """
-        fields = line.strip().split('\t')
-        if len(fields) < 1 or not fields[0]:
+        fields = line.rstrip().split('\t')
+        if len(fields) < 1 or not fields[0].strip():
             raise MultibagError("Multibag syntax error in member-bags.tsv: "+
                                 "missing fields: " + line.strip())
-        name = fields.pop(0)
+        name = fields.pop(0).strip()
         comm = None
         uri = None
+        for i in range(len(fields)):
+            # a comment extends to the end of the line
+            if fields[i].startswith('# ') or \
+               (i == len(fields)-1 and fields[i].startswith('#')):
+                comm = '\t'.join(fields[i:])[1:].strip()
+                fields = fields[:i]
+                break
         if len(fields) > 0:
-            if fields[-1].startswith('#'):
-                comm = fields.pop(-1).lstrip('#').strip()
-        if len(fields) > 0:
-            uri = fields.pop(0)
+            uri = fields.pop(0).strip() or None
         
         return MemberInfo(name, uri, comm, *fields)
 
@@ -109,8 +113,8 @@ def parse_file_lookup_line_03(line):
     :rtype:  a 2-tuple containing the bag file path and the name of the 
              bag containing that file.  
     """
-    out = line.strip().split('\t')
-    if len(out) < 2:
+    out = [f.strip() for f in line.split('\t')]
+    if len(out) < 2 or not out[0] or not out[1]:
         raise MultibagError("Multibag syntax error in file-lookup.tsv: "+
                             "missing bagname field: " + line.strip())
     return (out[0], out[1])
-- 
2.43.0


From f2cdf479428146764d69807665d0cd73664e9944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:06 +0000
Subject: [PATCH 10/39] fix: head bag edits no longer lose stored or unsaved
 data

set_deleted(), unset_deleted() and remove_member_bag() did not load the stored
data first (missing call parentheses) and so dropped it on save; re-reading kept
unsaved edits if the tag file did not exist; an emptied deleted list left an empty
deleted.txt behind; a nested tag directory could not be created; members of a
pre-0.3 head bag vanished when its profile version was updated.
---
 multibag/access/multibag.py | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/multibag/access/multibag.py b/multibag/access/multibag.py
index 752b681..11ea30b 100644
--- a/multibag/access/multibag.py
+++ b/multibag/access/multibag.py
@@ -209,7 +209,7 @@ class HeadBagReadMixin(ExtendedReadMixin):
         opens the file anew and returns the contents via an iterator that returns
         MemberInfo instances.
         """
-        mbdir = self.info.get('Multibag-Tag-Directory', 'multibag')
+        mbdir = self.multibag_tag_dir
         vers = Version(self.profile_version)
         membagfile = (vers < "0.3" and "group-members.txt") \
                       or "member-bags.tsv"
@@ -249,7 +249,7 @@ class HeadBagReadMixin(ExtendedReadMixin):
         """
         iterate through the contents of the multibag/file-lookup.tsv
         """
-        mbdir = self.info.get('Multibag-Tag-Directory', 'multibag')
+        mbdir = self.multibag_tag_dir
         vers = Version(self.profile_version)
         membagfile = (vers < "0.3" and "group-directory.txt") \
                       or "file-lookup.tsv"
@@ -382,6 +382,7 @@ class HeadBagUpdateMixin(HeadBagReadMixin):
         try:
             return super(HeadBagUpdateMixin, self).member_bags(reread)
         except MissingMultibagFileError:
+            self._memberbags = None
             return []
 
     def add_member_bag(self, name, uri=None, comment=None, info=None,
@@ -428,7 +429,7 @@ class HeadBagUpdateMixin(HeadBagReadMixin):
         """
         mbdir = os.path.join(self._bagdir, self.multibag_tag_dir)
         if not os.path.exists(mbdir):
-            os.mkdir(mbdir)
+            os.makedirs(mbdir)
 
     def save_member_bags(self):
         """
@@ -459,6 +460,7 @@ class HeadBagUpdateMixin(HeadBagReadMixin):
         try:
             return super(HeadBagUpdateMixin, self).lookup_file(filepath, reread)
         except MissingMultibagFileError:
+            self._filelu = None
             return None
 
     def add_file_lookup(self, filepath, bagname):
@@ -513,7 +515,7 @@ class HeadBagUpdateMixin(HeadBagReadMixin):
         subsequently called; they are not called internally by this method.
         """
         if self._memberbags is None:
-            self.member_bags
+            self.member_bags()
 
         if self._memberbags:
             idxs = [i for i in range(len(self._memberbags))
@@ -652,7 +654,7 @@ class HeadBagUpdateMixin(HeadBagReadMixin):
                               regardless of the platform.
         """
         if self._deleted is None:
-            self.deleted_paths
+            self.deleted_paths()
         if self._deleted is None:
             self._deleted = set()
         self._deleted.add(filepath)
@@ -668,7 +670,7 @@ class HeadBagUpdateMixin(HeadBagReadMixin):
                               regardless of the platform.
         """
         if self._deleted is None:
-            self.deleted_paths
+            self.deleted_paths()
         if self._deleted is None:
             self._deleted = set()
         if filepath in self._deleted:
@@ -685,8 +687,10 @@ class HeadBagUpdateMixin(HeadBagReadMixin):
         
         tagfile = os.path.join(self._bagdir, self.multibag_tag_dir,
                                'deleted.txt')
-        if not self._deleted and os.path.exists(tagfile):
-            os.remove(tagfile)
+        if not self._deleted:
+            if os.path.exists(tagfile):
+                os.remove(tagfile)
+            return
 
         self.ensure_tagdir()
         with io.open(tagfile, 'w', encoding=DEF_ENC) as fd:
@@ -705,6 +709,14 @@ class HeadBagUpdateMixin(HeadBagReadMixin):
         if version:
             self.info['Multibag-Head-Version'] = version
 
+        if Version(self.profile_version) < "0.3" and not Version(profver) < "0.3":
+            # convert the tag files to the format of the new version
+            if self._memberbags is None:
+                self.member_bags()
+            if self._filelu is None:
+                self.lookup_file("data")
+            self.save_member_bags()
+            self.save_file_lookup()
         self.info['Multibag-Version'] = profver
         self.info.setdefault('Multibag-Tag-Directory', 'multibag')
         self.info.setdefault('Multibag-Head-Version', '1')
-- 
2.43.0


From b619fb6c4ec5b719bd5cd51e125da4fbecf8e748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:27 +0000
Subject: [PATCH 11/39] fix: lookup exclusions work as single strings, for
 nested directories and read-only bags

---
 multibag/access/multibag.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/multibag/access/multibag.py b/multibag/access/multibag.py
index 11ea30b..d8e60b8 100644
--- a/multibag/access/multibag.py
+++ b/multibag/access/multibag.py
@@ -3,7 +3,7 @@ This module provides access to the informational content of a multibag
 aggregation.  In particular, it provides the read-only HeadBag class.
 """
 from __future__ import absolute_import
-import re, os, sys, io
+import re, os, sys, io, posixpath
 from collections import OrderedDict
 
 from .bagit import Bag, ReadOnlyBag, open_bag
@@ -585,12 +585,17 @@ class HeadBagUpdateMixin(HeadBagReadMixin):
         if exclude is None:
             exclude = []
         elif isinstance(exclude, (str,_unicode)):
-            include = [exclude]
+            exclude = [exclude]
         elif not isinstance(exclude, list):
             raise TypeError("update_for_member(): exclude not a list: "+
                             str(exclude))
 
+        exclude = [posixpath.normpath(e) for e in exclude]
+        def excluded(path):
+            return any(path == e or path.startswith(e+'/') for e in exclude)
+
         for incl in include:
+            incl = posixpath.normpath(incl)
             # skip this include item if it explicitly excluded
             if incl in exclude:
                 continue
@@ -599,14 +604,10 @@ class HeadBagUpdateMixin(HeadBagReadMixin):
                 self.add_file_lookup(incl, member_name)
 
             elif bag.isdir(incl):
-                for d, subdirs, files in bag.walk(incl):
-                    if d and d in exclude:
-                        for i in range(len(subdirs)):
-                            subdirs.pop(0)
-                        continue
+                for d, subdirs, files in bag.walk(incl if incl != '.' else None):
                     for f in files:
-                        f = "/".join([d, f])
-                        if f in exclude:
+                        f = posixpath.join(d, f)
+                        if excluded(f):
                             continue
                         self.add_file_lookup(f, member_name)
 
-- 
2.43.0


From 01c1dc639c8b9cd438c93d4a9422d6f2fd5780f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:57:53 +0000
Subject: [PATCH 12/39] fix: amending keeps earlier deletions and does not
 modify the amended bag's metadata

The profile requires that the paths in the previous head bag's deleted.txt be
carried over, except for those being brought back; they were dropped, so that
deleted files re-appeared in the new version.
---
 multibag/amend.py | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/multibag/amend.py b/multibag/amend.py
index 7ba41f9..fcdd929 100644
--- a/multibag/amend.py
+++ b/multibag/amend.py
@@ -218,6 +218,7 @@ class Amender(object):
         self._pid = pid
         self._comm = comment
         self._info = list(info)
+        self._olddel = set()    # see _init_deleted()
 
     def init_from_amendee(self, keepprofver=False):
         """
@@ -234,6 +235,28 @@ class Amender(object):
         self._init_multibag_info(keepprofver)
         self._init_member_bags()
         self._init_file_lookup()
+        self._init_deleted()
+
+    def _init_deleted(self):
+        # what was deleted before stays deleted
+        if self._oldhead.is_head_multibag():
+            self._olddel = set(self._oldhead.iter_deleted()) - set(self._newhead.deleted_paths())
+            for path in self._olddel:
+                self._newhead.set_deleted(path)
+
+    def _undelete_files_in(self, bag):
+        # undo the previous deletion of any files that the given amending bag is bringing back 
+        for root, dirs, files in bag.walk():
+            for path in ["/".join([root, f]).lstrip("/") for f in files]:
+                for gone in [p for p in self._olddel if path == p or path.startswith(p+"/")]:
+                    self._olddel.remove(gone)
+                    self._newhead.unset_deleted(gone)
+
+                    # if gone is a directory, everything else in it stays deleted
+                    for other, member in self._oldhead.iter_file_lookup():
+                        if other != path and other.startswith(gone+"/"):
+                            self._olddel.add(other)
+                            self._newhead.set_deleted(other)
 
     def _init_member_bags(self):
         target = os.path.join(self._newheaddir, self._newhead.multibag_tag_dir,
@@ -277,7 +300,7 @@ class Amender(object):
         if 'Multibag-Head-Deprecates' in self._oldhead.info:
             if isinstance(self._oldhead.info['Multibag-Head-Deprecates'], list):
                 self._newhead.info['Multibag-Head-Deprecates'] = \
-                               self._oldhead.info['Multibag-Head-Deprecates']
+                         list(self._oldhead.info['Multibag-Head-Deprecates'])
             else:
                 self._newhead.info['Multibag-Head-Deprecates'] = \
                               [ self._oldhead.info['Multibag-Head-Deprecates'] ]
@@ -322,6 +345,7 @@ class Amender(object):
         self._newhead.add_member_bag(membag.name, pid, comment, info)
         self._newhead.update_for_member(membag, include_lu, exclude_lu,
                                         make_member=False)
+        self._undelete_files_in(membag)
 
     def finalize(self, version, include_lu=None, exclude_lu=None):
         """
@@ -349,9 +373,11 @@ class Amender(object):
                                      self._info)
         self._newhead.update_for_member(self._newhead, include_lu, exclude_lu,
                                         make_member=False)
+        self._undelete_files_in(self._newhead)
 
         self._newhead.save_member_bags()
         self._newhead.save_file_lookup()
+        self._newhead.save_deleted()
         self._newhead.update_info(version, self._newhead.profile_version)
 
         
-- 
2.43.0


From ac1d78b2ed20af59075717e46859277659421590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:15 +0000
Subject: [PATCH 13/39] fix: converted bag is listed under its real name when
 its path ends in a slash

---
 multibag/amend.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/multibag/amend.py b/multibag/amend.py
index fcdd929..9132613 100644
--- a/multibag/amend.py
+++ b/multibag/amend.py
@@ -71,8 +71,7 @@ class SingleMultibagMaker(object):
         if not self.bag.info.get('Multibag-Version'):
             self.update_info();
         
-        bagname = os.path.basename(self.bagdir)
-        mi = MemberInfo(bagname, pid, comment, *info)
+        mi = MemberInfo(self.bag.name, pid, comment, *info)
         self.bag.set_member_bags([mi])
         self.bag.save_member_bags()
 
-- 
2.43.0


From c801e2786a7afc9406044ab01285c8e6ef0dac62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:58:30 +0000
Subject: [PATCH 14/39] fix: a bag's name and location do not depend on how its
 path is written

---
 multibag/access/bagit.py    | 9 +++------
 multibag/access/extended.py | 2 +-
 2 files changed, 4 insertions(+), 7 deletions(-)

diff --git a/multibag/access/bagit.py b/multibag/access/bagit.py
index 2e3d29d..020eb5e 100644
--- a/multibag/access/bagit.py
+++ b/multibag/access/bagit.py
@@ -154,8 +154,8 @@ class ReadOnlyBag(_bagit.Bag):
         if not bagpath:
             raise BagError(_("path to bag root directory not provided"))
         if not isinstance(bagpath, Path):
-            bagpath = bagpath.rstrip("/")
-            parent = os.path.dirname(bagpath) or "."
+            bagpath = os.path.abspath(bagpath)
+            parent = os.path.dirname(bagpath)
             bagname = os.path.basename(bagpath)
             if not location:
                 location = bagpath
@@ -635,10 +635,7 @@ def open_bag(location):
 
     elif os.path.isdir(location):
         # it's a unserialized bag on local disk
-        name = os.path.basename(location)
-        parent = os.path.dirname(location)
-        if not parent:
-            parent = "."
+        parent, name = os.path.split(os.path.abspath(location))
         fspath = Path(fs.osfs.OSFS(parent), name, "bag:")
 
     elif os.path.isfile(location):
diff --git a/multibag/access/extended.py b/multibag/access/extended.py
index 94785fd..201bbf7 100644
--- a/multibag/access/extended.py
+++ b/multibag/access/extended.py
@@ -226,7 +226,7 @@ class _ExtendedReadWritableMixin(ExtendedReadMixin):
             # launch the mixin's chain of __init__()s
             kw = self._ctor_bind_args(args, kw)
             
-            self._bagdir = kw['bagdir'].rstrip(os.sep)
+            self._bagdir = os.path.abspath(kw['bagdir'])
             self._bagname = os.path.basename(self._bagdir)
             self._replwhl = True
             super(_ExtendedReadWritableMixin, self).__init__()
-- 
2.43.0


From 90c75b9974fae5a61ab24a51e11e3c873ed6129f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:33 +0000
Subject: [PATCH 15/39] fix: a path into a sibling whose name starts with the
 bag's name is not inside the bag

---
 multibag/access/bagit.py    | 4 ++--
 multibag/access/extended.py | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/multibag/access/bagit.py b/multibag/access/bagit.py
index 020eb5e..0015a64 100644
--- a/multibag/access/bagit.py
+++ b/multibag/access/bagit.py
@@ -553,8 +553,8 @@ class ReadOnlyBag(_bagit.Bag):
         # possible problem: we're not resolving links.  (Shouldn't happen)
         real_path = os.path.normpath(os.path.join(self.path, path))
         bag_path = os.path.normpath(self.path)
-        common = os.path.commonprefix((bag_path, real_path))
-        return not (common == bag_path)
+        return real_path != bag_path and \
+               not real_path.startswith(bag_path.rstrip(os.sep) + os.sep)
 
 def _calc_hashes(args):
     # auto unpacking of sequences illegal in Python3
diff --git a/multibag/access/extended.py b/multibag/access/extended.py
index 201bbf7..54ccb99 100644
--- a/multibag/access/extended.py
+++ b/multibag/access/extended.py
@@ -261,7 +261,8 @@ class _ExtendedReadWritableMixin(ExtendedReadMixin):
         if os.sep != '/':
             path = _bagsepre.sub(os.sep, path)
         path = os.path.normpath(os.path.join(self._bagdir, path))
-        if not path.startswith(os.path.normpath(self._bagdir)):
+        bagdir = os.path.normpath(self._bagdir)
+        if path != bagdir and not path.startswith(bagdir.rstrip(os.sep) + os.sep):
             return None
         return path
 
-- 
2.43.0


From ac4eeff0d442ca828ddba7072fd88de3ef0ee33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:59:36 +0000
Subject: [PATCH 16/39] fix: default names of split bags do not depend on how
 the source's path is written

---
 multibag/split.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/multibag/split.py b/multibag/split.py
index f43ad4b..f00fce5 100644
--- a/multibag/split.py
+++ b/multibag/split.py
@@ -464,7 +464,7 @@ class Splitter(object):
                   be split into multibags.  
         """
         if not namebasis:
-            namebasis = os.path.splitext(os.path.basename(bagpath))[0]
+            namebasis = os.path.splitext(os.path.basename(os.path.abspath(bagpath)))[0]
 
         out = self._create_plan(bagpath)
 
-- 
2.43.0


From 52e3ccbcdbf2cd699d0bb7758c24c2545d11473c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:03 +0000
Subject: [PATCH 17/39] fix: splitting a head bag does not overwrite the
 source's multibag tag files

They were hard-linked into the output head bag and then opened for writing, and
their old checksums recorded there; the source's list of deleted paths could end
up in a bag other than the head bag.
---
 multibag/split.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/multibag/split.py b/multibag/split.py
index f00fce5..f7b4b54 100644
--- a/multibag/split.py
+++ b/multibag/split.py
@@ -247,10 +247,18 @@ class SplitPlan(object):
         # progenitor is a head bag itself
         filedest = OrderedDict()
         memberbags = []
+        replaced = []   # the progenitor's own multibag tag files
+        deleted = []
         if self.progenitor.is_head_multibag():
             as_headbag(self.progenitor)
+            tagdir = self.progenitor.multibag_tag_dir
+            replaced = ["/".join([tagdir, f]) for f in
+                        "member-bags.tsv file-lookup.tsv deleted.txt aggregation-info.txt".split()]
+            deleted = list(self.progenitor.iter_deleted())
             try:
-                memberbags = self.progenitor.member_bag_names
+                # the output bags take the place of the progenitor
+                memberbags = [m for m in self.progenitor.member_bag_names
+                                if m != self.progenitor.name]
             except MissingMultibagFileError:
                 pass
             try:
@@ -288,6 +296,9 @@ class SplitPlan(object):
             payload_count = 0
             payload_size = 0
             for file in m['contents']:
+                if file in replaced:
+                    # the output head bag gets its own version (below)
+                    continue
 
                 if not self.progenitor.exists(file):
                     if logger:
@@ -396,6 +407,11 @@ class SplitPlan(object):
                         with self.progenitor.open_text_file("bag-info.txt") as ifd:
                             for f in ifd:
                                 fd.write(f)
+                if deleted:
+                    with io.open(os.path.join(mbagdir, "deleted.txt"),
+                                 'w', encoding=DEF_ENC) as fd:
+                        for f in deleted:
+                            fd.write(u"%s\n" % f)
                 
 
             yield bagdir
-- 
2.43.0


From 61db510236bb956c4e499eafeae5f30e09d57096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:00:33 +0000
Subject: [PATCH 18/39] fix: split passes files that are yet to be fetched on
 to the head bag

They and their checksums were dropped, and so missing from the restored bag.
---
 multibag/split.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/multibag/split.py b/multibag/split.py
index f7b4b54..542aa78 100644
--- a/multibag/split.py
+++ b/multibag/split.py
@@ -344,6 +344,16 @@ class SplitPlan(object):
                         
                     filedest[file] = bagname
                     
+            # have the head bag take on the files that the progenitor leaves to be fetched
+            if m.get('ishead'):
+                fetch = [e for e in self.progenitor.fetch_entries()
+                           if not self.progenitor.exists(e[2])]
+                for entry in fetch:
+                    with io.open(os.path.join(bagdir, "fetch.txt"), 'a', encoding=DEF_ENC) as fd:
+                        fd.write(u"%s %s %s\n" % tuple(entry))
+                    for alg, hash in self.progenitor.payload_entries().get(entry[2], {}).items():
+                        self._record_hash(bagdir, alg, hash, entry[2], PMAN)
+
             # create the bag-info file
             outinfo = os.path.join(bagdir, "bag-info.txt")
             with io.open(outinfo, 'w', encoding=DEF_ENC) as fd:
-- 
2.43.0


From 3ddce78c77994c4b773a1450ff46edd7d7190a36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:21 +0000
Subject: [PATCH 19/39] fix: head bag validation gives a verdict for every bag
 and judges URLs the right way round

Bags without head metadata or payload directory, and malformed Payload-Oxum,
fetch.txt or tag files, ended in an AssertionError or AttributeError; any
http:// member URL, or a comment in place of it, was reported as an error while
lines without a bag name or file path were not; a repeated Multibag-Version (only
a warning) was always also an error.
---
 multibag/validate/bag.py     |  5 ++--
 multibag/validate/headbag.py | 45 ++++++++++++++++++++----------------
 2 files changed, 28 insertions(+), 22 deletions(-)

diff --git a/multibag/validate/bag.py b/multibag/validate/bag.py
index 7871415..10d20b0 100644
--- a/multibag/validate/bag.py
+++ b/multibag/validate/bag.py
@@ -36,9 +36,10 @@ class BagValidator(Validator):
             except BagValidationError as ex:
                 passed = False
                 comments = [ex.message] + ex.details
-            except BagError as ex:
+            except (BagError, ValueError) as ex:
+                # ValueError: unparseable data, e.g. in Payload-Oxum or fetch.txt
                 passed = False
-                comments = [ex.message]
+                comments = [str(ex)]
 
             results._err(issue, passed, comments)
 
diff --git a/multibag/validate/headbag.py b/multibag/validate/headbag.py
index fc39742..5364258 100644
--- a/multibag/validate/headbag.py
+++ b/multibag/validate/headbag.py
@@ -61,9 +61,13 @@ class HeadBagValidator(Validator):
         self.validate_head_version(want, out, version)
         self.validate_head_deprecates(want, out, version)
         self.validate_baginfo_recs(want, out, version)
-        self.validate_member_bags(want, out, version)
-        self.validate_file_lookup(want, out, version)
-        self.validate_aggregation_info(want, out, version)
+        try:
+            self.validate_member_bags(want, out, version)
+            self.validate_file_lookup(want, out, version)
+            self.validate_aggregation_info(want, out, version)
+        except UnicodeError as ex:
+            t = out._issue("4.0-3", "Multibag tag files must be readable as UTF-8 text")
+            out._err(t, False, str(ex))
 
         return out
 
@@ -89,7 +93,7 @@ class HeadBagValidator(Validator):
 
         vers = data["Multibag-Version"]
         if isinstance(data["Multibag-Version"], (list, tuple)):
-            version = data["Multibag-Version"][-1]
+            vers = data["Multibag-Version"][-1]
 
         t = out._issue("3-Version-val",
                        "Multibag-Version must be set to '{0}'".format(version))
@@ -204,7 +208,6 @@ class HeadBagValidator(Validator):
         headver = data.get("Multibag-Head-Version")
         if isinstance(headver, list) and len(headver) > 0:
             headver = headver[-1]
-        assert headver
 
         values = data["Multibag-Head-Deprecates"]
         if not isinstance(values, list):
@@ -273,7 +276,6 @@ class HeadBagValidator(Validator):
         if not out:
             out = ValidationResults(str(self.bag), want, version)
 
-        ishead = self.bag.is_head_multibag()
         mdir = self.bag.info.get("Multibag-Tag-Directory")
         if not mdir:
             mdir = "multibag"
@@ -282,7 +284,6 @@ class HeadBagValidator(Validator):
         mdir = mdir[-1]
 
         assert mdir
-        assert ishead
 
         t = out._issue("3-Tag-Directory",
                        "Multibag-Tag-Directory must exist as directory")
@@ -327,7 +328,7 @@ class HeadBagValidator(Validator):
                     found.add(last)
                 if len(parts) > 1 and len(parts[1]) > 0:
                     url = urlparse(parts[1])
-                    if not url.scheme or url.netloc:
+                    if not url.scheme:
                         badurl.append(i)
 
                 if len(parts) > 2:
@@ -397,7 +398,10 @@ class HeadBagValidator(Validator):
                 i += 1
                 if not line.strip():
                     continue
-                parts = [f.strip() for f in line.strip().split('\t')]
+                parts = [f.strip() for f in line.rstrip().split('\t')]
+                if not parts[0]:
+                    badfmt.append(i)
+                    continue
                 last = parts[0]
                 if last == self.bag._name:
                     foundme = True
@@ -405,9 +409,10 @@ class HeadBagValidator(Validator):
                     replicated.append(i)
                 else:
                     found.add(last)
-                if len(parts) > 1 and len(parts[1]) > 0:
+                if len(parts) > 1 and len(parts[1]) > 0 and \
+                   not parts[1].startswith('#'):
                     url = urlparse(parts[1])
-                    if not url.scheme or url.netloc:
+                    if not url.scheme:
                         badurl.append(i)
 
         t = out._issue("4.1-1", "member-bags.tsv lines must match "+
@@ -457,7 +462,6 @@ class HeadBagValidator(Validator):
         if not out:
             out = ValidationResults(str(self.bag), want, version)
 
-        ishead = self.bag.is_head_multibag()
         mdir = self.bag.info.get("Multibag-Tag-Directory")
         if not mdir:
             mdir = "multibag"
@@ -466,7 +470,6 @@ class HeadBagValidator(Validator):
         mdir = mdir[-1]
         
         assert mdir
-        assert ishead
 
         t = out._issue("3-Tag-Directory",
                        "Multibag-Tag-Directory must exist as directory")
@@ -546,8 +549,10 @@ class HeadBagValidator(Validator):
         
         # get a list of the payload files
         missing = []
-        datadir = self.bag._root.subfspath("data")
-        for df in datadir.fs.walk.files():
+        datafiles = []
+        if self.bag.isdir("data"):
+            datafiles = self.bag._root.subfspath("data").fs.walk.files()
+        for df in datafiles:
             f = df.split('/')[-1]
             if f.startswith(".") or f.startswith("_"):
                 continue
@@ -590,7 +595,7 @@ class HeadBagValidator(Validator):
                     replicated.append(i)
                 else:
                     paths.add(parts[0])
-                if len(parts) != 2:
+                if len(parts) != 2 or not all(parts):
                     badfmt.append(i)
 
                 if len(parts) > 1 and parts[1] == self.bag._name and \
@@ -632,8 +637,10 @@ class HeadBagValidator(Validator):
         
         # get a list of the payload files
         missing = []
-        datadir = self.bag._root.subfspath("data")
-        for df in datadir.fs.walk.files():
+        datafiles = []
+        if self.bag.isdir("data"):
+            datafiles = self.bag._root.subfspath("data").fs.walk.files()
+        for df in datafiles:
             f = df.split('/')[-1]
             if f.startswith(".") or f.startswith("_"):
                 continue
@@ -659,7 +666,6 @@ class HeadBagValidator(Validator):
         if not out:
             out = ValidationResults(str(self.bag), want, version)
 
-        ishead = self.bag.is_head_multibag()
         mdir = self.bag.info.get("Multibag-Tag-Directory")
         if not mdir:
             mdir = "multibag"
@@ -668,7 +674,6 @@ class HeadBagValidator(Validator):
         mdir = mdir[-1]
         
         assert mdir
-        assert ishead
 
         aginfo = "/".join([mdir, "aggregation-info.txt"])
         if version == "0.2" or version == "0.3" or not self.bag.exists(aginfo):
-- 
2.43.0


From 1598144f86754780d17f126efa84feb6697498ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:03:52 +0000
Subject: [PATCH 20/39] fix: failure to copy a file is reported instead of
 ignored

---
 multibag/access/extended.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/multibag/access/extended.py b/multibag/access/extended.py
index 54ccb99..183d6c9 100644
--- a/multibag/access/extended.py
+++ b/multibag/access/extended.py
@@ -366,16 +366,18 @@ class _ExtendedReadWritableMixin(ExtendedReadMixin):
                 if logger:
                     msg = "Unable to create hard link for data file (" + path + \
                           "): " + str(ex) + "; swithching to copy mode."
-                    self.logger.warning(msg)
+                    logger.warning(msg)
 
-        if not hardlink:
+        if not hardlink and not (os.path.exists(destpath) and
+                                 os.path.samefile(source, destpath)):
             try:
                 shutil.copy(source, destpath)
             except Exception as ex:
                 if logger:
                     msg = "Unable to copy data file (" + path + \
                           ") into bag (" + destdir + "): " + str(ex)
-                    self.log.exception(msg, exc_info=True)
+                    logger.error(msg)
+                raise
         
     def open_text_file(self, path, encoding='utf-8-sig'):
         """
-- 
2.43.0


From 008b3a985f09440ee76b1d801390ca0b648ee704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:46 +0000
Subject: [PATCH 21/39] fix: text files and directories are read the same way
 from writable and read-only bags

A writable bag split lines at any Unicode line break, a read-only one kept a
byte-order mark, and walking a read-only bag from 'data/' gave paths with doubled
slashes.
---
 multibag/access/bagit.py    | 2 +-
 multibag/access/extended.py | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/multibag/access/bagit.py b/multibag/access/bagit.py
index 0015a64..3b02ec9 100644
--- a/multibag/access/bagit.py
+++ b/multibag/access/bagit.py
@@ -259,7 +259,7 @@ class ReadOnlyBag(_bagit.Bag):
         """
         return self._root.fs.isdir(path)
 
-    def open_text_file(self, path, encoding='utf-8', errors='strict',
+    def open_text_file(self, path, encoding='utf-8-sig', errors='strict',
                        buffering=-1):
         """
         open the file with the given path for reading and return a file 
diff --git a/multibag/access/extended.py b/multibag/access/extended.py
index 183d6c9..08146bc 100644
--- a/multibag/access/extended.py
+++ b/multibag/access/extended.py
@@ -5,7 +5,7 @@ can work against the base bagit.Bag class directly or against the ReadOnlyBag
 class which can read serialized versions of bags.  
 """
 from __future__ import absolute_import
-import os, sys, re, shutil, codecs, inspect
+import os, sys, re, shutil, io, inspect
 from collections import OrderedDict, namedtuple
 from abc import ABCMeta, abstractmethod
 from datetime import datetime, tzinfo
@@ -390,7 +390,7 @@ class _ExtendedReadWritableMixin(ExtendedReadMixin):
                              file.  (Default: "utf-8-sig").
         """
         path = self._canon_path(path)
-        return codecs.open(path, encoding=encoding);
+        return io.open(path, encoding=encoding, newline='')
         
     def walk(self, start=None):
         """
@@ -681,7 +681,9 @@ class _ExtendedReadOnlyMixin(ExtendedReadMixin):
         if not start:
             root = self._root
         else:
+            start = re.sub(r'/+', '/', start)
             root = self._root.subfspath(start)
+            start = start.rstrip('/')
 
         witer = root.fs.walk.walk()
         while True:
-- 
2.43.0


From de4a5d47a8080874ae5acfe553ebb40d51f442db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:04:59 +0000
Subject: [PATCH 22/39] fix: a directory that cannot be listed is reported
 instead of taken as empty

---
 multibag/access/extended.py | 4 +++-
 multibag/access/multibag.py | 6 +++---
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/multibag/access/extended.py b/multibag/access/extended.py
index 08146bc..ec43d32 100644
--- a/multibag/access/extended.py
+++ b/multibag/access/extended.py
@@ -419,7 +419,9 @@ class _ExtendedReadWritableMixin(ExtendedReadMixin):
         if not os.path.isdir(root):
             raise ValueError("walk(): start is not a subdirectory: "+start)
 
-        for dir, subdirs, files in os.walk(root):
+        def failed(ex):
+            raise ex
+        for dir, subdirs, files in os.walk(root, onerror=failed):
             # make dir relative to bag's root directory
             if dir.startswith(self._bagdir):
                 dir = dir[len(self._bagdir):].lstrip(os.sep)
diff --git a/multibag/access/multibag.py b/multibag/access/multibag.py
index d8e60b8..81d1c55 100644
--- a/multibag/access/multibag.py
+++ b/multibag/access/multibag.py
@@ -742,9 +742,9 @@ class HeadBagUpdateMixin(HeadBagReadMixin):
 
     def _bag_size(self):
         size = 0
-        for root, subdirs, files in os.walk(self._bagdir):
-            for f in files:
-                size += os.stat(os.path.join(root,f)).st_size
+        for root, subdirs, files in self.walk():
+            for f in [os.path.join(root, f) for f in files]:
+                size += self.sizeof(f)
 
         out = self._format_bytes(size)
         size += len("Bag-Size: {0}".format(size))
-- 
2.43.0


From 5eca530410a2d3fbb8d3a255282f104e5bb5df8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:39 +0000
Subject: [PATCH 23/39] fix: uniform sizes add up to any total and can be empty

---
 multibag/testing/mkdata.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/multibag/testing/mkdata.py b/multibag/testing/mkdata.py
index 2890faa..149da63 100644
--- a/multibag/testing/mkdata.py
+++ b/multibag/testing/mkdata.py
@@ -377,7 +377,9 @@ class UniformSizeIterator(SizeIterator):
         if nf is None or nf < 0:
             raise RuntimeError("Need to set target_totalfiles")
         
-        sz = int(math.floor(1.0 * tz / nf + 0.5))
+        if nf == 0:
+            return
+        sz = (2*tz + nf) // (2*nf)   # i.e. tz/nf, rounded
         extra = tz - sz*nf
         while nf > 0:
             if nf == math.fabs(extra):
-- 
2.43.0


From 4dcef6bcce145bb6cd71a6825a9a1ddcbf1f7e80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:30 +0000
Subject: [PATCH 24/39] fix: registering a bag without files still establishes
 the file lookup

---
 multibag/access/multibag.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/multibag/access/multibag.py b/multibag/access/multibag.py
index 81d1c55..187f9a4 100644
--- a/multibag/access/multibag.py
+++ b/multibag/access/multibag.py
@@ -590,6 +590,13 @@ class HeadBagUpdateMixin(HeadBagReadMixin):
             raise TypeError("update_for_member(): exclude not a list: "+
                             str(exclude))
 
+        if self._filelu is None:
+            # a head bag must have a lookup even if there turns out to be nothing to put into it
+            try:
+                self._cache_file_lookup()
+            except MissingMultibagFileError:
+                self._filelu = OrderedDict()
+
         exclude = [posixpath.normpath(e) for e in exclude]
         def excluded(path):
             return any(path == e or path.startswith(e+'/') for e in exclude)
-- 
2.43.0


From 0ccd409f3207090ba1d4f588155dc15c86c06296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:44 +0000
Subject: [PATCH 25/39] fix: asking a read-only bag about a path outside of it
 is answered, not failed

---
 multibag/access/bagit.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/multibag/access/bagit.py b/multibag/access/bagit.py
index 3b02ec9..fd775f9 100644
--- a/multibag/access/bagit.py
+++ b/multibag/access/bagit.py
@@ -7,6 +7,7 @@ from __future__ import absolute_import
 import os, sys
 from collections import OrderedDict
 import fs.osfs, fs.zipfs, fs.tarfs
+from fs.errors import IllegalBackReference, InvalidPath
 
 import bagit as _bagit
 from bagit import *    # import everything!
@@ -79,19 +80,31 @@ class Path(object):
         """
         return true if the file or directory pointed to exists in the filesystem
         """
-        return self.fs.exists(self.path)
+        try:
+            return self.fs.exists(self.path)
+        except (IllegalBackReference, InvalidPath):
+            # there can be nothing there
+            return False
 
     def isfile(self):
         """
         return true if the path points to a file that exists in the filesystem
         """
-        return self.fs.isfile(self.path)
+        try:
+            return self.fs.isfile(self.path)
+        except (IllegalBackReference, InvalidPath):
+            # there can be nothing there
+            return False
 
     def isdir(self):
         """
         return true if the path points to a directory that exists in the filesystem
         """
-        return self.fs.isdir(self.path)
+        try:
+            return self.fs.isdir(self.path)
+        except (IllegalBackReference, InvalidPath):
+            # there can be nothing there
+            return False
 
     def __str__(self):
         return "{0}{1}".format(self._pfx, self.path)
@@ -238,7 +251,7 @@ class ReadOnlyBag(_bagit.Bag):
 
         :param str path:  a relative path to a directory or file within the bag
         """
-        return self._root.fs.exists(path)
+        return self._root.relpath(path).exists()
 
     def isfile(self, path):
         """
@@ -247,7 +260,7 @@ class ReadOnlyBag(_bagit.Bag):
 
         :param str path:  a path to a file relative to the bag's root directory
         """
-        return self._root.fs.isfile(path)
+        return self._root.relpath(path).isfile()
 
     def isdir(self, path):
         """
@@ -257,7 +270,7 @@ class ReadOnlyBag(_bagit.Bag):
         :param str path:  a path to a directory relative to the bag's root 
                           directory
         """
-        return self._root.fs.isdir(path)
+        return self._root.relpath(path).isdir()
 
     def open_text_file(self, path, encoding='utf-8-sig', errors='strict',
                        buffering=-1):
-- 
2.43.0


From 1cee19fdbed5867867fc15dd488ca02fe59ea6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:41:45 +0000
Subject: [PATCH 26/39] fix: a multibag tag directory inside the payload is an
 error

---
 multibag/validate/headbag.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/multibag/validate/headbag.py b/multibag/validate/headbag.py
index 5364258..9510587 100644
--- a/multibag/validate/headbag.py
+++ b/multibag/validate/headbag.py
@@ -155,7 +155,10 @@ class HeadBagValidator(Validator):
 
             t = out._issue("3-Tag-Directory",
                            "Multibag-Tag-Directory must exist as directory")
-            out._err(t, self.bag.isdir(mdir[-1]))
+            comm = None
+            if os.path.normpath(mdir[-1]).split(os.sep)[0] == "data":
+                comm = "directory must be outside of the data directory"
+            out._err(t, self.bag.isdir(mdir[-1]) and not comm, comm)
 
         else:
             t = out._issue("3-Tag-Directory",
-- 
2.43.0


From e47ccf74b656f8c51f7e2451cb44081ebe0c9abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:14 +0000
Subject: [PATCH 27/39] fix: a read-only bag lists each checksum algorithm once

---
 multibag/access/bagit.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/multibag/access/bagit.py b/multibag/access/bagit.py
index fd775f9..5333070 100644
--- a/multibag/access/bagit.py
+++ b/multibag/access/bagit.py
@@ -363,7 +363,8 @@ class ReadOnlyBag(_bagit.Bag):
             else:
                 search = "manifest-"
             alg = os.path.basename(manifest_filename).replace(search, "").replace(".txt", "")
-            self.algorithms.append(alg)
+            if alg not in self.algorithms:
+                self.algorithms.append(alg)
 
             manifest_filename = self._root.relpath(manifest_filename)
 
-- 
2.43.0


From 2d698ceec8de574456642bf8c9fdc96ce9ae9c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:00:42 +0000
Subject: [PATCH 28/39] fix: validating a read-only bag with an unlisted
 payload file gives a verdict

---
 multibag/access/bagit.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/multibag/access/bagit.py b/multibag/access/bagit.py
index 5333070..9e60f50 100644
--- a/multibag/access/bagit.py
+++ b/multibag/access/bagit.py
@@ -302,7 +302,9 @@ class ReadOnlyBag(_bagit.Bag):
         payload_dir = self._root.subfspath("data")
 
         for f in payload_dir.fs.walk.files():
-            yield "data/"+f.lstrip('/')
+            path = "data/"+f.lstrip('/')
+            self.normalized_filesystem_names[normalize_unicode(path)] = path
+            yield path
 
     def save(self, processes=1, manifests=False):
         """
-- 
2.43.0


From 758e6e4a1641887b4db6db31b1c067f18515f515 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:14:56 +0000
Subject: [PATCH 29/39] fix: a read-only bag can be validated with several
 processes asked for

---
 multibag/access/bagit.py | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/multibag/access/bagit.py b/multibag/access/bagit.py
index 9e60f50..d54176b 100644
--- a/multibag/access/bagit.py
+++ b/multibag/access/bagit.py
@@ -504,25 +504,15 @@ class ReadOnlyBag(_bagit.Bag):
         """
         errors = list()
 
-        if os.name == 'posix':
-            worker_init = posix_multiprocessing_worker_initializer
-        else:
-            worker_init = None
-
         args = ((self._root,
                  self.normalized_filesystem_names.get(rel_path, rel_path),
                  hashes,
                  self.algorithms) for rel_path, hashes in self.entries.items())
 
         try:
-            if processes == 1:
-                hash_results = [_calc_hashes(i) for i in args]
-            else:
-                try:
-                    pool = multiprocessing.Pool(processes if processes else None, initializer=worker_init)
-                    hash_results = pool.map(_calc_hashes, args)
-                finally:
-                    pool.terminate()
+            # the filesystem object cannot be handed to other processes, so processes 
+            # is not heeded
+            hash_results = [_calc_hashes(i) for i in args]
 
         # Any unhandled exceptions are probably fatal
         except:
-- 
2.43.0


From 015ebdfee345cb191c4c5ba3d636051103984326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:48 +0000
Subject: [PATCH 30/39] fix: walking and copying from a writable bag stay
 inside the bag and the destination

---
 multibag/access/extended.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/multibag/access/extended.py b/multibag/access/extended.py
index ec43d32..681fa9c 100644
--- a/multibag/access/extended.py
+++ b/multibag/access/extended.py
@@ -339,7 +339,8 @@ class _ExtendedReadWritableMixin(ExtendedReadMixin):
             raise ValueError("replicate: file/dir does not exist in this bag: " +
                              path)
         
-        destpath = os.path.join(destdir, path)
+        source = self._canon_path(path)
+        destpath = os.path.join(destdir, os.path.relpath(source, self._bagdir))
         if self.isdir(path):
             if not os.path.isdir(destpath):
                 if logger:
@@ -350,7 +351,6 @@ class _ExtendedReadWritableMixin(ExtendedReadMixin):
         
         parent = os.path.dirname(destpath)
         hardlink = self.replicate_with_hardlink
-        source = os.path.join(self._bagdir, path)
         
         if not os.path.exists(parent):
             if logger:
@@ -416,7 +416,7 @@ class _ExtendedReadWritableMixin(ExtendedReadMixin):
         if os.path.isabs(start):
             raise ValueError("walk(): start must not be absolute: "+start)
         root = os.path.join(self._bagdir, start).rstrip(os.sep)
-        if not os.path.isdir(root):
+        if self._canon_path(start) is None or not os.path.isdir(root):
             raise ValueError("walk(): start is not a subdirectory: "+start)
 
         def failed(ex):
-- 
2.43.0


From fdee66cbe8f4afbcfe7390551c95e6be4e250fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:18:48 +0000
Subject: [PATCH 31/39] fix: a multibag tag directory outside of the bag is
 refused, not written to or removed

---
 multibag/access/multibag.py | 26 ++++++++++++++++----------
 multibag/amend.py           |  3 +--
 multibag/restore.py         |  5 ++++-
 3 files changed, 21 insertions(+), 13 deletions(-)

diff --git a/multibag/access/multibag.py b/multibag/access/multibag.py
index 187f9a4..1839d15 100644
--- a/multibag/access/multibag.py
+++ b/multibag/access/multibag.py
@@ -356,9 +356,11 @@ class HeadBagUpdateMixin(HeadBagReadMixin):
         dirname = os.path.join(*(dirname.split('/')))
         if dirname == self.multibag_tag_dir:
             return
+        if self._canon_path(dirname) is None:
+            raise ValueError("set_multibag_tag_dir(): not a directory inside the bag: "+dirname)
 
         if migrate:
-            tagpath = os.path.join(self._bagdir, self.multibag_tag_dir)
+            tagpath = self._tagfile_path()
             dest = os.path.join(self._bagdir, dirname)
             if os.path.exists(dest):
                 raise RuntimeError("Unable to migrate (tag dir not updated): " +
@@ -423,11 +425,19 @@ class HeadBagUpdateMixin(HeadBagReadMixin):
                             "objects")
         self._memberbags = mis
 
+    def _tagfile_path(self, *filename):
+        # return the full path to the multibag tag directory or to a file in it
+        out = self._canon_path("/".join((self.multibag_tag_dir,) + filename))
+        if out is None:
+            raise MultibagError("Multibag tag directory is not inside the bag: " +
+                                self.multibag_tag_dir)
+        return out
+
     def ensure_tagdir(self):
         """
         make sure the tag directory for the special multibag files exists
         """
-        mbdir = os.path.join(self._bagdir, self.multibag_tag_dir)
+        mbdir = self._tagfile_path()
         if not os.path.exists(mbdir):
             os.makedirs(mbdir)
 
@@ -440,8 +450,7 @@ class HeadBagUpdateMixin(HeadBagReadMixin):
             return
 
         self.ensure_tagdir()
-        tagfile = os.path.join(self._bagdir, self.multibag_tag_dir,
-                               'member-bags.tsv')
+        tagfile = self._tagfile_path('member-bags.tsv')
         with io.open(tagfile, 'w', encoding=DEF_ENC) as fd:
             for mi in self._memberbags:
                 out = mi.format()
@@ -629,8 +638,7 @@ class HeadBagUpdateMixin(HeadBagReadMixin):
             return
 
         self.ensure_tagdir()
-        tagfile = os.path.join(self._bagdir, self.multibag_tag_dir,
-                               'file-lookup.tsv')
+        tagfile = self._tagfile_path('file-lookup.tsv')
         with io.open(tagfile, 'w', encoding=DEF_ENC) as fd:
             for item in self._filelu.items():
                 if ispy2:
@@ -645,8 +653,7 @@ class HeadBagUpdateMixin(HeadBagReadMixin):
         """
         empty the file lookup tag file and clear all entries from memory
         """
-        tagfile = os.path.join(self._bagdir, self.multibag_tag_dir,
-                               'file-lookup.tsv')
+        tagfile = self._tagfile_path('file-lookup.tsv')
         if os.path.exists(tagfile):
             os.remove(tagfile)
         self._filelu = None
@@ -693,8 +700,7 @@ class HeadBagUpdateMixin(HeadBagReadMixin):
         if self._deleted is None:
             return
         
-        tagfile = os.path.join(self._bagdir, self.multibag_tag_dir,
-                               'deleted.txt')
+        tagfile = self._tagfile_path('deleted.txt')
         if not self._deleted:
             if os.path.exists(tagfile):
                 os.remove(tagfile)
diff --git a/multibag/amend.py b/multibag/amend.py
index 9132613..391c7af 100644
--- a/multibag/amend.py
+++ b/multibag/amend.py
@@ -258,8 +258,7 @@ class Amender(object):
                             self._newhead.set_deleted(other)
 
     def _init_member_bags(self):
-        target = os.path.join(self._newheaddir, self._newhead.multibag_tag_dir,
-                              'member-bags.tsv')
+        target = self._newhead._tagfile_path('member-bags.tsv')
         if os.path.isfile(target):
             # clear out any existing version of the file
             os.remove(target)
diff --git a/multibag/restore.py b/multibag/restore.py
index df08d29..99ec58c 100644
--- a/multibag/restore.py
+++ b/multibag/restore.py
@@ -301,6 +301,9 @@ class BagRestorer(object):
         skip = self._head.deleted_paths()
         members = list(reversed(self._head.member_bags()))
         tagdir = self._head.multibag_tag_dir
+        tagpath = os.path.normpath(os.path.join(self._destdir, tagdir))
+        if not tagpath.startswith(self._destdir+os.sep):
+            raise MultibagError("Multibag tag directory is not inside the bag: "+tagdir)
         if not os.path.exists(self._destdir):
             self._create_dest_bag()
 
@@ -326,7 +329,7 @@ class BagRestorer(object):
 
         restoredbag = as_extended(Bag(self._destdir))
         if remove_multibag_tags:
-            shutil.rmtree(os.path.join(self._destdir, tagdir))
+            shutil.rmtree(tagpath)
             mbkeys = "Multibag-Version Multibag-Reference Multibag-Tag-Directory".split()
             mbkeys += "Multibag-Head-Version Multibag-Head-Deprecates".split()
             mbkeys = [k for k in mbkeys if k in restoredbag.info]
-- 
2.43.0


From 21c2d460bbec791398bc12eb66d12955932a03eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:42 +0000
Subject: [PATCH 32/39] fix: manifest and fetch paths into a similarly named
 sibling are refused by writable bags too

---
 multibag/access/extended.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/multibag/access/extended.py b/multibag/access/extended.py
index 681fa9c..20529e2 100644
--- a/multibag/access/extended.py
+++ b/multibag/access/extended.py
@@ -512,6 +512,15 @@ class ExtendedReadWritableBag(Bag, _ExtendedReadWritableMixin):
     def _extend(self, bagdir):
         _ExtendedReadWritableMixin.__init__(self, bagdir)
 
+    def _path_is_dangerous(self, path):
+        # the base class does not consider a path into a sibling directory whose name starts with 
+        # that of this bag as dangerous
+        if super(ExtendedReadWritableBag, self)._path_is_dangerous(path):
+            return True
+        bagdir = os.path.abspath(self.path)
+        path = os.path.normpath(os.path.join(bagdir, path))
+        return path != bagdir and not path.startswith(bagdir.rstrip(os.sep) + os.sep)
+
 
 
 class _ExtendedReadOnlyMixin(ExtendedReadMixin):
-- 
2.43.0


From 0cca5f2168a0ffd45823744a65050eda28072777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:29 +0000
Subject: [PATCH 33/39] fix: a bag given by a relative path with a trailing
 slash can be saved, and read from anywhere

---
 multibag/access/bagit.py    | 2 ++
 multibag/access/extended.py | 3 ++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/multibag/access/bagit.py b/multibag/access/bagit.py
index d54176b..c1173ab 100644
--- a/multibag/access/bagit.py
+++ b/multibag/access/bagit.py
@@ -666,5 +666,7 @@ def open_bag(location):
     if not fspath:
         raise ValueError("open_bag: unsupported bag type/location: "+location)
 
+    if '://' not in location:
+        location = os.path.abspath(location)
     return ReadOnlyBag(fspath, name, location)
 
diff --git a/multibag/access/extended.py b/multibag/access/extended.py
index 20529e2..406e803 100644
--- a/multibag/access/extended.py
+++ b/multibag/access/extended.py
@@ -506,11 +506,12 @@ class ExtendedReadWritableBag(Bag, _ExtendedReadWritableMixin):
     A Bag with an extended interface.
     """
     def __init__(self, bagpath):
-        super(ExtendedReadWritableBag, self).__init__(bagpath)
+        super(ExtendedReadWritableBag, self).__init__(os.path.abspath(bagpath))
         self._extend(bagpath)
 
     def _extend(self, bagdir):
         _ExtendedReadWritableMixin.__init__(self, bagdir)
+        self.path = self._bagdir   # the base class may have left it relative
 
     def _path_is_dangerous(self, path):
         # the base class does not consider a path into a sibling directory whose name starts with 
-- 
2.43.0


From 1100da2ef3dfa3df6588d49fc8edce9ea17f0c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:39 +0000
Subject: [PATCH 34/39] fix: splitting a bag with left-over multibag tag files
 does not overwrite them in the source

---
 multibag/split.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/multibag/split.py b/multibag/split.py
index 542aa78..ce525ca 100644
--- a/multibag/split.py
+++ b/multibag/split.py
@@ -247,13 +247,13 @@ class SplitPlan(object):
         # progenitor is a head bag itself
         filedest = OrderedDict()
         memberbags = []
-        replaced = []   # the progenitor's own multibag tag files
+        tagfiles = "member-bags.tsv file-lookup.tsv deleted.txt aggregation-info.txt".split()
+        replaced = ["multibag/"+f for f in tagfiles]   # the progenitor's own multibag tag files
         deleted = []
         if self.progenitor.is_head_multibag():
             as_headbag(self.progenitor)
             tagdir = self.progenitor.multibag_tag_dir
-            replaced = ["/".join([tagdir, f]) for f in
-                        "member-bags.tsv file-lookup.tsv deleted.txt aggregation-info.txt".split()]
+            replaced.extend(["/".join([tagdir, f]) for f in tagfiles])
             deleted = list(self.progenitor.iter_deleted())
             try:
                 # the output bags take the place of the progenitor
-- 
2.43.0


From 43e06c2c5dbffd6d889895846240dae1cffb1771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:29 +0000
Subject: [PATCH 35/39] Revert "fix: uniform sizes add up to any total and can
 be empty"

This reverts commit 5eca530410a2d3fbb8d3a255282f104e5bb5df8c.
---
 multibag/testing/mkdata.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/multibag/testing/mkdata.py b/multibag/testing/mkdata.py
index 149da63..2890faa 100644
--- a/multibag/testing/mkdata.py
+++ b/multibag/testing/mkdata.py
@@ -377,9 +377,7 @@ class UniformSizeIterator(SizeIterator):
         if nf is None or nf < 0:
             raise RuntimeError("Need to set target_totalfiles")
         
-        if nf == 0:
-            return
-        sz = (2*tz + nf) // (2*nf)   # i.e. tz/nf, rounded
+        sz = int(math.floor(1.0 * tz / nf + 0.5))
         extra = tz - sz*nf
         while nf > 0:
             if nf == math.fabs(extra):
-- 
2.43.0


From b7517da584a23390418c3da6a1bdaddf58208ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:26 +0000
Subject: [PATCH 36/39] fix: a file of a read-only bag that cannot be read
 makes the bag invalid, as for a writable one

---
 multibag/access/bagit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/multibag/access/bagit.py b/multibag/access/bagit.py
index c1173ab..d3fa5ad 100644
--- a/multibag/access/bagit.py
+++ b/multibag/access/bagit.py
@@ -7,7 +7,7 @@ from __future__ import absolute_import
 import os, sys
 from collections import OrderedDict
 import fs.osfs, fs.zipfs, fs.tarfs
-from fs.errors import IllegalBackReference, InvalidPath
+from fs.errors import FSError, IllegalBackReference, InvalidPath
 
 import bagit as _bagit
 from bagit import *    # import everything!
@@ -599,7 +599,7 @@ def _calculate_file_hashes(full_path, f_hashers):
                     break
                 for i in f_hashers.values():
                     i.update(block)
-    except (OSError, IOError) as e:
+    except (OSError, IOError, FSError) as e:
         raise BagValidationError(_("Could not read %(filename)s: %(error)s") % {
             'filename': full_path,
             'error': _unicode(e),
-- 
2.43.0


From 7ddc5d5fff029743c190382205ed2ec12d3288d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:13 +0000
Subject: [PATCH 37/39] fix: a directory in place of aggregation-info.txt is a
 validation error, not a failure

---
 multibag/validate/headbag.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/multibag/validate/headbag.py b/multibag/validate/headbag.py
index 9510587..ff2e176 100644
--- a/multibag/validate/headbag.py
+++ b/multibag/validate/headbag.py
@@ -686,6 +686,8 @@ class HeadBagValidator(Validator):
                        "tag file format")
         comm = None
         try:
+            if not self.bag.isfile(aginfo):
+                raise BagError("not a file: " + aginfo)
             info = _load_tag_file(self.bag._root.relpath(aginfo))
         except BagError as ex:
             comm = ["str(ex)"]
-- 
2.43.0


From 605968d8a7f48a63f0db4afba0a5e0813445825c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:56 +0000
Subject: [PATCH 38/39] fix: a validation issue can be turned into a JSON
 object, and back from a tuple

---
 multibag/validate/base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/multibag/validate/base.py b/multibag/validate/base.py
index 48607e1..1c9a542 100644
--- a/multibag/validate/base.py
+++ b/multibag/validate/base.py
@@ -178,17 +178,17 @@ class ValidationIssue(object):
         """
         return OrderedDict([
             ("type", type_labels[self.type]),
-            ("profile_name", self.profile),
+            ("profile_name", "multibag"),
             ("profile_version", self.profile_version),
             ("label", self.label),
-            ("spec", self.message),
+            ("spec", self.specification),
             ("comments", self.comments)
         ])
 
     @classmethod
     def from_tuple(cls, data):
-        return ValidationIssue(data[1], data[2], data[3], data[0], 
-                               data[4], data[5], data[6])
+        return ValidationIssue(data[3], data[0], data[4], data[5], data[6],
+                               data[2])
 
 class ValidationResults(object):
     """
-- 
2.43.0


From d6946623e28490c92f1ae70c119e354c79592888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:20:43 +0000
Subject: [PATCH 39/39] fix: a failed in-place restore can be repeated: the
 head bag's metadata and tag files are left alone until the end

---
 multibag/restore.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/multibag/restore.py b/multibag/restore.py
index 99ec58c..311c42d 100644
--- a/multibag/restore.py
+++ b/multibag/restore.py
@@ -307,13 +307,6 @@ class BagRestorer(object):
         if not os.path.exists(self._destdir):
             self._create_dest_bag()
 
-        if self._head.isfile(tagdir+"/aggregation-info.txt"):
-            with self._head.open_text_file(tagdir+"/aggregation-info.txt") as fd:
-                content = fd.read()
-            bif = os.path.join(self._destdir, "bag-info.txt")
-            with io.open(bif, 'w', encoding=DEF_ENC) as fd:
-                fd.write(content)
-                    
         if self._inplace:
             self._remove_deleted(skip)
         else:
@@ -321,12 +314,21 @@ class BagRestorer(object):
         if members and members[0].name == self._head.name:
             members.pop(0)
 
+        # the multibag tag files of the other members do not describe this aggregation
+        tagskip = skip + [os.path.relpath(tagpath, self._destdir)]
         for member in members:
-            self.restore_member(member.name, skip)
+            self.restore_member(member.name, tagskip)
 
         # now build the fetch.txt file if any found
         self.restore_fetch(skip=skip)
 
+        if self._head.isfile(tagdir+"/aggregation-info.txt"):
+            with self._head.open_text_file(tagdir+"/aggregation-info.txt") as fd:
+                content = fd.read()
+            bif = os.path.join(self._destdir, "bag-info.txt")
+            with io.open(bif, 'w', encoding=DEF_ENC) as fd:
+                fd.write(content)
+
         restoredbag = as_extended(Bag(self._destdir))
         if remove_multibag_tags:
             shutil.rmtree(tagpath)
-- 
2.43.0

