From e19f45b57c509ef90c77c97c475565b54a0712e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:22 +0000
Subject: [PATCH 01/85] Add observation points for external monitors, off by
 default

---
 vanillaplusjs/build/build_file.py |  2 ++
 vanillaplusjs/build/observe.py    | 30 ++++++++++++++++++++++++++++++
 vanillaplusjs/build/scan_file.py  |  2 ++
 3 files changed, 34 insertions(+)
 create mode 100644 vanillaplusjs/build/observe.py

diff --git a/vanillaplusjs/build/build_file.py b/vanillaplusjs/build/build_file.py
index 331ceb3..6cdd2bb 100644
--- a/vanillaplusjs/build/build_file.py
+++ b/vanillaplusjs/build/build_file.py
@@ -6,9 +6,11 @@ import vanillaplusjs.build.handlers.css
 import vanillaplusjs.build.handlers.js
 import vanillaplusjs.build.handlers.js_constants
 import vanillaplusjs.build.handlers.image_glue
+from vanillaplusjs.build.observe import observed
 import time
 
 
+@observed("build")
 def build_file(build_context: "BuildContext", relpath: str) -> BuildFileResult:
     """Builds the file within the given context. This assumes that all the
     children have already been built. This MUST be multi-process safe; this MAY
diff --git a/vanillaplusjs/build/observe.py b/vanillaplusjs/build/observe.py
new file mode 100644
index 0000000..8a6ad46
--- /dev/null
+++ b/vanillaplusjs/build/observe.py
@@ -0,0 +1,30 @@
+"""Observation points for external monitors.
+
+This is off unless the environment variable VANILLAPLUSJS_MONITOR is set when
+vanillaplusjs is imported. If it is set, it names an importable module which
+exposes `around(kind, fn, args)`; that function is called instead of each
+observed function and is responsible for calling `fn(*args)` and returning
+what it returns.
+"""
+import functools
+import importlib
+import os
+
+
+def observed(kind: str):
+    """Decorates a module-level function so that an external monitor sees its
+    calls; returns the function itself when there is no monitor.
+    """
+
+    def decorate(fn):
+        monitor = os.environ.get("VANILLAPLUSJS_MONITOR")
+        if not monitor:
+            return fn
+
+        @functools.wraps(fn)
+        def wrapper(*args):
+            return importlib.import_module(monitor).around(kind, fn, args)
+
+        return wrapper
+
+    return decorate
diff --git a/vanillaplusjs/build/scan_file.py b/vanillaplusjs/build/scan_file.py
index 835794d..8e412c9 100644
--- a/vanillaplusjs/build/scan_file.py
+++ b/vanillaplusjs/build/scan_file.py
@@ -5,9 +5,11 @@ import vanillaplusjs.build.handlers.css
 import vanillaplusjs.build.handlers.js
 import vanillaplusjs.build.handlers.js_constants
 import vanillaplusjs.build.handlers.image_glue
+from vanillaplusjs.build.observe import observed
 from vanillaplusjs.build.scan_file_result import ScanFileResult
 
 
+@observed("scan")
 def scan_file(context: "BuildContext", relpath: str) -> ScanFileResult:
     """Synchronously parses the given file and returns the list of files it
     directly depends on and the files it will produce when built. This should
-- 
2.43.0


From 885f62b1d2797954cd3be589811a19da666e2e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:50 +0000
Subject: [PATCH 02/85] fix: outline inline scripts and styles while other
 pages clean up the shared folders

The temporary source folders were only created before the first piece of a page,
and were removed as soon as they were found empty: a second piece, or another
page being outlined at the same time, failed with FileNotFoundError.
---
 vanillaplusjs/build/html/manips/outline.py | 30 ++++++++++++----------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/vanillaplusjs/build/html/manips/outline.py b/vanillaplusjs/build/html/manips/outline.py
index be7aa16..4854989 100644
--- a/vanillaplusjs/build/html/manips/outline.py
+++ b/vanillaplusjs/build/html/manips/outline.py
@@ -78,36 +78,24 @@ class OutlineManipulator(HTMLManipulator):
         if self.outlining is None:
             if self._should_outline_script(node):
                 self.outlining = "script"
-                if self.script_outline_count == 0:
-                    makedirs_safely(
-                        os.path.join(self.context.folder, self.script_src_folder)
-                    )
                 self.script_outline_count += 1
                 self.outlining_to_path = os.path.join(
                     self.script_src_folder,
                     f"{self.script_outline_count}.js",
                 )
-                self.outlining_to = open(
-                    os.path.join(self.context.folder, self.outlining_to_path), "w"
-                )
+                self.outlining_to = self._open_outlining_to()
                 self.start_tag_attrs = dict(
                     (key, val) for (_, key), val in node["data"].items()
                 )
                 return None
             if self._should_outline_style(node):
                 self.outlining = "style"
-                if self.style_outline_count == 0:
-                    makedirs_safely(
-                        os.path.join(self.context.folder, self.style_src_folder)
-                    )
                 self.style_outline_count += 1
                 self.outlining_to_path = os.path.join(
                     self.style_src_folder,
                     f"{self.style_outline_count}.css",
                 )
-                self.outlining_to = open(
-                    os.path.join(self.context.folder, self.outlining_to_path), "w"
-                )
+                self.outlining_to = self._open_outlining_to()
                 self.start_tag_attrs = dict(
                     (key, val) for (_, key), val in node["data"]
                 )
@@ -203,6 +191,20 @@ class OutlineManipulator(HTMLManipulator):
         self.outlining_to.write(node["data"])
         return None
 
+    def _open_outlining_to(self) -> io.TextIOBase:
+        """Opens the temporary source file, creating the folders it is in. Other
+        pages are outlined concurrently and clean up the folders that they find
+        empty, which may include the ones we just created.
+        """
+        path = os.path.join(self.context.folder, self.outlining_to_path)
+        for attempt in range(100):
+            try:
+                makedirs_safely(os.path.dirname(path))
+                return open(path, "w")
+            except (FileNotFoundError, FileExistsError):
+                if attempt == 99:
+                    raise
+
     def _should_outline_script(self, node: tkn.HTMLToken) -> bool:
         return (
             node["type"] == "StartTag"
-- 
2.43.0


From 26f7d70dffb9f2ad9c0b767663a6e05bf1933d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:50 +0000
Subject: [PATCH 03/85] fix: outline style tags which have attributes

---
 vanillaplusjs/build/html/manips/outline.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vanillaplusjs/build/html/manips/outline.py b/vanillaplusjs/build/html/manips/outline.py
index 4854989..8931d6b 100644
--- a/vanillaplusjs/build/html/manips/outline.py
+++ b/vanillaplusjs/build/html/manips/outline.py
@@ -97,7 +97,7 @@ class OutlineManipulator(HTMLManipulator):
                 )
                 self.outlining_to = self._open_outlining_to()
                 self.start_tag_attrs = dict(
-                    (key, val) for (_, key), val in node["data"]
+                    (key, val) for (_, key), val in node["data"].items()
                 )
                 return None
 
-- 
2.43.0


From cdfa247d6f100fde850ca0cc4f5cc80ff9b5c150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:01 +0000
Subject: [PATCH 04/85] fix: remove the temporary source of an inline piece
 when processing it fails

It was left under src/public, where the next build took it for a source file.
---
 vanillaplusjs/build/html/manips/outline.py | 55 +++++++++++++---------
 1 file changed, 32 insertions(+), 23 deletions(-)

diff --git a/vanillaplusjs/build/html/manips/outline.py b/vanillaplusjs/build/html/manips/outline.py
index 8931d6b..d0466c1 100644
--- a/vanillaplusjs/build/html/manips/outline.py
+++ b/vanillaplusjs/build/html/manips/outline.py
@@ -110,29 +110,22 @@ class OutlineManipulator(HTMLManipulator):
             handler = (
                 self.js_handler if self.outlining == "script" else self.css_handler
             )
-            if self.mode == "scan":
-                scan_result = handler.scan_file(self.context, self.outlining_to_path)
-                self.dependencies.update(scan_result.dependencies)
-                self.produces.update(scan_result.produces)
-            else:
-                build_result = handler.build_file(self.context, self.outlining_to_path)
-                self.children.update(build_result.children)
-                self.produced.update(build_result.produced)
-                self.reused.update(build_result.reused)
-
-            os.remove(os.path.join(self.context.folder, self.outlining_to_path))
-            possibly_empty_folder: str = os.path.dirname(self.outlining_to_path)
-
-            while possibly_empty_folder.count(os.path.sep) > 2:
-                try:
-                    os.rmdir(os.path.join(self.context.folder, possibly_empty_folder))
-                except (FileNotFoundError, PermissionError):
-                    break  # Scanning can happen concurrently
-                except OSError as e:
-                    if e.errno == errno.ENOTEMPTY:
-                        break
-                    raise
-                possibly_empty_folder = os.path.dirname(possibly_empty_folder)
+            try:
+                if self.mode == "scan":
+                    scan_result = handler.scan_file(
+                        self.context, self.outlining_to_path
+                    )
+                    self.dependencies.update(scan_result.dependencies)
+                    self.produces.update(scan_result.produces)
+                else:
+                    build_result = handler.build_file(
+                        self.context, self.outlining_to_path
+                    )
+                    self.children.update(build_result.children)
+                    self.produced.update(build_result.produced)
+                    self.reused.update(build_result.reused)
+            finally:
+                self._remove_outlining_to()
 
             result_tag_attr = "src" if self.outlining == "script" else "href"
 
@@ -205,6 +198,22 @@ class OutlineManipulator(HTMLManipulator):
                 if attempt == 99:
                     raise
 
+    def _remove_outlining_to(self) -> None:
+        """Removes the temporary source file and the folders left empty by that"""
+        os.remove(os.path.join(self.context.folder, self.outlining_to_path))
+        possibly_empty_folder: str = os.path.dirname(self.outlining_to_path)
+
+        while possibly_empty_folder.count(os.path.sep) > 2:
+            try:
+                os.rmdir(os.path.join(self.context.folder, possibly_empty_folder))
+            except (FileNotFoundError, PermissionError):
+                break  # Scanning can happen concurrently
+            except OSError as e:
+                if e.errno == errno.ENOTEMPTY:
+                    break
+                raise
+            possibly_empty_folder = os.path.dirname(possibly_empty_folder)
+
     def _should_outline_script(self, node: tkn.HTMLToken) -> bool:
         return (
             node["type"] == "StartTag"
-- 
2.43.0


From 77afda01252d77a7dcf9dcdb8d4703882fe2569a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:20 +0000
Subject: [PATCH 05/85] fix: keep a recolored icon's drawing and hash up to
 date

The build did not report the drawing as a child, so its dependency was forgotten
after the first build and later edits of it were not picked up; and a recolored
icon which was already there was used without making sure that its hash is.
---
 vanillaplusjs/build/css/manips/icons/manip.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/vanillaplusjs/build/css/manips/icons/manip.py b/vanillaplusjs/build/css/manips/icons/manip.py
index a8ece96..aceeca4 100644
--- a/vanillaplusjs/build/css/manips/icons/manip.py
+++ b/vanillaplusjs/build/css/manips/icons/manip.py
@@ -75,6 +75,8 @@ class IconManipulator(CSSManipulator):
         if self.relpath != css_file_relpath:
             self.children.add(css_file_relpath)
 
+        self.children.add(args.input_icon)
+
         svg = None
         replacer = None
 
@@ -83,6 +85,7 @@ class IconManipulator(CSSManipulator):
             output_path = os.path.join(self.context.folder, output_relpath)
             if os.path.exists(output_path):
                 self.reused.add(output_relpath)
+                self._hash_icon(output_relpath)
                 continue
             if svg is None:
                 with open(os.path.join(self.context.folder, args.input_icon)) as f:
@@ -104,11 +107,8 @@ class IconManipulator(CSSManipulator):
             with open(output_path, "w", newline="\n") as f:
                 f.write(new_svg)
 
-            hash_result = hash_handler.build_file(self.context, output_relpath)
             self.produced.add(output_relpath)
-            self.children.update(hash_result.children)
-            self.produced.update(hash_result.produced)
-            self.reused.update(hash_result.reused)
+            self._hash_icon(output_relpath)
 
         resulting_tokens = []
         for size in args.output_sizes:
@@ -461,6 +461,13 @@ class IconManipulator(CSSManipulator):
 
         return resulting_tokens
 
+    def _hash_icon(self, output_relpath: str) -> None:
+        """Ensures the hash of the given recolored icon is available"""
+        hash_result = hash_handler.build_file(self.context, output_relpath)
+        self.children.update(hash_result.children)
+        self.produced.update(hash_result.produced)
+        self.reused.update(hash_result.reused)
+
     def get_icon_command_args(self, node: CSSToken) -> Optional[IconCommand]:
         if node["type"] != CSSTokenType.comment:
             return None
-- 
2.43.0


From b4856593657f5af2dee39ccd233d2068196c3f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:32 +0000
Subject: [PATCH 06/85] fix: do not depend on another producer of a file which
 the file itself produces

Two stylesheets which use the same icon both produce its recolored versions; each
then depended on whichever was scanned last, which over several builds adds up to
a cycle between stylesheets which do not reference each other.
---
 vanillaplusjs/build/hot_incremental_rebuild.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/vanillaplusjs/build/hot_incremental_rebuild.py b/vanillaplusjs/build/hot_incremental_rebuild.py
index 654d821..cd857d5 100644
--- a/vanillaplusjs/build/hot_incremental_rebuild.py
+++ b/vanillaplusjs/build/hot_incremental_rebuild.py
@@ -182,6 +182,11 @@ async def hot_incremental_rebuild(
                     new_dependencies.add(dep_relpath)
                     continue
 
+                if dep_relpath in scan_result.produces:
+                    # it will make sure this file is available itself, even if
+                    # there are others which also produce it
+                    continue
+
                 if dep_relpath in out_dependencies_mapping:
                     new_dependencies.add(out_dependencies_mapping[dep_relpath])
                     continue
@@ -370,6 +375,11 @@ async def hot_incremental_rebuild(
 
                     reinterpreted_children: List[str] = []
                     for child in rebuild_result.children:
+                        if (
+                            child in rebuild_result.produced
+                            or child in rebuild_result.reused
+                        ):
+                            continue
                         if child in out_dependencies_mapping:
                             mapped_child = out_dependencies_mapping[child]
                             if mapped_child != pending_file:
-- 
2.43.0


From 58bccb4120b65291124b3ed213a70eada45326f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:16 +0000
Subject: [PATCH 07/85] fix: rescan everything which is rebuilt, including what
 shares its outputs

A rebuilt file whose own contents had not changed kept the dependencies and
outputs of its last scan, although those are also decided by the partials it
includes and the colors and sizes in the default stylesheet; so it could be built
before a file it now refers to, or wait for an output it no longer produces. And
an output which was cleaned because one of its producers changed was only
restored if that one still produced it.
---
 .../build/hot_incremental_rebuild.py          | 101 ++++++++++++------
 1 file changed, 68 insertions(+), 33 deletions(-)

diff --git a/vanillaplusjs/build/hot_incremental_rebuild.py b/vanillaplusjs/build/hot_incremental_rebuild.py
index cd857d5..439316d 100644
--- a/vanillaplusjs/build/hot_incremental_rebuild.py
+++ b/vanillaplusjs/build/hot_incremental_rebuild.py
@@ -1,4 +1,4 @@
-from typing import Dict, List, Literal, Set, Tuple
+from typing import Dict, Iterable, List, Literal, Set, Tuple
 from vanillaplusjs.build.build_context import BuildContext
 from vanillaplusjs.build.build_file_result import BuildFileResult
 from vanillaplusjs.build.build_file import build_file
@@ -125,7 +125,22 @@ async def hot_incremental_rebuild(
         return
 
     with concurrent.futures.ProcessPoolExecutor() as executor:
-        files_that_need_scanning = list(changed_files.keys()) + list(added_files.keys())
+        # Everything which will be rebuilt is scanned, not only the files whose own
+        # contents changed: what a file depends on and produces is also decided
+        # by the files it includes (e.g., html partials) or which configure it
+        # (e.g., the colors in the default stylesheet)
+        deleted_files = set(deleted_files)
+        files_that_need_scanning = sorted(
+            find_affected_files(
+                itertools.chain(
+                    changed_files.keys(), added_files.keys(), deleted_files
+                ),
+                old_dependency_graph,
+                old_output_graph,
+                old_placeholders_graph,
+            )
+            - deleted_files
+        )
         updated_children: Dict[str, ScanFileResult] = dict()
         new_placeholders: Dict[str, str] = dict()  # placeholder -> original file
 
@@ -157,6 +172,7 @@ async def hot_incremental_rebuild(
                             os.path.join(context.folder, placeholder_relpath), "w"
                         ) as f:
                             f.write(placeholder_contents)
+                        deleted_files.discard(placeholder_relpath)
                         files_that_need_scanning.append(placeholder_relpath)
                         new_placeholders[placeholder_relpath] = scanned_file_relpath
                         added_files[placeholder_relpath] = get_file_signature(
@@ -197,9 +213,9 @@ async def hot_incremental_rebuild(
                             f"{scanned_file_relpath=} depends on {dep_relpath=}, but nothing produces that file!"
                         )
                     produced_by = old_output_graph.get_parents(dep_relpath)
-                    # take the first one which hasn't been deleted
+                    # take the first one which hasn't been deleted or changed
                     for p in produced_by:
-                        if p not in deleted_files:
+                        if p not in deleted_files and p not in updated_children:
                             out_dependencies_mapping[dep_relpath] = p
                             new_dependencies.add(p)
                             break
@@ -214,31 +230,11 @@ async def hot_incremental_rebuild(
         files_to_rebuild: Set[str] = set()
         dirtied_outputs: Set[str] = set()
         dirtied_artifacts: Set[str] = set()
-        stack: List[str] = []
-
-        for file in updated_children.keys():
-            files_to_rebuild.add(file)
-            stack.append(file)
-
-        for file in deleted_files:
-            files_to_rebuild.add(file)
-            stack.append(file)
 
-        while stack:
-            file = stack.pop()
-
-            if file in old_dependency_graph:
-                for par in old_dependency_graph.get_parents(file):
-                    if par not in files_to_rebuild:
-                        files_to_rebuild.add(par)
-                        stack.append(par)
-
-            if file in old_placeholders_graph:
-                for par in old_placeholders_graph.get_parents(file):
-                    if par not in files_to_rebuild:
-                        files_to_rebuild.add(par)
-                        stack.append(par)
+        files_to_rebuild.update(updated_children.keys())
+        files_to_rebuild.update(deleted_files)
 
+        for file in files_to_rebuild:
             if file in old_output_graph:
                 for child in old_output_graph.get_children(file):
                     if child.startswith("artifacts"):
@@ -424,18 +420,18 @@ async def hot_incremental_rebuild(
 
                     updated_results[pending_file] = rebuild_result
                     del pending_results[pending_file]
+                    for file in get_file_creates(pending_file):
+                        pending_dirty_outputs.discard(file)
+                        pending_artifacts.discard(file)
                     for file in rebuild_result.produced:
                         if file in still_dirty_outputs:
                             logger.debug("Cleaned {} using {}", file, pending_file)
                             still_dirty_outputs.remove(file)
-                            pending_dirty_outputs.remove(file)
                         elif file in still_dirty_artifacts:
                             logger.debug("Cleaned {} using {}", file, pending_file)
                             still_dirty_artifacts.remove(file)
-                            pending_artifacts.remove(file)
                         elif file in dirtied_artifacts:
                             logger.debug("Updated {} using {}", file, pending_file)
-                            pending_artifacts.remove(file)
                         else:
                             logger.debug("Produced {} from {}", file, pending_file)
                     for file in rebuild_result.reused:
@@ -445,7 +441,6 @@ async def hot_incremental_rebuild(
                                 file,
                             )
                             still_dirty_outputs.remove(file)
-                            pending_dirty_outputs.remove(file)
                         elif file in still_dirty_artifacts:
                             logger.debug(
                                 "Determined {} is not dirty using {}",
@@ -453,10 +448,8 @@ async def hot_incremental_rebuild(
                                 pending_file,
                             )
                             still_dirty_artifacts.remove(file)
-                            pending_artifacts.remove(file)
                         elif file in dirtied_artifacts:
                             logger.debug("Reused {} in {}", file, pending_file)
-                            pending_artifacts.remove(file)
                         else:
                             logger.debug("Reused {} for {}", file, pending_file)
 
@@ -621,6 +614,48 @@ async def hot_incremental_rebuild(
         logger.info('"{}" rebuilt successfully', context.folder)
 
 
+def find_affected_files(
+    files: Iterable[str],
+    old_dependency_graph: FileDependencyGraph,
+    old_output_graph: FileDependencyGraph,
+    old_placeholders_graph: FileDependencyGraph,
+) -> Set[str]:
+    """Determines which files need to be rebuilt because of the given files
+    having been changed, added, or deleted. This consists of those files, any
+    file which depends on or generates an affected file, and any file which
+    produced the same output as an affected file, since that output is going to
+    be cleaned.
+
+    Args:
+        files (Iterable[str]): The changed, added, or deleted files
+        old_dependency_graph (FileDependencyGraph): The dependencies of the old build
+        old_output_graph (FileDependencyGraph): The outputs of the old build
+        old_placeholders_graph (FileDependencyGraph): The placeholders of the old build
+
+    Returns:
+        set[str]: The affected files, including the given files
+    """
+    affected: Set[str] = set(files)
+    stack: List[str] = list(affected)
+    while stack:
+        file = stack.pop()
+        related: List[str] = []
+        if file in old_dependency_graph:
+            related.extend(old_dependency_graph.get_parents(file))
+        if file in old_placeholders_graph:
+            related.extend(old_placeholders_graph.get_parents(file))
+        if file in old_output_graph:
+            for output in old_output_graph.get_children(file):
+                related.extend(old_output_graph.get_parents(output))
+
+        for rel in related:
+            if rel not in affected:
+                affected.add(rel)
+                stack.append(rel)
+
+    return affected
+
+
 async def scan_files(
     context: BuildContext, executor: concurrent.futures.Executor, files: List[str]
 ) -> Dict[str, ScanFileResult]:
-- 
2.43.0


From b9b1cd5ea517b895cddbbd98827cc844c73d5104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:26 +0000
Subject: [PATCH 08/85] fix: do not build two producers of the same output at
 the same time

Only outputs which were being cleaned were held back. In a first build the
producers of a shared icon could run concurrently, where one takes the file
which the other is still writing for complete.
---
 .../build/hot_incremental_rebuild.py          | 20 +++++++++----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/vanillaplusjs/build/hot_incremental_rebuild.py b/vanillaplusjs/build/hot_incremental_rebuild.py
index 439316d..98a7724 100644
--- a/vanillaplusjs/build/hot_incremental_rebuild.py
+++ b/vanillaplusjs/build/hot_incremental_rebuild.py
@@ -271,9 +271,9 @@ async def hot_incremental_rebuild(
         updated_results: Dict[str, BuildFileResult] = dict()
         pending_results: Dict[str, asyncio.Future] = dict()
         still_dirty_outputs = set(dirtied_outputs)
-        pending_dirty_outputs = set()
         still_dirty_artifacts = set(dirtied_artifacts)
-        pending_artifacts = set()
+        pending_outputs: Set[str] = set()
+        finished_outputs: Set[str] = set()
 
         def get_file_depends_on(file: str) -> List[str]:
             if file in updated_children:
@@ -326,10 +326,10 @@ async def hot_incremental_rebuild(
 
                 all_outputs_not_pending = True
                 for output in file_creates:
-                    if output in pending_dirty_outputs or output in pending_artifacts:
+                    if output in pending_outputs:
                         all_outputs_not_pending = False
                         logger.debug(
-                            "Cannot rebuild {} while we are cleaning {}",
+                            "Cannot rebuild {} while we are producing {}",
                             file,
                             output,
                         )
@@ -339,10 +339,8 @@ async def hot_incremental_rebuild(
 
                 rebuildable_files.append(file)
                 for output in file_creates:
-                    if output in still_dirty_outputs:
-                        pending_dirty_outputs.add(output)
-                    elif output in dirtied_artifacts:
-                        pending_artifacts.add(output)
+                    if output not in finished_outputs or output in dirtied_artifacts:
+                        pending_outputs.add(output)
 
             if not rebuildable_files and not pending_results:
                 logger.error("No files to rebuild")
@@ -420,9 +418,9 @@ async def hot_incremental_rebuild(
 
                     updated_results[pending_file] = rebuild_result
                     del pending_results[pending_file]
-                    for file in get_file_creates(pending_file):
-                        pending_dirty_outputs.discard(file)
-                        pending_artifacts.discard(file)
+                    pending_outputs.difference_update(get_file_creates(pending_file))
+                    finished_outputs.update(rebuild_result.produced)
+                    finished_outputs.update(rebuild_result.reused)
                     for file in rebuild_result.produced:
                         if file in still_dirty_outputs:
                             logger.debug("Cleaned {} using {}", file, pending_file)
-- 
2.43.0


From 393aad8128bc84cb3a26a0255850efa60d611e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:12 +0000
Subject: [PATCH 09/85] fix: import from stylesheets which repeat a selector

Looking for a rule further on raised ValueError at the second rule with the same
selector; the first one is the one which is imported.
---
 vanillaplusjs/build/css/manips/nest.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/vanillaplusjs/build/css/manips/nest.py b/vanillaplusjs/build/css/manips/nest.py
index a9143a8..e18c911 100644
--- a/vanillaplusjs/build/css/manips/nest.py
+++ b/vanillaplusjs/build/css/manips/nest.py
@@ -574,6 +574,14 @@ class NestManipulator(CSSManipulator):
             while value and value[-1]["type"] == CSSTokenType.whitespace:
                 value.pop()
 
+            ref = QualifiedRuleReference(imp.relpath, serialized_prelude)
+            if (
+                ref in self.referencable_rules.available_rules
+                or ref in self.referencable_rules.unresolved_rules
+            ):
+                # the first rule with a given prelude is the one that's imported
+                continue
+
             self.referencable_rules.set_rule(
                 imp.relpath,
                 serialized_prelude,
-- 
2.43.0


From 41a3c9bd538e7a51f6a0cf07ef866039fcd94885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:23 +0000
Subject: [PATCH 10/85] fix: import rules which come after an at-rule without a
 block

The rule after a @charset or @import was taken for its block.
---
 vanillaplusjs/build/css/manips/nest.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/vanillaplusjs/build/css/manips/nest.py b/vanillaplusjs/build/css/manips/nest.py
index e18c911..b58a320 100644
--- a/vanillaplusjs/build/css/manips/nest.py
+++ b/vanillaplusjs/build/css/manips/nest.py
@@ -482,10 +482,16 @@ class NestManipulator(CSSManipulator):
                 continue
 
             if token["type"] == CSSTokenType.at_keyword:
-                while token["type"] != CSSTokenType.left_curly_bracket:
+                while token["type"] not in (
+                    CSSTokenType.left_curly_bracket,
+                    CSSTokenType.semicolon,
+                ):
                     token = next(generator)
                     if token["type"] == CSSTokenType.eof:
                         raise ValueError(f"{imp=}")
+                if token["type"] == CSSTokenType.semicolon:
+                    # e.g., @charset or @import, which have no block
+                    continue
                 nest_level = 1
                 while nest_level > 0:
                     token = next(generator)
-- 
2.43.0


From 204e1eb78bb17c0d70b97d566a1eb1328a0d4624 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:33 +0000
Subject: [PATCH 11/85] fix: resolve imports of a rule which itself imports
 from another file

When an import from the same file is resolved ahead of its turn, a rule's own
imports from other stylesheets were never looked up; and blocks inside an
imported rule were continued with the tokens after the import.
---
 vanillaplusjs/build/css/manips/nest.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vanillaplusjs/build/css/manips/nest.py b/vanillaplusjs/build/css/manips/nest.py
index b58a320..655555c 100644
--- a/vanillaplusjs/build/css/manips/nest.py
+++ b/vanillaplusjs/build/css/manips/nest.py
@@ -542,6 +542,9 @@ class NestManipulator(CSSManipulator):
                     continue
 
                 if (nested_import := self._get_import(token)) is not None:
+                    if nested_import.relpath != self.relpath:
+                        self._ensure_resolved(nested_import)
+
                     if nested_import in self.referencable_rules.available_rules:
                         stack = (
                             self.referencable_rules.available_rules[
@@ -562,7 +565,7 @@ class NestManipulator(CSSManipulator):
                     value.append(token)
                     nest_level = 1
                     while nest_level > 0:
-                        token = next(generator)
+                        token = stack.pop(0) if stack else next(generator)
                         if token["type"] == CSSTokenType.eof:
                             raise ValueError(f"{imp=}")
                         value.append(token)
-- 
2.43.0


From edf58574386f9d485f149b884c3fa930a6f400a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:45 +0000
Subject: [PATCH 12/85] fix: import selectors which contain the letters from

e.g., .fromage or .slide-from-left, which were silently ignored.
---
 vanillaplusjs/build/css/manips/nest.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/vanillaplusjs/build/css/manips/nest.py b/vanillaplusjs/build/css/manips/nest.py
index 655555c..030c0f6 100644
--- a/vanillaplusjs/build/css/manips/nest.py
+++ b/vanillaplusjs/build/css/manips/nest.py
@@ -218,6 +218,9 @@ PREPROCESSOR_IMPORT_ACTION_RULE = re.compile(
     r"^\s*!\s*PREPROCESSOR\s*:\s+import\s+(?P<args>.*)\s*$"
 )
 
+# Regex that matches the FROM [path] part of the import args
+PREPROCESSOR_IMPORT_FROM_RULE = re.compile(r"\sfrom\s+(?P<path>.*)$", re.IGNORECASE)
+
 
 class NestManipulator(CSSManipulator):
     """Allows simple CSS nesting via importing another style into a given
@@ -364,14 +367,11 @@ class NestManipulator(CSSManipulator):
 
         args = match.group("args")
         args = args.strip()
-        try:
-            from_index = args.lower().index("from")
-        except ValueError:
-            from_index = None
+        from_match = PREPROCESSOR_IMPORT_FROM_RULE.search(args)
 
         import_relpath = None
-        if from_index is not None:
-            from_arg = args[from_index + 4 :].strip()
+        if from_match is not None:
+            from_arg = from_match.group("path").strip()
             if not from_arg.startswith("/") or " " in from_arg:
                 # parse error
                 return
@@ -385,7 +385,7 @@ class NestManipulator(CSSManipulator):
             import_relpath = self.context.default_css_file.replace("/", os.path.sep)
 
         import_prelude = (
-            args.strip() if from_index is None else args[:from_index].strip()
+            args.strip() if from_match is None else args[: from_match.start()].strip()
         )
         return QualifiedRuleReference(import_relpath, import_prelude)
 
-- 
2.43.0


From 803ed9984a550a972f16828d3c3aad1db72e6ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:53 +0000
Subject: [PATCH 13/85] fix: rebuild stylesheets whose icon commands were
 ignored when that may have changed

Commands which name only colors or sizes that the default stylesheet lacks are
skipped; adding them there had no effect until the stylesheet itself was edited.
Also do not fail when a configured button uses a missing color.
---
 vanillaplusjs/build/css/manips/icons/manip.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/vanillaplusjs/build/css/manips/icons/manip.py b/vanillaplusjs/build/css/manips/icons/manip.py
index aceeca4..c8bad3b 100644
--- a/vanillaplusjs/build/css/manips/icons/manip.py
+++ b/vanillaplusjs/build/css/manips/icons/manip.py
@@ -71,10 +71,6 @@ class IconManipulator(CSSManipulator):
         args = self.get_icon_command_args(node)
         assert args is not None, "continue_mark on non-icon command"
 
-        css_file_relpath = self.context.default_css_file.replace("/", os.path.sep)
-        if self.relpath != css_file_relpath:
-            self.children.add(css_file_relpath)
-
         self.children.add(args.input_icon)
 
         svg = None
@@ -488,6 +484,14 @@ class IconManipulator(CSSManipulator):
         except StopIteration as e:
             args: IconCommand = e.value
 
+        # even if the command is ignored due to what's in the default css file
+        css_file_relpath = self.context.default_css_file.replace("/", os.path.sep)
+        if self.relpath != css_file_relpath:
+            if self.mode == "scan":
+                self.dependencies.add(css_file_relpath)
+            else:
+                self.children.add(css_file_relpath)
+
         if args.icon_initial_color not in self.context.icon_settings.color_map:
             return
 
@@ -548,7 +552,7 @@ class IconManipulator(CSSManipulator):
                     real_button,
                     button_by_identifier=dict(
                         (iden, setting)
-                        for iden, setting in real_button.button_by_identifier
+                        for iden, setting in real_button.button_by_identifier.items()
                         if iden not in purge_idens
                     ),
                 )
@@ -561,10 +565,6 @@ class IconManipulator(CSSManipulator):
         """Adds any dependencies or produces appropriate for the icon command
         with the given arguments.
         """
-        css_file_relpath = self.context.default_css_file.replace("/", os.path.sep)
-        if self.relpath != css_file_relpath:
-            self.dependencies.add(css_file_relpath)
-
         self.dependencies.add(args.input_icon)
 
         for color in args.output_colors:
-- 
2.43.0


From b595711331013b90ada52719a4d02790673a9f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:24 +0000
Subject: [PATCH 14/85] fix: named colors for icons which are missing or differ
 from css

---
 vanillaplusjs/build/css/manips/icons/settings.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/vanillaplusjs/build/css/manips/icons/settings.py b/vanillaplusjs/build/css/manips/icons/settings.py
index a29444d..3096f5f 100644
--- a/vanillaplusjs/build/css/manips/icons/settings.py
+++ b/vanillaplusjs/build/css/manips/icons/settings.py
@@ -246,6 +246,7 @@ NAMED_CSS_COLORS = {
     "darkcyan": Color(red=0, green=139, blue=139),
     "darkgoldenrod": Color(red=184, green=134, blue=11),
     "darkgray": Color(red=169, green=169, blue=169),
+    "darkgrey": Color(red=169, green=169, blue=169),
     "darkgreen": Color(red=0, green=100, blue=0),
     "darkkhaki": Color(red=189, green=183, blue=107),
     "darkmagenta": Color(red=139, green=0, blue=139),
@@ -257,11 +258,13 @@ NAMED_CSS_COLORS = {
     "darkseagreen": Color(red=143, green=188, blue=143),
     "darkslateblue": Color(red=72, green=61, blue=139),
     "darkslategray": Color(red=47, green=79, blue=79),
+    "darkslategrey": Color(red=47, green=79, blue=79),
     "darkturquoise": Color(red=0, green=206, blue=209),
     "darkviolet": Color(red=148, green=0, blue=211),
     "deeppink": Color(red=255, green=20, blue=147),
     "deepskyblue": Color(red=0, green=191, blue=255),
     "dimgray": Color(red=105, green=105, blue=105),
+    "dimgrey": Color(red=105, green=105, blue=105),
     "dodgerblue": Color(red=30, green=144, blue=255),
     "firebrick": Color(red=178, green=34, blue=34),
     "floralwhite": Color(red=255, green=250, blue=240),
@@ -271,7 +274,8 @@ NAMED_CSS_COLORS = {
     "ghostwhite": Color(red=248, green=248, blue=255),
     "gold": Color(red=255, green=215, blue=0),
     "goldenrod": Color(red=218, green=165, blue=32),
-    "gray": Color(red=127, green=127, blue=127),
+    "gray": Color(red=128, green=128, blue=128),
+    "grey": Color(red=128, green=128, blue=128),
     "green": Color(red=0, green=128, blue=0),
     "greenyellow": Color(red=173, green=255, blue=47),
     "honeydew": Color(red=240, green=255, blue=240),
@@ -289,12 +293,14 @@ NAMED_CSS_COLORS = {
     "lightcyan": Color(red=224, green=255, blue=255),
     "lightgoldenrodyellow": Color(red=250, green=250, blue=210),
     "lightgreen": Color(red=144, green=238, blue=144),
+    "lightgray": Color(red=211, green=211, blue=211),
     "lightgrey": Color(red=211, green=211, blue=211),
     "lightpink": Color(red=255, green=182, blue=193),
     "lightsalmon": Color(red=255, green=160, blue=122),
     "lightseagreen": Color(red=32, green=178, blue=170),
     "lightskyblue": Color(red=135, green=206, blue=250),
     "lightslategray": Color(red=119, green=136, blue=153),
+    "lightslategrey": Color(red=119, green=136, blue=153),
     "lightsteelblue": Color(red=176, green=196, blue=222),
     "lightyellow": Color(red=255, green=255, blue=224),
     "lime": Color(red=0, green=255, blue=0),
@@ -335,12 +341,13 @@ NAMED_CSS_COLORS = {
     "plum": Color(red=221, green=160, blue=221),
     "powderblue": Color(red=176, green=224, blue=230),
     "purple": Color(red=128, green=0, blue=128),
+    "rebeccapurple": Color(red=102, green=51, blue=153),
     "red": Color(red=255, green=0, blue=0),
     "rosybrown": Color(red=188, green=143, blue=143),
     "royalblue": Color(red=65, green=105, blue=225),
     "saddlebrown": Color(red=139, green=69, blue=19),
     "salmon": Color(red=250, green=128, blue=114),
-    "sandybrown": Color(red=250, green=128, blue=114),
+    "sandybrown": Color(red=244, green=164, blue=96),
     "seagreen": Color(red=46, green=139, blue=87),
     "seashell": Color(red=255, green=245, blue=238),
     "sienna": Color(red=160, green=82, blue=45),
@@ -348,6 +355,7 @@ NAMED_CSS_COLORS = {
     "skyblue": Color(red=135, green=206, blue=235),
     "slateblue": Color(red=106, green=90, blue=205),
     "slategray": Color(red=112, green=128, blue=144),
+    "slategrey": Color(red=112, green=128, blue=144),
     "snow": Color(red=255, green=250, blue=250),
     "springgreen": Color(red=0, green=255, blue=127),
     "steelblue": Color(red=70, green=130, blue=180),
-- 
2.43.0


From 28b75f9da2a929dff600e30c901fc03db3fb050d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:57 +0000
Subject: [PATCH 15/85] fix: read the colors and icon sizes after a variable
 with several values

The first variable in :root whose value is not a single token, or a last one
without a semicolon, hid the ones after it.
---
 .../build/css/manips/icons/settings.py        | 56 ++++++++++++-------
 1 file changed, 35 insertions(+), 21 deletions(-)

diff --git a/vanillaplusjs/build/css/manips/icons/settings.py b/vanillaplusjs/build/css/manips/icons/settings.py
index 3096f5f..569fc9a 100644
--- a/vanillaplusjs/build/css/manips/icons/settings.py
+++ b/vanillaplusjs/build/css/manips/icons/settings.py
@@ -178,30 +178,31 @@ def load_icon_settings(context: BuildContext) -> IconSettings:
                 # token is the left curly bracket for the :root qualified rule
                 token = next_significant()
                 while token["type"] != CSSTokenType.right_curly_bracket:
-                    if token["type"] != CSSTokenType.ident:
-                        # parse error
-                        break
-
-                    component_name = token["value"]
-
-                    token = next_significant()
-                    if token["type"] != CSSTokenType.colon:
-                        # parse error
-                        break
-
-                    component_value: List[CSSToken] = [next_significant()]
-                    if component_value[0]["type"] == CSSTokenType.function:
+                    declaration: List[CSSToken] = []
+                    nest_level = 0
+                    while nest_level > 0 or token["type"] not in (
+                        CSSTokenType.semicolon,
+                        CSSTokenType.right_curly_bracket,
+                    ):
+                        if token["type"] in OPENING_TOKEN_TYPES:
+                            nest_level += 1
+                        elif token["type"] in CLOSING_TOKEN_TYPES:
+                            nest_level -= 1
+                        declaration.append(token)
+                        token = next_significant()
+                    if token["type"] == CSSTokenType.semicolon:
                         token = next_significant()
-                        while token["type"] != CSSTokenType.right_parens:
-                            component_value.append(token)
-                            token = next_significant()
-                        component_value.append(token)
 
-                    token = next_significant()
-                    if token["type"] != CSSTokenType.semicolon:
+                    if (
+                        len(declaration) < 3
+                        or declaration[0]["type"] != CSSTokenType.ident
+                        or declaration[1]["type"] != CSSTokenType.colon
+                    ):
                         # parse error
-                        break
-                    token = next_significant()
+                        continue
+
+                    component_name = declaration[0]["value"]
+                    component_value = declaration[2:]
 
                     if component_name.startswith("--col-"):
                         color = interpret_as_color(component_value)
@@ -220,6 +221,19 @@ def load_icon_settings(context: BuildContext) -> IconSettings:
     )
 
 
+OPENING_TOKEN_TYPES = (
+    CSSTokenType.function,
+    CSSTokenType.left_parens,
+    CSSTokenType.left_square_bracket,
+    CSSTokenType.left_curly_bracket,
+)
+CLOSING_TOKEN_TYPES = (
+    CSSTokenType.right_parens,
+    CSSTokenType.right_square_bracket,
+    CSSTokenType.right_curly_bracket,
+)
+
+
 NAMED_CSS_COLORS = {
     "aliceblue": Color(red=240, green=248, blue=255),
     "antiquewhite": Color(red=250, green=235, blue=215),
-- 
2.43.0


From 652be0babc3e0d6869b2be34e099f870710362af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:06 +0000
Subject: [PATCH 16/85] fix: load configured buttons when there is no default
 button

---
 vanillaplusjs/build/css/manips/icons/settings.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/vanillaplusjs/build/css/manips/icons/settings.py b/vanillaplusjs/build/css/manips/icons/settings.py
index 569fc9a..a4fb79a 100644
--- a/vanillaplusjs/build/css/manips/icons/settings.py
+++ b/vanillaplusjs/build/css/manips/icons/settings.py
@@ -68,6 +68,7 @@ def load_icon_settings(context: BuildContext) -> IconSettings:
         ),
         button_by_identifier=dict(),
     )
+    fallback_button: ButtonSetting = button_settings.default_button
     icons: Optional[dict] = config.get("icons")
     if icons is not None:
         default_button: Optional[dict] = icons.get(
@@ -108,15 +109,16 @@ def load_icon_settings(context: BuildContext) -> IconSettings:
                 button_settings, button_by_identifier=dict()
             )
         else:
+            fallback_button = button_settings.default_button or fallback_button
             for button_identifier, button_config in button_by_identifier.items():
                 active_color: Optional[str] = button_config.get(
-                    "active_color", button_settings.default_button.active_color
+                    "active_color", fallback_button.active_color
                 )
                 hover_color: Optional[str] = button_config.get(
-                    "hover_color", button_settings.default_button.hover_color
+                    "hover_color", fallback_button.hover_color
                 )
                 disabled_color: Optional[str] = button_config.get(
-                    "disabled_color", button_settings.default_button.disabled_color
+                    "disabled_color", fallback_button.disabled_color
                 )
                 if (
                     active_color is not None
-- 
2.43.0


From b153ff6a01c993f261a59984add8c5bdb1c0b4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:43 +0000
Subject: [PATCH 17/85] fix: start afresh after a build which was interrupted
 or failed

---
 vanillaplusjs/build/build_context.py          |  9 +++++
 .../build/cold_incremental_rebuild.py         | 40 ++++++++++++++++++-
 .../build/hot_incremental_rebuild.py          | 34 +++++++++-------
 vanillaplusjs/build/ioutil.py                 | 13 ++++++
 vanillaplusjs/runners/build.py                |  7 +++-
 5 files changed, 86 insertions(+), 17 deletions(-)

diff --git a/vanillaplusjs/build/build_context.py b/vanillaplusjs/build/build_context.py
index b4c7852..007540d 100644
--- a/vanillaplusjs/build/build_context.py
+++ b/vanillaplusjs/build/build_context.py
@@ -211,6 +211,15 @@ class BuildContext:
         """
         return os.path.join(self.out_folder, "placeholder_graph.json")
 
+    @property
+    def incomplete_build_file(self) -> str:
+        """Returns the path to the file which exists while a build is changing
+        the out folder. If it exists when a build starts, then the last build did
+        not finish and what it left in the out folder is not described by the
+        graphs.
+        """
+        return os.path.join(self.out_folder, "incomplete_build.txt")
+
     @property
     def external_files_state_file(self) -> str:
         """Returns the path to the external files state JSON file"""
diff --git a/vanillaplusjs/build/cold_incremental_rebuild.py b/vanillaplusjs/build/cold_incremental_rebuild.py
index 796770a..e2714e6 100644
--- a/vanillaplusjs/build/cold_incremental_rebuild.py
+++ b/vanillaplusjs/build/cold_incremental_rebuild.py
@@ -8,12 +8,13 @@ from vanillaplusjs.build.build_context import (
     ExternalFilesState,
 )
 from vanillaplusjs.build.exceptions import IntegrityMismatchException
-from vanillaplusjs.build.ioutil import makedirs_safely
+from vanillaplusjs.build.ioutil import makedirs_safely, open_atomically
 from .graph import FileDependencyGraph
 from .file_signature import FileSignature, get_file_signature
 from .hot_incremental_rebuild import hot_incremental_rebuild
 from loguru import logger
 import os
+import shutil
 from typing import Dict, Optional, Set, List
 import concurrent.futures
 import hashlib
@@ -23,6 +24,41 @@ import json
 import dataclasses
 
 
+def discard_incomplete_build(context: BuildContext) -> None:
+    """If the last build was interrupted or failed while it was changing the
+    out folder, removes everything from the out folder which is easily recreated,
+    so that the next build starts afresh. This must be called before the graphs
+    are loaded.
+
+    Args:
+        context (BuildContext): The context to build in
+    """
+    if not os.path.exists(context.incomplete_build_file):
+        return
+
+    logger.info("The last build did not finish, starting afresh")
+    to_keep = (
+        context.incomplete_build_file,
+        context.placeholder_graph_file,
+        context.external_files_state_file,
+    )
+    # www itself is kept since it is the working directory while serving it
+    www_folder = os.path.join(context.out_folder, "www")
+    for folder in (www_folder, context.out_folder):
+        if not os.path.isdir(folder):
+            continue
+        for name in os.listdir(folder):
+            path = os.path.join(folder, name)
+            if path in to_keep or path == www_folder:
+                continue
+            if os.path.isdir(path) and not os.path.islink(path):
+                shutil.rmtree(path)
+            else:
+                os.unlink(path)
+
+    os.unlink(context.incomplete_build_file)
+
+
 async def cold_incremental_rebuild(
     context: BuildContext,
     old_dependency_graph: FileDependencyGraph,
@@ -184,7 +220,7 @@ async def check_external_files(context: BuildContext):
 
     external_files_state_folder = os.path.dirname(context.external_files_state_file)
     makedirs_safely(external_files_state_folder)
-    with open(context.external_files_state_file, "w") as f:
+    with open_atomically(context.external_files_state_file) as f:
         json.dump(dataclasses.asdict(new_external_files_state), f)
 
 
diff --git a/vanillaplusjs/build/hot_incremental_rebuild.py b/vanillaplusjs/build/hot_incremental_rebuild.py
index 98a7724..2ac9c36 100644
--- a/vanillaplusjs/build/hot_incremental_rebuild.py
+++ b/vanillaplusjs/build/hot_incremental_rebuild.py
@@ -6,7 +6,7 @@ from vanillaplusjs.build.exceptions import (
     CyclicDependencyException,
 )
 from vanillaplusjs.build.file_signature import FileSignature, get_file_signature
-from vanillaplusjs.build.ioutil import makedirs_safely
+from vanillaplusjs.build.ioutil import makedirs_safely, open_atomically
 from vanillaplusjs.build.scan_file import scan_file
 from vanillaplusjs.build.scan_file_result import ScanFileResult
 from .graph import FileDependencyGraph
@@ -87,9 +87,9 @@ async def hot_incremental_rebuild(
         context.folder,
     )
 
+    current_mode: Literal["dev", "prod"] = "dev" if context.dev else "prod"
+    old_constants_mode = None
     if os.path.exists(os.path.join(context.folder, context.js_constants.relpath)):
-        current_mode: Literal["dev", "prod"] = "dev" if context.dev else "prod"
-        old_constants_mode = None
         try:
             with open(
                 os.path.join(context.out_folder, "js_constants_mode.txt"), "r"
@@ -108,12 +108,6 @@ async def hot_incremental_rebuild(
                 changed_files[context.js_constants.relpath] = get_file_signature(
                     os.path.join(context.folder, context.js_constants.relpath)
                 )
-
-            makedirs_safely(context.out_folder)
-            with open(
-                os.path.join(context.out_folder, "js_constants_mode.txt"), "w"
-            ) as f:
-                f.write(current_mode)
     else:
         try:
             os.unlink(os.path.join(context.out_folder, "js_constants_mode.txt"))
@@ -251,6 +245,12 @@ async def hot_incremental_rebuild(
         logger.debug("{} files to clean", len(dirtied_outputs))
         logger.debug("{} files to possibly clean", len(dirtied_artifacts))
 
+        # From here until the graphs are stored they do not describe what is in
+        # the out folder
+        makedirs_safely(context.out_folder)
+        with open(context.incomplete_build_file, "w"):
+            pass
+
         possibly_empty_folders = set()
         for file in itertools.chain(dirtied_outputs, dirtied_artifacts):
             folder = os.path.dirname(file)
@@ -597,17 +597,23 @@ async def hot_incremental_rebuild(
             "Finished constructing new dependency, output, and placeholder graphs"
         )
 
-        makedirs_safely(context.out_folder)
-
-        with open(context.dependency_graph_file, "w") as fp:
+        with open_atomically(context.dependency_graph_file) as fp:
             new_dependency_graph.store(fp)
 
-        with open(context.output_graph_file, "w") as fp:
+        with open_atomically(context.output_graph_file) as fp:
             new_output_graph.store(fp)
 
-        with open(context.placeholder_graph_file, "w") as fp:
+        with open_atomically(context.placeholder_graph_file) as fp:
             new_placeholder_graph.store(fp)
 
+        if context.js_constants.relpath in new_dependency_graph:
+            with open(
+                os.path.join(context.out_folder, "js_constants_mode.txt"), "w"
+            ) as fp:
+                fp.write(current_mode)
+
+        os.unlink(context.incomplete_build_file)
+
         logger.debug("Finished storing dependency, output, and placeholder graphs")
         logger.info('"{}" rebuilt successfully', context.folder)
 
diff --git a/vanillaplusjs/build/ioutil.py b/vanillaplusjs/build/ioutil.py
index 66b7e1a..5974efd 100644
--- a/vanillaplusjs/build/ioutil.py
+++ b/vanillaplusjs/build/ioutil.py
@@ -2,6 +2,7 @@
 """
 
 
+from contextlib import contextmanager
 from typing import Optional
 import re
 from io import TextIOBase
@@ -16,6 +17,18 @@ CARRIAGE_RETURN_LIKE = re.compile(r"\r\n|\r|\f")
 SURROGATE = re.compile(r"[\ud800-\udfff]")
 
 
+@contextmanager
+def open_atomically(filepath: str):
+    """Opens a text file for writing which takes the place of the file at the
+    given path once everything has been written to it, such that nobody sees a
+    partially written file.
+    """
+    temp_path = filepath + ".tmp"
+    with open(temp_path, "w") as fp:
+        yield fp
+    os.replace(temp_path, filepath)
+
+
 class PeekableTextIO:
     """Wraps a text io in such a way that it can be peeked at."""
 
diff --git a/vanillaplusjs/runners/build.py b/vanillaplusjs/runners/build.py
index c7c4533..7636387 100644
--- a/vanillaplusjs/runners/build.py
+++ b/vanillaplusjs/runners/build.py
@@ -10,7 +10,10 @@ from vanillaplusjs.build.build_context import (
     load_external_files,
     load_js_constants,
 )
-from vanillaplusjs.build.cold_incremental_rebuild import cold_incremental_rebuild
+from vanillaplusjs.build.cold_incremental_rebuild import (
+    cold_incremental_rebuild,
+    discard_incomplete_build,
+)
 from vanillaplusjs.build.css.manips.icons.settings import load_icon_settings
 from vanillaplusjs.build.html.manips.images.settings import load_image_settings
 import vanillaplusjs.constants
@@ -127,6 +130,8 @@ def build(
     context.js_constants = load_js_constants(config["js_constants"])
     context.delay_files = delay_files
 
+    discard_incomplete_build(context)
+
     old_dependency_graph = FileDependencyGraph()
     # In this graph, all the files in the graph are input files, and input
     # file a is a parent of input file b if the outputs of a depend on b.
-- 
2.43.0


From 7545c00850f4d04b453d56653d31fbb502b93204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:17 +0000
Subject: [PATCH 18/85] fix: rebuild according to what is on disk when
 watching, and keep watching after any failure

---
 vanillaplusjs/runners/dev.py | 98 ++++++++++++++++++------------------
 1 file changed, 49 insertions(+), 49 deletions(-)

diff --git a/vanillaplusjs/runners/dev.py b/vanillaplusjs/runners/dev.py
index b4282b6..f001b62 100644
--- a/vanillaplusjs/runners/dev.py
+++ b/vanillaplusjs/runners/dev.py
@@ -203,9 +203,7 @@ class DevEventHandler(FileSystemEventHandler):
             if now - self.last_change_at < self.debounce_seconds:
                 return
 
-            deleted = self.deleted_files.copy()
-            changed = self.changed_files.copy()
-            created = self.created_files.copy()
+            touched = self.deleted_files | self.changed_files | self.created_files
 
             self.deleted_files.clear()
             self.changed_files.clear()
@@ -213,6 +211,25 @@ class DevEventHandler(FileSystemEventHandler):
 
         logger.info("Rebuilding...")
 
+        try:
+            self._rebuild(touched)
+        except (Exception, SystemExit):
+            logger.exception("Error rebuilding")
+            with self.lock:
+                # if there were changes while we were building then it may be
+                # buildable by now
+                self.project_is_unbuildable = not (
+                    self.deleted_files or self.changed_files or self.created_files
+                )
+                self.changed_files.update(touched)
+
+    def _rebuild(self, touched: Set[str]):
+        """Rebuilds the project, given the files that there have been events for.
+
+        Args:
+            touched (set[str]): The absolute paths to the files which may have been
+                created, changed, or deleted
+        """
         context = BuildContext(self.folder, dev=True, symlinks=self.symlinks)
 
         with open(context.config_file) as f:
@@ -228,6 +245,10 @@ class DevEventHandler(FileSystemEventHandler):
         context.js_constants = load_js_constants(config["js_constants"])
         context.delay_files = []
 
+        if os.path.exists(context.incomplete_build_file):
+            build(self.folder, dev=True, symlinks=self.symlinks, delay_files=[])
+            return
+
         old_dependency_graph = FileDependencyGraph()
         old_output_graph = FileDependencyGraph()
         old_placeholder_graph = FileDependencyGraph()
@@ -244,17 +265,26 @@ class DevEventHandler(FileSystemEventHandler):
             with open(context.placeholder_graph_file) as f:
                 old_placeholder_graph = FileDependencyGraph.load(f)
 
-        changed_files = dict(
-            (os.path.relpath(file, self.folder), get_file_signature(file))
-            for file in changed
-        )
-
-        added_files = dict(
-            (os.path.relpath(file, self.folder), get_file_signature(file))
-            for file in created
-        )
-
-        deleted_files = list(os.path.relpath(file, self.folder) for file in deleted)
+        # There may have been several events for the same file, so what happened to
+        # it overall is decided by what is there now
+        changed_files = dict()
+        added_files = dict()
+        deleted_files = []
+        for file in touched:
+            relpath = os.path.relpath(file, self.folder)
+            if os.path.isfile(file):
+                if relpath in old_dependency_graph:
+                    changed_files[relpath] = get_file_signature(file)
+                else:
+                    added_files[relpath] = get_file_signature(file)
+            elif relpath in old_dependency_graph:
+                deleted_files.append(relpath)
+            else:
+                # a folder which was moved elsewhere takes its files with it
+                for known_relpath in old_dependency_graph.nodes:
+                    if known_relpath.startswith(relpath + os.path.sep):
+                        if not os.path.isfile(os.path.join(self.folder, known_relpath)):
+                            deleted_files.append(known_relpath)
 
         if changed_files:
             for file, signature in changed_files.items():
@@ -289,32 +319,6 @@ class DevEventHandler(FileSystemEventHandler):
                     asyncio.wait(pending, return_when=asyncio.ALL_COMPLETED)
                 )
                 pending = asyncio.all_tasks(loop)
-
-            with self.lock:
-                self.project_is_unbuildable = False
-        except Exception:
-            logger.exception("Error rebuilding")
-            with self.lock:
-                for file in changed:
-                    if os.path.lexists(file):
-                        if file not in self.created_files:
-                            self.changed_files.add(file)
-                        if file in self.deleted_files:
-                            self.deleted_files.remove(file)
-                for file in created:
-                    if os.path.lexists(file):
-                        if file not in self.changed_files:
-                            self.created_files.add(file)
-                        if file in self.deleted_files:
-                            self.deleted_files.remove(file)
-                for file in deleted:
-                    if not os.path.lexists(file):
-                        if file in self.changed_files:
-                            self.changed_files.remove(file)
-                        if file in self.created_files:
-                            self.created_files.remove(file)
-                        self.deleted_files.add(file)
-                self.project_is_unbuildable = True
         finally:
             asyncio.set_event_loop(None)
             loop.close()
@@ -341,16 +345,12 @@ class DevEventHandler(FileSystemEventHandler):
             self.last_change_at = time.time()
 
     def on_deleted(self, event: FileDeletedEvent):
-        if event.is_directory:
-            return
         with self.lock:
-            if event.src_path in self.changed_files:
-                self.changed_files.remove(event.src_path)
-                self.deleted_files.add(event.src_path)
-            elif event.src_path in self.created_files:
-                self.created_files.remove(event.src_path)
-            else:
-                self.deleted_files.add(event.src_path)
+            # it may have existed in the last build even if we saw it being
+            # created, e.g., if another file was moved over it
+            self.changed_files.discard(event.src_path)
+            self.created_files.discard(event.src_path)
+            self.deleted_files.add(event.src_path)
             self.project_is_unbuildable = False
             self.last_change_at = time.time()
 
-- 
2.43.0


From 9083149ba48b6629b7b0de101780742906f4e6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:24 +0000
Subject: [PATCH 19/85] fix: forget outputs which are no longer produced by a
 file that still exists

---
 vanillaplusjs/build/hot_incremental_rebuild.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/vanillaplusjs/build/hot_incremental_rebuild.py b/vanillaplusjs/build/hot_incremental_rebuild.py
index 2ac9c36..d5a2d20 100644
--- a/vanillaplusjs/build/hot_incremental_rebuild.py
+++ b/vanillaplusjs/build/hot_incremental_rebuild.py
@@ -509,12 +509,8 @@ async def hot_incremental_rebuild(
 
                 if old_parents:
                     # this is produced file; we can delete it from the graph if
-                    # nothing else is now producing it
-                    if any(p in deleted_files for p in old_parents) and not any(
-                        p not in deleted_files and p not in updated_results
-                        for p in old_parents
-                    ):
-                        possibly_empty_output_nodes.add(file)
+                    # nothing is producing it anymore
+                    possibly_empty_output_nodes.add(file)
                 else:
                     # this is a consumed file; we only need it if it still exists
                     if file in deleted_files:
-- 
2.43.0


From d42b0f46994c130acf248ed71abdc31a007ca9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:07 +0000
Subject: [PATCH 20/85] fix: generate the icons of a stylesheet before it
 refers to them

---
 vanillaplusjs/build/handlers/css.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/vanillaplusjs/build/handlers/css.py b/vanillaplusjs/build/handlers/css.py
index 6492a4f..c27b113 100644
--- a/vanillaplusjs/build/handlers/css.py
+++ b/vanillaplusjs/build/handlers/css.py
@@ -72,6 +72,15 @@ def build_file(context: BuildContext, relpath: str) -> BuildFileResult:
     produced = set()
     reused = set()
 
+    # The icons this file generates may be referred to earlier in this file than
+    # the command which generates them
+    icons = IconManipulator(context, relpath, "build")
+    manipulate_and_serialize(
+        infile=os.path.join(context.folder, relpath),
+        outfile=None,
+        manipulators=[icons],
+    )
+
     manips = [manip(context, relpath, "build") for manip in MANIPULATORS]
 
     manipulate_and_serialize(
@@ -83,6 +92,7 @@ def build_file(context: BuildContext, relpath: str) -> BuildFileResult:
     produced.add(target_path)
 
     sub_build_results: List[BuildFileResult] = [
+        icons.build_result(),
         vanillaplusjs.build.handlers.hash.build_file(context, target_path),
         *[manip.build_result() for manip in manips],
     ]
-- 
2.43.0


From 0cdd89c845b04c6318a43e162b33b2025059d0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:00 +0000
Subject: [PATCH 21/85] fix: never write inline code into the source folder
 while outlining it

An interrupted build left the temporary sources behind, which the next build then
published, and a source which happened to have the same path was overwritten and
removed.
---
 vanillaplusjs/build/build_context.py       | 17 ++++++-
 vanillaplusjs/build/css/manips/nest.py     |  2 +-
 vanillaplusjs/build/handlers/css.py        |  6 +--
 vanillaplusjs/build/handlers/js.py         |  4 +-
 vanillaplusjs/build/html/manips/outline.py | 55 +++++++++-------------
 5 files changed, 44 insertions(+), 40 deletions(-)

diff --git a/vanillaplusjs/build/build_context.py b/vanillaplusjs/build/build_context.py
index 007540d..ff46067 100644
--- a/vanillaplusjs/build/build_context.py
+++ b/vanillaplusjs/build/build_context.py
@@ -1,4 +1,4 @@
-from dataclasses import dataclass
+from dataclasses import dataclass, field
 import os
 from typing import Dict, List, Optional, TYPE_CHECKING, Union
 
@@ -144,6 +144,21 @@ class BuildContext:
     at least a few seconds.
     """
 
+    outlined_sources: Dict[str, str] = field(default_factory=dict)
+    """Where to find the contents of files which do not actually exist within the
+    source folder because they are a part of another file, such as inline scripts.
+    Goes from the path relative to the project root to the path of the contents.
+    """
+
+    def get_source_path(self, relpath: str) -> str:
+        """Returns the path to the contents of the source file at the given path
+        relative to the project root.
+        """
+        outlined_path = self.outlined_sources.get(relpath)
+        if outlined_path is not None:
+            return outlined_path
+        return os.path.join(self.folder, relpath)
+
     @property
     def src_folder(self) -> str:
         """Returns the src folder where the input files are located"""
diff --git a/vanillaplusjs/build/css/manips/nest.py b/vanillaplusjs/build/css/manips/nest.py
index 030c0f6..8879372 100644
--- a/vanillaplusjs/build/css/manips/nest.py
+++ b/vanillaplusjs/build/css/manips/nest.py
@@ -449,7 +449,7 @@ class NestManipulator(CSSManipulator):
                     f"cannot resolve {imp} because we exhausted it before finding {imp.prelude}"
                 )
             generator = tokenize_and_close(
-                open(os.path.join(self.context.folder, self.relpath))
+                open(self.context.get_source_path(self.relpath))
             )
             self.resumable_imports[self.relpath] = generator
 
diff --git a/vanillaplusjs/build/handlers/css.py b/vanillaplusjs/build/handlers/css.py
index c27b113..fbc86a5 100644
--- a/vanillaplusjs/build/handlers/css.py
+++ b/vanillaplusjs/build/handlers/css.py
@@ -46,7 +46,7 @@ def scan_file(context: BuildContext, relpath: str) -> ScanFileResult:
 
     manips = [manip(context, relpath, "scan") for manip in MANIPULATORS]
     manipulate_and_serialize(
-        infile=os.path.join(context.folder, relpath), outfile=None, manipulators=manips
+        infile=context.get_source_path(relpath), outfile=None, manipulators=manips
     )
 
     sub_scan_results = [
@@ -76,7 +76,7 @@ def build_file(context: BuildContext, relpath: str) -> BuildFileResult:
     # the command which generates them
     icons = IconManipulator(context, relpath, "build")
     manipulate_and_serialize(
-        infile=os.path.join(context.folder, relpath),
+        infile=context.get_source_path(relpath),
         outfile=None,
         manipulators=[icons],
     )
@@ -84,7 +84,7 @@ def build_file(context: BuildContext, relpath: str) -> BuildFileResult:
     manips = [manip(context, relpath, "build") for manip in MANIPULATORS]
 
     manipulate_and_serialize(
-        infile=os.path.join(context.folder, relpath),
+        infile=context.get_source_path(relpath),
         outfile=os.path.join(context.folder, target_path),
         manipulators=manips,
     )
diff --git a/vanillaplusjs/build/handlers/js.py b/vanillaplusjs/build/handlers/js.py
index e608d0e..ff6f579 100644
--- a/vanillaplusjs/build/handlers/js.py
+++ b/vanillaplusjs/build/handlers/js.py
@@ -40,7 +40,7 @@ def scan_file(context: BuildContext, relpath: str) -> ScanFileResult:
 
     manips = [manip(context, relpath, "scan") for manip in MANIPULATORS]
     manipulate_and_serialize(
-        infile=os.path.join(context.folder, relpath), outfile=None, manipulators=manips
+        infile=context.get_source_path(relpath), outfile=None, manipulators=manips
     )
 
     sub_scan_results = [
@@ -69,7 +69,7 @@ def build_file(context: BuildContext, relpath: str) -> BuildFileResult:
     manips = [manip(context, relpath, "build") for manip in MANIPULATORS]
 
     manipulate_and_serialize(
-        infile=os.path.join(context.folder, relpath),
+        infile=context.get_source_path(relpath),
         outfile=os.path.join(context.folder, target_path),
         manipulators=manips,
     )
diff --git a/vanillaplusjs/build/html/manips/outline.py b/vanillaplusjs/build/html/manips/outline.py
index d0466c1..696d523 100644
--- a/vanillaplusjs/build/html/manips/outline.py
+++ b/vanillaplusjs/build/html/manips/outline.py
@@ -1,14 +1,14 @@
-import errno
 from typing import Dict, List, Literal, Optional, Set
 from vanillaplusjs.build.build_context import BuildContext
 from vanillaplusjs.build.build_file_result import BuildFileResult
 from vanillaplusjs.build.html.manipulator import HTMLManipulator
 import vanillaplusjs.build.html.token as tkn
 from vanillaplusjs.build.handlers.handler import Handler
+import dataclasses
 import os
 import io
+import tempfile
 from urllib.parse import urlencode
-from vanillaplusjs.build.ioutil import makedirs_safely
 from vanillaplusjs.build.scan_file_result import ScanFileResult
 from vanillaplusjs.constants import PROCESSOR_VERSION
 
@@ -64,6 +64,10 @@ class OutlineManipulator(HTMLManipulator):
         self.outlining: Optional[Literal["script", "style"]] = None
         self.outlining_to_path: Optional[str] = None
         """Relative to project root"""
+        self.outlining_to_temp_path: Optional[str] = None
+        """Where we actually store the source until it has been processed. This
+        is not within the source folder so that the sources never change while
+        building, not even if the build is interrupted."""
         self.outlining_to: Optional[io.TextIOBase] = None
         self.start_tag_attrs: Optional[Dict[str, str]] = None
         """The attributes to preserve on the start tag"""
@@ -111,21 +115,29 @@ class OutlineManipulator(HTMLManipulator):
                 self.js_handler if self.outlining == "script" else self.css_handler
             )
             try:
+                outlined_context = dataclasses.replace(
+                    self.context,
+                    outlined_sources={
+                        **self.context.outlined_sources,
+                        self.outlining_to_path: self.outlining_to_temp_path,
+                    },
+                )
                 if self.mode == "scan":
                     scan_result = handler.scan_file(
-                        self.context, self.outlining_to_path
+                        outlined_context, self.outlining_to_path
                     )
                     self.dependencies.update(scan_result.dependencies)
                     self.produces.update(scan_result.produces)
                 else:
                     build_result = handler.build_file(
-                        self.context, self.outlining_to_path
+                        outlined_context, self.outlining_to_path
                     )
                     self.children.update(build_result.children)
                     self.produced.update(build_result.produced)
                     self.reused.update(build_result.reused)
             finally:
-                self._remove_outlining_to()
+                os.remove(self.outlining_to_temp_path)
+                self.outlining_to_temp_path = None
 
             result_tag_attr = "src" if self.outlining == "script" else "href"
 
@@ -185,34 +197,11 @@ class OutlineManipulator(HTMLManipulator):
         return None
 
     def _open_outlining_to(self) -> io.TextIOBase:
-        """Opens the temporary source file, creating the folders it is in. Other
-        pages are outlined concurrently and clean up the folders that they find
-        empty, which may include the ones we just created.
-        """
-        path = os.path.join(self.context.folder, self.outlining_to_path)
-        for attempt in range(100):
-            try:
-                makedirs_safely(os.path.dirname(path))
-                return open(path, "w")
-            except (FileNotFoundError, FileExistsError):
-                if attempt == 99:
-                    raise
-
-    def _remove_outlining_to(self) -> None:
-        """Removes the temporary source file and the folders left empty by that"""
-        os.remove(os.path.join(self.context.folder, self.outlining_to_path))
-        possibly_empty_folder: str = os.path.dirname(self.outlining_to_path)
-
-        while possibly_empty_folder.count(os.path.sep) > 2:
-            try:
-                os.rmdir(os.path.join(self.context.folder, possibly_empty_folder))
-            except (FileNotFoundError, PermissionError):
-                break  # Scanning can happen concurrently
-            except OSError as e:
-                if e.errno == errno.ENOTEMPTY:
-                    break
-                raise
-            possibly_empty_folder = os.path.dirname(possibly_empty_folder)
+        """Opens the temporary source file"""
+        fd, self.outlining_to_temp_path = tempfile.mkstemp(
+            prefix="vanillaplusjs_", suffix=os.path.splitext(self.outlining_to_path)[1]
+        )
+        return open(fd, "w")
 
     def _should_outline_script(self, node: tkn.HTMLToken) -> bool:
         return (
-- 
2.43.0


From 2ed028ab809749d1945156cc67ac2617f47f020d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:38 +0000
Subject: [PATCH 22/85] fix: fail instead of expanding a template which uses
 itself forever

---
 vanillaplusjs/build/html/manips/template.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/vanillaplusjs/build/html/manips/template.py b/vanillaplusjs/build/html/manips/template.py
index eec09cb..6ea16f4 100644
--- a/vanillaplusjs/build/html/manips/template.py
+++ b/vanillaplusjs/build/html/manips/template.py
@@ -3,6 +3,7 @@ from dataclasses import dataclass
 from vanillaplusjs.build.build_file_result import BuildFileResult
 import vanillaplusjs.build.html.token as tkn
 from vanillaplusjs.build.build_context import BuildContext
+from vanillaplusjs.build.exceptions import CyclicDependencyException
 from vanillaplusjs.build.html.manipulator import HTMLManipulator
 from vanillaplusjs.build.scan_file_result import ScanFileResult
 from vanillaplusjs.build.html.tokenizer import tokenize
@@ -134,6 +135,13 @@ class TemplateManipulator(HTMLManipulator):
         else:
             self.children.add(imp.relpath)
 
+        if any(
+            frame.relpath == imp.relpath for frame in (*self.stack, self.current_frame)
+        ):
+            raise CyclicDependencyException(
+                f"{self.relpath} uses the template {imp.relpath}, which uses itself"
+            )
+
         result = []
         result.append(
             tkn.HTMLToken(
-- 
2.43.0


From 7b89a76fd2723dfc8c43f33185f521afad2d3615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:49 +0000
Subject: [PATCH 23/85] fix: resolve template paths relative to the file which
 uses the template

---
 vanillaplusjs/build/html/manips/template.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/vanillaplusjs/build/html/manips/template.py b/vanillaplusjs/build/html/manips/template.py
index 6ea16f4..275b4be 100644
--- a/vanillaplusjs/build/html/manips/template.py
+++ b/vanillaplusjs/build/html/manips/template.py
@@ -215,13 +215,16 @@ class TemplateManipulator(HTMLManipulator):
         if command_path.startswith("/"):
             # assume relative to src/partials
             command_path_rel_partials = command_path[1:].replace("/", os.path.sep)
-            command_path_rel_project_root = os.path.join(
-                "src", "partials", command_path_rel_partials
+            command_path_rel_project_root = os.path.normpath(
+                os.path.join("src", "partials", command_path_rel_partials)
             )
         else:
             command_path_rel_current_relpath = command_path.replace("/", os.path.sep)
-            command_path_rel_project_root = os.path.join(
-                self.current_frame.relpath, command_path_rel_current_relpath
+            command_path_rel_project_root = os.path.normpath(
+                os.path.join(
+                    os.path.dirname(self.current_frame.relpath),
+                    command_path_rel_current_relpath,
+                )
             )
 
         for var_key in list(variables.keys()):
-- 
2.43.0


From 0cb4b9df89948ecb7f5bce16c7ae96ae96b413d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:42 +0000
Subject: [PATCH 24/85] fix: leave urls which have a fragment or name another
 host alone

---
 vanillaplusjs/build/css/manips/version_urls.py | 4 ++--
 vanillaplusjs/build/html/manips/link_hash.py   | 3 +++
 vanillaplusjs/build/js/manips/hash_imports.py  | 2 ++
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/vanillaplusjs/build/css/manips/version_urls.py b/vanillaplusjs/build/css/manips/version_urls.py
index a6957c1..a3d24b0 100644
--- a/vanillaplusjs/build/css/manips/version_urls.py
+++ b/vanillaplusjs/build/css/manips/version_urls.py
@@ -78,10 +78,10 @@ class VersionURLsManipulator(CSSManipulator):
         return False
 
     def _decide_new_version_suffix(self, url: str) -> Optional[VersionSuffix]:
-        if not url.startswith("/"):
+        if not url.startswith("/") or url.startswith("//"):
             return None
 
-        if "?" in url:
+        if any(c in "?#" for c in url):
             return None
 
         path_relative_to_public = url[1:].replace("/", os.path.sep)
diff --git a/vanillaplusjs/build/html/manips/link_hash.py b/vanillaplusjs/build/html/manips/link_hash.py
index 6117fec..f6c7ea9 100644
--- a/vanillaplusjs/build/html/manips/link_hash.py
+++ b/vanillaplusjs/build/html/manips/link_hash.py
@@ -190,6 +190,9 @@ class LinkHash(HTMLManipulator):
         if href is None or not href.startswith("/") or any(c in "?#" for c in href):
             return None
 
+        if href.startswith("//"):
+            return None
+
         return LinkDependency(
             name=node["name"],
             attr_name=link_type.attr_name,
diff --git a/vanillaplusjs/build/js/manips/hash_imports.py b/vanillaplusjs/build/js/manips/hash_imports.py
index d23cd20..1b257a3 100644
--- a/vanillaplusjs/build/js/manips/hash_imports.py
+++ b/vanillaplusjs/build/js/manips/hash_imports.py
@@ -117,6 +117,8 @@ class HashImportsManipulator(JSYieldManipulator):
     def _handle_import(self, import_path: str) -> Union[Literal[False], List[JSToken]]:
         if not any(import_path.startswith(prefix) for prefix in ("/", "./", "../")):
             return self._mark_import_bad("unexpected path format")
+        if import_path.startswith("//"):
+            return self._mark_import_bad("import is from another host")
         if any(ch in import_path for ch in "?#"):
             return self._mark_import_bad("path contains invalid characters")
 
-- 
2.43.0


From 6cceb1843db0a572e36051ec53dcfaaafb7017ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:56 +0000
Subject: [PATCH 25/85] fix: compare recorded graphs by files, signatures and
 edges, of any size and order

---
 vanillaplusjs/build/graph.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/vanillaplusjs/build/graph.py b/vanillaplusjs/build/graph.py
index ae1d459..5e1a869 100644
--- a/vanillaplusjs/build/graph.py
+++ b/vanillaplusjs/build/graph.py
@@ -197,9 +197,22 @@ class FileDependencyGraph:
         if len(self.nodes) != len(other.nodes):
             return False
         for path, node in self.nodes.items():
-            if path not in other.nodes:
+            other_node = other.nodes.get(path)
+            if other_node is None:
                 return False
-            if node != other.nodes[path]:
+            if node.filesize != other_node.filesize:
+                return False
+            if node.mtime != other_node.mtime:
+                return False
+            if node.inode != other_node.inode:
+                return False
+            if set(parent.path for parent in node.parents) != set(
+                parent.path for parent in other_node.parents
+            ):
+                return False
+            if set(child.path for child in node.children) != set(
+                child.path for child in other_node.children
+            ):
                 return False
         return True
 
-- 
2.43.0


From f93d9e8c2cd7897a3b5fabb26325ee273e0f63c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:55 +0000
Subject: [PATCH 26/85] fix: read a carriage return followed by a line feed in
 pieces like reading it whole

---
 vanillaplusjs/build/ioutil.py | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/vanillaplusjs/build/ioutil.py b/vanillaplusjs/build/ioutil.py
index 5974efd..42d615c 100644
--- a/vanillaplusjs/build/ioutil.py
+++ b/vanillaplusjs/build/ioutil.py
@@ -93,6 +93,11 @@ class PeekableTextIO:
 
             return self.buffer[:n]
 
+        if n == -1:
+            self.seen_eof = True
+            self.buffer += self.fp.read() or ""
+            return self.buffer or None
+
         if len(self.buffer) >= n:
             return self.buffer[:n]
 
@@ -168,7 +173,7 @@ class PreprocessedTextIO:
         if res is None or n < 1 or len(res) == n:
             return res
 
-        if len(res) == 0:
+        if len(res) == 0 and not self.fp.peek(1):
             return None
 
         while len(res) < n:
@@ -185,22 +190,18 @@ class PreprocessedTextIO:
 
         If we're at EOF, returns None.
         """
-        res = self._peek(n)
-        if res is None or n < 1 or len(res) == n:
-            return res
-
-        if len(res) == 0:
-            return None
-
         attempted_peek_length = n
         while True:
-            old_actual_peek_length = len(res)
-            missing_characters = n - old_actual_peek_length
-            new_peek_length = attempted_peek_length + missing_characters
-            res = self._peek(new_peek_length)
-            if len(res) == n or len(res) == old_actual_peek_length:
+            res = self._peek(attempted_peek_length)
+            if res is None or n < 1 or len(res) == n:
                 return res
-            attempted_peek_length = new_peek_length
+
+            available = self.fp.peek(attempted_peek_length + 1)
+            if len(available) <= attempted_peek_length:
+                # everything that remains is in res
+                return res or None
+
+            attempted_peek_length += n - len(res)
 
 
 def makedirs_safely(path: str) -> None:
-- 
2.43.0


From 56655ad1a3c35522f648a7bf0e5d7741fbaaa37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:55 +0000
Subject: [PATCH 27/85] fix: never crop to nothing or to outside of an image

---
 .../build/html/manips/images/cover_fit.py       | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/vanillaplusjs/build/html/manips/images/cover_fit.py b/vanillaplusjs/build/html/manips/images/cover_fit.py
index ff82c47..132d32c 100644
--- a/vanillaplusjs/build/html/manips/images/cover_fit.py
+++ b/vanillaplusjs/build/html/manips/images/cover_fit.py
@@ -59,6 +59,19 @@ def cover_fit(
     crop_left_percentage = Decimal(crop_left_percentage)
     crop_top_percentage = Decimal(crop_top_percentage)
 
+    if min(source_width, source_height, dest_width, dest_height) <= 0:
+        raise ValueError(
+            f"There is no crop from {source_width=}, {source_height=} to {dest_width=}, {dest_height=}"
+        )
+    if not (0 <= crop_left_percentage <= 1 and 0 <= crop_top_percentage <= 1):
+        raise ValueError(
+            f"{crop_left_percentage=} and {crop_top_percentage=} must be between 0 and 1"
+        )
+    if min(pre_top_crop, pre_left_crop, pre_bottom_crop, pre_right_crop) < 0:
+        raise ValueError(
+            f"{pre_top_crop=}, {pre_left_crop=}, {pre_bottom_crop=}, and {pre_right_crop=} must not be negative"
+        )
+
     if (
         pre_top_crop != 0
         or pre_left_crop != 0
@@ -98,14 +111,14 @@ def cover_fit(
         # The source is wider than the destination; crop the left and right
         # sides equally to the correct aspect ratio
         source_resolution = source_height / dest_height
-        crop_width = round(dest_width * source_resolution)
+        crop_width = max(round(dest_width * source_resolution), 1)
         crop_x = int((source_width - crop_width) * crop_left_percentage)
         return (crop_x, 0, crop_width, source_height)
     elif source_ratio < dest_ratio:
         # The source is taller than the destination; crop the top and bottom
         # sides equally to the correct aspect ratio
         source_resolution = source_width / dest_width
-        crop_height = round(dest_height * source_resolution)
+        crop_height = max(round(dest_height * source_resolution), 1)
         crop_y = int((source_height - crop_height) * crop_top_percentage)
         return (0, crop_y, source_width, crop_height)
 
-- 
2.43.0


From 24ca0596f9efb65dd447959a03c49b08a662dfe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:51 +0000
Subject: [PATCH 28/85] fix: keep the value of string literals in scripts

---
 vanillaplusjs/build/handlers/js_constants.py |  4 +-
 vanillaplusjs/build/js/serializer.py         | 36 +++++++++-
 vanillaplusjs/build/js/tokenizer.py          | 73 +++++++++++---------
 3 files changed, 78 insertions(+), 35 deletions(-)

diff --git a/vanillaplusjs/build/handlers/js_constants.py b/vanillaplusjs/build/handlers/js_constants.py
index f7bfa90..90b2876 100644
--- a/vanillaplusjs/build/handlers/js_constants.py
+++ b/vanillaplusjs/build/handlers/js_constants.py
@@ -3,7 +3,7 @@
 from typing import Set
 from vanillaplusjs.build.build_context import BuildContext
 from vanillaplusjs.build.build_file_result import BuildFileResult
-from vanillaplusjs.build.css.serializer import serialize_string_auto_quote
+from vanillaplusjs.build.js.serializer import serialize_string
 import vanillaplusjs.build.handlers.copy
 import vanillaplusjs.build.handlers.hash
 from vanillaplusjs.build.ioutil import makedirs_safely
@@ -62,7 +62,7 @@ def build_file(context: BuildContext, relpath: str) -> BuildFileResult:
 
 def jsify(val) -> str:
     if isinstance(val, str):
-        return serialize_string_auto_quote(val)
+        return serialize_string(val)
 
     if val is True:
         return "true"
diff --git a/vanillaplusjs/build/js/serializer.py b/vanillaplusjs/build/js/serializer.py
index 7615e14..1e17657 100644
--- a/vanillaplusjs/build/js/serializer.py
+++ b/vanillaplusjs/build/js/serializer.py
@@ -1,6 +1,5 @@
 from typing import Iterable, Union
 from vanillaplusjs.build.js.token import JSToken, JSTokenType, JSTokenWithExtra
-from vanillaplusjs.build.css.serializer import serialize_string_auto_quote
 
 
 def serialize(token: Union[JSToken, JSTokenWithExtra]) -> str:
@@ -36,7 +35,7 @@ def serialize(token: Union[JSToken, JSTokenWithExtra]) -> str:
     elif token["type"] == JSTokenType.identifier:
         return token["value"]
     elif token["type"] == JSTokenType.string_literal:
-        return serialize_string_auto_quote(token["value"])
+        return serialize_string(token["value"])
     elif token["type"] == JSTokenType.regex:
         return f"/{token['value']}/{token['extra']}"
     elif token["type"] == JSTokenType.semicolon:
@@ -49,6 +48,39 @@ def serialize(token: Union[JSToken, JSTokenWithExtra]) -> str:
     raise ValueError("Unknown token type: " + repr(token["type"]))
 
 
+SPECIAL_ESCAPE_CHARACTERS = {
+    "\\": "\\\\",
+    "\n": "\\n",
+    "\r": "\\r",
+    "\t": "\\t",
+    "\b": "\\b",
+    "\f": "\\f",
+    "\v": "\\v",
+}
+
+
+def serialize_string(string: str) -> str:
+    """Serializes the given string as a javascript string literal with that
+    value, automatically choosing the best quote character.
+    """
+    quote = "'" if '"' in string and "'" not in string else '"'
+    res = quote
+    for char in string:
+        char_ord = ord(char)
+        if char == quote:
+            res += "\\" + char
+        elif char in SPECIAL_ESCAPE_CHARACTERS:
+            res += SPECIAL_ESCAPE_CHARACTERS[char]
+        elif char_ord < 0x20 or char_ord == 0x7F:
+            res += f"\\x{char_ord:02x}"
+        elif char_ord in (0x2028, 0x2029) or 0xD800 <= char_ord <= 0xDFFF:
+            res += f"\\u{char_ord:04x}"
+        else:
+            res += char
+    res += quote
+    return res
+
+
 def serialize_many(token: Iterable[JSToken]) -> str:
     """Serializes the given JS tokens."""
     return "".join(serialize(t) for t in token)
diff --git a/vanillaplusjs/build/js/tokenizer.py b/vanillaplusjs/build/js/tokenizer.py
index bb5a1f2..2050921 100644
--- a/vanillaplusjs/build/js/tokenizer.py
+++ b/vanillaplusjs/build/js/tokenizer.py
@@ -9,6 +9,7 @@ from io import TextIOBase
 from typing import Generator, Optional, Union
 from vanillaplusjs.build.js.token import JSToken, JSTokenType, JSTokenWithExtra
 from vanillaplusjs.build.ioutil import PreprocessedTextIO, PeekableTextIO
+import re
 import string
 from .unicode_derived import is_id_start, is_id_continue
 
@@ -230,42 +231,52 @@ def _consume_string_literal(peekable: PeekableTextIO) -> JSToken:
     """
     quote = peekable.read(1)
     res = ""
+    raw = ""
     while True:
         peeked = peekable.peek(1)
-        if not peeked or _is_newline(peeked):
-            return JSToken(type=JSTokenType.invalid, value=quote + res)
+        if not peeked or peeked == "\n":
+            return JSToken(type=JSTokenType.invalid, value=quote + raw)
         if peeked == quote:
             peekable.read(1)
             return JSToken(type=JSTokenType.string_literal, value=res)
-        if peeked == "\\":
-            if _is_unicode_escape_sequence(peekable.peek(10)[1:]):
-                peekable.read(1)
-                res += _consume_unicode_escape_sequence(peekable)
-            else:
-                peekable.read(1)
-                peeked = peekable.peek(1)
-                if not peeked:
-                    return JSToken(type=JSTokenType.invalid, value=quote + res + "\\")
-
-                escaped = peekable.read(1)
-                if escaped == "n":
-                    res += "\n"
-                elif escaped == "r":
-                    res += "\r"
-                elif escaped == "t":
-                    res += "\t"
-                elif escaped == "b":
-                    res += "\b"
-                elif escaped == "f":
-                    res += "\f"
-                elif escaped == "v":
-                    res += "\v"
-                elif escaped == "0":
-                    res += "\0"
-                else:
-                    res += escaped
-        else:
-            res += peekable.read(1)
+        match = STRING_PART.match(peekable.peek(MAX_STRING_PART_LENGTH))
+        if match is None:
+            # only a slash at the end of the file remains
+            return JSToken(type=JSTokenType.invalid, value=quote + raw + peekable.read())
+        part = peekable.read(match.end())
+        raw += part
+        res += _unescape(part)
+
+
+STRING_PART = re.compile(
+    r"\\u\{0*[0-9a-fA-F]{1,6}\}|\\u[0-9a-fA-F]{4}|\\x[0-9a-fA-F]{2}"
+    r"|\\[0-3][0-7]{0,2}|\\[4-7][0-7]?|\\.|[^\\]",
+    re.DOTALL,
+)
+MAX_STRING_PART_LENGTH = 32
+
+SIMPLE_ESCAPES = {
+    "n": "\n",
+    "r": "\r",
+    "t": "\t",
+    "b": "\b",
+    "f": "\f",
+    "v": "\v",
+    "\n": "",
+    "\u2028": "",
+    "\u2029": "",
+}
+
+
+def _unescape(part: str) -> str:
+    """Determines the value of a part of a string literal matched by STRING_PART"""
+    if part[0] != "\\":
+        return part
+    if len(part) > 2 and part[1] in "ux":
+        return chr(int(part[2:].strip("{}"), 16))
+    if part[1] in "01234567":
+        return chr(int(part[1:], 8))
+    return SIMPLE_ESCAPES.get(part[1], part[1])
 
 
 def _consume_regex(peekable: PeekableTextIO) -> Union[JSToken, JSTokenWithExtra]:
-- 
2.43.0


From 7c3168379476ac7b2f38430f175e9bb48607f11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:47 +0000
Subject: [PATCH 29/85] fix: tokenize template literals, numbers, regular
 expressions and divisions in scripts

---
 vanillaplusjs/build/ioutil.py        |  11 +-
 vanillaplusjs/build/js/serializer.py |   6 +-
 vanillaplusjs/build/js/token.py      |   8 +
 vanillaplusjs/build/js/tokenizer.py  | 250 +++++++++++++++++++++++++--
 4 files changed, 252 insertions(+), 23 deletions(-)

diff --git a/vanillaplusjs/build/ioutil.py b/vanillaplusjs/build/ioutil.py
index 42d615c..025176b 100644
--- a/vanillaplusjs/build/ioutil.py
+++ b/vanillaplusjs/build/ioutil.py
@@ -14,6 +14,7 @@ import stat
 
 
 CARRIAGE_RETURN_LIKE = re.compile(r"\r\n|\r|\f")
+CARRIAGE_RETURN = re.compile(r"\r\n|\r")
 SURROGATE = re.compile(r"[\ud800-\udfff]")
 
 
@@ -116,10 +117,14 @@ class PeekableTextIO:
 class PreprocessedTextIO:
     """Same interface as PeekableTextIO, except performs the necessary
     preprocessing described at https://www.w3.org/TR/css-syntax-3/#input-preprocessing
+
+    Form feeds are only line breaks in stylesheets; they are left as is if
+    form_feeds is False.
     """
 
-    def __init__(self, fp: PeekableTextIO) -> None:
+    def __init__(self, fp: PeekableTextIO, form_feeds: bool = True) -> None:
         self.fp = fp
+        self.line_breaks = CARRIAGE_RETURN_LIKE if form_feeds else CARRIAGE_RETURN
 
     def _read(self, n: int = -1) -> Optional[str]:
         """Reads and advances n characters. If n is -1, then reads all
@@ -137,7 +142,7 @@ class PreprocessedTextIO:
             if self.fp.peek(1) == "\n":
                 res = res[:-1]
 
-        res = CARRIAGE_RETURN_LIKE.sub("\n", res)
+        res = self.line_breaks.sub("\n", res)
         res = SURROGATE.sub("\uFFFD", res)
         return res
 
@@ -159,7 +164,7 @@ class PreprocessedTextIO:
             else:
                 res = res[:-1]
 
-        res = CARRIAGE_RETURN_LIKE.sub("\n", res)
+        res = self.line_breaks.sub("\n", res)
         res = SURROGATE.sub("\uFFFD", res)
         return res
 
diff --git a/vanillaplusjs/build/js/serializer.py b/vanillaplusjs/build/js/serializer.py
index 1e17657..3f68146 100644
--- a/vanillaplusjs/build/js/serializer.py
+++ b/vanillaplusjs/build/js/serializer.py
@@ -40,7 +40,11 @@ def serialize(token: Union[JSToken, JSTokenWithExtra]) -> str:
         return f"/{token['value']}/{token['extra']}"
     elif token["type"] == JSTokenType.semicolon:
         return ";"
-    elif token["type"] == JSTokenType.invalid:
+    elif token["type"] in (
+        JSTokenType.number,
+        JSTokenType.template,
+        JSTokenType.invalid,
+    ):
         return token["value"]
     elif token["type"] == JSTokenType.eof:
         return ""
diff --git a/vanillaplusjs/build/js/token.py b/vanillaplusjs/build/js/token.py
index b7928a5..83ddcdd 100644
--- a/vanillaplusjs/build/js/token.py
+++ b/vanillaplusjs/build/js/token.py
@@ -45,6 +45,14 @@ class JSTokenType(str, Enum):
     """Value is the contents of the matched regular expression literal, e.g., for /\g/, the value is '\\g'
     The `extra` field contains the flags, if any. so for /foo/g, the value is 'foo' and the extra is 'g'
     """
+    number = "NumericLiteral"
+    """Value is the number as it was written"""
+    template = "Template"
+    """Value is a part of a template literal as it was written, including the
+    delimiters. There is one for the part from the start to the end or to the first
+    substitution, and one from the end of each substitution to the start of the next
+    or to the end; the tokens within substitutions are produced as usual.
+    """
     invalid = "Invalid"
     """Value is the contents of the invalid token"""
     eof = "EOF"
diff --git a/vanillaplusjs/build/js/tokenizer.py b/vanillaplusjs/build/js/tokenizer.py
index 2050921..590555e 100644
--- a/vanillaplusjs/build/js/tokenizer.py
+++ b/vanillaplusjs/build/js/tokenizer.py
@@ -1,12 +1,11 @@
 """Tokenizes a javascript document; converting a stream of characters into a stream
 of tokens.
 
-This only supports a subset of javascript tokens; in particular, we focus on only
-just enough tokens that for a javascript module we can detect any import statements
-that the document starts with.
+This only distinguishes the tokens which are necessary to detect any import statements
+and comments in a javascript module, while everything else is kept as it is.
 """
 from io import TextIOBase
-from typing import Generator, Optional, Union
+from typing import Generator, List, Optional, Tuple, Union
 from vanillaplusjs.build.js.token import JSToken, JSTokenType, JSTokenWithExtra
 from vanillaplusjs.build.ioutil import PreprocessedTextIO, PeekableTextIO
 import re
@@ -31,9 +30,21 @@ def tokenize(fp: TextIOBase) -> Generator[Union[JSToken, JSTokenWithExtra], None
     Returns:
         None
     """
-    peekable = PreprocessedTextIO(PeekableTextIO(fp))
+    peekable = PreprocessedTextIO(PeekableTextIO(fp), form_feeds=False)
     del fp
 
+    position = _Position()
+    for token in _tokenize(peekable, position):
+        position.advance(token)
+        yield token
+
+
+def _tokenize(
+    peekable: PreprocessedTextIO, position: "_Position"
+) -> Generator[Union[JSToken, JSTokenWithExtra], None, None]:
+    """The generator for tokenize. The position must be advanced by each token
+    before requesting the next.
+    """
     while peeked := peekable.peek(1):
         if (ws := _consume_whitespace(peekable)) is not None:
             yield ws
@@ -43,6 +54,10 @@ def tokenize(fp: TextIOBase) -> Generator[Union[JSToken, JSTokenWithExtra], None
             yield comment
             continue
 
+        if (number := _consume_number(peekable)) is not None:
+            yield number
+            continue
+
         if (identifier := _consume_identifier(peekable)) is not None:
             yield identifier
             continue
@@ -57,6 +72,10 @@ def tokenize(fp: TextIOBase) -> Generator[Union[JSToken, JSTokenWithExtra], None
             yield JSToken(type=JSTokenType.open_curly_bracket, value=None)
             continue
 
+        if peeked == "`" or (peeked == "}" and position.in_template):
+            yield _consume_template(peekable)
+            continue
+
         if peeked == "}":
             peekable.read(1)
             yield JSToken(type=JSTokenType.close_curly_bracket, value=None)
@@ -85,15 +104,157 @@ def tokenize(fp: TextIOBase) -> Generator[Union[JSToken, JSTokenWithExtra], None
             yield _consume_string_literal(peekable)
             continue
 
-        if peeked == "/":
+        if peeked == "/" and position.expecting_operand:
             yield _consume_regex(peekable)
             continue
 
+        if peekable.peek(2) in ("++", "--", "=>", "?.", "??") and (
+            peekable.peek(3)[:2] != "?." or peekable.peek(3)[-1] not in string.digits
+        ):
+            # the position depends on these as a whole
+            yield JSToken(type=JSTokenType.invalid, value=peekable.read(2))
+            continue
+
         yield JSToken(type=JSTokenType.invalid, value=peekable.read(1))
 
     yield JSToken(type=JSTokenType.eof, value=None)
 
 
+OPERAND_FOLLOWS = frozenset(
+    "await case default delete do else extends in instanceof new of return throw typeof void yield".split()
+)
+"""The keywords which are followed by an expression or statement"""
+
+BLOCK_FOLLOWS = frozenset(["do", "else", "finally", "try"])
+"""The keywords which are followed by a block when they are followed by a curly bracket"""
+
+CONDITION_FOLLOWS = frozenset(["for", "if", "while", "with"])
+"""The keywords which are followed by something in parentheses and then a statement"""
+
+OPERANDS = frozenset(
+    [
+        JSTokenType.number,
+        JSTokenType.string_literal,
+        JSTokenType.regex,
+        JSTokenType.keyword_as,
+        JSTokenType.keyword_from,
+        JSTokenType.keyword_import,
+    ]
+)
+
+
+class _Position:
+    """Keeps track of where we are in the script, to the extent required to
+    distinguish regular expressions from divisions and the end of a substitution
+    in a template literal from the end of a block.
+    """
+
+    def __init__(self) -> None:
+        self.expecting_operand: bool = True
+        """True if a slash would start a regular expression, false if it would be
+        a division
+        """
+
+        self.previous: str = ";"
+        """The previous punctuator or keyword, 'name' for other identifiers, and
+        'value' for anything else
+        """
+
+        self.brackets: List[Tuple[str, bool]] = []
+        """The brackets we are within, where '`' is a substitution in a template
+        literal, and for each if an operand is expected after it's closed
+        """
+
+        self.open_conditionals: List[int] = [0]
+        """For each bracket we're within, as well as for the script itself, how many
+        conditional operators are missing their second part.
+        """
+
+    @property
+    def in_template(self) -> bool:
+        """True if the next closing curly bracket ends a substitution"""
+        return bool(self.brackets) and self.brackets[-1][0] == "`"
+
+    def advance(self, token: Union[JSToken, JSTokenWithExtra]) -> None:
+        """Moves the position beyond the given token"""
+        type_ = token["type"]
+        if type_ in (
+            JSTokenType.whitespace,
+            JSTokenType.line_terminator,
+            JSTokenType.comment,
+            JSTokenType.eof,
+        ):
+            return
+
+        if type_ == JSTokenType.identifier:
+            is_property = self.previous in (".", "?.", "#")
+            self.previous = "name" if is_property else token["value"]
+            self.expecting_operand = self.previous in OPERAND_FOLLOWS
+        elif type_ in OPERANDS:
+            self.previous = "value"
+            self.expecting_operand = False
+        elif type_ == JSTokenType.template:
+            if token["value"].startswith("}"):
+                self._close()
+            if token["value"].endswith("${"):
+                self._open("`", False)
+            self.previous = "value"
+            self.expecting_operand = self.in_template and token["value"].endswith("${")
+        elif type_ == JSTokenType.open_curly_bracket:
+            self._open("{", self._starts_block())
+            self.previous = "{"
+            self.expecting_operand = True
+        elif type_ == JSTokenType.close_curly_bracket:
+            self.expecting_operand = self._close()
+            self.previous = "}" if self.expecting_operand else "value"
+        elif token["value"] in ("(", "["):
+            is_condition = token["value"] == "(" and self.previous in CONDITION_FOLLOWS
+            self._open(token["value"], is_condition)
+            self.previous = token["value"]
+            self.expecting_operand = True
+        elif token["value"] in (")", "]"):
+            self.expecting_operand = self._close()
+            self.previous = token["value"]
+        elif token["value"] in ("++", "--"):
+            # a postfix operator if it follows an operand, otherwise a prefix operator
+            self.previous = "name"
+        else:
+            if token["value"] == "?":
+                self.open_conditionals[-1] += 1
+                self.previous = "?"
+            elif token["value"] == ":" and self.open_conditionals[-1] > 0:
+                self.open_conditionals[-1] -= 1
+                self.previous = "?"
+            else:
+                self.previous = {
+                    JSTokenType.asterisk: "*",
+                    JSTokenType.comma: ",",
+                    JSTokenType.semicolon: ";",
+                }.get(type_, token["value"])
+            self.expecting_operand = True
+
+    def _starts_block(self) -> bool:
+        """Determines if an open curly bracket here starts a block rather than
+        an object. Bodies of functions and classes count as blocks
+        """
+        if self.previous == ":":
+            # a label or case, unless it's a property of an object
+            return not self.brackets or self.brackets[-1] == ("{", True)
+        if not self.expecting_operand or self.previous in BLOCK_FOLLOWS:
+            return True
+        return self.previous in (";", "{", "}", ")", "=>")
+
+    def _open(self, bracket: str, expecting_operand_after: bool) -> None:
+        self.brackets.append((bracket, expecting_operand_after))
+        self.open_conditionals.append(0)
+
+    def _close(self) -> bool:
+        if not self.brackets:
+            return True
+        self.open_conditionals.pop()
+        return self.brackets.pop()[1]
+
+
 def tokenize_and_close(fp: TextIOBase) -> Generator[JSToken, None, None]:
     """The same as tokenize, except at the end it closes the file handle"""
     try:
@@ -169,9 +330,9 @@ def _consume_identifier(peekable: PeekableTextIO) -> Optional[JSToken]:
         if peeked == "\\" and _is_unicode_escape_sequence(peekable.peek(10)[1:]):
             peekable.read(1)
             res += _consume_unicode_escape_sequence(peekable)
-        elif not res and is_id_start(peeked):
+        elif not res and _is_id_start(peeked):
             res += peekable.read(1)
-        elif res and (peeked in "$\u200C\u200D" or is_id_continue(peeked)):
+        elif res and _is_id_continue(peeked):
             res += peekable.read(1)
         else:
             break
@@ -185,6 +346,54 @@ def _consume_identifier(peekable: PeekableTextIO) -> Optional[JSToken]:
     return JSToken(type=JSTokenType.identifier, value=res)
 
 
+def _is_id_start(char: str) -> bool:
+    return char in "$_" or is_id_start(char)
+
+
+def _is_id_continue(char: str) -> bool:
+    return char in "$\u200C\u200D" or is_id_continue(char)
+
+
+NUMBER = re.compile(
+    r"0[xX][0-9a-fA-F_]+n?|0[bBoO][0-7_]+n?"
+    r"|(?:[0-9][0-9_]*\.?[0-9_]*|\.[0-9][0-9_]*)(?:[eE][+-]?[0-9_]+)?n?"
+)
+
+
+def _consume_number(peekable: PeekableTextIO) -> Optional[JSToken]:
+    """Consumes a numeric literal from the given peekable, if one is present."""
+    peeked = peekable.peek(1)
+    if peeked not in string.digits and (
+        peeked != "." or NUMBER.match(peekable.peek(2)) is None
+    ):
+        return None
+
+    length = 32
+    while True:
+        peeked = peekable.peek(length)
+        match = NUMBER.match(peeked)
+        if len(peeked) < length or match.end() + 3 < length:
+            return JSToken(type=JSTokenType.number, value=peekable.read(match.end()))
+        length *= 2
+
+
+def _consume_template(peekable: PeekableTextIO) -> JSToken:
+    """Consumes a part of a template literal, up to and including the next start of
+    a substitution or the end of the template literal, assuming that the current
+    peeked character is the delimiter at the start of that part
+    """
+    res = peekable.read(1)
+    while peeked := peekable.peek(2):
+        if peeked[0] == "`":
+            res += peekable.read(1)
+            break
+        if peeked == "${":
+            res += peekable.read(2)
+            break
+        res += peekable.read(2 if peeked[0] == "\\" else 1)
+    return JSToken(type=JSTokenType.template, value=res)
+
+
 def _consume_unicode_escape_sequence(peekable: PeekableTextIO) -> Optional[str]:
     """Consumes a unicode escape sequence from the given peekable, if one is present.
     This consumes something like 'u1234' or 'u{1234}', and does not expect to start
@@ -242,7 +451,9 @@ def _consume_string_literal(peekable: PeekableTextIO) -> JSToken:
         match = STRING_PART.match(peekable.peek(MAX_STRING_PART_LENGTH))
         if match is None:
             # only a slash at the end of the file remains
-            return JSToken(type=JSTokenType.invalid, value=quote + raw + peekable.read())
+            return JSToken(
+                type=JSTokenType.invalid, value=quote + raw + peekable.read()
+            )
         part = peekable.read(match.end())
         raw += part
         res += _unescape(part)
@@ -284,27 +495,28 @@ def _consume_regex(peekable: PeekableTextIO) -> Union[JSToken, JSTokenWithExtra]
     the current peeked character is a slash.
     """
     peekable.read(1)
-    group_level = 0
+    in_class = False
     res = ""
     while True:
         peeked = peekable.peek(1)
         if not peeked or _is_newline(peeked):
             return JSToken(type=JSTokenType.invalid, value="/" + res)
-        if group_level == 0 and peeked == "/":
+        if not in_class and peeked == "/":
             peekable.read(1)
             break
-        if peeked == "\\" and peekable.peek(2) == "\\/":
-            res += peekable.read(2)
-            continue
-        if group_level > 0 and peeked == "]":
-            group_level -= 1
-        if peeked == "[":
-            group_level += 1
+        if peeked == "\\":
+            res += peekable.read(1)
+            if not peekable.peek(1) or _is_newline(peekable.peek(1)):
+                continue
+        elif peeked == "]":
+            in_class = False
+        elif peeked == "[":
+            in_class = True
         res += peekable.read(1)
     flags = ""
     while True:
         peeked = peekable.peek(1)
-        if peeked is None or peeked not in "igmsuyd":
+        if not peeked or not _is_id_continue(peeked):
             break
         flags += peekable.read(1)
 
-- 
2.43.0


From 331f5cf51cb7e2a7a2e2c720adbb20c0c4698d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:11 +0000
Subject: [PATCH 30/85] fix: version imports whatever the form of their clause

---
 vanillaplusjs/build/js/manips/hash_imports.py | 130 +++++-------------
 1 file changed, 37 insertions(+), 93 deletions(-)

diff --git a/vanillaplusjs/build/js/manips/hash_imports.py b/vanillaplusjs/build/js/manips/hash_imports.py
index 1b257a3..dc8c5dc 100644
--- a/vanillaplusjs/build/js/manips/hash_imports.py
+++ b/vanillaplusjs/build/js/manips/hash_imports.py
@@ -9,7 +9,27 @@ from urllib.parse import urlencode
 import os
 
 
-WHITESPACE_OR_TERM = {JSTokenType.whitespace, JSTokenType.line_terminator}
+WHITESPACE_OR_TERM = {
+    JSTokenType.whitespace,
+    JSTokenType.line_terminator,
+    JSTokenType.comment,
+}
+
+NAMES = {
+    JSTokenType.identifier,
+    JSTokenType.keyword_as,
+    JSTokenType.keyword_from,
+    JSTokenType.keyword_import,
+}
+"""Types of the tokens which can be used as names within an import clause"""
+
+CLAUSE_TYPES = NAMES | {
+    JSTokenType.asterisk,
+    JSTokenType.comma,
+    JSTokenType.open_curly_bracket,
+    JSTokenType.close_curly_bracket,
+}
+"""Types of the tokens which can be part of an import clause, besides strings"""
 
 
 class HashImportsManipulator(JSYieldManipulator):
@@ -43,76 +63,21 @@ class HashImportsManipulator(JSYieldManipulator):
         if token["type"] == JSTokenType.string_literal:
             return self._handle_import(token["value"])
 
-        expecting_from = False
-        if token["type"] == JSTokenType.identifier:
-            token = yield from self._skip_types(WHITESPACE_OR_TERM)
-            if token["type"] == JSTokenType.keyword_as:
-                token = yield from self._skip_types(WHITESPACE_OR_TERM)
-                if token["type"] != JSTokenType.identifier:
-                    return self._mark_import_bad("expected alias for default export")
-                token = yield from self._skip_types(WHITESPACE_OR_TERM)
-                if token["type"] == JSTokenType.comma:
-                    token = yield from self._skip_types(WHITESPACE_OR_TERM)
-                else:
-                    expecting_from = True
-            elif token["type"] == JSTokenType.comma:
-                token = yield from self._skip_types(WHITESPACE_OR_TERM)
-            else:
-                expecting_from = True
-
-        if not expecting_from and token["type"] == JSTokenType.asterisk:
-            token = yield from self._skip_types(WHITESPACE_OR_TERM)
-            if token["type"] == JSTokenType.keyword_as:
-                token = yield from self._skip_types(WHITESPACE_OR_TERM)
-                if token["type"] != JSTokenType.identifier:
-                    return self._mark_import_bad("expected alias for asterisk")
-                token = yield from self._skip_types(WHITESPACE_OR_TERM)
-                if token["type"] == JSTokenType.comma:
-                    token = yield from self._skip_types(WHITESPACE_OR_TERM)
-                else:
-                    expecting_from = True
-            elif token["type"] == JSTokenType.comma:
-                token = yield from self._skip_types(WHITESPACE_OR_TERM)
-            else:
-                expecting_from = True
-
-        if not expecting_from and token["type"] == JSTokenType.open_curly_bracket:
-            token = yield from self._skip_types(WHITESPACE_OR_TERM)
-            while token["type"] != JSTokenType.close_curly_bracket:
-                if token["type"] == JSTokenType.identifier:
-                    token = yield from self._skip_types(WHITESPACE_OR_TERM)
-                    if token["type"] == JSTokenType.keyword_as:
-                        token = yield from self._skip_types(WHITESPACE_OR_TERM)
-                        if token["type"] != JSTokenType.identifier:
-                            return self._mark_import_bad(
-                                "expected alias for named export"
-                            )
-                        token = yield from self._skip_types(WHITESPACE_OR_TERM)
-                        if token["type"] not in (
-                            JSTokenType.comma,
-                            JSTokenType.close_curly_bracket,
-                        ):
-                            return self._mark_import_bad(
-                                "expected comma or close curly bracket"
-                            )
-                    if token["type"] == JSTokenType.comma:
-                        token = yield from self._skip_types(WHITESPACE_OR_TERM)
-                else:
-                    return self._mark_import_bad("expected named export")
-            expecting_from = True
-            token = yield from self._skip_types(WHITESPACE_OR_TERM)
-
-        if not expecting_from:
-            return self._mark_import_bad("expected next import")
-
-        if token["type"] != JSTokenType.keyword_from:
-            return self._mark_import_bad("expected from")
-
-        token = yield from self._skip_types(WHITESPACE_OR_TERM)
-        if token["type"] != JSTokenType.string_literal:
-            return self._mark_import_bad("expected string literal after from")
+        if token["type"] not in NAMES and token["type"] not in (
+            JSTokenType.asterisk,
+            JSTokenType.open_curly_bracket,
+        ):
+            return self._mark_import_bad("expected an import clause")
 
-        return self._handle_import(token["value"])
+        previous_type = token["type"]
+        while True:
+            token = yield from self._skip_types(WHITESPACE_OR_TERM)
+            if token["type"] == JSTokenType.string_literal:
+                if previous_type == JSTokenType.keyword_from:
+                    return self._handle_import(token["value"])
+            elif token["type"] not in CLAUSE_TYPES:
+                return self._mark_import_bad("expected from and a string literal")
+            previous_type = token["type"]
 
     def _handle_import(self, import_path: str) -> Union[Literal[False], List[JSToken]]:
         if not any(import_path.startswith(prefix) for prefix in ("/", "./", "../")):
@@ -123,8 +88,8 @@ class HashImportsManipulator(JSYieldManipulator):
             return self._mark_import_bad("path contains invalid characters")
 
         if import_path.startswith("/"):
-            rel_to_root = os.path.join(
-                "src", "public", import_path[1:].replace("/", os.path.sep)
+            rel_to_root = os.path.normpath(
+                os.path.join("src", "public", import_path[1:].replace("/", os.path.sep))
             )
         else:
             abs_import_path = os.path.abspath(
@@ -174,27 +139,6 @@ class HashImportsManipulator(JSYieldManipulator):
             if token["type"] not in to_skip:
                 return token
 
-    def _expect_sequence(
-        self, exp: List[JSTokenType], ignore: Set[JSTokenType]
-    ) -> Generator[None, JSToken, bool]:
-        for exp_token in exp:
-            act_token = yield from self._skip_types(ignore)
-            if act_token["type"] != exp_token:
-                return False
-        return True
-
-    def _expect_alias(
-        self, token: Optional[JSToken] = None
-    ) -> Generator[None, JSToken, bool]:
-        if token is None:
-            token = yield
-        if token != JSTokenType.keyword_as:
-            return False
-        token = yield from self._skip_types(WHITESPACE_OR_TERM)
-        if token["type"] != JSTokenType.identifier:
-            return False
-        return True
-
     def _mark_import_bad(self, hint="") -> List[JSToken]:
         return [
             JSToken(
-- 
2.43.0


From 8101069963adf0e9e49278f1f01733205f12d52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:11 +0000
Subject: [PATCH 31/85] fix: find type hints after empty lines and ignore what
 they comment out while scanning

---
 vanillaplusjs/build/js/manips/type_hints.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/vanillaplusjs/build/js/manips/type_hints.py b/vanillaplusjs/build/js/manips/type_hints.py
index 8d9b0ea..25d243a 100644
--- a/vanillaplusjs/build/js/manips/type_hints.py
+++ b/vanillaplusjs/build/js/manips/type_hints.py
@@ -28,13 +28,14 @@ class TypeHintsManipulator(JSYieldManipulator):
     def handle(
         self, token: JSToken
     ) -> Generator[None, JSToken, Union[Literal[False], List[JSToken]]]:
-        if self.mode == "scan":
-            return False
-
         if self._skip_next_line:
             self._skip_next_line = token["type"] != JSTokenType.line_terminator
             return False
 
+        if token["type"] in (JSTokenType.line_terminator, JSTokenType.eof):
+            # the line is empty
+            return False
+
         should_exclude_line = False
         while token["type"] not in (JSTokenType.line_terminator, JSTokenType.eof):
             if (
-- 
2.43.0


From f919fb327eb6cb4e471fe9a318023bf2222ba8f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:11 +0000
Subject: [PATCH 32/85] fix: do not fail when peeking beyond an empty source

---
 vanillaplusjs/build/ioutil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vanillaplusjs/build/ioutil.py b/vanillaplusjs/build/ioutil.py
index 025176b..e5db472 100644
--- a/vanillaplusjs/build/ioutil.py
+++ b/vanillaplusjs/build/ioutil.py
@@ -202,7 +202,7 @@ class PreprocessedTextIO:
                 return res
 
             available = self.fp.peek(attempted_peek_length + 1)
-            if len(available) <= attempted_peek_length:
+            if available is None or len(available) <= attempted_peek_length:
                 # everything that remains is in res
                 return res or None
 
-- 
2.43.0


From a91ed89ebc5337e9362a4d0b43f5bbe0f65ad8be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:11 +0000
Subject: [PATCH 33/85] fix: keep hashbangs and escaped names in scripts

---
 vanillaplusjs/build/js/tokenizer.py | 86 ++++++-----------------------
 1 file changed, 18 insertions(+), 68 deletions(-)

diff --git a/vanillaplusjs/build/js/tokenizer.py b/vanillaplusjs/build/js/tokenizer.py
index 590555e..e428828 100644
--- a/vanillaplusjs/build/js/tokenizer.py
+++ b/vanillaplusjs/build/js/tokenizer.py
@@ -45,6 +45,9 @@ def _tokenize(
     """The generator for tokenize. The position must be advanced by each token
     before requesting the next.
     """
+    if peekable.peek(2) == "#!":
+        yield _consume_hashbang(peekable)
+
     while peeked := peekable.peek(1):
         if (ws := _consume_whitespace(peekable)) is not None:
             yield ws
@@ -276,6 +279,14 @@ def _consume_whitespace(peekable: PeekableTextIO) -> Optional[JSToken]:
     return None
 
 
+def _consume_hashbang(peekable: PeekableTextIO) -> JSToken:
+    """Consumes the hashbang comment a script may start with"""
+    res = ""
+    while (peeked := peekable.peek(1)) and not _is_newline(peeked):
+        res += peekable.read(1)
+    return JSToken(type=JSTokenType.invalid, value=res)
+
+
 def _consume_comment(peekable: PeekableTextIO) -> Optional[JSToken]:
     """Consumes a comment from the given peekable, if one is present."""
     next_2 = peekable.peek(2)
@@ -323,13 +334,17 @@ RESERVED_IDENTIFIERS = {
 }
 
 
+UNICODE_ESCAPE = re.compile(r"\\u(?:[0-9a-fA-F]{4}|\{[0-9a-fA-F]+\})")
+
+
 def _consume_identifier(peekable: PeekableTextIO) -> Optional[JSToken]:
     """Consumes an identifier from the given peekable, if one is present."""
     res = ""
     while peeked := peekable.peek(1):
-        if peeked == "\\" and _is_unicode_escape_sequence(peekable.peek(10)[1:]):
-            peekable.read(1)
-            res += _consume_unicode_escape_sequence(peekable)
+        if peeked == "\\" and (
+            escape := UNICODE_ESCAPE.match(peekable.peek(MAX_STRING_PART_LENGTH))
+        ):
+            res += peekable.read(escape.end())
         elif not res and _is_id_start(peeked):
             res += peekable.read(1)
         elif res and _is_id_continue(peeked):
@@ -394,46 +409,6 @@ def _consume_template(peekable: PeekableTextIO) -> JSToken:
     return JSToken(type=JSTokenType.template, value=res)
 
 
-def _consume_unicode_escape_sequence(peekable: PeekableTextIO) -> Optional[str]:
-    """Consumes a unicode escape sequence from the given peekable, if one is present.
-    This consumes something like 'u1234' or 'u{1234}', and does not expect to start
-    on a slash. Returns the actual unicode character; returns None if theres a parse
-    error
-    """
-    if peekable.peek(1) != "u":
-        return None
-    peekable.read(1)
-
-    res = ""
-    if peekable.peek(1) == "{":
-        peekable.read(1)
-        while True:
-            peeked = peekable.peek(1)
-            if not peeked:
-                return None
-            if peeked == "}":
-                break
-            res += peekable.read(1)
-
-        peekable.read(1)
-
-        if any(c not in string.hexdigits for c in res):
-            return None
-
-        return chr(int(res, 16))
-
-    while len(res) < 4:
-        peeked = peekable.peek(1)
-        if not peeked:
-            return None
-
-        if peeked not in string.hexdigits:
-            return None
-        res += peekable.read(1)
-
-    return chr(int(res, 16))
-
-
 def _consume_string_literal(peekable: PeekableTextIO) -> JSToken:
     """Consumes a string from the given peekable, assuming that the current
     peeked character is a quote.
@@ -541,28 +516,3 @@ def _is_newline(char: str) -> bool:
     """Returns true if the given character is a newline character."""
     # Due to the noncompliant preprocessing we can ignore carriage returns
     return char in "\n\u2028\u2029"
-
-
-def _is_unicode_escape_sequence(nine: str) -> bool:
-    """Determines if the given nine characters could be consumed, perhaps partially,
-    to get a valid unicode escape sequence.
-    """
-    if nine is None or len(nine) < 2:
-        return False
-
-    if nine[0] != "u":
-        return False
-
-    if nine[1] == "{":
-        for i in range(2, len(nine) - 1):
-            if nine[i] == "}":
-                if i == 2:
-                    return False
-                hex_num = int(nine[2:i], 16)
-                return hex_num <= 0x10FFFF
-            if nine[i] not in string.hexdigits:
-                return False
-
-        return False
-
-    return len(nine) >= 5 and all(c in string.hexdigits for c in nine[1:5])
-- 
2.43.0


From ecc6bfedd81fe0bec3bcde83293f31fe03a26618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:24 +0000
Subject: [PATCH 34/85] fix: tell a variable named of from the keyword when it
 is divided

---
 vanillaplusjs/build/js/tokenizer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vanillaplusjs/build/js/tokenizer.py b/vanillaplusjs/build/js/tokenizer.py
index e428828..eea035e 100644
--- a/vanillaplusjs/build/js/tokenizer.py
+++ b/vanillaplusjs/build/js/tokenizer.py
@@ -191,7 +191,8 @@ class _Position:
 
         if type_ == JSTokenType.identifier:
             is_property = self.previous in (".", "?.", "#")
-            self.previous = "name" if is_property else token["value"]
+            is_name = token["value"] == "of" and self.expecting_operand
+            self.previous = "name" if is_property or is_name else token["value"]
             self.expecting_operand = self.previous in OPERAND_FOLLOWS
         elif type_ in OPERANDS:
             self.previous = "value"
-- 
2.43.0


From 16995c94d8b2e9de444b277e7165558f3dc1088b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:21 +0000
Subject: [PATCH 35/85] fix: a hashbang says nothing about the braces which
 follow it

---
 vanillaplusjs/build/js/tokenizer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vanillaplusjs/build/js/tokenizer.py b/vanillaplusjs/build/js/tokenizer.py
index eea035e..1a01ad5 100644
--- a/vanillaplusjs/build/js/tokenizer.py
+++ b/vanillaplusjs/build/js/tokenizer.py
@@ -33,6 +33,9 @@ def tokenize(fp: TextIOBase) -> Generator[Union[JSToken, JSTokenWithExtra], None
     peekable = PreprocessedTextIO(PeekableTextIO(fp), form_feeds=False)
     del fp
 
+    if peekable.peek(2) == "#!":
+        yield _consume_hashbang(peekable)
+
     position = _Position()
     for token in _tokenize(peekable, position):
         position.advance(token)
@@ -45,9 +48,6 @@ def _tokenize(
     """The generator for tokenize. The position must be advanced by each token
     before requesting the next.
     """
-    if peekable.peek(2) == "#!":
-        yield _consume_hashbang(peekable)
-
     while peeked := peekable.peek(1):
         if (ws := _consume_whitespace(peekable)) is not None:
             yield ws
-- 
2.43.0


From 2f139d5515bc2249759ed42b43e4ce15e52b981d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:15 +0000
Subject: [PATCH 36/85] fix: only take imports at the top level for
 declarations, and continue after type hints where they started

---
 vanillaplusjs/build/js/tokenizer.py | 51 ++++++++++++++++++++++++++++-
 1 file changed, 50 insertions(+), 1 deletion(-)

diff --git a/vanillaplusjs/build/js/tokenizer.py b/vanillaplusjs/build/js/tokenizer.py
index 1a01ad5..61f93c5 100644
--- a/vanillaplusjs/build/js/tokenizer.py
+++ b/vanillaplusjs/build/js/tokenizer.py
@@ -62,6 +62,12 @@ def _tokenize(
             continue
 
         if (identifier := _consume_identifier(peekable)) is not None:
+            if (
+                identifier["type"] == JSTokenType.keyword_import
+                and not position.at_top_level
+            ):
+                # a name or a dynamic import
+                identifier = JSToken(type=JSTokenType.identifier, value="import")
             yield identifier
             continue
 
@@ -134,6 +140,9 @@ BLOCK_FOLLOWS = frozenset(["do", "else", "finally", "try"])
 CONDITION_FOLLOWS = frozenset(["for", "if", "while", "with"])
 """The keywords which are followed by something in parentheses and then a statement"""
 
+PROPERTY_FOLLOWS = frozenset([".", "?.", "#"])
+"""The punctuators which are followed by the name of a property"""
+
 OPERANDS = frozenset(
     [
         JSTokenType.number,
@@ -173,14 +182,31 @@ class _Position:
         conditional operators are missing their second part.
         """
 
+        self._on_type_hint: bool = False
+        """True if the current line has been marked as a type hint"""
+
+        self._line_start: Tuple[bool, str, List[Tuple[str, bool]], List[int]] = (
+            True,
+            ";",
+            [],
+            [0],
+        )
+        """The first four of these attributes as they were when the line started"""
+
     @property
     def in_template(self) -> bool:
         """True if the next closing curly bracket ends a substitution"""
         return bool(self.brackets) and self.brackets[-1][0] == "`"
 
+    @property
+    def at_top_level(self) -> bool:
+        """True if an import declaration may be here"""
+        return not self.brackets and self.previous not in PROPERTY_FOLLOWS
+
     def advance(self, token: Union[JSToken, JSTokenWithExtra]) -> None:
         """Moves the position beyond the given token"""
         type_ = token["type"]
+        self._handle_type_hints(token)
         if type_ in (
             JSTokenType.whitespace,
             JSTokenType.line_terminator,
@@ -190,7 +216,7 @@ class _Position:
             return
 
         if type_ == JSTokenType.identifier:
-            is_property = self.previous in (".", "?.", "#")
+            is_property = self.previous in PROPERTY_FOLLOWS
             is_name = token["value"] == "of" and self.expecting_operand
             self.previous = "name" if is_property or is_name else token["value"]
             self.expecting_operand = self.previous in OPERAND_FOLLOWS
@@ -237,6 +263,29 @@ class _Position:
                 }.get(type_, token["value"])
             self.expecting_operand = True
 
+    def _handle_type_hints(self, token: Union[JSToken, JSTokenWithExtra]) -> None:
+        """Lines marked as type hints will be commented out, hence what follows
+        them continues where they started
+        """
+        if token["type"] == JSTokenType.line_terminator:
+            if self._on_type_hint:
+                (
+                    self.expecting_operand,
+                    self.previous,
+                    self.brackets,
+                    self.open_conditionals,
+                ) = self._line_start
+            self._on_type_hint = False
+            self._line_start = (
+                self.expecting_operand,
+                self.previous,
+                self.brackets.copy(),
+                self.open_conditionals.copy(),
+            )
+        elif token["type"] == JSTokenType.comment:
+            if token["value"].strip() == "@@type-hint":
+                self._on_type_hint = True
+
     def _starts_block(self) -> bool:
         """Determines if an open curly bracket here starts a block rather than
         an object. Bodies of functions and classes count as blocks
-- 
2.43.0


From 825f656a841f4190e51515dedc38a17b865e051e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:21 +0000
Subject: [PATCH 37/85] fix: a regular expression may follow an import without
 a semicolon

---
 vanillaplusjs/build/js/tokenizer.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/vanillaplusjs/build/js/tokenizer.py b/vanillaplusjs/build/js/tokenizer.py
index 61f93c5..e1493bb 100644
--- a/vanillaplusjs/build/js/tokenizer.py
+++ b/vanillaplusjs/build/js/tokenizer.py
@@ -143,6 +143,9 @@ CONDITION_FOLLOWS = frozenset(["for", "if", "while", "with"])
 PROPERTY_FOLLOWS = frozenset([".", "?.", "#"])
 """The punctuators which are followed by the name of a property"""
 
+IMPORT_KEYWORDS = frozenset(["import", "from"])
+"""The keywords which may be followed by the string of an import or export declaration"""
+
 OPERANDS = frozenset(
     [
         JSTokenType.number,
@@ -220,8 +223,13 @@ class _Position:
             is_name = token["value"] == "of" and self.expecting_operand
             self.previous = "name" if is_property or is_name else token["value"]
             self.expecting_operand = self.previous in OPERAND_FOLLOWS
+        elif type_ == JSTokenType.string_literal and self.previous in IMPORT_KEYWORDS:
+            # the end of a declaration, even without a semicolon
+            self.previous = ";"
+            self.expecting_operand = True
         elif type_ in OPERANDS:
-            self.previous = "value"
+            is_keyword = type_.value in IMPORT_KEYWORDS
+            self.previous = type_.value if is_keyword else "value"
             self.expecting_operand = False
         elif type_ == JSTokenType.template:
             if token["value"].startswith("}"):
-- 
2.43.0


From 29e4bdb9faff75c60a365f9f1c85af24fa36cf48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:07 +0000
Subject: [PATCH 38/85] fix: write stylesheet tokens as they were written

---
 vanillaplusjs/build/css/manips/icons/manip.py |  29 ++-
 .../build/css/manips/version_urls.py          |   1 +
 vanillaplusjs/build/css/serializer.py         |  89 ++++++---
 vanillaplusjs/build/css/token.py              |  15 +-
 vanillaplusjs/build/css/tokenizer.py          | 175 +++++++++---------
 5 files changed, 186 insertions(+), 123 deletions(-)

diff --git a/vanillaplusjs/build/css/manips/icons/manip.py b/vanillaplusjs/build/css/manips/icons/manip.py
index c8bad3b..6d14e4b 100644
--- a/vanillaplusjs/build/css/manips/icons/manip.py
+++ b/vanillaplusjs/build/css/manips/icons/manip.py
@@ -267,7 +267,7 @@ class IconManipulator(CSSManipulator):
                     CSSToken(type=CSSTokenType.ident, value="border-radius"),
                     CSSToken(type=CSSTokenType.colon),
                     CSSToken(type=CSSTokenType.whitespace, value=" "),
-                    CSSToken(type=CSSTokenType.ident, value="0"),
+                    CSSToken(type=CSSTokenType.number, value="0"),
                     CSSToken(type=CSSTokenType.semicolon),
                     CSSToken(type=CSSTokenType.whitespace, value="\n    "),
                     CSSToken(type=CSSTokenType.ident, value="box-shadow"),
@@ -285,13 +285,13 @@ class IconManipulator(CSSManipulator):
                     CSSToken(type=CSSTokenType.ident, value="padding"),
                     CSSToken(type=CSSTokenType.colon),
                     CSSToken(type=CSSTokenType.whitespace, value=" "),
-                    CSSToken(type=CSSTokenType.ident, value="0"),
+                    CSSToken(type=CSSTokenType.number, value="0"),
                     CSSToken(type=CSSTokenType.semicolon),
                     CSSToken(type=CSSTokenType.whitespace, value="\n    "),
                     CSSToken(type=CSSTokenType.ident, value="margin"),
                     CSSToken(type=CSSTokenType.colon),
                     CSSToken(type=CSSTokenType.whitespace, value=" "),
-                    CSSToken(type=CSSTokenType.ident, value="0"),
+                    CSSToken(type=CSSTokenType.number, value="0"),
                     CSSToken(type=CSSTokenType.semicolon),
                     CSSToken(type=CSSTokenType.whitespace, value="\n    "),
                     CSSToken(type=CSSTokenType.ident, value="text-align"),
@@ -317,8 +317,10 @@ class IconManipulator(CSSManipulator):
                     CSSToken(type=CSSTokenType.delim, value="."),
                     CSSToken(
                         type=CSSTokenType.ident,
-                        value=f"icon-btn-{args.icon_name}-{size}{suffix}:disabled",
+                        value=f"icon-btn-{args.icon_name}-{size}{suffix}",
                     ),
+                    CSSToken(type=CSSTokenType.colon),
+                    CSSToken(type=CSSTokenType.ident, value="disabled"),
                     CSSToken(type=CSSTokenType.whitespace, value=" "),
                     CSSToken(type=CSSTokenType.left_curly_bracket),
                     CSSToken(type=CSSTokenType.whitespace, value="\n    "),
@@ -333,9 +335,12 @@ class IconManipulator(CSSManipulator):
                     CSSToken(type=CSSTokenType.delim, value="."),
                     CSSToken(
                         type=CSSTokenType.ident,
-                        value=f"icon-btn-{args.icon_name}-{size}{suffix} .icon-btn--icon",
+                        value=f"icon-btn-{args.icon_name}-{size}{suffix}",
                     ),
                     CSSToken(type=CSSTokenType.whitespace, value=" "),
+                    CSSToken(type=CSSTokenType.delim, value="."),
+                    CSSToken(type=CSSTokenType.ident, value="icon-btn--icon"),
+                    CSSToken(type=CSSTokenType.whitespace, value=" "),
                     CSSToken(type=CSSTokenType.left_curly_bracket),
                     CSSToken(type=CSSTokenType.whitespace, value="\n    "),
                     CSSToken(type=CSSTokenType.ident, value="background"),
@@ -406,8 +411,13 @@ class IconManipulator(CSSManipulator):
                     CSSToken(type=CSSTokenType.delim, value="."),
                     CSSToken(
                         type=CSSTokenType.ident,
-                        value=f"icon-btn-{args.icon_name}-{size}{suffix}:hover .icon-btn--icon",
+                        value=f"icon-btn-{args.icon_name}-{size}{suffix}",
                     ),
+                    CSSToken(type=CSSTokenType.colon),
+                    CSSToken(type=CSSTokenType.ident, value="hover"),
+                    CSSToken(type=CSSTokenType.whitespace, value=" "),
+                    CSSToken(type=CSSTokenType.delim, value="."),
+                    CSSToken(type=CSSTokenType.ident, value="icon-btn--icon"),
                     CSSToken(type=CSSTokenType.whitespace, value=" "),
                     CSSToken(type=CSSTokenType.left_curly_bracket),
                     CSSToken(type=CSSTokenType.whitespace, value="\n    "),
@@ -427,8 +437,13 @@ class IconManipulator(CSSManipulator):
                     CSSToken(type=CSSTokenType.delim, value="."),
                     CSSToken(
                         type=CSSTokenType.ident,
-                        value=f"icon-btn-{args.icon_name}-{size}{suffix}:disabled .icon-btn--icon",
+                        value=f"icon-btn-{args.icon_name}-{size}{suffix}",
                     ),
+                    CSSToken(type=CSSTokenType.colon),
+                    CSSToken(type=CSSTokenType.ident, value="disabled"),
+                    CSSToken(type=CSSTokenType.whitespace, value=" "),
+                    CSSToken(type=CSSTokenType.delim, value="."),
+                    CSSToken(type=CSSTokenType.ident, value="icon-btn--icon"),
                     CSSToken(type=CSSTokenType.whitespace, value=" "),
                     CSSToken(type=CSSTokenType.left_curly_bracket),
                     CSSToken(type=CSSTokenType.whitespace, value="\n    "),
diff --git a/vanillaplusjs/build/css/manips/version_urls.py b/vanillaplusjs/build/css/manips/version_urls.py
index a3d24b0..ff62752 100644
--- a/vanillaplusjs/build/css/manips/version_urls.py
+++ b/vanillaplusjs/build/css/manips/version_urls.py
@@ -114,6 +114,7 @@ class VersionURLsManipulator(CSSManipulator):
 
         cp_node = node.copy()
         cp_node["value"] = new_value
+        cp_node.pop("raw", None)
         return [cp_node]
 
     def scan_result(self) -> ScanFileResult:
diff --git a/vanillaplusjs/build/css/serializer.py b/vanillaplusjs/build/css/serializer.py
index 35df8ea..7271296 100644
--- a/vanillaplusjs/build/css/serializer.py
+++ b/vanillaplusjs/build/css/serializer.py
@@ -12,6 +12,19 @@ def serialize(token: CSSToken) -> str:
     Returns:
         str: The serialized token
     """
+    raw = token.get("raw")
+    if raw is not None:
+        if (
+            token["type"] == CSSTokenType.string
+            and len(raw) > 1
+            and raw[-1] == "'"
+            and raw[-2] != "\\"
+            and '"' not in raw
+        ):
+            # double quotes are preferred
+            return '"' + raw[1:-1] + '"'
+        return raw
+
     if token["type"] == CSSTokenType.whitespace:
         return token["value"]
     elif token["type"] == CSSTokenType.string:
@@ -19,7 +32,7 @@ def serialize(token: CSSToken) -> str:
     elif token["type"] == CSSTokenType.bad_string:
         return '"\n'
     elif token["type"] == CSSTokenType.hash:
-        return "#" + token["value"]
+        return "#" + serialize_ident_codepoints(token["value"])
     elif token["type"] == CSSTokenType.delim:
         return token["value"]
     elif token["type"] == CSSTokenType.left_parens:
@@ -31,20 +44,22 @@ def serialize(token: CSSToken) -> str:
     elif token["type"] == CSSTokenType.percentage:
         return str(token["value"]) + "%"
     elif token["type"] == CSSTokenType.dimension:
-        return str(token["value"]) + token["unit"]
+        return str(token["value"]) + serialize_ident(token["unit"])
     elif token["type"] == CSSTokenType.comma:
         return ","
     elif token["type"] == CSSTokenType.cdc:
         return "-->"
     elif token["type"] == CSSTokenType.ident:
-        return token["value"]
+        return serialize_ident(token["value"])
     elif token["type"] == CSSTokenType.function:
-        return token["value"] + "("
+        return serialize_ident(token["value"]) + "("
     elif token["type"] == CSSTokenType.url:
         return (
             "url("
             + serialize_string(
-                token["value"], quote="", simple_escape_characters=('"', "'", "(", "\\")
+                token["value"],
+                quote="",
+                simple_escape_characters=('"', "'", "(", ")", " ", "\\"),
             )
             + ")"
         )
@@ -57,7 +72,7 @@ def serialize(token: CSSToken) -> str:
     elif token["type"] == CSSTokenType.cdo:
         return "<!--"
     elif token["type"] == CSSTokenType.at_keyword:
-        return "@" + token["value"]
+        return "@" + serialize_ident(token["value"])
     elif token["type"] == CSSTokenType.left_square_bracket:
         return "["
     elif token["type"] == CSSTokenType.right_square_bracket:
@@ -89,17 +104,6 @@ def serialize_string_auto_quote(string: str) -> str:
     return serialize_string(string, '"')
 
 
-SPECIAL_ESCAPE_CHARACTERS = {
-    "\n": "\\n",
-    "\r": "\\r",
-    "\t": "\\t",
-    "\b": "\\b",
-    "\f": "\\f",
-    "\v": "\\v",
-    "\0": "\\0",
-}
-
-
 def serialize_string(string: str, quote: str, simple_escape_characters=("\\",)) -> str:
     """Serializes the given string, using the given quote character."""
     res = quote
@@ -108,20 +112,47 @@ def serialize_string(string: str, quote: str, simple_escape_characters=("\\",))
             res += "\\" + char
             continue
 
-        if char in SPECIAL_ESCAPE_CHARACTERS:
-            res += SPECIAL_ESCAPE_CHARACTERS[char]
-            continue
-
-        char_ord = ord(char)
-        if (
-            0 <= char_ord <= 8
-            or char_ord == 0x000B
-            or 0x000E <= char_ord <= 0x001F
-            or char_ord >= 0x007F
-        ):
-            res += "\\" + hex(char_ord)[2:]
+        if char < " " or char == "\x7f":
+            res += serialize_escaped_code_point(char)
             continue
 
         res += char
     res += quote
     return res
+
+
+def serialize_escaped_code_point(char: str) -> str:
+    """Escapes the given character as a code point, which works for everything.
+    The space marks the end of the escape, as it might be followed by a hex digit.
+    """
+    return "\\" + hex(ord(char))[2:] + " "
+
+
+def serialize_ident(ident: str) -> str:
+    """Serializes the given identifier; see
+    https://drafts.csswg.org/cssom/#serialize-an-identifier
+    """
+    if ident == "-":
+        return "\\-"
+
+    start = 1 if ident.startswith("-") else 0
+    if ident[start : start + 1].isdigit() and ident[start].isascii():
+        return (
+            ident[:start]
+            + serialize_escaped_code_point(ident[start])
+            + serialize_ident_codepoints(ident[start + 1 :])
+        )
+    return serialize_ident_codepoints(ident)
+
+
+def serialize_ident_codepoints(string: str) -> str:
+    """Serializes characters which are within an identifier or a hash"""
+    res = ""
+    for char in string:
+        if char >= "\x80" or char.isalnum() or char in "-_":
+            res += char
+        elif char < " " or char == "\x7f":
+            res += serialize_escaped_code_point(char)
+        else:
+            res += "\\" + char
+    return res
diff --git a/vanillaplusjs/build/css/token.py b/vanillaplusjs/build/css/token.py
index b444ffe..1e05ebb 100644
--- a/vanillaplusjs/build/css/token.py
+++ b/vanillaplusjs/build/css/token.py
@@ -7,7 +7,7 @@ If we use tinycss2 it doesn't support tree walkers, but adding tree walkers
 is nearly as much work as just tokenizing ourself. Our tokenizer follows the
 CSS3 spec.
 """
-from typing import Optional, TypedDict, Union
+from typing import Optional, TypedDict
 from enum import Enum
 
 
@@ -61,10 +61,11 @@ class CSSToken(TypedDict):
     type: CSSTokenType
     """The type of the token."""
 
-    value: Optional[Union[str, int, float]]
+    value: Optional[str]
     """The value for the token. This will follow the description in the
-    css syntax spec description for the value. If no value is specified
-    then this will be None.
+    css syntax spec description for the value, except that numbers are
+    kept in the way they are represented. If no value is specified then
+    this will be None.
     """
 
     type_flag: Optional[str]
@@ -81,3 +82,9 @@ class CSSToken(TypedDict):
     """The dimension token may have the unit set to one or more
     code points. In all other cases, the unit is None or unset
     """
+
+    raw: Optional[str]
+    """The text this token was parsed from, which is also how it will be
+    serialized. Unset for tokens which did not come from a stylesheet, and
+    must be removed from a token whose other fields are changed.
+    """
diff --git a/vanillaplusjs/build/css/tokenizer.py b/vanillaplusjs/build/css/tokenizer.py
index 1fe32b6..f04e5de 100644
--- a/vanillaplusjs/build/css/tokenizer.py
+++ b/vanillaplusjs/build/css/tokenizer.py
@@ -3,7 +3,7 @@ Specifically, this implements the consume token section:
 https://www.w3.org/TR/css-syntax-3/#consume-token
 """
 from io import TextIOBase
-from typing import Generator, Literal, Optional, Tuple, Union
+from typing import Generator, List, Literal, Optional, Tuple
 from .token import CSSToken, CSSTokenType
 from vanillaplusjs.build.ioutil import PreprocessedTextIO, PeekableTextIO
 
@@ -26,9 +26,37 @@ def tokenize(fp: TextIOBase) -> Generator[CSSToken, None, None]:
     Returns:
         None
     """
-    peekable = PreprocessedTextIO(PeekableTextIO(fp))
+    peekable = RecordedTextIO(PeekableTextIO(fp))
     del fp
 
+    for token in _tokenize(peekable):
+        token["raw"] = peekable.take_consumed()
+        yield token
+
+
+class RecordedTextIO(PreprocessedTextIO):
+    """Remembers what is consumed, so that each token can be written the way
+    that it was written in the source
+    """
+
+    def __init__(self, fp: PeekableTextIO) -> None:
+        super().__init__(fp)
+        self.consumed: List[str] = []
+
+    def read(self, n: int = -1) -> Optional[str]:
+        res = super().read(n)
+        if res:
+            self.consumed.append(res)
+        return res
+
+    def take_consumed(self) -> str:
+        """Returns and forgets everything consumed since the last call"""
+        res = "".join(self.consumed)
+        self.consumed = []
+        return res
+
+
+def _tokenize(peekable: PreprocessedTextIO) -> Generator[CSSToken, None, None]:
     while peeked := peekable.peek(1):
         if (comment := _consume_comment(peekable)) is not None:
             yield comment
@@ -45,7 +73,7 @@ def tokenize(fp: TextIOBase) -> Generator[CSSToken, None, None]:
         if peeked == "#":
             peekable.read(1)
             peek_2 = peekable.peek(2)
-            if len(peek_2) == 0:
+            if peek_2 is None:
                 yield CSSToken(type=CSSTokenType.delim, value="#")
                 continue
 
@@ -96,7 +124,7 @@ def tokenize(fp: TextIOBase) -> Generator[CSSToken, None, None]:
                 yield _consume_numeric_token(peekable)
                 continue
 
-            if len(peek_3) == 3 and peek_3 == "-->":
+            if peek_3 == "-->":
                 peekable.read(3)
                 yield CSSToken(type=CSSTokenType.cdc)
                 continue
@@ -175,7 +203,7 @@ def tokenize(fp: TextIOBase) -> Generator[CSSToken, None, None]:
             yield CSSToken(type=CSSTokenType.right_curly_bracket)
             continue
 
-        if peeked.isdigit():
+        if _is_digit(peeked):
             yield _consume_numeric_token(peekable)
             continue
 
@@ -213,7 +241,8 @@ def _consume_comment(fp: PreprocessedTextIO) -> Optional[CSSToken]:
     while True:
         peeked = fp.peek(2)
         if peeked is None:
-            return None
+            # parse error
+            return CSSToken(type=CSSTokenType.comment, value=comment)
         if peeked == "*/":
             fp.read(2)
             return CSSToken(type=CSSTokenType.comment, value=comment)
@@ -221,6 +250,7 @@ def _consume_comment(fp: PreprocessedTextIO) -> Optional[CSSToken]:
 
 
 WHITESPACE_CHARACTERS = "\n\t "
+DIGITS = "0123456789"
 
 
 def _consume_whitespace(fp: PreprocessedTextIO) -> Optional[CSSToken]:
@@ -320,67 +350,37 @@ def _consume_ident_sequence(fp: PreprocessedTextIO) -> str:
 
 def _consume_number(
     fp: PreprocessedTextIO,
-) -> Optional[Tuple[Union[int, float], Literal["integer', 'number"]]]:
-    """Consumes a number
+) -> Tuple[str, Literal["integer", "number"]]:
+    """Consumes a number, returning its representation and its type
 
     https://www.w3.org/TR/css-syntax-3/#consume-a-number
     """
     res_type = "integer"
     repr = ""
 
-    peeked = fp.peek(1)
-    if peeked is None or peeked == "":
-        return None
-
-    if peeked in "+-":
+    if fp.peek(1) in ("+", "-"):
         repr += fp.read(1)
 
-    while True:
-        peeked = fp.peek(1)
-        if peeked is None:
-            if repr in "+-" or repr == "":
-                return None
-            return int(repr), res_type
-        if not peeked.isdigit():
-            break
+    while _is_digit(fp.peek(1)):
         repr += fp.read(1)
 
-    peek_2 = fp.peek(2)
-    if peek_2 is None or len(peek_2) < 2:
-        return int(repr), res_type
-
-    if peek_2[0] == "." and peek_2[1].isdigit():
+    peek_2 = fp.peek(2) or ""
+    if peek_2[:1] == "." and _is_digit(peek_2[1:]):
         repr += fp.read(2)
         res_type = "number"
-        while True:
-            peeked = fp.peek(1)
-            if peeked is None:
-                return float(repr), res_type
-            if not peeked.isdigit():
-                break
+        while _is_digit(fp.peek(1)):
             repr += fp.read(1)
 
-    peek_3 = fp.peek(3)
-    if peek_3 is None or len(peek_3) < 2:
-        return float(repr), res_type
-
-    if peek_3[0] in "eE" and (
-        peek_3[1].isdigit()
-        or (peek_3[1] in "+-" and len(peek_3) == 3 and peek_3[2].isdigit())
+    peek_3 = fp.peek(3) or ""
+    if peek_3[:1] in ("e", "E") and (
+        _is_digit(peek_3[1:2]) or (peek_3[1:2] in ("+", "-") and _is_digit(peek_3[2:]))
     ):
-        res_type = "number"
         repr += fp.read(2)
-        while True:
-            peeked = fp.peek(1)
-            if peeked is None:
-                return float(repr), res_type
-            if not peeked.isdigit():
-                break
+        res_type = "number"
+        while _is_digit(fp.peek(1)):
             repr += fp.read(1)
 
-    if res_type == "integer":
-        return int(repr), res_type
-    return float(repr), res_type
+    return repr, res_type
 
 
 def _consume_numeric_token(fp: PreprocessedTextIO) -> Optional[CSSToken]:
@@ -422,16 +422,13 @@ def _consume_ident_like(fp: PreprocessedTextIO) -> Optional[CSSToken]:
     if len(string) == 3 and string.lower() == "url" and fp.peek(1) == "(":
         fp.read(1)
         while True:
-            peek_2 = fp.peek(2)
-            if peek_2 is None or len(peek_2) < 2 or not _is_whitespace(peek_2):
+            peek_2 = fp.peek(2) or ""
+            if len(peek_2) < 2 or not _is_whitespace(peek_2):
                 break
             fp.read(1)
 
-        peek_2 = fp.peek(2)
-        if peek_2 is None or peek_2 == "":
-            return CSSToken(type=CSSTokenType.ident, value=string)
-        if peek_2[0] in ('"', "'") or (
-            len(peek_2) == 2 and _is_whitespace(peek_2[0]) and peek_2[1] in ('"', "'")
+        if peek_2[:1] in ('"', "'") or (
+            _is_whitespace(peek_2[:1]) and peek_2[1:] in ('"', "'")
         ):
             return CSSToken(type=CSSTokenType.function, value=string)
 
@@ -452,6 +449,7 @@ def _consume_url(fp: PreprocessedTextIO) -> Optional[CSSToken]:
     https://www.w3.org/TR/css-syntax-3/#consume-a-url-token
     """
     value = ""
+    _consume_whitespace(fp)
     while True:
         peeked = fp.peek(1)
         if peeked is None or peeked == "":
@@ -463,17 +461,23 @@ def _consume_url(fp: PreprocessedTextIO) -> Optional[CSSToken]:
             return CSSToken(type=CSSTokenType.url, value=value)
 
         if _is_whitespace(peeked):
-            fp.read(1)
-            continue
+            _consume_whitespace(fp)
+            if fp.peek(1) in (None, "", ")"):
+                continue
+            _consume_remnants_of_bad_url(fp)
+            return CSSToken(type=CSSTokenType.bad_url)
 
         if peeked in ('"', "'", "(") or _is_non_printable(peeked):
             _consume_remnants_of_bad_url(fp)
             return CSSToken(type=CSSTokenType.bad_url)
 
-        if peeked == "\\" and _is_valid_escape(fp.peek(2)):
-            fp.read(1)
-            value += _consume_escaped_code_point(fp)
-            continue
+        if peeked == "\\":
+            if _is_valid_escape(fp.peek(2)):
+                fp.read(1)
+                value += _consume_escaped_code_point(fp)
+                continue
+            _consume_remnants_of_bad_url(fp)
+            return CSSToken(type=CSSTokenType.bad_url)
 
         value += fp.read(1)
 
@@ -487,7 +491,7 @@ def _consume_remnants_of_bad_url(fp: PreprocessedTextIO) -> None:
         if consumed is None or consumed == "" or consumed == ")":
             return
 
-        if _is_valid_escape(consumed + fp.peek(1)):
+        if _is_valid_escape(consumed + (fp.peek(1) or "")):
             _consume_escaped_code_point(fp)
             continue
 
@@ -495,8 +499,13 @@ def _consume_remnants_of_bad_url(fp: PreprocessedTextIO) -> None:
 HEX_CHARACTERS = "0123456789abcdefABCDEF"
 
 
-def _is_hex_digit(char: str) -> bool:
-    return char is not None and char in HEX_CHARACTERS
+def _is_hex_digit(char: Optional[str]) -> bool:
+    return char is not None and char != "" and char in HEX_CHARACTERS
+
+
+def _is_digit(char: Optional[str]) -> bool:
+    """Only the ascii digits are digits in css"""
+    return char is not None and char != "" and char in DIGITS
 
 
 def _is_whitespace(char: Optional[str]) -> bool:
@@ -508,44 +517,44 @@ def _is_whitespace(char: Optional[str]) -> bool:
 
 
 def _is_ident_start_codepoint(char: Optional[str]) -> bool:
-    if char is None:
+    if char is None or char == "":
         return False
-    return char.isalpha() or ord(char) >= 0x0080 or char == "_"
+    return char.isalpha() or ord(char) >= 0x0080 or char in ("_", "\0")
 
 
 def _is_ident_codepoint(char: Optional[str]) -> bool:
     if char is None:
         return False
-    return _is_ident_start_codepoint(char) or char.isdigit() or char == "-"
+    return _is_ident_start_codepoint(char) or _is_digit(char) or char == "-"
 
 
-def _is_valid_escape(two: str) -> bool:
+def _is_valid_escape(two: Optional[str]) -> bool:
     """Determines if the given two characters form a valid escape
     https://www.w3.org/TR/css-syntax-3/#check-if-two-code-points-are-a-valid-escape
 
-    This does not support being called without the two characters
+    At the end of the input there may be less than two characters
     """
-    if len(two) != 2:
+    if not two:
         return False
 
-    return two[0] == "\\" and two[1] != "\n"
+    return two[0] == "\\" and two[1:] != "\n"
 
 
-def _is_ident_sequence(three: str) -> bool:
+def _is_ident_sequence(three: Optional[str]) -> bool:
     """Determines if the given three characters would start an
     ident sequence
 
     https://www.w3.org/TR/css-syntax-3/#check-if-three-code-points-would-start-an-ident-sequence
 
-    This does not support being called without the three characters
+    At the end of the input there may be less than three characters
     """
-    if len(three) != 3:
+    if not three:
         return False
 
     if three[0] == "-":
         return (
-            _is_ident_start_codepoint(three[1])
-            or three[1] == "-"
+            _is_ident_start_codepoint(three[1:2])
+            or three[1:2] == "-"
             or _is_valid_escape(three[1:])
         )
 
@@ -561,19 +570,19 @@ def _is_ident_sequence(three: str) -> bool:
 def _is_number(three: Optional[str]) -> bool:
     """Determines if the given three codepoints would start a number
     https://www.w3.org/TR/css-syntax-3/#check-if-three-code-points-would-start-a-number
+
+    At the end of the input there may be less than three characters
     """
-    if three is None:
-        return False
-    if len(three) != 3:
+    if not three:
         return False
 
     if three[0] in "+-":
-        return three[1].isdigit() or (three[1] == "." and three[2].isdigit())
+        return _is_digit(three[1:2]) or (three[1:2] == "." and _is_digit(three[2:]))
 
     if three[0] == ".":
-        return three[1].isdigit()
+        return _is_digit(three[1:2])
 
-    return three[0].isdigit()
+    return _is_digit(three[0])
 
 
 def _is_non_printable(char: Optional[str]) -> bool:
-- 
2.43.0


From 663afa50f9fdeb963e9af090218115c1135acca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:18 +0000
Subject: [PATCH 39/85] fix: keep imported declarations apart from what follows
 them, and nested rules without a match

---
 vanillaplusjs/build/css/manips/nest.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/vanillaplusjs/build/css/manips/nest.py b/vanillaplusjs/build/css/manips/nest.py
index 8879372..07fc81b 100644
--- a/vanillaplusjs/build/css/manips/nest.py
+++ b/vanillaplusjs/build/css/manips/nest.py
@@ -583,6 +583,23 @@ class NestManipulator(CSSManipulator):
             while value and value[-1]["type"] == CSSTokenType.whitespace:
                 value.pop()
 
+            last_token = next(
+                (
+                    token
+                    for token in reversed(value)
+                    if token["type"]
+                    not in (CSSTokenType.whitespace, CSSTokenType.comment)
+                ),
+                None,
+            )
+            if last_token is not None and last_token["type"] not in (
+                CSSTokenType.semicolon,
+                CSSTokenType.right_curly_bracket,
+            ):
+                # the last declaration may omit its semicolon, but something may
+                # follow where it is imported
+                value.append(CSSToken(type=CSSTokenType.semicolon))
+
             ref = QualifiedRuleReference(imp.relpath, serialized_prelude)
             if (
                 ref in self.referencable_rules.available_rules
@@ -617,7 +634,8 @@ class NestManipulator(CSSManipulator):
         while stack:
             node = stack.pop(0)
             imp = self._get_import(node)
-            if imp is None:
+            if imp is None or imp not in self.referencable_rules.available_rules:
+                # the imports in nested blocks are replaced once they are reached
                 new_nodes.append(node)
                 continue
 
-- 
2.43.0


From 1366e59c5af51fae88c8f0a50cd463e3c1845c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:29 +0000
Subject: [PATCH 40/85] fix: outline every image of a stylesheet with exactly
 its data

---
 .../build/css/manips/outline_image_data.py    | 123 ++++++++++--------
 1 file changed, 71 insertions(+), 52 deletions(-)

diff --git a/vanillaplusjs/build/css/manips/outline_image_data.py b/vanillaplusjs/build/css/manips/outline_image_data.py
index fa1636d..a42ab72 100644
--- a/vanillaplusjs/build/css/manips/outline_image_data.py
+++ b/vanillaplusjs/build/css/manips/outline_image_data.py
@@ -1,4 +1,4 @@
-from typing import Dict, List, Literal, Optional, Set
+from typing import Dict, List, Literal, Optional, Set, Tuple
 from vanillaplusjs.build.build_context import BuildContext
 from vanillaplusjs.build.build_file_result import BuildFileResult
 from vanillaplusjs.build.ioutil import makedirs_safely
@@ -6,7 +6,8 @@ from vanillaplusjs.build.scan_file_result import ScanFileResult
 from vanillaplusjs.build.css.manipulator import CSSManipulator
 from vanillaplusjs.build.css.token import CSSToken, CSSTokenType
 import vanillaplusjs.build.handlers.hash as hash_handler
-from urllib.parse import unquote, urlencode
+from urllib.parse import unquote_to_bytes, urlencode
+import base64
 import re
 import os
 
@@ -14,9 +15,11 @@ from vanillaplusjs.constants import PROCESSOR_VERSION
 
 
 IMAGE_DATA_REGEX = re.compile(
-    r'^data:image/(?P<image_type>[^;,]+)[;,](?P<image_data>[^"]+)$'
+    r"^\s*data:image/(?P<image_type>[a-z0-9][a-z0-9.+_-]*)"
+    r"(?P<parameters>(?:;[^;,]*)*),(?P<image_data>.*)$",
+    re.IGNORECASE | re.DOTALL,
 )
-"""Matches an image data source"""
+"""Matches an image data source; see https://www.rfc-editor.org/rfc/rfc2397"""
 
 
 class OutlineImageDataManipulator(CSSManipulator):
@@ -39,7 +42,7 @@ class OutlineImageDataManipulator(CSSManipulator):
         self.produced: Optional[Set[str]] = set() if mode == "build" else None
         self.reused: Optional[Set[str]] = set() if mode == "build" else None
 
-        self.image_relpath_by_data: Optional[Dict[str, str]] = dict()
+        self.image_relpath_by_data: Dict[Tuple[str, bytes], str] = dict()
         self.image_counter = 0
 
         self.skip_next_url_function = False
@@ -55,9 +58,13 @@ class OutlineImageDataManipulator(CSSManipulator):
         self.image_out_folder = os.path.join("out", "www", "img", "gen", path_in_gen)
 
     def start_mark(self, node: CSSToken) -> bool:
+        if node["type"] == CSSTokenType.url:
+            # unquoted url token
+            return self._decode(node["value"]) is not None
+
         if node["type"] != CSSTokenType.function:
             return False
-        if node["value"] != "url":
+        if node["value"].lower() != "url":
             return False
         if self.skip_next_url_function:
             self.skip_next_url_function = False
@@ -67,6 +74,14 @@ class OutlineImageDataManipulator(CSSManipulator):
         return True
 
     def continue_mark(self, node: CSSToken) -> Optional[List[CSSToken]]:
+        if node["type"] == CSSTokenType.url:
+            return [
+                CSSToken(
+                    type=CSSTokenType.url,
+                    value=self._outline(*self._decode(node["value"])),
+                )
+            ]
+
         self.stack.append(node)
 
         if self.state == "expecting_url":
@@ -74,7 +89,7 @@ class OutlineImageDataManipulator(CSSManipulator):
                 node["type"] == CSSTokenType.function
             ), "continue_mark in state expecting_url should get a function"
             assert (
-                node["value"] == "url"
+                node["value"].lower() == "url"
             ), "continue_mark in state expecting_url should get a url function"
             self.state = "expecting_string"
             return None
@@ -82,45 +97,56 @@ class OutlineImageDataManipulator(CSSManipulator):
         assert (
             self.state == "expecting_string"
         ), f"continue_mark unknown state: {self.state=}"
-        if node["type"] != CSSTokenType.string:
-            self.skip_next_url_function = True
-            result = self.stack
-            self.stack = None
-            self.state = None
-            return result
-
-        match = IMAGE_DATA_REGEX.match(node["value"])
+        if node["type"] == CSSTokenType.whitespace:
+            return None
+
+        result = self.stack
+        self.stack = None
+        self.state = None
+        self.skip_next_url_function = True
+
+        if node["type"] == CSSTokenType.string:
+            decoded = self._decode(node["value"])
+            if decoded is not None:
+                result[-1] = CSSToken(
+                    type=CSSTokenType.string, value=self._outline(*decoded)
+                )
+
+        return result
+
+    def _decode(self, url: str) -> Optional[Tuple[str, bytes]]:
+        """Determines the file extension for and the bytes of the image that is
+        encoded in the given url, or None if the url is not a valid image data
+        source.
+        """
+        match = IMAGE_DATA_REGEX.match(url)
         if match is None:
-            self.skip_next_url_function = True
-            result = self.stack
-            self.stack = None
-            self.state = None
-            return result
-
-        image_type = match.group("image_type")
-        image_data = match.group("image_data")
-        out_relpath = self.image_relpath_by_data.get(image_data)
+            return None
+
+        data = unquote_to_bytes(match.group("image_data"))
+        if match.group("parameters").lower().rstrip().endswith(";base64"):
+            try:
+                data = re.sub(rb"\s+", b"", data).rstrip(b"=")
+                data = base64.b64decode(data + b"=" * (-len(data) % 4), validate=True)
+            except ValueError:
+                return None
+
+        return match.group("image_type").lower().split("+", 1)[0], data
+
+    def _outline(self, file_ext: str, image_data: bytes) -> str:
+        """Ensures there is a file with the given data and extension and returns
+        the url for it.
+        """
+        out_relpath = self.image_relpath_by_data.get((file_ext, image_data))
         need_to_create = out_relpath is None
         if need_to_create:
             self.image_counter += 1
-            file_ext = image_type.split("+", 1)[0]
             out_relpath = os.path.join(
                 self.image_out_folder, f"{self.image_counter}.{file_ext}"
             )
-            self.image_relpath_by_data[image_data] = out_relpath
-
-        result: List[CSSToken] = [
-            self.stack[0],
-            CSSToken(
-                type=CSSTokenType.string,
-                value=out_relpath[len(os.path.join("out", "www")) :].replace(
-                    os.path.sep, "/"
-                ),
-            ),
-        ]
-        self.stack = None
-        self.state = None
-        self.skip_next_url_function = True
+            self.image_relpath_by_data[(file_ext, image_data)] = out_relpath
+
+        url = out_relpath[len(os.path.join("out", "www")) :].replace(os.path.sep, "/")
 
         if self.mode == "scan":
             if need_to_create:
@@ -128,17 +154,14 @@ class OutlineImageDataManipulator(CSSManipulator):
                 hash_scan_result = hash_handler.scan_file(self.context, out_relpath)
                 self.dependencies.update(hash_scan_result.dependencies)
                 self.produces.update(hash_scan_result.produces)
-            return result
+            return url
 
         out_path = os.path.join(self.context.folder, out_relpath)
         if need_to_create:
-            if os.path.lexists(out_relpath):
-                self.reused.add(out_relpath)
-            else:
-                self.produced.add(out_relpath)
-                makedirs_safely(os.path.dirname(out_path))
-                with open(out_path, "w", newline="\n") as f:
-                    f.write(unquote(image_data))
+            self.produced.add(out_relpath)
+            makedirs_safely(os.path.dirname(out_path))
+            with open(out_path, "wb") as f:
+                f.write(image_data)
 
             hash_build_result = hash_handler.build_file(self.context, out_relpath)
             self.children.update(hash_build_result.children)
@@ -148,11 +171,7 @@ class OutlineImageDataManipulator(CSSManipulator):
         with open(out_path + ".hash") as f:
             hash_value = f.read()
 
-        result[1]["value"] += "?" + urlencode(
-            {"v": hash_value, "pv": PROCESSOR_VERSION}
-        )
-
-        return result
+        return url + "?" + urlencode({"v": hash_value, "pv": PROCESSOR_VERSION})
 
     def scan_result(self) -> ScanFileResult:
         """The scan result for this manipulator"""
-- 
2.43.0


From 56e9e229b022c9859171c1376096a015eae2e92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:26 +0000
Subject: [PATCH 41/85] fix: find imported rules however their selectors are
 quoted, spaced or commented

---
 vanillaplusjs/build/css/manips/nest.py | 48 ++++++++++++++++++++------
 1 file changed, 38 insertions(+), 10 deletions(-)

diff --git a/vanillaplusjs/build/css/manips/nest.py b/vanillaplusjs/build/css/manips/nest.py
index 07fc81b..731622e 100644
--- a/vanillaplusjs/build/css/manips/nest.py
+++ b/vanillaplusjs/build/css/manips/nest.py
@@ -4,11 +4,13 @@ from vanillaplusjs.build.css.manipulator import CSSManipulator
 from typing import Dict, List, Literal, Optional, Set, Generator
 from vanillaplusjs.build.build_context import BuildContext
 from vanillaplusjs.build.build_file_result import BuildFileResult
-from vanillaplusjs.build.css.tokenizer import tokenize_and_close
+from vanillaplusjs.build.css.tokenizer import tokenize, tokenize_and_close
 from vanillaplusjs.build.scan_file_result import ScanFileResult
 from vanillaplusjs.build.css.token import CSSToken, CSSTokenType
 import vanillaplusjs.build.css.serializer
 from dataclasses import dataclass
+from functools import lru_cache
+import io
 import re
 import os
 from loguru import logger
@@ -222,6 +224,34 @@ PREPROCESSOR_IMPORT_ACTION_RULE = re.compile(
 PREPROCESSOR_IMPORT_FROM_RULE = re.compile(r"\sfrom\s+(?P<path>.*)$", re.IGNORECASE)
 
 
+def _serialize_prelude(prelude: List[CSSToken]) -> str:
+    """Serializes the given prelude such that it does not matter how it was quoted
+    or broken into lines, nor if there are comments around it.
+    """
+    ignorable = (CSSTokenType.whitespace, CSSTokenType.comment)
+    start, end = 0, len(prelude)
+    while start < end and prelude[start]["type"] in ignorable:
+        start += 1
+    while start < end and prelude[end - 1]["type"] in ignorable:
+        end -= 1
+    return "".join(
+        " "
+        if token["type"] == CSSTokenType.whitespace
+        else vanillaplusjs.build.css.serializer.serialize(token)
+        for token in prelude[start:end]
+    )
+
+
+@lru_cache(maxsize=None)
+def _normalize_prelude(prelude: str) -> str:
+    """Determines what _serialize_prelude would return for a rule which was
+    written with the given prelude.
+    """
+    return _serialize_prelude(
+        [t for t in tokenize(io.StringIO(prelude)) if t["type"] != CSSTokenType.eof]
+    )
+
+
 class NestManipulator(CSSManipulator):
     """Allows simple CSS nesting via importing another style into a given
     style.
@@ -387,7 +417,9 @@ class NestManipulator(CSSManipulator):
         import_prelude = (
             args.strip() if from_match is None else args[: from_match.start()].strip()
         )
-        return QualifiedRuleReference(import_relpath, import_prelude)
+        return QualifiedRuleReference(
+            import_relpath, _normalize_prelude(import_prelude)
+        )
 
     def continue_mark(self, node: CSSToken) -> Optional[List[CSSToken]]:
         imp = self._get_import(node)
@@ -474,11 +506,9 @@ class NestManipulator(CSSManipulator):
             if token["type"] == CSSTokenType.eof:
                 raise ValueError(f"{imp=}")
 
-            if token["type"] == CSSTokenType.cdo:
-                while token["type"] != CSSTokenType.cdc:
-                    token = next(generator)
-                    if token["type"] == CSSTokenType.eof:
-                        raise ValueError(f"{imp=}")
+            if token["type"] in (CSSTokenType.cdo, CSSTokenType.cdc):
+                # there is no meaning to these, in particular they do not make
+                # a comment of what is between them
                 continue
 
             if token["type"] == CSSTokenType.at_keyword:
@@ -528,9 +558,7 @@ class NestManipulator(CSSManipulator):
                     break
                 prelude.append(token)
 
-            serialized_prelude = vanillaplusjs.build.css.serializer.serialize_many(
-                prelude
-            ).strip()
+            serialized_prelude = _serialize_prelude(prelude)
 
             stack: List[CSSToken] = []
             value: List[CSSToken] = []
-- 
2.43.0


From fc3d0954fccd900a7c9c6a4dfc949ba8784a7f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:03 +0000
Subject: [PATCH 42/85] fix: generate icons in the colors of their buttons too

---
 vanillaplusjs/build/css/manips/icons/command.py | 17 +++++++++++++++++
 vanillaplusjs/build/css/manips/icons/manip.py   |  4 ++--
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/vanillaplusjs/build/css/manips/icons/command.py b/vanillaplusjs/build/css/manips/icons/command.py
index afae37a..064b2d8 100644
--- a/vanillaplusjs/build/css/manips/icons/command.py
+++ b/vanillaplusjs/build/css/manips/icons/command.py
@@ -41,6 +41,23 @@ class IconCommand:
         """The location of the output icon folder relative to the project root"""
         return os.path.join("out", "www", "img", "icons", self.icon_name)
 
+    @property
+    def image_colors(self) -> List[str]:
+        """The colors the icon is needed in: the output colors, followed by any
+        others which are only used by the buttons. Only meaningful once the command
+        has been augmented with the actual colors and buttons.
+        """
+        res = list(self.output_colors)
+        if self.button is not None:
+            buttons = list(self.button.button_by_identifier.values())
+            if self.button.default_button is not None:
+                buttons.insert(0, self.button.default_button)
+            for button in buttons:
+                res.extend(
+                    [button.active_color, button.hover_color, button.disabled_color]
+                )
+        return list(dict((color, None) for color in res))
+
     def web_path_to(self, color: str) -> str:
         """Returns the path part of the URL for this icon in the given color"""
         return f"/img/icons/{self.icon_name}/{color}.svg"
diff --git a/vanillaplusjs/build/css/manips/icons/manip.py b/vanillaplusjs/build/css/manips/icons/manip.py
index 6d14e4b..c05013b 100644
--- a/vanillaplusjs/build/css/manips/icons/manip.py
+++ b/vanillaplusjs/build/css/manips/icons/manip.py
@@ -76,7 +76,7 @@ class IconManipulator(CSSManipulator):
         svg = None
         replacer = None
 
-        for color in args.output_colors:
+        for color in args.image_colors:
             output_relpath = os.path.join(args.output_icon_folder, color + ".svg")
             output_path = os.path.join(self.context.folder, output_relpath)
             if os.path.exists(output_path):
@@ -582,7 +582,7 @@ class IconManipulator(CSSManipulator):
         """
         self.dependencies.add(args.input_icon)
 
-        for color in args.output_colors:
+        for color in args.image_colors:
             self.produces.add(os.path.join(args.output_icon_folder, color + ".svg"))
 
             # these are oging to come from the version_urls manipulator, but if we don't add them
-- 
2.43.0


From 31ee263ea5a3ff5847370b6597109b8718e0008c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:15 +0000
Subject: [PATCH 43/85] fix: recolor icons however their color is written

---
 vanillaplusjs/build/css/manips/icons/color.py | 27 +++++++++++++++++++
 vanillaplusjs/build/css/manips/icons/manip.py | 17 ++++++------
 2 files changed, 36 insertions(+), 8 deletions(-)

diff --git a/vanillaplusjs/build/css/manips/icons/color.py b/vanillaplusjs/build/css/manips/icons/color.py
index 09a89de..36259ee 100644
--- a/vanillaplusjs/build/css/manips/icons/color.py
+++ b/vanillaplusjs/build/css/manips/icons/color.py
@@ -1,4 +1,6 @@
 from dataclasses import dataclass
+from typing import Optional
+import re
 
 
 @dataclass
@@ -36,3 +38,28 @@ class Color:
 
     def to_hex(self) -> str:
         return f"#{self.red:02X}{self.green:02X}{self.blue:02X}"
+
+
+# Matches the hex colors in an svg, which are either the value of an attribute or
+# within a list of declarations. References to elements may look the same, but
+# come after "href=" or within url().
+SVG_HEX_COLOR = re.compile(
+    rb"""(?P<before>href\s*=\s*["']\s*)?"""
+    rb"""(?<=["':\s,])\#(?P<hex>[0-9a-fA-F]{6}|[0-9a-fA-F]{3})(?=["';\s,!}<])""",
+)
+
+
+def recolor_svg(svg: bytes, old: Color, new: Optional[Color]) -> bytes:
+    """Replaces the given color in the svg with the other, or with a placeholder
+    if there is no other, however it's written (e.g., #333 or #333333).
+    """
+    replacement = b"" if new is None else new.to_hex().encode("ascii")
+
+    def replace(match: "re.Match[bytes]") -> bytes:
+        if match.group("before") is not None:
+            return match.group(0)
+        if Color.from_hex("#" + match.group("hex").decode("ascii")) != old:
+            return match.group(0)
+        return replacement
+
+    return SVG_HEX_COLOR.sub(replace, svg)
diff --git a/vanillaplusjs/build/css/manips/icons/manip.py b/vanillaplusjs/build/css/manips/icons/manip.py
index c05013b..cb6bea4 100644
--- a/vanillaplusjs/build/css/manips/icons/manip.py
+++ b/vanillaplusjs/build/css/manips/icons/manip.py
@@ -1,3 +1,4 @@
+from vanillaplusjs.build.css.manips.icons.color import Color, recolor_svg
 from vanillaplusjs.build.css.manips.icons.command import IconCommand
 from vanillaplusjs.build.css.manips.icons.parser import parse_icon_command
 from vanillaplusjs.build.css.manips.icons.settings import ButtonSetting
@@ -73,8 +74,8 @@ class IconManipulator(CSSManipulator):
 
         self.children.add(args.input_icon)
 
-        svg = None
-        replacer = None
+        svg: Optional[bytes] = None
+        og_color: Optional[Color] = None
 
         for color in args.image_colors:
             output_relpath = os.path.join(args.output_icon_folder, color + ".svg")
@@ -84,23 +85,23 @@ class IconManipulator(CSSManipulator):
                 self._hash_icon(output_relpath)
                 continue
             if svg is None:
-                with open(os.path.join(self.context.folder, args.input_icon)) as f:
+                with open(
+                    os.path.join(self.context.folder, args.input_icon), "rb"
+                ) as f:
                     svg = f.read()
 
                 og_color = self.context.icon_settings.color_map[args.icon_initial_color]
-                replacer = f'"{og_color.to_hex()}"'
-                if replacer not in svg:
+                if recolor_svg(svg, og_color, None) == svg:
                     logger.warning(
                         f"Icon {args.icon_name} does not have the "
                         f"color {args.icon_initial_color} ({og_color.to_hex()}) in it"
                     )
                     logger.debug(f"{svg=}")
-                    logger.debug(f"{replacer=}")
 
             target_color = self.context.icon_settings.color_map[color]
-            new_svg = svg.replace(replacer, f'"{target_color.to_hex()}"')
+            new_svg = recolor_svg(svg, og_color, target_color)
             makedirs_safely(os.path.dirname(output_path))
-            with open(output_path, "w", newline="\n") as f:
+            with open(output_path, "wb") as f:
                 f.write(new_svg)
 
             self.produced.add(output_relpath)
-- 
2.43.0


From c1a395badfca7f9f43731022cedd235011d490e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:28 +0000
Subject: [PATCH 44/85] fix: name outlined images the same whatever the order
 they are encountered in

---
 vanillaplusjs/build/css/manips/outline_image_data.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/vanillaplusjs/build/css/manips/outline_image_data.py b/vanillaplusjs/build/css/manips/outline_image_data.py
index a42ab72..7334df1 100644
--- a/vanillaplusjs/build/css/manips/outline_image_data.py
+++ b/vanillaplusjs/build/css/manips/outline_image_data.py
@@ -43,7 +43,9 @@ class OutlineImageDataManipulator(CSSManipulator):
         self.reused: Optional[Set[str]] = set() if mode == "build" else None
 
         self.image_relpath_by_data: Dict[Tuple[str, bytes], str] = dict()
-        self.image_counter = 0
+        # counted by file extension, as when nested rules are imported the images
+        # might be encountered in a different order than when scanning
+        self.image_counter: Dict[str, int] = dict()
 
         self.skip_next_url_function = False
         self.state: Optional[Literal["expecting_url", "expecting_string"]] = None
@@ -140,9 +142,10 @@ class OutlineImageDataManipulator(CSSManipulator):
         out_relpath = self.image_relpath_by_data.get((file_ext, image_data))
         need_to_create = out_relpath is None
         if need_to_create:
-            self.image_counter += 1
+            image_number = self.image_counter.get(file_ext, 0) + 1
+            self.image_counter[file_ext] = image_number
             out_relpath = os.path.join(
-                self.image_out_folder, f"{self.image_counter}.{file_ext}"
+                self.image_out_folder, f"{image_number}.{file_ext}"
             )
             self.image_relpath_by_data[(file_ext, image_data)] = out_relpath
 
-- 
2.43.0


From e5ea551bf28ee18756136c48d6fbcb15d039cdf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:11 +0000
Subject: [PATCH 45/85] fix: export null, list, object and non-finite constants

---
 vanillaplusjs/build/handlers/js_constants.py | 30 +++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/vanillaplusjs/build/handlers/js_constants.py b/vanillaplusjs/build/handlers/js_constants.py
index 90b2876..08f9151 100644
--- a/vanillaplusjs/build/handlers/js_constants.py
+++ b/vanillaplusjs/build/handlers/js_constants.py
@@ -8,6 +8,7 @@ import vanillaplusjs.build.handlers.copy
 import vanillaplusjs.build.handlers.hash
 from vanillaplusjs.build.ioutil import makedirs_safely
 from vanillaplusjs.build.scan_file_result import ScanFileResult
+import math
 import os
 
 
@@ -61,16 +62,43 @@ def build_file(context: BuildContext, relpath: str) -> BuildFileResult:
 
 
 def jsify(val) -> str:
+    """Serializes the given value, which can be any JSON value, as a javascript
+    expression with that value.
+    """
     if isinstance(val, str):
         return serialize_string(val)
 
+    if val is None:
+        return "null"
+
     if val is True:
         return "true"
 
     if val is False:
         return "false"
 
+    if isinstance(val, float) and math.isnan(val):
+        return "NaN"
+
+    if isinstance(val, float) and math.isinf(val):
+        return "Infinity" if val > 0 else "-Infinity"
+
     if isinstance(val, (int, float)):
         return str(val)
 
-    return repr(val)
+    if isinstance(val, (list, tuple)):
+        return "[" + ", ".join(jsify(item) for item in val) + "]"
+
+    if isinstance(val, dict):
+        return "{" + ", ".join(jsify_property(*item) for item in val.items()) + "}"
+
+    raise ValueError(f"Not a valid constant: {val!r}")
+
+
+def jsify_property(key: str, val) -> str:
+    """Serializes the given property of an object"""
+    serialized_key = serialize_string(key)
+    if key == "__proto__":
+        # as a regular key this would set the prototype
+        serialized_key = f"[{serialized_key}]"
+    return f"{serialized_key}: {jsify(val)}"
-- 
2.43.0


From 9ee336e9cd70336503abe53bf906c182232eed48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:22 +0000
Subject: [PATCH 46/85] fix: rebuild the constants script when the configured
 constants change

---
 vanillaplusjs/build/build_context.py          |  7 +++
 vanillaplusjs/build/handlers/js_constants.py  | 28 +++++++--
 .../build/hot_incremental_rebuild.py          | 62 ++++++++++---------
 3 files changed, 62 insertions(+), 35 deletions(-)

diff --git a/vanillaplusjs/build/build_context.py b/vanillaplusjs/build/build_context.py
index ff46067..ca878da 100644
--- a/vanillaplusjs/build/build_context.py
+++ b/vanillaplusjs/build/build_context.py
@@ -235,6 +235,13 @@ class BuildContext:
         """
         return os.path.join(self.out_folder, "incomplete_build.txt")
 
+    @property
+    def js_constants_state_file(self) -> str:
+        """Returns the path to the JSON file describing the constants that the
+        constants file in the out folder was built with
+        """
+        return os.path.join(self.out_folder, "js_constants_state.json")
+
     @property
     def external_files_state_file(self) -> str:
         """Returns the path to the external files state JSON file"""
diff --git a/vanillaplusjs/build/handlers/js_constants.py b/vanillaplusjs/build/handlers/js_constants.py
index 08f9151..9ab7884 100644
--- a/vanillaplusjs/build/handlers/js_constants.py
+++ b/vanillaplusjs/build/handlers/js_constants.py
@@ -1,6 +1,6 @@
 """The handler for the JS constants files"""
 
-from typing import Set
+from typing import Any, Dict, Set
 from vanillaplusjs.build.build_context import BuildContext
 from vanillaplusjs.build.build_file_result import BuildFileResult
 from vanillaplusjs.build.js.serializer import serialize_string
@@ -38,11 +38,7 @@ def build_file(context: BuildContext, relpath: str) -> BuildFileResult:
     else:
         produced.add(target_relpath)
 
-        constants = context.js_constants.shared.copy()
-        if context.dev:
-            constants.update(context.js_constants.dev)
-        else:
-            constants.update(context.js_constants.prod)
+        constants = get_constants(context)
 
         makedirs_safely(os.path.dirname(target_path))
         with open(target_path, "w", newline="\n") as f:
@@ -61,6 +57,26 @@ def build_file(context: BuildContext, relpath: str) -> BuildFileResult:
     )
 
 
+def get_constants(context: BuildContext) -> Dict[str, Any]:
+    """Determines the constants to export in the current mode"""
+    constants = context.js_constants.shared.copy()
+    if context.dev:
+        constants.update(context.js_constants.dev)
+    else:
+        constants.update(context.js_constants.prod)
+    return constants
+
+
+def get_state(context: BuildContext) -> Dict[str, Any]:
+    """Describes everything besides the files of the project which decides what
+    the constants file will contain, as something which can be stored as json.
+    """
+    return {
+        "relpath": context.js_constants.relpath,
+        "constants": list(list(item) for item in get_constants(context).items()),
+    }
+
+
 def jsify(val) -> str:
     """Serializes the given value, which can be any JSON value, as a javascript
     expression with that value.
diff --git a/vanillaplusjs/build/hot_incremental_rebuild.py b/vanillaplusjs/build/hot_incremental_rebuild.py
index d5a2d20..aab45d5 100644
--- a/vanillaplusjs/build/hot_incremental_rebuild.py
+++ b/vanillaplusjs/build/hot_incremental_rebuild.py
@@ -1,4 +1,4 @@
-from typing import Dict, Iterable, List, Literal, Set, Tuple
+from typing import Dict, Iterable, List, Set, Tuple
 from vanillaplusjs.build.build_context import BuildContext
 from vanillaplusjs.build.build_file_result import BuildFileResult
 from vanillaplusjs.build.build_file import build_file
@@ -6,12 +6,16 @@ from vanillaplusjs.build.exceptions import (
     CyclicDependencyException,
 )
 from vanillaplusjs.build.file_signature import FileSignature, get_file_signature
+from vanillaplusjs.build.handlers.js_constants import (
+    get_state as get_constants_state,
+)
 from vanillaplusjs.build.ioutil import makedirs_safely, open_atomically
 from vanillaplusjs.build.scan_file import scan_file
 from vanillaplusjs.build.scan_file_result import ScanFileResult
 from .graph import FileDependencyGraph
 from loguru import logger
 import concurrent.futures
+import json
 import os
 import asyncio
 import itertools
@@ -87,32 +91,32 @@ async def hot_incremental_rebuild(
         context.folder,
     )
 
-    current_mode: Literal["dev", "prod"] = "dev" if context.dev else "prod"
-    old_constants_mode = None
-    if os.path.exists(os.path.join(context.folder, context.js_constants.relpath)):
-        try:
-            with open(
-                os.path.join(context.out_folder, "js_constants_mode.txt"), "r"
-            ) as f:
-                old_constants_mode = f.read()
-        except FileNotFoundError:
-            pass
-
-        if old_constants_mode != current_mode:
-            if (context.js_constants.relpath not in changed_files) and (
-                context.js_constants.relpath not in added_files
+    constants_state = get_constants_state(context)
+    old_constants_state = None
+    try:
+        with open(context.js_constants_state_file, "r") as f:
+            old_constants_state = json.load(f)
+    except FileNotFoundError:
+        pass
+
+    # compared as they are stored, since the order matters and nan != nan
+    if json.dumps(old_constants_state) != json.dumps(constants_state):
+        relpaths = {constants_state["relpath"]}
+        if old_constants_state is not None:
+            relpaths.add(old_constants_state["relpath"])
+
+        for relpath in sorted(relpaths):
+            if (
+                relpath in old_dependency_graph
+                and relpath not in changed_files
+                and relpath not in added_files
+                and relpath not in deleted_files
+                and os.path.exists(os.path.join(context.folder, relpath))
             ):
-                logger.debug(
-                    f"Marking {context.js_constants.relpath} changed due to new mode {current_mode} (was {old_constants_mode})"
+                logger.debug("Marking {} changed due to new constants", relpath)
+                changed_files[relpath] = get_file_signature(
+                    os.path.join(context.folder, relpath)
                 )
-                changed_files[context.js_constants.relpath] = get_file_signature(
-                    os.path.join(context.folder, context.js_constants.relpath)
-                )
-    else:
-        try:
-            os.unlink(os.path.join(context.out_folder, "js_constants_mode.txt"))
-        except FileNotFoundError:
-            pass
 
     if not changed_files and not added_files and not deleted_files:
         logger.info("Nothing to do, exiting")
@@ -603,10 +607,10 @@ async def hot_incremental_rebuild(
             new_placeholder_graph.store(fp)
 
         if context.js_constants.relpath in new_dependency_graph:
-            with open(
-                os.path.join(context.out_folder, "js_constants_mode.txt"), "w"
-            ) as fp:
-                fp.write(current_mode)
+            with open_atomically(context.js_constants_state_file) as fp:
+                json.dump(constants_state, fp)
+        elif os.path.exists(context.js_constants_state_file):
+            os.unlink(context.js_constants_state_file)
 
         os.unlink(context.incomplete_build_file)
 
-- 
2.43.0


From 26f7a7cf03c0fd6a3c26f8a1335948c3bba4d0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:32 +0000
Subject: [PATCH 47/85] fix: do not publish folders whose name merely starts
 with public

---
 vanillaplusjs/build/handlers/copy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vanillaplusjs/build/handlers/copy.py b/vanillaplusjs/build/handlers/copy.py
index 88f1ff3..cf749ed 100644
--- a/vanillaplusjs/build/handlers/copy.py
+++ b/vanillaplusjs/build/handlers/copy.py
@@ -16,10 +16,10 @@ def get_target_path(context: BuildContext, relpath: str) -> Optional[str]:
     """
     # A lot of the path related functions here are shockingly slow, hence
     # this is a bit of a hack to make scanning faster
-    rel_public_folder = f"src{os.path.sep}public"
+    rel_public_folder = f"src{os.path.sep}public{os.path.sep}"
     if not relpath.startswith(rel_public_folder):
         return None
-    relative_to_public_folder = relpath[len(rel_public_folder) + len(os.path.sep) :]
+    relative_to_public_folder = relpath[len(rel_public_folder) :]
     return f"out{os.path.sep}www{os.path.sep}{relative_to_public_folder}"
 
 
-- 
2.43.0


From a02c15a8694bc650b68d74dd3dd7fb01b12dd52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:43 +0000
Subject: [PATCH 48/85] fix: ignore scripts and stylesheets outside of the
 public folder

---
 vanillaplusjs/build/handlers/css.py | 6 ++++++
 vanillaplusjs/build/handlers/js.py  | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/vanillaplusjs/build/handlers/css.py b/vanillaplusjs/build/handlers/css.py
index fbc86a5..7e59da4 100644
--- a/vanillaplusjs/build/handlers/css.py
+++ b/vanillaplusjs/build/handlers/css.py
@@ -41,6 +41,10 @@ def scan_file(context: BuildContext, relpath: str) -> ScanFileResult:
     if not relpath.endswith(".css"):
         return ScanFileResult([], [])
 
+    target_path = vanillaplusjs.build.handlers.copy.get_target_path(context, relpath)
+    if target_path is None:
+        return ScanFileResult([], [])
+
     dependencies = set()
     produces = set()
 
@@ -67,6 +71,8 @@ def build_file(context: BuildContext, relpath: str) -> BuildFileResult:
         return BuildFileResult([], [], [])
 
     target_path = vanillaplusjs.build.handlers.copy.get_target_path(context, relpath)
+    if target_path is None:
+        return BuildFileResult([], [], [])
 
     children = set()
     produced = set()
diff --git a/vanillaplusjs/build/handlers/js.py b/vanillaplusjs/build/handlers/js.py
index ff6f579..106516f 100644
--- a/vanillaplusjs/build/handlers/js.py
+++ b/vanillaplusjs/build/handlers/js.py
@@ -35,6 +35,10 @@ def scan_file(context: BuildContext, relpath: str) -> ScanFileResult:
     if not relpath.endswith(".js"):
         return ScanFileResult([], [])
 
+    target_path = vanillaplusjs.build.handlers.copy.get_target_path(context, relpath)
+    if target_path is None:
+        return ScanFileResult([], [])
+
     dependencies = set()
     produces = set()
 
@@ -61,6 +65,8 @@ def build_file(context: BuildContext, relpath: str) -> BuildFileResult:
         return BuildFileResult([], [], [])
 
     target_path = vanillaplusjs.build.handlers.copy.get_target_path(context, relpath)
+    if target_path is None:
+        return BuildFileResult([], [], [])
 
     children = set()
     produced = set()
-- 
2.43.0


From d1e2970446b358542784d46ccf2bd8173f3db080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:52 +0000
Subject: [PATCH 49/85] fix: keep track of external files which are no longer
 configured or failed to download

---
 .../build/cold_incremental_rebuild.py         | 60 +++++++++----------
 1 file changed, 30 insertions(+), 30 deletions(-)

diff --git a/vanillaplusjs/build/cold_incremental_rebuild.py b/vanillaplusjs/build/cold_incremental_rebuild.py
index e2714e6..9c4c421 100644
--- a/vanillaplusjs/build/cold_incremental_rebuild.py
+++ b/vanillaplusjs/build/cold_incremental_rebuild.py
@@ -155,14 +155,14 @@ async def check_external_files(context: BuildContext):
     Args:
         context (BuildContext): The context to build in
     """
-    if not context.external_files:
-        return
-
     external_files_state = ExternalFilesState(state_by_relpath=dict())
     if os.path.exists(context.external_files_state_file):
         with open(context.external_files_state_file, "r") as f:
             external_files_state = ExternalFilesState.from_json(json.load(f))
 
+    if not context.external_files and not external_files_state.state_by_relpath:
+        return
+
     logger.info("Checking external files")
 
     new_external_files_state = ExternalFilesState(state_by_relpath=dict())
@@ -170,13 +170,16 @@ async def check_external_files(context: BuildContext):
     for old_external_file_relpath in external_files_state.state_by_relpath.keys():
         if old_external_file_relpath not in context.external_files:
             logger.info("Deleting old external file {}", old_external_file_relpath)
-            os.remove(os.path.join(context.folder, old_external_file_relpath))
+            try:
+                os.remove(os.path.join(context.folder, old_external_file_relpath))
+            except FileNotFoundError:
+                pass
 
     executor: Optional[ProcessPoolExecutor] = None
     # We don't want to spin up a whole process pool unless we actually have
     # something to do
 
-    futures: List[concurrent.futures.Future] = []
+    futures: Dict[str, concurrent.futures.Future] = dict()
     try:
         for desired_external_file in context.external_files.values():
             if is_external_file_skippable(
@@ -190,38 +193,35 @@ async def check_external_files(context: BuildContext):
             if executor is None:
                 executor = ProcessPoolExecutor()
 
-            futures.append(
-                executor.submit(handle_external_file, context, desired_external_file)
+            futures[desired_external_file.relpath] = executor.submit(
+                handle_external_file, context, desired_external_file
             )
     finally:
         if executor is not None:
             executor.shutdown(wait=True)
 
-    if not futures:
-        return
-
-    for future in futures:
-        future.result()
-
-    for desired_external_file in context.external_files.values():
-        if (
-            desired_external_file.relpath
-            not in new_external_files_state.state_by_relpath
-        ):
-            new_external_files_state.state_by_relpath[
-                desired_external_file.relpath
-            ] = ExternalFileState(
-                relpath=desired_external_file.relpath,
-                integrity=desired_external_file.integrity,
-                signature=get_file_signature(
-                    os.path.join(context.folder, desired_external_file.relpath)
-                ),
+    for relpath, future in futures.items():
+        if future.exception() is None:
+            new_external_files_state.state_by_relpath[relpath] = ExternalFileState(
+                relpath=relpath,
+                integrity=context.external_files[relpath].integrity,
+                signature=get_file_signature(os.path.join(context.folder, relpath)),
             )
+        elif relpath in external_files_state.state_by_relpath:
+            # it's still the one from before
+            new_external_files_state.state_by_relpath[
+                relpath
+            ] = external_files_state.state_by_relpath[relpath]
+
+    # This is stored even if some of the files are not available, so that the
+    # state always describes the files which we are responsible for
+    if new_external_files_state != external_files_state:
+        makedirs_safely(os.path.dirname(context.external_files_state_file))
+        with open_atomically(context.external_files_state_file) as f:
+            json.dump(dataclasses.asdict(new_external_files_state), f)
 
-    external_files_state_folder = os.path.dirname(context.external_files_state_file)
-    makedirs_safely(external_files_state_folder)
-    with open_atomically(context.external_files_state_file) as f:
-        json.dump(dataclasses.asdict(new_external_files_state), f)
+    for future in futures.values():
+        future.result()
 
 
 def is_external_file_skippable(
-- 
2.43.0


From e94a85f98bc7917b180335c9e591eecbbeb6d652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:05 +0000
Subject: [PATCH 50/85] fix: a failing download could leave other downloads
 behind or hang the build

---
 vanillaplusjs/build/cold_incremental_rebuild.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vanillaplusjs/build/cold_incremental_rebuild.py b/vanillaplusjs/build/cold_incremental_rebuild.py
index 9c4c421..ecd00a1 100644
--- a/vanillaplusjs/build/cold_incremental_rebuild.py
+++ b/vanillaplusjs/build/cold_incremental_rebuild.py
@@ -1,4 +1,4 @@
-from concurrent.futures import ProcessPoolExecutor
+from concurrent.futures import ThreadPoolExecutor
 
 import requests
 from vanillaplusjs.build.build_context import (
@@ -175,8 +175,8 @@ async def check_external_files(context: BuildContext):
             except FileNotFoundError:
                 pass
 
-    executor: Optional[ProcessPoolExecutor] = None
-    # We don't want to spin up a whole process pool unless we actually have
+    executor: Optional[ThreadPoolExecutor] = None
+    # We don't want to spin up a whole thread pool unless we actually have
     # something to do
 
     futures: Dict[str, concurrent.futures.Future] = dict()
@@ -191,7 +191,7 @@ async def check_external_files(context: BuildContext):
                 continue
 
             if executor is None:
-                executor = ProcessPoolExecutor()
+                executor = ThreadPoolExecutor()
 
             futures[desired_external_file.relpath] = executor.submit(
                 handle_external_file, context, desired_external_file
-- 
2.43.0


From 1ec7d5044b0da18e4550b9a9cfb8c92651306b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:13 +0000
Subject: [PATCH 51/85] fix: cleaning failed when a placeholder was already
 removed

---
 vanillaplusjs/runners/clean.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vanillaplusjs/runners/clean.py b/vanillaplusjs/runners/clean.py
index 2cb9aaa..fc625f2 100644
--- a/vanillaplusjs/runners/clean.py
+++ b/vanillaplusjs/runners/clean.py
@@ -62,7 +62,11 @@ def clean(folder: str, placeholders: bool) -> None:
 
             for file, node in placeholder_graph.nodes.items():
                 if node.parents:
-                    os.remove(os.path.join(folder, file))
+                    try:
+                        os.remove(os.path.join(folder, file))
+                    except FileNotFoundError:
+                        # it was already removed by hand
+                        pass
 
     shutil.rmtree(os.path.join(folder, "out"), ignore_errors=True)
     shutil.rmtree(os.path.join(folder, "artifacts"), ignore_errors=True)
-- 
2.43.0


From 217cc2c12ee9ad454aee1c23c4689fd52fded0aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:24 +0000
Subject: [PATCH 52/85] fix: create the folder to initialise if it is missing

---
 vanillaplusjs/runners/init.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vanillaplusjs/runners/init.py b/vanillaplusjs/runners/init.py
index f5f1e13..6be804f 100644
--- a/vanillaplusjs/runners/init.py
+++ b/vanillaplusjs/runners/init.py
@@ -52,6 +52,8 @@ def init(folder: str, host: Optional[str] = None) -> None:
         host (str, None): If the host where the website will be hosted
             is known, that host to initialize the configuration with
     """
+    makedirs_safely(folder)
+
     if not os.path.exists(os.path.join(folder, "vanillaplusjs.json")):
         with open(os.path.join(folder, "vanillaplusjs.json"), "w") as f:
             json.dump(
-- 
2.43.0


From f99118027174e04200346002591bfa75324b1531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:34 +0000
Subject: [PATCH 53/85] fix: do not test for links in the current folder

---
 vanillaplusjs/runners/build.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/vanillaplusjs/runners/build.py b/vanillaplusjs/runners/build.py
index 7636387..1b43acf 100644
--- a/vanillaplusjs/runners/build.py
+++ b/vanillaplusjs/runners/build.py
@@ -4,6 +4,7 @@ from loguru import logger
 import os
 import sys
 import json
+import tempfile
 from vanillaplusjs.build.build_context import (
     BuildContext,
     ExternalFile,
@@ -194,16 +195,15 @@ def build(
 
 
 def detect_symlink_support() -> bool:
+    # The current folder may be part of the project, or not be writable
     try:
-        with open("___symlink_test___.txt", "w") as f:
-            f.write("test")
+        with tempfile.TemporaryDirectory() as folder:
+            target = os.path.join(folder, "symlink_test.txt")
+            with open(target, "w") as f:
+                f.write("test")
 
-        os.symlink("___symlink_test___.txt", "___symlink_test___2.txt")
+            os.symlink(target, os.path.join(folder, "symlink_test_2.txt"))
         return True
     except OSError:
         logger.debug("Symlinks disabled (unsupported)")
         return False
-    finally:
-        if os.path.exists("___symlink_test___2.txt"):
-            os.remove("___symlink_test___2.txt")
-        os.remove("___symlink_test___.txt")
-- 
2.43.0


From 26117ec9b917a62fe5841a3d175e341aec0105cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:45 +0000
Subject: [PATCH 54/85] fix: writing an outlined image could overwrite a source
 file through a link

---
 vanillaplusjs/build/css/manips/outline_image_data.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vanillaplusjs/build/css/manips/outline_image_data.py b/vanillaplusjs/build/css/manips/outline_image_data.py
index 7334df1..67e8f51 100644
--- a/vanillaplusjs/build/css/manips/outline_image_data.py
+++ b/vanillaplusjs/build/css/manips/outline_image_data.py
@@ -163,6 +163,10 @@ class OutlineImageDataManipulator(CSSManipulator):
         if need_to_create:
             self.produced.add(out_relpath)
             makedirs_safely(os.path.dirname(out_path))
+            if os.path.islink(out_path):
+                # a source file uses the same path; writing must not go through
+                # the link into that source file
+                os.remove(out_path)
             with open(out_path, "wb") as f:
                 f.write(image_data)
 
-- 
2.43.0


From 944b2f59f2f2db712191f031e9628aef44e93a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:55 +0000
Subject: [PATCH 55/85] fix: serve built files which are links, and nothing
 from sibling folders

---
 vanillaplusjs/http_server.py | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/vanillaplusjs/http_server.py b/vanillaplusjs/http_server.py
index 2b4c5c5..55e9496 100644
--- a/vanillaplusjs/http_server.py
+++ b/vanillaplusjs/http_server.py
@@ -2,11 +2,13 @@
 will serve files
 """
 import contextlib
+import os
 import threading
 import uvicorn
 from starlette.applications import Starlette
 from starlette.routing import Mount
 from starlette.staticfiles import StaticFiles
+from typing import Optional, Tuple
 import time
 import mimetypes
 
@@ -22,6 +24,24 @@ mimetypes.add_type("image/gif", ".gif")
 mimetypes.add_type("image/webp", ".webp")
 
 
+class BuiltFiles(StaticFiles):
+    """Serves the files below the directory by their path. As opposed to the
+    standard implementation this serves files which are links to elsewhere, as
+    the built files may be links to their sources, and does not serve files from
+    other directories whose path starts with the path to the directory.
+    """
+
+    def lookup_path(self, path: str) -> Tuple[str, Optional[os.stat_result]]:
+        if path.split(os.path.sep)[0] == os.path.pardir or os.path.isabs(path):
+            return "", None
+
+        full_path = os.path.join(self.directory, path)
+        try:
+            return full_path, os.stat(full_path)
+        except (FileNotFoundError, NotADirectoryError):
+            return "", None
+
+
 @contextlib.contextmanager
 def host_static_files(folder: str, host: str, port: int):
     """Starts a uvicorn server in a separate thread, yields None, and
@@ -30,7 +50,7 @@ def host_static_files(folder: str, host: str, port: int):
     https://github.com/encode/uvicorn/discussions/1103
     """
     routes = [
-        Mount("/", app=StaticFiles(directory=folder, html=True), name="static"),
+        Mount("/", app=BuiltFiles(directory=folder, html=True), name="static"),
     ]
 
     app = Starlette(routes=routes)
-- 
2.43.0


From 9c011fe77e016fa23b19085dac78ffc2fe521043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:07 +0000
Subject: [PATCH 56/85] fix: a rebuilt file could be reported as not modified

---
 vanillaplusjs/http_server.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/vanillaplusjs/http_server.py b/vanillaplusjs/http_server.py
index 55e9496..e53b518 100644
--- a/vanillaplusjs/http_server.py
+++ b/vanillaplusjs/http_server.py
@@ -6,6 +6,7 @@ import os
 import threading
 import uvicorn
 from starlette.applications import Starlette
+from starlette.datastructures import Headers
 from starlette.routing import Mount
 from starlette.staticfiles import StaticFiles
 from typing import Optional, Tuple
@@ -41,6 +42,15 @@ class BuiltFiles(StaticFiles):
         except (FileNotFoundError, NotADirectoryError):
             return "", None
 
+    def is_not_modified(
+        self, response_headers: Headers, request_headers: Headers
+    ) -> bool:
+        # a rebuilt file may well have been modified within the same second, or
+        # have an older modification time
+        if "if-none-match" in request_headers:
+            return request_headers["if-none-match"] == response_headers["etag"]
+        return super().is_not_modified(response_headers, request_headers)
+
 
 @contextlib.contextmanager
 def host_static_files(folder: str, host: str, port: int):
-- 
2.43.0


From 2548e17c5c474f9edf707a3c186936597f7db4fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:54 +0000
Subject: [PATCH 57/85] fix: the watcher could lose files after starting afresh
 failed

---
 vanillaplusjs/runners/dev.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/vanillaplusjs/runners/dev.py b/vanillaplusjs/runners/dev.py
index f001b62..034ccff 100644
--- a/vanillaplusjs/runners/dev.py
+++ b/vanillaplusjs/runners/dev.py
@@ -245,7 +245,12 @@ class DevEventHandler(FileSystemEventHandler):
         context.js_constants = load_js_constants(config["js_constants"])
         context.delay_files = []
 
-        if os.path.exists(context.incomplete_build_file):
+        if os.path.exists(context.incomplete_build_file) or not os.path.exists(
+            context.dependency_graph_file
+        ):
+            # there is no build to continue from; starting afresh may have failed
+            # as well, in which case everything has to be built rather than just
+            # the files which were touched since
             build(self.folder, dev=True, symlinks=self.symlinks, delay_files=[])
             return
 
-- 
2.43.0


From 0b2e2137f4e038a7aadbc1f2a44b7fd055f693ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:38 +0000
Subject: [PATCH 58/85] fix: text which looks like a comment was dropped from
 pages

---
 vanillaplusjs/build/html/tokenizer.py | 68 ++++++++++++++-------------
 1 file changed, 35 insertions(+), 33 deletions(-)

diff --git a/vanillaplusjs/build/html/tokenizer.py b/vanillaplusjs/build/html/tokenizer.py
index 654d110..ce42eed 100644
--- a/vanillaplusjs/build/html/tokenizer.py
+++ b/vanillaplusjs/build/html/tokenizer.py
@@ -1,8 +1,12 @@
 import io
-from typing import Generator
+import re
+from typing import Generator, List
 from .token import HTMLToken
 import html5lib
 
+COMMENT = re.compile("<!--(.*?)-->", re.DOTALL)
+"""Matches a comment within the text of an element which html5lib parses as text"""
+
 
 def tokenize(f: io.TextIOBase, fragment=False) -> Generator[HTMLToken, None, None]:
     """Tokenizes the given file using html5lib. This will correct certain
@@ -45,38 +49,36 @@ def tokenize(f: io.TextIOBase, fragment=False) -> Generator[HTMLToken, None, Non
 
         # to see what we're trying to fix, try parseFragment on <title><!-- COMMENT -->Hello World</title>
 
-        if token["type"] == "Characters" and token["data"] == "<":
-            try:
-                next_token = next(tokens)
-            except StopIteration:
-                yield token
-                break
-
-            if next_token["type"] == "Characters" and next_token["data"].startswith(
-                "!--"
-            ):
-                data: str = next_token["data"]
-                try:
-                    close_comment_idx = data.index("-->")
-                except ValueError:
-                    yield token
-                    yield next_token
-                    continue
-
-                yield HTMLToken(
-                    type="Comment",
-                    data=data[3:close_comment_idx],
-                )
-                remainder = data[close_comment_idx + 3 :]
-                if remainder:
-                    yield HTMLToken(
-                        type="Characters",
-                        data=remainder,
-                    )
-                continue
+        # comments are already handled everywhere else, where what looks like a
+        # comment within text is really text, e.g., <p>&lt;!-- hi --></p>
+
+        yield token
+
+        if (
+            token["type"] == "StartTag"
+            and token["name"] in ("title", "textarea")
+            and not token.get("namespace")
+        ):
+            text_tokens: List[HTMLToken] = []
+            for token in tokens:
+                if token["type"] not in ("Characters", "SpaceCharacters"):
+                    break
+                text_tokens.append(token)
 
+            yield from _split_comments(text_tokens)
             yield token
-            yield next_token
-            continue
 
-        yield token
+
+def _split_comments(text_tokens: List[HTMLToken]) -> List[HTMLToken]:
+    """Splits the given text at the comments within it"""
+    text = "".join(token["data"] for token in text_tokens)
+    if COMMENT.search(text) is None:
+        return text_tokens
+
+    result: List[HTMLToken] = []
+    for idx, part in enumerate(COMMENT.split(text)):
+        if idx % 2 == 1:
+            result.append(HTMLToken(type="Comment", data=part))
+        elif part:
+            result.append(HTMLToken(type="Characters", data=part))
+    return result
-- 
2.43.0


From a844c1f73d99a7e3fab6fc5f18ceaf07fc42d3d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:48 +0000
Subject: [PATCH 59/85] fix: prefixes of attributes such as xlink:href were
 dropped

---
 vanillaplusjs/build/html/tokenizer.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/vanillaplusjs/build/html/tokenizer.py b/vanillaplusjs/build/html/tokenizer.py
index ce42eed..761b38c 100644
--- a/vanillaplusjs/build/html/tokenizer.py
+++ b/vanillaplusjs/build/html/tokenizer.py
@@ -42,6 +42,20 @@ def tokenize(f: io.TextIOBase, fragment=False) -> Generator[HTMLToken, None, Non
         except StopIteration:
             break
 
+        # html5lib does not keep the prefix of e.g. xlink:href, but it is required
+        # when serializing
+        if token["type"] in ("StartTag", "EmptyTag"):
+            token["data"] = dict(
+                (
+                    (
+                        None,
+                        html5lib.constants.unadjustForeignAttributes.get(key, key[1]),
+                    ),
+                    val,
+                )
+                for key, val in token["data"].items()
+            )
+
         # html5lib uses parseRCDataRawtext for several locations, e.g.,
         # title tags, where we really just want them handled like a normal tag.
         # it's not really possible to fix this without forking html5lib, so we
-- 
2.43.0


From 9fe7bc41d62ecd72ed5ed0ef02e6a0e3f912df69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:58 +0000
Subject: [PATCH 60/85] fix: leading line breaks of pre and escaped text in
 noscript were changed

---
 .../build/html/manipulate_and_serialize.py    | 41 ++++++++++++++++++-
 vanillaplusjs/build/html/tokenizer.py         | 28 ++++++++++++-
 2 files changed, 65 insertions(+), 4 deletions(-)

diff --git a/vanillaplusjs/build/html/manipulate_and_serialize.py b/vanillaplusjs/build/html/manipulate_and_serialize.py
index d385ecc..f093b9a 100644
--- a/vanillaplusjs/build/html/manipulate_and_serialize.py
+++ b/vanillaplusjs/build/html/manipulate_and_serialize.py
@@ -1,8 +1,10 @@
-from typing import List, Optional
+from typing import Generator, List, Optional
+from xml.sax.saxutils import escape
 
 from vanillaplusjs.build.ioutil import makedirs_safely
 from .manipulator import HTMLManipulator
 from .builder import HTMLBuilder
+from .token import HTMLToken
 from .tokenizer import tokenize
 import html5lib
 import os
@@ -37,6 +39,41 @@ def manipulate_and_serialize(
     )
 
     with open(outfile, "wb") as f:
-        for block in serializer.serialize(output_tokens, encoding="utf-8"):
+        for block in serializer.serialize(
+            _prepare_text(output_tokens), encoding="utf-8"
+        ):
             f.write(block)
         f.write(bytes(os.linesep, encoding="utf-8"))
+
+
+def _prepare_text(tokens: List[HTMLToken]) -> Generator[HTMLToken, None, None]:
+    """Alters the text in the given tokens where html5lib would otherwise serialize
+    it to something which is parsed as different text.
+    """
+    in_noscript = False
+    starts_pre = False
+    for token in tokens:
+        if token["type"] in ("Characters", "SpaceCharacters"):
+            text = token["data"]
+
+            # the parser ignores the first newline in these elements
+            if starts_pre and text.startswith("\n"):
+                text = "\n" + text
+
+            # this is not escaped by the serializer, though we parsed the contents
+            # as if scripting is disabled
+            if in_noscript:
+                text = escape(text)
+
+            starts_pre = starts_pre and text == ""
+            yield {**token, "data": text}
+            continue
+
+        starts_pre = token["type"] == "StartTag" and (
+            token["name"] in ("pre", "textarea", "listing")
+        )
+        if token["type"] in ("StartTag", "EndTag") and (
+            token["name"] in html5lib.constants.rcdataElements
+        ):
+            in_noscript = token["type"] == "StartTag" and token["name"] == "noscript"
+        yield token
diff --git a/vanillaplusjs/build/html/tokenizer.py b/vanillaplusjs/build/html/tokenizer.py
index 761b38c..59e41e1 100644
--- a/vanillaplusjs/build/html/tokenizer.py
+++ b/vanillaplusjs/build/html/tokenizer.py
@@ -1,6 +1,6 @@
 import io
 import re
-from typing import Generator, List
+from typing import Generator, Iterable, List
 from .token import HTMLToken
 import html5lib
 
@@ -35,7 +35,7 @@ def tokenize(f: io.TextIOBase, fragment=False) -> Generator[HTMLToken, None, Non
         doc = parser.parse(f)
     walker = html5lib.getTreeWalker("dom")
 
-    tokens = iter(walker(doc))
+    tokens = _ignore_leading_newlines(walker(doc))
     while True:
         try:
             token = next(tokens)
@@ -83,6 +83,30 @@ def tokenize(f: io.TextIOBase, fragment=False) -> Generator[HTMLToken, None, Non
             yield token
 
 
+def _ignore_leading_newlines(
+    tokens: Iterable[HTMLToken],
+) -> Generator[HTMLToken, None, None]:
+    """The first newline in a pre is not part of the document, but html5lib only
+    ignores it outside of table cells
+    """
+    cell_depth = 0
+    starts_pre = False
+    for token in tokens:
+        if starts_pre and token["type"] in ("Characters", "SpaceCharacters"):
+            if token["data"].startswith("\n"):
+                token["data"] = token["data"][1:]
+
+        starts_pre = False
+        if token["type"] in ("StartTag", "EndTag") and not token.get("namespace"):
+            is_start = token["type"] == "StartTag"
+            if token["name"] in ("td", "th", "caption"):
+                cell_depth += 1 if is_start else -1
+            elif token["name"] in ("pre", "listing", "textarea"):
+                starts_pre = is_start and cell_depth > 0
+
+        yield token
+
+
 def _split_comments(text_tokens: List[HTMLToken]) -> List[HTMLToken]:
     """Splits the given text at the comments within it"""
     text = "".join(token["data"] for token in text_tokens)
-- 
2.43.0


From 98b635852db1d67dff4d127510101c478ee9874c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:09 +0000
Subject: [PATCH 61/85] fix: href attributes of scripts were dropped

---
 vanillaplusjs/build/html/manips/link_hash.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vanillaplusjs/build/html/manips/link_hash.py b/vanillaplusjs/build/html/manips/link_hash.py
index f6c7ea9..03fc7fe 100644
--- a/vanillaplusjs/build/html/manips/link_hash.py
+++ b/vanillaplusjs/build/html/manips/link_hash.py
@@ -198,7 +198,9 @@ class LinkHash(HTMLManipulator):
             attr_name=link_type.attr_name,
             path=href[1:],
             attributes=dict(
-                ((key[1], val) for (key, val) in attributes.items() if key[1] != "href")
+                (key[1], val)
+                for (key, val) in attributes.items()
+                if key[1] != link_type.attr_name
             ),
         )
 
-- 
2.43.0


From 109f43705e2cdf41cbe365874a3792aeabebf085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:21 +0000
Subject: [PATCH 62/85] fix: canonical urls which are relative were joined to
 the host

---
 .../build/html/manips/link_rel_canonical.py     | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/vanillaplusjs/build/html/manips/link_rel_canonical.py b/vanillaplusjs/build/html/manips/link_rel_canonical.py
index 5abd0ca..765dba9 100644
--- a/vanillaplusjs/build/html/manips/link_rel_canonical.py
+++ b/vanillaplusjs/build/html/manips/link_rel_canonical.py
@@ -6,6 +6,7 @@ import vanillaplusjs.build.html.token as tkn
 from vanillaplusjs.build.build_context import BuildContext
 import os
 from dataclasses import dataclass
+from urllib.parse import urljoin, urlsplit
 from vanillaplusjs.build.scan_file_result import ScanFileResult
 
 
@@ -73,13 +74,13 @@ class LinkRelCanonicalManipulator(HTMLManipulator):
         tag = self.try_get_tag(node)
 
         href = node["data"].get((None, tag.attr))
-        new_href = None
-        if href is None:
-            path_relative_to_public = self.relpath[PUBLIC_PREFIX_LENGTH:]
-            path = path_relative_to_public.replace(os.path.sep, "/")
-            new_href = f"https://{host}/{path}"
-        else:
-            new_href = f"https://{host}{href}"
+        path_relative_to_public = self.relpath[PUBLIC_PREFIX_LENGTH:]
+        path = path_relative_to_public.replace(os.path.sep, "/")
+        new_href = f"https://{host}/{path}"
+        if href == "":
+            new_href = f"https://{host}"
+        elif href is not None:
+            new_href = urljoin(new_href, href)
 
         new_tags = tag.other_tags.copy()
         new_tags[tag.attr] = new_href
@@ -93,7 +94,7 @@ class LinkRelCanonicalManipulator(HTMLManipulator):
             return None
 
         href = node["data"].get((None, tag.attr))
-        if href is not None and href.startswith("http"):
+        if href is not None and urlsplit(href).scheme:
             return None
 
         tag.other_tags = dict(
-- 
2.43.0


From 715c2fa4164431c7ca92124e870234bb11cf0425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:32 +0000
Subject: [PATCH 63/85] fix: data blocks, import maps and svg styles were
 outlined

---
 vanillaplusjs/build/html/manips/outline.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/vanillaplusjs/build/html/manips/outline.py b/vanillaplusjs/build/html/manips/outline.py
index 696d523..d6f590d 100644
--- a/vanillaplusjs/build/html/manips/outline.py
+++ b/vanillaplusjs/build/html/manips/outline.py
@@ -7,12 +7,23 @@ from vanillaplusjs.build.handlers.handler import Handler
 import dataclasses
 import os
 import io
+import re
 import tempfile
 from urllib.parse import urlencode
 from vanillaplusjs.build.scan_file_result import ScanFileResult
 from vanillaplusjs.constants import PROCESSOR_VERSION
 
 
+JAVASCRIPT_TYPE = re.compile(
+    r"\s*(module|(text|application)/(x-)?(java|ecma)script"
+    r"|text/(jscript|livescript|javascript1\.[0-5]))?\s*",
+    flags=re.IGNORECASE,
+)
+"""Matches the script types which are javascript, i.e., not data blocks, import
+maps or templates, which are only available to the page if they are inline
+"""
+
+
 class OutlineManipulator(HTMLManipulator):
     """Upon encountering a script tag without a src or a style
     tag, this will add a new script tag with the src pointing to the generated
@@ -207,11 +218,18 @@ class OutlineManipulator(HTMLManipulator):
         return (
             node["type"] == "StartTag"
             and node["name"] == "script"
+            and not node.get("namespace")
             and (None, "src") not in node["data"]
+            and JAVASCRIPT_TYPE.fullmatch(node["data"].get((None, "type"), ""))
+            is not None
         )
 
     def _should_outline_style(self, node: tkn.HTMLToken) -> bool:
-        return node["type"] == "StartTag" and node["name"] == "style"
+        return (
+            node["type"] == "StartTag"
+            and node["name"] == "style"
+            and not node.get("namespace")
+        )
 
     def scan_result(self) -> ScanFileResult:
         return ScanFileResult(
-- 
2.43.0


From 0fd9b3f5b7fafc67d722b3b2882264bda5e88a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:43 +0000
Subject: [PATCH 64/85] fix: relative references in inline code were resolved
 against the outlined file

---
 vanillaplusjs/build/build_context.py          | 12 +++++++
 .../build/css/manips/version_urls.py          | 33 ++++++++++++++++---
 vanillaplusjs/build/html/manips/outline.py    |  4 +++
 vanillaplusjs/build/js/manips/hash_imports.py |  2 +-
 4 files changed, 45 insertions(+), 6 deletions(-)

diff --git a/vanillaplusjs/build/build_context.py b/vanillaplusjs/build/build_context.py
index ca878da..a6676c5 100644
--- a/vanillaplusjs/build/build_context.py
+++ b/vanillaplusjs/build/build_context.py
@@ -150,6 +150,18 @@ class BuildContext:
     Goes from the path relative to the project root to the path of the contents.
     """
 
+    outlined_from: Dict[str, str] = field(default_factory=dict)
+    """Where relative references in the files in outlined_sources are relative to.
+    Goes from the path relative to the project root to the path of the file it is
+    a part of, relative to the project root.
+    """
+
+    def get_base_relpath(self, relpath: str) -> str:
+        """Returns the path of the file that relative references in the given
+        file are relative to, where both are relative to the project root.
+        """
+        return self.outlined_from.get(relpath, relpath)
+
     def get_source_path(self, relpath: str) -> str:
         """Returns the path to the contents of the source file at the given path
         relative to the project root.
diff --git a/vanillaplusjs/build/css/manips/version_urls.py b/vanillaplusjs/build/css/manips/version_urls.py
index ff62752..2e6ceb8 100644
--- a/vanillaplusjs/build/css/manips/version_urls.py
+++ b/vanillaplusjs/build/css/manips/version_urls.py
@@ -5,7 +5,7 @@ from vanillaplusjs.build.css.token import CSSToken, CSSTokenType
 from vanillaplusjs.build.build_context import BuildContext
 from vanillaplusjs.build.scan_file_result import ScanFileResult
 from dataclasses import dataclass
-from urllib.parse import urlencode
+from urllib.parse import urlencode, urljoin, urlsplit
 import os
 
 from vanillaplusjs.constants import PROCESSOR_VERSION
@@ -58,6 +58,7 @@ class VersionURLsManipulator(CSSManipulator):
                         self.dependencies.add(new_suffix.path_of_hash_from_root)
                         return False
                     return True
+                return self._resolve_url(node["value"]) != node["value"]
 
             return False
 
@@ -69,7 +70,7 @@ class VersionURLsManipulator(CSSManipulator):
                     self.dependencies.add(new_suffix.path_of_hash_from_root)
                     return False
                 return True
-            return False
+            return self._resolve_url(node["value"]) != node["value"]
 
         if node["type"] == CSSTokenType.function and node["value"].lower() == "url":
             self._in_url = True
@@ -77,7 +78,25 @@ class VersionURLsManipulator(CSSManipulator):
 
         return False
 
+    def _resolve_url(self, url: str) -> str:
+        """If this is the contents of a style tag, then relative urls are relative
+        to the html file, so they are replaced with absolute paths, since the
+        result is not stored next to the html file.
+        """
+        base = self.context.get_base_relpath(self.relpath)
+        if base == self.relpath or url.startswith(("/", "#")) or url.strip() == "":
+            return url
+
+        if urlsplit(url).scheme:
+            return url
+
+        public = os.path.join("src", "public")
+        return urljoin(
+            "/" + os.path.relpath(base, public).replace(os.path.sep, "/"), url
+        )
+
     def _decide_new_version_suffix(self, url: str) -> Optional[VersionSuffix]:
+        url = self._resolve_url(url)
         if not url.startswith("/") or url.startswith("//"):
             return None
 
@@ -99,9 +118,13 @@ class VersionURLsManipulator(CSSManipulator):
         )
 
     def continue_mark(self, node: CSSToken) -> Optional[List[CSSToken]]:
-        new_suffix = self._decide_new_version_suffix(node["value"])
+        new_value = self._resolve_url(node["value"])
+        new_suffix = self._decide_new_version_suffix(new_value)
         if new_suffix is None:
-            return [node]
+            cp_node = node.copy()
+            cp_node["value"] = new_value
+            cp_node.pop("raw", None)
+            return [cp_node]
 
         self.children.add(new_suffix.path_of_hash_from_root)
         with open(
@@ -110,7 +133,7 @@ class VersionURLsManipulator(CSSManipulator):
             hash_value = f.read()
 
         suffix_to_add = "?" + urlencode({"v": hash_value, "pv": PROCESSOR_VERSION})
-        new_value = node["value"] + suffix_to_add
+        new_value = new_value + suffix_to_add
 
         cp_node = node.copy()
         cp_node["value"] = new_value
diff --git a/vanillaplusjs/build/html/manips/outline.py b/vanillaplusjs/build/html/manips/outline.py
index d6f590d..20fa0e7 100644
--- a/vanillaplusjs/build/html/manips/outline.py
+++ b/vanillaplusjs/build/html/manips/outline.py
@@ -132,6 +132,10 @@ class OutlineManipulator(HTMLManipulator):
                         **self.context.outlined_sources,
                         self.outlining_to_path: self.outlining_to_temp_path,
                     },
+                    outlined_from={
+                        **self.context.outlined_from,
+                        self.outlining_to_path: self.relpath,
+                    },
                 )
                 if self.mode == "scan":
                     scan_result = handler.scan_file(
diff --git a/vanillaplusjs/build/js/manips/hash_imports.py b/vanillaplusjs/build/js/manips/hash_imports.py
index dc8c5dc..20b9e40 100644
--- a/vanillaplusjs/build/js/manips/hash_imports.py
+++ b/vanillaplusjs/build/js/manips/hash_imports.py
@@ -95,7 +95,7 @@ class HashImportsManipulator(JSYieldManipulator):
             abs_import_path = os.path.abspath(
                 os.path.join(
                     self.context.folder,
-                    os.path.dirname(self.relpath),
+                    os.path.dirname(self.context.get_base_relpath(self.relpath)),
                     import_path.replace("/", os.path.sep),
                 )
             )
-- 
2.43.0


From ac219a4a64ec444e03a1a7d8211878af1cddf183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:46 +0000
Subject: [PATCH 65/85] fix: character references in title text which looks
 like a comment were decoded

---
 vanillaplusjs/build/html/manipulate_and_serialize.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/vanillaplusjs/build/html/manipulate_and_serialize.py b/vanillaplusjs/build/html/manipulate_and_serialize.py
index f093b9a..217d590 100644
--- a/vanillaplusjs/build/html/manipulate_and_serialize.py
+++ b/vanillaplusjs/build/html/manipulate_and_serialize.py
@@ -52,7 +52,12 @@ def _prepare_text(tokens: List[HTMLToken]) -> Generator[HTMLToken, None, None]:
     """
     in_noscript = False
     starts_pre = False
+    in_rcdata = False
     for token in tokens:
+        if token["type"] == "Comment" and in_rcdata:
+            # there are no comments in these elements
+            token = {"type": "Characters", "data": f"<!--{token['data']}-->"}
+
         if token["type"] in ("Characters", "SpaceCharacters"):
             text = token["data"]
 
@@ -76,4 +81,8 @@ def _prepare_text(tokens: List[HTMLToken]) -> Generator[HTMLToken, None, None]:
             token["name"] in html5lib.constants.rcdataElements
         ):
             in_noscript = token["type"] == "StartTag" and token["name"] == "noscript"
+        if token["type"] in ("StartTag", "EndTag"):
+            in_rcdata = token["type"] == "StartTag" and (
+                token["name"] in ("title", "textarea") and not token.get("namespace")
+            )
         yield token
-- 
2.43.0


From 410447ac7b513bf119c9faf9248b51292f60ae4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:43 +0000
Subject: [PATCH 66/85] fix: resolution steps which aren't exact as floats

---
 vanillaplusjs/build/html/manips/images/settings.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/vanillaplusjs/build/html/manips/images/settings.py b/vanillaplusjs/build/html/manips/images/settings.py
index 9de9070..db083b9 100644
--- a/vanillaplusjs/build/html/manips/images/settings.py
+++ b/vanillaplusjs/build/html/manips/images/settings.py
@@ -184,7 +184,8 @@ def load_image_settings(settings: dict) -> ImageSettings:
 
     default_format = settings["default_format"]
     maximum_resolution = settings["maximum_resolution"]
-    resolution_step = Decimal(settings["resolution_step"])
+    # via a string, since e.g. 0.1 isn't exactly representable as a float
+    resolution_step = Decimal(str(settings["resolution_step"]))
 
     if default_format not in formats:
         raise ValueError(f"Default format {default_format} not found in formats")
-- 
2.43.0


From 0f87290919bd89adcab1c9b9dbf8701694252d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:54 +0000
Subject: [PATCH 67/85] fix: jpegs of images with a palette or transparency

---
 vanillaplusjs/build/html/manips/images/exporter.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/vanillaplusjs/build/html/manips/images/exporter.py b/vanillaplusjs/build/html/manips/images/exporter.py
index af8e870..8f73da7 100644
--- a/vanillaplusjs/build/html/manips/images/exporter.py
+++ b/vanillaplusjs/build/html/manips/images/exporter.py
@@ -361,6 +361,12 @@ def produce_image(
     if image.width != width or image.height != height:
         image = image.resize((width, height), Image.Resampling.LANCZOS)
 
+    if format == "jpeg" and image.mode not in ("1", "L", "RGB", "CMYK", "YCbCr"):
+        # jpeg supports neither palettes nor transparency
+        rgba_image = image.convert("RGBA")
+        image = Image.new("RGB", rgba_image.size, (255, 255, 255))
+        image.paste(rgba_image, mask=rgba_image.getchannel("A"))
+
     logger.debug("Exporting to {}", dst_file)
     makedirs_safely(os.path.dirname(dst_file))
     now = time.perf_counter()
-- 
2.43.0


From 22da9b32997aaa8f85acbb0dcb60c26387efd49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:06 +0000
Subject: [PATCH 68/85] fix: lazy argument of image commands

---
 vanillaplusjs/build/html/manips/images/command.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vanillaplusjs/build/html/manips/images/command.py b/vanillaplusjs/build/html/manips/images/command.py
index e9ff9f6..f4ba41a 100644
--- a/vanillaplusjs/build/html/manips/images/command.py
+++ b/vanillaplusjs/build/html/manips/images/command.py
@@ -149,7 +149,7 @@ def parse_command(args: str) -> ImageCommand:
 
         remaining_arguments = p.read()
         if remaining_arguments and remaining_arguments[0] == " ":
-            args = args[:4] + [real_crop_arguments, remaining_arguments]
+            args = args[:4] + [real_crop_arguments, remaining_arguments.strip()]
 
         try:
             crop_arguments = json.loads(real_crop_arguments)
@@ -159,7 +159,7 @@ def parse_command(args: str) -> ImageCommand:
             )
 
     lazy = True
-    if len(args) > 5:
+    if len(args) > 5 and args[5]:
         lazy = args[5] == "lazy"
 
     return ImageCommand(
-- 
2.43.0


From ad06405c7d7b5ab83dcc0b351e9c351999937976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:17 +0000
Subject: [PATCH 69/85] fix: images which are changed between builds

---
 vanillaplusjs/build/html/manips/images/metadata.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vanillaplusjs/build/html/manips/images/metadata.py b/vanillaplusjs/build/html/manips/images/metadata.py
index 11a502e..a056190 100644
--- a/vanillaplusjs/build/html/manips/images/metadata.py
+++ b/vanillaplusjs/build/html/manips/images/metadata.py
@@ -306,7 +306,7 @@ def get_target(
                     "{} is not a match for {}; the source hash is {} but should be {}",
                     entry.path,
                     relpath,
-                    entry_metadata["source"]["contents_hash"],
+                    entry_metadata.source.contents_hash,
                     contents_hash,
                 )
                 continue
-- 
2.43.0


From 840374fabc8775c878c9fb7abb7804301be4a368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:28 +0000
Subject: [PATCH 70/85] fix: targets of images which were changed since the
 last build

---
 .../build/html/manips/images/metadata.py          | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/vanillaplusjs/build/html/manips/images/metadata.py b/vanillaplusjs/build/html/manips/images/metadata.py
index a056190..d722cd1 100644
--- a/vanillaplusjs/build/html/manips/images/metadata.py
+++ b/vanillaplusjs/build/html/manips/images/metadata.py
@@ -251,18 +251,9 @@ def get_target(
     if not os.path.exists(art_path):
         return None
 
-    precomputed_hash_path = os.path.join(context.out_folder, "www", relpath + ".hash")
-    try:
-        with open(precomputed_hash_path, "r") as f:
-            contents_hash = f.read()
-    except FileNotFoundError:
-        logger.debug(
-            "No precomputed hash available for {} (expected at {}), calculating on demand",
-            os.path.join(context.public_folder, relpath),
-            precomputed_hash_path,
-        )
-        contents_hash = calculate_hash(os.path.join(context.public_folder, relpath))
-
+    # The hash in the out folder can't be used, since while scanning it's still
+    # the hash of the contents as of the previous build
+    contents_hash = calculate_hash(os.path.join(context.public_folder, relpath))
     settings_hash = hash_image_settings(context.image_settings)
 
     scanner = os.scandir(art_path)
-- 
2.43.0


From 69a24e3332fd49cb22513880cbf5297f56e431a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:38 +0000
Subject: [PATCH 71/85] fix: reserved targets of images which differ only in
 their extension

---
 .../build/html/manips/images/metadata.py      | 42 +++++++++++++++++--
 1 file changed, 39 insertions(+), 3 deletions(-)

diff --git a/vanillaplusjs/build/html/manips/images/metadata.py b/vanillaplusjs/build/html/manips/images/metadata.py
index d722cd1..5f4091b 100644
--- a/vanillaplusjs/build/html/manips/images/metadata.py
+++ b/vanillaplusjs/build/html/manips/images/metadata.py
@@ -275,8 +275,10 @@ def get_target(
                         with open(
                             os.path.join(entry.path, "placeholder.json"), "r"
                         ) as f:
-                            placeholder = load_image_target_settings(json.load(f))
-                        if placeholder == target:
+                            placeholder = json.load(f)
+                        if placeholder == store_placeholder(
+                            relpath, contents_hash, target
+                        ):
                             return int(entry.name)
                 continue
 
@@ -292,6 +294,14 @@ def get_target(
                     settings_hash,
                 )
                 continue
+            if entry_metadata.source.path != os.path.join("src", "public", relpath):
+                logger.debug(
+                    "{} is not a match for {}; the source is {}",
+                    entry.path,
+                    relpath,
+                    entry_metadata.source.path,
+                )
+                continue
             if entry_metadata.source.contents_hash != contents_hash:
                 logger.debug(
                     "{} is not a match for {}; the source hash is {} but should be {}",
@@ -318,6 +328,25 @@ def get_target(
         scanner.close()
 
 
+def store_placeholder(
+    relpath: str, contents_hash: str, target: ImageTargetSettings
+) -> dict:
+    """Produces the JSON-serializable dict which describes what a target id
+    was reserved for, prior to there being any metadata.
+
+    The source needs to be included since images which only differ in their
+    extension share their target ids, and since the image might be changed
+    before the metadata is written.
+    """
+    return {
+        "source": {
+            "path": relpath.replace(os.path.sep, "/"),
+            "contents_hash": contents_hash,
+        },
+        "target": dataclasses.asdict(target),
+    }
+
+
 def reserve_target_lock_path(context: BuildContext, relpath: str) -> str:
     relpath_without_ext = os.path.splitext(relpath)[0]
     return os.path.join(
@@ -352,7 +381,14 @@ def reserve_target(
         placeholder_path = os.path.join(entry_path, "placeholder.json")
         makedirs_safely(entry_path)
         with open(placeholder_path, "w") as f:
-            json.dump(dataclasses.asdict(target), f)
+            json.dump(
+                store_placeholder(
+                    relpath,
+                    calculate_hash(os.path.join(context.public_folder, relpath)),
+                    target,
+                ),
+                f,
+            )
 
         return counter
 
-- 
2.43.0


From 7235bdfeeca1dbc93ee9be54ad7b6ee6f98ca7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:50 +0000
Subject: [PATCH 72/85] fix: concurrently requested image targets

---
 .../build/html/manips/images/metadata.py      | 98 ++++++++++---------
 1 file changed, 53 insertions(+), 45 deletions(-)

diff --git a/vanillaplusjs/build/html/manips/images/metadata.py b/vanillaplusjs/build/html/manips/images/metadata.py
index 5f4091b..7d34561 100644
--- a/vanillaplusjs/build/html/manips/images/metadata.py
+++ b/vanillaplusjs/build/html/manips/images/metadata.py
@@ -243,6 +243,18 @@ def get_target(
     Returns:
         (int, None): The ID of the target, or None if it doesn't exist.
     """
+    lock_path = reserve_target_lock_path(context, relpath)
+    makedirs_safely(os.path.dirname(lock_path))
+    with fasteners.InterProcessLock(lock_path):
+        return _get_target_with_lock(context, relpath, target)
+
+
+def _get_target_with_lock(
+    context: BuildContext,
+    relpath: str,
+    target: ImageTargetSettings,
+) -> Optional[int]:
+    """The implementation of get_target, which requires the lock is held"""
     if not os.path.exists(os.path.join(context.public_folder, relpath)):
         return None
 
@@ -268,18 +280,11 @@ def get_target(
                 continue
 
             if not os.path.exists(os.path.join(entry.path, "metadata.json")):
-                lock_path = reserve_target_lock_path(context, relpath)
-                makedirs_safely(os.path.dirname(lock_path))
-                with fasteners.InterProcessLock(lock_path):
-                    if os.path.exists(os.path.join(entry.path, "placeholder.json")):
-                        with open(
-                            os.path.join(entry.path, "placeholder.json"), "r"
-                        ) as f:
-                            placeholder = json.load(f)
-                        if placeholder == store_placeholder(
-                            relpath, contents_hash, target
-                        ):
-                            return int(entry.name)
+                if os.path.exists(os.path.join(entry.path, "placeholder.json")):
+                    with open(os.path.join(entry.path, "placeholder.json"), "r") as f:
+                        placeholder = json.load(f)
+                    if placeholder == store_placeholder(relpath, contents_hash, target):
+                        return int(entry.name)
                 continue
 
             with open(os.path.join(entry.path, "metadata.json"), "r") as f:
@@ -354,43 +359,40 @@ def reserve_target_lock_path(context: BuildContext, relpath: str) -> str:
     )
 
 
-def reserve_target(
+def _reserve_target_with_lock(
     context: BuildContext, relpath: str, target: ImageTargetSettings
 ) -> int:
     """Assigns a new unused id for the given source image, and prevents
-    it from being reserved again.
+    it from being reserved again. Requires the lock is held.
     """
     relpath_without_ext = os.path.splitext(relpath)[0]
     art_path = os.path.join(context.artifacts_folder, relpath_without_ext)
-    lock_path = reserve_target_lock_path(context, relpath)
-    makedirs_safely(os.path.dirname(lock_path))
     makedirs_safely(art_path)
-    with fasteners.InterProcessLock(lock_path):
-        try:
-            with open(os.path.join(art_path, "counter.txt"), "r") as f:
-                counter = int(f.read())
-        except FileNotFoundError:
-            counter = 0
-
-        counter = counter + 1
-
-        with open(os.path.join(art_path, "counter.txt"), "w") as f:
-            f.write(str(counter))
-
-        entry_path = os.path.join(art_path, str(counter))
-        placeholder_path = os.path.join(entry_path, "placeholder.json")
-        makedirs_safely(entry_path)
-        with open(placeholder_path, "w") as f:
-            json.dump(
-                store_placeholder(
-                    relpath,
-                    calculate_hash(os.path.join(context.public_folder, relpath)),
-                    target,
-                ),
-                f,
-            )
+    try:
+        with open(os.path.join(art_path, "counter.txt"), "r") as f:
+            counter = int(f.read())
+    except FileNotFoundError:
+        counter = 0
+
+    counter = counter + 1
+
+    with open(os.path.join(art_path, "counter.txt"), "w") as f:
+        f.write(str(counter))
+
+    entry_path = os.path.join(art_path, str(counter))
+    placeholder_path = os.path.join(entry_path, "placeholder.json")
+    makedirs_safely(entry_path)
+    with open(placeholder_path, "w") as f:
+        json.dump(
+            store_placeholder(
+                relpath,
+                calculate_hash(os.path.join(context.public_folder, relpath)),
+                target,
+            ),
+            f,
+        )
 
-        return counter
+    return counter
 
 
 def get_or_reserve_target(
@@ -400,11 +402,17 @@ def get_or_reserve_target(
 ) -> int:
     """If the target already exists, returns its ID. Otherwise, reserves
     a new ID for the target.
+
+    The lock is held for both steps, as otherwise when the same target is
+    requested concurrently it could be reserved more than once.
     """
-    target_id = get_target(context, relpath, target)
-    if target_id is None:
-        target_id = reserve_target(context, relpath, target)
-    return target_id
+    lock_path = reserve_target_lock_path(context, relpath)
+    makedirs_safely(os.path.dirname(lock_path))
+    with fasteners.InterProcessLock(lock_path):
+        target_id = _get_target_with_lock(context, relpath, target)
+        if target_id is None:
+            target_id = _reserve_target_with_lock(context, relpath, target)
+        return target_id
 
 
 def hash_image_settings(settings: ImageSettings) -> int:
-- 
2.43.0


From c658d6f38191c219845575432be4c84fc092254e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:01 +0000
Subject: [PATCH 73/85] fix: image metadata which is read while it is written

---
 vanillaplusjs/build/html/manips/images/exporter.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/vanillaplusjs/build/html/manips/images/exporter.py b/vanillaplusjs/build/html/manips/images/exporter.py
index 8f73da7..3af1471 100644
--- a/vanillaplusjs/build/html/manips/images/exporter.py
+++ b/vanillaplusjs/build/html/manips/images/exporter.py
@@ -10,7 +10,7 @@ from vanillaplusjs.build.html.manips.images.settings import (
     ImageExport,
     compare_in_format,
 )
-from vanillaplusjs.build.ioutil import makedirs_safely
+from vanillaplusjs.build.ioutil import makedirs_safely, open_atomically
 from .cover_fit import cover_fit
 import os
 import json
@@ -306,11 +306,12 @@ def export_command(
         ),
     )
 
-    with open(
+    # atomically, since other files which use this image might be looking for
+    # their target right now
+    with open_atomically(
         os.path.join(
             context.folder, target_art_folder_relative_to_root, "metadata.json"
-        ),
-        "w",
+        )
     ) as f:
         json.dump(store_metadata(metadata), f, indent=2)
 
-- 
2.43.0


From 3d7f332d87f615523fe9c35129e62a78ce735a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:14 +0000
Subject: [PATCH 74/85] fix: artifacts which were deleted by hand

---
 vanillaplusjs/build/hot_incremental_rebuild.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/vanillaplusjs/build/hot_incremental_rebuild.py b/vanillaplusjs/build/hot_incremental_rebuild.py
index aab45d5..237b67a 100644
--- a/vanillaplusjs/build/hot_incremental_rebuild.py
+++ b/vanillaplusjs/build/hot_incremental_rebuild.py
@@ -459,10 +459,18 @@ async def hot_incremental_rebuild(
 
         for file in still_dirty_artifacts:
             logger.debug("Cleaning {}", file)
-            os.unlink(os.path.join(context.folder, file))
+            try:
+                os.unlink(os.path.join(context.folder, file))
+            except FileNotFoundError:
+                logger.warning(
+                    "Expected artifact {} to exist so we could clean it, but it did not. Continuing..",
+                    file,
+                )
 
         for folder_relpath in sorted(possibly_empty_folders, key=lambda s: -len(s)):
             folder = os.path.join(context.folder, folder_relpath)
+            if not os.path.exists(folder):
+                continue
             scandir_iter = os.scandir(folder)
             has_any_contents = next(scandir_iter, None) is not None
             scandir_iter.close()
-- 
2.43.0


From 603fa876e407885d67d844d159476ec5d2a85658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:26 +0000
Subject: [PATCH 75/85] fix: image targets which are in use although their
 artifacts were deleted

---
 vanillaplusjs/build/html/manips/images/metadata.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/vanillaplusjs/build/html/manips/images/metadata.py b/vanillaplusjs/build/html/manips/images/metadata.py
index 7d34561..586a11f 100644
--- a/vanillaplusjs/build/html/manips/images/metadata.py
+++ b/vanillaplusjs/build/html/manips/images/metadata.py
@@ -376,6 +376,12 @@ def _reserve_target_with_lock(
 
     counter = counter + 1
 
+    # If some artifacts were deleted there might still be others, or outputs, in use
+    while os.path.exists(os.path.join(art_path, str(counter))) or os.path.exists(
+        os.path.join(context.out_folder, "www", relpath_without_ext, str(counter))
+    ):
+        counter = counter + 1
+
     with open(os.path.join(art_path, "counter.txt"), "w") as f:
         f.write(str(counter))
 
-- 
2.43.0


From bd0b6b34ad35fbdede6cacef11c4a1147ab2b88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:37 +0000
Subject: [PATCH 76/85] fix: validating crop arguments in images json files

---
 vanillaplusjs/build/handlers/image_glue.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vanillaplusjs/build/handlers/image_glue.py b/vanillaplusjs/build/handlers/image_glue.py
index a545fcc..fb0f59e 100644
--- a/vanillaplusjs/build/handlers/image_glue.py
+++ b/vanillaplusjs/build/handlers/image_glue.py
@@ -316,7 +316,7 @@ def sanity_check_images_json(context: BuildContext, data: dict, relpath: str) ->
             logger.warning("[{}] crop style is not cover", ctx())
             return False
 
-        crop_settings = img_target_settings.get("crop_settings", dict())
+        crop_settings = img_target_settings.get("crop_arguments", dict())
         if not isinstance(crop_settings, dict):
             logger.warning("[{}] crop settings are not a dictionary", ctx())
             return False
-- 
2.43.0


From 597dcd6cd72ae0cd648e300e6b1e90eda6614d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:13 +0000
Subject: [PATCH 77/85] fix: small images with steps which don't change their
 size

---
 vanillaplusjs/build/html/manips/images/resolutions.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/vanillaplusjs/build/html/manips/images/resolutions.py b/vanillaplusjs/build/html/manips/images/resolutions.py
index c66390e..8064b95 100644
--- a/vanillaplusjs/build/html/manips/images/resolutions.py
+++ b/vanillaplusjs/build/html/manips/images/resolutions.py
@@ -1,5 +1,5 @@
 from decimal import Decimal
-from typing import Generator, Tuple
+from typing import Generator, Optional, Tuple
 from vanillaplusjs.build.build_context import BuildContext
 
 
@@ -49,9 +49,14 @@ def yield_sizes(
 ) -> Generator[Tuple[int, int], None, None]:
     """Analogous to yield_resolutions, but yields the sizes to export
     an image of the given source size targetting the given destination
-    size, instead of the multiple of the base resolution.
+    size, instead of the multiple of the base resolution. Resolutions which
+    result in the same size as the previous one are skipped.
     """
+    previous_size: Optional[Tuple[int, int]] = None
     for resolution in yield_resolutions(
         context, src_width, src_height, dst_width, dst_height
     ):
-        yield int(dst_width * resolution), int(dst_height * resolution)
+        size = (int(dst_width * resolution), int(dst_height * resolution))
+        if size != previous_size:
+            yield size
+        previous_size = size
-- 
2.43.0


From ff79997781b131805e7961ea78ceeed1d800fc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:24 +0000
Subject: [PATCH 78/85] fix: pngs of cmyk images

---
 vanillaplusjs/build/html/manips/images/exporter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vanillaplusjs/build/html/manips/images/exporter.py b/vanillaplusjs/build/html/manips/images/exporter.py
index 3af1471..e209b33 100644
--- a/vanillaplusjs/build/html/manips/images/exporter.py
+++ b/vanillaplusjs/build/html/manips/images/exporter.py
@@ -368,6 +368,9 @@ def produce_image(
         image = Image.new("RGB", rgba_image.size, (255, 255, 255))
         image.paste(rgba_image, mask=rgba_image.getchannel("A"))
 
+    if format == "png" and image.mode == "CMYK":
+        image = image.convert("RGB")
+
     logger.debug("Exporting to {}", dst_file)
     makedirs_safely(os.path.dirname(dst_file))
     now = time.perf_counter()
-- 
2.43.0


From c7a81a9d3b685cecc0d95f85fa041b7f76891d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:11 +0000
Subject: [PATCH 79/85] fix: artifacts of an image which are partially missing

---
 .../build/html/manips/images/exporter.py      | 52 ++++++++++++-------
 1 file changed, 33 insertions(+), 19 deletions(-)

diff --git a/vanillaplusjs/build/html/manips/images/exporter.py b/vanillaplusjs/build/html/manips/images/exporter.py
index e209b33..0be25bc 100644
--- a/vanillaplusjs/build/html/manips/images/exporter.py
+++ b/vanillaplusjs/build/html/manips/images/exporter.py
@@ -94,23 +94,19 @@ def export_command(
     lock_file = os.path.relpath(
         reserve_target_lock_path(context, path_relative_to_public), context.folder
     )
-    if os.path.exists(
-        os.path.join(
-            context.folder, target_art_folder_relative_to_root, "metadata.json"
-        )
+    for bookkeeping_file in (
+        os.path.join(source_art_folder_relative_to_root, "counter.txt"),
+        os.path.join(target_art_folder_relative_to_root, "placeholder.json"),
     ):
+        # they aren't required for reusing the artifacts, so they might be missing
+        if os.path.exists(os.path.join(context.folder, bookkeeping_file)):
+            reused.append(bookkeeping_file)
+
+    metadata = load_reusable_metadata(
+        context, os.path.join(target_art_folder_relative_to_root, "metadata.json")
+    )
+    if metadata is not None:
         reused.append(os.path.join(target_art_folder_relative_to_root, "metadata.json"))
-        reused.append(os.path.join(source_art_folder_relative_to_root, "counter.txt"))
-        reused.append(
-            os.path.join(target_art_folder_relative_to_root, "placeholder.json")
-        )
-        with open(
-            os.path.join(
-                context.folder, target_art_folder_relative_to_root, "metadata.json"
-            )
-        ) as f:
-            metadata_dict = json.load(f)
-        metadata = load_metadata(metadata_dict)
 
         we_are_first = True
         for _, output_list in metadata.target.outputs.items():
@@ -151,10 +147,6 @@ def export_command(
         )
 
     produced.append(os.path.join(target_art_folder_relative_to_root, "metadata.json"))
-    produced.append(os.path.join(source_art_folder_relative_to_root, "counter.txt"))
-    produced.append(
-        os.path.join(target_art_folder_relative_to_root, "placeholder.json")
-    )
     produced.append(lock_file)
 
     image = Image.open(os.path.join(context.public_folder, path_relative_to_public))
@@ -322,6 +314,28 @@ def export_command(
     )
 
 
+def load_reusable_metadata(
+    context: BuildContext, metadata_relpath: str
+) -> Optional[ImageMetadata]:
+    """Loads the metadata at the given path relative to the root of the project,
+    if it exists and all the artifacts it describes still exist.
+    """
+    try:
+        with open(os.path.join(context.folder, metadata_relpath)) as f:
+            metadata = load_metadata(json.load(f))
+    except FileNotFoundError:
+        return None
+
+    for output_list in metadata.target.outputs.values():
+        for output in output_list:
+            if not os.path.exists(
+                os.path.join(context.artifacts_folder, output.relpath)
+            ):
+                return None
+
+    return metadata
+
+
 def produce_image(
     src_file: str,
     dst_file: str,
-- 
2.43.0


From 49396096cc0d6823a648a3656a1e37db8944410a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:22 +0000
Subject: [PATCH 80/85] fix: links to image artifacts when the folder is
 relative

---
 .../build/html/manips/images/exporter.py      | 46 ++++++++-----------
 1 file changed, 19 insertions(+), 27 deletions(-)

diff --git a/vanillaplusjs/build/html/manips/images/exporter.py b/vanillaplusjs/build/html/manips/images/exporter.py
index 0be25bc..df5d244 100644
--- a/vanillaplusjs/build/html/manips/images/exporter.py
+++ b/vanillaplusjs/build/html/manips/images/exporter.py
@@ -118,20 +118,7 @@ def export_command(
                     reused.append(out_file)
                 else:
                     produced.append(out_file)
-                    makedirs_safely(
-                        os.path.dirname(os.path.join(context.folder, out_file))
-                    )
-
-                    if context.symlinks:
-                        os.symlink(
-                            os.path.join(context.artifacts_folder, output.relpath),
-                            os.path.join(context.folder, out_file),
-                        )
-                    else:
-                        shutil.copy(
-                            os.path.join(context.artifacts_folder, output.relpath),
-                            os.path.join(context.folder, out_file),
-                        )
+                    publish_artifact(context, output.relpath)
 
         if we_are_first:
             makedirs_safely(os.path.dirname(os.path.join(context.folder, lock_file)))
@@ -273,20 +260,9 @@ def export_command(
             out_path_relative_to_root = os.path.join(
                 target_out_folder_relative_to_root, desired_filename
             )
-            makedirs_safely(
-                os.path.join(context.folder, target_out_folder_relative_to_root)
+            publish_artifact(
+                context, os.path.relpath(desired_path, context.artifacts_folder)
             )
-            if context.symlinks:
-                os.symlink(
-                    desired_path,
-                    os.path.join(context.folder, out_path_relative_to_root),
-                )
-            else:
-                shutil.copy(
-                    desired_path,
-                    os.path.join(context.folder, out_path_relative_to_root),
-                )
-
             produced.append(out_path_relative_to_root)
 
     metadata = ImageMetadata(
@@ -336,6 +312,22 @@ def load_reusable_metadata(
     return metadata
 
 
+def publish_artifact(context: BuildContext, relpath: str) -> None:
+    """Makes the artifact at the given path relative to the artifacts folder
+    available in the out folder.
+    """
+    artifact_path = os.path.join(context.artifacts_folder, relpath)
+    out_path = os.path.join(context.out_folder, "www", relpath)
+    makedirs_safely(os.path.dirname(out_path))
+    if os.path.lexists(out_path):
+        os.unlink(out_path)
+
+    if context.symlinks:
+        os.symlink(os.path.abspath(artifact_path), out_path)
+    else:
+        shutil.copy(artifact_path, out_path)
+
+
 def produce_image(
     src_file: str,
     dst_file: str,
-- 
2.43.0


From 614332b98e406ef9ce033432835fc7e820d21a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:55 +0000
Subject: [PATCH 81/85] fix: order of image lists and scripts which import them

---
 vanillaplusjs/build/handlers/image_glue.py    | 41 ++++++++++++++++---
 .../build/hot_incremental_rebuild.py          |  4 ++
 vanillaplusjs/build/scan_file_result.py       |  2 +-
 3 files changed, 41 insertions(+), 6 deletions(-)

diff --git a/vanillaplusjs/build/handlers/image_glue.py b/vanillaplusjs/build/handlers/image_glue.py
index fb0f59e..39811b3 100644
--- a/vanillaplusjs/build/handlers/image_glue.py
+++ b/vanillaplusjs/build/handlers/image_glue.py
@@ -75,7 +75,7 @@ type hints.
 """
 
 import dataclasses
-from typing import Set
+from typing import List, Set
 from vanillaplusjs.build.build_context import BuildContext
 from vanillaplusjs.build.build_file_result import BuildFileResult
 from vanillaplusjs.build.html.manips.images.command import ImageCommand
@@ -126,9 +126,14 @@ def scan_file(context: BuildContext, relpath: str) -> ScanFileResult:
     """Scans the given file to determine what this handler would do
     if it were to build it.
     """
-    if not handles_file(context, relpath) or relpath.endswith(".images.js"):
+    if not handles_file(context, relpath):
         return ScanFileResult(dependencies=[], produces=[])
 
+    if relpath.endswith(".images.js"):
+        return ScanFileResult(
+            dependencies=get_placeholder_dependencies(context, relpath), produces=[]
+        )
+
     with open(os.path.join(context.folder, relpath), "r") as f:
         data = json.load(f)
 
@@ -148,8 +153,8 @@ def scan_file(context: BuildContext, relpath: str) -> ScanFileResult:
     placeholder_path = os.path.join(
         "src", "public", path_rel_to_public_no_ext + ".images.js"
     )
-    if context.auto_generate_images_js_placeholders and not os.path.exists(
-        placeholder_path
+    if context.auto_generate_images_js_placeholders or os.path.exists(
+        os.path.join(context.folder, placeholder_path)
     ):
         placeholders[placeholder_path] = PLACEHOLDER_FILE
 
@@ -179,11 +184,37 @@ def scan_file(context: BuildContext, relpath: str) -> ScanFileResult:
     )
 
 
+def get_placeholder_dependencies(context: BuildContext, relpath: str) -> List[str]:
+    """Determines what the placeholder at the given path depends on: whatever
+    imports it gets the output of the json file by the same name, so it's that
+    file which has to be built first.
+
+    Args:
+        context (BuildContext): The build context
+        relpath (str): The path to the *.images.js file relative to the root
+            of the project
+
+    Returns:
+        list[str]: The corresponding *.images.json file, if there is one
+    """
+    json_path = relpath[: -len(".images.js")] + ".images.json"
+    if not os.path.exists(os.path.join(context.folder, json_path)):
+        return []
+    return [json_path]
+
+
 def build_file(context: BuildContext, relpath: str) -> BuildFileResult:
     """Builds the given file and returns what we built"""
-    if not handles_file(context, relpath) or relpath.endswith(".images.js"):
+    if not handles_file(context, relpath):
         return BuildFileResult(children=[], produced=[], reused=[])
 
+    if relpath.endswith(".images.js"):
+        return BuildFileResult(
+            children=get_placeholder_dependencies(context, relpath),
+            produced=[],
+            reused=[],
+        )
+
     with open(os.path.join(context.folder, relpath), "r") as f:
         data = json.load(f)
 
diff --git a/vanillaplusjs/build/hot_incremental_rebuild.py b/vanillaplusjs/build/hot_incremental_rebuild.py
index 237b67a..92e763e 100644
--- a/vanillaplusjs/build/hot_incremental_rebuild.py
+++ b/vanillaplusjs/build/hot_incremental_rebuild.py
@@ -159,6 +159,10 @@ async def hot_incremental_rebuild(
                         if os.path.exists(
                             os.path.join(context.folder, placeholder_relpath)
                         ):
+                            if placeholder_relpath not in updated_children:
+                                # it has to be associated with the file which
+                                # would have generated it
+                                files_that_need_scanning.append(placeholder_relpath)
                             continue
 
                         logger.info(
diff --git a/vanillaplusjs/build/scan_file_result.py b/vanillaplusjs/build/scan_file_result.py
index d95d169..89b9037 100644
--- a/vanillaplusjs/build/scan_file_result.py
+++ b/vanillaplusjs/build/scan_file_result.py
@@ -27,5 +27,5 @@ class ScanFileResult:
     files that should be generated. If multiple scan results would like to
     create the same file, one of them will be chosen arbitrarily. The generated
     placeholder files will go through a scan and build flow as if they existed
-    at the start of the build.
+    at the start of the build. Files which already exist are never overwritten.
     """
-- 
2.43.0


From a5f9022572632cde6afb98eb8d00dbd2bd343eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:38 +0000
Subject: [PATCH 82/85] fix: images which become suitable after an image
 command was ignored

---
 vanillaplusjs/build/handlers/image_glue.py    | 39 +++++++++++++++++--
 .../build/html/manips/images/manip.py         | 16 ++++++--
 2 files changed, 49 insertions(+), 6 deletions(-)

diff --git a/vanillaplusjs/build/handlers/image_glue.py b/vanillaplusjs/build/handlers/image_glue.py
index 39811b3..53aa955 100644
--- a/vanillaplusjs/build/handlers/image_glue.py
+++ b/vanillaplusjs/build/handlers/image_glue.py
@@ -75,7 +75,7 @@ type hints.
 """
 
 import dataclasses
-from typing import List, Set
+from typing import Any, List, Set
 from vanillaplusjs.build.build_context import BuildContext
 from vanillaplusjs.build.build_file_result import BuildFileResult
 from vanillaplusjs.build.html.manips.images.command import ImageCommand
@@ -138,7 +138,9 @@ def scan_file(context: BuildContext, relpath: str) -> ScanFileResult:
         data = json.load(f)
 
     if not sanity_check_images_json(context, data, relpath):
-        return ScanFileResult(dependencies=[], produces=[])
+        return ScanFileResult(
+            dependencies=get_existing_files(context, data), produces=[]
+        )
 
     path_rel_to_public = relpath[
         len(os.path.join("src", "public")) + len(os.path.sep) :
@@ -219,7 +221,9 @@ def build_file(context: BuildContext, relpath: str) -> BuildFileResult:
         data = json.load(f)
 
     if not sanity_check_images_json(context, data, relpath):
-        return BuildFileResult(children=[], produced=[], reused=[])
+        return BuildFileResult(
+            children=get_existing_files(context, data), produced=[], reused=[]
+        )
 
     path_rel_to_public = relpath[
         len(os.path.join("src", "public")) + len(os.path.sep) :
@@ -294,6 +298,35 @@ def build_file(context: BuildContext, relpath: str) -> BuildFileResult:
     )
 
 
+def get_existing_files(context: BuildContext, data: Any) -> List[str]:
+    """Determines which files an invalid images json file refers to: it might
+    become valid when they are replaced.
+
+    Args:
+        context (BuildContext): The build context
+        data (Any): The contents of the invalid images json file
+
+    Returns:
+        list[str]: The existing files, relative to the root of the project
+    """
+    result: Set[str] = set()
+    if not isinstance(data, dict):
+        return []
+
+    for img_target_settings in data.values():
+        if not isinstance(img_target_settings, dict):
+            continue
+        path = img_target_settings.get("path")
+        if not isinstance(path, str) or not path.startswith("/"):
+            continue
+        path_rel_to_root = os.path.normpath(os.path.join("src", "public", path[1:]))
+        if path_rel_to_root.startswith(
+            os.path.join("src", "public", "")
+        ) and os.path.isfile(os.path.join(context.folder, path_rel_to_root)):
+            result.add(path_rel_to_root)
+    return list(result)
+
+
 def sanity_check_images_json(context: BuildContext, data: dict, relpath: str) -> bool:
     """Checks that the given data is a valid images json file."""
     ctx = lambda: f"{relpath=}"
diff --git a/vanillaplusjs/build/html/manips/images/manip.py b/vanillaplusjs/build/html/manips/images/manip.py
index b4aca92..abfe665 100644
--- a/vanillaplusjs/build/html/manips/images/manip.py
+++ b/vanillaplusjs/build/html/manips/images/manip.py
@@ -129,9 +129,19 @@ class ImagesManipulator(HTMLManipulator):
         if cmd is None:
             return None
 
-        if not validate_command(
-            cmd, self.context, os.path.join(self.context.folder, self.relpath)
-        ):
+        command_file_path = os.path.join(self.context.folder, self.relpath)
+        if not validate_command(cmd, self.context, command_file_path):
+            # it becomes valid if the file is replaced by a suitable image
+            image_relpath = cmd.source_path_relative_to_root(
+                self.context, command_file_path
+            )
+            if image_relpath.startswith(
+                os.path.join("src", "public", "")
+            ) and os.path.isfile(os.path.join(self.context.folder, image_relpath)):
+                if self.mode == "scan":
+                    self.dependencies.add(image_relpath)
+                else:
+                    self.children.add(image_relpath)
             return None
 
         return cmd
-- 
2.43.0


From 0412d7c4439f1036b279f9c00820aa99511527bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:06 +0000
Subject: [PATCH 83/85] fix: notice deleted placeholder generators after an
 unfinished build

---
 vanillaplusjs/build/cold_incremental_rebuild.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vanillaplusjs/build/cold_incremental_rebuild.py b/vanillaplusjs/build/cold_incremental_rebuild.py
index ecd00a1..18630af 100644
--- a/vanillaplusjs/build/cold_incremental_rebuild.py
+++ b/vanillaplusjs/build/cold_incremental_rebuild.py
@@ -107,7 +107,9 @@ async def cold_incremental_rebuild(
     # file signatures. In both cases, once we know what files have changed,
     # we can start the incremental rebuild.
 
+    # After a build which did not finish only the placeholders are known
     relpaths_deleted: Set[str] = set(old_dependency_graph.nodes.keys())
+    relpaths_deleted.update(old_placeholders_graph.nodes.keys())
     relpaths_changed: Dict[str, FileSignature] = dict()
     relpaths_added: Dict[str, FileSignature] = dict()
 
@@ -121,8 +123,8 @@ async def cold_incremental_rebuild(
         for filename in filenames:
             relpath = os.path.relpath(os.path.join(dirpath, filename), context.folder)
             signature = get_file_signature(os.path.join(context.folder, relpath))
+            relpaths_deleted.discard(relpath)
             if relpath in old_dependency_graph:
-                relpaths_deleted.remove(relpath)
                 if not old_dependency_graph.check_file(
                     relpath, signature.filesize, signature.mtime, signature.inode
                 ):
-- 
2.43.0


From 70edb6286936e5c5ae3f9c009f316c944ea673fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:18 +0000
Subject: [PATCH 84/85] fix: store the image counter and placeholders
 atomically

---
 vanillaplusjs/build/html/manips/images/metadata.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/vanillaplusjs/build/html/manips/images/metadata.py b/vanillaplusjs/build/html/manips/images/metadata.py
index 586a11f..5489746 100644
--- a/vanillaplusjs/build/html/manips/images/metadata.py
+++ b/vanillaplusjs/build/html/manips/images/metadata.py
@@ -32,7 +32,7 @@ from vanillaplusjs.build.handlers.hash import calculate_hash
 from vanillaplusjs.build.html.manips.images.settings import ImageSettings
 from loguru import logger
 
-from vanillaplusjs.build.ioutil import makedirs_safely
+from vanillaplusjs.build.ioutil import makedirs_safely, open_atomically
 
 
 @dataclass(frozen=True)
@@ -382,13 +382,13 @@ def _reserve_target_with_lock(
     ):
         counter = counter + 1
 
-    with open(os.path.join(art_path, "counter.txt"), "w") as f:
+    with open_atomically(os.path.join(art_path, "counter.txt")) as f:
         f.write(str(counter))
 
     entry_path = os.path.join(art_path, str(counter))
     placeholder_path = os.path.join(entry_path, "placeholder.json")
     makedirs_safely(entry_path)
-    with open(placeholder_path, "w") as f:
+    with open_atomically(placeholder_path) as f:
         json.dump(
             store_placeholder(
                 relpath,
-- 
2.43.0


From 845f8083764522c450a54c60785ab4c32c125ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:38 +0000
Subject: [PATCH 85/85] fix: generate the placeholder again once the file in
 its place is deleted

---
 vanillaplusjs/build/hot_incremental_rebuild.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/vanillaplusjs/build/hot_incremental_rebuild.py b/vanillaplusjs/build/hot_incremental_rebuild.py
index 92e763e..c4aa678 100644
--- a/vanillaplusjs/build/hot_incremental_rebuild.py
+++ b/vanillaplusjs/build/hot_incremental_rebuild.py
@@ -6,6 +6,7 @@ from vanillaplusjs.build.exceptions import (
     CyclicDependencyException,
 )
 from vanillaplusjs.build.file_signature import FileSignature, get_file_signature
+from vanillaplusjs.build.handlers.image_glue import get_placeholder_dependencies
 from vanillaplusjs.build.handlers.js_constants import (
     get_state as get_constants_state,
 )
@@ -128,10 +129,20 @@ async def hot_incremental_rebuild(
         # by the files it includes (e.g., html partials) or which configure it
         # (e.g., the colors in the default stylesheet)
         deleted_files = set(deleted_files)
+        # The file for which a deleted file took the place of a placeholder has to
+        # generate that placeholder now
+        placeholder_generators = itertools.chain.from_iterable(
+            get_placeholder_dependencies(context, relpath)
+            for relpath in deleted_files
+            if relpath.endswith(".images.js")
+        )
         files_that_need_scanning = sorted(
             find_affected_files(
                 itertools.chain(
-                    changed_files.keys(), added_files.keys(), deleted_files
+                    changed_files.keys(),
+                    added_files.keys(),
+                    deleted_files,
+                    placeholder_generators,
                 ),
                 old_dependency_graph,
                 old_output_graph,
-- 
2.43.0

