From 57055acd69425d9f06e4ec182917d9ba74619ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:20 +0000
Subject: [PATCH 01/78] fix: report index 0 of an empty list as out of range in
 parameter references

---
 src/cwl_utils/sandboxjs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cwl_utils/sandboxjs.py b/src/cwl_utils/sandboxjs.py
index ab4b624..d22dbb0 100644
--- a/src/cwl_utils/sandboxjs.py
+++ b/src/cwl_utils/sandboxjs.py
@@ -567,7 +567,7 @@ class NodeJSEngine(JSEngine):
                         "%s is a %s, cannot index on int '%s'"
                         % (parsed_string, type(current_value).__name__, key)
                     )
-                if key and key >= len(current_value):
+                if key >= len(current_value):
                     raise WorkflowException(
                         "%s list index %i out of range" % (parsed_string, key)
                     )
-- 
2.43.0


From 66ac78747493683af48b55b7f2013527660ff232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:37 +0000
Subject: [PATCH 02/78] fix: convert every element of a list in
 bytes2str_in_dicts

---
 src/cwl_utils/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cwl_utils/utils.py b/src/cwl_utils/utils.py
index bfae73d..4cada5e 100644
--- a/src/cwl_utils/utils.py
+++ b/src/cwl_utils/utils.py
@@ -74,7 +74,7 @@ def bytes2str_in_dicts(
     if isinstance(inp, MutableSequence):
         for idx, value in enumerate(inp):
             inp[idx] = bytes2str_in_dicts(value)
-            return inp
+        return inp
 
     # if value is bytes, return decoded string,
     elif isinstance(inp, bytes):
-- 
2.43.0


From 11144f93200e87d74ffc6d958f566cfb67681381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:41 +0000
Subject: [PATCH 03/78] fix: do not decode partially received output of the
 JavaScript engine

---
 src/cwl_utils/sandboxjs.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/cwl_utils/sandboxjs.py b/src/cwl_utils/sandboxjs.py
index d22dbb0..0e11235 100644
--- a/src/cwl_utils/sandboxjs.py
+++ b/src/cwl_utils/sandboxjs.py
@@ -237,12 +237,13 @@ class NodeJSEngine(JSEngine):
         rselect: list[BytesIO] = [nodejs.stdout, nodejs.stderr]
         wselect: list[BytesIO] = [nodejs.stdin]
 
+        finished_marker = self.process_finished_str.encode("utf-8")
+
         def process_finished() -> bool:
-            return stdout_buf.getvalue().decode("utf-8").endswith(
-                self.process_finished_str
-            ) and stderr_buf.getvalue().decode("utf-8").endswith(
-                self.process_finished_str
-            )
+            # Compare bytes: a read may end in the middle of an UTF-8 sequence
+            return stdout_buf.getvalue().endswith(
+                finished_marker
+            ) and stderr_buf.getvalue().endswith(finished_marker)
 
         while not process_finished() and timer.is_alive():
             rready, wready, _ = select.select(rselect, wselect, [])
-- 
2.43.0


From e9db0d9e2d9ac4b891d29ffc2d7530581d27bef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:55 +0000
Subject: [PATCH 04/78] fix: never reuse a timed-out or incomplete JavaScript
 engine process

---
 src/cwl_utils/sandboxjs.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/cwl_utils/sandboxjs.py b/src/cwl_utils/sandboxjs.py
index 0e11235..431ebfe 100644
--- a/src/cwl_utils/sandboxjs.py
+++ b/src/cwl_utils/sandboxjs.py
@@ -260,6 +260,13 @@ class NodeJSEngine(JSEngine):
             except OSError:
                 break
         timer.cancel()
+        timer.join()
+        finished = process_finished()
+        if killed or not finished:
+            # The process is dying or its answer is incomplete: make sure that
+            # it is gone, so that the next evaluation gets a new process
+            nodejs.kill()
+            nodejs.wait()
 
         stdin_buf.close()
         stdoutdata = stdout_buf.getvalue()[: -len(self.process_finished_str) - 1]
@@ -273,7 +280,7 @@ class NodeJSEngine(JSEngine):
             else:
                 returncode = nodejs.returncode
         else:
-            returncode = 0
+            returncode = 0 if finished else 1
 
         return returncode, stdoutdata.decode("utf-8"), stderrdata.decode("utf-8")
 
-- 
2.43.0


From 5baded0e2930e1ef96868b5253c0f0b738326929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:24 +0000
Subject: [PATCH 05/78] fix: recognize an already present udocker image of
 Node.js

---
 src/cwl_utils/sandboxjs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/cwl_utils/sandboxjs.py b/src/cwl_utils/sandboxjs.py
index 431ebfe..35584c6 100644
--- a/src/cwl_utils/sandboxjs.py
+++ b/src/cwl_utils/sandboxjs.py
@@ -366,8 +366,8 @@ class NodeJSEngine(JSEngine):
                     need_singularity = (
                         container_engine == "singularity" and not singularityimgs
                     )
-                    need_docker = container_engine != "singularity" and (
-                        len(dockerimgs.split("\n")) <= 1
+                    need_docker = (
+                        container_engine != "singularity" and not dockerimgs.strip()
                     )
                     if need_singularity or need_docker or force_docker_pull:
                         # pull node:alpine docker container
-- 
2.43.0


From 875b5af708baddccbbfd21d99fd5a5642a242239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:24 +0000
Subject: [PATCH 06/78] fix: do not pass --force to container engines that lack
 this option

---
 src/cwl_utils/sandboxjs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cwl_utils/sandboxjs.py b/src/cwl_utils/sandboxjs.py
index 35584c6..d2a5545 100644
--- a/src/cwl_utils/sandboxjs.py
+++ b/src/cwl_utils/sandboxjs.py
@@ -372,7 +372,9 @@ class NodeJSEngine(JSEngine):
                     if need_singularity or need_docker or force_docker_pull:
                         # pull node:alpine docker container
                         nodejs_pull_commands = [container_engine, "pull"]
-                        if force_docker_pull:
+                        if force_docker_pull and container_engine == "singularity":
+                            # the other engines have no such option, they
+                            # always check for a newer image when pulling
                             nodejs_pull_commands.append("--force")
                         nodejs_pull_commands.append(nodeimg)
                         cwd = (
-- 
2.43.0


From 690890bb2c672812415fff4561214a3e55b47f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:24 +0000
Subject: [PATCH 07/78] fix: accept pre-release versions of Node.js

---
 src/cwl_utils/sandboxjs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cwl_utils/sandboxjs.py b/src/cwl_utils/sandboxjs.py
index d2a5545..195afb8 100644
--- a/src/cwl_utils/sandboxjs.py
+++ b/src/cwl_utils/sandboxjs.py
@@ -147,8 +147,10 @@ class NodeJSEngine(JSEngine):
         current_version_str = subprocess.check_output(  # nosec
             [working_alias, "-v"], text=True
         )
+        # pre-releases have a suffix: 'v21.0.0-nightly20230801d396a041f7'
         current_version = [
-            int(v) for v in current_version_str.strip().strip("v").split(".")
+            int(v)
+            for v in current_version_str.strip().strip("v").split("-")[0].split(".")
         ]
         minimum_node_version = [
             int(v) for v in self.minimum_node_version_str.split(".")
-- 
2.43.0


From 4601535090540f3ad10aaaecc01332dc92215dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:11 +0000
Subject: [PATCH 08/78] fix: pull the Node.js image from its registry when a
 local Singularity copy exists

---
 src/cwl_utils/sandboxjs.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cwl_utils/sandboxjs.py b/src/cwl_utils/sandboxjs.py
index 195afb8..a2a86e8 100644
--- a/src/cwl_utils/sandboxjs.py
+++ b/src/cwl_utils/sandboxjs.py
@@ -328,6 +328,8 @@ class NodeJSEngine(JSEngine):
                 elif container_engine in ("podman", "udocker"):
                     nodeimg = f"docker.io/library/{nodeimg}"
 
+                nodeimg_to_pull = nodeimg
+
                 if not self.have_node_slim:
                     singularity_cache: str | None = None
                     match container_engine:
@@ -378,7 +380,7 @@ class NodeJSEngine(JSEngine):
                             # the other engines have no such option, they
                             # always check for a newer image when pulling
                             nodejs_pull_commands.append("--force")
-                        nodejs_pull_commands.append(nodeimg)
+                        nodejs_pull_commands.append(nodeimg_to_pull)
                         cwd = (
                             Path(singularity_cache) if singularity_cache else Path.cwd()
                         )
-- 
2.43.0


From e5c3fbc66b410c8a1aca0657020539c41a01fa2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:59 +0000
Subject: [PATCH 09/78] fix: notice when the JavaScript engine dies instead of
 waiting for the time limit

---
 src/cwl_utils/sandboxjs.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cwl_utils/sandboxjs.py b/src/cwl_utils/sandboxjs.py
index a2a86e8..8254eb8 100644
--- a/src/cwl_utils/sandboxjs.py
+++ b/src/cwl_utils/sandboxjs.py
@@ -259,6 +259,10 @@ class NodeJSEngine(JSEngine):
                         buf = os.read(pipes[0].fileno(), select.PIPE_BUF)
                         if buf:
                             pipes[1].write(buf)
+                        else:
+                            rselect.remove(pipes[0])
+                if not rselect:  # the process is gone
+                    break
             except OSError:
                 break
         timer.cancel()
-- 
2.43.0


From 8433f85bc93bef832a838526429cc5235c67cbe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:28 +0000
Subject: [PATCH 10/78] fix: determine the declared type of workflow step
 inputs

---
 src/cwl_utils/parser/cwl_v1_0_utils.py | 5 ++++-
 src/cwl_utils/parser/cwl_v1_1_utils.py | 5 ++++-
 src/cwl_utils/parser/cwl_v1_2_utils.py | 5 ++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/cwl_utils/parser/cwl_v1_0_utils.py b/src/cwl_utils/parser/cwl_v1_0_utils.py
index f80c74b..d0c9471 100644
--- a/src/cwl_utils/parser/cwl_v1_0_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_0_utils.py
@@ -269,7 +269,10 @@ def type_for_step_input(
     cwl_utils.parser.utils.convert_stdstreams_to_files(step_run)
     if step_run and step_run.inputs:
         for step_input in step_run.inputs:
-            if cast(str, step_input.id).split("#")[-1] == in_.id.split("#")[-1]:
+            if (
+                cast(str, step_input.id).split("#")[-1].split("/")[-1]
+                == in_.id.split("#")[-1].split("/")[-1]
+            ):
                 input_type = step_input.type_
                 if step.scatter is not None and in_.id in aslist(step.scatter):
                     input_type = ArraySchema(items=input_type, type_="array")
diff --git a/src/cwl_utils/parser/cwl_v1_1_utils.py b/src/cwl_utils/parser/cwl_v1_1_utils.py
index 838922e..6676a00 100644
--- a/src/cwl_utils/parser/cwl_v1_1_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_1_utils.py
@@ -351,7 +351,10 @@ def type_for_step_input(
     cwl_utils.parser.utils.convert_stdstreams_to_files(step_run)
     if step_run and step_run.inputs:
         for step_input in step_run.inputs:
-            if cast(str, step_input.id).split("#")[-1] == in_.id.split("#")[-1]:
+            if (
+                cast(str, step_input.id).split("#")[-1].split("/")[-1]
+                == in_.id.split("#")[-1].split("/")[-1]
+            ):
                 input_type = step_input.type_
                 if step.scatter is not None and in_.id in aslist(step.scatter):
                     input_type = ArraySchema(items=input_type, type_="array")
diff --git a/src/cwl_utils/parser/cwl_v1_2_utils.py b/src/cwl_utils/parser/cwl_v1_2_utils.py
index e0f94e2..daee9f2 100644
--- a/src/cwl_utils/parser/cwl_v1_2_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_2_utils.py
@@ -379,7 +379,10 @@ def type_for_step_input(
     cwl_utils.parser.utils.convert_stdstreams_to_files(step_run)
     if step_run and step_run.inputs:
         for step_input in step_run.inputs:
-            if cast(str, step_input.id).split("#")[-1] == in_.id.split("#")[-1]:
+            if (
+                cast(str, step_input.id).split("#")[-1].split("/")[-1]
+                == in_.id.split("#")[-1].split("/")[-1]
+            ):
                 input_type = step_input.type_
                 if step.scatter is not None and in_.id in aslist(step.scatter):
                     input_type = ArraySchema(items=input_type, type_="array")
-- 
2.43.0


From bd274c9583ebfc28f53041efdc0611c63d6e7695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:28 +0000
Subject: [PATCH 11/78] fix: compare nested types strictly in a strict type
 comparison

---
 src/cwl_utils/parser/cwl_v1_1_utils.py | 4 ++--
 src/cwl_utils/parser/utils.py          | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cwl_utils/parser/cwl_v1_1_utils.py b/src/cwl_utils/parser/cwl_v1_1_utils.py
index 6676a00..c52d085 100644
--- a/src/cwl_utils/parser/cwl_v1_1_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_1_utils.py
@@ -161,7 +161,7 @@ def can_assign_src_to_sink(src: Any, sink: Any, strict: bool = False) -> bool:
     if isinstance(src, MutableSequence):
         if strict:
             for this_src in src:
-                if not can_assign_src_to_sink(this_src, sink):
+                if not can_assign_src_to_sink(this_src, sink, strict):
                     return False
             return True
         for this_src in src:
@@ -170,7 +170,7 @@ def can_assign_src_to_sink(src: Any, sink: Any, strict: bool = False) -> bool:
         return False
     if isinstance(sink, MutableSequence):
         for this_sink in sink:
-            if can_assign_src_to_sink(src, this_sink):
+            if can_assign_src_to_sink(src, this_sink, strict):
                 return True
         return False
     return bool(src == sink)
diff --git a/src/cwl_utils/parser/utils.py b/src/cwl_utils/parser/utils.py
index 2669616..4d51909 100644
--- a/src/cwl_utils/parser/utils.py
+++ b/src/cwl_utils/parser/utils.py
@@ -96,7 +96,7 @@ def can_assign_src_to_sink(src: Any, sink: Any, strict: bool = False) -> bool:
     if isinstance(src, MutableSequence):
         if strict:
             for this_src in src:
-                if not can_assign_src_to_sink(this_src, sink):
+                if not can_assign_src_to_sink(this_src, sink, strict):
                     return False
             return True
         for this_src in src:
@@ -105,7 +105,7 @@ def can_assign_src_to_sink(src: Any, sink: Any, strict: bool = False) -> bool:
         return False
     if isinstance(sink, MutableSequence):
         for this_sink in sink:
-            if can_assign_src_to_sink(src, this_sink):
+            if can_assign_src_to_sink(src, this_sink, strict):
                 return True
         return False
     return bool(src == sink)
-- 
2.43.0


From a2cbd426b429da362dfcaf6cfe75ca98171f5e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:28 +0000
Subject: [PATCH 12/78] fix: compare enums by their symbols, not by their
 location

---
 src/cwl_utils/parser/cwl_v1_1_utils.py | 17 ++++++++++++++++-
 src/cwl_utils/parser/utils.py          | 17 ++++++++++++++++-
 2 files changed, 32 insertions(+), 2 deletions(-)

diff --git a/src/cwl_utils/parser/cwl_v1_1_utils.py b/src/cwl_utils/parser/cwl_v1_1_utils.py
index c52d085..4448159 100644
--- a/src/cwl_utils/parser/cwl_v1_1_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_1_utils.py
@@ -9,7 +9,7 @@ from typing import IO, Any, cast
 from urllib.parse import urldefrag
 
 from schema_salad.exceptions import ValidationException
-from schema_salad.metaschema import ArraySchema, RecordSchema
+from schema_salad.metaschema import ArraySchema, EnumSchema, RecordSchema
 from schema_salad.runtime import shortname, LoadingOptions, file_uri, save
 from schema_salad.sourceline import SourceLine, add_lc_filename
 from schema_salad.utils import aslist, json_dumps, yaml_no_ts
@@ -141,6 +141,19 @@ def _inputfile_load(
             )
 
 
+def _compare_enums(src: EnumSchema, sink: EnumSchema, strict: bool = False) -> bool:
+    """
+    Compare the symbols of two enums.
+
+    The symbols are normalized, as they are relative to the parameter they belong to.
+    """
+    srcsymbols = {shortname(symbol) for symbol in src.symbols}
+    sinksymbols = {shortname(symbol) for symbol in sink.symbols}
+    if strict:
+        return srcsymbols <= sinksymbols
+    return not srcsymbols.isdisjoint(sinksymbols)
+
+
 def can_assign_src_to_sink(src: Any, sink: Any, strict: bool = False) -> bool:
     """
     Check for identical type specifications, ignoring extra keys like inputBinding.
@@ -158,6 +171,8 @@ def can_assign_src_to_sink(src: Any, sink: Any, strict: bool = False) -> bool:
         return can_assign_src_to_sink(src.items, sink.items, strict)
     if isinstance(src, RecordSchema) and isinstance(sink, RecordSchema):
         return _compare_records(src, sink, strict)
+    if isinstance(src, EnumSchema) and isinstance(sink, EnumSchema):
+        return _compare_enums(src, sink, strict)
     if isinstance(src, MutableSequence):
         if strict:
             for this_src in src:
diff --git a/src/cwl_utils/parser/utils.py b/src/cwl_utils/parser/utils.py
index 4d51909..21e278e 100644
--- a/src/cwl_utils/parser/utils.py
+++ b/src/cwl_utils/parser/utils.py
@@ -8,7 +8,7 @@ from typing import Any, cast, Literal
 from urllib.parse import unquote_plus, urlparse
 
 from schema_salad.exceptions import ValidationException
-from schema_salad.metaschema import ArraySchema, RecordSchema
+from schema_salad.metaschema import ArraySchema, EnumSchema, RecordSchema
 from schema_salad.runtime import file_uri, shortname, save
 from schema_salad.sourceline import SourceLine, strip_dup_lineno
 from schema_salad.utils import json_dumps, yaml_no_ts
@@ -76,6 +76,19 @@ def _compare_records(
     return True
 
 
+def _compare_enums(src: EnumSchema, sink: EnumSchema, strict: bool = False) -> bool:
+    """
+    Compare the symbols of two enums.
+
+    The symbols are normalized, as they are relative to the parameter they belong to.
+    """
+    srcsymbols = {shortname(symbol) for symbol in src.symbols}
+    sinksymbols = {shortname(symbol) for symbol in sink.symbols}
+    if strict:
+        return srcsymbols <= sinksymbols
+    return not srcsymbols.isdisjoint(sinksymbols)
+
+
 def can_assign_src_to_sink(src: Any, sink: Any, strict: bool = False) -> bool:
     """
     Check for identical type specifications, ignoring extra keys like inputBinding.
@@ -93,6 +106,8 @@ def can_assign_src_to_sink(src: Any, sink: Any, strict: bool = False) -> bool:
         return can_assign_src_to_sink(src.items, sink.items, strict)
     if isinstance(src, RecordSchema) and isinstance(sink, RecordSchema):
         return _compare_records(src, sink, strict)
+    if isinstance(src, EnumSchema) and isinstance(sink, EnumSchema):
+        return _compare_enums(src, sink, strict)
     if isinstance(src, MutableSequence):
         if strict:
             for this_src in src:
-- 
2.43.0


From 206d6d9db1504691baf8f7b6affb673e839174e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:01 +0000
Subject: [PATCH 13/78] fix: compare both types when looking for equal types

---
 src/cwl_utils/parser/cwl_v1_0_utils.py | 2 +-
 src/cwl_utils/parser/cwl_v1_1_utils.py | 2 +-
 src/cwl_utils/parser/cwl_v1_2_utils.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cwl_utils/parser/cwl_v1_0_utils.py b/src/cwl_utils/parser/cwl_v1_0_utils.py
index d0c9471..3ae644a 100644
--- a/src/cwl_utils/parser/cwl_v1_0_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_0_utils.py
@@ -27,7 +27,7 @@ SrcSink = namedtuple("SrcSink", ["src", "sink", "linkMerge", "message"])
 
 
 def _compare_type(type1: Any, type2: Any) -> bool:
-    match (type1, type1):
+    match (type1, type2):
         case ArraySchema() as t1, ArraySchema() as t2:
             return _compare_type(t1.items, t2.items)
         case RecordSchema(), RecordSchema():
diff --git a/src/cwl_utils/parser/cwl_v1_1_utils.py b/src/cwl_utils/parser/cwl_v1_1_utils.py
index 4448159..3b898c1 100644
--- a/src/cwl_utils/parser/cwl_v1_1_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_1_utils.py
@@ -58,7 +58,7 @@ def _compare_records(
 
 
 def _compare_type(type1: Any, type2: Any) -> bool:
-    match (type1, type1):
+    match (type1, type2):
         case ArraySchema() as t1, ArraySchema() as t2:
             return _compare_type(t1.items, t2.items)
         case RecordSchema(), RecordSchema():
diff --git a/src/cwl_utils/parser/cwl_v1_2_utils.py b/src/cwl_utils/parser/cwl_v1_2_utils.py
index daee9f2..a74757f 100644
--- a/src/cwl_utils/parser/cwl_v1_2_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_2_utils.py
@@ -28,7 +28,7 @@ SrcSink = namedtuple("SrcSink", ["src", "sink", "linkMerge", "message"])
 
 
 def _compare_type(type1: Any, type2: Any) -> bool:
-    match (type1, type1):
+    match (type1, type2):
         case ArraySchema() as t1, ArraySchema() as t2:
             return _compare_type(t1.items, t2.items)
         case RecordSchema(), RecordSchema():
-- 
2.43.0


From 4ec5e57772e28f3438c69421b18f54a72cda9469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:01 +0000
Subject: [PATCH 14/78] fix: apply scatter to the types of multiple sources
 before dropping duplicates

---
 src/cwl_utils/parser/cwl_v1_0_utils.py | 20 +++++++++-----------
 src/cwl_utils/parser/cwl_v1_1_utils.py | 20 +++++++++-----------
 src/cwl_utils/parser/cwl_v1_2_utils.py | 20 +++++++++-----------
 3 files changed, 27 insertions(+), 33 deletions(-)

diff --git a/src/cwl_utils/parser/cwl_v1_0_utils.py b/src/cwl_utils/parser/cwl_v1_0_utils.py
index 3ae644a..1dee7f2 100644
--- a/src/cwl_utils/parser/cwl_v1_0_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_0_utils.py
@@ -335,21 +335,19 @@ def type_for_source(
         return new_type
     new_type = []
     for p, sc in zip(params, scatter_context):
-        if isinstance(p, str) and not any(_compare_type(t, p) for t in new_type):
+        if isinstance(p, str):
             cur_type = p
-        elif hasattr(p, "type_") and not any(
-            _compare_type(t, p.type_) for t in new_type
-        ):
+        elif hasattr(p, "type_"):
             cur_type = p.type_
         else:
-            cur_type = None
-        if cur_type is not None:
-            if sc is not None:
-                if sc[1] == "nested_crossproduct":
-                    for _ in range(sc[0]):
-                        cur_type = ArraySchema(items=cur_type, type_="array")
-                else:
+            continue
+        if sc is not None:
+            if sc[1] == "nested_crossproduct":
+                for _ in range(sc[0]):
                     cur_type = ArraySchema(items=cur_type, type_="array")
+            else:
+                cur_type = ArraySchema(items=cur_type, type_="array")
+        if not any(_compare_type(t, cur_type) for t in new_type):
             new_type.append(cur_type)
     if len(new_type) == 1:
         new_type = new_type[0]
diff --git a/src/cwl_utils/parser/cwl_v1_1_utils.py b/src/cwl_utils/parser/cwl_v1_1_utils.py
index 3b898c1..ae2f83d 100644
--- a/src/cwl_utils/parser/cwl_v1_1_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_1_utils.py
@@ -432,21 +432,19 @@ def type_for_source(
         return new_type
     new_type = []
     for p, sc in zip(params, scatter_context):
-        if isinstance(p, str) and not any(_compare_type(t, p) for t in new_type):
+        if isinstance(p, str):
             cur_type = p
-        elif hasattr(p, "type_") and not any(
-            _compare_type(t, p.type_) for t in new_type
-        ):
+        elif hasattr(p, "type_"):
             cur_type = p.type_
         else:
-            cur_type = None
-        if cur_type is not None:
-            if sc is not None:
-                if sc[1] == "nested_crossproduct":
-                    for _ in range(sc[0]):
-                        cur_type = ArraySchema(items=cur_type, type_="array")
-                else:
+            continue
+        if sc is not None:
+            if sc[1] == "nested_crossproduct":
+                for _ in range(sc[0]):
                     cur_type = ArraySchema(items=cur_type, type_="array")
+            else:
+                cur_type = ArraySchema(items=cur_type, type_="array")
+        if not any(_compare_type(t, cur_type) for t in new_type):
             new_type.append(cur_type)
     if len(new_type) == 1:
         new_type = new_type[0]
diff --git a/src/cwl_utils/parser/cwl_v1_2_utils.py b/src/cwl_utils/parser/cwl_v1_2_utils.py
index a74757f..fd08c2d 100644
--- a/src/cwl_utils/parser/cwl_v1_2_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_2_utils.py
@@ -450,21 +450,19 @@ def type_for_source(
         return new_type
     new_type = []
     for p, sc in zip(params, scatter_context):
-        if isinstance(p, str) and not any(_compare_type(t, p) for t in new_type):
+        if isinstance(p, str):
             cur_type = p
-        elif hasattr(p, "type_") and not any(
-            _compare_type(t, p.type_) for t in new_type
-        ):
+        elif hasattr(p, "type_"):
             cur_type = p.type_
         else:
-            cur_type = None
-        if cur_type is not None:
-            if sc is not None:
-                if sc[1] == "nested_crossproduct":
-                    for _ in range(sc[0]):
-                        cur_type = ArraySchema(items=cur_type, type_="array")
-                else:
+            continue
+        if sc is not None:
+            if sc[1] == "nested_crossproduct":
+                for _ in range(sc[0]):
                     cur_type = ArraySchema(items=cur_type, type_="array")
+            else:
+                cur_type = ArraySchema(items=cur_type, type_="array")
+        if not any(_compare_type(t, cur_type) for t in new_type):
             new_type.append(cur_type)
     if len(new_type) == 1:
         new_type = new_type[0]
-- 
2.43.0


From 96dcd3201f83e5a4a6a34732ab980d27515ebaa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:01 +0000
Subject: [PATCH 15/78] fix: report an unknown source even if other sources are
 known

---
 src/cwl_utils/parser/utils.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/cwl_utils/parser/utils.py b/src/cwl_utils/parser/utils.py
index 21e278e..f11e702 100644
--- a/src/cwl_utils/parser/utils.py
+++ b/src/cwl_utils/parser/utils.py
@@ -288,6 +288,7 @@ def param_for_source_id(
         CommandInputParameter | CommandOutputParameter | WorkflowInputParameter
     ] = []
     for sourcename in sourcenames:
+        already_found = len(params)
         if not isinstance(process, Workflow):
             for param in process.inputs:
                 if param.id.split("#")[-1] == sourcename.split("#")[-1]:
@@ -347,17 +348,17 @@ def param_for_source_id(
                                                         )
                                                     else:
                                                         scatter_context.append(None)
+        if len(params) == already_found:
+            raise WorkflowException(
+                "param {} not found in {}\n{}.".format(
+                    sourcename,
+                    yaml_dumps(save(process)),
+                    (f" or\n {yaml_dumps(save(parent))}" if parent is not None else ""),
+                )
+            )
     if len(params) == 1:
         return params[0]
-    elif len(params) > 1:
-        return params
-    raise WorkflowException(
-        "param {} not found in {}\n{}.".format(
-            sourcename,
-            yaml_dumps(save(process)),
-            (f" or\n {yaml_dumps(save(parent))}" if parent is not None else ""),
-        )
-    )
+    return params
 
 
 def static_checker(workflow: Workflow) -> None:
-- 
2.43.0


From b1515b67fb080cbf36a4d37964772d795f66b696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:01 +0000
Subject: [PATCH 16/78] fix: report unknown sources of a link with several
 sources

---
 src/cwl_utils/parser/cwl_v1_0_utils.py | 4 ++++
 src/cwl_utils/parser/cwl_v1_1_utils.py | 4 ++++
 src/cwl_utils/parser/cwl_v1_2_utils.py | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/src/cwl_utils/parser/cwl_v1_0_utils.py b/src/cwl_utils/parser/cwl_v1_0_utils.py
index 1dee7f2..a1f020d 100644
--- a/src/cwl_utils/parser/cwl_v1_0_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_0_utils.py
@@ -134,6 +134,10 @@ def check_all_types(
                 )
                 srcs_of_sink = []
                 for parm_id in sourceField:
+                    if parm_id not in src_dict:
+                        raise SourceLine(
+                            sink, sourceName, ValidationException
+                        ).makeError(f"{sourceName} not found: {parm_id}")
                     srcs_of_sink += [src_dict[parm_id]]
             else:
                 parm_id = cast(str, sourceField)
diff --git a/src/cwl_utils/parser/cwl_v1_1_utils.py b/src/cwl_utils/parser/cwl_v1_1_utils.py
index ae2f83d..a974258 100644
--- a/src/cwl_utils/parser/cwl_v1_1_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_1_utils.py
@@ -215,6 +215,10 @@ def check_all_types(
                 )
                 srcs_of_sink = []
                 for parm_id in sourceField:
+                    if parm_id not in src_dict:
+                        raise SourceLine(
+                            sink, sourceName, ValidationException
+                        ).makeError(f"{sourceName} not found: {parm_id}")
                     srcs_of_sink += [src_dict[parm_id]]
             else:
                 parm_id = cast(str, sourceField)
diff --git a/src/cwl_utils/parser/cwl_v1_2_utils.py b/src/cwl_utils/parser/cwl_v1_2_utils.py
index fd08c2d..859e35a 100644
--- a/src/cwl_utils/parser/cwl_v1_2_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_2_utils.py
@@ -161,6 +161,10 @@ def check_all_types(
                     linkMerge = None
                 srcs_of_sink = []
                 for parm_id in sourceField:
+                    if parm_id not in src_dict:
+                        raise SourceLine(
+                            sink, sourceName, ValidationException
+                        ).makeError(f"{sourceName} not found: {parm_id}")
                     srcs_of_sink += [src_dict[parm_id]]
                     if (
                         _is_conditional_step(param_to_step, parm_id)
-- 
2.43.0


From ffea5811593cb1ddde3a1e645d3c11a3f40a680d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:01 +0000
Subject: [PATCH 17/78] fix: take the linkMerge method of single links into
 account

---
 src/cwl_utils/parser/cwl_v1_0_utils.py | 2 +-
 src/cwl_utils/parser/cwl_v1_1_utils.py | 2 +-
 src/cwl_utils/parser/cwl_v1_2_utils.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cwl_utils/parser/cwl_v1_0_utils.py b/src/cwl_utils/parser/cwl_v1_0_utils.py
index a1f020d..2cc8c5c 100644
--- a/src/cwl_utils/parser/cwl_v1_0_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_0_utils.py
@@ -146,7 +146,7 @@ def check_all_types(
                         f"{sourceName} not found: {parm_id}"
                     )
                 srcs_of_sink = [src_dict[parm_id]]
-                linkMerge = None
+                linkMerge = sink.linkMerge
             for src in srcs_of_sink:
                 check_result = cwl_utils.parser.utils.check_types(
                     type_dict[cast(str, src.id)],
diff --git a/src/cwl_utils/parser/cwl_v1_1_utils.py b/src/cwl_utils/parser/cwl_v1_1_utils.py
index a974258..83d6b09 100644
--- a/src/cwl_utils/parser/cwl_v1_1_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_1_utils.py
@@ -227,7 +227,7 @@ def check_all_types(
                         f"{sourceName} not found: {parm_id}"
                     )
                 srcs_of_sink = [src_dict[parm_id]]
-                linkMerge = None
+                linkMerge = sink.linkMerge
             for src in srcs_of_sink:
                 check_result = cwl_utils.parser.utils.check_types(
                     type_dict[cast(str, src.id)],
diff --git a/src/cwl_utils/parser/cwl_v1_2_utils.py b/src/cwl_utils/parser/cwl_v1_2_utils.py
index 859e35a..f5bc9c2 100644
--- a/src/cwl_utils/parser/cwl_v1_2_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_2_utils.py
@@ -201,7 +201,7 @@ def check_all_types(
                         f"{sourceName} not found: {parm_id}"
                     )
                 srcs_of_sink = [src_dict[parm_id]]
-                linkMerge = None
+                linkMerge = sink.linkMerge
                 if sink.pickValue is not None:
                     validation["warning"].append(
                         SrcSink(
-- 
2.43.0


From 1fe0720a1438d87ff5536d9400f46e8ec457dd15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:17 +0000
Subject: [PATCH 18/78] fix: do not accumulate conditional and loop types over
 the sinks of a source

---
 src/cwl_utils/parser/cwl_v1_2_utils.py | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/src/cwl_utils/parser/cwl_v1_2_utils.py b/src/cwl_utils/parser/cwl_v1_2_utils.py
index f5bc9c2..34ace13 100644
--- a/src/cwl_utils/parser/cwl_v1_2_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_2_utils.py
@@ -165,12 +165,12 @@ def check_all_types(
                         raise SourceLine(
                             sink, sourceName, ValidationException
                         ).makeError(f"{sourceName} not found: {parm_id}")
-                    srcs_of_sink += [src_dict[parm_id]]
+                    src_typ = type_dict[src_dict[parm_id].id]
                     if (
                         _is_conditional_step(param_to_step, parm_id)
                         and sink.pickValue is None
                     ):
-                        src_typ = aslist(type_dict[src_dict[parm_id].id])
+                        src_typ = aslist(src_typ)
                         if "null" not in src_typ:
                             src_typ = ["null"] + cast(list[Any], src_typ)
                         if (
@@ -185,12 +185,9 @@ def check_all_types(
                                     message="Source is from conditional step, but pickValue is not used",
                                 )
                             )
-                        type_dict[src_dict[parm_id].id] = src_typ
                     if _is_all_output_method_loop_step(param_to_step, parm_id):
-                        src_typ = type_dict[src_dict[parm_id].id]
-                        type_dict[src_dict[parm_id].id] = ArraySchema(
-                            items=src_typ, type_="array"
-                        )
+                        src_typ = ArraySchema(items=src_typ, type_="array")
+                    srcs_of_sink += [(src_dict[parm_id], src_typ)]
             else:
                 if isinstance(sourceField, MutableSequence):
                     parm_id = cast(str, sourceField[0])
@@ -200,7 +197,7 @@ def check_all_types(
                     raise SourceLine(sink, sourceName, ValidationException).makeError(
                         f"{sourceName} not found: {parm_id}"
                     )
-                srcs_of_sink = [src_dict[parm_id]]
+                src_typ = type_dict[src_dict[parm_id].id]
                 linkMerge = sink.linkMerge
                 if sink.pickValue is not None:
                     validation["warning"].append(
@@ -212,7 +209,7 @@ def check_all_types(
                         )
                     )
                 if _is_conditional_step(param_to_step, parm_id):
-                    src_typ = aslist(type_dict[src_dict[parm_id].id])
+                    src_typ = aslist(src_typ)
                     snk_typ = type_dict[sink.id]
                     if "null" not in src_typ:
                         src_typ = ["null"] + cast(list[Any], src_typ)
@@ -228,15 +225,12 @@ def check_all_types(
                                 message="Source is from conditional step and may produce `null`",
                             )
                         )
-                    type_dict[src_dict[parm_id].id] = src_typ
                 if _is_all_output_method_loop_step(param_to_step, parm_id):
-                    src_typ = type_dict[src_dict[parm_id].id]
-                    type_dict[src_dict[parm_id].id] = ArraySchema(
-                        items=src_typ, type_="array"
-                    )
-            for src in srcs_of_sink:
+                    src_typ = ArraySchema(items=src_typ, type_="array")
+                srcs_of_sink = [(src_dict[parm_id], src_typ)]
+            for src, src_typ in srcs_of_sink:
                 check_result = cwl_utils.parser.utils.check_types(
-                    type_dict[cast(str, src.id)],
+                    src_typ,
                     sink_type,
                     linkMerge,
                     getattr(sink, "valueFrom", None),
-- 
2.43.0


From 81a62da731bfd1b9e29fc9a52b2dfb29c4d24e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:32 +0000
Subject: [PATCH 19/78] fix: reject workflows whose only defect is an
 unconnected required step input

---
 src/cwl_utils/parser/utils.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/cwl_utils/parser/utils.py b/src/cwl_utils/parser/utils.py
index f11e702..63db360 100644
--- a/src/cwl_utils/parser/utils.py
+++ b/src/cwl_utils/parser/utils.py
@@ -361,6 +361,14 @@ def param_for_source_id(
     return params
 
 
+def _requires_value(step: WorkflowStep, in_: WorkflowStepInput) -> bool:
+    """Confirm that the process of the step needs a value for the given step input."""
+    return any(
+        shortname(param.id) == shortname(in_.id) and param.default is None
+        for param in load_step(step).inputs
+    )
+
+
 def static_checker(workflow: Workflow) -> None:
     """Check if all source and sink types of a workflow are compatible before run time."""
     step_inputs = []
@@ -520,6 +528,7 @@ def static_checker(workflow: Workflow) -> None:
             and getattr(sink, "source", None) is None
             and getattr(sink, "default", None) is None
             and getattr(sink, "valueFrom", None) is None
+            and _requires_value(param_to_step[sink.id], sink)
         ):
             msg = SourceLine(sink).makeError(
                 "Required parameter '%s' does not have source, default, or valueFrom expression"
@@ -532,7 +541,7 @@ def static_checker(workflow: Workflow) -> None:
 
     if all_warning_msg:
         _logger.warning("Workflow checker warning:\n%s", all_warning_msg)
-    if exceptions:
+    if exception_msgs:
         raise ValidationException(all_exception_msg)
 
 
-- 
2.43.0


From f31b707e0d8a21843ceafd43232686f7a849a8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:32 +0000
Subject: [PATCH 20/78] fix: do not crash on empty lists of sources in the
 static checker

---
 src/cwl_utils/parser/cwl_v1_2_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cwl_utils/parser/cwl_v1_2_utils.py b/src/cwl_utils/parser/cwl_v1_2_utils.py
index 34ace13..957fd20 100644
--- a/src/cwl_utils/parser/cwl_v1_2_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_2_utils.py
@@ -153,7 +153,7 @@ def check_all_types(
             case _:
                 continue
         if sourceField is not None:
-            if isinstance(sourceField, MutableSequence) and len(sourceField) > 1:
+            if isinstance(sourceField, MutableSequence) and len(sourceField) != 1:
                 linkMerge: str | None = sink.linkMerge or (
                     "merge_nested" if len(sourceField) > 1 else None
                 )
-- 
2.43.0


From cfbcfbe5f263060cba93bc0dfad8d425f4a4e026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:05 +0000
Subject: [PATCH 21/78] fix: prefer the parameter of the document a source
 refers to

---
 src/cwl_utils/parser/utils.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/cwl_utils/parser/utils.py b/src/cwl_utils/parser/utils.py
index 63db360..c297511 100644
--- a/src/cwl_utils/parser/utils.py
+++ b/src/cwl_utils/parser/utils.py
@@ -289,10 +289,12 @@ def param_for_source_id(
     ] = []
     for sourcename in sourcenames:
         already_found = len(params)
+        documents: list[str] = []
         if not isinstance(process, Workflow):
             for param in process.inputs:
                 if param.id.split("#")[-1] == sourcename.split("#")[-1]:
                     params.append(param)
+                    documents.append(param.id.split("#")[0])
                     if scatter_context is not None:
                         scatter_context.append(None)
         targets = [process]
@@ -303,6 +305,7 @@ def param_for_source_id(
                 for inp in target.inputs:
                     if inp.id.split("#")[-1] == sourcename.split("#")[-1]:
                         params.append(inp)
+                        documents.append(inp.id.split("#")[0])
                         if scatter_context is not None:
                             scatter_context.append(None)
                 for step in target.steps:
@@ -326,6 +329,7 @@ def param_for_source_id(
                                             == sourcename.split("#")[-1].split("/")[-1]
                                         ):
                                             params.append(output)
+                                            documents.append(step.id.split("#")[0])
                                             if scatter_context is not None:
                                                 if scatter_context is not None:
                                                     if isinstance(step.scatter, str):
@@ -348,6 +352,16 @@ def param_for_source_id(
                                                         )
                                                     else:
                                                         scatter_context.append(None)
+        document = sourcename.split("#")[0]
+        if document in documents:
+            # Ignore parameters of other documents that have the same name
+            for index in reversed(range(len(documents))):
+                if documents[index] != document:
+                    position = index - len(documents)
+                    documents.pop(position)
+                    params.pop(position)
+                    if scatter_context is not None:
+                        scatter_context.pop(position)
         if len(params) == already_found:
             raise WorkflowException(
                 "param {} not found in {}\n{}.".format(
-- 
2.43.0


From 455bf1bf0226c4c6fbb28218381df4bb5544b23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:21 +0000
Subject: [PATCH 22/78] fix: do not require a name when logging incompatible
 records

---
 src/cwl_utils/parser/utils.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/cwl_utils/parser/utils.py b/src/cwl_utils/parser/utils.py
index c297511..db306b5 100644
--- a/src/cwl_utils/parser/utils.py
+++ b/src/cwl_utils/parser/utils.py
@@ -26,8 +26,6 @@ from cwl_utils.parser import (
     cwl_v1_1_utils,
     cwl_v1_2,
     cwl_v1_2_utils,
-    InputRecordSchema,
-    CommandOutputRecordSchema,
     CommandInputParameter,
     CommandOutputParameter,
     WorkflowInputParameter,
@@ -60,14 +58,8 @@ def _compare_records(
             _logger.info(
                 "Record comparison failure for %s and %s\n"
                 "Did not match fields for %s: %s and %s",
-                cast(
-                    InputRecordSchema | CommandOutputRecordSchema,
-                    src,
-                ).name,
-                cast(
-                    InputRecordSchema | CommandOutputRecordSchema,
-                    sink,
-                ).name,
+                getattr(src, "name", None),
+                getattr(sink, "name", None),
                 key,
                 srcfields.get(key),
                 sinkfields.get(key),
-- 
2.43.0


From 28eda4cd08d8348e83ab2e75fe0efda64c607258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:54 +0000
Subject: [PATCH 23/78] fix: merge the item types of several sources when
 flattening them

---
 src/cwl_utils/parser/cwl_v1_0_utils.py |  6 ++++--
 src/cwl_utils/parser/cwl_v1_1_utils.py |  6 ++++--
 src/cwl_utils/parser/cwl_v1_2_utils.py |  8 ++++----
 src/cwl_utils/parser/utils.py          | 13 ++++++++++++-
 4 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/cwl_utils/parser/cwl_v1_0_utils.py b/src/cwl_utils/parser/cwl_v1_0_utils.py
index 2cc8c5c..dd648a4 100644
--- a/src/cwl_utils/parser/cwl_v1_0_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_0_utils.py
@@ -353,12 +353,14 @@ def type_for_source(
                 cur_type = ArraySchema(items=cur_type, type_="array")
         if not any(_compare_type(t, cur_type) for t in new_type):
             new_type.append(cur_type)
-    if len(new_type) == 1:
+    if linkMerge == "merge_flattened":
+        new_type = cwl_utils.parser.utils.merge_flatten_types(new_type)
+    elif len(new_type) == 1:
         new_type = new_type[0]
     if linkMerge == "merge_nested":
         return ArraySchema(items=new_type, type_="array")
     elif linkMerge == "merge_flattened":
-        return cwl_utils.parser.utils.merge_flatten_type(new_type)
+        return new_type
     elif isinstance(sourcenames, list) and len(sourcenames) > 1:
         return ArraySchema(items=new_type, type_="array")
     return new_type
diff --git a/src/cwl_utils/parser/cwl_v1_1_utils.py b/src/cwl_utils/parser/cwl_v1_1_utils.py
index 83d6b09..a13e6dd 100644
--- a/src/cwl_utils/parser/cwl_v1_1_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_1_utils.py
@@ -450,12 +450,14 @@ def type_for_source(
                 cur_type = ArraySchema(items=cur_type, type_="array")
         if not any(_compare_type(t, cur_type) for t in new_type):
             new_type.append(cur_type)
-    if len(new_type) == 1:
+    if linkMerge == "merge_flattened":
+        new_type = cwl_utils.parser.utils.merge_flatten_types(new_type)
+    elif len(new_type) == 1:
         new_type = new_type[0]
     if linkMerge == "merge_nested":
         return ArraySchema(items=new_type, type_="array")
     elif linkMerge == "merge_flattened":
-        return cwl_utils.parser.utils.merge_flatten_type(new_type)
+        return new_type
     elif isinstance(sourcenames, list) and len(sourcenames) > 1:
         return ArraySchema(items=new_type, type_="array")
     else:
diff --git a/src/cwl_utils/parser/cwl_v1_2_utils.py b/src/cwl_utils/parser/cwl_v1_2_utils.py
index 957fd20..dc61bf9 100644
--- a/src/cwl_utils/parser/cwl_v1_2_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_2_utils.py
@@ -462,13 +462,13 @@ def type_for_source(
                 cur_type = ArraySchema(items=cur_type, type_="array")
         if not any(_compare_type(t, cur_type) for t in new_type):
             new_type.append(cur_type)
-    if len(new_type) == 1:
+    if linkMerge == "merge_flattened":
+        new_type = cwl_utils.parser.utils.merge_flatten_types(new_type)
+    elif len(new_type) == 1:
         new_type = new_type[0]
     if linkMerge == "merge_nested":
         new_type = ArraySchema(items=new_type, type_="array")
-    elif linkMerge == "merge_flattened":
-        new_type = cwl_utils.parser.utils.merge_flatten_type(new_type)
-    elif isinstance(sourcenames, list) and len(sourcenames) > 1:
+    elif linkMerge is None and isinstance(sourcenames, list) and len(sourcenames) > 1:
         new_type = ArraySchema(items=new_type, type_="array")
     if pickValue is not None:
         if isinstance(new_type, ArraySchema):
diff --git a/src/cwl_utils/parser/utils.py b/src/cwl_utils/parser/utils.py
index db306b5..04b2f17 100644
--- a/src/cwl_utils/parser/utils.py
+++ b/src/cwl_utils/parser/utils.py
@@ -11,7 +11,7 @@ from schema_salad.exceptions import ValidationException
 from schema_salad.metaschema import ArraySchema, EnumSchema, RecordSchema
 from schema_salad.runtime import file_uri, shortname, save
 from schema_salad.sourceline import SourceLine, strip_dup_lineno
-from schema_salad.utils import json_dumps, yaml_no_ts
+from schema_salad.utils import aslist, json_dumps, yaml_no_ts
 
 import cwl_utils
 from cwl_utils.parser import (
@@ -260,6 +260,17 @@ def merge_flatten_type(src: Any) -> Any:
     return ArraySchema(type_="array", items=src)
 
 
+def merge_flatten_types(srcs: MutableSequence[Any]) -> Any:
+    """Return the type of the flattened merge of multiple sources."""
+    items: list[Any] = []
+    for src in srcs:
+        for alternative in aslist(src):
+            for item in aslist(merge_flatten_type(alternative).items):
+                if item not in items:
+                    items.append(item)
+    return ArraySchema(type_="array", items=items[0] if len(items) == 1 else items)
+
+
 def param_for_source_id(
     process: Process,
     sourcenames: str | list[str],
-- 
2.43.0


From ee9313e3de63e6d9b4b0a84eaab640a3e4a6d0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:42 +0000
Subject: [PATCH 24/78] fix: check the format of every file of a list

---
 src/cwl_utils/file_formats.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/cwl_utils/file_formats.py b/src/cwl_utils/file_formats.py
index 8c1b51f..5f357fe 100644
--- a/src/cwl_utils/file_formats.py
+++ b/src/cwl_utils/file_formats.py
@@ -64,7 +64,8 @@ def check_format(
             if afile["format"] == inpf or formatSubclassOf(
                 afile["format"], inpf, ontology, set()
             ):
-                return
-        raise ValidationException(
-            f"File has an incompatible format: {json_dumps(afile, indent=4)}"
-        )
+                break
+        else:
+            raise ValidationException(
+                f"File has an incompatible format: {json_dumps(afile, indent=4)}"
+            )
-- 
2.43.0


From fdd917527a704d5d5286d948acce415d1873e584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:52 +0000
Subject: [PATCH 25/78] fix: keep nested lists in default values

---
 src/cwl_utils/parser/cwl_v1_0.py | 9 +++++++--
 src/cwl_utils/parser/cwl_v1_1.py | 9 +++++++--
 src/cwl_utils/parser/cwl_v1_2.py | 9 +++++++--
 3 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/cwl_utils/parser/cwl_v1_0.py b/src/cwl_utils/parser/cwl_v1_0.py
index b59294b..700aabc 100644
--- a/src/cwl_utils/parser/cwl_v1_0.py
+++ b/src/cwl_utils/parser/cwl_v1_0.py
@@ -86,8 +86,9 @@ class _PrimitiveLoader(Loader):
 
 
 class _ArrayLoader(Loader):
-    def __init__(self, items: Loader) -> None:
+    def __init__(self, items: Loader, container: str | None = None) -> None:
         self.items: Final = items
+        self.container: Final = container
 
     def load(
         self,
@@ -102,6 +103,10 @@ class _ArrayLoader(Loader):
                 f"Value is a {convert_typing(extract_type(type(doc)))}, "
                 f"but valid type for this field is an array."
             )
+        if self.container is not None:
+            loadingOptions = LoadingOptions(
+                copyfrom=loadingOptions, container=self.container
+            )
         r: Final[list[Any]] = []
         errors: Final[list[SchemaSaladException]] = []
         fields: Final[list[str]] = []
@@ -22434,7 +22439,7 @@ union_of_None_type_or_CWLObjectTypeLoader: Final = _UnionLoader(
     )
 )
 array_of_union_of_None_type_or_CWLObjectTypeLoader: Final = _ArrayLoader(
-    union_of_None_type_or_CWLObjectTypeLoader
+    union_of_None_type_or_CWLObjectTypeLoader, "@list"
 )
 map_of_union_of_None_type_or_CWLObjectTypeLoader: Final = _MapLoader(
     union_of_None_type_or_CWLObjectTypeLoader, "CWLInputFile", "@list", True
diff --git a/src/cwl_utils/parser/cwl_v1_1.py b/src/cwl_utils/parser/cwl_v1_1.py
index 0057de1..6fb61c9 100644
--- a/src/cwl_utils/parser/cwl_v1_1.py
+++ b/src/cwl_utils/parser/cwl_v1_1.py
@@ -86,8 +86,9 @@ class _PrimitiveLoader(Loader):
 
 
 class _ArrayLoader(Loader):
-    def __init__(self, items: Loader) -> None:
+    def __init__(self, items: Loader, container: str | None = None) -> None:
         self.items: Final = items
+        self.container: Final = container
 
     def load(
         self,
@@ -102,6 +103,10 @@ class _ArrayLoader(Loader):
                 f"Value is a {convert_typing(extract_type(type(doc)))}, "
                 f"but valid type for this field is an array."
             )
+        if self.container is not None:
+            loadingOptions = LoadingOptions(
+                copyfrom=loadingOptions, container=self.container
+            )
         r: Final[list[Any]] = []
         errors: Final[list[SchemaSaladException]] = []
         fields: Final[list[str]] = []
@@ -24426,7 +24431,7 @@ union_of_None_type_or_CWLObjectTypeLoader: Final = _UnionLoader(
     )
 )
 array_of_union_of_None_type_or_CWLObjectTypeLoader: Final = _ArrayLoader(
-    union_of_None_type_or_CWLObjectTypeLoader
+    union_of_None_type_or_CWLObjectTypeLoader, "@list"
 )
 map_of_union_of_None_type_or_CWLObjectTypeLoader: Final = _MapLoader(
     union_of_None_type_or_CWLObjectTypeLoader, "None", None, None
diff --git a/src/cwl_utils/parser/cwl_v1_2.py b/src/cwl_utils/parser/cwl_v1_2.py
index b8fc528..f84bc4a 100644
--- a/src/cwl_utils/parser/cwl_v1_2.py
+++ b/src/cwl_utils/parser/cwl_v1_2.py
@@ -86,8 +86,9 @@ class _PrimitiveLoader(Loader):
 
 
 class _ArrayLoader(Loader):
-    def __init__(self, items: Loader) -> None:
+    def __init__(self, items: Loader, container: str | None = None) -> None:
         self.items: Final = items
+        self.container: Final = container
 
     def load(
         self,
@@ -102,6 +103,10 @@ class _ArrayLoader(Loader):
                 f"Value is a {convert_typing(extract_type(type(doc)))}, "
                 f"but valid type for this field is an array."
             )
+        if self.container is not None:
+            loadingOptions = LoadingOptions(
+                copyfrom=loadingOptions, container=self.container
+            )
         r: Final[list[Any]] = []
         errors: Final[list[SchemaSaladException]] = []
         fields: Final[list[str]] = []
@@ -27540,7 +27545,7 @@ union_of_None_type_or_CWLObjectTypeLoader: Final = _UnionLoader(
     )
 )
 array_of_union_of_None_type_or_CWLObjectTypeLoader: Final = _ArrayLoader(
-    union_of_None_type_or_CWLObjectTypeLoader
+    union_of_None_type_or_CWLObjectTypeLoader, "@list"
 )
 map_of_union_of_None_type_or_CWLObjectTypeLoader: Final = _MapLoader(
     union_of_None_type_or_CWLObjectTypeLoader, "None", None, None
-- 
2.43.0


From 9d398adccbc69bd9e79f43447b7b937a1dd59055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:16 +0000
Subject: [PATCH 26/78] fix: keep namespaces and schemas when loading one
 process of a graph

---
 src/cwl_utils/parser/__init__.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/cwl_utils/parser/__init__.py b/src/cwl_utils/parser/__init__.py
index e7fef0d..e9b6bd6 100644
--- a/src/cwl_utils/parser/__init__.py
+++ b/src/cwl_utils/parser/__init__.py
@@ -1,5 +1,6 @@
 # SPDX-License-Identifier: Apache-2.0
 
+import copy
 import os
 from abc import ABC
 from collections.abc import MutableMapping, MutableSequence
@@ -387,8 +388,12 @@ def load_document_by_yaml(
     """Load a CWL object from a YAML object."""
     version = cwl_version(yaml)
     if "$graph" in yaml and not load_all:
-        yaml = _get_id_from_graph(yaml, id_)
+        document = yaml
+        yaml = copy.copy(_get_id_from_graph(document, id_))
         yaml["cwlVersion"] = version
+        for directive in ("$base", "$namespaces", "$schemas"):
+            if directive in document and directive not in yaml:
+                yaml[directive] = document[directive]
     match version:
         case "v1.0":
             result = cwl_v1_0.load_document_by_yaml(yaml, uri, loadingOptions)
-- 
2.43.0


From cb86c20a703f38b8aa9b8119a2fc2124af266dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:16 +0000
Subject: [PATCH 27/78] fix: respect load_all when loading a serialized
 document

---
 src/cwl_utils/parser/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cwl_utils/parser/__init__.py b/src/cwl_utils/parser/__init__.py
index e9b6bd6..e42489c 100644
--- a/src/cwl_utils/parser/__init__.py
+++ b/src/cwl_utils/parser/__init__.py
@@ -362,7 +362,7 @@ def load_document(
     if baseuri is None:
         baseuri = schema_salad.runtime.file_uri(str(Path.cwd())) + "/"
     if isinstance(doc, str):
-        return load_document_by_string(doc, baseuri, loadingOptions, id_)
+        return load_document_by_string(doc, baseuri, loadingOptions, id_, load_all)
     return load_document_by_yaml(doc, baseuri, loadingOptions, id_, load_all)
 
 
-- 
2.43.0


From f9a63bb65d0ae1f138537450dea5abf1ee93677f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:16 +0000
Subject: [PATCH 28/78] fix: do not replace plus signs in the paths of
 documents by spaces

---
 src/cwl_utils/parser/__init__.py | 6 +++---
 src/cwl_utils/parser/utils.py    | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/cwl_utils/parser/__init__.py b/src/cwl_utils/parser/__init__.py
index e42489c..159e143 100644
--- a/src/cwl_utils/parser/__init__.py
+++ b/src/cwl_utils/parser/__init__.py
@@ -6,7 +6,7 @@ from abc import ABC
 from collections.abc import MutableMapping, MutableSequence
 from pathlib import Path
 from typing import Any, TypeAlias, cast
-from urllib.parse import unquote_plus, urlparse
+from urllib.parse import unquote, urlparse
 
 import schema_salad.metaschema
 import schema_salad.runtime
@@ -329,8 +329,8 @@ def load_document_by_uri(
         uri = urlparse(path)
         id_ = uri.fragment or None
         if not uri.scheme or uri.scheme == "file":
-            real_uri = Path(unquote_plus(uri.path)).resolve().as_uri()
-            base_uri = Path(unquote_plus(uri.path)).resolve().parent.as_uri()
+            real_uri = Path(unquote(uri.path)).resolve().as_uri()
+            base_uri = Path(unquote(uri.path)).resolve().parent.as_uri()
         else:
             real_uri = path
             base_uri = os.path.dirname(path)
diff --git a/src/cwl_utils/parser/utils.py b/src/cwl_utils/parser/utils.py
index 04b2f17..565f191 100644
--- a/src/cwl_utils/parser/utils.py
+++ b/src/cwl_utils/parser/utils.py
@@ -5,7 +5,7 @@ import logging
 from collections.abc import MutableSequence
 from pathlib import Path
 from typing import Any, cast, Literal
-from urllib.parse import unquote_plus, urlparse
+from urllib.parse import unquote, urlparse
 
 from schema_salad.exceptions import ValidationException
 from schema_salad.metaschema import ArraySchema, EnumSchema, RecordSchema
@@ -171,7 +171,7 @@ def load_inputfile_by_uri(
     if isinstance(path, str):
         uri = urlparse(path)
         if not uri.scheme or uri.scheme == "file":
-            real_path = Path(unquote_plus(uri.path)).resolve().as_uri()
+            real_path = Path(unquote(uri.path)).resolve().as_uri()
         else:
             real_path = path
     else:
-- 
2.43.0


From 485e2f6407319b8ea797c6510ac4acd8dac7735f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:16 +0000
Subject: [PATCH 29/78] fix: load the requested process when a Path has a
 fragment

---
 src/cwl_utils/parser/__init__.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/cwl_utils/parser/__init__.py b/src/cwl_utils/parser/__init__.py
index 159e143..d6d9275 100644
--- a/src/cwl_utils/parser/__init__.py
+++ b/src/cwl_utils/parser/__init__.py
@@ -335,9 +335,13 @@ def load_document_by_uri(
             real_uri = path
             base_uri = os.path.dirname(path)
     else:
-        real_uri = path.resolve().as_uri()
-        base_uri = path.resolve().parent.as_uri()
-        id_ = path.resolve().name.split("#")[1] if "#" in path.resolve().name else None
+        path = path.resolve()
+        id_ = None
+        if "#" in path.name and not path.exists():
+            name, _, id_ = path.name.partition("#")
+            path = path.with_name(name)
+        real_uri = path.as_uri()
+        base_uri = path.parent.as_uri()
 
     loadingOptions = LoadingOptions(
         fileuri=real_uri, baseuri=base_uri, copyfrom=loadingOptions
-- 
2.43.0


From b208e1b33cd94ca7a2d28e2b5db67dc5308ada2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:45 +0000
Subject: [PATCH 30/78] fix: do not take the fragment of a remote URI as part
 of the document's URI

---
 src/cwl_utils/parser/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cwl_utils/parser/__init__.py b/src/cwl_utils/parser/__init__.py
index d6d9275..300a9e6 100644
--- a/src/cwl_utils/parser/__init__.py
+++ b/src/cwl_utils/parser/__init__.py
@@ -6,7 +6,7 @@ from abc import ABC
 from collections.abc import MutableMapping, MutableSequence
 from pathlib import Path
 from typing import Any, TypeAlias, cast
-from urllib.parse import unquote, urlparse
+from urllib.parse import unquote, urldefrag, urlparse
 
 import schema_salad.metaschema
 import schema_salad.runtime
@@ -332,8 +332,8 @@ def load_document_by_uri(
             real_uri = Path(unquote(uri.path)).resolve().as_uri()
             base_uri = Path(unquote(uri.path)).resolve().parent.as_uri()
         else:
-            real_uri = path
-            base_uri = os.path.dirname(path)
+            real_uri = urldefrag(path).url
+            base_uri = os.path.dirname(real_uri)
     else:
         path = path.resolve()
         id_ = None
-- 
2.43.0


From 05c2caee72d6e19880d861d359b5adacd6a93ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:17 +0000
Subject: [PATCH 31/78] fix: do not cut the paths of documents at semicolons

---
 src/cwl_utils/parser/__init__.py | 4 ++--
 src/cwl_utils/parser/utils.py    | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/cwl_utils/parser/__init__.py b/src/cwl_utils/parser/__init__.py
index 300a9e6..7daeef8 100644
--- a/src/cwl_utils/parser/__init__.py
+++ b/src/cwl_utils/parser/__init__.py
@@ -6,7 +6,7 @@ from abc import ABC
 from collections.abc import MutableMapping, MutableSequence
 from pathlib import Path
 from typing import Any, TypeAlias, cast
-from urllib.parse import unquote, urldefrag, urlparse
+from urllib.parse import unquote, urldefrag, urlsplit
 
 import schema_salad.metaschema
 import schema_salad.runtime
@@ -326,7 +326,7 @@ def load_document_by_uri(
 ) -> Any:
     """Load a CWL object from a URI or a path."""
     if isinstance(path, str):
-        uri = urlparse(path)
+        uri = urlsplit(path)
         id_ = uri.fragment or None
         if not uri.scheme or uri.scheme == "file":
             real_uri = Path(unquote(uri.path)).resolve().as_uri()
diff --git a/src/cwl_utils/parser/utils.py b/src/cwl_utils/parser/utils.py
index 565f191..723d78f 100644
--- a/src/cwl_utils/parser/utils.py
+++ b/src/cwl_utils/parser/utils.py
@@ -5,7 +5,7 @@ import logging
 from collections.abc import MutableSequence
 from pathlib import Path
 from typing import Any, cast, Literal
-from urllib.parse import unquote, urlparse
+from urllib.parse import unquote, urlsplit
 
 from schema_salad.exceptions import ValidationException
 from schema_salad.metaschema import ArraySchema, EnumSchema, RecordSchema
@@ -169,7 +169,7 @@ def load_inputfile_by_uri(
 ) -> Any:
     """Load a CWL input file from a URI or a path."""
     if isinstance(path, str):
-        uri = urlparse(path)
+        uri = urlsplit(path)
         if not uri.scheme or uri.scheme == "file":
             real_path = Path(unquote(uri.path)).resolve().as_uri()
         else:
-- 
2.43.0


From 2290147b4d176a6109fef2cf9c3f16bec7639d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:23 +0000
Subject: [PATCH 32/78] fix: do not fail on a character that is cut off by the
 limit of loadContents

---
 src/cwl_utils/parser/cwl_v1_0_utils.py | 7 ++++++-
 src/cwl_utils/parser/cwl_v1_1_utils.py | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/cwl_utils/parser/cwl_v1_0_utils.py b/src/cwl_utils/parser/cwl_v1_0_utils.py
index dd648a4..9235e0b 100644
--- a/src/cwl_utils/parser/cwl_v1_0_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_0_utils.py
@@ -1,4 +1,5 @@
 # SPDX-License-Identifier: Apache-2.0
+import codecs
 import hashlib
 import logging
 from collections import namedtuple
@@ -174,7 +175,11 @@ def content_limit_respected_read(f: IO[bytes]) -> str:
 
     Truncate content for larger files.
     """
-    return content_limit_respected_read_bytes(f).decode("utf-8")
+    contents = content_limit_respected_read_bytes(f)
+    # A character that is cut off by the limit is dropped
+    return codecs.getincrementaldecoder("utf-8")().decode(
+        contents, final=len(contents) < CONTENT_LIMIT
+    )
 
 
 def convert_stdstreams_to_files(clt: cwl.CommandLineTool) -> None:
diff --git a/src/cwl_utils/parser/cwl_v1_1_utils.py b/src/cwl_utils/parser/cwl_v1_1_utils.py
index a13e6dd..37242a4 100644
--- a/src/cwl_utils/parser/cwl_v1_1_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_1_utils.py
@@ -1,4 +1,5 @@
 # SPDX-License-Identifier: Apache-2.0
+import codecs
 import hashlib
 import logging
 from collections import namedtuple
@@ -255,7 +256,11 @@ def content_limit_respected_read(f: IO[bytes]) -> str:
 
     Truncate content for larger files.
     """
-    return content_limit_respected_read_bytes(f).decode("utf-8")
+    contents = content_limit_respected_read_bytes(f)
+    # A character that is cut off by the limit is dropped
+    return codecs.getincrementaldecoder("utf-8")().decode(
+        contents, final=len(contents) < CONTENT_LIMIT
+    )
 
 
 def convert_stdstreams_to_files(clt: cwl.CommandLineTool) -> None:
-- 
2.43.0


From 021d14a6b897fef040e1b8c07e9de6e445823996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:23 +0000
Subject: [PATCH 33/78] fix: reference stdin inputs whose id is not an
 identifier correctly

---
 src/cwl_utils/parser/cwl_v1_1_utils.py | 6 ++++--
 src/cwl_utils/parser/cwl_v1_2_utils.py | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/cwl_utils/parser/cwl_v1_1_utils.py b/src/cwl_utils/parser/cwl_v1_1_utils.py
index 37242a4..cff5d14 100644
--- a/src/cwl_utils/parser/cwl_v1_1_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_1_utils.py
@@ -299,9 +299,11 @@ def convert_stdstreams_to_files(clt: cwl.CommandLineTool) -> None:
                     "Not allowed to specify stdin path when using stdin type shortcut."
                 )
             else:
+                inp_name = cast(str, inp.id).rpartition("#")[2].split("/")[-1]
                 clt.stdin = (
-                    "$(inputs.%s.path)"
-                    % cast(str, inp.id).rpartition("#")[2].split("/")[-1]
+                    f"$(inputs.{inp_name}.path)"
+                    if inp_name.isidentifier()
+                    else f'$(inputs["{inp_name}"].path)'
                 )
                 inp.type_ = "File"
 
diff --git a/src/cwl_utils/parser/cwl_v1_2_utils.py b/src/cwl_utils/parser/cwl_v1_2_utils.py
index dc61bf9..4b574fb 100644
--- a/src/cwl_utils/parser/cwl_v1_2_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_2_utils.py
@@ -301,9 +301,11 @@ def convert_stdstreams_to_files(clt: cwl.CommandLineTool) -> None:
                     "Not allowed to specify stdin path when using stdin type shortcut."
                 )
             else:
+                inp_name = cast(str, inp.id).rpartition("#")[2].split("/")[-1]
                 clt.stdin = (
-                    "$(inputs.%s.path)"
-                    % cast(str, inp.id).rpartition("#")[2].split("/")[-1]
+                    f"$(inputs.{inp_name}.path)"
+                    if inp_name.isidentifier()
+                    else f'$(inputs["{inp_name}"].path)'
                 )
                 inp.type_ = "File"
 
-- 
2.43.0


From e0562743bb19afce32cbb03fc00865fe8e8974cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:38 +0000
Subject: [PATCH 34/78] fix: accept parsed YAML with File literals in
 load_inputfile

---
 src/cwl_utils/parser/cwl_v1_0_utils.py | 2 ++
 src/cwl_utils/parser/cwl_v1_1_utils.py | 2 ++
 src/cwl_utils/parser/cwl_v1_2_utils.py | 2 ++
 3 files changed, 6 insertions(+)

diff --git a/src/cwl_utils/parser/cwl_v1_0_utils.py b/src/cwl_utils/parser/cwl_v1_0_utils.py
index 9235e0b..5d53bc6 100644
--- a/src/cwl_utils/parser/cwl_v1_0_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_0_utils.py
@@ -217,6 +217,8 @@ def load_inputfile(
     """Load a CWL v1.0 input file from a serialized YAML string or a YAML object."""
     if baseuri is None:
         baseuri = file_uri(str(Path.cwd())) + "/"
+    if not isinstance(doc, str):
+        add_lc_filename(doc, baseuri)
     if loadingOptions is None:
         loadingOptions = LoadingOptions()
 
diff --git a/src/cwl_utils/parser/cwl_v1_1_utils.py b/src/cwl_utils/parser/cwl_v1_1_utils.py
index cff5d14..9be1a0a 100644
--- a/src/cwl_utils/parser/cwl_v1_1_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_1_utils.py
@@ -316,6 +316,8 @@ def load_inputfile(
     """Load a CWL v1.1 input file from a serialized YAML string or a YAML object."""
     if baseuri is None:
         baseuri = file_uri(str(Path.cwd())) + "/"
+    if not isinstance(doc, str):
+        add_lc_filename(doc, baseuri)
     if loadingOptions is None:
         loadingOptions = LoadingOptions()
 
diff --git a/src/cwl_utils/parser/cwl_v1_2_utils.py b/src/cwl_utils/parser/cwl_v1_2_utils.py
index 4b574fb..14bda9d 100644
--- a/src/cwl_utils/parser/cwl_v1_2_utils.py
+++ b/src/cwl_utils/parser/cwl_v1_2_utils.py
@@ -318,6 +318,8 @@ def load_inputfile(
     """Load a CWL v1.2 input file from a serialized YAML string or a YAML object."""
     if baseuri is None:
         baseuri = file_uri(str(Path.cwd())) + "/"
+    if not isinstance(doc, str):
+        add_lc_filename(doc, baseuri)
     if loadingOptions is None:
         loadingOptions = LoadingOptions()
 
-- 
2.43.0


From 4f5164f17a7e9f036f9e5966d45119933cf6a7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:38 +0000
Subject: [PATCH 35/78] fix: accept lists of values that have equal id fields

---
 src/cwl_utils/parser/cwl_v1_0.py | 2 +-
 src/cwl_utils/parser/cwl_v1_1.py | 2 +-
 src/cwl_utils/parser/cwl_v1_2.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cwl_utils/parser/cwl_v1_0.py b/src/cwl_utils/parser/cwl_v1_0.py
index 700aabc..f8f0d4c 100644
--- a/src/cwl_utils/parser/cwl_v1_0.py
+++ b/src/cwl_utils/parser/cwl_v1_0.py
@@ -121,7 +121,7 @@ class _ArrayLoader(Loader):
                 else:
                     r.append(lf)
 
-                if isinstance(doc[i], CommentedMap):
+                if flatten and isinstance(doc[i], CommentedMap):
                     if doc[i].get("id") is not None:
                         if doc[i].get("id") in fields:
                             errors.append(
diff --git a/src/cwl_utils/parser/cwl_v1_1.py b/src/cwl_utils/parser/cwl_v1_1.py
index 6fb61c9..a58f181 100644
--- a/src/cwl_utils/parser/cwl_v1_1.py
+++ b/src/cwl_utils/parser/cwl_v1_1.py
@@ -121,7 +121,7 @@ class _ArrayLoader(Loader):
                 else:
                     r.append(lf)
 
-                if isinstance(doc[i], CommentedMap):
+                if flatten and isinstance(doc[i], CommentedMap):
                     if doc[i].get("id") is not None:
                         if doc[i].get("id") in fields:
                             errors.append(
diff --git a/src/cwl_utils/parser/cwl_v1_2.py b/src/cwl_utils/parser/cwl_v1_2.py
index f84bc4a..b68be52 100644
--- a/src/cwl_utils/parser/cwl_v1_2.py
+++ b/src/cwl_utils/parser/cwl_v1_2.py
@@ -121,7 +121,7 @@ class _ArrayLoader(Loader):
                 else:
                     r.append(lf)
 
-                if isinstance(doc[i], CommentedMap):
+                if flatten and isinstance(doc[i], CommentedMap):
                     if doc[i].get("id") is not None:
                         if doc[i].get("id") in fields:
                             errors.append(
-- 
2.43.0


From 5479152b8e6f4ce602c190e35826810a06ae437f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:22 +0000
Subject: [PATCH 36/78] fix: do not resolve blank node identifiers as fragments
 of the document

---
 src/cwl_utils/parser/cwl_v1_0.py | 2 +-
 src/cwl_utils/parser/cwl_v1_1.py | 2 +-
 src/cwl_utils/parser/cwl_v1_2.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cwl_utils/parser/cwl_v1_0.py b/src/cwl_utils/parser/cwl_v1_0.py
index f8f0d4c..3993dc9 100644
--- a/src/cwl_utils/parser/cwl_v1_0.py
+++ b/src/cwl_utils/parser/cwl_v1_0.py
@@ -766,7 +766,7 @@ def _expand_url(
     vocab_term: bool = False,
     scoped_ref: int | None = None,
 ) -> str:
-    if url in ("@id", "@type"):
+    if url in ("@id", "@type") or url.startswith("_:"):
         return url
 
     vocab = _vocab | loadingOptions.vocab
diff --git a/src/cwl_utils/parser/cwl_v1_1.py b/src/cwl_utils/parser/cwl_v1_1.py
index a58f181..794fa11 100644
--- a/src/cwl_utils/parser/cwl_v1_1.py
+++ b/src/cwl_utils/parser/cwl_v1_1.py
@@ -766,7 +766,7 @@ def _expand_url(
     vocab_term: bool = False,
     scoped_ref: int | None = None,
 ) -> str:
-    if url in ("@id", "@type"):
+    if url in ("@id", "@type") or url.startswith("_:"):
         return url
 
     vocab = _vocab | loadingOptions.vocab
diff --git a/src/cwl_utils/parser/cwl_v1_2.py b/src/cwl_utils/parser/cwl_v1_2.py
index b68be52..9b9b2d8 100644
--- a/src/cwl_utils/parser/cwl_v1_2.py
+++ b/src/cwl_utils/parser/cwl_v1_2.py
@@ -766,7 +766,7 @@ def _expand_url(
     vocab_term: bool = False,
     scoped_ref: int | None = None,
 ) -> str:
-    if url in ("@id", "@type"):
+    if url in ("@id", "@type") or url.startswith("_:"):
         return url
 
     vocab = _vocab | loadingOptions.vocab
-- 
2.43.0


From 487039cb1f6297ef45aeee414e85d029d5a7df4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:22 +0000
Subject: [PATCH 37/78] fix: save relative references in a form that resolves
 to the same object

---
 src/cwl_utils/parser/cwl_v1_0.py | 207 ++++++++++++++-----------
 src/cwl_utils/parser/cwl_v1_1.py | 221 ++++++++++++++++-----------
 src/cwl_utils/parser/cwl_v1_2.py | 251 ++++++++++++++++++-------------
 3 files changed, 395 insertions(+), 284 deletions(-)

diff --git a/src/cwl_utils/parser/cwl_v1_0.py b/src/cwl_utils/parser/cwl_v1_0.py
index 3993dc9..b2fe8a7 100644
--- a/src/cwl_utils/parser/cwl_v1_0.py
+++ b/src/cwl_utils/parser/cwl_v1_0.py
@@ -826,6 +826,43 @@ def _expand_url(
     return url
 
 
+def _save_relative_uri(
+    uri: Any,
+    base_url: str,
+    scoped_id: bool,
+    ref_scope: int | None,
+    relative_uris: bool,
+) -> Any:
+    """Convert any URI to a relative one that _expand_url() resolves to the same URI."""
+    if isinstance(uri, MutableSequence):
+        return [_save_relative_uri(u, base_url, scoped_id, ref_scope, relative_uris) for u in uri]
+    if not isinstance(uri, str) or not relative_uris or uri == base_url:
+        return save_relative_uri(uri, base_url, scoped_id, ref_scope, relative_uris)
+    if uri.startswith("_:"):
+        return uri
+    urisplit: Final = urlsplit(uri)
+    basesplit: Final = urlsplit(base_url)
+    if (
+        not urisplit.fragment
+        or urisplit.scheme != basesplit.scheme
+        or urisplit.netloc != basesplit.netloc
+        or urisplit.path != basesplit.path
+    ):
+        return save_relative_uri(uri, base_url, scoped_id, ref_scope, relative_uris)
+
+    if scoped_id:
+        scope = basesplit.fragment
+    elif ref_scope is not None:
+        scope = "/".join(basesplit.fragment.split("/")[: -ref_scope or None])
+    else:
+        return "#" + urisplit.fragment
+    if scope == "":
+        return urisplit.fragment
+    if urisplit.fragment.startswith(scope + "/"):
+        return urisplit.fragment[len(scope) + 1 :]
+    return "#" + urisplit.fragment
+
+
 def _load_field(
     val: Any | None,
     fieldtype: Loader,
@@ -1040,7 +1077,7 @@ class CWLArraySchema(schema_salad.metaschema.ArraySchema):
             for ef in self.extension_fields:
                 r[ef] = self.extension_fields[ef]
         if self.items is not None:
-            u = save_relative_uri(self.items, base_url, False, 2, relative_uris)
+            u = _save_relative_uri(self.items, base_url, False, 2, relative_uris)
             r["items"] = u
         if self.type_ is not None:
             r["type"] = save(
@@ -1304,7 +1341,7 @@ class CWLRecordField(schema_salad.metaschema.RecordField):
             for ef in self.extension_fields:
                 r[ef] = self.extension_fields[ef]
         if self.name is not None:
-            u = save_relative_uri(self.name, base_url, True, None, relative_uris)
+            u = _save_relative_uri(self.name, base_url, True, None, relative_uris)
             r["name"] = u
         if self.doc is not None:
             r["doc"] = save(
@@ -2234,13 +2271,13 @@ class File(Saveable):
                 uri = f"{p}:{self.class_}"
             else:
                 uri = self.class_
-            u = save_relative_uri(uri, base_url, False, None, relative_uris)
+            u = _save_relative_uri(uri, base_url, False, None, relative_uris)
             r["class"] = u
         if self.location is not None:
-            u = save_relative_uri(self.location, base_url, False, None, relative_uris)
+            u = _save_relative_uri(self.location, base_url, False, None, relative_uris)
             r["location"] = u
         if self.path is not None:
-            u = save_relative_uri(self.path, base_url, False, None, relative_uris)
+            u = _save_relative_uri(self.path, base_url, False, None, relative_uris)
             r["path"] = u
         if self.basename is not None:
             r["basename"] = save(
@@ -2274,7 +2311,7 @@ class File(Saveable):
                 relative_uris=relative_uris,
             )
         if self.format is not None:
-            u = save_relative_uri(self.format, base_url, True, None, relative_uris)
+            u = _save_relative_uri(self.format, base_url, True, None, relative_uris)
             r["format"] = u
         if self.contents is not None:
             r["contents"] = save(
@@ -2642,13 +2679,13 @@ class Directory(Saveable):
                 uri = f"{p}:{self.class_}"
             else:
                 uri = self.class_
-            u = save_relative_uri(uri, base_url, False, None, relative_uris)
+            u = _save_relative_uri(uri, base_url, False, None, relative_uris)
             r["class"] = u
         if self.location is not None:
-            u = save_relative_uri(self.location, base_url, False, None, relative_uris)
+            u = _save_relative_uri(self.location, base_url, False, None, relative_uris)
             r["location"] = u
         if self.path is not None:
-            u = save_relative_uri(self.path, base_url, False, None, relative_uris)
+            u = _save_relative_uri(self.path, base_url, False, None, relative_uris)
             r["path"] = u
         if self.basename is not None:
             r["basename"] = save(
@@ -3049,7 +3086,7 @@ class InputRecordField(CWLRecordField):
             for ef in self.extension_fields:
                 r[ef] = self.extension_fields[ef]
         if self.name is not None:
-            u = save_relative_uri(self.name, base_url, True, None, relative_uris)
+            u = _save_relative_uri(self.name, base_url, True, None, relative_uris)
             r["name"] = u
         if self.doc is not None:
             r["doc"] = save(
@@ -3381,7 +3418,7 @@ class InputRecordSchema(CWLRecordSchema, InputSchema):
             for ef in self.extension_fields:
                 r[ef] = self.extension_fields[ef]
         if self.name is not None:
-            u = save_relative_uri(self.name, base_url, True, None, relative_uris)
+            u = _save_relative_uri(self.name, base_url, True, None, relative_uris)
             r["name"] = u
         if self.fields is not None:
             r["fields"] = save(
@@ -3758,10 +3795,10 @@ class InputEnumSchema(schema_salad.metaschema.EnumSchema, InputSchema):
             for ef in self.extension_fields:
                 r[ef] = self.extension_fields[ef]
         if self.name is not None:
-            u = save_relative_uri(self.name, base_url, True, None, relative_uris)
+            u = _save_relative_uri(self.name, base_url, True, None, relative_uris)
             r["name"] = u
         if self.symbols is not None:
-            u = save_relative_uri(self.symbols, self.name, True, None, relative_uris)
+            u = _save_relative_uri(self.symbols, self.name, True, None, relative_uris)
             r["symbols"] = u
         if self.type_ is not None:
             r["type"] = save(
@@ -4078,7 +4115,7 @@ class InputArraySchema(CWLArraySchema, InputSchema):
             for ef in self.extension_fields:
                 r[ef] = self.extension_fields[ef]
         if self.items is not None:
-            u = save_relative_uri(self.items, base_url, False, 2, relative_uris)
+            u = _save_relative_uri(self.items, base_url, False, 2, relative_uris)
             r["items"] = u
         if self.type_ is not None:
             r["type"] = save(
@@ -4406,7 +4443,7 @@ class OutputRecordField(CWLRecordField):
             for ef in self.extension_fields:
                 r[ef] = self.extension_fields[ef]
         if self.name is not None:
-            u = save_relative_uri(self.name, base_url, True, None, relative_uris)
+            u = _save_relative_uri(self.name, base_url, True, None, relative_uris)
             r["name"] = u
         if self.doc is not None:
             r["doc"] = save(
@@ -5045,10 +5082,10 @@ class OutputEnumSchema(schema_salad.metaschema.EnumSchema, OutputSchema):
             for ef in self.extension_fields:
                 r[ef] = self.extension_fields[ef]
         if self.name is not None:
-            u = save_relative_uri(self.name, base_url, True, None, relative_uris)
+            u = _save_relative_uri(self.name, base_url, True, None, relative_uris)
             r["name"] = u
         if self.symbols is not None:
-            u = save_relative_uri(self.symbols, self.name, True, None, relative_uris)
+            u = _save_relative_uri(self.symbols, self.name, True, None, relative_uris)
             r["symbols"] = u
         if self.type_ is not None:
             r["type"] = save(
@@ -5365,7 +5402,7 @@ class OutputArraySchema(CWLArraySchema, OutputSchema):
             for ef in self.extension_fields:
                 r[ef] = self.extension_fields[ef]
         if self.items is not None:
-            u = save_relative_uri(self.items, base_url, False, 2, relative_uris)
+            u = _save_relative_uri(self.items, base_url, False, 2, relative_uris)
             r["items"] = u
         if self.type_ is not None:
             r["type"] = save(
@@ -5959,7 +5996,7 @@ class InputParameter(Parameter):
             for ef in self.extension_fields:
                 r[ef] = self.extension_fields[ef]
         if self.id is not None:
-            u = save_relative_uri(self.id, base_url, True, None, relative_uris)
+            u = _save_relative_uri(self.id, base_url, True, None, relative_uris)
             r["id"] = u
         if self.label is not None:
             r["label"] = save(
@@ -5984,7 +6021,7 @@ class InputParameter(Parameter):
                 self.doc, top=False, base_url=self.id, relative_uris=relative_uris
             )
         if self.format is not None:
-            u = save_relative_uri(self.format, self.id, True, None, relative_uris)
+            u = _save_relative_uri(self.format, self.id, True, None, relative_uris)
             r["format"] = u
         if self.inputBinding is not None:
             r["inputBinding"] = save(
@@ -6484,7 +6521,7 @@ class OutputParameter(Parameter):
             for ef in self.extension_fields:
                 r[ef] = self.extension_fields[ef]
         if self.id is not None:
-            u = save_relative_uri(self.id, base_url, True, None, relative_uris)
+            u = _save_relative_uri(self.id, base_url, True, None, relative_uris)
             r["id"] = u
         if self.label is not None:
             r["label"] = save(
@@ -6516,7 +6553,7 @@ class OutputParameter(Parameter):
                 relative_uris=relative_uris,
             )
         if self.format is not None:
-            u = save_relative_uri(self.format, self.id, True, None, relative_uris)
+            u = _save_relative_uri(self.format, self.id, True, None, relative_uris)
             r["format"] = u
 
         # top refers to the directory level
@@ -6722,7 +6759,7 @@ class InlineJavascriptRequirement(ProcessRequirement):
                 uri = f"{p}:{self.class_}"
             else:
                 uri = self.class_
-            u = save_relative_uri(uri, base_url, False, None, relative_uris)
+            u = _save_relative_uri(uri, base_url, False, None, relative_uris)
             r["class"] = u
         if self.expressionLib is not None:
             r["expressionLib"] = save(
@@ -6903,7 +6940,7 @@ class SchemaDefRequirement(ProcessRequirement):
                 uri = f"{p}:{self.class_}"
             else:
                 uri = self.class_
-            u = save_relative_uri(uri, base_url, False, None, relative_uris)
+            u = _save_relative_uri(uri, base_url, False, None, relative_uris)
             r["class"] = u
         if self.types is not None:
             r["types"] = save(
@@ -8281,7 +8318,7 @@ class CommandInputRecordField(InputRecordField):
             for ef in self.extension_fields:
                 r[ef] = self.extension_fields[ef]
         if self.name is not None:
-            u = save_relative_uri(self.name, base_url, True, None, relative_uris)
+            u = _save_relative_uri(self.name, base_url, True, None, relative_uris)
             r["name"] = u
         if self.doc is not None:
             r["doc"] = save(
@@ -8613,7 +8650,7 @@ class CommandInputRecordSchema(InputRecordSchema):
             for ef in self.extension_fields:
                 r[ef] = self.extension_fields[ef]
         if self.name is not None:
-            u = save_relative_uri(self.name, base_url, True, None, relative_uris)
+            u = _save_relative_uri(self.name, base_url, True, None, relative_uris)
             r["name"] = u
         if self.fields is not None:
             r["fields"] = save(
@@ -8990,10 +9027,10 @@ class CommandInputEnumSchema(InputEnumSchema):
             for ef in self.extension_fields:
                 r[ef] = self.extension_fields[ef]
         if self.name is not None:
-            u = save_relative_uri(self.name, base_url, True, None, relative_uris)
+            u = _save_relative_uri(self.name, base_url, True, None, relative_uris)
             r["name"] = u
         if self.symbols is not None:
-            u = save_relative_uri(self.symbols, self.name, True, None, relative_uris)
+            u = _save_relative_uri(self.symbols, self.name, True, None, relative_uris)
             r["symbols"] = u
         if self.type_ is not None:
             r["type"] = save(
@@ -9310,7 +9347,7 @@ class CommandInputArraySchema(InputArraySchema):
             for ef in self.extension_fields:
                 r[ef] = self.extension_fields[ef]
         if self.items is not None:
-            u = save_relative_uri(self.items, base_url, False, 2, relative_uris)
+            u = _save_relative_uri(self.items, base_url, False, 2, relative_uris)
             r["items"] = u
         if self.type_ is not None:
             r["type"] = save(
@@ -9638,7 +9675,7 @@ class CommandOutputRecordField(OutputRecordField):
             for ef in self.extension_fields:
                 r[ef] = self.extension_fields[ef]
         if self.name is not None:
-            u = save_relative_uri(self.name, base_url, True, None, relative_uris)
+            u = _save_relative_uri(self.name, base_url, True, None, relative_uris)
             r["name"] = u
         if self.doc is not None:
             r["doc"] = save(
@@ -9966,7 +10003,7 @@ class CommandOutputRecordSchema(OutputRecordSchema):
             for ef in self.extension_fields:
                 r[ef] = self.extension_fields[ef]
         if self.name is not None:
-            u = save_relative_uri(self.name, base_url, True, None, relative_uris)
+            u = _save_relative_uri(self.name, base_url, True, None, relative_uris)
             r["name"] = u
         if self.fields is not None:
             r["fields"] = save(
@@ -10343,10 +10380,10 @@ class CommandOutputEnumSchema(OutputEnumSchema):
             for ef in self.extension_fields:
                 r[ef] = self.extension_fields[ef]
         if self.name is not None:
-            u = save_relative_uri(self.name, base_url, True, None, relative_uris)
+            u = _save_relative_uri(self.name, base_url, True, None, relative_uris)
             r["name"] = u
         if self.symbols is not None:
-            u = save_relative_uri(self.symbols, self.name, True, None, relative_uris)
+            u = _save_relative_uri(self.symbols, self.name, True, None, relative_uris)
             r["symbols"] = u
         if self.type_ is not None:
             r["type"] = save(
@@ -10663,7 +10700,7 @@ class CommandOutputArraySchema(OutputArraySchema):
             for ef in self.extension_fields:
                 r[ef] = self.extension_fields[ef]
         if self.items is not None:
-            u = save_relative_uri(self.items, base_url, False, 2, relative_uris)
+            u = _save_relative_uri(self.items, base_url, False, 2, relative_uris)
             r["items"] = u
         if self.type_ is not None:
             r["type"] = save(
@@ -11262,7 +11299,7 @@ class CommandInputParameter(InputParameter):
             for ef in self.extension_fields:
                 r[ef] = self.extension_fields[ef]
         if self.id is not None:
-            u = save_relative_uri(self.id, base_url, True, None, relative_uris)
+            u = _save_relative_uri(self.id, base_url, True, None, relative_uris)
             r["id"] = u
         if self.label is not None:
             r["label"] = save(
@@ -11287,7 +11324,7 @@ class CommandInputParameter(InputParameter):
                 self.doc, top=False, base_url=self.id, relative_uris=relative_uris
             )
         if self.format is not None:
-            u = save_relative_uri(self.format, self.id, True, None, relative_uris)
+            u = _save_relative_uri(self.format, self.id, True, None, relative_uris)
             r["format"] = u
         if self.inputBinding is not None:
             r["inputBinding"] = save(
@@ -11844,7 +11881,7 @@ class CommandOutputParameter(OutputParameter):
             for ef in self.extension_fields:
                 r[ef] = self.extension_fields[ef]
         if self.id is not None:
-            u = save_relative_uri(self.id, base_url, True, None, relative_uris)
+            u = _save_relative_uri(self.id, base_url, True, None, relative_uris)
             r["id"] = u
         if self.label is not None:
             r["label"] = save(
@@ -11876,7 +11913,7 @@ class CommandOutputParameter(OutputParameter):
                 relative_uris=relative_uris,
             )
         if self.format is not None:
-            u = save_relative_uri(self.format, self.id, True, None, relative_uris)
+            u = _save_relative_uri(self.format, self.id, True, None, relative_uris)
             r["format"] = u
         if self.type_ is not None:
             r["type"] = save(
@@ -12859,7 +12896,7 @@ class CommandLineTool(Process):
             for ef in self.extension_fields:
                 r[ef] = self.extension_fields[ef]
         if self.id is not None:
-            u = save_relative_uri(self.id, base_url, True, None, relative_uris)
+            u = _save_relative_uri(self.id, base_url, True, None, relative_uris)
             r["id"] = u
         if self.class_ is not None:
             vocab = _vocab | self.loadingOptions.vocab
@@ -12869,7 +12906,7 @@ class CommandLineTool(Process):
                 uri = f"{p}:{self.class_}"
             else:
                 uri = self.class_
-            u = save_relative_uri(uri, self.id, False, None, relative_uris)
+            u = _save_relative_uri(uri, self.id, False, None, relative_uris)
             r["class"] = u
         if self.inputs is not None:
             r["inputs"] = save(
@@ -12899,7 +12936,7 @@ class CommandLineTool(Process):
                 self.doc, top=False, base_url=self.id, relative_uris=relative_uris
             )
         if self.cwlVersion is not None:
-            u = save_relative_uri(self.cwlVersion, self.id, False, None, relative_uris)
+            u = _save_relative_uri(self.cwlVersion, self.id, False, None, relative_uris)
             r["cwlVersion"] = u
         if self.baseCommand is not None:
             r["baseCommand"] = save(
@@ -13419,7 +13456,7 @@ class DockerRequirement(ProcessRequirement):
                 uri = f"{p}:{self.class_}"
             else:
                 uri = self.class_
-            u = save_relative_uri(uri, base_url, False, None, relative_uris)
+            u = _save_relative_uri(uri, base_url, False, None, relative_uris)
             r["class"] = u
         if self.dockerPull is not None:
             r["dockerPull"] = save(
@@ -13645,7 +13682,7 @@ class SoftwareRequirement(ProcessRequirement):
                 uri = f"{p}:{self.class_}"
             else:
                 uri = self.class_
-            u = save_relative_uri(uri, base_url, False, None, relative_uris)
+            u = _save_relative_uri(uri, base_url, False, None, relative_uris)
             r["class"] = u
         if self.packages is not None:
             r["packages"] = save(
@@ -13905,7 +13942,7 @@ class SoftwarePackage(Saveable):
                 self.version, top=False, base_url=base_url, relative_uris=relative_uris
             )
         if self.specs is not None:
-            u = save_relative_uri(self.specs, base_url, False, None, relative_uris)
+            u = _save_relative_uri(self.specs, base_url, False, None, relative_uris)
             r["specs"] = u
 
         # top refers to the directory level
@@ -14344,7 +14381,7 @@ class InitialWorkDirRequirement(ProcessRequirement):
                 uri = f"{p}:{self.class_}"
             else:
                 uri = self.class_
-            u = save_relative_uri(uri, base_url, False, None, relative_uris)
+            u = _save_relative_uri(uri, base_url, False, None, relative_uris)
             r["class"] = u
         if self.listing is not None:
             r["listing"] = save(
@@ -14522,7 +14559,7 @@ class EnvVarRequirement(ProcessRequirement):
                 uri = f"{p}:{self.class_}"
             else:
                 uri = self.class_
-            u = save_relative_uri(uri, base_url, False, None, relative_uris)
+            u = _save_relative_uri(uri, base_url, False, None, relative_uris)
             r["class"] = u
         if self.envDef is not None:
             r["envDef"] = save(
@@ -14647,7 +14684,7 @@ class ShellCommandRequirement(ProcessRequirement):
                 uri = f"{p}:{self.class_}"
             else:
                 uri = self.class_
-            u = save_relative_uri(uri, base_url, False, None, relative_uris)
+            u = _save_relative_uri(uri, base_url, False, None, relative_uris)
             r["class"] = u
 
         # top refers to the directory level
@@ -15204,7 +15241,7 @@ class ResourceRequirement(ProcessRequirement):
                 uri = f"{p}:{self.class_}"
             else:
                 uri = self.class_
-            u = save_relative_uri(uri, base_url, False, None, relative_uris)
+            u = _save_relative_uri(uri, base_url, False, None, relative_uris)
             r["class"] = u
         if self.coresMin is not None:
             r["coresMin"] = save(
@@ -15785,7 +15822,7 @@ class ExpressionToolOutputParameter(OutputParameter):
             for ef in self.extension_fields:
                 r[ef] = self.extension_fields[ef]
         if self.id is not None:
-            u = save_relative_uri(self.id, base_url, True, None, relative_uris)
+            u = _save_relative_uri(self.id, base_url, True, None, relative_uris)
             r["id"] = u
         if self.label is not None:
             r["label"] = save(
@@ -15817,7 +15854,7 @@ class ExpressionToolOutputParameter(OutputParameter):
                 relative_uris=relative_uris,
             )
         if self.format is not None:
-            u = save_relative_uri(self.format, self.id, True, None, relative_uris)
+            u = _save_relative_uri(self.format, self.id, True, None, relative_uris)
             r["format"] = u
         if self.type_ is not None:
             r["type"] = save(
@@ -16437,7 +16474,7 @@ class ExpressionTool(Process):
             for ef in self.extension_fields:
                 r[ef] = self.extension_fields[ef]
         if self.id is not None:
-            u = save_relative_uri(self.id, base_url, True, None, relative_uris)
+            u = _save_relative_uri(self.id, base_url, True, None, relative_uris)
             r["id"] = u
         if self.class_ is not None:
             vocab = _vocab | self.loadingOptions.vocab
@@ -16447,7 +16484,7 @@ class ExpressionTool(Process):
                 uri = f"{p}:{self.class_}"
             else:
                 uri = self.class_
-            u = save_relative_uri(uri, self.id, False, None, relative_uris)
+            u = _save_relative_uri(uri, self.id, False, None, relative_uris)
             r["class"] = u
         if self.inputs is not None:
             r["inputs"] = save(
@@ -16477,7 +16514,7 @@ class ExpressionTool(Process):
                 self.doc, top=False, base_url=self.id, relative_uris=relative_uris
             )
         if self.cwlVersion is not None:
-            u = save_relative_uri(self.cwlVersion, self.id, False, None, relative_uris)
+            u = _save_relative_uri(self.cwlVersion, self.id, False, None, relative_uris)
             r["cwlVersion"] = u
         if self.expression is not None:
             r["expression"] = save(
@@ -17131,7 +17168,7 @@ class WorkflowOutputParameter(OutputParameter):
             for ef in self.extension_fields:
                 r[ef] = self.extension_fields[ef]
         if self.id is not None:
-            u = save_relative_uri(self.id, base_url, True, None, relative_uris)
+            u = _save_relative_uri(self.id, base_url, True, None, relative_uris)
             r["id"] = u
         if self.label is not None:
             r["label"] = save(
@@ -17163,10 +17200,10 @@ class WorkflowOutputParameter(OutputParameter):
                 relative_uris=relative_uris,
             )
         if self.format is not None:
-            u = save_relative_uri(self.format, self.id, True, None, relative_uris)
+            u = _save_relative_uri(self.format, self.id, True, None, relative_uris)
             r["format"] = u
         if self.outputSource is not None:
-            u = save_relative_uri(self.outputSource, self.id, False, 1, relative_uris)
+            u = _save_relative_uri(self.outputSource, self.id, False, 1, relative_uris)
             r["outputSource"] = u
         if self.linkMerge is not None:
             r["linkMerge"] = save(
@@ -17580,10 +17617,10 @@ class WorkflowStepInput(Sink):
             for ef in self.extension_fields:
                 r[ef] = self.extension_fields[ef]
         if self.id is not None:
-            u = save_relative_uri(self.id, base_url, True, None, relative_uris)
+            u = _save_relative_uri(self.id, base_url, True, None, relative_uris)
             r["id"] = u
         if self.source is not None:
-            u = save_relative_uri(self.source, self.id, False, 2, relative_uris)
+            u = _save_relative_uri(self.source, self.id, False, 2, relative_uris)
             r["source"] = u
         if self.linkMerge is not None:
             r["linkMerge"] = save(
@@ -17755,7 +17792,7 @@ class WorkflowStepOutput(Saveable):
             for ef in self.extension_fields:
                 r[ef] = self.extension_fields[ef]
         if self.id is not None:
-            u = save_relative_uri(self.id, base_url, True, None, relative_uris)
+            u = _save_relative_uri(self.id, base_url, True, None, relative_uris)
             r["id"] = u
 
         # top refers to the directory level
@@ -18420,14 +18457,14 @@ class WorkflowStep(Saveable):
             for ef in self.extension_fields:
                 r[ef] = self.extension_fields[ef]
         if self.id is not None:
-            u = save_relative_uri(self.id, base_url, True, None, relative_uris)
+            u = _save_relative_uri(self.id, base_url, True, None, relative_uris)
             r["id"] = u
         if self.in_ is not None:
             r["in"] = save(
                 self.in_, top=False, base_url=self.id, relative_uris=relative_uris
             )
         if self.out is not None:
-            u = save_relative_uri(self.out, self.id, True, None, relative_uris)
+            u = _save_relative_uri(self.out, self.id, True, None, relative_uris)
             r["out"] = u
         if self.requirements is not None:
             r["requirements"] = save(
@@ -18449,13 +18486,13 @@ class WorkflowStep(Saveable):
                 self.doc, top=False, base_url=self.id, relative_uris=relative_uris
             )
         if self.run is not None:
-            u = save_relative_uri(self.run, self.id, False, None, relative_uris)
+            u = _save_relative_uri(self.run, self.id, False, None, relative_uris)
             r["run"] = u
         if self.scatter is not None:
-            u = save_relative_uri(self.scatter, self.id, False, 0, relative_uris)
+            u = _save_relative_uri(self.scatter, self.id, False, 0, relative_uris)
             r["scatter"] = u
         if self.scatterMethod is not None:
-            u = save_relative_uri(
+            u = _save_relative_uri(
                 self.scatterMethod, self.id, False, None, relative_uris
             )
             r["scatterMethod"] = u
@@ -19097,7 +19134,7 @@ class Workflow(Process):
             for ef in self.extension_fields:
                 r[ef] = self.extension_fields[ef]
         if self.id is not None:
-            u = save_relative_uri(self.id, base_url, True, None, relative_uris)
+            u = _save_relative_uri(self.id, base_url, True, None, relative_uris)
             r["id"] = u
         if self.class_ is not None:
             vocab = _vocab | self.loadingOptions.vocab
@@ -19107,7 +19144,7 @@ class Workflow(Process):
                 uri = f"{p}:{self.class_}"
             else:
                 uri = self.class_
-            u = save_relative_uri(uri, self.id, False, None, relative_uris)
+            u = _save_relative_uri(uri, self.id, False, None, relative_uris)
             r["class"] = u
         if self.inputs is not None:
             r["inputs"] = save(
@@ -19137,7 +19174,7 @@ class Workflow(Process):
                 self.doc, top=False, base_url=self.id, relative_uris=relative_uris
             )
         if self.cwlVersion is not None:
-            u = save_relative_uri(self.cwlVersion, self.id, False, None, relative_uris)
+            u = _save_relative_uri(self.cwlVersion, self.id, False, None, relative_uris)
             r["cwlVersion"] = u
         if self.steps is not None:
             r["steps"] = save(
@@ -19275,7 +19312,7 @@ class SubworkflowFeatureRequirement(ProcessRequirement):
                 uri = f"{p}:{self.class_}"
             else:
                 uri = self.class_
-            u = save_relative_uri(uri, base_url, False, None, relative_uris)
+            u = _save_relative_uri(uri, base_url, False, None, relative_uris)
             r["class"] = u
 
         # top refers to the directory level
@@ -19396,7 +19433,7 @@ class ScatterFeatureRequirement(ProcessRequirement):
                 uri = f"{p}:{self.class_}"
             else:
                 uri = self.class_
-            u = save_relative_uri(uri, base_url, False, None, relative_uris)
+            u = _save_relative_uri(uri, base_url, False, None, relative_uris)
             r["class"] = u
 
         # top refers to the directory level
@@ -19517,7 +19554,7 @@ class MultipleInputFeatureRequirement(ProcessRequirement):
                 uri = f"{p}:{self.class_}"
             else:
                 uri = self.class_
-            u = save_relative_uri(uri, base_url, False, None, relative_uris)
+            u = _save_relative_uri(uri, base_url, False, None, relative_uris)
             r["class"] = u
 
         # top refers to the directory level
@@ -19638,7 +19675,7 @@ class StepInputExpressionRequirement(ProcessRequirement):
                 uri = f"{p}:{self.class_}"
             else:
                 uri = self.class_
-            u = save_relative_uri(uri, base_url, False, None, relative_uris)
+            u = _save_relative_uri(uri, base_url, False, None, relative_uris)
             r["class"] = u
 
         # top refers to the directory level
@@ -19809,7 +19846,7 @@ class LoadListingRequirement(ProcessRequirement):
                 uri = f"{p}:{self.class_}"
             else:
                 uri = self.class_
-            u = save_relative_uri(uri, base_url, False, None, relative_uris)
+            u = _save_relative_uri(uri, base_url, False, None, relative_uris)
             r["class"] = u
         if self.loadListing is not None:
             r["loadListing"] = save(
@@ -19988,7 +20025,7 @@ class InplaceUpdateRequirement(ProcessRequirement):
                 uri = f"{p}:{self.class_}"
             else:
                 uri = self.class_
-            u = save_relative_uri(uri, base_url, False, None, relative_uris)
+            u = _save_relative_uri(uri, base_url, False, None, relative_uris)
             r["class"] = u
         if self.inplaceUpdate is not None:
             r["inplaceUpdate"] = save(
@@ -20164,10 +20201,10 @@ class Secrets(ProcessRequirement):
                 uri = f"{p}:{self.class_}"
             else:
                 uri = self.class_
-            u = save_relative_uri(uri, base_url, False, None, relative_uris)
+            u = _save_relative_uri(uri, base_url, False, None, relative_uris)
             r["class"] = u
         if self.secrets is not None:
-            u = save_relative_uri(self.secrets, base_url, False, 0, relative_uris)
+            u = _save_relative_uri(self.secrets, base_url, False, 0, relative_uris)
             r["secrets"] = u
 
         # top refers to the directory level
@@ -20343,7 +20380,7 @@ class TimeLimit(ProcessRequirement):
                 uri = f"{p}:{self.class_}"
             else:
                 uri = self.class_
-            u = save_relative_uri(uri, base_url, False, None, relative_uris)
+            u = _save_relative_uri(uri, base_url, False, None, relative_uris)
             r["class"] = u
         if self.timelimit is not None:
             r["timelimit"] = save(
@@ -20528,7 +20565,7 @@ class WorkReuse(ProcessRequirement):
                 uri = f"{p}:{self.class_}"
             else:
                 uri = self.class_
-            u = save_relative_uri(uri, base_url, False, None, relative_uris)
+            u = _save_relative_uri(uri, base_url, False, None, relative_uris)
             r["class"] = u
         if self.enableReuse is not None:
             r["enableReuse"] = save(
@@ -20718,7 +20755,7 @@ class NetworkAccess(ProcessRequirement):
                 uri = f"{p}:{self.class_}"
             else:
                 uri = self.class_
-            u = save_relative_uri(uri, base_url, False, None, relative_uris)
+            u = _save_relative_uri(uri, base_url, False, None, relative_uris)
             r["class"] = u
         if self.networkAccess is not None:
             r["networkAccess"] = save(
@@ -21325,7 +21362,7 @@ class ProcessGenerator(Process):
             for ef in self.extension_fields:
                 r[ef] = self.extension_fields[ef]
         if self.id is not None:
-            u = save_relative_uri(self.id, base_url, True, None, relative_uris)
+            u = _save_relative_uri(self.id, base_url, True, None, relative_uris)
             r["id"] = u
         if self.class_ is not None:
             vocab = _vocab | self.loadingOptions.vocab
@@ -21335,7 +21372,7 @@ class ProcessGenerator(Process):
                 uri = f"{p}:{self.class_}"
             else:
                 uri = self.class_
-            u = save_relative_uri(uri, self.id, False, None, relative_uris)
+            u = _save_relative_uri(uri, self.id, False, None, relative_uris)
             r["class"] = u
         if self.inputs is not None:
             r["inputs"] = save(
@@ -21365,10 +21402,10 @@ class ProcessGenerator(Process):
                 self.doc, top=False, base_url=self.id, relative_uris=relative_uris
             )
         if self.cwlVersion is not None:
-            u = save_relative_uri(self.cwlVersion, self.id, False, None, relative_uris)
+            u = _save_relative_uri(self.cwlVersion, self.id, False, None, relative_uris)
             r["cwlVersion"] = u
         if self.run is not None:
-            u = save_relative_uri(self.run, self.id, False, None, relative_uris)
+            u = _save_relative_uri(self.run, self.id, False, None, relative_uris)
             r["run"] = u
 
         # top refers to the directory level
@@ -21557,7 +21594,7 @@ class MPIRequirement(ProcessRequirement):
                 uri = f"{p}:{self.class_}"
             else:
                 uri = self.class_
-            u = save_relative_uri(uri, base_url, False, None, relative_uris)
+            u = _save_relative_uri(uri, base_url, False, None, relative_uris)
             r["class"] = u
         if self.processes is not None:
             r["processes"] = save(
@@ -21903,7 +21940,7 @@ class CUDARequirement(ProcessRequirement):
                 uri = f"{p}:{self.class_}"
             else:
                 uri = self.class_
-            u = save_relative_uri(uri, base_url, False, None, relative_uris)
+            u = _save_relative_uri(uri, base_url, False, None, relative_uris)
             r["class"] = u
         if self.cudaComputeCapability is not None:
             r["cudaComputeCapability"] = save(
@@ -22108,7 +22145,7 @@ class ShmSize(ProcessRequirement):
                 uri = f"{p}:{self.class_}"
             else:
                 uri = self.class_
-            u = save_relative_uri(uri, base_url, False, None, relative_uris)
+            u = _save_relative_uri(uri, base_url, False, None, relative_uris)
             r["class"] = u
         if self.shmSize is not None:
             r["shmSize"] = save(
diff --git a/src/cwl_utils/parser/cwl_v1_1.py b/src/cwl_utils/parser/cwl_v1_1.py
index 794fa11..a2f80a8 100644
--- a/src/cwl_utils/parser/cwl_v1_1.py
+++ b/src/cwl_utils/parser/cwl_v1_1.py
@@ -826,6 +826,43 @@ def _expand_url(
     return url
 
 
+def _save_relative_uri(
+    uri: Any,
+    base_url: str,
+    scoped_id: bool,
+    ref_scope: int | None,
+    relative_uris: bool,
+) -> Any:
+    """Convert any URI to a relative one that _expand_url() resolves to the same URI."""
+    if isinstance(uri, MutableSequence):
+        return [_save_relative_uri(u, base_url, scoped_id, ref_scope, relative_uris) for u in uri]
+    if not isinstance(uri, str) or not relative_uris or uri == base_url:
+        return save_relative_uri(uri, base_url, scoped_id, ref_scope, relative_uris)
+    if uri.startswith("_:"):
+        return uri
+    urisplit: Final = urlsplit(uri)
+    basesplit: Final = urlsplit(base_url)
+    if (
+        not urisplit.fragment
+        or urisplit.scheme != basesplit.scheme
+        or urisplit.netloc != basesplit.netloc
+        or urisplit.path != basesplit.path
+    ):
+        return save_relative_uri(uri, base_url, scoped_id, ref_scope, relative_uris)
+
+    if scoped_id:
+        scope = basesplit.fragment
+    elif ref_scope is not None:
+        scope = "/".join(basesplit.fragment.split("/")[: -ref_scope or None])
+    else:
+        return "#" + urisplit.fragment
+    if scope == "":
+        return urisplit.fragment
+    if urisplit.fragment.startswith(scope + "/"):
+        return urisplit.fragment[len(scope) + 1 :]
+    return "#" + urisplit.fragment
+
+
 def _load_field(
     val: Any | None,
     fieldtype: Loader,
@@ -1040,7 +1077,7 @@ class CWLArraySchema(schema_salad.metaschema.ArraySchema):
             for ef in self.extension_fields:
                 r[ef] = self.extension_fields[ef]
         if self.items is not None:
-            u = save_relative_uri(self.items, base_url, False, 2, relative_uris)
+            u = _save_relative_uri(self.items, base_url, False, 2, relative_uris)
             r["items"] = u
         if self.type_ is not None:
             r["type"] = save(
@@ -1304,7 +1341,7 @@ class CWLRecordField(schema_salad.metaschema.RecordField):
             for ef in self.extension_fields:
                 r[ef] = self.extension_fields[ef]
         if self.name is not None:
-            u = save_relative_uri(self.name, base_url, True, None, relative_uris)
+            u = _save_relative_uri(self.name, base_url, True, None, relative_uris)
             r["name"] = u
         if self.doc is not None:
             r["doc"] = save(
@@ -2234,13 +2271,13 @@ class File(Saveable):
                 uri = f"{p}:{self.class_}"
             else:
                 uri = self.class_
-            u = save_relative_uri(uri, base_url, False, None, relative_uris)
+            u = _save_relative_uri(uri, base_url, False, None, relative_uris)
             r["class"] = u
         if self.location is not None:
-            u = save_relative_uri(self.location, base_url, False, None, relative_uris)
+            u = _save_relative_uri(self.location, base_url, False, None, relative_uris)
             r["location"] = u
         if self.path is not None:
-            u = save_relative_uri(self.path, base_url, False, None, relative_uris)
+            u = _save_relative_uri(self.path, base_url, False, None, relative_uris)
             r["path"] = u
         if self.basename is not None:
             r["basename"] = save(
@@ -2274,7 +2311,7 @@ class File(Saveable):
                 relative_uris=relative_uris,
             )
         if self.format is not None:
-            u = save_relative_uri(self.format, base_url, True, None, relative_uris)
+            u = _save_relative_uri(self.format, base_url, True, None, relative_uris)
             r["format"] = u
         if self.contents is not None:
             r["contents"] = save(
@@ -2642,13 +2679,13 @@ class Directory(Saveable):
                 uri = f"{p}:{self.class_}"
             else:
                 uri = self.class_
-            u = save_relative_uri(uri, base_url, False, None, relative_uris)
+            u = _save_relative_uri(uri, base_url, False, None, relative_uris)
             r["class"] = u
         if self.location is not None:
-            u = save_relative_uri(self.location, base_url, False, None, relative_uris)
+            u = _save_relative_uri(self.location, base_url, False, None, relative_uris)
             r["location"] = u
         if self.path is not None:
-            u = save_relative_uri(self.path, base_url, False, None, relative_uris)
+            u = _save_relative_uri(self.path, base_url, False, None, relative_uris)
             r["path"] = u
         if self.basename is not None:
             r["basename"] = save(
@@ -3432,7 +3469,7 @@ class InputRecordField(CWLRecordField, FieldBase, InputFormat, LoadContents):
             for ef in self.extension_fields:
                 r[ef] = self.extension_fields[ef]
         if self.name is not None:
-            u = save_relative_uri(self.name, base_url, True, None, relative_uris)
+            u = _save_relative_uri(self.name, base_url, True, None, relative_uris)
             r["name"] = u
         if self.doc is not None:
             r["doc"] = save(
@@ -3461,7 +3498,7 @@ class InputRecordField(CWLRecordField, FieldBase, InputFormat, LoadContents):
                 relative_uris=relative_uris,
             )
         if self.format is not None:
-            u = save_relative_uri(self.format, self.name, True, None, relative_uris)
+            u = _save_relative_uri(self.format, self.name, True, None, relative_uris)
             r["format"] = u
         if self.loadContents is not None:
             r["loadContents"] = save(
@@ -3849,7 +3886,7 @@ class InputRecordSchema(CWLRecordSchema, InputSchema):
             for ef in self.extension_fields:
                 r[ef] = self.extension_fields[ef]
         if self.name is not None:
-            u = save_relative_uri(self.name, base_url, True, None, relative_uris)
+            u = _save_relative_uri(self.name, base_url, True, None, relative_uris)
             r["name"] = u
         if self.fields is not None:
             r["fields"] = save(
@@ -4230,10 +4267,10 @@ class InputEnumSchema(schema_salad.metaschema.EnumSchema, InputSchema):
             for ef in self.extension_fields:
                 r[ef] = self.extension_fields[ef]
         if self.name is not None:
-            u = save_relative_uri(self.name, base_url, True, None, relative_uris)
+            u = _save_relative_uri(self.name, base_url, True, None, relative_uris)
             r["name"] = u
         if self.symbols is not None:
-            u = save_relative_uri(self.symbols, self.name, True, None, relative_uris)
+            u = _save_relative_uri(self.symbols, self.name, True, None, relative_uris)
             r["symbols"] = u
         if self.type_ is not None:
             r["type"] = save(
@@ -4610,10 +4647,10 @@ class InputArraySchema(CWLArraySchema, InputSchema):
             for ef in self.extension_fields:
                 r[ef] = self.extension_fields[ef]
         if self.name is not None:
-            u = save_relative_uri(self.name, base_url, True, None, relative_uris)
+            u = _save_relative_uri(self.name, base_url, True, None, relative_uris)
             r["name"] = u
         if self.items is not None:
-            u = save_relative_uri(self.items, self.name, False, 2, relative_uris)
+            u = _save_relative_uri(self.items, self.name, False, 2, relative_uris)
             r["items"] = u
         if self.type_ is not None:
             r["type"] = save(
@@ -5101,7 +5138,7 @@ class OutputRecordField(CWLRecordField, FieldBase, OutputFormat):
             for ef in self.extension_fields:
                 r[ef] = self.extension_fields[ef]
         if self.name is not None:
-            u = save_relative_uri(self.name, base_url, True, None, relative_uris)
+            u = _save_relative_uri(self.name, base_url, True, None, relative_uris)
             r["name"] = u
         if self.doc is not None:
             r["doc"] = save(
@@ -5130,7 +5167,7 @@ class OutputRecordField(CWLRecordField, FieldBase, OutputFormat):
                 relative_uris=relative_uris,
             )
         if self.format is not None:
-            u = save_relative_uri(self.format, self.name, True, None, relative_uris)
+            u = _save_relative_uri(self.format, self.name, True, None, relative_uris)
             r["format"] = u
 
         # top refers to the directory level
@@ -5494,7 +5531,7 @@ class OutputRecordSchema(CWLRecordSchema, OutputSchema):
             for ef in self.extension_fields:
                 r[ef] = self.extension_fields[ef]
         if self.name is not None:
-            u = save_relative_uri(self.name, base_url, True, None, relative_uris)
+            u = _save_relative_uri(self.name, base_url, True, None, relative_uris)
             r["name"] = u
         if self.fields is not None:
             r["fields"] = save(
@@ -5875,10 +5912,10 @@ class OutputEnumSchema(schema_salad.metaschema.EnumSchema, OutputSchema):
             for ef in self.extension_fields:
                 r[ef] = self.extension_fields[ef]
         if self.name is not None:
-            u = save_relative_uri(self.name, base_url, True, None, relative_uris)
+            u = _save_relative_uri(self.name, base_url, True, None, relative_uris)
             r["name"] = u
         if self.symbols is not None:
-            u = save_relative_uri(self.symbols, self.name, True, None, relative_uris)
+            u = _save_relative_uri(self.symbols, self.name, True, None, relative_uris)
             r["symbols"] = u
         if self.type_ is not None:
             r["type"] = save(
@@ -6255,10 +6292,10 @@ class OutputArraySchema(CWLArraySchema, OutputSchema):
             for ef in self.extension_fields:
                 r[ef] = self.extension_fields[ef]
         if self.name is not None:
-            u = save_relative_uri(self.name, base_url, True, None, relative_uris)
+            u = _save_relative_uri(self.name, base_url, True, None, relative_uris)
             r["name"] = u
         if self.items is not None:
-            u = save_relative_uri(self.items, self.name, False, 2, relative_uris)
+            u = _save_relative_uri(self.items, self.name, False, 2, relative_uris)
             r["items"] = u
         if self.type_ is not None:
             r["type"] = save(
@@ -6476,7 +6513,7 @@ class InlineJavascriptRequirement(ProcessRequirement):
                 uri = f"{p}:{self.class_}"
             else:
                 uri = self.class_
-            u = save_relative_uri(uri, base_url, False, None, relative_uris)
+            u = _save_relative_uri(uri, base_url, False, None, relative_uris)
             r["class"] = u
         if self.expressionLib is not None:
             r["expressionLib"] = save(
@@ -6661,7 +6698,7 @@ class SchemaDefRequirement(ProcessRequirement):
                 uri = f"{p}:{self.class_}"
             else:
                 uri = self.class_
-            u = save_relative_uri(uri, base_url, False, None, relative_uris)
+            u = _save_relative_uri(uri, base_url, False, None, relative_uris)
             r["class"] = u
         if self.types is not None:
             r["types"] = save(
@@ -7041,7 +7078,7 @@ class LoadListingRequirement(ProcessRequirement):
                 uri = f"{p}:{self.class_}"
             else:
                 uri = self.class_
-            u = save_relative_uri(uri, base_url, False, None, relative_uris)
+            u = _save_relative_uri(uri, base_url, False, None, relative_uris)
             r["class"] = u
         if self.loadListing is not None:
             r["loadListing"] = save(
@@ -8754,7 +8791,7 @@ class CommandInputRecordField(InputRecordField, CommandLineBindable):
             for ef in self.extension_fields:
                 r[ef] = self.extension_fields[ef]
         if self.name is not None:
-            u = save_relative_uri(self.name, base_url, True, None, relative_uris)
+            u = _save_relative_uri(self.name, base_url, True, None, relative_uris)
             r["name"] = u
         if self.doc is not None:
             r["doc"] = save(
@@ -8783,7 +8820,7 @@ class CommandInputRecordField(InputRecordField, CommandLineBindable):
                 relative_uris=relative_uris,
             )
         if self.format is not None:
-            u = save_relative_uri(self.format, self.name, True, None, relative_uris)
+            u = _save_relative_uri(self.format, self.name, True, None, relative_uris)
             r["format"] = u
         if self.loadContents is not None:
             r["loadContents"] = save(
@@ -9241,7 +9278,7 @@ class CommandInputRecordSchema(
             for ef in self.extension_fields:
                 r[ef] = self.extension_fields[ef]
         if self.name is not None:
-            u = save_relative_uri(self.name, base_url, True, None, relative_uris)
+            u = _save_relative_uri(self.name, base_url, True, None, relative_uris)
             r["name"] = u
         if self.fields is not None:
             r["fields"] = save(
@@ -9689,10 +9726,10 @@ class CommandInputEnumSchema(InputEnumSchema, CommandInputSchema, CommandLineBin
             for ef in self.extension_fields:
                 r[ef] = self.extension_fields[ef]
         if self.name is not None:
-            u = save_relative_uri(self.name, base_url, True, None, relative_uris)
+            u = _save_relative_uri(self.name, base_url, True, None, relative_uris)
             r["name"] = u
         if self.symbols is not None:
-            u = save_relative_uri(self.symbols, self.name, True, None, relative_uris)
+            u = _save_relative_uri(self.symbols, self.name, True, None, relative_uris)
             r["symbols"] = u
         if self.type_ is not None:
             r["type"] = save(
@@ -10131,10 +10168,10 @@ class CommandInputArraySchema(
             for ef in self.extension_fields:
                 r[ef] = self.extension_fields[ef]
         if self.name is not None:
-            u = save_relative_uri(self.name, base_url, True, None, relative_uris)
+            u = _save_relative_uri(self.name, base_url, True, None, relative_uris)
             r["name"] = u
         if self.items is not None:
-            u = save_relative_uri(self.items, self.name, False, 2, relative_uris)
+            u = _save_relative_uri(self.items, self.name, False, 2, relative_uris)
             r["items"] = u
         if self.type_ is not None:
             r["type"] = save(
@@ -10681,7 +10718,7 @@ class CommandOutputRecordField(OutputRecordField):
             for ef in self.extension_fields:
                 r[ef] = self.extension_fields[ef]
         if self.name is not None:
-            u = save_relative_uri(self.name, base_url, True, None, relative_uris)
+            u = _save_relative_uri(self.name, base_url, True, None, relative_uris)
             r["name"] = u
         if self.doc is not None:
             r["doc"] = save(
@@ -10710,7 +10747,7 @@ class CommandOutputRecordField(OutputRecordField):
                 relative_uris=relative_uris,
             )
         if self.format is not None:
-            u = save_relative_uri(self.format, self.name, True, None, relative_uris)
+            u = _save_relative_uri(self.format, self.name, True, None, relative_uris)
             r["format"] = u
         if self.outputBinding is not None:
             r["outputBinding"] = save(
@@ -11090,7 +11127,7 @@ class CommandOutputRecordSchema(OutputRecordSchema):
             for ef in self.extension_fields:
                 r[ef] = self.extension_fields[ef]
         if self.name is not None:
-            u = save_relative_uri(self.name, base_url, True, None, relative_uris)
+            u = _save_relative_uri(self.name, base_url, True, None, relative_uris)
             r["name"] = u
         if self.fields is not None:
             r["fields"] = save(
@@ -11471,10 +11508,10 @@ class CommandOutputEnumSchema(OutputEnumSchema):
             for ef in self.extension_fields:
                 r[ef] = self.extension_fields[ef]
         if self.name is not None:
-            u = save_relative_uri(self.name, base_url, True, None, relative_uris)
+            u = _save_relative_uri(self.name, base_url, True, None, relative_uris)
             r["name"] = u
         if self.symbols is not None:
-            u = save_relative_uri(self.symbols, self.name, True, None, relative_uris)
+            u = _save_relative_uri(self.symbols, self.name, True, None, relative_uris)
             r["symbols"] = u
         if self.type_ is not None:
             r["type"] = save(
@@ -11851,10 +11888,10 @@ class CommandOutputArraySchema(OutputArraySchema):
             for ef in self.extension_fields:
                 r[ef] = self.extension_fields[ef]
         if self.name is not None:
-            u = save_relative_uri(self.name, base_url, True, None, relative_uris)
+            u = _save_relative_uri(self.name, base_url, True, None, relative_uris)
             r["name"] = u
         if self.items is not None:
-            u = save_relative_uri(self.items, self.name, False, 2, relative_uris)
+            u = _save_relative_uri(self.items, self.name, False, 2, relative_uris)
             r["items"] = u
         if self.type_ is not None:
             r["type"] = save(
@@ -12555,7 +12592,7 @@ class CommandInputParameter(InputParameter):
             for ef in self.extension_fields:
                 r[ef] = self.extension_fields[ef]
         if self.id is not None:
-            u = save_relative_uri(self.id, base_url, True, None, relative_uris)
+            u = _save_relative_uri(self.id, base_url, True, None, relative_uris)
             r["id"] = u
         if self.label is not None:
             r["label"] = save(
@@ -12580,7 +12617,7 @@ class CommandInputParameter(InputParameter):
                 self.doc, top=False, base_url=self.id, relative_uris=relative_uris
             )
         if self.format is not None:
-            u = save_relative_uri(self.format, self.id, True, None, relative_uris)
+            u = _save_relative_uri(self.format, self.id, True, None, relative_uris)
             r["format"] = u
         if self.loadContents is not None:
             r["loadContents"] = save(
@@ -13154,7 +13191,7 @@ class CommandOutputParameter(OutputParameter):
             for ef in self.extension_fields:
                 r[ef] = self.extension_fields[ef]
         if self.id is not None:
-            u = save_relative_uri(self.id, base_url, True, None, relative_uris)
+            u = _save_relative_uri(self.id, base_url, True, None, relative_uris)
             r["id"] = u
         if self.label is not None:
             r["label"] = save(
@@ -13179,7 +13216,7 @@ class CommandOutputParameter(OutputParameter):
                 self.doc, top=False, base_url=self.id, relative_uris=relative_uris
             )
         if self.format is not None:
-            u = save_relative_uri(self.format, self.id, True, None, relative_uris)
+            u = _save_relative_uri(self.format, self.id, True, None, relative_uris)
             r["format"] = u
         if self.type_ is not None:
             r["type"] = save(
@@ -14169,7 +14206,7 @@ class CommandLineTool(Process):
             for ef in self.extension_fields:
                 r[ef] = self.extension_fields[ef]
         if self.id is not None:
-            u = save_relative_uri(self.id, base_url, True, None, relative_uris)
+            u = _save_relative_uri(self.id, base_url, True, None, relative_uris)
             r["id"] = u
         if self.class_ is not None:
             vocab = _vocab | self.loadingOptions.vocab
@@ -14179,7 +14216,7 @@ class CommandLineTool(Process):
                 uri = f"{p}:{self.class_}"
             else:
                 uri = self.class_
-            u = save_relative_uri(uri, self.id, False, None, relative_uris)
+            u = _save_relative_uri(uri, self.id, False, None, relative_uris)
             r["class"] = u
         if self.label is not None:
             r["label"] = save(
@@ -14209,7 +14246,7 @@ class CommandLineTool(Process):
                 self.hints, top=False, base_url=self.id, relative_uris=relative_uris
             )
         if self.cwlVersion is not None:
-            u = save_relative_uri(self.cwlVersion, self.id, False, None, relative_uris)
+            u = _save_relative_uri(self.cwlVersion, self.id, False, None, relative_uris)
             r["cwlVersion"] = u
         if self.baseCommand is not None:
             r["baseCommand"] = save(
@@ -14733,7 +14770,7 @@ class DockerRequirement(ProcessRequirement):
                 uri = f"{p}:{self.class_}"
             else:
                 uri = self.class_
-            u = save_relative_uri(uri, base_url, False, None, relative_uris)
+            u = _save_relative_uri(uri, base_url, False, None, relative_uris)
             r["class"] = u
         if self.dockerPull is not None:
             r["dockerPull"] = save(
@@ -14959,7 +14996,7 @@ class SoftwareRequirement(ProcessRequirement):
                 uri = f"{p}:{self.class_}"
             else:
                 uri = self.class_
-            u = save_relative_uri(uri, base_url, False, None, relative_uris)
+            u = _save_relative_uri(uri, base_url, False, None, relative_uris)
             r["class"] = u
         if self.packages is not None:
             r["packages"] = save(
@@ -15219,7 +15256,7 @@ class SoftwarePackage(Saveable):
                 self.version, top=False, base_url=base_url, relative_uris=relative_uris
             )
         if self.specs is not None:
-            u = save_relative_uri(self.specs, base_url, False, None, relative_uris)
+            u = _save_relative_uri(self.specs, base_url, False, None, relative_uris)
             r["specs"] = u
 
         # top refers to the directory level
@@ -15658,7 +15695,7 @@ class InitialWorkDirRequirement(ProcessRequirement):
                 uri = f"{p}:{self.class_}"
             else:
                 uri = self.class_
-            u = save_relative_uri(uri, base_url, False, None, relative_uris)
+            u = _save_relative_uri(uri, base_url, False, None, relative_uris)
             r["class"] = u
         if self.listing is not None:
             r["listing"] = save(
@@ -15836,7 +15873,7 @@ class EnvVarRequirement(ProcessRequirement):
                 uri = f"{p}:{self.class_}"
             else:
                 uri = self.class_
-            u = save_relative_uri(uri, base_url, False, None, relative_uris)
+            u = _save_relative_uri(uri, base_url, False, None, relative_uris)
             r["class"] = u
         if self.envDef is not None:
             r["envDef"] = save(
@@ -15961,7 +15998,7 @@ class ShellCommandRequirement(ProcessRequirement):
                 uri = f"{p}:{self.class_}"
             else:
                 uri = self.class_
-            u = save_relative_uri(uri, base_url, False, None, relative_uris)
+            u = _save_relative_uri(uri, base_url, False, None, relative_uris)
             r["class"] = u
 
         # top refers to the directory level
@@ -16518,7 +16555,7 @@ class ResourceRequirement(ProcessRequirement):
                 uri = f"{p}:{self.class_}"
             else:
                 uri = self.class_
-            u = save_relative_uri(uri, base_url, False, None, relative_uris)
+            u = _save_relative_uri(uri, base_url, False, None, relative_uris)
             r["class"] = u
         if self.coresMin is not None:
             r["coresMin"] = save(
@@ -16752,7 +16789,7 @@ class WorkReuse(ProcessRequirement):
                 uri = f"{p}:{self.class_}"
             else:
                 uri = self.class_
-            u = save_relative_uri(uri, base_url, False, None, relative_uris)
+            u = _save_relative_uri(uri, base_url, False, None, relative_uris)
             r["class"] = u
         if self.enableReuse is not None:
             r["enableReuse"] = save(
@@ -16942,7 +16979,7 @@ class NetworkAccess(ProcessRequirement):
                 uri = f"{p}:{self.class_}"
             else:
                 uri = self.class_
-            u = save_relative_uri(uri, base_url, False, None, relative_uris)
+            u = _save_relative_uri(uri, base_url, False, None, relative_uris)
             r["class"] = u
         if self.networkAccess is not None:
             r["networkAccess"] = save(
@@ -17134,7 +17171,7 @@ class InplaceUpdateRequirement(ProcessRequirement):
                 uri = f"{p}:{self.class_}"
             else:
                 uri = self.class_
-            u = save_relative_uri(uri, base_url, False, None, relative_uris)
+            u = _save_relative_uri(uri, base_url, False, None, relative_uris)
             r["class"] = u
         if self.inplaceUpdate is not None:
             r["inplaceUpdate"] = save(
@@ -17317,7 +17354,7 @@ class ToolTimeLimit(ProcessRequirement):
                 uri = f"{p}:{self.class_}"
             else:
                 uri = self.class_
-            u = save_relative_uri(uri, base_url, False, None, relative_uris)
+            u = _save_relative_uri(uri, base_url, False, None, relative_uris)
             r["class"] = u
         if self.timelimit is not None:
             r["timelimit"] = save(
@@ -17798,7 +17835,7 @@ class ExpressionToolOutputParameter(OutputParameter):
             for ef in self.extension_fields:
                 r[ef] = self.extension_fields[ef]
         if self.id is not None:
-            u = save_relative_uri(self.id, base_url, True, None, relative_uris)
+            u = _save_relative_uri(self.id, base_url, True, None, relative_uris)
             r["id"] = u
         if self.label is not None:
             r["label"] = save(
@@ -17823,7 +17860,7 @@ class ExpressionToolOutputParameter(OutputParameter):
                 self.doc, top=False, base_url=self.id, relative_uris=relative_uris
             )
         if self.format is not None:
-            u = save_relative_uri(self.format, self.id, True, None, relative_uris)
+            u = _save_relative_uri(self.format, self.id, True, None, relative_uris)
             r["format"] = u
         if self.type_ is not None:
             r["type"] = save(
@@ -18511,7 +18548,7 @@ class WorkflowInputParameter(InputParameter):
             for ef in self.extension_fields:
                 r[ef] = self.extension_fields[ef]
         if self.id is not None:
-            u = save_relative_uri(self.id, base_url, True, None, relative_uris)
+            u = _save_relative_uri(self.id, base_url, True, None, relative_uris)
             r["id"] = u
         if self.label is not None:
             r["label"] = save(
@@ -18536,7 +18573,7 @@ class WorkflowInputParameter(InputParameter):
                 self.doc, top=False, base_url=self.id, relative_uris=relative_uris
             )
         if self.format is not None:
-            u = save_relative_uri(self.format, self.id, True, None, relative_uris)
+            u = _save_relative_uri(self.format, self.id, True, None, relative_uris)
             r["format"] = u
         if self.loadContents is not None:
             r["loadContents"] = save(
@@ -19184,7 +19221,7 @@ class ExpressionTool(Process):
             for ef in self.extension_fields:
                 r[ef] = self.extension_fields[ef]
         if self.id is not None:
-            u = save_relative_uri(self.id, base_url, True, None, relative_uris)
+            u = _save_relative_uri(self.id, base_url, True, None, relative_uris)
             r["id"] = u
         if self.class_ is not None:
             vocab = _vocab | self.loadingOptions.vocab
@@ -19194,7 +19231,7 @@ class ExpressionTool(Process):
                 uri = f"{p}:{self.class_}"
             else:
                 uri = self.class_
-            u = save_relative_uri(uri, self.id, False, None, relative_uris)
+            u = _save_relative_uri(uri, self.id, False, None, relative_uris)
             r["class"] = u
         if self.label is not None:
             r["label"] = save(
@@ -19224,7 +19261,7 @@ class ExpressionTool(Process):
                 self.hints, top=False, base_url=self.id, relative_uris=relative_uris
             )
         if self.cwlVersion is not None:
-            u = save_relative_uri(self.cwlVersion, self.id, False, None, relative_uris)
+            u = _save_relative_uri(self.cwlVersion, self.id, False, None, relative_uris)
             r["cwlVersion"] = u
         if self.expression is not None:
             r["expression"] = save(
@@ -19827,7 +19864,7 @@ class WorkflowOutputParameter(OutputParameter):
             for ef in self.extension_fields:
                 r[ef] = self.extension_fields[ef]
         if self.id is not None:
-            u = save_relative_uri(self.id, base_url, True, None, relative_uris)
+            u = _save_relative_uri(self.id, base_url, True, None, relative_uris)
             r["id"] = u
         if self.label is not None:
             r["label"] = save(
@@ -19852,10 +19889,10 @@ class WorkflowOutputParameter(OutputParameter):
                 self.doc, top=False, base_url=self.id, relative_uris=relative_uris
             )
         if self.format is not None:
-            u = save_relative_uri(self.format, self.id, True, None, relative_uris)
+            u = _save_relative_uri(self.format, self.id, True, None, relative_uris)
             r["format"] = u
         if self.outputSource is not None:
-            u = save_relative_uri(self.outputSource, self.id, False, 1, relative_uris)
+            u = _save_relative_uri(self.outputSource, self.id, False, 1, relative_uris)
             r["outputSource"] = u
         if self.linkMerge is not None:
             r["linkMerge"] = save(
@@ -20430,10 +20467,10 @@ class WorkflowStepInput(IdentifierRequired, Sink, LoadContents, Labeled):
             for ef in self.extension_fields:
                 r[ef] = self.extension_fields[ef]
         if self.id is not None:
-            u = save_relative_uri(self.id, base_url, True, None, relative_uris)
+            u = _save_relative_uri(self.id, base_url, True, None, relative_uris)
             r["id"] = u
         if self.source is not None:
-            u = save_relative_uri(self.source, self.id, False, 2, relative_uris)
+            u = _save_relative_uri(self.source, self.id, False, 2, relative_uris)
             r["source"] = u
         if self.linkMerge is not None:
             r["linkMerge"] = save(
@@ -20634,7 +20671,7 @@ class WorkflowStepOutput(IdentifierRequired):
             for ef in self.extension_fields:
                 r[ef] = self.extension_fields[ef]
         if self.id is not None:
-            u = save_relative_uri(self.id, base_url, True, None, relative_uris)
+            u = _save_relative_uri(self.id, base_url, True, None, relative_uris)
             r["id"] = u
 
         # top refers to the directory level
@@ -21301,7 +21338,7 @@ class WorkflowStep(IdentifierRequired, Labeled, schema_salad.metaschema.Document
             for ef in self.extension_fields:
                 r[ef] = self.extension_fields[ef]
         if self.id is not None:
-            u = save_relative_uri(self.id, base_url, True, None, relative_uris)
+            u = _save_relative_uri(self.id, base_url, True, None, relative_uris)
             r["id"] = u
         if self.label is not None:
             r["label"] = save(
@@ -21316,7 +21353,7 @@ class WorkflowStep(IdentifierRequired, Labeled, schema_salad.metaschema.Document
                 self.in_, top=False, base_url=self.id, relative_uris=relative_uris
             )
         if self.out is not None:
-            u = save_relative_uri(self.out, self.id, True, None, relative_uris)
+            u = _save_relative_uri(self.out, self.id, True, None, relative_uris)
             r["out"] = u
         if self.requirements is not None:
             r["requirements"] = save(
@@ -21330,13 +21367,13 @@ class WorkflowStep(IdentifierRequired, Labeled, schema_salad.metaschema.Document
                 self.hints, top=False, base_url=self.id, relative_uris=relative_uris
             )
         if self.run is not None:
-            u = save_relative_uri(self.run, self.id, False, None, relative_uris)
+            u = _save_relative_uri(self.run, self.id, False, None, relative_uris)
             r["run"] = u
         if self.scatter is not None:
-            u = save_relative_uri(self.scatter, self.id, False, 0, relative_uris)
+            u = _save_relative_uri(self.scatter, self.id, False, 0, relative_uris)
             r["scatter"] = u
         if self.scatterMethod is not None:
-            u = save_relative_uri(
+            u = _save_relative_uri(
                 self.scatterMethod, self.id, False, None, relative_uris
             )
             r["scatterMethod"] = u
@@ -21978,7 +22015,7 @@ class Workflow(Process):
             for ef in self.extension_fields:
                 r[ef] = self.extension_fields[ef]
         if self.id is not None:
-            u = save_relative_uri(self.id, base_url, True, None, relative_uris)
+            u = _save_relative_uri(self.id, base_url, True, None, relative_uris)
             r["id"] = u
         if self.class_ is not None:
             vocab = _vocab | self.loadingOptions.vocab
@@ -21988,7 +22025,7 @@ class Workflow(Process):
                 uri = f"{p}:{self.class_}"
             else:
                 uri = self.class_
-            u = save_relative_uri(uri, self.id, False, None, relative_uris)
+            u = _save_relative_uri(uri, self.id, False, None, relative_uris)
             r["class"] = u
         if self.label is not None:
             r["label"] = save(
@@ -22018,7 +22055,7 @@ class Workflow(Process):
                 self.hints, top=False, base_url=self.id, relative_uris=relative_uris
             )
         if self.cwlVersion is not None:
-            u = save_relative_uri(self.cwlVersion, self.id, False, None, relative_uris)
+            u = _save_relative_uri(self.cwlVersion, self.id, False, None, relative_uris)
             r["cwlVersion"] = u
         if self.steps is not None:
             r["steps"] = save(
@@ -22156,7 +22193,7 @@ class SubworkflowFeatureRequirement(ProcessRequirement):
                 uri = f"{p}:{self.class_}"
             else:
                 uri = self.class_
-            u = save_relative_uri(uri, base_url, False, None, relative_uris)
+            u = _save_relative_uri(uri, base_url, False, None, relative_uris)
             r["class"] = u
 
         # top refers to the directory level
@@ -22277,7 +22314,7 @@ class ScatterFeatureRequirement(ProcessRequirement):
                 uri = f"{p}:{self.class_}"
             else:
                 uri = self.class_
-            u = save_relative_uri(uri, base_url, False, None, relative_uris)
+            u = _save_relative_uri(uri, base_url, False, None, relative_uris)
             r["class"] = u
 
         # top refers to the directory level
@@ -22398,7 +22435,7 @@ class MultipleInputFeatureRequirement(ProcessRequirement):
                 uri = f"{p}:{self.class_}"
             else:
                 uri = self.class_
-            u = save_relative_uri(uri, base_url, False, None, relative_uris)
+            u = _save_relative_uri(uri, base_url, False, None, relative_uris)
             r["class"] = u
 
         # top refers to the directory level
@@ -22519,7 +22556,7 @@ class StepInputExpressionRequirement(ProcessRequirement):
                 uri = f"{p}:{self.class_}"
             else:
                 uri = self.class_
-            u = save_relative_uri(uri, base_url, False, None, relative_uris)
+            u = _save_relative_uri(uri, base_url, False, None, relative_uris)
             r["class"] = u
 
         # top refers to the directory level
@@ -22688,10 +22725,10 @@ class Secrets(ProcessRequirement):
                 uri = f"{p}:{self.class_}"
             else:
                 uri = self.class_
-            u = save_relative_uri(uri, base_url, False, None, relative_uris)
+            u = _save_relative_uri(uri, base_url, False, None, relative_uris)
             r["class"] = u
         if self.secrets is not None:
-            u = save_relative_uri(self.secrets, base_url, False, 0, relative_uris)
+            u = _save_relative_uri(self.secrets, base_url, False, 0, relative_uris)
             r["secrets"] = u
 
         # top refers to the directory level
@@ -23293,7 +23330,7 @@ class ProcessGenerator(Process):
             for ef in self.extension_fields:
                 r[ef] = self.extension_fields[ef]
         if self.id is not None:
-            u = save_relative_uri(self.id, base_url, True, None, relative_uris)
+            u = _save_relative_uri(self.id, base_url, True, None, relative_uris)
             r["id"] = u
         if self.class_ is not None:
             vocab = _vocab | self.loadingOptions.vocab
@@ -23303,7 +23340,7 @@ class ProcessGenerator(Process):
                 uri = f"{p}:{self.class_}"
             else:
                 uri = self.class_
-            u = save_relative_uri(uri, self.id, False, None, relative_uris)
+            u = _save_relative_uri(uri, self.id, False, None, relative_uris)
             r["class"] = u
         if self.label is not None:
             r["label"] = save(
@@ -23333,10 +23370,10 @@ class ProcessGenerator(Process):
                 self.hints, top=False, base_url=self.id, relative_uris=relative_uris
             )
         if self.cwlVersion is not None:
-            u = save_relative_uri(self.cwlVersion, self.id, False, None, relative_uris)
+            u = _save_relative_uri(self.cwlVersion, self.id, False, None, relative_uris)
             r["cwlVersion"] = u
         if self.run is not None:
-            u = save_relative_uri(self.run, self.id, False, None, relative_uris)
+            u = _save_relative_uri(self.run, self.id, False, None, relative_uris)
             r["run"] = u
 
         # top refers to the directory level
@@ -23525,7 +23562,7 @@ class MPIRequirement(ProcessRequirement):
                 uri = f"{p}:{self.class_}"
             else:
                 uri = self.class_
-            u = save_relative_uri(uri, base_url, False, None, relative_uris)
+            u = _save_relative_uri(uri, base_url, False, None, relative_uris)
             r["class"] = u
         if self.processes is not None:
             r["processes"] = save(
@@ -23871,7 +23908,7 @@ class CUDARequirement(ProcessRequirement):
                 uri = f"{p}:{self.class_}"
             else:
                 uri = self.class_
-            u = save_relative_uri(uri, base_url, False, None, relative_uris)
+            u = _save_relative_uri(uri, base_url, False, None, relative_uris)
             r["class"] = u
         if self.cudaComputeCapability is not None:
             r["cudaComputeCapability"] = save(
@@ -24076,7 +24113,7 @@ class ShmSize(ProcessRequirement):
                 uri = f"{p}:{self.class_}"
             else:
                 uri = self.class_
-            u = save_relative_uri(uri, base_url, False, None, relative_uris)
+            u = _save_relative_uri(uri, base_url, False, None, relative_uris)
             r["class"] = u
         if self.shmSize is not None:
             r["shmSize"] = save(
diff --git a/src/cwl_utils/parser/cwl_v1_2.py b/src/cwl_utils/parser/cwl_v1_2.py
index 9b9b2d8..af3a85d 100644
--- a/src/cwl_utils/parser/cwl_v1_2.py
+++ b/src/cwl_utils/parser/cwl_v1_2.py
@@ -826,6 +826,43 @@ def _expand_url(
     return url
 
 
+def _save_relative_uri(
+    uri: Any,
+    base_url: str,
+    scoped_id: bool,
+    ref_scope: int | None,
+    relative_uris: bool,
+) -> Any:
+    """Convert any URI to a relative one that _expand_url() resolves to the same URI."""
+    if isinstance(uri, MutableSequence):
+        return [_save_relative_uri(u, base_url, scoped_id, ref_scope, relative_uris) for u in uri]
+    if not isinstance(uri, str) or not relative_uris or uri == base_url:
+        return save_relative_uri(uri, base_url, scoped_id, ref_scope, relative_uris)
+    if uri.startswith("_:"):
+        return uri
+    urisplit: Final = urlsplit(uri)
+    basesplit: Final = urlsplit(base_url)
+    if (
+        not urisplit.fragment
+        or urisplit.scheme != basesplit.scheme
+        or urisplit.netloc != basesplit.netloc
+        or urisplit.path != basesplit.path
+    ):
+        return save_relative_uri(uri, base_url, scoped_id, ref_scope, relative_uris)
+
+    if scoped_id:
+        scope = basesplit.fragment
+    elif ref_scope is not None:
+        scope = "/".join(basesplit.fragment.split("/")[: -ref_scope or None])
+    else:
+        return "#" + urisplit.fragment
+    if scope == "":
+        return urisplit.fragment
+    if urisplit.fragment.startswith(scope + "/"):
+        return urisplit.fragment[len(scope) + 1 :]
+    return "#" + urisplit.fragment
+
+
 def _load_field(
     val: Any | None,
     fieldtype: Loader,
@@ -1040,7 +1077,7 @@ class CWLArraySchema(schema_salad.metaschema.ArraySchema):
             for ef in self.extension_fields:
                 r[ef] = self.extension_fields[ef]
         if self.items is not None:
-            u = save_relative_uri(self.items, base_url, False, 2, relative_uris)
+            u = _save_relative_uri(self.items, base_url, False, 2, relative_uris)
             r["items"] = u
         if self.type_ is not None:
             r["type"] = save(
@@ -1304,7 +1341,7 @@ class CWLRecordField(schema_salad.metaschema.RecordField):
             for ef in self.extension_fields:
                 r[ef] = self.extension_fields[ef]
         if self.name is not None:
-            u = save_relative_uri(self.name, base_url, True, None, relative_uris)
+            u = _save_relative_uri(self.name, base_url, True, None, relative_uris)
             r["name"] = u
         if self.doc is not None:
             r["doc"] = save(
@@ -2234,13 +2271,13 @@ class File(Saveable):
                 uri = f"{p}:{self.class_}"
             else:
                 uri = self.class_
-            u = save_relative_uri(uri, base_url, False, None, relative_uris)
+            u = _save_relative_uri(uri, base_url, False, None, relative_uris)
             r["class"] = u
         if self.location is not None:
-            u = save_relative_uri(self.location, base_url, False, None, relative_uris)
+            u = _save_relative_uri(self.location, base_url, False, None, relative_uris)
             r["location"] = u
         if self.path is not None:
-            u = save_relative_uri(self.path, base_url, False, None, relative_uris)
+            u = _save_relative_uri(self.path, base_url, False, None, relative_uris)
             r["path"] = u
         if self.basename is not None:
             r["basename"] = save(
@@ -2274,7 +2311,7 @@ class File(Saveable):
                 relative_uris=relative_uris,
             )
         if self.format is not None:
-            u = save_relative_uri(self.format, base_url, True, None, relative_uris)
+            u = _save_relative_uri(self.format, base_url, True, None, relative_uris)
             r["format"] = u
         if self.contents is not None:
             r["contents"] = save(
@@ -2642,13 +2679,13 @@ class Directory(Saveable):
                 uri = f"{p}:{self.class_}"
             else:
                 uri = self.class_
-            u = save_relative_uri(uri, base_url, False, None, relative_uris)
+            u = _save_relative_uri(uri, base_url, False, None, relative_uris)
             r["class"] = u
         if self.location is not None:
-            u = save_relative_uri(self.location, base_url, False, None, relative_uris)
+            u = _save_relative_uri(self.location, base_url, False, None, relative_uris)
             r["location"] = u
         if self.path is not None:
-            u = save_relative_uri(self.path, base_url, False, None, relative_uris)
+            u = _save_relative_uri(self.path, base_url, False, None, relative_uris)
             r["path"] = u
         if self.basename is not None:
             r["basename"] = save(
@@ -3432,7 +3469,7 @@ class InputRecordField(CWLRecordField, FieldBase, InputFormat, LoadContents):
             for ef in self.extension_fields:
                 r[ef] = self.extension_fields[ef]
         if self.name is not None:
-            u = save_relative_uri(self.name, base_url, True, None, relative_uris)
+            u = _save_relative_uri(self.name, base_url, True, None, relative_uris)
             r["name"] = u
         if self.doc is not None:
             r["doc"] = save(
@@ -3461,7 +3498,7 @@ class InputRecordField(CWLRecordField, FieldBase, InputFormat, LoadContents):
                 relative_uris=relative_uris,
             )
         if self.format is not None:
-            u = save_relative_uri(self.format, self.name, True, None, relative_uris)
+            u = _save_relative_uri(self.format, self.name, True, None, relative_uris)
             r["format"] = u
         if self.loadContents is not None:
             r["loadContents"] = save(
@@ -3849,7 +3886,7 @@ class InputRecordSchema(CWLRecordSchema, InputSchema):
             for ef in self.extension_fields:
                 r[ef] = self.extension_fields[ef]
         if self.name is not None:
-            u = save_relative_uri(self.name, base_url, True, None, relative_uris)
+            u = _save_relative_uri(self.name, base_url, True, None, relative_uris)
             r["name"] = u
         if self.fields is not None:
             r["fields"] = save(
@@ -4230,10 +4267,10 @@ class InputEnumSchema(schema_salad.metaschema.EnumSchema, InputSchema):
             for ef in self.extension_fields:
                 r[ef] = self.extension_fields[ef]
         if self.name is not None:
-            u = save_relative_uri(self.name, base_url, True, None, relative_uris)
+            u = _save_relative_uri(self.name, base_url, True, None, relative_uris)
             r["name"] = u
         if self.symbols is not None:
-            u = save_relative_uri(self.symbols, self.name, True, None, relative_uris)
+            u = _save_relative_uri(self.symbols, self.name, True, None, relative_uris)
             r["symbols"] = u
         if self.type_ is not None:
             r["type"] = save(
@@ -4610,10 +4647,10 @@ class InputArraySchema(CWLArraySchema, InputSchema):
             for ef in self.extension_fields:
                 r[ef] = self.extension_fields[ef]
         if self.name is not None:
-            u = save_relative_uri(self.name, base_url, True, None, relative_uris)
+            u = _save_relative_uri(self.name, base_url, True, None, relative_uris)
             r["name"] = u
         if self.items is not None:
-            u = save_relative_uri(self.items, self.name, False, 2, relative_uris)
+            u = _save_relative_uri(self.items, self.name, False, 2, relative_uris)
             r["items"] = u
         if self.type_ is not None:
             r["type"] = save(
@@ -5101,7 +5138,7 @@ class OutputRecordField(CWLRecordField, FieldBase, OutputFormat):
             for ef in self.extension_fields:
                 r[ef] = self.extension_fields[ef]
         if self.name is not None:
-            u = save_relative_uri(self.name, base_url, True, None, relative_uris)
+            u = _save_relative_uri(self.name, base_url, True, None, relative_uris)
             r["name"] = u
         if self.doc is not None:
             r["doc"] = save(
@@ -5130,7 +5167,7 @@ class OutputRecordField(CWLRecordField, FieldBase, OutputFormat):
                 relative_uris=relative_uris,
             )
         if self.format is not None:
-            u = save_relative_uri(self.format, self.name, True, None, relative_uris)
+            u = _save_relative_uri(self.format, self.name, True, None, relative_uris)
             r["format"] = u
 
         # top refers to the directory level
@@ -5494,7 +5531,7 @@ class OutputRecordSchema(CWLRecordSchema, OutputSchema):
             for ef in self.extension_fields:
                 r[ef] = self.extension_fields[ef]
         if self.name is not None:
-            u = save_relative_uri(self.name, base_url, True, None, relative_uris)
+            u = _save_relative_uri(self.name, base_url, True, None, relative_uris)
             r["name"] = u
         if self.fields is not None:
             r["fields"] = save(
@@ -5875,10 +5912,10 @@ class OutputEnumSchema(schema_salad.metaschema.EnumSchema, OutputSchema):
             for ef in self.extension_fields:
                 r[ef] = self.extension_fields[ef]
         if self.name is not None:
-            u = save_relative_uri(self.name, base_url, True, None, relative_uris)
+            u = _save_relative_uri(self.name, base_url, True, None, relative_uris)
             r["name"] = u
         if self.symbols is not None:
-            u = save_relative_uri(self.symbols, self.name, True, None, relative_uris)
+            u = _save_relative_uri(self.symbols, self.name, True, None, relative_uris)
             r["symbols"] = u
         if self.type_ is not None:
             r["type"] = save(
@@ -6255,10 +6292,10 @@ class OutputArraySchema(CWLArraySchema, OutputSchema):
             for ef in self.extension_fields:
                 r[ef] = self.extension_fields[ef]
         if self.name is not None:
-            u = save_relative_uri(self.name, base_url, True, None, relative_uris)
+            u = _save_relative_uri(self.name, base_url, True, None, relative_uris)
             r["name"] = u
         if self.items is not None:
-            u = save_relative_uri(self.items, self.name, False, 2, relative_uris)
+            u = _save_relative_uri(self.items, self.name, False, 2, relative_uris)
             r["items"] = u
         if self.type_ is not None:
             r["type"] = save(
@@ -6476,7 +6513,7 @@ class InlineJavascriptRequirement(ProcessRequirement):
                 uri = f"{p}:{self.class_}"
             else:
                 uri = self.class_
-            u = save_relative_uri(uri, base_url, False, None, relative_uris)
+            u = _save_relative_uri(uri, base_url, False, None, relative_uris)
             r["class"] = u
         if self.expressionLib is not None:
             r["expressionLib"] = save(
@@ -6665,7 +6702,7 @@ class SchemaDefRequirement(ProcessRequirement):
                 uri = f"{p}:{self.class_}"
             else:
                 uri = self.class_
-            u = save_relative_uri(uri, base_url, False, None, relative_uris)
+            u = _save_relative_uri(uri, base_url, False, None, relative_uris)
             r["class"] = u
         if self.types is not None:
             r["types"] = save(
@@ -7057,7 +7094,7 @@ class LoadListingRequirement(ProcessRequirement):
                 uri = f"{p}:{self.class_}"
             else:
                 uri = self.class_
-            u = save_relative_uri(uri, base_url, False, None, relative_uris)
+            u = _save_relative_uri(uri, base_url, False, None, relative_uris)
             r["class"] = u
         if self.loadListing is not None:
             r["loadListing"] = save(
@@ -8770,7 +8807,7 @@ class CommandInputRecordField(InputRecordField, CommandLineBindable):
             for ef in self.extension_fields:
                 r[ef] = self.extension_fields[ef]
         if self.name is not None:
-            u = save_relative_uri(self.name, base_url, True, None, relative_uris)
+            u = _save_relative_uri(self.name, base_url, True, None, relative_uris)
             r["name"] = u
         if self.doc is not None:
             r["doc"] = save(
@@ -8799,7 +8836,7 @@ class CommandInputRecordField(InputRecordField, CommandLineBindable):
                 relative_uris=relative_uris,
             )
         if self.format is not None:
-            u = save_relative_uri(self.format, self.name, True, None, relative_uris)
+            u = _save_relative_uri(self.format, self.name, True, None, relative_uris)
             r["format"] = u
         if self.loadContents is not None:
             r["loadContents"] = save(
@@ -9257,7 +9294,7 @@ class CommandInputRecordSchema(
             for ef in self.extension_fields:
                 r[ef] = self.extension_fields[ef]
         if self.name is not None:
-            u = save_relative_uri(self.name, base_url, True, None, relative_uris)
+            u = _save_relative_uri(self.name, base_url, True, None, relative_uris)
             r["name"] = u
         if self.fields is not None:
             r["fields"] = save(
@@ -9705,10 +9742,10 @@ class CommandInputEnumSchema(InputEnumSchema, CommandInputSchema, CommandLineBin
             for ef in self.extension_fields:
                 r[ef] = self.extension_fields[ef]
         if self.name is not None:
-            u = save_relative_uri(self.name, base_url, True, None, relative_uris)
+            u = _save_relative_uri(self.name, base_url, True, None, relative_uris)
             r["name"] = u
         if self.symbols is not None:
-            u = save_relative_uri(self.symbols, self.name, True, None, relative_uris)
+            u = _save_relative_uri(self.symbols, self.name, True, None, relative_uris)
             r["symbols"] = u
         if self.type_ is not None:
             r["type"] = save(
@@ -10147,10 +10184,10 @@ class CommandInputArraySchema(
             for ef in self.extension_fields:
                 r[ef] = self.extension_fields[ef]
         if self.name is not None:
-            u = save_relative_uri(self.name, base_url, True, None, relative_uris)
+            u = _save_relative_uri(self.name, base_url, True, None, relative_uris)
             r["name"] = u
         if self.items is not None:
-            u = save_relative_uri(self.items, self.name, False, 2, relative_uris)
+            u = _save_relative_uri(self.items, self.name, False, 2, relative_uris)
             r["items"] = u
         if self.type_ is not None:
             r["type"] = save(
@@ -10697,7 +10734,7 @@ class CommandOutputRecordField(OutputRecordField):
             for ef in self.extension_fields:
                 r[ef] = self.extension_fields[ef]
         if self.name is not None:
-            u = save_relative_uri(self.name, base_url, True, None, relative_uris)
+            u = _save_relative_uri(self.name, base_url, True, None, relative_uris)
             r["name"] = u
         if self.doc is not None:
             r["doc"] = save(
@@ -10726,7 +10763,7 @@ class CommandOutputRecordField(OutputRecordField):
                 relative_uris=relative_uris,
             )
         if self.format is not None:
-            u = save_relative_uri(self.format, self.name, True, None, relative_uris)
+            u = _save_relative_uri(self.format, self.name, True, None, relative_uris)
             r["format"] = u
         if self.outputBinding is not None:
             r["outputBinding"] = save(
@@ -11106,7 +11143,7 @@ class CommandOutputRecordSchema(OutputRecordSchema):
             for ef in self.extension_fields:
                 r[ef] = self.extension_fields[ef]
         if self.name is not None:
-            u = save_relative_uri(self.name, base_url, True, None, relative_uris)
+            u = _save_relative_uri(self.name, base_url, True, None, relative_uris)
             r["name"] = u
         if self.fields is not None:
             r["fields"] = save(
@@ -11487,10 +11524,10 @@ class CommandOutputEnumSchema(OutputEnumSchema):
             for ef in self.extension_fields:
                 r[ef] = self.extension_fields[ef]
         if self.name is not None:
-            u = save_relative_uri(self.name, base_url, True, None, relative_uris)
+            u = _save_relative_uri(self.name, base_url, True, None, relative_uris)
             r["name"] = u
         if self.symbols is not None:
-            u = save_relative_uri(self.symbols, self.name, True, None, relative_uris)
+            u = _save_relative_uri(self.symbols, self.name, True, None, relative_uris)
             r["symbols"] = u
         if self.type_ is not None:
             r["type"] = save(
@@ -11867,10 +11904,10 @@ class CommandOutputArraySchema(OutputArraySchema):
             for ef in self.extension_fields:
                 r[ef] = self.extension_fields[ef]
         if self.name is not None:
-            u = save_relative_uri(self.name, base_url, True, None, relative_uris)
+            u = _save_relative_uri(self.name, base_url, True, None, relative_uris)
             r["name"] = u
         if self.items is not None:
-            u = save_relative_uri(self.items, self.name, False, 2, relative_uris)
+            u = _save_relative_uri(self.items, self.name, False, 2, relative_uris)
             r["items"] = u
         if self.type_ is not None:
             r["type"] = save(
@@ -12571,7 +12608,7 @@ class CommandInputParameter(InputParameter):
             for ef in self.extension_fields:
                 r[ef] = self.extension_fields[ef]
         if self.id is not None:
-            u = save_relative_uri(self.id, base_url, True, None, relative_uris)
+            u = _save_relative_uri(self.id, base_url, True, None, relative_uris)
             r["id"] = u
         if self.label is not None:
             r["label"] = save(
@@ -12596,7 +12633,7 @@ class CommandInputParameter(InputParameter):
                 self.doc, top=False, base_url=self.id, relative_uris=relative_uris
             )
         if self.format is not None:
-            u = save_relative_uri(self.format, self.id, True, None, relative_uris)
+            u = _save_relative_uri(self.format, self.id, True, None, relative_uris)
             r["format"] = u
         if self.loadContents is not None:
             r["loadContents"] = save(
@@ -13170,7 +13207,7 @@ class CommandOutputParameter(OutputParameter):
             for ef in self.extension_fields:
                 r[ef] = self.extension_fields[ef]
         if self.id is not None:
-            u = save_relative_uri(self.id, base_url, True, None, relative_uris)
+            u = _save_relative_uri(self.id, base_url, True, None, relative_uris)
             r["id"] = u
         if self.label is not None:
             r["label"] = save(
@@ -13195,7 +13232,7 @@ class CommandOutputParameter(OutputParameter):
                 self.doc, top=False, base_url=self.id, relative_uris=relative_uris
             )
         if self.format is not None:
-            u = save_relative_uri(self.format, self.id, True, None, relative_uris)
+            u = _save_relative_uri(self.format, self.id, True, None, relative_uris)
             r["format"] = u
         if self.type_ is not None:
             r["type"] = save(
@@ -14237,7 +14274,7 @@ class CommandLineTool(Process):
             for ef in self.extension_fields:
                 r[ef] = self.extension_fields[ef]
         if self.id is not None:
-            u = save_relative_uri(self.id, base_url, True, None, relative_uris)
+            u = _save_relative_uri(self.id, base_url, True, None, relative_uris)
             r["id"] = u
         if self.class_ is not None:
             vocab = _vocab | self.loadingOptions.vocab
@@ -14247,7 +14284,7 @@ class CommandLineTool(Process):
                 uri = f"{p}:{self.class_}"
             else:
                 uri = self.class_
-            u = save_relative_uri(uri, self.id, False, None, relative_uris)
+            u = _save_relative_uri(uri, self.id, False, None, relative_uris)
             r["class"] = u
         if self.label is not None:
             r["label"] = save(
@@ -14277,10 +14314,10 @@ class CommandLineTool(Process):
                 self.hints, top=False, base_url=self.id, relative_uris=relative_uris
             )
         if self.cwlVersion is not None:
-            u = save_relative_uri(self.cwlVersion, self.id, False, None, relative_uris)
+            u = _save_relative_uri(self.cwlVersion, self.id, False, None, relative_uris)
             r["cwlVersion"] = u
         if self.intent is not None:
-            u = save_relative_uri(self.intent, self.id, True, None, relative_uris)
+            u = _save_relative_uri(self.intent, self.id, True, None, relative_uris)
             r["intent"] = u
         if self.baseCommand is not None:
             r["baseCommand"] = save(
@@ -14805,7 +14842,7 @@ class DockerRequirement(ProcessRequirement):
                 uri = f"{p}:{self.class_}"
             else:
                 uri = self.class_
-            u = save_relative_uri(uri, base_url, False, None, relative_uris)
+            u = _save_relative_uri(uri, base_url, False, None, relative_uris)
             r["class"] = u
         if self.dockerPull is not None:
             r["dockerPull"] = save(
@@ -15031,7 +15068,7 @@ class SoftwareRequirement(ProcessRequirement):
                 uri = f"{p}:{self.class_}"
             else:
                 uri = self.class_
-            u = save_relative_uri(uri, base_url, False, None, relative_uris)
+            u = _save_relative_uri(uri, base_url, False, None, relative_uris)
             r["class"] = u
         if self.packages is not None:
             r["packages"] = save(
@@ -15291,7 +15328,7 @@ class SoftwarePackage(Saveable):
                 self.version, top=False, base_url=base_url, relative_uris=relative_uris
             )
         if self.specs is not None:
-            u = save_relative_uri(self.specs, base_url, False, None, relative_uris)
+            u = _save_relative_uri(self.specs, base_url, False, None, relative_uris)
             r["specs"] = u
 
         # top refers to the directory level
@@ -15732,7 +15769,7 @@ class InitialWorkDirRequirement(ProcessRequirement):
                 uri = f"{p}:{self.class_}"
             else:
                 uri = self.class_
-            u = save_relative_uri(uri, base_url, False, None, relative_uris)
+            u = _save_relative_uri(uri, base_url, False, None, relative_uris)
             r["class"] = u
         if self.listing is not None:
             r["listing"] = save(
@@ -15910,7 +15947,7 @@ class EnvVarRequirement(ProcessRequirement):
                 uri = f"{p}:{self.class_}"
             else:
                 uri = self.class_
-            u = save_relative_uri(uri, base_url, False, None, relative_uris)
+            u = _save_relative_uri(uri, base_url, False, None, relative_uris)
             r["class"] = u
         if self.envDef is not None:
             r["envDef"] = save(
@@ -16035,7 +16072,7 @@ class ShellCommandRequirement(ProcessRequirement):
                 uri = f"{p}:{self.class_}"
             else:
                 uri = self.class_
-            u = save_relative_uri(uri, base_url, False, None, relative_uris)
+            u = _save_relative_uri(uri, base_url, False, None, relative_uris)
             r["class"] = u
 
         # top refers to the directory level
@@ -16594,7 +16631,7 @@ class ResourceRequirement(ProcessRequirement):
                 uri = f"{p}:{self.class_}"
             else:
                 uri = self.class_
-            u = save_relative_uri(uri, base_url, False, None, relative_uris)
+            u = _save_relative_uri(uri, base_url, False, None, relative_uris)
             r["class"] = u
         if self.coresMin is not None:
             r["coresMin"] = save(
@@ -16828,7 +16865,7 @@ class WorkReuse(ProcessRequirement):
                 uri = f"{p}:{self.class_}"
             else:
                 uri = self.class_
-            u = save_relative_uri(uri, base_url, False, None, relative_uris)
+            u = _save_relative_uri(uri, base_url, False, None, relative_uris)
             r["class"] = u
         if self.enableReuse is not None:
             r["enableReuse"] = save(
@@ -17018,7 +17055,7 @@ class NetworkAccess(ProcessRequirement):
                 uri = f"{p}:{self.class_}"
             else:
                 uri = self.class_
-            u = save_relative_uri(uri, base_url, False, None, relative_uris)
+            u = _save_relative_uri(uri, base_url, False, None, relative_uris)
             r["class"] = u
         if self.networkAccess is not None:
             r["networkAccess"] = save(
@@ -17210,7 +17247,7 @@ class InplaceUpdateRequirement(ProcessRequirement):
                 uri = f"{p}:{self.class_}"
             else:
                 uri = self.class_
-            u = save_relative_uri(uri, base_url, False, None, relative_uris)
+            u = _save_relative_uri(uri, base_url, False, None, relative_uris)
             r["class"] = u
         if self.inplaceUpdate is not None:
             r["inplaceUpdate"] = save(
@@ -17393,7 +17430,7 @@ class ToolTimeLimit(ProcessRequirement):
                 uri = f"{p}:{self.class_}"
             else:
                 uri = self.class_
-            u = save_relative_uri(uri, base_url, False, None, relative_uris)
+            u = _save_relative_uri(uri, base_url, False, None, relative_uris)
             r["class"] = u
         if self.timelimit is not None:
             r["timelimit"] = save(
@@ -17874,7 +17911,7 @@ class ExpressionToolOutputParameter(OutputParameter):
             for ef in self.extension_fields:
                 r[ef] = self.extension_fields[ef]
         if self.id is not None:
-            u = save_relative_uri(self.id, base_url, True, None, relative_uris)
+            u = _save_relative_uri(self.id, base_url, True, None, relative_uris)
             r["id"] = u
         if self.label is not None:
             r["label"] = save(
@@ -17899,7 +17936,7 @@ class ExpressionToolOutputParameter(OutputParameter):
                 self.doc, top=False, base_url=self.id, relative_uris=relative_uris
             )
         if self.format is not None:
-            u = save_relative_uri(self.format, self.id, True, None, relative_uris)
+            u = _save_relative_uri(self.format, self.id, True, None, relative_uris)
             r["format"] = u
         if self.type_ is not None:
             r["type"] = save(
@@ -18587,7 +18624,7 @@ class WorkflowInputParameter(InputParameter):
             for ef in self.extension_fields:
                 r[ef] = self.extension_fields[ef]
         if self.id is not None:
-            u = save_relative_uri(self.id, base_url, True, None, relative_uris)
+            u = _save_relative_uri(self.id, base_url, True, None, relative_uris)
             r["id"] = u
         if self.label is not None:
             r["label"] = save(
@@ -18612,7 +18649,7 @@ class WorkflowInputParameter(InputParameter):
                 self.doc, top=False, base_url=self.id, relative_uris=relative_uris
             )
         if self.format is not None:
-            u = save_relative_uri(self.format, self.id, True, None, relative_uris)
+            u = _save_relative_uri(self.format, self.id, True, None, relative_uris)
             r["format"] = u
         if self.loadContents is not None:
             r["loadContents"] = save(
@@ -19312,7 +19349,7 @@ class ExpressionTool(Process):
             for ef in self.extension_fields:
                 r[ef] = self.extension_fields[ef]
         if self.id is not None:
-            u = save_relative_uri(self.id, base_url, True, None, relative_uris)
+            u = _save_relative_uri(self.id, base_url, True, None, relative_uris)
             r["id"] = u
         if self.class_ is not None:
             vocab = _vocab | self.loadingOptions.vocab
@@ -19322,7 +19359,7 @@ class ExpressionTool(Process):
                 uri = f"{p}:{self.class_}"
             else:
                 uri = self.class_
-            u = save_relative_uri(uri, self.id, False, None, relative_uris)
+            u = _save_relative_uri(uri, self.id, False, None, relative_uris)
             r["class"] = u
         if self.label is not None:
             r["label"] = save(
@@ -19352,10 +19389,10 @@ class ExpressionTool(Process):
                 self.hints, top=False, base_url=self.id, relative_uris=relative_uris
             )
         if self.cwlVersion is not None:
-            u = save_relative_uri(self.cwlVersion, self.id, False, None, relative_uris)
+            u = _save_relative_uri(self.cwlVersion, self.id, False, None, relative_uris)
             r["cwlVersion"] = u
         if self.intent is not None:
-            u = save_relative_uri(self.intent, self.id, True, None, relative_uris)
+            u = _save_relative_uri(self.intent, self.id, True, None, relative_uris)
             r["intent"] = u
         if self.expression is not None:
             r["expression"] = save(
@@ -20013,7 +20050,7 @@ class WorkflowOutputParameter(OutputParameter):
             for ef in self.extension_fields:
                 r[ef] = self.extension_fields[ef]
         if self.id is not None:
-            u = save_relative_uri(self.id, base_url, True, None, relative_uris)
+            u = _save_relative_uri(self.id, base_url, True, None, relative_uris)
             r["id"] = u
         if self.label is not None:
             r["label"] = save(
@@ -20038,10 +20075,10 @@ class WorkflowOutputParameter(OutputParameter):
                 self.doc, top=False, base_url=self.id, relative_uris=relative_uris
             )
         if self.format is not None:
-            u = save_relative_uri(self.format, self.id, True, None, relative_uris)
+            u = _save_relative_uri(self.format, self.id, True, None, relative_uris)
             r["format"] = u
         if self.outputSource is not None:
-            u = save_relative_uri(self.outputSource, self.id, False, 1, relative_uris)
+            u = _save_relative_uri(self.outputSource, self.id, False, 1, relative_uris)
             r["outputSource"] = u
         if self.linkMerge is not None:
             r["linkMerge"] = save(
@@ -20722,10 +20759,10 @@ class WorkflowStepInput(IdentifierRequired, Sink, LoadContents, Labeled):
             for ef in self.extension_fields:
                 r[ef] = self.extension_fields[ef]
         if self.id is not None:
-            u = save_relative_uri(self.id, base_url, True, None, relative_uris)
+            u = _save_relative_uri(self.id, base_url, True, None, relative_uris)
             r["id"] = u
         if self.source is not None:
-            u = save_relative_uri(self.source, self.id, False, 2, relative_uris)
+            u = _save_relative_uri(self.source, self.id, False, 2, relative_uris)
             r["source"] = u
         if self.linkMerge is not None:
             r["linkMerge"] = save(
@@ -20931,7 +20968,7 @@ class WorkflowStepOutput(IdentifierRequired):
             for ef in self.extension_fields:
                 r[ef] = self.extension_fields[ef]
         if self.id is not None:
-            u = save_relative_uri(self.id, base_url, True, None, relative_uris)
+            u = _save_relative_uri(self.id, base_url, True, None, relative_uris)
             r["id"] = u
 
         # top refers to the directory level
@@ -21661,7 +21698,7 @@ class WorkflowStep(IdentifierRequired, Labeled, schema_salad.metaschema.Document
             for ef in self.extension_fields:
                 r[ef] = self.extension_fields[ef]
         if self.id is not None:
-            u = save_relative_uri(self.id, base_url, True, None, relative_uris)
+            u = _save_relative_uri(self.id, base_url, True, None, relative_uris)
             r["id"] = u
         if self.label is not None:
             r["label"] = save(
@@ -21676,7 +21713,7 @@ class WorkflowStep(IdentifierRequired, Labeled, schema_salad.metaschema.Document
                 self.in_, top=False, base_url=self.id, relative_uris=relative_uris
             )
         if self.out is not None:
-            u = save_relative_uri(self.out, self.id, True, None, relative_uris)
+            u = _save_relative_uri(self.out, self.id, True, None, relative_uris)
             r["out"] = u
         if self.requirements is not None:
             r["requirements"] = save(
@@ -21690,17 +21727,17 @@ class WorkflowStep(IdentifierRequired, Labeled, schema_salad.metaschema.Document
                 self.hints, top=False, base_url=self.id, relative_uris=relative_uris
             )
         if self.run is not None:
-            u = save_relative_uri(self.run, self.id, False, None, relative_uris)
+            u = _save_relative_uri(self.run, self.id, False, None, relative_uris)
             r["run"] = u
         if self.when is not None:
             r["when"] = save(
                 self.when, top=False, base_url=self.id, relative_uris=relative_uris
             )
         if self.scatter is not None:
-            u = save_relative_uri(self.scatter, self.id, False, 0, relative_uris)
+            u = _save_relative_uri(self.scatter, self.id, False, 0, relative_uris)
             r["scatter"] = u
         if self.scatterMethod is not None:
-            u = save_relative_uri(
+            u = _save_relative_uri(
                 self.scatterMethod, self.id, False, None, relative_uris
             )
             r["scatterMethod"] = u
@@ -22397,7 +22434,7 @@ class Workflow(Process):
             for ef in self.extension_fields:
                 r[ef] = self.extension_fields[ef]
         if self.id is not None:
-            u = save_relative_uri(self.id, base_url, True, None, relative_uris)
+            u = _save_relative_uri(self.id, base_url, True, None, relative_uris)
             r["id"] = u
         if self.class_ is not None:
             vocab = _vocab | self.loadingOptions.vocab
@@ -22407,7 +22444,7 @@ class Workflow(Process):
                 uri = f"{p}:{self.class_}"
             else:
                 uri = self.class_
-            u = save_relative_uri(uri, self.id, False, None, relative_uris)
+            u = _save_relative_uri(uri, self.id, False, None, relative_uris)
             r["class"] = u
         if self.label is not None:
             r["label"] = save(
@@ -22437,10 +22474,10 @@ class Workflow(Process):
                 self.hints, top=False, base_url=self.id, relative_uris=relative_uris
             )
         if self.cwlVersion is not None:
-            u = save_relative_uri(self.cwlVersion, self.id, False, None, relative_uris)
+            u = _save_relative_uri(self.cwlVersion, self.id, False, None, relative_uris)
             r["cwlVersion"] = u
         if self.intent is not None:
-            u = save_relative_uri(self.intent, self.id, True, None, relative_uris)
+            u = _save_relative_uri(self.intent, self.id, True, None, relative_uris)
             r["intent"] = u
         if self.steps is not None:
             r["steps"] = save(
@@ -22579,7 +22616,7 @@ class SubworkflowFeatureRequirement(ProcessRequirement):
                 uri = f"{p}:{self.class_}"
             else:
                 uri = self.class_
-            u = save_relative_uri(uri, base_url, False, None, relative_uris)
+            u = _save_relative_uri(uri, base_url, False, None, relative_uris)
             r["class"] = u
 
         # top refers to the directory level
@@ -22700,7 +22737,7 @@ class ScatterFeatureRequirement(ProcessRequirement):
                 uri = f"{p}:{self.class_}"
             else:
                 uri = self.class_
-            u = save_relative_uri(uri, base_url, False, None, relative_uris)
+            u = _save_relative_uri(uri, base_url, False, None, relative_uris)
             r["class"] = u
 
         # top refers to the directory level
@@ -22821,7 +22858,7 @@ class MultipleInputFeatureRequirement(ProcessRequirement):
                 uri = f"{p}:{self.class_}"
             else:
                 uri = self.class_
-            u = save_relative_uri(uri, base_url, False, None, relative_uris)
+            u = _save_relative_uri(uri, base_url, False, None, relative_uris)
             r["class"] = u
 
         # top refers to the directory level
@@ -22942,7 +22979,7 @@ class StepInputExpressionRequirement(ProcessRequirement):
                 uri = f"{p}:{self.class_}"
             else:
                 uri = self.class_
-            u = save_relative_uri(uri, base_url, False, None, relative_uris)
+            u = _save_relative_uri(uri, base_url, False, None, relative_uris)
             r["class"] = u
 
         # top refers to the directory level
@@ -23577,7 +23614,7 @@ class OperationInputParameter(InputParameter):
             for ef in self.extension_fields:
                 r[ef] = self.extension_fields[ef]
         if self.id is not None:
-            u = save_relative_uri(self.id, base_url, True, None, relative_uris)
+            u = _save_relative_uri(self.id, base_url, True, None, relative_uris)
             r["id"] = u
         if self.label is not None:
             r["label"] = save(
@@ -23602,7 +23639,7 @@ class OperationInputParameter(InputParameter):
                 self.doc, top=False, base_url=self.id, relative_uris=relative_uris
             )
         if self.format is not None:
-            u = save_relative_uri(self.format, self.id, True, None, relative_uris)
+            u = _save_relative_uri(self.format, self.id, True, None, relative_uris)
             r["format"] = u
         if self.loadContents is not None:
             r["loadContents"] = save(
@@ -24116,7 +24153,7 @@ class OperationOutputParameter(OutputParameter):
             for ef in self.extension_fields:
                 r[ef] = self.extension_fields[ef]
         if self.id is not None:
-            u = save_relative_uri(self.id, base_url, True, None, relative_uris)
+            u = _save_relative_uri(self.id, base_url, True, None, relative_uris)
             r["id"] = u
         if self.label is not None:
             r["label"] = save(
@@ -24141,7 +24178,7 @@ class OperationOutputParameter(OutputParameter):
                 self.doc, top=False, base_url=self.id, relative_uris=relative_uris
             )
         if self.format is not None:
-            u = save_relative_uri(self.format, self.id, True, None, relative_uris)
+            u = _save_relative_uri(self.format, self.id, True, None, relative_uris)
             r["format"] = u
         if self.type_ is not None:
             r["type"] = save(
@@ -24751,7 +24788,7 @@ class Operation(Process):
             for ef in self.extension_fields:
                 r[ef] = self.extension_fields[ef]
         if self.id is not None:
-            u = save_relative_uri(self.id, base_url, True, None, relative_uris)
+            u = _save_relative_uri(self.id, base_url, True, None, relative_uris)
             r["id"] = u
         if self.class_ is not None:
             vocab = _vocab | self.loadingOptions.vocab
@@ -24761,7 +24798,7 @@ class Operation(Process):
                 uri = f"{p}:{self.class_}"
             else:
                 uri = self.class_
-            u = save_relative_uri(uri, self.id, False, None, relative_uris)
+            u = _save_relative_uri(uri, self.id, False, None, relative_uris)
             r["class"] = u
         if self.label is not None:
             r["label"] = save(
@@ -24791,10 +24828,10 @@ class Operation(Process):
                 self.hints, top=False, base_url=self.id, relative_uris=relative_uris
             )
         if self.cwlVersion is not None:
-            u = save_relative_uri(self.cwlVersion, self.id, False, None, relative_uris)
+            u = _save_relative_uri(self.cwlVersion, self.id, False, None, relative_uris)
             r["cwlVersion"] = u
         if self.intent is not None:
-            u = save_relative_uri(self.intent, self.id, True, None, relative_uris)
+            u = _save_relative_uri(self.intent, self.id, True, None, relative_uris)
             r["intent"] = u
 
         # top refers to the directory level
@@ -24976,10 +25013,10 @@ class Secrets(ProcessRequirement):
                 uri = f"{p}:{self.class_}"
             else:
                 uri = self.class_
-            u = save_relative_uri(uri, base_url, False, None, relative_uris)
+            u = _save_relative_uri(uri, base_url, False, None, relative_uris)
             r["class"] = u
         if self.secrets is not None:
-            u = save_relative_uri(self.secrets, base_url, False, 0, relative_uris)
+            u = _save_relative_uri(self.secrets, base_url, False, 0, relative_uris)
             r["secrets"] = u
 
         # top refers to the directory level
@@ -25633,7 +25670,7 @@ class ProcessGenerator(Process):
             for ef in self.extension_fields:
                 r[ef] = self.extension_fields[ef]
         if self.id is not None:
-            u = save_relative_uri(self.id, base_url, True, None, relative_uris)
+            u = _save_relative_uri(self.id, base_url, True, None, relative_uris)
             r["id"] = u
         if self.class_ is not None:
             vocab = _vocab | self.loadingOptions.vocab
@@ -25643,7 +25680,7 @@ class ProcessGenerator(Process):
                 uri = f"{p}:{self.class_}"
             else:
                 uri = self.class_
-            u = save_relative_uri(uri, self.id, False, None, relative_uris)
+            u = _save_relative_uri(uri, self.id, False, None, relative_uris)
             r["class"] = u
         if self.label is not None:
             r["label"] = save(
@@ -25673,13 +25710,13 @@ class ProcessGenerator(Process):
                 self.hints, top=False, base_url=self.id, relative_uris=relative_uris
             )
         if self.cwlVersion is not None:
-            u = save_relative_uri(self.cwlVersion, self.id, False, None, relative_uris)
+            u = _save_relative_uri(self.cwlVersion, self.id, False, None, relative_uris)
             r["cwlVersion"] = u
         if self.intent is not None:
-            u = save_relative_uri(self.intent, self.id, True, None, relative_uris)
+            u = _save_relative_uri(self.intent, self.id, True, None, relative_uris)
             r["intent"] = u
         if self.run is not None:
-            u = save_relative_uri(self.run, self.id, False, None, relative_uris)
+            u = _save_relative_uri(self.run, self.id, False, None, relative_uris)
             r["run"] = u
 
         # top refers to the directory level
@@ -25869,7 +25906,7 @@ class MPIRequirement(ProcessRequirement):
                 uri = f"{p}:{self.class_}"
             else:
                 uri = self.class_
-            u = save_relative_uri(uri, base_url, False, None, relative_uris)
+            u = _save_relative_uri(uri, base_url, False, None, relative_uris)
             r["class"] = u
         if self.processes is not None:
             r["processes"] = save(
@@ -26215,7 +26252,7 @@ class CUDARequirement(ProcessRequirement):
                 uri = f"{p}:{self.class_}"
             else:
                 uri = self.class_
-            u = save_relative_uri(uri, base_url, False, None, relative_uris)
+            u = _save_relative_uri(uri, base_url, False, None, relative_uris)
             r["class"] = u
         if self.cudaComputeCapability is not None:
             r["cudaComputeCapability"] = save(
@@ -26672,7 +26709,7 @@ class LoopInput(Saveable):
             for ef in self.extension_fields:
                 r[ef] = self.extension_fields[ef]
         if self.id is not None:
-            u = save_relative_uri(self.id, base_url, True, None, relative_uris)
+            u = _save_relative_uri(self.id, base_url, True, None, relative_uris)
             r["id"] = u
         if self.default is not None:
             r["default"] = save(
@@ -26683,7 +26720,7 @@ class LoopInput(Saveable):
                 self.linkMerge, top=False, base_url=self.id, relative_uris=relative_uris
             )
         if self.loopSource is not None:
-            u = save_relative_uri(self.loopSource, self.id, False, 1, relative_uris)
+            u = _save_relative_uri(self.loopSource, self.id, False, 1, relative_uris)
             r["loopSource"] = u
         if self.pickValue is not None:
             r["pickValue"] = save(
@@ -26982,7 +27019,7 @@ class Loop(ProcessRequirement):
                 uri = f"{p}:{self.class_}"
             else:
                 uri = self.class_
-            u = save_relative_uri(uri, base_url, False, None, relative_uris)
+            u = _save_relative_uri(uri, base_url, False, None, relative_uris)
             r["class"] = u
         if self.loop is not None:
             r["loop"] = save(
@@ -27168,7 +27205,7 @@ class ShmSize(ProcessRequirement):
                 uri = f"{p}:{self.class_}"
             else:
                 uri = self.class_
-            u = save_relative_uri(uri, base_url, False, None, relative_uris)
+            u = _save_relative_uri(uri, base_url, False, None, relative_uris)
             r["class"] = u
         if self.shmSize is not None:
             r["shmSize"] = save(
-- 
2.43.0


From ff97fed1bf3f8cd6ebcf40bcc543bf4c6d7c42d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:22 +0000
Subject: [PATCH 38/78] fix: save the identifiers of embedded processes
 relative to their scope

---
 src/cwl_utils/parser/cwl_v1_1.py | 6 ++++--
 src/cwl_utils/parser/cwl_v1_2.py | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/cwl_utils/parser/cwl_v1_1.py b/src/cwl_utils/parser/cwl_v1_1.py
index a2f80a8..52779dd 100644
--- a/src/cwl_utils/parser/cwl_v1_1.py
+++ b/src/cwl_utils/parser/cwl_v1_1.py
@@ -21367,7 +21367,8 @@ class WorkflowStep(IdentifierRequired, Labeled, schema_salad.metaschema.Document
                 self.hints, top=False, base_url=self.id, relative_uris=relative_uris
             )
         if self.run is not None:
-            u = _save_relative_uri(self.run, self.id, False, None, relative_uris)
+            run_url = self.id if isinstance(self.run, str) else f"{self.id}/run"
+            u = _save_relative_uri(self.run, run_url, False, None, relative_uris)
             r["run"] = u
         if self.scatter is not None:
             u = _save_relative_uri(self.scatter, self.id, False, 0, relative_uris)
@@ -23373,7 +23374,8 @@ class ProcessGenerator(Process):
             u = _save_relative_uri(self.cwlVersion, self.id, False, None, relative_uris)
             r["cwlVersion"] = u
         if self.run is not None:
-            u = _save_relative_uri(self.run, self.id, False, None, relative_uris)
+            run_url = self.id if isinstance(self.run, str) else f"{self.id}/run"
+            u = _save_relative_uri(self.run, run_url, False, None, relative_uris)
             r["run"] = u
 
         # top refers to the directory level
diff --git a/src/cwl_utils/parser/cwl_v1_2.py b/src/cwl_utils/parser/cwl_v1_2.py
index af3a85d..d224624 100644
--- a/src/cwl_utils/parser/cwl_v1_2.py
+++ b/src/cwl_utils/parser/cwl_v1_2.py
@@ -21727,7 +21727,8 @@ class WorkflowStep(IdentifierRequired, Labeled, schema_salad.metaschema.Document
                 self.hints, top=False, base_url=self.id, relative_uris=relative_uris
             )
         if self.run is not None:
-            u = _save_relative_uri(self.run, self.id, False, None, relative_uris)
+            run_url = self.id if isinstance(self.run, str) else f"{self.id}/run"
+            u = _save_relative_uri(self.run, run_url, False, None, relative_uris)
             r["run"] = u
         if self.when is not None:
             r["when"] = save(
@@ -25716,7 +25717,8 @@ class ProcessGenerator(Process):
             u = _save_relative_uri(self.intent, self.id, True, None, relative_uris)
             r["intent"] = u
         if self.run is not None:
-            u = _save_relative_uri(self.run, self.id, False, None, relative_uris)
+            run_url = self.id if isinstance(self.run, str) else f"{self.id}/run"
+            u = _save_relative_uri(self.run, run_url, False, None, relative_uris)
             r["run"] = u
 
         # top refers to the directory level
-- 
2.43.0


From 7d8521779a3ba778cf12609cab83a9ae4e6bfb03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:40 +0000
Subject: [PATCH 39/78] fix: resolve references at the top level of documents
 without an id

---
 src/cwl_utils/parser/cwl_v1_0.py | 2 +-
 src/cwl_utils/parser/cwl_v1_1.py | 2 +-
 src/cwl_utils/parser/cwl_v1_2.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cwl_utils/parser/cwl_v1_0.py b/src/cwl_utils/parser/cwl_v1_0.py
index b2fe8a7..aca073b 100644
--- a/src/cwl_utils/parser/cwl_v1_0.py
+++ b/src/cwl_utils/parser/cwl_v1_0.py
@@ -797,7 +797,7 @@ def _expand_url(
         url = urlunsplit((splitbase1.scheme, splitbase1.netloc, pt, splitbase1.query, frg))
     elif scoped_ref is not None and not bool(split1.fragment):
         splitbase2: Final = urlsplit(base_url)
-        sp = splitbase2.fragment.split("/")
+        sp = splitbase2.fragment.split("/") if splitbase2.fragment else []
         n = scoped_ref
         while n > 0 and len(sp) > 0:
             sp.pop()
diff --git a/src/cwl_utils/parser/cwl_v1_1.py b/src/cwl_utils/parser/cwl_v1_1.py
index 52779dd..7d1eaec 100644
--- a/src/cwl_utils/parser/cwl_v1_1.py
+++ b/src/cwl_utils/parser/cwl_v1_1.py
@@ -797,7 +797,7 @@ def _expand_url(
         url = urlunsplit((splitbase1.scheme, splitbase1.netloc, pt, splitbase1.query, frg))
     elif scoped_ref is not None and not bool(split1.fragment):
         splitbase2: Final = urlsplit(base_url)
-        sp = splitbase2.fragment.split("/")
+        sp = splitbase2.fragment.split("/") if splitbase2.fragment else []
         n = scoped_ref
         while n > 0 and len(sp) > 0:
             sp.pop()
diff --git a/src/cwl_utils/parser/cwl_v1_2.py b/src/cwl_utils/parser/cwl_v1_2.py
index d224624..a08777e 100644
--- a/src/cwl_utils/parser/cwl_v1_2.py
+++ b/src/cwl_utils/parser/cwl_v1_2.py
@@ -797,7 +797,7 @@ def _expand_url(
         url = urlunsplit((splitbase1.scheme, splitbase1.netloc, pt, splitbase1.query, frg))
     elif scoped_ref is not None and not bool(split1.fragment):
         splitbase2: Final = urlsplit(base_url)
-        sp = splitbase2.fragment.split("/")
+        sp = splitbase2.fragment.split("/") if splitbase2.fragment else []
         n = scoped_ref
         while n > 0 and len(sp) > 0:
             sp.pop()
-- 
2.43.0


From 3d44aa3234ce5a000886e264fce7fa34f352eaf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:40 +0000
Subject: [PATCH 40/78] fix: save references to types named like a builtin type
 with their fragment

---
 src/cwl_utils/parser/cwl_v1_0.py | 10 +++++-----
 src/cwl_utils/parser/cwl_v1_1.py | 10 +++++-----
 src/cwl_utils/parser/cwl_v1_2.py | 10 +++++-----
 3 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/cwl_utils/parser/cwl_v1_0.py b/src/cwl_utils/parser/cwl_v1_0.py
index aca073b..81c4b9a 100644
--- a/src/cwl_utils/parser/cwl_v1_0.py
+++ b/src/cwl_utils/parser/cwl_v1_0.py
@@ -856,11 +856,11 @@ def _save_relative_uri(
         scope = "/".join(basesplit.fragment.split("/")[: -ref_scope or None])
     else:
         return "#" + urisplit.fragment
-    if scope == "":
-        return urisplit.fragment
-    if urisplit.fragment.startswith(scope + "/"):
-        return urisplit.fragment[len(scope) + 1 :]
-    return "#" + urisplit.fragment
+    prefix: Final = scope + "/" if scope else ""
+    relative: Final = urisplit.fragment[len(prefix) :]
+    if not urisplit.fragment.startswith(prefix) or (not scoped_id and relative in _vocab):
+        return "#" + urisplit.fragment
+    return relative
 
 
 def _load_field(
diff --git a/src/cwl_utils/parser/cwl_v1_1.py b/src/cwl_utils/parser/cwl_v1_1.py
index 7d1eaec..01625ee 100644
--- a/src/cwl_utils/parser/cwl_v1_1.py
+++ b/src/cwl_utils/parser/cwl_v1_1.py
@@ -856,11 +856,11 @@ def _save_relative_uri(
         scope = "/".join(basesplit.fragment.split("/")[: -ref_scope or None])
     else:
         return "#" + urisplit.fragment
-    if scope == "":
-        return urisplit.fragment
-    if urisplit.fragment.startswith(scope + "/"):
-        return urisplit.fragment[len(scope) + 1 :]
-    return "#" + urisplit.fragment
+    prefix: Final = scope + "/" if scope else ""
+    relative: Final = urisplit.fragment[len(prefix) :]
+    if not urisplit.fragment.startswith(prefix) or (not scoped_id and relative in _vocab):
+        return "#" + urisplit.fragment
+    return relative
 
 
 def _load_field(
diff --git a/src/cwl_utils/parser/cwl_v1_2.py b/src/cwl_utils/parser/cwl_v1_2.py
index a08777e..c46ca75 100644
--- a/src/cwl_utils/parser/cwl_v1_2.py
+++ b/src/cwl_utils/parser/cwl_v1_2.py
@@ -856,11 +856,11 @@ def _save_relative_uri(
         scope = "/".join(basesplit.fragment.split("/")[: -ref_scope or None])
     else:
         return "#" + urisplit.fragment
-    if scope == "":
-        return urisplit.fragment
-    if urisplit.fragment.startswith(scope + "/"):
-        return urisplit.fragment[len(scope) + 1 :]
-    return "#" + urisplit.fragment
+    prefix: Final = scope + "/" if scope else ""
+    relative: Final = urisplit.fragment[len(prefix) :]
+    if not urisplit.fragment.startswith(prefix) or (not scoped_id and relative in _vocab):
+        return "#" + urisplit.fragment
+    return relative
 
 
 def _load_field(
-- 
2.43.0


From 57d978f04a1bcf65a7500c4457fbb29f5ec3303b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:20 +0000
Subject: [PATCH 41/78] fix: save the namespaces of a list of processes at the
 top level of the document

---
 src/cwl_utils/parser/__init__.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/cwl_utils/parser/__init__.py b/src/cwl_utils/parser/__init__.py
index 7daeef8..f687019 100644
--- a/src/cwl_utils/parser/__init__.py
+++ b/src/cwl_utils/parser/__init__.py
@@ -444,7 +444,15 @@ def save(
                 latest = max(
                     (v for v in vers if v is not None), key=cast(Any, version_split)
                 )
-                return {"cwlVersion": latest, "$graph": lst}
+                graph: dict[str, Any] = {"cwlVersion": latest, "$graph": lst}
+                for e in lst:
+                    # these are only allowed at the top level of a document
+                    if "$namespaces" in e:
+                        graph.setdefault("$namespaces", {}).update(e.pop("$namespaces"))
+                    for schema in e.pop("$schemas", []):
+                        if schema not in graph.setdefault("$schemas", []):
+                            graph["$schemas"].append(schema)
+                return graph
             return lst
         case MutableMapping():
             newdict = {}
-- 
2.43.0


From 076129da57e66cf8cd99d4d316d9c5968ab9a08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:14 +0000
Subject: [PATCH 42/78] fix: report identifiers of a wrong type as validation
 errors

---
 src/cwl_utils/parser/cwl_v1_0.py | 2 +-
 src/cwl_utils/parser/cwl_v1_1.py | 2 +-
 src/cwl_utils/parser/cwl_v1_2.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cwl_utils/parser/cwl_v1_0.py b/src/cwl_utils/parser/cwl_v1_0.py
index 81c4b9a..0e50f24 100644
--- a/src/cwl_utils/parser/cwl_v1_0.py
+++ b/src/cwl_utils/parser/cwl_v1_0.py
@@ -394,7 +394,7 @@ class _UnionLoader(Loader):
                                     errors.append(
                                         ValidationException(
                                             f"checking object `{id}` using `{t}`",
-                                            SourceLine(lc, doc.get("id"), str),
+                                            SourceLine(lc, str(doc.get("id")), str),
                                             [e],
                                         )
                                     )
diff --git a/src/cwl_utils/parser/cwl_v1_1.py b/src/cwl_utils/parser/cwl_v1_1.py
index 01625ee..f99dfe3 100644
--- a/src/cwl_utils/parser/cwl_v1_1.py
+++ b/src/cwl_utils/parser/cwl_v1_1.py
@@ -394,7 +394,7 @@ class _UnionLoader(Loader):
                                     errors.append(
                                         ValidationException(
                                             f"checking object `{id}` using `{t}`",
-                                            SourceLine(lc, doc.get("id"), str),
+                                            SourceLine(lc, str(doc.get("id")), str),
                                             [e],
                                         )
                                     )
diff --git a/src/cwl_utils/parser/cwl_v1_2.py b/src/cwl_utils/parser/cwl_v1_2.py
index c46ca75..a068fa1 100644
--- a/src/cwl_utils/parser/cwl_v1_2.py
+++ b/src/cwl_utils/parser/cwl_v1_2.py
@@ -394,7 +394,7 @@ class _UnionLoader(Loader):
                                     errors.append(
                                         ValidationException(
                                             f"checking object `{id}` using `{t}`",
-                                            SourceLine(lc, doc.get("id"), str),
+                                            SourceLine(lc, str(doc.get("id")), str),
                                             [e],
                                         )
                                     )
-- 
2.43.0


From 4f732feb6e0b0aabb856643375645d6b15c5566d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:14 +0000
Subject: [PATCH 43/78] fix: reject map entries that are no objects where a
 field needs objects

---
 src/cwl_utils/parser/cwl_v1_0.py | 8 ++++----
 src/cwl_utils/parser/cwl_v1_1.py | 8 ++++----
 src/cwl_utils/parser/cwl_v1_2.py | 8 ++++----
 3 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/cwl_utils/parser/cwl_v1_0.py b/src/cwl_utils/parser/cwl_v1_0.py
index 0e50f24..e2dc9b1 100644
--- a/src/cwl_utils/parser/cwl_v1_0.py
+++ b/src/cwl_utils/parser/cwl_v1_0.py
@@ -23127,7 +23127,7 @@ union_of_None_type_or_array_of_ProcessRequirement: Final = _UnionLoader(
     )
 )
 idmap_requirements_union_of_None_type_or_array_of_ProcessRequirement: Final = (
-    _IdMapLoader(union_of_None_type_or_array_of_ProcessRequirement, "class", "None")
+    _IdMapLoader(union_of_None_type_or_array_of_ProcessRequirement, "class", None)
 )
 union_of_InlineJavascriptRequirementLoader_or_SchemaDefRequirementLoader_or_DockerRequirementLoader_or_SoftwareRequirementLoader_or_InitialWorkDirRequirementLoader_or_EnvVarRequirementLoader_or_ShellCommandRequirementLoader_or_ResourceRequirementLoader_or_SubworkflowFeatureRequirementLoader_or_ScatterFeatureRequirementLoader_or_MultipleInputFeatureRequirementLoader_or_StepInputExpressionRequirementLoader_or_LoadListingRequirementLoader_or_InplaceUpdateRequirementLoader_or_SecretsLoader_or_TimeLimitLoader_or_WorkReuseLoader_or_NetworkAccessLoader_or_MPIRequirementLoader_or_CUDARequirementLoader_or_ShmSizeLoader_or_Any_type: (
     Final
@@ -23175,7 +23175,7 @@ idmap_hints_union_of_None_type_or_array_of_union_of_InlineJavascriptRequirementL
 ) = _IdMapLoader(
     union_of_None_type_or_array_of_union_of_InlineJavascriptRequirementLoader_or_SchemaDefRequirementLoader_or_DockerRequirementLoader_or_SoftwareRequirementLoader_or_InitialWorkDirRequirementLoader_or_EnvVarRequirementLoader_or_ShellCommandRequirementLoader_or_ResourceRequirementLoader_or_SubworkflowFeatureRequirementLoader_or_ScatterFeatureRequirementLoader_or_MultipleInputFeatureRequirementLoader_or_StepInputExpressionRequirementLoader_or_LoadListingRequirementLoader_or_InplaceUpdateRequirementLoader_or_SecretsLoader_or_TimeLimitLoader_or_WorkReuseLoader_or_NetworkAccessLoader_or_MPIRequirementLoader_or_CUDARequirementLoader_or_ShmSizeLoader_or_Any_type,
     "class",
-    "None",
+    None,
 )
 union_of_None_type_or_CWLVersionLoader: Final = _UnionLoader(
     (
@@ -23580,7 +23580,7 @@ union_of_None_type_or_array_of_Any_type: Final = _UnionLoader(
     )
 )
 idmap_hints_union_of_None_type_or_array_of_Any_type: Final = _IdMapLoader(
-    union_of_None_type_or_array_of_Any_type, "class", "None"
+    union_of_None_type_or_array_of_Any_type, "class", None
 )
 union_of_strtype_or_CommandLineToolLoader_or_ExpressionToolLoader_or_WorkflowLoader_or_ProcessGeneratorLoader: (
     Final
@@ -23629,7 +23629,7 @@ union_of_array_of_WorkflowStepLoader: Final = _UnionLoader(
     (array_of_WorkflowStepLoader,)
 )
 idmap_steps_union_of_array_of_WorkflowStepLoader: Final = _IdMapLoader(
-    union_of_array_of_WorkflowStepLoader, "id", "None"
+    union_of_array_of_WorkflowStepLoader, "id", None
 )
 SubworkflowFeatureRequirement_classLoader: Final = _EnumLoader(
     ("SubworkflowFeatureRequirement",), "SubworkflowFeatureRequirement_class"
diff --git a/src/cwl_utils/parser/cwl_v1_1.py b/src/cwl_utils/parser/cwl_v1_1.py
index f99dfe3..e5d3634 100644
--- a/src/cwl_utils/parser/cwl_v1_1.py
+++ b/src/cwl_utils/parser/cwl_v1_1.py
@@ -25193,7 +25193,7 @@ union_of_None_type_or_array_of_ProcessRequirement: Final = _UnionLoader(
     )
 )
 idmap_requirements_union_of_None_type_or_array_of_ProcessRequirement: Final = (
-    _IdMapLoader(union_of_None_type_or_array_of_ProcessRequirement, "class", "None")
+    _IdMapLoader(union_of_None_type_or_array_of_ProcessRequirement, "class", None)
 )
 union_of_InlineJavascriptRequirementLoader_or_SchemaDefRequirementLoader_or_LoadListingRequirementLoader_or_DockerRequirementLoader_or_SoftwareRequirementLoader_or_InitialWorkDirRequirementLoader_or_EnvVarRequirementLoader_or_ShellCommandRequirementLoader_or_ResourceRequirementLoader_or_WorkReuseLoader_or_NetworkAccessLoader_or_InplaceUpdateRequirementLoader_or_ToolTimeLimitLoader_or_SubworkflowFeatureRequirementLoader_or_ScatterFeatureRequirementLoader_or_MultipleInputFeatureRequirementLoader_or_StepInputExpressionRequirementLoader_or_SecretsLoader_or_MPIRequirementLoader_or_CUDARequirementLoader_or_ShmSizeLoader_or_Any_type: (
     Final
@@ -25241,7 +25241,7 @@ idmap_hints_union_of_None_type_or_array_of_union_of_InlineJavascriptRequirementL
 ) = _IdMapLoader(
     union_of_None_type_or_array_of_union_of_InlineJavascriptRequirementLoader_or_SchemaDefRequirementLoader_or_LoadListingRequirementLoader_or_DockerRequirementLoader_or_SoftwareRequirementLoader_or_InitialWorkDirRequirementLoader_or_EnvVarRequirementLoader_or_ShellCommandRequirementLoader_or_ResourceRequirementLoader_or_WorkReuseLoader_or_NetworkAccessLoader_or_InplaceUpdateRequirementLoader_or_ToolTimeLimitLoader_or_SubworkflowFeatureRequirementLoader_or_ScatterFeatureRequirementLoader_or_MultipleInputFeatureRequirementLoader_or_StepInputExpressionRequirementLoader_or_SecretsLoader_or_MPIRequirementLoader_or_CUDARequirementLoader_or_ShmSizeLoader_or_Any_type,
     "class",
-    "None",
+    None,
 )
 union_of_None_type_or_CWLVersionLoader: Final = _UnionLoader(
     (
@@ -25707,7 +25707,7 @@ union_of_None_type_or_array_of_Any_type: Final = _UnionLoader(
     )
 )
 idmap_hints_union_of_None_type_or_array_of_Any_type: Final = _IdMapLoader(
-    union_of_None_type_or_array_of_Any_type, "class", "None"
+    union_of_None_type_or_array_of_Any_type, "class", None
 )
 union_of_strtype_or_CommandLineToolLoader_or_ExpressionToolLoader_or_WorkflowLoader_or_ProcessGeneratorLoader: (
     Final
@@ -25756,7 +25756,7 @@ union_of_array_of_WorkflowStepLoader: Final = _UnionLoader(
     (array_of_WorkflowStepLoader,)
 )
 idmap_steps_union_of_array_of_WorkflowStepLoader: Final = _IdMapLoader(
-    union_of_array_of_WorkflowStepLoader, "id", "None"
+    union_of_array_of_WorkflowStepLoader, "id", None
 )
 SubworkflowFeatureRequirement_classLoader: Final = _EnumLoader(
     ("SubworkflowFeatureRequirement",), "SubworkflowFeatureRequirement_class"
diff --git a/src/cwl_utils/parser/cwl_v1_2.py b/src/cwl_utils/parser/cwl_v1_2.py
index a068fa1..44a5a8d 100644
--- a/src/cwl_utils/parser/cwl_v1_2.py
+++ b/src/cwl_utils/parser/cwl_v1_2.py
@@ -28333,7 +28333,7 @@ union_of_None_type_or_array_of_ProcessRequirement: Final = _UnionLoader(
     )
 )
 idmap_requirements_union_of_None_type_or_array_of_ProcessRequirement: Final = (
-    _IdMapLoader(union_of_None_type_or_array_of_ProcessRequirement, "class", "None")
+    _IdMapLoader(union_of_None_type_or_array_of_ProcessRequirement, "class", None)
 )
 union_of_InlineJavascriptRequirementLoader_or_SchemaDefRequirementLoader_or_LoadListingRequirementLoader_or_DockerRequirementLoader_or_SoftwareRequirementLoader_or_InitialWorkDirRequirementLoader_or_EnvVarRequirementLoader_or_ShellCommandRequirementLoader_or_ResourceRequirementLoader_or_WorkReuseLoader_or_NetworkAccessLoader_or_InplaceUpdateRequirementLoader_or_ToolTimeLimitLoader_or_SubworkflowFeatureRequirementLoader_or_ScatterFeatureRequirementLoader_or_MultipleInputFeatureRequirementLoader_or_StepInputExpressionRequirementLoader_or_SecretsLoader_or_MPIRequirementLoader_or_CUDARequirementLoader_or_LoopLoader_or_ShmSizeLoader_or_Any_type: (
     Final
@@ -28382,7 +28382,7 @@ idmap_hints_union_of_None_type_or_array_of_union_of_InlineJavascriptRequirementL
 ) = _IdMapLoader(
     union_of_None_type_or_array_of_union_of_InlineJavascriptRequirementLoader_or_SchemaDefRequirementLoader_or_LoadListingRequirementLoader_or_DockerRequirementLoader_or_SoftwareRequirementLoader_or_InitialWorkDirRequirementLoader_or_EnvVarRequirementLoader_or_ShellCommandRequirementLoader_or_ResourceRequirementLoader_or_WorkReuseLoader_or_NetworkAccessLoader_or_InplaceUpdateRequirementLoader_or_ToolTimeLimitLoader_or_SubworkflowFeatureRequirementLoader_or_ScatterFeatureRequirementLoader_or_MultipleInputFeatureRequirementLoader_or_StepInputExpressionRequirementLoader_or_SecretsLoader_or_MPIRequirementLoader_or_CUDARequirementLoader_or_LoopLoader_or_ShmSizeLoader_or_Any_type,
     "class",
-    "None",
+    None,
 )
 union_of_None_type_or_CWLVersionLoader: Final = _UnionLoader(
     (
@@ -28865,7 +28865,7 @@ union_of_None_type_or_array_of_Any_type: Final = _UnionLoader(
     )
 )
 idmap_hints_union_of_None_type_or_array_of_Any_type: Final = _IdMapLoader(
-    union_of_None_type_or_array_of_Any_type, "class", "None"
+    union_of_None_type_or_array_of_Any_type, "class", None
 )
 union_of_strtype_or_CommandLineToolLoader_or_ExpressionToolLoader_or_WorkflowLoader_or_OperationLoader_or_ProcessGeneratorLoader: (
     Final
@@ -28915,7 +28915,7 @@ union_of_array_of_WorkflowStepLoader: Final = _UnionLoader(
     (array_of_WorkflowStepLoader,)
 )
 idmap_steps_union_of_array_of_WorkflowStepLoader: Final = _IdMapLoader(
-    union_of_array_of_WorkflowStepLoader, "id", "None"
+    union_of_array_of_WorkflowStepLoader, "id", None
 )
 SubworkflowFeatureRequirement_classLoader: Final = _EnumLoader(
     ("SubworkflowFeatureRequirement",), "SubworkflowFeatureRequirement_class"
-- 
2.43.0


From 174b9898924ab581fb1668de52b4775419be06dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:14 +0000
Subject: [PATCH 44/78] fix: reject strings without an expression where only
 expressions are allowed

---
 src/cwl_utils/parser/cwl_v1_0.py | 7 +++++--
 src/cwl_utils/parser/cwl_v1_1.py | 7 +++++--
 src/cwl_utils/parser/cwl_v1_2.py | 7 +++++--
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/cwl_utils/parser/cwl_v1_0.py b/src/cwl_utils/parser/cwl_v1_0.py
index e2dc9b1..4c262fb 100644
--- a/src/cwl_utils/parser/cwl_v1_0.py
+++ b/src/cwl_utils/parser/cwl_v1_0.py
@@ -335,8 +335,11 @@ class _ExpressionLoader(Loader):
                 f"Value is a {convert_typing(extract_type(type(doc)))}, "
                 f"but valid type for this field is a str."
             )
-        else:
-            return doc
+        if "$(" not in doc and "${" not in doc:
+            raise ValidationException(
+                f"Value {doc!r} does not contain an expression in the form $() or ${{}}"
+            )
+        return doc
 
 
 class _UnionLoader(Loader):
diff --git a/src/cwl_utils/parser/cwl_v1_1.py b/src/cwl_utils/parser/cwl_v1_1.py
index e5d3634..fdee6ed 100644
--- a/src/cwl_utils/parser/cwl_v1_1.py
+++ b/src/cwl_utils/parser/cwl_v1_1.py
@@ -335,8 +335,11 @@ class _ExpressionLoader(Loader):
                 f"Value is a {convert_typing(extract_type(type(doc)))}, "
                 f"but valid type for this field is a str."
             )
-        else:
-            return doc
+        if "$(" not in doc and "${" not in doc:
+            raise ValidationException(
+                f"Value {doc!r} does not contain an expression in the form $() or ${{}}"
+            )
+        return doc
 
 
 class _UnionLoader(Loader):
diff --git a/src/cwl_utils/parser/cwl_v1_2.py b/src/cwl_utils/parser/cwl_v1_2.py
index 44a5a8d..7f7a489 100644
--- a/src/cwl_utils/parser/cwl_v1_2.py
+++ b/src/cwl_utils/parser/cwl_v1_2.py
@@ -335,8 +335,11 @@ class _ExpressionLoader(Loader):
                 f"Value is a {convert_typing(extract_type(type(doc)))}, "
                 f"but valid type for this field is a str."
             )
-        else:
-            return doc
+        if "$(" not in doc and "${" not in doc:
+            raise ValidationException(
+                f"Value {doc!r} does not contain an expression in the form $() or ${{}}"
+            )
+        return doc
 
 
 class _UnionLoader(Loader):
-- 
2.43.0


From 59156807c5fc7afb5818e1ee2076f61ea53d5efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:15 +0000
Subject: [PATCH 45/78] fix: reject nested lists where a field needs a flat
 list

---
 src/cwl_utils/parser/cwl_v1_0.py | 13 ++++++++-----
 src/cwl_utils/parser/cwl_v1_1.py | 13 ++++++++-----
 src/cwl_utils/parser/cwl_v1_2.py | 13 ++++++++-----
 3 files changed, 24 insertions(+), 15 deletions(-)

diff --git a/src/cwl_utils/parser/cwl_v1_0.py b/src/cwl_utils/parser/cwl_v1_0.py
index 4c262fb..de110fe 100644
--- a/src/cwl_utils/parser/cwl_v1_0.py
+++ b/src/cwl_utils/parser/cwl_v1_0.py
@@ -112,10 +112,11 @@ class _ArrayLoader(Loader):
         fields: Final[list[str]] = []
         for i in range(0, len(doc)):
             try:
-                lf = _load_field(
-                    doc[i], _UnionLoader([self, self.items]), baseuri, loadingOptions, lc=lc
-                )
-                flatten = loadingOptions.container != "@list"
+                # only imported lists are spliced into the list, lists of lists are none of these
+                nested = isinstance(doc[i], MutableSequence)
+                loader = self.items if nested else _UnionLoader([self, self.items])
+                lf = _load_field(doc[i], loader, baseuri, loadingOptions, lc=lc)
+                flatten = loadingOptions.container != "@list" and not nested
                 if flatten and isinstance(lf, MutableSequence):
                     r.extend(lf)
                 else:
@@ -578,7 +579,9 @@ class _TypeDSLLoader(Loader):
     ) -> Any:
         if isinstance(doc, MutableSequence):
             r: Final[list[Any]] = []
-            for d in doc:
+            for d in chain.from_iterable(
+                d if isinstance(d, MutableSequence) else [d] for d in doc
+            ):
                 if isinstance(d, str):
                     resolved = self.resolve(d, baseuri, loadingOptions)
                     if isinstance(resolved, MutableSequence):
diff --git a/src/cwl_utils/parser/cwl_v1_1.py b/src/cwl_utils/parser/cwl_v1_1.py
index fdee6ed..dd74ced 100644
--- a/src/cwl_utils/parser/cwl_v1_1.py
+++ b/src/cwl_utils/parser/cwl_v1_1.py
@@ -112,10 +112,11 @@ class _ArrayLoader(Loader):
         fields: Final[list[str]] = []
         for i in range(0, len(doc)):
             try:
-                lf = _load_field(
-                    doc[i], _UnionLoader([self, self.items]), baseuri, loadingOptions, lc=lc
-                )
-                flatten = loadingOptions.container != "@list"
+                # only imported lists are spliced into the list, lists of lists are none of these
+                nested = isinstance(doc[i], MutableSequence)
+                loader = self.items if nested else _UnionLoader([self, self.items])
+                lf = _load_field(doc[i], loader, baseuri, loadingOptions, lc=lc)
+                flatten = loadingOptions.container != "@list" and not nested
                 if flatten and isinstance(lf, MutableSequence):
                     r.extend(lf)
                 else:
@@ -578,7 +579,9 @@ class _TypeDSLLoader(Loader):
     ) -> Any:
         if isinstance(doc, MutableSequence):
             r: Final[list[Any]] = []
-            for d in doc:
+            for d in chain.from_iterable(
+                d if isinstance(d, MutableSequence) else [d] for d in doc
+            ):
                 if isinstance(d, str):
                     resolved = self.resolve(d, baseuri, loadingOptions)
                     if isinstance(resolved, MutableSequence):
diff --git a/src/cwl_utils/parser/cwl_v1_2.py b/src/cwl_utils/parser/cwl_v1_2.py
index 7f7a489..e3f7dcf 100644
--- a/src/cwl_utils/parser/cwl_v1_2.py
+++ b/src/cwl_utils/parser/cwl_v1_2.py
@@ -112,10 +112,11 @@ class _ArrayLoader(Loader):
         fields: Final[list[str]] = []
         for i in range(0, len(doc)):
             try:
-                lf = _load_field(
-                    doc[i], _UnionLoader([self, self.items]), baseuri, loadingOptions, lc=lc
-                )
-                flatten = loadingOptions.container != "@list"
+                # only imported lists are spliced into the list, lists of lists are none of these
+                nested = isinstance(doc[i], MutableSequence)
+                loader = self.items if nested else _UnionLoader([self, self.items])
+                lf = _load_field(doc[i], loader, baseuri, loadingOptions, lc=lc)
+                flatten = loadingOptions.container != "@list" and not nested
                 if flatten and isinstance(lf, MutableSequence):
                     r.extend(lf)
                 else:
@@ -578,7 +579,9 @@ class _TypeDSLLoader(Loader):
     ) -> Any:
         if isinstance(doc, MutableSequence):
             r: Final[list[Any]] = []
-            for d in doc:
+            for d in chain.from_iterable(
+                d if isinstance(d, MutableSequence) else [d] for d in doc
+            ):
                 if isinstance(d, str):
                     resolved = self.resolve(d, baseuri, loadingOptions)
                     if isinstance(resolved, MutableSequence):
-- 
2.43.0


From 37de71fa63f97211b6b3811140a1cae608bb4d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:27 +0000
Subject: [PATCH 46/78] fix: pack documents by file URI and with any characters
 in their paths

---
 src/cwl_utils/pack.py  |  2 +-
 src/cwl_utils/utils.py | 56 ++++++++++++++++++++++++------------------
 2 files changed, 33 insertions(+), 25 deletions(-)

diff --git a/src/cwl_utils/pack.py b/src/cwl_utils/pack.py
index c90dd50..23bb8f8 100644
--- a/src/cwl_utils/pack.py
+++ b/src/cwl_utils/pack.py
@@ -260,7 +260,7 @@ def add_missing_requirements(cwl: dict[str, Any]) -> dict[str, Any]:
 def pack(cwl_path: str) -> dict[str, Any]:
     """Pack a CWL document at the given path."""
     _logger.debug("Packing %s", cwl_path)
-    file_path_url = urllib.parse.urlparse(cwl_path)
+    file_path_url = utils.path_to_url(cwl_path)
 
     cwl, full_url = cast(
         tuple[dict[str, Any], urllib.parse.ParseResult],
diff --git a/src/cwl_utils/utils.py b/src/cwl_utils/utils.py
index 4cada5e..5d85145 100644
--- a/src/cwl_utils/utils.py
+++ b/src/cwl_utils/utils.py
@@ -1,6 +1,7 @@
 # SPDX-License-Identifier: Apache-2.0
 """Miscellaneous utility functions."""
 
+import os
 import pathlib
 import subprocess  # nosec
 import sys
@@ -42,7 +43,7 @@ def _is_github_symbolic_link(base_url: urllib.parse.ParseResult, contents: str)
 
     https://github.com/rabix/sbpack/blob/b8404a0859ffcbe1edae6d8f934e51847b003320/sbpack/lib.py
     """
-    if base_url.scheme in ("file://", ""):
+    if base_url.scheme in ("file", ""):
         return False
 
     idx = contents.find("\n")
@@ -84,14 +85,33 @@ def bytes2str_in_dicts(
     return inp
 
 
+def path_to_url(path: str) -> urllib.parse.ParseResult:
+    """Convert a local path, with an optional fragment, or an URL to a parsed URL."""
+    if "://" in path or path.startswith("file:"):
+        return urlparse(path)
+    fragment = ""
+    if "#" in path and not os.path.exists(path):
+        path, fragment = path.rsplit("#", 1)
+    url = urlparse(pathlib.Path(os.path.abspath(path)).as_uri())
+    return url._replace(fragment=fragment)
+
+
+def _local_path(url: urllib.parse.ParseResult) -> pathlib.Path:
+    """Get the path of a local file from its URL."""
+    path = f"{url.path};{url.params}" if url.params else url.path
+    return pathlib.Path(
+        urllib.request.url2pathname(path) if url.scheme == "file" else path
+    )
+
+
 def load_linked_file(
     base_url: urllib.parse.ParseResult, link: str, is_import: bool = False
 ) -> tuple[Any, urllib.parse.ParseResult]:
     """From https://github.com/rabix/sbpack/blob/b8404a0859ffcbe1edae6d8f934e51847b003320/sbpack/lib.py ."""
     new_url = resolved_path(base_url, link)
 
-    if new_url.scheme in ("file://", ""):
-        contents = pathlib.Path(new_url.path).read_text()
+    if new_url.scheme in ("file", ""):
+        contents = _local_path(new_url).read_text(encoding="utf-8")
     else:
         try:
             contents = (
@@ -184,29 +204,17 @@ def resolved_path(
     link_url = urllib.parse.urlparse(link)
     # The link will always Posix
 
-    if link_url.scheme == "file://":
-        # Absolute local path
-        return link_url
-
-    elif link_url.scheme == "":
+    if link_url.scheme == "":
         # Relative path, can be local or remote
-        if base_url.scheme in ("file://", ""):
-            # Local relative path
-            if link == "":
-                return base_url
-            else:
-                return urllib.parse.urlparse(
-                    urllib.parse.urljoin(base_url.geturl(), link_url.geturl())
-                )
-        else:
-            # Remote relative path
-            return urllib.parse.urlparse(
-                urllib.parse.urljoin(base_url.geturl(), link_url.path)
-            )
-            # We need urljoin because we need to resolve relative links in a
-            # platform independent manner
+        if link == "":
+            return base_url
+        return urllib.parse.urlparse(
+            urllib.parse.urljoin(base_url.geturl(), link_url.geturl())
+        )
+        # We need urljoin because we need to resolve relative links in a
+        # platform independent manner
 
-    # Absolute remote path
+    # Absolute local or remote path
     return link_url
 
 
-- 
2.43.0


From 7033a60855e9c062a7e9a07a6cbb4b571724e960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:34 +0000
Subject: [PATCH 47/78] fix: pack YAML aliases as separate objects

---
 src/cwl_utils/utils.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/cwl_utils/utils.py b/src/cwl_utils/utils.py
index 5d85145..16a2b3e 100644
--- a/src/cwl_utils/utils.py
+++ b/src/cwl_utils/utils.py
@@ -104,6 +104,15 @@ def _local_path(url: urllib.parse.ParseResult) -> pathlib.Path:
     )
 
 
+def _unshare(node: Any) -> Any:
+    """Copy the node, with separate copies of what YAML aliases refer to."""
+    if isinstance(node, dict):
+        return {k: _unshare(v) for k, v in node.items()}
+    if isinstance(node, list):
+        return [_unshare(v) for v in node]
+    return node
+
+
 def load_linked_file(
     base_url: urllib.parse.ParseResult, link: str, is_import: bool = False
 ) -> tuple[Any, urllib.parse.ParseResult]:
@@ -131,7 +140,7 @@ def load_linked_file(
 
     if is_import:
         try:
-            _node = fast_yaml.load(contents)
+            _node = _unshare(fast_yaml.load(contents))
         except ParserError as e:
             e.context = f"\n===\nMalformed file: {new_url.geturl()}\n===\n" + e.context
             raise SystemExit(e) from e
-- 
2.43.0


From 78efcbcf53d0074fe97637681498c0184c8529ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:54 +0000
Subject: [PATCH 48/78] fix: normalize every notation of sources when packing

---
 src/cwl_utils/pack.py | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/src/cwl_utils/pack.py b/src/cwl_utils/pack.py
index 23bb8f8..ae9e878 100644
--- a/src/cwl_utils/pack.py
+++ b/src/cwl_utils/pack.py
@@ -105,6 +105,7 @@ def normalize_sources(cwl: dict[str, Any]) -> dict[str, Any]:
     if cwl.get("class") != "Workflow":
         return cwl
 
+    _id = cwl.get("id", "")
     for _step in cwl.get("steps", {}):
         if not isinstance(_step, dict):
             continue
@@ -112,27 +113,27 @@ def normalize_sources(cwl: dict[str, Any]) -> dict[str, Any]:
         _inputs = _step.get("in", {})
         for k, _input in enumerate(_inputs):
             if isinstance(_input, str):
-                _inputs[k] = _normalize(_input)
-            elif isinstance(_input, dict):
-                _src = _input.get("source")
-                if isinstance(_src, str):
-                    _input["source"] = _normalize(_input["source"])
+                _inputs[k] = _normalize(_input, _id)
+            elif isinstance(_input, dict) and "source" in _input:
+                _input["source"] = _normalize(_input["source"], _id)
 
     _outputs = cwl.get("outputs", {})
     for k, _output in enumerate(_outputs):
         if isinstance(_output, str):
-            _outputs[k] = _normalize(_output)
-        elif isinstance(_output, dict):
-            _src = _output.get("outputSource")
-            if isinstance(_src, str):
-                _output["outputSource"] = _normalize(_output["outputSource"])
+            _outputs[k] = _normalize(_output, _id)
+        elif isinstance(_output, dict) and "outputSource" in _output:
+            _output["outputSource"] = _normalize(_output["outputSource"], _id)
 
     return cwl
 
 
-def _normalize(s: str) -> str:
-    if s.startswith("#"):
-        return s[1:]
+def _normalize(s: Any, process_id: str) -> Any:
+    if isinstance(s, list):
+        return [_normalize(_s, process_id) for _s in s]
+    if isinstance(s, str) and s.startswith("#"):
+        s = s[1:]
+        prefix = process_id.removeprefix("#") + "/"
+        return s[len(prefix) :] if s.startswith(prefix) else s
     return s
 
 
-- 
2.43.0


From 3dade49fe6850affdfec49464a01389d97b18910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:54 +0000
Subject: [PATCH 49/78] fix: inline types of unions without nesting lists, and
 records without fields

---
 src/cwl_utils/schemadef.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/cwl_utils/schemadef.py b/src/cwl_utils/schemadef.py
index 9c72dd6..5973144 100644
--- a/src/cwl_utils/schemadef.py
+++ b/src/cwl_utils/schemadef.py
@@ -152,7 +152,7 @@ def _inline_type(
             }
 
         if v.endswith("?"):
-            return ["null", _inline_type(v[:-1], base_url, user_defined_types)]
+            return _inline_type(["null", v[:-1]], base_url, user_defined_types)
 
         if v in types.built_in_types:
             return v
@@ -187,7 +187,13 @@ def _inline_type(
             return _inline_type(resolve_type, path_prefix, user_defined_types)
 
     elif isinstance(v, list):
-        return [_inline_type(_v, base_url, user_defined_types) for _v in v]
+        alternatives: list[Any] = []
+        for _v in v:
+            _type = _inline_type(_v, base_url, user_defined_types)
+            for alternative in _type if isinstance(_type, list) else [_type]:
+                if alternative not in alternatives:
+                    alternatives.append(alternative)
+        return alternatives
 
     elif isinstance(v, dict):
         if v.get("$import") is not None:
@@ -208,17 +214,15 @@ def _inline_type(
         elif _type == "array":
             if "items" not in v:
                 raise errors.ArrayMissingItems(
-                    f"In file {base_url.geturl()}, array type {_type.get('name')} is missing 'items'"
+                    f"In file {base_url.geturl()}, array type {v.get('name')} is missing 'items'"
                 )
 
             v["items"] = _inline_type(v["items"], base_url, user_defined_types)
             return v
 
         elif _type == "record":
-            if "fields" not in v:
-                raise errors.RecordMissingFields(
-                    f"In file {base_url.geturl()}, record type {_type.get('name')} is missing 'fields'"
-                )
+            if v.get("fields") is None:
+                return v
 
             fields = utils.normalize_to_list(
                 v["fields"], key_field="name", value_field="type"
-- 
2.43.0


From c2aad67b67c62ee117f69edc40a9c4b6084ae190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:55 +0000
Subject: [PATCH 50/78] fix: resolve nested imports relative to the file that
 refers to them

---
 src/cwl_utils/pack.py      | 110 +++++++++++++++++++++----------
 src/cwl_utils/schemadef.py | 129 ++++++++++++++-----------------------
 src/cwl_utils/utils.py     |  59 ++++++++++++++++-
 3 files changed, 182 insertions(+), 116 deletions(-)

diff --git a/src/cwl_utils/pack.py b/src/cwl_utils/pack.py
index ae9e878..92fa3b9 100644
--- a/src/cwl_utils/pack.py
+++ b/src/cwl_utils/pack.py
@@ -16,18 +16,13 @@ From https://github.com/rabix/sbpack/blob/b8404a0859ffcbe1edae6d8f934e51847b0033
 """
 
 import urllib.parse
-from collections.abc import ItemsView
-from typing import TYPE_CHECKING, Any, Union, cast
+from typing import Any, cast
 
 from packaging import version
 
 from cwl_utils import schemadef, utils
 from cwl_utils.loghandler import _logger
 
-if TYPE_CHECKING:
-    from _collections_abc import dict_items
-
-
 def get_inner_dict(
     cwl: dict[str, Any], path: list[dict[str, Any]]
 ) -> dict[str, Any] | None:
@@ -54,21 +49,74 @@ def pack_process(
     cwl_version: str,
     parent_user_defined_types: dict[str, Any] | None = None,
 ) -> dict[str, Any]:
+    cwl, urls = resolve_lists(cwl, base_url)
     cwl = listify_everything(cwl)
     cwl = normalize_sources(cwl)
-    cwl, user_defined_types = load_schemadefs(cwl, base_url, parent_user_defined_types)
-    cwl = resolve_schemadefs(cwl, base_url, user_defined_types)
-    cwl = resolve_imports(cwl, base_url)
+    cwl, user_defined_types = load_schemadefs(
+        cwl, base_url, parent_user_defined_types, urls["requirements"]
+    )
+    cwl = resolve_schemadefs(cwl, base_url, user_defined_types, urls)
+    for key in cwl:
+        if key not in urls:
+            cwl[key] = resolve_imports(cwl[key], base_url)
     cwl = resolve_steps(
         cwl,
         base_url,
         cwl.get("cwlVersion", cwl_version),
         user_defined_types,
+        urls.get("steps"),
     )
     cwl = add_missing_requirements(cwl)
     return cwl
 
 
+def resolve_lists(
+    cwl: dict[str, Any], base_url: urllib.parse.ParseResult
+) -> tuple[dict[str, Any], dict[str, list[urllib.parse.ParseResult]]]:
+    """
+    Resolve the imported entries of the process's lists.
+
+    The URLs of the files that the entries come from are returned, too, as the
+    types and processes they refer to are relative to these.
+    """
+    fields: list[tuple[str, str, str | None]] = [
+        ("inputs", "id", "type"),
+        ("outputs", "id", "type"),
+        ("requirements", "class", None),
+    ]
+    if cwl.get("class") == "Workflow":
+        fields.append(("steps", "id", None))
+    urls = {}
+    for field, key_field, value_field in fields:
+        entries = utils.resolve_entries(
+            cwl.get(field, []), base_url, key_field, value_field
+        )
+        cwl[field] = [entry for entry, _ in entries]
+        urls[field] = [url for _, url in entries]
+
+    for index, req in enumerate(cwl["requirements"]):
+        if req.get("class") != "SchemaDefRequirement":
+            cwl["requirements"][index] = resolve_imports(
+                req, urls["requirements"][index]
+            )
+
+    for index, url in enumerate(urls.get("steps", [])):
+        step = cwl["steps"][index]
+        if isinstance(step, dict):
+            step["in"] = [
+                resolve_imports(entry, entry_url)
+                for entry, entry_url in utils.resolve_entries(
+                    step.get("in", []), url, key_field="id", value_field="source"
+                )
+            ]
+            cwl["steps"][index] = {
+                key: value if key == "run" else resolve_imports(value, url)
+                for key, value in step.items()
+            }
+
+    return cwl, urls
+
+
 def listify_everything(cwl: dict[str, Any]) -> dict[str, Any]:
     """
     Convert many CWL construct from their map to the list version.
@@ -141,9 +189,12 @@ def load_schemadefs(
     cwl: dict[str, Any],
     base_url: urllib.parse.ParseResult,
     parent_user_defined_types: dict[str, Any] | None = None,
+    requirement_urls: list[urllib.parse.ParseResult] | None = None,
 ) -> tuple[dict[str, Any], dict[str, Any]]:
     """Internalize any SchemaDefRequirement, and remove it."""
-    user_defined_types = schemadef.build_user_defined_type_dict(cwl, base_url)
+    user_defined_types = schemadef.build_user_defined_type_dict(
+        cwl, base_url, requirement_urls
+    )
     if parent_user_defined_types is not None:
         user_defined_types.update(parent_user_defined_types)
 
@@ -160,32 +211,17 @@ def resolve_schemadefs(
     cwl: dict[str, Any],
     base_url: urllib.parse.ParseResult,
     user_defined_types: dict[str, Any],
+    urls: dict[str, list[urllib.parse.ParseResult]] | None = None,
 ) -> dict[str, Any]:
-    cwl = schemadef.inline_types(cwl, "inputs", base_url, user_defined_types)
-    cwl = schemadef.inline_types(cwl, "outputs", base_url, user_defined_types)
+    for port in ("inputs", "outputs"):
+        cwl = schemadef.inline_types(
+            cwl, port, base_url, user_defined_types, urls[port] if urls else None
+        )
     return cwl
 
 
 def resolve_imports(cwl: Any, base_url: urllib.parse.ParseResult) -> Any:
-    if isinstance(cwl, dict):
-        itr: Union["dict_items[Any, Any]", ItemsView[Any, Any]] = cwl.items()
-    elif isinstance(cwl, list):
-        itr = cast(ItemsView[Any, Any], [(n, v) for n, v in enumerate(cwl)])
-    else:
-        return cwl
-
-    for k, v in itr:
-        if isinstance(v, dict):
-            if len(v) == 1:
-                _k = list(v.keys())[0]
-                if _k in ("$import", "$include"):
-                    cwl[k], this_base_url = utils.load_linked_file(
-                        base_url, v[_k], is_import=_k == "$import"
-                    )
-
-        cwl[k] = resolve_imports(cwl[k], base_url)
-
-    return cwl
+    return utils.resolve_imports(cwl, base_url)
 
 
 def resolve_steps(
@@ -193,6 +229,7 @@ def resolve_steps(
     base_url: urllib.parse.ParseResult,
     cwl_version: str,
     parent_user_defined_types: dict[str, Any] | None = None,
+    step_urls: list[urllib.parse.ParseResult] | None = None,
 ) -> dict[str, Any]:
     """Load and pack all "run" sections of the workflow steps."""
     if isinstance(cwl, str):
@@ -204,14 +241,17 @@ def resolve_steps(
     if cwl.get("class") != "Workflow":
         return cwl
 
-    for _, v in enumerate(cwl["steps"]):
+    for index, v in enumerate(cwl["steps"]):
         if isinstance(v, dict):
-            _logger.debug("Recursing into step %s:%s", base_url.geturl(), v["id"])
+            step_url = step_urls[index] if step_urls is not None else base_url
+            _logger.debug("Recursing into step %s:%s", step_url.geturl(), v["id"])
 
             _run = v.get("run")
+            if utils.is_import(_run):
+                _run = _run["$import"]
             if isinstance(_run, str):
                 v["run"], new_base_url = utils.load_linked_file(
-                    base_url, _run, is_import=True
+                    step_url, _run, is_import=True
                 )
                 v["run"] = pack_process(
                     v["run"],
@@ -221,7 +261,7 @@ def resolve_steps(
             else:
                 v["run"] = pack_process(
                     v["run"],
-                    base_url,
+                    step_url,
                     cwl.get("cwlVersion", cwl_version),
                     parent_user_defined_types,
                 )
diff --git a/src/cwl_utils/schemadef.py b/src/cwl_utils/schemadef.py
index 5973144..8255128 100644
--- a/src/cwl_utils/schemadef.py
+++ b/src/cwl_utils/schemadef.py
@@ -15,54 +15,39 @@ Only records and arrays can be defined (https://github.com/common-workflow-langu
 From https://github.com/rabix/sbpack/blob/b8404a0859ffcbe1edae6d8f934e51847b003320/sbpack/lib.py
 """
 
-import sys
 import urllib.parse
 from copy import deepcopy
-from typing import Any, cast
+from typing import Any
 
 from cwl_utils import errors, types, utils
 
 
 def build_user_defined_type_dict(
-    cwl: dict[str, Any], base_url: urllib.parse.ParseResult
-) -> dict[str, Any]:
-    user_defined_types = {}
-    # Check for `$import` directly under `requirements` so we can specially handle
-    # the new base_url
-    for index, entry in enumerate(cwl.get("requirements", [])):
-        if isinstance(entry, dict) and "$import" in entry:
-            requirement, new_base_url = utils.load_linked_file(
-                base_url, entry["$import"], is_import=True
-            )
-            if requirement["class"] == "SchemaDefRequirement":
-                cwl["requirements"][index] = requirement
-                type_definition_list = requirement["types"]
-                path_prefix = new_base_url.geturl()
-                sys.stderr.write(
-                    f"Parsing {len(type_definition_list)} types from {path_prefix}\n"
-                )
-                for v in type_definition_list:
-                    k = v.get("name")
-                    if k is None:
-                        raise RuntimeError(f"In file {path_prefix} type missing name")
-                    user_defined_types[f"{path_prefix}#{k}"] = v
-    return _build_user_defined_type_dict(cwl, base_url, user_defined_types)
-
-
-def _build_user_defined_type_dict(
     cwl: dict[str, Any],
     base_url: urllib.parse.ParseResult,
-    user_defined_types: dict[str, Any],
+    requirement_urls: list[urllib.parse.ParseResult] | None = None,
 ) -> dict[str, Any]:
-    schemadef: dict[str, str] = next(
-        (
-            req
-            for req in cwl.get("requirements", [])
-            if req.get("class") == "SchemaDefRequirement"
-        ),
-        {},
-    )
-    schema_list = cast(list[dict[str, Any]], schemadef.get("types", []))
+    """
+    Collect the types of the SchemaDefRequirement by their absolute names.
+
+    :param requirement_urls: URLs of the files that the requirements are found in,
+                             if they are not all those of the process itself.
+    """
+    user_defined_types = {}
+    schemadef: dict[str, Any] = {}
+    for index, req in enumerate(cwl.get("requirements", [])):
+        if req.get("class") == "SchemaDefRequirement":
+            schemadef = req
+            if requirement_urls is not None:
+                base_url = requirement_urls[index]
+            break
+
+    if utils.is_import(schemadef.get("types")):
+        schema_list, base_url = utils.load_linked_file(
+            base_url, schemadef["types"]["$import"], is_import=True
+        )
+    else:
+        schema_list = schemadef.get("types", [])
 
     if not isinstance(schema_list, list):
         raise RuntimeError(
@@ -71,41 +56,20 @@ def _build_user_defined_type_dict(
             f"Instead, got: {schema_list}"
         )
 
-    for schema in schema_list:
+    for schema, schema_url in utils.resolve_entries(
+        schema_list, base_url, key_field="name", value_field=None
+    ):
+        path_prefix = schema_url.geturl()
         if not isinstance(schema, dict):
             raise RuntimeError(
-                f"In file {base_url.geturl()}: "
+                f"In file {path_prefix}: "
                 f"User type has to be a dict\n"
                 f"Instead, got: {schema}"
             )
-
-        if len(schema.keys()) == 1 and list(schema.keys())[0] == "$import":
-            type_definition_list, this_url = utils.load_linked_file(
-                base_url, schema["$import"], is_import=True
-            )
-            # This is always a list
-            if isinstance(type_definition_list, dict):
-                type_definition_list = [type_definition_list]
-                # except when it isn't
-
-            path_prefix = (
-                this_url.geturl()
-            )  # sbpack.lib.normalized_path(schema["$import"], base_url).geturl()
-            sys.stderr.write(
-                f"Parsing {len(type_definition_list)} types from {path_prefix}\n"
-            )
-            for v in type_definition_list:
-                k = v.get("name")
-                if k is None:
-                    raise RuntimeError(f"In file {path_prefix} type missing name")
-                user_defined_types[f"{path_prefix}#{k}"] = v
-
-        else:
-            path_prefix = base_url.geturl()
-            user_defined_types[f"{path_prefix}#{schema.get('name')}"] = schema
-
-    # sys.stderr.write(str(user_defined_types))
-    # sys.stderr.write("\n")
+        k = schema.get("name")
+        if k is None and schema_url != base_url:
+            raise RuntimeError(f"In file {path_prefix} type missing name")
+        user_defined_types[f"{path_prefix}#{k}"] = schema
 
     return user_defined_types
 
@@ -116,19 +80,16 @@ def inline_types(
     port: str,
     base_url: urllib.parse.ParseResult,
     user_defined_types: dict[str, Any],
+    port_urls: list[urllib.parse.ParseResult] | None = None,
 ) -> dict[str, Any]:
-    if (
-        len(cwl[port]) == 1
-        and isinstance(cwl[port][0], dict)
-        and cwl[port][0]["id"] == "$import"
-    ):
-        defs, base_url = utils.load_linked_file(
-            base_url, cwl[port][0]["type"], is_import=True
+    if port_urls is None:
+        defs = utils.resolve_entries(
+            cwl[port], base_url, key_field="id", value_field="type"
         )
     else:
-        defs = cwl[port]
+        defs = list(zip(cwl[port], port_urls))
 
-    cwl[port] = [_inline_type(v, base_url, user_defined_types) for v in defs]
+    cwl[port] = [_inline_type(v, url, user_defined_types) for v, url in defs]
     return cwl
 
 
@@ -202,6 +163,14 @@ def _inline_type(
             )
             return _inline_type(imported_type, import_base_url, user_defined_types)
 
+        v = {
+            key: (
+                value
+                if key in ("type", "items", "fields")
+                else utils.resolve_imports(value, base_url)
+            )
+            for key, value in v.items()
+        }
         _type = v.get("type")
         if _type is None:
             raise errors.MissingTypeName(
@@ -224,11 +193,11 @@ def _inline_type(
             if v.get("fields") is None:
                 return v
 
-            fields = utils.normalize_to_list(
-                v["fields"], key_field="name", value_field="type"
+            fields = utils.resolve_entries(
+                v["fields"], base_url, key_field="name", value_field="type"
             )
             v["fields"] = [
-                _inline_type(_f, base_url, user_defined_types) for _f in fields
+                _inline_type(_f, url, user_defined_types) for _f, url in fields
             ]
             return v
 
diff --git a/src/cwl_utils/utils.py b/src/cwl_utils/utils.py
index 16a2b3e..a0897d3 100644
--- a/src/cwl_utils/utils.py
+++ b/src/cwl_utils/utils.py
@@ -12,7 +12,7 @@ from collections.abc import MutableMapping, MutableSequence
 from copy import deepcopy
 from importlib.resources import files
 from io import StringIO
-from typing import Any
+from typing import Any, cast
 from urllib.parse import urlparse
 
 from ruamel.yaml.main import YAML
@@ -154,6 +154,63 @@ def load_linked_file(
     return _node, new_url
 
 
+def is_import(node: Any) -> bool:
+    """Test if the node stands for the content of another file."""
+    return isinstance(node, dict) and len(node) == 1 and "$import" in node
+
+
+def resolve_imports(node: Any, base_url: urllib.parse.ParseResult) -> Any:
+    """Replace all $import and $include, relative to the file they are found in."""
+    if is_import(node):
+        content, content_url = load_linked_file(
+            base_url, node["$import"], is_import=True
+        )
+        return resolve_imports(content, content_url)
+    if isinstance(node, dict):
+        if len(node) == 1 and "$include" in node:
+            return load_linked_file(base_url, node["$include"])[0]
+        return {k: resolve_imports(v, base_url) for k, v in node.items()}
+    if isinstance(node, list):
+        result: list[Any] = []
+        for v in node:
+            entry = resolve_imports(v, base_url)
+            if is_import(v) and isinstance(entry, list):
+                result.extend(entry)
+            else:
+                result.append(entry)
+        return result
+    return node
+
+
+def resolve_entries(
+    obj: list[Any] | dict[str, Any],
+    base_url: urllib.parse.ParseResult,
+    key_field: str,
+    value_field: str | None,
+) -> list[tuple[Any, urllib.parse.ParseResult]]:
+    """List the entries of a list or map with the URLs of the files they come from."""
+    if is_import(obj):
+        obj, base_url = load_linked_file(
+            base_url, cast(dict[str, Any], obj)["$import"], is_import=True
+        )
+        return resolve_entries(obj, base_url, key_field, value_field)
+    entries: list[tuple[Any, urllib.parse.ParseResult]] = []
+    for entry in normalize_to_list(obj, key_field, value_field):
+        if is_import(entry):
+            content, content_url = load_linked_file(
+                base_url, entry["$import"], is_import=True
+            )
+            entries += resolve_entries(
+                content if isinstance(content, list) else [content],
+                content_url,
+                key_field,
+                value_field,
+            )
+        else:
+            entries.append((entry, base_url))
+    return entries
+
+
 def normalize_to_map(obj: list[Any] | dict[str, Any], key_field: str) -> dict[str, Any]:
     """From https://github.com/rabix/sbpack/blob/b8404a0859ffcbe1edae6d8f934e51847b003320/sbpack/lib.py ."""
     if isinstance(obj, dict):
-- 
2.43.0


From a96099800b91717cc733c112e171f27a286b0098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:55 +0000
Subject: [PATCH 51/78] fix: pack steps that run a process of a multi-process
 document

---
 src/cwl_utils/pack.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/cwl_utils/pack.py b/src/cwl_utils/pack.py
index 92fa3b9..c5d58f0 100644
--- a/src/cwl_utils/pack.py
+++ b/src/cwl_utils/pack.py
@@ -224,6 +224,23 @@ def resolve_imports(cwl: Any, base_url: urllib.parse.ParseResult) -> Any:
     return utils.resolve_imports(cwl, base_url)
 
 
+def select_process(
+    cwl: dict[str, Any], url: urllib.parse.ParseResult
+) -> tuple[dict[str, Any], urllib.parse.ParseResult]:
+    """Pick the process, by default main, that the URL names in a packed document."""
+    base_url = url._replace(fragment="")
+    if "$graph" not in cwl:
+        return cwl, base_url
+    name = url.fragment or "main"
+    for process in cwl["$graph"]:
+        if process.get("id", "").removeprefix(base_url.geturl()) in (name, f"#{name}"):
+            for key in ("cwlVersion", "$namespaces", "$schemas"):
+                if key in cwl:
+                    process.setdefault(key, cwl[key])
+            return process, base_url
+    raise RuntimeError(f"{base_url.geturl()}: No process named {name!r}")
+
+
 def resolve_steps(
     cwl: dict[str, Any],
     base_url: urllib.parse.ParseResult,
@@ -253,6 +270,7 @@ def resolve_steps(
                 v["run"], new_base_url = utils.load_linked_file(
                     step_url, _run, is_import=True
                 )
+                v["run"], new_base_url = select_process(v["run"], new_base_url)
                 v["run"] = pack_process(
                     v["run"],
                     new_base_url,
-- 
2.43.0


From 3057222e1b4c1cc4c78df849463c503b2f2458e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:39 +0000
Subject: [PATCH 52/78] fix: keep the namespaces and schemas of packed
 processes at the top level

---
 src/cwl_utils/pack.py | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/cwl_utils/pack.py b/src/cwl_utils/pack.py
index c5d58f0..5d547e7 100644
--- a/src/cwl_utils/pack.py
+++ b/src/cwl_utils/pack.py
@@ -241,6 +241,31 @@ def select_process(
     raise RuntimeError(f"{base_url.geturl()}: No process named {name!r}")
 
 
+def hoist_metadata(
+    cwl: dict[str, Any],
+    run: dict[str, Any],
+    base_url: urllib.parse.ParseResult,
+    run_url: urllib.parse.ParseResult,
+) -> None:
+    """Move the namespaces and schemas of a step's process to where they are allowed."""
+    for prefix, uri in list((run.get("$namespaces") or {}).items()):
+        if cwl.setdefault("$namespaces", {}).setdefault(prefix, uri) != uri:
+            raise RuntimeError(
+                f"{run_url.geturl()}: The namespace prefix {prefix!r} has another "
+                f"meaning in {base_url.geturl()}"
+            )
+    run.pop("$namespaces", None)
+    known = {
+        utils.resolved_path(base_url, link).geturl()
+        for link in cwl.get("$schemas") or []
+    }
+    for link in run.pop("$schemas", None) or []:
+        url = utils.resolved_path(run_url, link).geturl()
+        if url not in known:
+            known.add(url)
+            cwl.setdefault("$schemas", []).append(url)
+
+
 def resolve_steps(
     cwl: dict[str, Any],
     base_url: urllib.parse.ParseResult,
@@ -283,6 +308,8 @@ def resolve_steps(
                     cwl.get("cwlVersion", cwl_version),
                     parent_user_defined_types,
                 )
+                new_base_url = step_url
+            hoist_metadata(cwl, v["run"], base_url, new_base_url)
             if "cwlVersion" in v["run"]:
                 parent_version = version.parse(
                     cwl.get("cwlVersion", cwl_version).strip("v")
-- 
2.43.0


From 898557117b5ddda3122665e9c7ed334554e6dae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:39 +0000
Subject: [PATCH 53/78] fix: do not take remote documents in one line of JSON
 as links

---
 src/cwl_utils/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/cwl_utils/utils.py b/src/cwl_utils/utils.py
index a0897d3..3287247 100644
--- a/src/cwl_utils/utils.py
+++ b/src/cwl_utils/utils.py
@@ -53,6 +53,10 @@ def _is_github_symbolic_link(base_url: urllib.parse.ParseResult, contents: str)
     if "." not in contents:
         return False
 
+    if contents.lstrip().startswith(("{", "[")):
+        # A document in JSON format
+        return False
+
     return True
 
 
-- 
2.43.0


From 57773249ca8b35e34408b620398b0d8f90d1e6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:39 +0000
Subject: [PATCH 54/78] fix: pack processes whose requirements are null

---
 src/cwl_utils/pack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cwl_utils/pack.py b/src/cwl_utils/pack.py
index 5d547e7..7dcbef4 100644
--- a/src/cwl_utils/pack.py
+++ b/src/cwl_utils/pack.py
@@ -89,7 +89,7 @@ def resolve_lists(
     urls = {}
     for field, key_field, value_field in fields:
         entries = utils.resolve_entries(
-            cwl.get(field, []), base_url, key_field, value_field
+            cwl.get(field) or [], base_url, key_field, value_field
         )
         cwl[field] = [entry for entry, _ in entries]
         urls[field] = [url for _, url in entries]
-- 
2.43.0


From 2073da217e73861dd383e9a0cbb067175a2698e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:19 +0000
Subject: [PATCH 55/78] fix: declare one version in all processes of a packed
 document

---
 src/cwl_utils/pack.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/cwl_utils/pack.py b/src/cwl_utils/pack.py
index 7dcbef4..b5580a7 100644
--- a/src/cwl_utils/pack.py
+++ b/src/cwl_utils/pack.py
@@ -310,7 +310,7 @@ def resolve_steps(
                 )
                 new_base_url = step_url
             hoist_metadata(cwl, v["run"], base_url, new_base_url)
-            if "cwlVersion" in v["run"]:
+            if v["run"].get("cwlVersion"):
                 parent_version = version.parse(
                     cwl.get("cwlVersion", cwl_version).strip("v")
                 )
@@ -343,6 +343,14 @@ def add_missing_requirements(cwl: dict[str, Any]) -> dict[str, Any]:
     return cwl
 
 
+def unify_versions(cwl: dict[str, Any], cwl_version: str) -> None:
+    """Declare the version of the packed document in all of its processes."""
+    if cwl.get("cwlVersion"):
+        cwl["cwlVersion"] = cwl_version
+    for step in cwl.get("steps", []):
+        unify_versions(step["run"], cwl_version)
+
+
 def pack(cwl_path: str) -> dict[str, Any]:
     """Pack a CWL document at the given path."""
     _logger.debug("Packing %s", cwl_path)
@@ -356,5 +364,6 @@ def pack(cwl_path: str) -> dict[str, Any]:
         # assume already packed
         return cwl
     cwl = pack_process(cwl, full_url, cwl["cwlVersion"])
+    unify_versions(cwl, cwl["cwlVersion"])
 
     return cwl
-- 
2.43.0


From f87237fea87e0476561d09881c80d2447ccd9428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:19 +0000
Subject: [PATCH 56/78] fix: pack parameters without a type

---
 src/cwl_utils/schemadef.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/cwl_utils/schemadef.py b/src/cwl_utils/schemadef.py
index 8255128..ba3c588 100644
--- a/src/cwl_utils/schemadef.py
+++ b/src/cwl_utils/schemadef.py
@@ -89,7 +89,15 @@ def inline_types(
     else:
         defs = list(zip(cwl[port], port_urls))
 
-    cwl[port] = [_inline_type(v, url, user_defined_types) for v, url in defs]
+    cwl[port] = [
+        (
+            # parameters need no type in CWL v1.0
+            utils.resolve_imports(v, url)
+            if isinstance(v, dict) and "id" in v and v.get("type") is None
+            else _inline_type(v, url, user_defined_types)
+        )
+        for v, url in defs
+    ]
     return cwl
 
 
-- 
2.43.0


From 2c1150c163f2810a68da43c9b081600e2e029766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:46 +0000
Subject: [PATCH 57/78] fix: give inlined types names that no other inlined
 type has

---
 src/cwl_utils/schemadef.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cwl_utils/schemadef.py b/src/cwl_utils/schemadef.py
index ba3c588..cdf7588 100644
--- a/src/cwl_utils/schemadef.py
+++ b/src/cwl_utils/schemadef.py
@@ -145,12 +145,12 @@ def _inline_type(
             # resolve_type.pop("name", None) # Should work, but cwltool complains
             if "name" in resolve_type:
                 user_type_name = resolve_type["name"]
-                if user_type_name in _inline_type_names:
+                while resolve_type["name"] in _inline_type_names:
                     resolve_type["name"] = (
                         f"{user_type_name}_{_inline_type_name_uniq_id}"
                     )
-                else:
-                    _inline_type_names.add(user_type_name)
+                    _inline_type_name_uniq_id += 1
+                _inline_type_names.add(resolve_type["name"])
             else:
                 resolve_type["name"] = f"user_type_{_inline_type_name_uniq_id}"
             return _inline_type(resolve_type, path_prefix, user_defined_types)
-- 
2.43.0


From 238e331b199443aecea57c600fd4b5def80228a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:46 +0000
Subject: [PATCH 58/78] fix: let the types of a step's process precede those of
 the workflow

---
 src/cwl_utils/pack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cwl_utils/pack.py b/src/cwl_utils/pack.py
index b5580a7..db19099 100644
--- a/src/cwl_utils/pack.py
+++ b/src/cwl_utils/pack.py
@@ -196,7 +196,7 @@ def load_schemadefs(
         cwl, base_url, requirement_urls
     )
     if parent_user_defined_types is not None:
-        user_defined_types.update(parent_user_defined_types)
+        user_defined_types = parent_user_defined_types | user_defined_types
 
     cwl["requirements"] = [
         req
-- 
2.43.0


From 55aaddfb1750ccc0c76e66b71c1d84055bb6bbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:24 +0000
Subject: [PATCH 59/78] fix: do not name inlined types where CWL v1.0 allows no
 names

---
 src/cwl_utils/pack.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/cwl_utils/pack.py b/src/cwl_utils/pack.py
index db19099..5d88fd8 100644
--- a/src/cwl_utils/pack.py
+++ b/src/cwl_utils/pack.py
@@ -351,6 +351,28 @@ def unify_versions(cwl: dict[str, Any], cwl_version: str) -> None:
         unify_versions(step["run"], cwl_version)
 
 
+def drop_type_names(cwl: dict[str, Any]) -> None:
+    """Remove the names of inlined types where CWL v1.0 does not allow them."""
+
+    def drop(node: Any, kinds: tuple[str, ...]) -> None:
+        if isinstance(node, list):
+            for entry in node:
+                drop(entry, kinds)
+        elif isinstance(node, dict):
+            if node.get("type") in kinds:
+                node.pop("name", None)
+            for key in ("type", "items", "fields"):
+                drop(node.get(key), kinds)
+
+    drop(cwl["inputs"], ("array",))
+    drop(
+        cwl["outputs"],
+        ("array",) if cwl["class"] == "CommandLineTool" else ("array", "record"),
+    )
+    for step in cwl.get("steps", []):
+        drop_type_names(step["run"])
+
+
 def pack(cwl_path: str) -> dict[str, Any]:
     """Pack a CWL document at the given path."""
     _logger.debug("Packing %s", cwl_path)
@@ -365,5 +387,7 @@ def pack(cwl_path: str) -> dict[str, Any]:
         return cwl
     cwl = pack_process(cwl, full_url, cwl["cwlVersion"])
     unify_versions(cwl, cwl["cwlVersion"])
+    if cwl["cwlVersion"] == "v1.0":
+        drop_type_names(cwl)
 
     return cwl
-- 
2.43.0


From 9ac9da72468101dce88d538a83246049ac1555fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:55 +0000
Subject: [PATCH 60/78] fix: find the container and software requirements in
 the hints of steps

---
 src/cwl_utils/cite_extract.py   |  8 ++++----
 src/cwl_utils/docker_extract.py |  8 ++++----
 src/cwl_utils/parser/utils.py   | 17 ++++++++++++++++-
 3 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/cwl_utils/cite_extract.py b/src/cwl_utils/cite_extract.py
index d35081d..02d627a 100755
--- a/src/cwl_utils/cite_extract.py
+++ b/src/cwl_utils/cite_extract.py
@@ -6,6 +6,7 @@ from collections.abc import Iterator
 from typing import cast
 
 import cwl_utils.parser as cwl
+from cwl_utils.parser.utils import parsed_hints
 
 
 def arg_parser() -> argparse.ArgumentParser:
@@ -40,10 +41,9 @@ def extract_software_reqs(
         for req in process.requirements:
             if isinstance(req, cwl.SoftwareRequirementTypes):
                 yield req
-    if process.hints:
-        for req in process.hints:
-            if isinstance(req, cwl.SoftwareRequirementTypes):
-                yield req
+    for req in parsed_hints(process, "SoftwareRequirement"):
+        if isinstance(req, cwl.SoftwareRequirementTypes):
+            yield req
 
 
 def process_software_requirement(req: cwl.SoftwareRequirement) -> None:
diff --git a/src/cwl_utils/docker_extract.py b/src/cwl_utils/docker_extract.py
index f67163d..491717b 100755
--- a/src/cwl_utils/docker_extract.py
+++ b/src/cwl_utils/docker_extract.py
@@ -14,6 +14,7 @@ from cwl_utils.image_puller import (
     ImagePuller,
     SingularityImagePuller,
 )
+from cwl_utils.parser.utils import parsed_hints
 
 
 def arg_parser() -> argparse.ArgumentParser:
@@ -108,10 +109,9 @@ def extract_docker_reqs(process: cwl.Process) -> Iterator[cwl.DockerRequirement]
         for req in process.requirements:
             if isinstance(req, cwl.DockerRequirementTypes):
                 yield req
-    if process.hints:
-        for req in process.hints:
-            if isinstance(req, cwl.DockerRequirementTypes):
-                yield req
+    for req in parsed_hints(process, "DockerRequirement"):
+        if isinstance(req, cwl.DockerRequirementTypes):
+            yield req
 
 
 def traverse(process: cwl.Process) -> Iterator[cwl.DockerRequirement]:
diff --git a/src/cwl_utils/parser/utils.py b/src/cwl_utils/parser/utils.py
index 723d78f..6bc547d 100644
--- a/src/cwl_utils/parser/utils.py
+++ b/src/cwl_utils/parser/utils.py
@@ -2,7 +2,8 @@
 
 import copy
 import logging
-from collections.abc import MutableSequence
+import sys
+from collections.abc import Iterator, MutableMapping, MutableSequence
 from pathlib import Path
 from typing import Any, cast, Literal
 from urllib.parse import unquote, urlsplit
@@ -649,3 +650,17 @@ def type_for_step_output(step: WorkflowStep, sourcename: str, cwlVersion: str) -
             return cwl_v1_2_utils.type_for_step_output(
                 cast(cwl_v1_2.WorkflowStep, step), sourcename
             )
+
+
+def parsed_hints(element: Process | WorkflowStep, class_name: str) -> Iterator[Any]:
+    """
+    Yield the hints, with those of the given class as objects.
+
+    The parsers leave the hints of workflow steps as they are in the document.
+    """
+    for hint in element.hints or []:
+        if isinstance(hint, MutableMapping) and hint.get("class") == class_name:
+            hint_type = getattr(sys.modules[type(element).__module__], class_name)
+            yield hint_type.fromDoc(hint, element.id, element.loadingOptions)
+        else:
+            yield hint
-- 
2.43.0


From 3e3b12796cdfaac580b36c50f8211d64dd9d7977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:47 +0000
Subject: [PATCH 61/78] fix: do not take the port of a registry for the tag of
 an image

---
 src/cwl_utils/docker_extract.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cwl_utils/docker_extract.py b/src/cwl_utils/docker_extract.py
index 491717b..046ac19 100755
--- a/src/cwl_utils/docker_extract.py
+++ b/src/cwl_utils/docker_extract.py
@@ -98,7 +98,10 @@ def extract_docker_requirements(
 ) -> Iterator[cwl.DockerRequirement]:
     """Yield an iterator of the docker reqs, normalizing the pull request."""
     for req in extract_docker_reqs(process):
-        if isinstance(req.dockerPull, str) and ":" not in req.dockerPull:
+        if (
+            isinstance(req.dockerPull, str)
+            and ":" not in req.dockerPull.rsplit("/", 1)[-1]
+        ):
             req.dockerPull += ":latest"
         yield req
 
-- 
2.43.0


From c41f7f79df1d5e068c6909acbb1059329e6121bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:16 +0000
Subject: [PATCH 62/78] fix: force the download of an image that was not saved
 before

---
 src/cwl_utils/image_puller.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cwl_utils/image_puller.py b/src/cwl_utils/image_puller.py
index 5604002..9f03a5c 100644
--- a/src/cwl_utils/image_puller.py
+++ b/src/cwl_utils/image_puller.py
@@ -70,7 +70,7 @@ class DockerImagePuller(ImagePuller):
         if self.save_directory:
             dest = Path(self.save_directory, self.get_image_name())
             if self.save_directory and self.force_pull:
-                dest.unlink()
+                dest.unlink(missing_ok=True)
             cmd_save = [
                 self.cmd,
                 "save",
-- 
2.43.0


From 394b371c1494eff9057adabca82db42e494042a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:16 +0000
Subject: [PATCH 63/78] fix: save Singularity images in the current directory
 by default

---
 src/cwl_utils/image_puller.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/cwl_utils/image_puller.py b/src/cwl_utils/image_puller.py
index 9f03a5c..08b6357 100644
--- a/src/cwl_utils/image_puller.py
+++ b/src/cwl_utils/image_puller.py
@@ -106,9 +106,7 @@ class SingularityImagePuller(ImagePuller):
 
     def save_docker_image(self) -> None:
         """Pull down the Docker software container image and save it in the Singularity image format."""
-        save_directory: str | Path
-        if self.save_directory:
-            save_directory = self.save_directory
+        save_directory = self.save_directory or Path()
         target = Path(save_directory, self.get_image_name())
         if target.exists() and not self.force_pull:
             _LOGGER.info(f"Already cached {self.req} with Singularity.")
-- 
2.43.0


From 804467ca7caa5ca5f1ac2edf8d89bf6ebde669bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:05 +0000
Subject: [PATCH 64/78] fix: split documents with all forms of references,
 types and options

References in lists and maps, outputs, embedded processes and process names
with a common prefix were not rewritten; types were appended to their files
again on every run, lost their nested names, and their kind; default values
were rewritten; namespaces were dropped.
---
 src/cwl_utils/graph_split.py | 269 ++++++++++++++++++++++-------------
 1 file changed, 167 insertions(+), 102 deletions(-)

diff --git a/src/cwl_utils/graph_split.py b/src/cwl_utils/graph_split.py
index 8a1ef14..9c53c7d 100755
--- a/src/cwl_utils/graph_split.py
+++ b/src/cwl_utils/graph_split.py
@@ -21,7 +21,6 @@ from typing import (
     IO,
     Any,
     Callable,
-    cast,
 )
 
 try:
@@ -32,6 +31,7 @@ except ImportError:
 from ruamel.yaml.main import YAML
 from ruamel.yaml.representer import RoundTripRepresenter
 from schema_salad.sourceline import SourceLine, add_lc_filename
+from schema_salad.utils import yaml_no_ts
 
 from cwl_utils.loghandler import _logger as _cwlutilslogger
 
@@ -106,9 +106,7 @@ def graph_split(
     pretty: bool,
 ) -> None:
     """Loop over the provided packed CWL document and split it up."""
-    yaml = YAML(typ="rt")
-    yaml.preserve_quotes = True
-    source = yaml.load(sourceIO)
+    source = yaml_no_ts().load(sourceIO)
     add_lc_filename(source, sourceIO.name)
 
     if "$graph" not in source:
@@ -132,152 +130,219 @@ def graph_split(
 
     RoundTripRepresenter.add_representer(type(None), my_represent_none)
 
+    if mainfile is None:
+        mainfile = f"unpacked_{os.path.basename(sourceIO.name)}"
+
+    type_files: dict[str, list[Any]] = {}
     for entry in source["$graph"]:
         entry_id = entry.pop("id").lstrip("#")
         entry["cwlVersion"] = version
-        imports = rewrite(entry, entry_id, output_dir)
-        if imports:
-            for import_name in imports:
-                rewrite_types(entry, f"#{import_name}", False)
-        if entry_id == "main":
-            if mainfile is None:
-                entry_id = f"unpacked_{os.path.basename(sourceIO.name)}"
-            else:
-                entry_id = mainfile
-
-        output_file = output_dir / (re.sub(".cwl$", "", entry_id) + ".cwl")
+        for key in ("$namespaces", "$schemas"):
+            if key in source:
+                entry.setdefault(key, source[key])
+        rewrite(entry, entry_id, mainfile, type_files)
+
+        output_file = output_dir / process_file(entry_id, mainfile)
         if output_format == "json":
             json_dump(entry, output_file)
         elif output_format == "yaml":
             with output_file.open("w", encoding="utf-8") as output_handle:
                 yaml_dump(entry, output_handle, pretty)
 
+    for type_file, types in type_files.items():
+        with (output_dir / type_file).open("w", encoding="utf-8") as output_handle:
+            yaml_dump(types[0] if len(types) == 1 else types, output_handle, False)
+
+
+def process_file(process_id: str, mainfile: str) -> str:
+    """Name the file that a process is written to."""
+    if process_id == "main":
+        process_id = mainfile
+    return re.sub(r"\.cwl$", "", process_id) + ".cwl"
+
 
 def rewrite_id(entry: Any, this_id: str | None) -> MutableMapping[Any, Any] | str:
     if isinstance(entry, MutableMapping):
-        if entry["id"].startswith(this_id):
-            assert isinstance(this_id, str)  # nosec B101
-            entry["id"] = cast(str, entry["id"])[len(this_id) + 1 :]
+        entry["id"] = rewrite_id(entry["id"], this_id)
         return entry
     elif isinstance(entry, str):
-        if this_id and entry.startswith(this_id):
+        if this_id and entry.startswith(f"{this_id}/"):
             return entry[len(this_id) + 1 :]
         return entry
     raise Exception(f"{entry} is neither a dictionary nor string.")
 
 
+def rewrite_reference(value: Any, doc_id: str) -> Any:
+    """Make references to parts of the process relative to it."""
+    if isinstance(value, list):
+        return [rewrite_reference(entry, doc_id) for entry in value]
+    if isinstance(value, str) and value.startswith("#") and "/" in value:
+        if value.startswith(f"#{doc_id}/"):
+            return value[len(doc_id) + 2 :]
+        referrant_file, sub = value[1:].split("/", 1)
+        return f"{referrant_file}#{sub}"
+    return value
+
+
+def rewrite_run(
+    process: MutableMapping[str, Any],
+    step_id: str | None,
+    doc_id: str,
+    mainfile: str,
+    type_files: dict[str, list[Any]],
+) -> None:
+    """Rewrite a process that is part of a step."""
+    if "id" in process:
+        inner_id = process["id"].lstrip("#")
+        process["id"] = inner_id.split("/")[-1]
+    elif step_id:
+        inner_id = f"{step_id.lstrip('#')}/run"
+    else:
+        inner_id = doc_id
+    rewrite(process, inner_id, mainfile, type_files)
+
+
 def rewrite(
-    document: Any, doc_id: str, output_dir: Path, pretty: bool = False
-) -> set[str]:
+    document: Any, doc_id: str, mainfile: str, type_files: dict[str, list[Any]]
+) -> None:
     """Rewrite the given element from the CWL $graph."""
-    imports = set()
     if isinstance(document, list) and not isinstance(document, str):
         for entry in document:
-            imports.update(rewrite(entry, doc_id, output_dir, pretty))
+            rewrite(entry, doc_id, mainfile, type_files)
     elif isinstance(document, dict):
-        this_id = document["id"] if "id" in document else None
+        if document.get("class") == "SchemaDefRequirement":
+            rewrite_schemadef(document, doc_id, type_files)
+            return
+        this_id = document.get("id")
         for key, value in document.items():
             with SourceLine(document, key, Exception):
                 match key:
+                    case "default":
+                        pass  # data, whatever it looks like
                     case "run" if isinstance(value, str) and value[0] == "#":
-                        document[key] = f"{re.sub('.cwl$', '', value[1:])}.cwl"
-                    case "id" | "outputSource" if value.startswith("#" + doc_id):
-                        document[key] = value[len(doc_id) + 2 :]
-                    case "out" if isinstance(value, list):
+                        document[key] = process_file(value[1:], mainfile)
+                    case "run" if isinstance(value, dict):
+                        rewrite_run(value, this_id, doc_id, mainfile, type_files)
+                    case "id" if isinstance(value, str):
+                        document[key] = rewrite_id(value, "#" + doc_id)
+                    case "in" | "out" if isinstance(value, list):
                         document[key][:] = [
                             rewrite_id(entry, this_id) for entry in value
                         ]
-                    case "source" | "scatter" | "items" | "format":
-                        if (
-                            isinstance(value, str)
-                            and value.startswith("#")
-                            and "/" in value
-                        ):
-                            referrant_file, sub = value[1:].split("/", 1)
-                            if referrant_file == doc_id:
-                                document[key] = sub
-                            else:
-                                document[key] = f"{referrant_file}#{sub}"
-                        elif isinstance(value, list):
-                            new_sources = []
-                            for entry in value:
-                                if entry.startswith("#" + doc_id):
-                                    new_sources.append(entry[len(doc_id) + 2 :])
-                                else:
-                                    new_sources.append(entry)
-                            document[key] = new_sources
+                        if key == "in":
+                            rewrite(value, doc_id, mainfile, type_files)
+                    case "scatter" if this_id and this_id.startswith("#"):
+                        document[key] = rewrite_reference(value, this_id[1:])
+                    case (
+                        "source"
+                        | "outputSource"
+                        | "loopSource"
+                        | "scatter"
+                        | "format"
+                        | "secrets"
+                    ):
+                        document[key] = rewrite_reference(value, doc_id)
+                    case "type" | "items":
+                        document[key] = rewrite_types(value, doc_id)
                     case "$import":
                         rewrite_import(document)
-                    case "class" if value == "SchemaDefRequirement":
-                        return rewrite_schemadef(document, output_dir, pretty)
+                    case (
+                        "inputs"
+                        | "outputs"
+                        | "in"
+                        | "steps"
+                        | "requirements"
+                        | "hints"
+                    ) if isinstance(value, dict):
+                        rewrite_map(key, value, doc_id, mainfile, type_files)
                     case _:
-                        imports.update(rewrite(value, doc_id, output_dir, pretty))
-    return imports
+                        rewrite(value, doc_id, mainfile, type_files)
+
+
+def rewrite_map(
+    field: str,
+    entries: MutableMapping[str, Any],
+    doc_id: str,
+    mainfile: str,
+    type_files: dict[str, list[Any]],
+) -> None:
+    """Rewrite the entries of a field that is given as a map by their names."""
+    for name, entry in entries.items():
+        if name == "SchemaDefRequirement" and field in ("requirements", "hints"):
+            rewrite_schemadef(entry, doc_id, type_files)
+        elif isinstance(entry, dict):
+            rewrite(entry, doc_id, mainfile, type_files)
+        elif field == "in":
+            entries[name] = rewrite_reference(entry, doc_id)
+        else:
+            entries[name] = rewrite_types(entry, doc_id)
 
 
 def rewrite_import(document: MutableMapping[str, Any]) -> None:
     """Adjust the $import directive."""
-    external_file = document["$import"].split("/")[0].lstrip("#")
-    document["$import"] = external_file
+    if document["$import"].startswith("#"):
+        document["$import"] = document["$import"].split("/")[0].lstrip("#")
 
 
-def rewrite_types(field: Any, entry_file: str, sameself: bool) -> None:
-    """Clean up the names of the types."""
+def rewrite_types(field: Any, entry_file: str) -> Any:
+    """Clean up the names of the types, which are used in the given file."""
     if isinstance(field, list) and not isinstance(field, str):
-        for entry in field:
-            rewrite_types(entry, entry_file, sameself)
-        return
+        return [rewrite_types(entry, entry_file) for entry in field]
+    if isinstance(field, str) and field.startswith("#") and "/" in field:
+        type_file, name = field[1:].split("/", 1)
+        if type_file == entry_file.split("/")[0]:
+            return f"#{name}"
+        return f"{type_file}#{name}"
     if isinstance(field, dict):
-        for key, value in field.items():
-            for name in ("type", "items"):
-                if key == name:
-                    if isinstance(value, str) and value.startswith(entry_file):
-                        if sameself:
-                            field[key] = value[len(entry_file) + 1 :]
-                        else:
-                            field[key] = "{d[0]}#{d[1]}".format(
-                                d=value[1:].split("/", 1)
-                            )
-            if isinstance(value, dict):
-                rewrite_types(value, entry_file, sameself)
-            if isinstance(value, list) and not isinstance(value, str):
-                for entry in value:
-                    rewrite_types(entry, entry_file, sameself)
+        for key in ("type", "items"):
+            if key in field:
+                field[key] = rewrite_types(field[key], entry_file)
+        if isinstance(field.get("fields"), dict):
+            for name, entry in field["fields"].items():
+                field["fields"][name] = rewrite_types(entry, entry_file)
+        else:
+            rewrite_types(field.get("fields"), entry_file)
+    return field
+
+
+def rewrite_names(field: Any) -> None:
+    """Make the names inside the definition of a type relative to their scope."""
+    if isinstance(field, list) and not isinstance(field, str):
+        for entry in field:
+            rewrite_names(entry)
+    elif isinstance(field, dict):
+        if isinstance(field.get("name"), str):
+            field["name"] = field["name"].split("/")[-1]
+        if isinstance(field.get("symbols"), list):
+            field["symbols"] = [symbol.split("/")[-1] for symbol in field["symbols"]]
+        for key in ("type", "items", "fields"):
+            rewrite_names(field.get(key))
 
 
 def rewrite_schemadef(
-    document: MutableMapping[str, Any], output_dir: Path, pretty: bool = False
-) -> set[str]:
-    """Dump the schemadefs to their own file."""
+    document: MutableMapping[str, Any],
+    doc_id: str,
+    type_files: dict[str, list[Any]],
+) -> None:
+    """Move the types of other files out of the process."""
+    types: list[Any] = []
     for entry in document["types"]:
         if "$import" in entry:
             rewrite_import(entry)
-        elif "name" in entry and "/" in entry["name"]:
-            entry_file, entry["name"] = entry["name"].lstrip("#").split("/")
-            for field in entry.get("fields", []):
-                field["name"] = field["name"].split("/")[2]
-                rewrite_types(field, entry_file, True)
-            with (output_dir / entry_file).open("a", encoding="utf-8") as entry_handle:
-                yaml_dump(entry, entry_handle, pretty)
-            entry["$import"] = entry_file
-            del entry["name"]
-            del entry["type"]
-            if "fields" in entry:
-                del entry["fields"]
-    seen_imports = set()
-
-    def seen_import(entry: MutableMapping[str, Any]) -> bool:
-        if "$import" in entry:
-            external_file = entry["$import"]
-            if external_file not in seen_imports:
-                seen_imports.add(external_file)
-                return True
-            return False
-        return True
-
-    types = document["types"]
-    document["types"][:] = [entry for entry in types if seen_import(entry)]
-    return seen_imports
+        elif entry.get("name", "").startswith("#") and "/" in entry["name"]:
+            entry_file = entry["name"][1:].split("/")[0]
+            rewrite_types(entry, entry_file)
+            rewrite_names(entry)
+            if entry_file != doc_id.split("/")[0]:
+                definitions = type_files.setdefault(entry_file, [])
+                if all(entry["name"] != known["name"] for known in definitions):
+                    definitions.append(entry)
+                entry = {"$import": entry_file}
+        else:
+            rewrite_types(entry, doc_id)
+        if "$import" not in entry or entry not in types:
+            types.append(entry)
+    document["types"] = types
 
 
 def json_dump(entry: Any, output_file: Path) -> None:
-- 
2.43.0


From 71bf5b51e41046de62561d8154ed433503b27f28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:49 +0000
Subject: [PATCH 65/78] fix: list every definition in use once

---
 src/cwl_utils/inputs_schema_gen.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/cwl_utils/inputs_schema_gen.py b/src/cwl_utils/inputs_schema_gen.py
index a3592a5..20ae883 100644
--- a/src/cwl_utils/inputs_schema_gen.py
+++ b/src/cwl_utils/inputs_schema_gen.py
@@ -506,12 +506,10 @@ def get_property_dependencies(
         if reference_value not in existing_property_dependencies:
             existing_property_dependencies.append(reference_value)
             # Get the property dependencies of the reference value
-            existing_property_dependencies.extend(
-                get_property_dependencies(
-                    input_json_schema["definitions"][reference_value],
-                    input_json_schema,
-                    existing_property_dependencies,
-                )
+            get_property_dependencies(
+                input_json_schema["definitions"][reference_value],
+                input_json_schema,
+                existing_property_dependencies,
             )
 
     return existing_property_dependencies
-- 
2.43.0


From 9b31f274b86667439ab108979515ced74e0aa27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:49 +0000
Subject: [PATCH 66/78] fix: generate input schemas for relative paths and file
 URIs with escapes

---
 src/cwl_utils/inputs_schema_gen.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/cwl_utils/inputs_schema_gen.py b/src/cwl_utils/inputs_schema_gen.py
index 20ae883..e29d914 100644
--- a/src/cwl_utils/inputs_schema_gen.py
+++ b/src/cwl_utils/inputs_schema_gen.py
@@ -14,7 +14,7 @@ from copy import deepcopy
 from importlib.resources import files
 from pathlib import Path
 from typing import Any, TypeGuard
-from urllib.parse import urlparse
+from urllib.parse import unquote, urlparse
 
 import requests
 
@@ -574,9 +574,9 @@ def get_cwl_url(url: str) -> str:
         if not Path(url).exists():
             logging.error("The CWL URL is invalid.")
             raise FileNotFoundError
-        return Path(url).as_uri()
+        return Path(url).absolute().as_uri()
     elif is_local_uri(url):
-        if not Path(urlparse(url).path).exists():
+        if not Path(unquote(urlparse(url).path)).exists():
             logging.error("The CWL URL is invalid.")
             raise FileNotFoundError
         return url
-- 
2.43.0


From 1dff0649708dcd3ca85efcda0cc33e5e797a94c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:49 +0000
Subject: [PATCH 67/78] fix: generate input schemas that accept exactly the
 valid input objects

---
 src/cwl_utils/inputs_schema_gen.py | 158 +++++++++++++++++++----------
 1 file changed, 103 insertions(+), 55 deletions(-)

diff --git a/src/cwl_utils/inputs_schema_gen.py b/src/cwl_utils/inputs_schema_gen.py
index e29d914..1976730 100644
--- a/src/cwl_utils/inputs_schema_gen.py
+++ b/src/cwl_utils/inputs_schema_gen.py
@@ -24,7 +24,9 @@ from cwl_utils.parser import (
     Directory,
     File,
     InputArraySchema,
+    InputArraySchemaTypes,
     InputEnumSchema,
+    InputEnumSchemaTypes,
     InputRecordSchema,
     InputRecordSchemaTypes,
     Workflow,
@@ -56,11 +58,13 @@ PRIMITIVE_TYPES_MAPPING = {
     "string": "string",
     "int": "integer",
     "float": "number",
-    "long": "number",
+    "long": "integer",
     "double": "number",
     "null": "null",
 }
 
+COMPLEX_TYPES = InputRecordSchemaTypes + InputEnumSchemaTypes + InputArraySchemaTypes
+
 # Some type hinting
 InputType = (
     InputArraySchema | InputEnumSchema | InputRecordSchema | str | File | Directory
@@ -77,15 +81,19 @@ class JSONSchemaProperty:
         self,
         name: str,
         type_: InputType | list[InputType] | str | Any,
-        description: str | None = "",
+        description: str | list[str] | None = "",
         required: bool | None = False,
+        definition_names: dict[str, str] | None = None,
     ):
         """Initialise the JSONSchemaProperty object."""
         # Initialise values
         self.name: str = name
         self.type_: InputType | list[InputType] | str | Any = type_
-        self.description = description
+        self.description = (
+            "\n".join(description) if isinstance(description, list) else description
+        )
         self.required = required
+        self.definition_names = definition_names if definition_names is not None else {}
         self.type_dict = self.generate_type_dict()
 
     def generate_type_dict(self) -> dict[str, Any]:
@@ -98,10 +106,12 @@ class JSONSchemaProperty:
             # Check if we're down to one item, we can then squeeze
             if len(self.type_) == 1:
                 self.type_ = self.type_[0]
+            elif not self.type_:
+                self.type_ = "null"
 
         # type_ is still a list therefore we offer multiple input types for this parameter
         if isinstance(self.type_, list):
-            # We use the oneOf keyword to specify multiple types
+            # We use the anyOf keyword to specify multiple types
             type_dict = self.generate_type_dict_from_type_list(self.type_)
         # type_ is a single type
         else:
@@ -117,7 +127,7 @@ class JSONSchemaProperty:
         Generate the type dict for a property from a CWL input parameter type.
 
         We call this function for each type in the :py:attr:`type_` list
-        In the case there are multiple types, each dict is added to the oneOf list
+        In the case there are multiple types, each dict is added to the anyOf list
         """
         # Primitive types should have a 1-1 mapping
         # Between an CWL Input Parameter type and a JSON schema type
@@ -131,9 +141,8 @@ class JSONSchemaProperty:
                 return {"$ref": f"#/definitions/{type_item}"}
             # When item is a record schema type
             case str() if is_uri(type_item):
-                return {
-                    "$ref": f"#/definitions/{to_pascal_case(get_value_from_uri(type_item))}"
-                }
+                name = get_definition_name(type_item, self.definition_names)
+                return {"$ref": f"#/definitions/{name}"}
             case str():
                 raise ValueError(f"Unknown type: {type_item}")
             case (
@@ -176,6 +185,11 @@ class JSONSchemaProperty:
                                 ): self.generate_type_dict_from_type(prop.type_)
                                 for prop in fields
                             },
+                            "required": [
+                                get_value_from_uri(prop.name)
+                                for prop in fields
+                                if not is_optional(prop.type_)
+                            ],
                         }
                     case _:
                         _cwlutilslogger.error(
@@ -193,23 +207,16 @@ class JSONSchemaProperty:
                 raise ValueError(f"Unknown type: {type_item}")
             case list():
                 # Nested schema
-                return {
-                    "oneOf": list(
-                        map(
-                            self.generate_type_dict_from_type,
-                            type_item,
-                        )
-                    )
-                }
+                return self.generate_type_dict_from_type_list(type_item)
             case _:
                 raise ValueError(f"Unknown type: {type_item}")
 
     def generate_type_dict_from_type_list(
         self, type_: list[InputType]
     ) -> dict[str, Any]:
-        """Given a list of types, generate a JSON schema property dict wrapped in oneOf list."""
+        """Given a list of types, generate a JSON schema property dict wrapped in anyOf list."""
         return {
-            "oneOf": list(
+            "anyOf": list(
                 map(
                     self.generate_type_dict_from_type,
                     type_,
@@ -222,6 +229,23 @@ class JSONSchemaProperty:
         return {self.name: self.type_dict}
 
 
+def is_optional(type_: Any) -> bool:
+    """Return if a value of this type can be left out."""
+    return type_ == "null" or (isinstance(type_, list) and "null" in type_)
+
+
+def get_definition_name(uri: str, definition_names: dict[str, str]) -> str:
+    """Name the definition of a type, each type by a name of its own."""
+    if uri not in definition_names:
+        name = unique_name = to_pascal_case(get_value_from_uri(uri))
+        number = 1
+        while unique_name in definition_names.values():
+            number += 1
+            unique_name = f"{name}{number}"
+        definition_names[uri] = unique_name
+    return definition_names[uri]
+
+
 def get_is_required_from_input_parameter(
     input_parameter: WorkflowInputParameter,
 ) -> bool:
@@ -230,7 +254,7 @@ def get_is_required_from_input_parameter(
         return False
     if input_parameter.default is not None:
         return False
-    if isinstance(input_parameter.type_, list) and "null" in input_parameter.type_:
+    if is_optional(input_parameter.type_):
         return False
     if isinstance(input_parameter.type_, InputRecordSchemaTypes):
         if input_parameter.type_ is not None:
@@ -243,6 +267,7 @@ def get_is_required_from_input_parameter(
 
 def generate_json_schema_property_from_input_parameter(
     input_parameter: WorkflowInputParameter,
+    definition_names: dict[str, str] | None = None,
 ) -> JSONSchemaProperty:
     """
     Given an input parameter, generate a JSON schema property.
@@ -260,21 +285,38 @@ def generate_json_schema_property_from_input_parameter(
         type_=input_parameter.type_,
         description=doc if doc is not None else "",
         required=required,
+        definition_names=definition_names,
     )
 
 
-def generate_definition_from_schema(schema: InputRecordSchema) -> dict[str, Any]:
+def generate_definition_from_schema(
+    schema: InputRecordSchema | InputEnumSchema | InputArraySchema,
+    definition_names: dict[str, str] | None = None,
+) -> dict[str, Any]:
     """
     Given a schema, generate a JSON schema definition.
 
     :param schema:
     :return:
     """
+    if definition_names is None:
+        definition_names = {}
+    definition_name = get_definition_name(str(schema.name), definition_names)
+
+    if not isinstance(schema, InputRecordSchemaTypes):
+        prop = JSONSchemaProperty(
+            name=definition_name,
+            type_=schema,
+            required=True,
+            definition_names=definition_names,
+        )
+        return prop.to_dict()
+
     # Sanitise each field of the schema
     sanitised_fields = {}
 
     if schema.fields is None:
-        return {}
+        return {definition_name: {"type": "object"}}
 
     for field in schema.fields:
         sanitised_fields.update(
@@ -296,9 +338,9 @@ def generate_definition_from_schema(schema: InputRecordSchema) -> dict[str, Any]
         if isinstance(prop_obj, str):
             raise TypeError("Property Object should be a dictionary")
 
+        if is_optional(prop_obj.get("type", [])):
+            required = False
         if isinstance(prop_obj.get("type", []), list):
-            if "null" in prop_obj.get("type", []):
-                required = False
             prop_obj["type"] = list(
                 filter(lambda type_item: type_item != "null", prop_obj.get("type", []))
             )
@@ -306,6 +348,8 @@ def generate_definition_from_schema(schema: InputRecordSchema) -> dict[str, Any]
             # Check if we're down to one item
             if len(prop_obj["type"]) == 1:
                 prop_obj["type"] = prop_obj["type"][0]
+            elif not prop_obj["type"]:
+                prop_obj["type"] = "null"
 
         # Generate JSONSchema Property
         prop = JSONSchemaProperty(
@@ -313,13 +357,21 @@ def generate_definition_from_schema(schema: InputRecordSchema) -> dict[str, Any]
             type_=prop_obj.get("type"),
             description=prop_obj.get("doc", ""),
             required=required,
+            definition_names=definition_names,
         )
         property_list.append(prop)
 
     return {
-        to_pascal_case(get_value_from_uri(str(schema.name))): {
+        definition_name: {
             "type": "object",
-            "properties": {prop.name: prop.type_dict for prop in property_list},
+            "properties": {
+                prop.name: (
+                    {"oneOf": [{"type": "null"}, prop.type_dict]}
+                    if prop.required is False
+                    else prop.type_dict
+                )
+                for prop in property_list
+            },
             "required": [prop.name for prop in property_list if prop.required],
         }
     }
@@ -346,8 +398,16 @@ def cwl_to_jsonschema(cwl_obj: Workflow | CommandLineTool) -> Any:
     ):
         input_json_schema = json.load(template_h)
 
+    # Generate JSON Schema Properties
+    # The definitions of the template keep their names
+    definition_names = {name: name for name in input_json_schema["definitions"]}
+    properties = [
+        generate_json_schema_property_from_input_parameter(parameter, definition_names)
+        for parameter in cwl_obj.inputs
+    ]
+
     # Get the complex schema keys
-    def is_complex_record_schema_key(idx_iter: str) -> TypeGuard[bool]:
+    def is_complex_schema_key(idx_iter: str) -> TypeGuard[bool]:
         if cwl_obj.loadingOptions.idx is None:
             return False
 
@@ -360,33 +420,35 @@ def cwl_to_jsonschema(cwl_obj: Workflow | CommandLineTool) -> Any:
         # Get index as a tuple
         input_schema_type, _ = cwl_obj.loadingOptions.idx.get(idx_iter, (None, None))
 
-        if isinstance(input_schema_type, InputRecordSchemaTypes):
+        if isinstance(input_schema_type, COMPLEX_TYPES):
             return True
         return False
 
     complex_schema_keys: list[str] = list(
         filter(
-            is_complex_record_schema_key,
+            is_complex_schema_key,
             cwl_obj.loadingOptions.idx.keys(),
         )
     )
 
     # Complex schema values
-    def get_complex_schema_values(idx_iter: str) -> InputRecordSchema:
+    def get_complex_schema_values(
+        idx_iter: str,
+    ) -> InputRecordSchema | InputEnumSchema | InputArraySchema:
         if not isinstance(cwl_obj.loadingOptions.idx.get(idx_iter), tuple):
             raise TypeError(f"Expected tuple from idx loading options key {idx_iter}")
 
-        # Collect input record schema
-        input_record_schema, _ = cwl_obj.loadingOptions.idx.get(idx_iter, (None, None))
+        # Collect input schema
+        input_schema, _ = cwl_obj.loadingOptions.idx.get(idx_iter, (None, None))
 
-        if not isinstance(input_record_schema, InputRecordSchemaTypes):
+        if not isinstance(input_schema, COMPLEX_TYPES):
             raise TypeError(
-                f"Expected InputRecordSchemaTypes from idx loading options key {idx_iter}"
+                f"Expected an input schema from idx loading options key {idx_iter}"
             )
 
-        return input_record_schema
+        return input_schema
 
-    complex_schema_values: list[InputRecordSchema] = list(
+    complex_schema_values = list(
         map(
             get_complex_schema_values,
             complex_schema_keys,
@@ -394,12 +456,10 @@ def cwl_to_jsonschema(cwl_obj: Workflow | CommandLineTool) -> Any:
     )
 
     # Load in all $imports to be referred by complex input types
-    workflow_schema_definitions_list = list(
-        map(
-            generate_definition_from_schema,
-            complex_schema_values,
-        )
-    )
+    workflow_schema_definitions_list = [
+        generate_definition_from_schema(schema, definition_names)
+        for schema in complex_schema_values
+    ]
 
     if cwl_obj.requirements is not None:
         with suppress(StopIteration):
@@ -412,12 +472,8 @@ def cwl_to_jsonschema(cwl_obj: Workflow | CommandLineTool) -> Any:
             )
 
             workflow_schema_definitions_list.extend(
-                list(
-                    map(
-                        generate_definition_from_schema,
-                        schema_def_requirement.types,
-                    )
-                )
+                generate_definition_from_schema(schema, definition_names)
+                for schema in schema_def_requirement.types
             )
 
     # Convert schema definitions to dict
@@ -425,14 +481,6 @@ def cwl_to_jsonschema(cwl_obj: Workflow | CommandLineTool) -> Any:
     for schema_definition in workflow_schema_definitions_list:
         workflow_schema_definitions_dict.update(schema_definition)
 
-    # Generate JSON Schema Properties
-    properties = list(
-        map(
-            generate_json_schema_property_from_input_parameter,
-            cwl_obj.inputs,
-        )
-    )
-
     # Generate JSON schema
     input_json_schema.update(
         {
-- 
2.43.0


From 58750fc585b3a75f3f7aa244421bc7136a48b574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:11 +0000
Subject: [PATCH 68/78] fix: convert strings with quotes, backslashes and
 function bodies to one expression

---
 src/cwl_utils/expression.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/cwl_utils/expression.py b/src/cwl_utils/expression.py
index 0b74a44..c98e482 100644
--- a/src/cwl_utils/expression.py
+++ b/src/cwl_utils/expression.py
@@ -200,8 +200,8 @@ def interpolate(
     """
     Interpolate and evaluate.
 
-    Note: only call with convert_to_expression=True on CWL Expressions in $()
-    form that need interpolation.
+    Note: only call with convert_to_expression=True on CWL Expressions that need
+    interpolation.
     """
     if strip_whitespace:
         scan = scan.strip()
@@ -217,7 +217,7 @@ def interpolate(
     w = scanner(scan)
     while w:
         if convert_to_expression:
-            parts.append(f'"{scan[0: w[0]]}" + ')  # noqa: B907
+            parts.append(dump(scan[0 : w[0]]))
         else:
             parts.append(scan[0 : w[0]])
 
@@ -235,10 +235,12 @@ def interpolate(
                     leaf = json.loads(leaf)
                 parts.append(leaf)
             else:
+                item = scan[w[0] + 1 : w[1]]
+                if item.startswith("{"):
+                    item = f"function(){item}()"
                 parts.append(
-                    "function(){var item ="
-                    + scan[w[0] : w[1]][2:-1]
-                    + '; if (typeof(item) === "string"){ return item; } '
+                    f"function(){{var item ={item}; "
+                    'if (typeof(item) === "string"){ return item; } '
                     "else { return JSON.stringify(item); }}() + "
                 )
         elif scan[w[0]] == "\\":
@@ -266,7 +268,7 @@ def interpolate(
         scan = scan[w[1] :]
         w = scanner(scan)
     if convert_to_expression:
-        parts.extend((f'"{scan}"', ";}"))  # noqa: B907
+        parts.extend((json.dumps(scan), ";}"))
     else:
         parts.append(scan)
     return "".join(parts)
-- 
2.43.0


From c5e25dba3e919b90c144cfad09d3f8cee98de6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:18 +0000
Subject: [PATCH 69/78] fix: keep identifiers, expression libraries and
 inherited requirements of refactored processes

---
 src/cwl_utils/expression_refactor.py | 157 ++++++++++++++++++++++++---
 1 file changed, 141 insertions(+), 16 deletions(-)

diff --git a/src/cwl_utils/expression_refactor.py b/src/cwl_utils/expression_refactor.py
index f4f4353..5891189 100755
--- a/src/cwl_utils/expression_refactor.py
+++ b/src/cwl_utils/expression_refactor.py
@@ -35,9 +35,11 @@ from cwl_utils.parser import (
     Workflow,
     CommandOutputParameter,
     ExpressionTool,
+    EnvVarRequirement,
     InitialWorkDirRequirement,
     InlineJavascriptRequirement,
     ProcessRequirement,
+    ResourceRequirement,
     CommandLineTool,
     load_document_by_uri,
     CommandLineBinding,
@@ -239,10 +241,9 @@ def find_expressionLib(
     (Workflow, WorkflowStep, ... CommandLineTool/ExpressionTool)
     """
     for process in reversed(copy.copy(processes)):
-        if process.requirements:
-            for req in process.requirements:
-                if isinstance(req, InlineJavascriptRequirement):
-                    return cast(list[str] | None, copy.deepcopy(req.expressionLib))
+        for req in [*(process.requirements or []), *(process.hints or [])]:
+            if isinstance(req, InlineJavascriptRequirement):
+                return cast(list[str] | None, copy.deepcopy(req.expressionLib))
     return None
 
 
@@ -267,15 +268,9 @@ def generate_etool_from_expr2(
         procs.extend(extra_processes)
     if process:
         if process.hints:
-            hints = [
-                x for x in process.hints if not isinstance(x, InitialWorkDirRequirement)
-            ]
+            hints = [x for x in process.hints if not needs_inputs(x)]
         if process.requirements:
-            requirements = [
-                x
-                for x in process.requirements
-                if not isinstance(x, InitialWorkDirRequirement)
-            ]
+            requirements = [x for x in process.requirements if not needs_inputs(x)]
     cwlVersion = (
         process.cwlVersion if process and process.cwlVersion is not None else cwlVersion
     )
@@ -493,11 +488,99 @@ def get_input_for_id(
     return None
 
 
+def needs_inputs(requirement: Any) -> bool:
+    """Tell if a requirement of a process is of no use to an ExpressionTool made of its parts."""
+    if isinstance(requirement, ResourceRequirement):
+        return any(
+            isinstance(getattr(requirement, x, None), str) for x in requirement.attrs
+        )
+    return isinstance(
+        requirement,
+        (EnvVarRequirement, InitialWorkDirRequirement, InlineJavascriptRequirement),
+    )
+
+
+def inherit_JSReq(
+    process: Process,
+    cwlVersion: Literal["v1.0", "v1.1", "v1.2"],
+    parents: Sequence[Process | WorkflowStep],
+) -> None:
+    """Give the process of a step the JavaScript requirement that it has from its parents."""
+    for candidate in [process, *reversed(parents)]:
+        if any(
+            isinstance(req, InlineJavascriptRequirement)
+            for req in [*(candidate.requirements or []), *(candidate.hints or [])]
+        ):
+            break
+    else:
+        return
+    if candidate is not process:
+        process.requirements = [
+            *(process.requirements or []),
+            get_inline_javascript_requirement(
+                cast(ExpressionTool, process),
+                cwlVersion,
+                find_expressionLib([candidate]),
+            ),
+        ]
+
+
+def has_expression(value: Any) -> bool:
+    """Tell if there is an expression or a parameter reference in (a part of) a requirement."""
+    if isinstance(value, str):
+        return "$(" in value or "${" in value
+    if isinstance(value, MutableSequence):
+        return any(has_expression(item) for item in value)
+    return any(
+        has_expression(getattr(value, attr, None))
+        for attr in getattr(value, "attrs", ())
+    )
+
+
+def inherit_requirements(
+    process: Process, step: WorkflowStep, workflow: Workflow
+) -> None:
+    """Move requirements with expressions, which use the inputs of the process, to the process."""
+    if isinstance(process, ExpressionTool):
+        return
+    for kind in (
+        EnvVarRequirement,
+        InitialWorkDirRequirement,
+        ResourceRequirement,
+    ):
+        for parent in (process, step, workflow):
+            found = [x for x in parent.requirements or [] if isinstance(x, kind)]
+            if not found:
+                continue
+            if parent is not process and has_expression(found[-1]):
+                process.requirements = [
+                    *(process.requirements or []),
+                    copy.deepcopy(found[-1]),
+                ]
+            break
+    drop_inherited_requirements(step)
+
+
+def drop_inherited_requirements(parent: WorkflowStep | Workflow) -> None:
+    """Remove the requirements that inherit_requirements gives to the processes of the steps."""
+    parent.requirements = [
+        x
+        for x in parent.requirements or []
+        if not (
+            isinstance(
+                x, (EnvVarRequirement, InitialWorkDirRequirement, ResourceRequirement)
+            )
+            and has_expression(x)
+        )
+    ] or None
+
+
 def load_step(
     step: WorkflowStep,
     replace_etool: bool,
     skip_command_line1: bool,
     skip_command_line2: bool,
+    parent: Workflow | None = None,
 ) -> bool:
     """If the step's Process is not inline, load and process it."""
     modified = False
@@ -505,6 +588,9 @@ def load_step(
         process = cast(
             Process, load_document_by_uri(step.run, loadingOptions=step.loadingOptions)
         )
+        if parent and process.cwlVersion in ("v1.0", "v1.1", "v1.2"):
+            inherit_JSReq(process, process.cwlVersion, [parent, step])
+            inherit_requirements(process, step, parent)
         # FIXME: with strong typing, it won't be possible to directly assign to step.run
         match process.cwlVersion:
             case "v1.0":
@@ -576,6 +662,48 @@ def process_CommandLineTool_output(
             )
 
 
+def relative_ids(process: Process) -> None:
+    """Make the identifiers inside the process relative to it, like the generated ones."""
+
+    def name(identifier: str) -> str:
+        return identifier.split("#")[-1].split("/")[-1]
+
+    sources = {param.id: name(param.id) for param in process.inputs if param.id}
+    if isinstance(process, Workflow):
+        for step in process.steps:
+            for out in step.out:
+                out_id = out if isinstance(out, str) else out.id
+                sources[out_id] = f"{name(step.id)}/{name(out_id)}"
+
+    def link(source: Any) -> Any:
+        if isinstance(source, MutableSequence):
+            return [link(item) for item in source]
+        if isinstance(source, str):
+            return sources.get(source, source.split("#")[-1])
+        return source
+
+    for param in [*process.inputs, *process.outputs]:
+        if param.id:
+            param.id = name(param.id)
+    if isinstance(process, Workflow):
+        for output in process.outputs:
+            output.outputSource = link(output.outputSource)
+        for step in process.steps:
+            step.id = name(step.id)
+            for inp in step.in_:
+                inp.id = name(inp.id)
+                inp.source = link(inp.source)
+            step.out = [
+                name(out) if isinstance(out, str) else name(out.id) for out in step.out
+            ]
+            if isinstance(step.scatter, str):
+                step.scatter = name(step.scatter)
+            elif step.scatter:
+                step.scatter = [name(scatter) for scatter in step.scatter]
+            if not isinstance(step.run, str):
+                relative_ids(step.run)
+
+
 def remove_JSReq(
     process: CommandLineTool | WorkflowStep | Workflow,
     skip_command_line1: bool,
@@ -661,10 +789,7 @@ def refactor(args: argparse.Namespace) -> int:
                 else:
                     return 7
             if not isinstance(result, MutableSequence):
-                result_json = save(
-                    result,
-                    base_url=(result.loadingOptions.fileuri or ""),
-                )
+                result_json = save(result, base_url=uri)
             #   ^^ Setting the base_url and keeping the default value
             #      for relative_uris=True means that the IDs in the generated
             #      JSON/YAML are kept clean of the path to the input document
-- 
2.43.0


From fa1ea98ab9e503184ce1b4ba66e81fe3e0b625dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:25 +0000
Subject: [PATCH 70/78] fix: refactor the expressions of CWL v1_2 documents
 without changing what they compute

Every kind of place is handled on its own process: what the requirements of a
workflow or step say with expressions is moved to the processes of its steps
first, so a separate pass over workflow requirements is not needed any more.
---
 src/cwl_utils/cwl_v1_2_expression_refactor.py | 1126 ++++++-----------
 1 file changed, 379 insertions(+), 747 deletions(-)

diff --git a/src/cwl_utils/cwl_v1_2_expression_refactor.py b/src/cwl_utils/cwl_v1_2_expression_refactor.py
index eca589a..b9244da 100755
--- a/src/cwl_utils/cwl_v1_2_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_2_expression_refactor.py
@@ -6,7 +6,7 @@
 import copy
 import hashlib
 import uuid
-from collections.abc import Mapping, MutableSequence, Sequence
+from collections.abc import MutableSequence, Sequence
 from contextlib import suppress
 from typing import Any, cast, Final
 
@@ -21,7 +21,7 @@ import cwl_utils.parser
 import cwl_utils.parser.cwl_v1_2 as cwl
 import cwl_utils.parser.cwl_v1_2_utils as utils
 from cwl_utils.errors import JavascriptException, WorkflowException
-from cwl_utils.expression import do_eval, interpolate
+from cwl_utils.expression import do_eval, interpolate, needs_parsing, scanner
 from cwl_utils.parser.utils import param_for_source_id
 from cwl_utils.types import (
     CWLDirectoryType,
@@ -51,7 +51,9 @@ def expand_stream_shortcuts(process: cwl.CommandLineTool) -> cwl.CommandLineTool
                 ).hexdigest()
                 result.stdout = stdout_path
             result.outputs[index].type_ = "File"
-            output.outputBinding = cwl.CommandOutputBinding(stdout_path, None, None)
+            result.outputs[index].outputBinding = cwl.CommandOutputBinding(
+                glob=stdout_path
+            )
     if result:
         return result
     return process
@@ -59,7 +61,7 @@ def expand_stream_shortcuts(process: cwl.CommandLineTool) -> cwl.CommandLineTool
 
 def escape_expression_field(contents: str) -> str:
     """Escape sequences similar to CWL expressions or param references."""
-    return contents.replace("${", "$/{").replace("$(", "$/(")
+    return contents.replace("\\", "\\\\").replace("${", "\\${").replace("$(", "\\$(")
 
 
 def clean_type_ids(
@@ -105,51 +107,47 @@ def get_expression(
 
     CWL expressions in the $() form are converted to the ${} form.
     """
-    if not isinstance(string, str):
+    if not needs_parsing(string):
         return None
-    if string.strip().startswith("${"):
+    string = string.strip()
+    whole = scanner(string) == (0, len(string))
+    if whole and string.startswith("${"):
         return string
-    if "$(" in string:
-        runtime = CWLRuntimeParameterContext(
-            cores=0,
-            ram=0,
-            outdir="/root",
-            tmpdir="/tmp",  # nosec
-            outdirSize=0,
-            tmpdirSize=0,
+    runtime = CWLRuntimeParameterContext(
+        cores=0,
+        ram=0,
+        outdir="/root",
+        tmpdir="/tmp",  # nosec
+        outdirSize=0,
+        tmpdirSize=0,
+        exitCode=0,
+    )
+    try:
+        do_eval(
+            string,
+            inputs,
+            context=self,
+            requirements=[],
+            outdir="",
+            tmpdir="",
+            resources=cast(dict[str, float | int], runtime),
+            cwlVersion=_DEFAULT_CWL_VERSION,
+        )
+    except (WorkflowException, JavascriptException):
+        if whole:
+            # it is a CWL Expression in $() with no string interpolation
+            return "${return (" + string[2:-1] + ");}"
+        # then it is a string interpolation
+        return cast(
+            str,
+            interpolate(
+                scan=string,
+                rootvars=CWLParameterContext(inputs=inputs, self=self, runtime=runtime),
+                fullJS=True,
+                escaping_behavior=2,
+                convert_to_expression=True,
+            ),
         )
-        try:
-            do_eval(
-                string,
-                inputs,
-                context=self,
-                requirements=[],
-                outdir="",
-                tmpdir="",
-                resources={},
-            )
-        except (WorkflowException, JavascriptException):
-            if (
-                string[0:2] != "$("
-                or not string.endswith(")")
-                or len(string.split("$(")) > 2
-            ):
-                # then it is a string interpolation
-                return cast(
-                    str,
-                    interpolate(
-                        scan=string,
-                        rootvars=CWLParameterContext(
-                            inputs=inputs, self=self, runtime=runtime
-                        ),
-                        fullJS=True,
-                        escaping_behavior=2,
-                        convert_to_expression=True,
-                    ),
-                )
-            else:
-                # it is a CWL Expression in $() with no string interpolation
-                return "${return " + string.strip()[2:-1] + ";}"
     return None
 
 
@@ -173,6 +171,8 @@ def etool_to_cltool(
                 streamable=inp.streamable,
                 doc=inp.doc,
                 format=inp.format,
+                loadContents=inp.loadContents,
+                loadListing=inp.loadListing,
                 default=inp.default,
                 type_=inp.type_,
                 extension_fields=inp.extension_fields,
@@ -194,15 +194,24 @@ def etool_to_cltool(
                 loadingOptions=outp.loadingOptions,
             )
         )
+    expression = etool.expression.strip()
+    if expression.startswith("$("):
+        expression = "${return (" + expression[2:-1] + ");}"
+    requirements: list[cwl.ProcessRequirement] = []
+    for req in [*(etool.hints or []), *(etool.requirements or [])]:
+        if isinstance(req, cwl.InlineJavascriptRequirement):
+            expressionLib = req.expressionLib
+        elif isinstance(req, cwl.SchemaDefRequirement):
+            requirements.append(req)
     contents = """"use strict";
 var inputs=$(inputs);
 var runtime=$(runtime);"""
     if expressionLib:
-        contents += "\n" + "\n".join(expressionLib)
+        contents += "\n" + escape_expression_field("\n".join(expressionLib))
     contents += (
         """
 var ret = function(){"""
-        + escape_expression_field(etool.expression.strip()[2:-1])
+        + escape_expression_field(expression[2:-1])
         + """}();
 process.stdout.write(JSON.stringify(ret));"""
     )
@@ -216,7 +225,7 @@ process.stdout.write(JSON.stringify(ret));"""
         inputs=inputs,
         outputs=outputs,
         id=etool.id,
-        requirements=[iwdr],
+        requirements=[iwdr, *requirements],
         hints=[containerReq, softwareHint],
         label=etool.label,
         doc=etool.doc,
@@ -238,6 +247,8 @@ def traverse(
     cwl.CommandLineTool | cwl.ExpressionTool | cwl.Workflow | cwl.Operation, bool
 ]:
     """Convert the given process and any subprocesses."""
+    if isinstance(process, cwl.Process):
+        cwl_utils.expression_refactor.relative_ids(process)
     match process:
         case cwl.CommandLineTool() if not inside:
             process = expand_stream_shortcuts(process)
@@ -289,16 +300,24 @@ def traverse(
                         )
                     )
             step = cwl.WorkflowStep(
-                id="#main",
+                id="main",
                 in_=step_inputs,
                 out=step_outputs,
                 run=copy.deepcopy(process),
             )
+            step.run.id = None
             workflow = cwl.Workflow(
+                id=process.id,
                 inputs=wf_inputs,
                 outputs=wf_outputs,
                 steps=[step],
+                requirements=[
+                    req
+                    for req in process.requirements or []
+                    if isinstance(req, cwl.SchemaDefRequirement)
+                ],
                 cwlVersion=process.cwlVersion,
+                loadingOptions=process.loadingOptions,
             )
             result, modified = traverse_workflow(
                 workflow, replace_etool, skip_command_line1, skip_command_line2
@@ -308,15 +327,7 @@ def traverse(
             else:
                 return process, False
         case cwl.ExpressionTool() if replace_etool:
-            expression = get_expression(process.expression, empty_inputs(process), None)
-            # Why call get_expression on an ExpressionTool?
-            # It normalizes the form of $() CWL expressions into the ${} style
-            if expression:
-                process2 = copy.deepcopy(process)
-                process2.expression = expression
-            else:
-                process2 = process
-            return etool_to_cltool(process2), True
+            return etool_to_cltool(process), True
         case cwl.Workflow():
             return traverse_workflow(
                 process, replace_etool, skip_command_line1, skip_command_line2
@@ -329,7 +340,8 @@ def generate_etool_from_expr(
     expr: str,
     target: cwl.CommandInputParameter | cwl.WorkflowInputParameter,
     no_inputs: bool = False,
-    self_type: None | (
+    self_type: None
+    | (
         cwl.WorkflowInputParameter
         | cwl.CommandInputParameter
         | list[cwl.WorkflowInputParameter | cwl.CommandInputParameter]
@@ -398,7 +410,7 @@ def generate_etool_from_expr(
     expression += (
         """
   return {"result": function(){"""
-        + expr[2:-2]
+        + expr.strip()[2:-1]
         + """}()};
  }"""
     )
@@ -706,26 +718,14 @@ def process_workflow_inputs_and_outputs(
                 etool_id = "_pickValue_workflow_step_{}".format(
                     param2.id.split("#")[-1]
                 )
-                target_type = copy.deepcopy(param2.type_)
-                if isinstance(target_type, cwl.OutputArraySchema):
-                    target_type.name = ""
-                target = cwl.WorkflowInputParameter(id=None, type_=target_type)
+                target = cwl.WorkflowInputParameter(id=None, type_=param2.type_)
                 if not isinstance(param2.outputSource, list):
                     sources = param2.outputSource.split("#")[-1]
                 else:
                     sources = [s.split("#")[-1] for s in param2.outputSource]
-                source_type_items = utils.type_for_source(workflow, sources)
-                if isinstance(source_type_items, ArraySchema):
-                    if isinstance(source_type_items.items, list):
-                        if "null" not in source_type_items.items:
-                            source_type_items.items.append("null")
-                    elif source_type_items.items != "null":
-                        source_type_items.items = ["null", source_type_items.items]
-                elif isinstance(source_type_items, list):
-                    if "null" not in source_type_items:
-                        source_type_items.append("null")
-                elif source_type_items != "null":
-                    source_type_items = ["null", source_type_items]
+                source_type_items = cwl.InputArraySchema(
+                    items=["null", "Any"], type_="array"
+                )
                 source_type = cwl.CommandInputParameter(
                     id=None, type_=source_type_items
                 )
@@ -739,337 +739,14 @@ def process_workflow_inputs_and_outputs(
                     None,
                     source_type,
                 )
+                workflow.steps[-1].in_[0].linkMerge = param2.linkMerge
                 param2.outputSource = f"{etool_id}/result"
+                param2.linkMerge = None
                 param2.pickValue = None
                 generated_pickValue_steps.append(etool_id)
     return modified
 
 
-def process_workflow_reqs_and_hints(
-    workflow: cwl.Workflow, replace_etool: bool
-) -> bool:
-    """
-    Convert any expressions in a workflow's reqs and hints.
-
-    Each expression will be converted to an additional step.
-    The converted requirement will be copied to all workflow steps that don't have that
-    requirement type. Those affected steps will gain an additional input from the relevant
-    synthesized expression step.
-    """
-    # TODO: consolidate the generated etools/cltools into a single "_expression_workflow_reqs" step
-    # TODO: support resourceReq.* references to Workflow.inputs?
-    #       ^ By refactoring replace_expr_etool to allow multiple inputs,
-    #         and connecting all workflow inputs to the generated step
-    modified = False
-    inputs = empty_inputs(workflow)
-    generated_res_reqs: list[tuple[str, int | str]] = []
-    generated_iwdr_reqs: list[tuple[str, int | str]] = []
-    generated_envVar_reqs: list[tuple[str, int | str]] = []
-    prop_reqs: tuple[
-        (
-            type[cwl.EnvVarRequirement]
-            | type[cwl.ResourceRequirement]
-            | type[cwl.InitialWorkDirRequirement]
-        ),
-        ...,
-    ] = ()
-    resourceReq: cwl.ResourceRequirement | None = None
-    envVarReq: cwl.EnvVarRequirement | None = None
-    iwdr: cwl.InitialWorkDirRequirement | None = None
-    if workflow.requirements is not None:
-        for req in cast(list[cwl.ProcessRequirement], workflow.requirements):
-            match req:
-                case cwl.EnvVarRequirement() if req.envDef:
-                    for index, envDef in enumerate(req.envDef):
-                        if envDef.envValue:
-                            expression = get_expression(envDef.envValue, inputs, None)
-                            if expression:
-                                modified = True
-                                target = cwl.WorkflowInputParameter(
-                                    id=None,
-                                    type_="string",
-                                )
-                                etool_id = (
-                                    "_expression_workflow_EnvVarRequirement_{}".format(
-                                        index
-                                    )
-                                )
-                                replace_expr_with_etool(
-                                    expression,
-                                    etool_id,
-                                    workflow,
-                                    target,
-                                    None,
-                                    replace_etool,
-                                )
-                                if envVarReq is None:
-                                    envVarReq = copy.deepcopy(req)
-                                    prop_reqs += (cwl.EnvVarRequirement,)
-                                newEnvDef = copy.deepcopy(envDef)
-                                newEnvDef.envValue = f"$(inputs._envDef{index})"
-                                envVarReq.envDef[index] = newEnvDef
-                                generated_envVar_reqs.append((etool_id, index))
-                case cwl.ResourceRequirement():
-                    for attr in cwl.ResourceRequirement.attrs:
-                        this_attr = getattr(req, attr, None)
-                        if this_attr:
-                            expression = get_expression(this_attr, inputs, None)
-                            if expression:
-                                modified = True
-                                target = cwl.WorkflowInputParameter(
-                                    id=None, type_="long"
-                                )
-                                etool_id = "_expression_workflow_ResourceRequirement_{}".format(
-                                    attr
-                                )
-                                replace_expr_with_etool(
-                                    expression,
-                                    etool_id,
-                                    workflow,
-                                    target,
-                                    None,
-                                    replace_etool,
-                                )
-                                if not resourceReq:
-                                    resourceReq = cwl.ResourceRequirement(
-                                        loadingOptions=workflow.loadingOptions,
-                                    )
-                                    prop_reqs += (cwl.ResourceRequirement,)
-                                setattr(resourceReq, attr, f"$(inputs._{attr})")
-                                generated_res_reqs.append((etool_id, attr))
-                case cwl.InitialWorkDirRequirement() if req.listing:
-                    if isinstance(req.listing, str):
-                        expression = get_expression(req.listing, inputs, None)
-                        if expression:
-                            modified = True
-                            target = cwl.WorkflowInputParameter(
-                                id=None,
-                                type_=cwl.InputArraySchema(
-                                    ["File", "Directory"], "array", None, None
-                                ),
-                            )
-                            etool_id = "_expression_workflow_InitialWorkDirRequirement"
-                            replace_expr_with_etool(
-                                expression,
-                                etool_id,
-                                workflow,
-                                target,
-                                None,
-                                replace_etool,
-                            )
-                            iwdr = cwl.InitialWorkDirRequirement(
-                                listing="$(inputs._iwdr_listing)",
-                                loadingOptions=workflow.loadingOptions,
-                            )
-                            prop_reqs += (cwl.InitialWorkDirRequirement,)
-                    else:
-                        iwdr = copy.deepcopy(req)
-                        for index, entry in enumerate(req.listing):
-                            expression = get_expression(entry, inputs, None)
-                            if expression:
-                                modified = True
-                                target = cwl.WorkflowInputParameter(
-                                    id=None,
-                                    type_=cwl.InputArraySchema(
-                                        ["File", "Directory"], "array", None, None
-                                    ),
-                                )
-                                etool_id = "_expression_workflow_InitialWorkDirRequirement_{}".format(
-                                    index
-                                )
-                                replace_expr_with_etool(
-                                    expression,
-                                    etool_id,
-                                    workflow,
-                                    target,
-                                    None,
-                                    replace_etool,
-                                )
-                                iwdr.listing[index] = f"$(inputs._iwdr_listing_{index}"
-                                generated_iwdr_reqs.append((etool_id, index))
-                            elif isinstance(entry, cwl.Dirent):
-                                if entry.entry:
-                                    expression = get_expression(
-                                        entry.entry, inputs, None
-                                    )
-                                    if expression:
-                                        expr: str = expression
-                                        expr_result = do_eval(
-                                            ex=entry.entry,
-                                            jobinput=inputs,
-                                            requirements=[],
-                                            outdir="",
-                                            tmpdir="",
-                                            resources={},
-                                        )
-                                        modified = True
-                                        if (
-                                            isinstance(expr_result, Mapping)
-                                            and "class" in expr_result
-                                            and (
-                                                expr_result["class"]
-                                                in ("File", "Directory")
-                                            )
-                                        ):
-                                            target = cwl.WorkflowInputParameter(
-                                                id=None,
-                                                type_=expr_result["class"],
-                                            )
-                                            replace_expr_with_etool(
-                                                expr,
-                                                etool_id,
-                                                workflow,
-                                                target,
-                                                None,
-                                                replace_etool,
-                                            )
-                                            iwdr.listing[index] = (
-                                                "$(inputs._iwdr_listing_{}".format(
-                                                    index
-                                                )
-                                            )
-                                            generated_iwdr_reqs.append(
-                                                (etool_id, index)
-                                            )
-                                        elif isinstance(expr_result, str):
-                                            target = cwl.WorkflowInputParameter(
-                                                id=None,
-                                                type_=["File"],
-                                            )
-                                            if entry.entryname is None:
-                                                raise SourceLine(
-                                                    entry.loadingOptions.original_doc,
-                                                    index,
-                                                    raise_type=WorkflowException,
-                                                ).makeError(
-                                                    f"Entry {index},"
-                                                    + "Invalid CWL, if 'entry' "
-                                                    "is a string, then entryName must be specified."
-                                                )
-                                            expr = (
-                                                '${return {"class": "File", "basename": "'
-                                                + entry.entryname
-                                                + '", "contents": (function(){'
-                                                + expr[2:-1]
-                                                + "})() }; }"
-                                            )
-                                        etool_id = "_expression_workflow_InitialWorkDirRequirement_{}".format(
-                                            index
-                                        )
-                                        replace_expr_with_etool(
-                                            expr,
-                                            etool_id,
-                                            workflow,
-                                            target,
-                                            None,
-                                            replace_etool,
-                                        )
-                                        iwdr.listing[index] = (
-                                            f"$(inputs._iwdr_listing_{index}"
-                                        )
-                                        generated_iwdr_reqs.append((etool_id, index))
-
-                                elif entry.entryname:
-                                    expression = get_expression(
-                                        entry.entryname, inputs, None
-                                    )
-                                    if expression:
-                                        modified = True
-                                        target = cwl.WorkflowInputParameter(
-                                            id=None,
-                                            type_="string",
-                                        )
-                                        etool_id = "_expression_workflow_InitialWorkDirRequirement_{}".format(
-                                            index
-                                        )
-                                        replace_expr_with_etool(
-                                            expression,
-                                            etool_id,
-                                            workflow,
-                                            target,
-                                            None,
-                                            replace_etool,
-                                        )
-                                        iwdr.listing[index] = (
-                                            f"$(inputs._iwdr_listing_{index}"
-                                        )
-                                        generated_iwdr_reqs.append((etool_id, index))
-                        if generated_iwdr_reqs:
-                            prop_reqs += (cwl.InitialWorkDirRequirement,)
-                        else:
-                            iwdr = None
-    if envVarReq and workflow.steps:
-        for step in workflow.steps:
-            if step.id.split("#")[-1].startswith("_expression_"):
-                continue
-            if step.requirements:
-                for req in step.requirements:
-                    if isinstance(req, cwl.EnvVarRequirement):
-                        continue
-            else:
-                step.requirements = yaml.comments.CommentedSeq()
-            step.requirements.append(envVarReq)
-            for entry in generated_envVar_reqs:
-                step.in_.append(
-                    cwl.WorkflowStepInput(
-                        id=f"_envDef{entry[1]}",
-                        source=f"{entry[0]}/result",
-                    )
-                )
-
-    if resourceReq and workflow.steps:
-        for step in workflow.steps:
-            if step.id.split("#")[-1].startswith("_expression_"):
-                continue
-            if step.requirements:
-                for req in step.requirements:
-                    if isinstance(req, cwl.ResourceRequirement):
-                        continue
-            else:
-                step.requirements = yaml.comments.CommentedSeq()
-            step.requirements.append(resourceReq)
-            for entry in generated_res_reqs:
-                step.in_.append(
-                    cwl.WorkflowStepInput(
-                        id=f"_{entry[1]}",
-                        source=f"{entry[0]}/result",
-                    )
-                )
-
-    if iwdr and workflow.steps:
-        for step in workflow.steps:
-            if step.id.split("#")[-1].startswith("_expression_"):
-                continue
-            if step.requirements:
-                for req in step.requirements:
-                    if isinstance(req, cwl.InitialWorkDirRequirement):
-                        continue
-            else:
-                step.requirements = yaml.comments.CommentedSeq()
-            step.requirements.append(iwdr)
-            if generated_iwdr_reqs:
-                for entry in generated_iwdr_reqs:
-                    step.in_.append(
-                        cwl.WorkflowStepInput(
-                            id=f"_iwdr_listing_{index}",
-                            source=f"{entry[0]}/result",
-                        )
-                    )
-            else:
-                step.in_.append(
-                    cwl.WorkflowStepInput(
-                        id="_iwdr_listing",
-                        source="_expression_workflow_InitialWorkDirRequirement/result",
-                    )
-                )
-
-    if workflow.requirements:
-        workflow.requirements[:] = [
-            x for x in workflow.requirements if not isinstance(x, prop_reqs)
-        ]
-    return modified
-
-
 def process_level_reqs(
     process: cwl.CommandLineTool,
     step: cwl.WorkflowStep,
@@ -1080,8 +757,8 @@ def process_level_reqs(
 ) -> bool:
     """Convert expressions inside a process into new adjacent steps."""
     # This is for reqs inside a Process (CommandLineTool, ExpressionTool)
-    # differences from process_workflow_reqs_and_hints() are:
-    # - the name of the generated ETools/CTools contains the name of the step, not "workflow"
+    # Note that:
+    # - the name of the generated ETools/CTools contains the name of the step
     # - Generated ETools/CTools are adjacent steps
     # - Replace the CWL Expression inplace with a CWL parameter reference
     # - Don't create a new Requirement, nor delete the existing Requirement
@@ -1110,16 +787,16 @@ def process_level_reqs(
                         etool_id = "_expression_{}_EnvVarRequirement_{}".format(
                             step_name, env_index
                         )
-                        replace_expr_with_etool(
+                        replace_clt_hintreq_expr_with_etool(
                             expression,
                             etool_id,
                             parent,
                             target,
-                            None,
+                            step,
                             replace_etool,
                             process,
                         )
-                        target_process.requirements[req_index][
+                        target_process.requirements[req_index].envDef[
                             env_index
                         ].envValue = f"$(inputs._envDef{env_index})"
                         generated_envVar_reqs.append((etool_id, env_index))
@@ -1141,6 +818,7 @@ def process_level_reqs(
                             target,
                             step,
                             replace_etool,
+                            process,
                         )
                         setattr(
                             target_process.requirements[req_index],
@@ -1158,25 +836,23 @@ def process_level_reqs(
                 expression = get_expression(req.listing, inputs, None)
                 if expression:
                     modified = True
-                    target_type = cwl.InputArraySchema(
-                        ["File", "Directory"], "array", None, None
-                    )
+                    target_type = ["null", "Any"]
                     target = cwl.WorkflowInputParameter(id=None, type_=target_type)
                     etool_id = "_expression_{}_InitialWorkDirRequirement".format(
                         step_name
                     )
-                    replace_expr_with_etool(
+                    replace_clt_hintreq_expr_with_etool(
                         expression,
                         etool_id,
                         parent,
                         target,
-                        None,
+                        step,
                         replace_etool,
                         process,
                     )
-                    target_process.requirements[req_index].listing = (
-                        "$(inputs._iwdr_listing)",
-                    )
+                    target_process.requirements[
+                        req_index
+                    ].listing = "$(inputs._iwdr_listing)"
                     step.in_.append(
                         cwl.WorkflowStepInput(
                             id="_iwdr_listing",
@@ -1195,9 +871,13 @@ def process_level_reqs(
                     expression = get_expression(entry, inputs, None)
                     if expression:
                         modified = True
-                        target_type = cwl.InputArraySchema(
-                            ["File", "Directory"], "array", None, None
-                        )
+                        target_type = [
+                            "File",
+                            "Directory",
+                            cwl.InputArraySchema(
+                                ["File", "Directory"], "array", None, None
+                            ),
+                        ]
                         target = cwl.WorkflowInputParameter(
                             id=None,
                             type_=target_type,
@@ -1205,18 +885,18 @@ def process_level_reqs(
                         etool_id = "_expression_{}_InitialWorkDirRequirement_{}".format(
                             step_name, listing_index
                         )
-                        replace_expr_with_etool(
+                        replace_clt_hintreq_expr_with_etool(
                             expression,
                             etool_id,
                             parent,
                             target,
-                            None,
+                            step,
                             replace_etool,
                             process,
                         )
                         target_process.requirements[req_index].listing[
                             listing_index
-                        ] = f"$(inputs._iwdr_listing_{listing_index}"
+                        ] = f"$(inputs._iwdr_listing_{listing_index})"
                         generated_iwdr_reqs.append(
                             (etool_id, listing_index, target_type)
                         )
@@ -1230,16 +910,20 @@ def process_level_reqs(
                                         entry.entryname, inputs, None
                                     )
                                     entryname = (
-                                        entry.entryname
+                                        "(function(){" + entryname_expr[2:-1] + "})()"
                                         if entryname_expr
-                                        else f'"{entry.entryname}"'  # noqa: B907
+                                        else json_dumps(entry.entryname)
                                     )
+                                    if entryname_expr:
+                                        target_process.requirements[req_index].listing[
+                                            listing_index
+                                        ].entryname = None
                                     new_expression = (
                                         "${var result; var entryname = "
                                         + entryname
-                                        + "; var entry = "
-                                        + entry.entry[2:-1]
-                                        + """;
+                                        + "; var entry = (function(){"
+                                        + expression[2:-1]
+                                        + """})();
 if (typeof entry === 'string' || entry instanceof String) {
 result = {"class": "File", "basename": entryname, "contents": entry} ;
 if (typeof entryname === 'string' || entryname instanceof String) {
@@ -1268,6 +952,7 @@ return result; }"""
                                     target,
                                     step,
                                     replace_etool,
+                                    process,
                                 )
                                 target_process.requirements[req_index].listing[
                                     listing_index
@@ -1277,7 +962,7 @@ return result; }"""
                                 generated_iwdr_reqs.append(
                                     (etool_id, listing_index, d_target_type)
                                 )
-                        elif entry.entryname:
+                        if entry.entryname and not expression:
                             expression = get_expression(entry.entryname, inputs, None)
                             if expression:
                                 modified = True
@@ -1288,12 +973,12 @@ return result; }"""
                                 etool_id = "_expression_{}_InitialWorkDirRequirement_{}".format(
                                     step_name, listing_index
                                 )
-                                replace_expr_with_etool(
+                                replace_clt_hintreq_expr_with_etool(
                                     expression,
                                     etool_id,
                                     parent,
                                     target,
-                                    None,
+                                    step,
                                     replace_etool,
                                     process,
                                 )
@@ -1364,10 +1049,10 @@ def traverse_CommandLineTool(
                     modified = True
                     inp_id = f"_arguments_{index}"
                     etool_id = f"_expression_{step_id}{inp_id}"
-                    target_type = "Any"
+                    target_type = ["null", "Any"]
                     target = cwl.WorkflowInputParameter(id=None, type_=target_type)
                     replace_step_clt_expr_with_etool(
-                        expression, etool_id, parent, target, step, replace_etool
+                        expression, etool_id, parent, target, step, replace_etool, clt
                     )
                     target_clt.arguments[index] = (
                         cwl_utils.expression_refactor.get_command_line_binding(
@@ -1383,12 +1068,10 @@ def traverse_CommandLineTool(
                         )
                     )
                     step.in_.append(
-                        cwl.WorkflowStepInput(
-                            f"{etool_id}/result", None, inp_id, None, None
-                        )
+                        cwl.WorkflowStepInput(id=inp_id, source=f"{etool_id}/result")
                     )
                     cwl_utils.expression_refactor.remove_JSReq(
-                        target_clt, skip_command_line1
+                        target_clt, skip_command_line1 or skip_command_line2
                     )
             elif isinstance(arg, cwl.CommandLineBinding) and arg.valueFrom:
                 expression = get_expression(arg.valueFrom, inputs, None)
@@ -1396,10 +1079,10 @@ def traverse_CommandLineTool(
                     modified = True
                     inp_id = f"_arguments_{index}"
                     etool_id = f"_expression_{step_id}{inp_id}"
-                    target_type = "Any"
+                    target_type = ["null", "Any"]
                     target = cwl.WorkflowInputParameter(id=None, type_=target_type)
                     replace_step_clt_expr_with_etool(
-                        expression, etool_id, parent, target, step, replace_etool
+                        expression, etool_id, parent, target, step, replace_etool, clt
                     )
                     target_clt.arguments[index].valueFrom = "$(inputs.{})".format(
                         inp_id
@@ -1415,7 +1098,7 @@ def traverse_CommandLineTool(
                         cwl.WorkflowStepInput(id=inp_id, source=f"{etool_id}/result")
                     )
                     cwl_utils.expression_refactor.remove_JSReq(
-                        target_clt, skip_command_line1
+                        target_clt, skip_command_line1 or skip_command_line2
                     )
     for streamtype in "stdout", "stderr":  # add 'stdin' for v1.1 version
         stream_value = getattr(clt, streamtype)
@@ -1428,7 +1111,7 @@ def traverse_CommandLineTool(
                 target_type = "string"
                 target = cwl.WorkflowInputParameter(id=None, type_=target_type)
                 replace_step_clt_expr_with_etool(
-                    expression, etool_id, parent, target, step, replace_etool
+                    expression, etool_id, parent, target, step, replace_etool, clt
                 )
                 setattr(target_clt, streamtype, f"$(inputs.{inp_id})")
                 target_clt.inputs.append(
@@ -1441,7 +1124,7 @@ def traverse_CommandLineTool(
                 step.in_.append(
                     cwl.WorkflowStepInput(id=inp_id, source=f"{etool_id}/result")
                 )
-    for inp in clt.inputs:
+    for index, inp in enumerate(clt.inputs):
         if not skip_command_line1 and inp.inputBinding and inp.inputBinding.valueFrom:
             expression = get_expression(
                 inp.inputBinding.valueFrom, inputs, example_input(inp.type_)
@@ -1451,19 +1134,36 @@ def traverse_CommandLineTool(
                 self_id = inp.id.split("#")[-1]
                 inp_id = f"_{self_id}_valueFrom"
                 etool_id = f"_expression_{step_id}{inp_id}"
+                if isinstance(inp.type_, MutableSequence) and "null" in inp.type_:
+                    # the expression is not evaluated without a value
+                    expression = (
+                        "${if (self === null) {return null;}\n" + expression.strip()[2:]
+                    )
+                target_type = ["null", "Any"]
+                target = cwl.WorkflowInputParameter(id=None, type_=target_type)
                 replace_step_clt_expr_with_etool(
-                    expression, etool_id, parent, inp, step, replace_etool, self_id
+                    expression,
+                    etool_id,
+                    parent,
+                    target,
+                    step,
+                    replace_etool,
+                    clt,
+                    self_id,
                 )
-                inp.inputBinding.valueFrom = f"$(inputs.{inp_id})"
+                target_clt.inputs[index].inputBinding.valueFrom = f"$(inputs.{inp_id})"
                 target_clt.inputs.append(
                     cwl_utils.expression_refactor.get_command_input_parameter(
-                        target_clt.cwlVersion or _DEFAULT_CWL_VERSION, inp_id, inp.type_
+                        target_clt.cwlVersion or _DEFAULT_CWL_VERSION,
+                        inp_id,
+                        target_type,
                     )
                 )
                 step.in_.append(
                     cwl.WorkflowStepInput(id=inp_id, source=f"{etool_id}/result")
                 )
-    for outp in clt.outputs:
+    output_evals: list[tuple[cwl_utils.parser.CommandOutputParameter, str]] = []
+    for index, outp in enumerate(clt.outputs):
         if outp.outputBinding:
             if outp.outputBinding.glob:
                 expression = get_expression(outp.outputBinding.glob, inputs, None)
@@ -1474,9 +1174,9 @@ def traverse_CommandLineTool(
                     glob_target_type = ["string", ArraySchema("string", "array")]
                     target = cwl.WorkflowInputParameter(id=None, type_=glob_target_type)
                     replace_step_clt_expr_with_etool(
-                        expression, etool_id, parent, target, step, replace_etool
+                        expression, etool_id, parent, target, step, replace_etool, clt
                     )
-                    outp.outputBinding.glob = f"$(inputs.{inp_id})"
+                    target_clt.outputs[index].outputBinding.glob = f"$(inputs.{inp_id})"
                     target_clt.inputs.append(
                         cwl_utils.expression_refactor.get_command_input_parameter(
                             target_clt.cwlVersion or _DEFAULT_CWL_VERSION,
@@ -1499,158 +1199,165 @@ def traverse_CommandLineTool(
                     }
                 ]
                 if outp.outputBinding.loadContents:
-                    cast(dict[Any, Any], self)[0]["contents"] = "stuff"
+                    cast(list[dict[str, Any]], self)[0]["contents"] = "stuff"
                 expression = get_expression(outp.outputBinding.outputEval, inputs, self)
                 if expression:
                     modified = True
-                    outp_id = outp.id.split("#")[-1]
-                    inp_id = f"_{outp_id}_outputEval"
-                    etool_id = f"expression{inp_id}"
-                    sub_wf_outputs = cltool_step_outputs_to_workflow_outputs(
-                        step, etool_id, outp_id
-                    )
-                    self_type = cwl.WorkflowInputParameter(
-                        id=None,
-                        type_=cwl.InputArraySchema("File", "array", None, None),
-                    )
-                    etool = generate_etool_from_expr(
-                        expression, outp, False, self_type, [clt, step, parent]
-                    )
-                    if outp.outputBinding.loadContents:
-                        etool.inputs[0].type_.inputBinding = (
-                            cwl_utils.expression_refactor.get_command_line_binding(
-                                etool.cwlVersion or _DEFAULT_CWL_VERSION,
-                                loadContents=True,
-                            )
-                        )
-                    etool.inputs.extend(
-                        cwl_utils.expression_refactor.cltool_inputs_to_etool_inputs(
-                            clt, _DEFAULT_CWL_VERSION
-                        )
-                    )
-                    sub_wf_inputs = (
-                        cwl_utils.expression_refactor.cltool_inputs_to_etool_inputs(
-                            clt, _DEFAULT_CWL_VERSION
-                        )
-                    )
-                    orig_step_inputs = copy.deepcopy(step.in_)
-                    for orig_step_input in orig_step_inputs:
-                        orig_step_input.id = orig_step_input.id.split("/")[-1]
-                        if isinstance(orig_step_input.source, MutableSequence):
-                            for index, source in enumerate(orig_step_input.source):
-                                orig_step_input.source[index] = source.split("#")[-1]
-                        else:
-                            orig_step_input.source = orig_step_input.source.split("#")[
-                                -1
-                            ]
-                    orig_step_inputs[:] = [
-                        x for x in orig_step_inputs if not x.id.startswith("_")
-                    ]
-                    for inp in orig_step_inputs:
-                        inp.source = inp.id
-                        inp.linkMerge = None
-                    final_etool: (
-                        cwl_utils.parser.CommandLineTool
-                        | cwl_utils.parser.ExpressionTool
-                    )
-                    if replace_etool:
-                        final_etool = cwl_utils.expression_refactor.etool_to_cltool(
-                            etool,
-                            _DEFAULT_CWL_VERSION,
-                            cwl_utils.expression_refactor.find_expressionLib([parent]),
-                        )
-                    else:
-                        final_etool = etool
-                    etool_step = cwl.WorkflowStep(
-                        id=etool_id,
-                        in_=orig_step_inputs,
-                        out=[cwl.WorkflowStepOutput("result")],
-                        run=final_etool,
-                        scatterMethod=step.scatterMethod,
-                    )
-                    new_clt_step = copy.copy(
-                        step
-                    )  # a deepcopy would be convenient, but params2.cwl gives it problems
-                    new_clt_step.id = new_clt_step.id.split("#")[-1]
-                    new_clt_step.run = copy.copy(step.run)
-                    new_clt_step.run.id = None
-                    cwl_utils.expression_refactor.remove_JSReq(
-                        new_clt_step.run, skip_command_line1
-                    )
-                    cwl_utils.expression_refactor.process_CommandLineTool_output(
-                        new_clt_step.run, _DEFAULT_CWL_VERSION, outp_id
-                    )
-                    new_clt_step.in_ = copy.deepcopy(step.in_)
-                    for inp in new_clt_step.in_:
-                        inp.id = inp.id.split("/")[-1]
-                        inp.source = inp.id
-                        inp.linkMerge = None
-                    for index, out in enumerate(new_clt_step.out):
-                        new_clt_step.out[index] = out.split("/")[-1]
-                    for tool_inp in new_clt_step.run.inputs:
-                        tool_inp.id = tool_inp.id.split("#")[-1]
-                    for tool_out in new_clt_step.run.outputs:
-                        tool_out.id = tool_out.id.split("#")[-1]
-                    sub_wf_steps = [new_clt_step, etool_step]
-                    sub_workflow = cwl.Workflow(
-                        inputs=sub_wf_inputs,
-                        outputs=sub_wf_outputs,
-                        steps=sub_wf_steps,
-                        cwlVersion=parent.cwlVersion,
-                    )
-                    if step.scatter:
-                        new_clt_step.scatter = None
-                    step.run = sub_workflow
-                    rename_step_source(
-                        sub_workflow,
-                        f"{step_id}/{outp_id}",
-                        f"{etool_id}/result",
-                    )
-                    orig_step_inputs.append(
-                        cwl.WorkflowStepInput(id="self", source=f"{step_id}/{outp_id}")
-                    )
-                    if not parent.requirements:
-                        parent.requirements = [cwl.SubworkflowFeatureRequirement()]
-                    else:
-                        has_sub_wf_req = False
-                        for req in parent.requirements:
-                            if isinstance(req, cwl.SubworkflowFeatureRequirement):
-                                has_sub_wf_req = True
-                        if not has_sub_wf_req:
-                            parent.requirements.append(
-                                cwl.SubworkflowFeatureRequirement()
-                            )
+                    output_evals.append((outp, expression))
+    if output_evals:
+        replace_outputEvals_with_etools(
+            clt, output_evals, parent, step, replace_etool, skip_command_line1
+        )
     return modified
 
 
-def rename_step_source(workflow: cwl.Workflow, old: str, new: str) -> None:
-    """Update step source names to the new name."""
+def replace_outputEvals_with_etools(
+    clt: cwl_utils.parser.CommandLineTool,
+    output_evals: list[tuple[cwl_utils.parser.CommandOutputParameter, str]],
+    parent: cwl.Workflow,
+    step: cwl.WorkflowStep,
+    replace_etool: bool,
+    skip_command_line1: bool,
+) -> None:
+    """Run the CommandLineTool and an ExpressionTool per outputEval in a sub-workflow."""
+    target_clt = step.run
+    step_id = step.id.split("#")[-1]
+    sub_wf_inputs = yaml.comments.CommentedSeq()
+    step_inputs = []
+    for clt_inp in target_clt.inputs:
+        clt_inp_id = clt_inp.id.split("#")[-1].split("/")[-1]
+        step_inputs.append(cwl.WorkflowStepInput(id=clt_inp_id, source=clt_inp_id))
+        if clt_inp_id.startswith("_"):
+            sub_wf_inputs.append(
+                cwl.WorkflowInputParameter(id=clt_inp_id, type_=clt_inp.type_)
+            )
+    sub_wf_inputs[:0] = cltool_inputs_to_etool_inputs(clt)
+    sub_wf_outputs = cltool_step_outputs_to_workflow_outputs(
+        step,
+        {outp.id.split("#")[-1].split("/")[-1] for outp, _ in output_evals},
+    )
+    clt_step = cwl.WorkflowStep(
+        id=step_id,
+        in_=step_inputs,
+        out=[outp.id.split("#")[-1].split("/")[-1] for outp in target_clt.outputs],
+        run=target_clt,
+    )
+    sub_wf_steps = [clt_step]
+    for outp, expression in output_evals:
+        outp_id = outp.id.split("#")[-1].split("/")[-1]
+        self_type = cwl.WorkflowInputParameter(
+            id=None,
+            type_=cwl.InputArraySchema("File", "array", None, None),
+        )
+        etool = generate_etool_from_expr(
+            expression, outp, False, self_type, [parent, step, clt]
+        )
+        if outp.outputBinding.loadContents:
+            etool.inputs[0].loadContents = True
+        etool.inputs.extend(cltool_inputs_to_etool_inputs(clt))
+        sub_wf_steps.append(
+            cwl.WorkflowStep(
+                id=f"expression_{outp_id}_outputEval",
+                in_=[
+                    *(copy.copy(x) for x in step_inputs if not x.id.startswith("_")),
+                    cwl.WorkflowStepInput(id="self", source=f"{step_id}/{outp_id}"),
+                ],
+                out=[cwl.WorkflowStepOutput("result")],
+                run=etool_to_cltool(etool) if replace_etool else etool,
+            )
+        )
+        cwl_utils.expression_refactor.process_CommandLineTool_output(
+            target_clt, _DEFAULT_CWL_VERSION, outp_id
+        )
+    target_clt.id = None
+    cwl_utils.expression_refactor.remove_JSReq(target_clt, skip_command_line1)
+    step.run = cwl.Workflow(
+        inputs=sub_wf_inputs,
+        outputs=sub_wf_outputs,
+        steps=sub_wf_steps,
+        requirements=[
+            req
+            for req in clt.requirements or []
+            if isinstance(req, cwl.SchemaDefRequirement)
+        ],
+        cwlVersion=parent.cwlVersion,
+    )
+    require_sub_workflows(parent)
 
-    def simplify_wf_id(uri: str) -> str:
-        return uri.split("#")[-1].split("/", 1)[1]
 
-    def simplify_step_id(uri: str) -> str:
-        return uri.split("#")[-1]
+def require_sub_workflows(workflow: cwl.Workflow) -> None:
+    """Add a SubworkflowFeatureRequirement if there is none."""
+    workflow.requirements = workflow.requirements or []
+    if not any(
+        isinstance(req, cwl.SubworkflowFeatureRequirement)
+        for req in workflow.requirements
+    ):
+        workflow.requirements.append(cwl.SubworkflowFeatureRequirement())
 
-    for wf_outp in workflow.outputs:
-        if wf_outp.outputSource and simplify_wf_id(wf_outp.outputSource) == old:
-            wf_outp.outputSource = new
-    for step in workflow.steps:
-        if step.in_:
-            for inp in step.in_:
-                if inp.source:
-                    if isinstance(inp.source, str):
-                        source_id = (
-                            simplify_step_id(inp.source)
-                            if "#" in inp.source
-                            else inp.source
-                        )
-                        if source_id == old:
-                            inp.source = new
-                    else:
-                        for index, source in enumerate(inp.source):
-                            if simplify_step_id(source) == old:
-                                inp.source[index] = new
+
+def traverse_scattered_step(
+    step: cwl.WorkflowStep,
+    parent: cwl.Workflow,
+    replace_etool: bool,
+    skip_command_line1: bool,
+    skip_command_line2: bool,
+) -> bool:
+    """Refactor what is run for every job of a scattered step into a sub-workflow."""
+    inner_step = copy.copy(step)
+    inner_step.run = copy.deepcopy(step.run)
+    inner_step.scatter = None
+    inner_step.scatterMethod = None
+    inner_step.in_ = []
+    inputs = []
+    for inp in step.in_:
+        inp_id = inp.id.split("/")[-1]
+        inner_step.in_.append(
+            cwl.WorkflowStepInput(
+                id=inp_id,
+                source=inp_id,
+                valueFrom=inp.valueFrom,
+                loadContents=inp.loadContents,
+                loadListing=inp.loadListing,
+            )
+        )
+        inputs.append(cwl.WorkflowInputParameter(id=inp_id, type_=["null", "Any"]))
+    outputs = [
+        output
+        for output in cltool_step_outputs_to_workflow_outputs(step, set())
+        if output.id in step.out
+    ]
+    if step.when:
+        for output in outputs:
+            types = output.type_ if isinstance(output.type_, list) else [output.type_]
+            output.type_ = types if "null" in types else ["null", *types]
+    workflow = cwl.Workflow(
+        inputs=inputs,
+        outputs=outputs,
+        steps=[inner_step],
+        requirements=[
+            req
+            for req in parent.requirements or []
+            if isinstance(
+                req, (cwl.InlineJavascriptRequirement, cwl.SchemaDefRequirement)
+            )
+        ],
+        hints=[
+            hint
+            for hint in parent.hints or []
+            if isinstance(hint, cwl.InlineJavascriptRequirement)
+        ],
+        loadingOptions=parent.loadingOptions,
+    )
+    workflow, modified = traverse_workflow(
+        workflow, replace_etool, skip_command_line1, skip_command_line2
+    )
+    if modified:
+        step.run = workflow
+        step.when = None
+        for inp in step.in_:
+            inp.valueFrom = None
+        require_sub_workflows(parent)
+    return modified
 
 
 def replace_step_clt_expr_with_etool(
@@ -1660,11 +1367,12 @@ def replace_step_clt_expr_with_etool(
     target: cwl.WorkflowInputParameter,
     step: cwl.WorkflowStep,
     replace_etool: bool,
+    process: cwl_utils.parser.CommandLineTool,
     self_name: str | None = None,
 ) -> None:
     """Convert a step level CWL Expression to a sibling expression step."""
     etool_inputs = cwl_utils.expression_refactor.cltool_inputs_to_etool_inputs(
-        step.run, _DEFAULT_CWL_VERSION
+        process, _DEFAULT_CWL_VERSION
     )
     temp_etool = cwl_utils.expression_refactor.generate_etool_from_expr2(
         expr,
@@ -1672,8 +1380,8 @@ def replace_step_clt_expr_with_etool(
         target,
         etool_inputs,
         self_name,
-        step.run,
-        [workflow],
+        process,
+        [workflow, step, process],
     )
     etool: cwl_utils.parser.CommandLineTool | cwl_utils.parser.ExpressionTool
     if replace_etool:
@@ -1706,12 +1414,13 @@ def replace_clt_hintreq_expr_with_etool(
     target: cwl.WorkflowInputParameter,
     step: cwl.WorkflowStep,
     replace_etool: bool,
+    process: cwl_utils.parser.CommandLineTool,
     self_name: str | None = None,
 ) -> None:
     """Factor out an expression inside a CommandLineTool req or hint into a sibling step."""
     # Same as replace_step_clt_expr_with_etool or different?
     etool_inputs = cwl_utils.expression_refactor.cltool_inputs_to_etool_inputs(
-        step.run, _DEFAULT_CWL_VERSION
+        process, _DEFAULT_CWL_VERSION
     )
     temp_etool = cwl_utils.expression_refactor.generate_etool_from_expr2(
         expr,
@@ -1719,8 +1428,8 @@ def replace_clt_hintreq_expr_with_etool(
         target,
         etool_inputs,
         self_name,
-        step.run,
-        [workflow],
+        process,
+        [workflow, step, process],
     )
     etool: cwl_utils.parser.CommandLineTool | cwl_utils.parser.ExpressionTool
     if replace_etool:
@@ -1765,6 +1474,9 @@ def cltool_inputs_to_etool_inputs(
                         format=clt_inp.format,
                         default=clt_inp.default,
                         type_=clt_inp.type_,
+                        loadContents=clt_inp.loadContents
+                        or (clt_inp.inputBinding and clt_inp.inputBinding.loadContents),
+                        loadListing=clt_inp.loadListing,
                         extension_fields=clt_inp.extension_fields,
                         loadingOptions=clt_inp.loadingOptions,
                     )
@@ -1773,7 +1485,7 @@ def cltool_inputs_to_etool_inputs(
 
 
 def cltool_step_outputs_to_workflow_outputs(
-    cltool_step: cwl.WorkflowStep, etool_step_id: str, etool_out_id: str
+    cltool_step: cwl.WorkflowStep, etool_out_ids: set[str]
 ) -> list[cwl.OutputParameter]:
     """
     Copy CommandLineTool outputs into the equivalent Workflow output parameters.
@@ -1788,8 +1500,8 @@ def cltool_step_outputs_to_workflow_outputs(
     if cltool_step.run.outputs:
         for clt_out in cltool_step.run.outputs:
             clt_out_id = clt_out.id.split("#")[-1].split("/")[-1]
-            if clt_out_id == etool_out_id:
-                outputSource = f"{etool_step_id}/result"
+            if clt_out_id in etool_out_ids:
+                outputSource = f"expression_{clt_out_id}_outputEval/result"
             else:
                 outputSource = f"{default_step_id}/{clt_out_id}"
             if not clt_out_id.startswith("_"):
@@ -1802,7 +1514,11 @@ def cltool_step_outputs_to_workflow_outputs(
                         doc=clt_out.doc,
                         format=clt_out.format,
                         outputSource=outputSource,
-                        type_=clt_out.type_,
+                        type_=(
+                            "File"
+                            if clt_out.type_ in ("stdout", "stderr")
+                            else clt_out.type_
+                        ),
                         extension_fields=clt_out.extension_fields,
                         loadingOptions=clt_out.loadingOptions,
                     )
@@ -1846,7 +1562,7 @@ def generate_etool_from_expr2(
     expression += (
         """
   return {"result": function(){"""
-        + expr[2:-2]
+        + expr.strip()[2:-1]
         + """}()};
  }"""
     )
@@ -1878,40 +1594,10 @@ def traverse_step(
     original_step_ins = copy.deepcopy(step.in_)
     for inp in step.in_:
         if inp.valueFrom:
-            if not inp.source:
-                self = None
-            else:
-                if isinstance(inp.source, MutableSequence):
-                    self = []
-                    for source in inp.source:
-                        if not step.scatter:
-                            self.append(
-                                example_input(
-                                    utils.type_for_source(parent, source.split("#")[-1])
-                                )
-                            )
-                        else:
-                            scattered_source_type = utils.type_for_source(
-                                parent, source
-                            )
-                            if isinstance(scattered_source_type, list):
-                                for stype in scattered_source_type:
-                                    self.append(example_input(stype.type_))
-                            else:
-                                self.append(example_input(scattered_source_type.type_))
-                else:
-                    if not step.scatter:
-                        self = example_input(
-                            utils.type_for_source(parent, inp.source.split("#")[-1])
-                        )
-                    else:
-                        scattered_source_type2 = utils.type_for_source(
-                            parent, inp.source
-                        )
-                        if isinstance(scattered_source_type2, list):
-                            self = example_input(scattered_source_type2[0].type_)
-                        else:
-                            self = example_input(scattered_source_type2.type_)
+            self: CWLOutputType | None = None
+            if inp.source:
+                with suppress(WorkflowException):
+                    self = example_input(utils.type_for_source(parent, inp.source))
             expression = get_expression(inp.valueFrom, inputs, self)
             if expression:
                 modified = True
@@ -1920,27 +1606,7 @@ def traverse_step(
                     inp.id, original_process
                 )
                 if not target:
-                    raise WorkflowException("target not found")
-                input_source_id = None
-                if inp.source:
-                    if isinstance(inp.source, MutableSequence):
-                        input_source_id = []
-                        source_types: list[cwl.WorkflowInputParameter] = []
-                        for source in inp.source:
-                            source_id = source.split("#")[-1]
-                            input_source_id.append(source_id)
-                            temp_type = utils.type_for_source(
-                                step.run, source_id, parent
-                            )
-                            if isinstance(temp_type, list):
-                                for ttype in temp_type:
-                                    if ttype not in source_types:
-                                        source_types.append(ttype)
-                            else:
-                                if temp_type not in source_types:
-                                    source_types.append(temp_type)
-                    else:
-                        input_source_id = inp.source.split("#")[-1]
+                    target = cwl.WorkflowInputParameter(id=None, type_=["null", "Any"])
                 # target.id = target.id.split('#')[-1]
                 if isinstance(original_process, cwl_utils.parser.ExpressionTool):
                     reqs: list[cwl.ProcessRequirement] = []
@@ -1973,31 +1639,41 @@ def traverse_step(
                     inp,
                     original_process,
                     original_step_ins,
-                    input_source_id,
                     replace_etool,
                 )
                 inp.valueFrom = None
                 inp.source = f"{etool_id}/result"
+                inp.linkMerge = None
+                inp.pickValue = None
+                inp.default = None
+                inp.loadContents = None
+    if step.when and isinstance(step.run, cwl.CommandLineTool):
+        # the expressions of the tool must not be evaluated if the step is skipped
+        step.run, process_modified = traverse(
+            step.run, replace_etool, False, skip_command_line1, skip_command_line2
+        )
+        if process_modified:
+            modified = True
+            original_process = step.run
+            require_sub_workflows(parent)
     if step.when:
         expression = get_expression(string=step.when, inputs=inputs, self=None)
         if expression:
             modified = True
-            replace_step_when_expr_with_etool(
-                expression, parent, step, original_step_ins, replace_etool
-            )
+            replace_step_when_expr_with_etool(expression, parent, step, replace_etool)
 
     # TODO: skip or special process for sub workflows?
-    process_modified = process_level_reqs(
-        original_process,
-        step,
-        parent,
-        replace_etool,
-        skip_command_line1,
-        skip_command_line2,
-    )
-    if process_modified:
-        modified = True
     if isinstance(original_process, cwl_utils.parser.CommandLineTool):
+        process_modified = process_level_reqs(
+            original_process,
+            step,
+            parent,
+            replace_etool,
+            skip_command_line1,
+            skip_command_line2,
+        )
+        if process_modified:
+            modified = True
         clt_modified = traverse_CommandLineTool(
             original_process,
             parent,
@@ -2012,34 +1688,20 @@ def traverse_step(
 
 
 def workflow_step_to_WorkflowInputParameters(
-    step_ins: list[cwl.WorkflowStepInput], parent: cwl.Workflow, except_in_id: str
-) -> MutableSequence[
-    cwl_utils.parser.CommandInputParameter
-    | cwl_utils.parser.CommandOutputParameter
-    | cwl_utils.parser.WorkflowInputParameter
-]:
+    step_ins: list[cwl.WorkflowStepInput],
+) -> list[cwl.WorkflowInputParameter]:
     """Create WorkflowInputParameters to match the given WorkflowStep inputs."""
-    params = []
-    for inp in step_ins:
-        if not inp.id:
-            continue
-        inp_id = inp.id.split("#")[-1].split("/")[-1]
-        if inp.source and inp_id != except_in_id:
-            param = copy.deepcopy(param_for_source_id(parent, sourcenames=inp.source))
-            if isinstance(param, MutableSequence):
-                for p in param:
-                    p.id = inp_id
-                    p.type_ = clean_type_ids(
-                        cast(ArraySchema | cwl.InputRecordSchema, p.type_)
-                    )
-                    params.append(p)
-            else:
-                param.id = inp_id
-                param.type_ = clean_type_ids(
-                    cast(ArraySchema | cwl.InputRecordSchema, param.type_)
-                )
-                params.append(param)
-    return params
+    # TODO: would be nicer to derive proper types; but in the face of linkMerge, pickValue,
+    #       and default, this is easier for now
+    return [
+        cwl.WorkflowInputParameter(
+            id=inp.id.split("#")[-1].split("/")[-1],
+            type_=["null", "Any"],
+            loadContents=inp.loadContents,
+            loadListing=inp.loadListing,
+        )
+        for inp in step_ins
+    ]
 
 
 def replace_step_valueFrom_expr_with_etool(
@@ -2055,26 +1717,19 @@ def replace_step_valueFrom_expr_with_etool(
     step_inp: cwl.WorkflowStepInput,
     original_process: cwl_utils.parser.Process,
     original_step_ins: list[cwl.WorkflowStepInput],
-    source: str | list[str] | None,
     replace_etool: bool,
 ) -> None:
     """Replace a WorkflowStep level 'valueFrom' expression with a sibling ExpressionTool step."""
     if not step_inp.id:
         raise WorkflowException(f"Missing id in {step_inp}.")
     step_inp_id = step_inp.id.split("/")[-1]
-    etool_inputs = workflow_step_to_WorkflowInputParameters(
-        original_step_ins, workflow, step_inp_id
-    )
-    if source:
-        source_param = cwl.WorkflowInputParameter(id="self", type_="Any")
-        # TODO: would be nicer to derive a proper type; but in the face of linkMerge, this is easier for now
-        etool_inputs.append(source_param)
+    etool_inputs = workflow_step_to_WorkflowInputParameters(original_step_ins)
     temp_etool = cwl_utils.expression_refactor.generate_etool_from_expr2(
         expr,
         _DEFAULT_CWL_VERSION,
         target,
         etool_inputs,
-        "self" if source else None,
+        step_inp_id,
         original_process,
         [workflow, step],
     )
@@ -2094,8 +1749,6 @@ def replace_step_valueFrom_expr_with_etool(
     else:
         etool = temp_etool
     wf_step_inputs = copy.deepcopy(original_step_ins)
-    if source:
-        wf_step_inputs.append(cwl.WorkflowStepInput(id="self", source=step_inp.source))
     for wf_step_input in wf_step_inputs:
         if not wf_step_input.id:
             continue
@@ -2108,30 +1761,12 @@ def replace_step_valueFrom_expr_with_etool(
                     wf_step_input.source[index] = inp_source.split("#")[-1]
             else:
                 wf_step_input.source = wf_step_input.source.split("#")[-1]
-    wf_step_inputs[:] = [
-        x
-        for x in wf_step_inputs
-        if x.id and not (x.id.startswith("_") or x.id.endswith(step_inp_id))
-    ]
-    scatter = copy.deepcopy(step.scatter)
-    if isinstance(scatter, str):
-        scatter = [scatter]
-    if isinstance(scatter, MutableSequence):
-        for index, entry in enumerate(scatter):
-            scatter[index] = entry.split("/")[-1]
-    if scatter and step_inp_id in scatter:
-        scatter = ["self"]
-    # do we still need to scatter?
-    else:
-        scatter = None
     workflow.steps.append(
         cwl.WorkflowStep(
             id=name,
             in_=wf_step_inputs,
             out=[cwl.WorkflowStepOutput("result")],
             run=etool,
-            scatter=scatter,
-            scatterMethod=step.scatterMethod,
         )
     )
 
@@ -2140,16 +1775,13 @@ def replace_step_when_expr_with_etool(
     expr: str,
     workflow: cwl.Workflow,
     step: cwl.WorkflowStep,
-    original_step_ins: list[cwl.WorkflowStepInput],
     replace_etool: bool,
 ) -> None:
     """Replace a WorkflowStep level 'when' expression with a sibling ExpressionTool step."""
     if not step.id:
         raise WorkflowException(f"Missing id from {step}.")
     etool_id = "_when_expression_{}".format(step.id.split("#")[-1])
-    etool_inputs = workflow_step_to_WorkflowInputParameters(
-        original_step_ins, workflow, ""
-    )
+    etool_inputs = workflow_step_to_WorkflowInputParameters(step.in_)
     temp_etool = cwl_utils.expression_refactor.generate_etool_from_expr2(
         expr,
         _DEFAULT_CWL_VERSION,
@@ -2174,7 +1806,7 @@ def replace_step_when_expr_with_etool(
         )
     else:
         etool = temp_etool
-    wf_step_inputs = copy.deepcopy(original_step_ins)
+    wf_step_inputs = copy.deepcopy(step.in_)
     for wf_step_input in wf_step_inputs:
         if not wf_step_input.id:
             continue
@@ -2185,22 +1817,12 @@ def replace_step_when_expr_with_etool(
                     wf_step_input.source[index] = inp_source.split("#")[-1]
             else:
                 wf_step_input.source = wf_step_input.source.split("#")[-1]
-    wf_step_inputs[:] = [x for x in wf_step_inputs if x.id and not x.id.startswith("_")]
-    scatter = copy.deepcopy(step.scatter)
-    if isinstance(scatter, str):
-        scatter = [scatter]
-    if isinstance(scatter, MutableSequence):
-        for index, entry in enumerate(scatter):
-            scatter[index] = entry.split("/")[-1]
-    scatter = step.scatter
     workflow.steps.append(
         cwl.WorkflowStep(
             id=etool_id,
             in_=wf_step_inputs,
             out=[cwl.WorkflowStepOutput("result")],
             run=etool,
-            scatter=scatter,
-            scatterMethod=step.scatterMethod,
         )
     )
     step.when = "$(inputs._when)"
@@ -2216,26 +1838,36 @@ def traverse_workflow(
     """Traverse a workflow, processing each step."""
     modified = False
     for index, step in enumerate(workflow.steps):
+        if isinstance(step.run, cwl.Process):
+            cwl_utils.expression_refactor.inherit_JSReq(
+                step.run, _DEFAULT_CWL_VERSION, [workflow, step]
+            )
+            cwl_utils.expression_refactor.inherit_requirements(step.run, step, workflow)
         if isinstance(step.run, cwl.ExpressionTool) and replace_etool:
             workflow.steps[index].run = etool_to_cltool(step.run)
             modified = True
+        elif isinstance(step.run, cwl.Workflow):
+            step.run, step_modified = traverse_workflow(
+                step.run, replace_etool, skip_command_line1, skip_command_line2
+            )
+            if step_modified:
+                modified = True
         else:
             step_modified = cwl_utils.expression_refactor.load_step(
-                step, replace_etool, skip_command_line1, skip_command_line2
+                step, replace_etool, skip_command_line1, skip_command_line2, workflow
             )
             if step_modified:
                 modified = True
-    for step in workflow.steps:
+    for step in list(workflow.steps):
         if not step.id.startswith("_expression"):
-            step_modified = traverse_step(
-                step, workflow, replace_etool, skip_command_line1, skip_command_line2
-            )
+            step_modified = (
+                traverse_scattered_step if step.scatter else traverse_step
+            )(step, workflow, replace_etool, skip_command_line1, skip_command_line2)
             if step_modified:
                 modified = True
     if process_workflow_inputs_and_outputs(workflow, replace_etool):
         modified = True
-    if process_workflow_reqs_and_hints(workflow, replace_etool):
-        modified = True
+    cwl_utils.expression_refactor.drop_inherited_requirements(workflow)
     if workflow.requirements:
         workflow.requirements[:] = [
             x
-- 
2.43.0


From 9ca97189d5a43a518946f98d7e33fc5de4362259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:32 +0000
Subject: [PATCH 71/78] fix: refactor the expressions of CWL v1_1 documents
 without changing what they compute

Every kind of place is handled on its own process: what the requirements of a
workflow or step say with expressions is moved to the processes of its steps
first, so a separate pass over workflow requirements is not needed any more.
---
 src/cwl_utils/cwl_v1_1_expression_refactor.py | 1061 ++++++-----------
 1 file changed, 354 insertions(+), 707 deletions(-)

diff --git a/src/cwl_utils/cwl_v1_1_expression_refactor.py b/src/cwl_utils/cwl_v1_1_expression_refactor.py
index 685520e..48abde5 100755
--- a/src/cwl_utils/cwl_v1_1_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_1_expression_refactor.py
@@ -21,8 +21,7 @@ import cwl_utils.parser
 import cwl_utils.parser.cwl_v1_1 as cwl
 import cwl_utils.parser.cwl_v1_1_utils as utils
 from cwl_utils.errors import JavascriptException, WorkflowException
-from cwl_utils.expression import do_eval, interpolate
-from cwl_utils.parser.utils import param_for_source_id
+from cwl_utils.expression import do_eval, interpolate, needs_parsing, scanner
 from cwl_utils.types import (
     CWLDirectoryType,
     CWLFileType,
@@ -30,7 +29,6 @@ from cwl_utils.types import (
     CWLOutputType,
     CWLParameterContext,
     CWLRuntimeParameterContext,
-    is_file_or_directory,
 )
 
 _DEFAULT_CWL_VERSION: Final = "v1.1"
@@ -52,7 +50,9 @@ def expand_stream_shortcuts(process: cwl.CommandLineTool) -> cwl.CommandLineTool
                 ).hexdigest()
                 result.stdout = stdout_path
             result.outputs[index].type_ = "File"
-            output.outputBinding = cwl.CommandOutputBinding(stdout_path, None, None)
+            result.outputs[index].outputBinding = cwl.CommandOutputBinding(
+                glob=stdout_path
+            )
     if result:
         return result
     return process
@@ -60,7 +60,7 @@ def expand_stream_shortcuts(process: cwl.CommandLineTool) -> cwl.CommandLineTool
 
 def escape_expression_field(contents: str) -> str:
     """Escape sequences similar to CWL expressions or param references."""
-    return contents.replace("${", "$/{").replace("$(", "$/(")
+    return contents.replace("\\", "\\\\").replace("${", "\\${").replace("$(", "\\$(")
 
 
 def clean_type_ids(
@@ -106,51 +106,47 @@ def get_expression(
 
     CWL expressions in the $() form are converted to the ${} form.
     """
-    if not isinstance(string, str):
+    if not needs_parsing(string):
         return None
-    if string.strip().startswith("${"):
+    string = string.strip()
+    whole = scanner(string) == (0, len(string))
+    if whole and string.startswith("${"):
         return string
-    if "$(" in string:
-        runtime = CWLRuntimeParameterContext(
-            cores=0,
-            ram=0,
-            outdir="/root",
-            tmpdir="/tmp",  # nosec
-            outdirSize=0,
-            tmpdirSize=0,
+    runtime = CWLRuntimeParameterContext(
+        cores=0,
+        ram=0,
+        outdir="/root",
+        tmpdir="/tmp",  # nosec
+        outdirSize=0,
+        tmpdirSize=0,
+        exitCode=0,
+    )
+    try:
+        do_eval(
+            string,
+            inputs,
+            context=self,
+            requirements=[],
+            outdir="",
+            tmpdir="",
+            resources=cast(dict[str, float | int], runtime),
+            cwlVersion=_DEFAULT_CWL_VERSION,
+        )
+    except (WorkflowException, JavascriptException):
+        if whole:
+            # it is a CWL Expression in $() with no string interpolation
+            return "${return (" + string[2:-1] + ");}"
+        # then it is a string interpolation
+        return cast(
+            str,
+            interpolate(
+                scan=string,
+                rootvars=CWLParameterContext(inputs=inputs, self=self, runtime=runtime),
+                fullJS=True,
+                escaping_behavior=1,
+                convert_to_expression=True,
+            ),
         )
-        try:
-            do_eval(
-                string,
-                inputs,
-                context=self,
-                requirements=[],
-                outdir="",
-                tmpdir="",
-                resources={},
-            )
-        except (WorkflowException, JavascriptException):
-            if (
-                string[0:2] != "$("
-                or not string.endswith(")")
-                or len(string.split("$(")) > 2
-            ):
-                # then it is a string interpolation
-                return cast(
-                    str,
-                    interpolate(
-                        scan=string,
-                        rootvars=CWLParameterContext(
-                            inputs=inputs, self=self, runtime=runtime
-                        ),
-                        fullJS=True,
-                        escaping_behavior=2,
-                        convert_to_expression=True,
-                    ),
-                )
-            else:
-                # it is a CWL Expression in $() with no string interpolation
-                return "${return " + string.strip()[2:-1] + ";}"
     return None
 
 
@@ -174,6 +170,8 @@ def etool_to_cltool(
                 streamable=inp.streamable,
                 doc=inp.doc,
                 format=inp.format,
+                loadContents=inp.loadContents,
+                loadListing=inp.loadListing,
                 default=inp.default,
                 type_=inp.type_,
                 extension_fields=inp.extension_fields,
@@ -195,15 +193,24 @@ def etool_to_cltool(
                 loadingOptions=outp.loadingOptions,
             )
         )
+    expression = etool.expression.strip()
+    if expression.startswith("$("):
+        expression = "${return (" + expression[2:-1] + ");}"
+    requirements: list[cwl.ProcessRequirement] = []
+    for req in [*(etool.hints or []), *(etool.requirements or [])]:
+        if isinstance(req, cwl.InlineJavascriptRequirement):
+            expressionLib = req.expressionLib
+        elif isinstance(req, cwl.SchemaDefRequirement):
+            requirements.append(req)
     contents = """"use strict";
 var inputs=$(inputs);
 var runtime=$(runtime);"""
     if expressionLib:
-        contents += "\n" + "\n".join(expressionLib)
+        contents += "\n" + escape_expression_field("\n".join(expressionLib))
     contents += (
         """
 var ret = function(){"""
-        + escape_expression_field(etool.expression.strip()[2:-1])
+        + escape_expression_field(expression[2:-1])
         + """}();
 process.stdout.write(JSON.stringify(ret));"""
     )
@@ -217,7 +224,7 @@ process.stdout.write(JSON.stringify(ret));"""
         inputs=inputs,
         outputs=outputs,
         id=etool.id,
-        requirements=[iwdr],
+        requirements=[iwdr, *requirements],
         hints=[containerReq, softwareHint],
         label=etool.label,
         doc=etool.doc,
@@ -237,6 +244,8 @@ def traverse(
     skip_command_line2: bool,
 ) -> tuple[cwl.CommandLineTool | cwl.ExpressionTool | cwl.Workflow, bool]:
     """Convert the given process and any subprocesses."""
+    if isinstance(process, cwl.Process):
+        cwl_utils.expression_refactor.relative_ids(process)
     match process:
         case cwl.CommandLineTool() if not inside:
             process = expand_stream_shortcuts(process)
@@ -288,16 +297,24 @@ def traverse(
                         )
                     )
             step = cwl.WorkflowStep(
-                id="#main",
+                id="main",
                 in_=step_inputs,
                 out=step_outputs,
                 run=copy.deepcopy(process),
             )
+            step.run.id = None
             workflow = cwl.Workflow(
+                id=process.id,
                 inputs=wf_inputs,
                 outputs=wf_outputs,
                 steps=[step],
+                requirements=[
+                    req
+                    for req in process.requirements or []
+                    if isinstance(req, cwl.SchemaDefRequirement)
+                ],
                 cwlVersion=process.cwlVersion,
+                loadingOptions=process.loadingOptions,
             )
             result, modified = traverse_workflow(
                 workflow, replace_etool, skip_command_line1, skip_command_line2
@@ -307,15 +324,7 @@ def traverse(
             else:
                 return process, False
         case cwl.ExpressionTool() if replace_etool:
-            expression = get_expression(process.expression, empty_inputs(process), None)
-            # Why call get_expression on an ExpressionTool?
-            # It normalizes the form of $() CWL expressions into the ${} style
-            if expression:
-                process2 = copy.deepcopy(process)
-                process2.expression = expression
-            else:
-                process2 = process
-            return etool_to_cltool(process2), True
+            return etool_to_cltool(process), True
         case cwl.Workflow():
             return traverse_workflow(
                 process, replace_etool, skip_command_line1, skip_command_line2
@@ -328,7 +337,8 @@ def generate_etool_from_expr(
     expr: str,
     target: cwl.CommandInputParameter | cwl.WorkflowInputParameter,
     no_inputs: bool = False,
-    self_type: None | (
+    self_type: None
+    | (
         cwl.WorkflowInputParameter
         | cwl.CommandInputParameter
         | list[cwl.WorkflowInputParameter | cwl.CommandInputParameter]
@@ -397,7 +407,7 @@ def generate_etool_from_expr(
     expression += (
         """
   return {"result": function(){"""
-        + expr[2:-2]
+        + expr.strip()[2:-1]
         + """}()};
  }"""
     )
@@ -643,324 +653,6 @@ def process_workflow_inputs_and_outputs(
     return modified
 
 
-def process_workflow_reqs_and_hints(
-    workflow: cwl.Workflow, replace_etool: bool
-) -> bool:
-    """
-    Convert any expressions in a workflow's reqs and hints.
-
-    Each expression will be converted to an additional step.
-    The converted requirement will be copied to all workflow steps that don't have that
-    requirement type. Those affected steps will gain an additional input from the relevant
-    synthesized expression step.
-    """
-    # TODO: consolidate the generated etools/cltools into a single "_expression_workflow_reqs" step
-    # TODO: support resourceReq.* references to Workflow.inputs?
-    #       ^ By refactoring replace_expr_etool to allow multiple inputs,
-    #         and connecting all workflow inputs to the generated step
-    modified = False
-    inputs = empty_inputs(workflow)
-    generated_res_reqs: list[tuple[str, int | str]] = []
-    generated_iwdr_reqs: list[tuple[str, int | str]] = []
-    generated_envVar_reqs: list[tuple[str, int | str]] = []
-    prop_reqs: tuple[
-        (
-            type[cwl.EnvVarRequirement]
-            | type[cwl.ResourceRequirement]
-            | type[cwl.InitialWorkDirRequirement]
-        ),
-        ...,
-    ] = ()
-    resourceReq: cwl.ResourceRequirement | None = None
-    envVarReq: cwl.EnvVarRequirement | None = None
-    iwdr: cwl.InitialWorkDirRequirement | None = None
-    if workflow.requirements is not None:
-        for req in cast(list[cwl.ProcessRequirement], workflow.requirements):
-            match req:
-                case cwl.EnvVarRequirement() if req.envDef:
-                    for index, envDef in enumerate(req.envDef):
-                        if envDef.envValue:
-                            expression = get_expression(envDef.envValue, inputs, None)
-                            if expression:
-                                modified = True
-                                target = cwl.WorkflowInputParameter(
-                                    id=None,
-                                    type_="string",
-                                )
-                                etool_id = (
-                                    "_expression_workflow_EnvVarRequirement_{}".format(
-                                        index
-                                    )
-                                )
-                                replace_expr_with_etool(
-                                    expression,
-                                    etool_id,
-                                    workflow,
-                                    target,
-                                    None,
-                                    replace_etool,
-                                )
-                                if envVarReq is None:
-                                    envVarReq = copy.deepcopy(req)
-                                    prop_reqs += (cwl.EnvVarRequirement,)
-                                newEnvDef = copy.deepcopy(envDef)
-                                newEnvDef.envValue = f"$(inputs._envDef{index})"
-                                envVarReq.envDef[index] = newEnvDef
-                                generated_envVar_reqs.append((etool_id, index))
-                case cwl.ResourceRequirement():
-                    for attr in cwl.ResourceRequirement.attrs:
-                        this_attr = getattr(req, attr, None)
-                        if this_attr:
-                            expression = get_expression(this_attr, inputs, None)
-                            if expression:
-                                modified = True
-                                target = cwl.WorkflowInputParameter(
-                                    id=None, type_="long"
-                                )
-                                etool_id = "_expression_workflow_ResourceRequirement_{}".format(
-                                    attr
-                                )
-                                replace_expr_with_etool(
-                                    expression,
-                                    etool_id,
-                                    workflow,
-                                    target,
-                                    None,
-                                    replace_etool,
-                                )
-                                if not resourceReq:
-                                    resourceReq = cwl.ResourceRequirement(
-                                        loadingOptions=workflow.loadingOptions,
-                                    )
-                                    prop_reqs += (cwl.ResourceRequirement,)
-                                setattr(resourceReq, attr, f"$(inputs._{attr})")
-                                generated_res_reqs.append((etool_id, attr))
-                case cwl.InitialWorkDirRequirement() if req.listing:
-                    if isinstance(req.listing, str):
-                        expression = get_expression(req.listing, inputs, None)
-                        if expression:
-                            modified = True
-                            target = cwl.WorkflowInputParameter(
-                                id=None,
-                                type_=cwl.InputArraySchema(
-                                    ["File", "Directory"], "array", None, None
-                                ),
-                            )
-                            etool_id = "_expression_workflow_InitialWorkDirRequirement"
-                            replace_expr_with_etool(
-                                expression,
-                                etool_id,
-                                workflow,
-                                target,
-                                None,
-                                replace_etool,
-                            )
-                            iwdr = cwl.InitialWorkDirRequirement(
-                                listing="$(inputs._iwdr_listing)",
-                                loadingOptions=workflow.loadingOptions,
-                            )
-                            prop_reqs += (cwl.InitialWorkDirRequirement,)
-                    else:
-                        iwdr = copy.deepcopy(req)
-                        for index, entry in enumerate(req.listing):
-                            expression = get_expression(entry, inputs, None)
-                            if expression:
-                                modified = True
-                                target = cwl.WorkflowInputParameter(
-                                    id=None,
-                                    type_=cwl.InputArraySchema(
-                                        ["File", "Directory"], "array", None, None
-                                    ),
-                                )
-                                etool_id = "_expression_workflow_InitialWorkDirRequirement_{}".format(
-                                    index
-                                )
-                                replace_expr_with_etool(
-                                    expression,
-                                    etool_id,
-                                    workflow,
-                                    target,
-                                    None,
-                                    replace_etool,
-                                )
-                                iwdr.listing[index] = f"$(inputs._iwdr_listing_{index}"
-                                generated_iwdr_reqs.append((etool_id, index))
-                            elif isinstance(entry, cwl.Dirent):
-                                if entry.entry:
-                                    expression = get_expression(
-                                        entry.entry, inputs, None
-                                    )
-                                    if expression:
-                                        expr: str = expression
-                                        expr_result = do_eval(
-                                            ex=entry.entry,
-                                            jobinput=inputs,
-                                            requirements=[],
-                                            outdir="",
-                                            tmpdir="",
-                                            resources={},
-                                        )
-                                        modified = True
-                                        if is_file_or_directory(expr_result):
-                                            target = cwl.WorkflowInputParameter(
-                                                id=None,
-                                                type_=expr_result["class"],
-                                            )
-                                            replace_expr_with_etool(
-                                                expr,
-                                                etool_id,
-                                                workflow,
-                                                target,
-                                                None,
-                                                replace_etool,
-                                            )
-                                            iwdr.listing[index] = (
-                                                "$(inputs._iwdr_listing_{}".format(
-                                                    index
-                                                )
-                                            )
-                                            generated_iwdr_reqs.append(
-                                                (etool_id, index)
-                                            )
-                                        elif isinstance(expr_result, str):
-                                            target = cwl.WorkflowInputParameter(
-                                                id=None,
-                                                type_=["File"],
-                                            )
-                                            if entry.entryname is None:
-                                                raise SourceLine(
-                                                    entry.loadingOptions.original_doc,
-                                                    index,
-                                                    raise_type=WorkflowException,
-                                                ).makeError(
-                                                    f"Entry {index},"
-                                                    + "Invalid CWL, if 'entry' "
-                                                    "is a string, then entryName must be specified."
-                                                )
-                                            expr = (
-                                                '${return {"class": "File", "basename": "'
-                                                + entry.entryname
-                                                + '", "contents": (function(){'
-                                                + expr[2:-1]
-                                                + "})() }; }"
-                                            )
-                                        etool_id = "_expression_workflow_InitialWorkDirRequirement_{}".format(
-                                            index
-                                        )
-                                        replace_expr_with_etool(
-                                            expr,
-                                            etool_id,
-                                            workflow,
-                                            target,
-                                            None,
-                                            replace_etool,
-                                        )
-                                        iwdr.listing[index] = (
-                                            f"$(inputs._iwdr_listing_{index}"
-                                        )
-                                        generated_iwdr_reqs.append((etool_id, index))
-
-                                elif entry.entryname:
-                                    expression = get_expression(
-                                        entry.entryname, inputs, None
-                                    )
-                                    if expression:
-                                        modified = True
-                                        target = cwl.WorkflowInputParameter(
-                                            id=None,
-                                            type_="string",
-                                        )
-                                        etool_id = "_expression_workflow_InitialWorkDirRequirement_{}".format(
-                                            index
-                                        )
-                                        replace_expr_with_etool(
-                                            expression,
-                                            etool_id,
-                                            workflow,
-                                            target,
-                                            None,
-                                            replace_etool,
-                                        )
-                                        iwdr.listing[index] = (
-                                            f"$(inputs._iwdr_listing_{index}"
-                                        )
-                                        generated_iwdr_reqs.append((etool_id, index))
-                        if generated_iwdr_reqs:
-                            prop_reqs += (cwl.InitialWorkDirRequirement,)
-                        else:
-                            iwdr = None
-    if envVarReq and workflow.steps:
-        for step in workflow.steps:
-            if step.id.split("#")[-1].startswith("_expression_"):
-                continue
-            if step.requirements:
-                for req in step.requirements:
-                    if isinstance(req, cwl.EnvVarRequirement):
-                        continue
-            else:
-                step.requirements = yaml.comments.CommentedSeq()
-            step.requirements.append(envVarReq)
-            for entry in generated_envVar_reqs:
-                step.in_.append(
-                    cwl.WorkflowStepInput(
-                        id=f"_envDef{entry[1]}",
-                        source=f"{entry[0]}/result",
-                    )
-                )
-
-    if resourceReq and workflow.steps:
-        for step in workflow.steps:
-            if step.id.split("#")[-1].startswith("_expression_"):
-                continue
-            if step.requirements:
-                for req in step.requirements:
-                    if isinstance(req, cwl.ResourceRequirement):
-                        continue
-            else:
-                step.requirements = yaml.comments.CommentedSeq()
-            step.requirements.append(resourceReq)
-            for entry in generated_res_reqs:
-                step.in_.append(
-                    cwl.WorkflowStepInput(
-                        id=f"_{entry[1]}",
-                        source=f"{entry[0]}/result",
-                    )
-                )
-
-    if iwdr and workflow.steps:
-        for step in workflow.steps:
-            if step.id.split("#")[-1].startswith("_expression_"):
-                continue
-            if step.requirements:
-                for req in step.requirements:
-                    if isinstance(req, cwl.InitialWorkDirRequirement):
-                        continue
-            else:
-                step.requirements = yaml.comments.CommentedSeq()
-            step.requirements.append(iwdr)
-            if generated_iwdr_reqs:
-                for entry in generated_iwdr_reqs:
-                    step.in_.append(
-                        cwl.WorkflowStepInput(
-                            id=f"_iwdr_listing_{index}",
-                            source=f"{entry[0]}/result",
-                        )
-                    )
-            else:
-                step.in_.append(
-                    cwl.WorkflowStepInput(
-                        id="_iwdr_listing",
-                        source="_expression_workflow_InitialWorkDirRequirement/result",
-                    )
-                )
-
-    if workflow.requirements:
-        workflow.requirements[:] = [
-            x for x in workflow.requirements if not isinstance(x, prop_reqs)
-        ]
-    return modified
-
-
 def process_level_reqs(
     process: cwl.CommandLineTool,
     step: cwl.WorkflowStep,
@@ -971,8 +663,8 @@ def process_level_reqs(
 ) -> bool:
     """Convert expressions inside a process into new adjacent steps."""
     # This is for reqs inside a Process (CommandLineTool, ExpressionTool)
-    # differences from process_workflow_reqs_and_hints() are:
-    # - the name of the generated ETools/CTools contains the name of the step, not "workflow"
+    # Note that:
+    # - the name of the generated ETools/CTools contains the name of the step
     # - Generated ETools/CTools are adjacent steps
     # - Replace the CWL Expression inplace with a CWL parameter reference
     # - Don't create a new Requirement, nor delete the existing Requirement
@@ -1001,16 +693,16 @@ def process_level_reqs(
                         etool_id = "_expression_{}_EnvVarRequirement_{}".format(
                             step_name, env_index
                         )
-                        replace_expr_with_etool(
+                        replace_clt_hintreq_expr_with_etool(
                             expression,
                             etool_id,
                             parent,
                             target,
-                            None,
+                            step,
                             replace_etool,
                             process,
                         )
-                        target_process.requirements[req_index][
+                        target_process.requirements[req_index].envDef[
                             env_index
                         ].envValue = f"$(inputs._envDef{env_index})"
                         generated_envVar_reqs.append((etool_id, env_index))
@@ -1032,6 +724,7 @@ def process_level_reqs(
                             target,
                             step,
                             replace_etool,
+                            process,
                         )
                         setattr(
                             target_process.requirements[req_index],
@@ -1049,25 +742,23 @@ def process_level_reqs(
                 expression = get_expression(req.listing, inputs, None)
                 if expression:
                     modified = True
-                    target_type = cwl.InputArraySchema(
-                        ["File", "Directory"], "array", None, None
-                    )
+                    target_type = ["null", "Any"]
                     target = cwl.WorkflowInputParameter(id=None, type_=target_type)
                     etool_id = "_expression_{}_InitialWorkDirRequirement".format(
                         step_name
                     )
-                    replace_expr_with_etool(
+                    replace_clt_hintreq_expr_with_etool(
                         expression,
                         etool_id,
                         parent,
                         target,
-                        None,
+                        step,
                         replace_etool,
                         process,
                     )
-                    target_process.requirements[req_index].listing = (
-                        "$(inputs._iwdr_listing)",
-                    )
+                    target_process.requirements[
+                        req_index
+                    ].listing = "$(inputs._iwdr_listing)"
                     step.in_.append(
                         cwl.WorkflowStepInput(
                             id="_iwdr_listing",
@@ -1086,9 +777,13 @@ def process_level_reqs(
                     expression = get_expression(entry, inputs, None)
                     if expression:
                         modified = True
-                        target_type = cwl.InputArraySchema(
-                            ["File", "Directory"], "array", None, None
-                        )
+                        target_type = [
+                            "File",
+                            "Directory",
+                            cwl.InputArraySchema(
+                                ["File", "Directory"], "array", None, None
+                            ),
+                        ]
                         target = cwl.WorkflowInputParameter(
                             id=None,
                             type_=target_type,
@@ -1096,18 +791,18 @@ def process_level_reqs(
                         etool_id = "_expression_{}_InitialWorkDirRequirement_{}".format(
                             step_name, listing_index
                         )
-                        replace_expr_with_etool(
+                        replace_clt_hintreq_expr_with_etool(
                             expression,
                             etool_id,
                             parent,
                             target,
-                            None,
+                            step,
                             replace_etool,
                             process,
                         )
                         target_process.requirements[req_index].listing[
                             listing_index
-                        ] = f"$(inputs._iwdr_listing_{listing_index}"
+                        ] = f"$(inputs._iwdr_listing_{listing_index})"
                         generated_iwdr_reqs.append(
                             (etool_id, listing_index, target_type)
                         )
@@ -1121,16 +816,20 @@ def process_level_reqs(
                                         entry.entryname, inputs, None
                                     )
                                     entryname = (
-                                        entry.entryname
+                                        "(function(){" + entryname_expr[2:-1] + "})()"
                                         if entryname_expr
-                                        else f'"{entry.entryname}"'  # noqa: B907
+                                        else json_dumps(entry.entryname)
                                     )
+                                    if entryname_expr:
+                                        target_process.requirements[req_index].listing[
+                                            listing_index
+                                        ].entryname = None
                                     new_expression = (
                                         "${var result; var entryname = "
                                         + entryname
-                                        + "; var entry = "
-                                        + entry.entry[2:-1]
-                                        + """;
+                                        + "; var entry = (function(){"
+                                        + expression[2:-1]
+                                        + """})();
 if (typeof entry === 'string' || entry instanceof String) {
 result = {"class": "File", "basename": entryname, "contents": entry} ;
 if (typeof entryname === 'string' || entryname instanceof String) {
@@ -1159,6 +858,7 @@ return result; }"""
                                     target,
                                     step,
                                     replace_etool,
+                                    process,
                                 )
                                 target_process.requirements[req_index].listing[
                                     listing_index
@@ -1168,7 +868,7 @@ return result; }"""
                                 generated_iwdr_reqs.append(
                                     (etool_id, listing_index, d_target_type)
                                 )
-                        elif entry.entryname:
+                        if entry.entryname and not expression:
                             expression = get_expression(entry.entryname, inputs, None)
                             if expression:
                                 modified = True
@@ -1179,12 +879,12 @@ return result; }"""
                                 etool_id = "_expression_{}_InitialWorkDirRequirement_{}".format(
                                     step_name, listing_index
                                 )
-                                replace_expr_with_etool(
+                                replace_clt_hintreq_expr_with_etool(
                                     expression,
                                     etool_id,
                                     parent,
                                     target,
-                                    None,
+                                    step,
                                     replace_etool,
                                     process,
                                 )
@@ -1255,10 +955,10 @@ def traverse_CommandLineTool(
                     modified = True
                     inp_id = f"_arguments_{index}"
                     etool_id = f"_expression_{step_id}{inp_id}"
-                    target_type = "Any"
+                    target_type = ["null", "Any"]
                     target = cwl.WorkflowInputParameter(id=None, type_=target_type)
                     replace_step_clt_expr_with_etool(
-                        expression, etool_id, parent, target, step, replace_etool
+                        expression, etool_id, parent, target, step, replace_etool, clt
                     )
                     target_clt.arguments[index] = (
                         cwl_utils.expression_refactor.get_command_line_binding(
@@ -1274,12 +974,10 @@ def traverse_CommandLineTool(
                         )
                     )
                     step.in_.append(
-                        cwl.WorkflowStepInput(
-                            f"{etool_id}/result", None, inp_id, None, None
-                        )
+                        cwl.WorkflowStepInput(id=inp_id, source=f"{etool_id}/result")
                     )
                     cwl_utils.expression_refactor.remove_JSReq(
-                        target_clt, skip_command_line1
+                        target_clt, skip_command_line1 or skip_command_line2
                     )
             elif isinstance(arg, cwl.CommandLineBinding) and arg.valueFrom:
                 expression = get_expression(arg.valueFrom, inputs, None)
@@ -1287,10 +985,10 @@ def traverse_CommandLineTool(
                     modified = True
                     inp_id = f"_arguments_{index}"
                     etool_id = f"_expression_{step_id}{inp_id}"
-                    target_type = "Any"
+                    target_type = ["null", "Any"]
                     target = cwl.WorkflowInputParameter(id=None, type_=target_type)
                     replace_step_clt_expr_with_etool(
-                        expression, etool_id, parent, target, step, replace_etool
+                        expression, etool_id, parent, target, step, replace_etool, clt
                     )
                     target_clt.arguments[index].valueFrom = "$(inputs.{})".format(
                         inp_id
@@ -1306,7 +1004,7 @@ def traverse_CommandLineTool(
                         cwl.WorkflowStepInput(id=inp_id, source=f"{etool_id}/result")
                     )
                     cwl_utils.expression_refactor.remove_JSReq(
-                        target_clt, skip_command_line1
+                        target_clt, skip_command_line1 or skip_command_line2
                     )
     for streamtype in "stdout", "stderr":  # add 'stdin' for v1.1 version
         stream_value = getattr(clt, streamtype)
@@ -1319,7 +1017,7 @@ def traverse_CommandLineTool(
                 target_type = "string"
                 target = cwl.WorkflowInputParameter(id=None, type_=target_type)
                 replace_step_clt_expr_with_etool(
-                    expression, etool_id, parent, target, step, replace_etool
+                    expression, etool_id, parent, target, step, replace_etool, clt
                 )
                 setattr(target_clt, streamtype, f"$(inputs.{inp_id})")
                 target_clt.inputs.append(
@@ -1332,7 +1030,7 @@ def traverse_CommandLineTool(
                 step.in_.append(
                     cwl.WorkflowStepInput(id=inp_id, source=f"{etool_id}/result")
                 )
-    for inp in clt.inputs:
+    for index, inp in enumerate(clt.inputs):
         if not skip_command_line1 and inp.inputBinding and inp.inputBinding.valueFrom:
             expression = get_expression(
                 inp.inputBinding.valueFrom, inputs, example_input(inp.type_)
@@ -1342,19 +1040,36 @@ def traverse_CommandLineTool(
                 self_id = inp.id.split("#")[-1]
                 inp_id = f"_{self_id}_valueFrom"
                 etool_id = f"_expression_{step_id}{inp_id}"
+                if isinstance(inp.type_, MutableSequence) and "null" in inp.type_:
+                    # the expression is not evaluated without a value
+                    expression = (
+                        "${if (self === null) {return null;}\n" + expression.strip()[2:]
+                    )
+                target_type = ["null", "Any"]
+                target = cwl.WorkflowInputParameter(id=None, type_=target_type)
                 replace_step_clt_expr_with_etool(
-                    expression, etool_id, parent, inp, step, replace_etool, self_id
+                    expression,
+                    etool_id,
+                    parent,
+                    target,
+                    step,
+                    replace_etool,
+                    clt,
+                    self_id,
                 )
-                inp.inputBinding.valueFrom = f"$(inputs.{inp_id})"
+                target_clt.inputs[index].inputBinding.valueFrom = f"$(inputs.{inp_id})"
                 target_clt.inputs.append(
                     cwl_utils.expression_refactor.get_command_input_parameter(
-                        target_clt.cwlVersion or _DEFAULT_CWL_VERSION, inp_id, inp.type_
+                        target_clt.cwlVersion or _DEFAULT_CWL_VERSION,
+                        inp_id,
+                        target_type,
                     )
                 )
                 step.in_.append(
                     cwl.WorkflowStepInput(id=inp_id, source=f"{etool_id}/result")
                 )
-    for outp in clt.outputs:
+    output_evals: list[tuple[cwl_utils.parser.CommandOutputParameter, str]] = []
+    for index, outp in enumerate(clt.outputs):
         if outp.outputBinding:
             if outp.outputBinding.glob:
                 expression = get_expression(outp.outputBinding.glob, inputs, None)
@@ -1365,9 +1080,9 @@ def traverse_CommandLineTool(
                     glob_target_type = ["string", ArraySchema("string", "array")]
                     target = cwl.WorkflowInputParameter(id=None, type_=glob_target_type)
                     replace_step_clt_expr_with_etool(
-                        expression, etool_id, parent, target, step, replace_etool
+                        expression, etool_id, parent, target, step, replace_etool, clt
                     )
-                    outp.outputBinding.glob = f"$(inputs.{inp_id})"
+                    target_clt.outputs[index].outputBinding.glob = f"$(inputs.{inp_id})"
                     target_clt.inputs.append(
                         cwl_utils.expression_refactor.get_command_input_parameter(
                             target_clt.cwlVersion or _DEFAULT_CWL_VERSION,
@@ -1390,158 +1105,160 @@ def traverse_CommandLineTool(
                     }
                 ]
                 if outp.outputBinding.loadContents:
-                    cast(dict[Any, Any], self)[0]["contents"] = "stuff"
+                    cast(list[dict[str, Any]], self)[0]["contents"] = "stuff"
                 expression = get_expression(outp.outputBinding.outputEval, inputs, self)
                 if expression:
                     modified = True
-                    outp_id = outp.id.split("#")[-1]
-                    inp_id = f"_{outp_id}_outputEval"
-                    etool_id = f"expression{inp_id}"
-                    sub_wf_outputs = cltool_step_outputs_to_workflow_outputs(
-                        step, etool_id, outp_id
-                    )
-                    self_type = cwl.WorkflowInputParameter(
-                        id=None,
-                        type_=cwl.InputArraySchema("File", "array", None, None),
-                    )
-                    etool = generate_etool_from_expr(
-                        expression, outp, False, self_type, [clt, step, parent]
-                    )
-                    if outp.outputBinding.loadContents:
-                        etool.inputs[0].type_.inputBinding = (
-                            cwl_utils.expression_refactor.get_command_line_binding(
-                                etool.cwlVersion or _DEFAULT_CWL_VERSION,
-                                loadContents=True,
-                            )
-                        )
-                    etool.inputs.extend(
-                        cwl_utils.expression_refactor.cltool_inputs_to_etool_inputs(
-                            clt, _DEFAULT_CWL_VERSION
-                        )
-                    )
-                    sub_wf_inputs = (
-                        cwl_utils.expression_refactor.cltool_inputs_to_etool_inputs(
-                            clt, _DEFAULT_CWL_VERSION
-                        )
-                    )
-                    orig_step_inputs = copy.deepcopy(step.in_)
-                    for orig_step_input in orig_step_inputs:
-                        orig_step_input.id = orig_step_input.id.split("/")[-1]
-                        if isinstance(orig_step_input.source, MutableSequence):
-                            for index, source in enumerate(orig_step_input.source):
-                                orig_step_input.source[index] = source.split("#")[-1]
-                        else:
-                            orig_step_input.source = orig_step_input.source.split("#")[
-                                -1
-                            ]
-                    orig_step_inputs[:] = [
-                        x for x in orig_step_inputs if not x.id.startswith("_")
-                    ]
-                    for inp in orig_step_inputs:
-                        inp.source = inp.id
-                        inp.linkMerge = None
-                    final_etool: (
-                        cwl_utils.parser.CommandLineTool
-                        | cwl_utils.parser.ExpressionTool
-                    )
-                    if replace_etool:
-                        final_etool = cwl_utils.expression_refactor.etool_to_cltool(
-                            etool,
-                            _DEFAULT_CWL_VERSION,
-                            cwl_utils.expression_refactor.find_expressionLib([parent]),
-                        )
-                    else:
-                        final_etool = etool
-                    etool_step = cwl.WorkflowStep(
-                        id=etool_id,
-                        in_=orig_step_inputs,
-                        out=[cwl.WorkflowStepOutput("result")],
-                        run=final_etool,
-                        scatterMethod=step.scatterMethod,
-                    )
-                    new_clt_step = copy.copy(
-                        step
-                    )  # a deepcopy would be convenient, but params2.cwl gives it problems
-                    new_clt_step.id = new_clt_step.id.split("#")[-1]
-                    new_clt_step.run = copy.copy(step.run)
-                    new_clt_step.run.id = None
-                    cwl_utils.expression_refactor.remove_JSReq(
-                        new_clt_step.run, skip_command_line1
-                    )
-                    cwl_utils.expression_refactor.process_CommandLineTool_output(
-                        new_clt_step.run, _DEFAULT_CWL_VERSION, outp_id
-                    )
-                    new_clt_step.in_ = copy.deepcopy(step.in_)
-                    for inp in new_clt_step.in_:
-                        inp.id = inp.id.split("/")[-1]
-                        inp.source = inp.id
-                        inp.linkMerge = None
-                    for index, out in enumerate(new_clt_step.out):
-                        new_clt_step.out[index] = out.split("/")[-1]
-                    for tool_inp in new_clt_step.run.inputs:
-                        tool_inp.id = tool_inp.id.split("#")[-1]
-                    for tool_out in new_clt_step.run.outputs:
-                        tool_out.id = tool_out.id.split("#")[-1]
-                    sub_wf_steps = [new_clt_step, etool_step]
-                    sub_workflow = cwl.Workflow(
-                        inputs=sub_wf_inputs,
-                        outputs=sub_wf_outputs,
-                        steps=sub_wf_steps,
-                        cwlVersion=parent.cwlVersion,
-                    )
-                    if step.scatter:
-                        new_clt_step.scatter = None
-                    step.run = sub_workflow
-                    rename_step_source(
-                        sub_workflow,
-                        f"{step_id}/{outp_id}",
-                        f"{etool_id}/result",
-                    )
-                    orig_step_inputs.append(
-                        cwl.WorkflowStepInput(id="self", source=f"{step_id}/{outp_id}")
-                    )
-                    if not parent.requirements:
-                        parent.requirements = [cwl.SubworkflowFeatureRequirement()]
-                    else:
-                        has_sub_wf_req = False
-                        for req in parent.requirements:
-                            if isinstance(req, cwl.SubworkflowFeatureRequirement):
-                                has_sub_wf_req = True
-                        if not has_sub_wf_req:
-                            parent.requirements.append(
-                                cwl.SubworkflowFeatureRequirement()
-                            )
+                    output_evals.append((outp, expression))
+    if output_evals:
+        replace_outputEvals_with_etools(
+            clt, output_evals, parent, step, replace_etool, skip_command_line1
+        )
     return modified
 
 
-def rename_step_source(workflow: cwl.Workflow, old: str, new: str) -> None:
-    """Update step source names to the new name."""
+def replace_outputEvals_with_etools(
+    clt: cwl_utils.parser.CommandLineTool,
+    output_evals: list[tuple[cwl_utils.parser.CommandOutputParameter, str]],
+    parent: cwl.Workflow,
+    step: cwl.WorkflowStep,
+    replace_etool: bool,
+    skip_command_line1: bool,
+) -> None:
+    """Run the CommandLineTool and an ExpressionTool per outputEval in a sub-workflow."""
+    target_clt = step.run
+    step_id = step.id.split("#")[-1]
+    sub_wf_inputs = yaml.comments.CommentedSeq()
+    step_inputs = []
+    for clt_inp in target_clt.inputs:
+        clt_inp_id = clt_inp.id.split("#")[-1].split("/")[-1]
+        step_inputs.append(cwl.WorkflowStepInput(id=clt_inp_id, source=clt_inp_id))
+        if clt_inp_id.startswith("_"):
+            sub_wf_inputs.append(
+                cwl.WorkflowInputParameter(id=clt_inp_id, type_=clt_inp.type_)
+            )
+    sub_wf_inputs[:0] = cltool_inputs_to_etool_inputs(clt)
+    sub_wf_outputs = cltool_step_outputs_to_workflow_outputs(
+        step,
+        {outp.id.split("#")[-1].split("/")[-1] for outp, _ in output_evals},
+    )
+    clt_step = cwl.WorkflowStep(
+        id=step_id,
+        in_=step_inputs,
+        out=[outp.id.split("#")[-1].split("/")[-1] for outp in target_clt.outputs],
+        run=target_clt,
+    )
+    sub_wf_steps = [clt_step]
+    for outp, expression in output_evals:
+        outp_id = outp.id.split("#")[-1].split("/")[-1]
+        self_type = cwl.WorkflowInputParameter(
+            id=None,
+            type_=cwl.InputArraySchema("File", "array", None, None),
+        )
+        etool = generate_etool_from_expr(
+            expression, outp, False, self_type, [parent, step, clt]
+        )
+        if outp.outputBinding.loadContents:
+            etool.inputs[0].loadContents = True
+        etool.inputs.extend(cltool_inputs_to_etool_inputs(clt))
+        sub_wf_steps.append(
+            cwl.WorkflowStep(
+                id=f"expression_{outp_id}_outputEval",
+                in_=[
+                    *(copy.copy(x) for x in step_inputs if not x.id.startswith("_")),
+                    cwl.WorkflowStepInput(id="self", source=f"{step_id}/{outp_id}"),
+                ],
+                out=[cwl.WorkflowStepOutput("result")],
+                run=etool_to_cltool(etool) if replace_etool else etool,
+            )
+        )
+        cwl_utils.expression_refactor.process_CommandLineTool_output(
+            target_clt, _DEFAULT_CWL_VERSION, outp_id
+        )
+    target_clt.id = None
+    cwl_utils.expression_refactor.remove_JSReq(target_clt, skip_command_line1)
+    step.run = cwl.Workflow(
+        inputs=sub_wf_inputs,
+        outputs=sub_wf_outputs,
+        steps=sub_wf_steps,
+        requirements=[
+            req
+            for req in clt.requirements or []
+            if isinstance(req, cwl.SchemaDefRequirement)
+        ],
+        cwlVersion=parent.cwlVersion,
+    )
+    require_sub_workflows(parent)
 
-    def simplify_wf_id(uri: str) -> str:
-        return uri.split("#")[-1].split("/", 1)[1]
 
-    def simplify_step_id(uri: str) -> str:
-        return uri.split("#")[-1]
+def require_sub_workflows(workflow: cwl.Workflow) -> None:
+    """Add a SubworkflowFeatureRequirement if there is none."""
+    workflow.requirements = workflow.requirements or []
+    if not any(
+        isinstance(req, cwl.SubworkflowFeatureRequirement)
+        for req in workflow.requirements
+    ):
+        workflow.requirements.append(cwl.SubworkflowFeatureRequirement())
 
-    for wf_outp in workflow.outputs:
-        if wf_outp.outputSource and simplify_wf_id(wf_outp.outputSource) == old:
-            wf_outp.outputSource = new
-    for step in workflow.steps:
-        if step.in_:
-            for inp in step.in_:
-                if inp.source:
-                    if isinstance(inp.source, str):
-                        source_id = (
-                            simplify_step_id(inp.source)
-                            if "#" in inp.source
-                            else inp.source
-                        )
-                        if source_id == old:
-                            inp.source = new
-                    else:
-                        for index, source in enumerate(inp.source):
-                            if simplify_step_id(source) == old:
-                                inp.source[index] = new
+
+def traverse_scattered_step(
+    step: cwl.WorkflowStep,
+    parent: cwl.Workflow,
+    replace_etool: bool,
+    skip_command_line1: bool,
+    skip_command_line2: bool,
+) -> bool:
+    """Refactor what is run for every job of a scattered step into a sub-workflow."""
+    inner_step = copy.copy(step)
+    inner_step.run = copy.deepcopy(step.run)
+    inner_step.scatter = None
+    inner_step.scatterMethod = None
+    inner_step.in_ = []
+    inputs = []
+    for inp in step.in_:
+        inp_id = inp.id.split("/")[-1]
+        inner_step.in_.append(
+            cwl.WorkflowStepInput(
+                id=inp_id,
+                source=inp_id,
+                valueFrom=inp.valueFrom,
+                loadContents=inp.loadContents,
+                loadListing=inp.loadListing,
+            )
+        )
+        inputs.append(cwl.WorkflowInputParameter(id=inp_id, type_=["null", "Any"]))
+    outputs = [
+        output
+        for output in cltool_step_outputs_to_workflow_outputs(step, set())
+        if output.id in step.out
+    ]
+    workflow = cwl.Workflow(
+        inputs=inputs,
+        outputs=outputs,
+        steps=[inner_step],
+        requirements=[
+            req
+            for req in parent.requirements or []
+            if isinstance(
+                req, (cwl.InlineJavascriptRequirement, cwl.SchemaDefRequirement)
+            )
+        ],
+        hints=[
+            hint
+            for hint in parent.hints or []
+            if isinstance(hint, cwl.InlineJavascriptRequirement)
+        ],
+        loadingOptions=parent.loadingOptions,
+    )
+    workflow, modified = traverse_workflow(
+        workflow, replace_etool, skip_command_line1, skip_command_line2
+    )
+    if modified:
+        step.run = workflow
+        for inp in step.in_:
+            inp.valueFrom = None
+        require_sub_workflows(parent)
+    return modified
 
 
 def replace_step_clt_expr_with_etool(
@@ -1551,11 +1268,12 @@ def replace_step_clt_expr_with_etool(
     target: cwl.WorkflowInputParameter,
     step: cwl.WorkflowStep,
     replace_etool: bool,
+    process: cwl_utils.parser.CommandLineTool,
     self_name: str | None = None,
 ) -> None:
     """Convert a step level CWL Expression to a sibling expression step."""
     etool_inputs = cwl_utils.expression_refactor.cltool_inputs_to_etool_inputs(
-        step.run, _DEFAULT_CWL_VERSION
+        process, _DEFAULT_CWL_VERSION
     )
     temp_etool = cwl_utils.expression_refactor.generate_etool_from_expr2(
         expr,
@@ -1563,8 +1281,8 @@ def replace_step_clt_expr_with_etool(
         target,
         etool_inputs,
         self_name,
-        step.run,
-        [workflow],
+        process,
+        [workflow, step, process],
     )
     etool: cwl_utils.parser.CommandLineTool | cwl_utils.parser.ExpressionTool
     if replace_etool:
@@ -1597,12 +1315,13 @@ def replace_clt_hintreq_expr_with_etool(
     target: cwl.WorkflowInputParameter,
     step: cwl.WorkflowStep,
     replace_etool: bool,
+    process: cwl_utils.parser.CommandLineTool,
     self_name: str | None = None,
 ) -> None:
     """Factor out an expression inside a CommandLineTool req or hint into a sibling step."""
     # Same as replace_step_clt_expr_with_etool or different?
     etool_inputs = cwl_utils.expression_refactor.cltool_inputs_to_etool_inputs(
-        step.run, _DEFAULT_CWL_VERSION
+        process, _DEFAULT_CWL_VERSION
     )
     temp_etool = cwl_utils.expression_refactor.generate_etool_from_expr2(
         expr,
@@ -1610,8 +1329,8 @@ def replace_clt_hintreq_expr_with_etool(
         target,
         etool_inputs,
         self_name,
-        step.run,
-        [workflow],
+        process,
+        [workflow, step, process],
     )
     etool: cwl_utils.parser.CommandLineTool | cwl_utils.parser.ExpressionTool
     if replace_etool:
@@ -1656,6 +1375,9 @@ def cltool_inputs_to_etool_inputs(
                         format=clt_inp.format,
                         default=clt_inp.default,
                         type_=clt_inp.type_,
+                        loadContents=clt_inp.loadContents
+                        or (clt_inp.inputBinding and clt_inp.inputBinding.loadContents),
+                        loadListing=clt_inp.loadListing,
                         extension_fields=clt_inp.extension_fields,
                         loadingOptions=clt_inp.loadingOptions,
                     )
@@ -1664,7 +1386,7 @@ def cltool_inputs_to_etool_inputs(
 
 
 def cltool_step_outputs_to_workflow_outputs(
-    cltool_step: cwl.WorkflowStep, etool_step_id: str, etool_out_id: str
+    cltool_step: cwl.WorkflowStep, etool_out_ids: set[str]
 ) -> list[cwl.OutputParameter]:
     """
     Copy CommandLineTool outputs into the equivalent Workflow output parameters.
@@ -1679,8 +1401,8 @@ def cltool_step_outputs_to_workflow_outputs(
     if cltool_step.run.outputs:
         for clt_out in cltool_step.run.outputs:
             clt_out_id = clt_out.id.split("#")[-1].split("/")[-1]
-            if clt_out_id == etool_out_id:
-                outputSource = f"{etool_step_id}/result"
+            if clt_out_id in etool_out_ids:
+                outputSource = f"expression_{clt_out_id}_outputEval/result"
             else:
                 outputSource = f"{default_step_id}/{clt_out_id}"
             if not clt_out_id.startswith("_"):
@@ -1693,7 +1415,11 @@ def cltool_step_outputs_to_workflow_outputs(
                         doc=clt_out.doc,
                         format=clt_out.format,
                         outputSource=outputSource,
-                        type_=clt_out.type_,
+                        type_=(
+                            "File"
+                            if clt_out.type_ in ("stdout", "stderr")
+                            else clt_out.type_
+                        ),
                         extension_fields=clt_out.extension_fields,
                         loadingOptions=clt_out.loadingOptions,
                     )
@@ -1733,7 +1459,7 @@ def generate_etool_from_expr2(
     expression += (
         """
   return {"result": function(){"""
-        + expr[2:-2]
+        + expr.strip()[2:-1]
         + """}()};
  }"""
     )
@@ -1765,40 +1491,10 @@ def traverse_step(
     original_step_ins = copy.deepcopy(step.in_)
     for inp in step.in_:
         if inp.valueFrom:
-            if not inp.source:
-                self = None
-            else:
-                if isinstance(inp.source, MutableSequence):
-                    self = []
-                    for source in inp.source:
-                        if not step.scatter:
-                            self.append(
-                                example_input(
-                                    utils.type_for_source(parent, source.split("#")[-1])
-                                )
-                            )
-                        else:
-                            scattered_source_type = utils.type_for_source(
-                                parent, source
-                            )
-                            if isinstance(scattered_source_type, list):
-                                for stype in scattered_source_type:
-                                    self.append(example_input(stype.type_))
-                            else:
-                                self.append(example_input(scattered_source_type.type_))
-                else:
-                    if not step.scatter:
-                        self = example_input(
-                            utils.type_for_source(parent, inp.source.split("#")[-1])
-                        )
-                    else:
-                        scattered_source_type2 = utils.type_for_source(
-                            parent, inp.source
-                        )
-                        if isinstance(scattered_source_type2, list):
-                            self = example_input(scattered_source_type2[0].type_)
-                        else:
-                            self = example_input(scattered_source_type2.type_)
+            self: CWLOutputType | None = None
+            if inp.source:
+                with suppress(WorkflowException):
+                    self = example_input(utils.type_for_source(parent, inp.source))
             expression = get_expression(inp.valueFrom, inputs, self)
             if expression:
                 modified = True
@@ -1807,27 +1503,7 @@ def traverse_step(
                     inp.id, original_process
                 )
                 if not target:
-                    raise WorkflowException("target not found")
-                input_source_id = None
-                if inp.source:
-                    if isinstance(inp.source, MutableSequence):
-                        input_source_id = []
-                        source_types: list[cwl_utils.parser.WorkflowInputParameter] = []
-                        for source in inp.source:
-                            source_id = source.split("#")[-1]
-                            input_source_id.append(source_id)
-                            temp_type = utils.type_for_source(
-                                step.run, source_id, parent
-                            )
-                            if isinstance(temp_type, list):
-                                for ttype in temp_type:
-                                    if ttype not in source_types:
-                                        source_types.append(ttype)
-                            else:
-                                if temp_type not in source_types:
-                                    source_types.append(temp_type)
-                    else:
-                        input_source_id = inp.source.split("#")[-1]
+                    target = cwl.WorkflowInputParameter(id=None, type_=["null", "Any"])
                 # target.id = target.id.split('#')[-1]
                 if isinstance(original_process, cwl_utils.parser.ExpressionTool):
                     reqs: list[cwl.ProcessRequirement] = []
@@ -1860,23 +1536,25 @@ def traverse_step(
                     inp,
                     original_process,
                     original_step_ins,
-                    input_source_id,
                     replace_etool,
                 )
                 inp.valueFrom = None
                 inp.source = f"{etool_id}/result"
+                inp.linkMerge = None
+                inp.default = None
+                inp.loadContents = None
     # TODO: skip or special process for sub workflows?
-    process_modified = process_level_reqs(
-        original_process,
-        step,
-        parent,
-        replace_etool,
-        skip_command_line1,
-        skip_command_line2,
-    )
-    if process_modified:
-        modified = True
     if isinstance(original_process, cwl_utils.parser.CommandLineTool):
+        process_modified = process_level_reqs(
+            original_process,
+            step,
+            parent,
+            replace_etool,
+            skip_command_line1,
+            skip_command_line2,
+        )
+        if process_modified:
+            modified = True
         clt_modified = traverse_CommandLineTool(
             original_process,
             parent,
@@ -1891,34 +1569,20 @@ def traverse_step(
 
 
 def workflow_step_to_WorkflowInputParameters(
-    step_ins: list[cwl.WorkflowStepInput], parent: cwl.Workflow, except_in_id: str
-) -> MutableSequence[
-    cwl_utils.parser.CommandInputParameter
-    | cwl_utils.parser.CommandOutputParameter
-    | cwl_utils.parser.WorkflowInputParameter
-]:
+    step_ins: list[cwl.WorkflowStepInput],
+) -> list[cwl.WorkflowInputParameter]:
     """Create WorkflowInputParameters to match the given WorkflowStep inputs."""
-    params = []
-    for inp in step_ins:
-        if not inp.id:
-            continue
-        inp_id = inp.id.split("#")[-1].split("/")[-1]
-        if inp.source and inp_id != except_in_id:
-            param = copy.deepcopy(param_for_source_id(parent, sourcenames=inp.source))
-            if isinstance(param, MutableSequence):
-                for p in param:
-                    p.id = inp_id
-                    p.type_ = clean_type_ids(
-                        cast(ArraySchema | cwl.InputRecordSchema, p.type_)
-                    )
-                    params.append(p)
-            else:
-                param.id = inp_id
-                param.type_ = clean_type_ids(
-                    cast(ArraySchema | cwl.InputRecordSchema, param.type_)
-                )
-                params.append(param)
-    return params
+    # TODO: would be nicer to derive proper types; but in the face of linkMerge, pickValue,
+    #       and default, this is easier for now
+    return [
+        cwl.WorkflowInputParameter(
+            id=inp.id.split("#")[-1].split("/")[-1],
+            type_=["null", "Any"],
+            loadContents=inp.loadContents,
+            loadListing=inp.loadListing,
+        )
+        for inp in step_ins
+    ]
 
 
 def replace_step_valueFrom_expr_with_etool(
@@ -1934,26 +1598,19 @@ def replace_step_valueFrom_expr_with_etool(
     step_inp: cwl.WorkflowStepInput,
     original_process: cwl_utils.parser.Process,
     original_step_ins: list[cwl.WorkflowStepInput],
-    source: str | list[str] | None,
     replace_etool: bool,
 ) -> None:
     """Replace a WorkflowStep level 'valueFrom' expression with a sibling ExpressionTool step."""
     if not step_inp.id:
         raise WorkflowException(f"Missing id in {step_inp}.")
     step_inp_id = step_inp.id.split("/")[-1]
-    etool_inputs = workflow_step_to_WorkflowInputParameters(
-        original_step_ins, workflow, step_inp_id
-    )
-    if source:
-        source_param = cwl.WorkflowInputParameter(id="self", type_="Any")
-        # TODO: would be nicer to derive a proper type; but in the face of linkMerge, this is easier for now
-        etool_inputs.append(source_param)
+    etool_inputs = workflow_step_to_WorkflowInputParameters(original_step_ins)
     temp_etool = cwl_utils.expression_refactor.generate_etool_from_expr2(
         expr,
         _DEFAULT_CWL_VERSION,
         target,
         etool_inputs,
-        "self" if source else None,
+        step_inp_id,
         original_process,
         [workflow, step],
     )
@@ -1973,8 +1630,6 @@ def replace_step_valueFrom_expr_with_etool(
     else:
         etool = temp_etool
     wf_step_inputs = copy.deepcopy(original_step_ins)
-    if source:
-        wf_step_inputs.append(cwl.WorkflowStepInput(id="self", source=step_inp.source))
     for wf_step_input in wf_step_inputs:
         if not wf_step_input.id:
             continue
@@ -1987,30 +1642,12 @@ def replace_step_valueFrom_expr_with_etool(
                     wf_step_input.source[index] = inp_source.split("#")[-1]
             else:
                 wf_step_input.source = wf_step_input.source.split("#")[-1]
-    wf_step_inputs[:] = [
-        x
-        for x in wf_step_inputs
-        if x.id and not (x.id.startswith("_") or x.id.endswith(step_inp_id))
-    ]
-    scatter = copy.deepcopy(step.scatter)
-    if isinstance(scatter, str):
-        scatter = [scatter]
-    if isinstance(scatter, MutableSequence):
-        for index, entry in enumerate(scatter):
-            scatter[index] = entry.split("/")[-1]
-    if scatter and step_inp_id in scatter:
-        scatter = ["self"]
-    # do we still need to scatter?
-    else:
-        scatter = None
     workflow.steps.append(
         cwl.WorkflowStep(
             id=name,
             in_=wf_step_inputs,
             out=[cwl.WorkflowStepOutput("result")],
             run=etool,
-            scatter=scatter,
-            scatterMethod=step.scatterMethod,
         )
     )
 
@@ -2024,26 +1661,36 @@ def traverse_workflow(
     """Traverse a workflow, processing each step."""
     modified = False
     for index, step in enumerate(workflow.steps):
+        if isinstance(step.run, cwl.Process):
+            cwl_utils.expression_refactor.inherit_JSReq(
+                step.run, _DEFAULT_CWL_VERSION, [workflow, step]
+            )
+            cwl_utils.expression_refactor.inherit_requirements(step.run, step, workflow)
         if isinstance(step.run, cwl.ExpressionTool) and replace_etool:
             workflow.steps[index].run = etool_to_cltool(step.run)
             modified = True
+        elif isinstance(step.run, cwl.Workflow):
+            step.run, step_modified = traverse_workflow(
+                step.run, replace_etool, skip_command_line1, skip_command_line2
+            )
+            if step_modified:
+                modified = True
         else:
             step_modified = cwl_utils.expression_refactor.load_step(
-                step, replace_etool, skip_command_line1, skip_command_line2
+                step, replace_etool, skip_command_line1, skip_command_line2, workflow
             )
             if step_modified:
                 modified = True
-    for step in workflow.steps:
+    for step in list(workflow.steps):
         if not step.id.startswith("_expression"):
-            step_modified = traverse_step(
-                step, workflow, replace_etool, skip_command_line1, skip_command_line2
-            )
+            step_modified = (
+                traverse_scattered_step if step.scatter else traverse_step
+            )(step, workflow, replace_etool, skip_command_line1, skip_command_line2)
             if step_modified:
                 modified = True
     if process_workflow_inputs_and_outputs(workflow, replace_etool):
         modified = True
-    if process_workflow_reqs_and_hints(workflow, replace_etool):
-        modified = True
+    cwl_utils.expression_refactor.drop_inherited_requirements(workflow)
     if workflow.requirements:
         workflow.requirements[:] = [
             x
-- 
2.43.0


From 35b88265746f1808fb48d4b80773df37d928fdd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:39 +0000
Subject: [PATCH 72/78] fix: refactor the expressions of CWL v1_0 documents
 without changing what they compute

Every kind of place is handled on its own process: what the requirements of a
workflow or step say with expressions is moved to the processes of its steps
first, so a separate pass over workflow requirements is not needed any more.
---
 src/cwl_utils/cwl_v1_0_expression_refactor.py | 1078 ++++++-----------
 1 file changed, 363 insertions(+), 715 deletions(-)

diff --git a/src/cwl_utils/cwl_v1_0_expression_refactor.py b/src/cwl_utils/cwl_v1_0_expression_refactor.py
index d584224..3792852 100755
--- a/src/cwl_utils/cwl_v1_0_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_0_expression_refactor.py
@@ -21,8 +21,7 @@ import cwl_utils.parser
 import cwl_utils.parser.cwl_v1_0 as cwl
 import cwl_utils.parser.cwl_v1_0_utils as utils
 from cwl_utils.errors import JavascriptException, WorkflowException
-from cwl_utils.expression import do_eval, interpolate
-from cwl_utils.parser.utils import param_for_source_id
+from cwl_utils.expression import do_eval, interpolate, needs_parsing, scanner
 from cwl_utils.types import (
     CWLDirectoryType,
     CWLFileType,
@@ -30,7 +29,6 @@ from cwl_utils.types import (
     CWLOutputType,
     CWLParameterContext,
     CWLRuntimeParameterContext,
-    is_file_or_directory,
 )
 
 _DEFAULT_CWL_VERSION: Final = "v1.0"
@@ -52,7 +50,9 @@ def expand_stream_shortcuts(process: cwl.CommandLineTool) -> cwl.CommandLineTool
                 ).hexdigest()
                 result.stdout = stdout_path
             result.outputs[index].type_ = "File"
-            output.outputBinding = cwl.CommandOutputBinding(stdout_path, None, None)
+            result.outputs[index].outputBinding = cwl.CommandOutputBinding(
+                glob=stdout_path
+            )
     if result:
         return result
     return process
@@ -60,7 +60,7 @@ def expand_stream_shortcuts(process: cwl.CommandLineTool) -> cwl.CommandLineTool
 
 def escape_expression_field(contents: str) -> str:
     """Escape sequences similar to CWL expressions or param references."""
-    return contents.replace("${", "$/{").replace("$(", "$/(")
+    return contents.replace("\\", "\\\\").replace("${", "\\${").replace("$(", "\\$(")
 
 
 def clean_type_ids(
@@ -106,51 +106,47 @@ def get_expression(
 
     CWL expressions in the $() form are converted to the ${} form.
     """
-    if not isinstance(string, str):
+    if not needs_parsing(string):
         return None
-    if string.strip().startswith("${"):
+    string = string.strip()
+    whole = scanner(string) == (0, len(string))
+    if whole and string.startswith("${"):
         return string
-    if "$(" in string:
-        runtime = CWLRuntimeParameterContext(
-            cores=0,
-            ram=0,
-            outdir="/root",
-            tmpdir="/tmp",  # nosec
-            outdirSize=0,
-            tmpdirSize=0,
+    runtime = CWLRuntimeParameterContext(
+        cores=0,
+        ram=0,
+        outdir="/root",
+        tmpdir="/tmp",  # nosec
+        outdirSize=0,
+        tmpdirSize=0,
+        exitCode=0,
+    )
+    try:
+        do_eval(
+            string,
+            inputs,
+            context=self,
+            requirements=[],
+            outdir="",
+            tmpdir="",
+            resources=cast(dict[str, float | int], runtime),
+            cwlVersion=_DEFAULT_CWL_VERSION,
+        )
+    except (WorkflowException, JavascriptException):
+        if whole:
+            # it is a CWL Expression in $() with no string interpolation
+            return "${return (" + string[2:-1] + ");}"
+        # then it is a string interpolation
+        return cast(
+            str,
+            interpolate(
+                scan=string,
+                rootvars=CWLParameterContext(inputs=inputs, self=self, runtime=runtime),
+                fullJS=True,
+                escaping_behavior=1,
+                convert_to_expression=True,
+            ),
         )
-        try:
-            do_eval(
-                string,
-                inputs,
-                context=self,
-                requirements=[],
-                outdir="",
-                tmpdir="",
-                resources={},
-            )
-        except (WorkflowException, JavascriptException):
-            if (
-                string[0:2] != "$("
-                or not string.endswith(")")
-                or len(string.split("$(")) > 2
-            ):
-                # then it is a string interpolation
-                return cast(
-                    str,
-                    interpolate(
-                        scan=string,
-                        rootvars=CWLParameterContext(
-                            inputs=inputs, self=self, runtime=runtime
-                        ),
-                        fullJS=True,
-                        escaping_behavior=2,
-                        convert_to_expression=True,
-                    ),
-                )
-            else:
-                # it is a CWL Expression in $() with no string interpolation
-                return "${return " + string.strip()[2:-1] + ";}"
     return None
 
 
@@ -175,6 +171,11 @@ def etool_to_cltool(
                 doc=inp.doc,
                 format=inp.format,
                 default=inp.default,
+                inputBinding=(
+                    cwl.CommandLineBinding(loadContents=True)
+                    if inp.inputBinding and inp.inputBinding.loadContents
+                    else None
+                ),
                 type_=inp.type_,
                 extension_fields=inp.extension_fields,
                 loadingOptions=inp.loadingOptions,
@@ -195,15 +196,24 @@ def etool_to_cltool(
                 loadingOptions=outp.loadingOptions,
             )
         )
+    expression = etool.expression.strip()
+    if expression.startswith("$("):
+        expression = "${return (" + expression[2:-1] + ");}"
+    requirements: list[cwl.ProcessRequirement] = []
+    for req in [*(etool.hints or []), *(etool.requirements or [])]:
+        if isinstance(req, cwl.InlineJavascriptRequirement):
+            expressionLib = req.expressionLib
+        elif isinstance(req, cwl.SchemaDefRequirement):
+            requirements.append(req)
     contents = """"use strict";
 var inputs=$(inputs);
 var runtime=$(runtime);"""
     if expressionLib:
-        contents += "\n" + "\n".join(expressionLib)
+        contents += "\n" + escape_expression_field("\n".join(expressionLib))
     contents += (
         """
 var ret = function(){"""
-        + escape_expression_field(etool.expression.strip()[2:-1])
+        + escape_expression_field(expression[2:-1])
         + """}();
 process.stdout.write(JSON.stringify(ret));"""
     )
@@ -217,7 +227,7 @@ process.stdout.write(JSON.stringify(ret));"""
         inputs=inputs,
         outputs=outputs,
         id=etool.id,
-        requirements=[iwdr],
+        requirements=[iwdr, *requirements],
         hints=[containerReq, softwareHint],
         label=etool.label,
         doc=etool.doc,
@@ -237,6 +247,8 @@ def traverse(
     skip_command_line2: bool,
 ) -> tuple[cwl.CommandLineTool | cwl.ExpressionTool | cwl.Workflow, bool]:
     """Convert the given process and any subprocesses."""
+    if isinstance(process, cwl.Process):
+        cwl_utils.expression_refactor.relative_ids(process)
     match process:
         case cwl.CommandLineTool() if not inside:
             process = expand_stream_shortcuts(process)
@@ -288,16 +300,24 @@ def traverse(
                         )
                     )
             step = cwl.WorkflowStep(
-                id="#main",
+                id="main",
                 in_=step_inputs,
                 out=step_outputs,
                 run=copy.deepcopy(process),
             )
+            step.run.id = None
             workflow = cwl.Workflow(
+                id=process.id,
                 inputs=wf_inputs,
                 outputs=wf_outputs,
                 steps=[step],
+                requirements=[
+                    req
+                    for req in process.requirements or []
+                    if isinstance(req, cwl.SchemaDefRequirement)
+                ],
                 cwlVersion=process.cwlVersion,
+                loadingOptions=process.loadingOptions,
             )
             result, modified = traverse_workflow(
                 workflow, replace_etool, skip_command_line1, skip_command_line2
@@ -307,15 +327,7 @@ def traverse(
             else:
                 return process, False
         case cwl.ExpressionTool() if replace_etool:
-            expression = get_expression(process.expression, empty_inputs(process), None)
-            # Why call get_expression on an ExpressionTool?
-            # It normalizes the form of $() CWL expressions into the ${} style
-            if expression:
-                process2 = copy.deepcopy(process)
-                process2.expression = expression
-            else:
-                process2 = process
-            return etool_to_cltool(process2), True
+            return etool_to_cltool(process), True
         case cwl.Workflow():
             return traverse_workflow(
                 process, replace_etool, skip_command_line1, skip_command_line2
@@ -328,7 +340,8 @@ def generate_etool_from_expr(
     expr: str,
     target: cwl.CommandInputParameter | cwl.InputParameter,
     no_inputs: bool = False,
-    self_type: None | (
+    self_type: None
+    | (
         cwl.InputParameter
         | cwl.CommandInputParameter
         | list[cwl.InputParameter | cwl.CommandInputParameter]
@@ -399,7 +412,7 @@ def generate_etool_from_expr(
     expression += (
         """
   return {"result": function(){"""
-        + expr[2:-2]
+        + expr.strip()[2:-1]
         + """}()};
  }"""
     )
@@ -643,324 +656,8 @@ def process_workflow_inputs_and_outputs(
     return modified
 
 
-def process_workflow_reqs_and_hints(
-    workflow: cwl.Workflow, replace_etool: bool
-) -> bool:
-    """
-    Convert any expressions in a workflow's reqs and hints.
-
-    Each expression will be converted to an additional step.
-    The converted requirement will be copied to all workflow steps that don't have that
-    requirement type. Those affected steps will gain an additional input from the relevant
-    synthesized expression step.
-    """
-    # TODO: consolidate the generated etools/cltools into a single "_expression_workflow_reqs" step
-    # TODO: support resourceReq.* references to Workflow.inputs?
-    #       ^ By refactoring replace_expr_etool to allow multiple inputs,
-    #         and connecting all workflow inputs to the generated step
-    modified = False
-    inputs = empty_inputs(workflow)
-    generated_res_reqs: list[tuple[str, int | str]] = []
-    generated_iwdr_reqs: list[tuple[str, int | str]] = []
-    generated_envVar_reqs: list[tuple[str, int | str]] = []
-    prop_reqs: tuple[
-        (
-            type[cwl.EnvVarRequirement]
-            | type[cwl.ResourceRequirement]
-            | type[cwl.InitialWorkDirRequirement]
-        ),
-        ...,
-    ] = ()
-    resourceReq: cwl.ResourceRequirement | None = None
-    envVarReq: cwl.EnvVarRequirement | None = None
-    iwdr: cwl.InitialWorkDirRequirement | None = None
-    if workflow.requirements is not None:
-        for req in cast(list[cwl.ProcessRequirement], workflow.requirements):
-            match req:
-                case cwl.EnvVarRequirement() if req.envDef:
-                    for index, envDef in enumerate(req.envDef):
-                        if envDef.envValue:
-                            expression = get_expression(envDef.envValue, inputs, None)
-                            if expression:
-                                modified = True
-                                target = cwl.InputParameter(
-                                    id=None,
-                                    type_="string",
-                                )
-                                etool_id = (
-                                    "_expression_workflow_EnvVarRequirement_{}".format(
-                                        index
-                                    )
-                                )
-                                replace_expr_with_etool(
-                                    expression,
-                                    etool_id,
-                                    workflow,
-                                    target,
-                                    None,
-                                    replace_etool,
-                                )
-                                if envVarReq is None:
-                                    envVarReq = copy.deepcopy(req)
-                                    prop_reqs += (cwl.EnvVarRequirement,)
-                                newEnvDef = copy.deepcopy(envDef)
-                                newEnvDef.envValue = f"$(inputs._envDef{index})"
-                                envVarReq.envDef[index] = newEnvDef
-                                generated_envVar_reqs.append((etool_id, index))
-                case cwl.ResourceRequirement():
-                    for attr in cwl.ResourceRequirement.attrs:
-                        this_attr = getattr(req, attr, None)
-                        if this_attr:
-                            expression = get_expression(this_attr, inputs, None)
-                            if expression:
-                                modified = True
-                                target = cwl.InputParameter(id=None, type_="long")
-                                etool_id = "_expression_workflow_ResourceRequirement_{}".format(
-                                    attr
-                                )
-                                replace_expr_with_etool(
-                                    expression,
-                                    etool_id,
-                                    workflow,
-                                    target,
-                                    None,
-                                    replace_etool,
-                                )
-                                if not resourceReq:
-                                    resourceReq = cwl.ResourceRequirement(
-                                        loadingOptions=workflow.loadingOptions,
-                                    )
-                                    prop_reqs += (cwl.ResourceRequirement,)
-                                setattr(resourceReq, attr, f"$(inputs._{attr})")
-                                generated_res_reqs.append((etool_id, attr))
-                case cwl.InitialWorkDirRequirement() if req.listing:
-                    if isinstance(req.listing, str):
-                        expression = get_expression(req.listing, inputs, None)
-                        if expression:
-                            modified = True
-                            target = cwl.InputParameter(
-                                id=None,
-                                type_=cwl.InputArraySchema(
-                                    ["File", "Directory"], "array", None, None
-                                ),
-                            )
-                            etool_id = "_expression_workflow_InitialWorkDirRequirement"
-                            replace_expr_with_etool(
-                                expression,
-                                etool_id,
-                                workflow,
-                                target,
-                                None,
-                                replace_etool,
-                            )
-                            iwdr = cwl.InitialWorkDirRequirement(
-                                listing="$(inputs._iwdr_listing)",
-                                loadingOptions=workflow.loadingOptions,
-                            )
-                            prop_reqs += (cwl.InitialWorkDirRequirement,)
-                    else:
-                        iwdr = copy.deepcopy(req)
-                        for index, entry in enumerate(req.listing):
-                            expression = get_expression(entry, inputs, None)
-                            if expression:
-                                modified = True
-                                target = cwl.InputParameter(
-                                    id=None,
-                                    type_=cwl.InputArraySchema(
-                                        ["File", "Directory"], "array", None, None
-                                    ),
-                                )
-                                etool_id = "_expression_workflow_InitialWorkDirRequirement_{}".format(
-                                    index
-                                )
-                                replace_expr_with_etool(
-                                    expression,
-                                    etool_id,
-                                    workflow,
-                                    target,
-                                    None,
-                                    replace_etool,
-                                )
-                                iwdr.listing[index] = f"$(inputs._iwdr_listing_{index}"
-                                generated_iwdr_reqs.append((etool_id, index))
-                            elif isinstance(entry, cwl.Dirent):
-                                if entry.entry:
-                                    expression = get_expression(
-                                        entry.entry, inputs, None
-                                    )
-                                    if expression:
-                                        expr: str = expression
-                                        expr_result = do_eval(
-                                            ex=entry.entry,
-                                            jobinput=inputs,
-                                            requirements=[],
-                                            outdir="",
-                                            tmpdir="",
-                                            resources={},
-                                        )
-                                        modified = True
-                                        if is_file_or_directory(expr_result):
-                                            target = cwl.InputParameter(
-                                                id=None,
-                                                type_=expr_result["class"],
-                                            )
-                                            replace_expr_with_etool(
-                                                expr,
-                                                etool_id,
-                                                workflow,
-                                                target,
-                                                None,
-                                                replace_etool,
-                                            )
-                                            iwdr.listing[index] = (
-                                                "$(inputs._iwdr_listing_{}".format(
-                                                    index
-                                                )
-                                            )
-                                            generated_iwdr_reqs.append(
-                                                (etool_id, index)
-                                            )
-                                        elif isinstance(expr_result, str):
-                                            target = cwl.InputParameter(
-                                                id=None,
-                                                type_=["File"],
-                                            )
-                                            if entry.entryname is None:
-                                                raise SourceLine(
-                                                    entry.loadingOptions.original_doc,
-                                                    index,
-                                                    raise_type=WorkflowException,
-                                                ).makeError(
-                                                    f"Entry {index},"
-                                                    + "Invalid CWL, if 'entry' "
-                                                    "is a string, then entryName must be specified."
-                                                )
-                                            expr = (
-                                                '${return {"class": "File", "basename": "'
-                                                + entry.entryname
-                                                + '", "contents": (function(){'
-                                                + expr[2:-1]
-                                                + "})() }; }"
-                                            )
-                                        etool_id = "_expression_workflow_InitialWorkDirRequirement_{}".format(
-                                            index
-                                        )
-                                        replace_expr_with_etool(
-                                            expr,
-                                            etool_id,
-                                            workflow,
-                                            target,
-                                            None,
-                                            replace_etool,
-                                        )
-                                        iwdr.listing[index] = (
-                                            f"$(inputs._iwdr_listing_{index}"
-                                        )
-                                        generated_iwdr_reqs.append((etool_id, index))
-
-                                elif entry.entryname:
-                                    expression = get_expression(
-                                        entry.entryname, inputs, None
-                                    )
-                                    if expression:
-                                        modified = True
-                                        target = cwl.InputParameter(
-                                            id=None,
-                                            type_="string",
-                                        )
-                                        etool_id = "_expression_workflow_InitialWorkDirRequirement_{}".format(
-                                            index
-                                        )
-                                        replace_expr_with_etool(
-                                            expression,
-                                            etool_id,
-                                            workflow,
-                                            target,
-                                            None,
-                                            replace_etool,
-                                        )
-                                        iwdr.listing[index] = (
-                                            f"$(inputs._iwdr_listing_{index}"
-                                        )
-                                        generated_iwdr_reqs.append((etool_id, index))
-                        if generated_iwdr_reqs:
-                            prop_reqs += (cwl.InitialWorkDirRequirement,)
-                        else:
-                            iwdr = None
-    if envVarReq and workflow.steps:
-        for step in workflow.steps:
-            if step.id.split("#")[-1].startswith("_expression_"):
-                continue
-            if step.requirements:
-                for req in step.requirements:
-                    if isinstance(req, cwl.EnvVarRequirement):
-                        continue
-            else:
-                step.requirements = yaml.comments.CommentedSeq()
-            step.requirements.append(envVarReq)
-            for entry in generated_envVar_reqs:
-                step.in_.append(
-                    cwl.WorkflowStepInput(
-                        id=f"_envDef{entry[1]}",
-                        source=f"{entry[0]}/result",
-                    )
-                )
-
-    if resourceReq and workflow.steps:
-        for step in workflow.steps:
-            if step.id.split("#")[-1].startswith("_expression_"):
-                continue
-            if step.requirements:
-                for req in step.requirements:
-                    if isinstance(req, cwl.ResourceRequirement):
-                        continue
-            else:
-                step.requirements = yaml.comments.CommentedSeq()
-            step.requirements.append(resourceReq)
-            for entry in generated_res_reqs:
-                step.in_.append(
-                    cwl.WorkflowStepInput(
-                        id=f"_{entry[1]}",
-                        source=f"{entry[0]}/result",
-                    )
-                )
-
-    if iwdr and workflow.steps:
-        for step in workflow.steps:
-            if step.id.split("#")[-1].startswith("_expression_"):
-                continue
-            if step.requirements:
-                for req in step.requirements:
-                    if isinstance(req, cwl.InitialWorkDirRequirement):
-                        continue
-            else:
-                step.requirements = yaml.comments.CommentedSeq()
-            step.requirements.append(iwdr)
-            if generated_iwdr_reqs:
-                for entry in generated_iwdr_reqs:
-                    step.in_.append(
-                        cwl.WorkflowStepInput(
-                            id=f"_iwdr_listing_{index}",
-                            source=f"{entry[0]}/result",
-                        )
-                    )
-            else:
-                step.in_.append(
-                    cwl.WorkflowStepInput(
-                        id="_iwdr_listing",
-                        source="_expression_workflow_InitialWorkDirRequirement/result",
-                    )
-                )
-
-    if workflow.requirements:
-        workflow.requirements[:] = [
-            x for x in workflow.requirements if not isinstance(x, prop_reqs)
-        ]
-    return modified
-
-
 def process_level_reqs(
-    process: cwl_utils.parser.Process,
+    process: cwl.CommandLineTool,
     step: cwl.WorkflowStep,
     parent: cwl.Workflow,
     replace_etool: bool,
@@ -969,8 +666,8 @@ def process_level_reqs(
 ) -> bool:
     """Convert expressions inside a process into new adjacent steps."""
     # This is for reqs inside a Process (CommandLineTool, ExpressionTool)
-    # differences from process_workflow_reqs_and_hints() are:
-    # - the name of the generated ETools/CTools contains the name of the step, not "workflow"
+    # Note that:
+    # - the name of the generated ETools/CTools contains the name of the step
     # - Generated ETools/CTools are adjacent steps
     # - Replace the CWL Expression inplace with a CWL parameter reference
     # - Don't create a new Requirement, nor delete the existing Requirement
@@ -981,7 +678,7 @@ def process_level_reqs(
         return False
     modified = False
     target_process = step.run
-    inputs = cwl_utils.expression_refactor.empty_inputs(process, _DEFAULT_CWL_VERSION)
+    inputs = cwl_utils.expression_refactor.empty_inputs(process, "v1.0")
     generated_res_reqs: list[tuple[str, str]] = []
     generated_iwdr_reqs: list[tuple[str, int | str, Any]] = []
     generated_envVar_reqs: list[tuple[str, int | str]] = []
@@ -999,16 +696,16 @@ def process_level_reqs(
                         etool_id = "_expression_{}_EnvVarRequirement_{}".format(
                             step_name, env_index
                         )
-                        replace_expr_with_etool(
+                        replace_clt_hintreq_expr_with_etool(
                             expression,
                             etool_id,
                             parent,
                             target,
-                            None,
+                            step,
                             replace_etool,
                             process,
                         )
-                        target_process.requirements[req_index][
+                        target_process.requirements[req_index].envDef[
                             env_index
                         ].envValue = f"$(inputs._envDef{env_index})"
                         generated_envVar_reqs.append((etool_id, env_index))
@@ -1030,6 +727,7 @@ def process_level_reqs(
                             target,
                             step,
                             replace_etool,
+                            process,
                         )
                         setattr(
                             target_process.requirements[req_index],
@@ -1047,25 +745,23 @@ def process_level_reqs(
                 expression = get_expression(req.listing, inputs, None)
                 if expression:
                     modified = True
-                    target_type = cwl.InputArraySchema(
-                        ["File", "Directory"], "array", None, None
-                    )
+                    target_type = ["null", "Any"]
                     target = cwl.InputParameter(id=None, type_=target_type)
                     etool_id = "_expression_{}_InitialWorkDirRequirement".format(
                         step_name
                     )
-                    replace_expr_with_etool(
+                    replace_clt_hintreq_expr_with_etool(
                         expression,
                         etool_id,
                         parent,
                         target,
-                        None,
+                        step,
                         replace_etool,
                         process,
                     )
-                    target_process.requirements[req_index].listing = (
-                        "$(inputs._iwdr_listing)",
-                    )
+                    target_process.requirements[
+                        req_index
+                    ].listing = "$(inputs._iwdr_listing)"
                     step.in_.append(
                         cwl.WorkflowStepInput(
                             id="_iwdr_listing",
@@ -1074,7 +770,7 @@ def process_level_reqs(
                     )
                     cwl_utils.expression_refactor.add_input_to_process(
                         target_process,
-                        _DEFAULT_CWL_VERSION,
+                        "v1.0",
                         "_iwdr_listing",
                         target_type,
                         process.loadingOptions,
@@ -1084,9 +780,13 @@ def process_level_reqs(
                     expression = get_expression(entry, inputs, None)
                     if expression:
                         modified = True
-                        target_type = cwl.InputArraySchema(
-                            ["File", "Directory"], "array", None, None
-                        )
+                        target_type = [
+                            "File",
+                            "Directory",
+                            cwl.InputArraySchema(
+                                ["File", "Directory"], "array", None, None
+                            ),
+                        ]
                         target = cwl.InputParameter(
                             id=None,
                             type_=target_type,
@@ -1094,18 +794,18 @@ def process_level_reqs(
                         etool_id = "_expression_{}_InitialWorkDirRequirement_{}".format(
                             step_name, listing_index
                         )
-                        replace_expr_with_etool(
+                        replace_clt_hintreq_expr_with_etool(
                             expression,
                             etool_id,
                             parent,
                             target,
-                            None,
+                            step,
                             replace_etool,
                             process,
                         )
                         target_process.requirements[req_index].listing[
                             listing_index
-                        ] = f"$(inputs._iwdr_listing_{listing_index}"
+                        ] = f"$(inputs._iwdr_listing_{listing_index})"
                         generated_iwdr_reqs.append(
                             (etool_id, listing_index, target_type)
                         )
@@ -1119,16 +819,20 @@ def process_level_reqs(
                                         entry.entryname, inputs, None
                                     )
                                     entryname = (
-                                        entry.entryname
+                                        "(function(){" + entryname_expr[2:-1] + "})()"
                                         if entryname_expr
-                                        else f'"{entry.entryname}"'  # noqa: B907
+                                        else json_dumps(entry.entryname)
                                     )
+                                    if entryname_expr:
+                                        target_process.requirements[req_index].listing[
+                                            listing_index
+                                        ].entryname = None
                                     new_expression = (
                                         "${var result; var entryname = "
                                         + entryname
-                                        + "; var entry = "
-                                        + entry.entry[2:-1]
-                                        + """;
+                                        + "; var entry = (function(){"
+                                        + expression[2:-1]
+                                        + """})();
 if (typeof entry === 'string' || entry instanceof String) {
 result = {"class": "File", "basename": entryname, "contents": entry} ;
 if (typeof entryname === 'string' || entryname instanceof String) {
@@ -1157,6 +861,7 @@ return result; }"""
                                     target,
                                     step,
                                     replace_etool,
+                                    process,
                                 )
                                 target_process.requirements[req_index].listing[
                                     listing_index
@@ -1166,7 +871,7 @@ return result; }"""
                                 generated_iwdr_reqs.append(
                                     (etool_id, listing_index, d_target_type)
                                 )
-                        elif entry.entryname:
+                        if entry.entryname and not expression:
                             expression = get_expression(entry.entryname, inputs, None)
                             if expression:
                                 modified = True
@@ -1177,12 +882,12 @@ return result; }"""
                                 etool_id = "_expression_{}_InitialWorkDirRequirement_{}".format(
                                     step_name, listing_index
                                 )
-                                replace_expr_with_etool(
+                                replace_clt_hintreq_expr_with_etool(
                                     expression,
                                     etool_id,
                                     parent,
                                     target,
-                                    None,
+                                    step,
                                     replace_etool,
                                     process,
                                 )
@@ -1253,10 +958,10 @@ def traverse_CommandLineTool(
                     modified = True
                     inp_id = f"_arguments_{index}"
                     etool_id = f"_expression_{step_id}{inp_id}"
-                    target_type = "Any"
+                    target_type = ["null", "Any"]
                     target = cwl.InputParameter(id=None, type_=target_type)
                     replace_step_clt_expr_with_etool(
-                        expression, etool_id, parent, target, step, replace_etool
+                        expression, etool_id, parent, target, step, replace_etool, clt
                     )
                     target_clt.arguments[index] = (
                         cwl_utils.expression_refactor.get_command_line_binding(
@@ -1272,23 +977,21 @@ def traverse_CommandLineTool(
                         )
                     )
                     step.in_.append(
-                        cwl.WorkflowStepInput(
-                            f"{etool_id}/result", None, inp_id, None, None
-                        )
+                        cwl.WorkflowStepInput(id=inp_id, source=f"{etool_id}/result")
                     )
                     cwl_utils.expression_refactor.remove_JSReq(
-                        target_clt, skip_command_line1
+                        target_clt, skip_command_line1 or skip_command_line2
                     )
-            elif isinstance(arg, cwl_utils.parser.CommandLineBinding) and arg.valueFrom:
+            elif isinstance(arg, cwl.CommandLineBinding) and arg.valueFrom:
                 expression = get_expression(arg.valueFrom, inputs, None)
                 if expression:
                     modified = True
                     inp_id = f"_arguments_{index}"
                     etool_id = f"_expression_{step_id}{inp_id}"
-                    target_type = "Any"
+                    target_type = ["null", "Any"]
                     target = cwl.InputParameter(id=None, type_=target_type)
                     replace_step_clt_expr_with_etool(
-                        expression, etool_id, parent, target, step, replace_etool
+                        expression, etool_id, parent, target, step, replace_etool, clt
                     )
                     target_clt.arguments[index].valueFrom = "$(inputs.{})".format(
                         inp_id
@@ -1304,7 +1007,7 @@ def traverse_CommandLineTool(
                         cwl.WorkflowStepInput(id=inp_id, source=f"{etool_id}/result")
                     )
                     cwl_utils.expression_refactor.remove_JSReq(
-                        target_clt, skip_command_line1
+                        target_clt, skip_command_line1 or skip_command_line2
                     )
     for streamtype in "stdout", "stderr":  # add 'stdin' for v1.1 version
         stream_value = getattr(clt, streamtype)
@@ -1317,7 +1020,7 @@ def traverse_CommandLineTool(
                 target_type = "string"
                 target = cwl.InputParameter(id=None, type_=target_type)
                 replace_step_clt_expr_with_etool(
-                    expression, etool_id, parent, target, step, replace_etool
+                    expression, etool_id, parent, target, step, replace_etool, clt
                 )
                 setattr(target_clt, streamtype, f"$(inputs.{inp_id})")
                 target_clt.inputs.append(
@@ -1330,7 +1033,7 @@ def traverse_CommandLineTool(
                 step.in_.append(
                     cwl.WorkflowStepInput(id=inp_id, source=f"{etool_id}/result")
                 )
-    for inp in clt.inputs:
+    for index, inp in enumerate(clt.inputs):
         if not skip_command_line1 and inp.inputBinding and inp.inputBinding.valueFrom:
             expression = get_expression(
                 inp.inputBinding.valueFrom, inputs, example_input(inp.type_)
@@ -1340,19 +1043,36 @@ def traverse_CommandLineTool(
                 self_id = inp.id.split("#")[-1]
                 inp_id = f"_{self_id}_valueFrom"
                 etool_id = f"_expression_{step_id}{inp_id}"
+                if isinstance(inp.type_, MutableSequence) and "null" in inp.type_:
+                    # the expression is not evaluated without a value
+                    expression = (
+                        "${if (self === null) {return null;}\n" + expression.strip()[2:]
+                    )
+                target_type = ["null", "Any"]
+                target = cwl.InputParameter(id=None, type_=target_type)
                 replace_step_clt_expr_with_etool(
-                    expression, etool_id, parent, inp, step, replace_etool, self_id
+                    expression,
+                    etool_id,
+                    parent,
+                    target,
+                    step,
+                    replace_etool,
+                    clt,
+                    self_id,
                 )
-                inp.inputBinding.valueFrom = f"$(inputs.{inp_id})"
+                target_clt.inputs[index].inputBinding.valueFrom = f"$(inputs.{inp_id})"
                 target_clt.inputs.append(
                     cwl_utils.expression_refactor.get_command_input_parameter(
-                        target_clt.cwlVersion or _DEFAULT_CWL_VERSION, inp_id, inp.type_
+                        target_clt.cwlVersion or _DEFAULT_CWL_VERSION,
+                        inp_id,
+                        target_type,
                     )
                 )
                 step.in_.append(
                     cwl.WorkflowStepInput(id=inp_id, source=f"{etool_id}/result")
                 )
-    for outp in clt.outputs:
+    output_evals: list[tuple[cwl_utils.parser.CommandOutputParameter, str]] = []
+    for index, outp in enumerate(clt.outputs):
         if outp.outputBinding:
             if outp.outputBinding.glob:
                 expression = get_expression(outp.outputBinding.glob, inputs, None)
@@ -1363,9 +1083,9 @@ def traverse_CommandLineTool(
                     glob_target_type = ["string", ArraySchema("string", "array")]
                     target = cwl.InputParameter(id=None, type_=glob_target_type)
                     replace_step_clt_expr_with_etool(
-                        expression, etool_id, parent, target, step, replace_etool
+                        expression, etool_id, parent, target, step, replace_etool, clt
                     )
-                    outp.outputBinding.glob = f"$(inputs.{inp_id})"
+                    target_clt.outputs[index].outputBinding.glob = f"$(inputs.{inp_id})"
                     target_clt.inputs.append(
                         cwl_utils.expression_refactor.get_command_input_parameter(
                             target_clt.cwlVersion or _DEFAULT_CWL_VERSION,
@@ -1388,158 +1108,156 @@ def traverse_CommandLineTool(
                     }
                 ]
                 if outp.outputBinding.loadContents:
-                    cast(dict[Any, Any], self)[0]["contents"] = "stuff"
+                    cast(list[dict[str, Any]], self)[0]["contents"] = "stuff"
                 expression = get_expression(outp.outputBinding.outputEval, inputs, self)
                 if expression:
                     modified = True
-                    outp_id = outp.id.split("#")[-1]
-                    inp_id = f"_{outp_id}_outputEval"
-                    etool_id = f"expression{inp_id}"
-                    sub_wf_outputs = cltool_step_outputs_to_workflow_outputs(
-                        step, etool_id, outp_id
-                    )
-                    self_type = cwl.InputParameter(
-                        id=None,
-                        type_=cwl.InputArraySchema("File", "array", None, None),
-                    )
-                    etool = generate_etool_from_expr(
-                        expression, outp, False, self_type, [clt, step, parent]
-                    )
-                    if outp.outputBinding.loadContents:
-                        etool.inputs[0].type_.inputBinding = (
-                            cwl_utils.expression_refactor.get_command_line_binding(
-                                etool.cwlVersion or _DEFAULT_CWL_VERSION,
-                                loadContents=True,
-                            )
-                        )
-                    etool.inputs.extend(
-                        cwl_utils.expression_refactor.cltool_inputs_to_etool_inputs(
-                            clt, _DEFAULT_CWL_VERSION
-                        )
-                    )
-                    sub_wf_inputs = (
-                        cwl_utils.expression_refactor.cltool_inputs_to_etool_inputs(
-                            clt, _DEFAULT_CWL_VERSION
-                        )
-                    )
-                    orig_step_inputs = copy.deepcopy(step.in_)
-                    for orig_step_input in orig_step_inputs:
-                        orig_step_input.id = orig_step_input.id.split("/")[-1]
-                        if isinstance(orig_step_input.source, MutableSequence):
-                            for index, source in enumerate(orig_step_input.source):
-                                orig_step_input.source[index] = source.split("#")[-1]
-                        else:
-                            orig_step_input.source = orig_step_input.source.split("#")[
-                                -1
-                            ]
-                    orig_step_inputs[:] = [
-                        x for x in orig_step_inputs if not x.id.startswith("_")
-                    ]
-                    for inp in orig_step_inputs:
-                        inp.source = inp.id
-                        inp.linkMerge = None
-                    final_etool: (
-                        cwl_utils.parser.CommandLineTool
-                        | cwl_utils.parser.ExpressionTool
-                    )
-                    if replace_etool:
-                        final_etool = cwl_utils.expression_refactor.etool_to_cltool(
-                            etool,
-                            _DEFAULT_CWL_VERSION,
-                            cwl_utils.expression_refactor.find_expressionLib([parent]),
-                        )
-                    else:
-                        final_etool = etool
-                    etool_step = cwl.WorkflowStep(
-                        id=etool_id,
-                        in_=orig_step_inputs,
-                        out=[cwl.WorkflowStepOutput("result")],
-                        run=final_etool,
-                        scatterMethod=step.scatterMethod,
-                    )
-                    new_clt_step = copy.copy(
-                        step
-                    )  # a deepcopy would be convenient, but params2.cwl gives it problems
-                    new_clt_step.id = new_clt_step.id.split("#")[-1]
-                    new_clt_step.run = copy.copy(step.run)
-                    new_clt_step.run.id = None
-                    cwl_utils.expression_refactor.remove_JSReq(
-                        new_clt_step.run, skip_command_line1
-                    )
-                    cwl_utils.expression_refactor.process_CommandLineTool_output(
-                        new_clt_step.run, _DEFAULT_CWL_VERSION, outp_id
-                    )
-                    new_clt_step.in_ = copy.deepcopy(step.in_)
-                    for inp in new_clt_step.in_:
-                        inp.id = inp.id.split("/")[-1]
-                        inp.source = inp.id
-                        inp.linkMerge = None
-                    for index, out in enumerate(new_clt_step.out):
-                        new_clt_step.out[index] = out.split("/")[-1]
-                    for tool_inp in new_clt_step.run.inputs:
-                        tool_inp.id = tool_inp.id.split("#")[-1]
-                    for tool_out in new_clt_step.run.outputs:
-                        tool_out.id = tool_out.id.split("#")[-1]
-                    sub_wf_steps = [new_clt_step, etool_step]
-                    sub_workflow = cwl.Workflow(
-                        inputs=sub_wf_inputs,
-                        outputs=sub_wf_outputs,
-                        steps=sub_wf_steps,
-                        cwlVersion=parent.cwlVersion,
-                    )
-                    if step.scatter:
-                        new_clt_step.scatter = None
-                    step.run = sub_workflow
-                    rename_step_source(
-                        sub_workflow,
-                        f"{step_id}/{outp_id}",
-                        f"{etool_id}/result",
-                    )
-                    orig_step_inputs.append(
-                        cwl.WorkflowStepInput(id="self", source=f"{step_id}/{outp_id}")
-                    )
-                    if not parent.requirements:
-                        parent.requirements = [cwl.SubworkflowFeatureRequirement()]
-                    else:
-                        has_sub_wf_req = False
-                        for req in parent.requirements:
-                            if isinstance(req, cwl.SubworkflowFeatureRequirement):
-                                has_sub_wf_req = True
-                        if not has_sub_wf_req:
-                            parent.requirements.append(
-                                cwl.SubworkflowFeatureRequirement()
-                            )
+                    output_evals.append((outp, expression))
+    if output_evals:
+        replace_outputEvals_with_etools(
+            clt, output_evals, parent, step, replace_etool, skip_command_line1
+        )
     return modified
 
 
-def rename_step_source(workflow: cwl.Workflow, old: str, new: str) -> None:
-    """Update step source names to the new name."""
+def replace_outputEvals_with_etools(
+    clt: cwl_utils.parser.CommandLineTool,
+    output_evals: list[tuple[cwl_utils.parser.CommandOutputParameter, str]],
+    parent: cwl.Workflow,
+    step: cwl.WorkflowStep,
+    replace_etool: bool,
+    skip_command_line1: bool,
+) -> None:
+    """Run the CommandLineTool and an ExpressionTool per outputEval in a sub-workflow."""
+    target_clt = step.run
+    step_id = step.id.split("#")[-1]
+    sub_wf_inputs = yaml.comments.CommentedSeq()
+    step_inputs = []
+    for clt_inp in target_clt.inputs:
+        clt_inp_id = clt_inp.id.split("#")[-1].split("/")[-1]
+        step_inputs.append(cwl.WorkflowStepInput(id=clt_inp_id, source=clt_inp_id))
+        if clt_inp_id.startswith("_"):
+            sub_wf_inputs.append(cwl.InputParameter(id=clt_inp_id, type_=clt_inp.type_))
+    sub_wf_inputs[:0] = cltool_inputs_to_etool_inputs(clt)
+    sub_wf_outputs = cltool_step_outputs_to_workflow_outputs(
+        step,
+        {outp.id.split("#")[-1].split("/")[-1] for outp, _ in output_evals},
+    )
+    clt_step = cwl.WorkflowStep(
+        id=step_id,
+        in_=step_inputs,
+        out=[outp.id.split("#")[-1].split("/")[-1] for outp in target_clt.outputs],
+        run=target_clt,
+    )
+    sub_wf_steps = [clt_step]
+    for outp, expression in output_evals:
+        outp_id = outp.id.split("#")[-1].split("/")[-1]
+        self_type = cwl.InputParameter(
+            id=None,
+            type_=cwl.InputArraySchema("File", "array", None, None),
+        )
+        etool = generate_etool_from_expr(
+            expression, outp, False, self_type, [parent, step, clt]
+        )
+        if outp.outputBinding.loadContents:
+            etool.inputs[0].inputBinding = cwl.CommandLineBinding(loadContents=True)
+        etool.inputs.extend(cltool_inputs_to_etool_inputs(clt))
+        sub_wf_steps.append(
+            cwl.WorkflowStep(
+                id=f"expression_{outp_id}_outputEval",
+                in_=[
+                    *(copy.copy(x) for x in step_inputs if not x.id.startswith("_")),
+                    cwl.WorkflowStepInput(id="self", source=f"{step_id}/{outp_id}"),
+                ],
+                out=[cwl.WorkflowStepOutput("result")],
+                run=etool_to_cltool(etool) if replace_etool else etool,
+            )
+        )
+        cwl_utils.expression_refactor.process_CommandLineTool_output(
+            target_clt, _DEFAULT_CWL_VERSION, outp_id
+        )
+    target_clt.id = None
+    cwl_utils.expression_refactor.remove_JSReq(target_clt, skip_command_line1)
+    step.run = cwl.Workflow(
+        inputs=sub_wf_inputs,
+        outputs=sub_wf_outputs,
+        steps=sub_wf_steps,
+        requirements=[
+            req
+            for req in clt.requirements or []
+            if isinstance(req, cwl.SchemaDefRequirement)
+        ],
+        cwlVersion=parent.cwlVersion,
+    )
+    require_sub_workflows(parent)
 
-    def simplify_wf_id(uri: str) -> str:
-        return uri.split("#")[-1].split("/", 1)[1]
 
-    def simplify_step_id(uri: str) -> str:
-        return uri.split("#")[-1]
+def require_sub_workflows(workflow: cwl.Workflow) -> None:
+    """Add a SubworkflowFeatureRequirement if there is none."""
+    workflow.requirements = workflow.requirements or []
+    if not any(
+        isinstance(req, cwl.SubworkflowFeatureRequirement)
+        for req in workflow.requirements
+    ):
+        workflow.requirements.append(cwl.SubworkflowFeatureRequirement())
 
-    for wf_outp in workflow.outputs:
-        if wf_outp.outputSource and simplify_wf_id(wf_outp.outputSource) == old:
-            wf_outp.outputSource = new
-    for step in workflow.steps:
-        if step.in_:
-            for inp in step.in_:
-                if inp.source:
-                    if isinstance(inp.source, str):
-                        source_id = (
-                            simplify_step_id(inp.source)
-                            if "#" in inp.source
-                            else inp.source
-                        )
-                        if source_id == old:
-                            inp.source = new
-                    else:
-                        for index, source in enumerate(inp.source):
-                            if simplify_step_id(source) == old:
-                                inp.source[index] = new
+
+def traverse_scattered_step(
+    step: cwl.WorkflowStep,
+    parent: cwl.Workflow,
+    replace_etool: bool,
+    skip_command_line1: bool,
+    skip_command_line2: bool,
+) -> bool:
+    """Refactor what is run for every job of a scattered step into a sub-workflow."""
+    inner_step = copy.copy(step)
+    inner_step.run = copy.deepcopy(step.run)
+    inner_step.scatter = None
+    inner_step.scatterMethod = None
+    inner_step.in_ = []
+    inputs = []
+    for inp in step.in_:
+        inp_id = inp.id.split("/")[-1]
+        inner_step.in_.append(
+            cwl.WorkflowStepInput(
+                id=inp_id,
+                source=inp_id,
+                valueFrom=inp.valueFrom,
+            )
+        )
+        inputs.append(cwl.InputParameter(id=inp_id, type_=["null", "Any"]))
+    outputs = [
+        output
+        for output in cltool_step_outputs_to_workflow_outputs(step, set())
+        if output.id in step.out
+    ]
+    workflow = cwl.Workflow(
+        inputs=inputs,
+        outputs=outputs,
+        steps=[inner_step],
+        requirements=[
+            req
+            for req in parent.requirements or []
+            if isinstance(
+                req, (cwl.InlineJavascriptRequirement, cwl.SchemaDefRequirement)
+            )
+        ],
+        hints=[
+            hint
+            for hint in parent.hints or []
+            if isinstance(hint, cwl.InlineJavascriptRequirement)
+        ],
+        loadingOptions=parent.loadingOptions,
+    )
+    workflow, modified = traverse_workflow(
+        workflow, replace_etool, skip_command_line1, skip_command_line2
+    )
+    if modified:
+        step.run = workflow
+        for inp in step.in_:
+            inp.valueFrom = None
+        require_sub_workflows(parent)
+    return modified
 
 
 def replace_step_clt_expr_with_etool(
@@ -1549,11 +1267,12 @@ def replace_step_clt_expr_with_etool(
     target: cwl.InputParameter,
     step: cwl.WorkflowStep,
     replace_etool: bool,
+    process: cwl_utils.parser.CommandLineTool,
     self_name: str | None = None,
 ) -> None:
     """Convert a step level CWL Expression to a sibling expression step."""
     etool_inputs = cwl_utils.expression_refactor.cltool_inputs_to_etool_inputs(
-        step.run, _DEFAULT_CWL_VERSION
+        process, _DEFAULT_CWL_VERSION
     )
     temp_etool = cwl_utils.expression_refactor.generate_etool_from_expr2(
         expr,
@@ -1561,8 +1280,8 @@ def replace_step_clt_expr_with_etool(
         target,
         etool_inputs,
         self_name,
-        step.run,
-        [workflow],
+        process,
+        [workflow, step, process],
     )
     etool: cwl_utils.parser.CommandLineTool | cwl_utils.parser.ExpressionTool
     if replace_etool:
@@ -1595,12 +1314,13 @@ def replace_clt_hintreq_expr_with_etool(
     target: cwl.InputParameter,
     step: cwl.WorkflowStep,
     replace_etool: bool,
+    process: cwl_utils.parser.CommandLineTool,
     self_name: str | None = None,
 ) -> None:
     """Factor out an expression inside a CommandLineTool req or hint into a sibling step."""
     # Same as replace_step_clt_expr_with_etool or different?
     etool_inputs = cwl_utils.expression_refactor.cltool_inputs_to_etool_inputs(
-        step.run, _DEFAULT_CWL_VERSION
+        process, _DEFAULT_CWL_VERSION
     )
     temp_etool = cwl_utils.expression_refactor.generate_etool_from_expr2(
         expr,
@@ -1608,8 +1328,8 @@ def replace_clt_hintreq_expr_with_etool(
         target,
         etool_inputs,
         self_name,
-        step.run,
-        [workflow],
+        process,
+        [workflow, step, process],
     )
     etool: cwl_utils.parser.CommandLineTool | cwl_utils.parser.ExpressionTool
     if replace_etool:
@@ -1654,6 +1374,12 @@ def cltool_inputs_to_etool_inputs(
                         format=clt_inp.format,
                         default=clt_inp.default,
                         type_=clt_inp.type_,
+                        inputBinding=(
+                            cwl.CommandLineBinding(loadContents=True)
+                            if clt_inp.inputBinding
+                            and clt_inp.inputBinding.loadContents
+                            else None
+                        ),
                         extension_fields=clt_inp.extension_fields,
                         loadingOptions=clt_inp.loadingOptions,
                     )
@@ -1662,7 +1388,7 @@ def cltool_inputs_to_etool_inputs(
 
 
 def cltool_step_outputs_to_workflow_outputs(
-    cltool_step: cwl.WorkflowStep, etool_step_id: str, etool_out_id: str
+    cltool_step: cwl.WorkflowStep, etool_out_ids: set[str]
 ) -> list[cwl.OutputParameter]:
     """
     Copy CommandLineTool outputs into the equivalent Workflow output parameters.
@@ -1677,8 +1403,8 @@ def cltool_step_outputs_to_workflow_outputs(
     if cltool_step.run.outputs:
         for clt_out in cltool_step.run.outputs:
             clt_out_id = clt_out.id.split("#")[-1].split("/")[-1]
-            if clt_out_id == etool_out_id:
-                outputSource = f"{etool_step_id}/result"
+            if clt_out_id in etool_out_ids:
+                outputSource = f"expression_{clt_out_id}_outputEval/result"
             else:
                 outputSource = f"{default_step_id}/{clt_out_id}"
             if not clt_out_id.startswith("_"):
@@ -1691,7 +1417,11 @@ def cltool_step_outputs_to_workflow_outputs(
                         doc=clt_out.doc,
                         format=clt_out.format,
                         outputSource=outputSource,
-                        type_=clt_out.type_,
+                        type_=(
+                            "File"
+                            if clt_out.type_ in ("stdout", "stderr")
+                            else clt_out.type_
+                        ),
                         extension_fields=clt_out.extension_fields,
                         loadingOptions=clt_out.loadingOptions,
                     )
@@ -1701,8 +1431,10 @@ def cltool_step_outputs_to_workflow_outputs(
 
 def generate_etool_from_expr2(
     expr: str,
-    target: cwl.InputParameter,
-    inputs: Sequence[cwl.InputParameter | cwl.CommandOutputParameter],
+    target: cwl.CommandInputParameter | cwl.InputParameter,
+    inputs: Sequence[
+        cwl.CommandInputParameter | cwl.CommandOutputParameter | cwl.InputParameter
+    ],
     expression_lib: list[str] | None,
     hints: Sequence[Any],
     requirements: Sequence[cwl.ProcessRequirement],
@@ -1727,7 +1459,7 @@ def generate_etool_from_expr2(
     expression += (
         """
   return {"result": function(){"""
-        + expr[2:-2]
+        + expr.strip()[2:-1]
         + """}()};
  }"""
     )
@@ -1759,40 +1491,10 @@ def traverse_step(
     original_step_ins = copy.deepcopy(step.in_)
     for inp in step.in_:
         if inp.valueFrom:
-            if not inp.source:
-                self = None
-            else:
-                if isinstance(inp.source, MutableSequence):
-                    self = []
-                    for source in inp.source:
-                        if not step.scatter:
-                            self.append(
-                                example_input(
-                                    utils.type_for_source(parent, source.split("#")[-1])
-                                )
-                            )
-                        else:
-                            scattered_source_type = utils.type_for_source(
-                                parent, source
-                            )
-                            if isinstance(scattered_source_type, list):
-                                for stype in scattered_source_type:
-                                    self.append(example_input(stype.type_))
-                            else:
-                                self.append(example_input(scattered_source_type.type_))
-                else:
-                    if not step.scatter:
-                        self = example_input(
-                            utils.type_for_source(parent, inp.source.split("#")[-1])
-                        )
-                    else:
-                        scattered_source_type2 = utils.type_for_source(
-                            parent, inp.source
-                        )
-                        if isinstance(scattered_source_type2, list):
-                            self = example_input(scattered_source_type2[0].type_)
-                        else:
-                            self = example_input(scattered_source_type2.type_)
+            self: CWLOutputType | None = None
+            if inp.source:
+                with suppress(WorkflowException):
+                    self = example_input(utils.type_for_source(parent, inp.source))
             expression = get_expression(inp.valueFrom, inputs, self)
             if expression:
                 modified = True
@@ -1801,27 +1503,7 @@ def traverse_step(
                     inp.id, original_process
                 )
                 if not target:
-                    raise WorkflowException("target not found")
-                input_source_id = None
-                if inp.source:
-                    if isinstance(inp.source, MutableSequence):
-                        input_source_id = []
-                        source_types: list[cwl.InputParameter] = []
-                        for source in inp.source:
-                            source_id = source.split("#")[-1]
-                            input_source_id.append(source_id)
-                            temp_type = utils.type_for_source(
-                                step.run, source_id, parent
-                            )
-                            if isinstance(temp_type, list):
-                                for ttype in temp_type:
-                                    if ttype not in source_types:
-                                        source_types.append(ttype)
-                            else:
-                                if temp_type not in source_types:
-                                    source_types.append(temp_type)
-                    else:
-                        input_source_id = inp.source.split("#")[-1]
+                    target = cwl.InputParameter(id=None, type_=["null", "Any"])
                 # target.id = target.id.split('#')[-1]
                 if isinstance(original_process, cwl_utils.parser.ExpressionTool):
                     reqs: list[cwl.ProcessRequirement] = []
@@ -1854,23 +1536,24 @@ def traverse_step(
                     inp,
                     original_process,
                     original_step_ins,
-                    input_source_id,
                     replace_etool,
                 )
                 inp.valueFrom = None
                 inp.source = f"{etool_id}/result"
+                inp.linkMerge = None
+                inp.default = None
     # TODO: skip or special process for sub workflows?
-    process_modified = process_level_reqs(
-        original_process,
-        step,
-        parent,
-        replace_etool,
-        skip_command_line1,
-        skip_command_line2,
-    )
-    if process_modified:
-        modified = True
     if isinstance(original_process, cwl_utils.parser.CommandLineTool):
+        process_modified = process_level_reqs(
+            original_process,
+            step,
+            parent,
+            replace_etool,
+            skip_command_line1,
+            skip_command_line2,
+        )
+        if process_modified:
+            modified = True
         clt_modified = traverse_CommandLineTool(
             original_process,
             parent,
@@ -1885,38 +1568,18 @@ def traverse_step(
 
 
 def workflow_step_to_InputParameters(
-    step_ins: list[cwl.WorkflowStepInput], parent: cwl.Workflow, except_in_id: str
-) -> list[
-    cwl_utils.parser.CommandInputParameter
-    | cwl_utils.parser.CommandOutputParameter
-    | cwl_utils.parser.WorkflowInputParameter
-]:
+    step_ins: list[cwl.WorkflowStepInput],
+) -> list[cwl.InputParameter]:
     """Create InputParameters to match the given WorkflowStep inputs."""
-    params = []
-    for inp in step_ins:
-        if not inp.id:
-            continue
-        inp_id = inp.id.split("#")[-1].split("/")[-1]
-        if inp.source and inp_id != except_in_id:
-            param = copy.deepcopy(param_for_source_id(parent, sourcenames=inp.source))
-            if isinstance(param, MutableSequence):
-                for p in param:
-                    if not p.type_:
-                        raise WorkflowException(
-                            f"Don't know how to get type id for {p!r}."
-                        )
-                    p.id = inp_id
-                    p.type_ = clean_type_ids(p.type_)
-                    params.append(p)
-            else:
-                if not param.type_:
-                    raise WorkflowException(
-                        f"Don't know how to get type id for {param!r}."
-                    )
-                param.id = inp_id
-                param.type_ = clean_type_ids(param.type_)
-                params.append(param)
-    return params
+    # TODO: would be nicer to derive proper types; but in the face of linkMerge, pickValue,
+    #       and default, this is easier for now
+    return [
+        cwl.InputParameter(
+            id=inp.id.split("#")[-1].split("/")[-1],
+            type_=["null", "Any"],
+        )
+        for inp in step_ins
+    ]
 
 
 def replace_step_valueFrom_expr_with_etool(
@@ -1932,26 +1595,19 @@ def replace_step_valueFrom_expr_with_etool(
     step_inp: cwl.WorkflowStepInput,
     original_process: cwl_utils.parser.Process,
     original_step_ins: list[cwl.WorkflowStepInput],
-    source: str | list[str] | None,
     replace_etool: bool,
 ) -> None:
     """Replace a WorkflowStep level 'valueFrom' expression with a sibling ExpressionTool step."""
     if not step_inp.id:
         raise WorkflowException(f"Missing id in {step_inp}.")
     step_inp_id = step_inp.id.split("/")[-1]
-    etool_inputs = workflow_step_to_InputParameters(
-        original_step_ins, workflow, step_inp_id
-    )
-    if source:
-        source_param = cwl.InputParameter(id="self", type_="Any")
-        # TODO: would be nicer to derive a proper type; but in the face of linkMerge, this is easier for now
-        etool_inputs.append(source_param)
+    etool_inputs = workflow_step_to_InputParameters(original_step_ins)
     temp_etool = cwl_utils.expression_refactor.generate_etool_from_expr2(
         expr,
         _DEFAULT_CWL_VERSION,
         target,
         etool_inputs,
-        "self" if source else None,
+        step_inp_id,
         original_process,
         [workflow, step],
     )
@@ -1971,9 +1627,9 @@ def replace_step_valueFrom_expr_with_etool(
     else:
         etool = temp_etool
     wf_step_inputs = copy.deepcopy(original_step_ins)
-    if source:
-        wf_step_inputs.append(cwl.WorkflowStepInput(id="self", source=step_inp.source))
     for wf_step_input in wf_step_inputs:
+        if not wf_step_input.id:
+            continue
         wf_step_input.id = wf_step_input.id.split("/")[-1]
         if wf_step_input.valueFrom:
             wf_step_input.valueFrom = None
@@ -1983,30 +1639,12 @@ def replace_step_valueFrom_expr_with_etool(
                     wf_step_input.source[index] = inp_source.split("#")[-1]
             else:
                 wf_step_input.source = wf_step_input.source.split("#")[-1]
-    wf_step_inputs[:] = [
-        x
-        for x in wf_step_inputs
-        if x.id and not (x.id.startswith("_") or x.id.endswith(step_inp_id))
-    ]
-    scatter = copy.deepcopy(step.scatter)
-    if isinstance(scatter, str):
-        scatter = [scatter]
-    if isinstance(scatter, MutableSequence):
-        for index, entry in enumerate(scatter):
-            scatter[index] = entry.split("/")[-1]
-    if scatter and step_inp_id in scatter:
-        scatter = ["self"]
-    # do we still need to scatter?
-    else:
-        scatter = None
     workflow.steps.append(
         cwl.WorkflowStep(
             id=name,
             in_=wf_step_inputs,
             out=[cwl.WorkflowStepOutput("result")],
             run=etool,
-            scatter=scatter,
-            scatterMethod=step.scatterMethod,
         )
     )
 
@@ -2020,26 +1658,36 @@ def traverse_workflow(
     """Traverse a workflow, processing each step."""
     modified = False
     for index, step in enumerate(workflow.steps):
+        if isinstance(step.run, cwl.Process):
+            cwl_utils.expression_refactor.inherit_JSReq(
+                step.run, _DEFAULT_CWL_VERSION, [workflow, step]
+            )
+            cwl_utils.expression_refactor.inherit_requirements(step.run, step, workflow)
         if isinstance(step.run, cwl.ExpressionTool) and replace_etool:
             workflow.steps[index].run = etool_to_cltool(step.run)
             modified = True
+        elif isinstance(step.run, cwl.Workflow):
+            step.run, step_modified = traverse_workflow(
+                step.run, replace_etool, skip_command_line1, skip_command_line2
+            )
+            if step_modified:
+                modified = True
         else:
             step_modified = cwl_utils.expression_refactor.load_step(
-                step, replace_etool, skip_command_line1, skip_command_line2
+                step, replace_etool, skip_command_line1, skip_command_line2, workflow
             )
             if step_modified:
                 modified = True
-    for step in workflow.steps:
+    for step in list(workflow.steps):
         if not step.id.startswith("_expression"):
-            step_modified = traverse_step(
-                step, workflow, replace_etool, skip_command_line1, skip_command_line2
-            )
+            step_modified = (
+                traverse_scattered_step if step.scatter else traverse_step
+            )(step, workflow, replace_etool, skip_command_line1, skip_command_line2)
             if step_modified:
                 modified = True
     if process_workflow_inputs_and_outputs(workflow, replace_etool):
         modified = True
-    if process_workflow_reqs_and_hints(workflow, replace_etool):
-        modified = True
+    cwl_utils.expression_refactor.drop_inherited_requirements(workflow)
     if workflow.requirements:
         workflow.requirements[:] = [
             x
-- 
2.43.0


From 4fc95e1f05d9a7076dea791bd15fb9eeb03f27ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:13 +0000
Subject: [PATCH 73/78] fix: leave out the bindings of a tool's types where
 expression refactoring copies them to other processes

---
 src/cwl_utils/cwl_v1_0_expression_refactor.py | 30 ++++++++++++++-----
 src/cwl_utils/cwl_v1_1_expression_refactor.py | 29 +++++++++++++-----
 src/cwl_utils/cwl_v1_2_expression_refactor.py | 29 +++++++++++++-----
 src/cwl_utils/expression_refactor.py          | 27 +++++++++++++++++
 4 files changed, 91 insertions(+), 24 deletions(-)

diff --git a/src/cwl_utils/cwl_v1_0_expression_refactor.py b/src/cwl_utils/cwl_v1_0_expression_refactor.py
index 3792852..bf261f4 100755
--- a/src/cwl_utils/cwl_v1_0_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_0_expression_refactor.py
@@ -276,7 +276,9 @@ def traverse(
                             doc=inp.doc,
                             format=inp.format,
                             default=inp.default,
-                            type_=inp.type_,
+                            type_=cwl_utils.expression_refactor.workflow_type(
+                                inp.type_
+                            ),
                             extension_fields=inp.extension_fields,
                             loadingOptions=inp.loadingOptions,
                         )
@@ -294,7 +296,9 @@ def traverse(
                             doc=outp.doc,
                             format=outp.format,
                             outputSource=f"main/{outp_id}",
-                            type_=outp.type_,
+                            type_=cwl_utils.expression_refactor.workflow_type(
+                                outp.type_
+                            ),
                             extension_fields=outp.extension_fields,
                             loadingOptions=outp.loadingOptions,
                         )
@@ -360,9 +364,15 @@ def generate_etool_from_expr(
                 list[ArraySchema | cwl.InputRecordSchema]
                 | ArraySchema
                 | cwl.InputRecordSchema
-            ) = [clean_type_ids(t.type_) for t in self_type if t.type_]
+            ) = [
+                clean_type_ids(cwl_utils.expression_refactor.workflow_type(t.type_))
+                for t in self_type
+                if t.type_
+            ]
         elif self_type.type_:
-            new_type = clean_type_ids(self_type.type_)
+            new_type = clean_type_ids(
+                cwl_utils.expression_refactor.workflow_type(self_type.type_)
+            )
         else:
             raise WorkflowException(f"Don't know how to make type from {self_type!r}.")
         inputs.append(
@@ -401,7 +411,7 @@ def generate_etool_from_expr(
             streamable=target.streamable,
             doc=target.doc,
             format=target.format,
-            type_=target.type_,
+            type_=cwl_utils.expression_refactor.workflow_type(target.type_),
             extension_fields=target.extension_fields,
             loadingOptions=target.loadingOptions,
         )
@@ -1373,7 +1383,9 @@ def cltool_inputs_to_etool_inputs(
                         doc=clt_inp.doc,
                         format=clt_inp.format,
                         default=clt_inp.default,
-                        type_=clt_inp.type_,
+                        type_=cwl_utils.expression_refactor.workflow_type(
+                            clt_inp.type_
+                        ),
                         inputBinding=(
                             cwl.CommandLineBinding(loadContents=True)
                             if clt_inp.inputBinding
@@ -1420,7 +1432,9 @@ def cltool_step_outputs_to_workflow_outputs(
                         type_=(
                             "File"
                             if clt_out.type_ in ("stdout", "stderr")
-                            else clt_out.type_
+                            else cwl_utils.expression_refactor.workflow_type(
+                                clt_out.type_
+                            )
                         ),
                         extension_fields=clt_out.extension_fields,
                         loadingOptions=clt_out.loadingOptions,
@@ -1450,7 +1464,7 @@ def generate_etool_from_expr2(
             streamable=target.streamable,
             doc=target.doc,
             format=target.format,
-            type_=target.type_,
+            type_=cwl_utils.expression_refactor.workflow_type(target.type_),
         )
     )
     expression = "${"
diff --git a/src/cwl_utils/cwl_v1_1_expression_refactor.py b/src/cwl_utils/cwl_v1_1_expression_refactor.py
index 48abde5..27a2574 100755
--- a/src/cwl_utils/cwl_v1_1_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_1_expression_refactor.py
@@ -273,7 +273,9 @@ def traverse(
                             doc=inp.doc,
                             format=inp.format,
                             default=inp.default,
-                            type_=inp.type_,
+                            type_=cwl_utils.expression_refactor.workflow_type(
+                                inp.type_
+                            ),
                             extension_fields=inp.extension_fields,
                             loadingOptions=inp.loadingOptions,
                         )
@@ -291,7 +293,9 @@ def traverse(
                             doc=outp.doc,
                             format=outp.format,
                             outputSource=f"main/{outp_id}",
-                            type_=outp.type_,
+                            type_=cwl_utils.expression_refactor.workflow_type(
+                                outp.type_
+                            ),
                             extension_fields=outp.extension_fields,
                             loadingOptions=outp.loadingOptions,
                         )
@@ -357,9 +361,14 @@ def generate_etool_from_expr(
                 list[ArraySchema | cwl.InputRecordSchema]
                 | ArraySchema
                 | cwl.InputRecordSchema
-            ) = [clean_type_ids(t.type_) for t in self_type]
+            ) = [
+                clean_type_ids(cwl_utils.expression_refactor.workflow_type(t.type_))
+                for t in self_type
+            ]
         else:
-            new_type = clean_type_ids(self_type.type_)
+            new_type = clean_type_ids(
+                cwl_utils.expression_refactor.workflow_type(self_type.type_)
+            )
         inputs.append(
             cwl.WorkflowInputParameter(
                 id="self",
@@ -396,7 +405,7 @@ def generate_etool_from_expr(
             streamable=target.streamable,
             doc=target.doc,
             format=target.format,
-            type_=target.type_,
+            type_=cwl_utils.expression_refactor.workflow_type(target.type_),
             extension_fields=target.extension_fields,
             loadingOptions=target.loadingOptions,
         )
@@ -1374,7 +1383,9 @@ def cltool_inputs_to_etool_inputs(
                         doc=clt_inp.doc,
                         format=clt_inp.format,
                         default=clt_inp.default,
-                        type_=clt_inp.type_,
+                        type_=cwl_utils.expression_refactor.workflow_type(
+                            clt_inp.type_
+                        ),
                         loadContents=clt_inp.loadContents
                         or (clt_inp.inputBinding and clt_inp.inputBinding.loadContents),
                         loadListing=clt_inp.loadListing,
@@ -1418,7 +1429,9 @@ def cltool_step_outputs_to_workflow_outputs(
                         type_=(
                             "File"
                             if clt_out.type_ in ("stdout", "stderr")
-                            else clt_out.type_
+                            else cwl_utils.expression_refactor.workflow_type(
+                                clt_out.type_
+                            )
                         ),
                         extension_fields=clt_out.extension_fields,
                         loadingOptions=clt_out.loadingOptions,
@@ -1450,7 +1463,7 @@ def generate_etool_from_expr2(
             streamable=target.streamable,
             doc=target.doc,
             format=target.format,
-            type_=target.type_,
+            type_=cwl_utils.expression_refactor.workflow_type(target.type_),
         )
     )
     expression = "${"
diff --git a/src/cwl_utils/cwl_v1_2_expression_refactor.py b/src/cwl_utils/cwl_v1_2_expression_refactor.py
index b9244da..1aff7b5 100755
--- a/src/cwl_utils/cwl_v1_2_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_2_expression_refactor.py
@@ -276,7 +276,9 @@ def traverse(
                             doc=inp.doc,
                             format=inp.format,
                             default=inp.default,
-                            type_=inp.type_,
+                            type_=cwl_utils.expression_refactor.workflow_type(
+                                inp.type_
+                            ),
                             extension_fields=inp.extension_fields,
                             loadingOptions=inp.loadingOptions,
                         )
@@ -294,7 +296,9 @@ def traverse(
                             doc=outp.doc,
                             format=outp.format,
                             outputSource=f"main/{outp_id}",
-                            type_=outp.type_,
+                            type_=cwl_utils.expression_refactor.workflow_type(
+                                outp.type_
+                            ),
                             extension_fields=outp.extension_fields,
                             loadingOptions=outp.loadingOptions,
                         )
@@ -360,9 +364,14 @@ def generate_etool_from_expr(
                 list[ArraySchema | cwl.InputRecordSchema]
                 | ArraySchema
                 | cwl.InputRecordSchema
-            ) = [clean_type_ids(t.type_) for t in self_type]
+            ) = [
+                clean_type_ids(cwl_utils.expression_refactor.workflow_type(t.type_))
+                for t in self_type
+            ]
         else:
-            new_type = clean_type_ids(self_type.type_)
+            new_type = clean_type_ids(
+                cwl_utils.expression_refactor.workflow_type(self_type.type_)
+            )
         inputs.append(
             cwl.WorkflowInputParameter(
                 id="self",
@@ -399,7 +408,7 @@ def generate_etool_from_expr(
             streamable=target.streamable,
             doc=target.doc,
             format=target.format,
-            type_=target.type_,
+            type_=cwl_utils.expression_refactor.workflow_type(target.type_),
             extension_fields=target.extension_fields,
             loadingOptions=target.loadingOptions,
         )
@@ -1473,7 +1482,9 @@ def cltool_inputs_to_etool_inputs(
                         doc=clt_inp.doc,
                         format=clt_inp.format,
                         default=clt_inp.default,
-                        type_=clt_inp.type_,
+                        type_=cwl_utils.expression_refactor.workflow_type(
+                            clt_inp.type_
+                        ),
                         loadContents=clt_inp.loadContents
                         or (clt_inp.inputBinding and clt_inp.inputBinding.loadContents),
                         loadListing=clt_inp.loadListing,
@@ -1517,7 +1528,9 @@ def cltool_step_outputs_to_workflow_outputs(
                         type_=(
                             "File"
                             if clt_out.type_ in ("stdout", "stderr")
-                            else clt_out.type_
+                            else cwl_utils.expression_refactor.workflow_type(
+                                clt_out.type_
+                            )
                         ),
                         extension_fields=clt_out.extension_fields,
                         loadingOptions=clt_out.loadingOptions,
@@ -1553,7 +1566,7 @@ def generate_etool_from_expr2(
             streamable=target.streamable,
             doc=target.doc,
             format=target.format,
-            type_=target.type_,
+            type_=cwl_utils.expression_refactor.workflow_type(target.type_),
         )
     )
     expression = "${"
diff --git a/src/cwl_utils/expression_refactor.py b/src/cwl_utils/expression_refactor.py
index 5891189..a93aaaa 100755
--- a/src/cwl_utils/expression_refactor.py
+++ b/src/cwl_utils/expression_refactor.py
@@ -5,6 +5,7 @@
 
 import argparse
 import copy
+import inspect
 import logging
 import shutil
 import sys
@@ -488,6 +489,32 @@ def get_input_for_id(
     return None
 
 
+def workflow_type(type_: Any) -> Any:
+    """
+    Give the form of a tool's parameter type that any process accepts.
+
+    The schemas of the parameters of a CommandLineTool can hold bindings, which
+    no other process understands.
+    """
+    if isinstance(type_, MutableSequence):
+        return [workflow_type(item) for item in type_]
+    if not hasattr(type_, "type_"):
+        return type_
+    cls = type(type_)
+    name = cls.__name__
+    if name.startswith("Command"):
+        cls = getattr(sys.modules[cls.__module__], name.removeprefix("Command"), cls)
+    arguments = {
+        key: getattr(type_, key)
+        for key in inspect.signature(cls).parameters
+        if hasattr(type_, key) and not key.endswith("Binding")
+    }
+    for key in ("type_", "items", "fields"):
+        if arguments.get(key) is not None:
+            arguments[key] = workflow_type(arguments[key])
+    return cls(**arguments)
+
+
 def needs_inputs(requirement: Any) -> bool:
     """Tell if a requirement of a process is of no use to an ExpressionTool made of its parts."""
     if isinstance(requirement, ResourceRequirement):
-- 
2.43.0


From c1fe4728cadd8871ea60212fceb5e2dbd2d2c346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:13 +0000
Subject: [PATCH 74/78] fix: declare the namespaces of the documents that
 expression refactoring embeds

---
 src/cwl_utils/expression_refactor.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/cwl_utils/expression_refactor.py b/src/cwl_utils/expression_refactor.py
index a93aaaa..9ad5df5 100755
--- a/src/cwl_utils/expression_refactor.py
+++ b/src/cwl_utils/expression_refactor.py
@@ -602,6 +602,16 @@ def drop_inherited_requirements(parent: WorkflowStep | Workflow) -> None:
     ] or None
 
 
+def namespaces(process: Any) -> dict[str, str]:
+    """Collect the namespaces of a Process and of the Processes in its steps."""
+    result: dict[str, str] = dict(process.loadingOptions.namespaces)
+    for step in getattr(process, "steps", []):
+        if not isinstance(step.run, str):
+            for prefix, uri in namespaces(step.run).items():
+                result.setdefault(prefix, uri)
+    return result
+
+
 def load_step(
     step: WorkflowStep,
     replace_etool: bool,
@@ -816,6 +826,7 @@ def refactor(args: argparse.Namespace) -> int:
                 else:
                     return 7
             if not isinstance(result, MutableSequence):
+                result.loadingOptions.namespaces = namespaces(result)
                 result_json = save(result, base_url=uri)
             #   ^^ Setting the base_url and keeping the default value
             #      for relative_uris=True means that the IDs in the generated
-- 
2.43.0


From b38de8ac3ac49059a311531f4d4f141cf0c8b839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:13 +0000
Subject: [PATCH 75/78] fix: write refactored documents that do not depend on
 where their source is

---
 src/cwl_utils/expression_refactor.py | 43 +++++++++++++++++++++++++++-
 1 file changed, 42 insertions(+), 1 deletion(-)

diff --git a/src/cwl_utils/expression_refactor.py b/src/cwl_utils/expression_refactor.py
index 9ad5df5..08fc3b3 100755
--- a/src/cwl_utils/expression_refactor.py
+++ b/src/cwl_utils/expression_refactor.py
@@ -612,6 +612,47 @@ def namespaces(process: Any) -> dict[str, str]:
     return result
 
 
+def relocatable(process: Any, document: Any, source: str) -> Any:
+    """
+    Make the identifiers of a saved Process independent of where its source is.
+
+    Identifiers of the source itself become local ones; those of the documents
+    that were embedded get the name of that document as a prefix.
+    """
+    prefixes = {source: "#"}
+
+    def find(nested: Any) -> None:
+        uri = (nested.loadingOptions.fileuri or source).split("#")[0]
+        if uri not in prefixes:
+            prefix = base = f"#{uri.split('/')[-1]}"
+            number = 1
+            while f"{prefix}/" in prefixes.values():
+                number += 1
+                prefix = f"{base}_{number}"
+            prefixes[uri] = f"{prefix}/"
+        for step in getattr(nested, "steps", []):
+            if not isinstance(step.run, str):
+                find(step.run)
+
+    def local(value: Any) -> Any:
+        if isinstance(value, MutableMapping):
+            # local identifiers are not found from within a blank node
+            if "class" in value and str(value.get("id")).startswith("_:"):
+                del value["id"]
+            for key in value:
+                value[key] = local(value[key])
+        elif isinstance(value, MutableSequence):
+            value[:] = [local(item) for item in value]
+        elif isinstance(value, str) and "#" in value:
+            uri, fragment = value.split("#", 1)
+            if uri in prefixes:
+                return prefixes[uri] + fragment
+        return value
+
+    find(process)
+    return local(document)
+
+
 def load_step(
     step: WorkflowStep,
     replace_etool: bool,
@@ -827,7 +868,7 @@ def refactor(args: argparse.Namespace) -> int:
                     return 7
             if not isinstance(result, MutableSequence):
                 result.loadingOptions.namespaces = namespaces(result)
-                result_json = save(result, base_url=uri)
+                result_json = relocatable(result, save(result, base_url=uri), uri)
             #   ^^ Setting the base_url and keeping the default value
             #      for relative_uris=True means that the IDs in the generated
             #      JSON/YAML are kept clean of the path to the input document
-- 
2.43.0


From 8f624adad921a0087e262b5646f5f6ef63eb7d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:23 +0000
Subject: [PATCH 76/78] fix: keep StepInputExpressionRequirement where
 expression refactoring leaves a valueFrom

---
 src/cwl_utils/cwl_v1_0_expression_refactor.py | 6 ++++--
 src/cwl_utils/cwl_v1_1_expression_refactor.py | 6 ++++--
 src/cwl_utils/cwl_v1_2_expression_refactor.py | 6 ++++--
 src/cwl_utils/expression_refactor.py          | 9 +++++++++
 4 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/src/cwl_utils/cwl_v1_0_expression_refactor.py b/src/cwl_utils/cwl_v1_0_expression_refactor.py
index bf261f4..9abca23 100755
--- a/src/cwl_utils/cwl_v1_0_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_0_expression_refactor.py
@@ -1706,8 +1706,10 @@ def traverse_workflow(
         workflow.requirements[:] = [
             x
             for x in workflow.requirements
-            if not isinstance(
-                x, (cwl.InlineJavascriptRequirement, cwl.StepInputExpressionRequirement)
+            if not isinstance(x, cwl.InlineJavascriptRequirement)
+            and (
+                not isinstance(x, cwl.StepInputExpressionRequirement)
+                or cwl_utils.expression_refactor.has_value_from(workflow)
             )
         ]
     else:
diff --git a/src/cwl_utils/cwl_v1_1_expression_refactor.py b/src/cwl_utils/cwl_v1_1_expression_refactor.py
index 27a2574..95267ec 100755
--- a/src/cwl_utils/cwl_v1_1_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_1_expression_refactor.py
@@ -1708,8 +1708,10 @@ def traverse_workflow(
         workflow.requirements[:] = [
             x
             for x in workflow.requirements
-            if not isinstance(
-                x, (cwl.InlineJavascriptRequirement, cwl.StepInputExpressionRequirement)
+            if not isinstance(x, cwl.InlineJavascriptRequirement)
+            and (
+                not isinstance(x, cwl.StepInputExpressionRequirement)
+                or cwl_utils.expression_refactor.has_value_from(workflow)
             )
         ]
     else:
diff --git a/src/cwl_utils/cwl_v1_2_expression_refactor.py b/src/cwl_utils/cwl_v1_2_expression_refactor.py
index 1aff7b5..0894688 100755
--- a/src/cwl_utils/cwl_v1_2_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_2_expression_refactor.py
@@ -1885,8 +1885,10 @@ def traverse_workflow(
         workflow.requirements[:] = [
             x
             for x in workflow.requirements
-            if not isinstance(
-                x, (cwl.InlineJavascriptRequirement, cwl.StepInputExpressionRequirement)
+            if not isinstance(x, cwl.InlineJavascriptRequirement)
+            and (
+                not isinstance(x, cwl.StepInputExpressionRequirement)
+                or cwl_utils.expression_refactor.has_value_from(workflow)
             )
         ]
     else:
diff --git a/src/cwl_utils/expression_refactor.py b/src/cwl_utils/expression_refactor.py
index 08fc3b3..bdc1858 100755
--- a/src/cwl_utils/expression_refactor.py
+++ b/src/cwl_utils/expression_refactor.py
@@ -602,6 +602,15 @@ def drop_inherited_requirements(parent: WorkflowStep | Workflow) -> None:
     ] or None
 
 
+def has_value_from(process: Any) -> bool:
+    """Check for a valueFrom in the steps of a Workflow, or of the Workflows in it."""
+    return any(
+        any(step_input.valueFrom is not None for step_input in step.in_)
+        or has_value_from(step.run)
+        for step in getattr(process, "steps", [])
+    )
+
+
 def namespaces(process: Any) -> dict[str, str]:
     """Collect the namespaces of a Process and of the Processes in its steps."""
     result: dict[str, str] = dict(process.loadingOptions.namespaces)
-- 
2.43.0


From 3bad6d4909f2f4129e0d1eafb325c200d92a04f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:23 +0000
Subject: [PATCH 77/78] fix: do not take parameters whose names start with an
 underscore for generated ones in expression refactoring

---
 src/cwl_utils/cwl_v1_0_expression_refactor.py | 61 +++++++++++--------
 src/cwl_utils/cwl_v1_1_expression_refactor.py | 61 +++++++++++--------
 src/cwl_utils/cwl_v1_2_expression_refactor.py | 61 +++++++++++--------
 src/cwl_utils/expression_refactor.py          | 12 ++++
 4 files changed, 120 insertions(+), 75 deletions(-)

diff --git a/src/cwl_utils/cwl_v1_0_expression_refactor.py b/src/cwl_utils/cwl_v1_0_expression_refactor.py
index 9abca23..b590c9c 100755
--- a/src/cwl_utils/cwl_v1_0_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_0_expression_refactor.py
@@ -1146,7 +1146,7 @@ def replace_outputEvals_with_etools(
     for clt_inp in target_clt.inputs:
         clt_inp_id = clt_inp.id.split("#")[-1].split("/")[-1]
         step_inputs.append(cwl.WorkflowStepInput(id=clt_inp_id, source=clt_inp_id))
-        if clt_inp_id.startswith("_"):
+        if cwl_utils.expression_refactor.is_generated_input(clt_inp_id):
             sub_wf_inputs.append(cwl.InputParameter(id=clt_inp_id, type_=clt_inp.type_))
     sub_wf_inputs[:0] = cltool_inputs_to_etool_inputs(clt)
     sub_wf_outputs = cltool_step_outputs_to_workflow_outputs(
@@ -1176,7 +1176,11 @@ def replace_outputEvals_with_etools(
             cwl.WorkflowStep(
                 id=f"expression_{outp_id}_outputEval",
                 in_=[
-                    *(copy.copy(x) for x in step_inputs if not x.id.startswith("_")),
+                    *(
+                        copy.copy(x)
+                        for x in step_inputs
+                        if not cwl_utils.expression_refactor.is_generated_input(x.id)
+                    ),
                     cwl.WorkflowStepInput(id="self", source=f"{step_id}/{outp_id}"),
                 ],
                 out=[cwl.WorkflowStepOutput("result")],
@@ -1306,7 +1310,11 @@ def replace_step_clt_expr_with_etool(
     wf_step_inputs = copy.deepcopy(step.in_)
     for wf_step_input in wf_step_inputs:
         wf_step_input.id = wf_step_input.id.split("/")[-1]
-    wf_step_inputs[:] = [x for x in wf_step_inputs if not x.id.startswith("_")]
+    wf_step_inputs[:] = [
+        x
+        for x in wf_step_inputs
+        if not cwl_utils.expression_refactor.is_generated_input(x.id)
+    ]
     workflow.steps.append(
         cwl.WorkflowStep(
             id=name,
@@ -1354,7 +1362,11 @@ def replace_clt_hintreq_expr_with_etool(
     wf_step_inputs = copy.deepcopy(step.in_)
     for wf_step_input in wf_step_inputs:
         wf_step_input.id = wf_step_input.id.split("/")[-1]
-    wf_step_inputs[:] = [x for x in wf_step_inputs if not x.id.startswith("_")]
+    wf_step_inputs[:] = [
+        x
+        for x in wf_step_inputs
+        if not cwl_utils.expression_refactor.is_generated_input(x.id)
+    ]
     workflow.steps.append(
         cwl.WorkflowStep(
             id=name,
@@ -1373,7 +1385,7 @@ def cltool_inputs_to_etool_inputs(
     if tool.inputs:
         for clt_inp in tool.inputs:
             clt_inp_id = clt_inp.id.split("#")[-1].split("/")[-1]
-            if not clt_inp_id.startswith("_"):
+            if not cwl_utils.expression_refactor.is_generated_input(clt_inp_id):
                 inputs.append(
                     cwl.InputParameter(
                         id=clt_inp_id,
@@ -1419,27 +1431,26 @@ def cltool_step_outputs_to_workflow_outputs(
                 outputSource = f"expression_{clt_out_id}_outputEval/result"
             else:
                 outputSource = f"{default_step_id}/{clt_out_id}"
-            if not clt_out_id.startswith("_"):
-                outputs.append(
-                    cwl.WorkflowOutputParameter(
-                        id=clt_out_id,
-                        label=clt_out.label,
-                        secondaryFiles=clt_out.secondaryFiles,
-                        streamable=clt_out.streamable,
-                        doc=clt_out.doc,
-                        format=clt_out.format,
-                        outputSource=outputSource,
-                        type_=(
-                            "File"
-                            if clt_out.type_ in ("stdout", "stderr")
-                            else cwl_utils.expression_refactor.workflow_type(
-                                clt_out.type_
-                            )
-                        ),
-                        extension_fields=clt_out.extension_fields,
-                        loadingOptions=clt_out.loadingOptions,
-                    )
+            outputs.append(
+                cwl.WorkflowOutputParameter(
+                    id=clt_out_id,
+                    label=clt_out.label,
+                    secondaryFiles=clt_out.secondaryFiles,
+                    streamable=clt_out.streamable,
+                    doc=clt_out.doc,
+                    format=clt_out.format,
+                    outputSource=outputSource,
+                    type_=(
+                        "File"
+                        if clt_out.type_ in ("stdout", "stderr")
+                        else cwl_utils.expression_refactor.workflow_type(
+                            clt_out.type_
+                        )
+                    ),
+                    extension_fields=clt_out.extension_fields,
+                    loadingOptions=clt_out.loadingOptions,
                 )
+            )
     return outputs
 
 
diff --git a/src/cwl_utils/cwl_v1_1_expression_refactor.py b/src/cwl_utils/cwl_v1_1_expression_refactor.py
index 95267ec..ac3e539 100755
--- a/src/cwl_utils/cwl_v1_1_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_1_expression_refactor.py
@@ -1142,7 +1142,7 @@ def replace_outputEvals_with_etools(
     for clt_inp in target_clt.inputs:
         clt_inp_id = clt_inp.id.split("#")[-1].split("/")[-1]
         step_inputs.append(cwl.WorkflowStepInput(id=clt_inp_id, source=clt_inp_id))
-        if clt_inp_id.startswith("_"):
+        if cwl_utils.expression_refactor.is_generated_input(clt_inp_id):
             sub_wf_inputs.append(
                 cwl.WorkflowInputParameter(id=clt_inp_id, type_=clt_inp.type_)
             )
@@ -1174,7 +1174,11 @@ def replace_outputEvals_with_etools(
             cwl.WorkflowStep(
                 id=f"expression_{outp_id}_outputEval",
                 in_=[
-                    *(copy.copy(x) for x in step_inputs if not x.id.startswith("_")),
+                    *(
+                        copy.copy(x)
+                        for x in step_inputs
+                        if not cwl_utils.expression_refactor.is_generated_input(x.id)
+                    ),
                     cwl.WorkflowStepInput(id="self", source=f"{step_id}/{outp_id}"),
                 ],
                 out=[cwl.WorkflowStepOutput("result")],
@@ -1306,7 +1310,11 @@ def replace_step_clt_expr_with_etool(
     wf_step_inputs = copy.deepcopy(step.in_)
     for wf_step_input in wf_step_inputs:
         wf_step_input.id = wf_step_input.id.split("/")[-1]
-    wf_step_inputs[:] = [x for x in wf_step_inputs if not x.id.startswith("_")]
+    wf_step_inputs[:] = [
+        x
+        for x in wf_step_inputs
+        if not cwl_utils.expression_refactor.is_generated_input(x.id)
+    ]
     workflow.steps.append(
         cwl.WorkflowStep(
             id=name,
@@ -1354,7 +1362,11 @@ def replace_clt_hintreq_expr_with_etool(
     wf_step_inputs = copy.deepcopy(step.in_)
     for wf_step_input in wf_step_inputs:
         wf_step_input.id = wf_step_input.id.split("/")[-1]
-    wf_step_inputs[:] = [x for x in wf_step_inputs if not x.id.startswith("_")]
+    wf_step_inputs[:] = [
+        x
+        for x in wf_step_inputs
+        if not cwl_utils.expression_refactor.is_generated_input(x.id)
+    ]
     workflow.steps.append(
         cwl.WorkflowStep(
             id=name,
@@ -1373,7 +1385,7 @@ def cltool_inputs_to_etool_inputs(
     if tool.inputs:
         for clt_inp in tool.inputs:
             clt_inp_id = clt_inp.id.split("#")[-1].split("/")[-1]
-            if not clt_inp_id.startswith("_"):
+            if not cwl_utils.expression_refactor.is_generated_input(clt_inp_id):
                 inputs.append(
                     cwl.WorkflowInputParameter(
                         id=clt_inp_id,
@@ -1416,27 +1428,26 @@ def cltool_step_outputs_to_workflow_outputs(
                 outputSource = f"expression_{clt_out_id}_outputEval/result"
             else:
                 outputSource = f"{default_step_id}/{clt_out_id}"
-            if not clt_out_id.startswith("_"):
-                outputs.append(
-                    cwl.WorkflowOutputParameter(
-                        id=clt_out_id,
-                        label=clt_out.label,
-                        secondaryFiles=clt_out.secondaryFiles,
-                        streamable=clt_out.streamable,
-                        doc=clt_out.doc,
-                        format=clt_out.format,
-                        outputSource=outputSource,
-                        type_=(
-                            "File"
-                            if clt_out.type_ in ("stdout", "stderr")
-                            else cwl_utils.expression_refactor.workflow_type(
-                                clt_out.type_
-                            )
-                        ),
-                        extension_fields=clt_out.extension_fields,
-                        loadingOptions=clt_out.loadingOptions,
-                    )
+            outputs.append(
+                cwl.WorkflowOutputParameter(
+                    id=clt_out_id,
+                    label=clt_out.label,
+                    secondaryFiles=clt_out.secondaryFiles,
+                    streamable=clt_out.streamable,
+                    doc=clt_out.doc,
+                    format=clt_out.format,
+                    outputSource=outputSource,
+                    type_=(
+                        "File"
+                        if clt_out.type_ in ("stdout", "stderr")
+                        else cwl_utils.expression_refactor.workflow_type(
+                            clt_out.type_
+                        )
+                    ),
+                    extension_fields=clt_out.extension_fields,
+                    loadingOptions=clt_out.loadingOptions,
                 )
+            )
     return outputs
 
 
diff --git a/src/cwl_utils/cwl_v1_2_expression_refactor.py b/src/cwl_utils/cwl_v1_2_expression_refactor.py
index 0894688..8842155 100755
--- a/src/cwl_utils/cwl_v1_2_expression_refactor.py
+++ b/src/cwl_utils/cwl_v1_2_expression_refactor.py
@@ -1236,7 +1236,7 @@ def replace_outputEvals_with_etools(
     for clt_inp in target_clt.inputs:
         clt_inp_id = clt_inp.id.split("#")[-1].split("/")[-1]
         step_inputs.append(cwl.WorkflowStepInput(id=clt_inp_id, source=clt_inp_id))
-        if clt_inp_id.startswith("_"):
+        if cwl_utils.expression_refactor.is_generated_input(clt_inp_id):
             sub_wf_inputs.append(
                 cwl.WorkflowInputParameter(id=clt_inp_id, type_=clt_inp.type_)
             )
@@ -1268,7 +1268,11 @@ def replace_outputEvals_with_etools(
             cwl.WorkflowStep(
                 id=f"expression_{outp_id}_outputEval",
                 in_=[
-                    *(copy.copy(x) for x in step_inputs if not x.id.startswith("_")),
+                    *(
+                        copy.copy(x)
+                        for x in step_inputs
+                        if not cwl_utils.expression_refactor.is_generated_input(x.id)
+                    ),
                     cwl.WorkflowStepInput(id="self", source=f"{step_id}/{outp_id}"),
                 ],
                 out=[cwl.WorkflowStepOutput("result")],
@@ -1405,7 +1409,11 @@ def replace_step_clt_expr_with_etool(
     wf_step_inputs = copy.deepcopy(step.in_)
     for wf_step_input in wf_step_inputs:
         wf_step_input.id = wf_step_input.id.split("/")[-1]
-    wf_step_inputs[:] = [x for x in wf_step_inputs if not x.id.startswith("_")]
+    wf_step_inputs[:] = [
+        x
+        for x in wf_step_inputs
+        if not cwl_utils.expression_refactor.is_generated_input(x.id)
+    ]
     workflow.steps.append(
         cwl.WorkflowStep(
             id=name,
@@ -1453,7 +1461,11 @@ def replace_clt_hintreq_expr_with_etool(
     wf_step_inputs = copy.deepcopy(step.in_)
     for wf_step_input in wf_step_inputs:
         wf_step_input.id = wf_step_input.id.split("/")[-1]
-    wf_step_inputs[:] = [x for x in wf_step_inputs if not x.id.startswith("_")]
+    wf_step_inputs[:] = [
+        x
+        for x in wf_step_inputs
+        if not cwl_utils.expression_refactor.is_generated_input(x.id)
+    ]
     workflow.steps.append(
         cwl.WorkflowStep(
             id=name,
@@ -1472,7 +1484,7 @@ def cltool_inputs_to_etool_inputs(
     if tool.inputs:
         for clt_inp in tool.inputs:
             clt_inp_id = clt_inp.id.split("#")[-1].split("/")[-1]
-            if not clt_inp_id.startswith("_"):
+            if not cwl_utils.expression_refactor.is_generated_input(clt_inp_id):
                 inputs.append(
                     cwl.WorkflowInputParameter(
                         id=clt_inp_id,
@@ -1515,27 +1527,26 @@ def cltool_step_outputs_to_workflow_outputs(
                 outputSource = f"expression_{clt_out_id}_outputEval/result"
             else:
                 outputSource = f"{default_step_id}/{clt_out_id}"
-            if not clt_out_id.startswith("_"):
-                outputs.append(
-                    cwl.WorkflowOutputParameter(
-                        id=clt_out_id,
-                        label=clt_out.label,
-                        secondaryFiles=clt_out.secondaryFiles,
-                        streamable=clt_out.streamable,
-                        doc=clt_out.doc,
-                        format=clt_out.format,
-                        outputSource=outputSource,
-                        type_=(
-                            "File"
-                            if clt_out.type_ in ("stdout", "stderr")
-                            else cwl_utils.expression_refactor.workflow_type(
-                                clt_out.type_
-                            )
-                        ),
-                        extension_fields=clt_out.extension_fields,
-                        loadingOptions=clt_out.loadingOptions,
-                    )
+            outputs.append(
+                cwl.WorkflowOutputParameter(
+                    id=clt_out_id,
+                    label=clt_out.label,
+                    secondaryFiles=clt_out.secondaryFiles,
+                    streamable=clt_out.streamable,
+                    doc=clt_out.doc,
+                    format=clt_out.format,
+                    outputSource=outputSource,
+                    type_=(
+                        "File"
+                        if clt_out.type_ in ("stdout", "stderr")
+                        else cwl_utils.expression_refactor.workflow_type(
+                            clt_out.type_
+                        )
+                    ),
+                    extension_fields=clt_out.extension_fields,
+                    loadingOptions=clt_out.loadingOptions,
                 )
+            )
     return outputs
 
 
diff --git a/src/cwl_utils/expression_refactor.py b/src/cwl_utils/expression_refactor.py
index bdc1858..0e4c14c 100755
--- a/src/cwl_utils/expression_refactor.py
+++ b/src/cwl_utils/expression_refactor.py
@@ -7,6 +7,7 @@ import argparse
 import copy
 import inspect
 import logging
+import re
 import shutil
 import sys
 from collections.abc import MutableMapping, MutableSequence, Sequence
@@ -602,6 +603,17 @@ def drop_inherited_requirements(parent: WorkflowStep | Workflow) -> None:
     ] or None
 
 
+def is_generated_input(name: str) -> bool:
+    """Check if the refactoring added the input with this name."""
+    return bool(
+        re.fullmatch(
+            r"_(arguments_\d+|stdin|stdout|stderr|.+_(valueFrom|glob)|envDef\d+"
+            r"|iwdr_listing(_\d+)?|(cores|ram|tmpdir|outdir)(Min|Max)|when)",
+            name,
+        )
+    )
+
+
 def has_value_from(process: Any) -> bool:
     """Check for a valueFrom in the steps of a Workflow, or of the Workflows in it."""
     return any(
-- 
2.43.0


From fa3d1a658552e300e724ca41fc387169570f1494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:59:23 +0000
Subject: [PATCH 78/78] fix: pack linked documents before they are normalised,
 and leave the path of the source out of the result

---
 src/cwl_utils/expression_refactor.py |  5 ++++-
 src/cwl_utils/normalizer.py          | 16 +++++++++++++---
 2 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/cwl_utils/expression_refactor.py b/src/cwl_utils/expression_refactor.py
index 0e4c14c..2f2aa89 100755
--- a/src/cwl_utils/expression_refactor.py
+++ b/src/cwl_utils/expression_refactor.py
@@ -658,7 +658,10 @@ def relocatable(process: Any, document: Any, source: str) -> Any:
     def local(value: Any) -> Any:
         if isinstance(value, MutableMapping):
             # local identifiers are not found from within a blank node
-            if "class" in value and str(value.get("id")).startswith("_:"):
+            identifier = str(value.get("id"))
+            if "class" in value and (
+                identifier.startswith("_:") or identifier in prefixes
+            ):
                 del value["id"]
             for key in value:
                 value[key] = local(value[key])
diff --git a/src/cwl_utils/normalizer.py b/src/cwl_utils/normalizer.py
index 100095d..f48c6d0 100644
--- a/src/cwl_utils/normalizer.py
+++ b/src/cwl_utils/normalizer.py
@@ -9,6 +9,7 @@ import logging
 import sys
 import tempfile
 from collections.abc import MutableSequence
+from io import StringIO
 from pathlib import Path
 
 from cwlupgrader import main as cwlupgrader
@@ -17,6 +18,7 @@ from schema_salad.runtime import save
 from schema_salad.sourceline import add_lc_filename
 
 from cwl_utils import cwl_v1_2_expression_refactor
+from cwl_utils.expression_refactor import relocatable
 from cwl_utils.loghandler import _logger as _cwlutilslogger
 from cwl_utils.pack import pack
 from cwl_utils.parser.cwl_v1_2 import load_document_by_yaml
@@ -83,8 +85,13 @@ def run(args: argparse.Namespace) -> int:
         _logger.info("Processing %s.", document)
         with open(document) as doc_handle:
             result = yaml.load(doc_handle)
-        add_lc_filename(result, document)
         version = result.get("cwlVersion", None)
+        if version in ("v1.0", "v1.1", "v1.2") and "$graph" not in result:
+            # the linked documents need the same changes
+            stream = StringIO()
+            yaml.dump(pack(document), stream)
+            result = yaml.load(stream.getvalue())
+        add_lc_filename(result, document)
         if version in ("draft-3", "cwl:draft-3", "v1.0", "v1.1"):
             result = cwlupgrader.upgrade_document(result, args.dir, imports=imports)
         elif version == "v1.2":
@@ -106,9 +113,12 @@ def run(args: argparse.Namespace) -> int:
                 args.skip_some2,
             )
             if not isinstance(refactored, MutableSequence):
-                result = save(
+                result = relocatable(
                     refactored,
-                    base_url=(refactored.loadingOptions.fileuri or ""),
+                    save(
+                        refactored, base_url=(refactored.loadingOptions.fileuri or "")
+                    ),
+                    uri,
                 )
             #   ^^ Setting the base_url and keeping the default value
             #      for relative_uris=True means that the IDs in the generated
-- 
2.43.0

