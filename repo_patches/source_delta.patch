From 2fef192b4c010a8722f94de29250333b1aedf31d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:56 +0000
Subject: [PATCH 001/135] fix: create the project script from the current
 template

The template no longer contains the line that Interface looked for, so that
creating any project raised ValueError; its relative imports could not work in
a stand-alone script either.
---
 src/eprempy/_project_main.py | 8 ++++----
 src/eprempy/project.py       | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/eprempy/_project_main.py b/src/eprempy/_project_main.py
index f1dcf05..e9a76db 100644
--- a/src/eprempy/_project_main.py
+++ b/src/eprempy/_project_main.py
@@ -5,10 +5,10 @@ Create and modify runs in this EPREM project.
 import argparse
 import typing
 
-from . import etc
-from . import interfaces
-from . import project
-from . import paths
+from eprempy import etc
+from eprempy import interfaces
+from eprempy import project
+from eprempy import paths
 
 
 FILEPATH = paths.normalize(__file__)
diff --git a/src/eprempy/project.py b/src/eprempy/project.py
index e373832..40c52e1 100644
--- a/src/eprempy/project.py
+++ b/src/eprempy/project.py
@@ -791,12 +791,12 @@ class Interface:
         with (DIRECTORY / '_project_main.py').open('r') as rp:
             lines = rp.readlines()
         payload = lines.copy()
-        import_line = lines.index(f'import {__name__}\n')
+        import_line = lines.index('from eprempy import etc\n')
         path_spec = (
             "import pathlib\n"
             "import sys\n"
             "\n"
-            f"sys.path.append({str(DIRECTORY)!r})\n"
+            f"sys.path.append({str(DIRECTORY.parent)!r})\n"
             "\n"
         )
         payload.insert(import_line, path_spec)
-- 
2.43.0


From 1bcf815026ea0774e489b0fdc2d1b232bb1cc93c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:56 +0000
Subject: [PATCH 002/135] fix: update run-log paths when renaming a project

RunLog.update_directory computed the old directory after replacing it, so that
no entry was ever updated.
---
 src/eprempy/project.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/eprempy/project.py b/src/eprempy/project.py
index 40c52e1..3667d7c 100644
--- a/src/eprempy/project.py
+++ b/src/eprempy/project.py
@@ -117,10 +117,14 @@ class RunLog(collections.abc.Mapping):
             raise paths.PathTypeError("The new path must exist") from None
         if not new.is_dir():
             raise paths.PathTypeError("Cannot rename log file") from None
-        self._path = new / self.name
         source = str(self.path.parent)
-        for key in self:
-            self.mv(key, key.replace(source, str(new)))
+        self._path = new / self.name
+        updated = {}
+        for key, value in self._asdict.items():
+            if key.startswith(f"{source}{os.sep}"):
+                key = str(new) + key[len(source):]
+            updated[key] = value
+        self.dump(updated)
         return self
 
     @typing.overload
-- 
2.43.0


From 9d6af447602fa7105c1f025135bf153a9f2d20c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:56 +0000
Subject: [PATCH 003/135] fix: keep the settings of the original when copying a
 project

Unset keyword arguments replaced every setting of the original with its default.
---
 src/eprempy/project.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/project.py b/src/eprempy/project.py
index 3667d7c..3fafed4 100644
--- a/src/eprempy/project.py
+++ b/src/eprempy/project.py
@@ -737,7 +737,7 @@ class Interface:
             return self._get_attrs(root, **options)
         restored = self._restore_project(paths.normalize(copy))
         copied = restored.options
-        copied.update(options)
+        copied.update({k: v for k, v in options.items() if v is not None})
         return self._get_attrs(root, **copied)
 
     def _get_attrs(self, root: paths.PathLike, **options):
-- 
2.43.0


From 434d94b647171590e61fdf0018d85044c249cfb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:27 +0000
Subject: [PATCH 004/135] fix: run with the project's own inputs directory and
 config name

Both names were hard-coded to their defaults when setting up a run.
---
 src/eprempy/project.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/project.py b/src/eprempy/project.py
index 3fafed4..d9d6ac3 100644
--- a/src/eprempy/project.py
+++ b/src/eprempy/project.py
@@ -944,7 +944,7 @@ class Interface:
         silent: bool=False,
     ) -> None:
         """Create a single run."""
-        prjcfg = self.root / 'inputs' / config
+        prjcfg = self.root / self._attrs.inputs.name / config
         inputs = prjcfg if prjcfg.is_file() else paths.fullpath(config, strict=True)
         shutil.copy(inputs, path / self._attrs.config)
         branch = path.parent.parent
@@ -953,7 +953,7 @@ class Interface:
         command = (
             "nice -n 10 ionice -c 2 -n 3 "
             f"{mpirun} --mca btl_base_warn_component_unused 0 "
-            f"-n {nproc or 1} {eprem} eprem.cfg"
+            f"-n {nproc or 1} {eprem} {self._attrs.config}"
         )
         output = path / self._attrs.output
         now = datetime.datetime.now().strftime('%Y-%m-%dT%H:%M:%S')
-- 
2.43.0


From debd8bacfe46d8b7c09c1170ba61a02f2b9c0726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:27 +0000
Subject: [PATCH 005/135] fix: do not create a run directory when the config
 file does not exist

The config file was located only after the run directory had been created,
leaving an empty run behind.
---
 src/eprempy/project.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/eprempy/project.py b/src/eprempy/project.py
index d9d6ac3..3f04237 100644
--- a/src/eprempy/project.py
+++ b/src/eprempy/project.py
@@ -925,10 +925,15 @@ class Interface:
     ) -> InterfaceType:
         """Set up and execute a new EPREM run within this project."""
         run = name or datetime.datetime.now().strftime('%Y-%m-%dT%H-%M-%S.%f')
+        prjcfg = self.root / self._attrs.inputs.name / config
+        source = (
+            prjcfg if prjcfg.is_file()
+            else paths.fullpath(config, strict=True)
+        )
         p = self.directories.mkdir(run, branches=branches)
         for path in p.errors(force=(not errors), silent=silent):
             self._create_run(
-                config=config,
+                config=source,
                 path=path,
                 nproc=nproc,
                 environment=environment,
@@ -944,9 +949,7 @@ class Interface:
         silent: bool=False,
     ) -> None:
         """Create a single run."""
-        prjcfg = self.root / self._attrs.inputs.name / config
-        inputs = prjcfg if prjcfg.is_file() else paths.fullpath(config, strict=True)
-        shutil.copy(inputs, path / self._attrs.config)
+        shutil.copy(config, path / self._attrs.config)
         branch = path.parent.parent
         mpirun = paths.locate('mpirun', branch, environment or {})
         eprem = paths.locate('eprem', branch, environment or {})
-- 
2.43.0


From 1bf9cd097f2cc77a1c111dab73e5a43a2ec4e114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:27 +0000
Subject: [PATCH 006/135] fix: allow renaming a run that has no log entry

Runs whose simulation failed are not in the log.  Renaming one moved the
directory and then raised LogKeyError, leaving any remaining branches
untouched.
---
 src/eprempy/project.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/project.py b/src/eprempy/project.py
index 3f04237..ad711a3 100644
--- a/src/eprempy/project.py
+++ b/src/eprempy/project.py
@@ -1006,7 +1006,8 @@ class Interface:
                 print(f"Nothing to rename for {source!r}")
             return
         for (run, new) in pairs.errors(force=(not errors), silent=silent):
-            self.log.mv(run, new)
+            if str(run) in self.log:
+                self.log.mv(run, new)
             if not silent:
                 branch = self._get_branch_name(run)
                 base = f"Renamed {source!r} to {target!r}"
-- 
2.43.0


From bb2e4de7a645b43d0123116c5c699c7bc5d32d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:27 +0000
Subject: [PATCH 007/135] fix: update the name and attributes of a renamed
 project

The interface kept reporting the old name, root and inputs path.
---
 src/eprempy/project.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/eprempy/project.py b/src/eprempy/project.py
index ad711a3..72bb78b 100644
--- a/src/eprempy/project.py
+++ b/src/eprempy/project.py
@@ -714,7 +714,6 @@ class Interface:
             logname=logname,
         )
         self._log = None
-        self._name = None
         self._root = None
         self._log = self._get_log(attrs)
         self._directories = RunPaths(attrs.root, attrs.branches, attrs.rundir)
@@ -879,6 +878,7 @@ class Interface:
         self.log.update_directory(new)
         # Update the project metadata.
         self._update_metadata(str(old), str(new), new / '.eprem.conf')
+        self._attrs = self._restore_project(new)
         # Echo success, if applicable.
         if not silent:
             if self.root.parent == old.parent == pathlib.Path.cwd():
@@ -1064,9 +1064,7 @@ class Interface:
         
         This property is an alias for `~Interface.root.name`.
         """
-        if self._name is None:
-            self._name = self.root.name
-        return self._name
+        return self.root.name
 
     @property
     def runs(self):
-- 
2.43.0


From eb43090e69cf1513939b06adcf4dd8f17c706d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:27 +0000
Subject: [PATCH 008/135] fix: compare projects by their attributes

Interface.__eq__ compared the attribute containers by identity, so that two
interfaces to one project were never equal.
---
 src/eprempy/project.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/eprempy/project.py b/src/eprempy/project.py
index 72bb78b..715996f 100644
--- a/src/eprempy/project.py
+++ b/src/eprempy/project.py
@@ -677,6 +677,12 @@ class Attrs:
         """The local path component of the project log file."""
         return self._public['logname']
 
+    def __eq__(self, other) -> bool:
+        """True if two instances have the same attributes."""
+        if isinstance(other, Attrs):
+            return self._public == other._public
+        return NotImplemented
+
     def __repr__(self) -> str:
         """An unambiguous representation of this object."""
         display = {k: v for k, v in self._public.items() if k != 'branches'}
-- 
2.43.0


From a165df520153a7f74077e1823e2e07588dfb3957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:27 +0000
Subject: [PATCH 009/135] fix: replace the run log and project settings
 atomically

Both files were truncated before being rewritten, so that a crash, a write
error or an unserializable value lost every entry.
---
 src/eprempy/project.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/eprempy/project.py b/src/eprempy/project.py
index 715996f..5c6db03 100644
--- a/src/eprempy/project.py
+++ b/src/eprempy/project.py
@@ -42,6 +42,19 @@ class ReadTypeError(Exception):
     """There is no support for reading a given file type."""
 
 
+def _write_json(path: pathlib.Path, contents: typing.Mapping) -> None:
+    """Replace the contents of `path` in a single step."""
+    payload = json.dumps(contents, indent=4, sort_keys=True)
+    temporary = path.with_name(f"{path.name}.{os.getpid()}.tmp")
+    try:
+        temporary.write_text(payload)
+        os.replace(temporary, path)
+    except BaseException:
+        with contextlib.suppress(OSError):
+            temporary.unlink()
+        raise
+
+
 RunLogType = typing.TypeVar('RunLogType', bound='RunLog')
 
 
@@ -239,8 +252,7 @@ class RunLog(collections.abc.Mapping):
             k: str(v) if isinstance(v, pathlib.Path) else v
             for k, v in contents.items()
         }
-        with self.path.open('w') as fp:
-            json.dump(payload, fp, indent=4, sort_keys=True)
+        _write_json(self.path, payload)
 
     @property
     def name(self):
@@ -904,8 +916,7 @@ class Interface:
             current = dict(json.load(fp))
         updated = {k: v for k, v in current.items() if k != source}
         updated['root'] = target
-        with metadata.open('w') as fp:
-            json.dump(updated, fp, indent=4, sort_keys=True)
+        _write_json(metadata, updated)
         with contextlib.suppress(ValueError):
             sys.path.remove(source)
         sys.path.append(target)
-- 
2.43.0


From 931bed271073bfba650390282fd38724136f842f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:27 +0000
Subject: [PATCH 010/135] fix: load only the file contents into a new log entry

RunLog.load stored a copy of the whole log in the new entry.
---
 src/eprempy/project.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/eprempy/project.py b/src/eprempy/project.py
index 5c6db03..0a6ddd4 100644
--- a/src/eprempy/project.py
+++ b/src/eprempy/project.py
@@ -187,13 +187,10 @@ class RunLog(collections.abc.Mapping):
         return self
 
     def _read_from_file(self, source, filetype):
-        """Update the current contents from the `source` file."""
-        contents = self._asdict.copy()
+        """Read metadata from the `source` file."""
         loader = self._source_loader(filetype or pathlib.Path(source).suffix)
         with pathlib.Path(source).open('r') as fp:
-            if loaded := loader(fp):
-                contents.update(loaded)
-        return contents
+            return dict(loader(fp) or {})
 
     def _source_loader(self, filetype: str):
         """Get a format-specific file-reader."""
-- 
2.43.0


From 76521b47d7d205ad22080b93d92342440d332fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:27 +0000
Subject: [PATCH 011/135] fix: accept run names in the 'show' subcommand

The 'extend' action split each name into its characters.
---
 src/eprempy/project.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/project.py b/src/eprempy/project.py
index 0a6ddd4..429c0e9 100644
--- a/src/eprempy/project.py
+++ b/src/eprempy/project.py
@@ -1328,7 +1328,7 @@ showruns.add_argument(
         "display information about the named run"
         ";\nspecify multiple times to include multiple runs"
     ),
-    action='extend',
+    action='append',
 )
 showruns.add_argument(
     '-a',
-- 
2.43.0


From 8bfac18130517ec8b5ca48898410cd1e2bd5de16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:31 +0000
Subject: [PATCH 012/135] fix: open a project where it is, not where it was
 created

The stored root is out of date when the project directory has been moved or when
a rename was interrupted; opening the project then failed, or created new
directories at the old location.
---
 src/eprempy/project.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/project.py b/src/eprempy/project.py
index 429c0e9..16d2943 100644
--- a/src/eprempy/project.py
+++ b/src/eprempy/project.py
@@ -787,8 +787,8 @@ class Interface:
         """Load attributes of an existing project."""
         with (path / '.eprem.conf').open('r') as fp:
             old = dict(json.load(fp))
-        here = old.pop('root')
-        return Attrs(here, **old)
+        old.pop('root', None)
+        return Attrs(path, **old)
 
     def _get_log(self, attrs: Attrs):
         """Create or retrieve the log of runs."""
-- 
2.43.0


From 72c2bb4a5c84dc90f049235adbc727ecdf4ab5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:30 +0000
Subject: [PATCH 013/135] fix: give equal alias groups equal hashes

The hash depended on the iteration order of the underlying set, which may differ
between equal sets.
---
 src/eprempy/aliased.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/aliased.py b/src/eprempy/aliased.py
index 3e62fc1..071212e 100644
--- a/src/eprempy/aliased.py
+++ b/src/eprempy/aliased.py
@@ -50,7 +50,7 @@ class Group(collections.abc.Set, typing.Generic[_KT]):
 
     def __hash__(self) -> int:
         """Compute the hash of the underlying key set."""
-        return hash(tuple(self._aliases))
+        return hash(frozenset(self._aliases))
 
     def __bool__(self) -> bool:
         """Called for bool(self)."""
-- 
2.43.0


From beae92868fbfa850fec4896441559b863e62dbb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:30 +0000
Subject: [PATCH 014/135] fix: register either all or none of the given aliases

AliasedMapping.alias kept the aliases that preceded one already in use.
---
 src/eprempy/aliased.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/eprempy/aliased.py b/src/eprempy/aliased.py
index 071212e..d63478e 100644
--- a/src/eprempy/aliased.py
+++ b/src/eprempy/aliased.py
@@ -918,7 +918,8 @@ class MutableMapping(Mapping, collections.abc.MutableMapping):
         """
         if not aliases:
             return super().alias(key, include=include)
-        for alias in (a for a in aliases if a != key):
+        new = [a for a in aliases if a != key]
+        for alias in new:
             if alias in self._flat_keys():
                 current = super().alias(key)
                 this = ", ".join(str(a) for a in current)
@@ -927,9 +928,10 @@ class MutableMapping(Mapping, collections.abc.MutableMapping):
                 raise KeyError(
                     f"'{key}' is already an alias for {this!r}"
                 ) from None
+        for alias in new:
             updated = self._resolve(key) | alias
-            self.as_dict[updated] = self[key]
-            del self[key]
+            self.as_dict[updated] = self.as_dict.pop(self._resolve(key))
+            self._refresh()
 
     def group(self, name: str, *keys: str):
         """View or create a groups of aliased items.
-- 
2.43.0


From 4f2585a5254fae5ae674ff7c7d6860636d1e4636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:59 +0000
Subject: [PATCH 015/135] fix: accept denominators of more than one digit in
 symbolic operands

---
 src/eprempy/symbolic/_operand.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/symbolic/_operand.py b/src/eprempy/symbolic/_operand.py
index bd503c2..7f210b0 100644
--- a/src/eprempy/symbolic/_operand.py
+++ b/src/eprempy/symbolic/_operand.py
@@ -128,7 +128,7 @@ class OperandFactory(_part.Factory):
         (?=\d|\.\d)           # ... only if followed by <digit> or .<digit>
         \d*                   # and a possibly empty numerator
         (?:                   # followed by ...
-            (?:/\d+?)         # ... an optional denominator
+            (?:/\d+)          # ... an optional denominator
         |                     # OR
             (?:\.\d*)?        # ... an optional fractional part,
             (?:[eE][-+]?\d+)? #     and an optional exponent
@@ -649,7 +649,7 @@ class Term(Operand):
         (?=\d|\.\d)           # ... only if followed by <digit> or .<digit>
         \d*                   # and a possibly empty numerator
         (?:                   # followed by ...
-            (?:/\d+?)         # ... an optional denominator
+            (?:/\d+)          # ... an optional denominator
         |                     # OR
             (?:\.\d*)?        # ... an optional fractional part,
             (?:[eE][-+]?\d+)? #     and an optional exponent
-- 
2.43.0


From 29d19956452e60dc53719250660c725ef70c58d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:24 +0000
Subject: [PATCH 016/135] fix: keep zero coefficients and exponents of symbolic
 operands

---
 src/eprempy/symbolic/_operand.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/eprempy/symbolic/_operand.py b/src/eprempy/symbolic/_operand.py
index 7f210b0..81170f7 100644
--- a/src/eprempy/symbolic/_operand.py
+++ b/src/eprempy/symbolic/_operand.py
@@ -68,11 +68,15 @@ class Operand(_part.Part):
         base: str=None,
         exponent: numbers.Real=None,
     ) -> None:
-        self.coefficient = fractions.Fraction(coefficient or 1)
+        self.coefficient = fractions.Fraction(
+            1 if coefficient is None else coefficient
+        )
         """The numerical coefficient."""
         self.base = base or '1'
         """The base term or complex."""
-        self.exponent = fractions.Fraction(exponent or 1)
+        self.exponent = fractions.Fraction(
+            1 if exponent is None else exponent
+        )
         """The numerical exponent."""
 
     @property
@@ -580,13 +584,15 @@ class OperandFactory(_part.Factory):
         default = self.fill_defaults(**dict.fromkeys(full.keys()))
         updatable = full.copy() if fill else {k: full[k] for k in given}
         return {
-            key: attr['callable'](given.get(key) or default[key])
+            key: attr['callable'](
+                default[key] if etc.isnull(given.get(key)) else given[key]
+            )
             for key, attr in updatable.items()
         }
 
     def _standard_coefficient(self, v):
         """Convert input to a standard coefficient."""
-        return fractions.Fraction(v or 1)
+        return fractions.Fraction(v)
 
     def _standard_base(self, v):
         """Convert input to a standard base."""
@@ -596,7 +602,7 @@ class OperandFactory(_part.Factory):
         """Convert input to a standard exponent."""
         if isinstance(v, str):
             v = self.patterns['raising'].sub('', v)
-        return fractions.Fraction(v or 1)
+        return fractions.Fraction(v)
 
     def fill_defaults(self, **given):
         """Return the default value for any explicitly null arguments.
@@ -615,7 +621,7 @@ class OperandFactory(_part.Factory):
             {
                 key: defaults[key]
                 for key, value in given.items()
-                if key in defaults and not value
+                if key in defaults and etc.isnull(value)
             }
         )
         return given
-- 
2.43.0


From 1f875bd86c96e7f96f8c77f15835f9016cbcbcb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:49 +0000
Subject: [PATCH 017/135] fix: keep rational constants exact in symbolic
 expressions

---
 src/eprempy/symbolic/_operand.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/symbolic/_operand.py b/src/eprempy/symbolic/_operand.py
index 81170f7..3d367e9 100644
--- a/src/eprempy/symbolic/_operand.py
+++ b/src/eprempy/symbolic/_operand.py
@@ -459,7 +459,7 @@ class OperandFactory(_part.Factory):
         standard = self.standardize(**match.groupdict(), fill=True)
         coefficient = standard['coefficient'] ** standard['exponent']
         return _part.Match(
-            result=term_factory(coefficient=float(coefficient)),
+            result=term_factory(coefficient=coefficient),
             context=match,
         )
 
-- 
2.43.0


From 2546267b7435bb9f1de62e6881b9879649089dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:10 +0000
Subject: [PATCH 018/135] fix: parse 'sqrt' after an explicit operator

---
 src/eprempy/symbolic/_parser.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/eprempy/symbolic/_parser.py b/src/eprempy/symbolic/_parser.py
index 66de152..a52a1b4 100644
--- a/src/eprempy/symbolic/_parser.py
+++ b/src/eprempy/symbolic/_parser.py
@@ -181,6 +181,14 @@ class Parser:
         current: Iteration,
     ) -> Iteration:
         """Attempt to parse an operand from the current string."""
+        if current.operator in {'multiply', 'divide'}:
+            function = self.operators.parse(current.string)
+            if function and function.result == 'sqrt':
+                if parsed := self.operands.parse(function.remainder):
+                    operand = parsed.result ** initial.exponent
+                    current.operand = self._evaluate(function.result, operand)
+                    current.string = parsed.remainder
+                    return current
         if parsed := self.operands.parse(current.string):
             current.operand = parsed.result ** initial.exponent
             current.string = parsed.remainder
-- 
2.43.0


From a0a676b5bdcb21a93f1f97a0c844bb8052498b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:10 +0000
Subject: [PATCH 019/135] fix: raise symbolic expressions to zero and to exact
 rational powers

---
 src/eprempy/symbolic/_expression.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/eprempy/symbolic/_expression.py b/src/eprempy/symbolic/_expression.py
index 9a08891..60cf22b 100644
--- a/src/eprempy/symbolic/_expression.py
+++ b/src/eprempy/symbolic/_expression.py
@@ -215,11 +215,11 @@ class Expression(collections.abc.Sequence):
 
         This method implements exponentiation of an expression by raising all
         terms to the given power, then reducing exponents of terms with a common
-        base. It will first attempt to convert `exp` to a float.
+        base. It will first attempt to convert `exp` to a float, unless it is a
+        rational number.
         """
-        exp = float(exp)
-        if not exp:
-            return NotImplemented
+        if not isinstance(exp, numbers.Rational):
+            exp = float(exp)
         terms = [pow(term, exp) for term in self]
         return expression_factory(reduce(terms))
 
-- 
2.43.0


From e1d0dddc4820dd31191d108ea84a49d6cfa770f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:34 +0000
Subject: [PATCH 020/135] fix: make symbolic hashes consistent with equality,
 and reject indices below range

---
 src/eprempy/symbolic/_expression.py | 4 ----
 src/eprempy/symbolic/_operand.py    | 3 ++-
 2 files changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/eprempy/symbolic/_expression.py b/src/eprempy/symbolic/_expression.py
index 60cf22b..3338102 100644
--- a/src/eprempy/symbolic/_expression.py
+++ b/src/eprempy/symbolic/_expression.py
@@ -45,10 +45,6 @@ class Expression(collections.abc.Sequence):
         """Access terms via standard indexing."""
         if isinstance(index, typing.SupportsIndex):
             idx = int(index)
-            if idx > len(self):
-                raise IndexError(index)
-            if idx < 0:
-                idx += len(self)
             return self.terms[idx]
         if isinstance(index, slice):
             return self.terms[index]
diff --git a/src/eprempy/symbolic/_operand.py b/src/eprempy/symbolic/_operand.py
index 3d367e9..b0f2a65 100644
--- a/src/eprempy/symbolic/_operand.py
+++ b/src/eprempy/symbolic/_operand.py
@@ -785,7 +785,8 @@ class Term(Operand):
         # to explicitly define `Term.__hash__`. See
         # https://docs.python.org/3/reference/datamodel.html#object.__hash__ for
         # an explanation.
-        return hash(self.attrs)
+        # The numerical conversions are necessary for consistency with `__eq__`.
+        return hash((float(self.coefficient), self.base, float(self.exponent)))
 
 
 @typing.overload
-- 
2.43.0


From 8b793081f08db232e636ee035ed9cdddfdebb4f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:10 +0000
Subject: [PATCH 021/135] fix: parse small numbers in exponential notation as
 constants

---
 src/eprempy/symbolic/_operand.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/eprempy/symbolic/_operand.py b/src/eprempy/symbolic/_operand.py
index b0f2a65..fa7d37d 100644
--- a/src/eprempy/symbolic/_operand.py
+++ b/src/eprempy/symbolic/_operand.py
@@ -413,7 +413,9 @@ class OperandFactory(_part.Factory):
         -----
         This method tries to match the 'variable' pattern before the 'constant'
         pattern because `re.match` will find a match for 'constant' at the start
-        of any variable term with an explicit coefficient.
+        of any variable term with an explicit coefficient. It prefers 'constant'
+        if that pattern matches at least as much as 'variable' because the
+        latter will match the 'e' of a number in exponential notation.
         """
         target = string[start:]
         matches = {
@@ -423,8 +425,8 @@ class OperandFactory(_part.Factory):
         if not any(matches.values()):
             return
         if all(matches.values()):
-            same = matches['variable'][0] == matches['constant'][0]
-            key = 'constant' if same else 'variable'
+            variable, constant = matches['variable'], matches['constant']
+            key = 'constant' if constant.end() >= variable.end() else 'variable'
             build_method = self._get_build_method(key)
             return build_method(matches[key])
         for key, match in matches.items():
-- 
2.43.0


From b0fbed1c5f1c646d4d3de89110a546b4de169798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:10 +0000
Subject: [PATCH 022/135] fix: keep coefficients when updating the bases of an
 expression

---
 src/eprempy/symbolic/_expression.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/eprempy/symbolic/_expression.py b/src/eprempy/symbolic/_expression.py
index 3338102..18ad1f2 100644
--- a/src/eprempy/symbolic/_expression.py
+++ b/src/eprempy/symbolic/_expression.py
@@ -237,6 +237,9 @@ class Expression(collections.abc.Sequence):
         result = bases[0] ** exponents[0]
         for base, exponent in zip(bases[1:], exponents[1:]):
             result *= base ** exponent
+        for term in self:
+            if term.coefficient != 1:
+                result *= term.coefficient
         return result
 
 
-- 
2.43.0


From 9de4d96e1a9473364786111bfe5fe490471f52ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:09 +0000
Subject: [PATCH 023/135] fix: raise expressions to the exact rational value of
 a float

---
 src/eprempy/symbolic/_expression.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/eprempy/symbolic/_expression.py b/src/eprempy/symbolic/_expression.py
index 18ad1f2..74f5ea7 100644
--- a/src/eprempy/symbolic/_expression.py
+++ b/src/eprempy/symbolic/_expression.py
@@ -211,11 +211,9 @@ class Expression(collections.abc.Sequence):
 
         This method implements exponentiation of an expression by raising all
         terms to the given power, then reducing exponents of terms with a common
-        base. It will first attempt to convert `exp` to a float, unless it is a
-        rational number.
+        base. It will first attempt to convert `exp` to a rational number.
         """
-        if not isinstance(exp, numbers.Rational):
-            exp = float(exp)
+        exp = fractions.Fraction(exp)
         terms = [pow(term, exp) for term in self]
         return expression_factory(reduce(terms))
 
-- 
2.43.0


From e13b45fe0374dcb1e0d2f5d09293ebd1ff580125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:51 +0000
Subject: [PATCH 024/135] fix: convert compound and dimensionless units by the
 ratios of all terms

---
 src/eprempy/metric/_conversions.py | 204 +++++++++++++++--------------
 1 file changed, 106 insertions(+), 98 deletions(-)

diff --git a/src/eprempy/metric/_conversions.py b/src/eprempy/metric/_conversions.py
index 312e394..62d1649 100644
--- a/src/eprempy/metric/_conversions.py
+++ b/src/eprempy/metric/_conversions.py
@@ -118,9 +118,14 @@ def _convert(u0: str, u1: str):
 
 def _convert_as_strings(u0: str, u1: str) -> typing.Optional[float]:
     """Attempt to convert `u0` to `u1` as strings."""
-    checked = []
-    if factor := _recursive_conversion(checked, u0, u1):
+    if factor := _recursive_conversion([], u0, u1):
         return factor
+    if not all(unit in _reference.NAMED_UNITS for unit in (u0, u1)):
+        return
+    # Compute the conversion between unscaled units.
+    n0, n1 = (_defined.NamedUnit(unit) for unit in (u0, u1))
+    if factor := _recursive_conversion([], n0.base.symbol, n1.base.symbol):
+        return factor * n0.scale / n1.scale
 
 
 def _recursive_conversion(
@@ -165,13 +170,14 @@ def _convert_as_expressions(u0: str, u1: str):
     e0, e1 = (symbolic.expression(unit) for unit in (u0, u1))
     if e0 == e1:
         return 1.0
-    terms = [
-        term for term in (e0 / e1).terms
-        if term.base not in _reference.UNITY
-    ]
-    if factor := _resolve_terms(terms):
+    terms = _reduce_terms((e0 / e1).terms)
+    factor, unresolved = _resolve_terms(terms)
+    if not unresolved:
         return factor
-    if factor := _convert_by_dimensions(terms):
+    if result := _convert_by_dimensions(unresolved):
+        return factor * result
+    factor, unresolved = _resolve_terms(terms, strict=False)
+    if not unresolved:
         return factor
 
 
@@ -286,118 +292,120 @@ def _convert_by_dimensions(terms: typing.List[symbolic.Term]):
     factor = 1.0
     decomposed = []
     for term in terms:
-        if decomposition := _decompose_unit(term):
-            scale, units = decomposition
-            decomposed.extend(units)
-            factor *= scale
-    if symbolic.expression(decomposed) == '1':
-        return factor
-    cancelled = _cancel_terms(decomposed)
-    reduced = _reduce_terms(cancelled)
-    if result := _resolve_terms(reduced):
+        scale, units = _decompose_unit(term)
+        decomposed.extend(units)
+        factor *= scale
+    result, unresolved = _resolve_terms(_reduce_terms(decomposed))
+    if not unresolved:
         return factor * result
 
 
 def _decompose_unit(term: symbolic.Term):
-    """Convert a unit into fundamental units, if possible."""
+    """Convert a unit into a scale and fundamental units, if possible.
+
+    If there is no known decomposition of the given unit, this function will
+    return the original term with a scale of unity.
+    """
     exponent = term.exponent
     if reduction := _reduce_unit(term.base, exponent):
-        return 1.0, reduction
-    for system in _reference.SYSTEMS:
-        norm = _defined.NamedUnit(term.base).norm[system]
-        if reduction := _reduce_unit(norm.symbol, exponent):
-            if factor := _convert_as_strings(term.base, norm.symbol):
-                return factor**exponent, reduction
+        return reduction
+    named = _defined.NamedUnit(term.base)
+    for system in ('mks', 'cgs'):
+        try:
+            norm = named.norm[system].symbol
+        except (KeyError, _exceptions.UnitParsingError):
+            # The canonical unit of this quantity is not a named unit.
+            continue
+        if reduction := _reduce_unit(norm, exponent):
+            if factor := _convert_as_strings(term.base, norm):
+                scale, units = reduction
+                return scale * factor**exponent, units
+    return 1.0, [term]
 
 
 def _reduce_unit(base: str, exponent: numbers.Real):
     """Compute the equivalent expression in fundamental units, if possible."""
-    if reduction := _defined.NamedUnit(base).reduce():
-        return [
-            symbolic.term(
-                coefficient=reduction.scale**exponent,
-                base=this.base,
-                exponent=exponent*this.exponent,
-            )
+    try:
+        reduction = _defined.NamedUnit(base).reduce()
+    except _exceptions.SystemAmbiguityError:
+        return
+    if reduction:
+        scale = float(reduction.scale) ** float(exponent)
+        units = [
+            symbolic.term(base=this.base, exponent=exponent*this.exponent)
             for this in reduction.units
         ]
+        return scale, units
 
 
-def _cancel_terms(terms: typing.List[symbolic.Term]):
-    """Cancel out terms with equal magnitude and opposite exponent."""
-    # TODO: Reduce redundancy with `_resolve_terms`.
-    matched = []
-    unmatched = terms.copy()
-    for target in terms:
-        if target not in matched:
-            inverse_powers = [
-                term for term in terms
-                if term != target and term.exponent == -target.exponent
-            ]
-            for term in inverse_powers:
-                if term.base == target.base:
-                    for this in (target, term):
-                        matched.append(this)
-                        unmatched.remove(this)
-    return unmatched
-
-
-def _resolve_terms(terms: typing.List[symbolic.Term]):
-    """Compute ratios of terms with comparable exponents, if possible."""
-    # TODO: Reduce redundancy with `_cancel_terms`.
-    if len(terms) <= 1:
-        # We require at least two terms for a ratio.
-        return
+def _resolve_terms(
+    terms: typing.List[symbolic.Term],
+    strict: bool=True,
+) -> typing.Tuple[float, typing.List[symbolic.Term]]:
+    """Factor ratios of comparable units, and numbers, out of `terms`.
+
+    Two units are comparable if they represent the same quantity or, when
+    `strict` is false, if there is a known conversion between them (e.g., from
+    'nuc' to 'kg').
+
+    Returns
+    -------
+    tuple
+        The product of all ratios, and a list of the unresolved terms.
+    """
     factor = 1.0
-    matched = []
-    unmatched = terms.copy()
-    for target in terms:
-        if target not in matched:
-            if match := _match_exponents(target, unmatched):
-                value, term = match
-                if term != target:
-                    for this in (target, term):
-                        matched.append(this)
-                        unmatched.remove(this)
-                else:
-                    matched.append(target)
-                    unmatched.remove(target)
-                factor *= value
-    if not unmatched:
-        return factor
+    unresolved = []
+    remaining = list(terms)
+    while remaining:
+        target = remaining.pop(0)
+        exponent = target.exponent
+        incomparable = []
+        for term in remaining:
+            if ratio := _compare(term.base, target.base, strict):
+                factor *= ratio ** float(term.exponent)
+                exponent += term.exponent
+            else:
+                incomparable.append(term)
+        remaining = incomparable
+        if exponent != 0:
+            if _is_number(target.base):
+                factor *= _compute_magnitude(target.base) ** float(exponent)
+            else:
+                base = symbolic.term(base=target.base, exponent=exponent)
+                unresolved.append(base)
+    return factor, unresolved
+
+
+def _compare(u0: str, u1: str, strict: bool):
+    """Compute the conversion from `u0` to `u1` if they are comparable."""
+    if strict:
+        q0, q1 = (_defined.NamedUnit(unit).quantity for unit in (u0, u1))
+        if q0 != q1:
+            return
+    return _convert_as_strings(u0, u1)
 
 
 def _reduce_terms(terms: typing.List[symbolic.Term]):
     """Partially or fully cancel terms with equal bases."""
-    return symbolic.expression(terms).terms
+    return [
+        term for term in symbolic.expression(terms).terms
+        if term.base not in _reference.UNITY
+    ]
 
 
-def _match_exponents(
-    target: symbolic.Term,
-    terms: typing.Iterable[symbolic.Term],
-) -> typing.Optional[typing.Tuple[float, symbolic.Term]]:
-    """Attempt to convert `target` to a term in `terms` by exponent.
+def _is_number(unit: str):
+    """True if `unit` is a dimensionless named unit."""
+    dimensions = _defined.NamedUnit(unit).dimensions.values()
+    return all(d == '1' for d in dimensions)
 
-    This function first checks whether `target` is a dimensionless reference
-    unit and, if so, returns a conversion factor of 1.0 along with `target`. If
-    that check fails, this function compares `target` to each term in `terms`
-    that has an exponent with the same magnitude and opposite sign. If it can
-    convert the base unit of `target` to the base unit of a term in `terms`, it
-    will return the corresponding conversion factor and the matching term.
-    """
-    u0 = target.base
-    dimensions = _defined.NamedUnit(u0).dimensions.values()
-    if u0 in _reference.NAMED_UNITS and all(d == '1' for d in dimensions):
-        return 1.0, target
-    exponent = target.exponent
-    inverse_powers = [
-        term for term in terms
-        if term != target and term.exponent == -exponent
-    ]
-    for term in inverse_powers:
-        u1 = term.base
-        if conversion := _convert_as_strings(u0, u1):
-            return conversion ** exponent, term
+
+def _compute_magnitude(unit: str):
+    """Compute the magnitude of the dimensionless unit `unit`."""
+    named = _defined.NamedUnit(unit)
+    for norm in {named.norm[system].symbol for system in ('mks', 'cgs')}:
+        if factor := _convert_as_strings(unit, norm):
+            return factor
+    return named.scale
 
 
 @etc.autostr
-- 
2.43.0


From 1d9af12ea0da1f0bc71923daf7a56a605b25cf61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:00 +0000
Subject: [PATCH 025/135] fix: correct electromagnetic conversion factors
 between mks and cgs

---
 src/eprempy/metric/_reference.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/eprempy/metric/_reference.py b/src/eprempy/metric/_reference.py
index 1ceb542..621d1b0 100644
--- a/src/eprempy/metric/_reference.py
+++ b/src/eprempy/metric/_reference.py
@@ -779,17 +779,17 @@ PI = numpy.pi
 _CONVERSIONS = {
     ('Rs', 'm'): 6.96e8,
     ('F', 'cm'): C**2 * 1e-9,
-    ('C', 'statC'): 10*C,
+    ('C', 'statC'): C / 10,
     ('e', 'C'): 1.6022e-19,
     ('S', 'cm / s'): C**2 * 1e-5,
-    ('A', 'statA'): 10*C,
+    ('A', 'statA'): C / 10,
     # ('C / m^2', 'statC / m^2'): 4*PI * C * 1e-3,
     ('Gy', 'erg / g'): 1e4,
     ('J', 'erg'): 1e7,
     ('eV', 'J'): 1.6022e-19,
     ('N', 'dyn'): 1e5,
-    ('ohm', 's / cm'): 1e5 / C**2,
-    ('H', 's^2 / cm'): 1e5 / C**2,
+    ('ohm', 's / cm'): 1e9 / C**2,
+    ('H', 's^2 / cm'): 1e9 / C**2,
     # ('m', 'cm'): 1e2,
     ('au', 'm'): 1.495978707e11,
     ('Wb', 'Mx'): 1e8,
@@ -800,10 +800,10 @@ _CONVERSIONS = {
     ('nuc', 'kg'): 1.6605e-27,
     ('amu', 'kg'): 1.6605e-27,
     # ('kg * m / s', 'g * cm / s'): 1e5,
-    ('H / m', '1'): 1e7 / 4*PI,
-    ('F / m', '1'): 36*PI * 1e9,
+    ('H / m', '1'): 1e7 / (4*PI),
+    ('F / m', '1'): 4*PI * C**2 * 1e-11,
     ('rad', 'deg'): 180 / PI,
-    ('V', 'statV'): 1e6 / C,
+    ('V', 'statV'): 1e8 / C,
     ('W', 'erg / s'): 1e7,
     ('Pa', 'dyn / cm^2'): 1e1,
     ('Bq', 'Ci'): 1.0 / 3.7e10,
-- 
2.43.0


From 88054612253950882ed068bd734112207d2bc00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:09 +0000
Subject: [PATCH 026/135] fix: correct the units and dimensions of
 permittivity, illuminance, and displacement

---
 src/eprempy/metric/_reference.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/eprempy/metric/_reference.py b/src/eprempy/metric/_reference.py
index 621d1b0..f44b46b 100644
--- a/src/eprempy/metric/_reference.py
+++ b/src/eprempy/metric/_reference.py
@@ -432,7 +432,7 @@ _QUANTITIES = {
         },
         'units': {
             'mks': 'C / m^2',
-            'cgs': 'statC / m^2',
+            'cgs': 'statC / cm^2',
         },
     },
     'dosage': {
@@ -491,7 +491,7 @@ _QUANTITIES = {
             'cgs': '1',
         },
     },
-    'illumunance': { # See note about radian (Kalinin 2019).
+    'illuminance': { # See note about radian (Kalinin 2019).
         'dimensions': {
             'mks': 'J / L^2',
             'cgs': 'J / L^2',
@@ -636,7 +636,7 @@ _QUANTITIES = {
     },
     'permittivity': {
         'dimensions': {
-            'mks': 'T^4 * I / (M * L^3)',
+            'mks': 'T^4 * I^2 / (M * L^3)',
             'cgs': '1',
         },
         'units': {
-- 
2.43.0


From 532129544d14074dfe1c7c5caa24f120bcca77db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:13 +0000
Subject: [PATCH 027/135] fix: accept unit symbols with non-ASCII letters

---
 src/eprempy/symbolic/_operand.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/eprempy/symbolic/_operand.py b/src/eprempy/symbolic/_operand.py
index fa7d37d..4d62010 100644
--- a/src/eprempy/symbolic/_operand.py
+++ b/src/eprempy/symbolic/_operand.py
@@ -139,8 +139,8 @@ class OperandFactory(_part.Factory):
         )
     """
     base = r"""
-        [a-zA-Z#_]+ # one or more accepted non-digit character(s)
-        \d*         # followed by optional digits
+        (?:[^\W\d]|[#])+ # one or more accepted non-digit character(s)
+        \d*             # followed by optional digits
     """
 
     def __init__(
@@ -664,8 +664,8 @@ class Term(Operand):
         )
     """
     base = r"""
-        [a-zA-Z#_]+ # one or more accepted non-digit character(s)
-        \d*         # followed by optional digits
+        (?:[^\W\d]|[#])+ # one or more accepted non-digit character(s)
+        \d*             # followed by optional digits
     """
     _base_re = re.compile(fr'({rational}|{base})', re.VERBOSE)
 
-- 
2.43.0


From 9046d4e8acbf312709452c1596ead6bac04858b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:50 +0000
Subject: [PATCH 028/135] fix: refuse units with numerical coefficients, and
 accept full names of units

---
 src/eprempy/metric/_conversions.py |  3 +++
 src/eprempy/metric/_units.py       | 12 ++++++++++--
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/metric/_conversions.py b/src/eprempy/metric/_conversions.py
index 62d1649..8923d17 100644
--- a/src/eprempy/metric/_conversions.py
+++ b/src/eprempy/metric/_conversions.py
@@ -170,6 +170,9 @@ def _convert_as_expressions(u0: str, u1: str):
     e0, e1 = (symbolic.expression(unit) for unit in (u0, u1))
     if e0 == e1:
         return 1.0
+    if any(term.coefficient != 1 for term in (*e0, *e1)):
+        # A numerical multiple of a unit is not a unit.
+        return
     terms = _reduce_terms((e0 / e1).terms)
     factor, unresolved = _resolve_terms(terms)
     if not unresolved:
diff --git a/src/eprempy/metric/_units.py b/src/eprempy/metric/_units.py
index 60c6fd5..c5fd289 100644
--- a/src/eprempy/metric/_units.py
+++ b/src/eprempy/metric/_units.py
@@ -407,8 +407,12 @@ def unit_factory(arg: typing.Union[str, Unit]) -> Unit:
     if available := _units.get(string):
         # If the argument maps to an existing unit, return that unit.
         return available
-    # First time through: create a symbolic expression from `arg`.
-    expression = symbolic.expression(arg)
+    # First time through: create a symbolic expression from `arg`. Note that a
+    # named unit may not be a valid expression (e.g., 'astronomical unit').
+    named = string in _reference.NAMED_UNITS
+    expression = symbolic.expression(
+        _defined.NamedUnit(string).symbol if named else arg
+    )
     # The canonical string representation of this unit is the expression
     # string of its unit symbols. For example, both 'm / s' and 'meter /
     # second' should map to 'm / s'.
@@ -478,6 +482,10 @@ def normalize(
 
 def _as_symbol(unit: symbolic.Term):
     """Represent `unit` in terms of its symbol."""
+    if unit.coefficient != 1:
+        raise ValueError(
+            f"Cannot create a unit from {str(unit)!r}"
+        ) from None
     this = _reference.NAMED_UNITS[unit.base]
     prefix = this['prefix']['symbol']
     base = this['base']['symbol']
-- 
2.43.0


From 1f05ce3193c2e064ff011f1be055b0277dd0c820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:32 +0000
Subject: [PATCH 029/135] fix: do not convert permeability to permittivity via
 dimensionless units

---
 src/eprempy/metric/_conversions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/eprempy/metric/_conversions.py b/src/eprempy/metric/_conversions.py
index 8923d17..519bd52 100644
--- a/src/eprempy/metric/_conversions.py
+++ b/src/eprempy/metric/_conversions.py
@@ -141,6 +141,9 @@ def _recursive_conversion(
             return factor
         conversions = _reference.CONVERSIONS.get_adjacencies(u0).items()
         for unit, weight in conversions:
+            if unit in _reference.UNITY:
+                # Distinct quantities may be dimensionless in one system.
+                continue
             if value := _recursive_conversion(checked, unit, u1, scale=scale):
                 return weight * value
 
-- 
2.43.0


From 0c490881b2f0a7b65c98a77784db3152e61e0022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:00 +0000
Subject: [PATCH 030/135] fix: convert compound units and full names however
 they are written

---
 src/eprempy/metric/_conversions.py | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/metric/_conversions.py b/src/eprempy/metric/_conversions.py
index 519bd52..ddf823c 100644
--- a/src/eprempy/metric/_conversions.py
+++ b/src/eprempy/metric/_conversions.py
@@ -118,7 +118,7 @@ def _convert(u0: str, u1: str):
 
 def _convert_as_strings(u0: str, u1: str) -> typing.Optional[float]:
     """Attempt to convert `u0` to `u1` as strings."""
-    if factor := _recursive_conversion([], u0, u1):
+    if factor := _recursive_conversion([], _find_node(u0), _find_node(u1)):
         return factor
     if not all(unit in _reference.NAMED_UNITS for unit in (u0, u1)):
         return
@@ -128,6 +128,25 @@ def _convert_as_strings(u0: str, u1: str) -> typing.Optional[float]:
         return factor * n0.scale / n1.scale
 
 
+def _find_node(unit: str):
+    """Find the defined compound unit equal to `unit`, if there is one."""
+    if unit in _reference.NAMED_UNITS or unit in _reference.CONVERSIONS.nodes:
+        return unit
+    expression = symbolic.expression(unit)
+    for node, this in _compound_nodes.items():
+        if this == expression:
+            return node
+    return unit
+
+
+_compound_nodes = {
+    node: symbolic.expression(node)
+    for node in sorted(_reference.CONVERSIONS.nodes)
+    if node not in _reference.NAMED_UNITS
+}
+"""Internal collection of compound units in the defined conversions."""
+
+
 def _recursive_conversion(
     checked: typing.List[str],
     u0: str,
@@ -170,7 +189,12 @@ def _standard_conversion(
 
 def _convert_as_expressions(u0: str, u1: str):
     """Convert complex unit expressions term-by-term."""
-    e0, e1 = (symbolic.expression(unit) for unit in (u0, u1))
+    e0, e1 = (
+        symbolic.expression(
+            _defined.NamedUnit(unit).symbol
+            if unit in _reference.NAMED_UNITS else unit
+        ) for unit in (u0, u1)
+    )
     if e0 == e1:
         return 1.0
     if any(term.coefficient != 1 for term in (*e0, *e1)):
-- 
2.43.0


From f595db5e730ef6e9389fa1fcf68f740fdd981b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:38 +0000
Subject: [PATCH 031/135] fix: keep the symbol of candela when centiday is in
 use

---
 src/eprempy/metric/_defined.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/metric/_defined.py b/src/eprempy/metric/_defined.py
index d351264..32ea5f3 100644
--- a/src/eprempy/metric/_defined.py
+++ b/src/eprempy/metric/_defined.py
@@ -238,7 +238,13 @@ class _NamedUnitMeta(abc.ABCMeta):
         # `NamedUnit.__init__`, which will initialize the newly instantiated
         # instance with the stored attributes corresponding to `str(arg)`.
         instance = super().__call__(arg)
-        cls._instances[(name, symbol)] = instance
+        # A key may instead represent a different unit (e.g., the symbol of
+        # centiday, 'cd', represents candela).
+        unit = _reference.NAMED_UNITS[string]
+        cls._instances[tuple(
+            key for key in (name, symbol)
+            if _reference.NAMED_UNITS.get(key) == unit
+        )] = instance
         return instance
 
 
-- 
2.43.0


From 7c008cbfa0b74cd58f4608dceab1c0b8cfa51f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:38 +0000
Subject: [PATCH 032/135] fix: correct the first radiation constant in cgs

---
 src/eprempy/universal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/universal.py b/src/eprempy/universal.py
index f35c489..35723b4 100644
--- a/src/eprempy/universal.py
+++ b/src/eprempy/universal.py
@@ -106,7 +106,7 @@ _constants = {
     'c1': {
         'info': "First radiation constant.",
         'mks': {'unit': 'W * m^2', 'value': 3.7418e-16},
-        'cgs': {'unit': 'erg * cm^2 / s', 'value': 3.7418e-16},
+        'cgs': {'unit': 'erg * cm^2 / s', 'value': 3.7418e-5},
         'quantity': 'power * area',
     },
     'c2': {
-- 
2.43.0


From bcf0b17fdbb1e4509b349d4ad8ffabe511d455e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:23 +0000
Subject: [PATCH 033/135] fix: combine equal units given by name and by symbol

---
 src/eprempy/metric/_conversions.py | 28 ++++++++++++++++++++++------
 src/eprempy/metric/_units.py       |  2 +-
 2 files changed, 23 insertions(+), 7 deletions(-)

diff --git a/src/eprempy/metric/_conversions.py b/src/eprempy/metric/_conversions.py
index ddf823c..ed612b7 100644
--- a/src/eprempy/metric/_conversions.py
+++ b/src/eprempy/metric/_conversions.py
@@ -189,12 +189,7 @@ def _standard_conversion(
 
 def _convert_as_expressions(u0: str, u1: str):
     """Convert complex unit expressions term-by-term."""
-    e0, e1 = (
-        symbolic.expression(
-            _defined.NamedUnit(unit).symbol
-            if unit in _reference.NAMED_UNITS else unit
-        ) for unit in (u0, u1)
-    )
+    e0, e1 = (_create_expression(unit) for unit in (u0, u1))
     if e0 == e1:
         return 1.0
     if any(term.coefficient != 1 for term in (*e0, *e1)):
@@ -211,6 +206,27 @@ def _convert_as_expressions(u0: str, u1: str):
         return factor
 
 
+def _create_expression(unit: str):
+    """Create a reduced expression of the unit symbols in `unit`."""
+    if unit in _reference.NAMED_UNITS:
+        return symbolic.expression(_get_symbol(unit))
+    return symbolic.expression([
+        symbolic.term(
+            coefficient=term.coefficient,
+            base=_get_symbol(term.base),
+            exponent=term.exponent,
+        ) for term in symbolic.expression(unit)
+    ])
+
+
+def _get_symbol(unit: str):
+    """Get the symbol of a named unit, if it uniquely represents that unit."""
+    symbol = _defined.NamedUnit(unit).symbol
+    if _reference.NAMED_UNITS[symbol] == _reference.NAMED_UNITS[unit]:
+        return symbol
+    return unit
+
+
 def _simple_conversion(u0: str, u1: str, scale: float=1.0):
     """Attempt to compute a simple conversion from `u0` to `u1`.
     
diff --git a/src/eprempy/metric/_units.py b/src/eprempy/metric/_units.py
index c5fd289..1a1fe67 100644
--- a/src/eprempy/metric/_units.py
+++ b/src/eprempy/metric/_units.py
@@ -417,7 +417,7 @@ def unit_factory(arg: typing.Union[str, Unit]) -> Unit:
     # string of its unit symbols. For example, both 'm / s' and 'meter /
     # second' should map to 'm / s'.
     symbols = [_as_symbol(term) for term in expression]
-    instance = Unit(symbols)
+    instance = Unit(symbolic.reduce(symbols))
     name = str(instance)
     if name in _units:
         # It turns out that the argument corresponds to an existing unit.
-- 
2.43.0


From 20375515ba9ea2fbd8c6dbfa8ee2399dfde808bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:11 +0000
Subject: [PATCH 034/135] fix: refuse unknown quantities with KeyError instead
 of recursing

---
 src/eprempy/metric/_defined.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/metric/_defined.py b/src/eprempy/metric/_defined.py
index 32ea5f3..2d89f43 100644
--- a/src/eprempy/metric/_defined.py
+++ b/src/eprempy/metric/_defined.py
@@ -116,9 +116,12 @@ class _Property(collections.abc.Mapping):
     _operand = symbolic.OperandFactory()
     def _expand(self, term: symbolic.Term):
         """Create a `dict` of operands from this term."""
+        quantity = term.base.replace('_', ' ')
+        if quantity not in _reference._QUANTITIES:
+            raise KeyError(f"Unknown quantity {quantity!r}") from None
         return {
             k: self._operand.create(v, term.exponent)
-            for k, v in self[term.base.replace('_', ' ')].items()
+            for k, v in self[quantity].items()
         }
 
     def __str__(self) -> str:
-- 
2.43.0


From 8d4892f9892bf378747c0e0ee3aabf022a612ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:27 +0000
Subject: [PATCH 035/135] fix: normalize units of quantities with compound
 names

---
 src/eprempy/metric/_units.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/eprempy/metric/_units.py b/src/eprempy/metric/_units.py
index 1a1fe67..83abaa6 100644
--- a/src/eprempy/metric/_units.py
+++ b/src/eprempy/metric/_units.py
@@ -468,11 +468,10 @@ def normalize(
     -------
     `~Unit`
     """
+    if quantity is not None:
+        return unit_factory(_defined.UNITS[str(quantity)][system])
     this = unit_factory(unit)
-    terms = (
-        _defined.get_quantity(this) if quantity is None
-        else symbolic.expression(quantity)
-    )
+    terms = _defined.get_quantity(this)
     expression = [
         symbolic.power(_defined.UNITS[term.base][system], term.exponent)
         for term in terms
-- 
2.43.0


From 2798022061d5a168aeef23e6b970348af4306326 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:53 +0000
Subject: [PATCH 036/135] fix: keep the scale when converting the unit of a
 converted array

---
 src/eprempy/physical/_array.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/eprempy/physical/_array.py b/src/eprempy/physical/_array.py
index 5df9419..cd180f7 100644
--- a/src/eprempy/physical/_array.py
+++ b/src/eprempy/physical/_array.py
@@ -66,7 +66,9 @@ class Array(Tensor[real.Array[real.ValueType]]):
         ) from None
 
     def __getitem__(self, args, /):
-        idx = numeric.index.expand(self.ndim, args)
+        # Append an ellipsis in order to select all of any missing dimensions.
+        given = numeric.index.expand(self.ndim, args)
+        idx = numeric.index.expand(self.ndim, (*given, ...))
         data = self.data[idx]
         axes = {k: v[i] for i, (k, v) in zip(idx, self.axes.items())}
         return self.spawn(data, unit=self.unit, axes=axes)
@@ -88,7 +90,7 @@ class Array(Tensor[real.Array[real.ValueType]]):
         """Transpose this array."""
         if not args:
             return self
-        data = self._data_interface.transpose(*args)
+        data = self.data.transpose(*args)
         axes = self.axes.permute(*args)
         return self.spawn(data, unit=self.unit, axes=axes)
 
@@ -153,7 +155,7 @@ def converter(c: metric.Conversion, x: Array) -> Array:
     if c.old == c.new:
         return x
     new = x.spawn(x._data_interface, unit=c.new, axes=x.axes)
-    new._scale = float(c)
+    new._scale = x._scale * float(c)
     return new
 
 
-- 
2.43.0


From 0aae835d0e7aeda9fd4dcf7cfc71875a0f76bf30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:00 +0000
Subject: [PATCH 037/135] fix: subscript arrays by exactly the indices given on
 each axis

---
 src/eprempy/numeric/_array.py | 13 +++++++------
 src/eprempy/numeric/_index.py |  6 +++---
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/eprempy/numeric/_array.py b/src/eprempy/numeric/_array.py
index df2e126..2599909 100644
--- a/src/eprempy/numeric/_array.py
+++ b/src/eprempy/numeric/_array.py
@@ -376,7 +376,9 @@ class Array(Quantity[DataType], Operators):
         This method exists independently of `__getitem__` in order to separate
         the subscription logic from the return-type logic.
         """
-        unwrapped = container.unwrap(args)
+        unwrapped = (
+            args if isinstance(args, tuple) else container.unwrap(args)
+        )
         indices = _index.resolve(self.shape, unwrapped)
         loaded = self._load_array(indices)
         array = numpy.array(loaded, ndmin=self.ndim)
@@ -384,20 +386,19 @@ class Array(Quantity[DataType], Operators):
             return array
         if loaded.ndim != self.ndim:
             with contextlib.suppress(TypeError):
+                full = _index.expand(self.ndim, (*indices, ...))
                 shape = [
                     self._get_axis_size(i, v)
-                    for i, v in enumerate(indices)
+                    for i, v in enumerate(full)
                 ]
                 return array.reshape(shape)
         return array
 
     def _get_axis_size(self, i: int, v):
         """Helper for computing shape in `__getitem__`."""
-        if isinstance(v, int):
+        if isinstance(v, numbers.Integral):
             return 1
-        if isinstance(v, slice):
-            return (v.stop or self.shape[i]) - (v.start or 0)
-        return self.shape[i]
+        return len(range(self.shape[i])[v])
 
     def __str__(self) -> str:
         """A simplified representation of this object."""
diff --git a/src/eprempy/numeric/_index.py b/src/eprempy/numeric/_index.py
index e3e8d38..002338a 100644
--- a/src/eprempy/numeric/_index.py
+++ b/src/eprempy/numeric/_index.py
@@ -622,7 +622,7 @@ def normalize(shape: typing.Sequence[int], args):
     indices = []
     for i, arg in enumerate(expanded):
         if isinstance(arg, slice):
-            indices.append(range(shape[i]))
+            indices.append(range(*arg.indices(shape[i])))
         elif isintegral(arg):
             indices.append((arg,))
         else:
@@ -643,7 +643,7 @@ def expand(ndim: int, indices):
     """Expand `indices` so that they will index `ndim` dimensions."""
     if isinstance(indices, (list, tuple)):
         return expand_ellipsis(ndim, *indices)
-    if indices == slice(None):
+    if isinstance(indices, slice) and indices == slice(None):
         return expand_ellipsis(ndim, ...)
     if isinstance(indices, type(...)):
         return expand_ellipsis(ndim, indices)
@@ -685,7 +685,7 @@ def expand_ellipsis(ndim: int, *args: typing.SupportsIndex):
     # 2) a slice for every dimension represented by the ellipsis
     # 3) all arguments after the ellipsis
     nslice = ndim - nargs + 1
-    ellpos = args.index(Ellipsis)
+    ellpos = norm.index(...)
     return (
         *args[slice(0, ellpos)],
         *([slice(None)] * nslice),
-- 
2.43.0


From ee4af60d63e2c6931c297b2cc4f340dde49f79bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:00 +0000
Subject: [PATCH 038/135] fix: support array-like subscripts on every kind of
 axis

---
 src/eprempy/physical/_axis.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/physical/_axis.py b/src/eprempy/physical/_axis.py
index e5397b7..7086634 100644
--- a/src/eprempy/physical/_axis.py
+++ b/src/eprempy/physical/_axis.py
@@ -97,7 +97,7 @@ class Axis(numeric.Object[T]):
         original reference array.
         """
         axis = self.spawn(self.data[__i])
-        if __i in (slice(None), ...):
+        if __i is ... or isinstance(__i, slice) and __i == slice(None):
             return axis
         idx = self.normalize(container.unwrap(__i))
         axis._indices = numeric.index.sequence(idx)
@@ -174,7 +174,9 @@ class Points(Axis[numpy.typing.NDArray[numpy.uint]]):
     """The interface to an integral axis."""
 
     def __init__(self, data: numpy.typing.NDArray[numpy.uint]) -> None:
-        super().__init__(data)
+        # NOTE: Casting to an array supports subscription with, and comparison
+        # to, array-like objects when `data` is a range or a list.
+        super().__init__(numpy.array(data, ndmin=1, dtype=int))
 
     def index(self, *targets: T):
         if not targets:
-- 
2.43.0


From e08fe2bd21365b4ee1961db6a94b474d4dc9cefb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:04 +0000
Subject: [PATCH 039/135] fix: permute the dimensions of one-dimensional arrays

---
 src/eprempy/numeric/_array.py | 4 ++--
 src/eprempy/physical/_axes.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/eprempy/numeric/_array.py b/src/eprempy/numeric/_array.py
index 2599909..a356d6d 100644
--- a/src/eprempy/numeric/_array.py
+++ b/src/eprempy/numeric/_array.py
@@ -197,7 +197,7 @@ class Dimensions(collections.abc.Sequence):
         if args and 'order' in kwargs:
             raise TypeError("Too many arguments") from None
         if args:
-            if len(args) == 1:
+            if len(args) == 1 and container.isseparable(args[0]):
                 return self._permute(args[0])
             return self._permute(args)
         if 'order' in kwargs:
@@ -505,7 +505,7 @@ class Array(Quantity[DataType], Operators):
             return self._transpose(args)
         if len(args) == 1:
             arg = args[0]
-            if etc.allisinstance(str, *arg):
+            if container.isiterable(arg) and etc.allisinstance(str, *arg):
                 return self._transpose(arg)
         data = self.array.transpose(*args)
         new = self.dimensions.permute(*args)
diff --git a/src/eprempy/physical/_axes.py b/src/eprempy/physical/_axes.py
index f82b889..82c185a 100644
--- a/src/eprempy/physical/_axes.py
+++ b/src/eprempy/physical/_axes.py
@@ -381,7 +381,7 @@ class Axes(collections.abc.Mapping, typing.Mapping[str, _axis.Axis]):
         if args and 'order' in kwargs:
             raise TypeError("Too many arguments") from None
         if args:
-            if len(args) == 1:
+            if len(args) == 1 and container.isseparable(args[0]):
                 return self._permute(args[0])
             return self._permute(args)
         if 'order' in kwargs:
-- 
2.43.0


From 0d8e79290b0422f276fa845f75b58ee50b10ea4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:28 +0000
Subject: [PATCH 040/135] fix: align singular dimensions in products of arrays

---
 src/eprempy/numeric/_array.py | 12 ++++++++++--
 src/eprempy/physical/_axes.py |  5 +++++
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/numeric/_array.py b/src/eprempy/numeric/_array.py
index a356d6d..9ce2e6a 100644
--- a/src/eprempy/numeric/_array.py
+++ b/src/eprempy/numeric/_array.py
@@ -800,8 +800,16 @@ def remesh(a: Array, b: Array):
         for d in dimensions
     )
     idxmesh = numpy.ix_(*[range(i) for i in shape])
-    idxa = tuple(idxmesh[dimensions.index(d)] for d in a.shapemap)
-    idxb = tuple(idxmesh[dimensions.index(d)] for d in b.shapemap)
+    # NOTE: There is only one valid index along a singular dimension.
+    zero = numpy.zeros([1] * ndim, dtype=int)
+    idxa = tuple(
+        idxmesh[dimensions.index(d)] if n != 1 else zero
+        for d, n in a.shapemap.items()
+    )
+    idxb = tuple(
+        idxmesh[dimensions.index(d)] if n != 1 else zero
+        for d, n in b.shapemap.items()
+    )
     x = numpy.array(a, ndmin=ndim) if a.size == 1 else a._load_array(idxa)
     y = numpy.array(b, ndmin=ndim) if b.size == 1 else b._load_array(idxb)
     return x, y
diff --git a/src/eprempy/physical/_axes.py b/src/eprempy/physical/_axes.py
index 82c185a..91321d3 100644
--- a/src/eprempy/physical/_axes.py
+++ b/src/eprempy/physical/_axes.py
@@ -181,6 +181,11 @@ class Axes(collections.abc.Mapping, typing.Mapping[str, _axis.Axis]):
             errmsg = str(err).replace('entries', 'dimensions')
             raise ValueError(errmsg) from err
         mapping = {k: other[k] if k in other else self[k] for k in keys}
+        # NOTE: A singular axis combines with every entry of a full axis, so it
+        # must not replace the full axis.
+        for k, axis in self.items():
+            if len(axis) != 1 and len(mapping[k]) == 1:
+                mapping[k] = axis
         return Axes(mapping)
 
     def copy(self):
-- 
2.43.0


From 7c2edbea904896c1d195714db5d781a0e7bba7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:11 +0000
Subject: [PATCH 041/135] fix: keep units when the left operand of an operator
 is a numpy object

---
 src/eprempy/numeric/_mixins.py      |  2 +-
 src/eprempy/physical/_operations.py | 44 ++++++++++++++++++++---------
 2 files changed, 32 insertions(+), 14 deletions(-)

diff --git a/src/eprempy/numeric/_mixins.py b/src/eprempy/numeric/_mixins.py
index 30c840d..eeb9da7 100644
--- a/src/eprempy/numeric/_mixins.py
+++ b/src/eprempy/numeric/_mixins.py
@@ -91,7 +91,7 @@ class Functions:
                 x._data if isinstance(x, Object)
                 else x for x in out
             )
-        if self._implements(ufunc):
+        if method == '__call__' and self._implements(ufunc):
             operator = self._FUNCTIONS[ufunc]
             return operator(*args, **kwargs)
         return self._apply_ufunc(ufunc, method, *args, **kwargs)
diff --git a/src/eprempy/physical/_operations.py b/src/eprempy/physical/_operations.py
index 709f4c8..1e2c885 100644
--- a/src/eprempy/physical/_operations.py
+++ b/src/eprempy/physical/_operations.py
@@ -408,19 +408,37 @@ def exponential(f, a, b, **kwargs):
     raise PhysicalTypeError(a, b)
 
 
-@from_numpy
-@Tensor.implements(numpy.power)
-@Vector.implements(numpy.power)
-@Array.implements(numpy.power)
-def power(a, b, **kwargs):
-    """Called for numpy.power(a, b)."""
-    if isinstance(b, (Vector, Tensor, Array)) and not b.isunitless:
-        raise ValueError(
-            "Cannot compute a ** b unless b is unitless"
-        ) from None
-    x = a.data if isinstance(a, Measured) else a
-    y = b.data if isinstance(b, Measured) else b
-    return numpy.power(x, y, **kwargs)
+def _from_ufunc(operation):
+    """Create an implementation of a universal function."""
+    def wrapped(*args):
+        # NOTE: `numpy` may have converted numbers to 0-D arrays.
+        return operation(*(
+            x[()] if isinstance(x, numpy.ndarray) and x.ndim == 0 else x
+            for x in args
+        ))
+    return wrapped
+
+
+# NOTE: When the left operand is a `numpy` object, `numpy` calls the universal
+# function that corresponds to a built-in operator instead of the reflected
+# method of the right operand.
+for ufunc, operator in {
+    numpy.less: lt,
+    numpy.less_equal: le,
+    numpy.greater: gt,
+    numpy.greater_equal: ge,
+    numpy.absolute: abs,
+    numpy.positive: pos,
+    numpy.negative: neg,
+    numpy.add: add,
+    numpy.subtract: sub,
+    numpy.multiply: mul,
+    numpy.true_divide: truediv,
+    numpy.floor_divide: floordiv,
+    numpy.remainder: mod,
+    numpy.power: pow,
+}.items():
+    objects(ufunc)(_from_ufunc(operator))
 
 
 @objects(numpy.array_equal)
-- 
2.43.0


From 436861fd64ea6fcbbde9914dd347b1ffd44cd607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:45 +0000
Subject: [PATCH 042/135] fix: convert scalars to complex numbers

---
 src/eprempy/physical/_operations.py | 2 +-
 src/eprempy/physical/_scalar.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/physical/_operations.py b/src/eprempy/physical/_operations.py
index 1e2c885..c56c5a5 100644
--- a/src/eprempy/physical/_operations.py
+++ b/src/eprempy/physical/_operations.py
@@ -176,7 +176,7 @@ def asfloat(a):
 @Scalar.implements('complex')
 def ascomplex(a):
     """Compute complex(self)."""
-    return cast(complex, a, typing.SupportsComplex)
+    return cast(complex, a, numbers.Complex)
 
 
 def cast(__type: T, a, protocol: typing.Optional[type]=None) -> T:
diff --git a/src/eprempy/physical/_scalar.py b/src/eprempy/physical/_scalar.py
index 963e24a..0517520 100644
--- a/src/eprempy/physical/_scalar.py
+++ b/src/eprempy/physical/_scalar.py
@@ -72,7 +72,7 @@ class Scalar(Object[real.ValueType], Operators):
     @exceptions.convert(PhysicalTypeError, TypeError)
     def __complex__(self) -> complex:
         """Called for complex(self)."""
-        if operator := self._OPERATORS.get('complex'):
+        if operator := self._OPERATORS.get(complex):
             return operator(self)
         raise TypeError(
             f"Instances of {type(self)} do not support"
-- 
2.43.0


From 6783e00becc106f80363710b83bd44ebf605c7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:29 +0000
Subject: [PATCH 043/135] fix: align dimensions when raising an array to an
 array

---
 src/eprempy/physical/_operations.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/physical/_operations.py b/src/eprempy/physical/_operations.py
index c56c5a5..aea2316 100644
--- a/src/eprempy/physical/_operations.py
+++ b/src/eprempy/physical/_operations.py
@@ -386,8 +386,8 @@ def exponential(f, a, b, **kwargs):
         # - both `a` and `b` are unitless
         # - `b` is array-like
         if isinstance(a, Array) and isinstance(b, Array):
-            data = f(a.data.array, b.data.array, **kwargs)
-            return array_factory(data, unit='1', axes=a.axes)
+            data = f(a.data, b.data, **kwargs)
+            return array_factory(data, unit='1', axes=a.axes | b.axes)
         if isinstance(a, Array):
             data = f(a.data.array, b.data, **kwargs)
             return array_factory(data, unit='1', axes=a.axes)
-- 
2.43.0


From 0ae4b58f6f587f773295b8abe7dfb3c34b0238cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:29 +0000
Subject: [PATCH 044/135] fix: find single-valued axes in every kind of axis

---
 src/eprempy/physical/_axis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/physical/_axis.py b/src/eprempy/physical/_axis.py
index 7086634..ccc5779 100644
--- a/src/eprempy/physical/_axis.py
+++ b/src/eprempy/physical/_axis.py
@@ -82,7 +82,8 @@ class Axis(numeric.Object[T]):
         """Called for x in self."""
         if isinstance(__x, Axis) and len(__x) == 1:
             with contextlib.suppress(Exception):
-                return self.index(__x) in self.indices
+                self.index(*__x)
+                return True
         return __x in self.data
 
     def __getitem__(self, __i):
-- 
2.43.0


From 4a8277a881a848f465cff365c0202147409af68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:29 +0000
Subject: [PATCH 045/135] fix: compare the units of coordinates when comparing
 axes

---
 src/eprempy/physical/_axes.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/physical/_axes.py b/src/eprempy/physical/_axes.py
index 91321d3..c046e02 100644
--- a/src/eprempy/physical/_axes.py
+++ b/src/eprempy/physical/_axes.py
@@ -73,6 +73,8 @@ class Axes(collections.abc.Mapping, typing.Mapping[str, _axis.Axis]):
             return False
         for k, this in self.items():
             that = other[k]
+            if isinstance(this, _axis.Axis) and this != that:
+                return False
             if not numpy.array_equal(this, that):
                 return False
         return True
@@ -147,7 +149,7 @@ class Axes(collections.abc.Mapping, typing.Mapping[str, _axis.Axis]):
             return NotImplemented
         if self.keys() != other.keys():
             raise ValueError(
-                f"Cannot fill {a} from {b} with different dimensions"
+                f"Cannot fill {self} from {other} with different dimensions"
             ) from None
         new = {}
         for key in self:
-- 
2.43.0


From 2f44b43abb70e099ba117e2f55b91b4daa77b1f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:08 +0000
Subject: [PATCH 046/135] fix: find bounded nearest values in unordered and
 multidimensional arrays

---
 src/eprempy/container.py | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/src/eprempy/container.py b/src/eprempy/container.py
index 709d834..af925df 100644
--- a/src/eprempy/container.py
+++ b/src/eprempy/container.py
@@ -1038,19 +1038,17 @@ def nearest(
     """
 
     array = numpy.asarray(values)
-    index = numpy.abs(array - target).argmin()
-    if bound == 'lower':
-        try:
-            while array[index] < target:
-                index += 1
-        except IndexError:
-            index = -1
-    elif bound == 'upper':
-        try:
-            while array[index] > target:
-                index -= 1
-        except IndexError:
-            index = 0
+    distance = numpy.abs(array - target)
+    if bound in {'lower', 'upper'}:
+        allowed = array >= target if bound == 'lower' else array <= target
+        if allowed.any():
+            index = numpy.where(allowed, distance, numpy.inf).argmin()
+        else:
+            # There is no value on the required side of the target, so we use
+            # the last value on the other side.
+            index = distance.argmin()
+    else:
+        index = distance.argmin()
     if array.ndim > 1:
         index = numpy.unravel_index(index, array.shape)
     return Nearest(index=index, value=array[index])
-- 
2.43.0


From 31113e53818aa3fb7af193fc095dffc574be4b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:08 +0000
Subject: [PATCH 047/135] fix: find coordinates within rounding error of the
 ends of an axis

---
 src/eprempy/numeric/_data.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/eprempy/numeric/_data.py b/src/eprempy/numeric/_data.py
index 7015080..eddd84e 100644
--- a/src/eprempy/numeric/_data.py
+++ b/src/eprempy/numeric/_data.py
@@ -50,8 +50,6 @@ def isclose(a: Object, b: numbers.Real) -> bool:
         return a == b or numpy.isclose(b, data, atol=0.0)
     if b in data:
         return True
-    if b < numpy.min(data) or b > numpy.max(data):
-        return False
     return numpy.any([numpy.isclose(b, data, atol=0.0)])
 
 
-- 
2.43.0


From e3ee0db23a406a800de3762fab7c5b48f1f9789b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:30 +0000
Subject: [PATCH 048/135] fix: subtract dimensions from other collections of
 names

---
 src/eprempy/numeric/_array.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/eprempy/numeric/_array.py b/src/eprempy/numeric/_array.py
index 9ce2e6a..dbf2c0c 100644
--- a/src/eprempy/numeric/_array.py
+++ b/src/eprempy/numeric/_array.py
@@ -117,9 +117,13 @@ class Dimensions(collections.abc.Sequence):
 
     def __rsub__(self, other):
         """Called for other - self."""
-        if isinstance(other, Dimensions):
-            return dimensions_factory(*[n for n in other if n not in self])
-        raise NotImplemented
+        if isinstance(other, str):
+            return NotImplemented
+        try:
+            those = self._get_operand(other)
+        except DimensionTypeError:
+            return NotImplemented
+        return dimensions_factory(*[n for n in those if n not in self])
 
     def __or__(self, other):
         """Called for self | other."""
-- 
2.43.0


From b4065239669ca612595e9be773d9fd0d7de1b655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:30 +0000
Subject: [PATCH 049/135] fix: raise an exception for every mismatch between
 dimensions

---
 src/eprempy/numeric/_array.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/eprempy/numeric/_array.py b/src/eprempy/numeric/_array.py
index dbf2c0c..eb5e26a 100644
--- a/src/eprempy/numeric/_array.py
+++ b/src/eprempy/numeric/_array.py
@@ -220,7 +220,7 @@ class Dimensions(collections.abc.Sequence):
         return dimensions_factory(names)
 
     def mismatch(self, other: typing.Iterable[str]):
-        """Raise an exception if `self < other` or `self > other`.
+        """Raise an exception unless `self` and `other` have the same members.
 
         This is a convenience method to checking whether `self == other` in a
         set-wise sense, and issuing a descriptive message depending upon whether
@@ -245,10 +245,9 @@ class Dimensions(collections.abc.Sequence):
         """
         a = set(self)
         b = set(other)
-        if a < b:
+        if a - b:
             raise ValueError("Not enough dimensions") from None
-        if a > b:
-            diff = a - b
+        if diff := b - a:
             dims = etc.join(diff, 'or', quoted=True)
             raise ValueError(
                 f"Original dimensions do not include {dims}"
-- 
2.43.0


From a92658cdc5395b635a0198a81fbcc2ba221562b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:30 +0000
Subject: [PATCH 050/135] fix: refuse to permute dimensions by repeated indices

---
 src/eprempy/numeric/_array.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/eprempy/numeric/_array.py b/src/eprempy/numeric/_array.py
index eb5e26a..f87e3aa 100644
--- a/src/eprempy/numeric/_array.py
+++ b/src/eprempy/numeric/_array.py
@@ -217,6 +217,10 @@ class Dimensions(collections.abc.Sequence):
                 "Cannot interpret all values as indices"
             ) from err
         self.mismatch(names)
+        if len(names) != len(self):
+            raise ValueError(
+                "Cannot use an index more than once"
+            ) from None
         return dimensions_factory(names)
 
     def mismatch(self, other: typing.Iterable[str]):
-- 
2.43.0


From 37bc6566d657091a0e18306f161e9cc22e5428db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:30 +0000
Subject: [PATCH 051/135] fix: insert an axis after all others when given its
 index

---
 src/eprempy/physical/_axes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/eprempy/physical/_axes.py b/src/eprempy/physical/_axes.py
index c046e02..e571aa1 100644
--- a/src/eprempy/physical/_axes.py
+++ b/src/eprempy/physical/_axes.py
@@ -297,6 +297,8 @@ class Axes(collections.abc.Mapping, typing.Mapping[str, _axis.Axis]):
         if len(kwargs) == 0:
             return self | {dimension: new}
         locator, location = kwargs.popitem()
+        if locator == 'index' and location == len(self):
+            return self | {dimension: new}
         mapping = {}
         for i, d in enumerate(self.dimensions):
             current = self[d]
-- 
2.43.0


From 795a916a0470467cdf10fba2f9b0bfe293294ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:17 +0000
Subject: [PATCH 052/135] fix: accept index values in array subscripts

---
 src/eprempy/numeric/_index.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/numeric/_index.py b/src/eprempy/numeric/_index.py
index 002338a..3a813b5 100644
--- a/src/eprempy/numeric/_index.py
+++ b/src/eprempy/numeric/_index.py
@@ -623,8 +623,8 @@ def normalize(shape: typing.Sequence[int], args):
     for i, arg in enumerate(expanded):
         if isinstance(arg, slice):
             indices.append(range(*arg.indices(shape[i])))
-        elif isintegral(arg):
-            indices.append((arg,))
+        elif isintegral(arg) or isinstance(arg, Value):
+            indices.append((int(arg),))
         else:
             indices.append(arg)
     return numpy.ix_(*list(indices))
-- 
2.43.0


From 47dd5fd682f9841ff7058926030c537bea2ed00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:17 +0000
Subject: [PATCH 053/135] fix: refuse too many indices before a trailing
 ellipsis

---
 src/eprempy/numeric/_index.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/numeric/_index.py b/src/eprempy/numeric/_index.py
index 3a813b5..59e9f3e 100644
--- a/src/eprempy/numeric/_index.py
+++ b/src/eprempy/numeric/_index.py
@@ -661,7 +661,8 @@ def expand_ellipsis(ndim: int, *args: typing.SupportsIndex):
     # `self.mfp[0, 0, :, :]` whereas `self.r[0, 0, ...]` should be equal to
     # `self.r[0, 0]`.
     nargs = len(args)
-    if nargs > ndim and not isinstance(args[-1], type(...)):
+    nextra = 1 if nargs and isinstance(args[-1], type(...)) else 0
+    if nargs - nextra > ndim:
         raise IndexError(
             f"Too many indices ({nargs}) for {ndim} dimensions"
         ) from None
-- 
2.43.0


From 71e44e61f279e61722fae961d1d67a8c9156731b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:17 +0000
Subject: [PATCH 054/135] fix: raise indices to sequences of powers

---
 src/eprempy/numeric/_index.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/src/eprempy/numeric/_index.py b/src/eprempy/numeric/_index.py
index 59e9f3e..abd6205 100644
--- a/src/eprempy/numeric/_index.py
+++ b/src/eprempy/numeric/_index.py
@@ -227,12 +227,7 @@ def mod(a, b):
 @implements('pow')
 def pow(a, b, mod: int=None):
     """Compute a ** b."""
-    negative_exponent = False
-    try:
-        negative_exponent = b < 0
-    except ValueError:
-        negative_exponent = all(b < 0)
-    if negative_exponent:
+    if numpy.any(b < 0):
         raise ValueError(
             "Cannot raise index to a negative integral power"
         ) from None
-- 
2.43.0


From 56ec65d9b5187f6a5431198227d4810032f55d9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:17 +0000
Subject: [PATCH 055/135] fix: restrict indices along any axis of a
 two-dimensional array

---
 src/eprempy/numeric/_index.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/numeric/_index.py b/src/eprempy/numeric/_index.py
index abd6205..c352a13 100644
--- a/src/eprempy/numeric/_index.py
+++ b/src/eprempy/numeric/_index.py
@@ -770,16 +770,17 @@ def _get_index_bounds(
 
     This function is a helper for `~restrict`. It returns an array containing
     the indices bounding `target` at each slice along `axis`. The shape will be
-    the same as that of `array` except for `axis`, which will be 2.
+    the same as that of `array` without `axis`, followed by 2.
     """
     if axis is None:
         axis = -1
-    return numpy.apply_along_axis(
+    bounds = numpy.apply_along_axis(
         _find_1d_indices,
         int(axis),
         numpy.asfarray(array),
         float(target),
     )
+    return numpy.moveaxis(bounds, int(axis), -1)
 
 
 def _find_1d_indices(
-- 
2.43.0


From 00909a0b2ef22d9a4efec101c5079939dc8e6520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:57 +0000
Subject: [PATCH 056/135] fix: create index sequences from index values

---
 src/eprempy/numeric/_index.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/numeric/_index.py b/src/eprempy/numeric/_index.py
index c352a13..505b219 100644
--- a/src/eprempy/numeric/_index.py
+++ b/src/eprempy/numeric/_index.py
@@ -531,8 +531,8 @@ def _sequence_args(x, /):
         if all(isinstance(i, str) for i in x):
             with contextlib.suppress(ValueError):
                 return [int(i) for i in x]
-        if all(isinstance(i, (numbers.Integral, numpy.integer)) for i in x):
-            return x
+        if all(isintegral(i) or isinstance(i, Value) for i in x):
+            return [int(i) for i in x]
     if isinstance(x, numpy.ndarray) and x.dtype == int:
         if x.size == 1:
             v = x[0] if x.ndim == 1 else x
-- 
2.43.0


From aa4f72dd3392985ed8ba915dcc798d33ac402dd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:22 +0000
Subject: [PATCH 057/135] fix: refuse to create an index value from more than
 one index

---
 src/eprempy/numeric/_index.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/numeric/_index.py b/src/eprempy/numeric/_index.py
index 505b219..be4acf8 100644
--- a/src/eprempy/numeric/_index.py
+++ b/src/eprempy/numeric/_index.py
@@ -477,7 +477,7 @@ def value_args(x, /):
     if index is not None:
         return index
     indices = _sequence_args(x)
-    if indices is not None:
+    if indices is not None and len(indices) == 1:
         return indices[0]
     raise TypeError(
         f"Cannot initialize {Value} from {x}, which has type {type(x)}"
-- 
2.43.0


From 92e8310b936fbbb73c847db42364d25030a5743a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:22 +0000
Subject: [PATCH 058/135] fix: create indices from index values

---
 src/eprempy/numeric/_index.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/eprempy/numeric/_index.py b/src/eprempy/numeric/_index.py
index be4acf8..be03021 100644
--- a/src/eprempy/numeric/_index.py
+++ b/src/eprempy/numeric/_index.py
@@ -509,6 +509,8 @@ def _value_args(x, /):
         ) from None
     if isinstance(x, (numbers.Integral, numpy.integer)):
         return x
+    if isinstance(x, Value):
+        return int(x)
     if isinstance(x, (bytes, str)):
         try:
             index = int(x)
-- 
2.43.0


From 69d0a7e23c4128a5b814b27a44866bbe562120f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:15 +0000
Subject: [PATCH 059/135] fix: support every form of the axis argument in
 reductions of arrays

numpy.min and numpy.max were undefined for real arrays, and hence failed for
physical arrays. All reductions refused a positional axis, a tuple of axes,
and keepdims in at least some cases, and reducing a physical array with
axis=None or a vector along its only axis failed.
---
 src/eprempy/physical/_operations.py | 45 ++++++++++-----------------
 src/eprempy/real/_array.py          | 47 +++++++++++++++++++----------
 2 files changed, 47 insertions(+), 45 deletions(-)

diff --git a/src/eprempy/physical/_operations.py b/src/eprempy/physical/_operations.py
index aea2316..aad7ffe 100644
--- a/src/eprempy/physical/_operations.py
+++ b/src/eprempy/physical/_operations.py
@@ -564,53 +564,40 @@ def squeeze(x: Measured[real.ValueType], **kwargs):
 
 @objects(numpy.min)
 @from_numpy
-def npmin(x: Measured[real.ValueType], **kwargs):
+def npmin(x: Measured[real.ValueType], axis=None, **kwargs):
     """Compute the minimum value of `x`."""
-    data = numpy.min(x.data, **kwargs)
-    if isinstance(x, Scalar) or 'axis' not in kwargs:
-        return scalar_factory(data, unit=x.unit)
-    metadata = {'unit': x.unit}
-    if isinstance(x, Array):
-        metadata['axes'] = {d: x.axes[d] for d in data.dimensions}
-    return numeric.Result(data, **metadata)
+    return _reduce(numpy.min, x, axis=axis, **kwargs)
 
 
 @objects(numpy.max)
 @from_numpy
-def npmax(x: Measured[real.ValueType], **kwargs):
+def npmax(x: Measured[real.ValueType], axis=None, **kwargs):
     """Compute the maximum value of `x`."""
-    data = numpy.max(x.data, **kwargs)
-    if isinstance(x, Scalar) or 'axis' not in kwargs:
-        return scalar_factory(data, unit=x.unit)
-    metadata = {'unit': x.unit}
-    if isinstance(x, Array):
-        metadata['axes'] = {d: x.axes[d] for d in data.dimensions}
-    return numeric.Result(data, **metadata)
+    return _reduce(numpy.max, x, axis=axis, **kwargs)
 
 
 @objects(numpy.mean)
 @from_numpy
-def mean(x: Measured[real.ValueType], **kwargs):
+def mean(x: Measured[real.ValueType], axis=None, **kwargs):
     """Compute the mean of `x`."""
-    data = numpy.mean(x.data, **kwargs)
-    if isinstance(x, Scalar) or 'axis' not in kwargs:
-        return scalar_factory(data, unit=x.unit)
-    metadata = {'unit': x.unit}
-    if isinstance(x, Array):
-        metadata['axes'] = {d: x.axes[d] for d in data.dimensions}
-    return numeric.Result(data, **metadata)
+    return _reduce(numpy.mean, x, axis=axis, **kwargs)
 
 
 @objects(numpy.sum)
 @from_numpy
-def sum(x: Measured[real.ValueType], **kwargs):
+def sum(x: Measured[real.ValueType], axis=None, **kwargs):
     """Compute the sum of `x`."""
-    data = numpy.sum(x.data, **kwargs)
-    if isinstance(x, Scalar) or 'axis' not in kwargs:
-        return scalar_factory(data, unit=x.unit)
+    return _reduce(numpy.sum, x, axis=axis, **kwargs)
+
+
+def _reduce(f, x: Measured[real.ValueType], axis=None, **kwargs):
+    """Helper for functions that reduce data along one or more axes."""
+    data = f(x.data, axis=axis, **kwargs)
     metadata = {'unit': x.unit}
-    if isinstance(x, Array):
+    if isinstance(data, real.Array):
         metadata['axes'] = {d: x.axes[d] for d in data.dimensions}
+    elif numpy.ndim(data) == 0:
+        return scalar_factory(data, **metadata)
     return numeric.Result(data, **metadata)
 
 
diff --git a/src/eprempy/real/_array.py b/src/eprempy/real/_array.py
index 849daae..2a96951 100644
--- a/src/eprempy/real/_array.py
+++ b/src/eprempy/real/_array.py
@@ -285,30 +285,45 @@ def squeeze(x: Array[ValueType], **kwargs):
     return array_factory(data, dimensions=dimensions)
 
 
+@Array.implements(numpy.min)
+def npmin(x: Array[ValueType], axis=None, **kwargs):
+    """Compute the minimum of the underlying array."""
+    return _reduce(numpy.min, x, axis=axis, **kwargs)
+
+
+@Array.implements(numpy.max)
+def npmax(x: Array[ValueType], axis=None, **kwargs):
+    """Compute the maximum of the underlying array."""
+    return _reduce(numpy.max, x, axis=axis, **kwargs)
+
+
 @Array.implements(numpy.mean)
-def mean(x: Array[ValueType], **kwargs):
+def mean(x: Array[ValueType], axis=None, **kwargs):
     """Compute the mean of the underlying array."""
-    data = x.array.mean(**kwargs)
-    axis = kwargs.get('axis')
-    if axis is None:
-        return data
-    ax = axis % x.ndim
-    dimensions = [d for d in x.dimensions if x.dimensions.index(d) != ax]
-    return array_factory(data, dimensions=dimensions)
+    return _reduce(numpy.mean, x, axis=axis, **kwargs)
 
 
 @Array.implements(numpy.sum)
-def sum(x: Array[ValueType], **kwargs):
+def sum(x: Array[ValueType], axis=None, **kwargs):
     """Compute the sum of the underlying array."""
-    data = x.array.sum(**kwargs)
-    axis = kwargs.get('axis')
+    return _reduce(numpy.sum, x, axis=axis, **kwargs)
+
+
+def _reduce(f, x: Array[ValueType], axis=None, **kwargs):
+    """Helper for functions that reduce an array along one or more axes."""
+    data = f(x.array, axis=axis, **kwargs)
+    if kwargs.get('keepdims'):
+        return array_factory(data, dimensions=x.dimensions)
     if axis is None:
         return data
-    if 'keepdims' in kwargs:
-        return array_factory(data, dimensions=x.dimensions)
-    ax = x.ndim + axis if axis < 0 else axis
-    dimensions = [d for d in x.dimensions if x.dimensions.index(d) != ax]
-    return array_factory(data, dimensions=dimensions)
+    return array_factory(data, dimensions=_remaining(x, axis))
+
+
+def _remaining(x: Array[ValueType], axis):
+    """Determine the dimensions that remain after removing `axis`."""
+    axes = axis if isinstance(axis, tuple) else (axis,)
+    removed = {i % x.ndim for i in axes}
+    return [d for i, d in enumerate(x.dimensions) if i not in removed]
 
 
 @Array.implements(numpy.cumsum)
-- 
2.43.0


From e1b1f6c1063fbc54bb770c9df78b30bc85e0be76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:15 +0000
Subject: [PATCH 060/135] fix: accept a positional or null axis in numpy.cumsum
 of an array

---
 src/eprempy/physical/_operations.py | 6 +++---
 src/eprempy/real/_array.py          | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/eprempy/physical/_operations.py b/src/eprempy/physical/_operations.py
index aad7ffe..bcc95ef 100644
--- a/src/eprempy/physical/_operations.py
+++ b/src/eprempy/physical/_operations.py
@@ -603,7 +603,7 @@ def _reduce(f, x: Measured[real.ValueType], axis=None, **kwargs):
 
 @objects(numpy.cumsum)
 @from_numpy
-def cumsum(x: Measured[real.ValueType], **kwargs):
+def cumsum(x: Measured[real.ValueType], axis=None, **kwargs):
     """Compute the cumulative sum of `x`.
 
     Notes
@@ -620,8 +620,8 @@ def cumsum(x: Measured[real.ValueType], **kwargs):
       exception. This behavior is also consistent with the plain `numpy.cumsum`
       implementation.
     """
-    data = numpy.cumsum(x.data, **kwargs)
-    if isinstance(x, (Scalar, Vector)) or 'axis' not in kwargs:
+    data = numpy.cumsum(x.data, axis=axis, **kwargs)
+    if isinstance(x, (Scalar, Vector)) or axis is None:
         return vector_factory(data, unit=x.unit)
     metadata = {'unit': x.unit}
     if isinstance(x, Array):
diff --git a/src/eprempy/real/_array.py b/src/eprempy/real/_array.py
index 2a96951..c33e75a 100644
--- a/src/eprempy/real/_array.py
+++ b/src/eprempy/real/_array.py
@@ -327,10 +327,10 @@ def _remaining(x: Array[ValueType], axis):
 
 
 @Array.implements(numpy.cumsum)
-def cumsum(x: Array[ValueType], **kwargs):
+def cumsum(x: Array[ValueType], axis=None, **kwargs):
     """Compute the cumulative sum of the underlying array."""
-    data = x.array.cumsum(**kwargs)
-    if kwargs.get('axis') is None:
+    data = x.array.cumsum(axis=axis, **kwargs)
+    if axis is None:
         return data
     return array_factory(data, dimensions=x.dimensions)
 
-- 
2.43.0


From deddffca714d799c3818c074602b1f08fdd949f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:15 +0000
Subject: [PATCH 061/135] fix: remove only the named axes in numpy.squeeze of
 an array

---
 src/eprempy/physical/_operations.py | 4 ++--
 src/eprempy/real/_array.py          | 9 ++++++---
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/eprempy/physical/_operations.py b/src/eprempy/physical/_operations.py
index bcc95ef..e2ce5d5 100644
--- a/src/eprempy/physical/_operations.py
+++ b/src/eprempy/physical/_operations.py
@@ -538,7 +538,7 @@ def _apply_log(f, x: Measured[real.ValueType]):
 
 @objects(numpy.squeeze)
 @from_numpy
-def squeeze(x: Measured[real.ValueType], **kwargs):
+def squeeze(x: Measured[real.ValueType], axis=None):
     """Remove singular axes.
 
     Notes
@@ -551,7 +551,7 @@ def squeeze(x: Measured[real.ValueType], **kwargs):
     """
     if isinstance(x, Scalar):
         return x
-    data = numpy.squeeze(x.data, **kwargs)
+    data = numpy.squeeze(x.data, axis=axis)
     if isinstance(data, (numbers.Real)):
         return scalar_factory(data, unit=x.unit)
     if isinstance(data, numpy.ndarray) and data.ndim == 0:
diff --git a/src/eprempy/real/_array.py b/src/eprempy/real/_array.py
index c33e75a..80e61d6 100644
--- a/src/eprempy/real/_array.py
+++ b/src/eprempy/real/_array.py
@@ -276,12 +276,15 @@ def array_equal(
 
 
 @Array.implements(numpy.squeeze)
-def squeeze(x: Array[ValueType], **kwargs):
+def squeeze(x: Array[ValueType], axis=None):
     """Called for numpy.squeeze(x)."""
-    data = numpy.squeeze(x.array, **kwargs)
+    data = numpy.squeeze(x.array, axis=axis)
     if data.ndim == 0:
         return float(data)
-    dimensions = [d for d, n in x.shapemap.items() if n != 1]
+    if axis is None:
+        dimensions = [d for d, n in x.shapemap.items() if n != 1]
+    else:
+        dimensions = _remaining(x, axis)
     return array_factory(data, dimensions=dimensions)
 
 
-- 
2.43.0


From 0f378b2ec70242ca7534919e38c70cd5845be4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:15 +0000
Subject: [PATCH 062/135] fix: accept positional axes in numpy.transpose of an
 array

---
 src/eprempy/physical/_operations.py | 4 ++--
 src/eprempy/real/_array.py          | 3 +--
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/eprempy/physical/_operations.py b/src/eprempy/physical/_operations.py
index e2ce5d5..caf2c4f 100644
--- a/src/eprempy/physical/_operations.py
+++ b/src/eprempy/physical/_operations.py
@@ -631,9 +631,9 @@ def cumsum(x: Measured[real.ValueType], axis=None, **kwargs):
 
 @objects(numpy.transpose)
 @from_numpy
-def transpose(x: Measured[real.ValueType], **kwargs):
+def transpose(x: Measured[real.ValueType], axes=None):
     """Compute the transpose of `x`."""
-    data = numpy.transpose(x.data, **kwargs)
+    data = numpy.transpose(x.data, axes=axes)
     if isinstance(x, Scalar):
         return scalar_factory(numpy.ravel(data)[0], unit=x.unit)
     metadata = {'unit': x.unit}
diff --git a/src/eprempy/real/_array.py b/src/eprempy/real/_array.py
index 80e61d6..00de899 100644
--- a/src/eprempy/real/_array.py
+++ b/src/eprempy/real/_array.py
@@ -339,10 +339,9 @@ def cumsum(x: Array[ValueType], axis=None, **kwargs):
 
 
 @Array.implements(numpy.transpose)
-def transpose(x: Array[ValueType], **kwargs):
+def transpose(x: Array[ValueType], axes=None):
     """Compute the transpose of an array and dimensions."""
     data = x.array.transpose()
-    axes = kwargs.get('axes')
     if axes is None:
         dimensions = x.dimensions[::-1]
         return array_factory(data, dimensions=dimensions)
-- 
2.43.0


From 433151afd14c6179c65f01626f72dc6c0c2bcf63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:15 +0000
Subject: [PATCH 063/135] fix: account for units in numpy.trapz of a physical
 object

The unit of the integration variable was lost or caused an error, and the
integral of a vector or tensor was a bare number or array.
---
 src/eprempy/physical/_operations.py | 39 ++++++++++++++++++-----------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/src/eprempy/physical/_operations.py b/src/eprempy/physical/_operations.py
index caf2c4f..a6207e6 100644
--- a/src/eprempy/physical/_operations.py
+++ b/src/eprempy/physical/_operations.py
@@ -682,20 +682,31 @@ def _apply_gradient(unit, x, *args, **kwargs):
     return numeric.Result(gradient, **metadata)
 
 
-@Array.implements(numpy.trapz)
-@from_numpy
-def trapz(x: Measured[real.ValueType], *args, **kwargs):
-    """Integrate `x` via the composite trapezoidal rule."""
-    if isinstance(x, Scalar):
+@objects(numpy.trapz)
+def trapz(y: Measured[real.ValueType], x=None, dx=1.0, axis=-1):
+    """Integrate `y` via the composite trapezoidal rule.
+
+    Notes
+    -----
+    - The unit of the result is the unit of `y` times the unit of `x` or `dx`.
+      This function treats plain numbers in `x` or `dx` as unitless.
+    """
+    if not isinstance(y, Measured):
+        return NotImplemented
+    if isinstance(y, Scalar):
         raise TypeError(
             "Cannot apply numpy.trapz to a scalar object"
         ) from None
-    data = numpy.trapz(x.data, *args, **kwargs)
-    if isinstance(data, (numbers.Real, numpy.number)):
-        return data
-    metadata = {'unit': x.unit}
-    if isinstance(x, Array):
-        metadata['axes'] = {d: x.axes[d] for d in data.dimensions}
-    return numeric.Result(data, **metadata)
-
-
+    unit = y.unit
+    step = dx if x is None else x
+    if isinstance(step, Measured):
+        unit = y.unit * step.unit
+        step = step.data if isinstance(step, Scalar) else numpy.array(step)
+    spacing = {'dx': step} if x is None else {'x': numpy.array(step)}
+    data = numpy.trapz(y.data, **spacing, axis=axis)
+    metadata = {'unit': unit}
+    if isinstance(data, real.Array):
+        metadata['axes'] = {d: y.axes[d] for d in data.dimensions}
+    elif numpy.ndim(data) == 0:
+        return scalar_factory(data, **metadata)
+    return _get_factory(y)(data, **metadata)
-- 
2.43.0


From 2fa46fa1c0ba8ef9b2a88f89e0e42e72df5c1126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:09 +0000
Subject: [PATCH 064/135] fix: accept coordinates in numpy.trapz of a real
 array

---
 src/eprempy/real/_array.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/eprempy/real/_array.py b/src/eprempy/real/_array.py
index 00de899..214e007 100644
--- a/src/eprempy/real/_array.py
+++ b/src/eprempy/real/_array.py
@@ -381,15 +381,13 @@ def _apply_gradient(
 
 
 @Array.implements(numpy.trapz)
-def trapz(x: Array[ValueType], *args, **kwargs):
+def trapz(y: Array[ValueType], x=None, dx=1.0, axis=-1):
     """Integrate the array via the composite trapezoidal rule."""
-    data = numpy.trapz(x.array, *args, **kwargs)
-    axis = kwargs.get('axis')
-    if axis is None:
-        dimensions = x.dimensions[:-1]
+    if x is None:
+        data = numpy.trapz(y.array, dx=dx, axis=axis)
     else:
-        ax = axis % x.ndim
-        dimensions = [d for d in x.dimensions if x.dimensions.index(d) != ax]
+        data = numpy.trapz(y.array, x=numpy.array(x), axis=axis)
+    dimensions = _remaining(y, axis)
     return array_factory(data, dimensions=dimensions)
 
 
-- 
2.43.0


From 1fee28bf2b8831acee670308365dc905c4efbe83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:09 +0000
Subject: [PATCH 065/135] fix: preserve the type of a vector or tensor in
 numpy.gradient

---
 src/eprempy/physical/_operations.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/eprempy/physical/_operations.py b/src/eprempy/physical/_operations.py
index a6207e6..a9e32c2 100644
--- a/src/eprempy/physical/_operations.py
+++ b/src/eprempy/physical/_operations.py
@@ -643,7 +643,6 @@ def transpose(x: Measured[real.ValueType], axes=None):
 
 
 @objects(numpy.gradient)
-@from_numpy
 def gradient(x: Measured[real.ValueType], *args, **kwargs):
     """Compute the gradient of an array."""
     if isinstance(x, Scalar):
@@ -677,9 +676,11 @@ def _apply_gradient(unit, x, *args, **kwargs):
     metadata = {'unit': unit}
     if isinstance(x, Array):
         metadata['axes'] = x.axes
+    # The type of `x`, rather than of any coordinates, determines the result.
+    factory = _get_factory(x)
     if isinstance(gradient, list):
-        return [numeric.Result(array, **metadata) for array in gradient]
-    return numeric.Result(gradient, **metadata)
+        return [factory(array, **metadata) for array in gradient]
+    return factory(gradient, **metadata)
 
 
 @objects(numpy.trapz)
-- 
2.43.0


From e08701347714e74a8d879bee38d33ec80d30a1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:54 +0000
Subject: [PATCH 066/135] fix: round charges to the nearest integer when naming
 species

Charges which had been converted between units could be slightly less than
an integer, in which case the symbol lacked a sign.
---
 src/eprempy/atomic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/atomic.py b/src/eprempy/atomic.py
index 24e9a56..e3ede2b 100644
--- a/src/eprempy/atomic.py
+++ b/src/eprempy/atomic.py
@@ -153,7 +153,7 @@ def elements(
         raise TypeError(message)
     mass_idx = get_mass_indices(_nucleons, _mass)
     bases = [list(_nucleons.keys())[m] for m in mass_idx]
-    signs = [('+' if i > 0 else '-') * abs(int(i)) for i in _charge]
+    signs = [('+' if i > 0 else '-') * abs(round(float(i))) for i in _charge]
     return [f"{b}{c}" for b, c in zip(bases, signs)]
 
 
-- 
2.43.0


From c985a4dc23b9454a16bd99ff6b0ddadbd308dd66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:54 +0000
Subject: [PATCH 067/135] fix: identify elements by the nearest mass

The masses of Ca, Co, and Po gave Ar, Ni, and Bi, respectively, since those
have the same number of nucleons.
---
 src/eprempy/atomic.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/eprempy/atomic.py b/src/eprempy/atomic.py
index e3ede2b..bda6930 100644
--- a/src/eprempy/atomic.py
+++ b/src/eprempy/atomic.py
@@ -170,16 +170,22 @@ def get_mass_indices(
     nucleons: typing.Dict[str, int],
     targets: typing.Iterable,
 ) -> list:
-    """Get the indices in `ELEMENTS` corresponding to the given masses."""
-    def get_index(this: list, that: int):
-        try:
-            return this.index(that)
-        except ValueError as err:
-            raise MassValueError(that) from err
+    """Get the indices in `ELEMENTS` corresponding to the given masses.
 
-    values = list(nucleons.values())
-    return [get_index(values, round(target)) for target in targets]
+    If there are multiple elements with the same number of nucleons as a given
+    mass, this function will choose the element with the nearest mass.
+    """
+    symbols = list(nucleons)
+    masses = {element['symbol']: element['mass'] for element in ELEMENTS}
 
+    def get_index(target):
+        value = round(target)
+        matches = [i for i, s in enumerate(symbols) if nucleons[s] == value]
+        if not matches:
+            raise MassValueError(value) from None
+        return min(matches, key=lambda i: abs(masses[symbols[i]] - target))
+
+    return [get_index(target) for target in targets]
 
 
 @etc.autostr
-- 
2.43.0


From 3975d48e2ea168ea3de04d604b19f82d6e695465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:23 +0000
Subject: [PATCH 068/135] fix: refuse an observer ID that matches files with
 different prefixes

---
 src/eprempy/eprem.py | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/eprempy/eprem.py b/src/eprempy/eprem.py
index dfe0f77..8e4c4c5 100644
--- a/src/eprempy/eprem.py
+++ b/src/eprempy/eprem.py
@@ -445,15 +445,19 @@ def _build_datapath(
     directory: pathlib.Path,
 ) -> pathlib.Path:
     """Create the full path to an observer's data file, if possible."""
-    for pattern in patterns:
-        filenames = list(directory.glob(pattern))
-        if len(filenames) == 1:
-            return paths.fullpath(directory / filenames[0], strict=True)
-        if len(filenames) > 1:
-            raise SourcePathError(
-                f"Cannot determine unique data path within {directory}"
-                f" from {pattern!r}"
-            ) from None
+    patterns = tuple(patterns)
+    filenames = {
+        filename
+        for pattern in patterns
+        for filename in directory.glob(pattern)
+    }
+    if len(filenames) == 1:
+        return paths.fullpath(filenames.pop(), strict=True)
+    if len(filenames) > 1:
+        raise SourcePathError(
+            f"Cannot determine unique data path within {directory}"
+            f" from {patterns!r}"
+        ) from None
     raise SourcePathError(
         f"Cannot locate observer data within {directory}"
     ) from None
-- 
2.43.0


From e4ec3342c62434c21f811db0f3a2bd88137ffa69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:23 +0000
Subject: [PATCH 069/135] fix: look for every kind of observer file in
 observer()

---
 src/eprempy/eprem.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/src/eprempy/eprem.py b/src/eprempy/eprem.py
index 8e4c4c5..e32683e 100644
--- a/src/eprempy/eprem.py
+++ b/src/eprempy/eprem.py
@@ -257,15 +257,9 @@ def observer(
         raise TypeError(
             f"Cannot create observer from ID type {type(__id)}"
         ) from None
-    if isinstance(__id, int):
-        patterns = (f'{prefix}{__id:06}.*' for prefix in {'obs', 'flux'})
-        return _create_observer(Stream, patterns, config, source, system)
-    patterns = []
-    with contextlib.suppress(ValueError):
-        patterns.append(f'p_obs{int(__id):03}.*')
-    if isinstance(__id, str):
-        patterns.append(f'{__id}.*')
-    return _create_observer(Point, tuple(patterns), config, source, system)
+    observer_type = Stream if isinstance(__id, int) else Point
+    patterns = observer_type.patterns(__id)
+    return _create_observer(observer_type, patterns, config, source, system)
 
 
 def stream(
-- 
2.43.0


From 3b3a51cede4a258cf2a1896ad285716297501921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:23 +0000
Subject: [PATCH 070/135] fix: remove only the prefix from the name of an
 observer file

---
 src/eprempy/eprem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/eprem.py b/src/eprempy/eprem.py
index e32683e..2d963e6 100644
--- a/src/eprempy/eprem.py
+++ b/src/eprempy/eprem.py
@@ -407,7 +407,7 @@ def _get_observer_id(path: pathlib.Path):
     prefixes = Stream.prefixes | Point.prefixes
     for prefix in prefixes:
         if stem.startswith(prefix):
-            key = stem.lstrip(prefix)
+            key = stem[len(prefix):]
             if prefix in Stream.prefixes:
                 return int(key)
             return key
-- 
2.43.0


From 787a81c87fc4aafd72f153f0c66177834403d666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:23 +0000
Subject: [PATCH 071/135] fix: look for a bare configuration-file path in the
 dataset directory

---
 src/eprempy/eprem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/eprem.py b/src/eprempy/eprem.py
index 2d963e6..5a7578d 100644
--- a/src/eprempy/eprem.py
+++ b/src/eprempy/eprem.py
@@ -478,7 +478,7 @@ def _build_confpath(
         ) from None
     this = pathlib.Path(config)
     full = (
-        directory / config if this.name == config # file name only
+        directory / config if this.name == str(config) # file name only
         else paths.fullpath(this, strict=True) # full or relative path
     )
     if full.exists():
-- 
2.43.0


From 47a8cb0dd86542b3bc798e7d501da720cf53fdd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:23 +0000
Subject: [PATCH 072/135] fix: ignore files without a stream number when
 listing streams

---
 src/eprempy/eprem.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/eprempy/eprem.py b/src/eprempy/eprem.py
index 5a7578d..9b8f1b2 100644
--- a/src/eprempy/eprem.py
+++ b/src/eprempy/eprem.py
@@ -343,6 +343,7 @@ class Dataset:
                 for prefix in Stream.prefixes
                 for path in self.directory.glob(f"{prefix}*")
                 if path.suffix in datafile.VIEWERS
+                and path.stem[len(prefix):].isdecimal()
             ]
             self._streams = {
                 _get_observer_id(path): self._new_observer(path, Stream)
-- 
2.43.0


From ddf08514b5d58fd501eebf52ae9e7c74020b9feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:43 +0000
Subject: [PATCH 073/135] fix: evaluate default values defined by a literal
 zero

---
 src/eprempy/parameter/_config.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/parameter/_config.py b/src/eprempy/parameter/_config.py
index b92a6b8..913a9ef 100644
--- a/src/eprempy/parameter/_config.py
+++ b/src/eprempy/parameter/_config.py
@@ -49,7 +49,8 @@ class Defaults(collections.abc.Mapping):
         """Compute the final value of a parameter."""
         if isinstance(current, numbers.Real):
             return current
-        if value := cast(current, strict=False):
+        value = cast(current, strict=False)
+        if value is not None:
             return value
         if current in self._special_cases:
             return self._special_cases[current]
-- 
2.43.0


From ead6240a8260031e1a0e62f823b0cde844f3b5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:43 +0000
Subject: [PATCH 074/135] fix: evaluate default values that sum to zero

---
 src/eprempy/parameter/_config.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/parameter/_config.py b/src/eprempy/parameter/_config.py
index 913a9ef..f4e6c36 100644
--- a/src/eprempy/parameter/_config.py
+++ b/src/eprempy/parameter/_config.py
@@ -73,7 +73,8 @@ class Defaults(collections.abc.Mapping):
         interior = definition.strip('[]')
         if self._struct_member.match(interior):
             return [self._evaluate(interior.replace('config.', ''))]
-        if result := self._compute_sum(definition):
+        result = self._compute_sum(definition)
+        if result is not None:
             return result
         if any(c in definition for c in {'*', '/'}):
             expression = symbolic.expression(definition.replace('config.', ''))
-- 
2.43.0


From 62faede2728adf97bbffce5c7f1c4b96156ea42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:43 +0000
Subject: [PATCH 075/135] fix: compute default values from the current values
 of other parameters

---
 src/eprempy/parameter/_config.py  | 13 ++++++++++++-
 src/eprempy/parameter/_runtime.py |  5 +++--
 2 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/eprempy/parameter/_config.py b/src/eprempy/parameter/_config.py
index f4e6c36..36d54b0 100644
--- a/src/eprempy/parameter/_config.py
+++ b/src/eprempy/parameter/_config.py
@@ -18,13 +18,24 @@ from . import _src
 class Defaults(collections.abc.Mapping):
     """Default parameter values."""
 
-    def __init__(self, srcdir: paths.PathLike) -> None:
+    def __init__(
+        self,
+        srcdir: paths.PathLike,
+        given: typing.Optional[typing.Mapping[str, typing.Any]]=None,
+    ) -> None:
         self._basetypes = _src.BaseTypesH(srcdir=srcdir)
         self._reference = _src.ConfigurationC(srcdir=srcdir)
         self._mapping = {
             key: _convert(parameter['defaultVal'], parameter['type'])
             for key, parameter in self.reference.items()
         }
+        # NOTE: Default values may depend on the values of other parameters.
+        self._mapping.update(
+            {
+                key: value for key, value in (given or {}).items()
+                if isinstance(value, self.reference[key]['type'])
+            }
+        )
 
     def __iter__(self) -> typing.Iterator[str]:
         """Called for iter(self)."""
diff --git a/src/eprempy/parameter/_runtime.py b/src/eprempy/parameter/_runtime.py
index f2efe0d..b7ea5c9 100644
--- a/src/eprempy/parameter/_runtime.py
+++ b/src/eprempy/parameter/_runtime.py
@@ -210,8 +210,8 @@ def interface_factory(*args, **kwargs):
         key: info.get('default')
         for key, info in _metadata._LOCAL.items()
     }
-    init = {**local, **defaults}
     cfgpath = None
+    user = {}
     if cfginit:
         cfgfile = _config.configfile_factory(cfginit, **options)
         cfgpath = cfgfile.source
@@ -223,7 +223,8 @@ def interface_factory(*args, **kwargs):
             for key, parameter in defaults.reference.items()
             if key in cfgfile
         }
-        init.update(user)
+    current = _config.Defaults(srcdir=srcinit, given=user)
+    init = {**local, **current, **user}
     base = {
         key: {'unit': _metadata.UNITS.get(key), 'value': value}
         for key, value in init.items()
-- 
2.43.0


From e3f4aa1d5bec90dab3dc09629da3a6d793b65afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:43 +0000
Subject: [PATCH 076/135] fix: evaluate default arrays defined by a constant

---
 src/eprempy/parameter/_config.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/eprempy/parameter/_config.py b/src/eprempy/parameter/_config.py
index 36d54b0..04e16b3 100644
--- a/src/eprempy/parameter/_config.py
+++ b/src/eprempy/parameter/_config.py
@@ -84,6 +84,8 @@ class Defaults(collections.abc.Mapping):
         interior = definition.strip('[]')
         if self._struct_member.match(interior):
             return [self._evaluate(interior.replace('config.', ''))]
+        if interior != definition and interior in self.basetypes:
+            return [self.basetypes[interior]]
         result = self._compute_sum(definition)
         if result is not None:
             return result
-- 
2.43.0


From 6d500ba3d37347240d115778022e559bc20d1d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:17 +0000
Subject: [PATCH 077/135] fix: skip indented comments and lines of spaces in
 configuration files

---
 src/eprempy/parameter/_config.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/parameter/_config.py b/src/eprempy/parameter/_config.py
index 04e16b3..f6890f2 100644
--- a/src/eprempy/parameter/_config.py
+++ b/src/eprempy/parameter/_config.py
@@ -268,8 +268,8 @@ def _parse_config(
     cmnt = comments or ()
     with filepath.open('r') as fp:
         for line in fp:
-            line = line.rstrip('\n')
-            if line == '' or line == '\n' or line[0] in cmnt:
+            line = line.strip()
+            if line == '' or line[0] in cmnt:
                 continue
             tmp = paths.strip_inline_comments(line, cmnt)
             key, value = tmp.split('=')
-- 
2.43.0


From ddc0d77c313cd76a40631d0a4a97bcd2b3f9d57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:17 +0000
Subject: [PATCH 078/135] fix: accept configuration-file values that contain an
 equals sign

---
 src/eprempy/parameter/_config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/parameter/_config.py b/src/eprempy/parameter/_config.py
index f6890f2..04a7bf0 100644
--- a/src/eprempy/parameter/_config.py
+++ b/src/eprempy/parameter/_config.py
@@ -272,7 +272,7 @@ def _parse_config(
             if line == '' or line[0] in cmnt:
                 continue
             tmp = paths.strip_inline_comments(line, cmnt)
-            key, value = tmp.split('=')
+            key, value = tmp.split('=', maxsplit=1)
             pairs[key.strip()] = value.strip()
     return pairs
 
-- 
2.43.0


From 96c00549e696b9d1bde5c5c9d7cf339af92fb8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:17 +0000
Subject: [PATCH 079/135] fix: compare a configuration file to one given by its
 path

---
 src/eprempy/parameter/_config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/parameter/_config.py b/src/eprempy/parameter/_config.py
index 04a7bf0..e8e8dc9 100644
--- a/src/eprempy/parameter/_config.py
+++ b/src/eprempy/parameter/_config.py
@@ -223,7 +223,7 @@ class ConfigFile(collections.abc.Mapping):
             if isinstance(x, ConfigFile):
                 return x
             if isinstance(x, (str, pathlib.Path)):
-                return ConfigFile(x, **kwargs)
+                return configfile_factory(x, **kwargs)
             raise TypeError(
                 "Argument must be a path-like object"
                 f" or an instance of this class (got {type(x)})"
-- 
2.43.0


From 34560be92bf9ac9fdc8792c38fd8506a23ae02b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:17 +0000
Subject: [PATCH 080/135] fix: compute the symmetric difference of
 configuration files

---
 src/eprempy/parameter/_config.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/parameter/_config.py b/src/eprempy/parameter/_config.py
index e8e8dc9..3171697 100644
--- a/src/eprempy/parameter/_config.py
+++ b/src/eprempy/parameter/_config.py
@@ -234,8 +234,8 @@ class ConfigFile(collections.abc.Mapping):
             1: set(other) - set(self),
         }
         full = {
-            0: dict(set(self.items())),
-            1: dict(set(other.items())),
+            0: dict(set(self.items()) - set(other.items())),
+            1: dict(set(other.items()) - set(self.items())),
         }
         return ConfigDiff(keys=keys, full=full)
 
-- 
2.43.0


From 97a9baee29e7c4835faa9a6f279ac26850b17874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:17 +0000
Subject: [PATCH 081/135] fix: do not print an empty table for each compared
 parameter

---
 src/eprempy/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/cli.py b/src/eprempy/cli.py
index 51783cb..950af90 100644
--- a/src/eprempy/cli.py
+++ b/src/eprempy/cli.py
@@ -141,7 +141,7 @@ def _build_arg_dict(
         for abspath, relpath in mapped.items()
     }
     keys = sorted(parameter.ConfigurationC(source))
-    built = {key: {} for key in keys}
+    built = {}
     for key in keys:
         heading = f"  {key} (default: {_format_arg_string(default[key])})  "
         current = _map_parameter(key, targets)
-- 
2.43.0


From d4df344ba7d09238539eba5294a4556448a4c4be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:17 +0000
Subject: [PATCH 082/135] fix: compare configuration files with the default
 values in the given source

---
 src/eprempy/cli.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/cli.py b/src/eprempy/cli.py
index 950af90..7f7a170 100644
--- a/src/eprempy/cli.py
+++ b/src/eprempy/cli.py
@@ -130,14 +130,14 @@ def _build_arg_dict(
     names: bool=False,
 ) -> typing.Dict[str, typing.Dict[str, typing.Any]]:
     """Build a `dict` of parameter values."""
-    default = parameter.interface()
+    default = parameter.interface(srcdir=source)
     normalized = _normalize_paths(files)
     if names:
         mapped = normalized
     else:
         mapped = {k: str(i) for i, k in enumerate(normalized)}
     targets = {
-        relpath: parameter.interface(abspath)
+        relpath: parameter.interface(abspath, srcdir=source)
         for abspath, relpath in mapped.items()
     }
     keys = sorted(parameter.ConfigurationC(source))
-- 
2.43.0


From 14133a797cd35d563e630b6db7a1c496912466a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:17 +0000
Subject: [PATCH 083/135] fix: show empty values when comparing configuration
 files

---
 src/eprempy/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/cli.py b/src/eprempy/cli.py
index 7f7a170..0262214 100644
--- a/src/eprempy/cli.py
+++ b/src/eprempy/cli.py
@@ -162,7 +162,7 @@ def _map_parameter(
     d = {}
     for name, interface in targets.items():
         userdef = parameter.configfile(interface.config)
-        if userdef.get(key):
+        if key in userdef:
             d[name] = _format_arg_string(interface.get(key))
         else:
             d[name] = '(default)'
-- 
2.43.0


From a161f4a27ddc199729fc6cf910165f68ffe6a417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:51 +0000
Subject: [PATCH 084/135] fix: compare configuration files that do not differ

---
 src/eprempy/cli.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/eprempy/cli.py b/src/eprempy/cli.py
index 0262214..50ccba7 100644
--- a/src/eprempy/cli.py
+++ b/src/eprempy/cli.py
@@ -92,6 +92,8 @@ def compare_config_files(
     if not files:
         raise UserError("Nothing to compare") from None
     args = _build_arg_dict(files, source=source, diff=diff, names=names)
+    if not args:
+        return
     topkeys = next(list(v.keys()) for v in args.values() if v)
     nonnull = (v for item in args.values() for v in item.values() if v)
     # width (i.e., string length) of the longest parameter
-- 
2.43.0


From 8137d59e61c6d009b1a682bd175bb3b8936d58ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:51 +0000
Subject: [PATCH 085/135] fix: do not write parameters without a default value

---
 src/eprempy/cli.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/cli.py b/src/eprempy/cli.py
index 50ccba7..0c5ea8c 100644
--- a/src/eprempy/cli.py
+++ b/src/eprempy/cli.py
@@ -53,7 +53,10 @@ def generate_config_file(
 ) -> None:
     """Create a configuration file with default parameter values."""
     default = parameter.interface(srcdir=source)
-    keys = sorted(parameter.ConfigurationC(source))
+    keys = [
+        key for key in sorted(parameter.ConfigurationC(source))
+        if default[key] is not None
+    ]
     header = [
         f"# EPREM default configuration file\n",
         f"# Generated at {_timestr}\n",
-- 
2.43.0


From 9f2390cb5182405e65fc8945b1f42c45ca4f86ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:51 +0000
Subject: [PATCH 086/135] fix: write default arrays as lists

---
 src/eprempy/cli.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/cli.py b/src/eprempy/cli.py
index 0c5ea8c..2b306da 100644
--- a/src/eprempy/cli.py
+++ b/src/eprempy/cli.py
@@ -53,8 +53,9 @@ def generate_config_file(
 ) -> None:
     """Create a configuration file with default parameter values."""
     default = parameter.interface(srcdir=source)
+    reference = parameter.ConfigurationC(source)
     keys = [
-        key for key in sorted(parameter.ConfigurationC(source))
+        key for key in sorted(reference)
         if default[key] is not None
     ]
     header = [
@@ -63,7 +64,7 @@ def generate_config_file(
         f"# --------------------------------\n",
     ]
     values = [
-        f"{key}={_get_arg_value(default[key])}\n"
+        f"{key}={_get_file_value(default[key], reference[key]['type'])}\n"
         for key in keys
     ]
     footer = [
@@ -199,6 +200,13 @@ def _format_arg_string(arg):
     return str(arg)
 
 
+def _get_file_value(arg, argtype: type):
+    """Get this argument's value in the format of a configuration file."""
+    if argtype is list and isinstance(arg, measured.Object):
+        return arg.data.tolist()
+    return _get_arg_value(arg)
+
+
 def _get_arg_value(arg):
     """Extract this argument's value, if necessary."""
     if isinstance(arg, measured.Object):
-- 
2.43.0


From 71fd103849f446bb539a28844556ad02e690b349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:52 +0000
Subject: [PATCH 087/135] fix: index shells like any other dimension

---
 src/eprempy/observable/_objects.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/eprempy/observable/_objects.py b/src/eprempy/observable/_objects.py
index bb784c0..4bee316 100644
--- a/src/eprempy/observable/_objects.py
+++ b/src/eprempy/observable/_objects.py
@@ -469,12 +469,14 @@ class Quantity:
     def _shell_or_radius(self, axes: dict):
         """Determine whether the shell axis represents a radius."""
         shell = axes.get('shell', slice(None))
-        if isinstance(shell, slice):
+        if isinstance(shell, slice) or quantity.isindexlike(shell):
             return 'shell', shell
         s = quantity.measure(shell)
-        if not quantity.isindexlike(s) and s.unit.quantity == 'length':
+        if s.unit.quantity == 'length':
             return 'radius', physical.coordinates(s)
-        return 'shell', physical.points(numpy.array(s))
+        raise IndexError(
+            f"Cannot use {shell!r} as a shell index or a radius"
+        ) from None
 
     def __eq__(self, other):
         """Called for self == other."""
-- 
2.43.0


From 03d53406c1527d175cf51b838800e721b4c0289b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:52 +0000
Subject: [PATCH 088/135] fix: let an empty index select no values of an
 observable

---
 src/eprempy/observable/_interfaces.py | 36 ++++++++++++++++-----------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/src/eprempy/observable/_interfaces.py b/src/eprempy/observable/_interfaces.py
index aac0451..bb416a4 100644
--- a/src/eprempy/observable/_interfaces.py
+++ b/src/eprempy/observable/_interfaces.py
@@ -99,27 +99,27 @@ class Implementations:
 
     def time(self, time=None) -> physical.Array:
         """Compute the output times."""
-        return self.dataset.time[_normalize_indices(time or slice(None))]
+        return self.dataset.time[_normalize_indices(_index_or(time, slice(None)))]
 
     def energy(self, energy=None) -> physical.Array:
         """Compute the particle energies."""
-        return self.dataset.energy[_normalize_indices(energy or slice(None))]
+        return self.dataset.energy[_normalize_indices(_index_or(energy, slice(None)))]
 
     def v(self, energy=None) -> physical.Array:
         """Compute the particle speeds."""
-        return self.dataset.v[_normalize_indices(energy or slice(None))]
+        return self.dataset.v[_normalize_indices(_index_or(energy, slice(None)))]
 
     def mu(self, mu=None) -> physical.Array:
         """Compute the particle pitch-angle cosines."""
-        return self.dataset.mu[_normalize_indices(mu or slice(None))]
+        return self.dataset.mu[_normalize_indices(_index_or(mu, slice(None)))]
 
     def mass(self, species=None) -> physical.Array:
         """Compute the mass of each species."""
-        return self.dataset.mass[_normalize_indices(species or slice(None))]
+        return self.dataset.mass[_normalize_indices(_index_or(species, slice(None)))]
 
     def charge(self, species=None) -> physical.Array:
         """Compute the charge of each species."""
-        return self.dataset.charge[_normalize_indices(species or slice(None))]
+        return self.dataset.charge[_normalize_indices(_index_or(species, slice(None)))]
 
     ## -- primary observable quantities --
     # Each method accepts only the indices corresponding to the dataset
@@ -902,10 +902,11 @@ class Implementations:
     ) -> physical.Array:
         """Subscript the array based on user indices."""
         # Each value represents the user-provided indices, if available, or a
-        # full slice. The use of `user.indices.get(d) or slice(None)` instead of
-        # `user.indices.get(d, slice(None))` forces a slice even if
-        # `user.indices[d] == None`.
-        axes = tuple(indices.get(d) or slice(None) for d in x.dimensions)
+        # full slice, which also applies if `indices[d]` is `None`.
+        axes = tuple(
+            _index_or(indices.get(d), slice(None))
+            for d in x.dimensions
+        )
         return x[_normalize_indices(*axes)]
 
     def _interpolate(
@@ -931,10 +932,9 @@ class Implementations:
         ]
         axes = tuple(
             # Each value represents the user-provided indices, if available, or
-            # the default indices for the corresponding dimension of `x`. The
-            # use of `user.indices.get(d) or i` instead of `user.indices.get(d,
-            # i)` forces the default value even if `user.indices[d] == None`.
-            i if d in finished else indices.get(d) or i
+            # the default indices for the corresponding dimension of `x`, which
+            # also apply if `indices[d]` is `None`.
+            i if d in finished else _index_or(indices.get(d), i)
             for d, i in default.items()
         )
         return base[_normalize_indices(*axes)]
@@ -1032,6 +1032,14 @@ class Implementations:
         return self._grid
 
 
+def _index_or(index, default):
+    """Use the default index only if there is no given index.
+
+    A given index may be empty, in which case it is false but not absent.
+    """
+    return default if index is None else index
+
+
 def _normalize_indices(*args):
     """Normalize array-indexing objects."""
     if all(isinstance(v, numeric.index.Value) for v in args):
-- 
2.43.0


From a9585d33625cc23a09065910ccf0b2ae26503adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:52 +0000
Subject: [PATCH 089/135] fix: accept a collection of symbols in an observable
 index

---
 src/eprempy/observable/_objects.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/eprempy/observable/_objects.py b/src/eprempy/observable/_objects.py
index 4bee316..1d839c5 100644
--- a/src/eprempy/observable/_objects.py
+++ b/src/eprempy/observable/_objects.py
@@ -355,6 +355,8 @@ class Context:
             axis = self.axes[name]
             if isinstance(v, slice):
                 return axis.indices[v]
+            if isinstance(axis, physical.Symbols):
+                return axis.index(*container.wrap(v))
             return axis.index(v)
         # At this point, we can be reasonably confident that `v` is not an axis
         # index, so we will treat it as a physical assumption.
-- 
2.43.0


From 1340f6964636d968c8da3d1510a16c8a447a38aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:19 +0000
Subject: [PATCH 090/135] fix: locate a radius on the grid separately at each
 time

---
 src/eprempy/observable/_interfaces.py | 13 ++++++++-----
 src/eprempy/observable/_objects.py    | 13 ++++++++-----
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/eprempy/observable/_interfaces.py b/src/eprempy/observable/_interfaces.py
index bb416a4..0f1c464 100644
--- a/src/eprempy/observable/_interfaces.py
+++ b/src/eprempy/observable/_interfaces.py
@@ -1982,13 +1982,16 @@ def _apply_interp1d(
     target: float,
 ) -> typing.List[float]:
     """Interpolate data to `target` along the leading axis."""
-    if target in reference:
-        idx = container.nearest(reference, target).index
-        return array[idx]
     ndim = reference.ndim
     if ndim == 2:
-        interps = [interp1d(x, y, axis=0) for x, y in zip(reference, array)]
-        return numpy.array([interp(target) for interp in interps])
+        # Each row of the reference array locates the target independently.
+        return numpy.array([
+            _apply_interp1d(y, x, target)
+            for x, y in zip(reference, array)
+        ])
+    if ndim == 1 and target in reference:
+        idx = container.nearest(reference, target).index
+        return array[idx]
     if ndim != 1:
         raise physical._array.NDimError(
             f"The reference array may have 1 or 2 (not {ndim}) dimensions"
diff --git a/src/eprempy/observable/_objects.py b/src/eprempy/observable/_objects.py
index 1d839c5..da078ab 100644
--- a/src/eprempy/observable/_objects.py
+++ b/src/eprempy/observable/_objects.py
@@ -143,13 +143,16 @@ def _apply_interp1d(
     target: float,
 ) -> typing.List[float]:
     """Interpolate data to `target` along the leading axis."""
-    if target in reference:
-        idx = container.nearest(reference, target).index
-        return array[idx]
     ndim = reference.ndim
     if ndim == 2:
-        interps = [interp1d(x, y, axis=0) for x, y in zip(reference, array)]
-        return numpy.array([interp(target) for interp in interps])
+        # Each row of the reference array locates the target independently.
+        return numpy.array([
+            _apply_interp1d(y, x, target)
+            for x, y in zip(reference, array)
+        ])
+    if ndim == 1 and target in reference:
+        idx = container.nearest(reference, target).index
+        return array[idx]
     if ndim != 1:
         raise physical._array.NDimError(
             f"The reference array may have 1 or 2 (not {ndim}) dimensions"
-- 
2.43.0


From 9153dfc88d10fdd8819695c87c3725fcf91a73a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:45 +0000
Subject: [PATCH 091/135] fix: interpolate to any radius and time within the
 grid

---
 src/eprempy/observable/_interfaces.py | 76 +++++++++++++++++++++++----
 1 file changed, 66 insertions(+), 10 deletions(-)

diff --git a/src/eprempy/observable/_interfaces.py b/src/eprempy/observable/_interfaces.py
index 0f1c464..2c72ba0 100644
--- a/src/eprempy/observable/_interfaces.py
+++ b/src/eprempy/observable/_interfaces.py
@@ -916,7 +916,11 @@ class Implementations:
         assumptions: typing.Dict[str, typing.Any]=None,
     ) -> physical.Array:
         """Interpolate the given array based on indices and assumptions."""
-        interpolants = self._compute_interpolants(x, assumptions or {})
+        interpolants = self._compute_interpolants(
+            x,
+            indices,
+            assumptions or {},
+        )
         base = interpolate(x, interpolants)
         default = {
             # Each value represents the appropriate default index for the
@@ -942,6 +946,7 @@ class Implementations:
     def _compute_interpolants(
         self,
         x: physical.Array,
+        indices: typing.Dict[str, physical.AxisType],
         assumptions: dict,
     ) -> dict:
         """Determine the coordinate axes over which to interpolate."""
@@ -951,8 +956,15 @@ class Implementations:
             # only applies when 'shell' is one of the target quantity's
             # dimensions.
             return from_axis
-        from_grid = self._get_grid_interpolant(x, assumptions, 'radius')
-        return {**from_axis, **from_grid}
+        # NOTE: The radius of each shell depends on time, so interpolation over
+        # radius needs to precede interpolation over time.
+        from_grid = self._get_grid_interpolant(
+            x,
+            indices,
+            assumptions,
+            'radius',
+        )
+        return {**from_grid, **from_axis}
 
     def _get_axis_interpolant(self, x: physical.Array, assumptions: dict):
         """Compute interpolation information from an axis object."""
@@ -976,6 +988,7 @@ class Implementations:
     def _get_grid_interpolant(
         self,
         x: physical.Array,
+        indices: typing.Dict[str, physical.AxisType],
         assumptions: dict,
         name: str,
     ) -> dict:
@@ -983,7 +996,6 @@ class Implementations:
         interpolants = {}
         idx = (x.axes['time'].indices, x.axes['shell'].indices)
         c = self.grid[name][idx]
-        a = physical.tensor(c)
         try:
             key = next(
                 alias for alias in reference.ARRAYS.aliases[name]
@@ -993,14 +1005,46 @@ class Implementations:
             return interpolants
         if value := assumptions.get(key):
             m = quantity.measure(value).withunit(str(self.system))
-            for v in m:
-                _check_interpolation_bounds(name, v, a)
+            # NOTE: The target values only need to lie within the grid at times
+            # on which the result depends.
+            times = self._required_times(x, indices, assumptions)
+            for time in times:
+                a = physical.vector(numpy.array(c)[time, :], unit=c.unit)
+                for v in m:
+                    _check_interpolation_bounds(name, v, a)
             interpolants[key] = Interpolant(
                 targets=numpy.array(m),
                 reference=c,
             )
         return interpolants
 
+    def _required_times(
+        self,
+        x: physical.Array,
+        indices: typing.Dict[str, physical.AxisType],
+        assumptions: dict,
+    ) -> typing.Set[int]:
+        """Determine the time indices on which a result depends."""
+        axis = x.axes['time']
+        value = assumptions.get('time')
+        if value is None:
+            index = indices.get('time')
+            every = numpy.arange(axis.length)
+            if index is None:
+                return set(every)
+            subset = _normalize_indices(index)[0]
+            return set(numpy.atleast_1d(every[numpy.asarray(subset)]))
+        times = numpy.array(self.grid['time'])[axis.indices]
+        targets = numpy.array(quantity.measure(value).withunit(axis.unit))
+        required = set()
+        for target in targets:
+            found = _find_value(times, target)
+            required.update(
+                numeric.index.restrict(times, target, axis=0)
+                if found is None else [found]
+            )
+        return required
+
     @property
     def dataset(self):
         """The available dataset arrays."""
@@ -1057,6 +1101,8 @@ def _check_interpolation_bounds(
     reference: measured.Object,
 ) -> None:
     """Raise an exception if `value` is not bounded by `reference`."""
+    if _find_value(numpy.array(reference).ravel(), float(value)) is not None:
+        return
     a = numpy.min(reference)
     b = numpy.max(reference)
     if not a < value < b:
@@ -1989,9 +2035,8 @@ def _apply_interp1d(
             _apply_interp1d(y, x, target)
             for x, y in zip(reference, array)
         ])
-    if ndim == 1 and target in reference:
-        idx = container.nearest(reference, target).index
-        return array[idx]
+    if ndim == 1 and (found := _find_value(reference, target)) is not None:
+        return array[found]
     if ndim != 1:
         raise physical._array.NDimError(
             f"The reference array may have 1 or 2 (not {ndim}) dimensions"
@@ -2001,7 +2046,18 @@ def _apply_interp1d(
         # definition. Squeezing does not necessarily work because there may be
         # other singular dimensions.
         return array[0]
-    interp = interp1d(reference, array, axis=0)
+    # NOTE: Calling code has checked the bounds of all the values it needs.
+    interp = interp1d(reference, array, axis=0, bounds_error=False)
     return interp(target)
 
 
+def _find_value(
+    reference: numpy.ndarray,
+    target: float,
+) -> typing.Optional[int]:
+    """Find the index of a value that equals `target` to within round-off."""
+    index = container.nearest(reference, target).index
+    if numpy.isclose(reference[index], target, rtol=1e-12, atol=0.0):
+        return index
+
+
-- 
2.43.0


From b6dda4b3294473758006aadda0ada728f1ee639c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:40 +0000
Subject: [PATCH 092/135] fix: accept a target radius in any unit of length

---
 src/eprempy/observable/_interfaces.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/observable/_interfaces.py b/src/eprempy/observable/_interfaces.py
index 2c72ba0..8b6095f 100644
--- a/src/eprempy/observable/_interfaces.py
+++ b/src/eprempy/observable/_interfaces.py
@@ -1004,7 +1004,7 @@ class Implementations:
         except StopIteration:
             return interpolants
         if value := assumptions.get(key):
-            m = quantity.measure(value).withunit(str(self.system))
+            m = quantity.measure(value).withunit(c.unit)
             # NOTE: The target values only need to lie within the grid at times
             # on which the result depends.
             times = self._required_times(x, indices, assumptions)
-- 
2.43.0


From 868eb2954d19ea28fef89ccc7234141e15a99523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:44 +0000
Subject: [PATCH 093/135] fix: give requested coordinates their own axis

---
 src/eprempy/observable/_interfaces.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/eprempy/observable/_interfaces.py b/src/eprempy/observable/_interfaces.py
index 8b6095f..aec9844 100644
--- a/src/eprempy/observable/_interfaces.py
+++ b/src/eprempy/observable/_interfaces.py
@@ -1213,7 +1213,7 @@ class Quantities(collections.abc.Mapping):
             return physical.array(
                 data,
                 unit=unit,
-                axes=self.dataset.time.axes,
+                axes={'time': measured.sequence(data, unit)},
             )
         return self.functions.time(time=user.time)
 
@@ -1234,7 +1234,7 @@ class Quantities(collections.abc.Mapping):
             return physical.array(
                 data,
                 unit=unit,
-                axes=self.dataset.energy.axes,
+                axes={'energy': measured.sequence(data, unit)},
             )
         return self.functions.energy(energy=user.energy)
 
@@ -1272,7 +1272,7 @@ class Quantities(collections.abc.Mapping):
             return physical.array(
                 data,
                 unit=unit,
-                axes=self.dataset.mu.axes,
+                axes={'mu': measured.sequence(data, unit)},
             )
         return self.functions.mu(mu=user.mu)
 
-- 
2.43.0


From f82f78b39be2122500a324999ed628c4e9807edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:06 +0000
Subject: [PATCH 094/135] fix: share one energy grid among several species

---
 src/eprempy/datafile/_interfaces.py | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/eprempy/datafile/_interfaces.py b/src/eprempy/datafile/_interfaces.py
index 494fb1b..a13d85b 100644
--- a/src/eprempy/datafile/_interfaces.py
+++ b/src/eprempy/datafile/_interfaces.py
@@ -5,6 +5,7 @@ import numpy.typing
 
 from .. import atomic
 from .. import etc
+from .. import measured
 from .. import metric
 from .. import paths
 from .. import physical
@@ -112,8 +113,9 @@ class Axes(typing.Mapping[str, physical.Axis]):
     def energy(self) -> physical.Array:
         """The particle energies."""
         if self._energy is None:
-            data = numpy.squeeze(self._create('egrid'))
-            self._energy = physical.coordinates(data)
+            data = _common_grid(numpy.array(self._create('egrid')))
+            unit = self.system['energy'].unit
+            self._energy = physical.coordinates(measured.sequence(data, unit))
         return self._energy
 
     @property
@@ -222,14 +224,14 @@ class Arrays:
     def energy(self) -> physical.Array:
         """The particle energies."""
         if self._energy is None:
-            self._energy = numpy.squeeze(self._create('egrid'))
+            self._energy = self._create_grid('egrid')
         return self._energy
 
     @property
     def v(self) -> physical.Array:
         """The particle speeds."""
         if self._v is None:
-            self._v = numpy.squeeze(self._create('vgrid'))
+            self._v = self._create_grid('vgrid')
         return self._v
 
     @property
@@ -360,6 +362,15 @@ class Arrays:
         )
         return array.withunit(unit or str(self.system))
 
+    def _create_grid(self, name: str) -> physical.Array:
+        """Create an array for a grid that all species share."""
+        array = self._create(name)
+        return physical.array(
+            _common_grid(numpy.array(array)),
+            unit=array.unit,
+            axes={'energy': self.axes['energy']},
+        )
+
     @property
     def hasdist(self):
         """True if this dataset contains the particle distribution.
@@ -468,6 +479,13 @@ class Grid:
         return self._arrays.system
 
 
+def _common_grid(grid: numpy.ndarray) -> numpy.ndarray:
+    """Reduce a grid to one dimension if all species share it."""
+    if grid.ndim == 2 and (grid == grid[0]).all():
+        return grid[0]
+    return numpy.squeeze(grid)
+
+
 def axes_factory(
     source: paths.PathLike,
     system: typing.Optional[typing.Union[str, metric.System]]=None,
-- 
2.43.0


From 3cda0f0187412b3c434f99c6dba15fd72a3e2b3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:11 +0000
Subject: [PATCH 095/135] fix: accept a list of symbols as the index of a
 one-dimensional observable

---
 src/eprempy/observable/_objects.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/observable/_objects.py b/src/eprempy/observable/_objects.py
index da078ab..5a96683 100644
--- a/src/eprempy/observable/_objects.py
+++ b/src/eprempy/observable/_objects.py
@@ -467,8 +467,13 @@ class Quantity:
 
     def _normalize(self, args):
         """Observable-specific index normalization."""
-        if self.ndim == 1 and quantity.ismeasurable(args):
-            return numeric.index.expand(self.ndim, [args])
+        if self.ndim == 1:
+            symbols = (
+                isinstance(args, list)
+                and all(isinstance(arg, str) for arg in args)
+            )
+            if symbols or quantity.ismeasurable(args):
+                return numeric.index.expand(self.ndim, [args])
         return numeric.index.expand(self.ndim, args)
 
     def _shell_or_radius(self, axes: dict):
-- 
2.43.0


From 29edc14b1068c86788f793f727bc22fa51f305f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:39 +0000
Subject: [PATCH 096/135] fix: raise observables to powers

---
 src/eprempy/observable/_objects.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/observable/_objects.py b/src/eprempy/observable/_objects.py
index 5a96683..b9d907f 100644
--- a/src/eprempy/observable/_objects.py
+++ b/src/eprempy/observable/_objects.py
@@ -572,7 +572,9 @@ class Quantity:
     def _apply(self, operator, other, *attrs):
         """Apply a standard algebraic operator."""
         def __f(user: Arguments):
-            return operator(self[user], other[user])
+            if isinstance(other, Quantity):
+                return operator(self[user], other[user])
+            return operator(self[user], other)
         context = Context(__f, self.context.axes, self.context.grid)
         return Quantity(context, *attrs)
 
-- 
2.43.0


From cc804c5b4e84d89e0024ec976dca7a36a81d9faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:39 +0000
Subject: [PATCH 097/135] fix: restrict the axes of the flow angle like its
 values

---
 src/eprempy/observable/_interfaces.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/observable/_interfaces.py b/src/eprempy/observable/_interfaces.py
index aec9844..441ad1e 100644
--- a/src/eprempy/observable/_interfaces.py
+++ b/src/eprempy/observable/_interfaces.py
@@ -392,7 +392,7 @@ class Implementations:
         return physical.array(
             numpy.arccos(arg),
             unit='rad',
-            axes=self.dataset.ur.axes,
+            axes=ratio.axes,
         )
 
     def uperp(
-- 
2.43.0


From 53e888fc5b36d1f49de9f782a0b77704c245a478 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:39 +0000
Subject: [PATCH 098/135] fix: provide the defined observables ubmag and udotb

---
 src/eprempy/observable/_interfaces.py | 34 +++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/src/eprempy/observable/_interfaces.py b/src/eprempy/observable/_interfaces.py
index 441ad1e..0ddade7 100644
--- a/src/eprempy/observable/_interfaces.py
+++ b/src/eprempy/observable/_interfaces.py
@@ -1590,6 +1590,40 @@ class Quantities(collections.abc.Mapping):
             assumptions=user.assumptions,
         )
 
+    @property
+    def ubmag(self):
+        """The product of magnetic- and velocity-field magnitudes, |U||B|."""
+        return self._implement(
+            self._ubmag,
+            self.bmag.unit * self.umag.unit,
+            self.bmag.dimensions | self.umag.dimensions,
+        )
+
+    def _ubmag(self, user: Arguments):
+        """Callback method for the product of field magnitudes."""
+        return self.functions.ubmag(
+            time=user.time,
+            shell=user.shell,
+            assumptions=user.assumptions,
+        )
+
+    @property
+    def udotb(self):
+        """The scalar product of velocity and magnetic fields, U·B."""
+        return self._implement(
+            self._udotb,
+            self.br.unit * self.ur.unit,
+            self.br.dimensions | self.ur.dimensions,
+        )
+
+    def _udotb(self, user: Arguments):
+        """Callback method for the scalar product of fields."""
+        return self.functions.udotb(
+            time=user.time,
+            shell=user.shell,
+            assumptions=user.assumptions,
+        )
+
     @property
     def angle(self):
         """The angle between the magnetic- and velocity-field vectors."""
-- 
2.43.0


From 1fefc6bc0bde814e853017916599b639a7ca2b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:39 +0000
Subject: [PATCH 099/135] fix: compute rigidity and mean free path at energies
 between grid values

---
 src/eprempy/observable/_interfaces.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/eprempy/observable/_interfaces.py b/src/eprempy/observable/_interfaces.py
index 0ddade7..0309e50 100644
--- a/src/eprempy/observable/_interfaces.py
+++ b/src/eprempy/observable/_interfaces.py
@@ -472,6 +472,7 @@ class Implementations:
         self,
         species=None,
         energy=None,
+        assumptions: typing.Optional[dict]=None,
     ) -> physical.Array:
         """Compute the magnetic rigidity.
 
@@ -485,9 +486,19 @@ class Implementations:
         return self._compute_rigidity(
             self.mass(species=species),
             self.charge(species=species),
-            self.energy(energy=energy),
+            self._target_energy(energy, assumptions),
         )
 
+    def _target_energy(
+        self,
+        energy=None,
+        assumptions: typing.Optional[dict]=None,
+    ) -> physical.Array:
+        """Compute the particle energies on or between grid values."""
+        value = (assumptions or {}).get('energy')
+        targets = None if value is None else {'energy': value}
+        return self._observe(self.dataset.energy, targets, energy=energy)
+
     def _compute_rigidity(
         self,
         mass: physical.Array,
@@ -525,14 +536,14 @@ class Implementations:
         assumptions: typing.Optional[dict]=None,
     ) -> physical.Array:
         """Compute the mean free path."""
-        e = self.energy(energy=energy)
+        e = self._target_energy(energy, assumptions)
         m = self.mass(species=species)
         q = self.charge(species=species)
         rg = self._compute_rigidity(m, q, e)
         if not isinstance(e, physical.Array):
             raise TypeError(f"Wrong type for energy: {type(e)}")
         e0 = physical.array(
-            [float(self.constants['MeV'])],
+            numpy.full(e.shape, float(self.constants['MeV'])),
             unit=e.unit,
             axes=e.axes
         )
@@ -1708,6 +1719,7 @@ class Quantities(collections.abc.Mapping):
         return self.functions.rigidity(
             species=user.species,
             energy=user.energy,
+            assumptions=user.assumptions,
         )
 
     @property
-- 
2.43.0


From 1df108999c17ddb5039f46995f4902a84bf6883c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:39 +0000
Subject: [PATCH 100/135] fix: compute the acceleration rate at any index of a
 shell

---
 src/eprempy/observable/_interfaces.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/eprempy/observable/_interfaces.py b/src/eprempy/observable/_interfaces.py
index 0309e50..6dd5c7c 100644
--- a/src/eprempy/observable/_interfaces.py
+++ b/src/eprempy/observable/_interfaces.py
@@ -577,9 +577,9 @@ class Implementations:
 
     def _compute_ar(self, shell=None, species=None) -> physical.Array:
         """Helper for `_ar`."""
-        s = (
-            shell if isinstance(shell, numeric.index.Sequence)
-            else self.axes['shell'].index()
+        every = self.axes['shell'].indices
+        s = every if shell is None else numeric.index.sequence(
+            numpy.array(every)[_normalize_indices(shell)].ravel()
         )
         s1 = s.shift(1, ceil=len(self.axes['shell'])-1)
         s2 = s.shift(-1, floor=0)
-- 
2.43.0


From 89bf6661f4fb1234f2e271784c63270e2fc2cb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:29 +0000
Subject: [PATCH 101/135] fix: combine arrays that have an empty dimension

---
 src/eprempy/numeric/_array.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/eprempy/numeric/_array.py b/src/eprempy/numeric/_array.py
index f87e3aa..49400ad 100644
--- a/src/eprempy/numeric/_array.py
+++ b/src/eprempy/numeric/_array.py
@@ -802,9 +802,13 @@ def remesh(a: Array, b: Array):
         # NOTE: This creates the maximal shape in order to handle cases in
         # which the input arrays have matching dimensions but one array is
         # singular. The previous implementation would always overwrite the
-        # size of matching dimensions in `a` with those of `b`.
-        max(a.shapemap.get(d, 1), b.shapemap.get(d, 1))
-        for d in dimensions
+        # size of matching dimensions in `a` with those of `b`. An empty
+        # dimension remains empty.
+        max(sizes) if all(sizes) else 0
+        for sizes in (
+            (a.shapemap.get(d, 1), b.shapemap.get(d, 1))
+            for d in dimensions
+        )
     )
     idxmesh = numpy.ix_(*[range(i) for i in shape])
     # NOTE: There is only one valid index along a singular dimension.
-- 
2.43.0


From ac4b705c448efd5d580f40967e03bf33bae1f03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:18 +0000
Subject: [PATCH 102/135] fix: compute integral flux above the given minimum
 energies

---
 src/eprempy/observable/_interfaces.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/observable/_interfaces.py b/src/eprempy/observable/_interfaces.py
index 6dd5c7c..b10b58d 100644
--- a/src/eprempy/observable/_interfaces.py
+++ b/src/eprempy/observable/_interfaces.py
@@ -806,7 +806,7 @@ class Implementations:
         # species because interpolation over species is meaningless.
         flux = self.flux(shell=shell, species=species)
         e = self.energy()
-        minimum_energy = assumptions.pop('minimum_energy') or slice(None)
+        minimum_energy = assumptions.pop('minimum energy')
         intflux = self._integrate_flux(flux, e, minimum_energy)
         return self._observe(intflux, assumptions, time=time)
 
@@ -1861,7 +1861,7 @@ class Quantities(collections.abc.Mapping):
         """Callback method for integral particle flux."""
         assumptions = dict(user.assumptions)
         if 'minimum energy' not in assumptions:
-            assumptions['minimum energy'] == sys.float_info.min
+            assumptions['minimum energy'] = slice(None)
         return self.functions.intflux(
             time=user.time,
             shell=user.shell,
-- 
2.43.0


From ada879007e8da8cc2dc04369f746c74b358336d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:01 +0000
Subject: [PATCH 103/135] fix: convert the argument of a Wrapper to a string

---
 src/eprempy/container.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/container.py b/src/eprempy/container.py
index af925df..00e10a7 100644
--- a/src/eprempy/container.py
+++ b/src/eprempy/container.py
@@ -227,7 +227,7 @@ class Wrapper(collections.abc.Collection, typing.Generic[T]):
 
     def __str__(self) -> str:
         """A simplified representation of this object."""
-        return self._arg
+        return str(self._arg)
 
 
 def isseparable(x, /):
-- 
2.43.0


From 8140c9b40e5df6f9633b45a6efae753320fa0007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:01 +0000
Subject: [PATCH 104/135] fix: count strings as single elements when computing
 the size of a collection

---
 src/eprempy/container.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/container.py b/src/eprempy/container.py
index 00e10a7..34f0327 100644
--- a/src/eprempy/container.py
+++ b/src/eprempy/container.py
@@ -1144,7 +1144,7 @@ def size(x, /) -> int:
         ) from None
     count = 0
     for y in x:
-        if isiterable(y):
+        if isseparable(y):
             count += size(y)
         else:
             count += 1
-- 
2.43.0


From 120e7b1cbd535bc4e96baee4660a47094e455325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:01 +0000
Subject: [PATCH 105/135] fix: let isshapelike accept arrays

---
 src/eprempy/container.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/eprempy/container.py b/src/eprempy/container.py
index 34f0327..9a84028 100644
--- a/src/eprempy/container.py
+++ b/src/eprempy/container.py
@@ -1194,12 +1194,13 @@ def isshapelike(x, /):
     This function will return `True` if `x` is a non-empty iterable object that
     contains only integral members. Otherwise, it will return `False`.
     """
-    if not x:
+    if not isiterable(x):
         return False
+    members = list(x)
     return (
-        isiterable(x)
+        len(members) > 0
         and
-        all(isinstance(i, numbers.Integral) for i in x)
+        all(isinstance(i, numbers.Integral) for i in members)
     )
 
 
-- 
2.43.0


From f5d9099dc296d344e3cd6ab46c8e8025d46c290d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:01 +0000
Subject: [PATCH 106/135] fix: judge the ambiguity of a table request by the
 entries that satisfy it

---
 src/eprempy/container.py | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/src/eprempy/container.py b/src/eprempy/container.py
index 9a84028..fb1bb12 100644
--- a/src/eprempy/container.py
+++ b/src/eprempy/container.py
@@ -652,22 +652,19 @@ class Table(collections.abc.Mapping):
             search.
         """
         subset = [*self._entries]
-        for n_checked, pair in enumerate(request.items(), start=1):
-            key, value = pair
+        for key, value in request.items():
             if key not in self.keys:
                 raise TableKeyError(key)
             subset = [
                 entry for entry in subset
                 if entry[key] == value
             ]
-            if not strict:
-                count = self[key].count(value)
-                if count > n_checked and len(request) == n_checked:
-                    raise AmbiguousRequestError(request)
-                if len(subset) == 1:
-                    return subset[0]
+            if not strict and len(subset) == 1:
+                return subset[0]
         if strict and len(subset) == 1:
             return subset[0]
+        if not strict and request and len(subset) > 1:
+            raise AmbiguousRequestError(request)
         raise TableLookupError(request)
 
 
-- 
2.43.0


From 7e7fa8253250635999e3eb548749c371eb9169b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:01 +0000
Subject: [PATCH 107/135] fix: allow tables without entries

---
 src/eprempy/container.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/container.py b/src/eprempy/container.py
index fb1bb12..95fa3fb 100644
--- a/src/eprempy/container.py
+++ b/src/eprempy/container.py
@@ -570,7 +570,10 @@ class Table(collections.abc.Mapping):
         """All the keys common to the individual mappings."""
         if self._keys is None:
             all_keys = [list(entry.keys()) for entry in self._entries]
-            self._keys = set(all_keys[0]).intersection(*all_keys[1:])
+            self._keys = (
+                set(all_keys[0]).intersection(*all_keys[1:])
+                if all_keys else set()
+            )
         return self._keys
 
     def __getitem__(self, key: _KT) -> typing.Tuple[_VT]:
-- 
2.43.0


From 1236c7706b915d80638f8b364bb758821c4f7ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:57:01 +0000
Subject: [PATCH 108/135] fix: do not let the default key of a registered
 object replace another

---
 src/eprempy/container.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/eprempy/container.py b/src/eprempy/container.py
index 95fa3fb..7b1b11c 100644
--- a/src/eprempy/container.py
+++ b/src/eprempy/container.py
@@ -960,9 +960,11 @@ class ObjectRegistry(collections.abc.Mapping, typing.Mapping[_KT, _VT]):
                 proposed = getattr(obj, option)
                 if proposed not in self._items:
                     return proposed
-                new_default_key = f"{proposed}_{self._default_key_count}"
-                self._default_key_count += 1
-                return new_default_key
+                while True:
+                    new_default_key = f"{proposed}_{self._default_key_count}"
+                    self._default_key_count += 1
+                    if new_default_key not in self._items:
+                        return new_default_key
 
     def reset(self) -> None:
         """Reset the internal mapping to its initial state."""
-- 
2.43.0


From b7793b66941d20ca158e365f12be7efba7d0c635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:17 +0000
Subject: [PATCH 109/135] fix: use all values of measurements that contain
 numerical strings

---
 src/eprempy/quantity/_functions.py | 99 ++++++++++++++++--------------
 1 file changed, 52 insertions(+), 47 deletions(-)

diff --git a/src/eprempy/quantity/_functions.py b/src/eprempy/quantity/_functions.py
index 1e007fd..178902f 100644
--- a/src/eprempy/quantity/_functions.py
+++ b/src/eprempy/quantity/_functions.py
@@ -210,57 +210,62 @@ def parse(x, /, distribute: bool=False):
     if all(isinstance(arg, (list, tuple)) for arg in unwrapped):
         return _recursive_parse(unwrapped, distribute)
 
-    # Count the number of distinct unit-like objects.
-    types = [type(arg) for arg in unwrapped]
-    counted = {t: types.count(t) for t in (str, metric.Unit)}
-
-    # Check for multiple units.
-    errmsg = "You may only specify one unit."
-    if counted[metric.Unit] > 1:
-        # If the input contains more than one instance of the `Unit` class,
-        # there is nothing we can do to salvage it.
-        raise ParsingValueError(errmsg) from None
-    if counted[str] > 1:
-        # First, check for a single numeric string.
-        if isinstance(unwrapped, str):
-            with contextlib.suppress(ValueError):
-                return parse([float(unwrapped)])
-        # Next, check for all numeric strings.
-        with contextlib.suppress(ValueError):
-            return parse([float(arg) for arg in unwrapped])
-        # Finally, check for numeric strings with a final unit.
-        try:
-            values = [float(arg) for arg in unwrapped[:-1]]
-        except ValueError as err:
-            raise ParsingValueError(errmsg) from err
-        return parse([*values, unwrapped[-1]])
-
-    # Handle flat numerical iterables, like (1.1,) or (1.1, 2.3).
-    if all(isinstance(arg, numbers.Real) for arg in unwrapped):
-        return _wrap_measurable(unwrapped, '1', distribute)
-
-    # Ensure an explicit unit-like object. Note that, at this point, `unwrapped`
-    # must have one of the following forms (where any tuple may be a list):
+    # Separate the values from the unit. At this point, `unwrapped` must have one
+    # of the following forms (where any tuple may be a list, and `unit` defaults
+    # to '1' if there is none):
+    # - (v0, v1, ...)
     # - (v0, v1, ..., unit)
     # - ((v0, v1, ...), unit)
-    last = unwrapped[-1]
-    unitless = all(
-        not isinstance(arg, (str, metric.Unit)) for arg in unwrapped
-    ) or last in ['1', metric.unit('1')]
-    unit = '1' if unitless else str(last)
-
-    if isinstance(last, (str, metric.Unit)):
-        unit = str(unwrapped[-1])
-
-        # Handle flat iterables with a unit, like (1.1, 'm') or (1.1, 2.3, 'm').
-        if all(isinstance(arg, numbers.Real) for arg in unwrapped[:-1]):
-            return _wrap_measurable(unwrapped[:-1], unit, distribute)
+    args = list(unwrapped)
+    hasunit = _isunit(args[-1], args[:-1])
+    unit = str(args[-1]) if hasunit else '1'
+    values = args[:-1] if hasunit else args
+    if hasunit and len(values) == 1 and container.isseparable(values[0]):
+        values = list(values[0])
+        if not values:
+            raise ParsingValueError(
+                f"Cannot measure empty input: {unwrapped!r}"
+            ) from None
+        numerical = _get_numbers(values) or [None]
+    else:
+        numerical = [_get_number(value) for value in values]
+    if any(value is None for value in numerical):
+        if any(isinstance(value, (str, metric.Unit)) for value in values):
+            raise ParsingValueError("You may only specify one unit.") from None
+        raise ParsingTypeError(x)
+    return _wrap_measurable(numerical, unit, distribute)
+
+
+def _isunit(x, others):
+    """True if `x` is the unit of the values in `others`."""
+    if isinstance(x, metric.Unit):
+        return True
+    if not isinstance(x, str):
+        return False
+    if x == '1':
+        # This is a number if it follows other numerical strings.
+        return not any(isinstance(other, str) for other in others)
+    return _get_number(x) is None
 
-        # Handle iterable values with a unit, like [(1.1, 2.3), 'm'].
-        if isinstance(unwrapped[0], (list, tuple, range)):
-            return _wrap_measurable(unwrapped[0], unit, distribute)
 
-    raise ParsingTypeError(x)
+def _get_number(x):
+    """Get the numeric value of a number or numerical string, or `None`."""
+    if isinstance(x, numbers.Real):
+        return x
+    if isinstance(x, str):
+        with contextlib.suppress(ValueError):
+            return float(x)
+
+
+def _get_numbers(x):
+    """Get the numeric value(s) of (possibly nested) numbers, or `None`."""
+    if not isinstance(x, (list, tuple)):
+        return _get_number(x)
+    values = [_get_numbers(i) for i in x]
+    if any(value is None for value in values):
+        return
+    if len({numpy.shape(value) for value in values}) == 1:
+        return values
 
 
 def _wrap_measurable(values, unit, distribute: bool):
-- 
2.43.0


From e24920a690b98ca0ece793a7755dc6d21854cadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:17 +0000
Subject: [PATCH 110/135] fix: refuse to distribute different units over
 measured values

---
 src/eprempy/quantity/_functions.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/src/eprempy/quantity/_functions.py b/src/eprempy/quantity/_functions.py
index 178902f..1e8c9ea 100644
--- a/src/eprempy/quantity/_functions.py
+++ b/src/eprempy/quantity/_functions.py
@@ -277,13 +277,6 @@ def _wrap_measurable(values, unit, distribute: bool):
 
 def _recursive_parse(unwrapped, distribute: bool):
     """Parse the measurable by calling back to `~parse`."""
-    if distribute:
-        parsed = [
-            item
-            for arg in unwrapped
-            for item in parse(arg, distribute=True)
-        ]
-        return tuple(parsed)
     parsed = [
         parse(arg, distribute=False) for arg in unwrapped
     ]
@@ -294,8 +287,7 @@ def _recursive_parse(unwrapped, distribute: bool):
     values = [
         i for item in parsed for i in item[:-1]
     ]
-    unit = units[0]
-    return (*values, unit)
+    return _wrap_measurable(values, units[0], distribute)
 
 
 def hasdata(a):
-- 
2.43.0


From b8d23346a9bd32d4b7c9094e6f3f9d79598a46d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:17 +0000
Subject: [PATCH 111/135] fix: combine measurements with equal units

---
 src/eprempy/quantity/_functions.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/quantity/_functions.py b/src/eprempy/quantity/_functions.py
index 1e8c9ea..0efb40e 100644
--- a/src/eprempy/quantity/_functions.py
+++ b/src/eprempy/quantity/_functions.py
@@ -281,7 +281,7 @@ def _recursive_parse(unwrapped, distribute: bool):
         parse(arg, distribute=False) for arg in unwrapped
     ]
     units = [item[-1] for item in parsed]
-    if any(unit != units[0] for unit in units):
+    if not all(_same_unit(unit, units[0]) for unit in units):
         errmsg = "Cannot combine measurements with different units."
         raise ParsingValueError(errmsg)
     values = [
@@ -290,6 +290,11 @@ def _recursive_parse(unwrapped, distribute: bool):
     return _wrap_measurable(values, units[0], distribute)
 
 
+def _same_unit(a: str, b: str):
+    """True if two strings represent the same unit."""
+    return a == b or metric.unit(a) == metric.unit(b)
+
+
 def hasdata(a):
     """True if the argument appears to contain numeric data."""
     return getdata(a) is not None # NOTE: data could be 0
-- 
2.43.0


From 38712b61a2642b6c9675b535703c671af2ae4ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:17 +0000
Subject: [PATCH 112/135] fix: let ismeasurable agree with what measure accepts

---
 src/eprempy/quantity/_functions.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/eprempy/quantity/_functions.py b/src/eprempy/quantity/_functions.py
index 0efb40e..5de9b78 100644
--- a/src/eprempy/quantity/_functions.py
+++ b/src/eprempy/quantity/_functions.py
@@ -58,9 +58,9 @@ def ismeasurable(x, /):
         Create a `~Measurement` from measurable input.
     """
     args = container.unwrap(x)
-    if etc.isnull(x):
+    if etc.isnull(args):
         return False
-    if base.ismeasurable(args):
+    if base.ismeasurable(args) or isinstance(args, measured.Object):
         return True
     if isinstance(args, numbers.Real):
         return True
@@ -69,10 +69,13 @@ def ismeasurable(x, /):
     if all(isinstance(arg, numbers.Real) for arg in args):
         return True
     if metric.unitlike(args[-1]):
-        arg0 = args[0]
-        values = arg0 if container.isiterable(arg0) else args[:-1]
-        if all(isinstance(value, numbers.Real) for value in values):
-            return True
+        values = args[:-1]
+        if len(values) == 1 and container.isseparable(values[0]):
+            values = list(values[0])
+        if (
+            len(values) > 0
+            and all(isinstance(value, numbers.Real) for value in values)
+        ): return True
     if all(isinstance(i, (list, tuple)) and ismeasurable(i) for i in args):
         return True
     return False
-- 
2.43.0


From def756020cf9f309377927c4c79f82006eb49448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:17 +0000
Subject: [PATCH 113/135] fix: do not drop arguments that follow a measured
 object

---
 src/eprempy/quantity/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/quantity/__init__.py b/src/eprempy/quantity/__init__.py
index 265b0ab..a221655 100644
--- a/src/eprempy/quantity/__init__.py
+++ b/src/eprempy/quantity/__init__.py
@@ -1,6 +1,7 @@
 import typing
 
 from .. import base
+from .. import container
 from .. import metric
 from .. import measured
 from .. import real
@@ -121,7 +122,7 @@ def measure(x: base.MeasurableType, **kwargs) -> Measurement:
 def measure(*args, **kwargs):
     if not args:
         raise MeasuringTypeError("There is nothing to measure") from None
-    this = args[0]
+    this = container.unwrap(args)
     if isinstance(this, Measurement):
         return this
     if isinstance(this, base.Measurable):
-- 
2.43.0


From bd56b6b01d21119dd813edd7c0d324a8bb001d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:17 +0000
Subject: [PATCH 114/135] fix: keep the unit of measured objects when creating
 scalars, vectors, and tensors

---
 src/eprempy/physical/_object_factories.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/eprempy/physical/_object_factories.py b/src/eprempy/physical/_object_factories.py
index b1d9708..ca0d0fc 100644
--- a/src/eprempy/physical/_object_factories.py
+++ b/src/eprempy/physical/_object_factories.py
@@ -41,14 +41,16 @@ def scalar_args(x, unit, /):
         return x.data, x.unit
     if isinstance(x, numbers.Real):
         return x, unit
+    if isinstance(x, measured.Value):
+        return x.data, x.unit
     a = numpy.array(x)
     s = a.size
     if s != 1:
         raise TypeError(
             f"Cannot create a scalar from data with size {s}"
         ) from None
-    data = a[0]
-    if isinstance(x, Tensor):
+    data = numpy.ravel(a)[0]
+    if isinstance(x, measured.Object):
         return data, x.unit
     return data, unit
 
@@ -65,7 +67,7 @@ def vector_args(x, unit, /):
     """Parse arguments to initialize `~Vector`."""
     if isinstance(x, (Vector, Coordinates)):
         return x.data, x.unit
-    if isinstance(x, (quantity.Measurement, Scalar)):
+    if isinstance(x, (measured.Sequence, Scalar)):
         y = [x.data] if isinstance(x, Scalar) else x
         return vector_args(numpy.asarray(y), x.unit)
     if isinstance(x, Tensor):
@@ -92,7 +94,7 @@ def tensor_args(x, unit, /):
         return x.data.array, x.unit
     if isinstance(x, Tensor):
         return x.data, x.unit
-    if isinstance(x, (quantity.Measurement, Scalar)):
+    if isinstance(x, (measured.Sequence, Vector, Coordinates, Scalar)):
         y = [x.data] if isinstance(x, Scalar) else x
         return tensor_args(numpy.asarray(y), x.unit)
     a = numpy.asarray(x)
-- 
2.43.0


From 073b295c44ab369b692eedfdca7a583a475430bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:17 +0000
Subject: [PATCH 115/135] fix: create sequences from scalars

---
 src/eprempy/measured/_factories.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/measured/_factories.py b/src/eprempy/measured/_factories.py
index ec1e840..beff9b4 100644
--- a/src/eprempy/measured/_factories.py
+++ b/src/eprempy/measured/_factories.py
@@ -52,7 +52,7 @@ def sequence_args(x, unit, /) -> typing.Tuple[typing.Any, metric.Unit]:
     if isinstance(x, Value):
         return sequence_args([x.data], x.unit)
     if isinstance(x, Object):
-        return x.data, x.unit
+        return numpy.atleast_1d(numpy.asarray(x.data)), x.unit
     if isinstance(x, numbers.Real):
         return numpy.array([x]), unit
     a = numpy.asarray(x)
-- 
2.43.0


From b6bf1863343992297e54337c5e8807c1b038fe8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:53 +0000
Subject: [PATCH 116/135] fix: keep a variable in front of a grouped operand

---
 src/eprempy/symbolic/_operand.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/symbolic/_operand.py b/src/eprempy/symbolic/_operand.py
index 4d62010..b8e1438 100644
--- a/src/eprempy/symbolic/_operand.py
+++ b/src/eprempy/symbolic/_operand.py
@@ -478,7 +478,8 @@ class OperandFactory(_part.Factory):
             return
         i0, end = bounds
         result = {'base': target[i0+1:end-1]}
-        if match := self._match_simplex(target[:i0], mode='fullmatch'):
+        match = self._match_simplex(target[:i0], mode='fullmatch')
+        if match and match.result.base == '1':
             result['coefficient'] = match.result.coefficient
             i0 = 0
         if mode == 'match' and i0 != 0:
-- 
2.43.0


From acc7a73fa7e54efdbce3541782a5d7a23933301c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:05 +0000
Subject: [PATCH 117/135] fix: refuse to insert an axis at a place which does
 not exist

---
 src/eprempy/physical/_axes.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/eprempy/physical/_axes.py b/src/eprempy/physical/_axes.py
index e571aa1..8268335 100644
--- a/src/eprempy/physical/_axes.py
+++ b/src/eprempy/physical/_axes.py
@@ -313,6 +313,10 @@ class Axes(collections.abc.Mapping, typing.Mapping[str, _axis.Axis]):
                 mapping[d] = current
             else:
                 mapping[d] = current
+        if dimension not in mapping:
+            raise ValueError(
+                f"No place to insert {dimension!r}: {locator}={location!r}"
+            ) from None
         return Axes(mapping)
 
     def without(self, dimension: str, strict: bool=False):
-- 
2.43.0


From aa7819b2575e1046d17b37b7409295a80055e8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:47 +0000
Subject: [PATCH 118/135] fix: give axes selected by slices, masks, and lists
 the positions they were selected from

---
 src/eprempy/physical/_axis.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/physical/_axis.py b/src/eprempy/physical/_axis.py
index ccc5779..a0f6191 100644
--- a/src/eprempy/physical/_axis.py
+++ b/src/eprempy/physical/_axis.py
@@ -100,7 +100,7 @@ class Axis(numeric.Object[T]):
         axis = self.spawn(self.data[__i])
         if __i is ... or isinstance(__i, slice) and __i == slice(None):
             return axis
-        idx = self.normalize(container.unwrap(__i))
+        idx = numpy.atleast_1d(numpy.arange(len(self))[__i])
         axis._indices = numeric.index.sequence(idx)
         return axis
 
@@ -210,7 +210,10 @@ class Symbols(Axis[typing.List[str]]):
 
     def __getitem__(self, index, /):
         if container.isiterable(index):
-            return self.spawn([self.data[i] for i in index])
+            idx = numpy.arange(len(self))[list(index)]
+            axis = self.spawn([self.data[i] for i in idx])
+            axis._indices = numeric.index.sequence(idx)
+            return axis
         return super().__getitem__(index)
 
     def index(self, *targets: T):
-- 
2.43.0


From 0001edcd788262c060db011608a5d308301953c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:02 +0000
Subject: [PATCH 119/135] fix: open a data file again when it has changed or
 another format is hinted at

---
 src/eprempy/paths.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/eprempy/paths.py b/src/eprempy/paths.py
index 140a638..8146036 100644
--- a/src/eprempy/paths.py
+++ b/src/eprempy/paths.py
@@ -81,10 +81,20 @@ class PathSet(etc.InstanceSet):
         if path is None and len(args) >= 1:
             path = args[0]
         if isinstance(path, (str, pathlib.Path)):
-            return path
+            others = tuple(args[1:]) + tuple(sorted(kwargs.items()))
+            return self, path, _get_state(path), others
         return super()._generate_key(*args, **kwargs)
 
 
+def _get_state(path: PathLike):
+    """Attributes of an existing path that change when its contents do."""
+    try:
+        stat = os.stat(path)
+    except OSError:
+        return None
+    return stat.st_dev, stat.st_ino, stat.st_size, stat.st_mtime_ns
+
+
 class NonExistentPathError(Exception):
 
     def __init__(self, path: str=None):
-- 
2.43.0


From f49a48af4b3e6549dac9d383f54a9a8cd966a497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:35 +0000
Subject: [PATCH 120/135] fix: convert times, lengths, and speeds in data files
 as such when their units are ambiguous

---
 src/eprempy/datafile/_interfaces.py | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/datafile/_interfaces.py b/src/eprempy/datafile/_interfaces.py
index a13d85b..6522e88 100644
--- a/src/eprempy/datafile/_interfaces.py
+++ b/src/eprempy/datafile/_interfaces.py
@@ -140,7 +140,7 @@ class Axes(typing.Mapping[str, physical.Axis]):
             numpy.array(base.data),
             unit=metric.standardize(base.unit),
         )
-        return array.withunit(unit or str(self.system))
+        return array.withunit(unit or _get_unit(name, self.system))
 
     @property
     def view(self):
@@ -360,7 +360,7 @@ class Arrays:
             unit=metric.standardize(base.unit),
             axes=physical.axes(axes),
         )
-        return array.withunit(unit or str(self.system))
+        return array.withunit(unit or _get_unit(name, self.system))
 
     def _create_grid(self, name: str) -> physical.Array:
         """Create an array for a grid that all species share."""
@@ -479,6 +479,29 @@ class Grid:
         return self._arrays.system
 
 
+_QUANTITIES = {
+    'time': 'time',
+    'vgrid': 'velocity',
+    'R': 'length',
+    'Vr': 'velocity',
+    'Vt': 'velocity',
+    'Vp': 'velocity',
+}
+"""The physical quantities of variables with potentially ambiguous units.
+
+The unit of any of these variables (e.g., 'cm') may also be a unit of a
+different quantity, so it does not determine the equivalent unit in a given
+metric system.
+"""
+
+
+def _get_unit(name: str, system: metric.System):
+    """Get the target unit of the named variable in the given system."""
+    if quantity := _QUANTITIES.get(name):
+        return system[quantity].unit
+    return str(system)
+
+
 def _common_grid(grid: numpy.ndarray) -> numpy.ndarray:
     """Reduce a grid to one dimension if all species share it."""
     if grid.ndim == 2 and (grid == grid[0]).all():
-- 
2.43.0


From d072015535ff3bcf295038fe8e079da2a7b966a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:35 +0000
Subject: [PATCH 121/135] fix: report the ambiguity when a conversion to a
 metric system is ambiguous

---
 src/eprempy/measured/_context.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/eprempy/measured/_context.py b/src/eprempy/measured/_context.py
index 8f773bc..e53892c 100644
--- a/src/eprempy/measured/_context.py
+++ b/src/eprempy/measured/_context.py
@@ -52,6 +52,8 @@ class Context(typing.Generic[T]):
             try:
                 c = metric.conversion(self.unit, new)
             except metric.UnitConversionError as err:
+                if str(new) in metric.SYSTEMS:
+                    raise err
                 if not (self.unit | new):
                     raise ValueError(
                         f"The unit {str(new)!r} is inconsistent"
-- 
2.43.0


From 2d53723477ccd9bd3c8e072ee77b144dc65a620f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:22 +0000
Subject: [PATCH 122/135] fix: judge the ambiguity of a conversion by the unit,
 however it is spelled

---
 src/eprempy/metric/_conversions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/metric/_conversions.py b/src/eprempy/metric/_conversions.py
index ed612b7..bae0689 100644
--- a/src/eprempy/metric/_conversions.py
+++ b/src/eprempy/metric/_conversions.py
@@ -617,7 +617,7 @@ def _is_ambiguous(unit: str, system: str):
     """
     units = _defined.EQUIVALENT['units']
     others = {s for s in _reference.SYSTEMS if s != system}
-    expr = symbolic.expression(unit)
+    expr = _create_expression(unit)
     for s in others:
         targets = {v[system] for v in units.values() if v[s] == expr}
         if len(targets) > 1:
-- 
2.43.0


From f0c17a52f53d766c67fd6fe25b3699e6e93e490e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:13 +0000
Subject: [PATCH 123/135] fix: find defined conversions of compound units by
 their unit, however it is spelled

---
 src/eprempy/metric/_conversions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/metric/_conversions.py b/src/eprempy/metric/_conversions.py
index bae0689..8cc3786 100644
--- a/src/eprempy/metric/_conversions.py
+++ b/src/eprempy/metric/_conversions.py
@@ -132,7 +132,7 @@ def _find_node(unit: str):
     """Find the defined compound unit equal to `unit`, if there is one."""
     if unit in _reference.NAMED_UNITS or unit in _reference.CONVERSIONS.nodes:
         return unit
-    expression = symbolic.expression(unit)
+    expression = _create_expression(unit)
     for node, this in _compound_nodes.items():
         if this == expression:
             return node
-- 
2.43.0


From 6d42ed4652915fa9812305f8aadbcc11f728da7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:09 +0000
Subject: [PATCH 124/135] fix: label plotted values with the unit in which they
 are plotted

---
 src/eprempy/physical/_array.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/physical/_array.py b/src/eprempy/physical/_array.py
index cd180f7..8b7c1b1 100644
--- a/src/eprempy/physical/_array.py
+++ b/src/eprempy/physical/_array.py
@@ -187,10 +187,11 @@ def plot(
     **extra
 ) -> None:
     """Plot the named array."""
-    ndarray = numpy.array(array.withunit(unit or array.unit)).squeeze()
+    converted = array.withunit(unit or array.unit)
+    ndarray = numpy.array(converted).squeeze()
     if ndarray.ndim != 1:
         raise NDimError(f"The given array is not logically 1-D") from None
-    extra['ylabel'] = f"[{array.unit.format(style='tex')}]"
+    extra['ylabel'] = f"[{converted.unit.format(style='tex')}]"
     if x is None:
         dimension = next(i for i, n in array.shapemap.items() if n != 1)
         axis = array.axes[dimension]
-- 
2.43.0


From f7b50f322cd71113b1692fc0624aa9978030d0c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:09 +0000
Subject: [PATCH 125/135] fix: keep the labels that the user gives to a plot

---
 src/eprempy/physical/_array.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/eprempy/physical/_array.py b/src/eprempy/physical/_array.py
index 8b7c1b1..86bd3e8 100644
--- a/src/eprempy/physical/_array.py
+++ b/src/eprempy/physical/_array.py
@@ -191,7 +191,8 @@ def plot(
     ndarray = numpy.array(converted).squeeze()
     if ndarray.ndim != 1:
         raise NDimError(f"The given array is not logically 1-D") from None
-    extra['ylabel'] = f"[{converted.unit.format(style='tex')}]"
+    if 'ylabel' not in extra:
+        extra['ylabel'] = f"[{converted.unit.format(style='tex')}]"
     if x is None:
         dimension = next(i for i, n in array.shapemap.items() if n != 1)
         axis = array.axes[dimension]
@@ -203,7 +204,7 @@ def plot(
                 extra['xlabel'] = f"{name} [{m.unit}]"
         else:
             xarr = numpy.array(axis)
-            extra['xlabel'] = name
+            extra.setdefault('xlabel', name)
         _create_plot(xarr, ndarray, *args, **extra)
     else:
         if isinstance(x, measured.Type):
@@ -216,7 +217,7 @@ def plot(
         elif isinstance(x, str):
             axis = array.axes[x]
             xarr = numpy.array(axis)
-            extra['xlabel'] = x
+            extra.setdefault('xlabel', x)
         else:
             raise TypeError(x)
         _create_plot(xarr, ndarray, *args, **extra)
-- 
2.43.0


From 799ca2853a5386e0d3193b90969f793fd8f0107a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:06:09 +0000
Subject: [PATCH 126/135] fix: allow plotting an array over given coordinates

---
 src/eprempy/physical/_array.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/physical/_array.py b/src/eprempy/physical/_array.py
index 86bd3e8..3b0c9be 100644
--- a/src/eprempy/physical/_array.py
+++ b/src/eprempy/physical/_array.py
@@ -213,7 +213,7 @@ def plot(
             m = quantity.measure(x)
             xarr = numpy.array(m)
             if 'xlabel' not in extra:
-                extra['xlabel'] = f"{name} [{m.unit}]"
+                extra['xlabel'] = f"[{m.unit}]"
         elif isinstance(x, str):
             axis = array.axes[x]
             xarr = numpy.array(axis)
-- 
2.43.0


From 59e48aff7f050c14c6de364d967f28f3667a63ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:07:22 +0000
Subject: [PATCH 127/135] fix: close the figure when plotting an array fails

---
 src/eprempy/physical/_array.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/physical/_array.py b/src/eprempy/physical/_array.py
index 3b0c9be..c0eae43 100644
--- a/src/eprempy/physical/_array.py
+++ b/src/eprempy/physical/_array.py
@@ -106,7 +106,10 @@ class Array(Tensor[real.Array[real.ValueType]]):
 
     def plot(self, *args, **kwargs):
         """Plot this array."""
-        return plot(self, *args, **kwargs)
+        try:
+            return plot(self, *args, **kwargs)
+        finally:
+            plt.close()
 
     @property
     def squeezed(self):
@@ -225,7 +228,6 @@ def plot(
         plt.show()
     else:
         plt.savefig(path)
-    plt.close()
 
 
 def _create_plot(*args, **extra):
-- 
2.43.0


From 8607230e4a438beee5b68c75077a6787cd46f45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:50:23 +0000
Subject: [PATCH 128/135] fix: add all terms of a default value, and read
 exponents in sums and products

---
 src/eprempy/parameter/_config.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/eprempy/parameter/_config.py b/src/eprempy/parameter/_config.py
index 3171697..ffb9381 100644
--- a/src/eprempy/parameter/_config.py
+++ b/src/eprempy/parameter/_config.py
@@ -99,21 +99,23 @@ class Defaults(collections.abc.Mapping):
         raise TypeError(f"Can't resolve {definition!r}") from None
 
     def _compute_sum(self, arg: str) -> numbers.Real:
-        """Compute the sum of two known parameters.
+        """Compute the sum of known parameters.
         
         Notes
         -----
-        This is only designed to handle strings that contain a single additive
-        operator joining two arguments that `_evaluate` already knows how to
-        handle.
+        This is only designed to handle strings that contain additive operators
+        joining arguments that `_evaluate` already knows how to handle.
         """
-        for operator in ('+', '-'):
-            if operator in arg:
-                terms = [
-                    self._evaluate(s.strip())
-                    for s in arg.split(operator)
-                ]
-                return terms[0] + float(f'{operator}1')*terms[1]
+        first, *rest = self._additive.split(arg)
+        if not rest:
+            return
+        result = self._evaluate(first.strip())
+        for operator, term in zip(rest[::2], rest[1::2]):
+            result += float(f'{operator}1') * self._evaluate(term.strip())
+        return result
+
+    # The sign of an exponent (e.g., in '1.0e-3') is not an additive operator.
+    _additive = re.compile(r'(?<![\d.][eE])([+-])')
 
     def _get_argument(self, name: str):
         """Get the current definition and type of a parameter."""
-- 
2.43.0


From 717c5871374381b0fe9798e7790fe23c52840cd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:22 +0000
Subject: [PATCH 129/135] fix: substitute values for exceptions of derived
 types, and arrays as values

---
 src/eprempy/exceptions.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/exceptions.py b/src/eprempy/exceptions.py
index d64d09c..6c7eb51 100644
--- a/src/eprempy/exceptions.py
+++ b/src/eprempy/exceptions.py
@@ -125,8 +125,11 @@ class Wrapper:
         try:
             return self._f(*args, **kwargs)
         except tuple(self._substitutions) as err:
-            value = self._substitutions[type(err)]
-            if value != Ellipsis:
+            value = next(
+                self._substitutions[t] for t in type(err).__mro__
+                if t in self._substitutions
+            )
+            if value is not Ellipsis:
                 return value
             if not kwargs:
                 if len(args) == 1:
-- 
2.43.0


From 76ad5f760dd16931c703655104f3d340f900d582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:22 +0000
Subject: [PATCH 130/135] fix: look up existing sentinels by name

---
 src/eprempy/etc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eprempy/etc.py b/src/eprempy/etc.py
index 7b46755..48a9ed6 100644
--- a/src/eprempy/etc.py
+++ b/src/eprempy/etc.py
@@ -402,8 +402,8 @@ class _SentinelType(typing.Generic[T]):
     @classmethod
     def _create(cls, name: str, value: T):
         """Pseudo-private instantiation method."""
-        if value in _sentinels:
-            return _sentinels[value]
+        if name in _sentinels:
+            return _sentinels[name]
         instance = cls.__new__(cls)
         instance._name = name
         instance._value = value
-- 
2.43.0


From 0f012de834e55ffccc5e78e3d5f8c6d25a1a885e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:22 +0000
Subject: [PATCH 131/135] fix: do not return the singleton of a parent class

---
 src/eprempy/etc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/etc.py b/src/eprempy/etc.py
index 48a9ed6..a4f3d49 100644
--- a/src/eprempy/etc.py
+++ b/src/eprempy/etc.py
@@ -275,7 +275,7 @@ class Singleton:
     _instance = None
 
     def __new__(cls: typing.Type[_ST], *args, **kwargs) -> _ST:
-        if cls._exists:
+        if cls.__dict__.get('_exists', False):
             return cls._instance
         new = super(Singleton, cls).__new__(cls)
         cls._exists = True
-- 
2.43.0


From b12481602384f5f2d294b933baeea35e23b23713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:22 +0000
Subject: [PATCH 132/135] fix: do not share the instances of different classes

---
 src/eprempy/etc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/etc.py b/src/eprempy/etc.py
index a4f3d49..f4eaeac 100644
--- a/src/eprempy/etc.py
+++ b/src/eprempy/etc.py
@@ -99,7 +99,7 @@ class InstanceSet(abc.ABCMeta):
 
     def __call__(self, *args, **kwargs):
         """Ensure that only one instance of the given object exists."""
-        key = self._generate_key(*args, **kwargs)
+        key = (self, self._generate_key(*args, **kwargs))
         if key not in self._instances:
             self._instances[key] = super().__call__(*args, **kwargs)
         return self._instances[key]
-- 
2.43.0


From 85276182c2ec5e128f438b531e365f66a80c3686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:22 +0000
Subject: [PATCH 133/135] fix: join zero strings

---
 src/eprempy/etc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/eprempy/etc.py b/src/eprempy/etc.py
index f4eaeac..ad0855b 100644
--- a/src/eprempy/etc.py
+++ b/src/eprempy/etc.py
@@ -516,6 +516,8 @@ def join(x: typing.Iterable[str], c: str='and', /, quoted: bool=False):
     """
     f = repr if quoted else str
     y = list(x)
+    if not y:
+        return ''
     if len(y) == 1:
         return f(y[0])
     if len(y) == 2:
-- 
2.43.0


From d0edef512e1fa8d693b8a801b943391fae62eb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:22 +0000
Subject: [PATCH 134/135] fix: locate names that are not on the system path

---
 src/eprempy/paths.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/paths.py b/src/eprempy/paths.py
index 8146036..7b5d5c3 100644
--- a/src/eprempy/paths.py
+++ b/src/eprempy/paths.py
@@ -60,7 +60,7 @@ def locate(
     """
     location = environment.get(name) or path / name
     it = normalize(os.path.realpath(location))
-    return it if it.exists() else pathlib.Path(shutil.which(name))
+    return it if it.exists() else pathlib.Path(shutil.which(name) or name)
 
 
 class PathSet(etc.InstanceSet):
-- 
2.43.0


From 6cc23b37a4d7f968966d1d2d1874f6b192397de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:08:22 +0000
Subject: [PATCH 135/135] fix: search for a template in the current directory
 at the time of the call

---
 src/eprempy/paths.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eprempy/paths.py b/src/eprempy/paths.py
index 7b5d5c3..cd6f136 100644
--- a/src/eprempy/paths.py
+++ b/src/eprempy/paths.py
@@ -255,7 +255,7 @@ def search(file: PathLike, *paths: PathLike) -> pathlib.Path:
 def find_file_by_template(
     templates: typing.List[typing.Callable],
     name: str,
-    directory: PathLike=pathlib.Path.cwd(),
+    directory: PathLike='.',
 ) -> pathlib.Path:
     """Find a valid path that conforms to a given template."""
     d = fullpath(directory, strict=True)
-- 
2.43.0

