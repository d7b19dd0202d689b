From be54ec36d7c3bcfc2ee8909ae1ebde536cfa7bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:56 +0000
Subject: [PATCH 01/60] fix: keep a record that is forward-declared before it
 is defined

A record first met as a forward declaration was registered without a source
location, never got one at its definition, and was dropped from the output.
---
 ctypeslib/codegen/cursorhandler.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index ce08ebe..eaf8d0e 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -696,6 +696,11 @@ class CursorHandler(ClangHandler):
         else:
             obj = self.get_registered(name)
             declared_instance = False
+            if obj.location is None:
+                # only known from a forward declaration until now
+                definition = cursor.get_definition() or cursor
+                self.set_location(obj, definition)
+                self.set_comment(obj, definition)
         # capture members declaration
         members = []
         # Go and recurse through fields
-- 
2.43.0


From b62e0b9034b093b5bfbca28b0a5382612922fbe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:13 +0000
Subject: [PATCH 02/60] fix: size of a union that ends with padding

The padding of a union was computed as if its members followed one another,
so a union whose size is larger than its largest member got a wrong size.
---
 ctypeslib/codegen/cursorhandler.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index eaf8d0e..1afef63 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -856,6 +856,12 @@ class CursorHandler(ClangHandler):
         if s.size == 0:
             log.debug('FIXUP_STRUCT: struct has size %d', s.size)
             return
+        if isinstance(s, typedesc.Union):
+            # all members of a union are at offset 0. The only padding it may
+            # need is the one that brings it to its full size.
+            if len(s.members) > 0 and s.size * 8 > max(m.bits for m in s.members):
+                self._make_padding(s.members, 0, 0, s.size * 8)
+            return
         # try to fix bitfields without padding first
         self._fixup_record_bitfields_type(s)
         # No need to lookup members in a global var.
-- 
2.43.0


From 1592012ce03cdea0df94911bb1905c62fd1013f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:13 +0000
Subject: [PATCH 03/60] fix: array members whose element type name starts with
 two underscores

---
 ctypeslib/codegen/codegenerator.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index 7d9d9fa..1679c9e 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -717,7 +717,9 @@ class Generator:
                 type_name = self.type_name(f.type)
                 # handle "__" prefixed names by using a wrapper
                 if type_name.startswith("__"):
-                    type_name = "globals()['%s']" % type_name
+                    # in case of an array, only the element type is a name
+                    element_name, *dimensions = type_name.split(" * ")
+                    type_name = " * ".join(["globals()['%s']" % element_name] + dimensions)
                 # a bitfield needs a triplet
                 if f.is_bitfield is False:
                     print("    ('%s', %s)," % (fieldname, type_name), file=self.stream)
-- 
2.43.0


From 7f53b58d6fc58599989826f46977fed23623e294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:52 +0000
Subject: [PATCH 04/60] fix: size of the emulated pointer on targets where long
 is not pointer-sized

---
 ctypeslib/codegen/codegenerator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index 1679c9e..3beb852 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -75,9 +75,9 @@ class Generator:
             return "ctypes.POINTER"
         self.enable_pointer_type = lambda: "POINTER_T"
         headers = pkgutil.get_data("ctypeslib", "data/pointer_type.tpl").decode()
-        # assuming a LONG also has the same sizeof than a pointer.
+        # a LONG does not always have the same sizeof than a pointer.
         word_size = self.parser.get_ctypes_size(TypeKind.POINTER) // 8
-        word_type = self.parser.get_ctypes_name(TypeKind.ULONG)
+        word_type = "c_uint%d" % (word_size * 8)
         # pylint: disable=protected-access
         word_char = getattr(ctypes, word_type)._type_
         # replacing template values
-- 
2.43.0


From 2e84b3a7a218ef240ad2e4fc4be5e354e50c2f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:20 +0000
Subject: [PATCH 05/60] fix: do not share the target's type names between
 parsers

Parsers for different targets used at the same time (or in several threads)
overwrote each other's size of long and long double.
---
 ctypeslib/codegen/clangparser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ctypeslib/codegen/clangparser.py b/ctypeslib/codegen/clangparser.py
index 5c92a06..5d0ec15 100644
--- a/ctypeslib/codegen/clangparser.py
+++ b/ctypeslib/codegen/clangparser.py
@@ -78,6 +78,8 @@ class Clang_Parser:
         self.tu_options = None
         self.flags = flags
         self.ctypes_sizes = {}
+        # the type names depend on the target of this parser only
+        self.ctypes_typename = dict(self.ctypes_typename)
         self.init_parsing_options()
         self.make_ctypes_convertor(flags)
         self.cursorkind_handler = cursorhandler.CursorHandler(self)
-- 
2.43.0


From b7e0f387121fa7d258e9a4214dda4cbc4d0ba4cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:31 +0000
Subject: [PATCH 06/60] fix: double of 4 bytes on targets that have it

---
 ctypeslib/codegen/clangparser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ctypeslib/codegen/clangparser.py b/ctypeslib/codegen/clangparser.py
index 5d0ec15..f9be7c6 100644
--- a/ctypeslib/codegen/clangparser.py
+++ b/ctypeslib/codegen/clangparser.py
@@ -289,10 +289,13 @@ typedef void* pointer_t;""",
         # 2015-01 reverse until better solution is found
         # the idea is that you cannot assume a c_double will be same format as a c_long_double.
         # at least this pass size TU
+        if size0 == size1:
+            # some targets have 4 bytes double
+            self.ctypes_typename[TypeKind.DOUBLE] = "c_float"
         if size1 != size2:
             self.ctypes_typename[TypeKind.LONGDOUBLE] = "c_long_double_t"
         else:
-            self.ctypes_typename[TypeKind.LONGDOUBLE] = "c_double"
+            self.ctypes_typename[TypeKind.LONGDOUBLE] = self.ctypes_typename[TypeKind.DOUBLE]
 
         self.ctypes_sizes[TypeKind.FLOAT] = size0
         self.ctypes_sizes[TypeKind.DOUBLE] = size1
-- 
2.43.0


From 287b43daa4e53ec9b854b16812ff2842832267da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:40 +0000
Subject: [PATCH 07/60] fix: symbols of a library that nm lists as bss, weak,
 unique or ifunc

---
 ctypeslib/library.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ctypeslib/library.py b/ctypeslib/library.py
index d584b9c..6163fd7 100644
--- a/ctypeslib/library.py
+++ b/ctypeslib/library.py
@@ -46,7 +46,7 @@ class Library(metaclass=LibraryMeta):
         output = subprocess.check_output(cmd, universal_newlines=True)
         for line in output.split('\n'):
             fields = line.split(' ', 2)
-            if len(fields) >= 3 and fields[1] in ("T", "D", "G", "R", "S"):
+            if len(fields) >= 3 and fields[1] in ("T", "D", "G", "R", "S", "B", "V", "W", "i", "u"):
                 if '@@' in fields[2]: fields[2] = fields[2].split('@@')[0]
                 self.__symbols[fields[2]] = fields[0]
 
-- 
2.43.0


From 413958f4eed2af9f414dc8ac1a65fef798f0c007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:20 +0000
Subject: [PATCH 08/60] fix: library given by its linker name

---
 ctypeslib/codegen/codegenerator.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index 3beb852..7943a85 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -787,11 +787,14 @@ class Generator:
             print("# You can either re-run clan2py with -l /path/to/library.so",file=self.imports)
             print("# Or manually fix this by comment the ctypes.CDLL loading", file=self.imports)
 
+        # a library found by its linker name is a plain CDLL, which only has a name
+        filepath = getattr(library, "_filepath", library._name)
+
         # generate windows call
         if cc == "stdcall":
             self.need_WinLibraries()
             if library._name not in self._stdcall_libraries:
-                _ = "_stdcall_libraries[%r] =%s ctypes.WinDLL(%r)" % (library._name, stub_comment, library._filepath)
+                _ = "_stdcall_libraries[%r] =%s ctypes.WinDLL(%r)" % (library._name, stub_comment, filepath)
                 print(_, file=self.imports)
                 self._stdcall_libraries[library._name] = None
             return "_stdcall_libraries[%r]" % library._name
@@ -803,7 +806,7 @@ class Generator:
         else:
             global_flag = ""
         if library._name not in self._c_libraries:
-            print("_libraries[%r] =%s ctypes.CDLL(%r%s)" % (library._name, stub_comment, library._filepath, global_flag),
+            print("_libraries[%r] =%s ctypes.CDLL(%r%s)" % (library._name, stub_comment, filepath, global_flag),
                   file=self.imports)
             self._c_libraries[library._name] = None
         return "_libraries[%r]" % library._name
-- 
2.43.0


From 6067cd05077fb2251d12d43335bd0f78fe09b5d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:52 +0000
Subject: [PATCH 09/60] fix: remove the temporary file of the source read from
 stdin

---
 ctypeslib/clang2py.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ctypeslib/clang2py.py b/ctypeslib/clang2py.py
index df7a857..e54fd69 100755
--- a/ctypeslib/clang2py.py
+++ b/ctypeslib/clang2py.py
@@ -74,6 +74,7 @@ class Input:
                 # pylint: disable-next=consider-using-with
                 _stdin = tempfile.NamedTemporaryFile(mode="w", prefix="stdin", suffix=".c", delete=False)
                 _stdin.write(in_file.read())
+                self._stdin = _stdin
                 in_file = _stdin
             self.files.append(in_file.name)
             in_file.close()
-- 
2.43.0


From 99e2b21b4061dd03bf7b36d8b2bc390f16f97ba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:47 +0000
Subject: [PATCH 10/60] fix: translate() of a string uses the options of its
 configuration

---
 ctypeslib/codegen/clangparser.py | 4 +++-
 ctypeslib/codegen/util.py        | 4 ++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/ctypeslib/codegen/clangparser.py b/ctypeslib/codegen/clangparser.py
index f9be7c6..59a7814 100644
--- a/ctypeslib/codegen/clangparser.py
+++ b/ctypeslib/codegen/clangparser.py
@@ -134,7 +134,9 @@ class Clang_Parser:
 
     def parse_string(self, input_data, lang="c", all_warnings=False, flags=None):
         """Use this parser on a memory string/file, instead of a file on disk"""
-        translation_unit = util.get_tu(input_data, lang, all_warnings, flags)
+        if flags is None:
+            flags = self.flags
+        translation_unit = util.get_tu(input_data, lang, all_warnings, flags, self.tu_options)
         self._parse_tu_diagnostics(translation_unit, "memory_input.c")
         self.tu = translation_unit
         root = self.tu.cursor
diff --git a/ctypeslib/codegen/util.py b/ctypeslib/codegen/util.py
index 2f73248..163fa84 100644
--- a/ctypeslib/codegen/util.py
+++ b/ctypeslib/codegen/util.py
@@ -14,7 +14,7 @@ from ctypeslib.codegen import typedesc
 log = logging.getLogger('utils')
 
 
-def get_tu(source, lang='c', all_warnings=False, flags=None):
+def get_tu(source, lang='c', all_warnings=False, flags=None, options=0):
     """Obtain a translation unit from source and language.
 
     By default, the translation unit is created from source file "t.<ext>"
@@ -38,7 +38,7 @@ def get_tu(source, lang='c', all_warnings=False, flags=None):
     if all_warnings:
         args += ['-Wall', '-Wextra']
 
-    return TranslationUnit.from_source(name, args, unsaved_files=[(name, source)])
+    return TranslationUnit.from_source(name, args, unsaved_files=[(name, source)], options=options)
 
 
 def get_cursor(source, spelling):
-- 
2.43.0


From d1875d91c7f30d2121b28dd9488c2d30a8b9f09b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:18 +0000
Subject: [PATCH 11/60] fix: preloaded libraries in the generated code

---
 ctypeslib/codegen/codegenerator.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index 7943a85..2446186 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -968,7 +968,7 @@ class Generator:
     def generate_code(self, items):
         print(
             "\n".join(
-                ["ctypes.CDLL('%s', ctypes.RTLD_GLOBAL)" % preloaded_dll for preloaded_dll in self.preloaded_dlls]
+                ["ctypes.CDLL(%r, ctypes.RTLD_GLOBAL)" % preloaded_dll for preloaded_dll in self.preloaded_dlls]
             ),
             file=self.imports,
         )
@@ -1031,8 +1031,9 @@ class CodeTranslator:
         self.filtered_items = []
 
     def preload_dlls(self):
-        # FIXME
-        self.cfg.preloaded_dlls = [Library(name, nm="nm") for name in self.cfg.preloaded_dlls]
+        # the generated code loads them by name: here, only check that each one can be found.
+        for name in self.cfg.preloaded_dlls:
+            Library(name, nm="nm")
 
     def make_clang_parser(self):
         self.parser = clangparser.Clang_Parser(self.cfg.clang_opts)
-- 
2.43.0


From 0967c1e3f4f5c79ea2c6083db43c84abb498857d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:11 +0000
Subject: [PATCH 12/60] fix: variables that are pointers without a literal
 initial value

---
 ctypeslib/codegen/codegenerator.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index 2446186..01c0d54 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -380,7 +380,11 @@ class Generator:
                 # FIXME a char * is not a python string.
                 # we should output a cstring() construct.
                 init_value = repr(tp.init)
-            elif isinstance(tp.typ.typ, typedesc.FundamentalType) and (
+            elif isinstance(tp.typ, typedesc.PointerType) and type(tp.init) is not int:
+                # not initialized, or with an address that has no meaning here
+                self._generate(tp.typ.typ)
+                init_value = self.type_name(tp.typ, False) + "()"
+            elif isinstance(tp.typ.typ, typedesc.FundamentalType) and isinstance(tp.init, list) and (
                 "int" in tp.typ.typ.name or "long" in tp.typ.typ.name
             ):
                 # array of number
-- 
2.43.0


From 1a4abd50e7f867440df0845f68fe9e14d9630ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:46 +0000
Subject: [PATCH 13/60] fix: variables that are arrays of structures

---
 ctypeslib/codegen/codegenerator.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index 01c0d54..d13520b 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -397,12 +397,12 @@ class Generator:
                 # init_value = "(%s)(%s)"%(init_value_type,init_value)
             elif isinstance(tp.typ.typ, typedesc.Structure):
                 self._generate(tp.typ.typ)
-                init_value = self.type_name(tp.typ, False) + "()"
+                init_value = "(%s)()" % self.type_name(tp.typ, False)
             else:
                 if tp.init is not None:
                     init_value = tp.init
                 else:
-                    init_value = self.type_name(tp.typ, False) + "()"
+                    init_value = "(%s)()" % self.type_name(tp.typ, False)
 
         elif isinstance(tp.typ, typedesc.Structure):
             init_value = self.type_name(tp.typ, False)
-- 
2.43.0


From 1cb636f511747a64b6e447e9af83c0ec0430f72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:29 +0000
Subject: [PATCH 14/60] fix: variables of enumeration type

---
 ctypeslib/codegen/codegenerator.py | 3 +++
 ctypeslib/codegen/cursorhandler.py | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index d13520b..00474d7 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -421,6 +421,9 @@ class Generator:
             # if init_value is None:
             #    init_value = ''; # use default ctypes object constructor
             # init_value = "%s(%s)"%(self.type_name(tp.typ, False), init_value)
+            if isinstance(tp.typ, typedesc.Enumeration):
+                # the initial value can be one of its enumerators
+                self._generate(tp.typ)
             if tp.init is not None:
                 # TODO, check that if tp.init is a string literal
                 #  and that there is a definition for it ?
diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 1afef63..520e782 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -277,7 +277,7 @@ class CursorHandler(ClangHandler):
                 self.get_unique_name(cursor))
             log.error(st)
             raise RuntimeError(st)
-        elif self.is_array_type(_ctype) or _ctype.kind == TypeKind.RECORD:  # noqa
+        elif self.is_array_type(_ctype) or _ctype.kind in (TypeKind.RECORD, TypeKind.ENUM):  # noqa
             _type = self.parse_cursor_type(_ctype)
         elif self.is_pointer_type(_ctype):
             # for example, extern Function pointer
-- 
2.43.0


From e895e1893ede526a6410c4a1b01212ee715f7874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:19 +0000
Subject: [PATCH 15/60] fix: variables of record types and types defined in the
 declaration

---
 ctypeslib/codegen/codegenerator.py | 4 +++-
 ctypeslib/codegen/cursorhandler.py | 3 +++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index 00474d7..e8209d1 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -368,6 +368,7 @@ class Generator:
         #    return
         # el
         if isinstance(tp.init, typedesc.FunctionType):
+            self._generate(tp.init)
             _args = [x for x in tp.typ.iterArgNames()]
             print("%s = %s # args: %s" % (tp.name, self.type_name(tp.init), _args), file=self.stream)
             self.names.append(tp.name)
@@ -404,7 +405,8 @@ class Generator:
                 else:
                     init_value = "(%s)()" % self.type_name(tp.typ, False)
 
-        elif isinstance(tp.typ, typedesc.Structure):
+        elif isinstance(tp.typ, (typedesc.Structure, typedesc.Union)):
+            self._generate(tp.typ)
             init_value = self.type_name(tp.typ, False)
         elif isinstance(tp.typ, typedesc.FundamentalType) and tp.typ.name in [
             "c_ubyte",
diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 520e782..bb86d78 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -382,6 +382,9 @@ class CursorHandler(ClangHandler):
             raise CursorKindException(child.kind)
         if child.kind == CursorKind.CALL_EXPR:  # noqa
             raise CursorKindException(child.kind)
+        if child.kind in (CursorKind.STRUCT_DECL, CursorKind.UNION_DECL, CursorKind.ENUM_DECL):
+            # the definition of the type of the variable, not its value
+            raise CursorKindException(child.kind)
         # POD init values handling.
         # As of clang 3.3, int, double literals are exposed.
         # float, long double, char , char* are not exposed directly in level1.
-- 
2.43.0


From e72262900a848cb95a0b90ec1eaf913dfd4a0c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:21 +0000
Subject: [PATCH 16/60] fix: octal, binary and hexadecimal floating literals as
 initial values

---
 ctypeslib/codegen/cursorhandler.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index bb86d78..31c0b9c 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -523,12 +523,19 @@ class CursorHandler(ClangHandler):
                 value = value.replace('l', '').replace('u', '')
                 if value[:2] == '0x' or value[:2] == '0X':
                     value = '0x%s' % value[2:]  # "int(%s,16)"%(value)
+                elif value[:2] == '0b' or value[:2] == '0B':
+                    value = int(value, 2)
+                elif value[0] == '0':
+                    value = int(value, 8)
                 else:
                     value = int(value)
             elif token.cursor.kind == CursorKind.FLOATING_LITERAL:  # noqa
                 # strip type suffix for constants
-                value = value.replace('f', '').replace('F', '')
-                value = float(value)
+                if value[:2] == '0x' or value[:2] == '0X':
+                    # the f of a hexadecimal float is a digit until its exponent
+                    value = float.fromhex(value.rstrip('fFlL'))
+                else:
+                    value = float(value.rstrip('fFlL'))
             elif (token.cursor.kind == CursorKind.CHARACTER_LITERAL or  # noqa
                           token.cursor.kind == CursorKind.STRING_LITERAL):  # noqa
                 value = self._clean_string_literal(token.cursor, value)
-- 
2.43.0


From d0736e7bcfb5b56ef0993d9729c785acb1c818ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:47 +0000
Subject: [PATCH 17/60] fix: initial values written in parentheses

---
 ctypeslib/codegen/cursorhandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 31c0b9c..91c0c82 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -389,7 +389,7 @@ class CursorHandler(ClangHandler):
         # As of clang 3.3, int, double literals are exposed.
         # float, long double, char , char* are not exposed directly in level1.
         # but really it depends...
-        if child.kind.is_unexposed():
+        if child.kind.is_unexposed() or child.kind == CursorKind.PAREN_EXPR:
             # recurse until we find a literal kind
             init_value = self._get_var_decl_init_value(_ctype, child.get_children())
             if len(init_value) == 0:
-- 
2.43.0


From 5a67f6e6fe115fa46bed63c86581f22f4efaa417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:44 +0000
Subject: [PATCH 18/60] fix: hexadecimal initial value of char and unsigned
 char variables

---
 ctypeslib/codegen/cursorhandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 91c0c82..283738f 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -522,7 +522,7 @@ class CursorHandler(ClangHandler):
                 value = value.replace('L', '').replace('U', '')
                 value = value.replace('l', '').replace('u', '')
                 if value[:2] == '0x' or value[:2] == '0X':
-                    value = '0x%s' % value[2:]  # "int(%s,16)"%(value)
+                    value = int(value, 16)
                 elif value[:2] == '0b' or value[:2] == '0B':
                     value = int(value, 2)
                 elif value[0] == '0':
-- 
2.43.0


From 3115ceab899e010e2d63798eec2956fd2f68d1b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:36 +0000
Subject: [PATCH 19/60] fix: unnamed enumerations in a record

---
 ctypeslib/codegen/handler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ctypeslib/codegen/handler.py b/ctypeslib/codegen/handler.py
index 021247a..f71b5cb 100644
--- a/ctypeslib/codegen/handler.py
+++ b/ctypeslib/codegen/handler.py
@@ -153,6 +153,9 @@ class ClangHandler(object):
                                  CursorKind.CLASS_DECL,CursorKind.FIELD_DECL]:
                 name = self._make_unknown_name(cursor, field_name)
                 log.debug('Unnamed cursor type, got name %s',name)
+            elif cursor.kind == CursorKind.ENUM_DECL:
+                # a unnamed enumeration in a record
+                name = self.make_python_name(cursor.get_usr())
             else:
                 log.debug('Unnamed cursor, No idea what to do')
                 #import code
-- 
2.43.0


From 7ae0abf6b02508e2dd4fede1865545bd6094dc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:09 +0000
Subject: [PATCH 20/60] fix: values of an enumeration that is declared before
 it is defined

---
 ctypeslib/codegen/cursorhandler.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 283738f..7dc598a 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -150,10 +150,17 @@ class CursorHandler(ClangHandler):
         """Gets the enumeration declaration."""
         name = self.get_unique_name(cursor)
         if self.is_registered(name):
-            return self.get_registered(name)
-        align = cursor.type.get_align()
-        size = cursor.type.get_size()
-        obj = self.register(name, typedesc.Enumeration(name, size, align))
+            obj = self.get_registered(name)
+            if (not isinstance(obj, typedesc.Enumeration) or obj.values
+                    or not cursor.is_definition()):
+                return obj
+            # the enumeration was declared before it is defined
+            obj.align = cursor.type.get_align()
+            obj.size = cursor.type.get_size()
+        else:
+            align = cursor.type.get_align()
+            size = cursor.type.get_size()
+            obj = self.register(name, typedesc.Enumeration(name, size, align))
         self.set_location(obj, cursor)
         self.set_comment(obj, cursor)
         # parse all children
-- 
2.43.0


From 8514cf5b42181ffe23c2ef63efe4f79d1c0f7666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:22 +0000
Subject: [PATCH 21/60] fix: octal literals and suffix combinations in macros

---
 ctypeslib/codegen/cursorhandler.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 7dc598a..b13d3fd 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -445,12 +445,14 @@ class CursorHandler(ClangHandler):
         elif cursor.kind == CursorKind.MACRO_DEFINITION:  # noqa
             c = value[-1]
             if c in ['"', "'"]:
-                value = re.sub('''^L%s''' % c , c, value)
+                value = re.sub('''^(L|u8|u|U)%s''' % c , c, value)
             else:
                 # unsigned int / long int / unsigned long int / long long int / unsigned long long int
                 # this works and doesn't eat STRING values because no '"' is before $ in the regexp.
-                # FIXME combinaisons of u/U, l/L, ll/LL, and combined, plus z/Z combined with u/U
-                value = re.sub("(u|U|l|L|ul|UL|ll|LL|ull|ULL|z|Z|zu|ZU)$", "", value)
+                value = re.sub("[uUlLzZ]+$", "", value)
+                if re.match("0[0-7]+$", value):
+                    # octal
+                    value = "0o" + value[1:]
             return value
         else:
             pass
-- 
2.43.0


From f31fa6a16eec6c94aa2be0a67c5bb48fad4b2bfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:28 +0000
Subject: [PATCH 22/60] fix: macros whose value starts with an expression in
 parentheses

---
 ctypeslib/codegen/cursorhandler.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index b13d3fd..7171a22 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -1159,14 +1159,17 @@ class CursorHandler(ClangHandler):
             elif tokens[1] == '(':
                 # #107, differentiate between function-like macro and expression in ()
                 # valid tokens for us are are '()[0-9],.e' and terminating LluU
-                if any(filter(lambda x: isinstance(x, typedesc.UndefinedIdentifier), tokens)):
+                # a function-like macro has its '(' right after its name
+                _name, _paren = list(cursor.get_tokens())[:2]
+                function_like = _name.extent.end.offset == _paren.extent.start.offset
+                if function_like or any(isinstance(x, typedesc.UndefinedIdentifier) for x in tokens):
                     # function macro or an expression.
                     str_tokens = [str(_) for _ in tokens[1:tokens.index(')')+1]]
                     args = ''.join(str_tokens).replace(',', ', ')
                     str_tokens = [str(_) for _ in tokens[tokens.index(')')+1:]]
                     value = ''.join(str_tokens)
                 else:
-                    value = ''.join((str(_) for _ in tokens[1:tokens.index(')') + 1]))
+                    value = ''.join((str(_) for _ in tokens[1:]))
             elif len(tokens) > 2:
                 # #define key a b c
                 value = list(tokens[1:])
-- 
2.43.0


From 8298aa5956417462ae76ce1d2ee44f825ad044c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:04 +0000
Subject: [PATCH 23/60] fix: macros that have no value in python made the
 generated code invalid

---
 ctypeslib/codegen/codegenerator.py | 16 ++++++++++------
 ctypeslib/codegen/cursorhandler.py |  3 ++-
 ctypeslib/codegen/util.py          |  9 +++++++++
 3 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index e8209d1..c63f311 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -14,6 +14,7 @@ import pkgutil
 import sys
 import textwrap
 import io
+import keyword
 from io import StringIO
 
 from clang.cindex import TypeKind
@@ -206,6 +207,9 @@ class Generator:
         if macro.args:
             print("# def %s%s:  # macro" % (macro.name, macro.args), file=self.stream)
             print("#    return %s  " % macro.body, file=self.stream)
+        elif keyword.iskeyword(macro.name):
+            # python can't have a variable of that name
+            print("# %s = %s # macro" % (macro.name, macro.body), file=self.stream)
         elif util.contains_undefined_identifier(macro):
             # we can't handle that, we comment it out
             if isinstance(macro.body, typedesc.UndefinedIdentifier):
@@ -226,13 +230,13 @@ class Generator:
                     body = float_value
                 # what about integers you ask ? body token that represents token are Integer here.
                 # either it's just a thing we gonna print, or we need to have a registered item
-                if sum(x=='(' for x in body) != sum(x==')' for x in body):
-                    # unbalanced parens means comment
-                    print("# %s = %s # macro" % (macro.name, body), file=self.stream)
-                else:
+                if util.is_python_value(body):
                     print("%s = %s # macro" % (macro.name, body), file=self.stream)
-                self.macros += 1
-                self.names.append(macro.name)
+                    self.macros += 1
+                    self.names.append(macro.name)
+                else:
+                    # not a value in python means comment
+                    print("# %s = %s # macro" % (macro.name, body), file=self.stream)
         # This is why we need to have token types all the way here.
         # but at the same time, clang does not type tokens. So we might as well guess them here too
         elif util.body_is_all_string_tokens(macro.body):
diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 7171a22..e32f765 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -553,7 +553,8 @@ class CursorHandler(ClangHandler):
                 value = self.get_registered(value).body
                 # already cleaned value = self._clean_string_literal(token.cursor, value)
             elif token.cursor.kind == CursorKind.MACRO_DEFINITION:  # noqa
-                tk = token.kind
+                # a token can go on on the next line
+                value = value.replace("\\\n", "")
                 if i == 0:
                     # ignore, macro name
                     pass
diff --git a/ctypeslib/codegen/util.py b/ctypeslib/codegen/util.py
index 163fa84..ba36673 100644
--- a/ctypeslib/codegen/util.py
+++ b/ctypeslib/codegen/util.py
@@ -190,6 +190,15 @@ def body_is_all_string_tokens(macro_body):
     return False
 
 
+def is_python_value(text):
+    """Is this the text of a python expression, on its own"""
+    try:
+        compile(text, "<macro>", "eval")
+    except (SyntaxError, ValueError):
+        return False
+    return True
+
+
 __all__ = [
     'get_cursor',
     'get_cursors',
-- 
2.43.0


From a60d8a34384c605093dc4f5bec7700d0d9b5a443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:53 +0000
Subject: [PATCH 24/60] fix: macros that name a declaration of a previous file

---
 ctypeslib/codegen/cursorhandler.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index e32f765..84fd852 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -564,7 +564,8 @@ class CursorHandler(ClangHandler):
                 elif token.kind == TokenKind.IDENTIFIER:  # noqa
                     # log.debug("Ignored MACRO_DEFINITION token identifier : %s", value)
                     # Identifier in Macro... Not sure what to do with that.
-                    if self.is_registered(value):
+                    if (self.is_registered(value)
+                            and isinstance(self.get_registered(value), typedesc.Macro)):
                         # FIXME: if Macro is not a simple value replace, it should not be registered in the first place
                         # parse that, try to see if there is another Macro in there.
                         value = self.get_registered(value).body
-- 
2.43.0


From c424f9feee4c9e23b747f817b4b8aeaff7ecc349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:19 +0000
Subject: [PATCH 25/60] fix: libraries that have the same base name

---
 ctypeslib/codegen/codegenerator.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index c63f311..f5b98b0 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -818,11 +818,15 @@ class Generator:
             global_flag = ", mode=ctypes.RTLD_GLOBAL"
         else:
             global_flag = ""
-        if library._name not in self._c_libraries:
-            print("_libraries[%r] =%s ctypes.CDLL(%r%s)" % (library._name, stub_comment, filepath, global_flag),
+        name = library._name
+        if self._c_libraries.get(name, filepath) != filepath:
+            # another library has the same base name
+            name = filepath
+        if name not in self._c_libraries:
+            print("_libraries[%r] =%s ctypes.CDLL(%r%s)" % (name, stub_comment, filepath, global_flag),
                   file=self.imports)
-            self._c_libraries[library._name] = None
-        return "_libraries[%r]" % library._name
+            self._c_libraries[name] = filepath
+        return "_libraries[%r]" % name
 
     _STRING_defined = False
 
-- 
2.43.0


From bf355176bdf1908571a5ba21f04f6c0356dee750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:40 +0000
Subject: [PATCH 26/60] fix: function parameters that are declared as arrays
 are pointers

---
 ctypeslib/codegen/cursorhandler.py |  2 +-
 ctypeslib/codegen/handler.py       | 15 +++++++++++++++
 ctypeslib/codegen/typehandler.py   |  2 +-
 3 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 84fd852..8f85159 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -209,7 +209,7 @@ class CursorHandler(ClangHandler):
                 _argtype = self.parse_cursor_type(_type)
             else:
                 _argtype = self.get_registered(_argtype_name)
-        obj = typedesc.Argument(_name, _argtype)
+        obj = typedesc.Argument(_name, self.decay_array_type(_argtype))
         self.set_location(obj, cursor)
         self.set_comment(obj, cursor)
         return obj
diff --git a/ctypeslib/codegen/handler.py b/ctypeslib/codegen/handler.py
index f71b5cb..a7a3971 100644
--- a/ctypeslib/codegen/handler.py
+++ b/ctypeslib/codegen/handler.py
@@ -217,6 +217,21 @@ class ClangHandler(object):
             return []
         return []
 
+    def decay_array_type(self, typ):
+        """
+        The type of a function parameter: a parameter that is declared as an
+        array is a pointer to the elements of the array.
+        """
+        array = typ
+        while isinstance(array, typedesc.Typedef):
+            array = array.typ
+        if not isinstance(array, typedesc.ArrayType):
+            return typ
+        size = self.get_ctypes_size(TypeKind.POINTER) // 8
+        obj = typedesc.PointerType(array.typ, size, size)
+        obj.location = array.typ.location
+        return obj
+
     def get_ctypes_name(self, typekind):
         return self.parser.get_ctypes_name(typekind)
 
diff --git a/ctypeslib/codegen/typehandler.py b/ctypeslib/codegen/typehandler.py
index 1c535ef..3202c9b 100644
--- a/ctypeslib/codegen/typehandler.py
+++ b/ctypeslib/codegen/typehandler.py
@@ -218,7 +218,7 @@ class TypeHandler(ClangHandler):
             arg = typedesc.Argument(
                 "a%d" %
                 (i),
-                self.parse_cursor_type(_attr_type))
+                self.decay_array_type(self.parse_cursor_type(_attr_type)))
             obj.add_argument(arg)
         self.set_location(obj, None)
         return obj
-- 
2.43.0


From c6ec64cd0a7d9b27ebba7521dab918b5a1c8dbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:22 +0000
Subject: [PATCH 27/60] fix: initial value of variables that are declared
 before they are defined

---
 ctypeslib/codegen/cursorhandler.py | 7 ++++++-
 ctypeslib/codegen/typedesc.py      | 2 ++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 8f85159..5b65e9b 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -255,7 +255,11 @@ class CursorHandler(ClangHandler):
         log.debug('VAR_DECL: name: %s', name)
         # Check for a previous declaration in the register
         if self.is_registered(name):
-            return self.get_registered(name)
+            obj = self.get_registered(name)
+            if not isinstance(obj, typedesc.Variable) or obj.defined or not cursor.is_definition():
+                return obj
+            # the variable was declared before it is defined
+            self.remove_registered(name)
         # get the typedesc object
         _type, extern = self._VAR_DECL_type(cursor)
         # transform the ctypes values into ctypeslib
@@ -265,6 +269,7 @@ class CursorHandler(ClangHandler):
         log.debug('VAR_DECL: _init:%s', init_value)
         log.debug('VAR_DECL: location:%s', getattr(cursor, 'location'))
         obj = self.register(name, typedesc.Variable(name, _type, init_value, extern))
+        obj.defined = cursor.is_definition()
         self.set_location(obj, cursor)
         self.set_comment(obj, cursor)
         return True
diff --git a/ctypeslib/codegen/typedesc.py b/ctypeslib/codegen/typedesc.py
index ca2d191..6b728a4 100644
--- a/ctypeslib/codegen/typedesc.py
+++ b/ctypeslib/codegen/typedesc.py
@@ -273,6 +273,8 @@ class Variable(T):
         self.typ = typ
         self.init = init
         self.extern = extern
+        # False for a declaration without definition
+        self.defined = False
 
 ################################################################
 
-- 
2.43.0


From 4188b3d347646edd9980fd6418ae5898e538f4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:30 +0000
Subject: [PATCH 28/60] fix: signed and parenthesised literals in initial
 values

---
 ctypeslib/codegen/cursorhandler.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 5b65e9b..06d8097 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -1,5 +1,6 @@
 """Handler for Cursor nodes from the clang AST tree."""
 
+import ast
 import logging
 import re
 
@@ -78,6 +79,9 @@ class CursorHandler(ClangHandler):
             return ret[0]
         return ret
 
+    # a parenthesised expression is the expression
+    PAREN_EXPR = UNEXPOSED_EXPR
+
     @log_entity
     def DECL_REF_EXPR(self, cursor):  # noqa
         return cursor.displayname
@@ -614,17 +618,12 @@ class CursorHandler(ClangHandler):
         retval = ''.join([str(val) for val in values])
         log.debug('cursor.type.kind:%s', cursor.type.kind.name)
         if cursor.kind == CursorKind.UNARY_OPERATOR:  # noqa
-            if cursor.type.kind in [TypeKind.INT, TypeKind.LONG]:  # noqa
-                if '0x' in retval:
-                    retval = int(retval, 16)
-                else:
-                    try:
-                        retval = int(retval)
-                    except ValueError:
-                        # fall back on pass through
-                        pass
-            elif cursor.type.kind in [TypeKind.FLOAT, TypeKind.DOUBLE]:  # noqa
-                retval = float(retval)
+            try:
+                # a signed literal, with or without parentheses
+                retval = ast.literal_eval(retval)
+            except (ValueError, SyntaxError):
+                # fall back on pass through
+                pass
         # Things we do not want to do:
         # elif cursor.kind == CursorKind.BINARY_OPERATOR:
         #     # cursor.kind == binary_operator, then need to make some additions
-- 
2.43.0


From 32b74b2c544b41cd8fc95513e78680a404cc22a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:50 +0000
Subject: [PATCH 29/60] fix: declarations that have the name of a macro are not
 dropped

---
 ctypeslib/codegen/clangparser.py   |  3 +++
 ctypeslib/codegen/cursorhandler.py | 10 +++++-----
 ctypeslib/codegen/handler.py       |  4 +++-
 3 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/ctypeslib/codegen/clangparser.py b/ctypeslib/codegen/clangparser.py
index 59a7814..9c8045d 100644
--- a/ctypeslib/codegen/clangparser.py
+++ b/ctypeslib/codegen/clangparser.py
@@ -211,6 +211,9 @@ class Clang_Parser:
         if (name, obj) in self.all_set:
             log.debug("register: %s already defined: %s", name, obj.name)
             return self.all[name]
+        if isinstance(self.all.get(name), typedesc.Macro):
+            # the last definition of a macro wins, and a declaration wins over a macro of the same name
+            self.remove_registered(name)
         if name in self.all:
             if not isinstance(self.all[name], typedesc.Structure) or (self.all[name].members is not None):
                 # code.interact(local=locals())
diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 06d8097..41b80cf 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -559,7 +559,8 @@ class CursorHandler(ClangHandler):
                 value = self._clean_string_literal(token.cursor, value)
             elif token.cursor.kind == CursorKind.MACRO_INSTANTIATION:  # noqa
                 # get the macro value
-                value = self.get_registered(value).body
+                if isinstance(self.get_registered(value), typedesc.Macro):
+                    value = self.get_registered(value).body
                 # already cleaned value = self._clean_string_literal(token.cursor, value)
             elif token.cursor.kind == CursorKind.MACRO_DEFINITION:  # noqa
                 # a token can go on on the next line
@@ -573,7 +574,7 @@ class CursorHandler(ClangHandler):
                 elif token.kind == TokenKind.IDENTIFIER:  # noqa
                     # log.debug("Ignored MACRO_DEFINITION token identifier : %s", value)
                     # Identifier in Macro... Not sure what to do with that.
-                    if (self.is_registered(value)
+                    if (self.parser.is_registered(value)
                             and isinstance(self.get_registered(value), typedesc.Macro)):
                         # FIXME: if Macro is not a simple value replace, it should not be registered in the first place
                         # parse that, try to see if there is another Macro in there.
@@ -1200,9 +1201,8 @@ class CursorHandler(ClangHandler):
         try:
             self.register(name, obj)
         except DuplicateDefinitionException:
-            log.info('Redefinition of %s %s->%s', name, self.parser.all[name].args, value)
-            # HACK
-            self.parser.all[name] = obj
+            log.info('Macro %s has the name of a declaration', name)
+            return True
         self.set_location(obj, cursor)
         # set the comment in the obj
         obj.comment = comment
diff --git a/ctypeslib/codegen/handler.py b/ctypeslib/codegen/handler.py
index a7a3971..0a0705b 100644
--- a/ctypeslib/codegen/handler.py
+++ b/ctypeslib/codegen/handler.py
@@ -55,7 +55,9 @@ class ClangHandler(object):
         return self.parser.get_registered(name)
 
     def is_registered(self, name):
-        return self.parser.is_registered(name)
+        # a declaration can have the name of a macro
+        return (self.parser.is_registered(name) and
+                not isinstance(self.parser.get_registered(name), typedesc.Macro))
 
     def remove_registered(self, name):
         return self.parser.remove_registered(name)
-- 
2.43.0


From 10c206612bd2ae211df51d4739ceb1effa8e05a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:01 +0000
Subject: [PATCH 30/60] fix: macros that Python cannot evaluate become comments

---
 ctypeslib/codegen/codegenerator.py | 12 ++++++++----
 ctypeslib/codegen/cursorhandler.py | 10 +++++++---
 ctypeslib/codegen/util.py          | 15 ++++++++++++++-
 3 files changed, 29 insertions(+), 8 deletions(-)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index f5b98b0..fadde82 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -240,14 +240,18 @@ class Generator:
         # This is why we need to have token types all the way here.
         # but at the same time, clang does not type tokens. So we might as well guess them here too
         elif util.body_is_all_string_tokens(macro.body):
-            print("%s = %s # macro" % (macro.name, " ".join([str(_) for _ in macro.body])), file=self.stream)
-            self.macros += 1
-            self.names.append(macro.name)
+            body = " ".join([str(_) for _ in macro.body])
+            if util.is_python_value(body):
+                print("%s = %s # macro" % (macro.name, body), file=self.stream)
+                self.macros += 1
+                self.names.append(macro.name)
+            else:
+                print("# %s = %s # macro" % (macro.name, body), file=self.stream)
         else:
             # this might be a token list of float literal
             body = macro.body
             float_value = util.from_c_float_literal(body)
-            if float_value is not None:
+            if float_value is not None and util.is_python_value(float_value):
                 body = float_value
             # or anything else that might be a valid python literal...
             print("%s = %s # macro" % (macro.name, body), file=self.stream)
diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 41b80cf..672ac53 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -575,7 +575,8 @@ class CursorHandler(ClangHandler):
                     # log.debug("Ignored MACRO_DEFINITION token identifier : %s", value)
                     # Identifier in Macro... Not sure what to do with that.
                     if (self.parser.is_registered(value)
-                            and isinstance(self.get_registered(value), typedesc.Macro)):
+                            and isinstance(self.get_registered(value), typedesc.Macro)
+                            and not self.get_registered(value).args):
                         # FIXME: if Macro is not a simple value replace, it should not be registered in the first place
                         # parse that, try to see if there is another Macro in there.
                         value = self.get_registered(value).body
@@ -1161,7 +1162,7 @@ class CursorHandler(ClangHandler):
             if len(tokens) == 2:
                 # #define key value
                 value = tokens[1]
-            elif len(tokens) == 3 and tokens[1] == '-':
+            elif len(tokens) == 3 and tokens[1] == '-' and isinstance(tokens[2], str):
                 value = ''.join(tokens[1:])
             elif tokens[1] == '(':
                 # #107, differentiate between function-like macro and expression in ()
@@ -1169,12 +1170,15 @@ class CursorHandler(ClangHandler):
                 # a function-like macro has its '(' right after its name
                 _name, _paren = list(cursor.get_tokens())[:2]
                 function_like = _name.extent.end.offset == _paren.extent.start.offset
-                if function_like or any(isinstance(x, typedesc.UndefinedIdentifier) for x in tokens):
+                undefined = any(isinstance(x, typedesc.UndefinedIdentifier) for x in tokens)
+                if function_like or (undefined and ')' in tokens):
                     # function macro or an expression.
                     str_tokens = [str(_) for _ in tokens[1:tokens.index(')')+1]]
                     args = ''.join(str_tokens).replace(',', ', ')
                     str_tokens = [str(_) for _ in tokens[tokens.index(')')+1:]]
                     value = ''.join(str_tokens)
+                elif undefined:
+                    value = list(tokens[1:])
                 else:
                     value = ''.join((str(_) for _ in tokens[1:]))
             elif len(tokens) > 2:
diff --git a/ctypeslib/codegen/util.py b/ctypeslib/codegen/util.py
index ba36673..4d6db9c 100644
--- a/ctypeslib/codegen/util.py
+++ b/ctypeslib/codegen/util.py
@@ -6,6 +6,7 @@ from clang.cindex import Cursor
 from clang.cindex import TranslationUnit
 from collections.abc import Iterable
 
+import ast
 import logging
 import re
 
@@ -193,9 +194,21 @@ def body_is_all_string_tokens(macro_body):
 def is_python_value(text):
     """Is this the text of a python expression, on its own"""
     try:
-        compile(text, "<macro>", "eval")
+        nodes = list(ast.walk(ast.parse(text, "<macro>", "eval")))
     except (SyntaxError, ValueError):
         return False
+    for node in nodes:
+        if isinstance(node, ast.Constant):
+            if not isinstance(node.value, (int, float, str)):
+                return False
+        elif isinstance(node, (ast.BinOp, ast.UnaryOp, ast.Compare)):
+            if isinstance(getattr(node, "op", None), (ast.Div, ast.Mod)) and getattr(node.right, "value", 1) == 0:
+                return False
+            if any(isinstance(_, ast.Constant) and isinstance(_.value, str) for _ in ast.iter_child_nodes(node)):
+                return False
+        elif not isinstance(node, (ast.Expression, ast.Tuple, ast.Load, ast.operator, ast.unaryop, ast.cmpop)):
+            # a name, an attribute, a call... is the value of something else
+            return False
     return True
 
 
-- 
2.43.0


From 77a1b819c397e0a514b3079c7123ccff8d75e14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:44 +0000
Subject: [PATCH 31/60] fix: each bit-field keeps its own sign and type

A run of bit-fields took the type name of its first member, by renaming the
types of the others: signed members became unsigned, and an enumeration used
in the run was renamed in the whole module (or the module did not import).
---
 ctypeslib/codegen/cursorhandler.py | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 672ac53..2ee90e3 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -824,26 +824,29 @@ class CursorHandler(ClangHandler):
         # to the bf_size
         # set the proper type name for the bitfield.
         for bf_size, members in bitfields:
-            name = members[0].type.name
+            width = members[0].type.size
             pad_bits = 0
             if bf_size <= 8:  # use 1 byte - type = char
                 # prep the padding bitfield size
                 pad_bits = 8 - bf_size
             elif bf_size <= 16:  # use 2 byte
+                width = max(width, 2)
                 pad_bits = 16 - bf_size
             elif bf_size <= 32:  # use 2 byte
+                width = max(width, 4)
                 pad_bits = 32 - bf_size
             elif bf_size <= 64:  # use 2 byte
-                name = 'c_uint64'  # also the 3 bytes + char thing
+                width = 8  # also the 3 bytes + char thing
                 pad_bits = 64 - bf_size
             else:
-                name = 'c_uint64'
+                width = 8
                 pad_bits = bf_size % 64 - bf_size
             # change the type to harmonise the bitfield
-            log.debug('_fixup_record_bitfield_size: fix type to %s', name)
-            # set the whole bitfield to the appropriate type size.
+            log.debug('_fixup_record_bitfield_size: fix type size to %d', width)
+            # set the whole bitfield to the appropriate type size, each member keeps its sign.
             for m in members:
-                m.type.name = name
+                if m.type.size != width or m.type.name in ('c_bool', 'c_char'):
+                    m.type = self._bitfield_type(m.type, width)
                 if m.is_padding:
                     # this is the last field.
                     # reduce the size of this padding field to the
@@ -867,12 +870,23 @@ class CursorHandler(ClangHandler):
                         # we need to make it a member of 32bit bitfield
                         next_member.is_bitfield = True
                         next_member.comment = "Promoted to bitfield member and type (was char)"
-                        next_member.type = m.type
+                        next_member.type = self._bitfield_type(next_member.type, m.type.size)
                         log.info("%s.%s promoted to bitfield member and type", s.name, next_member.name)
                         continue
         #
         return
 
+    @staticmethod
+    def _bitfield_type(_type, width):
+        """The integer type of that width, in bytes, that has the sign of a type"""
+        if isinstance(_type, typedesc.Enumeration):
+            unsigned = all(v.value >= 0 for v in _type.values)
+        elif isinstance(_type, typedesc.FundamentalType):
+            unsigned = _type.name.startswith('c_u') or _type.name == 'c_bool'
+        else:
+            unsigned = True
+        return typedesc.FundamentalType('c_%sint%d' % ('u' if unsigned else '', width * 8), width, width)
+
     def _fixup_record(self, s):
         """Fixup padding on a record"""
         log.debug('FIXUP_STRUCT: %s %d bits', s.name, s.size * 8)
-- 
2.43.0


From 20eb3fe287bd044e548a219ab6cce348d4a7d2b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:50 +0000
Subject: [PATCH 32/60] fix: unnamed bit-fields of no width, or beside
 anonymous records, are padding

The first are no valid ctypes field; the names of the others hid the members
of anonymous records: in both cases the module did not import (linux/bpf.h).
---
 ctypeslib/codegen/cursorhandler.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 2ee90e3..90d2b89 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -735,7 +735,11 @@ class CursorHandler(ClangHandler):
         decl_f = [f.type.get_declaration() for f in fields]
         log.debug('Fields: %s',
                   str(['%s/%s' % (f.kind.name, f.spelling) for f in fields]))
+        anonymous = cursor.is_anonymous() or any(f.is_anonymous() and not f.is_bitfield() for f in fields)
         for field in fields:
+            if field.is_bitfield() and not field.spelling and (anonymous or field.get_bitfield_width() == 0):
+                # no value: it is left to the padding, its name would be the one of an anonymous record
+                continue
             log.debug('creating FIELD_DECL for %s/%s', field.kind.name, field.spelling)
             members.append(self.FIELD_DECL(field))
         # FIXME BUG clang: anonymous structure field with only one anonymous field
-- 
2.43.0


From 4235dbe2551e26b7d70112cb6bf913dca7f83aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:29 +0000
Subject: [PATCH 33/60] fix: storage units of bit-fields

ctypes allocates a whole unit of the size of the type at the current offset:
a run of bit-fields that does not start at its own alignment, or that is
followed by members packed behind it, made the record larger than in C and
moved its members. Choose units that are filled by members and padding.
---
 ctypeslib/codegen/cursorhandler.py | 197 ++++++++++++-----------------
 ctypeslib/codegen/typedesc.py      |   2 +
 2 files changed, 85 insertions(+), 114 deletions(-)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 90d2b89..e529550 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -772,11 +772,13 @@ class CursorHandler(ClangHandler):
         return obj
 
     def _fixup_record_bitfields_type(self, s):
-        """Fix the bitfield packing issue for python ctypes, by changing the
-        bitfield type, and respecting compiler alignement rules.
+        """Choose the storage units of the bitfields, and change the type of the
+        members to integers of the size of their unit.
 
-        This method should be called AFTER padding to have a perfect continuous
-        layout.
+        ctypes allocates a unit of the size of the type of a bitfield, at the
+        current offset, as opposed to the compilers that only reserve the bits.
+        So units are chosen to be filled exactly by members and padding, and
+        not to reach into a member that is no bitfield.
 
         There is one very special case:
             struct bytes3 {
@@ -786,99 +788,68 @@ class CursorHandler(ClangHandler):
             };
 
         where we would need to actually put a2 in the int32 bitfield.
-
-        We also need to change the member type to the smallest type possible
-        that can contains the number of bits.
-        Otherwise ctypes has strange bitfield rules packing stuff to the biggest
-        type possible.
-
-        ** but at the same time, if a bitfield member is from type x, we need to
-        respect that
         """
-        # phase 1, make bitfield, relying upon padding.
-        bitfields = []
-        bitfield_members = []
-        current_bits = 0
+        if not any(m.is_bitfield for m in s.members):
+            return
+        units = self._bitfield_units(s.members, s.size * 8)
         for m in s.members:
-            if m.is_bitfield:
-                bitfield_members.append(m)
-                if m.is_padding:
-                    # compiler says this ends the bitfield
-                    size = current_bits
-                    bitfields.append((size, bitfield_members))
-                    bitfield_members = []
-                    current_bits = 0
-                else:
-                    # size of padding is not included
-                    current_bits += m.bits
-            elif len(bitfield_members) == 0:
-                # no opened bitfield
-                continue
-            else:
-                # we reach the end of the bitfield. Make calculations.
-                size = current_bits
-                bitfields.append((size, bitfield_members))
-                bitfield_members = []
-                current_bits = 0
-        if current_bits != 0:
-            size = current_bits
-            bitfields.append((size, bitfield_members))
-
-        # compilers tend to reduce the size of the bitfield
-        # to the bf_size
-        # set the proper type name for the bitfield.
-        for bf_size, members in bitfields:
-            width = members[0].type.size
-            pad_bits = 0
-            if bf_size <= 8:  # use 1 byte - type = char
-                # prep the padding bitfield size
-                pad_bits = 8 - bf_size
-            elif bf_size <= 16:  # use 2 byte
-                width = max(width, 2)
-                pad_bits = 16 - bf_size
-            elif bf_size <= 32:  # use 2 byte
-                width = max(width, 4)
-                pad_bits = 32 - bf_size
-            elif bf_size <= 64:  # use 2 byte
-                width = 8  # also the 3 bytes + char thing
-                pad_bits = 64 - bf_size
-            else:
-                width = 8
-                pad_bits = bf_size % 64 - bf_size
-            # change the type to harmonise the bitfield
-            log.debug('_fixup_record_bitfield_size: fix type size to %d', width)
-            # set the whole bitfield to the appropriate type size, each member keeps its sign.
-            for m in members:
-                if m.type.size != width or m.type.name in ('c_bool', 'c_char'):
+            if m.is_bitfield and m.type.name in ('c_bool', 'c_char'):
+                # ctypes has no bitfields of these types
+                m.type = self._bitfield_type(m.type, 1)
+        if units is None:
+            log.warning('%s: ctypes cannot express this layout of bitfields', s.name)
+            return
+        for first, last, start, width in units:
+            for m in s.members[first:last]:
+                m.unit = (start, start + width * 8)
+                if not m.is_bitfield:
+                    # we need to make it a member of the bitfield
+                    m.is_bitfield = True
+                    m.comment = "Promoted to bitfield member and type (was char)"
+                    log.info("%s.%s promoted to bitfield member and type", s.name, m.name)
+                if m.type.size != width or m.type.name in ('c_bool', 'c_char'):     # promoted
                     m.type = self._bitfield_type(m.type, width)
-                if m.is_padding:
-                    # this is the last field.
-                    # reduce the size of this padding field to the
-                    m.bits = pad_bits
-            # and remove padding if the size is 0
-            if members[-1].is_padding and members[-1].bits == 0:
-                s.members.remove(members[-1])
-
-        # phase 2 - integrate the special 3 Bytes + char fix
-        for bf_size, members in bitfields:
-            if True or bf_size == 24:
-                # we need to check for a 3bytes + char corner case
-                m = members[-1]
-                i = s.members.index(m)
-                if len(s.members) > i + 1:
-                    # has to exists, no arch is aligned on 24 bits.
-                    next_member = s.members[i + 1]
-                    if next_member.bits == 8:
-                        # next_member field is a char.
-                        # it will be aggregated in a 32 bits space
-                        # we need to make it a member of 32bit bitfield
-                        next_member.is_bitfield = True
-                        next_member.comment = "Promoted to bitfield member and type (was char)"
-                        next_member.type = self._bitfield_type(next_member.type, m.type.size)
-                        log.info("%s.%s promoted to bitfield member and type", s.name, next_member.name)
-                        continue
-        #
-        return
+
+    @staticmethod
+    def _bitfield_units(members, end):
+        """
+        The storage units for the bitfields of a record: a list of
+        (index of first member, index after last member, offset in bits, width in bytes)
+        that promotes as few members, and changes as few sizes, as possible, or None.
+        """
+        # best (cost, units) for each (next member, end and width of the last unit)
+        states = {(0, None, 0): ((0, 0), ())}
+        for i, m in enumerate(members):
+            for key in [k for k in states if k[0] == i]:
+                cost, units = states.pop(key)
+                found = [] if m.is_bitfield else [((i + 1, None, 0), (cost, units))]
+                if isinstance(m.type, (typedesc.FundamentalType, typedesc.Enumeration)):
+                    start = m.offset // 8 * 8
+                    for width in sorted((1, 2, 4, 8), key=lambda w: (w != m.type.size, -w)):
+                        stop = start + width * 8
+                        last = i
+                        while last < len(members) and members[last].offset < stop:
+                            last += 1
+                        inside = members[i:last]
+                        if (stop > end or any(f.offset + f.bits > stop for f in inside) or
+                                not any(f.is_bitfield for f in inside) or
+                                not all(f.is_bitfield or CursorHandler._is_integer(f.type) for f in inside)):
+                            continue
+                        # ctypes would merge it into the unit right before
+                        if start == key[1] and width > key[2]:
+                            continue
+                        promoted = sum(not f.is_bitfield for f in inside)
+                        price = (cost[0] + promoted, cost[1] + (width != m.type.size))
+                        found.append(((last, stop, width), (price, units + ((i, last, start, width),))))
+                for k, v in found:
+                    if k not in states or v[0] < states[k][0]:
+                        states[k] = v
+        return min(states.values(), key=lambda v: v[0])[1] if states else None
+
+    @staticmethod
+    def _is_integer(_type):
+        return isinstance(_type, typedesc.FundamentalType) and (
+            _type.name.startswith(('c_int', 'c_uint')) or _type.name in ('c_char', 'c_byte', 'c_ubyte', 'c_bool'))
 
     @staticmethod
     def _bitfield_type(_type, width):
@@ -936,16 +907,7 @@ class CursorHandler(ClangHandler):
                 return
             if member.offset > offset:
                 # create padding
-                length = member.offset - offset
-                log.debug(
-                    'Fixup_struct: create padding for %d bits %d bytes',
-                    length, length // 8)
-                padding_nb = self._make_padding(
-                    members,
-                    padding_nb,
-                    offset,
-                    length,
-                    prev_member)
+                padding_nb = self._make_paddings(members, padding_nb, offset, member.offset, prev_member, member)
             if member.type is None:
                 log.error('FIXUP_STRUCT: %s.type is None', member.name)
             members.append(member)
@@ -953,16 +915,7 @@ class CursorHandler(ClangHandler):
             prev_member = member
         # tail padding if necessary
         if s.size * 8 != offset:
-            length = s.size * 8 - offset
-            log.debug(
-                'Fixup_struct: s:%d create tail padding for %d bits %d bytes',
-                s.size, length, length // 8)
-            padding_nb = self._make_padding(
-                members,
-                padding_nb,
-                offset,
-                length,
-                prev_member)
+            padding_nb = self._make_paddings(members, padding_nb, offset, s.size * 8, prev_member, None)
         if len(members) > 0:
             offset = members[-1].offset + members[-1].bits
         # go
@@ -977,6 +930,22 @@ class CursorHandler(ClangHandler):
     _fixup_Structure = _fixup_record
     _fixup_Union = _fixup_record
 
+    def _make_paddings(self, members, padding_nb, offset, end, prev_member, next_member):
+        """Make padding Fields, that do not cross the limits of bitfield units"""
+        cuts = [end]
+        if prev_member is not None and prev_member.unit is not None:
+            cuts.append(prev_member.unit[1])
+            if prev_member.unit[1] == offset:
+                prev_member = None
+        if next_member is not None and next_member.unit is not None:
+            cuts.append(next_member.unit[0])
+        for cut in sorted(cuts):
+            if offset < cut <= end:
+                padding_nb = self._make_padding(members, padding_nb, offset, cut - offset, prev_member)
+                offset = cut
+                prev_member = None
+        return padding_nb
+
     def _make_padding(
             self, members, padding_nb, offset, length, prev_member=None):
         """Make padding Fields for a specifed size."""
diff --git a/ctypeslib/codegen/typedesc.py b/ctypeslib/codegen/typedesc.py
index 6b728a4..097820b 100644
--- a/ctypeslib/codegen/typedesc.py
+++ b/ctypeslib/codegen/typedesc.py
@@ -235,6 +235,8 @@ class Field(T):
         self.is_bitfield = is_bitfield
         self.is_anonymous = is_anonymous
         self.is_padding = is_padding
+        # limits of the storage unit of a bitfield
+        self.unit = None
 
 
 class CvQualifiedType(T):
-- 
2.43.0


From 508b80a7ce7acbb89e7819f67767c6ac0bcfb0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:54 +0000
Subject: [PATCH 34/60] fix: unnamed bit-fields that no storage unit can hold
 are padding

A record with such a member, as unsigned long a:13; long :17; char b[1], had members
at wrong offsets and a wrong size.
---
 ctypeslib/codegen/cursorhandler.py | 9 ++++++++-
 ctypeslib/codegen/typedesc.py      | 3 ++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index e529550..6f60430 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -792,6 +792,12 @@ class CursorHandler(ClangHandler):
         if not any(m.is_bitfield for m in s.members):
             return
         units = self._bitfield_units(s.members, s.size * 8)
+        if units is None and any(m.is_unnamed for m in s.members):
+            # they hold no value: leave them to the padding
+            named = [m for m in s.members if not m.is_unnamed]
+            units = self._bitfield_units(named, s.size * 8)
+            if units is not None:
+                s.members = named
         for m in s.members:
             if m.is_bitfield and m.type.name in ('c_bool', 'c_char'):
                 # ctypes has no bitfields of these types
@@ -1108,7 +1114,8 @@ class CursorHandler(ClangHandler):
             self.register(_decl_name, _type)
         return typedesc.Field(name, _type, offset, bits,
                               is_bitfield=cursor.is_bitfield(),
-                              is_anonymous=cursor.is_anonymous())
+                              is_anonymous=cursor.is_anonymous(),
+                              is_unnamed=cursor.is_bitfield() and not cursor.spelling)
 
     #############################
     # PREPROCESSING
diff --git a/ctypeslib/codegen/typedesc.py b/ctypeslib/codegen/typedesc.py
index 097820b..47c1687 100644
--- a/ctypeslib/codegen/typedesc.py
+++ b/ctypeslib/codegen/typedesc.py
@@ -227,7 +227,7 @@ class Field(T):
     ''' Change bits if its a bitfield'''
 
     def __init__(self, name, typ, offset, bits, is_bitfield=False,
-                 is_anonymous=False, is_padding=False):
+                 is_anonymous=False, is_padding=False, is_unnamed=False):
         self.name = name
         self.type = typ
         self.offset = offset
@@ -235,6 +235,7 @@ class Field(T):
         self.is_bitfield = is_bitfield
         self.is_anonymous = is_anonymous
         self.is_padding = is_padding
+        self.is_unnamed = is_unnamed
         # limits of the storage unit of a bitfield
         self.unit = None
 
-- 
2.43.0


From 503c6a65c2bebead059895042e9fc6ee2f4107e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:25 +0000
Subject: [PATCH 35/60] fix: strings that initialise arrays of other types than
 char

The value was emitted without quotes, so the module did not import.
---
 ctypeslib/codegen/codegenerator.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index fadde82..7570675 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -384,6 +384,7 @@ class Generator:
         elif isinstance(tp.typ, typedesc.PointerType) or isinstance(tp.typ, typedesc.ArrayType):
             if isinstance(tp.typ.typ, typedesc.FundamentalType) and (
                 tp.typ.typ.name in ["c_ubyte", "c_char", "c_wchar"]
+                or isinstance(tp.typ, typedesc.ArrayType) and isinstance(tp.init, str)
             ):
                 # string
                 # FIXME a char * is not a python string.
-- 
2.43.0


From 038406ccde09e58219ce400716762d623a49affc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:27 +0000
Subject: [PATCH 36/60] fix: parse the definition of a declared record left out
 by the location filter

---
 ctypeslib/codegen/clangparser.py   | 11 +++++++++++
 ctypeslib/codegen/cursorhandler.py |  1 +
 2 files changed, 12 insertions(+)

diff --git a/ctypeslib/codegen/clangparser.py b/ctypeslib/codegen/clangparser.py
index 9c8045d..a71d9d5 100644
--- a/ctypeslib/codegen/clangparser.py
+++ b/ctypeslib/codegen/clangparser.py
@@ -72,6 +72,8 @@ class Clang_Parser:
         # a shortcut to identify registered decl in cases of records
         self.all_set = set()
         self.cpp_data = {}
+        # the definitions of the records known by a declaration only
+        self.incomplete_records = {}
         self._unhandled = []
         self.fields = {}
         self.tu = None
@@ -130,6 +132,7 @@ class Clang_Parser:
         root = self.tu.cursor
         for node in root.get_children():
             self.start_element(node)
+        self.complete_records()
         return
 
     def parse_string(self, input_data, lang="c", all_warnings=False, flags=None):
@@ -142,6 +145,14 @@ class Clang_Parser:
         root = self.tu.cursor
         for node in root.get_children():
             self.start_element(node)
+        self.complete_records()
+
+    def complete_records(self):
+        """Parses the definitions, in files left out, of the records only declared until now"""
+        while self.incomplete_records:
+            name, definition = self.incomplete_records.popitem()
+            if self.is_registered(name) and self.get_registered(name).members is None:
+                self.parse_cursor(definition)
 
     @staticmethod
     def _parse_tu_diagnostics(translation_unit, input_filename):
diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 6f60430..78a20b0 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -709,6 +709,7 @@ class CursorHandler(ClangHandler):
             if not cursor.is_definition():
                 # just save the spot, don't look at members == None
                 log.debug('cursor %s is not on a definition', name)
+                self.parser.incomplete_records[name] = cursor.get_definition()
                 obj = _output_type(name, align, None, bases, size, packed=False)
                 return self.register(name, obj)
             else:
-- 
2.43.0


From 05e11dc1d6cc21c7f9177ea22280e418886b6dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:03 +0000
Subject: [PATCH 37/60] fix: constant initialisers spelled with macros, casts
 or designators have their value

---
 ctypeslib/codegen/codegenerator.py |  1 +
 ctypeslib/codegen/cursorhandler.py | 52 +++++++++++++++++++++++++++++-
 ctypeslib/codegen/util.py          | 44 +++++++++++++++++++++++++
 3 files changed, 96 insertions(+), 1 deletion(-)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index 7570675..f9cf7b5 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -446,6 +446,7 @@ class Generator:
                 init_value = 0
         #
         # print it out
+        init_value = util.python_numbers(init_value)
         print("%s = %s # Variable %s" % (tp.name, init_value, self.type_name(tp.typ, False)), file=self.stream)
         #
         self.names.append(tp.name)
diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 78a20b0..cbdfc11 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -1,6 +1,7 @@
 """Handler for Cursor nodes from the clang AST tree."""
 
 import ast
+import ctypes
 import logging
 import re
 
@@ -339,6 +340,8 @@ class CursorHandler(ClangHandler):
 
             if countof(CursorKind.INIT_LIST_EXPR, init_value) == 1:  # noqa
                 init_value = dict(init_value)[CursorKind.INIT_LIST_EXPR]  # noqa
+                exprs = [c for c in cursor.get_children() if c.kind == CursorKind.INIT_LIST_EXPR]
+                init_value = self._constant_value(exprs[0], _ctype, init_value)
             elif countof(CursorKind.STRING_LITERAL, init_value) == 1:  # noqa
                 # we have a initialised c_array
                 init_value = dict(init_value)[CursorKind.STRING_LITERAL]  # noqa
@@ -354,9 +357,56 @@ class CursorHandler(ClangHandler):
         else:
             log.debug('VAR_DECL: default init_value: %s', init_value)
             if len(init_value) > 0:
-                init_value = init_value[0][1]
+                literal, init_value = init_value[0]
+                init_value = self._constant_value(cursor, _ctype, init_value, literal)
         return init_value
 
+    def _constant_value(self, cursor, _ctype, value, literal=None):
+        """
+        Returns the value of a constant: as it is spelled, unless the spelling
+        stands for something else, as the one of a macro, or of an expression.
+        """
+        if self.is_array_type(_ctype) and isinstance(value, list):
+            return self._array_value(cursor, _ctype, value)
+        if not self.is_fundamental_type(_ctype) and _ctype.kind != TypeKind.ENUM:
+            return value
+        constant = util.evaluate(cursor)
+        if value == []:
+            # FIXME #77, there is no token for the builtin macros
+            return value
+        if constant is None or _ctype.kind in (TypeKind.INT128, TypeKind.UINT128):
+            return value
+        if isinstance(value, str):
+            if _ctype.kind == TypeKind.ENUM:
+                _decl = _ctype.get_declaration()
+                if any(c.spelling == value for c in _decl.get_children()):
+                    return value
+            elif literal in (None, CursorKind.CHARACTER_LITERAL) and len(value) == 1 and ord(value) == constant:
+                return value
+        elif isinstance(value, int) and isinstance(constant, int):
+            # the sign of the literal is left as it is written
+            if (value - constant) % (1 << 8 * _ctype.get_size()) == 0:
+                return value
+        elif isinstance(value, (int, float)):
+            if value == constant or (_ctype.kind == TypeKind.FLOAT and ctypes.c_float(value).value == constant):
+                return value
+        return constant
+
+    def _array_value(self, cursor, _ctype, values):
+        """Returns the values of an initialized array"""
+        element = _ctype.get_array_element_type().get_canonical()
+        result = {}
+        index = 0
+        for c, value in zip(cursor.get_children(), values):
+            children = list(c.get_children())
+            if c.kind.is_unexposed() and len(children) == 2 and next(c.get_tokens()).spelling == '[':
+                # a designated element
+                index, c = util.evaluate(children[0]), children[1]
+                value = self.parse_cursor(c)
+            result[index] = self._constant_value(c, element, value)
+            index += 1
+        return [result.get(i, 0) for i in range(max(result, default=-1) + 1)]
+
     def _get_var_decl_init_value(self, _ctype, children):
         """
         Gathers initialisation values by parsing children nodes of a VAR_DECL.
diff --git a/ctypeslib/codegen/util.py b/ctypeslib/codegen/util.py
index 4d6db9c..d2f18ed 100644
--- a/ctypeslib/codegen/util.py
+++ b/ctypeslib/codegen/util.py
@@ -2,12 +2,15 @@
 # This file provides common utility functions for the test suite.
 #
 
+from clang.cindex import Config
 from clang.cindex import Cursor
 from clang.cindex import TranslationUnit
 from collections.abc import Iterable
 
 import ast
+import ctypes
 import logging
+import math
 import re
 
 from ctypeslib.codegen import typedesc
@@ -219,3 +222,44 @@ __all__ = [
     'from_c_float_literal',
     'log_entity'
 ]
+
+
+def evaluate(cursor):
+    """Returns the number an initialized variable or a constant expression stands for, or None"""
+    lib = Config().lib
+    lib.clang_Cursor_Evaluate.restype = ctypes.c_void_p
+    lib.clang_Cursor_Evaluate.argtypes = [Cursor]
+    for name, restype in (
+        ("getKind", ctypes.c_int),
+        ("isUnsignedInt", ctypes.c_uint),
+        ("getAsUnsigned", ctypes.c_ulonglong),
+        ("getAsLongLong", ctypes.c_longlong),
+        ("getAsDouble", ctypes.c_double),
+        ("dispose", None),
+    ):
+        func = getattr(lib, "clang_EvalResult_" + name)
+        func.restype = restype
+        func.argtypes = [ctypes.c_void_p]
+    result = lib.clang_Cursor_Evaluate(cursor)
+    if not result:
+        return None
+    try:
+        kind = lib.clang_EvalResult_getKind(result)
+        if kind == 1:
+            if lib.clang_EvalResult_isUnsignedInt(result):
+                return lib.clang_EvalResult_getAsUnsigned(result)
+            return lib.clang_EvalResult_getAsLongLong(result)
+        if kind == 2:
+            return lib.clang_EvalResult_getAsDouble(result)
+        return None
+    finally:
+        lib.clang_EvalResult_dispose(result)
+
+
+def python_numbers(value):
+    """Returns a value, or the text of it if its representation is not valid python"""
+    if isinstance(value, float) and not math.isfinite(value):
+        return "float('%s')" % value
+    if isinstance(value, list) and any(isinstance(_, (float, list)) for _ in value):
+        return "[%s]" % ", ".join(str(python_numbers(_)) if isinstance(_, (float, list)) else repr(_) for _ in value)
+    return value
-- 
2.43.0


From 5e58660fc0af504f2940152e214504888fe1c016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:52 +0000
Subject: [PATCH 38/60] fix: replace the escapes in the strings of variables

---
 ctypeslib/codegen/cursorhandler.py | 12 ++++++++----
 ctypeslib/codegen/util.py          | 27 +++++++++++++++++++++++++++
 2 files changed, 35 insertions(+), 4 deletions(-)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index cbdfc11..bd1cd0b 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -517,6 +517,12 @@ class CursorHandler(ClangHandler):
             pass
         return value
 
+    def _unescape(self, cursor, literal, value):
+        """Returns the text of a string without its prefix and quotes, with its escapes replaced"""
+        if '\\' not in value or 'R' in literal[:literal.index('"')]:
+            return value
+        return util.unescape(value, wide=literal[0] in 'LuU' and literal[:2] != 'u8')
+
     @log_entity
     def _literal_handling(self, cursor):
         """Parse all literal associated with this cursor.
@@ -544,13 +550,11 @@ class CursorHandler(ClangHandler):
         if len(tokens) == 1 and cursor.kind == CursorKind.STRING_LITERAL:  # noqa
             # use a shortcut that works for unicode
             value = tokens[0].spelling
-            value = self._clean_string_literal(cursor, value)
-            return value
+            return self._unescape(cursor, value, self._clean_string_literal(cursor, value))
         elif cursor.kind == CursorKind.STRING_LITERAL:  # noqa
             # use a shortcut - does not work on unicode var_decl
             value = cursor.displayname
-            value = self._clean_string_literal(cursor, value)
-            return value
+            return self._unescape(cursor, value, self._clean_string_literal(cursor, value))
         final_value = []
         # code.interact(local=locals())
         log.debug('cursor.type:%s', cursor.type.kind.name)
diff --git a/ctypeslib/codegen/util.py b/ctypeslib/codegen/util.py
index d2f18ed..ef782a2 100644
--- a/ctypeslib/codegen/util.py
+++ b/ctypeslib/codegen/util.py
@@ -263,3 +263,30 @@ def python_numbers(value):
     if isinstance(value, list) and any(isinstance(_, (float, list)) for _ in value):
         return "[%s]" % ", ".join(str(python_numbers(_)) if isinstance(_, (float, list)) else repr(_) for _ in value)
     return value
+
+
+_ESCAPE = re.compile(r"\\(?:([0-7]{1,3})|x([0-9a-fA-F]+)|u([0-9a-fA-F]{4})|U([0-9a-fA-F]{8})|\n|(.))")
+_ESCAPED = {"n": "\n", "t": "\t", "r": "\r", "a": "\a", "b": "\b", "f": "\f", "v": "\v", "e": "\033", "E": "\033", "0": "\0"}
+
+
+def unescape(text, wide=False):
+    """Returns the text of a C string literal with its escapes replaced.
+
+    The octal and hexadecimal ones are bytes of UTF-8 in a narrow string.
+    """
+
+    def replace(match):
+        octal, hexa, short, long, char = match.groups()
+        if octal or hexa:
+            code = int(octal, 8) if octal else int(hexa, 16)
+            if wide or code < 128:
+                return chr(code)
+            return bytes([code & 255]).decode("utf-8", "surrogateescape")
+        if short or long:
+            return chr(int(short or long, 16))
+        return _ESCAPED.get(char, char) or ""
+
+    text = _ESCAPE.sub(replace, text)
+    if wide:
+        return text
+    return text.encode("utf-8", "surrogateescape").decode("utf-8", "surrogateescape")
-- 
2.43.0


From e3416f6416ac57ba61f136a915d4e96efde7208a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:42 +0000
Subject: [PATCH 39/60] fix: character and boolean constants of integer
 variables are numbers

---
 ctypeslib/codegen/cursorhandler.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index bd1cd0b..9aee7f3 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -382,10 +382,14 @@ class CursorHandler(ClangHandler):
                 if any(c.spelling == value for c in _decl.get_children()):
                     return value
             elif literal in (None, CursorKind.CHARACTER_LITERAL) and len(value) == 1 and ord(value) == constant:
-                return value
+                if self.get_ctypes_name(_ctype.kind) in ('c_char', 'c_ubyte', 'c_wchar'):
+                    return value
+        elif isinstance(value, bool):
+            # an expression without a handler
+            pass
         elif isinstance(value, int) and isinstance(constant, int):
-            # the sign of the literal is left as it is written
-            if (value - constant) % (1 << 8 * _ctype.get_size()) == 0:
+            # the sign of a negative literal is left as it is written
+            if value == constant or value < 0 and (value - constant) % (1 << 8 * _ctype.get_size()) == 0:
                 return value
         elif isinstance(value, (int, float)):
             if value == constant or (_ctype.kind == TypeKind.FLOAT and ctypes.c_float(value).value == constant):
-- 
2.43.0


From 99895b6e71687b80c894f413323037df233ec60e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:23 +0000
Subject: [PATCH 40/60] fix: records incomplete in one input file and complete
 in another

---
 ctypeslib/codegen/cursorhandler.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 9aee7f3..922ad33 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -737,6 +737,9 @@ class CursorHandler(ClangHandler):
         align = cursor.type.get_align()
         if size == -2: #
             # CXTypeLayoutError_Incomplete = -2
+            if self.is_registered(name):
+                # declared in another input file
+                return self.get_registered(name)
             # produce an empty structure declaration
             size = align = 0
             log.debug('_record_decl: name: %s CXTypeLayoutError_Incomplete', name)
@@ -782,6 +785,8 @@ class CursorHandler(ClangHandler):
         else:
             obj = self.get_registered(name)
             declared_instance = False
+            # incomplete in a previous input file
+            obj.size, obj.align = size, align
             if obj.location is None:
                 # only known from a forward declaration until now
                 definition = cursor.get_definition() or cursor
-- 
2.43.0


From f2a33f5c249ab1ca105150785c6c3560451cbb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:23 +0000
Subject: [PATCH 41/60] fix: read any bytes from the standard input

---
 ctypeslib/clang2py.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ctypeslib/clang2py.py b/ctypeslib/clang2py.py
index e54fd69..2909f0c 100755
--- a/ctypeslib/clang2py.py
+++ b/ctypeslib/clang2py.py
@@ -72,8 +72,10 @@ class Input:
             # stdin case
             if in_file == sys.stdin:
                 # pylint: disable-next=consider-using-with
-                _stdin = tempfile.NamedTemporaryFile(mode="w", prefix="stdin", suffix=".c", delete=False)
-                _stdin.write(in_file.read())
+                _stdin = tempfile.NamedTemporaryFile(mode="wb", prefix="stdin", suffix=".c", delete=False)
+                # the encoding of the source is not known
+                content = getattr(in_file, "buffer", in_file).read()
+                _stdin.write(content if isinstance(content, bytes) else content.encode("utf-8"))
                 self._stdin = _stdin
                 in_file = _stdin
             self.files.append(in_file.name)
-- 
2.43.0


From 116122c903ea360bf34c746ec285ba3de2bcf349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:46 +0000
Subject: [PATCH 42/60] fix: bind records with bit-fields and with callbacks
 ctypes cannot make, and keep the dictionary given

---
 ctypeslib/data/structure_type.tpl | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/ctypeslib/data/structure_type.tpl b/ctypeslib/data/structure_type.tpl
index d44a4b4..b37eca8 100644
--- a/ctypeslib/data/structure_type.tpl
+++ b/ctypeslib/data/structure_type.tpl
@@ -52,7 +52,7 @@ class Structure(ctypes.Structure, AsDictMixin):
     @classmethod
     def _field_names_(cls):
         if hasattr(cls, '_fields_'):
-            return (f[0] for f in cls._fields_ if not f[0].startswith('PADDING'))
+            return (f[0] for f in cls._fields_ if not f[0].startswith('PADDING_'))
         else:
             return ()
 
@@ -66,7 +66,9 @@ class Structure(ctypes.Structure, AsDictMixin):
     @classmethod
     def bind(cls, bound_fields):
         fields = {}
-        for name, type_ in cls._fields_:
+        # the dictionary of the caller is left as it is
+        bound_fields = dict(bound_fields)
+        for name, type_ in (f[:2] for f in cls._fields_):
             if hasattr(type_, "restype"):
                 if name in bound_fields:
                     if bound_fields[name] is None:
@@ -82,17 +84,19 @@ class Structure(ctypes.Structure, AsDictMixin):
                     # default callback implementation (does nothing)
                     try:
                         default_ = type_(0).restype().value
-                    except TypeError:
+                    except (TypeError, AttributeError):
                         default_ = None
-                    fields[name] = type_((
-                        lambda default_: lambda *args: default_)(default_))
+                    try:
+                        fields[name] = type_((
+                            lambda default_: lambda *args: default_)(default_))
+                    except TypeError:
+                        # ctypes has no callback with this signature
+                        fields[name] = type_()
             else:
                 # not a callback function, use default initialization
                 if name in bound_fields:
                     fields[name] = bound_fields[name]
                     del bound_fields[name]
-                else:
-                    fields[name] = type_()
         if len(bound_fields) != 0:
             raise ValueError(
                 "Cannot bind the following unknown callback(s) {}.{}".format(
-- 
2.43.0


From a2d50d8952f920dde5d2dff4c52af940aa6c31a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:09 +0000
Subject: [PATCH 43/60] fix: as_dict of a record with a null pointer

---
 ctypeslib/data/structure_type.tpl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ctypeslib/data/structure_type.tpl b/ctypeslib/data/structure_type.tpl
index b37eca8..20a3961 100644
--- a/ctypeslib/data/structure_type.tpl
+++ b/ctypeslib/data/structure_type.tpl
@@ -22,7 +22,7 @@ class AsDictMixin:
                     value = [type_.as_dict(v) for v in value]
                 else:
                     value = [i for i in value]
-            elif hasattr(value, "contents") and hasattr(value, "_type_"):
+            elif hasattr(type_, "contents") and hasattr(type_, "_type_"):
                 # pointer
                 try:
                     if not hasattr(type_, "as_dict"):
-- 
2.43.0


From cf8f8470dcc8ed0ac61994c7abb7e9c0f3b7c1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:35 +0000
Subject: [PATCH 44/60] fix: a member named self is a keyword of the
 constructor

---
 ctypeslib/data/structure_type.tpl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ctypeslib/data/structure_type.tpl b/ctypeslib/data/structure_type.tpl
index 20a3961..0f99cca 100644
--- a/ctypeslib/data/structure_type.tpl
+++ b/ctypeslib/data/structure_type.tpl
@@ -42,7 +42,7 @@ class AsDictMixin:
 
 class Structure(ctypes.Structure, AsDictMixin):
 
-    def __init__(self, *args, **kwds):
+    def __init__(self, /, *args, **kwds):
         # We don't want to use positional arguments fill PADDING_* fields
 
         args = dict(zip(self.__class__._field_names_(), args))
-- 
2.43.0


From 0df282a68604a1bd07f630c8b103598dad9b3a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:02 +0000
Subject: [PATCH 45/60] fix: file names with quotes, backslashes or line ends
 in comments and docstrings

---
 ctypeslib/clang2py.py              |  3 ++-
 ctypeslib/codegen/codegenerator.py | 17 ++++++++++++-----
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/ctypeslib/clang2py.py b/ctypeslib/clang2py.py
index 2909f0c..ea00883 100755
--- a/ctypeslib/clang2py.py
+++ b/ctypeslib/clang2py.py
@@ -340,7 +340,8 @@ def main(argv=None):
             # start codegen
             if cfg.generate_comments:
                 outputs.stream.write("# generated by 'clang2py'\n")
-                outputs.stream.write(f"# flags '{' '.join(argv[1:])}'\n")
+                flags = " ".join(argv[1:]).replace("\r", "\\r").replace("\n", "\\n")
+                outputs.stream.write(f"# flags '{flags}'\n")
 
             # Preload libraries
             # [Library(name, mode=RTLD_GLOBAL) for name in options.preload]
diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index f9cf7b5..6c07c6e 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -193,7 +193,7 @@ class Generator:
             log.info("Ignoring %s with no location", macro.name)
             return
         if self.generate_locations:
-            print("# %s:%s" % macro.location, file=self.stream)
+            print("# %s:%s" % self._location(macro), file=self.stream)
         if self.generate_comments:
             self.print_comment(macro)
 
@@ -730,7 +730,7 @@ class Generator:
         if len(fields) > 0:
             print("%s_fields_ = [" % prefix, file=self.stream)
             if self.generate_locations and body.struct.location:
-                print("    # %s %s" % body.struct.location, file=self.stream)
+                print("    # %s %s" % self._location(body.struct), file=self.stream)
             for f in fields:
                 fieldname = unnamed_fields.get(f, f.name)
                 type_name = self.type_name(f.type)
@@ -880,7 +880,7 @@ class Generator:
         argnames = [a or "p%d" % (i + 1) for i, a in enumerate(func.iterArgNames())]
 
         if self.generate_locations and func.location:
-            print("# %s %s" % func.location, file=self.stream)
+            print("# %s %s" % self._location(func), file=self.stream)
         # Generate the function decl code
         print("try:", file=self.stream)
         print("    %s = %s.%s" % (func.name, libname, func.name), file=self.stream)
@@ -907,7 +907,8 @@ class Generator:
                 '    {file}:{line}"""'.format(
                     funcname=func.name,
                     args=", ".join(["%s %s" % i for i in argsAndTypes]),
-                    file=func.location[0],
+                    # inside of a string literal
+                    file=func.location[0].replace("\\", "\\\\").replace('"', '\\"'),
                     line=func.location[1],
                     ret=typeString(func.returns),
                 ),
@@ -940,7 +941,7 @@ class Generator:
             return
         # verbose output with location.
         if self.generate_locations and item.location:
-            print("# %s:%d" % item.location, file=self.stream)
+            print("# %s:%d" % self._location(item), file=self.stream)
         if self.generate_comments:
             self.print_comment(item)
         log.debug("generate %s, %s", item.__class__.__name__, item.name)
@@ -952,6 +953,12 @@ class Generator:
         mth(item, *args)
         return
 
+    @staticmethod
+    def _location(item):
+        """File and line of an item, for a comment. A file name can have line ends."""
+        filename, line = item.location
+        return filename.replace("\r", "\\r").replace("\n", "\\n"), line
+
     def print_comment(self, item):
         if item.comment is None:
             return
-- 
2.43.0


From 05ce4b6c48fe68b0809887f29908430dfd8333ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:06 +0000
Subject: [PATCH 46/60] fix: unnamed enumerations of a file that is only
 included

---
 ctypeslib/codegen/cursorhandler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 922ad33..0cabd6b 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -246,6 +246,9 @@ class CursorHandler(ClangHandler):
             raise TypeError(
                 'Bad TYPEREF parsing in TYPEDEF_DECL: %s' %
                 _type.spelling)
+        # an unnamed enumeration, of another file, has the name of its typedef
+        if isinstance(p_type, typedesc.Enumeration) and p_type.name == name:
+            return p_type
         # register the type
         obj = self.register(name, typedesc.Typedef(name, p_type))
         self.set_location(obj, cursor)
-- 
2.43.0


From 578006c282cbfeaebf87cac09616a1a30f454bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:36 +0000
Subject: [PATCH 47/60] fix: declarations named like keywords of Python broke
 the import

---
 ctypeslib/codegen/codegenerator.py | 38 ++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 12 deletions(-)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index 6c07c6e..dcaadef 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -120,6 +120,13 @@ class Generator:
         headers = headers.replace("__LONGDOUBLE_SIZE__", str(longdouble_size))
         print(headers, file=self.imports)
 
+    @staticmethod
+    def python_name(name):
+        """An expression to refer or assign to a name, which can be a keyword of Python."""
+        if keyword.iskeyword(name):
+            return "globals()[%r]" % name
+        return name
+
     def type_name(self, t, generate=True):
         """
         Returns a string containing an expression that can be used to
@@ -160,7 +167,7 @@ class Generator:
         # elif isinstance(t, typedesc.Structure):
         # elif isinstance(t, typedesc.Typedef):
         # elif isinstance(t, typedesc.Union):
-        return t.name
+        return self.python_name(t.name)
         # All typedesc typedefs should be handled
         # raise TypeError('This typedesc should be handled %s'%(t))
 
@@ -292,8 +299,8 @@ class Generator:
             print("%s = %s" % (name, self.type_name(tp.typ)), file=self.stream)
 
             if isinstance(tp.typ, typedesc.Enumeration):
-                print("%s__enumvalues = %s__enumvalues" % (name, self.type_name(tp.typ)), file=self.stream)
-                self.names.append("%s__enumvalues" % name)
+                print("%s__enumvalues = %s__enumvalues" % (tp.name, tp.typ.name), file=self.stream)
+                self.names.append("%s__enumvalues" % tp.name)
 
         self.names.append(tp.name)
         self._typedefs += 1
@@ -361,7 +368,8 @@ class Generator:
             self._generate(tp.typ)
             # calling convention does not matter for in_dll...
             libname = self.get_sharedlib(dll_library, "cdecl")
-            print("%s = (%s).in_dll(%s, '%s')" % (tp.name, self.type_name(tp.typ), libname, tp.name), file=self.stream)
+            name = self.python_name(tp.name)
+            print("%s = (%s).in_dll(%s, '%s')" % (name, self.type_name(tp.typ), libname, tp.name), file=self.stream)
             self.names.append(tp.name)
             # wtypes.h contains IID_IProcessInitControl, for example
             return
@@ -378,7 +386,7 @@ class Generator:
         if isinstance(tp.init, typedesc.FunctionType):
             self._generate(tp.init)
             _args = [x for x in tp.typ.iterArgNames()]
-            print("%s = %s # args: %s" % (tp.name, self.type_name(tp.init), _args), file=self.stream)
+            print("%s = %s # args: %s" % (self.python_name(tp.name), self.type_name(tp.init), _args), file=self.stream)
             self.names.append(tp.name)
             return
         elif isinstance(tp.typ, typedesc.PointerType) or isinstance(tp.typ, typedesc.ArrayType):
@@ -447,7 +455,8 @@ class Generator:
         #
         # print it out
         init_value = util.python_numbers(init_value)
-        print("%s = %s # Variable %s" % (tp.name, init_value, self.type_name(tp.typ, False)), file=self.stream)
+        name = self.python_name(tp.name)
+        print("%s = %s # Variable %s" % (name, init_value, self.type_name(tp.typ, False)), file=self.stream)
         #
         self.names.append(tp.name)
 
@@ -456,7 +465,7 @@ class Generator:
     def EnumValue(self, tp):
         # FIXME should be in parser
         value = int(tp.value)
-        print("%s = %d" % (tp.name, value), file=self.stream)
+        print("%s = %d" % (self.python_name(tp.name), value), file=self.stream)
         self.names.append(tp.name)
         self._enumvalues += 1
 
@@ -512,7 +521,7 @@ class Generator:
             else:
                 enum_ctype = 'ctypes.c_int' if has_negative else 'ctypes.c_uint'
 
-            print("%s = %s # enum" % (tp.name, enum_ctype), file=self.stream)
+            print("%s = %s # enum" % (self.python_name(tp.name), enum_ctype), file=self.stream)
             self.names.append(tp.name)
         self._enumtypes += 1
 
@@ -882,12 +891,16 @@ class Generator:
         if self.generate_locations and func.location:
             print("# %s %s" % self._location(func), file=self.stream)
         # Generate the function decl code
+        name = self.python_name(func.name)
         print("try:", file=self.stream)
-        print("    %s = %s.%s" % (func.name, libname, func.name), file=self.stream)
-        print("    %s.restype = %s" % (func.name, self.type_name(func.returns)), file=self.stream)
+        if name == func.name:
+            print("    %s = %s.%s" % (name, libname, name), file=self.stream)
+        else:
+            print("    %s = %s.__getattr__(%r)" % (name, libname, func.name), file=self.stream)
+        print("    %s.restype = %s" % (name, self.type_name(func.returns)), file=self.stream)
         if self.generate_comments:
             print("# %s(%s)" % (func.name, ", ".join(argnames)), file=self.stream)
-        print("    %s.argtypes = [%s]" % (func.name, ", ".join(args)), file=self.stream)
+        print("    %s.argtypes = [%s]" % (name, ", ".join(args)), file=self.stream)
         print("except AttributeError:", file=self.stream)
         print("    pass", file=self.stream)
 
@@ -903,8 +916,9 @@ class Generator:
 
             argsAndTypes = zip([typeString(t) for t in func.iterArgTypes()], argnames)
             print(
-                '{funcname}.__doc__ = """{ret} {funcname}({args})\n'
+                '{name}.__doc__ = """{ret} {funcname}({args})\n'
                 '    {file}:{line}"""'.format(
+                    name=name,
                     funcname=func.name,
                     args=", ".join(["%s %s" % i for i in argsAndTypes]),
                     # inside of a string literal
-- 
2.43.0


From f9c5422b0e14def015dcd10a441092fd0c36dd91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:54 +0000
Subject: [PATCH 48/60] fix: declarations named like builtin functions of
 Python broke the helpers of records

---
 ctypeslib/data/pointer_type.tpl   |  5 ++--
 ctypeslib/data/structure_type.tpl | 40 ++++++++++++++++---------------
 2 files changed, 24 insertions(+), 21 deletions(-)

diff --git a/ctypeslib/data/pointer_type.tpl b/ctypeslib/data/pointer_type.tpl
index 558eecf..30e5840 100644
--- a/ctypeslib/data/pointer_type.tpl
+++ b/ctypeslib/data/pointer_type.tpl
@@ -4,6 +4,7 @@ if ctypes.sizeof(ctypes.c_void_p) == __POINTER_SIZE__:
 else:
     class IncorrectWordSizeError(TypeError):
         pass
+    import builtins as _builtins
     # required to access _ctypes
     import _ctypes
     # Emulate a pointer class using the approriate c_int32/c_int64 type
@@ -17,7 +18,7 @@ else:
         fake_ptr_base_type = ctypes.__REPLACEMENT_TYPE__
         # specific case for c_void_p
         if pointee is None: # VOID pointer type. c_void_p.
-            pointee = type(None) # ctypes.c_void_p # ctypes.c_ulong
+            pointee = _builtins.type(None) # ctypes.c_void_p # ctypes.c_ulong
             clsname = 'c_void'
         else:
             clsname = pointee.__name__
@@ -35,6 +36,6 @@ else:
                 raise IncorrectWordSizeError('This is not a ctypes pointer.')
             def __init__(self, **args):
                 raise IncorrectWordSizeError('This is not a ctypes pointer. It is not instanciable.')
-        _class = type('LP_%d_%s'%(__POINTER_SIZE__, clsname), (_T,),{})
+        _class = _builtins.type('LP_%d_%s'%(__POINTER_SIZE__, clsname), (_T,),{})
         ctypes._pointer_t_type_cache[clsname] = _class
         return _class
diff --git a/ctypeslib/data/structure_type.tpl b/ctypeslib/data/structure_type.tpl
index 0f99cca..a28e321 100644
--- a/ctypeslib/data/structure_type.tpl
+++ b/ctypeslib/data/structure_type.tpl
@@ -1,11 +1,13 @@
+import builtins as _builtins
+
 class AsDictMixin:
     @classmethod
     def as_dict(cls, self):
         result = {}
-        if not isinstance(self, AsDictMixin):
+        if not _builtins.isinstance(self, AsDictMixin):
             # not a structure, assume it's already a python object
             return self
-        if not hasattr(cls, "_fields_"):
+        if not _builtins.hasattr(cls, "_fields_"):
             return result
         # sys.version_info >= (3, 5)
         # for (field, *_) in cls._fields_:  # noqa
@@ -13,27 +15,27 @@ class AsDictMixin:
             field = field_tuple[0]
             if field.startswith('PADDING_'):
                 continue
-            value = getattr(self, field)
-            type_ = type(value)
-            if hasattr(value, "_length_") and hasattr(value, "_type_"):
+            value = _builtins.getattr(self, field)
+            type_ = _builtins.type(value)
+            if _builtins.hasattr(value, "_length_") and _builtins.hasattr(value, "_type_"):
                 # array
                 type_ = type_._type_
-                if hasattr(type_, 'as_dict'):
+                if _builtins.hasattr(type_, 'as_dict'):
                     value = [type_.as_dict(v) for v in value]
                 else:
                     value = [i for i in value]
-            elif hasattr(type_, "contents") and hasattr(type_, "_type_"):
+            elif _builtins.hasattr(type_, "contents") and _builtins.hasattr(type_, "_type_"):
                 # pointer
                 try:
-                    if not hasattr(type_, "as_dict"):
+                    if not _builtins.hasattr(type_, "as_dict"):
                         value = value.contents
                     else:
                         type_ = type_._type_
                         value = type_.as_dict(value.contents)
-                except ValueError:
+                except _builtins.ValueError:
                     # nullptr
                     value = None
-            elif isinstance(value, AsDictMixin):
+            elif _builtins.isinstance(value, AsDictMixin):
                 # other structure
                 value = type_.as_dict(value)
             result[field] = value
@@ -45,13 +47,13 @@ class Structure(ctypes.Structure, AsDictMixin):
     def __init__(self, /, *args, **kwds):
         # We don't want to use positional arguments fill PADDING_* fields
 
-        args = dict(zip(self.__class__._field_names_(), args))
+        args = _builtins.dict(_builtins.zip(self.__class__._field_names_(), args))
         args.update(kwds)
-        super(Structure, self).__init__(**args)
+        _builtins.super(__class__, self).__init__(**args)
 
     @classmethod
     def _field_names_(cls):
-        if hasattr(cls, '_fields_'):
+        if _builtins.hasattr(cls, '_fields_'):
             return (f[0] for f in cls._fields_ if not f[0].startswith('PADDING_'))
         else:
             return ()
@@ -67,9 +69,9 @@ class Structure(ctypes.Structure, AsDictMixin):
     def bind(cls, bound_fields):
         fields = {}
         # the dictionary of the caller is left as it is
-        bound_fields = dict(bound_fields)
+        bound_fields = _builtins.dict(bound_fields)
         for name, type_ in (f[:2] for f in cls._fields_):
-            if hasattr(type_, "restype"):
+            if _builtins.hasattr(type_, "restype"):
                 if name in bound_fields:
                     if bound_fields[name] is None:
                         fields[name] = type_()
@@ -84,12 +86,12 @@ class Structure(ctypes.Structure, AsDictMixin):
                     # default callback implementation (does nothing)
                     try:
                         default_ = type_(0).restype().value
-                    except (TypeError, AttributeError):
+                    except (_builtins.TypeError, _builtins.AttributeError):
                         default_ = None
                     try:
                         fields[name] = type_((
                             lambda default_: lambda *args: default_)(default_))
-                    except TypeError:
+                    except _builtins.TypeError:
                         # ctypes has no callback with this signature
                         fields[name] = type_()
             else:
@@ -97,8 +99,8 @@ class Structure(ctypes.Structure, AsDictMixin):
                 if name in bound_fields:
                     fields[name] = bound_fields[name]
                     del bound_fields[name]
-        if len(bound_fields) != 0:
-            raise ValueError(
+        if _builtins.len(bound_fields) != 0:
+            raise _builtins.ValueError(
                 "Cannot bind the following unknown callback(s) {}.{}".format(
                     cls.__name__, bound_fields.keys()
             ))
-- 
2.43.0


From 9d50bf5fee11e53d14a435525a6389e007806961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:31 +0000
Subject: [PATCH 49/60] fix: initial values in the arguments of macros, and
 literals that go on on the next line

---
 ctypeslib/codegen/cursorhandler.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 0cabd6b..e355667 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -375,8 +375,11 @@ class CursorHandler(ClangHandler):
             return value
         constant = util.evaluate(cursor)
         if value == []:
-            # FIXME #77, there is no token for the builtin macros
-            return value
+            # there are no tokens for a literal in the argument of a macro
+            last = list(cursor.get_tokens())[-1:]
+            if last and last[0].kind == TokenKind.IDENTIFIER:
+                # FIXME #77, nor for the builtin macros
+                return value
         if constant is None or _ctype.kind in (TypeKind.INT128, TypeKind.UINT128):
             return value
         if isinstance(value, str):
@@ -556,7 +559,7 @@ class CursorHandler(ClangHandler):
         log.debug('literal has %d tokens.[ %s ]', len(tokens), ' '.join([str(t.spelling) for t in tokens]))
         if len(tokens) == 1 and cursor.kind == CursorKind.STRING_LITERAL:  # noqa
             # use a shortcut that works for unicode
-            value = tokens[0].spelling
+            value = tokens[0].spelling.replace("\\\n", "")
             return self._unescape(cursor, value, self._clean_string_literal(cursor, value))
         elif cursor.kind == CursorKind.STRING_LITERAL:  # noqa
             # use a shortcut - does not work on unicode var_decl
@@ -566,7 +569,8 @@ class CursorHandler(ClangHandler):
         # code.interact(local=locals())
         log.debug('cursor.type:%s', cursor.type.kind.name)
         for i, token in enumerate(tokens):
-            value = token.spelling
+            # a token can go on on the next line
+            value = token.spelling.replace("\\\n", "")
             log.debug('token:%s tk.kd:%11s tk.cursor.kd:%15s cursor.kd:%15s',
                       token.spelling, token.kind.name, token.cursor.kind.name,
                       cursor.kind.name)
@@ -624,8 +628,6 @@ class CursorHandler(ClangHandler):
                     value = self.get_registered(value).body
                 # already cleaned value = self._clean_string_literal(token.cursor, value)
             elif token.cursor.kind == CursorKind.MACRO_DEFINITION:  # noqa
-                # a token can go on on the next line
-                value = value.replace("\\\n", "")
                 if i == 0:
                     # ignore, macro name
                     pass
-- 
2.43.0


From 1bb45de47e81c4b9b92c9975c4cf4acb89dedd95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:25 +0000
Subject: [PATCH 50/60] fix: initial values that are macros of the command line

int v = N; with -DN=3 (or with the macro in a file of -include) had the value
[], as there are no tokens for the literal.
---
 ctypeslib/codegen/cursorhandler.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index e355667..f45cc6e 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -375,9 +375,10 @@ class CursorHandler(ClangHandler):
             return value
         constant = util.evaluate(cursor)
         if value == []:
-            # there are no tokens for a literal in the argument of a macro
+            # there are no tokens for a literal in the argument of a macro,
+            # or in a macro that is defined by an option
             last = list(cursor.get_tokens())[-1:]
-            if last and last[0].kind == TokenKind.IDENTIFIER:
+            if last and last[0].kind == TokenKind.IDENTIFIER and last[0].spelling.startswith('__'):
                 # FIXME #77, nor for the builtin macros
                 return value
         if constant is None or _ctype.kind in (TypeKind.INT128, TypeKind.UINT128):
-- 
2.43.0


From bf533e24d365ffb5d33d8548d7830c494398692d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:01 +0000
Subject: [PATCH 51/60] fix: sources that are not in UTF-8

The strings, characters, macros and comments of a source in Latin-1, which the
compiler accepts, raised UnicodeDecodeError.
---
 ctypeslib/codegen/cursorhandler.py | 10 +++++-----
 ctypeslib/codegen/handler.py       |  5 ++++-
 ctypeslib/codegen/util.py          | 12 ++++++++++++
 3 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index f45cc6e..82a9fca 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -557,10 +557,10 @@ class CursorHandler(ClangHandler):
             # value = clang.cindex.conf.lib.clang_EvalResult_getAsInt(evaluated)
             # clang.cindex.conf.lib.clang_EvalResult_dispose(evaluated)
 
-        log.debug('literal has %d tokens.[ %s ]', len(tokens), ' '.join([str(t.spelling) for t in tokens]))
+        log.debug('literal has %d tokens.[ %s ]', len(tokens), ' '.join([util.token_spelling(t) for t in tokens]))
         if len(tokens) == 1 and cursor.kind == CursorKind.STRING_LITERAL:  # noqa
             # use a shortcut that works for unicode
-            value = tokens[0].spelling.replace("\\\n", "")
+            value = util.token_spelling(tokens[0]).replace("\\\n", "")
             return self._unescape(cursor, value, self._clean_string_literal(cursor, value))
         elif cursor.kind == CursorKind.STRING_LITERAL:  # noqa
             # use a shortcut - does not work on unicode var_decl
@@ -571,9 +571,9 @@ class CursorHandler(ClangHandler):
         log.debug('cursor.type:%s', cursor.type.kind.name)
         for i, token in enumerate(tokens):
             # a token can go on on the next line
-            value = token.spelling.replace("\\\n", "")
+            value = util.token_spelling(token).replace("\\\n", "")
             log.debug('token:%s tk.kd:%11s tk.cursor.kd:%15s cursor.kd:%15s',
-                      token.spelling, token.kind.name, token.cursor.kind.name,
+                      value, token.kind.name, token.cursor.kind.name,
                       cursor.kind.name)
             # Punctuation is probably not part of the init_value,
             # but only in specific case: ';' endl, or part of list_expr
@@ -1258,7 +1258,7 @@ class CursorHandler(ClangHandler):
         # macro comment maybe in tokens. Not in cursor.raw_comment
         for t in cursor.get_tokens():
             if t.kind == TokenKind.COMMENT:  ## noqa
-                comment = t.spelling
+                comment = util.token_spelling(t)
         # special case. internal __null or __thread
         # FIXME, there are probable a lot of others.
         # why not Cursor.kind GNU_NULL_EXPR child instead of a token ?
diff --git a/ctypeslib/codegen/handler.py b/ctypeslib/codegen/handler.py
index 0a0705b..afe12c8 100644
--- a/ctypeslib/codegen/handler.py
+++ b/ctypeslib/codegen/handler.py
@@ -72,7 +72,10 @@ class ClangHandler(object):
     def set_comment(self, obj, cursor):
         """ If a comment is available, add it to the typedesc."""
         if isinstance(obj, typedesc.T):
-            obj.comment = cursor.brief_comment
+            try:
+                obj.comment = cursor.brief_comment
+            except UnicodeDecodeError:
+                log.warning("the comment of %s is not in UTF-8", cursor.spelling)
         return
 
     def make_python_name(self, name):
diff --git a/ctypeslib/codegen/util.py b/ctypeslib/codegen/util.py
index ef782a2..6b3a543 100644
--- a/ctypeslib/codegen/util.py
+++ b/ctypeslib/codegen/util.py
@@ -269,6 +269,18 @@ _ESCAPE = re.compile(r"\\(?:([0-7]{1,3})|x([0-9a-fA-F]+)|u([0-9a-fA-F]{4})|U([0-
 _ESCAPED = {"n": "\n", "t": "\t", "r": "\r", "a": "\a", "b": "\b", "f": "\f", "v": "\v", "e": "\033", "E": "\033", "0": "\0"}
 
 
+def token_spelling(token):
+    """Returns the spelling of a token, with escapes in place of the bytes that are not UTF-8"""
+    try:
+        return token.spelling
+    except UnicodeDecodeError:
+        start, end = token.extent.start, token.extent.end
+        with open(start.file.name, "rb") as source:
+            source.seek(start.offset)
+            text = source.read(end.offset - start.offset).decode("utf-8", "surrogateescape")
+        return re.sub("[\udc80-\udcff]", lambda match: "\\%03o" % (ord(match.group()) & 255), text)
+
+
 def unescape(text, wide=False):
     """Returns the text of a C string literal with its escapes replaced.
 
-- 
2.43.0


From 2947e560b8eb744683c0b1057ac906d48cc6175d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:30 +0000
Subject: [PATCH 52/60] fix: declarations with an assembler name

int f(int) __asm__("g") is the function g of the library, but was bound to its
function f, if it has one; variables likewise.
---
 ctypeslib/codegen/codegenerator.py | 10 +++++-----
 ctypeslib/codegen/cursorhandler.py |  9 +++++++++
 ctypeslib/codegen/typedesc.py      |  4 ++++
 3 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index dcaadef..d13b14e 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -369,7 +369,7 @@ class Generator:
             # calling convention does not matter for in_dll...
             libname = self.get_sharedlib(dll_library, "cdecl")
             name = self.python_name(tp.name)
-            print("%s = (%s).in_dll(%s, '%s')" % (name, self.type_name(tp.typ), libname, tp.name), file=self.stream)
+            print("%s = (%s).in_dll(%s, '%s')" % (name, self.type_name(tp.typ), libname, tp.symbol), file=self.stream)
             self.names.append(tp.name)
             # wtypes.h contains IID_IProcessInitControl, for example
             return
@@ -767,8 +767,8 @@ class Generator:
     def find_library_with_func(self, func):
         if hasattr(func, "dllname"):
             return func.dllname
-        name = func.name
-        if os.name == "posix" and sys.platform == "darwin":
+        name = func.symbol
+        if os.name == "posix" and sys.platform == "darwin" and name == func.name:
             name = "_%s" % name
         for dll in self.searched_dlls:
             try:
@@ -893,10 +893,10 @@ class Generator:
         # Generate the function decl code
         name = self.python_name(func.name)
         print("try:", file=self.stream)
-        if name == func.name:
+        if name == func.symbol:
             print("    %s = %s.%s" % (name, libname, name), file=self.stream)
         else:
-            print("    %s = %s.__getattr__(%r)" % (name, libname, func.name), file=self.stream)
+            print("    %s = %s.__getattr__(%r)" % (name, libname, func.symbol), file=self.stream)
         print("    %s.restype = %s" % (name, self.type_name(func.returns)), file=self.stream)
         if self.generate_comments:
             print("# %s(%s)" % (func.name, ", ".join(argnames)), file=self.stream)
diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 82a9fca..69fd6c4 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -190,11 +190,19 @@ class CursorHandler(ClangHandler):
             #    code.interact(local=locals())
             obj.add_argument(arg_obj)
         # code.interact(local=locals())
+        self._set_symbol(obj, cursor)
         self.register(name, obj)
         self.set_location(obj, cursor)
         self.set_comment(obj, cursor)
         return obj
 
+    @staticmethod
+    def _set_symbol(obj, cursor):
+        """A declaration can give its symbol another name, with __asm__("name")"""
+        for child in cursor.get_children():
+            if child.kind == CursorKind.ASM_LABEL_ATTR:
+                obj.symbol = child.spelling
+
     @log_entity
     def PARM_DECL(self, cursor):  # noqa
         """Handles parameter declarations."""
@@ -278,6 +286,7 @@ class CursorHandler(ClangHandler):
         log.debug('VAR_DECL: location:%s', getattr(cursor, 'location'))
         obj = self.register(name, typedesc.Variable(name, _type, init_value, extern))
         obj.defined = cursor.is_definition()
+        self._set_symbol(obj, cursor)
         self.set_location(obj, cursor)
         self.set_comment(obj, cursor)
         return True
diff --git a/ctypeslib/codegen/typedesc.py b/ctypeslib/codegen/typedesc.py
index 47c1687..41f44bc 100644
--- a/ctypeslib/codegen/typedesc.py
+++ b/ctypeslib/codegen/typedesc.py
@@ -90,6 +90,8 @@ class Function(_HasArgs):
     def __init__(self, name, returns, attributes, extern):
         _HasArgs.__init__(self)
         self.name = name
+        # the name in the libraries
+        self.symbol = name
         self.returns = returns
         self.attributes = attributes  # dllimport, __stdcall__, __cdecl__
         self.extern = extern
@@ -273,6 +275,8 @@ class Variable(T):
 
     def __init__(self, name, typ, init=None, extern=False):
         self.name = name
+        # the name in the libraries
+        self.symbol = name
         self.typ = typ
         self.init = init
         self.extern = extern
-- 
2.43.0


From a86f49782e5b69a45f329ab7d7c82aae3bbed300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:50:11 +0000
Subject: [PATCH 53/60] fix: initial values that are calls of builtin functions

double v = INFINITY; had the value 0.0.
---
 ctypeslib/codegen/cursorhandler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 69fd6c4..29f74a1 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -364,8 +364,8 @@ class CursorHandler(ClangHandler):
             if _type.size < len(init_value):
                 _type.size = len(init_value)
         elif init_value == []:
-            # catch case.
-            init_value = None
+            # catch case: not initialized, or with the call of a builtin function
+            init_value = self._constant_value(cursor, _ctype, None)
         else:
             log.debug('VAR_DECL: default init_value: %s', init_value)
             if len(init_value) > 0:
-- 
2.43.0


From 3a47288a3f41c1ff351849bb9e361a2e9f88b671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:19 +0000
Subject: [PATCH 54/60] fix: pointers of the target when a flag like -m32
 changes their size

---
 ctypeslib/codegen/codegenerator.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index d13b14e..e09662b 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -71,13 +71,13 @@ class Generator:
         If a type is a pointer, a platform-independent POINTER_T type needs
         to be in the generated code.
         """
-        # only enable if cross arch mode is on
-        if not self.cross_arch_code_generation:
+        # only enable if cross arch mode is on, or if a flag like -m32 changes the size of a pointer
+        word_size = self.parser.get_ctypes_size(TypeKind.POINTER) // 8
+        if not self.cross_arch_code_generation and word_size == ctypes.sizeof(ctypes.c_void_p):
             return "ctypes.POINTER"
         self.enable_pointer_type = lambda: "POINTER_T"
         headers = pkgutil.get_data("ctypeslib", "data/pointer_type.tpl").decode()
         # a LONG does not always have the same sizeof than a pointer.
-        word_size = self.parser.get_ctypes_size(TypeKind.POINTER) // 8
         word_type = "c_uint%d" % (word_size * 8)
         # pylint: disable=protected-access
         word_char = getattr(ctypes, word_type)._type_
-- 
2.43.0


From fc31c66887bb1f2e658f4d83345088c9690fb222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:05 +0000
Subject: [PATCH 55/60] fix: variables that are pointers of another size than
 on the host

---
 ctypeslib/codegen/codegenerator.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index e09662b..e2ea642 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -354,6 +354,15 @@ class Generator:
     def CvQualifiedType(self, tp):
         self._generate(tp.typ)
 
+    def null_value(self, tp):
+        """An expression for a null pointer, or an array, of this type."""
+        name = self.type_name(tp, False)
+        word_size = self.parser.get_ctypes_size(TypeKind.POINTER) // 8
+        if isinstance(tp, typedesc.PointerType) and word_size != ctypes.sizeof(ctypes.c_void_p):
+            # where it is not a ctypes pointer, the type cannot be called
+            return "%s.from_buffer_copy(b'\\0' * %d)" % (name, word_size)
+        return "(%s)()" % name
+
     _variables = 0
     _notfound_variables = 0
 
@@ -401,7 +410,7 @@ class Generator:
             elif isinstance(tp.typ, typedesc.PointerType) and type(tp.init) is not int:
                 # not initialized, or with an address that has no meaning here
                 self._generate(tp.typ.typ)
-                init_value = self.type_name(tp.typ, False) + "()"
+                init_value = self.null_value(tp.typ)
             elif isinstance(tp.typ.typ, typedesc.FundamentalType) and isinstance(tp.init, list) and (
                 "int" in tp.typ.typ.name or "long" in tp.typ.typ.name
             ):
@@ -415,7 +424,7 @@ class Generator:
                 # init_value = "(%s)(%s)"%(init_value_type,init_value)
             elif isinstance(tp.typ.typ, typedesc.Structure):
                 self._generate(tp.typ.typ)
-                init_value = "(%s)()" % self.type_name(tp.typ, False)
+                init_value = self.null_value(tp.typ)
             else:
                 if tp.init is not None:
                     init_value = tp.init
-- 
2.43.0


From 5484ec62a04cd914b8cc484704730c26679ee5c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:32 +0000
Subject: [PATCH 56/60] fix: pointers to functions have the size of the
 pointers of the target

---
 ctypeslib/codegen/codegenerator.py |  3 +++
 ctypeslib/data/pointer_type.tpl    | 11 ++++++++---
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index e2ea642..fbfd0cd 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -152,6 +152,9 @@ class Generator:
             # else:
             return "%s * %s" % (self.type_name(t.typ, generate), t.size)
         if isinstance(t, typedesc.PointerType) and isinstance(t.typ, typedesc.FunctionType):
+            if self.enable_pointer_type() == "POINTER_T":
+                # the prototype has the size of a pointer of the host
+                return "FUNCTION_T(%s)" % self.type_name(t.typ, generate)
             return self.type_name(t.typ, generate)
         if isinstance(t, typedesc.PointerType):
             pointer_class = self.enable_pointer_type()
diff --git a/ctypeslib/data/pointer_type.tpl b/ctypeslib/data/pointer_type.tpl
index 30e5840..799ba39 100644
--- a/ctypeslib/data/pointer_type.tpl
+++ b/ctypeslib/data/pointer_type.tpl
@@ -1,6 +1,9 @@
 # if local wordsize is same as target, keep ctypes pointer function.
 if ctypes.sizeof(ctypes.c_void_p) == __POINTER_SIZE__:
     POINTER_T = ctypes.POINTER
+    # pointer to a function
+    def FUNCTION_T(prototype):
+        return prototype
 else:
     class IncorrectWordSizeError(TypeError):
         pass
@@ -22,8 +25,8 @@ else:
             clsname = 'c_void'
         else:
             clsname = pointee.__name__
-        if clsname in ctypes._pointer_t_type_cache:
-            return ctypes._pointer_t_type_cache[clsname]
+        if pointee in ctypes._pointer_t_type_cache:
+            return ctypes._pointer_t_type_cache[pointee]
         # make template
         class _T(_ctypes._SimpleCData,):
             _type_ = '__REPLACEMENT_TYPE_CHAR__'
@@ -37,5 +40,7 @@ else:
             def __init__(self, **args):
                 raise IncorrectWordSizeError('This is not a ctypes pointer. It is not instanciable.')
         _class = _builtins.type('LP_%d_%s'%(__POINTER_SIZE__, clsname), (_T,),{})
-        ctypes._pointer_t_type_cache[clsname] = _class
+        ctypes._pointer_t_type_cache[pointee] = _class
         return _class
+    # pointer to a function. It cannot be called either
+    FUNCTION_T = POINTER_T
-- 
2.43.0


From 98c2a3177b438996c33e2d1f7b3ddcd9050e6fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:31 +0000
Subject: [PATCH 57/60] fix: types of the modules given with -m are imported,
 not generated

---
 ctypeslib/codegen/codegenerator.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/ctypeslib/codegen/codegenerator.py b/ctypeslib/codegen/codegenerator.py
index fbfd0cd..487624e 100644
--- a/ctypeslib/codegen/codegenerator.py
+++ b/ctypeslib/codegen/codegenerator.py
@@ -961,10 +961,35 @@ class Generator:
 
     ########
 
+    def import_known(self, item):
+        """
+        Imports a type from one of the python modules that were asked for,
+        instead of generating it. Returns False if none has it.
+        """
+        if not isinstance(item, (typedesc.Structure, typedesc.Union, typedesc.Typedef)):
+            return False
+        if item.name not in self.known_symbols or keyword.iskeyword(item.name):
+            return False
+        module = self.known_symbols[item.name]
+        if item.name not in self.head_generated:
+            print("from %s import %s" % (module, item.name), file=self.imports)
+            self.names.append(item.name)
+            self.head_generated.add(item.name)
+        known = getattr(sys.modules.get(module), item.name, type)
+        if getattr(item, "members", None) and "_fields_" not in vars(known):
+            # a record that the module only declares
+            return False
+        self.body_generated.add(item.name)
+        self.done[item] = True
+        return True
+
     def _generate(self, item, *args):
         """ wraps execution of specific methods."""
         if item in self.done:
             return
+        # the head or the body of a record, or the item
+        if self.import_known(getattr(item, "struct", item)):
+            return
         # verbose output with location.
         if self.generate_locations and item.location:
             print("# %s:%d" % self._location(item), file=self.stream)
-- 
2.43.0


From 525265c51dfc25adeb23ebba5e6bff7f4c068439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:41 +0000
Subject: [PATCH 58/60] fix: expressions in macros had the value of python, for
 divisions, unsigned numbers and comparisons

---
 ctypeslib/codegen/cursorhandler.py | 25 +++++++++++++++++++++++++
 ctypeslib/codegen/typedesc.py      |  2 ++
 ctypeslib/codegen/util.py          | 12 ++++++++++++
 3 files changed, 39 insertions(+)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 29f74a1..0f3752c 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -1199,6 +1199,26 @@ class CursorHandler(ClangHandler):
     #############################
     # PREPROCESSING
 
+    def _macro_text(self, cursor):
+        """Returns the C text of the value of a macro, with the other macros in it replaced."""
+        text = []
+        for token in list(cursor.get_tokens())[1:]:
+            if token.kind == TokenKind.COMMENT or token.location not in cursor.extent:
+                continue
+            value = util.token_spelling(token)
+            if token.kind == TokenKind.IDENTIFIER and self.parser.is_registered(value):
+                value = getattr(self.get_registered(value), 'text', value)
+            text.append(value)
+        return ' '.join(text)
+
+    def _macro_constant(self, text):
+        """Returns the number that the text of a macro stands for in C, or None"""
+        translation_unit = util.get_tu('__typeof__(%s) constant = %s;' % (text, text), flags=self.parser.flags)
+        if any(_.severity > 2 for _ in translation_unit.diagnostics):
+            return None
+        cursor = util.get_cursor(translation_unit, 'constant')
+        return None if cursor is None else util.evaluate(cursor)
+
     @log_entity
     def MACRO_DEFINITION(self, cursor):
         """
@@ -1222,6 +1242,7 @@ class CursorHandler(ClangHandler):
         comment = None
         tokens = self._literal_handling(cursor)
         # Macro name is tokens[0]
+        text = self._macro_text(cursor)
         # get Macro value(s)
         value = True
         # args should be filled when () are in tokens,
@@ -1254,6 +1275,9 @@ class CursorHandler(ClangHandler):
                     value = list(tokens[1:])
                 else:
                     value = ''.join((str(_) for _ in tokens[1:]))
+                    constant = self._macro_constant(text)
+                    if constant is not None:
+                        value = util.c_expression(value, constant)
             elif len(tokens) > 2:
                 # #define key a b c
                 value = list(tokens[1:])
@@ -1275,6 +1299,7 @@ class CursorHandler(ClangHandler):
             value = None
         log.debug('MACRO: #define %s%s %s', name, args or '', value)
         obj = typedesc.Macro(name, args, value)
+        obj.text = text
         try:
             self.register(name, obj)
         except DuplicateDefinitionException:
diff --git a/ctypeslib/codegen/typedesc.py b/ctypeslib/codegen/typedesc.py
index 41f44bc..8b847e4 100644
--- a/ctypeslib/codegen/typedesc.py
+++ b/ctypeslib/codegen/typedesc.py
@@ -77,6 +77,8 @@ class Macro(T):
         self.name = name
         self.args = args
         self.body = body
+        # the C text of the body, with the other macros in it replaced
+        self.text = body
 
 
 class File(T):
diff --git a/ctypeslib/codegen/util.py b/ctypeslib/codegen/util.py
index 6b3a543..b209424 100644
--- a/ctypeslib/codegen/util.py
+++ b/ctypeslib/codegen/util.py
@@ -215,6 +215,18 @@ def is_python_value(text):
     return True
 
 
+def c_expression(text, constant):
+    """Returns the text of an expression, or its value in C if python would give another one, or none"""
+    if is_python_value(text):
+        try:
+            value = eval(text)
+        except (ArithmeticError, TypeError, ValueError):
+            value = None
+        if isinstance(value, (str, tuple)) or (type(value) is type(constant) and value == constant):
+            return text
+    return repr(constant)
+
+
 __all__ = [
     'get_cursor',
     'get_cursors',
-- 
2.43.0


From 8901e209016be29941e1f0c635f03fb8f79e030b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:51:01 +0000
Subject: [PATCH 59/60] fix: a library in CLANG_LIBRARY_PATH that is not
 libclang is skipped with a warning

---
 ctypeslib/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ctypeslib/__init__.py b/ctypeslib/__init__.py
index 7774a27..440a408 100644
--- a/ctypeslib/__init__.py
+++ b/ctypeslib/__init__.py
@@ -93,7 +93,8 @@ def __configure_clang_cindex():
                 cindex.Config.set_library_file(__library_path)
             # force-check that clang is configured properly
             clang_version()
-        except cindex.LibclangError:
+        except (cindex.LibclangError, AttributeError):
+            # not a library, or a library without the functions of clang
             warnings.warn(f"Could not configure clang with library_path={__library_path}", RuntimeWarning)
             continue
         return __library_path
-- 
2.43.0


From bc2f7c2ee0b9772b1a9a94ae838ad154247eda94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:09:37 +0000
Subject: [PATCH 60/60] fix: warnings about the value of a macro could take
 long, or be errors

---
 ctypeslib/codegen/cursorhandler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ctypeslib/codegen/cursorhandler.py b/ctypeslib/codegen/cursorhandler.py
index 0f3752c..a731905 100644
--- a/ctypeslib/codegen/cursorhandler.py
+++ b/ctypeslib/codegen/cursorhandler.py
@@ -1213,7 +1213,7 @@ class CursorHandler(ClangHandler):
 
     def _macro_constant(self, text):
         """Returns the number that the text of a macro stands for in C, or None"""
-        translation_unit = util.get_tu('__typeof__(%s) constant = %s;' % (text, text), flags=self.parser.flags)
+        translation_unit = util.get_tu('__typeof__(%s) constant = %s;' % (text, text), flags=list(self.parser.flags) + ['-w'])
         if any(_.severity > 2 for _ in translation_unit.diagnostics):
             return None
         cursor = util.get_cursor(translation_unit, 'constant')
-- 
2.43.0

