From 2d0b2d5655128ac66493b9030485f0fd04658668 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:42 +0000
Subject: [PATCH 01/76] fix: report a failed preprocessor run instead of
 parsing whatever output file is there

---
 pyverilog/vparser/preprocessor.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pyverilog/vparser/preprocessor.py b/pyverilog/vparser/preprocessor.py
index 4a45548..2152438 100644
--- a/pyverilog/vparser/preprocessor.py
+++ b/pyverilog/vparser/preprocessor.py
@@ -28,6 +28,10 @@ import tempfile
 import subprocess
 
 
+class PreprocessError(Exception):
+    pass
+
+
 class VerilogPreprocessor(object):
     def __init__(self, filelist, outputfile='pp.out', include=None, define=None):
 
@@ -83,12 +87,17 @@ class VerilogPreprocessor(object):
 
     def preprocess(self):
         cmd = self.iv + list(self.filelist)
-        subprocess.call(cmd)
+        returncode = subprocess.call(cmd)
 
         # Removing the temporary files that were created
         for temp_file_path in self.temp_files_paths:
             os.remove(temp_file_path)
 
+        # A failed run leaves no output, a partial one, or that of an earlier run
+        if returncode != 0:
+            raise PreprocessError("preprocessing failed with status %d: %s" %
+                                  (returncode, ' '.join(cmd)))
+
 
 def preprocess(
     filelist,
-- 
2.43.0


From 8d4ddff4aa1a281a863414592bbc4b1d01853119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:42 +0000
Subject: [PATCH 02/76] fix: remove temporary source files and the intermediate
 output when a step fails

---
 pyverilog/vparser/parser.py       | 14 +++++---
 pyverilog/vparser/preprocessor.py | 53 ++++++++++++++++++++-----------
 2 files changed, 43 insertions(+), 24 deletions(-)

diff --git a/pyverilog/vparser/parser.py b/pyverilog/vparser/parser.py
index 0de0264..813d692 100644
--- a/pyverilog/vparser/parser.py
+++ b/pyverilog/vparser/parser.py
@@ -21,7 +21,7 @@ import os
 import pathlib
 from ply.yacc import yacc
 
-from pyverilog.vparser.preprocessor import VerilogPreprocessor
+from pyverilog.vparser.preprocessor import VerilogPreprocessor, remove_if_exists
 from pyverilog.vparser.lexer import VerilogLexer
 from pyverilog.vparser.ast import *
 
@@ -2333,15 +2333,19 @@ class VerilogCodeParser(object):
                  ):
         self.preprocess_output = preprocess_output
         self.directives = ()
+        # The preprocessor goes last: it creates temporary files that a failure here would leave
+        self.parser = VerilogParser(outputdir=outputdir, debug=debug)
         self.preprocessor = VerilogPreprocessor(filelist, preprocess_output,
                                                 preprocess_include,
                                                 preprocess_define)
-        self.parser = VerilogParser(outputdir=outputdir, debug=debug)
 
     def preprocess(self):
-        self.preprocessor.preprocess()
-        text = open(self.preprocess_output).read()
-        os.remove(self.preprocess_output)
+        try:
+            self.preprocessor.preprocess()
+            with open(self.preprocess_output) as f:
+                text = f.read()
+        finally:
+            remove_if_exists(self.preprocess_output)
         return text
 
     def parse(self, preprocess_output='preprocess.output', debug=0):
diff --git a/pyverilog/vparser/preprocessor.py b/pyverilog/vparser/preprocessor.py
index 2152438..27ef2dc 100644
--- a/pyverilog/vparser/preprocessor.py
+++ b/pyverilog/vparser/preprocessor.py
@@ -28,6 +28,11 @@ import tempfile
 import subprocess
 
 
+def remove_if_exists(path):
+    if os.path.exists(path):
+        os.remove(path)
+
+
 class PreprocessError(Exception):
     pass
 
@@ -47,17 +52,20 @@ class VerilogPreprocessor(object):
         self.temp_files_paths = []
         self.filelist = []
 
-        for source in filelist:
-            # If `source` is verilog code in python strings
-            if not os.path.isfile(source):
-                temp_fd, temp_path = tempfile.mkstemp(prefix="pyverilog_temp_", suffix=".v")
-                with open(temp_fd, 'w') as f:
-                    f.write(source)
-
-                self.temp_files_paths.append(temp_path)
-
-            else: # else if it is normal verilog file path
-                self.filelist.append(source)
+        try:
+            for source in filelist:
+                # If `source` is verilog code in python strings
+                if not os.path.isfile(source):
+                    temp_fd, temp_path = tempfile.mkstemp(prefix="pyverilog_temp_", suffix=".v")
+                    self.temp_files_paths.append(temp_path)
+                    with open(temp_fd, 'w') as f:
+                        f.write(source)
+
+                else: # else if it is normal verilog file path
+                    self.filelist.append(source)
+        except BaseException:
+            self._remove_temp_files()
+            raise
 
         self.filelist += self.temp_files_paths
 
@@ -85,13 +93,17 @@ class VerilogPreprocessor(object):
         self.iv.append('-o')
         self.iv.append(outputfile)
 
-    def preprocess(self):
-        cmd = self.iv + list(self.filelist)
-        returncode = subprocess.call(cmd)
-
+    def _remove_temp_files(self):
         # Removing the temporary files that were created
         for temp_file_path in self.temp_files_paths:
-            os.remove(temp_file_path)
+            remove_if_exists(temp_file_path)
+
+    def preprocess(self):
+        cmd = self.iv + list(self.filelist)
+        try:
+            returncode = subprocess.call(cmd)
+        finally:
+            self._remove_temp_files()
 
         # A failed run leaves no output, a partial one, or that of an earlier run
         if returncode != 0:
@@ -106,7 +118,10 @@ def preprocess(
     define=None
 ):
     pre = VerilogPreprocessor(filelist, output, include, define)
-    pre.preprocess()
-    text = open(output).read()
-    os.remove(output)
+    try:
+        pre.preprocess()
+        with open(output) as f:
+            text = f.read()
+    finally:
+        remove_if_exists(output)
     return text
-- 
2.43.0


From e3cf13f4e157b8955997f35a3c1cf767a7fa899d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:55 +0000
Subject: [PATCH 03/76] fix: preprocess sources in the order given, and accept
 a single source

---
 pyverilog/vparser/preprocessor.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyverilog/vparser/preprocessor.py b/pyverilog/vparser/preprocessor.py
index 27ef2dc..317b6f5 100644
--- a/pyverilog/vparser/preprocessor.py
+++ b/pyverilog/vparser/preprocessor.py
@@ -40,7 +40,9 @@ class PreprocessError(Exception):
 class VerilogPreprocessor(object):
     def __init__(self, filelist, outputfile='pp.out', include=None, define=None):
 
-        if not isinstance(filelist, (tuple, list)):
+        if isinstance(filelist, str):
+            filelist = [filelist]
+        elif not isinstance(filelist, (tuple, list)):
             filelist = list(filelist)
 
         # Elements in `filelist` can either be raw Verilog files, or Verilog code
@@ -60,6 +62,7 @@ class VerilogPreprocessor(object):
                     self.temp_files_paths.append(temp_path)
                     with open(temp_fd, 'w') as f:
                         f.write(source)
+                    self.filelist.append(temp_path)
 
                 else: # else if it is normal verilog file path
                     self.filelist.append(source)
@@ -67,8 +70,6 @@ class VerilogPreprocessor(object):
             self._remove_temp_files()
             raise
 
-        self.filelist += self.temp_files_paths
-
         iverilog = os.environ.get('PYVERILOG_IVERILOG')
         if iverilog is None:
             iverilog = 'iverilog'
-- 
2.43.0


From 317dfe39bf51cd771f80398dfd612272add55328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:55 +0000
Subject: [PATCH 04/76] fix: give every code parser its own intermediate
 preprocessor output by default

---
 pyverilog/vparser/parser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyverilog/vparser/parser.py b/pyverilog/vparser/parser.py
index 813d692..6470f73 100644
--- a/pyverilog/vparser/parser.py
+++ b/pyverilog/vparser/parser.py
@@ -2325,12 +2325,15 @@ class ParseError(Exception):
 
 class VerilogCodeParser(object):
 
-    def __init__(self, filelist, preprocess_output='preprocess.output',
+    def __init__(self, filelist, preprocess_output=None,
                  preprocess_include=None,
                  preprocess_define=None,
                  outputdir=".",
                  debug=True
                  ):
+        if preprocess_output is None:
+            # Not shared: concurrent sessions would read each other's text
+            preprocess_output = 'preprocess.output.%d.%x' % (os.getpid(), id(self))
         self.preprocess_output = preprocess_output
         self.directives = ()
         # The preprocessor goes last: it creates temporary files that a failure here would leave
-- 
2.43.0


From 09282851ef73560d5d44f8216391cac7653f3ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:04 +0000
Subject: [PATCH 05/76] fix: a reused parser starts each text with its own
 directives, net type and line count

---
 pyverilog/vparser/lexer.py  | 6 ++++++
 pyverilog/vparser/parser.py | 1 +
 2 files changed, 7 insertions(+)

diff --git a/pyverilog/vparser/lexer.py b/pyverilog/vparser/lexer.py
index 8fe6628..dd2ce59 100644
--- a/pyverilog/vparser/lexer.py
+++ b/pyverilog/vparser/lexer.py
@@ -41,6 +41,12 @@ class VerilogLexer(object):
     def reset_lineno(self):
         self.lexer.lineno = 1
 
+    # Forget what an earlier text left behind
+    def reset(self):
+        self.directives = []
+        self.default_nettype = 'wire'
+        self.reset_lineno()
+
     def get_directives(self):
         return tuple(self.directives)
 
diff --git a/pyverilog/vparser/parser.py b/pyverilog/vparser/parser.py
index 6470f73..709c104 100644
--- a/pyverilog/vparser/parser.py
+++ b/pyverilog/vparser/parser.py
@@ -74,6 +74,7 @@ class VerilogParser(object):
 
     # Returns AST
     def parse(self, text, debug=0):
+        self.lexer.reset()
         return self.parser.parse(text, lexer=self.lexer, debug=debug)
 
     # --------------------------------------------------------------------------
-- 
2.43.0


From 5e696d37d118cd28f045b8c6e013ba7cdde23e52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:32 +0000
Subject: [PATCH 06/76] fix: indexed part selects [i +: w] and [i -: w] select
 w bits, not w + 1

---
 pyverilog/vparser/parser.py | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/pyverilog/vparser/parser.py b/pyverilog/vparser/parser.py
index 709c104..d219ab4 100644
--- a/pyverilog/vparser/parser.py
+++ b/pyverilog/vparser/parser.py
@@ -66,6 +66,16 @@ class VerilogParser(object):
         coord = self._coord(line, column)
         raise ParseError('%s: %s' % (coord, msg))
 
+    def _indexed_partselect(self, var, base, width, ascending, lineno):
+        # [base +: width] is [base + width - 1 : base],
+        # [base -: width] is [base : base - width + 1]
+        one = IntConst('1', lineno=lineno)
+        if ascending:
+            msb = Minus(Plus(base, width, lineno=lineno), one, lineno=lineno)
+            return Partselect(var, msb, base, lineno=lineno)
+        lsb = Plus(Minus(base, width, lineno=lineno), one, lineno=lineno)
+        return Partselect(var, base, lsb, lineno=lineno)
+
     def get_directives(self):
         return self.lexer.get_directives()
 
@@ -857,12 +867,12 @@ class VerilogParser(object):
 
     def p_lpartselect_lpointer_plus(self, p):
         'lpartselect : pointer LBRACKET expression PLUSCOLON expression RBRACKET'
-        p[0] = Partselect(p[1], p[3], Plus(p[3], p[5]), lineno=p.lineno(1))
+        p[0] = self._indexed_partselect(p[1], p[3], p[5], True, p.lineno(1))
         p.set_lineno(0, p.lineno(1))
 
     def p_lpartselect_lpointer_minus(self, p):
         'lpartselect : pointer LBRACKET expression MINUSCOLON expression RBRACKET'
-        p[0] = Partselect(p[1], p[3], Minus(p[3], p[5]), lineno=p.lineno(1))
+        p[0] = self._indexed_partselect(p[1], p[3], p[5], False, p.lineno(1))
         p.set_lineno(0, p.lineno(1))
 
     def p_lpartselect(self, p):
@@ -872,12 +882,12 @@ class VerilogParser(object):
 
     def p_lpartselect_plus(self, p):
         'lpartselect : identifier LBRACKET expression PLUSCOLON expression RBRACKET'
-        p[0] = Partselect(p[1], p[3], Plus(p[3], p[5]), lineno=p.lineno(1))
+        p[0] = self._indexed_partselect(p[1], p[3], p[5], True, p.lineno(1))
         p.set_lineno(0, p.lineno(1))
 
     def p_lpartselect_minus(self, p):
         'lpartselect : identifier LBRACKET expression MINUSCOLON expression RBRACKET'
-        p[0] = Partselect(p[1], p[3], Minus(p[3], p[5]), lineno=p.lineno(1))
+        p[0] = self._indexed_partselect(p[1], p[3], p[5], False, p.lineno(1))
         p.set_lineno(0, p.lineno(1))
 
     def p_lpointer(self, p):
@@ -1218,14 +1228,12 @@ class VerilogParser(object):
 
     def p_partselect_plus(self, p):
         'partselect : identifier LBRACKET expression PLUSCOLON expression RBRACKET'
-        p[0] = Partselect(p[1], p[3], Plus(
-            p[3], p[5], lineno=p.lineno(1)), lineno=p.lineno(1))
+        p[0] = self._indexed_partselect(p[1], p[3], p[5], True, p.lineno(1))
         p.set_lineno(0, p.lineno(1))
 
     def p_partselect_minus(self, p):
         'partselect : identifier LBRACKET expression MINUSCOLON expression RBRACKET'
-        p[0] = Partselect(p[1], p[3], Minus(
-            p[3], p[5], lineno=p.lineno(1)), lineno=p.lineno(1))
+        p[0] = self._indexed_partselect(p[1], p[3], p[5], False, p.lineno(1))
         p.set_lineno(0, p.lineno(1))
 
     def p_partselect_pointer(self, p):
@@ -1235,14 +1243,12 @@ class VerilogParser(object):
 
     def p_partselect_pointer_plus(self, p):
         'partselect : pointer LBRACKET expression PLUSCOLON expression RBRACKET'
-        p[0] = Partselect(p[1], p[3], Plus(
-            p[3], p[5], lineno=p.lineno(1)), lineno=p.lineno(1))
+        p[0] = self._indexed_partselect(p[1], p[3], p[5], True, p.lineno(1))
         p.set_lineno(0, p.lineno(1))
 
     def p_partselect_pointer_minus(self, p):
         'partselect : pointer LBRACKET expression MINUSCOLON expression RBRACKET'
-        p[0] = Partselect(p[1], p[3], Minus(
-            p[3], p[5], lineno=p.lineno(1)), lineno=p.lineno(1))
+        p[0] = self._indexed_partselect(p[1], p[3], p[5], False, p.lineno(1))
         p.set_lineno(0, p.lineno(1))
 
     def p_pointer(self, p):
-- 
2.43.0


From d5bb658f4ac5e2f10dd4c95aec2583bf7e33bff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:33 +0000
Subject: [PATCH 07/76] fix: adjacent part selects with variable bounds in a
 concatenation are not merged

---
 pyverilog/dataflow/optimizer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyverilog/dataflow/optimizer.py b/pyverilog/dataflow/optimizer.py
index b348416..52aea54 100644
--- a/pyverilog/dataflow/optimizer.py
+++ b/pyverilog/dataflow/optimizer.py
@@ -597,6 +597,9 @@ class VerilogOptimizer(object):
                 pass
             elif last_node.var.name != n.var.name:
                 pass
+            elif not (isinstance(last_node.msb, DFEvalValue) and isinstance(last_node.lsb, DFEvalValue) and
+                      isinstance(n.msb, DFEvalValue) and isinstance(n.lsb, DFEvalValue)):
+                pass
             elif last_node.lsb.value == n.msb.value + 1:
                 ret_nodes.pop()
                 new_node = DFPartselect(last_node.var, last_node.msb, n.lsb)
-- 
2.43.0


From 5358f009ab686f65879e1c24cc0a1c218ac6f5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:33 +0000
Subject: [PATCH 08/76] fix: a function call in a condition is the same call
 for every assignment under it

---
 pyverilog/dataflow/bindvisitor.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index cb73857..749355a 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -33,6 +33,7 @@ class BindVisitor(NodeVisitor):
         self.frames = frames
         self.labels = Labels()
         self.dataflow = DataFlow()
+        self.condtrees = {}
         self.optimizer = VerilogOptimizer({}, {})
 
         self.noreorder = noreorder
@@ -969,7 +970,12 @@ class BindVisitor(NodeVisitor):
             frame = self.frames.dict[s]
             cond = frame.getCondition()
             if cond is not None:
-                ret.append(self.makeDFTree(cond, self.reduceIfScope(s)))
+                # made once: a function call in it gets one scope, so that the
+                # conditions of all assignments under this statement are the same
+                condscope = self.reduceIfScope(s)
+                if (id(cond), condscope) not in self.condtrees:
+                    self.condtrees[(id(cond), condscope)] = self.makeDFTree(cond, condscope)
+                ret.append(self.condtrees[(id(cond), condscope)])
             if frame.isModule():
                 break
             s = frame.previous
-- 
2.43.0


From 6d12e592960d65264d6fc72c5831fbb8f7fb2bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:26 +0000
Subject: [PATCH 09/76] fix: constants of an instance that depend on a given
 parameter use its value, not the default

---
 pyverilog/dataflow/bindvisitor.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index 749355a..0f0ed5a 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -158,20 +158,27 @@ class BindVisitor(NodeVisitor):
         if nodename == '':
             raise verror.FormatError("Module %s requires an instance name" % node.module)
 
-        current = self.stackInstanceFrame(nodename, node.module)
-
-        scope = self.frames.getCurrent()
+        # the given parameter values have to be known before the other constants
+        # of the instance, which may depend on them, are resolved
+        current = self.frames.getCurrent()
+        scope = current + ScopeLabel(nodename, 'module')
 
         paramnames = self.moduleinfotable.getParamNames(node.module)
+        values = []
         for paramnames_i, param in enumerate(node.parameterlist):
-            self.addInstanceParameterBind(param, paramnames[paramnames_i])
-            value = self.optimize(self.getTree(param.argname, current))
             paramname = paramnames[paramnames_i] if param.paramname is None else param.paramname
             if paramname not in paramnames:
                 raise verror.FormatError("No such parameter: %s in %s" %
                                          (paramname, nodename))
             name = scope + ScopeLabel(paramname, 'signal')
+            value = self.optimize(self.getTree(param.argname, current))
             self.setConstant(name, value)
+            values.append((paramname, name, value))
+
+        current = self.stackInstanceFrame(nodename, node.module)
+
+        for param, (paramname, name, value) in zip(node.parameterlist, values):
+            self.addInstanceParameterBind(param, paramname)
             definition = Parameter(paramname, str(value.value))
             term = self.makeConstantTerm(name, definition, current)
             self.setConstantTerm(name, term)
-- 
2.43.0


From 3130e1516b5285ef9a4688d81feff2756af778a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:26 +0000
Subject: [PATCH 10/76] fix: constant unary plus and <<< are evaluated, unknown
 operators stay unevaluated

---
 pyverilog/dataflow/optimizer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyverilog/dataflow/optimizer.py b/pyverilog/dataflow/optimizer.py
index 52aea54..6a00263 100644
--- a/pyverilog/dataflow/optimizer.py
+++ b/pyverilog/dataflow/optimizer.py
@@ -179,9 +179,13 @@ class VerilogOptimizer(object):
             if n.width > width:
                 width = n.width
         rslt = self._evalOperator(operator, tuple(valuelist), width)
+        if rslt is None:
+            return None
         return DFEvalValue(rslt, width)
 
     def _evalOperator(self, operator, valuelist, width=default_width):
+        if operator == 'Uplus':
+            return valuelist[0]
         if operator == 'Uminus':
             return -1 * valuelist[0]
         if operator == 'Ulnot':
@@ -241,7 +245,7 @@ class VerilogOptimizer(object):
             return valuelist[0] + valuelist[1]
         if operator == 'Minus':
             return valuelist[0] - valuelist[1]
-        if operator == 'Sll':
+        if operator == 'Sll' or operator == 'Sla':
             return valuelist[0] << valuelist[1]
         if operator == 'Srl':
             return valuelist[0] >> valuelist[1]
-- 
2.43.0


From b0f2e8ddd12112df95035d2bd28637e3828bf9ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:04 +0000
Subject: [PATCH 11/76] fix: a concatenation on the left side assigned in
 several branches selects each part once

---
 pyverilog/dataflow/bindvisitor.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index 0f0ed5a..87d7559 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -1475,7 +1475,7 @@ class BindVisitor(NodeVisitor):
             renamed_term = DFTerminal(renamed_dst[term_i][0])
             renamed_bind = self.makeBind(name, msb, lsb, ptr, part_msb, part_lsb,
                                          renamed_term, condlist, flowlist,
-                                         num_dst=len(dst), alwaysinfo=alwaysinfo)
+                                         alwaysinfo=alwaysinfo)
             self.dataflow.addBind(name, renamed_bind)
             self.frames.setBlockingAssign(name, renamed_bind, scope)
             term_i += 1
@@ -1484,6 +1484,12 @@ class BindVisitor(NodeVisitor):
                  raw_tree, condlist, flowlist,
                  num_dst=1, alwaysinfo=None, bindtype=None):
 
+        # each destination of a concatenation takes its part of the new value only:
+        # the trees recorded so far are its parts already
+        if num_dst > 1:
+            raw_tree = reorder.reorder(
+                DFPartselect(raw_tree, part_msb, part_lsb))
+
         current_bindlist = self.getBindlist(name)
         current_tree = None
         current_msb = None
@@ -1522,10 +1528,6 @@ class BindVisitor(NodeVisitor):
         tree = reorder.reorder(
             self.appendBranchTree(current_tree, match_flowlist, add_tree))
 
-        if num_dst > 1:
-            tree = reorder.reorder(
-                DFPartselect(tree, part_msb, part_lsb))
-
         return Bind(tree, name, msb, lsb, ptr, alwaysinfo, bindtype)
 
     def diffBranchTree(self, tree, condlist, flowlist, matchflowlist=()):
-- 
2.43.0


From 09dfa29495da95255a3a80208bc2ba6243e77f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:30 +0000
Subject: [PATCH 12/76] fix: the width of a bit select at a variable position
 is one

---
 pyverilog/dataflow/optimizer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyverilog/dataflow/optimizer.py b/pyverilog/dataflow/optimizer.py
index 6a00263..78964bd 100644
--- a/pyverilog/dataflow/optimizer.py
+++ b/pyverilog/dataflow/optimizer.py
@@ -314,6 +314,8 @@ class VerilogOptimizer(object):
             return max(truewidth, falsewidth)
 
         if isinstance(node, DFPartselect):
+            if node.msb == node.lsb:  # one bit, maybe at a variable position
+                return 1
             msb = self.optimizeConstant(node.msb).value
             lsb = self.optimizeConstant(node.lsb).value
             width = abs(msb - lsb) + 1
-- 
2.43.0


From e050ec0acd9953b60f42a9925376efef26b1587c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:54 +0000
Subject: [PATCH 13/76] fix: an assignment under nested conditions keeps the
 previous value wherever one of them is false

---
 pyverilog/dataflow/bindvisitor.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index 87d7559..349f3ef 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -1520,10 +1520,8 @@ class BindVisitor(NodeVisitor):
              rest_flowlist,
              match_flowlist) = self.diffBranchTree(current_tree, condlist, flowlist)
 
-        add_tree = self.makeBranchTree(rest_condlist, rest_flowlist, raw_tree)
-        if rest_flowlist and rest_tree is not None:
-            _rest_flowlist = rest_flowlist[:-1] + (not rest_flowlist[-1], )
-            add_tree = self.appendBranchTree(add_tree, _rest_flowlist, rest_tree)
+        # the previous value stays wherever one of the conditions does not hold
+        add_tree = self.makeBranchTree(rest_condlist, rest_flowlist, raw_tree, rest_tree)
 
         tree = reorder.reorder(
             self.appendBranchTree(current_tree, match_flowlist, add_tree))
@@ -1546,25 +1544,25 @@ class BindVisitor(NodeVisitor):
                 tree.falsenode, condlist[1:], flowlist[1:],
                 matchflowlist + (flowlist[0],))
 
-    def makeBranchTree(self, condlist, flowlist, node):
+    def makeBranchTree(self, condlist, flowlist, node, other=None):
         if len(condlist) == 0 or len(flowlist) == 0:
             return node
         if len(condlist) == 1:
             if flowlist[0]:
-                return DFBranch(condlist[0], node, None)
+                return DFBranch(condlist[0], node, other)
             else:
-                return DFBranch(condlist[0], None, node)
+                return DFBranch(condlist[0], other, node)
         else:
             if flowlist[0]:
                 return DFBranch(
                     condlist[0],
-                    self.makeBranchTree(condlist[1:], flowlist[1:], node),
-                    None)
+                    self.makeBranchTree(condlist[1:], flowlist[1:], node, other),
+                    other)
             else:
                 return DFBranch(
                     condlist[0],
-                    None,
-                    self.makeBranchTree(condlist[1:], flowlist[1:], node))
+                    other,
+                    self.makeBranchTree(condlist[1:], flowlist[1:], node, other))
 
     def appendBranchTree(self, base, pos, tree):
         if len(pos) == 0:
-- 
2.43.0


From 07150929b5e20e4900d1123da4a1d791a9469f94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:49 +0000
Subject: [PATCH 14/76] fix: entering a branch no longer overwrites earlier
 conditional assignments with the last one before it

---
 pyverilog/dataflow/bindvisitor.py | 40 -------------------------------
 1 file changed, 40 deletions(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index 349f3ef..5333d37 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -341,8 +341,6 @@ class BindVisitor(NodeVisitor):
                                       always=self.frames.isAlways(),
                                       initial=self.frames.isInitial())
 
-        self.copyPreviousNonblockingAssign(current + ScopeLabel(label, 'if'))
-
         if node.true_statement is not None:
             self.visit(node.true_statement)
         self.frames.setCurrent(current)
@@ -361,8 +359,6 @@ class BindVisitor(NodeVisitor):
                                       always=self.frames.isAlways(),
                                       initial=self.frames.isInitial())
 
-        self.copyPreviousNonblockingAssign(current + ScopeLabel(label, 'if'))
-
         if node.false_statement is not None:
             self.visit(node.false_statement)
         self.frames.setCurrent(current)
@@ -407,8 +403,6 @@ class BindVisitor(NodeVisitor):
                                       always=self.frames.isAlways(),
                                       initial=self.frames.isInitial())
 
-        self.copyPreviousNonblockingAssign(current + ScopeLabel(label, 'if'))
-
         myframes.append(self.frames.getCurrent())
 
         if case.statement is not None:
@@ -428,8 +422,6 @@ class BindVisitor(NodeVisitor):
                                       always=self.frames.isAlways(),
                                       initial=self.frames.isInitial())
 
-        self.copyPreviousNonblockingAssign(current + ScopeLabel(label, 'if'))
-
         myframes.append(current + ScopeLabel(label, 'if'))
 
         self._case(comp, caselist[1:], myframes)
@@ -655,24 +647,6 @@ class BindVisitor(NodeVisitor):
             self.dataflow.addTask(name, definition.getDefinition())
             self.dataflow.addTaskPorts(name, definition.getIOPorts())
 
-    def copyPreviousNonblockingAssign(self, scope):
-        assign = self.frames.getPreviousNonblockingAssign()
-        for name, bindlist in assign.items():
-            for bind in bindlist:
-                self.frames.addNonblockingAssign(name, bind)
-                msb = bind.msb
-                lsb = bind.lsb
-                ptr = bind.ptr
-                part_msb = None
-                part_lsb = None
-                condlist, flowlist = self.getCondflow(scope)
-                alwaysinfo = bind.alwaysinfo
-                raw_tree = bind.tree
-                new_bind = self.makeBind(name, msb, lsb, ptr, part_msb, part_lsb,
-                                         raw_tree, condlist, flowlist,
-                                         alwaysinfo=alwaysinfo)
-                self.dataflow.addBind(name, new_bind)
-
     def copyBlockingAssigns(self, scope_copy_from, scope_copy_to):
         assign = self.frames.getBlockingAssignsScope(scope_copy_from)
         for name, bindlist in assign.items():
@@ -1416,26 +1390,12 @@ class BindVisitor(NodeVisitor):
 
             self.dataflow.addBind(name, bind)
 
-            if alwaysinfo is not None:
-                self.setNonblockingAssign(name, dst, raw_tree,
-                                          msb, lsb, ptr,
-                                          part_msb, part_lsb,
-                                          alwaysinfo)
-
     def setDataflow_rename(self, dst, raw_tree, condlist, flowlist,
                            scope, alwaysinfo=None):
         renamed_dst = self.getRenamedDst(dst)
         self.setRenamedTree(renamed_dst, raw_tree, alwaysinfo)
         self.setRenamedFlow(dst, renamed_dst, condlist, flowlist, scope, alwaysinfo)
 
-    def setNonblockingAssign(self, name, dst, raw_tree, msb, lsb, ptr,
-                             part_msb, part_lsb, alwaysinfo):
-        tree = raw_tree
-        if len(dst) > 1:
-            tree = reorder.reorder(DFPartselect(raw_tree, part_msb, part_lsb))
-        bind = Bind(tree, name, msb, lsb, ptr, alwaysinfo)
-        self.frames.addNonblockingAssign(name, bind)
-
     def getRenamedDst(self, dst):
         renamed_dst = ()
         for d in dst:
-- 
2.43.0


From 5b3aa1eea92d305cb4832ba708badac926f42c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:07 +0000
Subject: [PATCH 15/76] fix: a select whose position depends on a branch is
 distributed over the branches

---
 pyverilog/dataflow/reorder.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/pyverilog/dataflow/reorder.py b/pyverilog/dataflow/reorder.py
index f948af2..0c8ea3c 100644
--- a/pyverilog/dataflow/reorder.py
+++ b/pyverilog/dataflow/reorder.py
@@ -59,8 +59,15 @@ def reorder(tree):
         resolved_msb = reorder(tree.msb)
         resolved_lsb = reorder(tree.lsb)
         resolved_var = reorder(tree.var)
-        if isinstance(resolved_msb, DFBranch) or isinstance(resolved_lsb, DFBranch):
-            raise FormatError('MSB and LSB should not be DFBranch')
+        for bound in (resolved_msb, resolved_lsb):
+            if isinstance(bound, DFBranch):
+                return DFBranch(bound.condnode,
+                                reorder(DFPartselect(resolved_var,
+                                                     takeBranch(resolved_msb, bound.condnode, True),
+                                                     takeBranch(resolved_lsb, bound.condnode, True))),
+                                reorder(DFPartselect(resolved_var,
+                                                     takeBranch(resolved_msb, bound.condnode, False),
+                                                     takeBranch(resolved_lsb, bound.condnode, False))))
         if isinstance(resolved_var, DFBranch):
             return insertPartselect(resolved_var, resolved_msb, resolved_lsb)
         return DFPartselect(resolved_var, resolved_msb, resolved_lsb)
@@ -85,6 +92,12 @@ def reorder(tree):
 ############################################################################
 
 
+def takeBranch(tree, condnode, cond):
+    if isinstance(tree, DFBranch) and tree.condnode == condnode:
+        return tree.truenode if cond else tree.falsenode
+    return tree
+
+
 def insertBranch(base, truenode, falsenode):
     if isinstance(base, DFBranch):
         return DFBranch(base.condnode, insertBranch(base.truenode, truenode, falsenode), insertBranch(base.falsenode, truenode, falsenode))
-- 
2.43.0


From aa1dab75aba9ad742a6c2a38f12b743884085db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:07 +0000
Subject: [PATCH 16/76] fix: a constant assigned in a branch or always block is
 no constant outside of it

---
 pyverilog/dataflow/bindvisitor.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index 5333d37..408c958 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -33,6 +33,7 @@ class BindVisitor(NodeVisitor):
         self.frames = frames
         self.labels = Labels()
         self.dataflow = DataFlow()
+        self.blocking_constants = set()
         self.condtrees = {}
         self.optimizer = VerilogOptimizer({}, {})
 
@@ -236,9 +237,20 @@ class BindVisitor(NodeVisitor):
         self.frames.setAlwaysInfo(clock_name, clock_edge, clock_bit,
                                   reset_name, reset_edge, reset_bit, senslist)
 
-        self.generic_visit(node)
+        self.visitBranch(node)
         self.frames.setCurrent(current)
 
+    def visitBranch(self, node):
+        # what is assigned here is no constant for the statements elsewhere
+        previous, self.blocking_constants = self.blocking_constants, set()
+        if isinstance(node, Always):
+            self.generic_visit(node)
+        else:
+            self.visit(node)
+        for name in self.blocking_constants:
+            self.resetConstant(name)
+        self.blocking_constants |= previous
+
     def _get_signal_name(self, n):
         if isinstance(n, Identifier):
             return n.name
@@ -342,7 +354,7 @@ class BindVisitor(NodeVisitor):
                                       initial=self.frames.isInitial())
 
         if node.true_statement is not None:
-            self.visit(node.true_statement)
+            self.visitBranch(node.true_statement)
         self.frames.setCurrent(current)
         return label
 
@@ -360,7 +372,7 @@ class BindVisitor(NodeVisitor):
                                       initial=self.frames.isInitial())
 
         if node.false_statement is not None:
-            self.visit(node.false_statement)
+            self.visitBranch(node.false_statement)
         self.frames.setCurrent(current)
         return label
 
@@ -406,7 +418,7 @@ class BindVisitor(NodeVisitor):
         myframes.append(self.frames.getCurrent())
 
         if case.statement is not None:
-            self.visit(case.statement)
+            self.visitBranch(case.statement)
         self.frames.setCurrent(current)
 
         if len(caselist) == 1:
@@ -935,6 +947,7 @@ class BindVisitor(NodeVisitor):
                 value = self.optimize(raw_tree)
                 if isinstance(value, DFEvalValue):
                     self.setConstant(name, value)
+                    self.blocking_constants.add(name)
                 else:
                     self.resetConstant(name)
 
-- 
2.43.0


From fde0007bf85475aa0ff7dc742630ba77b04aa347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:53 +0000
Subject: [PATCH 17/76] fix: the index of an assigned element takes blocking
 assignments before it into account

---
 pyverilog/dataflow/bindvisitor.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index 408c958..e72b98e 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -1359,23 +1359,23 @@ class BindVisitor(NodeVisitor):
             if isinstance(left.var, Pointer):
                 name, msb, lsb, ptr = self.getDst(left.var, scope)
                 if msb is None and lsb is None:
-                    msb = self.optimize(self.makeDFTree(left.msb, scope))
-                    lsb = self.optimize(self.makeDFTree(left.lsb, scope))
+                    msb = self.optimize(self.getTree(left.msb, scope))
+                    lsb = self.optimize(self.getTree(left.lsb, scope))
                 else:
                     raise verror.FormatError("%s is not array" % str(name))
                 return (name, msb, lsb, ptr)
             name = self.searchTerminal(left.var.name, scope)
             if left.var.scope is not None:
                 name = left.var.scope + ScopeLabel(left.var.name, 'signal')
-            msb = self.optimize(self.makeDFTree(left.msb, scope))
-            lsb = self.optimize(self.makeDFTree(left.lsb, scope))
+            msb = self.optimize(self.getTree(left.msb, scope))
+            lsb = self.optimize(self.getTree(left.lsb, scope))
             return (name, msb, lsb, None)
 
         if isinstance(left, Pointer):
             if isinstance(left.var, Pointer):
                 name, msb, lsb, ptr = self.getDst(left.var, scope)
                 if msb is None and lsb is None:
-                    msb = self.optimize(self.makeDFTree(left.ptr, scope))
+                    msb = self.optimize(self.getTree(left.ptr, scope))
                     lsb = copy.deepcopy(msb)
                 else:
                     raise verror.FormatError("%s is not array" % str(name))
@@ -1383,7 +1383,7 @@ class BindVisitor(NodeVisitor):
             name = self.searchTerminal(left.var.name, scope)
             if left.var.scope is not None:
                 name = left.var.scope + ScopeLabel(left.var.name, 'signal')
-            ptr = self.optimize(self.makeDFTree(left.ptr, scope))
+            ptr = self.optimize(self.getTree(left.ptr, scope))
             if self.getTermDims(name) is not None:
                 return (name, None, None, ptr)
             return (name, ptr, copy.deepcopy(ptr), None)
-- 
2.43.0


From bd52216d93d6d154299872ad9cfdcf4d98ce408a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:38 +0000
Subject: [PATCH 18/76] fix: code generation writes the <<< operator

---
 pyverilog/ast_code_generator/codegen.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pyverilog/ast_code_generator/codegen.py b/pyverilog/ast_code_generator/codegen.py
index 9b87569..5ae4b7c 100644
--- a/pyverilog/ast_code_generator/codegen.py
+++ b/pyverilog/ast_code_generator/codegen.py
@@ -491,12 +491,12 @@ class ASTCodeGenerator(ConvertVisitor):
         rorder = op2order(node.right.__class__.__name__)
         left = self.visit(node.left)
         right = self.visit(node.right)
-        if ((not isinstance(node.left, (Sll, Srl, Sra,
+        if ((not isinstance(node.left, (Sll, Srl, Sla, Sra,
                                         LessThan, GreaterThan, LessEq, GreaterEq,
                                         Eq, NotEq, Eql, NotEql))) and
                 (lorder is not None and lorder <= order)):
             left = del_paren(left)
-        if ((not isinstance(node.right, (Sll, Srl, Sra,
+        if ((not isinstance(node.right, (Sll, Srl, Sla, Sra,
                                          LessThan, GreaterThan, LessEq, GreaterEq,
                                          Eq, NotEq, Eql, NotEql))) and
                 (rorder is not None and order > rorder)):
@@ -574,6 +574,9 @@ class ASTCodeGenerator(ConvertVisitor):
     def visit_Srl(self, node):
         return self.visit_Operator(node)
 
+    def visit_Sla(self, node):
+        return self.visit_Operator(node)
+
     def visit_Sra(self, node):
         return self.visit_Operator(node)
 
-- 
2.43.0


From e061b53106fd50d5a70d2bd7e7a0e4bce084a907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:38 +0000
Subject: [PATCH 19/76] fix: code generation writes casez and unique case
 statements

---
 pyverilog/ast_code_generator/codegen.py       | 20 +++++++++++++++++++
 .../template/casezstatement.txt               |  5 +++++
 .../template/uniquecasestatement.txt          |  5 +++++
 3 files changed, 30 insertions(+)
 create mode 100644 pyverilog/ast_code_generator/template/casezstatement.txt
 create mode 100644 pyverilog/ast_code_generator/template/uniquecasestatement.txt

diff --git a/pyverilog/ast_code_generator/codegen.py b/pyverilog/ast_code_generator/codegen.py
index 5ae4b7c..574ed8b 100644
--- a/pyverilog/ast_code_generator/codegen.py
+++ b/pyverilog/ast_code_generator/codegen.py
@@ -773,6 +773,26 @@ class ASTCodeGenerator(ConvertVisitor):
         rslt = template.render(template_dict)
         return rslt
 
+    def visit_CasezStatement(self, node):
+        filename = getfilename(node)
+        template = self.get_template(filename)
+        template_dict = {
+            'comp': del_paren(self.visit(node.comp)),
+            'caselist': [self.indent(self.visit(case)) for case in node.caselist],
+        }
+        rslt = template.render(template_dict)
+        return rslt
+
+    def visit_UniqueCaseStatement(self, node):
+        filename = getfilename(node)
+        template = self.get_template(filename)
+        template_dict = {
+            'comp': del_paren(self.visit(node.comp)),
+            'caselist': [self.indent(self.visit(case)) for case in node.caselist],
+        }
+        rslt = template.render(template_dict)
+        return rslt
+
     def visit_Case(self, node):
         filename = getfilename(node)
         template = self.get_template(filename)
diff --git a/pyverilog/ast_code_generator/template/casezstatement.txt b/pyverilog/ast_code_generator/template/casezstatement.txt
new file mode 100644
index 0000000..4a897b1
--- /dev/null
+++ b/pyverilog/ast_code_generator/template/casezstatement.txt
@@ -0,0 +1,5 @@
+casez({{ comp }})
+{%- for case in caselist %}
+{{ case }}
+{%- endfor %}
+endcase
diff --git a/pyverilog/ast_code_generator/template/uniquecasestatement.txt b/pyverilog/ast_code_generator/template/uniquecasestatement.txt
new file mode 100644
index 0000000..88ec8f8
--- /dev/null
+++ b/pyverilog/ast_code_generator/template/uniquecasestatement.txt
@@ -0,0 +1,5 @@
+unique case({{ comp }})
+{%- for case in caselist %}
+{{ case }}
+{%- endfor %}
+endcase
-- 
2.43.0


From 0c629b2bdbcc0672d2f5cd5ae825f0f7b985b2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:28 +0000
Subject: [PATCH 20/76] fix: an empty statement or a missing sensitivity list
 is not turned into @(*)

---
 pyverilog/ast_code_generator/template/always.txt         | 2 +-
 pyverilog/ast_code_generator/template/eventstatement.txt | 2 +-
 pyverilog/vparser/parser.py                              | 3 +--
 3 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/pyverilog/ast_code_generator/template/always.txt b/pyverilog/ast_code_generator/template/always.txt
index 299eee8..d606731 100644
--- a/pyverilog/ast_code_generator/template/always.txt
+++ b/pyverilog/ast_code_generator/template/always.txt
@@ -1,3 +1,3 @@
 
-always @({{ sens_list }}) {{ statement }}
+always {% if sens_list != '' %}@({{ sens_list }}) {% endif %}{{ statement }}
 
diff --git a/pyverilog/ast_code_generator/template/eventstatement.txt b/pyverilog/ast_code_generator/template/eventstatement.txt
index 098301c..fafecdd 100644
--- a/pyverilog/ast_code_generator/template/eventstatement.txt
+++ b/pyverilog/ast_code_generator/template/eventstatement.txt
@@ -1 +1 @@
-@({{ senslist }});
+{% if senslist != '' %}@({{ senslist }}){% endif %};
diff --git a/pyverilog/vparser/parser.py b/pyverilog/vparser/parser.py
index d219ab4..4db2cde 100644
--- a/pyverilog/vparser/parser.py
+++ b/pyverilog/vparser/parser.py
@@ -1370,8 +1370,7 @@ class VerilogParser(object):
 
     def p_sens_empty(self, p):
         'senslist : empty'
-        p[0] = SensList(
-            (Sens(None, 'all', lineno=p.lineno(1)),), lineno=p.lineno(1))
+        p[0] = SensList((), lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
 
     def p_sens_level(self, p):
-- 
2.43.0


From 17ba990d8f0d477eee4e26a9f085bc5851731163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:51 +0000
Subject: [PATCH 21/76] fix: code generation writes always_ff, always_comb,
 always_latch, supply0, supply1 and disable

---
 pyverilog/ast_code_generator/codegen.py       | 21 +++++++++++++++++++
 .../template/alwayscomb.txt                   |  3 +++
 .../ast_code_generator/template/alwaysff.txt  |  3 +++
 .../template/alwayslatch.txt                  |  3 +++
 .../ast_code_generator/template/disable.txt   |  2 +-
 .../ast_code_generator/template/supply.txt    |  1 +
 6 files changed, 32 insertions(+), 1 deletion(-)
 create mode 100644 pyverilog/ast_code_generator/template/alwayscomb.txt
 create mode 100644 pyverilog/ast_code_generator/template/alwaysff.txt
 create mode 100644 pyverilog/ast_code_generator/template/alwayslatch.txt
 create mode 100644 pyverilog/ast_code_generator/template/supply.txt

diff --git a/pyverilog/ast_code_generator/codegen.py b/pyverilog/ast_code_generator/codegen.py
index 574ed8b..360beb5 100644
--- a/pyverilog/ast_code_generator/codegen.py
+++ b/pyverilog/ast_code_generator/codegen.py
@@ -403,6 +403,18 @@ class ASTCodeGenerator(ConvertVisitor):
         rslt = template.render(template_dict)
         return rslt
 
+    def visit_Supply(self, node):
+        filename = getfilename(node)
+        template = self.get_template(filename)
+        template_dict = {
+            'name': escape(node.name),
+            'width': '' if node.width is None else self.visit(node.width),
+            'value': self.visit(node.value),
+            'signed': node.signed,
+        }
+        rslt = template.render(template_dict)
+        return rslt
+
     def visit_Decl(self, node):
         filename = getfilename(node)
         template = self.get_template(filename)
@@ -658,6 +670,15 @@ class ASTCodeGenerator(ConvertVisitor):
         rslt = template.render(template_dict)
         return rslt
 
+    def visit_AlwaysFF(self, node):
+        return self.visit_Always(node)
+
+    def visit_AlwaysComb(self, node):
+        return self.visit_Always(node)
+
+    def visit_AlwaysLatch(self, node):
+        return self.visit_Always(node)
+
     def visit_SensList(self, node):
         filename = getfilename(node)
         template = self.get_template(filename)
diff --git a/pyverilog/ast_code_generator/template/alwayscomb.txt b/pyverilog/ast_code_generator/template/alwayscomb.txt
new file mode 100644
index 0000000..f556b76
--- /dev/null
+++ b/pyverilog/ast_code_generator/template/alwayscomb.txt
@@ -0,0 +1,3 @@
+
+always_comb {% if sens_list != '' %}@({{ sens_list }}) {% endif %}{{ statement }}
+
diff --git a/pyverilog/ast_code_generator/template/alwaysff.txt b/pyverilog/ast_code_generator/template/alwaysff.txt
new file mode 100644
index 0000000..a99d26e
--- /dev/null
+++ b/pyverilog/ast_code_generator/template/alwaysff.txt
@@ -0,0 +1,3 @@
+
+always_ff {% if sens_list != '' %}@({{ sens_list }}) {% endif %}{{ statement }}
+
diff --git a/pyverilog/ast_code_generator/template/alwayslatch.txt b/pyverilog/ast_code_generator/template/alwayslatch.txt
new file mode 100644
index 0000000..c586722
--- /dev/null
+++ b/pyverilog/ast_code_generator/template/alwayslatch.txt
@@ -0,0 +1,3 @@
+
+always_latch {% if sens_list != '' %}@({{ sens_list }}) {% endif %}{{ statement }}
+
diff --git a/pyverilog/ast_code_generator/template/disable.txt b/pyverilog/ast_code_generator/template/disable.txt
index a0a9ae8..1752fde 100644
--- a/pyverilog/ast_code_generator/template/disable.txt
+++ b/pyverilog/ast_code_generator/template/disable.txt
@@ -1 +1 @@
-diable {{ name }}
+disable {{ name }}
diff --git a/pyverilog/ast_code_generator/template/supply.txt b/pyverilog/ast_code_generator/template/supply.txt
new file mode 100644
index 0000000..7500dc9
--- /dev/null
+++ b/pyverilog/ast_code_generator/template/supply.txt
@@ -0,0 +1 @@
+supply{{ value }} {% if signed %}signed {% endif %}{% if width != '' %}{{ width }} {% endif %}{{ name }};
-- 
2.43.0


From 010d8317d0106d7edcc36b401187fdf1368bf01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:36 +0000
Subject: [PATCH 22/76] fix: real and signed integer declarations have the
 declared names

---
 pyverilog/vparser/parser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyverilog/vparser/parser.py b/pyverilog/vparser/parser.py
index 4db2cde..7655a34 100644
--- a/pyverilog/vparser/parser.py
+++ b/pyverilog/vparser/parser.py
@@ -711,7 +711,7 @@ class VerilogParser(object):
                                  lineno=p.lineno(3)),
                            signed=True,
                            value=rvalue,
-                           lineno=p.lineno(3)) for rname, rvalue in p[2]]
+                           lineno=p.lineno(3)) for rname, rvalue in p[3]]
         p[0] = Decl(tuple(intlist), lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
 
@@ -738,11 +738,11 @@ class VerilogParser(object):
     # Real
     def p_realdecl(self, p):
         'realdecl : REAL realnamelist SEMICOLON'
-        reallist = [Real(p[1],
+        reallist = [Real(rname,
                          Width(msb=IntConst('31', lineno=p.lineno(2)),
                                lsb=IntConst('0', lineno=p.lineno(2)),
                                lineno=p.lineno(2)),
-                         lineno=p.lineno(2)) for r in p[2]]
+                         lineno=p.lineno(2)) for rname in p[2]]
         p[0] = Decl(tuple(reallist), lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
 
-- 
2.43.0


From 303e4cbd427c4324d727230b2576dd178d4cd60c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:37 +0000
Subject: [PATCH 23/76] fix: code generation keeps the initial value of an
 integer

---
 pyverilog/ast_code_generator/codegen.py           | 1 +
 pyverilog/ast_code_generator/template/integer.txt | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyverilog/ast_code_generator/codegen.py b/pyverilog/ast_code_generator/codegen.py
index 360beb5..9711f58 100644
--- a/pyverilog/ast_code_generator/codegen.py
+++ b/pyverilog/ast_code_generator/codegen.py
@@ -341,6 +341,7 @@ class ASTCodeGenerator(ConvertVisitor):
         template_dict = {
             'name': escape(node.name),
             'signed': node.signed,
+            'value': '' if node.value is None else self.visit(node.value),
         }
         rslt = template.render(template_dict)
         return rslt
diff --git a/pyverilog/ast_code_generator/template/integer.txt b/pyverilog/ast_code_generator/template/integer.txt
index 4f9e337..a3191c8 100644
--- a/pyverilog/ast_code_generator/template/integer.txt
+++ b/pyverilog/ast_code_generator/template/integer.txt
@@ -1 +1 @@
-integer {{ name }};
+integer {{ name }}{% if value != '' %} = {{ value }}{% endif %};
-- 
2.43.0


From 9d3f10945725169f7d4f051a8900682c9db8d3fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:51 +0000
Subject: [PATCH 24/76] fix: ranges and loop headers keep the spaces that
 separate tokens

---
 pyverilog/ast_code_generator/codegen.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pyverilog/ast_code_generator/codegen.py b/pyverilog/ast_code_generator/codegen.py
index 9711f58..025cf46 100644
--- a/pyverilog/ast_code_generator/codegen.py
+++ b/pyverilog/ast_code_generator/codegen.py
@@ -96,7 +96,9 @@ def del_paren(s):
 
 
 def del_space(s):
-    return s.replace(' ', '')
+    # keep the spaces that separate tokens: after an escaped identifier, between operators, and in strings
+    return re.sub(r'''(\\\S+\ |"(?:\\.|[^"\\])*")|(?<=([-+*/%&|^~!<>=?]))\ (?=[-+*/%&|^~!<>=?])|\ ''',
+                  lambda m: m.group(1) or (' ' if m.group(2) else ''), s)
 
 
 class ASTCodeGenerator(ConvertVisitor):
-- 
2.43.0


From 0f78a04ab65e978a998470a3f1fd913c71907dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:51 +0000
Subject: [PATCH 25/76] fix: a semicolon in a string parameter is kept

---
 pyverilog/ast_code_generator/codegen.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyverilog/ast_code_generator/codegen.py b/pyverilog/ast_code_generator/codegen.py
index 025cf46..fb5a353 100644
--- a/pyverilog/ast_code_generator/codegen.py
+++ b/pyverilog/ast_code_generator/codegen.py
@@ -150,7 +150,7 @@ class ASTCodeGenerator(ConvertVisitor):
     def visit_Paramlist(self, node):
         filename = getfilename(node)
         template = self.get_template(filename)
-        params = [self.visit(param).replace(';', '') for param in node.params]
+        params = [self.visit(param).rstrip(';') for param in node.params]
         template_dict = {
             'params': params,
             'len_params': len(params),
@@ -761,7 +761,7 @@ class ASTCodeGenerator(ConvertVisitor):
         template_dict = {
             'pre': '' if node.pre is None else del_space(self.visit(node.pre)),
             'cond': '' if node.cond is None else del_space(del_paren(self.visit(node.cond))),
-            'post': '' if node.post is None else del_space(self.visit(node.post).replace(';', '')),
+            'post': '' if node.post is None else del_space(self.visit(node.post).rstrip(';')),
             'statement': '' if node.statement is None else self.visit(node.statement),
         }
         rslt = template.render(template_dict)
-- 
2.43.0


From 9b5a78494f47ef5169282fea3da771c9173e0454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:14 +0000
Subject: [PATCH 26/76] fix: casez and unique case are analysed as case
 statements

---
 pyverilog/dataflow/bindvisitor.py   | 6 ++++++
 pyverilog/dataflow/signalvisitor.py | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index e72b98e..44d77f3 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -391,6 +391,12 @@ class BindVisitor(NodeVisitor):
     def visit_CasexStatement(self, node):
         return self.visit_CaseStatement(node)
 
+    def visit_CasezStatement(self, node):
+        return self.visit_CaseStatement(node)
+
+    def visit_UniqueCaseStatement(self, node):
+        return self.visit_CaseStatement(node)
+
     def _case(self, comp, caselist, myframes):
         if len(caselist) == 0:
             return
diff --git a/pyverilog/dataflow/signalvisitor.py b/pyverilog/dataflow/signalvisitor.py
index e2d5251..e55842d 100644
--- a/pyverilog/dataflow/signalvisitor.py
+++ b/pyverilog/dataflow/signalvisitor.py
@@ -231,6 +231,12 @@ class SignalVisitor(NodeVisitor):
     def visit_CasexStatement(self, node):
         return self.visit_CaseStatement(node)
 
+    def visit_CasezStatement(self, node):
+        return self.visit_CaseStatement(node)
+
+    def visit_UniqueCaseStatement(self, node):
+        return self.visit_CaseStatement(node)
+
     def _case(self, comp, caselist):
         if len(caselist) == 0:
             return
-- 
2.43.0


From b8969e119c96ad11adc8dc0418f69676d72a47e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:14 +0000
Subject: [PATCH 27/76] fix: always_ff, always_comb and always_latch are
 analysed as always blocks

---
 pyverilog/dataflow/bindvisitor.py   | 9 +++++++++
 pyverilog/dataflow/modulevisitor.py | 9 +++++++++
 pyverilog/dataflow/signalvisitor.py | 9 +++++++++
 3 files changed, 27 insertions(+)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index 44d77f3..e5222f9 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -240,6 +240,15 @@ class BindVisitor(NodeVisitor):
         self.visitBranch(node)
         self.frames.setCurrent(current)
 
+    def visit_AlwaysFF(self, node):
+        return self.visit_Always(node)
+
+    def visit_AlwaysComb(self, node):
+        return self.visit_Always(node)
+
+    def visit_AlwaysLatch(self, node):
+        return self.visit_Always(node)
+
     def visitBranch(self, node):
         # what is assigned here is no constant for the statements elsewhere
         previous, self.blocking_constants = self.blocking_constants, set()
diff --git a/pyverilog/dataflow/modulevisitor.py b/pyverilog/dataflow/modulevisitor.py
index 3d24200..402bf8e 100644
--- a/pyverilog/dataflow/modulevisitor.py
+++ b/pyverilog/dataflow/modulevisitor.py
@@ -53,6 +53,15 @@ class ModuleVisitor(NodeVisitor):
     def visit_Always(self, node):
         pass
 
+    def visit_AlwaysFF(self, node):
+        return self.visit_Always(node)
+
+    def visit_AlwaysComb(self, node):
+        return self.visit_Always(node)
+
+    def visit_AlwaysLatch(self, node):
+        return self.visit_Always(node)
+
     def visit_Initial(self, node):
         pass
 
diff --git a/pyverilog/dataflow/signalvisitor.py b/pyverilog/dataflow/signalvisitor.py
index e55842d..000dda2 100644
--- a/pyverilog/dataflow/signalvisitor.py
+++ b/pyverilog/dataflow/signalvisitor.py
@@ -166,6 +166,15 @@ class SignalVisitor(NodeVisitor):
         self.generic_visit(node)
         self.frames.setCurrent(current)
 
+    def visit_AlwaysFF(self, node):
+        return self.visit_Always(node)
+
+    def visit_AlwaysComb(self, node):
+        return self.visit_Always(node)
+
+    def visit_AlwaysLatch(self, node):
+        return self.visit_Always(node)
+
     def visit_IfStatement(self, node):
 
         if (self.frames.isGenerate()
-- 
2.43.0


From a5d155d1d430ad37166934e6bd49d7705d947002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:14 +0000
Subject: [PATCH 28/76] fix: a default that is not the last case item is taken
 last

---
 pyverilog/dataflow/bindvisitor.py   | 4 +++-
 pyverilog/dataflow/signalvisitor.py | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index e5222f9..c60495e 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -392,7 +392,9 @@ class BindVisitor(NodeVisitor):
             return
         start_frame = self.frames.getCurrent()
         caseframes = []
-        self._case(node.comp, node.caselist, caseframes)
+        # the default is taken when nothing else matches, wherever it stands
+        caselist = sorted(node.caselist, key=lambda case: case.cond is None)
+        self._case(node.comp, caselist, caseframes)
         self.frames.setCurrent(start_frame)
         for f in caseframes:
             self.copyBlockingAssigns(f, start_frame)
diff --git a/pyverilog/dataflow/signalvisitor.py b/pyverilog/dataflow/signalvisitor.py
index 000dda2..172cad5 100644
--- a/pyverilog/dataflow/signalvisitor.py
+++ b/pyverilog/dataflow/signalvisitor.py
@@ -234,7 +234,9 @@ class SignalVisitor(NodeVisitor):
 
     def visit_CaseStatement(self, node):
         start_frame = self.frames.getCurrent()
-        self._case(node.comp, node.caselist)
+        # the default is taken when nothing else matches, wherever it stands
+        caselist = sorted(node.caselist, key=lambda case: case.cond is None)
+        self._case(node.comp, caselist)
         self.frames.setCurrent(start_frame)
 
     def visit_CasexStatement(self, node):
-- 
2.43.0


From f36b848845216c1b20efba29684774ae2fe07371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:27 +0000
Subject: [PATCH 29/76] fix: the parts of a unique case statement are its
 expression and its items

---
 pyverilog/vparser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyverilog/vparser/parser.py b/pyverilog/vparser/parser.py
index 7655a34..55d920d 100644
--- a/pyverilog/vparser/parser.py
+++ b/pyverilog/vparser/parser.py
@@ -1698,7 +1698,7 @@ class VerilogParser(object):
 
     def p_unique_case_statement(self, p):
         'unique_case_statement : UNIQUE CASE LPAREN case_comp RPAREN casecontent_statements ENDCASE'
-        p[0] = UniqueCaseStatement(p[3], p[5], lineno=p.lineno(1))
+        p[0] = UniqueCaseStatement(p[4], p[6], lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
         p[0].end_lineno = p.lineno(7)
 
-- 
2.43.0


From c1a552fc763229880771a6d5347e632687659f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:27 +0000
Subject: [PATCH 30/76] fix: a supply net without a range has one bit

---
 pyverilog/dataflow/bindvisitor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index c60495e..3f89a9b 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -871,7 +871,7 @@ class BindVisitor(NodeVisitor):
             termtype = 'Task'
         termtypes = set([termtype])
 
-        if isinstance(node, (Parameter, Localparam)):
+        if isinstance(node, (Parameter, Localparam)) and not isinstance(node, Supply):
             msb = DFIntConst('31') if node.width is None else self.makeDFTree(node.width.msb, scope)
         else:
             msb = DFIntConst('0') if node.width is None else self.makeDFTree(node.width.msb, scope)
-- 
2.43.0


From aaf49ef23bc8bdd40c1b48dab292ee73b6f7cf04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:27 +0000
Subject: [PATCH 31/76] fix: a constant with ? digits is undefined like one
 with z digits, not an error

---
 pyverilog/dataflow/optimizer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyverilog/dataflow/optimizer.py b/pyverilog/dataflow/optimizer.py
index 78964bd..4bedd35 100644
--- a/pyverilog/dataflow/optimizer.py
+++ b/pyverilog/dataflow/optimizer.py
@@ -89,6 +89,8 @@ class VerilogOptimizer(object):
                 return DFUndefined(tree.width())
             if 'X' in tree.value or 'Z' in tree.value:
                 return DFUndefined(tree.width())
+            if '?' in tree.value:
+                return DFUndefined(tree.width())
             return DFEvalValue(tree.eval(), tree.width())
         if isinstance(tree, DFFloatConst):
             return DFEvalValue(tree.eval(), self.default_width, isfloat=True)
-- 
2.43.0


From 1c65ff715fc9e5bc58b829c56d89ab5a81e5aab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:38 +0000
Subject: [PATCH 32/76] fix: a ternary whose condition is a ternary is
 analysed, not an AttributeError

---
 pyverilog/dataflow/bindvisitor.py   | 2 --
 pyverilog/dataflow/signalvisitor.py | 2 --
 2 files changed, 4 deletions(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index 3f89a9b..03ec9c3 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -1044,8 +1044,6 @@ class BindVisitor(NodeVisitor):
             true_df = self.makeDFTree(node.true_value, scope)
             false_df = self.makeDFTree(node.false_value, scope)
             cond_df = self.makeDFTree(node.cond, scope)
-            if isinstance(cond_df, DFBranch):
-                return reorder.insertCond(cond_df, true_df, false_df)
             return DFBranch(cond_df, true_df, false_df)
 
         if isinstance(node, UnaryOperator):
diff --git a/pyverilog/dataflow/signalvisitor.py b/pyverilog/dataflow/signalvisitor.py
index 172cad5..6c4d0e6 100644
--- a/pyverilog/dataflow/signalvisitor.py
+++ b/pyverilog/dataflow/signalvisitor.py
@@ -516,8 +516,6 @@ class SignalVisitor(NodeVisitor):
             true_df = self.makeDFTree(node.true_value, scope)
             false_df = self.makeDFTree(node.false_value, scope)
             cond_df = self.makeDFTree(node.cond, scope)
-            if isinstance(cond_df, DFBranch):
-                return reorder.insertCond(cond_df, true_df, false_df)
             return DFBranch(cond_df, true_df, false_df)
 
         if isinstance(node, UnaryOperator):
-- 
2.43.0


From b4275a0c96899c6feddb2eb5988c05966d73a96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:42 +0000
Subject: [PATCH 33/76] fix: number the intermediate outputs of code parsers:
 an object's address can be used again

---
 pyverilog/vparser/parser.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyverilog/vparser/parser.py b/pyverilog/vparser/parser.py
index 55d920d..51a5043 100644
--- a/pyverilog/vparser/parser.py
+++ b/pyverilog/vparser/parser.py
@@ -18,6 +18,7 @@ from __future__ import absolute_import
 from __future__ import print_function
 import sys
 import os
+import itertools
 import pathlib
 from ply.yacc import yacc
 
@@ -2329,6 +2330,9 @@ class ParseError(Exception):
     pass
 
 
+sessions = itertools.count()
+
+
 class VerilogCodeParser(object):
 
     def __init__(self, filelist, preprocess_output=None,
@@ -2339,7 +2343,7 @@ class VerilogCodeParser(object):
                  ):
         if preprocess_output is None:
             # Not shared: concurrent sessions would read each other's text
-            preprocess_output = 'preprocess.output.%d.%x' % (os.getpid(), id(self))
+            preprocess_output = 'preprocess.output.%d.%d' % (os.getpid(), next(sessions))
         self.preprocess_output = preprocess_output
         self.directives = ()
         # The preprocessor goes last: it creates temporary files that a failure here would leave
-- 
2.43.0


From 282574c78d85e74e2743693fcca49e75eca97ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:55 +0000
Subject: [PATCH 34/76] fix: a negative generate-if condition is true

---
 pyverilog/dataflow/bindvisitor.py   | 2 +-
 pyverilog/dataflow/signalvisitor.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index 03ec9c3..56e7c73 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -325,7 +325,7 @@ class BindVisitor(NodeVisitor):
             if not isinstance(rslt, DFEvalValue):
                 raise verror.FormatError("Can not resolve generate-if condition")
 
-            if rslt.value > 0:
+            if rslt.value != 0:
                 label = self._if_true(node)
                 if node.true_statement is not None:
                     self.copyBlockingAssigns(current + ScopeLabel(label, 'if'), current)
diff --git a/pyverilog/dataflow/signalvisitor.py b/pyverilog/dataflow/signalvisitor.py
index 6c4d0e6..3b960bb 100644
--- a/pyverilog/dataflow/signalvisitor.py
+++ b/pyverilog/dataflow/signalvisitor.py
@@ -187,7 +187,7 @@ class SignalVisitor(NodeVisitor):
             rslt = self.optimize(tree)
             if not isinstance(rslt, DFEvalValue):
                 raise verror.FormatError("Can not resolve generate-if condition")
-            if rslt.value > 0:
+            if rslt.value != 0:
                 label = self._if_true(node)
             else:
                 label = self.labels.get(self.frames.getLabelKey('if'))
-- 
2.43.0


From 28a21ad78b07944017c7b034608ae0953a80e023 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:40:30 +0000
Subject: [PATCH 35/76] fix: a part of a concatenation is taken at its own
 position in each element

---
 pyverilog/dataflow/optimizer.py | 95 ++++++++++++---------------------
 1 file changed, 34 insertions(+), 61 deletions(-)

diff --git a/pyverilog/dataflow/optimizer.py b/pyverilog/dataflow/optimizer.py
index 4bedd35..b5f639d 100644
--- a/pyverilog/dataflow/optimizer.py
+++ b/pyverilog/dataflow/optimizer.py
@@ -451,73 +451,46 @@ class VerilogOptimizer(object):
         return self.takePart(nextnodes, ptr, ptr)
 
     def takePart(self, nextnodes, msb, lsb):
-        widlist = []
-        for n in reversed(nextnodes):  # from LSB
-            widlist.append(self.getWidth(n))
         lsbcut = min(msb.value, lsb.value)
         msbcut = max(msb.value, lsb.value)
-        cutwidth = msbcut - lsbcut + 1
 
-        widsum = 0
-        widpos = 1
-        widoffset = 0
         usednodes = []
-        lsb = -1
-        msb = -1
-        lsboffset = -1
-        msboffset = -1
-        use = False
-        for w in widlist:  # from LSB
-            if lsbcut >= widoffset and lsbcut < widoffset + w:
-                lsb = widoffset
-                lsboffset = lsbcut - lsb
-                use = True
-            if use:
-                widsum += w
-                usednodes.append(self.optimizeConstant(nextnodes[-widpos]))
-            if msbcut >= widoffset and msbcut < widoffset + w:
-                msb = widoffset + w - 1
-                msboffset = msb - msbcut
-                break
-            widpos += 1
-            widoffset += w
-
+        offset = 0
+        for n in reversed(nextnodes):  # from LSB
+            width = self.getWidth(n)
+            lo = max(lsbcut - offset, 0)
+            hi = min(msbcut - offset, width - 1)
+            if lo <= hi:
+                node = self.optimizeConstant(n)
+                if lo > 0 or hi < width - 1:
+                    node = self.takeNodePart(node, hi, lo)
+                usednodes.append(node)
+            offset += width
+
+        if msbcut >= offset:
+            usednodes.append(DFUndefined(msbcut - max(offset, lsbcut) + 1))
+        if len(usednodes) == 1:
+            return usednodes[0]
         usednodes.reverse()
+        return DFConcat(tuple(usednodes))
 
-        if len(usednodes) == 0:
-            return DFUndefined(cutwidth)
-        if msboffset < 0:
-            if lsboffset == 0:
-                return DFConcat((DFUndefined(cutwidth - widsum),) + tuple(usednodes))
-            if len(usednodes) == 1:
-                return DFConcat((DFUndefined(cutwidth - widsum + lsboffset), DFPartselect(usednodes[0], DFEvalValue(widsum - 1), DFEvalValue(lsb + lsboffset))))
-            return DFConcat((DFUndefined(cutwidth - widsum + lsboffset), DFPartselect(DFConcat(tuple(usednodes)), DFEvalValue(widsum - 1), DFEvalValue(lsb + lsboffset))))
-        if lsboffset == 0 and msboffset == 0:
-            if len(usednodes) == 1:
-                return usednodes[0]
-            return DFConcat(tuple(usednodes))
-
-        if len(usednodes) == 1:
-            return DFPartselect(usednodes[0], DFEvalValue(msb - msboffset), DFEvalValue(lsb + lsboffset))
-
-        ret_usednodes = []
-        usednodes_cnt = 0
-        for node in reversed(usednodes):  # from LSB
-            if usednodes_cnt == 0 and lsboffset > 0:
-                lsbval = lsboffset
-                msbval = widlist[usednodes_cnt] - 1
-                ret_usednodes.append(self.optimizeConstant(
-                    DFPartselect(node, DFEvalValue(msbval), DFEvalValue(lsbval))))
-            elif usednodes_cnt == len(usednodes) - 1 and msboffset > 0:
-                lsbval = 0
-                msbval = widlist[usednodes_cnt] - msboffset - 1
-                ret_usednodes.append(self.optimizeConstant(
-                    DFPartselect(node, DFEvalValue(msbval), DFEvalValue(lsbval))))
-            else:
-                ret_usednodes.append(self.optimizeConstant(node))
-            usednodes_cnt += 1
-        ret_usednodes.reverse()
-        return DFPartselect(DFConcat(tuple(ret_usednodes)), DFEvalValue(msb - msboffset), DFEvalValue(lsb + lsboffset))
+    def takeNodePart(self, node, hi, lo):
+        """ takes the bits from lo to hi, where 0 is the rightmost bit of the node """
+        if isinstance(node, DFUndefined):
+            return DFUndefined(hi - lo + 1)
+        base = None
+        if isinstance(node, DFTerminal):
+            base = self.optimizeConstant(self.getTerm(node.name).lsb)
+        if isinstance(node, DFPartselect):
+            base = self.optimizeConstant(node.lsb)
+            node = node.var
+        if isinstance(base, DFEvalValue):
+            lo += base.value
+            hi += base.value
+        elif base is not None:
+            return DFPartselect(node, DFOperator((base, DFEvalValue(hi)), 'Plus'),
+                                DFOperator((base, DFEvalValue(lo)), 'Plus'))
+        return self.optimizeConstant(DFPartselect(node, DFEvalValue(hi), DFEvalValue(lo)))
 
     def _isPowerOf2(self, value):
         if value <= 0:
-- 
2.43.0


From 667b22f5fe8781b5ea51f86608e9e14fd2203550 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:41:28 +0000
Subject: [PATCH 36/76] fix: comparisons, reductions, logical operators and
 shifts keep their own width

---
 pyverilog/dataflow/optimizer.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pyverilog/dataflow/optimizer.py b/pyverilog/dataflow/optimizer.py
index b5f639d..1e55b3e 100644
--- a/pyverilog/dataflow/optimizer.py
+++ b/pyverilog/dataflow/optimizer.py
@@ -19,7 +19,11 @@ from pyverilog.dataflow.dataflow import *
 
 class VerilogOptimizer(object):
     default_width = 32
-    compare_ops = ('LessThan', 'GreaterThan', 'LassEq', 'GreaterEq', 'Eq', 'NotEq', 'Eql', 'NotEql')
+    compare_ops = ('LessThan', 'GreaterThan', 'LessEq', 'GreaterEq', 'Eq', 'NotEq', 'Eql', 'NotEql')
+    # operators whose result has one bit
+    single_bit_ops = compare_ops + ('Land', 'Lor', 'Ulnot', 'Uand', 'Unand', 'Uor', 'Unor', 'Uxor', 'Uxnor')
+    # operators whose result has the width of the left operand
+    left_width_ops = ('Sll', 'Srl', 'Sla', 'Sra', 'Power')
 
     def __init__(self, terms, constlist=None, default_width=32, level=2):
         self.terms = terms
@@ -183,6 +187,10 @@ class VerilogOptimizer(object):
         rslt = self._evalOperator(operator, tuple(valuelist), width)
         if rslt is None:
             return None
+        if operator in self.single_bit_ops:
+            return DFEvalValue(rslt, 1)
+        if operator in self.left_width_ops:
+            return DFEvalValue(rslt, nextnodes[0].width)
         return DFEvalValue(rslt, width)
 
     def _evalOperator(self, operator, valuelist, width=default_width):
@@ -323,10 +331,10 @@ class VerilogOptimizer(object):
             width = abs(msb - lsb) + 1
             return width
         if isinstance(node, DFOperator):
-            if node.operator in self.compare_ops:
-                return 1
-            if node.operator == 'Land' or node.operator == 'Lor':
+            if node.operator in self.single_bit_ops:
                 return 1
+            if node.operator in self.left_width_ops:
+                return self.getWidth(node.nextnodes[0])
             maxwidth = 0
             for n in node.nextnodes:
                 width = self.getWidth(n)
-- 
2.43.0


From 9edb8798acc6694ae8857fbce9278879d00082f1 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:43:41 +0000
Subject: [PATCH 37/76] fix: the intermediate variable of a part has the width
 of the part

---
 pyverilog/dataflow/bindvisitor.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index 56e7c73..481826f 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -1436,6 +1436,9 @@ class BindVisitor(NodeVisitor):
             newterm = copy.deepcopy(term)
             newterm.name = renamed_dname
             newterm.termtype = set(['Rename'])
+            if d[1] is not None and d[2] is not None:  # stands for the part
+                newterm.msb = d[1]
+                newterm.lsb = d[2]
             self.dataflow.addTerm(renamed_dname, newterm)
             newd = (renamed_dname,) + d[1:]
             renamed_dst += (newd,)
-- 
2.43.0


From d34c76b5f69f90813a743aa17ddd2fddcf9a3d46 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:44:33 +0000
Subject: [PATCH 38/76] fix: a constant is cut to the width of the signal that
 holds it

---
 pyverilog/dataflow/optimizer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyverilog/dataflow/optimizer.py b/pyverilog/dataflow/optimizer.py
index 1e55b3e..d9521a9 100644
--- a/pyverilog/dataflow/optimizer.py
+++ b/pyverilog/dataflow/optimizer.py
@@ -127,6 +127,8 @@ class VerilogOptimizer(object):
                 lsb_val = self.optimizeConstant(lsb)
                 if isinstance(msb_val, DFEvalValue) and isinstance(lsb_val, DFEvalValue):
                     constwidth = msb_val.value - lsb_val.value + 1
+                    if isinstance(const.value, int) and const.value >= 2 ** constwidth:
+                        return DFEvalValue(const.value % (2 ** constwidth), constwidth)
             return DFEvalValue(const.value, constwidth)
 
         if isinstance(tree, DFConcat):
-- 
2.43.0


From ab986acc42209c7d43e40635542cb113de0ca530 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:48:53 +0000
Subject: [PATCH 39/76] fix: merging partial definitions keeps the positions of
 the parts and the bits that are not assigned

---
 pyverilog/dataflow/merge.py   | 71 +++++++++++++++++++++++++----------
 pyverilog/dataflow/replace.py |  9 +++++
 2 files changed, 60 insertions(+), 20 deletions(-)

diff --git a/pyverilog/dataflow/merge.py b/pyverilog/dataflow/merge.py
index c3216aa..53e0bc3 100644
--- a/pyverilog/dataflow/merge.py
+++ b/pyverilog/dataflow/merge.py
@@ -14,6 +14,7 @@ import os
 import pyverilog.utils.verror as verror
 import pyverilog.utils.signaltype as signaltype
 import pyverilog.dataflow.reorder as reorder
+import pyverilog.dataflow.replace as replace
 from pyverilog.dataflow.dataflow import *
 from pyverilog.dataflow.visit import *
 from pyverilog.dataflow.optimizer import VerilogOptimizer
@@ -152,8 +153,12 @@ class VerilogDataflowMerge(object):
                 ret = DFBranch(DFOperator((DFEvalValue(c), ptr), 'Eq'), truetree, ret)
             return ret
 
-        if len(bindlist) == 1:
+        if len(bindlist) == 1 and self.isWhole(bindlist[0]):
             return bindlist[0].tree
+        for bind in bindlist:
+            self.setBindRange(bind)
+            if bind.msb is None or bind.lsb is None:  # a bit at a variable position
+                return DFTerminal(termname)
         new_tree = self.getMergedTree(bindlist)
         return self.optimizer.optimize(new_tree)
 
@@ -279,27 +284,29 @@ class VerilogDataflowMerge(object):
 
     def getMergedTree(self, optimized_bindlist):
         concatlist = []
-        last_msb = -1
-        last_ptr = -1
-
-        def bindkey(x):
-            lsb = 0 if x.lsb is None else x.lsb.value
-            ptr = 0 if not isinstance(x.ptr, DFEvalValue) else x.ptr.value
-            term = self.getTerm(x.dest)
-            length = abs(self.optimizer.optimize(term.msb).value -
-                         self.optimizer.optimize(term.lsb).value) + 1
-            return ptr * length + lsb
-        for bind in sorted(optimized_bindlist, key=bindkey):
-            lsb = 0 if bind.lsb is None else bind.lsb.value
-            if last_ptr != (-1 if not isinstance(bind.ptr, DFEvalValue) else bind.ptr.value):
-                continue
-            if last_msb + 1 < lsb:
-                concatlist.append(DFUndefined(last_msb - lsb - 1))
-            concatlist.append(bind.tree)
-            last_msb = -1 if bind.msb is None else bind.msb.value
-            last_ptr = -1 if not isinstance(bind.ptr, DFEvalValue) else bind.ptr.value
+        dest = optimized_bindlist[0].dest
+        term_msb, term_lsb = self.getTermRange(dest)
+        next_lsb = term_lsb
+        for bind in sorted(optimized_bindlist, key=lambda x: x.lsb.value):
+            if next_lsb < bind.lsb.value:  # keeps its value
+                concatlist.append(self.makePart(dest, bind.lsb.value - 1, next_lsb, bind.ptr))
+            hold = self.makePart(dest, bind.msb.value, bind.lsb.value, bind.ptr)
+            concatlist.append(replace.replaceNone(bind.tree, hold))
+            next_lsb = bind.msb.value + 1
+        if next_lsb <= term_msb:
+            concatlist.append(self.makePart(dest, term_msb, next_lsb, optimized_bindlist[0].ptr))
         return DFConcat(tuple(reversed(concatlist)))
 
+    def makePart(self, termname, msb, lsb, ptr=None):
+        tree = DFTerminal(termname)
+        if ptr is not None:
+            tree = DFPointer(tree, ptr)
+        return DFPartselect(tree, DFEvalValue(msb), DFEvalValue(lsb))
+
+    def getTermRange(self, termname):
+        term = self.getTerm(termname)
+        return self.optimizer.optimize(term.msb).value, self.optimizer.optimize(term.lsb).value
+
     def getOptimizedBindlist(self, bindlist):
         if len(bindlist) == 0:
             return ()
@@ -317,10 +324,34 @@ class VerilogDataflowMerge(object):
             new_bindlist.append(new_bind)
         if len(new_bindlist) == 1:
             return (new_bindlist[0],)
+        for bind in new_bindlist:
+            self.setBindRange(bind)
         split_positions = self.splitPositions(tuple(new_bindlist))
         new_bindlist = self.splitBindlist(tuple(new_bindlist), split_positions)
         return self.mergeBindlist(tuple(new_bindlist))
 
+    def isWhole(self, bind):
+        """ whether the definition is one of the whole signal """
+        if bind.msb is None and bind.lsb is None:
+            return bind.ptr is None
+        return (isinstance(bind.msb, DFEvalValue) and isinstance(bind.lsb, DFEvalValue) and
+                (bind.msb.value, bind.lsb.value) == self.getTermRange(bind.dest))
+
+    def setBindRange(self, bind):
+        """ gives a definition of one bit or of the whole signal its range """
+        if bind.msb is not None and bind.lsb is not None:
+            return
+        if self.getTermDims(bind.dest) is None and bind.ptr is not None:
+            if not isinstance(bind.ptr, DFEvalValue):
+                return
+            bind.msb = bind.ptr
+            bind.lsb = bind.ptr
+            bind.ptr = None
+            return
+        msb, lsb = self.getTermRange(bind.dest)
+        bind.msb = DFEvalValue(msb)
+        bind.lsb = DFEvalValue(lsb)
+
     def mergeBindlist(self, bindlist):
         merged_bindlist = []
         last_bind = None
diff --git a/pyverilog/dataflow/replace.py b/pyverilog/dataflow/replace.py
index de4ac8b..200ae27 100644
--- a/pyverilog/dataflow/replace.py
+++ b/pyverilog/dataflow/replace.py
@@ -14,6 +14,15 @@ import os
 from pyverilog.dataflow.dataflow import *
 
 
+def replaceNone(tree, node):
+    """ replaces the branches without a value """
+    if tree is None:
+        return node
+    if isinstance(tree, DFBranch):
+        return DFBranch(tree.condnode, replaceNone(tree.truenode, node), replaceNone(tree.falsenode, node))
+    return tree
+
+
 def replaceUndefined(tree, termname):
     if tree is None:
         return DFTerminal(termname)
-- 
2.43.0


From 83133feffcd10b9e40cebca65cafea8725af7974 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:48:53 +0000
Subject: [PATCH 40/76] fix: walkBind accepts the names of signals in generate
 loops

---
 pyverilog/dataflow/walker.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyverilog/dataflow/walker.py b/pyverilog/dataflow/walker.py
index 5b69358..af5d2cc 100644
--- a/pyverilog/dataflow/walker.py
+++ b/pyverilog/dataflow/walker.py
@@ -27,6 +27,10 @@ class VerilogDataflowWalker(VerilogDataflowMerge):
 
     def walkBind(self, name, step=0):
         termname = util.toTermname(name)
+        if not termname in self.terms:
+            term = self.getTerm(str(name))
+            if term is not None:
+                termname = term.name
         if not termname in self.terms:
             raise verror.DefinitionError('No such signals: %s' % str(name))
         tree = self.getTree(termname)
-- 
2.43.0


From d60ffca1354024ba8b7464e9420975dac1dc1d1b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:50:07 +0000
Subject: [PATCH 41/76] fix: walking through a signal moves selected positions
 by the signal's lowest index

---
 pyverilog/dataflow/walker.py | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/pyverilog/dataflow/walker.py b/pyverilog/dataflow/walker.py
index af5d2cc..96008ab 100644
--- a/pyverilog/dataflow/walker.py
+++ b/pyverilog/dataflow/walker.py
@@ -100,10 +100,11 @@ class VerilogDataflowWalker(VerilogDataflowMerge):
             msb = self.walkTree(tree.msb, visited, step, delay)
             lsb = self.walkTree(tree.lsb, visited, step, delay)
             var = self.walkTree(tree.var, visited, step, delay, msb=msb, lsb=lsb)
-            if isinstance(var, DFPartselect):
-                child_lsb = self.getTerm(str(tree.var)).lsb.eval()
-                return DFPartselect(var.var, DFIntConst(str(msb.eval() + var.lsb.eval() - child_lsb)),
-                                    DFIntConst(str(lsb.eval() + var.lsb.eval() - child_lsb)))
+            if var != tree.var:
+                base, offset = self.getBase(tree.var, var)
+                if isinstance(var, DFPartselect):
+                    var = var.var
+                return DFPartselect(var, self.moveIndex(msb, base, offset), self.moveIndex(lsb, base, offset))
             return DFPartselect(var, msb, lsb)
 
         if isinstance(tree, DFPointer):
@@ -113,6 +114,11 @@ class VerilogDataflowWalker(VerilogDataflowMerge):
                 if (self.getTermDims(tree.var.name) is not None and
                         not (isinstance(var, DFTerminal) and var.name == tree.var.name)):
                     return var
+                if self.getTermDims(tree.var.name) is None and var != tree.var:
+                    base, offset = self.getBase(tree.var, var)
+                    if isinstance(var, DFPartselect):
+                        var = var.var
+                    return DFPointer(var, self.moveIndex(ptr, base, offset))
             return DFPointer(var, ptr)
 
         if isinstance(tree, DFConcat):
@@ -123,3 +129,21 @@ class VerilogDataflowWalker(VerilogDataflowMerge):
 
         raise verror.DefinitionError(
             'Undefined Node Type: %s : %s' % (str(type(tree)), str(tree)))
+
+    def getBase(self, var, walked):
+        """ the indices of the rightmost bit of a signal and of its walked definition """
+        return self.getRightmost(var), self.getRightmost(walked)
+
+    def getRightmost(self, tree):
+        lsb = None
+        if isinstance(tree, DFTerminal):
+            lsb = self.getTerm(tree.name).lsb
+        if isinstance(tree, DFPartselect):
+            lsb = tree.lsb
+        return DFEvalValue(0) if lsb is None else self.optimizer.optimize(lsb)
+
+    def moveIndex(self, index, base, offset):
+        """ the index in a walked definition for an index in a signal """
+        if base == offset:
+            return index
+        return self.optimizer.optimize(DFOperator((DFOperator((index, base), 'Minus'), offset), 'Plus'))
-- 
2.43.0


From 1a1165e6c0a6cf36dbd572a6dba438c16af7f2e9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:52:33 +0000
Subject: [PATCH 42/76] fix: a supply net with a range has all of its bits

---
 pyverilog/dataflow/bindvisitor.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pyverilog/dataflow/bindvisitor.py b/pyverilog/dataflow/bindvisitor.py
index 481826f..cc3ac73 100644
--- a/pyverilog/dataflow/bindvisitor.py
+++ b/pyverilog/dataflow/bindvisitor.py
@@ -100,7 +100,11 @@ class BindVisitor(NodeVisitor):
         self.addTerm(node)
         current = self.frames.getCurrent()
         name = current + ScopeLabel(node.name, 'signal')
-        self.addBind(node.name, node.value, bindtype='parameter')
+        value = node.value
+        if node.width is not None:  # each bit of the net
+            value = Repeat(IntConst("1'd" + value.value),
+                           Plus(Minus(node.width.msb, node.width.lsb), IntConst('1')))
+        self.addBind(node.name, value, bindtype='parameter')
 
     def visit_Localparam(self, node):
         self.addTerm(node)
-- 
2.43.0


From 3ce3b14064da0716f1ce8b76d69203a01cefd8e0 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:52:33 +0000
Subject: [PATCH 43/76] fix: negative constants in a concatenation are cut to
 their width

---
 pyverilog/dataflow/optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyverilog/dataflow/optimizer.py b/pyverilog/dataflow/optimizer.py
index d9521a9..6e40a01 100644
--- a/pyverilog/dataflow/optimizer.py
+++ b/pyverilog/dataflow/optimizer.py
@@ -370,7 +370,7 @@ class VerilogOptimizer(object):
         for node in nextnodes:
             width = self.getWidth(node)
             sum_width += width
-            concatval = (concatval << width) | node.value
+            concatval = (concatval << width) | (node.value % (2 ** width))
         return DFEvalValue(concatval, sum_width)
 
     def isCondTrue(self, cond):
-- 
2.43.0


From b80ea7bc10be6a72b9dba30b830337805455126d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:54:03 +0000
Subject: [PATCH 44/76] fix: a select of a constant counts its positions from
 the lowest index of the constant

---
 pyverilog/dataflow/optimizer.py | 33 ++++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/pyverilog/dataflow/optimizer.py b/pyverilog/dataflow/optimizer.py
index 6e40a01..6430df5 100644
--- a/pyverilog/dataflow/optimizer.py
+++ b/pyverilog/dataflow/optimizer.py
@@ -143,9 +143,13 @@ class VerilogOptimizer(object):
             var = self.optimizeConstant(tree.var)
             msb = self.optimizeConstant(tree.msb)
             lsb = self.optimizeConstant(tree.lsb)
-            if isinstance(var, DFEvalValue) and isinstance(msb, DFEvalValue) and isinstance(msb, DFEvalValue):
-                evalcc = self.evalPartselect(var, msb, lsb)
-                return evalcc
+            if isinstance(var, DFEvalValue) and isinstance(msb, DFEvalValue) and isinstance(lsb, DFEvalValue):
+                base = self.getTermLsb(tree.var)
+                if base is not None:
+                    return self.evalPartselect(var, DFEvalValue(msb.value - base), DFEvalValue(lsb.value - base))
+                return DFPartselect(tree.var, msb, lsb)
+            if isinstance(var, DFEvalValue) and self.getTermLsb(tree.var) != 0:
+                return DFPartselect(tree.var, msb, lsb)
             return DFPartselect(var, msb, lsb)
 
         if isinstance(tree, DFPointer):
@@ -157,8 +161,12 @@ class VerilogOptimizer(object):
             if term.dims is not None:
                 return DFPointer(var, ptr)
             if isinstance(var, DFEvalValue) and isinstance(ptr, DFEvalValue):
-                evalcc = self.evalPointer(var, ptr)
-                return evalcc
+                base = self.getTermLsb(tree.var)
+                if base is not None:
+                    return self.evalPointer(var, DFEvalValue(ptr.value - base))
+                return DFPointer(tree.var, ptr)
+            if isinstance(var, DFEvalValue) and self.getTermLsb(tree.var) != 0:
+                return DFPointer(tree.var, ptr)
             return DFPointer(var, ptr)
 
         if isinstance(tree, DFSyscall):
@@ -383,14 +391,21 @@ class VerilogOptimizer(object):
     def evalPartselect(self, var, msb, lsb):
         width = msb.value - lsb.value + 1
         partval = var.value >> lsb.value
-        if partval >= 2 ** width:
-            partval = partval % (2 ** width)
-        return DFEvalValue(partval, width)
+        return DFEvalValue(partval % (2 ** width), width)
 
     def evalPointer(self, var, ptr):
-        ptrval = (var >> ptr) & 0x1
+        ptrval = (var.value >> ptr.value) & 0x1
         return DFEvalValue(ptrval, 1)
 
+    def getTermLsb(self, node):
+        """ the index of the rightmost bit, or None if it is not known """
+        if not isinstance(node, DFTerminal):
+            return 0
+        lsb = self.optimizeConstant(self.getTerm(node.name).lsb)
+        if lsb is None:
+            return 0
+        return lsb.value if isinstance(lsb, DFEvalValue) else None
+
     def optimizeHierarchy(self, tree):
         if tree is None:
             return None
-- 
2.43.0


From 92d5139ae4f5428e8154958234e24d7af6569255 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:54:03 +0000
Subject: [PATCH 45/76] fix: constant division is exact, truncates towards zero
 and does not fail for a divisor of zero

---
 pyverilog/dataflow/optimizer.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/pyverilog/dataflow/optimizer.py b/pyverilog/dataflow/optimizer.py
index 6430df5..c060721 100644
--- a/pyverilog/dataflow/optimizer.py
+++ b/pyverilog/dataflow/optimizer.py
@@ -255,11 +255,18 @@ class VerilogOptimizer(object):
         if operator == 'Times':
             return valuelist[0] * valuelist[1]
         if operator == 'Divide':
-            value = valuelist[0] / valuelist[1]
+            if valuelist[1] == 0:
+                return None
             if isinstance(valuelist[0], int) and isinstance(valuelist[1], int):
-                return int(value)
-            return value
+                value = abs(valuelist[0]) // abs(valuelist[1])
+                return value if (valuelist[0] < 0) == (valuelist[1] < 0) else -value
+            return valuelist[0] / valuelist[1]
         if operator == 'Mod':
+            if valuelist[1] == 0:
+                return None
+            if isinstance(valuelist[0], int) and isinstance(valuelist[1], int):
+                value = abs(valuelist[0]) % abs(valuelist[1])
+                return value if valuelist[0] >= 0 else -value
             return valuelist[0] % valuelist[1]
         if operator == 'Plus':
             return valuelist[0] + valuelist[1]
-- 
2.43.0


From 8032dd43e1844e6aebcf731e0eae7ec0f0b2fd07 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:55:12 +0000
Subject: [PATCH 46/76] fix: multiplications and divisions by a wider power of
 two keep their width

---
 pyverilog/dataflow/optimizer.py | 29 +++++++++++++++++------------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/pyverilog/dataflow/optimizer.py b/pyverilog/dataflow/optimizer.py
index c060721..9c55cb7 100644
--- a/pyverilog/dataflow/optimizer.py
+++ b/pyverilog/dataflow/optimizer.py
@@ -374,7 +374,7 @@ class VerilogOptimizer(object):
                 width = abs(msb - lsb) + 1
                 return width
             return 1
-        if isinstance(tree, DFSyscall):
+        if isinstance(node, DFSyscall):
             return self.default_width
 
         raise FormatError('Illegal Pointer in getWidth()')
@@ -525,12 +525,14 @@ class VerilogOptimizer(object):
         return self.optimizeConstant(DFPartselect(node, DFEvalValue(hi), DFEvalValue(lo)))
 
     def _isPowerOf2(self, value):
-        if value <= 0:
+        return value > 0 and value & (value - 1) == 0
+
+    def isWidest(self, operand, node):
+        """ whether an operand alone is known to have the width of the operation """
+        try:
+            return self.getWidth(operand) == self.getWidth(node)
+        except AttributeError:  # the width is not constant
             return False
-        p = math.log(value, 2)
-        if p % 1.0 == 0:
-            return True
-        return False
 
     def replaceOperator(self, node):
         if not isinstance(node, DFOperator):
@@ -538,18 +540,21 @@ class VerilogOptimizer(object):
         if (node.operator == 'Times' and
             (isinstance(node.nextnodes[1], DFEvalValue) and
              isinstance(node.nextnodes[1].value, int) and
-             self._isPowerOf2(node.nextnodes[1].value))):
-            return DFOperator((node.nextnodes[0], DFEvalValue(int(math.log(node.nextnodes[1].value, 2)))), 'Sll')
+             self._isPowerOf2(node.nextnodes[1].value)) and
+                self.isWidest(node.nextnodes[0], node)):
+            return DFOperator((node.nextnodes[0], DFEvalValue(node.nextnodes[1].value.bit_length() - 1)), 'Sll')
         if (node.operator == 'Times' and
             (isinstance(node.nextnodes[0], DFEvalValue) and
              isinstance(node.nextnodes[0].value, int) and
-             self._isPowerOf2(node.nextnodes[0].value))):
-            return DFOperator((node.nextnodes[1], DFEvalValue(int(math.log(node.nextnodes[0].value, 2)))), 'Sll')
+             self._isPowerOf2(node.nextnodes[0].value)) and
+                self.isWidest(node.nextnodes[1], node)):
+            return DFOperator((node.nextnodes[1], DFEvalValue(node.nextnodes[0].value.bit_length() - 1)), 'Sll')
         if (node.operator == 'Divide'
             and (isinstance(node.nextnodes[1], DFEvalValue) and
              isinstance(node.nextnodes[1].value, int) and
-                 self._isPowerOf2(node.nextnodes[1].value))):
-            return DFOperator((node.nextnodes[0], DFEvalValue(int(math.log(node.nextnodes[1].value, 2)))), 'Sra')
+                 self._isPowerOf2(node.nextnodes[1].value)) and
+                self.isWidest(node.nextnodes[0], node)):
+            return DFOperator((node.nextnodes[0], DFEvalValue(node.nextnodes[1].value.bit_length() - 1)), 'Sra')
         return node
 
     def mergeConcat(self, concatnode):
-- 
2.43.0


From 975ed7f70459627c43347c43e77b78bc543efb6b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:55:12 +0000
Subject: [PATCH 47/76] fix: an or with a wider zero keeps its width

---
 pyverilog/dataflow/optimizer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pyverilog/dataflow/optimizer.py b/pyverilog/dataflow/optimizer.py
index 9c55cb7..593df17 100644
--- a/pyverilog/dataflow/optimizer.py
+++ b/pyverilog/dataflow/optimizer.py
@@ -687,9 +687,9 @@ class VerilogOptimizer(object):
         if node.operator == 'Or':
             return node.nextnodes[0]
         if node.operator == 'Land':
-            return node.nextnodes[0]
+            return self.toBool(node.nextnodes[0])
         if node.operator == 'Lor':
-            return node.nextnodes[0]
+            return self.toBool(node.nextnodes[0])
         if node.operator == 'LessThan':
             return DFEvalValue(0, 1)  # value, width
         if node.operator == 'GreaterThan':
@@ -742,9 +742,9 @@ class VerilogOptimizer(object):
                     return node
             return node
         if node.operator == 'Or':
-            if isinstance(left, DFEvalValue) and left.value == 0:
+            if isinstance(left, DFEvalValue) and left.value == 0 and self.isWidest(right, node):
                 return right
-            if isinstance(right, DFEvalValue) and right.value == 0:
+            if isinstance(right, DFEvalValue) and right.value == 0 and self.isWidest(left, node):
                 return left
             if isinstance(left, DFOperator) and left.operator == 'Unot'\
                     and left.nextnodes[0] == right:
-- 
2.43.0


From 835b051f29f797c6fe938b9880a87dd1ec51dbec Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 03:55:48 +0000
Subject: [PATCH 48/76] fix: simplified logical operators keep a value of one
 bit

---
 pyverilog/dataflow/optimizer.py | 49 +++++++++++++++++++++++----------
 1 file changed, 35 insertions(+), 14 deletions(-)

diff --git a/pyverilog/dataflow/optimizer.py b/pyverilog/dataflow/optimizer.py
index 593df17..d019a3b 100644
--- a/pyverilog/dataflow/optimizer.py
+++ b/pyverilog/dataflow/optimizer.py
@@ -770,19 +770,19 @@ class VerilogOptimizer(object):
                 return DFEvalValue(0, 1)
             if isinstance(right, DFEvalValue) and right.value == 0:
                 return DFEvalValue(0, 1)
-            if isinstance(left, DFEvalValue) and left.value > 0:
-                return right
-            if isinstance(right, DFEvalValue) and right.value > 0:
-                return left
+            if isinstance(left, DFEvalValue) and left.value != 0:
+                return self.toBool(right)
+            if isinstance(right, DFEvalValue) and right.value != 0:
+                return self.toBool(left)
             if isinstance(left, DFOperator) and left.operator == 'Unot'\
                     and left.nextnodes[0] == right:
-                if self.getWidth(node) == 1:
+                if self.isBit(right):
                     return DFEvalValue(0, 1)
                 else:
                     return node
             if isinstance(right, DFOperator) and right.operator == 'Unot'\
                     and right.nextnodes[0] == left:
-                if self.getWidth(node) == 1:
+                if self.isBit(left):
                     return DFEvalValue(0, 1)
                 else:
                     return node
@@ -855,12 +855,12 @@ class VerilogOptimizer(object):
             return node
         if node.operator == 'Lor':
             if isinstance(left, DFEvalValue) and left.value == 0:
-                return right
+                return self.toBool(right)
             if isinstance(right, DFEvalValue) and right.value == 0:
-                return left
-            if isinstance(left, DFEvalValue) and left.value > 0:
+                return self.toBool(left)
+            if isinstance(left, DFEvalValue) and left.value != 0:
                 return DFEvalValue(1, 1)
-            if isinstance(right, DFEvalValue) and right.value > 0:
+            if isinstance(right, DFEvalValue) and right.value != 0:
                 return DFEvalValue(1, 1)
             if isinstance(left, DFOperator) and left.operator == 'Unot'\
                     and left.nextnodes[0] == right:
@@ -879,28 +879,45 @@ class VerilogOptimizer(object):
                     and isinstance(left.nextnodes[0], DFOperator) and left.nextnodes[0].operator == 'Ulnot'\
                     and left.nextnodes[0].nextnodes[0] == right.nextnodes[0]\
                     and left.nextnodes[1] == right.nextnodes[1]:
-                return left.nextnodes[1]
+                return self.toBool(left.nextnodes[1])
             if isinstance(left, DFOperator) and left.operator == 'Land'\
                     and isinstance(right, DFOperator) and right.operator == 'Land'\
                     and isinstance(left.nextnodes[1], DFOperator) and left.nextnodes[1].operator == 'Ulnot'\
                     and left.nextnodes[1].nextnodes[0] == right.nextnodes[0]\
                     and left.nextnodes[0] == right.nextnodes[1]:
-                return left.nextnodes[0]
+                return self.toBool(left.nextnodes[0])
             if isinstance(right, DFOperator) and right.operator == 'Land'\
                     and isinstance(left, DFOperator) and left.operator == 'Land'\
                     and isinstance(right.nextnodes[0], DFOperator) and right.nextnodes[0].operator == 'Ulnot'\
                     and right.nextnodes[0].nextnodes[0] == left.nextnodes[0]\
                     and right.nextnodes[1] == left.nextnodes[1]:
-                return right.nextnodes[1]
+                return self.toBool(right.nextnodes[1])
             if isinstance(right, DFOperator) and right.operator == 'Land'\
                     and isinstance(left, DFOperator) and left.operator == 'Land'\
                     and isinstance(right.nextnodes[1], DFOperator) and right.nextnodes[1].operator == 'Ulnot'\
                     and right.nextnodes[1].nextnodes[0] == left.nextnodes[0]\
                     and right.nextnodes[0] == left.nextnodes[1]:
-                return right.nextnodes[0]
+                return self.toBool(right.nextnodes[0])
             return node
         return node
 
+    def isBit(self, node):
+        """ whether a node is known to have one bit """
+        if isinstance(node, DFOperator) and node.operator in self.single_bit_ops:
+            return True
+        try:
+            return self.getWidth(node) == 1
+        except AttributeError:  # the width is not constant
+            return False
+
+    def toBool(self, node):
+        """ one bit for the value of a condition """
+        if isinstance(node, DFEvalValue):
+            return DFEvalValue(0 if node.value == 0 else 1, 1)
+        if self.isBit(node):
+            return node
+        return DFOperator((node,), 'Uor')
+
     def mergeLandLor(self, node):
         return self.mergeLor(node)
 
@@ -943,6 +960,8 @@ class VerilogOptimizer(object):
             if not (s in ret_exist_list):
                 ret_list.append(l)
                 ret_exist_list.append(s)
+        if len(ret_list) == 1:
+            return (self.toBool(ret_list[0]),)
         return tuple(sorted(ret_list, key=lambda x: x.tocode(), reverse=True))
 
     def mergeLor(self, node):
@@ -986,6 +1005,8 @@ class VerilogOptimizer(object):
             if not (s in ret_exist_list):
                 ret_list.append(l)
                 ret_exist_list.append(s)
+        if len(ret_list) == 1:
+            return (self.toBool(ret_list[0]),)
         return tuple(sorted(ret_list, key=lambda x: x.tocode(), reverse=True))
 
 # -------------------------------------------------------------------------------
-- 
2.43.0


From 3a3a5b4c297f106c682daadc654eb4275641e15b Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 04:00:25 +0000
Subject: [PATCH 49/76] fix: overlapping definitions are split at relative
 positions and the later one is taken

---
 pyverilog/dataflow/merge.py | 115 +++++++-----------------------------
 1 file changed, 20 insertions(+), 95 deletions(-)

diff --git a/pyverilog/dataflow/merge.py b/pyverilog/dataflow/merge.py
index 53e0bc3..5ca02d6 100644
--- a/pyverilog/dataflow/merge.py
+++ b/pyverilog/dataflow/merge.py
@@ -13,7 +13,6 @@ import os
 
 import pyverilog.utils.verror as verror
 import pyverilog.utils.signaltype as signaltype
-import pyverilog.dataflow.reorder as reorder
 import pyverilog.dataflow.replace as replace
 from pyverilog.dataflow.dataflow import *
 from pyverilog.dataflow.visit import *
@@ -407,9 +406,7 @@ class VerilogDataflowMerge(object):
             return second
 
         if isinstance(first, DFBranch) and not isinstance(second, DFBranch):
-            cond_fst = self.optimizer.optimize(first.condnode)
-            appended = copy.deepcopy(second)
-            return DFBranch(cond_fst, self.appendTail(appended, first.truenode), self.appendTail(appended, first.falsenode))
+            return second
         if not isinstance(first, DFBranch) and isinstance(second, DFBranch):
             cond_snd = self.optimizer.optimize(second.condnode)
             appended = copy.deepcopy(first)
@@ -442,32 +439,15 @@ class VerilogDataflowMerge(object):
         return ret + self.splitBindPositions(bind_left, split_positions[1:])
 
     def splitBind(self, bind, splitpos):
-        tree = bind.tree
         msb = self.optimizer.optimizeConstant(bind.msb)
         lsb = self.optimizer.optimizeConstant(bind.lsb)
-        ptr = self.optimizer.optimizeConstant(bind.ptr)
-        if ptr is not None and msb is None or lsb is None:
-            if self.getTermDims(bind.dest) is not None:
-                msb = self.optimizer.optimizeConstant(copy.deepcopy(term.msb))
-                lsb = self.optimizer.optimizeConstant(copy.deepcopy(term.lsb))
-            else:
-                msb = copy.deepcopy(ptr)
-                lsb = copy.deepcopy(ptr)
-        if ptr is None and msb is None or lsb is None:
-            term = self.getTerm(bind.dest)
-            msb = self.optimizer.optimizeConstant(copy.deepcopy(term.msb))
-            lsb = self.optimizer.optimizeConstant(copy.deepcopy(term.lsb))
-        if splitpos > lsb.value and splitpos <= msb.value:  # split
+        if isinstance(msb, DFEvalValue) and splitpos > lsb.value and splitpos <= msb.value:  # split
             right_lsb = lsb.value
             right_msb = splitpos - 1
-            right_width = splitpos - lsb.value
             left_lsb = splitpos
             left_msb = msb.value
-            left_width = msb.value - splitpos + 1
-            right_tree = reorder.reorder(DFPartselect(copy.deepcopy(
-                tree), DFEvalValue(right_width - 1), DFEvalValue(0)))
-            left_tree = reorder.reorder(DFPartselect(copy.deepcopy(tree), DFEvalValue(
-                msb.value), DFEvalValue(msb.value - left_width + 1)))
+            right_tree = self.takeTreePart(bind.tree, right_msb - lsb.value, 0)
+            left_tree = self.takeTreePart(bind.tree, left_msb - lsb.value, left_lsb - lsb.value)
             right_tree = self.optimizer.optimize(right_tree)
             left_tree = self.optimizer.optimize(left_tree)
             left_bind = copy.deepcopy(bind)
@@ -481,80 +461,25 @@ class VerilogDataflowMerge(object):
             return left_bind, right_bind
         return bind, None
 
+    def takeTreePart(self, tree, msb, lsb):
+        """ takes a part of a value, where 0 is its rightmost bit """
+        if tree is None:
+            return None
+        if isinstance(tree, DFBranch):
+            return DFBranch(tree.condnode, self.takeTreePart(tree.truenode, msb, lsb),
+                            self.takeTreePart(tree.falsenode, msb, lsb))
+        if isinstance(tree, DFConcat):
+            return self.optimizer.takePart(tree.nextnodes, DFEvalValue(msb), DFEvalValue(lsb))
+        return self.optimizer.takeNodePart(tree, msb, lsb)
+
     def splitPositions(self, bindlist):
         split_positions = set([])
-        assigned_range = []  # (msb, lsb, ptr)
-
         for bind in bindlist:
-            ptr = self.optimizer.optimizeConstant(bind.ptr)
             msb = self.optimizer.optimizeConstant(bind.msb)
             lsb = self.optimizer.optimizeConstant(bind.lsb)
-            if msb is None and lsb is None:
-                term = self.getTerm(bind.dest)
-                msb = self.optimizer.optimizeConstant(term.msb)
-                lsb = self.optimizer.optimizeConstant(term.lsb)
-            elif not isinstance(msb, DFEvalValue) or not isinstance(lsb, DFEvalValue):
-                raise FormatError('MSB and LSB should be constant.')
-
-            if ptr is None or isinstance(ptr, DFEvalValue):
-                ptrval = None if ptr is None else ptr.value
-                matched_range = self.matchedRange(
-                    tuple(assigned_range), msb.value, lsb.value, ptrval)
-                unmatched_range = self.unmatchedRange(
-                    tuple(matched_range), msb.value, lsb.value, ptrval)
-                split_positions |= self.getPositionsFromRange(matched_range, ptrval)
-                assigned_range += matched_range + unmatched_range
-
-        return tuple(sorted(list(split_positions)))
-
-    def getPositionsFromRange(self, matched_range, search_ptr):
-        positions = set([])
-        for msb, lsb, ptr in matched_range:
-            if search_ptr is not None and search != ptr:
-                continue
-            positions.add(lsb)
-            positions.add(msb + 1)
-        return positions
-
-    def matchedRange(self, assigned_range, search_msb, search_lsb, search_ptr):
-        matched_range = []
-        for msb, lsb, ptr in assigned_range:
-            match = False
-            if search_ptr is not None and ptr != search_ptr:
+            if msb is None and lsb is None:  # a bit at a variable position
                 continue
-            if lsb <= search_lsb and search_lsb <= msb:
-                match = True
-                match_lsb = search_lsb
-            else:
-                match_lsb = lsb
-            if lsb <= search_msb and search_msb <= msb:
-                match = True
-                match_msb = search_msb
-            else:
-                match_msb = msb
-            if match:
-                matched_range.append((match_msb, match_lsb, search_ptr))
-        return tuple(matched_range)
-
-    def unmatchedRange(self, matched_range, search_msb, search_lsb, search_ptr):
-        unmatched_range = []
-        minval = None
-        maxval = None
-        last_msb = None
-        for msb, lsb, ptr in sorted(matched_range, key=lambda x: x[0]):
-            if search_ptr is not None and ptr != search_ptr:
-                continue
-            if minval is None or lsb < minval:
-                minval = lsb
-            if maxval is None or msb > maxval:
-                maxval = msb
-            if last_msb is not None and last_msb + 1 > lsb:
-                unmatched_range.append((last_msb + 1, lsb - 1, ptr))
-            last_msb = msb
-        if minval is None and maxval is None:
-            return ((search_msb, search_lsb, search_ptr), )
-        if search_lsb < minval:
-            unmatched_range.append((search_lsb, minval - 1, search_ptr))
-        if maxval < search_msb:
-            unmatched_range.append((maxval + 1, search_msb, search_ptr))
-        return tuple(unmatched_range)
+            if not isinstance(msb, DFEvalValue) or not isinstance(lsb, DFEvalValue):
+                raise verror.FormatError('MSB and LSB should be constant.')
+            split_positions |= set([lsb.value, msb.value + 1])
+        return tuple(sorted(list(split_positions)))
-- 
2.43.0


From 79e2a37d960945705ac4b2bf3c7a2ff6fc0c3c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:32:05 +0000
Subject: [PATCH 50/76] fix: a select of what is simplified to a signal counts
 from the lowest index of the signal

---
 pyverilog/dataflow/optimizer.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pyverilog/dataflow/optimizer.py b/pyverilog/dataflow/optimizer.py
index d019a3b..17b64d5 100644
--- a/pyverilog/dataflow/optimizer.py
+++ b/pyverilog/dataflow/optimizer.py
@@ -457,6 +457,8 @@ class VerilogOptimizer(object):
             var = self.optimizeHierarchy(tree.var)
             if isinstance(var, DFConcat) and isinstance(msb, DFEvalValue) and isinstance(lsb, DFEvalValue):
                 return self.takePart(var.nextnodes, msb, lsb)
+            if isinstance(var, DFTerminal) and not isinstance(tree.var, DFTerminal):
+                return DFPartselect(var, self.moveIndex(var, msb), self.moveIndex(var, lsb))
             if isinstance(msb, DFEvalValue) and isinstance(lsb, DFEvalValue) and lsb.value == 0 and self.getWidth(var) == (msb.value + 1):
                 return var
             return DFPartselect(var, msb, lsb)
@@ -465,6 +467,8 @@ class VerilogOptimizer(object):
             var = self.optimizeHierarchy(tree.var)
             if isinstance(var, DFConcat) and isinstance(ptr, DFEvalValue):
                 return self.takePoint(var.nextnodes, ptr)
+            if isinstance(var, DFTerminal) and not isinstance(tree.var, DFTerminal):
+                return DFPointer(var, self.moveIndex(var, ptr))
             return DFPointer(var, ptr)
         if isinstance(tree, DFConcat):
             nextnodes = []
@@ -479,6 +483,13 @@ class VerilogOptimizer(object):
 
         raise FormatError('Can not merge due to unrecognized type of tree')
 
+    def moveIndex(self, var, index):
+        """ the index of a bit that was counted from the rightmost bit of a node simplified to a signal """
+        lsb = self.optimizeConstant(self.getTerm(var.name).lsb)
+        if lsb is None or (isinstance(lsb, DFEvalValue) and lsb.value == 0):
+            return index
+        return self.optimizeConstant(DFOperator((index, lsb), 'Plus'))
+
     def takePoint(self, nextnodes, ptr):
         return self.takePart(nextnodes, ptr, ptr)
 
-- 
2.43.0


From 8d759868e0750261ca0226329cd2ee6af996dd55 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 05:06:54 +0000
Subject: [PATCH 51/76] fix: the assignment type of anything but a wire needs a
 check that does not exist

---
 pyverilog/dataflow/merge.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/pyverilog/dataflow/merge.py b/pyverilog/dataflow/merge.py
index 5ca02d6..598692e 100644
--- a/pyverilog/dataflow/merge.py
+++ b/pyverilog/dataflow/merge.py
@@ -69,8 +69,6 @@ class VerilogDataflowMerge(object):
         termtype = self.getTermtype(termname)
         if signaltype.isWire(termtype):
             return 'assign'
-        if signaltype.isWireArray(termtype):
-            return 'assign'
         if signaltype.isReg(termtype):
             if bind.isClockEdge():
                 return 'clockedge'
-- 
2.43.0


From f2da298f5d8904b5d664db7882b00eb4828ee355 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 05:06:54 +0000
Subject: [PATCH 52/76] fix: the subset of a signal in a generate block or a
 function is not found by its name

---
 pyverilog/dataflow/subset.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyverilog/dataflow/subset.py b/pyverilog/dataflow/subset.py
index 47df2d2..4b9e06f 100644
--- a/pyverilog/dataflow/subset.py
+++ b/pyverilog/dataflow/subset.py
@@ -69,6 +69,10 @@ class VerilogSubset(VerilogDataflowMerge):
         visited_sources = set()
         for target in targets:
             termname = util.toTermname(target)
+            if not termname in self.terms:
+                term = self.getTerm(str(target))
+                if term is not None:
+                    termname = term.name
             r_binds, r_sources = self.getBindSubset(termname, visited_sources)
             visited_sources |= r_sources
             visited_binddict = util.dictlistmerge(visited_binddict, r_binds)
-- 
2.43.0


From 10717a6638712d57650d08e0e315bd92bd330240 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 05:06:54 +0000
Subject: [PATCH 53/76] fix: a subset lacks the declaration of the clocks its
 registers have

---
 pyverilog/dataflow/subset.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyverilog/dataflow/subset.py b/pyverilog/dataflow/subset.py
index 4b9e06f..74f5493 100644
--- a/pyverilog/dataflow/subset.py
+++ b/pyverilog/dataflow/subset.py
@@ -50,6 +50,9 @@ class VerilogSubset(VerilogDataflowMerge):
             if bind.isClockEdge():
                 clock_name = bind.getClockName()
                 if clock_name != util.toTermname((self.topmodule, self.clock_name)):
+                    if clock_name in nextsources:
+                        continue
+                    nextsources.add(clock_name)
                     r_binds, r_sources = self.getBindSubset(clock_name, nextsources)
                     nextsources |= r_sources
                     ret_binds = util.dictlistmerge(ret_binds, r_binds)
-- 
2.43.0


From 004fb2a13700eefcc62b4e0c8f40447ddfaa7a44 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 05:08:26 +0000
Subject: [PATCH 54/76] fix: merging definitions of bits at variable positions
 fails

---
 pyverilog/dataflow/merge.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/pyverilog/dataflow/merge.py b/pyverilog/dataflow/merge.py
index 598692e..3311465 100644
--- a/pyverilog/dataflow/merge.py
+++ b/pyverilog/dataflow/merge.py
@@ -112,6 +112,9 @@ class VerilogDataflowMerge(object):
             return None
         if len(bindlist) == 0:
             return None
+        for bind in bindlist:
+            if self.isVariablePosition(bind):
+                return DFTerminal(termname)
 
         if self.getTermDims(termname) is not None:
             discretebinds = {}
@@ -154,8 +157,6 @@ class VerilogDataflowMerge(object):
             return bindlist[0].tree
         for bind in bindlist:
             self.setBindRange(bind)
-            if bind.msb is None or bind.lsb is None:  # a bit at a variable position
-                return DFTerminal(termname)
         new_tree = self.getMergedTree(bindlist)
         return self.optimizer.optimize(new_tree)
 
@@ -323,10 +324,19 @@ class VerilogDataflowMerge(object):
             return (new_bindlist[0],)
         for bind in new_bindlist:
             self.setBindRange(bind)
+        if any(self.isVariablePosition(bind) for bind in new_bindlist):
+            return tuple(new_bindlist)
         split_positions = self.splitPositions(tuple(new_bindlist))
         new_bindlist = self.splitBindlist(tuple(new_bindlist), split_positions)
         return self.mergeBindlist(tuple(new_bindlist))
 
+    def isVariablePosition(self, bind):
+        """ whether the bits the definition is of are not known """
+        if bind.msb is None and bind.lsb is None:
+            return (bind.ptr is not None and not isinstance(bind.ptr, DFEvalValue) and
+                    self.getTermDims(bind.dest) is None)
+        return not isinstance(bind.msb, DFEvalValue) or not isinstance(bind.lsb, DFEvalValue)
+
     def isWhole(self, bind):
         """ whether the definition is one of the whole signal """
         if bind.msb is None and bind.lsb is None:
@@ -475,8 +485,6 @@ class VerilogDataflowMerge(object):
         for bind in bindlist:
             msb = self.optimizer.optimizeConstant(bind.msb)
             lsb = self.optimizer.optimizeConstant(bind.lsb)
-            if msb is None and lsb is None:  # a bit at a variable position
-                continue
             if not isinstance(msb, DFEvalValue) or not isinstance(lsb, DFEvalValue):
                 raise verror.FormatError('MSB and LSB should be constant.')
             split_positions |= set([lsb.value, msb.value + 1])
-- 
2.43.0


From b0efa329efddb6d80030d831f4d20663159050e9 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 05:08:58 +0000
Subject: [PATCH 55/76] fix: the assignment type of a supply is unknown

---
 pyverilog/dataflow/merge.py   | 2 ++
 pyverilog/utils/signaltype.py | 4 ++++
 2 files changed, 6 insertions(+)

diff --git a/pyverilog/dataflow/merge.py b/pyverilog/dataflow/merge.py
index 3311465..b74b3a0 100644
--- a/pyverilog/dataflow/merge.py
+++ b/pyverilog/dataflow/merge.py
@@ -93,6 +93,8 @@ class VerilogDataflowMerge(object):
             return 'assign'
         if signaltype.isGenvar(termtype):
             return 'genvar'
+        if signaltype.isSupply(termtype):
+            return 'assign'
         raise verror.DefinitionError('Unexpected Assignment Type: %s : %s' %
                                      (str(termname), str(termtype)))
 
diff --git a/pyverilog/utils/signaltype.py b/pyverilog/utils/signaltype.py
index 4371c52..f940c4d 100644
--- a/pyverilog/utils/signaltype.py
+++ b/pyverilog/utils/signaltype.py
@@ -47,6 +47,10 @@ def isGenvar(termtype):
     return isType(termtype, 'Genvar')
 
 
+def isSupply(termtype):
+    return isType(termtype, 'Supply')
+
+
 def isParameter(termtype):
     return isType(termtype, 'Parameter')
 
-- 
2.43.0


From a1b67b2c08b46e358ae8ff768f32ddea684182a3 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 05:08:58 +0000
Subject: [PATCH 56/76] fix: the graph of a signal in a generate block or a
 function is not found by its name

---
 pyverilog/dataflow/graphgen.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyverilog/dataflow/graphgen.py b/pyverilog/dataflow/graphgen.py
index a23c406..e2985bb 100644
--- a/pyverilog/dataflow/graphgen.py
+++ b/pyverilog/dataflow/graphgen.py
@@ -56,6 +56,10 @@ class VerilogGraphGenerator(object):
 
     def generate(self, signalname, identical=False, walk=True, step=1, do_reorder=False, delay=False):
         termname = util.toTermname(signalname)
+        if not termname in self.terms:
+            term = self.treewalker.getTerm(str(signalname))
+            if term is not None:
+                termname = term.name
         tree = self.treewalker.getTree(termname)
         if tree is None:
             raise verror.DefinitionError('No such signals: %s' % str(signalname))
-- 
2.43.0


From 7eb4aa3033093c20cdcbde38da935dfaa4c6639c Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 05:15:40 +0000
Subject: [PATCH 57/76] fix: an array without a definition of each element has
 no merged tree

---
 pyverilog/dataflow/merge.py | 41 ++++++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/pyverilog/dataflow/merge.py b/pyverilog/dataflow/merge.py
index b74b3a0..aea8a5a 100644
--- a/pyverilog/dataflow/merge.py
+++ b/pyverilog/dataflow/merge.py
@@ -134,24 +134,15 @@ class VerilogDataflowMerge(object):
             if 'any' in discretebinds:
                 return DFTerminal(termname)
 
+            if ptr is None:
+                return DFTerminal(termname)
+
             if isinstance(ptr, DFEvalValue):
-                if len(discretebinds[ptr.value]) == 0:
-                    return None
-                if len(discretebinds[ptr.value]) == 1:
-                    return discretebinds[ptr.value][0].tree
-                return self.getMergedTree(discretebinds[ptr.value])
-
-            minptr = min(list(discretebinds.keys()))
-            maxptr = max(list(discretebinds.keys()))
-            ret = None
-            for c in range(minptr, maxptr + 1):
-                truetree = None
-                if len(discretebinds[c]) == 0:
-                    continue
-                if len(discretebinds[c]) == 1:
-                    truetree = discretebinds[c][0].tree
-                else:
-                    truetree = self.getMergedTree(discretebinds[c])
+                return self.getElementTree(termname, ptr, discretebinds.get(ptr.value, ()))
+
+            ret = DFPointer(DFTerminal(termname), ptr)  # an element that is never assigned
+            for c in sorted(discretebinds.keys()):
+                truetree = self.getElementTree(termname, DFEvalValue(c), discretebinds[c])
                 ret = DFBranch(DFOperator((DFEvalValue(c), ptr), 'Eq'), truetree, ret)
             return ret
 
@@ -162,6 +153,16 @@ class VerilogDataflowMerge(object):
         new_tree = self.getMergedTree(bindlist)
         return self.optimizer.optimize(new_tree)
 
+    def getElementTree(self, termname, ptr, bindlist):
+        """ an element of an array, which keeps its value where it is not assigned """
+        if len(bindlist) == 0:
+            return DFPointer(DFTerminal(termname), ptr)
+        if len(bindlist) == 1 and self.isWholeElement(bindlist[0]):
+            return replace.replaceNone(bindlist[0].tree, DFPointer(DFTerminal(termname), ptr))
+        for bind in bindlist:
+            self.setBindRange(bind)
+        return self.getMergedTree(bindlist)
+
     def getResolvedTree(self, termname, ptr=None):
         raise verror.ImplementationError()
 
@@ -346,6 +347,12 @@ class VerilogDataflowMerge(object):
         return (isinstance(bind.msb, DFEvalValue) and isinstance(bind.lsb, DFEvalValue) and
                 (bind.msb.value, bind.lsb.value) == self.getTermRange(bind.dest))
 
+    def isWholeElement(self, bind):
+        """ whether the definition is one of a whole element of an array """
+        if bind.msb is None and bind.lsb is None:
+            return True
+        return (bind.msb.value, bind.lsb.value) == self.getTermRange(bind.dest)
+
     def setBindRange(self, bind):
         """ gives a definition of one bit or of the whole signal its range """
         if bind.msb is not None and bind.lsb is not None:
-- 
2.43.0


From bcf73e5f636506702d13776a791a671092085aa8 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 05:28:07 +0000
Subject: [PATCH 58/76] fix: an instance of a module with a constant that has a
 range is rejected

---
 pyverilog/dataflow/signalvisitor.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pyverilog/dataflow/signalvisitor.py b/pyverilog/dataflow/signalvisitor.py
index 3b960bb..a1e55d9 100644
--- a/pyverilog/dataflow/signalvisitor.py
+++ b/pyverilog/dataflow/signalvisitor.py
@@ -388,9 +388,7 @@ class SignalVisitor(NodeVisitor):
                 raise verror.FormatError("Multiple definitions for Constant")
             for definition in definitions:
                 simple_definition = copy.deepcopy(definition)
-                if simple_definition.width is not None:
-                    simple_definition.width.msb = None
-                    simple_definition.width.lsb = None
+                simple_definition.width = None  # may depend on constants that are not set yet
                 term = self.makeConstantTerm(name, simple_definition, current)
                 self.setConstantTerm(name, term)
 
-- 
2.43.0


From 4f5a9446e9862035fb795a9e13ea0dc1f00e5677 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 05:29:30 +0000
Subject: [PATCH 59/76] fix: every condition in a scope named after reset is
 taken for a reset condition

---
 pyverilog/controlflow/splitter.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/pyverilog/controlflow/splitter.py b/pyverilog/controlflow/splitter.py
index c2ad643..d251cc8 100644
--- a/pyverilog/controlflow/splitter.py
+++ b/pyverilog/controlflow/splitter.py
@@ -57,12 +57,19 @@ def remove_reset_condlist(condlist):
 
 
 def _remove_reset_cond(cond):
-    condstr = cond.tostr()
-    if signaltype.isReset(condstr):
+    if _has_reset(cond):
         return None
     return cond
 
 
+def _has_reset(node):
+    if isinstance(node, DFTerminal):
+        return signaltype.isReset(str(node.name[-1]))
+    if node is None:
+        return False
+    return any(_has_reset(c) for c in node.children())
+
+
 def active_constant(termname, node, op='>', value=0):
     if not isinstance(node, DFEvalValue):
         return False
-- 
2.43.0


From 9cdd3a5ba7eb3a7391b81ac8a3dac181f5532e1f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 05:29:30 +0000
Subject: [PATCH 60/76] fix: a state compared with <= is not inferred

---
 pyverilog/utils/inference.py  | 2 +-
 pyverilog/utils/signaltype.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyverilog/utils/inference.py b/pyverilog/utils/inference.py
index d241360..b86b0fa 100644
--- a/pyverilog/utils/inference.py
+++ b/pyverilog/utils/inference.py
@@ -42,7 +42,7 @@ def op_GreaterThan(val):
     return InferredValue(minval, maxval)
 
 
-def op_LassEq(val):
+def op_LessEq(val):
     minval = 0
     maxval = val
     return InferredValue(minval, maxval)
diff --git a/pyverilog/utils/signaltype.py b/pyverilog/utils/signaltype.py
index f940c4d..609c24b 100644
--- a/pyverilog/utils/signaltype.py
+++ b/pyverilog/utils/signaltype.py
@@ -89,7 +89,7 @@ def isReset(search_str):
 
 
 # Operator
-compare_ops = ('LessThan', 'GreaterThan', 'LassEq', 'GreaterEq', 'Eq', 'NotEq', 'Eql', 'NotEql')
+compare_ops = ('LessThan', 'GreaterThan', 'LessEq', 'GreaterEq', 'Eq', 'NotEq', 'Eql', 'NotEql')
 not_ops = ('Ulnot', 'Unot')
 split_and_ops = ('And', 'Land')
 split_or_ops = ('Or', 'Lor')
-- 
2.43.0


From f0b01ed8d995100e743b1911153647a8f951d90f Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 05:29:30 +0000
Subject: [PATCH 61/76] fix: states that are compared with values out of their
 range are inferred as any state

---
 pyverilog/controlflow/transition.py | 5 +++--
 pyverilog/utils/inference.py        | 3 ---
 2 files changed, 3 insertions(+), 5 deletions(-)

diff --git a/pyverilog/controlflow/transition.py b/pyverilog/controlflow/transition.py
index 084c113..ef0f732 100644
--- a/pyverilog/controlflow/transition.py
+++ b/pyverilog/controlflow/transition.py
@@ -272,9 +272,10 @@ def createStateNode(infval, width):
     maxval = infval.maxval
     if minval is None:
         minval = 0
-    if maxval is None:
+    if maxval is None or maxval > util.maxValue(width):
         maxval = util.maxValue(width)
-    ret = StateNode(((minval, maxval),), 0, util.maxValue(width), None)
+    range_pairs = ((minval, maxval),) if minval <= maxval else ()
+    ret = StateNode(range_pairs, 0, util.maxValue(width), None)
     if infval.inv:
         ret = notStateNodeList(ret)
     return ret
diff --git a/pyverilog/utils/inference.py b/pyverilog/utils/inference.py
index b86b0fa..4c0f35a 100644
--- a/pyverilog/utils/inference.py
+++ b/pyverilog/utils/inference.py
@@ -30,9 +30,6 @@ def infer(op, node):
 def op_LessThan(val):
     minval = 0
     maxval = val - 1
-    if maxval < 0:
-        minval = None
-        maxval = None
     return InferredValue(minval, maxval)
 
 
-- 
2.43.0


From 95f4022de4981420d2ff3cb1a1378e136394d9ad Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 05:29:30 +0000
Subject: [PATCH 62/76] fix: a state compared with another signal stops the
 extraction of state machines

---
 pyverilog/controlflow/transition.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyverilog/controlflow/transition.py b/pyverilog/controlflow/transition.py
index ef0f732..cd34e82 100644
--- a/pyverilog/controlflow/transition.py
+++ b/pyverilog/controlflow/transition.py
@@ -72,10 +72,10 @@ def _walkCond_DFOperator_dual(cond, termname, termwidth=32):
     l = cond.nextnodes[0]
     r = cond.nextnodes[1]
 
-    if isinstance(l, DFTerminal) and l.name == termname:
+    if isinstance(l, DFTerminal) and l.name == termname and isinstance(r, DFEvalValue):
         infval = inference.infer(cond.operator, r)
         return createStateNode(infval, termwidth)
-    if isinstance(r, DFTerminal) and r.name == termname:
+    if isinstance(r, DFTerminal) and r.name == termname and isinstance(l, DFEvalValue):
         new_op = re.sub('Greater', 'TMP', cond.operator)
         new_op = re.sub('Less', 'Greater', new_op)
         new_op = re.sub('TMP', 'Less', new_op)
-- 
2.43.0


From 2f86044fea3435482e2fc34c91a9ba3c00fefd4d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 05:29:31 +0000
Subject: [PATCH 63/76] fix: conditions of state transitions that are never or
 always true, and reductions, are dropped

---
 pyverilog/controlflow/transition.py | 47 +++++++++++++----------------
 1 file changed, 21 insertions(+), 26 deletions(-)

diff --git a/pyverilog/controlflow/transition.py b/pyverilog/controlflow/transition.py
index cd34e82..f9fb53d 100644
--- a/pyverilog/controlflow/transition.py
+++ b/pyverilog/controlflow/transition.py
@@ -18,16 +18,12 @@ import pyverilog.utils.inference as inference
 
 
 def walkCondlist(condlist, termname, termwidth=32):
-    node = None
     if len(condlist) == 0:
         maxvalue = util.maxValue(termwidth)
         return StateNode(maxvalue=maxvalue, isany=True)
-    for cond in condlist:
-        rslt = walkCond(cond, termname, termwidth)
-        if node and rslt:
-            node = andStateNodeList(node, rslt)
-        elif rslt:
-            node = rslt
+    node = walkCond(condlist[0], termname, termwidth)
+    for cond in condlist[1:]:
+        node = andStateNodeList(node, walkCond(cond, termname, termwidth))
     return node
 
 
@@ -45,10 +41,13 @@ def walkCond(cond, termname, termwidth=32):
 
 
 def _walkCond_DFOperator_unary(cond, termname, termwidth=32):
+    maxvalue = util.maxValue(termwidth)
+    if not signaltype.isNot(cond.operator):
+        return StateNode(transcond=cond, maxvalue=maxvalue, isany=True)
     node = walkCond(cond.nextnodes[0], termname, termwidth)
-    if signaltype.isNot(cond.operator):
-        node = notStateNodeList(node)
-    return node
+    if node is None:  # not never
+        return StateNode(maxvalue=maxvalue, isany=True)
+    return notStateNodeList(node)
 
 
 def _walkCond_DFOperator_dual(cond, termname, termwidth=32):
@@ -93,17 +92,18 @@ def notStateNodeList(node):
         new_nodes = []
         for n in node.nodelist:
             new_nodes.append(notStateNode(n))
-        ret_node = None
-        for n in new_nodes:
-            if ret_node is None:
-                ret_node = n
-            else:
-                ret_node = andStateNodeList(ret_node, n)
+        ret_node = new_nodes[0]
+        for n in new_nodes[1:]:
+            ret_node = andStateNodeList(ret_node, n)
         return ret_node
     return None
 
 
 def orStateNodeList(lnode, rnode):
+    if lnode is None:
+        return rnode
+    if rnode is None:
+        return lnode
     if isStateNode(lnode) and isStateNode(rnode):
         return StateNodeList((lnode, rnode))
     if isStateNodeList(lnode) and isStateNodeList(rnode):
@@ -125,12 +125,9 @@ def orStateNodeList(lnode, rnode):
 
 
 def andStateNodeList(lnode, rnode):
-    if lnode is None and rnode is None:
+    # None is a condition that is never true
+    if lnode is None or rnode is None:
         return None
-    if lnode is None:
-        return rnode
-    if rnode is None:
-        return lnode
 
     if isStateNode(lnode) and isStateNode(rnode):
         return andStateNode(lnode, rnode)
@@ -166,6 +163,8 @@ def andStateNodeList(lnode, rnode):
 
 
 def notStateNode(node):
+    if node.isany and node.transcond is None:
+        return None
     if node.isany:
         new_transcond = _not_transcond(node.transcond)
         return StateNode(transcond=new_transcond, maxvalue=node.maxvalue, isany=True)
@@ -179,12 +178,8 @@ def notStateNode(node):
 
 
 def andStateNode(sna, snb):
-    if sna is None and snb is None:
+    if sna is None or snb is None:
         return None
-    if sna is None:
-        return snb
-    if snb is None:
-        return sna
 
     isany = False
     range_pairs = []
-- 
2.43.0


From ac031c4cbc5a9ae2ddd468045b4ad06d8ba01d07 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 05:29:31 +0000
Subject: [PATCH 64/76] fix: bitwise operators on more than one bit are taken
 for logical ones in conditions of state transitions

---
 pyverilog/controlflow/controlflow_analyzer.py | 27 +++++++++++++++++++
 pyverilog/controlflow/transition.py           |  8 +++---
 2 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/pyverilog/controlflow/controlflow_analyzer.py b/pyverilog/controlflow/controlflow_analyzer.py
index 0ebae8a..3916218 100644
--- a/pyverilog/controlflow/controlflow_analyzer.py
+++ b/pyverilog/controlflow/controlflow_analyzer.py
@@ -70,6 +70,7 @@ class VerilogControlflowAnalyzer(VerilogSubset):
             if not isinstance(func, DFEvalValue):
                 continue
             print("Condition: %s, Inferring transition condition" % str(condlist))
+            condlist = tuple(self.toLogical(cond) for cond in condlist)
             node = transition.walkCondlist(condlist, termname, width)
             if node is None:
                 continue
@@ -109,6 +110,32 @@ class VerilogControlflowAnalyzer(VerilogSubset):
             return abs(self.optimizer.optimizeConstant(DFOperator((msb, lsb), 'Minus')).value) + 1
         return self.optimizer.optimizeConstant(width).value
 
+    def toLogical(self, cond):
+        """ replaces the bitwise operators of one bit by the logical ones """
+        logical = {'And': 'Land', 'Or': 'Lor', 'Unot': 'Ulnot'}
+        if not isinstance(cond, DFOperator):
+            return cond
+        operator = cond.operator
+        if operator in logical and self.isSingleBit(cond):
+            operator = logical[operator]
+        if operator not in logical.values():
+            return cond
+        return DFOperator(tuple(self.toLogical(n) for n in cond.nextnodes), operator)
+
+    def isSingleBit(self, node):
+        if isinstance(node, DFOperator):
+            if node.operator in self.optimizer.single_bit_ops:
+                return True
+            return (node.operator in ('And', 'Or', 'Xor', 'Xnor', 'Unot') and
+                    all(self.isSingleBit(n) for n in node.nextnodes))
+        if isinstance(node, DFTerminal):
+            return self.getTermDims(node.name) is None and self.getWidth(node.name) == 1
+        if isinstance(node, DFPointer):
+            return isinstance(node.var, DFTerminal) and self.getTermDims(node.var.name) is None
+        if isinstance(node, DFPartselect):
+            return isinstance(node.msb, DFEvalValue) and node.msb == node.lsb
+        return isinstance(node, DFEvalValue) and node.width == 1
+
     def makeTree(self, termname):
         tree = self.getTree(termname)
         tree = self.treewalker.walkTree(tree)
diff --git a/pyverilog/controlflow/transition.py b/pyverilog/controlflow/transition.py
index f9fb53d..77ac2ba 100644
--- a/pyverilog/controlflow/transition.py
+++ b/pyverilog/controlflow/transition.py
@@ -42,7 +42,7 @@ def walkCond(cond, termname, termwidth=32):
 
 def _walkCond_DFOperator_unary(cond, termname, termwidth=32):
     maxvalue = util.maxValue(termwidth)
-    if not signaltype.isNot(cond.operator):
+    if cond.operator != 'Ulnot':
         return StateNode(transcond=cond, maxvalue=maxvalue, isany=True)
     node = walkCond(cond.nextnodes[0], termname, termwidth)
     if node is None:  # not never
@@ -55,13 +55,13 @@ def _walkCond_DFOperator_dual(cond, termname, termwidth=32):
     if signaltype.isNonConditionOp(cond.operator):
         return StateNode(transcond=cond, maxvalue=maxvalue, isany=True)
 
-    if not signaltype.isCompare(cond.operator) and signaltype.isOr(cond.operator):
+    if not signaltype.isCompare(cond.operator) and cond.operator == 'Lor':
         lnode = walkCond(cond.nextnodes[0], termname, termwidth)
         rnode = walkCond(cond.nextnodes[1], termname, termwidth)
         ret = orStateNodeList(lnode, rnode)
         if ret:
             return ret
-    if not signaltype.isCompare(cond.operator) and signaltype.isAnd(cond.operator):
+    if not signaltype.isCompare(cond.operator) and cond.operator == 'Land':
         lnode = walkCond(cond.nextnodes[0], termname, termwidth)
         rnode = walkCond(cond.nextnodes[1], termname, termwidth)
         ret = andStateNodeList(lnode, rnode)
@@ -256,8 +256,6 @@ def _not_transcond(transcond):
         return None
     elif isinstance(transcond, DFOperator) and transcond.operator == 'Ulnot':
         return transcond.nextnodes[0]
-    elif isinstance(transcond, DFOperator) and transcond.operator == 'Unot':
-        return transcond.nextnodes[0]
     return DFOperator((transcond,), 'Ulnot')
 
 
-- 
2.43.0


From 4ba75ef6ba97caa4b017b15f683e9e71b9fd630e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 05:29:31 +0000
Subject: [PATCH 65/76] fix: the values of states are not cut to the state
 register

---
 pyverilog/controlflow/controlflow_analyzer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyverilog/controlflow/controlflow_analyzer.py b/pyverilog/controlflow/controlflow_analyzer.py
index 3916218..7c4450c 100644
--- a/pyverilog/controlflow/controlflow_analyzer.py
+++ b/pyverilog/controlflow/controlflow_analyzer.py
@@ -77,7 +77,7 @@ class VerilogControlflowAnalyzer(VerilogSubset):
             statenode_list = node.nodelist if isinstance(
                 node, transition.StateNodeList) else [node, ]
             for statenode in statenode_list:
-                fsm.construct(func.value, statenode)
+                fsm.construct(func.value & util.maxValue(width), statenode)
         return fsm
 
     def getFuncdict(self, termname, delaycnt=0):
-- 
2.43.0


From 1bbf79a85a80f476160381f631d7e52d1efacd20 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 05:29:31 +0000
Subject: [PATCH 66/76] fix: loops of state machines are missed where their
 states are in other loops or transitions are from any state

---
 pyverilog/controlflow/controlflow_analyzer.py | 52 ++++++++-----------
 1 file changed, 22 insertions(+), 30 deletions(-)

diff --git a/pyverilog/controlflow/controlflow_analyzer.py b/pyverilog/controlflow/controlflow_analyzer.py
index 7c4450c..32616a5 100644
--- a/pyverilog/controlflow/controlflow_analyzer.py
+++ b/pyverilog/controlflow/controlflow_analyzer.py
@@ -278,53 +278,45 @@ class FiniteStateMachine(object):
 
     def get_loop(self):
         loops = set([])
-        loop_node_cnt = {}
-        for k in sorted(self.fsm.keys()):
-            if not k in self.fsm:
-                continue
-            if not k in loop_node_cnt:
-                loop_node_cnt[k] = 0
-            if loop_node_cnt[k] >= len(self.fsm[k].values()):
-                continue
-            paths = self.get_looppath(k)
-            for path in paths:
-                rotated = self.rotate(path)
-                if rotated not in loops:
-                    loops.add(rotated)
-                    for r in rotated:
-                        if not r in loop_node_cnt:
-                            loop_node_cnt[r] = 0
-                        loop_node_cnt[r] += 1
+        for k in self.get_states():
+            for path in self.get_looppath(k, minimum=k):
+                loops.add(self.rotate(path))
         return loops
 
+    def get_states(self):
+        states = set(self.fsm.keys())
+        for dstdict in self.fsm.values():
+            states.update(dstdict.values())
+        states.update(self.any.values())
+        return sorted(states)
+
+    def get_nextnodes(self, node):
+        return set(self.fsm.get(node, {}).values()) | set(self.any.values())
+
     def rotate(self, path):
         minval = min(path)
         minval_pos = path.index(minval)
         return path[minval_pos:] + path[:minval_pos]
 
-    def get_looppath(self, src):
+    def get_looppath(self, src, minimum=None):
+        """ the loops through a state, where no state is less than the minimum """
         paths = set([])
-        if not src in self.fsm:
-            return paths
-        nextnodes = set(self.fsm[src].values())
-        for n in nextnodes:
-            r = self._looppath(src, n, visited=set([n]))
-            if len(r) > 0:
-                paths |= r
+        for n in self.get_nextnodes(src):
+            paths |= self._looppath(src, n, visited=set([n]), minimum=minimum)
         return paths
 
-    def _looppath(self, src, node, visited, cnt=0):
+    def _looppath(self, src, node, visited, cnt=0, minimum=None):
         paths = set([])
         if cnt > 50:
             return paths
+        if minimum is not None and node < minimum:
+            return paths
         if src == node:
             paths.add((src,))
             return paths
-        if not node in self.fsm:
-            return paths
-        nextnodes = set(self.fsm[node].values()) - visited
+        nextnodes = self.get_nextnodes(node) - visited
         for n in nextnodes:
-            r = self._looppath(src, n, visited=visited | set([node]), cnt=cnt + 1)
+            r = self._looppath(src, n, visited=visited | set([node]), cnt=cnt + 1, minimum=minimum)
             if len(r) > 0:
                 for np in r:
                     paths.add((node,) + np)
-- 
2.43.0


From 6ee9375801d83a01c9b0ae537550c5bc7872fb58 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 06:11:17 +0000
Subject: [PATCH 67/76] fix: active conditions of an unconditionally assigned
 signal raise an error

---
 pyverilog/controlflow/active_analyzer.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pyverilog/controlflow/active_analyzer.py b/pyverilog/controlflow/active_analyzer.py
index 273f3cc..d24d7a4 100644
--- a/pyverilog/controlflow/active_analyzer.py
+++ b/pyverilog/controlflow/active_analyzer.py
@@ -33,7 +33,6 @@ class VerilogActiveConditionAnalyzer(VerilogControlflowAnalyzer):
         funcdict = splitter.remove_reset_condition(funcdict)
 
         if len(funcdict) == 1 and len(list(funcdict.keys())[0]) == 0:
-            func = funcdict.values()[0]
             return {termname: (('any', None), )}
 
         active_conditions = {}
-- 
2.43.0


From 050f177def86910563514676847208635205463d Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 06:11:17 +0000
Subject: [PATCH 68/76] fix: active conditions in bitwise operators of one bit
 are dropped

---
 pyverilog/controlflow/active_analyzer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyverilog/controlflow/active_analyzer.py b/pyverilog/controlflow/active_analyzer.py
index d24d7a4..dc8efb4 100644
--- a/pyverilog/controlflow/active_analyzer.py
+++ b/pyverilog/controlflow/active_analyzer.py
@@ -55,6 +55,7 @@ class VerilogActiveConditionAnalyzer(VerilogControlflowAnalyzer):
         active_conditions = []
         fsm_sig_width = self.getWidth(fsm_sig)
         for condlist, func in sorted(funcdict.items(), key=lambda x: len(x[0])):
+            condlist = tuple(self.toLogical(cond) for cond in condlist)
             node = transition.walkCondlist(condlist, fsm_sig, fsm_sig_width)
             state_node_list = []
             if isinstance(node, transition.StateNodeList):
-- 
2.43.0


From bafdf0d76a09d3d7efe457e5bbdb75899c52aab0 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 06:12:57 +0000
Subject: [PATCH 69/76] fix: a signal that is only active in its reset is
 reported as always active

---
 pyverilog/controlflow/active_analyzer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyverilog/controlflow/active_analyzer.py b/pyverilog/controlflow/active_analyzer.py
index dc8efb4..bf7ec16 100644
--- a/pyverilog/controlflow/active_analyzer.py
+++ b/pyverilog/controlflow/active_analyzer.py
@@ -29,8 +29,8 @@ class VerilogActiveConditionAnalyzer(VerilogControlflowAnalyzer):
             return {}
         tree = self.makeTree(termname)
         funcdict = splitter.split(tree)
-        funcdict = splitter.filter(funcdict, termname, condition)
         funcdict = splitter.remove_reset_condition(funcdict)
+        funcdict = splitter.filter(funcdict, termname, condition)
 
         if len(funcdict) == 1 and len(list(funcdict.keys())[0]) == 0:
             return {termname: (('any', None), )}
-- 
2.43.0


From c49afa2c04fec2351649d4e811e0ce7f95738204 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 06:56:39 +0000
Subject: [PATCH 70/76] fix: delays of if statements are dropped

---
 pyverilog/vparser/parser.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pyverilog/vparser/parser.py b/pyverilog/vparser/parser.py
index 51a5043..1ab5017 100644
--- a/pyverilog/vparser/parser.py
+++ b/pyverilog/vparser/parser.py
@@ -1600,12 +1600,22 @@ class VerilogParser(object):
         p[0] = IfStatement(p[4], p[6], p[8], lineno=p.lineno(2))
         p.set_lineno(0, p.lineno(2))
         p[0].end_lineno = p[8].end_lineno
+        self.delay_statement(p)
 
     def p_if_statement_woelse_delay(self, p):
         'if_statement : delays IF LPAREN cond RPAREN true_statement'
         p[0] = IfStatement(p[4], p[6], None, lineno=p.lineno(2))
         p.set_lineno(0, p.lineno(2))
         p[0].end_lineno = p[6].end_lineno
+        self.delay_statement(p)
+
+    # A statement after a delay
+    def delay_statement(self, p):
+        if p[1] is None:
+            return
+        statement = p[0]
+        p[0] = Block((SingleStatement(p[1], lineno=p.lineno(1)), statement), lineno=p.lineno(1))
+        p[0].end_lineno = statement.end_lineno
 
     def p_cond(self, p):
         'cond : expression'
-- 
2.43.0


From 886642ff7ef0c79f6f959e7e24bec9ad5e99379e Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 06:57:03 +0000
Subject: [PATCH 71/76] fix: statements that are followed by no end, as in
 always for(..), raise an error when parsed

---
 pyverilog/vparser/parser.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyverilog/vparser/parser.py b/pyverilog/vparser/parser.py
index 1ab5017..f328a0a 100644
--- a/pyverilog/vparser/parser.py
+++ b/pyverilog/vparser/parser.py
@@ -1576,11 +1576,13 @@ class VerilogParser(object):
         'parallelblock : FORK block_statements JOIN'
         p[0] = ParallelBlock(p[2], lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
+        p[0].end_lineno = p.lineno(3)
 
     def p_parallelblock_empty(self, p):
         'parallelblock : FORK JOIN'
         p[0] = ParallelBlock((), lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
+        p[0].end_lineno = p.lineno(2)
 
     # --------------------------------------------------------------------------
     def p_if_statement(self, p):
@@ -1642,6 +1644,7 @@ class VerilogParser(object):
         'for_statement : FOR LPAREN forpre forcond forpost RPAREN forcontent_statement'
         p[0] = ForStatement(p[3], p[4], p[5], p[7], lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
+        p[0].end_lineno = p[7].end_lineno
 
     def p_forpre(self, p):
         'forpre : blocking_substitution'
@@ -1682,6 +1685,7 @@ class VerilogParser(object):
         'while_statement : WHILE LPAREN cond RPAREN whilecontent_statement'
         p[0] = WhileStatement(p[3], p[5], lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
+        p[0].end_lineno = p[5].end_lineno
 
     def p_whilecontent_statement(self, p):
         'whilecontent_statement : basic_statement'
@@ -1764,12 +1768,14 @@ class VerilogParser(object):
         'event_statement : senslist SEMICOLON'
         p[0] = EventStatement(p[1], lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
+        p[0].end_lineno = p.lineno(2)
 
     # --------------------------------------------------------------------------
     def p_wait_statement(self, p):
         'wait_statement : WAIT LPAREN cond RPAREN waitcontent_statement'
         p[0] = WaitStatement(p[3], p[5], lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
+        p[0].end_lineno = p.lineno(5) if p[5] is None else p[5].end_lineno
 
     def p_waitcontent_statement(self, p):
         'waitcontent_statement : basic_statement'
@@ -1786,6 +1792,7 @@ class VerilogParser(object):
         'forever_statement : FOREVER basic_statement'
         p[0] = ForeverStatement(p[2], lineno=p.lineno(1))
         p.set_lineno(0, p.lineno(1))
+        p[0].end_lineno = p[2].end_lineno
 
     # --------------------------------------------------------------------------
     def p_instance(self, p):
-- 
2.43.0


From 32118c6f460392a91d02aef7765e815cf5a53002 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 06:57:03 +0000
Subject: [PATCH 72/76] fix: text of modules with several parameters after one
 keyword is no Verilog

---
 pyverilog/ast_code_generator/codegen.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyverilog/ast_code_generator/codegen.py b/pyverilog/ast_code_generator/codegen.py
index fb5a353..9bfd795 100644
--- a/pyverilog/ast_code_generator/codegen.py
+++ b/pyverilog/ast_code_generator/codegen.py
@@ -150,7 +150,8 @@ class ASTCodeGenerator(ConvertVisitor):
     def visit_Paramlist(self, node):
         filename = getfilename(node)
         template = self.get_template(filename)
-        params = [self.visit(param).rstrip(';') for param in node.params]
+        params = [self.visit(param).rstrip(';') for params in node.params
+                  for param in (params.list if isinstance(params, Decl) else (params,))]
         template_dict = {
             'params': params,
             'len_params': len(params),
-- 
2.43.0


From fa0ddfd3c140b2914aa53910ec3c9ae44e1b0bf1 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 06:57:03 +0000
Subject: [PATCH 73/76] fix: integer functions are unsigned in the generated
 text

---
 pyverilog/ast_code_generator/codegen.py | 2 +-
 pyverilog/vparser/ast.py                | 3 ++-
 pyverilog/vparser/parser.py             | 2 +-
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/pyverilog/ast_code_generator/codegen.py b/pyverilog/ast_code_generator/codegen.py
index 9bfd795..c31a5df 100644
--- a/pyverilog/ast_code_generator/codegen.py
+++ b/pyverilog/ast_code_generator/codegen.py
@@ -945,7 +945,7 @@ class ASTCodeGenerator(ConvertVisitor):
         statement = [self.indent(self.visit(s)) for s in node.statement]
         template_dict = {
             'name': escape(node.name),
-            'retwidth': self.visit(node.retwidth),
+            'retwidth': 'integer' if node.integer else self.visit(node.retwidth),
             'statement': statement,
         }
         rslt = template.render(template_dict)
diff --git a/pyverilog/vparser/ast.py b/pyverilog/vparser/ast.py
index df288ed..2bdc938 100644
--- a/pyverilog/vparser/ast.py
+++ b/pyverilog/vparser/ast.py
@@ -1074,11 +1074,12 @@ class PortArg(Node):
 class Function(Node):
     attr_names = ('name',)
 
-    def __init__(self, name, retwidth, statement, lineno=0):
+    def __init__(self, name, retwidth, statement, lineno=0, integer=False):
         self.lineno = lineno
         self.name = name
         self.retwidth = retwidth
         self.statement = statement
+        self.integer = integer
 
     def children(self):
         nodelist = []
diff --git a/pyverilog/vparser/parser.py b/pyverilog/vparser/parser.py
index f328a0a..d627633 100644
--- a/pyverilog/vparser/parser.py
+++ b/pyverilog/vparser/parser.py
@@ -2132,7 +2132,7 @@ class VerilogParser(object):
                         Width(IntConst('31', lineno=p.lineno(1)),
                               IntConst('0', lineno=p.lineno(1)),
                               lineno=p.lineno(1)),
-                        p[5], lineno=p.lineno(1))
+                        p[5], lineno=p.lineno(1), integer=True)
         p.set_lineno(0, p.lineno(1))
         p[0].end_lineno = p.lineno(6)
 
-- 
2.43.0


From 61ff170ad92dc6233a45832021fea53c20c30e30 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 06:57:03 +0000
Subject: [PATCH 74/76] fix: delays of continuous assignments are dropped from
 the generated text

---
 pyverilog/ast_code_generator/codegen.py          | 1 +
 pyverilog/ast_code_generator/template/assign.txt | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyverilog/ast_code_generator/codegen.py b/pyverilog/ast_code_generator/codegen.py
index c31a5df..118768c 100644
--- a/pyverilog/ast_code_generator/codegen.py
+++ b/pyverilog/ast_code_generator/codegen.py
@@ -659,6 +659,7 @@ class ASTCodeGenerator(ConvertVisitor):
         template_dict = {
             'left': self.visit(node.left),
             'right': self.visit(node.right),
+            'ldelay': '' if node.ldelay is None else self.visit(node.ldelay),
         }
         rslt = template.render(template_dict)
         rslt = indent_multiline_assign(rslt)
diff --git a/pyverilog/ast_code_generator/template/assign.txt b/pyverilog/ast_code_generator/template/assign.txt
index 86c1391..378854e 100644
--- a/pyverilog/ast_code_generator/template/assign.txt
+++ b/pyverilog/ast_code_generator/template/assign.txt
@@ -1 +1 @@
-assign {{ left }} = {{ right }};
+assign {% if ldelay != '' %}{{ ldelay }} {% endif %}{{ left }} = {{ right }};
-- 
2.43.0


From 81da4cb109936b759d31e0aa1bf18ee341e6fad6 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 06:57:15 +0000
Subject: [PATCH 75/76] fix: nets declared with a delay and an assignment are
 named after the delay

---
 pyverilog/vparser/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyverilog/vparser/parser.py b/pyverilog/vparser/parser.py
index d627633..3b93267 100644
--- a/pyverilog/vparser/parser.py
+++ b/pyverilog/vparser/parser.py
@@ -688,7 +688,7 @@ class VerilogParser(object):
         'declassign_element : delays ID EQUALS delays rvalue'
         assign = Assign(Lvalue(Identifier(p[2], lineno=p.lineno(1)), lineno=p.lineno(2)),
                         p[5], p[1], p[4], lineno=p.lineno(2))
-        p[0] = (p[1], assign)
+        p[0] = (p[2], assign)
         p.set_lineno(0, p.lineno(2))
 
     # Integer
-- 
2.43.0


From f9c5d69ef8479c51e3f87fa8ce4d9869cc3da166 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Fri, 20 Nov 2026 06:57:41 +0000
Subject: [PATCH 76/76] fix: initial values of registers are continuous
 assignments

---
 pyverilog/vparser/parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyverilog/vparser/parser.py b/pyverilog/vparser/parser.py
index 3b93267..20fa463 100644
--- a/pyverilog/vparser/parser.py
+++ b/pyverilog/vparser/parser.py
@@ -640,6 +640,8 @@ class VerilogParser(object):
         if 'reg' in sigtypes:
             decls.append(Reg(name=name, width=width,
                              signed=signed, lineno=lineno))
+            # the value at the start: no continuous assignment
+            assign = Initial(BlockingSubstitution(assign.left, assign.right, lineno=lineno), lineno=lineno)
         decls.append(assign)
         return decls
 
-- 
2.43.0

