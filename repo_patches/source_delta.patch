From 07090be6f1bc57b61449079abdb3f536d4e89903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:13 +0000
Subject: [PATCH 01/39] fix: inner transactions use the group macros when the
 program has an inner_group

InnerTxn.write_teal switched use_inner_txns_macro off, so a program with an
inner_group never got the macro subroutines its code calls.
---
 tealish/nodes.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index fae3d51..b56ae09 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -1043,7 +1043,6 @@ class InnerTxn(InlineStatement):
                 node.expression.process()
 
     def write_teal(self, writer: "TealWriter") -> None:
-        self.compiler.use_inner_txns_macro = False
         writer.write(self, f"// tl:{self.line_no}: {self.line}")
         if self.compiler.use_inner_txns_macro:
             writer.write(self, "callsub _itxn_begin")
-- 
2.43.0


From ad500606ea55e96cf143964df0dcee8d89600a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:41 +0000
Subject: [PATCH 02/39] fix: inner declarations shadow outer ones

get_scope, get_slots and get_blocks merged the scopes innermost first, so an
outer variable, constant, function or block replaced the inner one of the same
name.
---
 tealish/base.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tealish/base.py b/tealish/base.py
index 485007b..dfd8865 100644
--- a/tealish/base.py
+++ b/tealish/base.py
@@ -45,7 +45,8 @@ class BaseNode:
 
     def get_scope(self) -> Scope:
         scope = Scope()
-        for s in self.get_scopes():
+        # outermost first so that inner declarations shadow outer ones
+        for s in reversed(self.get_scopes()):
             scope.update(s)
         return scope
 
@@ -62,7 +63,7 @@ class BaseNode:
 
     def get_slots(self) -> Dict[str, Any]:
         slots = {}
-        for s in self.get_scopes():
+        for s in reversed(self.get_scopes()):
             slots.update(s.slots)
         return slots
 
@@ -103,7 +104,7 @@ class BaseNode:
 
     def get_blocks(self) -> Dict[str, "Block"]:
         blocks = {}
-        for s in self.get_scopes():
+        for s in reversed(self.get_scopes()):
             blocks.update(s.blocks)
         return blocks
 
-- 
2.43.0


From b1496d980bd2e21d4e1c0e388c2b0e5b6661c522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:12 +0000
Subject: [PATCH 03/39] fix: a function never shares scratch slots with a later
 block

Functions were processed where they stand, so a block following them at the
same level was given the slots of the function it calls.
---
 tealish/nodes.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index b56ae09..a3b6001 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -307,8 +307,7 @@ class Program(Node):
         return node
 
     def process(self) -> None:
-        for n in self.nodes:
-            n.process()
+        process_functions_last(self.nodes)
 
         # enable inner_txns_macro if it is needed and not explicitly disabled
         if self.compiler.use_inner_txns_macro is None and self.has_child_node(InnerGroup):
@@ -701,8 +700,7 @@ class Block(Statement):
         return block
 
     def process(self) -> None:
-        for n in self.nodes:
-            n.process()
+        process_functions_last(self.nodes)
 
     def write_teal(self, writer: "TealWriter") -> None:
         writer.write(self, f"// block {self.name}")
@@ -2054,6 +2052,17 @@ def split_return_args(s):
     return [s]
 
 
+def process_functions_last(nodes: List[BaseNode]) -> None:
+    # Functions use slots above all those in use so far, so the slots of everything
+    # that can be live during a call have to be assigned before theirs.
+    for n in nodes:
+        if not isinstance(n, (Func, DecoratedFunc)):
+            n.process()
+    for n in nodes:
+        if isinstance(n, (Func, DecoratedFunc)):
+            n.process()
+
+
 def indent(s: str) -> str:
     return textwrap.indent(s, "    ")
 
-- 
2.43.0


From bce653cd5a0b42beb5b625e8fb934841b8892e61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:26 +0000
Subject: [PATCH 04/39] fix: running out of scratch slots is a CompileError

Functions were given slots beyond 255, slot 255 made find_slot fail with an
IndexError, and redefinitions raised a bare Exception. The hidden inner group
flag also collided with a user variable of the same name.
---
 tealish/base.py  |  7 +++++--
 tealish/nodes.py | 14 +++++++++-----
 tealish/scope.py | 15 ++++++++++++---
 3 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/tealish/base.py b/tealish/base.py
index dfd8865..e00c735 100644
--- a/tealish/base.py
+++ b/tealish/base.py
@@ -2,7 +2,7 @@ from typing import cast, Any, Dict, List, Optional, Tuple, TYPE_CHECKING
 from tealish.errors import CompileError
 from .tealish_builtins import ConstValue, Var
 from .langspec import get_active_langspec, Op
-from .scope import Scope
+from .scope import Scope, ScopeError
 from .types import TealishType, get_type_instance
 
 
@@ -92,7 +92,10 @@ class BaseNode:
         except KeyError:
             raise CompileError(f'Unknown type "{type_name}"', node=self)
 
-        var = scope.declare_scratch_var(name, type, max_slot=max_slot)
+        try:
+            var = scope.declare_scratch_var(name, type, max_slot=max_slot)
+        except ScopeError as e:
+            raise CompileError(str(e), node=self)
 
         # Update max_slot on compiler
         self.compiler.max_slot = max(self.compiler.max_slot, var.scratch_slot)  # type: ignore
diff --git a/tealish/nodes.py b/tealish/nodes.py
index a3b6001..eaa7f78 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -30,7 +30,7 @@ from .types import (
     get_struct,
     get_type_instance,
 )
-from .scope import Scope
+from .scope import Scope, ScopeError
 
 LITERAL_INT = r"[0-9]+"
 LITERAL_BYTE_STRING = r'"(.+)"'
@@ -315,9 +315,13 @@ class Program(Node):
 
         if self.compiler.use_inner_txns_macro:
             scope = self.get_current_scope()
-            var = scope.declare_scratch_var(
-                "inner_group_flag", IntType, self.compiler.max_slot + 1
-            )
+            try:
+                # the leading underscore keeps it apart from user variables
+                var = scope.declare_scratch_var(
+                    "_inner_group_flag", IntType(), self.compiler.max_slot + 1
+                )
+            except ScopeError as e:
+                raise CompileError(str(e))
             self.compiler.max_slot = max(self.compiler.max_slot, var.scratch_slot)
 
     def write_teal(self, writer: "TealWriter") -> None:
@@ -325,7 +329,7 @@ class Program(Node):
             n.write_teal(writer)
 
         if self.compiler.use_inner_txns_macro:
-            var = self.get_var("inner_group_flag")
+            var = self.get_var("_inner_group_flag")
             teal = f"""
             _itxn_group_begin:
               load {var.scratch_slot}; !; assert // ensure no group active
diff --git a/tealish/scope.py b/tealish/scope.py
index 3220150..21c6609 100644
--- a/tealish/scope.py
+++ b/tealish/scope.py
@@ -6,6 +6,13 @@ if TYPE_CHECKING:
     from .nodes import Func, Block
 
 
+MAX_SCRATCH_SLOT = 255
+
+
+class ScopeError(Exception):
+    pass
+
+
 class Scope:
     def __init__(
         self,
@@ -43,11 +50,13 @@ class Scope:
         max_slot: Optional[int] = None,
     ) -> Var:
         if name in self.slots:
-            raise Exception(f'Redefinition of variable "{name}"')
+            raise ScopeError(f'Redefinition of variable "{name}"')
 
         var = Var(name, type)
         var.slot_type = "scratch"
         var.scratch_slot = max_slot if max_slot is not None else self.find_slot()
+        if var.scratch_slot > MAX_SCRATCH_SLOT:
+            raise ScopeError(f'No scratch slot available for variable "{name}"')
         self.slots[var.name] = var
         return var
 
@@ -74,7 +83,7 @@ class Scope:
         self.blocks[name] = block
 
     def find_slot(self) -> int:
-        used_slots = [False] * 255
+        used_slots = [False] * (MAX_SCRATCH_SLOT + 1)
         for var in self.slots.values():
             used_slots[var.scratch_slot] = True
 
@@ -83,7 +92,7 @@ class Scope:
             if not occupied and min <= i <= max:
                 return i
 
-        raise Exception("No available slots!")
+        raise ScopeError("No available slots!")
 
     def update(self, other: "Scope") -> None:
         self.functions.update(other.functions)
-- 
2.43.0


From bd8de5be5eb9ebb5ed955a6e359456caaa82906e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:47 +0000
Subject: [PATCH 05/39] fix: struct definitions and output belong to one
 compiler

Structs were kept in a module global, so a program could use (and inspect
reported) structs of programs compiled before it. Calling compile() again
appended the output a second time.
---
 tealish/__init__.py | 8 ++++++--
 tealish/types.py    | 7 ++++++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/tealish/__init__.py b/tealish/__init__.py
index e230474..036abac 100644
--- a/tealish/__init__.py
+++ b/tealish/__init__.py
@@ -3,7 +3,7 @@ from typing import List, Dict, Union, Tuple
 from .base import BaseNode
 from .nodes import Node, Program
 from .utils import TealishMap
-from .types import _structs
+from .types import StructType, set_active_structs
 
 
 class TealWriter:
@@ -88,6 +88,7 @@ class TealishCompiler:
         self.processed = False
         self.line_nodes = {}
         self.use_inner_txns_macro = None
+        self.structs: Dict[str, StructType] = {}
 
     def consume_line(self) -> str:
         if self.line_no == len(self.source_lines):
@@ -119,10 +120,12 @@ class TealishCompiler:
             self.current_output_line += 1
 
     def parse(self) -> None:
+        set_active_structs(self.structs)
         node = Program.consume(self, None)
         self.nodes.append(node)
 
     def process(self) -> None:
+        set_active_structs(self.structs)
         for node in self.nodes:
             try:
                 node.process()
@@ -137,6 +140,7 @@ class TealishCompiler:
             self.parse()
         if not self.processed:
             self.process()
+        self.writer = TealWriter()
         for node in self.nodes:
             node.write_teal(self.writer)
         self.source_map = self.writer.source_map
@@ -157,7 +161,7 @@ class TealishCompiler:
         return map
 
     def get_structs(self):
-        return dict(_structs)
+        return dict(self.structs)
 
 
 def compile_program(source: str) -> Tuple[List[str], TealishMap]:
diff --git a/tealish/types.py b/tealish/types.py
index 8981eb2..d5887ca 100644
--- a/tealish/types.py
+++ b/tealish/types.py
@@ -3,7 +3,7 @@ import re
 from typing import Dict
 
 
-# Set of custom defined types
+# Set of custom defined types of the program being compiled
 _structs: Dict[str, "StructType"] = {}
 
 
@@ -189,6 +189,11 @@ class ArrayType(BytesType):
         super().__init__(length * type.size)
 
 
+def set_active_structs(structs: Dict[str, StructType]) -> None:
+    global _structs
+    _structs = structs
+
+
 def define_struct(struct: StructType) -> None:
     _structs[struct.name] = struct
 
-- 
2.43.0


From 0e5ba07fdcb8256d454248cab050e5cfed79c6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:39 +0000
Subject: [PATCH 06/39] fix: slashes and hashes inside strings are not comments

The comment alignment of TealWriter split lines at the first //, the inline
comment stripping at the first #, even inside a string literal.
---
 tealish/__init__.py | 16 +++++++++-------
 tealish/utils.py    | 38 ++++++++++++++++++++++++++++++++++++++
 2 files changed, 47 insertions(+), 7 deletions(-)

diff --git a/tealish/__init__.py b/tealish/__init__.py
index 036abac..4d53101 100644
--- a/tealish/__init__.py
+++ b/tealish/__init__.py
@@ -2,7 +2,7 @@ import inspect
 from typing import List, Dict, Union, Tuple
 from .base import BaseNode
 from .nodes import Node, Program
-from .utils import TealishMap
+from .utils import TealishMap, find_outside_strings
 from .types import StructType, set_active_structs
 
 
@@ -32,9 +32,9 @@ class TealWriter:
             teal = node_or_teal
             prefix = (" " * 4) * self.level
             teal = prefix + teal
-            if " //" in teal.strip():
-                teal, comment = teal.split("//", 1)
-                teal = teal.ljust(60) + "//" + comment
+            i = find_outside_strings(teal, " //")
+            if i >= 0 and teal[:i].strip() and not teal.strip().startswith("//"):
+                teal = teal[: i + 1].ljust(60) + teal[i + 1 :]
             parent._teal.append(teal)
             self.output.append(teal)
             if hasattr(parent, "line_no"):
@@ -64,8 +64,8 @@ class OneLineTealWriter:
         elif isinstance(node_or_teal, list):
             self.teal += node_or_teal
         else:
-            teal = node_or_teal.split("//", 1)[0]
-            self.teal.append(teal)
+            i = find_outside_strings(node_or_teal, "//")
+            self.teal.append(node_or_teal[:i] if i >= 0 else node_or_teal)
 
     @property
     def output(self):
@@ -99,7 +99,9 @@ class TealishCompiler:
         line = self.source_lines[self.line_no].strip()
         # strip out inline comments
         if not line.startswith("#"):
-            line = line.split("#")[0]
+            i = find_outside_strings(line, "#", quotes="\"'")
+            if i >= 0:
+                line = line[:i].rstrip()
         self.line_no += 1
         return line
 
diff --git a/tealish/utils.py b/tealish/utils.py
index 19d665c..6d33ab2 100644
--- a/tealish/utils.py
+++ b/tealish/utils.py
@@ -1,6 +1,44 @@
+import re
 from typing import Dict, List, Tuple, Optional, Union, Any
 from algosdk.source_map import SourceMap
 
+_ESCAPES = {"n": b"\n", "r": b"\r", "t": b"\t", "\\": b"\\", '"': b'"'}
+
+
+def decode_string(value: str) -> bytes:
+    """Decode the text between the quotes of a byte string as the assembler does"""
+    output = b""
+    for m in re.finditer(r"\\x([0-9a-fA-F]{2})|\\(.?)|[^\\]+", value, re.DOTALL):
+        hex_digits, escape = m.groups()
+        if hex_digits is not None:
+            output += bytes.fromhex(hex_digits)
+        elif escape is not None:
+            if escape not in _ESCAPES:
+                raise ValueError(f'Invalid escape sequence "\\{escape}" in string')
+            output += _ESCAPES[escape]
+        else:
+            output += m.group().encode()
+    return output
+
+
+def find_outside_strings(line: str, token: str, quotes: str = '"') -> int:
+    """Index of the first occurrence of token that is not part of a string, or -1"""
+    quote = None
+    i = 0
+    while i < len(line):
+        c = line[i]
+        if quote:
+            if c == "\\":
+                i += 1
+            elif c == quote:
+                quote = None
+        elif line.startswith(token, i):
+            return i
+        elif c in quotes:
+            quote = c
+        i += 1
+    return -1
+
 
 def minify_teal(teal_lines: List[str]) -> Tuple[List[str], Dict[int, int]]:
     source_map: Dict[int, int] = {}
-- 
2.43.0


From 367d7f92f365131c6b3d10cccf4629c0b85c5432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:15 +0000
Subject: [PATCH 07/39] fix: byte string literals keep their escapes and denote
 their bytes

A backslash or quote written as an escape was unescaped before being put in
the TEAL string, a backslash before the closing quote swallowed the rest of
the line, and the static size counted characters (or Python escapes) instead
of bytes.
---
 tealish/expression_nodes.py    | 13 +++++++++++--
 tealish/nodes.py               | 24 ++++++++++++++++++------
 tealish/tealish_expressions.tx |  3 ++-
 3 files changed, 31 insertions(+), 9 deletions(-)

diff --git a/tealish/expression_nodes.py b/tealish/expression_nodes.py
index 0e55aee..909ac76 100644
--- a/tealish/expression_nodes.py
+++ b/tealish/expression_nodes.py
@@ -1,3 +1,4 @@
+import re
 from typing import List, Optional, Union, TYPE_CHECKING
 
 from .base import BaseNode
@@ -13,6 +14,7 @@ from .types import (
     UIntType,
 )
 from .langspec import Op, type_lookup
+from .utils import decode_string
 
 
 if TYPE_CHECKING:
@@ -36,8 +38,15 @@ class Integer(BaseNode):
 
 class Bytes(BaseNode):
     def __init__(self, value: str, parent: Optional[BaseNode] = None) -> None:
-        self.value = value
-        self.type = BytesType(size=len(value))
+        # the text between the quotes, with the escapes of a TEAL string
+        self.value = value[1:-1]
+        if value.startswith("'"):
+            self.value = re.sub(
+                r"\\.|\"",
+                lambda m: {"\\'": "'", '"': '\\"'}.get(m.group(), m.group()),
+                self.value,
+            )
+        self.type = BytesType(size=len(decode_string(self.value)))
         self.parent = parent
 
     def write_teal(self, writer: "TealWriter") -> None:
diff --git a/tealish/nodes.py b/tealish/nodes.py
index eaa7f78..ec2d783 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -1,4 +1,3 @@
-import ast
 import re
 import textwrap
 from typing import (
@@ -31,10 +30,11 @@ from .types import (
     get_type_instance,
 )
 from .scope import Scope, ScopeError
+from .utils import decode_string
 
 LITERAL_INT = r"[0-9]+"
-LITERAL_BYTE_STRING = r'"(.+)"'
-LITERAL_BYTE_HEX = r"0x([a-fA-F0-9]+)"
+LITERAL_BYTE_STRING = r'"(?:\\.|[^"\\])*"'
+LITERAL_BYTE_HEX = r"0x(?:[a-fA-F0-9]{2})+"
 VARIABLE_NAME = r"[a-z_][a-zA-Z0-9_]*"
 
 if TYPE_CHECKING:
@@ -175,8 +175,20 @@ class LiteralBytes(Literal):
     pattern = rf"(?P<value>{LITERAL_BYTE_STRING})$"
     value: str  # value contains quotes
 
+    def __init__(
+        self,
+        line: str,
+        parent: Optional["Node"] = None,
+        compiler: Optional["TealishCompiler"] = None,
+    ) -> None:
+        super().__init__(line, parent, compiler)
+        self.decoded = self.decode()
+
+    def decode(self) -> bytes:
+        return decode_string(self.value[1:-1])
+
     def type(self) -> AVMType:
-        return BytesType(size=len(ast.literal_eval(self.value)))
+        return BytesType(size=len(self.decoded))
 
     def _tealish(self) -> str:
         return self.value
@@ -186,8 +198,8 @@ class LiteralHex(LiteralBytes):
     pattern = rf"(?P<value>{LITERAL_BYTE_HEX})$"
     value: str
 
-    def type(self) -> BytesType:
-        return BytesType(size=len(bytes.fromhex(self.value[2:])))
+    def decode(self) -> bytes:
+        return bytes.fromhex(self.value[2:])
 
 
 class Name(Expression):
diff --git a/tealish/tealish_expressions.tx b/tealish/tealish_expressions.tx
index 2a21431..a295478 100644
--- a/tealish/tealish_expressions.tx
+++ b/tealish/tealish_expressions.tx
@@ -44,4 +44,5 @@ NegativeGroupIndex: '-' index=INT;
 PositiveGroupIndex: '+' index=INT;
 HexBytes: value=/0x([a-fA-F0-9]+)/;
 Integer: value=/[0-9_]+/;
-Bytes: value=STRING | HexBytes;
+Bytes: value=StringLiteral | HexBytes;
+StringLiteral: /"(?:\\.|[^"\\])*"|'(?:\\.|[^'\\])*'/;
-- 
2.43.0


From 13ed53023b6dac00463e965c7bbb96734a15e320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:56 +0000
Subject: [PATCH 08/39] fix: integer literals denote their decimal value within
 64 bits

Constants kept their digits as text (a leading zero made them octal for the
assembler, and bzero or Rpad with a constant failed), values beyond 64 bits
were emitted, and 0 was typed as a 64 bit integer.
---
 tealish/expression_nodes.py |  5 ++++-
 tealish/nodes.py            | 12 ++++++++++++
 tealish/types.py            |  2 ++
 3 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/tealish/expression_nodes.py b/tealish/expression_nodes.py
index 909ac76..4ab6d3a 100644
--- a/tealish/expression_nodes.py
+++ b/tealish/expression_nodes.py
@@ -4,6 +4,7 @@ from typing import List, Optional, Union, TYPE_CHECKING
 from .base import BaseNode
 from .errors import CompileError
 from .types import (
+    MAX_UINT64,
     AVMType,
     AddrType,
     BigIntType,
@@ -25,7 +26,9 @@ if TYPE_CHECKING:
 class Integer(BaseNode):
     def __init__(self, value: str, parent: Optional[BaseNode] = None) -> None:
         self.value = int(value)
-        size = (((self.value).bit_length() - 1) // 8) + 1
+        if self.value > MAX_UINT64:
+            raise CompileError(f"Integer {value} is larger than 64 bits", node=self)
+        size = max(((self.value.bit_length() - 1) // 8) + 1, 1)
         self.type = UIntType(size)
         self.parent = parent
 
diff --git a/tealish/nodes.py b/tealish/nodes.py
index ec2d783..a908e53 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -17,6 +17,7 @@ from .errors import CompileError, ParseError
 from .tx_expressions import parse_expression
 from .tealish_builtins import Var, constants
 from .types import (
+    MAX_UINT64,
     AVMType,
     AnyType,
     BoxType,
@@ -164,6 +165,17 @@ class LiteralInt(Literal):
     pattern = r"(?P<value>[0-9]+)$"
     value: int
 
+    def __init__(
+        self,
+        line: str,
+        parent: Optional["Node"] = None,
+        compiler: Optional["TealishCompiler"] = None,
+    ) -> None:
+        super().__init__(line, parent, compiler)
+        self.value = int(self.value)
+        if self.value > MAX_UINT64:
+            raise ParseError(f"Integer {line} is larger than 64 bits")
+
     def type(self) -> UIntType:
         return UIntType()
 
diff --git a/tealish/types.py b/tealish/types.py
index d5887ca..c0c284a 100644
--- a/tealish/types.py
+++ b/tealish/types.py
@@ -3,6 +3,8 @@ import re
 from typing import Dict
 
 
+MAX_UINT64 = 2**64 - 1
+
 # Set of custom defined types of the program being compiled
 _structs: Dict[str, "StructType"] = {}
 
-- 
2.43.0


From ae774eddd78495069c69ecd6bf2ac6253410a9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:58 +0000
Subject: [PATCH 09/39] fix: process the condition of while and elif only once

Processing an opcode call twice drops its immediate arguments.
---
 tealish/nodes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index a908e53..f83d1ab 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -1198,7 +1198,7 @@ class Elif(Node):
 
     def process(self) -> None:
         self.condition.process()
-        for n in self.nodes:
+        for n in self.child_nodes:
             n.process()
 
     def write_teal(self, writer: "TealWriter") -> None:
@@ -1459,7 +1459,7 @@ class WhileStatement(InlineStatement):
 
     def process(self) -> None:
         self.condition.process()
-        for n in self.nodes:
+        for n in self.child_nodes:
             n.process()
 
     def write_teal(self, writer: "TealWriter") -> None:
-- 
2.43.0


From 519892ca83403bd8083fac40d83c7661f1b73cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:16 +0000
Subject: [PATCH 10/39] fix: immediate arguments of opcodes are complete, valid
 and formatted

Missing immediates were not noticed, values the opcode can not take were
emitted, and reformatting separated several immediates by spaces.
---
 tealish/expression_nodes.py | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/tealish/expression_nodes.py b/tealish/expression_nodes.py
index 4ab6d3a..8949db9 100644
--- a/tealish/expression_nodes.py
+++ b/tealish/expression_nodes.py
@@ -281,6 +281,7 @@ class OpCall(BaseNode):
         self.type: Union[AVMType, List[AVMType]] = AVMType.none
         self.nodes = args
         self.immediate_args = ""
+        self.source_args = args
 
     def process(self) -> None:
         try:
@@ -292,17 +293,19 @@ class OpCall(BaseNode):
     def process_op_call(self, op: Op) -> None:
         self.func_call_type = "op"
         self.op = op
-        immediates = self.args[: op.immediate_args_num]
-        num_args = len(op.args)
-
-        self.args = self.args[op.immediate_args_num :]
+        if op.immediate_args_num < 0 or "branch offset" in op.immediate_note:
+            raise CompileError(f"{op.name} can not be used as a function", node=self)
+        num_args = op.immediate_args_num + len(op.args)
         if len(self.args) != num_args:
             raise CompileError(f"Expected {num_args} args for {op.name}!", node=self)
+        immediates = self.args[: op.immediate_args_num]
+        self.args = self.args[op.immediate_args_num :]
         for i, arg in enumerate(self.args):
             arg.process()
         self.check_arg_types(self.name, self.args)
         for i, x in enumerate(immediates):
             x.process()
+            self.check_immediate_arg(op, i, x)
             if isinstance(x, Constant):
                 immediates[i] = x.name
             elif isinstance(x, Enum):
@@ -320,6 +323,23 @@ class OpCall(BaseNode):
         returns = op.returns_types
         self.type = returns[0] if len(returns) == 1 else returns
 
+    def check_immediate_arg(self, op: Op, i: int, arg: "Node") -> None:
+        notes = re.findall(r"\{(.*?)\}", op.immediate_note)
+        if len(notes) != op.immediate_args_num:
+            return
+        is_field = "field" in notes[i] and "array" not in notes[i]
+        if is_field and op.arg_enum:
+            valid = isinstance(arg, Enum) and arg.name in op.arg_enum_dict
+        elif "uint8" in notes[i]:
+            valid = isinstance(getattr(arg, "value", None), int) and arg.value < 256
+        else:
+            return
+        if not valid:
+            raise CompileError(
+                f"{arg.tealish()} is not a valid immediate argument {i} for {op.name}",
+                node=self,
+            )
+
     def write_teal(self, writer: "TealWriter") -> None:
         for arg in self.args:
             writer.write(self, arg)
@@ -329,9 +349,7 @@ class OpCall(BaseNode):
             writer.write(self, f"{self.name}")
 
     def _tealish(self) -> str:
-        args = [a.tealish() for a in self.args]
-        if self.immediate_args:
-            args = self.immediate_args.split(", ") + args
+        args = [a.tealish() for a in self.source_args]
         return f"{self.name}({', '.join(args)})"
 
 
-- 
2.43.0


From b0e5b329f671e6e584c487b67d948cb9a23e00ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:08 +0000
Subject: [PATCH 11/39] fix: keywords end a construct only as whole words and
 input ends cleanly

Statements on names such as end_x or elif_y inside an if made the parser loop
forever, names such as returned or breaker could not be assigned, text after
else: and friends was dropped, a decorator without function looped forever and
a missing end raised AttributeError.
---
 tealish/__init__.py         | 23 +++++++++++------------
 tealish/expression_nodes.py |  2 +-
 tealish/nodes.py            | 35 +++++++++++++++++++++++++----------
 3 files changed, 37 insertions(+), 23 deletions(-)

diff --git a/tealish/__init__.py b/tealish/__init__.py
index 4d53101..1ea87fb 100644
--- a/tealish/__init__.py
+++ b/tealish/__init__.py
@@ -1,6 +1,7 @@
 import inspect
 from typing import List, Dict, Union, Tuple
 from .base import BaseNode
+from .errors import ParseError
 from .nodes import Node, Program
 from .utils import TealishMap, find_outside_strings
 from .types import StructType, set_active_structs
@@ -90,27 +91,25 @@ class TealishCompiler:
         self.use_inner_txns_macro = None
         self.structs: Dict[str, StructType] = {}
 
+    def at_end(self) -> bool:
+        return self.line_no == len(self.source_lines)
+
     def consume_line(self) -> str:
-        if self.line_no == len(self.source_lines):
-            # TODO: this and the func below are Optional[str] but
-            # nodes.py uses them heavily and dont
-            # check the type is not None
-            return  # type: ignore
+        line = self.peek()
+        self.line_no += 1
+        return line
+
+    def peek(self) -> str:
+        if self.at_end():
+            raise ParseError('Unexpected end of file. Expected "end".')
         line = self.source_lines[self.line_no].strip()
         # strip out inline comments
         if not line.startswith("#"):
             i = find_outside_strings(line, "#", quotes="\"'")
             if i >= 0:
                 line = line[:i].rstrip()
-        self.line_no += 1
         return line
 
-    def peek(self) -> str:
-        if self.line_no == len(self.source_lines):
-            # TODO: see above
-            return  # type: ignore
-        return self.source_lines[self.line_no].strip()
-
     def write(self, lines: Union[str, List[str]] = "", line_no: int = 0) -> None:
         prefix = "  " * self.level
         if type(lines) == str:
diff --git a/tealish/expression_nodes.py b/tealish/expression_nodes.py
index 8949db9..07e1f49 100644
--- a/tealish/expression_nodes.py
+++ b/tealish/expression_nodes.py
@@ -309,7 +309,7 @@ class OpCall(BaseNode):
             if isinstance(x, Constant):
                 immediates[i] = x.name
             elif isinstance(x, Enum):
-                immediates[i] = x.name
+                immediates[i] = x.name if x.value is None else x.value
             elif hasattr(x, "value") and isinstance(x.type, IntType):
                 immediates[i] = x.value
             elif hasattr(x, "value") and isinstance(x.type, BytesType):
diff --git a/tealish/nodes.py b/tealish/nodes.py
index f83d1ab..6f35339 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -300,7 +300,7 @@ class Program(Node):
         expect_struct_definition = True
         exit_statement = None
         while True:
-            if compiler.peek() is None:
+            if compiler.at_end():
                 break
             n = Statement.consume(compiler, node)
             if not expect_struct_definition and isinstance(n, StructDefinition):
@@ -411,9 +411,9 @@ class LineStatement(InlineStatement):
             return Const(line, parent, compiler=compiler)
         elif line.startswith("jump "):
             return Jump(line, parent, compiler=compiler)
-        elif line.startswith("return"):
+        elif re.match(r"return\b", line):
             return Return(line, parent, compiler=compiler)
-        elif line.startswith("break"):
+        elif re.match(r"break\b", line):
             return Break(line, parent, compiler=compiler)
         elif re.match(
             r"[A-Za-z][a-zA-Z_0-9]*(\[[0-9]+\])? [a-zA-Z_0-9]+( = .*)?", line
@@ -963,6 +963,7 @@ class TealLine(Node):
 
 class Teal(InlineStatement):
     possible_child_nodes = [TealLine]
+    pattern = r"teal:$"
 
     @classmethod
     def consume(cls, compiler: "TealishCompiler", parent: Optional[Node]) -> "Teal":
@@ -1005,6 +1006,7 @@ class InnerTxnFieldSetter(InlineStatement):
 
 class InnerTxn(InlineStatement):
     possible_child_nodes = [InnerTxnFieldSetter]
+    pattern = r"inner_txn:$"
 
     def __init__(
         self,
@@ -1097,6 +1099,7 @@ class InnerTxn(InlineStatement):
 
 class InnerGroup(InlineStatement):
     possible_child_nodes = [Statement]
+    pattern = r"inner_group:$"
 
     def __init__(self, line: str, parent: Node, compiler: "TealishCompiler") -> None:
         super().__init__(line, parent, compiler)
@@ -1106,7 +1109,7 @@ class InnerGroup(InlineStatement):
     def consume(cls, compiler: "TealishCompiler", parent: Node) -> "InnerGroup":
         node = InnerGroup(compiler.consume_line(), parent, compiler=compiler)
         while True:
-            if compiler.peek().startswith("end"):
+            if compiler.peek() == "end":
                 compiler.consume_line()
                 break
             node.add_child(Statement.consume(compiler, node))
@@ -1151,7 +1154,7 @@ class IfThen(Node):
     def consume(cls, compiler: "TealishCompiler", parent: Node) -> "IfThen":
         node = IfThen("", parent, compiler=compiler)
         while True:
-            if compiler.peek().startswith(("end", "elif", "else:")):
+            if is_end_of_branch(compiler.peek()):
                 break
             node.add_child(InlineStatement.consume(compiler, node))
         return node
@@ -1176,7 +1179,7 @@ class IfThen(Node):
 
 class Elif(Node):
     possible_child_nodes = [InlineStatement]
-    pattern = r"elif ((?P<modifier>not) )?(?P<condition>.*):"
+    pattern = r"elif ((?P<modifier>not) )?(?P<condition>.*):$"
     condition: GenericExpression
     modifier: str
 
@@ -1191,7 +1194,7 @@ class Elif(Node):
     def consume(cls, compiler: "TealishCompiler", parent: Optional[Node]) -> "Elif":
         node = Elif(compiler.consume_line(), parent, compiler=compiler)
         while True:
-            if compiler.peek().startswith(("end", "elif", "else:")):
+            if is_end_of_branch(compiler.peek()):
                 break
             node.add_child(InlineStatement.consume(compiler, node))
         return node
@@ -1221,7 +1224,7 @@ class Elif(Node):
 
 class Else(Node):
     possible_child_nodes = [InlineStatement]
-    pattern = r"else:"
+    pattern = r"else:$"
 
     def __init__(
         self, line: str, parent: Optional[Node], compiler: Optional["TealishCompiler"]
@@ -1234,7 +1237,7 @@ class Else(Node):
     def consume(cls, compiler: "TealishCompiler", parent: Optional[Node]) -> "Else":
         node = Else(compiler.consume_line(), parent, compiler=compiler)
         while True:
-            if compiler.peek().startswith("end"):
+            if is_end_of_branch(compiler.peek()):
                 break
             node.add_child(InlineStatement.consume(compiler, node))
         return node
@@ -1304,6 +1307,10 @@ class IfStatement(InlineStatement):
             if compiler.peek() == "end":
                 compiler.consume_line()
                 break
+            elif if_statement.else_:
+                raise ParseError(
+                    f'Expected "end" after else at line {compiler.line_no + 1}.'
+                )
             elif compiler.peek().startswith("elif "):
                 if_statement.add_elif(Elif.consume(compiler, if_statement))
             elif compiler.peek().startswith("else:"):
@@ -1809,6 +1816,10 @@ class DecoratedFunc(InlineStatement):
                 break
             elif compiler.peek().startswith("@"):
                 decorated_func.add_decorator(Decorator.consume(compiler, parent))
+            else:
+                raise ParseError(
+                    f"Expected a function definition at line {compiler.line_no + 1}."
+                )
         return decorated_func
 
     def process(self) -> None:
@@ -1829,7 +1840,7 @@ class DecoratedFunc(InlineStatement):
 class StructFieldDefinition(InlineStatement):
     pattern = (
         r"(?P<field_name>[a-z][A-Z-a-z0-9_]*): "
-        + r"(?P<data_type>[a-zA-Z][A-Z-a-z0-9_]+(\[\d+\])?)"
+        + r"(?P<data_type>[a-zA-Z][A-Z-a-z0-9_]+(\[\d+\])?)$"
     )
     field_name: str
     data_type: str
@@ -2080,6 +2091,10 @@ def split_return_args(s):
     return [s]
 
 
+def is_end_of_branch(line: str) -> bool:
+    return line == "end" or line.startswith(("elif ", "else:"))
+
+
 def process_functions_last(nodes: List[BaseNode]) -> None:
     # Functions use slots above all those in use so far, so the slots of everything
     # that can be live during a call have to be assigned before theirs.
-- 
2.43.0


From ce4f353bfa856721354941cbbc1dca9272c968b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:10 +0000
Subject: [PATCH 12/39] fix: source comments in a teal block are written as
 TEAL comments

---
 tealish/nodes.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index 6f35339..5a274a2 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -958,7 +958,10 @@ class Router(InlineStatement):
 
 class TealLine(Node):
     def write_teal(self, writer: "TealWriter") -> None:
-        writer.write(self, f"{self.line}")
+        if self.line.startswith("#") and not re.match(r"#(pragma|define)\b", self.line):
+            writer.write(self, f"//{self.line[1:]}")
+        else:
+            writer.write(self, f"{self.line}")
 
 
 class Teal(InlineStatement):
-- 
2.43.0


From 2d0b9f7928ae8ee79db1d3908bd524b966000b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:35 +0000
Subject: [PATCH 13/39] fix: functions are only defined after the exit
 statement of a program or block

They were accepted in the middle of if, while, for, inner_group and function
bodies, where execution falls into them, and decorated functions were not held
to the rule in blocks.
---
 tealish/nodes.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index 5a274a2..e4c9b50 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -710,13 +710,13 @@ class Block(Statement):
 
             n = Statement.consume(compiler, block)
             if exit_statement:
-                if not isinstance(n, (Func, Block, Comment, Blank)):
+                if not isinstance(n, (Func, DecoratedFunc, Block, Comment, Blank)):
                     raise ParseError(
                         f"Unexpected statement at line {n.line_no}."
                         + f" Only Block and Function definitions should occure after a {exit_statement}."
                     )
             else:
-                if isinstance(n, (Func, Block)):
+                if isinstance(n, (Func, DecoratedFunc, Block)):
                     raise ParseError(
                         f"Unexpected {n} definition at line {n.line_no}. "
                         + "Block and Function definitions must occur after an exit statement (e.g. exit, switch, jump)."
@@ -1101,7 +1101,7 @@ class InnerTxn(InlineStatement):
 
 
 class InnerGroup(InlineStatement):
-    possible_child_nodes = [Statement]
+    possible_child_nodes = [InlineStatement]
     pattern = r"inner_group:$"
 
     def __init__(self, line: str, parent: Node, compiler: "TealishCompiler") -> None:
@@ -1634,7 +1634,7 @@ class ArgsList(Expression):
         return output
 
 
-class Func(InlineStatement):
+class Func(Statement):
     possible_child_nodes = [InlineStatement]
     pattern = r"func (?P<name>[a-zA-Z_0-9]+)\((?P<args>.*)\)(?P<return_type>.*):$"
     name: str
@@ -1779,7 +1779,7 @@ class Decorator(Node):
         return output
 
 
-class DecoratedFunc(InlineStatement):
+class DecoratedFunc(Statement):
     possible_child_nodes = [Decorator, Comment, Func]
     pattern = r""
 
-- 
2.43.0


From 338385278ca62e1d7ef12817d7eab917f74f26a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:36 +0000
Subject: [PATCH 14/39] fix: unknown names and fields are CompileErrors

---
 tealish/__init__.py            |  8 +----
 tealish/base.py                | 32 +++++++++++++++--
 tealish/expression_nodes.py    | 17 +++++----
 tealish/nodes.py               | 64 +++++++++++++++++++++-------------
 tealish/tealish_expressions.tx |  5 +--
 5 files changed, 83 insertions(+), 43 deletions(-)

diff --git a/tealish/__init__.py b/tealish/__init__.py
index 1ea87fb..5829519 100644
--- a/tealish/__init__.py
+++ b/tealish/__init__.py
@@ -1,4 +1,3 @@
-import inspect
 from typing import List, Dict, Union, Tuple
 from .base import BaseNode
 from .errors import ParseError
@@ -128,12 +127,7 @@ class TealishCompiler:
     def process(self) -> None:
         set_active_structs(self.structs)
         for node in self.nodes:
-            try:
-                node.process()
-            except Exception as e:
-                node = inspect.trace()[-1].frame.f_locals['self']
-                print(node.line_no, node.line)
-                raise e
+            node.process()
         self.processed = True
 
     def compile(self) -> List[str]:
diff --git a/tealish/base.py b/tealish/base.py
index e00c735..c62c492 100644
--- a/tealish/base.py
+++ b/tealish/base.py
@@ -3,7 +3,13 @@ from tealish.errors import CompileError
 from .tealish_builtins import ConstValue, Var
 from .langspec import get_active_langspec, Op
 from .scope import Scope, ScopeError
-from .types import TealishType, get_type_instance
+from .types import (
+    BoxType,
+    StructField,
+    StructType,
+    TealishType,
+    get_type_instance,
+)
 
 
 if TYPE_CHECKING:
@@ -112,7 +118,12 @@ class BaseNode:
         return blocks
 
     def get_block(self, name: str) -> "Block":
-        return self.get_blocks()[name]
+        blocks = self.get_blocks()
+        if name not in blocks:
+            raise CompileError(
+                f'Block "{name}" not declared in current scope', node=self
+            )
+        return blocks[name]
 
     def is_descendant_of(self, node_class: type) -> bool:
         return self.find_parent(node_class) is not None
@@ -145,7 +156,22 @@ class BaseNode:
             raise CompileError(str(e), node=self)  # type: ignore
 
     def get_field_type(self, namespace: str, name: str) -> TealishType:
-        return lang_spec.get_field_type(namespace, name)
+        try:
+            return lang_spec.get_field_type(namespace, name)
+        except KeyError:
+            raise CompileError(f'Unknown {namespace} field "{name}"', node=self)
+
+    def get_struct_field(self, var: Var, field_name: str) -> StructField:
+        struct = var.tealish_type
+        if not isinstance(struct, (StructType, BoxType)):
+            raise CompileError(
+                f"{var.name} is not a struct or Box reference", node=self
+            )
+        if field_name not in struct.fields:
+            raise CompileError(
+                f'{struct} {var.name} has no field "{field_name}"', node=self
+            )
+        return struct.fields[field_name]
 
     def lookup_op(self, name: str) -> Op:
         return lang_spec.lookup_op(name)
diff --git a/tealish/expression_nodes.py b/tealish/expression_nodes.py
index 07e1f49..82158f9 100644
--- a/tealish/expression_nodes.py
+++ b/tealish/expression_nodes.py
@@ -127,7 +127,7 @@ class Enum(BaseNode):
             try:
                 # op field
                 type = self.lookup_op_field(self.parent.name, self.name)
-            except KeyError:
+            except (KeyError, AttributeError):
                 raise CompileError(f'Unknown builtin enum "{self.name}"', node=self)
         if not isinstance(type, (IntType, BytesType, BigIntType, AddrType)):
             raise CompileError(f"Unexpected const type {type}", node=self)
@@ -463,11 +463,11 @@ class GroupTxnField(BaseNode):
         if not isinstance(self.index, Integer):
             # index is an expression that needs to be evaluated
             self.index.process()
+        elif self.index.value >= 16:
+            raise CompileError("Group index must be less than 16", node=self)
 
     def write_teal(self, writer: "TealWriter") -> None:
         if isinstance(self.index, Integer):
-            assert self.index.value >= 0, "Group index < 0"
-            assert self.index.value < 16, "Group index > 16"
             writer.write(self, f"gtxn {self.index.value} {self.field}")
         else:
             # index is a constant
@@ -499,6 +499,8 @@ class GroupTxnArrayField(BaseNode):
         if not isinstance(self.index, Integer):
             # index is an expression that needs to be evaluated
             self.index.process()
+        elif self.index.value >= 16:
+            raise CompileError("Group index must be less than 16", node=self)
         if not isinstance(self.arrayIndex, Integer):
             self.arrayIndex.process()
 
@@ -515,7 +517,6 @@ class GroupTxnArrayField(BaseNode):
                 writer.write(self, f"gtxnsa {self.field} {self.arrayIndex.value}")
         else:
             # index is a constant
-            assert self.index.value >= 0 and self.index.value < 16
             if not isinstance(self.arrayIndex, Integer):
                 # arrayIndex is an expression that needs to be evaluated
                 writer.write(self, self.arrayIndex)
@@ -601,10 +602,12 @@ class StructOrBoxField(BaseNode):
         self.parent = parent
 
     def process(self) -> None:
-        self.var = self.lookup_var(self.name)
+        try:
+            self.var = self.lookup_var(self.name)
+        except KeyError as e:
+            raise CompileError(e.args[0], node=self)
         self.object_type = self.var.tealish_type
-        struct = self.var.tealish_type
-        struct_field = struct.fields[self.field]
+        struct_field = self.get_struct_field(self.var, self.field)
         self.offset = struct_field.offset
         self.size = struct_field.size
         self.type = struct_field.tealish_type
diff --git a/tealish/nodes.py b/tealish/nodes.py
index e4c9b50..92b0f9f 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -842,7 +842,10 @@ class Route(Node):
 
     def process(self) -> None:
         self.arg_expressions = []
-        self.func = self.lookup_func(self.name)
+        try:
+            self.func = self.lookup_func(self.name)
+        except KeyError as e:
+            raise CompileError(e.args[0], node=self)
         if "public" not in self.func.attributes:
             raise CompileError(f"{self.name} is not a public function", node=self)
         for i, (arg, type_name) in enumerate(self.func.args.args):
@@ -1903,9 +1906,18 @@ class StructDefinition(InlineStatement):
         node.struct = StructType(node.name)
         for field in node.child_nodes:
             field_node = cast(StructFieldDefinition, field)
-            node.struct.add_field(
-                field_node.field_name, get_type_instance(field_node.data_type)
-            )
+            try:
+                field_type = get_type_instance(field_node.data_type)
+            except KeyError:
+                raise ParseError(
+                    f'Unknown type "{field_node.data_type}" at line {field_node.line_no}'
+                )
+            if not field_type.size or field_node.field_name in node.struct.fields:
+                raise ParseError(
+                    "Struct fields need a unique name and a fixed size"
+                    + f" at line {field_node.line_no}"
+                )
+            node.struct.add_field(field_node.field_name, field_type)
         define_struct(node.struct)
 
         return node
@@ -1939,14 +1951,8 @@ class StructOrBoxAssignment(LineStatement):
         if self.var is None:
             raise CompileError(f"Could not find struct with name: {self.name.value}")
 
-        if not isinstance(self.var.tealish_type, (StructType, BoxType)):
-            raise CompileError(
-                f"{self.name.value} is not a struct or Box reference", node=self
-            )
         self.object_type = self.var.tealish_type
-
-        struct = self.var.tealish_type
-        struct_field = struct.fields[self.field_name]
+        struct_field = self.get_struct_field(self.var, self.field_name)
         self.offset = struct_field.offset
         self.size = struct_field.size
         self.data_type = struct_field.tealish_type
@@ -2035,7 +2041,10 @@ class BoxDeclaration(LineStatement):
     key: GenericExpression
 
     def process(self):
-        self.struct = get_struct(self.struct_name)
+        try:
+            self.struct = get_struct(self.struct_name)
+        except KeyError:
+            raise CompileError(f'Unknown struct "{self.struct_name}"', node=self)
         self.box_size = self.struct.size
         self.var = self.declare_scratch_var(self.name.value, f"box<{self.struct_name}>")
         self.key.process()
@@ -2079,19 +2088,26 @@ class BoxDeclaration(LineStatement):
 
 
 def split_return_args(s):
+    args = [""]
     parentheses = 0
-    quotes = False
-    for i in range(len(s)):
-        if s[i] == '"':
-            quotes = not quotes
-        if not quotes:
-            if s[i] == "(":
-                parentheses += 1
-            if s[i] == ")":
-                parentheses -= 1
-            if parentheses == 0 and s[i] == ",":
-                return [s[:i].strip()] + split_return_args(s[i + 1 :].strip())
-    return [s]
+    quote = None
+    escaped = False
+    for c in s:
+        if quote:
+            if c == quote and not escaped:
+                quote = None
+            escaped = c == "\\" and not escaped
+        elif c in "\"'":
+            quote = c
+        elif c == "(":
+            parentheses += 1
+        elif c == ")":
+            parentheses -= 1
+        if c == "," and not quote and parentheses == 0:
+            args.append("")
+        else:
+            args[-1] += c
+    return [arg.strip() for arg in args]
 
 
 def is_end_of_branch(line: str) -> bool:
diff --git a/tealish/tealish_expressions.tx b/tealish/tealish_expressions.tx
index a295478..874acb4 100644
--- a/tealish/tealish_expressions.tx
+++ b/tealish/tealish_expressions.tx
@@ -40,8 +40,9 @@ Enum: name=/([A-Z][A-Za-z_0-9]+)/;
 Name: (/([a-z][A-Za-z_0-9]*)(\[[0-9]+\])?/ | /_/);
 StdLibFunctionName: /([A-Z][A-Za-z_0-9]+)/;
 GroupIndex: NegativeGroupIndex | PositiveGroupIndex | Expression;
-NegativeGroupIndex: '-' index=INT;
-PositiveGroupIndex: '+' index=INT;
+NegativeGroupIndex: '-' index=GroupOffset;
+PositiveGroupIndex: '+' index=GroupOffset;
+GroupOffset: /[0-9]{1,2}\b/;
 HexBytes: value=/0x([a-fA-F0-9]+)/;
 Integer: value=/[0-9_]+/;
 Bytes: value=StringLiteral | HexBytes;
-- 
2.43.0


From 73bffcfe3aa012fde58c9802b26853f7117c6c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:06 +0000
Subject: [PATCH 15/39] fix: parsing an expression takes time linear in its
 nesting depth

---
 tealish/tx_expressions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tealish/tx_expressions.py b/tealish/tx_expressions.py
index edfc4a5..195f221 100644
--- a/tealish/tx_expressions.py
+++ b/tealish/tx_expressions.py
@@ -15,6 +15,8 @@ tealish_mm = metamodel_from_file(
     skipws=True,
     ws=" \t",
     debug=False,
+    # without it the time is exponential in the nesting depth
+    memoization=True,
     classes=class_provider,
 )
 
-- 
2.43.0


From 09275ca90722d1fdf2e4490015d480768692362d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:14 +0000
Subject: [PATCH 16/39] fix: the bitwise and operator can be used in
 expressions

---
 tealish/tealish_expressions.tx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tealish/tealish_expressions.tx b/tealish/tealish_expressions.tx
index 874acb4..521c50b 100644
--- a/tealish/tealish_expressions.tx
+++ b/tealish/tealish_expressions.tx
@@ -7,7 +7,7 @@ BinaryOp: a=Value op=BinaryOperator b=Value;
 BinaryOperator: '+' | '-' | '*' | '/' | '%'
     | '==' | '>=' | '<=' | '>' | '<' | '!='
     | '&&' | '||'
-    | '|' | '%' | '^'
+    | '|' | '&' | '^'
     | 'b+' | 'b-' | 'b/' | 'b*' | 'b%'
     | 'b==' | 'b!=' | 'b>=' | 'b<=' | 'b>' | 'b<'
     | 'b|' | 'b&' | 'b^';
-- 
2.43.0


From 70f83d4984a1fa289ac709d7e57a6551d74b9a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:02 +0000
Subject: [PATCH 17/39] fix: array fields are accessed with an index and other
 fields without

---
 tealish/base.py             | 20 +++++++++--
 tealish/expression_nodes.py | 66 ++++++++++++++++++++++++++-----------
 tealish/langspec.py         |  4 +++
 3 files changed, 68 insertions(+), 22 deletions(-)

diff --git a/tealish/base.py b/tealish/base.py
index c62c492..8ebebe0 100644
--- a/tealish/base.py
+++ b/tealish/base.py
@@ -4,6 +4,7 @@ from .tealish_builtins import ConstValue, Var
 from .langspec import get_active_langspec, Op
 from .scope import Scope, ScopeError
 from .types import (
+    AVMType,
     BoxType,
     StructField,
     StructType,
@@ -155,11 +156,26 @@ class BaseNode:
         except Exception as e:
             raise CompileError(str(e), node=self)  # type: ignore
 
-    def get_field_type(self, namespace: str, name: str) -> TealishType:
+    def get_field_type(
+        self, namespace: str, name: str, array: bool = False
+    ) -> TealishType:
         try:
-            return lang_spec.get_field_type(namespace, name)
+            type = lang_spec.get_field_type(namespace, name)
         except KeyError:
             raise CompileError(f'Unknown {namespace} field "{name}"', node=self)
+        if "txn" in namespace and array != (name in lang_spec.txn_array_fields):
+            raise CompileError(
+                f'Field "{name}" {"has no" if array else "needs an"} index', node=self
+            )
+        return type
+
+    def process_index(self, index: "Node") -> None:
+        index.process()
+        avm_type = getattr(index.type, "avm_type", None)
+        if avm_type not in (AVMType.int, AVMType.any):
+            raise CompileError(
+                f"Incorrect type {index.type} for index. Expected int", node=self
+            )
 
     def get_struct_field(self, var: Var, field_name: str) -> StructField:
         struct = var.tealish_type
diff --git a/tealish/expression_nodes.py b/tealish/expression_nodes.py
index 82158f9..6536fbe 100644
--- a/tealish/expression_nodes.py
+++ b/tealish/expression_nodes.py
@@ -403,6 +403,10 @@ class UserDefinedFuncCall(BaseNode):
         return f"{self.name}({', '.join(args)})"
 
 
+def is_immediate_index(node: "Node") -> bool:
+    return isinstance(node, Integer) and node.value < 256
+
+
 class TxnField(BaseNode):
     def __init__(self, field: str, parent: Optional[BaseNode] = None) -> None:
         self.field = field
@@ -432,13 +436,11 @@ class TxnArrayField(BaseNode):
         self.parent = parent
 
     def process(self) -> None:
-        self.type = self.get_field_type("txn", self.field)
-        if not isinstance(self.arrayIndex, Integer):
-            # index is an expression that needs to be evaluated
-            self.arrayIndex.process()
+        self.type = self.get_field_type("txn", self.field, array=True)
+        self.process_index(self.arrayIndex)
 
     def write_teal(self, writer: "TealWriter") -> None:
-        if not isinstance(self.arrayIndex, Integer):
+        if not is_immediate_index(self.arrayIndex):
             writer.write(self, self.arrayIndex)
             writer.write(self, f"txnas {self.field}")
         else:
@@ -460,10 +462,8 @@ class GroupTxnField(BaseNode):
 
     def process(self) -> None:
         self.type = self.get_field_type("gtxn", self.field)
-        if not isinstance(self.index, Integer):
-            # index is an expression that needs to be evaluated
-            self.index.process()
-        elif self.index.value >= 16:
+        self.process_index(self.index)
+        if isinstance(self.index, Integer) and self.index.value >= 16:
             raise CompileError("Group index must be less than 16", node=self)
 
     def write_teal(self, writer: "TealWriter") -> None:
@@ -495,20 +495,17 @@ class GroupTxnArrayField(BaseNode):
         self.parent = parent
 
     def process(self) -> None:
-        self.type = self.get_field_type("gtxn", self.field)
-        if not isinstance(self.index, Integer):
-            # index is an expression that needs to be evaluated
-            self.index.process()
-        elif self.index.value >= 16:
+        self.type = self.get_field_type("gtxn", self.field, array=True)
+        self.process_index(self.index)
+        if isinstance(self.index, Integer) and self.index.value >= 16:
             raise CompileError("Group index must be less than 16", node=self)
-        if not isinstance(self.arrayIndex, Integer):
-            self.arrayIndex.process()
+        self.process_index(self.arrayIndex)
 
     def write_teal(self, writer: "TealWriter") -> None:
         if not isinstance(self.index, Integer):
             # index is an expression that needs to be evaluated
             writer.write(self, self.index)
-            if not isinstance(self.arrayIndex, Integer):
+            if not is_immediate_index(self.arrayIndex):
                 # arrayIndex is an expression that needs to be evaluated
                 writer.write(self, self.arrayIndex)
                 writer.write(self, f"gtxnsas {self.field}")
@@ -517,7 +514,7 @@ class GroupTxnArrayField(BaseNode):
                 writer.write(self, f"gtxnsa {self.field} {self.arrayIndex.value}")
         else:
             # index is a constant
-            if not isinstance(self.arrayIndex, Integer):
+            if not is_immediate_index(self.arrayIndex):
                 # arrayIndex is an expression that needs to be evaluated
                 writer.write(self, self.arrayIndex)
                 writer.write(self, f"gtxnas {self.index.value} {self.field}")
@@ -535,7 +532,7 @@ class GroupTxnArrayField(BaseNode):
 class PositiveGroupIndex(BaseNode):
     def __init__(self, index: int, parent: Optional["BaseNode"] = None) -> None:
         self.index = index
-        self.type = AVMType.int
+        self.type = IntType()
         self.parent = parent
 
     def write_teal(self, writer: "TealWriter") -> None:
@@ -550,7 +547,7 @@ class PositiveGroupIndex(BaseNode):
 class NegativeGroupIndex(BaseNode):
     def __init__(self, index: int, parent: Optional[BaseNode] = None) -> None:
         self.index = index
-        self.type = AVMType.int
+        self.type = IntType()
         self.parent = parent
 
     def write_teal(self, writer: "TealWriter") -> None:
@@ -594,6 +591,34 @@ class InnerTxnField(BaseNode):
         return f"Itxn.{self.field}"
 
 
+class InnerTxnArrayField(BaseNode):
+    def __init__(
+        self,
+        field: str,
+        arrayIndex: Union[Constant, Integer],
+        parent: Optional[BaseNode] = None,
+    ) -> None:
+        self.field = field
+        self.arrayIndex = arrayIndex
+        self.type = AVMType.any
+        self.parent = parent
+
+    def process(self) -> None:
+        self.type = self.get_field_type("txn", self.field, array=True)
+        self.process_index(self.arrayIndex)
+
+    def write_teal(self, writer: "TealWriter") -> None:
+        if not is_immediate_index(self.arrayIndex):
+            writer.write(self, self.arrayIndex)
+            writer.write(self, f"itxnas {self.field}")
+        else:
+            # index is a constant
+            writer.write(self, f"itxna {self.field} {self.arrayIndex.value}")
+
+    def _tealish(self) -> str:
+        return f"Itxn.{self.field}[{self.arrayIndex.tealish()}]"
+
+
 class StructOrBoxField(BaseNode):
     def __init__(self, name, field, parent=None) -> None:
         self.name = name
@@ -658,6 +683,7 @@ def class_provider(name: str) -> Optional[type]:
         "NegativeGroupIndex": NegativeGroupIndex,
         "GlobalField": GlobalField,
         "InnerTxnField": InnerTxnField,
+        "InnerTxnArrayField": InnerTxnArrayField,
         "StructOrBoxField": StructOrBoxField,
     }
     return classes.get(name)
diff --git a/tealish/langspec.py b/tealish/langspec.py
index 45c0c3c..4151421 100644
--- a/tealish/langspec.py
+++ b/tealish/langspec.py
@@ -224,6 +224,10 @@ class LangSpec:
 
         self.global_fields: Dict[str, TealishType] = self.fields["Global"]
         self.txn_fields: Dict[str, TealishType] = self.fields["Txn"]
+        # fields that are accessed by index
+        self.txn_array_fields: List[str] = (
+            self.ops["txna"].arg_enum if "txna" in self.ops else []
+        )
 
     def as_dict(self) -> Dict[str, Any]:
         return self.spec
-- 
2.43.0


From 42aa9a9d8aa631dba76557f6a7b8b7a237a9c164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:20 +0000
Subject: [PATCH 18/39] fix: conditions, ranges, exit, comparisons and
 inner_txn fields are type checked

---
 tealish/base.py             | 31 +++++++++++++++++++++++++++----
 tealish/expression_nodes.py | 18 +++++++++++++-----
 tealish/nodes.py            | 12 ++++++++++++
 tealish/types.py            |  6 +++++-
 4 files changed, 57 insertions(+), 10 deletions(-)

diff --git a/tealish/base.py b/tealish/base.py
index 8ebebe0..cd87df3 100644
--- a/tealish/base.py
+++ b/tealish/base.py
@@ -5,6 +5,7 @@ from .langspec import get_active_langspec, Op
 from .scope import Scope, ScopeError
 from .types import (
     AVMType,
+    AnyType,
     BoxType,
     StructField,
     StructType,
@@ -169,12 +170,34 @@ class BaseNode:
             )
         return type
 
-    def process_index(self, index: "Node") -> None:
-        index.process()
-        avm_type = getattr(index.type, "avm_type", None)
+    def check_same_kind(self, a: "Node", b: "Node", usage: str) -> None:
+        kinds = {getattr(n.type, "avm_type", None) for n in (a, b)}
+        if None in kinds or len(kinds - {AVMType.any}) > 1:
+            raise CompileError(
+                f"Incorrect types {a.type}, {b.type} for {usage}", node=self
+            )
+
+    def check_int(self, expression: "Node", usage: str) -> None:
+        avm_type = getattr(expression.type, "avm_type", None)
         if avm_type not in (AVMType.int, AVMType.any):
             raise CompileError(
-                f"Incorrect type {index.type} for index. Expected int", node=self
+                f"Incorrect type for {usage}. Expected int, got {expression.type}",
+                node=self,
+            )
+
+    def check_inner_field(self, name: str, index: Optional[str], value: "Node") -> None:
+        fields = lang_spec.lookup_op("itxn_field").arg_enum_dict
+        is_array = name in lang_spec.txn_array_fields
+        if name not in fields or (index is not None and not is_array):
+            raise CompileError(f'Unknown inner_txn field "{name}"', node=self)
+        # The elements of array fields are not checked
+        expected = AnyType() if is_array else fields[name]
+        kinds = {getattr(value.type, "avm_type", None), expected.avm_type}
+        if None in kinds or len(kinds - {AVMType.any}) > 1:
+            raise CompileError(
+                f"Incorrect type {value.type} for inner_txn field {name}. "
+                + f"Expected {expected}",
+                node=self,
             )
 
     def get_struct_field(self, var: Var, field_name: str) -> StructField:
diff --git a/tealish/expression_nodes.py b/tealish/expression_nodes.py
index 6536fbe..2b109fc 100644
--- a/tealish/expression_nodes.py
+++ b/tealish/expression_nodes.py
@@ -180,6 +180,9 @@ class BinaryOp(BaseNode):
         self.a.process()
         self.b.process()
         self.check_arg_types(self.op, [self.a, self.b])
+        if self.op in ("==", "!="):
+            # these take any type but both sides have to be of the same kind
+            self.check_same_kind(self.a, self.b, self.op)
         op = self.lookup_op(self.op)
         self.type = type_lookup(op.returns)
 
@@ -437,7 +440,8 @@ class TxnArrayField(BaseNode):
 
     def process(self) -> None:
         self.type = self.get_field_type("txn", self.field, array=True)
-        self.process_index(self.arrayIndex)
+        self.arrayIndex.process()
+        self.check_int(self.arrayIndex, "index")
 
     def write_teal(self, writer: "TealWriter") -> None:
         if not is_immediate_index(self.arrayIndex):
@@ -462,7 +466,8 @@ class GroupTxnField(BaseNode):
 
     def process(self) -> None:
         self.type = self.get_field_type("gtxn", self.field)
-        self.process_index(self.index)
+        self.index.process()
+        self.check_int(self.index, "index")
         if isinstance(self.index, Integer) and self.index.value >= 16:
             raise CompileError("Group index must be less than 16", node=self)
 
@@ -496,10 +501,12 @@ class GroupTxnArrayField(BaseNode):
 
     def process(self) -> None:
         self.type = self.get_field_type("gtxn", self.field, array=True)
-        self.process_index(self.index)
+        self.index.process()
+        self.check_int(self.index, "index")
         if isinstance(self.index, Integer) and self.index.value >= 16:
             raise CompileError("Group index must be less than 16", node=self)
-        self.process_index(self.arrayIndex)
+        self.arrayIndex.process()
+        self.check_int(self.arrayIndex, "index")
 
     def write_teal(self, writer: "TealWriter") -> None:
         if not isinstance(self.index, Integer):
@@ -605,7 +612,8 @@ class InnerTxnArrayField(BaseNode):
 
     def process(self) -> None:
         self.type = self.get_field_type("txn", self.field, array=True)
-        self.process_index(self.arrayIndex)
+        self.arrayIndex.process()
+        self.check_int(self.arrayIndex, "index")
 
     def write_teal(self, writer: "TealWriter") -> None:
         if not is_immediate_index(self.arrayIndex):
diff --git a/tealish/nodes.py b/tealish/nodes.py
index 92b0f9f..579b011 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -521,6 +521,7 @@ class Exit(LineStatement):
 
     def process(self) -> None:
         self.expression.process()
+        self.check_int(self.expression, "exit")
 
     def write_teal(self, writer: "TealWriter") -> None:
         writer.write(self, f"// tl:{self.line_no}: {self.line}")
@@ -809,6 +810,7 @@ class Switch(InlineStatement):
         self.expression.process()
         for node in self.options:
             node.expression.process()
+            node.check_same_kind(self.expression, node.expression, "switch option")
 
     def write_teal(self, writer: "TealWriter") -> None:
         writer.write(self, f"// tl:{self.line_no}: {self.line}")
@@ -1076,6 +1078,9 @@ class InnerTxn(InlineStatement):
             for node in a:
                 node.expression.process()
 
+        for node in self.child_nodes:
+            node.check_inner_field(node.field_name, node.index, node.expression)
+
     def write_teal(self, writer: "TealWriter") -> None:
         writer.write(self, f"// tl:{self.line_no}: {self.line}")
         if self.compiler.use_inner_txns_macro:
@@ -1207,6 +1212,7 @@ class Elif(Node):
 
     def process(self) -> None:
         self.condition.process()
+        self.check_int(self.condition, "condition")
         for n in self.child_nodes:
             n.process()
 
@@ -1367,6 +1373,7 @@ class IfStatement(InlineStatement):
             self.child_nodes[-1].next_label = self.end_label
 
         self.condition.process()
+        self.check_int(self.condition, "condition")
 
         if self.if_then is not None:
             self.if_then.process()
@@ -1472,6 +1479,7 @@ class WhileStatement(InlineStatement):
 
     def process(self) -> None:
         self.condition.process()
+        self.check_int(self.condition, "condition")
         for n in self.child_nodes:
             n.process()
 
@@ -1530,6 +1538,8 @@ class ForStatement(InlineStatement):
         self.var = self.declare_scratch_var(self.var_name, "int")
         for n in self.nodes:
             n.process()
+        self.check_int(self.start, "range")
+        self.check_int(self.end, "range")
         self.del_var(self.var_name)
 
     def write_teal(self, writer: "TealWriter") -> None:
@@ -1594,6 +1604,8 @@ class For_Statement(InlineStatement):
     def process(self) -> None:
         for n in self.nodes:
             n.process()
+        self.check_int(self.start, "range")
+        self.check_int(self.end, "range")
 
     def write_teal(self, writer: "TealWriter") -> None:
         writer.write(self, f"// tl:{self.line_no}: {self.line}")
diff --git a/tealish/types.py b/tealish/types.py
index c0c284a..e23ac69 100644
--- a/tealish/types.py
+++ b/tealish/types.py
@@ -41,13 +41,17 @@ class TealishType:
             s += f"[{self.size}]"
         return s
 
+    def __repr__(self) -> str:
+        return str(self)
+
 
 class AnyType(TealishType):
     name = "any"
     avm_type = AVMType.any
 
     def can_hold(self, other):
-        return True
+        # calls without a single value do not have a TealishType
+        return getattr(other, "avm_type", None) is not None
 
 
 class IntType(TealishType):
-- 
2.43.0


From 5f809683fa347bc8f324e3d630a0fd8b0a9b35f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:31 +0000
Subject: [PATCH 19/39] fix: standard library functions check their arguments
 and keep their contracts

---
 tealish/stdlib.py | 225 ++++++++++++++++++++++++++++++++++++----------
 tealish/types.py  |  14 ++-
 2 files changed, 188 insertions(+), 51 deletions(-)

diff --git a/tealish/stdlib.py b/tealish/stdlib.py
index 92dda3e..e230d4a 100644
--- a/tealish/stdlib.py
+++ b/tealish/stdlib.py
@@ -1,9 +1,11 @@
+import base64
+import math
 from typing import List, Optional, Union
 from Cryptodome.Hash import SHA512
 from tealish import TealWriter
 from tealish.base import BaseNode
 from tealish.errors import CompileError, warning
-from tealish.expression_nodes import Integer
+from tealish.expression_nodes import Bytes, Constant, Enum, Integer, Variable
 from tealish.nodes import Node
 from tealish.types import (
     AVMType,
@@ -11,9 +13,11 @@ from tealish.types import (
     BigIntType,
     BytesType,
     IntType,
+    TealishType,
     UIntType,
     get_type_instance,
 )
+from tealish.utils import decode_string
 
 
 class FunctionCall(BaseNode):
@@ -25,9 +29,59 @@ class FunctionCall(BaseNode):
         self.immediate_args = ""
 
     def process(self) -> None:
+        self.check_num_args(0)
         for arg in self.args:
             arg.process()
 
+    def check_num_args(self, minimum: int, maximum: Optional[float] = None) -> None:
+        maximum = minimum if maximum is None else maximum
+        if not minimum <= len(self.args) <= maximum:
+            raise CompileError(
+                f"Incorrect number of args ({len(self.args)}) for {self.name}",
+                node=self,
+            )
+
+    def get_type_arg(self, i: int) -> TealishType:
+        arg = self.args[i]
+        if isinstance(arg, (Variable, Constant, Enum)):
+            try:
+                return get_type_instance(arg.name)
+            except KeyError:
+                pass
+        raise CompileError(
+            f'Unknown type "{arg.tealish()}" for arg {i} of {self.name}', node=self
+        )
+
+    def get_int_arg(self, i: int) -> int:
+        self.args[i].process()
+        value = getattr(self.args[i], "value", None)
+        if not isinstance(value, int):
+            raise CompileError(
+                f"Expected a constant int for arg {i} of {self.name}", node=self
+            )
+        return value
+
+    def get_string_arg(self, i: int) -> str:
+        """The text of a constant string without quotes"""
+        arg = self.args[i]
+        arg.process()
+        value = getattr(arg, "value", None)
+        if isinstance(arg, Constant) and str(value).startswith('"'):
+            return value[1:-1]
+        if isinstance(arg, Bytes):
+            return value
+        raise CompileError(
+            f"Expected a constant string for arg {i} of {self.name}", node=self
+        )
+
+    def check_bytes_arg(self, i: int) -> None:
+        type = self.args[i].type
+        if getattr(type, "avm_type", None) not in (AVMType.bytes, AVMType.any):
+            raise CompileError(
+                f"Incorrect type {type} for arg {i} of {self.name}. Expected bytes",
+                node=self,
+            )
+
     def _tealish(self) -> str:
         args = [a.tealish() for a in self.args]
         return f"{self.name}({', '.join(args)})"
@@ -42,6 +96,7 @@ class Pop(FunctionCall):
     name = "pop"
 
     def process(self) -> None:
+        self.check_num_args(0)
         self.type = AnyType()
 
     def write_teal(self, writer: "TealWriter") -> None:
@@ -57,6 +112,8 @@ class Push(FunctionCall):
         self.type = None
         for arg in self.args:
             arg.process()
+            if not arg.type:
+                raise CompileError(f"{arg.tealish()} has no value", node=self)
 
     def write_teal(self, writer: "TealWriter") -> None:
         for arg in self.args:
@@ -70,10 +127,12 @@ class Bzero(FunctionCall):
     name = "bzero"
 
     def process(self) -> None:
+        self.check_num_args(1)
         arg = self.args[0]
         arg.process()
+        self.check_arg_types(self.name, self.args)
         # Integer literals and some other functions set value to a constant at compile time
-        if hasattr(arg, "value"):
+        if getattr(arg, "value", None) is not None:
             self.type = BytesType(arg.value)
         else:
             self.type = BytesType()
@@ -94,7 +153,8 @@ class Convert(FunctionCall):
     name = "Convert"
 
     def process(self) -> None:
-        self.type = get_type_instance(self.args[1].name)
+        self.check_num_args(2)
+        self.type = self.get_type_arg(1)
         self.args[0].process()
         self.expression = self.args[0]
         if str(self.expression.type) == str(self.type):
@@ -132,7 +192,8 @@ class Cast(FunctionCall):
     name = "Cast"
 
     def process(self) -> None:
-        self.type = get_type_instance(self.args[1].name)
+        self.check_num_args(2)
+        self.type = self.get_type_arg(1)
         self.args[0].process()
         self.expression = self.args[0]
         if str(self.expression.type) == str(self.type):
@@ -140,15 +201,22 @@ class Cast(FunctionCall):
                 "Unncecessary use of cast. Types are known to be the same", node=self
             )
 
-        if isinstance(self.expression.type, IntType) and isinstance(self.type, IntType):
+        if isinstance(self.expression.type, AnyType):
+            self.expression = TypeAssertionWrapper(self.expression, self.type)
+        elif isinstance(self.expression.type, IntType) and isinstance(
+            self.type, IntType
+        ):
             # Int -> Int
             self.expression = UIntSizeAssertionWrapper(self.expression, self.type.size)
             self.expression.process()
         elif isinstance(self.expression.type, BytesType) and isinstance(
             self.type, BytesType
         ):
-            self.expression = BytesSizeAssertionWrapper(self.expression, self.type.size)
-            self.expression.process()
+            if self.type.size:
+                self.expression = BytesSizeAssertionWrapper(
+                    self.expression, self.type.size
+                )
+                self.expression.process()
         else:
             raise CompileError(
                 f"Unexpected cast from {self.expression.type} to {self.type}", node=self
@@ -162,9 +230,12 @@ class ToBytes(FunctionCall):
     name = "ToBytes"
 
     def process(self) -> None:
+        self.check_num_args(2)
         self.args[0].process()
         self.expression = self.args[0]
-        size = self.args[1].value
+        size = self.get_int_arg(1)
+        if not size:
+            raise CompileError("Expected a size larger than 0 for ToBytes", node=self)
         self.type = BytesType(size)
         if not isinstance(self.expression.type, (IntType, BigIntType)):
             raise CompileError(
@@ -174,32 +245,50 @@ class ToBytes(FunctionCall):
 
     def write_teal(self, writer: "TealWriter") -> None:
         expression_type = self.expression.type
-        writer.write(self, self.expression)
         if isinstance(expression_type, IntType):
-            writer.write(self, "itob")
-        if self.type.size and self.type.size < 8:
-            writer.write(self, f"extract {8 - self.type.size} {self.type.size}")
-        elif self.type.size > 8:
+            writer.write(self, UIntToBytesWrapper(self.expression, self.type.size))
+        else:
+            writer.write(self, self.expression)
             writer.write(self, f"// zpad({self.type.size})")
             writer.write(self, f"pushint {self.type.size}")
             writer.write(self, "bzero")
             writer.write(self, "b|")
+            writer.write(
+                self,
+                [
+                    "dup",
+                    "len",
+                    f"pushint {self.type.size}",
+                    "==",
+                    "assert",
+                    f"// Bytes Size Assertion: {self.type.size} bytes",
+                ],
+            )
 
 
 class FromBytes(FunctionCall):
     name = "FromBytes"
 
     def process(self) -> None:
+        self.check_num_args(2)
         self.args[0].process()
         self.expression = self.args[0]
-        to_type = get_type_instance(self.args[1].name)
+        to_type = self.get_type_arg(1)
         if isinstance(to_type, IntType):
             to_type = IntType()
         self.type = to_type
 
         if not isinstance(self.expression.type, (BytesType,)):
             raise CompileError(
-                f"Incorrect source type {self.expression.type} for FromBytes. Expected bytes."
+                f"Incorrect source type {self.expression.type} for FromBytes. Expected bytes.",
+                node=self,
+            )
+        if not isinstance(to_type, IntType) and not to_type.can_hold(
+            self.expression.type
+        ):
+            raise CompileError(
+                f"Unexpected conversion from {self.expression.type} to {to_type}",
+                node=self,
             )
 
     def write_teal(self, writer: "TealWriter") -> None:
@@ -227,28 +316,32 @@ class TypeAssertionWrapper(BaseNode):
     def write_teal(self, writer):
         writer.write(self, self.expression)
         for i, type in enumerate(self.types):
-            if (
-                isinstance(type, BytesType)
-                and type.size
-                and type.size != self.incoming_types[i].size
+            unknown = isinstance(self.incoming_types[i], AnyType)
+            # If this has a return type duplicate the value so there is something left to return
+            # The first value is on the top of the stack
+            copy = ["dup" if i == 0 else f"dig {i}"] if self.dup else []
+            if isinstance(type, BytesType) and (
+                unknown or (type.size and type.size != self.incoming_types[i].size)
             ):
-                if self.dup:
-                    # If this has a return type duplicate the value so there is something left to return
-                    writer.write(self, "dup")
                 # Assert that the expression is bytes of size N
+                writer.write(self, copy)
                 writer.write(self, f"// {type} Type Assertion")
                 writer.write(self, "len")
-                writer.write(self, f"pushint {type.size}")
-                writer.write(self, "==")
-                writer.write(self, "assert // Error: Incorrect size for assignment")
-            elif (
-                isinstance(type, UIntType) and type.size != self.incoming_types[i].size
+                if type.size:
+                    writer.write(self, f"pushint {type.size}")
+                    writer.write(self, "==")
+                    writer.write(self, "assert // Error: Incorrect size for assignment")
+                else:
+                    writer.write(self, "pop")
+            elif isinstance(type, IntType) and (
+                unknown or type.size < self.incoming_types[i].size
             ):
-                if self.type:
-                    # If this has a return type duplicate the value so there is something left to return
-                    writer.write(self, "dup")
                 # Assert that the expression is an int of N*8 bits
+                writer.write(self, copy)
                 writer.write(self, f"// {type} Type Assertion")
+                if unknown:
+                    # bitlen takes bytes as well
+                    writer.write(self, "itob")
                 writer.write(self, "bitlen")
                 writer.write(self, f"pushint {type.size * 8}")
                 writer.write(self, "<=")
@@ -329,7 +422,10 @@ class UIntToBytesWrapper(BaseNode):
             writer.write(self, self.expression)
             writer.write(self, "itob")
         else:
-            writer.write(self, UIntSizeAssertionWrapper(self.expression, self.size * 8))
+            if self.size < 8:
+                writer.write(self, UIntSizeAssertionWrapper(self.expression, self.size))
+            else:
+                writer.write(self, self.expression)
             writer.write(self, "itob")
             if self.size and self.size < 8:
                 writer.write(self, f"extract {8 - self.size} {self.size}")
@@ -354,8 +450,19 @@ class EnsureType(FunctionCall):
     name = "EnsureType"
 
     def process(self) -> None:
-        types = [get_type_instance(a.name) for a in self.args[1:]]
+        self.check_num_args(2, math.inf)
+        types = [self.get_type_arg(i) for i in range(1, len(self.args))]
         self.args[0].process()
+        incoming = self.args[0].type
+        incoming = incoming if isinstance(incoming, list) else [incoming]
+        kinds = [getattr(t, "avm_type", None) for t in incoming]
+        if len(types) != len(kinds) or any(
+            kind not in (AVMType.any, type.avm_type) for kind, type in zip(kinds, types)
+        ):
+            raise CompileError(
+                f"Incorrect types {incoming} for EnsureType. Expected {types}",
+                node=self,
+            )
         self.expression = TypeAssertionWrapper(self.args[0], types, return_val=True)
         self.type = types[0] if len(types) == 1 else types
 
@@ -367,11 +474,18 @@ class UncheckedCast(FunctionCall):
     name = "UncheckedCast"
 
     def process(self) -> None:
+        self.check_num_args(2, math.inf)
         if len(self.args) == 2:
-            self.type = get_type_instance(self.args[1].name)
+            self.type = self.get_type_arg(1)
         else:
-            self.type = [get_type_instance(arg.name) for arg in self.args[1:]]
+            self.type = [self.get_type_arg(i) for i in range(1, len(self.args))]
         self.args[0].process()
+        incoming = self.args[0].type or []
+        num_values = len(incoming) if isinstance(incoming, list) else 1
+        if num_values != len(self.args) - 1:
+            raise CompileError(
+                f"Incorrect number of types for {num_values} values", node=self
+            )
 
     def write_teal(self, writer: "TealWriter") -> None:
         writer.write(self, self.args[0])
@@ -388,7 +502,8 @@ class SizeOf(FunctionCall):
     name = "SizeOf"
 
     def process(self):
-        type = get_type_instance(self.args[0].name)
+        self.check_num_args(1)
+        type = self.get_type_arg(0)
         self.value = type.size
         self.type = IntType()
 
@@ -400,14 +515,16 @@ class Rpad(FunctionCall):
     name = "Rpad"
 
     def process(self) -> None:
+        self.check_num_args(2)
         self.args[0].process()
         self.expression = self.args[0]
-        self.size = self.args[1].value
+        self.size = self.get_int_arg(1)
         self.type = BytesType(self.size)
 
         if not isinstance(self.expression.type, (BytesType,)):
             raise CompileError(
-                f"Incorrect type {self.expression.type} for Rpad. Expected bytes."
+                f"Incorrect type {self.expression.type} for Rpad. Expected bytes.",
+                node=self,
             )
 
     def write_teal(self, writer: "TealWriter") -> None:
@@ -431,14 +548,16 @@ class Lpad(FunctionCall):
     name = "Lpad"
 
     def process(self) -> None:
+        self.check_num_args(2)
         self.args[0].process()
         self.expression = self.args[0]
-        self.size = self.args[1].value
+        self.size = self.get_int_arg(1)
         self.type = BytesType(self.size)
 
         if not isinstance(self.expression.type, (BytesType,)):
             raise CompileError(
-                f"Incorrect type {self.expression.type} for Lpad. Expected bytes."
+                f"Incorrect type {self.expression.type} for Lpad. Expected bytes.",
+                node=self,
             )
 
     def write_teal(self, writer: "TealWriter") -> None:
@@ -463,8 +582,10 @@ class Concat(FunctionCall):
     name = "Concat"
 
     def process(self) -> None:
-        for arg in self.args:
+        self.check_num_args(1, math.inf)
+        for i, arg in enumerate(self.args):
             arg.process()
+            self.check_bytes_arg(i)
         self.type = BytesType()
 
     def write_teal(self, writer: "TealWriter") -> None:
@@ -478,23 +599,33 @@ class Address(FunctionCall):
     name = "Address"
 
     def process(self) -> None:
-        for arg in self.args:
-            arg.process()
+        self.check_num_args(1)
+        self.address = self.get_string_arg(0)
+        try:
+            # 32 bytes of public key and the end of its hash as checksum
+            address = base64.b32decode(self.address + "=" * 6)
+        except ValueError:
+            address = b""
+        checksum = SHA512.new(address[:32], truncate="256").digest()[-4:]
+        if len(self.address) != 58 or address[32:] != checksum:
+            raise CompileError(f'Invalid address "{self.address}"', node=self)
         self.type = BytesType()
 
     def write_teal(self, writer: "TealWriter") -> None:
-        value = self.args[0].value
-        writer.write(self, f"addr {value}")
+        writer.write(self, f"addr {self.address}")
 
 
 class ARC28Event(FunctionCall):
     name = "ARC28Event"
 
     def process(self) -> None:
-        self.signature = self.args[0].value
-        self.prefix = SHA512.new(self.signature.encode(), truncate="256").hexdigest()[:8]  # 4 bytes, 8 chars of hex
-        for arg in self.args[1:]:
+        self.check_num_args(1, math.inf)
+        self.signature = self.get_string_arg(0)
+        signature = decode_string(self.signature)
+        self.prefix = SHA512.new(signature, truncate="256").hexdigest()[:8]  # 4 bytes, 8 chars of hex
+        for i, arg in enumerate(self.args[1:]):
             arg.process()
+            self.check_bytes_arg(i + 1)
         self.type = BytesType()
 
     def write_teal(self, writer: "TealWriter") -> None:
diff --git a/tealish/types.py b/tealish/types.py
index e23ac69..08103a9 100644
--- a/tealish/types.py
+++ b/tealish/types.py
@@ -134,6 +134,12 @@ class AddrType(BytesType):
     avm_type = AVMType.bytes
     size = 32
 
+    def __init__(self):
+        super().__init__(self.size)
+
+    def __str__(self) -> str:
+        return self.name
+
 
 class StructField:
     tealish_type: "TealishType"
@@ -221,16 +227,16 @@ def get_type_instance(type_name):
         return UInt8Type()
     elif type_name == "uint64":
         return IntType()
-    elif m := re.match(r"bytes\[([0-9]+)\]", type_name):
+    elif m := re.fullmatch(r"bytes\[([0-9]+)\]", type_name):
         size = int(m.groups()[0])
         return BytesType(size)
-    elif m := re.match(r"box<([A-Z][a-zA-Z0-9_]+)>", type_name):
+    elif m := re.fullmatch(r"box<([A-Z][a-zA-Z0-9_]+)>", type_name):
         struct_name = m.groups()[0]
         return BoxType(struct_name=struct_name)
-    elif m := re.match(r"([A-Z][a-zA-Z0-9_]+)", type_name):
+    elif m := re.fullmatch(r"([A-Z][a-zA-Z0-9_]+)", type_name):
         struct_name = m.groups()[0]
         return get_struct(struct_name)
-    elif m := re.match(r"uint8\[([0-9]+)\]", type_name):
+    elif m := re.fullmatch(r"uint8\[([0-9]+)\]", type_name):
         size = int(m.groups()[0])
         return ArrayType(UInt8Type, size)
     else:
-- 
2.43.0


From ca40b234eb7f54ca0f6318ac9a9a0964c7dc64eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:33 +0000
Subject: [PATCH 20/39] fix: minified TEAL keeps its literals, comments and
 every branch target

---
 tealish/__init__.py |  7 +++----
 tealish/utils.py    | 28 ++++++++++++++++++++++------
 2 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/tealish/__init__.py b/tealish/__init__.py
index 5829519..b578981 100644
--- a/tealish/__init__.py
+++ b/tealish/__init__.py
@@ -150,10 +150,9 @@ class TealishCompiler:
         return self.nodes[0].tealish()
 
     def get_map(self) -> TealishMap:
-        map = TealishMap()
-        map.teal_tealish = dict(self.source_map)
-        map.errors = dict(self.error_messages)
-        return map
+        return TealishMap(
+            {"teal_tealish": self.source_map, "errors": self.error_messages}
+        )
 
     def get_structs(self):
         return dict(self.structs)
diff --git a/tealish/utils.py b/tealish/utils.py
index 6d33ab2..10b2dfd 100644
--- a/tealish/utils.py
+++ b/tealish/utils.py
@@ -51,8 +51,8 @@ def minify_teal(teal_lines: List[str]) -> Tuple[List[str], Dict[int, int]]:
         i = i + 1
         line = line.strip()
         if not (not line or line.startswith("//")):
-            if line.split("//")[0].strip().endswith(":"):
-                label = line.split("//")[0].strip()[:-1]
+            if m := re.fullmatch(r'([^\s";]+):\s*(//.*)?', line):
+                label = m.group(1)
                 # duplicate labels get compressed into 1
                 if previous_line_is_label:
                     label_replacements[label] = previous_label
@@ -66,18 +66,34 @@ def minify_teal(teal_lines: List[str]) -> Tuple[List[str], Dict[int, int]]:
             output.append(line)
     source_map[n] = len(teal_lines) - 1
     for i, line in enumerate(output):
-        for k in label_replacements:
-            if k in line:
-                output[i] = line.replace(k, label_replacements[k])
+        output[i] = replace_labels(line, label_replacements)
     return output, source_map
 
 
+def replace_labels(line: str, labels: Dict[str, str]) -> str:
+    """Replace the target labels of the branch instructions of a line of TEAL"""
+    output = ""
+    op = ""
+    for m in re.finditer(r'//.*|;|\s+|"(?:\\.|[^"\\])*"|(?:(?!//)[^\s;"])+|"', line):
+        token = m.group()
+        if token == ";":
+            op = ""
+        elif not op:
+            # labels can precede an instruction
+            op = "" if token.isspace() or token.endswith(":") else token
+        elif op in ("b", "bz", "bnz", "callsub", "switch", "match"):
+            token = labels.get(token, token)
+        output += token
+    return output
+
+
 def strip_comments(teal_lines: List[str]) -> List[str]:
     output: List[str] = []
     for line in teal_lines:
         line = line.strip()
         if not (not line or line.startswith("//")):
-            line = line.split("//")[0].strip()
+            i = find_outside_strings(line, "//")
+            line = line[:i].strip() if i >= 0 else line
             output.append(line)
     return output
 
-- 
2.43.0


From 8c62af5a67b7124d63ee5665784e65ee95819b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:34 +0000
Subject: [PATCH 21/39] fix: lines of assembler source maps are counted from 0

---
 tealish/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tealish/utils.py b/tealish/utils.py
index 10b2dfd..14acb9e 100644
--- a/tealish/utils.py
+++ b/tealish/utils.py
@@ -140,7 +140,8 @@ class TealishMap:
     ) -> None:
         if not isinstance(sourcemap, SourceMap):
             sourcemap = SourceMap(sourcemap)
-        self.pc_teal = dict(sourcemap.pc_to_line)
+        # lines are counted from 0 in assembler source maps, but from 1 here
+        self.pc_teal = {pc: line + 1 for pc, line in sourcemap.pc_to_line.items()}
 
     def as_dict(self) -> Dict[str, Any]:
         return {
-- 
2.43.0


From 6fa8937c7d91be586d47e7a492498abe53803e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:36 +0000
Subject: [PATCH 22/39] fix: the command line tool reports every compile error
 and names its outputs after the source

---
 tealish/build.py | 27 +++++++++++++++------------
 tealish/cli.py   | 16 ++++++++--------
 2 files changed, 23 insertions(+), 20 deletions(-)

diff --git a/tealish/build.py b/tealish/build.py
index a28d429..489ca86 100644
--- a/tealish/build.py
+++ b/tealish/build.py
@@ -1,24 +1,27 @@
 from base64 import b64decode
 from typing import Tuple
 import json
+import os
 import subprocess
+import tempfile
 from algosdk.v2client.algod import AlgodClient
 from algosdk.source_map import SourceMap
 
 
 def assemble_with_goal(teal: str) -> Tuple[bytes, SourceMap]:
-    tmp_out_filename = "/tmp/out.tok"
-    try:
-        subprocess.check_output(
-            ["goal", "clerk", "compile", "-", "--map", "-o", tmp_out_filename],
-            input=teal.encode(),
-        )
-    except FileNotFoundError:
-        raise Exception("goal not found in path")
-    except subprocess.CalledProcessError as e:
-        raise Exception(e.output)
-    bytecode = open(tmp_out_filename, "rb").read()
-    algod_sourcemap = json.load(open(tmp_out_filename + ".map"))
+    with tempfile.TemporaryDirectory() as tmp:
+        tmp_out_filename = os.path.join(tmp, "out.tok")
+        try:
+            subprocess.check_output(
+                ["goal", "clerk", "compile", "-", "--map", "-o", tmp_out_filename],
+                input=teal.encode(),
+            )
+        except FileNotFoundError:
+            raise Exception("goal not found in path")
+        except subprocess.CalledProcessError as e:
+            raise Exception(e.output)
+        bytecode = open(tmp_out_filename, "rb").read()
+        algod_sourcemap = json.load(open(tmp_out_filename + ".map"))
     return bytecode, SourceMap(algod_sourcemap)
 
 
diff --git a/tealish/cli.py b/tealish/cli.py
index 12ccefb..bbe1fe8 100644
--- a/tealish/cli.py
+++ b/tealish/cli.py
@@ -30,15 +30,15 @@ def _build(
         output_path = pathlib.Path(path).parent / "build"
         output_path.mkdir(exist_ok=True)
         filename = pathlib.Path(path).name
-        base_filename = filename.replace(".tl", "")
+        base_filename = filename.removesuffix(".tl")
 
         # Teal
         teal_filename = output_path / f"{base_filename}.teal"
         if not quiet:
             click.echo(f"Compiling {path} to {teal_filename}")
-        teal, tealish_map = _compile_program(open(path).read())
+        teal, tealish_map = _compile_program(open(path, encoding="utf-8").read())
         teal_string = "\n".join(teal + [""])
-        with open(teal_filename, "w") as f:
+        with open(teal_filename, "w", encoding="utf-8") as f:
             f.write("\n".join(teal + [""]))
 
         if assembler:
@@ -137,14 +137,14 @@ def build(
 
 
 @click.command()
-@click.argument("tealish_file", type=click.File("r+"))
+@click.argument("tealish_file", type=click.File("r+", encoding="utf-8"))
 @click.pass_context
 def format(ctx: click.Context, tealish_file: IO) -> None:
     """Rewrite .tl file using standard tealish style"""
     input = tealish_file.read()
     try:
         output = reformat_program(input)
-    except ParseError as e:
+    except (ParseError, CompileError) as e:
         raise click.ClickException(str(e))
     tealish_file.seek(0)
     tealish_file.write(output)
@@ -152,14 +152,14 @@ def format(ctx: click.Context, tealish_file: IO) -> None:
 
 
 @click.command()
-@click.argument("tealish_file", type=click.File("r"))
+@click.argument("tealish_file", type=click.File("r", encoding="utf-8"))
 @click.pass_context
 def inspect(ctx: click.Context, tealish_file: IO) -> None:
     """Inspect a tealish program"""
     input = tealish_file.read()
     try:
         output = inspect_program(input)
-    except ParseError as e:
+    except (ParseError, CompileError) as e:
         raise click.ClickException(str(e))
     print(json.dumps(output, indent=2))
 
@@ -243,7 +243,7 @@ def stats(ctx: click.Context, path: pathlib.Path) -> None:
         paths = [path]
     for path in paths:
         # click.echo(f"Compiling {path} to {teal_filename}")
-        tealish = open(path).readlines()
+        tealish = open(path, encoding="utf-8").readlines()
         n = 0
         for line in tealish:
             line = line.strip()
-- 
2.43.0


From 64bcc94107d82e43504e18ee2ea4e223eb8f1968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:01 +0000
Subject: [PATCH 23/39] fix: routes take every sized type and have a label of
 their own

---
 tealish/__init__.py |  3 ++-
 tealish/cli.py      |  2 +-
 tealish/nodes.py    | 13 +++++++------
 3 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/tealish/__init__.py b/tealish/__init__.py
index b578981..52aeed6 100644
--- a/tealish/__init__.py
+++ b/tealish/__init__.py
@@ -1,4 +1,4 @@
-from typing import List, Dict, Union, Tuple
+from typing import List, Dict, Set, Union, Tuple
 from .base import BaseNode
 from .errors import ParseError
 from .nodes import Node, Program
@@ -89,6 +89,7 @@ class TealishCompiler:
         self.line_nodes = {}
         self.use_inner_txns_macro = None
         self.structs: Dict[str, StructType] = {}
+        self.route_labels: Set[str] = set()
 
     def at_end(self) -> bool:
         return self.line_no == len(self.source_lines)
diff --git a/tealish/cli.py b/tealish/cli.py
index bbe1fe8..3276b1b 100644
--- a/tealish/cli.py
+++ b/tealish/cli.py
@@ -30,7 +30,7 @@ def _build(
         output_path = pathlib.Path(path).parent / "build"
         output_path.mkdir(exist_ok=True)
         filename = pathlib.Path(path).name
-        base_filename = filename.removesuffix(".tl")
+        base_filename = filename[:-3] if filename.endswith(".tl") else filename
 
         # Teal
         teal_filename = output_path / f"{base_filename}.teal"
diff --git a/tealish/nodes.py b/tealish/nodes.py
index 579b011..5c4af67 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -838,11 +838,12 @@ class Route(Node):
     pattern = r"(?P<name>.*)"
     name: str
 
-    @property
-    def label(self):
-        return f"route_{self.name}"
-
     def process(self) -> None:
+        self.label = f"route_{self.name}"
+        # other routers can have a route of the same name
+        while self.label in self.compiler.route_labels:
+            self.label += "_"
+        self.compiler.route_labels.add(self.label)
         self.arg_expressions = []
         try:
             self.func = self.lookup_func(self.name)
@@ -855,9 +856,9 @@ class Route(Node):
             arg_type = get_type_instance(type_name)
             if type_name == "bytes":
                 line = f"Txn.ApplicationArgs[{a}]"
-            elif type_name == "int":
+            elif isinstance(arg_type, IntType) and arg_type.size == 8:
                 line = f"FromBytes(Txn.ApplicationArgs[{a}], {type_name})"
-            elif isinstance(arg_type, IntType) and arg_type.size != 8:
+            elif isinstance(arg_type, IntType):
                 line = f"Cast(btoi(Txn.ApplicationArgs[{a}]), {type_name})"
             elif isinstance(arg_type, BytesType):
                 line = f"Cast(Txn.ApplicationArgs[{a}], {type_name})"
-- 
2.43.0


From 5daeb37d0be632c360dbe105936c21b329ea406e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:12 +0000
Subject: [PATCH 24/39] fix: struct fields beyond byte 255 are accessible

---
 tealish/expression_nodes.py | 9 +++++----
 tealish/nodes.py            | 7 ++++++-
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/tealish/expression_nodes.py b/tealish/expression_nodes.py
index 2b109fc..5cdf0ff 100644
--- a/tealish/expression_nodes.py
+++ b/tealish/expression_nodes.py
@@ -648,10 +648,11 @@ class StructOrBoxField(BaseNode):
     def write_teal(self, writer: "TealWriter") -> None:
         teal = ""
         if isinstance(self.object_type, StructType):
-            teal = [
-                f"load {self.var.scratch_slot}",
-                f"extract {self.offset} {self.size}",
-            ]
+            teal = [f"load {self.var.scratch_slot}"]
+            if self.offset < 256 and self.size < 256:
+                teal.append(f"extract {self.offset} {self.size}")
+            else:
+                teal += [f"pushint {self.offset}", f"pushint {self.size}", "extract3"]
         elif isinstance(self.object_type, BoxType):
             teal = [
                 f"load {self.var.scratch_slot}",
diff --git a/tealish/nodes.py b/tealish/nodes.py
index 5c4af67..e7ec170 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -2003,7 +2003,12 @@ class StructOrBoxAssignment(LineStatement):
             teal += [
                 f"load {self.var.scratch_slot}",
                 "swap",
-                f"replace {self.offset}",
+            ]
+            if self.offset < 256:
+                teal.append(f"replace {self.offset}")
+            else:
+                teal += [f"pushint {self.offset}", "swap", "replace3"]
+            teal += [
                 f"store {self.var.scratch_slot}",
                 f"// set {self.name.value}.{self.field_name}",
             ]
-- 
2.43.0


From 7e58d59f45b2b91db05175cfe7293716e9530081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:35 +0000
Subject: [PATCH 25/39] fix: formatting keeps return types and plain box
 references

---
 tealish/nodes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index e7ec170..0603601 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -1719,7 +1719,7 @@ class Func(Statement):
 
     def _tealish(self) -> str:
         returns = (
-            (" " + (", ".join(str(r) for r in self.returns))) if self.returns else ""
+            (" " + self.return_type.replace(",", ", ")) if self.returns else ""
         )
         output = f"func {self.name}({self.args.tealish()}){returns}:\n"
         for n in self.child_nodes:
@@ -2100,7 +2100,7 @@ class BoxDeclaration(LineStatement):
     def _tealish(self):
         s = (
             f"box<{self.struct_name}> {self.name.tealish()} = "
-            f"{self.method}Box({self.key.tealish()})"
+            f"{self.method or ''}Box({self.key.tealish()})"
         )
         return s + "\n"
 
-- 
2.43.0


From a02c153cfb07495c5fce7b5e613d1626293dc0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:48 +0000
Subject: [PATCH 26/39] fix: parameters, assert messages and assignments are
 parsed completely and in linear time

---
 tealish/nodes.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index 0603601..0918248 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -555,7 +555,7 @@ class FunctionCallStatement(LineStatement):
 
 
 class Assert(LineStatement):
-    pattern = r'assert\((?P<arg>.*?)(, "(?P<message>.*?)")?\)$'
+    pattern = r'assert\((?P<arg>.*?)(, "(?P<message>(?:\\.|[^"\\])*)")?\)$'
     arg: GenericExpression
     message: str
 
@@ -622,7 +622,10 @@ class VarDeclaration(LineStatement):
 
 
 class Assignment(LineStatement):
-    pattern = r"(?P<names>([a-z_][a-zA-Z0-9_]*,?\s*)+) = (?P<expression>.*)$"
+    pattern = (
+        r"(?P<names>[a-z_][a-zA-Z0-9_]*(\s*,\s*[a-z_][a-zA-Z0-9_]*)*)\s* = "
+        r"(?P<expression>.*)$"
+    )
     names: str
     name_nodes: List[Name]
     expression: GenericExpression
@@ -1637,12 +1640,17 @@ class For_Statement(InlineStatement):
 
 class ArgsList(Expression):
     arg_pattern = r"(?P<arg_name>[a-z][a-z_0-9]*): (?P<arg_type>[a-zA-Z][A-Za-z_0-9<>]*(?:\[\d+\])?)"
-    pattern = rf"(?P<args>({arg_pattern}(, )?)*)"
+    pattern = r"(?P<args>.*)"
     args: List[Tuple[str, TealishType]]
 
     def __init__(self, line: str) -> None:
         super().__init__(line)
-        self.args = re.findall(self.arg_pattern, line)
+        self.args = []
+        for arg in line.split(",") if line.strip() else []:
+            m = re.fullmatch(self.arg_pattern, arg.strip())
+            if m is None:
+                raise ParseError(f'Cannot parse "{arg.strip()}" as argument')
+            self.args.append((m.group("arg_name"), m.group("arg_type")))
         self.arg_types = [get_type_instance(type_name) for _, type_name in self.args]
 
     def _tealish(self) -> str:
-- 
2.43.0


From 1cf9ea959c2405d59e5db966c66401f1273e7ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:00 +0000
Subject: [PATCH 27/39] fix: names of constants, blocks, functions and structs
 are never ambiguous

---
 tealish/__init__.py         | 19 +++++++++++++++++--
 tealish/base.py             | 19 +++++++++++++++++--
 tealish/expression_nodes.py |  9 ++++++---
 tealish/nodes.py            | 21 +++++++++++++++++++--
 4 files changed, 59 insertions(+), 9 deletions(-)

diff --git a/tealish/__init__.py b/tealish/__init__.py
index 52aeed6..659bdee 100644
--- a/tealish/__init__.py
+++ b/tealish/__init__.py
@@ -1,9 +1,11 @@
+import re
 from typing import List, Dict, Set, Union, Tuple
 from .base import BaseNode
-from .errors import ParseError
+from .errors import CompileError, ParseError
 from .nodes import Node, Program
 from .utils import TealishMap, find_outside_strings
-from .types import StructType, set_active_structs
+from .tealish_builtins import ConstValue
+from .types import StructType, TealishType, set_active_structs
 
 
 class TealWriter:
@@ -90,6 +92,8 @@ class TealishCompiler:
         self.use_inner_txns_macro = None
         self.structs: Dict[str, StructType] = {}
         self.route_labels: Set[str] = set()
+        self.labels: Set[str] = set()
+        self.macros: Dict[str, Tuple[TealishType, ConstValue]] = {}
 
     def at_end(self) -> bool:
         return self.line_no == len(self.source_lines)
@@ -139,6 +143,7 @@ class TealishCompiler:
         self.writer = TealWriter()
         for node in self.nodes:
             node.write_teal(self.writer)
+        check_labels(self.writer.output)
         self.source_map = self.writer.source_map
         self.output = self.writer.output
         return self.writer.output
@@ -159,6 +164,16 @@ class TealishCompiler:
         return dict(self.structs)
 
 
+def check_labels(teal: List[str]) -> None:
+    """Names of blocks can be the same as those of other labels"""
+    labels = set()
+    for line in teal:
+        if m := re.match(r"\s*([A-Za-z0-9_]+):(\s|$)", line):
+            if m.group(1) in labels:
+                raise CompileError(f'Duplicate label "{m.group(1)}"')
+            labels.add(m.group(1))
+
+
 def compile_program(source: str) -> Tuple[List[str], TealishMap]:
     source_lines = source.split("\n")
     compiler = TealishCompiler(source_lines)
diff --git a/tealish/base.py b/tealish/base.py
index cd87df3..b9b5986 100644
--- a/tealish/base.py
+++ b/tealish/base.py
@@ -1,6 +1,6 @@
 from typing import cast, Any, Dict, List, Optional, Tuple, TYPE_CHECKING
 from tealish.errors import CompileError
-from .tealish_builtins import ConstValue, Var
+from .tealish_builtins import ConstValue, Var, constants
 from .langspec import get_active_langspec, Op
 from .scope import Scope, ScopeError
 from .types import (
@@ -15,7 +15,7 @@ from .types import (
 
 
 if TYPE_CHECKING:
-    from . import TealWriter
+    from . import TealWriter, TealishCompiler
     from .nodes import Block, Node, Func
 
 lang_spec = get_active_langspec()
@@ -224,6 +224,21 @@ class BaseNode:
     def lookup_const(self, name: str) -> Tuple["TealishType", ConstValue]:
         return self.get_scope().lookup_const(name)
 
+    def get_compiler(self) -> Optional["TealishCompiler"]:
+        compiler = getattr(self, "compiler", None)
+        parent = getattr(self, "parent", None)
+        if compiler is None and parent is not None:
+            return parent.get_compiler()
+        return compiler
+
+    def is_teal_name(self, name: str) -> bool:
+        """True if the name has a meaning of its own in TEAL"""
+        return (
+            name in self.compiler.labels  # type: ignore
+            or name in constants
+            or any(name in op.arg_enum for op in lang_spec.ops.values())
+        )
+
     def lookup_avm_constant(self, name: str) -> Tuple["TealishType", Any]:
         return lang_spec.lookup_avm_constant(name)
 
diff --git a/tealish/expression_nodes.py b/tealish/expression_nodes.py
index 5cdf0ff..d3e5ea3 100644
--- a/tealish/expression_nodes.py
+++ b/tealish/expression_nodes.py
@@ -99,12 +99,15 @@ class Constant(BaseNode):
 
         self.type = type
         self.value = value
+        macros = getattr(self.get_compiler(), "macros", None)
+        is_macro = macros is None or macros.get(self.name) == (type, value)
+        self.teal_value = self.name if is_macro else value
 
     def write_teal(self, writer: "TealWriter") -> None:
         if isinstance(self.type, IntType):
-            writer.write(self, f"pushint {self.name} // {self.value}")  # type: ignore
+            writer.write(self, f"pushint {self.teal_value} // {self.value}")  # type: ignore
         elif isinstance(self.type, BytesType):
-            writer.write(self, f"pushbytes {self.name} // {self.value}")  # type: ignore
+            writer.write(self, f"pushbytes {self.teal_value} // {self.value}")  # type: ignore
         else:
             raise CompileError(f"Unexpected const type {self.type}", node=self)
 
@@ -310,7 +313,7 @@ class OpCall(BaseNode):
             x.process()
             self.check_immediate_arg(op, i, x)
             if isinstance(x, Constant):
-                immediates[i] = x.name
+                immediates[i] = x.teal_value
             elif isinstance(x, Enum):
                 immediates[i] = x.name if x.value is None else x.value
             elif hasattr(x, "value") and isinstance(x.type, IntType):
diff --git a/tealish/nodes.py b/tealish/nodes.py
index 0918248..eb6a9c6 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -488,10 +488,21 @@ class Const(LineStatement):
                 f"Incorrect type {self.literal.type()} for const {tealish_type}",
                 node=self,
             )
-        scope.declare_const(self.name, (self.literal.type(), self.literal.value))
+        const_data = (self.literal.type(), self.literal.value)
+        declared = scope.consts.get(self.name)
+        if declared and not any(
+            s.consts.get(self.name) is declared for s in self.get_scopes()[1:]
+        ):
+            raise CompileError(f'Redefinition of constant "{self.name}"', node=self)
+        scope.declare_const(self.name, const_data)
+        # a macro replaces every occurrence of its name in the TEAL that follows
+        if not self.is_teal_name(self.name):
+            self.compiler.macros.setdefault(self.name, const_data)
+        self.is_macro = self.compiler.macros.get(self.name) is const_data
 
     def write_teal(self, writer: "TealWriter") -> None:
-        writer.write(self, f"#define {self.name} {self.literal.value}")
+        if self.is_macro:
+            writer.write(self, f"#define {self.name} {self.literal.value}")
 
     def _tealish(self) -> str:
         s = f"const {self.tealish_type} {self.name}"
@@ -695,6 +706,7 @@ class Block(Statement):
         scope = self.get_current_scope()
         scope.declare_block(self.name, self)
         self.label = scope.name + ("__" if scope.name else "") + self.name
+        compiler.labels.add(self.label)
         self.new_scope(self.name)
 
     @classmethod
@@ -1677,6 +1689,7 @@ class Func(Statement):
         scope = self.get_current_scope()
         scope.declare_function(self.name, self)
         self.label = scope.name + "__func__" + self.name
+        compiler.labels.add(self.label)
         self.new_scope("func__" + self.name)
         self.return_type = self.return_type.replace(" ", "")
         try:
@@ -1924,6 +1937,10 @@ class StructDefinition(InlineStatement):
                     )
                 )
 
+        if node.name in compiler.structs:
+            raise ParseError(
+                f'Redefinition of struct "{node.name}" at line {node.line_no}'
+            )
         node.struct = StructType(node.name)
         for field in node.child_nodes:
             field_node = cast(StructFieldDefinition, field)
-- 
2.43.0


From b8f8fb84dd6b30b7d815dacf5acf7285f91b3332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:46 +0000
Subject: [PATCH 28/39] fix: parameters of @public are checked

---
 tealish/nodes.py | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index eb6a9c6..ab902e6 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -1803,6 +1803,17 @@ class Return(LineStatement):
         return output + "\n"
 
 
+ON_COMPLETIONS = (
+    "NoOp",
+    "OptIn",
+    "CloseOut",
+    "ClearState",
+    "UpdateApplication",
+    "DeleteApplication",
+    "CreateApplication",
+)
+
+
 class Decorator(Node):
     pattern = r"@(?P<name>[a-z][a-zA-Z_0-9]*)\((?P<params>.*)\)$"
     name: str
@@ -1841,8 +1852,18 @@ class DecoratedFunc(Statement):
             self.func.attributes[decorator.name] = {}
             if m := re.match(r"(?P<key>.*)=(?P<value>.*)", decorator.params):
                 self.func.attributes[decorator.name] = {
-                    m.groupdict()["key"]: m.groupdict()["value"]
+                    m.groupdict()["key"].strip(): m.groupdict()["value"].strip()
                 }
+            if decorator.name == "public" and decorator.params.strip():
+                attributes = self.func.attributes["public"]
+                if (
+                    set(attributes) != {"OnCompletion"}
+                    or attributes["OnCompletion"] not in ON_COMPLETIONS
+                ):
+                    raise ParseError(
+                        f"Invalid parameters for @public: {decorator.params}"
+                        f" at line {decorator.line_no}."
+                    )
         self.add_child(node)
 
     @classmethod
-- 
2.43.0


From 270ca7a4c3e4b3dea4213cf7eca07d6830b41f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:33 +0000
Subject: [PATCH 29/39] fix: signed immediate arguments are checked as well

---
 tealish/expression_nodes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tealish/expression_nodes.py b/tealish/expression_nodes.py
index d3e5ea3..373bf4a 100644
--- a/tealish/expression_nodes.py
+++ b/tealish/expression_nodes.py
@@ -336,8 +336,9 @@ class OpCall(BaseNode):
         is_field = "field" in notes[i] and "array" not in notes[i]
         if is_field and op.arg_enum:
             valid = isinstance(arg, Enum) and arg.name in op.arg_enum_dict
-        elif "uint8" in notes[i]:
-            valid = isinstance(getattr(arg, "value", None), int) and arg.value < 256
+        elif "int8" in notes[i]:
+            limit = 256 if "uint8" in notes[i] else 128
+            valid = isinstance(getattr(arg, "value", None), int) and arg.value < limit
         else:
             return
         if not valid:
-- 
2.43.0


From 0b5d6eeead7ac437c87c0e8cea105afe4a485abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:49 +0000
Subject: [PATCH 30/39] fix: return values are mapped to the line of the return
 statement

---
 tealish/nodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index ab902e6..7bc6b3f 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -1771,7 +1771,7 @@ class Return(LineStatement):
             args = split_return_args(self.args)
             for a in args:
                 arg = a.strip()
-                node = GenericExpression.parse(arg, parent, compiler)
+                node = GenericExpression.parse(arg, self, compiler)
                 self.args_expressions.append(node)
         if len(self.args_expressions) != len(self.func.returns):
             raise ParseError(f"Incorrect number of returns. Line {self.line_no}")
-- 
2.43.0


From 0c7c6b3e134455930012e283dfb62a7fcb24b966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:19 +0000
Subject: [PATCH 31/39] fix: statements nested too deeply are a CompileError,
 not a RecursionError

---
 tealish/__init__.py | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/tealish/__init__.py b/tealish/__init__.py
index 659bdee..995a79c 100644
--- a/tealish/__init__.py
+++ b/tealish/__init__.py
@@ -136,24 +136,30 @@ class TealishCompiler:
         self.processed = True
 
     def compile(self) -> List[str]:
-        if not self.nodes:
-            self.parse()
-        if not self.processed:
-            self.process()
-        self.writer = TealWriter()
-        for node in self.nodes:
-            node.write_teal(self.writer)
+        try:
+            if not self.nodes:
+                self.parse()
+            if not self.processed:
+                self.process()
+            self.writer = TealWriter()
+            for node in self.nodes:
+                node.write_teal(self.writer)
+        except RecursionError:
+            raise CompileError("Statements are nested too deeply") from None
         check_labels(self.writer.output)
         self.source_map = self.writer.source_map
         self.output = self.writer.output
         return self.writer.output
 
     def reformat(self) -> str:
-        if not self.nodes:
-            self.parse()
-        if not self.processed:
-            self.process()
-        return self.nodes[0].tealish()
+        try:
+            if not self.nodes:
+                self.parse()
+            if not self.processed:
+                self.process()
+            return self.nodes[0].tealish()
+        except RecursionError:
+            raise CompileError("Statements are nested too deeply") from None
 
     def get_map(self) -> TealishMap:
         return TealishMap(
-- 
2.43.0


From b1ee21178c53522a3d5ceb9c06ad87ff08d3a53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:21 +0000
Subject: [PATCH 32/39] fix: a compiler whose program was rejected keeps
 rejecting it

---
 tealish/__init__.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/tealish/__init__.py b/tealish/__init__.py
index 995a79c..69c4ff7 100644
--- a/tealish/__init__.py
+++ b/tealish/__init__.py
@@ -88,6 +88,7 @@ class TealishCompiler:
         self.max_slot = 0
         self.writer = TealWriter()
         self.processed = False
+        self.error: Union[ParseError, CompileError, None] = None
         self.line_nodes = {}
         self.use_inner_txns_macro = None
         self.structs: Dict[str, StructType] = {}
@@ -135,12 +136,22 @@ class TealishCompiler:
             node.process()
         self.processed = True
 
-    def compile(self) -> List[str]:
+    def prepare(self) -> None:
+        # a rejected program stays rejected
+        if self.error is not None:
+            raise self.error
         try:
             if not self.nodes:
                 self.parse()
             if not self.processed:
                 self.process()
+        except (ParseError, CompileError) as e:
+            self.error = e
+            raise
+
+    def compile(self) -> List[str]:
+        try:
+            self.prepare()
             self.writer = TealWriter()
             for node in self.nodes:
                 node.write_teal(self.writer)
@@ -153,10 +164,7 @@ class TealishCompiler:
 
     def reformat(self) -> str:
         try:
-            if not self.nodes:
-                self.parse()
-            if not self.processed:
-                self.process()
+            self.prepare()
             return self.nodes[0].tealish()
         except RecursionError:
             raise CompileError("Statements are nested too deeply") from None
-- 
2.43.0


From bda0abba50a89415bf8d75de0399cb3892b6f0d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:50 +0000
Subject: [PATCH 33/39] fix: // in base64 text does not start a comment

---
 tealish/utils.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/tealish/utils.py b/tealish/utils.py
index 14acb9e..515040a 100644
--- a/tealish/utils.py
+++ b/tealish/utils.py
@@ -40,6 +40,13 @@ def find_outside_strings(line: str, token: str, quotes: str = '"') -> int:
     return -1
 
 
+# base64 text can contain what would otherwise start a comment
+TEAL_TOKEN = re.compile(
+    r"(?<!\S)(?:base64|b64)(?:\s+[^\s;]+|\([^)]*\))"
+    r'|//.*|;|\s+|"(?:\\.|[^"\\])*"|(?:(?!//)[^\s;"])+|"'
+)
+
+
 def minify_teal(teal_lines: List[str]) -> Tuple[List[str], Dict[int, int]]:
     source_map: Dict[int, int] = {}
     n = 1
@@ -74,7 +81,7 @@ def replace_labels(line: str, labels: Dict[str, str]) -> str:
     """Replace the target labels of the branch instructions of a line of TEAL"""
     output = ""
     op = ""
-    for m in re.finditer(r'//.*|;|\s+|"(?:\\.|[^"\\])*"|(?:(?!//)[^\s;"])+|"', line):
+    for m in TEAL_TOKEN.finditer(line):
         token = m.group()
         if token == ";":
             op = ""
@@ -92,9 +99,8 @@ def strip_comments(teal_lines: List[str]) -> List[str]:
     for line in teal_lines:
         line = line.strip()
         if not (not line or line.startswith("//")):
-            i = find_outside_strings(line, "//")
-            line = line[:i].strip() if i >= 0 else line
-            output.append(line)
+            tokens = [m.group() for m in TEAL_TOKEN.finditer(line)]
+            output.append("".join(t for t in tokens if not t.startswith("//")).strip())
     return output
 
 
-- 
2.43.0


From 0fdf79dc43007ddb01ed9762a49ac22fca98de25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:59 +0000
Subject: [PATCH 34/39] fix: the formatter does not change strings that contain
 unusual line separators

---
 tealish/nodes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index 7bc6b3f..a4d96b9 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -1,5 +1,4 @@
 import re
-import textwrap
 from typing import (
     get_type_hints,
     List,
@@ -2190,7 +2189,8 @@ def process_functions_last(nodes: List[BaseNode]) -> None:
 
 
 def indent(s: str) -> str:
-    return textwrap.indent(s, "    ")
+    # only newlines end a line: strings and comments can contain other separators
+    return "\n".join("    " + line if line.strip() else line for line in s.split("\n"))
 
 
 def is_exit_statement(node):
-- 
2.43.0


From 7011bbb9d94b7b0a0f93748d895a1a2601fd91a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:07 +0000
Subject: [PATCH 35/39] fix: " = " in a string argument does not make a
 statement an assignment

---
 tealish/nodes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tealish/nodes.py b/tealish/nodes.py
index a4d96b9..7bafe3e 100644
--- a/tealish/nodes.py
+++ b/tealish/nodes.py
@@ -30,7 +30,7 @@ from .types import (
     get_type_instance,
 )
 from .scope import Scope, ScopeError
-from .utils import decode_string
+from .utils import decode_string, find_outside_strings
 
 LITERAL_INT = r"[0-9]+"
 LITERAL_BYTE_STRING = r'"(?:\\.|[^"\\])*"'
@@ -422,7 +422,7 @@ class LineStatement(InlineStatement):
             return BoxDeclaration(line, parent, compiler=compiler)
         elif re.match(r"[a-z][a-zA-Z_0-9]*\.[a-z][a-zA-Z_0-9]* = .*", line):
             return StructOrBoxAssignment(line, parent, compiler=compiler)
-        elif " = " in line:
+        elif find_outside_strings(line, " = ", quotes="\"'") >= 0:
             return Assignment(line, parent, compiler=compiler)
         # Statement functions
         elif line.startswith("exit("):
-- 
2.43.0


From 84fba5a66adbed7b58cfb0543a09604156edf61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:32 +0000
Subject: [PATCH 36/39] fix: source map files are valid JSON whatever the error
 messages contain

---
 tealish/cli.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tealish/cli.py b/tealish/cli.py
index 3276b1b..8044e9e 100644
--- a/tealish/cli.py
+++ b/tealish/cli.py
@@ -78,7 +78,7 @@ def _build(
             if not quiet:
                 click.echo(f"Writing source map to {map_filename}")
             with open(map_filename, "w") as f:
-                f.write(json.dumps(tealish_map.as_dict()).replace("],", "],\n"))
+                f.write(json.dumps(tealish_map.as_dict()))
 
 
 def _compile_program(source: str) -> Tuple[List[str], TealishMap]:
-- 
2.43.0


From eefe5cec68bb7145e9f15225534923a87cc2a5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:30 +0000
Subject: [PATCH 37/39] fix: signatures state all immediate arguments of
 opcodes with fields

---
 tealish/langspec.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/tealish/langspec.py b/tealish/langspec.py
index 4151421..68b917c 100644
--- a/tealish/langspec.py
+++ b/tealish/langspec.py
@@ -1,5 +1,6 @@
 import importlib
 import os
+import re
 import requests
 import tealish
 import json
@@ -185,10 +186,18 @@ class Op:
         self.groups = op_def.get("groups", [])
 
         arg_list = [f"{abc[i]}: {t.name}" for i, t in enumerate(self.arg_types)]
+        immediate_list = ["i: int"] * self.immediate_args_num
         if len(self.arg_enum) > 0:
-            arg_list = ["F: field"] + arg_list
-        elif self.immediate_args_num > 0:
-            arg_list = (["i: int"] * self.immediate_args_num) + arg_list
+            # one of the immediates is the field
+            notes = re.findall(r"\{(.*?)\}", self.immediate_note)
+            fields = [
+                i for i, n in enumerate(notes) if "field" in n and "array" not in n
+            ]
+            immediate_list[:1] = ["F: field"]
+            if fields and len(notes) == self.immediate_args_num:
+                immediate_list[0] = "i: int"
+                immediate_list[fields[0]] = "F: field"
+        arg_list = immediate_list + arg_list
 
         arg_string = ", ".join(arg_list)
 
-- 
2.43.0


From 8d610271da9a625c89297888016889cb2545b951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:38 +0000
Subject: [PATCH 38/39] fix: names of transaction and global fields can have
 digits

---
 tealish/tealish_expressions.tx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tealish/tealish_expressions.tx b/tealish/tealish_expressions.tx
index 521c50b..38d697f 100644
--- a/tealish/tealish_expressions.tx
+++ b/tealish/tealish_expressions.tx
@@ -24,7 +24,7 @@ StdLibFunctionCall:
     ')')
 ;
 Field: TxnArrayField | TxnField | InnerTxnArrayField | InnerTxnField | GroupTxnArrayField | GroupTxnField | GlobalField;
-FieldName: /([A-Z][A-Za-z_]+)/;
+FieldName: /([A-Z][A-Za-z_0-9]+)/;
 TxnField: 'Txn.' field=FieldName;
 TxnArrayField: 'Txn.' field=FieldName '[' arrayIndex=Expression ']';
 GroupTxnField: 'Gtxn[' index=GroupIndex '].' field=FieldName;
-- 
2.43.0


From bfbbdb1e416a9e1c0fea786dd13c2caa639546cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:43 +0000
Subject: [PATCH 39/39] fix: names of opcode fields can start with several
 capitals

---
 tealish/tealish_expressions.tx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tealish/tealish_expressions.tx b/tealish/tealish_expressions.tx
index 38d697f..378341c 100644
--- a/tealish/tealish_expressions.tx
+++ b/tealish/tealish_expressions.tx
@@ -35,7 +35,7 @@ GlobalField: 'Global.' field=FieldName;
 StructOrBoxField: name=Name '.' field=Name;
 Value: StdLibFunctionCall | FunctionCall | Field | StructOrBoxField | UnaryOp | Group | Integer | Bytes | Constant | Enum | Variable;
 Variable: name=Name;
-Constant: name=/([A-Z][A-Z_0-9]+)/;
+Constant: name=/([A-Z][A-Z_0-9]+)\b/;
 Enum: name=/([A-Z][A-Za-z_0-9]+)/;
 Name: (/([a-z][A-Za-z_0-9]*)(\[[0-9]+\])?/ | /_/);
 StdLibFunctionName: /([A-Z][A-Za-z_0-9]+)/;
-- 
2.43.0

