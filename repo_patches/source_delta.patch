From 022ef07c550e91710708ded56c241a5b58d208e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:06 +0000
Subject: [PATCH 01/58] fix: keep the jump of a negated block that only
 consists of a jump

The lone-jump shortcut of block compilation redirected negated headers to the
target of the jump, so the jump was taken exactly when it should not be.
---
 .../ssb_converting/compiler/compile_handlers/abstract.py        | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/explorerscript/ssb_converting/compiler/compile_handlers/abstract.py b/explorerscript/ssb_converting/compiler/compile_handlers/abstract.py
index 536f53f..2329d3b 100644
--- a/explorerscript/ssb_converting/compiler/compile_handlers/abstract.py
+++ b/explorerscript/ssb_converting/compiler/compile_handlers/abstract.py
@@ -171,6 +171,8 @@ class AbstractComplexBlockCompileHandler(AbstractComplexStatementCompileHandler[
 
         if (
             len(self._header_jump_blueprints) > 0
+            # A negated header jumps over the block, so the jump in it must stay.
+            and all(hjb.jump_is_positive for hjb in self._header_jump_blueprints)
             and len(ops) == 1
             and isinstance(ops[0], SsbLabelJump)
             and ops[0].root.op_code.name == OP_JUMP
-- 
2.43.0


From 8d6db69693a3d1dd49b1d42a36fa544db42115f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:04 +0000
Subject: [PATCH 02/58] fix: keep a label at the end of a routine if branches,
 cases or other routines lead to it

Such labels were stripped and every op leading to them was replaced with Return
(or the jump was rejected), which dropped the test.
---
 .../compiler/compile_handlers/abstract.py     | 15 ++++++++++--
 .../ssb_converting/compiler/utils.py          | 23 ++++++++++++++++++-
 2 files changed, 35 insertions(+), 3 deletions(-)

diff --git a/explorerscript/ssb_converting/compiler/compile_handlers/abstract.py b/explorerscript/ssb_converting/compiler/compile_handlers/abstract.py
index 2329d3b..aff8519 100644
--- a/explorerscript/ssb_converting/compiler/compile_handlers/abstract.py
+++ b/explorerscript/ssb_converting/compiler/compile_handlers/abstract.py
@@ -33,9 +33,14 @@ else:
 
 from antlr4 import ParserRuleContext
 
-from explorerscript.ssb_converting.compiler.utils import CompilerCtx, SsbLabelJumpBlueprint, does_op_end_control_flow
+from explorerscript.ssb_converting.compiler.utils import (
+    CompilerCtx,
+    SsbLabelJumpBlueprint,
+    does_op_end_control_flow,
+    trailing_label_needs_op,
+)
 from explorerscript.ssb_converting.ssb_data_types import SsbOperation, SsbOpParam, SsbOpCode
-from explorerscript.ssb_converting.ssb_special_ops import SsbLabel, SsbLabelJump, OP_JUMP
+from explorerscript.ssb_converting.ssb_special_ops import SsbLabel, SsbLabelJump, OP_JUMP, OP_DUMMY_END
 
 if TYPE_CHECKING:
     from explorerscript.ssb_converting.compiler.compile_handlers.atoms.integer_like import IntegerLikeCompileHandler
@@ -261,6 +266,12 @@ class AbstractFuncdefCompileHandler(AbstractCompileHandler[CTX, AbstractCompileH
             ops_of_h = h.collect()
             assert isinstance(ops_of_h, list) and (len(ops_of_h) == 0 or isinstance(ops_of_h[0], SsbOperation))
             ops += ops_of_h
+        if trailing_label_needs_op(ops):
+            # Something that can not be turned into an end itself leads to the end of this routine.
+            self.compiler_ctx.source_map_builder.add_opcode(
+                self.compiler_ctx.counter_ops.next_id, self.ctx.stop.line - 1, self.ctx.stop.column
+            )
+            ops.append(SsbOperation(self.compiler_ctx.counter_ops(), SsbOpCode(-1, OP_DUMMY_END), []))
         return ops
 
     @abstractmethod
diff --git a/explorerscript/ssb_converting/compiler/utils.py b/explorerscript/ssb_converting/compiler/utils.py
index ffff701..7f06a20 100644
--- a/explorerscript/ssb_converting/compiler/utils.py
+++ b/explorerscript/ssb_converting/compiler/utils.py
@@ -38,6 +38,7 @@ from explorerscript.ssb_converting.ssb_special_ops import (
     SsbLabelJump,
     OPS_THAT_END_CONTROL_FLOW,
     OP_DUMMY_END,
+    OP_JUMP,
     OPS_CTX,
 )
 from explorerscript.util import f, _
@@ -252,6 +253,26 @@ def routine_op_offsets_are_ordered(routine_ops: list[list[SsbOperation]]) -> boo
     return True
 
 
+def trailing_label_needs_op(routine: list[SsbOperation]) -> bool:
+    """
+    Whether the routine ends with a label that must not be stripped (see strip_last_label), because not all references
+    to it are regular jumps in this routine, which can be replaced with an OP_DUMMY_END.
+    """
+    trailing_labels: set[int] = set()
+    for op in reversed(routine):
+        if not isinstance(op, SsbLabel):
+            break
+        if op.original_name is not None:
+            # Named labels may be referenced from anywhere.
+            return True
+        trailing_labels.add(op.id)
+    for op_i, op in enumerate(routine):
+        if isinstance(op, SsbLabelJump) and op.label is not None and op.label.id in trailing_labels:
+            if op.root.op_code.name != OP_JUMP or (op_i > 0 and routine[op_i - 1].op_code.name in OPS_CTX):
+                return True
+    return False
+
+
 def strip_last_label(routine_ops: list[list[SsbOperation]]) -> list[list[SsbOperation]]:
     """
     Checks if the last opcode of a routine is a label, and if so
@@ -284,7 +305,7 @@ def strip_last_label(routine_ops: list[list[SsbOperation]]) -> list[list[SsbOper
                     else:
                         if isinstance(op, SsbLabel):
                             # If there is a label before, then something might jump here!
-                            if jump_counts.get(op.id, 0) > 1:
+                            if jump_counts.get(op.id, 0) > 0 or op.original_name is not None:
                                 op_before_ends_control_flow = False
                         else:
                             op_before_ends_control_flow = does_op_end_control_flow(
-- 
2.43.0


From ef6e8c82b5dd7832652a81eb9b858417c228f6ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:13 +0000
Subject: [PATCH 03/58] fix: keep the jump of a case that only consists of a
 jump if the previous case falls through to it

---
 .../compiler/compile_handlers/abstract.py              |  8 ++++++--
 .../compile_handlers/blocks/switches/case_block.py     |  7 ++++++-
 .../compile_handlers/blocks/switches/switch_block.py   | 10 +++++++++-
 3 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/explorerscript/ssb_converting/compiler/compile_handlers/abstract.py b/explorerscript/ssb_converting/compiler/compile_handlers/abstract.py
index aff8519..f1d95c1 100644
--- a/explorerscript/ssb_converting/compiler/compile_handlers/abstract.py
+++ b/explorerscript/ssb_converting/compiler/compile_handlers/abstract.py
@@ -149,13 +149,16 @@ class AbstractComplexBlockCompileHandler(AbstractComplexStatementCompileHandler[
         self.start_label = None
         self.end_label = None
 
-    def _process_block(self, insert_the_jump_if_needed: bool = True) -> list[SsbOperation]:
+    def _process_block(
+        self, insert_the_jump_if_needed: bool = True, can_be_fallen_into: bool = False
+    ) -> list[SsbOperation]:
         """
         This processes the sub-block and returns the generated sub-block opcodes.
         - Opcodes are collected (warning: opcode indexing! Make sure you allocated index numbers for the header ops!)
         - From the header jump blueprints, jump opcodes are created [only applies if there are some!]
             - If the sub-block only has one single label jump, it's removed and the target
               of the headers is changed to the target of that jump
+              (not if can_be_fallen_into, because then the block isn't only entered by the headers)
             - Otherwise the jump is set to the offset id of the first opcode in the sub-block.
         - If insert_the_jump_if_needed:
             - If the last op of a block does not end the control flow, a label jump is inserted.
@@ -175,7 +178,8 @@ class AbstractComplexBlockCompileHandler(AbstractComplexStatementCompileHandler[
         self.end_label = SsbLabel(self.compiler_ctx.counter_labels(), -1, f"{self.__class__.__name__} block end label")
 
         if (
-            len(self._header_jump_blueprints) > 0
+            not can_be_fallen_into
+            and len(self._header_jump_blueprints) > 0
             # A negated header jumps over the block, so the jump in it must stay.
             and all(hjb.jump_is_positive for hjb in self._header_jump_blueprints)
             and len(ops) == 1
diff --git a/explorerscript/ssb_converting/compiler/compile_handlers/blocks/switches/case_block.py b/explorerscript/ssb_converting/compiler/compile_handlers/blocks/switches/case_block.py
index 238bf32..9cbd338 100644
--- a/explorerscript/ssb_converting/compiler/compile_handlers/blocks/switches/case_block.py
+++ b/explorerscript/ssb_converting/compiler/compile_handlers/blocks/switches/case_block.py
@@ -54,6 +54,11 @@ class CaseBlockCompileHandler(
         self.is_message_case = False
         # The end of the switch
         self._end_label: SsbLabel | None = None
+        # Whether the block of a previous case may continue with this one
+        self._can_be_fallen_into = False
+
+    def set_can_be_fallen_into(self, val: bool) -> None:
+        self._can_be_fallen_into = val
 
     def set_end_label(self, end_label: SsbLabel) -> None:
         self._end_label = end_label
@@ -69,7 +74,7 @@ class CaseBlockCompileHandler(
             raise SsbCompilerError(_("Invalid message switch case call."))
         # get_header_jump_template must be called first.
         self.compiler_ctx.add_switch_case(self)
-        retval = self._process_block(False)
+        retval = self._process_block(False, self._can_be_fallen_into)
         self.compiler_ctx.remove_switch_case()
         return retval
 
diff --git a/explorerscript/ssb_converting/compiler/compile_handlers/blocks/switches/switch_block.py b/explorerscript/ssb_converting/compiler/compile_handlers/blocks/switches/switch_block.py
index 4e3ada4..60adfe2 100644
--- a/explorerscript/ssb_converting/compiler/compile_handlers/blocks/switches/switch_block.py
+++ b/explorerscript/ssb_converting/compiler/compile_handlers/blocks/switches/switch_block.py
@@ -34,7 +34,7 @@ from explorerscript.ssb_converting.compiler.compile_handlers.blocks.switches.def
 from explorerscript.ssb_converting.compiler.compile_handlers.blocks.switches.switch_header import (
     SwitchHeaderCompileHandler,
 )
-from explorerscript.ssb_converting.compiler.utils import CompilerCtx, SsbLabelJumpBlueprint
+from explorerscript.ssb_converting.compiler.utils import CompilerCtx, SsbLabelJumpBlueprint, does_op_end_control_flow
 from explorerscript.ssb_converting.ssb_data_types import SsbOperation
 from explorerscript.ssb_converting.ssb_special_ops import (
     SsbLabel,
@@ -105,13 +105,21 @@ class SwitchBlockCompileHandler(
             default_ops = [self._generate_jump_operation(OP_JUMP, [], end_label)]
         # 3. For each case:
         cases_waiting_for_a_block = []
+        previous_falls_through = False
         for i, h in enumerate(self._case_handlers):
             if not h.has_sub_block_handlers():
                 # 3b. Else: Jump to the block of the next case which has a block.
                 cases_waiting_for_a_block.append(h)
             else:
                 # 3a. If the case has operations: Collect case sub-block ops
+                if isinstance(h, CaseBlockCompileHandler):
+                    h.set_can_be_fallen_into(previous_falls_through)
                 ops = h.collect()
+                # (the last op is the end label of the case block, if it is the only one the block was just a jump)
+                if len(ops) > 1:
+                    previous_falls_through = isinstance(ops[-2], SsbLabel) or not does_op_end_control_flow(
+                        ops[-2], ops[-3]
+                    )
                 start_label = h.get_start_label()
                 assert start_label is not None
                 if isinstance(h, DefaultCaseBlockCompileHandler):
-- 
2.43.0


From aea101175728559a43a5501151a0cdc45ba38e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:23 +0000
Subject: [PATCH 04/58] fix: only remove jumps that the op after them makes
 redundant

A jump over a branch, case or call op leading to the same label was removed, as
was a jump in a context (the context then applied to the op after it).
---
 .../ssb_converting/compiler/label_finalizer.py        | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/explorerscript/ssb_converting/compiler/label_finalizer.py b/explorerscript/ssb_converting/compiler/label_finalizer.py
index c791042..88f9376 100644
--- a/explorerscript/ssb_converting/compiler/label_finalizer.py
+++ b/explorerscript/ssb_converting/compiler/label_finalizer.py
@@ -25,7 +25,7 @@ from __future__ import annotations
 import logging
 
 from explorerscript.ssb_converting.ssb_data_types import SsbOperation
-from explorerscript.ssb_converting.ssb_special_ops import SsbLabel, SsbLabelJump, OP_JUMP
+from explorerscript.ssb_converting.ssb_special_ops import SsbLabel, SsbLabelJump, OP_JUMP, OPS_CTX
 
 logger = logging.getLogger(__name__)
 
@@ -51,7 +51,12 @@ class LabelFinalizer:
                     new_r.append(op)
                 else:
                     op_was_removed = False
-                    if isinstance(op, SsbLabelJump) and op.root.op_code.name == OP_JUMP:
+                    if (
+                        isinstance(op, SsbLabelJump)
+                        and op.root.op_code.name == OP_JUMP
+                        # (without the jump, the context op before would apply to the op after it)
+                        and not (op_i > 0 and r[op_i - 1].op_code.name in OPS_CTX)
+                    ):
                         # Remove any regular jumps that just jump to a label right after
                         for label in self._labels_after(r, op_i):
                             if op.label == label:
@@ -75,7 +80,7 @@ class LabelFinalizer:
                     # If this is a label jump, we ignore it, if it ALSO just jumps to a label right after,
                     # we only do this once because of performance concerns.
                     have_match = False
-                    if skip_redundant_label_jumps:
+                    if skip_redundant_label_jumps and r[cursor].root.op_code.name == OP_JUMP:  # type: ignore
                         for label in cls._labels_after(r, cursor, False):
                             if r[cursor].label == label:  # type: ignore
                                 have_match = True
-- 
2.43.0


From 6018e0098cb6bfaa57b502d7e6fa904d6365b658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:55 +0000
Subject: [PATCH 05/58] fix: follow the edges after a vertex when searching for
 the common end of branches

---
 .../ssb_converting/decompiler/graph_building/graph_utils.py  | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/explorerscript/ssb_converting/decompiler/graph_building/graph_utils.py b/explorerscript/ssb_converting/decompiler/graph_building/graph_utils.py
index 3406c8d..889ff67 100644
--- a/explorerscript/ssb_converting/decompiler/graph_building/graph_utils.py
+++ b/explorerscript/ssb_converting/decompiler/graph_building/graph_utils.py
@@ -173,10 +173,7 @@ def _find_first_common_next_vertex_in_edges__impl(
                         # Potential endless recursion situation. Abort.
                         new_es_entry.add(None)
                         continue
-                v_es: list[Edge] = []
-                for e in v_es:
-                    if e.index in g.es:
-                        v_es.append(e)
+                v_es: list[Edge] = v.out_edges()
                 if not allow_loop_edges:
                     # Remove edges marked as looping
                     v_es = [e for e in v_es if not any_incoming_edge_is_loop(e.target_vertex)]
-- 
2.43.0


From 6dd1e4bc9692a021a993e775d339b2b657a4eb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:11 +0000
Subject: [PATCH 06/58] fix: print dungeon mode values other than 0 to 3 as
 they are

---
 .../decompiler/write_handlers/label_jumps/switch_start.py  | 2 +-
 .../decompiler/write_handlers/simple_ops/flag.py           | 2 +-
 explorerscript/ssb_converting/ssb_data_types.py            | 7 +++++--
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/switch_start.py b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/switch_start.py
index 6f8b5e0..cee4bb5 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/switch_start.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/switch_start.py
@@ -190,7 +190,7 @@ class SwitchWriteHandler(AbstractWriteHandler):
         # TODO: More error checking for parameters would probably be a good idea
         if op.op_code.name == "Case":
             if is_switch_dungeon_mode:
-                return f"{self.decompiler.dungeon_mode_constants.get_explorerscript_constant_for(op.params[0])}"  # type: ignore
+                return f"{self.decompiler.dungeon_mode_constants.get_explorerscript_constant_for(op.params[0])}"
             return f"{op.params[0]}"
         if op.op_code.name == "CaseMenu":
             if hasattr(op.params[0], "indent"):
diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/simple_ops/flag.py b/explorerscript/ssb_converting/decompiler/write_handlers/simple_ops/flag.py
index badc60f..72aa708 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/simple_ops/flag.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/simple_ops/flag.py
@@ -79,7 +79,7 @@ class FlagSimpleOpWriteHandler(AbstractWriteHandler):
         elif op.op_code.name == OPS_FLAG__SET_ADVENTURE_LOG:
             self.decompiler.write_stmnt(f"adventure_log = {op.params[0]};")
         elif op.op_code.name == OPS_FLAG__SET_DUNGEON_MODE:
-            flag_value = self.decompiler.dungeon_mode_constants.get_explorerscript_constant_for(op.params[1])  # type: ignore
+            flag_value = self.decompiler.dungeon_mode_constants.get_explorerscript_constant_for(op.params[1])
             self.decompiler.write_stmnt(f"dungeon_mode({op.params[0]}) = {flag_value};")
         elif op.op_code.name == OPS_FLAG__SET_PERFORMANCE:
             self.decompiler.write_stmnt(
diff --git a/explorerscript/ssb_converting/ssb_data_types.py b/explorerscript/ssb_converting/ssb_data_types.py
index d6e0a4c..21035e0 100644
--- a/explorerscript/ssb_converting/ssb_data_types.py
+++ b/explorerscript/ssb_converting/ssb_data_types.py
@@ -419,14 +419,17 @@ class DungeonModeConstants:
         self.close_constant = close_constant
         self.open_and_request_constant = open_and_request_constant
 
-    def get_explorerscript_constant_for(self, idx: int) -> str:
+    def get_explorerscript_constant_for(self, idx: SsbOpParam) -> str:
+        if idx == 0:
+            return self.close_constant
         if idx == 1:
             return self.open_constant
         if idx == 2:
             return self.request_constant
         if idx == 3:
             return self.open_and_request_constant
-        return self.close_constant
+        # Not one of the known modes (or already a constant)
+        return str(idx)
 
 
 NUMBER_OF_SPACES_PER_INDENT = 4
-- 
2.43.0


From ac5c92b9bdeb53ca052bb770ff25e470bf6518a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:50 +0000
Subject: [PATCH 07/58] fix: reject jump operations that are written without a
 label to jump to

---
 .../ssb_converting/compiler/label_jump_to_remover.py        | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/explorerscript/ssb_converting/compiler/label_jump_to_remover.py b/explorerscript/ssb_converting/compiler/label_jump_to_remover.py
index 84eebff..f48f69b 100644
--- a/explorerscript/ssb_converting/compiler/label_jump_to_remover.py
+++ b/explorerscript/ssb_converting/compiler/label_jump_to_remover.py
@@ -31,7 +31,7 @@ import logging
 
 from explorerscript.error import SsbCompilerError
 from explorerscript.ssb_converting.ssb_data_types import SsbOperation
-from explorerscript.ssb_converting.ssb_special_ops import SsbLabelJump, SsbLabel
+from explorerscript.ssb_converting.ssb_special_ops import SsbLabelJump, SsbLabel, OPS_WITH_JUMP_TO_MEM_OFFSET
 from explorerscript.util import f, _
 
 logger = logging.getLogger(__name__)
@@ -63,5 +63,9 @@ class OpsLabelJumpToRemover:
                 elif isinstance(op, SsbLabel):
                     # Remove
                     pass
+                elif op.op_code.name in OPS_WITH_JUMP_TO_MEM_OFFSET:
+                    raise SsbCompilerError(
+                        f(_("The operation '{op.op_code.name}' must have a label to jump to as its target."))
+                    )
                 else:
                     new_rtn_ops.append(op)
-- 
2.43.0


From fd2b2fbb393808cbd38dde93ce94eee2be98a846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:01 +0000
Subject: [PATCH 08/58] fix: give each macro of a file its own source map

---
 .../ssb_converting/compiler/compiler_visitor/macro_visitor.py  | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/explorerscript/ssb_converting/compiler/compiler_visitor/macro_visitor.py b/explorerscript/ssb_converting/compiler/compiler_visitor/macro_visitor.py
index 73ffc9d..9218754 100644
--- a/explorerscript/ssb_converting/compiler/compiler_visitor/macro_visitor.py
+++ b/explorerscript/ssb_converting/compiler/compiler_visitor/macro_visitor.py
@@ -76,6 +76,9 @@ class MacroVisitor(ExplorerScriptVisitor):
     def visitMacrodef_children(self, macrodef_handler: MacroDefCompileHandler) -> ExplorerScriptMacro:
         """Visit the children of the macro def, after the macro resolution order has been processed"""
         self._root_handler = macrodef_handler
+        # Each macro has its own source map: building a macro reads its source map while it writes to the one of the caller.
+        self.source_map_builder = SourceMapBuilder()
+        self.compiler_ctx.source_map_builder = self.source_map_builder
         self.visitChildren(macrodef_handler.ctx)
 
         blueprints = self._root_handler.collect()
-- 
2.43.0


From 2d082846b70769ec3cc3d7368b161f3a041697c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:26 +0000
Subject: [PATCH 09/58] fix: order macros topologically by their dependencies

---
 .../macro_resolution_order.py                 | 24 +++----------------
 1 file changed, 3 insertions(+), 21 deletions(-)

diff --git a/explorerscript/ssb_converting/compiler/compiler_visitor/macro_resolution_order.py b/explorerscript/ssb_converting/compiler/compiler_visitor/macro_resolution_order.py
index f15ce56..7e56cba 100644
--- a/explorerscript/ssb_converting/compiler/compiler_visitor/macro_resolution_order.py
+++ b/explorerscript/ssb_converting/compiler/compiler_visitor/macro_resolution_order.py
@@ -22,7 +22,7 @@
 #
 from __future__ import annotations
 
-from igraph import Graph, Vertex
+from igraph import Graph
 
 from explorerscript.antlr.ExplorerScriptParser import ExplorerScriptParser
 from explorerscript.antlr.ExplorerScriptVisitor import ExplorerScriptVisitor
@@ -51,16 +51,7 @@ class MacroResolutionOrderVisitor(ExplorerScriptVisitor):
     def visitStart(self, ctx: ExplorerScriptParser.StartContext) -> list[str]:
         self.visitChildren(ctx)
         self._check_cycles()
-        roots = [v for v in self._dependency_graph.vs if len(v.in_edges()) == 0]
-        resolution_order: list[str] = []
-        for v in roots:
-            resolution_order_local = []
-            for sv in self._dependency_graph.bfsiter(v.index):
-                if sv["name"] in resolution_order:
-                    resolution_order.remove(sv["name"])
-                resolution_order_local.append(sv["name"])
-            resolution_order += resolution_order_local
-        return resolution_order
+        return [self._dependency_graph.vs[i]["name"] for i in self._dependency_graph.topological_sorting()]
 
     def visitMacrodef(self, ctx: ExplorerScriptParser.MacrodefContext) -> None:
         self._active_macro_name = str(ctx.IDENTIFIER())
@@ -90,16 +81,7 @@ class MacroResolutionOrderVisitor(ExplorerScriptVisitor):
 
     def _check_cycles(self) -> None:
         for v in self._dependency_graph.vs:
-            if any(self._has_path(out_e.target, v) for out_e in v.out_edges()):
+            if any(v.index in self._dependency_graph.subcomponent(e.target, mode="out") for e in v.out_edges()):
                 raise SsbCompilerError(
                     f(_("Dependency cycle detected while trying to resolve macros (for macro '{v['name']}')."))
                 )
-            # Check direct cycles
-            if any(v.index == e.target for e in v.out_edges()):
-                raise SsbCompilerError(
-                    f(_("Dependency cycle detected while trying to resolve macros (for macro '{v['name']}')."))
-                )
-
-    def _has_path(self, a: Vertex | int, b: Vertex) -> bool:
-        # TODO: can be done more efficiently
-        return len(b.graph.get_all_simple_paths(a, b)) > 0
-- 
2.43.0


From e0b96e6158aaa080b0a26ff46b48ea3dbdd6c954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:41 +0000
Subject: [PATCH 10/58] fix: keep constants of a sub-macro apart from the
 variables of the macro that calls it

---
 explorerscript/macro.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/explorerscript/macro.py b/explorerscript/macro.py
index 4aef2b6..37119d8 100644
--- a/explorerscript/macro.py
+++ b/explorerscript/macro.py
@@ -51,6 +51,13 @@ class MacroEndSsbLabel(SsbLabel):
     pass
 
 
+class SubMacroSsbOpParamConstant(SsbOpParamConstant):
+    """
+    A constant written in the body of a macro that is none of it's variables. Macros that call this macro must not
+    confuse it with their own variables of the same name.
+    """
+
+
 class ExplorerScriptMacro:
     # The name of the macro
     name: str
@@ -213,16 +220,16 @@ class ExplorerScriptMacro:
         """
         Returns a copy of original_params,
         where SsbOpConstants that match keys of macro_params are
-        replaced with the respective value from that dict.
+        replaced with the respective value from that dict, unless they were written in the body of a sub-macro.
         """
         new_params = []
         for p in original_params:
-            if isinstance(p, SsbOpParamConstant):
+            if isinstance(p, SsbOpParamConstant) and not isinstance(p, SubMacroSsbOpParamConstant):
                 p_as_str = str(p)
                 if p_as_str in macro_params:
                     new_params.append(macro_params[p_as_str])
                 else:
-                    new_params.append(p)
+                    new_params.append(SubMacroSsbOpParamConstant(p_as_str))
             else:
                 new_params.append(p)
         return new_params
-- 
2.43.0


From f2a590a83fa6ba686c1a6c4050a2954d9c78f61e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:50 +0000
Subject: [PATCH 11/58] fix: reject routine ids that are out of range, out of
 order or used twice

---
 .../compiler/compiler_visitor/routine_visitor.py            | 6 ++++++
 explorerscript/ssb_converting/ssb_compiler.py               | 3 ++-
 .../ssb_script/ssb_converting/compiler/compiler_listener.py | 6 +++++-
 3 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/explorerscript/ssb_converting/compiler/compiler_visitor/routine_visitor.py b/explorerscript/ssb_converting/compiler/compiler_visitor/routine_visitor.py
index ad6e777..8d2e2bf 100644
--- a/explorerscript/ssb_converting/compiler/compiler_visitor/routine_visitor.py
+++ b/explorerscript/ssb_converting/compiler/compiler_visitor/routine_visitor.py
@@ -26,6 +26,7 @@ from typing import cast
 
 from explorerscript.antlr.ExplorerScriptParser import ExplorerScriptParser
 from explorerscript.antlr.ExplorerScriptVisitor import ExplorerScriptVisitor
+from explorerscript.error import SsbCompilerError
 from explorerscript.macro import ExplorerScriptMacro
 from explorerscript.source_map import SourceMapBuilder
 from explorerscript.ssb_converting.compiler.compile_handlers.abstract import AnyCompileHandler
@@ -36,6 +37,7 @@ from explorerscript.ssb_converting.compiler.compile_handlers.functions.simple_de
 from explorerscript.ssb_converting.compiler.compiler_visitor.statement_visitor import StatementVisitor
 from explorerscript.ssb_converting.compiler.utils import CompilerCtx, Counter
 from explorerscript.ssb_converting.ssb_data_types import SsbRoutineInfo, SsbOperation
+from explorerscript.util import f, _
 
 
 class RoutineVisitor(ExplorerScriptVisitor):
@@ -122,6 +124,10 @@ class RoutineVisitor(ExplorerScriptVisitor):
         self._root_handler.add(IntegerLikeCompileHandler(ctx, self.compiler_ctx))
 
     def _enlarge_routine_info(self) -> None:
+        routine_id = self._active_routine_id
+        already_defined = 0 <= routine_id < len(self.routine_infos) and self.routine_infos[routine_id] is not None
+        if already_defined or not 0 <= routine_id <= 0xFFFF:
+            raise SsbCompilerError(f(_("The routine id {routine_id} is invalid or used more than once.")))
         if len(self.routine_infos) - 1 < self._active_routine_id:
             needed = self._active_routine_id - len(self.routine_infos) + 1
             for i in range(0, needed):
diff --git a/explorerscript/ssb_converting/ssb_compiler.py b/explorerscript/ssb_converting/ssb_compiler.py
index 1d91f53..50538d4 100644
--- a/explorerscript/ssb_converting/ssb_compiler.py
+++ b/explorerscript/ssb_converting/ssb_compiler.py
@@ -236,7 +236,8 @@ class ExplorerScriptSsbCompiler:
         except AssertionError as e:
             raise ValueError(str(e)) from e
 
-        assert routine_op_offsets_are_ordered(compiler_visitor.routine_ops)
+        if not routine_op_offsets_are_ordered(compiler_visitor.routine_ops):
+            raise SsbCompilerError(_("The routines must be ordered by their ids."))
 
         # Copy from listener / remove labels and label jumps
         label_finalizer = LabelFinalizer(strip_last_label(compiler_visitor.routine_ops))
diff --git a/explorerscript/ssb_script/ssb_converting/compiler/compiler_listener.py b/explorerscript/ssb_script/ssb_converting/compiler/compiler_listener.py
index 068fe73..7ff28a6 100644
--- a/explorerscript/ssb_script/ssb_converting/compiler/compiler_listener.py
+++ b/explorerscript/ssb_script/ssb_converting/compiler/compiler_listener.py
@@ -43,7 +43,7 @@ from explorerscript.ssb_converting.ssb_data_types import (
     SsbOpParamFixedPoint,
 )
 from explorerscript.ssb_converting.ssb_special_ops import SsbLabel, SsbLabelJump
-from explorerscript.util import exps_int, _
+from explorerscript.util import exps_int, f, _
 
 
 class ListenerArgType(Enum):
@@ -313,6 +313,10 @@ class SsbScriptCompilerListener(SsbScriptListener):
         self._labels_before_op.append(label)
 
     def _enlarge_routine_info(self) -> None:
+        routine_id = self._active_routine_id
+        already_defined = 0 <= routine_id < len(self.routine_infos) and self.routine_infos[routine_id] is not None
+        if already_defined or not 0 <= routine_id <= 0xFFFF:
+            raise SsbCompilerError(f(_("The routine id {routine_id} is invalid or used more than once.")))
         if len(self.routine_infos) - 1 < self._active_routine_id:
             needed = self._active_routine_id - len(self.routine_infos) + 1
             for i in range(0, needed):
-- 
2.43.0


From 22e0c2989c000a40f544354997150531053973dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:11 +0000
Subject: [PATCH 12/58] fix: compile SsbScript only after checking for syntax
 errors

---
 .../ssb_script/ssb_converting/ssb_compiler.py         | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/explorerscript/ssb_script/ssb_converting/ssb_compiler.py b/explorerscript/ssb_script/ssb_converting/ssb_compiler.py
index 95ad4d7..cc6bb89 100644
--- a/explorerscript/ssb_script/ssb_converting/ssb_compiler.py
+++ b/explorerscript/ssb_script/ssb_converting/ssb_compiler.py
@@ -23,7 +23,7 @@
 from __future__ import annotations
 import logging
 
-from antlr4 import InputStream, CommonTokenStream
+from antlr4 import InputStream, CommonTokenStream, ParseTreeWalker
 
 from explorerscript.antlr.SsbScriptLexer import SsbScriptLexer
 from explorerscript.antlr.SsbScriptParser import SsbScriptParser
@@ -80,6 +80,7 @@ class SsbScriptSsbCompiler:
         self.routine_infos = None
         self.routine_ops = None
         self.named_coroutines = None
+        self.source_map = None
 
         input_stream = InputStream(ssb_script_src)
         lexer = SsbScriptLexer(input_stream)
@@ -87,11 +88,9 @@ class SsbScriptSsbCompiler:
         parser = SsbScriptParser(stream)
         error_listener = SyntaxErrorListener()
         parser.addErrorListener(error_listener)
-        compiler_listener = SsbScriptCompilerListener()
-        parser.addParseListener(compiler_listener)
 
         # Start Parsing
-        parser.start()
+        tree = parser.start()
 
         # Look for errors
         if len(error_listener.syntax_errors) > 0:
@@ -99,6 +98,10 @@ class SsbScriptSsbCompiler:
             # the first screws everything over.
             raise ParseError(error_listener.syntax_errors[0])
 
+        # Only trees without errors are complete, collect from it after checking for errors.
+        compiler_listener = SsbScriptCompilerListener()
+        ParseTreeWalker.DEFAULT.walk(compiler_listener, tree)
+
         # Copy from listener / remove labels and label jumps
         self.routine_ops = OpsLabelJumpToRemover(
             compiler_listener.routine_ops, compiler_listener.label_offsets
-- 
2.43.0


From f91d1fbc3851195858b4cb69cc04ad3be63f8795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:07 +0000
Subject: [PATCH 13/58] fix: read the decimal places of position marks as such
 (.05 is not .5)

---
 explorerscript/common_syntax.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/explorerscript/common_syntax.py b/explorerscript/common_syntax.py
index aebd3ee..84f4dc3 100644
--- a/explorerscript/common_syntax.py
+++ b/explorerscript/common_syntax.py
@@ -38,19 +38,15 @@ def parse_position_marker_arg(
     elif ctx.DECIMAL():
         decimal_parts = str(ctx.DECIMAL()).split(".")
 
-        if len(decimal_parts) == 1:  # .XXXXX
-            dec_part_raw_stripped = decimal_parts[0].rstrip("0")  # strip 0s off the decimal places
-            dec_part = int(dec_part_raw_stripped if dec_part_raw_stripped != "" else "0")
-        elif len(decimal_parts) == 2:  # XXXXX.YYYYY
-            pos = int(decimal_parts[0] if decimal_parts[0] != "" else "0")
-            dec_part_raw_stripped = decimal_parts[1].rstrip("0")  # strip 0s off the decimal places
-            dec_part = int(dec_part_raw_stripped if dec_part_raw_stripped != "" else "0")
-        else:
+        if len(decimal_parts) != 2:  # XXXXX.YYYYY
             raise SsbCompilerError("Logic error in decimal code for 'position marker arg'.")
+        if decimal_parts[0] not in ("", "-"):  # .YYYYY
+            pos = int(decimal_parts[0])
+        dec_part = decimal_parts[1].rstrip("0")  # strip 0s off the decimal places
 
-        if dec_part == 5:
+        if dec_part == "5":
             offset = 2
-        elif dec_part == 0:
+        elif dec_part == "":
             offset = 0
         else:
             raise SsbCompilerError(
-- 
2.43.0


From e56100d0345dafe7143fb2e0e2170b3db539da11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:11 +0000
Subject: [PATCH 14/58] fix: print strings as literals that are read back as
 the same string

---
 .../ssb_converting/compiler/utils.py          |  4 +-
 .../ssb_converting/ssb_data_types.py          | 74 ++++++++++++++-----
 2 files changed, 60 insertions(+), 18 deletions(-)

diff --git a/explorerscript/ssb_converting/compiler/utils.py b/explorerscript/ssb_converting/compiler/utils.py
index 7f06a20..86d06e0 100644
--- a/explorerscript/ssb_converting/compiler/utils.py
+++ b/explorerscript/ssb_converting/compiler/utils.py
@@ -24,6 +24,7 @@ from __future__ import annotations
 
 import itertools
 import logging
+import re
 from collections import deque
 from typing import TYPE_CHECKING, MutableSequence, Iterable, Any
 
@@ -204,7 +205,8 @@ def singleline_string_literal(string: str) -> str:
 
 def multiline_string_literal(string: str) -> str:
     string = str(string)[3:-3]
-    all_lines = string.splitlines()
+    # (only these are line breaks, other characters str.splitlines splits at are part of the string)
+    all_lines = re.split("\r?\n", string)
     lines: list[str] = []
     last_line = ""
 
diff --git a/explorerscript/ssb_converting/ssb_data_types.py b/explorerscript/ssb_converting/ssb_data_types.py
index 21035e0..2ba7b8d 100644
--- a/explorerscript/ssb_converting/ssb_data_types.py
+++ b/explorerscript/ssb_converting/ssb_data_types.py
@@ -24,7 +24,9 @@
 #
 from __future__ import annotations
 
+import re
 import string
+from decimal import Decimal
 from enum import Enum
 from typing import Union, MutableSequence
 
@@ -49,22 +51,58 @@ def repr_string(string: str, indent: int = 0, prefer_single_qoute: bool = False)
         preferred_multiline_quote = '"""'
         secondary_multiline_quote = "'''"
 
-    if "\n" not in string:
-        # Single line string
-        return f"{preferred_quote}{escape_quotes(string, which_quotes=preferred_quote)}{preferred_quote}"
-    if preferred_multiline_quote in string:
-        if secondary_multiline_quote in string:
-            # uh oh... We can't properly handle this at the moment. We fall back to single line string representation.
-            return f"{preferred_quote}{escape_newlines(escape_quotes(string, which_quotes=preferred_quote))}{preferred_quote}"
-        return _repr_multiline_string(string, indent, secondary_multiline_quote)
-    return _repr_multiline_string(string, indent, preferred_multiline_quote)
-
-
-def _repr_multiline_string(string: str, indent: int, delimiter: str) -> str:
-    lines = string.split("\n")
+    secondary_quote = '"' if prefer_single_qoute else "'"
+
+    single_line = [
+        _repr_singleline_string(string, quote, escape_both)
+        for escape_both in (False, True)
+        for quote in (preferred_quote, secondary_quote)
+    ]
+    multi_line = [
+        _repr_multiline_string(string, indent, delimiter, open_inline, close_inline)
+        for open_inline, close_inline in ((False, False), (True, False), (False, True), (True, True))
+        for delimiter in (preferred_multiline_quote, secondary_multiline_quote)
+    ]
+    # Not all strings can be represented by all kinds of literals, take the first one that does.
+    for literal in single_line + multi_line if "\n" not in string else multi_line + single_line:
+        if _string_literal_value(literal) == string:
+            return literal
+    # uh oh... We can't properly handle this at the moment. We fall back to single line string representation.
+    return single_line[0]
+
+
+def repr_singleline_string(string: str) -> str:
+    literals = [_repr_singleline_string(string, quote, both) for both in (False, True) for quote in ("'", '"')]
+    return next((literal for literal in literals if _string_literal_value(literal) == string), literals[0])
+
+
+def _string_literal_value(literal: str) -> str | None:
+    """Returns the string that is read for the literal or None, if it is not a (single) literal."""
+    from explorerscript.ssb_converting.compiler.utils import multiline_string_literal, singleline_string_literal
+
+    delimiter = literal[:3]
+    if delimiter in ('"""', "'''") and len(literal) >= 6:
+        if literal.find(delimiter, 3) != len(literal) - 3:
+            return None
+        return multiline_string_literal(literal)
+    quote = literal[0]
+    if not re.fullmatch(rf"{quote}(\\.|[^\\\r\n\f{quote}])*{quote}", literal, re.DOTALL):
+        return None
+    return singleline_string_literal(literal)
+
+
+def _repr_singleline_string(string: str, quote: str, escape_both_quotes: bool = False) -> str:
+    return f"{quote}{escape_newlines(escape_quotes(string, which_quotes=None if escape_both_quotes else quote))}{quote}"
+
+
+def _repr_multiline_string(
+    string: str, indent: int, delimiter: str, open_inline: bool = False, close_inline: bool = False
+) -> str:
+    """With open_inline the first line of the string is in the line of the opening delimiter, same for close_inline."""
     indentprefix = " " * (NUMBER_OF_SPACES_PER_INDENT * indent)
-    output = "\n".join((indentprefix + (" " * NUMBER_OF_SPACES_PER_INDENT) + o for o in lines))
-    return f"{delimiter}\n{output}\n{indentprefix}{delimiter}"
+    lineprefix = "\n" + indentprefix + " " * NUMBER_OF_SPACES_PER_INDENT
+    output = ("" if open_inline else lineprefix) + string.replace("\n", lineprefix)
+    return delimiter + output + ("" if close_inline else "\n" + indentprefix) + delimiter
 
 
 class SsbRoutineType(Enum):
@@ -171,8 +209,10 @@ class SsbOpParamFixedPoint:
 
     @classmethod
     def from_float(cls, value: float) -> SsbOpParamFixedPoint:
+        # (the string representation of floats may contain an exponent)
+        number = f"{Decimal(str(value)):f}"
         slf = cls(0, "0")
-        slf.value = str(value)
+        slf.value = number if "." in number else f"{number}.0"
         return slf
 
     @classmethod
@@ -306,7 +346,7 @@ class SsbOpParamPositionMarker:
         return f"{self.y_relative}{y_offset_marker}"
 
     def __str__(self) -> str:
-        return f"Position<'{self.name}', {self.x_final}, {self.y_final}>"
+        return f"Position<{repr_singleline_string(self.name)}, {self.x_final}, {self.y_final}>"
 
     def __repr__(self) -> str:
         return f"SsbOpParamPositionMarker('{self.name}', {self.x_offset}, {self.y_offset}, {self.x_relative}, {self.y_relative})"
-- 
2.43.0


From 67f4ab31b88adc139cf00606aa751a4195892b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:37 +0000
Subject: [PATCH 15/58] fix: compare the entries of source maps by their
 contents

---
 explorerscript/source_map.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/explorerscript/source_map.py b/explorerscript/source_map.py
index 3710f3f..c1fe678 100644
--- a/explorerscript/source_map.py
+++ b/explorerscript/source_map.py
@@ -149,6 +149,11 @@ class SourceMapping:
         self.line = line_number
         self.column = column
 
+    def __eq__(self, other: object) -> bool:
+        if not isinstance(other, SourceMapping):
+            return False
+        return self.serialize() == other.serialize()
+
     def serialize(self) -> list[Any]:
         return [self.line, self.column]
 
@@ -206,8 +211,9 @@ class MacroSourceMapping(SourceMapping):
 
     @classmethod
     def deserialize(cls, data_list: list[Any]) -> MacroSourceMapping:
+        called_in = tuple(data_list[4]) if data_list[4] is not None else None
         return MacroSourceMapping(
-            data_list[0], data_list[1], data_list[2], data_list[3], data_list[4], data_list[5], data_list[6]
+            data_list[0], data_list[1], data_list[2], data_list[3], called_in, data_list[5], data_list[6]  # type: ignore
         )
 
 
@@ -298,7 +304,12 @@ class SourceMap:
     def __eq__(self, other: object) -> bool:
         if not isinstance(other, SourceMap):
             return False
-        return self._mappings == other._mappings and self._position_marks == other._position_marks
+        return (
+            self._mappings == other._mappings
+            and self._position_marks == other._position_marks
+            and self._mappings_macros == other._mappings_macros
+            and self._position_marks_macro == other._position_marks_macro
+        )
 
     def __str__(self) -> str:
         return self.serialize()
-- 
2.43.0


From 3b0fe4418c167a7f58525dc1d9bec534e0a98ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:38 +0000
Subject: [PATCH 16/58] fix: rewrite return address 0 in source maps like any
 other

---
 explorerscript/source_map.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/explorerscript/source_map.py b/explorerscript/source_map.py
index c1fe678..bd50133 100644
--- a/explorerscript/source_map.py
+++ b/explorerscript/source_map.py
@@ -357,7 +357,7 @@ class SourceMap:
         max_old_offset = max(new_mapping.keys())
 
         for m in self._mappings_macros.values():
-            if m.return_addr:
+            if m.return_addr is not None:
                 addr: int | None = m.return_addr
                 while addr not in new_mapping:
                     # if the return addr opcode was optimized away, we take the next index. TODO: Good idea?
-- 
2.43.0


From 37e769964d3e96680abba9848a012b9aa7e52a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:28 +0000
Subject: [PATCH 17/58] fix: name the defining file of macros that an imported
 file imports itself

---
 explorerscript/ssb_converting/ssb_compiler.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/explorerscript/ssb_converting/ssb_compiler.py b/explorerscript/ssb_converting/ssb_compiler.py
index 50538d4..9ce535d 100644
--- a/explorerscript/ssb_converting/ssb_compiler.py
+++ b/explorerscript/ssb_converting/ssb_compiler.py
@@ -294,7 +294,9 @@ class ExplorerScriptSsbCompiler:
     ) -> dict[str, ExplorerScriptMacro]:
         """Updates path information of all of the macros. See the field descriptions for more details"""
         for macro in macros.values():
-            macro.included__absolute_path = subfile_path
-            if basefile_path is not None:
+            if basefile_path is None:
+                macro.included__absolute_path = subfile_path
+            elif macro.included__absolute_path == subfile_path:
+                # (macros that the subfile itself imported already have the path of the file they are defined in)
                 macro.included__relative_path = os.path.relpath(subfile_path, os.path.dirname(basefile_path))
         return macros
-- 
2.43.0


From f5b9e1849827953c34be324327c65e2130a58e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:16 +0000
Subject: [PATCH 18/58] fix: let the source map entries of message switch cases
 point at the cases

---
 .../compile_handlers/blocks/switches/message_switch.py     | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/explorerscript/ssb_converting/compiler/compile_handlers/blocks/switches/message_switch.py b/explorerscript/ssb_converting/compiler/compile_handlers/blocks/switches/message_switch.py
index 5889b68..1c950a7 100644
--- a/explorerscript/ssb_converting/compiler/compile_handlers/blocks/switches/message_switch.py
+++ b/explorerscript/ssb_converting/compiler/compile_handlers/blocks/switches/message_switch.py
@@ -85,13 +85,16 @@ class MessageSwitchCompileHandler(
             value_blueprint = header_handler.collect()
             # We obviously don't want the bluprint
             value = value_blueprint.params[0]
-            case_ops.append(self._generate_operation(OP_CASE_TEXT, [value, string]))
+            # (generated by the handler of the case, so that the source map points at the case)
+            case_ops.append(header_handler._generate_operation(OP_CASE_TEXT, [value, string]))
         if self._default_handler:
             if not self._default_handler.is_message_case:
                 raise SsbCompilerError(
                     f(_("A message_ switch can only contain cases with strings (line {self.ctx.start.line})."))
                 )
-            case_ops.append(self._generate_operation(OP_DEFAULT_TEXT, [self._default_handler.get_text()]))
+            case_ops.append(
+                self._default_handler._generate_operation(OP_DEFAULT_TEXT, [self._default_handler.get_text()])
+            )
 
         return [switch_op] + case_ops
 
-- 
2.43.0


From 3c6d7af12811ebde106394912ca55d58c3a576e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:03 +0000
Subject: [PATCH 19/58] fix: keep the position of a macro call if the first op
 of the macro is removed

---
 explorerscript/ssb_converting/ssb_compiler.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/explorerscript/ssb_converting/ssb_compiler.py b/explorerscript/ssb_converting/ssb_compiler.py
index 9ce535d..4ae7869 100644
--- a/explorerscript/ssb_converting/ssb_compiler.py
+++ b/explorerscript/ssb_converting/ssb_compiler.py
@@ -246,10 +246,28 @@ class ExplorerScriptSsbCompiler:
         self.routine_infos = compiler_visitor.routine_infos
         self.named_coroutines = compiler_visitor.named_coroutines
         self.source_map = compiler_visitor.source_map_builder.build()
+        self._keep_call_positions_of_removed_ops()
 
         # Done!
         return self
 
+    def _keep_call_positions_of_removed_ops(self) -> None:
+        """
+        If the first op of an expanded macro was removed (eg. because it was a redundant jump),
+        the position of the macro call is stored for the next op of the macro instead.
+        """
+        assert self.routine_ops is not None and self.source_map is not None
+        emitted = {op.offset for ops in self.routine_ops for op in ops}
+        mappings = dict(self.source_map.collect_mappings__macros())
+        for offset, mapping in mappings.items():
+            if offset in emitted or mapping.called_in is None or mapping.return_addr is None:
+                continue
+            for following in range(offset + 1, mapping.return_addr):
+                if following in emitted:
+                    if following in mappings and mappings[following].called_in is None:
+                        mappings[following].called_in = mapping.called_in
+                    break
+
     def _resolve_imported_file(self, dir_name: str) -> list[str]:
         """
         Returns the full paths to all imports specified in self.imports.
-- 
2.43.0


From 39ae4b83aa6c3ccf4afad0fef97582acd18a77d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:57 +0000
Subject: [PATCH 20/58] fix: let the source map entries of elseif headers point
 at the headers

---
 .../write_handlers/label_jumps/if_start.py        |  2 +-
 explorerscript/ssb_converting/ssb_decompiler.py   | 15 ++++++++++-----
 2 files changed, 11 insertions(+), 6 deletions(-)

diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/if_start.py b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/if_start.py
index 8f9c63c..4814048 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/if_start.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/if_start.py
@@ -238,7 +238,7 @@ class IfWriteHandler(AbstractWriteHandler):
 
         exits = v.out_edges()
 
-        self.decompiler.source_map_add_opcode(op.offset)
+        self.decompiler.source_map_add_opcode(op.offset, include_newline_in_header)
         opt_space = " " if not include_newline_in_header else ""
         not_str = "" if not m.is_not else " not"
         self.decompiler.write_stmnt(
diff --git a/explorerscript/ssb_converting/ssb_decompiler.py b/explorerscript/ssb_converting/ssb_decompiler.py
index a893b2e..6b66f82 100644
--- a/explorerscript/ssb_converting/ssb_decompiler.py
+++ b/explorerscript/ssb_converting/ssb_decompiler.py
@@ -218,12 +218,17 @@ class ExplorerScriptSsbDecompiler:
             # Jump as part of a control structure
             self.write_stmnt(f"jump @label_{label_id};")
 
-    def source_map_add_opcode(self, op_offset: int) -> None:
-        """Has to be called BEFORE writing the opcode."""
+    def source_map_add_opcode(self, op_offset: int, line: bool = True) -> None:
+        """
+        Has to be called BEFORE writing the opcode. If line is False, the statement
+        is not written on a new line, but after a space on the current line.
+        """
         assert self.smb is not None
-        # TODO: Assumes that all statements start in a new line after indent.
-        #       Might need this more flexible.
-        self.smb.add_opcode(op_offset, self._line_number, self.indent * NUMBER_OF_SPACES_PER_INDENT)
+        if line:
+            self.smb.add_opcode(op_offset, self._line_number, self.indent * NUMBER_OF_SPACES_PER_INDENT)
+        else:
+            current_column = len(self._output) - (self._output.rfind("\n") + 1)
+            self.smb.add_opcode(op_offset, self._line_number - 1, current_column + 1)
 
     def source_map_add_position_mark(self, length: int, param: SsbOpParamPositionMarker) -> None:
         assert self.smb is not None
-- 
2.43.0


From 467c2995038466c97bd57a228aa6298aad4ae0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:57 +0000
Subject: [PATCH 21/58] fix: only print break_loop inside of loops

---
 .../decompiler/write_handlers/label_jumps/forever_break.py    | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_break.py b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_break.py
index 0119837..fbd3750 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_break.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_break.py
@@ -46,8 +46,6 @@ class ForeverBreakWriteHandler(AbstractWriteHandler):
     def write_content(self) -> Vertex | None:
         """Print a break and end"""
         logger.debug("Handling a break_loop; (%s)...", self.start_vertex["op"])
-        self.decompiler.source_map_add_opcode(self.start_vertex["op"].offset)
-        self.decompiler.write_stmnt("break_loop;")
         exits = self.start_vertex.out_edges()
         if len(exits) == 1:
             if len(self.decompiler.forever_start_handler_stack) < 1:
@@ -56,6 +54,8 @@ class ForeverBreakWriteHandler(AbstractWriteHandler):
                 # the loop
                 logger.warning("While decompiling, tried to generate break_loop; outside loop!")
                 raise FallbackToJump()
+            self.decompiler.source_map_add_opcode(self.start_vertex["op"].offset)
+            self.decompiler.write_stmnt("break_loop;")
             # Make sure the forever start block is aware of the next vertex!
             self.decompiler.forever_start_handler_stack[-1].set_vertex_after(exits[0].target_vertex)
             return None
-- 
2.43.0


From e1d94ff31b6ce8fc9f3eda383ad20af3a5cb3773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:58 +0000
Subject: [PATCH 22/58] fix: only add jumps to the source map of a
 decompilation if they are printed

---
 .../decompiler/write_handlers/label_jumps/jump.py   |  3 +--
 explorerscript/ssb_converting/ssb_decompiler.py     | 13 +++++++++++++
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/jump.py b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/jump.py
index f457129..902f3a2 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/jump.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/jump.py
@@ -48,8 +48,7 @@ class JumpWriteHandler(AbstractWriteHandler):
         """Delegates to the handlers in .label_jump"""
         logger.debug("Handling a jump; (%s)...", self.start_vertex["op"])
         op: SsbLabelJump = self.start_vertex["op"]
-        # TODO: Writing this source map entry may be confusing, if no jump is written next (by the label handler)...
-        self.decompiler.source_map_add_opcode(op.offset)
+        self.decompiler.source_map_add_jump_if_written(op.offset)
         # Nothing to do, this is dealt with, when processing the label after this
         # either we print a jump there, or we just proceed.
         exits = self.start_vertex.out_edges()
diff --git a/explorerscript/ssb_converting/ssb_decompiler.py b/explorerscript/ssb_converting/ssb_decompiler.py
index 6b66f82..7be915a 100644
--- a/explorerscript/ssb_converting/ssb_decompiler.py
+++ b/explorerscript/ssb_converting/ssb_decompiler.py
@@ -66,6 +66,8 @@ class ExplorerScriptSsbDecompiler:
     indent: int
     _line_number: int
     labels_already_printed: list[int] = []
+    # Offset of the jump op that was processed last, if nothing was written since.
+    _jump_to_be_written: int | None
     smb: SourceMapBuilder | None
     performance_progress_list_var_name: str
     dungeon_mode_constants: DungeonModeConstants
@@ -95,6 +97,7 @@ class ExplorerScriptSsbDecompiler:
         self.indent = 0
         self._line_number = 1
         self.labels_already_printed = []
+        self._jump_to_be_written = None
         self.smb = None
         self.performance_progress_list_var_name = performance_progress_list_var_name
         self.dungeon_mode_constants = dungeon_mode_constants
@@ -106,6 +109,7 @@ class ExplorerScriptSsbDecompiler:
         self.indent = 0
         self.labels_already_printed = []
         self._line_number = 1
+        self._jump_to_be_written = None
         self.smb = SourceMapBuilder()
 
         raw_routine_backup_ops = deepcopy(self._routine_ops)
@@ -181,6 +185,11 @@ class ExplorerScriptSsbDecompiler:
 
     def write_stmnt(self, stmnt: str, line: bool = True) -> None:
         """Write a simple single line statement"""
+        if self._jump_to_be_written is not None:
+            # The last op was a jump. It only has a source map entry, if it is written as a statement.
+            if stmnt.startswith("jump @") or stmnt == "break;":
+                self.source_map_add_opcode(self._jump_to_be_written)
+            self._jump_to_be_written = None
         if line:
             self.write_line()
         self._line_number += stmnt.count("\n")
@@ -230,6 +239,10 @@ class ExplorerScriptSsbDecompiler:
             current_column = len(self._output) - (self._output.rfind("\n") + 1)
             self.smb.add_opcode(op_offset, self._line_number - 1, current_column + 1)
 
+    def source_map_add_jump_if_written(self, op_offset: int) -> None:
+        """Adds the jump op to the source map, if the next statement that is written is the jump itself."""
+        self._jump_to_be_written = op_offset
+
     def source_map_add_position_mark(self, length: int, param: SsbOpParamPositionMarker) -> None:
         assert self.smb is not None
         col_number = self.indent * NUMBER_OF_SPACES_PER_INDENT
-- 
2.43.0


From c95531e910e7100e0ac908ec1e8739bb684a5f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:15 +0000
Subject: [PATCH 23/58] fix: don't replace the source map entries of branches
 by those of break_loops and continues added to loops

---
 .../decompiler/write_handlers/label_jumps/forever_break.py   | 5 ++++-
 .../write_handlers/label_jumps/forever_continue.py           | 5 ++++-
 .../decompiler/write_handlers/label_jumps/jump.py            | 5 +++--
 3 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_break.py b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_break.py
index fbd3750..1751ea0 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_break.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_break.py
@@ -28,6 +28,7 @@ from typing import TYPE_CHECKING
 from igraph import Vertex
 
 from explorerscript.ssb_converting.decompiler.write_handlers.abstract import AbstractWriteHandler, FallbackToJump
+from explorerscript.ssb_converting.ssb_special_ops import OP_JUMP
 
 if TYPE_CHECKING:
     from explorerscript.ssb_converting.ssb_decompiler import ExplorerScriptSsbDecompiler
@@ -54,7 +55,9 @@ class ForeverBreakWriteHandler(AbstractWriteHandler):
                 # the loop
                 logger.warning("While decompiling, tried to generate break_loop; outside loop!")
                 raise FallbackToJump()
-            self.decompiler.source_map_add_opcode(self.start_vertex["op"].offset)
+            # (Vertices that were added for the loop are not for an op of the script)
+            if self.start_vertex["op"].root.op_code.name == OP_JUMP:
+                self.decompiler.source_map_add_opcode(self.start_vertex["op"].offset)
             self.decompiler.write_stmnt("break_loop;")
             # Make sure the forever start block is aware of the next vertex!
             self.decompiler.forever_start_handler_stack[-1].set_vertex_after(exits[0].target_vertex)
diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_continue.py b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_continue.py
index 69cd80d..1b6d29b 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_continue.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/forever_continue.py
@@ -28,6 +28,7 @@ from typing import TYPE_CHECKING
 from igraph import Vertex
 
 from explorerscript.ssb_converting.decompiler.write_handlers.abstract import AbstractWriteHandler, FallbackToJump
+from explorerscript.ssb_converting.ssb_special_ops import OP_JUMP
 
 if TYPE_CHECKING:
     from explorerscript.ssb_converting.ssb_decompiler import ExplorerScriptSsbDecompiler
@@ -53,7 +54,9 @@ class ForeverContinueWriteHandler(AbstractWriteHandler):
             logger.warning("While decompiling, tried to generate continue; outside loop!")
             raise FallbackToJump()
         if not self._continue_is_implicit():
-            self.decompiler.source_map_add_opcode(self.start_vertex["op"].offset)
+            # (Vertices that were added for the loop are not for an op of the script)
+            if self.start_vertex["op"].root.op_code.name == OP_JUMP:
+                self.decompiler.source_map_add_opcode(self.start_vertex["op"].offset)
             self.decompiler.write_stmnt("continue;  // may be redundant")
         return None
 
diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/jump.py b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/jump.py
index 902f3a2..f56c266 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/jump.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/jump.py
@@ -28,7 +28,7 @@ from typing import TYPE_CHECKING
 from igraph import Vertex
 
 from explorerscript.ssb_converting.decompiler.write_handlers.abstract import AbstractWriteHandler
-from explorerscript.ssb_converting.ssb_special_ops import SsbLabelJump
+from explorerscript.ssb_converting.ssb_special_ops import OP_JUMP, SsbLabelJump
 
 if TYPE_CHECKING:
     from explorerscript.ssb_converting.ssb_decompiler import ExplorerScriptSsbDecompiler
@@ -48,7 +48,8 @@ class JumpWriteHandler(AbstractWriteHandler):
         """Delegates to the handlers in .label_jump"""
         logger.debug("Handling a jump; (%s)...", self.start_vertex["op"])
         op: SsbLabelJump = self.start_vertex["op"]
-        self.decompiler.source_map_add_jump_if_written(op.offset)
+        if op.root.op_code.name == OP_JUMP:
+            self.decompiler.source_map_add_jump_if_written(op.offset)
         # Nothing to do, this is dealt with, when processing the label after this
         # either we print a jump there, or we just proceed.
         exits = self.start_vertex.out_edges()
-- 
2.43.0


From 4399191c8303a4860ab881872d60f7190e8be60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:07 +0000
Subject: [PATCH 24/58] fix: compile scripts that consist of attribute lines
 only without IndexError

---
 explorerscript/ssb_converting/compiler/meta_attributes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/explorerscript/ssb_converting/compiler/meta_attributes.py b/explorerscript/ssb_converting/compiler/meta_attributes.py
index 8260e1e..dc47a69 100644
--- a/explorerscript/ssb_converting/compiler/meta_attributes.py
+++ b/explorerscript/ssb_converting/compiler/meta_attributes.py
@@ -38,7 +38,7 @@ def parse_exps_meta_attributes(explorerscript_src: str) -> dict[str, Any]:
     if len(lines) < 1:
         return {}
     regex_attr_line = re.compile(r"//\?:\s*(.*?):\s*(.*)")
-    while lines[attribute_reader_line].strip().startswith("//?:"):
+    while attribute_reader_line < len(lines) and lines[attribute_reader_line].strip().startswith("//?:"):
         try:
             line = lines[attribute_reader_line]
             match = regex_attr_line.search(line)
-- 
2.43.0


From 76426320eb66bfe0f41a39dec79d9a36cb95fc5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:08 +0000
Subject: [PATCH 25/58] fix: reject imported files that contain routines

---
 explorerscript/ssb_converting/ssb_compiler.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/explorerscript/ssb_converting/ssb_compiler.py b/explorerscript/ssb_converting/ssb_compiler.py
index 4ae7869..f4118d9 100644
--- a/explorerscript/ssb_converting/ssb_compiler.py
+++ b/explorerscript/ssb_converting/ssb_compiler.py
@@ -165,7 +165,6 @@ class ExplorerScriptSsbCompiler:
 
         reader = ExplorerScriptReader(explorerscript_src)
         tree = reader.read()
-        parser = reader.get_parser()
 
         # Collect imports
         logger.debug("<%d> Collecting imports...", id(self))
@@ -215,7 +214,7 @@ class ExplorerScriptSsbCompiler:
         # Check if macros_only
         if macros_only:
             # Check if the file contains any routines
-            if HasRoutinesVisitor().visit(parser.start()):
+            if HasRoutinesVisitor().visit(tree):
                 # noinspection PyUnusedLocal
                 fn = os.path.basename(file_name)  # noqa
                 raise SsbCompilerError(f(_("{fn}: Macro scripts must not contain any routines.")))
-- 
2.43.0


From 5e28098c26516b0fe6e6e6c0efb2a44baa7fccea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:09 +0000
Subject: [PATCH 26/58] fix: raise SsbCompilerError for imports that can not be
 read

---
 explorerscript/ssb_converting/ssb_compiler.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/explorerscript/ssb_converting/ssb_compiler.py b/explorerscript/ssb_converting/ssb_compiler.py
index f4118d9..a27f7d6 100644
--- a/explorerscript/ssb_converting/ssb_compiler.py
+++ b/explorerscript/ssb_converting/ssb_compiler.py
@@ -188,10 +188,14 @@ class ExplorerScriptSsbCompiler:
                 self.lookup_paths,
                 recursion_check=self.recursion_check + [file_name],
             )
-            with open_utf8(subfile_path, "r") as file:
-                subfile_compiler.compile(
-                    file.read(), subfile_path, macros_only=True, original_base_file=original_base_file
-                )
+            try:
+                with open_utf8(subfile_path, "r") as file:
+                    subfile_src = file.read()
+            except OSError as e:
+                raise SsbCompilerError(f(_("The file to import ('{subfile_path}') could not be read."))) from e
+            subfile_compiler.compile(
+                subfile_src, subfile_path, macros_only=True, original_base_file=original_base_file
+            )
             self.macros.update(self._macros_add_filenames(subfile_compiler.macros, original_base_file, subfile_path))
 
         # Sort the list of macros by how they are used
-- 
2.43.0


From 2a20855bf75883a7966b2efae14dd04b9ce65009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:10 +0000
Subject: [PATCH 27/58] fix: raise SsbCompilerError for routines with a decimal
 target

---
 .../compiler/compile_handlers/functions/for_target_def.py     | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/explorerscript/ssb_converting/compiler/compile_handlers/functions/for_target_def.py b/explorerscript/ssb_converting/compiler/compile_handlers/functions/for_target_def.py
index f8cf6c0..c93e95a 100644
--- a/explorerscript/ssb_converting/compiler/compile_handlers/functions/for_target_def.py
+++ b/explorerscript/ssb_converting/compiler/compile_handlers/functions/for_target_def.py
@@ -34,7 +34,7 @@ from explorerscript.ssb_converting.compiler.compile_handlers.abstract import (
 )
 from explorerscript.ssb_converting.compiler.compile_handlers.atoms.integer_like import IntegerLikeCompileHandler
 from explorerscript.ssb_converting.compiler.utils import CompilerCtx
-from explorerscript.ssb_converting.ssb_data_types import SsbRoutineInfo, SsbRoutineType, SsbOpParam
+from explorerscript.ssb_converting.ssb_data_types import SsbRoutineInfo, SsbRoutineType, SsbOpParam, SsbOpParamFixedPoint
 from explorerscript.util import exps_int
 
 
@@ -50,6 +50,8 @@ class ForTargetDefCompileHandler(AbstractFuncdefCompileHandler[ExplorerScriptPar
         linked_to = -1
         linked_to_name = None
         integer_like = self._linked_to_target
+        if isinstance(integer_like, SsbOpParamFixedPoint):
+            raise SsbCompilerError("The target of a routine must be an integer or a constant.")
         try:
             linked_to = exps_int(integer_like)  # type: ignore
         except ValueError:
-- 
2.43.0


From e6c57f1598518431f58a1a27cc98c02efdbf533b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:26 +0000
Subject: [PATCH 28/58] fix: reject jumps to undefined labels in macros that
 are not called

---
 .../compiler/compiler_visitor/macro_visitor.py            | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/explorerscript/ssb_converting/compiler/compiler_visitor/macro_visitor.py b/explorerscript/ssb_converting/compiler/compiler_visitor/macro_visitor.py
index 9218754..fd73932 100644
--- a/explorerscript/ssb_converting/compiler/compiler_visitor/macro_visitor.py
+++ b/explorerscript/ssb_converting/compiler/compiler_visitor/macro_visitor.py
@@ -33,7 +33,8 @@ from explorerscript.ssb_converting.compiler.compile_handlers.abstract import Any
 from explorerscript.ssb_converting.compiler.compile_handlers.functions.macro_def import MacroDefCompileHandler
 from explorerscript.ssb_converting.compiler.compiler_visitor.statement_visitor import StatementVisitor
 from explorerscript.ssb_converting.compiler.utils import CompilerCtx, Counter
-from explorerscript.util import _
+from explorerscript.ssb_converting.ssb_special_ops import SsbLabel, SsbLabelJump
+from explorerscript.util import _, f
 
 
 class MacroVisitor(ExplorerScriptVisitor):
@@ -83,6 +84,11 @@ class MacroVisitor(ExplorerScriptVisitor):
 
         blueprints = self._root_handler.collect()
         name = self._root_handler.get_name()
+        labels = {op.id for op in blueprints if isinstance(op, SsbLabel)}
+        for op in blueprints:
+            if isinstance(op, SsbLabelJump) and op.label is not None and op.label.id not in labels:
+                label_name = op.label.original_name
+                raise SsbCompilerError(f(_("Label {label_name} does not exist in macro {name}, but a jump to it does.")))
         variables = self._root_handler.get_variables()
 
         return ExplorerScriptMacro(name, variables, blueprints, self.source_map_builder.build())
-- 
2.43.0


From 0a1ebe0ab255bf83ce5d5a892c8e440f772c2f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:27 +0000
Subject: [PATCH 29/58] fix: raise ValueError for scripts that are nested too
 deeply

---
 explorerscript/ssb_converting/ssb_compiler.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/explorerscript/ssb_converting/ssb_compiler.py b/explorerscript/ssb_converting/ssb_compiler.py
index a27f7d6..abe3714 100644
--- a/explorerscript/ssb_converting/ssb_compiler.py
+++ b/explorerscript/ssb_converting/ssb_compiler.py
@@ -133,6 +133,14 @@ class ExplorerScriptSsbCompiler:
         :raises: SsbCompilerError: On logical compiling errors
         :raises: ValueError: On misc. unexpected compilation errors
         """
+        try:
+            return self._compile(explorerscript_src, file_name, macros_only, original_base_file)
+        except RecursionError as e:
+            raise ValueError(_("The script is nested too deeply.")) from e
+
+    def _compile(
+        self, explorerscript_src: str, file_name: str, macros_only: bool, original_base_file: str | None
+    ) -> ExplorerScriptSsbCompiler:
         logger.debug(
             "<%d> Compiling ExplorerScript (-> %s)... - Macros only:%d, base:%s",
             id(self),
-- 
2.43.0


From 53e9f94f14108717beec8d03b7690c72ebd2584c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:32 +0000
Subject: [PATCH 30/58] fix: print positions of ops as jump parameters in the
 compile command

---
 explorerscript/cli/compile.py | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/explorerscript/cli/compile.py b/explorerscript/cli/compile.py
index 3a7ec8c..32639b7 100644
--- a/explorerscript/cli/compile.py
+++ b/explorerscript/cli/compile.py
@@ -45,6 +45,7 @@ from explorerscript.ssb_converting.ssb_data_types import (
     SsbOpParamPositionMarker,
     SsbOpParamFixedPoint,
 )
+from explorerscript.ssb_converting.ssb_special_ops import OPS_WITH_JUMP_TO_MEM_OFFSET
 from explorerscript.util import open_utf8
 
 
@@ -65,12 +66,21 @@ class RoutineDict(TypedDict):
     ops: list[OpDict]
 
 
-def build_ops(ops: list[SsbOperation]) -> list[OpDict]:
+def build_op_positions(routine_ops: list[list[SsbOperation]]) -> dict[int, int]:
+    """Maps the internal offsets of the operations to their (1-based) position across all routines."""
+    return {op.offset: i for i, op in enumerate((op for ops in routine_ops for op in ops), start=1)}
+
+
+def build_ops(ops: list[SsbOperation], op_positions: dict[int, int]) -> list[OpDict]:
     out_ops: list[OpDict] = []
     for op in ops:
         out_op: OpDict = {"opcode": op.op_code.name, "params": []}
-        for param in op.params:
-            if isinstance(param, int):
+        # The last parameter of operations that jump is the internal offset of the target.
+        jump_param_idx = len(op.params) - 1 if op.op_code.name in OPS_WITH_JUMP_TO_MEM_OFFSET else None
+        for i, param in enumerate(op.params):
+            if i == jump_param_idx:
+                out_op["params"].append(op_positions[param])  # type: ignore
+            elif isinstance(param, int):
                 out_op["params"].append(param)
             elif isinstance(param, SsbOpParamFixedPoint):
                 out_op["params"].append({"type": "FIXED_POINT", "value": param.value})
@@ -94,29 +104,30 @@ def build_routines_json(
     routine_infos: list[SsbRoutineInfo], named_coroutines: list[str], routine_ops: list[list[SsbOperation]]
 ) -> list[RoutineDict]:
     routines: list[RoutineDict] = []
+    op_positions = build_op_positions(routine_ops)
     for info, name, ops in zip(routine_infos, named_coroutines, routine_ops):
         routine: RoutineDict
         if info.type == SsbRoutineType.COROUTINE:
-            routine = {"type": "COROUTINE", "name": name, "ops": build_ops(ops)}
+            routine = {"type": "COROUTINE", "name": name, "ops": build_ops(ops, op_positions)}
         elif info.type == SsbRoutineType.GENERIC:
-            routine = {"type": "GENERIC", "ops": build_ops(ops)}
+            routine = {"type": "GENERIC", "ops": build_ops(ops, op_positions)}
         elif info.type == SsbRoutineType.ACTOR:
             routine = {
                 "type": "ACTOR",
                 "target_id": info.linked_to if info.linked_to is not -1 else info.linked_to_name,
-                "ops": build_ops(ops),
+                "ops": build_ops(ops, op_positions),
             }
         elif info.type == SsbRoutineType.OBJECT:
             routine = {
                 "type": "OBJECT",
                 "target_id": info.linked_to if info.linked_to is not -1 else info.linked_to_name,
-                "ops": build_ops(ops),
+                "ops": build_ops(ops, op_positions),
             }
         elif info.type == SsbRoutineType.PERFORMER:
             routine = {
                 "type": "PERFORMER",
                 "target_id": info.linked_to if info.linked_to is not -1 else info.linked_to_name,
-                "ops": build_ops(ops),
+                "ops": build_ops(ops, op_positions),
             }
         else:
             raise ValueError(f"invalid routine type {info.type}")
-- 
2.43.0


From 4d78cc18de4326cb78b9c9c157934f9a9d6f2ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:33 +0000
Subject: [PATCH 31/58] fix: compile command fails when routine ids are not
 consecutive

---
 explorerscript/cli/compile.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/explorerscript/cli/compile.py b/explorerscript/cli/compile.py
index 32639b7..ff2bdad 100644
--- a/explorerscript/cli/compile.py
+++ b/explorerscript/cli/compile.py
@@ -101,13 +101,16 @@ def build_ops(ops: list[SsbOperation], op_positions: dict[int, int]) -> list[OpD
 
 
 def build_routines_json(
-    routine_infos: list[SsbRoutineInfo], named_coroutines: list[str], routine_ops: list[list[SsbOperation]]
+    routine_infos: list[SsbRoutineInfo | None], named_coroutines: list[str], routine_ops: list[list[SsbOperation]]
 ) -> list[RoutineDict]:
     routines: list[RoutineDict] = []
     op_positions = build_op_positions(routine_ops)
     for info, name, ops in zip(routine_infos, named_coroutines, routine_ops):
         routine: RoutineDict
-        if info.type == SsbRoutineType.COROUTINE:
+        if info is None:
+            # No routine with this ID was defined.
+            routine = {"type": "GENERIC", "ops": []}
+        elif info.type == SsbRoutineType.COROUTINE:
             routine = {"type": "COROUTINE", "name": name, "ops": build_ops(ops, op_positions)}
         elif info.type == SsbRoutineType.GENERIC:
             routine = {"type": "GENERIC", "ops": build_ops(ops, op_positions)}
-- 
2.43.0


From 38be559994e51dd6f2676fae8570f0c2518e784d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:34 +0000
Subject: [PATCH 32/58] fix: keep the actor id -1 as target in the compile
 command

---
 explorerscript/cli/compile.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/explorerscript/cli/compile.py b/explorerscript/cli/compile.py
index ff2bdad..5fc1621 100644
--- a/explorerscript/cli/compile.py
+++ b/explorerscript/cli/compile.py
@@ -117,19 +117,19 @@ def build_routines_json(
         elif info.type == SsbRoutineType.ACTOR:
             routine = {
                 "type": "ACTOR",
-                "target_id": info.linked_to if info.linked_to is not -1 else info.linked_to_name,
+                "target_id": info.linked_to if info.linked_to_name is None else info.linked_to_name,
                 "ops": build_ops(ops, op_positions),
             }
         elif info.type == SsbRoutineType.OBJECT:
             routine = {
                 "type": "OBJECT",
-                "target_id": info.linked_to if info.linked_to is not -1 else info.linked_to_name,
+                "target_id": info.linked_to if info.linked_to_name is None else info.linked_to_name,
                 "ops": build_ops(ops, op_positions),
             }
         elif info.type == SsbRoutineType.PERFORMER:
             routine = {
                 "type": "PERFORMER",
-                "target_id": info.linked_to if info.linked_to is not -1 else info.linked_to_name,
+                "target_id": info.linked_to if info.linked_to_name is None else info.linked_to_name,
                 "ops": build_ops(ops, op_positions),
             }
         else:
-- 
2.43.0


From 31db6b01236612bfed7290c0ffedd8f7e2fefb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:35 +0000
Subject: [PATCH 33/58] fix: decompile command does not accept coroutines

---
 explorerscript/cli/decompile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/explorerscript/cli/decompile.py b/explorerscript/cli/decompile.py
index 02ceb0f..d4f182c 100644
--- a/explorerscript/cli/decompile.py
+++ b/explorerscript/cli/decompile.py
@@ -135,7 +135,7 @@ def read_routines(
     routine_infos = []
     named_coroutines = []
     routine_ops: MutableSequence[MutableSequence[SsbOperation]] = []
-    for r in routines:
+    for r_id, r in enumerate(routines):
         if "ops" not in r:
             raise ValueError("Ops for a routine not set.")
         if "type" not in r:
@@ -143,7 +143,7 @@ def read_routines(
         if r["type"] == "COROUTINE":
             if "name" not in r:
                 raise ValueError("Target for a routine not set.")
-            named_coroutines.append(SsbCoroutine(-1, r["name"]))
+            named_coroutines.append(SsbCoroutine(r_id, r["name"]))
             routine_infos.append(SsbRoutineInfo(SsbRoutineType.COROUTINE, -1))
             routine_ops.append(read_ops(r["ops"]))
         elif r["type"] == "GENERIC":
-- 
2.43.0


From ffff29656e613cdac65f0fbfe6087253c9d2bcfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:36 +0000
Subject: [PATCH 34/58] fix: decompile command does not accept position marks
 with integer coordinates

---
 explorerscript/cli/decompile.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/explorerscript/cli/decompile.py b/explorerscript/cli/decompile.py
index d4f182c..6f3356e 100644
--- a/explorerscript/cli/decompile.py
+++ b/explorerscript/cli/decompile.py
@@ -81,7 +81,8 @@ class RoutineDict(TypedDict):
     target_id: NotRequired[str]
 
 
-def parse_pos_mark_arg(arg_str: str) -> tuple[int, int]:
+def parse_pos_mark_arg(arg: int | float | str) -> tuple[int, int]:
+    arg_str = str(arg)
     arg_str_arr = arg_str.split(".")
     if len(arg_str_arr) < 2:
         return exps_int(arg_str), 0
-- 
2.43.0


From e37690e5e9a7ae2ea9629d299a0d799f274518f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:37 +0000
Subject: [PATCH 35/58] fix: decompile command does not accept constant
 arguments as target ids

---
 explorerscript/cli/decompile.py | 33 ++++++++++++++-------------------
 1 file changed, 14 insertions(+), 19 deletions(-)

diff --git a/explorerscript/cli/decompile.py b/explorerscript/cli/decompile.py
index 6f3356e..df4a077 100644
--- a/explorerscript/cli/decompile.py
+++ b/explorerscript/cli/decompile.py
@@ -78,7 +78,7 @@ class RoutineDict(TypedDict):
     type: str
     ops: list[OpDict]
     name: NotRequired[str]
-    target_id: NotRequired[str]
+    target_id: NotRequired[int | str | ParamDict]
 
 
 def parse_pos_mark_arg(arg: int | float | str) -> tuple[int, int]:
@@ -130,6 +130,16 @@ def read_ops(ops: list[OpDict]) -> list[SsbOperation]:
     return out_ops
 
 
+def read_target_id(target_id: int | str | ParamDict) -> tuple[int, str | None]:
+    if isinstance(target_id, int):
+        return target_id, None
+    if isinstance(target_id, dict):
+        if target_id.get("type") != "CONSTANT" or "value" not in target_id:
+            raise ValueError("Invalid target for a routine.")
+        return -1, str(target_id["value"])
+    return -1, str(target_id)
+
+
 def read_routines(
     routines: list[RoutineDict],
 ) -> tuple[list[SsbRoutineInfo], list[SsbCoroutine], MutableSequence[MutableSequence[SsbOperation]]]:
@@ -154,36 +164,21 @@ def read_routines(
         elif r["type"] == "ACTOR":
             if "target_id" not in r:
                 raise ValueError("Target for a routine not set.")
-            linked_to = -1
-            linked_to_name = None
-            if isinstance(r["target_id"], int):
-                linked_to = r["target_id"]
-            else:
-                linked_to_name = str(r["target_id"])
+            linked_to, linked_to_name = read_target_id(r["target_id"])
             named_coroutines.append(SsbCoroutine(-1, "n/a"))
             routine_infos.append(SsbRoutineInfo(SsbRoutineType.ACTOR, linked_to, linked_to_name))
             routine_ops.append(read_ops(r["ops"]))
         elif r["type"] == "OBJECT":
             if "target_id" not in r:
                 raise ValueError("Target for a routine not set.")
-            linked_to = -1
-            linked_to_name = None
-            if isinstance(r["target_id"], int):
-                linked_to = r["target_id"]
-            else:
-                linked_to_name = str(r["target_id"])
+            linked_to, linked_to_name = read_target_id(r["target_id"])
             named_coroutines.append(SsbCoroutine(-1, "n/a"))
             routine_infos.append(SsbRoutineInfo(SsbRoutineType.OBJECT, linked_to, linked_to_name))
             routine_ops.append(read_ops(r["ops"]))
         elif r["type"] == "PERFORMER":
             if "target_id" not in r:
                 raise ValueError("Target for a routine not set.")
-            linked_to = -1
-            linked_to_name = None
-            if isinstance(r["target_id"], int):
-                linked_to = r["target_id"]
-            else:
-                linked_to_name = str(r["target_id"])
+            linked_to, linked_to_name = read_target_id(r["target_id"])
             named_coroutines.append(SsbCoroutine(-1, "n/a"))
             routine_infos.append(SsbRoutineInfo(SsbRoutineType.PERFORMER, linked_to, linked_to_name))
             routine_ops.append(read_ops(r["ops"]))
-- 
2.43.0


From a311c9d1eb2d4dcedb182a1e54d1c36be3bd1d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:38 +0000
Subject: [PATCH 36/58] fix: number the ops of every SSB document from 1

---
 explorerscript/cli/decompile.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/explorerscript/cli/decompile.py b/explorerscript/cli/decompile.py
index df4a077..3d18ca1 100644
--- a/explorerscript/cli/decompile.py
+++ b/explorerscript/cli/decompile.py
@@ -61,9 +61,6 @@ from explorerscript.ssb_converting.ssb_data_types import (
 from explorerscript.ssb_converting.ssb_decompiler import ExplorerScriptSsbDecompiler
 from explorerscript.util import open_utf8, exps_int
 
-counter = Counter()
-
-
 class OpDict(TypedDict):
     params: list[ParamDict]
     opcode: str
@@ -91,7 +88,7 @@ def parse_pos_mark_arg(arg: int | float | str) -> tuple[int, int]:
     return exps_int(arg_str_arr[0]), 2
 
 
-def read_ops(ops: list[OpDict]) -> list[SsbOperation]:
+def read_ops(ops: list[OpDict], counter: Counter) -> list[SsbOperation]:
     out_ops: list[SsbOperation] = []
 
     for op in ops:
@@ -143,6 +140,7 @@ def read_target_id(target_id: int | str | ParamDict) -> tuple[int, str | None]:
 def read_routines(
     routines: list[RoutineDict],
 ) -> tuple[list[SsbRoutineInfo], list[SsbCoroutine], MutableSequence[MutableSequence[SsbOperation]]]:
+    counter = Counter()
     routine_infos = []
     named_coroutines = []
     routine_ops: MutableSequence[MutableSequence[SsbOperation]] = []
@@ -156,32 +154,32 @@ def read_routines(
                 raise ValueError("Target for a routine not set.")
             named_coroutines.append(SsbCoroutine(r_id, r["name"]))
             routine_infos.append(SsbRoutineInfo(SsbRoutineType.COROUTINE, -1))
-            routine_ops.append(read_ops(r["ops"]))
+            routine_ops.append(read_ops(r["ops"], counter))
         elif r["type"] == "GENERIC":
             named_coroutines.append(SsbCoroutine(-1, "n/a"))
             routine_infos.append(SsbRoutineInfo(SsbRoutineType.GENERIC, -1))
-            routine_ops.append(read_ops(r["ops"]))
+            routine_ops.append(read_ops(r["ops"], counter))
         elif r["type"] == "ACTOR":
             if "target_id" not in r:
                 raise ValueError("Target for a routine not set.")
             linked_to, linked_to_name = read_target_id(r["target_id"])
             named_coroutines.append(SsbCoroutine(-1, "n/a"))
             routine_infos.append(SsbRoutineInfo(SsbRoutineType.ACTOR, linked_to, linked_to_name))
-            routine_ops.append(read_ops(r["ops"]))
+            routine_ops.append(read_ops(r["ops"], counter))
         elif r["type"] == "OBJECT":
             if "target_id" not in r:
                 raise ValueError("Target for a routine not set.")
             linked_to, linked_to_name = read_target_id(r["target_id"])
             named_coroutines.append(SsbCoroutine(-1, "n/a"))
             routine_infos.append(SsbRoutineInfo(SsbRoutineType.OBJECT, linked_to, linked_to_name))
-            routine_ops.append(read_ops(r["ops"]))
+            routine_ops.append(read_ops(r["ops"], counter))
         elif r["type"] == "PERFORMER":
             if "target_id" not in r:
                 raise ValueError("Target for a routine not set.")
             linked_to, linked_to_name = read_target_id(r["target_id"])
             named_coroutines.append(SsbCoroutine(-1, "n/a"))
             routine_infos.append(SsbRoutineInfo(SsbRoutineType.PERFORMER, linked_to, linked_to_name))
-            routine_ops.append(read_ops(r["ops"]))
+            routine_ops.append(read_ops(r["ops"], counter))
         else:
             raise ValueError(f"Invalid type for a routine: {r['type']}.")
 
-- 
2.43.0


From b3ba44a2afec3a594730e538cadee3e1b8b5b416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:43 +0000
Subject: [PATCH 37/58] fix: Keep leading and trailing empty lines in the
 Pygments lexer

---
 explorerscript/pygments/expslexer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/explorerscript/pygments/expslexer.py b/explorerscript/pygments/expslexer.py
index 1cc4061..2643a28 100644
--- a/explorerscript/pygments/expslexer.py
+++ b/explorerscript/pygments/expslexer.py
@@ -90,6 +90,11 @@ class ExplorerScriptLexer(RegexLexer):
 
     flags = re.MULTILINE | re.DOTALL
 
+    def __init__(self, **options):  # type: ignore
+        # Empty lines at the start and end of the text are kept, unless requested otherwise.
+        options.setdefault("stripnl", False)
+        super().__init__(**options)
+
     tokens = {
         "comments": [
             (r"/\*.*?\*/", Comment.Multiline),
-- 
2.43.0


From 6c26bfacef78058d72b830391d99a0262f622257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:18 +0000
Subject: [PATCH 38/58] fix: Decompile a copy of the ops, so that they can be
 decompiled again

---
 explorerscript/ssb_converting/ssb_decompiler.py    | 14 ++++++--------
 .../ssb_script/ssb_converting/ssb_decompiler.py    |  8 ++++----
 2 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/explorerscript/ssb_converting/ssb_decompiler.py b/explorerscript/ssb_converting/ssb_decompiler.py
index 7be915a..3a102d1 100644
--- a/explorerscript/ssb_converting/ssb_decompiler.py
+++ b/explorerscript/ssb_converting/ssb_decompiler.py
@@ -108,25 +108,24 @@ class ExplorerScriptSsbDecompiler:
         self._output = ""
         self.indent = 0
         self.labels_already_printed = []
+        self.forever_start_handler_stack = []
         self._line_number = 1
         self._jump_to_be_written = None
         self.smb = SourceMapBuilder()
 
-        raw_routine_backup_ops = deepcopy(self._routine_ops)
-
-        # Step 1: Build labels
-        resolver = OpsLabelJumpToResolver(self._routine_ops)
-        self._routine_ops = list(resolver)
+        # Step 1: Build labels (the ops that were passed in are not changed)
+        resolver = OpsLabelJumpToResolver(deepcopy(self._routine_ops))
+        routine_ops = list(resolver)
         has_any_calls = any(
             any(isinstance(op, SsbLabelJump) and any(isinstance(x, CallJump) for x in op.markers) for op in rtn)
-            for rtn in self._routine_ops
+            for rtn in routine_ops
         )
 
         # Step 2: Build and optimize execution graph
         logger.debug("Building base graph...")
         try:
             # If we have any calls, we disable the optimization that stops at ending opcodes.
-            grapher = SsbGraphMinimizer(self._routine_ops, not has_any_calls)
+            grapher = SsbGraphMinimizer(routine_ops, not has_any_calls)
             logger.debug("Built base graph...")
             # Remove redundant labels
             grapher.optimize_paths()
@@ -159,7 +158,6 @@ class ExplorerScriptSsbDecompiler:
         except AssertionError:
             # If an assertion failed, then either there is a bug in the decompiler or the script is not valid, ie.
             # has no ending opcode at the end of routines. Try to fallback to SsbScript.
-            self._routine_ops = raw_routine_backup_ops
             logger.warning("Failed to decompile. Falling back to SsbScript...")
             prefix = "//?: is-ssb-script: true\n"
             prefix += "// WARNING:\n"
diff --git a/explorerscript/ssb_script/ssb_converting/ssb_decompiler.py b/explorerscript/ssb_script/ssb_converting/ssb_decompiler.py
index 20fc791..bdd4c84 100644
--- a/explorerscript/ssb_script/ssb_converting/ssb_decompiler.py
+++ b/explorerscript/ssb_script/ssb_converting/ssb_decompiler.py
@@ -24,6 +24,7 @@ from __future__ import annotations
 
 import logging
 import warnings
+from copy import deepcopy
 from typing import MutableSequence, Sequence
 
 from explorerscript.source_map import SourceMapBuilder, SourceMap, SourceMapPositionMark
@@ -80,11 +81,10 @@ class SsbScriptSsbDecompiler:
         self._line_number = prefix.count("\n") + 1
         self._source_map_builder = SourceMapBuilder()
 
-        # Step 1: Build labels
-        resolver = OpsLabelJumpToResolver(self._routine_ops)
-        self._routine_ops = list(resolver)
+        # Step 1: Build labels (the ops that were passed in are not changed)
+        resolver = OpsLabelJumpToResolver(deepcopy(self._routine_ops))
 
-        for r_id, (r_info, r_ops) in enumerate(zip(self._routine_infos, self._routine_ops)):
+        for r_id, (r_info, r_ops) in enumerate(zip(self._routine_infos, list(resolver))):
             logger.debug(
                 "Decompiling (%d, %s)...",
                 r_id,
-- 
2.43.0


From 701ae80b964d4828ae7b14fb61e338692edf4294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:19 +0000
Subject: [PATCH 39/58] fix: Do not use cached results of old graphs for new
 graphs with the same id

---
 .../ssb_converting/decompiler/graph_building/graph_minimizer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
index 6eb08bb..a8ac701 100644
--- a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
+++ b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
@@ -80,6 +80,8 @@ class SsbGraphMinimizer:
         for rtn_id, rtn in enumerate(routine_ops):
             g = Graph(directed=True)
             self._graphs.append(g)
+            # (there may still be entries of a graph that no longer exists, but had the same id)
+            find_first_common_next_vertex_in_edges__clear_cache(g)
             if len(rtn) < 1:
                 # Should not happen
                 continue
-- 
2.43.0


From caa1b73ededd7f334f831d1f70e4308379e82409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:20 +0000
Subject: [PATCH 40/58] fix: Use the same recursion limit for the compiler and
 the decompiler

---
 explorerscript/__init__.py                                  | 6 ++++++
 .../decompiler/graph_building/graph_minimizer.py            | 3 ---
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/explorerscript/__init__.py b/explorerscript/__init__.py
index a0cddf3..f73e04b 100644
--- a/explorerscript/__init__.py
+++ b/explorerscript/__init__.py
@@ -22,4 +22,10 @@
 #
 from __future__ import annotations
 
+import sys
+
 EXPLORERSCRIPT_EXT = ".exps"
+
+# Both the compiler and the decompiler need this. It is set here, so that what can be compiled
+# does not depend on whether the decompiler was imported.
+sys.setrecursionlimit(max(sys.getrecursionlimit(), 10000))
diff --git a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
index a8ac701..0af8deb 100644
--- a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
+++ b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
@@ -23,7 +23,6 @@
 from __future__ import annotations
 
 import logging
-import sys
 from typing import TYPE_CHECKING, Sequence
 
 from igraph import IN, Edge, OUT, Vertex, Graph
@@ -70,8 +69,6 @@ from explorerscript.ssb_converting.ssb_special_ops import (
 
 logger = logging.getLogger(__name__)
 
-sys.setrecursionlimit(10000)
-
 
 class SsbGraphMinimizer:
     def __init__(self, routine_ops: Sequence[Sequence[SsbOperation]], optimize_ending_opcodes: bool = True):
-- 
2.43.0


From deabf9d7077f7df052deea7923a5754162b62e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:59 +0000
Subject: [PATCH 41/58] fix: decompile scripts with calls that have an ending
 opcode after a hold

---
 .../ssb_converting/decompiler/graph_building/graph_minimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
index 0af8deb..eab4a50 100644
--- a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
+++ b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
@@ -882,7 +882,7 @@ class SsbGraphMinimizer:
         # If this would be the end but we are "Hold", then MAYBE there's still a statement after use, which we should
         # include, see notes at constant.
         if real_op.op_code.name == OP_HOLD and len(rtn) > op_i + 1:
-            if rtn[op_i + 1].op_code.name in OPS_THAT_END_CONTROL_FLOW:
+            if rtn[op_i + 1].op_code.name in OPS_THAT_END_CONTROL_FLOW and (flow_level, op_i + 1) not in next_ops:
                 next_ops.append((flow_level, op_i + 1))
 
         return next_ops
-- 
2.43.0


From 221be76f72eda02b85069533f28f67e4182de260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:59 +0000
Subject: [PATCH 42/58] fix: find the routine of a jump that goes back to the
 last opcode of an earlier routine

---
 explorerscript/ssb_converting/ssb_special_ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/explorerscript/ssb_converting/ssb_special_ops.py b/explorerscript/ssb_converting/ssb_special_ops.py
index 54a850c..3e0fedf 100644
--- a/explorerscript/ssb_converting/ssb_special_ops.py
+++ b/explorerscript/ssb_converting/ssb_special_ops.py
@@ -514,7 +514,7 @@ def process_op_for_jump(
             our_routine_id = routine_id
             # We need to calculate the routine ID based on the offset, because it might be that the label is in a
             # LATER routine we haven't passed yet or even in one before.
-            while routine_id > 0 and old_offset < routine_end_offsets[routine_id - 1]:
+            while routine_id > 0 and old_offset <= routine_end_offsets[routine_id - 1]:
                 routine_id -= 1
             while old_offset > routine_end_offsets[routine_id]:
                 routine_id += 1
-- 
2.43.0


From 156c23abd720f990669e830129cd17b9835d7a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:00 +0000
Subject: [PATCH 43/58] fix: do not use the edges found before the graph was
 changed when searching the ends of switches and loops

---
 .../decompiler/graph_building/graph_minimizer.py             | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
index eab4a50..2f98b9e 100644
--- a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
+++ b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
@@ -388,6 +388,8 @@ class SsbGraphMinimizer:
                     # Common end label
                     if len(v.out_edges()) < 2:
                         continue
+                    # (the edges have changed since the last search)
+                    find_first_common_next_vertex_in_edges__clear_cache(g)
                     result = find_first_common_next_vertex_in_edges(g, v.out_edges())
                     if result is not None:
                         end_vertex = result[0].target_vertex
@@ -522,12 +524,13 @@ class SsbGraphMinimizer:
         logger.debug("Detecting loops...")
         # TODO: Loop detection & creation really needs to be re-written.
         for i, g in enumerate(self._graphs):
-            find_first_common_next_vertex_in_edges__clear_cache(g)
             loop_id = -1
             if len(g.vs) < 1:
                 continue
             had_to_restart = True
             while had_to_restart:
+                # (the graph was changed)
+                find_first_common_next_vertex_in_edges__clear_cache(g)
                 had_to_restart = False
                 for v in g.bfsiter(g.vs[0]):
                     loop_edges = [e for e in v.in_edges() if e["loop"]]
-- 
2.43.0


From 1f537223c73cb31b758876a047e73e627fdfa1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:01 +0000
Subject: [PATCH 44/58] fix: decompile routines that start with a jump or a
 loop from their start

---
 .../decompiler/graph_building/graph_minimizer.py         | 9 ++++++++-
 .../decompiler/graph_building/graph_utils.py             | 5 ++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
index 2f98b9e..ac1b0ea 100644
--- a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
+++ b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
@@ -111,7 +111,8 @@ class SsbGraphMinimizer:
                     ins = g.incident(v, IN)
                     if len(ins) == 1:
                         iv = g.es[ins[0]].source_vertex
-                        if isinstance(iv["op"], SsbLabel):
+                        # (the routine always starts with the first vertex)
+                        if isinstance(iv["op"], SsbLabel) and iv.index != 0:
                             # IS JUMP AND BEFORE IS LABEL:
                             vs_to_delete += self._optimize_paths__jump_after_label(g, jump=v, label=iv)
             g.delete_vertices(vs_to_delete)
@@ -698,6 +699,9 @@ class SsbGraphMinimizer:
                     and v["op"].root.op_code.name == OP_JUMP
                     and v["op"].get_marker() is None
                 ):
+                    if v.index == 0:
+                        # The routine starts with this jump, so what comes after it is not the start.
+                        continue
                     in_edges = v.in_edges()
                     out_edges = v.out_edges()
                     if len(in_edges) != 0:
@@ -732,6 +736,9 @@ class SsbGraphMinimizer:
                     in_edges = v.in_edges()
                     out_edges = v.out_edges()
                     if len(in_edges) == 0:
+                        if v.index == 0 and any(e.target != 1 for e in out_edges):
+                            # The routine starts here, but not with the next vertex.
+                            continue
                         vs_to_delete.add(v)
                     elif len(in_edges) == 1:
                         assert len(out_edges) == 1
diff --git a/explorerscript/ssb_converting/decompiler/graph_building/graph_utils.py b/explorerscript/ssb_converting/decompiler/graph_building/graph_utils.py
index 889ff67..1eac775 100644
--- a/explorerscript/ssb_converting/decompiler/graph_building/graph_utils.py
+++ b/explorerscript/ssb_converting/decompiler/graph_building/graph_utils.py
@@ -575,10 +575,13 @@ def is_reachable_when_removing(g: Graph, check_id: int, start_id: int, remove_id
     """Checks if check is still reachable from start if remove is removed"""
     g_copy: Graph = g.copy()
 
+    if start_id == remove_id:
+        return False
+
     if check_id > remove_id:
         check_id -= 1
     if start_id > remove_id:
-        remove_id -= 1
+        start_id -= 1
 
     # Simulate the removal on the copy
     g_copy.delete_vertices(remove_id)
-- 
2.43.0


From cc92511f8c4aebd7470681c831510a40a3f7c20b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:31 +0000
Subject: [PATCH 45/58] fix: fall back to SsbScript if the decompiler fails
 with any error

---
 explorerscript/ssb_converting/ssb_decompiler.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/explorerscript/ssb_converting/ssb_decompiler.py b/explorerscript/ssb_converting/ssb_decompiler.py
index 3a102d1..c9674c9 100644
--- a/explorerscript/ssb_converting/ssb_decompiler.py
+++ b/explorerscript/ssb_converting/ssb_decompiler.py
@@ -155,10 +155,11 @@ class ExplorerScriptSsbDecompiler:
 
             return self._output, self.smb.build()
 
-        except AssertionError:
-            # If an assertion failed, then either there is a bug in the decompiler or the script is not valid, ie.
-            # has no ending opcode at the end of routines. Try to fallback to SsbScript.
-            logger.warning("Failed to decompile. Falling back to SsbScript...")
+        except Exception as ex:
+            # If this failed, then either there is a bug in the decompiler, the script can not be expressed as
+            # ExplorerScript or the script is not valid, ie. has no ending opcode at the end of routines.
+            # Try to fallback to SsbScript.
+            logger.warning("Failed to decompile. Falling back to SsbScript...", exc_info=ex)
             prefix = "//?: is-ssb-script: true\n"
             prefix += "// WARNING:\n"
             prefix += "// Failed to normally decompile this script. This is either because of a bug\n"
-- 
2.43.0


From 411c95157e783e4f01ca29605c70d93ecfe6e6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:31 +0000
Subject: [PATCH 46/58] fix: keep the labels that other routines jump to when
 decompiling

---
 .../decompiler/graph_building/graph_minimizer.py    | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
index ac1b0ea..780276a 100644
--- a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
+++ b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
@@ -112,7 +112,11 @@ class SsbGraphMinimizer:
                     if len(ins) == 1:
                         iv = g.es[ins[0]].source_vertex
                         # (the routine always starts with the first vertex)
-                        if isinstance(iv["op"], SsbLabel) and iv.index != 0:
+                        if (
+                            isinstance(iv["op"], SsbLabel)
+                            and iv.index != 0
+                            and not iv["op"].referenced_from_other_routine
+                        ):
                             # IS JUMP AND BEFORE IS LABEL:
                             vs_to_delete += self._optimize_paths__jump_after_label(g, jump=v, label=iv)
             g.delete_vertices(vs_to_delete)
@@ -736,8 +740,11 @@ class SsbGraphMinimizer:
                     in_edges = v.in_edges()
                     out_edges = v.out_edges()
                     if len(in_edges) == 0:
-                        if v.index == 0 and any(e.target != 1 for e in out_edges):
-                            # The routine starts here, but not with the next vertex.
+                        if v.index == 0 and (
+                            v["op"].referenced_from_other_routine or any(e.target != 1 for e in out_edges)
+                        ):
+                            # The routine starts here, but not with the next vertex,
+                            # or another routine jumps to the start.
                             continue
                         vs_to_delete.add(v)
                     elif len(in_edges) == 1:
-- 
2.43.0


From 4c8a5d5cb4783e0483af53117a3d424e4a74a7c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:08 +0000
Subject: [PATCH 47/58] fix: continue after ifs without else when the if block
 ends with a jump

---
 .../write_handlers/label_jumps/if_start.py    | 25 +++++++++++--------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/if_start.py b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/if_start.py
index 4814048..0787336 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/if_start.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/if_start.py
@@ -76,14 +76,15 @@ class IfWriteHandler(AbstractWriteHandler):
                 )
                 v_after_if_branch = if_branch_handler.write_content()
             else_ends_on_common_vtx = True
-            v_after_else_branch = None
+            # (if there's no else block, it continues with the end of the if)
+            v_after_else_branch = else_edge.target_vertex
             if not (
                 isinstance(else_edge.target_vertex["op"], SsbLabel)
                 and any(isinstance(mx, IfEnd) and m.if_id == mx.if_id for mx in else_edge.target_vertex["op"].markers)
             ):
                 # Handle all else-ifs that might be in between
                 # TODO: does this actually work correctly for the common-end detection...? It think this works?
-                else_edge = self._build_else_if_chain(else_edge)
+                else_edge, v_after_else_branch = self._build_else_if_chain(else_edge)
                 if else_edge is not None:
                     logger.debug("<%d> Handling else-block...", id(self.start_vertex))
                     else_ends_on_common_vtx = False
@@ -175,8 +176,11 @@ class IfWriteHandler(AbstractWriteHandler):
                 return "not variation"
         raise ValueError(f"Unknown if-operation {op.op_code.name}")
 
-    def _build_else_if_chain(self, in_edge: Edge) -> Edge | None:
-        """Starting from the in_edge try to build as many elseif constructs as possible."""
+    def _build_else_if_chain(self, in_edge: Edge) -> tuple[Edge | None, Vertex | None]:
+        """
+        Starting from the in_edge try to build as many elseif constructs as possible.
+        Returns the edge to write an else for. If there's none, returns the vertex to continue with instead.
+        """
         op: SsbOperation = in_edge.target_vertex["op"]
         while isinstance(op, SsbLabelJump) and isinstance(op.get_marker(), IfStart):
             logger.debug("<%d> Handling else-if-block (%s)...", id(self.start_vertex), op)
@@ -189,7 +193,7 @@ class IfWriteHandler(AbstractWriteHandler):
                 logger.debug("<%d> Empty else-if-block (%s).", id(self.start_vertex), op)
                 with Blk(self.decompiler):
                     pass
-                return None
+                return None, else_edge.target_vertex
             else:
                 # If they are the same, we also need to print the else with a jump to it, so we need to make sure,
                 # the label is wirrten!
@@ -217,14 +221,15 @@ class IfWriteHandler(AbstractWriteHandler):
                 elif next_vertex_ends:
                     # VERY IMPORTANT: If we already wrote this somewhere else, we NEED to write an else regardless,
                     # because we WON'T be printing it's opcodes next otherwise!
-                    eop = else_edge.target_vertex["op"]
+                    eop_vertex = else_edge.target_vertex
+                    eop = eop_vertex["op"]
                     if isinstance(eop, SsbLabel) and eop.id in self.decompiler.labels_already_printed:
-                        return else_edge
+                        return else_edge, None
                     else:
-                        return None
+                        return None, eop_vertex
                 else:
-                    return None
-        return in_edge
+                    return None, else_edge.target_vertex
+        return in_edge, None
 
     def _write_if_header(
         self, header_str: str, op: SsbLabelJump, v: Vertex, include_newline_in_header: bool = True
-- 
2.43.0


From 29bc8ba52a1c26d8b9b87e7fcc2f1979af7c66eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:08 +0000
Subject: [PATCH 48/58] fix: write a break for cases that only jump to the end
 of the switch

---
 .../decompiler/write_handlers/label_jumps/switch_start.py      | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/switch_start.py b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/switch_start.py
index cee4bb5..bcff493 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/switch_start.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/switch_start.py
@@ -40,6 +40,7 @@ from explorerscript.ssb_converting.ssb_special_ops import (
     SsbLabelJump,
     SwitchStart,
     OPS_THAT_END_CONTROL_FLOW,
+    OP_JUMP,
     OP_SWITCH_DUNGEON_MODE,
 )
 from explorerscript.ssb_converting.util import Blk
@@ -122,6 +123,8 @@ class SwitchWriteHandler(AbstractWriteHandler):
                                 assert handler.last_handler_in_block is not None
                                 if not handler.last_handler_in_block.ended_on_jump and (
                                     root_op_before is None
+                                    # (nothing was written for a jump to the end of the switch)
+                                    or root_op_before.op_code.name == OP_JUMP
                                     or root_op_before.op_code.name not in OPS_THAT_END_CONTROL_FLOW
                                 ):
                                     self.decompiler.write_stmnt("break;")
-- 
2.43.0


From 3395419508ae5a7c9b5893828995d6654140f301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:08 +0000
Subject: [PATCH 49/58] fix: decompile calls, and labels that only calls or
 other routines lead to

---
 .../graph_building/graph_minimizer.py         | 30 +++++++++++++++----
 .../write_handlers/label_jumps/call.py        | 20 +++++++++----
 .../decompiler/write_handlers/routine.py      | 18 ++++++++++-
 .../ssb_converting/ssb_decompiler.py          | 21 +++++++++++--
 4 files changed, 74 insertions(+), 15 deletions(-)

diff --git a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
index 780276a..ee7004a 100644
--- a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
+++ b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
@@ -116,6 +116,7 @@ class SsbGraphMinimizer:
                             isinstance(iv["op"], SsbLabel)
                             and iv.index != 0
                             and not iv["op"].referenced_from_other_routine
+                            and not self._is_called(iv)
                         ):
                             # IS JUMP AND BEFORE IS LABEL:
                             vs_to_delete += self._optimize_paths__jump_after_label(g, jump=v, label=iv)
@@ -645,6 +646,9 @@ class SsbGraphMinimizer:
         markers.
         """
         continues = [e for e in start.in_edges() if e["loop"]]
+        # Calls can not continue or break loops
+        if any(self._is_call(e.source_vertex) for e in continues):
+            return False, None, None
 
         # Make sure the loop doesn't cross any existing loops
         def path_filter(e: Edge, v: Vertex) -> bool:
@@ -688,7 +692,10 @@ class SsbGraphMinimizer:
         else:
             breaks_set = set(immediate_breaks)
 
-        return True, list(b for b in breaks_set if b not in continues), continues
+        breaks = [b for b in breaks_set if b not in continues]
+        if any(self._is_call(e.source_vertex) for e in breaks):
+            return False, None, None
+        return True, breaks, continues
 
     def remove_label_markers(self) -> None:
         logger.debug("Removing unnecessary labels...")
@@ -740,11 +747,11 @@ class SsbGraphMinimizer:
                     in_edges = v.in_edges()
                     out_edges = v.out_edges()
                     if len(in_edges) == 0:
-                        if v.index == 0 and (
-                            v["op"].referenced_from_other_routine or any(e.target != 1 for e in out_edges)
+                        if v["op"].referenced_from_other_routine or (
+                            v.index == 0 and any(e.target != 1 for e in out_edges)
                         ):
-                            # The routine starts here, but not with the next vertex,
-                            # or another routine jumps to the start.
+                            # Another routine jumps to this,
+                            # or the routine starts here, but not with the next vertex.
                             continue
                         vs_to_delete.add(v)
                     elif len(in_edges) == 1:
@@ -757,6 +764,7 @@ class SsbGraphMinimizer:
                                 and (
                                     v["op"].force_write
                                     or v["op"].referenced_from_other_routine
+                                    or self._is_called(v)
                                     or len(v["op"].markers) > 0
                                 )
                             )
@@ -771,12 +779,24 @@ class SsbGraphMinimizer:
                         vs_to_delete.add(v)
             g.delete_vertices(vs_to_delete)
 
+    @staticmethod
+    def _is_call(v: Vertex) -> bool:
+        return isinstance(v["op"], SsbLabelJump) and isinstance(v["op"].get_marker(), CallJump)
+
+    def _is_called(self, label: Vertex) -> bool:
+        """Whether a call leads to the label."""
+        return any(self._is_call(e.source_vertex) for e in label.in_edges())
+
     def _get_edges(self, g: Graph, rtn: Sequence[SsbOperation], rtn_id: int, label_indices: dict[int, int]) -> None:
         """
         Get the edges for the graph g by a list of SsbOperations. Will branch at SsbLabelJumps.
         """
         already_visited: set[int] = set()
         self._get_edges__add_edge(g, rtn, rtn_id, label_indices, 0, already_visited)
+        # Ops that only other routines lead to
+        for i, op in enumerate(rtn):
+            if isinstance(op, SsbLabel) and op.referenced_from_other_routine and i not in already_visited:
+                self._get_edges__add_edge(g, rtn, rtn_id, label_indices, i, already_visited)
         return
         # TODO: below is for debugging.
 
diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/call.py b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/call.py
index 1d02725..b6ea08d 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/call.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/call.py
@@ -25,10 +25,11 @@ from __future__ import annotations
 import logging
 from typing import TYPE_CHECKING
 
-from igraph import Vertex
+from igraph import Edge, Vertex
 
 from explorerscript.ssb_converting.decompiler.write_handlers.abstract import AbstractWriteHandler
-from explorerscript.ssb_converting.ssb_special_ops import SsbLabelJump
+from explorerscript.ssb_converting.ssb_data_types import SsbOperation
+from explorerscript.ssb_converting.ssb_special_ops import SsbForeignLabel, SsbLabelJump
 
 if TYPE_CHECKING:
     from explorerscript.ssb_converting.ssb_decompiler import ExplorerScriptSsbDecompiler
@@ -48,8 +49,15 @@ class CallWriteHandler(AbstractWriteHandler):
         logger.debug("Handling a call; (%s)...", self.start_vertex["op"])
         op: SsbLabelJump = self.start_vertex["op"]
         self.decompiler.source_map_add_opcode(op.offset)
-        assert op.label is not None
-        self.decompiler.write_stmnt(f"call @label_{op.label.id};")
         exits = self.start_vertex.out_edges()
-        assert 3 > len(exits) > 0, f"A call must have exactly one or two points to jump to, has {len(exits)}."
-        return exits[0].target_vertex
+        assert len(exits) == 2, f"A call must have exactly two points to jump to, has {len(exits)}."
+        call_edge = next(e for e in exits if self._get_label(e) == op.label)
+        next_edge = next(e for e in exits if e != call_edge)
+        assert op.label is not None
+        self.decompiler.write_call(op.label.id)
+        return next_edge.target_vertex
+
+    @staticmethod
+    def _get_label(edge: Edge) -> SsbOperation:
+        op: SsbOperation = edge.target_vertex["op"]
+        return op.label if isinstance(op, SsbForeignLabel) else op
diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/routine.py b/explorerscript/ssb_converting/decompiler/write_handlers/routine.py
index a5d028e..eb2cbd7 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/routine.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/routine.py
@@ -25,11 +25,12 @@ from __future__ import annotations
 import logging
 from typing import TYPE_CHECKING
 
-from igraph import Graph
+from igraph import Graph, Vertex
 
 from explorerscript.ssb_converting.decompiler.write_handlers.abstract import AbstractWriteHandler
 from explorerscript.ssb_converting.decompiler.write_handlers.block import BlockWriteHandler
 from explorerscript.ssb_converting.ssb_data_types import SsbRoutineInfo, SsbRoutineType
+from explorerscript.ssb_converting.ssb_special_ops import SsbLabel
 from explorerscript.ssb_converting.util import Blk
 
 if TYPE_CHECKING:
@@ -57,8 +58,23 @@ class RoutineWriteHandler(AbstractWriteHandler):
                 self.decompiler.write_stmnt("alias previous;")
             else:
                 BlockWriteHandler(self.start_vertex, self.decompiler, self.parent, None).write_content()
+                # Ops that can not be reached from the start, but are called or jumped to from other routines.
+                label_vertex = self._find_label_to_print()
+                while label_vertex is not None:
+                    BlockWriteHandler(label_vertex, self.decompiler, self.parent, None).write_content()
+                    label_vertex = self._find_label_to_print()
         self.decompiler.write_line()
 
+    def _find_label_to_print(self) -> Vertex | None:
+        for v in self.r_graph.vs:
+            if (
+                isinstance(v["op"], SsbLabel)
+                and v["op"].id not in self.decompiler.labels_already_printed
+                and (v["op"].referenced_from_other_routine or v["op"].id in self.decompiler.labels_jumped_to)
+            ):
+                return v
+        return None
+
     def _write_routine_header(self) -> None:
         if self.r_info.type == SsbRoutineType.COROUTINE:
             if self.r_id in self.decompiler.named_coroutines:
diff --git a/explorerscript/ssb_converting/ssb_decompiler.py b/explorerscript/ssb_converting/ssb_decompiler.py
index c9674c9..2b0005a 100644
--- a/explorerscript/ssb_converting/ssb_decompiler.py
+++ b/explorerscript/ssb_converting/ssb_decompiler.py
@@ -66,6 +66,8 @@ class ExplorerScriptSsbDecompiler:
     indent: int
     _line_number: int
     labels_already_printed: list[int] = []
+    # Labels that a jump or call was printed for.
+    labels_jumped_to: set[int]
     # Offset of the jump op that was processed last, if nothing was written since.
     _jump_to_be_written: int | None
     smb: SourceMapBuilder | None
@@ -97,6 +99,7 @@ class ExplorerScriptSsbDecompiler:
         self.indent = 0
         self._line_number = 1
         self.labels_already_printed = []
+        self.labels_jumped_to = set()
         self._jump_to_be_written = None
         self.smb = None
         self.performance_progress_list_var_name = performance_progress_list_var_name
@@ -108,6 +111,7 @@ class ExplorerScriptSsbDecompiler:
         self._output = ""
         self.indent = 0
         self.labels_already_printed = []
+        self.labels_jumped_to = set()
         self.forever_start_handler_stack = []
         self._line_number = 1
         self._jump_to_be_written = None
@@ -153,6 +157,9 @@ class ExplorerScriptSsbDecompiler:
                 )
                 RoutineWriteHandler(self, r_id, r_info, r_graph).write_content()
 
+            for label_id in self.labels_jumped_to:
+                assert label_id in self.labels_already_printed, f"The label {label_id} was not printed."
+
             return self._output, self.smb.build()
 
         except Exception as ex:
@@ -212,10 +219,10 @@ class ExplorerScriptSsbDecompiler:
         # Depending on what the previous operation was, this has to be printed differently
         if not isinstance(previous_op, SsbLabelJump):
             # We need a jump now. We didn't have one but now we will.
-            self.write_stmnt(f"jump @label_{label_id};")
+            self._write_jump(label_id)
         elif previous_op.get_marker() is None:
             # Normal jump, just print that
-            self.write_stmnt(f"jump @label_{label_id};")
+            self._write_jump(label_id)
         elif isinstance(previous_op.get_marker(), ForeverContinue) or isinstance(
             previous_op.get_marker(), ForeverBreak
         ):
@@ -224,7 +231,15 @@ class ExplorerScriptSsbDecompiler:
             pass
         else:
             # Jump as part of a control structure
-            self.write_stmnt(f"jump @label_{label_id};")
+            self._write_jump(label_id)
+
+    def _write_jump(self, label_id: int) -> None:
+        self.labels_jumped_to.add(label_id)
+        self.write_stmnt(f"jump @label_{label_id};")
+
+    def write_call(self, label_id: int) -> None:
+        self.labels_jumped_to.add(label_id)
+        self.write_stmnt(f"call @label_{label_id};")
 
     def source_map_add_opcode(self, op_offset: int, line: bool = True) -> None:
         """
-- 
2.43.0


From 3239d2528b3a42e4c541249c7bf441e91f8f7f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:43 +0000
Subject: [PATCH 50/58] fix: keep the label at the start of a routine if only
 one jump leads to it

---
 .../decompiler/graph_building/graph_minimizer.py               | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
index ee7004a..516380d 100644
--- a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
+++ b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
@@ -757,7 +757,8 @@ class SsbGraphMinimizer:
                     elif len(in_edges) == 1:
                         assert len(out_edges) == 1
                         if (
-                            v["op"].id == 0
+                            v.index == 0
+                            or v["op"].id == 0
                             or in_edges[0]["loop"]
                             or (
                                 isinstance(v["op"], SsbLabel)
-- 
2.43.0


From abc99b41c255cfc04ae2cd8ed91094dc89a7b893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:58 +0000
Subject: [PATCH 51/58] fix: do not build loops that end within themselves when
 decompiling

---
 .../decompiler/graph_building/graph_minimizer.py            | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
index 516380d..6b7a032 100644
--- a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
+++ b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
@@ -555,6 +555,12 @@ class SsbGraphMinimizer:
                                     # reachable from outside the loop!
                                     can_build = False
                                     break
+                        if can_build and len(break_points) > 0:
+                            # The loop also can't end within itself.
+                            can_build = not any(
+                                is_reachable_when_removing(g, loop_edge.source, break_points[0].target, v.index)
+                                for loop_edge in continue_points
+                            )
                         if can_build:
                             assert break_points is not None and continue_points is not None
                             loop_id += 1
-- 
2.43.0


From 7c0741cb02f7fc774c5cdb5ad85da8d62d868e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:21 +0000
Subject: [PATCH 52/58] fix: continue after ifs if only an elseif block leads
 to the end of the if

---
 .../write_handlers/label_jumps/if_start.py     | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/if_start.py b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/if_start.py
index 0787336..d195c55 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/if_start.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/if_start.py
@@ -76,6 +76,7 @@ class IfWriteHandler(AbstractWriteHandler):
                 )
                 v_after_if_branch = if_branch_handler.write_content()
             else_ends_on_common_vtx = True
+            vs_after_elseif_branches: list[Vertex] = []
             # (if there's no else block, it continues with the end of the if)
             v_after_else_branch = else_edge.target_vertex
             if not (
@@ -84,7 +85,7 @@ class IfWriteHandler(AbstractWriteHandler):
             ):
                 # Handle all else-ifs that might be in between
                 # TODO: does this actually work correctly for the common-end detection...? It think this works?
-                else_edge, v_after_else_branch = self._build_else_if_chain(else_edge)
+                else_edge, v_after_else_branch = self._build_else_if_chain(else_edge, vs_after_elseif_branches)
                 if else_edge is not None:
                     logger.debug("<%d> Handling else-block...", id(self.start_vertex))
                     else_ends_on_common_vtx = False
@@ -110,9 +111,11 @@ class IfWriteHandler(AbstractWriteHandler):
                 or v_after_if_branch == v_after_else_branch
             ), f"Invalid if-structure for if {m.if_id}"
 
-            if v_after_if_branch is None:
-                return v_after_else_branch
-            return v_after_if_branch
+            vs_after = [v for v in (v_after_if_branch, v_after_else_branch) if v is not None] + vs_after_elseif_branches
+            if len(vs_after) == 0:
+                return None
+            assert all(v == vs_after[0] for v in vs_after), f"Invalid if-structure for if {m.if_id}"
+            return vs_after[0]
 
     def check_end_block(self, block: BlockWriteHandler, next_handler: AbstractWriteHandler) -> bool:
         """
@@ -176,9 +179,10 @@ class IfWriteHandler(AbstractWriteHandler):
                 return "not variation"
         raise ValueError(f"Unknown if-operation {op.op_code.name}")
 
-    def _build_else_if_chain(self, in_edge: Edge) -> tuple[Edge | None, Vertex | None]:
+    def _build_else_if_chain(self, in_edge: Edge, vs_after: list[Vertex]) -> tuple[Edge | None, Vertex | None]:
         """
         Starting from the in_edge try to build as many elseif constructs as possible.
+        Adds the vertices to continue with after the blocks to vs_after.
         Returns the edge to write an else for. If there's none, returns the vertex to continue with instead.
         """
         op: SsbOperation = in_edge.target_vertex["op"]
@@ -203,13 +207,15 @@ class IfWriteHandler(AbstractWriteHandler):
 
                 with Blk(self.decompiler):
                     # Handle elseif-branch
-                    BlockWriteHandler(
+                    v_after = BlockWriteHandler(
                         if_edge.target_vertex,
                         self.decompiler,
                         self,
                         self.start_vertex,
                         check_end_block=self.check_end_block,
                     ).write_content()
+                    if v_after is not None:
+                        vs_after.append(v_after)
                 next_vertex_ends = isinstance(else_edge.target_vertex["op"], SsbLabel) and any(
                     isinstance(mx, IfEnd) and m.if_id == mx.if_id for mx in else_edge.target_vertex["op"].markers
                 )
-- 
2.43.0


From 4e544b2be360d56ff76863bb440e8f2d9610af00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:42 +0000
Subject: [PATCH 53/58] fix: ops after a context op do not end the control flow
 if jumps lead to them

---
 .../decompiler/graph_building/graph_minimizer.py            | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
index 6b7a032..af7b8a9 100644
--- a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
+++ b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
@@ -890,7 +890,11 @@ class SsbGraphMinimizer:
         """
         next_ops: list[tuple[int, int]] = []
 
-        previous_op = rtn[op_i - 1]
+        # (labels don't change what the previous op is)
+        previous_i = op_i - 1
+        while previous_i > 0 and isinstance(rtn[previous_i], SsbLabel):
+            previous_i -= 1
+        previous_op = rtn[previous_i]
         # If the previous op is one of OPS_CTX, then the immediate control flow will not end,
         # even if we get one of OPS_THAT_END_CONTROL_FLOW.
         flow_can_not_end = previous_op.op_code.name in OPS_CTX or not self.optimize_ending_opcodes
-- 
2.43.0


From 2f44925becffedacd9e845e46c347f876c185f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:43 +0000
Subject: [PATCH 54/58] fix: do not decompile message switches with cases after
 the default case

---
 .../write_handlers/simple_ops/message_switches.py           | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/simple_ops/message_switches.py b/explorerscript/ssb_converting/decompiler/write_handlers/simple_ops/message_switches.py
index 3746493..60f076c 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/simple_ops/message_switches.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/simple_ops/message_switches.py
@@ -33,6 +33,7 @@ from explorerscript.ssb_converting.decompiler.write_handlers.abstract import (
 from explorerscript.ssb_converting.decompiler.write_handlers.block import BlockWriteHandler
 from explorerscript.ssb_converting.ssb_data_types import SsbOperation
 from explorerscript.ssb_converting.ssb_special_ops import (
+    OP_DEFAULT_TEXT,
     OP_MESSAGE_SWITCH_TALK,
     OP_MESSAGE_SWITCH_MONOLOGUE,
     OPS_SWITCH_TEXT_CASE_MAP,
@@ -48,6 +49,7 @@ class MesageSwitchSimpleOpWriteHandler(AbstractWriteHandler):
 
     op_name: str | None
     have_written_at_least_one_child: bool
+    have_written_default: bool
 
     def __init__(
         self, start_vertex: Vertex, decompiler: ExplorerScriptSsbDecompiler, parent: AbstractWriteHandler | None
@@ -55,6 +57,7 @@ class MesageSwitchSimpleOpWriteHandler(AbstractWriteHandler):
         super().__init__(start_vertex, decompiler, parent)
         self.op_name = None
         self.have_written_at_least_one_child = False
+        self.have_written_default = False
 
     def write_content(self) -> Vertex | None:
         op: SsbOperation = self.start_vertex["op"]
@@ -98,5 +101,8 @@ class MesageSwitchSimpleOpWriteHandler(AbstractWriteHandler):
             if not self.have_written_at_least_one_child:
                 raise ValueError("A message_Switch* must have at least one case or default.")
             return False
+        # The default case is always the last op of a message switch
+        assert not self.have_written_default, "There must be no cases after the default case of a message switch."
+        self.have_written_default = next_op.op_code.name == OP_DEFAULT_TEXT
         self.have_written_at_least_one_child = True
         return True
-- 
2.43.0


From 9864463529db2b080eadfcbfe5b764943e98bd02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:44 +0000
Subject: [PATCH 55/58] fix: do not replace cases outside of switches with
 continues and breaks of loops

---
 .../decompiler/graph_building/graph_minimizer.py     | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
index af7b8a9..bf14388 100644
--- a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
+++ b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
@@ -575,7 +575,7 @@ class SsbGraphMinimizer:
                             for loop_edge in break_points:
                                 break_point = loop_edge.source_vertex
                                 break_target = loop_edge.target_vertex
-                                if not isinstance(break_point["op"], SsbLabelJump) or break_point["op"].get_marker():
+                                if not self._is_simple_jump(break_point) or break_point["op"].get_marker():
                                     # Already has a marker, add a new opcode in between
                                     loop_edge_flow_level = loop_edge["flow_level"]
                                     actual_break_point = g.add_vertex(
@@ -605,10 +605,7 @@ class SsbGraphMinimizer:
                                     self._update_vertex_style(break_point)
                             for loop_edge in continue_points:
                                 continue_point = loop_edge.source_vertex
-                                if (
-                                    not isinstance(continue_point["op"], SsbLabelJump)
-                                    or continue_point["op"].get_marker()
-                                ):
+                                if not self._is_simple_jump(continue_point) or continue_point["op"].get_marker():
                                     # Already has a marker or is not a jump, add a new opcode in between
                                     loop_edge_flow_level = loop_edge["flow_level"]
                                     actual_continue_point = g.add_vertex(
@@ -786,6 +783,11 @@ class SsbGraphMinimizer:
                         vs_to_delete.add(v)
             g.delete_vertices(vs_to_delete)
 
+    @staticmethod
+    def _is_simple_jump(v: Vertex) -> bool:
+        op = v["op"]
+        return isinstance(op, SsbLabelJump) and (op.maybe_root is None or op.root.op_code.name == OP_JUMP)
+
     @staticmethod
     def _is_call(v: Vertex) -> bool:
         return isinstance(v["op"], SsbLabelJump) and isinstance(v["op"].get_marker(), CallJump)
-- 
2.43.0


From 0e0bf3a759d3a482d78be069fc0348cd1bf93302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:07 +0000
Subject: [PATCH 56/58] fix: write breaks instead of jumps between the empty
 cases of a switch

---
 .../write_handlers/label_jumps/switch_start.py    | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/switch_start.py b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/switch_start.py
index bcff493..471b605 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/switch_start.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/label_jumps/switch_start.py
@@ -38,6 +38,7 @@ from explorerscript.ssb_converting.ssb_data_types import SsbOperation
 from explorerscript.ssb_converting.ssb_data_types import SsbOperator
 from explorerscript.ssb_converting.ssb_special_ops import (
     SsbLabelJump,
+    SwitchEnd,
     SwitchStart,
     OPS_THAT_END_CONTROL_FLOW,
     OP_JUMP,
@@ -98,10 +99,20 @@ class SwitchWriteHandler(AbstractWriteHandler):
                         self.decompiler.write_stmnt("default:")
                     with Blk(self.decompiler, False):
                         logger.debug("... NOW block for cases.")
+                        only_breaks = any(
+                            isinstance(end, SwitchEnd) and end.switch_id == m.switch_id
+                            for end in getattr(e.target_vertex["op"], "markers", [])
+                        )
                         # If this will be visited multiple times, we need a label
-                        if e in edges_that_will_be_visited_multiple_times and e not in already_printed_edges:
+                        if (
+                            e in edges_that_will_be_visited_multiple_times
+                            and e not in already_printed_edges
+                            and not only_breaks
+                        ):
                             self.decompiler.write_stmnt(f"@switch{m.switch_id}_{e.index};")
-                        if e in already_printed_edges:
+                        if e in already_printed_edges and only_breaks:
+                            self.decompiler.write_stmnt("break;")
+                        elif e in already_printed_edges:
                             # Write the label jump instead
                             self.decompiler.write_stmnt(f"jump @switch{m.switch_id}_{e.index};")
                         else:
-- 
2.43.0


From eb74d9d413d6dea75b5c8fd7155a12287f9be451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:08 +0000
Subject: [PATCH 57/58] fix: group the default of a switch with the cases it
 shares its block with

---
 .../decompiler/graph_building/graph_minimizer.py    | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
index bf14388..6f8b28d 100644
--- a/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
+++ b/explorerscript/ssb_converting/decompiler/graph_building/graph_minimizer.py
@@ -377,6 +377,19 @@ class SsbGraphMinimizer:
                             g.delete_edges(case_edge.index)
                         vs_to_delete.add(next_vertex)
                         next_vertex = else_edge_target_vertex
+                    # If the else edge leads to one of the cases via a jump, the default belongs to that case
+                    if (
+                        next_vertex is not None
+                        and self._is_simple_jump(next_vertex)
+                        and all(e.source == v.index for e in next_vertex.in_edges())
+                    ):
+                        jump_edge = next_vertex.out_edges()[0]
+                        if not jump_edge["loop"] and any(
+                            e["switch_ops"] is not None and e.target == jump_edge.target for e in v.out_edges()
+                        ):
+                            vs_to_delete.add(next_vertex)
+                            next_vertex = jump_edge.target_vertex
+                            g.delete_edges(jump_edge)
                     # Else edge:
                     if next_vertex is not None:
                         v_else_edge = next(e for e in v.out_edges() if e["switch_ops"] is None)
-- 
2.43.0


From f25429996b697f7afb447fbcfd4a44ec46d23185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:09 +0000
Subject: [PATCH 58/58] fix: decompile message switches without cases

---
 .../decompiler/write_handlers/simple_ops/message_switches.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/explorerscript/ssb_converting/decompiler/write_handlers/simple_ops/message_switches.py b/explorerscript/ssb_converting/decompiler/write_handlers/simple_ops/message_switches.py
index 60f076c..0e13f3c 100644
--- a/explorerscript/ssb_converting/decompiler/write_handlers/simple_ops/message_switches.py
+++ b/explorerscript/ssb_converting/decompiler/write_handlers/simple_ops/message_switches.py
@@ -48,7 +48,6 @@ class MesageSwitchSimpleOpWriteHandler(AbstractWriteHandler):
     """Handles writing message_SwitchMonologue and message_SwitchTalk."""
 
     op_name: str | None
-    have_written_at_least_one_child: bool
     have_written_default: bool
 
     def __init__(
@@ -56,7 +55,6 @@ class MesageSwitchSimpleOpWriteHandler(AbstractWriteHandler):
     ):
         super().__init__(start_vertex, decompiler, parent)
         self.op_name = None
-        self.have_written_at_least_one_child = False
         self.have_written_default = False
 
     def write_content(self) -> Vertex | None:
@@ -98,11 +96,8 @@ class MesageSwitchSimpleOpWriteHandler(AbstractWriteHandler):
         next_op: SsbOperation = next_handler.start_vertex["op"]
         assert self.op_name is not None
         if next_op.op_code.name not in OPS_SWITCH_TEXT_CASE_MAP[self.op_name]:
-            if not self.have_written_at_least_one_child:
-                raise ValueError("A message_Switch* must have at least one case or default.")
             return False
         # The default case is always the last op of a message switch
         assert not self.have_written_default, "There must be no cases after the default case of a message switch."
         self.have_written_default = next_op.op_code.name == OP_DEFAULT_TEXT
-        self.have_written_at_least_one_child = True
         return True
-- 
2.43.0

