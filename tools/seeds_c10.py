C = 'explorerscript/ssb_converting/compiler/'
B = C + 'compile_handlers/blocks/'
H = '''
import os, tempfile
from explorerscript.error import ParseError, SsbCompilerError
def rejected(t, file='/tmp/none.exps', lookup=()):
    try:
        compiler(t, file, lookup)
    except (ParseError, SsbCompilerError, ValueError):
        return True
    return False
'''
SEEDS = [
 dict(id='c10-three-cycle', property='C10', needs='three or more macros that call each other in a ring',
  breaks='only rings of up to two macros are recognised, a longer one fails with an exception of the graph library',
  edits=[(C + 'compiler_visitor/macro_resolution_order.py', 'self._dependency_graph.subcomponent(e.target, mode="out") for e', 'self._dependency_graph.successors(e.target) for e')],
  demo=H + '''
assert rejected('macro a() { x(); } def 0 { ~a(); ~b(); }')
assert rejected('macro a() { ~b(); } macro b() { ~c(); } macro c() { ~a(); } def 0 { ~a(); }')
'''),
 dict(id='c10-empty-default', property='C10', needs='a switch whose last case is an empty default',
  breaks='an empty default at the end of a switch is not missed',
  edits=[(B + 'switches/switch_block.py', '        if len(cases_waiting_for_a_block) > 0:', '        if any(isinstance(h, CaseBlockCompileHandler) for h in cases_waiting_for_a_block):')],
  demo=H + '''
assert rejected('def 0 { switch ($x) { case 1: a(); case 2: } }')
assert rejected('def 0 { switch ($x) { case 1: a(); default: } }')
'''),
 dict(id='c10-loop-left', property='C10', needs='continue or break_loop behind a while loop that was negated',
  breaks='a negated while loop is not left in the list of enclosing loops',
  edits=[(B + 'loop/while_block.py', '        self.compiler_ctx.remove_loop()', '        if self.ctx.NOT() is None:\n            self.compiler_ctx.remove_loop()')],
  demo=H + '''
assert rejected('def 0 { while (debug) { a(); } continue; }')
assert rejected('def 0 { while not (debug) { a(); } continue; }')
'''),
 dict(id='c10-not-number', property='C10', needs='a negated bit test of a variable given by its number',
  breaks='only variables with a name are refused in negated bit tests',
  edits=[(B + 'ifs/header/bit.py', '        elif not is_simple_positive:', '        elif not is_simple_positive and var_target_name:')],
  demo=H + '''
assert rejected('def 0 { if (not $x[3]) { a(); } }')
assert rejected('def 0 { if (not 5[3]) { a(); } }')
'''),
 dict(id='c10-imported-coro', property='C10', needs='an imported file that has coroutines',
  breaks='coroutines do not count as routines in imported files',
  edits=[(C + 'compiler_visitor/has_routines_visitor.py', '        return True', '        return ctx.coro_def() is None')],
  demo=H + '''
with tempfile.TemporaryDirectory() as d:
    for t in ('def 0 { b(); }', 'coro A { b(); }'):
        open(os.path.join(d, 'f.exps'), 'w').write('macro m() { a(); } ' + t)
        assert rejected('import "./f.exps"; def 0 { ~m(); }', os.path.join(d, 'main.exps')), t
'''),
]
