L = 'explorerscript/ssb_script/ssb_converting/compiler/compiler_listener.py'
RT = '''
from explorerscript.ssb_script.ssb_converting.ssb_compiler import SsbScriptSsbCompiler
from explorerscript.ssb_script.ssb_converting.ssb_decompiler import SsbScriptSsbDecompiler
def back(ops, infos=None):
    text, _ = SsbScriptSsbDecompiler(infos or generic(len(ops)), ops, []).convert()
    c = SsbScriptSsbCompiler()
    c.compile(text)
    return [[(o.op_code.name, [str(p) for p in o.params]) for o in r] for r in c.routine_ops]
'''
SEEDS = [
 dict(id='c07-first-empty', property='C07', needs='a routine set whose first routine is empty',
  breaks='an empty first routine is printed with an empty body, which is no SsbScript',
  edits=[('explorerscript/ssb_script/ssb_converting/ssb_decompiler.py', '''                if len(r_ops) == 0:''', '''                if len(r_ops) == 0 and r_id > 0:''')],
  demo=RT + '''
assert back([[], [op(0, 'End')]]) == [[], [('End', [])]]
'''),
 dict(id='c07-mark-minus-one', property='C07', needs='a position mark on column -1 (y coordinate overwrites it)',
  breaks='a mark whose x coordinate is -1 takes the y coordinate as x',
  edits=[(L, '''            if self._collected_pos_marker.x_offset == -1:''', '''            if self._collected_pos_marker.x_relative == -1:''')],
  demo=RT + '''
r = back([[op(0, 'a', SsbOpParamPositionMarker('m', 0, 2, -1, 7)), op(1, 'End')]])
assert r[0][0][1] == ["Position<'m', -1, 7.5>"], r
'''),
 dict(id='c07-local-labels', property='C07', needs='a jump into another routine',
  breaks='labels are local to the routine they are written in, jumps to other routines no longer find theirs',
  edits=[(L, '''        self.routine_infos[self._active_routine_id] = SsbRoutineInfo(SsbRoutineType.GENERIC, 0)
        self.routine_ops[self._active_routine_id] = self._collected_ops
''', '''        self.routine_infos[self._active_routine_id] = SsbRoutineInfo(SsbRoutineType.GENERIC, 0)
        self.routine_ops[self._active_routine_id] = self._collected_ops
        self._collected_labels = {}
''')],
  demo=RT + '''
r = back([[op(0, 'a'), op(1, 'Jump', 3)], [op(2, 'b'), op(3, 'c'), op(4, 'End')]])
assert r[0][1] == ('Jump', ['3']), r
'''),
]
