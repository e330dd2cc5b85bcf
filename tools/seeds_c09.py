D = 'explorerscript/ssb_converting/ssb_decompiler.py'
W = 'explorerscript/ssb_converting/decompiler/write_handlers/'
S = 'explorerscript/ssb_script/ssb_converting/ssb_decompiler.py'
HEAD = '''
def go(*ops):
    text, sm = decompile(generic(), [list(ops)], [])
    lines = text.split('\\n')
    def at(off):
        m = sm.get_op_line_and_col(off)
        return None if m is None else lines[m.line][m.column:]
    return text, at
'''
SEEDS = [
 dict(id='c09-header-lines', property='C09', needs='a multi-line string parameter in the header of an elseif',
  breaks='line breaks in text that is written on the current line are not counted, so everything after such an elseif is recorded too high up',
  edits=[(D, '            self.write_line()\n        self._line_number += stmnt.count("\\n")\n', '            self.write_line()\n            self._line_number += stmnt.count("\\n")\n')],
  demo=HEAD + '''
text, at = go(op(0, 'BranchEdit', 1, 5), op(1, 'BranchSum', 1, 2, SsbOpParamConstString('x\\ny'), 7), op(3, 'opelse'), op(4, 'Jump', 9),
              op(5, 'op1'), op(6, 'Jump', 9), op(7, 'op2'), op(8, 'Jump', 9), op(9, 'op3'), op(10, 'End'))
assert 'elseif' in text
for o, n in ((3, 'opelse'), (5, 'op1'), (7, 'op2'), (9, 'op3'), (10, 'end')):
    assert at(o) is not None and at(o).startswith(n), (o, n, at(o))
'''),
 dict(id='c09-case-group', property='C09', needs='two cases of a switch with the same body',
  breaks='of several cases that lead to the same block only the first has a source map entry',
  edits=[(W + 'label_jumps/switch_start.py', '                        self.decompiler.source_map_add_opcode(sco.op.offset)\n',
          '                        if sco is switch_case_ops[0]:\n                            self.decompiler.source_map_add_opcode(sco.op.offset)\n')],
  demo=HEAD + '''
v = SsbOpParamConstant('$V')
text, at = go(op(0, 'Switch', v), op(1, 'Case', 1, 5), op(2, 'Case', 2, 5), op(3, 'other'), op(4, 'End'), op(5, 'op1'), op(6, 'End'))
assert at(1).startswith('case 1') and at(2) is not None and at(2).startswith('case 2'), (at(1), at(2), text)
'''),
 dict(id='c09-fallback-prefix', property='C09', needs='a script that can only be decompiled to SsbScript',
  breaks='the comment in front of fallback output is counted with one line less',
  edits=[(S, '        self._line_number = prefix.count("\\n") + 1\n', '        self._line_number = len(prefix.splitlines()) if prefix else 1\n')],
  demo='''
sys.path.insert(0, os.getcwd())
from explorerscript.ssb_script.ssb_converting.ssb_decompiler import SsbScriptSsbDecompiler
text, sm = SsbScriptSsbDecompiler(generic(), [[op(0, 'op1'), op(1, 'End')]], []).convert(prefix='// a\\n// b\\n')
m = sm.get_op_line_and_col(0)
assert text.split('\\n')[m.line][m.column:].startswith('op1'), (m.line, text)
'''),
 dict(id='c09-default-text', property='C09', needs='a message switch with a default text',
  breaks='the default text of a message switch is recorded at the string and not at the default header',
  edits=[(W + 'simple_ops/message_switches_cases.py', '        self.decompiler.source_map_add_opcode(op.offset)\n\n', '        if op.op_code.name != OP_DEFAULT_TEXT:\n            self.decompiler.source_map_add_opcode(op.offset)\n\n'),
         (W + 'simple_ops/message_switches_cases.py', '                if hasattr(op.params[0], "indent"):\n', '                self.decompiler.source_map_add_opcode(op.offset)\n                if hasattr(op.params[0], "indent"):\n')],
  demo=HEAD + '''
text, at = go(op(0, 'message_SwitchTalk', 1), op(1, 'CaseText', 1, SsbOpParamConstString('a')), op(2, 'DefaultText', SsbOpParamConstString('b')), op(3, 'End'))
assert at(1).startswith('case') and at(2).startswith('default'), (at(2), text)
'''),
]
