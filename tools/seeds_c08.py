M = 'explorerscript/macro.py'
U = 'explorerscript/ssb_converting/compiler/utils.py'
S = 'explorerscript/source_map.py'
FILES = '''
import os, tempfile, shutil
from explorerscript.source_map import SourceMap
d = tempfile.mkdtemp()
def put(name, text):
    with open(os.path.join(d, name), 'w') as f:
        f.write(text)
def comp(text):
    c = compiler(text, os.path.join(d, 'main.exps'))
    return c, dict(c.source_map.collect_mappings__macros()), [o for r in c.routine_ops for o in r]
'''
SEEDS = [
 dict(id='c08-called-file', property='C08', needs='three levels of macro calls, the middle one in another file than the outermost one',
  breaks='the call position of an innermost expansion names the file of the outermost macro of the chain',
  edits=[(M, '                if potential_macro_sm_entry.called_in[0] is not None:', '                if called_in_filename is None and potential_macro_sm_entry.called_in[0] is not None:')],
  demo=FILES + '''
try:
    put('b.exps', 'macro inner() { op1(); }\\nmacro mid() { x(); ~inner(); }\\n')
    put('a.exps', 'import "./b.exps";\\nmacro outer() { y(); ~mid(); }\\n')
    c, m, ops = comp('import "./a.exps";\\ndef 0 { ~outer(); end; }')
    e = [m[o.offset] for o in ops if o.op_code.name == 'op1'][0]
    assert e.called_in == ('b.exps', 1, 19) and e.relpath_included_file == 'b.exps', (e.called_in, e.relpath_included_file)
finally:
    shutil.rmtree(d)
'''),
 dict(id='c08-return-count', property='C08', needs='a macro with a return in the middle, or one that calls a macro that has one',
  breaks='the return address does not count the returns of the macro body (they are counted as labels)',
  edits=[(M, 'len([o for o in self.blueprints if not isinstance(o, SsbLabel)]) + 1', 'len([o for o in self.blueprints if not isinstance(o, SsbLabel) and o.op_code.name != OP_RETURN]) + 1')],
  demo=FILES + '''
try:
    c, m, ops = comp('macro a() { if (debug) { return; }\\n if (edit) { return; }\\n op1(); op2(); }\\ndef 0 { ~a(); op3(); end; }')
    last = max(o.offset for o in ops if o.op_code.name == 'op2')
    assert all(m[o.offset].return_addr > last for o in ops if o.offset in m), [(o.offset, m[o.offset].return_addr) for o in ops if o.offset in m]
finally:
    shutil.rmtree(d)
'''),
 dict(id='c08-relay-file', property='C08', needs='a macro of an imported file that calls another macro of the same file',
  breaks='ops of the macro called by a macro of the same imported file are recorded as being from the compiled file',
  edits=[(M, '            if file_path is None:\n', '            if file_path is None and potential_macro_sm_entry.called_in:\n')],
  demo=FILES + '''
try:
    put('a.exps', 'macro inner() { op1(); op2(); }\\nmacro outer() { ~inner(); }\\n')
    c, m, ops = comp('import "./a.exps";\\ndef 0 { ~outer(); end; }')
    assert [m[o.offset].relpath_included_file for o in ops if o.offset in m] == ['a.exps'] * 2
finally:
    shutil.rmtree(d)
'''),
 dict(id='c08-sub-marks', property='C08', needs='a position mark in a macro that is only called by another macro with marks of its own',
  breaks='position marks of sub-macros are only recorded if the macro has none itself',
  edits=[(M, '''        for m in self.source_map.get_position_marks__macros():
            smb.add_macro_position_mark(*m)
''', '''        if not self.source_map.get_position_marks__direct():
            for m in self.source_map.get_position_marks__macros():
                smb.add_macro_position_mark(*m)
''')],
  demo=FILES + '''
try:
    c, m, ops = comp('macro b() { op1(Position<"m", 1, 2>); }\\nmacro a() { op2(Position<"n", 3, 4>); ~b(); }\\ndef 0 { ~a(); end; }')
    assert sorted(p.name for _, _, p in c.source_map.get_position_marks__macros()) == ['m', 'n']
finally:
    shutil.rmtree(d)
'''),
]
