B = 'explorerscript/ssb_converting/'
PRE = '''
import os, tempfile, shutil
def project(files, main, lookup=()):
    d = os.path.realpath(tempfile.mkdtemp())
    try:
        for p, t in files.items():
            fn = os.path.join(d, p)
            os.makedirs(os.path.dirname(fn), exist_ok=True)
            open(fn, 'w').write(t)
        return compiler(files[main], os.path.join(d, main), [os.path.join(d, l) for l in lookup])
    finally:
        shutil.rmtree(d)
'''
SEEDS = [
 dict(id='c05-lookup-last', property='C05', needs='an import that exists below two lookup paths',
  breaks='the last matching lookup path wins instead of the first',
  edits=[(B + 'ssb_compiler.py', '''                    if os.path.exists(abs_path_c):
                        abs_path = abs_path_c
                        break''', '''                    if os.path.exists(abs_path_c):
                        abs_path = abs_path_c''')],
  demo=PRE + '''
c = project({'p/m.exps': 'import "l.exps"; def 0 { ~m(); end; }', 'a/l.exps': 'macro m() { from_a(); }', 'b/l.exps': 'macro m() { from_b(); }'},
            'p/m.exps', ['a', 'b'])
assert c.routine_ops[0][0].op_code.name == 'from_a', c.routine_ops
'''),
 dict(id='c05-import-base', property='C05', needs='a relative import in a file that lies in another directory than the compiled file',
  breaks='relative imports of imported files are resolved against the directory of the compiled file',
  edits=[(B + 'ssb_compiler.py', 'self._resolve_imported_file(os.path.dirname(file_name))',
          'self._resolve_imported_file(os.path.dirname(original_base_file))')],
  demo=PRE + '''
c = project({'p/m.exps': 'import "./s/x.exps"; def 0 { ~x(); end; }', 'p/s/x.exps': 'import "./y.exps"; macro x() { ~y(); }',
             'p/s/y.exps': 'macro y() { right(); }', 'p/y.exps': 'macro y() { wrong(); }'}, 'p/m.exps')
assert c.routine_ops[0][0].op_code.name == 'right', c.routine_ops
'''),
 dict(id='c05-return-in-submacro', property='C05', needs='a macro that calls a macro containing return, with statements after the call',
  breaks='return in a sub-macro leaves the calling macro as well: the end label is shared when the sub-macro is inlined',
  edits=[('explorerscript/macro.py', '''                new_jumps = SsbLabelJump(new_root, new_labels[blueprint_op.label.id])''',
          '''                target_label = new_labels[blueprint_op.label.id]
                if isinstance(blueprint_op.label, MacroEndSsbLabel) and len(self.variables) == 0:
                    target_label = end_label
                new_jumps = SsbLabelJump(new_root, target_label)''')],
  demo='''
c = compiler("""macro inner($x) { if (debug) { return; } a($x); } macro outer() { ~inner(1); b(); } def 0 { ~outer(); end; }""")
got = run(c.routine_ops, [True])
print(got)
assert 'b' in got, got
'''),
 dict(id='c05-const-args', property='C05', needs='a macro whose argument has the same text as a later parameter of the macro',
  breaks='parameters are replaced one after the other, so an argument that looks like a later parameter is replaced again',
  edits=[('explorerscript/macro.py', '''                if p_as_str in macro_params:
                    new_params.append(macro_params[p_as_str])''', '''                if p_as_str in macro_params:
                    value = macro_params[p_as_str]
                    if isinstance(value, SsbOpParamConstant) and str(value) in self.variables[self.variables.index(p_as_str) + 1 :]:
                        value = macro_params[str(value)]
                    new_params.append(value)''')],
  demo='''
c = compiler("""macro m($a, $b) { op($a, $b); } def 0 { ~m($b, 7); end; }""")
print(c.routine_ops)
assert [str(x) for x in c.routine_ops[0][0].params] == ['$b', '7'], c.routine_ops
'''),
]
