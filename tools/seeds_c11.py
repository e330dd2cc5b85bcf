SC = 'explorerscript/ssb_converting/ssb_compiler.py'
SD = 'explorerscript/ssb_converting/ssb_decompiler.py'
T = 'explorerscript/ssb_converting/ssb_data_types.py'
RV = 'explorerscript/ssb_converting/compiler/compiler_visitor/routine_visitor.py'
CL = 'explorerscript/ssb_script/ssb_converting/compiler/compiler_listener.py'
H = '''
import tempfile, shutil, copy
def ops(c):
    return [[(o.offset, o.op_code.name, [str(p) for p in o.params]) for o in r] for r in c.routine_ops]
def fails(f):
    try:
        f()
    except Exception as e:
        return type(e).__name__
    return None
'''
SEEDS = [
 dict(id='c11-macro-leak', property='C11', needs='one compiler object used for several files, of which a later one calls a macro that only an earlier one has',
  breaks='the macros of earlier files stay known to the compiler object',
  edits=[(SC, '        self.imports = []\n        self.macros = {}\n        if original_base_file', '        self.imports = []\n        if original_base_file'),
         (SC, '        self.macro_resolution_order = MacroResolutionOrderVisitor(self.macros).visit(tree)', '        self.macro_resolution_order = MacroResolutionOrderVisitor(dict(self.macros)).visit(tree)')],
  demo=H + r'''
c = ExplorerScriptSsbCompiler(PERF, [])
c.compile('macro m() { a(); } def 0 { ~m(); }', '/tmp/x.exps')
first = fails(lambda: compiler('def 0 { ~m(); }'))
assert first is not None
assert fails(lambda: c.compile('def 0 { ~m(); }', '/tmp/x.exps')) == first
'''),
 dict(id='c11-import-cache', property='C11', needs='a file imported by an imported file is changed between two compilations in one process, and the file importing it is not',
  breaks='the macros of imported files are kept for the next compilation as long as the text of the file is the same',
  edits=[(SC, 'logger = logging.getLogger(__name__)\n', 'logger = logging.getLogger(__name__)\n_imported_files: dict = {}\n'),
         (SC, '            self.macros.update(self._macros_add_filenames(subfile_compiler.macros, original_base_file, subfile_path))',
              '            known = _imported_files.setdefault((subfile_path, hash(subfile_src), original_base_file), subfile_compiler.macros)\n            self.macros.update(self._macros_add_filenames(known, original_base_file, subfile_path))')],
  demo=H + r'''
d = tempfile.mkdtemp()
try:
    def go(n):
        open(d + '/a.exps', 'w').write('import "./b.exps"; macro m() { ~n(); }')
        open(d + '/b.exps', 'w').write('macro n() { a(%d); }' % n)
        return ops(compiler('import "./a.exps"; def 0 { ~m(); }', d + '/main.exps'))
    assert go(1) != go(2)
finally:
    shutil.rmtree(d)
'''),
 dict(id='c11-literal-cache', property='C11', needs='the same string of several lines decompiled before at another depth of nesting, both below the second level',
  breaks='printed literals are kept per string, the indentation they were printed with first is used everywhere',
  edits=[(T, '        return repr_string(self.name, indent=self.indent, prefer_single_qoute=True)',
             '        key = self.name, min(self.indent, 2)\n        if key not in _printed:\n            _printed[key] = repr_string(self.name, indent=self.indent, prefer_single_qoute=True)\n        return _printed[key]'),
         (T, 'class SsbOpParamConstString:', '_printed: dict[tuple[str, int], str] = {}\n\n\nclass SsbOpParamConstString:')],
  demo=H + r'''
def deep():
    c = compiler('def 0 { if ($V == 1) { if ($V == 2) { a("x\\ny"); b(); } } end; }')
    return decompile(c.routine_infos, c.routine_ops)
def flat():
    c = compiler('def 0 { if ($V == 1) { a("x\\ny"); b(); } end; }')
    return decompile(c.routine_infos, c.routine_ops)
import subprocess
if len(sys.argv) > 1:
    sys.stdout.write(repr(flat()[0]))
    sys.exit()
alone = subprocess.run([sys.executable, __file__, 'x'], capture_output=True, text=True, check=True).stdout
deep()
assert repr(flat()[0]) == alone
'''),
 dict(id='c11-coroutine-pop', property='C11', needs='a decompiler object whose convert() is called twice for a script with coroutines',
  breaks='the names of the coroutines are used up while printing',
  edits=[('explorerscript/ssb_converting/decompiler/write_handlers/routine.py', '                self.decompiler.write_stmnt(f"coro {self.decompiler.named_coroutines[self.r_id]}")',
          '                self.decompiler.write_stmnt(f"coro {self.decompiler.named_coroutines.pop(self.r_id)}")')],
  demo=H + r'''
d = ExplorerScriptSsbDecompiler([SsbRoutineInfo(SsbRoutineType.COROUTINE, -1)], [[op(1, 'a'), op(2, 'Return')]], [SsbCoroutine(0, 'C')], PERF,
                                DungeonModeConstants('A', 'B', 'C', 'D'))
a = d.convert()[0]
assert d.convert()[0] == a
'''),
 dict(id='c11-counter-failure', property='C11', needs='a compilation that fails after it has numbered some operations, and another one after it',
  breaks='the counter of the operations is shared by all compilations and set back at the end of each',
  edits=[(RV, '    _active_routine_id: int\n', '    _counter = Counter()\n\n    _active_routine_id: int\n'),
         (RV, '            Counter(), self.source_map_builder, {}, Counter(), performance', '            self._counter, self.source_map_builder, {}, Counter(), performance'),
         (RV, '    def visitImport_stmt(', '    def visitStart(self, ctx: ExplorerScriptParser.StartContext) -> None:\n        self.visitChildren(ctx)\n        self._counter.count = 0\n\n    def visitImport_stmt(')],
  demo=H + r'''
a = ops(compiler('def 0 { a(); b(); }'))
assert ops(compiler('def 0 { a(); b(); }')) == a
assert fails(lambda: compiler('def 0 { a(); b(); ~m(); }'))
assert ops(compiler('def 0 { a(); b(); }')) == a
'''),
 dict(id='c11-ssbs-labels', property='C11', needs='an SsbScript text with labels compiled after another one with labels of the same names',
  breaks='the labels of all SsbScript texts are collected in one table, only the ids start again',
  edits=[(CL, '    """Builds the SSB data structures while listening for parsing events."""\n', '    """Builds the SSB data structures while listening for parsing events."""\n\n    _collected_labels: dict[str, SsbLabel] = {}\n'),
         (CL, '        self._collected_labels: dict[str, SsbLabel] = {}\n', '')],
  demo=H + r'''
from explorerscript.ssb_script.ssb_converting.ssb_compiler import SsbScriptSsbCompiler
def go(t):
    c = SsbScriptSsbCompiler()
    c.compile(t)
    return ops(c)
import subprocess
T = 'def 0 {\n @z;\n a();\n @x;\n b();\n Jump(@z);\n Jump(@x);\n}'
if len(sys.argv) > 1:
    sys.stdout.write(repr(go(T)))
    sys.exit()
alone = subprocess.run([sys.executable, __file__, 'x'], capture_output=True, text=True, check=True).stdout
go('def 0 {\n a();\n b();\n @x;\n c();\n @y;\n d();\n Jump(@y);\n Jump(@x);\n}')
assert repr(go(T)) == alone
'''),
]
