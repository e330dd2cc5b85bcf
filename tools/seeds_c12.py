SD = 'explorerscript/ssb_converting/ssb_decompiler.py'
UT = 'explorerscript/ssb_converting/compiler/utils.py'
SO = 'explorerscript/ssb_converting/ssb_special_ops.py'
GU = 'explorerscript/ssb_converting/decompiler/graph_building/graph_utils.py'
RD = 'explorerscript/explorerscript_reader.py'
SC = 'explorerscript/ssb_converting/ssb_compiler.py'
H = r'''
import copy, threading, tempfile, shutil
def ops(c):
    return [[(o.offset, o.op_code.name, [str(p) for p in o.params]) for o in r] for r in c.routine_ops]
def guarded(f):
    try:
        return f()
    except Exception as e:
        return type(e).__name__
class Enough(BaseException):
    pass
def preempted(a, b, k):
    """a stops before the k-th line of explorerscript it runs, b runs as a whole in another thread, a goes on -> results, was it reached"""
    n, got, others = [0], [], []
    def local(frame, event, arg):
        if event == 'line':
            n[0] += 1
            if n[0] == k:
                t = threading.Thread(target=lambda: got.append(guarded(b)))
                t.start()
                t.join(0.1)   # (it may wait for a lock)
                others.append(t)
        return local
    def start(frame, event, arg):
        return local if '/explorerscript/' in frame.f_code.co_filename and '/antlr/' not in frame.f_code.co_filename else None
    out = []
    def run():
        sys.settrace(start)
        try:
            out.append(guarded(a))
        finally:
            sys.settrace(None)
    t = threading.Thread(target=run)
    t.start()
    t.join(120)
    for x in others:
        x.join(60)
    return out[0], got, n[0]
def everywhere(a, b, step=1, upto=10 ** 9):
    want = guarded(a), guarded(b)
    total = preempted(a, b, -1)[2]
    for k in range(1, min(total, upto), step):
        ra, rb, _ = preempted(a, b, k)
        assert ra == want[0], (k, 'preempted')
        assert rb == [want[1]], (k, 'other')
def dec(text):
    c = compiler(text)
    return lambda: decompile(c.routine_infos, c.routine_ops)[0]
'''
SEEDS = [
 dict(id='c12-class-labels', property='C12', needs='a thread starts to decompile while another one is writing a routine with labels that were printed already and are reached again',
  breaks='the labels that were printed already are noted in one list for all decompilers, which each of them empties when it starts',
  edits=[(SD, '        self.performance_progress_list_var_name = performance_progress_list_var_name\n', '        self.performance_progress_list_var_name = performance_progress_list_var_name\n'),
         (SD, '        self.labels_already_printed = []\n        self._jump_to_be_written = None\n        self.smb = None\n', '        self._jump_to_be_written = None\n        self.smb = None\n'),
         (SD, '        self.labels_already_printed = []\n        self.forever_start_handler_stack = []\n        self._line_number = 1\n', '        self.labels_already_printed.clear()\n        self.forever_start_handler_stack = []\n        self._line_number = 1\n')],
  demo=H + r"""
a = dec('def 0 { a(); if ($V == 1) { b(); jump @x; } c(); if ($V == 2) { @x; d(); if ($V == 3) { jump @x; } } e(); jump @x; }')
b = dec('def 0 { z(); end; }')
everywhere(a, b)
"""),
 dict(id='c12-ctx-loops', property='C12', needs='a thread compiles its first routine while another one is inside of a loop or a case',
  breaks='the loops and cases that are open are noted in one list for all compilations, which each of them empties when it starts',
  edits=[(UT, '        self._loops = []\n        self._switch_cases = []\n', '        self._loops.clear()\n        self._switch_cases.clear()\n'),
         (UT, '    _loops: list[AnyLoopBlockCompileHandler]\n    _switch_cases: list[DefaultCaseBlockCompileHandler | CaseBlockCompileHandler]\n',
              '    _loops: list[AnyLoopBlockCompileHandler] = []\n    _switch_cases: list[DefaultCaseBlockCompileHandler | CaseBlockCompileHandler] = []\n')],
  demo=H + r"""
a = lambda: ops(compiler('def 0 { forever { a(); break_loop; } end; }'))
b = lambda: ops(compiler('def 0 { b(); }'))
everywhere(a, b)
"""),
 dict(id='c12-lazy-branches', property='C12', needs='two threads decompile for the first time, one is stopped while it fills the table of jumping operations',
  breaks='the branches are added to the table of the operations that jump on first use, without a lock: whoever comes second may see a half filled table',
  edits=[(SO, 'OPS_WITH_JUMP_TO_MEM_OFFSET.update(OPS_BRANCH)\n', 'OPS_WITH_JUMP_COMPLETE: list[str] = []\n'),
         (SO, '    if op.op_code.name in OPS_WITH_JUMP_TO_MEM_OFFSET.keys():\n',
              '    if len(OPS_WITH_JUMP_COMPLETE) == 0:\n        for name in OPS_BRANCH:\n            OPS_WITH_JUMP_COMPLETE.append(name)\n            OPS_WITH_JUMP_TO_MEM_OFFSET[name] = OPS_BRANCH[name]\n    if op.op_code.name in OPS_WITH_JUMP_TO_MEM_OFFSET.keys():\n')],
  demo=H + r"""
import subprocess
a = dec('def 0 { a(); end; }')
b = dec('def 0 { if (variation) { b(); } end; }')
if len(sys.argv) > 1:
    k = int(sys.argv[1])
    _, rb, n = preempted(a, b, k)
    sys.exit(0 if n < k else 0 if rb == [b()] else 1)
# (each attempt is a process in which nothing was decompiled before)
for first in range(1, 200, 16):
    ps = [subprocess.Popen([sys.executable, __file__, str(k)]) for k in range(first, first + 16)]
    assert not any([p.wait() for p in ps]), first
"""),
 dict(id='c12-shared-lexer', property='C12', needs='a thread parses while another one is between its tokens',
  breaks='the lexer is made once and given the text of whoever parses',
  edits=[(RD, '        lexer = ExplorerScriptLexer(input_stream)\n', '        lexer = ExplorerScriptReader.lexer\n        lexer.inputStream = input_stream\n'),
         (RD, '    parser: ExplorerScriptParser | None\n\n', '    parser: ExplorerScriptParser | None\n    lexer = ExplorerScriptLexer(InputStream(""))\n\n')],
  demo=H.replace(" and '/antlr/' not in frame.f_code.co_filename", '') + r"""
a = lambda: ops(compiler('def 0 { a(1, 2); b(); end; }'))
b = lambda: ops(compiler('def 0 { c(); } def 1 { d(3, 4, 5); }'))
everywhere(a, b, 5)
everywhere(a, b)
"""),
 dict(id='c12-import-dir', property='C12', needs='two threads compile files with relative imports in different directories, one is stopped while it looks for its imports',
  breaks='the directory in which imports are looked for is kept in one place for all compilations',
  edits=[(SC, 'logger = logging.getLogger(__name__)\n', 'logger = logging.getLogger(__name__)\n_looking_in: list[str] = [""]\n'),
         (SC, '                abs_path = os.path.realpath(str(PurePath(PurePosixPath(dir_name).joinpath(PurePosixPath(import_file)))))\n',
              '                _looking_in[0] = dir_name\n                wanted = PurePosixPath(import_file)\n                abs_path = os.path.realpath(str(PurePath(PurePosixPath(_looking_in[0]).joinpath(wanted))))\n')],
  demo=H + r"""
d = tempfile.mkdtemp()
try:
    for n in 'xy':
        os.mkdir(d + '/' + n)
        open(d + '/' + n + '/lib.exps', 'w').write('macro m() { %s(); }' % n)
    a = lambda: ops(compiler('import "./lib.exps"; def 0 { ~m(); }', d + '/x/main.exps'))
    b = lambda: ops(compiler('import "./lib.exps"; def 0 { ~m(); }', d + '/y/main.exps'))
    everywhere(a, b)
finally:
    shutil.rmtree(d)
"""),
]
SEEDS[0]['edits'].pop(0)
