"""Single calls of the code under test with a digest of everything they return, for the checks of histories and schedules.

Nothing here imports the code under test before a call needs it: what is imported by whom is a part of the history.
As a program: reads a list of inputs, prints the result of each in this fresh process."""
import gc
import hashlib
import io
import json
import os
import pickle
import shutil
import signal
import sys
import tempfile

REPO = os.environ.get('VERIF_REPO', '/repo')
PERF = '$PERFORMANCE_PROGRESS_LIST'


def path():
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)


class Hang(BaseException):
    pass


def _alarm(*a):
    raise Hang()


class limit:
    def __init__(self, secs):
        self.secs = secs

    def __enter__(self):
        signal.signal(signal.SIGPROF, _alarm)
        signal.setitimer(signal.ITIMER_PROF, self.secs)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_PROF, 0)


def esc(s):
    return s if isinstance(s, str) else repr(s)


def param(p):
    """the meaning of a parameter: everything but the layout hint that printing leaves behind"""
    if isinstance(p, (int, float, str)):
        return [type(p).__name__, p]
    d = {}
    for k, v in getattr(p, '__dict__', {}).items():
        if k != 'indent' and not k.startswith('__'):
            d[k] = v if isinstance(v, (int, str, type(None))) else [list(x) for x in v.items()] if isinstance(v, dict) else str(v)
    return [type(p).__name__, d]


def ops(rr):
    return [[[o.offset, o.op_code.id, o.op_code.name, [param(x) for x in o.params]] for o in r] for r in rr]


def infos(l):
    return [None if i is None else [i.type.name, i.linked_to, i.linked_to_name] for i in l]


def names(l):
    return [[c.id, c.name] if hasattr(c, 'id') else c if isinstance(c, str) or c is None else str(c) for c in l]


def smap(sm):
    return None if sm is None else json.loads(sm.serialize())


def compiled(c):
    d = {'ops': ops(c.routine_ops), 'infos': infos(c.routine_infos), 'names': names(c.named_coroutines), 'sm': smap(c.source_map)}
    if hasattr(c, 'imports'):
        d['imports'] = list(c.imports)
    return d


def digest(x):
    return hashlib.sha256(json.dumps(x, sort_keys=True).encode('utf-8', 'surrogatepass')).hexdigest()[:16]


class Proc:
    """one process: the scratch directory, the objects that later calls may use again"""

    def __init__(self, root=None):
        self.root = root
        self.obj = {}      # (what, key) -> object
        self.results = []  # (call index, thunk giving the facts again)

    def build(self, i):
        """the ops of an input as a binary reader delivers them"""
        from explorerscript.ssb_converting import ssb_data_types as T
        rt = {'': T.SsbRoutineType.GENERIC, 'actor': T.SsbRoutineType.ACTOR, 'object': T.SsbRoutineType.OBJECT,
              'performer': T.SsbRoutineType.PERFORMER, 'coro': T.SsbRoutineType.COROUTINE}

        def p(c):
            k = c['k']
            if k == 'int':
                return c['v']
            if k == 'dec':
                return T.SsbOpParamFixedPoint.from_str(c['v'])
            if k == 'const':
                return T.SsbOpParamConstant(c['v'])
            if k == 'str':
                return T.SsbOpParamConstString(c['v'])
            if k == 'lang':
                return T.SsbOpParamLanguageString(dict(c['v']))
            return T.SsbOpParamPositionMarker(c['name'], 2 if c['xh'] else 0, 2 if c['yh'] else 0, c['x'], c['y'])
        inf, oo, co, ids = [], [], [], {}
        for n, r in enumerate(i['set']['routines']):
            k, t = r['kind'], r['target']
            if k in ('actor', 'object', 'performer'):
                inf.append(T.SsbRoutineInfo(rt[k], -1, t['v']) if t['k'] == 'const' else T.SsbRoutineInfo(rt[k], t['v']))
            else:
                inf.append(T.SsbRoutineInfo(rt[k], -1 if k == 'coro' else 0))
            if k == 'coro':
                co.append(T.SsbCoroutine(n, r['name']))
            oo.append([T.SsbOperation(o['o'], T.SsbOpCode(ids.setdefault(o['n'], len(ids) + 1), o['n']),
                                      [p(a) for a in o['a']] + ([o['t']] if o.get('t') is not None else [])) for o in r['ops']])
        return inf, oo, co

    def files(self, i):
        for d in os.listdir(self.root):
            shutil.rmtree(os.path.join(self.root, d), ignore_errors=True)
        for p, t in i.get('files', {}).items():
            fn = os.path.join(self.root, p)
            os.makedirs(os.path.dirname(fn), exist_ok=True)
            with open(fn, 'w', encoding='utf-8', newline='') as f:
                f.write(t)

    def call(self, i, reuse='new', secs=20):
        """-> (facts of the result, facts of the arguments before, after)"""
        path()
        keep, arg = [], [None]
        try:
            if secs:
                with limit(secs):
                    r = getattr(self, 'do_' + i['kind'])(i, reuse, keep, arg)
            else:
                r = getattr(self, 'do_' + i['kind'])(i, reuse, keep, arg)
        except Hang:
            r = {'raises': 'HANG'}
        except Exception as e:
            r = {'raises': type(e).__name__}
        before = arg[0]
        after = [infos(arg[1][0]), ops(arg[1][1]), names(arg[1][2])] if before is not None else None
        if keep:
            self.results.append(keep[0])
        return json.loads(json.dumps(r).replace(self.root or '\0', '<root>')), before, after

    def sets(self, i, reuse, arg):
        k = ('set', i['id'])
        if reuse == 'new' or k not in self.obj:
            s = self.build(i)
            if reuse != 'new':
                self.obj[k] = s
        else:
            s = self.obj[k]
        arg[0] = [infos(s[0]), ops(s[1]), names(s[2])]
        arg.append(s)
        return s

    def do_dec(self, i, reuse, keep, arg):
        from explorerscript.ssb_converting.ssb_decompiler import ExplorerScriptSsbDecompiler
        from explorerscript.ssb_converting.ssb_data_types import DungeonModeConstants
        s = self.sets(i, reuse, arg)
        k = ('dec', i['id'])
        if reuse != 'same' or k not in self.obj:
            d = ExplorerScriptSsbDecompiler(*s, PERF, DungeonModeConstants('DMODE_CLOSED', 'DMODE_OPEN', 'DMODE_REQUEST', 'DMODE_OPEN_AND_REQUEST'))
            if reuse == 'same':
                self.obj[k] = d
        else:
            d = self.obj[k]
        t, sm = d.convert()
        keep.append(lambda: {'text': t, 'sm': smap(sm)})
        return {'text': t, 'sm': smap(sm)}

    def do_ssbsdec(self, i, reuse, keep, arg):
        from explorerscript.ssb_script.ssb_converting.ssb_decompiler import SsbScriptSsbDecompiler
        s = self.sets(i, reuse, arg)
        k = ('ssbsdec', i['id'])
        if reuse != 'same' or k not in self.obj:
            d = SsbScriptSsbDecompiler(*s)
            if reuse == 'same':
                self.obj[k] = d
        else:
            d = self.obj[k]
        t, sm = d.convert()
        keep.append(lambda: {'text': t, 'sm': smap(sm)})
        return {'text': t, 'sm': smap(sm)}

    def do_comp(self, i, reuse, keep, arg):
        from explorerscript.ssb_converting.ssb_compiler import ExplorerScriptSsbCompiler
        self.files(i)
        k = ('comp',)
        look = [os.path.join(self.root, x) for x in ('lib1', 'lib2', 'other')]
        if reuse == 'new' or k not in self.obj:
            c = ExplorerScriptSsbCompiler(PERF, look)
            if reuse != 'new':
                self.obj[k] = c
        else:
            c = self.obj[k]
        c.compile(i['text'], os.path.join(self.root, i.get('path', 'p/main.exps')))
        f = (c.routine_ops, c.routine_infos, c.named_coroutines, c.source_map)
        keep.append(lambda: {'ops': ops(f[0]), 'infos': infos(f[1]), 'names': names(f[2]), 'sm': smap(f[3])})
        return dict(compiled(c), macros=sorted(c.macros))

    def do_ssbscomp(self, i, reuse, keep, arg):
        from explorerscript.ssb_script.ssb_converting.ssb_compiler import SsbScriptSsbCompiler
        k = ('ssbscomp',)
        c = self.obj.get(k) if reuse != 'new' else None
        if c is None:
            c = SsbScriptSsbCompiler()
            if reuse != 'new':
                self.obj[k] = c
        c.compile(i['text'])
        f = (c.routine_ops, c.routine_infos, c.named_coroutines, c.source_map)
        keep.append(lambda: {'ops': ops(f[0]), 'infos': infos(f[1]), 'names': names(f[2]), 'sm': smap(f[3])})
        return compiled(c)

    def do_round(self, i, reuse, keep, arg):
        """compile, and decompile the very objects the compiler made"""
        from explorerscript.ssb_converting.ssb_compiler import ExplorerScriptSsbCompiler
        from explorerscript.ssb_converting.ssb_decompiler import ExplorerScriptSsbDecompiler
        from explorerscript.ssb_converting.ssb_data_types import DungeonModeConstants, SsbCoroutine
        self.files(i)
        c = ExplorerScriptSsbCompiler(PERF, [])
        c.compile(i['text'], os.path.join(self.root, 'p/main.exps'))
        co = [SsbCoroutine(n, x) for n, x in enumerate(c.named_coroutines)]
        arg[0] = [infos(c.routine_infos), ops(c.routine_ops), names(co)]
        arg.append((c.routine_infos, c.routine_ops, co))
        t, sm = ExplorerScriptSsbDecompiler(c.routine_infos, c.routine_ops, co, PERF, DungeonModeConstants(
            'DMODE_CLOSED', 'DMODE_OPEN', 'DMODE_REQUEST', 'DMODE_OPEN_AND_REQUEST')).convert()
        return {'text': t, 'sm': smap(sm)}

    def do_cli(self, i, reuse, keep, arg):
        """the functions of the command that read a document, in this process"""
        from explorerscript.cli import decompile as D
        from explorerscript.ssb_converting.ssb_decompiler import ExplorerScriptSsbDecompiler
        from explorerscript.ssb_converting.ssb_data_types import DungeonModeConstants
        out, old, argv, cwd = io.StringIO(), sys.stdout, sys.argv, os.getcwd()
        fn = os.path.join(self.root, 'in.json')
        with open(fn, 'w', encoding='utf-8') as f:
            json.dump(i['doc'], f)
        main = getattr(D, 'main', None)
        inf, co, oo = D.read_routines(json.loads(json.dumps(i['doc']))['routines'])
        t, sm = ExplorerScriptSsbDecompiler(inf, oo, co, PERF, DungeonModeConstants(
            'DMODE_CLOSED', 'DMODE_OPEN', 'DMODE_REQUEST', 'DMODE_OPEN_AND_REQUEST')).convert()
        return {'infos': infos(inf), 'names': names(co), 'ops': ops(oo), 'text': t}

    def do_abort(self, i, reuse, keep, arg):
        """a call that runs out of stack (or of time, or is interrupted) at some point"""
        n, was = [i['at']], sys.gettrace()

        def tr(frame, event, a):
            if '/explorerscript/ssb_' not in frame.f_code.co_filename:
                return None
            if event == 'line':
                n[0] -= 1
                if n[0] == 0:
                    raise RecursionError('maximum recursion depth exceeded')
            return tr
        sys.settrace(tr)
        try:
            getattr(self, 'do_' + i['of']['kind'])(i['of'], 'new', keep, arg)
            keep.clear()
        except RecursionError:
            pass
        finally:
            sys.settrace(was)
        return {}

    # things between calls
    def do_gc(self, i, reuse, keep, arg):
        gc.collect()
        return {}

    def do_junk(self, i, reuse, keep, arg):
        """other users of the allocator"""
        from igraph import Graph
        k = [Graph(directed=True) for _ in range(i.get('n', 3))]
        for g in k:
            g.add_vertices(3)
            g.add_edges([(0, 1), (1, 2)])
        l = [[x] * 50 for x in range(200)]
        del k[::2], l[::3]
        self.obj[('junk', len(self.obj))] = (k, l)
        return {}

    def do_drop(self, i, reuse, keep, arg):
        """the user lets all objects go"""
        self.obj.clear()
        self.results.clear()
        return {}


class Scratch:
    def __enter__(self):
        self.old = os.getcwd()
        self.d = os.path.realpath(tempfile.mkdtemp(prefix='vmemo'))
        os.chdir(self.d)
        return self.d

    def __exit__(self, *a):
        os.chdir(self.old)
        shutil.rmtree(self.d, ignore_errors=True)


def forked(fn, arg, secs=120):
    """fn(arg) in a child of this (pristine) process"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            signal.alarm(secs)
            n = os.open('/dev/null', os.O_WRONLY)
            os.dup2(n, 2)
            out = pickle.dumps(fn(arg))
            with os.fdopen(w, 'wb') as f:
                f.write(out)
            os._exit(0)
        except BaseException:
            import traceback
            try:
                with os.fdopen(w, 'wb') as f:
                    f.write(pickle.dumps({'died': traceback.format_exc()[-1500:]}))
            except BaseException:
                pass
            os._exit(1)
    os.close(w)
    with os.fdopen(r, 'rb') as f:
        data = f.read()
    st = os.waitpid(pid, 0)[1]
    return pickle.loads(data) if data else {'died': 'no result, status %d' % st, 'signal': os.WTERMSIG(st) if os.WIFSIGNALED(st) else 0}


def alone(i):
    """one input in this process"""
    with Scratch() as d:
        r, b, a = Proc(d).call(i)
    return {'r': r, 'd': digest(r), 'arg': b == a}


def main():
    sys.stderr = open(os.devnull, 'w')
    print(json.dumps([alone(i) for i in json.load(sys.stdin)]))


def fresh(i, hashseed, repo=None):
    """one input in a process of its own"""
    import subprocess
    env = dict(os.environ, PYTHONHASHSEED=str(hashseed), PYTHONDONTWRITEBYTECODE='1', PYTHONWARNINGS='ignore')
    p = subprocess.run([sys.executable, '-m', 'harness.memo'], input=json.dumps([i]).encode(), capture_output=True, env=env,
                       cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))), timeout=120)
    if p.returncode:
        return {'died': p.stderr.decode()[-800:]}
    return json.loads(p.stdout)[0]


if __name__ == '__main__':
    main()
