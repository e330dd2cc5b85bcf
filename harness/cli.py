"""Runs of the two commands, and their JSON documents as trees for spec/Cli.tla."""
import io
import json
import os
import runpy
import subprocess
import sys
import traceback
import warnings
from . import lang, real
from .lang import esc

SETTINGS = {'performance_progress_list_var_name': real.PERF,
            'dungeon_mode_constants': dict(zip(('closed', 'open', 'request', 'open_request'), real.DMC))}
ENV = dict(os.environ, PYTHONPATH=real.REPO, PYTHONDONTWRITEBYTECODE='1', PYTHONWARNINGS='ignore')


def process(command, argv, cwd, secs=120):
    p = subprocess.run([sys.executable, '-m', 'explorerscript.cli.' + command, *argv], cwd=cwd, env=ENV, capture_output=True, timeout=secs)
    return p.returncode, p.stdout.decode('utf-8', 'replace'), p.stderr.decode('utf-8', 'replace')


def inline(command, argv, cwd, secs=30):
    """the same without a process of its own"""
    out, err = io.StringIO(), io.StringIO()
    old = sys.argv, sys.stdout, sys.stderr, os.getcwd()
    name = 'explorerscript.cli.' + command
    status = 0
    try:
        os.chdir(cwd)
        sys.argv, sys.stdout, sys.stderr = [name] + list(argv), out, err
        sys.modules.pop(name, None)
        try:
            with warnings.catch_warnings(), real.cpu_limit(secs):
                warnings.simplefilter('ignore')
                runpy.run_module(name, run_name='__main__', alter_sys=False)
        except SystemExit as e:
            status = 0 if e.code is None else e.code if isinstance(e.code, int) else 1
        except real.Hang:
            status, _ = 99, err.write('no answer')
        except Exception:
            status = 1
            traceback.print_exc(file=err)
    finally:
        sys.argv, sys.stdout, sys.stderr = old[:3]
        os.chdir(old[3])
    return status, out.getvalue(), err.getvalue()


class _Obj(list):
    pass


def load(text):
    """one JSON document -> tree, or None"""
    try:
        v = json.loads(text, object_pairs_hook=_Obj)
    except ValueError:
        return None
    return tree(v)


def tree(v):
    n = {'j': '', 's': '', 'i': -1, 'k': [], 'a': []}
    if isinstance(v, bool):
        n['j'], n['s'] = 'bool', str(v)
    elif v is None:
        n['j'] = 'null'
    elif isinstance(v, int):
        n['j'], n['s'] = 'int', str(v)
        n['i'] = v if 0 <= v < 2 ** 30 else -1
    elif isinstance(v, float):
        n['j'], n['s'] = 'num', repr(v)
    elif isinstance(v, str):
        n['j'], n['s'] = 'str', esc(v)
    elif isinstance(v, (_Obj, dict)):
        l = sorted(v.items() if isinstance(v, dict) else v, key=lambda x: x[0])
        n['j'] = 'obj' if len({k for k, _ in l}) == len(l) else 'twice'
        n['k'], n['a'] = [esc(k) for k, _ in l], [tree(x) for _, x in l]
    else:
        n['j'], n['a'] = 'arr', [tree(x) for x in v]
    return n


def half(i, h):
    return '%d%s' % (i, '.5' if h else '')


def arg(p):
    """parameter object of the library -> what it denotes, see Arg of Cli.tla"""
    if isinstance(p, int):
        return {'t': 'int', 'f': [str(p)]}
    if isinstance(p, real.SsbOpParamFixedPoint):
        return {'t': 'dec', 'f': [str(p.value)]}
    if isinstance(p, real.SsbOpParamConstant):
        return {'t': 'const', 'f': [esc(p.name)]}
    if isinstance(p, real.SsbOpParamConstString):
        return {'t': 'str', 'f': [esc(p.name)]}
    if isinstance(p, real.SsbOpParamLanguageString):
        return {'t': 'lang', 'f': [esc(x) for k in sorted(p.strings) for x in (k, p.strings[k])]}
    return {'t': 'pos', 'f': [esc(p.name), half(p.x_relative, p.x_offset > 1), half(p.y_relative, p.y_offset > 1)]}


def oplist(comp):
    return [{'o': op.offset, 'n': op.op_code.name, 'p': [arg(p) for p in op.params], 'rt': r,
             'li': op.params[-1] if op.params and isinstance(op.params[-1], int) else -1}
            for r, rr in enumerate(comp.routine_ops) for op in rr]


# ------------------------------------------------------------------ documents
def arg_json(a, rng=None):
    k = a['k']
    if k == 'int':
        return a['v']
    if k == 'dec':
        return {'type': 'FIXED_POINT', 'value': a['v']}
    if k == 'const':
        return {'type': 'CONSTANT', 'value': a['v']}
    if k == 'str':
        return {'type': 'CONST_STRING', 'value': a['v']}
    if k == 'lang':
        return {'type': 'LANG_STRING', 'value': dict(a['v'])}
    xy = []
    for c in 'xy':
        v = half(a[c], a[c + 'h'])
        xy.append(a[c] if not a[c + 'h'] and (rng is None or rng.random() < 0.5) else v)
    return {'type': 'POSITION_MARK', 'value': {'name': a['name'], 'x': xy[0], 'y': xy[1]}}


def document(s, rng=None):
    """routine set -> document; the ops of the set are numbered from 1"""
    pos = {}
    for r in s['routines']:
        for op in r['ops']:
            pos[op['o']] = len(pos) + 1
    rs = []
    for r in s['routines']:
        d = {'type': {'': 'GENERIC', 'coro': 'COROUTINE'}.get(r['kind'], r['kind'].upper())}
        if r['kind'] == 'coro':
            d['name'] = r['name']
        elif r['kind']:
            t = r['target']
            d['target_id'] = t['v'] if t['k'] == 'int' or rng is None or rng.random() < 0.5 else {'type': 'CONSTANT', 'value': t['v']}
        d['ops'] = [{'opcode': op['n'], 'params': [arg_json(a, rng) for a in op['a']] + ([pos[op['t']]] if op['t'] is not None else [])}
                    for op in r['ops']]
        rs.append(d)
    return {'settings': SETTINGS, 'routines': rs}


def from_document(d):
    """document -> routine set with the offsets a reader of the document gives"""
    def a_of(v):
        if isinstance(v, int):
            return {'k': 'int', 'v': v}
        t, x = v['type'], v['value']
        if t == 'POSITION_MARK':
            r = {'k': 'pos', 'name': x['name']}
            for c in 'xy':
                w = str(x[c])
                r[c], r[c + 'h'] = int(w.split('.')[0]), w.endswith('.5')
            return r
        if t == 'LANG_STRING':
            return {'k': 'lang', 'v': list(x.items())}
        return {'k': {'FIXED_POINT': 'dec', 'CONSTANT': 'const', 'CONST_STRING': 'str'}[t], 'v': x}
    rs, n = [], 0
    for r in d['routines']:
        k = {'GENERIC': '', 'COROUTINE': 'coro', 'ACTOR': 'actor', 'OBJECT': 'object', 'PERFORMER': 'performer'}[r['type']]
        t = r.get('target_id')
        q = {'kind': k, 'name': r.get('name', ''), 'ops': [],
             'target': None if t is None else {'k': 'int', 'v': t} if isinstance(t, int) else {'k': 'const', 'v': t if isinstance(t, str) else t['value']}}
        for op in r['ops']:
            n += 1
            ps = list(op['params'])
            to = ps.pop() if op['opcode'] in real.JUMP_OPS else None
            q['ops'].append({'o': n, 'n': op['opcode'], 'a': [a_of(v) for v in ps], 't': to})
        rs.append(q)
    return {'routines': rs}
