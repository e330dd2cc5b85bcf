"""Drivers of the code under test.  Everything here records facts; no judgement."""
import os
import signal
import sys
import traceback

REPO = os.environ.get('VERIF_REPO', '/repo')
if sys.path[0] != REPO:
    sys.path.insert(0, REPO)
sys.setrecursionlimit(max(sys.getrecursionlimit(), 1000))

from explorerscript.ssb_converting.ssb_compiler import ExplorerScriptSsbCompiler  # noqa
from explorerscript.ssb_converting.ssb_decompiler import ExplorerScriptSsbDecompiler  # noqa
from explorerscript.ssb_script.ssb_converting.ssb_compiler import SsbScriptSsbCompiler  # noqa
from explorerscript.ssb_script.ssb_converting.ssb_decompiler import SsbScriptSsbDecompiler  # noqa
from explorerscript.ssb_converting.ssb_data_types import (  # noqa
    SsbOperation, SsbOpCode, SsbRoutineInfo, SsbRoutineType, SsbCoroutine, DungeonModeConstants, SsbOpParamConstant,
    SsbOpParamFixedPoint, SsbOpParamConstString, SsbOpParamLanguageString, SsbOpParamPositionMarker)
from explorerscript.error import ParseError, SsbCompilerError  # noqa
from explorerscript import error as _error
from .lang import esc, dec_canon
import re

PERF = '$PERFORMANCE_PROGRESS_LIST'
DMC = ('DMODE_CLOSED', 'DMODE_OPEN', 'DMODE_REQUEST', 'DMODE_OPEN_AND_REQUEST')

JUMP_OPS = {"Jump", "Call", "Case", "CaseMenu", "CaseMenu2", "CaseScenario", "CaseValue", "CaseVariable", "Branch",
            "BranchBit", "BranchDebug", "BranchEdit", "BranchExecuteSub", "BranchPerformance", "BranchScenarioNow",
            "BranchScenarioNowAfter", "BranchScenarioNowBefore", "BranchScenarioAfter", "BranchScenarioBefore",
            "BranchSum", "BranchValue", "BranchVariable", "BranchVariation"}


def dmc():
    return DungeonModeConstants(*DMC)


class Hang(BaseException):
    pass


def _alarm(*a):
    raise Hang()


class cpu_limit:
    """raise Hang after so many seconds of CPU time of this process"""

    def __init__(self, secs=30):
        self.secs = secs

    def __enter__(self):
        self.old = signal.signal(signal.SIGPROF, _alarm)
        signal.setitimer(signal.ITIMER_PROF, self.secs)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_PROF, 0)
        signal.signal(signal.SIGPROF, self.old)


def canon_param(p):
    if isinstance(p, bool):
        return 'b:%s' % p
    if isinstance(p, int):
        return 'i:%d' % p
    if isinstance(p, SsbOpParamFixedPoint):
        v = str(p.value)
        return 'f:' + (dec_canon(v) if re.fullmatch(r'-?[0-9]*\.[0-9]+', v) else v)
    if isinstance(p, SsbOpParamConstant):
        return 'c:' + p.name
    if isinstance(p, SsbOpParamConstString):
        return 's:' + esc(p.name)
    if isinstance(p, SsbOpParamLanguageString):
        d = p.strings
        return 'l:' + '|'.join('%s=%s' % (l, esc(d[l]).replace('|', '\\u{7c}')) for l in sorted(d))
    if isinstance(p, SsbOpParamPositionMarker):
        return 'p:%s,%d%s,%d%s' % (esc(p.name).replace(',', '\\u{2c}'), p.x_relative, '+' if p.x_offset > 1 else '',
                                   p.y_relative, '+' if p.y_offset > 1 else '')
    return 'other:%s' % type(p).__name__


TK = {SsbRoutineType.GENERIC: '', SsbRoutineType.ACTOR: 'actor', SsbRoutineType.OBJECT: 'object',
      SsbRoutineType.PERFORMER: 'performer', SsbRoutineType.COROUTINE: 'coro'}


def table_of(infos, coros):
    """[[kind, target value, coroutine name]] per routine id"""
    out = []
    for i, inf in enumerate(infos):
        if inf is None:
            out.append(['none', '', ''])
            continue
        k = TK.get(inf.type, 'invalid')
        tv = ''
        if k in ('actor', 'object', 'performer'):
            tv = ('c:' + inf.linked_to_name) if inf.linked_to_name else 'i:%d' % inf.linked_to
        nm = ''
        if k == 'coro':
            c = coros[i] if i < len(coros) else None
            nm = c if isinstance(c, str) else getattr(c, 'name', '?') if c is not None else '?'
        out.append([k, tv, nm])
    return out


def ops_facts(routine_ops):
    """raw recorded ops: [[{o, n, p}]] - p has all parameters, canonical"""
    res = []
    for rr in routine_ops:
        l = []
        for op in rr:
            l.append({'o': op.offset if isinstance(op.offset, int) else str(op.offset), 'n': op.op_code.name,
                      'p': [canon_param(x) for x in op.params], 'cls': type(op).__name__})
        res.append(l)
    return res


def exc_facts(e):
    mro = [c.__name__ for c in type(e).__mro__]
    tb = traceback.extract_tb(e.__traceback__)
    where = ''
    for fr in reversed(tb):
        if '/explorerscript/' in fr.filename:
            where = '%s:%s' % (fr.filename.split('/explorerscript/', 1)[1], fr.name)
            break
    return {'ok': False, 'exc': type(e).__name__, 'mro': mro, 'msg': str(e)[:300], 'where': where}


def compile_text(text, file_name='/nonexistent/main.exps', lookup=None, original_base_file=None, secs=30, want=()):
    comp = ExplorerScriptSsbCompiler(PERF, lookup or [])
    try:
        with cpu_limit(secs):
            comp.compile(text, file_name)
    except Hang:
        return {'ok': False, 'exc': 'HANG', 'mro': ['HANG'], 'msg': 'no answer', 'where': ''}
    except Exception as e:
        return exc_facts(e)
    return compiled_facts(comp, want)


def compiled_facts(comp, want=()):
    d = {'ok': True, 'ops': ops_facts(comp.routine_ops), 'ninfo': len(comp.routine_infos),
         'ncoro': len(comp.named_coroutines), 'table': table_of(comp.routine_infos, comp.named_coroutines)}
    if 'sm' in want:
        d['sm'] = sm_facts(comp.source_map)
    if 'imports' in want:
        d['imports'] = list(comp.imports)
        d['macros'] = sorted(comp.macros)
    return d


def sm_facts(sm):
    d = {'map': {}, 'macros': {}, 'marks': [mark_facts(m) for m in sm.get_position_marks__direct()],
         'mmarks': [[m[0] or '', m[1], mark_facts(m[2])] for m in sm.get_position_marks__macros()]}
    mac = dict(sm.collect_mappings__macros())
    for o, m in mac.items():
        d['macros'][str(o)] = {'file': m.relpath_included_file or '', 'macro': m.macro_name, 'line': m.line, 'col': m.column,
                               'called': [m.called_in[0] or '', m.called_in[1], m.called_in[2]] if m.called_in else [],
                               'ret': m.return_addr if m.return_addr is not None else -1,
                               'pm': {k: str(v) for k, v in m.parameter_mapping.items()}}
    for o, m in sm:
        if sm.get_op_line_and_col__direct(o) is m:
            d['map'][str(o)] = [m.line, m.column]
    return d


def mark_facts(m):
    return {'span': [m.line_number, m.column_number, m.end_line_number, m.end_column_number],
            'c': 'p:%s,%d%s,%d%s' % (esc(m.name).replace(',', '\\u{2c}'), m.x_relative, '+' if m.x_offset > 1 else '',
                                     m.y_relative, '+' if m.y_offset > 1 else '')}


def ssb_machine(facts_ops, table=None):
    """recorded ops -> machine record for spec/SsbMachine.tla"""
    flat, starts, idx = [], [], {}
    n = 0
    for rr in facts_ops:
        starts.append(n + 1 if rr else 0)
        for op in rr:
            n += 1
            idx.setdefault(op['o'], n)
    for rr in facts_ops:
        for i, op in enumerate(rr):
            p = list(op['p'])
            t = -1
            if op['n'] in JUMP_OPS:
                t = 0
                if p and p[-1].startswith('i:'):
                    t = idx.get(int(p[-1][2:]), 0)
                p = p[:-1]
            flat.append({'n': op['n'], 'p': p, 't': t, 'last': i == len(rr) - 1})
    return {'kind': 'ssb', 'ops': flat, 'starts': starts, 'table': table or []}


# ----------------------------------------------------------------- SSB input sets
def param_from(c):
    """structured parameter description -> parameter object"""
    k = c['k']
    if k == 'int':
        return c['v']
    if k == 'dec':
        return SsbOpParamFixedPoint.from_str(c['v'])
    if k == 'const':
        return SsbOpParamConstant(c['v'])
    if k == 'str':
        return SsbOpParamConstString(c['v'])
    if k == 'lang':
        return SsbOpParamLanguageString(dict(c['v']))
    if k == 'pos':
        return SsbOpParamPositionMarker(c['name'], 2 if c['xh'] else 0, 2 if c['yh'] else 0, c['x'], c['y'])
    raise ValueError(k)


RT = {'': SsbRoutineType.GENERIC, 'actor': SsbRoutineType.ACTOR, 'object': SsbRoutineType.OBJECT,
      'performer': SsbRoutineType.PERFORMER, 'coro': SsbRoutineType.COROUTINE}


def build_set(s):
    """s: {'routines': [{'kind','target': arg|None,'name','ops':[{'o','n','a':[args], 't': offset|None}]}]}
    -> (infos, routine_ops, named_coroutines)"""
    infos, ops, coros = [], [], []
    opnames = {}
    for i, r in enumerate(s['routines']):
        k = r['kind']
        if k in ('actor', 'object', 'performer'):
            t = r['target']
            if t['k'] == 'const':
                infos.append(SsbRoutineInfo(RT[k], -1, t['v']))
            else:
                infos.append(SsbRoutineInfo(RT[k], t['v']))
        elif k == 'coro':
            infos.append(SsbRoutineInfo(RT[k], -1))
            coros.append(SsbCoroutine(i, r['name']))
        else:
            infos.append(SsbRoutineInfo(RT[k], 0))
        l = []
        for op in r['ops']:
            ps = [param_from(a) for a in op['a']]
            if op.get('t') is not None:
                ps.append(op['t'])
            c = opnames.setdefault(op['n'], len(opnames) + 1)
            l.append(SsbOperation(op['o'], SsbOpCode(c, op['n']), ps))
        ops.append(l)
    return infos, ops, coros


def set_facts(s):
    from .lang import canon
    res = []
    for r in s['routines']:
        l = []
        for op in r['ops']:
            p = [canon(a) for a in op['a']]
            if op.get('t') is not None:
                p.append('i:%d' % op['t'])
            l.append({'o': op['o'], 'n': op['n'], 'p': p})
        res.append(l)
    tab = []
    for r in s['routines']:
        tv = canon(r['target']) if r['kind'] in ('actor', 'object', 'performer') else ''
        tab.append([r['kind'], tv, r['name'] if r['kind'] == 'coro' else ''])
    return res, tab


def answer_facts(answer):
    try:
        text, sm = answer
        assert isinstance(text, str)
        return {'ok': True, 'text': text, 'sm': {str(o): [m.line, m.column] for o, m in sm}}
    except Exception as e:
        return {'ok': False, 'exc': 'NoTextAndMap', 'mro': ['NoTextAndMap'], 'msg': '%s: %s' % (type(answer).__name__, e), 'where': ''}


def decompile_set(s, secs=30):
    infos, ops, coros = build_set(s)
    try:
        with cpu_limit(secs):
            answer = ExplorerScriptSsbDecompiler(infos, ops, coros, PERF, dmc()).convert()
    except Hang:
        return {'ok': False, 'exc': 'HANG', 'mro': ['HANG'], 'msg': 'no answer', 'where': ''}
    except Exception as e:
        return exc_facts(e)
    return answer_facts(answer)


def decompile_set_ssbs(s, secs=30):
    infos, ops, coros = build_set(s)
    try:
        with cpu_limit(secs):
            answer = SsbScriptSsbDecompiler(infos, ops, coros).convert()
    except Hang:
        return {'ok': False, 'exc': 'HANG', 'mro': ['HANG'], 'msg': 'no answer', 'where': ''}
    except Exception as e:
        return exc_facts(e)
    return answer_facts(answer)


def compile_ssbs(text, secs=30, want=()):
    comp = SsbScriptSsbCompiler()
    try:
        with cpu_limit(secs):
            comp.compile(text)
    except Hang:
        return {'ok': False, 'exc': 'HANG', 'mro': ['HANG'], 'msg': 'no answer', 'where': ''}
    except Exception as e:
        return exc_facts(e)
    return compiled_facts(comp, want)
