"""Systematic small programs: every surface form of the language once, and all small shapes.

Yields (tag, AST)."""
import itertools
from .gen import I, C, S, op, st, PERF
from .lang import OPS, ASG

CONDS = []


def _conds():
    V = [C('$SCENARIO_MAIN'), C('VAR_A'), I(7)]
    for v in V:
        for o in OPS:
            for isv, val in ((False, I(3)), (False, C('CONST_A')), (True, C('$LOCAL_VAR')), (True, I(2))):
                yield {'k': 'op', 'var': v, 'op': o, 'isv': isv, 'val': val}
    for v, negs in ((C('$SCENARIO_MAIN'), (False,)), (I(5), (False,)), (C(PERF), (False, True))):
        for n in negs:
            for i in (0, 1, 31):
                yield {'k': 'bit', 'neg': n, 'var': v, 'idx': i}
    for w in ('debug', 'edit', 'variation'):
        for n in (False, True):
            yield {'k': 'neg', 'neg': n, 'w': w}
    for v in (C('$SCENARIO_MAIN'), I(3)):
        for o in ('==', '<', '>', '<=', '>='):
            yield {'k': 'scn', 'var': v, 'op': o, 'a': 12, 'b': 3}
    for o in (op('BranchSum', C('$X'), I(2), I(3)), op('BranchExecuteSub', I(2)), op('BranchVariation', I(1)),
              op('Branch', C('$X'), I(2)), op('BranchDebug', I(0)), op('BranchBit', C('$X'), I(2)),
              op('BranchEdit', I(1)), op('BranchPerformance', I(4), I(1)), op('BranchScenarioNow', C('$X'), I(1), I(2)),
              op('BranchScenarioNowAfter', C('$X'), I(1), I(2)), op('BranchScenarioNowBefore', C('$X'), I(1), I(2)),
              op('BranchScenarioAfter', C('$X'), I(1), I(2)), op('BranchScenarioBefore', C('$X'), I(1), I(2)),
              op('BranchValue', C('$X'), I(3), I(2)), op('BranchVariable', C('$X'), I(3), C('$Y'))):
        yield {'k': 'operation', 'op': o}


def _asgs():
    a = {'k': 'asg'}
    for v in (C('$SCENARIO_MAIN'), I(7)):
        for o in ASG:
            for isv, val in ((False, I(3)), (False, C('CONST_A')), (True, C('$LOCAL_VAR')), (True, I(2))):
                yield dict(a, f='reg', var=v, idx=None, op=o, isv=isv, val=val)
        for idx in (0, 9):
            for val in (I(0), I(1), C('K')):
                yield dict(a, f='reg', var=v, idx=idx, op='=', isv=False, val=val)
        for k in ('clear', 'init', 'resetscn'):
            yield dict(a, f=k, var=v)
        yield dict(a, f='scn', var=v, a=4, b=6)
        for val in (I(0), I(1), I(2), I(3), C('DMODE_OPEN'), C('OTHER')):
            yield dict(a, f='dmode', var=v, val=val)
    for val in (I(0), I(1)):
        yield dict(a, f='reg', var=C(PERF), idx=4, op='=', isv=False, val=val)
    yield dict(a, f='resetdr')
    yield dict(a, f='advlog', val=I(3))
    yield dict(a, f='advlog', val=C('LOG'))


def _switch_headers():
    yield {'k': 'var', 'v': C('$X')}
    yield {'k': 'var', 'v': I(3)}
    for i in (0, 1):
        yield {'k': 'scn', 'v': C('$X'), 'i': i}
    for k in ('random', 'dmode'):
        for v in (I(3), C('K')):
            yield {'k': k, 'v': v}
    yield {'k': 'sector'}
    for n in ('message_SwitchMenu', 'message_SwitchMenu2', 'ProcessSpecial', 'message_Menu', 'main_EnterAdventure',
              'main_EnterRescueUser', 'main_EnterTraining', 'main_EnterTraining2'):
        yield {'k': 'operation', 'op': op(n, I(3), C('K'))}


def _case_headers(menu):
    if menu:
        yield {'k': 'menu', 'v': S('text')}
        yield {'k': 'menu', 'v': {'k': 'lang', 'v': [('english', 'a'), ('french', 'b')]}}
        yield {'k': 'menu2', 'v': C('K')}
        yield {'k': 'menu2', 'v': I(4)}
        return
    for v in (I(4), C('K')):
        yield {'k': 'val', 'v': v}
    for o in OPS:
        yield {'k': 'op', 'op': o, 'isv': False, 'v': I(4)}
        yield {'k': 'op', 'op': o, 'isv': True, 'v': C('$Y')}


def prog(*bodies, targets=None):
    f = {'imports': [], 'macros': [], 'routines': []}
    for i, b in enumerate(bodies):
        f['routines'].append({'k': 'def', 'id': i, 'target': targets[i] if targets else None, 'alias': b is None,
                              'body': b or []})
    return f


def forms():
    """every condition, assignment, header, context, routine kind"""
    A, B, Z = op('op_a', I(1)), op('op_b', I(2)), op('op_z', I(3))
    for i, c in enumerate(_conds()):
        neg = i % 2 == 1
        yield 'cond-if', prog([st('if', arms=[{'neg': False, 'conds': [c], 'body': [A]}], els=None), Z, st('end')])
        yield 'cond-ifnot', prog([st('if', arms=[{'neg': True, 'conds': [c], 'body': [A]}], els=[B]), Z, st('hold')])
        yield 'cond-while', prog([st('while', neg=neg, cond=c, body=[A]), Z, st('return')])
        yield 'cond-elseif', prog([st('if', arms=[{'neg': neg, 'conds': [{'k': 'neg', 'neg': False, 'w': 'edit'}], 'body': [A]},
                                                  {'neg': not neg, 'conds': [c], 'body': [B]}], els=None), Z])
        yield 'cond-or', prog([st('if', arms=[{'neg': neg, 'conds': [c, {'k': 'neg', 'neg': True, 'w': 'debug'}, c], 'body': [A]}],
                                  els=[B] if neg else None)])
        yield 'cond-for', prog([st('for', init=A, cond=c, inc=B, body=[Z])])
    for a in _asgs():
        yield 'asg', prog([a, Z, st('end')])
        yield 'asg-with', prog([st('with', ctx=('actor', C('ACTOR_PLAYER')), body=[a]), Z])
    for c in ('actor', 'object', 'performer'):
        for v in (C('WHO'), I(3)):
            for s in (A, st('end'), st('return'), st('hold'), op('Destroy'), op('JumpCommon', I(3))):
                yield 'with', prog([st('with', ctx=(c, v), body=[s]), Z, st('end')])
            yield 'ctx', prog([op('op_a', I(1), ctx=(c, v)), Z])
            yield 'target', prog([Z, st('end')], None, [A], targets=[(c, v), None, (c, I(9))])
    yield 'coro', {'imports': [], 'macros': [], 'routines': [
        {'k': 'coro', 'name': 'CORO_A', 'alias': False, 'body': [A]},
        {'k': 'coro', 'name': 'CORO_B', 'alias': True, 'body': []},
        {'k': 'coro', 'name': 'CORO_C', 'alias': False, 'body': [Z, st('end')]}]}
    for h in _switch_headers():
        menu = h['k'] == 'operation' and 'SwitchMenu' in h['op']['name']
        for ch in _case_headers(menu):
            yield 'switch', prog([st('switch', h=h, cases=[{'h': ch, 'body': [A]}, {'h': None, 'body': [B]}]), Z, st('end')])
        chs = list(_case_headers(menu))
        c1, c2, c3 = chs[0], chs[1], chs[-1]
        yield 'switch', prog([st('switch', h=h, cases=[]), Z])
        yield 'switch', prog([st('switch', h=h, cases=[{'h': None, 'body': [B]}, {'h': c1, 'body': [A, st('break')]},
                                                       {'h': c2, 'body': []}, {'h': c3, 'body': [B]}]), Z])
        yield 'switch', prog([st('switch', h=h, cases=[{'h': c1, 'body': [A]}, {'h': c2, 'body': [st('break')]},
                                                       {'h': c3, 'body': [B]}])])
    for n in ('message_SwitchTalk', 'message_SwitchMonologue'):
        for cs in ([], [(0, 'a')], [(None, 'd')], [(0, 'a'), (C('K'), 'b'), (None, 'd')], [(None, 'd'), (1, 'a')]):
            yield 'msgsw', prog([st('msgsw', name=n, arg=C('$X'), cases=[
                {'h': None if v is None else {'k': 'val', 'v': I(v) if isinstance(v, int) else v}, 'body': [], 's': S(t)} for v, t in cs]), Z])


# --------------------------------------------------------------- small shapes
def shapes(size, loop=False, case=False, labels=('x',), depth=2):
    """statement lists of exactly `size` nodes (labels not counted), as thunks free of identity:
    every leaf op gets its number later (number())"""
    if size == 0:
        yield []
        return
    for k in range(1, size + 1):
        for s in stmt_shapes(k, loop, case, labels, depth):
            for rest in shapes(size - k, loop, case, labels, depth):
                yield [s] + rest


def stmt_shapes(k, loop, case, labels, depth):
    if k == 1:
        yield ('op',)
        for w in ('return', 'jump', 'label', 'call'):
            yield (w,)
        if loop:
            yield ('continue',)
            yield ('break_loop',)
        if case:
            yield ('break',)
    if depth == 0:
        return
    d = depth - 1
    if k >= 1:
        # k-1 nodes distributed over the bodies
        for b in shapes(k - 1, loop, case, labels, d):
            yield ('if', False, b, None, None)
            yield ('if', True, b, None, None)
        for i in range(0, k):
            for b in shapes(i, loop, case, labels, d):
                for e in shapes(k - 1 - i, loop, case, labels, d):
                    yield ('if', False, b, None, e)
                    yield ('if', True, b, None, e)
        for b in shapes(k - 1, True, case, labels, d):
            yield ('while', False, b)
            yield ('while', True, b)
            if b:
                yield ('forever', b)
        for i in range(0, k):
            for b in shapes(i, loop, True, labels, d):
                for e in shapes(k - 1 - i, loop, True, labels, d):
                    if e:
                        yield ('switch', b, e)
                        yield ('switchd', b, e)
                    if b and e:
                        yield ('switchdf', b, e)


def number(shape, cnt=None):
    cnt = cnt or [0]
    out = []
    for s in shape:
        w = s[0]
        cnt[0] += 1
        n = cnt[0]
        if w == 'op':
            out.append(op('op', I(n)))
        elif w in ('return', 'continue', 'break_loop', 'break'):
            out.append(st(w))
        elif w in ('jump', 'call', 'label'):
            out.append(st(w, name='x'))
        elif w == 'if':
            c = {'k': 'op', 'var': C('$V'), 'op': '==', 'isv': False, 'val': I(n)}
            b = number(s[2], cnt)
            e = number(s[4], cnt) if s[4] is not None else None
            out.append(st('if', arms=[{'neg': s[1], 'conds': [c], 'body': b}], els=e))
        elif w == 'while':
            c = {'k': 'op', 'var': C('$V'), 'op': '==', 'isv': False, 'val': I(n)}
            b = number(s[2], cnt)
            out.append(st('while', neg=s[1], cond=c, body=b))
        elif w == 'forever':
            b = number(s[1], cnt)
            out.append(st('forever', body=b))
        else:
            b, e = number(s[1], cnt), number(s[2], cnt)
            h1 = {'k': 'val', 'v': I(1)}
            h2 = {'k': 'val', 'v': I(2)}
            cs = [{'h': h1, 'body': b}, {'h': h2, 'body': e}]
            if w == 'switchd':
                cs = [{'h': h1, 'body': b}, {'h': None, 'body': e}]
            if w == 'switchdf':
                cs = [{'h': None, 'body': b}, {'h': h1, 'body': e}]
            out.append(st('switch', h={'k': 'var', 'v': C('$S%d' % n)}, cases=cs))
    return out


def _count(b, w):
    n = 0
    for s in b:
        n += s['k'] == w
        for k in ('body',):
            if k in s:
                n += _count(s[k], w)
        for a in s.get('arms', ()):
            n += _count(a.get('body', ()), w)
        if s.get('els'):
            n += _count(s['els'], w)
        for c in s.get('cases', ()):
            n += _count(c['body'], w)
    return n


def small(size, depth=2):
    """all programs of one routine of that size (plus the label its jumps need)"""
    for sh in shapes(size, depth=depth):
        b = number(sh)
        d, u = _count(b, 'label'), _count(b, 'jump') + _count(b, 'call')
        if d > 1 or (u and not d) or (d and not u):
            continue
        yield prog(b)
