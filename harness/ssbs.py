"""Arbitrary SSB routine sets (not only well-formed ones) and an own writer of SsbScript text."""
from . import lang, params, real, setgen

# documented number of parameters in front of the jump parameter
ARITY = {'Jump': 0, 'Call': 0, 'Case': 1, 'CaseMenu': 1, 'CaseMenu2': 1, 'CaseScenario': 2, 'CaseValue': 2, 'CaseVariable': 2, 'Branch': 2,
         'BranchBit': 2, 'BranchDebug': 1, 'BranchEdit': 1, 'BranchExecuteSub': 1, 'BranchPerformance': 2, 'BranchScenarioNow': 3,
         'BranchScenarioNowAfter': 3, 'BranchScenarioNowBefore': 3, 'BranchScenarioAfter': 3, 'BranchScenarioBefore': 3, 'BranchSum': 3,
         'BranchValue': 3, 'BranchVariable': 3, 'BranchVariation': 1}
PLAIN = ['op', 'back_SetGround', 'Return', 'End', 'Hold', 'Destroy', 'JumpCommon', 'Switch', 'SwitchMenu', 'message_SwitchTalk', 'CaseText',
         'DefaultText', 'message_SwitchMenu', 'lives', 'object', 'performer', 'flag_Set', 'Null', 'Wait', 'debug_Print', 'ProcessSpecial',
         # names that look like something of the ExplorerScript language
         'if', 'else', 'elseif', 'forever', 'while', 'with', 'switch', 'case', 'default', 'break', 'continue', 'break_loop', 'return', 'end',
         'hold', 'jump', 'call', 'macro', 'import', 'not', 'clear', 'init', 'reset', 'dungeon_mode', 'scn', 'menu', 'menu2', 'random',
         'sector', 'value', 'debug', 'edit', 'variation', 'actor', 'x', 'X9_', '_u', 'A_b_C', 'position', 'Positions', 'defx', 'Label']


def random_set(rng, wild=True, plain=PLAIN):
    nr = rng.choice([1, 1, 2, 3, 4, 6])
    rs, o = [], rng.choice([0, 0, 1, 7, 300])
    step = rng.choice([[1], [1, 2, 3], [4]])
    small = rng.random() < 0.5
    for i in range(nr):
        kind = rng.choice(['', '', '', 'actor', 'object', 'performer', 'coro'])
        r = {'kind': kind, 'target': None, 'name': '', 'ops': []}
        if kind == 'coro':
            r['name'] = rng.choice(['CORO_EVENT%d', 'c%d', 'X_%d']) % i
        elif kind:
            r['target'] = rng.choice([{'k': 'int', 'v': rng.choice([0, 1, 5, 300])}, {'k': 'const', 'v': rng.choice(params.CONSTS[:6])}])
        n = 0 if rng.random() < 0.15 else rng.choice([1, 2, 3, 5] if small else [1, 3, 6, 10, 16])
        for _ in range(n):
            if rng.random() < 0.4:
                name = rng.choice(sorted(ARITY)) if rng.random() < 0.6 else 'Jump'
                a = [params.param(rng, wild) for _ in range(ARITY[name])]
                r['ops'].append({'o': o, 'n': name, 'a': a, 't': -1})
            else:
                a = [params.param(rng, wild) for _ in range(rng.choice([0, 0, 1, 1, 2, 3, 5]))]
                r['ops'].append({'o': o, 'n': rng.choice(plain), 'a': a, 't': None})
            o += rng.choice(step)
        rs.append(r)
    offs = [op['o'] for r in rs for op in r['ops']]
    for r in rs:
        here = [op['o'] for op in r['ops']]
        for op in r['ops']:
            if op['t'] == -1:
                op['t'] = rng.choice(here if rng.random() < 0.6 else offs)
    return {'routines': rs}


def chain_sets():
    """small exhaustive shapes: two routines of <= 2 ops over {op, Jump, Branch} with every choice of targets, empty ones included"""
    import itertools
    for n1, n2 in itertools.product(range(3), repeat=2):
        n = n1 + n2
        for names in itertools.product('oJB', repeat=n):
            js = [i for i in range(n) if names[i] != 'o']
            for ts in itertools.product(range(n), repeat=len(js)):
                t = dict(zip(js, ts))
                ops = [{'o': i, 'n': {'o': 'op', 'J': 'Jump', 'B': 'BranchVariation'}[x], 't': t.get(i),
                        'a': [] if x == 'J' else [{'k': 'int', 'v': i}]} for i, x in enumerate(names)]
                yield {'routines': [{'kind': '', 'target': None, 'name': '', 'ops': ops[:n1]},
                                    {'kind': 'coro', 'target': None, 'name': 'C', 'ops': ops[n1:]}]}


def facts(s):
    ops, tab = real.set_facts(s)
    return {'ops': ops, 'ninfo': len(ops), 'ncoro': len(ops), 'table': tab}


def write(s, rng):
    """SsbScript text of a set: labels anywhere they may stand, odd layout"""
    names, out = {}, []
    tg = {op['t'] for r in s['routines'] for op in r['ops'] if op['t'] is not None}
    for t in sorted(tg):
        names[t] = ['%s_%d' % (rng.choice(['l', 'label', 'L', 'jump']), t)]
        if rng.random() < 0.3:
            names[t].append('second_%d' % t)
    sp = lang.Sp()
    for i, r in enumerate(s['routines']):
        ts = []
        if r['kind'] == 'coro':
            ts += ['coro', r['name']]
        else:
            ts += ['def', str(i)]
            if r['kind']:
                t = r['target']
                v = str(t['v'])
                ts += ['for_' + r['kind'], '(', v, ')'] if rng.random() < 0.3 else ['for', r['kind'], v]
        ts.append('{')
        if not r['ops']:
            ts += ['alias', 'previous', ';']
        for op in r['ops']:
            for l in names.get(op['o'], []):
                ts += [rng.choice('@§') + l, ';']
            args = []
            for a in op['a']:
                R = lang.Renderer(sp)
                R.arg(a)
                args.append(' '.join(x[0] for x in R.o))
            if op['t'] is not None:
                args.append('@' + rng.choice(names[op['t']]))
            ts += [op['n'], '(', ', '.join(args) + (',' if args and rng.random() < 0.2 else ''), ')', ';']
        ts.append('}')
        out.append(rng.choice([' ', '\n', ' \n\t', ' /* c; */ ']).join(ts))
    return '\n'.join(out) + '\n'
