"""Routine sets as a binary reader delivers them, for the checks of the decompilers."""
import random
from . import lang, params, progs, setgen, tlc

KINDS = ('flat', 'comp', 'lay', 'graph')


def rich(s, rng, p=0.5):
    """plain operations get parameters of every type, multi-line strings among them"""
    for r in s['routines']:
        for op in r['ops']:
            for i, a in enumerate(op['a']):
                if a['k'] in ('str', 'lang') and rng.random() < p:
                    op['a'][i] = {'k': 'str', 'v': params.string(rng)} if a['k'] == 'str' else params.lang(rng)
            if op['n'] in ('op', 'back_SetGround', 'Wait') and rng.random() < p / 2:
                op['a'] = op['a'] + [params.param(rng) for _ in range(rng.choice([1, 1, 2]))]
    return s


def make(kind, seed, strings='simple', **over):
    """-> routine set or None if there is none for that seed"""
    rng = random.Random('%s%d' % (kind, seed))
    if kind == 'graph':
        s = setgen.random_graph(rng)
    elif kind == 'alone':
        s = setgen.random_graph(rng, nr=1)
    else:
        o = {'labels': False, 'jumps': False, 'calls': False} if kind == 'flat' else {}
        f = progs.random_program(seed, strings='simple', terminate=True, **dict(o, **over))
        s = setgen.compiled(lang.render(f))
        if s is None:
            return None
        s = setgen.renumber(s, rng)
        if kind == 'lay':
            s = setgen.relayout(s, rng)
    if s is None:
        return None
    if strings == 'rich':
        rich(s, rng)
    return s if setgen.well_formed(s) else None


I = lambda v: {'k': 'int', 'v': v}
C = lambda v: {'k': 'const', 'v': v}
PARAMS = {
    'op': lambda i: [I(i)], 'lives': lambda i: [I(i)], 'Branch': lambda i: [C('$V'), I(i)], 'Switch': lambda i: [C('$S%d' % i)],
    'Case': lambda i: [I(i)], 'message_SwitchTalk': lambda i: [I(i)], 'CaseText': lambda i: [I(i), {'k': 'str', 'v': 'a'}],
    'DefaultText': lambda i: [{'k': 'str', 'v': 'd'}], 'BranchBit': lambda i: [C('$V'), I(i)], 'CaseValue': lambda i: [I(2), I(i)],
    'SwitchRandom': lambda i: [I(i)], 'flag_Clear': lambda i: [C('$C%d' % i)], 'Destroy': lambda i: []}


def shaped(sizes, names):
    """all well-formed sets with routines of these sizes over these opcodes (SetGen.tla)
    -> (sets, number of sets enumerated, disagreements about well-formedness)"""
    r = tlc.tlc('SetGen', {'sizes': list(sizes), 'names': list(names)}, workers=1)
    out, wrong = [], []
    for v in r.verdicts:
        ops = [{'o': i, 'n': n, 'a': PARAMS.get(n, lambda i: [])(i), 't': t - 1 if t else None} for i, (n, t) in enumerate(v['o'])]
        s = {'routines': [], 'n': 0}
        i = 0
        for k in sizes:
            s['routines'].append({'kind': '', 'target': None, 'name': '', 'ops': ops[i:i + k]})
            i += k
        if setgen.well_formed(s) != v['w']:
            wrong.append(s)
        if v['w']:
            out.append(s)
    return out, len(r.verdicts), wrong



TOWERS = 'line ifs elif nest nestelse sw swfall swnest loops loopnest or rets retelse brk cont jumps calls'.split()


def tower(kind, n):
    """n times the same construct, in a row or nested"""
    if kind=='line': b=''.join('op(%d);'%i for i in range(n))
    if kind=='ifs': b=''.join('if ($V == %d) { op(%d); }'%(i,i) for i in range(n))
    if kind=='elif': b='if ($V == 0) { op(0); }'+''.join(' elseif ($V == %d) { op(%d); }'%(i,i) for i in range(1,n))+'else{op(9999);}'
    if kind=='nest': b=''.join('if ($V == %d) { op(%d);'%(i,i) for i in range(n))+'}'*n
    if kind=='nestelse': b=''.join('if ($V == %d) { op(%d);}else{op(1);'%(i,i) for i in range(n))+'}'*n
    if kind=='sw': b='switch ($V) {'+''.join('case %d: op(%d); break;'%(i,i) for i in range(n))+'}'
    if kind=='swfall': b='switch ($V) {'+''.join('case %d: op(%d);'%(i,i) for i in range(n))+'}'
    if kind=='swnest': b=''.join('switch ($V) {case %d: op(%d); '%(i,i) for i in range(n))+'break;}'*n
    if kind=='loops': b=''.join('while ($V == %d) { op(%d); }'%(i,i) for i in range(n))
    if kind=='loopnest': b=''.join('while ($V == %d) { op(%d); '%(i,i) for i in range(n))+'}'*n
    if kind=='or': b='if ('+'||'.join('$V == %d'%i for i in range(n))+') {op(1);}'
    if kind=='rets': b=''.join('if ($V == %d) { op(%d); return; }'%(i,i) for i in range(n))
    if kind=='retelse': b=''.join('if ($V == %d) { op(%d); return; } else { op(0); }'%(i,i) for i in range(n))
    if kind=='brk': b='forever {'+''.join('if ($V == %d) { op(%d); break_loop; }'%(i,i) for i in range(n))+'}'
    if kind=='cont': b='forever {'+''.join('if ($V == %d) { op(%d); continue; }'%(i,i) for i in range(n))+'}'
    if kind=='jumps': b=''.join('@l%d; op(%d); if ($V == %d) { jump @l%d; }'%(i,i,i,(i*7+3)%n) for i in range(n))
    if kind=='calls': b=''.join('@l%d; op(%d); call @l%d; '%(i,i,(i*7+3)%n) for i in range(n))
    s = setgen.compiled('def 0 {' + b + 'end;}')
    return setgen.renumber(s) if s else None


def show(s):
    out = []
    for r in s['routines']:
        out.append('  -- %s %s %s' % (r['kind'], r['target'] or '', r['name']))
        for o in r['ops']:
            out.append('  %d %s %s%s' % (o['o'], o['n'], [lang.canon(x) for x in o['a']], ' -> %d' % o['t'] if o['t'] is not None else ''))
    return '\n'.join(out)


def parse(text):
    """the same as text: one op a line, offset name parameters -> target; a line of -- between routines"""
    rs = [{'kind': '', 'target': None, 'name': '', 'ops': []}]
    for l in text.strip().split('\n'):
        if l.strip().startswith('--'):
            rs.append({'kind': '', 'target': None, 'name': '', 'ops': []})
            continue
        h, _, t = l.partition('->')
        p = h.split()
        rs[-1]['ops'].append({'o': int(p[0]), 'n': p[1], 'a': [lang.uncanon(x) for x in p[2:]], 't': int(t) if t.strip() else None})
    return {'routines': rs}


# scripts whose Jump ops are printed as statements of their own
JUMPS = [parse(x) for x in ('''0 op
1 Branch c:$V i:1 -> 4
2 op
3 Jump -> 0
4 End''', '''0 op
1 op2
2 Branch c:$V i:1 -> 6
3 Branch c:$V i:2 -> 8
4 op3
5 Jump -> 1
6 op4
7 Jump -> 11
8 op5
9 Jump -> 11
11 op6
12 End''', '''0 Branch c:$V i:1 -> 4
1 op
2 Jump -> 7
4 Branch c:$V i:2 -> 7
5 op2
6 End
7 op3
8 End''', '''0 op
1 Jump -> 3
--
2 op
3 op
4 End''', '''0 op
1 op2
2 Branch c:$V i:1 -> 8
4 op3
5 End
8 op5
9 Jump -> 1''')]
