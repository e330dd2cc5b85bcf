"""Generators of SSB routine sets (the decompilers' input), see real.build_set for the format.

Well-formed: offsets increase through the file, every jump targets an op of the set, control
never runs past the last op of a routine, no cycle of Jump ops only."""
import itertools
import random
from . import gen, lang, progs, real
from .lang import canon, uncanon

SWITCHES = {'Switch', 'SwitchScenario', 'SwitchRandom', 'SwitchScenarioLevel', 'SwitchDungeonMode', 'SwitchSector',
            'message_SwitchMenu', 'message_SwitchMenu2', 'ProcessSpecial', 'message_Menu', 'main_EnterAdventure',
            'main_EnterRescueUser', 'main_EnterTraining', 'main_EnterTraining2'}
CASES = {'Case', 'CaseMenu', 'CaseMenu2', 'CaseScenario', 'CaseValue', 'CaseVariable'}
CTX = {'lives', 'object', 'performer'}
FLOWEND = {'Return', 'End', 'Hold', 'JumpCommon', 'Destroy'}
JUMPS = real.JUMP_OPS


def compiled(text):
    r = real.compile_text(text)
    if not r['ok']:
        return None
    return from_facts(r['ops'], r['table'])


def from_facts(ops, table):
    rs = []
    for rr, (k, tv, nm) in zip(ops, table):
        l = []
        for o in rr:
            p = list(o['p'])
            t = None
            if o['n'] in JUMPS:
                t = int(p.pop()[2:])
            l.append({'o': o['o'], 'n': o['n'], 'a': [uncanon(x) for x in p], 't': t})
        rs.append({'kind': k, 'target': uncanon(tv) if tv else None, 'name': nm, 'ops': l})
    return {'routines': rs}


def renumber(s, rng=None, start=None):
    """offsets as a binary reader gives them: increasing through the file"""
    new, o = {}, (0 if start is None else start)
    for r in s['routines']:
        for op in r['ops']:
            new[op['o']] = o
            o += 1 if rng is None else rng.choice([1, 1, 2, 3])
    for r in s['routines']:
        for op in r['ops']:
            op['o'] = new[op['o']]
            if op['t'] is not None:
                op['t'] = new[op['t']]
    return s


def well_formed(s):
    idx, flat = {}, []
    for r in s['routines']:
        for i, op in enumerate(r['ops']):
            idx[op['o']] = len(flat)
            flat.append((op, i == len(r['ops']) - 1))
    starts, n = [], 0
    for r in s['routines']:
        if r['ops']:
            starts.append(n)
        n += len(r['ops'])
    last = -1
    for op, _ in flat:
        if op['o'] <= last:
            return False
        last = op['o']
        if (op['t'] is not None) != (op['n'] in JUMPS):
            return False
        if op['t'] is not None and op['t'] not in idx:
            return False
    for j in range(len(flat)):
        steps = 0
        while flat[j][0]['n'] == 'Jump':
            j = idx[flat[j][0]['t']]
            steps += 1
            if steps > len(flat):
                return False
    # reachable falls
    seen, todo = set(), list(starts)
    while todo:
        i = todo.pop()
        if i in seen:
            continue
        seen.add(i)
        op, lst = flat[i]
        ctx = i > 0 and flat[i - 1][0]['n'] in CTX and not flat[i - 1][1]
        if op['n'] == 'Jump':
            todo.append(idx[op['t']])
            continue
        if op['t'] is not None:
            todo.append(idx[op['t']])
        if op['n'] in FLOWEND and not ctx:
            continue
        if lst:
            return False
        todo.append(i + 1)
    return True


# ----------------------------------------------------------- layouts
def relayout(s, rng, p_jump_first=0.2):
    """same flow graph, other order of basic blocks"""
    o = 10000000
    for r in s['routines']:
        ops = r['ops']
        if len(ops) < 2:
            continue
        targets = {op['t'] for q in s['routines'] for op in q['ops'] if op['t'] is not None}
        blocks, cur = [], []
        for i, op in enumerate(ops):
            prev = ops[i - 1] if i else None
            glued = prev is not None and (prev['n'] in CTX or (op['n'] in CASES and (prev['n'] in CASES or prev['n'] in SWITCHES))
                                          or op['n'] in ('CaseText', 'DefaultText'))
            if cur and not glued and (op['o'] in targets or (prev['t'] is not None) or rng.random() < 0.15):
                blocks.append(cur)
                cur = []
            cur.append(op)
        blocks.append(cur)
        nxt = {id(b): (blocks[i + 1] if i + 1 < len(blocks) else None) for i, b in enumerate(blocks)}
        first, rest = blocks[0], blocks[1:]
        rng.shuffle(rest)
        order = [first] + rest
        if rng.random() < p_jump_first:
            k = rng.randint(0, len(rest))
            order = rest[:k] + [first] + rest[k:]
        out = []
        if order[0] is not first:
            out.append({'o': o, 'n': 'Jump', 'a': [], 't': first[0]['o']})
            o += 1
        for i, b in enumerate(order):
            out += b
            l = b[-1]
            ends = l['n'] == 'Jump' or (l['n'] in FLOWEND and not (len(b) > 1 and b[-2]['n'] in CTX))
            n = nxt[id(b)]
            if not ends and n is not None and (i + 1 >= len(order) or order[i + 1] is not n):
                out.append({'o': o, 'n': 'Jump', 'a': [], 't': n[0]['o']})
                o += 1
        r['ops'] = out
    return renumber(s, rng if rng.random() < 0.5 else None)


# ----------------------------------------------------------- random graphs
BR = [('BranchDebug', 1), ('Branch', 2), ('BranchValue', 3), ('BranchBit', 2), ('BranchScenarioNow', 3)]


def random_graph(rng, nr=None, n=None, alphabet=None):
    """ops with random jump targets"""
    I = lambda v: {'k': 'int', 'v': v}
    nr = nr or rng.choice([1, 1, 1, 2, 3])
    rs, allops, o = [], [], 0
    pj = rng.choice([0.1, 0.2, 0.3])
    pb = rng.choice([0.1, 0.25])
    calls = rng.random() < 0.15
    cross = rng.random() < 0.3
    for q in range(nr):
        m = n or rng.choice([2, 3, 4, 5, 6, 8, 10, 14])
        l = []
        while len(l) < m:
            k = rng.random()
            last = len(l) >= m - 1
            if last and rng.random() < 0.8:
                l.append({'o': o, 'n': rng.choice(['Return', 'End', 'Hold', 'Destroy']), 'a': [], 't': None})
            elif k < pj:
                l.append({'o': o, 'n': 'Jump', 'a': [], 't': -1})
            elif k < pj + pb:
                b = rng.random()
                if b < 0.75:
                    l.append({'o': o, 'n': 'Branch', 'a': [{'k': 'const', 'v': '$V'}, I(o)], 't': -1})
                elif b < 0.9 or not calls:
                    l.append({'o': o, 'n': 'BranchDebug', 'a': [I(rng.randint(0, 1))], 't': -1})
                else:
                    l.append({'o': o, 'n': 'Call', 'a': [], 't': -1})
            elif k < pj + pb + 0.08:
                l.append({'o': o, 'n': 'Switch', 'a': [{'k': 'const', 'v': '$S%d' % o}], 't': None})
                for _ in range(rng.randint(0, 3)):
                    o += 1
                    l.append({'o': o, 'n': 'Case', 'a': [I(o)], 't': -1})
            elif k < pj + pb + 0.12:
                l.append({'o': o, 'n': rng.choice(['Return', 'End']), 'a': [], 't': None})
            elif k < pj + pb + 0.16:
                l.append({'o': o, 'n': 'lives', 'a': [I(o)], 't': None})
                o += 1
                l.append({'o': o, 'n': 'op', 'a': [I(o)], 't': None})
            else:
                l.append({'o': o, 'n': 'op', 'a': [I(o)], 't': None})
            o += 1
        rs.append({'kind': '', 'target': None, 'name': '', 'ops': l})
    offs = [[op['o'] for op in r['ops']] for r in rs]
    for q, r in enumerate(rs):
        for i, op in enumerate(r['ops']):
            if op['t'] == -1:
                pool = offs[q] if not cross or rng.random() < 0.7 else [x for y in offs for x in y]
                if not pool:
                    return None
                # jumps forward are more common
                if rng.random() < 0.6:
                    fw = [x for x in pool if x > op['o']]
                    pool = fw or pool
                op['t'] = rng.choice(pool)
    s = {'routines': rs}
    return s if well_formed(s) and not stray_targets(s) else None


def stray_targets(s):
    """jumps into the middle of a context pair or of a case chain are not produced by any reader"""
    inner = set()
    for r in s['routines']:
        for i, op in enumerate(r['ops']):
            if i and (r['ops'][i - 1]['n'] in CTX or op['n'] in CASES):
                inner.add(op['o'])
    return any(op['t'] in inner for r in s['routines'] for op in r['ops'] if op['t'] is not None)


def small_graphs(n):
    """every one-routine set of n ops over {op, Jump, Branch, Return}"""
    I = lambda v: {'k': 'int', 'v': v}
    for names in itertools.product('oJBR', repeat=n):
        if names[-1] in 'oB':
            continue
        js = [i for i, x in enumerate(names) if x in 'JB']
        for ts in itertools.product(range(n), repeat=len(js)):
            l = []
            t = dict(zip(js, ts))
            for i, x in enumerate(names):
                if x == 'o':
                    l.append({'o': i, 'n': 'op', 'a': [I(i)], 't': None})
                elif x == 'R':
                    l.append({'o': i, 'n': 'Return', 'a': [], 't': None})
                elif x == 'J':
                    l.append({'o': i, 'n': 'Jump', 'a': [], 't': t[i]})
                else:
                    l.append({'o': i, 'n': 'Branch', 'a': [{'k': 'const', 'v': '$V'}, I(i)], 't': t[i]})
            s = {'routines': [{'kind': '', 'target': None, 'name': '', 'ops': l}]}
            if well_formed(s):
                yield s
