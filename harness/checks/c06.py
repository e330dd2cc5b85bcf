"""C06: the decompiler always answers; its SsbScript fallback is marked and exact."""
import re
from .. import asm, decsets, real, ssbs
from ..pool import pmap
from . import c02

LEVEL = 'translation_validation'
TECHNIQUE = 'TLA+ assembler spec (TLC) comparing the recompiled fallback with the input op for op; routine sets enumerated by TLC (SetGen.tla)'
NOTE = ('The sets of C02 (TLC-enumerated small shapes, compiled programs, other layouts, random graphs). convert() has to return a text and a source map on '
        'every one. Each set is decompiled a second time with a routine appended that has no ExplorerScript spelling, so that the fallback is taken for every '
        'set; wherever it is taken the marker has to be the first line, and Assembler.tla decides whether the ops of the ExplorerScript compiler are the '
        'input ops: routine table, opcodes, parameters, targets.')
MARK = re.compile(r'//\?:\s*is-ssb-script:\s*true\s*$')
# spellings of control flow that only SsbScript has
ODD = [[('CaseText', [{'k': 'int', 'v': 1}, {'k': 'str', 'v': 'x'}]), ('Return', [])],
       [('lives', [{'k': 'int', 'v': 1}]), ('lives', [{'k': 'int', 'v': 2}]), ('Hold', []), ('End', [])],
       [('message_SwitchMonologue', [{'k': 'const', 'v': '$A'}]), ('DefaultText', [{'k': 'str', 'v': 'd'}]),
        ('CaseText', [{'k': 'int', 'v': 1}, {'k': 'str', 'v': 'x'}]), ('Hold', [])]]


def odd(s, k):
    """the set with one more routine that can't be decompiled to ExplorerScript"""
    o = max([op['o'] for r in s['routines'] for op in r['ops']], default=-1) + 1
    r = {'kind': '', 'target': None, 'name': '', 'ops': [{'o': o + i, 'n': n, 'a': a, 't': None} for i, (n, a) in enumerate(ODD[k])]}
    return dict(s, routines=s['routines'] + [r])


def make(arg):
    s = decsets.make(arg[0], arg[1], 'rich', oddops=False) if arg[0] not in ('graph', 'alone') else decsets.make(arg[0], arg[1], 'rich')
    return [] if s is None else case((list(arg), s, arg[1]))


def case(arg):
    how, s, k = arg
    out = [one(how, s, False)]
    if k % 2 == 0:
        out.append(one(how, odd(s, k // 2 % len(ODD)), True))
    return out


def one(how, s, forced):
    d = real.decompile_set(s, secs=20)
    res = {'how': how, 's': s, 'forced': forced, 'ok': d['ok'], 'd': d}
    if not d['ok']:
        return res
    first = d['text'].split('\n')[0].rstrip()
    res['fallback'] = bool(MARK.match(first))
    # SsbScript text without the marker
    res['unmarked'] = not res['fallback'] and 'is-ssb-script' in re.split(r'\b(?:def|coro)\b', d['text'])[0]
    if res['fallback'] or forced:
        res['c'] = real.compile_text(d['text'])
        if not res['fallback'] and not res['c']['ok']:
            res['unmarked'] = True
    return res


def judge(ctx, R):
    cases, by = [], {}
    for i, r in enumerate(R):
        if not r['ok']:
            bad(ctx, r, 'no answer', 'the decompiler does not answer: %s %s (%s)' % (r['d']['exc'], r['d']['msg'], r['d']['where']))
            continue
        if r['unmarked']:
            bad(ctx, r, 'marker', 'the text does not start with the marker line')
            continue
        if not r['fallback']:
            ctx.add('structured')
            continue
        ctx.add('fallbacks')
        if not r['c']['ok']:
            bad(ctx, r, 'rejected', 'the compiler rejects the fallback: %s %s' % (r['c']['exc'], r['c']['msg']))
            continue
        c = asm.same(str(i), r['c'], ssbs.facts(r['s']))
        cases.append(c)
        by[str(i)] = r
    v = asm.check(ctx, cases)
    for i in sorted(v, key=lambda i: len(str(by[i]['s']))):
        bad(ctx, by[i], 'exact', asm.describe(v[i]))


def bad(ctx, r, key, what):
    s = decsets.show(r['s'])
    ctx.violation('%s:%s' % (key, s), '%s\n%s\n%s' % (what, s, r['d'].get('text', '')), {'how': r['how'], 's': r['s'], 'forced': r['forced']})


def run(ctx):
    small = [(h, s, i) for i, (h, s) in enumerate(c02.sets(ctx))]
    small += [(['tower', k, 90], s, 0) for k in decsets.TOWERS for s in [decsets.tower(k, 90)] if s]
    R = [r for l in pmap(case, small) for r in l]
    ctx.add('small_sets', len(R))
    R2 = [r for l in pmap(make, c02.seeds(ctx)) for r in l]
    ctx.add('large_sets', len(R2))
    R += R2
    ctx.cov['explored'] = len(R)
    for r in R2[:3]:
        ctx.sample(decsets.show(r['s'])[:300] + '\n' + r['d'].get('text', '')[:300])
    judge(ctx, R)


def replay(data):
    from ..core import Ctx
    ctx = Ctx('C06', 'quick', 1, LEVEL)
    judge(ctx, [one(data['how'], data['s'], data['forced'])])
    for _, what, _ in ctx.bad:
        print(what)
    return bool(ctx.bad)
