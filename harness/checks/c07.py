"""C07: SsbScript printed for a routine set compiles back to the same routine set."""
import random
from .. import asm, real, setgen, ssbs
from ..pool import pmap

LEVEL = 'translation_validation'
TECHNIQUE = 'TLA+ assembler machines in lockstep (TLC) over routine sets and their recompiled SsbScript'
NOTE = ('Two assemblers of Assembler.tla run in lockstep over the routine set and over what the compiler makes of its SsbScript decompilation '
        '(TLC): tables, ops, parameters and jump targets must agree op for op. Sets: all pairs of routines with up to 2 ops each over '
        '{op, Jump, Branch} with every choice of targets (empty routines included), random sets of any shape (unreachable ops, jumps between '
        'routines, coroutines, opcodes named like anything), graphs and compiled programs. Exhaustive per set; sets beyond the small ones are sampled.')
KEYWORDS = ['coro', 'def', 'for_actor', 'for_object', 'for_performer', 'alias', 'for', 'previous', 'Position']


def case(a):
    tag, s = a
    f = ssbs.facts(s)
    d = real.decompile_set_ssbs(s)
    res = {'tag': tag, 'set': s, 'in': f}
    if not d['ok']:
        return dict(res, fail='decompiler: %s: %s' % (d['exc'], d['msg']))
    res['text'] = d['text']
    r = real.compile_ssbs(d['text'])
    if not r['ok']:
        return dict(res, fail='recompiling: %s: %s' % (r['exc'], r['msg'][:200]))
    res['r'] = r
    return res


def seed_case(a):
    seed, kind = a
    rng = random.Random(seed)
    if kind == 'graph':
        s = None
        while s is None:
            s = setgen.random_graph(rng)
    else:
        s = ssbs.random_set(rng)
    return case((kind, s))


def judge(ctx, results):
    cases, by = [], {}
    for i, r in enumerate(results):
        ctx.add('sets')
        if 'fail' in r:
            key = r['tag'] if r['tag'].startswith('keyword-opcode:') else 'fail:%s' % setkey(r['set'])
            ctx.violation(key, 'no round trip (%s)\n%s' % (r['fail'], r.get('text', r['set'])), {'set': r['set'], 'tag': r['tag']})
            continue
        id = '%s-%d' % (r['tag'], i)
        by[id] = r
        cases.append(asm.same(id, r['r'], r['in']))
    bad = asm.check(ctx, cases)
    for i in sorted(bad, key=lambda i: len(by[i]['text'])):
        r = by[i]
        key = r['tag'] if r['tag'].startswith('keyword-opcode:') else 'differs:%s' % setkey(r['set'])
        ctx.violation(key, 'recompiled SsbScript differs: %s\n%s' % (asm.describe(bad[i]), r['text']),
                      {'set': r['set'], 'tag': r['tag'], 'verdict': bad[i]})
    for r in results[:1] + results[-1:]:
        ctx.sample({'tag': r['tag'], 'text': r.get('text', '')[:500]})


def setkey(s):
    import hashlib
    import json
    return hashlib.sha256(json.dumps(s, sort_keys=True).encode()).hexdigest()[:16]


def keyword_sets():
    for k in KEYWORDS:
        yield ('keyword-opcode:' + k, {'routines': [{'kind': '', 'target': None, 'name': '', 'ops': [
            {'o': 0, 'n': k, 'a': [{'k': 'int', 'v': 1}], 't': None}, {'o': 1, 'n': 'End', 'a': [], 't': None}]}]})


def run(ctx):
    judge(ctx, pmap(case, list(keyword_sets()) + [('pair', s) for s in ssbs.chain_sets()]))
    b = ctx.seed * 30000000
    for kind, n in (('random', ctx.n(4000, 60000)), ('graph', ctx.n(500, 10000))):
        for i in range(0, n, 5000):
            judge(ctx, pmap(seed_case, [(b + i + j, kind) for j in range(min(5000, n - i))]))
    ctx.cov['generators'] = 'all two-routine sets with <= 2 ops per routine; random sets; random flow graphs'


def replay(d):
    from ..core import Ctx
    r = case((d['tag'], d['set']))
    print(r.get('text'))
    if 'fail' in r:
        print(r['fail'])
        return True
    bad = asm.check(Ctx('C07', 'quick', 0, LEVEL), [asm.same('x', r['r'], r['in'])])
    for v in bad.values():
        print(asm.describe(v))
    return bool(bad)
