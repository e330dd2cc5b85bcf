"""C01: product automaton of the language specification and the SSB machine over compiled programs."""
from .. import equiv, flatten, forms, lang, progs, real

LEVEL = 'translation_validation'
TECHNIQUE = 'TLA+ product automaton (TLC): language-specification machine x SSB machine, per compiled program'
NOTE = ('For each generated program TLC explores every outcome of every test on the product of the specification machine of the '
        'source (ExpsMachine.tla) and the SSB machine of the emitted ops (SsbMachine.tla) and reports any difference in the '
        'operations or tests performed. Exhaustive per program; the programs are enumerated (surface forms, small programs) and '
        'sampled (larger ones). Trusted: our parser of the source text (lang.py), which follows docs/language_spec.rst, and TLC.')


def judge(ctx, results):
    pairs, by = [], {}
    for i, r in enumerate(results):
        ctx.add('programs')
        if not r['r']['ok']:
            ctx.add('rejected')
            ctx.cov.setdefault('rejected_by', {})
            k = '%s: %s' % (r['r']['exc'], (r['r']['msg'] or '')[:60])
            ctx.cov['rejected_by'][k] = ctx.cov['rejected_by'].get(k, 0) + 1
            continue
        p = equiv.Pair('%s-%d' % (r['tag'], i), r['src'], r['dst'], True, r)
        pairs.append(p)
        by[p.id] = p
    bad, div = equiv.check(ctx, pairs)
    ctx.add('disagreements_checked', len(pairs))
    ctx.add('with_op_free_cycles', len(div))
    # smallest first
    for i in sorted(bad, key=lambda i: len(by[i].info['text'])):
        v, p = bad[i][0], by[i]
        n = sum(1 for b in ctx.bad)
        ctx.violation('behaviour:' + p.info['text'], 'compiled program behaves differently (%s)\n%s' %
                      (equiv.describe(v), p.info['text']),
                      {'text': p.info['text'], 'verdict': v, 'trace': equiv.trace(p) if n < 2 else ''})
    for p in pairs[:2] + pairs[-2:]:
        ctx.sample({'program': p.info['text'][:400], 'ops': len(p.r['ops'])})


def run(ctx):
    cases = list(forms.forms())
    for size in (1, 2):
        cases += [('small%d' % size, p) for p in forms.small(size, 3)]
    cases += [('small3', p) for p in (forms.small(3, 3) if not ctx.quick else progs.sample_small(ctx.rng, 3, 3000, 3))]
    if ctx.quick:
        cases += [('small4', p) for p in progs.sample_small(ctx.rng, 4, 1500)]
    judge(ctx, progs.run_cases(cases))
    base = ctx.seed * 10000000
    judge(ctx, progs.run_seeds(base, ctx.n(3500, 40000)))
    if not ctx.quick:
        buf = []
        for p in forms.small(4, 2):
            buf.append(('small4', p))
            if len(buf) == 12000:
                judge(ctx, progs.run_cases(buf))
                buf = []
        judge(ctx, progs.run_cases(buf))
    ctx.cov['generators'] = ('every surface form once (conditions x operators x polarity x construct, assignments, switch x case headers, '
                             'contexts, routine kinds); all one-routine programs of <= 3 statements (sampled at 4 in quick, all at 4 in '
                             'thorough); random programs of 1-3 routines with labels, jumps, calls, nesting')


def replay(d):
    r = progs.compile_case(('replay', lang.parse(d['text'])))
    if not r['r']['ok']:
        print('rejected:', r['r'])
        return False
    p = equiv.Pair('replay', r['src'], r['dst'])
    print(d['text'])
    for i, o in enumerate(r['dst']['ops']):
        print('%4d %s %s -> %s' % (i + 1, o['n'], o['p'], o['t']))
    t = equiv.trace(p)
    print(t)
    from ..core import Ctx
    bad, _ = equiv.check(Ctx('C01', 'quick', 0, LEVEL), [p])
    return bool(bad)
