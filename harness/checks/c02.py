"""C02: the text of the decompiler does what the input routines do."""
from .. import decsets, equiv, flatten, lang, norm, real
from ..equiv import Pair
from ..pool import pmap

LEVEL = 'translation_validation'
TECHNIQUE = 'TLA+ product automaton (TLC) of the input ops with the machine of the decompiled text and with the recompiled ops'
NOTE = ('SetGen.tla enumerates routine sets of small shapes over several opcode alphabets and says which are well-formed; further sets: small graphs, '
        'compiled random programs, other layouts of them, random graphs. Every text the decompiler writes is read back by an independent parser; '
        'TLC runs its source-language machine, and the ops the compiler makes of it, in lockstep with the input ops over every outcome of every test, '
        'comparing operations, tests, parameters and the routine table. SsbScript output (fallback) is compared after compiling it.')

SHAPES = [((3,), 'op Jump Branch Return'), ((4,), 'op Jump Branch Return'), ((2, 2), 'op Jump Branch Call Return'),
          ((1, 3), 'op Jump Branch Call Return'), ((3, 1), 'op Jump Branch Call Return'), ((4,), 'op lives Jump Branch Hold'),
          ((4,), 'op message_SwitchTalk CaseText DefaultText Branch Return'), ((4,), 'op Jump Branch Switch Case Return')]
DEEP = [((1, 1, 2), 'op Jump Branch Return'), ((2, 3), 'op Jump Branch Return'), ((3, 2), 'op Jump Call Branch End'), ((4,), 'op Jump Call Branch Return'),
        ((4,), 'flag_Clear lives Jump BranchBit Destroy'), ((4,), 'op SwitchRandom CaseValue Jump Hold'),
        ((5,), 'op Jump Branch Return')]


def sets(ctx):
    """-> [(how, set)], seeds"""
    out = []
    for sizes, names in SHAPES + ([] if ctx.quick else DEEP):
        ss, n, wrong = decsets.shaped(sizes, names.split())
        ctx.add('sets_enumerated', n)
        if wrong:
            raise RuntimeError('the generator and SetGen.tla disagree about\n' + decsets.show(wrong[0]))
        k = ctx.n(2600, 60000)
        if len(ss) > k:
            ss = ctx.rng.sample(ss, k)
        out += [(['shape', list(sizes), names], s) for s in ss]
    for kind in decsets.TOWERS:
        for n in ctx.n([7, 23], [7, 23, 48]):
            out.append((['tower', kind, n], decsets.tower(kind, n)))
    return [x for x in out if x[1]]


def seeds(ctx, scale=1):
    o = ctx.seed * 100000
    q = {'comp': (700, 12000), 'lay': (700, 12000), 'flat': (200, 3000), 'graph': (1200, 24000), 'alone': (400, 8000)}
    return [(k, o + i) for k, (a, b) in q.items() for i in range(int(ctx.n(a, b) * scale))]


def make(arg):
    s = decsets.make(arg[0], arg[1], oddops=False) if arg[0] not in ('graph', 'alone') else decsets.make(arg[0], arg[1])
    return None if s is None else case((list(arg), s))


def case(arg):
    how, s = arg
    d = real.decompile_set(s, secs=10)
    res = {'how': how, 's': s, 'ok': d['ok'], 'd': d}
    if not d['ok']:
        return res
    ops, tab = real.set_facts(s)
    res['m'] = norm.dmode(real.ssb_machine(ops, tab))
    res['fallback'] = d['text'].startswith('//?: is-ssb-script')
    if not res['fallback']:
        try:
            res['src'] = norm.dmode(flatten.flatten(lang.parse(d['text'])))
        except Exception as e:
            res['perr'] = '%s: %s' % (type(e).__name__, str(e)[:200])
    c = real.compile_text(d['text'])
    res['c'] = {k: c.get(k) for k in ('ok', 'exc', 'msg', 'where')}
    if c['ok']:
        res['dst'] = norm.dmode(real.ssb_machine(c['ops'], c['table']))
    return res


def judge(ctx, R):
    pairs, by = [], {}
    for i, r in enumerate(R):
        if not r['ok']:
            ctx.add('no_answer')       # (C06)
            continue
        ctx.add('fallbacks' if r['fallback'] else 'structured')
        if not r['c']['ok']:
            bad(ctx, r, 'rejected', 'the compiler rejects the text: %s %s' % (r['c']['exc'], r['c']['msg']))
            continue
        if 'perr' in r:
            bad(ctx, r, 'unreadable', 'the text is not ExplorerScript: ' + r['perr'])
        for w in ('src', 'dst'):
            if w in r:
                p = Pair('%d-%s' % (i, w), r['m'], r[w], True, r)
                pairs.append(p)
                by[p.id] = p
    v, div = equiv.check(ctx, pairs)
    done = set()
    for i in sorted(v, key=lambda i: len(by[i].l['ops'])):
        r = by[i].info
        if id(r) in done:
            continue
        done.add(id(r))
        bad(ctx, r, 'behaviour', '%s, %s' % ('text' if i.endswith('src') else 'recompiled ops', equiv.describe(v[i][0])))


def bad(ctx, r, key, what):
    s = decsets.show(r['s'])
    ctx.violation('%s:%s' % (key, s), '%s\n%s\n%s' % (what, s, r['d'].get('text', '')), {'how': r['how'], 's': r['s']})


def run(ctx):
    R = pmap(case, sets(ctx))
    ctx.add('small_sets', len(R))
    R2 = [r for r in pmap(make, seeds(ctx)) if r]
    ctx.add('large_sets', len(R2))
    R += R2
    ctx.cov['explored'] = len(R)
    for r in R2[:3]:
        ctx.sample(decsets.show(r['s'])[:300] + '\n' + r['d'].get('text', '')[:300])
    judge(ctx, R)


def replay(data):
    from ..core import Ctx
    ctx = Ctx('C02', 'quick', 1, LEVEL)
    judge(ctx, [case((data['how'], data['s']))])
    for _, what, _ in ctx.bad:
        print(what)
    return bool(ctx.bad)
