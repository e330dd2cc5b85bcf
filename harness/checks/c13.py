"""C13: flat structured programs are decompiled to structured text without jumps."""
import random
from .. import flatten, gen, lang, norm, real, setgen, tlc
from ..gen import st
from ..pool import pmap

LEVEL = 'exhaustive_bounded'
TECHNIQUE = 'flat structured programs enumerated by TLC (StructGen.tla); the decompiled text is judged by TLC against the source (StructCheck.tla)'
NOTE = ('StructGen.tla writes every flat structured routine up to a number of pieces (statements, conditions, blocks, cases, default at any position, '
        'grouped and empty cases, empty blocks); statements, conditions, headers and terminators of all surface forms are filled in by seed, three '
        'routines to a program; plus larger random programs of the same kind. Each is compiled, decompiled and the text read back by an '
        'independent parser; StructCheck.tla requires that it has no jump statement and writes every operation and test as often as the source.')


class Fill:
    """surface forms for the structure"""

    def __init__(self, seed, strings='simple'):
        self.r = random.Random('flat%s' % seed)
        self.g = gen.Gen(self.r, oddops=False, big=False, strings=strings)
        self.g.scope_labels = {'prefix': '', 'defs': [], 'uses': [], 'macro': True}

    def plain(self):
        g, x = self.g, self.r.random()
        if x < .55:
            return g.opstmt()
        if x < .75:
            return g.asg()
        if x < .9:
            return st('with', ctx=g.ctxh(), body=[g.opstmt(noctx=True) if self.r.random() < .5 else g.asg()])
        return g.msgsw()

    def body(self, n):
        return [self.plain() for _ in range(n)]

    def item(self, p):
        if p['k'] == 'p':
            return self.plain()
        if p['k'] == 'if':
            return st('if', arms=[{'neg': a['neg'], 'conds': [self.g.cond() for _ in range(a['n'])], 'body': self.body(a['b'])}
                                  for a in p['arms']], els=None if p['els'] < 0 else self.body(p['els']))
        h = self.g.switch_header()
        if h.get('op'):
            h['op']['ctx'] = None
        return st('switch', h=h, cases=[{'h': None if c['d'] else self.g.case_header(h),
                                         'body': [] if c['b'] < 0 else self.body(c['b']) + [st('break')]} for c in p['cs']])

    def routine(self, i, prog, kind=''):
        body = [self.item(p) for p in prog] + [st(self.r.choice(['return', 'end', 'hold']))]
        if kind == 'coro':
            return {'k': 'coro', 'name': 'CORO_%d' % i, 'alias': False, 'body': body}
        t = (kind, self.r.choice([gen.I(i), gen.C('ACTOR_PLAYER')])) if kind else None
        return {'k': 'def', 'id': i, 'target': t, 'alias': False, 'body': body}


def shape(r):
    """a random structure"""
    out = []
    for _ in range(r.choice([1, 2, 3, 4, 6])):
        x = r.random()
        n = lambda: r.choice([0, 1, 1, 2, 3])
        if x < .3:
            out.append({'k': 'p'})
        elif x < .65:
            out.append({'k': 'if', 'els': r.choice([-1, -1, 0, 1, 2]),
                        'arms': [{'n': r.choice([1, 1, 1, 2, 3, 5]), 'neg': r.random() < .3, 'b': n()} for _ in range(r.choice([1, 1, 2, 3, 5]))]})
        else:
            cs = [{'d': False, 'b': r.choice([-1, n(), n()])} for _ in range(r.choice([1, 2, 3, 4, 7]))]
            if r.random() < .6:
                cs.insert(r.randint(0, len(cs)), {'d': True, 'b': r.choice([-1, n(), n()])})
            if cs[-1]['b'] < 0:
                cs[-1]['b'] = n()
            out.append({'k': 'sw', 'cs': cs})
    return out


def program(shapes, seed):
    f = Fill(seed)
    coro = f.r.random() < .15
    kinds = ['coro'] if coro else ['', '', 'actor', 'object', 'performer']
    return {'routines': [f.routine(i, p, f.r.choice(kinds)) for i, p in enumerate(shapes)], 'macros': [], 'imports': []}


def case(arg):
    shapes, seed = arg
    if shapes is None:
        r = random.Random('shape%s' % seed)
        shapes = [shape(r) for _ in range(r.choice([1, 1, 2, 3]))]
    f = program(shapes, seed)
    text = lang.render(f)
    c = real.compile_text(text)
    res = {'how': [shapes, seed], 'text': text, 'compiled': c['ok'], 'c': c.get('msg')}
    if not c['ok']:
        return res
    d = real.decompile_set(setgen.from_facts(c['ops'], c['table']), secs=10)
    res['d'] = d
    if d['ok']:
        res['fallback'] = 'is-ssb-script' in d['text'].split('\n')[0]
        if not res['fallback']:
            try:
                res['out'] = norm.dmode(flatten.flatten(lang.parse(d['text'])))
                res['src'] = norm.dmode(flatten.flatten(f))
            except Exception as e:
                res['perr'] = '%s: %s' % (type(e).__name__, str(e)[:200])
    return res


def judge(ctx, R):
    cases = []
    for i, r in enumerate(R):
        if not r['compiled']:
            ctx.add('not_compiled')         # (C01, C05)
        elif not r['d']['ok']:
            bad(ctx, r, 'no answer', 'the decompiler does not answer: %s %s' % (r['d']['exc'], r['d']['msg']))
        elif r['fallback']:
            bad(ctx, r, 'fallback', 'the decompiler writes SsbScript')
        elif 'perr' in r:
            bad(ctx, r, 'unreadable', 'the text is not ExplorerScript: ' + r['perr'])
        else:
            cases.append({'id': i, 'src': r['src'], 'out': r['out']})
    for i in range(0, len(cases), 6000):
        for t in tlc.tlc_batches('StructCheck', [{'cases': cases[i:i + 6000][j::3]} for j in range(3) if cases[i:i + 6000][j::3]], jobs=3, workers=2):
            ctx.add('states', t.distinct)
            ctx.add('transitions', t.states)
            for v in t.verdicts:
                what = '%d times %s' % (v['n'], v['clause']) if v['op'] == '' else '%s: %s %s is written %d times' % (
                    v['clause'], v['op']['n'], v['op']['p'], v['n'])
                bad(ctx, R[v['id']], v['clause'], what)
    ctx.add('traces_validated_against_impl', len(cases))


def bad(ctx, r, key, what):
    ctx.violation('%s:%s' % (key, r['text']), '%s\n%s\n%s' % (what, r['text'], r['d'].get('text', '')), {'how': r['how']})


def run(ctx):
    t = tlc.tlc('StructGen', {'max': ctx.n(5, 6)}, workers=4)
    ctx.add('states', t.distinct)
    ps = [v['prog'] for v in t.verdicts]
    ctx.add('routines_enumerated', len(ps))
    ctx.rng.shuffle(ps)
    items = [(ps[i:i + 3], '%d-%d' % (ctx.seed, i)) for i in range(0, len(ps), 3)]
    items += [(None, '%d-r%d' % (ctx.seed, i)) for i in range(ctx.n(2500, 40000))]
    R = pmap(case, items)
    ctx.cov['explored'] = len(R)
    for r in R[-3:]:
        ctx.sample(r['text'][:300] + '\n' + (r.get('d') or {}).get('text', '')[:300])
    ctx.cov['explored'] -= sum(not r['compiled'] for r in R)
    judge(ctx, R)


def replay(data):
    from ..core import Ctx
    ctx = Ctx('C13', 'quick', 1, LEVEL)
    judge(ctx, [case(tuple(data['how']))])
    for _, what, _ in ctx.bad:
        print(what)
    return bool(ctx.bad)
