"""C03: the assembler machine accepts every compilation result."""
import random
from .. import asm, forms, lang, progs, project, real, ssbs
from ..pool import pmap

LEVEL = 'translation_validation'
TECHNIQUE = 'TLA+ assembler machine (TLC) run over recorded compilation results'
NOTE = ('Assembler.tla lays out the ops of a compilation result and patches its jumps, consulting nothing else; TLC runs it over the result of '
        'every surface form, all small programs, random programs (with routines that do not end in a terminator, labels at routine ends, '
        'jumps between routines), random macro projects and SsbScript texts; a repeated offset, a left-over pseudo op, a jump without an '
        'offset of the list, or tables of unequal length or other contents than the source declares block it. Exhaustive per result; '
        'results are enumerated (forms, small programs) and sampled.')


def expected_table(rs):
    d, cur = {}, -1
    for r in rs:
        cur = r['id'] if r['k'] == 'def' else cur + 1
        t = r.get('target')
        d[cur] = ['coro', '', r['name']] if r['k'] == 'coro' else [t[0], lang.canon(t[1]), ''] if t else ['', '', '']
    return [d.get(i, ['none', '', '']) for i in range(max(d) + 1)] if d else []


def exps_case(a):
    tag, ast = a
    text = lang.render(ast)
    return {'tag': tag, 'text': text, 'r': real.compile_text(text), 'table': expected_table(ast['routines'])}


def seed_case(a):
    tag, seed, over, gaps = a
    ast = progs.random_program(seed, **over)
    if gaps:
        rng = random.Random(seed)
        d = 0
        for r in ast['routines']:
            d += rng.choice([0, 0, 1, 3])
            if r['k'] == 'def':
                r['id'] += d
            else:
                d = 0
                break
        cur = -1
        for r in ast['routines']:
            cur = max(cur + 1, r['id']) if r['k'] == 'def' else cur + 1
            if r['k'] == 'def':
                r['id'] = cur
    return exps_case((tag, ast))


def project_case(a):
    seed, over = a
    pr = project.project(seed, **over)
    texts, m, r = project.compile_project(pr, want=())
    return {'tag': 'project', 'text': '\n'.join('// --- %s\n%s' % (p, t) for p, t in texts.items()), 'seed': seed, 'r': r,
            'table': expected_table(pr['files'][pr['main']]['routines'])}


def ssbs_case(seed):
    rng = random.Random(seed)
    s = ssbs.random_set(rng, wild=False)
    text = ssbs.write(s, rng)
    f = ssbs.facts(s)
    if rng.random() < 0.5:
        r, tag = real.compile_ssbs(text), 'ssbs'
    else:
        text = '//?: is-ssb-script: true\n' + text
        r, tag = real.compile_text(text), 'ssbs-marked'
    return {'tag': tag, 'text': text, 'r': r, 'table': f['table']}


def judge(ctx, results):
    cases, by = [], {}
    for i, r in enumerate(results):
        ctx.add('compilations')
        if not r['r']['ok']:
            ctx.add('rejected')
            ctx.cov.setdefault('rejected_by', {})
            k = '%s %s: %s' % (r['tag'], r['r']['exc'], (r['r']['msg'] or '')[:50])
            ctx.cov['rejected_by'][k] = ctx.cov['rejected_by'].get(k, 0) + 1
            continue
        if sum(map(len, r['r']['ops'])) > 1500:
            ctx.add('skipped_large')
            continue
        id = '%s-%d' % (r['tag'], i)
        by[id] = r
        cases.append(asm.closed(id, r['r'], r['table']))
    bad = asm.check(ctx, cases)
    for i in sorted(bad, key=lambda i: len(by[i]['text'])):
        ctx.violation('closed:' + by[i]['text'], 'op list is not closed: %s\n%s' % (asm.describe(bad[i]), by[i]['text']),
                      {'tag': by[i]['tag'], 'text': by[i]['text'], 'seed': by[i].get('seed'), 'table': by[i]['table'], 'verdict': bad[i]})
    for r in results[:1] + results[-1:]:
        ctx.sample({'tag': r['tag'], 'text': r['text'][:400]})


def run(ctx):
    cases = list(forms.forms())
    for size in (1, 2):
        cases += [('small%d' % size, p) for p in forms.small(size, 3)]
    cases += [('small3', p) for p in (forms.small(3, 3) if not ctx.quick else progs.sample_small(ctx.rng, 3, 1500, 3))]
    judge(ctx, pmap(exps_case, cases))
    b = ctx.seed * 20000000
    n = ctx.n(2000, 40000)
    for i in range(0, n, 5000):
        m = min(5000, n - i)
        judge(ctx, pmap(seed_case, [('random', b + i + j, {'terminate': False}, j % 5 == 0) for j in range(m)]))
    n = ctx.n(800, 15000)
    for i in range(0, n, 3000):
        judge(ctx, pmap(project_case, [(b + i + j, {}) for j in range(min(3000, n - i))]))
    n = ctx.n(1500, 20000)
    for i in range(0, n, 5000):
        judge(ctx, pmap(ssbs_case, [b + i + j for j in range(min(5000, n - i))]))
    ctx.cov['generators'] = 'surface forms, small programs, random programs with and without terminators and id gaps, macro projects, SsbScript'


def replay(d):
    from ..core import Ctx
    if d['tag'] == 'project':
        r = project_case((d['seed'], {}))
    else:
        r = dict(d, r=real.compile_ssbs(d['text']) if d['tag'] == 'ssbs' else real.compile_text(d['text']))
    print(d['text'])
    if not r['r']['ok']:
        print('rejected:', r['r'])
        return False
    for rr in r['r']['ops']:
        for o in rr:
            print(o['o'], o['n'], o['p'])
        print()
    bad = asm.check(Ctx('C03', 'quick', 0, LEVEL), [asm.closed('x', r['r'], r['table'])])
    for v in bad.values():
        print(asm.describe(v))
    return bool(bad)
