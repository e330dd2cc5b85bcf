"""C05: macros are their bodies inlined, in any definition order and file layout."""
import itertools
import os
from .. import equiv, flatten, gen, lang, project, real, tlc
from ..pool import pmap

LEVEL = 'translation_validation'
TECHNIQUE = ('TLA+ product automaton (TLC): specification machine with a call stack of macro expansions x SSB machine; '
             'TLC-enumerated import resolutions replayed into the compiler')
NOTE = ('(1) every acyclic dependency relation of up to 4 macros in every definition order, and random projects of macros spread over '
        'files (relative, absolute and lookup imports): TLC explores every outcome of every test on the product of the specification '
        'machine (macro calls push a frame, parameters resolve through the frames, return pops, labels belong to the frame) and the '
        'emitted ops. (2) Imports.tla enumerates importing directory x import string x lookup list x existing files; each behaviour is '
        'replayed in a real directory tree. Exhaustive per project and within the import bounds; larger projects are sampled.')


# ---------------------------------------------------------------- definition orders
def order_case(a):
    n, edges, perm, nested = a
    ms = []
    for i in range(n):
        body = [gen.op('op_%d' % i, {'k': 'const', 'v': '$x'})]
        for j in range(i):
            if (i, j) in edges:
                body.append(gen.st('mcall', name='m%d' % j, args=[{'k': 'const', 'v': '$x'} if (i + j) % 2 else {'k': 'int', 'v': 10 * i + j}]))
        ms.append({'k': 'macro', 'name': 'm%d' % i, 'params': ['$x'], 'alias': False, 'body': body})
    top = [i for i in range(n) if not any((k, i) in edges for k in range(n))]
    calls = [gen.st('mcall', name='m%d' % i, args=[{'k': 'int', 'v': 100 + i}]) for i in top]
    prog = {'imports': [], 'macros': [ms[i] for i in perm],
            'routines': [{'k': 'def', 'id': 0, 'target': None, 'alias': False, 'body': calls}]}
    text = lang.render(prog)
    r = real.compile_text(text)
    res = {'tag': 'order', 'text': text, 'r': r}
    if r['ok']:
        res['src'] = flatten.flatten(prog, {m['name']: (m, '') for m in ms})
        res['dst'] = real.ssb_machine(r['ops'], r['table'])
    return res


def order_cases(n):
    pairs = [(i, j) for i in range(n) for j in range(i)]
    for k in range(1 << len(pairs)):
        edges = frozenset(p for b, p in enumerate(pairs) if k >> b & 1)
        for perm in itertools.permutations(range(n)):
            yield (n, edges, perm, False)


# ---------------------------------------------------------------- import resolution
DIRS = ['p', 'p/s', 'l', 'l/s', 'k', 'k/s']


def import_group(a):
    files, cases = a
    out = []
    with project.Scratch() as root:
        for d in DIRS:
            os.makedirs(os.path.join(root, d))
        for f in files:
            with open(os.path.join(root, *f), 'w') as fh:
                fh.write('macro m() {\n    op_%s();\n}\n' % '_'.join(f).replace('.exps', ''))
        for c in cases:
            s = '/'.join(c['segs'])
            if c['kind'] == 'abs':
                s = root + '/' + s
            text = 'import "%s";\ndef 0 {\n    ~m();\n}\n' % s
            main = os.path.join(root, *c['from'], 'main.exps')
            look = [os.path.join(root, *l) for l in c['look']]
            r = real.compile_text(text, main, look)
            if c['found']:
                want = 'op_' + '_'.join(c['found']).replace('.exps', '')
                got = [o['n'] for o in r['ops'][0]] if r['ok'] else '%s: %s' % (r['exc'], r['msg'].replace(root, '<root>'))
                good = r['ok'] and got[:1] == [want]
            else:
                want = 'rejected'
                got = [o['n'] for o in r['ops'][0]] if r['ok'] else r['exc']
                good = not r['ok']
            if not good:
                out.append((dict(c), want, got, text.replace(root, '<root>')))
    return len(cases), out


def imports(ctx):
    r = tlc.tlc('Imports', None, cfg='Imports' if ctx.quick else 'ImportsDeep', workers=6, timeout=800)
    ctx.add('states', r.distinct)
    ctx.add('transitions', r.states)
    groups = {}
    for v in r.verdicts:
        groups.setdefault(tuple(sorted(tuple(f) for f in v['files'])), []).append(v)
    n = 0
    for k, bad in pmap(import_group, sorted(groups.items())):
        n += k
        for c, want, got, text in bad:
            key = 'import:%s:%s:%s:%s:%s' % ('/'.join(c['from']), c['kind'], '/'.join(c['segs']), c['look'], sorted(c['files']))
            ctx.violation(key, 'import %r from %s (lookup paths %s, files %s) should give %s, gives %s' % (
                '/'.join(c['segs']), '/'.join(c['from']), c['look'], c['files'], want, got), {'import': c})
    ctx.add('import_resolutions_replayed', n)


def judge(ctx, results):
    pairs, by = [], {}
    for i, r in enumerate(results):
        ctx.add('projects')
        if not r['r']['ok']:
            # every project here is acyclic, has enough arguments and finds its imports
            ctx.violation('rejected:' + r['text'], 'program with macros is rejected: %s: %s\n%s' % (r['r']['exc'], r['r']['msg'], r['text']),
                          {'seed': r.get('seed'), 'text': r['text']})
            continue
        if len(r['dst']['ops']) > 1000:
            ctx.add('skipped_large')
            continue
        p = equiv.Pair('%s-%d' % (r['tag'], i), r['src'], r['dst'], True, r)
        pairs.append(p)
        by[p.id] = p
    bad, div = equiv.check(ctx, pairs)
    ctx.add('with_op_free_cycles', len(div))
    for i in sorted(bad, key=lambda i: len(by[i].info['text'])):
        p = by[i]
        n = len(ctx.bad)
        ctx.violation('behaviour:' + p.info['text'], 'program with macros behaves differently (%s)\n%s' % (
            equiv.describe(bad[i][0]), p.info['text']),
            {'seed': p.info.get('seed'), 'text': p.info['text'], 'verdict': bad[i][0], 'trace': equiv.trace(p) if n < 2 else ''})
    for p in pairs[:1] + pairs[-2:]:
        ctx.sample({'project': p.info['text'][:600]})


def run(ctx):
    imports(ctx)
    cases = [c for n in (1, 2, 3, 4) for c in order_cases(n)]
    if not ctx.quick:
        cases += ctx.rng.sample(list(order_cases(5)), 6000)
    for i in range(0, len(cases), 3000):
        judge(ctx, pmap(order_case, cases[i:i + 3000]))
    n = ctx.n(3000, 40000)
    for i in range(0, n, 3000):
        judge(ctx, project.run_seeds(ctx.seed * 1000000 + i, min(3000, n - i)))
    ctx.cov['generators'] = ('all dependency relations of <= 4 macros x all definition orders; random projects (1-4 files, 1-8 macros, '
                             'relative/absolute/lookup imports, diamonds, nested calls, parameters named like variables)')


def replay(d):
    if 'import' in d:
        n, bad = import_group((d['import']['files'], [d['import']]))
        print(bad or 'as expected')
        return bool(bad)
    if d.get('seed') is not None:
        r = project.case(('replay', d['seed'], {}))
    else:
        ast = lang.parse(d['text'])
        r = {'text': d['text'], 'r': real.compile_text(d['text']), 'tag': 'replay'}
        if r['r']['ok']:
            r['src'] = flatten.flatten(ast, {m['name']: (m, '') for m in ast['macros']})
            r['dst'] = real.ssb_machine(r['r']['ops'], r['r']['table'])
    print(r['text'])
    if not r['r']['ok']:
        print('rejected:', r['r'])
        return True
    from ..core import Ctx
    p = equiv.Pair('replay', r['src'], r['dst'])
    print(equiv.trace(p))
    return bool(equiv.check(Ctx('C05', 'quick', 0, LEVEL), [p])[0])
