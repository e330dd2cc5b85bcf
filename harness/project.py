"""Programs with macros spread over files: generation, writing to a scratch directory, compilation."""
import copy
import os
import random
import shutil
import tempfile
from . import gen, lang, flatten, real
from .pool import pmap

DIRS = ['p', 'p/sub', 'p/sub/deep', 'lib1', 'lib1/x', 'lib2', 'other']


def project(seed, nfiles=None, nmacros=None, **over):
    """{'files': {path: ast}, 'imports': {path: [(style, target path)]}, 'main': path, 'lookup': [dirs]}"""
    rng = random.Random(seed)
    o = dict(depth=rng.choice([0, 1, 1, 2]), width=rng.choice([2, 3]), macros=True, header_ctx=False, big=seed % 8 == 0, oddops=True)
    o.update(over)
    g = gen.Gen(rng, **o)
    nf = nfiles if nfiles is not None else rng.choice([1, 1, 2, 2, 3, 4])
    main = 'p/main.exps'
    paths = [main]
    for i in range(1, nf):
        paths.append('%s/f%d%s.exps' % (rng.choice(DIRS), i, rng.choice(['', '_macros'])))
    # file i may import files of higher index
    deps = {p: [] for p in paths}
    for i in range(1, nf):
        for j in set([rng.randint(0, i - 1)] + [k for k in range(i) if rng.random() < 0.25]):
            deps[paths[j]].append(paths[i])
    vis = {}

    def closure(p):
        if p not in vis:
            vis[p] = set([p])
            for q in deps[p]:
                vis[p] |= closure(q)
        return vis[p]
    for p in paths:
        closure(p)
    lookup = rng.sample(['lib1', 'lib2', 'other', 'nowhere'], rng.randint(1, 4))
    n = nmacros if nmacros is not None else rng.choice([1, 2, 3, 4, 6, 8])
    owner, defs = {}, {p: [] for p in paths}
    chain = rng.random() < 0.4
    ms = []
    for i in range(n):
        # leaves of the import graph first, so that calls have something to call
        f = paths[max(0, min(nf - 1, int((1 - (i + rng.random()) / n) * nf)))] if rng.random() < 0.7 else rng.choice(paths)
        can = [m for m in ms if owner[m['name']] in vis[f]]
        if chain and can:
            can = can[-2:]
        m = g.macro(rng.choice(['mac%d', 'do_%d', 'M%d']) % i, can)
        if can and rng.random() < 0.5:
            c = rng.choice(can)
            g.macro_params = m['params']
            m['body'].insert(rng.randint(0, len(m['body'])), gen.st('mcall', name=c['name'], args=[g.marg() for _ in c['params']]))
            g.macro_params = []
        ms.append(m)
        owner[m['name']] = f
        defs[f].append(m)
    g.callable_macros = [m for m in ms if owner[m['name']] in vis[main]]
    prog = g.program()
    if g.callable_macros:
        for _ in range(rng.choice([0, 1, 1, 2])):
            c = rng.choice(g.callable_macros)
            bodies = [r['body'] for r in prog['routines'] if not r['alias']]
            b = rng.choice(bodies)
            b.insert(rng.randint(0, len(b)), gen.st('mcall', name=c['name'], args=[g.marg() for _ in c['params']]))
    files, imports = {}, {}
    for p in paths:
        l = defs[p][:]
        rng.shuffle(l)
        f = {'imports': [], 'macros': l, 'routines': prog['routines'] if p == main else []}
        if p == main and l and rng.random() < 0.5:
            items = [('m', i) for i in range(len(l))]
            rs = [('r', i) for i in range(len(f['routines']))]
            for it in items:
                rs.insert(rng.randint(0, len(rs)), it)
            # keep the routines in order
            f['order'] = rs
        files[p] = f
        ims = []
        for q in deps[p]:
            styles = ['rel', 'rel', 'abs'] + (['lookup'] * 3 if any(q.startswith(d + '/') for d in lookup) else [])
            ims.append([rng.choice(styles), q])
        rng.shuffle(ims)
        imports[p] = ims
    return {'files': files, 'imports': imports, 'main': main, 'lookup': lookup, 'seed': seed}


def import_text(root, src, style, target, lookup):
    if style == 'abs':
        return os.path.join(root, target)
    if style == 'rel':
        r = os.path.relpath(target, os.path.dirname(src))
        return r if r.startswith('.') else './' + r
    for d in lookup:
        if target.startswith(d + '/'):
            return target[len(d) + 1:]
    raise ValueError(target)


def write(pr, root, render=lang.render):
    """render every file below root; returns {path: text}"""
    texts = {}
    for d in DIRS:
        os.makedirs(os.path.join(root, d), exist_ok=True)
    for p, f in pr['files'].items():
        f['imports'] = [import_text(root, p, s, t, pr['lookup']) for s, t in pr['imports'][p]]
        texts[p] = render(f)
        with open(os.path.join(root, p), 'w', encoding='utf-8', newline='') as fh:
            fh.write(texts[p])
    return texts


def macro_table(pr):
    """name -> (macro, file of the definition relative to the main file, '' for the main file)"""
    d = {}
    base = os.path.dirname(pr['main'])
    for p, f in pr['files'].items():
        for m in f['macros']:
            d[m['name']] = (m, '' if p == pr['main'] else os.path.relpath(p, base))
    return d


class Scratch:
    def __enter__(self):
        self.d = os.path.realpath(tempfile.mkdtemp(prefix='vproj'))
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def compile_project(pr, want=('sm', 'imports')):
    with Scratch() as root:
        texts = write(pr, root)
        lookup = [os.path.join(root, d) for d in pr['lookup']]
        r = real.compile_text(texts[pr['main']], os.path.join(root, pr['main']), lookup, want=want)
    m = flatten.flatten(pr['files'][pr['main']], macro_table(pr))
    r['sub'] = [x.replace(root, '<root>') for x in r.get('imports', [])]
    return texts, m, r


def case(arg):
    tag, seed, over = arg
    pr = project(seed, **over)
    texts, m, r = compile_project(pr)
    res = {'tag': tag, 'seed': seed, 'text': '\n'.join('// --- %s\n%s' % (p, t) for p, t in texts.items()), 'src': m, 'r': r,
           'files': pr['files'], 'main': pr['main']}
    if r['ok']:
        res['dst'] = real.ssb_machine(r['ops'], r['table'])
    return res


def run_seeds(base, n, tag='project', **over):
    return pmap(case, [(tag, base + i, over) for i in range(n)])
