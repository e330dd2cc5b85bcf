"""C16: layout, comments and alternative spellings do not change the compiled ops."""
import collections
import os
import random
import re
from .. import asm, forms, gen, lang, progs, project, real, spell, tlc
from ..pool import pmap

LEVEL = 'translation_validation'
TECHNIQUE = 'TLA+ scanner specification (TLC) generates the neutral separators of every token pair; respelled sources compiled and compared by the TLA+ assembler machine'
NOTE = ('Tokens.tla specifies the scanner (longest token, dropped white space, comments and joined lines). For every pair of adjacent tokens that '
        'occurs in the corpus TLC enumerates all separators made of up to two of the given pieces (none, blanks, line ends, comments that contain '
        'quotes and comment marks, joined lines) and says which are neutral. Every pair is compiled with every neutral separator at least once; the '
        'literals are respelled at the same time (integer bases, decimal zeros, quote styles, multi-line literals), as are label marks, trailing '
        'commas and deprecated headers. Assembler.tla compares the results; offsets, tables and position marks must be identical too.')

PIECES = ['', ' ', '\t', '\n', '\r\n', '\r', '    ', '\\\n', '\\ \n', '\\\r', '\\\t\r\n', '\\\f', '/**/', '/* c */', '/***/', '/* // */', '/*\n*/',
          '/* \' */', '/* " */', '/* \\ */', '/*/*/', '/* é日 */', '//\n', '// c\n', '// /*\n', '// "\n', "// '''\n", '// c\\\n', '//*/\n', '//c\r', '/// \n',
          '/* """ */', '/* * / */', '/*;}*/', '//?: x\n', '/* c', '// c', '\f', '\\', '/', '\x0b', '\u00a0']
PIECES = PIECES[1:]
TOK = re.compile(r'[0-9]+')


def rep(t):
    """a token that behaves like t next to others"""
    c = t[0]
    if c in '"\'':
        q = 3 if t.startswith(c * 3) and len(t) >= 6 else 1
        return c * q + ('s' if len(t) > 2 * q else '') + c * q
    if c.isalpha() or c == '_':
        return t[:2] if re.match('[xXoObB][0-9a-fA-F]', t) else 'a'
    if c in '$~':
        return c + 'a'
    if c.isdigit() or c in '-.' and len(t) > 1 and t[1] != '=':
        # digits by kind
        return re.sub('[1-9][0-9]*', '7', re.sub('00+', '0', t)) if not re.match('-?0[xXoObB]', t) else t[:3 if c == '-' else 2] + '1'
    return t


class Base:
    pass


def base(a):
    kind, x = a
    if kind == 'seed':
        ast = program(x)
    else:
        ast = spell.unshare(x)
    text = lang.render(ast)
    r = real.compile_text(text, want=('sm',))
    return ast, text, r


def program(seed):
    rng = random.Random('respell%d' % seed)
    if rng.random() < 0.3:
        pr = project.project(seed, nfiles=1)
        return pr['files'][pr['main']]
    ast = spell.unshare(progs.random_program(seed, **rng.choice([{}, {'strings': 'wild'}, {'depth': 1, 'strings': 'wild'}])))
    return echo(ast, rng) if rng.random() < 0.4 else ast


def echo(x, rng):
    """some statements are written twice in a row"""
    if isinstance(x, dict):
        return {k: stutter(echo(v, rng), rng) if k == 'body' else echo(v, rng) for k, v in x.items()}
    if isinstance(x, list):
        return [echo(v, rng) for v in x]
    return x


def stutter(body, rng):
    out = []
    for st in body or []:
        out.append(st)
        if rng.random() < 0.3 and "'label'" not in repr(st):
            out.append(spell.unshare(st))
    return out


def extreme(toks, table, kind):
    """all in one line and as close as possible, one token per line, or one token per line that starts in the first column or after blanks"""
    out = []
    for a, b in zip([''] + [rep(t) for t in toks], [rep(t) for t in toks] + ['']):
        l = table[(a, b)]
        order = {'line': ['', ' '], 'column': ['\n'], 'deep': ['    \n    ', '\n    ', '    ']}[kind]
        s = next((s for s in order if s in l), None)
        out.append(min(l, key=len) if s is None else s)
    return ''.join(x for p in zip(out, toks + ['']) for x in p)


def tokens(ast, sp=None):
    return [t[0] for t in lang.Renderer(sp).file(ast)]


_sep = {}


def separators(toks, table, rng, calm, want=()):
    """the tokens as text; want: (pair, separator)s not seen yet are preferred"""
    out = [rng.choice(table[('', rep(toks[0]))])]
    used = []
    for a, b in zip(toks, toks[1:]):
        k = (rep(a), rep(b))
        if calm and rng.random() < 0.6:
            s = ' '
        else:
            s = rng.choice(table[k])
            todo = want.get(k) if want else None
            if todo:
                s = todo.pop()
        used.append((k, s))
        out += [a, s]
    out += [toks[-1], rng.choice(table[(rep(toks[-1]), '')])]
    return ''.join(out)


def facts(r):
    """everything that must stay the same"""
    if not r['ok']:
        return None
    sm = r['sm']
    return {'ops': r['ops'], 'table': r['table'], 'ninfo': r['ninfo'], 'ncoro': r['ncoro'],
            'marks': [m['c'] for m in sm['marks']], 'mmarks': [[a, b, m['c']] for a, b, m in sm['mmarks']]}


def again(text):
    return facts_or_error(real.compile_text(text, want=('sm',)))


def facts_or_error(r):
    return facts(r) if r['ok'] else {'error': '%s: %s' % (r['exc'], r['msg'])}


def cp(s):
    return [ord(c) for c in s]


def neutral_table(ctx, pairs, deep):
    """{(a, b): [separator]} by TLC"""
    l = sorted(pairs)
    data = [{'pairs': [{'a': cp(a), 'b': cp(b), 'deep': 2 if (a, b) in deep else 1} for a, b in l[j::6]], 'pieces': [cp(p) for p in PIECES]} for j in range(6)]
    table = collections.defaultdict(list)
    for j, r in enumerate(tlc.tlc_batches('TokensGen', data, jobs=6, workers=1)):
        ctx.add('states', r.distinct)
        ctx.add('transitions', r.states)
        part = l[j::6]
        for v in r.verdicts:
            table[part[v['id'] - 1]].append(''.join(PIECES[k - 1] for k in v['s']))
    for k in table:
        table[k].sort()
    return table


def run(ctx):
    b = ctx.seed * 1000000
    cases = [('ast', p) for _, p in forms.forms()] + [('seed', b + i) for i in range(ctx.n(280, 8000))]
    bases = [x for x in pmap(base, cases) if x[2]['ok']]
    ctx.add('programs', len(bases))
    # spellings first: they decide which tokens meet
    todo, pairs = [], set()
    for i, (ast, text, r) in enumerate(bases):
        for k in range(ctx.n(2, 6)):
            rng = random.Random('%d %d %d' % (ctx.seed, i, k))
            toks = tokens(ast, spell.Spell(rng) if k else None)
            rs = [rep(t) for t in toks]
            pairs.update(zip(rs, rs[1:]))
            pairs.update([('', rs[0]), (rs[-1], '')])
            todo.append((i, toks, k))
    files = [b + i for i in range(ctx.n(90, 3000))]
    for s in pmap(file_pairs, files):
        pairs |= s
    deep = set(ctx.rng.sample(sorted(pairs), min(len(pairs), ctx.n(10, 300))))
    table = neutral_table(ctx, pairs, deep)
    ctx.cov['token_pairs'] = len(pairs)
    ctx.cov['neutral_separators'] = sum(map(len, table.values()))
    TABLE.update({k: [s for s in v if s == "" or s in PIECES] for k, v in table.items()})
    want = {k: list(v) for k, v in table.items()}
    texts = []
    for i, toks, k in todo:
        rng = random.Random('%d %d %d sep' % (ctx.seed, i, k))
        texts.append(separators(toks, table, rng, k % 2, want))
    for i, toks, k in list(todo):
        if not k:
            for kind in ('line', 'column', 'deep')[:ctx.n(2, 3)]:
                texts.append(extreme(toks, table, kind))
                todo.append((i, toks, k))
    # what is left to be seen
    where = collections.defaultdict(list)
    for n, (i, toks, k) in enumerate(todo):
        for p in set(zip(map(rep, toks), map(rep, toks[1:]))):
            where[p].append(n)
    left = sum(map(len, want.values()))
    rounds = 0
    while rounds < ctx.n(1500, 40000):
        p = next((p for p in want if want[p] and p in where), None)
        if p is None:
            break
        n = min(where[p], key=lambda n: len(todo[n][1])) if rounds % 2 else ctx.rng.choice(where[p])
        i, toks, k = todo[n]
        texts.append(separators(toks, table, random.Random('%d more %d' % (ctx.seed, rounds)), False, want))
        todo.append((i, toks, k))
        rounds += 1
    ctx.cov['pairs_with_separator_not_compiled'] = sum(len(v) for p, v in want.items() if p[0] and p[1])
    res = pmap(again, texts)
    pairs_, meta = [], {}
    for n, (t, f) in enumerate(zip(texts, res)):
        ctx.add('respelled sources')
        i = todo[n][0]
        g = facts(bases[i][2])
        if 'error' in f:
            report(ctx, bases[i][1], t, 'is rejected: ' + f['error'])
            continue
        pairs_.append(asm.same(str(n), f, g))
        meta[str(n)] = (bases[i][1], t)
        if f != g:
            d = [k for k in g if f[k] != g[k]]
            report(ctx, bases[i][1], t, 'gives other ' + ', '.join(d))
    for id, v in asm.check(ctx, pairs_).items():
        report(ctx, meta[id][0], meta[id][1], asm.describe(v))
    several_files(ctx, files)
    ctx.bad.sort(key=lambda x: len(x[2]['text']))
    ctx.sample({'source': bases[0][1], 'respelled': texts[0]})
    ctx.sample({'source': bases[-1][1][:500], 'respelled': texts[len(bases) * 2 - 1][:900]})
    ctx.cov['generators'] = 'all surface forms, random programs with and without macros; separators by TLC, spellings by harness/spell.py'


# ----------------------------------------------------------- several files
TABLE = {}


def file_pairs(seed):
    pr = project.project(seed)
    s = set()
    with project.Scratch() as root:
        def render(ast):
            for k in range(3):
                toks = tokens(ast, spell.Spell(random.Random('%d %d' % (seed, k))) if k else None)
                rs = [rep(t) for t in toks]
                s.update(zip(rs, rs[1:]))
                if rs:
                    s.update([('', rs[0]), (rs[-1], '')])
            return lang.render(ast)
        project.write(pr, root, render)
    return s


def files_case(seed):
    out = []
    for k in range(3):
        pr = project.project(seed)

        def render(ast, sp=None):
            rng = random.Random('%d %d' % (seed, k))
            toks = tokens(ast, spell.Spell(rng) if k else None)
            return separators(toks, TABLE, rng, k == 1) if k and toks else lang.render(ast)
        with project.Scratch() as root:
            texts = project.write(pr, root, render)
            r = real.compile_text(texts[pr['main']], os.path.join(root, pr['main']), [os.path.join(root, d) for d in pr['lookup']], want=('sm',))
            f = facts_or_error(r)
            out.append(('\n'.join('// --- %s\n%s' % (p, t.replace(root, '<root>')) for p, t in texts.items()), f))
    return out


def several_files(ctx, seeds):
    pairs_, meta = [], {}
    for seed, (a, *bs) in zip(seeds, pmap(files_case, seeds)):
        if 'error' in a[1]:
            continue
        for k, b in enumerate(bs):
            ctx.add('respelled projects')
            if 'error' in b[1]:
                report(ctx, a[0], b[0], 'is rejected: ' + b[1]['error'], seed)
                continue
            id = '%d-%d' % (seed, k)
            pairs_.append(asm.same(id, b[1], a[1]))
            meta[id] = (a[0], b[0], seed)
            if a[1] != b[1]:
                report(ctx, a[0], b[0], 'gives other ' + ', '.join(x for x in a[1] if a[1][x] != b[1][x]), seed)
    for id, v in asm.check(ctx, pairs_).items():
        report(ctx, *meta[id][:2], asm.describe(v), meta[id][2])


def report(ctx, a, b, what, seed=None):
    ctx.violation('respelled:' + b, 'the respelled source %s\n%s\n--- respelled\n%s' % (what, a[:1500], b[:2500]), {'base': a, 'text': b, 'seed': seed})


def replay(data):
    if data.get('seed') is not None:
        from ..core import Ctx
        ctx = Ctx('C16', 'quick', 0, LEVEL)
        TABLE.update(neutral_table(ctx, file_pairs(data['seed']), set()))
        several_files(ctx, [data['seed']])
        for _, w, _ in ctx.bad:
            print(w)
        return bool(ctx.bad)
    print(data['base'], '\n--- respelled\n', data['text'], '\n', repr(data['text']))
    f, g = again(data['text']), again(data['base'])
    for k in g:
        if f.get(k) != g[k]:
            print(k, '\n  ', g[k], '\n  ', f.get(k))
    print(f.get('error', ''))
    return f != g
