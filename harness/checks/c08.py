"""C08: the source map of a compilation."""
import os
import random
from .. import equiv, flatten, lang, project, real, spell, ssbs, tlc
from ..pool import pmap

LEVEL = 'statistical'
TECHNIQUE = ('TLA+ product automaton of source machine and compiled ops (SrcMapPairs.tla, TLC) says which piece of source each op stands for; '
             'the recorded source map of every compiled project is checked against the rules of SrcMapRules.tla by TLC')
NOTE = ('Random projects with macros spread over files, in random layouts and spellings. TLC runs the source machine and the compiled ops in step, which '
        'attributes every reachable op to a statement and a stack of macro calls without looking at the source map; the recorded entries, call sites, '
        'return addresses, files and marks have to fit. Ops that cannot be reached only have to point at some piece of source. SsbScript: every op of '
        'random texts at its own statement. Programs whose compiled ops do not behave like the source are left to C01.')


def walk(x, out):
    if isinstance(x, dict):
        for k in ('pos', 'epos', 'kpos'):
            if k in x and x.get('k') not in ('int', 'dec', 'const', 'str', 'lang'):
                out.add(tuple(x[k]))
        for v in x.values():
            walk(v, out)
    elif isinstance(x, (list, tuple)):
        for v in x:
            walk(v, out)
    return out


def call_marks(x, out, inside=False):
    if isinstance(x, dict):
        if x.get('k') == 'pos' and inside:
            out.add(lang.canon(x))
        i = inside or x.get('k') == 'mcall'
        for v in x.values():
            call_marks(v, out, i)
    elif isinstance(x, (list, tuple)):
        for v in x:
            call_marks(v, out, inside)
    return out


def make(arg):
    seed, over = arg
    rng = random.Random(seed)
    pr = spell.unshare(project.project(seed, **over))
    sp = rng.random() < 0.5
    with project.Scratch() as root:
        def rend(f):
            lay = lang.Layout(rng.choice(['rand', 'flat', 'pretty', 'pretty']), rng)
            return lang.render(f, spell.Spell(rng), lay) if sp else lang.render(f, None, lay)
        texts = project.write(pr, root, rend)
        r = real.compile_text(texts[pr['main']], os.path.join(root, pr['main']), [os.path.join(root, d) for d in pr['lookup']], want=('sm', 'imports'))
    res = {'how': [seed, over], 'text': '\n'.join('// --- %s\n%s' % (p, t) for p, t in sorted(texts.items())), 'ok': r['ok'], 'r': r}
    if not r['ok']:
        return res
    tab = project.macro_table(pr)
    fl = flatten.Flat(pr['files'][pr['main']], tab, real.PERF)
    m = fl.out()
    roots = {b: n for n, b in fl.mblock.items()}

    def owner(n):
        b = m['nodes'][n - 1]['b']
        while m['blocks'][b - 1]['o']:
            b = m['nodes'][m['blocks'][b - 1]['o'] - 1]['b']
        return roots.get(b)
    calls = []
    for i, nd in enumerate(m['nodes']):
        c = {'macro': '', 'file': '', 'from': '', 'pos': [0, 0]}
        if nd['k'] == 'mcall':
            o = owner(i + 1)
            c = {'macro': nd['name'], 'file': nd['file'], 'from': tab[o][1] if o else '', 'pos': nd['pos']}
        calls.append(c)
    sm = r['sm']
    ops = []
    emitted = {o['o'] for rr in r['ops'] for o in rr}
    for o in [o for rr in r['ops'] for o in rr]:
        k = str(o['o'])
        e = {'o': o['o'], 'n': o['n'], 'k': 'n', 'at': [-1, -1], 'file': '', 'macro': '', 'called': [], 'ret': -1, 'gap': False}
        d = o['o'] - 1
        while d > 0 and d not in emitted:
            x = sm['macros'].get(str(d))
            e['gap'] |= bool(x and x['called'] and x['ret'] <= o['o'])
            d -= 1
        if k in sm['macros'] and k not in sm['map']:
            x = sm['macros'][k]
            e.update(k='m', at=[x['line'], x['col']], file=x['file'], macro=x['macro'], called=x['called'], ret=x['ret'])
        elif k in sm['map'] and k not in sm['macros']:
            e.update(k='d', at=sm['map'][k])
        elif k in sm['map']:
            e.update(k='both')
        ops.append(e)
    main = pr['files'][pr['main']]
    places = [{'file': '', 'macro': '', 'ps': sorted(walk(main['routines'], set()))}]
    for name, (mac, f) in tab.items():
        places.append({'file': f, 'macro': name, 'ps': sorted(walk(mac['body'], set()))})
    args = set()
    for f in pr['files'].values():
        call_marks(f, args)
    own = [{'c': x['c']} for x in sm['marks']] + [{'c': x[2]['c']} for x in sm['mmarks']]
    out = [{'c': p} for rr in r['ops'] for o in rr for p in o['p'] if p.startswith('p:')]
    res.update(src=m, dst=real.ssb_machine(r['ops'], r['table']), calls=calls, ops=ops, places=places,
               marks={'own': own, 'out': out, 'args': sorted(args)})
    return res


def attribute(ctx, cases):
    """facts of SrcMapPairs per case; cases that do not behave like the source are dropped"""
    pairs = []
    for i, c in enumerate(cases):
        c['attr'] = [[] for _ in c['ops']]
        c['jumps'] = [[] for _ in c['ops']]
        c['bad'] = False
        pairs.append(equiv.Pair(i, c['src'], c['dst'], False))
    for run in tlc.tlc_batches('SrcMapPairs', equiv.batches(pairs, max(4, len(pairs) // 400)), jobs=4, workers=2):
        ctx.add('states', run.distinct)
        for v in run.verdicts:
            c = cases[int(v['id'])]
            if v['verdict'] == 'bad':
                c['bad'] = True
            elif v['verdict'] == 'op':
                if not v['ps']:
                    continue
                f = {'stk': v['stk'], 'ps': v['ps']}
                if f not in c['attr'][v['i'] - 1]:
                    c['attr'][v['i'] - 1].append(f)
            else:
                for j in v['js']:
                    l = c['jumps'][j - 1]
                    l += [f for f in v['src'] if f not in l]
    return [c for c in cases if not c['bad']]


def number(c):
    """stacks of calls -> numbered expansions"""
    num, stks = {(): 0}, []

    def of(s):
        if s not in num:
            up = of(s[1:])
            stks.append(dict(c['calls'][s[0] - 1], up=up, all=set(), any=set(), jumps=set()))
            num[s] = len(stks)
        return num[s]

    def chain(e):
        while e:
            yield e
            e = stks[e - 1]['up']
    for fs in c['attr'] + c['jumps']:
        for f in fs:
            if not isinstance(f['stk'], int):
                f['stk'] = of(tuple(f['stk']))
    for j, fs in enumerate(c['attr']):
        if fs:
            sets = [set(chain(f['stk'])) for f in fs]
            for e in set.union(*sets):
                stks[e - 1]['any'].add(j + 1)
            for e in set.intersection(*sets):
                stks[e - 1]['all'].add(j + 1)
    for j, fs in enumerate(c['jumps']):
        for f in fs:
            for e in chain(f['stk']):
                stks[e - 1]['jumps'].add(j + 1)
    c['stks'] = [dict(x, all=sorted(x['all']), any=sorted(x['any']), jumps=sorted(x['jumps'])) for x in stks]


def judge(ctx, cases):
    good = attribute(ctx, [c for c in cases if c['ok']])
    docs = [[] for _ in range(4)]
    for c in good:
        number(c)
    good = [c for c in good if len(c['ops']) * len(c['stks']) < 200000]
    for j, c in enumerate(good):
        docs[j % 4].append({k: c[k] for k in ('ops', 'attr', 'jumps', 'stks', 'places', 'marks')} | {'id': j})
    for r in tlc.tlc_batches('SrcMapRules', [{'cases': d} for d in docs if d], jobs=4, workers=2):
        ctx.add('rule states', r.distinct)
        for v in r.verdicts:
            c = good[v['id']]
            what = v['clause']
            if v['i']:
                e = c['ops'][v['i'] - 1]
                what = '%s at %d %s: entry %s; expected one of %s' % (e['n'], e['o'], what, {k: e[k] for k in ('k', 'at', 'file', 'macro', 'called', 'ret')},
                                                                      (c['attr'][v['i'] - 1] or c['jumps'][v['i'] - 1])[:4])
            else:
                what += ' %s' % c['marks']
            ctx.violation('nested macro without ops in front' if 'no ops left' in v['clause'] else '%s:%s' % (c['how'], v['clause']), what + '\n' + c['text'][:1200], {'how': c['how']})
    ctx.add('projects', len(good))
    ctx.add('ops', sum(len(c['ops']) for c in good))
    ctx.add('ops of macros', sum(o['k'] == 'm' for c in good for o in c['ops']))
    ctx.add('ops without attribution', sum(not a and not b for c in good for a, b in zip(c['attr'], c['jumps'])))
    ctx.add('programs not compiled', sum(not c['ok'] for c in cases))
    ctx.add('left to C01', len([c for c in cases if c['ok']]) - len(good))


def ssbscript(seed):
    """SsbScript texts: each op at its own statement"""
    rng = random.Random(seed)
    s = ssbs.random_set(rng, wild=False, plain=['op', 'Wait', 'Return', 'End', 'Null'])
    text = ssbs.write(s, rng)
    if rng.random() < 0.5:
        text = '//?: is-ssb-script: true\n' + text
        r = real.compile_text(text, '/nonexistent/a.exps', want=('sm',))
    else:
        r = real.compile_ssbs(text, want=('sm',))
    return {'seed': seed, 'text': text, 'r': r, 'n': [op['n'] for x in s['routines'] for op in x['ops']]}


def ssb_judge(ctx, c):
    if not c['r']['ok']:
        return
    toks = lang.lex(c['text'])
    at = []
    for a, b in zip(toks, toks[1:]):
        if a.t == "ID" and b.s == '(' and not a.s.startswith('for_'):
            at.append((a.s, [a.line, a.col]))
    ops = [o for rr in c['r']['ops'] for o in rr]
    if [o['n'] for o in ops] != [n for n, _ in at]:
        ctx.add('SsbScript texts left to C07')
        return
    ctx.add('SsbScript ops', len(ops))
    for o, (n, p) in zip(ops, at):
        if c['r']['sm']['map'].get(str(o['o'])) != p:
            ctx.violation('ssbs:%d' % c['seed'], 'SsbScript: %s at %d is written at %s but recorded at %s\n%s' % (
                n, o['o'], p, c['r']['sm']['map'].get(str(o['o'])), c['text'][:800]), {'ssbs': c['seed']})
            return


def jobs(ctx):
    b = ctx.seed * 1000000
    out = [(b + i, {}) for i in range(ctx.n(500, 8000))]
    out += [(b + 300000 + i, dict(nfiles=1, nmacros=0)) for i in range(ctx.n(150, 2000))]
    out += [(b + 400000 + i, dict(nfiles=4, nmacros=8, depth=1, width=2)) for i in range(ctx.n(150, 3000))]
    return out


def run(ctx):
    todo = jobs(ctx)
    for k in range(0, len(todo), 1000):
        cases = pmap(make, todo[k:k + 1000])
        judge(ctx, cases)
        for c in cases[:2]:
            ctx.sample(c['text'][:400])
    b = ctx.seed * 1000000
    for c in pmap(ssbscript, range(b, b + ctx.n(600, 10000))):
        ssb_judge(ctx, c)


def replay(data):
    from ..core import Ctx
    ctx = Ctx('C08', 'quick', 1, LEVEL)
    if 'ssbs' in data:
        ssb_judge(ctx, ssbscript(data['ssbs']))
    else:
        judge(ctx, [make((data['how'][0], dict(data['how'][1])))])
    for _, what, _ in ctx.bad:
        print(what)
    return bool(ctx.bad)
