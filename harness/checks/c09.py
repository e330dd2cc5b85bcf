"""C09: the source map of a decompilation."""
from .. import decsets, equiv, flatten, lang, norm, real, ssbs, setgen, tlc
from ..pool import pmap
import random

LEVEL = 'statistical'
TECHNIQUE = ('TLA+ product automaton of the parsed text and the input ops (DecMapPairs.tla, TLC) says what was printed for which op; the recorded '
             'entries are checked against the rules of DecMapRules.tla by TLC')
NOTE = ('Random routine sets (compiled programs, other layouts of them, random graphs; multi-line strings). TLC runs the text the decompiler wrote, under '
        'the machine of the source language, in step with the input ops, which attributes every reachable op to the statement or header printed for it; '
        'the same for input ops and the ops of the recompiled text. SsbScript output (also the fallback): every op at its own statement. Texts that do '
        'not behave like their input are left to C02.')


def walk(x, out):
    if isinstance(x, dict):
        for k in ('pos', 'kpos'):
            if k in x and x.get('k') not in ('int', 'dec', 'const', 'str', 'lang'):
                out.add(tuple(x[k]))
        for v in x.values():
            walk(v, out)
    elif isinstance(x, (list, tuple)):
        for v in x:
            walk(v, out)
    return out


def statements(text):
    """(name, position) of every SsbScript operation"""
    toks = lang.lex(text)
    return [(a.s, [a.line, a.col]) for a, b in zip(toks, toks[1:]) if a.t == 'ID' and b.s == '(' and not a.s.startswith('for_')]


def script_case(s, d, c, res):
    """SsbScript: op k of the set is statement k of the text"""
    flat = [o for r in s['routines'] for o in r['ops']]
    st = statements(d['text'])
    if [n for n, _ in st] != [o['n'] for o in flat]:
        return False
    cops = [o for r in c['ops'] for o in r] if c['ok'] else []
    res['ops'] = [{'n': 'op', 'name': o['n'], 'off': o['o'], 'at': d['sm'].get(str(o['o']), []),
                   'lines': [c['sm']['map'][str(cops[i]['o'])][0]] if len(cops) == len(flat) and str(cops[i]['o']) in c['sm']['map'] else []}
                  for i, o in enumerate(flat)]
    res['attr'] = [[{'own': True, 'p': p}] for _, p in st]
    res['ways'], res['starts'] = [], [p for _, p in st]
    return True


def make(arg):
    kind, seed = arg
    if kind == 'ssbs':
        s = ssbs.random_set(random.Random(seed), wild=False, plain=['op', 'Wait', 'Return', 'End', 'Null'])
        setgen.renumber(s, random.Random(seed))
        d = real.decompile_set_ssbs(s, secs=5)
    else:
        s = decsets.JUMPS[seed] if kind == 'jumps' else decsets.make(kind, seed, 'rich')
        if s is None:
            return None
        d = real.decompile_set(s, secs=5)
    res = {'how': [kind, seed], 'strict': kind == 'jumps', 'ok': d['ok'], 's': s, 'text': d.get('text', ''), 'exc': d.get('exc', '')}
    if not d['ok']:
        return res
    offs = {str(o['o']) for r in s['routines'] for o in r['ops']}
    res['stray'] = sorted(set(d['sm']) - offs)
    c = real.compile_ssbs(d['text'], want=('sm',)) if kind == 'ssbs' else real.compile_text(d['text'], want=('sm',))
    if kind == 'ssbs' or d['text'].startswith('//?: is-ssb-script'):
        res['script'] = True
        res['ok'] = script_case(s, d, c, res)
        return res
    ops, tab = real.set_facts(s)
    res['m'] = norm.dmode(real.ssb_machine(ops, tab))
    try:
        p = lang.parse(d['text'])
        res['src'] = norm.dmode(flatten.flatten(p))
    except Exception as e:
        return dict(res, ok=False, exc='harness parser: %s' % e)
    res['starts'] = sorted(walk(p, set()))
    res['ops'] = [{'n': o['n'], 'name': o['n'], 'off': o['o'], 'at': d['sm'].get(str(o['o']), []), 'lines': []} for r in ops for o in r]
    if c['ok']:
        res['dst'] = norm.dmode(real.ssb_machine(c['ops'], c['table']))
        res['cat'] = [c['sm']['map'].get(str(o['o'])) for r in c['ops'] for o in r]
    res['attr'], res['ways'] = [[] for _ in res['ops']], []
    return res


def attribute(ctx, cases):
    pairs, pof = [], {}
    for i, c in enumerate(cases):
        c['badtext'] = c['badops'] = False
        c['became'] = [set() for _ in c['ops']]
        pairs.append(equiv.Pair('%d-t' % i, c['src'], c['m'], False))
        if 'dst' in c:
            pairs.append(equiv.Pair('%d-c' % i, c['m'], c['dst'], False))
    if not pairs:
        return []
    for run in tlc.tlc_batches('DecMapPairs', equiv.batches(pairs, max(4, len(pairs) // 500)), jobs=4, workers=2):
        ctx.add('states', run.distinct)
        for v in run.verdicts:
            i, w = v['id'].split('-')
            c = cases[int(i)]
            if v['verdict'] == 'bad':
                c['badtext' if w == 't' else 'badops'] = True
            elif v['verdict'] == 'op':
                f = {'own': v['own'], 'p': v['p']}
                if f not in c['attr'][v['i'] - 1]:
                    c['attr'][v['i'] - 1].append(f)
            elif v['verdict'] == 'jump':
                f = {'js': v['js'], 'src': v['src'], 'after': v['after']}
                if f not in c['ways']:
                    c['ways'].append(f)
            else:
                c['became'][v['i'] - 1].add(v['j'])
    for c in cases:
        if not c['badops']:
            for o, js in zip(c['ops'], c['became']):
                ls = [c['cat'][j - 1] for j in js]
                if ls and None not in ls:
                    o['lines'] = sorted({x[0] for x in ls})
    return [c for c in cases if not c['badtext']]


def judge(ctx, cases):
    ctx.add('not decompiled', sum(not c['ok'] for c in cases))
    cases = [c for c in cases if c['ok'] and c['ops']]
    good = attribute(ctx, [c for c in cases if not c.get('script')])
    ctx.add('left to C02', sum(not c.get('script') for c in cases) - len(good))
    ctx.add('texts', len(good))
    good += [c for c in cases if c.get('script')]
    ctx.add("SsbScript texts", sum(bool(c.get("script")) for c in cases))
    docs = [[] for _ in range(4)]
    for j, c in enumerate(good):
        docs[j % 4].append({k: c[k] for k in ('ops', 'attr', 'ways', 'starts', 'stray', 'strict')} | {'id': j})
    for r in tlc.tlc_batches('DecMapRules', [{'cases': d} for d in docs if d], jobs=4, workers=2):
        ctx.add('rule states', r.distinct)
        for v in r.verdicts:
            c = good[v['id']]
            what = '%s %s' % (v['clause'], c['stray'])
            if v['i']:
                e = c['ops'][v['i'] - 1]
                what = '%s at %d %s: entry %s, expected %s, lines %s' % (e['name'], e['off'], v['clause'], e['at'], c['attr'][v['i'] - 1][:4], e['lines'])
            ctx.violation('%s:%s' % (c['how'], v['clause']), '%s\n%s\n%s' % (what, decsets.show(c['s'])[:1500], c['text'][:2000]), {'how': c['how']})
    ctx.add('ops', sum(len(c['ops']) for c in good))
    ctx.add('ops attributed', sum(bool(a) for c in good for a in c['attr']))
    ctx.add('entries', sum(o['at'] != [] for c in good for o in c['ops']))
    ctx.add('ops with line when recompiled', sum(o['lines'] != [] for c in good for o in c['ops']))
    ctx.add('jump entries', sum(o['n'] == 'Jump' and o['at'] != [] for c in good for o in c['ops']))


def jobs(ctx):
    b = ctx.seed * 1000000
    n = ctx.n(400, 5000)
    return [(k, b + i) for k in decsets.KINDS for i in range(n)] + [('jumps', i) for i in range(len(decsets.JUMPS))] + [('ssbs', b + i) for i in range(ctx.n(200, 4000))]


def run(ctx):
    todo = jobs(ctx)
    for k in range(0, len(todo), 2000):
        cases = [c for c in pmap(make, todo[k:k + 2000]) if c]
        judge(ctx, cases)
        for c in cases[:2]:
            ctx.sample(c['text'][:400])


def replay(data):
    from ..core import Ctx
    ctx = Ctx('C09', 'quick', 1, LEVEL)
    c = make(tuple(data['how']))
    if c:
        judge(ctx, [c])
    for _, what, _ in ctx.bad:
        print(what)
    return bool(ctx.bad)
