"""C12: concurrent calls give the sequential results."""
import random
import sys
from .. import memo, sched, tlc
from ..pool import pmap
from . import c11

LEVEL = 'statistical'
TECHNIQUE = ('TLA+ model of concurrent calls on the shared memo table (Memo.tla) checked exhaustively by TLC; shapes of schedules generated by TLC '
             '(Sched.tla), executed by a deterministic scheduler that switches threads inside the real code; results monitored by TLC (HistCheck.tla)')
NOTE = ('Two and three threads compile and decompile different inputs; one runs at a time and is preempted where the schedule says: every line of the code '
        'that any of the inputs executes is a preemption point of at least one schedule, and a sample of the bytecode boundaries and of the lines of the '
        'parser runtime. Every result is compared with the result of the same call in a process of its own; a thread that raises or never gets done is '
        'a violation too.')


def setup():
    sched.patch_locks()
    memo.path()
    import explorerscript.ssb_converting.ssb_compiler  # noqa
    import explorerscript.ssb_converting.ssb_decompiler  # noqa
    import explorerscript.cli.decompile  # noqa
    for w in sched.SCOPES.values():
        sched.codes(w)


def profile(arg):
    """where one input gets to, and how often"""
    i, scope, opcodes = arg
    setup()
    seen, out = {}, []
    with memo.Scratch() as d:
        p = memo.Proc(d)
        s = sched.Scheduler([lambda: out.append(p.call(i, secs=0)[0])], [], scope, opcodes, seen)
        s.run()
    return [[list(k), v] for k, v in seen.items()], memo.digest(out[0]) if out else ''


def profiled(arg):
    setup()
    return memo.forked(profile, arg)


def run_schedules(items):
    """[(programs, schedule, scope, opcodes, recycled ids)] one after the other in this process"""
    setup()
    res = []
    if items and items[0][4]:
        c11.steer()
    for programs, schedule, scope, opcodes, _ in items:
        recs = [[] for _ in programs]

        def body(t, prog):
            def f():
                p = memo.Proc(dirs[t])
                for i in prog:
                    n = len(p.results)
                    r, b, a = p.call(i, secs=0)
                    k = memo.digest(p.results[-1]()) if len(p.results) > n else ''
                    recs[t].append([{'inp': i['id'] + 1, 'res': memo.digest(r), 'before': memo.digest(b), 'after': memo.digest(a), 'kept': k, 'late': ''},
                                    r, p.results[-1] if k else None])
            return f
        with memo.Scratch() as d:
            import os
            dirs = []
            for t in range(len(programs)):
                dirs.append(os.path.join(d, 't%d' % t))
                os.mkdir(dirs[-1])
            s = sched.Scheduler([body(t, pr) for t, pr in enumerate(programs)], schedule, scope, opcodes)
            fin = s.run()
        calls = []
        for t, pr in enumerate(programs):
            for k, i in enumerate(pr):
                if k < len(recs[t]):
                    c, r, f = recs[t][k]
                    if f is not None:
                        c['late'] = memo.digest(f())
                    c['full'] = r if c['res'] != i.get('alone') else None
                else:
                    c = {'inp': i['id'] + 1, 'res': 'never done', 'before': '', 'after': '', 'kept': '', 'late': '', 'full': {'raises': 'never done'}}
                calls.append(c)
        res.append({'calls': calls, 'switches': s.switches, 'events': s.events, 'free': s.free})
        if not fin:
            break
    return res


def scheduled(items):
    # (imports only: what runs in one process is what the fork does)
    setup()
    r = memo.forked(run_schedules, items, 300)
    if isinstance(r, dict):
        return r
    return r


def concrete(shape, progs, locs, rng, first=None):
    """shape with places: locs per thread: [[location, count]]"""
    out = []
    for n, (t, stop) in enumerate(shape):
        t -= 1
        l = locs[t]
        if stop == 'end' or not l:
            out.append([t, 'end', None])
        elif stop == 'count':
            out.append([t, 'count', int(2 ** rng.uniform(0, 13))])
        else:
            k, c = rng.choice(l)
            if n == 0 and first is not None:
                k, c = first
            out.append([t, 'at', [k, 1 if stop == 'first' else rng.randint(1, min(c, 60))]])
    return out


def run(ctx):
    ctx.add('states of the memo model', tlc.tlc('Memo', cfg='Memo2', workers=8).distinct)
    ins = pick(ctx)
    by = {i['id']: i for i in ins}
    slim = {i['id']: {x: i[x] for x in i if x != 'full'} for i in ins}
    shapes = {}
    for n, k in ((2, 1), (2, 2), (2, 3), (3, 3)):
        shapes[n, k] = [v['s'] for v in tlc.tlc('Sched', {'n': n, 'k': k}).verdicts]
        ctx.add('shapes of schedules', len(shapes[n, k]))
    places = {}     # (scope, opcodes) -> {id: [[location, count]]}
    for scope, op in (('own', False), ('all', False), ('own', True)):
        got = pmap(profiled, [(slim[i['id']], scope, op) for i in ins])
        for i, r in zip(ins, got):
            if isinstance(r, dict):
                raise RuntimeError(r['died'])
            if r[1] != i['alone']:
                ctx.violation('thread:%s' % memo.digest(i.get('set', i.get('text', ''))), 'another result in a thread than in the main thread of a process '
                              'of its own\n' + c11.describe(i), {'items': [[[[slim[i['id']]]], [], scope, op, False]]})
        places[scope, op] = {i['id']: r[0] for i, r in zip(ins, got)}
    rng = ctx.rng
    items = []

    def partner(a, loc=None, scope='own', op=False):
        c = [i for i in ins if i['id'] != a['id']]
        k = [i for i in c if i['kind'] == a['kind']]
        if loc is not None and rng.random() < 0.7:
            h = [i for i in k if tuple(loc) in index[scope, op][i['id']]]
            k = h or k
        return rng.choice(k if k and rng.random() < 0.8 else c)
    index = {m: {i: {tuple(k) for k, _ in l} for i, l in d.items()} for m, d in places.items()}

    def item(threads, shape, scope, op, first=None):
        locs = [places[scope, op][a['id']] for a in threads]
        progs = [[slim[a['id']]] + ([slim[rng.choice(ins)['id']]] if rng.random() < 0.15 else []) for a in threads]
        return (progs, concrete(shape, progs, locs, rng, first), scope, op, False)
    one = [s for s in shapes[2, 1] if s[0][0] == 1 and s[0][1] in ('first', 'later')]
    two = shapes[2, 2] + shapes[2, 3]
    for (scope, op), share in (((('own', False)), 1.0), (('own', True), ctx.n(0.035, 0.5)), (('all', False), ctx.n(0.02, 0.3))):
        every = {}
        for i, l in places[scope, op].items():
            for k, c in l:
                every.setdefault(tuple(k), []).append((i, c))
        ctx.add('places (%s%s)' % (scope, ', bytecode' if op else ''), len(every))
        ks = sorted(every)
        gen = [k for k in ks if 'Parser.py' in k[0] or 'Lexer.py' in k[0] or 'Visitor.py' in k[0] or 'Listener.py' in k[0]] if scope == 'own' else []
        rest = [k for k in ks if k not in set(gen)]
        ks = rng.sample(rest, int(len(rest) * share)) + rng.sample(gen, int(len(gen) * share * ctx.n(0.3, 1)))
        ctx.add('places preempted (%s%s)' % (scope, ', bytecode' if op else ''), len(ks))
        for k in ks:
            for _ in range(ctx.n(1, 3)):
                i, c = rng.choice(every[k])
                a = by[i]
                b = partner(a, k, scope, op)
                shape = rng.choice(one if rng.random() < 0.5 else [s for s in two if s[0][1] in ('first', 'later')])
                items.append(item([a, b], shape, scope, op, (list(k), c)))
    for _ in range(ctx.n(250, 3000)):
        a = rng.choice(ins)
        items.append(item([a, partner(a), partner(a)], rng.choice(shapes[3, 3]), 'own', False))
    rng.shuffle(items)
    # a part of the processes give the ids of dead objects to new ones at once
    # (most are the first thing their process does: what is set up by the first use is set up then)
    groups, n = [], 0
    while n < len(items):
        size = 1 if len(groups) % 8 else 8
        adv = len(groups) % 16 == 0 or len(groups) % 8 == 3
        groups.append([x[:4] + (adv,) for x in items[n:n + size]])
        n += size
    ctx.add('processes', len(groups))
    ctx.add('schedules', len(items))
    recs = pmap(scheduled, groups, chunk=4)
    flat, runs = [], []
    for g, r in zip(groups, recs):
        if isinstance(r, dict):
            raise RuntimeError('schedules died: ' + r['died'])
        for n, (x, y) in enumerate(zip(g, r)):
            runs.append(g[:n + 1])
            flat.append(y)
    ctx.add('schedules that were run', len(flat))
    ctx.add('switches', sum(x['switches'] for x in flat))
    ctx.add('events', sum(x['events'] for x in flat))
    if any(x['free'] for x in flat):
        ctx.add('schedules with unknown waiting', sum(x['free'] for x in flat))
    alone = {i['id']: i['alone'] for i in ins}
    table = [alone.get(k, '') for k in range(max(alone) + 1)]
    data = [{'id': k, 'calls': [{x: c[x] for x in ('inp', 'res', 'before', 'after', 'kept', 'late')} for c in f['calls']]} for k, f in enumerate(flat)]
    verdicts = [v for r in tlc.tlc_batches('HistCheck', [{'alone': table, 'runs': data[k::4]} for k in range(4)], jobs=4, workers=2) for v in r.verdicts]
    if len(verdicts) != len(flat):
        raise RuntimeError('HistCheck: %d verdicts for %d schedules' % (len(verdicts), len(flat)))
    ctx.add('calls judged', sum(len(x['calls']) for x in data))
    for v in sorted(verdicts, key=lambda v: v['id']):
        if v['ok']:
            continue
        g = runs[v['id']]
        c = flat[v['id']]['calls'][v['at'] - 1]
        i = by[c['inp'] - 1]
        msg = c11.difference(i['full'], c['full']) if v['why'] == 'result' else v['why'] + ' changed'
        ctx.violation('%s:%s' % (v['why'], memo.digest([g[-1][1], c['inp']])), 'a call in a thread (%s) does not give the result it gives alone: %s\nschedule %s\n'
                      'threads %s\n%s' % (i['cls'], msg, show(g[-1][1]), [[x['cls'] for x in p] for p in g[-1][0]], c11.describe(i)),
                      {'items': [list(x) for x in g]})
    ctx.sample([show(items[0][1]), [[x['cls'] for x in p] for p in items[0][0]]])
    ctx.sample([show(items[-1][1]), [[x['cls'] for x in p] for p in items[-1][0]]])


def show(s):
    return '; '.join('%d to the end' % t if k == 'end' else '%d for %d steps' % (t, x) if k == 'count' else '%d to %s:%s%s (%d)' % (
        t, x[0][0], x[0][1], '+%d' % x[0][2] if x[0][2] else '', x[1]) for t, k, x in s)


def weight(i):
    return sum(len(r['ops']) for r in (i['set'] if 'set' in i else i['doc'])['routines']) * 40 if 'text' not in i else len(i['text']) + sum(map(len, i.get('files', {}).values()))


def pick(ctx):
    """short inputs of every class"""
    old = dict(c11.WANT)
    try:
        c11.WANT.update(dec=40, odd=12, near=1, noimport=4, deep=0, comp=30, cli=3, round=8, noparse=4, nocomp=10, attr=3, ssbsdec=6, ssbscomp=8)
        l = c11.inputs(ctx, ctx.n(1, 2), lambda i: weight(i) <= 900, 8)
    finally:
        c11.WANT.update(old)
    for i in l:
        ctx.add('inputs %s' % i['cls'])
    return [i for i in l if i['cls'] != 'deep']


def replay(data):
    items = [tuple(x) for x in data['items']]
    base = {}
    for x in items:
        for p in x[0]:
            for i in p:
                if i['id'] not in base:
                    base[i['id']] = memo.fresh(i, 12345)
    r = memo.forked(run_schedules, items, 600)
    if isinstance(r, dict):
        print(r['died'])
        return False
    bad = False
    for c in r[-1]['calls'] if r else []:
        b = base[c['inp'] - 1]
        if c['res'] != b['d'] or c['before'] != c['after'] or c['late'] != c['kept']:
            bad = True
            print('another result than alone:', c11.difference(b['r'], c['full'] or b['r']))
    return bad
