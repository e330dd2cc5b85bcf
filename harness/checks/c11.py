"""C11: results depend only on the input."""
import random
from .. import memo, tlc
from ..pool import pmap

LEVEL = 'statistical'
TECHNIQUE = ('TLA+ model of the state calls share (Memo.tla) checked exhaustively by TLC; histories generated by TLC (Histories.tla) replayed into '
             'the real code in pristine processes; the recorded results monitored by TLC (HistCheck.tla)')
NOTE = ('TLC generates all histories of two calls over the classes of inputs (decompiled, falling back, raising midway, SsbScript, compiled, failing to '
        'parse, failing midway, projects with other contents at the same paths, deeply nested, command documents) with every reuse of objects, and '
        'samples longer ones, with calls that run out of stack midway, garbage collections, dropped objects and other users of the allocator in between. In half of them the ids of dead '
        'objects are given to new ones at once. Each runs in a process that did nothing before; every result is compared with the result in a process '
        'of its own, started with another hash seed, that imports only what the call needs.')


# ------------------------------------------------------------------ inputs
SHARED = ['one\ntwo', 'x\n  y\nz', 'same', '']


def gen_input(arg):
    """in a worker: description of one input (this imports the code under test)"""
    import copy
    from .. import cli, decsets, lang, params, project
    cls, seed = arg
    rng = random.Random('%s%d' % (cls, seed))
    if cls in ('dec', 'odd', 'ssbsdec', 'cli'):
        s = decsets.make(decsets.KINDS[seed % 4] if seed % 5 else 'flat', 77000 + seed, rng.choice(['simple', 'rich', 'rich']))
        if s is None:
            return None
        if seed % 2:
            # the same strings at different places of different scripts
            for r in s['routines']:
                for x in r['ops']:
                    for a in x['a']:
                        if rng.random() < 0.7:
                            if a['k'] == 'str':
                                a['v'] = rng.choice(SHARED)
                            elif a['k'] == 'lang':
                                a['v'] = [(k, rng.choice(SHARED)) for k, _ in (a['v'].items() if isinstance(a['v'], dict) else a['v'])]
                    if x['n'] in ('op', 'back_SetGround', 'Wait') and rng.random() < 0.5:
                        x['a'] = x['a'] + [{'k': 'str', 'v': rng.choice(SHARED)}]
        if cls == 'odd':
            s = copy.deepcopy(s)
            o = rng.choice([x for r in s['routines'] for x in r['ops']])
            how = seed % 3
            if how == 0:
                o['a'] = o['a'] + [{'k': 'none'}]
            elif how == 1:
                j = [x for r in s['routines'] for x in r['ops'] if x['t'] is not None]
                if not j:
                    return None
                rng.choice(j)['t'] = 99999
            else:
                r = rng.choice(s['routines'])
                k = rng.randint(0, len(r['ops']))
                r['ops'].insert(k, {'o': 50000 + k, 'n': 'message_SwitchTalk', 'a': [{'k': 'const', 'v': 'VAR'}], 't': None})
        if cls == 'cli':
            return {'kind': 'cli', 'doc': cli.document(s, rng)}
        return {'kind': 'dec' if cls == 'odd' else cls, 'set': s}
    if cls == 'ssbscomp':
        from .. import ssbs
        s = ssbs.random_set(rng, wild=rng.random() < 0.2)
        t = ssbs.write(s, rng)
        t = t[0] if isinstance(t, tuple) else t
        if seed % 4 == 3:
            t = t[:rng.randint(0, len(t))]
        return {'kind': 'ssbscomp', 'text': t}
    if cls == 'deep':
        n = [40, 150, 220, 90][seed % 4]
        return {'kind': 'comp', 'text': 'def 0 {\n' + 'if (debug) {' * n + 'a();' + '}' * n + '}'}
    if cls == 'attr':
        s = ssbs_text(rng)
        return {'kind': 'comp', 'text': '//?: is-ssb-script: true\n' + s}
    # compile: programs and projects; the files of all of them have the same names
    # (the projects of the classes comp and near with the same seed are the same)
    pr = project.project(seed * 7 + 5, nfiles=[1, 2, 3, 4, 3][seed % 5])
    texts = {}
    for p, f in pr['files'].items():
        f['imports'] = [project.import_text('/nonexistent', p, st if st != 'abs' else 'rel', t, pr['lookup']) for st, t in pr['imports'][p]]
        texts[p] = lang.render(f)
    t = texts.pop(pr['main'])
    if cls == 'near':
        # the project of an input of class comp in which one imported file, or only the main file, is another
        fn = rng.choice(sorted(texts)) if texts and seed % 3 else None
        old = texts.get(fn, t)
        k = [j for j, c in enumerate(old) if c == '{' and 'macro' in old[:j]] if fn else [j for j, c in enumerate(old) if c == ';']
        if not k:
            return None
        j = k[-1]
        new = old[:j + 1] + ' near_op(%d); ' % seed + old[j + 1:]
        if fn:
            texts[fn] = new
        else:
            t = new
        return {'kind': 'comp', 'text': t, 'files': texts}
    if cls == 'comp':
        return {'kind': 'comp', 'text': t, 'files': texts}
    if cls == 'round':
        return {'kind': 'round', 'text': t, 'files': texts}
    if cls == 'noparse':
        k = rng.randint(0, len(t) - 1)
        return {'kind': 'comp', 'text': t[:k] + rng.choice(['', ' } ', ' ( ', '"']), 'files': texts}
    if cls == 'nocomp':
        bad = rng.choice(['jump @nowhere__;', '~nomacro();', 'break;', 'break_loop;', 'continue;', '§twice;§twice;', 'return;'])
        k = rng.choice([i for i, c in enumerate(t) if c == ';'] or [0])
        return {'kind': 'comp', 'text': t[:k + 1] + bad + t[k + 1:], 'files': texts}
    if cls == 'noimport':
        if seed % 2 and texts:
            fn = rng.choice(sorted(texts))
            texts[fn] += rng.choice(['def 0 { a(); }', 'macro x( { }', 'macro own() { ~own(); } '])
            return {'kind': 'comp', 'text': t, 'files': texts}
        return {'kind': 'comp', 'text': 'import "%s";\n' % rng.choice(['nowhere.exps', './x/y.exps', '../a/../b.exps']) + t, 'files': texts}
    raise ValueError(cls)


def ssbs_text(rng):
    from .. import ssbs
    t = ssbs.write(ssbs.random_set(rng, wild=rng.random() < 0.2), rng)
    return t[0] if isinstance(t, tuple) else t


def small(i):
    if i is None:
        return False
    if 'set' in i:
        return sum(len(r['ops']) for r in i['set']['routines']) <= 45
    if 'doc' in i:
        return sum(len(r['ops']) for r in i['doc']['routines']) <= 45
    return len(i.get('text', '')) <= 5000


def baseline(arg):
    i, seed = arg
    return memo.fresh(i, seed)


def safe_gen(arg):
    try:
        i = gen_input(arg)
    except Exception:
        return None
    return i if small(i) else None


WANT = {'dec': 30, 'odd': 16, 'ssbsdec': 8, 'cli': 8, 'ssbscomp': 8, 'deep': 4, 'attr': 5, 'comp': 16, 'round': 8, 'noparse': 8, 'nocomp': 8, 'noimport': 6, 'near': 16}


def inputs(ctx, scale=1, ok=small, tries=2):
    """inputs with the result each has alone, by class"""
    want = [(c, ctx.seed * 1000 + k) for c in sorted(WANT) for k in range(WANT[c] * scale * (1 if c == 'deep' else tries))]
    got = pmap(safe_gen, want)
    per, ins = {}, []
    for (c, s), i in zip(want, got):
        if i is not None and ok(i) and per.get(c, 0) < WANT[c] * scale:
            per[c] = per.get(c, 0) + 1
            i['id'] = len(ins)
            i['gen'], i['seed'] = c, s
            ins.append(i)
    res = pmap(baseline, [(i, ctx.rng.randint(0, 4000000000)) for i in ins], jobs=8, chunk=1)
    out = []
    for i, r in zip(ins, res):
        if 'died' in r:
            raise RuntimeError(r['died'])
        if r['r'].get('raises') == 'HANG':
            ctx.add('inputs without an answer left out')
            continue
        i['alone'], i['full'] = r['d'], r['r']
        if not r['arg']:
            i['changes'] = True
        k = i['kind']
        if k in ('dec', 'round'):
            k = 'raises' if 'raises' in r['r'] else 'fallback' if r['r']['text'].startswith('//?:') else k
            if i['kind'] == 'round' and k != 'round':
                k = 'round-odd'
        elif k == 'comp':
            k = {'comp': 'comp', 'deep': 'deep', 'attr': 'attr'}.get(i['gen'], 'comp')
            k = ('failing' if 'raises' in r['r'] and k != 'deep' else k)
            if k == 'failing' and r['r']['raises'] == 'ParseError':
                k = 'noparse'
        i['cls'] = k
        i['id'] = len(out)
        out.append(i)
    return out


REUSE = {'dec': ['new', 'args', 'same'], 'raises': ['new', 'args', 'same'], 'fallback': ['new', 'args', 'same'], 'ssbsdec': ['new', 'args', 'same'],
         'comp': ['new', 'same'], 'failing': ['new', 'same'], 'noparse': ['new', 'same'], 'attr': ['new', 'same'], 'deep': ['new', 'same'],
         'ssbscomp': ['new', 'same']}
PSEUDO = ['gc', 'junk', 'drop', 'abort']


# ------------------------------------------------------------------ replay
def steer():
    """ids of dead objects are given to new ones at once, as far as the modules under test ask for ids"""
    import sys
    import weakref
    free, ids, nxt = [], {}, [1]

    def adv(o, real=id):
        k = real(o)
        if k in ids and ids[k][0]() is o:
            return ids[k][1]
        try:
            v = free.pop() if free else nxt[0] * 16
            if v == nxt[0] * 16:
                nxt[0] += 1

            def gone(ref, k=k, v=v):
                free.append(v)
                if k in ids and ids[k][0] is ref:
                    del ids[k]
            ids[k] = (weakref.ref(o, gone), v)
            return v
        except TypeError:
            free.append(v)
            return k * 2 + 1   # never one of the above
    for n, m in list(sys.modules.items()):
        if n.startswith('explorerscript') and m is not None and 'id' not in m.__dict__:
            m.__dict__['id'] = adv


def run_history(arg):
    calls, adv = arg     # [(input, reuse)]
    memo.path()
    if adv:
        import explorerscript.ssb_converting.ssb_compiler  # noqa
        import explorerscript.ssb_converting.ssb_decompiler  # noqa
        steer()
    out, kept = [], {}
    with memo.Scratch() as d:
        p = memo.Proc(d)
        for i, reuse in calls:
            n = len(p.results)
            r, b, a = p.call(i, reuse)
            e = {'inp': i['id'] + 1 if i['kind'] not in PSEUDO else 0, 'res': memo.digest(r), 'before': memo.digest(b), 'after': memo.digest(a),
                 'kept': '', 'late': ''}
            if i['kind'] == 'drop':
                kept.clear()
            if len(p.results) > n:
                kept[len(out)] = p.results[-1]
                e['kept'] = memo.digest(p.results[-1]())
            e['full'] = r
            out.append(e)
        for k, f in kept.items():
            out[k]['late'] = memo.digest(f())
    return out


def replayed(arg):
    return memo.forked(run_history, arg)


def describe(i):
    if 'set' in i:
        out = []
        for r in i['set']['routines']:
            out.append('  -- %s %s' % (r['kind'], r['name']))
            out += ['  %d %s %s%s' % (o['o'], o['n'], [a.get('v', a) for a in o['a']], ' -> %s' % o['t'] if o['t'] is not None else '') for o in r['ops']]
        return '\n'.join(out[:40])
    return i.get('text', str(i.get('doc', '')))[:1500]


def difference(a, b):
    if set(a) != set(b):
        return 'alone: %s, here: %s' % (a.get('raises', 'a result'), b.get('raises', 'a result'))
    for k in sorted(a):
        if a[k] != b[k]:
            x, y = str(a[k]), str(b[k])
            n = next((j for j in range(min(len(x), len(y))) if x[j] != y[j]), min(len(x), len(y)))
            return '%s: alone ...%s..., here ...%s...' % (k, x[max(0, n - 60):n + 80], y[max(0, n - 60):n + 80])
    return ''


def judge(ctx, ins, runs, recs, what):
    """runs: [(calls, adv)]; recs: recordings"""
    ok = []
    for k, r in enumerate(recs):
        if isinstance(r, dict):
            raise RuntimeError('history died: ' + r['died'])
        ok.append({'id': k, 'calls': [{x: c[x] for x in ('inp', 'res', 'before', 'after', 'kept', 'late')} for c in r if c['inp']]})
    alone = [i['alone'] for i in ins]
    batches = [{'alone': alone, 'runs': ok[k::4]} for k in range(4) if ok[k::4]]
    verdicts = [v for r in tlc.tlc_batches('HistCheck', batches, jobs=4, workers=2) for v in r.verdicts]
    if len(verdicts) != len(ok):
        raise RuntimeError('HistCheck: %d verdicts for %d histories' % (len(verdicts), len(ok)))
    ctx.add('%s judged' % what, len(ok))
    ctx.add('calls judged', sum(len(x['calls']) for x in ok))
    for v in sorted(verdicts, key=lambda v: len(runs[v['id']][0])):
        if v['ok']:
            continue
        calls, adv = runs[v['id']]
        rec = [(c, r) for c, r in zip(calls, recs[v['id']]) if r['inp']]
        (i, reuse), r = rec[v['at'] - 1]
        names = ', '.join('%s#%s/%s' % (c[0].get('cls', c[0]['kind']), c[0].get('id', ''), c[1]) for c in calls)
        if v['why'] == 'result':
            msg = 'another result than in a process of its own: ' + difference(i['full'], r['full'])
        elif v['why'] == 'arguments':
            msg = 'the ops it was given are changed'
        else:
            msg = 'a result it returned is changed by later calls'
        ctx.violation('%s:%s:%s' % (v['why'], i['cls'], memo.digest(i.get('set', i.get('text', '')))),
                      '%s call of the history [%s]%s: %s\ninput:\n%s' % (v['at'], names, ' (ids recycled)' if adv else '', msg, describe(i)),
                      {'calls': [[{k: x for k, x in c[0].items() if k not in ('full', 'alone')}, c[1]] for c in calls], 'adv': adv})


def run(ctx):
    for cfg, code in (('Memo1', 0), ('MemoStale', 12)):
        r = tlc.tlc('Memo', cfg=cfg, workers=4, ok_codes=(code,))
        if code == 0:
            ctx.add('states of the memo model', r.distinct)
    if not ctx.quick:
        ctx.add('states of the memo model', tlc.tlc('Memo', cfg='Memo2', workers=8).distinct)
    ins = inputs(ctx, ctx.n(1, 4))
    by = {}
    for i in ins:
        by.setdefault(i['cls'], []).append(i)
        if i.get('changes'):
            ctx.violation('arguments:%s:%s' % (i['cls'], memo.digest(i.get('set', i.get('text', '')))), 'the ops it was given are changed\n' + describe(i),
                          {'calls': [[{k: x for k, x in i.items() if k not in ('full', 'alone')}, 'new']], 'adv': False})
    for k in by:
        ctx.add('inputs %s' % k, len(by[k]))
    classes = sorted(by)
    cl = [{'kind': c, 'reuse': REUSE.get(c, ['new'])} for c in classes] + [{'kind': 'pseudo', 'reuse': [p]} for p in PSEUDO]
    two = [v['h'] for v in tlc.tlc('Histories', {'classes': cl, 'len': 2, 'inputs': 2}, workers=2).verdicts]
    ctx.add('histories of two calls', len(two))
    long = []
    for n, num in ((3, ctx.n(200, 3000)), (6, ctx.n(60, 800)), (12, ctx.n(40, 500))):
        seen = {}
        for v in tlc.tlc('Histories', {'classes': cl, 'len': n, 'inputs': 3}, workers=2, simulate=(num * 2, n + 1, ctx.seed)).verdicts:
            seen.setdefault(str(v['h'][:-1]), []).append(v['h'])
        long += [ctx.rng.choice(seen[k]) for k in sorted(seen)][:num]
    ctx.add('longer histories', len(long))

    slow = {'deep', 'cli', 'round', 'round-odd'}
    brk = [i for i in ins if i['cls'] not in slow]

    def pseudo(k, rng):
        if k != 'abort':
            return {'kind': k, 'id': -1}
        i = rng.choice(brk)
        return {'kind': 'abort', 'id': i['id'], 'cls': 'abort', 'of': {x: i[x] for x in i if x not in ('full', 'alone')}, 'at': int(2 ** rng.uniform(3, 15))}

    def concrete(h, rng):
        pick, calls = {}, []
        for c, i, r in h:
            if cl[c - 1]['kind'] == 'pseudo':
                calls.append((pseudo(cl[c - 1]['reuse'][0], rng), 'new'))
                continue
            pool = by[cl[c - 1]['kind']]
            if (c, i) not in pick:
                left = [x for x in pool if x['id'] not in [y['id'] for y in pick.values()]] or pool
                pick[c, i] = rng.choice(left)
            calls.append((pick[c, i], cl[c - 1]['reuse'][r - 1]))
        return calls
    runs = []
    for h in two:
        for _ in range(ctx.n(1, 6)):
            runs.append((concrete(h, ctx.rng), ctx.rng.random() < 0.5))
    for h in long:
        runs.append((concrete(h, ctx.rng), ctx.rng.random() < 0.5))
    # every input after one that failed, and twice with the same objects
    bad = [i for c in ('raises', 'failing', 'noparse', 'fallback') for i in by.get(c, [])]
    for i in ins:
        for b in ctx.rng.sample(bad, min(len(bad), ctx.n(2, 8))):
            runs.append(([(b, 'new'), (i, 'new')], True))
        runs.append(([(i, 'same'), (i, 'same'), (i, 'args')], False))
        if i['cls'] not in slow:
            for _ in range(ctx.n(2, 10)):
                runs.append(([(pseudo('abort', ctx.rng), 'new'), (i, 'new'), (pseudo('abort', ctx.rng), 'new'), (i, 'new')], True))
    # the same project before and after a change
    for i in ins:
        for j in ins:
            if i['gen'] == 'comp' and j['gen'] == 'near' and i['seed'] == j['seed']:
                ctx.add('changed projects')
                runs += [([(i, r), (j, r), (i, r)], False) for r in ('new', 'same')]
    slim = [([({k: x for k, x in i.items() if k not in ('full', 'alone')}, r) for i, r in calls], adv) for calls, adv in runs]
    recs = pmap(replayed, slim)
    judge(ctx, ins, runs, recs, 'histories')
    ctx.sample([[c[0].get('cls', c[0]['kind']), c[0].get('id', ''), c[1]] for c in runs[-1][0]])
    ctx.sample([[c[0].get('cls', c[0]['kind']), c[0].get('id', ''), c[1]] for c in runs[len(two)][0]])


def replay(data):
    calls = [(c[0], c[1]) for c in data['calls']]
    base = {}
    for i, _ in calls:
        if i['kind'] not in PSEUDO:
            base[i['id']] = memo.fresh(i, 12345)
    rec = memo.forked(run_history, (calls, data['adv']))
    bad = False
    for (i, reuse), r in zip(calls, rec):
        if not r['inp']:
            continue
        b = base[i['id']]
        why = []
        if r['res'] != b['d']:
            why.append(difference(b['r'], r['full']))
        if r['before'] != r['after'] or not b['arg']:
            why.append('the ops it was given are changed')
        if r['late'] and r['late'] != r['kept']:
            why.append('changed by later calls')
        print(i.get('cls'), i['id'], reuse, why or 'as alone')
        bad = bad or bool(why)
    return bad
