"""C15: the two commands and the documents between them."""
import json
import os
import random
import re
from concurrent.futures import ThreadPoolExecutor
from .. import cli, decsets, equiv, flatten, forms, lang, norm, params, progs, project, real, setgen, ssbs, tlc
from ..equiv import Pair
from ..pool import pmap

LEVEL = 'translation_validation'
TECHNIQUE = 'TLA+ document reader and product automaton (TLC) over recorded runs of both commands'
NOTE = ('Cli.tla specifies the documented JSON structure and what a document denotes; CliCheck.tla walks the printed documents op by op next to '
        'the compiler\'s list, numbering ops from 1, and judges the exit statuses of both commands; Equiv.tla compares the text the decompile command '
        'prints (compiled again) with the document and with the source on every path. Programs: all surface forms, small and random programs, macro '
        'projects, marked SsbScript, id gaps; documents: every routine type and argument type, compiler-shaped control flow, broken documents. '
        'Most runs execute the command module inside a worker, a sample as real processes. Where the library\'s decompiler gives the very text '
        'the command prints, a behaviour difference counts against C02.')


LARGE = 60      # the decompiler may take very long on scripts with more ops


def put(root, name, text):
    fn = os.path.join(root, name)
    with open(fn, 'w', encoding='utf-8', newline='') as f:
        f.write(text)
    return fn


def api(text, fn, lookup):
    comp = real.ExplorerScriptSsbCompiler(real.PERF, lookup)
    try:
        with real.cpu_limit(30):
            comp.compile(text, fn)
    except real.Hang:
        return {'ok': False, 'exc': 'HANG'}
    except Exception as e:
        return real.exc_facts(e)
    return {'ok': True, 'ops': cli.oplist(comp), 'table': real.table_of(comp.routine_infos, comp.named_coroutines),
            'sm': comp.source_map.serialize()}


def compile_run(root, fn, text, lookup, run, extra=()):
    """both commands on a source file"""
    with open(fn, encoding='utf-8') as f:
        r = api(f.read(), fn, lookup)
    st = put(root, 'settings.json', json.dumps({'settings': cli.SETTINGS}))
    argv = [os.path.relpath(fn, root), '--settings', st]
    if lookup:
        argv += ['--lookup'] + [os.path.relpath(x, root) for x in lookup]
    status, out, err = run('compile', argv + list(extra), root)
    d = cli.load(out)
    res = {'acc': r['ok'], 'status': status, 'json': d is not None, 'doc': d or cli.tree(None), 'ops': r.get('ops', []),
           'table': r.get('table', []), 'settings': cli.tree(cli.SETTINGS), 'err': err[-600:], 'out': out, 'text': text}
    if r['ok'] and status == 0 and d is not None and len(res['ops']) <= LARGE:
        decompile(root, out, res, run)
    return res


def decompile(root, doc, res, run):
    fn = put(root, 'doc.json', doc)
    status, out, err = run('decompile', [fn], root)
    res['dstatus'], res['derr'], res['dout'] = status, err[-600:], out
    try:
        s = cli.from_document(json.loads(doc))
        facts, tab = real.set_facts(s)
    except (ValueError, KeyError, TypeError, AttributeError):
        return res
    res['docm'] = norm.dmode(real.ssb_machine(facts, tab))
    d = real.decompile_set(s)
    res['apitext'] = d.get('text')
    res['apimsg'] = '' if d['ok'] else '%s: %s' % (d['exc'], d['msg'])
    if status == 0:
        r = real.compile_text(out)
        res['again'] = {k: r.get(k) for k in ('ok', 'exc', 'msg')}
        if r['ok']:
            res['back'] = norm.dmode(real.ssb_machine(r['ops'], r['table']))
    return res


def case(a):
    kind, x = a[0], a[1]
    run = cli.process if len(a) > 2 and a[2] else cli.inline
    with project.Scratch() as root:
        if kind == 'project':
            pr = project.project(x)
            texts = project.write(pr, root)
            res = compile_run(root, os.path.join(root, pr['main']), texts[pr['main']], [os.path.join(root, d) for d in pr['lookup']], run)
            res['src'] = flatten.flatten(pr['files'][pr['main']], project.macro_table(pr))
            res['text'] = '\n'.join('// --- %s\n%s' % (p, t) for p, t in texts.items())
        elif kind == 'doc':
            res = {'text': x, 'doc': cli.load(x)}
            decompile(root, x, res, run)
        else:
            if kind == 'ast':
                ast, text = x, lang.render(x)
            elif kind == 'seed':
                ast = program(x)
                text = lang.render(ast)
            else:
                ast, text = None, x
            res = compile_run(root, put(root, 'main.exps', text), text, [], run)
            if ast is not None and not gaps(ast):
                res['src'] = flatten.flatten(ast)
    res['how'] = list(a)
    res['kind'] = 'decompile' if kind == 'doc' else 'compile'
    return res


def gaps(ast):
    return any(r['k'] == 'def' and r['id'] != i for i, r in enumerate(ast['routines']))


def program(seed):
    rng = random.Random('cli%d' % seed)
    over = rng.choice([{}, {}, {'terminate': False}, {'strings': 'wild', 'depth': 2}])
    ast = progs.random_program(seed, **over)
    if rng.random() < 0.25 and all(r['k'] == 'def' for r in ast['routines']):
        d = rng.choice([0, 1, 2])
        for i, r in enumerate(ast['routines']):
            d += rng.choice([0, 0, 1])
            r['id'] = i + d
    return ast


# ------------------------------------------------------------------- documents
def straight(seed):
    """a document without jumps: every routine type and every argument type"""
    rng = random.Random('doc%d' % seed)
    rs = []
    for i in range(rng.choice([1, 1, 2, 3, 5])):
        k = rng.choice(['', 'actor', 'object', 'performer', 'coro', 'coro'])
        r = {'kind': k, 'target': None, 'name': 'CORO_N%d' % rng.choice([i, i + 3, 9 - i]) if k == 'coro' else '', 'ops': []}
        if k and k != 'coro':
            r['target'] = rng.choice([{'k': 'int', 'v': rng.choice([0, 1, 2, 255, 256, 257, 300, 4000])}, {'k': 'const', 'v': rng.choice(params.CONSTS[:2] + ['ACTOR_X', 'A'])}])
        for _ in range(rng.choice([1, 1, 2, 4])):
            a = [params.param(rng, False) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
            if rng.random() < 0.3:
                a.append({'k': 'pos', 'name': rng.choice(['m', 'a b', '']), 'x': rng.choice([0, 1, 7, 10, 255]), 'xh': rng.random() < 0.5,
                          'y': rng.choice([0, 5, 20, 55]), 'yh': rng.random() < 0.5})
            r['ops'].append({'o': 0, 'n': rng.choice(['op', 'back_SetGround', 'debug_Print', 'op_2']), 'a': a, 't': None})
        r['ops'].append({'o': 0, 'n': rng.choice(['Return', 'End', 'Hold']), 'a': [], 't': None})
        rs.append(r)
    o = 0
    for r in rs:
        for op in r['ops']:
            o += 1
            op['o'] = o
    return json.dumps(cli.document({'routines': rs}, rng), indent=rng.choice([None, None, 2]), ensure_ascii=rng.random() < 0.5)


def shaped(seed):
    rng = random.Random('shape%d' % seed)
    s = decsets.make(rng.choice(['flat', 'comp', 'lay']), seed, rng.choice(['simple', 'rich']))
    if s is None or any('\r' in json.dumps(op['a'], ensure_ascii=False) for r in s['routines'] for op in r['ops']):
        return None
    t = json.dumps(cli.document(s, rng))
    return None if '\\r' in t or sum(len(r['ops']) for r in s['routines']) > LARGE else t


def corrupt(text, rng):
    """a document with a piece missing or of an unknown kind"""
    d = json.loads(text)
    k = rng.choice(['settings', 'sub', 'routines', 'ops', 'rtype', 'rname', 'opcode', 'params', 'ptype', 'pdrop', 'newtype', 'json'])
    r = rng.choice(d['routines'])
    ps = [p for q in d['routines'] for op in q['ops'] for p in op['params'] if isinstance(p, dict)]
    op = rng.choice(r['ops']) if r['ops'] else None
    if k == 'settings':
        del d['settings']
    elif k == 'sub':
        x = rng.choice(['performance_progress_list_var_name', 'dungeon_mode_constants', 'open', 'closed', 'request', 'open_request'])
        d['settings'] = json.loads(json.dumps(d['settings']))
        (d['settings'] if x in d['settings'] else d['settings']['dungeon_mode_constants']).pop(x)
    elif k == 'routines':
        del d['routines']
    elif k == 'ops':
        del r['ops']
    elif k == 'rtype':
        if rng.random() < 0.5:
            del r['type']
        else:
            r['type'] = rng.choice(['MACRO', 'generic', '', 'CORO'])
    elif k == 'rname':
        r.pop('name', None)
        r.pop('target_id', None)
    elif k == 'opcode' and op:
        del op['opcode']
    elif k == 'params' and op:
        del op['params']
    elif k == 'ptype' and ps:
        rng.choice(ps)['type'] = rng.choice(['FLOAT', 'STRING', 'const', 'POSITION'])
    elif k == 'pdrop' and ps:
        p = rng.choice(ps)
        p.pop(rng.choice(['type', 'value']))
    elif k == 'newtype':
        r['type'] = rng.choice(['ACTOR', 'OBJECT', 'PERFORMER', 'COROUTINE'])
        r.pop('name', None)
        r.pop('target_id', None)
    elif k == 'json':
        t = json.dumps(d)
        return t[:rng.randint(0, len(t) - 1)]
    return json.dumps(d)


# --------------------------------------------------------------------- verdicts
FIELDS = {'compile': ('acc', 'status', 'json', 'doc', 'ops', 'table', 'settings')}


def judge(ctx, results):
    cases, pairs, by = [], [], {}
    for i, r in enumerate(results):
        by[str(i)] = r
        ctx.add('runs of the %s command' % r['kind'])
        if r['kind'] == 'compile':
            cases.append(dict({k: r[k] for k in FIELDS['compile']}, id=str(i), kind='compile'))
            if 'dstatus' in r:
                ctx.add('runs of the decompile command')
        if 'dstatus' in r:
            cases.append({'id': str(i) + 'd', 'kind': 'decompile', 'status': r['dstatus'], 'doc': r['doc'] or cli.tree(None), 'acc': False})
            by[str(i) + 'd'] = r
        if 'docm' in r:
            if 'src' in r:
                pairs.append(Pair('s%d' % i, norm.dmode(r['src']), r['docm'], tab=False))
            if 'back' in r:
                pairs.append(Pair('b%d' % i, r['docm'], r['back']))
    bad = {}
    k = 6 if len(cases) > 100 else 1
    for t in tlc.tlc_batches('CliCheck', [{'cases': cases[j::k]} for j in range(k)], jobs=3, workers=2):
        ctx.add('states', t.distinct)
        ctx.add('transitions', t.states)
        for v in t.verdicts:
            bad[v['id']] = v['clause'] + (' (routine %d, op %d)' % (v['routine'] - 1, v['op']) if v['op'] else '')
    ctx.add('documents walked', sum(1 for c in cases if c['kind'] == 'compile' and c['json']))
    eb, _ = equiv.check(ctx, pairs)
    out = []
    for id, what in bad.items():
        r = by[id]
        if id.endswith('d') and what.startswith('rejects') and r.get('apimsg'):
            # the decompiler itself has no answer for this routine set: C06
            ctx.add('no answer of the decompiler (C06)')
            continue
        out.append((r, what))
    for id, vs in eb.items():
        r = by[id[1:]]
        if id[0] == 'b' and r['apitext'] is not None and r['apitext'].rstrip('\n') == r['dout'].rstrip('\n'):
            ctx.add('text of the library\'s decompiler (C02)')
            continue
        out.append((r, ('document against the source: ' if id[0] == 's' else 'decompiled text against the document: ') + equiv.describe(vs[0])))
    for r in results:
        if r.get('again') and not r['again']['ok']:
            if r['apitext'] is not None and r['apitext'].rstrip('\n') == r['dout'].rstrip('\n'):
                ctx.add('text of the library\'s decompiler (C02)')
            else:
                out.append((r, 'the printed text does not compile: %s' % r['again']))
    for r, what in sorted(out, key=lambda x: len(x[0]['text'])):
        ctx.violation('cli:' + r['text'], '%s command: %s\n%s\n%s%s' % (r['kind'], what, r['text'][:3000], r.get('err', ''), r.get('derr', '')),
                      {'how': r['how'], 'what': what})
    for r in results[:1]:
        ctx.sample({'text': r['text'][:400], 'status': r.get('status'), 'dstatus': r.get('dstatus')})
    return [w for _, w in out]


def missing_things(ctx):
    """commands that cannot do their work"""
    good = 'def 0 {\n    op();\n    end;\n}\n'
    doc = json.dumps(cli.document({'routines': [{'kind': '', 'target': None, 'name': '', 'ops': [{'o': 1, 'n': 'End', 'a': [], 't': None}]}]}))
    files = {'a.exps': good, 'bad.exps': 'def 0 {', 'empty.exps': '', 's.json': json.dumps({'settings': cli.SETTINGS}), 'list.json': '[]',
             'cut.json': '{"settings": {', 'd.json': doc, 'empty.json': ''}
    S = ['--settings', 's.json']
    todo = [('compile', ['a.exps'] + S, True), ('compile', ['a.exps'], False), ('compile', ['none.exps'] + S, False),
            ('compile', ['a.exps', '--settings', 'none.json'], False), ('compile', ['a.exps', '--settings', 'cut.json'], False),
            ('compile', ['a.exps', '--settings', 'list.json'], False), ('compile', ['bad.exps'] + S, False), ('compile', [] + S, False),
            ('compile', ['a.exps'] + S + ['--source-map', 'out.sm'], True), ('compile', ['a.exps'] + S + ['--source-map', 'no/dir/out.sm'], False),
            ('compile', ['a.exps'] + S + ['--lookup', 'x', 'y'], True), ('compile', ['--lookup', 'x', '--settings', 's.json', '--', 'a.exps'], True),
            ('compile', ['.'] + S, False), ('compile', ['a.exps', '--settings', 'd.json'], True),
            ('decompile', ['d.json'], True), ('decompile', ['none.json'], False), ('decompile', [], False), ('decompile', ['s.json'], False),
            ('decompile', ['cut.json'], False), ('decompile', ['list.json'], False), ('decompile', ['empty.json'], False), ('decompile', ['a.exps'], False),
            ('decompile', ['d.json', '--source-map', 'out2.sm'], True), ('decompile', ['d.json', '--source-map', 'no/dir/x.sm'], False), ('decompile', ['.'], False)]
    for k in ['performance_progress_list_var_name', 'dungeon_mode_constants', 'closed', 'open', 'request', 'open_request']:
        s = json.loads(doc)
        for x in (s['settings'], s['settings']['dungeon_mode_constants']):
            x.pop(k, None)
        files['no_%s.json' % k] = json.dumps(s)
        todo += [('compile', ['a.exps', '--settings', 'no_%s.json' % k], False), ('decompile', ['no_%s.json' % k], False)]
    with project.Scratch() as root:
        for n, t in files.items():
            put(root, n, t)
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(lambda t: cli.process(t[0], t[1], root), todo))
        for (c, argv, ok), (status, out, err) in zip(todo, res):
            ctx.add('runs with given arguments')
            wrote = not ('--source-map' in argv and ok) or os.path.exists(os.path.join(root, argv[argv.index('--source-map') + 1]))
            if (status == 0) != ok or (ok and not out.strip()) or not wrote:
                ctx.violation('args %s %s' % (c, argv), '%s %s: exit status %d although it %s\n%s' % (c, argv, status, 'has everything it needs' if ok else 'cannot succeed', err[-500:]),
                              {'how': ['args']})


def run(ctx):
    b = ctx.seed * 1000000
    missing_things(ctx)
    cases = [('ast', p) for _, p in forms.forms()]
    if ctx.quick:
        cases = ctx.rng.sample(cases, min(len(cases), 500))
    for size in (1, 2):
        small = [p for p in forms.small(size, 3)]
        cases += [('ast', p) for p in (small if not ctx.quick else ctx.rng.sample(small, min(len(small), 150)))]
    cases += [('seed', b + i) for i in range(ctx.n(500, 8000))]
    cases += [('project', b + i) for i in range(ctx.n(250, 4000))]
    for i in range(ctx.n(60, 600)):
        rng = random.Random('m%d' % (b + i))
        cases.append(('text', '//?: is-ssb-script: true\n' + ssbs.write(setgen.renumber(ssbs.random_set(rng, wild=False)), rng)))
    # programs with a mistake, from C10's generators
    from . import c10
    # (numbers of more than 4300 digits cannot be printed by Python at all)
    cases += [('text', t) for t in c10.ODD if not re.search('[0-9a-fA-F]{2000}|[\ud800-\udfff]', t)]
    docs = [straight(b + i) for i in range(ctx.n(400, 6000))] + [shaped(b + i) for i in range(ctx.n(250, 5000))]
    docs = [d for d in docs if d]
    cases += [('doc', d) for d in docs]
    cases += [('doc', corrupt(ctx.rng.choice(docs[:ctx.n(200, 3000)]), ctx.rng)) for _ in range(ctx.n(200, 3000))]
    real_ones = ctx.rng.sample(cases, ctx.n(60, 500))
    for i in range(0, len(cases), 4000):
        judge(ctx, pmap(case, cases[i:i + 4000]))
    judge(ctx, pmap(case, [c + (True,) for c in real_ones]))
    ctx.cov['generators'] = ('surface forms, small and random programs, macro projects, marked SsbScript, odd texts; documents with every routine and '
                             'argument type, compiler-shaped documents, broken documents; missing files and arguments')


def replay(data):
    from ..core import Ctx
    ctx = Ctx('C15', 'quick', 0, LEVEL)
    how = data['how']
    if how[0] == 'args':
        missing_things(ctx)
    else:
        r = case(tuple(how))
        print(r['text'])
        print(r.get('status'), r.get('out'), r.get('err'), r.get('dstatus'), r.get('dout'), r.get('derr'))
        judge(ctx, [r])
    for _, w, _ in ctx.bad:
        print(w)
    return bool(ctx.bad)
