"""C10: documented exceptions only; statically meaningless programs are rejected."""
import collections
import copy
import json
import os
import random
from .. import cli, gen, lang, progs, project, real, ssbs, static, tlc
from ..pool import pmap

LEVEL = 'exhaustive_bounded'
TECHNIQUE = 'TLA+ pushdown specification of the static rules (TLC); all small programs, import and macro graphs it generates compiled, recorded compilations checked by TLC'
NOTE = ('StaticRules.tla reads a project as events (blocks opened and closed, statements, names) and says which rules it breaks. TLC prints every '
        'small program over three alphabets, every import graph over 3 files and every macro call graph over 3 macros (bounds in the evidence) with '
        'that verdict; each is written out with random surface forms and compiled. Mutated large projects, token and character corruptions, '
        'SsbScript texts, degenerate and deeply nested texts are compiled too; TLC judges the recorded outcomes, with the rules wherever the text is '
        'a program. A label of a macro counts as defined only in that macro. `not` on a bit test of a macro variable is not judged.')
DOC = ('ParseError', 'SsbCompilerError', 'ValueError')


def E(k, n='', a=0):
    return {'k': k, 'n': n, 'a': a}


CTL = [E(k) for k in ('routine', 'op', 'break', 'cont', 'brkl', 'if', 'elif', 'else', 'loop', 'switch', 'case', 'default', 'msw', 'str', 'with')]
LAB = [E('routine'), E('macro', 'm'), E('mcall', 'm'), E('label', 'a'), E('label', 'b'), E('jump', 'a'), E('jump', 'b'), E('call', 'a'), E('if'),
       E('switch'), E('case'), E('with'), E('loop')]
BIT = [E('routine'), E('op'), E('if'), E('if', 'notbit'), E('elif', 'notbit'), E('elif'), E('else'), E('loop', 'notbit'), E('switch'), E('case'), E('default')]


def families(ctx):
    q = ctx.quick
    out = [('control, 1 leaf', 'StaticGen', {'evs': CTL, 'max': 10 if q else 12, 'depth': 6, 'arms': 2, 'leaves': 1, 'nitems': 1}),
           ('control, 2 leaves', 'StaticGen', {'evs': CTL, 'max': 10 if q else 11, 'depth': 5, 'arms': 2, 'leaves': 2, 'nitems': 1}),
           ('control, 3 leaves', 'StaticGen', {'evs': CTL, 'max': 9 if q else 10, 'depth': 5, 'arms': 3, 'leaves': 3, 'nitems': 1}),
           ('labels', 'StaticGen', {'evs': LAB, 'max': 9 if q else 10, 'depth': 4, 'arms': 1, 'leaves': 3, 'nitems': 2}),
           ('bit tests', 'StaticGen', {'evs': BIT, 'max': 10 if q else 12, 'depth': 5, 'arms': 2, 'leaves': 1, 'nitems': 1}),
           ('import graphs', 'StaticGraph', {'family': 'imports', 'n': 3, 'out': 2}),
           ('macro graphs', 'StaticGraph', {'family': 'macros', 'n': 3, 'out': 1 if q else 2, 'params': 1})]
    return out


def pick(rng, vs, n):
    """n of the programs, the sets of broken rules equally often; half of them break at most one rule"""
    by = collections.defaultdict(list)
    for v in vs:
        by[tuple(sorted(v['r']))].append(v)
    for l in by.values():
        rng.shuffle(l)
    out, keys = [], sorted(by, key=lambda k: (len(k), k))
    one = [k for k in keys if len(k) <= 1]
    for ks, lim in ((one, n * 3 // 4), (keys, n)):
        i = 0
        while len(out) < lim and any(by[k] for k in ks):
            k = ks[i % len(ks)]
            if by[k]:
                out.append(by[k].pop())
            i += 1
    return out


def outcome(text, file_name='/nonexistent/main.exps', lookup=()):
    comp = real.ExplorerScriptSsbCompiler(gen.PERF, list(lookup))
    try:
        with real.cpu_limit(30):
            comp.compile(text, file_name)
    except real.Hang:
        return {'ok': False, 'exc': 'HANG', 'mro': ['HANG'], 'msg': 'no answer', 'where': ''}
    except BaseException as e:
        return real.exc_facts(e)
    return {'ok': True}


LAYOUTS = [lambda f, n: './%s.exps' % n, lambda f, n: './%s.exps' % n, lambda f, n: '../q/%s.exps' % n, lambda f, n: '%s.exps' % n]


def run_events(a):
    evs, seed = a
    rng = random.Random(seed)
    files = static.Text(evs, rng, rng.choice(LAYOUTS)).files
    sep = rng.choice(['\n', '\n', ' '])
    texts = {n: sep.join(l) for n, l in files.items()}
    if len(texts) == 1 and 'import' not in texts['main']:
        return texts['main'], outcome(texts['main'])
    with project.Scratch() as root:
        d = os.path.join(root, 'q')
        os.mkdir(d)
        for n, t in texts.items():
            with open(os.path.join(d, n + '.exps'), 'w') as f:
                f.write(t)
        r = outcome(texts['main'], os.path.join(d, 'main.exps'), [d])
    return '\n'.join('// --- %s.exps\n%s' % x for x in texts.items()), r


def norm_evs(v):
    return [list(e) for e in v['e']]


# ---- mutated projects ----------------------------------------------------------------------------------------------

def bodies(x, out=None, kind=None):
    """every statement list of a tree"""
    out = [] if out is None else out
    if isinstance(x, dict):
        for k, v in x.items():
            if k in ('body', 'els') and isinstance(v, list) and x.get('k') != 'with':
                out.append(v)
            bodies(v, out)
    elif isinstance(x, (list, tuple)):
        for v in x:
            bodies(v, out)
    return out


def nodes(x, ks, out=None):
    out = [] if out is None else out
    if isinstance(x, dict):
        if x.get('k') in ks:
            out.append(x)
        for v in x.values():
            nodes(v, ks, out)
    elif isinstance(x, (list, tuple)):
        for v in x:
            nodes(v, ks, out)
    return out


def rand_stmt(rng, pr):
    names = [m['name'] for f in pr['files'].values() for m in f['macros']]
    w = rng.randrange(9)
    if w < 3:
        return {'k': ('break', 'continue', 'break_loop')[w]}
    if w == 3:
        return {'k': rng.choice(['jump', 'call']), 'name': 'undefined_%d' % rng.randint(0, 9)}
    if w == 4:
        return {'k': 'with', 'ctx': ('actor', gen.I(1)), 'body': [{'k': 'label', 'name': 'in_with'}]}
    if w == 5:
        c = [{'h': {'k': 'val', 'v': gen.I(i)}, 'body': [gen.op_st() if hasattr(gen, 'op_st') else dict(gen.op('x'))]} for i in range(rng.randint(0, 2))]
        c.append({'h': rng.choice([None, {'k': 'val', 'v': gen.I(9)}]), 'body': []})
        return {'k': 'switch', 'h': {'k': 'var', 'v': gen.C('$X')}, 'cases': c}
    if w == 6:
        return {'k': 'mcall', 'name': rng.choice(names + ['no_such_macro']), 'args': [gen.I(1)] * rng.choice([0, 0, 1, 2, 5])}
    if w == 7:
        c = {'k': 'bit', 'neg': True, 'var': rng.choice([gen.C('$X'), gen.C(gen.PERF), gen.I(3)]), 'idx': 3}
        return rng.choice([{'k': 'if', 'arms': [{'neg': rng.random() < 0.5, 'conds': [c], 'body': []}], 'els': None},
                           {'k': 'while', 'neg': False, 'cond': c, 'body': []}])
    return {'k': 'label', 'name': 'lbl_%d' % rng.randint(0, 99)}


def mutate(pr, rng):
    files = list(pr['files'])
    for _ in range(rng.choice([1, 1, 1, 2])):
        f = pr['files'][rng.choice(files)]
        w = rng.randrange(10)
        if w < 5:
            bs = bodies(f)
            if bs:
                b = rng.choice(bs)
                b.insert(rng.randint(0, len(b)), rand_stmt(rng, pr))
        elif w == 5:
            sw = nodes(f, ('switch', 'msgsw'))
            if sw:
                s = rng.choice(sw)
                if s['k'] == 'switch':
                    q = rng.randrange(3)
                    if q == 0 and s['cases']:
                        s['cases'][-1]['body'] = []
                    elif q == 1:
                        for _ in range(2):
                            s['cases'].insert(rng.randint(0, len(s['cases'])), {'h': None, 'body': [dict(gen.op('x'))]})
                    elif s['cases']:
                        s['cases'].append(s['cases'].pop(0))
                elif s['cases']:
                    i = rng.randrange(len(s['cases']))
                    if rng.random() < 0.5:
                        s['cases'].append({'h': None, 's': gen.S('x'), 'body': []})
                        s['cases'].append({'h': None, 's': gen.S('y'), 'body': []})
                    else:
                        s['cases'][i] = {'h': s['cases'][i]['h'], 'body': [dict(gen.op('x'))]}
        elif w == 6:
            m = nodes(f, ('mcall',))
            if m:
                m = rng.choice(m)
                if m['args'] and rng.random() < 0.6:
                    m['args'] = m['args'][:rng.randrange(len(m['args']))]
                else:
                    m['name'] = m['name'] + 'x'
        elif w == 7:
            p = rng.choice(files)
            pr['imports'][p].append(['rel', rng.choice(['p/none.exps', 'other/none.exps', rng.choice(files)])])
        elif w == 8:
            p = rng.choice(files)
            if p != pr['main'] and not pr['files'][p]['routines']:
                pr['files'][p]['routines'] = copy.deepcopy(pr['files'][pr['main']]['routines'][:1])
                if any(r['alias'] for r in pr['files'][p]['routines']):
                    pr['files'][p]['routines'] = []
        else:
            js = nodes(f, ('jump', 'call'))
            if js:
                rng.choice(js)['name'] += '_'
    return pr


def run_project(seed):
    rng = random.Random(seed)
    pr = project.project(seed, big=False)
    if rng.random() < 0.9:
        mutate(pr, rng)
    with project.Scratch() as root:
        texts = project.write(pr, root)
        r = outcome(texts[pr['main']], os.path.join(root, pr['main']), [os.path.join(root, d) for d in pr['lookup']])
    return '\n'.join('// --- %s\n%s' % x for x in texts.items()), static.of_project(pr), r


# ---- texts -----------------------------------------------------------------------------------------------------------

VOCAB = ('def macro import coro alias previous for for_actor for_object actor object performer if elseif else not switch case default break continue '
         'break_loop forever while with return end hold jump call value scn random sector dungeon_mode menu menu2 debug edit variation clear init reset '
         'dungeon_result adventure_log message_SwitchTalk message_SwitchMonologue Position ( ) { } < > [ ] ; : , = == != <= >= += -= *= /= & ^ &<< || '
         '@ § ~ ~m ~mac0 $v %v TRUE FALSE 0 1 -1 007 0x1F 0b11 0o7 1.5 -.5 .5 99999999999999999999999 "s" \'t\' "" """m""" Destroy Jump Branch Case Switch '
         'Return End Hold lives Null "unterminated \'x /* // \\ # ! ? `').split(' ')


def corrupt_tokens(rng, text):
    ts = [t.s for t in lang.lex(text) if t.s]
    for _ in range(rng.choice([1, 1, 1, 2, 3, 6])):
        if not ts:
            break
        i = rng.randrange(len(ts))
        w = rng.randrange(7)
        if w == 0:
            del ts[i]
        elif w == 1:
            ts.insert(i, ts[i])
        elif w == 2:
            j = min(i + 1, len(ts) - 1)
            ts[i], ts[j] = ts[j], ts[i]
        elif w == 3:
            ts[i] = rng.choice(VOCAB)
        elif w == 4:
            ts.insert(i, rng.choice(VOCAB))
        elif w == 5:
            j = rng.randrange(len(ts))
            ts[i] = ts[j]
        else:
            j = min(len(ts), i + rng.randint(1, 8))
            if rng.random() < 0.5:
                del ts[i:j]
            else:
                k = rng.randrange(len(ts))
                ts[k:k] = ts[i:j]
    return rng.choice(['\n', ' ', ' ']).join(ts)


CHARS = 'abz019_ \t\r\n"\'\\/*(){}[]<>;:,.=!&|^~@§$%#?-+é\u2028\x00\x0b\x1c\x85\U0001f600\ud800'
HEADS = ['//?: is-ssb-script: true\n', '//?: is-ssb-script: 1\n', '//?: is-ssb-script: false\n', '//?: is-ssb-script:\n', '//?: a: b', '//?:', '//?: a: b\n',
         '//?: a: b\n//?: is-ssb-script: true', '  //?: is-ssb-script: true\n', '//?: is-ssb-script: true#\n', '//?: is-ssb-script true\n', '\n//?: is-ssb-script: true\n']


def deep(rng):
    k = rng.randrange(9)
    n = rng.choice([20, 60, 150, 400, 1500 if k in (0, 1, 6) else 150])
    body = {0: 'if (debug) {' * n + 'a();' + '}' * n, 1: 'forever {' * n + 'a();' + '}' * n, 2: 'switch ($x) { case 1: ' * n + 'a();' + '}' * n,
            3: 'if (%s) { a(); }' % ' || '.join(['debug'] * n), 4: 'a(%s);' % ', '.join(['1'] * n),
            5: 'if (debug) { a(); } ' + 'elseif (edit) { b(); } ' * n, 6: 'while (debug) {' * n + 'break_loop;' + '}' * n, 7: 'a();' * n}.get(k)
    if body is not None:
        return 'def 0 { %s }' % body
    return ''.join('macro m%d() { ~m%d(); }\n' % (i, i + 1) for i in range(n)) + 'macro m%d() { a(); }\ndef 0 { ~m0(); }' % n


ODD = ['', ' ', '\n', '//', '/*', '/* */', '//?:', 'def 0 { @a; }', 'def 0 { @a; jump @a; }', 'def 0 { jump @a; @a; }', 'def 0 { @a; @b; }', 'def 0 { }', 'def 0 {} def 1 {}',
       'def 1 { a(); } def 0 { b(); }', 'def 0 { a(); } def 0 { b(); }', 'def 5 { a(); }', 'def 0 alias previous;', 'coro A alias previous;', 'coro A { a(); } coro A { b(); }',
       'coro A { a(); } def 0 { b(); }', 'def 0 { a(); } coro A { b(); }', 'def 0 { @a; } def 1 { jump @a; }', 'def 0 { jump @a; } def 1 { @a; }',
       'def 0 { call @a; @a; }', 'def 0 { if (debug) { @a; } jump @a; }', 'def 0 { switch ($x) { } }', 'def 0 { switch ($x) { case 1: case 2: } }',
       'def 0 { switch ($x) { default: } }', 'def 0 { message_SwitchTalk($x) { } }', 'def 0 { with (foo 1) { a(); } }', 'def 0 { with (actor 1) { $x[3] = 4; } }',
       'def 0 { Jump(); }', 'def 0 { Jump(3); }', 'def 0 { Jump(@a); @a; }', 'def 0 { Branch($x, 1); a(); }', 'def 0 { Case(1); }', 'def 0 { Switch(1); CaseValue(1, 2); }', 'def 0 { Call(1); }',
       'def 0 { if (foo(1)) { a(); } }', 'def 0 { switch (foo(1)) { case 1: a(); } }', 'def 0 { switch (a<actor 1>()) { case 1: b(); } }', 'def 0 { if (Branch<actor 1>($x, 1)) { b(); } }',
       'def 0 { $PERFORMANCE_PROGRESS_LIST[3] = 7; }', 'def 0 { $x[3] += 4; }', 'def 0 { $x[3] = value($y); }', 'def 0 { 1.5 = 3; }', 'def 0 { a(1.5.5); }', 'def 0 { $x = 1.5; }',
       'def 0 { reset foo(1); }', 'def 0 { dungeon_mode(3) = 7.5; }', 'def 0 { if (scn($x) != [1, 2]) { a(); } }', 'def 0 { if (scn($x) TRUE [1, 2]) { a(); } }', 'def 0 { if (scn($x) & [1, 2]) { a(); } }',
       'def 0 { if ($x FALSE value($y)) { a(); } }', 'def 0 { switch (scn($x)[3]) { case 1: a(); } }', 'def 0 { switch ($x) { case menu("a"): b(); } }', 'def 0 { for (@a; debug; @b;) { a(); } }',
       'def 0 { for (break; debug; continue;) { a(); } }', 'def 0 { for (return; debug; jump @a;) { @a; } }', 'def 0 for_actor(1.5) { a(); }', 'def 0 for foo 3 { a(); }', 'def 0 for_foo(3) { a(); }',
       'def 99999999999999999999 { a(); }', 'def 0x10 { a(); }', 'def -1 { a(); }', 'def 0 { a(%s); }' % ('9' * 5000), 'def 0 { a(0x%s); }' % ('f' * 5000), 'def 0 { a(Position<"x", 1, %s.5>); }' % ('9' * 500),
       'def 0 { a(Position<"x", 1.25, 2>); }', 'def 0 { a(Position<"x", -1, 2.5>); }', 'def 0 { a({}); }', 'def 0 { a({english="x", english="y"}); }', 'def 0 { a({nolang="x"}); }',
       'macro m() { a(); }', 'macro m() { @x; jump @x; } def 0 { ~m(); ~m(); }', 'macro m() { jump @x; } def 0 { @x; ~m(); }', 'macro m() { @x; } def 0 { ~m(); jump @x; }', 'macro m() { @x; }',
       'macro m($a, $a) { f($a); } def 0 { ~m(1, 2); }', 'macro m() { a(); } macro m() { b(); } def 0 { ~m(); }', 'macro m() { return; } def 0 { ~m(); }', 'macro m() { break; } def 0 { ~m(); }',
       'macro m($a) { a($a); } def 0 { ~m(); }', 'macro m($a) { a($a); } def 0 { ~m(1, 2, 3); }', 'macro m() { ~m(); }', 'macro m() { ~n(); } macro n() { ~m(); }', 'macro m() { ~n(); }',
       'macro m($a) { if ($a[3]) { b(); } } def 0 { ~m("s"); }', 'macro m($a) { $a = 3; } def 0 { ~m("s"); }', 'macro m($a) { with (actor $a) { b(); } } def 0 { ~m(1.5); }', 'macro m alias previous;',
       'macro m() { a(); } def 0 { switch ($x) { case 1: ~m(); } }', 'import "";', 'import ".";', 'import "/";', 'import "..";', 'import "/dev/null";', 'import "a/../b";', 'import "./x\\n";', 'def 0 { %sa();%s }' % ('forever {' * 1500, '}' * 1500), 'def 0 { %sa();%s }' % ('if (debug) {' * 1500, '}' * 1500), 'import "\x00";', "import '/nonexistent/main.exps';",
       'import "%s";' % ('x' * 300), 'import "/%s";' % ('x' * 5000), 'def 0 { a(\ud800); }', 'def 0 { a("\ud800"); }', '\ud800', '\ufeffdef 0 { a(); }', 'def 0 { a("\\"); }', 'def 0 { a("""x'"'''y'''"'"); }']


def text_case(a):
    kind, seed = a
    rng = random.Random(seed)
    if kind == 'odd':
        text = ODD[seed]
    elif kind == 'deep':
        text = deep(rng)
    elif kind == 'noise':
        text = ''.join(rng.choice(CHARS) for _ in range(rng.choice([3, 20, 80])))
    elif kind == 'vocab':
        text = rng.choice(HEADS + ['', '', 'def 0 {\n']) + ' '.join(rng.choice(VOCAB) for _ in range(rng.choice([1, 3, 8, 20])))
    elif kind == 'chars':
        text = lang.render(progs.random_program(seed, depth=1, width=2))
        for _ in range(rng.choice([1, 2, 5])):
            i = rng.randint(0, len(text))
            text = text[:i] + rng.choice(['', rng.choice(CHARS)]) + text[min(len(text), i + rng.choice([0, 1, 1, 9])):]
    elif kind == 'ssbs':
        text = ssbs.write(ssbs.random_set(random.Random(seed)), random.Random(seed)) if hasattr(ssbs, 'random_set') else 'def 0 {}'
        if rng.random() < 0.8:
            ts = text.split('\n') if rng.random() < 0.3 else None
            text = '\n'.join(ts[:rng.randrange(len(ts) + 1)]) if ts else corrupt_safe(rng, text)
        text = rng.choice(HEADS[:2]) + text
    else:
        pr = project.project(seed, nfiles=1, big=False)
        text = corrupt_tokens(rng, lang.render(pr['files'][pr['main']]))
        if rng.random() < 0.05:
            text = rng.choice(HEADS) + text
    r = outcome(text)
    evs = []
    if len(text) < 3000 and not any(l.strip().startswith('//?:') for l in text.splitlines()[:3]):
        try:
            f = lang.parse(text)
            # (an import of something that is there is not judged)
            if not any(i.startswith('/') and os.path.exists(i) for i in f['imports']):
                evs = static.of_file(f)
        except (lang.SyntaxErr, RecursionError, ValueError, IndexError):
            pass
    return text, evs, r


def corrupt_safe(rng, text):
    try:
        return corrupt_tokens(rng, text)
    except lang.SyntaxErr:
        i = rng.randint(0, len(text))
        return text[:i] + rng.choice(VOCAB) + text[i + rng.choice([0, 1, 5]):]


def judge(cases):
    """TLC on recorded compilations -> ({id: clause}, {id: rules})"""
    step = 400
    bs = [{'cases': cases[i:i + step]} for i in range(0, len(cases), step)]
    bad, rules = {}, {}
    for r in tlc.tlc_batches('StaticCheck', bs, jobs=4, heap='2g'):
        for v in r.verdicts:
            if 'clause' in v:
                bad[v['id']] = v['clause']
            else:
                rules[v['id']] = v['rules']
    return bad, rules


def tell(text, r):
    return 'outcome: %s\n%s' % ('accepted' if r['ok'] else '%s: %s (%s)' % (r['exc'], r['msg'][:150], r['where']), text[:900])


def key_of(clause, r, text):
    return clause if r['ok'] else '%s %s %s' % (clause, r['exc'], r['where'])


def run(ctx):
    from concurrent.futures import ThreadPoolExecutor
    fams = families(ctx)
    with ThreadPoolExecutor(3) as ex:
        runs = list(ex.map(lambda f: tlc.tlc(f[1], f[2], workers=3), fams))
    cases, meta = [], {}

    def record(text, evs, r, how, want=None):
        i = len(cases)
        cases.append({'id': i, 'evs': evs, 'ok': r['ok'], 'mro': r.get('mro', [])})
        meta[i] = (text, r, how, want)
    for (name, mod, d), run_ in zip(fams, runs):
        ctx.add('programs of TLC: ' + name, len(run_.verdicts))
        ctx.add('states', run_.distinct)
        vs = run_.verdicts
        n = ctx.n(1200, 40000) if mod == 'StaticGen' else ctx.n(800, 20000)
        if len(vs) > n:
            vs = pick(ctx.rng, vs, n)
        args = [(norm_evs(v), ctx.rng.randrange(1 << 30)) for v in vs]
        for v, a, (text, r) in zip(vs, args, pmap(run_events, args)):
            record(text, a[0], r, ['events', a[0], a[1]], sorted(v['r']))
    base = ctx.rng.randrange(1 << 28)
    seeds = range(base, base + ctx.n(1000, 20000))
    for seed, (text, evs, r) in zip(seeds, pmap(run_project, seeds)):
        record(text, evs, r, ['project', seed])
    ts = [('odd', i) for i in range(len(ODD))] + [('deep', base + i) for i in range(ctx.n(24, 90))]
    for kind, n in (('noise', 300), ('vocab', 500), ('chars', 400), ('ssbs', 500), ('tokens', 1500)):
        ts += [(kind, base + i) for i in range(ctx.n(n, n * 15))]
    for a, (text, evs, r) in zip(ts, pmap(text_case, ts)):
        record(text, evs, r, ['text', list(a)])
    bad, rules = judge(cases)
    ctx.add('compilations', len(cases))
    hit = collections.Counter()
    for i, (text, r, how, want) in meta.items():
        if want is not None and sorted(rules.get(i, [])) != want:
            raise AssertionError('generator and checker disagree on the rules of\n' + text)
        for x in rules.get(i, []):
            hit[x] += 1
            if len(rules[i]) == 1:
                hit[x + ' (alone)'] += 1
        if not rules.get(i) and i in rules:
            hit['breaks no rule'] += 1
        if r['ok']:
            ctx.add('accepted')
    for k in sorted(hit):
        ctx.add('programs: ' + k, hit[k])
    for i, c in sorted(bad.items()):
        text, r, how, want = meta[i]
        ctx.violation(key_of(c, r, text), '%s\n%s' % (c, tell(text, r)), {'how': how})
    command_line(ctx, meta, rules)
    for i in range(0, len(cases), max(1, len(cases) // 4)):
        ctx.sample({'text': meta[i][0][:300], 'rules': rules.get(i), 'outcome': 'accepted' if meta[i][1]['ok'] else meta[i][1]['exc']})


def cli_case(text):
    with project.Scratch() as root:
        fn = os.path.join(root, 'main.exps')
        with open(fn, 'w', encoding='utf-8', errors='surrogatepass') as f:
            f.write(text)
        with open(os.path.join(root, 'settings.json'), 'w') as f:
            json.dump({'settings': cli.SETTINGS}, f)
        code, out, _ = cli.process('compile', [fn, '--settings', 'settings.json'], root)
    return code, len(out.strip())


def command_line(ctx, meta, rules):
    """a rejected program makes the command fail, without output"""
    by = collections.defaultdict(list)
    for i, rs in rules.items():
        if len(rs) == 1 and not meta[i][0].startswith('// ---') and meta[i][2][0] == 'events':
            by[rs[0]].append(meta[i][0])
    texts = [(k, ctx.rng.choice(l)) for k, l in sorted(by.items()) for _ in range(ctx.n(1, 6))]
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(cli_case, [t for _, t in texts]))
    for (k, t), (code, n) in zip(texts, res):
        ctx.add('runs of the compile command')
        if code == 0 or n:
            ctx.violation('cli ' + k, 'the compile command exits with %d and prints %d bytes although: %s\n%s' % (code, n, k, t), {'how': ['cli', k, t]})


def replay(data):
    how = data['how']
    if how[0] == 'cli':
        code, n = cli_case(how[2])
        print('exit status %d, %d bytes printed: %s\n%s' % (code, n, how[1], how[2]))
        return code == 0 or n > 0
    if how[0] == 'events':
        text, r = run_events((how[1], how[2]))
        evs = how[1]
    elif how[0] == 'project':
        text, evs, r = run_project(how[1])
    else:
        text, evs, r = text_case(tuple(how[1]))
    bad, rules = judge([{'id': 0, 'evs': evs, 'ok': r['ok'], 'mro': r.get('mro', [])}])
    print(tell(text, r), '\nrules broken:', rules.get(0), '\nverdict:', bad.get(0))
    return bool(bad)
