"""C04: printed parameters are read back as equal values; literal spellings denote what the language says."""
import hashlib
import json
import random
import re
from .. import lang, params, real, setgen, tlc
from ..lang import canon
from ..pool import pmap

LEVEL = 'exhaustive_bounded'
TECHNIQUE = 'TLA+ specification of the literals (TLC-generated values and spellings replayed into printers and parsers; printed literals checked by TLC)'
NOTE = ('Literals.tla gives, on code points, which texts are literals, what they denote and which strings can be spelled at all (TLC proves every '
        'spellable string up to the bound has a witness literal). All strings up to 4 symbols over {a, n, space, newline, CR, quotes, triple quotes, '
        'backslash} are printed by both decompilers in every position and indentation and read back (TLC reads the printed literal, the compiler '
        'the whole text); all string literals, integer, decimal and coordinate spellings up to the bound go through both compilers. Exhaustive to '
        'that bound; longer strings, integers, decimals and position marks are sampled. Strings no literal can denote (e.g. with CR LF) are known findings.')

S = [lambda k: '"PH%d"' % k][0]
C = [lambda k: 'PH%d' % k][0]


def t_args(n, ind=0, lit=S):
    ops = ''.join('op%d(1, %s, A);\n' % (k, lit(k)) for k in range(n))
    for i in range(ind):
        ops = 'if ($x%d == 1) {\n%s\n}\n' % (i, ops) if i % 2 == 0 else 'forever {\n%s\nbreak_loop;\n}\n' % ops
    return 'def 0 { %s end; }' % ops


def t_lang(n, ind=0):
    return t_args(n, ind, lambda k: '{english="PH%d", french="PH%d", german="x"}' % (2 * k, 2 * k + 1))


def t_ctx(n):
    return 'def 0 { %s %s end; }' % (''.join('with (actor %d) { op%d(%s); }' % (k, k, S(k)) for k in range(n // 2)),
                                    ''.join('op%d<object A>(%s, 2);' % (k, S(k)) for k in range(n // 2, n)))


def t_menu(n, kind='menu'):
    return 'def 0 { x(); switch (message_SwitchMenu(0, 1)) { %s } end; }' % ''.join('case %s(%s): op%d(); break;' % (kind, S(k), k) for k in range(n))


def t_msg(n, name='message_SwitchTalk'):
    return 'coro C { %s ($SCENARIO_MAIN) { %s default: %s } op(); end; }' % (
        name, ''.join('case %d: %s' % (k, S(k)) for k in range(n - 1)), S(n - 1))


def t_msglang(n):
    return 'def 0 { if ($x == 1) { message_SwitchMonologue ($y) { %s } } end; }' % ''.join(
        'case A%d: {english="PH%d", japanese="PH%d",}' % (k, 2 * k, 2 * k + 1) for k in range(n))


def t_head(n):
    return 'def 0 for actor A { %s end; }' % ''.join(
        'switch (message_Menu(%s)) { case 1: op%d(); break; default: no%d(); }' % (S(k), k, k) for k in range(n))


STRING_TEMPLATES = {
    'arg1': t_args(20), 'arg2': t_args(12, 1), 'arg3': t_args(12, 2), 'arg4': t_args(12, 3), 'ctx': t_ctx(12), 'menu': t_menu(12),
    'talk': t_msg(12), 'mono': t_msg(12, 'message_SwitchMonologue'), 'lang1': t_lang(8), 'lang3': t_lang(6, 2),
    'msglang': t_msglang(6), 'head': t_head(8)}

INT_TEMPLATES = {
    'arg': t_args(20, 0, C), 'argdeep': t_args(12, 3, C),
    'if': 'def 0 { %s end; }' % ''.join('if ($v%d %s PH%d) { op%d(); } if ($v > value(PH%d)) { no(); }' % (k, o, 2 * k, k, 2 * k + 1)
                                        for k, o in enumerate(['==', '<', '>=', '&', '^', '!='])),
    'asg': 'def 0 { %s PH8 = 1; clear PH9; init PH10; dungeon_mode(PH11) = MODE; PH12 = value(PH13); adventure_log = PH14; end; }'
           % ''.join('$v %s PH%d;' % (o, k) for k, o in enumerate(['=', '+=', '-=', '*=', '/='])),
    'case': 'def 0 { switch (PH20) { %s default: x(); } end; }' % ''.join('case %sPH%d: op%d(); break;' % (o, k, k) for k, o in enumerate(['', '> ', '<= ', '!= ', '', '& '])),
    'menu2': t_menu(8, 'menu2').replace('"', ''), 'msgcase': 'def 0 { message_SwitchTalk (PH9) { %s default: "x" } end; }' % ''.join('case PH%d: "t%d"' % (k, k) for k in range(6)),
    'ctx': 'def 0 for object (3) { with (actor PH0) { op(); } op1<object PH1>(); op2<performer PH2>(PH3); end; }',
    'switch': 'def 0 { switch (op(PH0, PH1)) { case 1: a(); break; } switch (random(PH2)) { case 1: b(); } switch (dungeon_mode(PH3)) { case M: c(); } '
              'switch (scn(PH4)[0]) { case 2: d(); break; } end; }'.replace('op(PH0, PH1)', 'ProcessSpecial(PH0, PH1, 3)')}

MODE_TEMPLATES = {
    'dmode-asg': 'def 0 { %s end; }' % ''.join('dungeon_mode(D%d) = PH%d;' % (k, k) for k in range(8)),
    'dmode-case': 'def 0 { switch (dungeon_mode(3)) { %s } end; }' % ''.join('case PH%d: op%d(); break;' % (k, k) for k in range(8))}

MARK_TEMPLATES = {'arg': t_args(10, 0, C), 'deep': t_args(8, 3, C), 'ctx': 'def 0 { with (actor 1) { op0(PH0); } op1<actor 2>(PH1, PH2); end; }',
                  'head': t_head(4).replace('"', '')}

_cache = {}


def template(name, kind):
    key = (kind, name)
    if key not in _cache:
        text = {'s': STRING_TEMPLATES, 'i': INT_TEMPLATES, 'm': MARK_TEMPLATES, 'd': MODE_TEMPLATES}[kind][name]
        s = setgen.compiled(text)
        if s is None:
            r = real.compile_text(text)
            raise RuntimeError('template %s does not compile: %s\n%s' % (key, r, text))
        setgen.renumber(s)
        n = len(set(re.findall(r'PH(\d+)', text)))
        _cache[key] = (json.dumps(s), sorted(int(x) for x in set(re.findall(r'PH(\d+)', text))), n)
    j, slots, n = _cache[key]
    return json.loads(j), slots


def fill(s, vals):
    """replace placeholders: vals {slot: argument description}"""
    def sub(a):
        v = a['v'] if 'v' in a else None
        if a['k'] in ('str', 'const') and v.startswith('PH'):
            return vals[int(v[2:])]
        if a['k'] == 'lang':
            return {'k': 'lang', 'v': [(l, vals[int(x[2:])]['v'] if x.startswith('PH') else x) for l, x in v]}
        return a
    for r in s['routines']:
        for op in r['ops']:
            op['a'] = [sub(a) for a in op['a']]
    return s


def plain(s):
    """what must come back: op names and parameters, jump targets aside"""
    out = []
    for r in s['routines']:
        for op in r['ops']:
            if op['a']:
                out.append((op['n'], [canon(a) for a in op['a']]))
    return sorted(out)


def plain_ops(facts):
    out = []
    for rr in facts['ops']:
        for op in rr:
            p = list(op['p'])
            if op['n'] in real.JUMP_OPS:
                p = p[:-1]
            if p:
                out.append((op['n'], p))
    return sorted(out)


DM = {'i:%d' % i: 'c:' + c for i, c in enumerate(real.DMC)}


def dmode(ops, have=None):
    return sorted((n, [DM.get(x, x) for x in p]) for n, p in ops)


def round_trip(kind, name, vals, ssbs):
    """-> (what failed or None, text, skeleton literals [(slot, raw text)] or None)"""
    s, slots = template(name, kind)
    fill(s, vals)
    d = real.decompile_set_ssbs(s) if ssbs else real.decompile_set(s)
    if not d['ok']:
        return 'decompiler: %s: %s' % (d['exc'], d['msg']), '', None
    r = (real.compile_ssbs if ssbs else real.compile_text)(d['text'])
    raw = None
    if kind == 's':
        raw = literals(kind, name, d['text'], ssbs)
    if not r['ok']:
        return 'printed text does not compile: %s: %s' % (r['exc'], r['msg']), d['text'], raw
    a, b = plain(s), plain_ops(r)
    if kind == 'd':
        a, b = dmode(a), dmode(b)
    if a != b:
        x = [e for e in a if e not in b]
        y = [e for e in b if e not in a]
        return 'given %s read back %s' % (x[:3], y[:3]), d['text'], raw
    return None, d['text'], raw


_skel = {}


def literals(kind, name, text, ssbs):
    key = (kind, name, ssbs)
    if key not in _skel:
        s, slots = template(name, kind)
        fill(s, {k: {'k': 'str', 'v': 'PH%d' % k} for k in slots})
        d = (real.decompile_set_ssbs if ssbs else real.decompile_set)(s)
        _skel[key] = lang.lex(d['text']) if d['ok'] else []
    try:
        t = lang.lex(text)
    except lang.SyntaxErr:
        return None
    sk = _skel[key]
    if len(t) != len(sk):
        return None
    out = []
    for a, b in zip(sk, t):
        if a.t in ('STR', 'ML') and a.s[1:3] == 'PH' and b.t in ('STR', 'ML'):
            out.append((int(a.s[3:-1]), b.s))
        elif a.s != b.s:
            return None
    return out


def job(a):
    kind, name, vals, ssbs = a
    what, text, raw = round_trip(kind, name, vals, ssbs)
    culprits = []
    if what:
        # which of the values is to blame
        ok = {'s': {'k': 'str', 'v': 'plain'}, 'i': {'k': 'int', 'v': 7}, 'd': {'k': 'int', 'v': 1},
              'm': {'k': 'pos', 'name': 'm', 'x': 1, 'xh': False, 'y': 2, 'yh': False}}[kind]
        for k in vals:
            w, t, _ = round_trip(kind, name, {j: (vals[k] if j == k else ok) for j in vals}, ssbs)
            if w:
                culprits.append((vals[k], w, t))
        culprits = culprits or [(None, what, text)]
    return {'job': a, 'bad': culprits, 'raw': raw}


def key_of(kind, name, v, ssbs):
    if v and v['k'] == 'str' and v['v'] in UNSPELLABLE and name == 'arg1':
        return 'unspellable:%d' % UNSPELLABLE.index(v['v'])
    return 'value:%s:%s:%s:%s' % (kind, name, 'ssbs' if ssbs else 'exps', hashlib.sha256(json.dumps(v, sort_keys=True).encode()).hexdigest()[:12])


def jobs_for(kind, values, places, rng):
    """spread the values over the templates; places: [(name, ssbs)]"""
    todo = {p: list(v) for p, v in places.items()}
    out = []
    for (name, ssbs), vs in todo.items():
        _, slots = template(name, kind)
        for i in range(0, len(vs), len(slots)):
            part = vs[i:i + len(slots)]
            pad = [part[j % len(part)] for j in range(len(slots))]
            out.append((kind, name, dict(zip(slots, pad)), ssbs))
    return out


def spread(kind, names, values, rng, copies):
    places = {}
    allp = [(n, b) for n in names for b in ((False, True) if n.startswith(('arg', 'lang', 'deep')) else (False,))]
    for v in values:
        for p in rng.sample(allp, min(copies, len(allp))):
            places.setdefault(p, []).append(v)
    return jobs_for(kind, values, places, rng)


def print_and_read(ctx, jobs):
    res = pmap(job, jobs)
    cases, by = [], {}
    for n, r in enumerate(res):
        kind, name, vals, ssbs = r['job']
        ctx.add('texts printed and read back')
        ctx.add('values printed', len(vals))
        for v, what, text in r['bad']:
            ctx.violation(key_of(kind, name, v, ssbs), 'value %r in %s (%s): %s\n%s' % (v, name, 'SsbScript' if ssbs else 'ExplorerScript', what, text[:900]),
                          {'job': [kind, name, {str(k): (v or vals[k]) for k in vals} if v else {str(k): x for k, x in vals.items()}, ssbs]})
        if kind == 's' and not r['bad']:
            if r['raw'] is None:
                ctx.add('texts printed with another layout')
                continue
            for k, raw in r['raw']:
                i = '%d.%d' % (n, k)
                cases.append({'id': i, 't': [ord(c) for c in raw], 'v': [ord(c) for c in vals[k]['v']]})
                by[i] = (r['job'], vals[k], raw)
    for b in range(0, len(cases), 40000):
        run = tlc.tlc('LiteralsCheck', {'cases': cases[b:b + 40000]}, workers=6)
        ctx.add('printed literals read by TLC', run.distinct // 2)
        for v in run.verdicts:
            (kind, name, vals, ssbs), val, raw = by[v['id']]
            ctx.violation('lit:' + key_of(kind, name, val, ssbs), '%s: %r printed as %s' % (v['clause'], val, raw),
                          {'job': [kind, name, {str(k): val for k in vals}, ssbs]})


# ----------------------------------------------------------------------- reading spellings
def spell_job(a):
    """a program with many literals; where: how each is placed"""
    where, texts, ssbs = a
    if where == 'op':
        src = 'def 0 {\n' + ''.join('op%d(%s);\n' % (i, t) for i, t in enumerate(texts)) + 'end();\n}' if ssbs else \
              'def 0 {\n' + ''.join('op%d(%s);\n' % (i, t) for i, t in enumerate(texts)) + 'end;\n}'
    elif where == 'menu':
        src = 'def 0 {\nswitch (x()) {\n' + ''.join('case menu(%s):\nop%d();\n' % (t, i) for i, t in enumerate(texts)) + '}\nend;\n}'
    elif where == 'msg':
        src = 'def 0 {\nmessage_SwitchTalk ($x) {\n' + ''.join('case %d:\n%s\n' % (i, t) for i, t in enumerate(texts)) + '}\nend;\n}'
    elif where == 'lang':
        src = 'def 0 {\n' + ''.join('op%d({english=%s,\nfrench="y"});\n' % (i, t) for i, t in enumerate(texts)) + ('end();\n}' if ssbs else 'end;\n}')
    elif where == 'pos':
        src = 'def 0 {\n' + ''.join("op%d(Position<'m', %s, %s>);\n" % (i, x, y) for i, (x, y) in enumerate(texts)) + ('end();\n}' if ssbs else 'end;\n}')
    elif where == 'case':
        src = 'def 0 {\nswitch ($x) {\n' + ''.join('case %s:\nop%d();\n' % (t, i) for i, t in enumerate(texts)) + '}\nend;\n}'
    elif where == 'asg':
        src = 'def 0 {\n' + ''.join('$v = %s;\n' % t for t in texts) + 'end;\n}'
    r = (real.compile_ssbs if ssbs else real.compile_text)(src)
    if not r['ok']:
        return {'fail': '%s: %s' % (r['exc'], r['msg']), 'src': src}
    name, at = {'op': (None, 0), 'lang': (None, 0), 'pos': (None, 0), 'menu': ('CaseMenu', 0), 'msg': ('CaseText', 1), 'case': ('Case', 0),
                'asg': ('flag_Set', 1)}[where]
    got = {}
    if name is None:
        for rr in r['ops']:
            for op in rr:
                if op['n'].startswith('op'):
                    got[int(op['n'][2:])] = op['p'][at] if op['p'] else None
        return {'got': [got.get(i) for i in range(len(texts))], 'src': src}
    return {'got': [op['p'][at] for rr in r['ops'] for op in rr if op['n'] == name], 'src': src}


def expected(where, v):
    if where == 'pos':
        (x, xh), (y, yh) = v
        return "p:m,%d%s,%d%s" % (x, '+' if xh else '', y, '+' if yh else '')
    if v[0] == 'str':
        s = lang.esc(v[1])
        return 'l:english=%s|french=y' % s.replace('|', '\\u{7c}') if where == 'lang' else 's:' + s
    return v[1]


def spell(ctx, where, items, ssbs, size=40):
    """items: [(text, value)]"""
    jobs = [(where, [t for t, _ in items[i:i + size]], ssbs) for i in range(0, len(items), size)]
    res = pmap(spell_job, jobs)
    again = []
    for j, r, i in zip(jobs, res, range(0, len(items), size)):
        ctx.add('spellings read', len(j[1]))
        part = items[i:i + size]
        want = [expected(where, v) for _, v in part]
        if r.get('got') != want:
            again += part
    if again:
        jobs = [(where, [t], ssbs) for t, _ in again]
        for j, r, (t, v) in zip(jobs, pmap(spell_job, jobs), again):
            want = expected(where, v)
            if r.get('got') != [want]:
                ctx.violation('spelling:%s:%s:%s' % (where, 'ssbs' if ssbs else 'exps', hashlib.sha256(repr(t).encode()).hexdigest()[:12]),
                              'literal %r (%s) denotes %s, got %s' % (t, where, want, r.get('got') or r['fail']), {'spell': [where, t, ssbs, want]})


def generate(mode, depth):
    import os
    import tempfile
    fn = os.path.join(tlc.SPEC, 'LiteralsGen_%s.cfg' % mode)
    with open(fn) as f:
        cfg = re.sub(r'Depth = \d+', 'Depth = %d' % depth, f.read())
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, 'g.cfg')
        with open(p, 'w') as f:
            f.write(cfg)
        return tlc.tlc('LiteralsGen', None, cfg=p[:-4], workers=6)


def txt(cs):
    return ''.join(map(chr, cs))


def decimal(v):
    return 'f:%s%d.%s' % ('-' if v['neg'] else '', v['w'], txt(v['f']) or '0')


def run(ctx):
    rng = ctx.rng
    # which strings can be spelled (TLC), printed everywhere
    g = generate('value', ctx.n(4, 5))
    ctx.cov['model states'] = g.distinct
    values = sorted(txt(v['s']) for v in g.verdicts if v['ok'])
    ctx.add('spellable strings up to the bound', len(values))
    jobs = spread('s', sorted(STRING_TEMPLATES), [{'k': 'str', 'v': s} for s in values], rng, ctx.n(2, 6))
    wild = [{'k': 'str', 'v': params.string(rng)} for _ in range(ctx.n(3000, 60000))]
    jobs += spread('s', sorted(STRING_TEMPLATES), wild, rng, 2)
    # strings no literal denotes
    for s in UNSPELLABLE:
        jobs.append(('s', 'arg1', {k: {'k': 'str', 'v': s} for k in template('arg1', 's')[1]}, False))
        jobs.append(('s', 'arg1', {k: {'k': 'str', 'v': s} for k in template('arg1', 's')[1]}, True))
    ints = [{'k': 'int', 'v': v} for v in (0, 1, 2, 9, 10, 255, 256, 16383, 16384, 32767, 65535, 2 ** 31, -1, -2, -10, -256, -16384, -32768)]
    ints += [{'k': 'dec', 'v': v} for v in params.DECS] + [{'k': 'const', 'v': v} for v in params.CONSTS]
    ints += [{'k': 'dec', 'v': decimal_fp(rng)} for _ in range(200)] + [{'k': 'int', 'v': rng.randint(-40000, 70000)} for _ in range(200)]
    jobs += spread('i', sorted(INT_TEMPLATES), ints, rng, ctx.n(8, 12))
    modes = [{'k': 'int', 'v': v} for v in (0, 1, 2, 3, 4, 5, -1, 255)] + [{'k': 'const', 'v': v} for v in ('DMODE_OPEN', 'X', '$y')]
    for name in sorted(MODE_TEMPLATES):
        for i in range(20):
            jobs.append(('d', name, {k: rng.choice(modes) for k in template(name, 'd')[1]}, False))
    marks = [{'k': 'pos', 'name': n, 'x': x, 'xh': a, 'y': y, 'yh': b} for n in ('m', "it's", '"', '', ' <,> ', '\\', 'a\nb')
             for x in (0, 1, 17, 255, -1, -3) for y in (0, 2, 64, -2) for a in (False, True) for b in (False, True)]
    marks += [params.mark(rng) for _ in range(ctx.n(400, 10000))]
    jobs += spread('m', sorted(MARK_TEMPLATES), [m for m in marks if params.representable(m['name'], True)], rng, 2)
    print_and_read(ctx, jobs)
    # every literal
    g = generate('lit', ctx.n(4, 5))
    ctx.cov['model states'] += g.distinct
    lits = sorted((txt(v['t']), ('str', txt(v['v']))) for v in g.verdicts)
    spell(ctx, 'op', lits, False)
    for w, b in (('op', True), ('menu', False), ('msg', False), ('lang', False), ('lang', True)):
        spell(ctx, w, rng.sample(lits, min(len(lits), ctx.n(2000, 30000))), b)
    g = generate('int', ctx.n(4, 5))
    ctx.cov['model states'] += g.distinct
    ints = sorted((txt(v['t']), ('int', 'i:%d' % v['v'])) for v in g.verdicts)
    ints += [(t, ('int', 'i:%d' % lang.int_value(t))) for t in ('0xFFFF', '0XfFfF', '-0x8000', '0o177777', '0b1111111111111111', '00', '000', '-0', '-00')]
    spell(ctx, 'op', ints, False)
    for w, b in (('op', True), ('case', False), ('asg', False)):
        spell(ctx, w, rng.sample(ints, min(len(ints), ctx.n(1500, 10000))), b)
    g = generate('dec', ctx.n(5, 6))
    ctx.cov['model states'] += g.distinct
    decs = sorted((txt(v['t']), ('dec', decimal(v['v']))) for v in g.verdicts)
    for w, b in (('op', False), ('op', True), ('case', False), ('asg', False)):
        spell(ctx, w, decs, b)
    g = generate('coord', ctx.n(4, 5))
    ctx.cov['model states'] += g.distinct
    good = sorted((txt(v['t']), (v['v']['rel'], v['v']['half'])) for v in g.verdicts if v['ok'] and not nohalf(txt(v['t'])))
    bad = sorted(txt(v['t']) for v in g.verdicts if not v['ok'])
    for b in (False, True):
        mixed = [(x, rng.choice(good)) for x in good] + [(rng.choice(good), y) for y in good]
        spell(ctx, 'pos', [((x[0], y[0]), (x[1], y[1])) for x, y in mixed], b)
        jobs = [('pos', [(t, '1')] if i % 2 else [('1', t)], b) for i, t in enumerate(bad)]
        for j, r in zip(jobs, pmap(spell_job, jobs)):
            ctx.add('coordinates that must be rejected')
            if 'fail' not in r or not r['fail'].split(':')[0] in ('SsbCompilerError', 'ParseError', 'ValueError'):
                ctx.violation('coord:%s' % (j[1],), 'coordinate %s is accepted as %s' % (j[1][0], r.get('got') or r['fail']), {'spell': ['pos', list(j[1][0]), b, None]})
    ctx.sample({'strings': values[1000:1004], 'literals': [t for t, _ in lits[3000:3004]], 'decimals': [t for t, _ in decs[40:44]]})


def nohalf(t):
    """-0.5: the sign of a tile coordinate between 0 and -1 is not specified"""
    return t.startswith('-') and lang.pos_arg(t) == (0, True)


def decimal_fp(rng):
    return '%s%d.%s' % (rng.choice(['', '-']), rng.choice([0, 1, 12, 127, rng.randint(0, 128)]),
                        rng.choice(['0', '5', '25', '125', '0625', '00390625', '99609375', '10', '50', str(rng.randint(1, 9999))]))


UNSPELLABLE = ['a\r\nb', '\'\'\'"""\\n', ' \n \\']


def replay(d):
    if 'job' in d:
        kind, name, vals, ssbs = d['job']
        what, text, raw = round_trip(kind, name, {int(k): v for k, v in vals.items()}, ssbs)
        print(text)
        print(what)
        return bool(what)
    where, t, ssbs, want = d['spell']
    if where == 'pos':
        t = tuple(t)
    r = spell_job((where, [t], ssbs))
    print(r)
    return r.get('got') != [want] if want is not None else 'fail' not in r
