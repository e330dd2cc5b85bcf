"""C18: the position-mark listing and the Position literals of the text."""
import json
import os
import random
from .. import gen, lang, params, project, real, spell, tlc
from ..pool import pmap

LEVEL = 'statistical'
TECHNIQUE = 'TLA+ scanner of source texts (Positions.tla) run by TLC over generated texts; recorded listings, compiled marks and edits checked against it'
NOTE = ('TLC scans every text by the lexical rules of the language and derives the listing; the recorded one has to be the same. Texts: random projects '
        'with several files, macros, macro-call arguments, switch and if headers, random layouts, comments and spellings; also programs that parse but '
        'do not compile. Every edit splices the printed form of another mark into the span the listing gave and compiles again.')


class Gen(gen.Gen):
    """marks in a good part of the arguments"""

    def arg(self):
        return self.mark() if self.p(self.o.get('markp', 0.35)) else super().arg()

    def marg(self):
        return self.mark() if self.p(self.o.get('markp', 0.35)) else super().marg()

    def mark(self):
        a = params.mark(self.r)
        return a


def nodes(x, k, out):
    if isinstance(x, dict):
        if x.get('k') == k and 'xh' in x:
            out.append(x)
        for v in x.values():
            nodes(v, k, out)
    elif isinstance(x, (list, tuple)):
        for v in x:
            nodes(v, k, out)
    return out


TAILS = ['\n', '', '\n\n', ' // Position<"x", 1, 2>', '/* Position<"x", 1, 2> */\n', '\n/* open Position<"m", 3, 4>', '\r\n']
HEADS = ['', '', '\n\n', '/* Position<"x", 1, 2> */', '// "é😀\n', '  \t', '\r\n/*\n*/ ']


def build(seed):
    rng = random.Random(seed)
    old, gen.Gen = gen.Gen, Gen
    try:
        pr = project.project(seed, markp=rng.choice([0.1, 0.3, 0.6]))
    finally:
        gen.Gen = old
    pr = spell.unshare(pr)
    n, pr['twins'] = 0, rng.random() < 0.15
    for f in pr['files'].values():
        for a in nodes(f, 'pos', []):
            if pr['twins']:
                a.update(name=rng.choice(['m', 'm0', a['name']]), x=rng.choice([3, a['x']]), xh=False, y=4, yh=False)
            else:
                a['name'] = '%d%s' % (n, a['name'])
            n += 1
            for h, v, raw in (('xh', 'x', 'xr'), ('yh', 'y', 'yr')):
                if a[h] and rng.random() < 0.5:
                    s = '-' if a[v] < 0 else ''
                    w = '%d' % abs(a[v])
                    a[raw] = s + rng.choice(['0', '00', '']) + ('' if w == '0' and rng.random() < 0.5 else w) + '.5' + '0' * rng.randint(0, 2)
                    if a[v] == 0 and rng.random() < 0.3:
                        a[raw] = '-' + a[raw]
                elif not a[h] and rng.random() < 0.2:
                    a[raw] = '%d.%s' % (a[v], '0' * rng.randint(1, 3))
    if rng.random() < 0.2:
        break_it(pr, rng)
    return pr, rng


def break_it(pr, rng):
    """still parses, does not compile"""
    f = pr['files'][pr['main']]
    bodies = [r['body'] for r in f['routines'] if not r['alias']]
    if bodies:
        b = rng.choice(bodies)
        b.insert(rng.randint(0, len(b)), rng.choice([gen.st('break'), gen.st('mcall', name='no_such_macro', args=[params.mark(rng)]),
                                                     gen.st('jump', name='nowhere')]))


def listing(text):
    from explorerscript.explorerscript_reader import ExplorerScriptReader
    from explorerscript.ssb_converting.compiler.compiler_visitor.position_mark_visitor import PositionMarkVisitor
    return PositionMarkVisitor().visit(ExplorerScriptReader(text).read())


def rec(m):
    return {'sl': m.line_number, 'sc': m.column_number, 'el': m.end_line_number, 'ec': m.end_column_number,
            'name': [ord(c) for c in m.name], 'x': m.x_relative, 'xo': m.x_offset, 'y': m.y_relative, 'yo': m.y_offset}


def mark_text(p):
    return 'P:' + json.dumps([p.name, p.x_relative, p.x_offset, p.y_relative, p.y_offset])


def compiled(pr, root, texts):
    """ops as text, marks in the parameters"""
    c = real.ExplorerScriptSsbCompiler(real.PERF, [os.path.join(root, d) for d in pr['lookup']])
    try:
        with real.cpu_limit(30):
            c.compile(texts[pr['main']], os.path.join(root, pr['main']))
    except (Exception, real.Hang) as e:
        return None, [], '%s: %s' % (type(e).__name__, str(e)[:200])
    M = real.SsbOpParamPositionMarker
    rows = [[[o.op_code.name] + [mark_text(p) if isinstance(p, M) else real.canon_param(p) for p in o.params] for o in r] for r in c.routine_ops]
    rows.append([[json.dumps(real.table_of(c.routine_infos, c.named_coroutines))]])
    marks = [p for r in c.routine_ops for o in r for p in o.params if isinstance(p, M)]
    return rows, [{'name': [ord(ch) for ch in p.name], 'x': p.x_relative, 'xo': p.x_offset, 'y': p.y_relative, 'yo': p.y_offset}
                  for p in marks], ''


def offset_of(text, line, col):
    i = 0
    for _ in range(line):
        i = text.index('\n', i) + 1
    return i + col


def make(seed, nedit=2):
    pr, rng = build(seed)
    out = []
    with project.Scratch() as root:
        def rend(f):
            return lang.render(f, spell.Spell(rng), lang.Layout(rng.choice(['rand', 'rand', 'flat', 'pretty']), rng),
                               rng.choice(HEADS), rng.choice(TAILS))
        texts = project.write(pr, root, rend)
        before, marks, why = compiled(pr, root, texts)
        for p, t in texts.items():
            if len(t) > 6000:
                continue
            case = {'t': [ord(c) for c in t], 'list': [], 'params': [], 'edits': [], 'how': {'seed': seed}, 'text': t, 'exc': '',
                    'compiles': before is not None, 'why': why}
            out.append(case)
            try:
                l = listing(t)
                case['list'] = [rec(m) for m in l]
            except Exception as e:
                case['exc'] = 'listing: %s: %s' % (type(e).__name__, str(e)[:200])
                continue
            own = {json.dumps(r['name']) for r in case['list']}
            case['params'] = [m for m in marks if not pr['twins'] and json.dumps(m['name']) in own]
            if before is None:
                continue
            for _ in range(nedit if l and not pr['twins'] else 0):
                m = rng.choice(l)
                new = params.mark(rng)
                q = real.SsbOpParamPositionMarker('edited' + new['name'], 2 * new['xh'], 2 * new['yh'], new['x'], new['y'])
                if not params.representable(q.name, True) or (new['xh'] and new['x'] < 0) or (new['yh'] and new['y'] < 0):
                    q = real.SsbOpParamPositionMarker('edited', 2, 0, 7, new['x'])
                a, b = offset_of(t, m.line_number, m.column_number), offset_of(t, m.end_line_number, m.end_column_number)
                t2 = t[:a] + str(q) + t[b + 1:]
                with open(os.path.join(root, p), 'w', encoding='utf-8', newline='') as fh:
                    fh.write(t2)
                after, _, w = compiled(pr, root, dict(texts, **{p: t2}))
                old = real.SsbOpParamPositionMarker(m.name, m.x_offset, m.y_offset, m.x_relative, m.y_relative)
                case['edits'].append({'from': mark_text(old), 'to': mark_text(q), 'before': before, 'after': after or [[['failed: ' + w]]]})
                with open(os.path.join(root, p), 'w', encoding='utf-8', newline='') as fh:
                    fh.write(t)
    return out


def judge(ctx, cases):
    for c in cases:
        if c['exc']:
            ctx.violation('%s' % c['how'], '%s\n%s' % (c['exc'], c['text'][:600]), {'how': c['how']})
    good = [c for c in cases if not c['exc']]
    batches, cur, size = [], [], 0
    for j, c in enumerate(good):
        cur.append(dict({k: c[k] for k in ('t', 'list', 'params', 'edits')}, id=j))
        size += len(c['t'])
        if size > 150000:
            batches.append({'cases': cur})
            cur, size = [], 0
    if cur:
        batches.append({'cases': cur})
    for r in tlc.tlc_batches('Positions', batches, jobs=4, workers=2):
        ctx.add('scanner states', r.distinct)
        for v in r.verdicts:
            c = good[v['id']]
            e = c['edits'][v['x'] - 1] if v['x'] else None
            ctx.violation('%s:%s' % (c['how'], v['clause']), '%s\n%s\nlisting %s%s' % (
                v['clause'], c['text'][:900], [(m['sl'], m['sc'], m['el'], m['ec'], ''.join(map(chr, m['name'])), m['x'], m['xo'], m['y'], m['yo'])
                                               for m in c['list']][:8],
                '\nedit %s -> %s' % (e['from'], e['to']) if e else ''), {'how': c['how']})
    ctx.add('texts', len(good))
    ctx.add('literals', sum(len(c['list']) for c in good))
    ctx.add('texts of programs that compile', sum(c['compiles'] for c in good))
    ctx.add('compiled marks', sum(len(c['params']) for c in good))
    ctx.add('edits', sum(len(c['edits']) for c in good))


def run(ctx):
    b = ctx.seed * 1000000
    n = ctx.n(1000, 12000)
    for k in range(0, n, 1000):
        cases = [c for l in pmap(make, range(b + k, b + min(n, k + 1000))) for c in l]
        judge(ctx, cases)
    ctx.sample({'text': cases[1]['text'][:500], 'listing': [(m['sl'], m['sc'], m['el'], m['ec']) for m in cases[1]['list']]})


def replay(d):
    from ..core import Ctx
    ctx = Ctx('C18', 'quick', 0, LEVEL)
    judge(ctx, make(d['how']['seed']))
    for _, what, _ in ctx.bad:
        print(what)
    return bool(ctx.bad)
