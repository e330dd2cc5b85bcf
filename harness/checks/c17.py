"""C17: the highlighting lexer is total and loses no text."""
import contextlib
import importlib
import io
import os
import random
from .. import forms, lang, progs, project, real, spell, tlc
from ..pool import pmap
from . import c16

LEVEL = 'exhaustive_bounded'
TECHNIQUE = 'TLA+ highlighter machine (TLC) checked for progress and losslessness and used to generate all short texts; recorded token streams of the real lexer read by a TLA+ monitor'
NOTE = ('Highlight.tla specifies the highlighter (modes, tokens) and TLC shows progress and losslessness for every text of at most max pieces; every such '
        'text is given to the real lexer, as are all code points of chosen blocks in every context, random texts, long texts, and accepted programs '
        '(respelled with the separators of Tokens.tla, whole projects, wild strings and comments). HighlightCheck.tla reads the recorded token streams '
        'along the text. Streams are also taken interleaved from one lexer object. What kinds of tokens the lexer chooses is not judged, except error '
        'tokens. Line ends and a byte order mark are normalised by Pygments itself (known finding).')

PIECES = ['"""', "'''", '"', "'", '\\', '\n', '/*', '*/', '//', '$a', '@', '5', '.', ' ', 'é', 'if']
CORE = ['"""', "'''", '"', "'", '\\', '\n', '/*', '*/', '//', '*', 'a5']
MORE = PIECES + ['§b', '§', '$', '~m', '0x1F', '0b2', '-1', '.5', '00.50', '3', '\t', '\r', '\r\n', '\f', '\x0b', '\x00', '\x85', '\u2028', '\ufeff', '\U0001f600', '\ud800',
                 '{', '}', '(', ')', '[', ']', '<', '>', '=', '!', '&', '^', ',', ';', ':', '?', '`', '#', '%', '|', '\\\n', '\\"', "\\'", '\\\\', '/**/', '/***/', '*', '/',
                 'import', 'macro', 'for_actor', 'for_', 'actor', 'break_loop', 'a', '_x9', '日本', 'TRUE', 'scn', 'x' * 70, '""', "''", '""""', "''''", '\n\n', 'Position<']


def lexer():
    return importlib.import_module('explorerscript.pygments.expslexer').ExplorerScriptLexer()


def normal(text):
    if text.startswith('\ufeff'):
        text = text[1:]
    return text.replace('\r\n', '\n').replace('\r', '\n')


def cp(s):
    return [ord(c) for c in s]


def take(stream, limit, ev, err):
    """up to limit tokens; whether the stream ended"""
    from pygments.token import Error
    for k, s in stream:
        ev.append(s)
        if k in Error:
            err.append(len(ev))
        if len(ev) > limit:
            return False
    return True


def record(arg):
    """token streams of several texts from one lexer: one after the other or alternating"""
    texts, how = arg
    lx = lexer()
    out = [{'ev': [], 'err': [], 'hung': True} for _ in texts]
    try:
        with real.cpu_limit(20):
            if how == 'alternate':
                streams = [iter(lx.get_tokens(t)) for t in texts]
                left = set(range(len(texts)))
                while left:
                    for j in sorted(left):
                        o = out[j]
                        n = len(o['ev'])
                        one = (x for _, x in zip(range(1), streams[j]))
                        take(one, 10 ** 9, o['ev'], o['err'])
                        if len(o['ev']) == n:
                            left.discard(j)
                            o['hung'] = False
                        elif n > 20 * len(texts[j]) + 1000:
                            left.discard(j)
            else:
                for t, o in zip(texts, out):
                    if how == 'new':
                        lx = lexer()
                    o['hung'] = not take(lx.get_tokens(t), 20 * len(t) + 1000, o['ev'], o['err'])
    except real.Hang:
        pass
    except Exception as e:
        for o in out:
            if o['hung']:
                o['exc'] = '%s: %s' % (type(e).__name__, e)
                break
    return out


def groups(texts, rng, size=40):
    l = []
    for i in range(0, len(texts), size):
        l.append((texts[i:i + size], rng.choice(['new', 'same', 'same', 'alternate'])))
    return l


def judge(ctx, texts, accepted, what):
    """texts through the real lexer, the streams through the monitor"""
    rng = random.Random('%s %d' % (what, ctx.seed))
    gs = groups(texts, rng, 40 if len(texts) > 1000 else 8)
    cases = []
    for (g, how), rs in zip(gs, pmap(record, gs, chunk=4)):
        for t, r in zip(g, rs):
            cases.append({'id': len(cases), 'text': cp(t), 'plain': cp(normal(t)), 'ev': [cp(s) for s in r['ev']], 'err': r['err'], 'hung': r['hung'], 'accepted': accepted, '_': (t, how, r, g)})
    ctx.add('traces_validated_against_impl', len(cases))
    ctx.add('lexed ' + what, len(cases))
    n = max(1, min(6, len(cases) // 50))
    data = [{'cases': [{k: v for k, v in c.items() if k != '_'} for c in cases[j::n]]} for j in range(n)]
    bad = 0
    for r in tlc.tlc_batches('HighlightCheck', data, jobs=6, workers=1):
        ctx.add('states', r.distinct)
        ctx.add('transitions', r.states)
        for v in r.verdicts:
            t, how, rec, g = cases[v['id']]['_']
            bad += 1
            if v['v'] == 'normalised':
                key = 'Pygments drops a leading byte order mark' if t.startswith('\ufeff') else 'Pygments normalises line ends'
            else:
                key = 'text:' + repr(t)
            if rec.get('exc'):
                v['v'] += ' (%s)' % rec['exc']
            ctx.violation(key, '%s after token %d, character %d: %r\ngives %r' % (v['v'], v['i'], v['p'], t[:400], rec['ev'][:60]), {'text': t, 'how': how, 'texts': g, 'accepted': accepted, 'v': v['v']})
    return bad


def short(ctx):
    """all texts of the machine"""
    batches = []
    for pieces, n in ((PIECES, ctx.n(3, 4)), (CORE, ctx.n(4, 5))):
        for j in range(4):
            batches.append({'pieces': [cp(p) for p in pieces], 'first': list(range(j + 1, len(pieces) + 1, 4)), 'max': n, '_': pieces})
    texts = []
    for b, r in zip(batches, tlc.tlc_batches('Highlight', batches, jobs=8, workers=1)):
        ctx.add('states', r.distinct)
        ctx.add('transitions', r.states)
        texts += [''.join(b['_'][k - 1] for k in v['l']) for v in r.verdicts]
    ctx.cov['texts of the highlighter machine'] = len(texts)
    return sorted(set(texts))


def snippet(rng):
    """comments, strings, numbers and marks with odd contents, closed or not"""
    out = []
    for _ in range(rng.randint(1, 3)):
        body = ''.join(rng.choice(WILD) for _ in range(rng.randint(0, 4)))
        a, b = rng.choice([('/*', '*/'), ('/*', '*/'), ('/**', '*/'), ('/**', '**/'), ('//', '\n'), ('///', '\n'), ('//!', '\n'), ('"', '"'), ("'", "'"), ('"""', '"""'), ("'''", "'''"),
                           ('@', ';'), ('§', ';'), ('$', '='), ('~', '('), ('Position<', '>'), ('0x', ','), ('.', '5'), ('import "', '";'), ('{', '}')])
        out.append(a + body + (b if rng.random() < 0.8 else '') + rng.choice(['', ' ', '\n', 'x', '5']))
    return ''.join(out)


# ------------------------------------------------------------------ accepted sources
WILD = ['"""', "'''", '"', "'", '\\"', "\\'", '\\n', '*/', '/*', '//', '$', '@', '§', '5', '.', 'é', '日', '\u2028', '\x85', '\x00', '\x7f', '\U0001f600', '\ufeff', '#', '%', '`', '|', '?', '~', ' ', '\t', 'if', '0x', '\n', '\n', '*', '**', '/', '-', '\t\n', ' \n ', '!', 'TODO', ':', '{', '}']


def wild_source(seed):
    """a source with unusual comments and strings; not all are accepted"""
    rng = random.Random('wild%d' % seed)

    def body(n, no):
        return ''.join(x for x in (rng.choice(WILD) for _ in range(rng.randint(0, n))) if not any(y in x for y in no))

    def comment():
        k = rng.randrange(4)
        if k == 0:
            return '//' + body(5, '\n') + '\n'
        if k == 1:
            return '/*' + body(5, ['*/']).replace('*/', '') + '*/'
        return rng.choice(['', ' ', '\n', '\\\n', '\t', '\\  \n'])

    def string():
        q = rng.choice(['"', "'", '"""', "'''"])
        b = body(5, [q[0], '\n', '\r'] if len(q) == 1 else [q])
        if len(q) == 3:
            b = b.replace('\\', '') + rng.choice(['', '\n', '\n  '])
            b = b.rstrip(q[0])
        return q + b + q
    toks = ['def', ' ', '0', '{']
    for _ in range(rng.randint(1, 4)):
        toks += [rng.choice(['§l%d;' % rng.randrange(9), '@l%d;' % rng.randrange(9), '']), 'a', '(', string(), ',', rng.choice(['1', '-.5', '0X1f', '05.50', '$V', 'if_', 'CONST']), ',', string(), ')', ';']
    toks += ['}']
    out = []
    for t in toks:
        out += [t, comment()]
    end = rng.choice(['', '', '// ' + body(3, '\n'), '/* ' + body(3, ['*/']), '\n', '\n\n', '\f' if 0 else ''])
    return '\n' * rng.choice([0, 0, 1, 2]) + ''.join(out) + end


def accepted(text):
    with contextlib.redirect_stderr(io.StringIO()):
        return real.compile_text(text)['ok']


def sweep(ctx):
    """runs of code points in every context"""
    blocks = list(range(0, 0x3000, 64))
    rng = ctx.rng
    blocks += [0xd800, 0xdfc0, 0xfe00, 0xfec0, 0xff00, 0xffc0, 0x10ffc0] + [rng.randrange(0x3000, 0x110000 - 64) & ~63 for _ in range(ctx.n(60, 4000))]
    texts, good = [], []
    for b in blocks:
        cs = ''.join(map(chr, range(b, b + 64)))
        texts += [cs, ' '.join(cs), '"%s"' % cs, "'%s'" % cs, '"""%s"""' % cs, "'''%s'''" % cs, '/*%s*/' % cs, '//' + cs, '$a%s' % cs, '@' + '@'.join(cs), '§' + '§'.join(cs)]
        clean = ''.join(c for c in cs if c not in '"\'\\\r\n\f*/')
        good += ['def 0 { a("%s"); }' % clean, "def 0 { a('%s'); }" % clean, 'def 0 { a("""%s"""); }' % clean, "def 0 { a('''%s'''); }" % clean, 'def 0 {/*%s*/ a();//%s\n}' % (clean, clean)]
    return texts, good


def programs(ctx):
    b = ctx.seed * 1000000
    cases = [('ast', p) for _, p in forms.forms()][::ctx.n(3, 1)] + [('seed', b + i) for i in range(ctx.n(120, 3000))]
    bases = [x for x in pmap(c16.base, cases) if x[2]['ok']]
    todo, pairs = [], set()
    for i, (ast, text, r) in enumerate(bases):
        rng = random.Random('%d %d' % (ctx.seed, i))
        toks = c16.tokens(ast, spell.Spell(rng))
        rs = [c16.rep(t) for t in toks]
        pairs.update(zip(rs, rs[1:]))
        pairs.update([('', rs[0]), (rs[-1], '')])
        todo.append(toks)
    table = c16.neutral_table(ctx, pairs, set(ctx.rng.sample(sorted(pairs), min(len(pairs), ctx.n(5, 200)))))
    texts = [x[1] for x in bases]
    for i, toks in enumerate(todo):
        for k in range(ctx.n(1, 4)):
            texts.append(c16.separators(toks, table, random.Random('%d %d %d' % (ctx.seed, i, k)), k % 2))
    for seed in range(b, b + ctx.n(60, 1500)):
        texts += files(seed)
    texts += [wild_source(b + i) for i in range(ctx.n(3000, 60000))]
    return texts


def files(seed):
    """all files of a project that compiles"""
    pr = project.project(seed)
    with project.Scratch() as root:
        texts = project.write(pr, root, lang.render)
        r = real.compile_text(texts[pr['main']], os.path.join(root, pr['main']), [os.path.join(root, d) for d in pr['lookup']])
        return list(texts.values()) if r['ok'] else []


def run(ctx):
    texts = short(ctx)
    ctx.sample({'text': texts[len(texts) // 2]})
    judge(ctx, texts, False, 'short texts')
    rng = random.Random('texts%d' % ctx.seed)
    texts = [''.join(rng.choice(MORE) for _ in range(rng.choice([3, 5, 8, 13, 30]))) for _ in range(ctx.n(4000, 100000))] + MORE + ['']
    texts += [a + b for a in MORE for b in MORE] + [a + rng.choice(' \n\t') + b for a in MORE for b in MORE]
    texts += [snippet(rng) for _ in range(ctx.n(4000, 100000))]
    texts += [p * n for p in MORE for n in (7, ctx.n(300, 1500))]
    judge(ctx, texts, False, 'random texts')
    texts, good = sweep(ctx)
    judge(ctx, texts, False, 'code point texts')
    texts = programs(ctx) + good
    ok = pmap(accepted, texts)
    acc = sorted({t for t, o in zip(texts, ok) if o}, key=len)
    ctx.cov['accepted_sources'] = len(acc)
    ctx.sample({'accepted': acc[len(acc) // 2]})
    judge(ctx, acc, True, 'accepted sources')
    ctx.bad.sort(key=lambda x: len(x[2]['text']))
    ctx.cov['generators'] = 'Highlight.tla (all texts of up to %d pieces), random piece texts, code point sweep, accepted programs' % ctx.n(3, 4)


def replay(data):
    t = data['text']
    r = record(([t], 'new'))[0]
    if data['how'] != 'new' and t in data['texts']:
        r = record((data['texts'], data['how']))[data['texts'].index(t)]
    print(repr(t), '\n', r)
    o = ''.join(r['ev'])
    return r['hung'] or o not in (t, t + '\n') or bool(data['accepted'] and r['err'])
