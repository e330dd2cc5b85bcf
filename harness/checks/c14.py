"""C14: source maps through serialisation and offset rewriting."""
import os
import random
from .. import project, real, tlc
from ..pool import pmap

LEVEL = 'exhaustive_bounded'
TECHNIQUE = 'TLA+ specification of source maps under serialising and rewriting (TLC); all its small histories replayed, recorded histories checked by TLC'
NOTE = ('SrcMap.tla has the source map as state and the trip through the serialised form and the rewriting through a mapping as actions. TLC checks '
        'the laws of rewriting and prints all maps over 3 offsets with all injective mappings, and all two-step histories over 2 offsets; these, '
        'random larger maps (any strings, dropped ops, non-monotone mappings) and the maps of compiled projects are run through the real class and '
        'every step recorded is checked by TLC. Mappings are injective; where no later op survives nothing is demanded of the return address.')
TRIP = [[-9, -9]]


def state(sm):
    from explorerscript.source_map import MacroSourceMapping
    es = []
    direct = {id(m) for _, m in sm} - {id(m) for _, m in sm.collect_mappings__macros()}
    for o, m in sm:
        if id(m) in direct:
            es.append({'o': o, 'k': 'd', 'f': repr((m.line, m.column))})
    for o, m in sm.collect_mappings__macros():
        es.append({'o': o, 'k': 'm', 'ret': -1 if m.return_addr is None else m.return_addr,
                   'f': repr((m.relpath_included_file, m.macro_name, m.line, m.column, m.called_in, sorted(m.parameter_mapping.items())))})

    def mk(p):
        return repr((p.line_number, p.column_number, p.end_line_number, p.end_column_number, p.name, p.x_offset, p.y_offset,
                     p.x_relative, p.y_relative))
    return {'entries': es, 'marks': [mk(p) for p in sm.get_position_marks__direct()] +
            [repr((f, n, mk(p))) for f, n, p in sm.get_position_marks__macros()]}


def history(sm, acts, pretty=False):
    from explorerscript.source_map import SourceMap
    ss, aa = [state(sm)], []
    for a in acts:
        if a == TRIP:
            t = sm.serialize(pretty)
            new = SourceMap.deserialize(t)
            aa.append({'k': 'trip', 'm': [], 'eq': bool(new == sm and sm == new and not new != sm), 'text': new.serialize(pretty) == t})
            sm = new
        else:
            sm.rewrite_offsets({x: y for x, y in a})
            aa.append({'k': 'rewrite', 'm': a, 'eq': True, 'text': True})
        ss.append(state(sm))
    return ss, aa


def build(base, rng=None):
    """a source map with those entries; contents vary with the offsets (and with rng)"""
    from explorerscript.source_map import SourceMap, SourceMapping, MacroSourceMapping, SourceMapPositionMark
    r = rng or random.Random(len(base))
    ST = ['', 'm', 'a/b.exps', '../x.exps', 'é"\'\\', '日本\n', 'null', '0', '\u2028', '\x00', '{"a": 1}']
    d, mm = {}, {}
    for e in base:
        if e['k'] == 'd':
            d[e['o']] = SourceMapping(r.randint(0, 99), r.randint(0, 99))
        else:
            called = None if r.random() < 0.5 else (None if r.random() < 0.5 else r.choice(ST), r.randint(0, 9), r.randint(0, 9))
            pm = {('$' + r.choice(ST)): r.choice([0, -1, 5, 'x', '', '"q"', 'é\n']) for _ in range(r.choice([0, 0, 1, 2]))}
            mm[e['o']] = MacroSourceMapping(r.choice([None, None] + ST), r.choice(ST), r.randint(0, 99), r.randint(0, 99), called,
                                            None if e['ret'] == -1 else e['ret'], pm)

    def mark():
        return SourceMapPositionMark(*[r.randint(0, 50) for _ in range(4)], r.choice(ST), r.choice([0, 2]), r.choice([0, 2]),
                                     r.randint(-9, 60), r.randint(-9, 60))
    return SourceMap(d, [mark() for _ in range(r.choice([0, 1, 3]))], mm,
                     [(r.choice([None, 'x.exps']), r.choice(ST), mark()) for _ in range(r.choice([0, 0, 2]))])


def mapping(rng, offs):
    """an injective old-to-new mapping: ops dropped, added in between, sometimes in another order"""
    p = rng.choice([0, 0.1, 0.3, 0.7])
    keep = [o for o in offs if rng.random() >= p]
    new, n = [], rng.choice([0, 0, 1, 100])
    for _ in keep:
        new.append(n)
        n += rng.choice([1, 1, 2, 5])
    if rng.random() < 0.15:
        rng.shuffle(new)
    return [[a, b] for a, b in zip(keep, new)]


def acts_for(rng, offs):
    out = []
    for _ in range(rng.choice([1, 2, 3, 4])):
        if rng.random() < 0.4:
            out.append(TRIP)
        else:
            m = mapping(rng, offs)
            out.append(m)
            offs = sorted(b for _, b in m)
            offs = sorted(set(offs) | {o + 1 for o in offs if rng.random() < 0.3})
    return out


def tlc_case(a):
    base, h = a
    ss, aa = history(build(base), h)
    return {'s': ss, 'a': aa, 'how': {'base': base, 'h': h}}


def random_case(seed):
    rng = random.Random(seed)
    n = rng.randint(0, 14)
    offs, o = [], rng.choice([0, 1, 1000])
    for _ in range(n):
        offs.append(o)
        o += rng.choice([1, 1, 1, 3])
    base = []
    for x in offs:
        k = rng.random()
        if k < 0.35:
            base.append({'o': x, 'k': 'd'})
        elif k < 0.85:
            base.append({'o': x, 'k': 'm', 'ret': rng.choice([-1, 0, x + 1, x + 2, rng.choice(offs), o, o + 3])})
    if rng.random() < 0.3:
        rng.shuffle(base)
    ss, aa = history(build(base, rng), acts_for(rng, offs), rng.random() < 0.3)
    return {'s': ss, 'a': aa, 'how': {'seed': seed}}


def project_case(seed):
    """the source map of a compiled project with macros and imports"""
    rng = random.Random(seed)
    pr = project.project(seed)
    with project.Scratch() as root:
        texts = project.write(pr, root)
        c = real.ExplorerScriptSsbCompiler(real.PERF, [os.path.join(root, d) for d in pr['lookup']])
        try:
            with real.cpu_limit(30):
                c.compile(texts[pr['main']], os.path.join(root, pr['main']))
        except (Exception, real.Hang):
            return None
    offs = [op.offset for r in c.routine_ops for op in r]
    if len(offs) > 150:
        return None
    ss, aa = history(c.source_map, acts_for(rng, offs))
    return {'s': ss, 'a': aa, 'how': {'project': seed}}


def judge(ctx, cases, kind):
    cases = [c for c in cases if c]
    batches = []
    size = 12000 if kind == 'tlc' else 1500
    for i in range(0, len(cases), size):
        batches.append({'cases': [{'id': j, 's': c['s'], 'a': c['a']} for j, c in enumerate(cases[i:i + size], i)]})
    for r in tlc.tlc_batches('SrcMapCheck', batches, jobs=4, workers=2):
        ctx.add('steps checked by TLC', r.distinct)
        for v in r.verdicts:
            c = cases[v['id']]
            k = v['step']
            ctx.violation('%s:%s' % (kind, c['how']), '%s (%s map, step %d)\nbefore %s\naction %s\nafter  %s'
                          % (v['clause'], kind, k, c['s'][k - 1], c['a'][k - 1], c['s'][k]), {'how': c['how']})
    ctx.add('histories (%s)' % kind, len(cases))


def run(ctx):
    allc = []
    for cfg in ('SrcMapGen_3_1', 'SrcMapGen_2_2'):
        r = tlc.tlc('SrcMapGen', None, cfg=cfg, workers=6)
        ctx.add('model states', r.distinct)
        allc = [(v['base'], v['h']) for v in r.verdicts]
        for i in range(0, len(allc), 100000):
            judge(ctx, pmap(tlc_case, allc[i:i + 100000], chunk=500), 'tlc')
        ctx.sample({'from the model': allc[len(allc) // 2]})
    b = ctx.seed * 1000000
    judge(ctx, pmap(random_case, range(b, b + ctx.n(6000, 100000)), chunk=100), 'random')
    judge(ctx, pmap(project_case, range(b, b + ctx.n(250, 4000))), 'compiled')


def replay(d):
    from ..core import Ctx
    h = d['how']
    c = random_case(h['seed']) if 'seed' in h else project_case(h['project']) if 'project' in h else tlc_case((h['base'], h['h']))
    ctx = Ctx('C14', 'quick', 0, LEVEL)
    judge(ctx, [c], 'replay')
    for _, what, _ in ctx.bad:
        print(what)
    return bool(ctx.bad)
