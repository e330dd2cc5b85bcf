"""Driving spec/Equiv.tla: pairs of machines -> verdicts of the product automaton."""
import os
from . import tlc


class Pair:
    __slots__ = ('id', 'l', 'r', 'tab', 'info')

    def __init__(self, id, l, r, tab=True, info=None):
        self.id, self.l, self.r, self.tab, self.info = str(id), l, r, tab, info


def batches(pairs, k):
    """split into k input documents of similar size; machines shared by identity"""
    k = max(1, min(k, len(pairs)))
    out = []
    for i in range(k):
        ms, idx, ps = [], {}, []
        for p in pairs[i::k]:
            def ref(m):
                if id(m) not in idx:
                    ms.append(m)
                    idx[id(m)] = len(ms)
                return idx[id(m)]
            ps.append({'id': p.id, 'l': ref(p.l), 'r': ref(p.r), 'tab': p.tab})
        out.append({'machines': ms, 'pairs': ps})
    return out


def check(ctx, pairs, jvms=3, workers=3, module='Equiv'):
    """-> {pair id: [bad verdicts]}, set(ids with an op-free cycle)"""
    bad, div = {}, set()
    if not pairs:
        return bad, div
    ids = {p.id for p in pairs}
    assert len(ids) == len(pairs)
    for i in range(0, len(pairs), 6000):
        part = pairs[i:i + 6000]
        runs = tlc.tlc_batches(module, batches(part, jvms if len(part) > 30 else 1), jobs=jvms, workers=workers)
        for r in runs:
            ctx.add('states', r.distinct)
            ctx.add('transitions', r.states)
            for v in r.verdicts:
                if v['verdict'] == 'bad':
                    bad.setdefault(v['id'], []).append(v)
                else:
                    div.add(v['id'])
    ctx.add('traces_validated_against_impl', len(pairs))
    return bad, div


def trace(pair):
    """TLC's counterexample for one pair, as text"""
    d = batches([pair], 1)[0]
    try:
        r = tlc.tlc('Equiv', d, cfg='EquivTrace', ok_codes=(0, 12, 10), workers=1)
    except tlc.TlcError as e:
        return str(e)[:3000]
    out = r.out
    i = out.find('Error:')
    return out[i:i + 6000] if i >= 0 else out[-2000:]


def describe(v):
    if v['clause'] == 'routine table':
        return 'routine table differs: expected %s, compiled %s' % (v['left'], v['right'])
    f = lambda o: '%s %s(%s)' % (o['t'], o['n'], ', '.join(o['p']))
    return 'routine %d: expected %s, got %s' % (v['routine'] - 1, f(v['lobs']), f(v['robs']))
