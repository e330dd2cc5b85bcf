"""Driving spec/Assembler.tla: op lists -> verdicts of the assembler machine."""
from . import tlc


def oplist(facts):
    """facts of a compilation result or of a routine set (see real.ops_facts) -> list record of the spec"""
    ops, nums = [], {}

    def off(o):
        # offsets that are no numbers (None, strings) get numbers of their own, so that TLC can compare them
        return o if isinstance(o, int) and not isinstance(o, bool) else nums.setdefault(repr(o), -10 - len(nums))
    for rt, rr in enumerate(facts['ops']):
        for op in rr:
            p = list(op['p'])
            li = int(p[-1][2:]) if p and p[-1].startswith('i:') else -1
            internal = (op.get('cls', 'SsbOperation') != 'SsbOperation' or '<' in op['n']
                        or any(x.startswith('other:') for x in p))
            ops.append({'o': off(op['o']), 'n': op['n'], 'p': p, 'li': li, 'rt': rt, 'internal': internal})
    return {'ops': ops, 'ninfo': facts['ninfo'], 'ncoro': facts['ncoro'], 'nops': len(facts['ops']), 'table': facts['table']}


EMPTY = {'ops': [], 'ninfo': 0, 'ncoro': 0, 'nops': 0, 'table': []}


def closed(id, facts, table=()):
    """table: the routine table the source declares (optional)"""
    return {'id': id, 'kind': 'closed', 'l': oplist(facts), 'r': dict(EMPTY, table=list(table))}


def same(id, left, right):
    return {'id': id, 'kind': 'same', 'l': oplist(left), 'r': oplist(right)}


def check(ctx, cases, jvms=3, workers=2):
    """-> {case id: verdict}"""
    bad = {}
    for i in range(0, len(cases), 6000):
        part = cases[i:i + 6000]
        k = jvms if len(part) > 60 else 1
        for r in tlc.tlc_batches('Assembler', [{'cases': part[j::k]} for j in range(k)], jobs=jvms, workers=workers):
            ctx.add('states', r.distinct)
            ctx.add('transitions', r.states)
            for v in r.verdicts:
                bad[v['id']] = v
    ctx.add('traces_validated_against_impl', len(cases))
    return bad


def describe(v):
    s = '%s (op %d: %s %s' % (v['clause'], v['at'], v['lop'].get('n'), v['lop'].get('p'))
    if v['rop'].get('n'):
        s += ', expected from %s %s' % (v['rop']['n'], v['rop'].get('p'))
    return s + ')'
