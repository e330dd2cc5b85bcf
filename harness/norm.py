"""The one equality of parameters the properties grant: a dungeon mode number 0..3 and the configured constant for it."""
from .real import DMC

_M = {'c:' + n: 'i:%d' % i for i, n in enumerate(DMC)}


def _v(p):
    return _M.get(p, p)


def dmode(m):
    """machine (see real.ssb_machine / flatten) with dungeon mode constants replaced by their number"""
    if m['kind'] == 'ssb':
        ops, chain = [], False
        for o in m['ops']:
            if o['n'] == 'flag_SetDungeonMode' and len(o['p']) >= 2:
                o = dict(o, p=[o['p'][0], _v(o['p'][1])] + o['p'][2:])
            elif chain and o['n'] == 'Case' and o['p']:
                o = dict(o, p=[_v(o['p'][0])] + o['p'][1:])
            ops.append(o)
            chain = not o['last'] and (o['n'] == 'SwitchDungeonMode' or (chain and o['n'].startswith('Case')))
        return dict(m, ops=ops)
    nodes = []
    for n in m['nodes']:
        if n['k'] == 'asg' and n.get('f') == 'dmode':
            n = dict(n, val=_v(n['val']))
        elif n['k'] == 'op' and n['name'] == 'flag_SetDungeonMode' and len(n['params']) >= 2:
            n = dict(n, params=[n['params'][0], _v(n['params'][1])] + n['params'][2:])
        elif n['k'] == 'switch' and n['h']['k'] == 'dmode':
            n = dict(n, cases=[dict(c, v=_v(c['v'])) if c['k'] == 'val' else c for c in n['cases']])
        nodes.append(n)
    return dict(m, nodes=nodes)
