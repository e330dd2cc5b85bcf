"""AST (lang.py) -> the flat node/block tables the TLA+ machines read.

Purely structural: every meaning (which opcode, which parameters in which
order, where control goes) is in spec/ExpsMachine.tla."""
from .lang import canon, esc


class Flat:
    def __init__(self, f, macros=None, perf='$PERFORMANCE_PROGRESS_LIST'):
        """f: parsed file; macros: {name: (macro dict, file tag)} incl. imported"""
        self.nodes = []
        self.blocks = []
        self.perf = 'c:' + perf
        self.macros = macros if macros is not None else {m['name']: (m, '') for m in f['macros']}
        self.mblock = {}
        self.mlab = {}
        self.labels = {}
        self.missing = []
        self.file = f
        # routines by id (the language numbers them; textual order does not matter)
        self.routines = []
        rs = f['routines']
        if all(r['k'] == 'def' for r in rs):
            rs = sorted(rs, key=lambda r: r['id'])
        self.table = []
        for r in rs:
            t = r.get('target')
            self.table.append(['coro', '', r['name']] if r['k'] == 'coro' else
                              [t[0], canon(t[1]), ''] if t else ['', '', ''])
        for r in rs:
            d = {'kind': r['k'], 'alias': r['alias'], 'id': r.get('id', -1), 'name': r.get('name', ''),
                 'tk': r['target'][0] if r.get('target') else '', 'tv': canon(r['target'][1]) if r.get('target') else '',
                 'pos': list(r.get('pos', (0, 0))), 'body': 0}
            self.routines.append(d)
        for i, (r, d) in enumerate(zip(rs, self.routines)):
            if not r['alias']:
                d['body'] = self.block(r['body'], 0, 'routine', i + 1, '')

    def block(self, ss, owner, role, idx, scope):
        self.blocks.append(None)
        b = len(self.blocks)
        rec = {'ss': [], 'o': owner, 'r': role, 'i': idx}
        self.blocks[b - 1] = rec
        for j, s in enumerate(ss):
            rec['ss'].append(self.stmt(s, b, j + 1, scope))
        return b

    def cond(self, c):
        k = c['k']
        d = {'k': k, 'pos': list(c.get('pos', (0, 0)))}
        if k == 'op':
            d.update(var=canon(c['var']), op=c['op'], isv=c['isv'], val=canon(c['val']))
        elif k == 'bit':
            d.update(var=canon(c['var']), neg=c['neg'], idx='i:%d' % c['idx'])
        elif k == 'neg':
            d.update(neg=c['neg'], w=c['w'])
        elif k == 'scn':
            d.update(var=canon(c['var']), op=c['op'], a='i:%d' % c['a'], b='i:%d' % c['b'])
        else:
            o = c['op']
            d.update(name=o['name'], params=[canon(a) for a in o['args']],
                     ctx=o['ctx'][0] if o['ctx'] else '', ctxv=canon(o['ctx'][1]) if o['ctx'] else '')
        return d

    def macro(self, name):
        if name in self.mblock:
            return self.mblock[name]
        m, tag = self.macros[name]
        self.mblock[name] = 0
        self.mblock[name] = self.block(m['body'], 0, 'macro', 0, 'm:' + name)
        return self.mblock[name]

    def stmt(self, s, b, j, scope):
        k = s['k']
        rec = {'k': k, 'b': b, 'j': j, 'pos': list(s.get('pos', (0, 0)))}
        self.nodes.append(rec)
        n = len(self.nodes)
        if k == 'op':
            rec.update(name=s['name'], params=[canon(a) for a in s['args']], ctx=s['ctx'][0] if s['ctx'] else '',
                       ctxv=canon(s['ctx'][1]) if s['ctx'] else '')
        elif k == 'label':
            self.labels[(scope, s['name'])] = n
        elif k in ('jump', 'call'):
            rec['lab'] = (scope, s['name'])
        elif k == 'asg':
            f = s['f']
            rec['f'] = f
            if 'var' in s:
                rec['var'] = canon(s['var'])
            if 'val' in s:
                rec['val'] = canon(s['val'])
            if f == 'scn':
                rec.update(sa='i:%d' % s['a'], sb='i:%d' % s['b'])
            if f == 'reg':
                rec.update(idx='i:%d' % s['idx'] if s['idx'] is not None else '', op=s['op'], isv=s['isv'])
        elif k == 'with':
            rec.update(ctx=s['ctx'][0], ctxv=canon(s['ctx'][1]))
            rec['body'] = self.block(s['body'], n, 'with', 1, scope)
        elif k == 'if':
            arms = []
            for i, a in enumerate(s['arms']):
                arms.append({'neg': a['neg'], 'pos': list(a.get('pos', (0, 0))), 'conds': [self.cond(c) for c in a['conds']],
                             'body': self.block(a['body'], n, 'if', i + 1, scope)})
            rec['arms'] = arms
            rec['epos'] = list(s.get('epos', (0, 0)))
            rec['els'] = 0 if s['els'] is None else self.block(s['els'], n, 'if', 0, scope)
        elif k == 'switch':
            h = s['h']
            hd = {'k': h['k'], 'pos': list(h.get('pos', (0, 0)))}
            if 'v' in h:
                hd['v'] = canon(h['v'])
            if h['k'] == 'scn':
                hd['i'] = h['i']
            if h['k'] == 'operation':
                o = h['op']
                hd.update(name=o['name'], params=[canon(a) for a in o['args']], ctx=o['ctx'][0] if o['ctx'] else '',
                          ctxv=canon(o['ctx'][1]) if o['ctx'] else '')
            rec['h'] = hd
            rec['cases'] = []
            for i, c in enumerate(s['cases']):
                hh = c['h']
                d = {'k': 'default', 'pos': [0, 0], 'kpos': list(c.get('kpos', (0, 0)))}
                if hh is not None:
                    d = {'k': hh['k'], 'v': canon(hh['v']), 'pos': list(hh.get('pos', (0, 0))),
                         'kpos': list(c.get('kpos', (0, 0)))}
                    if hh['k'] == 'op':
                        d.update(op=hh['op'], isv=hh['isv'])
                d['body'] = self.block(c['body'], n, 'case', i + 1, scope)
                rec['cases'].append(d)
        elif k == 'msgsw':
            rec.update(name=s['name'], arg=canon(s['arg']))
            cs = []
            for c in s['cases']:
                d = {'def': c['h'] is None, 'v': canon(c['h']['v']) if c['h'] else '', 's': canon(c['s']) if c.get('s') else '',
                     'pos': list(c['h'].get('pos', (0, 0)) if c['h'] else c.get('kpos', (0, 0))), 'kpos': list(c.get('kpos', (0, 0)))}
                cs.append(d)
            rec['cases'] = cs
        elif k == 'forever':
            rec['body'] = self.block(s['body'], n, 'loop', 1, scope)
        elif k == 'while':
            rec['arms'] = [{'neg': s['neg'], 'pos': rec['pos'], 'conds': [self.cond(s['cond'])]}]
            rec['body'] = self.block(s['body'], n, 'loop', 1, scope)
        elif k == 'for':
            rec['init'] = self.block([s['init']], n, 'forinit', 1, scope)
            rec['arms'] = [{'neg': False, 'pos': rec['pos'], 'conds': [self.cond(s['cond'])]}]
            rec['inc'] = self.block([s['inc']], n, 'forinc', 1, scope)
            rec['body'] = self.block(s['body'], n, 'loop', 1, scope)
        elif k == 'mcall':
            rec['name'] = s['name']
            m, tag = self.macros[s['name']]
            rec['bind'] = {'c:' + p: canon(a) for p, a in zip(m['params'], s['args'])}
            rec['file'] = tag
            rec['body'] = self.macro(s['name'])
        return n

    def out(self):
        for r in self.nodes:
            if 'lab' in r:
                r['to'] = self.labels.get(r.pop('lab'), 0)
        return {'kind': 'src', 'perf': self.perf, 'nodes': self.nodes, 'blocks': self.blocks, 'routines': self.routines,
                'table': self.table}


def flatten(f, macros=None, perf='$PERFORMANCE_PROGRESS_LIST'):
    return Flat(f, macros, perf).out()
