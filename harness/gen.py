"""Generators of ExplorerScript programs (ASTs of lang.py)."""
from .lang import OPS, ASG

VARS = ['$SCENARIO_MAIN', '$LOCAL_VAR', '$EVENT', 'VAR_A']
CONSTS = ['ACTOR_PLAYER', 'LEVEL_S01', 'FACE_HAPPY', '$CONST', 'message_x', 'ends', 'Positionx', 'notx', 'for_']
OPN = ['op_a', 'op_b', 'back_SetGround', 'message_Talk', 'Wait', 'se_Play', 'supervision_Acting', 'WaitExecuteLives']
CTXK = ['actor', 'object', 'performer']
PERF = '$PERFORMANCE_PROGRESS_LIST'
FLOWOPS = ['Destroy', 'JumpCommon']


def I(v):
    return {'k': 'int', 'v': v}


def C(v):
    return {'k': 'const', 'v': v}


def S(v):
    return {'k': 'str', 'v': v}


def op(name, *args, ctx=None):
    return {'k': 'op', 'name': name, 'ctx': ctx, 'args': list(args)}


def st(k, **kw):
    return dict(k=k, **kw)


class Gen:
    def __init__(self, rng, **o):
        self.r = rng
        self.o = dict(depth=3, width=4, labels=True, macros=False, marks=True, strings='simple', flowops=True, ctx=True,
                      loops=True, switches=True, msg=True, ifs=True, asg=True, deadcode=True, opswitch=True, calls=True,
                      header_ctx=True, bigcases=False, jumps=True, returns=True, terminate=False, oddops=True, big=True, mixcoro=True)
        self.o.update(o)
        self.n = 0
        self.macro_params = []
        self.scope_labels = None

    def p(self, x):
        return self.r.random() < x

    # ---- values
    def intlike(self, decimals=True):
        r = self.r.random()
        if self.macro_params and r < 0.35:
            return C(self.r.choice(self.macro_params))
        if r < 0.6:
            return I(self.r.choice([0, 1, 2, 3, 5, 10, 255, 300, -1, -7, 32767]))
        if r < 0.93 or not decimals:
            return C(self.r.choice(CONSTS))
        return {'k': 'dec', 'v': self.r.choice(['0.5', '1.25', '-0.5', '-3.75', '12.0'])}

    def var(self):
        if self.macro_params and self.p(0.25):
            return C(self.r.choice(self.macro_params))
        return C(self.r.choice(VARS)) if self.p(0.85) else I(self.r.randint(0, 40))

    def string(self):
        if self.o['strings'] == 'simple':
            v = self.r.choice(['Hello', 'a b', '', 'What?', "it's", 'say "hi"', 'x\ny', '[K]ok'])
        else:
            v = ''.join(self.r.choice('abc \n\'"{}@;/*$~=<>') for _ in range(self.r.randint(0, 9)))
        return v

    def arg(self):
        r = self.r.random()
        if self.macro_params and r < 0.4:
            return C(self.r.choice(self.macro_params))
        if r < 0.72:
            return self.intlike()
        if r < 0.84:
            return S(self.string())
        if r < 0.92 or not self.o['marks']:
            ls = ['english', 'german', 'french'][:self.r.randint(1, 3)]
            return {'k': 'lang', 'v': [(l, self.string()) for l in ls]}
        return self.mark()

    def mark(self):
        self.n += 1
        return {'k': 'pos', 'name': 'm%d' % self.r.randint(0, 9), 'x': self.r.randint(0, 60), 'xh': self.p(0.3),
                'y': self.r.randint(0, 60), 'yh': self.p(0.3)}

    def ctxh(self):
        if self.macro_params and self.p(0.3):
            return (self.r.choice(CTXK), C(self.r.choice(self.macro_params)))
        return (self.r.choice(CTXK), C(self.r.choice(CONSTS)) if self.p(0.6) else I(self.r.randint(0, 9)))

    def opstmt(self, noctx=False):
        self.n += 1
        return op('%s' % self.r.choice(OPN), I(self.n), *[self.arg() for _ in range(self.r.choice([0, 0, 1, 1, 2, 3]))],
                  ctx=self.ctxh() if self.o['ctx'] and not noctx and self.p(0.12) else None)

    def asg(self):
        k = self.r.choice(['reg', 'reg', 'reg', 'bit', 'val', 'clear', 'init', 'resetdr', 'resetscn', 'advlog', 'dmode', 'scn', 'perf'])
        a = {'k': 'asg'}
        if k == 'reg':
            return dict(a, f='reg', var=self.var(), idx=None, op=self.r.choice(ASG), isv=False, val=self.intlike(False))
        if k == 'val':
            return dict(a, f='reg', var=self.var(), idx=None, op=self.r.choice(ASG), isv=True, val=self.var())
        if k == 'bit':
            return dict(a, f='reg', var=self.var(), idx=self.r.randint(0, 31), op='=', isv=False, val=I(self.r.randint(0, 1)))
        if k == 'perf':
            return dict(a, f='reg', var=C(PERF), idx=self.r.randint(0, 31), op='=', isv=False, val=I(self.r.randint(0, 1)))
        if k in ('clear', 'init', 'resetscn'):
            return dict(a, f=k, var=self.var())
        if k == 'advlog':
            return dict(a, f=k, val=self.intlike(False))
        if k == 'dmode':
            return dict(a, f=k, var=self.intlike(False),
                        val=I(self.r.randint(0, 3)) if self.p(0.5) else C('DMODE_OPEN'))
        if k == 'scn':
            return dict(a, f=k, var=self.var(), a=self.r.randint(0, 60), b=self.r.randint(0, 9))
        return dict(a, f=k)

    # ---- conditions
    def cond(self):
        k = self.r.choice(['op', 'op', 'op', 'opv', 'eq', 'bit', 'perf', 'nperf', 'neg', 'neg', 'scn'] +
                          (['oper'] if self.o['opswitch'] else []))
        if k == 'eq':
            return {'k': 'op', 'var': self.var(), 'op': '==', 'isv': False, 'val': self.intlike(False)}
        if k in ('op', 'opv'):
            return {'k': 'op', 'var': self.var(), 'op': self.r.choice(OPS), 'isv': k == 'opv',
                    'val': self.var() if k == 'opv' else self.intlike(False)}
        if k == 'bit':
            return {'k': 'bit', 'neg': False, 'var': C(self.r.choice(VARS)), 'idx': self.r.randint(0, 31)}
        if k in ('perf', 'nperf'):
            return {'k': 'bit', 'neg': k == 'nperf', 'var': C(PERF), 'idx': self.r.randint(0, 31)}
        if k == 'neg':
            return {'k': 'neg', 'neg': self.p(0.5), 'w': self.r.choice(['debug', 'edit', 'variation'])}
        if k == 'scn':
            return {'k': 'scn', 'var': self.var(), 'op': self.r.choice(['==', '<', '>', '<=', '>=']),
                    'a': self.r.randint(0, 60), 'b': self.r.randint(0, 9)}
        o = self.r.choice([
            op('BranchSum', self.var(), I(self.r.randint(0, 10)), I(3)), op('BranchExecuteSub', I(self.r.randint(0, 9))),
            op('BranchVariation', I(self.r.randint(0, 1)))])
        if self.o['oddops'] and self.p(0.3):
            # conditions as plain operations, with more or less parameters than documented
            o = op(self.r.choice(['BranchSum', 'BranchExecuteSub', 'BranchVariation', 'BranchDebug', 'Branch', 'BranchScenarioNow', 'BranchEdit',
                                  'BranchPerformance', 'BranchBit', 'BranchValue', 'BranchVariable', 'BranchScenarioAfter']),
                   *[self.arg() for _ in range(self.r.choice([0, 1, 2, 3, 4]))])
        return {'k': 'operation', 'op': o}

    def many(self, ks, big):
        return self.r.choice(big) if self.o['big'] and self.p(0.05) else self.r.choice(ks)

    def arm(self, d, ctx):
        return {'neg': self.p(0.3), 'conds': [self.cond() for _ in range(self.many([1, 1, 1, 2, 3], [4, 5, 6, 9]))],
                'body': self.body(d, ctx)}

    # ---- statements
    def body(self, d, ctx, lo=0):
        n = self.r.choice([0, 1, 1, 1, 2, 2, 3, self.o['width']])
        n = max(n, lo)
        out = []
        for i in range(n):
            out.extend(self.stmt(d, ctx, i == n - 1))
        return out

    def jumps(self, ctx):
        c = []
        if self.o['jumps']:
            c += ['jump'] * 2
        if ctx['loop']:
            c += ['continue', 'break_loop'] * 2
        if ctx['case']:
            c += ['break'] * 3
        if self.o['returns']:
            c += ['return', 'end', 'hold']
        if not c:
            return [self.opstmt()]
        k = self.r.choice(c)
        if k == 'jump':
            return [self.mkjump('jump')]
        return [st(k)]

    def mkjump(self, k):
        s = st(k, name=None)
        self.scope_labels['uses'].append(s)
        return s

    def mklabel(self):
        n = '%s%d' % (self.r.choice(['l', 'label_', 'L_', 'x']), len(self.scope_labels['defs']))
        n = self.scope_labels['prefix'] + n
        self.scope_labels['defs'].append(n)
        return st('label', name=n)

    def stmt(self, d, ctx, last):
        r = self.r.random()
        o = self.o
        out = []
        if o['labels'] and self.p(0.10):
            out.append(self.mklabel())
            if self.p(0.15):
                out.append(self.mklabel())
        if r < 0.34:
            out.append(self.opstmt())
        elif r < 0.44 and o['asg']:
            out.append(self.asg())
        elif r < 0.48 and o['ctx']:
            b = self.r.random()
            inner = self.opstmt(noctx=True) if b < 0.6 else self.asg() if b < 0.8 else \
                st(self.r.choice(['return', 'end', 'hold'])) if not self.macro_scope() else self.opstmt(noctx=True)
            out.append(st('with', ctx=self.ctxh(), body=[inner]))
        elif r < 0.50 and o['calls'] and o['jumps'] and o['labels']:
            out.append(self.mkjump('call'))
        elif r < 0.52 and o['msg']:
            out.append(self.msgsw())
        elif r < 0.60 and (last or o['deadcode']) and (last or self.p(0.3)):
            out.extend(self.jumps(ctx))
        elif r < 0.62 and o['flowops'] and last:
            out.append(op(self.r.choice(FLOWOPS), I(1)))
        elif d > 0 and r < 0.75 and o['ifs']:
            out.append(self.ifs(d - 1, ctx))
        elif d > 0 and r < 0.87 and o['switches']:
            out.append(self.switch(d - 1, ctx))
        elif d > 0 and r < 0.97 and o['loops']:
            out.append(self.loop(d - 1, ctx))
        elif o['macros'] and self.callable_macros and r < 0.99:
            out.append(self.mcall())
        else:
            out.append(self.opstmt())
        if o['macros'] and self.callable_macros and self.p(0.12):
            out.append(self.mcall())
        return out

    callable_macros = ()

    def macro_scope(self):
        return bool(self.scope_labels and self.scope_labels.get('macro'))

    def mcall(self):
        m = self.r.choice(self.callable_macros)
        self.n += 1
        return st('mcall', name=m['name'], args=[self.marg() for _ in m['params']])

    def marg(self):
        return self.arg() if self.p(0.3) else self.intlike(False)

    def ifs(self, d, ctx):
        arms = [self.arm(d, ctx) for _ in range(self.many([1, 1, 1, 2, 3], [4, 5, 7, 9]))]
        return st('if', arms=arms, els=self.body(d, ctx) if self.p(0.45) else None)

    def msgsw(self):
        self.n += 1
        n = self.many([0, 1, 2, 3, 4], [6, 9])
        cs = [{'h': {'k': 'val', 'v': self.intlike(False)}, 'body': [], 's': self.msgstr()} for _ in range(n)]
        if self.p(0.6):
            cs.insert(len(cs) if self.p(0.8) else self.r.randint(0, len(cs)), {'h': None, 'body': [], 's': self.msgstr()})
        return st('msgsw', name=self.r.choice(['message_SwitchTalk', 'message_SwitchMonologue']), arg=self.var(), cases=cs)

    def msgstr(self):
        return S(self.string()) if self.p(0.5) else {'k': 'lang', 'v': [('english', self.string()), ('german', self.string())]}

    def switch_header(self):
        k = self.r.choice(['var', 'var', 'var', 'scn', 'random', 'dmode', 'sector', 'menu'] + (['oper'] if self.o['opswitch'] else []))
        if k == 'var':
            return {'k': 'var', 'v': self.var()}
        if k == 'scn':
            return {'k': 'scn', 'v': self.var(), 'i': self.r.randint(0, 1)}
        if k in ('random', 'dmode'):
            return {'k': k, 'v': self.intlike(False)}
        if k == 'sector':
            return {'k': 'sector'}
        if k == 'menu':
            return {'k': 'operation', 'op': op(self.r.choice(['message_SwitchMenu', 'message_SwitchMenu2']), I(self.n), self.intlike())}
        n = self.r.choice(['ProcessSpecial', 'message_Menu', 'main_EnterAdventure', 'main_EnterRescueUser', 'main_EnterTraining', 'main_EnterTraining2'])
        return {'k': 'operation', 'op': op(n, I(self.n), self.intlike(),
                                           ctx=self.ctxh() if self.o['header_ctx'] and self.p(0.05) else None)}

    def case_header(self, h):
        menu = h['k'] == 'operation' and h['op']['name'].startswith('message_SwitchMenu')
        r = self.r.random()
        if menu:
            if r < 0.6:
                return {'k': 'menu', 'v': S(self.string()) if self.p(0.5) else {'k': 'lang', 'v': [('english', self.string())]}}
            return {'k': 'menu2', 'v': self.intlike(False)}
        if r < 0.65:
            return {'k': 'val', 'v': self.intlike(False)}
        return {'k': 'op', 'op': self.r.choice(OPS), 'isv': r > 0.9, 'v': self.var() if r > 0.9 else self.intlike(False)}

    def switch(self, d, ctx):
        self.n += 1
        h = self.switch_header()
        cctx = dict(ctx, case=True)
        cs = []
        for _ in range(self.many([0, 1, 2, 2, 3, 4], [5, 6, 7, 8, 10])):
            b = []
            if self.p(0.8):
                b = self.body(d, cctx, 1)
                if self.p(0.6):
                    b.append(st('break'))
            cs.append({'h': self.case_header(h), 'body': b})
        if self.p(0.5) or (cs and self.p(0.1)):
            b = self.body(d, cctx, 0)
            cs.insert(len(cs) if self.p(0.7) else self.r.randint(0, len(cs)), {'h': None, 'body': b})
        while cs and not cs[-1]['body']:
            cs[-1]['body'] = self.body(d, cctx, 1) if self.p(0.7) else [st('break')]
        return st('switch', h=h, cases=cs)

    def loop(self, d, ctx):
        lctx = dict(ctx, loop=True)
        k = self.r.choice(['forever', 'while', 'while', 'for'])
        b = self.body(d, lctx, 1 if k == 'forever' else 0)
        if k == 'forever':
            return st('forever', body=b)
        c = self.cond()
        if k == 'while':
            return st('while', neg=self.p(0.3), cond=c, body=b)
        return st('for', init=self.asg() if self.p(0.7) else self.opstmt(), cond=c,
                  inc=self.asg() if self.p(0.7) else self.opstmt(), body=b)

    def resolve_labels(self, sc, bodies):
        """give every use a label of the scope; create one if there is none"""
        if sc['uses'] and not sc['defs']:
            b = self.r.choice(bodies)
            n = sc['prefix'] + 'l0'
            sc['defs'].append(n)
            b.insert(self.r.randint(0, len(b)), st('label', name=n))
        for u in sc['uses']:
            u['name'] = self.r.choice(sc['defs'])

    def routine_body(self):
        b = []
        for i in range(self.r.randint(1, self.o['width'])):
            b.extend(self.stmt(self.o['depth'], {'loop': False, 'case': False}, False))
        if self.p(0.6):
            b.append(st(self.r.choice(['return', 'end', 'hold'])))
        elif self.p(0.15) and self.o['labels']:
            b.append(self.mklabel())
        if self.o['terminate'] and (b[-1]['k'] not in ('return', 'end', 'hold')):
            b.append(st(self.r.choice(['return', 'end', 'hold'])))
        if all(s['k'] == 'label' for s in b):
            b.insert(0, self.opstmt())
        return b

    def target(self):
        if self.p(0.5):
            return None
        return (self.r.choice(CTXK), C(self.r.choice(CONSTS)) if self.p(0.6) else I(self.r.randint(0, 40)))

    def program(self, nr=None, coro=None):
        nr = nr or self.r.choice([1, 1, 2, 3])
        mix = coro is None and self.o['mixcoro'] and self.p(0.1)
        coro = self.p(0.12) if coro is None else coro
        f = {'imports': [], 'macros': [], 'routines': []}
        sc = self.scope_labels = {'prefix': '', 'defs': [], 'uses': []}
        bodies = []
        for i in range(nr):
            al = i > 0 and self.p(0.08)
            b = [] if al else self.routine_body()
            if coro or (i > 0 and mix and self.p(0.5)):
                f['routines'].append({'k': 'coro', 'name': 'CORO_%d' % i, 'alias': al, 'body': b})
            else:
                f['routines'].append({'k': 'def', 'id': i, 'target': self.target(), 'alias': al, 'body': b})
            if not al:
                bodies.append(b)
        self.resolve_labels(sc, bodies)
        return f

    # ---- macros
    def macro(self, name, callable_):
        """a macro that may call the given ones"""
        ps = ['$%s' % x for x in self.r.sample(['a', 'b', 'who', 'x1', 'CONSTX', 'SCENARIO_MAIN'], self.r.choice([0, 1, 1, 2, 3]))]
        self.macro_params = ps
        self.callable_macros = list(callable_)
        old = self.scope_labels
        self.scope_labels = sc = {'prefix': self.r.choice(['', 'm']), 'defs': [], 'uses': [], 'macro': True}
        b = []
        if self.p(0.04):
            b.append(self.mklabel())
        else:
            for _ in range(self.r.randint(1, self.o['width'])):
                b.extend(self.stmt(self.o['depth'], {'loop': False, 'case': False}, False))
            if self.p(0.2):
                b.append(st('return'))
        self.resolve_labels(sc, [b])
        self.macro_params, self.callable_macros, self.scope_labels = [], (), old
        return {'k': 'macro', 'name': name, 'params': ps, 'alias': False, 'body': b}
