"""Projects as the event sequences StaticRules.tla reads, and texts of such sequences."""
import random
from . import gen

PERF = gen.PERF


def cond_bad(c):
    return c['k'] == 'bit' and c['neg'] and not (c['var']['k'] == 'const' and c['var']['v'] == PERF)


def has_param(c, params):
    return c['k'] == 'bit' and c['var']['k'] == 'const' and c['var']['v'] in params


class Events:
    def __init__(self):
        self.e = []
        self.params = ()

    def add(self, k, n='', a=0):
        self.e.append([k, n, a])

    def conds(self, cs):
        # (a macro variable may stand for the progress list: not judged)
        return 'notbit' if any(cond_bad(c) and not has_param(c, self.params) for c in cs) else ''

    def body(self, ss):
        for s in ss:
            self.stmt(s)

    def simple(self, s, head=False):
        k = s['k']
        if k in ('label', 'jump', 'call'):
            self.add(k, s['name'])
        elif k in ('return', 'end', 'hold'):
            self.add('ret')
        elif k in ('break', 'continue', 'break_loop') and not head:
            self.add({'break': 'break', 'continue': 'cont', 'break_loop': 'brkl'}[k])
        else:
            self.add('op')

    def stmt(self, s):
        k = s['k']
        if k == 'mcall':
            self.add('mcall', s['name'], len(s['args']))
        elif k == 'with':
            self.add('with')
            self.simple(s['body'][0])
            self.add('end')
        elif k == 'if':
            for i, a in enumerate(s['arms']):
                self.add('elif' if i else 'if', self.conds(a['conds']))
                self.body(a['body'])
                self.add('end')
            if s['els'] is not None:
                self.add('else')
                self.body(s['els'])
                self.add('end')
        elif k in ('switch', 'msgsw'):
            self.add('switch' if k == 'switch' else 'msw')
            for c in s['cases']:
                self.add('default' if c['h'] is None else 'case')
                if c.get('s') is not None:
                    self.add('str')
                else:
                    self.body(c['body'])
                self.add('end')
            self.add('end')
        elif k in ('forever', 'while', 'for'):
            if k == 'for':
                self.simple(s['init'], True)
                self.simple(s['inc'], True)
            self.add('loop', '' if k == 'forever' else self.conds([s['cond']]))
            self.body(s['body'])
            self.add('end')
        else:
            self.simple(s)

    def file(self, name, f, imports):
        self.add('file', name)
        for t in imports:
            self.add('import', t)
        for m in f['macros']:
            self.add('macro', m['name'], len(m['params']))
            self.params = tuple(m['params'])
            self.body(m['body'])
            self.params = ()
            self.add('end')
        for r in f['routines']:
            self.add('routine')
            if not r['alias']:
                self.body(r['body'])
            self.add('end')


def of_project(pr):
    """pr['imports'][p] may name targets that are no file of the project"""
    e = Events()
    for p, f in pr['files'].items():
        e.file('main' if p == pr['main'] else p, f, ['main' if q == pr['main'] else q for _, q in pr['imports'][p]])
    return e.e


def of_file(f):
    """a single file whose imports are all missing"""
    e = Events()
    e.file('main', f, ['?%d' % i for i, _ in enumerate(f['imports'])])
    return e.e


CONDS = ['$v == 3', 'debug', 'not edit', '$v[2]', 'scn($s) >= [1, 2]', 'VAR < value($w)', 'BranchSum($x, 2, 3)',
         'not %s[2]' % PERF, '$v &<< 1', '7 != 2']
OPS = ['a(1)', 'op("s", 3)', '$v = 3', '$v[2] = 1', 'clear $x', 'reset dungeon_result', 'b<actor 2>(VAR)', 'adventure_log = 4',
       'Lock(5)', "message_Talk({english=\"x\"})", 'p(Position<\'m\', 1, 2.5>)']
HEADS = ['$v', 'random(4)', 'scn($s)[0]', 'dungeon_mode(2)', 'sector()', 'message_SwitchMenu(1, 2)', 'VAR']
CASES = ['%d', 'K%d', '> %d', '== value($x%d)', 'menu("m%d")', 'menu2(%d)']


class Text:
    """the text of every file of an event sequence; what the events leave open is chosen at random"""

    def __init__(self, evs, rng, imports=lambda f, n: './%s.exps' % n):
        self.r = rng
        self.files = {}
        self.out = None
        self.n = 0
        self.imports = imports
        stack = []
        for i, (k, n, a) in enumerate(evs):
            nxt = evs[i + 1][0] if i + 1 < len(evs) else ''
            if k == 'file':
                self.name, self.rid = n, 0
                self.out = self.files.setdefault(n, [])
            elif k == 'import':
                self.w('import "%s";' % self.imports(self.name, n))
            elif k == 'end':
                o = stack.pop()
                if o not in ('case', 'default'):
                    self.w('}')
            elif k == 'str':
                self.w(rng.choice(['"text"', "{english='a', french='b'}"]))
            else:
                self.w(self.one(k, n, a, 'msw' in stack))
                if k in ('routine', 'macro', 'if', 'elif', 'else', 'loop', 'switch', 'msw', 'case', 'default', 'with'):
                    stack.append(k)

    def w(self, s):
        self.out.append(s)

    def conds(self, n, many=True):
        cs = [self.r.choice(CONDS) for _ in range(self.r.choice([1, 1, 2, 3]) if many else 1)]
        if n == 'notbit':
            cs[self.r.randrange(len(cs))] = self.r.choice(['not $v[3]', 'not VAR[0]', 'not 5[1]'])
        return '%s(%s)' % (self.r.choice(['', '', 'not ']), ' || '.join(cs))

    def one(self, k, n, a, msg):
        r = self.r
        self.n += 1
        if k == 'routine':
            self.rid += 1
            return 'def %d%s {' % (self.rid - 1, r.choice(['', ' for actor 3', ' for object(K)'])) if self.rid > 1 or r.random() < 0.9 else 'def 0 {'
        if k == 'macro':
            return 'macro %s(%s) {' % (n, ', '.join('$p%d' % i for i in range(a)))
        if k in ('if', 'elif'):
            return '%s %s {' % ('if' if k == 'if' else 'elseif', self.conds(n))
        if k == 'else':
            return 'else {'
        if k == 'loop':
            w = r.choice(['forever', 'while', 'for']) if n == '' else r.choice(['while', 'for'])
            if w == 'forever':
                return 'forever {'
            c = self.conds(n, False)
            if w == 'while':
                return 'while %s {' % c
            if c.startswith('not '):
                c = c[4:]
            return 'for ($i = 0; %s; $i += 1;) {' % c[1:-1]
        if k == 'switch':
            return 'switch (%s) {' % r.choice(HEADS)
        if k == 'msw':
            return '%s(%s) {' % (r.choice(['message_SwitchTalk', 'message_SwitchMonologue']), r.choice(['$v', '3']))
        if k == 'case':
            return 'case %s:' % ((r.choice(CASES[:2]) if msg else r.choice(CASES)) % self.n)
        if k == 'default':
            return 'default:'
        if k == 'with':
            return 'with (%s %s) {' % (r.choice(['actor', 'object', 'performer']), r.choice(['0', 'K']))
        if k == 'label':
            return r.choice(['@%s;', '§%s;']) % n
        if k in ('jump', 'call'):
            return '%s @%s;' % (k, n)
        if k == 'mcall':
            return '~%s(%s);' % (n, ', '.join(r.choice(['1', 'K', '"s"', '$q']) for _ in range(max(0, a))))
        if k == 'ret':
            return r.choice(['return;', 'end;', 'hold;'])
        if k == 'op':
            return r.choice(OPS) + ';'
        return {'break': 'break;', 'cont': 'continue;', 'brkl': 'break_loop;'}[k]
