"""ExplorerScript surface language: AST, renderer (AST -> tokens -> text), own
lexer and recursive descent parser (text -> AST with positions).

Nothing in here uses the code under test.  AST nodes are plain dicts; every
statement/header dict may carry 'pos': (line, col) (zero based) and 'end'.
"""
import re

KEYWORDS = {
    'coro', 'def', 'for_actor', 'for_object', 'for_performer', 'alias', 'for', 'previous', 'Position',
    'FALSE', 'TRUE', 'not', 'jump', 'call', 'import', 'macro', 'if', 'elseif', 'else', 'forever', 'with',
    'switch', 'return', 'end', 'hold', 'continue', 'break', 'break_loop', 'value', 'debug', 'edit',
    'variation', 'random', 'sector', 'dungeon_mode', 'menu2', 'menu', 'case', 'default', 'clear', 'reset',
    'init', 'scn', 'dungeon_result', 'adventure_log', 'message_SwitchTalk', 'message_SwitchMonologue', 'while'}

OPS = ['FALSE', 'TRUE', '==', '>', '<', '>=', '<=', '!=', '&', '^', '&<<']
ASG = ['=', '-=', '+=', '*=', '/=']


class SyntaxErr(Exception):
    pass


# ------------------------------------------------------------------ lexer
TOKEN_RES = [
    ('ML', re.compile(r"'''.*?'''|\"\"\".*?\"\"\"", re.S)),
    ('STR', re.compile(r"'(?:\\.|[^\\\r\n\f'])*'|\"(?:\\.|[^\\\r\n\f\"])*\"", re.S)),
    ('ID', re.compile(r'[a-zA-Z_][0-9a-zA-Z_]*')),
    ('VAR', re.compile(r'\$[a-zA-Z_][0-9a-zA-Z_]*')),
    ('MAC', re.compile(r'~[a-zA-Z_][0-9a-zA-Z_]*')),
    ('INT', re.compile(r'-?0[xX][0-9a-fA-F]+|-?0[oO][0-7]+|-?0[bB][01]+|-?[1-9][0-9]*|-?0+')),
    ('DEC', re.compile(r'-?[0-9]*\.[0-9]+')),
    ('SKIP', re.compile(r'//[^\r\n]*|/\*.*?(?:\*/|\Z)|[ \t\n\r]+|\\[ \t\n\r]*(?:\r?\n|\r|\f)', re.S)),
    ('P', re.compile(r'&<<|\|\||==|<=|>=|!=|-=|\+=|\*=|/=|[(),:=+@§{}<>&^;\[\]]')),
]


class Tok:
    __slots__ = ('t', 's', 'line', 'col', 'i')

    def __init__(self, t, s, line, col, i):
        self.t, self.s, self.line, self.col, self.i = t, s, line, col, i

    def __repr__(self):
        return f'{self.t}:{self.s!r}@{self.line}:{self.col}'


def lex(text):
    toks = []
    i, line, bol = 0, 0, 0
    n = len(text)
    while i < n:
        best, bt = -1, None
        for name, rx in TOKEN_RES:
            m = rx.match(text, i)
            if m and m.end() > best:
                best, bt = m.end(), name
        if bt is None or best == i:
            raise SyntaxErr(f'unknown char {text[i]!r} at {line}:{i - bol}')
        s = text[i:best]
        if bt != 'SKIP':
            if bt == 'ID' and s in KEYWORDS:
                toks.append(Tok('K', s, line, i - bol, i))
            else:
                toks.append(Tok(bt, s, line, i - bol, i))
        nl = s.count('\n')
        if nl:
            line += nl
            bol = i + s.rfind('\n') + 1
        i = best
    toks.append(Tok('EOF', '', line, i - bol, i))
    return toks


# --------------------------------------------------------------- literals
def int_value(s):
    neg = s.startswith('-')
    b = s[1:] if neg else s
    if b[:2] in ('0x', '0X'):
        v = int(b[2:], 16)
    elif b[:2] in ('0o', '0O'):
        v = int(b[2:], 8)
    elif b[:2] in ('0b', '0B'):
        v = int(b[2:], 2)
    else:
        v = int(b, 10)
    return -v if neg else v


def dec_canon(s):
    """canonical numeric form of a decimal spelling (sign, no redundant zeros)"""
    neg = s.startswith('-')
    b = s[1:] if neg else s
    w, _, f = b.partition('.')
    w = w.lstrip('0') or '0'
    f = f.rstrip('0') or '0'
    z = w == '0' and f == '0'
    return ('-' if neg and not z else '') + w + '.' + f


def str_value(tok):
    s = tok.s
    if tok.t == 'STR':
        return s[1:-1].replace('\\"', '"').replace("\\'", "'").replace('\\n', '\n')
    return ml_value(s[3:-3])


def ml_value(body):
    lines = re.split(r'\r?\n', body)
    if len(lines) == 1:
        return lines[0]
    first, rest = lines[0], lines[1:]
    if rest[-1].strip(' ') == '':
        rest = rest[:-1]
    if rest:
        k = min(len(x) - len(x.lstrip(' ')) for x in rest)
        rest = [x[k:] for x in rest]
    if first == '':
        return '\n'.join(rest)
    return '\n'.join([first] + rest)


def pos_arg(s):
    """(tile, half?) of a position marker coordinate spelling; None if it is not n or n.5"""
    if '.' not in s:
        return int_value(s), False
    neg = s.startswith('-')
    w, _, f = s.lstrip('-').partition('.')
    f = f.rstrip('0')
    if f not in ('', '5'):
        return None
    v = int(w or '0')
    return (-v if neg else v), f == '5'


# ----------------------------------------------------------------- parser
class Parser:
    def __init__(self, text, ssbs=False):
        self.toks = lex(text)
        self.p = 0
        self.text = text

    # helpers
    @property
    def t(self):
        return self.toks[self.p]

    def peek(self, k=1):
        return self.toks[min(self.p + k, len(self.toks) - 1)]

    def err(self, what):
        raise SyntaxErr(f'expected {what}, got {self.t!r}')

    def is_(self, *ss):
        return self.t.t in ('P', 'K') and self.t.s in ss

    def acc(self, *ss):
        if self.is_(*ss):
            self.p += 1
            return self.toks[self.p - 1]
        return None

    def exp(self, *ss):
        r = self.acc(*ss)
        if r is None:
            self.err(ss)
        return r

    def typ(self, *ts):
        if self.t.t in ts:
            self.p += 1
            return self.toks[self.p - 1]
        self.err(ts)

    @staticmethod
    def at(tok):
        return (tok.line, tok.col)

    # grammar
    def parse(self):
        f = {'imports': [], 'macros': [], 'routines': []}
        while self.acc('import'):
            f['imports'].append(str_value(self.typ('STR')))
            self.exp(';')
        while self.t.t != 'EOF':
            if self.is_('macro'):
                f['macros'].append(self.macrodef())
            else:
                f['routines'].append(self.funcdef())
        return f

    def macrodef(self):
        pos = self.at(self.exp('macro'))
        name = self.typ('ID').s
        self.exp('(')
        ps = []
        if self.t.t == 'VAR':
            ps.append(self.typ('VAR').s)
        while self.acc(','):
            ps.append(self.typ('VAR').s)
        self.exp(')')
        al, body = self.suite()
        return {'k': 'macro', 'name': name, 'params': ps, 'alias': al, 'body': body, 'pos': pos}

    def funcdef(self):
        pos = self.at(self.t)
        if self.acc('coro'):
            name = self.typ('ID').s
            al, body = self.suite()
            return {'k': 'coro', 'name': name, 'alias': al, 'body': body, 'pos': pos}
        self.exp('def')
        rid = int_value(self.typ('INT').s)
        tgt = None
        if self.acc('for'):
            kind = self.typ('ID').s
            par = self.acc('(')
            tgt = (kind, self.intlike())
            self.acc(')')
        elif self.is_('for_actor', 'for_object', 'for_performer'):
            kind = self.exp('for_actor', 'for_object', 'for_performer').s[4:]
            self.acc('(')
            tgt = (kind, self.intlike())
            self.acc(')')
        al, body = self.suite()
        return {'k': 'def', 'id': rid, 'target': tgt, 'alias': al, 'body': body, 'pos': pos}

    def suite(self):
        self.exp('{')
        if self.acc('alias'):
            self.exp('previous')
            self.exp(';')
            self.exp('}')
            return True, []
        body = [self.stmt()]
        while not self.is_('}'):
            body.append(self.stmt())
        self.exp('}')
        return False, body

    def stmts(self, *stop):
        out = []
        while not self.is_(*stop):
            out.append(self.stmt())
        return out

    def intlike(self):
        t = self.t
        if t.t == 'INT':
            self.p += 1
            return {'k': 'int', 'v': int_value(t.s)}
        if t.t == 'DEC':
            self.p += 1
            return {'k': 'dec', 'v': dec_canon(t.s), 'raw': t.s}
        if t.t in ('ID', 'VAR'):
            self.p += 1
            return {'k': 'const', 'v': t.s}
        self.err('integer_like')

    def string(self):
        t = self.t
        if t.t in ('STR', 'ML'):
            self.p += 1
            return {'k': 'str', 'v': str_value(t), 'pos': self.at(t)}
        if self.acc('{'):
            items = []
            while True:
                n = self.typ('ID').s
                self.exp('=')
                items.append((n, str_value(self.typ('STR', 'ML'))))
                if not self.acc(','):
                    break
                if self.is_('}'):
                    break
            self.exp('}')
            return {'k': 'lang', 'v': items, 'pos': self.at(t)}
        self.err('string')

    def arg(self):
        t = self.t
        if t.t in ('STR', 'ML') or self.is_('{'):
            return self.string()
        if self.is_('Position'):
            self.p += 1
            self.exp('<')
            name = str_value(self.typ('STR'))
            self.exp(',')
            x = self.typ('INT', 'DEC').s
            self.exp(',')
            y = self.typ('INT', 'DEC').s
            e = self.exp('>')
            px, py = pos_arg(x), pos_arg(y)
            if px is None or py is None:
                raise SyntaxErr('bad position')
            return {'k': 'pos', 'name': name, 'x': px[0], 'xh': px[1], 'y': py[0], 'yh': py[1],
                    'pos': self.at(t), 'end': self.at(e), 'span': (t.i, e.i + 1)}
        if self.is_('@', '§'):  # SsbScript jump marker
            self.p += 1
            return {'k': 'lbl', 'v': self.typ('ID').s}
        return self.intlike()

    def arglist(self, close=')'):
        out = []
        while not self.is_(close):
            out.append(self.arg())
            if not self.acc(','):
                break
        self.exp(close)
        return out

    def ctxh(self):
        return (self.typ('ID').s, self.intlike())

    def operation(self):
        t = self.typ('ID')
        ctx = None
        if self.acc('<'):
            ctx = self.ctxh()
            self.exp('>')
        self.exp('(')
        a = self.arglist()
        return {'k': 'op', 'name': t.s, 'ctx': ctx, 'args': a, 'pos': self.at(t)}

    def simple(self):
        t = self.t
        pos = self.at(t)
        if t.t == 'ID' and self.peek().s in ('(', '<') and self.peek().t == 'P':
            return self.operation()
        if self.acc('@', '§'):
            return {'k': 'label', 'name': self.typ('ID').s, 'pos': pos}
        for c in ('return', 'end', 'hold', 'continue', 'break', 'break_loop'):
            if self.acc(c):
                return {'k': c, 'pos': pos}
        if self.is_('jump', 'call'):
            self.p += 1
            self.exp('@')
            return {'k': t.s, 'name': self.typ('ID').s, 'pos': pos}
        r = self.assignment()
        r['pos'] = pos
        return r

    def valueof(self):
        if self.acc('value'):
            self.exp('(')
            v = self.intlike()
            self.exp(')')
            return True, v
        return False, self.intlike()

    def assignment(self):
        if self.acc('clear'):
            return {'k': 'asg', 'f': 'clear', 'var': self.intlike()}
        if self.acc('init'):
            return {'k': 'asg', 'f': 'init', 'var': self.intlike()}
        if self.acc('reset'):
            if self.acc('dungeon_result'):
                return {'k': 'asg', 'f': 'resetdr'}
            self.exp('scn')
            self.exp('(')
            v = self.intlike()
            self.exp(')')
            return {'k': 'asg', 'f': 'resetscn', 'var': v}
        if self.acc('adventure_log'):
            self.exp('=')
            return {'k': 'asg', 'f': 'advlog', 'val': self.intlike()}
        if self.acc('dungeon_mode'):
            self.exp('(')
            v = self.intlike()
            self.exp(')')
            self.exp('=')
            return {'k': 'asg', 'f': 'dmode', 'var': v, 'val': self.intlike()}
        var = self.intlike()
        idx = None
        if self.acc('['):
            idx = int_value(self.typ('INT').s)
            self.exp(']')
        op = self.exp(*ASG).s
        if op == '=' and idx is None and self.acc('scn'):
            self.exp('[')
            a = int_value(self.typ('INT').s)
            self.exp(',')
            b = int_value(self.typ('INT').s)
            self.exp(']')
            return {'k': 'asg', 'f': 'scn', 'var': var, 'a': a, 'b': b}
        isv, v = self.valueof()
        return {'k': 'asg', 'f': 'reg', 'var': var, 'idx': idx, 'op': op, 'isv': isv, 'val': v}

    def condop(self):
        return self.exp(*OPS).s

    def cond(self):
        t = self.t
        pos = self.at(t)
        neg = bool(self.acc('not'))
        if self.is_('debug', 'edit', 'variation'):
            w = self.t.s
            self.p += 1
            return {'k': 'neg', 'neg': neg, 'w': w, 'pos': pos}
        if not neg and self.acc('scn'):
            self.exp('(')
            v = self.intlike()
            self.exp(')')
            op = self.condop()
            self.exp('[')
            a = int_value(self.typ('INT').s)
            self.exp(',')
            b = int_value(self.typ('INT').s)
            self.exp(']')
            return {'k': 'scn', 'var': v, 'op': op, 'a': a, 'b': b, 'pos': pos}
        if not neg and t.t == 'ID' and self.peek().t == 'P' and self.peek().s == '(':
            return {'k': 'operation', 'op': self.operation(), 'pos': pos}
        v = self.intlike()
        if self.acc('['):
            i = int_value(self.typ('INT').s)
            self.exp(']')
            return {'k': 'bit', 'neg': neg, 'var': v, 'idx': i, 'pos': pos}
        if neg:
            self.err('bit')
        op = self.condop()
        isv, r = self.valueof()
        return {'k': 'op', 'var': v, 'op': op, 'isv': isv, 'val': r, 'pos': pos}

    def ifarm(self):
        neg = bool(self.acc('not'))
        self.exp('(')
        cs = [self.cond()]
        while self.acc('||'):
            cs.append(self.cond())
        self.exp(')')
        self.exp('{')
        b = self.stmts('}')
        self.exp('}')
        return {'neg': neg, 'conds': cs, 'body': b}

    def cases(self, msg):
        self.exp('{')
        cs = []
        while not self.is_('}'):
            kp = self.at(self.t)
            if self.acc('default'):
                h = None
            else:
                self.exp('case')
                hp = self.at(self.t)
                if self.acc('menu'):
                    self.exp('(')
                    h = {'k': 'menu', 'v': self.string()}
                    self.exp(')')
                elif self.acc('menu2'):
                    self.exp('(')
                    h = {'k': 'menu2', 'v': self.intlike()}
                    self.exp(')')
                elif self.is_(*OPS):
                    op = self.condop()
                    isv, v = self.valueof()
                    h = {'k': 'op', 'op': op, 'isv': isv, 'v': v}
                else:
                    h = {'k': 'val', 'v': self.intlike()}
                h['pos'] = hp
                h['kpos'] = kp
            self.exp(':')
            c = {'h': h, 'kpos': kp, 'body': []}
            if self.t.t in ('STR', 'ML') or self.is_('{'):
                c['s'] = self.string()
                if not msg:
                    raise SyntaxErr('string in switch')
            else:
                c['body'] = self.stmts('case', 'default', '}')
            cs.append(c)
        self.exp('}')
        return cs

    def stmt(self):
        t = self.t
        pos = self.at(t)
        if t.t == 'MAC':
            self.p += 1
            self.exp('(')
            a = self.arglist()
            self.exp(';')
            return {'k': 'mcall', 'name': t.s[1:], 'args': a, 'pos': pos}
        if self.acc('with'):
            self.exp('(')
            c = self.ctxh()
            self.exp(')')
            self.exp('{')
            s = self.simple()
            self.exp(';')
            self.exp('}')
            return {'k': 'with', 'ctx': c, 'body': [s], 'pos': pos}
        if self.acc('if'):
            arms = [self.ifarm()]
            arms[0]['pos'] = pos
            els = None
            ap = self.at(self.t)
            while self.acc('elseif'):
                arms.append(self.ifarm())
                arms[-1]['pos'] = ap
                ap = self.at(self.t)
            if self.acc('else'):
                self.exp('{')
                els = self.stmts('}')
                self.exp('}')
            return {'k': 'if', 'arms': arms, 'els': els, 'pos': pos, 'epos': ap}
        if self.acc('switch'):
            self.exp('(')
            hp = self.at(self.t)
            if self.acc('scn'):
                self.exp('(')
                v = self.intlike()
                self.exp(')')
                self.exp('[')
                i = int_value(self.typ('INT').s)
                self.exp(']')
                h = {'k': 'scn', 'v': v, 'i': i}
            elif self.acc('random'):
                self.exp('(')
                h = {'k': 'random', 'v': self.intlike()}
                self.exp(')')
            elif self.acc('dungeon_mode'):
                self.exp('(')
                h = {'k': 'dmode', 'v': self.intlike()}
                self.exp(')')
            elif self.acc('sector'):
                self.exp('(')
                self.exp(')')
                h = {'k': 'sector'}
            elif t.t == 'ID' or (self.t.t == 'ID' and self.peek().t == 'P' and self.peek().s in '(<'):
                h = {'k': 'operation', 'op': self.operation()}
            else:
                h = {'k': 'var', 'v': self.intlike()}
            h['pos'] = hp
            self.exp(')')
            return {'k': 'switch', 'h': h, 'cases': self.cases(False), 'pos': pos}
        if self.is_('message_SwitchTalk', 'message_SwitchMonologue'):
            self.p += 1
            self.exp('(')
            a = self.intlike()
            self.exp(')')
            return {'k': 'msgsw', 'name': t.s, 'arg': a, 'cases': self.cases(True), 'pos': pos}
        if self.acc('forever'):
            self.exp('{')
            b = self.stmts('}')
            self.exp('}')
            return {'k': 'forever', 'body': b, 'pos': pos}
        if self.acc('while'):
            neg = bool(self.acc('not'))
            self.exp('(')
            c = self.cond()
            self.exp(')')
            self.exp('{')
            b = self.stmts('}')
            self.exp('}')
            return {'k': 'while', 'neg': neg, 'cond': c, 'body': b, 'pos': pos}
        if self.acc('for'):
            self.exp('(')
            i = self.simple()
            self.exp(';')
            c = self.cond()
            self.exp(';')
            s = self.simple()
            self.exp(';')
            self.exp(')')
            self.exp('{')
            b = self.stmts('}')
            self.exp('}')
            return {'k': 'for', 'init': i, 'cond': c, 'inc': s, 'body': b, 'pos': pos}
        s = self.simple()
        self.exp(';')
        return s


def parse(text):
    return Parser(text).parse()


# --------------------------------------------------------------- renderer
class Sp:
    """Spelling policy: turns literal values into literal text.  Subclass to vary."""

    def int(self, v):
        return str(v)

    def dec(self, v):
        return v

    def str(self, v, single_only=False):
        return quote(v)

    def at(self):
        return '@'

    def trailing_comma(self):
        return False

    def legacy_target(self):
        return False


def quote(v, q='"'):
    return q + v.replace(q, '\\' + q).replace('\n', '\\n') + q


class T(str):
    """token text with a mark list: node ids that begin at this token"""
    __slots__ = ('b', 'e')


class Renderer:
    """AST -> token list.  Each token is [text, begin-marks, end-marks]; marks are
    (node, key) pairs: when laid out, node[key] = (line, col) of the token."""

    def __init__(self, sp=None):
        self.sp = sp or Sp()
        self.o = []
        self.pend = []

    def mark(self, node, key='pos'):
        self.pend.append((node, key))

    def w(self, *ts):
        for t in ts:
            self.o.append([t, self.pend, []])
            self.pend = []

    def endmark(self, node, key='end'):
        self.o[-1][2].append((node, key))

    def file(self, f):
        for i in f['imports']:
            self.w('import', self.sp.str(i, True), ';')
        items = f.get('order')
        if items is None:
            items = [('m', i) for i in range(len(f['macros']))] + [('r', i) for i in range(len(f['routines']))]
        for kk, i in items:
            if kk == 'm':
                self.macro(f['macros'][i])
            else:
                self.routine(f['routines'][i])
        return self.o

    def macro(self, m):
        self.mark(m)
        self.w('macro', m['name'], '(')
        for i, p in enumerate(m['params']):
            if i:
                self.w(',')
            self.w(p)
        self.w(')')
        self.suite(m)

    def routine(self, r):
        self.mark(r)
        if r['k'] == 'coro':
            self.w('coro', r['name'])
        else:
            self.w('def', self.sp.int(r['id']))
            if r['target']:
                k, a = r['target']
                if self.sp.legacy_target():
                    self.w('for_' + k, '(')
                    self.arg(a)
                    self.w(')')
                else:
                    self.w('for', k)
                    self.arg(a)
        self.suite(r)

    def suite(self, r):
        self.w('{')
        if r['alias']:
            self.w('alias', 'previous', ';')
        else:
            self.body(r['body'])
        self.w('}')

    def body(self, ss):
        for s in ss:
            self.stmt(s)

    def arg(self, a, single_only=False):
        k = a['k']
        if k == 'int':
            self.w(self.sp.int(a['v']))
        elif k == 'dec':
            self.w(self.sp.dec(a.get('raw', a['v'])))
        elif k == 'const':
            self.w(a['v'])
        elif k == 'str':
            self.mark(a)
            self.w(self.sp.str(a['v'], single_only))
        elif k == 'lang':
            self.mark(a)
            self.w('{')
            n = len(a['v'])
            for i, (l, s) in enumerate(a['v']):
                self.w(l, '=', self.sp.str(s))
                if i < n - 1 or self.sp.trailing_comma():
                    self.w(',')
            self.w('}')
        elif k == 'pos':
            self.mark(a)
            self.w('Position', '<', self.sp.str(a['name'], True), ',', self.coord(a['x'], a['xh'], a.get('xr')), ',',
                   self.coord(a['y'], a['yh'], a.get('yr')), '>')
            self.endmark(a)
        elif k == 'lbl':
            self.w('@', a['v'])
        else:
            raise ValueError(k)

    def coord(self, v, h, raw):
        if raw is not None:
            return raw
        if h:
            return self.sp.dec('%d.5' % v)
        return self.sp.int(v)

    def args(self, a):
        self.w('(')
        for i, x in enumerate(a):
            self.arg(x)
            if i < len(a) - 1 or self.sp.trailing_comma():
                self.w(',')
        self.w(')')

    def ctx(self, c):
        self.w(c[0])
        self.arg(c[1])

    def op(self, s):
        self.mark(s)
        self.w(s['name'])
        if s['ctx']:
            self.w('<')
            self.ctx(s['ctx'])
            self.w('>')
        self.args(s['args'])

    def value(self, isv, v):
        if isv:
            self.w('value', '(')
            self.arg(v)
            self.w(')')
        else:
            self.arg(v)

    def simple(self, s):
        k = s['k']
        if k == 'op':
            self.op(s)
            return
        self.mark(s)
        if k == 'label':
            self.w(self.sp.at(), s['name'])
        elif k in ('jump', 'call'):
            self.w(k, '@', s['name'])
        elif k == 'asg':
            f = s['f']
            if f == 'clear' or f == 'init':
                self.w(f)
                self.arg(s['var'])
            elif f == 'resetdr':
                self.w('reset', 'dungeon_result')
            elif f == 'resetscn':
                self.w('reset', 'scn', '(')
                self.arg(s['var'])
                self.w(')')
            elif f == 'advlog':
                self.w('adventure_log', '=')
                self.arg(s['val'])
            elif f == 'dmode':
                self.w('dungeon_mode', '(')
                self.arg(s['var'])
                self.w(')', '=')
                self.arg(s['val'])
            elif f == 'scn':
                self.arg(s['var'])
                self.w('=', 'scn', '[', self.sp.int(s['a']), ',', self.sp.int(s['b']), ']')
            else:
                self.arg(s['var'])
                if s['idx'] is not None:
                    self.w('[', self.sp.int(s['idx']), ']')
                self.w(s['op'])
                self.value(s['isv'], s['val'])
        else:
            self.w(k)

    def cond(self, c):
        self.mark(c)
        k = c['k']
        if k == 'op':
            self.arg(c['var'])
            self.w(c['op'])
            self.value(c['isv'], c['val'])
        elif k == 'bit':
            if c['neg']:
                self.w('not')
            self.arg(c['var'])
            self.w('[', self.sp.int(c['idx']), ']')
        elif k == 'neg':
            if c['neg']:
                self.w('not')
            self.w(c['w'])
        elif k == 'scn':
            self.w('scn', '(')
            self.arg(c['var'])
            self.w(')', c['op'], '[', self.sp.int(c['a']), ',', self.sp.int(c['b']), ']')
        elif k == 'operation':
            self.op(c['op'])

    def arm(self, kw, a):
        self.w(kw)
        if a['neg']:
            self.w('not')
        self.w('(')
        for i, c in enumerate(a['conds']):
            if i:
                self.w('||')
            self.cond(c)
        self.w(')', '{')
        self.body(a['body'])
        self.w('}')

    def cases(self, cs):
        self.w('{')
        for c in cs:
            self.mark(c, 'kpos')
            if c['h'] is None:
                self.w('default')
            else:
                h = c['h']
                self.w('case')
                self.mark(h)
                if h['k'] == 'menu':
                    self.w('menu', '(')
                    self.arg(h['v'])
                    self.w(')')
                elif h['k'] == 'menu2':
                    self.w('menu2', '(')
                    self.arg(h['v'])
                    self.w(')')
                elif h['k'] == 'op':
                    self.w(h['op'])
                    self.value(h['isv'], h['v'])
                else:
                    self.arg(h['v'])
            self.w(':')
            if 's' in c and c['s'] is not None:
                self.arg(c['s'])
            else:
                self.body(c['body'])
        self.w('}')

    def stmt(self, s):
        k = s['k']
        if k == 'mcall':
            self.mark(s)
            self.w('~' + s['name'])
            self.args(s['args'])
            self.w(';')
        elif k == 'with':
            self.mark(s)
            self.w('with', '(')
            self.ctx(s['ctx'])
            self.w(')', '{')
            self.simple(s['body'][0])
            self.w(';', '}')
        elif k == 'if':
            self.mark(s)
            for i, a in enumerate(s['arms']):
                self.mark(a)
                self.arm('if' if i == 0 else 'elseif', a)
            if s['els'] is not None:
                self.mark(s, 'epos')
                self.w('else', '{')
                self.body(s['els'])
                self.w('}')
        elif k == 'switch':
            self.mark(s)
            self.w('switch', '(')
            h = s['h']
            self.mark(h)
            hk = h['k']
            if hk == 'var':
                self.arg(h['v'])
            elif hk == 'scn':
                self.w('scn', '(')
                self.arg(h['v'])
                self.w(')', '[', self.sp.int(h['i']), ']')
            elif hk == 'random':
                self.w('random', '(')
                self.arg(h['v'])
                self.w(')')
            elif hk == 'dmode':
                self.w('dungeon_mode', '(')
                self.arg(h['v'])
                self.w(')')
            elif hk == 'sector':
                self.w('sector', '(', ')')
            else:
                self.op(h['op'])
            self.w(')')
            self.cases(s['cases'])
        elif k == 'msgsw':
            self.mark(s)
            self.w(s['name'], '(')
            self.arg(s['arg'])
            self.w(')')
            self.cases(s['cases'])
        elif k == 'forever':
            self.mark(s)
            self.w('forever', '{')
            self.body(s['body'])
            self.w('}')
        elif k == 'while':
            self.mark(s)
            self.w('while')
            if s['neg']:
                self.w('not')
            self.w('(')
            self.cond(s['cond'])
            self.w(')', '{')
            self.body(s['body'])
            self.w('}')
        elif k == 'for':
            self.mark(s)
            self.w('for', '(')
            self.simple(s['init'])
            self.w(';')
            self.cond(s['cond'])
            self.w(';')
            self.simple(s['inc'])
            self.w(';', ')', '{')
            self.body(s['body'])
            self.w('}')
        else:
            self.simple(s)
            self.w(';')


WORD = re.compile(r'[0-9a-zA-Z_$]')


def needs_gap(a, b):
    """must there be white space between tokens a and b?"""
    if not a:
        return False
    x, y = a[-1], b[0]
    if WORD.match(x) and (WORD.match(y)):
        return True
    if (x.isdigit() or x == '.') and (y.isdigit() or y == '.'):
        return True
    if x in '=<>!&|+-*/^' and y in '=<>&|-.+*/':
        return True
    if x in '\'"' and y in '\'"':
        return True
    if x.isalnum() and y in '.':
        return True
    if x == '/' or y == '/':
        return True
    return False


class Layout:
    """Lays tokens out as text and fills in the marks.  kind: 'pretty' | 'flat' | 'rand'"""

    def __init__(self, kind='pretty', rng=None, comments=True, keep=False):
        self.kind, self.rng, self.comments = kind, rng, comments

    COMMENTS = ['/* c */', '// c\n', '/* " */', "/* ' */", '/**/', '//\n', '/* a\n b */', '// "x\n', '/***/', "// '''\n",
                '/* // */', '// /* \n']

    def gap(self, prev, cur, depth):
        need = needs_gap(prev, cur)
        if self.kind == 'flat':
            return ' ' if need else ''
        if self.kind == 'pretty':
            if prev in ('{', ';', '}') or (prev == ':'):
                return '\n' + '    ' * (depth - (1 if cur == '}' else 0))
            return ' ' if need or prev == ',' or cur == '{' or WORD.match(cur[0]) and prev == ')' else ''
        r = self.rng
        c = r.random()
        g = ''
        if c < 0.45:
            g = ' '
        elif c < 0.6:
            g = ' ' * r.randint(1, 4)
        elif c < 0.72:
            g = '\n' + ' ' * r.randint(0, 6)
        elif c < 0.75:
            g = r.choice(['\t', '\r\n', '\n\n', ' \n ', '\t \t'])
        elif c < 0.78 and self.comments:
            g = r.choice(['\\\n', '\\ \n', '\\\r\n'])
        elif c < 0.86 and self.comments:
            g = ' ' + r.choice(self.COMMENTS) + r.choice(['', ' ', '\n'])
        if need and g == '':
            g = ' '
        return g

    def run(self, toks, head='', tail='\n'):
        out = [head]
        line = head.count('\n')
        col = len(head) - (head.rfind('\n') + 1)
        prev, depth = '', 0
        for text, begin, end in toks:
            if prev:
                g = self.gap(prev, text, depth)
                out.append(g)
                nl = g.count('\n')
                if nl:
                    line += nl
                    col = len(g) - (g.rfind('\n') + 1)
                else:
                    col += len(g)
            for node, key in begin:
                node[key] = (line, col)
            nl = text.count('\n')
            if nl:
                line += nl
                col = len(text) - (text.rfind('\n') + 1)
            else:
                col += len(text)
            for node, key in end:
                node[key] = (line, col - 1)
            out.append(text)
            if text == '{':
                depth += 1
            elif text == '}':
                depth -= 1
            prev = text
        out.append(tail)
        return ''.join(out)


def render(f, sp=None, layout=None, head='', tail='\n'):
    toks = Renderer(sp).file(f)
    return (layout or Layout()).run(toks, head, tail)


# ------------------------------------------------------ canonical parameters
def esc(s):
    return ''.join(ch if 32 <= ord(ch) < 127 and ch not in '\\"' else '\\u{%x}' % ord(ch) for ch in s)


def canon(a):
    k = a['k']
    if k == 'int':
        return 'i:%d' % a['v']
    if k == 'dec':
        return 'f:' + dec_canon(a.get('raw', a['v']))
    if k == 'const':
        return 'c:' + a['v']
    if k == 'str':
        return 's:' + esc(a['v'])
    if k == 'lang':
        d = dict(a['v'])
        return 'l:' + '|'.join('%s=%s' % (l, esc(d[l]).replace('|', '\\u{7c}')) for l in sorted(d))
    if k == 'pos':
        return 'p:%s,%d%s,%d%s' % (esc(a['name']).replace(',', '\\u{2c}'), a['x'], '+' if a['xh'] else '', a['y'],
                                   '+' if a['yh'] else '')
    raise ValueError(k)


def strip_pos(x):
    """AST without positions/spelling: for comparing parse(render(ast)) with ast"""
    if isinstance(x, dict):
        return {k: strip_pos(v) for k, v in x.items()
                if k not in ('pos', 'end', 'kpos', 'epos', 'raw', 'span', 'order', 'xr', 'yr', 'legacy') and
                not (k == 's' and v is None)}
    if isinstance(x, (list, tuple)):
        return [strip_pos(y) for y in x]
    return x


def unesc(s):
    return re.sub(r'\\u\{([0-9a-f]+)\}', lambda m: chr(int(m.group(1), 16)), s)


def uncanon(c):
    """canonical parameter -> argument description (inverse of canon)"""
    k, v = c[0], c[2:]
    if k == 'i':
        return {'k': 'int', 'v': int(v)}
    if k == 'f':
        return {'k': 'dec', 'v': v}
    if k == 'c':
        return {'k': 'const', 'v': v}
    if k == 's':
        return {'k': 'str', 'v': unesc(v)}
    if k == 'l':
        return {'k': 'lang', 'v': [(x.partition('=')[0], unesc(x.partition('=')[2])) for x in v.split('|')] if v else []}
    if k == 'p':
        n, x, y = v.split(',')
        return {'k': 'pos', 'name': unesc(n), 'x': int(x.rstrip('+')), 'xh': x.endswith('+'), 'y': int(y.rstrip('+')),
                'yh': y.endswith('+')}
    raise ValueError(c)
