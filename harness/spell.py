"""Other spellings of the same values: integer bases, decimal zeros, quote styles, trailing commas, deprecated headers."""
from . import lang


def unshare(x):
    """a copy in which no node occurs twice"""
    if isinstance(x, dict):
        return {k: unshare(v) for k, v in x.items()}
    if isinstance(x, list):
        return [unshare(v) for v in x]
    if isinstance(x, tuple):
        return tuple(unshare(v) for v in x)
    return x


def literals(v, rng, single_only=False):
    """literals that denote v, most of the possible kinds"""
    out = []
    for q in '"\'':
        for esc_other in (False, True):
            s = v.replace(q, '\\' + q).replace('\n', '\\n')
            if esc_other:
                o = '"' if q == "'" else "'"
                s = s.replace(o, '\\' + o)
            out.append(q + s + q)
    if not single_only:
        lines = v.split('\n')
        for q in ('"""', "'''"):
            out.append(q + v + q)
            ind = ' ' * rng.randint(0, 9)
            end = rng.choice(['', '\n', '\n' + ' ' * rng.randint(0, 9)])
            out.append(q + '\n' + '\n'.join(ind + l for l in lines) + end + q)
            out.append(q + lines[0] + ''.join('\n' + ind + l for l in lines[1:]) + end + q)
    good = []
    for s in out:
        try:
            t = lang.lex(s)
        except lang.SyntaxErr:
            continue
        if len(t) == 2 and t[0].t in ('STR', 'ML') and not (single_only and t[0].t != 'STR') and lang.str_value(t[0]) == v:
            good.append(s)
    return good


class Spell(lang.Sp):
    def __init__(self, rng, multi=True):
        self.r, self.multi = rng, multi
        self.p = {k: rng.choice([0, 0.2, 0.6, 1]) for k in ('int', 'dec', 'str', 'at', 'comma', 'legacy')}

    def y(self, k):
        return self.r.random() < self.p[k]

    def int(self, v):
        if not self.y('int'):
            return str(v)
        a, s = abs(v), '-' if v < 0 else ''
        f = self.r.choice(['%d', '0x%x', '0X%X', '0x0%x', '0o%o', '0O0%o', 'b', 'B', '0%s'])
        if f == 'b':
            return s + bin(a)
        if f == 'B':
            return s + '0B00' + bin(a)[2:]
        if f == '0%s':
            return s + ('0' * self.r.randint(1, 3) if a == 0 else str(a))
        t = f % a
        if f == '0x%x' and self.r.random() < 0.5:
            t = '0x' + ''.join(self.r.choice([c.lower(), c.upper()]) for c in t[2:])
        return s + t

    def dec(self, v):
        if not self.y('dec'):
            return v
        s, u = ('-', v[1:]) if v.startswith('-') else ('', v)
        w, f = u.split('.')
        k = self.r.random()
        if k < 0.3 and set(w) == {'0'}:
            w = ''
        elif k < 0.7:
            w = '0' * self.r.randint(1, 3) + w
        return s + w + '.' + f

    def str(self, v, single_only=False):
        if not self.y('str'):
            q = lang.quote(v)
            if q in literals(v, self.r, single_only):
                return q
        ls = literals(v, self.r, single_only or not self.multi)
        if not ls:
            ls = literals(v, self.r, single_only)
        return self.r.choice(ls)

    def at(self):
        return '§' if self.y('at') else '@'

    def trailing_comma(self):
        return self.y('comma')

    def legacy_target(self):
        return self.y('legacy')
