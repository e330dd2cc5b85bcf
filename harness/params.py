"""Parameter values a binary SSB reader can deliver."""
CH = ['a', 'b', 'Z', ' ', '  ', '\n', '\n', "'", '"', "'''", '"""', '\\', '\\n', "\\'", '\\"', '{', '}', '@x', '/*', '*/', '//', '$', '~',
      ';', '=', ',', '<', '>', '\t', 'é', '[K]', '[CS:K]', '日', '#', '\u2028', '\x0b', '\r', '\f', '\x85', '\x1c']
LANGS = ['english', 'french', 'german', 'italian', 'spanish', 'japanese', 'E', 'lang_1']
CONSTS = ['ACTOR_PLAYER', '$SCENARIO_MAIN', '$x', 'FACE_0', 'A', 'a1_', 'positionx', 'endx', 'DMODE_OPEN']
DECS = ['0.5', '-0.5', '1.25', '12.0', '0.0', '-0.0', '3.0625', '-128.99609375', '127.99609375', '0.00390625', '-0.0034', '5.100', '100.5']


def string(rng, wild=True):
    while True:
        s = string0(rng, wild)
        if representable(s):
            return s


def string0(rng, wild=True):
    if not wild or rng.random() < 0.2:
        return rng.choice(['', 'Hello', 'a b', 'x\ny', "it's", 'say "hi"', 'one\n  two\nthree'])
    k = rng.choice([1, 2, 3, 4, 6, 9])
    return ''.join(rng.choice(CH) for _ in range(k))


def intv(rng):
    return {'k': 'int', 'v': rng.choice([0, 1, 2, 3, 7, 255, 256, -1, -2, 16383, -16384, 32767, 65535, rng.randint(-20000, 20000)])}


def mark(rng, wild=True):
    neg = wild and rng.random() < 0.25
    return {'k': 'pos', 'name': rng.choice(['m', 'mark 1', '']) if not wild or rng.random() < 0.5 else mark_name(rng),
            'x': rng.randint(-9 if neg else 0, 60), 'xh': rng.random() < 0.4,
            'y': rng.randint(-9 if neg else 0, 255), 'yh': rng.random() < 0.4}


def mark_name(rng):
    while True:
        s = mark_name0(rng)
        if representable(s, True):
            return s


def mark_name0(rng):
    return ''.join(rng.choice(['m', 'N', '0', ' ', "'", '"', 'é', '<', '>', ',', '\n', '\\']) for _ in range(rng.randint(1, 6)))


def lang(rng, wild=True):
    ls = rng.sample(LANGS, rng.choice([1, 1, 2, 3, 5]))
    return {'k': 'lang', 'v': [(l, string(rng, wild)) for l in ls]}


def param(rng, wild=True):
    k = rng.random()
    if k < 0.35:
        return intv(rng)
    if k < 0.55:
        return {'k': 'const', 'v': rng.choice(CONSTS)}
    if k < 0.65:
        return {'k': 'dec', 'v': rng.choice(DECS)}
    if k < 0.8:
        return {'k': 'str', 'v': string(rng, wild)}
    if k < 0.9:
        return lang(rng, wild)
    return mark(rng, wild)


# ------------------------------------------------------------- which strings the language can spell at all
def single_ok(s, q):
    """some single line literal with that quote denotes s (Single of Literals.tla)"""
    states = {(False, False)}
    for c in s:
        nxt = set()
        for p, b in states:
            if not (b and c in '"\'n') and (p or c not in (q, '\r', '\n', '\f')):
                nxt.add((not p and c == '\\', c == '\\'))
            if c in '\n"\'' and not (p and c == q):
                nxt.add((False, False))
        states = nxt
    return any(not p for p, b in states)


def multi_ok(s, d):
    if d in s or '\r\n' in s:
        return False
    lines = s.split('\n')
    lead = [len(x) - len(x.lstrip(' ')) for x in lines]
    if min(lead) == 0:
        return True
    return lines[0] != '' and (len(lines) == 1 or min(lead[1:]) == 0)


def representable(s, single_only=False):
    if single_ok(s, '"') or single_ok(s, "'"):
        return True
    return not single_only and (multi_ok(s, '"""') or multi_ok(s, "'''"))
