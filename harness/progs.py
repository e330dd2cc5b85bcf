"""Streams of source programs for the checks, and their compilation by the code under test."""
import random
from . import forms, gen, lang, flatten, real
from .pool import pmap

PROFILES = [
    {},
    {'depth': 1}, {'depth': 2}, {'depth': 4, 'width': 2},
    {'labels': False, 'jumps': False, 'calls': False},
    {'switches': True, 'ifs': False, 'depth': 3}, {'loops': False, 'depth': 3, 'width': 3},
    {'asg': False, 'ctx': False, 'msg': False, 'depth': 4, 'width': 3},
    {'strings': 'wild', 'depth': 2},
]


def random_program(seed, **over):
    rng = random.Random(seed)
    o = dict(PROFILES[seed % len(PROFILES)])
    o.update(over)
    o.setdefault('depth', rng.choice([1, 2, 3]))
    return gen.Gen(rng, **o).program()


def sample_small(rng, size, n, depth=2):
    """n programs of that size, uniformly by reservoir"""
    res = []
    for i, p in enumerate(forms.small(size, depth)):
        if len(res) < n:
            res.append(p)
        else:
            j = rng.randint(0, i)
            if j < n:
                res[j] = p
    return res


def compile_case(arg):
    """(tag, ast) -> recorded facts of the real compiler and the source machine"""
    tag, f = arg
    txt = lang.render(f)
    p = lang.parse(txt)
    if lang.strip_pos(p) != lang.strip_pos(f):
        raise AssertionError('harness: parse(render(ast)) differs for\n' + txt)
    r = real.compile_text(txt)
    m = flatten.flatten(f)
    res = {'tag': tag, 'text': txt, 'src': m, 'r': {k: r.get(k) for k in ('ok', 'exc', 'msg', 'where')}}
    if r['ok']:
        res['dst'] = real.ssb_machine(r['ops'], r['table'])
    return res


def compile_seed(arg):
    tag, seed, over = arg
    return compile_case((tag, random_program(seed, **over)))


def run_cases(cases):
    return pmap(compile_case, cases)


def run_seeds(base, n, tag='random', **over):
    return pmap(compile_seed, [(tag, base + i, over) for i in range(n)])
