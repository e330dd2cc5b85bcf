"""Common frame of every check: tiers, seeds, evidence, known findings, replay files, exit codes."""
import hashlib
import importlib
import json
import os
import random
import sys
import time
import traceback

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = os.path.join(ROOT, 'known_findings.json')


class Ctx:
    def __init__(self, pid, tier, seed, level):
        self.pid, self.tier, self.seed, self.level = pid, tier, seed, level
        self.t0 = time.time()
        self.rng = random.Random(seed * 1000003 + int(pid[1:]))
        self.cov = {}
        self.samples = []
        self.bad = []          # (key, what, replay data)
        self.assumptions = []
        self.seen = set()

    @property
    def quick(self):
        return self.tier == 'quick'

    def n(self, quick, thorough):
        return quick if self.quick else thorough

    def add(self, name, k=1):
        self.cov[name] = self.cov.get(name, 0) + k

    def sample(self, s, limit=4):
        if len(self.samples) < limit:
            self.samples.append(s)

    def violation(self, key, what, data):
        self.bad.append((key, what, data))

    def elapsed(self):
        return time.time() - self.t0


def known_for(pid):
    if not os.path.exists(KNOWN):
        return {}
    with open(KNOWN) as f:
        d = json.load(f)
    return {e['key']: e for e in d['findings'] if e['property'] == pid and e['status'] == 'open'}


def finish(ctx, max_report=int(os.environ.get("VERIF_REPORT", "5"))):
    known = known_for(ctx.pid)
    new, old = [], {}
    for key, what, data in ctx.bad:
        if key in known:
            old.setdefault(key, what)
        else:
            new.append((key, what, data))
    for k in sorted(old):
        print('KNOWN-FINDING: property=%s %s' % (ctx.pid, known[k]['what']))
    viol = []
    rdir = os.path.join(ROOT, 'replays')
    seen = set()
    for key, what, data in new:
        if key in seen:
            continue
        seen.add(key)
        if len(viol) >= max_report:
            break
        os.makedirs(rdir, exist_ok=True)
        h = hashlib.sha256(json.dumps([key, data], sort_keys=True, default=str).encode()).hexdigest()[:12]
        fn = os.path.join(rdir, '%s-%s.json' % (ctx.pid, h))
        with open(fn, 'w') as f:
            json.dump({'property': ctx.pid, 'key': key, 'what': what, 'data': data}, f, indent=1, default=str)
        print('VIOLATION property=%s replay=%s' % (ctx.pid, fn))
        print('  ' + what.replace('\n', '\n  ')[:1500])
        viol.append({'key': key, 'what': what[:600], 'replay': fn})
    cov = dict(ctx.cov)
    cov['samples'] = ctx.samples
    cov['known_findings_seen'] = len(old)
    ev = {'property': ctx.pid, 'tier': ctx.tier, 'seed': ctx.seed, 'level': ctx.level, 'coverage': cov,
          'wall_s': round(ctx.elapsed(), 2), 'violations': len(new)}
    if ctx.assumptions:
        ev['assumptions'] = ctx.assumptions
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', ctx.pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    print('%s %s: %s (%.1f s)' % (ctx.pid, ctx.tier, 'violated' if new else 'held', ctx.elapsed()),
          {k: v for k, v in cov.items() if isinstance(v, int)})
    return 1 if new else 0


def main(argv):
    if argv and argv[0] == '--replay':
        with open(argv[1]) as f:
            d = json.load(f)
        mod = importlib.import_module('harness.checks.' + d['property'].lower())
        return 1 if mod.replay(d['data']) else 0
    pid = argv[0].upper()
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    mod = importlib.import_module('harness.checks.' + pid.lower())
    ctx = Ctx(pid, tier, seed, mod.LEVEL)
    try:
        mod.run(ctx)
    except Exception:
        # the machinery failed: no statement about the property
        traceback.print_exc()
        return 2
    return finish(ctx)


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
