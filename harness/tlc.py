"""Runs TLC on a specification with a JSON input file and collects the verdicts it prints."""
import json
import os
import re
import shutil
import subprocess
import tempfile

SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec')


JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class TlcError(Exception):
    pass


class Run:
    def __init__(self):
        self.verdicts, self.states, self.distinct, self.out = [], 0, 0, ''


def tlc(module, data=None, cfg=None, workers=None, env=None, timeout=850, heap='3g', ok_codes=(0,), extra=(), simulate=None):
    work = tempfile.mkdtemp(prefix='vtlc')
    try:
        e = dict(os.environ)
        e.update(env or {})
        if data is not None:
            fn = os.path.join(work, 'in.json')
            with open(fn, 'w') as f:
                json.dump(data, f, separators=(',', ':'))
            e['VERIF_IN'] = fn
        for fn in os.listdir(SPEC):
            if fn.endswith('.tla') or fn.endswith('.cfg'):
                shutil.copy(os.path.join(SPEC, fn), work)
        cmd = ['java', '-Djava.io.tmpdir=' + work, '-Xmx' + heap, '-Xss512m', '-XX:+UseParallelGC', '-cp', JARS, 'tlc2.TLC', '-workers', str(workers or 1), '-config', (cfg or module) + '.cfg', '-metadir', os.path.join(work, 'md'),
               '-noGenerateSpecTE', *(['-simulate', 'num=%d' % simulate[0], '-depth', str(simulate[1]), '-seed', str(simulate[2])] if simulate else []),
               *extra, module + '.tla']
        p = subprocess.run(cmd, cwd=work, env=e, capture_output=True, text=True, timeout=timeout)
        r = Run()
        r.out = p.stdout
        for line in p.stdout.splitlines():
            if line.startswith('"{') or line.startswith('"['):
                try:
                    r.verdicts.append(json.loads(json.loads(line)))
                except ValueError:
                    raise TlcError('unreadable verdict line: ' + line[:300])
        m = None
        for m in re.finditer(r'^(\d+) states generated, (\d+) distinct states found', p.stdout, re.M):
            pass
        if m and not simulate:
            r.states, r.distinct = int(m.group(1)), int(m.group(2))
        r.code = p.returncode
        if os.environ.get('TLC_DEBUG'):
            print('\n'.join(l for l in p.stdout.splitlines() if not l.startswith('"')))
        r.ok = 'No error has been found' in p.stdout
        if simulate:
            m = re.search(r'The number of states generated: (\d+)', p.stdout)
            r.ok = bool(m) and 'Error' not in p.stdout
            r.states = r.distinct = int(m.group(1)) if m else 0
        if p.returncode not in ok_codes or not m or (p.returncode == 0 and not r.ok):
            raise TlcError('TLC exit %d\n%s\n%s' % (p.returncode, p.stdout[-4000:], p.stderr[-2000:]))
        return r
    finally:
        shutil.rmtree(work, ignore_errors=True)


def tlc_batches(module, batches, jobs=4, **kw):
    """run several inputs in parallel JVMs; returns list of Run in order"""
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(jobs) as ex:
        return list(ex.map(lambda d: tlc(module, d, **kw), batches))
