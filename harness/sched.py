"""Runs calls in threads of which one runs at a time; the switches are where a schedule says."""
import gc
import sys
import threading
import time
import types
import _thread

SCOPES = {'own': ('/explorerscript/',), 'all': ('/explorerscript/', '/antlr4/')}
TOOL = 4


def importing():
    """inside the import of a module: the locks of the import system are not ours"""
    f = sys._getframe(2)
    while f is not None:
        if f.f_code.co_name == '<module>' and f.f_back is not None and 'importlib' in f.f_back.f_code.co_filename:
            return True
        f = f.f_back
    return False


CODES = {}


def codes(where):
    """the code objects whose lines (bytecodes) are events"""
    k = (where, sum(m.startswith(('explorerscript', 'antlr4')) for m in list(sys.modules)))
    if k not in CODES:
        out, todo = set(), [f.__code__ for f in gc.get_objects() if type(f) is types.FunctionType]
        while todo:
            c = todo.pop()
            if c not in out and any(w in c.co_filename for w in where):
                out.add(c)
                todo += [x for x in c.co_consts if type(x) is types.CodeType]
        CODES[k] = out
    return CODES[k]


class SchedLock:
    """a lock whose waiters give the processor back to the scheduler"""

    def __init__(self, reentrant=False):
        self.real = _thread.RLock() if reentrant else _thread.allocate_lock()

    def acquire(self, blocking=True, timeout=-1):
        s = Scheduler.current
        if s is None or not s.owns():
            return self.real.acquire(blocking, timeout)
        end = time.time() + timeout if timeout is not None and timeout >= 0 else None
        while not self.real.acquire(False):
            if not blocking or (end is not None and time.time() > end):
                return False
            s.blocked()
        return True

    def release(self):
        self.real.release()

    def locked(self):
        if self.real.acquire(False):
            self.real.release()
            return False
        return True

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()


def patch_locks():
    """before the modules under test are imported: their locks know the scheduler"""
    threading.Lock = lambda: SchedLock()
    threading.RLock = lambda: SchedLock(True)


class Scheduler:
    current = None

    def __init__(self, programs, schedule, scope='own', opcodes=False, collect=None):
        """programs: one function per thread; schedule: [[thread, kind, x]], kind 'at' (location, how often), 'count' (events) or 'end'"""
        self.programs, self.schedule, self.pos = programs, list(schedule), 0
        self.where, self.opcodes, self.collect = SCOPES[scope], opcodes, collect
        self.n = len(programs)
        self.done = [False] * self.n
        self.go = [_thread.allocate_lock() for _ in range(self.n)]
        for g in self.go:
            g.acquire()
        self.ids = {}
        self.events = 0
        self.running = None
        self.left = None
        self.switches = 0
        self.stuck = False
        self.turn = 0
        self.free = False
        self.ready = []
        self.over = threading.Event()

    # -- who runs
    def owns(self):
        return _thread.get_ident() in self.ids and not self.free

    def segment(self):
        """the next thread to run and when to stop it"""
        while self.pos < len(self.schedule) and self.done[self.schedule[self.pos][0]]:
            self.pos += 1
        if self.pos < len(self.schedule):
            t, kind, x = self.schedule[self.pos]
            self.pos += 1
            self.left = [kind, x[0] if kind == 'at' else x, x[1] if kind == 'at' else 0]
            return t
        self.left = ['end', None, 0]
        for t in range(self.n):
            if not self.done[t]:
                return t
        return None

    def hand(self, to):
        self.running = to
        if to is None:
            self.over.set()
        else:
            self.switches += 1
            self.go[to].release()

    def switch(self, me):
        to = self.segment()
        if to == me or to is None:
            self.running = me
            return
        self.hand(to)
        self.go[me].acquire()

    def blocked(self):
        """the running thread waits for a lock of another one"""
        me = self.ids[_thread.get_ident()]
        others = [t for t in range(self.n) if t != me and not self.done[t]]
        if not others:
            self.stuck = True
            time.sleep(0.01)
            return
        # somebody else runs a little, then the waiting thread tries again and goes on as planned
        self.turn += 1
        kind, x, y = self.left
        self.schedule.insert(self.pos, [me, kind, [x, y] if kind == 'at' else x])
        self.left = ['count', 3, 0]
        self.hand(others[self.turn % len(others)])
        self.go[me].acquire()

    # -- the events
    def event(self, code, line, last):
        me = self.ids.get(_thread.get_ident())
        if me is None:
            return
        self.events += 1
        if self.collect is not None:
            f = code.co_filename
            k = (f[f.rindex('/') + 1:], line, last)
            self.collect[k] = self.collect.get(k, 0) + 1
        if self.running != me:
            return
        left = self.left
        if left[0] == 'count':
            left[1] -= 1
            if left[1] <= 0 and not importing():
                self.switch(me)
        elif left[0] == 'at':
            loc = left[1]
            if loc[1] == line and loc[2] == last and code.co_filename.endswith(loc[0]):
                left[2] -= 1
                if left[2] <= 0 and not importing():
                    self.switch(me)

    def watch(self):
        m, e = sys.monitoring, sys.monitoring.events
        m.use_tool_id(TOOL, 'sched')
        m.register_callback(TOOL, e.LINE, lambda code, line: self.event(code, line, 0))
        lines = {}

        def instruction(code, offset):
            t = lines.get(code)
            if t is None:
                t = lines[code] = {}
                for a, b, n in code.co_lines():
                    for x in range(a, b, 2):
                        t[x] = n or 0
            self.event(code, t.get(offset, 0), offset)
        m.register_callback(TOOL, e.INSTRUCTION, instruction)
        self.watched = codes(self.where)
        for c in self.watched:
            m.set_local_events(TOOL, c, e.INSTRUCTION if self.opcodes and '/antlr' not in c.co_filename else e.LINE)

    def unwatch(self):
        m = sys.monitoring
        for c in self.watched:
            m.set_local_events(TOOL, c, 0)
        m.free_tool_id(TOOL)

    def body(self, me):
        self.ids[_thread.get_ident()] = me
        try:
            self.ready.append(me)
            self.go[me].acquire()
            self.programs[me]()
        finally:
            self.done[me] = True
            if self.running == me:
                self.hand(self.segment())

    def run(self, patience=20):
        Scheduler.current = self
        self.watch()
        ts = [threading.Thread(target=self.body, args=(t,), daemon=True) for t in range(self.n)]
        for t in ts:
            t.start()
        while len(self.ready) < self.n:
            time.sleep(0.001)
        self.hand(self.segment())
        last, since = -1, time.time()
        while not self.over.wait(0.5):
            if self.events != last:
                last, since = self.events, time.time()
            elif time.time() - since > 3 and not self.free:
                # the running thread waits for something the scheduler knows nothing of: let the others run too
                self.free, r, self.running = True, self.running, None
                for t in range(self.n):
                    if t != r and not self.done[t]:
                        try:
                            self.go[t].release()
                        except RuntimeError:
                            pass
            elif time.time() - since > patience:
                break
            if all(self.done):
                break
        Scheduler.current = None
        fin = all(self.done)
        if fin:
            for t in ts:
                t.join()
        self.unwatch()
        return fin
