"""Seeded scheduler: decides which simulated thread runs at every line of
package code, and where an asynchronous exception (KeyboardInterrupt,
MemoryError, ...) strikes.

The threads are real `threading.Thread`s, but exactly one of them holds the
baton at any moment; the baton changes hands only at LINE events of code below
/repo/wilson (delivered by sys.monitoring, so no change to /repo is needed), at
operation boundaries, and when a simulated lock blocks.  The decisions come
from the plan:

  {"at": [label, "wilson/classes.py:206", n], "do": "switch", "to": k}
  {"at": [label, loc, n], "do": "raise", "exc": "KeyboardInterrupt"}

label is "<thread>.<operation index>", n counts the events of that line under
that label from 1.
"""
import sys
import collections
import hashlib
import weakref
import _thread

_real_lock = _thread.allocate_lock
_real_ident = _thread.get_ident
TOOL = 3
LONG = 5000
PREFIX = '/repo/wilson/'
CUT = len('/repo/')

EXC = {
    'KeyboardInterrupt': lambda: KeyboardInterrupt('injected'),
    'MemoryError': lambda: MemoryError('injected'),
    'SystemExit': lambda: SystemExit(7),
    'OSError': lambda: OSError(5, 'injected I/O error'),
    'RecursionError': lambda: RecursionError('injected'),
}

current = None         # the active Sim, if any


_codes = None
_by_line = None


def codes_for(locs):
    """The code objects that contain one of the lines "file:line"."""
    global _by_line
    if _by_line is None:
        _by_line = {}
        for c in package_code():
            f = c.co_filename[CUT:]
            if len(c.co_code) < LONG:
                lines = {l for _, _, l in c.co_lines() if l is not None}
            else:
                lines = set()
            lines.add(c.co_firstlineno)
            for l in lines:
                _by_line.setdefault('%s:%d' % (f, l), []).append(c)
    out = {}
    for l in locs:
        for c in _by_line.get(l, ()):
            out[id(c)] = c
    return list(out.values())


_calm = {}


def calm_lines(path):
    """Lines at which no exception is raised: clean-up that the interpreter does
    not interrupt (`finally` blocks, the release of a lock) and `try:` itself,
    which is no place where the interpreter looks for signals."""
    if path not in _calm:
        import ast
        out = set()
        try:
            with open(path, 'rb') as f:
                tree = ast.parse(f.read())
        except (OSError, SyntaxError):
            tree = ast.Module([], [])
        for n in ast.walk(tree):
            if isinstance(n, ast.Try):
                out.add(n.lineno)
                for s in n.finalbody:
                    out.update(range(s.lineno, s.end_lineno + 1))
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'release':
                out.add(n.lineno)
        _calm[path] = out
    return _calm[path]


_withs = {}


def with_offsets(code):
    """{line: offset} of the last entry into a `with` of that line: what comes
    later on this line is the exit, which is not interrupted."""
    if code not in _withs:
        import dis
        out = {}
        for i in dis.get_instructions(code):
            if i.opname in ('BEFORE_WITH', 'LOAD_SPECIAL') and i.positions and i.positions.lineno:
                out[i.positions.lineno] = i.offset
        _withs[code] = out
    return _withs[code]


def package_code():
    """All function code objects of the package, nested ones included."""
    global _codes
    if _codes is None:
        import gc
        import types
        seen = {}

        def add(c):
            if id(c) in seen or not c.co_filename.startswith(PREFIX):
                return
            seen[id(c)] = c
            for k in c.co_consts:
                if isinstance(k, types.CodeType):
                    add(k)
        for o in gc.get_objects():
            if isinstance(o, types.FunctionType):
                add(o.__code__)
        _codes = list(seen.values())
    return _codes


class Deadlock(BaseException):
    pass


class StepLimit(BaseException):
    pass


class Sim:
    def __init__(self, faults=(), record=False, step_limit=20_000_000):
        self.actions = {}
        for f in faults:
            lab, loc, n = f['at']
            self.actions.setdefault((lab, loc), {})[n] = f
        self.labels_with_actions = {k[0] for k in self.actions}
        self.counts = collections.Counter()
        self.record = record
        self.lines = {}                 # record mode: label -> Counter(loc)
        self.fired = collections.Counter()
        self.hits = collections.Counter()   # label -> exceptions injected
        self.switches = []              # (from label, loc, to thread)
        self.step = 0
        self.step_limit = step_limit
        self.threads = {}               # ident -> tid
        self.labels = {}                # tid -> label
        self.tids = []
        self.batons = {}
        self.state = {}                 # tid -> 'ready'|'done'|lock object
        self.running = None
        self.locname = {}
        self.withs = {}
        self.clock = 0                  # event sequence number for histories
        self.failure = None

    # -- monitoring ------------------------------------------------------
    def start(self):
        global current
        current = self
        m = sys.monitoring
        if m.get_tool(TOOL) is None:
            m.use_tool_id(TOOL, 'verif-sim')
        m.register_callback(TOOL, m.events.LINE, self._line)
        m.register_callback(TOOL, m.events.PY_START, self._entry)
        # a run only pays for the functions its plan has decisions in
        self.watched = package_code() if self.record else codes_for({k[1] for k in self.actions})
        for c in self.watched:
            # delivering LINE events costs time proportional to the length of
            # the function: long straight-line numerics get an event on entry
            m.set_local_events(TOOL, c, m.events.LINE if len(c.co_code) < LONG else m.events.PY_START)

    def stop(self):
        global current
        m = sys.monitoring
        for c in self.watched:
            m.set_local_events(TOOL, c, 0)
        m.register_callback(TOOL, m.events.LINE, None)
        m.register_callback(TOOL, m.events.PY_START, None)
        current = None

    def _entry(self, code, offset):
        return self._line(code, code.co_firstlineno, False)

    def _line(self, code, line, stepwise=True):
        tid = self.threads.get(_real_ident())
        if tid is None:
            return
        self.step += 1
        if self.step > self.step_limit:
            self.failure = ('no-progress', 'no end after %d steps' % self.step)
            raise StepLimit('step limit')
        lab = self.labels[tid]
        if not self.record and lab not in self.labels_with_actions:
            return
        key = (code, line)
        loc = self.locname.get(key)
        if loc is None:
            loc = self.locname[key] = '%s:%d' % (code.co_filename[CUT:], line)
            if len(code.co_code) < LONG and line in with_offsets(code):
                self.withs[key] = with_offsets(code)[line]
        if self.withs and stepwise and key in self.withs and sys._getframe(1).f_lasti > self.withs[key]:
            return                          # the end of a `with` block
        if self.record:
            c = self.lines.get(lab)
            if c is None:
                c = self.lines[lab] = collections.Counter()
            c[loc] += 1
            return
        k = (lab, loc)
        acts = self.actions.get(k)
        if acts is None:
            return
        self.counts[k] += 1
        a = acts.get(self.counts[k])
        if a is None:
            return
        if a['do'] == 'raise':
            if line in calm_lines(code.co_filename):
                return
            self.fired['raise:' + a['exc']] += 1
            self.hits[lab] += 1
            raise EXC[a['exc']]()
        if a['do'] == 'kill':
            import os
            os._exit(9)
        if a['do'] == 'fork':
            if any(l.owner is not None for l in _locks):
                return                      # not while a lock is held
            self.fired['fork'] += 1
            return self.on_fork(a)
        self._switch(tid, a.get('to', 0), lab + '@' + loc)

    # -- single threaded use ------------------------------------------------
    def adopt(self, tid=0):
        """Register the calling thread as simulated thread `tid` (no others)."""
        self.threads[_real_ident()] = tid
        self.labels[tid] = '%d.-1' % tid
        self.state[tid] = 'ready'
        self.tids = [tid]
        self.running = tid

    def op(self, i, tid=0):
        self.labels[tid] = '%d.%d' % (tid, i)

    # -- threads ----------------------------------------------------------
    def run_threads(self, bodies, order=None, boundary=None):
        """bodies: list of callables f(sim, tid).  Returns when all ended."""
        import threading
        n = len(bodies)
        self.tids = list(range(n))
        order = [t for t in (order or []) if t < n]
        order += [t for t in range(n) if t not in order]
        self.order = order
        main = _real_lock(); main.acquire()
        self.main = main
        ths = []
        for t in range(n):
            self.batons[t] = _real_lock()
            self.batons[t].acquire()
            self.labels[t] = '%d.-1' % t
            self.state[t] = 'ready'

        def runner(t, body):
            self.batons[t].acquire()
            self.threads[_real_ident()] = t
            try:
                body(self, t)
            except Deadlock:
                pass
            except StepLimit:
                pass
            finally:
                self.threads.pop(_real_ident(), None)
                self.state[t] = 'done'
                self._hand_over(t)
        for t in range(n):
            th = threading.Thread(target=runner, args=(t, bodies[t]), daemon=True)
            ths.append(th)
        self.start()
        try:
            for th in ths:
                th.start()
            self.running = order[0]
            self.batons[order[0]].release()
            main.acquire()
        finally:
            self.stop()
        for th in ths:
            th.join(5)

    def runnable(self, me=None):
        out = []
        for t in self.order:
            s = self.state[t]
            if s == 'ready' or (s != 'done' and s.can_take(t)):
                if t != me:
                    out.append(t)
        return out

    def _hand_over(self, me):
        """me has ended: pass the baton on, or finish."""
        r = self.runnable()
        if r:
            self.running = r[0]
            self.batons[r[0]].release()
            return
        if all(s == 'done' for s in self.state.values()):
            self.main.release()
            return
        self._deadlock()
        for t in self.tids:
            if self.state[t] != 'done':
                self.running = t
                self.batons[t].release()
                return

    def _deadlock(self):
        if self.failure is None:
            self.failure = ('deadlock', 'all unfinished threads are blocked on locks')

    def _switch(self, me, pick, where):
        if len(self.tids) < 2:
            return
        r = self.runnable(me)
        if not r:
            return
        t = r[pick % len(r)]
        self.fired['switch'] += 1
        self.switches.append((where, t))
        self._yield_to(me, t)

    def _yield_to(self, me, t):
        self.running = t
        self.batons[t].release()
        self.batons[me].acquire()
        if self.failure and self.failure[0] == 'deadlock':
            raise Deadlock()

    def boundary(self, tid, i, pick=None):
        """Explicit scheduling point before operation i of thread tid."""
        self.labels[tid] = '%d.%d' % (tid, i)
        acts = self.actions.get((self.labels[tid], 'boundary'))
        if acts and 1 in acts:
            self._switch(tid, acts[1].get('to', 0), self.labels[tid] + '@boundary')

    def block_on(self, me, lock):
        """me cannot take `lock`: run somebody else until it can."""
        while not lock.can_take(me):
            self.state[me] = lock
            r = self.runnable(me)
            if not r:
                self._deadlock()
                self.state[me] = 'ready'
                raise Deadlock()
            self.switches.append((self.labels[me] + '@lock', r[0]))
            self._yield_to(me, r[0])
        self.state[me] = 'ready'

    def tick(self):
        self.clock += 1
        return self.clock

    def interleaving(self):
        return hashlib.sha256(repr(self.switches).encode()).hexdigest()[:12]


# ---------------------------------------------------------------------------
# locks created by package code are replaced by simulated ones

_locks = weakref.WeakSet()


class SimLock:
    _reentrant = False

    def __init__(self):
        self.owner = None
        self.depth = 0
        _locks.add(self)

    def _me(self):
        s = current
        if s is not None:
            return s.threads.get(_real_ident(), ('os', _real_ident()))
        return ('os', _real_ident())

    def can_take(self, t):
        return self.owner is None or (self._reentrant and self.owner == t)

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        if not self.can_take(me):
            if not blocking or timeout == 0:
                return False
            if current is None or isinstance(me, tuple):
                raise Deadlock('lock would never be released')
            current.block_on(me, self)
        self.owner = me
        self.depth += 1
        return True

    def release(self):
        if self.owner is None or (self._reentrant and self.owner != self._me()):
            raise RuntimeError('release unlocked lock')
        self.depth -= 1
        if self.depth == 0 or not self._reentrant:
            self.owner = None
            self.depth = 0

    def locked(self):
        return self.owner is not None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def __reduce__(self):
        raise TypeError("cannot pickle '_thread.lock' object")

    def __deepcopy__(self, memo):
        raise TypeError("cannot pickle '_thread.lock' object")


class SimRLock(SimLock):
    _reentrant = True


def install_locks():
    import threading
    rl, rr = threading.Lock, threading.RLock

    def make(sim_cls, real):
        def factory(*a, **k):
            f = sys._getframe(1)
            for _ in range(3):
                if f is None:
                    break
                if f.f_code.co_filename.startswith(PREFIX):
                    return sim_cls()
                f = f.f_back
            return real(*a, **k)
        return factory
    threading.Lock = make(SimLock, rl)
    threading.RLock = make(SimRLock, rr)


def record_lines(bodies):
    """Run the bodies one after the other on this thread and return
    {label: {loc: count}}."""
    s = Sim(record=True)
    s.adopt(0)
    s.start()
    try:
        for t, b in enumerate(bodies):
            s.threads[_real_ident()] = t
            s.labels[t] = '%d.0' % t
            b(s, t)
    finally:
        s.stop()
    return s.lines
