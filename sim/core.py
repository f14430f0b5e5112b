"""Deterministic-simulation core.

One *plan* (a JSON object: operations, faults, schedule, seeds) is one exactly
repeatable execution.  A plan is generated from a seed, executed in a process
forked from a warm image of the real package (so that every run starts from the
same state and nothing leaks between runs), observed, and judged afterwards
against references that are computed in other, equally fresh, forks.

No clock, no wall time and no unseeded randomness takes part in any of this;
the one wall-clock limit is the watchdog that kills a run that does not end.
"""
import os
import sys
import time
import json
import pickle
import random
import select
import signal
import hashlib
import struct
import traceback
import collections

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = '/repo'
PKG = '/repo/wilson'
WATCHDOG = 120.0      # seconds of wall time after which one run is killed


def derive(*parts):
    """A 63-bit integer derived from the parts (stable across processes)."""
    h = hashlib.sha256(repr(parts).encode()).digest()
    return struct.unpack('>Q', h[:8])[0] >> 1


def rng_of(*parts):
    return random.Random(derive(*parts))


def digest(obj):
    return hashlib.sha256(json.dumps(obj, sort_keys=True, default=repr).encode()).hexdigest()[:16]


try:
    import ctypes
    _libc = ctypes.CDLL(None)
except Exception:
    _libc = None


class quiet:
    """Without what C code prints on standard output."""

    def __enter__(self):
        sys.stdout.flush()
        self.save = os.dup(1)
        null = os.open('/dev/null', os.O_WRONLY)
        os.dup2(null, 1)
        os.close(null)

    def __exit__(self, *a):
        os.dup2(self.save, 1)
        os.close(self.save)


class HarnessError(Exception):
    pass


class Killed(Exception):
    """The run did not end within the watchdog's time."""


def fork_call(fn, *args, timeout=None):
    """Run fn(*args) in a forked child; return ('ok', value) or
    ('died', status) / ('hang', None) / ('exc', traceback)."""
    timeout = timeout or WATCHDOG
    r, w = os.pipe()
    sys.stdout.flush(); sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            os.setpgid(0, 0)
            null = os.open('/dev/null', os.O_WRONLY)
            os.dup2(null, 1)         # RunDec prints warnings
            os.close(null)
            if _libc is not None:
                _libc.prctl(1, 9)      # die with the parent
            signal.signal(signal.SIGINT, signal.SIG_DFL)
            signal.signal(signal.SIGUSR1, signal.SIG_IGN)
            try:
                res = ('ok', fn(*args))
                data = pickle.dumps(res)
            except BaseException:
                data = pickle.dumps(('exc', traceback.format_exc()))
            _write_all(w, data)
            os.close(w)
        except BaseException:
            code = 99
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    deadline = time.monotonic() + timeout
    hang = False
    while True:
        left = deadline - time.monotonic()
        if left <= 0:
            hang = True
            break
        rl, _, _ = select.select([r], [], [], left)
        if not rl:
            hang = True
            break
        b = os.read(r, 1 << 20)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    if hang:
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass
        try:
            os.kill(pid, signal.SIGKILL)
        except OSError:
            pass
    _, status = os.waitpid(pid, 0)
    if hang:
        return ('hang', None)
    data = b''.join(chunks)
    if not data:
        return ('died', status)
    try:
        return pickle.loads(data)
    except Exception:
        return ('died', status)


def _write_all(fd, data):
    mv = memoryview(data)
    while mv:
        n = os.write(fd, mv[:1 << 20])
        mv = mv[n:]


# ---------------------------------------------------------------------------
# observation helpers

def outcome(fn, *args, **kw):
    """Run a call and describe how it ended: ('ok', value) or
    ('err', exception class name, message)."""
    try:
        return ('ok', fn(*args, **kw))
    except BaseException as e:        # noqa: injected KeyboardInterrupt etc.
        return ('err', type(e).__name__, str(e)[:300])


class Violation(dict):
    """{'kind': short class of the failure, 'msg': text, 'sig': the part that
    identifies a known finding}"""
    def __init__(self, kind, msg, sig=None):
        super().__init__(kind=kind, msg=msg[:1500], sig=sig or kind)


# ---------------------------------------------------------------------------
# reference store (lives in a worker that itself never runs wilson code)

class Refs:
    """Memo of reference results, each computed in a fork of the pristine
    worker by `check.reference(name, *args)`."""

    def __init__(self, check):
        self.check = check
        self.memo = {}
        self.computed = 0

    def __call__(self, name, *args):
        k = (name, json.dumps(args, sort_keys=True))
        if k not in self.memo:
            st = fork_call(self.check.reference, name, *args, timeout=300)
            if st[0] != 'ok':
                raise HarnessError('reference %s%r: %s' % (name, args, st))
            self.memo[k] = st[1]
            self.computed += 1
            if len(self.memo) > 20000:
                self.memo.clear()
        return self.memo[k]


# ---------------------------------------------------------------------------
# executing one plan

def run_plan(check, plan, refs):
    """Execute + judge.  Returns dict(violations=[..], obs=.., hang=bool)."""
    if hasattr(check, 'before'):
        check.before(plan)
    st = fork_call(check.execute, plan, timeout=getattr(check, 'TIMEOUT', WATCHDOG))
    if st[0] == 'hang':
        # once more, in case the machine was merely busy
        st = fork_call(check.execute, plan, timeout=2 * getattr(check, 'TIMEOUT', WATCHDOG))
    if st[0] == 'hang':
        return {'violations': [Violation('hang', 'the simulated run did not end within %ss'
                                         % (2 * getattr(check, 'TIMEOUT', WATCHDOG)))], 'obs': {}}
    if st[0] == 'died':
        return {'violations': [Violation('process-died', 'the simulated process died with wait status %r'
                                         % (st[1],))], 'obs': {}}
    if st[0] == 'exc':
        raise HarnessError('execute: ' + st[1])
    obs = st[1]
    v = [x if isinstance(x, Violation) else Violation(*x) for x in check.judge(plan, obs, refs)]
    return {'violations': v, 'obs': obs}


def obs_digest(obs):
    return digest(obs.get('trace', obs))
