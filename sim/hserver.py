"""A booted interpreter with the hash seed of its environment, which executes
requests in forked children.  stdin/stdout: pickled (id, check, function, args)
-> (id, result), each preceded by its length."""
import importlib
import os
import pickle
import struct
import sys


def read_n(fd, n):
    out = b''
    while len(out) < n:
        b = os.read(fd, n - len(out))
        if not b:
            return None
        out += b
    return out


def recv(fd):
    h = read_n(fd, 8)
    if h is None:
        return None
    b = read_n(fd, struct.unpack('>q', h)[0])
    return None if b is None else pickle.loads(b)


def send(fd, x):
    from .core import _write_all
    b = pickle.dumps(x)
    _write_all(fd, struct.pack('>q', len(b)) + b)


def main(name):
    from . import core, runner
    inp, out = os.dup(0), os.dup(1)
    null = os.open('/dev/null', os.O_RDWR)
    os.dup2(null, 0)
    os.dup2(null, 1)
    check = importlib.import_module('sim.checks.' + name.lower())
    runner.boot(check)
    send(out, ('ready', os.environ.get('PYTHONHASHSEED')))
    while True:
        m = recv(inp)
        if m is None:
            return
        send(out, (m[0], core.fork_call(getattr(check, m[1]), *m[2], timeout=200)))


class Pool:
    """Servers, one per hash seed, started on demand by the worker; the forked
    children of the worker use the same pipes, one at a time."""

    def __init__(self, name):
        self.name = name
        self.procs = {}
        self.n = 0

    def ensure(self, seeds):
        import subprocess
        for s in seeds:
            if s in self.procs:
                continue
            if len(self.procs) >= 6:
                self.close(next(iter(self.procs)))
            env = dict(os.environ, PYTHONHASHSEED=str(s))
            p = subprocess.Popen([sys.executable, '-m', 'sim.hserver', self.name], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                 env=env, cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))), bufsize=0, preexec_fn=_die_with_parent)
            self.procs[s] = p
        for s in seeds:
            p = self.procs[s]
            if not hasattr(p, 'is_ready'):
                r = recv(p.stdout.fileno())
                if not r or r[1] != str(s):
                    from .core import HarnessError
                    raise HarnessError('server for hash seed %s: %r' % (s, r))
                p.is_ready = True

    def close(self, s):
        p = self.procs.pop(s)
        p.stdin.close()
        p.stdout.close()
        p.kill()
        p.wait()

    def ask(self, s, fn, *args):
        p = self.procs[s]
        key = os.urandom(8)
        send(p.stdin.fileno(), (key, fn, args))
        while True:
            r = recv(p.stdout.fileno())
            if r is None:
                raise RuntimeError('server ended')
            if r[0] == key:
                return r[1]


def _die_with_parent():
    from .core import _libc
    if _libc is not None:
        _libc.prctl(1, 9)


if __name__ == '__main__':
    main(sys.argv[1])
