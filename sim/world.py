"""Seams of the simulated world.  `install()` must run before `wilson` is
imported: every library entry point the package's behaviour depends on is
wrapped at its source, so that `from x import y` in the package picks up the
wrapped object.  All wrappers are transparent until a run activates faults.

  definition files  the (empty) submodule directory wilson/wcxf/bases is served
                    from /verif/sim/defs: a stub, see DESIGN.md
  disk              file objects opened below the run's scratch directory (and
                    the definition files) are real io stacks over a raw device
                    that can fail, run short or run full; directory listings
                    can be permuted
  processes         subprocess.Popen for `latex` is a simulated program
  libraries         ODE solver, root finder, linear algebra, rundec, ckmutil,
                    pkgutil: can fail at a chosen call
  randomness        module `random` seeded per run
  addresses         id() in the package: the number of an object that is gone
                    is given to the next one
"""
import os
import io
import sys
import errno
import builtins
import collections
import heapq
import weakref

HERE = os.path.dirname(os.path.abspath(__file__))
BASES = '/repo/wilson/wcxf/bases'
DEFS = os.path.join(HERE, 'defs')


class Plane:
    """The fault plane of one run."""

    def __init__(self):
        self.reset()

    def reset(self):
        self.active = False
        self.lib = {}            # library name -> {call number: action}
        self.calls = collections.Counter()
        self.fired = collections.Counter()
        self.roots = []          # real directories under simulation
        self.files = {}          # path -> file fault dict
        self.opens = collections.Counter()
        self.spent = set()       # transient faults that have happened
        self.listing_seed = None
        self.listing_err = None
        self.listing_only = None # only the directory of this name
        self.latex = None
        self.meanwhile = None           # what somebody else does while latex runs
        self.spawned = []
        self.seconds = 0         # simulated time spent in processes
        self.log = []
        self.label = None        # optional restriction: only when callable() is true

    def happens(self, when):
        if self.meanwhile and self.meanwhile[0] == when:
            f, self.meanwhile = self.meanwhile[1], None
            f()

    def fire(self, what):
        self.fired[what] += 1
        self.log.append(what)


plane = Plane()


def lib_fault(name):
    """Count a call of library function `name`; return the planned action."""
    if not plane.active:
        return None
    plane.calls[name] += 1
    f = plane.lib.get(name)
    if not f:
        return None
    a = f.get(str(plane.calls[name])) or f.get('*')
    if a:
        plane.fire('lib:%s:%s' % (name, a if isinstance(a, str) else a[0]))
    return a


def _raise(a):
    import numpy as np
    return {
        'MemoryError': MemoryError('injected'),
        'KeyboardInterrupt': KeyboardInterrupt('injected'),
        'LinAlgError': np.linalg.LinAlgError('injected: did not converge'),
        'RuntimeError': RuntimeError('injected: Failed to converge'),
        'FloatingPointError': FloatingPointError('injected'),
        'ValueError': ValueError('injected'),
        'OSError': OSError(errno.EIO, 'injected I/O error'),
    }[a]


def _wrap_raise(mod, attr, name):
    real = getattr(mod, attr)

    def wrapper(*a, **k):
        act = lib_fault(name)
        if act:
            raise _raise(act)
        return real(*a, **k)
    wrapper.__name__ = getattr(real, '__name__', attr)
    wrapper.__doc__ = getattr(real, '__doc__', None)
    wrapper.__wrapped__ = real
    setattr(mod, attr, wrapper)


# ---------------------------------------------------------------------------
# paths

def _map(p):
    """Redirect a path below the definitions directory."""
    if isinstance(p, str):
        if p.startswith(BASES) and (len(p) == len(BASES) or p[len(BASES)] == '/'):
            return DEFS_ROOT[0] + p[len(BASES):]
        # un-normalised forms
        if 'wcxf' in p and 'bases' in p:
            q = os.path.normpath(p)
            if q.startswith(BASES) and (len(q) == len(BASES) or q[len(BASES)] == '/'):
                return DEFS_ROOT[0] + q[len(BASES):]
        return p
    if hasattr(p, '__fspath__'):
        s = p.__fspath__()
        if isinstance(s, str):
            q = _map(s)
            return q if q != s else p
    return p


DEFS_ROOT = [DEFS]


def _spent(f):
    return id(f) in plane.spent


def _spend(f):
    if f.get('once'):
        plane.spent.add(id(f))


class RawDevice(io.RawIOBase):
    """A raw file over a descriptor, with faults.

    fault: {'op': 'read'|'write'|'close', 'after': bytes, 'err': 'EIO'|...,
            'short': max bytes per transfer, 'torn': deliver only that many
            bytes, then end of file, 'once': the error goes away after it
            happened}
    """

    def __init__(self, fd, mode, path, faults):
        self._fd = fd
        self._r = 'r' in mode or '+' in mode
        self._w = any(c in mode for c in 'wax+')
        self.path = path
        self.faults = faults or []
        self.nread = 0
        self.nwritten = 0
        self.name = path
        self.mode = mode

    def readable(self):
        return self._r

    def writable(self):
        return self._w

    def seekable(self):
        return not any(f.get('pipe') for f in self.faults)

    def seek(self, off, whence=0):
        if not self.seekable():
            raise io.UnsupportedOperation('seek')
        return os.lseek(self._fd, off, whence)

    def tell(self):
        if not self.seekable():
            raise io.UnsupportedOperation('tell')
        return os.lseek(self._fd, 0, 1)

    def truncate(self, n=None):
        os.ftruncate(self._fd, self.tell() if n is None else n)
        return n

    def fileno(self):
        if self._fd is None:
            raise ValueError('closed')
        return self._fd

    def isatty(self):
        return False

    def readinto(self, buf):
        n = len(buf)
        for f in self.faults:
            if f['op'] != 'read':
                continue
            if 'short' in f:
                if n > f['short']:
                    plane.fire('disk:short-read')
                n = min(n, max(1, f['short']))
            if 'torn' in f:
                left = f['torn'] - self.nread
                if left < n:
                    plane.fire('disk:torn-file')
                n = max(0, min(n, left))
            if 'err' in f and not _spent(f):
                left = f['after'] - self.nread
                if left <= 0:
                    _spend(f)
                    plane.fire('disk:read-' + f['err'])
                    if f['err'] == 'kill':
                        os._exit(9)
                    if f['err'] == 'KeyboardInterrupt':
                        raise KeyboardInterrupt('injected')
                    e = getattr(errno, f['err'])
                    raise OSError(e, os.strerror(e), self.path)
                n = min(n, left)
        if n <= 0:
            return 0
        data = os.read(self._fd, n)
        buf[:len(data)] = data
        self.nread += len(data)
        return len(data)

    def write(self, data):
        data = bytes(data)
        n = len(data)
        for f in self.faults:
            if f['op'] != 'write':
                continue
            if 'short' in f:
                if n > f['short']:
                    plane.fire('disk:short-write')
                n = min(n, max(1, f['short']))
            if 'err' in f and not _spent(f):
                left = f['after'] - self.nwritten
                if left <= 0:
                    _spend(f)
                    plane.fire('disk:write-' + f['err'])
                    if f['err'] == 'kill':
                        os._exit(9)
                    if f['err'] == 'KeyboardInterrupt':
                        raise KeyboardInterrupt('injected')
                    e = getattr(errno, f['err'])
                    raise OSError(e, os.strerror(e), self.path)
                n = min(n, left)
        k = os.write(self._fd, data[:n])
        self.nwritten += k
        return k

    def close(self):
        if self._fd is None:
            return
        try:
            super().close()
        finally:
            fd, self._fd = self._fd, None
            try:
                if any(f['op'] == 'close' for f in self.faults) and not self.path.startswith('<std'):
                    # such an error means that data did not reach the disk
                    try:
                        os.ftruncate(fd, max(0, os.fstat(fd).st_size - 512))
                    except OSError:
                        pass                # not open for writing
                os.close(fd)
            finally:
                for f in self.faults:
                    if f['op'] == 'close':
                        plane.fire('disk:close-' + f['err'])
                        e = getattr(errno, f['err'])
                        raise OSError(e, os.strerror(e), self.path)


def _faulty_open(path, mode='r', buffering=-1, encoding=None, errors=None,
                 newline=None, closefd=True, opener=None, fd=None):
    if '.pyc' in os.path.basename(path) or '__pycache__' in path:
        return _real_open(path if fd is None else fd, mode, buffering, encoding, errors, newline, closefd, opener)
    plane.opens[path] += 1
    faults = list(plane.files.get(path, ()))
    for f in faults:
        if f['op'] == 'open' and fd is None and not _spent(f):
            _spend(f)
            plane.fire('disk:open-' + f['err'])
            e = getattr(errno, f['err'])
            raise OSError(e, os.strerror(e), path)
    binary = 'b' in mode
    m = mode.replace('b', '').replace('t', '')
    flags = {'r': os.O_RDONLY, 'w': os.O_WRONLY | os.O_CREAT | os.O_TRUNC,
             'a': os.O_WRONLY | os.O_CREAT | os.O_APPEND,
             'x': os.O_WRONLY | os.O_CREAT | os.O_EXCL,
             'r+': os.O_RDWR, 'w+': os.O_RDWR | os.O_CREAT | os.O_TRUNC,
             'a+': os.O_RDWR | os.O_CREAT | os.O_APPEND}.get(m)
    if flags is None:
        return _real_open(path if fd is None else fd, mode, buffering, encoding, errors, newline, closefd, opener)
    if fd is None:
        fd = opener(path, flags) if opener else os.open(path, flags | os.O_CLOEXEC, 0o666)
    raw = RawDevice(fd, mode, path, [f for f in faults if f['op'] in ('read', 'write', 'close')])
    return stack(raw, mode, buffering, encoding, errors, newline, line_buffering=buffering == 1)


def stack(raw, mode, buffering=-1, encoding=None, errors=None, newline=None, line_buffering=False):
    """The io stack Python itself would build over the raw device."""
    binary = 'b' in mode
    if buffering == 0:
        return raw
    size = 8192 if buffering in (-1, 1) else buffering
    if '+' in mode:
        b = io.BufferedRandom(raw, size)
    elif 'r' in mode:
        b = io.BufferedReader(raw, size)
    else:
        b = io.BufferedWriter(raw, size)
    if binary:
        return b
    t = io.TextIOWrapper(b, encoding or 'utf-8', errors, newline, line_buffering)
    t.mode = mode
    return t


_real_open = builtins.open


def _sim_open(file, mode='r', buffering=-1, encoding=None, errors=None,
              newline=None, closefd=True, opener=None):
    p = _map(file)
    s = p if isinstance(p, str) else (p.__fspath__() if hasattr(p, '__fspath__') else None)
    if plane.active and isinstance(s, str) and plane.roots:
        a = os.path.abspath(s)
        if any(a == r or a.startswith(r + '/') for r in plane.roots):
            return _faulty_open(a, mode, buffering, encoding, errors, newline, closefd, opener)
    if plane.active and type(p) is int and p > 2 and closefd and plane.roots:
        try:
            a = os.readlink('/proc/self/fd/%d' % p)
        except OSError:
            a = ''
        if any(a.startswith(r + '/') for r in plane.roots):
            return _faulty_open(a, mode, buffering, encoding, errors, newline, fd=p)
    return _real_open(p, mode, buffering, encoding, errors, newline, closefd, opener)


def _install_paths():
    builtins.open = _sim_open
    io.open = _sim_open
    import random as _r

    def listing_fault(path):
        if plane.listing_err and (not plane.listing_only or os.path.basename(str(path).rstrip('/')) == plane.listing_only):
            plane.fire('disk:listing-' + plane.listing_err)
            e = getattr(errno, plane.listing_err)
            raise OSError(e, os.strerror(e), str(path))

    def permute(names, path):
        if plane.active and plane.listing_seed is not None:
            rng = _r.Random('%s|%s' % (plane.listing_seed, os.path.basename(str(path))))
            names = sorted(names, key=lambda n: n if isinstance(n, (str, bytes)) else n.name)
            rng.shuffle(names)
            plane.fire('disk:listing-order')
        return names

    r_listdir, r_scandir = os.listdir, os.scandir

    def listdir(path='.'):
        q = _map(path)
        if _simulated(q):
            listing_fault(path)
        names = r_listdir(q)
        return permute(names, path) if _simulated(q) else names

    class Scan:
        def __init__(self, it):
            self._it = iter(it)

        def __iter__(self):
            return self

        def __next__(self):
            return next(self._it)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            pass

        def close(self):
            pass

    def scandir(path='.'):
        q = _map(path)
        if not _simulated(q):
            return r_scandir(q)
        listing_fault(path)
        with r_scandir(q) as it:
            ents = list(it)
        return Scan(permute(ents, path))

    def _simulated(q):
        if not plane.active or not isinstance(q, (str, os.PathLike)):
            return False
        a = os.path.abspath(os.fspath(q))
        if isinstance(a, bytes):
            return False
        return a.startswith(DEFS_ROOT[0]) or any(a == r or a.startswith(r + '/') for r in plane.roots)
    os.listdir, os.scandir = listdir, scandir
    for fn in ('stat', 'lstat', 'access', 'open', 'readlink'):
        real = getattr(os, fn)

        def w(path, *a, _real=real, **k):
            return _real(_map(path), *a, **k)
        w.__name__ = fn
        # os.open is used by tempfile/shutil through the os module as well
        setattr(os, fn, w)
    os.supports_dir_fd |= {os.open, os.stat}
    os.supports_fd |= {os.listdir, os.scandir}
    os.supports_follow_symlinks |= {os.stat}
    # glob in 3.12 goes through os.scandir/os.lstat/os.path; os.path functions
    # implemented in C (none on posix) would bypass the redirect
    import importlib.machinery as im
    r_get = im.SourceFileLoader.get_data

    def get_data(self, path):
        return r_get(self, _map(path))
    im.SourceFileLoader.get_data = get_data
    import pkgutil
    r_pk = pkgutil.get_data

    def pk(package, resource):
        a = lib_fault('pkgutil.get_data')
        if a:
            raise _raise(a)
        return r_pk(package, resource)
    pkgutil.get_data = pk


# ---------------------------------------------------------------------------
# libraries

def _install_libs():
    import numpy as np
    import scipy.integrate
    import scipy.integrate._ivp.ivp as ivp
    import scipy.optimize
    import rundec
    import ckmutil.diag, ckmutil.phases, ckmutil.ckm

    real_ivp = scipy.integrate.solve_ivp

    def solve_ivp(fun, t_span, y0, *a, **k):
        act = lib_fault('solve_ivp')
        if not act:
            return real_ivp(fun, t_span, y0, *a, **k)
        if act[0] == 'incomplete':
            # what scipy returns when the required step size falls below the
            # spacing between numbers: the solution so far, status -1
            frac = act[1]
            t0, t1 = t_span
            if len(act) > 2:               # after at least so many steps
                k = dict(k, max_step=abs(frac * (t1 - t0)) / act[2] or 1.0)
            sol = real_ivp(fun, (t0, t0 + frac * (t1 - t0)), y0, *a, **k)
            sol.status = -1
            sol.success = False
            sol.message = 'Required step size is less than spacing between numbers.'
            return sol
        raise _raise(act if isinstance(act, str) else act[0])
    solve_ivp.__wrapped__ = real_ivp
    scipy.integrate.solve_ivp = solve_ivp

    real_brentq = scipy.optimize.brentq

    def brentq(*a, **k):
        act = lib_fault('brentq')
        if act == 'unconverged':
            # scipy itself then reports the lack of convergence, in the way
            # the caller asked for
            return real_brentq(*a[:3], *a[3:4], **dict(k, maxiter=2))
        if act:
            raise _raise(act if isinstance(act, str) else act[0])
        return real_brentq(*a, **k)
    brentq.__wrapped__ = real_brentq
    scipy.optimize.brentq = brentq
    for n in ('eig', 'inv', 'svd'):
        _wrap_raise(np.linalg, n, 'linalg.' + n)
    _wrap_raise(np, 'einsum', 'einsum')
    for mod, names in ((ckmutil.diag, ('msvd', 'mtakfac')),
                       (ckmutil.phases, ('rephase_standard', 'rephase_pmns_standard'))):
        for n in names:
            if hasattr(mod, n):
                _wrap_raise(mod, n, 'ckmutil')
    _wrap_raise(ckmutil.ckm, 'ckm_tree', 'ckm_tree')

    Real = rundec.CRunDec

    class CRunDec(Real):
        pass

    def meth(name):
        real = getattr(Real, name)

        def m(self, *a):
            if name == 'AlphasExact' and lib_fault('alphas'):
                return 0.0           # what RunDec returns where it finds no solution
            act = lib_fault('rundec')
            if act:
                raise _raise(act)
            return real(self, *a)
        m.__name__ = name
        return m
    for n in ('AlphasExact', 'AlH2AlL', 'AlL2AlH', 'mMS2mMS', 'mH2mL', 'mL2mH',
              'LamExpl', 'LamImpl', 'AlphasLam'):
        if hasattr(Real, n):
            setattr(CRunDec, n, meth(n))
    rundec.CRunDec = CRunDec


# ---------------------------------------------------------------------------
# the simulated `latex`

def _install_processes():
    import subprocess
    Real = subprocess.Popen

    class Popen(Real):
        """`latex` is simulated; nothing else may be started during a run."""

        def __init__(self, args, *a, **k):
            if not plane.active:
                return super().__init__(args, *a, **k)
            argv = [args] if isinstance(args, str) else [os.fspath(x) for x in args]
            if k.get('shell') and isinstance(args, str):
                import shlex
                argv = shlex.split(args)
            plane.spawned.append(argv)
            self.args = args
            self.stdin = self.stdout = self.stderr = None
            self.pid = 4000000
            self.returncode = None
            self._sim = True
            self._child_created = False
            self.text_mode = None
            spec = plane.latex or {'kind': 'missing'}
            plane.happens('start')
            base = os.path.basename(argv[0])
            if base not in ('latex', 'pdflatex', 'lualatex', 'xelatex') or spec['kind'] == 'missing':
                plane.fire('latex:missing')
                raise FileNotFoundError(errno.ENOENT, 'No such file or directory', argv[0])
            if spec['kind'] == 'spawn-error':
                plane.fire('latex:spawn-' + spec['err'])
                if spec['err'] == 'KeyboardInterrupt':
                    raise KeyboardInterrupt('injected')
                if spec['err'] == 'MemoryError':
                    raise MemoryError('injected')
                e = getattr(errno, spec['err'])
                raise OSError(e, os.strerror(e), argv[0])
            self._left = spec.get('seconds', 0)      # simulated duration
            self._code = run_latex(argv, k.get('cwd'), spec)
            plane.happens('end')
            if k.get('stdout') == subprocess.PIPE:
                self.stdout = io.BytesIO(b'This is simulated TeX\n')
                if k.get('text') or k.get('universal_newlines') or k.get('encoding'):
                    self.stdout = io.StringIO('This is simulated TeX\n')
            if k.get('stderr') == subprocess.PIPE:
                self.stderr = io.BytesIO(b'')
                if k.get('text') or k.get('universal_newlines') or k.get('encoding'):
                    self.stderr = io.StringIO('')

        def __del__(self, *a, **k):
            if not getattr(self, '_sim', False):
                try:
                    super().__del__(*a, **k)
                except Exception:
                    pass

        def poll(self):
            if not getattr(self, '_sim', False):
                return super().poll()
            if self._left > 0:
                self._left -= 1
                return self.returncode
            return self._finish()

        def wait(self, timeout=None):
            if not getattr(self, '_sim', False):
                return super().wait(timeout)
            self._pass(timeout)
            return self._finish()

        def _pass(self, timeout):
            """Let simulated time pass until the program ends, or until the
            caller stops waiting for it."""
            if self.returncode is None and self._left:
                plane.fire('latex:slow')
                if timeout is not None and self._left > timeout:
                    self._left -= timeout
                    plane.seconds += timeout
                    raise subprocess.TimeoutExpired(self.args, timeout)
                plane.seconds += self._left
                self._left = 0

        def _finish(self):
            if self.returncode is None:
                if isinstance(self._code, str):
                    c, self._code = self._code, -2
                    plane.fire('latex:wait-' + c)
                    raise KeyboardInterrupt('injected')
                self.returncode = self._code
            return self.returncode

        def communicate(self, input=None, timeout=None):
            if not getattr(self, '_sim', False):
                return super().communicate(input, timeout)
            self._pass(timeout)
            self._finish()
            return (self.stdout.read() if self.stdout else None,
                    self.stderr.read() if self.stderr else None)

        def kill(self):
            if not getattr(self, '_sim', False):
                return super().kill()
            if self._left:
                self._left, self._code = 0, -9

        def terminate(self):
            if not getattr(self, '_sim', False):
                return super().terminate()
            if self._left:
                self._left, self._code = 0, -9

        def send_signal(self, sig):
            if not getattr(self, '_sim', False):
                return super().send_signal(sig)
            if self._left:
                self._left, self._code = 0, -9

        def __enter__(self):
            return self

        def __exit__(self, *a):
            if not getattr(self, '_sim', False):
                return super().__exit__(*a)
            if self.returncode is None:
                try:
                    self._pass(None)
                    self._finish()
                except KeyboardInterrupt:
                    pass
    subprocess.Popen = Popen


def run_latex(argv, cwd, spec):
    """The simulated program: reads the .tex file, writes a log, returns the
    exit status (a string means: interrupted while waiting)."""
    outdir = cwd or '.'
    tex = None
    it = iter(argv[1:])
    for a in it:
        if a in ('-output-directory', '--output-directory'):
            outdir = next(it, '.')
        elif a.startswith(('-output-directory=', '--output-directory=')):
            outdir = a.split('=', 1)[1]
        elif not a.startswith('-'):
            tex = a
    plane.latex_seen = None
    try:
        with _real_open(tex if os.path.isabs(tex) else os.path.join(cwd or '.', tex)) as f:
            plane.latex_seen = f.read()
    except Exception:
        pass
    kind = spec['kind']
    if kind != 'by-source':
        plane.fire('latex:' + kind)
    base = os.path.splitext(os.path.basename(tex or 'texput.tex'))[0]
    log = os.path.join(outdir, base + '.log')
    body = spec.get('log', 'This is simulated TeX\nOutput written\n')
    bad = plane.latex_seen is not None and any(m in plane.latex_seen for m in spec.get('bad_macros', ()))
    if kind == 'by-source':
        # succeed or fail depending on the document, as the real program does
        if bad:
            m = [m for m in spec['bad_macros'] if m in plane.latex_seen][0]
            body = 'This is simulated TeX\n\n! Undefined control sequence.\nl.4 ... %s\n  more context\n\nHere is how much\n' % m
            code = 1
            plane.fire('latex:rejects-source')
        else:
            code = 0
    else:
        code = spec.get('code', 0)
    if spec.get('write_log', True):
        data = body.encode('latin-1' if spec.get('latin1') else 'utf-8', 'replace')
        if spec.get('latin1'):
            data += b'\xff\xfe broken bytes \xe9\n'
        with _real_open(log, 'wb') as f:
            f.write(data)
    for extra in spec.get('extra', ()):
        with _real_open(os.path.join(outdir, extra), 'wb') as f:
            f.write(b'x')
    if spec.get('wait_interrupt'):
        return 'KeyboardInterrupt'
    return code


# --- addresses of objects ---------------------------------------------------

_free, _ids = [], {}


def sim_id(obj):
    """id() as the package sees it: the number of an object that is gone is
    given to the next one that asks, as memory allocators do."""
    k = _real_id(obj)
    e = _ids.get(k)
    if e is not None and e[0]() is obj:
        return e[1]
    _forget(k)
    try:
        ref = weakref.ref(obj, lambda _, k=k: _forget(k))
    except TypeError:
        return k
    n = heapq.heappop(_free) if _free else 4096 + 16 * len(_ids)
    _ids[k] = (ref, n)
    return n


def _forget(k):
    e = _ids.pop(k, None)
    if e:
        heapq.heappush(_free, e[1])


_real_id = id


def install_ids():
    """Called when the package is imported."""
    for name, m in list(sys.modules.items()):
        if name.split('.')[0] == 'wilson' and m is not None and 'id' not in vars(m):
            vars(m)['id'] = sim_id


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    from . import sched
    _install_paths()
    _install_libs()
    _install_processes()
    sched.install_locks()
