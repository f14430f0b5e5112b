"""C14: basis validation survives whatever the LaTeX process does."""
import collections
import copy
import os

from .. import core, work
from ..core import Violation, outcome
from ..work import World
from ..world import plane

ID = 'C14'
RUNS = {'quick': 3000, 'thorough': 150000}
CAP = {'quick': 300, 'thorough': 1200}
RULE = ('A run validates 1-6 made-up bases, valid and invalid, while the simulated latex program succeeds, rejects certain formulas, exits with any status or '
        'signal, takes up to an hour of simulated time, cannot be started, is missing, is interrupted, writes no, empty, cut, binary or misleading logs and extra files, and while the disk of the temporary '
        'directory fails. Non-trivial: latex was started and behaved unusually.')
REAL = ['wilson/wcxf/classes.py', 'tempfile', 'shutil', 'subprocess.run']
STUBS = ['latex: a simulated program at the place of subprocess.Popen', 'disk: a raw device with faults below the real io stacks']
ASSUMPTIONS = ['Removing the temporary directory itself does not fail.']
STATES = 'distinct (process behaviour, outcome) pairs'

LOGS = ['This is simulated TeX\nOutput written\n', '', '\n', '! Undefined control sequence.', '! Undefined control sequence.\nl.4 \\foo\n', 'x' * 20000 + '\n! Emergency stop.\n<*> a.tex\n',
        'Emergency stop', '\n\n! Undefined control sequence.\nl.4 $C$\n\n! Emergency stop.\n\n', 'Undefined control sequence\r\n\r\n', '\x00\x01\x02 Emergency stop \x00']
EXTRA = [['textest.aux', 'textest.dvi'], ['textest.pdf'], ['missfont.log'], []]


def gen_spec(rng):
    r = rng.random()
    if r < 0.2:
        return {'kind': 'by-source', 'bad_macros': [r'\bad', r'\undefined'], 'extra': rng.choice(EXTRA)}
    if r < 0.3:
        return {'kind': 'missing'}
    if r < 0.42:
        return {'kind': 'spawn-error', 'err': rng.choice(['EACCES', 'ENOMEM', 'EAGAIN', 'ENOEXEC', 'KeyboardInterrupt', 'MemoryError', 'ETXTBSY', 'EMFILE'])}
    s = {'kind': 'exit', 'code': rng.choice([0, 0, 1, 1, 2, 127, 255, -9, -11, -15, 126]), 'extra': rng.choice(EXTRA),
         'write_log': rng.random() < 0.8, 'latin1': rng.random() < 0.25, 'log': rng.choice(LOGS)}
    if rng.random() < 0.1:
        s['wait_interrupt'] = True
    return s


def gen_slow(rng):
    s = gen_spec(rng)
    if s['kind'] in ('exit', 'by-source') and rng.random() < 0.3:
        s['seconds'] = rng.choice([2, 15, 70, 400, 4000])
    return s


def gen_basis(rng):
    secs = {}
    n = 0
    for s in rng.sample(['s1', 's2', 's3', 'odd'] if rng.random() < 0.15 else ['s1', 's2', 's3'], rng.choice([0, 1, 2, 3])):
        secs[s] = {}
        for _ in range(rng.choice([0, 1, 3, 8])):
            tex = rng.choice(['C_9', r'\bar s\gamma_\mu b', r'\bad', r'\undefined x', 'ü', '~', r'\%'] if rng.random() < 0.4 else ['C_9', r'\bar s b', ''])
            secs[s]['c%d' % (n if rng.random() < 0.97 else 0)] = rng.choice([None, {}, {'tex': tex}, {'tex': tex, 'real': True}])
            n += 1
    return {'eft': 'E1' if rng.random() < 0.95 else 'E9', 'basis': 'B1', 'sectors': secs}


def generate(rng, i):
    ops = []
    for _ in range(rng.randint(1, 6)):
        o = {'basis': gen_basis(rng), 'latex': gen_slow(rng)}
        r = rng.random()
        if r < 0.1:
            o['mkdtemp'] = rng.choice(['ENOSPC', 'EACCES', 'EROFS'])
        elif r < 0.25:
            o['tex'] = rng.choice([{'op': 'open', 'err': rng.choice(['ENOSPC', 'EACCES', 'EMFILE'])},
                                   {'op': 'write', 'after': rng.choice([0, 10, 100]), 'err': rng.choice(['ENOSPC', 'EIO', 'KeyboardInterrupt'])},
                                   {'op': 'close', 'err': 'EIO'}, {'op': 'write', 'short': 7}])
        elif r < 0.4:
            o['log'] = rng.choice([{'op': 'open', 'err': rng.choice(['ENOENT', 'EACCES', 'EIO'])},
                                   {'op': 'read', 'after': rng.choice([0, 10]), 'err': rng.choice(['EIO', 'KeyboardInterrupt'])},
                                   {'op': 'read', 'torn': rng.choice([0, 1, 25, 30])}, {'op': 'read', 'short': 1}])
        if rng.random() < 0.2 and not o.get('mkdtemp'):
            # another thread validates while LaTeX runs
            o['meanwhile'] = {'when': rng.choice(['start', 'end']), 'basis': dict(gen_basis(rng), basis='B2'), 'latex': gen_spec(rng)}
        if rng.random() < 0.2:
            o['user'] = rng.choice(['textest.tex', 'textest.log', 'wcxf/textest.tex', 'textest', 'tmp/x', 'wcxf-textest/x'])
        ops.append(o)
    return {'ops': ops, 'faults': []}


class Faults(dict):
    """File faults by base name: the directory has a random name."""

    def __init__(self, o):
        self.o = o

    def get(self, path, default=None):
        b = os.path.basename(path)
        if b.endswith('.tex') and 'tex' in self.o:
            return [self.o['tex']]
        if b.endswith('.log') and 'log' in self.o:
            return [self.o['log']]
        return default


def another(m):
    """What another thread does while LaTeX runs: it validates as well."""
    import threading
    from wilson import wcxf
    keep = plane.latex, plane.latex_seen, plane.files
    plane.latex, plane.latex_seen, plane.files = m['latex'], None, {}
    n = len(plane.spawned)
    out = []

    def f():
        r = outcome(lambda: wcxf.Basis(**copy.deepcopy(m['basis'])).validate())
        out.append(r)
    t = threading.Thread(target=f, daemon=True)
    t.start()
    t.join(60)
    r = out[0] if out else ['err', 'Deadlock', '']
    got = ['ok' if r[0] == 'ok' else r[1], plane.latex_seen, len(plane.spawned) > n]
    plane.latex, plane.latex_seen, plane.files = keep
    return got


def judge_other(out, i, m, res, seen, started):
    what = 'the validation during validation %d (latex %s)' % (i, {k: v for k, v in m['latex'].items() if k != 'log'})
    b, lx = m['basis'], m['latex']
    keys = [k for s in b['sectors'].values() for k in s]
    if b['eft'] != 'E1' or not set(b['sectors']) <= {'s1', 's2', 's3'} or len(keys) != len(set(keys)) or lx['kind'] == 'spawn-error' or lx.get('wait_interrupt'):
        if res == 'ok':
            out.append(Violation('invalid-basis-accepted', '%s succeeds' % what))
        return
    tex = [(d or {}).get('tex', '~') if d is not None else None for s in b['sectors'].values() for d in s.values()]
    code = lx.get('code', 0)
    if lx['kind'] == 'by-source':
        code = 1 if any(x in (t or '') for t in tex for x in lx['bad_macros']) else 0
    want = 'ok' if lx['kind'] == 'missing' or code == 0 else 'ValueError'
    if res != want:
        out.append(Violation('wrong-result-meanwhile', '%s ends with %s instead of %s' % (what, res, want)))


def execute(plan):
    import tempfile
    from wilson import wcxf
    with World(plan) as world, work.Scratch() as sc:
        wcxf.EFT('E1', {'s1': {}, 's2': {}, 's3': {}})
        tmp, cwd = sc.path('tmp'), sc.path('cwd')
        os.mkdir(tmp)
        os.mkdir(cwd)
        os.chdir(cwd)
        tempfile.tempdir = tmp
        real = tempfile.mkdtemp
        made = []

        def mkdtemp(*a, **k):
            if plan['ops'][cur[0]].get('mkdtemp'):
                import errno
                plane.fire('disk:mkdtemp-' + plan['ops'][cur[0]]['mkdtemp'])
                e = getattr(errno, plan['ops'][cur[0]]['mkdtemp'])
                raise OSError(e, os.strerror(e), tmp)
            made.append(1)
            return real(*a, **k)
        tempfile.mkdtemp = mkdtemp
        cur = [0]
        trace = []
        opsC, outC, states = collections.Counter(), collections.Counter(), set()
        odd = 0
        for i, o in enumerate(plan['ops']):
            cur[0] = i
            world.begin(i)
            b = wcxf.Basis(**copy.deepcopy(o['basis']))
            before = copy.deepcopy(b.sectors)
            plane.latex = o['latex']
            plane.latex_seen = None
            plane.files = Faults(o)
            n = dict(plane.fired)
            ns = len(plane.spawned)
            other = []
            if 'meanwhile' in o:
                plane.meanwhile = (o['meanwhile']['when'], lambda: other.append(another(o['meanwhile'])))
            mine = [os.path.join(d, o['user']) for d in ('tmp', 'cwd')] if 'user' in o else []
            for f in mine:
                sc.put(f, 'mine')
            r = outcome(b.validate)
            plane.meanwhile = None
            touched = [f for f in mine if not os.path.exists(sc.path(f)) or sc.get(f) != b'mine']
            for f in mine:
                p = sc.path(f)
                while p not in (tmp, cwd):
                    if os.path.isdir(p):
                        try:
                            os.rmdir(p)
                        except OSError:
                            break
                    elif os.path.exists(p):
                        os.unlink(p)
                    p = os.path.dirname(p)
            plane.files = {}
            fired = {k: v - n.get(k, 0) for k, v in plane.fired.items() if v > n.get(k, 0)}
            world.end()
            left = [f for f in sc.tree() if f not in ('tmp', 'cwd')]
            for f in left:
                import shutil
                shutil.rmtree(sc.path(f), ignore_errors=True)
            started = len(plane.spawned) > ns
            odd += started and o['latex']['kind'] != 'by-source'
            opsC['validate'] += 1
            outC['validate:%s' % (r[0] if r[0] == 'ok' else r[1])] += 1
            trace.append([i, r[0] if r[0] == 'ok' else [r[1], r[2]], fired, len(left), left[:3] and [os.path.basename(f) for f in left[:3]],
                          started, plane.latex_seen, b.sectors == before and not touched, other])
            states.add(core.digest([o['latex'].get('kind'), o['latex'].get('code'), o['latex'].get('log'), trace[-1][1] if trace[-1][1] == 'ok' else trace[-1][1][0]]))
        os.chdir('/')
    return {'trace': [t[:4] + t[5:6] for t in trace], 'full': trace, 'faults': world.faults(), 'ops': opsC, 'outcomes': outC,
            'states': states, 'steps': world.sim.step, 'nontrivial': odd > 0, 'extra': {'simulated_seconds': plane.seconds}}


def judge(plan, obs, refs):
    out = []
    for i, res, fired, left, names, started, seen, same, other in obs['full']:
        o = plan['ops'][i]
        b, lx = o['basis'], o['latex']
        if other and other[0][0] != 'Deadlock':
            judge_other(out, i, o['meanwhile'], *other[0])
        what = 'validation %d (latex %s)' % (i, {k: v for k, v in lx.items() if k != 'log'})
        ok = res == 'ok'
        if left:
            out.append(Violation('files-left', '%s leaves %s behind (outcome %r)' % (what, names, res)))
        if not same:
            out.append(Violation('input-changed', '%s changed the basis or a file that is not its own' % what))
        keys = [k for s in b['sectors'].values() for k in s]
        valid = b['eft'] == 'E1' and set(b['sectors']) <= {'s1', 's2', 's3'} and len(keys) == len(set(keys))
        if not valid:
            if ok:
                out.append(Violation('invalid-basis-accepted', '%s accepts an invalid basis %r' % (what, b)))
            elif res[0] != 'ValueError':
                out.append(Violation('wrong-error', '%s of an invalid basis raises %r' % (what, res)))
            continue
        disk = [k for k in fired if k.startswith('disk:') and k not in ('disk:short-write', 'disk:short-read', 'disk:torn-file')]
        before = [k for k in disk if k.startswith('disk:mkdtemp') or ('tex' in o and not k.startswith('disk:read'))]
        if before and not started:
            # the document could not be written
            if ok:
                out.append(Violation('success-without-check', '%s succeeds although the document could not be written (%s)' % (what, before)))
            continue
        if not started:
            out.append(Violation('success-without-check' if ok else 'wrong-error', '%s: latex was not run: %r' % (what, res)))
            continue
        if lx['kind'] == 'missing':
            if not ok:
                out.append(Violation('wrong-error', '%s: without latex validation raises %r' % (what, res)))
            continue
        if lx['kind'] == 'spawn-error' or lx.get('wait_interrupt'):
            if ok:
                out.append(Violation('success-without-check', '%s succeeds although latex could not be run' % what))
            continue
        tex = [(d or {}).get('tex', '~') if d is not None else None for s in b['sectors'].values() for d in s.values()]
        if seen is not None:
            miss = [t for t in tex if t is not None and t not in seen]
            if miss:
                out.append(Violation('formula-not-checked', '%s: latex did not see %r' % (what, miss[:3])))
        if lx['kind'] == 'by-source':
            code = 1 if any(m in (t or '') for t in tex for m in lx['bad_macros']) else 0
        else:
            code = lx.get('code', 0)
        unreadable = [k for k in disk if k not in before]
        if code == 0:
            if not ok and not unreadable:
                out.append(Violation('wrong-error', '%s: latex succeeds but validation raises %r' % (what, res)))
        else:
            if ok:
                out.append(Violation('failure-accepted', '%s: latex fails but validation succeeds' % what))
            elif res[0] != 'ValueError' and not unreadable:
                out.append(Violation('wrong-error', '%s: latex fails and validation raises %r instead of reporting it' % (what, res)))
    return out


def fix_shrunk(plan, path, removed):
    return plan
