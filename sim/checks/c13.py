"""C13: EOS conversion is independent of directory enumeration and
all-or-nothing."""
import collections
import copy
import json

from .. import core, work
from ..core import Violation, outcome
from ..work import World
from ..world import plane

ID = 'C13'
RUNS = {'quick': 2500, 'thorough': 100000}
CAP = {'quick': 300, 'thorough': 1200}
RULE = ('A run makes an EOS directory with 0-7 parameter files (relevant, irrelevant, hidden, other extensions, overlapping, unlisted leftovers) and coefficients, and reads and '
        'converts it 2-7 times under different listing orders, while files are changed, removed, lost and added, with errors at a chosen byte of a file, unreadable files or directory, short reads and '
        'exceptions at a chosen line. Non-trivial: two conversions with different listing orders returned.')
REAL = ['wilson/wcxf/converters/eos.py', 'wilson/wcxf/classes.py', 'pyyaml']
STUBS = ['EOS installation: made-up parameter files in the layout of EOS', 'disk: a raw device with faults below the real io stacks; directory order chosen by the seed']
ASSUMPTIONS = ['If two relevant files contain the same parameter, any of the two may win, but always the same one.']
STATES = 'distinct (listing order, failing file and position)'

NAMES = ['b->s::c1', "b->s::c1'", 'b->s::Re{c7}', 'b->s::Im{c7}', "b->s::Re{c7'}", "b->s::Im{c7'}", 'b->smumu::Re{c9}', 'b->smumu::Im{c9}', 'b->smumu::Re{cT5}',
         'b->ulnu::Re{cVL}', 'b->ulnu::Im{cVL}', 'b->ulnu::Re{cSL}', 'b->ulnu::Im{cSL}', 'b->clnu::Re{cT}', 'b->clnu::Im{cT}',
         'b->utaunutau::Re{cVL}', 'sbsb::c1', 'sbsb::Re{c2}', 'sbsb::Im{c2}', 'mass::b(MSbar)', 'Recoil', 'b->s::Im{c8}']


def base(name):
    for t in ('Re{', 'Im{'):
        if t in name:
            return name.replace(t, '').replace('}', '', 1)
    return name


# what is left of a file after a crash
GOOD = b"'@metadata@': {wcxf-relevant: true}\n'b->s::Im{c7}': {central: 1.0, max: 1.0, min: 0.0"
BROKEN = {'EMPTY': b'', 'BYTES': GOOD + b', latex: \xff\xfe}\n', 'ZEROS': GOOD + 40 * b'\0', 'CUT': GOOD, 'LATIN1': b'# m\xfcll\n' + GOOD + b'}\n', 'GAP': GOOD + b'}\n\0\0\0\n',
          'TAB': b'\t' + GOOD + b'}\n', 'HALF-KEY': GOOD + b"}\n'b->s::Re{c"}


def gen_files(rng):
    files = {}
    names = NAMES[:]
    rng.shuffle(names)
    for j in range(rng.choice([0, 1, 2, 3, 4, 7])):
        k = rng.choice([0, 1, 3, 6])
        ps = [names.pop() for _ in range(min(k, len(names)))]
        if rng.random() < 0.2:
            ps += rng.sample(NAMES, 2)           # may overlap with another file
        d = {}
        for p in ps:
            d[p] = {'central': round(rng.uniform(-2, 2), 6), 'min': round(rng.uniform(-3, 0), 4), 'max': round(rng.uniform(0, 3), 4)}
            if rng.random() < 0.2:
                d[p]['latex'] = r'$C_{9}$'
        rel = rng.choice([True, True, True, False, None])
        meta = {} if rel is None else {'wcxf-relevant': rel}
        if rng.random() < 0.3:
            meta['title'] = 'x' * rng.choice([1, 9000])
        fn = rng.choice(['b', 'B', 'z', 'a10', 'a9', '0', '_x', 'ü', 'sm wcs'])
        fn = '%s%d%s' % (fn, j, rng.choice(['.yaml', '.yaml', '.yaml', '.yaml', '.yml', '.txt', '.yaml~', '.YAML.orig']))
        if rel is not None or rng.random() < 0.5:
            d = dict({'@metadata@': meta}, **d) if rng.random() < 0.7 else dict(d, **{'@metadata@': meta})
        if not d:
            d = {'@metadata@': {}}
        files[fn] = d
    return files


def gen_wc(rng, files):
    ps = [p for d in files.values() for p in d if p != '@metadata@'] or NAMES
    vals = {}

    def num():
        x = round(rng.uniform(-1, 1), 4)
        return rng.choice([x, {'Re': x, 'Im': round(rng.uniform(-1, 1), 4)}, {'Re': 0.0, 'Im': x}])
    for _ in range(rng.choice([0, 1, 3, 6])):
        p = rng.choice(ps)
        b = base(p)
        if 'lnu' in b:
            v = num()
            vals[b.replace('lnu', 'enue')] = v
            r = rng.random()
            if r < 0.85:
                vals[b.replace('lnu', 'munumu')] = v
            elif r < 0.9:
                vals[b.replace('lnu', 'munumu')] = num()
            elif r < 0.95:
                # zero is the same for all leptons, given or not
                vals[b.replace('lnu', 'munumu')] = rng.choice([0, 0.0, {'Re': 0.0, 'Im': 0.0}])
                del vals[b.replace('lnu', 'enue')]
        elif rng.random() < 0.15:
            vals[p] = num()                          # literally the EOS name
        else:
            vals[b] = num()
    if rng.random() < 0.2:
        vals['not::in-EOS'] = 1.0
    return vals


def generate(rng, i):
    files = gen_files(rng)
    ops, faults = [], []
    for j in range(rng.randint(2, 7)):
        o = {'listing': rng.randrange(1000), 'values': gen_wc(rng, files), 'ff': {}}
        r = rng.random()
        if files and r < 0.35:
            fn = rng.choice(list(files))
            size = len(json.dumps(files[fn]))
            o['ff'][fn] = [rng.choice([{'op': 'read', 'after': rng.choice([0, 1, size // 2, size - 1, rng.randrange(size + 1)]),
                                        'err': rng.choice(['EIO', 'ESTALE', 'KeyboardInterrupt', 'EISDIR'])},
                                       {'op': 'open', 'err': rng.choice(['EACCES', 'ENOENT', 'EIO', 'EMFILE'])},
                                       {'op': 'read', 'short': rng.choice([1, 7])}])]
        elif r < 0.4:
            o['listing_err'] = rng.choice(['EACCES', 'EIO', 'ENOENT'])
        elif r < 0.43:
            o['dir'] = 'nowhere'
        ops.append(o)
    # the installation changes, or a file is lost
    cur = files
    for o in ops[1:]:
        r = rng.random()
        if r < 0.15:
            cur = gen_files(rng)
        elif r < 0.35 and cur:
            cur = copy.deepcopy(cur)
            fn = rng.choice(list(cur))
            x = rng.random()
            ps = [] if isinstance(cur[fn], str) else [k for k in cur[fn] if k != '@metadata@']
            if x < 0.3:
                del cur[fn]
            elif x < 0.5:
                cur[fn] = rng.choice(list(BROKEN))
            elif x < 0.6:
                cur['new.yaml'] = cur.pop(fn)
            elif ps:
                if rng.random() < 0.5:
                    del cur[fn][rng.choice(ps)]
                else:
                    cur[fn][rng.choice(ps)]['central'] = round(rng.uniform(-2, 2), 6)
        else:
            continue
        o['files'] = cur
        o['ff'] = {k: v for k, v in o['ff'].items() if k in cur and not isinstance(cur[k], str)}
    for o in ops:
        if rng.random() < 0.3:
            o['spoil'] = 1
    if rng.random() < 0.3:
        j = rng.randrange(len(ops))
        ex = ['c13-example']

        def make():
            plane.reset()
            plane.active = True
            sc = work.Scratch().__enter__()
            d = {'b->ulnu::Re{cVL}': {'central': 1.0, 'min': 0.0, 'max': 1.0}, 'b->s::Im{c7}': {'central': 1.0, 'min': 0.0, 'max': 1.0}}
            put(sc, {'a.yaml': dict(d, **{'@metadata@': {'wcxf-relevant': True}}), 'b.yaml': {'@metadata@': {}}})
            return lambda: (run(sc, {'values': {'b->uenue::cVL': 1.0, 'b->umunumu::cVL': 1.0, 'b->s::c7': 2.0}}), sc.__exit__())
        loc = work.pick_line(rng, work.lines_for(ex, make), ('wilson/wcxf/converters/eos.py',))
        if loc:
            faults.append({'op': j, 'at': ['0.%d' % j, loc[0], loc[1]], 'do': 'raise', 'exc': rng.choice(['KeyboardInterrupt', 'MemoryError'])})
    return {'files': files, 'ops': ops, 'faults': faults}


def put(sc, files):
    import yaml
    for fn, d in files.items():
        sc.put('share/eos/parameters/' + fn, BROKEN[d] if isinstance(d, str) else yaml.safe_dump(d, allow_unicode=True))
    sc.put('share/eos/parameters/sub.d/inner.txt', 'x')
    sc.put('share/eos/parameters/.hidden.yaml', yaml.safe_dump({'@metadata@': {'wcxf-relevant': True}, 'hidden::x': {'central': 1.0}}))


def run(sc, o):
    from wilson import wcxf
    from wilson.wcxf.converters import eos
    sm = eos.get_sm_wcs(sc.path(o.get('dir') or 'share/eos/parameters'))
    before = copy.deepcopy(sm)
    wc = wcxf.WC('WET', 'EOS', 4.2, copy.deepcopy(o['values']))
    r = outcome(eos.wcxf2eos, wc, sm)
    out = {'sm': before, 'changed': sm != before or wc.values != o['values']}
    if r[0] == 'ok':
        out['eos'] = {k: dict(v) for k, v in r[1].items()}
        out['order'] = list(r[1]) == list(sm)
    else:
        out['err'] = r[1:]
    if o.get('spoil'):
        # the caller may do with the results whatever he likes
        for v in list(sm.values()) + list((r[1] if r[0] == 'ok' else {}).values()):
            v.clear()
        sm.clear()
    return out


def execute(plan):
    with World(plan) as world, work.Scratch() as sc:
        put(sc, plan['files'])
        trace = []
        opsC, outC, states = collections.Counter(), collections.Counter(), set()
        n_ok = set()
        for i, o in enumerate(plan['ops']):
            if 'files' in o:
                import os
                d = sc.path('share/eos/parameters')
                for fn in os.listdir(d):
                    if os.path.isfile(os.path.join(d, fn)):
                        os.unlink(os.path.join(d, fn))
                put(sc, o['files'])
            world.begin(i)
            b = sum(v for k, v in plane.fired.items() if k not in ('disk:short-read', 'disk:listing-order'))
            plane.listing_seed = o['listing']
            plane.listing_err = o.get('listing_err')
            plane.files = {sc.path('share/eos/parameters', fn): f for fn, f in o['ff'].items()}
            r = outcome(run, sc, o)
            plane.files = {}
            plane.listing_err = None
            plane.listing_seed = None
            hit = sum(v for k, v in plane.fired.items() if k not in ('disk:short-read', 'disk:listing-order')) - b
            line = world.sim.hits['0.%d' % i]
            world.end()
            opsC['get_sm_wcs'] += 1
            outC['get_sm_wcs:%s' % (r[0] if r[0] == 'ok' else r[1])] += 1
            if r[0] == 'ok':
                opsC['wcxf2eos'] += 1
                outC['wcxf2eos:%s' % ('ok' if 'eos' in r[1] else r[1]['err'][0])] += 1
                n_ok.add(o['listing'])
            trace.append([i, hit, line, list(r)])
            states.add(core.digest([sorted(plan['files']), o['listing'], o['ff'], o.get('listing_err')]))
    return {'trace': trace, 'faults': world.faults(), 'ops': opsC, 'outcomes': outC, 'states': states,
            'steps': world.sim.step, 'nontrivial': len(n_ok) >= 2}


def merge(files):
    """parameter -> list of admissible SM entries"""
    out = {}
    for fn, d in files.items():
        if not fn.endswith('.yaml') or isinstance(d, str) or not d.get('@metadata@', {}).get('wcxf-relevant'):
            continue
        for k, v in d.items():
            if k != '@metadata@':
                out.setdefault(k, []).append(v)
    return out


def np_part(name, vals):
    """Real number, or None for: lepton flavour non-universal."""
    c = {k: work.number(v) for k, v in vals.items()}
    if name in c:
        return c[name].real
    part = 'real' if 'Re{' in name else 'imag' if 'Im{' in name else None
    if part is None:
        return 0
    b = base(name)
    if b in c:
        return getattr(c[b], part)
    if 'lnu' in b:
        e, m = c.get(b.replace('lnu', 'enue'), 0), c.get(b.replace('lnu', 'munumu'), 0)
        if e != m:
            return None
        return getattr(complex(e), part)
    return 0


def judge(plan, obs, refs):
    out = []
    now, cur = plan['files'], 0
    first = None
    for i, hit, line, r in obs['trace']:
        o = plan['ops'][i]
        while cur <= i:
            if 'files' in plan['ops'][cur]:
                now, first = plan['ops'][cur]['files'], None
            cur += 1
        adm = merge(now)
        lost = [fn for fn, d in now.items() if isinstance(d, str) and fn.endswith('.yaml')]
        what = 'conversion %d (listing order %d, %s)' % (i, o['listing'], json.dumps(o['ff']))
        if r[0] == 'err':
            if not hit and not line and not lost and 'dir' not in o:
                out.append(Violation('needless-failure', '%s raises %s: %s' % (what, r[1], r[2])))
            continue
        if hit:
            out.append(Violation('partial-set-returned', '%s: get_sm_wcs returned although a file or the directory could not be read' % what))
            continue
        if lost:
            out.append(Violation('partial-set-returned', '%s: get_sm_wcs returned although nothing is left of the file %s' % (what, lost[0])))
            continue
        if 'dir' in o:
            out.append(Violation('partial-set-returned', '%s: get_sm_wcs returned a set for a directory that does not exist' % what))
            continue
        sm = r[1]['sm']
        if set(sm) != set(adm):
            out.append(Violation('wrong-set', '%s: parameters %r missing, %r too many' % (what, sorted(set(adm) - set(sm))[:4], sorted(set(sm) - set(adm))[:4])))
            continue
        wrong = [k for k in sm if sm[k] not in adm[k]]
        if wrong:
            out.append(Violation('wrong-set', '%s: %s is %r' % (what, wrong[0], sm[wrong[0]])))
            continue
        if first is None:
            first = (i, sm)
        elif sm != first[1]:
            k = [k for k in sm if sm[k] != first[1][k]][0]
            out.append(Violation('order-dependent', '%s: %s is %r, but it was %r in conversion %d' % (what, k, sm[k], first[1][k], first[0])))
        if r[1]['changed']:
            out.append(Violation('input-changed', '%s changed its input' % what))
        parts = {k: np_part(k, o['values']) for k in sm}
        if None in parts.values():
            if 'eos' in r[1]:
                out.append(Violation('non-universal-accepted', '%s: lepton flavour non-universal coefficients did not raise' % what))
            elif r[1]['err'][0] != 'ValueError' and not line:
                out.append(Violation('needless-failure', '%s raises %r' % (what, r[1]['err'])))
            continue
        if 'eos' not in r[1]:
            if not line:
                out.append(Violation('needless-failure', '%s: wcxf2eos raises %r' % (what, r[1]['err'])))
            continue
        e = r[1]['eos']
        if set(e) != set(sm):
            out.append(Violation('wrong-sum', '%s: parameters %r' % (what, sorted(set(e) ^ set(sm))[:4])))
            continue
        for k in sm:
            want = sm[k]['central'] + parts[k]
            bad = [q for q in ('central', 'min', 'max') if abs(e[k].get(q, 1e99) - want) > 1e-12]
            if bad:
                out.append(Violation('wrong-sum', '%s: %s %s is %r, should be %r + %r' % (what, k, bad[0], e[k].get(bad[0]), sm[k]['central'], parts[k])))
                break
    return out


def fix_shrunk(plan, path, removed):
    return work.move_faults(plan, removed) if path == ('ops',) else plan
