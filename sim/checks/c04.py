"""C04: computations never modify their inputs or shared package state."""
import collections
import json
import sys
import types

from .. import calls, core, work
from ..core import Violation, outcome
from ..work import World
from ..world import plane

ID = 'C04'
RUNS = {'quick': 1100, 'thorough': 40000}
CAP = {'quick': 300, 'thorough': 1300}
RULE = ('A run performs 2-6 operations of all parts of the package (Wilson, WC, runners, registered translators and matchers, the functions below them, '
        'utilities, converters, definitions) on shared input objects (dictionaries, arrays, WC objects, parameters, sector lists), with interruptions at a '
        'chosen line and library failures. After every operation all inputs and the package-wide state are compared with copies made before. '
        'Non-trivial: two operations returned or one was hit.')
REAL = ['wilson/ (all of it)', 'numpy', 'scipy', 'ckmutil', 'rundec', 'pylha', 'pyyaml']
STUBS = [work.STUB_DEFS]
ASSUMPTIONS = [work.ASSUME_DEFS, 'Package state is what modules and classes of wilson hold in non-empty dictionaries, lists, sets and arrays after import; '
               'entries added to internal dictionaries are not counted (they may be caches), entries added to parameters, option defaults and definitions are.']
STATES = 'distinct (operation, outcome, hit) windows of three'

# ---------------------------------------------------------------------------
# snapshots

SKIP = {'_all_wcs', '_dict', '_df', '_cache'}


def freeze(x, depth=0, seen=()):
    """A comparable copy of plain data and of the objects of the package."""
    import numpy as np
    from wilson import wcxf
    if isinstance(x, (str, bytes, int, float, complex, bool, type(None))):
        if isinstance(x, (float, complex)) and x != x:
            return ('nan',)
        return (type(x).__name__ if isinstance(x, (bool, str, bytes)) else 'n', x)
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return ('arr', x.shape, tuple(freeze(v, depth + 1) for v in x.ravel().tolist()))
        return ('arr', x.shape, x.dtype.str, x.tobytes())
    if isinstance(x, np.generic):
        return freeze(x.item())
    if depth > 12 or id(x) in seen:
        return ('deep',)
    seen = seen + (id(x),)
    if isinstance(x, (dict, types.MappingProxyType)):
        return ('dict', frozenset((repr(k), freeze(v, depth + 1, seen)) for k, v in list(x.items())))
    if isinstance(x, (list, tuple)):
        return ('seq', tuple(freeze(v, depth + 1, seen) for v in x))
    if isinstance(x, (set, frozenset)):
        return ('set', frozenset(repr(v) for v in x))
    if isinstance(x, wcxf.WC):
        return ('WC', freeze([x.eft, x.basis, float(x.scale), x.values, getattr(x, 'metadata', None)], depth + 1, seen))
    if isinstance(x, wcxf.Basis):
        return ('Basis', freeze([x.eft, x.basis, x.sectors, getattr(x, 'metadata', None), getattr(x, 'parent', None)], depth + 1, seen))
    if isinstance(x, wcxf.EFT):
        return ('EFT', freeze([x.eft, x.sectors, getattr(x, 'metadata', None)], depth + 1, seen))
    n = type(x).__name__
    if n == 'Wilson':
        return ('Wilson', freeze([x.wc, work.options_of(x)], depth + 1, seen))
    if n == 'EFTutil':
        return ('EFTutil', freeze({k: v for k, v in vars(x).items()}, depth + 1, seen))
    if n == 'WETrunner':
        return ('WETrunner', freeze([x.C_in, x.scale_in, x.parameters, x.eft, x.qed_order, x.qcd_order], depth + 1, seen))
    if n == 'SMEFT':
        return ('SMEFT', freeze([x.C_in, x.scale_in, x.wc], depth + 1, seen))
    return ('obj', n)


def diff(a, b, where=''):
    """Where two frozen values differ."""
    if a == b:
        return None
    if a[0] == b[0] == 'dict':
        x, y = dict(a[1]), dict(b[1])
        for k in sorted(set(x) | set(y)):
            if k not in y:
                return '%s[%s] is gone' % (where, k)
            if k not in x:
                return '%s[%s] is new' % (where, k)
            if x[k] != y[k]:
                return diff(x[k], y[k], '%s[%s]' % (where, k))
    if a[0] == b[0] == 'seq' and len(a[1]) == len(b[1]):
        for i, (x, y) in enumerate(zip(a[1], b[1])):
            if x != y:
                return diff(x, y, '%s[%d]' % (where, i))
    if a[0] == b[0] and a[0] in ('WC', 'Basis', 'EFT', 'Wilson', 'EFTutil', 'WETrunner', 'SMEFT'):
        return diff(a[1], b[1], where + ' ' + a[0])
    return '%s was %s and is %s' % (where, str(a)[:150], str(b)[:150])


def package_state():
    """(strict, loose): what must be equal, what must still be contained."""
    from wilson import wcxf
    strict, loose = {}, {}
    for name, m in sorted(sys.modules.items()):
        if name != 'wilson' and not name.startswith('wilson.') or m is None:
            continue
        for k, v in list(vars(m).items()):
            if k.startswith('__'):
                continue
            if type(v).__name__ == 'EFTutil':
                for kk, vv in vars(v).items():
                    loose[name, k, kk] = vv
            elif isinstance(v, type) and v.__module__ == name:
                for kk, vv in list(vars(v).items()):
                    if isinstance(vv, (dict, list, set)) and not kk.startswith('__') and len(vv) and kk != 'instances':
                        loose[name, k, kk] = vv
            elif k == 'p' and isinstance(v, dict):
                strict[name, k] = v
            elif isinstance(v, (dict, list, tuple, set)) and len(v) or type(v).__name__ == 'ndarray':
                loose[name, k] = v
    import wilson
    strict['option defaults'] = wilson.Wilson._default_options if hasattr(wilson.Wilson, '_default_options') else {}
    strict['option defaults as given out'] = wilson.Wilson.get_default_option_names() if hasattr(wilson.Wilson, 'get_default_option_names') else []
    for c in (wcxf.EFT, wcxf.Basis):
        strict[c.__name__] = dict(getattr(c, 'instances', {}))
    for c in (wcxf.Translator, wcxf.Matcher):
        strict[c.__name__] = {k: True for k in getattr(c, 'instances', {})}
    return strict, loose


def _quick(v):
    """A fast fingerprint (None: not possible)."""
    import marshal
    from wilson import wcxf
    try:
        if isinstance(v, dict) and v and all(isinstance(x, (wcxf.Basis, wcxf.EFT)) for x in v.values()):
            v = [(repr(k), x.eft, getattr(x, 'basis', None), x.sectors, getattr(x, 'metadata', None), getattr(x, 'parent', None)) for k, x in v.items()]
        return marshal.dumps(v, 2)
    except ValueError:
        return None


BASE = None         # state of the freshly imported package, taken in the parent


def base():
    global BASE
    if BASE is None:
        s, l = package_state()
        BASE = ({str(k): freeze(v) for k, v in s.items()}, {str(k): freeze(v) for k, v in l.items()},
                {str(k): _quick(v) for k, v in list(l.items()) + list(s.items())})
    return BASE


def freeze_state():
    """Like the base state, but only looks closely at what seems to differ."""
    b = base()
    s, l = package_state()
    out = {}
    for k, v in l.items():
        k = str(k)
        q = b[2].get(k)
        out[k] = b[1][k] if q is not None and _quick(v) == q else freeze(v)
    top = {}
    for k, v in s.items():
        k = str(k)
        q = b[2].get(k)
        top[k] = b[0][k] if q is not None and _quick(v) == q else freeze(v)
    return top, out


def state_diff(a, b):
    for k in a[0]:
        d = diff(a[0][k], b[0].get(k, ('gone',)), k)
        if d:
            return d
    for k in a[1]:
        x, y = a[1][k], b[1].get(k)
        if x == y:
            continue
        if y is None:
            return '%s is gone' % k
        if x[0] == y[0] == 'dict':
            dx, dy = dict(x[1]), dict(y[1])
            for kk in sorted(dx):
                if dx[kk] != dy.get(kk):
                    return '%s[%s] was %s and is %s' % (k, kk, str(dx[kk])[:120], str(dy.get(kk))[:120])
            continue
        if x[0] == y[0] == 'set' and x[1] <= y[1]:
            continue
        return diff(x, y, k)
    return None


# ---------------------------------------------------------------------------
# inputs

def make_arg(s):
    import numpy as np
    t = s['t']
    if t == 'wc':
        return work.wc_of(s['spec'])
    if t == 'wilson':
        return calls.build(s)
    if t in ('flat', 'values'):
        return {k: (complex(*v) if isinstance(v, list) else v) if t == 'flat' else ({'Re': v[0], 'Im': v[1]} if isinstance(v, list) else v)
                for k, v in s['spec']['values'].items()}
    if t == 'json':
        return json.loads(json.dumps(s['v']))
    if t == 'tuple':
        return tuple(s['v'])
    if t in ('C', 'Cpart', 'Csm'):
        from wilson.util import smeftutil
        from wilson.run.smeft import smpar
        d = make_arg({'t': 'flat', 'spec': s['spec']})
        if t == 'Cpart':
            return smeftutil.wcxf2arrays(d)
        C = smeftutil.wcxf2arrays_symmetrized(d)
        if t == 'Csm':
            C.update(smpar.smeftpar(s['spec']['scale'], C, 'Warsaw'))
        return C
    if t == 'wetC':
        from wilson.util import wetutil
        return wetutil.wcxf2arrays_symmetrized(make_arg({'t': 'flat', 'spec': s['spec']}))
    if t == 'jmsarr':
        from wilson.util import wet_jms
        return wet_jms.JMS_to_array(make_arg({'t': 'flat', 'spec': s['spec']}))
    if t == 'array':
        return np.array(s['v'], dtype=complex).reshape(s['shape'])
    if t == 'unitary':
        import ckmutil.ckm
        return ckmutil.ckm.ckm_tree(*s['v'])
    if t == 'sm':                       # Standard Model values for EOS
        return dict(s['v'])
    if t == 'package':                  # the package's own dictionary, as a user may pass it
        import wilson.parameters
        return wilson.parameters.p
    if t == 'text':
        return s['v']
    raise KeyError(t)


F = {}


def op(name, *argtypes):
    def deco(f):
        F[name] = (f, argtypes)
        return f
    return deco


def _sec(c):
    return c.get('sectors')


@op('translate', 'wc', 'par', 'sec')
def _(c, wc, par, sec):
    return wc.translate(c['to'], parameters=par, sectors=sec)


@op('match', 'wc', 'par')
def _(c, wc, par):
    return wc.match(c['eft'], c['to'], parameters=par)


@op('translator', 'flat', 'par', 'sec')
def _(c, d, par, sec):
    from wilson import wcxf
    f = wcxf.Translator.instances[tuple(c['key'])].function
    return f(d, c['scale'], par) if sec is None else f(d, c['scale'], par, sectors=sec)


@op('matcher', 'flat', 'par')
def _(c, d, par):
    from wilson import wcxf
    return wcxf.Matcher.instances[tuple(c['key'])].function(d, c['scale'], par)


@op('validate', 'wc')
def _(c, wc):
    return wc.validate()


@op('views', 'wc')
def _(c, wc):
    return [wc.dict, str(wc), wc.df, wc.dump(), wc.dump(fmt='yaml'), hash(wc), wc['no_such'] if c.get('x') else None]


@op('wc_new', 'values', 'meta')
def _(c, values, meta):
    from wilson import wcxf
    return wcxf.WC(c['eft'], c['basis'], c['scale'], values, **({'metadata': meta} if meta else {}))


@op('wc_hold', 'values')
def _(c, values):
    """Make an object, work with it."""
    from wilson import wcxf
    wc = wcxf.WC(c['eft'], c['basis'], c['scale'], values)
    wc.validate()
    wc.dict
    wc.df
    return wc.dump()


@op('dict2values', 'flat')
def _(c, d):
    from wilson import wcxf
    return wcxf.WC.dict2values(d)


@op('basis_new', 'basisdef')
def _(c, d):
    from wilson import wcxf
    return wcxf.Basis(**d) if c.get('how') == 'kw' else wcxf.Basis.load(json.dumps(d))


@op('eft_new', 'eftdef')
def _(c, d):
    from wilson import wcxf
    return wcxf.EFT(**d)


@op('basis_views')
def _(c):
    from wilson import wcxf
    b = wcxf.Basis[tuple(c['key'])]
    return [b.all_wcs, str(b), b.dump()]


@op('wilson', 'flat')
def _(c, d):
    import wilson
    w = wilson.Wilson(d, c['scale'], c['eft'], c['basis'])
    return w if not c.get('run') else w.match_run(*c['run'])


@op('wilson_run', 'wilson', 'sec')
def _(c, w, sec):
    return w.match_run(*c['run']) if sec is None else w.match_run(*c['run'], sectors=sec)


@op('wilson_option', 'flat', 'par')
def _(c, d, par):
    import wilson
    w = wilson.Wilson(d, c['scale'], c['eft'], c['basis'])
    w.set_option('parameters', par)
    return w.match_run(*c['run'])


@op('wilson_from', 'wc')
def _(c, wc):
    import wilson
    return wilson.Wilson.from_wc(wc).match_run(*c['run'])


@op('wilson_views', 'wilson')
def _(c, w):
    return [str(w), hash(w), w.get_option('parameters'), w.parameters if hasattr(w, 'parameters') else None, w._repr_html_()]


@op('wet', 'wc', 'par', 'sec')
def _(c, wc, par, sec):
    from wilson.run.wet import WETrunner
    r = WETrunner(wc, parameters=par)
    return r.run(c['scale']) if sec is None else r.run(c['scale'], sectors=sec)


@op('smeft', 'wc')
def _(c, wc):
    from wilson.run.smeft import SMEFT
    return SMEFT(wc).run(c['scale'], accuracy='leadinglog') if c['run'] else SMEFT(wc, get_smpar=False)


@op('beta', 'Csm')
def _(c, C):
    from wilson.run.smeft import beta
    return beta.beta(C, HIGHSCALE=c.get('high', 1), newphys=c.get('newphys', True))


@op('evolve_ll', 'Csm')
def _(c, C):
    from wilson.run.smeft import rge
    return rge.smeft_evolve_leadinglog(C, c['scale'], c['scale_out'], newphys=c.get('newphys', True))


@op('evolve', 'Csm')
def _(c, C):
    from wilson.run.smeft import rge
    return rge.smeft_evolve(C, c['scale'], c['scale_out'], newphys=c.get('newphys', True), rtol=0.2)


@op('smpar', 'Csm')
def _(c, C):
    from wilson.run.smeft import smpar
    return smpar.smpar(C)


@op('smeftpar', 'C')
def _(c, C):
    from wilson.run.smeft import smpar
    return smpar.smeftpar(c['scale'], C, c['basis'])


@op('flavor_rotation', 'Csm', 'unitary')
def _(c, C, U):
    from wilson.util import smeft_warsaw
    return smeft_warsaw.flavor_rotation(C, Uq=U, Uu=U, Ud=U, Ul=U, Ue=U)


@op('smeft_util', 'Cpart')
def _(c, C):
    from wilson.util import smeftutil
    return getattr(smeftutil, c['f'])(C)


@op('smeft_util_full', 'C')
def _(c, C):
    from wilson.util import smeftutil
    return getattr(smeftutil, c['f'])(C)


@op('smeft_util_flat', 'flat')
def _(c, d):
    from wilson.util import smeftutil
    return getattr(smeftutil, c['f'])(d)


@op('wet_util_full', 'wetC')
def _(c, C):
    from wilson.util import wetutil
    return getattr(wetutil, c['f'])(C)


@op('symm_array', 'array')
def _(c, a):
    from wilson.util import smeftutil
    return getattr(smeftutil, c['f'])(a)


@op('jms_to_array', 'flat', 'sec')
def _(c, d, sec):
    from wilson.util import wet_jms
    return wet_jms.JMS_to_array(d, sectors=sec)


@op('jms_arrays', 'jmsarr')
def _(c, C):
    from wilson.util import wet_jms
    return getattr(wet_jms, c['f'])(C)


@op('rotate_down', 'jmsarr', 'fullpar')
def _(c, C, p):
    from wilson.util import wet_jms
    return wet_jms.rotate_down(C, p)


@op('match_all', 'flat', 'par')
def _(c, d, par):
    from wilson.match import smeft
    return smeft.match_all(d, c['scale'], par)


@op('tr_smeft', 'flat', 'par')
def _(c, d, par):
    from wilson.translate import smeft
    return getattr(smeft, c['f'])(d, par)


@op('get_parameters', 'par')
def _(c, par):
    from wilson.translate import wet
    return wet.get_parameters(c['scale'], f=c['f'], input_parameters=par)


@op('run_sector', 'flat', 'fullpar')
def _(c, d, p):
    from wilson.run.wet import rge
    return rge.run_sector(c['sector'], d, 0.7, 5, p, p)


@op('w2d', 'wc')
def _(c, wc):
    from wilson.wcxf.converters import dsixtools
    return dsixtools.wcxf2dsixtools(wc)


@op('wc_dict2lha', 'C')
def _(c, C):
    from wilson.wcxf.converters import dsixtools
    return dsixtools.wc_dict2lha(C)


@op('sm_dict2lha', 'Csm')
def _(c, C):
    from wilson.wcxf.converters import dsixtools
    return dsixtools.sm_dict2lha(dict(C, Theta=0.0, Thetap=0.0, Thetas=0.0))


@op('sm_lha', 'lha')
def _(c, lha):
    from wilson.wcxf.converters import dsixtools
    return [dsixtools.sm_lha2dict(lha), dsixtools.wc_lha2dict(lha), dsixtools.lha2scale(lha)]


@op('io', 'wc', 'Csm')
def _(c, wc, C):
    from wilson.wcxf.converters import dsixtools
    io = dsixtools.SMEFTio()
    io.set_initial(C, c['scale'], c['scale'])
    return io.get_wcxf(io.C_in, c['scale']), io.dump(io.C_in)


@op('io_twice', 'wc', 'Csm')
def _(c, wc, C):
    from wilson.wcxf.converters import dsixtools
    io = dsixtools.SMEFTio()
    io.set_initial(C, c['scale'], c['scale'])
    io.set_initial_wcxf(wc)
    return io.dump(io.C_in)


@op('eos', 'wc', 'smeos')
def _(c, wc, sm):
    from wilson.wcxf.converters import eos
    return eos.wcxf2eos(wc, sm)


@op('card', 'wc')
def _(c, wc):
    from wilson.wcxf.converters import smeftsim
    return smeftsim.smeftsim_card_fill(smeftsim.initialize_smeftsim_card(c['model']), wc, c['model'], 1000.0, 'alpha')


# ---------------------------------------------------------------------------
# plans

PARAMS = [None, {}, {'Vcb': 0.04}, {'Vus': 0.23, 'gamma': 1.1}, {'m_b': 4.3, 'alpha_s': 0.12}, {'GF': 1.2e-5, 'm_c': 1.2}, {'loop_order': 1}]
LHA = {'BLOCK': {'GAUGE': {'values': [[1, 0.65], [2, 0.36], [3, 1.06]]}, 'SCALAR': {'values': [[1, 0.28], [2, 8528.0]]}, 'SCALES': {'values': [[1, 1000.0]]},
                 'GU': {'values': [[3, 3, 0.86]]}, 'GD': {'values': [[3, 3, 0.0138]]}, 'GE': {'values': [[3, 3, 0.01]]}, 'IMGU': {'values': [[3, 3, 0.1]]},
                 'WC3': {'values': [[1, 1e-2]]}, 'WCPHIL1': {'values': [[1, 2, 0.01]]}, 'IMWCPHIL1': {'values': [[1, 2, 0.02]]}}}
EOS_NAMES = ['b->s::c1', 'b->s::Re{c7}', 'b->s::Im{c7}', "b->s::Re{c7'}", 'b->see::Re{c9}', 'b->smumu::Re{c10}', 'b->smumu::Im{c10}', 'ub::Re{cVL}', 'cbmunumu::Re{cSL}']
TRKEYS = [('SMEFT', a, b) for a, bs in {'Warsaw': ['Warsaw up', 'Warsaw mass'], 'Warsaw up': ['Warsaw', 'Higgs-Warsaw up'], 'Higgs-Warsaw up': ['Warsaw up', 'Warsaw']}.items()
          for b in bs] + [('WET', a, b) for a, bs in {'JMS': ['flavio', 'Bern', 'EOS', 'formflavor', 'FlavorKit'], 'flavio': ['JMS', 'Bern'], 'Bern': ['JMS', 'flavio'],
                                                     'FlavorKit': ['JMS', 'flavio']}.items() for b in bs] + \
    [(e, a, b) for e in ('WET-4', 'WET-3') for a, bs in {'JMS': ['flavio', 'Bern'], 'flavio': ['JMS', 'Bern'], 'Bern': ['JMS', 'flavio']}.items() for b in bs]
MKEYS = [('SMEFT', 'Warsaw', 'WET', 'JMS'), ('SMEFT', 'Warsaw up', 'WET', 'JMS'), ('SMEFT', 'Warsaw', 'WET', 'flavio'), ('WET', 'JMS', 'WET-4', 'JMS'),
         ('WET-4', 'JMS', 'WET-3', 'JMS'), ('WET', 'flavio', 'WET-4', 'flavio'), ('WET-4', 'flavio', 'WET-3', 'flavio'), ('WET', 'Bern', 'WET-4', 'Bern'),
         ('WET-4', 'Bern', 'WET-3', 'Bern'), ('WET-3', 'JMS', 'WET-2', 'JMS')]
SC = {'SMEFT': 160.0, 'WET': 4.8, 'WET-4': 3.0, 'WET-3': 1.8, 'WET-2': 1.5}


class Gen:
    def __init__(self, rng):
        self.rng = rng
        self.args = []

    def slot(self, s):
        # use an equal slot again, so that objects are shared between calls
        for i, a in enumerate(self.args):
            if a == s and self.rng.random() < 0.8:
                return i
        self.args.append(s)
        return len(self.args) - 1

    def point(self, t, eft, basis, scale=None, like=None):
        have = [i for i, a in enumerate(self.args) if a['t'] == t and a['spec']['eft'] == eft and a['spec']['basis'] == basis]
        if have and self.rng.random() < 0.6:
            return self.rng.choice(have)
        return self.slot({'t': t, 'spec': work.point(self.rng, eft, basis, scale or SC[eft], self.rng.choice([1, 3, 8]), like=like)})

    def par(self):
        r = self.rng.random()
        if r < 0.08:
            return self.slot({'t': 'package'})
        p = self.rng.choice(PARAMS)
        return None if p is None else self.slot({'t': 'json', 'v': p})

    def sec(self, eft, p=0.3):
        if eft == 'SMEFT' or self.rng.random() > p:
            return None
        ss = work.eft_sectors(eft)
        return self.slot({'t': self.rng.choice(['json', 'tuple']), 'v': sorted(self.rng.sample(ss, min(len(ss), 2)))})

    def op(self):
        rng = self.rng
        f = rng.choice(list(F))
        c = {'f_': f, 'a': []}
        if f == 'translate':
            e, a, b = rng.choice(TRKEYS)
            c.update(to=b, a=[self.point('wc', e, a), self.par(), self.sec(e)])
        elif f == 'match':
            e, a, e2, b = rng.choice(MKEYS)
            c.update(eft=e2, to=b, a=[self.point('wc', e, a), self.par()])
        elif f == 'translator':
            e, a, b = rng.choice(TRKEYS)
            c.update(key=[e, a, b], scale=SC[e], a=[self.point('flat', e, a), self.par(), self.sec(e)])
        elif f == 'matcher':
            k = rng.choice(MKEYS)
            c.update(key=list(k), scale=SC[k[0]], a=[self.point('flat', k[0], k[1]), self.par()])
        elif f in ('validate', 'views'):
            e, a, b = rng.choice(TRKEYS)
            c.update(a=[self.point('wc', e, a)])
            if f == 'views' and rng.random() < 0.3:
                c['x'] = 1
        elif f in ('wc_new', 'wc_hold'):
            e, a, b = rng.choice(TRKEYS)
            c.update(eft=e, basis=a, scale=SC[e], a=[self.point('values', e, a)])
            if f == 'wc_new':
                c['a'].append(self.slot({'t': 'json', 'v': {'description': 'x', 'authors': ['a', 'b']}}) if rng.random() < 0.5 else None)
        elif f == 'dict2values':
            e, a, b = rng.choice(TRKEYS)
            c.update(a=[self.point('flat', e, a)])
        elif f == 'basis_new':
            d = {'eft': 'WET', 'basis': rng.choice(['mine', 'yours']), 'sectors': {'sb': {'x_1': {'real': True}, 'x_2': {}}, 'my': {'y': {'tex': 'C'}}}}
            if rng.random() < 0.6:
                d['parent'] = rng.choice(['flavio', 'JMS', 'mine'])
            c.update(how=rng.choice(['kw', 'load']), a=[self.slot({'t': 'json', 'v': d})])
        elif f == 'eft_new':
            c.update(a=[self.slot({'t': 'json', 'v': {'eft': rng.choice(['E1', 'E2']), 'sectors': {'a': {'dB': 1}, 'b': {}}}})])
        elif f == 'basis_views':
            e, a, b = rng.choice(TRKEYS)
            c.update(key=[e, a])
        elif f in ('wilson', 'wilson_option', 'wilson_from', 'wilson_run', 'wilson_views'):
            e, a = rng.choice([('WET', 'JMS'), ('WET', 'flavio'), ('WET-4', 'flavio'), ('SMEFT', 'Warsaw')])
            if e == 'SMEFT':
                run = rng.choice([[91.1876, 'SMEFT', 'Warsaw up'], [91.1876, 'WET', 'JMS'], [160.0, 'SMEFT', 'Warsaw up']])
            else:
                run = rng.choice([[2.0, 'WET-4', 'JMS'], [2.0, 'WET-3', 'flavio'], [1.5, 'WET-3', 'JMS']] if e == 'WET-4' else
                                 [[2.0, 'WET', 'flavio'], [3.0, 'WET-4', 'flavio'], [2.0, 'WET-3', 'JMS'], [4.2, 'WET', 'JMS']])
            o = {'smeft_accuracy': 'leadinglog'} if rng.random() < 0.9 else {}
            if f in ('wilson', 'wilson_option'):
                if e == 'SMEFT':
                    e, a, run = 'WET', 'JMS', [4.2, 'WET', 'flavio']
                c.update(scale=SC[e], eft=e, basis=a, run=run, a=[self.point('flat', e, a)])
                if f == 'wilson_option':
                    c['a'].append(self.par())
            elif f == 'wilson_from':
                if e == 'SMEFT':
                    e, a, run = 'WET', 'JMS', [4.2, 'WET', 'flavio']
                c.update(run=run, a=[self.point('wc', e, a)])
            else:
                p = rng.choice(PARAMS)
                if p is not None:
                    o['parameters'] = p
                if rng.random() < 0.3:
                    o['qcd_order'] = 0
                s = {'t': 'wilson', 'spec': self.args[self.point('wc', e, a)]['spec'], 'options': o}
                c.update(run=run, a=[self.slot(s)])
                if f == 'wilson_run':
                    c['a'].append(self.sec(run[1]))
        elif f == 'wet':
            e, a = rng.choice([('WET', 'JMS'), ('WET-4', 'JMS'), ('WET-3', 'JMS')])
            par = rng.choice([None, self.par()])
            if par is not None and self.args[par].get('v') is not None:
                import wilson.parameters
                par = self.slot({'t': 'json', 'v': {**{k: float(v) for k, v in wilson.parameters.p.items()}, **self.args[par]['v']}})
            c.update(scale=rng.choice([2.0, 1.3, 3.0, SC[e]]), a=[self.point('wc', e, a), par, self.sec(e)])
        elif f == 'smeft':
            c.update(scale=91.1876, a=[self.point('wc', 'SMEFT', 'Warsaw')])
            c['run'] = rng.random() < 0.3
        elif f in ('beta', 'smpar', 'evolve_ll', 'evolve', 'sm_dict2lha', 'flavor_rotation'):
            c.update(scale=160.0, scale_out=rng.choice([91.1876, 150.0, 500.0]), a=[self.point('Csm', 'SMEFT', 'Warsaw')])
            if f == 'evolve':
                c['scale_out'] = 159.0
            if rng.random() < 0.3:
                c.update(newphys=False)
            if rng.random() < 0.3:
                c.update(high=1000.0)
            if f == 'flavor_rotation':
                c['a'].append(self.slot({'t': 'unitary', 'v': [0.225, 0.0037, 0.042, 1.2]}))
        elif f == 'smeftpar':
            c.update(scale=91.1876, basis=rng.choice(['Warsaw', 'Warsaw up']), a=[self.point('C', 'SMEFT', 'Warsaw')])
        elif f in ('smeft_util', 'smeft_util_full'):
            c.update(f=rng.choice(['add_missing', 'arrays2wcxf', 'symmetrize', 'symmetrize_nonred', 'pad_C', 'unpad_C'] +
                                  (['unscale_dict', 'C_dict2array', 'arrays2wcxf_nonred'] if f != 'smeft_util' else [])),
                     a=[self.point('Cpart' if f == 'smeft_util' else 'C', 'SMEFT', 'Warsaw')])
        elif f == 'smeft_util_flat':
            c.update(f=rng.choice(['wcxf2arrays', 'wcxf2arrays_symmetrized']), a=[self.point('flat', 'SMEFT', 'Warsaw')])
        elif f == 'wet_util_full':
            c.update(f=rng.choice(['add_missing', 'arrays2wcxf', 'symmetrize', 'symmetrize_nonred', 'pad_C', 'unscale_dict', 'arrays2wcxf_nonred']),
                     a=[self.point('wetC', 'WET', 'JMS', like=rng.choice([None, 'V']))])
        elif f == 'symm_array':
            n = rng.choice(['symmetrize_2', 'symmetrize_4', 'symmetrize_5', 'symmetrize_6', 'symmetrize_7', 'symmetrize_8', 'symmetrize_9', 'scale_8', 'unscale_8'])
            shape = [3, 3] if n in ('symmetrize_2', 'symmetrize_9') else [3, 3, 3, 3]
            size = 9 if len(shape) == 2 else 81
            c.update(f=n, a=[self.slot({'t': 'array', 'shape': shape, 'v': [round(rng.uniform(-1, 1), 3) for _ in range(size)]})])
        elif f == 'jms_to_array':
            c.update(a=[self.point('flat', 'WET', 'JMS'), self.sec('WET')])
        elif f in ('jms_arrays', 'rotate_down'):
            c.update(a=[self.point('jmsarr', 'WET', 'JMS')])
            if f == 'jms_arrays':
                c['f'] = rng.choice(['symmetrize_JMS_dict', 'scale_dict_wet', 'unscale_dict_wet'])
            else:
                c['a'].append(self.fullpar())
        elif f == 'match_all':
            c.update(scale=91.1876, a=[self.point('flat', 'SMEFT', 'Warsaw'), self.par()])
        elif f == 'tr_smeft':
            n = rng.choice(['warsaw_to_warsawmass', 'warsaw_to_warsaw_up', 'warsaw_up_to_warsaw'])
            c.update(f=n, a=[self.point('flat', 'SMEFT', 'Warsaw up' if 'up_to' in n else 'Warsaw'), self.par()])
        elif f == 'get_parameters':
            c.update(scale=rng.choice([4.8, 2.0, 100.0]), f=rng.choice([3, 4, 5]), a=[self.par()])
        elif f == 'run_sector':
            c.update(sector=rng.choice(['sb', 'cu', 'dF=0', 'sbsb', 'mue', 'ubenu' if False else 'db']), a=[self.point('flat', 'WET', 'JMS'), self.fullpar()])
        elif f in ('w2d', 'card'):
            c.update(model=rng.choice('AB'), a=[self.point('wc', 'SMEFT', 'Warsaw')])
        elif f == 'wc_dict2lha':
            c.update(a=[self.point('C', 'SMEFT', 'Warsaw')])
        elif f == 'sm_lha':
            c.update(a=[self.slot({'t': 'json', 'v': LHA})])
        elif f in ('io', 'io_twice'):
            c.update(scale=160.0, a=[self.point('wc', 'SMEFT', 'Warsaw'), self.point('Csm', 'SMEFT', 'Warsaw')])
        elif f == 'eos':
            wc = self.slot({'t': 'wc', 'spec': {'eft': 'WET', 'basis': 'EOS', 'scale': 4.2, 'values': {k: 0.1 * (i + 1) for i, (k, _) in
                            enumerate(rng.sample(work.all_keys('WET', 'EOS'), 3))}}})
            c.update(a=[wc, self.slot({'t': 'sm', 'v': {k: {'central': 0.5, 'min': 0.1, 'max': 1.0} for k in EOS_NAMES}})])
        return c

    def fullpar(self):
        import wilson.parameters
        return self.slot({'t': 'json', 'v': {k: float(v) for k, v in wilson.parameters.p.items()}})


def canon_example(c):
    """A fixed example of the same operation, for recording its lines."""
    rng = core.rng_of('c04-example', c['f_'], c.get('f'), c.get('key'), c.get('to'))
    while True:
        g = Gen(rng)
        e = g.op()
        if e['f_'] == c['f_']:
            return g.args, e


def generate(rng, i):
    g = Gen(rng)
    ops = [g.op() for _ in range(rng.choice([2, 3, 4, 6]))]
    faults = []
    base()
    for _ in range(rng.choice([0, 1, 1, 2])):
        j = rng.randrange(len(ops))
        if rng.random() < 0.25:
            faults.append({'op': j, 'lib': rng.choice(['einsum', 'ckm_tree', 'rundec', 'ckmutil', 'brentq']), 'act': 'MemoryError', 'call': rng.choice([1, 1, 2, 5])})
            continue
        args, e = canon_example(ops[j])

        def make():
            vals = [make_arg(a) for a in args]
            return lambda: run_op(e, vals)
        loc = work.pick_line(rng, work.lines_for(['c04', e['f_'], e.get('f'), e.get('key'), e.get('to')], make), ())
        if loc:
            faults.append({'op': j, 'at': ['0.%d' % j, loc[0], loc[1]], 'do': 'raise', 'exc': rng.choice(['KeyboardInterrupt', 'MemoryError'])})
    return {'ops': ops, 'args': g.args, 'faults': calls.dedup([f for f in faults if 'at' in f]) + [f for f in faults if 'at' not in f]}


def run_op(c, vals):
    f = F[c['f_']][0]
    a = [None if i is None else vals[i] for i in c['a']]
    return f(c, *a)


def execute(plan):
    with World(plan) as world:
        vals = [make_arg(a) for a in plan['args']]
        before = [freeze(v) for v in vals]
        registry = ('basis_new', 'eft_new')
        state = base()[:2]
        d0 = state_diff(state, freeze_state())
        trace, changed, hist = [], [], []
        ops, outs, states = collections.Counter(), collections.Counter(), set()
        for i, c in enumerate(plan['ops']):
            world.begin(i)
            r = outcome(run_op, c, vals)
            hit = world.fired()
            world.end()
            name = c['f_'] + (':' + str(c['f']) if isinstance(c.get('f'), str) else '')
            ops[name] += 1
            outs['%s:%s' % (c['f_'], r[0] if r[0] == 'ok' else r[1])] += 1
            trace.append([i, bool(hit), r[0] if r[0] == 'ok' else [r[0], r[1]]])
            hist.append([name, r[0], bool(hit)])
            states.add(core.digest(hist[-3:]))
            if d0:
                changed.append([i, 'package state (while preparing the inputs)', d0])
                state, d0 = freeze_state(), None
            for j, v in enumerate(vals):
                now = freeze(v)
                if now != before[j]:
                    changed.append([i, 'input %d (%s)' % (j, plan['args'][j]['t']), diff(before[j], now)])
                    before[j] = now
            now = freeze_state()
            if c['f_'] in registry:
                # what was asked for is registered; everything else must stay
                for k in ('Basis', 'EFT'):
                    a, b = dict(state[0][k][1]), dict(now[0][k][1])
                    key = {'Basis': lambda d: repr((d['eft'], d['basis'])), 'EFT': lambda d: repr(d['eft'])}[k]
                    if k == ('Basis' if c['f_'] == 'basis_new' else 'EFT'):
                        mine = key(plan['args'][c['a'][0]]['v'])
                        a.pop(mine, None)
                        b.pop(mine, None)
                    if a != b:
                        changed.append([i, 'the registry', diff(('dict', frozenset(a.items())), ('dict', frozenset(b.items())), k)])
                state = ({**state[0], 'Basis': now[0]['Basis'], 'EFT': now[0]['EFT']},
                         {k: (now[1].get(k, v) if 'instances' in k else v) for k, v in state[1].items()})
            d = state_diff(state, now)
            if d:
                changed.append([i, 'package state', d])
                state = now
    return {'trace': trace, 'changed': changed, 'faults': world.faults(), 'ops': ops, 'outcomes': outs, 'states': states, 'steps': world.sim.step,
            'nontrivial': sum(1 for t in trace if t[2] == 'ok') >= 2 or any(t[1] for t in trace)}


def judge(plan, obs, refs):
    out = []
    for i, what, d in obs['changed']:
        c = plan['ops'][i]
        out.append(Violation('modified', 'operation %d %s (%s) changed %s: %s' % (i, c['f_'], json.dumps({k: v for k, v in c.items() if k != 'f_'}), what, d)))
    return out


def fix_shrunk(plan, path, removed):
    return work.move_faults(plan, removed) if path == ('ops',) else plan
