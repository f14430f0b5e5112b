"""Reconstructs the EFT and basis definition files of the (absent) submodule
wilson/wcxf/bases.  Run once, by hand; its output /verif/sim/defs is committed,
so that no check depends on it (or on data files of /repo) at check time.

Sources: the symmetry classes listed in the repository's unit tests
(util/test_smeftutil.py, util/test_wetutil.py), the WET sector table
(data/run_wet_definitions_coeffs.json), and the keys which the repository's own
translators emit for the phenomenological bases.
"""
import itertools
import json
import os
import sys

OUT = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'sim', 'defs')
REPO = '/repo'

S0 = ["G", "Gtilde", "W", "Wtilde", "phi", "phiBox", "phiD", "phiG", "phiB", "phiW", "phiWB",
      "phiGtilde", "phiBtilde", "phiWtilde", "phiWtildeB"]
S_order2 = ["uphi", "dphi", "ephi", "eW", "eB", "uG", "uW", "uB", "dG", "dW", "dB", "phil1", "phil3",
            "phie", "phiq1", "phiq3", "phiu", "phid", "phiud", "llphiphi"]
S_order4 = ["ll", "qq1", "qq3", "lq1", "lq3", "ee", "uu", "dd", "eu", "ed", "ud1", "ud8", "le", "lu",
            "ld", "qe", "qu1", "qd1", "qu8", "qd8", "ledq", "quqd1", "quqd8", "lequ1", "lequ3", "duql",
            "qque", "qqql", "duue"]
S_class = {2: ["phil1", "phil3", "phie", "phiq1", "phiq3", "phiu", "phid"],
           3: ["ledq", "quqd1", "quqd8", "lequ1", "lequ3", "duql", "duue"],
           4: ["ll", "qq1", "qq3", "uu", "dd"],
           5: ["lq1", "lq3", "eu", "ed", "ud1", "ud8", "le", "lu", "ld", "qe", "qu1", "qd1", "qu8", "qd8"],
           6: ["ee"], 7: ["qque"], 8: ["qqql"], 9: ["llphiphi"]}
W_class = {3: ['S1udRR', 'S1udduRR', 'S8udRR', 'S8udduRR', 'SedRL', 'SedRR', 'SeuRL', 'SeuRR', 'SnueduRL',
               'SnueduRR', 'TedRR', 'TeuRR', 'TnueduRR', 'V1udduLR', 'V8udduLR', 'VnueduLL', 'VnueduLR',
               'SuddLL', 'SduuLL', 'SduuLR', 'SduuRL', 'SdudRL', 'SduuRR'],
           4: ['VuuRR', 'VddRR', 'VuuLL', 'VddLL'],
           41: ['S1ddRR', 'S1uuRR', 'S8uuRR', 'SeeRR', 'S8ddRR'],
           5: ["VnueLL", "VnuuLL", "VnudLL", "VeuLL", "VedLL", "V1udLL", "V8udLL", "VeuRR", "VedRR", "V1udRR",
               "V8udRR", "VnueLR", "VeeLR", "VnuuLR", "VnudLR", "VeuLR", "VedLR", "VueLR", "VdeLR", "V1uuLR",
               "V8uuLR", "V1udLR", "V8udLR", "V1duLR", "V8duLR", "V1ddLR", "V8ddLR"],
           6: ['VeeLL', 'VeeRR', 'VnunuLL'], 71: ['SuudLR', 'SuudRL', 'SdduRL']}
QQQL_REDUNDANT = {(1, 0, 0), (1, 1, 0), (2, 0, 0), (2, 0, 1), (2, 1, 0), (2, 1, 1), (2, 2, 0), (2, 2, 1)}


def orbit(cls, idx):
    """All index tuples related to idx, with the flag 'by conjugation'."""
    seen = {(idx, False)}
    todo = [(idx, False)]
    while todo:
        t, c = todo.pop()
        i, j, k, l = t
        nxt = []
        if cls in (4, 41, 6):
            nxt.append(((k, l, i, j), c))
        if cls in (4, 5, 6):
            nxt.append(((j, i, l, k), not c))
        if cls == 6:
            nxt.append(((k, j, i, l), c))
        if cls in (7, 71):
            nxt.append(((j, i, k, l), c))
        for n in nxt:
            if n not in seen:
                seen.add(n)
                todo.append(n)
    return seen


def is_real(cls, idx):
    if cls == 2:
        return idx[0] == idx[1]
    if cls in (4, 5, 6):
        return (idx, True) in orbit(cls, idx)
    return False


def nonred(cls, n=3):
    if cls == 2:
        return [(i, j) for i in range(n) for j in range(n) if i <= j]
    if cls == 9:
        return [(i, j) for i in range(n) for j in range(n) if i <= j]
    if cls == 1:
        return list(itertools.product(range(n), repeat=2))
    out = []
    for idx in itertools.product(range(n), repeat=4):
        if cls == 8 and idx[:3] in QQQL_REDUNDANT:
            continue
        if cls == 71 and idx[0] == idx[1]:
            continue
        if cls in (4, 41, 5, 6, 7, 71) and min(t for t, _ in orbit(cls, idx)) != idx:
            continue
        out.append(idx)
    return out


def name(k, idx):
    return k + '_' + ''.join(str(i + 1) for i in idx)


def cls_of(table, k, default):
    for c, ks in table.items():
        if k in ks:
            return c
    return default


def entry(real):
    return {'real': True} if real else {}


def smeft_sectors():
    sec = {'dB=dL=0': {}, 'dL=2': {}, 'dB=dL=1': {}}
    for k in S0:
        sec['dB=dL=0'][k] = {'real': True, 'tex': r'O_{%s}' % k}
    for k in S_order2:
        c = cls_of(S_class, k, 1)
        s = 'dL=2' if k == 'llphiphi' else 'dB=dL=0'
        for idx in nonred(c):
            sec[s][name(k, idx)] = entry(is_real(c, idx))
    for k in S_order4:
        c = cls_of(S_class, k, None)
        s = 'dB=dL=1' if k in ('duql', 'qque', 'qqql', 'duue') else 'dB=dL=0'
        for idx in nonred(c):
            sec[s][name(k, idx)] = entry(is_real(c, idx))
    return sec


def tokens(s):
    out = []
    while s:
        for t in ('nu', 'u', 'd', 'e'):
            if s.startswith(t):
                out.append(t)
                s = s[len(t):]
                break
        else:
            return out
    return out


def index_types(op):
    if op in ('G', 'Gtilde'):
        return []
    if op.endswith('gamma') or op in ('uG', 'dG'):
        return [op[0]] * 2
    core = op[1:-2]
    core = core.lstrip('18')
    t = tokens(core)
    if len(t) == 2:
        return [t[0], t[0], t[1], t[1]]
    if len(t) == 3:
        return t + ['l']
    assert len(t) == 4, op
    return t


def has_flavour(key, typ, num):
    if '_' not in key:
        return False
    op, ind = key.split('_')
    return any(t == typ and c == num for t, c in zip(index_types(op), ind))


def wet_sectors():
    coeffs = json.load(open(REPO + '/wilson/data/run_wet_definitions_coeffs.json'))
    sec = {}
    for s, ks in coeffs.items():
        sec[s] = {}
        for k in ks:
            if k in ('G', 'Gtilde'):
                sec[s][k] = {'real': True}
                continue
            op, ind = k.split('_')
            c = cls_of(W_class, op, 1)
            sec[s][k] = entry(is_real(c, tuple(int(i) - 1 for i in ind)))
    return sec


def drop(sec, typ, num):
    out = {s: {k: v for k, v in ks.items() if not has_flavour(k, typ, num)} for s, ks in sec.items()}
    return {s: ks for s, ks in out.items() if ks}


def write(rel, d):
    p = os.path.join(OUT, rel)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, 'w') as f:
        json.dump(d, f, separators=(',', ':'))
        f.write('\n')


def write_eft(eft, sectors):
    write(eft + '.eft.json', {'eft': eft, 'sectors': {s: {} for s in sectors},
                              'metadata': {'description': 'reconstructed definition of ' + eft}})


def write_basis(eft, basis, sectors, parent=None):
    d = {'eft': eft, 'basis': basis, 'metadata': {'description': 'reconstructed'}, 'sectors': sectors}
    if parent:
        d['parent'] = parent
        write('child/%s.%s.basis.json' % (eft, basis), d)
    else:
        write('%s.%s.basis.json' % (eft, basis), d)


def main():
    smeft = smeft_sectors()
    jms = wet_sectors()
    jms4 = drop(jms, 'd', '3')
    jms3 = drop(jms4, 'u', '2')
    jms2 = drop(jms3, 'd', '2')
    write_eft('SMEFT', smeft)
    for e, s in (('WET', jms), ('WET-4', jms4), ('WET-3', jms3), ('WET-2', jms2)):
        write_eft(e, s)
        write_basis(e, 'JMS', s)
    write_basis('SMEFT', 'Warsaw', smeft)
    write_basis('SMEFT', 'Warsaw up', {}, parent='Warsaw')
    write_basis('SMEFT', 'Warsaw mass', {}, parent='Warsaw')

    # --- phenomenological bases, from what the translators emit ------------
    sys.path.insert(0, os.path.join(os.path.dirname(OUT), '..'))
    from sim import bases
    bases.install()
    sys.path.insert(0, REPO)
    import numpy as np
    import random
    from wilson import wcxf
    from wilson.translate import wet, smeft_higgs
    rng = random.Random(5)

    def rnd(sec):
        return {k: complex(rng.random(), 0 if v.get('real') else rng.random()) for ks in sec.values() for k, v in ks.items()}

    class AllKeys:
        pass

    def bootstrap(eft, basis, keys):
        b = wcxf.Basis(eft, basis, {'all': {k: {} for k in keys}})
        return b
    # flavio: ask sector by sector
    full = rnd(jms)
    fl = {}
    seen = set()
    for s in jms:
        try:
            out = wet.JMS_to_flavio(full, 120., sectors=(s,))
        except KeyError:
            continue
        ks = [k for k in out if k not in seen]
        fl[s] = {k: {} for k in ks}
        seen.update(ks)
    out = wet.JMS_to_flavio(full, 120.)
    rest = [k for k in out if k not in seen]
    for k in rest:
        fl.setdefault('dF=0', {})[k] = {}
        seen.add(k)
    print('flavio', len(seen), 'rest', len(rest))
    keys = list(seen)
    while True:
        bootstrap('WET', 'flavio', keys)
        try:
            wet.flavio_to_JMS({k: 1 + 1j for k in keys}, 120.)
            wet.flavio_to_Bern({k: 1 + 1j for k in keys}, 120.)
            break
        except KeyError as e:
            keys.append(e.args[0])
            fl.setdefault('dF=0', {})[e.args[0]] = {}
    print('flavio extra', keys[len(seen):][:50], len(keys) - len(seen))
    write_basis('WET', 'flavio', {s: d for s, d in fl.items() if d})
    for e, sec in (('WET-4', jms4), ('WET-3', jms3)):
        o = wet.JMS_to_flavio(rnd(sec), 120.)
        nz = {k for k, v in o.items() if v != 0}
        d = {s: {k: v for k, v in ks.items() if k in nz} for s, ks in fl.items()}
        write_basis(e, 'flavio', {s: ks for s, ks in d.items() if ks and s in sec})
    # Bern
    out = wet.JMS_to_Bern(full, 120.)
    sec_of = {}

    def locate(fun, key_list):
        """sector of each output key: the JMS sector it reacts to first"""
        where = {}
        for s, ks in jms.items():
            o = fun({k: full[k] for k in ks}, 120.)
            for k, v in o.items():
                if v != 0 and k not in where:
                    where[k] = s
        res = {}
        for k in key_list:
            res.setdefault(where.get(k, 'dF=0'), {})[k] = {}
        return res
    keys = list(out)
    while True:
        bootstrap('WET', 'Bern', keys)
        try:
            wet.Bern_to_JMS({k: 1 + 1j for k in keys}, 120.)
            wet.Bern_to_flavio({k: 1 + 1j for k in keys}, 120.)
            break
        except KeyError as e:
            keys.append(e.args[0])
    print('Bern', len(out), 'extra', keys[len(out):])
    bern = locate(wet.JMS_to_Bern, keys)
    write_basis('WET', 'Bern', bern)
    for e, sec in (('WET-4', jms4), ('WET-3', jms3)):
        o = wet.JMS_to_Bern(rnd(sec), 120.)
        nz = {k for k, v in o.items() if v != 0}
        d = {s: {k: v for k, v in ks.items() if k in nz} for s, ks in bern.items()}
        write_basis(e, 'Bern', {s: ks for s, ks in d.items() if ks and s in sec})
    for b, fun in (('EOS', wet.JMS_to_EOS), ('formflavor', wet.JMS_to_FormFlavor)):
        o = fun(full, 120.)
        print(b, len(o))
        write_basis('WET', b, locate(fun, list(o)))
    d = json.load(open(REPO + '/wilson/data/flavorkit_jms.json'))
    dc = json.load(open(REPO + '/wilson/data/flavorkit_jms_conj.json'))
    fk = list(dict.fromkeys(list(d) + list(dc) + ['AVLL_2231', 'AVRR_2231'] + ['K2R_%d%d' % (i, j) for i in (1, 2, 3) for j in (1, 2, 3) if i != j]))
    fkj = {**d, **dc, 'AVLL_2231': 'VeeLL_1223', 'AVRR_2231': 'VeeRR_1223'}
    j2s = {k: s for s, ks in jms.items() for k in ks}
    res = {}
    for k in fk:
        j = fkj.get(k) or 'egamma_' + k[4:][::-1]
        res.setdefault(j2s.get(j, 'dF=0'), {})[k] = {}
    print('FlavorKit', len(fk))
    write_basis('WET', 'FlavorKit', res)
    # Higgs-Warsaw up
    wkeys = {k: v for ks in smeft.values() for k, v in ks.items()}
    o = smeft_higgs.warsaw_up_to_higgslike({k: 1.0 for k in wkeys}) if False else None
    superset = dict(wkeys)
    import inspect, re
    bootstrap('SMEFT', 'Higgs-Warsaw up', list(superset))
    # capture every key H the function produces by giving it an all-accepting basis
    class Any(list):
        def __contains__(self, x):
            return True
    b = wcxf.Basis['SMEFT', 'Higgs-Warsaw up']

    class EverythingBasis:
        all_wcs = Any()
    orig_set = set
    hk = {}
    import builtins
    # all_wcs is turned into a set by the code: feed keys until nothing is new
    src = inspect.getsource(smeft_higgs)
    cand = set(re.findall(r'H\["([A-Za-z0-9_]+)"', src))
    idx2 = [''.join(t) for t in itertools.product('123', repeat=2)]
    allc = list(superset) + [c for c in cand if c not in superset and not c.endswith('_')] + \
        [c + '_' + i for c in cand for i in idx2 if '_' not in c]
    allc = list(dict.fromkeys(allc))
    bootstrap('SMEFT', 'Higgs-Warsaw up', allc)
    W = {k: complex(rng.random(), 0 if v.get('real') else rng.random()) * 1e-6 for k, v in wkeys.items()}
    H = smeft_higgs.warsaw_up_to_higgslike(W)
    base_in = {k: complex(rng.random(), rng.random()) * 1e-6 for k in H}
    keep = None
    bootstrap('SMEFT', 'Higgs-Warsaw up', list(H))
    ref = smeft_higgs.higgslike_to_warsaw_up(base_in)
    keep = []
    for k in H:
        t = dict(base_in)
        t[k] = t[k] + 1e-3
        if smeft_higgs.higgslike_to_warsaw_up(t) != ref:
            keep.append(k)
    print('Higgs-Warsaw up', len(H), len(keep), [k for k in H if k not in wkeys][:80], [k for k in H if k in wkeys and k not in keep])
    hsec = {}
    for k in keep:
        s = 'dL=2' if k.startswith('llphiphi') else 'dB=dL=1' if k.split('_')[0] in ('duql', 'qque', 'qqql', 'duue') else 'dB=dL=0'
        real = wkeys[k].get('real') if k in wkeys else (len(k.split('_')) == 1 or (k.startswith('deltag') and k[-1] == k[-2] and 'WqR' not in k))
        hsec.setdefault(s, {})[k] = entry(real)
    write_basis('SMEFT', 'Higgs-Warsaw up', hsec)


if __name__ == '__main__':
    if '--base' in sys.argv:
        smeft = smeft_sectors()
    main()
