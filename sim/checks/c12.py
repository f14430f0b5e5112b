"""C12: command line tools never claim success for incomplete output."""
import collections
import copy
import gc
import io
import json
import os
import sys

from .. import core, work
from ..core import Violation, outcome
from ..work import World
from ..world import plane, RawDevice, stack
from . import c11, c13

ID = 'C12'
RUNS = {'quick': 1100, 'thorough': 40000}
CAP = {'quick': 300, 'thorough': 1500}
RULE = ('A run executes 1-4 command lines (convert, translate, match, validate, wcxf2eos, wcxf2smeftsim, wcxf2dsixtools, dsixtools2wcxf) with files, "-" and '
        'standard streams, on valid, invalid and damaged input, with errors and short transfers at a chosen byte of reading, writing, flushing or closing, failing '
        'opens, missing directories, and exceptions at a chosen line or in a library. Non-trivial: a command ended with status 0 and another one not, or a fault struck.')
REAL = ['wilson/wcxf/cli.py', 'wilson/wcxf/converters/', 'wilson/wcxf/classes.py', 'wilson/translate/', 'wilson/match/', 'argparse', 'pyyaml', 'pylha']
STUBS = [work.STUB_DEFS, 'disk, standard streams: raw devices with faults below the real io stacks', 'latex (simulated process)',
         'process exit: sys.exit semantics, flushing of standard output (status 120 on failure) and silent loss of errors of unclosed files are imitated']
ASSUMPTIONS = [work.ASSUME_DEFS, 'The console scripts call sys.exit(function()), as pip generates them.',
               'A cut YAML or LHA input may be valid; nothing is claimed for it.']
STATES = 'distinct (command, input, output, fault, status)'

SM_LHA = '''BLOCK GAUGE
    1    0.64
    2    0.36
    3    1.1
BLOCK SCALAR
    1    0.26
    2    8500.0
BLOCK GU
    1    1    0.000007
    2    2    0.0035
    3    3    0.95
BLOCK GD
    1    1    0.000014
    2    2    0.0003
    3    3    0.014
BLOCK GE
    1    1    0.000003
    2    2    0.0006
    3    3    0.01
'''

FAM = {'SMEFT': [('Warsaw', ['Warsaw up', 'Warsaw mass', 'Higgs-Warsaw up']), ('Warsaw up', ['Warsaw', 'Higgs-Warsaw up']), ('Warsaw mass', ['Warsaw']),
                 ('Higgs-Warsaw up', ['Warsaw', 'Warsaw up'])],
       'WET': [('JMS', ['flavio', 'Bern', 'EOS', 'EOS', 'formflavor', 'FlavorKit']), ('flavio', ['JMS', 'Bern']), ('Bern', ['JMS', 'flavio']),
               ('FlavorKit', ['JMS', 'flavio'])],
       'WET-4': [('JMS', ['flavio', 'Bern']), ('flavio', ['JMS', 'Bern']), ('Bern', ['JMS', 'flavio'])],
       'WET-3': [('JMS', ['flavio', 'Bern']), ('flavio', ['JMS', 'Bern']), ('Bern', ['JMS', 'flavio'])]}
UNREGISTERED = [('Warsaw mass', 'Warsaw')]


def sound(o):
    """Is this a valid command with valid input, whatever the library says?"""
    if o['bad'] or 'raw' in o or o['format'] not in (None, 'json', 'yaml'):
        return False
    d = o['data']
    if o['cmd'] == 'translate':
        return o['to'] in dict(FAM[d['eft']]).get(d['basis'], []) and (d['basis'], o['to']) not in UNREGISTERED
    return o['cmd'] == 'match' and (o['to'] == 'JMS' or o['eft'] == 'WET') or o['cmd'] == 'validate' and o['type'] == 'wc'


def gen_input(rng, o, spec, extra=None):
    """Fill in text (with format) of the input file."""
    d = {'eft': spec['eft'], 'basis': spec['basis'], 'scale': spec['scale'],
         'values': {k: ({'Re': v[0], 'Im': v[1]} if isinstance(v, list) else v) for k, v in spec['values'].items()}}
    o['infmt'] = o.get('infmt') or rng.choice(['json', 'json', 'yaml'])
    r = rng.random()
    o['bad'] = None
    if r < 0.1:
        o['bad'] = rng.choice(['coefficient', 'basis', 'eft', 'missing-key', 'values-not-numbers'])
        if o['bad'] == 'coefficient':
            d['values']['no_such_thing'] = 1.0
        elif o['bad'] == 'basis':
            d['basis'] = 'Nowhere'
        elif o['bad'] == 'eft':
            d['eft'] = 'QED'
        elif o['bad'] == 'missing-key':
            d.pop(rng.choice(['eft', 'basis', 'scale', 'values']))
        else:
            d['values'] = {k: 'not a number' for k in d['values']} or {'x': 'y'}
    o['data'] = d
    if r > 0.93:
        o['raw'] = rng.choice(['', '{', '[1, 2', '[null]', 'x: [', 'just text', '{"eft": "WET"', '\x00\x01'])


def gen_op(rng):
    o = {'cmd': rng.choice(['convert', 'translate', 'translate', 'match', 'validate', 'eos', 'smeftsim', 'w2d', 'd2w'])}
    c = o['cmd']
    o['in'] = rng.choice(['file', 'file', 'stdin', '-'])
    o['out'] = rng.choice(['file', 'file', 'stdout', '-', 'empty-option'])
    o['format'] = rng.choice([None, 'json', 'yaml'] if rng.random() < 0.85 else ['YAML', 'Json', 'toml', 'yml', 'jsonl'])
    if c == 'convert':
        fam = rng.choice(list(FAM))
        spec = work.point(rng, fam, FAM[fam][0][0], 160.0, rng.choice([1, 3, 60]))
        o['to'] = rng.choice(['json', 'yaml', 'JSON', 'yaml', 'xml'] if rng.random() < 0.3 else ['json', 'yaml'])
        o['infmt'] = rng.choice(['json', 'yaml']) if rng.random() < 0.2 else {'json': 'yaml'}.get(o['to'].lower(), 'json')
        gen_input(rng, o, spec)
    elif c in ('translate', 'validate'):
        fam = rng.choice(['WET', 'WET', 'WET-3', 'WET-4', 'SMEFT'])
        b, tos = rng.choice(FAM[fam])
        spec = work.point(rng, fam, b, 160.0, rng.choice([1, 3, 8, 60]))
        o['to'] = rng.choice(tos) if rng.random() < 0.92 else rng.choice(['Nowhere', 'EOS', b])
        gen_input(rng, o, spec)
        if c == 'validate':
            o['type'] = rng.choice(['wc', 'wc', 'wc', 'basis', 'eft', 'WC'])
            o.pop('to')
            if o['type'] == 'basis':
                o['data'] = {'eft': 'WET', 'basis': 'new', 'sectors': {'sb': {'a': {'tex': rng.choice(['C', r'\bad'])}}, rng.choice(['cu', 'odd', 'db']): {'b': None}}}
                o['bad'] = None
                r = rng.random()
                if r < 0.3:
                    o['data']['sectors'] = rng.choice([{}, {'sb': {}}, {'sb': {'a': None}, 'db': {'a': None}}])
                if r < 0.4:
                    o['data']['eft'] = rng.choice(['WET', 'QED', 'wet'])
                if rng.random() < 0.2:
                    o['data']['parent'] = rng.choice(['flavio', 'nope'])
            elif o['type'] == 'eft':
                o['data'] = {'eft': 'New', 'sectors': {}}
                if rng.random() < 0.2:
                    o['data'].pop('sectors')
                o['bad'] = None
    elif c == 'match':
        spec = work.point(rng, 'SMEFT', 'Warsaw', 91.1876, rng.choice([1, 3, 6]))
        o['eft'], o['to'] = ('WET', rng.choice(['JMS', 'flavio'] if rng.random() < 0.1 else ['JMS']))
        if rng.random() < 0.3:
            spec = work.point(rng, 'WET', 'JMS', 4.2, 3)
            o['eft'] = 'WET-4'
        gen_input(rng, o, spec)
    elif c == 'eos':
        spec = {'eft': 'WET', 'basis': 'EOS', 'scale': 4.2, 'values': {k: round(rng.uniform(-1, 1), 3) for k in rng.sample([k for k, _ in work.all_keys('WET', 'EOS')], 4)}}
        gen_input(rng, o, spec)
        o['files'] = c13.gen_files(rng)
        if rng.random() < 0.4:
            # more output than the buffers of one file hold
            o['files'] = dict(o['files'])
            o['files']['pad.yaml'] = dict({'pad%d' % i: {'central': 0.001 * i, 'min': -1.0, 'max': 1.0} for i in range(rng.choice([150, 300, 600]))},
                                          **{'@metadata@': {'wcxf-relevant': True}})
        if rng.random() < 0.25:
            o['eoshome'] = rng.choice(['home', 'home', 'nohome'])
            if rng.random() < 0.8:
                o['out'] = 'stdout'
        if rng.random() < 0.07:
            o['noeos'] = True
    elif c == 'smeftsim':
        spec = work.point(rng, 'SMEFT', 'Warsaw mass', 1000.0, rng.choice([1, 3, 6]))
        if rng.random() < 0.12:
            spec = work.point(rng, 'SMEFT', 'Warsaw', 1000.0, 2)
            o['answer'] = rng.choice(['i\n', 'I\n', ''])
        gen_input(rng, o, spec)
        o['in'] = 'file'
        o['out'] = rng.choice(['file', 'file', 'default'])
        o['opts'] = [rng.choice(['A', 'B']), rng.choice(['alpha', 'mw']), rng.choice([1000.0, 500.0, 2000.0])]
    elif c == 'w2d':
        gen_input(rng, o, work.point(rng, 'SMEFT', rng.choice(['Warsaw'] * 8 + ['Warsaw up']), 1000.0, rng.choice([1, 3, 8])))
    elif c == 'd2w':
        spec = work.point(rng, 'SMEFT', 'Warsaw', 1000.0, rng.choice([1, 3, 8]))
        gen_input(rng, o, spec)
        while o['bad'] or 'raw' in o:
            o.pop('raw', None)
            gen_input(rng, o, spec)
        o['in'] = 'file'
        o['infmt'] = 'lha'
        o['split'] = rng.choice(['two', 'two', 'one', 'no-sm', 'swap', 'missing-file', 'no-scales'])
    r = rng.random()
    if r < 0.35:
        size = 400
        if c == 'smeftsim':
            o['of'] = [c11.gen_fault(rng, 'write', rng.choice([10, 60000, 114000, 118000, 120000, 120500]))]
        elif rng.random() < 0.55:
            o['of'] = [c11.gen_fault(rng, 'write', rng.choice([10, size, 9000, 70000]))]
        else:
            o['if'] = [c11.gen_fault(rng, 'read', size)]
    elif r < 0.4:
        o['outdir'] = 'missing'
    elif r < 0.43:
        o['infile'] = 'missing'
    if 'pad.yaml' in o.get('files', {}) and not o['bad'] and rng.random() < 0.6:
        # an error that goes away while the output is written
        o['of'] = [{'op': 'write', 'after': rng.choice([0, 10, 5000, 9000]), 'err': rng.choice(['EIO', 'ENOSPC']), 'once': 1}]
        o.pop('if', None)
    return o


EXAMPLES = {}


def generate(rng, i):
    ops = [gen_op(rng) for _ in range(rng.choice([1, 2, 2, 3, 4]))]
    faults = []
    if rng.random() < 0.25:
        j = rng.randrange(len(ops))
        if rng.random() < 0.3 and ops[j]['cmd'] in ('translate', 'match', 'd2w'):
            faults.append({'op': j, 'lib': rng.choice(['ckm_tree', 'einsum']), 'act': 'MemoryError', 'call': 1})
        else:
            c = ops[j]['cmd']
            r2 = core.rng_of('c12-example', c)
            ex = gen_op(r2)
            while ex['cmd'] != c or ex['bad'] or 'raw' in ex or 'of' in ex or 'if' in ex or ex['out'] == '-' or 'noeos' in ex or 'outdir' in ex or 'infile' in ex or 'answer' in ex:
                ex = gen_op(r2)

            def make():
                plane.reset()
                plane.active = True
                sc = work.Scratch().__enter__()
                return lambda: (run(sc, ex), sc.__exit__())
            loc = work.pick_line(rng, work.lines_for(['c12', ex], make), ('wilson/wcxf/cli.py', 'wilson/wcxf/converters', 'wilson/wcxf/classes.py'))
            if loc:
                faults.append({'op': j, 'at': ['0.%d' % j, loc[0], loc[1]], 'do': 'raise', 'exc': rng.choice(['KeyboardInterrupt', 'MemoryError', 'OSError'])})
    return {'ops': ops, 'faults': faults}


# ---------------------------------------------------------------------------

def text_of(o):
    if 'raw' in o:
        return o['raw']
    if o['infmt'] == 'json':
        return json.dumps(o['data'])
    import yaml
    return yaml.safe_dump(o['data'], allow_unicode=True)


def lha_of(o):
    """DsixTools input files made without the package's own writer."""
    scale = o['data']['scale']
    names = {'G': ('WC1', 1), 'W': ('WC1', 3), 'phi': ('WC2', 1), 'phiBox': ('WC3', 1), 'phiD': ('WC3', 2), 'phiG': ('WC4', 1), 'phiB': ('WC4', 2),
             'phiW': ('WC4', 3), 'phiWB': ('WC4', 4)}
    blocks = {'SCALES': [[1, scale]]}
    for k, v in o['data']['values'].items():
        v = complex(v['Re'], v['Im']) if isinstance(v, dict) else complex(v)
        if '_' in k:
            op, idx = k.rsplit('_', 1)
            f = scale if op == 'llphiphi' else scale ** 2
            blocks.setdefault('WC' + op.upper(), []).append([int(c) for c in idx] + [v.real * f])
            if v.imag:
                blocks.setdefault('IMWC' + op.upper(), []).append([int(c) for c in idx] + [v.imag * f])
        elif k in names:
            b, n = names[k]
            blocks.setdefault(b, []).append([n, v.real * scale ** 2])
    t = {}
    for b, vs in blocks.items():
        t[b] = 'BLOCK %s\n' % b + ''.join('    ' + '    '.join(repr(x) for x in v) + '\n' for v in vs)
    sc = t.pop('SCALES')
    wc = ''.join(t.values())
    s = o['split']
    if s == 'one':
        return [sc + wc + SM_LHA]
    if s == 'no-sm':
        return [sc + wc]
    if s == 'no-scales':
        return [wc + SM_LHA]
    if s == 'swap':
        return [SM_LHA, wc + sc]
    return [sc + wc, SM_LHA]


CMD = {'convert': ('wcxf_cli', 'wcxf'), 'translate': ('wcxf_cli', 'wcxf'), 'match': ('wcxf_cli', 'wcxf'), 'validate': ('wcxf_cli', 'wcxf'),
       'eos': ('eos', 'wcxf2eos'), 'smeftsim': ('smeftsim', 'wcxf2smeftsim'), 'w2d': ('wcxf2dsixtools', 'wcxf2dsixtools'), 'd2w': ('dsixtools2wcxf', 'dsixtools2wcxf')}


def device(sc, name, mode, faults):
    p = sc.path(name)
    flags = os.O_RDONLY if mode == 'r' else os.O_WRONLY | os.O_CREAT | os.O_TRUNC
    fs = [f for f in faults if f['op'] in ('read', 'write', 'close')]
    return stack(RawDevice(os.open(p, flags, 0o644), mode, '<std%s>' % ('in' if mode == 'r' else 'out'), fs), mode, -1, 'utf-8')


def prepare(sc, o, tag=''):
    """Files and command line; returns argv, and where the output goes."""
    c = o['cmd']
    argv = [CMD[c][1]]
    where = 'stdout'
    if CMD[c][0] == 'wcxf_cli':
        argv.append(c)
    if c == 'convert':
        argv.append(o['to'])
    elif c == 'translate':
        argv.append(o['to'])
    elif c == 'match':
        argv += [o['eft'], o['to']]
    elif c == 'validate':
        argv.append(o['type'])
    if c == 'd2w':
        for n, t in enumerate(lha_of(o)):
            if not (o['split'] == 'missing-file' and n == 1):
                sc.put(tag + 'in%d.dat' % n, t)
            argv.append(sc.path(tag + 'in%d.dat' % n))
    else:
        sc.put(tag + 'in', text_of(o))
        if o.get('infile') == 'missing' and o['in'] == 'file':
            argv.append(sc.path('missing', 'in'))
        elif o['in'] == 'file':
            argv.append(sc.path(tag + 'in'))
        elif o['in'] == '-':
            argv.append('-')
    if c in ('translate', 'match') and o['format']:
        argv += ['--format', o['format']]
    if c == 'eos':
        for fn, d in o['files'].items():
            import yaml
            sc.put(tag + 'eos/share/eos/parameters/' + fn, yaml.safe_dump(d, allow_unicode=True))
        if not o.get('noeos'):
            os.makedirs(sc.path(tag + 'eos/share/eos/parameters'), exist_ok=True)
        else:
            import shutil
            shutil.rmtree(sc.path(tag + 'eos'), ignore_errors=True)
        argv += ['--eosprefix', sc.path(tag + 'eos')]
        if o.get('eoshome'):
            if o['eoshome'] == 'home':
                os.makedirs(sc.path(tag + 'home', 'parameters'), exist_ok=True)
            argv += ['--eoshome', sc.path(tag + o['eoshome'])]
    if c == 'smeftsim':
        argv += ['--model-set', o['opts'][0], '--input-scheme', o['opts'][1], '--cutoff-scale', repr(o['opts'][2])]
    if c != 'validate':
        if o['out'] == 'file':
            d = 'nodir/' if o.get('outdir') == 'missing' else ''
            where = tag + d + 'out'
            argv += ['--output', sc.path(where)]
        elif o['out'] == '-':
            argv += ['--output', '-']
        elif o['out'] == 'empty-option':
            argv += ['--output']
        elif o['out'] == 'default':
            where = 'cwd/wcxf2smeftsim_param_card.dat'
        if o.get('eoshome') and where == 'stdout':
            where = tag + o['eoshome'] + '/parameters/wcxf.yaml'
    return argv, where


def run(sc, o):
    """One process: command line, standard streams, exit."""
    from wilson.wcxf import cli
    argv, where = prepare(sc, o)
    os.makedirs(sc.path('cwd'), exist_ok=True)
    cwd = os.getcwd()
    os.chdir(sc.path('cwd'))
    inf, of = o.get('if', []), o.get('of', [])
    plane.files = {}
    stdin_text = text_of(o) if o['in'] in ('stdin', '-') and o['cmd'] != 'd2w' else o.get('answer', '')
    sc.put('stdin', stdin_text)
    if o['in'] == 'file':
        plane.files[sc.path('in')] = inf
        plane.files[sc.path('in0.dat')] = inf
    if where != 'stdout':
        plane.files[sc.path(where)] = of
    save = sys.argv, sys.stdin, sys.stdout, sys.stderr, sys.unraisablehook
    sys.argv = argv
    sys.stdin = device(sc, 'stdin', 'r', inf if o['in'] != 'file' else [])
    sys.stdout = device(sc, 'stdout', 'w', of if where == 'stdout' else [])
    sys.stderr = io.StringIO()
    sys.unraisablehook = lambda *a: None
    real_out = sys.stdout
    err = ''
    try:
        try:
            code = getattr(cli, CMD[o['cmd']][0])()
            sys.exit(code)
        except SystemExit as e:
            code = e.code
            if code is None:
                code = 0
            elif not isinstance(code, int):
                code = 1
            code &= 0xff
            e.__traceback__ = None
        except BaseException as e:
            code = 1
            err = '%s: %s' % (type(e).__name__, str(e)[:200])
            e.__traceback__ = None
        # interpreter shutdown: flush_std_files(), then what is left of open files is
        # flushed by the garbage collector, whose errors nobody sees
        out = sys.stdout
        try:
            if not out.closed:
                out.flush()
        except BaseException:
            code = 120
    finally:
        sys.argv, sys.stdin, sys.stdout, sys.stderr = save[:4]
        e = None
        plane_files = plane.files
        gc.collect()
        try:
            real_out.close()
        except BaseException:
            pass
        gc.collect()
        sys.unraisablehook = save[4]
        plane.files = {}
        os.chdir(cwd)
    return {'code': code, 'err': err, 'out': sc.get(where), 'where': where}


def library(o):
    """What the library gives for the same input: ('ok', text) / ('err', ..)"""
    from wilson import wcxf
    import yaml
    with work.Scratch() as sc:
        plane.reset()
        plane.latex = {'kind': 'by-source', 'bad_macros': [r'\bad']}
        plane.active = True
        argv, where = prepare(sc, o)
        try:
            return ('ok', _library(o, sc))
        except BaseException as e:
            return ('err', type(e).__name__, str(e)[:200])


def _library(o, sc):
    from wilson import wcxf
    from wilson.wcxf.converters import dsixtools, eos, smeftsim
    import yaml
    import pylha
    c = o['cmd']
    t = text_of(o) if c != 'd2w' else None
    if c == 'convert':
        if o['to'].lower() == 'json':
            return json.dumps(yaml.safe_load(t))
        if o['to'].lower() == 'yaml':
            return yaml.safe_dump(json.loads(t))
        raise ValueError('format')
    if c == 'translate':
        return wcxf.WC.load(t).translate(o['to']).dump(fmt=o['format'] or 'json')
    if c == 'match':
        return wcxf.WC.load(t).match(o['eft'], o['to']).dump(fmt=o['format'] or 'json')
    if c == 'validate':
        if o['type'] == 'eft':
            wcxf.EFT.load(t)
        elif o['type'] == 'basis':
            wcxf.Basis.load(t).validate()
        elif o['type'] == 'wc':
            wcxf.WC.load(t).validate()
        else:
            raise ValueError('type')
        return ''
    if c == 'd2w':
        if o['split'] == 'missing-file':
            raise OSError('missing')
        return dsixtools.dsixtools2wcxf(tuple(lha_of(o)))
    wc = wcxf.WC.load(t)
    wc.validate()
    if c == 'w2d':
        return dsixtools.wcxf2dsixtools(wc)
    if c == 'eos':
        if o.get('eoshome') and (o['out'] == 'file' or o['eoshome'] == 'nohome'):
            raise ValueError('both / no such directory')
        d = eos.wcxf2eos(wc, eos.get_sm_wcs(sc.path('eos/share/eos/parameters')))
        return yaml.safe_dump({k: dict(v) for k, v in d.items()})
    if c == 'smeftsim':
        if wc.basis != 'Warsaw mass' and not o.get('answer'):
            raise EOFError()
        m, s, l = o['opts']
        card = smeftsim.smeftsim_card_fill(smeftsim.initialize_smeftsim_card(m), wc, m, l, s)
        x = smeftsim.smeftsim_card_text(m, s)
        return x[0] + pylha.dump(card, fmt='lha') + x[1]


def execute(plan):
    with World(plan) as world:
        plane.latex = {'kind': 'by-source', 'bad_macros': [r'\bad']}
        trace = []
        opsC, outC, states = collections.Counter(), collections.Counter(), set()
        codes = set()
        hits = 0
        HARMLESS = ('disk:short-read', 'disk:short-write', 'disk:torn-file', 'latex:rejects-source')
        for i, o in enumerate(plan['ops']):
            with work.Scratch() as sc:
                world.begin(i)
                b = sum(v for k, v in plane.fired.items() if k not in HARMLESS)
                t = plane.fired['disk:torn-file']
                r = run(sc, o)
                hit = sum(v for k, v in plane.fired.items() if k not in HARMLESS) - b + world.sim.hits['0.%d' % i]
                torn = plane.fired['disk:torn-file'] - t
                world.end()
            opsC[o['cmd']] += 1
            outC['%s:%s' % (o['cmd'], r['code'])] += 1
            codes.add(r['code'] == 0)
            hits += hit
            trace.append([i, hit, torn, r])
            states.add(core.digest([o['cmd'], o['in'], o['out'], o.get('of'), o.get('if'), o.get('bad'), r['code']]))
    return {'trace': [[i, h, t, r['code'], core.digest(repr(r['out']))] for i, h, t, r in trace], 'full': trace, 'faults': world.faults(),
            'ops': opsC, 'outcomes': outC, 'states': states, 'steps': world.sim.step, 'nontrivial': len(codes) > 1 or hits > 0}


def clean(o):
    return {k: v for k, v in o.items() if k not in ('if', 'of', 'outdir', 'infile')}


def same_output(o, got, want):
    """None or what is wrong with the output."""
    import yaml
    text = got.decode('utf-8')
    c = o['cmd']
    fmt = {'convert': o.get('to', '').lower(), 'translate': (o['format'] or 'json').lower(), 'match': (o['format'] or 'json').lower(), 'd2w': 'yaml', 'eos': 'yaml'}.get(c)
    if fmt is None:
        if c == 'smeftsim' and o.get('where') == 'stdout':
            return None
        return None if text == want else 'first difference at byte %d of %d (should be %d bytes)' % (
            next((n for n, (a, b) in enumerate(zip(text, want)) if a != b), min(len(text), len(want))), len(text), len(want))
    ld = (lambda s: json.loads(s)) if fmt == 'json' else yaml.safe_load
    try:
        a = ld(text)
    except Exception as e:
        return 'it cannot be read: %s' % str(e)[:200]
    b = yaml.safe_load(want) if fmt == 'yaml' else json.loads(want)
    return None if near(a, b) else 'it holds %s instead of %s' % (str(a)[:300], str(b)[:300])


def near(a, b):
    if isinstance(a, float) and isinstance(b, float) and a == a and b == b:
        return abs(a - b) <= 1e-9 * max(abs(a), abs(b)) + 1e-25
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(near(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(near(x, y) for x, y in zip(a, b))
    return c11.same(a, b)


def judge(plan, obs, refs):
    out = []
    for i, hit, torn, r in obs['full']:
        o = plan['ops'][i]
        what = 'command %d %s' % (i, json.dumps({k: v for k, v in o.items() if k not in ('data', 'files')}))
        if torn and (o['infmt'] != 'json' or o['cmd'] == 'd2w' or 'raw' in o or o['cmd'] == 'convert' and min(f.get('torn', 1) for f in o['if']) == 0):
            continue                       # what was left may have been valid (an empty file is a valid document for convert)
        # (a torn JSON document is never valid, unless only trailing blanks are missing)
        ref = refs('library', clean(o))
        broken = ref[0] == 'err' and sound(o)      # the library fails where it must not
        must_fail = ref[0] == 'err' and not broken or o.get('outdir') and r['where'] != 'stdout' and o['out'] == 'file' or \
            o.get('infile') and o['in'] == 'file' and o['cmd'] != 'd2w'
        if torn and _really(o):
            must_fail = True
        if r['code'] == 0:
            if must_fail:
                out.append(Violation('success-where-failure', '%s ends with status 0; %s' % (what, 'the library call raises %s: %s' % ref[1:] if ref[0] == 'err' else 'a file is missing or cut')))
                continue
            if o['cmd'] == 'validate':
                if r['out'] is None or b'successful' not in r['out']:
                    out.append(Violation('incomplete-output', '%s ends with status 0 but printed %r' % (what, r['out'])))
                continue
            if r['out'] is None:
                out.append(Violation('incomplete-output', '%s ends with status 0 but there is no output' % what))
                continue
            d = None if broken else same_output(o, r['out'], ref[1])
            if d:
                out.append(Violation('incomplete-output', '%s ends with status 0 but the output is wrong: %s' % (what, d)))
        elif not must_fail and not hit and not torn:
            out.append(Violation('needless-failure', '%s ends with status %r (%s) although nothing failed' % (what, r['code'], r['err'])))
    return out


def _really(o):
    t = text_of(o)
    torn = [f['torn'] for f in o.get('if', []) if 'torn' in f]
    return bool(torn) and min(torn) < len(t.rstrip())


def reference(name, o):
    return library(o)


def fix_shrunk(plan, path, removed):
    return work.move_faults(plan, removed) if path == ('ops',) else plan
