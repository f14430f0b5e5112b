"""Driver:  python -m sim <ID> --tier quick|thorough [--seed N] [--runs N]
           python -m sim <ID> --replay FILE
           python -m sim <ID> --determinism N     (every plan twice, compare)
"""
import os
import sys
import time
import json
import copy
import pickle
import select
import signal
import argparse
import collections
import importlib
import struct
import warnings

from . import core
from .core import Violation, Refs, run_plan, derive, rng_of, obs_digest, HarnessError

EVID = os.path.join(core.VERIF, 'evidence')
KNOWN = os.path.join(core.VERIF, 'known-findings.txt')
WORKERS = int(os.environ.get('VERIF_WORKERS', '8'))


def load_known(pid):
    """Lines `known: property=<id> sig=<sig> <what fails>`; `fixed:` lines
    suppress nothing."""
    out = {}
    try:
        with open(KNOWN) as f:
            for l in f:
                if l.startswith('known: '):
                    parts = l.split(None, 3)
                    if parts[1] == 'property=' + pid and parts[2].startswith('sig='):
                        out[parts[2][4:]] = parts[3].strip() if len(parts) > 3 else ''
    except FileNotFoundError:
        pass
    return out


def make_plan(check, seed, i):
    s = derive(seed, check.ID, i)
    rng = rng_of('plan', s)
    check.SEED = seed
    plan = check.generate(rng, i)
    plan['property'] = check.ID
    plan['seed'] = s
    plan['index'] = i
    # what is executed is exactly what a replay file contains
    return json.loads(json.dumps(plan))


# ---------------------------------------------------------------------------

def worker(check, seed, tier, first, step, limit, deadline, wfd, known):
    refs = Refs(check)
    stat = {'runs': 0, 'faults': collections.Counter(), 'ops': collections.Counter(),
            'outcomes': collections.Counter(), 'inter': set(), 'states': set(),
            'plans': set(), 'steps': 0, 'sample': None, 'known': {}, 'deterministic': 0,
            'nondeterministic': [], 'nontrivial': set(), 'extra': collections.Counter()}
    found = []
    err = None
    i = first
    stop = []
    signal.signal(signal.SIGUSR1, lambda *_: stop.append(1))
    while i < limit and time.monotonic() < deadline and not stop:
        try:
            plan = make_plan(check, seed, i)
            res = run_plan(check, plan, refs)
        except HarnessError as e:
            err = 'run %d: %s' % (i, e)
            break
        except Exception as e:
            import traceback
            err = 'run %d: %s' % (i, traceback.format_exc())
            break
        o = res['obs']
        stat['runs'] += 1
        stat['faults'].update(o.get('faults', {}))
        stat['ops'].update(o.get('ops', {}))
        stat['outcomes'].update(o.get('outcomes', {}))
        stat['extra'].update(o.get('extra', {}))
        stat['steps'] += o.get('steps', 0)
        if 'inter' in o:
            stat['inter'].add(o['inter'])
        stat['states'].update(o.get('states', ()))
        core_plan = {k: v for k, v in plan.items() if k not in ('seed', 'index')}
        d = core.digest(core_plan)
        stat['plans'].add(d)
        if o.get('nontrivial', True):
            stat['nontrivial'].add(d)
        if stat['sample'] is None and o.get('nontrivial', True):
            stat['sample'] = plan
        if not res['violations'] and stat['runs'] % 97 == 1:
            # determinism probe: the same plan again gives the same history
            try:
                r2 = run_plan(check, plan, refs)
                if obs_digest(r2['obs']) == obs_digest(o):
                    stat['deterministic'] += 1
                else:
                    stat['nondeterministic'].append(i)
            except HarnessError:
                pass
        bad = []
        for v in res['violations']:
            if v['sig'] in known:
                stat['known'][v['sig']] = v['msg']
            else:
                bad.append(v)
        if bad:
            found.append((plan, bad))
            break
        i += step
    data = pickle.dumps((stat, found, err))
    core._write_all(wfd, data)
    os.close(wfd)


def explore(check, seed, tier, limit, cap, known):
    deadline = time.monotonic() + cap
    n = min(WORKERS, max(1, limit))
    procs = []
    for k in range(n):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            try:
                worker(check, seed, tier, k, n, limit, deadline, w, known)
            except BaseException:
                import traceback
                traceback.print_exc()
                os._exit(98)
            os._exit(0)
        os.close(w)
        procs.append((pid, r))
    bufs = {r: [] for _, r in procs}
    results = []
    open_fds = set(bufs)
    stop_at = None
    while open_fds:
        rl, _, _ = select.select(list(open_fds), [], [], 1.0)
        for r in rl:
            b = os.read(r, 1 << 20)
            if b:
                bufs[r].append(b)
            else:
                open_fds.discard(r)
                os.close(r)
                data = b''.join(bufs[r])
                if data:
                    res = pickle.loads(data)
                    results.append(res)
                    if res[1] and stop_at is None:
                        stop_at = time.monotonic() + 30.0
                        for pid, r2 in procs:
                            if r2 in open_fds:
                                os.kill(pid, signal.SIGUSR1)
                else:
                    results.append((None, [], 'a worker died'))
        if stop_at and time.monotonic() > stop_at and open_fds:
            for pid, r in procs:
                if r in open_fds:
                    _kill_tree(pid)
            stop_at = time.monotonic() + 1e9
    for pid, _ in procs:
        try:
            os.waitpid(pid, 0)
        except ChildProcessError:
            pass
    return results


def _kill_tree(pid):
    # children of a worker sit in their own process groups; they end by
    # themselves when their pipe breaks
    try:
        os.kill(pid, signal.SIGKILL)
    except OSError:
        pass


# ---------------------------------------------------------------------------
# minimisation

def _still(check, plan, kind, refs):
    try:
        r = run_plan(check, plan, refs)
    except Exception:
        return None
    for v in r['violations']:
        if v['kind'] == kind:
            return v, r['obs']
    return None


def shrink(check, plan, kind, refs, budget_s=60, budget_n=300):
    t_end = time.monotonic() + budget_s
    n = [0]
    best = plan

    def test(p):
        if n[0] >= budget_n or time.monotonic() > t_end:
            return False
        n[0] += 1
        return _still(check, p, kind, refs) is not None

    def ddmin(p, path):
        lst = _get(p, path)
        if not isinstance(lst, list) or not lst:
            return p
        gran = 2
        # an empty list first
        q = copy.deepcopy(p)
        _set(q, path, [])
        if path[-1] != 'ops' and test(q):
            return q
        while len(_get(p, path)) >= 1:
            lst = _get(p, path)
            size = max(1, len(lst) // gran)
            done = False
            for s in range(0, len(lst), size):
                q = copy.deepcopy(p)
                new = lst[:s] + lst[s + size:]
                _set(q, path, new)
                fix = getattr(check, 'fix_shrunk', None)
                if fix:
                    q = fix(q, path, list(range(s, min(len(lst), s + size))))
                    if q is None:
                        continue
                if test(q):
                    p = q
                    done = True
                    gran = max(2, gran - 1)
                    break
            if not done:
                if size == 1:
                    break
                gran = min(len(lst), gran * 2)
        return p
    changed = True
    rounds = 0
    while changed and rounds < 3 and time.monotonic() < t_end:
        rounds += 1
        before = json.dumps(best, sort_keys=True)
        for path in check.shrink_paths(best) if hasattr(check, 'shrink_paths') else _paths(best):
            best = ddmin(best, path)
        for cand in (check.simplify(best) if hasattr(check, 'simplify') else ()):
            if test(cand):
                best = cand
        changed = json.dumps(best, sort_keys=True) != before
    return best, n[0]


def _paths(plan):
    out = []
    for k in ('faults', 'sched', 'ops'):
        if isinstance(plan.get(k), list):
            out.append((k,))
    if isinstance(plan.get('threads'), list):
        for t in range(len(plan['threads'])):
            out.append(('threads', t))
    return out


def _get(p, path):
    for k in path:
        try:
            p = p[k]
        except (IndexError, KeyError):
            return None          # went away with another part of the plan
    return p


def _set(p, path, v):
    for k in path[:-1]:
        p = p[k]
    p[path[-1]] = v


# ---------------------------------------------------------------------------

def boot(check):
    """Install the seams and import the package from /repo."""
    warnings.simplefilter('ignore')
    import logging
    logging.disable(logging.CRITICAL)
    sys.path.insert(0, core.REPO)
    from . import world
    world.install()
    if getattr(check, 'IMPORT', True):
        import wilson
        assert wilson.__file__.startswith(core.PKG), wilson.__file__
        import wilson.wcxf.cli, wilson.wcxf.converters.eos
        import wilson.wcxf.converters.dsixtools, wilson.wcxf.converters.smeftsim
        from . import sched
        sched.codes_for(())
        world.install_ids()
    if hasattr(check, 'warm'):
        check.warm()
    import gc
    gc.collect()
    gc.freeze()


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('id', nargs='?')
    ap.add_argument('--selftest', action='store_true')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1')))
    ap.add_argument('--runs', type=int)
    ap.add_argument('--cap', type=float)
    ap.add_argument('--replay')
    ap.add_argument('--determinism', type=int)
    ap.add_argument('--show', type=int, help='print plan number N and what it did')
    ap.add_argument('--no-shrink', action='store_true')
    a = ap.parse_args(argv)
    t0 = time.monotonic()
    if a.selftest:
        return selftest()
    check = importlib.import_module('sim.checks.' + a.id.lower().replace('-', '_'))
    if os.path.exists('/repo/wilson/__init__.py') is False:
        print('HARNESS-ERROR no /repo/wilson')
        return 2
    try:
        boot(check)
    except Exception:
        import traceback
        traceback.print_exc()
        print('HARNESS-ERROR property=%s: the package cannot be imported' % check.ID)
        return 2
    if hasattr(check, 'setup'):
        check.setup()
    refs = Refs(check)
    if a.replay:
        return replay(check, a.replay, refs)
    if a.show is not None:
        plan = make_plan(check, a.seed, a.show)
        print(json.dumps(plan, indent=1))
        r = run_plan(check, plan, refs)
        print(json.dumps(r, indent=1, default=repr)[:6000])
        return 0
    if a.determinism:
        bad = 0
        for i in range(a.determinism):
            plan = make_plan(check, a.seed, i)
            d1 = obs_digest(run_plan(check, plan, refs)['obs'])
            d2 = obs_digest(run_plan(check, plan, refs)['obs'])
            if d1 != d2:
                bad += 1
                print('NOT DETERMINISTIC', i)
        print('determinism: %d plans twice, %d differ' % (a.determinism, bad))
        return 1 if bad else 0

    tier = a.tier
    limit = a.runs or check.RUNS[tier]
    cap = a.cap or check.CAP[tier]
    known = load_known(check.ID)
    results = explore(check, a.seed, tier, limit, cap, known)
    stat = merge([r[0] for r in results if r[0]])
    errs = [r[2] for r in results if r[2]]
    found = [f for r in results for f in r[1]]
    found.sort(key=lambda f: f[0]['index'])
    for sig, msg in sorted(stat['known'].items()):
        print('KNOWN-FINDING: property=%s %s' % (check.ID, known.get(sig) or msg))
    code = 0
    nviol = 0
    seen = set()
    for plan, vs in found:
        kind = vs[0]['kind']
        if kind in seen or len(seen) >= 2:
            continue
        again = None
        for _ in range(3):
            again = _still(check, plan, kind, refs)
            if again:
                break
        if not again:
            errs.append('violation %s of run %d did not reproduce: %s' % (kind, plan['index'], vs[0]['msg']))
            continue
        seen.add(kind)
        small, tried = (plan, 0) if a.no_shrink else shrink(check, plan, kind, refs)
        fin = _still(check, small, kind, refs) or again
        v, obs = fin
        path = write_replay(check, small, v, obs, plan, tried)
        nviol += 1
        code = 1
        print('VIOLATION property=%s replay=%s' % (check.ID, path))
        print('  kind: %s' % v['kind'])
        print('  %s' % v['msg'])
        print('  minimised from %d to %d plan items in %d executions; seed %d (run %d of VERIF_SEED=%d)'
              % (size(plan), size(small), tried, plan['seed'], plan['index'], a.seed))
    wall = time.monotonic() - t0
    write_evidence(check, a, tier, stat, wall, nviol, limit, cap, errs)
    if errs and code == 0:
        for e in errs[:5]:
            print('HARNESS-ERROR property=%s %s' % (check.ID, e))
        return 2
    print('%s: %d simulated runs, %d distinct, %d faults injected, %d violations, %.1f s'
          % (check.ID, stat['runs'], len(stat['plans']), sum(stat['faults'].values()), nviol, wall))
    return code


def selftest():
    """Nothing is compiled: see that the package and the machinery load."""
    class C:
        IMPORT = True
    boot(C)
    from wilson import wcxf
    st = core.fork_call(lambda: sorted(wcxf.EFT.instances))
    assert st[0] == 'ok' and 'SMEFT' in st[1], st
    d = os.path.join(core.HERE, 'checks')
    for f in sorted(os.listdir(d)):
        if f.startswith('c') and f.endswith('.py'):
            importlib.import_module('sim.checks.' + f[:-3])
    print('selftest: ok (python %s)' % sys.version.split()[0])
    return 0


def size(plan):
    n = 0
    for k in ('ops', 'faults', 'sched'):
        v = plan.get(k)
        if isinstance(v, list):
            n += len(v)
    for t in plan.get('threads') or []:
        n += len(t)
    return n


def merge(stats):
    out = None
    for s in stats:
        if out is None:
            out = s
            continue
        for k in ('faults', 'ops', 'outcomes', 'extra'):
            out[k].update(s[k])
        for k in ('inter', 'states', 'plans', 'nontrivial'):
            out[k] |= s[k]
        out['runs'] += s['runs']
        out['steps'] += s['steps']
        out['deterministic'] += s['deterministic']
        out['nondeterministic'] += s['nondeterministic']
        out['known'].update(s['known'])
        out['sample'] = out['sample'] or s['sample']
    return out or {'runs': 0, 'faults': collections.Counter(), 'ops': collections.Counter(),
                   'outcomes': collections.Counter(), 'extra': collections.Counter(), 'inter': set(),
                   'states': set(), 'plans': set(), 'nontrivial': set(), 'steps': 0, 'sample': None,
                   'known': {}, 'deterministic': 0, 'nondeterministic': []}


def write_replay(check, plan, v, obs, original, tried):
    d = os.path.join(EVID, 'replay')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '%s-%s.json' % (check.ID, core.digest([plan, v['kind']])[:10]))
    with open(p, 'w') as f:
        json.dump({'property': check.ID, 'violation': v, 'plan': plan,
                   'history_digest': obs_digest(obs),
                   'history': obs.get('trace'),
                   'found_by': {'seed': original['seed'], 'run': original['index'],
                                'items_before': size(original), 'items_after': size(plan),
                                'executions_to_minimise': tried},
                   'replay_with': 'cd /verif && ./check %s --replay %s' % (check.ID, p)},
                  f, indent=1, default=repr)
    return p


def replay(check, path, refs):
    with open(path) as f:
        r = json.load(f)
    res = run_plan(check, r['plan'], refs)
    same = obs_digest(res['obs']) == r['history_digest']
    for v in res['violations']:
        print('VIOLATION property=%s replay=%s' % (check.ID, path))
        print('  kind: %s\n  %s' % (v['kind'], v['msg']))
    print('replay: %d violation(s); history %s the recorded one'
          % (len(res['violations']), 'identical to' if same else 'DIFFERS from'))
    return 1 if res['violations'] else 0


def write_evidence(check, a, tier, st, wall, nviol, limit, cap, errs):
    os.makedirs(EVID, exist_ok=True)
    sample = st['sample']
    cov = {
        'evaluations': st['runs'],
        'distinct_nontrivial': len(st['nontrivial']),
        'rule': check.RULE,
        'samples': [sample] if sample else [],
        'runs_planned': limit,
        'runs_per_hour': round(3600 * st['runs'] / wall) if wall else 0,
        'seeds_per_hour': round(3600 * st['runs'] / wall) if wall else 0,
        'simulated_time': '%d seconds of waiting for processes' % st['extra']['simulated_seconds'] if st['extra'].get('simulated_seconds') else
        check.__dict__.get('SIMTIME', 'no clock or timer takes part; time is counted in scheduler steps: %d' % st['steps']),
        'scheduler_steps': st['steps'],
        'operations': dict(sorted(st['ops'].items())),
        'operation_outcomes': dict(sorted(st['outcomes'].items())),
        'faults_injected': dict(sorted(st['faults'].items())),
        'faults_injected_total': sum(st['faults'].values()),
        'distinct_plans': len(st['plans']),
        'distinct_interleavings': len(st['inter']),
        'interleaving_measure': 'distinct sequences of (thread.operation@file:line -> thread) baton hand-overs',
        'distinct_states': len(st['states']),
        'state_measure': getattr(check, 'STATES', 'distinct digests of the abstract state after each operation'),
        'determinism_probes': {'same_history': st['deterministic'], 'different': st['nondeterministic']},
        'real_code': check.REAL,
        'stubs': check.STUBS,
    }
    if st['extra']:
        cov['counters'] = dict(sorted(st['extra'].items()))
    ev = {'property': check.ID, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': a.seed,
          'level': 'exploration', 'coverage': cov,
          'assumptions': check.ASSUMPTIONS, 'wall_s': round(wall, 2), 'violations': nviol}
    if errs:
        ev['coverage']['harness_errors'] = errs[:5]
    tmp = os.path.join(EVID, '.%s.tmp' % check.ID)
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1, default=repr)
    os.replace(tmp, os.path.join(EVID, check.ID + '.json'))
