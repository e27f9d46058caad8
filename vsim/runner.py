"""Seeded search over simulated runs, minimisation, replay and evidence."""
import argparse
import contextlib
import ctypes
import copy
import gc
import hashlib
import importlib
import json
import logging
import os
import random
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

from . import seam

ROOT = seam.ROOT
PY = '/opt/venv/bin/python'
if not os.path.exists(PY):
    PY = sys.executable


class Invalid(BaseException):
    """The scenario cannot be executed as such (only met while shrinking)."""


class Ctx:
    """What one process gathers over its runs."""

    def __init__(self):
        self.storage = seam.Storage()
        self.counts = {}
        self.states = set()
        self.steps = 0
        self.simsec = 0.0

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def state(self, *key):
        """Remember a distinct state/interleaving reached."""
        h = hashlib.blake2b(repr(key).encode(), digest_size=7).hexdigest()
        self.states.add(h)


class Check:
    id = None
    title = ''
    quick = (400, 45)            # runs, wall seconds
    thorough = (20000, 600)
    state_rule = 'distinct scenarios'
    real = []
    stub = []
    faults = []
    assumptions = []
    level = 'exploration'

    def gen(self, rng, i, tier):
        raise NotImplementedError

    def run(self, sc, ctx):
        raise NotImplementedError

    def nontrivial(self, sc):
        return True

    def fixed(self):
        """Scenarios always run first (known shapes of trouble)."""
        return []

    def shrinks(self, sc):
        return shrink_json(sc)


def shrink_json(sc):
    """Smaller variants of a scenario, large reductions first."""
    paths = []

    def walk(o, path):
        if isinstance(o, list):
            paths.append((path, 'list', len(o)))
            for i, v in enumerate(o):
                walk(v, path + [i])
        elif isinstance(o, dict):
            for k in o:
                walk(o[k], path + [k])
        elif isinstance(o, bool):
            if o:
                paths.append((path, 'bool', 1))
        elif isinstance(o, int):
            if o:
                paths.append((path, 'int', abs(o)))
        elif isinstance(o, str):
            if len(o) > 1:
                paths.append((path, 'str', len(o)))
        elif isinstance(o, float):
            if o:
                paths.append((path, 'float', 1))
    walk(sc, [])

    def at(root, path):
        for p in path:
            root = root[p]
        return root

    def setv(path, v):
        c = copy.deepcopy(sc)
        if not path:
            return v
        at(c, path[:-1])[path[-1]] = v
        return c
    lists = [p for p in paths if p[1] == 'list']
    for path, _, n in sorted(lists, key=lambda p: -p[2]):
        size = n // 2
        while size >= 1:
            for s in range(0, n, size):
                v = list(at(sc, path))
                del v[s:s + size]
                yield setv(path, v)
            size //= 2
    for path, kind, n in paths:
        v = at(sc, path)
        if kind == 'bool':
            yield setv(path, False)
        elif kind == 'int':
            for nv in (0, 1, v // 2, v - 1 if v > 0 else v + 1):
                if nv != v and abs(nv) <= abs(v):
                    yield setv(path, nv)
        elif kind == 'float':
            yield setv(path, 0.0)
        elif kind == 'str' and path and path[-1] in ('n', 'v'):
            yield setv(path, v[:1])
            yield setv(path, v[:len(v) // 2])


def cls(msg):
    return ':'.join(msg.split(':')[:2])[:60]


def scenario_of(check, seed, i, tier):
    fixed = check.fixed()
    if i < len(fixed):
        return fixed[i]
    rng = random.Random('%s/%s/%s' % (seed, check.id, i))
    sc = check.gen(rng, i, tier)
    w = random.Random('world/%s/%s/%s' % (seed, check.id, i))
    if isinstance(sc, dict) and w.random() < .25:
        sc['world'] = {k: w.random() < .4 for k in WORLD}
    return sc


# what the program around the library may have set and no result depends on
WORLD = ['print', 'umask', 'gc', 'log', 'seed', 'digits']


@contextlib.contextmanager
def world(w):
    w = w if isinstance(w, dict) else {}
    undo = []
    try:
        if w.get('print'):
            import numpy as np
            old = np.get_printoptions()
            undo.append(lambda: np.set_printoptions(**old))
            np.set_printoptions(precision=1, threshold=3, edgeitems=1,
                                linewidth=20, suppress=True)
        if w.get('umask'):
            mask = os.umask(0o077)
            undo.append(lambda: os.umask(mask))
        if w.get('gc') and gc.isenabled():
            gc.disable()
            undo.append(gc.enable)
        if w.get('log'):
            # everything is logged, by a handler that reports bad messages
            log = logging.getLogger('pyDARNio')
            level, off = log.level, logging.root.manager.disable
            h = Strict()
            log.addHandler(h)
            log.setLevel(1)
            logging.disable(0)
            out = logging.lastResort
            logging.lastResort = None

            def back():
                logging.lastResort = out
                log.removeHandler(h)
                log.setLevel(level)
                logging.disable(off)
            undo.append(back)
        if w.get('seed'):
            import numpy as np
            r, n = random.getstate(), np.random.get_state()
            random.seed(5)
            np.random.seed(5)

            def back2():
                random.setstate(r)
                np.random.set_state(n)
            undo.append(back2)
        if w.get('digits'):
            nd = sys.get_int_max_str_digits()
            sys.set_int_max_str_digits(640)
            undo.append(lambda: sys.set_int_max_str_digits(nd))
        yield
    finally:
        for f in reversed(undo):
            f()


class Strict(logging.Handler):
    def emit(self, record):
        record.getMessage()

    def handle(self, record):
        self.emit(record)


def execute(check, sc, ctx):
    """Returns None or a violation message.  Harness trouble propagates."""
    ctx.storage.fresh()
    try:
        with world(isinstance(sc, dict) and sc.get('world')):
            return check.run(sc, ctx)
    except Exception as e:
        # no check expects this one; what passed through the library's code
        # is what the library answered
        at = None
        for f, _ in traceback.walk_tb(e.__traceback__):
            if inside(f.f_code.co_filename):
                at = f.f_code.co_name
        if at is None:
            raise Trouble(traceback.format_exc())
        return 'in %s: %s' % (at, type(e).__name__)


def inside(fn, root=os.path.realpath(seam.REPO) + os.sep):
    return os.path.realpath(fn).startswith(root)


class Trouble(Exception):
    """The check itself failed; the run has no verdict."""


# --------------------------------------------------------------------------

def load(cid):
    mod = importlib.import_module('checks.' + cid.lower())
    return mod.CHECK


def import_code():
    sys.path.insert(0, seam.REPO)
    import warnings
    warnings.simplefilter('ignore')
    import logging
    logging.disable(logging.CRITICAL)
    import pydarnio
    got = os.path.dirname(os.path.dirname(os.path.abspath(pydarnio.__file__)))
    if os.path.realpath(got) != os.path.realpath(seam.REPO):
        raise RuntimeError('pydarnio imported from ' + got)


def child_env():
    # the same addresses in every process (0x0040000: ADDR_NO_RANDOMIZE),
    # as far as the system permits it
    try:
        lib = ctypes.CDLL(None)
        lib.personality(lib.personality(ctypes.c_ulong(0xffffffff))
                        | 0x0040000)
    except Exception:
        pass
    env = dict(os.environ)
    env['LD_PRELOAD'] = seam.SHIM
    env.setdefault('PYTHONHASHSEED', '0')
    env['TZ'] = 'UTC'
    env['LC_ALL'] = 'C.UTF-8'
    env['HDF5_USE_FILE_LOCKING'] = 'FALSE'
    for k in ('OMP_NUM_THREADS', 'OPENBLAS_NUM_THREADS'):
        env[k] = '1'
    env['PYTHONPATH'] = ROOT
    return env


def worker(args):
    import_code()
    check = load(args.id)
    ctx = Ctx()
    out = {'runs': 0, 'nontrivial': 0, 'violation': None, 'harness': None,
           'trouble': []}
    hashes = set()
    mark = open(args.out + '.at', 'w')
    t0 = time.monotonic()
    i = args.worker
    samples = []
    try:
        while i < args.runs:
            if time.monotonic() - t0 > args.wall:
                break
            mark.seek(0)
            mark.write('%12d' % i)
            mark.flush()
            try:
                sc = scenario_of(check, args.seed, i, args.tier)
            except Exception:
                sc = None
                why = traceback.format_exc()
            h = hashlib.blake2b(json.dumps(sc, sort_keys=True).encode(),
                                digest_size=7).hexdigest()
            if sc is not None and check.nontrivial(sc):
                out['nontrivial'] += 1
                hashes.add(h)
            if len(samples) < 2:
                samples.append(json.dumps(sc)[:600])
            try:
                if sc is None:
                    raise Trouble(why)
                v = execute(check, sc, ctx)
            except Invalid:
                ctx.count('invalid scenario')
                v = None
            except Trouble as e:
                ctx.count('runs without a verdict')
                out['trouble'].append('run %d: %s' % (i, e))
                if len(out['trouble']) > 2 + out['runs'] // 100:
                    raise
                v = None
            out['runs'] += 1
            if v:
                out['violation'] = [i, v]
                break
            i += args.workers
    except BaseException:
        out['harness'] = 'run %d: %s' % (i, traceback.format_exc())
    out['counts'] = ctx.counts
    out['states'] = sorted(ctx.states)
    out['steps'] = ctx.steps
    out['simsec'] = ctx.simsec
    out['ops'] = ctx.storage.ops_seen
    out['fired'] = ctx.storage.totals
    out['hashes'] = sorted(hashes)
    out['samples'] = samples
    ctx.storage.close()
    tmp = args.out + '.tmp'
    with open(tmp, 'w') as f:
        json.dump(out, f)
    os.rename(tmp, args.out)
    sys.stdout.flush()
    os._exit(0)


def replay_worker(args):
    """Executes the scenarios of a replay file in order; the last one is the
    failing one."""
    import_code()
    with open(args.replay_in) as f:
        rep = json.load(f)
    check = load(rep['property'])
    ctx = Ctx()
    msg = None
    res = {}
    try:
        for sc in rep['scenarios'][:-1]:
            try:
                execute(check, sc, ctx)
            except Invalid:
                pass
        msg = execute(check, rep['scenarios'][-1], ctx)
        if msg and args.minimise and len(rep['scenarios']) == 1:
            # smaller scenarios that fail the same way, in this process
            end = time.monotonic() + args.minimise
            sc = rep['scenarios'][-1]
            want = cls(msg)
            tried = 0
            progress = True
            seen = set()
            while progress and time.monotonic() < end:
                progress = False
                for cand in check.shrinks(sc):
                    if time.monotonic() > end:
                        break
                    key = json.dumps(cand, sort_keys=True)
                    if key in seen:
                        continue
                    seen.add(key)
                    tried += 1
                    try:
                        m = execute(check, cand, ctx)
                    except (Exception, Invalid):
                        continue
                    if m and cls(m) == want:
                        sc, msg = cand, m
                        progress = True
                        with open(args.out + '.part', 'w') as f:
                            json.dump({'scenario': sc, 'message': msg}, f)
                        break
            res['scenario'] = sc
            res['tried'] = tried
        res['message'] = msg
    except BaseException:
        res['harness'] = traceback.format_exc()
    ctx.storage.close()
    with open(args.out, 'w') as f:
        json.dump(res, f)
    os._exit(0)


def run_child(extra, env, timeout=None):
    p = subprocess.Popen([PY, '-B', '-m', 'vsim'] + extra, env=env,
                         cwd=ROOT, stdin=subprocess.DEVNULL)
    try:
        return p.wait(timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        return 'timeout'


def replay_once(cid, scenarios, env, tmp, minimise=0, timeout=300):
    """(message or None, result dict, exit status)"""
    inp = os.path.join(tmp, 'in.json')
    out = os.path.join(tmp, 'out.json')
    for f in (out, out + '.part'):
        if os.path.exists(f):
            os.unlink(f)
    with open(inp, 'w') as f:
        json.dump({'property': cid, 'scenarios': scenarios}, f)
    st = run_child(['--replay-worker', '--replay-in', inp, '--out', out,
                    '--minimise', str(minimise)], env, timeout)
    if os.path.exists(out):
        with open(out) as f:
            res = json.load(f)
        return res.get('message'), res, st
    if st == 'timeout':
        msg = 'hang: the run did not finish within %d s' % timeout
    elif isinstance(st, int) and st < 0:
        msg = 'process died: signal %d' % -st
    else:
        return None, {'harness': 'replay exited with %r' % st}, st
    return msg, {'message': msg}, st


def replay_process(cid, proc, env, tmp, timeout=600):
    """Repeats a whole worker process; the message of the run that fails."""
    out = os.path.join(tmp, 'p%d' % proc['worker'])
    if os.path.exists(out):
        os.unlink(out)
    run_child([cid, '--worker', str(proc['worker']), '--workers',
               str(proc['workers']), '--runs', str(proc['runs']), '--wall',
               '%d' % timeout, '--seed', str(proc['seed']), '--tier',
               proc['tier'], '--out', out], env, timeout)
    try:
        with open(out) as f:
            v = json.load(f)['violation']
    except OSError:
        return None
    return v[1] if v else None


def find_history(cid, seed, tier, workers, i, env, tmp, want):
    """The run only fails after earlier runs of the same process: find a
    short list of earlier runs that is enough."""
    check = load(cid)
    idx = list(range(i % workers, i, workers))

    def fails(ix):
        scs = [scenario_of(check, seed, j, tier) for j in ix + [i]]
        m, res, _ = replay_once(cid, scs, env, tmp)
        return m
    m = fails(idx)
    if not m:
        return None, None
    end = time.monotonic() + 60
    size = max(1, len(idx) // 2)
    while idx and time.monotonic() < end:
        done = True
        for s in range(0, len(idx), size):
            c = idx[:s] + idx[s + size:]
            mm = fails(c)
            if mm:
                idx, m = c, mm
                done = False
                break
            if time.monotonic() > end:
                break
        if done:
            if size == 1:
                break
            size = max(1, size // 2)
    return [scenario_of(check, seed, j, tier) for j in idx + [i]], m


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument('id', nargs='?')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', default=os.environ.get('VERIF_SEED', '1'))
    ap.add_argument('--runs', type=int)
    ap.add_argument('--wall', type=float)
    ap.add_argument('--workers', type=int)
    ap.add_argument('--worker', type=int)
    ap.add_argument('--out')
    ap.add_argument('--replay')
    ap.add_argument('--replay-worker', action='store_true')
    ap.add_argument('--replay-in')
    ap.add_argument('--minimise', type=float, default=0)
    ap.add_argument('--show', type=int)
    args = ap.parse_args(argv)
    if args.replay_worker:
        return replay_worker(args)
    if args.worker is not None:
        return worker(args)
    return parent(args)


def known_findings(cid):
    out = []
    p = os.path.join(ROOT, 'known_findings.json')
    if os.path.exists(p):
        with open(p) as f:
            for e in json.load(f)['findings']:
                if e['property'] == cid and e['status'] == 'known':
                    out.append(e)
    return out


def parent(args):
    t0 = time.monotonic()
    seam.build_shim()
    sys.path.insert(0, ROOT)
    env = child_env()
    tmp = tempfile.mkdtemp(prefix='vsim.')
    env['PYTHONPYCACHEPREFIX'] = os.path.join(tmp, 'pyc')
    try:
        if args.replay:
            with open(args.replay) as f:
                rep = json.load(f)
            if rep.get('process'):
                m = replay_process(rep['property'], rep['process'], env, tmp)
                res = {}
            else:
                m, res, st = replay_once(rep['property'], rep['scenarios'],
                                         env, tmp)
            if res.get('harness'):
                print(res['harness'])
                return 2
            if m:
                print(m)
                print('VIOLATION property=%s replay=%s' % (rep['property'],
                                                           args.replay))
                print('same violation as recorded: %s' %
                      (m == rep['message']))
                return 1
            print('no violation')
            return 0
        return search(args, env, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def search(args, env, tmp, t0):
    cid = args.id.upper()
    check = load(cid)
    tier = 'thorough' if args.tier == 'thorough' else 'quick'
    runs, wall = getattr(check, tier)
    runs = args.runs or runs
    wall = args.wall or wall
    nw = args.workers or min(8, os.cpu_count() or 1)
    if args.show is not None:
        print(json.dumps(scenario_of(check, args.seed, args.show, tier)))
        return 0
    procs = []
    for w in range(nw):
        out = os.path.join(tmp, 'w%d' % w)
        p = subprocess.Popen(
            [PY, '-B', '-m', 'vsim', cid, '--worker', str(w),
             '--workers', str(nw), '--runs', str(runs), '--wall', str(wall),
             '--seed', str(args.seed), '--tier', tier, '--out', out],
            env=env, cwd=ROOT, stdin=subprocess.DEVNULL,
            stderr=open(out + '.err', 'w'))
        procs.append((p, out))
    results = []
    bad = []
    hn = False
    for p, out in procs:
        try:
            p.wait(max(1.0, wall + 240 - (time.monotonic() - t0)))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
        sweep(p.pid)
        if os.path.exists(out):
            with open(out) as f:
                r = json.load(f)
            results.append(r)
            if r['violation']:
                bad.append(tuple(r['violation']))
            for t in r['trouble'][:1]:
                print('no verdict in', t)
            if r['harness'] and not hn:
                hn = True
                print('HARNESS', r['harness'])
        else:
            try:
                at = int(open(out + '.at').read())
            except Exception:
                at = -1
            print('worker ended with %r in run %d' % (p.returncode, at))
            print(open(out + '.err').read()[-2000:])
            if at >= 0:
                bad.append((at, None))
    status = 0
    viol = []
    if any(r['harness'] for r in results):
        status = 2
    bad.sort(key=lambda b: b[0])
    once = []
    for i, msg in bad:
        sc = scenario_of(check, args.seed, i, tier)
        m, res, st = replay_once(cid, [sc], env, tmp)
        if m:
            m2, res2, st2 = replay_once(cid, [sc], env, tmp, minimise=30,
                                        timeout=120)
            scs = [res2.get('scenario', sc)]
            m3, _, _ = replay_once(cid, scs, env, tmp)
            if not m3:
                scs, m3 = [sc], m
        else:
            scs, m3 = find_history(cid, args.seed, tier, nw, i, env, tmp,
                                   msg)
        proc = None
        if not m3:
            # it depends on all that the process did, such as which
            # addresses were used before
            proc = {'worker': i % nw, 'workers': nw, 'runs': i + 1,
                    'seed': args.seed, 'tier': tier}
            m3 = replay_process(cid, proc, env, tmp)
            scs = [sc]
        if m3:
            path = save_replay(cid, args, tier, i, m3, scs, proc)
            print('seed %s run %d: %s' % (args.seed, i, m3))
            print('VIOLATION property=%s replay=%s' % (cid, path))
            viol.append(m3)
            status = 1
            break
        once.append((i, msg))
        if time.monotonic() - t0 > wall + 300:
            break
    for i, msg in once:
        print('HARNESS run %d failed once and did not fail again: %r'
              % (i, msg))
        if msg or len(once) > 1 or not results:
            status = status or 2    # else one worker was ended from outside
    if status == 0:
        # determinism: a sample of runs repeated in a fresh process
        status = determinism(cid, check, args, tier, runs, env, tmp)
    kf = []
    if status == 0:
        for e in known_findings(cid):
            m, res, st = replay_once(cid, [e['scenario']], env, tmp)
            if res.get('harness'):
                print('HARNESS known finding probe', res['harness'])
                status = 2
            elif m and cls(m) != cls(e['message']):
                print('probe of a known finding fails differently: ' + m)
                path = save_replay(cid, args, tier, -1, m, [e['scenario']])
                print('VIOLATION property=%s replay=%s' % (cid, path))
                viol.append(m)
                status = 1
            elif m:
                print('KNOWN-FINDING: property=%s %s' % (cid, e['what']))
                kf.append(e['what'])
    evidence(cid, check, args, tier, results, viol, kf, t0, runs, nw)
    return status


def save_replay(cid, args, tier, i, msg, scs, proc=None):
    rep = {'property': cid, 'seed': args.seed, 'tier': tier, 'run': i,
           'message': msg, 'scenarios': scs}
    if proc:
        rep['process'] = proc
    d = os.path.join(ROOT, 'replays')
    os.makedirs(d, exist_ok=True)
    blob = json.dumps(rep, indent=1)
    path = os.path.join(d, '%s-%s.json' % (
        cid, hashlib.blake2b(blob.encode(), digest_size=5).hexdigest()))
    with open(path, 'w') as f:
        f.write(blob)
    return path


def sweep(pid):
    for base in ('/dev/shm', '/tmp'):
        shutil.rmtree('%s/vsim.%d.%d' % (base, os.getuid(), pid),
                      ignore_errors=True)


def determinism(cid, check, args, tier, runs, env, tmp):
    """Executes one worker's first runs twice more in fresh processes and
    compares everything they measured."""
    n = max(2, min(10, runs // 40))
    got = []
    for k in range(2):
        out = os.path.join(tmp, 'det%d' % k)
        run_child([cid, '--worker', '0', '--workers', '1', '--runs', str(n),
                   '--wall', '60', '--seed', str(args.seed), '--tier', tier,
                   '--out', out], env, 200)
        try:
            with open(out) as f:
                r = json.load(f)
        except OSError:
            print('HARNESS determinism test did not finish')
            return 2
        got.append((r['runs'], r))
    a, b = got[0][1], got[1][1]
    m = min(a['runs'], b['runs'])
    if a['runs'] == b['runs'] and m:
        for k in ('counts', 'states', 'steps', 'ops', 'fired', 'hashes'):
            if a[k] != b[k]:
                print('HARNESS not deterministic: %s differs' % k)
                return 2
    return 0


def evidence(cid, check, args, tier, results, viol, kf, t0, runs, nw):
    wall = time.monotonic() - t0
    total = sum(r['runs'] for r in results)
    counts, fired = {}, {}
    states, hashes = set(), set()
    for r in results:
        for k, v in r['counts'].items():
            counts[k] = counts.get(k, 0) + v
        for k, v in r['fired'].items():
            fired[k] = fired.get(k, 0) + v
        states.update(r['states'])
        hashes.update(r['hashes'])
    for k in list(counts):
        if k.startswith('fault '):
            fired[k[6:]] = counts.pop(k)
    samples = [s for r in results for s in r['samples']][:4]
    ev = {
        'property': cid, 'tier': tier,
        'seed': int(args.seed) if str(args.seed).lstrip('-').isdigit()
        else str(args.seed),
        'level': check.level,
        'coverage': {
            'evaluations': total,
            'distinct_nontrivial': len(hashes),
            'rule': 'one evaluation is one simulated run; runs are distinct '
                    'if their scenario (data, operations, schedule and fault '
                    'plan) differs, and nontrivial if ' +
                    (check.nontrivial.__doc__ or 'they execute the property')
                    .strip(),
            'samples': samples,
            'planned_runs': runs,
            # every run has a seed of its own, derived from VERIF_SEED
            'runs_and_seeds_per_hour': round(total / max(wall, 1e-9) * 3600),
            'simulated_time': {
                'storage_operations': sum(r['ops'] for r in results),
                'line_events': sum(r['steps'] for r in results),
                'clock_seconds': sum(r['simsec'] for r in results)},
            'faults_injected': fired,
            'distinct_states': {'measure': check.state_rule,
                                'count': len(states)},
            'counts': counts,
            'real_components': check.real,
            'stub_components': check.stub,
            'workers': nw,
        },
        'assumptions': check.assumptions,
        'wall_s': round(wall, 2),
        'violations': len(viol),
    }
    if viol:
        ev['coverage']['violation_messages'] = viol
    if kf:
        ev['coverage']['known_findings'] = kf
    d = os.path.join(ROOT, 'evidence')
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, '.%s.tmp' % cid)
    with open(tmp, 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(tmp, os.path.join(d, cid + '.json'))
    print('%s: %d runs, %d distinct states, faults %s, %.1f s' % (
        cid, total, len(states), fired, wall))


