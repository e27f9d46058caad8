import copy
import os
import pickle
import sys

import numpy as np

from vsim import bor
from vsim import dmapref as R
from vsim import runner
from vsim.runner import Check, Invalid
from . import bcommon as B
from . import common as C
from .c14 import Pool, Task

# whose simulated histories the errors come from
INNER = ['C02', 'C03', 'C03', 'C03', 'C04', 'C05', 'C05', 'C07', 'C08',
         'C09', 'C11', 'C12', 'C15', 'C15']
VIAS = ['p0', 'p1', 'p2', 'p3', 'p4', 'p5', 'mp', 'future', 'pool', 'copy',
        'deepcopy']
BOPS = ['wsite', 'warray', 's2a', 'a2s', 'csite', 'carray', 'rsite',
        'rarray', 'append', 'wbad', 'rbad', 'cbad']
DOPS = ['dread', 'sread', 'dwrite', 'swrite', 'drbad', 'dwbad', 'conv']


def send(x, via):
    """x as another process gets it."""
    if via == 'copy':
        return copy.copy(x)
    if via == 'deepcopy':
        return copy.deepcopy(x)
    if via == 'mp':
        from multiprocessing.reduction import ForkingPickler
        return pickle.loads(ForkingPickler.dumps(x))
    if via == 'future' and isinstance(x, BaseException):
        from concurrent.futures.process import _ExceptionWithTraceback as W
        return pickle.loads(pickle.dumps(W(x, x.__traceback__)))
    if via == 'pool' and isinstance(x, BaseException):
        from multiprocessing.pool import ExceptionWithTraceback as W
        return pickle.loads(pickle.dumps(W(x, x.__traceback__)))
    if via == 'future':
        return pickle.loads(pickle.dumps(x, pickle.HIGHEST_PROTOCOL))
    if via == 'pool':
        return pickle.loads(pickle.dumps(x))
    if via not in VIAS:
        raise Invalid('via')
    return pickle.loads(pickle.dumps(x, int(via[1])))


def ours(e):
    return type(e).__module__.split('.')[0] == 'pydarnio'


def describe(x):
    """Everything about an attribute of an error."""
    if isinstance(x, dict):
        return 'dict', sorted(((repr(k), describe(v)) for k, v in x.items()))
    if isinstance(x, (set, frozenset)):
        return 'set', sorted(repr(v) for v in x)
    if isinstance(x, (list, tuple)):
        return type(x).__name__, [describe(v) for v in x]
    return type(x).__name__, str(x)


def check_error(e, vias):
    """None, or what the error loses on its way."""
    name = type(e).__name__
    want = str(e), repr(e), describe(e.args), describe(vars(e))
    x = e
    for via in vias:
        try:
            y = send(x, via)
        except Invalid:
            raise
        except Exception as f:
            return '%s does not arrive (%s): %s' % (name, via,
                                                    C.exc_text(f))
        if type(y) is not type(e):
            return '%s arrives as %s (%s)' % (name, type(y).__name__, via)
        v = {k: w for k, w in vars(y).items()}
        got = str(y), repr(y), describe(y.args), describe(v)
        for w, g, n in zip(want, got, ('message', 'text', 'arguments',
                                       'attributes')):
            if w != g:
                return '%s arrives with another %s (%s): %s instead of %s' % (
                    name, n, via, str(g)[:150], str(w)[:150])
        x = y
    want2 = str(e), repr(e), describe(e.args), describe(vars(e))
    if want2 != want:
        return '%s is changed by sending it' % name
    return None


def deep(x, seen=()):
    """Everything about an object of the library."""
    if isinstance(x, np.ndarray):
        return 'array', x.dtype.str, x.shape, x.tolist() \
            if x.dtype.kind == 'O' else x.tobytes()
    if isinstance(x, dict):
        return type(x).__name__, [(deep(k, seen), deep(v, seen))
                                  for k, v in x.items()]
    if isinstance(x, (list, tuple)):
        return type(x).__name__, [deep(v, seen) for v in x]
    if isinstance(x, type):
        return 'type', x.__module__, x.__qualname__
    if type(x).__module__.split('.')[0] == 'pydarnio' and \
            hasattr(x, '__dict__'):
        if any(x is y for y in seen):
            return 'again'
        return type(x).__name__, deep(vars(x), seen + (x,))
    if callable(x):
        return 'callable', getattr(x, '__qualname__', '')
    return type(x).__name__, repr(x)


def whole(o, via):
    """o as another process gets it"""
    want = deep(o)
    x = send(o, via)
    if deep(x) != want:
        raise Different('%s arrives changed (%s)' % (type(o).__name__, via))
    if deep(o) != want:
        raise Different('%s is changed by sending' % type(o).__name__)
    return x


class Caught:
    """The errors of the library that come out of it, while active."""
    TOOL = 2

    def __init__(self):
        self.errors = []

    def seen(self, code, offset, e):
        if ours(e) and not runner.inside(code.co_filename) and \
                not any(e is x for x in self.errors):
            if len(self.errors) < 60:
                self.errors.append(e)

    def __enter__(self):
        m = sys.monitoring
        m.use_tool_id(self.TOOL, 'caught')
        m.register_callback(self.TOOL, m.events.EXCEPTION_HANDLED, self.seen)
        m.set_events(self.TOOL, m.events.EXCEPTION_HANDLED)
        return self

    def __exit__(self, *a):
        m = sys.monitoring
        m.set_events(self.TOOL, 0)
        m.register_callback(self.TOOL, m.events.EXCEPTION_HANDLED, None)
        m.free_tool_id(self.TOOL)


class Silent:
    """Takes what the inner check counts."""

    def __init__(self, ctx):
        self.storage = ctx.storage
        self.steps = 0
        self.simsec = 0

    def count(self, *a):
        pass

    def state(self, *a):
        pass


class C17(Check):
    id = 'C17'
    quick = (6000, 70)
    thorough = (200000, 700)
    state_rule = 'kinds of error with their source and way, and kinds of ' \
        'work with what is sent and how'
    real = C.REAL_DMAP + B.REAL
    stub = C.STUB_IO + ['processes: everything that passes between them is '
                        'serialised and restored as pickle, multiprocessing '
                        'and concurrent.futures do']
    technique = 'seeded histories with storage errors, refusals and damaged ' \
        'data, whose errors, arguments, results and objects pass between ' \
        'simulated processes'
    note = 'Errors are those that the simulated histories of the other ' \
        'checks meet. DMAP readers cannot be pickled and are not claimed.'
    assumptions = ['the same version of the library in both processes']

    def gen(self, rng, i, tier):
        vias = [rng.choice(VIAS) for _ in range(rng.choice([1, 1, 2, 3]))]
        if rng.random() < .6:
            c = rng.choice(INNER)
            sc = runner.load(c).gen(rng, i, tier)
            if c in ('C09',) and rng.random() < .8:
                sc = runner.load('C15').gen(rng, i, tier)
                c = 'C15'
            return {'mode': 'errors', 'vias': vias, 'of': c, 'sc': sc}
        if rng.random() < .1:
            ft = rng.choice(bor.RESTRUCTURABLE)
            d = B.gen_data(rng, [ft], nmax=2)
            return {'mode': 'misuse', 'vias': vias, 'd': d, 'what': rng.choice(
                ['no name', 'same', 'same conversion', 'no conversion',
                 'type', 'missing'])}
        c14 = runner.load('C14').gen(rng, i, tier)
        pools = c14['pools'][:1]
        x = pools[0]
        if 'specs' in x:
            ops = [o for o in DOPS if x['kind'] != 'generic' or o != 'dwbad']
        else:
            ops = [o for o in BOPS if (o not in ('csite', 'carray')
                                       or x['d'].get('conv')) and
                   (o != 'append' or x['d']['n'] > 1)]
        return {'mode': 'work', 'pool': x, 'io': c14['io'],
                'tasks': [{'op': rng.choice(ops), 'how': rng.choice(
                    ['general', 'auto', 'specific']),
                    'comp': rng.choice(B.COMP), 'slice': rng.randint(0, 30),
                    'scale': rng.choice([1, 2, 10]),
                    'send': [rng.choice(VIAS) for _ in range(3)]}
                    for _ in range(rng.choice([1, 2, 3]))]}

    def nontrivial(self, sc):
        """something is sent"""
        return True

    def run(self, sc, ctx):
        if sc['mode'] == 'errors':
            return self.errors(sc, ctx)
        if sc['mode'] == 'misuse':
            return self.misuse(sc, ctx)
        old = os.getcwd()
        os.chdir(ctx.storage.dir)
        try:
            return self.work(sc, ctx)
        finally:
            os.chdir(old)

    def errors(self, sc, ctx):
        if sc['of'] not in INNER:
            raise Invalid('check')
        inner = runner.load(sc['of'])
        with Caught() as c:
            try:
                # what it finds is its own business
                runner.execute(inner, sc['sc'], Silent(ctx))
            except (KeyError, TypeError, IndexError):
                raise Invalid('scenario')
            except runner.Trouble:
                raise Invalid('scenario')
        kinds = {}
        for e in c.errors:
            kinds.setdefault(type(e).__name__, []).append(e)
        for n, es in sorted(kinds.items()):
            for e in es[:6]:
                ctx.state('error', sc['of'], n, len(vars(e)), sc['vias'])
                ctx.count('errors sent')
                v = check_error(e, sc['vias'])
                if v:
                    return v
        return None

    def misuse(self, sc, ctx):
        import pydarnio
        d = sc['d']
        src, dst = ctx.storage.path('src'), ctx.storage.path('dst')
        bor.h5write(src, 'site', B.records(d))
        calls = {
            'no name': lambda: pydarnio.DmapWrite(
                [{'a': 1, 'b': np.arange(3)}]).write_dmap(),
            'same': lambda: pydarnio.BorealisRestructure(
                src, src, d['ft'], 'array'),
            'same conversion': lambda: pydarnio.BorealisConvert(
                src, 'rawacf', src, 0),
            'no conversion': lambda: pydarnio.BorealisConvert(
                src, 'antennas_iq', dst, 0),
            'type': lambda: pydarnio.BorealisRead(src, 'fitacf'),
            'missing': lambda: pydarnio.BorealisRead(dst, d['ft'])}
        if sc['what'] not in calls:
            raise Invalid('what')
        out = C.attempt(calls[sc['what']])
        if out[0] == 'ok':
            return sc['what'] + ': accepted'
        if not ours(out[1]):
            ctx.count('errors of other libraries')
            return None
        ctx.count('errors sent')
        ctx.state('misuse', sc['what'], sc['vias'])
        return check_error(out[1], sc['vias'])

    def work(self, sc, ctx):
        st = ctx.storage
        try:
            pool = Pool(sc['pool'], 0, st, None)
        except (KeyError, TypeError, IndexError):
            raise Invalid('pool')
        keep = {k: getattr(pool, k) for k in
                ('dicts', 'structs', 'siteargs', 'arrayargs', 'bad')
                if hasattr(pool, k)}
        for j, t in enumerate(sc['tasks']):
            here, there = t['send'][0], t['send'][1]
            # the arguments as the worker gets them
            for k, v in keep.items():
                got = send(v, here)
                setattr(pool, k, got)
            task = Task(t, pool, 'out.%d' % j)
            task.setup()
            alone = None
            if task.fails:
                out = C.attempt(task.do)
                if out[0] == 'ok':
                    raise Invalid('accepted when alone')
                alone = C.exc_text(out[1]).replace(task.dst, '')
            with st.armed({'rand': sc['io']} if sc['io'] else {}):
                out = C.attempt(self.do, task, t, pool)
            ctx.count('tasks')
            ctx.state('work', task.op, t['how'], t['send'], out[0])
            if out[0] == 'exc' and not ours(out[1]):
                return '%s in a worker: %s' % (task.op, C.exc_text(out[1]))
            if out[0] == 'exc':
                v = check_error(out[1], [there])
                if v:
                    return v
                out = 'exc', send(out[1], there)
            else:
                home = deep(out[1])
                if task.op == 'conv' and R.fingerprint(out[1]) != task.alone:
                    return 'conv in a worker: differs from the call alone'
                r = C.attempt(send, out[1], there)
                if r[0] == 'exc':
                    return 'the result of %s does not arrive (%s): %s' % (
                        task.op, there, C.exc_text(r[1]))
                out = r
            if task.op == 'conv' and out[0] == 'ok':
                # memory layouts may differ
                w = deep(out[1]) != home and 'the result changes'
            else:
                w = task.judge(out, alone)
            if w:
                return '%s in a worker: %s' % (task.op, B.brief(w))
            for k, v in keep.items():
                setattr(pool, k, v)
        w = pool.changed()
        return w and 'work: ' + w

    def do(self, task, t, pool):
        """The call, with its objects sent on before they are used."""
        x = t['send'][2]
        if task.op in ('dwrite', 'swrite'):
            import pydarnio
            kind = pool.x['kind']
            recs = pool.structs if t['slice'] & 1 else pool.dicts
            typed = kind != 'generic' and t['how'] != 'general'
            mk = pydarnio.SDarnWrite if typed else pydarnio.DmapWrite
            name = R.WRITE[kind] if typed else 'write_dmap'
            w = whole(mk(recs, task.dst if t['scale'] & 1 else ''), x)
            if task.op == 'dwrite':
                getattr(w, name)(*([] if t['scale'] & 1 else [task.dst]))
                return None
            return w.write_dmap_stream(recs) if not typed else task.do()
        if task.bop:
            whole(task.bop.do(), x)
            return None
        if task.op in ('rsite', 'rarray'):
            s = task.op[1:]
            rd = whole(B.read(pool.x['d'], s, pool.path(s), t['how']), x)
            if t['slice'] & 1:
                return rd.records, rd.arrays
            return B.content(rd, s), None
        return task.do()


class Different(Exception):
    pass


CHECK = C17()
