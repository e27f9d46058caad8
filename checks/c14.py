import os
import random

import numpy as np

from vsim import bor
from vsim import dmapref as R
from vsim import seam
from vsim.runner import Check, Invalid
from . import bcommon as B
from . import bmut
from . import bops
from . import common as C

BOPS = ['wsite', 'warray', 's2a', 'a2s', 'csite', 'carray', 'rsite',
        'rarray', 'wauto', 'wbad', 'rbad', 'cbad', 'append']
DOPS = ['dread', 'sread', 'dwrite', 'swrite', 'drbad', 'dwbad', 'conv']


class Pool:
    """Data and files that several threads use."""

    def __init__(self, x, k, st, io):
        self.x, self.k, self.st = x, k, st
        self.dmap = 'specs' in x
        if self.dmap:
            specs = x['specs']
            C.require_conforming(x['kind'], specs)
            for s in specs:
                if any(f.get('m') in ('L', 'E') for f in s) or not s or \
                        not any(R.is_array(f) for f in s) or \
                        all(R.is_array(f) for f in s) or \
                        any(R.is_array(f) and (not f['sh'] or 0 in f['sh'])
                            for f in s):
                    raise Invalid('specs')
            self.data = R.encode(specs)
            self.exp = [R.expected(s) for s in specs]
            self.dicts = C.build(specs, 'dict')
            self.structs = C.build(specs, 'struct')
            self.files = {'dmap': self.data}
        else:
            d = x['d']
            if d['ft'] not in bor.RESTRUCTURABLE:
                raise Invalid('type')
            self.recs = B.records(d)
            self.arrays = bor.ref_site_to_array(d['ver'], d['ft'], self.recs)
            self.siteargs = B.site_arg(d, self.recs)
            self.arrayargs = B.array_arg(d, self.arrays)
            self.keep = B.frozen(self.siteargs), B.frozen(self.arrayargs)
            self.convertible = bor.convertible(d['ver'], d['ft'], self.recs)
            bor.h5write(self.path('site'), 'site', self.recs)
            bor.h5write(self.path('array'), 'array', self.arrays, 'gzip')
            bad = {k: dict(v) for k, v in self.siteargs.items()}
            self.badwant = bmut.apply(d['ver'], d['ft'], 'site', bad,
                                      x['muts'], True)
            self.bad = bad
            bor.h5write(self.path('bad'), 'site', bad)
            self.files = {}
            for n in ('site', 'array', 'bad'):
                with open(self.path(n), 'rb') as f:
                    self.files[n] = f.read()
        for n, c in self.files.items():
            with open(self.path(n), 'wb') as f:
                f.write(c)

    def path(self, n, rel=False):
        n = 'in%d.%s' % (self.k, n)
        return n if rel else self.st.path(n)

    def changed(self):
        for n, c in self.files.items():
            with open(self.path(n), 'rb') as f:
                if f.read() != c:
                    return 'input file %s changed' % n
        if self.dmap:
            fresh = C.build(self.x['specs'], 'dict')
            if R.fingerprint(fresh) != R.fingerprint(self.dicts):
                return 'shared records changed'
            fresh = C.build(self.x['specs'], 'struct')
            if R.fingerprint(fresh) != R.fingerprint(self.structs):
                return 'shared structures changed'
            return None
        return B.same(self.siteargs, self.keep[0]) or \
            B.same(self.arrayargs, self.keep[1])


class Task:
    """One call of one thread."""

    def __init__(self, t, pool, dst):
        self.t, self.p, self.op = t, pool, t['op']
        self.rel = bool(t.get('rel'))
        if t.get('sub'):
            os.makedirs(pool.st.path(dst + '.d'), exist_ok=True)
            dst = os.path.join(dst + '.d', 'file')
        self.dst = dst if self.rel else pool.st.path(dst)
        if (self.op in DOPS) != pool.dmap or \
                self.op not in DOPS + BOPS:
            raise Invalid('op')
        self.fails = self.op in ('wbad', 'rbad', 'cbad', 'drbad', 'dwbad')
        self.bop = None
        p = pool
        if self.op in bops.OPS:
            o = {'op': self.op, 'd': p.x['d'], 'comp': t['comp'],
                 'how': t['how'], 'slice': t['slice'], 'scale': t['scale']}
            if self.op in bops.CONVERT and (
                    p.x['d']['ft'] not in ('rawacf', 'bfiq') or
                    not p.convertible):
                raise Invalid('not convertible')
            b = self.bop = bops.Op(o, None, self.dst)
            if self.op == 'wsite':
                b.arg = p.siteargs
            elif self.op == 'warray':
                b.arg = p.arrayargs
            elif self.op == 'append':
                b.arg = {k: p.siteargs[k] for k in b.arg}
            elif self.op in ('s2a', 'csite'):
                b.src = p.path('site', self.rel)
            else:
                b.src = p.path('array', self.rel)
        if self.op in ('wbad', 'rbad', 'cbad') and not p.badwant:
            raise Invalid('no change')
        if self.op == 'dwbad' and p.x['kind'] == 'generic' or \
                self.op == 'drbad' and self.wrong() == p.x['kind']:
            raise Invalid('kind')

    def wrong(self):
        return R.TYPES[self.t['slice'] % len(R.TYPES)]

    def badrecs(self):
        r = [dict(x) for x in self.p.dicts]
        x = r[self.t['scale'] % len(r)]
        x['no such field'] = np.int16(4)
        return r

    def setup(self):
        if self.bop:
            self.bop.setup(src=False)
        self.arg = self.badrecs() if self.op == 'dwbad' else None
        self.alone = None
        if self.op == 'conv':
            self.alone = R.fingerprint(self.do())

    def do(self):
        import pydarnio
        from pydarnio import BorealisConvert
        t, p, op = self.t, self.p, self.op
        if self.bop:
            self.bop.do()
            return None
        if not p.dmap:
            d = p.x['d']
            if op in ('rsite', 'rarray'):
                s = op[1:]
                rd = B.read(d, s, p.path(s, self.rel), t['how'])
                if t['slice'] & 1:
                    return rd.records, rd.arrays
                return B.content(rd, s), None
            if op == 'wauto':
                a = B.write(d, 'array', self.dst, p.arrayargs, 'auto',
                            t['comp'])
                return a.records, a.arrays
            if op == 'wbad':
                return B.write(d, 'site', self.dst, p.bad, t['how'])
            if op == 'rbad':
                return B.read(d, 'site', p.path('bad', self.rel), t['how'])
            return BorealisConvert(p.path('bad', self.rel), d['ft'], self.dst,
                                   t['slice'])
        kind = p.x['kind']
        how = 'generic' if t['how'] == 'general' else kind
        if op == 'dread':
            rd, got = C.read_all(how, p.path('dmap', self.rel), False)
            return got
        if op == 'sread':
            rd, got = C.read_all(how, p.data, True)
            return got
        if op == 'drbad':
            return C.read_all(self.wrong(), p.path('dmap', self.rel), False)
        recs = p.structs if t['slice'] & 1 else p.dicts
        if op == 'dwrite':
            return C.write(how, recs, 'file', self.dst, bool(t['scale'] & 1))
        if op == 'dwbad':
            return C.write(kind, self.arg, 'file', self.dst, True)
        if op == 'swrite':
            return C.write(how, recs, 'stream')
        if t['slice'] & 1:
            return pydarnio.dmap2dict(p.structs)
        return pydarnio.dict2dmap(p.dicts)

    def judge(self, res, alone):
        """res: ('ok', value) or ('exc', e); alone: the error when alone."""
        p, op = self.p, self.op
        if self.fails:
            if res[0] == 'ok':
                return 'accepted'
            t = C.exc_text(res[1])
            if t.replace(self.dst, '') != alone:
                return 'fails with %s instead of %s' % (t, alone)
            if os.path.exists(self.dst):
                return 'refused but wrote something'
            return None
        if res[0] == 'exc':
            return 'fails: ' + C.exc_text(res[1])
        v = res[1]
        if self.bop:
            return self.bop.judge()
        if not p.dmap:
            if op == 'wauto':
                t = B.diff(bor.h5read(self.dst, 'array'), p.arrays, 'array')
                return t or B.diff(v[0], p.recs, 'site') or \
                    B.diff(v[1], p.arrays, 'array')
            s = op[1:]
            if self.t['slice'] & 1:
                return B.diff(v[0], p.recs, 'site') or \
                    B.diff(v[1], p.arrays, 'array')
            return B.diff(v[0], p.recs if s == 'site' else p.arrays, s)
        if op in ('dread', 'sread'):
            return R.diff_read(p.exp, v)
        if op == 'swrite':
            return R.check_bytes(p.x['specs'], bytes(v))
        if op == 'dwrite':
            with open(self.dst, 'rb') as f:
                return R.check_bytes(p.x['specs'], f.read())
        if R.fingerprint(v) != self.alone:
            return 'differs from the same call alone'
        return None


class C14(Check):
    id = 'C14'
    quick = (5000, 170)
    thorough = (60000, 700)
    state_rule = 'interleavings: sequences of (thread, line) at all line ' \
        'events of the library'
    real = B.REAL + ['DMAP readers and writers', 'Python threads, of which '
                     'exactly one runs at a time']
    stub = ['thread scheduler: seeded switches at line events of the '
            'library'] + B.STUB
    technique = 'seeded schedules of two to four threads switched at line ' \
        'events inside the library, with short and interrupted transfers; ' \
        'each call compared with the call alone'
    note = 'Up to 700 switches per run; threads are not switched inside ' \
        'numpy, h5py or HDF5.'
    assumptions = ['no switch inside C code; h5py serialises its own calls']

    def gen(self, rng, i, tier):
        pools = []
        like = None
        for _ in range(rng.choice([1, 1, 2, 2])):
            # the second one may be of the same kind, in another shape
            like = pools[0] if pools and rng.random() < .6 else None
            if 'specs' in like if like else rng.random() < .45:
                kind = like['kind'] if like else \
                    rng.choice(['generic'] + R.TYPES)
                specs = C.gen_specs(rng, kind, 2, False, True)
                for s in specs:
                    s[:] = [f for f in s if not R.is_array(f) or
                            f['sh'] and 0 not in f['sh']]
                    for f in s:
                        if f.get('m') in ('L', 'E'):
                            f['m'] = 'C'
                    if kind == 'generic':
                        s.insert(0, {'n': 'first', 't': 'i', 'v': 7})
                        s.append({'n': 'last', 't': 'h', 'sh': [3], 's': 5,
                                  'm': 'C'})
                pools.append({'kind': kind, 'specs': specs})
            else:
                conv = rng.random() < .5
                if like:
                    e = like['d']
                    conv = bool(e.get('conv'))
                    d = B.gen_data(rng, [e['ft']], [e['ver']], 2, conv)
                else:
                    d = B.gen_data(rng, ['rawacf', 'bfiq'] if conv else
                                   bor.RESTRUCTURABLE, nmax=2, conv=conv)
                for k in ('ppo', 'wide', 'big'):
                    d.pop(k, None)
                d['n'] = min(d['n'], 2)
                if conv:
                    d['text'] = []
                    d.pop('special', None)
                pools.append({'d': d, 'muts': bmut.gen(rng, 1)})
        twin = rng.random() < .5
        if twin and like:
            pass
        elif twin:
            # data of the same kind and size with other values
            x = pools[0]
            if 'specs' in x:
                y = {'kind': x['kind'], 'specs': [
                    [dict(f, s=f['s'] ^ 4) if 's' in f else f for f in s]
                    for s in x['specs']]}
            else:
                y = {'d': dict(x['d'], flip=True), 'muts': x['muts']}
            pools = [x, y]
        focus = rng.random()
        samples = rng.random() < .1
        if samples:
            # everyone converts samples, the largest arrays there are
            d = B.gen_data(rng, ['bfiq'], nmax=2, conv=True)
            for k in ('ppo', 'wide', 'big', 'special'):
                d.pop(k, None)
            d.update(n=min(d['n'], 2), text=[])
            x = {'d': d, 'muts': []}
            pools = [x, {'d': dict(d, flip=True), 'muts': []}]
            twin = True
            focus = .9999
        th = []
        for _ in range(rng.choice([2, 2, 2, 3, 4])):
            calls = []
            for _ in range(rng.choice([1, 1, 1, 2])):
                k = (len(th) if samples else rng.randrange(len(pools))) % \
                    len(pools)
                x = pools[k]
                if 'specs' in x:
                    ops = [o for o in DOPS if x['kind'] != 'generic' or
                           o not in ('dwbad',)]
                else:
                    ops = [o for o in BOPS if (o not in ('csite', 'carray')
                                               or x['d'].get('conv')) and
                           (o != 'append' or x['d']['n'] > 1)]
                if twin:
                    ops = sorted(ops) + [o for o in ops if o in (
                        'csite', 'carray', 's2a', 'a2s')] * 2
                    j = int(focus * 2 * len(ops))
                    if j < len(ops):
                        ops = [ops[j]]
                if samples:
                    ops = [['csite', 'carray'][i % 2]]
                calls.append({'op': rng.choice(ops), 'pool': k,
                              'how': rng.choice(['general', 'auto',
                                                 'specific']),
                              'comp': rng.choice(B.COMP),
                              'slice': rng.randint(0, 30),
                              'rel': rng.random() < .4,
                              'sub': rng.random() < .4,
                              'scale': rng.choice([1, 2, 10])})
            th.append(calls)
        clock = rng.choice(['step', 'fresh', 'fresh'])
        if clock == 'step':
            g = rng.choice([1, 3, 10, 40, 200, 1000, 5000, 30000])
            n = rng.choice([3, 20, 100, 600])
            far = rng.choice([0, .1, .3])
            far = [far, rng.choice([300, 3000, 30000])]
        else:
            g = rng.choice([1, 1, 2, 5, 20, 100, 400])
            n = rng.choice([3, 20, 100, 300])
            far = [rng.choice([0, .1, .3]), rng.choice([20, 100])]
        sw = [[1 + int(rng.expovariate(1 / (
            far[1] if rng.random() < far[0] else g))), rng.getrandbits(4)]
            for _ in range(n)]
        if (samples or twin) and rng.random() < (.9 if samples else .2):
            # side by side: all do the same at the same time
            clock = 'fresh'
            g = rng.choice([[1], [1], [1, 1, 1, 2], [1, 2, 3], [2]])
            sw = [[rng.choice(g), j % 12] for j in range(700)]
        return {'pools': pools, 'threads': th, 'sw': sw, 'clock': clock,
                'io': C.gen_rand_io(rng) if rng.random() < .4 else None}

    def nontrivial(self, sc):
        """threads are switched"""
        return len(sc['threads']) > 1 and len(sc['sw']) > 0

    def run(self, sc, ctx):
        old = os.getcwd()
        os.chdir(ctx.storage.dir)
        try:
            proc = C.process_state()
            t = self.inside(sc, ctx)
            return t or C.process_diff(proc, C.process_state())
        finally:
            os.chdir(old)

    def inside(self, sc, ctx):
        st = ctx.storage
        try:
            pools = [Pool(x, k, st, None) for k, x in enumerate(sc['pools'])]
        except (KeyError, TypeError, IndexError):
            raise Invalid('pool')
        tasks = []
        for i, calls in enumerate(sc['threads']):
            tasks.append([Task(c, pools[c['pool'] % len(pools)],
                               'out.%d.%d' % (i, j))
                          for j, c in enumerate(calls)])
        flat = [t for ts in tasks for t in ts]
        # what failing calls report when alone
        alone = {}
        for t in flat:
            t.setup()
            if t.fails:
                try:
                    t.do()
                    raise Invalid('accepted when alone')
                except Exception as e:
                    alone[t] = C.exc_text(e).replace(t.dst, '')
        sw = [tuple(x) for x in sc['sw']]
        pos = [0, sw[0][0] if sw else None]

        fresh = sc['clock'] == 'fresh'

        def decide(step, cur, runnable):
            if fresh:
                step = sch.fresh
            if cur not in runnable or cur is None:
                k = sw[pos[0] % len(sw)][1] if sw else 0
                return runnable[k % len(runnable)]
            if pos[1] is not None and step >= pos[1]:
                k = sw[pos[0]][1]
                pos[0] += 1
                pos[1] = step + sw[pos[0]][0] if pos[0] < len(sw) else None
                return runnable[k % len(runnable)]
            return cur

        def due(s):
            return pos[1] is not None and \
                (s.fresh if fresh else s.step) >= pos[1]
        sch = seam.Scheduler(decide, due=due)

        def body(ts):
            def go():
                out = []
                for t in ts:
                    out.append(C.attempt(t.do))
                return out
            return go
        io = {'rand': sc['io']} if sc['io'] else {}
        with st.armed(io) as ops:
            res = sch.run([body(ts) for ts in tasks])
        ctx.steps += sch.step
        if sch.free:
            ctx.count('schedule given up: a thread waits for another')
        ctx.count('switches', len(sch.switches))
        ctx.state(sch.trace)
        names = '+'.join(sorted(t.op for t in flat))
        for ts, r in zip(tasks, res):
            if r[0] == 'exc':
                raise r[1]
            for t, x in zip(ts, r[1]):
                w = t.judge(x, alone.get(t))
                if w:
                    return '%s (among %s): %s' % (t.op, names, B.brief(w))
        for p in pools:
            w = p.changed()
            if w:
                return '%s: %s' % (names, w)
        for f in os.listdir(st.dir):
            if not f.startswith(('in', 'out.')):
                return '%s: file %s appeared' % (names, f)
            if f.endswith('.d') and os.listdir(st.path(f)) not in (
                    [], ['file']):
                return '%s: files appeared in %s: %s' % (
                    names, f, os.listdir(st.path(f)))
        if st.open_fds():
            return '%s: files left open: %s' % (names, st.open_fds())
        return None


CHECK = C14()
