import gc
import os

from vsim import bor
from vsim import dmapref as R
from vsim import seam
from vsim.runner import Check, Invalid
from . import bcommon as B
from . import bmut
from . import common as C

NAMES = ['a', 'b.h5', 'c', 'sub/a', 'sub/d.rawacf', 'e']
EXC = {'interrupt': KeyboardInterrupt, 'memory': MemoryError}
MAKE = ['ext', 'ext', 'ext', 'bwrite', 'bwrite', 'dwrite']
USE = ['read', 'read', 'restruct', 'restruct', 'convert', 'dread', 'rewrite',
       'append', 'rm', 'wrong', 'again', 'move', 'hand', 'hand']
SOFT = ['EINTR', 'EIO', 'EMFILE', 'EACCES', 'ENOSPC', 'EDQUOT']


class Bor:
    """Content of a Borealis file."""

    def __init__(self, struct, d, recs, arrays):
        self.struct, self.d, self.recs, self.arrays = struct, d, recs, arrays

    def data(self, struct=None):
        return self.recs if (struct or self.struct) == 'site' else self.arrays


class Dmap:
    """Content of a DMAP file: its kind and decoded records."""

    def __init__(self, kind, exp):
        self.kind, self.exp = kind, exp


class C16(Check):
    id = 'C16'
    quick = (5000, 150)
    thorough = (80000, 700)
    state_rule = 'sequences of operations with their trouble and outcome'
    real = B.REAL + ['DMAP readers and writers']
    stub = B.STUB + ['each run is a forked child; interrupts and failed '
                     'allocations are raised at line events of the library; '
                     'file times: held or stepped']
    technique = 'seeded chains of reads, writes, restructurings and ' \
        'conversions over a few file names whose files other programs also ' \
        'replace, with storage errors, interrupts and failed allocations; ' \
        'each result compared with a reference model of the files'
    note = 'Chains of up to 12 operations on up to 6 names.'
    assumptions = ['death of the process by a signal inside the HDF5 library '
                   'after a hard storage error ends the run']

    def gen(self, rng, i, tier):
        if rng.random() < .4:
            return self.refresh(rng)
        pool = []
        for _ in range(rng.choice([1, 2, 2, 3])):
            if rng.random() < .2:
                pool.append(self.dmap(rng))
                if rng.random() < .5:
                    pool.append(self.twin(pool[-1]))
                continue
            d = self.bor(rng, rng.random() < .6)
            pool.append({'d': d})
            if rng.random() < .5:
                # the same shape, other values: files of the same size
                pool.append({'d': dict(d, flip=rng.choice([1, 2]))})
        steps = []
        n = rng.choice([3, 5, 8, 12])
        few = rng.choice([1, 2, 2, 3, 6])
        names = rng.sample(range(len(NAMES)), few)
        focus = rng.choice(USE) if rng.random() < .7 else None
        if focus in ('restruct', 'convert', 'read', 'append') and \
                not any('d' in x for x in pool) or \
                focus == 'dread' and not any('specs' in x for x in pool):
            focus = None
        while len(steps) < n:
            j = len(steps)
            op = rng.choice(MAKE if j == 0 else MAKE + USE * 2)
            if focus and rng.random() < .7:
                # again and again the same, with new input
                op = focus if j and rng.random() < .6 else \
                    rng.choice(['ext', 'ext', 'bwrite', 'dwrite'])
            s = {'op': op, 'x': rng.randrange(len(pool)),
                 'a': rng.choice(names), 'b': rng.randrange(len(NAMES)),
                 'struct': rng.choice(['site', 'array']),
                 'how': rng.choice(['general', 'auto', 'specific']),
                 'comp': rng.choice(B.COMP),
                 'slice': rng.randint(0, 30), 'scale': rng.choice([1, 2, 10]),
                 'pick': rng.getrandbits(16)}
            if op == 'hand':
                s['muts'] = bmut.gen(rng, 1)
            if rng.random() < .15:
                s['bad'] = rng.choice(['storage', 'interrupt', 'memory'])
                s['hit'] = int(rng.choice([3, 30, 300, 3000]) * rng.random())
                s['fault'] = rng.choice(SOFT)
                if s['bad'] == 'storage':
                    s['hit'] = int(rng.choice([3, 30, 200]) * rng.random())
            steps.append(s)
        return {'pool': pool, 'steps': steps,
                'still': rng.random() < .5,
                'io': C.gen_rand_io(rng) if rng.random() < .3 else None}

    def dmap(self, rng):
        kind = rng.choice(['generic'] + R.TYPES)
        specs = C.gen_specs(rng, kind, 3, False, True)
        for s in specs:
            for f in s:
                if f.get('m') in ('L', 'E'):
                    f['m'] = 'C'
            if kind == 'generic':
                s[:] = [f for f in s if not R.is_array(f) or
                        f['sh'] and 0 not in f['sh']]
                s.insert(0, {'n': 'first', 't': 'i', 'v': 7})
                s.append({'n': 'last', 't': 'h', 'sh': [3], 's': 5, 'm': 'C'})
        return {'kind': kind, 'specs': specs}

    def twin(self, x):
        return {'kind': x['kind'], 'specs': [
            [dict(f, s=f['s'] ^ 4) if 's' in f else f for f in s]
            for s in x['specs']]}

    def bor(self, rng, conv):
        d = B.gen_data(rng, ['rawacf', 'bfiq'] if conv else
                       bor.RESTRUCTURABLE, nmax=3, conv=conv)
        if d.get('ppo') == 'none':
            d.pop('ppo')
        if conv:
            d['text'] = [t for t in d.get('text', [])
                         if t[0].endswith('comment')
                         and '\x00' not in t[1]]
            d.pop('special', None)
        return d

    def refresh(self, rng):
        """One operation on one name, its input replaced in between."""
        op = rng.choice(['read', 'restruct', 'restruct', 'convert', 'convert',
                         'dread', 'dread', 'rewrite', 'bwrite', 'append'])
        if op == 'dread' or op == 'rewrite' and rng.random() < .3:
            x = self.dmap(rng)
            pool = [x, self.twin(x)]
            if rng.random() < .5:
                pool.append({'kind': x['kind'],
                             'specs': list(reversed(x['specs']))})
        else:
            d = self.bor(rng, op == 'convert' or rng.random() < .4)
            pool = [{'d': d}, {'d': dict(d, flip=rng.choice([1, 2]))}]
            for _ in range(2):
                # another shape of the same type
                for _ in range(60):
                    e = self.bor(rng, bool(d.get('conv')))
                    if (e['ft'], e['ver']) == (d['ft'], d['ver']):
                        pool.append({'d': e})
                        break
        fixed = {'struct': rng.choice(['site', 'array']),
                 'how': rng.choice(['general', 'auto', 'specific']),
                 'comp': rng.choice(B.COMP), 'slice': rng.randint(0, 30),
                 'scale': rng.choice([1, 2, 10])}
        a, b = rng.sample(range(len(NAMES)), 2)
        inplace = rng.choice([0, 1, None])
        steps, last = [], None
        for j in range(rng.choice([2, 3, 4])):
            x = rng.choice([k for k in range(len(pool)) if k != last] or [0])
            last = x
            pick = rng.getrandbits(16)
            if inplace is not None:
                pick = pick & ~1 | inplace
            s = dict(fixed, a=a, b=b, x=x, pick=pick)
            if rng.random() < .15:
                s['b'] = rng.randrange(len(NAMES))
            if rng.random() < .15:
                s['struct'] = rng.choice(['site', 'array'])
            make = 'ext' if rng.random() < .7 else \
                'dwrite' if 'specs' in pool[x] else 'bwrite'
            if op not in ('bwrite', 'append'):
                steps.append(dict(s, op=make))
            if rng.random() < .1:
                s['bad'] = rng.choice(['storage', 'interrupt', 'memory'])
                s['hit'] = int(rng.choice([3, 30, 300, 3000]) * rng.random())
                s['fault'] = rng.choice(SOFT)
            steps.append(dict(s, op=op))
            if op in ('bwrite', 'append') and rng.random() < .5:
                s.pop('bad', None)
                steps.append(dict(s, op='read'))
            elif op == 'bwrite' or make == 'dwrite':
                s.pop('bad', None)
                steps.append(dict(s, op='hand', muts=bmut.gen(rng, 1)))
        return {'pool': pool, 'steps': steps, 'still': rng.random() < .6,
                'io': None}

    def nontrivial(self, sc):
        """more than one operation"""
        return len(sc['steps']) > 1

    def run(self, sc, ctx):
        res = seam.forked(lambda: self.child(sc, ctx.storage), cpu=90)
        if res[0] == 'harness':
            raise RuntimeError(res[1])
        if res[0] == 'timeout':
            return 'does not end'
        if res[0] == 'signal':
            if not any(s.get('bad') == 'storage' for s in sc['steps']):
                return 'process ended by signal %s' % res[1]
            ctx.count('process ended by a signal')
            return None
        kind, text, counts, trail, steps = res[1]
        if kind == 'invalid':
            raise Invalid(text)
        for c, n in counts.items():
            ctx.count(c, n)
        ctx.steps += steps
        ctx.state(*trail)
        return text if kind == 'bad' else None

    def child(self, sc, st):
        self.counts, self.trail, self.ops = {}, [], 0
        try:
            t = self.inside(sc, st)
        except Invalid as e:
            return 'invalid', str(e), {}, [], 0
        if t:
            t = B.brief(t.replace(st.dir, '...'))
        return ('bad' if t else 'ok'), t, self.counts, self.trail, self.ops

    def content(self, x):
        if 'specs' in x:
            C.require_conforming(x['kind'], x['specs'])
            for s in x['specs']:
                if not s or not any(R.is_array(f) for f in s) or \
                        all(R.is_array(f) for f in s) or \
                        any(f.get('m') in ('L', 'E') for f in s) or \
                        any(R.is_array(f) and (not f['sh'] or 0 in f['sh'])
                            and f['n'] != 'slist' for f in s):
                    raise Invalid('specs')
            return Dmap(x['kind'], [R.expected(s) for s in x['specs']])
        d = x['d']
        if d['ft'] not in bor.RESTRUCTURABLE:
            raise Invalid('type')
        recs = B.records(d)
        return Bor(None, d, recs,
                   bor.ref_site_to_array(d['ver'], d['ft'], recs))

    def guarded(self, st, s, fn, io):
        """Runs an operation with its trouble: (result, fired)."""
        inj, spec = None, {}
        if io:
            spec['rand'] = io
        if s.get('bad') in EXC:
            inj = seam.Injector(1 + s['hit'], EXC[s['bad']])
        elif s.get('bad') == 'storage':
            spec['plan'] = [[s['hit'], s['fault'], False, 0]]
        try:
            with st.armed(spec) as ops:
                if inj:
                    with inj.on():
                        out = 'ok', fn()
                else:
                    out = 'ok', fn()
        except (Exception, KeyboardInterrupt) as e:
            out = 'exc', C.exc_text(e)
        self.ops += len(ops)
        fired = None
        if inj and inj.fired:
            fired = s['bad']
        elif any(o.fault not in ('NONE', 'EINTR', 'SHORT') for o in ops):
            fired = s['fault']
        if fired:
            self.counts['fault ' + fired] = \
                self.counts.get('fault ' + fired, 0) + 1
        return out, fired

    def judge(self, path, m):
        """The file holds what the model says."""
        if isinstance(m, Dmap):
            with open(path, 'rb') as f:
                return R.diff_decoded(m.exp, R.decode(f.read()))
        return B.diff(bor.h5read(path, m.struct), m.data(), m.struct)

    def inside(self, sc, st):
        pool = [self.content(x) for x in sc['pool']]
        os.mkdir(st.path('sub'))
        files = {}
        held = []
        self.handed = []
        for j, s in enumerate(sc['steps']):
            if not (s['a'] < len(NAMES) and s['b'] < len(NAMES) and
                    s['x'] < len(pool)):
                raise Invalid('step')
            t = self.step(sc, st, j, s, pool, files, held)
            if t:
                return 'operation %d (%s): %s' % (j, ', '.join(
                    str(x) for x in self.trail), t)
            if sc['still']:
                # a clock that stands still
                for n in files:
                    os.utime(st.path(n), (1.6e9, 1.6e9))
            for n, m in files.items():
                try:
                    t = self.judge(st.path(n), m)
                except Exception as e:
                    t = C.exc_text(e)
                if t:
                    return 'after operation %d (%s): file %s: %s' % (
                        j, ', '.join(str(x) for x in self.trail), n, t)
        for n in list(files):
            os.unlink(st.path(n))
        for label, test in held:
            t = C.attempt(test)
            t = C.exc_text(t[1]) if t[0] == 'exc' else t[1]
            if t:
                return 'object kept from operation %s (%s): %s' % (
                    label, ', '.join(str(x) for x in self.trail), t)
        return None

    def step(self, sc, st, j, s, pool, files, held):
        op, x = s['op'], pool[s['x']]
        a, b = NAMES[s['a']], NAMES[s['b']]
        if op not in MAKE + ['dwrite', 'hand']:
            # something to work on
            want = {'dread': Dmap, 'read': Bor, 'restruct': Bor,
                    'convert': Bor, 'rewrite': None, 'append': 0, 'rm': None,
                    'wrong': None, 'again': None, 'move': None}[op]
            if want is not None and want != 0:
                c = [n for n in files if isinstance(files[n], want)]
            else:
                c = list(files)
            if not c and want != 0:
                return None
            if want != 0:
                a = a if a in c else sorted(c)[s['pick'] % len(c)]
        if op in ('restruct', 'convert', 'rewrite', 'move') and a == b:
            b = NAMES[(s['b'] + 1) % len(NAMES)]
        pa, pb = st.path(a), st.path(b)
        io = sc['io']
        fn = getattr(self, 'do_' + op, None)
        if fn is None:
            raise Invalid('op')
        n0 = len(held)
        out = fn(s, x, a, b, pa, pb, st, io, files, held)
        self.counts[op] = self.counts.get(op, 0) + 1
        if out is None:
            self.trail.append(op)
            return None
        (kind, val), fired, fin = out
        self.trail.append(op + (' ' + fired if fired else ''))
        gc.collect()
        if kind == 'exc':
            del held[n0:]
            dst = b if op in ('restruct', 'convert', 'rewrite') else a
            if op in ('bwrite', 'dwrite', 'append', 'restruct', 'convert',
                      'rewrite', 'hand'):
                files.pop(dst, None)
                if os.path.exists(st.path(dst)):
                    os.unlink(st.path(dst))
            if not fired:
                return 'fails: ' + val
            return None
        return fin(val)

    # -- other programs
    def clear(self, files, st, n):
        files.pop(n, None)
        if os.path.exists(st.path(n)):
            os.unlink(st.path(n))

    def do_ext(self, s, x, a, b, pa, pb, st, io, files, held):
        tmp = pa + '.new'
        if isinstance(x, Dmap):
            i = s['pick'] % len(x.exp)
            x = Dmap(x.kind, x.exp[i:] + x.exp[:i])
            with open(tmp, 'wb') as f:
                f.write(R.encode_decoded(x.exp))
        else:
            x = Bor(s['struct'], x.d, x.recs, x.arrays)
            bor.h5write(tmp, s['struct'], x.data(),
                        None if s['struct'] == 'site' else 'gzip')
        if s['pick'] & 1 and a in files:
            # the same file with other content
            with open(tmp, 'rb') as f, open(pa, 'r+b') as g:
                g.write(f.read())
                g.truncate()
            os.unlink(tmp)
        else:
            os.replace(tmp, pa)
        files[a] = x

    def do_rm(self, s, x, a, b, pa, pb, st, io, files, held):
        self.clear(files, st, a)

    def do_move(self, s, x, a, b, pa, pb, st, io, files, held):
        os.replace(pa, pb)
        files[b] = files.pop(a)

    def do_again(self, s, x, a, b, pa, pb, st, io, files, held):
        """Objects made before are used again."""
        if not held:
            return None
        label, test = held[s['pick'] % len(held)]
        t = C.attempt(test)
        t = C.exc_text(t[1]) if t[0] == 'exc' else t[1]
        return ('ok', None), None, lambda _: t and \
            'object of operation %s: %s' % (label, t)

    # -- the library
    def do_bwrite(self, s, x, a, b, pa, pb, st, io, files, held):
        if isinstance(x, Dmap):
            return None
        self.clear(files, st, a)
        m = Bor(s['struct'], x.d, x.recs, x.arrays)
        arg = B.site_arg(x.d, x.recs) if m.struct == 'site' else \
            B.array_arg(x.d, x.arrays)
        out, fired = self.guarded(st, s, lambda: B.write(
            x.d, m.struct, pa, arg, s['how'], s['comp']), io)

        self.handed.append((m, arg))

        def fin(w):
            files[a] = m
            if s['pick'] % 3 == 0:
                held.append(('bwrite %d' % len(self.trail), lambda: B.diff(
                    dict(sorted(w.records.items())), m.recs, 'site') or B.diff(
                    w.arrays, m.arrays, 'array')))
        return out, fired, fin

    def do_hand(self, s, x, a, b, pa, pb, st, io, files, held):
        """The same objects are handed over again: as they were, or with
        something in them that must be refused."""
        if not self.handed:
            return None
        m, arg = self.handed[-1 - s['pick'] // 8 % len(self.handed)]
        self.clear(files, st, a)
        keep = None
        bad = False
        if s['pick'] & 1 and isinstance(m, Bor):
            data = arg
            keep = {k: dict(v) for k, v in arg.items()} \
                if m.struct == 'site' else dict(arg)
            bad = bmut.apply(m.d['ver'], m.d['ft'], m.struct, data,
                             s['muts'], False)
        elif s['pick'] & 1 and m.kind != 'generic':
            r = arg[s['pick'] // 16 % len(arg)]
            r['unknown'] = r['stid']
            bad = True

        def go():
            if isinstance(m, Bor):
                B.write(m.d, m.struct, pa, arg, s['how'], s['comp'])
            else:
                C.write(m.kind, arg, 'file', pa, bool(s['pick'] & 2))
        out, fired = self.guarded(st, s, go, io)
        if keep is not None and m.struct == 'site':
            for k, v in keep.items():
                arg[k].clear()
                arg[k].update(v)
        elif keep is not None:
            arg.clear()
            arg.update(keep)
        elif bad:
            del r['unknown']
        if out[0] == 'exc' and bad:
            self.clear(files, st, a)
            return ('ok', None), fired, lambda _: None

        def fin(_):
            files[a] = m
            return 'accepted with changes' if bad else None
        return out, fired, fin

    def do_append(self, s, x, a, b, pa, pb, st, io, files, held):
        if isinstance(x, Dmap) or len(x.recs) < 2:
            return None
        self.clear(files, st, a)
        names = list(x.recs)
        k = 1 + s['pick'] % (len(names) - 1)
        bor.h5write(pa, 'site', {n: x.recs[n] for n in names[:k]})
        arg = B.site_arg(x.d, {n: x.recs[n] for n in names[k:]})
        out, fired = self.guarded(st, s, lambda: B.write(
            x.d, 'site', pa, arg, s['how'], s['comp']), io)

        def fin(w):
            files[a] = Bor('site', x.d, x.recs, x.arrays)
        return out, fired, fin

    def do_dwrite(self, s, x, a, b, pa, pb, st, io, files, held):
        if isinstance(x, Bor):
            return None
        i = s['pick'] % len(x.exp)
        m = Dmap(x.kind, x.exp[i:] + x.exp[:i])
        recs = R.dicts_of(m.exp)
        self.handed.append((m, recs))
        out, fired = self.guarded(st, s, lambda: C.write(
            x.kind, recs, 'file', pa, bool(s['pick'] & 1)), io)
        if a in files and out[0] == 'exc':
            self.clear(files, st, a)

        def fin(_):
            files[a] = m
        return out, fired, fin

    def do_read(self, s, x, a, b, pa, pb, st, io, files, held):
        m = files[a]

        def go():
            rd = B.read(m.d, m.struct, pa, s['how'])
            return rd, B.content(rd, m.struct)
        out, fired = self.guarded(st, s, go, io)

        def fin(v):
            t = B.diff(v[1], m.data(), m.struct)
            rd = v[0]
            held.append(('read %d' % len(self.trail), lambda: B.diff(
                rd.records, m.recs, 'site') or B.diff(
                rd.arrays, m.arrays, 'array')))
            return t
        return out, fired, fin

    def do_wrong(self, s, x, a, b, pa, pb, st, io, files, held):
        """A read as something else must fail whatever was read before."""
        m = files[a]
        if isinstance(m, Bor):
            if s['pick'] & 1:
                ft = [f for f in bor.RESTRUCTURABLE if f != m.d['ft']]
                d, t = dict(m.d, ft=ft[s['pick'] // 2 % 2]), m.struct
                sp = [n for n in bor.table(m.d['ver'], d['ft'])]
                if sp == [n for n in bor.table(m.d['ver'], m.d['ft'])]:
                    return None
            else:
                d, t = m.d, 'array' if m.struct == 'site' else 'site'
            how = 'general' if s['how'] == 'auto' else s['how']
            out, fired = self.guarded(st, s, lambda: B.content(B.read(
                d, t, pa, how), t), io)
        else:
            kinds = [k for k in R.TYPES if not all(
                C.conforms(k, r) for r in m.exp)]
            if not kinds:
                return None
            out, fired = self.guarded(st, s, lambda: C.read_all(
                kinds[s['pick'] % len(kinds)], pa, False), io)
        if out[0] == 'exc':
            return ('ok', None), fired, lambda _: None
        return out, fired, lambda _: 'accepted'

    def do_dread(self, s, x, a, b, pa, pb, st, io, files, held):
        m = files[a]
        how = 'generic' if s['how'] == 'general' else m.kind
        out, fired = self.guarded(st, s, lambda: C.read_all(
            how, pa, False), io)

        def fin(v):
            t = R.diff_read(m.exp, v[1])
            rd = v[0]
            held.append(('dread %d' % len(self.trail), lambda: R.diff_read(
                m.exp, v[1]) or R.diff_read(m.exp, C.read_with(rd, how))))
            return t
        return out, fired, fin

    def do_restruct(self, s, x, a, b, pa, pb, st, io, files, held):
        from pydarnio import BorealisRestructure
        m = files[a]
        self.clear(files, st, b)
        to = 'array' if m.struct == 'site' else 'site'
        kw = {} if s['comp'] == 'default' else {'hdf5_compression': s['comp']}
        out, fired = self.guarded(st, s, lambda: BorealisRestructure(
            pa, pb, m.d['ft'], to, **kw), io)

        def fin(_):
            files[b] = Bor(to, m.d, m.recs, m.arrays)
        return out, fired, fin

    def do_convert(self, s, x, a, b, pa, pb, st, io, files, held):
        from pydarnio import BorealisConvert
        m = files[a]
        d = m.d
        if d['ft'] not in ('rawacf', 'bfiq') or not d.get('conv') or \
                not bor.convertible(d['ver'], d['ft'], m.recs):
            return None
        self.clear(files, st, b)
        out, fired = self.guarded(st, s, lambda: BorealisConvert(
            pa, d['ft'], pb, s['slice'],
            borealis_file_structure=None if s['how'] == 'auto' else m.struct,
            scaling_factor=s['scale']), io)

        def fin(cv):
            first = next(iter(m.recs.values()))
            sl = int(first['slice_id']) if 'slice_id' in first else s['slice']
            with open(pb, 'rb') as f:
                got = R.decode(f.read())
            t = bor.diff_convert(bor.ref_convert(
                d['ver'], d['ft'], m.recs, sl, pa, s['scale']), got)
            files[b] = Dmap('rawacf' if d['ft'] == 'rawacf' else 'iqdat', got)
            held.append(('convert %d' % len(self.trail), lambda: B.diff(
                cv.records, m.recs, 'site')))
            return t
        return out, fired, fin

    def do_rewrite(self, s, x, a, b, pa, pb, st, io, files, held):
        """What was read is written as another file."""
        m = files[a]
        if isinstance(m, Dmap):
            def go():
                rd, got = C.read_all(m.kind, pa, False)
                C.write(m.kind, list(got), 'file', pb)
            self.clear(files, st, b)
            out, fired = self.guarded(st, s, go, io)

            def fin(_):
                files[b] = m
            return out, fired, fin
        self.clear(files, st, b)

        def go():
            rd = B.read(m.d, m.struct, pa, s['how'])
            data = rd.records if s['struct'] == 'site' else rd.arrays
            return B.write(m.d, s['struct'], pb, data,
                           'general' if s['pick'] & 2 else 'specific',
                           s['comp'])
        out, fired = self.guarded(st, s, go, io)

        def fin(_):
            files[b] = Bor(s['struct'], m.d, m.recs, m.arrays)
        return out, fired, fin


CHECK = C16()
