import gc
import os
import random
import tempfile
import traceback

import numpy as np

from vsim import bor
from vsim import dmapref as R
from vsim import seam
from vsim.runner import Check, Invalid
from . import bcommon as B
from . import bmut
from . import bops
from . import common as C
from .c03 import FOR_OP

EXC = {'interrupt': KeyboardInterrupt, 'memory': MemoryError}
NEAR = ['dst.out.tmp', 'src.tmp', 'src.bak', 'dst.out~', '.dst.out',
        'dst.out.site', 'dst', 'src.h5', 'tmp', 'tmp.h5', 'src.out']


class Dmap:
    """A DMAP operation in the manner of bops.Op."""

    def __init__(self, o, src, dst):
        self.o, self.op = o, o['op']
        if self.op not in ('dread', 'dwrite'):
            raise Invalid('op')
        C.require_conforming(o['kind'], o['specs'])
        for s in o['specs']:
            if any(f.get('m') == 'L' and not R.list_ok(f) for f in s):
                raise Invalid('list')
            if not any(f.get('sh') is not None for f in s) or \
                    all(f.get('sh') is not None for f in s):
                raise Invalid('scalars and arrays')
            if any(f.get('sh') is not None and 0 in list(f['sh']) + [
                    len(f['sh']) and 1] for f in s):
                raise Invalid('empty array')
        self.src = src if self.op == 'dread' else None
        self.dst = dst
        self.exp = [R.expected(s) for s in o['specs']]
        self.old = {}
        self.got = None

    def setup(self, src=True, dst=True):
        if self.src and src:
            with open(self.src, 'wb') as f:
                f.write(R.encode(self.o['specs']))

    def do(self, dst=None):
        kind = self.o['kind']
        if self.op == 'dread':
            rd, self.got = C.read_all(kind, self.src, False)
            return rd
        return C.write(kind, C.build(self.o['specs'], 'dict'), 'file',
                       dst or self.dst, self.o.get('explicit', True))

    def judge(self, dst=None):
        if self.op == 'dread':
            if self.got is None:
                return 'nothing read'
            return R.diff_read(self.exp, self.got)
        with open(dst or self.dst, 'rb') as f:
            return R.check_bytes(self.o['specs'], f.read())


class Read:
    """Reading a Borealis file."""

    def __init__(self, o, src, dst):
        self.b = bops.Op(dict(o, op=o['what']), None, src)
        if o['what'] not in ('wsite', 'warray'):
            raise Invalid('what')
        self.op = 'read ' + self.b.struct
        self.o, self.d, self.src, self.dst = o, o['d'], src, dst
        self.old = {}
        self.got = None

    def setup(self, src=True, dst=True):
        if src:
            bor.h5write(self.src, self.b.struct, self.b.want())

    def do(self, dst=None):
        rd = B.read(self.d, self.b.struct, self.src, self.o['how'])
        self.got = B.content(rd, self.b.struct)
        return rd

    def judge(self, dst=None):
        w = self.b.want()
        if self.b.struct == 'site':
            w = B.repaired(w)
        return B.diff(self.got, w, self.b.struct)


def make(o, src, dst):
    if o['op'] in ('dread', 'dwrite'):
        return Dmap(o, src, dst)
    if o['op'] == 'read':
        return Read(o, src, dst)
    return bops.Op(o, src, dst)


class C13(Check):
    id = 'C13'
    quick = (6000, 160)
    thorough = (80000, 700)
    state_rule = 'operation, trouble with its place, and outcome'
    real = B.REAL + ['DMAP reader and writer']
    stub = B.STUB + ['each run is a forked child; interrupts and failed '
                     'allocations are raised at line events of the library']
    technique = 'seeded operations met by a storage error, interrupt, ' \
        'failed allocation or refusal at a seeded place, everything around ' \
        'them compared before and after, then repeated without faults'
    note = 'One trouble per run.'
    assumptions = ['an interrupt arrives at a line of the library',
                   'death of the process by a signal inside the HDF5 library '
                   'after a hard storage error ends the run']

    def gen(self, rng, i, tier):
        k = rng.random()
        if k < .25:
            kind = rng.choice(['generic'] + R.TYPES)
            o = {'op': rng.choice(['dread', 'dwrite', 'dwrite']),
                 'kind': kind, 'specs': C.gen_specs(rng, kind, 3),
                 'explicit': rng.random() < .5}
        elif k < .4:
            w = rng.choice(['wsite', 'warray'])
            o = bops.gen(rng, [w], nmax=3)
            o['what'], o['op'] = w, 'read'
        else:
            o = bops.gen(rng, nmax=3)
        why = rng.choice(['none', 'storage', 'storage', 'interrupt',
                          'interrupt', 'memory', 'refuse', 'alias', 'dir',
                          'missing'])
        if why == 'alias' and o['op'] not in bops.RESTRUCT + bops.CONVERT:
            why = 'interrupt'
        if why == 'refuse' and o['op'] in ('dread', 'dwrite'):
            why = 'storage'
        return {'o': o, 'why': why, 'hit': rng.getrandbits(20),
                'fault': rng.getrandbits(8), 'sticky': rng.random() < .3,
                'io': C.gen_rand_io(rng) if why in ('none', 'alias') else
                None, 'near': rng.sample(NEAR, 3),
                'muts': bmut.gen(rng, 1), 'pre': rng.getrandbits(16),
                'link': rng.choice(['dot', 'symlink', 'hard', 'same']),
                'gone': rng.random() < .5, 'rep': rng.choice([1, 1, 2])}

    def nontrivial(self, sc):
        """a fault, interrupt or refusal is included"""
        return sc['why'] != 'none'

    def run(self, sc, ctx):
        res = seam.forked(lambda: self.child(sc, ctx.storage), cpu=60)
        if res[0] == 'harness':
            raise RuntimeError(res[1])
        lab = '%s, %s' % (sc['o']['op'], sc['why'])
        if res[0] == 'timeout':
            return '%s: does not end' % lab
        if res[0] == 'signal':
            if sc['why'] != 'storage':
                return '%s: process ended by signal %s' % (lab, res[1])
            ctx.count('process ended by a signal')
            return None
        kind, text, counts, states = res[1]
        if kind == 'invalid':
            raise Invalid(text)
        for c, n in counts.items():
            ctx.count(c, n)
        for s in states:
            ctx.state(*s)
        return '%s: %s' % (lab, text) if kind == 'bad' else None

    def child(self, sc, st):
        counts, states = {}, []
        try:
            t = self.inside(sc, st, counts, states)
        except Invalid as e:
            return 'invalid', str(e), {}, []
        if t:
            t = t.replace(st.dir, '...')
        return ('bad' if t else 'ok'), t, counts, states

    def inside(self, sc, st, counts, states):
        o, why = sc['o'], sc['why']
        src, dst = st.path('src'), st.path('dst.out')
        for d in ('cwd', 'tmp', 'home'):
            os.mkdir(st.path(d))
        os.chdir(st.path('cwd'))
        tempfile.tempdir = st.path('tmp')
        os.environ['TMPDIR'] = st.path('tmp')
        p = make(o, src, dst)
        p.setup()
        if why == 'refuse':
            struct = self.damage(p, sc)
        for n in sc['near']:
            if not os.path.exists(st.path(n)):
                with open(st.path(n), 'wb') as f:
                    f.write(b'bystander ' + n.encode())
        # objects read before
        held = self.hold(sc, st, p, why)
        # the same operation elsewhere tells how long it is
        count = None
        if why in ('storage', 'interrupt', 'memory'):
            r = make(o, src, st.path('ref.out'))
            r.setup(src=False)
            cnt = seam.Injector()
            try:
                with st.armed() as ops, cnt.on():
                    x = r.do()
            except Exception as e:
                raise Invalid('fails without faults: ' + C.exc_text(e))
            t = r.judge()
            if t:
                raise Invalid('wrong without faults: ' + t)
            del x, r
            if os.path.exists(st.path('ref.out')):
                os.unlink(st.path('ref.out'))
            count = cnt.n
        spec, inj, place = {}, None, ''
        if sc['io']:
            spec['rand'] = sc['io']
        if why == 'storage':
            cand = [k for k, x in enumerate(ops) if x.kind in FOR_OP]
            if not cand:
                raise Invalid('no storage calls')
            k = cand[sc['hit'] % len(cand)]
            fs = FOR_OP[ops[k].kind]
            f = fs[sc['fault'] % len(fs)]
            spec['plan'] = [[k, f, sc['sticky'], 0]]
            place = '%s %s %d' % (f, ops[k].kind, 8 * k // len(ops))
        elif why in EXC:
            inj = seam.Injector(1 + sc['hit'] % max(1, count), EXC[why])
        target = dst
        if why == 'alias':
            target = {'dot': os.path.join(st.dir, '.', 'src'), 'same': src}\
                .get(sc['link'], st.path('alias'))
            if sc['link'] == 'symlink':
                os.symlink(src, target)
            elif sc['link'] == 'hard':
                os.link(src, target)
        elif why == 'dir':
            if getattr(p, 'op', '') in ('append', 'dread') or \
                    isinstance(p, Read):
                raise Invalid('no new destination')
            target = os.path.join(st.dir, 'no such directory', 'out')
        elif why == 'missing':
            # the source is not there, or something that is no file is
            if not p.src or not os.path.isfile(p.src):
                raise Invalid('no source')
            os.unlink(p.src)
            if sc['link'] == 'dot':
                os.mkdir(p.src)
            elif sc['link'] == 'symlink':
                open(p.src, 'wb').close()
        before = st.snapshot()
        modes = {k: os.stat(st.path(k)).st_mode for k in before}
        err, ret = None, None
        proc = C.process_state()
        for _ in range(1 if why in EXC or why == 'storage' else max(1, sc['rep'])):
            try:
                with st.armed(spec) as ops:
                    if inj:
                        with inj.on():
                            ret = p.do(target)
                    else:
                        ret = p.do(target)
            except (Exception, KeyboardInterrupt) as e:
                err = '%s: %s' % (type(e).__name__, str(e)[:200])
                # a program that looks into the error, as a shell does
                fds = st.open_fds()
            if why in ('none', 'alias') or err:
                break
        # HDF5 itself keeps a file in which it could not read or flush
        # something, whatever the caller closes
        keeps = set()
        keeps_h5 = why == 'storage' and not isinstance(p, (Dmap, Read))
        if keeps_h5:
            keeps = {x.path for x in ops if x.fault != 'NONE' and
                     x.path != 'src' and (x.kind == 'READ' or sc['sticky'])}
        if err and fds and why not in EXC and (
                why != 'storage' or isinstance(p, (Dmap, Read))):
            return 'files open while the error is handled: %s (%s)' % (
                fds, err)
        gc.collect()
        fired = why
        if inj:
            fired = inj.fired and inj.fired.split(':')[0]
            place = str(inj.fired)
        states.append((o['op'], why, place, err and err.split(':')[0]))
        counts['%s, %s' % (why, 'raised' if err else 'returned')] = 1
        if inj and inj.fired:
            counts['fault ' + why] = 1
        if why == 'storage':
            counts['fault ' + spec['plan'][0][1]] = sum(
                x.fault != 'NONE' for x in ops)
        if why == 'none' and err:
            return 'fails: ' + err
        if why in ('refuse', 'alias', 'dir', 'missing') and not err:
            return 'accepted'
        t = C.process_diff(proc, C.process_state())
        if t:
            return '%s (%s, %s)' % (t, place, err)
        # nothing else changed
        after = st.snapshot()
        for k in sorted(set(before) | set(after)):
            if before.get(k) == after.get(k):
                continue
            if k == 'dst.out' and why not in ('alias', 'dir', 'refuse',
                                             'missing') and \
                    p.op not in ('dread',) and not isinstance(p, Read):
                continue
            if k == 'dst.out' and why == 'refuse' and \
                    p.op in bops.RESTRUCT:
                continue
            return '%s %s (%s, %s)' % (
                k, 'appeared' if k not in before else
                'was removed' if k not in after else 'changed',
                place, err)
        for k in before:
            if k in after and os.stat(st.path(k)).st_mode != modes[k]:
                return '%s: mode changed' % k
        fds = st.open_fds()
        if fds and not keeps.issuperset(fds):
            return 'files left open: %s (%s, %s)' % (fds, place, err)
        if why == 'none':
            t = p.judge()
            if t:
                return B.brief(t)
            t = self.returned(p, ret)
            if t:
                return B.brief(t)
        # again, without faults
        if why not in ('refuse', 'missing'):
            q = make(o, src, st.path('again.out'))
            q.setup(src=False)
            if why == 'alias' and os.path.lexists(st.path('alias')):
                os.unlink(st.path('alias'))
            try:
                with st.armed():
                    ret2 = q.do()
            except Exception as e:
                at = list(traceback.walk_tb(e.__traceback__))[-1][0]
                if keeps_h5 and 'h5py' in at.f_code.co_filename and \
                        'ref count' in str(e):
                    # HDF5 stays with a file that it could not write
                    counts['HDF5 unusable after an error'] = 1
                    return None
                return 'fails when repeated: %s (%s)' % (C.exc_text(e), place)
            t = q.judge()
            if t:
                return 'wrong when repeated: %s (%s)' % (B.brief(t), place)
            fds = st.open_fds()
            if fds and not keeps.issuperset(fds):
                return 'files left open when repeated: %s' % fds
            del ret2
        # objects read before
        if sc['gone']:
            for k in list(before):
                if not k.endswith('/') and os.path.lexists(st.path(k)):
                    os.unlink(st.path(k))
        for name, test in held:
            try:
                t = test()
            except Exception as e:
                t = C.exc_text(e)
            if t:
                return 'object read before (%s): %s' % (name, B.brief(t))
        return None

    def returned(self, p, ret):
        """What the object of the operation itself holds afterwards."""
        if isinstance(p, (Dmap, Read)):
            return None
        if p.op in bops.CONVERT:
            want = B.repaired(p.recs) if p.op == 'csite' else \
                bor.ref_array_to_site(p.d['ver'], p.d['ft'], p.arrays)
            for n in ('records', 'borealis_records'):
                t = B.diff(getattr(ret, n), want, 'site',
                           p.d.get('ppo') == 'none')
                if t:
                    return '%s of the converter: %s' % (n, t)
        return None

    def hold(self, sc, st, p, why):
        held = []
        rng = random.Random(sc['pre'])

        def borealis(path, struct, d, recs, how):
            rd = B.read(d, struct, path, how)
            arrays = None
            if d['ft'] != 'rawrf':
                arrays = bor.ref_site_to_array(d['ver'], d['ft'], recs)

            def test():
                if struct == 'site':
                    t = B.diff(rd.records, B.repaired(recs), 'site')
                    if not t and arrays:
                        t = B.diff(rd.arrays, arrays, 'array',
                                   d.get('ppo') == 'none')
                    return t
                return B.diff(rd.arrays, arrays, 'array') or \
                    B.diff(rd.records, recs, 'site',
                           d.get('ppo') == 'none')
            test.rd = rd
            held.append(('borealis ' + struct, test))
        if rng.random() < .5:
            d = B.gen_data(rng, bor.RESTRUCTURABLE, nmax=2)
            d.pop('ppo', None)
            recs = B.records(d)
            s = rng.choice(['site', 'array'])
            f = st.path('earlier.h5')
            bor.h5write(f, s, recs if s == 'site' else
                        bor.ref_site_to_array(d['ver'], d['ft'], recs))
            borealis(f, s, d, recs, 'general')
        if isinstance(p, bops.Op) and p.src and \
                why not in ('refuse', 'missing'):
            s = 'site' if p.op in ('s2a', 'csite') else 'array'
            borealis(p.src, s, p.d, p.recs, 'specific')
        if rng.random() < .6:
            specs = C.gen_specs(rng, 'rawacf', 2, False, True)
            f = st.path('earlier.rawacf')
            with open(f, 'wb') as g:
                g.write(R.encode(specs))
            rd, got = C.read_all('rawacf', f, False)
            exp = [R.expected(s) for s in specs]

            def test():
                return R.diff_read(exp, got) or R.diff_read(
                    exp, C.read_with(rd, 'rawacf'))
            held.append(('dmap', test))
        return held

    def damage(self, p, sc):
        """Makes the source or the data of the operation unacceptable."""
        d = p.d
        if isinstance(p, Read):
            struct = p.b.struct
            data = p.b.want()
        elif p.op in ('wsite', 'append', 'warray'):
            struct = p.struct
            data = p.arg
        elif p.op in bops.CONVERT:
            struct = 'site' if p.op == 'csite' else 'array'
            data = p.recs if struct == 'site' else p.arrays
        else:
            raise Invalid('refusal')
        data = {k: dict(v) if struct == 'site' else v
                for k, v in data.items()}
        if getattr(p, 'op', '') in bops.CONVERT and sc['pre'] % 2:
            # everything is of its type but cannot be converted
            rng = random.Random(sc['pre'])
            name, value = rng.choice([
                ('station', 'xyz'), ('borealis_git_hash', 'v0-none'),
                ('blanked_samples', None), ('pulse_phase_offset', None)])
            for v in [data[rng.choice(list(data))]] if struct == 'site' \
                    else [data]:
                if value is None:
                    if name not in v or not np.size(v[name]) or \
                            name == 'pulse_phase_offset' and \
                            d['ft'] != 'bfiq':
                        raise Invalid('no such field')
                    v[name] = np.array(v[name])
                    # not in what fills up arrays
                    v[name].flat[-1 if struct == 'site' else 0] += 1
                else:
                    v[name] = value
        elif not bmut.apply(d['ver'], d['ft'], struct, data, sc['muts'],
                            True):
            raise Invalid('no change')
        if isinstance(p, Read) or p.op in bops.CONVERT:
            os.unlink(p.src)
            bor.h5write(p.src, struct, data)
        else:
            p.arg = data
        return struct


CHECK = C13()
