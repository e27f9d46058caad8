import os

from vsim import bor
from vsim.runner import Check, Invalid
from . import bcommon as B
from . import bmut
from . import common as C

ROUTES = {'site': ['file', 'memory', 'writer', 'specific memory',
                   'there and back', 'there, memory back'],
          'array': ['file', 'memory', 'writer', 'specific memory',
                    'there and back', 'there, memory back']}
TWINS = ['file', 'memory', 'writer', 'convert']
CONVERTED = ('rawacf', 'bfiq')


class C11(Check):
    id = 'C11'
    quick = (5000, 150)
    thorough = (60000, 700)
    state_rule = 'type, version, direction, route, compression, shapes of ' \
        'the records (equal or different, pattern of sequences and beams) ' \
        'and pattern of transfers'
    real = B.REAL
    stub = B.STUB
    technique = 'seeded data restructured on every route, also there and ' \
        'back, under simulated short and interrupted transfers; compared ' \
        'with an independent reference restructuring'
    note = 'Sampled data, up to 8 records, 20 beams and 35 sequences.'
    assumptions = []

    def gen(self, rng, i, tier):
        if rng.random() < .2:
            d = B.gen_data(rng, bor.RESTRUCTURABLE, nmax=3)
            d.pop('ppo', None)
            return {'d': d, 'src': rng.choice(['site', 'array']),
                    'io': C.gen_rand_io(rng) if rng.random() < .3 else None,
                    'muts': bmut.gen(rng, rng.choice([1, 1, 1, 2])),
                    'comp': rng.choice(B.COMP)}
        if rng.random() < .06:
            d = B.gen_data(rng, bor.RESTRUCTURABLE, nmax=5)
            d.pop('ppo', None)
            d['conv'] = True
            return {'d': d, 'twins': [rng.random(), rng.random(),
                                      rng.choice([0, 0, .4, -.4])],
                    'route': rng.choice(TWINS), 'how': rng.choice(
                        ['general', 'auto', 'specific']),
                    'comp': rng.choice(B.COMP)}
        d = B.gen_data(rng, bor.RESTRUCTURABLE, nmax=rng.choice([4, 8]))
        if rng.random() < .01:
            d['n'] = rng.choice([26, 40])
            d.pop('big', None)
        src = rng.choice(['site', 'array'])
        return {'d': d, 'src': src, 'io': C.gen_rand_io(rng),
                'routes': rng.sample(ROUTES[src], rng.choice([1, 2, 3])),
                'comp': rng.choice(B.COMP), 'scomp': rng.choice(
                    [None, 'gzip', 'lzf']),
                'how': rng.choice(['general', 'auto'])}

    @staticmethod
    def nonconforming(sc, ctx, recs):
        """A source that does not conform: refused, or what is written
        conforms."""
        from pydarnio import BorealisRestructure
        d, src, st = sc['d'], sc['src'], ctx.storage
        ver, ft = d['ver'], d['ft']
        dst = 'array' if src == 'site' else 'site'
        data = recs if src == 'site' else \
            bor.ref_site_to_array(ver, ft, recs)
        want = bmut.apply(ver, ft, src, data, sc['muts'], True)
        if not want:
            raise Invalid('no change')
        bor.h5write(st.path('a'), src, data)
        kw = {} if sc['comp'] == 'default' else \
            {'hdf5_compression': sc['comp']}
        with st.armed({'rand': sc['io']} if sc['io'] else {}):
            out = C.attempt(lambda: BorealisRestructure(
                st.path('a'), st.path('b'), ft, dst, **kw))
        kinds = [k for k in range(3) if any(v[k] for v in want.values())]
        ctx.state('nonconforming', ver, ft, src, str(kinds),
                  type(out[1]).__name__ if out[0] == 'exc' else '')
        ctx.count('source %s' % ('refused' if out[0] == 'exc' else
                                 'accepted'))
        if out[0] == 'exc':
            return None
        got = bor.h5read(st.path('b'), dst)
        sp = bmut.spec(ver, ft, dst)
        for name, r in got.items() if dst == 'site' else [('', got)]:
            for f in sorted(set(sp) | set(r)):
                if f not in bmut.SKIP and (
                        f not in sp or f not in r or
                        not bmut.right(dst, *sp[f], r[f])):
                    return 'a nonconforming %s file is accepted and field ' \
                        '%s of what is written is not as it must be' % (
                            src, f)
        t = C.attempt(B.read, d, dst, st.path('b'))
        if t[0] == 'exc':
            return 'what is written for a nonconforming source is refused: ' \
                + C.exc_text(t[1])
        return None

    @staticmethod
    def twins(sc, ctx, recs):
        """Arrays of which two records start in the same millisecond, so
        that they get the same name in site structure: refused, or every
        record is kept."""
        from pydarnio import BorealisConvert, BorealisRestructure, \
            BorealisWrite, SDarnRead
        d, st, route = sc['d'], ctx.storage, sc['route']
        x, y, off = sc['twins']
        n = len(recs)
        if n < 2:
            raise Invalid('one record')
        names = sorted(recs)
        i = int(x * n) % n
        j = (i + 1 + int(y * (n - 1)) % (n - 1)) % n
        one, two = recs[names[i]], recs[names[j]]
        t = float(one['sqn_timestamps'][0])
        t = float(int(t * 1000)) / 1000 + .0005
        one['sqn_timestamps'][0] = t
        two['sqn_timestamps'][0] = t + off / 1000
        if bor.record_key(t) != bor.record_key(t + off / 1000):
            raise RuntimeError('names differ')
        data = bor.ref_site_to_array(d['ver'], d['ft'], recs)
        kw = {} if sc['comp'] == 'default' else \
            {'hdf5_compression': sc['comp']}
        if route != 'writer':
            bor.h5write(st.path('a'), 'array', data)

        def go():
            if route == 'file':
                BorealisRestructure(st.path('a'), st.path('b'), d['ft'],
                                    'site', **kw)
                return bor.h5read(st.path('b'), 'site')
            if route == 'memory':
                return B.read(d, 'array', st.path('a'), sc['how']).records
            if route == 'convert':
                BorealisConvert(st.path('a'), d['ft'],
                                st.path('b'), 0, 'array')
                rd = SDarnRead(st.path('b'))
                return rd.read_rawacf() if d['ft'] == 'rawacf' else \
                    rd.read_iqdat()
            return BorealisWrite(st.path('b'), data, d['ft'],
                                 borealis_file_structure='array').records

        if route == 'convert' and d['ft'] not in CONVERTED:
            raise Invalid('type')
        with st.armed():
            r = C.attempt(go)
        ctx.count('records of the same name ' + (
            'refused' if r[0] == 'exc' else 'accepted'))
        ctx.state('twins', d['ver'], d['ft'], route, n, i, j, off,
                  type(r[1]).__name__ if r[0] == 'exc' else '')
        if r[0] != 'exc' and len(r[1]) < n:
            return 'records with the same time: %s drops %d of %d records' % (
                route, n - len(r[1]), n)
        return None

    @staticmethod
    def differ(sc, st, recs):
        """Records that differ in a field that arrays hold once."""
        from pydarnio import BorealisRestructure
        d, f = sc['d'], sc['differ']
        if f not in bor.shared(d['ver'], d['ft']):
            raise Invalid('field')
        last = recs[sorted(recs)[-1]]
        last[f] = last[f] + type(last[f])(1)
        bor.h5write(st.path('a'), 'site', recs)
        try:
            if sc['routes'] == ['file']:
                BorealisRestructure(st.path('a'), st.path('b'), d['ft'],
                                    'array')
                got = bor.h5read(st.path('b'), 'array')
            else:
                got = B.read(d, 'site', st.path('a')).arrays
        except Exception:
            return None
        if B.diff(bor.ref_array_to_site(d['ver'], d['ft'], got), recs,
                  'site'):
            return 'values of the first record given to all (%s)' % \
                sc['routes'][0]
        return None

    def run(self, sc, ctx):
        d, src = sc['d'], sc.get('src')
        if d['ft'] not in bor.RESTRUCTURABLE:
            raise Invalid('type')
        if 'twins' in sc:
            return self.twins(sc, ctx, B.records(d))
        from pydarnio import BorealisRestructure, BorealisWrite
        st = ctx.storage
        fill = d.get('ppo') == 'none'
        recs = B.records(d)
        if 'muts' in sc:
            return self.nonconforming(sc, ctx, recs)
        arrays = bor.ref_site_to_array(d['ver'], d['ft'], recs)
        data = {'site': recs, 'array': arrays}
        dst = 'array' if src == 'site' else 'site'
        t = B.diff(bor.ref_array_to_site(d['ver'], d['ft'], arrays), recs,
                   'site', fill)
        if t:
            raise RuntimeError('reference does not return: ' + t)
        if sc.get('differ'):            # set by known-finding probes only
            return self.differ(sc, st, recs)
        path = st.path('source')
        arg = B.site_arg(d, recs) if src == 'site' else \
            B.array_arg(d, arrays)
        bor.h5write(path, src, arg, sc['scomp'], text=d['order'] >> 1 & 1)
        io = {'rand': sc['io']} if sc['io'] else {}
        kw = {} if sc['comp'] == 'default' else \
            {'hdf5_compression': sc['comp']}
        shapes = tuple((r['num_sequences'], len(r['beam_nums']))
                       for r in recs.values())

        told = []

        def files(a, b, to):
            with st.armed(io) as ops:
                r = BorealisRestructure(a, b, d['ft'], to, **kw)
            ctx.steps += len(ops)
            for k, v in (('infile_name', a), ('outfile_name', b),
                         ('outfile_structure', to),
                         ('borealis_structure', src if to == dst else dst),
                         ('borealis_filetype', d['ft']),
                         ('software_version', d['ver'])):
                if getattr(r, k) != v:
                    told.append('%s is %r' % (k, getattr(r, k)))
            if r.borealis_structure == 'site' and \
                    [str(n) for n in r.record_names] != sorted(recs):
                told.append('record_names %s' % r.record_names)
            t = B.shown(r, a, b)
            if t:
                told.append(t)

        def memory(p, s, how):
            with st.armed(io):
                rd = B.read(d, s, p, how)
                got = rd.arrays if s == 'site' else rd.records
                own = rd.records if s == 'site' else rd.arrays
            return got, own

        for route in sc['routes']:
            lab = '%s to %s, %s, %s' % (src, dst, route, d['ft'])
            own = None
            keep = None
            to = dst
            try:
                if route == 'file':
                    files(path, st.path('out'), dst)
                    got = bor.h5read(st.path('out'), dst)
                elif route in ('memory', 'specific memory'):
                    got, own = memory(path, src, sc['how'] if
                                      route == 'memory' else 'specific')
                elif route == 'writer':
                    keep = B.frozen(arg)
                    with st.armed(io):
                        w = BorealisWrite(st.path('w'), arg, d['ft'],
                                          borealis_file_structure=src)
                        got = w.arrays if src == 'site' else w.records
                else:
                    files(path, st.path('mid'), dst)
                    if route == 'there and back':
                        files(st.path('mid'), st.path('back'), src)
                        got = bor.h5read(st.path('back'), src)
                    else:
                        got, own = memory(st.path('mid'), dst, sc['how'])
                        t = B.diff(own, data[dst], dst, fill)
                        if t:
                            return '%s: %s' % (lab, B.brief(t))
                        own = None
                    to = src
            except Exception as e:
                return '%s: %s' % (lab, C.exc_text(e))
            t = B.diff(got, data[to], to, fill)
            if t:
                return '%s: %s' % (lab, B.brief(t))
            if told:
                return '%s: the object says: %s' % (lab, told[0])
            if own is not None:
                t = B.diff(own, data[src], src, fill)
                if t:
                    return '%s: the source data changed: %s' % (lab,
                                                                B.brief(t))
            if keep is not None:
                t = B.same(arg, keep)
                if t:
                    return '%s: the writer\'s input changed: %s' % (lab, t)
            for f in os.listdir(st.dir):
                if f != 'source':
                    os.unlink(st.path(f))
            ctx.count('route ' + route)
            ctx.state(d['ver'], d['ft'], src, route, str(sc['comp']),
                      shapes, tuple(sc['io'][1:]) if sc['io'] else None)
        return None


CHECK = C11()
