import numpy as np

from vsim import dmapref as R
from vsim.runner import Check, Invalid
from . import common as C


class C01(Check):
    id = 'C01'
    quick = (8000, 60)
    thorough = (400000, 700)
    state_rule = 'combinations of file type, form, path, field kinds, ' \
        'memory layouts and transfer fault pattern reached'
    real = C.REAL_DMAP
    stub = C.STUB_IO
    technique = 'seeded records, write/read under short and interrupted ' \
        'transfers, against an independent codec'
    note = 'Sampled: holds on every simulated run; the reference codec is ' \
        'trusted. Records that cannot be read back (no scalars, no arrays, ' \
        'empty or 0-d arrays) must be refused, which C03 decides.'
    assumptions = ['little-endian host', 'no damage to stored data']

    def gen(self, rng, i, tier):
        kind = rng.choice(['generic'] * 6 + R.TYPES)
        big = rng.random() < .2
        specs = C.gen_specs(rng, kind, 5, big)
        extra = {}
        x = rng.random()
        if x < .006:
            # many records
            extra['times'] = rng.choice([70, 130, 260, 520]) if kind == \
                'generic' else rng.choice([35, 70, 130])
            specs = [R.gen_record(rng, small=True) if kind == 'generic' else
                     R.gen_sd_record(rng, kind) for _ in range(2)]
        elif x < .025:
            # large arrays
            c = [f for s in specs for f in s
                 if R.is_array(f) and len(f['sh']) < 4 and 0 not in f['sh']]
            for f in rng.sample(c, min(2, len(c))):
                if f['m'] != 'L':
                    k = rng.randrange(len(f['sh']))
                    f['sh'][k] *= rng.choice([3e4, 7e4, 1.4e5, 3e5]) // \
                        int(np.prod(f['sh'])) + 1
                    f['sh'][k] = int(f['sh'][k])
        return {**extra, 'kind': kind, 'form': rng.choice(['dict', 'struct']),
                'via': rng.choice(['file', 'file', 'stream']),
                'explicit': rng.random() < .7,
                'specs': specs, 'io': C.gen_rand_io(rng)}

    def nontrivial(self, sc):
        """the record list is not empty"""
        return bool(sc['specs'])

    def run(self, sc, ctx):
        import pydarnio
        kind, specs = sc['kind'], sc['specs'] * sc.get('times', 1)
        C.require_conforming(kind, specs)
        for s in specs:
            for f in s:
                if f.get('m') == 'L' and not R.list_ok(f):
                    raise Invalid('list')
        exp = [R.expected(s) for s in specs]
        recs = C.build(specs, sc['form'])
        st = ctx.storage
        path = st.path('out.dmap')
        io = {'rand': sc['io']} if sc['io'] else {}
        # -- write
        with st.armed(io) as ops:
            out = C.attempt(C.write, kind, recs, sc['via'], path,
                            sc['explicit'])
        if out[0] == 'exc':
            return 'well-formed records are refused: ' + C.exc_text(out[1])
        data = out[1]
        if sc['via'] == 'file':
            with open(path, 'rb') as f:
                data = f.read()
        data = bytes(data)
        ctx.state(kind, sc['form'], sc['via'],
                  tuple(sorted({(f['t'], len(f.get('sh', ())),
                                 f.get('m', '')) for s in specs for f in s})),
                  tuple(o.fault for o in ops))
        d = R.check_bytes(specs, data)
        if d:
            return 'stored bytes do not encode the records: ' + d
        # -- read
        hows = ['generic'] + ([kind] if kind != 'generic' else [])
        srcs = [('stream', data, True), ('stream', bytearray(data), True)]
        if sc['via'] == 'file':
            srcs.append(('file', path, False))
        for how in hows:
            for label, src, stream in srcs:
                with st.armed(io):
                    out = C.attempt(C.read_all, how, src, stream)
                if out[0] == 'exc':
                    return 'written records cannot be read (%s, %s): %s' % (
                        how, label, C.exc_text(out[1]))
                rd, got = out[1]
                if (path not in repr(rd) or path not in str(rd)) and \
                        not stream:
                    return 'the reader does not show its file'
                d = R.diff_read(exp, got)
                if d:
                    return 'records read differ (%s, %s): %s' % (how, label,
                                                                 d)
                d = R.diff_structs(exp, rd.get_dmap_records)
                if d:
                    return 'structured records read differ (%s): %s' % (how,
                                                                        d)
                ctx.count('records read', len(exp))
        # -- what was read can be written again
        out = C.attempt(C.write, kind, list(got), 'stream')
        if out[0] == 'exc':
            return 'records read cannot be written again: ' + \
                C.exc_text(out[1])
        d = R.check_bytes(specs, bytes(out[1]))
        if d:
            return 'records read and written again differ: ' + d
        # -- dictionaries and structures are interchangeable
        if sc['form'] == 'dict':
            s2 = pydarnio.dict2dmap(recs)
            back = pydarnio.dmap2dict(s2)
            d = R.diff_structs(exp, s2) if all(
                f.get('m') != 'E' and f['t'] != 'f' for s in specs
                for f in s) else None
            if d:
                return 'dictionaries converted to structures differ: ' + d
            if [list(r) for r in back] != [list(r) for r in recs]:
                return 'conversion to structures and back changed the fields'
        else:
            back = pydarnio.dmap2dict(recs)
            if all(f.get('m') != 'E' and f['t'] != 'f' for s in specs
                   for f in s):
                d = R.diff_read(exp, back)
                if d:
                    return 'structures converted to dictionaries differ: ' + d
        return None


CHECK = C01()
