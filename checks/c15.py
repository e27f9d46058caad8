from vsim import bor
from vsim.runner import Check, Invalid
from . import bcommon as B
from . import bmut
from . import common as C

WHY = ['fields'] * 6 + ['other type', 'other type', 'none', 'none', 'version',
                        'other structure', 'records differ', 'text file',
                        'no records', 'unknown structure', 'no version']


class C15(Check):
    id = 'C15'
    quick = (9000, 90)
    thorough = (200000, 700)
    state_rule = 'type, version, structure, reader, kind of trouble and ' \
        'offending fields'
    real = B.REAL
    stub = B.STUB
    technique = 'seeded files made without the library, conforming or with ' \
        'offending fields in any record, read under simulated short and ' \
        'interrupted transfers'
    note = 'Sampled faults, up to three offending fields per file.'
    assumptions = ['borealis_git_hash, which decides the version, and '
                   'pulse_phase_offset, which is repaired, are not mistyped']

    def gen(self, rng, i, tier):
        d = B.gen_data(rng, nmax=rng.choice([3, 6]))
        d.pop('ppo', None)
        d.pop('mem', None)
        struct = 'site'
        if d['ft'] != 'rawrf' and rng.random() < .5:
            struct = 'array'
        why = rng.choice(WHY)
        sc = {'d': d, 'struct': struct, 'why': why,
              'how': rng.choice(['general', 'general', 'auto', 'specific']),
              'pick': rng.getrandbits(12), 'io': C.gen_rand_io(rng)}
        if why == 'fields':
            sc['muts'] = bmut.gen(rng, rng.choice([1, 1, 1, 2, 3]))
        return sc

    def run(self, sc, ctx):
        d, struct, why = sc['d'], sc['struct'], sc['why']
        if struct == 'array' and d['ft'] == 'rawrf':
            raise Invalid('type')
        path = ctx.storage.path('in.h5')
        recs = B.records(d)
        data = recs if struct == 'site' else \
            bor.ref_site_to_array(d['ver'], d['ft'], recs)
        want = None
        ask = d
        rstruct = struct
        if why == 'fields':
            want = bmut.apply(d['ver'], d['ft'], struct, data, sc['muts'],
                              True)
            if not want:
                raise Invalid('no change')
        elif why == 'other type':
            fts = [t for t in bor.TYPES if t != d['ft'] and
                   (struct == 'site' or t != 'rawrf')]
            ask = dict(d, ft=fts[sc['pick'] % len(fts)])
            sp = set(bmut.spec(d['ver'], ask['ft'], struct))
            want = {n: (sp - set(r), set(r) - sp, set()) for n, r in
                    (recs.items() if struct == 'site' else [('', data)])}
            if not any(any(x) for x in want.values()):
                raise Invalid('same fields')
        elif why == 'version':
            v = d['ver']
            h = ['v9.9-3-gabcdef0', 'v0.1', 'v7', 'abcdef0', v + '1',
                 v + 'rc1', v + '0-1-gabcdef0', 'v0' + v[1:], v[1:], ' ' + v,
                 v + ' ', 'v' + v, v.upper(), v[:-1], v[:3], v + '_2',
                 '-' + v, v + '1.' + v[1:], 'v1' + v[1:], '', 'v0.',
                 v.replace('.', ',')][sc['pick'] % 22]
            if h == v:
                raise Invalid('version')
            for r in (data.values() if struct == 'site' else [data]):
                r['borealis_git_hash'] = h
        elif why == 'no version':
            names = sorted(recs)
            k = names[sc['pick'] % len(names)]
            r = data[k] if struct == 'site' else data
            if sc['pick'] >> 4 & 1 and struct == 'site':
                # a record with nothing in it, or almost nothing
                keep = [f for f in sorted(r) if r[f] is not None]
                keep = keep[:sc['pick'] >> 5 & 3]
                data[k] = {f: r[f] for f in keep
                           if f != 'borealis_git_hash'}
            else:
                del r['borealis_git_hash']
        elif why == 'other structure':
            rstruct = 'array' if struct == 'site' else 'site'
            if sc['how'] == 'auto' or d['ft'] == 'rawrf':
                raise Invalid('how')
        elif why == 'unknown structure':
            rstruct = ['Site', 'arrays', '', 'both'][sc['pick'] % 4]
            if sc['how'] != 'general':
                raise Invalid('how')
        elif why == 'records differ':
            if struct != 'array':
                raise Invalid('structure')
            un = [f for f in sorted(bor.unshared(d['ver'], d['ft']))
                  if f in data]
            f = un[sc['pick'] % len(un)]
            data[f] = data[f].repeat(2, axis=0)
        if why == 'text file':
            with open(path, 'wb') as f:
                f.write([b'', b'hello', b'\x89HDF\r\n\x1a\n',
                         b'x' * 5000][sc['pick'] % 4])
        else:
            bor.h5write(path, struct, {} if why == 'no records' else data,
                        'gzip' if struct == 'array' else None,
                        deepdish=bool(d['order'] & 1),
                        text=d['order'] >> 1 & 1)
        before = ctx.storage.snapshot()
        io = {'rand': sc['io']} if sc['io'] else {}
        got = err = None
        with ctx.storage.armed(io) as ops:
            try:
                rd = B.read(ask, rstruct, path, sc['how'])
                if why != 'unknown structure':
                    got = B.content(rd, rstruct)
            except Exception as e:
                err = e
        ctx.steps += len(ops)
        lab = '%s %s' % (struct, why)
        ctx.state(d['ver'], d['ft'], lab, sc['how'], type(err).__name__,
                  str(want)[:200])
        if ctx.storage.snapshot() != before:
            return '%s: reading changed files' % lab
        if why == 'none':
            if err is not None:
                return '%s: a conforming file is refused: %s' % (
                    lab, C.exc_text(err))
            t = B.diff(got, data, struct)
            return t and '%s: data differ: %s' % (lab, B.brief(t))
        if err is None:
            return '%s: accepted (%s)' % (lab, B.brief(str(want)))
        ctx.count('refused: ' + why)
        if want and sc['how'] != 'auto':
            t = bmut.judge_site(err, want) if struct == 'site' else \
                bmut.judge_array(err, d['ver'], ask['ft'], data, want)
            if t:
                return '%s: refused but %s' % (lab, t)
        return None


CHECK = C15()
