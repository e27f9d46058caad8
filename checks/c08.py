import os

import numpy as np

from vsim import bor
from vsim.runner import Check, Invalid
from . import bcommon as B
from . import common as C


class C08(Check):
    id = 'C08'
    quick = (8000, 110)
    thorough = (60000, 700)
    state_rule = 'combinations of type, version, structure, compression, ' \
        'reader, writer, source, number of records and pattern of short ' \
        'and interrupted transfers'
    real = B.REAL
    stub = B.STUB
    technique = 'seeded Borealis data written in one or several steps and ' \
        'read back under simulated short and interrupted transfers; ' \
        'compared with the data and with an independent HDF5 reading'
    note = 'Sampled data, up to 8 records and 4000 samples per field.'
    assumptions = ['text ends in no NUL character',
                   'an empty pulse_phase_offset is read as zeros, one per '
                   'pulse']

    def gen(self, rng, i, tier):
        d = B.gen_data(rng, nmax=rng.choice([4, 8]))
        if rng.random() < .01:
            d['n'] = rng.choice([26, 40])
            d.pop('big', None)
        struct = 'site'
        if d['ft'] != 'rawrf' and rng.random() < .45:
            struct = 'array'
        else:
            if rng.random() < .3:
                d['vary'] = rng.getrandbits(16)
            if rng.random() < .15:
                f = rng.choice([k for k, v in bor.table(d['ver'], d[
                    'ft']).items() if v[0] == 'a' and not
                    k.startswith('pulse')])
                d['empty'] = [[f, rng.choice([-1, 0, 1])]]
        sc = {'d': d, 'struct': struct, 'name': rng.choice(B.NAMES),
              'w': rng.choice(['general', 'auto', 'specific']),
              'r': rng.choice(['general', 'auto', 'specific']),
              'comp': rng.choice(B.COMP), 'io': C.gen_rand_io(rng),
              'src': rng.choice(['library'] * 3 + ['other'])}
        if d.get('ppo') == 'none' and rng.random() < .5:
            sc['src'], sc['broken'] = 'other', rng.choice(['f8', 'i8', 'f8'])
        if struct == 'site' and d['n'] > 1 and rng.random() < .4:
            sc['steps'] = rng.randint(2, d['n'])
        return sc

    def run(self, sc, ctx):
        d, struct = sc['d'], sc['struct']
        if struct == 'array' and d['ft'] == 'rawrf':
            raise Invalid('structure')
        recs = B.records(d)
        if struct == 'array' and sc['name'].startswith('.'):
            raise Invalid('name')
        path = ctx.storage.path(sc['name'])
        want = B.repaired(recs)
        raw = recs
        if struct == 'array':
            want = raw = bor.ref_site_to_array(d['ver'], d['ft'], recs)
        io = {'rand': sc['io']} if sc['io'] else {}
        lab = '%s %s' % (struct, d['ft'])
        if sc['src'] == 'other' and d.get('ppo') == 'none' and \
                sc.get('broken'):
            # how an empty value was stored by early writers
            bad = np.zeros(2, sc['broken'])
            if struct == 'array' and \
                    np.size(raw.get('pulse_phase_offset', 1)) == 0:
                raw = dict(raw, pulse_phase_offset=bad)
            elif struct == 'site':
                raw = {k: dict(v, pulse_phase_offset=bad)
                       if len(v.get('pulse_phase_offset', 'x')) == 0 and
                       len(v['pulses']) != 2 else v for k, v in raw.items()}
            ctx.count('offsets stored by early writers')
        if sc['src'] == 'other':
            bor.h5write(path, struct, raw, None if struct == 'site' else
                        'gzip', deepdish=bool(d['order'] & 1),
                        text=d['order'] >> 1 & 1)
        else:
            groups = [raw]
            k = sc.get('steps', 1)
            if struct == 'site' and k > 1:
                names = list(raw)
                groups = [{n: raw[n] for n in names[j::k]} for j in range(k)]
            for g in groups:
                if not g:
                    continue
                arg = B.site_arg(d, g) if struct == 'site' else \
                    B.array_arg(d, g)
                keep = B.frozen(arg)
                with ctx.storage.armed(io) as ops:
                    try:
                        w = B.write(d, struct, path, arg, sc['w'], sc['comp'])
                    except Exception as e:
                        return '%s: write refused: %s' % (lab, C.exc_text(e))
                ctx.steps += len(ops)
                t = B.same(arg, keep)
                if t:
                    return '%s: write changed its input: %s' % (lab, t)
                t = B.described(w, d, struct, path, sc['w'],
                                g if struct == 'site' else recs,
                                [sc['comp']])
                if t:
                    return '%s: writer: %s' % (lab, t)
            c = B.COMP_USED(struct, sc['comp'])
            c = {None: None, 'lzf': 'lzf'}.get(c, 'gzip')
            if bor.h5compression(path, struct) - {c}:
                return '%s: stored with compression %s instead of %s' % (
                    lab, bor.h5compression(path, struct), c)
            got = bor.h5read(path, struct)
            t = B.diff(got, raw, struct)
            if t:
                return '%s: stored data differ: %s' % (lab, B.brief(t))
        with ctx.storage.armed(io):
            try:
                rd = B.read(d, struct, path, sc['r'])
                got = B.content(rd, struct)
            except Exception as e:
                return '%s: read refused: %s' % (lab, C.exc_text(e))
        t = B.diff(got, want, struct)
        if t:
            return '%s: data read differ: %s' % (lab, B.brief(t))
        t = B.described(rd, d, struct, path, sc['r'], recs)
        if t:
            return '%s: reader: %s' % (lab, t)
        if os.listdir(ctx.storage.dir) != [sc['name']]:
            return '%s: other files appeared' % lab
        ctx.count('records', len(recs))
        ctx.state(d['ver'], d['ft'], struct, str(sc['comp']), sc['w'],
                  sc['r'], sc['src'], d['n'], sc.get('steps'), d.get('ppo'),
                  bool(d.get('mem')), bool(d.get('text')),
                  tuple(sc['io'][1:]) if sc['io'] else None)
        return None


CHECK = C08()
