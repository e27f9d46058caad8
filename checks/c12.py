import os
import subprocess
import sys

import numpy as np

from vsim import bor
from vsim import dmapref as R
from vsim import runner
from vsim import seam
from vsim.runner import Check, Invalid
from . import bcommon as B
from . import bmut
from . import bops
from . import common as C

TZ = [None, 'UTC0', 'AAA-14', 'BBB12', 'EST5EDT,M3.2.0,M11.1.0', 'IST-5:30',
      'NZST-12NZDT,M9.5.0,M4.1.0/3']
CLOCKS = [None, 0.0, 1.5e9, 2.2e9, 4102444800.0]
REFUSE = ['blanked', 'blanked', 'phase', 'phase', 'station', 'type',
          'unknown type', 'no slice', 'same file', 'structure', 'fields',
          'fields', 'missing source', 'text source', 'range', 'range']


class C12(Check):
    id = 'C12'
    quick = (6000, 130)
    thorough = (80000, 700)
    state_rule = 'type, version, source structure, time zone, clock, ' \
        'position in the sequence of conversions, shapes of the records, ' \
        'or kind of refusal and earlier destination'
    real = B.REAL + ['DMAP writer']
    stub = B.STUB + ['wall clock and time zone: set per conversion; hash '
                     'seed: set per child process']
    technique = 'seeded sequences of conversions under simulated time ' \
        'zones, clocks, hash seeds and short and interrupted transfers; ' \
        'compared with an independent reference conversion'
    note = 'Sampled data, up to 8 records, 20 beams and 35 sequences; about ' \
        'one run in 150 uses child processes with other hash seeds.'
    assumptions = ['scaled samples may differ by float rounding (relative '
                   '1e-5 of the largest, or one unit where cut to integers)',
                   'microseconds may differ by one']

    def gen(self, rng, i, tier):
        if rng.random() < .3:
            return self.gen_refuse(rng)
        k = rng.choice([1, 1, 2, 2, 3])
        steps = []
        for _ in range(k):
            o = bops.gen(rng, bops.CONVERT, nmax=rng.choice([3, 8]))
            steps.append({'o': o, 'tz': rng.choice(TZ),
                          'clock': rng.choice(CLOCKS),
                          'tick': rng.choice([0, .001, 1000.0, -5.0])})
        sc = {'mode': 'convert', 'steps': steps, 'io': C.gen_rand_io(rng),
              'both': rng.random() < .4}
        if rng.random() < .01:
            sc['mode'] = 'hash'
            sc['hash'] = rng.getrandbits(31)
            sc['io'] = None
        return sc

    def gen_refuse(self, rng):
        why = rng.choice(REFUSE)
        o = bops.gen(rng, bops.CONVERT, nmax=4,
                     fts=['bfiq'] if why == 'phase' else None)
        if why in ('no slice',):
            o['d']['ver'] = rng.choice(['v0.2', 'v0.3', 'v0.4'])
        sc = {'mode': 'refuse', 'o': o, 'why': why,
              'pick': rng.getrandbits(16),
              'old': rng.choice(['none', 'none', 'dmap', 'text']),
              'ok_first': rng.random() < .3}
        if why == 'fields':
            sc['muts'] = bmut.gen(rng, 1)
        return sc

    def run(self, sc, ctx):
        return getattr(self, sc['mode'])(sc, ctx)

    def output(self, p):
        """Judges the file and what the library makes of it."""
        t = p.judge()
        if t:
            return t
        from pydarnio import SDarnRead
        rd = SDarnRead(p.dst)
        if p.d['ft'] == 'rawacf':
            recs = rd.read_rawacf()
        else:
            recs = rd.read_iqdat()
        ft = 'rawacf' if p.d['ft'] == 'rawacf' else 'iqdat'
        with open(p.dst, 'rb') as f:
            dec = R.decode(f.read())
        for i, r in enumerate(dec):
            m, e, w = R.faults_of(ft, {n: x[1] for n, x in r.items()})
            if m or e or w:
                return 'record %d: %s %s %s' % (i, m, e, w)
        if len(recs) != len(dec):
            return '%d of %d records read' % (len(recs), len(dec))
        return None

    # ------------------------------------------------------------------
    @staticmethod
    def holds(conv, p, data):
        """The converter itself holds what it has written."""
        first = next(iter(p.recs.values()))
        want = {'sdarn_filetype': {'rawacf': 'rawacf', 'bfiq': 'iqdat'}[
                    p.d['ft']],
                'sdarn_filename': p.dst, 'borealis_filename': p.src,
                'borealis_filetype': p.d['ft'],
                'scaling_factor': p.o['scale'],
                'borealis_slice_id': int(first.get('slice_id',
                                                   p.o['slice']))}
        for k, v in want.items():
            if getattr(conv, k) != v:
                return '%s is %r instead of %r' % (k, getattr(conv, k), v)
        t = B.shown(conv, p.dst)
        if t:
            return t
        dec = R.decode(data)
        for k in ('sdarn_dict', 'sdarn_dmap_records'):
            recs = getattr(conv, k)
            if len(recs) != len(dec):
                return '%s has %d records' % (k, len(recs))
            for i, (a, b) in enumerate(zip(recs, dec)):
                if set(a) != set(b):
                    return '%s record %d: other fields' % (k, i)
                for n in b:
                    x = getattr(a[n], 'value', a[n])
                    y = b[n][2]
                    if not np.array_equal(np.asarray(x), np.asarray(y),
                                          equal_nan=np.asarray(
                                              y).dtype.kind == 'f'):
                        return '%s record %d: %s' % (k, i, n)
        return None

    def convert(self, sc, ctx):
        st = ctx.storage
        io = {'rand': sc['io']} if sc['io'] else {}
        for j, s in enumerate(sc['steps']):
            ops = [s['o']]
            if sc['both']:
                other = dict(s['o'])
                other['op'] = 'carray' if s['o']['op'] == 'csite' else 'csite'
                ops.append(other)
            outs = []
            for o in ops:
                p = bops.Op(o, st.path('src'), st.path('out.%d' % len(outs)))
                if p.op not in bops.CONVERT:
                    raise Invalid('op')
                p.setup()
                lab = '%s %s' % (p.op, o['d']['ft'])
                try:
                    with seam.timezone(s['tz']):
                        if s['clock'] is None:
                            with st.armed(io) as lg:
                                conv = p.do()
                        else:
                            with seam.FakeClock(s['clock'],
                                                s['tick']).on():
                                with st.armed(io) as lg:
                                    conv = p.do()
                except Exception as e:
                    return '%s: refused: %s' % (lab, C.exc_text(e))
                ctx.steps += len(lg)
                t = self.output(p)
                if t:
                    return '%s: %s' % (lab, B.brief(t))
                with open(p.dst, 'rb') as f:
                    outs.append(f.read())
                t = self.holds(conv, p, outs[-1])
                if t:
                    return '%s: the converter: %s' % (lab, t)
                os.unlink(p.src)
                os.unlink(p.dst)
                d = o['d']
                ctx.state(d['ver'], d['ft'], p.op, s['tz'], s['clock'], j,
                          tuple((r['num_sequences'], len(r['beam_nums']))
                                for r in p.recs.values()))
                ctx.count('converted from ' + p.op[1:])
            if len(outs) == 2 and outs[0] != outs[1]:
                return '%s: site and array sources give different output' % \
                    s['o']['d']['ft']
        return None

    def hash(self, sc, ctx):
        """The conversions of one child process with its own hash seed."""
        import json
        st = ctx.storage
        prep = []
        for j, s in enumerate(sc['steps']):
            p = bops.Op(s['o'], st.path('src%d' % j), st.path('out%d' % j))
            if p.op not in bops.CONVERT:
                raise Invalid('op')
            p.setup()
            prep.append(p)
        code = ('import sys, json\n'
                'from checks import bops\n'
                'from vsim import runner\n'
                'runner.import_code()\n'
                'for o, a, b in json.loads(sys.stdin.read()):\n'
                '    bops.Op(o, a, b).do()\n')
        env = dict(os.environ, PYTHONHASHSEED=str(sc['hash']))
        env.pop('LD_PRELOAD', None)
        tz = sc['steps'][0]['tz']
        if tz:
            env['TZ'] = tz
        r = subprocess.run(
            [sys.executable, '-B', '-c', code], env=env, cwd=runner.ROOT,
            input=json.dumps([[p.o, p.src, p.dst] for p in prep]).encode(),
            stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=300)
        if r.returncode:
            return 'conversion fails in a fresh process: ' + \
                r.stderr.decode(errors='replace')[-300:]
        for p in prep:
            t = self.output(p)
            if t:
                return '%s %s: in a fresh process: %s' % (
                    p.op, p.d['ft'], B.brief(t))
        ctx.count('fresh process with its own hash seed')
        ctx.state('hash', sc['hash'] % 1024)
        return None

    # ------------------------------------------------------------------
    def refuse(self, sc, ctx):
        from pydarnio import BorealisConvert
        st = ctx.storage
        o, why, pick = sc['o'], sc['why'], sc['pick']
        d = o['d']
        p = bops.Op(o, st.path('src'), st.path('out'))
        if p.op not in bops.CONVERT:
            raise Invalid('op')
        site = p.op == 'csite'
        struct = 'site' if site else 'array'
        if sc['ok_first']:
            q = bops.Op(o, st.path('src'), st.path('out'))
            q.setup()
            q.do()
            os.unlink(q.src)
            os.unlink(q.dst)
        recs, arrays = p.recs, p.arrays
        n = bor.vnum(d['ver'])
        names = list(recs)
        name = names[pick % len(names)]
        src, dst, ft, sl = p.src, p.dst, d['ft'], o['slice']
        fstruct = None if o['how'] == 'auto' else struct
        edit = False
        lab2 = ''
        if why == 'blanked':
            if n < 5:
                for r in recs.values():
                    b = r['blanked_samples']
                    r['blanked_samples'] = b + 2 if pick & 256 else \
                        np.sort(np.append(b, b + 1)).astype(b.dtype)
            else:
                b = recs[name]['blanked_samples']
                k = pick >> 8
                b = [b[:-1], b + np.uint32(2), np.append(b, b[-1] + 7)
                     .astype(b.dtype), b[:0],
                     np.sort(np.append(b, b + 1)).astype(b.dtype)][k % 5]
                recs[name]['blanked_samples'] = b
            edit = True
        elif why == 'phase':
            if ft != 'bfiq':
                raise Invalid('type')
            if n < 6:
                for r in recs.values():
                    x = r['pulse_phase_offset'].copy()
                    if not x.size:
                        raise Invalid('no offsets')
                    x[pick % x.size] = .5
                    r['pulse_phase_offset'] = x
            else:
                x = recs[name]['pulse_phase_offset'].copy()
                if not x.size:
                    raise Invalid('no offsets')
                x.reshape(-1)[(pick >> 8) % x.size] = [.5, -1e-3, 90][pick % 3]
                recs[name]['pulse_phase_offset'] = x
            edit = True
        elif why == 'range':
            # values that the fields of SuperDARN files cannot hold
            ks = sorted(k for k in B.OVER if k in recs[name])
            if ft == 'bfiq':
                ks.append('sqn_timestamps')
            if n < 5:
                ks.append('slice')
            k = ks[(pick >> 3) % len(ks)]
            if k == 'slice':
                sl = [32768, 65537, -32769][(pick >> 8) % 3]
            elif k == 'sqn_timestamps':
                x = recs[name][k].copy()
                if len(x) < 2:
                    raise Invalid('one sequence')
                x[1:] = [2.0 ** 31, 2.0 ** 32 + 9][(pick >> 8) % 2]
                recs[name][k] = x
            else:
                x = B.OVER[k][(pick >> 8) % len(B.OVER[k])]
                for q in recs if k in bor.shared(d['ver'], ft) else [name]:
                    B.set_all(recs[q], k, x)
            arrays = bor.ref_site_to_array(d['ver'], d['ft'], recs)
            lab2 = k
        elif why == 'station':
            for r in recs.values():
                r['station'] = ['xyz', '', 'SAS'][pick % 3]
            edit = True
        elif why == 'type':
            ft = 'antennas_iq'
            d2 = dict(d, ft=ft)
            d2.pop('text', None)
            recs = B.records(d2)
            if not site:
                arrays = bor.ref_site_to_array(d['ver'], ft, recs)
            if pick & 1:
                ft = d['ft']
        elif why == 'unknown type':
            ft = ['iqdat', 'foo', '', None][pick % 4]
        elif why == 'no slice':
            if n >= 5:
                raise Invalid('version')
            sl = None
        elif why == 'same file':
            dst = src
        elif why == 'structure':
            fstruct = 'array' if site else 'site'
        elif why == 'missing source':
            src = st.path('nothing here')
        if edit:
            if bor.convertible(d['ver'], d['ft'], recs):
                raise Invalid('still convertible')
            arrays = bor.ref_site_to_array(d['ver'], d['ft'], recs)
        data = recs if site else arrays
        want = None
        if why == 'fields':
            data = {k: dict(v) if site else v for k, v in data.items()}
            want = bmut.apply(d['ver'], d['ft'], struct, data, sc['muts'],
                              True)
            if not want:
                raise Invalid('no change')
        if why == 'text source':
            with open(src, 'wb') as f:
                f.write(b'this is text\n' * 50)
        else:
            bor.h5write(p.src, struct, data, None if site else 'gzip',
                        text=d['order'] >> 1 & 1)
        if sc['old'] == 'dmap' and why != 'same file':
            with open(dst, 'wb') as f:
                f.write(R.encode([R.gen_record(__import__('random').Random(
                    pick), False, small=True)]))
        elif sc['old'] == 'text' and why != 'same file':
            with open(dst, 'wb') as f:
                f.write(b'older content')
        with open(st.path('other'), 'wb') as f:
            f.write(b'bystander')
        before = st.snapshot()
        try:
            with st.armed():
                BorealisConvert(src, ft, dst, sl,
                                borealis_file_structure=fstruct,
                                scaling_factor=o['scale'])
            err = None
        except Exception as e:
            err = e
        lab = '%s %s %s' % (p.op, d['ft'], lab2 or why)
        ctx.state('refuse', d['ver'], lab, sc['old'], type(err).__name__,
                  fstruct, str(want)[:100])
        if err is None:
            return '%s: converted' % lab
        after = st.snapshot()
        if after != before:
            ch = [k for k in set(before) | set(after)
                  if before.get(k) != after.get(k)]
            return '%s: refused but changed %s' % (lab, ch)
        ctx.count('refused: ' + why)
        return None


CHECK = C12()
