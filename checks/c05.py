import random
import re

from vsim import dmapref as R
from vsim import seam
from vsim.runner import Check, Invalid
from . import common as C

INTS = [0, 1, 2, 3, 4, 7, 8, 15, 16, 17, -1, -2, -4, -8, -16, 255, 256, 65535,
        65536, 65537, 2 ** 31 - 1, -2 ** 31, 2 ** 30, 2 ** 24, 10 ** 6]
CODES = [0, 1, 2, 3, 4, 5, 8, 9, 10, 11, 15, 16, 17, 18, 19, 20, 127, 128,
         255]


RECORD = re.compile(r'record(?: number| =|:)? (\d+)\b')


def gen_op(rng):
    k = rng.random()
    if k < .4:
        return ['num', rng.getrandbits(20), rng.choice(
            ['set', 'set', 'add', 'add', 'other']), rng.choice(INTS),
            rng.choice([1, -1, 4, -4, 16, 8, -8, 2])]
    if k < .43:
        return ['link', rng.getrandbits(20), rng.getrandbits(20)]
    if k < .5:
        return ['code', rng.getrandbits(20), rng.choice(CODES)]
    if k < .65:
        return ['flip', rng.getrandbits(28)]
    if k < .72:
        return ['zero', rng.getrandbits(20), rng.choice([1, 4, 16, 64, 512])]
    if k < .79:
        return ['cut', rng.getrandbits(20), rng.choice([1, 2, 4, 16, 64])]
    if k < .86:
        return ['repeat', rng.getrandbits(20), rng.choice([1, 4, 16, 64])]
    if k < .92:
        return ['swap', rng.getrandbits(20), rng.getrandbits(20),
                rng.choice([1, 4, 16, 64])]
    if k < .96:
        return ['put', rng.getrandbits(20), rng.getrandbits(32),
                rng.choice([1, 2, 4, 8, 33])]
    return ['end', rng.getrandbits(20)]


def apply(data, layout, op, rng=None):
    b = bytearray(data)
    n = len(b)
    if not n:
        return bytes(b)
    k = op[0]
    nums = [x for x in layout if x[1] == 4 and x[0] + 4 <= n and x[2][:5] !=
            'value']
    if k == 'num' and nums:
        o = nums[op[1] % len(nums)][0]
        cur = int.from_bytes(b[o:o + 4], 'little', signed=True)
        v = {'set': op[3], 'add': cur + op[4],
             'other': int.from_bytes(
                 b[nums[op[1] // 7 % len(nums)][0]:][:4], 'little',
                 signed=True)}[op[2]]
        v &= 0xffffffff
        b[o:o + 4] = v.to_bytes(4, 'little')
    elif k == 'link':
        # a record that leads to another one
        at = [x[0] - 4 for x in layout if x[2] == 'size' and x[0] + 4 <= n]
        if at:
            o, to = at[op[1] % len(at)], at[op[2] % len(at)]
            b[o + 4:o + 8] = ((to - o) & 0xffffffff).to_bytes(4, 'little')
    elif k == 'code':
        ts = [x[0] for x in layout if x[2] == 'type' and x[0] < n]
        if ts:
            b[ts[op[1] % len(ts)]] = op[2] & 255
    elif k == 'flip':
        o = op[1] % (n * 8)
        b[o // 8] ^= 1 << (o % 8)
    elif k == 'zero':
        o = op[1] % n
        e = min(n, o + op[2])
        b[o:e] = bytes(e - o)
    elif k == 'cut':
        o = op[1] % n
        del b[o:o + op[2]]
    elif k == 'repeat':
        o = op[1] % n
        b[o:o] = b[o:o + op[2]]
    elif k == 'swap':
        x, y = op[1] % n, op[2] % n
        ln = min(op[3], n - max(x, y))
        b[x:x + ln], b[y:y + ln] = b[y:y + ln], b[x:x + ln]
    elif k == 'put':
        r = random.Random(op[2])
        o = op[1] % n
        ln = min(op[3], n - o)
        b[o:o + ln] = bytes(r.getrandbits(8) for _ in range(ln))
    elif k == 'end':
        del b[op[1] % n:]
    return bytes(b)


class C05(Check):
    id = 'C05'
    quick = (4000, 90)
    thorough = (300000, 700)
    state_rule = 'outcome classes: reader, kinds of damage, error type, and ' \
        'whether the damaged bytes still encode records'
    real = C.REAL_DMAP
    stub = C.STUB_IO + ['storage at rest: damaged by the simulator']
    technique = 'seeded damage of stored bytes (structure-aware and blind), ' \
        'read under a step budget and compared with an independent decoder'
    note = 'Sampled damage; work is bounded in line events of the library.'
    assumptions = ['work inside numpy and struct calls is bounded by the ' \
                   'size of the buffer they are given']

    def gen(self, rng, i, tier):
        kind = rng.choice(['generic'] * 4 + R.TYPES)
        n = rng.choice([1, 1, 2, 3])
        if kind == 'generic':
            specs = [R.gen_record(rng, small=rng.random() < .8)
                     for _ in range(n)]
        else:
            specs = [R.gen_sd_record(rng, kind) for _ in range(n)]
        if rng.random() < .02:
            specs = specs[:2] * rng.choice([6, 17, 35])
            n = len(specs)
        sc = {'kind': kind, 'specs': specs,
              'how': rng.choice(['generic', 'generic', 'typed']),
              'src': rng.choice(['bytes', 'bytes', 'bytearray', 'file']),
              'sector': rng.random() < .1,
              'noise': None, 'eio': None,
              'variants': [[gen_op(rng) for _ in range(
                  rng.choice([1, 1, 1, 2, 3]))] for _ in range(24)]}
        if rng.random() < .15:
            # one field under the name of another one of the record
            sc['name'] = [rng.randrange(n), rng.getrandbits(16),
                          rng.getrandbits(16)]
            sc['variants'] = [[]] + sc['variants'][:12]
        if rng.random() < .06:
            sc['noise'] = [rng.getrandbits(32), rng.choice(
                [1, 3, 15, 16, 17, 40, 400])]
        if rng.random() < .1:
            sc['src'] = 'file'
            sc['eio'] = rng.randint(0, 4)
        return sc

    def nontrivial(self, sc):
        """at least one damaged variant is read"""
        return bool(sc['variants'])

    def run(self, sc, ctx):
        specs = sc['specs']
        R.require_valid(specs)
        layout = []
        if sc.get('name'):
            m, x, y = sc['name']
            spec = list(specs[m % len(specs)])
            x, y = x % len(spec), y % len(spec)
            spec[x] = dict(spec[x], n=spec[y]['n'])
            specs = list(specs)
            specs[m % len(specs)] = spec
            ctx.count('fault damage name')
        data = R.encode(specs, layout)
        if sc['noise']:
            r = random.Random(sc['noise'][0])
            data = bytes(r.getrandbits(8) for _ in range(sc['noise'][1]))
        how = sc['kind'] if sc['how'] == 'typed' else 'generic'
        if sc['how'] == 'typed' and sc['kind'] == 'generic':
            how = 'fitacf'
        st = ctx.storage
        for ops in sc['variants']:
            try:
                c = data
                for op in ops:
                    if sc['sector'] and op[0] in ('zero', 'cut', 'repeat',
                                                  'swap'):
                        op = list(op)
                        op[1] = op[1] // 512 * 512
                        op[-1] = 512
                    c = apply(c, layout, op)
            except (IndexError, TypeError, KeyError, ZeroDivisionError):
                raise Invalid('damage')
            for op in ops:
                ctx.count('fault damage ' + op[0])
            v = self.one(sc, ctx, st, c, how, ops)
            if v:
                return v
        return None

    def named(self, c, m, first, how):
        """The record an error names is the one that is refused."""
        if m == first:
            return None
        if m > first:
            return 'the error names record %d, not %d' % (m, first)
        p = 0
        for _ in range(m):
            p += int.from_bytes(c[p + 4:p + 8], 'little')
        n = int.from_bytes(c[p + 4:p + 8], 'little')
        if C.attempt(C.read_all, how, c[p:p + n], True)[0] == 'ok':
            return 'the error names record %d, which is read alone' % m
        return None

    def one(self, sc, ctx, st, c, how, ops):
        if not c:
            return None
        budget = 200 * len(c) + 20000
        inj = seam.Injector(budget=budget)
        spec = {}
        stream = sc['src'] != 'file'
        src = c
        if sc['src'] == 'bytearray':
            src = bytearray(c)
        elif sc['src'] == 'file':
            src = st.path('f')
            with open(src, 'wb') as f:
                f.write(c)
            if sc['eio'] is not None:
                spec = {'plan': [[sc['eio'], 'EIO', True, 0]]}
        with st.armed(spec) as log:
            try:
                with inj.on():
                    out = C.attempt(C.read_all, how, src, stream)
            except seam.Killed:
                return 'reading does not end within %d steps for %d bytes' \
                    % (budget, len(c))
            except RecursionError:
                out = 'exc', RecursionError('x')
        ctx.steps += inj.n
        if any(o.fault == 'EIO' for o in log):
            if out[0] == 'ok' and any(
                    o.fault == 'EIO' and o.kind in ('OPEN', 'READ')
                    for o in log):
                return 'a read error is not reported'
            return None
        rd = C.reader(how, c, True)
        try:
            with inj.on():
                chk = C.attempt(rd.test_initial_data_integrity)
        except seam.Killed:
            return 'the integrity check does not end within %d steps for ' \
                '%d bytes' % (budget, len(c))
        if (chk[0] == 'ok') != R.chained(c):
            return 'the integrity check %s data whose block lengths %s' % (
                ('accepts', 'do not fit') if chk[0] == 'ok' else
                ('refuses', 'fit'))
        if sc['src'] == 'bytearray' and bytes(src) != c:
            return 'the stream was modified'
        try:
            exp = R.decode(c)
        except R.Bad as e:
            exp = None
            why = str(e)
            first = e.rec
        else:
            first = len(exp)
        if out[0] == 'exc' and 'SuperDARN' not in type(out[1]).__name__:
            m = RECORD.findall(str(out[1]))
            if m:
                v = self.named(c, int(m[-1]), first, how)
                if v:
                    return '%s: %s' % (v, C.exc_text(out[1]))
        ctx.state(how, sc['src'], tuple(o[0] for o in ops),
                  type(out[1]).__name__ if out[0] == 'exc' else 'ok',
                  exp is not None)
        if out[0] == 'exc':
            if isinstance(out[1], (MemoryError, RecursionError)):
                return 'damaged data exhausts memory or stack: ' + \
                    C.exc_text(out[1])
            ctx.count('refused')
            return None
        if exp is None:
            return 'data that encodes no records is accepted: %s' % why
        rd, got = out[1]
        d = R.diff_read(exp, got)
        if d:
            return 'damaged data is decoded wrong: ' + d
        d = R.diff_structs(exp, rd.get_dmap_records)
        if d:
            return 'damaged data is decoded wrong (structures): ' + d
        ctx.count('decoded as stored')
        return None


CHECK = C05()
