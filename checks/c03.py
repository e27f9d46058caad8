import datetime
import os

import numpy as np

from vsim import dmapref as R
from vsim.runner import Check, Invalid
from . import common as C
from .c02 import HOLD

# values of a type the format does not have
BAD = {
    'bool': lambda: True, 'np.bool': lambda: np.bool_(True),
    'complex': lambda: 1j, 'np.complex': lambda: np.complex64(1),
    'none': lambda: None, 'bytes': lambda: b'ab', 'dict': lambda: {'a': 1},
    'half': lambda: np.float16(1), 'object': lambda: object(),
    'date': lambda: datetime.datetime(2020, 1, 1),
    'np.date': lambda: np.datetime64('2020-01-01'),
    'bool array': lambda: np.array([True, False]),
    'complex array': lambda: np.array([1j, 2]),
    'text array': lambda: np.array(['a', 'b']),
    'bytes array': lambda: np.array([b'a', b'b']),
    'object array': lambda: np.array([None, 1]),
    'half array': lambda: np.array([1, 2], dtype=np.float16),
    'date array': lambda: np.array(['2020-01-01'], dtype='M8[s]'),
    'record array': lambda: np.zeros(2, dtype=[('a', 'i4')]),
    'list of text': lambda: ['a', 'b'], 'list of none': lambda: [None],
    'list of bool': lambda: [True, False],
    'ragged list': lambda: [[1, 2], [3]],
    # integers out of range and text the format cannot hold
    'int high': lambda: 2 ** 31, 'int low': lambda: -2 ** 31 - 1,
    'int huge': lambda: 2 ** 70, 'list huge': lambda: [2 ** 70],
    'nul': lambda: 'a\0b', 'nul only': lambda: '\0',
    'nul end': lambda: 'abc\0', 'surrogate': lambda: '\ud800',
    # arrays that cannot be read back
    '0-d array': lambda: np.array(5), 'empty array': lambda: np.zeros(0),
    'empty row': lambda: np.zeros((1, 0), dtype=np.int16),
    'empty list': lambda: [],
}
# records that cannot be read back
RBAD = ['only scalars', 'only arrays', 'nothing']
# in records that are given as structures
SBAD = ['raw value', 'raw text', 'raw array', 'raw list', 'char text',
        'char text array', 'short text', 'float text', 'text array',
        'short none', 'list in array', 'record of values']
# structures that contradict themselves
CBAD = ['other name', 'other code', 'other format', 'other values',
        'other shape', 'other count', 'other dimension']


def contradict(what, d, k):
    """a copy of the structure d with one property changed"""
    from pydarnio import DmapScalar
    scalar = isinstance(d, DmapScalar)
    if what == 'other name':
        return d._replace(name=d.name + '.x' if k % 2 else 'x')
    if what == 'other code':
        cs = sorted(c for c in R.CODE.values() if c != d.data_type)
        return d._replace(data_type=(cs + [0, 5, 200, -1])[
            k % (len(cs) + 4)])
    if what == 'other format':
        ts = sorted(t for t in R.CODE if t != d.data_type_fmt and
                    (t != 's' or not scalar or isinstance(d.value, str)))
        return d._replace(data_type_fmt=ts[k % len(ts)])
    if scalar:
        raise Invalid('no array')
    if what == 'other values':
        ts = [t for t in sorted(R.DT) if
              np.dtype(R.DT[t]) != d.value.dtype.newbyteorder('=')]
        return d._replace(value=d.value.astype(R.DT[ts[k % len(ts)]]))
    if what == 'other shape':
        sh = list(d.shape)
        sh[k % len(sh)] += 1 + k // 16 % 3
        return d._replace(shape=sh)
    if what == 'other count':
        v = np.concatenate([d.value.flatten()] * 2)
        return d._replace(value=v)
    return d._replace(dimension=d.dimension + (1 if k % 2 else -1))


def struct_bad(what, n):
    from pydarnio import DmapArray, DmapScalar
    if what == 'short none':
        return DmapScalar(n, None, 2, 'h')
    if what.startswith('raw'):
        return {'value': 5, 'text': 'ab', 'array': np.arange(3),
                'list': [1, 2]}[what[4:]]
    if what.endswith('array'):
        if what == 'list in array':
            return DmapArray(n, [1, 2], 3, 'i', 1, [2])
        c = what.startswith('char')
        return DmapArray(n, np.array(['a', 'b']), 1 if c else 9,
                         'c' if c else 's', 1, [2])
    t = {'char text': 'c', 'short text': 'h', 'float text': 'f'}[what]
    return DmapScalar(n, 'a', R.CODE[t], t)


FOR_OP = {'OPEN': ['EACCES', 'EMFILE', 'ENOSPC', 'EIO'],
          'WRITE': ['EIO', 'ENOSPC', 'EDQUOT'], 'CLOSE': ['CLOSE_EIO'],
          'SYNC': ['EIO', 'ENOSPC'], 'TRUNC': ['EIO', 'ENOSPC'],
          'RENAME': ['EIO', 'ENOSPC', 'EACCES'], 'READ': ['EIO'],
          'UNLINK': ['EIO']}


class C03(Check):
    id = 'C03'
    quick = (7000, 60)
    thorough = (300000, 700)
    state_rule = 'kinds of writer, write and file already there, with the ' \
        'storage call and error, or the kind and place of the refused field'
    real = C.REAL_DMAP
    stub = C.STUB_IO
    technique = 'seeded writes with one storage error at each possible ' \
        'storage call or with one refused field at each record'
    note = 'Sampled error places and refused fields; storage calls are ' \
        'counted on a run without faults first.'
    assumptions = ['errors are reported by the failing call itself']

    def gen(self, rng, i, tier):
        kind = rng.choice(['generic'] * 3 + R.TYPES)
        mode = rng.choice(['storage', 'value', 'fields', 'fields'])
        if mode == 'fields' and kind == 'generic':
            kind = rng.choice(R.TYPES)
        big = rng.random() < .5
        n = rng.choice([1, 2, 3, 4])
        if kind == 'generic':
            specs = [R.gen_record(rng, big and mode == 'storage',
                                  small=rng.random() < .5) for _ in range(n)]
        else:
            specs = [R.gen_sd_record(rng, kind, big and mode == 'storage')
                     for _ in range(n)]
        if mode != 'storage' and rng.random() < .04:
            n = rng.choice([10, 17, 33, 70, 140, 300])
            specs = (specs * n)[:n]
        sc = {'kind': kind, 'mode': mode, 'specs': specs,
              'form': rng.choice(['dict', 'dict', 'struct']),
              'via': rng.choice(['file', 'typed', 'typed']),
              'explicit': rng.random() < .6,
              'old': rng.choice([0, 30, 5000, 100000]),
              'io': C.gen_rand_io(rng) if rng.random() < .6 else None}
        if mode == 'storage':
            sc['hit'] = rng.getrandbits(16)
            sc['fault'] = rng.getrandbits(8)
            sc['sticky'] = rng.random() < .4
            sc['quota'] = rng.random() if rng.random() < .25 else None
        elif mode == 'value':
            sc['rec'] = rng.randrange(n)
            sc['field'] = rng.getrandbits(8)
            sc['bad'] = rng.choice(sorted(BAD) + ['range'] * 4 + SBAD +
                                   RBAD + CBAD + ['no records'])
            sc['new'] = rng.random() < .5
            sc['hold'] = rng.choice(sorted(HOLD))
            sc['t'] = rng.choice('chiqBHIQ')
            sc['off'] = [rng.choice([-1, 1]), rng.choice([1, 1, 2, 1000])]
        else:
            k = rng.choice([1, 1, 1, 2])
            sc['muts'] = [[rng.randrange(n),
                           rng.choice(['drop', 'add', 'type']),
                           rng.getrandbits(16), rng.randint(1, 3)]
                          for _ in range(k)]
        return sc

    def nontrivial(self, sc):
        """a storage error, refused value or refused field is included"""
        return True

    # ------------------------------------------------------------------
    def run(self, sc, ctx):
        C.require_conforming(sc['kind'], sc['specs'])
        if any(f.get('m') == 'L' and not R.list_ok(f)
               for s in sc['specs'] for f in s):
            raise Invalid('list')
        st = ctx.storage
        path = st.path('out')
        if sc['old']:
            with open(path, 'wb') as f:
                f.write(bytes(range(1, 251)) * (sc['old'] // 250 + 1))
        with open(st.path('other'), 'wb') as f:
            f.write(b'bystander')
        return getattr(self, sc['mode'])(sc, ctx, path)

    def maker(self, sc, recs):
        import pydarnio
        if sc['kind'] == 'generic' and sc['via'] == 'file':
            return lambda *a: pydarnio.DmapWrite(recs, *a)
        return lambda *a: pydarnio.SDarnWrite(recs, *a)

    def write(self, sc, recs, path):
        mk = self.maker(sc, recs)
        name = R.WRITE[sc['kind']] if sc['via'] == 'typed' and \
            sc['kind'] != 'generic' else 'write_dmap'
        if sc['explicit']:
            getattr(mk(), name)(path)
        else:
            getattr(mk(path), name)()

    def storage(self, sc, ctx, path):
        st = ctx.storage
        specs = sc['specs']
        recs = C.build(specs, sc['form'])
        clean = st.path('clean')
        with st.armed({'rand': sc['io']} if sc['io'] else {}) as ops:
            out = C.attempt(self.write, sc, recs, clean)
        if out[0] == 'exc':
            return 'fails without a fault: ' + C.exc_text(out[1])
        with open(clean, 'rb') as f:
            want = f.read()
        os.unlink(clean)
        spec = {'rand': sc['io']} if sc['io'] else {}
        quota = None
        if sc['quota'] is not None:
            quota = spec['quota'] = int(sc['quota'] * len(want)) % \
                max(1, len(want))
            what = 'quota'
        else:
            cand = [o for o in ops if o.kind in FOR_OP and
                    o.fault in ('NONE', 'SHORT')]
            # not only the writes of big files
            rare = [o for o in cand if o.kind != 'WRITE']
            pool = rare if rare and sc['hit'] % 3 == 0 else cand
            op = pool[sc['hit'] // 3 % len(pool)]
            fs = FOR_OP[op.kind]
            fault = fs[sc['fault'] % len(fs)]
            spec['plan'] = [[op.i, fault, sc['sticky'], 0]]
            what = (op.kind, fault, sc['sticky'])
        recs = C.build(specs, sc['form'])
        with st.armed(spec) as ops2:
            out = C.attempt(self.write, sc, recs, path)
        ctx.state(sc['kind'], sc['via'], sc['form'], sc['old'] > 0, what,
                  len(ops), out[0])
        hit = [o for o in ops2 if o.fault not in ('NONE', 'EINTR', 'SHORT')]
        if quota is not None:
            hit = hit or [o for o in ops2 if o.err]
        if not hit:
            # the write went another way: nothing to judge but its content
            if out[0] == 'exc':
                return 'fails without a fault: ' + C.exc_text(out[1])
            ctx.count('planned error not reached')
        if out[0] == 'ok':
            try:
                with open(path, 'rb') as f:
                    got = f.read()
            except OSError:
                got = None
            closing = any(o.fault == 'CLOSE_EIO' and o.path == 'out'
                          for o in hit)
            if got != want or closing:
                return 'the write returned although %s of %s failed: ' \
                    '%s of %d bytes stored' % (
                        hit[0].kind if hit else '?',
                        hit[0].path if hit else '?',
                        None if got is None else len(got), len(want))
        if ctx.storage.snapshot().get('other') != b'bystander':
            return 'another file changed'
        return None

    def judge_refused(self, sc, ctx, path, build, what):
        """The write must raise and leave the directory alone."""
        st = ctx.storage
        snap = st.snapshot()
        with st.armed({}) as ops:
            out = C.attempt(lambda: self.write(sc, build(), path))
        touched = [o for o in ops if o.path == 'out' and o.kind in (
            'WRITE', 'TRUNC', 'UNLINK', 'RENAME') and o.err == 0]
        if out[0] == 'ok':
            return None, 'records with %s are stored without an error' % what
        if st.snapshot() != snap:
            return None, 'refused records (%s) changed the destination' % what
        if touched:
            return None, 'refused records (%s): the destination was ' \
                'touched' % what
        return out[1], None

    def value(self, sc, ctx, path):
        specs = sc['specs']
        r = sc['rec'] % len(specs)
        spec = specs[r]
        k = sc['field'] % len(spec)
        what = sc['bad']
        if what == 'range':
            ii = np.iinfo(R.DT[sc['t']])
            v = (int(ii.max) + sc['off'][1]) if sc['off'][0] > 0 else \
                (int(ii.min) - sc['off'][1])
            # an explicit scalar of the type
            def build():
                import pydarnio
                recs = C.build(specs, 'struct')
                n = 'new.field' if sc['new'] and sc['kind'] == 'generic' \
                    else spec[k]['n']
                t = sc['t']
                if sc['kind'] != 'generic':
                    if R.is_array(spec[k]) or spec[k]['t'] not in R.INTS:
                        raise Invalid('not an integer scalar')
                    t = spec[k]['t']
                    i2 = np.iinfo(R.DT[t])
                    val = (int(i2.max) + sc['off'][1]) if sc['off'][0] > 0 \
                        else (int(i2.min) - sc['off'][1])
                else:
                    val = v
                recs[r][n] = pydarnio.DmapScalar(n, val, R.CODE[t], t)
                return recs
            build()
        elif what == 'no records':
            sc = dict(sc, via='typed' if sc['kind'] != 'generic' else 'file')

            def build():
                return HOLD[sc.get('hold', 'list')]()
        elif what in RBAD:
            def build():
                recs = C.build(specs, sc['form'])
                for f in spec:
                    if what == 'nothing' or \
                            R.is_array(f) == (what == 'only scalars'):
                        del recs[r][f['n']]
                return recs
        elif what in CBAD:
            sc = dict(sc, form='struct')

            def build():
                recs = C.build(specs, 'struct')
                n = spec[k]['n']
                if what == 'other count' and not np.size(recs[r][n].value):
                    raise Invalid('no elements')
                recs[r][n] = contradict(what, recs[r][n], sc['field'])
                return recs
            build()
        elif what in SBAD:
            sc = dict(sc, form='struct')

            def build():
                recs = C.build(specs, 'struct')
                if what == 'record of values':
                    if r == 0:
                        raise Invalid('first record')
                    recs[r] = C.build(specs, 'dict')[r]
                    return recs
                n = 'new.field' if sc['new'] and sc['kind'] == 'generic' \
                    else spec[k]['n']
                recs[r][n] = struct_bad(what, n)
                return recs
            build()
        else:
            if what not in BAD:
                raise Invalid('value')
            if what.startswith('empty') and spec[k]['n'] == 'slist':
                raise Invalid('may be empty')
            sc = dict(sc, form='dict')

            def build():
                recs = C.build(specs, 'dict')
                if sc['new'] and sc['kind'] == 'generic':
                    recs[r]['new.field'] = BAD[what]()
                else:
                    recs[r][spec[k]['n']] = BAD[what]()
                return recs
        e, v = self.judge_refused(sc, ctx, path, build, what)
        ctx.state('value', sc['kind'], sc['via'], what, r, sc['old'] > 0,
                  type(e).__name__)
        ctx.count('values refused')
        return v

    def fields(self, sc, ctx, path):
        specs = [list(s) for s in sc['specs']]
        ft = sc['kind']
        if ft == 'generic':
            raise Invalid('type')
        every = R.all_fields(ft)
        groups, opt = R.groups(ft)
        for r, how, pick, cnt in sc['muts']:
            r %= len(specs)
            s = specs[r]
            if how == 'drop':
                have = {f['n'] for f in s}
                names = [n for g in groups if set(g) <= have and len(g) > 1
                         for n in g]
                for j in range(cnt):
                    if names:
                        n = names[(pick + j * 7) % len(names)]
                        s[:] = [f for f in s if f['n'] != n]
            elif how == 'add':
                other = [n for t in R.TYPES for n in R.all_fields(t)
                         if n not in every] + ['extra', 'zz.new', 'é', 'V']
                for j in range(cnt):
                    n = other[(pick + j * 13) % len(other)]
                    if n not in {f['n'] for f in s}:
                        s.insert(pick % (len(s) + 1),
                                 {'n': n, 't': 'i', 'v': 5})
            else:
                for j in range(cnt):
                    k = (pick + j * 11) % len(s)
                    f = dict(s[k])
                    cand = [t for t in 'chifdqBHIQ' if t != f['t']]
                    f['t'] = cand[pick // 7 % len(cand)]
                    if not R.is_array(f):
                        f['v'] = 1
                    f['m'] = 'C'
                    s[k] = f
        for s in specs:
            if not R.valid_spec(s):
                raise Invalid('spec')
        bad = None
        for r, s in enumerate(specs):
            m, e, w = R.faults_of(ft, {f['n']: f['t'] for f in s})
            if m or e or w:
                bad = r, m, e, w
                break
        if not bad:
            raise Invalid('nothing to refuse')
        r, m, e, w = bad
        err, v = self.judge_refused(
            dict(sc, via='typed'), ctx, path,
            lambda: C.build(specs, sc['form']), 'bad fields')
        if v:
            return v
        ctx.count('records refused')
        v = judge_field_error(err, r, m, e, w)
        ctx.state('fields', ft, sc['form'], r, type(err).__name__,
                  len(m), len(e), len(w), sc['old'] > 0)
        return v


def judge_field_error(err, r, m, e, w, order=False):
    """The error names the record and exactly the fields of one kind."""
    name = type(err).__name__
    want = {'SuperDARNFieldMissingError': m, 'SuperDARNExtraFieldError': e,
            'SuperDARNDataFormatTypeError': w}
    if name not in want or not want[name]:
        return 'refused with another error: %s' % C.exc_text(err)
    if order:
        first = [k for k in want if want[k]][0]
        if name != first:
            return 'wrong kind of fault named: %s' % C.exc_text(err)
    named = err.incorrect_params if name == 'SuperDARNDataFormatTypeError' \
        else err.fields
    if set(named) != want[name]:
        return 'names fields %s instead of %s' % (
            sorted(named)[:6], sorted(want[name])[:6])
    if err.record_number != r:
        return 'names record %r instead of %d' % (err.record_number, r)
    text = str(err)
    if str(r) not in text or any(n not in text for n in want[name]):
        return 'the message names neither record nor fields: %s' % text[:200]
    return None


CHECK = C03()
