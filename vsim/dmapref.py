"""Reference model of the DMAP format, written from its description and
independent of the library: record specifications, encoding, decoding and the
SuperDARN conformance rules."""
import random
import struct
from collections import OrderedDict

import numpy as np

from .sdtab import FIELDS

CODE = {'c': 1, 'h': 2, 'i': 3, 'f': 4, 'd': 8, 's': 9, 'q': 10, 'B': 16,
        'H': 17, 'I': 18, 'Q': 19}
LETTER = {v: k for k, v in CODE.items()}
SIZE = {'c': 1, 'h': 2, 'i': 4, 'f': 4, 'd': 8, 'q': 8, 'B': 1, 'H': 2,
        'I': 4, 'Q': 8}
DT = {'c': np.int8, 'h': np.int16, 'i': np.int32, 'f': np.float32,
      'd': np.float64, 'q': np.int64, 'B': np.uint8, 'H': np.uint16,
      'I': np.uint32, 'Q': np.uint64}
# Python class of a scalar in the dictionaries the readers return
SCAL = dict(DT, i=int, f=float, s=str)
PACK = {k: ('b' if k == 'c' else k) for k in SIZE}
INTS = 'chiqBHIQ'
ARRT = 'chifdqBHIQ'


class Bad(Exception):
    """The bytes do not encode DMAP records."""
    rec = None      # records before the one that is not


# --------------------------------------------------------------------------
# field specifications (JSON):
#   {'n': name, 't': letter, 'v': value}                      scalar
#   {'n': name, 't': letter, 'sh': [..], 's': seed, 'm': mem} array
# a float value is stored as a string accepted by float()

def val(f):
    v = f['v']
    if f['t'] in 'fd':
        return float(v)
    return v


def arr(f):
    """The values of an array field, native and C contiguous."""
    t, sh = f['t'], tuple(f['sh'])
    n = 1
    for x in sh:
        n *= x
    r = np.random.RandomState(f['s'] % (2 ** 32))
    mode = f['s'] % 4
    if t in INTS:
        ii = np.iinfo(DT[t])
        if mode == 0:
            a = np.arange(n) % 100
        else:
            a = r.randint(0, 256, n * SIZE[t]).astype(np.uint8)
            a = np.frombuffer(a.tobytes(), dtype=DT[t])
        a = np.array(a, dtype=DT[t])
        if mode == 2 and n:
            a[r.randint(n)] = ii.min
            a[r.randint(n)] = ii.max
    else:
        a = (r.rand(n) * 2000 - 1000).astype(DT[t])
        if mode == 0:
            a = np.arange(n).astype(DT[t])
        if mode == 2 and n:
            for x in (np.nan, np.inf, -np.inf, -0.0):
                a[r.randint(n)] = x
    a = a.reshape(sh)
    return np.ascontiguousarray(a) if sh else a


def laid_out(f):
    """The array in the memory layout the field asks for."""
    a = arr(f)
    m = f.get('m', 'C')
    if m == 'F':
        return np.asfortranarray(a)
    if m == 'S':                                # strided view
        big = np.zeros(tuple(2 * x for x in a.shape), a.dtype)
        v = big[tuple(slice(None, None, 2) for _ in a.shape)]
        v[...] = a
        return v
    if m == 'N':                                # negative strides
        rev = tuple(slice(None, None, -1) for _ in a.shape)
        return np.ascontiguousarray(a[rev])[rev]
    if m == 'E':                                # other byte order
        return a.astype(a.dtype.newbyteorder('>'))
    if m == 'R':                                # read only
        a = a.copy()
        a.flags.writeable = False
        return a
    if m == 'L':
        return a.tolist()
    return a


def pyscalar(f):
    """Value of a scalar field as a user puts it in a dictionary."""
    v = val(f)
    t = f['t']
    m = f.get('m')
    if t == 's':
        return v
    if t == 'i':
        return np.int32(v) if m == 'n' else int(v)
    if t == 'f':
        with np.errstate(all='ignore'):
            return np.float32(v) if m == 'n' else float(v)
    return DT[t](v)


def expected_scalar(t, v):
    """What a reader returns for a scalar stored with value v."""
    if t == 'f':
        with np.errstate(all='ignore'):
            return float(np.float32(v))
    return SCAL[t](v)


def is_array(f):
    return 'sh' in f


def build_dict(spec):
    d = OrderedDict()
    for f in spec:
        d[f['n']] = laid_out(f) if is_array(f) else pyscalar(f)
    return d


def list_ok(f):
    """A plain list becomes an array of numpy's default type."""
    return f['t'] in 'qd' and f['sh'] and 0 not in f['sh']


def build_struct(spec):
    from pydarnio import DmapArray, DmapScalar
    d = OrderedDict()
    for f in spec:
        t = f['t']
        if is_array(f):
            a = laid_out(f)
            d[f['n']] = DmapArray(f['n'], np.asarray(a), CODE[t], t,
                                  len(f['sh']), list(f['sh']))
        else:
            d[f['n']] = DmapScalar(f['n'], pyscalar(f), CODE[t], t)
    return d


def expected(spec):
    """Record as the readers must return it: name -> ('s'|'a', letter,
    value)."""
    out = {}
    for f in spec:
        if is_array(f):
            out[f['n']] = ('a', f['t'], arr(f))
        else:
            out[f['n']] = ('s', f['t'], expected_scalar(f['t'], val(f)))
    return out


# --------------------------------------------------------------------------
# encoding

def enc_str(s):
    return s.encode('utf-8') + b'\0'


def encode_record(spec, layout=None, base=0):
    """Bytes of a record.  layout, if a list, receives (offset, size, what)
    of the interesting numbers."""
    sc = [f for f in spec if not is_array(f)]
    ar = [f for f in spec if is_array(f)]
    out = bytearray(16)
    lay = []
    for f in sc:
        lay.append((len(out), 0, 'name'))
        out += enc_str(f['n'])
        lay.append((len(out), 1, 'type'))
        out.append(CODE[f['t']])
        lay.append((len(out), SIZE.get(f['t'], 0), 'value ' + f['t']))
        v = val(f)
        if f['t'] == 's':
            out += enc_str(v)
        elif f['t'] == 'f':
            with np.errstate(all='ignore'):
                out += np.float32(v).tobytes()
        else:
            out += struct.pack('<' + PACK[f['t']], v)
    for f in ar:
        lay.append((len(out), 0, 'name'))
        out += enc_str(f['n'])
        lay.append((len(out), 1, 'type'))
        out.append(CODE[f['t']])
        lay.append((len(out), 4, 'ndim'))
        out += struct.pack('<i', len(f['sh']))
        for x in reversed(f['sh']):
            lay.append((len(out), 4, 'dim'))
            out += struct.pack('<i', x)
        lay.append((len(out), 0, 'data'))
        out += arr(f).tobytes()
    out[0:16] = struct.pack('<4i', 65537, len(out), len(sc), len(ar))
    if layout is not None:
        layout.append((base, 4, 'code'))
        layout.append((base + 4, 4, 'size'))
        layout.append((base + 8, 4, 'nscalars'))
        layout.append((base + 12, 4, 'narrays'))
        layout.extend((base + o, s, w) for o, s, w in lay)
    return bytes(out)


def encode(specs, layout=None):
    out = b''
    for s in specs:
        out += encode_record(s, layout, len(out))
    return out


def boundaries(specs):
    n = 0
    out = [0]
    for s in specs:
        n += len(encode_record(s))
        out.append(n)
    return out


# --------------------------------------------------------------------------
# decoding: as permissive as the format allows

def decode(data):
    """List of records (see expected()); Bad if the bytes are not a whole
    number of records."""
    out = []
    try:
        return _decode(data, out)
    except Bad as e:
        e.rec = len(out)
        raise


def _decode(data, out):
    data = bytes(data)
    pos = 0
    end = len(data)

    def num(fmt, p):
        n = struct.calcsize(fmt)
        if p + n > end:
            raise Bad('short')
        return struct.unpack_from('<' + fmt, data, p)[0], p + n

    def string(p):
        e = data.find(b'\0', p)
        if e < 0:
            raise Bad('unterminated')
        try:
            return data[p:e].decode('utf-8'), e + 1
        except UnicodeDecodeError:
            raise Bad('not text')
    while pos < end:
        start = pos
        _, p = num('i', pos)
        size, p = num('i', p)
        ns, p = num('i', p)
        na, p = num('i', p)
        if size < 16 or ns < 0 or na < 0 or start + size > end:
            raise Bad('header')
        if ns + na > size:
            raise Bad('counts')
        stop = start + size
        rec = OrderedDict()
        for k in range(ns + na):
            name, p = string(p)
            if name in rec:
                raise Bad('name twice')
            code, p = num('B', p)
            if code not in LETTER:
                raise Bad('type')
            t = LETTER[code]
            if k < ns:
                if t == 's':
                    v, p = string(p)
                else:
                    v, p = num(PACK[t], p)
                rec[name] = ('s', t, expected_scalar(t, v))
            else:
                if t == 's':
                    raise Bad('string array')
                nd, p = num('i', p)
                if nd < 0 or nd > size:
                    raise Bad('dims')
                dims = []
                n = 1
                for _ in range(nd):
                    x, p = num('i', p)
                    if x < 0:
                        raise Bad('negative dimension')
                    dims.append(x)
                    n *= x
                dims.reverse()
                if p + n * SIZE[t] > stop:
                    raise Bad('array data')
                a = np.frombuffer(data, dtype=np.dtype(DT[t])
                                  .newbyteorder('<'), count=n, offset=p)
                p += n * SIZE[t]
                try:
                    a = a.astype(DT[t]).reshape(dims)
                except ValueError:
                    raise Bad('shape')
                rec[name] = ('a', t, a)
            if p > stop:
                raise Bad('field past the end of the record')
        if p != stop:
            raise Bad('record size')
        out.append(rec)
        pos = stop
    return out


# --------------------------------------------------------------------------
# comparison

def same_bits(a, b):
    return a.tobytes() == b.tobytes()


def diff_read(exp, got):
    """Compares expected records with the dictionaries a reader returned."""
    if got is None:
        return 'nothing returned'
    got = list(got)
    if len(exp) != len(got):
        return '%d records instead of %d' % (len(got), len(exp))
    for i, (e, g) in enumerate(zip(exp, got)):
        if set(e) != set(g):
            return 'record %d: fields %s missing, %s extra' % (
                i, sorted(set(e) - set(g))[:4], sorted(set(g) - set(e))[:4])
        for n, (k, t, v) in e.items():
            d = diff_field(k, t, v, g[n])
            if d:
                return 'record %d field %r: %s' % (i, n, d)
    return None


def diff_field(k, t, v, x):
    if k == 'a':
        if not isinstance(x, np.ndarray):
            return 'array expected, %s found' % type(x).__name__
        if x.shape != v.shape:
            return 'shape %s instead of %s' % (x.shape, v.shape)
        if x.dtype.type != DT[t] or not x.dtype.isnative:
            return 'element type %s instead of %s' % (x.dtype, DT[t].__name__)
        if not same_bits(np.ascontiguousarray(x), v):
            return 'array values differ'
        return None
    if isinstance(x, np.ndarray):
        return 'scalar expected, array found'
    if type(x) is not SCAL[t]:
        return 'type %s instead of %s' % (type(x).__name__, SCAL[t].__name__)
    if t in 'fd':
        if struct.pack('<d', float(x)) != struct.pack('<d', float(v)) and \
                not (x != x and v != v):
            return 'value %r instead of %r' % (x, v)
    elif x != v:
        return 'value %r instead of %r' % (x, v)
    return None


def diff_decoded(exp, got):
    """Compares two lists in the form of expected()/decode()."""
    if len(exp) != len(got):
        return '%d records instead of %d' % (len(got), len(exp))
    for i, (e, g) in enumerate(zip(exp, got)):
        if set(e) != set(g):
            return 'record %d: fields %s missing, %s extra' % (
                i, sorted(set(e) - set(g))[:4], sorted(set(g) - set(e))[:4])
        for n, (k, t, v) in e.items():
            gk, gt, gv = g[n]
            if (gk, gt) != (k, t):
                return 'record %d field %r: stored as %s%s' % (i, n, gk, gt)
            d = diff_field(k, t, v, gv)
            if d:
                return 'record %d field %r: %s' % (i, n, d)
    return None


def check_bytes(specs, data):
    """None if data is exactly the encoding of specs, else what differs."""
    try:
        got = decode(data)
    except Bad as e:
        return 'stored bytes are not DMAP: %s' % e
    p = 0
    while p < len(data):
        if bytes(data[p:p + 4]) != b'\1\0\1\0':
            return 'a record does not start with the DMAP code'
        p += int.from_bytes(data[p + 4:p + 8], 'little')
    return diff_decoded([expected(s) for s in specs], got)


def diff_structs(exp, recs):
    """Compares with the DmapScalar/DmapArray records of a reader."""
    recs = list(recs)
    if len(recs) != len(exp):
        return '%d structured records instead of %d' % (len(recs), len(exp))
    for i, (e, g) in enumerate(zip(exp, recs)):
        if set(e) != set(g):
            return 'structured record %d: other fields' % i
        for n, (k, t, v) in e.items():
            x = g[n]
            if x.name != n or x.data_type != CODE[t] or \
                    x.data_type_fmt != t:
                return 'structured record %d field %r: type %r %r' % (
                    i, n, x.data_type, x.data_type_fmt)
            if k == 'a':
                if x.dimension != v.ndim or list(x.shape) != list(v.shape):
                    return 'structured record %d field %r: dimension %r ' \
                           'shape %r' % (i, n, x.dimension, x.shape)
                d = diff_field(k, t, v, x.value)
            else:
                d = diff_field(k, t, v, SCAL[t](x.value))
            if d:
                return 'structured record %d field %r: %s' % (i, n, d)
    return None


def fingerprint(obj):
    """Deep, exact description of what a caller passed in."""
    if isinstance(obj, np.ndarray):
        return ('nd', obj.dtype.str, obj.shape, obj.strides, obj.tobytes(),
                bool(obj.flags.writeable))
    if isinstance(obj, dict):
        return ('map', type(obj).__name__,
                tuple((k, fingerprint(v)) for k, v in obj.items()))
    if isinstance(obj, (list, tuple)) and not hasattr(obj, '_fields'):
        return ('seq', type(obj).__name__, tuple(map(fingerprint, obj)))
    if isinstance(obj, (bytes, bytearray)):
        return ('bytes', bytes(obj))
    if hasattr(obj, 'data_type_fmt'):
        return (type(obj).__name__, obj.name, obj.data_type,
                obj.data_type_fmt, fingerprint(obj.value),
                getattr(obj, 'dimension', None),
                fingerprint(getattr(obj, 'shape', None)))
    if isinstance(obj, (float, np.floating)):
        return (type(obj).__name__, struct.pack('<d', float(obj)))
    return (type(obj).__name__, repr(obj))


# --------------------------------------------------------------------------
# SuperDARN conformance

TYPES = list(FIELDS)
READ = {'iqdat': 'read_iqdat', 'rawacf': 'read_rawacf',
        'fitacf': 'read_fitacf', 'snd': 'read_snd', 'grid': 'read_grid',
        'map': 'read_map'}
WRITE = {k: v.replace('read', 'write') for k, v in READ.items()}


def groups(ft):
    """(required-together groups, freely optional fields)"""
    g = [v for k, v in FIELDS[ft].items() if k != 'optional_fields' and v]
    return g, FIELDS[ft].get('optional_fields', {})


def all_fields(ft):
    out = {}
    g, o = groups(ft)
    for x in g + [o]:
        out.update(x)
    return out


def faults_of(ft, rec):
    """rec: name -> letter.  Returns (missing, extra, mistyped) sets."""
    g, o = groups(ft)
    every = all_fields(ft)
    missing = set()
    for x in g:
        have = set(x) & set(rec)
        if have and have != set(x):
            missing |= set(x) - have
    extra = set(rec) - set(every)
    wrong = {n for n, t in rec.items() if n in every and every[n] != t}
    return missing, extra, wrong


# --------------------------------------------------------------------------
# generation

ALPHA = 'abcdefghijklmnopqrstuvwxyz'
FUNNY = ['é', 'ß', '日本', '∆', '🛰', 'Ω', '\n', '\t', ' ', '\x7f', '"']


def gen_name(rng, taken):
    while True:
        k = rng.random()
        if k < .6:
            n = ''.join(rng.choice(ALPHA) for _ in range(rng.randint(1, 8)))
        elif k < .8:
            n = ''.join(rng.choice(ALPHA) for _ in range(3)) + '.' + \
                ''.join(rng.choice(ALPHA) for _ in range(3))
        elif k < .9:
            n = rng.choice(FUNNY) + rng.choice(ALPHA)
        elif k < .93:
            n = 'slist'
        elif k < .96:
            n = rng.choice(ALPHA) * rng.randint(20, 300)
        else:
            n = rng.choice(['', ' ', 'slist ', 'Slist', '0', 'name'])
        if n not in taken:
            taken.add(n)
            return n


def gen_text(rng):
    k = rng.random()
    if k < .15:
        return ''
    n = rng.randint(1, 12) if k < .87 else rng.randint(13, 300) \
        if k < .94 else rng.randint(200, 5000) if k < .998 else \
        rng.choice([32767, 32768, 65535, 65536, 70001])
    out = ''
    while len(out) < n:
        out += rng.choice(FUNNY) if rng.random() < .25 else rng.choice(
            ALPHA + 'ABC0123 :/-_')
    return out


def gen_scalar_value(rng, t):
    if t == 's':
        return gen_text(rng)
    if t in 'fd':
        if rng.random() < .2:
            return rng.choice(['nan', 'inf', '-inf', '-0.0', '1e-45',
                               '3.4e38', '1e-40'])
        return repr(rng.uniform(-1e4, 1e4))
    ii = np.iinfo(DT[t])
    k = rng.random()
    if k < .35:
        return int(rng.choice([ii.min, ii.max, 0, ii.max // 2 + 1,
                               min(127, ii.max), min(128, ii.max),
                               max(-1, ii.min)]))
    if k < .6:
        return rng.randint(int(max(ii.min, -100)), int(min(ii.max, 100)))
    return rng.randint(int(ii.min), int(ii.max))


MEM = 'CCCFSNER'


def gen_shape(rng, big=False):
    nd = rng.choice([1, 1, 1, 1, 1, 1, 2, 2, 2, 2, 3, 3, 4, 4, 5, 7])
    while True:
        sh = [rng.choice([1, 2, 3, 4, 5, 7]) for _ in range(nd)]
        if big and rng.random() < .5:
            sh[rng.randrange(nd)] *= rng.randint(10, 700)
        n = 1
        for x in sh:
            n *= x
        if n <= 20000:
            return sh


def pad(rng, spec, n):
    """More fields for a record, in any place."""
    taken = {f['n'] for f in spec}
    for _ in range(n):
        f = gen_field(rng, gen_name(rng, taken), rng.random() < .3)
        if f['n'] == 'slist' and not is_array(f):
            continue
        if is_array(f):
            f['sh'] = f['sh'][:1]
        elif f['t'] == 's':
            f['v'] = f['v'][:5]
        spec.insert(rng.randrange(len(spec) + 1), f)


def gen_field(rng, name, array, big=False, t=None, mem=True):
    if array:
        t = t or rng.choice(ARRT)
        f = {'n': name, 't': t, 'sh': gen_shape(rng, big),
             's': rng.getrandbits(24), 'm': rng.choice(MEM) if mem else 'C'}
        if name == 'slist' and rng.random() < .3:
            f['sh'] = [0]
        elif t in 'qd' and mem and rng.random() < .3:
            f['m'] = 'L'
        return f
    t = t or rng.choice('chifdsqBHIQ')
    f = {'n': name, 't': t, 'v': gen_scalar_value(rng, t)}
    if rng.random() < .3:
        f['m'] = 'n'
    return f


def gen_record(rng, big=False, small=False):
    """A generic record: at least one scalar and one array."""
    taken = set()
    ns = rng.randint(1, 3 if small else 8)
    na = rng.randint(1, 2 if small else 6)
    fs = []
    for i in range(ns + na):
        n = gen_name(rng, taken)
        array = i >= ns
        if n == 'slist' and not array:
            taken.discard(n)
            n = gen_name(rng, taken | {'slist'})
        fs.append(gen_field(rng, n, array, big and rng.random() < .4))
    if small:
        for f in fs:
            if is_array(f):
                f['sh'] = [min(x, 3) for x in f['sh'][:2]]
            elif f['t'] == 's':
                f['v'] = f['v'][:6]
            f['n'] = f['n'][:12]
        names = [f['n'] for f in fs]
        if len(set(names)) != len(names):
            return gen_record(rng, big, small)
    if rng.random() < .5:
        rng.shuffle(fs)
    return fs


ARRAYS = {'ptab', 'ltab', 'pwr0', 'slist', 'acfd', 'xcfd', 'nlag', 'qflg',
          'gflg', 'p_l', 'p_l_e', 'v', 'v_e', 'w_l', 'tsc', 'tus', 'data',
          'stid', 'channel', 'nvec', 'vector.mlat', 'vector.mlon', 'N', 'N+1',
          'model.mlat', 'boundary.mlat'}


def gen_sd_record(rng, ft, big=False, subset=True):
    """A conforming record of a SuperDARN file type."""
    g, o = groups(ft)
    use = OrderedDict()
    # the first group is the one every file has
    for k, x in enumerate(g):
        if k == 0 or not subset or rng.random() < .6:
            use.update(x)
    for n, t in o.items():
        if rng.random() < .6:
            use[n] = t
    fs = []
    narr = 0
    for n, t in use.items():
        array = t != 's' and (n in ARRAYS or rng.random() < .05)
        narr += array
        if array:
            f = {'n': n, 't': t, 'sh': [rng.randint(1, 6)],
                 's': rng.getrandbits(24), 'm': rng.choice(MEM)}
            if n in ('acfd', 'xcfd'):
                f['sh'] = [rng.randint(1, 5), rng.randint(1, 4), 2]
            if n == 'slist' and rng.random() < .2:
                f['sh'] = [0]
            if big and rng.random() < .3:
                f['sh'] = [x * 17 for x in f['sh']]
        else:
            f = {'n': n, 't': t, 'v': gen_scalar_value(rng, t)}
            if t == 's':
                f['v'] = f['v'][:40]
            if rng.random() < .3:
                f['m'] = 'n'
        fs.append(f)
    if not narr:
        cand = [k for k, f in enumerate(fs) if f['t'] != 's']
        k = rng.choice(cand)
        fs[k] = {'n': fs[k]['n'], 't': fs[k]['t'], 'sh': [3],
                 's': rng.getrandbits(24), 'm': 'C'}
    if rng.random() < .4:
        rng.shuffle(fs)
    return fs


def valid_spec(spec):
    """Inside the domain of the round trip property."""
    names = [f['n'] for f in spec]
    if len(set(names)) != len(names):
        return False
    if not any(is_array(f) for f in spec) or \
            all(is_array(f) for f in spec):
        return False
    for f in spec:
        if '\0' in f['n']:
            return False
        if is_array(f):
            if not f['sh'] or f['t'] == 's':
                return False
            if any(x <= 0 for x in f['sh']) and f['n'] != 'slist':
                return False
            if any(x < 0 for x in f['sh']):
                return False
        elif f['t'] == 's':
            if '\0' in f['v']:
                return False
        elif f['t'] in INTS:
            ii = np.iinfo(DT[f['t']])
            if not ii.min <= f['v'] <= ii.max:
                return False
        else:
            float(f['v'])
    return True


def require_valid(specs):
    from .runner import Invalid
    try:
        ok = bool(specs) and all(valid_spec(s) for s in specs)
    except Exception:
        ok = False
    if not ok:
        raise Invalid('not a well-formed record list')


def chained(c):
    """The block lengths in the headers lead exactly to the end."""
    p = 0
    while p < len(c):
        if p + 8 > len(c):
            return False
        n = int.from_bytes(c[p + 4:p + 8], 'little', signed=True)
        if n <= 0 or p + n > len(c):
            return False
        p += n
    return True


def encode_decoded(exp):
    """Bytes of records in the form of expected()/decode()."""
    out = b''
    for r in exp:
        b = bytearray(16)
        ns = 0
        for n, (k, t, v) in r.items():
            if k != 's':
                continue
            ns += 1
            b += enc_str(n) + bytes([CODE[t]])
            if t == 's':
                b += enc_str(v)
            elif t == 'f':
                b += np.float32(v).tobytes()
            else:
                b += struct.pack('<' + PACK[t], v)
        for n, (k, t, v) in r.items():
            if k != 'a':
                continue
            b += enc_str(n) + bytes([CODE[t]])
            b += struct.pack('<i', v.ndim)
            for x in reversed(v.shape):
                b += struct.pack('<i', x)
            b += np.ascontiguousarray(v).tobytes()
        b[0:16] = struct.pack('<4i', 65537, len(b), ns, len(r) - ns)
        out += bytes(b)
    return out


def dicts_of(exp):
    """Records for a writer that are in the form of expected()/decode()."""
    return [{n: v.copy() if k == 'a' else SCAL[t](v)
             for n, (k, t, v) in r.items()} for r in exp]
