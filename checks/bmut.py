"""Offending fields put into Borealis records or arrays."""
import numpy as np

from vsim import bor
from vsim.runner import Invalid

# values for fields that hold single elements / arrays.  The second set can
# be stored in a file.
E_MEM = {'int': lambda: 5, 'float': lambda: 5.0, 'none': lambda: None,
         'list': lambda: [1, 2], 'bytes': lambda: b'x', 'true': lambda: True,
         'dict': lambda: {}, 'listtext': lambda: ['a']}
E_ANY = {'i2': lambda: np.int16(3), 'f8': lambda: np.float64(2),
         'f4': lambda: np.float32(2), 'u4': lambda: np.uint32(2),
         'i8': lambda: np.int64(4), 'c8': lambda: np.complex64(1),
         'b1': lambda: np.bool_(1), 'u1': lambda: np.uint8(1),
         'text': lambda: 'txt', 'array': lambda: np.array([1, 2]),
         'arrayf': lambda: np.array([1.5, 2]),
         'u8': lambda: np.uint64(7)}
A_MEM = {'int': lambda: 5, 'none': lambda: None, 'list': lambda: [1, 2, 3],
         'tuple': lambda: (1.0,), 'dict': lambda: {}}
A_ANY = {'h': lambda: np.zeros(3, np.int16), 'e': lambda: np.zeros(2, 'f2'),
         'U': lambda: np.array(['a', 'b']), 'S': lambda: np.array([b'a']),
         'f8s': lambda: np.float64(3), 'text': lambda: 'txt',
         'f8': lambda: np.zeros(2), 'c16': lambda: np.zeros(2, complex),
         'i8': lambda: np.zeros(2, np.int64), 'u8': lambda: np.ones(1, 'u8'),
         'same': None}
SKIP = ('borealis_git_hash', 'pulse_phase_offset')


def spec(ver, ft, struct):
    """field -> (kind, letter) in this structure"""
    t = bor.table(ver, ft)
    if struct == 'site':
        return dict(t)
    out = {}
    un = set(bor.unshared(ver, ft))
    for k, (kind, dt) in t.items():
        if k == bor.dims_field(ver, ft):
            continue
        out[k] = ('a', dt) if k in un else (kind, dt)
    out['num_beams'] = ('a', 'u4')
    if bor.vnum(ver) >= 5:
        out['num_blanked_samples'] = ('a', 'u4')
    return out


def right(struct, kind, dt, v):
    if kind == 'e':
        return type(v) is (str if dt == 'str' else bor.NP[dt])
    if not isinstance(v, np.ndarray):
        return False
    if dt in ('U', 'S', 'str'):
        if struct == 'array':
            return v.dtype.kind == 'U' or (v.dtype.kind == dt == 'S')
        return v.dtype.kind == dt
    return v.dtype.type is bor.NP[dt]


def gen(rng, n=1):
    return [[rng.getrandbits(8), rng.choice(['drop', 'add', 'type', 'type']),
             rng.getrandbits(12), rng.getrandbits(8)] for _ in range(n)]


def apply(ver, ft, struct, data, muts, stored):
    """Changes data in place.  stored: the data goes to a file to be read.
    Returns name -> (missing, extra, wrong) (name '' in array structure)."""
    sp = spec(ver, ft, struct)
    out = {}
    names = sorted(data) if struct == 'site' else ['']
    for rec, kind, pick, val in muts:
        name = names[rec % len(names)]
        tgt = data[name] if struct == 'site' else data
        m, e, w = out.setdefault(name, (set(), set(), set()))
        fields = [f for f in sorted(sp) if f not in SKIP and f in tgt]
        if not fields:
            raise Invalid('no fields')
        f = fields[pick % len(fields)]
        if f in m or f in w:
            raise Invalid('same field')
        if kind == 'drop':
            del tgt[f]
            m.add(f)
        elif kind == 'add':
            f = ['extra', 'Data', 'pulses ', 'num_beams_', 'x.y'][pick % 5]
            tgt[f] = [np.int64(5), np.zeros(2, np.float32), 'text',
                      np.uint32(1)][val % 4]
            e.add(f)
        else:
            k, dt = sp[f]
            pool = dict(E_ANY if k == 'e' else A_ANY)
            if not stored:
                pool.update(E_MEM if k == 'e' else A_MEM)
            q = sorted(pool)[val % len(pool)]
            if q == 'same':
                if dt in ('U', 'S', 'str'):
                    raise Invalid('value')
                v = bor.NP[dt](1)
            else:
                v = pool[q]()
            if right(struct, k, dt, v):
                raise Invalid('right value')
            tgt[f] = v
            w.add(f)
    return {k: v for k, v in out.items() if any(v)}


def judge_site(err, want):
    """What is wrong with the error for offending fields, or None."""
    exp = ({}, {}, {})
    for name, parts in want.items():
        for x, p in zip(exp, parts):
            if p:
                x[name] = sorted(p)
                break
    try:
        got = tuple({k: sorted(v) for k, v in d.items()} for d in (
            err.missing_fields, err.extra_fields, err.incorrect_fields))
    except AttributeError:
        return 'names no fields: %s: %s' % (type(err).__name__,
                                            str(err)[:200])
    if got != exp:
        return 'names %s instead of %s' % (got, exp)
    return named(err, {f for x in exp for v in x.values() for f in v})


def named(err, fields):
    for f in fields:
        if f not in str(err):
            return 'field %r is not in its message' % f
    return None


def judge_array(err, ver, ft, data, want):
    m, e, w = want['']
    sp = spec(ver, ft, 'array')
    if m:
        exp = m
    elif e:
        exp = e
    else:
        exp = {f for f in w if sp[f][0] == 'e' and
               isinstance(data[f], np.ndarray)} or \
            {f for f in w if sp[f][0] == 'a' and
             not isinstance(data[f], np.ndarray)}
        if exp:
            every = set(sp)
            import re
            got = set(re.findall(r"'([\w.]+)'", str(err))) & every
            if type(err).__name__ != 'BorealisStructureError' or got != exp:
                return 'names %s instead of %s (%s)' % (
                    sorted(got), sorted(exp), type(err).__name__)
            return None
        exp = w
    got = getattr(err, 'fields', None)
    if got is None:
        got = getattr(err, 'incorrect_types', None)
    if got is None:
        return 'names no fields: %s: %s' % (type(err).__name__,
                                            str(err)[:200])
    if set(got) != exp:
        return 'names %s instead of %s' % (sorted(got), sorted(exp))
    return named(err, exp)
