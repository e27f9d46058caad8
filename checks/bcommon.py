"""Pieces shared by the Borealis checks."""
import copy
import random
from collections import OrderedDict

import numpy as np

from vsim import bor
from vsim.runner import Invalid

REAL = ['pydarnio Borealis readers, writers, formats, restructuring and '
        'conversion', 'h5py and the HDF5 library', 'numpy']
STUB = ['kernel side of file calls: results decided by the interposed '
        'simulator, data kept in a scratch directory of a memory file system']
COMP = ['default', 'default', None, 'zlib', 'gzip', 'lzf', 5]
TEXTS = ['', 'plain', 'Überprüfung αβγ', 'x' * 300, '雷达' * 90, 'a\nb\tc',
         ' lead and trail ', '{}', "{1: 'SCAN'}", 'é', 'a\x00b', 'z' * 5000]
TEXT_FIELDS = ['experiment_comment', 'slice_comment', 'experiment_name',
               'station', 'scheduling_mode', 'slice_interfacing']
NAMES = ['a.h5', 'b', 'data file.hdf5', 'größe.site.h5', 'x.array.hdf5']


def gen_data(rng, fts=None, vers=None, nmax=4, conv=False):
    ft = rng.choice(fts or bor.TYPES)
    d = {'ver': rng.choice(vers or bor.VERSIONS), 'ft': ft,
         'n': rng.choice([1, 1, 2, 2, 3, nmax]), 'seed': rng.getrandbits(24)}
    if nmax > 3 and rng.random() < .03:
        d['n'] = rng.choice([7, 11, 14, 14, 27, 40])
    if conv:
        d['conv'] = True
        if rng.random() < .05:
            d['edge'] = rng.getrandbits(16)
    if rng.random() < .3:
        d['ppo'] = rng.choice(['1d', 'none'])
    if rng.random() < .06:
        d['big'] = rng.choice([200, 1500, 4000])
        d['n'] = min(d['n'], 14)
    if rng.random() < .1:
        d['wide'] = [rng.choice([3, 16, 20]), rng.choice([4, 12, 35])]
        d['n'] = min(d['n'], 14)
    if rng.random() < .3:
        d['text'] = [[rng.choice(TEXT_FIELDS), rng.choice(TEXTS)]
                     for _ in range(rng.randint(1, 3))]
    if rng.random() < .12:
        # differs from record to record
        d['utext'] = [rng.randrange(len(TEXTS))
                      for _ in range(rng.randint(1, 4))]
    if rng.random() < .3:
        d['mem'] = [rng.choice(['F', 'strided', 'rev', 'off'])
                    for _ in range(rng.randint(1, 4))]
    if not conv and rng.random() < .08:
        # nothing is blanked, in one record or in all
        d['empty'] = [['blanked_samples', rng.choice([-1, 0, 1, 2])]]
    if rng.random() < .2:
        d['special'] = rng.getrandbits(16)
    d['order'] = rng.getrandbits(16)
    return d


def lay(v, m):
    """The same array in another memory layout."""
    if m == 'F':
        return np.asfortranarray(v)
    if m == 'strided':
        b = np.zeros(tuple(2 * s for s in v.shape), v.dtype)
        w = b[tuple(slice(None, None, 2) for _ in v.shape)]
        w[...] = v
        return w
    if m == 'rev' and v.ndim:
        return np.ascontiguousarray(v[::-1])[::-1]
    if m == 'off':
        b = np.zeros(v.size + 3, v.dtype)
        b[1:1 + v.size] = v.ravel()
        return b[1:1 + v.size].reshape(v.shape)
    return v


EDGE = {'freq': [32767], 'beam_nums': [32767, 255, 256],
        'first_range': [32767.0, 0.0], 'first_range_rtt': [32767.0, -32768.0],
        'int_time': [32767.5, 0.0], 'range_sep': [32767.0, 1.0],
        'slice_id': [32767], 'experiment_id': [32767, -32768],
        'rx_sample_rate': [31.0]}
OVER = {'freq': [32768, 40000, 65536], 'beam_nums': [32768, 65536, 70000],
        'first_range': [32768.0, -32769.0, 1e6, 65536.0],
        'first_range_rtt': [32768.0, -32769.0, 65536.0],
        'int_time': [32768.5, 65536.0, 1e7], 'range_sep': [32768.0, 65537.0],
        'slice_id': [32768, 65537], 'rx_sample_rate': [30.0, 15.0, 1.0]}


def set_all(rec, k, x):
    if k in rec:
        if isinstance(rec[k], np.ndarray):
            rec[k] = np.full_like(rec[k], x)
        else:
            rec[k] = type(rec[k])(x)


def records(d):
    """Site records of a data description, in sorted order."""
    if d['ver'] not in bor.VERSIONS or d['ft'] not in bor.TYPES or \
            not 1 <= d['n'] <= 50 or \
            any(not 1 <= x <= 64 for x in d.get('wide') or []):
        raise Invalid('data')
    rng = random.Random(d['seed'])
    recs = bor.gen_site(rng, d['ver'], d['ft'], d['n'],
                        convertible=bool(d.get('conv')),
                        big=d.get('big', 0), ppo=d.get('ppo', '2d'),
                        wide=d.get('wide'))
    n = bor.vnum(d['ver'])
    if d.get('special') is not None:
        r = random.Random(d['special'])
        sh = set() if d['ft'] == 'rawrf' else \
            set(bor.shared(d['ver'], d['ft']))
        for rec in recs.values():
            for k, v in rec.items():
                if isinstance(v, np.ndarray) and v.dtype.kind in 'fc' and \
                        v.size and k not in sh and k not in (
                            'sqn_timestamps', 'pulse_phase_offset',
                            'tx_antenna_phases'):
                    w = v.reshape(-1)
                    if r.random() < .5:
                        w[r.randrange(w.size)] = r.choice(
                            [np.nan, np.inf, -np.inf, -0.0, 1e30])
    for f, x in d.get('text', []):
        if '\x00' in x and x.rstrip('\x00') != x:
            raise Invalid('text')
        for rec in recs.values():
            if f in rec:
                rec[f] = x
    if d.get('utext') and d['ft'] != 'rawrf':
        for i, rec in enumerate(recs.values()):
            if 'slice_interfacing' in rec:
                rec['slice_interfacing'] = TEXTS[
                    d['utext'][i % len(d['utext'])] % len(TEXTS)]
    for f, which in d.get('empty', []):
        if f in ('pulses', 'pulse_phase_offset'):
            raise Invalid('empty')
        if f == 'blanked_samples' and n < 5:
            which = -1              # shared by the records
        for i, rec in enumerate(recs.values()):
            if i == which % len(recs) or which < 0:
                v = rec.get(f)
                if isinstance(v, np.ndarray):
                    rec[f] = np.zeros((0,) + v.shape[1:], v.dtype)
    if d.get('vary') is not None:
        # records of a site file need not agree in any field
        r = random.Random(d['vary'])
        for rec in list(recs.values())[1:]:
            for k in sorted(rec):
                v = rec[k]
                if k in ('borealis_git_hash', 'pulse_phase_offset',
                         'num_sequences') or \
                        r.random() < .7:
                    continue
                if isinstance(v, str):
                    rec[k] = v + '+'
                elif isinstance(v, np.ndarray):
                    if v.dtype.kind in 'uifc' and k != 'pulses':
                        rec[k] = v + v.dtype.type(1)
                elif v.dtype.kind in 'uif':
                    rec[k] = v - type(v)(v > 0)
    if d.get('edge') is not None:
        # the largest values that SuperDARN files can hold
        r = random.Random(d['edge'])
        for k in sorted(EDGE):
            if r.random() < .4:
                x = r.choice(EDGE[k])
                for rec in recs.values():
                    set_all(rec, k, x)
    if d.get('flip'):
        # data of the same shape that differ everywhere
        for rec in recs.values():
            for k, v in rec.items():
                if isinstance(v, np.ndarray) and v.dtype.kind == 'c':
                    rec[k] = -v
        if d['flip'] == 2:
            # ... and other times
            late = OrderedDict()
            for rec in recs.values():
                rec['sqn_timestamps'] = rec['sqn_timestamps'] + 7200.0
                late[bor.record_key(rec['sqn_timestamps'][0])] = rec
            recs = late
    if d.get('ppo') == 'none' and n >= 6:
        for rec in recs.values():
            if 'pulse_phase_offset' in rec:
                rec['pulse_phase_offset'] = np.zeros(0, np.float32)
    return recs


def site_arg(d, recs):
    """What the caller hands to a writer."""
    mem = d.get('mem') or ['C']
    r = random.Random(d['order'])
    names = list(recs)
    r.shuffle(names)
    out = OrderedDict()
    i = 0
    for name in names:
        rec = {}
        for k, v in recs[name].items():
            if isinstance(v, np.ndarray):
                v = lay(v.copy(), mem[i % len(mem)])
                i += 1
            rec[k] = v
        out[name] = rec
    return out


def array_arg(d, arrays):
    mem = d.get('mem') or ['C']
    r = random.Random(d['order'])
    names = list(arrays)
    r.shuffle(names)
    return {k: lay(arrays[k].copy(), mem[i % len(mem)])
            if isinstance(arrays[k], np.ndarray) else arrays[k]
            for i, k in enumerate(names)}


def repaired(recs):
    """Empty pulse phase offsets are read as zeros, one per pulse."""
    out = OrderedDict()
    for name in sorted(recs):
        rec = dict(recs[name])
        p = rec.get('pulse_phase_offset')
        if p is not None and p.size == 0 and \
                p.shape != rec['pulses'].shape and \
                p.shape != (rec['num_sequences'], rec['pulses'].size):
            rec['pulse_phase_offset'] = np.zeros(rec['pulses'].shape,
                                                 np.float32)
        out[name] = rec
    return out


def write(d, struct, path, data, how='general', comp='default'):
    from pydarnio import BorealisWrite
    from pydarnio.borealis.borealis_array import BorealisArrayWrite
    from pydarnio.borealis.borealis_site import BorealisSiteWrite
    kw = {} if comp == 'default' else {'hdf5_compression': comp}
    if how == 'general':
        return BorealisWrite(path, data, d['ft'],
                             borealis_file_structure=struct, **kw)
    if how == 'auto':
        return BorealisWrite(path, data, d['ft'], **kw)
    cl = BorealisSiteWrite if struct == 'site' else BorealisArrayWrite
    return cl(path, data, d['ft'], **kw)


def read(d, struct, path, how='general'):
    from pydarnio import BorealisRead
    from pydarnio.borealis.borealis_array import BorealisArrayRead
    from pydarnio.borealis.borealis_site import BorealisSiteRead
    if how == 'general':
        return BorealisRead(path, d['ft'], borealis_file_structure=struct)
    if how == 'auto':
        return BorealisRead(path, d['ft'])
    cl = BorealisSiteRead if struct == 'site' else BorealisArrayRead
    return cl(path, d['ft'])


def content(rd, struct):
    return rd.records if struct == 'site' else rd.arrays


def described(x, d, struct, path, how, names, comp=None):
    """What a reader or writer says about its file."""
    from pydarnio.borealis import borealis_formats
    want = {'filename': path, 'borealis_filetype': d['ft'],
            'software_version': d['ver'],
            'format': borealis_formats.borealis_version_dict[
                d['ver']][d['ft']]}
    if struct == 'site' or d['ft'] != 'rawrf':
        want['record_names'] = sorted(names)
    if how != 'specific':
        want['borealis_file_structure'] = struct
    if comp is not None:
        want['compression'] = COMP_USED(struct, comp[0])
    for k, v in want.items():
        g = getattr(x, k)
        if k == 'record_names':
            g = [str(i) for i in g]
        if g != v:
            return '%s is %r instead of %r' % (k, g, v)
    return shown(x, path)


def shown(x, *names):
    """Printing it works and shows the files it is about."""
    for f in (repr, str):
        try:
            t = f(x)
        except Exception as e:
            return '%s() raises %s' % (f.__name__, type(e).__name__)
        if any(n not in t for n in names):
            return '%s() does not show the file name' % f.__name__
    return None


def COMP_USED(struct, comp):
    if comp == 'default':
        return None if struct == 'site' else 'zlib'
    return comp


def filled(data, struct):
    """The data with offsets that were empty in every record as zeros, one
    per pulse: what restructuring makes of them depends on whether the source
    was read by a site reader before."""
    if struct == 'site':
        return repaired(data)
    p = data.get('pulse_phase_offset')
    if isinstance(p, np.ndarray) and p.ndim == 2 and p.shape[1] == 0:
        data = dict(data, pulse_phase_offset=np.zeros(
            (p.shape[0], data['pulses'].size), np.float32))
    return data


def diff(got, want, struct, fill=False):
    """None or a text.  want: reference records or arrays."""
    if fill:
        got, want = filled(got, struct), filled(want, struct)
    if struct == 'site':
        return bor.diff_records(got, want)
    return bor.diff_arrays(got, want)


def frozen(x):
    """A private copy of the caller's data to compare with afterwards."""
    return copy.deepcopy(x)


def same(a, b, path=''):
    """The caller's data is unchanged: names in order, types and values."""
    if list(a) != list(b):
        return '%s: names changed' % path
    for k in a:
        x, y = a[k], b[k]
        if isinstance(y, dict):
            r = same(x, y, '%s/%s' % (path, k))
        elif isinstance(y, np.ndarray):
            r = bor.diff_value(x, y, '%s/%s' % (path, k))
            if not r and x.dtype != y.dtype:
                r = '%s/%s: dtype' % (path, k)
        else:
            r = None if type(x) is type(y) and (x == y or x != x) else \
                '%s/%s: %r became %r' % (path, k, y, x)
        if r:
            return r
    return None


def brief(t):
    return t if len(t) < 300 else t[:300] + '...'
