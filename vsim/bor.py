"""Independent model of the Borealis HDF5 formats (v0.4-v0.7): field tables,
record generator, reference site<->array restructuring, reference conversion
to SuperDARN records.  Nothing here imports pydarnio: the tables were
transcribed from the format documentation shipped with the pinned commit."""
import datetime
from collections import OrderedDict
from fractions import Fraction

import numpy as np

VERSIONS = ['v0.2', 'v0.3', 'v0.4', 'v0.5', 'v0.6', 'v0.7']
TYPES = ['rawacf', 'bfiq', 'antennas_iq', 'rawrf']
RESTRUCTURABLE = ['rawacf', 'bfiq', 'antennas_iq']

A, B, R, F = 'antennas_iq', 'bfiq', 'rawacf', 'rawrf'
ALL4, ABR, AB = (A, B, R, F), (A, B, R), (A, B)

# field -> (kind, dtype, file types); kind 'e' single element, 'a' array
_V4 = {
    'antenna_arrays_order': ('a', 'U', AB),
    'beam_azms': ('a', 'f8', ABR),
    'beam_nums': ('a', 'u4', ABR),
    'blanked_samples': ('a', 'u4', (B, R)),
    'borealis_git_hash': ('e', 'str', ALL4),
    'correlation_descriptors': ('a', 'U', (R,)),
    'correlation_dimensions': ('a', 'u4', (R,)),
    'data': ('a', 'c8', (A, B, F)),
    'data_descriptors': ('a', 'U', (A, B, F)),
    'data_dimensions': ('a', 'u4', (A, B, F)),
    'data_normalization_factor': ('e', 'f8', ABR),
    'experiment_id': ('e', 'i8', ALL4),
    'experiment_name': ('e', 'str', ALL4),
    'experiment_comment': ('e', 'str', ALL4),
    'first_range': ('e', 'f4', (B, R)),
    'first_range_rtt': ('e', 'f4', (B, R)),
    'freq': ('e', 'u4', ABR),
    'int_time': ('e', 'f4', ALL4),
    'intf_acfs': ('a', 'c8', (R,)),
    'intf_antenna_count': ('e', 'u4', ALL4),
    'lags': ('a', 'u4', (B, R)),
    'main_acfs': ('a', 'c8', (R,)),
    'main_antenna_count': ('e', 'u4', ALL4),
    'noise_at_freq': ('a', 'f8', ABR),
    'num_ranges': ('e', 'u4', (B,)),
    'num_samps': ('e', 'u4', (A, B, F)),
    'num_sequences': ('e', 'i8', ALL4),
    'num_slices': ('e', 'i8', ALL4),
    'pulse_phase_offset': ('a', 'f4', AB),
    'pulses': ('a', 'u4', ABR),
    'range_sep': ('e', 'f4', (B, R)),
    'rx_center_freq': ('e', 'f8', (F,)),
    'rx_sample_rate': ('e', 'f8', ALL4),
    'samples_data_type': ('e', 'str', ALL4),
    'scan_start_marker': ('e', 'u1', ALL4),
    'slice_comment': ('e', 'str', ABR),
    'sqn_timestamps': ('a', 'f8', ALL4),
    'station': ('e', 'str', ALL4),
    'tau_spacing': ('e', 'u4', ABR),
    'tx_pulse_len': ('e', 'u4', ABR),
    'xcfs': ('a', 'c8', (R,)),
}
_V5 = dict(_V4)
_V5.update({
    'averaging_method': ('e', 'str', (R,)),
    'scheduling_mode': ('e', 'str', ALL4),
    'slice_id': ('e', 'u4', ABR),
    'slice_interfacing': ('e', 'str', ABR),
    'blanked_samples': ('a', 'u4', ALL4),
})
_V6 = dict(_V5)
_V6.update({
    'agc_status_word': ('e', 'u4', ALL4),
    'gps_locked': ('e', 'u1', ALL4),
    'gps_to_system_time_diff': ('e', 'f8', ALL4),
    'lp_status_word': ('e', 'u4', ALL4),
    'experiment_id': ('e', 'i2', ALL4),
})
_V7 = dict(_V6)
del _V7['correlation_descriptors'], _V7['correlation_dimensions']
_V7.update({
    'data_descriptors': ('a', 'S', ALL4),
    'data_dimensions': ('a', 'u4', ALL4),
    'antenna_arrays_order': ('a', 'S', AB),
    'gps_locked': ('e', 'b1', ALL4),
    'scan_start_marker': ('e', 'b1', ALL4),
    'first_range': ('e', 'f4', ABR),
    'first_range_rtt': ('e', 'f4', ABR),
    'lags': ('a', 'u4', ABR),
    'num_ranges': ('e', 'u4', AB),
    'range_sep': ('e', 'f4', ABR),
    'tx_antenna_phases': ('a', 'c8', ALL4),
})
TABLES = {'v0.2': _V4, 'v0.3': _V4, 'v0.4': _V4, 'v0.5': _V5, 'v0.6': _V6,
          'v0.7': _V7}

# fields that differ from record to record
_UNSHARED_V4 = {
    R: ['num_sequences', 'int_time', 'sqn_timestamps', 'noise_at_freq',
        'main_acfs', 'intf_acfs', 'xcfs', 'scan_start_marker', 'beam_nums',
        'beam_azms', 'num_slices'],
    B: ['num_sequences', 'int_time', 'sqn_timestamps', 'noise_at_freq',
        'data', 'scan_start_marker', 'beam_nums', 'beam_azms', 'num_slices'],
}
_UNSHARED_V4[A] = _UNSHARED_V4[B]


def vnum(ver):
    return int(ver.split('.')[1])


def table(ver, ft):
    """field -> (kind, dtype) of a site record"""
    return {k: v[:2] for k, v in TABLES[ver].items() if ft in v[2]}


def unshared(ver, ft):
    n = vnum(ver)
    u = list(_UNSHARED_V4[ft])
    if n >= 5:
        u += ['blanked_samples', 'slice_interfacing']
    if n >= 6:
        u += ['agc_status_word', 'lp_status_word', 'gps_locked',
              'gps_to_system_time_diff']
        if ft in AB:
            u += ['pulse_phase_offset']
    if n >= 7:
        u += ['tx_antenna_phases']
    return u


def dims_field(ver, ft):
    return 'correlation_dimensions' if (ft == R and vnum(ver) < 7) \
        else 'data_dimensions'


def desc_field(ver, ft):
    return 'correlation_descriptors' if (ft == R and vnum(ver) < 7) \
        else 'data_descriptors'


def big_fields(ft):
    return ['main_acfs', 'intf_acfs', 'xcfs'] if ft == R else ['data']


def site_specific(ver, ft):
    return [dims_field(ver, ft), desc_field(ver, ft)]


def shared(ver, ft):
    u = set(unshared(ver, ft)) | set(site_specific(ver, ft))
    return [k for k in table(ver, ft) if k not in u]


SITE_DESC = {R: ['num_beams', 'num_ranges', 'num_lags'],
             B: ['num_antenna_arrays', 'num_sequences', 'num_beams',
                 'num_samps'],
             A: ['num_antennas', 'num_sequences', 'num_samps'],
             F: ['num_sequences', 'num_antennas', 'num_samps']}
ARRAY_DESC = {R: ['num_records', 'max_num_beams', 'num_ranges', 'num_lags'],
              B: ['num_records', 'num_antenna_arrays', 'max_num_sequences',
                  'max_num_beams', 'num_samps'],
              A: ['num_records', 'num_antennas', 'max_num_sequences',
                  'num_samps']}

NP = {'i8': np.int64, 'i2': np.int16, 'u4': np.uint32, 'u1': np.uint8,
      'f4': np.float32, 'f8': np.float64, 'b1': np.bool_, 'c8': np.complex64}


def record_key(ts0):
    d = datetime.datetime.utcfromtimestamp(float(ts0))
    e = datetime.datetime.utcfromtimestamp(0)
    return str(int((d - e).total_seconds() * 1000))


def desc_array(ver, names, site):
    if vnum(ver) >= 7 and site:
        return np.array(names, dtype='S')
    return np.array(names)


# --------------------------------------------------------------- generator
# hardware numbers of the SuperDARN radars
STID = {'tst': 0, 'gbr': 1, 'sch': 2, 'kap': 3, 'hal': 4, 'sas': 5, 'pgr': 6,
        'kod': 7, 'sto': 8, 'pyk': 9, 'han': 10, 'san': 11, 'sys': 12,
        'sye': 13, 'tig': 14, 'ker': 15, 'ksr': 16, 'unw': 18, 'zho': 19,
        'mcm': 20, 'fir': 21, 'sps': 22, 'bpk': 24, 'wal': 32, 'bks': 33,
        'hok': 40, 'hkw': 41, 'inv': 64, 'rkn': 65, 'cly': 66, 'dce': 96,
        'svb': 128, 'fhw': 204, 'fhe': 205, 'cvw': 206, 'cve': 207,
        'adw': 208, 'ade': 209, 'ekb': 512}
STATIONS = ['sas', 'pgr', 'rkn', 'inv', 'cly', 'tst'] + sorted(STID)
_TXT = ['', 'a', 'normalscan', '1 range=45km', 'x' * 40, 'tag; b: c']


def gen_site(rng, ver, ft, nrec, convertible=False, small=True, big=0,
             ppo='2d', wide=None):
    """A seeded list of site records sharing the shared fields.
    rng: random.Random.  Returns OrderedDict key -> record."""
    t = table(ver, ft)
    n = vnum(ver)
    nr = np.random.RandomState(rng.getrandbits(32))
    S = {}
    npul = rng.randint(1, 4)
    pulses = np.array(sorted(rng.sample(range(0, rng.choice([12, 12, 44])),
                                        npul)), dtype=np.uint32)
    txpl = rng.choice([100, 300])
    tau = txpl * rng.randint(1, 9)
    spacing = int(tau / txpl)
    nlag = rng.randint(1, 4) + (1 if ft == R else 0)
    lags = np.array([sorted((rng.randint(0, 9), rng.randint(0, 9)))
                     for _ in range(nlag)], dtype=np.uint32)
    nran = rng.randint(1, 6) + big
    nsamp = rng.randint(1, 6) + big
    narr = rng.randint(1, 2)
    nant = rng.choice([rng.randint(1, 16), 16]) if wide else \
        rng.choice([1, 2, 3, 4, 4, 16])
    scale = rng.choice([1e-3, 1.0, 50.0])

    def cplx(*shape):
        return (scale * (nr.randn(*shape) + 1j * nr.randn(*shape))
                ).astype(np.complex64)
    S['borealis_git_hash'] = ver + rng.choice(['', '.0', '.1']) + \
        rng.choice(['', '-%d-g%07x' % (rng.randint(0, 99),
                                       rng.getrandbits(28))])
    if ver == 'v0.2':
        S['borealis_git_hash'] = 'v0.2-61-gc13ab34'
    S['experiment_id'] = rng.choice([1, 151, 3503, 32767, -151, -32768,
                                     rng.randint(-32768, 32767)])
    S['experiment_name'] = rng.choice(['normalscan', 'TwofsoundRawacf'])
    S['experiment_comment'] = rng.choice(_TXT)
    S['slice_comment'] = rng.choice(_TXT)
    S['data_normalization_factor'] = rng.choice([1.0, 2.5, 9999999.999])
    S['first_range'] = rng.choice([180.0, 90.25])
    S['first_range_rtt'] = rng.choice([1200.8307, 1200.0])
    S['freq'] = rng.choice([10500, 12300, rng.randint(8000, 20000)])
    S['intf_antenna_count'] = rng.randint(0, 4)
    S['main_antenna_count'] = rng.randint(1, 16)
    S['lags'] = lags
    S['num_ranges'] = nran
    S['num_samps'] = nsamp
    S['pulses'] = pulses
    S['range_sep'] = rng.choice([44.9688, 15.0, 14.9896])
    S['rx_center_freq'] = 12000.0
    S['rx_sample_rate'] = rng.choice([3333.3333333333335, 10000.0, 4000.0,
                                      6666.666666666667])
    S['samples_data_type'] = rng.choice(['complex float', 'short'])
    S['station'] = rng.choice(STATIONS)
    S['tau_spacing'] = tau
    S['tx_pulse_len'] = txpl
    S['averaging_method'] = rng.choice(['mean', 'median'])
    S['scheduling_mode'] = rng.choice(['common', 'discretionary', ''])
    S['slice_id'] = rng.randint(0, 20)
    order = ['main', 'intf'] if narr == 2 else ['main']
    if ft == A:
        order = ['antenna_%d' % i for i in range(nant)]
    S['antenna_arrays_order'] = np.array(order,
                                         dtype='S' if n >= 7 else None)
    if n < 6:
        S['pulse_phase_offset'] = np.zeros(npul, np.float32)
        if not convertible and rng.random() < .5:
            S['pulse_phase_offset'] = nr.rand(npul).astype(np.float32)
    blank1 = (pulses * spacing).astype(np.uint32)
    blank2 = np.sort(np.concatenate((blank1, blank1 + 1))).astype(np.uint32)
    S['blanked_samples'] = blank1 \
        if rng.random() < .5 or (convertible and n <= 5) else blank2

    sqn = rng.choice([0.1, 0.1, 0.07, 0.1333333, 0.5])
    fixed_shape = rng.random() < .3
    nbm, nsm = wide or (3, 4)
    nb0, ns0 = rng.randint(1, nbm), rng.randint(1, nsm)
    txant = (nr.rand(nant) > .3).astype(np.complex64)
    base = rng.choice([1262304000, 1565897399, 1599000000, 1700000000,
                       1893455999])
    step = rng.choice([0.35, 3.0, 3.5, 60.0, 86399.7, 3.017])
    t0 = base + rng.choice([0.0, 0.25, 0.123456, 0.9999, 59.5,
                            round(rng.random() * 60, 3),
                            round(rng.random() * 60, 3), rng.random()])
    out = OrderedDict()
    for i in range(nrec):
        rec = {}
        nb = nb0 if fixed_shape else rng.randint(1, nbm)
        ns = ns0 if fixed_shape else rng.randint(1, nsm)
        ts = t0 + i * step
        rec['sqn_timestamps'] = np.array([ts + j * sqn for j in range(ns)])
        rec['noise_at_freq'] = nr.rand(ns)
        rec['num_sequences'] = ns
        rec['int_time'] = rng.choice([2.5, 3.0, 3.499, 0.75, 59.9999,
                                      round(rng.random() * 70, 6)])
        rec['num_slices'] = rng.randint(1, 3)
        rec['scan_start_marker'] = rng.randint(0, 1)
        rec['beam_nums'] = np.array([rng.randint(0, rng.choice([15, 23]))
                                     for _ in range(nb)],
                                    dtype=np.uint32)
        rec['beam_azms'] = np.array([rng.uniform(-30, 30)
                                     for _ in range(nb)])
        rec['slice_interfacing'] = rng.choice(['{}', "{1: 'SCAN'}",
                                               "{0: 'AVEPERIOD', 2: 'SCAN'}"])
        rec['agc_status_word'] = rng.choice([0, 1, 3, 65535])
        rec['lp_status_word'] = rng.choice([0, 1, 2])
        if convertible:
            rec['agc_status_word'] &= 0x7fff
        rec['gps_locked'] = rng.randint(0, 1)
        rec['gps_to_system_time_diff'] = rng.uniform(-1, 1)
        rec['tx_antenna_phases'] = txant
        if n >= 5:
            rec['blanked_samples'] = \
                (blank1 if rng.random() < .5 or (convertible and n <= 5)
                 else blank2)
            if not convertible and rng.random() < .3:
                rec['blanked_samples'] = blank1[:rng.randint(1, len(blank1))]
        if n >= 6:
            if ppo == '2d':
                p = np.zeros((ns, npul), np.float32)
                if not convertible and rng.random() < .5:
                    p = nr.rand(ns, npul).astype(np.float32)
            else:
                p = np.zeros(npul, np.float32)
            rec['pulse_phase_offset'] = p
        if ft == R:
            dims = [nb, nran, nlag]
            for f in big_fields(ft):
                d = cplx(*dims)
                rec[f] = d if n >= 7 else d.reshape(-1)
        else:
            dims = {B: [narr, ns, nb, nsamp], A: [nant, ns, nsamp],
                    F: [ns, nant, nsamp]}[ft]
            rec['data'] = cplx(*dims).reshape(-1)
        rec[dims_field(ver, ft)] = np.array(dims, dtype=np.uint32)
        rec[desc_field(ver, ft)] = desc_array(ver, SITE_DESC[ft], True)
        full = {}
        for f, (kind, dt) in t.items():
            v = rec[f] if f in rec else S[f]
            if kind == 'e':
                v = str(v) if dt == 'str' else NP[dt](v)
            else:
                v = np.array(v) if dt in 'US' else np.array(v, dtype=NP[dt])
            full[f] = v
        names = list(full)
        rng.shuffle(names)
        out[record_key(ts)] = {k: full[k] for k in names}
    return out


# ------------------------------------------------- reference restructuring
def fill_value(dt):
    return {'i8': -1, 'u4': 0, 'u1': 0}.get(dt, np.nan)


def ref_site_to_array(ver, ft, records):
    t = table(ver, ft)
    keys = sorted(records)
    recs = [records[k] for k in keys]
    out = {}
    for f in shared(ver, ft):
        out[f] = recs[0][f]
    out['num_beams'] = np.array([len(r['beam_nums']) for r in recs],
                                dtype=np.uint32)
    if vnum(ver) >= 5:
        out['num_blanked_samples'] = np.array(
            [len(r['blanked_samples']) for r in recs], dtype=np.uint32)
    out[desc_field(ver, ft)] = np.array(ARRAY_DESC[ft])
    for f in unshared(ver, ft):
        kind, dt = t[f]
        vals = []
        for r in recs:
            v = r[f]
            if f in big_fields(ft):
                v = np.asarray(v).reshape(r[dims_field(ver, ft)])
            vals.append(v)
        if kind == 'e':
            out[f] = np.array(vals) if dt == 'str' \
                else np.array(vals, dtype=NP[dt])
            continue
        shape = tuple(max(v.shape[i] for v in vals)
                      for i in range(vals[0].ndim))
        arr = np.empty((len(recs),) + shape, dtype=NP[dt])
        arr[...] = fill_value(dt)
        for i, v in enumerate(vals):
            arr[(i,) + tuple(slice(0, s) for s in v.shape)] = v
        out[f] = arr
    return out


def ref_array_to_site(ver, ft, arrays):
    t = table(ver, ft)
    out = OrderedDict()
    for i in range(len(arrays['num_sequences'])):
        ns = int(arrays['num_sequences'][i])
        nb = int(arrays['num_beams'][i])
        rec = {f: arrays[f] for f in shared(ver, ft)}
        for f in unshared(ver, ft):
            kind, dt = t[f]
            v = arrays[f][i]
            if kind == 'e':
                rec[f] = str(v) if dt == 'str' else NP[dt](v)
                continue
            if f in ('sqn_timestamps', 'noise_at_freq'):
                v = v[:ns]
            elif f in ('beam_nums', 'beam_azms'):
                v = v[:nb]
            elif f == 'blanked_samples':
                v = v[:int(arrays['num_blanked_samples'][i])]
            elif f == 'pulse_phase_offset' and v.ndim == 2:
                v = v[:ns]
            elif f in ('main_acfs', 'intf_acfs', 'xcfs'):
                v = v[:nb]
                dims = v.shape
            elif f == 'data':
                v = v[:, :ns, :nb] if ft == B else v[:, :ns]
                dims = v.shape
            if f in big_fields(ft) and not (ft == R and vnum(ver) >= 7):
                v = v.reshape(-1)
            rec[f] = v
        rec[dims_field(ver, ft)] = np.array(dims, dtype=np.uint32)
        rec[desc_field(ver, ft)] = desc_array(ver, SITE_DESC[ft], True)
        out[record_key(rec['sqn_timestamps'][0])] = rec
    return out


# ----------------------------------------------------------- comparison
def diff_value(a, b, path, strict=True):
    """None if equal, else a text.  Strings and string arrays are compared by
    text; everything else by dtype, shape and bits (NaN equal to NaN)."""
    if isinstance(b, str):
        if not isinstance(a, str) or str(a) != b:
            return '%s: %r != %r' % (path, a, b)
        return None
    if isinstance(b, np.ndarray):
        if not isinstance(a, np.ndarray):
            return '%s: %s is not an array' % (path, type(a).__name__)
        if b.dtype.kind in 'US':
            x = [s.decode() if isinstance(s, bytes) else str(s)
                 for s in a.ravel().tolist()]
            y = [s.decode() if isinstance(s, bytes) else str(s)
                 for s in b.ravel().tolist()]
            if a.dtype.kind not in 'US' or a.shape != b.shape or x != y:
                return '%s: %r != %r' % (path, a, b)
            return None
        if a.dtype != b.dtype:
            return '%s: dtype %s != %s' % (path, a.dtype, b.dtype)
        if a.shape != b.shape:
            return '%s: shape %s != %s' % (path, a.shape, b.shape)
        if not np.array_equal(a, b, equal_nan=b.dtype.kind in 'fc'):
            return '%s: values %s != %s' % (
                path, np.array2string(a, threshold=12),
                np.array2string(b, threshold=12))
        return None
    if isinstance(a, np.ndarray):
        return '%s: array where a single value is expected' % path
    if type(a) is not type(b) and np.dtype(type(a)) != np.dtype(type(b)):
        return '%s: type %s != %s' % (path, type(a).__name__,
                                      type(b).__name__)
    if not (a == b or (a != a and b != b)):
        return '%s: %r != %r' % (path, a, b)
    return None


def diff_record(a, b, path):
    if set(a) != set(b):
        return '%s: fields differ: missing %s, extra %s' % (
            path, sorted(set(b) - set(a)), sorted(set(a) - set(b)))
    for k in sorted(b):
        d = diff_value(a[k], b[k], path + '/' + k)
        if d:
            return d
    return None


def diff_records(a, b):
    if list(a) != sorted(b):
        return 'records %s, expected %s' % (list(a), sorted(b))
    for k in b:
        d = diff_record(a[k], b[k], k)
        if d:
            return d
    return None


def diff_arrays(a, b):
    return diff_record(a, b, '')


# ------------------------------------------ files written without the library
HIDDEN = ('CLASS', 'TITLE', 'VERSION', 'DEEPDISH_IO_VERSION',
          'PYTABLES_FORMAT_VERSION')


def _put(g, k, v, comp, how=0):
    """how: 1 empty text as an attribute without a value"""
    if isinstance(v, str) and how and not v:
        import h5py
        g.attrs[k] = h5py.Empty('S1')
    elif isinstance(v, str):
        g.attrs[k] = np.bytes_(v.encode('utf-8'))
    elif not isinstance(v, np.ndarray):
        g.attrs[k] = v
    elif v.dtype.kind == 'U':
        c = np.ascontiguousarray(v)
        d = g.create_dataset(k, data=c.view(np.uint8), compression=comp)
        d.attrs['strtype'] = b'unicode'
        d.attrs['itemsize'] = c.dtype.itemsize // 4
    else:
        g.create_dataset(k, data=v, compression=comp)


def h5write(path, struct, data, compression=None, deepdish=False, text=0):
    import h5py
    with h5py.File(path, 'w') as f:
        if deepdish:
            for k in HIDDEN:
                f.attrs[k] = np.bytes_('x')
        if struct == 'array':
            for k, v in data.items():
                _put(f, k, v, compression, text)
        else:
            for name, rec in data.items():
                g = f.create_group(name)
                if deepdish:
                    for k in HIDDEN[:3]:
                        g.attrs[k] = np.bytes_('x')
                for k, v in rec.items():
                    _put(g, k, v, compression, text)


def _get_all(g):
    import h5py
    out = {}
    for k in g:
        d = g[k]
        if 'strtype' in d.attrs:
            out[k] = d[()].view((np.str_, int(d.attrs['itemsize'])))
        else:
            out[k] = d[()]
    for k, v in g.attrs.items():
        if k in HIDDEN:
            continue
        if isinstance(v, h5py.Empty):
            v = '' if v.dtype.kind == 'S' else v.dtype.type()
        elif isinstance(v, bytes):
            v = v.decode('utf-8')
        out[k] = v
    return out


def h5compression(path, struct):
    """The kinds of compression of the data sets of a file."""
    import h5py
    with h5py.File(path, 'r') as f:
        gs = [f] if struct == 'array' else list(f.values())
        return {d.compression for g in gs for d in g.values()}


def h5read(path, struct):
    """Contents of a file by h5py alone."""
    import h5py
    with h5py.File(path, 'r') as f:
        if struct == 'array':
            return _get_all(f)
        return OrderedDict((n, _get_all(f[n])) for n in sorted(f))


# --------------------------------------------------- reference conversion
def convertible(ver, ft, records):
    """The documented conditions for conversion."""
    if ft not in (R, B):
        return False
    for r in records.values():
        sp = int(r['tau_spacing'] / r['tx_pulse_len'])
        b1 = [int(p) * sp for p in r['pulses']]
        b2 = sorted(b1 + [x + 1 for x in b1])
        have = [int(x) for x in r['blanked_samples']]
        if have != b1 and not (vnum(ver) >= 6 and have == b2):
            return False
        if ft == B and np.any(r['pulse_phase_offset'] != 0):
            return False
        if str(r['station']) not in STID:
            return False
    return True


def ref_convert(ver, ft, records, slice_id, origin, scaling=1):
    """Records of the SuperDARN file as lists of name -> (values, tolerance);
    a tolerance of None asks for equality."""
    out = []
    for key in sorted(records):
        r = records[key]
        ts = [float(x) for x in r['sqn_timestamps']]
        t = datetime.datetime(1970, 1, 1) + datetime.timedelta(
            microseconds=int(Fraction(ts[0]) * 10 ** 6 + Fraction(1, 2)))
        ver_nums = str(r['borealis_git_hash']).split('-')[0][1:].split('.')
        dims = [int(x) for x in r[dims_field(ver, ft)]]
        norm = float(r['data_normalization_factor'])
        for b in range(len(r['beam_nums'])):
            c = {
                'radar.revision.major': int(ver_nums[0]),
                'radar.revision.minor': int(ver_nums[1]),
                'origin.code': 100,
                'origin.command': 'Borealis %s %s' % (r['borealis_git_hash'],
                                                      r['experiment_name']),
                'cp': r['experiment_id'], 'stid': STID[str(r['station'])],
                'time.yr': t.year, 'time.mo': t.month, 'time.dy': t.day,
                'time.hr': t.hour, 'time.mt': t.minute, 'time.sc': t.second,
                'time.us': (t.microsecond, 1),
                'origin.time': t.replace(microsecond=0),
                'nave': r['num_sequences'], 'atten': 0,
                'lagfr': int(r['first_range_rtt']),
                'smsep': int(1e6 / r['rx_sample_rate']), 'ercod': 0,
                'stat.agc': r.get('agc_status_word', 0),
                'stat.lopwr': r.get('lp_status_word', 0),
                'noise.search': np.float32(r['noise_at_freq'][0]),
                'noise.mean': 0.0, 'channel': slice_id,
                'bmnum': r['beam_nums'][b],
                'bmazm': np.float32(r['beam_azms'][b]),
                'scan': int(r['scan_start_marker']), 'offset': 0,
                'rxrise': 0, 'intt.sc': int(r['int_time']),
                'intt.us': (int((float(r['int_time']) % 1) * 1e6), 1),
                'txpl': r['tx_pulse_len'], 'mpinc': r['tau_spacing'],
                'mppul': len(r['pulses']), 'mplgs': len(r['lags']) - 1,
                'frang': round(float(r['first_range'])),
                'rsep': round(float(r['range_sep'])), 'tfreq': r['freq'],
                'mxpwr': -1, 'lvmax': 20000,
                'combf': 'Converted from Borealis file: %s record %s with '
                         'scaling factor = %s ; Number of beams in record: '
                         '%d ; %s ; %s' % (
                             origin, key, scaling, len(r['beam_nums']),
                             r['experiment_comment'], r['slice_comment']),
                'ptab': np.asarray(r['pulses']), 'ltab': np.asarray(r['lags'])}
            if ft == R:
                n1, n2 = dims[1], dims[2]
                f = 32767.0 ** 2 * scaling / norm ** 2
                d = {k: np.asarray(r[k]).reshape(dims)[b].astype(complex) * f
                     for k in ('main_acfs', 'xcfs')}
                txpow = -1
                if 'tx_antenna_phases' in r:
                    txpow = sum(1 << i for i, x in
                                enumerate(r['tx_antenna_phases']) if x != 0)
                    if txpow > 32767:
                        txpow -= 65536

                def pair(x):
                    return np.stack([x.real, x.imag], axis=-1)
                c.update({
                    'txpow': txpow, 'nrang': n1, 'xcf': 1,
                    'rawacf.revision.major': 1, 'rawacf.revision.minor': 0,
                    'thr': 0.0, 'slist': np.arange(n1),
                    'pwr0': (np.abs(d['main_acfs'][:, 0]), 'r'),
                    'acfd': (pair(d['main_acfs'][:, :n2 - 1]), 'r'),
                    'xcfd': (pair(d['xcfs'][:, :n2 - 1]), 'r')})
            else:
                na, ns, nb, nsamp = dims
                x = np.asarray(r['data']).reshape(dims)[:, :, b]
                x = np.transpose(x, (1, 0, 2)).reshape(-1).astype(complex) \
                    / norm * 32767 * scaling
                y = np.empty(2 * x.size)
                y[0::2], y[1::2] = x.real, x.imag
                y = np.clip(y, -32768, 32767)
                names = [n.decode() if isinstance(n, bytes) else str(n)
                         for n in r['antenna_arrays_order']]
                off = 2 * na * int(r['num_samps'])
                c.update({
                    'txpow': -1, 'nrang': r['num_ranges'],
                    'xcf': int('intf' in names),
                    'iqdata.revision.major': 1, 'iqdata.revision.minor': 0,
                    'seqnum': ns, 'chnnum': len(names),
                    'smpnum': r['num_samps'],
                    'skpnum': int(r['first_range'] / r['range_sep']),
                    'tsc': np.array([int(x) for x in ts]),
                    'tus': (np.array([int((x % 1) * 1e6) for x in ts]), 1),
                    'tatten': np.zeros(ns, int),
                    'tnoise': np.asarray(r['noise_at_freq'])
                    .astype(np.float32),
                    'toff': np.arange(ns) * off,
                    'tsze': np.full(ns, off), 'data': (y, 't')})
            out.append(c)
    return out


def diff_convert(want, got):
    """got: decoded DMAP records, name -> (kind, letter, value)."""
    if len(want) != len(got):
        return '%d records instead of %d' % (len(got), len(want))
    for i, (w, g) in enumerate(zip(want, got)):
        if set(w) != set(g):
            return 'record %d: fields missing %s, extra %s' % (
                i, sorted(set(w) - set(g)), sorted(set(g) - set(w)))
        for k in sorted(w):
            tol = None
            x = w[k]
            if isinstance(x, tuple):
                x, tol = x
            y = g[k][2]
            bad = False
            if isinstance(x, datetime.datetime):
                d = datetime.datetime.strptime(y, '%a %b %d %H:%M:%S %Y')
                bad = abs((d - x).total_seconds()) > 1
            elif isinstance(x, str):
                bad = x != y
            elif isinstance(x, np.ndarray):
                y = np.asarray(y)
                if x.shape != y.shape:
                    return 'record %d field %s: shape %s instead of %s' % (
                        i, k, y.shape, x.shape)
                if tol is None:
                    bad = not np.array_equal(x, y)
                elif tol == 't':         # cut to integers, towards zero
                    e = np.where(x < 0, -1, 1) * (x - y)
                    bad = x.size and (e.min() < -.05 or e.max() > 1.05)
                elif tol == 'r':
                    big = np.abs(x).max() if x.size else 0
                    bad = not np.allclose(y, x, rtol=1e-5, atol=1e-5 * big)
                else:
                    bad = x.size and np.abs(
                        x.astype(float) - y.astype(float)).max() > tol
            elif tol is None:
                bad = not x == y
            else:
                bad = abs(int(x) - int(y)) > tol
            if bad:
                return 'record %d field %s: %s instead of %s' % (
                    i, k, str(y)[:80], str(x)[:80])
    return None
