"""Pieces shared by the checks."""
import os

import numpy as np

from vsim import dmapref as R
from vsim.runner import Invalid

REAL_DMAP = ['pydarnio DMAP reader and writer (dmap.py, superdarn.py, '
             'superdarn_formats.py, conversions.py, datastructures.py)',
             'CPython file objects and buffered I/O', 'numpy']
STUB_IO = ['kernel side of file calls: results decided by the interposed '
           'simulator, data kept in a scratch directory of a memory file '
           'system']


def gen_specs(rng, kind, nmax=4, big=False, small=False):
    n = rng.choice([1, 1, 2, 2, 3, nmax])
    k = 1 if small or nmax < 4 else rng.random()
    if kind == 'generic':
        if k < .02:
            # many records
            return [R.gen_record(rng, False, True)
                    for _ in range(rng.choice([20, 70, 300]))]
        specs = [R.gen_record(rng, big, small) for _ in range(n)]
        if k < .04:
            # a record of many fields
            R.pad(rng, rng.choice(specs), rng.choice([40, 140, 300]))
        return specs
    if k < .02:
        n = rng.choice([8, 20])
    return [R.gen_sd_record(rng, kind, big) for _ in range(n)]


def build(specs, form):
    if form == 'struct':
        return [R.build_struct(s) for s in specs]
    return [R.build_dict(s) for s in specs]


def gen_rand_io(rng):
    """Short and interrupted transfers."""
    k = rng.random()
    if k < .15:
        return None
    p = [rng.choice([0, .1, .5, .9]) for _ in range(3)]
    return [rng.getrandbits(40) | 1] + p


def write(kind, recs, via, path=None, explicit=True):
    """Writes with the library; returns the bytes of a stream write."""
    import pydarnio
    if via == 'stream':
        w = pydarnio.DmapWrite(recs)
        return w.write_dmap_stream()
    if kind == 'generic':
        if explicit:
            pydarnio.DmapWrite(recs).write_dmap(path)
        else:
            pydarnio.DmapWrite(recs, path).write_dmap()
    else:
        if explicit:
            w = pydarnio.SDarnWrite(recs)
            getattr(w, R.WRITE[kind])(path)
        else:
            w = pydarnio.SDarnWrite(recs, path)
            getattr(w, R.WRITE[kind])()
    return None


def reader(how, src, stream):
    import pydarnio
    if how == 'generic':
        return pydarnio.DmapRead(src, stream)
    return pydarnio.SDarnRead(src, stream)


def read_with(rd, how):
    if how == 'generic':
        return rd.read_records()
    return getattr(rd, R.READ[how])()


def conforms(ft, rec):
    m, e, w = R.faults_of(ft, {n: x[1] for n, x in rec.items()})
    return not (m or e or w)


def exc_text(e):
    return '%s: %s' % (type(e).__name__, str(e)[:300])


def require_conforming(kind, specs):
    R.require_valid(specs)
    if kind != 'generic':
        for s in specs:
            if not conforms(kind, R.expected(s)):
                raise Invalid('not conforming')


def read_all(how, src, stream):
    rd = reader(how, src, stream)
    return rd, read_with(rd, how)


def attempt(fn, *a, **k):
    """('ok', value) or ('exc', exception)"""
    try:
        return 'ok', fn(*a, **k)
    except Exception as e:
        return 'exc', e


def process_state():
    """What the whole program shares and no operation may leave changed."""
    import gc
    import locale
    import logging
    import random
    import resource
    import signal
    import socket
    import sys
    import tempfile
    import threading
    import time
    import warnings
    import h5py
    h5 = h5py.get_config()
    mask = os.umask(0)
    os.umask(mask)
    root = logging.getLogger()
    return {
        'working directory': os.getcwd(),
        'environment': dict(os.environ),
        'umask': mask,
        'numpy error handling': np.geterr(),
        'numpy print options': str(np.get_printoptions()),
        'numpy random state': hash(np.random.get_state()[1].tobytes()) +
        np.random.get_state()[2],
        'random state': hash(random.getstate()),
        'warning filters': list(warnings.filters),
        'showwarning': warnings.showwarning,
        'logging': (root.level, list(root.handlers), root.manager.disable),
        'locale': locale.setlocale(locale.LC_ALL),
        'signal handlers': [signal.getsignal(s) for s in
                            (signal.SIGINT, signal.SIGTERM, signal.SIGALRM)],
        'search path': list(sys.path),
        'recursion limit': sys.getrecursionlimit(),
        'standard streams': (sys.stdin, sys.stdout, sys.stderr),
        'temporary directory': tempfile.tempdir,
        'socket timeout': socket.getdefaulttimeout(),
        'garbage collection': gc.isenabled(),
        'excepthook': sys.excepthook,
        'time zone': (time.tzname, time.timezone, time.altzone),
        'garbage collection steps': gc.get_threshold(),
        'switch interval': sys.getswitchinterval(),
        'file limit': resource.getrlimit(resource.RLIMIT_NOFILE),
        'file size limit': resource.getrlimit(resource.RLIMIT_FSIZE),
        'HDF5 settings': (h5.track_order, h5.complex_names, h5.bool_names),
        'threads': threading.active_count()}


def process_diff(a, b):
    for k in a:
        if a[k] != b[k]:
            t = 'changed'
            if not isinstance(a[k], (dict, list)):
                t = '%.80r became %.80r' % (a[k], b[k])
            return '%s of the program: %s' % (k, t)
    return None
