"""Borealis operations as the simulated runs make them: each has sources made
without the library, one destination, and a reference for the result."""
import os

from vsim import bor
from vsim import dmapref as R
from vsim.runner import Invalid
from . import bcommon as B

OPS = ['wsite', 'warray', 'append', 's2a', 'a2s', 'csite', 'carray']
RESTRUCT = ('s2a', 'a2s')
CONVERT = ('csite', 'carray')


def gen(rng, ops=OPS, nmax=4, fts=None):
    op = rng.choice(ops)
    if op in CONVERT:
        f = [t for t in ('rawacf', 'bfiq') if not fts or t in fts]
    elif op in ('warray',) + RESTRUCT:
        f = [t for t in bor.RESTRUCTURABLE if not fts or t in fts]
    else:
        f = fts
    d = B.gen_data(rng, f, nmax=nmax, conv=op in CONVERT)
    if op in CONVERT:
        d['text'] = [t for t in d.get('text', []) if t[0].endswith('comment')
                     and '\x00' not in t[1]]
        d.pop('special', None)
    if op == 'append':
        d['n'] = max(2, d['n'])
    o = {'op': op, 'd': d, 'comp': rng.choice(B.COMP),
         'how': rng.choice(['general', 'auto', 'specific'])}
    if op in CONVERT:
        o['slice'] = rng.randint(0, 30)
        o['scale'] = rng.choice([1, 1, 2, 10])
    return o


def d_fill(d):
    return d.get('ppo') == 'none'


class Op:
    """One prepared operation.  src and dst are paths (src None for writes
    from memory)."""

    def __init__(self, o, src, dst):
        self.o, self.d, self.op = o, o['d'], o['op']
        d = self.d
        if self.op not in OPS:
            raise Invalid('op')
        if self.op in ('warray', 's2a', 'a2s') and \
                d['ft'] not in bor.RESTRUCTURABLE or \
                self.op in CONVERT and d['ft'] not in ('rawacf', 'bfiq'):
            raise Invalid('type')
        self.dst = dst
        self.recs = B.records(d)
        self.arrays = None
        if self.op not in ('wsite', 'append'):
            self.arrays = bor.ref_site_to_array(d['ver'], d['ft'], self.recs)
        self.src = None
        self.old = {}
        self.arg = None
        if self.op == 'wsite':
            self.arg = B.site_arg(d, self.recs)
        elif self.op == 'warray':
            self.arg = B.array_arg(d, self.arrays)
        elif self.op == 'append':
            if len(self.recs) < 2:
                raise Invalid('append')
            names = list(self.recs)
            k = 1 + d['order'] % (len(names) - 1)
            self.old = {n: self.recs[n] for n in names[:k]}
            self.arg = B.site_arg(d, {n: self.recs[n] for n in names[k:]})
        elif self.op in ('s2a', 'csite'):
            self.src = src
        elif self.op in ('a2s', 'carray'):
            self.src = src
        if self.op in CONVERT and \
                not bor.convertible(d['ver'], d['ft'], self.recs):
            raise Invalid('not convertible')

    def setup(self, src=True, dst=True):
        """Makes the source and what is at the destination before."""
        if self.src and src:
            st = 'site' if self.op in ('s2a', 'csite') else 'array'
            bor.h5write(self.src, st,
                        self.recs if st == 'site' else self.arrays,
                        None if st == 'site' else 'gzip',
                        text=self.d['order'] >> 1 & 1)
        if self.old and dst:
            bor.h5write(self.dst, 'site', self.old)

    def do(self, dst=None):
        dst = dst or self.dst
        o, d = self.o, self.d
        if self.op in ('wsite', 'append'):
            return B.write(d, 'site', dst, self.arg, o['how'], o['comp'])
        if self.op == 'warray':
            return B.write(d, 'array', dst, self.arg, o['how'], o['comp'])
        if self.op in RESTRUCT:
            from pydarnio import BorealisRestructure
            kw = {} if o['comp'] == 'default' else \
                {'hdf5_compression': o['comp']}
            return BorealisRestructure(
                self.src, dst, d['ft'],
                'array' if self.op == 's2a' else 'site', **kw)
        from pydarnio import BorealisConvert
        st = 'site' if self.op == 'csite' else 'array'
        return BorealisConvert(
            self.src, d['ft'], dst, o['slice'],
            borealis_file_structure=None if o['how'] == 'auto' else st,
            scaling_factor=o['scale'])

    @property
    def struct(self):
        return 'array' if self.op in ('warray', 's2a') else 'site'

    def want(self):
        if self.op in ('wsite', 'append'):
            return self.recs
        if self.op in ('warray', 's2a'):
            return self.arrays
        if self.op == 'a2s':
            return bor.ref_array_to_site(self.d['ver'], self.d['ft'],
                                         self.arrays)
        sl = self.o['slice']
        first = next(iter(self.recs.values()))
        if 'slice_id' in first:
            sl = int(first['slice_id'])
        return bor.ref_convert(self.d['ver'], self.d['ft'], self.recs, sl,
                               self.src, self.o['scale'])

    def judge(self, dst=None):
        """None if the destination holds exactly the whole result."""
        dst = dst or self.dst
        if not os.path.exists(dst):
            return 'no output'
        try:
            if self.op in CONVERT:
                with open(dst, 'rb') as f:
                    got = R.decode(f.read())
                return bor.diff_convert(self.want(), got)
            return B.diff(bor.h5read(dst, self.struct), self.want(),
                          self.struct, d_fill(self.d) and
                          self.op in RESTRUCT)
        except Exception as e:
            return 'output unreadable: %s: %s' % (type(e).__name__,
                                                  str(e)[:200])
