import contextlib
import io

from vsim import bor
from vsim import seam
from vsim.runner import Check, Invalid
from . import bcommon as B
from . import bmut
from . import bops
from . import common as C
from .c03 import FOR_OP

REFUSALS = ['fields', 'fields', 'fields', 'fields', 'type', 'version',
            'struct', 'same record', 'array again',
            'other structure', 'records differ']


RREFUSALS = ['structure', 'type', 'rawrf', 'version', 'already', 'missing',
             'text', 'same', 'memory']


class C09(Check):
    id = 'C09'
    quick = (12000, 120)
    thorough = (150000, 700)
    state_rule = 'operation, storage call and error with its place, or ' \
        'kind of refusal with what was at the destination'
    real = B.REAL
    stub = B.STUB + ['operations with hard storage errors run in a forked '
                     'child, as the HDF5 library may end the process']
    technique = 'seeded writes, restructurings, conversions and reads with ' \
        'one storage error at each possible storage call, and writes with ' \
        'refused data over different destinations'
    note = 'Sampled error places and refusals; storage calls are counted ' \
        'on a run without faults first.'
    assumptions = ['errors are reported by the failing call itself',
                   'death of the process by a signal inside the HDF5 library '
                   'after a hard storage error counts as reported']

    def gen(self, rng, i, tier):
        if rng.random() < .5:
            op = rng.choice(bops.OPS + ['read', 'read'])
            o = bops.gen(rng, ['wsite', 'warray'] if op == 'read' else [op],
                         nmax=3)
            return {'mode': 'storage', 'o': o, 'read': op == 'read',
                    'hit': rng.getrandbits(16), 'fault': rng.getrandbits(8),
                    'sticky': rng.random() < .4,
                    'quota': rng.random() if rng.random() < .2 else None}
        if rng.random() < .12:
            why = rng.choice(RREFUSALS)
            return {'mode': 'rrefuse', 'why': why,
                    'd': B.gen_data(rng, ['rawrf'] if why in (
                        'rawrf', 'memory') else bor.RESTRUCTURABLE, nmax=3),
                    'src': rng.choice(['site', 'array']),
                    'comp': rng.choice(B.COMP),
                    'old': rng.choice(['none', 'none', 'text', 'same']),
                    'pick': rng.getrandbits(12)}
        d = B.gen_data(rng, nmax=3)
        d.pop('ppo', None)
        struct = 'site'
        if d['ft'] != 'rawrf' and rng.random() < .5:
            struct = 'array'
        why = rng.choice(REFUSALS)
        sc = {'mode': 'refuse', 'd': d, 'struct': struct, 'why': why,
              'how': rng.choice(['general', 'general', 'auto', 'specific']),
              'comp': rng.choice(B.COMP),
              'old': rng.choice(['none', 'none', 'text', 'records',
                                 'records', 'arrays', 'empty']),
              'pick': rng.getrandbits(12)}
        if why in ('array again', 'other structure') and \
                rng.random() < .4:
            sc['how'] = 'restructure'
        if why == 'fields':
            sc['muts'] = bmut.gen(rng, rng.choice([1, 1, 1, 2, 3]))
        return sc

    def nontrivial(self, sc):
        """a storage error or a refusal is included"""
        return True

    def run(self, sc, ctx):
        return getattr(self, sc['mode'])(sc, ctx)

    # ------------------------------------------------------------------
    def storage(self, sc, ctx):
        st = ctx.storage
        ref = bops.Op(sc['o'], st.path('src'), st.path('ref.out'))
        p = bops.Op(sc['o'], st.path('src'), st.path('dst.out'))
        ref.setup()
        p.setup(src=False)
        d = sc['o']['d']
        lab = 'read' if sc['read'] else p.op

        def one(q):
            if not sc['read']:
                q.do()
                return None
            rd = B.read(d, q.struct, q.dst, sc['o']['how'])
            return B.content(rd, q.struct)

        def child():
            if sc['read']:
                for q in (ref, p):
                    bor.h5write(q.dst, q.struct, q.want())
            with st.armed() as ops:
                try:
                    one(ref)
                except Exception as e:
                    return 'broken', C.exc_text(e), 0, {}, None
            plan = {}
            if sc['quota'] is not None and not sc['read']:
                n = sum(o.res for o in ops if o.kind == 'WRITE')
                plan['quota'] = int(sc['quota'] * n)
                what = 'quota'
            else:
                cand = [k for k, o in enumerate(ops) if o.kind in FOR_OP]
                k = cand[sc['hit'] % len(cand)]
                fs = FOR_OP[ops[k].kind]
                f = fs[sc['fault'] % len(fs)]
                plan['plan'] = [[k, f, sc['sticky'], 0]]
                what = '%s %s%s %d' % (f, ops[k].kind, ' sticky' if
                                       sc['sticky'] else '',
                                       8 * k // len(ops))
            with st.armed(plan) as ops2:
                try:
                    got = one(p)
                    out = 'ok', ''
                except Exception as e:
                    out = 'exc', C.exc_text(e)
            fired = sum(o.fault != 'NONE' for o in ops2)
            t = None
            if out[0] == 'ok':
                if sc['read']:
                    w = p.want()
                    if p.struct == 'site':
                        w = B.repaired(w)
                    t = B.diff(got, w, p.struct)
                else:
                    t = p.judge()
            return out + (fired, {what: 1}, t)
        res = seam.forked(child)
        if res[0] == 'harness':
            raise RuntimeError(res[1])
        if res[0] == 'timeout':
            return '%s: does not end after a storage error' % lab
        if res[0] == 'signal':
            ctx.count('process ended by a signal')
            ctx.state(lab, 'signal', sc['fault'], sc['hit'] % 8)
            return None
        status, text, fired, what, t = res[1]
        if status == 'broken':
            raise Invalid('fails without faults: ' + text)
        for w in what:
            ctx.state(lab, w, status, text[:30])
        if not fired:
            ctx.count('plan not reached')
        else:
            ctx.count('fault ' + list(what)[0].split()[0], fired)
        if t and not fired:
            raise Invalid('wrong without faults')
        if t:
            return '%s: returns normally after %s: %s' % (
                lab, list(what)[0], B.brief(t))
        ctx.count('storage error reported' if status == 'exc' else
                  'completed in spite of it')
        return None

    # ------------------------------------------------------------------
    def rrefuse(self, sc, ctx):
        """A restructuring that cannot be done."""
        from pydarnio import BorealisRestructure, BorealisRead, \
            BorealisWrite
        d, why, pick, st = sc['d'], sc['why'], sc['pick'], ctx.storage
        ft, site = d['ft'], sc['src'] == 'site'
        if (ft == 'rawrf') != (why in ('rawrf', 'memory')):
            raise Invalid('type')
        src, out = st.path('source'), st.path('out.h5')
        recs = B.records(d)
        if why == 'version':
            h = ['v9.9-3-gabcdef0', 'v0.1', 'v7', 'abcdef0'][pick % 4]
            for r in recs.values():
                r['borealis_git_hash'] = h
        if ft == 'rawrf':
            site = True
        data = recs if site else bor.ref_site_to_array(d['ver'], ft, recs)
        to = 'array' if site else 'site'
        if why == 'text':
            with open(src, 'wb') as f:
                f.write(b'this is text\n' * 50)
        elif why != 'missing':
            bor.h5write(src, 'site' if site else 'array', data,
                        text=pick & 1)
        if why == 'same':
            out = src
        elif sc['old'] == 'text':
            with open(out, 'wb') as f:
                f.write(b'older content')
        elif sc['old'] == 'same' and why not in ('text', 'missing'):
            bor.h5write(out, 'site' if site else 'array', data)
        if why == 'structure':
            to = ['Site', 'arrays', '', None, 'dmap'][pick % 5]
        elif why == 'already':
            to = 'site' if site else 'array'
        elif why == 'type':
            ft = ['foo', '', None, 'BFIQ', 'iqdat'][pick % 5]
        kw = {} if sc['comp'] == 'default' else \
            {'hdf5_compression': sc['comp']}
        before = st.snapshot()
        how = ''
        with st.armed(), contextlib.redirect_stdout(io.StringIO()):
            if why == 'memory':
                how = ['read', 'write', 'auto'][pick % 3]
                if how == 'write':
                    r = C.attempt(lambda: BorealisWrite(
                        out, B.site_arg(d, recs), ft, 'site').arrays)
                else:
                    r = C.attempt(lambda: BorealisRead(
                        src, ft, *['site'] if how == 'read' else []).arrays)
            else:
                r = C.attempt(lambda: BorealisRestructure(src, out, ft, to,
                                                          **kw))
        lab = 'restructuring (%s)' % why
        ctx.state('restructure', d['ver'], ft, why, sc['src'], sc['old'],
                  how, type(r[1]).__name__ if r[0] == 'exc' else '')
        if r[0] != 'exc' and why != 'already':
            return lab + ': accepted'
        after = st.snapshot()
        if how == 'write':
            before.pop('out.h5', None)
            after.pop('out.h5', None)
        if after != before:
            return lab + ': not done but changed %s' % [
                k for k in sorted(set(before) | set(after))
                if before.get(k) != after.get(k)]
        ctx.count('not restructured: ' + why)
        return None

    def refuse(self, sc, ctx):
        d, struct, why, old = sc['d'], sc['struct'], sc['why'], sc['old']
        if struct == 'array' and d['ft'] == 'rawrf':
            raise Invalid('type')
        st = ctx.storage
        path = st.path('out.h5')
        recs = B.records(d)
        data = recs
        if struct == 'array':
            data = bor.ref_site_to_array(d['ver'], d['ft'], recs)
        good = data
        want = None
        stated = struct
        if why == 'fields':
            data = {k: dict(v) if struct == 'site' else v
                    for k, v in data.items()}
            want = bmut.apply(d['ver'], d['ft'], struct, data, sc['muts'],
                              False)
            if not want:
                raise Invalid('no change')
        elif why == 'type':
            d = dict(d, ft=['foo', '', 'iqdat', 'RAWACF'][sc['pick'] % 4])
        elif why == 'version':
            h = ['v9.9-3-gabcdef0', 'v0.1', 'v7', 'abcdef0'][sc['pick'] % 4]
            for r in (data.values() if struct == 'site' else [data]):
                r['borealis_git_hash'] = h
        elif why == 'struct':
            stated = ['Site', 'arrays', '', 'both'][sc['pick'] % 4]
            if sc['how'] != 'general':
                raise Invalid('how')
        elif why == 'same record':
            if struct != 'site':
                raise Invalid('structure')
            old = 'records'
        elif why == 'array again':
            if struct != 'array':
                raise Invalid('structure')
            old = 'arrays'
        elif why == 'other structure':
            old = 'arrays' if struct == 'site' else 'records'
        elif why == 'records differ':
            if struct != 'array':
                raise Invalid('structure')
            un = [f for f in sorted(bor.unshared(d['ver'], d['ft']))
                  if f in data]
            f = un[sc['pick'] % len(un)]
            data[f] = data[f].repeat(2, axis=0)
        if old == 'text':
            with open(path, 'wb') as f:
                f.write(b'not an HDF5 file\n' * 40)
        elif old == 'empty':
            open(path, 'wb').close()
        elif old == 'records':
            names = sorted(recs)
            keep = {names[sc['pick'] % len(names)]:
                    recs[names[sc['pick'] % len(names)]]}
            if why != 'same record':
                keep = {'1' + k: v for k, v in keep.items()}
            bor.h5write(path, 'site', keep)
        elif old == 'arrays':
            if sc['d']['ft'] == 'rawrf':
                raise Invalid('old')
            bor.h5write(path, 'array', good if struct == 'array' else
                        bor.ref_site_to_array(d['ver'], sc['d']['ft'], recs))
        if sc['how'] == 'restructure':
            if d['ft'] not in bor.RESTRUCTURABLE or \
                    why not in ('array again', 'other structure'):
                raise Invalid('how')
            from pydarnio import BorealisRestructure
            bor.h5write(st.path('source'), 'array' if struct == 'site'
                        else 'site', recs if struct == 'array' else
                        bor.ref_site_to_array(d['ver'], d['ft'], recs))
        with open(st.path('other.h5'), 'wb') as f:
            f.write(b'bystander')
        before = st.snapshot()
        arg = B.site_arg(d, data) if struct == 'site' and why != 'fields' \
            else dict(data)
        try:
            with st.armed():
                if sc['how'] == 'restructure':
                    BorealisRestructure(st.path('source'), path, d['ft'],
                                        struct)
                elif sc['how'] == 'general':
                    B.write(d, stated, path, arg, 'general', sc['comp'])
                else:
                    B.write(d, struct, path, arg, sc['how'], sc['comp'])
            err = None
        except Exception as e:
            err = e
        lab = '%s %s' % (struct, why)
        ctx.state(d['ver'], d['ft'], lab, old, sc['how'],
                  type(err).__name__, str(want)[:200])
        if err is None:
            return '%s: accepted over %s (%s)' % (lab, old, want)
        after = st.snapshot()
        if after != before:
            ch = [k for k in set(before) | set(after)
                  if before.get(k) != after.get(k)]
            return '%s: refused but changed %s (was %s)' % (lab, ch, old)
        ctx.count('refused: ' + why)
        if why == 'fields' and sc['how'] != 'auto':
            t = bmut.judge_site(err, want) if struct == 'site' else \
                bmut.judge_array(err, d['ver'], d['ft'], data, want)
            if t:
                return '%s: refused but %s' % (lab, t)
        return None


CHECK = C09()
