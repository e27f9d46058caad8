import collections
import copy

import numpy as np

from vsim import dmapref as R
from vsim import seam
from vsim.runner import Check, Invalid
from . import common as C

HARD = ['EIO', 'ENOSPC', 'EDQUOT', 'EACCES', 'EMFILE', 'CLOSE_EIO']
EXC = {'MemoryError': MemoryError, 'KeyboardInterrupt': KeyboardInterrupt,
       'OSError': OSError}


def gen_writer(rng):
    kind = rng.choice(['generic'] * 2 + R.TYPES)
    if kind == 'generic':
        specs = [R.gen_record(rng, small=rng.random() < .7)
                 for _ in range(rng.choice([1, 2, 2, 3]))]
    else:
        specs = [R.gen_sd_record(rng, kind)
                 for _ in range(rng.choice([1, 1, 2, 3]))]
    return {'kind': kind, 'form': rng.choice(['dict', 'struct']),
            'specs': specs, 'share': rng.random() < .3,
            'hold': rng.choice(sorted(HOLD)),
            'late': kind == 'generic' and rng.random() < .2,
            'cls': 'generic' if kind == 'generic' and rng.random() < .7
            else 'sd'}


HOLD = {'list': list, 'deque': collections.deque, 'tuple': tuple}


def gen_action(rng, nw):
    op = rng.choice(['stream', 'stream', 'file', 'file', 'typed', 'typed',
                     'wrong', 'scribble', 'reuse', 'give'])
    a = {'w': rng.randrange(nw), 'op': op, 'path': rng.choice('abc'),
         'explicit': rng.random() < .7, 'as': rng.choice(R.TYPES)}
    k = rng.random()
    if k < .3:
        a['line'] = rng.getrandbits(20)
        a['exc'] = rng.choice(sorted(EXC))
    elif k < .6 and op != 'stream':
        f = rng.choice(HARD)
        a['plan'] = [[rng.randint(0, 4), f, rng.random() < .5, 0]]
        if f in ('EACCES', 'EMFILE'):
            a['plan'][0][0] = 0
    elif k < .7:
        a['quota'] = rng.randint(0, 3000)
    if rng.random() < .5:
        a['io'] = C.gen_rand_io(rng)
    return a


def refill(recs, specs):
    """Gives the arrays of records new values in place."""
    for rec, spec in zip(recs, specs):
        for f in spec:
            v = rec[f['n']]
            v = getattr(v, 'value', v)
            if 's' in f and 'sh' in f and \
                    isinstance(v, np.ndarray) and v.flags.writeable:
                f['s'] += 4
                v[...] = R.build_dict([f])[f['n']]


class C02(Check):
    id = 'C02'
    quick = (6000, 60)
    thorough = (200000, 700)
    state_rule = 'sequences of operations, their outcome and the fault that ' \
        'hit each'
    real = C.REAL_DMAP
    stub = C.STUB_IO + ['interrupts and failing allocations are raised at a '
                        'chosen line event of the library']
    technique = 'seeded histories of writes on several writers with storage ' \
        'errors, interrupts and failed allocations, decoded by an ' \
        'independent codec'
    note = 'Sampled histories of up to 9 writes on up to 3 writers.'
    assumptions = ['interrupts arrive between lines of the library']

    def gen(self, rng, i, tier):
        nw = rng.choice([1, 1, 2, 3])
        return {'old': rng.choice([0, 0, 50, 20000]),
                'writers': [gen_writer(rng) for _ in range(nw)],
                'acts': [gen_action(rng, nw)
                         for _ in range(rng.randint(2, 8))]}

    def nontrivial(self, sc):
        """at least two writes are made"""
        return len(sc['acts']) > 1

    def run(self, sc, ctx):
        import pydarnio
        st = ctx.storage
        ws = []
        prev = None
        for w in sc['writers']:
            if w['share'] and prev:
                kind, specs, recs = prev
            else:
                kind, specs = w['kind'], copy.deepcopy(w['specs'])
                C.require_conforming(kind, specs)
                if any(f.get('m') == 'L' and not R.list_ok(f)
                       for s in specs for f in s):
                    raise Invalid('list')
                recs = HOLD[w.get('hold', 'list')](C.build(specs, w['form']))
            prev = kind, specs, recs
            cl = pydarnio.SDarnWrite if w['cls'] == 'sd' \
                or kind != 'generic' else pydarnio.DmapWrite
            late = w['late'] and cl is pydarnio.DmapWrite
            ob = cl() if late else cl(recs)
            ws.append({'kind': kind, 'specs': specs, 'recs': recs, 'ob': ob,
                       'late': late, 'fp': R.fingerprint(recs), 'cl': cl,
                       'form': w['form']})
        for n in 'abc':
            if sc['old'] and n != 'c':
                with open(st.path(n), 'wb') as f:
                    f.write(b'\x01' * sc['old'])
        streams = []          # (object, content, owner)
        trail = []
        todo = list(sc['acts'])
        # once faults stop every writer can store its records again
        for i, w in enumerate(ws):
            todo.append({'w': i, 'op': 'stream', 'last': 1})
            todo.append({'w': i, 'op': 'file', 'path': 'a', 'explicit': True,
                         'last': 1})
            if w['kind'] != 'generic':
                todo.append({'w': i, 'op': 'typed', 'path': 'b',
                             'explicit': True, 'last': 1})
        for n, a in enumerate(todo):
            if a['w'] >= len(ws):
                raise Invalid('writer')
            w = ws[a['w']]
            ob = w['ob']
            op = a['op']
            kind = w['kind']
            if op == 'scribble':
                for s in streams:
                    if s[2] == a['w']:
                        s[0].extend(b'junk')
                        s[1] = bytes(s[0])
                continue
            if op == 'reuse':
                # the caller uses its arrays again for its next records
                refill(w['recs'], w['specs'])
                for x in ws:
                    if x['recs'] is w['recs']:
                        x['ob'] = x['cl']() if x['late'] else \
                            x['cl'](x['recs'])
                        x['fp'] = R.fingerprint(x['recs'])
                trail.append(op)
                continue
            if op == 'typed' and kind == 'generic':
                op = 'file'
            if op == 'give':
                # other records for the same writer
                w['specs'] = copy.deepcopy(w['specs'])
                for sp in w['specs']:
                    for f in sp:
                        if 's' in f:
                            f['s'] ^= 4
                if len(w['specs']) > 1 and a['w'] == 0:
                    del w['specs'][0]
                w['recs'] = C.build(w['specs'], w['form'])
                w['fp'] = R.fingerprint(w['recs'])
            if op == 'wrong':
                if w['cl'] is pydarnio.DmapWrite or a['as'] == kind:
                    continue
                kind = a['as']
            path = st.path(a.get('path', 'a'))

            def call(o):
                if op == 'give':
                    return o.write_dmap_stream(w['recs'])
                if op == 'stream' or w['late'] and not o.dmap_records:
                    if w['late']:
                        return o.write_dmap_stream(w['recs'])
                    return o.write_dmap_stream()
                name = 'write_dmap' if op == 'file' else R.WRITE[kind]
                if a.get('explicit') or not o.filename:
                    return getattr(o, name)(path)
                o.filename = path
                return getattr(o, name)()
            inj = None
            if 'line' in a:
                # how many line events the same call makes on its own
                cnt = seam.Injector()
                probe = w['cl']() if w['late'] else w['cl'](
                    C.build(w['specs'], 'dict'))
                keep = path
                path = st.path('probe')
                with cnt.on():
                    C.attempt(call, probe)
                path = keep
                inj = seam.Injector(1 + a['line'] % max(1, cnt.n),
                                    EXC.get(a['exc'], MemoryError))
            spec = {'plan': a.get('plan', []), 'quota': a.get('quota'),
                    'rand': a.get('io')}
            snap = st.snapshot()
            err = None
            ret = None
            with st.armed(spec) as ops:
                try:
                    if inj:
                        with inj.on():
                            ret = call(ob)
                    else:
                        ret = call(ob)
                except Exception as e:
                    err = e
                except KeyboardInterrupt as e:
                    err = e
            if inj:
                ctx.steps += inj.n
                if inj.fired:
                    ctx.count('fault ' + a['exc'])
            trail.append((op, type(err).__name__ if err else 'ok',
                          tuple(sorted({o.fault for o in ops})),
                          inj.fired if inj else None))
            where = 'write %d (%s of writer %d)' % (n, op, a['w'])
            if err is None:
                stored = ret if op in ('stream', 'give') or \
                    ret is not None else None
                if stored is None:
                    with open(path, 'rb') as f:
                        stored = f.read()
                d = R.check_bytes(w['specs'], bytes(stored))
                if d:
                    return '%s does not store its records: %s' % (where, d)
                if ret is not None:
                    streams.append([ret, bytes(ret), a['w']])
                ctx.count('writes that succeeded')
            else:
                ctx.count('writes that failed')
                hit = inj and inj.fired or any(
                    o.fault not in ('NONE', 'EINTR', 'SHORT') for o in ops)
                if op == 'give':        # it may hold either
                    w['ob'] = w['cl']() if w['late'] else w['cl'](w['recs'])
                if not hit and op != 'wrong':
                    return '%s fails without a fault: %s' % (
                        where, C.exc_text(err))
            for i, x in enumerate(ws):
                if R.fingerprint(x['recs']) != x['fp']:
                    return '%s changed the records given to writer %d' % (
                        where, i)
            for s in streams:
                if bytes(s[0]) != s[1]:
                    return '%s changed bytes returned earlier' % where
            # the stream API itself touches no file
            if op in ('stream', 'give') and st.snapshot() != snap:
                return '%s changed files' % where
            snap2 = st.snapshot()
            for k in set(snap) | set(snap2):
                if k != a.get('path', 'a') and k != 'probe' and \
                        snap.get(k) != snap2.get(k):
                    return '%s changed another file' % where
        ctx.state(tuple(trail))
        return None


CHECK = C02()
