import os

from vsim import bor
from vsim import dmapref as R
from vsim import seam
from vsim.runner import Check, Invalid
from . import bcommon as B
from . import bops
from . import common as C


class C10(Check):
    id = 'C10'
    quick = (3000, 150)
    thorough = (60000, 700)
    state_rule = 'operation, type, version, compression, reader, place of ' \
        'the crash among the storage operations (eighths), torn or not, ' \
        'and what reading gave'
    real = B.REAL
    stub = B.STUB + ['crash: the storage operations up to a point, the last '
                     'one possibly torn; what is left is read in a forked '
                     'child']
    technique = 'seeded crash points over the recorded storage operations ' \
        'of writes, appends, restructurings and conversions, the rest read ' \
        'back and compared with the whole result'
    note = 'About 14 crash points per operation, half of them torn.'
    assumptions = ['storage keeps the order of writes']

    def gen(self, rng, i, tier):
        o = bops.gen(rng, nmax=rng.choice([3, 5]))
        o['d']['n'] = min(o['d']['n'], 14)
        return {'o': o, 'how': rng.choice(['general', 'general', 'auto',
                                           'specific']),
                'io': C.gen_rand_io(rng) if rng.random() < .25 else None,
                'points': [rng.random() for _ in range(10)],
                'late': [rng.randint(1, 12) for _ in range(4)],
                'torn': [rng.random() for _ in range(2)],
                'old': rng.choice(['none', 'none', 'none', 'text'])}

    def nontrivial(self, sc):
        """a crash is included"""
        return True

    def run(self, sc, ctx):
        st = ctx.storage
        p = bops.Op(sc['o'], st.path('src'), st.path('out'))
        p.setup()
        d = p.d
        io = {'rand': sc['io']} if sc['io'] else {}
        conv = p.op in bops.CONVERT
        if conv and sc['old'] == 'text':
            with open(p.dst, 'wb') as f:
                f.write(b'\x01older content ' * 300)
        initial = None
        if os.path.exists(p.dst):
            with open(p.dst, 'rb') as f:
                initial = f.read()
        before = st.snapshot()
        src = None
        if p.src:
            with open(p.src, 'rb') as f:
                src = f.read()
        with st.armed(io, keep=True) as ops:
            try:
                p.do()
            except Exception as e:
                raise Invalid('fails without faults: ' + C.exc_text(e))
        if p.judge():
            raise Invalid('wrong without a crash')
        lab = '%s %s' % (p.op, d['ft'])
        for o in ops:
            if p.src and o.path == 'src' and (
                    o.kind in ('WRITE', 'TRUNC', 'UNLINK', 'RENAME')):
                return '%s: the source is changed (%s)' % (lab, o.kind)
        with open(p.dst, 'rb') as f:
            final = f.read()
        n = len(ops)
        pts = {int(x * n) for x in sc['points']} | \
            {max(0, n - x) for x in sc['late']} | {n}
        states = []
        seen = {initial}
        for at, k, c in seam.crash_states(
                ops, 'out', initial, pts,
                lambda i, ln: {int(x * ln) for x in sc['torn']} - {0}):
            if at == n and not k and c != final:
                raise RuntimeError('crash states do not lead to the result')
            if c in seen:
                continue
            seen.add(c)
            if c is not None:
                states.append((at, k, c))
        want = p.want()
        ok = {}
        if p.struct == 'site' and not conv:
            ok = dict(want)
            if p.op == 'wsite':
                ok = dict(B.repaired(want))

        def judge(path, whole):
            """(kind, text): what reading the file gives."""
            try:
                if conv:
                    from pydarnio import SDarnRead
                    rd = SDarnRead(path)
                    got = rd.read_rawacf() if d['ft'] == 'rawacf' else \
                        rd.read_iqdat()
                    with open(path, 'rb') as f:
                        dec = R.decode(f.read())
                    if len(dec) != len(got):
                        return 'bad', '%d of %d records' % (len(got),
                                                            len(dec))
                    t = bor.diff_convert(want[:len(dec)], dec)
                    full = len(dec) == len(want)
                else:
                    rd = B.read(d, p.struct, path, sc['how'])
                    got = B.content(rd, p.struct)
                    if p.struct == 'array':
                        t = B.diff(got, want, 'array')
                        full = True
                    else:
                        extra = set(got) - set(ok)
                        if extra:
                            return 'bad', 'invented records %s' % sorted(
                                extra)
                        t = B.diff(got, {k: ok[k] for k in sorted(got)},
                                   'site', d.get('ppo') == 'none')
                        full = set(got) == set(ok)
                        if not got:
                            return 'none', ''
            except Exception as e:
                if whole:
                    return 'bad', 'refused: ' + C.exc_text(e)
                return 'refused', type(e).__name__
            if t:
                return 'bad', t
            if whole and not full:
                return 'bad', 'incomplete'
            return ('all' if full else 'part'), ''

        cut = st.path('cut')

        def several(lst):
            out = []
            for at, k, c in lst:
                with open(cut, 'wb') as f:
                    f.write(c)
                out.append(judge(cut, c == final))
            return out
        res = seam.forked(lambda: several(states), cpu=40)
        if res[0] == 'harness':
            raise RuntimeError(res[1])
        if res[0] == 'ok':
            results = res[1]
        else:
            results = []
            for s in states:
                r = seam.forked(lambda: several([s]), cpu=10)
                if r[0] == 'harness':
                    raise RuntimeError(r[1])
                if r[0] == 'timeout':
                    return '%s: reading does not end after a crash at ' \
                        'operation %d of %d (+%d bytes)' % (lab, s[0], n,
                                                            s[1])
                if r[0] == 'signal':
                    ctx.count('reader ended by a signal')
                    results.append(('refused', 'signal'))
                else:
                    results.append(r[1][0])
        for (at, k, c), (kind, text) in zip(states, results):
            ctx.count('fault torn write' if k else 'fault crash')
            ctx.count('read after the crash: ' + kind)
            ctx.state(p.op, d['ft'], d['ver'], str(p.o['comp']), sc['how'],
                      8 * at // n, bool(k), kind, text[:30])
            if kind == 'bad':
                return '%s: crash at operation %d of %d (+%d bytes): %s' % (
                    lab, at, n, k, B.brief(text))
        if src is not None:
            with open(p.src, 'rb') as f:
                if f.read() != src:
                    return '%s: the source changed' % lab
        # start again with another destination, next to all that is left
        at = states[len(states) // 2][0] if states else n
        seam.crash_files(ops, at, before).store(st.dir)
        q = bops.Op(sc['o'], st.path('src'), st.path('second'))
        if p.op != 'append':
            try:
                with st.armed(io):
                    q.do()
                ctx.count('repeated after a crash')
            except Exception as e:
                return '%s: fails when repeated after a crash: %s' % (
                    lab, C.exc_text(e))
            t = q.judge()
            if t:
                return '%s: wrong when repeated after a crash: %s' % (
                    lab, B.brief(t))
        ctx.steps += n
        return None


CHECK = C10()
