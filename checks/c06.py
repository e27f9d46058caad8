from vsim import dmapref as R
from vsim.runner import Check, Invalid
from . import common as C
from .c03 import judge_field_error
from .c05 import apply, gen_op


def gen_mut(rng, n):
    return [rng.randrange(n), rng.choice(['drop', 'drop', 'keep', 'add',
                                          'type', 'group', 'rename',
                                          'shape']),
            rng.getrandbits(16), rng.choice([1, 1, 1, 2, 3])]


def mutate(specs, ft, mut):
    """Changes fields of one record; may or may not break conformance."""
    r, how, pick, cnt = mut
    s = specs[r % len(specs)]
    every = R.all_fields(ft)
    groups, opt = R.groups(ft)
    have = {f['n'] for f in s}
    for j in range(cnt):
        if how == 'drop' and s:
            k = (pick + j * 7) % len(s)
            del s[k]
        elif how == 'keep':
            # one field of a group, or of the optional ones, which was absent
            absent = [n for n in every if n not in {f['n'] for f in s}]
            if absent:
                n = absent[(pick + j * 7) % len(absent)]
                t = every[n]
                s.append({'n': n, 't': t, 'v': 'x' if t == 's' else 1})
        elif how == 'add':
            other = [n for t in R.TYPES for n in R.all_fields(t)
                     if n not in every] + ['extra', 'zz.new', 'é', 'V', '']
            n = other[(pick + j * 13) % len(other)]
            if pick % 3 and have:
                # nearly the name of a field
                n = sorted(every)[pick // 3 % len(every)]
                n = [n.swapcase(), n.upper(), n.title(), ' ' + n, n + ' ',
                     '_' + n, n.replace('.', '_') + '_', n + n[-1:],
                     n.replace('.', '')][pick // 5 % 9]
                if n in every:
                    continue
            if n not in {f['n'] for f in s}:
                s.insert(pick % (len(s) + 1), {'n': n, 't': 'i', 'v': 5})
        elif how == 'type' and s:
            k = (pick + j * 11) % len(s)
            f = dict(s[k])
            cand = [t for t in 'chifdqBHIQ' + ('' if R.is_array(f) else 's')
                    if t != f['t']]
            f['t'] = cand[pick // 7 % len(cand)]
            if not R.is_array(f):
                f['v'] = 'x' if f['t'] == 's' else 1
            s[k] = f
        elif how == 'group':
            g = groups[pick % len(groups)]
            if set(g) & have:
                s[:] = [f for f in s if f['n'] not in g]
            else:
                for n, t in g.items():
                    s.append({'n': n, 't': t, 'v': 'x' if t == 's' else 1})
            break
        elif how == 'rename' and s:
            k = (pick + j * 5) % len(s)
            n = s[k]['n']
            n = [n.upper(), n + ' ', n[:-1] or 'q', n + '.x'][pick // 3 % 4]
            if n not in {f['n'] for f in s}:
                s[k] = dict(s[k], n=n)
        elif how == 'shape' and s:
            # scalar or array of the same type: both are accepted
            k = (pick + j * 3) % len(s)
            f = dict(s[k])
            if R.is_array(f):
                f.pop('sh')
                f['v'] = 1
            elif f['t'] != 's':
                f.pop('v')
                f.update(sh=[2], s=0, m='C')
            s[k] = f


class C06(Check):
    id = 'C06'
    quick = (8000, 60)
    thorough = (400000, 700)
    state_rule = 'file type, reader type, kinds of changes to the fields, ' \
        'first offending record and what is wrong with it'
    real = C.REAL_DMAP
    stub = C.STUB_IO + ['storage at rest: damaged by the simulator']
    technique = 'seeded field faults per record and damage at rest, typed ' \
        'reads (also after other reads) against format tables kept as data'
    note = 'The field tables were transcribed once from the formats and are ' \
        'kept apart from the code.'
    assumptions = ['the transcribed field tables are the intended formats']

    def gen(self, rng, i, tier):
        ft = rng.choice(R.TYPES)
        n = rng.choice([1, 1, 2, 3, 5])
        specs = [R.gen_sd_record(rng, ft) for _ in range(n)]
        for s in specs:
            for f in s:
                f.pop('m', None)
        if n > 1 and rng.random() < .3:
            specs[1:] = [specs[0]] * (n - 1)
        if rng.random() < .04:
            n = rng.choice([10, 17, 33, 70, 140, 300])
            specs = (specs * n)[:n]
        k = rng.choice([0, 1, 1, 1, 2, 3])
        return {'ft': ft, 'specs': specs,
                'muts': [gen_mut(rng, n) for _ in range(k)],
                'damage': [gen_op(rng)] if rng.random() < .1 else [],
                'src': rng.choice(['stream', 'stream', 'file']),
                'io': C.gen_rand_io(rng) if rng.random() < .3 else None,
                'reads': [rng.choice([ft, ft, ft, 'generic'] + R.TYPES)
                          for _ in range(rng.choice([1, 1, 2, 3]))]}

    def nontrivial(self, sc):
        """at least one typed read is made"""
        return any(h != 'generic' for h in sc['reads'])

    def run(self, sc, ctx):
        specs = [[dict(f) for f in s] for s in sc['specs']]
        ft = sc['ft']
        R.require_valid(specs)
        for m in sc['muts']:
            mutate(specs, ft, m)
        for s in specs:
            names = [f['n'] for f in s]
            if len(set(names)) != len(names) or \
                    all(R.is_array(f) for f in s) or \
                    not any(R.is_array(f) for f in s) or \
                    any(f.get('sh') == [0] and f['n'] != 'slist' for f in s):
                raise Invalid('record')
        layout = []
        data = R.encode(specs, layout)
        for op in sc['damage']:
            data = apply(data, layout, op)
        try:
            recs = R.decode(data)
        except R.Bad:
            recs = None
        st = ctx.storage
        stream = sc['src'] == 'stream'
        src = data
        if not stream:
            src = st.path('f')
            with open(src, 'wb') as f:
                f.write(data)
        io = {'rand': sc['io']} if sc['io'] else {}
        with st.armed(io):
            out = C.attempt(C.reader, 'sd', src, stream)
        if out[0] == 'exc':
            if recs:
                return 'a reader cannot be made: ' + C.exc_text(out[1])
            return None
        rd = out[1]
        hist = []
        for how in sc['reads']:
            with st.armed(io):
                out = C.attempt(C.read_with, rd, how)
            err = out[1] if out[0] == 'exc' else None
            where = 'read as %s after %s' % (how, hist)
            hist.append(how)
            if recs is None:
                if err is None and how != 'generic':
                    return '%s: damaged data accepted' % where
                continue
            if how == 'generic':
                if err is not None:
                    if sc['damage']:
                        continue
                    return '%s: %s' % (where, C.exc_text(err))
                d = R.diff_read(recs, out[1])
                if d:
                    return '%s: %s' % (where, d)
                continue
            bad = None
            for r, rec in enumerate(recs):
                m, e, w = R.faults_of(how, {n: x[1] for n, x in rec.items()})
                if m or e or w:
                    bad = r, m, e, w
                    break
            ctx.state(how, ft, tuple(sorted({m[1] for m in sc['muts']})),
                      bad and (bad[0], [len(x) for x in bad[1:]]),
                      bool(sc['damage']), len(hist),
                      type(err).__name__)
            if bad is None:
                if err is not None:
                    if sc['damage']:
                        continue      # may be refused for what C05 covers
                    return '%s: conforming records are refused: %s' % (
                        where, C.exc_text(err))
                d = R.diff_read(recs, out[1])
                if d:
                    return '%s: %s' % (where, d)
                ctx.count('accepted')
                continue
            if err is None:
                return '%s: record %d does not conform (missing %s, ' \
                    'unknown %s, mistyped %s) but is accepted' % (
                        where, bad[0], sorted(bad[1])[:3],
                        sorted(bad[2])[:3], sorted(bad[3])[:3])
            ctx.count('refused')
            if sc['damage']:
                if type(err).__name__ in (
                        'SuperDARNFieldMissingError',
                        'SuperDARNExtraFieldError',
                        'SuperDARNDataFormatTypeError'):
                    v = judge_field_error(err, *bad, order=True)
                    if v:
                        return '%s: %s' % (where, v)
                continue
            v = judge_field_error(err, *bad, order=True)
            if v:
                return '%s: %s' % (where, v)
        return None


CHECK = C06()
