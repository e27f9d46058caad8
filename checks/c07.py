import os

from vsim import dmapref as R
from vsim import seam
from vsim.runner import Check, Invalid
from . import common as C
from .c02 import EXC
from .c05 import apply, gen_op
from .c06 import gen_mut, mutate


def outcome(out):
    """A comparable description of what a read call gave."""
    if out[0] == 'ok':
        return 'ok', R.fingerprint(list(out[1]))
    e = out[1]
    return ('exc', type(e).__name__, str(e),
            getattr(e, 'record_number', None),
            R.fingerprint(sorted(getattr(e, 'fields', None) or [])),
            R.fingerprint(sorted(getattr(e, 'incorrect_params', None) or [])))


class C07(Check):
    id = 'C07'
    quick = (6000, 60)
    thorough = (200000, 700)
    state_rule = 'sequences of reads with their outcome, the place of the ' \
        'interruption and what happened to the file'
    real = C.REAL_DMAP
    stub = C.STUB_IO + ['interrupts and failing allocations are raised at a '
                        'chosen line event of the library']
    technique = 'seeded histories of reads on shared readers, interrupted ' \
        'at chosen points, every outcome compared with a fresh reader\'s'
    note = 'Sampled histories of up to 8 reads on up to 2 readers.'
    assumptions = ['interrupts arrive between lines of the library',
                   'the caller does not modify returned arrays in place']

    def gen(self, rng, i, tier):
        files = []
        for _ in range(rng.choice([1, 1, 2])):
            ft = rng.choice(R.TYPES + ['generic'] * 2)
            n = rng.choice([1, 2, 2, 3])
            if ft == 'generic':
                specs = [R.gen_record(rng, small=True) for _ in range(n)]
            else:
                specs = [R.gen_sd_record(rng, ft) for _ in range(n)]
            if rng.random() < .02:
                specs = specs[:2] * rng.choice([6, 17, 35, 70])
                n = len(specs)
            for s in specs:
                for f in s:
                    f.pop('m', None)
            files.append({
                'ft': ft, 'specs': specs,
                'muts': [gen_mut(rng, n)] if ft != 'generic' and
                rng.random() < .35 else [],
                'damage': [gen_op(rng)] if rng.random() < .3 else [],
                'src': rng.choice(['file', 'file', 'bytes', 'bytearray']),
                'cls': rng.choice(['sd', 'sd', 'sd', 'generic'])})
        acts = []
        for _ in range(rng.randint(2, 7)):
            k = rng.randrange(len(files))
            ft = files[k]['ft']
            a = {'r': k, 'do': 'read',
                 'how': rng.choice([ft, ft, 'generic'] + R.TYPES)}
            x = rng.random()
            if x < .35:
                a['line'] = rng.getrandbits(24)
                a['exc'] = rng.choice(sorted(EXC))
            elif x < .45:
                a = {'r': k, 'do': rng.choice(['remove', 'replace', 'check',
                                               'clobber'])}
            acts.append(a)
        return {'files': files, 'acts': acts,
                'io': C.gen_rand_io(rng) if rng.random() < .3 else None}

    def nontrivial(self, sc):
        """at least two reads are made on one reader"""
        return sum(a['do'] == 'read' for a in sc['acts']) > 1

    def run(self, sc, ctx):
        import pydarnio
        st = ctx.storage
        rs = []
        io = {'rand': sc['io']} if sc['io'] else {}
        for k, f in enumerate(sc['files']):
            specs = [[dict(x) for x in s] for s in f['specs']]
            R.require_valid(specs)
            for m in f['muts']:
                mutate(specs, f['ft'], m)
            layout = []
            try:
                data = R.encode(specs, layout)
            except Exception:
                raise Invalid('mutation')
            for op in f['damage']:
                data = apply(data, layout, op)
            if not data:
                raise Invalid('empty')
            src = data
            if f['src'] == 'bytearray':
                src = bytearray(data)
            elif f['src'] == 'file':
                src = st.path('f%d' % k)
                with open(src, 'wb') as fh:
                    fh.write(data)
            cl = pydarnio.SDarnRead if f['cls'] == 'sd' else pydarnio.DmapRead
            mk = (lambda cl=cl, src=src, s=f['src'] != 'file': cl(src, s))
            hows = {a['how'] for a in sc['acts'] if a['do'] == 'read'
                    and a['r'] == k} | {'generic'}
            if f['cls'] == 'generic':
                hows = {'generic'}
            want = {}
            lines = {}
            for h in sorted(hows):
                with st.armed(io):
                    rd = mk()
                inj = seam.Injector()
                with inj.on():
                    out = C.attempt(C.read_with, rd, h)
                want[h] = outcome(out)
                lines[h] = inj.n
            rs.append({'rd': mk(), 'want': want, 'lines': lines,
                       'src': src, 'data': data, 'now': data, 'f': f})
        held = []
        trail = []
        acts = list(sc['acts'])
        for k, r in enumerate(rs):
            for h in sorted(r['want']):
                acts.append({'r': k, 'do': 'read', 'how': h})
        for n, a in enumerate(acts):
            if a['r'] >= len(rs):
                raise Invalid('reader')
            r = rs[a['r']]
            do = a['do']
            trail.append(do)
            isfile = r['f']['src'] == 'file'
            if do in ('remove', 'replace', 'clobber'):
                if isfile and os.path.exists(r['src']):
                    if do == 'remove':
                        os.unlink(r['src'])
                    elif do == 'replace':
                        with open(r['src'] + '.n', 'wb') as fh:
                            fh.write(b'something else')
                        os.replace(r['src'] + '.n', r['src'])
                    else:
                        with open(r['src'], 'r+b') as fh:
                            fh.write(b'\xff' * len(r['data']))
                elif r['f']['src'] == 'bytearray':
                    # the owner of the stream uses its buffer again
                    try:
                        if do == 'remove':
                            r['src'].clear()
                        elif do == 'replace':
                            r['src'][:] = b'something else'
                        else:
                            r['src'][:] = b'\xff' * len(r['src'])
                    except BufferError as e:
                        return 'the stream cannot be used again: %s' % e
                    r['now'] = bytes(r['src'])
                continue
            if do == 'check':
                if hasattr(r['rd'], 'test_initial_data_integrity'):
                    C.attempt(r['rd'].test_initial_data_integrity)
                continue
            h = a['how']
            if h not in r['want']:
                h = 'generic'
            inj = None
            if 'line' in a and r['lines'][h]:
                inj = seam.Injector(1 + a['line'] % r['lines'][h],
                                    EXC.get(a['exc'], MemoryError))
            try:
                with st.armed(io):
                    if inj:
                        with inj.on():
                            out = C.attempt(C.read_with, r['rd'], h)
                    else:
                        out = C.attempt(C.read_with, r['rd'], h)
            except KeyboardInterrupt as e:
                out = 'exc', e
            got = outcome(out)
            where = 'read %d (as %s, reader %d)' % (n, h, a['r'])
            if inj and inj.fired:
                ctx.count('fault ' + a['exc'])
                ctx.steps += inj.n
                trail.append(inj.fired)
                if out[0] == 'ok' and got != r['want'][h]:
                    return '%s: interrupted but returns something else' % \
                        where
            else:
                trail.append((h, got[0], got[1] if got[0] == 'exc' else ''))
                if got != r['want'][h]:
                    return '%s: %s, a fresh reader gives %s' % (
                        where, brief(got), brief(r['want'][h]))
                if out[0] == 'ok':
                    k = C.attempt(kept, r['rd'], r['data'], got)
                    k = C.exc_text(k[1]) if k[0] == 'exc' else k[1]
                    if k:
                        return '%s: records of the reader: %s' % (where, k)
                ctx.count('reads compared')
            if out[0] == 'ok':
                held.append((n, out[1], got))
            for m, x, fp in held:
                if ('ok', R.fingerprint(list(x))) != fp:
                    return 'read %d changed what read %d returned' % (n, m)
            for q in rs:
                if q['f']['src'] == 'bytearray' and \
                        bytes(q['src']) != q['now']:
                    return '%s: the stream was modified' % where
        ctx.state(tuple(trail))
        return None


def kept(rd, data, got):
    """The reader's own records are those of this read."""
    if ('ok', R.fingerprint(list(rd.get_records))) != got:
        return 'not those just read'
    try:
        exp = R.decode(data)
    except R.Bad:
        return None
    return R.diff_structs(exp, rd.get_dmap_records)


def brief(o):
    if o[0] == 'ok':
        return '%d records %08x' % (len(o[1][2]), hash(o) & 0xffffffff)
    return '%s: %s' % (o[1], o[2][:150])


CHECK = C07()
