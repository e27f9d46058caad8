from vsim import dmapref as R
from vsim import seam
from vsim.runner import Check, Invalid
from . import common as C


class C04(Check):
    id = 'C04'
    quick = (4000, 70)
    thorough = (200000, 700)
    state_rule = 'kind of file, reader and source, with the kind of place ' \
        'the data ends at and the number of whole records before it'
    real = C.REAL_DMAP
    stub = C.STUB_IO + ['crash: the writer\'s storage operations up to a ' \
                        'point, the last one possibly torn']
    technique = 'seeded crash points over the recorded storage operations ' \
        'of a write, and byte prefixes, read back and compared with the ' \
        'whole records'
    note = 'Every record boundary and a seeded choice of the other ' \
        'lengths of each file.'
    assumptions = ['storage keeps the order of writes; what it loses at '
                   'the end of a file is missing or reads as zeros']

    def gen(self, rng, i, tier):
        kind = rng.choice(['generic'] * 3 + R.TYPES)
        big = rng.random() < .3
        n = rng.choice([1, 2, 2, 3, 3, 5])

        def specs(n, big):
            if kind == 'generic':
                return [R.gen_record(rng, big, small=rng.random() < .6)
                        for _ in range(n)]
            return [R.gen_sd_record(rng, kind, big) for _ in range(n)]
        many = specs(n, big)
        if rng.random() < .02:
            many = specs(2, False) * rng.choice([6, 17, 35, 70])
        sc = {'kind': kind, 'specs': many, 'same': rng.random() < .2,
              'old': specs(rng.choice([1, 3]), big)
              if rng.random() < .5 else None,
              'junk': rng.random() < .2,
              'cuts': [rng.random() for _ in range(12)],
              'near': [[rng.getrandbits(16), rng.randint(-2, 3)]
                       for _ in range(14)],
              'zeros': [rng.getrandbits(16) for _ in range(6)],
              'torn': [rng.random() for _ in range(4)],
              'io': C.gen_rand_io(rng) if rng.random() < .4 else None,
              'reader': rng.choice(['generic', 'typed', 'both'])}
        return sc

    def nontrivial(self, sc):
        """a record is cut"""
        return True

    def run(self, sc, ctx):
        kind, specs = sc['kind'], [list(s) for s in sc['specs']]
        if sc['same']:
            specs = [specs[0]] * len(specs)
        C.require_conforming(kind, specs)
        if sc['old']:
            C.require_conforming(kind, sc['old'])
        for s in specs + (sc['old'] or []):
            if any(f.get('m') == 'L' and not R.list_ok(f) for f in s):
                raise Invalid('list')
        st = ctx.storage
        path = st.path('out')
        old = None
        if sc['old']:
            old = R.encode(sc['old'])
            if sc['junk']:
                old = b'\x05' * 3000
            with open(path, 'wb') as f:
                f.write(old)
        recs = C.build(specs, 'dict')
        io = {'rand': sc['io']} if sc['io'] else {}
        before = st.snapshot()
        with st.armed(io, keep=True) as ops:
            out = C.attempt(C.write, kind, recs, 'file', path)
        if out[0] == 'exc':
            return 'the write fails: ' + C.exc_text(out[1])
        with open(path, 'rb') as f:
            data = f.read()
        if R.check_bytes(specs, data):
            return 'stored bytes: ' + R.check_bytes(specs, data)
        # record boundaries of what was really written
        bounds, p = [0], 0
        while p < len(data):
            p += int.from_bytes(data[p + 4:p + 8], 'little')
            bounds.append(p)
        if len(bounds) != len(specs) + 1 or bounds[-1] != len(data):
            return 'block lengths do not cover the file'
        exp = [R.expected(s) for s in specs]
        oldexp = None
        if sc['old'] and not sc['junk']:
            oldexp = [R.expected(s) for s in sc['old']]
        layout = []
        R.encode(specs, layout)
        cuts = {}
        some = bounds
        if len(bounds) > 12:
            some = sorted({bounds[x % len(bounds)] for x, _ in sc['near']}
                          | {bounds[-1]})
        for b in some:
            for d in (-1, 0, 1, 4, 15, 16, 17):
                cuts[b + d] = 'near boundary' if d else 'boundary'
        for x, d in sc['near']:
            o, size, what = layout[x % len(layout)]
            cuts.setdefault(o + d, what.split()[0])
        for x in sc['cuts']:
            cuts.setdefault(int(x * len(data)), 'any')
        hows = {'generic': ['generic'], 'typed': [kind],
                'both': ['generic', kind]}[sc['reader']]
        hows = sorted(set(hows))

        def judge(content, how, out, label):
            """Judges the outcome of reading `content`."""
            if content is None:
                return None
            whole = content == data[:len(content)]
            if not whole and old is not None and content == old:
                if oldexp is None:
                    return None
                if out[0] == 'exc':
                    return 'the older file is refused: ' + \
                        C.exc_text(out[1])
                return R.diff_read(oldexp, out[1][1])
            if not whole:
                # a crash in the middle of something else than an append
                if out[0] == 'exc':
                    return None
                got = out[1][1]
                for n in range(len(exp), -1, -1):
                    if R.diff_read(exp[:n], got) is None:
                        return None
                if oldexp is not None and R.diff_read(oldexp, got) is None:
                    return None
                return 'wrong records from what a crash left (%s)' % label
            k = sum(1 for b in bounds if 0 < b <= len(content))
            at = len(content) in bounds
            ctx.state(kind, how, label, at, k, len(specs),
                      type(out[1]).__name__)
            if not content:
                if out[0] == 'ok':
                    return 'empty data is not reported'
                if type(out[1]).__name__ != 'EmptyFileError':
                    return 'empty data is reported as %s' % C.exc_text(out[1])
                return None
            if not at:
                if out[0] == 'ok':
                    return 'data that ends inside record %d (%s) is ' \
                        'accepted' % (k, label)
                return None
            if out[0] == 'exc':
                return 'data of %d whole records is refused: %s' % (
                    k, C.exc_text(out[1]))
            d = R.diff_read(exp[:k], out[1][1])
            if d:
                return 'data of %d whole records is read wrong: %s' % (k, d)
            return None

        f2 = st.path('cut')
        for n in sorted(cuts):
            if not 0 <= n <= len(data):
                continue
            c = data[:n]
            for how in hows:
                label = cuts[n]
                out = C.attempt(C.read_all, how, c, True)
                d = judge(c, how, out, label)
                if d:
                    return '%s (stream cut at %d of %d, read as %s)' % (
                        d, n, len(data), how)
            if c:
                rd = C.reader(hows[-1], c, True)
                out = C.attempt(rd.test_initial_data_integrity)
                if (out[0] == 'ok') != (n in bounds):
                    return 'the integrity check %s a stream cut at %d of ' \
                        '%d' % ('accepts' if out[0] == 'ok' else 'refuses',
                                n, len(data))
                out = C.attempt(lambda: (rd, C.read_with(rd, hows[-1])))
                d = judge(c, hows[-1], out, label)
                if d:
                    return '%s (stream cut at %d of %d, read as %s after ' \
                        'the integrity check)' % (d, n, len(data), hows[-1])
            if n % 3 == 0 or cuts[n] == 'boundary':
                with open(f2, 'wb') as f:
                    f.write(c)
                with st.armed(io):
                    out = C.attempt(C.read_all, hows[-1], f2, False)
                d = judge(c, hows[-1], out, label)
                if d:
                    return '%s (file cut at %d of %d, read as %s)' % (
                        d, n, len(data), hows[-1])
            ctx.count('cuts read')
        # a crash that kept the size of the file but not the data at its end
        for x, f in zip(sc.get('zeros', []), sc['cuts']):
            n = bounds[x % len(bounds)]
            if x & 1024:
                n = min(layout[x % len(layout)][0], len(data))
            size = [1, 4, 15, 16, 17, 64, 512 - n % 512, 4096 - n % 4096,
                    len(data) - n, int(f * (len(data) - n))][(x >> 11) % 10]
            c = data[:n] + bytes(size)
            if not size or c[:len(data)] == data[:len(c)] and \
                    len(c) <= len(data) or \
                    n not in bounds and len(c) in bounds:
                continue        # nothing is lost, or nobody can tell
            if n not in bounds and len(c) > len(data):
                c = c[:len(data) - 1]
            ctx.count('fault zero tail')
            for how in hows:
                out = C.attempt(C.read_all, how, c, True)
                if out[0] == 'ok':
                    return 'data whose last %d bytes are zeros from %d of ' \
                        '%d on are accepted (stream, read as %s)' % (
                            len(c) - n, n, len(data), how)
            out = C.attempt(C.reader(hows[-1], c, True)
                            .test_initial_data_integrity)
            if out[0] == 'ok':
                return 'the integrity check accepts data whose last %d ' \
                    'bytes are zeros from %d of %d on' % (
                        len(c) - n, n, len(data))
            with open(f2, 'wb') as f:
                f.write(c)
            with st.armed(io):
                out = C.attempt(C.read_all, hows[-1], f2, False)
            if out[0] == 'ok':
                return 'data whose last %d bytes are zeros from %d of ' \
                    '%d on are accepted (file, read as %s)' % (
                        len(c) - n, n, len(data), hows[-1])
        # crash points of the write itself
        pts = None
        if len(ops) > 12:
            pts = {0, 1, 2, len(ops), len(ops) - 1} | {
                int(x * len(ops)) for x in sc['torn'] + sc['cuts']}
        seen = set()
        for n, k, c in seam.crash_states(
                ops, 'out', old, pts,
                lambda n, ln: {int(x * ln) for x in sc['torn']} - {0}):
            if c in seen:
                continue
            seen.add(c)
            ctx.count('fault crash' if not k else 'fault torn write')
            if c is None:
                continue
            with open(f2, 'wb') as f:
                f.write(c)
            for how in hows:
                with st.armed(io):
                    out = C.attempt(C.read_all, how, f2, False)
                d = judge(c, how, out, 'crash')
                if d:
                    return '%s (crash after %d operations and %d bytes, ' \
                        'read as %s)' % (d, n, k, how)
        # written again where a crash left its traces
        at = int(sc['torn'][0] * (len(ops) + 1)) if sc['torn'] else len(ops)
        seam.crash_files(ops, at, before).store(st.dir)
        with st.armed(io):
            out = C.attempt(C.write, kind, recs, 'file', path)
        ctx.count('written again after a crash')
        if out[0] == 'exc':
            return 'cannot be written again after a crash: ' + \
                C.exc_text(out[1])
        with open(path, 'rb') as f:
            if f.read() != data:
                return 'written again after a crash: other content'
        return None


CHECK = C04()
