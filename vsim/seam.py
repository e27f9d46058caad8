"""Python side of the simulator's seams: storage, line events, environment."""
import contextlib
import ctypes
import os
import random
import shutil
import signal
import subprocess
import sys
import threading
import time
from collections import namedtuple

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get('VSIM_REPO', '/repo')
BUILD = os.path.join(ROOT, 'build')
SHIM = os.path.join(BUILD, 'shim.so')

K = dict(OPEN=1, READ=2, WRITE=3, TRUNC=4, CLOSE=5, SYNC=6, RENAME=7, UNLINK=8,
         MKDIR=9, RMDIR=10)
KNAME = {v: k for k, v in K.items()}
F = dict(NONE=0, EINTR=1, SHORT=2, EIO=3, ENOSPC=4, EACCES=5, EMFILE=6,
         CLOSE_EIO=7, EOF=8, EDQUOT=9, ENOENT=10)
FNAME = {v: k for k, v in F.items()}


def build_shim():
    src = os.path.join(HERE, 'shim.c')
    if os.path.exists(SHIM) and \
            os.path.getmtime(SHIM) >= os.path.getmtime(src):
        return
    os.makedirs(BUILD, exist_ok=True)
    tmp = SHIM + '.%d' % os.getpid()
    subprocess.check_call(['gcc', '-O2', '-U_FORTIFY_SOURCE', '-shared',
                           '-fPIC', '-o', tmp, src, '-ldl'])
    os.replace(tmp, SHIM)


class Entry(ctypes.Structure):
    _fields_ = [('kind', ctypes.c_int32), ('file', ctypes.c_int32),
                ('fault', ctypes.c_int32), ('err', ctypes.c_int32),
                ('off', ctypes.c_int64), ('len', ctypes.c_int64),
                ('res', ctypes.c_int64), ('dataoff', ctypes.c_int64),
                ('flags', ctypes.c_int32), ('file2', ctypes.c_int32)]


Op = namedtuple('Op', 'i kind path off len res err fault flags path2 data')


# what files are called does not matter
NAME = "d {0} %s%(x)s ü'\"[a]*;#"


class Storage:
    """The simulated storage: one scratch directory whose every file call
    goes through the shim."""

    def __init__(self):
        lib = ctypes.CDLL(None)
        if not hasattr(lib, 'vs_prefix'):
            raise RuntimeError('storage seam not loaded')
        lib.vs_prefix.argtypes = [ctypes.c_char_p]
        lib.vs_plan.argtypes = [ctypes.c_int64, ctypes.c_int, ctypes.c_int,
                                ctypes.c_int64]
        lib.vs_random.argtypes = [ctypes.c_uint64] + [ctypes.c_uint32] * 3
        lib.vs_quota.argtypes = [ctypes.c_int64]
        lib.vs_nlog.restype = ctypes.c_int64
        lib.vs_ndat.restype = ctypes.c_int64
        lib.vs_fired.restype = ctypes.c_int64
        lib.vs_log.restype = ctypes.c_void_p
        lib.vs_dat.restype = ctypes.c_void_p
        lib.vs_path.restype = ctypes.c_char_p
        assert lib.vs_entry_size() == ctypes.sizeof(Entry)
        self.lib = lib
        base = '/dev/shm' if os.access('/dev/shm', os.W_OK) else '/tmp'
        self.top = '%s/vsim.%d.%d' % (base, os.getuid(), os.getpid())
        shutil.rmtree(self.top, ignore_errors=True)
        os.makedirs(self.top)
        self.n = 0
        self.dir = None
        lib.vs_prefix(self.top.encode())
        self.totals = {}
        self.ops_seen = 0

    def fresh(self):
        """A new empty directory, no faults, empty log.  The name is fixed so
        that a run does not depend on which runs came before."""
        self.lib.vs_reset()
        self.dir = os.path.join(self.top, NAME)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir)
        return self.dir

    def path(self, name):
        return os.path.join(self.dir, name)

    def close(self):
        self.lib.vs_reset()
        shutil.rmtree(self.top, ignore_errors=True)

    # -- faults
    def faults(self, spec):
        """spec: dict with optional keys
        plan  [[op index, fault name, sticky, arg], ...]  (op index relative
              to the start of the armed section)
        rand  [seed, p_short_read, p_short_write, p_eintr] (p in 0..1)
        quota bytes that can be written before the disk is full
        """
        from .runner import Invalid
        lib = self.lib
        lib.vs_clear_faults()
        try:
            for p in spec.get('plan', []):
                assert len(p) == 4 and p[1] in F and p[0] >= 0
            r = spec.get('rand')
            assert not r or (len(r) == 4 and r[0] > 0)
        except Exception:
            raise Invalid('fault plan')
        base = lib.vs_nlog()
        for idx, fault, sticky, arg in spec.get('plan', []):
            lib.vs_plan(base + idx, F[fault], int(sticky), int(arg))
        r = spec.get('rand')
        if r:
            lib.vs_random(r[0], *[int(x * 65535) for x in r[1:]])
        else:
            lib.vs_random(1, 0, 0, 0)
        if spec.get('quota') is not None:
            lib.vs_quota(spec['quota'])

    @contextlib.contextmanager
    def armed(self, spec=None, keep=False):
        """Storage is simulated inside this block.  Yields a list that on exit
        holds the operations made in the block."""
        self.faults(spec or {})
        start = self.lib.vs_nlog()
        before = [self.lib.vs_fired(f) for f in range(len(F))]
        ops = []
        self.lib.vs_arm(1, 1 if keep else 0)
        try:
            yield ops
        finally:
            self.lib.vs_arm(0, 0)
            self.lib.vs_clear_faults()
            ops.extend(self.oplog(start, keep))
            self.ops_seen += len(ops)
            for f, name in FNAME.items():
                n = self.lib.vs_fired(f) - before[f]
                if f and n:
                    self.totals[name] = self.totals.get(name, 0) + n

    def oplog(self, start=0, keep=False):
        n = self.lib.vs_nlog()
        if n <= start:
            return []
        arr = (Entry * n).from_address(self.lib.vs_log())
        npaths = self.lib.vs_npaths()
        names = [os.path.relpath(self.lib.vs_path(i).decode(), self.dir)
                 for i in range(npaths)]
        dat = None
        if keep and self.lib.vs_ndat():
            dat = self.lib.vs_dat()
        out = []
        for i in range(start, n):
            e = arr[i]
            d = None
            if e.dataoff >= 0 and dat:
                d = ctypes.string_at(dat + e.dataoff, e.res)
            out.append(Op(i - start, KNAME[e.kind], names[e.file], e.off,
                          e.len, e.res, e.err, FNAME[e.fault], e.flags,
                          names[e.file2] if e.file2 >= 0 else None, d))
        return out

    # -- directory state
    def snapshot(self):
        out = {}
        for base, dirs, files in os.walk(self.dir):
            for f in files:
                p = os.path.join(base, f)
                with open(p, 'rb') as fh:
                    out[os.path.relpath(p, self.dir)] = fh.read()
            for d in dirs:
                out[os.path.relpath(os.path.join(base, d), self.dir) + '/'] \
                    = b''
        return out

    def open_fds(self):
        """Names of files of the scratch directory this process has open."""
        out = []
        for fd in os.listdir('/proc/self/fd'):
            try:
                t = os.readlink('/proc/self/fd/' + fd)
            except OSError:
                continue
            if t.startswith(self.top + '/'):
                out.append(os.path.relpath(t, self.dir))
        return sorted(out)


class Disk:
    """The files of the scratch directory as operations take effect.
    Directories are names that end with a slash."""

    def __init__(self, files=None):
        self.files = {k: bytearray(v) for k, v in (files or {}).items()}
        self.alias = {}             # name when opened -> name now

    def name(self, op):
        return self.alias.get(op.path, op.path)

    @staticmethod
    def put(c, off, data):
        if len(c) < off + len(data):
            c.extend(bytes(off + len(data) - len(c)))
        c[off:off + len(data)] = data

    def torn(self, op, k):
        """Content of the file of a write of which k bytes took effect."""
        c = bytearray(self.files.get(self.name(op), b''))
        self.put(c, op.off, op.data[:k])
        return bytes(c)

    def apply(self, op):
        files, alias, name = self.files, self.alias, self.name(op)
        if op.err:
            return
        if op.kind == 'OPEN':
            alias.pop(op.path, None)
            if op.flags & os.O_TRUNC or op.path not in files:
                if op.flags & (os.O_CREAT | os.O_TRUNC):
                    files[op.path] = bytearray()
        elif op.kind == 'MKDIR':
            files[op.path + '/'] = bytearray()
        elif op.kind == 'RMDIR':
            files.pop(op.path + '/', None)
        elif name is None:
            return                  # written after its name was removed
        elif op.kind == 'WRITE' and op.res > 0:
            self.put(files.setdefault(name, bytearray()), op.off, op.data)
        elif op.kind == 'TRUNC':
            c = files.setdefault(name, bytearray())
            if op.off < len(c):
                del c[op.off:]
            else:
                c.extend(bytes(op.off - len(c)))
        elif op.kind == 'UNLINK':
            files.pop(op.path, None)
            alias[op.path] = None
        elif op.kind == 'RENAME':
            files[op.path2] = files.pop(op.path, bytearray())
            alias.pop(op.path2, None)
            alias[op.path] = op.path2

    def store(self, top):
        """Makes the directory `top` hold exactly these files."""
        for base, dirs, names in os.walk(top, topdown=False):
            for x in names:
                os.unlink(os.path.join(base, x))
            for x in dirs:
                os.rmdir(os.path.join(base, x))
        for x in sorted(self.files):
            p = os.path.join(top, x)
            if x.endswith('/'):
                os.makedirs(p, exist_ok=True)
                continue
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'wb') as f:
                f.write(self.files[x])


def crash_files(ops, at, initial=None):
    """The whole directory after the first `at` operations."""
    d = Disk(initial)
    for op in ops[:at]:
        d.apply(op)
    return d


def crash_states(ops, path, initial=None, points=None, torn=None):
    """Contents of `path` after a crash following each prefix of ops.

    ops must come from armed(keep=True).  initial is the content before (None:
    no file).  Yields (n, k, content): the first n operations took effect and
    operation n wrote only its first k bytes (k == 0: not at all).  points:
    iterable of n to yield (default all); torn(n, length) -> list of k."""
    d = Disk({} if initial is None else {path: initial})
    points = None if points is None else set(points)

    def now():
        c = d.files.get(path)
        return None if c is None else bytes(c)
    for n, op in enumerate(ops):
        if points is None or n in points:
            yield n, 0, now()
            if op.kind == 'WRITE' and d.name(op) == path and op.res > 1 \
                    and torn:
                for k in torn(n, op.res):
                    yield n, k, d.torn(op, k)
        d.apply(op)
    if points is None or len(ops) in points:
        yield len(ops), 0, now()


# --------------------------------------------------------------------------
# line events of the library

class Killed(BaseException):
    """Raised when the step budget of a run is used up."""


class Lines:
    """Line events of the code under test only (sys.monitoring)."""
    TOOL = 4

    def __init__(self, prefix=None):
        self.prefix = prefix or os.path.join(REPO, 'pydarnio') + os.sep
        self.hook = None
        self.ours = {}           # id -> code (kept alive)
        self.count = 0
        self.installed = False

    def install(self):
        if self.installed:
            return
        m = sys.monitoring
        m.use_tool_id(self.TOOL, 'vsim')
        m.register_callback(self.TOOL, m.events.LINE, self._line)
        self.installed = True

    def _line(self, code, line):
        if id(code) not in self.ours:
            if not code.co_filename.startswith(self.prefix):
                return sys.monitoring.DISABLE
            self.ours[id(code)] = code
        h = self.hook
        if h is not None:
            h(code, line)

    @contextlib.contextmanager
    def on(self, hook):
        self.install()
        self.hook = hook
        sys.monitoring.set_events(self.TOOL, sys.monitoring.events.LINE)
        try:
            yield
        finally:
            sys.monitoring.set_events(self.TOOL, 0)
            self.hook = None


LINES = Lines()


_EXITS = {}


def leaves_with(code, offset):
    """The line event belongs to the call of a context manager's __exit__ at
    the end of its block.  The interpreter delivers no interrupt before that
    call, so none is raised there."""
    s = _EXITS.get(code)
    if s is None:
        import dis
        ins = [i for i in dis.get_instructions(code) if i.opname != 'NOP']
        nops = {i.offset for i in dis.get_instructions(code)
                if i.opname == 'NOP'}
        s = set()
        for a, b, c, d in zip(ins, ins[1:], ins[2:], ins[3:]):
            if all(x.opname == 'LOAD_CONST' and x.argval is None
                   for x in (a, b, c)) and d.opname == 'CALL':
                s.add(a.offset)
                o = a.offset - 2
                while o in nops:
                    s.add(o)
                    o -= 2
        _EXITS[code] = s
    return offset in s


class Injector:
    """Counts line events; raises `exc` at the n-th one (None: only count);
    raises Killed past `budget`."""

    def __init__(self, at=None, exc=None, budget=None):
        self.at, self.exc, self.budget = at, exc, budget
        self.n = 0
        self.fired = None
        self.thread = threading.get_ident()

    def __call__(self, code, line):
        if threading.get_ident() != self.thread:
            return
        self.n += 1
        if self.at is not None and self.n >= self.at and \
                self.fired is None and \
                not leaves_with(code, sys._getframe(2).f_lasti):
            self.fired = '%s:%d' % (code.co_name, line)
            raise self.exc('injected at line event %d' % self.n)
        if self.budget is not None and self.n > self.budget:
            raise Killed('more than %d line events' % self.budget)

    @contextlib.contextmanager
    def on(self):
        self.n = 0
        self.fired = None
        with LINES.on(self):
            yield self


class Deadlock(Exception):
    pass


class Scheduler:
    """Runs callables as threads of which exactly one runs at a time.  The
    running thread may be exchanged at line events of the code under test
    only, as told by `decide(step, current, runnable)`."""

    def __init__(self, decide, timeout=60.0, due=None):
        self.decide = decide
        self.due = due          # tells cheaply that a switch may be wanted
        self.timeout = timeout

    def run(self, funcs):
        n = len(funcs)
        sems = [threading.Semaphore(0) for _ in range(n)]
        main = threading.Semaphore(0)
        alive = [True] * n
        results = [None] * n
        ident = {}
        try:
            from h5py._objects import phil
            owned = phil._is_owned
        except (ImportError, AttributeError):
            def owned():
                return False
        get_ident = threading.get_ident
        due = self.due
        MASK = (1 << 60) - 1
        self.step = 0
        self.fresh = 0          # lines a thread came to for the first time
        visited = set()
        self.switches = []
        self.trace = 0
        self.free = False

        def pick(cur):
            runnable = [i for i in range(n) if alive[i]]
            if not runnable:
                return None
            return self.decide(self.step, cur, runnable)

        def hook(code, line):
            me = ident.get(get_ident())
            if me is None or self.free:
                return
            self.step += 1
            k = me, id(code), line
            if k not in visited:
                visited.add(k)
                self.fresh += 1
            self.trace = (self.trace * 1000003 + line * 8 + me) & MASK
            if due is not None and not due(self):
                return
            if owned():
                return              # the thread holds h5py's own lock
            nxt = pick(me)
            if nxt != me:
                self.switches.append((self.step, me, nxt, code.co_name, line))
                sems[nxt].release()
                sems[me].acquire()

        def body(i):
            sems[i].acquire()
            ident[threading.get_ident()] = i
            try:
                results[i] = ('ok', funcs[i]())
            except BaseException as e:          # noqa
                results[i] = ('exc', e)
            finally:
                ident.pop(threading.get_ident(), None)
                alive[i] = False
                nxt = pick(i)
                if nxt is None:
                    main.release()
                else:
                    self.switches.append((self.step, i, nxt, 'end', 0))
                    sems[nxt].release()

        ths = [threading.Thread(target=body, args=(i,), daemon=True)
               for i in range(n)]
        with LINES.on(hook):
            for t in ths:
                t.start()
            sems[pick(None)].release()
            seen, idle = None, 0
            while not main.acquire(timeout=1.0):
                now = self.step, tuple(alive)
                idle = idle + 1 if now == seen else 0
                seen = now
                if idle >= 4 and not self.free:
                    # the running thread waits for something a parked one
                    # holds: let everything run freely from here
                    self.free = True
                    for s in sems:
                        s.release()
                if idle >= self.timeout:
                    raise Deadlock('threads do not finish')
            for t in ths:
                t.join()
        return results


# --------------------------------------------------------------------------
# environment

@contextlib.contextmanager
def timezone(tz):
    old = os.environ.get('TZ')
    try:
        if tz is not None:
            os.environ['TZ'] = tz
            time.tzset()
        yield
    finally:
        if old is None:
            os.environ.pop('TZ', None)
        else:
            os.environ['TZ'] = old
        time.tzset()


class FakeClock:
    """Replaces the process's clocks as seen by Python code."""

    def __init__(self, t0, step=0.001):
        self.t, self.step0 = t0, step

    def _now(self):
        self.t += self.step0
        return self.t

    @contextlib.contextmanager
    def on(self):
        import datetime as dt
        saved = {k: getattr(time, k) for k in
                 ('time', 'time_ns', 'monotonic', 'perf_counter',
                  'localtime', 'gmtime', 'ctime', 'strftime')}
        real = saved
        time.time = self._now
        time.time_ns = lambda: int(self._now() * 1e9)
        time.monotonic = self._now
        time.perf_counter = self._now
        time.localtime = lambda s=None: real['localtime'](
            self._now() if s is None else s)
        time.gmtime = lambda s=None: real['gmtime'](
            self._now() if s is None else s)
        time.ctime = lambda s=None: real['ctime'](
            self._now() if s is None else s)
        time.strftime = lambda f, t=None: real['strftime'](
            f, time.localtime() if t is None else t)
        clock = self

        class Meta(type):
            def __instancecheck__(cls, obj):
                return isinstance(obj, dt._vsim_real)
        realdt = dt.datetime

        class datetime(realdt, metaclass=Meta):
            @classmethod
            def now(cls, tz=None):
                return realdt.fromtimestamp(clock._now(), tz)

            @classmethod
            def utcnow(cls):
                return realdt.utcfromtimestamp(clock._now())

            @classmethod
            def today(cls):
                return realdt.fromtimestamp(clock._now())
        dt._vsim_real = realdt
        patched = []
        for name, mod in list(sys.modules.items()):
            if name.startswith('pydarnio') and mod is not None:
                for a, v in list(vars(mod).items()):
                    if v is realdt:
                        setattr(mod, a, datetime)
                        patched.append((mod, a, realdt))
        dt.datetime = datetime
        try:
            yield
        finally:
            dt.datetime = realdt
            for mod, a, v in patched:
                setattr(mod, a, v)
            for k, v in saved.items():
                setattr(time, k, v)


# --------------------------------------------------------------------------
# child processes for operations that can take the process down

def forked(fn, cpu=20, timeout=120):
    """Runs fn() in a forked child.  Returns ('ok', value), ('signal', n),
    ('timeout', None) or ('harness', text)."""
    import pickle
    import resource
    import traceback
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
            dn = os.open('/dev/null', os.O_WRONLY)
            os.dup2(dn, 2)
            try:
                out = ('ok', fn())
            except BaseException:
                out = ('harness', traceback.format_exc())
            data = pickle.dumps(out)
            while data:
                n = os.write(w, data)
                data = data[n:]
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    import select
    end = time.monotonic() + timeout
    timed = False
    while True:
        left = end - time.monotonic()
        if left <= 0 or not select.select([r], [], [], left)[0]:
            timed = True
            os.kill(pid, signal.SIGKILL)
            break
        b = os.read(r, 1 << 20)
        if not b:
            break
        chunks.append(b)
    os.close(r)
    _, status = os.waitpid(pid, 0)
    if timed:
        return 'timeout', None
    if chunks:
        try:
            return pickle.loads(b''.join(chunks))
        except Exception:
            pass
    if os.WIFSIGNALED(status):
        s = os.WTERMSIG(status)
        if s == signal.SIGXCPU:
            return 'timeout', None
        return 'signal', s
    return 'harness', 'child exited without a result'
