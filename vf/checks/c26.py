"""C26: a run whose outputs could not be written does not report success"""
import ctypes, errno, json, os, resource, select, shutil, signal, sys, time
import numpy as np
from vf import gen, pipe, cli
from vf.core import RepoError
from vf.checks import c23

RULE = ('every command, each with its outputs refused in enumerated ways: largest file size (0 bytes, every block boundary near the sizes of the complete outputs, one byte less than each), full disk (tmpfs of enumerated sizes in a user namespace), no inodes left, writes '
        'failing only while certain lines of malstroem run (windows from every line which the command passes), no file handles left, directory missing or read-only for an unprivileged user, name taken by a directory, and for commands with several outputs only one of '
        'them refused; status zero is accepted only with every output there and equal to that of the undisturbed run; non-trivial: the fault met at least one write; distinct by command, format, fault and place')
MUST_OBSERVE = ['fsize', 'window', 'nofile', 'missing', 'taken', 'one_of_two', 'tall', 'failed', 'succeeded', 'commands']
MIN_EVENTS = 300
CPU_LIMIT = 300
LEVEL = 'fault_enumeration'
ASSUMPTIONS = ['Full disks, exhausted inodes and read-only directories are produced in a user namespace or as an unprivileged user where the sandbox allows it (counted as full_disk, inodes, readonly)']
TEXT = {'geojson': 'GeoJSON', 'shp': 'Shapefile', 'csv': 'CSV'}
EXTRA = {'ESRI shapefile': 'shp', 'CSV': 'csv', 'GeoJSON': 'geojson', 'SQLite': 'sqlite', 'gpkg': 'gpkg'}


def cases(seed, tier):
    k = 1 if tier == 'quick' else 12
    out = []
    for i in range(6 * k):
        out.append(dict(t='complete', seed=seed * 1000003 + i, n=30 if tier == 'quick' else 120))
    for i in range(15 * k):
        out.append(dict(t='chain', seed=seed * 1000003 + i, n=7 if tier == 'quick' else 40, part=i % 3))
    for i in range(2 * k):
        out.append(dict(t='tall', seed=seed * 1000003 + i, n=12 if tier == 'quick' else 60))
    for i in range(8 * k):
        out.append(dict(t='formats', seed=seed * 1000003 + i, n=14 if tier == 'quick' else 60))
    return out


def run_case(case, o, d):
    dict(complete=chain, chain=chain, formats=formats, tall=tall)[case['t']](case, o, d)


# ---------------------------------------------------------------------------------------- faults

def own_tmpfs(path, options):
    """A small file system at path, for this process only. False if not possible here"""
    if not hasattr(os, 'unshare'):
        return False
    uid, gid = os.getuid(), os.getgid()
    try:
        os.unshare(os.CLONE_NEWUSER | os.CLONE_NEWNS)
        for f, t in (('setgroups', 'deny'), ('uid_map', '0 %d 1' % uid), ('gid_map', '0 %d 1' % gid)):
            with open('/proc/self/' + f, 'w') as h:
                h.write(t)
    except OSError:
        return False
    libc = ctypes.CDLL(None, use_errno=True)
    # only in this namespace
    if libc.mount(b'none', b'/', None, (1 << 18) | (1 << 14), None):
        return False
    return libc.mount(b'none', path.encode(), b'tmpfs', 0, options.encode()) == 0


class Window:
    """Lines of malstroem passed; writes fail while lines number a to b run"""

    def __init__(self, a=None, b=None, limit=0):
        self.a, self.b, self.limit = a, b, limit
        self.n = 0
        self.first = {}
        self.last = {}

    def __call__(self, fr, ev, arg):
        f = fr.f_code.co_filename
        return self.line if '/malstroem/' in f else None

    def line(self, fr, ev, arg):
        if ev == 'line':
            self.n += 1
            if self.a is None:
                k = (fr.f_code.co_filename, fr.f_lineno)
                self.first.setdefault(k, self.n)
                self.last[k] = self.n
            elif self.n == self.a:
                limit(self.limit)
            elif self.n == self.b:
                limit(None)
        return self.line


def limit(n):
    resource.setrlimit(resource.RLIMIT_FSIZE, (resource.RLIM_INFINITY if n is None else n, resource.RLIM_INFINITY))


def forked(f, timeout=100):
    """Result of f() in a process of its own, or the way that ended"""
    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            null = os.open('/dev/null', os.O_WRONLY)
            os.dup2(null, 1)
            os.dup2(null, 2)
            try:
                res = f()
            except BaseException as e:
                res = dict(harness=repr(e)[:300])
            with os.fdopen(w, 'w') as h:
                h.write(json.dumps(res))
        except BaseException:
            code = 9
        finally:
            os._exit(code)
    os.close(w)
    buf = b''
    end = time.time() + timeout
    while True:
        if not select.select([r], [], [], max(0, end - time.time()))[0]:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            os.close(r)
            return dict(hang=1)
        b = os.read(r, 1 << 16)
        if not b:
            break
        buf += b
    os.close(r)
    st = os.waitpid(pid, 0)[1]
    if os.WIFSIGNALED(st):
        return dict(signal=os.WTERMSIG(st))
    return json.loads(buf.decode()) if buf else dict(harness='no answer, exit %s' % st)


class Cmd:
    """A command, its outputs and what these hold in an undisturbed run"""

    def __init__(self, name, args, outs, base):
        self.name, self.args, self.outs, self.base = name, args, outs, base

    def argv(self, q):
        return [self.name.split('_')[0]] + self.args(q)

    def files(self):
        """Sizes of all files of the complete outputs"""
        r = {}
        for x in self.outs:
            n = x[0] if isinstance(x, tuple) else x
            p = os.path.join(self.base, n)
            if os.path.isdir(p):
                for y in os.listdir(p):
                    r[os.path.join(n, y)] = os.path.getsize(os.path.join(p, y))
            else:
                stem = os.path.splitext(n)[0]
                for y in os.listdir(self.base):
                    if os.path.splitext(y)[0] == stem and (y == n or n.endswith('.shp')):
                        r[y] = os.path.getsize(os.path.join(self.base, y))
        return r

    def reference(self):
        self.want = {str(x): c23.content(c23.join(self.base, x)) for x in self.outs}
        return self

    def verdict(self, out, where=None):
        """What is wrong with the outputs, and the way in which they are wrong"""
        for x in self.outs:
            y = (where or {}).get(x[0] if isinstance(x, tuple) else x)
            try:
                p = c23.join(out, x) if y is None else (y, x[1]) if isinstance(x, tuple) else y
                c = c23.content(p)
            except Exception as e:
                return '%s cannot be read (%s)' % (x, str(e)[:100]), self.cut(out)
            except RepoError as e:
                return '%s: %s' % (x, str(e)[:100]), None
            if c != self.want[str(x)]:
                return '%s differs from that of an undisturbed run' % (x,), self.cut(out)
        return None, None

    def cut(self, out):
        """The format, if all files are complete but for the last buffer of a text format"""
        fs = self.files()
        ext = {os.path.splitext(n)[1][1:] for n in fs}
        fmt = next((TEXT[e] for e in ext if e in TEXT), None)
        if fmt is None or (fmt != 'Shapefile' and len(fs) > 1):
            return None
        for n in fs:
            with open(os.path.join(self.base, n), 'rb') as h:
                a = h.read()
            try:
                with open(os.path.join(out, n), 'rb') as h:
                    b = h.read()
            except OSError:
                b = b''
            if n.endswith('.dbf'):
                # the header is written again at the end
                a, b = a[32:], b[32:]
            if n.endswith(('.shp', '.shx')):
                a, b = a[100:], b[100:]
            if a[:len(b)] != b or len(a) - len(b) > 4096:
                return None
        return fmt


def attempt(o, c, d, i, fault, text, key):
    """Run a command with a fault. fault(out) starts it, and returns False if this cannot be done here, or how to end it"""
    out = os.path.join(d, 'f%d' % i)
    os.makedirs(out)
    if c.name == 'complete':
        os.makedirs(os.path.join(out, 'outdir'))

    def go():
        h = fault(out)
        if h is False:
            return dict(skip=1)
        where = h.get('where') if isinstance(h, dict) else None
        if c.name == 'complete':
            os.makedirs(os.path.join(out, 'outdir'), exist_ok=True)
        q = lambda n: (where or {}).get(n, os.path.join(out, n))
        tr = h if isinstance(h, Window) else None
        if tr:
            sys.settrace(tr)
        try:
            code, txt, exc = cli.run(c.argv(q))
        finally:
            sys.settrace(None)
        limit(None)
        resource.setrlimit(resource.RLIMIT_NOFILE, (1024, resource.getrlimit(resource.RLIMIT_NOFILE)[1]))
        r = dict(code=code, exc=repr(exc)[:200] if exc else '', lines=tr.n if tr else 0)
        if code == 0:
            r['bad'], r['cut'] = c.verdict(out, where)
        return r
    r = forked(go)
    shutil.rmtree(out, ignore_errors=True)
    if 'harness' in r:
        raise RuntimeError('%s %s: %s' % (c.name, text, r['harness']))
    if 'skip' in r:
        return None
    o.event()
    if 'hang' in r:
        o.bad('hang:' + c.name, '%s does not end with %s' % (c.name, text))
    elif 'signal' in r:
        o.count('killed')
    elif r['code'] == 0:
        o.count('succeeded')
        if r['bad']:
            o.bad(('last-block:' + r['cut']) if r['cut'] else 'success:' + c.name, '%s reports success with %s, but output %s' % (c.name, text, r['bad']))
    else:
        o.count('failed')
    o.case(r.get('code') != 0 or bool(r.get('bad')), c.name, key)
    o.sample = o.sample or ('%s with %s: status %s %s' % (c.name, text, r.get('code'), r.get('exc', '')[:80]))
    return r


def sizes(rng, fs, n):
    """File size limits around those of the complete outputs"""
    c = {0, 1, 100, 4096}
    for s in fs:
        c |= {s - 1, s - 2, s - 100, s - 4096, s - 4097, s // 2, (s - 1) // 4096 * 4096, s // 4096 * 4096 - 4096, s // 4096 * 4096 - 1}
        c |= {int(x) for x in rng.integers(0, max(s, 1), 4)}
    # larger than all: nothing is refused
    c = sorted(x for x in c if 0 <= x < max(fs))
    rng.shuffle(c)
    return [int(x) for x in c[:n]]


def faults(o, c, d, rng, n, i0=0):
    """n faults of each kind which applies"""
    fs = c.files()
    big = sorted(set(fs.values()))
    tot = sum((s + 4095) // 4096 for s in fs.values()) * 4
    i = i0

    def fsize(L):
        def f(out):
            limit(L)
        return f

    def disk(opts):
        def f(out):
            return None if own_tmpfs(out, opts) else False
        return f

    def nofile(k):
        def f(out):
            have = len(os.listdir('/proc/self/fd'))
            resource.setrlimit(resource.RLIMIT_NOFILE, (have + k, resource.getrlimit(resource.RLIMIT_NOFILE)[1]))
        return f
    for L in sizes(rng, big, 3 * n):
        i += 1
        if attempt(o, c, d, i, fsize(L), 'files limited to %d bytes (complete: %s)' % (L, big[-4:]), ('fsize', str(fs.keys()), L)) is not None:
            o.count('fsize')
    for k in range(n):
        i += 1
        kb = int(rng.choice([4, 8, tot - 4, tot - 8, tot // 2, tot + 4, tot * 2, int(rng.integers(1, tot + 5))]))
        if attempt(o, c, d, i, disk('size=%dk' % max(4, kb)), 'a disk of %d kB (outputs %d kB)' % (kb, tot), ('disk', str(fs.keys()), kb)) is not None:
            o.count('full_disk')
    for k in range(max(1, n // 4)):
        i += 1
        m = int(rng.integers(1, len(fs) + 3)) + 2 * (c.name == "complete")
        if attempt(o, c, d, i, disk('size=100m,nr_inodes=%d' % m), 'a disk of %d inodes' % m, ('inodes', str(fs.keys()), m)) is not None:
            o.count('inodes')
    for k in range(max(1, n // 4)):
        i += 1
        m = int(rng.integers(0, 12))
        if attempt(o, c, d, i, nofile(m), 'at most %d more open files' % m, ('nofile', m)) is not None:
            o.count('nofile')
    # writes which fail for a while
    w = Window()
    count = forked(lambda: traced(c, d, w))
    at = count['at']
    for k in range(2 * n):
        i += 1
        a = int(at[int(rng.integers(len(at)))])
        b = a + int(rng.choice([1, 2, 5, 20, 100, 1000]))
        L = int(rng.choice([0, 0, 1, 4096, max(big[-1] - 1, 0)]))
        win = Window(a, b, L)
        if attempt(o, c, d, i, lambda out: win, 'writes beyond %d bytes failing during lines %d to %d of %d' % (L, a, b, count['n']), ('window', a, b, L)) is not None:
            o.count('window')
    return i


def traced(c, d, w):
    out = os.path.join(d, 'traced')
    os.makedirs(os.path.join(out, 'outdir') if c.name == 'complete' else out)
    sys.settrace(w)
    try:
        cli.run(c.argv(lambda n: os.path.join(out, n)))
    finally:
        sys.settrace(None)
        shutil.rmtree(out, ignore_errors=True)
    # the code which writes counts most
    at = []
    for k in w.first:
        at += [w.first[k], w.last[k]] * (4 if k[0].endswith(('io.py', 'vector.py')) else 1)
    return dict(n=w.n, at=at)


def places(o, c, d, rng, i):
    """Outputs which cannot be created"""
    names = sorted({x[0] if isinstance(x, tuple) else x for x in c.outs})

    def nobody(out):
        p = out
        while p != '/' and p.startswith(os.environ['VF_SCRATCH'].rsplit('/', 1)[0]):
            os.chmod(p, 0o755)
            p = os.path.dirname(p)
        os.chmod(out, 0o555)
        if c.name == 'complete':
            os.chmod(os.path.join(out, 'outdir'), 0o555)
        os.chmod(os.environ['TMPDIR'], 0o777)
        try:
            os.setgroups([])
            os.setgid(65534)
            os.setuid(65534)
        except OSError:
            return False
        if not os.access(d, os.R_OK | os.X_OK) or os.access(out, os.W_OK):
            return False
    for k, n in enumerate(names):
        only = '' if len(names) == 1 else ' (only for %s)' % n

        def missing(out):
            return dict(where={n: os.path.join(out, 'no', 'such', n)})

        def taken(out):
            p = os.path.join(out, 'taken', n)
            os.makedirs(p)
            with open(os.path.join(p, 'keep'), 'w') as h:
                h.write('x')
            return dict(where={n: p})

        def below(out):
            p = os.path.join(out, 'file')
            with open(p, 'w') as h:
                h.write('x')
            return dict(where={n: os.path.join(p, n)})
        for what, f, text in (('missing', missing, 'an output directory which does not exist'), ('taken', taken, 'a directory of the name of the output'), ('missing', below, 'a file in place of the output directory')):
            if what == 'taken' and c.name == 'complete':
                continue
            i += 1
            if c.name == 'complete' and what == 'missing':
                # the directory has to exist
                r = attempt(o, c, d, i, lambda out, f=f: f(out), text, (what, text))
            else:
                r = attempt(o, c, d, i, f, text + only, (what, text, n))
            if r is not None:
                o.count(what)
                if only:
                    o.count('one_of_two')
                if r.get('code') == 0 and not r.get('bad') and what != 'taken':
                    o.bad('place:' + c.name, '%s succeeds with %s%s' % (c.name, text, only))
    i += 1
    r = attempt(o, c, d, i, nobody, 'a directory which is read-only', ('readonly',))
    if r is not None:
        o.count('readonly')
        if r.get('code') == 0:
            o.bad('place:' + c.name, '%s succeeds in a read-only directory' % c.name)
    return i


def chain(case, o, d):
    rng = np.random.default_rng([case['seed'], 26])
    big = rng.random() < .6
    z = gen.dem(dict(seed=int(rng.integers(1 << 31)), kind=str(rng.choice(['white', 'terrace', 'pits', 'sine'] if big else gen.NAMES)) if not big else 'white', shape=[int(x) for x in (rng.integers(40, 75, 2) if big else rng.integers(8, 25, 2))], scale='unit'))
    dem = cli.write_tif(os.path.join(d, 'dem.tif'), z)
    fmt = str(rng.choice(['gpkg', 'GeoJSON', 'SQLite']))
    mm, res = float(rng.choice([5, 20, 100])), float(rng.choice([.1, .5]))
    filt = None if big else pipe.FILTERS[int(rng.integers(len(pipe.FILTERS)))]
    cli.write_tif(os.path.join(d, 'rain.tif'), (rng.random(z.shape) * 50).astype('f4'))
    st = c23.steps(d, dem, fmt, mm, res, filt)
    if case['t'] == 'complete':
        st = [s for s in st if s[0] == 'complete']
        os.makedirs(os.path.join(d, 'outdir'))
    else:
        st = [s for s in st if s[0] != 'complete']
    i = 0
    for k, (name, args, outs) in enumerate(st):
        c = Cmd(name, args, outs, d)
        cli.ok(c.argv(lambda n: os.path.join(d, n)))
        if case['t'] == 'chain' and k % 3 != case['part']:
            continue
        c.reference()
        o.count('commands')
        i = faults(o, c, d, rng, max(1, case['n'] // 3), i)
        i = places(o, c, d, rng, i)


def tall(case, o, d):
    """Rasters of many rows, of which the last do not get written"""
    rng = np.random.default_rng([case['seed'], 28])
    z = gen.dem(dict(seed=int(rng.integers(1 << 31)), kind='white', shape=[int(rng.integers(520, 800)), int(rng.integers(24, 40))], scale='unit'))
    dem = cli.write_tif(os.path.join(d, 'dem.tif'), z)
    i = 0
    for name, args, outs in c23.steps(d, dem, 'gpkg', 20.0, .1, None)[:6]:
        c = Cmd(name, args, outs, d)
        cli.ok(c.argv(lambda n: os.path.join(d, n)))
        c.reference()
        o.count('tall')
        n = max(c.files().values())
        for L in [n - 1, n - int(rng.integers(2, 4096)), n - 4096, n * 3 // 4] + [int(rng.integers(n // 2, n)) for _ in range(case['n'] // 6)]:
            i += 1
            if attempt(o, c, d, i, lambda out: limit(L), 'files limited to %d bytes (complete: %d)' % (L, n), ('fsize', name, L, n)) is not None:
                o.count('fsize')


def formats(case, o, d):
    """Layers in each format"""
    rng = np.random.default_rng([case['seed'], 27])
    n = int(rng.integers(20, 60))
    z = gen.dem(dict(seed=int(rng.integers(1 << 31)), kind='white', shape=[n, n + 3], scale='unit'))
    dem = cli.write_tif(os.path.join(d, 'dem.tif'), z)
    os.makedirs(os.path.join(d, 'in'))
    x = os.path.join(d, 'in')
    cli.chain(dem, x)
    vec = os.path.join(x, 'vec.gpkg')
    i = 0
    for fmt in list(EXTRA):
        if rng.random() < .5:
            continue
        e = EXTRA[fmt]
        F = ['-format', fmt]
        P = lambda k: os.path.join(x, k)
        todo = [('pourpts', lambda q: ['-bluespots', P('bluespots.tif'), '-depths', P('depths.tif'), '-watersheds', P('wsheds.tif'), '-dem', dem, '-out', q('pp.' + e), '-layername', 'pp'] + F, [('pp.' + e, 'pp')]),
                ('polys', lambda q: ['-raster', P('wsheds.tif'), '-out', q('po.' + e), '-layername', 'po'] + F, [('po.' + e, 'po')]),
                ('initvolumes', lambda q: ['-nodes', vec, '-nodes_layer', 'nodes', '-mm', 10, '-out', q('iv.' + e), '-out_layer', 'iv'] + F, [('iv.' + e, 'iv')])]
        name, args, outs = todo[int(rng.integers(3))]
        c = Cmd(name, args, outs, d)
        cli.ok(c.argv(lambda k: os.path.join(d, k)))
        c.reference()
        o.count('format ' + fmt)
        i = faults(o, c, d, rng, max(2, case['n'] // 3), i)
        i = places(o, c, d, rng, i)
