"""Scratch builds of /repo's current malstroem package, with native extensions in several variants.

Nothing is written below /repo. Compiled extensions are cached by content (sources + flags) below
/verif/.cache (ignored by git), so an unchanged native source is compiled once.
"""
import hashlib, os, re, shutil, subprocess, sys, sysconfig, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VF_REPO', '/repo')
CACHE = os.path.join(VERIF, '.cache')
NATIVE = 'malstroem/algorithms/speedups'

VARIANTS = {
    # what the project builds
    'rel': dict(cflags=['-O2'], ldflags=[]),
    # address + undefined behaviour sanitizer
    'asan': dict(cflags=['-O1', '-g', '-fno-omit-frame-pointer', '-fsanitize=address,undefined',
                         '-fno-sanitize-recover=all', '-fno-sanitize=alignment'],
                 ldflags=['-fsanitize=address,undefined']),
    # uninitialised automatic variables filled with two different values
    'auto0': dict(cflags=['-O1', '-ftrivial-auto-var-init=zero'], ldflags=[]),
    'autop': dict(cflags=['-O1', '-ftrivial-auto-var-init=pattern'], ldflags=[]),
    # element accesses of arrays and memoryviews checked against their bounds
    'bounds': dict(cflags=['-O1'], ldflags=[], checked=True),
}


class BuildError(Exception):
    pass


def _checked(text):
    """Turn on the bounds checks which the sources turn off"""
    text = re.sub(r'boundscheck\s*\(\s*False\s*\)', 'boundscheck(True)', text)
    return re.sub(r'boundscheck\s*=\s*False', 'boundscheck=True', text)


def package_files(repo=None):
    repo = repo or REPO
    root = os.path.join(repo, 'malstroem')
    out = []
    for d, dirs, files in os.walk(root):
        dirs[:] = sorted(x for x in dirs if x != '__pycache__')
        for f in sorted(files):
            rel = os.path.relpath(os.path.join(d, f), repo)
            if f.endswith(('.pyc', '.so', '.html', '.o', '.pyd')):
                continue
            if f.endswith('.c') and os.path.exists(os.path.join(d, f[:-2] + '.pyx')):
                continue
            out.append(rel)
    return out


def _sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b'\0')
    return h.hexdigest()[:24]


def _compile(args):
    """Compile one .pyx -> .so in a private directory. Returns path in the cache"""
    name, key, sources, v = args
    dest = os.path.join(CACHE, 'ext', key + '.so')
    if os.path.exists(dest):
        return dest
    os.makedirs(os.path.dirname(dest), exist_ok=True)
    tmp = tempfile.mkdtemp(prefix='b-', dir=CACHE)
    try:
        for rel, data in sources.items():
            p = os.path.join(tmp, rel)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, 'wb') as f:
                f.write(data)
        pyx = os.path.join(tmp, NATIVE, name + '.pyx')
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1')
        r = subprocess.run([sys.executable, '-m', 'cython', pyx], cwd=tmp, capture_output=True, text=True, env=env)
        if r.returncode != 0:
            raise BuildError('cython failed for %s:\n%s' % (name, r.stderr[-3000:]))
        import numpy
        so = os.path.join(tmp, name + '.so')
        cmd = ['/usr/bin/gcc', '-shared', '-fPIC', '-fno-strict-overflow', '-w', '-fwrapv',
               '-I' + sysconfig.get_paths()['include'], '-I' + numpy.get_include()]
        if 'asan' in v.get('name', ''):
            cmd.remove('-fwrapv')
            cmd.remove('-fno-strict-overflow')
        cmd += v['cflags'] + [pyx[:-4] + '.c', '-o', so] + v['ldflags']
        r = subprocess.run(cmd, capture_output=True, text=True)
        if r.returncode != 0:
            raise BuildError('gcc failed for %s:\n%s' % (name, r.stderr[-3000:]))
        os.replace(so, dest)
        return dest
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def build(variants=('rel',), repo=None):
    """Build the package of the working tree. Returns {variant: directory to put on sys.path}"""
    repo = repo or REPO
    os.makedirs(CACHE, exist_ok=True)
    files = package_files(repo)
    data = {}
    for rel in files:
        with open(os.path.join(repo, rel), 'rb') as f:
            data[rel] = f.read()
    native = {r: d for r, d in data.items() if r.endswith(('.pyx', '.pxd', '.pxi')) or
              (r.endswith('__init__.py'))}
    names = [os.path.basename(r)[:-4] for r in data if r.startswith(NATIVE) and r.endswith('.pyx')]
    shared = sorted((r, _sha(d)) for r, d in data.items() if r.endswith(('.pxd', '.pxi')))
    tag = sys.version.split()[0]
    jobs, owners = [], []
    for vn in variants:
        v = dict(VARIANTS[vn], name=vn)
        for name in names:
            rel = '%s/%s.pyx' % (NATIVE, name)
            src = {r: (b'' if r.endswith('.py') else d) for r, d in native.items()
                   if not r.endswith('.pyx') or r == rel}
            if v.get('checked'):
                src = {r: _checked(d.decode('utf-8')).encode('utf-8') for r, d in src.items()}
            key = _sha(tag, name, src[rel], shared, v['cflags'], v['ldflags'], bool(v.get('checked')))
            jobs.append((name, name + '-' + vn + '-' + key, src, v))
            owners.append((vn, name))
    with ThreadPoolExecutor(8) as ex:
        built = list(ex.map(_compile, jobs))
    suffix = sysconfig.get_config_var('EXT_SUFFIX')
    out = {}
    for vn in variants:
        sos = [(n, p) for (w, n), p in zip(owners, built) if w == vn]
        key = _sha(vn, [(r, _sha(d)) for r, d in sorted(data.items())], sos)
        dest = os.path.join(CACHE, 'tree', vn + '-' + key)
        if not os.path.isdir(dest):
            os.makedirs(os.path.dirname(dest), exist_ok=True)
            tmp = tempfile.mkdtemp(prefix='t-', dir=CACHE)
            for rel, d in data.items():
                p = os.path.join(tmp, rel)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                with open(p, 'wb') as f:
                    f.write(d)
            for n, p in sos:
                shutil.copy(p, os.path.join(tmp, NATIVE, n + suffix))
            try:
                os.rename(tmp, dest)
            except OSError:
                shutil.rmtree(tmp, ignore_errors=True)
        out[vn] = dest
    return out


if __name__ == '__main__':
    import time
    t = time.time()
    for k, p in build(sys.argv[1:] or list(VARIANTS)).items():
        print(k, p)
    print('%.1f s' % (time.time() - t))
