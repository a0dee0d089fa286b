"""Reference models (no malstroem code)"""
import ctypes, hashlib, os, subprocess, tempfile
import numpy as np

HERE = os.path.dirname(os.path.abspath(__file__))
_lib = None


def lib():
    global _lib
    if _lib is None:
        src = os.path.join(HERE, 'ref.c')
        key = hashlib.sha256(open(src, 'rb').read()).hexdigest()[:16]
        d = os.path.join(os.path.dirname(HERE), '.cache', 'ref')
        so = os.path.join(d, 'ref-%s.so' % key)
        if not os.path.exists(so):
            os.makedirs(d, exist_ok=True)
            fd, tmp = tempfile.mkstemp(dir=d, suffix='.so')
            os.close(fd)
            env = {k: v for k, v in os.environ.items() if k != 'LD_PRELOAD'}
            subprocess.run(['/usr/bin/gcc', '-O2', '-shared', '-fPIC', '-o', tmp, src, '-lm'], check=True, env=env)
            os.replace(tmp, so)
        _lib = ctypes.CDLL(so)
        _lib.count_up.restype = ctypes.c_int64
        _lib.regions.restype = ctypes.c_int64
    return _lib


def _p(a):
    return a.ctypes.data_as(ctypes.c_void_p)


def flood(z, short=0.0, diag=0.0):
    z = np.ascontiguousarray(z, dtype='f8')
    out = np.empty_like(z)
    h, w = z.shape
    assert lib().flood(_p(z), ctypes.c_int64(h), ctypes.c_int64(w), ctypes.c_double(short), ctypes.c_double(diag), _p(out)) == 0
    return out


DR = np.array([-1, -1, 0, 1, 1, 1, 0, -1, 0])
DC = np.array([0, 1, 1, 1, 0, -1, -1, -1, 0])


def next_index(fd):
    """Flat index of the cell each cell flows to; its own index if the path ends here. Also mask of cells leaving"""
    fd = np.asarray(fd).astype('i8')
    h, w = fd.shape
    r, c = np.mgrid[0:h, 0:w]
    k = np.where((fd >= 0) & (fd <= 7), fd, 8)
    a, b = r + DR[k], c + DC[k]
    off = (a < 0) | (b < 0) | (a >= h) | (b >= w)
    nxt = np.where(off, r * w + c, a * w + b)
    return np.ascontiguousarray(nxt.ravel(), dtype='i8'), off


def count_up(nxt):
    out = np.empty(len(nxt), dtype='i8')
    cyc = lib().count_up(_p(nxt), ctypes.c_int64(len(nxt)), _p(out))
    return out, cyc


def accum(fd):
    nxt, off = next_index(fd)
    out, cyc = count_up(nxt)
    return out.reshape(np.asarray(fd).shape), cyc


def regions(key):
    key = np.ascontiguousarray(key, dtype='i8')
    out = np.empty_like(key)
    n = lib().regions(_p(key), ctypes.c_int64(key.shape[0]), ctypes.c_int64(key.shape[1]), _p(out))
    return out, n


def downstream(nxt, stop):
    """For each cell the first cell on its path (itself included) where stop holds or the path ends"""
    j = np.where(stop, np.arange(len(nxt)), nxt)
    while True:
        k = j[j]
        if np.array_equal(k, j):
            return j
        j = k


def watersheds(fd, labels, background=0):
    nxt, _ = next_index(fd)
    lab = np.asarray(labels).ravel()
    end = downstream(nxt, lab != background)
    return lab[end].reshape(np.asarray(labels).shape)


def stats(data, labels, n):
    """Exact per label statistics (float64 of the cell values; sums correctly rounded by fsum)"""
    import math
    data = np.asarray(data)
    lab = np.asarray(labels).ravel().astype('i8')
    order = np.argsort(lab, kind='stable')
    sl = lab[order]
    sd = data.ravel()[order]
    lo = np.searchsorted(sl, np.arange(n + 1), 'left')
    hi = np.searchsorted(sl, np.arange(n + 1), 'right')
    out = []
    for k in range(n + 1):
        ix = order[lo[k]:hi[k]]
        v = sd[lo[k]:hi[k]]
        f = v.astype('f8')
        if len(v) == 0:
            out.append(dict(count=0, min=float('inf'), max=float('-inf'), sum=0.0, imin=-1, imax=-1, values=v, cells=ix))
            continue
        out.append(dict(count=len(v), min=float(f.min()), max=float(f.max()), sum=math.fsum(f.tolist()), abssum=float(np.abs(f).sum()),
                        imin=int(ix[int(np.argmin(f))]), imax=int(ix[int(np.argmax(f))]), values=v, cells=ix))
    return out


def level_for_volume(z, area, vol):
    """Exact water level at which terrain cells z (each `area`) hold vol"""
    z = np.sort(np.asarray(z, dtype='f8'))
    cum = np.concatenate(([0.0], np.cumsum(z)))
    n = len(z)
    k = np.arange(1, n + 1)
    # volume when level = z[k] (k cells below)
    v = (k[:-1] * z[1:] - cum[1:n]) * area if n > 1 else np.array([])
    m = int(np.searchsorted(v, vol, 'left')) + 1      # number of cells under water
    return float((vol / area + cum[m]) / m)


def increments(dem):
    """Smallest safe increments as documented: proportional to the float spacing at the largest absolute elevation"""
    m = float(np.max(np.abs(np.asarray(dem, dtype='f8'))))
    s = (np.nextafter(m, np.inf) - m) * 1024
    return s, s * 2 ** 0.5
