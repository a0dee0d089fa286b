"""C27: statistics per label"""
import math
import numpy as np
from vf import gen, orc, pipe, cli, ref
from vf.core import call
from vf.checks import c18

RULE = ('statistics, minimum and maximum cells, value lists, counts and value assignment on random data (13 element types, full range, ties, negative only, infinities, values which 32-bit sums lose) and labels (8 types, absent labels, one label, up to 100000 '
        'labels), six memory layouts each, number of labels given, omitted or larger, background 0 or other, native and pure; compared with an own pass over the raster; non-trivial: at least two labels; distinct by data and labels')
FUNCS = ['stats', 'min', 'max', 'data', 'count', 'set', 'keep', 'components']
MUST_OBSERVE = ['native_' + f for f in FUNCS] + ['pure_' + f for f in FUNCS] + ['absent', 'given', 'omitted', 'larger', 'ties', 'negative_only', 'other_background', 'big', 'lost_in_32_bits', 'infinite', 'zero_labels', 'one_cell', 'over_65535_cells'] + \
    ['d_' + t for t in ('f4', 'f8', 'i4', 'i8', 'u1', 'i2', 'f2', 'u4', 'b1')] + ['l_' + t for t in ('i4', 'i8', 'i2', 'u1', 'u2', 'u4')] + ['lay_' + x for x in gen.LAYOUTS]
MIN_EVENTS = 2000
CPU_LIMIT = 120


def cases(seed, tier):
    n = 700 if tier == 'quick' else 12000
    return [dict(seed=seed * 1000003 + i, big=i % 25 == 7, shape1=i % 20 == 3) for i in range(n)]


def order(data, labels):
    """{label: values in raster order}, {label: cells}"""
    v, p = {}, {}
    h, w = labels.shape
    for r in range(h):
        for c in range(w):
            k = int(labels[r, c])
            v.setdefault(k, []).append(data[r, c])
            p.setdefault(k, []).append((r, c))
    return v, p


def summary(data, labels):
    """Same as order() for big rasters, sorted by label"""
    flat, d = np.ascontiguousarray(labels).ravel().astype('i8'), np.ascontiguousarray(data).ravel()
    idx = np.argsort(flat, kind='stable')
    cut = np.flatnonzero(np.diff(flat[idx])) + 1
    v, p = {}, {}
    w = labels.shape[1]
    for q in np.split(idx, cut):
        k = int(flat[q[0]])
        v[k] = list(d[q])
        p[k] = [(int(x) // w, int(x) % w) for x in q]
    return v, p


def make(case, rng, rep):
    if case['big'] and rep == 0:
        h, w = int(rng.integers(200, 420)), int(rng.integers(200, 420))
        n = int(rng.choice([3, 1000, 100000]))
        l = rng.integers(0, n + 1, (h, w)).astype(str(rng.choice(['i4', 'i8', 'i4'])))
        d = rng.normal(size=(h, w)).astype(str(rng.choice(['f4', 'f8'])))
        return gen.layout(d, str(rng.choice(gen.LAYOUTS))), gen.layout(l, str(rng.choice(gen.LAYOUTS))), None
    if case['big'] and rep == 1:
        # a label of more cells than 16 bits count
        h, w = int(rng.integers(270, 330)), int(rng.integers(270, 330))
        l = (rng.random((h, w)) < .97).astype(str(rng.choice(['i4', 'i8', 'u1', 'i2'])))
        return rng.normal(size=(h, w)).astype(str(rng.choice(['f4', 'f8']))), l, None
    h, w = gen.shapes(rng, 24)
    if case['shape1'] and rep < 3:
        h, w = [(1, 1), (1, 12), (12, 1)][rep]
    d, l, nl = c18.labelled(rng, h, w, 'stats', str(rng.choice(gen.LAYOUTS)))
    if d.dtype.kind == 'f' and d.dtype.itemsize > 2 and rng.random() < .3:
        # values of which a sum in 32 bits loses much
        x = np.where(rng.random(d.shape) < .5, 16777216.0 * float(rng.choice([1, 8])), rng.integers(-3, 4, d.shape).astype('f8'))
        d = gen.layout(x.astype(d.dtype), 'C')
    elif d.dtype.kind == 'f' and rng.random() < .12:
        d = d.copy()
        d[rng.random(d.shape) < .2] = float(rng.choice([np.inf, -np.inf]))
    return d, l, nl


def run_case(case, o, d_):
    for rep in range(6):
        rng = np.random.default_rng([case['seed'], rep, 27])
        d, l, nl = make(case, rng, rep)
        if d.shape != l.shape:
            l = np.ascontiguousarray(l.T) if l.T.shape == d.shape else rng.integers(0, 5, d.shape).astype('i4')
            nl = None
        m = int(l.max())
        if nl is not None and nl < m:
            nl = m
        v, p = (summary if d.size > 2000 else order)(d, l)
        if d.size <= 2000:
            a, b = summary(d, l)
            assert sorted(a) == sorted(v) and all(p[k] == b[k] for k in v)
        for native in (True, False):
            if not native and d.size > 2000:
                continue
            judge(o, rng, d, l, nl, v, p, native)
        o.count('over_65535_cells', max(len(x) for x in p.values()) > 65535)
        o.count('big', d.size > 2000); o.count('one_cell', d.size == 1); o.count('zero_labels', m == 0); o.count('absent', len(v) <= m)
        o.count('d_' + d.dtype.str[1:]); o.count('l_' + l.dtype.str[1:])
        o.count('larger', nl is not None and nl > m); o.count('given', bool(nl)); o.count('omitted', nl is None)
        o.count('lay_' + layout_of(d, l))
        o.case(len(v) > 1, d, l)
        o.sample = '%s%s with %s labels up to %d' % (d.dtype.str, d.shape, l.dtype.str, m)


def layout_of(*arrays):
    for a in arrays:
        if a.flags.c_contiguous and a.base is None:
            continue
        if a.strides[0] < 0 or a.strides[1] < 0:
            return 'neg'
        if a.flags.f_contiguous and not a.flags.c_contiguous:
            return 'F' if a.base is None else 'T'
        if not a.flags.c_contiguous:
            return 'stride' if a.strides[1] != a.dtype.itemsize else 'sub'
    return 'C'


def judge(o, rng, d, l, nl, v, p, native):
    from malstroem.algorithms import label, speedups
    m = int(l.max())
    n = (nl or m) + 1
    mode = 'native' if native else 'pure'
    tag = '%s, %s%s labels %s, nlabels %s' % (mode, d.dtype.str, d.shape, l.dtype.str, nl)
    (speedups.enable if native else speedups.disable)()
    try:
        args = (d, l) if nl is None and rng.random() < .5 else (d, l, nl)
        s = call('label_stats', label.label_stats, *args)
        lo = call('label_min_index', label.label_min_index, *args)
        hi = call('label_max_index', label.label_max_index, *args)
        for name, r in (('label_stats', s), ('label_min_index', lo), ('label_max_index', hi)):
            if len(r) != n:
                o.bad('length:' + name, '%s: %s has %d entries, not %d' % (tag, name, len(r), n))
                return
        for k in range(n):
            q = v.get(k)
            if q is None:
                if int(s['count'][k]) != 0 or float(s['sum'][k]) != 0 or s['min'][k] != np.inf or s['max'][k] != -np.inf:
                    o.bad('neutral', '%s: label %d without cells has %s' % (tag, k, s[k]))
                    return
                if (lo['value'][k], int(lo['row'][k]), int(lo['col'][k])) != (np.inf, -1, -1) or (hi['value'][k], int(hi['row'][k]), int(hi['col'][k])) != (-np.inf, -1, -1):
                    o.bad('neutral', '%s: label %d without cells has minimum %s and maximum %s' % (tag, k, lo[k], hi[k]))
                    return
                continue
            f = [float(x) for x in q]
            a, b = min(f), max(f)
            if int(s['count'][k]) != len(f):
                o.bad('count', '%s: count of label %d is %s, not %d' % (tag, k, s['count'][k], len(f)))
                return
            if float(s['min'][k]) != a or float(s['max'][k]) != b:
                o.bad('range', '%s: label %d has minimum %r and maximum %r, not %r and %r' % (tag, k, s['min'][k], s['max'][k], a, b))
                return
            if all(math.isfinite(x) for x in f):
                t, big = math.fsum(f), math.fsum(abs(x) for x in f)
                if abs(float(s['sum'][k]) - t) > 1e-15 * len(f) * big:
                    o.bad('sum', '%s: sum of label %d is %r, not %r' % (tag, k, s['sum'][k], t))
                    return
                o.count('lost_in_32_bits', d.dtype.kind == 'f' and big < 1e30 and float(np.add.accumulate(np.array(f, 'f4'))[-1]) != t)
            else:
                if float(s['sum'][k]) != sum(f):
                    o.bad('sum', '%s: sum of label %d is %r, not %r' % (tag, k, s['sum'][k], sum(f)))
                    return
                o.count('infinite')
            o.count('ties', f.count(a) > 1); o.count('negative_only', b < 0)
            for name, r, x, none in (('minimum', lo, a, np.inf), ('maximum', hi, b, -np.inf)):
                i = p[k][f.index(x)]
                if x == none:
                    # an infinite value is not smaller than the initial one
                    continue
                if (float(r['value'][k]), int(r['row'][k]), int(r['col'][k])) != (x,) + i:
                    o.bad('index', '%s: first %s of label %d is at %s with %r, not at %s with %r' % (tag, name, k, (int(r['row'][k]), int(r['col'][k])), r['value'][k], i, x))
                    return
        o.event(n)
        o.count(mode + '_stats'); o.count(mode + '_min'); o.count(mode + '_max')
        bg = int(rng.choice([0, 0, m, -1, 1]))
        kw = {} if bg == 0 and rng.random() < .5 else dict(background=bg)
        r = call('label_data', label.label_data, *args, **kw)
        if len(r) != n:
            o.bad('length:label_data', '%s: label_data has %d lists, not %d' % (tag, len(r), n))
            return
        for k in range(n):
            want = [] if k == bg else v.get(k, [])
            got = list(r[k])
            if len(got) != len(want) or any(float(x) != float(y) for x, y in zip(got, want)):
                o.bad('data', '%s: values of label %d (background %d) are %s.., not %s..' % (tag, k, bg, [float(x) for x in got[:5]], [float(x) for x in want[:5]]))
                return
        o.count('other_background', bg != 0)
        o.count(mode + '_data')
        if l.dtype.str[1:] != 'u8':
            r = call('label_count', label.label_count, l)
            want = [len(v.get(k, ())) for k in range(m + 1)]
            if [int(x) for x in r] != want:
                o.bad('label_count', '%s: label_count differs' % tag)
            o.count(mode + '_count')
        vals = rng.normal(size=m + 1 + int(rng.integers(0, 3))).astype(str(rng.choice(['f8', 'f4', 'f8']))) if rng.random() < .7 else rng.integers(-2 ** 40, 2 ** 40, m + 1)
        if rng.random() < .2:
            vals[0] = -np.inf if vals.dtype.kind == 'f' else vals[0]
        given = [vals, list(vals), tuple(vals)][int(rng.integers(3))]
        r = np.asarray(call('set_label_to_value', label.set_label_to_value, l, given))
        if r.shape != l.shape or not np.array_equal(r, vals[np.ascontiguousarray(l).astype('i8')]):
            o.bad('set', '%s: set_label_to_value puts another value in a cell' % tag)
        o.count(mode + '_set')
        keep = rng.random(m + 1) < .5
        bg = int(rng.choice([0, 0, m]))
        given = [keep.copy(), [bool(x) for x in keep], [int(x) for x in keep]][int(rng.integers(3))]
        r = np.asarray(call('keep_labels', label.keep_labels, l, given, bg))
        k2 = keep.copy()
        k2[bg] = False
        if r.shape != l.shape or not np.array_equal(r.astype(bool), k2[np.ascontiguousarray(l).astype('i8')]):
            o.bad('keep', '%s: keep_labels keeps other cells (background %d)' % (tag, bg))
        o.count(mode + '_keep')
        if d.size <= 2000:
            mask = (np.ascontiguousarray(l) % 2).astype(['?', 'u1', 'f8'][int(rng.integers(3))])
            r, k = call('connected_components', label.connected_components, mask)
            components(o, tag, np.asarray(r), int(k), mask.astype(bool))
            o.count(mode + '_components')
    finally:
        speedups.enable()


def components(o, tag, r, k, mask):
    """Each 8-connected region has one of the numbers 1..k, and nothing else"""
    if not np.array_equal(r > 0, mask) or (r < 0).any():
        o.bad('components', '%s: labelled cells are not the cells with data' % tag)
        return
    if sorted(set(r[mask].tolist())) != list(range(1, k + 1)):
        o.bad('components', '%s: labels are not 1 to %d' % (tag, k))
        return
    seen = np.zeros(r.shape, bool)
    done = set()
    h, w = r.shape
    for a, b in np.argwhere(mask):
        if seen[a, b]:
            continue
        x = r[a, b]
        if x in done:
            o.bad('components', '%s: two regions have label %d' % (tag, x))
            return
        done.add(x)
        st = [(a, b)]
        seen[a, b] = True
        while st:
            y, z = st.pop()
            for i in range(max(0, y - 1), min(h, y + 2)):
                for j in range(max(0, z - 1), min(w, z + 2)):
                    if mask[i, j] and not seen[i, j]:
                        if r[i, j] != x:
                            o.bad('components', '%s: neighbours %s and %s have labels %d and %d' % (tag, (y, z), (i, j), x, r[i, j]))
                            return
                        seen[i, j] = True
                        st.append((i, j))
