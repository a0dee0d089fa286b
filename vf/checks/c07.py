"""C07: filter expressions"""
import os, re, sys
import numpy as np
from vf import cli, orc, ref
from vf.core import call

RULE = ('generated expressions of the documented grammar (depth to 6, chains to 120 terms, redundant and needed parentheses, every operator, operands on both sides, spacing) applied to grids of statistics which meet the '
        'thresholds exactly or by the next float, to bspots, BluespotTool and complete; texts with one illegal part hidden in a legal one, watched by an audit hook; non-trivial: an accepted expression true and false on some bluespot, or a refused text; '
        'distinct by text')
MUST_OBSERVE = ['accepted', 'true', 'false', 'op_<', 'op_>', 'op_<=', 'op_>=', 'op_==', 'op_!=', 'mixed_and_or', 'refused', 'cmd_accepted', 'cmd_refused', 'complete_refused', 'complete_accepted', 'empty', 'exact_hits', 'near_hits']
MIN_EVENTS = 2000
OPS = {'<': lambda a, b: a < b, '>': lambda a, b: a > b, '<=': lambda a, b: a <= b, '>=': lambda a, b: a >= b, '==': lambda a, b: a == b, '!=': lambda a, b: a != b}
Q = ['area', 'maxdepth', 'volume']
BAD_WORDS = ['not', 'in', 'is', 'if', 'else', 'True', 'None', 'lambda', 'max', 'depth', 'AREA', 'Area', 'areas', 'andor', 'orand', 'xor', 'print', 'stats', 'exit', 'x', 'e5', 'areaarea', 'maxarea', 'volumes',
             'depthmax', 'maxdepthvolume', '_', '__import__', 'os', 'andarea', 'areaor', 'ａrea', 'årea', 'vol', 'eolume', 'ar', 'ea', 'nan', 'inf', 'min', 'count', 'sum', 'or_', 'and1_', 'mand', 'b', 'j', 'L',
             'maxvolumedepth', 'arorea', 'vandolume', 'anand', 'oor', 'aand', 'oarear', 'avolumend']
BAD_CHARS = list('+-*/%[]{}"\';:#\\`~@&|^$?,_') + ['²', '٣', '≥', '\x00', '–', '»']


def cases(seed, tier):
    n = 120 if tier == 'quick' else 1200
    out = [dict(t='lib', seed=seed * 100003 + i) for i in range(n)]
    out += [dict(t='refuse', seed=seed * 100003 + i) for i in range(n // 2)]
    out += [dict(t='cmd', seed=seed * 100003 + i) for i in range(n * 2)]
    return out


def num_text(rng, v):
    """A way to write the number"""
    s = repr(float(v))
    if 'e' in s or 'n' in s:
        return None
    forms = [s]
    if float(v) == int(v):
        forms += [str(int(v)), str(int(v)) + '.', str(int(v)) + '.00']
    if s.startswith('0.'):
        forms += [s[1:]]
    forms += [s + '0' if '.' in s else s]
    return str(rng.choice(forms))


class G:
    def __init__(self, rng, values):
        self.rng, self.values = rng, values

    def sp(self, need=False):
        return str(self.rng.choice([' ', ' ', '  ', '   ', '\t'] if need else ['', ' ', ' ', '  ']))

    def operand(self, q):
        r = self.rng
        if q:
            n = str(r.choice(Q))
            t, e = n, ('q', n)
        else:
            v = float(r.choice(self.values))
            t = num_text(r, v)
            if t is None:
                v, t = 1.5, '1.5'
            e = ('n', v)
        while r.random() < .08:
            t = '(' + self.sp() + t + self.sp() + ')'
        return t, e

    def comp(self):
        r = self.rng
        k = r.random()
        a, b = (True, False) if k < .7 else (False, True) if k < .85 else (True, True) if k < .95 else (False, False)
        op = str(r.choice(list(OPS)))
        x, y = self.operand(a), self.operand(b)
        return x[0] + self.sp() + op + self.sp() + y[0], ('c', op, x[1], y[1])

    def expr(self, depth):
        """(text, tree, precedence: 0 or, 1 and, 2 atom)"""
        r = self.rng
        if depth <= 0 or r.random() < .2:
            t, e = self.comp()
            p = 2
        else:
            op = str(r.choice(['and', 'or']))
            n = int(r.choice([2, 2, 2, 3, 4]))
            parts = [self.expr(depth - 1) for _ in range(n)]
            p = 1 if op == 'and' else 0
            ts = []
            for t, e, q in parts:
                # 'and' of an 'or' needs parentheses, all else may have them
                if q < p or (q < 2 and q == p and r.random() < .5):
                    t = '(' + self.sp() + t + self.sp() + ')'
                ts.append(t)
            t = ts[0]
            for u in ts[1:]:
                left = ' ' if not t.endswith(')') else self.sp()
                right = self.sp(True) if not u.startswith('(') else self.sp()
                t = t + (left or '') + op + right + u
            e = (op, [x[1] for x in parts])
        while r.random() < .12:
            t, p = '(' + self.sp() + t + self.sp() + ')', 2
        return t, e, p

    def chain(self, n):
        """Without any parentheses"""
        r = self.rng
        groups, cur, t = [], [], ''
        for i in range(n):
            a, e = self.comp()
            if i:
                op = str(r.choice(['and', 'or']))
                t += ' ' + op + ' '
                if op == 'or':
                    groups.append(cur)
                    cur = []
            t += a
            cur.append(e)
        groups.append(cur)
        return t, ('or', [('and', g) for g in groups])


def ev(e, s):
    if e[0] == 'c':
        v = [s[x[1]] if x[0] == 'q' else x[1] for x in e[2:]]
        return bool(OPS[e[1]](*v))
    r = [ev(x, s) for x in e[1]]
    return all(r) if e[0] == 'and' else any(r)


def ops_of(e, out):
    if e[0] == 'c':
        out.add(e[1])
    else:
        for x in e[1]:
            ops_of(x, out)
        if e[0] in ('and', 'or') and any(x[0] in ('and', 'or') and x[0] != e[0] for x in e[1]):
            out.add('mixed')
    return out


def make(rng, values):
    g = G(rng, values)
    if rng.random() < .2:
        return g.chain(int(rng.choice([2, 3, 5, 10, 40, 120])))
    t, e, _ = g.expr(int(rng.integers(0, 6)))
    if len(t) > 4000:
        t, e = g.comp()
    if rng.random() < .1:
        t = t + '  '
    return t, e


def stat(a, m, v):
    return dict(min=0.001, max=m, sum=v * 2, count=int(max(1, a)), volume=v, area=a)


WRONG = ['=>', '=<', '<>', '><', '=', '!', '===', '!==', '> =', '< =', '! =', '= =', '>>', '<<', '<<=', '>>=', '>>>', '=!', '= >', '<<<', '', '==>', '<=>', '>==', '...', '<(', ') >']
FORMS = ['(%s)(volume > 2)', '(area > 1)(%s)', '%s and', 'or %s', 'and %s', '%s or or area > 1', '%s and or area > 1', '(%s', '%s)', '()', '%s or ()', '() or %s', '%s and ...', '%s or area.area > 1', '%s or area() > 1', '%s or volume (2) > 1',
         '%s or 2 area > 1', '%s or area > 1 2', '%s area > 1', '%s or area maxdepth > 1', '%s or area >', '%s or > 2', '%s and area > 1.2.3', '%s or area >> 1', '%s or 1 << area > 2', '%s or (area > 1) maxdepth > 2', ')%s(', '%s and (volume > 1',
         '%s or area > 1 . 5', '%s or . > 1', 'area %s']


def malformed(rng, t):
    """Only legal words and characters which form no filter"""
    if rng.random() < .55:
        m = list(re.finditer('[<>=!]+', t))
        if m:
            m = m[int(rng.integers(len(m)))]
            return t[:m.start()] + str(rng.choice(WRONG)) + t[m.end():]
    f = str(rng.choice(FORMS))
    return f.replace('%s', t)


def poison(rng, t):
    """A legal text with one illegal part"""
    if rng.random() < .3:
        return malformed(rng, t)
    k = int(rng.integers(6))
    if k == 0:
        i = int(rng.integers(len(t) + 1))
        return t[:i] + BAD_CHARS[int(rng.integers(len(BAD_CHARS)))] + t[i:]
    if k == 1:
        w = str(rng.choice(BAD_WORDS))
        for q in rng.permutation(Q + ['and', 'or']):
            if q in t.split() or q in t:
                return t.replace(str(q), w, 1)
    if k == 2:
        return t + ' ' + str(rng.choice(['and', 'or'])) + ' ' + str(rng.choice(BAD_WORDS)) + ' > 2'
    if k == 3:
        return str(rng.choice(BAD_WORDS)) + ' or ' + t
    if k == 4:
        return str(rng.choice(['%s, open("side_effect", "w")', '%s or open("side_effect", "w")', 'print(1) or %s', '%s and __import__("os").mkdir("side_effect")', '[open("side_effect","w") for x in [1]] or %s',
                               '%s if 1 else 2', 'not %s', '%s # comment', '%s; open("side_effect","w")', '%s + 1', '-%s', 'stats["min"] > 0 and %s', '(lambda: %s)()', '%s or exit()', '%s\n, open("side_effect","w")',
                               'area.real > 1 and %s', 'area.__class__ and %s', '%s or maxdepth > 1e3', '%s or area > 0x10', '%s or area > 1_0', '%s or area > 5j', '%s == True', '%s or min > 1', 'max > 1 or %s',
                               'sum > 1 and %s', 'area in (1.5, 2.5) or %s', '%s or "area"', "%s or 'volume'"])) % t
    i = int(rng.integers(len(t) + 1))
    return t[:i] + str(rng.choice(['é', 'Ω', '_', '"', ',', '{', ':', '@'])) + t[i:]


def near(rng, v):
    """A value next to v"""
    k = int(rng.integers(6))
    s = float(rng.choice([-1, 1]))
    return [float(np.nextafter(v, s * np.inf)), float(np.float32(v)), v * (1 + s * 1e-9), v + s * 1e-7, v * (1 + s * 1e-4), v + s * .004][k]


def run_case(case, o, d):
    from malstroem.scripts import _utils
    rng = np.random.default_rng([case['seed'], 7])
    if case['t'] == 'lib':
        values = [0.0, 1.0, 2.0, 2.5, .05, 10.0, 100.0, .125, 20.5, 3.0, round(float(rng.random() * 10), 3), 123456.75, float(rng.random()), float(rng.random() * 1000), float(np.float32(.3))]
        fs = []
        for _ in range(40):
            t, e = make(rng, values)
            fs.append((t, e, call('filter %r' % t[:300], _utils.parse_filter, t)))
        for t, e, f in fs:
            seen = set()
            for _ in range(12):
                s = {q: float(rng.choice(values)) if rng.random() < .7 else float(np.round(rng.random() * 30, 2)) for q in Q}
                for q in Q:
                    if rng.random() < .4:
                        s[q] = near(rng, s[q])
                        o.count('near_hits', s[q] not in values)
                want = ev(e, s)
                st = stat(s['area'], s['maxdepth'], s['volume'])
                keep = dict(st)
                got = bool(call('applying filter %r' % t[:300], f, st))
                if got != want:
                    o.bad('meaning', 'filter %r is %s for area %r maxdepth %r volume %r' % (t[:400], got, s['area'], s['maxdepth'], s['volume']))
                    break
                if st != keep:
                    o.bad('changed', 'filter %r changes the statistics' % t[:300])
                seen.add(want)
                o.count('true' if want else 'false')
            for x in ops_of(e, set()):
                o.count('op_' + x if x != 'mixed' else 'mixed_and_or')
            o.count('accepted')
            o.case(len(seen) == 2, t)
        for x in ('', None):
            f = call('empty filter', _utils.parse_filter, x)
            o.count('empty')
            if not all(f(stat(a, a, a)) for a in (0.0, 1.0, 1e9)):
                o.bad('empty', 'the empty filter %r removes bluespots' % (x,))
        o.sample = fs[0][0][:200]
    elif case['t'] == 'refuse':
        refuse(o, rng, d, _utils)
    else:
        command(o, rng, d, case)


_watch = None
_hooked = False


def hook(ev, args):
    if _watch is not None and ev in ('open', 'os.mkdir', 'os.system', 'subprocess.Popen', 'import', 'os.remove', 'builtins.input', 'exec'):
        _watch.append(ev)


def refuse(o, rng, d, u):
    global _watch, _hooked
    if not _hooked:
        sys.addaudithook(hook)
        _hooked = True
    # whatever is imported on first use
    for t in ('area > 1', 'area > 1 and foo', 'area > "1"', ''):
        try:
            u.parse_filter(t)
        except Exception:
            pass
    old = os.getcwd()
    os.chdir(d)
    try:
        for _ in range(60):
            t, e = make(rng, [1.0, 2.5, .05])
            if len(t) > 600:
                continue
            bad = poison(rng, t)
            _watch = []
            err = None
            try:
                u.parse_filter(bad)
            except Exception as ex:
                err = ex
            w, _watch = _watch, None
            o.count('refused')
            if err is None:
                o.bad('accepted', 'filter %r is accepted' % bad[:400])
            if w:
                o.bad('evaluated', 'refusing filter %r performs %s' % (bad[:300], w))
            if os.listdir(d):
                o.bad('side-effect', 'filter %r creates files' % bad[:300])
            o.case(True, bad)
    finally:
        _watch = None
        os.chdir(old)
    o.sample = bad[:200]


def command(o, rng, d, case):
    """Depths which are multiples of 1/8 keep all sums exact"""
    from malstroem import bluespots
    h, w = int(rng.integers(6, 22)), int(rng.integers(6, 22))
    cell = float(rng.choice([1.0, 2.0, .5]))
    gt = (1000.0, cell, 0.0, 5000.0, 0.0, -cell)
    z = rng.integers(0, 40, (h, w)) / 8.0
    z = z.astype('f4')
    dep = (ref.flood(z) - z).astype('f4')
    lab, n = ref.regions(dep > 0)
    lab = np.asarray(lab).reshape(z.shape)
    ids = [i for i in range(1, n + 1)]
    st = {}
    for i in ids:
        m = lab == i
        st[i] = dict(area=float(m.sum()) * cell * cell, maxdepth=float(dep[m].max()), volume=float(dep[m].astype('f8').sum()) * cell * cell)
    values = sorted({v for s in st.values() for v in s.values()}) or [1.0]
    for _ in range(50):
        t, e = make(rng, values)
        if len({ev(e, s) for s in st.values()}) == 2 or not ids:
            break
    mode = case['seed'] % 5
    bad = None
    if mode in (3, 4) and rng.random() < .6:
        bad = poison(rng, t)
        if '\x00' in bad:
            bad = t + ' @'
    keep = np.zeros(z.shape, bool)
    for i in ids:
        if ev(e, st[i]):
            keep |= lab == i
    for s in st.values():
        for x in leaves(e):
            o.count('exact_hits', x[0] == 'q1' and s[x[1]] == x[2])
    if mode in (0, 1):
        cli.write_tif(os.path.join(d, 'dep.tif'), dep, gt=gt)
        cli.ok(['bspots', '-depths', os.path.join(d, 'dep.tif'), '-out', os.path.join(d, 'b.tif'), '-filter', t])
        got = cli.arr(os.path.join(d, 'b.tif'))
        o.count('cmd_accepted')
        if case['seed'] % 4 == 0:
            cli.ok(['bspots', '-depths', os.path.join(d, 'dep.tif'), '-out', os.path.join(d, 'e.tif'), '-filter', ''])
            if not np.array_equal(cli.arr(os.path.join(d, 'e.tif')) > 0, dep > 0):
                o.bad('empty', 'bspots -filter "" does not keep every bluespot')
            o.count('empty')
    elif mode == 2:
        from malstroem.scripts import _utils
        f = call('filter', _utils.parse_filter, t)
        fd = np.full(z.shape, 8, 'u1')
        wr = cli.MemRaster(gt=gt)
        tool = bluespots.BluespotTool(cli.MemRaster(dep, gt), cli.MemRaster(fd, gt), f, wr, cli.MemVector(), cli.MemRaster(gt=gt), input_dem=cli.MemRaster(z, gt))
        call('BluespotTool', tool.process)
        got = wr.written[0]
        o.count('tool_accepted')
    elif bad is not None:
        if mode == 3:
            cli.write_tif(os.path.join(d, 'dep.tif'), dep, gt=gt)
            out = os.path.join(d, 'out'); os.makedirs(out)
            args = ['bspots', '-depths', os.path.join(d, 'dep.tif'), '-out', os.path.join(out, 'b.tif'), '-filter', bad]
            if rng.random() < .5:
                cli.write_tif(os.path.join(out, 'b.tif'), dep[::-1].astype('i4'), gt=gt)
            o.count('cmd_refused')
        else:
            cli.write_tif(os.path.join(d, 'dem.tif'), z, gt=gt)
            out = os.path.join(d, 'out'); os.makedirs(out)
            args = cli.complete_args(os.path.join(d, 'dem.tif'), out, filt=bad)
            o.count('complete_refused')
        before = cli.tree_digest(d)
        code, text, exc = cli.run(args, cwd=d)
        if code == 0:
            o.bad('accepted', '%s accepts filter %r' % (args[0], bad[:300]))
        after = cli.tree_digest(d)
        if after != before:
            o.bad('output', '%s writes %s although filter %r is refused' % (args[0], sorted(set(after) ^ set(before))[:4], bad[:300]))
        o.case(True, 'cmd', bad)
        o.sample = bad[:200]
        return
    else:
        cli.write_tif(os.path.join(d, 'dem.tif'), z, gt=gt)
        out = os.path.join(d, 'out'); os.makedirs(out)
        cli.ok(cli.complete_args(os.path.join(d, 'dem.tif'), out, filt=t))
        got = cli.arr(os.path.join(out, 'bluespots.tif'))
        o.count('complete_accepted')
    if not np.array_equal(np.asarray(got) > 0, keep):
        p, k = orc.first((np.asarray(got) > 0) != keep)
        o.bad('kept', 'filter %r: the bluespot with %s is %s (mode %d)' % (t[:300], st.get(int(lab[p])), 'kept' if got[p] else 'removed', mode))
    o.case(0 < keep.sum() < (dep > 0).sum(), 'cmd', t, z)
    o.sample = t[:200]


def leaves(e):
    if e[0] == 'c':
        a, b = e[2], e[3]
        if a[0] == 'q' and b[0] == 'n':
            return [('q1', a[1], b[1])]
        if b[0] == 'q' and a[0] == 'n':
            return [('q1', b[1], a[1])]
        return []
    return [x for y in e[1] for x in leaves(y)]
