import itertools

import numpy as np
import wafo.misc as wm
from wafo.objects import TimeSeries, CyclePairs
from vlib import gen, ref
from vlib.harness import family

RULE = ('seeded sets of cycle pairs (ties, degenerate, reversed orientation, one cycle) and cycle pairs of hostile signals; '
        'all cycle sets over a small alphabet enumerated; non-trivial: at least one cycle of positive range')
ASSUMPTIONS = ['level m..M of a cycle counted by direct comparison in this file']


def direct(m, M, u, kind):
    m, M = m[:, None], M[:, None]
    u = u[None, :]
    r = {1: (m < u) & (u < M), 2: (m < u) & (u <= M), 3: (m <= u) & (u <= M), 4: (m <= u) & (u < M)}[kind]
    # a cycle of zero range contributes its minimum and its maximum at the same level
    return r.sum(axis=0)


def cpairs(ctx, n=None, grid=None):
    n = n or int(ctx.rng.choice([1, 2, 3, 5, 20, 100, 400]))
    grid = grid or ctx.rng.choice([2, 8, 1000])
    a = ctx.rng.randint(-grid, grid + 1, n) / 8.
    b = a + ctx.rng.randint(1, grid + 1, n) / 8.
    return a, b


def make(m, M, **kw):
    return CyclePairs(M, m, mean=0.0, sigma=1.0, **kw)


@family(shards=2)
def crossing_spectrum(ctx):
    for _ in ctx.loop(400):
        m, M = cpairs(ctx)
        T = float(ctx.rng.choice([1., 10., 0.5]))
        with ctx.case(m=m, M=M):
            cp = make(m, M, time=T)
            levels = np.unique(np.r_[m, M])
            for kind in (1, 2, 3, 4):
                lc = cp.level_crossings(kind=kind)
                ctx.equal(lc.args, levels, 'levels:%d' % kind)
                want = direct(m, M, levels, kind)
                k = slice(None)
                if kind == 4:      # the last level is the highest maximum: the count is carried over
                    k = slice(0, -1)
                ctx.equal(lc.data[k], want[k], 'count:%d' % kind)
                li = cp.level_crossings(kind=kind, intensity=True)
                ctx.close(li.data, lc.data / T, 'intensity:%d' % kind, rtol=1e-12)
            d = cp.level_crossings()
            ctx.equal(d.args, levels, 'levels:default')
            ctx.equal(d.data, direct(m, M, levels, 1), 'count:default')
            # reordering the cycles changes nothing
            p = ctx.rng.permutation(m.size)
            lc2 = make(m[p], M[p]).level_crossings(kind=2)
            ctx.equal(lc2.data, cp.level_crossings(kind=2).data, 'permutation')
            ctx.equal(lc2.args, levels, 'permutation:levels')
            # pairs given with the roles exchanged
            sw = CyclePairs(m, M, mean=0.0, sigma=1.0)
            ctx.equal(sw.level_crossings(kind=1).data, direct(m, M, levels, 1), 'reversed')
            # additivity
            m2, M2 = cpairs(ctx, n=5)
            both = make(np.r_[m, m2], np.r_[M, M2]).level_crossings(kind=1)
            ctx.equal(both.data, direct(m, M, both.args, 1) + direct(m2, M2, both.args, 1), 'additive')
            ctx.count('levels', levels.size)


@family()
def crossing_exhaustive(ctx):
    pairs = [(a, b) for a in range(4) for b in range(a + 1, 4)]
    for n in (1, 2, 3):
        with ctx.case(cycles=n, alphabet='0..3'):
            for c in itertools.product(pairs, repeat=n):
                ctx.evaluations += 1
                a = np.array(c, dtype=float)
                levels = np.unique(a)
                for kind in (1, 2, 3):
                    lc = make(a[:, 0], a[:, 1]).level_crossings(kind=kind)
                    ctx.equal(lc.data, direct(a[:, 0], a[:, 1], levels, kind), 'exhaustive:%d' % kind, repr(c))


@family(shards=2)
def amplitudes_damage(ctx):
    for _ in ctx.loop(400):
        m, M = cpairs(ctx)
        swap = ctx.rng.rand(m.size) < ctx.rng.choice([0., 0.5, 1.])
        a, b = np.where(swap, M, m), np.where(swap, m, M)
        betas = ctx.rng.choice([1., 2., 3., 3.5, 5., 0.5, 8.], 3)
        K = float(ctx.rng.choice([1., 2.5, 1e-3]))
        with ctx.case(m=a, M=b, beta=betas, K=K):
            cp = CyclePairs(b.copy(), a.copy(), mean=0.0, sigma=1.0)
            ctx.close(cp.amplitudes(), (b - a) / 2, 'amplitudes', rtol=1e-14)
            want = [K * sum((abs(y - x) / 2) ** be for x, y in zip(a, b)) for be in betas]
            ctx.close(cp.damage(betas, K), want, 'damage', rtol=1e-10)
            ctx.close(cp.damage(list(betas)), np.array(want) / K, 'damage:default_K', rtol=1e-10)
            ctx.close(cp.damage([3], K), [K * np.sum((np.abs(b - a) / 2) ** 3)], 'damage:one', rtol=1e-10)
            p = ctx.rng.permutation(a.size)
            ctx.close(CyclePairs(b[p], a[p]).damage(betas, K), want, 'damage:permutation', rtol=1e-10)
            k = int(ctx.rng.randint(0, a.size + 1))
            parts = CyclePairs(b[:k], a[:k]).damage(betas, K) + CyclePairs(b[k:], a[k:]).damage(betas, K)
            ctx.close(parts, want, 'damage:additive', rtol=1e-10)
            s = 2.0
            ctx.close(CyclePairs(s * b + 3, s * a + 3).damage(betas, K), np.array(want) * s ** betas, 'damage:scale',
                      rtol=1e-10)
            ctx.equal(cp.data, b, 'damage:pure')
            mm, MM = cp.get_minima_and_maxima()
            ctx.ok(mm <= MM, 'minmax:ordered')
            if not swap.any() or swap.all():
                ctx.equal(np.c_[mm, MM], np.c_[m, M], 'minmax:all')


@family(shards=2)
def series_crossings(ctx):
    for _ in ctx.loop(200):
        x = gen.signal(ctx.rng, n=int(ctx.rng.choice([30, 100, 400])), kind=ctx.rng.choice(
            ['noise', 'sine', 'walk', 'steps', 'offset', 'few']))
        if ref.turning_points(x) is None or np.ptp(x) == 0:
            continue
        with ctx.case(x=x):
            ts = TimeSeries(x, np.arange(x.size) * 0.25)
            tp = ts.turning_points()
            ctx.close(tp.mean, x.mean(), 'series:mean', rtol=1e-12, atol=1e-14)
            ctx.close(tp.sigma, x.std(), 'series:sigma', rtol=1e-12)
            cp = tp.cycle_pairs()
            ctx.ok(cp.mean == tp.mean and cp.sigma == tp.sigma, 'series:carry')
            lc = cp.level_crossings(kind=4)
            mid = 0.5 * (lc.args[1:] + lc.args[:-1])
            want = [len(ref.select(ref.crossings(x, u), 'u')) for u in mid]
            ctx.equal(lc.data[:-1], np.array(want), 'series:direct_upcrossings')
            got = [np.asarray(wm.findcross(x, u, 'u')).size for u in mid]
            ctx.equal(lc.data[:-1], np.array(got), 'series:findcross')
            # rainflow filtering below the smallest range changes nothing
            h = float(np.round(np.ptp(x) * ctx.rng.rand() * 0.6 * 64) / 64)
            if h <= 0:
                continue
            base = ref.turning_points(x)
            sel = ref.findrfc(x[base], h)
            if len(sel) < 2:
                continue
            y = x[base][sel]
            s = int(y[0] > y[1])
            m, M = y[s:-1:2], y[s + 1::2]
            cph = tp.cycle_pairs(h=h)
            lch = cph.level_crossings(kind=1)
            ctx.equal(lch.data, direct(m, M, lch.args, 1), 'series:filtered')
            be = np.array([1., 3.])
            ctx.close(cph.damage(be), [np.sum(((M - m) / 2) ** b) for b in be], 'series:damage', rtol=1e-10)


@family()
def matrix(ctx):
    for _ in ctx.loop(300):
        n = int(ctx.rng.choice([2, 3, 5, 17, 33]))
        lo = float(ctx.rng.randint(-8, 3))
        delta = float(ctx.rng.choice([0.25, 0.5, 1.0]))
        hi = lo + delta * (n - 1)
        k = int(ctx.rng.choice([1, 2, 30]))
        over = ctx.rng.rand() < 0.3
        g = (n - 1) * 16
        i1 = ctx.rng.randint(0, g, k)
        i2 = np.minimum(i1 + ctx.rng.randint(1, g + 1, k), g)
        shift = 0
        if over:
            i2 = i2 + 40
            i1 = i1 - 40
        # values on a grid of 1/16 step, away from the midpoints (where the rounding direction is a convention)
        i1, i2 = i1 + (i1 % 16 == 8), i2 - (i2 % 16 == 8)
        m, M = lo + delta * i1 / 16., lo + delta * i2 / 16.
        swap = (ctx.rng.rand(k) < 0.3) & (m < M)
        a, b = np.where(swap, M, m), np.where(swap, m, M)
        with ctx.case(a=a, b=b, param=(lo, hi, n)):
            cp = CyclePairs(b, a)
            for ddef in (1, 0, -1):
                F = cp.cycle_matrix((lo, hi, n), ddef=ddef)
                ctx.close(F.data.sum(), k, 'matrix:total')
                want = np.zeros((n, n))
                for x, y, s in zip(m, M, swap):
                    u, v = (x - lo) / delta, (y - lo) / delta
                    if ddef == 1:
                        r, c = np.floor(u), np.ceil(v)
                        r, c = min(max(r, 0), n - 2), min(max(c, 1), n - 1)
                    elif ddef == 0:
                        r, c = np.floor(u + 0.5), np.floor(v + 0.5)
                        r, c = min(max(r, 0), n - 1), min(max(c, 0), n - 1)
                    else:
                        r, c = np.ceil(u), np.floor(v)
                        r, c = min(max(r, 1), n - 1), min(max(c, 0), n - 2)
                    if s:
                        r, c = c, r
                    want[int(r), int(c)] += 1
                ctx.equal(F.data, want, 'matrix:ddef%d' % ddef)
                ctx.close(F.args[0], np.linspace(lo, hi, n), 'matrix:levels', rtol=1e-12, atol=1e-12)
            ctx.equal(cp.data, b, 'matrix:pure')
            ctx.equal(cp.args, a, 'matrix:pure')


@family()
def known(ctx):
    """Named crossing kinds (known finding: the names are one off)."""
    m, M = np.array([0., 1., 0.]), np.array([2., 3., 1.])
    with ctx.case(m=m, M=M):
        names = dict(u=1, uM=2, umM=3, um=4)
        bad = []
        for name, k in names.items():
            try:
                g = make(m, M).level_crossings(kind=name).data
                if not np.array_equal(g, make(m, M).level_crossings(kind=k).data):
                    bad.append(name)
            except ValueError:
                bad.append(name)
        ctx.ok(bad == [] , 'kind_names:' + ','.join(bad), 'named kinds differ from the numbered ones: %s' % bad)
