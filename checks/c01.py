import itertools

import numpy as np
import wafo.misc as wm
from wafo.objects import TimeSeries, TurningPoints
from vlib import gen, ref
from vlib.harness import family

RULE = ('signals over a small alphabet enumerated exhaustively up to a length bound, plus seeded hostile signals (plateaus, '
        'ties with the level, monotone, spikes, growing/decaying); non-trivial: the reference finds at least one '
        'crossing/extremum, or the signal is a boundary case (length <= 2)')
ASSUMPTIONS = ['reference models in vlib/ref.py state the definitions', 'dyadic sample values make comparisons exact',
               'turning points compared by value where equal minima make the index ambiguous']
KINDS = [None, 'du', 'all', 'u', 'd', 'dw', 'uw', 'tw', 'cw']
METHODS = ['clib', 'numba']


def judge_cross(ctx, x, v, arr=None):
    arr = np.asarray(x) if arr is None else arr
    cr = ref.crossings(np.asarray(x, dtype=float), v)
    for kind in KINDS:
        want = ref.select(cr, kind)
        for m in METHODS:
            got = wm.findcross(arr, v, kind, method=m)
            ctx.equal(np.asarray(got, dtype=int), np.asarray(want, dtype=int), 'findcross:%s:%s' % (kind, m),
                      'x=%r v=%r kind=%r' % (np.asarray(x)[:60].tolist(), v, kind))
    ctx.count('crossings', len(cr))
    return cr


@family()
def cross_exhaustive(ctx):
    for n in range(1, 8 if ctx.tier == 'quick' else 10):
        with ctx.case(alphabet='-1,0,1', length=n, function='findcross'):
            for x in itertools.product((-1., 0., 1.), repeat=n):
                judge_cross(ctx, x, 0.0)
                ctx.evaluations += 1
    with ctx.case(length=0, function='findcross'):
        for m in METHODS:
            ctx.equal(np.asarray(wm.findcross(np.zeros(0), 0.0, method=m)).size, 0, 'findcross:empty')


@family(shards=2)
def cross_random(ctx):
    for _ in ctx.loop(500):
        x = gen.signal(ctx.rng)
        v = ctx.rng.choice([0.0, x[ctx.rng.randint(x.size)], x.mean(), 0.25, -1.5, x.max(), x.min(), x.max() + 1])
        with ctx.case(x=x, v=v):
            arr = gen.variants(ctx.rng, x)
            cr = judge_cross(ctx, x, v, arr)
            if not cr:
                continue
            ind = wm.findcross(x, v)
            t = np.cumsum(ctx.rng.randint(1, 5, x.size)) / 4. - 3
            t0 = wm.ecross(t, x, ind, v)
            # linear interpolation between the two samples that surround the crossing
            want = t[ind] + (v - x[ind]) * (t[ind + 1] - t[ind]) / (x[ind + 1] - x[ind])
            ctx.close(t0, want, 'ecross:linear', rtol=1e-12, atol=1e-12)
            ctx.ok((t0 >= t[ind] - 1e-12) & (t0 <= t[ind + 1] + 1e-12), 'ecross:bracket')
            ctx.close(np.interp(t0, t, x), np.full(t0.shape, v), 'ecross:level', rtol=1e-9, atol=1e-9 * (1 + abs(v)))
            # a signal reflected in the level swaps up and down crossings
            ctx.equal(wm.findcross(2 * v - x, v, 'd'), wm.findcross(x, v, 'u'), 'findcross:reflection')


@family()
def cross_2d_and_shape(ctx):
    for _ in ctx.loop(60):
        x = gen.signal(ctx.rng, n=24)
        with ctx.case(x=x):
            for arr in (x.reshape(-1, 1), x.reshape(1, -1), x.reshape(4, 6)):
                ctx.equal(wm.findcross(arr, 0.1), np.asarray(ref.select(ref.crossings(x, 0.1), None)), 'findcross:shape')
                ctx.equal(wm.findextrema(arr), np.asarray(ref.extrema(x), dtype=int), 'findextrema:shape')


@family()
def extrema_exhaustive(ctx):
    for n in range(1, 8 if ctx.tier == 'quick' else 10):
        with ctx.case(alphabet='0,1,2', length=n, function='findextrema/findtp'):
            for x in itertools.product((0., 1., 2.), repeat=n):
                a = np.array(x)
                ctx.equal(np.asarray(wm.findextrema(a), dtype=int), np.asarray(ref.extrema(x), dtype=int),
                          'findextrema', 'x=%r' % (x,))
                judge_tp(ctx, a)
                ctx.evaluations += 1


def tp_equal(ctx, got, want, key, x):
    if want is None:
        ctx.ok(got is None, key, lambda: 'got %r, expected None for %r' % (got, x))
        return False
    got = np.asarray(got)
    return ctx.equal(got.astype(int), np.asarray(want, dtype=int), key, 'x=%r' % (np.asarray(x)[:60].tolist(),))


def wave_select(x, ind, kind):
    ind = list(ind)
    if kind not in ('mw', 'Mw') or len(ind) < 2:
        return ind
    first_is_max = x[ind[0]] > x[ind[1]]
    if first_is_max != (kind == 'Mw'):
        ind = ind[1:]
    if len(ind) % 2 != 1:
        ind = ind[:-1]
    return ind


def judge_tp(ctx, x):
    for kind in (None, 'mw', 'Mw', 'astm'):
        base = ref.turning_points(x, kind == 'astm')
        want = None if base is None else wave_select(x, base, kind)
        tp_equal(ctx, wm.findtp(x, 0.0, kind), want, 'findtp:h0:%s' % kind, x)
    ctx.equal(wm.findtp(x, -1.0), np.arange(len(x)), 'findtp:negative_h')


def no_min_ties(y):
    m = np.asarray(y)
    return len(set(m.tolist())) == len(m)


def judge_filter(ctx, x, h):
    """Rainflow filtered turning points of a signal for all back ends."""
    base = ref.turning_points(x)
    for kind in (None, 'mw', 'Mw', 'astm'):
        base = ref.turning_points(x, kind == 'astm')
        if base is None:
            ctx.ok(wm.findtp(x, h, kind) is None, 'findtp:none')
            continue
        y = x[base]
        sel = ref.findrfc(y, h)
        want = wave_select(x, [base[i] for i in sel], kind)
        for m in METHODS:
            got = np.asarray(wm.findtp(x, h, kind, method=m), dtype=int)
            key = 'findtp:h>0:%s:%s' % (kind, m)
            if no_min_ties(y):
                ctx.equal(got, np.asarray(want, dtype=int), key, 'x=%r h=%r' % (x[:60].tolist(), h))
            else:
                ctx.equal(np.sort(x[got]), np.sort(x[want]), key + ':values', 'x=%r h=%r' % (x[:60].tolist(), h))
                ctx.ok(np.diff(got) >= 0, key + ':order')
                ctx.ok(np.isin(got, base), key + ':subset')
            ctx.count('filtered_points', got.size)


@family(shards=2)
def tp_random(ctx):
    for _ in ctx.loop(400):
        x = gen.signal(ctx.rng)
        with ctx.case(x=x, nontrivial=len(ref.extrema(x)) > 0):
            ctx.equal(np.asarray(wm.findextrema(gen.variants(ctx.rng, x)), dtype=int),
                      np.asarray(ref.extrema(x), dtype=int), 'findextrema:random')
            judge_tp(ctx, x)
            r = max(np.ptp(x), 1.)
            for h in (1. / 64, float(np.round(r * ctx.rng.uniform(0, 1.1) * 64) / 64), float(r)):
                if h > 0:
                    judge_filter(ctx, x, h)


@family()
def filter_exhaustive(ctx):
    """Rainflow filter for every alternating sequence of length n over a small alphabet."""
    for n in range(2, 7 if ctx.tier == 'quick' else 8):
        with ctx.case(alphabet='0..4', length=n, function='findrfc/rfcfilter'):
            for x in itertools.product(range(5), repeat=n):
                d = np.diff(x)
                if np.any(d == 0) or np.any(d[1:] * d[:-1] > 0):
                    continue
                ctx.evaluations += 1
                judge_rfc(ctx, np.array(x, dtype=float), [0., 1., 2., 3.])


def judge_rfc(ctx, y, hs):
    for h in hs:
        want = ref.findrfc(y, h)
        got = {}
        for m in ['clib', 'numba', 2]:
            g = np.asarray(wm.findrfc(y, h, method=m), dtype=int)
            got[m] = g
            key = 'findrfc:%s' % m
            if no_min_ties(y):
                ctx.equal(g, np.asarray(want, dtype=int), key, 'y=%r h=%r' % (y[:60].tolist(), h))
            else:
                ctx.equal(np.sort(y[g]), np.sort(y[want]), key + ':values', 'y=%r h=%r' % (y[:60].tolist(), h))
        ctx.equal(got['clib'], got['numba'], 'findrfc:backends', 'y=%r h=%r' % (y[:60].tolist(), h))
        for m, strict in ((0, False), (1, True)):
            t0 = int(y[0] > y[1])
            z = y[t0:]
            if len(z) < 2:
                continue
            kept, ext = ref.rfcfilter(z, h, strict)
            last = abs(z[ext] - z[kept[-1]])
            if (last >= h) if strict else (last > h):
                kept = kept + [ext]
            ctx.equal(np.asarray(wm.findrfc(y, h, method=m), dtype=int), np.asarray(kept, dtype=int) + t0,
                      'findrfc:method%d' % m, 'y=%r h=%r' % (y[:60].tolist(), h))
            kept, ext = ref.rfcfilter(y, h, strict)
            last = abs(y[ext] - y[kept[-1]])
            if (last >= h) if strict else (last > h):
                kept = kept + [ext]
            f = wm.rfcfilter(y, h, m)
            ctx.equal(f, y[kept], 'rfcfilter:%d' % m, 'y=%r h=%r' % (y[:60].tolist(), h))
            d = np.diff(f)
            ctx.ok(d[1:] * d[:-1] <= 0, 'rfcfilter:alternates')
            if d.size > 1:
                ctx.ok(np.abs(d[1:]) >= h, 'rfcfilter:range')


@family(shards=2)
def filter_random(ctx):
    for _ in ctx.loop(500):
        y = gen.turning(ctx.rng, ties=bool(ctx.rng.randint(2)))
        hs = [0., 1. / 8, float(np.ptp(y)), float(np.round(np.ptp(y) * ctx.rng.rand() * 8) / 8)]
        with ctx.case(y=y, h=hs):
            judge_rfc(ctx, y, hs)
            # every signal, not only turning points, may be rainflow filtered
            x = gen.signal(ctx.rng)
            for h in hs[:3]:
                for m, strict in ((0, False), (1, True)):
                    kept, ext = ref.rfcfilter(x, h, strict)
                    last = abs(x[ext] - x[kept[-1]])
                    if (last >= h) if strict else (last > h):
                        kept = kept + [ext]
                    ctx.equal(wm.rfcfilter(gen.variants(ctx.rng, x), h, m), x[kept], 'rfcfilter:signal:%d' % m,
                              'x=%r h=%r' % (x[:60].tolist(), h))


@family()
def filter_structure(ctx):
    """Structure of the filtered turning points of long irregular records."""
    for _ in ctx.loop(60):
        n = int(ctx.rng.choice([300, 1001, 2000]))
        x = gen.signal(ctx.rng, kind=ctx.rng.choice(['noise', 'sine', 'ramp']), n=n, dyadic=False)
        h = float(np.ptp(x) * ctx.rng.uniform(0.02, 0.7))
        with ctx.case(x=x, h=h):
            base = np.asarray(wm.findtp(x, 0.0))
            ind = np.asarray(wm.findtp(x, h))
            ctx.ok(np.isin(ind, base), 'structure:subset')
            ctx.ok(np.diff(ind) > 0, 'structure:increasing')
            y = x[ind]
            d = np.diff(y)
            ctx.ok(d[1:] * d[:-1] < 0, 'structure:alternates')
            ctx.ok(np.abs(d) >= h * (1 - 1e-12), 'structure:no_small_cycle')
            if y.size:
                ctx.ok(y.size % 2 == 0 and y[0] < y[1], 'structure:starts_with_min')
            ts = TimeSeries(x, np.arange(n) * 0.25)
            tp = ts.turning_points(h)
            ctx.equal(tp.data, y, 'TimeSeries.turning_points:data')
            ctx.equal(np.asarray(tp.args), ind * 0.25, 'TimeSeries.turning_points:time')
            for wt in ('mw', 'Mw'):
                k = wm.findtp(x, h, wt)
                ctx.equal(ts.turning_points(h, wt).data, x[k], 'TimeSeries.turning_points:wavetype')
            tp0 = ts.turning_points()
            f = tp0.rainflow_filter(h)
            ctx.equal(np.asarray(f.args), ind * 0.25, 'TurningPoints.rainflow_filter:time')
            ctx.equal(f.data, y, 'TurningPoints.rainflow_filter:data')
            g = TurningPoints(x[base])
            f2 = g.rainflow_filter(h)
            ctx.equal(f2.data, y, 'TurningPoints.rainflow_filter:noargs')


@family()
def peaks(ctx):
    for _ in ctx.loop(250):
        x = gen.signal(ctx.rng, n=int(ctx.rng.choice([9, 20, 60, 200])), dyadic=True)
        if np.ptp(x) == 0:
            continue
        n = int(ctx.rng.choice([1, 2, 3, 8, 1000]))
        min_h = ctx.rng.choice([0.0, 1. / 64, float(np.round(np.ptp(x) * ctx.rng.rand() * 64) / 64)])
        min_p = float(ctx.rng.choice([0., 0.3, 0.9]))
        with ctx.case(x=x, n=n, min_h=min_h, min_p=min_p):
            ix = np.asarray(wm.findpeaks(x, n, min_h, min_p), dtype=int)
            base = ref.turning_points(x)
            if base is None:
                cand = [int(np.argmax(x))]
            else:
                y = x[base]
                sel = range(len(base)) if min_h == 0 else ref.findrfc(y, min_h)
                tp = [base[i] for i in sel]
                cand = tp[1::2] if len(tp) else [int(np.argmax(x))]
            vals = np.sort(x[cand])[::-1][:n]
            if min_p > 0:
                vals = vals[vals > min_p * x.max()]
            ctx.equal(x[ix], vals, 'findpeaks:heights')
            ctx.ok(len(set(ix.tolist())) == ix.size, 'findpeaks:distinct')
            for i in ix:
                if base is not None and 0 < i < x.size - 1:
                    ctx.ok(x[i] >= x[i - 1] and x[i] >= x[i + 1], 'findpeaks:local_max')
            d = wm.findpeaks(x, n=2)
            ctx.equal(np.asarray(d), np.asarray(wm.findpeaks(x, 2, 0.05 * (x.max() - x.min()), 0.0)), 'findpeaks:default')


@family()
def peaks2d(ctx):
    for _ in ctx.loop(60):
        r, c = int(ctx.rng.randint(2, 7)), int(ctx.rng.randint(5, 14))
        x = ctx.rng.permutation(r * c).reshape(r, c).astype(float)
        with ctx.case(x=x):
            ix = np.asarray(wm.findpeaks(x, n=10 ** 6, min_h=0), dtype=int)
            want = []
            for i in range(r):
                tp = ref.turning_points(x[i])
                cand = tp[1::2] if tp is not None else [int(np.argmax(x[i]))]
                for j in cand:
                    if (i == 0 or x[i, j] > x[i - 1, j]) and (i == r - 1 or x[i, j] > x[i + 1, j]):
                        want.append(i * c + j)
            ctx.equal(np.sort(ix), np.sort(np.asarray(want, dtype=int)), 'findpeaks2d:set')
            ctx.ok(np.diff(x.ravel()[ix]) <= 0, 'findpeaks2d:order')
