import itertools

import numpy as np
import wafo.misc as wm
from wafo import _misc_numba, c_library
from wafo.objects import TimeSeries, TurningPoints
from vlib import gen, ref
from vlib.harness import family

RULE = ('every alternating sequence over a small alphabet up to a length bound, plus seeded turning point sequences (iid, '
        'walk, growing, decaying, nested; with and without ties) and signals; non-trivial: at least three points')
ASSUMPTIONS = ['stack model of ASTM E1049 in vlib/ref.py', 'rows with count zero are padding and ignored']


def rows(a):
    a = np.asarray(a, dtype=float)
    return a[a[:, 2] > 0]


def judge_astm(ctx, tp, key='astm'):
    want = ref.astm(list(tp))
    want3 = np.array([(r / 2, m, c) for r, m, c in want]).reshape(-1, 3)
    raw = np.asarray(wm.findrfc_astm(tp), dtype=float)
    got = rows(raw)
    ctx.close(got, want3, key + ':cycles', rtol=1e-12, atol=1e-12, msg='tp=%r' % np.asarray(tp)[:60].tolist())
    ctx.ok(raw[:, 0] >= 0, key + ':amplitude_sign')
    ctx.ok(np.isin(got[:, 2], (0.5, 1.0)), key + ':counts')
    tv = np.abs(np.diff(tp)).sum()
    ctx.close(np.sum(2 * got[:, 0] * 2 * got[:, 2]), tv, key + ':conservation', rtol=1e-12, atol=1e-12)
    if len(tp) > 1 and np.ptp(tp) > 0:
        ctx.close(2 * got[:, 0].max(), np.ptp(tp), key + ':largest', rtol=1e-12)
    ctx.count('cycles', len(got))
    return got


@family()
def astm_exhaustive(ctx):
    k = 5
    for n in range(1, 7 if ctx.tier == 'quick' else 9):
        with ctx.case(alphabet='0..%d' % (k - 1), length=n):
            for x in itertools.product(range(k), repeat=n):
                d = np.diff(x)
                if np.any(d[1:] * d[:-1] > 0) or np.any(d == 0):
                    continue
                ctx.evaluations += 1
                judge_astm(ctx, np.array(x, dtype=float))


@family(shards=2)
def astm_random(ctx):
    for _ in ctx.loop(700):
        tp = gen.turning(ctx.rng, ties=bool(ctx.rng.randint(2)))
        with ctx.case(tp=tp):
            got = judge_astm(ctx, tp)
            t = np.cumsum(ctx.rng.randint(1, 9, tp.size)) / 4.
            five = rows(_misc_numba.findrfc_astm(tp, t))
            ctx.close(five[:, :3], got, 'astm5:agrees', rtol=1e-12)
            # begin time and period belong to the cycle
            for a, m, c, tb, per in five:
                i = np.flatnonzero(t == tb)
                ok = i.size == 1 and (abs(tp[i[0]] - (m + a)) < 1e-9 or abs(tp[i[0]] - (m - a)) < 1e-9)
                ctx.ok(ok, 'astm5:begin_time', lambda: (a, m, c, tb, per))
                j = np.flatnonzero(np.abs(t - (tb + per / 2)) < 1e-9)
                ok = j.size == 1 and i.size == 1 and abs(abs(tp[j[0]] - tp[i[0]]) - 2 * a) < 1e-9
                ctx.ok(ok, 'astm5:period', lambda: (a, m, c, tb, per))
            # equivariance
            s, b = float(ctx.rng.choice([0.5, 2., 16.])), float(ctx.rng.choice([-3., 0.25, 100.]))
            g2 = rows(wm.findrfc_astm(s * tp + b))
            ctx.close(g2, np.c_[s * got[:, 0], s * got[:, 1] + b, got[:, 2]], 'astm:shift_scale', rtol=1e-10, atol=1e-9)
            g3 = rows(wm.findrfc_astm(-tp))
            ctx.close(g3, np.c_[got[:, 0], -got[:, 1], got[:, 2]], 'astm:sign', rtol=1e-12, atol=1e-12)
            # other representations of the same load
            ctx.close(rows(wm.findrfc_astm(gen.variants(ctx.rng, tp))), got, 'astm:representation', rtol=1e-12)
            ctx.close(rows(wm.findrfc_astm((8 * tp).astype(int))), np.c_[8 * got[:, :2], got[:, 2]], 'astm:integer',
                      rtol=1e-12)
            # compiled back end
            c3, cn = c_library.findrfc3_astm(np.asarray(tp, dtype=float))
            ctx.close(np.asarray(c3)[:tp.size - int(cn[0])][:, :3], got, 'astm:c_backend', rtol=1e-12, atol=1e-12)
            c5, cn = c_library.findrfc5_astm(np.asarray(tp, dtype=float), t)
            ctx.close(np.asarray(c5)[:tp.size - int(cn[0])], five, 'astm5:c_backend', rtol=1e-12, atol=1e-12)


@family()
def astm_any_sequence(ctx):
    """Loads that are not clean turning points (plateaus, monotone pieces): conservation still holds."""
    for _ in ctx.loop(300):
        x = gen.signal(ctx.rng)
        with ctx.case(x=x):
            want = ref.astm(x.tolist())
            got = rows(wm.findrfc_astm(x))
            ctx.close(got, np.array([(r / 2, m, c) for r, m, c in want]).reshape(-1, 3), 'astm:any', rtol=1e-12,
                      atol=1e-12)


@family()
def astm_long(ctx):
    for _ in ctx.loop(6):
        n = int(ctx.rng.choice([20000, 40001]))
        tp = ctx.rng.choice(['grow', 'decay', 'noise'])
        with ctx.case(kind=tp, n=n):
            t = np.arange(n)
            y = {'grow': (-1.0) ** t * (1 + t), 'decay': (-1.0) ** t * (n - t),
                 'noise': np.where(t % 2 == 0, -1, 1) * (1 + ctx.rng.rand(n))}[tp]
            judge_astm(ctx, y, 'astm:long')


@family(shards=2)
def series_pairs(ctx):
    """TimeSeries -> turning points -> cycle pairs / ASTM cycles."""
    for _ in ctx.loop(200):
        x = gen.signal(ctx.rng, n=int(ctx.rng.choice([6, 9, 20, 61, 200, 501])))
        base = ref.turning_points(x)
        if base is None:
            continue
        with ctx.case(x=x):
            ts = TimeSeries(x, np.arange(x.size) * 0.5)
            ta = ref.turning_points(x, astm=True)
            tp = ts.turning_points(wavetype='astm')
            ctx.equal(tp.data, x[ta], 'series:astm_tp')
            want = np.array([(r / 2, m, c) for r, m, c in ref.astm(x[ta].tolist())]).reshape(-1, 3)
            ctx.close(rows(tp.cycle_astm()), want, 'series:cycle_astm', rtol=1e-12, atol=1e-12)
            tp0 = ts.turning_points()
            for h in (0., 1. / 64, float(np.round(np.ptp(x) * ctx.rng.rand() * 64) / 64)):
                y = x[base]
                if h > 0:
                    y = y[ref.findrfc(y, h)]
                if y.size < 2:
                    continue
                for kind in ('min2max', 'max2min'):
                    for meth in ('clib', 'numba'):
                        cp = tp0.cycle_pairs(h=h, kind=kind, method=meth)
                        s = int(y[0] > y[1]) if kind == 'min2max' else int(not y[0] > y[1])
                        first, second = y[s:-1:2], y[s + 1::2]
                        m, M = (first, second) if kind == 'min2max' else (second, first)
                        key = 'series:cycle_pairs:%s:%s' % (kind, meth)
                        ctx.ok(len(cp.data) == len(cp.args), key + ':paired')
                        ctx.equal(np.sort(cp.args), np.sort(m), key + ':min')
                        ctx.equal(np.sort(cp.data), np.sort(M), key + ':max')
                        if len(set(x[base].tolist())) == len(base):
                            ctx.equal(np.c_[cp.args, cp.data], np.c_[m, M], key + ':order')
                        ctx.ok(np.asarray(cp.args) <= np.asarray(cp.data), key + ':ordered')
                        ctx.close(cp.time, tp0.args[-1] - tp0.args[0], key + ':time')
                        ctx.ok(cp.kind == kind, key + ':kind')


@family()
def rainflow_pairs(ctx):
    """Rainflow filtering at decreasing thresholds keeps the large cycles: nested sets of turning points."""
    for _ in ctx.loop(200):
        y = gen.turning(ctx.rng, n=int(ctx.rng.choice([8, 9, 30, 31, 100])), ties=False)
        with ctx.case(y=y):
            hs = np.sort(np.round(np.ptp(y) * ctx.rng.rand(4) * 8) / 8)
            prev = None
            for h in hs:
                for m in ('clib', 'numba', 0, 1):
                    g = wm.findrfc(y, h, method=m)
                    ctx.ok(np.all(np.diff(g) > 0), 'nested:increasing')
                g = set(np.asarray(wm.findrfc(y, h)).tolist())
                if prev is not None:
                    ctx.ok(g <= prev, 'nested:sets', lambda: (sorted(g), sorted(prev)))
                prev = g
            t = TurningPoints(y, np.arange(y.size) * 2.0)
            f = t.rainflow_filter(float(hs[0]))
            idx = np.asarray(wm.findrfc(y, float(hs[0])), dtype=int)
            ctx.equal(f.data, y[idx], 'nested:filter')
            ctx.equal(np.asarray(f.args), 2.0 * idx, 'nested:filter_time')
