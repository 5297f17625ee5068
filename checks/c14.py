"""C14 extremes: declustering, empirical distributions, mean excess, dispersion and extremal index, return periods."""
import warnings

import numpy as np
import scipy.stats as ss

import wafo.stats as ws
from wafo.stats import core as wc
from vlib.harness import family

RULE = ('seeded series of 0 to 300 values (smooth, white, with ties, clustered, unsorted times), thresholds from below all to above all values, '
        'separations from zero to longer than the series; non-trivial: at least two exceedances lie closer than the separation')
ASSUMPTIONS = []


def series(rng):
    n = int(rng.choice([0, 1, 2, 3, 5, 10, 40, 120, 300]))
    kind = rng.randint(4)
    x = rng.normal(size=n)
    if kind == 1:
        x = np.convolve(rng.normal(size=n + 8), np.ones(9) / 3, 'valid') if n else x
    elif kind == 2:
        x = rng.randint(0, 6, n).astype(float)
    elif kind == 3:
        x = np.exp(rng.normal(size=n))
    tk = rng.randint(4)
    t = np.arange(n, dtype=float)
    if tk == 1:
        t = np.cumsum(rng.exponential(size=n))
    elif tk == 2:
        t = np.cumsum(rng.randint(0, 4, n)).astype(float)
    elif tk == 3:
        t = rng.permutation(np.cumsum(rng.exponential(size=n) + 0.01))
    return x, t


@family(shards=2)
def declustering(ctx):
    """The peaks kept are over the threshold, farther apart than tmin, and each one dropped has a kept one at least as high within tmin."""
    rng = ctx.rng
    for k in ctx.loop(500):
        x, t = series(rng)
        thresh = float(rng.choice([-10., 0., 0.5, 1., 2., 10.]))
        tmin = float(rng.choice([0., 0.5, 1., 2., 5., 20., 1e4]))
        usetime = rng.randint(4) > 0
        tt = t if usetime else np.arange(len(x))
        over = np.flatnonzero(x > thresh)
        gaps = np.diff(np.sort(tt[over]))
        with ctx.case(x=x[:40], t=tt[:40], n=len(x), thresh=thresh, tmin=tmin, nontrivial=bool(np.any(gaps <= tmin))):
            kx, kt = x.copy(), t.copy()
            args = (x, t, thresh, tmin) if usetime else (x, None, thresh, tmin)
            ix = np.asarray(wc.findpot(*args))
            ctx.close(x, kx, 'pot:data_changed')
            ctx.close(t, kt, 'pot:time_changed')
            ctx.ok(len(set(ix.tolist())) == len(ix), 'pot:repeated_index')
            ctx.ok(set(ix.tolist()) <= set(over.tolist()), 'pot:below_threshold', lambda: (ix, over))
            d = np.diff(np.sort(tt[ix])) if len(ix) else np.zeros(0)
            ctx.ok(np.all(d > tmin), 'pot:too_close', lambda: (ix, tt[ix]))
            dropped = np.setdiff1d(over, ix)
            for j in dropped:
                near = ix[np.abs(tt[ix] - tt[j]) <= tmin]
                ctx.ok(len(near) > 0 and x[near].max() >= x[j], 'pot:dropped_without_higher_neighbour', lambda: (j, x[j], near))
            # greedy from the highest down, when no two are equally high
            if len(np.unique(x[over])) == len(over) and len(over):
                keep = []
                for j in over[np.argsort(-x[over], kind='stable')]:
                    if all(abs(tt[j] - tt[m]) > tmin for m in keep):
                        keep.append(j)
                ctx.equal(sorted(ix.tolist()), sorted(keep), 'pot:greedy')
            ev, te = wc.decluster(*args)
            ctx.close(ev, x[ix], 'decluster:values')
            ctx.close(te, tt[ix], 'decluster:times')
            if len(ix) and usetime:
                # declustering what is declustered changes nothing
                i2 = np.asarray(wc.findpot(x[ix], tt[ix], thresh, tmin))
                ctx.equal(sorted(i2.tolist()), list(range(len(ix))), 'pot:idempotent')


@family()
def empirical(ctx):
    rng = ctx.rng
    for k in ctx.loop(150):
        x, _ = series(rng)
        if len(x) == 0:
            x = np.array([1.])
        method = int(rng.choice([1, 2, 3]))
        with ctx.case(x=x[:30], n=len(x), method=method, nontrivial=len(np.unique(x)) < len(x)):
            keep = x.copy()
            F = wc.edf(x if rng.randint(2) else x.tolist(), method=method)
            ctx.close(x, keep, 'edf:data_changed')
            n = len(x)
            kk = np.arange(1, n + 1)
            want = {1: (kk - 0.5) / n, 2: kk / (n + 1), 3: kk / n}[method]
            ctx.close(F.args, np.sort(x), 'edf:args')
            ctx.close(F.data, want, 'edf:values', rtol=1e-13)
            c = float(rng.choice([-np.inf, -1., 0., 0.7, x.max(), np.median(x)]))
            sel = np.sort(x[x >= c])
            if len(sel):
                G = wc.edfcnd(x, c, method=method)
                n = len(sel)
                kk = np.arange(1, n + 1)
                ctx.close(G.args, sel, 'edfcnd:args')
                ctx.close(G.data, {1: (kk - 0.5) / n, 2: kk / (n + 1), 3: kk / n}[method], 'edfcnd:values', rtol=1e-13)
            H = wc.edfcnd(x, method=method)
            ctx.close(H.args, np.sort(x), 'edfcnd:default_keeps_all')


@family()
def residual_life(ctx):
    rng = ctx.rng
    for k in ctx.loop(120):
        n = int(rng.choice([8, 12, 30, 200]))
        x = rng.exponential(size=n) if rng.randint(2) else np.round(rng.normal(size=n), 1)
        alpha = float(rng.choice([0.05, 0.1, 0.01]))
        with ctx.case(n=n, alpha=alpha, x=x[:20], nontrivial=True), warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            keep = x.copy()
            mode = rng.randint(3)
            kw = {}
            if mode == 0:
                u = np.sort(rng.uniform(x.min(), np.sort(x)[-4], 5))
                kw['u'] = u.tolist() if rng.randint(2) else u
            elif mode == 1:
                kw['nu'] = int(rng.randint(2, 20))
                kw['nmin'] = int(rng.randint(2, 4))
            else:
                kw['umin'], kw['umax'] = float(np.median(x)), float(np.sort(x)[-3])
            r = wc.reslife(x, alpha=alpha, **kw)
            ctx.close(x, keep, 'reslife:data_changed')
            u = np.asarray(r.args)
            if mode == 1:
                ctx.close(u, np.linspace(x.min(), np.sort(x)[-kw['nmin']], kw['nu']), 'reslife:thresholds', rtol=1e-12, atol=1e-12)
            elif mode == 2:
                ctx.close(u, np.linspace(kw['umin'], kw['umax'], min(n - 3, 100)), 'reslife:thresholds', rtol=1e-12, atol=1e-12)
            ci = np.asarray(r.children[0].data)
            ctx.equal(ci.shape, (len(u), 2), 'reslife:ci_shape')
            num = r.workspace['numdata']
            for j, uj in enumerate(u):
                e = [v - uj for v in x if v > uj]
                ctx.ok(num[j] == len(e), 'reslife:count')
                if len(e) < 2:
                    continue
                m = np.mean(e)
                ctx.close(np.asarray(r.data)[j], m, 'reslife:mean_excess', rtol=1e-10, atol=1e-12)
                half = ss.t.isf(alpha / 2, len(e) - 1) * np.std(e, ddof=1) / np.sqrt(len(e))
                ctx.close(ci[j], [m - half, m + half], 'reslife:interval', rtol=1e-7, atol=1e-10)
            ctx.ok(np.all(np.diff(num) <= 0), 'reslife:counts_decrease')


@family()
def dispersion(ctx):
    rng = ctx.rng
    for k in ctx.loop(80):
        n = int(rng.choice([30, 100, 300]))
        t = np.cumsum(rng.exponential(size=n))
        x = rng.exponential(size=n)
        tb = float(rng.choice([5., 10., 2.5]))
        alpha = float(rng.choice([0.05, 0.1]))
        u = np.sort(rng.uniform(0, np.sort(x)[-5], 6))
        withtime = rng.randint(3) > 0
        with ctx.case(n=n, tb=tb, alpha=alpha, time=bool(withtime), nontrivial=True), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            res, b_u, ok_u = wc.dispersion_idx(x, t if withtime else None, u=u, tb=tb, alpha=alpha)
            tt = t - t.min() if withtime else np.arange(n)
            M = int(np.floor(tt.max() / tb)) + 1
            di = []
            for uj in u:
                occ = [sum(1 for a, b in zip(x, tt) if a > uj and int(np.floor(b / tb)) == m) for m in range(M)]
                di.append((np.var(occ, ddof=1) / np.mean(occ), np.var(occ) / np.mean(occ)))
            di = np.array(di)
            got = np.asarray(res.data)
            ctx.close(got, di[:, 0], 'dispersion:index', rtol=1e-9)
            ctx.close(res.args, u, 'dispersion:thresholds')
            lo, hi = ss.chi2.ppf([alpha / 2, 1 - alpha / 2], M - 1) / (M - 1)
            ci = np.asarray(res.children[0].data)
            ctx.close(ci, np.tile([lo, hi], (len(u), 1)), 'dispersion:interval', rtol=1e-7)
            inside = u[(lo < got) & (got < hi)]
            ctx.close([] if ok_u is None else ok_u, inside, 'dispersion:ok_thresholds')
            ctx.ok((b_u is None) == (len(inside) == 0) and (b_u is None or b_u in inside), 'dispersion:chosen', lambda: (b_u, inside))
        with ctx.case(n=n, what='default thresholds', nontrivial=True), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            kw = dict(nmin=int(rng.choice([5, 10])), tb=tb, alpha=alpha)
            if rng.rand() < 0.6:
                kw['nu'] = int(rng.randint(2, 40))
            if rng.rand() < 0.4:
                kw['umin'] = float(rng.uniform(-1, 0.5))
            if rng.rand() < 0.4:
                kw['umax'] = float(rng.uniform(1, 9))
            sd = np.sort(x)
            lo, hi = max(sd[0], kw.get('umin', -np.inf)), min(sd[-kw['nmin']], kw.get('umax', np.inf))
            want = np.linspace(lo, hi, kw.get('nu', min(n - kw['nmin'], 100)))
            res, b_u, ok_u = wc.dispersion_idx(x, t, **kw)
            ctx.close(res.args, want, 'dispersion:default_thresholds', rtol=1e-12, atol=1e-12)
            same = wc.dispersion_idx(x.tolist(), t.tolist(), u=want, tb=tb, alpha=alpha)
            ctx.close(res.data, same[0].data, 'dispersion:default_thresholds', rtol=1e-12)
            ctx.ok((b_u is None and same[1] is None) or b_u == same[1], 'dispersion:default_thresholds')
    # a Poisson process has index one: the band holds it about as often as it says
    with ctx.case(what='coverage of the band', nontrivial=True):
        hit, m = 0, 200
        for j in range(m):
            t = np.cumsum(rng.exponential(size=150))
            res, b_u, ok_u = wc.dispersion_idx(np.ones(150), t, u=np.array([0.]), tb=15., alpha=0.1)
            hit += ok_u is not None
        # 10 blocks, the last one incomplete and the total given: slack for that
        ctx.ok(0.7 * m < hit <= m, 'dispersion:coverage', hit)


@family()
def extremal(ctx):
    rng = ctx.rng
    for k in ctx.loop(200):
        n = int(rng.choice([2, 3, 5, 20, 100]))
        kind = rng.randint(4)
        if kind == 0:
            ti = rng.geometric(0.2, n).astype(float)
        elif kind == 1:
            ti = rng.choice([1, 2], n)
        elif kind == 2:
            ti = np.where(rng.uniform(size=n) < 0.5, 1, rng.geometric(0.05, n))
        else:
            ti = np.ones(n, dtype=int)
        with ctx.case(ti=ti[:30], n=n, nontrivial=kind in (0, 2)):
            got = float(wc.extremal_idx(ti))
            ti = [float(v) for v in ti]
            if max(ti) <= 1:
                want = 0
            elif max(ti) <= 2:
                want = min(1, 2 * sum(ti) ** 2 / (n * sum(v * v for v in ti)))
            else:
                want = min(1, 2 * sum(v - 1 for v in ti) ** 2 / (n * sum((v - 1) * (v - 2) for v in ti)))
            ctx.close(got, want, 'extremal_idx', rtol=1e-12)
            t = np.r_[0, np.cumsum(ti)]
            p = rng.permutation(t)
            ctx.close(wc.interexceedance_times(p), ti, 'interexceedance', rtol=1e-12)
            srt = sorted(ti, reverse=True)
            tc = wc.declustering_time(p)
            i = int(np.floor(len(t) * want))
            ctx.close(tc, min(ti) if want == 1 else srt[min(i, len(ti) - 1)], 'declustering_time', rtol=1e-12)
    with ctx.case(what='short'):
        ctx.equal(len(wc.declustering_time([3.])), 0, 'declustering_time:short')


@family()
def return_periods(ctx):
    rng = ctx.rng
    for k in ctx.loop(150):
        shape = [(), (4,), (2, 3)][rng.randint(3)]
        npu = np.exp(rng.normal(size=shape) * 2) if rng.randint(2) else float(np.exp(rng.normal()))
        q = rng.uniform(1e-6, 0.999, size=shape)
        with ctx.case(shape=shape, npu=npu, q=q, nontrivial=shape != ()):
            keep = np.array(q)
            T = ws.sf2returnperiod(q if shape else float(q), npu)
            ctx.close(q, keep, 'period:changes_argument')
            ctx.close(T, 1 / (np.asarray(npu) * q), 'period:sf2returnperiod', rtol=1e-12)
            ctx.close(ws.returnperiod2sf(T, npu), q, 'period:round_trip', rtol=1e-12)
            # more than one a unit of time, no probability, no events
            bad = np.array([1., 1.5, -0.1, 0.5])
            got = ws.sf2returnperiod(bad, np.array([1., 2., 1., -1.]))
            ctx.ok(np.all(np.isnan(got)), 'period:invalid_probability', lambda: got)
            got = ws.returnperiod2sf(np.array([0.5, 10., 10., 0.01]), np.array([1., 0., -1., 10.]))
            ctx.ok(np.all(np.isnan(got)), 'period:invalid_period', lambda: got)
            N = rng.randint(2, 1000, size=(3,))
            ctx.close(ws.returnperiod2sf(N), 1 / N, 'period:integers', rtol=1e-12)
            ctx.close(ws.returnperiod2sf(int(N[0]), 2), 1 / (2 * N[0]), 'period:integer_scalar', rtol=1e-12)
            ctx.close(ws.sf2returnperiod([0.1, 0.01], 3), [10 / 3, 100 / 3], 'period:list', rtol=1e-12)
