import numpy as np
import wafo.spectrum.models as sm
import wafo.objects as wo
import wafo.stats as ws
from scipy import optimize
from vlib.harness import family

RULE = ('seeded level crossing spectra counted on simulated records (Gaussian and skewed, several lengths, scales and origins), truncation levels, '
        'tail kinds, fitting methods, irregularity factors and seeds')
ASSUMPTIONS = ['the fitted tails are compared by likelihood with the best found here by Nelder-Mead; at least eight exceedances in each tail',
               'the statistical limits for simulated records are at least six standard deviations wide (calibrated over seeds)']


def crossings(rng, scale=None):
    """A level crossing spectrum counted on a record, with its record."""
    n = int(rng.choice([600, 1500, 4000]))
    S = sm.Jonswap(Hm0=4, Tp=rng.uniform(5, 12)).tospecdata()
    x = S.sim(ns=n, iseed=int(rng.randint(1, 10 ** 6)))
    y = x[:, 1]
    if rng.rand() < 0.4:
        y = y + rng.uniform(0.03, 0.1) * y ** 2
    scale = scale or float(rng.choice([1., 1., 0.5, 2.]))
    y = y * scale + float(rng.choice([0, 0, rng.uniform(-20, 20)]))
    ts = wo.TimeSeries(y, x[:, 0])
    return ts.turning_points().cycle_pairs().level_crossings(), y


def exceedances(levels, counts, u):
    """Exceedances of u by the maxima whose count of crossings is the spectrum above u (each drop of the count is one peak)."""
    keep = levels > u
    lv, ct = levels[keep][::-1], counts[keep][::-1]
    top, out = 0, []
    for a, c in zip(lv, ct):
        if len(out) == 0 and top == 0 and c == ct[0] and a == lv[0]:
            out += [a] * int(c)
            top = c
        elif c > top:
            out += [a] * int(int(c) - int(top))
            top = c
    return np.array(out) - u


def sf(dist, par, x):
    """Survival functions; genpareto in the form (1 + k x / s)^(-1/k)."""
    if dist == 'exp':
        return np.exp(-x / par[-1])
    if dist == 'gen':
        k, s = par[0], par[-1]
        z = np.maximum(1 + k * x / s, 0)
        if abs(k) < 1e-10:
            return np.exp(-x / s)
        with np.errstate(divide='ignore'):
            return np.where(z > 0, np.exp(-np.log(np.where(z > 0, z, 1)) / k), 0)
    c, s = par[0], par[-1]
    return np.exp(-((x / s + c) ** 2 - c ** 2) / 2)


def logps(dist, par, x):
    """Log product of spacings; a zero spacing of tied values counts as the density there."""
    x = np.sort(x)
    if par[-1] <= 0 or not np.isfinite(loglik(dist, par, x)):
        return -np.inf
    S = np.r_[1., sf(dist, par, x), 0.]
    tied = np.diff(x) == 0
    d = (S[:-1] - S[1:])[np.r_[True, ~tied, True]]
    return np.log(d).sum() + (loglik(dist, par, x[:-1][tied]) if tied.any() else 0.) if np.all(d > 0) else -np.inf


def loglik(dist, par, x):
    s = par[-1]
    if s <= 0:
        return -np.inf
    if dist == 'exp':
        return -len(x) * np.log(s) - x.sum() / s
    if dist == 'gen':
        k = par[0]
        z = 1 + k * x / s
        if np.any(z <= 0):
            return -np.inf
        return -len(x) * np.log(s) - ((1 + 1 / k) * np.log(z).sum() if abs(k) > 1e-10 else x.sum() / s)
    c = par[0]
    if c < 0:
        return -np.inf
    r = x / s + c
    return np.sum(np.log(r) - (r * r - c * c) / 2) - len(x) * np.log(s)


@family(shards=3)
def extrapolation(ctx):
    rng = ctx.rng
    # a tail whose moments, with the sign of the shape reversed, exclude its largest value
    tail = np.array([1.81565814, 0.76262849, 0.50164107, 0.50140859, 0.27184697, 0.26150172, 0.25804865, 0.2506116, 0.10064233, 0.09505341,
                     0.07228903, 0.03008493, 0.01947389])
    with ctx.case(tail='13 values'):
        par = np.asarray(wo.distributions.genpareto.fit2(tail.copy(), floc=0, method='ml').par, float)
        ctx.ok(np.isfinite(loglik('gen', par, tail)), 'extrapolate:impossible_estimate', lambda: par)
    for _ in ctx.loop(40):
        lc, y = crossings(rng)
        std = y.std()
        dist = str(rng.choice(['genpareto', 'expon', 'rayleigh']))
        kind = {'g': 'gen', 'e': 'exp', 'r': 'ray'}[dist[0]]
        method = str(rng.choice(['ml', 'ml', 'mps']))
        top = float(lc.args[np.argmax(lc.data)])
        a, b = rng.uniform(0.6, 2.2, 2)
        lo, hi = top - a * std, top + b * std
        given = rng.rand() < 0.8
        with ctx.case(n=len(y), std=std, top=top, dist=dist, method=method, lo=lo, hi=hi, given=bool(given)):
            if not given:
                ok = np.flatnonzero(lc.data > np.sqrt(lc.data.max()))
                lo, hi = float(lc.args[ok[0]]), float(lc.args[ok[-1]])
            xh = exceedances(lc.args, lc.data, hi)
            xl = exceedances(-lc.args[::-1], lc.data[::-1], -lo)
            if min(len(np.unique(xh)), len(np.unique(xl))) < 8:
                continue
            with ctx.frozen('extrapolate:argument', lc.args, lc.data):
                e = lc.extrapolate(lo, hi, method=method, dist=dist) if given else lc.extrapolate(method=method, dist=dist)
            x, f = np.asarray(e.args), np.asarray(e.data)
            ctx.ok(np.all(np.diff(x) >= 0), 'extrapolate:order', lambda: np.diff(x).min())
            mid = (lc.args > lo) & (lc.args < hi)
            below, above = x <= lo + 1e-9, x >= hi - 1e-9
            between = ~below & ~above
            ctx.equal(x[between], lc.args[mid], 'extrapolate:kept')
            ctx.equal(f[between], lc.data[mid], 'extrapolate:kept')
            ctx.close([e.sigma, e.mean], [lc.sigma, lc.mean], 'extrapolate:moments')
            ctx.ok(f >= 0, 'extrapolate:nonnegative')
            for side, u, d, sel, ph in ((xh, hi, x - hi, above, e.phat_high), (xl, lo, lo - x, below, e.phat_low)):
                par = np.asarray(ph.par, dtype=float)
                nu = np.interp(u, lc.args, lc.data) + 1
                d, g = d[sel], f[sel]
                ctx.close(np.sort(d), np.arange(len(d)) * 0.01, 'extrapolate:levels', rtol=0, atol=1e-9)
                ctx.close(g, nu * sf(kind, par, d), 'extrapolate:tail', rtol=1e-7, atol=1e-9 * nu)
                ctx.ok(par[-2] == 0 and par[-1] > 0, 'extrapolate:parameters', lambda: par)
                o = np.argsort(d)
                ctx.ok(np.all(np.diff(g[o]) <= 1e-12 * nu), 'extrapolate:decreasing')
                if method == 'ml':
                    nll = lambda p: -loglik(kind, p, side)
                    m = side.mean()
                    if kind == 'exp':
                        best = loglik(kind, [m], side)
                    elif kind == 'gen':
                        r = min((optimize.minimize(nll, [k0, m * (1 - k0)], method='Nelder-Mead') for k0 in (-0.3, -0.05, 0.1)), key=lambda r: r.fun)
                        best = -r.fun if r.x[0] > -0.8 else -np.inf     # the likelihood is unbounded beyond -1
                    else:
                        r = min((optimize.minimize(nll, [c0, m * s0], method='Nelder-Mead') for c0, s0 in ((0.5, 1), (2, 3), (4, 5))), key=lambda r: r.fun)
                        best = -r.fun
                    got = loglik(kind, par, side)
                    # known: the search of the generalized Pareto tail starts from moments with the sign of the shape reversed, and
                    # stays there when the largest value is impossible under them
                    off = side - side.min() + 0.01 * side.std()
                    r2 = (off.mean() / off.std()) ** 2 if len(side) > 1 else 1.
                    stuck = kind == 'gen' and not np.isfinite(got) and r2 < 1 and off.mean() * (r2 + 1) / (1 - r2) <= side.max() * (1 + 1e-3)
                    ctx.ok(not stuck, 'extrapolate:impossible_estimate', lambda: (par, side.max()))
                    if not stuck:
                        ctx.ok(got >= best - 0.2, 'extrapolate:fit', lambda: '%s: %s of log likelihood %g, best %g' % (dist, par, got, best))
                else:
                    # the product of spacings is at its largest
                    got = logps(kind, par, side)
                    if kind == 'exp':
                        r = optimize.minimize_scalar(lambda q: -logps(kind, [q], side), bounds=(0.3 * par[-1], 3 * par[-1]), method='bounded')
                        best, slack = -r.fun, 2e-3
                    else:
                        start = [par[0], par[-1]]
                        best = -optimize.minimize(lambda p: -logps(kind, p, side), start, method='Nelder-Mead').fun
                        slack = 0.2
                    ctx.ok(got >= best - slack, 'extrapolate:fit_spacings', lambda: '%s: %s of log spacings %g, best %g' % (dist, par, got, best))
                if kind == 'ray':
                    # documented: x0 is the distance to the level of the most crossings
                    x0 = abs(u - top)
                    ctx.ok(abs(par[0] * par[-1] - x0) <= 0.05 * x0, 'extrapolate:rayleigh_offset_fitted', lambda: (par[0] * par[-1], x0))
                if kind == 'gen':
                    lim = getattr(ph, 'upperlimit', None)
                    if par[0] < -1e-6:
                        end = u + (1 if sel is above else -1) * par[-1] / -par[0]
                        ctx.ok(lim is not None and abs((lim if sel is above else -lim) - end) < 1e-9 * (1 + abs(end)), 'extrapolate:upperlimit', lambda: (lim, end))
                    elif par[0] > 1e-6:
                        ctx.ok(lim is None or not np.isfinite(lim), 'extrapolate:upperlimit', lambda: lim)
            # mirror image and shift of the origin
            c = float(rng.uniform(-5, 5))
            for sg, key in ((-1, 'mirror'), (1, 'shift')):
                q = wo.LevelCrossings(lc.data[::sg].copy(), sg * lc.args[::sg] + c, sigma=lc.sigma, mean=sg * lc.mean + c)
                l2, h2 = sorted((sg * lo + c, sg * hi + c))
                e2 = q.extrapolate(l2, h2, method=method, dist=dist)
                if len(e2.data) == len(f):
                    ctx.close(np.asarray(e2.args)[::sg], sg * x + c, 'extrapolate:' + key, rtol=0, atol=1e-7)
                    # the search for the parameters ends at slightly different values
                    ctx.close(np.asarray(e2.data)[::sg], f, 'extrapolate:' + key, rtol=0, atol=2e-2 * (1 + nu))
                else:      # a level next to the truncation fell on the other side by rounding
                    ctx.ok(abs(len(e2.data) - len(f)) <= 2, 'extrapolate:' + key, (len(e2.data), len(f)))
            ctx.count('exceedances', len(xh) + len(xl))
            ctx.count(kind + ':' + method)
    with ctx.case(what='unknown kind'):
        lc, y = crossings(np.random.RandomState(1))
        ctx.raises(NotImplementedError, lambda: lc.extrapolate(dist='weibull'), 'extrapolate:refuse')


def irregularity(y):
    d = y - np.median(y)
    s = np.diff(y)
    return ((d[:-1] < 0) & (d[1:] >= 0)).sum() / max(1, ((s[:-1] > 0) & (s[1:] <= 0)).sum())


@family(shards=3)
def simulation(ctx):
    rng = ctx.rng
    for _ in ctx.loop(14):
        lc, y = crossings(rng)
        alpha = float(rng.choice([0.3, 0.5, 0.7, 0.85, 0.95, rng.uniform(0.25, 0.97)]))
        ns = int(rng.choice([2000, 8000, 20000]))
        seed = int(rng.randint(1, 10 ** 6))
        with ctx.case(n=len(y), alpha=alpha, ns=ns, seed=seed, scale=y.std()):
            with ctx.frozen('lcsim:argument', lc.args, lc.data):
                np.random.seed(seed)
                x = lc.sim(ns, alpha)
            ctx.equal(x.shape, (ns, 2), 'lcsim:shape')
            ctx.equal(x[:, 0], np.arange(ns), 'lcsim:time')
            ctx.ok(np.isfinite(x), 'lcsim:finite')
            np.random.seed(seed)
            ctx.equal(lc.sim(ns, alpha), x, 'lcsim:repeatable')
            v = x[:, 1]
            k, c = float(rng.uniform(0.2, 5)), float(rng.uniform(-10, 10))
            np.random.seed(seed)
            q = wo.LevelCrossings(lc.data.copy(), k * lc.args + c, sigma=k * lc.sigma, mean=k * lc.mean + c).sim(ns, alpha)[:, 1]
            dif = np.abs((q - c) / k - v) / y.std()      # the smoothed transformation follows the scale up to its own accuracy
            ctx.ok(np.sqrt(np.mean(dif ** 2)) < 0.03 and dif.max() < 0.4, 'lcsim:equivariant', lambda: (np.sqrt(np.mean(dif ** 2)), dif.max()))
            if ns < 8000:
                continue
            ctx.close(irregularity(v), alpha, 'lcsim:irregularity', rtol=0, atol=10 * 0.6 / np.sqrt(ns) + 0.02)
            if 0.4 < alpha:
                # crossing spectrum of the series, relative to its top, against the one given (smoothed by the transformation)
                l2 = wo.TimeSeries(v, x[:, 0]).turning_points().cycle_pairs().level_crossings()
                top = lc.args[lc.data.argmax()]
                u = np.linspace(-1.2, 1.2, 7) * lc.sigma + lc.mean
                a = np.interp(u, l2.args, l2.data) / l2.data.max()
                b = np.interp(u, lc.args, lc.data) / lc.data.max()
                ctx.close(a, b, 'lcsim:crossings', rtol=0, atol=0.4 if ns == 20000 and 0.5 < alpha < 0.9 else 0.65)
                ctx.count('worst %d' % int(10 * np.abs(a - b).max()))


@family(shards=2)
def gaussianity(ctx):
    rng = ctx.rng
    for _ in ctx.loop(6):
        ns = int(rng.choice([512, 1024, 2048]))
        cases = int(rng.choice([1, 3, 8]))
        many = rng.rand() < 0.25
        if many:
            ns, cases = 70000, int(rng.choice([3, 4, 5, 6]))
        S = sm.Jonswap(Hm0=float(rng.uniform(1, 8)), Tp=float(rng.uniform(6, 12))).tospecdata()
        meth = str(rng.choice(['nonlinear', 'mnonlinear']))
        seed = int(rng.randint(1, 10 ** 6))
        with ctx.case(ns=ns, cases=cases, method=meth, seed=seed, Hm0=4 * np.sqrt(S.moment(0)[0][0])):
            np.random.seed(seed)
            t = np.asarray(S.testgaussian(ns=ns, cases=cases, method=meth), dtype=float)
            ctx.equal(t.shape, (cases,), 'testgaussian:one_per_case')
            ctx.ok(np.isfinite(t) & (t >= 0), 'testgaussian:value', lambda: t)
            if ns >= 1024:
                ctx.ok(t < 12, 'testgaussian:small', lambda: t)
            np.random.seed(seed)
            ctx.equal(np.asarray(S.testgaussian(ns=ns, cases=cases, method=meth), dtype=float), t, 'testgaussian:repeatable')
            ctx.count('simulated', cases * ns)


@family()
def gaussian_fit(ctx):
    """Mean and standard deviation read off a level crossing spectrum, and the Gaussian curve drawn with it."""
    rng = ctx.rng
    for _ in ctx.loop(60):
        n = int(rng.choice([41, 60, 101, 200]))
        m, s = float(rng.uniform(-20, 20)), float(10 ** rng.uniform(-1, 1))
        top = float(10 ** rng.uniform(1, 4))
        k = int(rng.randint(n // 4, 3 * n // 4))
        d = 6 * s / n
        u = m + (np.arange(n) - k) * d            # the most crossed level is the mean
        c = top * np.exp(-0.5 * ((u - m) / s) ** 2)
        with ctx.case(n=n, mean=m, sigma=s, top=top, k=k):
            lc = wo.LevelCrossings(c.copy(), u.copy())
            ctx.close([lc.mean, lc.sigma], [m, s], 'fit:recovers', rtol=1e-6, atol=1e-6 * s)
            ctx.close(lc.estimate_mean_and_stdev(), [m, s], 'fit:recovers', rtol=1e-6, atol=1e-6 * s)
            ctx.close(lc.children[0].data, c, 'fit:curve', rtol=1e-4, atol=1e-6 * top)
            ctx.equal(lc.data, c, 'fit:argument')
            # a value that is given is kept
            for kw in (dict(mean=m + s), dict(sigma=2 * s), dict(mean=m - s, sigma=0.5 * s)):
                q = wo.LevelCrossings(c.copy(), u.copy(), **kw)
                ctx.close([q.mean, q.sigma], [kw.get('mean', m), kw.get('sigma', s)], 'fit:given', rtol=1e-6, atol=1e-6 * s)
                ctx.close(q.children[0].data, top * np.exp(-0.5 * ((u - q.mean) / q.sigma) ** 2), 'fit:curve', rtol=1e-9)
            a, b = float(rng.uniform(0.2, 5)), float(rng.uniform(-9, 9))
            w = wo.LevelCrossings(c * 3, a * u + b)
            ctx.close([w.mean, w.sigma], [a * m + b, a * s], 'fit:units', rtol=1e-6, atol=1e-6 * a * s)
