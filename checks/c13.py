"""C13 fits: estimates maximise what they say they maximise, and profiles, intervals and links follow from the same criterion."""
import warnings

import numpy as np
import scipy.stats as ss
from scipy import optimize
from scipy.special import ndtri, chdtrc, chdtri

import wafo.stats as ws
from wafo.stats import estimation as we
from vlib.harness import family

RULE = ('samples of 25 to 200 values, with and without ties, from eleven laws at seeded parameters; fits by maximum likelihood and by maximum product '
        'of spacings with seeded sets of fixed parameters; profiles of parameters, quantiles and probabilities; links at seeded points; '
        'non-trivial: more than one parameter is free')
ASSUMPTIONS = ['a fit may stop as far below the best value of its criterion as its optimizer allows (absolute 1e-4 per run); tolerances are a small multiple of that',
               'laws are fitted where the criterion is regular: location free only for laws on the whole line']

# name: (shapes generator, fixed keywords)
LAWS = {
    'norm': (lambda r: (), {}),
    'gumbel_r': (lambda r: (), {}),
    'logistic': (lambda r: (), {}),
    'expon': (lambda r: (), {'floc': 0.}),
    'rayleigh': (lambda r: (), {'floc': 0.}),
    'weibull_min': (lambda r: (r.uniform(0.8, 3),), {'floc': 0.}),
    'lognorm': (lambda r: (r.uniform(0.3, 1.2),), {'floc': 0.}),
    'gamma': (lambda r: (r.uniform(0.8, 5),), {'floc': 0.}),
    'genpareto': (lambda r: (r.uniform(-0.15, 0.4),), {'floc': 0.}),
    'genextreme': (lambda r: (r.uniform(-0.25, 0.25),), {}),
    'truncrayleigh': (lambda r: (r.uniform(0.2, 2.),), {'floc': 0., 'f0': None}),
}
NAMES = sorted(LAWS)


def quiet():
    c = warnings.catch_warnings()
    c.__enter__()
    warnings.simplefilter('ignore')
    return c


def logpdf(name, x, par):
    """Log density straight from the reference library (truncated Rayleigh by hand)."""
    if par[-1] <= 0:
        return np.full(np.shape(x), -np.inf)
    if name == 'truncrayleigh':
        c, loc, scale = par
        z = (x - loc) / scale
        with np.errstate(all='ignore'):
            return np.where((z >= 0) & (c >= 0), np.log(z + c) - z * (z + 2 * c) / 2 - np.log(scale), -np.inf)
    with np.errstate(all='ignore'):
        r = getattr(ss, name).logpdf(x, *par)
    return np.where(np.isnan(r), -np.inf, r)


def cdf(name, x, par):
    if name == 'truncrayleigh':
        c, loc, scale = par
        z = np.maximum((x - loc) / scale, 0)
        return -np.expm1(-z * (z + 2 * c) / 2)
    return getattr(ss, name).cdf(x, *par)


def loglike(name, x, par):
    return float(np.sum(logpdf(name, x, par)))


def logps(name, x, par):
    """Log product of spacings; a zero spacing of tied values counts as the density there."""
    if par[-1] <= 0:
        return -np.inf
    x = np.sort(x)
    F = cdf(name, x, par)
    d = np.diff(np.r_[0., F, 1.])
    with np.errstate(all='ignore'):
        out = np.log(d)
    t = np.flatnonzero(np.diff(x) == 0)
    out[t + 1] = logpdf(name, x[t], par)
    return float(np.sum(out)) if np.all(np.isfinite(out)) else -np.inf


CRIT = {'ml': loglike, 'mps': logps}


def best(name, x, method, start, free):
    """Independent maximisation over the free parameters, from the given start."""
    start = np.array(start, dtype=float)

    def f(t):
        p = start.copy()
        p[free] = t
        v = -CRIT[method](name, x, p)
        return v if np.isfinite(v) else 1e10
    best = None
    t = start[free]
    for _ in range(4):
        r = optimize.minimize(f, t, method='Nelder-Mead', options=dict(xatol=1e-8, fatol=1e-9, maxiter=4000, maxfev=4000))
        t = r.x
        if best is not None and best - r.fun < 1e-8:
            best = min(best, r.fun)
            break
        best = r.fun
    p = start.copy()
    p[free] = t
    return -best, p


def draw(rng, name, n=None):
    shapes = LAWS[name][0](rng)
    fix = dict(LAWS[name][1])
    if 'f0' in fix:
        fix['f0'] = shapes[0]
    scale = float(rng.choice([1., 0.5, 3., 20.]))
    loc = 0. if 'floc' in fix else float(rng.choice([0., 5., -2.]))
    n = n or int(rng.choice([25, 50, 100, 200]))
    dist = getattr(ws, name)
    x = np.asarray(dist.rvs(*shapes, loc=loc, scale=scale, size=n, random_state=int(rng.randint(2**30))), dtype=float)
    return dist, shapes, loc, scale, fix, x


def fixed_free(fix, npar):
    fixed = []
    for k in fix:
        fixed.append({'floc': npar - 2, 'fscale': npar - 1}.get(k, int(k[1:]) if k[1:].isdigit() else 0))
    return sorted(fixed), [i for i in range(npar) if i not in fixed]


@family(shards=3)
def estimates(ctx):
    rng = ctx.rng
    failed = total = 0
    for k in ctx.loop(44):
        name = NAMES[k % len(NAMES)]
        method = ('ml', 'mps')[(k // len(NAMES)) % 2]
        dist, shapes, loc, scale, fix, x = draw(rng, name)
        if rng.randint(4) == 0 and len(shapes) == 1 and 'f0' not in fix:
            fix[str(rng.choice(['f0', 'f' + dist.shapes, 'fix_' + dist.shapes]))] = float(shapes[0])
        elif rng.randint(4) == 0 and len(shapes) + 2 - len(fix) > 1:
            fix['fscale'] = scale
        ties = rng.randint(4) == 0
        if ties:
            x = np.round(x / scale, 2) * scale
            x = np.where(x <= loc, loc + 0.01 * scale, x) if 'floc' in fix else x
        npar = len(shapes) + 2
        fixed, free = fixed_free(fix, npar)
        true = np.r_[shapes, loc, scale]
        with ctx.case(dist=name, method=method, true=true, fix=fix, n=len(x), ties=bool(ties), nontrivial=len(free) > 1):
            keep = x.copy()
            c = quiet()
            try:
                alpha = float(rng.choice([0.05, 0.1, 0.01]))
                f = dist.fit2(x, method=method, alpha=alpha, **fix)
            finally:
                c.__exit__(None, None, None)
            ctx.close(x, keep, 'fit:data_changed')
            ctx.close(f.data, np.sort(x), 'fit:sorted_copy')
            par = np.asarray(f.par, dtype=float)
            ctx.count('fit:%s:%s' % (name, method))
            ctx.equal(len(par), npar, 'fit:number_of_parameters')
            for i in fixed:
                ctx.ok(par[i] == true[i], 'fit:fixed_parameter_moved', lambda: (i, par, true))
            ll, ps = loglike(name, x, par), logps(name, x, par)
            ctx.close(f.LLmax, ll, 'fit:LLmax', rtol=1e-9, atol=1e-9)
            if np.isfinite(ps):
                ctx.close(f.LPSmax, ps, 'fit:LPSmax', rtol=1e-9, atol=1e-7)
            got = ll if method == 'ml' else ps
            total += 1
            if not np.isfinite(got):
                # the downhill search may stop at its infeasible starting point; judged by its frequency below
                failed += 1
                ctx.count('fit:search_failed')
                continue
            val, where = best(name, x, method, par, free)
            val2, where2 = best(name, x, method, true, free)
            ctx.ok(got >= CRIT[method](name, x, true) - 5e-2, 'fit:%s:worse_than_truth' % method, lambda: (got, par, true))
            ctx.ok(got >= val - 5e-2, 'fit:%s:not_optimal' % method, lambda: (got, val, par, where))
            # the criterion has one maximum for these laws in the range used, up to the bounded-support genpareto
            if name not in ('genpareto', 'genextreme') or where2[0] * (1 if name == 'genpareto' else -1) > -0.6:
                ctx.ok(got >= val2 - 5e-2, 'fit:%s:not_optimal_from_truth' % method, lambda: (got, val2, par, where2))
            # goodness of fit
            n, m = len(x), len(x) + 1
            mean = m * (np.log(m) + np.euler_gamma) - 0.5 - 1 / (12 * m)
            var = m * (np.pi ** 2 / 6 - 1) - 0.5 - 1 / (6 * m)
            c1, c2 = mean - np.sqrt(n * var / 2), np.sqrt(var / (2 * n))
            if np.isfinite(ps):
                ctx.close(f.pvalue, chdtrc(n, (-ps + len(free) / 2 - c1) / c2), 'fit:pvalue', rtol=1e-2, atol=1e-5)
            # curvature: the covariance is the inverse of the second derivatives of the criterion
            V = np.asarray(f.par_cov)
            ctx.equal(V.shape, (npar, npar), 'fit:cov_shape')
            for i in fixed:
                ctx.ok(np.all(V[i] == 0) and np.all(V[:, i] == 0), 'fit:cov_of_fixed', lambda: V)
            ctx.close(V, V.T, 'fit:cov_symmetric', rtol=1e-6, atol=1e-9)
            edge = (name == 'truncrayleigh' and par[0] < 0.01)
            if not edge and 0.5 <= scale <= (50. if method == 'ml' else 3.) and not ties:
                H = hessian(lambda p: -CRIT[method](name, x, p), par, free)
                if np.all(np.isfinite(H)) and np.linalg.cond(H) < 1e5 and np.all(np.linalg.eigvalsh(H) > 0):
                    W = np.linalg.inv(H)
                    sd = np.sqrt(np.diag(W))
                    ctx.ok(np.all(np.abs(V[np.ix_(free, free)] - W) <= (0.02 if method == 'ml' else 0.1) * np.outer(sd, sd)), 'fit:cov', lambda: (V, W))
            with np.errstate(invalid='ignore'):
                z = -ndtri(alpha / 2) * np.sqrt(np.diag(V))
            ctx.close(f.par_lower, par - z, 'fit:par_lower', rtol=1e-9)
            ctx.close(f.par_upper, par + z, 'fit:par_upper', rtol=1e-9)
            # the fit is the law it found
            q = rng.uniform(0.01, 0.99, 4)
            ctx.close(f.cdf(f.ppf(q)), q, 'fit:frozen_ppf', rtol=1e-7)
            ctx.close(f.cdf(x[:5]), cdf(name, x[:5], par), 'fit:frozen_cdf', rtol=1e-9, atol=1e-12)
            ctx.close(f.logpdf(x[:5]), logpdf(name, x[:5], par), 'fit:frozen_logpdf', rtol=1e-9, atol=1e-12)
            ctx.close(f.fitfun(par), -got, 'fit:fitfun', rtol=1e-9, atol=1e-7) if np.isfinite(got) else None
    with ctx.case(failed=failed, nontrivial=False):
        ctx.ok(failed <= 2 + 0.03 * total, 'fit:searches_fail', lambda: (failed, total))


def hessian(f, par, free):
    m = len(free)
    h = 1e-3 * np.maximum(np.abs(par[free]) * 0.3, 0.1 * min(1, abs(par[-1])))
    H = np.empty((m, m))

    def g(*steps):
        p = np.array(par, dtype=float)
        for i, s in steps:
            p[free[i]] += s
        return f(p)
    for i in range(m):
        for j in range(i + 1):
            if i == j:
                H[i, i] = (-g((i, 2 * h[i])) + 16 * g((i, h[i])) - 30 * g() + 16 * g((i, -h[i])) - g((i, -2 * h[i]))) / (12 * h[i] ** 2)
            else:
                H[i, j] = H[j, i] = (g((i, h[i]), (j, h[j])) + g((i, -h[i]), (j, -h[j]))
                                     - g((i, h[i]), (j, -h[j])) - g((i, -h[i]), (j, h[j]))) / (4 * h[i] * h[j])
    return H


@family()
def closed_forms(ctx):
    rng = ctx.rng
    for k in ctx.loop(40):
        n = int(rng.choice([2, 5, 20, 100, 500]))
        scale, loc = float(np.exp(rng.normal())), float(rng.normal() * 3)
        with ctx.case(k=k % 4, n=n, scale=scale, loc=loc):
            c = quiet()
            try:
                if k % 4 == 0 and n > 2:
                    x = rng.normal(loc, scale, n)
                    f = ws.norm.fit2(x)
                    ctx.close(f.par, [x.mean(), x.std()], 'closed:norm', rtol=2e-3, atol=2e-3 * x.std())
                    if n > 2 and scale > 0.2:
                        ctx.ok(np.all(np.abs(np.diag(f.par_cov) / (x.var() / n * np.r_[1, 0.5]) - 1) < 0.05), 'closed:norm_cov', lambda: f.par_cov)
                elif k % 4 == 1:
                    x = loc + rng.exponential(scale, n)
                    ctx.close(ws.expon.fit2(x, floc=loc).par, [loc, (x - loc).mean()], 'closed:expon', rtol=2e-3, atol=2e-4)
                elif k % 4 == 2:
                    x = loc + rng.rayleigh(scale, n)
                    ctx.close(ws.rayleigh.fit2(x, floc=loc).par, [loc, np.sqrt(((x - loc) ** 2).mean() / 2)], 'closed:rayleigh', rtol=2e-3, atol=2e-4)
                else:
                    cc = float(rng.uniform(0, 3))
                    s = rng.exponential(size=n)
                    x = scale * 2 * s / (np.sqrt(cc * cc + 2 * s) + cc)
                    f = ws.truncrayleigh.fit2(x, f0=cc, floc=0)
                    val, where = best('truncrayleigh', x, 'ml', np.r_[cc, 0, scale], [2])
                    ctx.close(f.par, where, 'closed:truncrayleigh', rtol=2e-2, atol=2e-4)
            finally:
                c.__exit__(None, None, None)


@family()
def symmetries(ctx):
    """Order of the data, units and origin of the data, and the way of asking do not change the fit."""
    rng = ctx.rng
    for k in ctx.loop(30):
        name = NAMES[k % len(NAMES)]
        method = ('ml', 'mps')[rng.randint(2)]
        dist, shapes, loc, scale, fix, x = draw(rng, name, 60)
        with ctx.case(dist=name, method=method):
            c = quiet()
            try:
                f = dist.fit2(x, method=method, **fix)
                par = np.asarray(f.par)
                ctx.close(dist.fit2(rng.permutation(x), method=method, **fix).par, par, 'symmetry:order', rtol=1e-12)
                ctx.close(dist.fit2(x.tolist(), method=method, **fix).par, par, 'symmetry:list', rtol=1e-12)
                ctx.close(dist.fit2(x.reshape(6, 10), method=method, **fix).par, par, 'symmetry:shape', rtol=1e-12)
                ctx.close(dist.fit2(x, method=method.upper(), **fix).par, par, 'symmetry:method_case', rtol=1e-12)
                ctx.close(we.FitDistribution(dist, x, method=method, **fix).par, par, 'symmetry:class', rtol=1e-12)
                got = CRIT[method](name, x, np.asarray(dist.fit1(x, method=method, **fix)))
                want = CRIT[method](name, x, par)
                ctx.ok(got >= want - 5e-2, 'symmetry:fit1', lambda: (got, want))
                b = float(rng.choice([0.1, 4., 30.]))
                a = 0. if 'floc' in fix else float(rng.choice([-10., 3.]))
                g = dist.fit2(a + b * x, method=method, **fix)
                back = np.asarray(g.par, dtype=float).copy()
                back[-2] = (back[-2] - a) / b
                back[-1] /= b
                ctx.ok(CRIT[method](name, x, back) >= want - 5e-2, 'symmetry:units', lambda: (back, par))
                # an optimizer by name, no search, starting values
                g = dist.fit2(x, method=method, search=False, **dict(fix, **{'loc': loc} if 'floc' not in fix else {}, scale=2.5))
                ctx.ok(g.par[-1] == 2.5, 'symmetry:search_false')
                g = dist.fit2(x, method=method, optimizer='powell', **fix)
                ctx.ok(CRIT[method](name, x, np.asarray(g.par)) >= want - 0.5, 'symmetry:optimizer', lambda: (g.par, par))
                # refitting from what was found
                f.fit(*f.par, method=method, **fix)
                ctx.ok(CRIT[method](name, x, np.asarray(f.par)) >= want - 1e-6, 'symmetry:refit')
                ctx.close(f.LLmax, loglike(name, x, np.asarray(f.par)), 'symmetry:refit_LL', rtol=1e-9)
                ctx.raises(ValueError, lambda: dist.fit2(x, floc=0., fscale=1., **{'f%d' % i: s for i, s in enumerate(shapes)}), 'fit:all_fixed')
                ctx.raises(TypeError, lambda: dist.fit2(x, nonsense=3), 'fit:unknown_argument')
                if shapes:
                    ctx.raises(ValueError, lambda: dist.fit2(x, **{'f0': 1., 'f' + dist.shapes: 1.}), 'fit:fixed_twice')
            finally:
                c.__exit__(None, None, None)


def profile_value(name, x, method, start, fixed, free, value_to_par):
    """Independent profile: best criterion over the free parameters, the rest following from them."""
    t0 = np.array([start[i] for i in free], dtype=float)

    def f(t):
        p = np.array(start, dtype=float)
        p[free] = t
        p = value_to_par(p)
        if p is None or not np.all(np.isfinite(p)):
            return 1e10
        v = -CRIT[method](name, x, p)
        return v if np.isfinite(v) else 1e10
    if len(free) == 0:
        return -f(t0)
    bestv = np.inf
    for _ in range(3):
        r = optimize.minimize(f, t0, method='Nelder-Mead', options=dict(xatol=1e-7, fatol=1e-8, maxiter=2000))
        t0 = r.x
        if bestv - r.fun < 1e-7:
            bestv = min(bestv, r.fun)
            break
        bestv = min(bestv, r.fun)
    return -bestv


def crossing(fun, p0, sd, level, sign):
    """First point beyond p0 where fun falls to the level."""
    a, b = p0, p0 + sign * 0.7 * sd
    for _ in range(60):
        if not fun(b) > level:
            break
        a, b = b, b + sign * 0.7 * sd
    else:
        return None
    if fun(b) < -1e9:
        return None
    return optimize.brentq(lambda p: fun(p) - level, a, b, xtol=1e-5 * sd)


class Most:
    """The inner search of a profile may now and then stop early: one case in ten of a shard may miss, the next is a violation."""

    def __init__(self, ctx, n):
        self.ctx, self.allowed, self.missed, self.k = ctx, 1 + n // 10, {}, 0

    def ok(self, cond, key, msg=None):
        if cond:
            self.ctx.ok(True, key)
            return
        self.missed.setdefault(key, set()).add(self.k)
        self.ctx.count('search_stopped_early:' + key)
        self.ctx.ok(len(self.missed[key]) <= self.allowed, key, msg)


@family(shards=3)
def profiles(ctx):
    rng = ctx.rng
    names = ['norm', 'weibull_min', 'gumbel_r', 'lognorm', 'genextreme', 'genpareto', 'logistic', 'gamma', 'expon', 'rayleigh']
    most = Most(ctx, 10 if ctx.tier == 'quick' else 150)
    for k in ctx.loop(10):
        most.k = k
        name = names[k % len(names)]
        method = ('ml', 'mps')[int(rng.randint(3) == 0)]
        dist, shapes, loc, scale, fix, x = draw(rng, name, int(rng.choice([40, 100])))
        npar = len(shapes) + 2
        fixed, free = fixed_free(fix, npar)
        i = int(free[rng.randint(len(free))])
        with ctx.case(dist=name, method=method, i=i, fix=fix, n=len(x), nontrivial=len(free) > 1):
            c = quiet()
            try:
                f = dist.fit2(x, method=method, **fix)
                par = np.asarray(f.par, dtype=float)
                keep, V = par.copy(), f.par_cov.copy()
                alpha = float(rng.choice([0.05, 0.1]))
                pr = f.profile(i=i, alpha=alpha)
                ctx.close(f.par, keep, 'profile:changes_the_fit', rtol=0)
                others = [j for j in free if j != i]

                def fun(v):
                    start = par.copy()
                    start[i] = v
                    return profile_value(name, x, method, start, fixed, others, lambda p: p)
                top = fun(par[i])
                most.ok(abs(pr.profile_max - max(top, CRIT[method](name, x, par))) < 5e-2, 'profile:max', lambda: (pr.profile_max, top))
                idx = rng.choice(len(pr.args), min(5, len(pr.args)), replace=False)
                for j in idx:
                    want = fun(pr.args[j])
                    if want < top - 12:
                        continue
                    most.ok(abs(pr.data[j] - want) < 5e-2 + 5e-3 * abs(want - top), 'profile:value', lambda: (pr.args[j], pr.data[j], want))
                ctx.ok(np.all(np.diff(pr.args) > 0), 'profile:args_sorted')
                lo, hi = pr.get_bounds(alpha)
                sd = np.sqrt(V[i, i])
                level = top - chdtri(1, alpha) / 2
                wlo, whi = crossing(fun, par[i], sd, level, -1), crossing(fun, par[i], sd, level, 1)
                if wlo is not None and whi is not None:
                    tol = 0.04 * (whi - wlo)
                    most.ok(abs(lo - wlo) < tol, 'profile:lower_bound', lambda: (lo, wlo, whi, par[i]))
                    most.ok(abs(hi - whi) < tol, 'profile:upper_bound', lambda: (hi, whi, wlo, par[i]))
                fixedi = [j for j in range(npar) if j in fixed]
                for j in fixedi:
                    ctx.raises(IndexError, lambda: f.profile(i=j), 'profile:fixed_index')
            finally:
                c.__exit__(None, None, None)


@family(shards=3)
def quantile_profiles(ctx):
    rng = ctx.rng
    names = ['weibull_min', 'gumbel_r', 'genpareto', 'genextreme', 'rayleigh', 'expon', 'truncrayleigh']
    most = Most(ctx, 10 if ctx.tier == 'quick' else 150)
    for k in ctx.loop(10):
        most.k = k
        name = names[(k + 2 * ctx.shard) % len(names)]
        dist, shapes, loc, scale, fix, x = draw(rng, name, int(rng.choice([40, 100])))
        npar = len(shapes) + 2
        fixed, free = fixed_free(fix, npar)
        method = ('ml', 'mps')[int(rng.randint(3) == 0)]
        prb = float(rng.choice([0.1, 0.02, 1 / 200.]))
        prob = bool(rng.randint(2))
        # the parameter that follows from the quantile: the scale, or the location where it is free
        i = npar - 1 if 'floc' in fix or rng.randint(2) else npar - 2
        with ctx.case(dist=name, method=method, prb=prb, probability=prob, i=i, n=len(x), nontrivial=len(free) > 1):
            c = quiet()
            try:
                f = dist.fit2(x, method=method, **fix)
                par = np.asarray(f.par, dtype=float)
                if not np.isfinite(CRIT[method](name, x, par)):
                    ctx.count('quantile:search_failed')
                    continue
                xq = float(f.isf(prb))
                alpha = 0.1
                if prob:
                    pr = f.profile_probability(np.log(prb), i=i, alpha=alpha)
                    p0 = np.log(prb)
                else:
                    pr = f.profile_quantile(xq, i=i, alpha=alpha)
                    p0 = xq
                others = [j for j in free if j != i]

                def zq(shapes, p):
                    if name == 'truncrayleigh':
                        e = -np.log(p)
                        return 2 * e / (np.sqrt(shapes[0] ** 2 + 2 * e) + shapes[0])
                    return getattr(ss, name).isf(p, *shapes)

                def fun(v):
                    qx, p = (xq, np.exp(v)) if prob else (v, prb)
                    if not 0 < p < 1:
                        return -1e10

                    def follow(par):
                        par = par.copy()
                        z = zq(par[:-2], p)
                        if i == npar - 1:
                            par[-1] = (qx - par[-2]) / z
                        else:
                            par[-2] = qx - par[-1] * z
                        return par
                    return profile_value(name, x, method, par, fixed, others, follow)
                top = fun(p0)
                if top < -1e9:
                    ctx.count('quantile:estimate_on_the_edge')
                    continue
                most.ok(abs(pr.profile_max - max(top, CRIT[method](name, x, par))) < 5e-2, 'quantile:max', lambda: (pr.profile_max, top))
                ctx.ok(len(pr.args) > 5, 'quantile:points')
                for j in rng.choice(len(pr.args), min(4, len(pr.args)), replace=False):
                    want = fun(pr.args[j])
                    if want < top - 12:
                        continue
                    most.ok(abs(pr.data[j] - want) < 5e-2 + 1e-2 * abs(want - top), 'quantile:value', lambda: (pr.args[j], pr.data[j], want))
                level = top - chdtri(1, alpha) / 2
                sd = 0.15 * (abs(p0) if not prob else 1.) if not prob else 0.3
                wlo, whi = crossing(fun, p0, sd, level, -1), crossing(fun, p0, sd, level, 1)
                lo, hi = pr.get_bounds(alpha)
                if wlo is not None and whi is not None and wlo > -30:
                    tol = 0.06 * (whi - wlo)
                    most.ok(abs(lo - wlo) < tol, 'quantile:lower_bound', lambda: (lo, wlo, whi, p0))
                    most.ok(abs(hi - whi) < tol, 'quantile:upper_bound', lambda: (hi, whi, wlo, p0))
                    if prob and rng.randint(2):
                        ci = f.ci_sf([prb], alpha=alpha, i=i)
                        most.ok(np.shape(ci) == (1, 2) and np.all(np.abs(np.log(ci[0]) - [wlo, whi]) < tol), 'quantile:ci_sf', lambda: (ci, wlo, whi))
                    elif not prob and rng.randint(2):
                        ci = f.ci_quantile([xq], alpha=alpha, i=i)
                        most.ok(np.shape(ci) == (1, 2) and np.all(np.abs(ci[0] - [wlo, whi]) < tol), 'quantile:ci_quantile', lambda: (ci, wlo, whi))
            finally:
                c.__exit__(None, None, None)


LINKED = {'expon': (0, 1), 'weibull_min': (0, 1, 2), 'genpareto': (1, 2), 'genexpon': (0, 1), 'gumbel_r': (0, 1), 'rayleigh': (0, 1),
          'truncrayleigh': (0, 1, 2), 'genextreme': (1, 2), 'exponweib': (0, 1, 2, 3), 'burr': (0, 1, 2, 3)}


@family()
def links(ctx):
    """A link returns the value of one parameter at which log(sf(x)) is the value asked for, all else equal."""
    rng = ctx.rng
    names = sorted(LINKED)
    for k in ctx.loop(600):
        name = names[k % len(names)]
        dist = getattr(ws, name)
        loc, scale = float(rng.normal()), float(np.exp(rng.normal() * 0.7))
        shapes = {0: (), 1: (float(rng.uniform(0.3, 3)),), 2: tuple(rng.uniform(0.5, 3, 2)), 3: tuple(rng.uniform(0.3, 2, 3))}[dist.numargs]
        if name in ('genpareto', 'genextreme'):
            shapes = (float(rng.choice([0., 0.2, -0.2, rng.uniform(-0.5, 0.5)])),)
        par = np.r_[shapes, loc, scale]
        i = int(LINKED[name][(k // len(names)) % len(LINKED[name])])
        target = float(dist.logsf(dist.ppf(rng.uniform(0.05, 0.95), *par), *par))
        # a point in the support at which the asked parameter can reach the target: its own quantile for another value of it
        other = par.copy()
        other[i] = other[i] + rng.normal() * 0.5 * scale if i == len(par) - 2 else other[i] * np.exp(rng.normal() * 0.4)
        x = float(dist.isf(np.exp(target), *other))
        with ctx.case(dist=name, i=i, par=par, x=x, logsf=target, nontrivial=True):
            link = we.LINKS.get(name)
            ctx.ok(link is not None, 'link:missing:' + name)
            if link is None or not np.isfinite(x):
                continue
            if i < len(par) - 2 and abs((x - loc) / scale - 1) < 1e-2:
                continue
            got = link(x, target, tuple(par), i)
            ctx.count('link:%s:%d' % (name, i))
            new = par.copy()
            new[i] = got
            ctx.close(dist.logsf(x, *new), target, 'link:%s:%d' % (name, i), rtol=1e-6, atol=1e-9)
            ctx.close(got, other[i], 'link:value:%s:%d' % (name, i), rtol=1e-5, atol=1e-7)
            ctx.raises(IndexError, lambda: link(x, target, tuple(par), len(par)), 'link:index:' + name)
