"""C12 distributions: every distribution offered is one consistent law, whichever method is asked."""
import warnings

import numpy as np
import scipy.integrate as si
import scipy.stats as ss
from scipy.special import ndtri
from scipy.stats._distr_params import distcont, distdiscrete

import wafo.stats as ws
from wafo.stats import estimation as we
from vlib.harness import family

RULE = ('every continuous and discrete distribution of the library at its customary shape parameters and at seeded locations and scales; '
        'the library\'s own distributions (truncated Rayleigh, Poisson-binomial) at seeded shapes including the edges; '
        'non-trivial: scale differs from one or the law has a shape parameter')
ASSUMPTIONS = ['the distributions taken over from scipy are the installed scipy ones: the same name must give the same law']

SLOW = {'levy_stable', 'studentized_range', 'kappa4', 'gausshyper', 'genexpon', 'ksone', 'kstwo', 'vonmises', 'vonmises_line',
        'ncf', 'nct', 'recipinvgauss', 'geninvgauss', 'genhyperbolic', 'norminvgauss', 'crystalball', 'kstwobign', 'skewnorm',
        'rel_breitwigner', 'foldcauchy', 'jf_skew_t'}


@family(shards=2)
def same_law(ctx):
    """Same name, same law as the reference library, for scalars, arrays, frozen objects and keyword arguments."""
    rng = ctx.rng
    names = [(n, a) for n, a in distcont if isinstance(n, str) and hasattr(ss, n)]
    for k in ctx.loop(120):
        name, args = names[(k * 2 + ctx.shard) % len(names)]
        loc, scale = float(rng.normal()), float(np.exp(rng.normal()))
        ref = getattr(ss, name)
        q = np.sort(rng.uniform(0.01, 0.99, 4 if name in SLOW else 9))
        with ctx.case(dist=name, args=args, loc=loc, scale=scale, nontrivial=True), warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            dist = getattr(ws, name)
            ctx.count('dist:' + name)
            if name in ('levy_stable', 'studentized_range'):
                q = q[1:3]
            x = ref.ppf(q, *args, loc=loc, scale=scale)
            ctx.close(dist.ppf(q, *args, loc=loc, scale=scale), x, 'same:ppf', rtol=1e-12, atol=1e-14 * scale)
            froz = dist(*args, loc=loc, scale=scale)
            for meth in ('pdf', 'cdf', 'sf', 'logpdf', 'logsf'):
                if name in ('levy_stable', 'studentized_range') and meth not in ('cdf', 'pdf'):
                    continue
                want = getattr(ref, meth)(x, *args, loc=loc, scale=scale)
                ctx.close(getattr(dist, meth)(x, *args, loc=loc, scale=scale), want, 'same:' + meth, rtol=1e-12, atol=1e-300)
                ctx.close(getattr(froz, meth)(x), want, 'same:frozen_' + meth, rtol=1e-12, atol=1e-300)
            if name not in SLOW:
                for m in ('mean', 'var'):
                    ctx.close(np.nan_to_num(getattr(dist, m)(*args, loc=loc, scale=scale)),
                              np.nan_to_num(getattr(ref, m)(*args, loc=loc, scale=scale)), 'same:' + m, rtol=1e-12, atol=1e-300)
                ctx.close(dist.support(*args, loc=loc, scale=scale), ref.support(*args, loc=loc, scale=scale), 'same:support', rtol=1e-12)
                seed = int(rng.randint(2**30))
                ctx.close(dist.rvs(*args, loc=loc, scale=scale, size=5, random_state=seed),
                          ref.rvs(*args, loc=loc, scale=scale, size=5, random_state=seed), 'same:rvs', rtol=1e-12)


@family()
def same_discrete(ctx):
    rng = ctx.rng
    names = [(n, a) for n, a in distdiscrete if isinstance(n, str) and hasattr(ss, n)]
    for k in ctx.loop(30):
        name, args = names[k % len(names)]
        loc = int(rng.randint(-5, 6))
        ref, dist = getattr(ss, name), getattr(ws, name)
        with ctx.case(dist=name, args=args, loc=loc), warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            ctx.count('dist:' + name)
            x = ref.ppf(np.array([0.02, 0.3, 0.5, 0.9]), *args, loc=loc)
            for meth in ('pmf', 'cdf', 'sf'):
                ctx.close(getattr(dist, meth)(x, *args, loc=loc), getattr(ref, meth)(x, *args, loc=loc), 'same:' + meth, rtol=1e-12, atol=1e-300)
                ctx.close(getattr(dist(*args, loc=loc), meth)(x), getattr(ref, meth)(x, *args, loc=loc), 'same:frozen_' + meth, rtol=1e-12, atol=1e-300)


@family()
def truncrayleigh(ctx):
    """X is what is left of a Rayleigh variable R over the truncation level c, given R > c."""
    rng = ctx.rng
    d = ws.truncrayleigh
    for k in ctx.loop(40):
        c = float(rng.choice([0., 1e-8, 1e-3, 0.5, 1., 2.5, 6., rng.uniform(0, 8), np.exp(rng.normal() * 2)]))
        loc, scale = float(rng.normal() * 3), float(np.exp(rng.normal()))
        with ctx.case(c=c, loc=loc, scale=scale, nontrivial=c > 0):
            e = -np.log(np.r_[rng.uniform(size=6), 1e-12, 1e-300])        # unit exponentials
            # R = sqrt(c^2 + 2e) is Rayleigh beyond c; the excess is 2e/(R+c)
            z = 2 * e / (np.sqrt(c * c + 2 * e) + c)
            x = loc + scale * z
            zz = (x - loc) / scale
            expo = zz * (zz + 2 * c) / 2
            tol = 1e-12 + 1e-15 * (abs(loc) + abs(x)) / scale * (zz + c + 1)
            ctx.ok(np.all(np.abs(d.logsf(x, c, loc, scale) + expo) <= 1e-10 * (1 + expo) + 1e-14 * c * c + tol), 'truncrayleigh:logsf')
            ctx.ok(np.all(np.abs(d.sf(x, c, loc, scale) - np.exp(-expo)) <= 1e-9), 'truncrayleigh:sf')
            ctx.ok(np.all(np.abs(d.cdf(x, c, loc, scale) + np.expm1(-expo)) <= 1e-9), 'truncrayleigh:cdf')
            pdf = (zz + c) * np.exp(-expo) / scale
            ctx.ok(np.all(np.abs(d.pdf(x, c, loc, scale) - pdf) <= 1e-9 * (1 + c) / scale), 'truncrayleigh:pdf')
            ctx.ok(np.all(np.abs(d.logpdf(x, c, loc, scale) - np.log((zz + c) / scale) + expo) <= 1e-9 * (1 + expo + c * c)), 'truncrayleigh:logpdf')
            q = rng.uniform(size=6)
            zq = -2 * np.log1p(-q) / (np.sqrt(c * c - 2 * np.log1p(-q)) + c)
            ctx.close(d.ppf(q, c, loc, scale), loc + scale * zq, 'truncrayleigh:ppf', rtol=1e-10, atol=1e-12 * scale * (1 + c))
            zi = -2 * np.log(q) / (np.sqrt(c * c - 2 * np.log(q)) + c)
            ctx.close(d.isf(q, c, loc, scale), loc + scale * zi, 'truncrayleigh:isf', rtol=1e-7, atol=1e-9 * scale * (1 + c))
            ctx.ok(d.sf(loc - scale * 0.5, c, loc, scale) == 1 and d.pdf(loc - scale * 0.5, c, loc, scale) == 0, 'truncrayleigh:below')

            def dens(t):
                return (t + c) * np.exp(-t * (t + 2 * c) / 2)
            top = 12. / (1 + c) + 12 / (1 + c / 4)
            mom = [si.quad(lambda t, p=p: t ** p * dens(t), 0, top, epsabs=0, epsrel=1e-12, limit=200)[0] for p in range(1, 5)]
            m1, m2, m3, m4 = mom
            var = m2 - m1 ** 2
            skew = (m3 - 3 * m1 * m2 + 2 * m1 ** 3) / var ** 1.5
            kurt = (m4 - 4 * m1 * m3 + 6 * m1 ** 2 * m2 - 3 * m1 ** 4) / var ** 2 - 3
            got = d.stats(c, loc, scale, moments='mvsk')
            ctx.close(got[0], loc + scale * m1, 'truncrayleigh:mean', rtol=1e-8, atol=1e-9 * scale)
            ctx.close(got[1], scale ** 2 * var, 'truncrayleigh:variance', rtol=1e-6)
            if c < 50:
                ctx.close(got[2], skew, 'truncrayleigh:skewness', rtol=1e-4, atol=1e-4)
                ctx.close(got[3], kurt, 'truncrayleigh:kurtosis', rtol=1e-3, atol=1e-3)
            ent = -si.quad(lambda t: dens(t) * np.log(dens(t) + 1e-300), 0, top, epsrel=1e-10, limit=200)[0]
            ctx.close(d.entropy(c, loc, scale), ent + np.log(scale), 'truncrayleigh:entropy', rtol=1e-7, atol=1e-8)
            # samples: the unit exponentials recovered from them are unit exponentials
            r = d.rvs(c, loc, scale, size=2000, random_state=int(rng.randint(2**30)))
            zr = (r - loc) / scale
            ctx.ok(ss.kstest(zr * (zr + 2 * c) / 2, 'expon').pvalue > 1e-9, 'truncrayleigh:rvs')
    with ctx.case(what='c negative'):
        ctx.ok(np.isnan(d.pdf(1., -0.5)) and np.isnan(d.cdf(1., -0.5)), 'truncrayleigh:domain')


def _convolve(p):
    pmf = np.ones(1)
    for pi in p:
        pmf = np.r_[pmf * (1 - pi), 0.] + np.r_[0., pmf * pi]
    return pmf


@family()
def poisson_binomial(ctx):
    rng = ctx.rng
    for k in ctx.loop(60):
        n = int(rng.choice([1, 2, 3, 5, 8, 20, 60]))
        kind = rng.randint(4)
        p = rng.uniform(size=n)
        if kind == 1:
            p = np.full(n, rng.uniform())
        elif kind == 2:
            p = rng.choice([0., 1., 0.5, 0.2], size=n)
        elif kind == 3:
            p = rng.uniform(size=n) ** 4
        with ctx.case(p=p, nontrivial=n > 1):
            d = ws.pbinom(p.tolist() if rng.randint(2) else p)
            pmf = _convolve(p)
            ks = np.arange(n + 1)
            ctx.close(d.pmf(ks), pmf, 'pbinom:pmf', rtol=1e-9, atol=1e-13)
            ctx.close(d.pmf([-1, n + 1, 0.5]), [0, 0, 0], 'pbinom:outside')
            ctx.close(d.cdf(ks), np.minimum(pmf.cumsum(), 1), 'pbinom:cdf', rtol=1e-9, atol=1e-12)
            ctx.close(d.sf(ks), np.r_[pmf[::-1].cumsum()[::-1][1:], 0], 'pbinom:sf', rtol=1e-9, atol=1e-12)
            x = rng.uniform(-1, n + 1, 5)
            ctx.close(d.cdf(x), [pmf[ks <= xi].sum() for xi in x], 'pbinom:cdf_real', rtol=1e-9, atol=1e-12)
            ctx.close(d.sf(x), [pmf[ks > xi].sum() for xi in x], 'pbinom:sf_real', rtol=1e-9, atol=1e-12)
            ctx.ok(np.isscalar(d.pmf(0)) or np.ndim(d.pmf(0)) == 0, 'pbinom:scalar')
            ctx.close(d.pmf(0), pmf[0], 'pbinom:pmf_scalar', rtol=1e-9, atol=1e-13)
            q = rng.uniform(0.001, 0.999, 6)
            cum = pmf.cumsum()
            q = q[np.abs(cum[:, None] - q).min(axis=0) > 1e-9]
            ctx.close(d.ppf(q), [ks[cum >= qi][0] for qi in q], 'pbinom:ppf')
            mean = (ks * pmf).sum()
            var = ((ks - mean) ** 2 * pmf).sum()
            if var > 1e-9:
                st = d.stats(moments='mvsk')
                ctx.close(st[0], mean, 'pbinom:mean', rtol=1e-9)
                ctx.close(st[1], var, 'pbinom:variance', rtol=1e-8)
                ctx.close(st[2], ((ks - mean) ** 3 * pmf).sum() / var ** 1.5, 'pbinom:skewness', rtol=1e-7, atol=1e-7)
                ctx.close(st[3], ((ks - mean) ** 4 * pmf).sum() / var ** 2 - 3, 'pbinom:kurtosis', rtol=1e-6, atol=1e-6)
            N = 3000
            r = np.asarray(d.rvs(size=N, random_state=int(rng.randint(2**30))))
            ctx.equal(r.shape, (N,), 'pbinom:rvs_shape')
            if r.shape == (N,):
                cnt = np.bincount(r.astype(int), minlength=n + 1)
                ctx.ok(len(cnt) == n + 1 and np.all(np.abs(cnt - N * pmf) <= 6.5 * np.sqrt(N * pmf * (1 - pmf)) + 1e-9 + 12 * (pmf > 1e-14)), 'pbinom:rvs_law')
            ctx.equal(np.shape(d.rvs(size=(2, 3))), (2, 3), 'pbinom:rvs_shape2')
            ctx.equal(np.shape(d.rvs()), (), 'pbinom:rvs_scalar')
    with ctx.case(what='not probabilities'):
        ctx.raises(ValueError, lambda: ws.pbinom([0.5, 1.2]), 'pbinom:domain')
        ctx.raises(ValueError, lambda: ws.pbinom([-0.1, 0.2]), 'pbinom:domain')


@family()
def isolation(ctx):
    """Importing and fitting with this library leaves the distributions of the library it extends as they are."""
    rng = ctx.rng
    for k in ctx.loop(8):
        name, args = [('weibull_min', (1.5,)), ('genpareto', (0.1,)), ('lognorm', (0.6,)), ('genextreme', (0.1,)),
                      ('rayleigh', ()), ('gumbel_r', ()), ('norm', ()), ('expon', ())][k % 8]
        data = getattr(ss, name).rvs(*args, size=60, random_state=int(rng.randint(2**30)))
        with ctx.case(dist=name), warnings.catch_warnings(), np.errstate(all='ignore'):
            warnings.simplefilter('ignore')
            a, b = getattr(ss, name), getattr(ws, name)
            ctx.ok(a is not b, 'isolation:shared_object')
            before = np.asarray(a._fitstart(data), dtype=float)
            keep = data.copy()
            b.fit2(data, method='ml')
            b.fit(data)
            ctx.close(data, keep, 'isolation:data_changed')
            ctx.close(np.asarray(a._fitstart(data), dtype=float), before, 'isolation:reference_changed')
            if '_fitstart' in vars(b):
                ctx.ok('_fitstart' not in vars(a), 'isolation:reference_patched')


@family()
def frozen_names(ctx):
    """Every name the package lists exists, and the error-free helpers of the estimation module are the laws they name."""
    rng = ctx.rng
    for k in ctx.loop(20):
        q, df, x = rng.uniform(0.001, 0.999, 5), int(rng.randint(1, 30)), rng.uniform(0.01, 40, 5)
        with ctx.case(df=df):
            ctx.close(we.chi2isf(q, df), ss.chi2.isf(q, df), 'helper:chi2isf', rtol=1e-9)
            ctx.close(we.chi2sf(x, df), ss.chi2.sf(x, df), 'helper:chi2sf', rtol=1e-9)
            ctx.close(we.norm_ppf(q), ndtri(q), 'helper:norm_ppf', rtol=1e-12)
            for n in ws.__all__:
                ctx.ok(hasattr(ws, n), 'names:missing', n)
