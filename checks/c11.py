from math import factorial, gamma
import numpy as np
from scipy.integrate import quad
from scipy.optimize import brentq
from wafo.kdetools.kernels import (Kernel, _MKERNEL_DICT, iqrange, mkernel, sphere_volume, mkernel_gaussian)
from vlib.harness import family

RULE = ('every kernel in 1 to 3 dimensions at seeded points; bandwidth selectors on seeded samples (normal, skewed, bimodal, heavy tailed, '
        'uniform, discrete, scaled by 1e-4 to 1e4 and shifted, several dimensions); non-trivial: at least 10 distinct data points')
ASSUMPTIONS = ['kernels and bandwidth selectors as defined by Wand and Jones (1995) and Botev et al. (2010), with exact double sums in place of binning']
NAMES = dict(epan='epanechnikov', biwe='biweight', triw='triweight', p1ep='p1epanechnikov', p1bi='p1biweight', p1tr='p1triweight',
             rect='rectangular', tria='triangular', lapl='laplace', logi='logistic', gaus='gaussian')
REACH = dict(lapl=45., logi=45., gaus=12.)


def form(s, u):
    u = np.abs(u)
    return {'ep': lambda: np.clip(1 - u ** 2, 0, None), 'bi': lambda: np.clip(1 - u ** 2, 0, None) ** 2,
            'tr': lambda: np.clip(1 - u ** 2, 0, None) ** 3}[s]()


def shape(name, u):
    """Unnormalised kernels on u (d, m)."""
    if name in ('epan', 'biwe', 'triw'):
        r2 = np.clip(1 - (u ** 2).sum(0), 0, None)
        return r2 ** dict(epan=1, biwe=2, triw=3)[name]
    if name[:2] == 'p1':
        return np.prod(form(name[2:], u), axis=0)
    f = dict(rect=lambda v: 1. * (np.abs(v) <= 1), tria=lambda v: np.clip(1 - np.abs(v), 0, None), lapl=lambda v: np.exp(-np.abs(v)),
             logi=lambda v: np.exp(-np.abs(v)) / (1 + np.exp(-np.abs(v))) ** 2, gaus=lambda v: np.exp(-v ** 2 / 2))[name]
    return np.prod(f(u), axis=0)


@family(shards=2)
def kernels(ctx):
    rng = ctx.rng
    names = sorted(NAMES)
    for it in ctx.loop(220):
        name = names[it % len(names)]
        d = int(rng.choice([1, 2, 3]))
        m = int(rng.choice([1, 2, 9]))
        u = rng.uniform(-1.3, 1.3, (d, m)) * rng.choice([1., 1., 10., 900.])
        with ctx.case(name=name, u=u):
            K = Kernel(NAMES[name] if rng.rand() < 0.5 else name)
            keep = u.copy()
            v = K(u)
            ctx.close(v, shape(name, u), 'kernel:' + name, rtol=1e-9, atol=1e-300)
            ctx.close(K.eval_points(u), v, 'kernel:eval_points', rtol=1e-14)
            ctx.close(mkernel(u, NAMES[name]), v, 'kernel:mkernel', rtol=1e-14)
            ctx.close(K(-u), v, 'kernel:symmetric', rtol=1e-13)
            ctx.equal(u, keep, 'kernel:argument')
            ctx.equal(K.name.lower(), NAMES[name], 'kernel:name')
            N = K.norm_factor(d, 10)
            r = REACH.get(name, 1.0)
            one = quad(lambda t: shape(name, np.array([[t]]))[0], 0, r, limit=200, points=[min(1, r)] if r > 1 else None)[0] * 2
            if name in ('epan', 'biwe', 'triw'):
                p = dict(epan=1, biwe=2, triw=3)[name]
                # surface of the unit sphere times the radial integral
                want = d * np.pi ** (d / 2.) / gamma(d / 2. + 1) * quad(lambda t: t ** (d - 1) * (1 - t ** 2) ** p, 0, 1)[0]
            else:
                want = one ** d
            ctx.close(N, want, 'kernel:norm', rtol=1e-6, msg=name)
            ctx.close(K.kernel.norm_kernel(u), v / want, 'kernel:norm_kernel', rtol=1e-6, atol=1e-300)
            lo, up = K.effective_support()
            ctx.close(lo, -up, 'kernel:support')
            e = np.zeros((d, 1))
            e[0] = up * 1.0001
            ctx.ok(K(e)[0] <= 5e-3 * K(0 * e)[0], 'kernel:support')
            ctx.count('values', m)
    for name in names:
        with ctx.case(name=name, what='moments'):
            K = Kernel(name)
            r = REACH.get(name, 1.0)
            f = lambda t: shape(name, np.array([[t]]))[0]
            k0 = quad(f, 0, r, limit=300)[0] * 2
            mu2 = quad(lambda t: t * t * f(t), 0, r, limit=300)[0] * 2 / k0
            R = quad(lambda t: f(t) ** 2, 0, r, limit=300)[0] * 2 / k0 ** 2
            s = K.stats()
            ctx.close(s[0], mu2, 'stats:second_moment', rtol=1e-6, msg=name)
            ctx.close(s[1], R, 'stats:roughness', rtol=1e-6, msg=name)
            if name in ('gaus', 'logi', 'biwe', 'p1bi'):
                h = 1e-3
                g = lambda t: (f(t + h) - 2 * f(t) + f(t - h)) / h ** 2
                R2 = quad(lambda t: g(t) ** 2, 0, r - 2 * h if r == 1 else r, limit=300)[0] * 2 / k0 ** 2
                ctx.close(s[2], R2, 'stats:roughness2', rtol=2e-2 if r == 1 else 1e-3, msg=name)
    with ctx.case(what='gaussian derivatives'):
        t = np.linspace(-4, 4, 41)
        phi = np.exp(-t ** 2 / 2) / np.sqrt(2 * np.pi)
        for k, v in enumerate(mkernel_gaussian.deriv4_6_8_10(t, numout=4)):
            c = np.zeros(4 + 2 * k + 1)
            c[-1] = 1
            ctx.close(v, np.polynomial.hermite_e.hermeval(t, c) * phi, 'gaussian:derivative', rtol=1e-9, atol=1e-9)
        for r in (4, 6, 8, 10, 12):
            for s in (1, 0.3, 2.):
                ctx.close(mkernel_gaussian.psi(r, s), (-1) ** (r // 2) * factorial(r) / ((2 * s) ** (r + 1) * factorial(r // 2) * np.sqrt(np.pi)),
                          'gaussian:psi', rtol=1e-12)
        for d in range(1, 7):
            ctx.close(sphere_volume(d, 1.7), np.pi ** (d / 2.) / gamma(d / 2. + 1) * 1.7 ** d, 'sphere_volume', rtol=1e-12)
    for _ in ctx.loop(40):
        x = rng.randn(3, rng.choice([2, 5, 30]))
        with ctx.case(x=x):
            def iq(v):
                v = np.sort(v)
                q = lambda p: np.interp(p * (len(v) - 1), np.arange(len(v)), v)
                return q(0.75) - q(0.25)
            k = x.copy()
            ctx.close(iqrange(x, axis=1), [iq(v) for v in x], 'iqrange', rtol=1e-10)
            ctx.close(iqrange(x), iq(x.ravel()), 'iqrange', rtol=1e-10)
            ctx.close(iqrange(x, axis=0), [iq(v) for v in x.T], 'iqrange', rtol=1e-10)
            ctx.equal(x, k, 'iqrange:argument')


def sample(rng, n=None):
    n = int(n or rng.choice([12, 25, 60, 150]))
    k = rng.choice(['normal', 'skew', 'bimodal', 'heavy', 'uniform', 'round'])
    if k == 'normal':
        x = rng.randn(n)
    elif k == 'skew':
        x = rng.gamma(2., size=n)
    elif k == 'bimodal':
        x = np.where(rng.rand(n) < 0.5, -2, 2) + 0.5 * rng.randn(n)
    elif k == 'heavy':
        x = rng.standard_t(4, size=n)
    elif k == 'uniform':
        x = rng.rand(n)
    else:
        x = np.round(rng.randn(n) * 4) / 4
    return k, x


def phi(r, x, g):
    c = np.zeros(r + 1)
    c[-1] = 1
    u = x / g
    return np.polynomial.hermite_e.hermeval(u, c) * np.exp(-u ** 2 / 2) / np.sqrt(2 * np.pi) / g ** (r + 1)


def phi0(r):
    c = np.zeros(r + 1)
    c[-1] = 1
    return np.polynomial.hermite_e.hermeval(0., c) / np.sqrt(2 * np.pi)


def psihat(D, r, g):
    """(-1)^r-free estimate of the functional psi_r = E f^(r)(X), exact double sum."""
    return phi(r, D, g).mean()


def psins(r, s):
    return (-1) ** (r // 2) * factorial(r) / ((2 * s) ** (r + 1) * factorial(r // 2) * np.sqrt(np.pi))


def stage(psi_next, r, n):
    """Bandwidth that is optimal for estimating psi_r given psi_{r+2}."""
    return (-2 * phi0(r) / (psi_next * n)) ** (1. / (r + 3))


def scale(x):
    v = np.sort(x)
    q = lambda p: np.interp(p * (len(v) - 1), np.arange(len(v)), v)
    iq = q(0.75) - q(0.25)
    s = x.std(ddof=1)
    return min(s, iq / 1.349) if iq > 0 else s


STAT = dict(gaus=(1., 1 / (2 * np.sqrt(np.pi))), epan=(1 / 5., 3 / 5.), biwe=(1 / 7., 5 / 7.), triw=(1 / 9., 350 / 429.), rect=(1 / 3., 1 / 2.),
            tria=(1 / 6., 2 / 3.), lapl=(2., 1 / 4.), logi=(np.pi ** 2 / 3, 1 / 6.), p1ep=(1 / 5., 3 / 5.), p1bi=(1 / 7., 5 / 7.),
            p1tr=(1 / 9., 350 / 429.))


def delta(name):
    mu2, R = STAT[name]
    return (R / mu2 ** 2) ** 0.2


def plug(x, L, name):
    n, s, D = len(x), scale(x), np.subtract.outer(x, x)
    psi = psins(2 * L + 4, s)
    for k in range(L, 0, -1):
        psi = psihat(D, 2 * k + 2, stage(psi, 2 * k + 2, n))
    return (delta(name) ** 5 / (psi * n)) ** 0.2


def solve(x, name):
    """Sheather and Jones: solve the equation."""
    n, s, D = len(x), scale(x), np.subtract.outer(x, x)
    p4 = psihat(D, 4, stage(psins(6, s), 4, n))
    p6 = psihat(D, 6, stage(psins(8, s), 6, n))
    R = STAT['gaus'][1]
    gam = lambda h: (2 * phi0(4) * p4 * h ** 5 / (-p6 * R)) ** (1 / 7.)
    f = lambda h: h - (R / (psihat(D, 4, gam(h)) * n)) ** 0.2
    hs = s * n ** -0.2 * np.geomspace(0.05, 3, 60)
    v = np.array([f(h) for h in hs])
    k = np.flatnonzero((v[:-1] < 0) & (v[1:] >= 0))
    roots = [brentq(f, hs[i], hs[i + 1]) for i in k]
    return [r * delta(name) / delta('gaus') for r in roots], lambda h: f(h * delta('gaus') / delta(name)) / (h * delta('gaus') / delta(name))


def scv(x, hv, name, normalised=True):
    """Smoothed cross validation score on standardised data."""
    n, s = len(x), scale(x)
    z = x / s
    D = np.subtract.outer(z, z)
    # functionals of the standard normal
    p8, p12 = psins(8, 1.), psins(12, 1.) if normalised else 3465 / (512 * np.sqrt(np.pi))
    p6 = psihat(D, 6, stage(p8, 6, n))
    p10 = psihat(D, 10, stage(p12, 10, n))
    p4 = psihat(D, 4, stage(p6, 4, n))
    p8 = psihat(D, 8, stage(p10, 8, n))
    const = (441 / (64 * np.pi)) ** (1 / 18.) * (4 * np.pi) ** -0.2 * p4 ** -0.4 * p8 ** (-1 / 9.)
    c = 1. if normalised else np.sqrt(2 * np.pi)
    nd = lambda sg: np.exp(-0.5 * (D / sg) ** 2).sum() * c / (np.sqrt(2 * np.pi) * sg)
    out = []
    for h in hv * delta('gaus') / delta(name):
        g = const * n ** (-23 / 45.) * h ** -2
        out.append(1 / (n * h * 2 * np.sqrt(np.pi)) + (nd(np.sqrt(2 * h ** 2 + 2 * g ** 2)) - 2 * nd(np.sqrt(h ** 2 + 2 * g ** 2))
                                                      + nd(np.sqrt(2) * g)) / n ** 2)
    return np.array(out)


SELECTORS = ['hns', 'hos', 'hste', 'hldpi', 'hisj', 'hstt', 'hscv', 'hmns']


@family(shards=3)
def equivariance(ctx):
    rng = ctx.rng
    for it in ctx.loop(80):
        k, x = sample(rng)
        a, b = float(10 ** rng.uniform(-4, 4)), float(rng.uniform(-3, 3))
        neg = rng.rand() < 0.3
        name = str(rng.choice(['gaus', 'gaus', 'epan', 'triw', 'logi', 'lapl', 'tria', 'rect', 'biwe']))
        with ctx.case(x=x, a=a, b=b, neg=neg, kernel=name):
            if scale(x) <= 0 or len(set(x)) < 5:
                continue
            K = Kernel(name)
            for sel in SELECTORS:
                if sel == 'hstt' and name != 'gaus' and name != 'logi':
                    K.hstt(x)
                    continue
                f = getattr(K, sel)
                keep = x.copy()
                h = np.atleast_1d(f(x))
                ctx.equal(x, keep, sel + ':argument')
                ctx.ok(np.all(np.isfinite(h)) and np.all(h > 0), sel + ':positive', lambda: h)
                ctx.equal(h.shape, (1,), sel + ':shape')
                ctx.close(f(x[None]), h, sel + ':row', rtol=1e-9)
                y = (a if not neg else -a) * (x + b * x.std())
                tol = 1e-6 if sel in ('hns', 'hos', 'hldpi', 'hmns') else 0.025
                ctx.close(np.atleast_1d(f(y)) / a, h, sel + ':scale_equivariant', rtol=tol)
                ctx.close(f(x[rng.permutation(len(x))]), h, sel + ':order_of_data', rtol=tol)
            ctx.count('selectors', len(SELECTORS))
    for it in ctx.loop(25):
        X = np.vstack([sample(rng, 40)[1] * 10 ** rng.uniform(-2, 2) for _ in range(rng.choice([2, 3]))])
        name = str(rng.choice(['gaus', 'epan', 'biwe']))
        with ctx.case(X=X, kernel=name):
            K = Kernel(name)
            for sel in SELECTORS[:-1]:
                if sel == 'hstt' and name != 'gaus':
                    continue
                h = getattr(K, sel)(X)
                ctx.close(h, np.ravel([getattr(K, sel)(v) for v in X]), sel + ':dimensions', rtol=1e-6)
            h0 = K.hns(X)
            hk = h0.copy()
            K.hste(X, h0=h0)
            ctx.equal(h0, hk, 'hste:start_value')
            if name == 'gaus':
                K.hstt(X, h0=h0)
                ctx.equal(h0, hk, 'hstt:start_value')
            d, n = X.shape
            if d == 2 or name != 'biwe':
                A = dict(gaus=(4. / (d + 2)) ** (1. / (d + 4)),
                         epan=(8 * (d + 4) * (2 * np.sqrt(np.pi)) ** d * gamma(d / 2. + 1) / np.pi ** (d / 2.)) ** (1. / (d + 4)), biwe=2.7779)[name]
                M = K.hmns(X) / (A * n ** (-1. / (d + 4)))
                ctx.close(M.dot(M), np.cov(X), 'hmns:formula', rtol=1e-6, atol=1e-8 * np.abs(np.cov(X)).max())
            else:
                ctx.raises(NotImplementedError, lambda: K.hmns(X), 'hmns:refuse')


@family(shards=4)
def reference(ctx):
    rng = ctx.rng
    for it in ctx.loop(50):
        k, x = sample(rng, rng.choice([20, 40, 100]))
        x = x * 10 ** rng.uniform(-2, 2) + rng.choice([0, 10.])
        name = str(rng.choice(['gaus', 'gaus', 'epan', 'triw', 'logi']))
        with ctx.case(x=x, kind=k, kernel=name):
            s, n = scale(x), len(x)
            if s <= 0 or len(set(x)) < 8 or s < 0.15 * np.ptp(x) / 2:
                continue
            K = Kernel(name)
            hns = s * (8 * np.sqrt(np.pi) / (3 * n)) ** 0.2 * delta(name)
            ctx.close(K.hns(x), [hns], 'hns:formula', rtol=1e-9)
            ctx.close(K.hos(x), [hns / 0.93], 'hos:formula', rtol=1e-9)
            for L in (0, 1, 2, 3):
                w = plug(x, L, name)
                h = K.hldpi(x, L=L, inc=512)
                ctx.close(h, [w], 'hldpi:formula', rtol=1e-9 if L == 0 else 0.02, msg='L=%d' % L)
            roots, f = solve(x, name)
            h = float(K.hste(x, inc=512, releps=1e-5)[0])
            if roots:
                ctx.ok(min(abs(h / r - 1) for r in roots) < 0.02 or abs(f(h)) < 0.02, 'hste:solves_the_equation', lambda: (h, roots, f(h)))
            h = float(K.hste(x)[0])
            if len(roots) == 1:
                ctx.close(h, roots[0], 'hste:default', rtol=0.25)
            if name == 'gaus':
                D = np.subtract.outer(x, x)
                h = float(K.hstt(x, inc=512, releps=1e-5)[0])
                back = (STAT['gaus'][1] / (psihat(D, 4, np.sqrt(2) * h) * n)) ** 0.2
                step = 1e-3 * h
                ctx.ok(abs(back / h - 1) < 0.3 or h < 0.1 * hns, 'hstt:fixed_point', lambda: (h, back))
            H = (8 * np.sqrt(np.pi) / (3 * n)) ** 0.2 * delta(name) / 0.93
            hv = np.linspace(0.25 * H, H, 60)
            hs, hv2, score = K.hscv(x, hvec=hv, inc=512, fulloutput=True)
            ctx.close(hv2, hv, 'hscv:order_of_output', rtol=1e-9)
            ctx.equal(len(score), 60, 'hscv:order_of_output')
            ctx.close(hs, [hv[np.argmin(score)] * s], 'hscv:minimum', rtol=1e-9)
            w1, w2 = scv(x, hv, name), scv(x, hv, name, False)
            if not np.allclose(score, w1, rtol=0.02):
                ctx.ok(False, 'hscv:score_constants' if np.allclose(score, w2, rtol=0.05) else 'hscv:score',
                       lambda: (score[:5], w1[:5], w2[:5]))
            else:
                ctx.ok(True, 'hscv:score')
            if name == 'gaus':
                h = float(K.hisj(x)[0])
                w = isj(x)
                if w is not None:
                    ctx.close(h, w, 'hisj:formula', rtol=0.04)
                ctx.close(Kernel('epan').hisj(x), [h * delta('epan') / delta('gaus')], 'hisj:kernel', rtol=1e-6)
            ctx.count('kind_' + k)


def isj(x, L=7, inc=512):
    """Improved Sheather-Jones of Botev, Grotowski and Kroese, with cosine sums over the data instead of a binned transform."""
    r = np.ptp(x) / 8
    lo, W = x.min() - r, np.ptp(x) + 2 * r
    k = np.arange(1, inc)
    u = ((x - lo) / W * (inc - 1) + 0.5) / inc       # cell centres of the discrete cosine transform
    a2 = np.cos(np.pi * k[:, None] * u[None]).mean(axis=1) ** 2
    N = len(set(x))
    I = k.astype(float) ** 2

    def fun(s, t):
        return 2 * np.pi ** (2 * s) * np.sum(a2 * np.exp(s * np.log(I) - I * np.pi ** 2 * t))

    def fp(t):
        f = fun(L, t)
        for s in range(L - 1, 1, -1):
            K0 = np.prod(np.arange(1, 2 * s, 2)) / np.sqrt(2 * np.pi)
            f = fun(s, (2 * (1 + 0.5 ** (s + 0.5)) / 3 * K0 / N / f) ** (2. / (3 + 2 * s)))
        return t - (2 * N * np.sqrt(np.pi) * f) ** (-0.4)
    ts = np.linspace(0, 0.1, 150)
    v = [fp(t) for t in ts]
    for i in range(149):
        if v[i] * v[i + 1] <= 0:
            return np.sqrt(brentq(fp, ts[i], ts[i + 1])) * W
    return None
