"""C15 normal probabilities: rectangle probabilities and multinormal expectations, against independent quadrature."""
import warnings

import numpy as np
import scipy.stats as ss
from scipy.special import ndtr, owens_t, gammaln

import wafo.gaussian as wg
from vlib.harness import family

RULE = ('seeded limits (finite, one-sided, unrestricted, in the tails, equal), correlations from -1 to 1 including the switch points of the algorithms, '
        'scalars, vectors mixing all of them, and covariance matrices of up to eight variables; non-trivial: correlation not zero and a finite limit')
ASSUMPTIONS = ['reference values are one-dimensional quadratures of the normal distribution function, or Owen\'s T function',
               'an estimate with a stated error may be off by four times that error or its tolerance']

GL = np.polynomial.legendre.leggauss(80)


def bvn(h, k, r):
    """P(X<h, Y<k) from Owen's T function."""
    h, k, r = float(h), float(k), float(r)
    if h == np.inf:
        return float(ndtr(k))
    if k == np.inf:
        return float(ndtr(h))
    if h == -np.inf or k == -np.inf:
        return 0.
    if r >= 1:
        return float(ndtr(min(h, k)))
    if r <= -1:
        return max(0., float(ndtr(h) - ndtr(-k)))
    s = np.sqrt((1 - r) * (1 + r))

    def T(a, b):
        if a == 0:
            num = b
            # T(0, (b - r*0)/(0*s)) with the sign of b
            return 0.25 * np.sign(num)
        return owens_t(a, (b - r * a) / (a * s))
    if h == 0 and k == 0:
        return 0.25 + np.arcsin(r) / (2 * np.pi)
    beta = 0. if (h * k > 0 or (h * k == 0 and h + k >= 0)) else 0.5
    return float((ndtr(h) + ndtr(k)) / 2 - T(h, k) - T(k, h) - beta)


def rect2(a, b, r):
    return bvn(b[0], b[1], r) - bvn(a[0], b[1], r) - bvn(b[0], a[1], r) + bvn(a[0], a[1], r)


def nodes(lo, hi, breaks=(), step=0.5):
    edges = np.unique(np.r_[np.linspace(lo, hi, int(np.ceil((hi - lo) / step)) + 1), [b for b in breaks if lo < b < hi]])
    x, w = np.polynomial.legendre.leggauss(12)
    m, h = (edges[1:] + edges[:-1]) / 2, np.diff(edges) / 2
    return (m[:, None] + h[:, None] * x).ravel(), (h[:, None] * w).ravel()


def product(rho, a, b, s=1.):
    """Probability of a box for correlations rho_i*rho_j: independent given a common factor."""
    rho, a, b = [np.asarray(v, dtype=float) for v in (rho, a, b)]
    sd = np.sqrt(1 - rho ** 2)
    near = []
    for i in range(len(rho)):
        if abs(rho[i]) > 1e-8:
            for v in (a[i] * s / rho[i], b[i] * s / rho[i]):
                if np.isfinite(v):
                    near += [v, v - 3 * sd[i] / abs(rho[i]), v + 3 * sd[i] / abs(rho[i]), v - sd[i] / abs(rho[i]), v + sd[i] / abs(rho[i])]
    z, w = nodes(-9, 9, near)
    f = np.ones_like(z)
    for i in range(len(rho)):
        f = f * (ndtr((b[i] * s - rho[i] * z) / sd[i]) - ndtr((a[i] * s - rho[i] * z) / sd[i]))
    return float(np.sum(w * f * np.exp(-z * z / 2)) / np.sqrt(2 * np.pi))


R = [0., 0.1, 0.29999, 0.3, 0.5, 0.74999, 0.75, 0.9, 0.92499, 0.925, 0.95, 0.99, 0.9999, 1.]


def corr(rng):
    r = float(rng.choice(R)) if rng.randint(2) else float(rng.uniform(0, 1))
    return r * (1 if rng.randint(2) else -1)


def limit(rng):
    return float(rng.choice([0., 1., -1., 2.5, -2.5, 5., -5., 9., rng.normal(), rng.normal() * 2, 1e-6]))


@family(shards=2)
def bivariate(ctx):
    rng = ctx.rng
    for k in ctx.loop(250):
        n = int(rng.choice([1, 2, 7, 20]))
        h = np.array([limit(rng) for _ in range(n)])
        q = np.array([limit(rng) if rng.randint(6) else h[i] for i in range(n)])
        r = np.array([corr(rng) for _ in range(n)])
        with ctx.case(h=h, k=q, r=r, nontrivial=n > 1):
            keep = h.copy(), q.copy(), r.copy()
            got = wg.cdfnorm2d(h, q, r)
            ctx.close(np.vstack(keep), np.vstack((h, q, r)), 'bivariate:arguments_changed')
            want = np.array([bvn(*v) for v in zip(h, q, r)])
            ctx.count('bivariate:points', n)
            ctx.close(got, want, 'bivariate:vector', rtol=0, atol=2e-7)
            # every element as if it were alone, scalars included
            ctx.close([float(wg.cdfnorm2d(*v)) for v in zip(h, q, r)], want, 'bivariate:scalar', rtol=0, atol=2e-7)
            ctx.close(wg.cdfnorm2d(q, h, r), got, 'bivariate:symmetric', rtol=1e-9, atol=1e-12)
            ctx.ok(np.all((got > -1e-9) & (got < 1 + 1e-9)), 'bivariate:range')
            g = wg.cdfnorm2d(h[:, None], q[None, :], r[0])
            ctx.equal(np.shape(g), (n, n), 'bivariate:broadcast_shape')
            ctx.close(g, [[bvn(a, b, r[0]) for b in q] for a in h], 'bivariate:broadcast', rtol=0, atol=2e-7)
            ctx.ok(np.isnan(wg.cdfnorm2d(0.3, 0.2, 1.5)), 'bivariate:correlation_out_of_range')


@family(shards=2)
def rectangles(ctx):
    rng = ctx.rng
    for k in ctx.loop(300):
        r = corr(rng)
        a, b = [], []
        kinds = []
        for _ in range(2):
            kind = rng.randint(4)
            lo, hi = sorted((limit(rng), limit(rng)))
            lo, hi = {0: (lo, hi), 1: (lo, np.inf), 2: (-np.inf, hi), 3: (-np.inf, np.inf)}[kind]
            kinds.append(int(kind))
            a.append(lo)
            b.append(hi)
        big = rng.randint(2)
        aa = [max(v, -100.) if big else v for v in a]
        bb = [min(v, 100.) if big else v for v in b]
        with ctx.case(a=aa, b=bb, r=r, nontrivial=3 not in kinds):
            got = float(wg.prbnorm2d(aa, bb, r))
            ctx.count('rectangle:kinds:%d%d' % tuple(kinds))
            ctx.close(got, rect2(a, b, r) if all(x < y for x, y in zip(a, b)) else 0., 'rectangle', rtol=0, atol=5e-7)
            if abs(r) < 0.9999:
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    C = np.array([[1, r], [r, 1]])
                    ctx.close(wg.prbnormnd(C, np.array(aa), np.array(bb), abseps=1e-6, releps=1e-6), got, 'rectangle:nd_agrees', rtol=1e-3, atol=1e-4)


@family(shards=2)
def product_correlation(ctx):
    rng = ctx.rng
    for k in ctx.loop(120):
        n = int(rng.choice([1, 2, 3, 5, 8, 20]))
        rho = rng.uniform(-0.95, 0.95, n) if rng.randint(3) else np.full(n, rng.choice([0., 0.3, 0.9]))
        a = np.where(rng.uniform(size=n) < 0.3, -np.inf, rng.normal(size=n) - 1)
        b = np.where(rng.uniform(size=n) < 0.3, np.inf, np.where(np.isfinite(a), a, -1) + rng.exponential(size=n) * 2 + 0.05)
        with ctx.case(rho=rho, a=a, b=b, nontrivial=n > 1):
            want = product(rho, a, b)
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                for simpson in (True, False):
                    for brk in (False, True):
                        eps = float(rng.choice([1e-4, 1e-6]))
                        keep = a.copy()
                        val, err, ier = wg.prbnormndpc(rho, a, b, abserr=eps, relerr=eps, usesimpson=simpson, usebreakpoints=brk)
                        ctx.close(a, keep, 'product:limits_changed')
                        if ier == 0:
                            ctx.ok(abs(val - want) <= max(4 * err, 4 * eps, 4 * eps * want) + 1e-9, 'product:value:%d%d' % (simpson, brk), lambda: (val, want, err, eps))
                            ctx.count('product:converged')
                d = rng.normal(size=n) * 0.5 if rng.randint(2) else None
                shift = 0 if d is None else d
                val, err, inf_ = wg.prbnormtndpc(rho, a, b, d=d, abseps=1e-5)
                want = product(rho, a - shift, b - shift)
                if inf_ == 0:
                    ctx.ok(abs(val - want) <= max(4 * err, 4e-5) + 1e-6, 'product:tn_normal', lambda: (val, want, err))
                # student t: the same box at a random scale
                df = int(rng.choice([1, 2, 5, 30]))
                val, err, inf_ = wg.prbnormtndpc(rho, a, b, df=df, abseps=1e-5)
                if inf_ == 0:
                    s, w = nodes(1e-6, np.sqrt(ss.chi2.isf(1e-12, df) / df), step=0.2)
                    logf = np.log(2.) + df / 2 * np.log(df / 2.) - gammaln(df / 2.) + (df - 1) * np.log(s) - df * s * s / 2
                    wt = w * np.exp(logf)
                    # coarse in s: the probability is smooth in it
                    keepw = wt > 1e-9
                    want = sum(wi * product(rho, a, b, si) for si, wi in zip(s[keepw][::1], wt[keepw][::1])) if n <= 3 else None
                    if want is not None:
                        ctx.ok(abs(val - want) <= max(4 * err, 4e-5) + 1e-5, 'product:tn_student', lambda: (val, want, err, df))
                        ctx.count('product:student')


@family()
def rectangle_nd(ctx):
    rng = ctx.rng
    for k in ctx.loop(80):
        n = int(rng.choice([2, 3, 4, 6]))
        rho = rng.uniform(-0.9, 0.9, n)
        C = np.outer(rho, rho)
        np.fill_diagonal(C, 1.)
        a = np.where(rng.uniform(size=n) < 0.3, -np.inf, rng.normal(size=n) - 1)
        b = np.where(rng.uniform(size=n) < 0.3, np.inf, np.where(np.isfinite(a), a, -1) + rng.exponential(size=n) * 2 + 0.05)
        with ctx.case(rho=rho, a=a, b=b):
            ctx.close(wg.prbnormnd(C, a, b, abseps=1e-5, releps=1e-5), product(rho, a, b), 'nd:value', rtol=2e-3, atol=3e-4)
            ctx.raises(ValueError, lambda: wg.prbnormnd(C[:, :-1], a, b), 'nd:shape')
            ctx.raises(ValueError, lambda: wg.prbnormnd(C, a[:-1], b), 'nd:shape')
            ctx.raises(ValueError, lambda: wg.prbnormnd(2 * C, a, b), 'nd:not_correlation')
            S = np.ones((2, 2))
            v = wg.prbnormnd(S, np.array([-np.inf, -np.inf]), np.array([0.5, 1.]), allow_singular=True)
            ctx.close(v, ndtr(0.5), 'nd:singular', rtol=1e-3, atol=1e-3)


@family()
def local_maxima(ctx):
    """Rice: the distribution of the heights of local maxima; density is the joint law of height, zero slope and negative curvature."""
    rng = ctx.rng
    for k in ctx.loop(100):
        al = float(rng.choice([0.01, 0.3, 0.5, 0.9, 0.99, 0.9999, rng.uniform(0.01, 0.999)]))
        m0 = float(np.exp(rng.normal()))
        s = np.sqrt(m0)
        x = np.sort(rng.normal(size=6) * 2 * s)
        with ctx.case(alpha=al, m0=m0, x=x, nontrivial=True):
            e = np.sqrt(1 - al * al)
            # (X, -X'') standardised have correlation alpha; height given a maximum is weighted by the curvature
            def cdf(v):
                u, w = nodes(-9, v, [0.], step=0.25) if v > -9 else (np.zeros(1), np.zeros(1))
                m = al * u
                g = m * ndtr(m / e) + e * np.exp(-(m / e) ** 2 / 2) / np.sqrt(2 * np.pi)
                return float(np.sum(w * g * np.exp(-u * u / 2)))
            if e > 0.05:
                ctx.close(wg.cdflomax(x, al, m0), [cdf(v / s) for v in x], 'lomax:rice', rtol=1e-6, atol=1e-8)
            got = wg.cdflomax(np.linspace(-6 * s, 7 * s, 200), al, m0)
            ctx.ok(np.all(np.diff(got) > -1e-12) and got[0] < 1e-6 and got[-1] > 1 - 1e-6, 'lomax:monotone')
            ctx.close(wg.cdflomax(x, 1e-12, m0), ndtr(x / s), 'lomax:broad_band', rtol=0, atol=1e-10)
            ctx.close(wg.cdflomax(float(x[0]), al, m0), wg.cdflomax(x, al, m0)[0], 'lomax:scalar', rtol=1e-10)


def expectation(S, m, a, b, nt, nd, xc):
    """E[|Xd...| 1(a<X<b) | Xc=xc] f(xc) for nt <= 2 and nd <= 2 by quadrature over Xd."""
    n = nt + nd
    nc = len(xc)
    S = np.asarray(S, dtype=float)
    m = np.asarray(m, dtype=float)
    f = 1.
    M, V = m[:n], S[:n, :n]
    if nc:
        Sc = S[n:, n:]
        B = np.linalg.solve(Sc, S[n:, :n]).T
        f = float(ss.multivariate_normal.pdf(xc, m[n:], Sc))
        M = M + B @ (np.asarray(xc) - m[n:])
        V = V - B @ S[n:, :n]

    def prob(M, V, a, b):
        if nt == 0:
            return np.ones(np.shape(M)[:-1])
        sd = np.sqrt(np.diag(V))
        if nt == 1:
            return ndtr((b[0] - M[..., 0]) / sd[0]) - ndtr((a[0] - M[..., 0]) / sd[0])
        r = V[0, 1] / sd[0] / sd[1]
        flat = M.reshape(-1, 2)
        out = [rect2((a[:2] - mm) / sd, (b[:2] - mm) / sd, r) for mm in flat]
        return np.reshape(out, M.shape[:-1])
    if nd == 0:
        return f * float(prob(M, V, a, b))
    sd = np.sqrt(np.diag(V))
    # grid over Xd within its limits
    grids = []
    for i in range(nt, n):
        lo, hi = max(a[i], M[i] - 8 * sd[i]), min(b[i], M[i] + 8 * sd[i])
        if lo >= hi:
            return 0.
        grids.append(nodes(lo, hi, [0.], step=(hi - lo) / (12 if nd == 1 else 6)))
    X = np.stack(np.meshgrid(*[g[0] for g in grids], indexing='ij'), axis=-1).reshape(-1, nd)
    W = np.ones(1)
    for g in grids:
        W = np.multiply.outer(W, g[1])
    W = W.ravel()
    Vd = V[nt:, nt:]
    dens = ss.multivariate_normal.pdf(X, M[nt:], Vd).reshape(-1)
    if nt:
        B = np.linalg.solve(Vd, V[nt:, :nt]).T
        Mt = M[:nt] + (X - M[nt:]) @ B.T
        Vt = V[:nt, :nt] - B @ V[nt:, :nt]
        P = prob(Mt, Vt, a, b)
    else:
        P = 1.
    return f * float(np.sum(W * dens * np.prod(np.abs(X), axis=1) * P))


@family(shards=3)
def rind(ctx):
    rng = ctx.rng
    for k in ctx.loop(60):
        nt, nd = [(1, 0), (2, 0), (0, 1), (1, 1), (2, 1), (0, 2), (1, 2)][rng.randint(7)]
        nc = int(rng.choice([0, 0, 1, 2]))
        n = nt + nd + nc
        A = rng.normal(size=(n, n + 2))
        S = A @ A.T / (n + 2) * float(rng.choice([1., 4.]))
        m = rng.normal(size=n) * 0.5 if rng.randint(2) else np.zeros(n)
        nx = int(rng.choice([1, 3])) if nc else 1
        xc = rng.normal(size=(nc, nx)) * np.sqrt(np.diag(S)[nt + nd:])[:, None] + m[nt + nd:, None]
        sd = np.sqrt(np.diag(S))
        lo = np.where(rng.uniform(size=nt + nd) < 0.3, -np.inf, -np.abs(rng.normal(size=nt + nd)) * sd[:nt + nd])
        hi = np.where(rng.uniform(size=nt + nd) < 0.3, np.inf, np.abs(rng.normal(size=nt + nd)) * sd[:nt + nd] + 0.3)
        method = int(rng.choice([3, 3, 3, 1, 2, 5]))
        speed = rng.choice([None, 1, 4, 7])
        slope = nc > 0 and rng.randint(3) == 0
        group = rng.randint(3) == 0
        with ctx.case(nt=nt, nd=nd, nc=nc, nx=nx, S=S, m=m, lo=lo, hi=hi, xc=xc, method=method, speed=speed, slope=bool(slope), nontrivial=n > 1):
            if group:
                lo[:], hi[:] = lo[0], hi[0]
            Blo, Bup = lo[None, :].copy(), hi[None, :].copy()
            cl = np.zeros((1, nt + nd))
            if slope:
                cl = rng.normal(size=(1, nt + nd)) * 0.3
                Blo, Bup = np.vstack((np.where(np.isfinite(lo), lo, -1e3), cl)), np.vstack((np.where(np.isfinite(hi), hi, 1e3), cl))
            kw = dict(method=method, seed=int(rng.randint(2**30)))
            if speed is not None:
                kw['speed'] = int(speed)
            indI = None
            if group and not slope:
                Blo, Bup, indI = Blo[:, :1], Bup[:, :1], np.array([-1, nt + nd - 1])
            r = wg.Rind(**kw)
            cov = np.triu(S) if rng.randint(2) else S
            val, err, terr = r(cov, m, Blo, Bup, indI, xc if nc else None, nt)
            ctx.equal(len(np.atleast_1d(val)), nx, 'rind:count')
            eps = {None: 1e-3, 1: 1e-4, 4: 1e-3, 7: 1e-2}[speed]
            rel = 2e-3 if method == 3 else 0.06   # the other rules report the sampling error only
            for j in range(nx):
                x0 = xc[:, j] if nc else []
                sh = cl[0] * (x0[0] if nc and slope else 0.)
                want = expectation(S, m, lo + sh, hi + sh, nt, nd, x0)
                scale = want if want > 0 else 0.
                f = 1.
                if nc:
                    f = float(ss.multivariate_normal.pdf(x0, m[nt + nd:], S[nt + nd:, nt + nd:]))
                tol = 4 * (err[j] + terr[j]) + 2 * eps * (scale + f * np.prod(sd[nt:nt + nd])) + rel * want + 1e-8
                ctx.count('rind:values')
                ctx.ok(abs(val[j] - want) <= tol, 'rind:value:method%d' % method, lambda: (val[j], want, err[j], terr[j], tol))


@family()
def rind_product(ctx):
    """More variables, where the common factor makes the answer a one-dimensional integral."""
    rng = ctx.rng
    for k in ctx.loop(40):
        n = int(rng.choice([3, 5, 10, 20]))
        rho = rng.uniform(-0.9, 0.9, n) if rng.randint(2) else np.full(n, float(rng.uniform(0.1, 0.9)))
        sd = np.exp(rng.normal(size=n) * 0.5)
        C = np.outer(rho, rho)
        np.fill_diagonal(C, 1.)
        S = C * np.outer(sd, sd)
        m = rng.normal(size=n) * 0.3
        a = np.where(rng.uniform(size=n) < 0.4, -np.inf, -np.abs(rng.normal(size=n)) - 0.2)
        b = np.where(rng.uniform(size=n) < 0.4, np.inf, np.abs(rng.normal(size=n)) + 0.2)
        with ctx.case(n=n, rho=rho, nontrivial=True):
            val, err, terr = wg.Rind(seed=int(rng.randint(2**30)))(S, m, m + sd * a, m + sd * b)
            want = product(rho, a, b)
            ctx.ok(abs(val[0] - want) <= 4 * (err[0] + terr[0]) + 2e-3 * want + 1e-7, 'rind:product', lambda: (val, want, err, terr))
