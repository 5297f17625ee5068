from itertools import product
import numpy as np
import scipy.stats as st
import wafo.kdetools as wk
from wafo.kdetools.gridding import accum, accumsum, accumsum_sparse, gridcount
from wafo.kdetools.kernels import qlevels, qlevels2
from vlib.harness import family

RULE = ('seeded data in 1 to 3 dimensions (ties, clusters, integers, outliers), kernels, scalar/vector/matrix/unset bandwidths, adaptive alpha, '
        'power transformations, points on and off the grid, responses of both signs; non-trivial: at least two data points')
ASSUMPTIONS = ['kernel densities as defined by Wand and Jones (1995); direct summation over the data in double precision']


def _prod(fun):
    return lambda u: np.prod(fun(u), axis=0)


KERNELS = {   # normalised d-variate kernels on u of shape (d, m)
    'gaussian': lambda u: np.exp(-0.5 * (u ** 2).sum(0)) / (2 * np.pi) ** (len(u) / 2.),
    'laplace': _prod(lambda u: 0.5 * np.exp(-np.abs(u))),
    'logistic': _prod(lambda u: 0.25 / np.cosh(np.minimum(np.abs(u) / 2, 300)) ** 2),
    'triangular': _prod(lambda u: np.clip(1 - np.abs(u), 0, None)),
    'rectangular': _prod(lambda u: 0.5 * (np.abs(u) <= 1)),
    'p1epanechnikov': _prod(lambda u: 0.75 * np.clip(1 - u ** 2, 0, None)),
    'p1biweight': _prod(lambda u: 15 / 16. * np.clip(1 - u ** 2, 0, None) ** 2),
    'p1triweight': _prod(lambda u: 35 / 32. * np.clip(1 - u ** 2, 0, None) ** 3),
}
_VOL = {1: 2., 2: np.pi, 3: 4 * np.pi / 3}


def _radial(p):
    def k(u):
        d = len(u)
        # integral of (1-r^2)^p over the unit ball: V_d * Gamma(d/2+1) Gamma(p+1) / Gamma(d/2+p+1)
        from math import gamma
        return np.clip(1 - (u ** 2).sum(0), 0, None) ** p / (_VOL[d] * gamma(d / 2. + 1) * gamma(p + 1) / gamma(d / 2. + p + 1))
    return k


for _n, _p in (('epanechnikov', 1), ('biweight', 2), ('triweight', 3)):
    KERNELS[_n] = _radial(_p)
MAIN = dict(gaussian=5., laplace=12., logistic=12.)
SUPPORT = dict(gaussian=9., laplace=35., logistic=35.)


def direct(name, data, H, pts, lam=None, y=1., r=0):
    """Sum over the data of y K(H^-1 (x-X)/lambda) |x-X|^r / (n det(H) lambda^d)."""
    d, n = data.shape
    H = np.atleast_2d(H)
    Hi, det = np.linalg.inv(H), np.linalg.det(H)
    y = np.ones(n) * y
    lam = np.ones(n) if lam is None else lam
    f = np.zeros(pts.shape[1])
    for i in range(n):
        dx = pts - data[:, i:i + 1]
        w = (dx ** r).sum(0) if r else 1
        f += y[i] * w * KERNELS[name](Hi.dot(dx) / lam[i]) / lam[i] ** d
    return f / (n * det)


def dataset(rng, d, n=None, positive=False):
    n = int(n or rng.choice([2, 3, 7, 20, 60]))
    x = rng.randn(d, n) * 10 ** rng.uniform(-1, 1.5, (d, 1)) + rng.choice([0, 5., -30])
    k = rng.randint(5)
    if k == 0:
        x = np.round(x * 2) / 2
    elif k == 1 and n > 5:
        x[:, :3] = x[:, 3:4]
    elif k == 2:
        x[0, 0] += 8 * x[0].std()
    if positive:
        x = np.exp(rng.randn(d, n) * rng.choice([0.3, 0.7]))
    for i in range(d):
        if x[i].std() < 1e-3 or np.subtract(*np.percentile(x[i], [75, 25])) < 1e-3:
            x[i] += np.arange(n)
    return x


def smooth(rng, x):
    d = len(x)
    s = x.std(axis=1) + 1e-3
    how = rng.choice(['scalar', 'vector', 'matrix']) if d > 1 else rng.choice(['scalar', 'vector'])
    if how == 'scalar':
        h = float(s.max() * rng.uniform(0.1, 1))
        return h, np.eye(d) * h
    if how == 'vector':
        h = s * rng.uniform(0.15, 1, d)
        return h, np.diag(h)
    A = rng.randn(d, d) * 0.3 + np.eye(d)
    M = np.diag(s * 0.4).dot(A.dot(A.T)).dot(np.diag(s)) ** 1.0
    M = 0.5 * (M + M.T)
    M = M / np.sqrt(np.outer(s, s)).mean()
    w, V = np.linalg.eigh(M)
    M = (V * np.clip(w, 0.1 * s.min(), None)).dot(V.T)
    return M, M


@family(shards=4)
def points(ctx):
    rng = ctx.rng
    names = sorted(KERNELS)
    for it in ctx.loop(110):
        d = int(rng.choice([1, 1, 2, 3]))
        x = dataset(rng, d)
        n = x.shape[1]
        name = names[(it + ctx.shard) % len(names)]
        h, H = smooth(rng, x)
        alpha = float(rng.choice([0, 0, 0.5, 1.]))
        m = int(rng.choice([1, 2, n, n + 3, 40]))
        p = x[:, rng.randint(0, n, m)] + rng.randn(d, m) * np.diag(H)[:, None] * rng.choice([0, 1, 3.])
        if rng.rand() < 0.2:
            p = p + 1000 * np.diag(H)[:, None]
        with ctx.case(x=x, kernel=name, h=h, alpha=alpha, p=p, nontrivial=n > 1):
            xa = x[0].copy() if d == 1 and rng.rand() < 0.5 else x.copy()
            if rng.rand() < 0.15 and np.all(xa == np.round(xa)):
                xa = xa.astype(int)
            keep = xa.copy()
            hk = np.array(h, copy=True)
            K = wk.KDE(xa, hs=h, kernel=wk.Kernel(name), alpha=alpha)
            ctx.equal(np.shape(h), hk.shape, 'kde:hs')
            ctx.equal(h, hk, 'kde:hs')
            lam = None
            if alpha:
                pil = direct(name, x, H, x)
                lam = (pil / np.exp(np.mean(np.log(pil)))) ** (-alpha)
            want = direct(name, x, H, p, lam)
            pk = p.copy()
            got = K.eval_points(p[0] if d == 1 and rng.rand() < 0.5 else p)
            sz = np.abs(direct(name, x, H, x, lam)).max()
            tol = dict(rtol=1e-9, atol=1e-11 * sz)
            if name != 'rectangular':      # (whose jumps fall anywhere within rounding)
                ctx.close(got, want, 'kde:points', **tol)
            ctx.ok(np.isfinite(got) & (got >= 0), 'kde:non_negative')
            ctx.equal(p, pk, 'kde:argument')
            ctx.equal(xa, keep, 'kde:data')
            if d > 1 and m > 1:
                one = K.eval_points(p[:, 0])
                if name != 'rectangular':
                    ctx.close(one, want[:1], 'kde:one_point', **tol)
            if d <= 2:
                ax = [np.sort(q[:6]) + 0.1 * j for j, q in enumerate(p)]
                g = K.eval_grid(*ax)
                G = np.meshgrid(*ax)
                ctx.equal(g.shape, G[0].shape, 'kde:grid_shape')
                if name != 'rectangular':
                    ctx.close(g.ravel(), direct(name, x, H, np.vstack([q.ravel() for q in G]), lam), 'kde:grid', **tol)
                ctx.close(K(*ax), g, 'kde:call', rtol=1e-12)
                o = K.eval_grid(*ax, output='plotobj')
                ctx.close(o.data, g, 'kde:object', rtol=1e-12)
            perm = rng.permutation(n)
            K2 = wk.KDE(x[:, perm], hs=h, kernel=wk.Kernel(name), alpha=alpha)
            if name != 'rectangular':
                ctx.close(K2.eval_points(p), got, 'kde:order_of_data', **tol)
            r = int(rng.choice([0, 1, 2]))
            y = rng.randn(n)
            if name != 'rectangular':
                w = direct(name, x, H, p, lam, y, r)
                # cancellation over responses of both signs
                ctx.close(K.eval_points(p, y=y, r=r), w, 'kde:weighted', rtol=1e-8,
                          atol=1e-11 * (np.abs(direct(name, x, H, p, lam, np.abs(y), 2 * (r > 0))).max() + sz))
            ctx.count('evaluations', m)


def mass(f, axes):
    for a in axes[::-1]:
        f = np.sum(f[..., 1:] + f[..., :-1], axis=-1) * (a[1] - a[0]) / 2 if False else np.trapz(f, a, axis=-1)
    return f


@family(shards=4)
def fast(ctx):
    """Binned estimates: equal to the exact one up to the binning error, with mass one, on any equidistant grid covering the data."""
    rng = ctx.rng
    names = sorted(set(KERNELS) - {'rectangular'})
    for it in ctx.loop(40):
        d = int(rng.choice([1, 1, 1, 2]))
        x = dataset(rng, d, rng.choice([3, 10, 40]))
        name = names[(it + ctx.shard) % len(names)]
        s = np.ptp(x, axis=1)
        h = s * rng.uniform(0.1, 0.3, d)
        inc = int(rng.choice([128, 200, 256, 511]) if d == 1 else rng.choice([64, 100]))
        reach = SUPPORT.get(name, 1.01)
        lo, up = x.min(1) - reach * h, x.max(1) + reach * h
        if rng.rand() < 0.2 and np.all(s > MAIN.get(name, 1.01) * h):
            lo, up = x.min(1), x.max(1)           # the grid ends at the extreme data points
        ax = [np.linspace(a, b, inc) for a, b in zip(lo, up)]
        with ctx.case(x=x, kernel=name, h=h, inc=inc, lo=lo, up=up):
            K = wk.KDE(x, hs=h, kernel=wk.Kernel(name), inc=inc)
            f = K.eval_grid_fast(*ax)
            G = np.meshgrid(*ax)
            P = np.vstack([q.ravel() for q in G])
            want = direct(name, x, np.diag(h), P).reshape(G[0].shape)
            dx = np.array([a[1] - a[0] for a in ax])
            c = 2.0 if name in ('laplace', 'triangular', 'epanechnikov', 'p1epanechnikov') else 0.6
            e = (c * (dx / h).max() ** (1 if c > 1 else 2)) + 0.02 * (dx / h).max()
            ctx.equal(f.shape, want.shape, 'fast:shape')
            ctx.ok(f >= 0, 'fast:non_negative')
            top = KERNELS[name](np.zeros((d, 1)))[0] / np.prod(h) / 1.0
            ok = np.abs(f - want) <= (0.002 + e) * np.minimum(top, want.max() * 1.5 + top / x.shape[1])
            ctx.ok(ok, 'fast:close_to_exact', lambda: (np.abs(f - want).max() / want.max(), e, want.max() / top))
            if np.all(lo < x.min(1)) and np.all(dx / h < 0.4):
                q = f.copy()
                for k in range(d):
                    q = q.sum(axis=-1)
                ctx.close(q * dx.prod(), 1.0, 'fast:mass', rtol=0.03)
            y = rng.randn(x.shape[1])
            t = K.eval_grid_fast(*ax, y=y)
            wy = direct(name, x, np.diag(h), P, y=y).reshape(G[0].shape)
            ctx.ok(np.abs(t - wy) <= (0.002 + e) * np.abs(y).sum() * np.minimum(top, want.max() * 1.5 + top / x.shape[1]),
                   'fast:signed_response', lambda: np.abs(t - wy).max())
            if d == 1:
                r = int(rng.choice([1, 2]))
                s1 = K.eval_grid_fast(*ax, r=r)
                w1 = direct(name, x, np.diag(h), P, r=r).reshape(G[0].shape)
                ctx.ok(np.abs(s1 - w1) <= (0.004 + 2 * e) * top * (reach * h[0]) ** r + 1e-12, 'fast:moment')
            o = K.eval_grid_fast(output='plotobj')
            ctx.equal(np.shape(o.data), (inc,) * d, 'fast:default_grid')
            ctx.ok(np.all(np.asarray(o.args if d == 1 else o.args[0])[0] <= x[0].min()), 'fast:default_range')
            ctx.count('grid_nodes', f.size)
    with ctx.case(what='automatic grid size'):
        for h in (None, 0.5, np.diag([0.4, 0.6])):
            x = rng.randn(1 if h is None or np.ndim(h) == 0 else 2, 30)
            K = wk.KDE(x, hs=h, inc=None)
            ctx.ok(48 <= K.inc <= 2048 and float(np.log2(K.inc)).is_integer(), 'fast:automatic_inc', lambda: K.inc)


@family(shards=2)
def transformed(ctx):
    rng = ctx.rng
    for it in ctx.loop(90):
        d = int(rng.choice([1, 1, 2]))
        x = dataset(rng, d, rng.choice([5, 20, 60]), positive=True)
        integer = rng.rand() < 0.15
        if integer:
            x = np.round(x * 20) + 1.
        L2 = [float(v) for v in rng.choice([0., 0.5, 1., 2., -1., -0.5], d)]
        alpha = float(rng.choice([0, 0, 0.5]))
        name = str(rng.choice(['gaussian', 'epanechnikov', 'logistic']))
        T = lambda z: np.vstack([np.log(a) if l == 0 else a ** l for a, l in zip(z, L2)])
        jac = lambda z: np.prod([1 / a if l == 0 else abs(l) * a ** (l - 1) for a, l in zip(z, L2)], axis=0)
        tx = T(x)
        h = tx.std(axis=1) * rng.uniform(0.2, 0.6, d) + 1e-2
        with ctx.case(x=x, L2=L2, alpha=alpha, kernel=name, h=h):
            xx = x.astype(int) if integer else x.copy()
            keep = xx.copy()
            K = wk.TKDE(xx if d > 1 else xx[0], hs=h, kernel=wk.Kernel(name), alpha=alpha, L2=L2 if d > 1 else L2[0])
            lam = None
            if alpha:
                pil = direct(name, tx, np.diag(h), tx)
                lam = (pil / np.exp(np.mean(np.log(pil)))) ** (-alpha)
            m = int(rng.choice([1, 2, 30, 80]))
            p = x[:, rng.randint(0, x.shape[1], m)] * np.exp(0.1 * rng.randn(d, m))
            if integer and rng.rand() < 0.5:
                p = np.maximum(np.round(p), 1)
            f = lambda z, **kw: direct(name, tx, np.diag(h), T(z), lam, **kw) * jac(z)
            pp = p.astype(int) if np.all(p == np.round(p)) else p.copy()
            pk = pp.copy()
            tol = dict(rtol=1e-7, atol=1e-9 * f(x).max())
            ctx.close(K.eval_points(pp), f(p), 'tkde:points', **tol)
            ctx.equal(pp, pk, 'tkde:argument')
            ctx.equal(xx, keep, 'tkde:data')
            y = rng.randn(x.shape[1])
            ctx.close(K.eval_points(pp, y=y), f(p, y=y), 'tkde:weighted', rtol=1e-6, atol=1e-8 * f(x).max())
            ax = [np.linspace(a.min(), a.max(), 9 if d > 1 else 60) for a in x]
            G = np.meshgrid(*ax)
            P = np.vstack([q.ravel() for q in G])
            want = f(P).reshape(G[0].shape)
            ctx.close(K.eval_grid(*ax), want, 'tkde:grid', **tol)
            ctx.close(K.eval_grid(*ax, y=y), f(P, y=y).reshape(G[0].shape), 'tkde:grid_weighted', rtol=1e-6, atol=1e-8 * f(x).max())
            if alpha == 0 and d == 1:
                K.inc = 400
                o = K.eval_grid_fast(output='plotobj')
                z = np.asarray(o.args)
                ctx.ok((np.diff(z) > 0) & np.isfinite(z[1:]), 'tkde:default_grid')
                # the grid is even on the transformed scale; where its step is not small against the bandwidth nothing is promised
                step = np.abs(np.diff(T(z[None])[0])).max()
                if step < h[0] / 4 and np.ptp(T(z[None])[0]) > MAIN.get(name, 1.01) * h[0]:
                    ctx.count('fast_resolved')
                    fz = f(z[None])
                    ctx.ok(np.abs(o.data - fz)[5:-5] <= 0.05 * fz[5:-5] + 0.03 * np.maximum(fz.max(), np.abs(np.diff(fz)).max()), 'tkde:default_values')
                    g = K.eval_grid_fast(*ax)
                    lim = 0.05 * want + 0.04 * want.max()
                    lim = np.maximum(lim, np.r_[lim[1:], 0])
                    inner = slice(1, -1)
                    ctx.ok((np.abs(g - want) <= lim)[inner], 'tkde:fast', lambda: (np.abs(g - want) / want.max()).max())
                    t = K.eval_grid_fast(*ax, y=np.full(x.shape[1], 2.5))
                    ctx.close(t[inner], 2.5 * g[inner], 'tkde:fast_weighted', rtol=1e-6, atol=1e-6 * g.max())
            ctx.count('transformed_points', m)


@family(shards=2)
def regression(ctx):
    rng = ctx.rng
    for it in ctx.loop(50):
        n = int(rng.choice([20, 60, 150]))
        x = np.sort(rng.uniform(0.2, 4, n))
        if rng.rand() < 0.3:
            x = np.round(x, 1)
        y = rng.choice([1, -1]) * (np.sin(2 * x) + rng.choice([0, 3., -3]) + 0.1 * rng.randn(n))
        hs = float(rng.uniform(0.15, 0.5))
        p = int(rng.choice([0, 1]))
        L2 = [None, None, 0.5, 0.][rng.randint(4)]
        name = str(rng.choice(['gaussian', 'biweight']))
        with ctx.case(x=x, y=y, hs=hs, p=p, L2=L2, kernel=name):
            keep = x.copy(), y.copy()
            R = wk.KRegression(x, y, p=p, hs=hs, kernel=wk.Kernel(name), L2=L2, inc=512)
            xi = np.linspace(x[0] + 0.05, x[-1] - 0.05, 80)
            T = (lambda z: z) if L2 is None else (np.log if L2 == 0 else lambda z: z ** L2)
            tx, ti = T(x)[None], T(xi)[None]
            s0 = direct(name, tx, hs, ti)
            t0 = direct(name, tx, hs, ti, y=y)
            ref = t0 / s0
            good = s0 > 0.1 * s0.max()
            if p == 1:
                s1, s2 = [direct(name, tx, hs, ti, r=r) for r in (1, 2)]
                t1 = direct(name, tx, hs, ti, y=y, r=1)
                det = s2 * s0 - s1 ** 2
                ref = (s2 * t0 - s1 * t1) / det
                good &= det > 0.02 * (s2 * s0)
            ctx.close(R.eval_grid(xi)[good], ref[good], 'regression', rtol=1e-6, atol=1e-6)
            g = R(np.r_[x[0], xi, x[-1]] if False else np.linspace(x[0] - 0.1, x[-1] + 0.1, 600)) if L2 is None else None
            if g is not None:
                z = np.linspace(x[0] - 0.1, x[-1] + 0.1, 600)
                gi = np.interp(xi, z, g)
                ctx.close(gi[good], ref[good], 'regression:fast', rtol=0.05, atol=0.1)
            else:
                gi = R(xi)
                ctx.close(gi[good][2:-2], ref[good][2:-2], 'regression:fast_transformed', rtol=0.06, atol=0.18)
            ctx.equal(x, keep[0], 'regression:argument')
            ctx.equal(y, keep[1], 'regression:argument')
            if p == 0:
                ctx.ok((ref[good] >= y.min() - 1e-9) & (ref[good] <= y.max() + 1e-9), 'oracle:range')
            if p == 1 and L2 is None:
                R2 = wk.KRegression(x, 2 - 3 * x, p=1, hs=hs, kernel=wk.Kernel(name))
                ctx.close(R2.eval_grid(xi)[good], (2 - 3 * xi)[good], 'regression:reproduces_lines', rtol=1e-5, atol=1e-5)
            C = wk.KRegression(x, np.full(n, -1.75), p=p, hs=hs, kernel=wk.Kernel(name), L2=L2, inc=256)
            ctx.close(C.eval_grid(xi)[good], np.full(good.sum(), -1.75), 'regression:constant', rtol=1e-6)
            ctx.close(C(xi)[good] if L2 is not None else np.interp(xi, z, C(z))[good], np.full(good.sum(), -1.75),
                      'regression:constant_fast', rtol=1e-2)


@family()
def binary(ctx):
    rng = ctx.rng
    for it in ctx.loop(14):
        n = int(rng.choice([30, 80]))
        x = rng.uniform(-3, 3, n)
        y = (rng.rand(n) < 1 / (1 + np.exp(-2 * x))).astype(int) if rng.rand() < 0.9 else np.zeros(n, dtype=int)
        method = str(rng.choice(['beta', 'wilson']))
        a, b = float(rng.choice([0.05, 1.])), float(rng.choice([0.05, 1.]))
        alpha = float(rng.choice([0.05, 0.3]))
        with ctx.case(x=x, y=y, method=method, a=a, b=b, alpha=alpha):
            B = wk.BKRegression(x, y, method=method, a=a, b=b)
            m = rng.uniform(1, 60, 20)
            p = np.r_[0., 1., rng.rand(18)]
            lo, up = B.prb_ci(m, p, alpha)
            if method == 'beta':
                wu = np.where(p == 1, 1, st.beta.ppf(1 - alpha / 2, m * p + a, m * (1 - p) + b))
                wl = np.where(p == 0, 0, st.beta.ppf(alpha / 2, m * p + a, m * (1 - p) + b))
            else:
                z = st.norm.isf(alpha / 2)
                # Wilson: roots of (p-q)^2 = z^2 q(1-q)/m
                A, Bq, C = 1 + z ** 2 / m, -(2 * p + z ** 2 / m), p ** 2
                dq = np.sqrt(np.maximum(Bq ** 2 - 4 * A * C, 0))
                wl, wu = (-Bq - dq) / (2 * A), (-Bq + dq) / (2 * A)
                ctx.ok((lo <= p + 1e-12) & (p <= up + 1e-12), 'interval:contains')
            ctx.close(lo, wl, 'interval:lower', rtol=1e-7, atol=1e-9)
            ctx.close(up, wu, 'interval:upper', rtol=1e-7, atol=1e-9)
            ctx.ok((0 <= lo + 1e-12) & (lo <= up) & (up <= 1 + 1e-12), 'interval:order')
            e = B.prb_empirical(alpha=alpha)
            xi = e.args
            dx = xi[1] - xi[0]
            hat = lambda u: np.clip(1 - np.abs(xi[:, None] - u[None]) / dx, 0, None).sum(axis=1)
            c, s = hat(x), hat(x[y == 1])
            ctx.close(e.count, c, 'empirical:count', rtol=1e-8, atol=1e-9)
            w = np.where(c > 1e-9, s / np.maximum(c, 1e-9), 0)
            big = c > 1e-6
            ctx.close(e.data[big], w[big], 'empirical:probability', rtol=1e-6, atol=1e-7)
            ctx.ok((e.data >= 0) & (e.data <= 1 + 1e-12), 'empirical:range')
            ctx.equal(e.dataCI.shape, (len(xi), 2), 'empirical:interval')
            if it % 3 == 0 and y.any():
                f = B.prb_search_best(hsvec=np.linspace(0.2, 1.2, 5))
                ctx.ok((f.data >= 0) & (f.data <= 1), 'smoothed:range')
                ctx.ok(np.all(f.dataCI[:, 0] <= f.dataCI[:, 1]), 'smoothed:interval')
                sc = f.score
                if f.hs in sc.args:
                    ctx.ok(f.aicc <= sc.data.min() + 1e-9, 'smoothed:best')
                else:
                    ctx.ok(f.aicc <= sc.data.min(), 'smoothed:best')
                ctx.close(np.ravel(B.hs), np.ravel(f.hs), 'smoothed:hs')


@family(shards=2)
def counting(ctx):
    rng = ctx.rng
    for it in ctx.loop(200):
        d = int(rng.choice([1, 1, 2, 3]))
        inc = int(rng.choice([2, 3, 5, 9, 16]) if d > 1 else rng.choice([2, 3, 10, 64]))
        lo = rng.uniform(-3, 3, d)
        w = rng.uniform(0.5, 4, d)
        X = np.array([np.linspace(a, a + b, inc) for a, b in zip(lo, w)])
        n = int(rng.choice([1, 2, 15]))
        data = lo[:, None] + w[:, None] * rng.rand(d, n)
        k = rng.randint(4)
        if k == 0:
            data = np.array([X[i, rng.randint(0, inc, n)] for i in range(d)])   # on the nodes
        elif k == 1:
            data[:, 0] = X[:, -1]
        elif k == 2:
            data[0] = X[0, -1]
        elif k == 3:
            data[:, 0] = X[:, 0]
        y = 1 if rng.rand() < 0.5 else rng.randn(n)
        with ctx.case(X=X, data=data, y=y):
            Xa = X.copy() if d > 1 or rng.rand() < 0.5 else X[0].copy()
            Da = data.copy() if d > 1 or Xa.ndim == 2 else data[0].copy()
            s = Xa.shape
            Xk, Dk = Xa.copy(), Da.copy()
            c = gridcount(Da, Xa, y=y)
            ctx.ok(Xa.shape == s and np.array_equal(Xa, Xk) and np.array_equal(Da, Dk) and Da.shape == Dk.shape, 'gridcount:argument')
            want = np.zeros((inc,) * d)
            hat = [np.clip(1 - np.abs(X[i][:, None] - data[i][None]) / (X[i, 1] - X[i, 0]), 0, None) for i in range(d)]
            Y = np.ones(n) * y
            for j in range(n):
                t = Y[j]
                for i in range(d):
                    t = np.multiply.outer(t, hat[i][:, j])
                want += t
            if d > 1:
                want = np.swapaxes(want, 0, 1)
            ctx.close(c, want, 'gridcount', rtol=1e-7, atol=1e-9)
            ctx.close(c.sum(), Y.sum(), 'gridcount:mass', rtol=1e-9, atol=1e-9)
            ctx.raises(ValueError, lambda: gridcount(data + 10 * w[:, None], X), 'gridcount:refuse')
            ctx.count('binned', n)
    for it in ctx.loop(80):
        nd = int(rng.choice([1, 2]))
        shape = tuple(rng.randint(1, 5, nd))
        od = int(rng.choice([1, 2, 3]))
        out = tuple(rng.randint(1, 5, od))
        a = rng.randint(-5, 6, shape) if rng.rand() < 0.5 else rng.randn(*shape)
        m = np.stack([rng.randint(0, o, shape) for o in out], axis=-1)
        with ctx.case(a=a, m=m, out=out):
            for func in (None, np.prod, max, len):
                fv = rng.choice([0, -7])
                got = accum(m, a, func=func, shape=out, fill_value=fv, dtype=float)
                want = np.full(out, float(fv))
                for s in product(*[range(k) for k in out]):
                    v = [a[q] for q in product(*[range(k) for k in shape]) if tuple(m[q]) == s]
                    if v:
                        want[s] = (func or sum)(v)
                ctx.close(got, want, 'accum', rtol=1e-12, atol=1e-12)
            if od == 1:
                ctx.close(accumsum(m, a, shape=out), accum(m, a, shape=out, dtype=float), 'accumsum', rtol=1e-12, atol=1e-12)
                ctx.close(accum(m[..., 0], a, shape=out, dtype=float), accum(m, a, shape=out, dtype=float), 'accum:flat_map',
                          rtol=1e-12)
                ctx.close(np.ravel(accumsum_sparse(m, a, shape=out).toarray()), accum(m, a, shape=out), 'accumsum_sparse',
                          rtol=1e-12, atol=1e-12)


@family()
def levels(ctx):
    rng = ctx.rng
    for it in ctx.loop(60):
        d = int(rng.choice([1, 2]))
        n = int(rng.choice([200, 600]) if d == 1 else rng.choice([50, 80]))
        mu = rng.randn(d)
        sd = rng.uniform(0.5, 2, d)
        ax = [m + s * np.linspace(-6, 6, n + 3 * i) for i, (m, s) in enumerate(zip(mu, sd))]
        idx = str(rng.choice(['xy', 'ij']))
        G = np.meshgrid(*ax, indexing=idx)
        f = np.prod([st.norm.pdf(g, m, s) for g, m, s in zip(G, mu, sd)], axis=0)
        p = np.sort(rng.uniform(5, 95, 5))
        with ctx.case(ax=ax[0][:3], d=d, n=n, p=p, indexing=idx):
            lev = qlevels(f, p=p, xi=tuple(ax), indexing=idx)
            ctx.ok(np.diff(lev) <= 0, 'qlevels:decreasing')
            # the density exceeds the level on a set of probability p: closed form for Gaussian densities
            q = st.chi2.ppf(p / 100., d)
            want = np.exp(-q / 2) / ((2 * np.pi) ** (d / 2.) * sd.prod())
            ctx.close(lev, want, 'qlevels:enclosed_probability', rtol=0.05 if d == 1 else 0.13, atol=0.01 * want.max())
            ctx.close(qlevels(f, p=p), want, 'qlevels:even_grid', rtol=0.05 if d == 1 else 0.13, atol=0.01 * want.max())
            data = rng.randn(3, 41)
            m = int(rng.randint(1, 5))
            got = qlevels2(data, p=p, method=m)
            srt = np.sort(data, axis=-1)
            pos = (100 - p) / 100. * 40
            k = np.floor(pos).astype(int)
            a_, b_ = srt[:, k], srt[:, np.minimum(k + 1, 40)]
            w2 = {1: a_ + (b_ - a_) * (pos - k), 2: (a_ + b_) / 2, 3: a_, 4: b_}[m]
            ctx.close(got, w2.T, 'qlevels2', rtol=1e-9, atol=1e-9)
    with ctx.case(what='refuse'):
        ctx.raises(ValueError, lambda: qlevels(np.r_[-1., 1]), 'qlevels:refuse')
        ctx.raises(ValueError, lambda: qlevels(np.r_[1., 1], p=101), 'qlevels:refuse')
        ctx.raises(ValueError, lambda: qlevels2(np.r_[1., 1], method=5), 'qlevels2:refuse')
