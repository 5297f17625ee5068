import numpy as np
from scipy.optimize import brentq
import wafo.transform.models as tm
from wafo.transform import TrData
from wafo.misc import tranproc, trangood
from wafo.objects import TimeSeries
import wafo.spectrum.models as sm
from vlib.harness import family

RULE = ('seeded moments (mean, sigma, skewness, kurtosis, both worlds), tables (equidistant, uneven, unsorted), evaluation points in and '
        'outside the tables, up to four derivatives; non-trivial: at least two evaluation points')
ASSUMPTIONS = ['documented formulas of the Hermite (Winterstein 1988, 1994) and Ochi transformations', 'Gauss-Hermite quadrature for moments']
HX, HW = np.polynomial.hermite_e.hermegauss(80)
HW = HW / HW.sum()


def world(rng):
    return dict(mean=float(rng.choice([0., 2.5, -7.])), sigma=float(rng.choice([1., 0.3, 5.])), ymean=float(rng.choice([0., 0., 1.5])),
                ysigma=float(rng.choice([1., 1., 2.])))


def common(ctx, g, key, y, wd, rtol=1e-7, moments=True):
    """Monitors every transformation must satisfy on increasing Gaussian values y."""
    keep = y.copy()
    x = g.gauss2dat(y)
    ctx.equal(y, keep, key + ':argument')
    ctx.ok(np.isrealobj(x) and np.all(np.isfinite(x)), key + ':finite')
    ctx.ok(np.diff(x) > 0, key + ':increasing')
    xk = x.copy()
    y2 = g.dat2gauss(x)
    ctx.equal(x, xk, key + ':argument')
    ctx.close(y2, y, key + ':roundtrip', rtol=rtol, atol=rtol * wd['ysigma'])
    ctx.close(g(x), y2, key + ':call', rtol=1e-14)
    ctx.close(g.gauss2dat(y2), x, key + ':roundtrip_back', rtol=rtol, atol=rtol * wd['sigma'])
    k = len(y) // 2
    ctx.close(np.ravel(g.gauss2dat(y[k])), x[k:k + 1], key + ':scalar', rtol=1e-9, atol=1e-9)
    return x


@family(shards=2)
def hermite(ctx):
    rng = ctx.rng
    for _ in ctx.loop(400):
        wd = world(rng)
        pd = int(rng.choice([1, 2]))
        how = rng.choice(['soft', 'hard', 'gauss', 'quadratic', 'small'])
        if how == 'soft':
            ek = rng.uniform(0.01, 3) if rng.rand() < 0.8 else rng.uniform(3, 11)
            sk = rng.uniform(-1, 1) * np.sqrt(2 * ek / 3) * 0.95
        elif how == 'hard':
            ek = -rng.uniform(0.02, 1.2)
            c4 = ek / 24
            sk = 6 * rng.uniform(-0.95, 0.95) * np.sqrt(-3 * c4 * (1 + 3 * c4))
        elif how == 'gauss':
            ek, sk = 0., 0.
        elif how == 'quadratic':
            ek, sk = 0., rng.uniform(-0.4, 0.4)
        else:
            ek = float(10 ** rng.uniform(-6, -2))
            sk = rng.uniform(-0.5, 0.5) * np.sqrt(ek)
        with ctx.case(skew=sk, excess=ek, pardef=pd, **wd):
            if ek > 0 and pd == 2:
                c4 = (np.sqrt(1 + 1.5 * ek) - 1) / 18
                c3 = sk / (6 * (1 + 6 * c4))
                if c3 ** 2 >= 2.9 * c4 * (1 - 3 * c4):
                    continue
            elif ek > 0:
                c3 = sk / 6 * (1 - 0.015 * abs(sk) + 0.3 * sk ** 2) / (1 + 0.2 * ek)
                base = 1 - 1.43 * sk ** 2 / ek
                if base < 0:
                    ctx.raises(ValueError, lambda: tm.TrHermite(skew=sk, kurt=3 + ek, pardef=pd, **wd), 'hermite:refuse')
                    continue
                c4 = 0.1 * ((1 + 1.25 * ek) ** (1 / 3.) - 1) * base ** (1 - 0.1 * (ek + 3) ** 0.8)
                if c3 ** 2 >= 2.9 * c4 * (1 - 3 * c4):
                    continue
            else:
                c3, c4 = sk / 6, ek / 24
            if abs(c4) < 1e-7:
                continue                     # treated as zero within sqrt(eps)
            g = tm.TrHermite(skew=sk, kurt=3 + ek, pardef=pd, **wd)
            y = np.linspace(-3, 3, 25)
            if c3 and ek == 0:
                y = y[np.abs(y - 1 / (2 * c3)) > 0]
                y = y[y * np.sign(c3) < 0.8 * (abs(1 / (4 * c3)) + abs(c3))]
            yy = y * wd['ysigma'] + wd['ymean']
            x = common(ctx, g, 'hermite', yy, wd, rtol=1e-6)
            if ek > 0:
                K = 1 / np.sqrt(1 + 2 * c3 ** 2 + 6 * c4 ** 2)
                G = lambda u: wd['mean'] + K * wd['sigma'] * (u + c3 * (u ** 2 - 1) + c4 * (u ** 3 - 3 * u))
                ctx.close(x, G(y), 'hermite:softening_formula', rtol=1e-9, atol=1e-9)
                v = g.gauss2dat(HX * wd['ysigma'] + wd['ymean'])
                ctx.close(np.sum(HW * v), wd['mean'], 'hermite:mean', rtol=1e-8, atol=1e-8 * wd['sigma'])
                ctx.close(np.sum(HW * (v - wd['mean']) ** 2), wd['sigma'] ** 2, 'hermite:variance', rtol=1e-8)
                if ek < 1 and pd == 1 and sk ** 2 < 0.3 * ek:
                    zs = (v - wd['mean']) / wd['sigma']
                    ctx.close(np.sum(HW * zs ** 3), sk, 'hermite:skewness', rtol=0.1, atol=0.02)
                    ctx.close(np.sum(HW * zs ** 4), 3 + ek, 'hermite:kurtosis', rtol=0.03)
            else:
                xn = (x - wd['mean']) / wd['sigma']
                ctx.close(y, xn - c3 * (xn ** 2 - 1) - c4 * (xn ** 3 - 3 * xn), 'hermite:hardening_formula', rtol=1e-7, atol=1e-7)
            if ek == 0 and sk == 0:
                ctx.close(x, wd['mean'] + wd['sigma'] * y, 'hermite:linear', rtol=1e-12, atol=1e-12)
                ctx.ok(g.dist2gauss() < 1e-20, 'hermite:distance')
            elif how == 'soft' or how == 'hard':
                xn = np.linspace(-4, 4, 301)
                yn = (g.dat2gauss(wd['mean'] + wd['sigma'] * xn) - wd['ymean']) / wd['ysigma']
                d = np.sum(((xn - yn) ** 2)[1:] + ((xn - yn) ** 2)[:-1]) * (xn[1] - xn[0]) / 2
                ctx.close(g.dist2gauss(xnmin=-4, xnmax=4, n=301), d, 'hermite:distance', rtol=1e-8)
                T = g.trdata(xnmin=-4, xnmax=4, n=801)
                ctx.close(T.dat2gauss(wd['mean'] + wd['sigma'] * xn), yn, 'hermite:trdata', rtol=1e-3, atol=1e-3)
    # polynomials that are only monotone in part of the range
    for _ in ctx.loop(40):
        wd = world(rng)
        wd['ymean'], wd['ysigma'] = 0., 1.
        ek = -rng.uniform(0.02, 0.3)
        c4 = ek / 24
        c3 = rng.choice([-1, 1]) * rng.uniform(1.2, 3) * np.sqrt(-3 * c4 * (1 + 3 * c4))
        with ctx.case(c3=c3, c4=c4, what='partly monotone', **wd):
            g = tm.TrHermite(skew=6 * c3, kurt=3 + ek, **wd)
            p = np.poly1d([-c4, -c3, 1 + 3 * c4, c3])
            crit = np.sort(p.deriv().r.real)
            lo, hi = (-4., crit[0] - 0.3) if c3 > 0 else (crit[1] + 0.3, 4.)
            if not lo + 0.5 < 0 < hi - 0.5:
                continue
            m = min(abs(lo), abs(hi), 2.)
            xn = np.linspace(-m, m, 21)
            x = xn * wd['sigma'] + wd['mean']
            y = g.dat2gauss(x)
            ctx.close(y, p(xn), 'hermite:partly_monotone', rtol=1e-8, atol=1e-9)
            ctx.raises(ValueError, lambda: g.dat2gauss(np.linspace(*(np.r_[crit[0] - 1, crit[1] + 1] * wd['sigma'] + wd['mean']), 9)),
                       'hermite:refuse_not_monotone')


@family(shards=1)
def ochi_linear(ctx):
    rng = ctx.rng
    for _ in ctx.loop(250):
        wd = world(rng)
        sk = float(rng.choice([0., rng.uniform(-0.6, 0.6), rng.uniform(-2, 2)]))
        with ctx.case(skew=sk, **wd):
            g = tm.TrOchi(skew=sk, **wd)
            y = np.linspace(-2.5, 2.5, 21)
            if sk == 0:
                a, s2, m2 = 0., 1., 0.
            else:
                v = brentq(lambda q: np.sqrt(2 * (q - 1)) * (3 * q - 4 * (q - 1)) - abs(sk), 1, 2)
                a = np.sign(sk) * np.sqrt((v - 1) / 2) / v
                s2 = np.sqrt(v)
                m2 = (-1 + np.sqrt(1 - 4 * a ** 2 * v)) / (2 * a)
            if a:
                wrong = a * s2 ** 2 / ((-1 - np.sqrt(1 - 4 * a ** 2 * s2 ** 2)) / a)
                for m in (m2, wrong):          # inside the range of the exponential model
                    y = y[(1 - 1.28 * a * (s2 * y + m) > 0.02) & (1 - 3 * a * (s2 * y + m) > 0.02)]
            if len(y) < 3:
                continue
            yy = y * wd['ysigma'] + wd['ymean']
            x = common(ctx, g, 'ochi', yy, wd)

            def G(m):
                z = s2 * y + m
                gam = np.where(z >= 0, 1.28 * a, 3 * a)
                return wd['mean'] + wd['sigma'] * (-np.log1p(-gam * z) / gam if a else z)
            if not np.allclose(x, G(m2), rtol=1e-7, atol=1e-8):
                known = np.allclose(x, G(wrong), rtol=1e-7, atol=1e-8)
                ctx.ok(False, 'ochi:normalising_mean' if known else 'ochi:formula', lambda: (x, G(m2)))
            else:
                ctx.ok(True, 'ochi:formula')
            if sk == 0:
                ctx.close(x, wd['mean'] + wd['sigma'] * y, 'ochi:linear', rtol=1e-12, atol=1e-12)
            L = tm.TrLinear(**wd)
            xl = common(ctx, L, 'linear', yy, wd)
            ctx.close(xl, wd['mean'] + wd['sigma'] * y, 'linear:formula', rtol=1e-12, atol=1e-12)
            d1, d2 = rng.randn(len(y)), rng.randn(len(y))
            out = L.dat2gauss(xl, d1, d2)
            r = wd['ysigma'] / wd['sigma']
            ctx.close(np.array(out), np.array([yy, d1 * r, d2 * r]), 'linear:derivatives', rtol=1e-10, atol=1e-10)
            out = L.gauss2dat(yy, d1, d2)
            ctx.close(np.array(out), np.array([xl, d1 / r, d2 / r]), 'linear:derivatives', rtol=1e-10, atol=1e-10)
            ctx.ok(abs(L.dist2gauss()) < 1e-20, 'linear:distance')
            M = g.gauss2dat(yy.reshape(1, -1).repeat(2, 0))
            ctx.close(M, np.vstack([x, x]), 'ochi:matrix', rtol=1e-9, atol=1e-9)
    with ctx.case(what='refuse'):
        ctx.raises(ValueError, lambda: tm.TrOchi(skew=2.9), 'ochi:refuse')
        ctx.raises(ValueError, lambda: tm.TrOchi(skew=0.2).dat2gauss(1., 2.), 'ochi:refuse_derivative')


FUNS = [  # f and its first four derivatives
    lambda x: (x + 0.1 * x ** 2 + 0.05 * x ** 3, 1 + 0.2 * x + 0.15 * x ** 2, 0.2 + 0.3 * x, 0.3 + 0 * x, 0 * x),
    lambda x: (np.sinh(0.5 * x), 0.5 * np.cosh(0.5 * x), 0.25 * np.sinh(0.5 * x), 0.125 * np.cosh(0.5 * x), 0.0625 * np.sinh(0.5 * x)),
    lambda x: (np.exp(0.3 * x), 0.3 * np.exp(0.3 * x), 0.09 * np.exp(0.3 * x), 0.027 * np.exp(0.3 * x), 0.0081 * np.exp(0.3 * x)),
]


def gap_good(X, F, lo, hi):
    """The extended table as recorded under the known findings trangood:gap_below (three cells instead of one below the table)."""
    i = np.argsort(X)
    x, f = X[i], F[i]
    n, L = len(x), x[-1] - x[0]
    if np.any(np.abs(np.diff(np.diff(x))) > 10 * np.finfo(float).eps * L):
        dx = (L / (max(n, 2) - 1) + 2.) - 2.
        xi = np.arange(x[0], x[-1] + dx / 2, dx)
        x, f = xi, np.interp(xi, x, f)
    dx = x[1] - x[0]
    if lo < x[0]:
        e = dx * np.arange(np.floor((lo - x[0]) / dx), -2)
        x, f = np.r_[e + x[0], x], np.r_[f[0] + e * (f[1] - f[0]) / (x[1] - x[0]), f]
    if hi > x[-1]:
        e = dx * np.arange(1, np.ceil((hi - x[-1]) / dx) + 1)
        x, f = np.r_[x, e + x[-1]], np.r_[f, f[-1] + e * (f[-1] - f[-2]) / (x[-1] - x[-2])]
    return x, f


def gap_proc(X, F, x0):
    """Evaluation in the extended table with the length of the table given (known finding tranproc:table_extended)."""
    x, f = gap_good(X, F, x0.min(), x0.max())
    n = len(X)
    u = (n - 1) * (x0 - x[0]) / (x[-1] - x[0])
    i = np.floor(u).astype(int)
    i = np.where(i == n - 1, i - 1, i)
    return f[i] + (f[i + 1] - f[i]) * (u - i)


def table_case(ctx, X, F, x, f, x0, line):
    """Known findings: extended downwards, a table has a gap; evaluated outside the table, values are misplaced."""
    a, b = trangood(X, F, min_x=x0.min(), max_x=x0.max())
    ga, gb = gap_good(X, F, x0.min(), x0.max())
    same = len(a) == len(ga) and np.allclose(a, ga, rtol=1e-9, atol=1e-9) and np.allclose(b, gb, rtol=1e-7, atol=1e-7)
    below = x0.min() < x[0] - 1e-12
    outside = below or x0.max() > x[-1] + 1e-12 or len(ga) != len(X)
    y = tranproc(X, F, x0)
    want = np.interp(x0, a, b)

    def judge(cond, key, defect, kf):
        ctx.ok(cond, kf if not cond and defect else key)
    step = a[1] - a[0]
    judge(np.allclose(np.diff(a), step, rtol=1e-6), 'trangood:equidistant', below and same, 'trangood:gap_below')
    judge(a[0] <= x0.min() + 1e-9 and a[-1] >= x0.max() - 1e-9, 'trangood:covers', below and same, 'trangood:gap_below')
    m = np.abs(b).max()
    if len(x) == len(X) and not np.any(np.abs(np.diff(np.diff(x))) > 1e-9):
        ideal = np.interp(x0, x, f)
        lo, hi = x0 < x[0], x0 > x[-1]
        ideal[lo] = f[0] + (x0[lo] - x[0]) * (f[1] - f[0]) / (x[1] - x[0])
        ideal[hi] = f[-1] + (x0[hi] - x[-1]) * (f[-1] - f[-2]) / (x[-1] - x[-2])
        judge(np.allclose(y, ideal, rtol=1e-7, atol=1e-7 * np.abs(f).max()), 'tranproc:interpolates',
              outside and np.allclose(y, gap_proc(X, F, x0), rtol=1e-6, atol=1e-6 * m), 'tranproc:table_extended')
    judge(np.allclose(y, want, rtol=1e-7, atol=1e-6 * m), 'tranproc:from_good_table',
          outside and np.allclose(y, gap_proc(X, F, x0), rtol=1e-6, atol=1e-6 * m), 'tranproc:table_extended')
    c0, c1 = line
    yl = tranproc(X, c0 + c1 * X, x0)
    judge(np.allclose(yl, c0 + c1 * x0, rtol=1e-6, atol=1e-6), 'tranproc:line',
          outside and np.allclose(yl, gap_proc(X, c0 + c1 * X, x0), rtol=1e-6, atol=1e-6), 'tranproc:table_extended')
    return a, b


@family(shards=2)
def tables(ctx):
    rng = ctx.rng
    for _ in ctx.loop(250):
        n = int(rng.choice([2, 3, 5, 11, 40, 200]))
        even = rng.rand() < 0.6
        x = np.linspace(-3, 4, n) if even else np.sort(rng.uniform(-3, 4, n))
        if np.any(np.diff(x) < 1e-3):
            continue
        f = np.cumsum(rng.uniform(0.05, 1, n)) if rng.rand() < 0.7 else rng.randn(n)
        ext = rng.rand() < 0.5
        x0 = rng.uniform(-3 - 2 * ext, 4 + 2 * ext, int(rng.choice([1, 2, 7])))
        if not ext:
            x0 = np.clip(x0, x[0], x[-1])
        if rng.rand() < 0.3:
            x0 = np.r_[x0, x[0], x[-1]]
        perm = rng.permutation(n) if rng.rand() < 0.3 else np.arange(n)
        with ctx.case(x=x, f=f, x0=x0, perm=perm, nontrivial=len(x0) > 1):
            X, F = x[perm].copy(), f[perm].copy()
            with ctx.frozen('tranproc:argument', X, F, x0):
                tranproc(X, F, x0)
            line = rng.randn(2)
            a, b = table_case(ctx, X, F, x, f, x0, line)
            ctx.ok(a[0] <= x[0] + 1e-9 and a[-1] >= x[-1] - 1e-6, 'trangood:covers_table')
            ctx.equal(len(a), len(b), 'trangood:lengths')
            ins = (a >= x[0]) & (a <= x[-1])
            ctx.close(b[ins], np.interp(a[ins], x, f), 'trangood:interpolates', rtol=1e-7, atol=1e-7 * np.abs(f).max())
            # a straight line stays a straight line, also outside the table
            c0, c1 = line
            al, bl = trangood(X, c0 + c1 * X, min_x=-6, max_x=8)
            ctx.close(bl, c0 + c1 * al, 'trangood:line', rtol=1e-6, atol=1e-6)
            m = int(rng.choice([2, 10, 300]))
            am, bm = trangood(X, F, min_n=m)
            ctx.ok(len(am) >= m, 'trangood:min_n', lambda: len(am))
            am, bm = trangood(X, F, max_n=m)
            ctx.ok(len(am) <= max(m, 2) + 1, 'trangood:max_n', lambda: len(am))
            ctx.raises(ValueError, lambda: trangood(np.r_[X, X[0]], np.r_[F, 1.]), 'trangood:refuse_duplicates')
    for _ in ctx.loop(120):
        fun = FUNS[rng.randint(len(FUNS))]
        m = int(rng.randint(1, 5))
        n = 401 if m == 4 else int(rng.choice([401, 1001]))   # longer tables are thinned out before they are differentiated
        x = np.linspace(-4, 4, n)
        x0 = rng.uniform(-2.5, 2.5, 6)
        xi = [rng.randn(6) for _ in range(m)]
        with ctx.case(x0=x0, n=n, xi=np.array(xi)):
            out = tranproc(x, fun(x)[0], x0, *xi)
            ctx.equal(len(out), m + 1, 'tranproc:count')
            f = fun(x0)
            x1 = xi[0]
            x2 = xi[1] if m > 1 else 0
            x3 = xi[2] if m > 2 else 0
            x4 = xi[3] if m > 3 else 0
            want = [f[0], f[1] * x1, f[2] * x1 ** 2 + f[1] * x2, f[3] * x1 ** 3 + 3 * f[2] * x1 * x2 + f[1] * x3,
                    f[4] * x1 ** 4 + 6 * f[3] * x1 ** 2 * x2 + f[2] * (3 * x2 ** 2 + 4 * x1 * x3) + f[1] * x4]
            for i in range(m + 1):
                ctx.close(out[i], want[i], 'tranproc:chain_rule%d' % i, rtol=5e-3, atol=5e-3)
            ctx.count('derivatives', m)


@family(shards=2)
def trdata(ctx):
    rng = ctx.rng
    for _ in ctx.loop(100):
        n = int(rng.choice([201, 513, 1001]))
        fun = FUNS[rng.randint(len(FUNS))]
        u = np.linspace(-5, 5, n)
        x = 3 * u + 1
        yv = fun(u)[0] - (1 if fun is FUNS[2] else 0)
        keys = dict(mean=1., sigma=3.) if rng.rand() < 0.7 else {}
        with ctx.case(n=n, which=FUNS.index(fun), **keys):
            g = TrData(yv, x, **keys)
            if not keys:
                inv = lambda v: np.interp(v, yv, x)
                ctx.close(np.ravel(g.mean)[0], inv(0.), 'trdata:mean', rtol=1e-2, atol=1e-2)
                if fun is not FUNS[2]:          # (whose values do not reach -1)
                    ctx.close(np.ravel(g.sigma)[0], (inv(1.) - inv(-1.)) / 2, 'trdata:sigma', rtol=1e-2)
            uu = rng.uniform(-3.5, 3.5, 9)
            xs = np.sort(3 * uu + 1)
            us = (xs - 1) / 3
            ys = fun(us)[0] - (1 if fun is FUNS[2] else 0)
            h = 10. / n
            ctx.close(g.dat2gauss(xs), ys, 'trdata:forward', rtol=1e-3, atol=20 * h ** 2)
            ctx.close(g.gauss2dat(ys), xs, 'trdata:inverse', rtol=1e-2, atol=300 * h ** 2)
            ctx.ok(np.diff(g.dat2gauss(xs)) > 0, 'trdata:increasing')
            xd = rng.randn(9)
            o = g.dat2gauss(xs, xd)
            ctx.close(o[1], fun(us)[1] / 3 * xd, 'trdata:derivative', rtol=1e-2, atol=1e-2)
            b = g.gauss2dat(ys, xd)
            ctx.close(b[1], xd / (fun(us)[1] / 3), 'trdata:inverse_derivative', rtol=6e-2, atol=3e-2)
            if keys:
                xn = np.linspace(-5, 5, 513)
                v = (xn - (fun(xn)[0] - (1 if fun is FUNS[2] else 0))) ** 2
                ctx.close(g.dist2gauss(), np.sum(v[1:] + v[:-1]) * (xn[1] - xn[0]) / 2, 'trdata:distance', rtol=1e-2, atol=1e-6)


@family(shards=4)
def estimated(ctx):
    rng = ctx.rng
    for _ in ctx.loop(4):
        seed = int(rng.randint(1, 10 ** 6))
        c3 = rng.choice([0., 0.08, -0.08])
        method = str(rng.choice(['nonlinear', 'mnonlinear', 'linear', 'hermite', 'ochi']))
        with ctx.case(seed=seed, c3=c3, method=method):
            S = sm.Bretschneider(4., 9.).tospecdata(nw=257)
            y = S.sim(ns=20000, iseed=seed)
            t, y = y[:, 0], y[:, 1]
            y = (y - y.mean()) / y.std()
            x = 1 + 2 * (y + c3 * (y ** 2 - 1))
            ts = TimeSeries(x.copy(), t)
            if method == 'ochi' and c3 <= 0:
                continue
            g = ts.trdata(method=method)
            ctx.equal(ts.data, x, 'estimate:argument')
            g = g[0] if isinstance(g, tuple) else g
            u = np.linspace(-1.5, 1.5, 25)
            lim = 0.45 if (method == 'ochi' or (method == 'linear' and c3)) else 0.35
            xx = 1 + 2 * (u + c3 * (u ** 2 - 1))
            try:
                got = g.dat2gauss(xx)
            except ValueError as e:      # the polynomial of the sample moments has no inverse there, and says so
                if method == 'hermite' and 'invert' in str(e):
                    ctx.count('refused')
                    continue
                raise
            ctx.ok(np.diff(got) > 0, 'estimate:increasing:' + method)
            ctx.ok(np.abs(got - u) < lim, 'estimate:values:' + method, lambda: np.abs(got - u).max())


@family()
def empirical(ctx):
    """The empirical transformation is the normal quantile of the crossing intensity (or of the distribution) accumulated up to the level,
    the smooth one runs from its regression line to itself with the smoothing parameter."""
    from scipy.special import ndtri
    from scipy.stats import skew, kurtosis
    rng = ctx.rng
    for _ in ctx.loop(30):
        n = int(rng.choice([400, 900, 2000]))
        y = np.convolve(rng.randn(n + 8), np.hanning(9), 'valid')
        y = y / y.std()
        x = float(rng.choice([0., 3., -50.])) + float(10 ** rng.uniform(-1, 1)) * (y + rng.choice([0, 0.1]) * y ** 2)
        if rng.rand() < 0.3:
            x = np.round(x / x.std() * 40) / 40          # ties
        ts = TimeSeries(x.copy(), np.arange(n) * 0.5)
        kind = str(rng.choice(['cdf', 'lc', 'lc', 'moments']))
        ne = int(rng.choice([0, 3, 7]))
        opt = dict(ne=ne, chkder=False, param=(-4, 4, 201))
        if rng.rand() < 0.3:
            opt['gvar'] = np.ones(int(rng.choice([2, 5])))
        with ctx.case(n=n, kind=kind, ne=ne, gvar='gvar' in opt):
            if kind == 'moments':
                h = ts.trdata(method='hermite')
                ctx.close([h.mean, h.sigma, h.skew], [x.mean(), x.std(), skew(x)], 'empirical:hermite', rtol=1e-9, atol=1e-10)
                top, low = min(4 * (4 * skew(x) / 3) ** 2, 13), 1.5 * skew(x) ** 2
                ctx.close(h.kurt, min(top, max(kurtosis(x), low)) + 3, 'empirical:hermite', rtol=1e-9)
                o = ts.trdata(method='ochi')
                ctx.close([o.mean, o.sigma, o.skew], [x.mean(), x.std(), skew(x)], 'empirical:ochi', rtol=1e-9, atol=1e-10)
                g = ts.trdata(method='linear')[0]
                ctx.close(g.dat2gauss(x), (x - x.mean()) / x.std(), 'empirical:linear', rtol=1e-9, atol=1e-10)
                continue
            if kind == 'cdf':
                mean, sigma = x.mean(), x.std()

                def ask(**kw):
                    return ts.trdata(method='mnonlinear', **dict(opt, **kw))
                z = np.sort(x)
                keep = np.r_[np.diff(z) > 0, False]       # of equal values the last one, and the largest is left out
                lev, want = z[keep], ndtri(np.arange(1, n + 1) / (n + 1))[keep]
            else:
                cd = str(rng.choice(['uM', 'umM']))
                lc = ts.turning_points().cycle_pairs().level_crossings(cd, intensity=bool(rng.rand() < 0.3))
                mean, sigma = (lc.mean, lc.sigma) if rng.rand() < 0.5 else (x.mean(), x.std())
                lev = np.array(lc.args, float)
                c = np.array(lc.data, float)
                if len(lev) < 40:
                    continue
                kw0 = {} if mean == lc.mean else dict(mean=mean, sigma=sigma)

                def ask(**kw):
                    return lc.trdata(**dict(opt, **kw0, **kw))
                a = np.r_[0, np.cumsum((c[1:] + c[:-1]) / 2 * np.diff(lev))]
                want = ndtri((a + 0.5 / len(c)) / (a[-1] + 1. / len(c)) if lc.intensity else (a + 0.5) / (a[-1] + 1))
            g, e = ask()
            ctx.equal(ts.data, x, 'empirical:argument')
            ctx.close(e.args, lev, 'empirical:levels:' + kind, rtol=1e-9, atol=1e-9 * np.abs(lev).max())
            ctx.close(e.data, want, 'empirical:values:' + kind, rtol=1e-6, atol=1e-7)
            ctx.close([g.mean, g.sigma], [mean, sigma], 'empirical:scale', rtol=1e-9)
            ctx.close(g.args, mean + sigma * np.linspace(-4, 4, 201), 'empirical:range', rtol=1e-9, atol=1e-9)
            ins = slice(ne, len(lev) - ne)
            X = (lev if kind == 'cdf' else (lev - mean) / sigma)[ins]
            if len(X) < 10:
                continue
            U = np.asarray(g.args if kind == 'cdf' else (g.args - mean) / sigma)
            inside = (U > X[0]) & (U < X[-1])
            full, _ = ask(gsm=1.)
            k = np.searchsorted(X, U[inside])
            lo, hi = want[ins][k - 1], want[ins][np.minimum(k, len(X) - 1)]
            wide = np.abs(np.diff(X)).min() > 1e-3 * np.diff(X).max()
            if wide:
                ctx.ok((full.data[inside] > lo - 1) & (full.data[inside] < hi + 1), 'empirical:interpolates')
            if 'gvar' in opt:
                same, _ = ask(gvar=1.)
                ctx.close(g.data, same.data, 'empirical:variances', rtol=1e-7, atol=1e-8)
            if len(lev) > 250:      # decimated before smoothing: the same transformation but for the ends
                one, e2 = ask(ntr=220, gsm=0.)
                V = np.asarray(e2.args if kind == 'cdf' else (e2.args - mean) / sigma)
                ctx.close(np.diff(V), np.full(len(V) - 1, V[1] - V[0]), 'empirical:decimated_levels', rtol=1e-6)
                line = np.polyfit(V, e2.data, 1)
                inside = (U > V[0]) & (U < V[-1])
                ctx.close(one.data[inside], np.polyval(line, U[inside]), 'empirical:line', rtol=1e-4, atol=1e-4)
                wrong = False
                if kind == 'lc':          # the crossings of the levels left out still count
                    pad = 0.5 / 220 if lc.intensity else 0.5
                    L = V * sigma + mean
                    left, right = np.interp(L[[0, -1]], lev, a)
                    ends = ndtri((np.array([left, right]) + pad) / (a[-1] + 2 * pad))
                    if ne > 0 and not np.allclose(e2.data[[0, -1]], ends, rtol=0, atol=0.05):
                        # known: the corrections are taken from the levels that are left, and the first level gets none
                        C = np.interp(L, lev, c)
                        q = (C[1:] + C[:-1]) / 2 * np.diff(L)
                        q = np.r_[0, np.cumsum(q) + q[:ne].sum()]
                        q = ndtri((q + pad) / (q[-1] + (C[1:] + C[:-1])[-ne:].sum() / 2 * (L[1] - L[0]) + 2 * pad))
                        wrong = np.allclose(e2.data, q, rtol=1e-6, atol=1e-6)
                        ctx.ok(not wrong, 'empirical:decimated_correction', lambda: (e2.data[[0, -1]], ends))
                    if not wrong:
                        ctx.close(e2.data[[0, -1]], ends, 'empirical:decimated_ends', rtol=0, atol=0.05)
