"""C17: piecewise polynomials, smoothing splines, slopes and shape preserving interpolants against dense linear algebra and direct formulas."""
import numpy as np
import scipy.interpolate as si

import wafo.interpolate as wi
from vlib.harness import family

RULE = ("a piecewise polynomial is evaluated piece by piece with numpy.polyval, its derivative and integral by exact polynomial arithmetic; "
        "smoothing splines by the dense normal equations of the penalised criterion; slopes by the formulas of the cited papers and by scipy; "
        "interpolants by their Hermite or Stineman form; reproduction of data and lines, monotonicity and equivariance are judged directly")
ASSUMPTIONS = ["scipy.interpolate.CubicSpline, PchipInterpolator and Akima1DInterpolator are right",
               "abscissae are separated (no two closer than a thousandth of the range), ordinates are of moderate size"]
METHODS = ['Catmull-Rom', 'Cardinal', 'parabola', 'secant', 'akima', 'pchip', 'stineman', 'steffen', 'fritsch']


def abscissae(rng, n, ints=False):
    if ints:
        return np.cumsum(rng.randint(1, 6, n)) + rng.randint(-20, 20)
    return rng.normal() * 10 + np.cumsum(rng.uniform(0.05, 1, n) * 10 ** rng.uniform(-0.5, 0.5)) * 10 ** rng.uniform(-1, 1.5)


def ordinates(rng, x, kind=None):
    n = len(x)
    kind = kind or rng.choice(['noise', 'mono', 'flat', 'line', 'ties', 'desc', 'smooth'])
    if kind == 'noise':
        return rng.normal(size=n) * 10 ** rng.uniform(-2, 2)
    if kind == 'mono':
        return np.cumsum(rng.exponential(size=n) ** 2)
    if kind == 'desc':
        return -np.cumsum(rng.exponential(size=n) ** 3) + 3.
    if kind == 'flat':
        return np.cumsum(rng.exponential(size=n) * (rng.random(n) < 0.5))
    if kind == 'ties':
        return rng.randint(-2, 3, n).astype(float)
    if kind == 'line':
        return rng.normal() * 3 + rng.normal() * x
    return np.sin((x - x[0]) / (x[-1] - x[0]) * rng.uniform(1, 9)) * 5


def inside(rng, x, n=40):
    return np.concatenate([rng.uniform(x[0], x[-1], n), x, 0.5 * (x[1:] + x[:-1])])


# ---------------------------------------------------------------- piecewise polynomials
def ppval(coeffs, breaks, t, deriv=0, integ=False):
    """Value at t, piece by piece; the integral is the one from breaks[0]."""
    npc = len(breaks) - 1
    out = np.empty(len(t))
    base = np.zeros(npc)
    if integ:
        w = [np.polyval(np.polyint(coeffs[:, i]), breaks[i + 1] - breaks[i]) for i in range(npc)]
        base = np.concatenate([[0], np.cumsum(w)[:-1]])
    for j, tj in enumerate(t):
        i = 0
        while i < npc - 1 and tj > breaks[i + 1]:
            i += 1
        p = np.asarray(coeffs[:, i], float)
        p = np.polyder(p, deriv) if deriv else p
        p = np.polyint(p) if integ else p
        out[j] = base[i] + np.polyval(p, tj - breaks[i])
    return out


@family()
def ppform(ctx):
    rng = ctx.rng
    for _ in ctx.loop(120):
        npc, k = int(rng.randint(1, 8)), int(rng.randint(1, 6))
        ints = bool(rng.random() < 0.35)
        brk = abscissae(rng, npc + 1, ints)
        cof = rng.randint(-4, 5, (k, npc)) if ints and rng.random() < 0.6 else rng.normal(size=(k, npc))
        fill = float(rng.choice([0., -7.5, np.nan]))
        wide = bool(rng.random() < 0.3)
        a, b = (brk[0] - 3, brk[-1] + 2) if wide else (brk[0], brk[-1])
        with ctx.case(pieces=npc, order=k, ints=ints, wide=wide, fill=fill):
            kw = dict(a=a, b=b) if wide else {}
            pp = wi.PPform(cof, brk.tolist() if rng.random() < 0.3 else brk, fill=fill, **kw)
            # not at inner breaks: the two pieces may disagree there
            t = rng.uniform(brk[0] - 4, brk[-1] + 4, 40)
            near = np.min(np.abs(t[:, None] - brk), axis=1) > 1e-6
            t = t[near]
            ok = (a <= t) & (t <= b)
            scale = 1 + np.abs(ppval(np.abs(cof), brk, t))
            ctx.close(pp(t) / scale, np.where(ok, ppval(cof, brk, t), fill) / scale, 'ppform:value', 1e-10, 1e-10)
            ctx.ok(pp(t.reshape(1, -1)).shape == (1, len(t)) and np.shape(pp(t[0])) == (), 'ppform:shape', 'shape of the argument')
            ctx.close([float(pp(v)) for v in t[:5]], pp(t[:5]), 'ppform:one_by_one', 1e-12, 1e-12)
            ti = np.unique(np.rint(t).astype(int))
            ti = ti[np.min(np.abs(ti[:, None] - brk), axis=1) > 1e-6]
            if len(ti):
                ctx.close(pp(ti), pp(ti.astype(float)), 'ppform:integer_argument', 1e-12, 1e-12)
                ctx.close(pp(ti.tolist()), pp(ti.astype(float)), 'ppform:list_argument', 1e-12, 1e-12)
            d = pp.derivative() if k > 1 else None
            if d is not None:
                ctx.close(d(t) / scale, np.where(ok, ppval(cof, brk, t, 1), fill) / scale, 'ppform:derivative', 1e-9, 1e-9)
            q = pp.integrate()
            s2 = 1 + np.abs(ppval(np.abs(cof), brk, t, integ=True))
            ctx.close(q(t) / s2, np.where(ok, ppval(cof, brk, t, integ=True), fill) / s2, 'ppform:integral', 1e-9, 1e-9)
            eps = 1e-7 * np.diff(brk).min()
            inner = np.asarray(brk[1:-1], float)
            if len(inner):
                ctx.close((q(inner + eps) - q(inner - eps)) / s2.max(), 0 * inner, 'ppform:integral_continuous', 0, 1e-6)
            dq = q.derivative()
            ctx.close(dq(t[ok]) / scale[ok], pp(t[ok]) / scale[ok], 'ppform:derivative_of_integral', 1e-9, 1e-9)
            # linear extrapolation
            e = pp.linear_extrapolate()
            if k > 1:
                lo, hi = brk[0] - rng.uniform(0.1, 9, 6), brk[-1] + rng.uniform(0.1, 9, 6)
                v0, s0 = np.polyval(cof[:, 0], 0.), np.polyval(np.polyder(cof[:, 0]), 0.)
                h = brk[-1] - brk[-2]
                v1, s1 = np.polyval(cof[:, -1], h), np.polyval(np.polyder(cof[:, -1]), h)
                se = 1 + abs(v0) + abs(v1) + 10 * (abs(s0) + abs(s1)) + np.sum(np.abs(cof[:, -1]) * max(1, h + 1) ** np.arange(k - 1, -1, -1)) * 10
                ctx.close(e(lo) / se, (v0 + s0 * (lo - brk[0])) / se, 'ppform:extrapolate_below', 1e-9, 1e-9)
                ctx.close(e(hi) / se, (v1 + s1 * (hi - brk[-1])) / se, 'ppform:extrapolate_above', 1e-9, 1e-9)
                far = np.concatenate([lo, hi])
                ctx.close(e.derivative()(far) / se, np.r_[0 * lo + s0, 0 * hi + s1] / se, 'ppform:extrapolated_derivative', 1e-9, 1e-9)
                mid = t[(brk[0] < t) & (t < brk[-1])]
                if len(mid):
                    ctx.close(e(mid) / se, pp(mid) / se, 'ppform:extrapolate_keeps_inside', 1e-10, 1e-10)
                F = e.integrate()
                tot = float(F(brk[-1])) - float(F(brk[0]))
                ctx.close(tot / s2.max(), ppval(cof, brk, [float(brk[-1])], integ=True)[0] / s2.max(), 'ppform:integral_after_extrapolation', 1e-7, 1e-7)
                two = float(F(brk[-1] + 2)) - float(F(brk[-1]))
                ctx.close(two / (se + s2.max()), (2 * v1 + 2 * s1) / (se + s2.max()), 'ppform:integral_outside', 1e-7, 1e-7)


# ---------------------------------------------------------------- smoothing splines
def penalised(x, y, p, var):
    """Values at the knots of the minimiser of p sum (y-f)^2/var + (1-p) int f''^2, by dense algebra."""
    n, h = len(x), np.diff(x)
    Q = np.zeros((n, n - 2))
    R = np.zeros((n - 2, n - 2))
    for j in range(n - 2):
        Q[j, j], Q[j + 1, j], Q[j + 2, j] = 1 / h[j], -1 / h[j] - 1 / h[j + 1], 1 / h[j + 1]
        R[j, j] = (h[j] + h[j + 1]) / 3
        if j < n - 3:
            R[j, j + 1] = R[j + 1, j] = h[j + 1] / 6
    w = np.broadcast_to(1. / np.asarray(var, float), n)
    K = Q @ np.linalg.solve(R, Q.T)
    # f = y - (1-p) W^-1 Q gamma with (p R + (1-p) Q' W^-1 Q) gamma = p... solved in the dual, which is the better conditioned form
    M = p * R + (1 - p) * Q.T @ np.diag(1 / w) @ Q
    g = np.linalg.solve(M, Q.T @ y)
    return y - (1 - p) * (Q @ g) / w, K, w


def natural(x, f, t):
    if len(x) == 2:
        return f[0] + (f[1] - f[0]) * (t - x[0]) / (x[1] - x[0])
    return si.CubicSpline(x, f, bc_type='natural')(t)


@family(shards=2)
def smooth_spline(ctx):
    rng = ctx.rng
    for _ in ctx.loop(90):
        n = int(rng.choice([2, 3, 4, 5, 8, 15, 30]))
        ints = bool(rng.random() < 0.3)
        x = abscissae(rng, n, ints)
        y = ordinates(rng, x)
        if ints and rng.random() < 0.5:
            y = np.rint(y).astype(int)
        p = float(rng.choice([0., 1., rng.uniform(0.01, 0.99), 1 - 10 ** rng.uniform(-6, -1), 10 ** rng.uniform(-6, -1)]))
        vk = str(rng.choice(['one', 'scalar', 'array']))
        var = 1 if vk == 'one' else float(10 ** rng.uniform(-2, 1)) if vk == 'scalar' else 10 ** rng.uniform(-1, 1, n)
        order = rng.permutation(n) if rng.random() < 0.4 else np.arange(n)
        extrap = bool(rng.random() < 0.6)
        with ctx.case(n=n, p=p, var=vk, ints=ints, sorted=bool(np.all(order == np.arange(n))), extrap=extrap):
            xs, ys = x[order], y[order]
            vs = var[order] if vk == 'array' else var
            if rng.random() < 0.3:
                xs, ys = xs.tolist(), ys.tolist()
            else:
                fr = ctx.frozen('spline:arguments_changed', xs, ys)
                fr.__enter__()
            pp = wi.SmoothSpline(xs, ys, p=p, lin_extrap=extrap, var=vs)
            scale = 1 + np.abs(y).max()
            if n > 2:
                f, K, w = penalised(np.asarray(x, float), np.asarray(y, float), p, var)
            else:
                f = np.asarray(y, float)
            tol = 1e-7
            ctx.close(pp(x) / scale, f / scale, 'spline:knots', tol, tol, msg='values at the knots, n=%d p=%g' % (n, p))
            t = rng.uniform(x[0], x[-1], 25)
            ctx.close(pp(t) / scale, natural(np.asarray(x, float), f, t) / scale, 'spline:between', tol, tol)
            if p == 1:
                ctx.close(pp(x) / scale, y / scale, 'spline:interpolates', 1e-9, 1e-9)
            if p == 0 and n > 2:
                ww = np.broadcast_to(1 / np.sqrt(var), n)
                c = np.polynomial.Polynomial.fit(x, y, 1, w=ww)
                ctx.close(pp(t) / scale, c(t) / scale, 'spline:least_squares_line', tol, tol)
            if extrap:
                L = x[-1] - x[0]
                cs = si.CubicSpline(x, f, bc_type='natural') if n > 2 else None
                for t0, sgn in ((float(x[0]), -1), (float(x[-1]), 1)):
                    sl = float(cs(t0, 1)) if cs is not None else (f[1] - f[0]) / L
                    far = t0 + sgn * L * np.array([0.1, 0.7, 3.])
                    f0 = float(natural(np.asarray(x, float), f, np.array([t0]))[0])
                    s2 = scale + abs(sl) * 3 * L
                    ctx.close(pp(far) / s2, (f0 + sl * (far - t0)) / s2, 'spline:linear_outside', 1e-6, 1e-6)
            if n > 2 and p > 0:
                crit = lambda z: p * np.sum(w * (y - z) ** 2) + (1 - p) * z @ K @ z
                c0 = crit(pp(np.asarray(x, float)))
                z = f + rng.normal(size=n) * 1e-2 * np.std(f + 1e-3 * x)
                ctx.ok(c0 <= crit(z) * (1 + 1e-6) + 1e-9, 'spline:minimum', 'a perturbed curve has a smaller criterion: %r < %r' % (crit(z), c0))


@family()
def automatic_smoothing(ctx):
    """p=None: still a minimiser of the criterion, for one p in (0, 1)."""
    rng = ctx.rng
    for _ in ctx.loop(30):
        n = int(rng.randint(5, 25))
        x = np.cumsum(rng.uniform(0.5, 1.5, n)) * 10 ** rng.uniform(-1, 1)
        y = ordinates(rng, x, 'noise')
        with ctx.case(n=n):
            pp = wi.SmoothSpline(x, y)
            f = pp(x)
            _f, K, w = penalised(x, y, 0.5, 1)
            r, k = w * (y - f), K @ f
            lam = r @ k / (k @ k)
            ctx.ok(lam >= -1e-12, 'spline:auto_sign', 'lam=%r' % lam)
            s = np.abs(y).max() + np.abs(f).max()
            ctx.close(r / s, lam * k / s, 'spline:auto_optimal', 1e-5, 1e-7)
            ctx.close(wi.SmoothSpline(x, y, p=-1)(x) / s, f / s, 'spline:auto_negative_p', 1e-9, 1e-9)
            c = float(10 ** rng.uniform(-1, 1))
            ctx.close(wi.SmoothSpline(x, c * y)(x) / (c * s), f / s, 'spline:auto_linear', 1e-8, 1e-8)


@family()
def spline_of_matrix(ctx):
    rng = ctx.rng
    for _ in ctx.loop(3):
        x = abscissae(rng, 6)
        y = rng.normal(size=(2, 6))
        with ctx.case():
            try:
                got = wi.SmoothSpline(x, y, p=1)(x)
                good = np.allclose(got, y)
            except Exception:
                good = False
            ctx.ok(good, 'spline:matrix', 'y given as a matrix is not interpolated')


# ---------------------------------------------------------------- slopes
def ref_slopes(method, x, y, tension):
    h, s = np.diff(x), np.diff(y) / np.diff(x)
    n = len(x)
    if n == 2:
        k = (1 - tension) if method == 'Cardinal' else 1.
        return np.array([s[0], s[0]]) * k
    yp = np.empty(n)
    if method in ('Catmull-Rom', 'Cardinal'):
        k = (1 - tension) if method == 'Cardinal' else 1.
        yp[1:-1] = (y[2:] - y[:-2]) / (x[2:] - x[:-2])
        yp[0], yp[-1] = s[0], s[-1]
        return yp * k
    if method == 'secant':
        yp[1:-1] = (s[1:] + s[:-1]) / 2
        yp[0], yp[-1] = s[0], s[-1]
        return yp
    if method == 'akima':
        if n == 2:
            return np.array([s[0], s[0]])
        return si.Akima1DInterpolator(x, y)(x, 1) if n > 2 else None
    if method in ('pchip', 'fritsch'):
        yp = si.PchipInterpolator(x, y)(x, 1)
        if method == 'fritsch':
            yp[0], yp[-1] = 2 * s[0] - yp[1], 2 * s[-1] - yp[-2]
        return yp
    par = (s[:-1] * h[1:] + s[1:] * h[:-1]) / (h[1:] + h[:-1])
    if method == 'parabola':
        yp[1:-1] = par
        yp[0], yp[-1] = 2 * s[0] - par[0], 2 * s[-1] - par[-1]
        return yp
    if method == 'steffen':
        for i in range(1, n - 1):
            if s[i - 1] * s[i] <= 0:
                yp[i] = 0
            else:
                yp[i] = np.sign(s[i]) * min(2 * abs(s[i - 1]), 2 * abs(s[i]), abs(par[i - 1]))
        for j, a, b, ha, hb in ((0, s[0], s[1], h[0], h[1]), (n - 1, s[-1], s[-2], h[-1], h[-2])):
            p = a * (1 + ha / (ha + hb)) - b * ha / (ha + hb)
            yp[j] = 0 if p * a <= 0 else 2 * a if abs(p) > 2 * abs(a) else p
        return yp
    # Stineman: the steps of each segment weighted with the squared length of the other
    l2 = h ** 2 + np.diff(y) ** 2
    w0, w1 = l2[1:] * h[:-1], l2[:-1] * h[1:]
    yp[1:-1] = (s[:-1] * w0 + s[1:] * w1) / (w0 + w1)
    for j, k, a in ((0, 1, s[0]), (n - 1, n - 2, s[-1])):
        d = a - yp[k]
        yp[j] = 2 * a - yp[k] if a * d >= 0 else a + abs(a) * d / (abs(a) + abs(d))
    return yp


def hermite_min_rate(h, y0, y1, d0, d1):
    """Smallest derivative of the cubic with these end values and slopes (exact: end points and vertex)."""
    s = (y1 - y0) / h
    a, b, c = 3 * (d0 + d1 - 2 * s), 2 * (3 * s - 2 * d0 - d1), d0
    v = [d0, d1]
    if a != 0 and 0 < -b / (2 * a) < 1:
        u = -b / (2 * a)
        v.append(a * u * u + b * u + c)
    return min(v)


@family(shards=2)
def slope_formulas(ctx):
    rng = ctx.rng
    for _ in ctx.loop(80):
        n = int(rng.choice([2, 3, 4, 6, 12]))
        x = abscissae(rng, n, bool(rng.random() < 0.3))
        y = ordinates(rng, x)
        tension = float(rng.choice([0., 0.3, 1.]))
        with ctx.case(n=n, tension=tension):
            xf = np.asarray(x, float)
            s = np.abs(np.diff(y) / np.diff(xf)).max() + 1e-12
            for m in METHODS:
                name = m if rng.random() < 0.5 else m.lower()
                with ctx.frozen('slopes:arguments_changed', x, y):
                    got = wi.slopes(x, y, method=name, tension=tension)
                want = ref_slopes(m, xf, y, tension)
                if m == 'stineman' and n > 2:
                    # what the paper fixes: between the two secants, equal to them when they agree
                    sec = np.diff(y) / np.diff(xf)
                    lo, hi = np.minimum(sec[1:], sec[:-1]), np.maximum(sec[1:], sec[:-1])
                    ctx.ok(np.all(got[1:-1] >= lo - 1e-9 * s) and np.all(got[1:-1] <= hi + 1e-9 * s), 'slopes:stineman_between', 'outside the two secants')
                ctx.close(got / s, want / s, 'slopes:' + m, 1e-8, 1e-8, msg='%s n=%d' % (m, n))
                # equivariance
                c, a0 = float(rng.uniform(0.2, 5)), float(rng.normal() * 4)
                ctx.close(wi.slopes(xf + a0, y, method=m, tension=tension) / s, got / s, 'slopes:shift_x', 1e-5, 1e-6)
                ctx.close(wi.slopes(xf, -y, method=m, tension=tension) / s, -got / s, 'slopes:negate_y:' + m, 1e-9, 1e-9)
                ctx.close(wi.slopes(-xf[::-1], y[::-1], method=m, tension=tension) / s, -got[::-1] / s, 'slopes:reflect_x:' + m, 1e-8, 1e-8)
                if m != 'stineman':
                    ctx.close(wi.slopes(xf, c * y, method=m, tension=tension) / (c * s), got / s, 'slopes:scale_y', 1e-8, 1e-8)
                    ctx.close(wi.slopes(c * xf, y, method=m, tension=tension) * c / s, got / s, 'slopes:scale_x', 1e-8, 1e-8)
                gs = wi.slopes(xf, y, method=m, tension=tension, scale=True)
                ctx.close(wi.slopes(c * xf, y * 7, method=m, tension=tension, scale=True) * c / (7 * s), gs / s, 'slopes:scaled_option', 1e-8, 1e-8)
                if m != 'stineman':
                    ctx.close(gs / s, got / s, 'slopes:scaled_option_same', 1e-8, 1e-8)
            q = np.polyval(rng.normal(size=3), (xf - xf[0]) / (xf[-1] - xf[0]))
            if n > 2:
                dq = wi.slopes(xf, q, method='parabola')
                c3 = np.polyfit((xf - xf[0]) / (xf[-1] - xf[0]), q, 2)
                ctx.close(dq * (xf[-1] - xf[0]), np.polyval(np.polyder(c3), (xf - xf[0]) / (xf[-1] - xf[0])), 'slopes:parabola_exact', 1e-6, 1e-6)
    with ctx.case(kind='refuses'):
        ctx.raises(ValueError, lambda: wi.slopes([0, 1, 1, 2], [1, 2, 3, 4]), 'slopes:repeated_x')
        ctx.raises(ValueError, lambda: wi.slopes([0, 2, 1, 3], [1, 2, 3, 4]), 'slopes:unsorted_x')


@family(shards=2)
def monotone_slopes(ctx):
    """slopes(monotone=True) on monotone data: no cubic piece turns back."""
    rng = ctx.rng
    for _ in ctx.loop(120):
        n = int(rng.choice([2, 3, 4, 6, 12, 30]))
        x = abscissae(rng, n)
        up = bool(rng.random() < 0.5)
        y = ordinates(rng, x, str(rng.choice(['mono', 'flat']))) * (1 if up else -1)
        if rng.random() < 0.4:
            y = np.sign(y) * np.abs(y) ** 3
        with ctx.case(n=n, up=up):
            s = np.abs(np.diff(y) / np.diff(x)).max() + 1e-12
            for m in METHODS:
                d = wi.slopes(x, y, method=m, monotone=True)
                sg = 1 if up else -1
                worst = min(hermite_min_rate(x[i + 1] - x[i], sg * y[i], sg * y[i + 1], sg * d[i], sg * d[i + 1]) for i in range(n - 1))
                ctx.ok(worst >= -1e-9 * s, 'slopes:monotone:' + m, '%s: derivative %r on monotone data' % (m, worst))
                flat = np.diff(y) == 0
                ctx.ok(np.all(d[:-1][flat] == 0) and np.all(d[1:][flat] == 0), 'slopes:flat:' + m, 'slope on a flat piece')
                free = wi.slopes(x, y, method=m)
                ctx.ok(np.all(np.abs(d) <= np.abs(free) * (1 + 1e-12)), 'slopes:monotone_only_reduces', m)
                # slopes that are already fine are kept
                al, be = free[:-1] * sg, free[1:] * sg
                sec = sg * np.diff(y) / np.diff(x)
                fine = (al >= 0) & (be >= 0) & (al ** 2 + be ** 2 <= 9 * sec ** 2 * (1 - 1e-9))
                keep = np.concatenate([[True], fine]) & np.concatenate([fine, [True]])
                ctx.close(d[keep] / s, free[keep] / s, 'slopes:monotone_keeps', 1e-12, 1e-12)


# ---------------------------------------------------------------- interpolants
def hermite(x, y, d, t):
    i = np.clip(np.searchsorted(x, t, side='right') - 1, 0, len(x) - 2)
    h = x[i + 1] - x[i]
    u = (t - x[i]) / h
    return ((1 + 2 * u) * (1 - u) ** 2 * y[i] + u * (1 - u) ** 2 * h * d[i] + u * u * (3 - 2 * u) * y[i + 1] + u * u * (u - 1) * h * d[i + 1])


def stineman(x, y, d, t):
    out = np.empty(len(t))
    for k, tk in enumerate(t):
        i = min(max(np.searchsorted(x, tk, side='right') - 1, 0), len(x) - 2)
        s = (y[i + 1] - y[i]) / (x[i + 1] - x[i])
        y0 = y[i] + s * (tk - x[i])
        d1, d2 = (d[i] - s) * (tk - x[i]), (d[i + 1] - s) * (tk - x[i + 1])
        if d1 * d2 == 0:
            out[k] = y0
        elif d1 * d2 > 0:
            out[k] = y0 + d1 * d2 / (d1 + d2)
        else:
            out[k] = y0 + d1 * d2 * (2 * tk - x[i] - x[i + 1]) / ((d1 - d2) * (x[i + 1] - x[i]))
    return out


@family(shards=2)
def interpolants(ctx):
    rng = ctx.rng
    for _ in ctx.loop(90):
        n = int(rng.choice([2, 3, 4, 6, 12, 30]))
        ints = bool(rng.random() < 0.3)
        x = abscissae(rng, n, ints)
        kind = str(rng.choice(['noise', 'mono', 'flat', 'line', 'ties', 'desc', 'smooth']))
        y = ordinates(rng, x, kind)
        given = rng.normal(size=n)
        with ctx.case(n=n, kind=kind, ints=ints):
            xf, yf = np.asarray(x, float), np.asarray(y, float)
            s = 1e-9 + np.abs(y).max()
            xa, ya = (x.tolist(), y.tolist()) if rng.random() < 0.3 else (x, y)
            t = inside(rng, xf)
            m = str(rng.choice(METHODS))
            sl = wi.slopes(x, y, method=m)
            sd = s + np.abs(sl).max() * np.diff(xf).max()
            sg = s + np.abs(given).max() * np.diff(xf).max()
            for cls, default in ((wi.Pchip, 'pchip'), (wi.CubicHermiteSpline, 'Catmull-Rom')):
                f = cls(xa, ya)
                ctx.close(f(xf) / s, yf / s, 'interpolant:through_data', 1e-9, 1e-9, msg=cls.__name__)
                d0 = wi.slopes(x, y, method=default)
                s0 = s + np.abs(d0).max() * np.diff(xf).max()
                ctx.close(f(t) / s0, hermite(xf, yf, d0, t) / s0, 'interpolant:hermite_default', 1e-9, 1e-9, msg=cls.__name__)
                ctx.close(cls(xa, ya, given)(t) / sg, hermite(xf, yf, given, t) / sg, 'interpolant:hermite_given', 1e-9, 1e-9, msg=cls.__name__)
                ctx.close(cls(xa, ya, method=m)(t) / sd, hermite(xf, yf, sl, t) / sd, 'interpolant:hermite_method', 1e-9, 1e-9, msg=cls.__name__)
                ctx.close([float(f(v)) for v in t[:6]], f(t[:6]), 'interpolant:one_by_one', 1e-12, 1e-12)
                ctx.close(cls(xf, yf, given)(xf, 1) / (np.abs(given).max() + s), given / (np.abs(given).max() + s), 'interpolant:slope_at_data', 1e-7, 1e-7)
            f = wi.StinemanInterp(xa, ya)
            ctx.close(f(xf) / s, yf / s, 'stineman:through_data', 1e-9, 1e-9)
            d0 = wi.slopes(x, y)
            s0 = s + np.abs(d0).max() * np.diff(xf).max()
            ctx.close(f(t) / s0, stineman(xf, yf, d0, t) / s0, 'stineman:default', 1e-7, 1e-9)
            ctx.close(wi.StinemanInterp(xa, ya, given)(t) / sg, stineman(xf, yf, given, t) / sg, 'stineman:given', 1e-6, 1e-8)
            ctx.close(wi.StinemanInterp(xa, ya, method=m)(t) / sd, stineman(xf, yf, sl, t) / sd, 'stineman:method', 1e-6, 1e-8)
            dm = wi.slopes(x, y, method=m, monotone=True)
            ctx.close(wi.StinemanInterp(xa, ya, method=m, monotone=True)(t) / sd, stineman(xf, yf, dm, t) / sd, 'stineman:monotone_option', 1e-6, 1e-8)
            ds = wi.slopes(x, y, method=m, scale=True)
            s2 = s + np.abs(ds).max() * np.diff(xf).max()
            ctx.close(wi.StinemanInterp(xa, ya, method=m, scale=True)(t) / s2, stineman(xf, yf, ds, t) / s2, 'stineman:scale_option', 1e-6, 1e-8)
            ctx.close(wi.stineman_interp(t, xa, ya) / s0, f(t) / s0, 'stineman:function_is_class', 1e-12, 1e-12)
            ctx.close(wi.stineman_interp(t, xa, ya, given.tolist()) / sg, wi.StinemanInterp(x, y, given)(t) / sg, 'stineman:function_given', 1e-12, 1e-12)
            ctx.close([float(f(v)) for v in t[:6]], f(t[:6]), 'stineman:one_by_one', 1e-12, 1e-12)
            ctx.close(f(np.sort(t)[::-1])[::-1], f(np.sort(t)), 'stineman:any_order', 1e-12, 1e-12)
            if kind == 'line':
                b = (yf[-1] - yf[0]) / (xf[-1] - xf[0])
                tt = np.concatenate([t, [xf[0] - 1, xf[-1] + 1]])
                want = (yf[0] + b * (tt - xf[0])) / (s + abs(b))
                for nm, g in (('pchip', wi.Pchip(xa, ya)), ('hermite', wi.CubicHermiteSpline(xa, ya)), ('stineman', f)):
                    ctx.close(g(tt) / (s + abs(b)), want, 'interpolant:line:' + nm, 1e-7, 1e-7)
            if kind in ('mono', 'flat', 'desc'):
                sgn = -1 if kind == 'desc' else 1
                u = np.unique(np.concatenate([t, np.linspace(xf[0], xf[-1], 400)]))
                for nm, g in (('pchip', wi.Pchip(xa, ya)), ('steffen', wi.Pchip(xa, ya, method='steffen'))):
                    v = sgn * g(u)
                    ctx.ok(np.all(np.diff(v) >= -1e-9 * s), 'interpolant:monotone:' + nm, '%s turns back by %r on monotone data' % (nm, np.diff(v).min()))
                    ctx.ok(v.min() >= (sgn * yf).min() - 1e-9 * s and v.max() <= (sgn * yf).max() + 1e-9 * s, 'interpolant:range:' + nm, 'outside the data range')
            else:
                # pchip and Steffen: extrema only at data points, whatever the data
                for nm, g in (('pchip', wi.Pchip(xa, ya)), ('steffen', wi.Pchip(xa, ya, method='steffen'))):
                    for i in range(min(n - 1, 12)):
                        v = g(np.linspace(xf[i], xf[i + 1], 30)) * (1 if yf[i + 1] >= yf[i] else -1)
                        ctx.ok(np.all(np.diff(v) >= -1e-9 * s), 'interpolant:piece_monotone:' + nm, '%s piece %d' % (nm, i))


@family()
def stineman_shape(ctx):
    """What Stineman states: data with monotone secants give a curve with a monotone slope, monotone where the data are."""
    rng = ctx.rng
    for _ in ctx.loop(60):
        n = int(rng.choice([3, 4, 6, 12]))
        x = np.asarray(abscissae(rng, n), float)
        sec = np.cumsum(rng.exponential(size=n - 1)) * rng.choice([-1, 1])
        mono = bool(rng.random() < 0.6)
        if not mono:
            sec = sec - np.median(sec)
        y = np.concatenate([[0], np.cumsum(sec * np.diff(x))]) * 10 ** rng.uniform(-1, 1) + rng.normal()
        m = str(rng.choice(['stineman', 'parabola', 'default']))
        with ctx.case(n=n, mono=mono, method=m):
            f = wi.StinemanInterp(x, y) if m == 'default' else wi.StinemanInterp(x, y, method=m)
            u = np.linspace(x[0], x[-1], 600)
            v = f(u)
            s = np.ptp(y)
            sg = np.sign(sec[-1] - sec[0]) if n > 2 else 1
            rate = np.diff(v) / np.diff(u)
            ctx.ok(np.all(sg * np.diff(rate) >= -1e-7 * np.abs(rate).max()), 'stineman:convex', 'the slope does not change monotonically (%s)' % m)
            if mono:
                ctx.ok(np.all(np.sign(sec[0]) * np.diff(v) >= -1e-9 * s) or m == 'parabola', 'stineman:monotone', 'turns back on monotone data with monotone secants')


@family()
def interp3(ctx):
    rng = ctx.rng
    for _ in ctx.loop(6):
        x, y, z = [np.sort(rng.uniform(0, 1, int(rng.randint(5, 8)))) + np.arange(1) for _k in range(3)]
        x, y, z = [np.cumsum(rng.uniform(0.2, 1, int(rng.randint(5, 8)))) for _k in range(3)]
        c = rng.normal(size=(2, 2, 2))
        fun = lambda a, b, d: sum(c[i, j, k] * a ** i * b ** j * d ** k for i in range(2) for j in range(2) for k in range(2))
        with ctx.case(shape=[len(x), len(y), len(z)]):
            v = fun(x[:, None, None], y[None, :, None], z[None, None, :])
            xi, yi, zi = rng.uniform(x[0], x[-1], 3), rng.uniform(y[0], y[-1], 4), rng.uniform(z[0], z[-1], 2)
            for m in ('linear', 'cubic'):
                ctx.close(wi.interp3(x, y, z, v, xi, yi, zi, method=m), fun(xi[:, None, None], yi[None, :, None], zi[None, None, :]), 'interp3:' + m,
                          1e-8, 1e-8)
