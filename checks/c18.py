"""C18: polynomial and Chebyshev algebra against numpy.polynomial, exact evaluation and round trips."""
from fractions import Fraction

import numpy as np
import numpy.polynomial.chebyshev as C

import wafo.polynomial as wp
from vlib.harness import family

RULE = ("the value of every transformed polynomial at random points is compared with the operation applied to the value of the original, evaluated by "
        "numpy.polyval / numpy.polynomial.chebyshev or in exact rational arithmetic; conversions are run forth and back; fits are compared with the "
        "function they were fitted to")
ASSUMPTIONS = ["numpy.polyval, numpy.polynomial.chebyshev and numpy.linalg.lstsq are right",
               "degrees up to about 12 (power form) and 30 (Chebyshev form), coefficients and intervals of moderate size"]


def coefs(rng, deg=None, allow_zero_lead=True):
    deg = int(rng.randint(0, 9)) if deg is None else deg
    kind = rng.choice(['int', 'float', 'sparse', 'lead'])
    if kind == 'int':
        p = rng.randint(-5, 6, deg + 1)
    elif kind == 'float':
        p = rng.normal(size=deg + 1)
    else:
        p = rng.randint(-3, 4, deg + 1) * rng.uniform(0.5, 2, deg + 1) * (rng.rand(deg + 1) < 0.6)
        if kind == 'lead' and deg > 0 and allow_zero_lead:
            p[0] = 0
    return p


def val(p, x):
    return np.polyval(np.asarray(p, float), np.asarray(x, float))


def size(p, x):
    return 1e-300 + 1 + val(np.abs(np.asarray(p, float)), np.abs(x))


def forms(rng, p):
    """The same polynomial as list, array or poly1d."""
    return [list(np.asarray(p)), np.asarray(p), np.poly1d(p)][int(rng.randint(0, 3))]


def interval(rng):
    k = rng.randint(0, 4)
    if k == 0:
        return -1, 1
    if k == 1:
        a = int(rng.randint(-5, 5))
        return a, a + int(rng.randint(1, 6))
    a = float(rng.normal() * 2)
    return a, a + float(10 ** rng.uniform(-0.7, 0.7))


@family(shards=2)
def calculus(ctx):
    rng = ctx.rng
    for _ in ctx.loop(150):
        p = coefs(rng)
        q = forms(rng, p)
        m = int(rng.randint(0, 5))
        k = [None, float(rng.normal()), list(rng.normal(size=max(m, 1)))][int(rng.randint(0, 3))]
        x = rng.uniform(-2, 2, 12)
        with ctx.case(deg=len(p) - 1, m=m, form=type(q).__name__, k=type(k).__name__):
            with ctx.frozen('calculus:argument_changed', np.asarray(p)):
                d = wp.polyder(q, m)
                s = wp.polyint(q, m, k)
            ref = np.polyder(np.poly1d(p), m)
            ctx.close(val(d, x), ref(x), 'polyder:value', 1e-10, 1e-10 * np.abs(ref.coeffs).sum() * 2. ** 9)
            ctx.ok(isinstance(d, np.poly1d) == isinstance(q, np.poly1d) and isinstance(s, np.poly1d) == isinstance(q, np.poly1d), 'calculus:type',
                   'poly1d in, poly1d out')
            back = wp.polyder(s, m)
            ctx.close(val(back, x) / size(p, x), val(p, x) / size(p, x), 'polyint:derivative_back', 1e-10, 1e-10)
            kk = np.zeros(m) if k is None else np.atleast_1d(k) if np.size(k) >= m else np.ones(m) * k
            for j in range(m):
                # the j-th derivative at zero is k[m-j-1]
                ctx.close(val(wp.polyder(s, j), 0.), kk[m - j - 1], 'polyint:constants', 1e-10, 1e-12)
            if m and k is None:
                a, b = -1.3, 0.7
                if m == 1:
                    xg, wg = np.polynomial.legendre.leggauss(12)
                    want = np.sum(wg * val(p, (xg + 1) / 2 * (b - a) + a)) * (b - a) / 2
                    ctx.close(val(s, b) - val(s, a), want, 'polyint:definite', 1e-9, 1e-9 * size(p, 1.3))
            ctx.raises(ValueError, lambda: wp.polyder(p, -1), 'polyder:negative')
            ctx.raises(ValueError, lambda: wp.polyint(p, -1), 'polyint:negative')


@family()
def columns(ctx):
    """Matrices of column polynomials are transformed column by column."""
    rng = ctx.rng
    for _ in ctx.loop(80):
        deg, nc = int(rng.randint(0, 6)), int(rng.randint(2, 5))
        ints = bool(rng.rand() < 0.4)
        P = rng.randint(-4, 5, (deg + 1, nc)) if ints else rng.normal(size=(deg + 1, nc))
        dx, dy, sx, sy = rng.normal(size=4)
        sx, sy = sx + 2 * np.sign(sx), sy + np.sign(sy)
        m = int(rng.randint(1, 3))
        x = rng.uniform(-2, 2, 6)
        with ctx.case(deg=deg, nc=nc, ints=ints, m=m):
            D, I, R, S = wp.polyder(P, m), wp.polyint(P, m), wp.polyreloc(P, dx, dy), wp.polyrescl(P, sx, sy)
            for j in range(nc):
                p = P[:, j]
                s = size(p, 5.)
                if m <= deg:
                    ctx.close(val(D[:, j], x) / s, np.polyder(np.poly1d(p), m)(x) / s, 'columns:polyder', 1e-9, 1e-9)
                ctx.close(val(I[:, j], x) / s, np.polyint(np.poly1d(p), m)(x) / s, 'columns:polyint', 1e-9, 1e-9)
                ctx.close(val(R[:, j], x) / s, (val(p, x - dx) + dy) / s, 'columns:polyreloc', 1e-9, 1e-9)
                ctx.close(val(S[:, j], x) / s, sy * val(p, x / sx) / s, 'columns:polyrescl', 1e-8, 1e-8)


@family()
def moving(ctx):
    rng = ctx.rng
    for _ in ctx.loop(200):
        p = coefs(rng)
        q = forms(rng, p)
        dx = float(rng.choice([rng.normal(), 0.5, -1, 2, 0]))
        dy = float(rng.choice([rng.normal(), 0.5, 3, 0]))
        sx, sy = float(rng.choice([rng.uniform(0.3, 3), -0.5, 2])), float(rng.choice([rng.normal(), 0.25, -2]))
        a, b = interval(rng)
        x = rng.uniform(-2, 2, 10)
        with ctx.case(deg=len(p) - 1, dx=dx, dy=dy, form=type(q).__name__):
            with ctx.frozen('moving:argument_changed', np.asarray(p)):
                r, s = wp.polyreloc(q, dx, dy), wp.polyrescl(q, sx, sy)
                f, g = wp.polyshift(np.asarray(p), a, b), wp.polyishift(np.asarray(p), a, b)
            n = size(p, 3 + abs(dx))
            ctx.close(val(r, x) / n, (val(p, x - dx) + dy) / n, 'polyreloc:value', 1e-9, 1e-9, msg='dx=%g dy=%g' % (dx, dy))
            n = size(p, 2 / abs(sx))
            ctx.close(val(s, x) / n, sy * val(p, x / sx) / n, 'polyrescl:value', 1e-9, 1e-9)
            ctx.ok(isinstance(r, np.poly1d) == isinstance(q, np.poly1d) == isinstance(s, np.poly1d), 'moving:type', 'poly1d in, poly1d out')
            # shift: [a, b] <-> [-1, 1]
            y = rng.uniform(-1, 1, 8)
            t = 0.5 * (a + b) + 0.5 * (b - a) * y
            L = (abs(a) + abs(b) + 2) / (b - a) * 2
            n = size(p, 1 + L)
            ctx.close(val(f, t) / n, val(p, y) / n, 'polyshift:value', 1e-8, 1e-8)
            n = size(p, abs(a) + abs(b) + 1)
            ctx.close(val(g, y) / n, val(p, t) / n, 'polyishift:value', 1e-9, 1e-9)
            ctx.close(wp.map_from_interval(t, a, b), y, 'map:from', 1e-9, 1e-9 * L)
            ctx.close(wp.map_to_interval(y, a, b), t, 'map:to', 1e-12, 1e-12)
            tr = wp.polytrim(np.asarray(p))
            ctx.close(val(tr, x), val(p, x), 'polytrim:value', 1e-12, 1e-12)
            ctx.ok(len(tr) == 0 or tr[0] != 0, 'polytrim:leading', 'leading zero kept')
            P2 = np.vstack([np.zeros((2, 2)), rng.normal(size=(2, 2)) * [1, 0]])
            ctx.equal(wp.polytrim(P2), P2[2:], 'polytrim:columns')


@family()
def strings(ctx):
    rng = ctx.rng
    for _ in ctx.loop(250):
        deg = int(rng.randint(0, 7))
        p = rng.randint(-3, 4, deg + 1).astype(float) * (rng.rand(deg + 1) < 0.7)
        if rng.rand() < 0.4:
            p = p * np.round(rng.uniform(0.1, 9, deg + 1), 3)
        v = str(rng.choice(['x', 's', 'zz']))
        with ctx.case(p=p.tolist(), var=v):
            x = Fraction(int(rng.randint(-7, 8)), 4)
            want = sum(Fraction(float(c)) * x ** (deg - i) for i, c in enumerate(p))
            h = wp.poly2hstr(p, v)
            s = wp.poly2str(p, v)
            env = {v: float(x)}
            scale = 1 + sum(abs(float(c)) * abs(float(x)) ** (deg - i) for i, c in enumerate(p))
            ctx.close(eval(h, {}, env) / scale, float(want) / scale, 'poly2hstr:value', 1e-12, 1e-12, msg='%s -> %s' % (p.tolist(), h))
            ctx.close(eval(s, {}, env) / scale, float(want) / scale, 'poly2str:value', 1e-3, 1e-3, msg='%s -> %s' % (p.tolist(), s))


# ---------------------------------------------------------------- Chebyshev form, coefficients from the highest degree down
def cval(ck, x, a, b, kind=1):
    y = (2 * np.asarray(x, float) - (a + b)) / (b - a)
    lo = np.asarray(ck, float)[::-1]
    if kind == 1:
        return C.chebval(y, lo)
    th = np.arccos(np.clip(y, -1, 1))
    return sum(c * np.where(np.abs(np.sin(th)) < 1e-9, (k + 1) * np.sign(np.cos(th)) ** k, np.sin((k + 1) * th) / np.where(np.sin(th) == 0, 1, np.sin(th)))
               for k, c in enumerate(lo))


@family(shards=2)
def chebyshev(ctx):
    rng = ctx.rng
    for _ in ctx.loop(150):
        n = int(rng.choice([1, 2, 3, 4, 5, 8, 12]))
        ck = np.asarray(coefs(rng, n - 1, allow_zero_lead=True))
        a, b = interval(rng)
        x = rng.uniform(a, b, 15)
        s = 1 + np.abs(ck).sum()
        with ctx.case(n=n, a=a, b=b, dtype=str(ck.dtype)):
            arg = ck.tolist() if rng.rand() < 0.3 else ck
            with ctx.frozen('cheb:argument_changed', ck, x):
                v = wp.chebval(x, arg, a, b)
                d, i = wp.chebder(arg, a, b), wp.chebint(arg, a, b)
                pw = wp.cheb2poly(arg, a, b)
            ctx.close(v / s, cval(ck, x, a, b) / s, 'chebval:value', 1e-9, 1e-9)
            ctx.close(wp.chebval(x, arg, a, b, kind=2) / (n * s), cval(ck, x, a, b, 2) / (n * s), 'chebval:second_kind', 1e-6, 1e-6)
            ctx.close([float(np.squeeze(wp.chebval(t, arg, a, b))) for t in x[:4]], v[:4], 'chebval:one_by_one', 1e-12, 1e-12 * s)
            # outside the interval, and with a fill value
            xo = np.concatenate([x, [a, b, a - 0.5, b + 0.25, a - 3 * (b - a)]])
            fill = [np.nan, -9, 2.5][int(rng.randint(0, 3))]
            inside = (a <= xo) & (xo <= b)
            ctx.close(wp.chebval(xo, arg, a, b, fill=fill) / s, np.where(inside, cval(ck, xo, a, b), fill) / s, 'chebval:fill', 1e-9, 1e-9)
            # calculus
            lo = ck[::-1].astype(float)
            want = C.chebder(lo, scl=2 / (b - a))
            ctx.close(wp.chebval(x, d, a, b) / (s * n * n * 2 / (b - a)) if len(d) else 0 * x,
                      C.chebval((2 * x - a - b) / (b - a), want) / (s * n * n * 2 / (b - a)), 'chebder:value', 1e-9, 1e-9, msg='n=%d' % n)
            prim = C.chebint(lo, scl=(b - a) / 2)
            iv = wp.chebval(x, i, a, b)
            ref = C.chebval((2 * x - a - b) / (b - a), prim)
            c0 = np.median(iv - ref)
            ctx.close((iv - c0) / (s * (b - a)), ref / (s * (b - a)), 'chebint:value', 1e-9, 1e-9, msg='n=%d' % n)
            ctx.close(wp.chebval(x, wp.chebder(i, a, b), a, b) / s, v / s, 'chebint:derivative_back', 1e-8, 1e-8)
            ctx.close(wp.chebval(a, i, a, b) / (s * (b - a)), np.zeros(1), 'chebint:zero_at_a', 0, 1e-9)
            # power form
            L = (abs(a) + abs(b) + 1) / (b - a) * 2
            big = s * (2 * L + 1) ** (n - 1)
            ctx.close(val(pw, x) / big, v / big, 'cheb2poly:value', 1e-9, 1e-9)
            ctx.ok(len(pw) <= n, 'cheb2poly:length', 'degree raised')
            if len(pw):
                back = wp.poly2cheb(pw, a, b)
                ctx.close(wp.chebval(x, back, a, b) / big, v / big, 'poly2cheb:value', 1e-8, 1e-8)
            p = coefs(rng, n - 1)
            if np.any(np.asarray(p) != 0):
                bb = wp.poly2cheb(p, a, b)
                m = size(p, abs(a) + abs(b))
                ctx.close(wp.chebval(x, bb, a, b) / m, val(p, x) / m, 'poly2cheb:of_power', 1e-9, 1e-9)
                again = wp.cheb2poly(bb, a, b)
                ctx.close(val(again, x) / (m * (2 * L + 1) ** (n - 1)), val(p, x) / (m * (2 * L + 1) ** (n - 1)), 'cheb2poly:round_trip', 1e-9, 1e-9)


@family()
def chebyshev_points(ctx):
    rng = ctx.rng
    for _ in ctx.loop(40):
        n = int(rng.randint(1, 21))
        with ctx.case(n=n):
            for kind in (1, 2):
                r = wp.chebroot(n, kind)
                want = -np.cos((2 * np.arange(n) + 1) * np.pi / (2 * n)) if kind == 1 else -np.cos((np.arange(n) + 1) * np.pi / (n + 1))
                ctx.close(r, want, 'chebroot:value', 1e-12, 1e-12)
                th = rng.uniform(0.05, np.pi - 0.05, 9)
                ref = np.cos(n * th) if kind == 1 else np.sin((n + 1) * th) / np.sin(th)
                ctx.close(wp.chebpoly(n, np.cos(th), kind=kind), ref, 'chebpoly:value', 1e-8, 1e-8)
                ctx.close(wp.chebpoly(n, np.r_[r, 1.], kind=kind), np.r_[0 * r, 1 if kind == 1 else n + 1], 'chebpoly:zero_at_roots', 0, 1e-8 * n * n)
                if n <= 15:
                    x = rng.uniform(-1, 1, 7)
                    ctx.close(val(wp.chebpoly(n, kind=kind), x), wp.chebpoly(n, x, kind=kind), 'chebpoly:coefficients', 1e-6, 1e-8 * 3. ** n)
            e = wp.chebextr(n)
            ctx.close(e, -np.cos(np.pi * np.arange(n + 1) / n), 'chebextr:value', 1e-12, 1e-12)
            ctx.close(wp.chebpoly(n, e), (-1.) ** np.arange(n, -1, -1), 'chebextr:plus_minus_one', 0, 1e-9 * n * n)
            ctx.raises(ValueError, lambda: wp.chebroot(n, 3), 'chebroot:kind')
            x = rng.normal(size=n + 1)
            ctx.close(wp.idct(wp.dct(x)), x, 'dct:inverse', 1e-10, 1e-12)
            ctx.close(wp.dct(wp.idct(x)), x, 'dct:inverse_other', 1e-10, 1e-12)


@family()
def chebyshev_fits(ctx):
    rng = ctx.rng
    for _ in ctx.loop(80):
        n = int(rng.randint(1, 16))
        deg = int(rng.randint(0, n))
        p = rng.normal(size=deg + 1)
        a, b = interval(rng)
        fun = lambda t: cval(p, t, a, b)
        x = rng.uniform(a, b, 12)
        s = 1 + np.abs(p).sum()
        with ctx.case(n=n, deg=deg, a=a, b=b):
            ck = wp.chebfit(fun, n, a, b)
            ctx.ok(len(ck) == n, 'chebfit:length', '%d' % len(ck))
            ctx.close(wp.chebval(x, ck, a, b) / s, fun(x) / s, 'chebfit:value', 1e-9, 1e-9)
            ctx.close(wp.chebfit(fun(wp.map_to_interval(wp.chebroot(n), a, b))) / s, ck / s, 'chebfit:samples', 1e-9, 1e-9)
            g = lambda t: np.exp(-t * t / (1 + abs(a) + abs(b)))
            cg = wp.chebfit(g, n, a, b)
            nodes = wp.map_to_interval(wp.chebroot(n), a, b)
            ctx.close(wp.chebval(nodes, cg, a, b), g(nodes), 'chebfit:interpolates', 1e-9, 1e-9)
            c1 = wp.chebfit_dct(fun, n, (a, b))
            ctx.close(np.ravel(c1) / s, ck[::-1] / s, 'chebfit_dct:one_dim', 1e-9, 1e-9)
            ci = wp.chebinterpolate(lambda t, k: k * C.chebval(t, p[::-1]), n - 1, args=(2.,))
            ctx.close(ci / s, np.r_[2 * p[::-1], np.zeros(n - 1 - deg)] / s, 'chebinterpolate:value', 1e-9, 1e-9)


def nd_value(c, xi):
    """sum c_ijk T_i(x1) T_j(x2) T_k(x3), term by term."""
    out = np.zeros(np.shape(xi[0]))
    for idx in np.ndindex(*c.shape):
        t = c[idx]
        for k, x in zip(idx, xi):
            t = t * np.cos(k * np.arccos(np.clip(x, -1, 1)))
        out = out + t
    return out


@family(shards=2)
def many_dimensions(ctx):
    rng = ctx.rng
    for _ in ctx.loop(40):
        nd = int(rng.randint(1, 4))
        deg = [int(rng.randint(0, 4)) for _k in range(nd)]
        c = rng.normal(size=[d + 1 for d in deg])
        with ctx.case(nd=nd, deg=deg):
            pts = [rng.uniform(-1, 1, 9) for _k in range(nd)]
            want = nd_value(c, pts)
            s = 1 + np.abs(c).sum()
            ctx.close(wp.chebvalnd(c, *pts) / s, want / s, 'chebvalnd:value', 1e-8, 1e-8)
            V = wp.chebvandernd(deg, *pts)
            ctx.close(V @ c.ravel() / s, want / s, 'chebvandernd:value', 1e-8, 1e-8)
            axes = [rng.uniform(-1, 1, int(rng.randint(1, 5))) for _k in range(nd)]
            G = np.meshgrid(*axes, indexing='ij')
            ctx.close(wp.chebgridnd(c, *axes) / s, nd_value(c, G) / s, 'chebgridnd:value', 1e-8, 1e-8)
            # least squares on scattered points in a grid-shaped array
            shp = [d + 1 + int(rng.randint(0, 3)) + 3 // nd for d in deg]
            base = [np.sort(rng.uniform(-1, 1, m)) * 0.1 + np.linspace(-0.9, 0.9, m) for m in shp]
            X = np.meshgrid(*base, indexing='ij')
            F = nd_value(c, X)
            got = wp.chebfitnd(tuple(X), F, deg)
            ctx.close(nd_value(got, pts) / s, want / s, 'chebfitnd:reproduces', 1e-5, 1e-5, msg='shape %s' % (shp,))
            # weighted noisy fit: normal equations hold
            noisy = F + rng.normal(size=F.shape)
            w = rng.uniform(0.2, 2, F.shape)
            for ww in (None, w):
                cf = wp.chebfitnd(tuple(X), noisy, deg, w=ww)
                VX = np.stack([np.prod([np.cos(k * np.arccos(np.clip(x, -1, 1))) for k, x in zip(idx, X)], axis=0).ravel() for idx in np.ndindex(*c.shape)], axis=1)
                W = np.ones(F.size) if ww is None else ww.ravel()
                ref = np.linalg.lstsq(VX * W[:, None], noisy.ravel() * W, rcond=None)[0]
                ctx.close(VX @ cf.ravel(), VX @ ref, 'chebfitnd:least_squares' + ('' if ww is None else '_weighted'), 1e-5, 1e-6 * (1 + np.abs(noisy).max()))
            full = wp.chebfitnd(tuple(X), noisy, deg, full=True)
            ctx.ok(len(full) == 2 and len(full[1]) == 4, 'chebfitnd:full', 'full output')
            # dct fit of a function on a box
            dom = np.ravel([interval(rng) for _k in range(nd)])
            ns = [d + 1 + int(rng.randint(0, 3)) for d in deg]
            fun = lambda *x: nd_value(c, [(2 * xk - dom[2 * k] - dom[2 * k + 1]) / (dom[2 * k + 1] - dom[2 * k]) for k, xk in enumerate(x)])
            cd = wp.chebfit_dct(fun, ns, dom)
            pad = np.zeros(ns)
            pad[tuple(slice(0, d + 1) for d in deg)] = c
            ctx.close(np.reshape(cd, ns) / s if np.size(cd) == np.prod(ns) and np.shape(cd) == tuple(ns) else np.zeros(1), pad / s, 'chebfit_dct:value', 1e-8, 1e-8,
                      msg='n=%s' % (ns,))
            ca = wp.chebfit_dct(lambda *x: x[-1] * fun(*x[:-1]), ns, dom, args=(2.,))
            ctx.close(ca / s, 2 * np.asarray(cd) / s, 'chebfit_dct:args', 1e-9, 1e-9)
    with ctx.case(kind='refuses'):
        ctx.raises(ValueError, lambda: wp.chebvandernd([1, -1], np.zeros(3), np.zeros(3)), 'chebvandernd:negative')
        ctx.raises(ValueError, lambda: wp.chebvandernd([1], np.zeros(3), np.zeros(3)), 'chebvandernd:dims')


@family()
def cheb1d(ctx):
    rng = ctx.rng
    for _ in ctx.loop(80):
        a, b = interval(rng)
        n, m = int(rng.randint(1, 7)), int(rng.randint(1, 7))
        c, d = np.round(rng.normal(size=n) * 4) / 2, np.round(rng.normal(size=m) * 4) / 2
        if c[0] == 0:
            c[0] = 1.5
        if d[0] == 0:
            d[0] = -2.
        if rng.rand() < 0.3:
            c[-1] = 0
            if n == 1:
                c[0] = 1.
        x = rng.uniform(a, b, 8)
        with ctx.case(n=n, m=m, a=a, b=b):
            f, g = wp.Cheb1d(c, a, b), wp.Cheb1d(d, a, b)
            F, G = cval(c, x, a, b), cval(d, x, a, b)
            s = 1 + np.abs(c).sum() + np.abs(d).sum()
            ctx.close(f(x) / s, F / s, 'Cheb1d:value', 1e-10, 1e-10)
            ctx.ok(f.order == n - 1 and len(f.coeffs) == n, 'Cheb1d:order', 'order %r of %d coefficients' % (f.order, n))
            ctx.close((-f)(x) / s, -F / s, 'Cheb1d:neg', 1e-10, 1e-10)
            ctx.close((f + g)(x) / s, (F + G) / s, 'Cheb1d:add', 1e-10, 1e-10)
            ctx.close((f - g)(x) / s, (F - G) / s, 'Cheb1d:sub', 1e-10, 1e-10)
            ctx.close((2.5 - f)(x) / s, (2.5 - F) / s, 'Cheb1d:rsub', 1e-10, 1e-10)
            ctx.close((f + 2.5)(x) / s, (2.5 + F) / s, 'Cheb1d:add_scalar', 1e-10, 1e-10)
            ctx.close(f(x) / s, F / s, 'Cheb1d:operands_unchanged', 1e-10, 1e-10)
            ctx.ok(f == wp.Cheb1d(c, a, b) and f == wp.Cheb1d(f), 'Cheb1d:equal', 'not equal to its copy')
            ctx.ok(not (f != wp.Cheb1d(c, a, b)), 'Cheb1d:not_equal', 'differs from its copy')
            h = wp.Cheb1d(np.r_[c[:-1], c[-1] + 1], a, b)
            ctx.ok(f != h and not (f == h), 'Cheb1d:different', 'equal to another polynomial')
            dv = C.chebval((2 * x - a - b) / (b - a), C.chebder(c[::-1], scl=2 / (b - a)))
            ctx.close(f.deriv()(x) / (s * n * n * 2 / (b - a)), dv / (s * n * n * 2 / (b - a)), 'Cheb1d:deriv', 1e-9, 1e-9)
            ctx.close(f.integ().deriv()(x) / s, F / s, 'Cheb1d:integ', 1e-8, 1e-8)
            k = int(rng.randint(0, n))
            ctx.close(float(f[k]), c[k], 'Cheb1d:getitem', 0, 0)
            ctx.equal(list(f), c.tolist(), 'Cheb1d:iterate')


@family()
def orthogonal(ctx):
    rng = ctx.rng
    for _ in ctx.loop(100):
        N = int(rng.randint(3, 40))
        n = int(rng.randint(0, min(N - 1, 9)))
        x = np.sort(rng.uniform(-1, 1, N)) * 10 ** rng.uniform(-1, 1) + rng.normal()
        if rng.rand() < 0.3:
            x = np.arange(N) - int(rng.randint(0, N))
        x = x[rng.permutation(N)]
        y = np.cos(3 * (x - x.min()) / np.ptp(x)) + 0.3 * rng.normal(size=N)
        with ctx.case(N=N, n=n):
            with ctx.frozen('ortho:argument_changed', x, y):
                p = wp.orthofit(x, y, n)
            u = (x - x.mean()) / np.ptp(x)
            ref = np.polynomial.Polynomial.fit(x, y, n)
            t = rng.uniform(x.min(), x.max(), 10)
            ctx.close(wp.orthoval(p, x), ref(x), 'orthofit:least_squares', 1e-6, 1e-6)
            ctx.close(wp.orthoval(p, t), ref(t), 'orthoval:between', 1e-5, 1e-5 * (1 + np.abs(ref(t)).max()))
            ctx.close(wp.orthoval(p, t.reshape(2, 5)), wp.orthoval(p, t).reshape(2, 5), 'orthoval:shape', 1e-12, 1e-12)
            pw = wp.ortho2poly(p)
            if n <= 6:
                big = size(pw, np.abs(x).max())
                ctx.close(val(pw, t) / big, wp.orthoval(p, t) / big, 'ortho2poly:value', 1e-8, 1e-8)
            # polynomial data is reproduced
            q = rng.normal(size=n + 1)
            z = np.polyval(q, u)
            ctx.close(wp.orthoval(wp.orthofit(x, z, n), x), z, 'orthofit:reproduces', 1e-7, 1e-7)


@family()
def best_degree(ctx):
    rng = ctx.rng
    for _ in ctx.loop(30):
        N = int(rng.randint(30, 120))
        d = int(rng.randint(0, 6))
        x = np.sort(rng.uniform(-1, 1, N))
        y = C.chebval(x, rng.normal(size=d + 1) + 2 * np.sign(rng.normal(size=d + 1))) + 0.05 * rng.normal(size=N)
        with ctx.case(N=N, d=d):
            def aic(n):
                f = C.chebval(x, C.chebfit(x, y, n))
                return 2 * (n + 1) * (1 + (n + 2) / (N - n - 2)) + N * (np.log(2 * np.pi * np.sum((f - y) ** 2) / N) + 1)
            got = wp.polydeg(x, y)
            best, a0, miss, n = 0, aic(0), 0, 1
            vals = [a0]
            while miss < 8 and n < N:
                v = aic(n)
                vals.append(v)
                if v >= a0:
                    miss += 1
                else:
                    miss, a0, best = 0, v, n
                n += 1
            ctx.ok(got == best or abs(aic(got) - a0) < 1e-6, 'polydeg:minimum', 'degree %r, the criterion is smallest at %r' % (got, best))


@family()
def rational(ctx):
    rng = ctx.rng
    for _ in ctx.loop(60):
        m, k = int(rng.randint(0, 4)), int(rng.randint(1, 4))
        num = rng.normal(size=m + 1)
        num[0] += np.sign(num[0])
        roots = [(2 + rng.rand() * 2) * rng.choice([-1, 1]) for _k in range(k)]
        den = np.poly(roots)
        den = den / den[-1]
        with ctx.case(m=m, k=k):
            # series of num/den, exactly enough terms
            nt = m + k + 1
            c = np.zeros(nt)
            nl, dl = num[::-1], den[::-1]
            for i in range(nt):
                c[i] = (nl[i] if i <= m else 0) - sum(dl[j] * c[i - j] for j in range(1, min(i, k) + 1))
            p, q = wp.padefit(c[::-1], k)
            x = rng.uniform(-1, 1, 9)
            f = val(num, x) / val(den, x)
            ctx.close(p(x) / q(x), f, 'padefit:value', 1e-6, 1e-6 * (1 + np.abs(num).sum()))
            ctx.ok(len(p.coeffs) <= m + 1 and len(q.coeffs) <= k + 1, 'padefit:orders', 'orders')
            a, b = -1., 1.
            fun = lambda t: val(num, t) / val(den, t)
            for ends in (True, False):
                p, q = wp.padefitlsq(fun, m, k, a, b, end_points=ends)
                ctx.close(p(x) / q(x), f, 'padefitlsq:value', 1e-6, 1e-6 * (1 + np.abs(num).sum()))
            npt = 8 * (m + k + 1) + int(rng.choice([0, 5, 17]))
            xs = np.linspace(a, b, npt)
            p, q = wp.padefitlsq(fun(xs), m, k, a, b, x=xs)
            ctx.close(p(x) / q(x), f, 'padefitlsq:samples', 1e-6, 1e-6 * (1 + np.abs(num).sum()), msg='%d points' % npt)
        with ctx.case(kind='smooth', m=m):
            lo, hi = 0., float(rng.uniform(0.5, 2))
            p, q = wp.padefitlsq(np.exp, 3, 2, lo, hi)
            t = rng.uniform(lo, hi, 20)
            ctx.close(p(t) / q(t), np.exp(t), 'padefitlsq:exp', 1e-4, 0)
