"""C16: quadrature rules and adaptive integrators against exact moments and a composite Gauss-Legendre reference."""
import warnings

import numpy as np
import scipy.special as sp

import wafo.integrate as wi
import wafo.integrate_oscillating as wo
from vlib.harness import family

RULE = ("nodes and weights are compared with scipy's eigenvalue rules and with exact moments; adaptive integrators with exact "
        "antiderivatives or a composite 60-point Gauss-Legendre reference; linearity, additivity, sign under reversed limits and "
        "independence of the array shape are judged between executions")
ASSUMPTIONS = ["scipy.special.roots_* and numpy.polynomial.legendre.leggauss are right",
               "smooth integrands (analytic near the interval) unless the end point singularity is one the routine documents",
               "AdaptiveLevin needs the package algopy, which is not installed here: not executed"]

GL = np.polynomial.legendre.leggauss(60)


def panels(fun, a, b, n=40):
    """Composite Gauss-Legendre reference."""
    e = np.linspace(a, b, n + 1)
    h = np.diff(e) / 2
    x = (e[:-1] + h)[:, None] + h[:, None] * GL[0]
    return np.sum(fun(x) * GL[1] * h[:, None])


def standard(wfun, n, alpha, beta):
    """Nodes and weights on the standard interval, ascending."""
    if wfun == 1:
        return sp.roots_legendre(n)
    if wfun == 2:
        return sp.roots_hermite(n)
    if wfun == 3:
        return sp.roots_genlaguerre(n, alpha)
    if wfun == 4:
        return sp.roots_jacobi(n, alpha, beta)
    if wfun == 5:
        return sp.roots_chebyt(n)
    if wfun == 6:
        return sp.roots_chebyu(n)
    al, be = {7: (-0.5, 0.5), 8: (-0.5, 0.), 9: (0.5, 0.)}[wfun]
    x, w = sp.roots_jacobi(n, al, be)
    return (x + 1) / 2, w / 2 ** (al + be + 1)


def mass(wfun, alpha, beta):
    return {1: 2., 2: np.sqrt(np.pi), 3: sp.gamma(alpha + 1), 4: 2 ** (alpha + beta + 1) * sp.beta(alpha + 1, beta + 1), 5: np.pi, 6: np.pi / 2,
            7: np.pi / 2, 8: 2., 9: 2. / 3}[wfun]


def quiet():
    c = warnings.catch_warnings()
    c.__enter__()
    warnings.simplefilter('ignore')
    return c


@family()
def rules(ctx):
    rng = ctx.rng
    for k in ctx.loop(600):
        wfun = 1 + k % 9
        n = int(rng.choice([1, 2, 3, 4, 5, 6, 7, 9, 10, 15, 16, 20, 31, 32]))
        alpha = float(rng.choice([0., 0.5, 1., 2., rng.uniform(-0.5, 2)])) if wfun in (3, 4) else 0.
        beta = float(rng.choice([0., 0.5, 1., alpha, rng.uniform(-0.5, 2)])) if wfun == 4 else 0.
        methods = {1: ['newton', 'newton1', 'eigenvalue'], 2: ['newton', 'eigenvalue'], 3: ['newton', 'eigenvalue'], 4: ['newton', 'eigenvalue']}.get(wfun, [None])
        if wfun == 2 and n > 20 or wfun == 3 and (n > 16 or alpha < 0):
            n = 10
            alpha = abs(alpha)
        method = methods[int(rng.randint(len(methods)))]
        with ctx.case(wfun=wfun, n=n, alpha=alpha, beta=beta, method=method, nontrivial=n > 1):
            via = rng.randint(2)
            if method in (None, 'newton') and via:
                x, w = wi.qrule(n, wfun, alpha, beta)
            elif method is None:
                x, w = getattr(wi, 'q%d_roots' % wfun)(n)
            elif wfun == 1:
                x, w = wi.p_roots(n, method)
            elif wfun == 2:
                x, w = wi.h_roots(n, method)
            elif wfun == 3:
                x, w = wi.la_roots(n, alpha, method)
            else:
                x, w = wi.j_roots(n, alpha, beta, method)
            x, w = np.asarray(x), np.asarray(w)
            ctx.count('rule:%d:%s' % (wfun, method))
            ctx.equal((x.shape, w.shape), ((n,), (n,)), 'rules:shape')
            i = np.argsort(x)
            xs, ws = x[i], w[i]
            xr, wr = standard(wfun, n, alpha, beta)
            ctx.close(xs, xr, 'rules:nodes:%d' % wfun, rtol=1e-9, atol=1e-11)
            ctx.close(ws, wr, 'rules:weights:%d' % wfun, rtol=1e-8, atol=1e-14)
            ctx.ok(np.all(w > 0), 'rules:weights_positive:%d' % wfun, lambda: w)
            lo, hi = {2: (-np.inf, np.inf), 3: (0, np.inf), 7: (0, 1), 8: (0, 1), 9: (0, 1)}.get(wfun, (-1, 1))
            ctx.ok(np.all((lo < x) & (x < hi)), 'rules:nodes_inside:%d' % wfun, lambda: x)
            ctx.close(w.sum(), mass(wfun, alpha, beta), 'rules:mass:%d' % wfun, rtol=1e-10)
            if wfun == 1:
                a = float(rng.normal() * 3)
                b = a + float(rng.exponential() * 3 + 0.1)
                y, v = wi.p_roots(n, method or 'newton', a, b)
                ctx.close(np.sort(y), (a + b) / 2 + (b - a) / 2 * xr, 'rules:interval_nodes', rtol=1e-10, atol=1e-11)
                ctx.close(v.sum(), b - a, 'rules:interval_mass', rtol=1e-11)
                ctx.close(np.sum(v * y ** min(3, 2 * n - 1)), (b ** (1 + min(3, 2 * n - 1)) - a ** (1 + min(3, 2 * n - 1))) / (1 + min(3, 2 * n - 1)),
                          'rules:interval_moment', rtol=1e-9, atol=1e-9)
    with ctx.case(bad='parameters', nontrivial=False):
        ctx.raises(ValueError, lambda: wi.j_roots(3, -1, 0), 'rules:alpha')
        ctx.raises(ValueError, lambda: wi.la_roots(3, -1.5), 'rules:alpha')
        ctx.raises(ValueError, lambda: wi.qrule(3, 10), 'rules:wfun')
        ctx.raises(ValueError, lambda: wi.qrule(3, 0), 'rules:wfun')


def moment(wfun, a, b, alpha, beta, c):
    """int p(x) poly(x) dx with enough nodes of scipy's rule; c: coefficients, lowest first."""
    n = len(c) // 2 + 2
    x, w = standard(wfun, n, alpha, beta)
    P = np.polynomial.polynomial.polyval
    if wfun in (2, 3):
        return np.sum(w * P(x, c))
    if wfun in (7, 8, 9):
        y = a + (b - a) * x
        s = {7: b - a, 8: np.sqrt(b - a), 9: (b - a) ** 1.5}[wfun]
        return np.sum(w * P(y, c)) * s
    y = (a + b) / 2 + (b - a) / 2 * x
    h = (b - a) / 2
    s = {1: h, 4: h ** (alpha + beta + 1), 5: 1., 6: h ** 2}[wfun]
    return np.sum(w * P(y, c)) * s


@family(shards=2)
def uneven(ctx):
    """Several integrals in one call that need different numbers of points."""
    from scipy.integrate import quad
    rng = ctx.rng
    for _ in ctx.loop(40):
        m = int(rng.choice([2, 3, 4, 6]))
        a = rng.uniform(-2, 1, m)
        b = a + 10.0 ** rng.uniform(-3, 0.8, m)
        p, q = rng.uniform(0, 1.5, m), rng.choice([0., 1., 5., 12.], m) * rng.uniform(0.8, 1.2, m)
        shape = (m,) if rng.rand() < 0.7 else (m // 2, 2) if m % 2 == 0 else (1, m)
        fun = lambda x, p, q: np.exp(-p * x * x) * np.cos(q * x)
        with ctx.case(m=m, a=a, b=b, p=p, q=q, shape=shape):
            k = quiet()
            try:
                want = [quad(lambda x: fun(x, p[i], q[i]), a[i], b[i], epsabs=1e-13, epsrel=1e-12, limit=400)[0] for i in range(m)]
                A, B, Pp, Q = (v.reshape(shape) for v in (a, b, p, q))
                val, err = wi.gaussq(fun, A, B, args=(Pp, Q), releps=1e-9, abseps=1e-9)
                ctx.equal(np.shape(val), shape, 'gaussq:uneven_shape')
                ctx.close(np.ravel(val), want, 'gaussq:uneven', rtol=1e-7, atol=1e-7)
                val, err = wi.gaussq(lambda x: fun(x, p[0], q[0]), A, B, releps=1e-9, abseps=1e-9)
                want = [quad(lambda x: fun(x, p[0], q[0]), a[i], b[i], epsabs=1e-13, epsrel=1e-12, limit=400)[0] for i in range(m)]
                ctx.close(np.ravel(val), want, 'gaussq:uneven_limits', rtol=1e-7, atol=1e-7)
                i = int(rng.randint(m))
                val, err = wi.gaussq(lambda x, c: c * fun(x, p[0], q[0]), a[i], b[i], args=(np.ravel(Q) + 1,), releps=1e-9, abseps=1e-9)
                ctx.close(np.ravel(val), (np.ravel(Q) + 1) * want[i], 'gaussq:uneven_arguments', rtol=1e-7, atol=1e-7 * 16)
            finally:
                k.__exit__(None, None, None)
            ctx.count('integrals', 3 * m)


@family()
def gauss(ctx):
    rng = ctx.rng
    P = np.polynomial.polynomial.polyval
    for k in ctx.loop(300):
        wfun = 1 + k % 9
        m = int(rng.choice([1, 2, 3, 5]))
        a = rng.normal(size=m) * 2
        b = a + rng.exponential(size=m) * 2 + 0.05
        if wfun == 1 and rng.randint(3) == 0:
            a, b = b, a
        if wfun in (2, 3):
            a, b = np.zeros(m) - (np.inf if wfun == 2 else 0), np.full(m, np.inf)
        deg = int(rng.randint(0, 7))
        c = rng.normal(size=(m, deg + 1))
        alpha = float(rng.choice([0., 1., 0.5, rng.uniform(0, 2)])) if wfun in (3, 4) else 0.
        beta = float(rng.choice([0., 1., 0.5, rng.uniform(0, 2)])) if wfun == 4 else 0.
        with ctx.case(wfun=wfun, m=m, a=a, b=b, deg=deg, alpha=alpha, beta=beta, nontrivial=deg > 0):
            q = quiet()
            try:
                want = np.array([moment(wfun, a[i], b[i], alpha, beta, c[i]) for i in range(m)])
                if wfun in (2, 3):
                    fun, args = (lambda x, *cc: sum(cj * x ** j for j, cj in enumerate(cc))), tuple(c.T)
                    sc = np.abs(c).sum(axis=1) * mass(wfun, alpha + deg, beta) + 1
                else:
                    fun, args = (lambda x, *cc: sum(cj * x ** j for j, cj in enumerate(cc))), tuple(c.T)
                    sc = 1 + np.abs(want)
                val, err = wi.gaussq(fun, a, b, wfun=wfun, alpha=alpha, beta=beta, args=args, releps=1e-10, abseps=1e-10)
                ctx.equal((np.shape(val), np.shape(err)), ((m,), (m,)), 'gaussq:shape')
                ctx.ok(np.all(np.abs(val - want) <= 1e-8 * sc), 'gaussq:value:%d' % wfun, lambda: (val, want))
                ctx.ok(np.all(err >= 0), 'gaussq:error_sign')
                one = [wi.gaussq(fun, a[i], b[i], wfun=wfun, alpha=alpha, beta=beta, args=tuple(c[i]), releps=1e-10, abseps=1e-10)[0] for i in range(m)]
                ctx.close(np.ravel(one), val, 'gaussq:one_by_one', rtol=1e-9, atol=1e-9 * np.max(sc))
                if wfun == 4:   # parameters that differ in the last digits only
                    al2 = alpha + 1e-7 * (1 + rng.randint(9))
                    v2 = wi.gaussq(fun, a, b, wfun=4, alpha=al2, beta=beta, args=args, releps=1e-12, abseps=1e-12)[0]
                    w2 = np.array([moment(wfun, a[i], b[i], al2, beta, c[i]) for i in range(m)])
                    v1 = wi.gaussq(fun, a, b, wfun=4, alpha=alpha, beta=beta, args=args, releps=1e-12, abseps=1e-12)[0]
                    w1 = want
                    ctx.close(v2 - v1, w2 - w1, 'gaussq:close_parameters', rtol=1e-2, atol=1e-11 * np.max(sc))
                if wfun not in (2, 3):
                    v2 = wi.gaussq(fun, a.reshape(1, m), b.reshape(1, m), wfun=wfun, alpha=alpha, beta=beta,
                                   args=tuple(ci.reshape(1, m) for ci in c.T), releps=1e-10, abseps=1e-10)[0]
                    ctx.equal(np.shape(v2), (1, m), 'gaussq:shape')
                    ctx.close(np.ravel(v2), val, 'gaussq:reshaped', rtol=1e-9, atol=1e-9)
            finally:
                q.__exit__(None, None, None)


def integrand(rng):
    """A smooth function and its antiderivative."""
    kind = int(rng.randint(8))
    p = float(rng.uniform(0.3, 2))
    s = float(rng.uniform(0.5, 3))
    return [('exp', lambda x: np.exp(p * x / 2), lambda x: 2 * np.exp(p * x / 2) / p),
            ('cos', lambda x: np.cos(s * x + p), lambda x: np.sin(s * x + p) / s),
            ('runge', lambda x: 1 / (1 + (x / (1 + p)) ** 2), lambda x: (1 + p) * np.arctan(x / (1 + p))),
            ('gauss', lambda x: np.exp(-x ** 2 / (2 * s ** 2)), lambda x: s * np.sqrt(np.pi / 2) * sp.erf(x / s / np.sqrt(2))),
            ('cube', lambda x: x ** 3 - p * x + 1, lambda x: x ** 4 / 4 - p * x ** 2 / 2 + x),
            ('one', lambda x: p + 0 * x, lambda x: p * x),
            ('sech', lambda x: 1 / np.cosh(x) ** 2, lambda x: np.tanh(x)),
            ('xexp', lambda x: x * np.exp(-x / s), lambda x: -s * (x + s) * np.exp(-x / s))][kind]


@family()
def adaptive(ctx):
    rng = ctx.rng
    for k in ctx.loop(400):
        name, f, F = integrand(rng)
        a = float(rng.choice([0., -1., rng.normal() * 2]))
        b = float(a + rng.choice([1., 0.3, 2., 0.01, rng.exponential() * 3 + 0.01]))
        if rng.randint(4) == 0:
            a, b = b, a
        with ctx.case(fun=name, a=a, b=b, nontrivial=True):
            q = quiet()
            try:
                want = F(b) - F(a)
                eps = float(rng.choice([1e-3, 1e-6, 1e-9]))
                v, e = wi.gaussq(f, a, b, releps=eps, abseps=eps)
                ctx.ok(abs(v[0] - want) <= 2 * eps * (1 + abs(want)) + 1e-12, 'adaptive:gaussq', lambda: (v, want, e))
                ctx.ok(e[0] <= max(eps, eps * abs(v[0])), 'adaptive:gaussq_error', lambda: (e, eps))
                v, e = wi.quadgr(f, a, b, abseps=eps)
                ctx.ok(abs(v - want) <= 10 * eps + 1e-10 * abs(want), 'adaptive:quadgr', lambda: (v, want, e))
                ctx.ok(e >= 0, 'adaptive:quadgr_error')
                m = (a + b) / 2 + (b - a) * float(rng.uniform(-0.4, 0.4))
                v1, v2 = wi.quadgr(f, a, m, abseps=1e-9)[0], wi.quadgr(f, m, b, abseps=1e-9)[0]
                ctx.close(v1 + v2, want, 'adaptive:additive', rtol=1e-8, atol=1e-7)
                ctx.close(wi.quadgr(f, b, a, abseps=1e-9)[0], -want, 'adaptive:reversed', rtol=1e-8, atol=1e-7)
                ctx.close(wi.quadgr(f, a, a)[0], 0., 'adaptive:empty')
                v, e = wi.romberg(f, a, b, releps=eps, abseps=eps)
                ctx.ok(abs(v - want) <= 5 * eps * (1 + abs(want)) + 1e-10, 'adaptive:romberg', lambda: (v, want, e))
                n = int(rng.choice([10, 15, 20]))
                v, e = wi.clencurt(f, a, b, n)
                if abs(b - a) < 6:
                    ctx.ok(abs(v[0] - want) <= np.abs(e[0]) + 1e-6 * (1 + abs(want)), 'adaptive:clencurt', lambda: (v, want, e))
                ctx.ok(np.all(e >= 0), 'adaptive:clencurt_error', lambda: e)
                # an integrand of integers
                c = int(rng.randint(1, 5))
                v = wi.quadgr(lambda x: np.full(np.shape(x), c), a, b)[0]
                ctx.close(v, c * (b - a), 'adaptive:quadgr_integers', rtol=1e-10, atol=1e-12)
                v = wi.gaussq(lambda x: np.full(np.shape(x), c), a, b)[0]
                ctx.close(v, [c * (b - a)], 'adaptive:gaussq_integers', rtol=1e-10, atol=1e-12)
                # complex integrand
                om = float(rng.uniform(0.5, 4))
                v = wi.quadgr(lambda x: np.exp(1j * om * x), a, b, abseps=1e-9)[0]
                ctx.close([np.real(v), np.imag(v)], [(np.sin(om * b) - np.sin(om * a)) / om, -(np.cos(om * b) - np.cos(om * a)) / om],
                          'adaptive:quadgr_complex', rtol=1e-8, atol=1e-7)
            finally:
                q.__exit__(None, None, None)


@family()
def improper(ctx):
    rng = ctx.rng
    for k in ctx.loop(150):
        s = float(rng.uniform(0.4, 3))
        a = float(rng.normal())
        kind = k % 7
        p = float(rng.uniform(-0.85, 1.5))
        with ctx.case(kind=kind, s=s, a=a, p=p, nontrivial=True):
            q = quiet()
            try:
                if kind == 0:
                    lim, f, want = (a, np.inf), (lambda x: np.exp(-(x - a) / s)), s
                elif kind == 1:
                    lim, f, want = (-np.inf, a), (lambda x: np.exp((x - a) / s)), s
                elif kind == 2:
                    lim, f, want = (-np.inf, np.inf), (lambda x: np.exp(-(x - a) ** 2 / (2 * s * s))), s * np.sqrt(2 * np.pi)
                elif kind == 3:
                    lim, f, want = (a, np.inf), (lambda x: 1 / (s + x - a) ** 2), 1 / s
                elif kind == 4:
                    lim, f, want = (np.inf, a), (lambda x: np.exp(-(x - a) / s)), -s
                elif kind == 5:
                    lim, f, want = (0., s), (lambda x: x ** p), s ** (p + 1) / (p + 1)
                else:
                    lim, f, want = (-np.inf, np.inf), (lambda x: 1 / (1 + ((x - a) / s) ** 2) ** 2), s * np.pi / 2
                eps = float(rng.choice([1e-5, 1e-8]))
                v, e = wi.quadgr(f, *lim, abseps=eps)
                tol = 1e-2 * abs(want) if kind == 5 and p < -0.3 else 20 * eps + 1e-7 * abs(want)
                ctx.ok(abs(v - want) <= tol, 'improper:%d' % kind, lambda: (v, want, e))
            finally:
                q.__exit__(None, None, None)


@family()
def clenshaw(ctx):
    rng = ctx.rng
    P = np.polynomial.polynomial
    for k in ctx.loop(300):
        n = int(rng.choice([1, 2, 3, 5, 8, 12]))
        deg = int(rng.randint(0, 2 * n + 1))
        m = int(rng.choice([1, 1, 2, 5]))
        c = rng.normal(size=deg + 1)
        a = rng.uniform(-1.5, 1.5, m)
        b = a + rng.uniform(-2, 2, m)
        with ctx.case(n=n, deg=deg, a=a, b=b, nontrivial=deg > 1):
            I = P.polyint(c)
            want = P.polyval(b, I) - P.polyval(a, I)
            sc = 1e-10 * (1 + np.abs(c).sum() * np.maximum(np.abs(a), np.abs(b)).max() ** deg * 4)
            kept = []

            def fun(x):
                kept.append(P.polyval(x, c))
                return kept[-1]
            val, err = wi.clencurt(fun, a if m > 1 else float(a[0]), b if m > 1 else float(b[0]), n)
            ctx.close(np.ravel(val), want, 'clenshaw:value', rtol=1e-9, atol=sc)
            ctx.ok(np.all(np.asarray(err) >= 0), 'clenshaw:error_sign', lambda: err)
            x = np.cos(np.pi * np.arange(2 * n + 1)[:, None] / (2 * n)) * (b - a) / 2 + (b + a) / 2
            ctx.close(kept[0], P.polyval(x, c), 'clenshaw:values_changed', rtol=1e-9, atol=sc)
            # the composite rule for tabulated values
            h = int(rng.randint(1, 6))
            xx = np.linspace(float(a[0]), float(b[0]), 4 * h + 1)
            cc = c[:6]
            I = P.polyint(cc)
            ctx.close(wi.boole(P.polyval(xx, cc), xx), P.polyval(xx[-1], I) - P.polyval(xx[0], I), 'clenshaw:boole', rtol=1e-8, atol=sc)


@family(shards=3)
def oscillating(ctx):
    rng = ctx.rng
    for k in ctx.loop(24):
        om = float(rng.choice([0.3, 1., 5., 20., 60., 150.]) * rng.uniform(0.9, 1.1))
        a = float(rng.choice([0., -1., 0.5, 1.]))
        b = a + float(rng.choice([1., 2., 0.5]))
        gk = int(rng.randint(4))
        c = float(rng.uniform(0.3, 1.5))
        gname, g, dg = [('x', lambda x: x, lambda x: np.ones(np.shape(x))),
                        ('cx', lambda x: c * x + 1, lambda x: np.full(np.shape(x), c)),
                        ('x2', lambda x: (x + 2.1) ** 2 / 4, lambda x: (x + 2.1) / 2),
                        ('sin', lambda x: x + 0.2 * np.sin(c * x), lambda x: 1 + 0.2 * c * np.cos(c * x))][gk]
        fk = int(rng.randint(4))
        fname, f = [('1', lambda x: np.ones(np.shape(x))), ('exp', lambda x: np.exp(-c * x)), ('poly', lambda x: x ** 3 - c * x + 0.5),
                    ('runge', lambda x: 1 / (2 + x ** 2))][fk]
        with ctx.case(omega=om, a=a, b=b, g=gname, f=fname, c=c, nontrivial=om > 1):
            q = quiet()
            try:
                want = panels(lambda x: f(x) * np.exp(1j * om * g(x)), a, b, 60)
                ctx.count('oscillating:%s' % gname)
                got = wo.QuadOsc(f, g, dg, a, b, precision=9, full_output=True)(om)
                v = complex(np.ravel(got[0])[0])
                ctx.ok(abs(v - want) <= 1e-7, 'osc:quadosc', lambda: (v, want, got[1]))
                ev = complex(wo.EvansWebster(f, g, dg, a, b, precision=9)(om))
                ctx.ok(abs(ev - want) <= 1e-7, 'osc:evans_webster', lambda: (ev, want))
                r = complex(np.ravel(wo.QuadOsc(f, g, dg, b, a, precision=9)(om))[0])
                ctx.ok(abs(r + want) <= 1e-7, 'osc:reversed', lambda: (r, want))
                mn = complex(np.ravel(wo.QuadOsc(f, g, dg, a, b, precision=9)(-om))[0])
                ctx.ok(abs(mn - np.conj(want)) <= 1e-7, 'osc:conjugate', lambda: (mn, want))
            finally:
                q.__exit__(None, None, None)
    for k in ctx.loop(4):
        s, om = float(rng.uniform(0.5, 2)), float(rng.uniform(0.5, 8))
        kind = k % 2
        with ctx.case(kind='infinite', s=s, omega=om, nontrivial=True):
            q = quiet()
            try:
                if kind == 0:
                    v = wo.QuadOsc(lambda x: np.exp(-s * x), lambda x: x, lambda x: np.ones(np.shape(x)), 0, np.inf, precision=8)(om)
                    want = 1 / (s - 1j * om)
                else:
                    v = wo.QuadOsc(lambda x: np.exp(s * x), lambda x: x, lambda x: np.ones(np.shape(x)), -np.inf, 0, precision=8)(om)
                    want = 1 / (s + 1j * om)
                v = complex(np.ravel(v)[0])
                ctx.ok(abs(v - want) <= 1e-4, 'osc:infinite', lambda: (v, want))
            finally:
                q.__exit__(None, None, None)
