import numpy as np
import scipy.special as sp
import wafo.spectrum.models as sm
from vlib.harness import family

RULE = ('seeded admissible parameters of every spectral model and of every spreading type/method; '
        'non-trivial: the model has positive energy, the spreading grid has at least 3 frequencies')
ASSUMPTIONS = ['scipy.special gamma/Bessel functions', 'integrals by panelled Gauss-Legendre quadrature (error below 1e-9)']
GX, GW = np.polynomial.legendre.leggauss(48)
EDGES = np.array([0.02, .2, .4, .55, .7, .8, .87, .93, .97, 1, 1.03, 1.07, 1.13, 1.2, 1.35, 1.6, 2, 2.7, 4, 6, 10, 20, 60, 300, 2000, 2e4, 3e5])


def integrate(S, wp, hi=None):
    e = EDGES if hi is None else np.append(EDGES[EDGES < hi], hi)
    a, b = e[:-1, None] * wp, e[1:, None] * wp
    w = 0.5 * (b - a) * (GX + 1) + a
    return float(np.sum(S(w.ravel()).reshape(w.shape) * GW * 0.5 * (b - a)))


def gengam(wn, N, M):
    wn = np.asarray(wn, dtype=float)
    B, C = N / M, (N - 1) / M
    with np.errstate(all='ignore'):
        r = M * B ** C / sp.gamma(C) * wn ** (-N) * np.exp(-B * wn ** (-M))
    return np.where(wn > 0, np.nan_to_num(r), 0.)


def jonswap_ref(w, H, T, gam, N, M, sa, sb, Ag):
    wp = 2 * np.pi / T
    wn = w / wp
    s = np.where(wn > 1, sb, sa)
    return H * H / 16 / wp * Ag * gam ** np.exp(-(wn - 1) ** 2 / (2 * s * s)) * gengam(wn, N, M)


def ag_ref(gam, N, M, sa, sb, wnc):
    return 1 / integrate(lambda wn: jonswap_ref(wn, 4., 2 * np.pi, gam, N, M, sa, sb, 1.), 1., wnc)


def grid(rng, wp):
    w = np.concatenate([[0.], np.sort(wp * rng.choice([rng.uniform(0.3, 3), 1.], 40) * np.exp(rng.uniform(-1.2, 1.6, 40))), [wp]])
    return rng.permutation(w) if rng.rand() < 0.5 else w


def common(ctx, S, make, H, T, key, peak=True):
    wp = 2 * np.pi / T
    w = grid(ctx.rng, wp)
    with ctx.frozen(key + ':argument', w):
        s = S(w)
    ctx.ok(s.shape == w.shape and np.all(np.isfinite(s)), key + ':finite', lambda: s)
    ctx.ok(s >= 0, key + ':nonnegative', lambda: s.min())
    ctx.ok(s[w == 0] == 0, key + ':zero_at_zero')
    ctx.close(S(w[::-1])[::-1], s, key + ':order', rtol=1e-13, atol=1e-290)
    ctx.close(np.array([S(x)[0] for x in w[:4]]), s[:4], key + ':scalar', rtol=1e-13, atol=1e-290)
    ctx.close(S(-w), np.zeros_like(w), key + ':negative_frequency', atol=0)
    d = S.tospecdata(w=np.sort(w))
    ctx.close(d.data, S(np.sort(w)), key + ':specdata', rtol=1e-14)
    ctx.equal(np.asarray(d.args), np.sort(w), key + ':specdata_args')
    if peak:
        wf = wp * np.linspace(0.25, 4, 1501)
        m = S(wf)
        ctx.ok(S(wp)[0] >= m.max() * (1 - 1e-12), key + ':peak', lambda: (wf[m.argmax()] / wp))


@family(shards=2)
def gamma_models(ctx):
    rng = ctx.rng
    for _ in ctx.loop(150):
        H, T = rng.choice([rng.uniform(0.05, 20), 7, 1]), rng.choice([rng.uniform(1.5, 25), 11, 8])
        N, M = rng.choice([rng.uniform(2.5, 9), 5]), rng.choice([rng.uniform(1.5, 8), 4])
        wp = 2 * np.pi / T
        with ctx.case(model='Bretschneider', H=H, T=T, N=N, M=M):
            S = sm.Bretschneider(H, T, N=N, M=M)
            common(ctx, S, None, H, T, 'Bretschneider')
            w = grid(rng, wp)
            ctx.close(S(w), H * H / 16 / wp * gengam(w / wp, N, M), 'Bretschneider:formula', rtol=1e-10, atol=1e-280)
            tail = H * H / 16 * M * (N / M) ** ((N - 1) / M) / sp.gamma((N - 1) / M) * EDGES[-1] ** (1 - N) / (N - 1)
            ctx.close(integrate(S, wp) + tail, H * H / 16, 'Bretschneider:energy', rtol=1e-7)
            ctx.close(sm.Bretschneider(3 * H, T, N=N, M=M)(w), 9 * S(w), 'Bretschneider:scale', rtol=1e-12, atol=1e-280)
            ctx.close(sm.Bretschneider(H, 2 * T, N=N, M=M)(w / 2), 2 * S(w), 'Bretschneider:period', rtol=1e-10, atol=1e-280)
        with ctx.case(model='Wallop', H=H, T=T, N=N):
            S = sm.Wallop(H, T, N=N)
            common(ctx, S, None, H, T, 'Wallop')
            ctx.close(S(w), H * H / 16 / wp * gengam(w / wp, N, 4), 'Wallop:formula', rtol=1e-10, atol=1e-280)
            S = sm.Wallop(H, T)
            Lp = 2 * np.pi * 9.81 / wp ** 2
            Nd = abs(np.log(2 * np.pi ** 2 * (H / 4) ** 2 / Lp ** 2) / np.log(2))
            ctx.close(S.N, Nd, 'Wallop:default_N', rtol=1e-3, shape=False)
            if Nd > 1.5:
                common(ctx, S, None, H, T, 'Wallop:default')
        with ctx.case(model='McCormick', H=H, T=T):
            Tz = None if rng.rand() < 0.4 else T * rng.uniform(0.6, 0.92)
            S = sm.McCormick(H, T, Tz=Tz)
            common(ctx, S, None, H, T, 'McCormick')
            ctx.close(S.N, S.M + 1, 'McCormick:N', rtol=1e-12)
            ctx.close(S(w), H * H / 16 / wp * gengam(w / wp, S.M + 1, S.M), 'McCormick:formula', rtol=1e-9, atol=1e-280)
            # Tp/Tz = (1+1/M)**(1/M)/gamma(1+1/M)
            q = 1 / S.M
            if S.M < 60:
                ctx.close((1 + q) ** q / sp.gamma(1 + q), T / (Tz or 0.8143 * T), 'McCormick:Tz', rtol=1e-3)
            S = sm.McCormick(H, T, M=M)
            ctx.close(S(w), H * H / 16 / wp * gengam(w / wp, M + 1, M), 'McCormick:given_M', rtol=1e-10, atol=1e-280)
        with ctx.case(model='zero', T=T, nontrivial=False):
            for c in (sm.Bretschneider, sm.Jonswap, sm.Wallop, sm.McCormick, sm.OchiHubble, sm.Tmaspec):
                ctx.equal(c(Hm0=0)(w), np.zeros_like(w), 'zero:' + c.__name__)
            for c in (sm.Bretschneider, sm.Jonswap, sm.Wallop, sm.McCormick, sm.Torsethaugen, sm.OchiHubble, sm.Tmaspec):
                ctx.raises(ValueError, lambda: c(Hm0=-H), 'refuse_negative:' + c.__name__)
            for c in (sm.Bretschneider, sm.Jonswap, sm.Torsethaugen, sm.Tmaspec):
                ctx.raises(ValueError, lambda: c(Tp=-T), 'refuse_negative_period:' + c.__name__)


@family(shards=2)
def jonswap(ctx):
    rng = ctx.rng
    for _ in ctx.loop(120):
        H, T = rng.uniform(0.1, 16), rng.uniform(2, 22)
        gam = rng.choice([1., rng.uniform(1, 7), rng.uniform(1, 7), 3.3, rng.uniform(7, 18)])
        N, M = rng.choice([rng.uniform(3, 9), 5]), rng.choice([rng.uniform(2, 8), 4])
        sa, sb = (0.07, 0.09) if rng.rand() < 0.5 else rng.uniform(0.03, 0.2, 2)
        wnc = rng.choice([6., rng.uniform(1.5, 12)])
        wp = 2 * np.pi / T
        w = grid(rng, wp)
        with ctx.case(H=H, T=T, gamma=gam, N=N, M=M, sa=sa, sb=sb, wnc=wnc):
            S = sm.Jonswap(H, T, gamma=gam, N=N, M=M, sigmaA=sa, sigmaB=sb, wnc=wnc)
            common(ctx, S, None, H, T, 'Jonswap')
            Ag = 1. if gam == 1 else ag_ref(gam, N, M, sa, sb, wnc)
            ctx.close(S(w), jonswap_ref(w, H, T, gam, N, M, sa, sb, Ag), 'Jonswap:formula', rtol=1e-6, atol=1e-280)
            if gam != 1:
                ctx.close(integrate(S, wp, wnc), H * H / 16, 'Jonswap:energy', rtol=1e-6)
            ctx.close(sm.Jonswap(2 * H, T, gamma=gam, N=N, M=M, sigmaA=sa, sigmaB=sb, wnc=wnc)(w), 4 * S(w), 'Jonswap:scale',
                      rtol=1e-10, atol=1e-280)
            S1 = sm.Jonswap(H, T, gamma=gam, N=N, M=M, sigmaA=sa, sigmaB=sb, Ag=0.37)
            ctx.close(S1(w), jonswap_ref(w, H, T, gam, N, M, sa, sb, 1. if gam == 1 else 0.37), 'Jonswap:custom', rtol=1e-9, atol=1e-280)
        with ctx.case(H=H, T=T, gamma=gam, method='parametric'):
            g7 = min(gam, 7.)
            S = sm.Jonswap(H, T, gamma=g7, method='parametric')
            common(ctx, S, None, H, T, 'Jonswap:parametric')
            ctx.ok(abs(integrate(S, wp) * 16 / H ** 2 - 1) < 0.05, 'Jonswap:parametric_energy', lambda: (g7, integrate(S, wp) * 16 / H ** 2))
        with ctx.case(H=H, T=T, what='peakfact'):
            x = T / np.sqrt(H)
            want = np.clip(np.exp(3.484 * (1 - 0.1975 * (0.036 - 0.0056 * x) * x ** 4)), 0, 7) if x <= 36 / 7. else 1.
            ctx.close(sm.jonswap_peakfact(H, T), [want], 'peakfact', rtol=1e-9)
            Hs, Ts = rng.uniform(0.1, 16, (3, 4)), rng.uniform(2, 22, (3, 4))
            v = sm.jonswap_peakfact(Hs, Ts)
            ctx.close(v, [[sm.jonswap_peakfact(a, b)[0] for a, b in zip(r, q)] for r, q in zip(Hs, Ts)], 'peakfact:array', rtol=1e-12)
            ctx.ok((v > 0.99) & (v <= 7), 'peakfact:range', lambda: v)
            S = sm.Jonswap(H, T)
            ctx.close(S.gamma, want, 'Jonswap:default_gamma', rtol=1e-9, shape=False)
        u, f = rng.uniform(2, 40), 10 ** rng.uniform(3.5, 6.2)
        with ctx.case(u10=u, fetch=f):
            z = 9.81 * f / u ** 2
            for meth in ('lewis', 'hasselman73', 'hasselman76'):
                d = sm.jonswap_seastate(u, f, method=meth)
                if meth == 'lewis':
                    A, ny = 0.074 * z ** -0.22, 3.57 * z ** -0.33
                    eps = 3.512e-4 * A * ny ** -4 * z ** -0.1
                    ex = (max(17.54 * z ** -0.28384, 1), 0.05468 * ny ** -0.32, 0.078314 * ny ** -0.16)
                elif meth == 'hasselman73':
                    A, ny, eps, ex = 0.076 * z ** -0.22, 3.5 * z ** -0.33, 9.91e-8 * z ** 1.1, (3.3, .07, .09)
                else:
                    A, ny, eps, ex = 0.0662 * z ** -0.2, 2.84 * z ** -0.3, 1.6e-7 * z, (3.3, .07, .09)
                got = [d[k] for k in ('Hm0', 'Tp', 'gamma', 'sigmaA', 'sigmaB', 'Ag')]
                want = [4 * np.sqrt(eps) * u * u / 9.81, u / (ny * 9.81)] + list(ex) + [A]
                ctx.close(got, want, 'seastate:' + meth, rtol=1e-9)
                ctx.close(sm.jonswap_seastate(u, f, method=meth, output='list'), want, 'seastate:list:' + meth, rtol=1e-9)


def torsethaugen_ref(H, T, g=9.81):
    Tf = 6.6 * H ** (1 / 3.)
    Tl = 2 * np.sqrt(H)
    n = 0.5 * np.sqrt(H) + 3.2
    if T < Tf:
        el = min(max((Tf - T) / (Tf - Tl), 0), 1)
        rw = 0.7 + 0.3 * np.exp(-(el / 0.5) ** 2)
        gw = max(35 * (1 + 3.5 * np.exp(-H)) * (2 * np.pi / g * rw * H / T ** 2) ** 0.857, 1)
        return [(rw * H, T, gw, n, 4), (np.sqrt(1 - rw ** 2) * H, Tf + 2, 1, n, 4)]
    eu = min(max((T - Tf) / (25 - Tf), 0), 1)
    rs = 0.6 + 0.4 * np.exp(-(eu / 0.3) ** 2)
    gs = max(35 * (1 + 3.5 * np.exp(-H)) * (2 * np.pi / g * H / Tf ** 2) ** 0.857 * (1 + 6 * eu), 1)
    mw = 4 * (1 - 0.7 * np.exp(-H / 3))
    hw = np.sqrt(1 - rs ** 2) * H
    g0 = (n / mw) ** ((n - 1) / mw) * mw / sp.gamma((n - 1) / mw)
    tw = (16 * 0.08 * (1 - np.exp(-H / 3)) * 0.4 ** n / (g0 * hw ** 2)) ** (-1 / (n - 1)) if hw > 0 else np.inf
    return [(hw, tw, 1, n, mw), (rs * H, T, gs, n, 4)]


OH = [  # Hp1 Hp2 a1 a2 b1 b2 L1 l2 e2 (Ochi and Hubble 1976)
    (.84, .54, .70, 1.15, .046, .039, 3.00, 1.54, .062), (.84, .54, .93, 1.50, .056, .046, 3.00, 2.77, .112),
    (.84, .54, .41, .88, .016, .026, 2.55, 1.82, .089), (.84, .54, .74, 1.30, .052, .039, 2.65, 3.90, .085),
    (.84, .54, .62, 1.03, .039, .030, 2.60, .53, .069), (.95, .31, .70, 1.50, .046, .046, 1.35, 2.48, .102),
    (.65, .76, .61, .94, .039, .036, 4.95, 2.48, .102), (.90, .44, .81, 1.60, .052, .033, 1.80, 2.95, .105),
    (.77, .64, .54, .61, .039, .000, 4.50, 1.95, .082), (.73, .68, .70, .99, .046, .039, 6.40, 1.78, .069),
    (.92, .39, .70, 1.37, .046, .039, .70, 1.78, .069)]


@family(shards=2)
def double_peaked(ctx):
    rng = ctx.rng
    for i in ctx.loop(150):
        H, T = rng.uniform(0.3, 13), rng.uniform(3, 24)
        with ctx.case(model='Torsethaugen', H=H, T=T):
            S = sm.Torsethaugen(H, T)
            common(ctx, S, None, H, T, 'Torsethaugen', peak=False)
            w = grid(rng, 2 * np.pi / T)
            want = 0
            e = 0
            for h, t, gam, n, m in torsethaugen_ref(H, T):
                if h > 0:
                    want = want + jonswap_ref(w, h, t, gam, n, m, .07, .09, 1. if gam == 1 else ag_ref(gam, n, m, .07, .09, 6.))
            ctx.close(S(w), want, 'Torsethaugen:formula', rtol=1e-5, atol=1e-12)
            ctx.close(S(w), S.wind(w) + S.swell(w), 'Torsethaugen:sum', rtol=1e-12)
            ctx.close(S.wind.Hm0 ** 2 + S.swell.Hm0 ** 2, H * H, 'Torsethaugen:energy', rtol=1e-12)
            r = integrate(S, 2 * np.pi / T) * 16 / H ** 2
            ctx.ok(0.999 < r < 1.02, 'Torsethaugen:total', r)
            ctx.count('wind dominated' if T < 6.6 * H ** (1 / 3.) else 'swell dominated')
        par = int(rng.randint(11))
        H = rng.uniform(0.3, 14)
        with ctx.case(model='OchiHubble', H=H, par=par):
            S = sm.OchiHubble(H, par=par)
            r = OH[par]
            want = 0
            w = grid(rng, 0.8)
            for h, a, b, L in ((r[0], r[2], r[4], r[6]), (r[1], r[3], r[5], r[7] * np.exp(-r[8] * H))):
                wm = a * np.exp(-b * H)
                want = want + (h * H) ** 2 / 16 / wm * gengam(w / wm, 4 * L + 1, 4)
            ctx.close(S(w), want, 'OchiHubble:formula', rtol=1e-9, atol=1e-280)
            common(ctx, S, None, H, 8., 'OchiHubble', peak=False)
            ctx.ok(abs(integrate(S, .8) * 16 / H ** 2 - 1) < 0.007, 'OchiHubble:energy', lambda: integrate(S, .8) * 16 / H ** 2)
    with ctx.case(nontrivial=False):
        for p in (-1, 11):
            ctx.raises(ValueError, lambda: sm.OchiHubble(par=p), 'OchiHubble:refuse')


def kdisp(w, h, g):
    """k > 0 with w**2 = g k tanh(k h), by bisection."""
    lo, hi = w ** 2 / g * 0.999999, np.maximum(w ** 2 / g, w / np.sqrt(g * h)) * 1.6 + 1e-12
    for _ in range(200):
        m = 0.5 * (lo + hi)
        up = g * m * np.tanh(m * h) < w * w
        lo, hi = np.where(up, m, lo), np.where(up, hi, m)
    return 0.5 * (lo + hi)


@family()
def finite_depth(ctx):
    rng = ctx.rng
    for _ in ctx.loop(120):
        H, T, h, g = rng.uniform(0.3, 10), rng.uniform(3, 18), 10 ** rng.uniform(0.3, 2.8), rng.choice([9.81, rng.uniform(9.7, 9.9)])
        gam = rng.choice([1., rng.uniform(1.05, 7)])
        with ctx.case(H=H, T=T, h=h, g=g, gamma=gam):
            S = sm.Tmaspec(H, T, gamma=gam, h=h, g=g)
            J = sm.Jonswap(H, T, gamma=gam)
            w = np.sort(grid(rng, 2 * np.pi / T))
            p = S.phi(w)
            ctx.ok((p >= 0) & (p <= 1 + 1e-9), 'phi:range', lambda: (p.min(), p.max()))
            ctx.ok(np.diff(p) >= -1e-9, 'phi:monotone')
            ctx.ok(p[w == 0] == 0, 'phi:zero')
            v = w[w > 0]
            k = kdisp(v, h, g)
            kh = np.minimum(k * h, 300)
            dk = 2 * v / g / (np.tanh(kh) + kh / np.cosh(kh) ** 2)
            ctx.close(p[w > 0], (v * v / g / k) ** 3 * dk / (2 * v / g), 'phi:formula', rtol=1e-5, atol=1e-12)
            ctx.close(sm.phi1(w, h, g), p, 'phi1', rtol=1e-12)
            ctx.close(S(w), J(w) * p, 'Tma:product', rtol=1e-9)
            ctx.equal(sm.phi1(w, np.inf), np.ones_like(w), 'phi:deep')
            ctx.close(sm.Tmaspec(H, T, gamma=gam, h=np.inf)(w), J(w), 'Tma:deep', rtol=1e-10)
            ctx.ok(sm.phi1(w, 1.5 * h, g) >= p - 1e-6, 'phi:depth')
            h2 = 10 ** rng.uniform(0.3, 2.8)
            ctx.close(S(w, h=h2), J(w) * sm.phi1(w, h2, g), 'Tma:call_depth', rtol=1e-9)
            ctx.close(S(w), J(w) * p, 'Tma:product_again', rtol=1e-9)
            ctx.equal(S.tospecdata(w).h, h, 'Tma:specdata_depth')
            ctx.ok(np.all(np.isfinite(S(w))) and np.all(S(w) >= 0), 'Tma:finite')
            ctx.ok(integrate(S, 2 * np.pi / T) <= integrate(J, 2 * np.pi / T) * (1 + 1e-6), 'Tma:energy')


def inv(fun, r, lo, hi, decreasing):
    lo, hi = np.full_like(r, lo), np.full_like(r, hi)
    for _ in range(110):
        m = 0.5 * (lo + hi)
        right = (fun(m) > r) if decreasing else (fun(m) < r)
        lo, hi = np.where(right, m, lo), np.where(right, hi, m)
    return 0.5 * (lo + hi)


def r1b(B):
    x = np.pi / 2 / np.maximum(B, 1e-300)
    with np.errstate(all='ignore'):
        return np.where(x > 600, 0., x / np.sinh(np.minimum(x, 600)))


def spread_ref(typ, th, s):
    """D (Nt, Nw) for angles th (Nt, Nw) in [-pi, pi) and the cos-2s parameter s (Nw)."""
    r = s / (s + 1)
    if typ[0] == 'c':
        return np.exp(sp.gammaln(s + 1) - sp.gammaln(s + 0.5)) / (2 * np.sqrt(np.pi)) * np.cos(th / 2) ** (2 * s), s
    if typ[0] == 'p':
        return (1 - r ** 2) / (1 - 2 * r * np.cos(th) + r * r) / (2 * np.pi), r
    if typ[0] in 'mv':
        K = inv(lambda k: sp.ive(1, k) / sp.ive(0, k), r, 0., 2e5, False)
        return np.exp(K * np.cos(th) - K) / (2 * np.pi * sp.ive(0, K)), K
    if typ[0] == 's':
        B = np.where(r > 0, inv(r1b, r, 1e-3, 1e4, False), 0.)
        with np.errstate(all='ignore'):
            nb = np.where(B == 0, 1 / np.pi, B / np.tanh(np.pi * B))
        return 0.5 * nb / np.cosh(B * th) ** 2, B
    if typ[0] == 'b':
        A = inv(lambda a: np.sinc(a / np.pi), r, 1e-9, np.pi, True)
        return np.where(np.abs(th) <= A, 1 / (2 * A), 0.), A
    d2 = np.where(r > 0, -2 * np.log(np.where(r > 0, r, 1)), np.inf)
    D = np.zeros_like(th)
    for k in range(-6, 7):
        with np.errstate(all='ignore'):
            D = D + np.where(np.isfinite(d2), np.exp(-(th + 2 * np.pi * k) ** 2 / (2 * d2)) / np.sqrt(2 * np.pi * d2), 0)
    n = np.arange(1, 40)[:, None, None]
    with np.errstate(all='ignore'):
        four = (1 + 2 * np.sum(np.exp(-n ** 2 * d2 / 2) * np.cos(n * th), axis=0)) / (2 * np.pi)
    return np.where(d2 > 1, four, D), np.sqrt(d2)


def s_ref(method, wn, sa, sb, ma, mb, lo, c, up):
    with np.errstate(all='ignore'):
        s = np.where(wn <= c, sa * wn ** ma, sb * wn ** mb)
        s[wn <= lo] = 0
        hi = wn > up
        if method == 'mitsuyasu':
            s[hi] = 0
            return s
        if method is None:
            return np.full_like(wn, sa)
        don = lambda x: 10 ** (-0.4 + 0.8393 * np.exp(-0.567 * np.log(x ** 2)))
        s[hi] = sb * up ** mb * (don(wn[hi]) / don(up) if method == 'banner' else 1)
        r = r1b(s)
        return r / (1 - r)


@family(shards=3)
def spreading(ctx):
    rng = ctx.rng
    for i in ctx.loop(140):
        typ = ['cos-2s', 'poisson', 'mises', 'von mises', 'sech2', 'box', 'wrap norm'][i % 7]
        method = [None, 'mitsuyasu', 'donelan', 'banner'][(i // 7) % 4]
        nw = rng.randint(3, 9)
        sa, sb = rng.uniform(0.5, 40, 2)
        ma, mb = rng.uniform(0.5, 6), -rng.uniform(0.3, 3)
        if method in ('donelan', 'banner'):
            sa = sb = rng.uniform(0.5, 3.5)
            ma, mb = rng.uniform(0.3, 2), -rng.uniform(0.3, 2)
        lo, c, up = rng.choice([0., 0.2]), rng.choice([1., rng.uniform(0.5, 1.5)]), rng.choice([np.inf, rng.uniform(1.6, 3)])
        wc = rng.choice([1., rng.uniform(0.3, 1.5)])
        w = np.sort(rng.uniform(0, 4, nw)) * wc
        if rng.rand() < 0.3:
            w[0] = 0
        tk = rng.randint(4)
        t0 = [0., rng.uniform(-7, 7), rng.uniform(-4, 4, nw), None][tk]
        fun = None
        if tk == 3:
            a, b = rng.uniform(-3, 3, 2)
            fun = lambda x: a + b * x
            t0 = fun(w / wc)
        nt = int(rng.choice([512, 1024]))
        with ctx.case(type=typ, method=method, sa=sa, sb=sb, ma=ma, mb=mb, lo=lo, c=c, up=up, wc=wc, w=w, theta0=t0, tk=tk, nt=nt):
            th = np.linspace(-np.pi, np.pi, nt + 1) + rng.choice([0., rng.uniform(-3, 3)])
            D = sm.Spreading(typ, theta0=fun or t0, method=method, s_a=sa, s_b=sb, m_a=ma, m_b=mb, wn_lo=lo, wn_c=c, wn_up=up)
            d, phi0 = D(th, w, wc)
            key = 'spread:%s:%s' % (typ, method)
            s = s_ref(method, w / wc, sa, sb, ma, mb, lo, c, up)
            d = np.asarray(d)
            # without frequency dependence one column may stand for all frequencies
            if not ctx.ok(d.ndim == 2 and d.shape[0] == nt + 1 and d.shape[1] in (1, nw), key + ':shape', lambda: d.shape):
                continue
            ctx.ok(d.shape[1] == nw or (method is None and tk < 2), key + ':columns', lambda: d.shape)
            d = np.broadcast_to(d, (nt + 1, nw))
            TH = np.mod(th[:, None] - np.broadcast_to(t0, (nw,)) + np.pi, 2 * np.pi) - np.pi
            want, par = spread_ref(typ, TH, s)
            ctx.ok(np.isfinite(d), key + ':finite')
            ctx.ok(d >= 0, key + ':nonnegative', lambda: d.min())
            if typ == 'box':
                edge = np.abs(np.abs(TH) - par) < 1e-6
                ctx.close(np.where(edge, 0, d), np.where(edge, 0, want), key + ':values', rtol=1e-5)
            else:
                ctx.close(d, want, key + ':values', rtol=2e-5, atol=1e-7 * want.max() + 1e-11 + np.where((typ == 'sech2') & (s < 1e-4), 6e-3, 0))
            dth = 2 * np.pi / nt
            area = d[:-1].sum(axis=0) * dth
            if typ == 'box':
                tol = dth / par
            elif typ[0] == 'c':
                tol = np.where(s < 1, 5. / nt, 1e-4)
            elif typ[0] == 'p':
                tol = 4 * par ** nt + 1e-8
            else:
                tol = 1e-4
            okw = np.ones(nw, bool) if typ[0] in 'p' else s < 400
            ctx.ok(np.abs(area - 1)[okw] <= np.broadcast_to(tol, nw)[okw], key + ':unit', lambda: (area, s))
            ctx.count('columns integrated', int(okw.sum()))
            if typ[0] not in 'sb':
                r1 = (d[:-1] * np.exp(1j * TH[:-1])).sum(axis=0) * dth
                ctx.close(r1.real[okw], (s / (s + 1))[okw], key + ':mean_resultant', rtol=0, atol=np.broadcast_to(tol, nw)[okw] * 2 + 1e-4)
                ctx.close(r1.imag[okw], 0 * s[okw], key + ':direction', rtol=0, atol=np.broadcast_to(tol, nw)[okw] * 2 + 1e-4)
            ctx.ok(phi0 == 0, key + ':phi0')


@family()
def directional(ctx):
    rng = ctx.rng
    for i in ctx.loop(42):
        typ = ['cos-2s', 'poisson', 'mises', 'sech2', 'box', 'wrap norm'][i % 6]
        method = [None, 'mitsuyasu'][(i // 6) % 2]
        H, T = rng.uniform(1, 8), rng.uniform(5, 14)
        t0 = rng.uniform(-3, 3)
        with ctx.case(type=typ, method=method, H=H, T=T, theta0=t0):
            S1 = sm.Bretschneider(H, T).tospecdata(nw=int(rng.choice([33, 65])))
            nt = int(rng.choice([181, 401]))
            D = sm.Spreading(typ, theta0=t0, method=method, s_a=rng.uniform(3, 12), s_b=rng.uniform(3, 12))
            wc = 2 * np.pi / T
            before = S1.data.copy()
            SD = D.tospecdata2d(S1, nt=nt, wc=wc)
            ctx.equal(S1.data, before, 'dir:argument')
            ctx.equal(np.shape(SD.data), (nt, S1.data.size), 'dir:shape')
            ctx.equal(SD.args[0], S1.args, 'dir:freq')
            th = np.asarray(SD.args[1])
            ctx.close(th[[0, -1]], [-np.pi, np.pi], 'dir:angles')
            ctx.equal(SD.type, 'dir', 'dir:type')
            ctx.equal(SD.freqtype, S1.freqtype, 'dir:freqtype')
            m = 0.5 * ((SD.data[1:] + SD.data[:-1]) * np.diff(th)[:, None]).sum(axis=0)
            tol = {'box': 0.08, 'cos-2s': 6. / nt, 'poisson': 0.02}.get(typ, 2e-4) * S1.data + 1e-12
            if typ == 'poisson':
                tol = tol + 0.2 * S1.data * (0.93 ** nt * 4)
            ctx.ok(np.abs(m - S1.data) <= tol, 'dir:marginal:' + typ, lambda: np.nanmax(np.abs(m - S1.data) / (S1.data + 1e-300)))
            ctx.ok(SD.data >= 0, 'dir:nonnegative')
