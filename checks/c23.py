import numpy as np
import wafo.spectrum.models as sm
from wafo.spectrum import SpecData1D
from wafo.spectrum.core import qtf
from wafo import c_library
from vlib.harness import family

RULE = ('seeded frequencies, water depths (0.5 m to infinity), gravities and complex amplitudes; sea states with compact spectra; '
        'non-trivial: at least two interacting frequencies')
ASSUMPTIONS = ['second order potential theory in the form of Sharma and Dean (1981), solved for k by Newton iteration here']


def wavenumber(w, h, g):
    w = np.asarray(w, dtype=float)
    if not np.isfinite(h):
        return w ** 2 / g
    k = np.maximum(w ** 2 / g, w / np.sqrt(g * h))
    for _ in range(60):
        t = np.tanh(k * h)
        k = k - (g * k * t - w ** 2) / (g * t + g * k * h * (1 - t ** 2))
    return k


def kernels(w, h, g):
    """Sum and difference interaction kernels K+/4 and K-/4 (Sharma & Dean), and the limit of the latter at equal frequencies."""
    k = wavenumber(w, h, g)
    R = w ** 2 / g
    Ri, Rj, ki, kj = R[:, None], R[None, :], k[:, None], k[None, :]
    a, b = np.sqrt(Ri), np.sqrt(Rj)
    kp, km = ki + kj, np.abs(ki - kj)
    th = (lambda x: np.tanh(x * h)) if np.isfinite(h) else (lambda x: np.ones_like(x))
    if np.isfinite(h):
        Dp = ((a + b) * (b * (ki ** 2 - Ri ** 2) + a * (kj ** 2 - Rj ** 2)) + 2 * (a + b) ** 2 * (ki * kj - Ri * Rj)) / (
            (a + b) ** 2 - kp * th(kp))
        Dm = ((a - b) * (b * (ki ** 2 - Ri ** 2) - a * (kj ** 2 - Rj ** 2)) + 2 * (a - b) ** 2 * (ki * kj + Ri * Rj)) / (
            (a - b) ** 2 - km * th(km))
        Kp = (Dp - (ki * kj - Ri * Rj)) / np.sqrt(Ri * Rj) + Ri + Rj
        Km = (Dm - (ki * kj + Ri * Rj)) / np.sqrt(Ri * Rj) + Ri + Rj
    else:
        Kp, Km = ki + kj, -np.abs(ki - kj)
    # group velocity limit of the set-down
    if np.isfinite(h):
        cg = 0.5 * g / w * (np.tanh(k * h) + k * h / np.cosh(np.minimum(k * h, 300)) ** 2)
        # D- -> limit: differentiate numerator/denominator to second order in the frequency difference
        num = 2 * (w / g) * (k ** 2 - R ** 2) * 0
        e = 1e-5 * w
        w1, w2 = w - e, w + e
        k1, k2 = wavenumber(w1, h, g), wavenumber(w2, h, g)
        R1, R2 = w1 ** 2 / g, w2 ** 2 / g
        s1, s2 = np.sqrt(R1), np.sqrt(R2)
        d = k2 - k1
        D = ((s1 - s2) * (s2 * (k1 ** 2 - R1 ** 2) - s1 * (k2 ** 2 - R2 ** 2)) + 2 * (s1 - s2) ** 2 * (k1 * k2 + R1 * R2)) / (
            (s1 - s2) ** 2 - d * np.tanh(d * h))
        Kd = (D - (k1 * k2 + R1 * R2)) / np.sqrt(R1 * R2) + R1 + R2
    else:
        Kd = np.zeros_like(w)
    Km = Km.copy()
    np.fill_diagonal(Km, Kd)
    return k, Kp / 4, Km / 4, Kd / 4


def frequencies(rng, n=None):
    n = int(n or rng.choice([2, 3, 5, 9]))
    w = np.cumsum(rng.uniform(0.08, 0.4, n)) + 0.2
    return w


@family(shards=2)
def transfer(ctx):
    rng = ctx.rng
    for _ in ctx.loop(250):
        w = frequencies(rng)
        h = float(rng.choice([np.inf, 1., 2., 5., 10., 30., 100., rng.uniform(0.5, 60)]))
        g = float(rng.choice([9.81, 9.8, 1.6]))
        sh = rng.permutation(len(w)) if rng.rand() < 0.4 else np.arange(len(w))
        with ctx.case(w=w, h=h, g=g, order=sh):
            k, p, m, d = kernels(w, h, g)
            if np.isfinite(h) and k.max() * h > 150:      # cosh of the Langley form: beyond its numerical range
                continue
            v = w[sh].copy()
            s, df, dii = qtf(v, h=h, g=g, method='langley')
            ctx.equal(v, w[sh], 'qtf:argument')
            ix = np.ix_(sh, sh)
            sz = np.abs(p).max() + np.abs(m).max()
            tol = dict(rtol=3e-5, atol=1e-7 * sz)
            ctx.close(s, p[ix], 'qtf:sum', **tol)
            ctx.close(df, m[ix], 'qtf:difference', rtol=1e-3, atol=1e-5 * sz)
            ctx.close(dii, d[sh], 'qtf:mean', rtol=1e-3, atol=1e-5 * sz)
            ctx.close(s, s.T, 'qtf:symmetric', rtol=1e-8, atol=1e-10 * sz)
            ctx.close(df, df.T, 'qtf:symmetric', rtol=1e-6, atol=1e-8 * sz)
            s2, df2, dii2 = qtf(v, h=h, g=g)
            ctx.close(dii2, d[sh], 'qtf:mean', rtol=1e-3, atol=1e-5 * sz)
            good = np.allclose(s2, p[ix], **tol) and np.allclose(df2, m[ix], rtol=1e-3, atol=1e-5 * sz)
            if not good:
                # known: depth misplaced in the denominators of the default form, h*tanh(k) for tanh(k*h)
                w1, w2, k1, k2 = w[:, None], w[None, :], k[:, None], k[None, :]
                t1, t2, t3 = 2 * g * k1 * k2 / (w1 * w2), (w1 ** 2 + w2 ** 2 + w1 * w2) / g, (w1 ** 2 + w2 ** 2 - w1 * w2) / g
                dq = 1 - g * h * (k1 + k2) / (w1 + w2) ** 2 * np.tanh(k1 + k2)
                q = 0.25 * ((t1 - t2 + g * (w1 * k2 ** 2 + w2 * k1 ** 2) / (w1 * w2 * (w1 + w2)))
                            / dq + t2 - 0.5 * t1)
                e = np.eye(len(w)) * 1e-300
                dr = 1 - g * h * np.abs(k1 - k2) / ((w1 - w2) ** 2 + e) * np.tanh(np.abs(k1 - k2))
                r = 0.25 * ((t1 - t3 - g * (w1 * k2 ** 2 - w2 * k1 ** 2) / (w1 * w2 * (w1 - w2) + e))
                            / dr + t3 - 0.5 * t1)
                np.fill_diagonal(r, d)
                # these denominators can vanish: compare relative to them
                near = lambda got, want, den: np.all(np.abs((got - want) * den)[np.abs(den) > 1e-5] <= 1e-4 * (
                    np.abs(want * den) + sz)[np.abs(den) > 1e-5])
                known = np.isfinite(h) and near(s2, q[ix], dq[ix]) and near(df2, r[ix], dr[ix])
                ctx.ok(False, 'qtf:default_form_misplaces_depth' if known else 'qtf:default_form', lambda: (s2, p[ix]))
            ctx.count('pairs', len(w) ** 2)
    with ctx.case(what='zero frequency'):
        for h in (np.inf, 20.):
            for meth in ('langley', 'winterstein'):
                s, d, i = qtf(np.r_[0, 0.5, 1.], h=h, method=meth)
                ctx.ok(np.isfinite(s[1:, 1:]) & np.isfinite(d[1:, 1:]) & np.isfinite(i[1:]), 'qtf:zero_frequency')
                ctx.ok(not np.any(np.isnan(s)) and not np.any(np.isnan(d)) and not np.any(np.isnan(i)), 'qtf:zero_frequency')


def second_order(A, w, h, g, n, lo, hi):
    """Second order elevation on the n-point periodic grid by direct summation over pairs lo..hi (inclusive)."""
    ix = np.arange(lo, hi + 1)
    k, p, m, d = kernels(w[ix], h, g)
    a = 2 * A[ix]
    th = 2 * np.pi * np.outer(np.arange(n), ix) / n
    e = a * np.exp(-1j * th)
    s = np.einsum('ti,ij,tj->t', e, p, e).real
    f = np.einsum('ti,ij,tj->t', e, m, e.conj()).real
    return s, f


@family(shards=2)
def summation(ctx):
    rng = ctx.rng
    for _ in ctx.loop(60):
        n = int(rng.choice([8, 16, 30, 64]))
        dw = rng.uniform(0.05, 0.3)
        w = np.arange(n // 2 + 1) * dw
        h = float(rng.choice([np.inf, 20000., 1., 5., 10., 40., rng.uniform(0.8, 80)]))
        g = float(rng.choice([9.81, 9.8]))
        cases = int(rng.choice([1, 1, 2, 3]))
        lo = int(rng.randint(1, n // 2))
        hi = int(rng.randint(lo, n // 2))
        A = rng.randn(n, cases) + 1j * rng.randn(n, cases)
        with ctx.case(n=n, dw=dw, h=h, g=g, cases=cases, lo=lo, hi=hi, A=A.ravel().view(float), nontrivial=hi > lo):
            hh = min(h, 1e30)
            kw = wavenumber(w, h, g)
            kw[0] = 0
            ra, ia = np.ascontiguousarray(A.real).ravel(), np.ascontiguousarray(A.imag).ravel()
            keep = ra.copy(), ia.copy()
            r, i = c_library.disufq(ra, ia, w, kw, hh, g, lo + 1, hi + 1, cases, n)
            ctx.equal(ra, keep[0], 'disufq:argument')
            ctx.equal(ia, keep[1], 'disufq:argument')
            x2 = np.fft.fft((r + 1j * i).reshape(n, cases), axis=0).real
            rs, is_, rd, id_ = c_library.disufq2(ra, ia, w, kw, hh, g, lo + 1, hi + 1, cases, n)
            xs = np.fft.fft((rs + 1j * is_).reshape(n, cases), axis=0).real
            xd = np.fft.fft((rd + 1j * id_).reshape(n, cases), axis=0).real
            for c in range(cases):
                s, d = second_order(A[:, c], w, h if h < 10000 else np.inf, g, n, lo, hi)
                sz = np.abs(s).max() + np.abs(d).max()
                ctx.close(x2[:, c], s + d, 'disufq:elevation', rtol=0, atol=2e-5 * sz)
                ctx.close(xs[:, c], s, 'disufq2:sum', rtol=0, atol=2e-5 * sz)
                ctx.close(xd[:, c], d, 'disufq2:difference', rtol=0, atol=2e-5 * sz)
            ctx.count('pairs', (hi - lo + 1) ** 2)


@family(shards=2)
def simulation(ctx):
    rng = ctx.rng
    for _ in ctx.loop(25):
        ns = int(rng.choice([40, 64, 101, 128]))
        h = float(rng.choice([np.inf, 30., 80., 12000.]))
        wn = rng.uniform(2.5, 4)
        n = int(rng.choice([33, 65]))
        w = np.linspace(0, wn, n)
        s = np.where((w > 0.45) & (w < 1.25), rng.uniform(0.5, 1.5, n), 0.) * 10 ** rng.uniform(-2, -0.5)
        ft = rng.choice(['w', 'f'])
        cases, seed = int(rng.choice([1, 2, 3])), int(rng.randint(1, 10 ** 6))
        method = str(rng.choice(['random', 'adeterministic', 'apdeterministic']))
        with ctx.case(ns=ns, h=h, wn=wn, s=s, freqtype=ft, cases=cases, seed=seed, method=method):
            S = SpecData1D(s, w, h=h) if ft == 'w' else SpecData1D(s * 2 * np.pi, w / 2 / np.pi, freqtype='f', h=h)
            a0, d0 = S.args.copy(), S.data.copy()
            x2, x1 = S.sim_nl(ns=ns, cases=cases, iseed=seed, method=method, output='data')
            ctx.equal(S.args, a0, 'sim_nl:argument')
            ctx.equal(S.data, d0, 'sim_nl:argument')
            m = ns + ns % 2
            dt = np.pi / wn
            ctx.equal(x1.shape, (m, cases + 1), 'sim_nl:shape')
            ctx.equal(x2.shape, (m, cases + 1), 'sim_nl:shape')
            for x in (x1, x2):
                ctx.close(x[:, 0], np.arange(m) * dt, 'sim_nl:time', rtol=1e-9, atol=1e-12)
            if method == 'random':
                ctx.close(x1, S.sim(ns=ns, cases=cases, iseed=seed), 'sim_nl:linear_part', rtol=1e-9, atol=1e-12)
            y2, y1 = S.sim_nl(ns=ns, cases=cases, iseed=seed, method=method, output='data')
            ctx.equal(y2, x2, 'sim_nl:repeatable')
            t2, t1 = S.sim_nl(ns=ns, cases=cases, iseed=seed, method=method)
            ctx.close(np.reshape(t2.data, (m, -1)), x2[:, 1:], 'sim_nl:timeseries')
            ctx.close(np.reshape(t1.data, (m, -1)), x1[:, 1:], 'sim_nl:timeseries')
            dw = 2 * np.pi / (m * dt)
            ww = np.arange(m // 2 + 1) * dw
            tab = np.interp(ww, np.r_[0, w[1:-1], ww[-1]], np.r_[0, s[1:-1], 0])
            tab[[0, -1]] = 0
            F = np.fft.fft(x1[:, 1:], axis=0) / m
            if method != 'random':
                want = np.sqrt(tab * dw / 2)[:m // 2 + 1]     # deterministic amplitudes: A^2/2 = S dw, |F| = A/2
                ctx.close(np.abs(F[1:m // 2]), np.repeat(want[1:m // 2, None], cases, 1), 'sim_nl:amplitudes', rtol=1e-6, atol=1e-6 * want.max())
            on = np.flatnonzero(tab > 1.5e-3 * s.max())
            alla = np.flatnonzero(tab > 1e-12 * s.max())
            if len(on) < 2:
                continue
            lo, hi = alla[0], alla[-1]
            for c in range(cases):
                A = F[:, c].conj() * 1.0      # x1 = fft(amp): amp = conj of the analysis coefficient
                A = np.fft.ifft(x1[:, c + 1])
                a, b = second_order(A, ww, h if h < 10000 else np.inf, 9.81, m, lo, hi)
                got = x2[:, c + 1] - x1[:, c + 1]
                sz = np.abs(a).max() + np.abs(b).max()
                # energies below reltol of the peak may be left out at the lower end
                ctx.close(got, a + b, 'sim_nl:second_order', rtol=0, atol=0.06 * sz)
            ctx.count('pairs', len(on) ** 2)


@family(shards=2)
def truncation(ctx):
    """Which frequencies take part in the second order: up to fnlimit, from the shallow water limit and reltol on."""
    rng = ctx.rng
    for _ in ctx.loop(40):
        ns = int(rng.choice([64, 100, 128, 200]))
        h = float(rng.choice([np.inf, rng.uniform(2.5, 4), rng.uniform(4, 12), 30., 80.]))
        wn, n = rng.uniform(2.5, 4.5), int(rng.choice([65, 129]))
        w = np.linspace(0, wn, n)
        wp, tail = rng.uniform(0.5, 1.0), rng.uniform(2, 5)
        s = np.zeros(n)
        s[1:] = (w[1:] / wp) ** -tail * np.exp(-tail / 4 * (w[1:] / wp) ** -4)
        s *= (rng.uniform(0.5, 2.5) * (0.5 if h < 15 else 1) / 4) ** 2 / np.trapz(s, w)
        fnlimit = float(rng.choice([1.4142, rng.uniform(0.8, 2)]))
        reltol = float(rng.choice([1e-3, 1e-2, 0.1]))
        cases, seed = int(rng.choice([1, 2])), int(rng.randint(1, 10 ** 6))
        with ctx.case(ns=ns, h=h, wn=wn, n=n, wp=wp, tail=tail, fnlimit=fnlimit, reltol=reltol, cases=cases, seed=seed):
            S = SpecData1D(s, w, h=h)
            x2, x1 = S.sim_nl(ns=ns, cases=cases, iseed=seed, fnlimit=fnlimit, reltol=reltol, output='data')
            dw = 2 * np.pi / (ns * np.pi / wn)
            ww = np.arange(ns // 2 + 1) * dw
            tab = np.interp(ww, np.r_[0, w[1:-1], ww[-1]], np.r_[0, s[1:-1], 0])
            m0, m2 = np.trapz(s, w), np.trapz(s * w ** 2, w)
            kbar = wavenumber(np.array([np.sqrt(m2 / m0)]), h, 9.81)[0]
            amax = np.sqrt(2 * np.log(1000.) * m0)
            th = np.tanh(kbar * h) if np.isfinite(h) else 1.
            up = fnlimit * np.sqrt(9.81 * th / amax) / dw
            low = np.sqrt(9.81 * th * amax / h ** 3) / dw if np.isfinite(h) else 0.
            # reltol: relative to the peak of the one-sided, or of the two-sided, density
            firsts = [np.flatnonzero(tab > r * reltol * s[1:-1].max())[0] for r in (0.999, 2.002)]
            if min(abs(up - round(up)), abs(low - round(low)) if low > 0.9 else 1) < 0.02:
                continue
            hi = min(int(np.floor(up)), ns // 2 - 1)
            los = sorted({max(k, int(np.ceil(low)), 1) for k in range(firsts[0], firsts[1] + 1)})
            if hi <= los[-1]:
                continue
            ctx.count('upper limit active', hi < ns // 2 - 1)
            ctx.count('lower limit active', los[0] > firsts[0])
            for c in range(cases):
                got, err = x2[:, c + 1] - x1[:, c + 1], []
                for lo in los:
                    a, b = second_order(np.fft.ifft(x1[:, c + 1]), ww, h, 9.81, ns, lo, hi)
                    err.append(np.abs(got - a - b).max() / (np.abs(a).max() + np.abs(b).max()))
                ctx.ok(min(err) < 1e-4, 'sim_nl:truncated', 'frequencies %s..%d: differs by %g' % (los, hi, min(err)))
            lo = los[0]
            ctx.count('pairs', (hi - lo + 1) ** 2)


@family()
def statistics(ctx):
    rng = ctx.rng
    for _ in ctx.loop(40):
        Hs, Tp = rng.uniform(1, 8), rng.uniform(6, 14)
        nw = int(rng.choice([65, 129, 257]))
        S = sm.Jonswap(Hs, Tp, gamma=2.).tospecdata(nw=nw) if rng.rand() < 0.5 else sm.Bretschneider(Hs, Tp).tospecdata(nw=nw)
        if rng.rand() < 0.3:
            S.freqtype = 'f'
        with ctx.case(Hs=Hs, Tp=Tp, nw=nw, freqtype=S.freqtype):
            w = S.args * (2 * np.pi if S.freqtype == 'f' else 1)
            s = S.data / (2 * np.pi if S.freqtype == 'f' else 1)
            d0 = S.data.copy()
            me, va, sk, ku = S.stats_nl(moments='mvsk')
            ctx.equal(S.data, d0, 'stats_nl:argument')
            # deep water: kernels are (k1+k2)/4 and -|k1-k2|/4, so H+ + H- = min(k1,k2)/2
            k = w ** 2 / 9.81
            dw = np.gradient(w)
            dw[[0, -1]] = (w[1] - w[0]) / 2
            q = s * dw
            m0 = q.sum()
            skew = 6 / m0 ** 1.5 * np.einsum('i,ij,j', q, np.minimum.outer(k, k) / 2, q)
            ctx.close(me, 0., 'stats_nl:mean', atol=1e-12)
            ctx.close(va, m0, 'stats_nl:variance', rtol=2e-2)
            ctx.close(sk, skew, 'stats_nl:skewness', rtol=3e-2)
            ctx.close(ku, 3 + (4 * sk / 3) ** 2, 'stats_nl:kurtosis', rtol=1e-9)
            ctx.close(S.stats_nl(), [sk, ku], 'stats_nl:selection', rtol=1e-12)
            ctx.close(S.stats_nl(moments='k'), [ku], 'stats_nl:selection', rtol=1e-12)
            ctx.close(S.stats_nl(moments='mv'), [me, va], 'stats_nl:selection', rtol=1e-12, atol=1e-15)
            ctx.raises(ValueError, lambda: S.stats_nl(method='xx'), 'stats_nl:refuse')
            f = rng.uniform(0.3, 0.8)
            T = S.copy()
            T.data = S.data * f
            ctx.close(T.stats_nl(moments='s')[0], sk * np.sqrt(f), 'stats_nl:scaling', rtol=1e-9)
