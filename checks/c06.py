import numpy as np
import wafo.spectrum.models as sm
from wafo.spectrum import SpecData1D
from wafo.covariance import CovData1D
from wafo.objects import TimeSeries
from scipy.stats import chi2
from scipy.signal import get_window
from vlib.harness import family

RULE = ('seeded one-sided spectra (random tables, gaussian bumps, band limited, models; rad/s, Hz and wave number axes; lengths 3..257), '
        'directional spectra and sampled series; non-trivial: the spectrum has at least 3 frequencies and positive energy')
ASSUMPTIONS = ['trapezoidal/closed-form moment references of this module', 'numpy FFT accurate to rounding']


def trapz(y, x):
    return float(np.sum((y[1:] + y[:-1]) * np.diff(x)) / 2)


def table(rng):
    """A random one-sided spectrum table on an equidistant grid from zero."""
    n = int(rng.choice([3, 4, 5, 9, 17, 20, 33, 50, 64, 65, 101, 129, 257]))
    wn = rng.choice([0.4, 1., np.pi, rng.uniform(0.5, 9)])
    w = np.linspace(0, wn, n)
    kind = rng.choice(['random', 'bump', 'model', 'band', 'line'])
    if kind == 'random':
        s = rng.rand(n)
    elif kind == 'bump':
        s = np.exp(-0.5 * ((w / wn - 0.4) / 0.12) ** 2)
    elif kind == 'model':
        s = sm.Bretschneider(4, 2 * np.pi / (0.3 * wn))(w)
    elif kind == 'band':
        s = ((w > 0.2 * wn) & (w < 0.7 * wn)) * rng.uniform(0.5, 2, n)
    else:
        s = np.zeros(n)
        s[rng.randint(1, n)] = 1.
    return w, s * rng.choice([1., 37., 1e-3])


def make(w, s, ft):
    if ft == 'f':
        return SpecData1D(s * 2 * np.pi, w / (2 * np.pi), freqtype='f')
    if ft == 'k':
        return SpecData1D(s.copy(), w.copy(), type='k1d', freqtype='k')
    return SpecData1D(s.copy(), w.copy())


@family(shards=2)
def covariance(ctx):
    rng = ctx.rng
    for _ in ctx.loop(300):
        w, s = table(rng)
        ft = rng.choice(['w', 'f', 'k'])
        rate = rng.choice([None, 1, 2, 3, 4, 8])
        nr = int(rng.randint(0, 5))
        nt = rng.choice([None, 1, len(w) // 2 + 1, len(w) - 1, 5 * len(w)])
        with ctx.case(w=w, s=s, freqtype=ft, rate=rate, nr=nr, nt=nt, nontrivial=s.max() > 0):
            S = make(w, s, ft)
            keep = S.data.copy(), np.array(S.args, copy=True)
            R = S.tocovdata(nr=nr, nt=nt, rate=rate)
            ctx.equal(S.data, keep[0], 'tocov:argument')
            ctx.equal(S.args, keep[1], 'tocov:argument')
            t = np.asarray(R.args)
            r = np.asarray(R.data)
            rr = 1 if rate is None else 2 ** int(np.ceil(np.log2(rate)))
            ctx.equal(len(r), min(nt if nt is not None else 10 ** 9, rr * (len(w) - 1)) + 1, 'tocov:length')
            ctx.equal(len(t), len(r), 'tocov:lags')
            ctx.ok(t[0] == 0 and np.all(np.diff(t) > 0), 'tocov:lag_order')
            m0 = trapz(s, w)
            # the covariance is the (trapezoidal) cosine transform of the table, its derivatives follow
            W = np.empty_like(w)
            W[1:-1] = w[1] - w[0]
            W[[0, -1]] = 0.5 * (w[1] - w[0])
            ph = np.outer(t, w)
            f = [np.cos, lambda x: -np.sin(x), lambda x: -np.cos(x), np.sin, np.cos]
            scale = m0 + 1e-300
            ctx.close(r, f[0](ph) @ (W * s), 'tocov:cosine', rtol=0, atol=1e-10 * scale)
            ctx.close(r[0], m0, 'tocov:zero_lag', rtol=1e-10)
            ctx.ok(np.abs(r) <= m0 * (1 + 1e-9), 'tocov:bounded')
            ctx.equal(R.lagtype, 'x' if ft == 'k' else 't', 'tocov:lagtype')
            for i in range(1, nr + 1):
                d = np.asarray(getattr(R, 'R' + ('x' if ft == 'k' else 't') * i))
                ctx.close(d, f[i](ph) @ (W * s * w ** i), 'tocov:derivative%d' % i, rtol=0, atol=1e-9 * scale * max(1, w[-1]) ** i)
            # step: lags up to pi/wn resolve the Nyquist frequency, refined by the rate (power of two padding may refine further)
            dt = np.pi / w[-1]
            ctx.ok(t[1] <= dt * (1 + 1e-9) / rr * (1 if rr == 1 else 1), 'tocov:step', lambda: (t[1], dt, rr))
            ctx.count('lags', len(r))
            p = 2 * len(w) - 2
            if rate in (None, 1) and nt is None and (p & (p - 1)) == 0:
                S2 = R.tospecdata(trunc=0.)
                w2 = np.asarray(S2.args)
                ctx.close(w2, w, 'roundtrip:frequencies', rtol=1e-12, atol=1e-12)
                ctx.close(S2.data, s, 'roundtrip:density', rtol=0, atol=1e-10 * s.max() + 1e-300)
                ctx.equal(S2.freqtype, 'k' if ft == 'k' else 'w', 'roundtrip:freqtype')
                S3 = R.tospecdata()
                ctx.close(S3.data, np.where(s < 1e-5 * s.max(), 0, s), 'roundtrip:truncated', rtol=0, atol=1.01e-5 * s.max() + 1e-300)
                R2 = S2.tocovdata()
                ctx.close(R2.data, r, 'roundtrip:covariance', rtol=0, atol=1e-9 * scale)
                ctx.count('exact round trips')
                q = 2
                S4 = R.tospecdata(rate=q, trunc=0.)
                ctx.close(np.asarray(S4.args)[::q], w, 'roundtrip:rate_frequencies', rtol=1e-12, atol=1e-12)
        if rng.rand() < 0.2:
            with ctx.case(w=w, what='refuse'):
                ctx.raises(ValueError, lambda: SpecData1D(s, w + 0.1).tocovdata(), 'tocov:refuse_nonzero_start')
                if len(w) > 3:
                    w2 = w.copy()
                    w2[-1] *= 1.3
                    ctx.raises(ValueError, lambda: SpecData1D(s, w2).tocovdata(), 'tocov:refuse_uneven')


GX, GQ = np.polynomial.legendre.leggauss(400)


def bump(rng):
    """Sum of gaussian bumps well inside the grid: all moments known in closed form."""
    k = rng.randint(1, 3)
    wn = rng.uniform(1, 8)
    n = int(rng.choice([401, 800, 1001]))
    w = np.linspace(0, wn, n)
    par = [(rng.uniform(0.2, 3), rng.uniform(0.35, 0.6) * wn, rng.uniform(0.02, 0.045) * wn) for _ in range(k)]
    s = sum(a * np.exp(-0.5 * ((w - m) / d) ** 2) for a, m, d in par)

    x = 0.5 * wn * (GX + 1)
    v = sum(a * np.exp(-0.5 * ((x - m) / d) ** 2) for a, m, d in par)

    def mom(i, p=1):
        return 0.5 * wn * np.sum(GQ * v ** p * x ** i)
    return w, s, mom, par


def chars(m, g):
    m_1, m0, m1, m2, m3, m4 = m
    H, T2 = 4 * np.sqrt(m0), np.sqrt(m0 / m2)
    return np.array([H, m0 / m1, T2, np.sqrt(m2 / m4), m_1 / m0, 2 * np.pi * H / g / T2 ** 2, m2 / np.sqrt(m0 * m4),
                     np.sqrt(m0 * m2 / m1 ** 2 - 1), np.sqrt(1 - m2 ** 2 / m0 / m4)])


VARIDX = [0, 1, 2, 3, 4, 6, 11, 12, 13]
NAMES = ['Hm0', 'Tm01', 'Tm02', 'Tm24', 'Tm_10', 'Tp', 'Ss', 'Sp', 'Ka', 'Rs', 'Tp1', 'Alpha', 'Eps2', 'Eps4', 'Qp']


@family(shards=2)
def moments(ctx):
    rng = ctx.rng
    for _ in ctx.loop(60):
        w, s, mom, par = bump(rng)
        ft = rng.choice(['w', 'f', 'k'])
        with ctx.case(w_n=w[-1], n=len(w), par=par, freqtype=ft):
            S = make(w, s, ft)
            v = 'x' if ft == 'k' else 't'
            for nr in (0, 1, 2, 4):
                for even in (True, False):
                    for j in (0, 1):
                        m, txt = S.moment(nr=nr, even=even, j=j)
                        step = 2 if even else 1
                        idx = list(range(0, nr + 1, step))
                        ctx.equal(txt, ['m%d' % j + v * i for i in idx], 'moment:names')
                        ctx.close(m, [mom(i, j + 1) for i in idx], 'moment:values', rtol=2e-6)
            if ft == 'k':
                continue
            T, g = rng.uniform(300, 3000), rng.choice([9.81, 9.7])
            ch, R, txt = S.characteristic(list(range(15)), T=T, g=g)
            ctx.equal(txt, NAMES, 'characteristic:names')
            mk = np.array([mom(k) / (2 * np.pi) ** k for k in range(-1, 5)])
            base = chars(mk, g)
            ctx.close(ch[VARIDX], base, 'characteristic:values', rtol=2e-4)
            ctx.close(ch[5], 2 * np.pi / w[s.argmax()], 'characteristic:Tp', rtol=1e-9)
            ctx.close(ch[7], 2 * np.pi * ch[0] / g / ch[5] ** 2, 'characteristic:Sp', rtol=1e-9)
            ctx.close(ch[10], 2 * np.pi * mom(0, 4) / mom(1, 4), 'characteristic:Tp1', rtol=1e-4)
            ctx.close(ch[14], 2 * mom(1, 2) / mom(0) ** 2, 'characteristic:Qp', rtol=1e-4)
            T2 = ch[2]
            ka = abs(np.sum(s * np.exp(1j * w * T2)) * (w[1] - w[0])) / mom(0)
            ctx.close(ch[8], ka, 'characteristic:Ka', rtol=1e-4, atol=1e-6)
            rs = np.interp(2 * np.pi * np.array([0.0146, 0.0195, 0.0244]), w, s).sum() / 3 / s.max()
            ctx.close(ch[9], rs, 'characteristic:Rs', rtol=1e-6, atol=1e-12)
            # covariances by the delta method with a numerical gradient
            C = np.array([[mom(a + b, 2) / (2 * np.pi) ** (a + b - 1) for a in range(-1, 5)] for b in range(-1, 5)]) / T
            J = []
            for k in range(6):
                h = 1e-5 * mk[k]
                e = np.eye(6)[k] * h
                J.append((chars(mk + e, g) - chars(mk - e, g)) / (2 * h))
            V = np.array(J).T @ C @ np.array(J)
            q = np.arange(9) != 7                    # Eps2 is a small difference of moments
            ctx.close(np.diag(R)[VARIDX][q], np.diag(V)[q], 'characteristic:variance', rtol=2e-2)
            ctx.close(R[12, 12], V[7, 7], 'characteristic:variance', rtol=0.02 + 0.004 / base[7] ** 2)
            ctx.close(R[1, 2], V[1, 2], 'characteristic:cov(Tm01,Tm02)', rtol=2e-2)
            ctx.ok(np.array_equal(np.isnan(R), np.isnan(R.T)) and np.allclose(np.nan_to_num(R), np.nan_to_num(R.T), rtol=1e-10),
                   'characteristic:symmetric')
            if not (np.allclose(R[0, 1:3], V[0, 1:3], rtol=2e-2)):
                shifted = np.isnan(R[0, 1]) and np.allclose(R[0, 2:4], V[0, 1:3], rtol=2e-2)
                ctx.ok(False, 'characteristic:covariances_shifted' if shifted else 'characteristic:covariances',
                       lambda: (R[0, :4], V[0, :4]))
            for i in rng.permutation(15)[:3]:
                nm = NAMES[i]
                nm = rng.choice([nm, nm.lower()])
                c1, r1, t1 = S.characteristic(str(nm), T=T, g=g)
                ctx.close(c1, ch[[i]], 'characteristic:name', rtol=1e-12)
                ctx.close(r1, R[i:i + 1, i:i + 1], 'characteristic:name_variance', rtol=1e-12)
                ctx.close(S.characteristic(int(i), T=T, g=g)[0], ch[[i]], 'characteristic:number', rtol=1e-12)
            ctx.raises(ValueError, lambda: S.characteristic('nosuch'), 'characteristic:refuse')
            ctx.raises(ValueError, lambda: S.characteristic([1, 15]), 'characteristic:refuse')
            bw = S.bandwidth([0, 1, 2, 3])
            ctx.close(bw, ch[[11, 12, 13, 14]], 'bandwidth:values', rtol=1e-8)
            for i, nm in enumerate(['alpha', 'eps2', 'eps4', 'qp']):
                ctx.close(S.bandwidth(nm), bw[[i]], 'bandwidth:name', rtol=1e-12)
                ctx.close(S.bandwidth([i]), bw[[i]], 'bandwidth:number', rtol=1e-12)
            ctx.ok((0 <= bw[0] <= 1 + 1e-9) and bw[1] >= 0 and 0 <= bw[2] <= 1, 'bandwidth:range', lambda: bw)


@family(shards=2)
def conversions(ctx):
    rng = ctx.rng
    for _ in ctx.loop(120):
        w, s = table(rng)
        if s.max() <= 0 or len(w) < 9:
            continue
        with ctx.case(w=w, s=s):
            S = make(w, s, 'w')
            C = S.copy()
            C.freqtype = 'f'
            ctx.equal(S.data, s, 'freqtype:original')
            ctx.equal(S.args, w, 'freqtype:original')
            ctx.close(C.args, w / (2 * np.pi), 'freqtype:hertz', rtol=1e-14)
            ctx.close(C.data, s * 2 * np.pi, 'freqtype:density', rtol=1e-14)
            ctx.equal(C.freqtype, 'f', 'freqtype:flag')
            for nr in (2, 4):
                ctx.close(C.moment(nr)[0], S.moment(nr)[0], 'freqtype:moments', rtol=1e-10)
            ctx.close(C.tocovdata().data, S.tocovdata().data, 'freqtype:covariance', rtol=0, atol=1e-10 * s.max() * w[-1])
            ctx.close(C.sampling_period(), S.sampling_period(), 'freqtype:sampling', rtol=1e-12)
            ctx.close(S.sampling_period(), np.pi / w[-1], 'sampling_period', rtol=1e-12)
            ctx.close(S.nyquist_freq(), w[-1], 'nyquist', rtol=1e-12)
            C.freqtype = 'w'
            ctx.close(C.args, w, 'freqtype:back', rtol=1e-14)
            ctx.close(C.data, s, 'freqtype:back', rtol=1e-14)
            C.freqtype = 'w'
            ctx.close(C.data, s, 'freqtype:same', rtol=1e-14)
            for ft in 'wfk':
                N = make(w, s, ft)
                N0 = N.copy()
                N.normalize()
                m = N.moment(4)[0]
                ctx.close(m[:2], [1., 1.], 'normalize:moments', rtol=1e-8)
                ctx.equal(N0.args, make(w, s, ft).args, 'normalize:original')
                ctx.equal(N0.data, make(w, s, ft).data, 'normalize:original')
                M = N0.moment(4)[0]
                ctx.close(m[2], M[2] * M[0] / M[1] ** 2, 'normalize:fourth_moment', rtol=1e-8)
                ctx.ok(N.norm, 'normalize:flag')
                q = N.args / N0.args[:]
                ctx.close(q[1:], np.full(len(w) - 1, q[1]), 'normalize:linear', rtol=1e-10)
                again = N.copy()
                again.normalize()
                ctx.close(again.data, N.data, 'normalize:idempotent', rtol=1e-8)
                if ft != 'k' and np.sum(s > 0) > 1:
                    ctx.close(N.bandwidth([0, 1, 2, 3]), N0.bandwidth([0, 1, 2, 3]), 'normalize:bandwidth', rtol=1e-7, atol=1e-7)


@family(shards=2)
def resampling(ctx):
    rng = ctx.rng
    for _ in ctx.loop(60):
        Tp = rng.uniform(4, 15)
        mod = rng.choice([0, 1, 2])
        S0 = [sm.Bretschneider(3, Tp), sm.Jonswap(3, Tp, gamma=2.), sm.Torsethaugen(4, Tp)][mod].tospecdata(nw=int(rng.choice([65, 129, 200, 257])))
        if rng.rand() < 0.3:
            S0.freqtype = 'f'
        lo = 0
        if rng.rand() < 0.2:           # a table that starts above zero
            lo = rng.randint(1, 4)
            S0 = SpecData1D(S0.data[lo:], S0.args[lo:], freqtype=S0.freqtype)
        f = rng.choice([1., rng.uniform(1, 4), rng.uniform(0.4, 1)])
        dt = S0.sampling_period() / f
        meth = str(rng.choice(['stineman', 'linear', 'cubic']))
        nmin = int(rng.choice([0, 300]))
        with ctx.case(model=int(mod), Tp=Tp, n=len(S0.data), dt=dt, freqtype=S0.freqtype, method=meth, start=lo, nmin=nmin):
            S = S0.copy()
            a0, d0 = S0.args.copy(), S0.data.copy()
            S.resample(dt, Nmin=nmin, method=meth)
            ctx.equal(S0.args, a0, 'resample:original')
            ctx.equal(S0.data, d0, 'resample:original')
            w, s = np.asarray(S.args), np.asarray(S.data)
            ctx.ok(w[0] == 0, 'resample:start')
            ctx.close(S.sampling_period(), dt, 'resample:step', rtol=1e-9)
            ctx.close(np.diff(w), np.full(len(w) - 1, w[1]), 'resample:equidistant', rtol=1e-7)
            ctx.ok(len(w) >= nmin and (len(w) - 1) & (len(w) - 2) == 0, 'resample:length', lambda: len(w))
            ctx.ok(s >= 0, 'resample:nonnegative')
            ctx.ok(np.isfinite(s), 'resample:finite')
            inside = (w <= a0[-1]) & (w >= a0[0])
            h = a0[1] - a0[0]
            lin = np.interp(w, a0, d0)
            curv = np.zeros_like(d0)
            curv[1:-1] = np.abs(np.diff(d0, 2))
            cmax = np.interp(w, a0, np.maximum.reduce([np.roll(curv, k) for k in (-2, -1, 0, 1, 2)]))
            ctx.ok(np.abs(s - lin)[inside] <= (0.6 * cmax + (6e-3 if meth == 'cubic' else 1e-9) * d0.max())[inside], 'resample:interpolates:' + meth,
                   lambda: np.max((np.abs(s - lin) - 0.6 * cmax)[inside]) / d0.max())
            nodes = np.isclose(np.mod(w / h + 0.5 - (a0[0] / h), 1), 0.5, atol=1e-7) & inside
            ctx.close(s[nodes], lin[nodes], 'resample:nodes', rtol=1e-5, atol=1e-8 * d0.max())
            ctx.close(s[w > a0[-1] + 2 * h], 0 * s[w > a0[-1] + 2 * h], 'resample:zero_above', rtol=0, atol=0.02 * d0[-1] + 1e-12)
            if f >= 1:
                ctx.close(S.moment(2)[0], S0.moment(2)[0], 'resample:moments', rtol=5e-2)
            I = S0.interp(dt)
            S2 = S0.copy()
            S2.resample(dt)
            ctx.close(I.data, S2.data, 'interp', rtol=1e-12)
            ctx.close(I.args, S2.args, 'interp', rtol=1e-12)
            ctx.equal(S0.data, d0, 'interp:original')
            if lo == 0:
                nr = int(rng.randint(0, 4))
                nt = int(rng.choice([4, 20, 60]))
                A = S0.tocov_matrix(nr=nr, nt=nt, dt=dt)
                R = I.tocovdata(nr=nr)
                ctx.equal(A.shape, (nt + 1, nr + 1), 'covmatrix:shape')
                tt = np.arange(nt + 1) * dt
                ww, ss = I.args * (2 * np.pi if I.freqtype == 'f' else 1), I.data / (2 * np.pi if I.freqtype == 'f' else 1)
                W = np.full_like(ww, ww[1])
                W[[0, -1]] *= 0.5
                fs = [np.cos, lambda x: -np.sin(x), lambda x: -np.cos(x), np.sin]
                for i in range(nr + 1):
                    ctx.close(A[:, i], fs[i](np.outer(tt, ww)) @ (W * ss * ww ** i), 'covmatrix:column%d' % i, rtol=0,
                              atol=1e-8 * (W * ss).sum() * max(1, ww[-1]) ** i)


@family()
def directional(ctx):
    rng = ctx.rng
    for _ in ctx.loop(40):
        t0, typ = rng.uniform(-3, 3), str(rng.choice(['mises', 'poisson', 'wrap', 'cos']))
        H, T = rng.uniform(1, 6), rng.uniform(5, 13)
        mth = rng.choice([None, 'mitsuyasu'])
        with ctx.case(theta0=t0, type=typ, H=H, T=T, method=mth):
            S1 = sm.Bretschneider(H, T).tospecdata(nw=97)
            mk = lambda th: sm.Spreading(typ, theta0=th, method=mth, s_a=4., s_b=4.).tospecdata2d(S1, nt=241, wc=2 * np.pi / T)
            D = mk(t0)
            before = D.data.copy()
            m, txt = D.moment(nr=4, vari='xyt')
            ctx.equal(D.data, before, 'moment2d:argument')
            w, th = np.asarray(D.args[0]), np.asarray(D.args[1])
            k = w ** 2 / 9.81
            dth = th[1] - th[0]
            for v, name in zip(m, txt):
                nx, ny, ntt = name.count('x'), name.count('y'), name.count('t')
                wt = np.cos(th) ** nx * np.sin(th) ** ny
                dens = (D.data[:-1] * wt[:-1, None]).sum(axis=0) * dth * k ** (nx + ny) * w ** ntt
                want = trapz(dens, w)
                size = trapz((D.data[:-1]).sum(axis=0) * dth * k ** (nx + ny) * w ** ntt, w)
                if name == 'myt' and abs(v - want) > 1e-2 * size:
                    d2 = (D.data[:-1] * np.cos(th)[:-1, None]).sum(axis=0) * dth * k * w
                    ctx.ok(False, 'moment2d:myt_uses_cosine' if abs(v - trapz(d2, w)) < 1e-2 * size else 'moment2d:myt', (v, want))
                    continue
                ctx.close(v, want, 'moment2d:' + name, rtol=0, atol=1e-2 * size)
            ctx.close(m[0], S1.moment(0)[0][0], 'moment2d:variance', rtol=6e-3)
            for vari in ('x', 'y', 't', 'xy', 'xt', 'yt', 'tx'):
                for nr in (0, 1, 2, 4):
                    try:
                        mm, tt = D.moment(nr=nr, vari=vari)
                    except UnboundLocalError:
                        if not (vari == 'yt' and nr >= 2):
                            raise
                        ctx.ok(False, 'moment2d:yt_without_x')
                        continue
                    full = dict(zip(txt, m))
                    ctx.equal(len(mm), len(tt), 'moment2d:names')
                    ctx.ok(all(set(t[1:]) <= set(vari) | {'0'} and len(t) - 1 <= max(nr, 1) for t in tt), 'moment2d:kinds', lambda: tt)
                    ctx.close(mm, [full[t] for t in tt], 'moment2d:subset', rtol=1e-10, atol=1e-12)
            phi = rng.uniform(-3, 3)
            A, B, C = mk(t0), mk(t0), mk(t0 - phi)
            A.rotate(phi)
            B.rotate(phi, rotateGrid=True)
            ctx.equal(A.data, before, 'rotate:grid_kept')
            mc = C.moment(nr=2, vari='xyt')[0]
            sz = np.abs(mc).max()
            ctx.close(A.moment(nr=2, vari='xyt')[0], mc, 'rotate:phi', rtol=1e-3, atol=2e-3 * sz)
            ctx.close(B.moment(nr=2, vari='xyt')[0], mc, 'rotate:grid', rtol=4e-3, atol=4e-3 * sz)
            ctx.ok(np.abs(B.data - C.data) <= 0.03 * C.data.max(), 'rotate:values', lambda: np.abs(B.data - C.data).max() / C.data.max())
            ctx.close(np.asarray(B.args[1])[[0, -1]], [-np.pi, np.pi], 'rotate:angles')


@family()
def estimation(ctx):
    rng = ctx.rng
    for _ in ctx.loop(120):
        n = int(rng.choice([16, 40, 64, 100, 257]))
        x = np.cumsum(rng.randn(n)) * 0.3 + rng.randn(n) + 5
        dt = rng.choice([0.25, 1., rng.uniform(0.1, 2)])
        lag = int(rng.randint(2, n - 6))
        flag = str(rng.choice(['biased', 'unbiased']))
        norm = bool(rng.rand() < 0.3)
        win = str(rng.choice(['boxcar', 'parzen', 'hann']))
        miss = rng.rand() < 0.3
        if miss:
            x[rng.randint(0, n, 3)] = np.nan
        with ctx.case(x=x, dt=dt, lag=lag, flag=flag, norm=norm, window=win):
            ts = TimeSeries(x, np.arange(n) * dt)
            R = ts.tocovdata(lag=lag, flag=flag, norm=norm, window=win, detrend=None)
            ok = np.isfinite(x)
            y = np.where(ok, x - x[ok].mean(), 0.)
            nc = ok.sum()
            c = np.array([np.sum(y[:n - k] * y[k:]) / nc for k in range(lag + 1)])
            if flag == 'unbiased':
                c = c * nc / (nc - np.arange(lag + 1.))
            if norm:
                c = c / c[0]
            from scipy.signal.windows import get_window
            ww = get_window(win, 2 * lag - 1, fftbins=False)[lag - 1:]
            want = np.append(c[:lag] * ww, 0.)
            tol = dict(rtol=1e-8, atol=1e-9 * np.abs(c).max())
            late = np.append(c[:lag] * get_window(win, 2 * lag - 1)[lag - 1:], 0.)
            half = np.shape(R.data) == want.shape and np.allclose(R.data, late, **tol) and not np.allclose(R.data, want, **tol)
            if half:                       # the window is centred half a lag off
                ctx.ok(False, 'estimate:window_half_a_lag_off', lambda: (R.data[:3], want[:3]))
            else:
                ctx.close(R.data, want, 'estimate:covariance', **tol)
            ctx.close(R.args, np.arange(lag + 1) * dt, 'estimate:lags', rtol=1e-10, atol=1e-12)
            if miss:
                continue
            for method in ('cov', 'psd', 'psdo'):
                ft = str(rng.choice(['w', 'f']))
                S = ts.tospecdata(L=lag, method=method, window=win, ftype=ft)
                ctx.equal(S.freqtype, ft, 'estimate:freqtype')
                ctx.ok(np.all(S.data >= 0) and np.all(np.isfinite(S.data)), 'estimate:nonnegative')
                ctx.close(S.args[-1] * (2 * np.pi if ft == 'f' else 1), np.pi / dt, 'estimate:nyquist', rtol=1e-9)
            for method in ('cov', 'psd', 'psdo'):
                S = ts.tospecdata(L=lag, method=method, window=win, alpha=0.05)
                w = np.asarray(S.args)
                if method == 'cov':      # Fourier transform of the covariance, cleared of the smallest and of negative values
                    r = ts.tocovdata(lag=lag, window=win).data
                    k = np.arange(1, len(r))
                    want = dt / np.pi * (r[0] + 2 * np.cos(np.outer(w, k * dt)) @ r[1:])
                    top = want.max()
                    want[want < 0] = 0
                    ctx.close(S.data, want, 'estimate:transform', rtol=1e-6, atol=2e-3 * top)
                else:                    # averaged modified periodograms
                    m = 2 * lag - 1
                    if m > n:
                        continue
                    ww = get_window(win, m)
                    step = m - m // 2 if method == 'psdo' else m
                    y = x - x.mean()
                    seg = np.array([y[i:i + m] for i in range(0, n - m + 1, step)])
                    fits = []
                    for mean in (0., seg.mean(), seg.mean(axis=1)[:, None]):      # whether batches are detrended once more
                        want = np.mean(np.abs(((seg - mean) * ww) @ np.exp(-1j * np.outer(np.arange(m) * dt, w))) ** 2, axis=0)
                        want = want * dt / np.sum(ww ** 2) / np.pi
                        want[[0, -1]] /= 2
                        fits.append(np.shape(S.data) == want.shape and np.allclose(S.data, want, rtol=1e-6, atol=1e-9 * want.max()))
                    ctx.ok(any(fits), 'estimate:periodograms', lambda: (S.data[:4], want[:4]))
                ctx.ok(len(w) >= lag, 'estimate:resolution', lambda: len(w))
                if win == 'parzen':
                    L = min(lag, n - 1)
                    ctx.close(S.Bw, 1.33 * 2 * np.pi / (L * dt), 'estimate:bandwidth', rtol=1e-9)
                    dof = int(3.71 * n / L)
                    ctx.close(S.CI, [dof / chi2.ppf(0.975, dof), dof / chi2.ppf(0.025, dof)], 'estimate:confidence', rtol=1e-6)
            S = ts.tospecdata(L=lag, window='parzen')
            r0 = ts.tocovdata(lag=lag, window='parzen').data[0]
            ctx.close(trapz(S.data, S.args), r0, 'estimate:variance', rtol=0.3)
            ctx.equal(ts.data, x, 'estimate:argument')


@family()
def estimation_variants(ctx):
    """The other ways of asking for the same estimate, and the interpolated transform of a covariance."""
    from scipy.interpolate import interp1d
    from scipy.signal.windows import get_window
    from wafo.covariance.estimation import CovarianceEstimator
    from wafo.transform.models import TrLinear, TrHermite
    rng = ctx.rng
    for _ in ctx.loop(60):
        n = int(rng.choice([40, 64, 100, 257]))
        x = np.convolve(rng.randn(n + 4), [.2, .5, 1, .5, .2], 'valid') + rng.choice([0., 5.])
        dt = float(rng.choice([0.25, 1., rng.uniform(0.1, 2)]))
        t = np.arange(n) * dt
        lag = int(rng.randint(3, n - 6))
        flag = str(rng.choice(['biased', 'unbiased']))
        win = str(rng.choice(['boxcar', 'parzen', 'hann']))
        with ctx.case(n=n, dt=dt, lag=lag, flag=flag, window=win):
            ts = TimeSeries(x, t)
            R = ts.tocovdata(lag=lag, flag=flag, window=win)
            for what, Q in (('window', ts.tocovdata(lag=lag, flag=flag, window=get_window(win, 2 * lag - 1))),
                            ('array', CovarianceEstimator(lag=lag, flag=flag, window=win)(np.c_[t, x])),
                            ('columns', TimeSeries(x.reshape(-1, 1), t).tocovdata(lag=lag, flag=flag, window=win)),
                            ('shift', TimeSeries(x + 7, t - 3).tocovdata(lag=lag, flag=flag, window=win))):
                if what == 'window':          # an array is symmetric whatever a name means
                    if win == 'boxcar':
                        ctx.close(Q.data, R.data, 'variant:window', rtol=1e-9, atol=1e-12)
                    continue
                ctx.close(Q.data, R.data, 'variant:' + what, rtol=1e-7, atol=1e-9 * R.data[0] * n)
                ctx.close(Q.args, R.args, 'variant:' + what, rtol=1e-9, atol=1e-12)
            Q = ts.tocovdata(lag=lag, flag=flag, window=win, dt=2 * dt)
            ctx.close(Q.args, 2 * R.args, 'variant:dt', rtol=1e-9)
            a, s = float(rng.uniform(-1, 1)), float(rng.uniform(0.5, 3))
            for tr in (TrLinear(mean=a, sigma=s), TrHermite(mean=x.mean(), sigma=x.std() * 2, skew=0.2, kurt=3.2)):
                Q = ts.tocovdata(lag=lag, flag=flag, window=win, tr=tr)
                W = TimeSeries(tr.dat2gauss(x), t).tocovdata(lag=lag, flag=flag, window=win)
                ctx.close(Q.data, W.data, 'variant:transformed', rtol=1e-7, atol=1e-10 * W.data[0])
            # with no lag given, one is chosen; the estimate is then that of this lag
            Q = ts.tocovdata(flag=flag, window='boxcar')
            m = len(Q.data) - 1
            ctx.ok(2 <= m <= min(302, n - 2), 'variant:default_lag', lambda: m)
            W = ts.tocovdata(lag=m, flag=flag, window='boxcar')
            ctx.close(Q.data, W.data, 'variant:default_lag', rtol=1e-8, atol=1e-12)
            full = ts.tocovdata(lag=n - 2, flag=flag, window='boxcar')
            late = np.abs(full.data[m + 1:min(300, n - 3)])
            ctx.ok(np.all(late <= 2 * full.sigma[m + 1:min(300, n - 3)] * (1 + 1e-9)), 'variant:default_lag', lambda: (m, late.max()))
            # large lag standard deviation: Bartlett's formula
            c = ts.tocovdata(lag=n - 2, flag=flag, window='boxcar').data
            sig = np.sqrt(np.r_[0, c[0] ** 2, c[0] ** 2 + 2 * np.cumsum(c[1:lag - 2] ** 2)] / n)
            ctx.close(full.sigma[:len(sig)], sig, 'variant:sigma', rtol=1e-7, atol=1e-10)
            # interpolated spectral density of a covariance
            fast = bool(rng.rand() < 0.7)
            B = R.tospecdata(fast=fast, trunc=0.)
            L = len(R.data)
            w = np.asarray(B.args)
            want = dt / np.pi * (R.data[0] + 2 * np.cos(np.outer(w, R.args[1:])) @ np.r_[R.data[1:-1], R.data[-1] * 0.5 if not fast and 2 * L - 2 == 2 * (len(w) - 1) else R.data[-1]])
            ctx.close(B.data, want.clip(0), 'variant:transform', rtol=1e-7, atol=1e-9 * np.abs(want).max())
            rate = int(rng.choice([2, 3, 4, 8]))
            q = 2 ** int(np.ceil(np.log2(rate)))
            for method in ('linear', 'cubic', 'stineman'):
                S = R.tospecdata(rate=rate, method=method, fast=fast, trunc=0.)
                v = np.asarray(S.args)
                ctx.close(v, np.linspace(0, np.pi / dt, (len(w) - 1) * q), 'variant:interpolated_frequencies', rtol=1e-9)
                ctx.ok(S.data >= 0, 'variant:interpolated_sign')
                if method == 'stineman':
                    lo = np.minimum.reduce([B.data[:-1], B.data[1:]])
                    hi = np.maximum.reduce([B.data[:-1], B.data[1:]])
                    k = np.clip(np.searchsorted(w, v, side='right') - 1, 0, len(w) - 2)
                    e = 0.5 * B.data.max()
                    ctx.ok((S.data >= lo[k] - e) & (S.data <= hi[k] + e), 'variant:interpolated_stineman')
                else:
                    ctx.close(S.data, interp1d(w, B.data, kind=method, fill_value='extrapolate')(v).clip(0), 'variant:interpolated_' + method, rtol=1e-7, atol=1e-9 * B.data.max())
            S = R.tospecdata(nugget=0.5 * R.data[0], trunc=0., fast=fast)
            ctx.close(S.data, (want + dt / np.pi * 0.5 * R.data[0]).clip(0), 'variant:nugget', rtol=1e-7, atol=1e-9 * np.abs(want).max())
            tr = float(10 ** rng.uniform(-4, -0.5))
            S = R.tospecdata(trunc=tr, fast=fast)
            near = np.abs(want / want.max() / tr - 1) < 1e-6
            ctx.close(S.data[~near], np.where(want < tr * want.max(), 0, want)[~near], 'variant:truncation', rtol=1e-7, atol=1e-9 * np.abs(want).max())
