import numpy as np
import wafo.spectrum.models as sm
from wafo.spectrum import SpecData1D
from wafo.covariance import CovData1D
from wafo.transform import TrData
from vlib.harness import family

RULE = ('seeded spectra (models and random tables, rad/s and Hz), lengths, steps, seeds and numbers of cases; ensembles of '
        'up to 4000 paths per spectrum; missing-data patterns for conditional simulation; non-trivial: positive energy')
ASSUMPTIONS = ['numpy random generator and FFT', 'ensemble statistics are judged at 6-7 standard errors with fixed seeds']


XT = np.linspace(-9, 9, 2001)
TR = TrData(0.3 + 1.2 * XT + 0.04 * XT ** 3, XT, mean=0.3, sigma=1.2)


def spectrum(rng, n=None):
    n = int(n or rng.choice([17, 33, 50, 65, 129]))
    wn = rng.uniform(1, 6)
    w = np.linspace(0, wn, n)
    kind = rng.randint(3)
    if kind == 0:
        s = sm.Bretschneider(rng.uniform(1, 6), 2 * np.pi / (0.3 * wn))(w)
    elif kind == 1:
        s = rng.uniform(0.2, 1, n) * (w > 0.1 * wn) * (w < 0.8 * wn)
    else:
        s = np.exp(-0.5 * ((w / wn - 0.4) / 0.1) ** 2)
    ft = 'w' if rng.rand() < 0.6 else 'f'
    S = SpecData1D(s, w) if ft == 'w' else SpecData1D(s * 2 * np.pi, w / (2 * np.pi), freqtype='f')
    return S, w, s


def modes(w, s, ns, dt):
    """Frequencies and energies of the components of a periodic simulation of length ns."""
    dw = 2 * np.pi / (ns * dt)
    k = np.arange(1, ns // 2)
    tab_w = np.r_[0, w[1:-1], dw * (ns // 2)]
    tab_s = np.r_[0, s[1:-1], 0]
    return k * dw, np.interp(k * dw, tab_w, tab_s) * dw


@family(shards=2)
def gaussian(ctx):
    rng = ctx.rng
    for _ in ctx.loop(40):
        S, w, s = spectrum(rng)
        ns = rng.choice([None, 2, 7, 20, 33, 64, 100, 301])
        ns = None if ns is None else int(ns)
        cases = int(rng.choice([1, 2, 3, 7]))
        seed = int(rng.randint(1, 10 ** 6))
        dt = None if rng.rand() < 0.7 else S.sampling_period() * rng.uniform(0.4, 1.2)
        with ctx.case(w_n=w[-1], n=len(w), freqtype=S.freqtype, ns=ns, cases=cases, seed=seed, dt=dt):
            a0, d0 = S.args.copy(), S.data.copy()
            x = S.sim(ns=ns, cases=cases, dt=dt, iseed=seed)
            ctx.equal(S.args, a0, 'sim:argument')
            ctx.equal(S.data, d0, 'sim:argument')
            I = S if dt is None else S.interp(dt)
            m = len(I.args) - 1 if ns is None else ns
            m += m % 2
            step = I.sampling_period()
            ctx.equal(x.shape, (m, cases + 1), 'sim:shape')
            ctx.close(x[:, 0], np.arange(m) * step, 'sim:time', rtol=1e-9, atol=1e-12)
            np.random.rand(rng.randint(1, 9))          # history of the generator must not matter
            y = S.sim(ns=ns, cases=cases, dt=dt, iseed=seed)
            ctx.equal(x, y, 'sim:repeatable')
            np.random.seed(seed + 1)
            state = np.random.get_state()
            z = S.sim(ns=ns, cases=cases, dt=dt, iseed=state)
            np.random.set_state(state)
            z2 = S.sim(ns=ns, cases=cases, dt=dt)
            ctx.equal(z, z2, 'sim:state')
            z3 = S.sim(ns=ns, cases=cases, dt=dt)
            if m > 4 and np.ptp(x[:, 1:]) > 0:
                ctx.ok(np.abs(z2 - z3)[:, 1:].max() > 0, 'sim:fresh')
                ctx.ok(np.abs(z - x)[:, 1:].max() > 0, 'sim:seed_matters')
                if cases > 1:
                    ctx.ok(np.abs(x[:, 1] - x[:, 2]).max() > 0, 'sim:cases_differ')
            # the path is a sum of the spectrum's harmonics: zero mean, nothing at the Nyquist frequency
            F = np.fft.fft(x[:, 1:], axis=0) / m
            sc = np.abs(F).max() + 1e-300
            ctx.ok(np.abs(F[0]) <= 1e-9 * sc + 1e-14, 'sim:zero_mean')
            ctx.ok(np.abs(F[m // 2]) <= 1e-9 * sc + 1e-14, 'sim:nyquist')
            ww = I.args * (2 * np.pi if I.freqtype == 'f' else 1)
            ss = I.data / (2 * np.pi if I.freqtype == 'f' else 1)
            wk, ek = modes(ww, ss, m, step)
            ctx.ok(np.abs(F[1:m // 2][ek == 0]) <= 1e-6 * np.sqrt(ek.max(initial=0)) + 1e-14, 'sim:no_energy_outside')
            ctx.ok(np.abs(F[1:m // 2]) ** 2 <= 40 * ek[:, None] + 1e-12 * ek.max(initial=0) + 1e-20, 'sim:energy_bound')
            x1, xd = S.sim(ns=ns, cases=cases, dt=dt, iseed=seed, derivative=True)
            ctx.equal(x1, x, 'sim:derivative_path')
            ctx.equal(xd[:, 0], x[:, 0], 'sim:derivative_time')
            om = 2 * np.pi * np.fft.fftfreq(m, step)
            want = np.fft.ifft(1j * om[:, None] * F * m, axis=0).real
            ctx.close(xd[:, 1:], want, 'sim:derivative', rtol=0, atol=1e-9 * (np.abs(want).max() + 1e-12))
            tr = TR
            T = S.copy()
            T.tr = tr
            xt = T.sim(ns=ns, cases=cases, dt=dt, iseed=seed)
            ctx.close(xt[:, 1:], np.array([tr.gauss2dat(c) for c in x[:, 1:].T]).T, 'sim:transformed', rtol=1e-9, atol=1e-9)
            xt, xtd = T.sim(ns=ns, cases=cases, dt=dt, iseed=seed, derivative=True)
            h = 1e-4
            for k in range(1, cases + 1):
                slope = (tr.gauss2dat(x[:, k] + h) - tr.gauss2dat(x[:, k] - h)) / (2 * h)
                ctx.close(xtd[:, k], slope * xd[:, k], 'sim:transformed_derivative', rtol=1e-2, atol=1e-2 * np.abs(xd[:, k]).max() + 1e-9)
                ctx.close(xt[:, k], tr.gauss2dat(x[:, k]), 'sim:transformed_with_derivative', rtol=1e-9, atol=1e-9)


@family(shards=4)
def ensemble(ctx):
    rng = ctx.rng
    for _ in ctx.loop(4):
        S, w, s = spectrum(rng)
        ns = int(rng.choice([16, 31, 40, 64]))
        N = 4000
        seed = int(rng.randint(1, 10 ** 6))
        with ctx.case(w_n=w[-1], n=len(w), freqtype=S.freqtype, ns=ns, cases=N, seed=seed):
            x = S.sim(ns=ns, cases=N, iseed=seed)[:, 1:]
            m = len(x)
            wk, ek = modes(w, s, m, S.sampling_period())
            F = np.fft.fft(x, axis=0)[1:m // 2] / m
            e = 2 * np.mean(np.abs(F) ** 2, axis=1)           # energy of the component: mean of A^2/2
            ctx.close(e, ek, 'ensemble:spectrum', rtol=7 / np.sqrt(N), atol=1e-12 * ek.max())
            ctx.close(e.sum(), ek.sum(), 'ensemble:variance', rtol=7 / np.sqrt(N))
            ctx.close(np.mean(x ** 2), ek.sum(), 'ensemble:variance', rtol=7 / np.sqrt(N))
            on = ek > 1e-9 * ek.max()
            A = F[on] / np.sqrt(ek[on] / 4)[:, None]           # standard normal real and imaginary parts
            Z = np.concatenate([A.real, A.imag])
            ctx.ok(np.abs(Z.mean(axis=1)) < 6 / np.sqrt(N), 'ensemble:mean')
            C = Z @ Z.T / N
            ctx.ok(np.abs(C - np.eye(len(C))) < 7.5 * np.sqrt((1 + np.eye(len(C))) / N), 'ensemble:independent_components')
            ctx.ok(abs(np.mean(Z ** 4) - 3) < 7 * np.sqrt(96. / Z.size), 'ensemble:gaussian')
            G = Z.T[:60] @ Z[:, :60] / len(Z)                 # different cases are unrelated
            ctx.ok(np.abs(G - np.diag(np.diag(G))) < 7.5 / np.sqrt(len(Z)), 'ensemble:independent_cases')
            ctx.count('paths', N)


def smooth_acf(rng, n):
    """Oversampled covariance function of a gaussian bump spectrum (exactly embeddable), maximum at zero."""
    dt = rng.uniform(0.1, 1.5)
    kind = rng.randint(3)
    t = np.arange(n) * dt
    var = rng.choice([1., 4., 0.09])
    if kind == 0:
        r = np.exp(-t / (n * dt / rng.uniform(12, 20)))
    elif kind == 1:
        r = np.exp(-0.5 * (t / (n * dt / 8)) ** 2)
    else:
        L = n * dt / rng.uniform(9, 14)
        r = np.exp(-0.5 * (t / L) ** 2) * np.cos(rng.uniform(1, 3) * t / L)
    r = r * var
    if rng.rand() < 0.5:
        r[-1] = 0.
    return t, r, dt, kind


@family(shards=4)
def covariance(ctx):
    rng = ctx.rng
    for _ in ctx.loop(12):
        n = int(rng.choice([33, 60, 65, 128, 200]))
        t, r, dt, kind = smooth_acf(rng, n)
        cases = int(rng.choice([1, 2, 5]))
        ns = rng.choice([None, 5, n, 3 * n])
        ns = None if ns is None else int(ns)
        seed = int(rng.randint(1, 10 ** 6))
        with ctx.case(n=n, dt=dt, kind=int(kind), r0=r[0], last=r[-1], ns=ns, cases=cases, seed=seed):
            R = CovData1D(r.copy(), t.copy())
            x = R.sim(ns=ns, cases=cases, iseed=seed)
            ctx.equal(np.ravel(R.data), r, 'covsim:argument')
            ctx.equal(np.shape(R.data), np.shape(r), 'covsim:argument')
            m = n - 1 if ns is None else ns
            ctx.equal(x.shape, (m, cases + 1), 'covsim:shape')
            ctx.close(x[:, 0], np.arange(m) * dt, 'covsim:time', rtol=1e-9, atol=1e-12)
            ctx.equal(R.sim(ns=ns, cases=cases, iseed=seed), x, 'covsim:repeatable')
            x1, xd = R.sim(ns=ns, cases=cases, iseed=seed, derivative=True)
            ctx.equal(x1, x, 'covsim:derivative_path')
            if m > 8 and (kind == 1 and n >= 60 or kind == 2 and n >= 128):
                y = x[:, 1:]
                fd = (45 * (y[4:-2] - y[2:-4]) - 9 * (y[5:-1] - y[1:-5]) + (y[6:] - y[:-6])) / (60 * dt)
                ctx.close(xd[3:-3, 1:], fd, 'covsim:derivative', rtol=0, atol=1e-2 * np.abs(xd[:, 1:]).max())
            Z = CovData1D(r.copy(), t.copy())
            Z.tr = TR
            z, zd = Z.sim(ns=ns, cases=cases, iseed=seed, derivative=True)
            ctx.equal(z[:, 0], x[:, 0], 'covsim:transformed')
            ctx.equal(Z.sim(ns=ns, cases=cases, iseed=seed), z, 'covsim:transformed')
            for j in range(1, cases + 1):
                g, gd = TR.gauss2dat(x[:, j], xd[:, j])
                ctx.close(z[:, j], g, 'covsim:transformed', rtol=1e-9, atol=1e-12)
                ctx.close(zd[:, j], gd, 'covsim:transformed_derivative', rtol=1e-9, atol=1e-9)
            # ensemble
            N = 3000
            mm = int(rng.choice([5, 12, 40]))
            y = R.sim(ns=mm, cases=N + 1, iseed=seed)[:, 1:]
            want = np.r_[r, np.zeros(mm)][:mm]
            from scipy.linalg import toeplitz
            C = y @ y.T / (N + 1)
            se = np.sqrt((r[0] ** 2 + toeplitz(want) ** 2) / (N + 1))
            ctx.ok(np.abs(C - toeplitz(want)) < 7 * se + 2e-3 * r[0], 'covsim:covariance',
                   lambda: np.max(np.abs(C - toeplitz(want)) / se))
            ctx.ok(np.abs(y.mean(axis=1)) < 6 * np.sqrt(r[0] / N), 'covsim:mean')
            G = y[:, :200].T @ y[:, -200:] / mm               # real and imaginary parts give unrelated cases
            G = G[np.abs(np.subtract.outer(np.arange(200), np.arange(N - 199, N + 1))) > 0]
            ctx.ok(abs(np.mean(G)) < 7 * r[0] / 200, 'covsim:independent_cases')
            half = (N + 2) // 2
            cc = np.mean(y[:, :N + 1 - half] * y[:, half:])
            ctx.ok(abs(cc) < 7 * r[0] / np.sqrt(half), 'covsim:independent_pairs', lambda: cc)
            ctx.count('paths', N)
            W = CovData1D(np.r_[r[1], r[0] * 2, r[1:-1]], t)
            ctx.raises(ValueError, lambda: W.sim(ns=4), 'covsim:refuse_bad_acf')


@family(shards=2)
def exact(ctx):
    rng = ctx.rng
    for _ in ctx.loop(6):
        w = np.linspace(0, 3, 129)
        pk = rng.uniform(0.8, 1.4)
        s = np.exp(-0.5 * ((w - pk) / 0.25) ** 2)
        S = SpecData1D(s, w)
        N, ns, seed = 3000, int(rng.choice([6, 20, 50])), int(rng.randint(1, 10 ** 6))
        with ctx.case(peak=pk, ns=ns, seed=seed):
            y = S.sim(ns=ns, cases=N, iseed=seed, method='exact')
            ctx.close(y[:, 0], np.arange(ns) * S.sampling_period(), 'exact:time', atol=1e-9)
            y = y[:, 1:]
            r = np.cos(np.outer(np.arange(ns) * S.sampling_period(), w)) @ s * (w[1] - w[0])
            from scipy.linalg import toeplitz
            C = y @ y.T / N
            se = np.sqrt((r[0] ** 2 + toeplitz(r) ** 2) / N)
            ctx.ok(np.abs(C - toeplitz(r)) < 7 * se + 1e-2 * r[0], 'exact:covariance', lambda: np.max(np.abs(C - toeplitz(r)) / se))
            ctx.count('paths', N)


@family(shards=4)
def conditional(ctx):
    rng = ctx.rng
    for _ in ctx.loop(25):
        n = int(rng.choice([20, 40, 60, 150]))
        dt = rng.choice([1., 0.5])
        rho = rng.uniform(0.3, 0.8)
        nacf = int(rng.choice([n, 2 * n, 25, 60]))
        r = rng.choice([1., 9.]) * rho ** np.arange(nacf)
        k = rng.randint(1, max(2, n // 4))
        pat = rng.choice(['block', 'scatter', 'start', 'end', 'two'])
        i0 = rng.randint(0, n - k)
        idx = dict(block=np.arange(i0, i0 + k), scatter=np.sort(rng.permutation(n)[:k]), start=np.arange(k), end=np.arange(n - k, n),
                   two=np.unique(np.r_[1:1 + k // 2 + 1, n - 2 - k // 2:n - 1]))[str(pat)]
        method = str(rng.choice(['approx', 'exact', 'exac']))
        x = np.zeros(n)
        x[0] = rng.randn()
        for i in range(1, n):
            x[i] = rho * x[i - 1] + np.sqrt(1 - rho ** 2) * rng.randn()
        x *= np.sqrt(r[0])
        how = rng.randint(2)
        seed = int(rng.randint(1, 10 ** 6))
        with ctx.case(n=n, rho=rho, nacf=nacf, missing=idx, method=method, how=int(how), x=x, seed=seed):
            R = CovData1D(r.copy(), np.arange(nacf) * dt)
            xo = x.copy()
            if how:
                xo[idx] = np.nan
            keep = xo.copy()
            np.random.seed(seed)
            smp, mu, sd = R.simcond(xo, method=method, i_unknown=None if how else idx.copy())
            ctx.ok(np.array_equal(np.nan_to_num(xo, nan=9e9), np.nan_to_num(keep, nan=9e9)), 'simcond:argument')
            ctx.equal(np.ravel(R.data), r, 'simcond:covariance_unchanged')
            ctx.equal(len(mu), len(idx), 'simcond:length')
            # the process is (nearly) Markov: condition on the nearest known neighbours
            from scipy.linalg import toeplitz
            Sg = toeplitz(r[0] * rho ** np.arange(n))
            kn = np.setdiff1d(np.arange(n), idx)
            G = np.linalg.solve(Sg[np.ix_(kn, kn)], Sg[np.ix_(kn, idx)]).T
            wm = G @ x[kn]
            ws = np.sqrt(np.diag(Sg[np.ix_(idx, idx)] - G @ Sg[np.ix_(kn, idx)]))
            # the covariance is cut where it is below 0.1 sigma and singular values below 1e-4: allow for it
            tol = 0.03 + 0.35 * 0.1 * np.sqrt(3. / max(nacf, 1))
            ctx.close(mu, wm, 'simcond:mean', rtol=0, atol=3 * tol * np.sqrt(r[0]))
            if method == 'approx':         # windows: a value near a window's edge may be given more, never less, uncertainty
                ctx.ok((sd >= ws - 3 * tol * np.sqrt(r[0])) & (sd <= np.sqrt(r[0]) * (1 + 1e-9)), 'simcond:std')
            else:
                ctx.close(sd, ws, 'simcond:std', rtol=0, atol=3 * tol * np.sqrt(r[0]))
            if len(mu) != len(idx):
                continue
            ctx.ok(np.isfinite(smp), 'simcond:sample')
            ctx.ok(np.abs(smp - mu) < 6.5 * np.max(sd) + 1e-9, 'simcond:sample_near_mean', lambda: np.max(np.abs(smp - mu) / sd))
            np.random.seed(seed)
            smp2 = R.simcond(keep, method=method, i_unknown=None if how else idx.copy())[0]
            ctx.equal(smp2, smp, 'simcond:repeatable')
            ctx.count('missing values', len(idx))
    # distribution of the conditional samples
    for _ in ctx.loop(3, 20):
        rho, n, seed = rng.uniform(0.3, 0.8), 15, int(rng.randint(1, 10 ** 6))
        method = str(rng.choice(['approx', 'exact']))
        with ctx.case(rho=rho, seed=seed, method=method, what='sample distribution'):
            R = CovData1D(rho ** np.arange(40.), np.arange(40.))
            x = rng.randn(n)
            idx = np.array([4, 5, 6, 10])
            np.random.seed(seed)
            out = [R.simcond(x, method=method, i_unknown=idx) for _ in range(1500)]
            Y = np.array([o[0] for o in out])
            mu, sd = out[0][1], out[0][2]
            ctx.ok(np.abs(Y.mean(axis=0) - mu) < 6 * sd / np.sqrt(1500) + 1e-6, 'simcond:sample_mean')
            ctx.ok(np.abs(Y.std(axis=0) / sd - 1) < 6 / np.sqrt(2 * 1500), 'simcond:sample_std')
            from scipy.linalg import toeplitz
            Sg = toeplitz(rho ** np.arange(n))
            kn = np.setdiff1d(np.arange(n), idx)
            G = np.linalg.solve(Sg[np.ix_(kn, kn)], Sg[np.ix_(kn, idx)]).T
            V = Sg[np.ix_(idx, idx)] - G @ Sg[np.ix_(kn, idx)]
            se = np.sqrt((np.outer(np.diag(V), np.diag(V)) + V ** 2) / 1500)
            ctx.ok(np.abs(np.cov(Y.T) - V) < 6 * se + 0.01, 'simcond:sample_covariance')
    with ctx.case(what='degenerate'):
        R = CovData1D(0.5 ** np.arange(30.), np.arange(30.))
        a = R.simcond(rng.randn(9))
        ctx.ok(all(len(v) == 0 for v in a), 'simcond:nothing_missing')
        a = R.simcond(np.full(9, np.nan))
        ctx.close(a[2], np.ones(9), 'simcond:all_missing')
        ctx.equal(a[0].shape, (9,), 'simcond:all_missing')
