"""C20: smoothing filters, cosine transforms, Padua interpolation and bit operations against dense linear algebra and direct definitions."""
import warnings

import numpy as np
import scipy.fft as sf

import wafo.bitwise as wb
import wafo.dctpack as wd
import wafo.interpolate as wi
import wafo.padua as wp
import wafo.sg_filter as ws
from wafo.sg_filter._core import evar
from vlib.harness import family

RULE = ("every filter is compared with the dense least squares problem (or recursion) it stands for, solved independently; transforms are compared with sums "
        "of cosines and with scipy.fft and inverted; Padua interpolation with polynomials of the same degree; bit operations with Python integers")
ASSUMPTIONS = ["numpy.linalg and scipy.fft are right", "smoothn with missing or weighted values: compared after iterating to tolz=1e-9",
               "signals of up to about 60 samples, images of up to about 10 x 10"]


def signal(rng, n):
    k = rng.randint(0, 5)
    if k == 0:
        return rng.normal(size=n)
    if k == 1:
        return rng.randint(-9, 10, n)
    if k == 2:
        return np.cumsum(rng.normal(size=n)) + 100
    if k == 3:
        return np.sin(np.arange(n) * 0.3) + 0.1 * rng.normal(size=n)
    return np.polyval(rng.normal(size=4), np.linspace(-1, 1, n))


def local_fit(y, n, degree, d, delta):
    """d-th derivative of the least squares polynomial over 2n+1 samples, at each sample that has a full window, edges from the first and last window."""
    y = np.asarray(y, float)
    out = np.zeros(len(y))
    w = 2 * n + 1
    for i in range(len(y)):
        c = min(max(i, n), len(y) - 1 - n)
        t = np.arange(-n, n + 1) * 1.
        p = np.polynomial.polynomial.polyfit(t, y[c - n:c + n + 1], degree)
        q = np.polynomial.polynomial.polyder(p, d) if d else p
        out[i] = np.polynomial.polynomial.polyval(float(i - c), q) / delta ** d if len(q) else 0.
    assert w <= len(y)
    return out


@family(shards=2)
def savitzky(ctx):
    rng = ctx.rng
    for _ in ctx.loop(60):
        n = int(rng.randint(1, 7))
        degree = int(rng.randint(0, min(2 * n, 6)))
        d = int(rng.randint(0, degree + 1))
        delta = float(rng.choice([1., 0.5, 0.01, 3.]))
        y = signal(rng, int(rng.randint(2 * n + 1, 2 * n + 40)))
        s = 1e-300 + np.max(np.abs(y)) / delta ** d
        with ctx.case(n=n, degree=degree, diff=d, delta=delta, size=len(y)):
            filt = ws.SavitzkyGolay(n, degree, diff_order=d, delta=delta)
            with ctx.frozen('savitzky:argument_changed', y):
                got = filt(y)
            ctx.close(got / s, local_fit(y, n, degree, d, delta) / s, 'savitzky:interp', 1e-7, 1e-7)
            ctx.close(filt.smooth(list(y)) / s, got / s, 'savitzky:list', 1e-12, 1e-12)
            # extension of the signal
            mode = str(rng.choice(['mirror', 'nearest', 'constant', 'wrap']))
            cval = float(rng.normal())
            yy = np.asarray(y, float)
            kw = dict(mirror=dict(mode='reflect'), nearest=dict(mode='edge'), constant=dict(mode='constant', constant_values=cval), wrap=dict(mode='wrap'))[mode]
            ext = np.pad(yy, n, **kw)
            want = local_fit(ext, n, degree, d, delta)[n:-n]
            s = s + abs(cval) / delta ** d
            ctx.close(ws.SavitzkyGolay(n, degree, d, delta, mode=mode, cval=cval)(y) / s, want / s, 'savitzky:' + mode, 1e-7, 1e-7)
            # along another axis
            Y = np.vstack([yy, yy[::-1], 2 * yy + 1])
            ctx.close(ws.SavitzkyGolay(n, degree, d, delta, axis=0, mode=mode, cval=cval)(Y.T) / s,
                      np.vstack([ws.SavitzkyGolay(n, degree, d, delta, mode=mode, cval=cval)(row) for row in Y]).T / s, 'savitzky:axis', 1e-9, 1e-9)
            # the value k samples before the last one, end reflected in a point
            k = int(rng.randint(1, 4))
            ext = np.r_[yy, yy[-1] + np.abs(yy[-2:-n - 2:-1] - yy[-1])]
            pos = len(yy) - 1 - k
            if pos - n >= 0:
                w = ext[pos - n:pos + n + 1]
                last = local_fit(w, n, degree, d, delta)[n]
                ctx.close(filt.smooth_last(y, k) / s, last / s, 'savitzky:last', 1e-7, 1e-7)
                ctx.close(filt.smooth_last(np.vstack([yy, 3 * yy]).T, k)[0] / s, last / s, 'savitzky:last_columns', 1e-7, 1e-7)
            ctx.close(filt(y) / s, got / s, 'savitzky:filter_changed', 1e-12, 1e-12)


@family()
def savitzky_plain(ctx):
    """wafo.interpolate.savitzky_golay, the piecewise variant and the two dimensional one."""
    rng = ctx.rng
    for _ in ctx.loop(60):
        n = int(rng.randint(1, 7))
        order = int(rng.randint(0, min(2 * n, 6)))
        d = int(rng.randint(0, order + 1))
        y = signal(rng, int(rng.randint(2 * n + 1, 2 * n + 40)))
        s = 1e-300 + np.max(np.abs(y))
        yy = np.asarray(y, float)

        def reflected(v):
            return np.r_[v[0] - np.abs(v[1:n + 1][::-1] - v[0]), v, v[-1] + np.abs(v[-n - 1:-1][::-1] - v[-1])]
        with ctx.case(n=n, order=order, deriv=d, size=len(y)):
            with ctx.frozen('savitzky_plain:argument_changed', y):
                got = wi.savitzky_golay(y, 2 * n + 1, order, d)
            ctx.close(got / s, local_fit(reflected(yy), n, order, d, 1.)[n:-n] / s, 'savitzky_plain:value', 1e-7, 1e-7)
            # pieces of monotone x
            pieces = [int(v) for v in rng.randint(2 * n + 1, 2 * n + 9, int(rng.randint(1, 4)))]
            x, sign = [0.], 1.
            for p in pieces:
                x = np.r_[x, x[-1] + sign * np.cumsum(rng.uniform(0.5, 1, p))]
                sign = -sign
            if rng.rand() < 0.5:
                x = -x
            data = rng.normal(size=len(x))
            turn = [0] + list(np.flatnonzero(np.diff(x)[1:] * np.diff(x)[:-1] < 0) + 2) + [len(x)]
            want = np.concatenate([local_fit(reflected(data[a:b]), n, order, 0, 1.)[n:-n] for a, b in zip(turn[:-1], turn[1:])
                                   ]) if min(np.diff(turn)) > 2 * n else None
            if want is not None:
                ctx.close(wi.savitzky_golay_piecewise(x, data, 2 * n + 1, order), want, 'savitzky_plain:pieces', 1e-7, 1e-7)
            ctx.raises((ValueError, TypeError), lambda: wi.savitzky_golay(y, 2 * n, 1), 'savitzky_plain:even_window')
            ctx.raises((ValueError, TypeError), lambda: wi.savitzky_golay(y, 3, 4), 'savitzky_plain:order')
            # two dimensions: polynomial surfaces are reproduced away from the border, any surface is fitted by least squares
            m = int(rng.randint(1, 4))
            w = 2 * m + 1
            o = int(rng.randint(1, 4))
            if w ** 2 < (o + 1) * (o + 2) // 2 or w < o + 1:
                continue
            Z = rng.normal(size=(int(rng.randint(w, w + 6)), int(rng.randint(w, w + 6))))
            sm, col, row = wi.sgolay2d(Z, w, o), wi.sgolay2d(Z, w, o, 'col'), wi.sgolay2d(Z, w, o, 'row')
            both = wi.sgolay2d(Z, w, o, 'both')
            ctx.close(both[0], col, 'sgolay2d:both', 1e-9, 1e-9)
            ctx.close(both[1], row, 'sgolay2d:both', 1e-9, 1e-9)
            ctx.ok(sm.shape == Z.shape, 'sgolay2d:shape', 'shape of the data')
            a, b = np.mgrid[-m:m + 1, -m:m + 1]
            A = np.stack([(a ** (k - q) * b ** q).ravel() for k in range(o + 1) for q in range(k + 1)], 1).astype(float)
            for i in range(m, Z.shape[0] - m):
                for j in range(m, Z.shape[1] - m):
                    c = np.linalg.lstsq(A, Z[i - m:i + m + 1, j - m:j + m + 1].ravel(), rcond=None)[0]
                    ctx.close(np.r_[sm[i, j], col[i, j], row[i, j]], c[:3], 'sgolay2d:value', 1e-6, 1e-7)


def second_difference(n):
    D = np.zeros((n - 2, n))
    for i in range(n - 2):
        D[i, i:i + 3] = 1, -2, 1
    return D


def laplacian(shape):
    """Matrix of the operator that smoothn penalises: minus second differences with reflecting ends, summed over the axes."""
    N = int(np.prod(shape))
    L = np.zeros((N, N))
    for ax, n in enumerate(shape):
        T = np.zeros((n, n))
        for i in range(n):
            for j in (i - 1, i + 1):
                j = min(max(j, 0), n - 1)
                T[i, j] += 1
                T[i, i] -= 1
        pre, post = int(np.prod(shape[:ax])), int(np.prod(shape[ax + 1:]))
        L += np.kron(np.kron(np.eye(pre), T), np.eye(post))
    return L


def shape_of(rng):
    return [(int(rng.randint(2, 40)),), (int(rng.randint(2, 9)), int(rng.randint(2, 9))), (3, 4, int(rng.randint(2, 5))), (1, 12), (12, 1)][int(rng.randint(0, 5))]


@family(shards=3)
def smoothing(ctx):
    rng = ctx.rng
    for _ in ctx.loop(40):
        shape = shape_of(rng)
        N = int(np.prod(shape))
        y = signal(rng, N).reshape(shape)
        s = float(10 ** rng.uniform(-2, 3))
        L = laplacian(shape)
        scale = 1e-300 + np.max(np.abs(y))
        with ctx.case(shape=shape, s=s), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            with ctx.frozen('smoothn:argument_changed', y):
                got = ws.smoothn(y, s=s)
            want = np.linalg.solve(np.eye(N) + s * L.T @ L, np.asarray(y, float).ravel()).reshape(shape)
            ctx.close(got / scale, want / scale, 'smoothn:least_squares', 1e-8, 1e-8)
            # weights and missing values
            w = rng.uniform(0.1, 1, shape) * float(rng.choice([1, 7.]))
            if rng.rand() < 0.5:
                w[rng.rand(*shape) < 0.2] = 0
            y2 = np.asarray(y, float).copy()
            lost = rng.rand(*shape) < 0.2
            y2[lost] = rng.choice([np.nan, np.inf])
            use = str(rng.choice(['weight', 'missing', 'both']))
            W = np.where(lost, 0, 1.) if use == 'missing' else np.where(lost, 0, w) if use == 'both' else w
            if (W > 0).sum() < 2:
                continue
            W = W / W.max()
            s = float(10 ** rng.uniform(-2, 0.5))
            data = (y2 if use != 'weight' else y).copy()
            kw = {} if use == 'missing' else dict(weight=w)
            z = ws.smoothn(data, s=s, tolz=1e-11, maxiter=30000, **kw)
            Y = np.where(W > 0, y, 0).ravel().astype(float)
            want = np.linalg.solve(np.diag(W.ravel()) + s * L.T @ L, W.ravel() * Y).reshape(shape)

            def residual(z):
                return (W.ravel() * (Y - z.ravel()) - s * L.T @ (L @ z.ravel())) / scale
            ctx.close(residual(z), np.zeros(N), 'smoothn:' + use, 0, 1e-5, msg='normal equations of weighted least squares')
            stiff = (W > 0.1).mean() < 0.7
            if not stiff:
                ctx.close(z / scale, want / scale, 'smoothn:' + use, 1e-3, 1e-3, msg='weighted least squares')
            if use != 'weight':
                ctx.equal(np.isfinite(data), np.isfinite(y2), 'smoothn:missing_values_overwritten')
            z0 = np.asarray(rng.normal(size=shape))
            z = ws.smoothn(y2.copy(), s=s, tolz=1e-11, maxiter=30000, z0=z0.copy(), **kw) if use != 'weight' else None
            if z is not None:
                ctx.close(residual(z), np.zeros(N), 'smoothn:start', 0, 1e-5, msg='independent of the starting value')


@family()
def automatic_smoothing(ctx):
    """With s chosen by generalised cross validation: the result is that of the s returned, which is a minimum of the score."""
    rng = ctx.rng
    for _ in ctx.loop(40):
        shape = [(int(rng.randint(20, 120)),), (int(rng.randint(8, 14)), int(rng.randint(8, 14)))][int(rng.randint(0, 2))]
        grids = np.meshgrid(*[np.linspace(0, 1, n) for n in shape], indexing='ij')
        f = sum(np.sin((3 + i) * g) for i, g in enumerate(grids))
        sd = float(10 ** rng.uniform(-2, -0.3))
        y = f + sd * rng.normal(size=shape)
        with ctx.case(shape=shape, sd=sd), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            z, s = ws.smoothn(y, fulloutput=True)
            ctx.ok(np.isfinite(s) and s > 0, 'gcv:s', 'smoothing parameter %r' % s)
            ctx.close(z, ws.smoothn(y, s=s), 'gcv:same', 1e-9, 1e-9)
            lam = sum(np.reshape(2 - 2 * np.cos(np.pi * np.arange(n) / n), [-1 if k == i else 1 for k in range(len(shape))]) for i, n in enumerate(shape))
            c = sf.dctn(y, norm='ortho')

            def score(p):
                g = 1 / (1 + 10. ** p * lam ** 2)
                return np.sum((c * (1 - g)) ** 2) / (1 - g.mean()) ** 2
            p = np.log10(s)
            h = 1e-6 ** (2. / len(shape)), 0.99 ** (2. / len(shape))
            lim = [np.log10((((1 + np.sqrt(1 + 8 * v)) / 4 / v) ** 2 - 1) / 16) for v in h]
            inside = min(lim) + 0.3 < p < max(lim) - 0.3
            ctx.count('gcv_interior' if inside else 'gcv_at_bound')
            if inside:
                ctx.ok(score(p) <= min(score(p - 0.25), score(p + 0.25)) * 1.01, 'gcv:minimum', 'score %g at log10(s)=%g, %g and %g a quarter decade off'
                       % (score(p), p, score(p - 0.25), score(p + 0.25)))
            # robust: gross errors hardly matter
            if shape[0] > 30 and len(shape) == 1:
                bad = y.copy()
                i = rng.choice(shape[0] - 6, 2, replace=False) + 3
                bad[i] += rng.choice([-1, 1], 2) * rng.uniform(20, 60) * (sd + 0.1)
                zr = ws.smoothn(bad, robust=True, weight=str(rng.choice(['bisquare', 'cauchy', 'talworth'])))
                ctx.ok(np.max(np.abs(zr - f)) < 0.5 * np.max(np.abs(bad - f)), 'robust:outliers', 'largest error %g of %g' % (np.max(np.abs(zr - f)), np.max(np.abs(bad - f))))


@family(shards=2)
def robust_smoothing(ctx):
    """Iteratively reweighted least squares (Garcia 2010): three solves, the weights from the residuals of the one before."""
    rng = ctx.rng
    functions = dict(bisquare=lambda u: (1 - (u / 4.685) ** 2) ** 2 * (u < 4.685), talworth=lambda u: (u < 2.795) * 1.,
                     cauchy=lambda u: 1 / (1 + (u / 2.385) ** 2))
    for _ in ctx.loop(60):
        shape = [(int(rng.randint(12, 60)),), (int(rng.randint(6, 10)), int(rng.randint(6, 10)))][int(rng.rand() < 0.4)]
        N = int(np.prod(shape))
        s = float(10 ** rng.uniform(-2, 0.5))
        y = np.cos(np.linspace(0, 4, N)) * float(rng.uniform(0, 3)) + rng.normal(size=N)
        bad = rng.choice(N, int(rng.randint(0, 4)), replace=False)
        y[bad] += rng.choice([-1, 1], len(bad)) * rng.uniform(2, 40, len(bad))
        y = (y * 10. ** rng.randint(-3, 4)).reshape(shape)
        lost = np.zeros(shape, bool)
        if rng.rand() < 0.3:
            lost.ravel()[rng.choice(N, 2, replace=False)] = True
        name = str(rng.choice(sorted(functions)))
        kw = {} if name == 'bisquare' and rng.rand() < 0.5 else dict(weight=name)
        W0 = np.where(lost, 0, 1.).ravel()
        L = laplacian(shape)
        h = (np.sqrt(1 + np.sqrt(1 + 16 * s)) / np.sqrt(2) / np.sqrt(1 + 16 * s)) ** len(shape)
        W, Y, near = W0, np.where(lost, 0, y).ravel(), False
        for step in range(3):
            z = np.linalg.solve(np.diag(W) + s * L.T @ L, W * Y)
            r = Y - z
            if step < 2:
                ok = ~lost.ravel()
                u = np.abs(r) / (1.4826 * np.median(np.abs(r[ok] - np.median(r[ok])))) / np.sqrt(1 - h)
                near = near or (name == 'talworth' and np.any(np.abs(u[ok] / 2.795 - 1) < 1e-3))
                W = W0 * functions[name](u)
        if near or (W > 0.2).mean() < 0.75:
            ctx.count('robust_skipped')
            continue
        with ctx.case(shape=shape, s=s, weight=name, missing=bool(lost.any())), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            data = np.where(lost, np.nan, y)
            got = ws.smoothn(data, s=s, robust=True, tolz=1e-11, maxiter=30000, **kw)
            scale = np.max(np.abs(y))
            ctx.close(got / scale, z.reshape(shape) / scale, 'robust:reweighted', 2e-4, 2e-4)


@family()
def noise_variance(ctx):
    rng = ctx.rng
    for _ in ctx.loop(40):
        two = bool(rng.rand() < 0.5)
        sd = float(10 ** rng.uniform(-0.8, 0.3))
        if two:
            n = int(rng.randint(40, 70))
            a, b = np.meshgrid(np.linspace(0, 1, n), np.linspace(0, 1, n + 5))
            f = np.exp(a + b) + np.sin((a - 2 * b) * 3)
        else:
            n = int(rng.randint(2000, 6000))
            x = np.linspace(0, 100, n)
            f = np.cos(x / 10) + x / 50
        noisy = [f + sd * rng.normal(size=f.shape) for _k in range(9)]
        y = noisy[0]
        with ctx.case(two=two, sd=sd, n=n):
            with ctx.frozen('evar:argument_changed', y):
                each = [evar(v) for v in noisy]
            # cross validation undersmooths now and then: the median of nine is what is judged
            v = np.median(each)
            ctx.ok(abs(v / sd ** 2 - 1) < 0.15, 'evar:value', 'median of nine estimates %g for %g' % (v, sd ** 2))
            k = float(rng.uniform(0.1, 10))
            ctx.close(evar(k * y) / each[0], k ** 2, 'evar:scale', 0.02, 0)


@family()
def hodrick_prescott(ctx):
    rng = ctx.rng
    for _ in ctx.loop(60):
        n = int(rng.choice([4, 5, 6, rng.randint(4, 60)]))
        w = float(rng.choice([0, 1, 100, 1e4, rng.uniform(0.1, 50)]))
        y = signal(rng, n)
        s = 1e-300 + np.max(np.abs(y))
        with ctx.case(n=n, w=w):
            with ctx.frozen('hodrick:argument_changed', y):
                got = ws.HodrickPrescott(w)(y)
            D = second_difference(n)
            ctx.close(np.asarray(got) / s, np.linalg.solve(np.eye(n) + w * D.T @ D, np.asarray(y, float)) / s, 'hodrick:least_squares', 1e-7, 1e-7)
            line = 2. - 0.3 * np.arange(n)
            ctx.close(ws.HodrickPrescott(w)(line), line, 'hodrick:line', 1e-7, 1e-7)


@family()
def kalman(ctx):
    """The filtered state is the posterior mean of the linear Gaussian model, by conditioning on all observations at once."""
    rng = ctx.rng
    for _ in ctx.loop(60):
        n = int(rng.randint(1, 4))
        auto = bool(rng.rand() < 0.4)
        m = n if auto else int(rng.randint(1, 4))
        A = np.eye(n) + 0.3 * rng.normal(size=(n, n))
        H = np.eye(n) + 0.2 * rng.normal(size=(n, n)) if auto else rng.normal(size=(m, n))
        q, r = rng.normal(size=(n, n)), rng.normal(size=(m, m))
        Q, R = q @ q.T * 0.1, r @ r.T * 0.2 + 0.1 * np.eye(m)
        B = rng.normal(size=(n, 2))
        x0 = rng.normal(size=n)
        p = rng.normal(size=(n, n))
        P0 = p @ p.T + 0.1 * np.eye(n)
        steps = int(rng.randint(2, 7))
        Z, U = rng.normal(size=(steps, m)), rng.normal(size=(steps, 2))
        with ctx.case(n=n, m=m, auto=auto, steps=steps):
            with ctx.frozen('kalman:argument_changed', A, H, Q, R, B, Z, U, x0, P0):
                f = ws.Kalman(R=R, A=A, B=B, Q=Q, H=H) if auto else ws.Kalman(R=R, x=x0, P=P0, A=A, B=B, Q=Q, H=H)
                out = [np.array(f(z, u)) for z, u in zip(Z, U)]
            # joint normal of all states
            if auto:
                HI = np.linalg.inv(H)
                mean, cov, first = HI @ Z[0], HI @ R @ HI.T, 1
                ctx.close(out[0], mean, 'kalman:first', 1e-8, 1e-8)
            else:
                mean, cov, first = x0, P0, 0
            for k in range(first, steps):
                # prior of x_first..x_k, conditioned on z_first..z_k
                mu, blocks = [], []
                mm, F = mean, np.eye(n)
                C = cov
                means, covs, trans = [], [], []
                for j in range(first, k + 1):
                    mm = A @ mm + B @ U[j]
                    C = A @ C @ A.T + Q
                    means.append(mm)
                    covs.append(C)
                T = k + 1 - first
                S = np.zeros((T * n, T * n))
                for i in range(T):
                    blk = covs[i]
                    for j in range(i, T):
                        S[i * n:(i + 1) * n, j * n:(j + 1) * n] = blk
                        S[j * n:(j + 1) * n, i * n:(i + 1) * n] = blk.T
                        blk = blk @ A.T
                mu = np.concatenate(means)
                HH = np.kron(np.eye(T), H)
                RR = np.kron(np.eye(T), R)
                K = S @ HH.T @ np.linalg.inv(HH @ S @ HH.T + RR)
                post = mu + K @ (Z[first:k + 1].ravel() - HH @ mu)
                pc = S - K @ HH @ S
                ctx.close(out[k], post[-n:], 'kalman:posterior_mean', 1e-6, 1e-7)
                del trans, blocks, F
            ctx.close(f.P, pc[-n:, -n:], 'kalman:posterior_covariance', 1e-6, 1e-7)
            # scalars
            g = ws.Kalman(R=0.5, x=1., P=2., A=1, Q=0.1, H=1)
            v = np.squeeze(g(3.))
            ctx.close(float(v), 1 + 2.1 / 2.6 * 2, 'kalman:scalar', 1e-10, 1e-12)


def hampel(y, x, dx, t, adaptive):
    n = len(y)

    def window(i, w):
        v = y[np.abs(x - x[i]) <= w * (1 + 1e-15)]
        m = np.median(v)
        return m, 1.4826 * np.median(np.abs(v - m))
    Y0, S0, A = np.zeros(n), np.zeros(n), np.full(n, float(dx))
    for i in range(n):
        if adaptive is None:
            Y0[i], S0[i] = window(i, dx)
            continue
        prev = window(i, dx)
        j = 2
        while True:
            if j > n:
                return None
            cur = window(i, j * dx)
            tot = prev[1] + cur[1]
            rel = abs(prev[1] - cur[1]) / tot / 2 if tot > 0 else 0.
            if not rel > adaptive:
                break
            prev = cur
            j += 1
        Y0[i], S0[i], A[i] = prev[0], prev[1], j - 1
    if adaptive is not None:
        h = 2 * np.median(np.diff(x))
        K = np.exp(-((x[:, None] - x[None]) / (2 * h)) ** 2)
        K = K / K.sum(1, keepdims=True)
        Y0, S0, A = K @ Y0, K @ S0, K @ A
    out = np.abs(y - Y0) > t * S0
    return np.where(out, Y0, y), out, Y0, S0, A


@family()
def hampel_filter(ctx):
    rng = ctx.rng
    for _ in ctx.loop(60):
        n = int(rng.randint(3, 40))
        y = signal(rng, n)
        y = y.copy()
        y[rng.randint(0, n)] += 50
        # multiples of 1/8: no window border within rounding of a sample
        x = None if rng.rand() < 0.4 else np.cumsum(rng.randint(1, 17, n)) / 8.
        X = np.arange(n) * 1. if x is None else x
        dx = None if rng.rand() < 0.4 else float(rng.randint(1, 40)) / 8
        t = float(rng.choice([3, 0, 1, 2.5]))
        adaptive = None if rng.rand() < 0.6 else float(rng.choice([0.1, 0.02, 0.3]))
        with ctx.case(n=n, x=x is not None, dx=dx, t=t, adaptive=adaptive):
            f = ws.HampelFilter(dx=dx, t=t, adaptive=adaptive, fulloutput=True)
            with ctx.frozen('hampel:argument_changed', y, X):
                got, res = f(y) if x is None else f(y, x)
            w = 3 * np.median(np.diff(X)) if dx is None else dx
            ref = hampel(np.asarray(y, float), X, w, t, adaptive)
            if ref is None:     # the window never settles
                ctx.ok(np.shape(got) == np.shape(y) and np.all(np.isfinite(got)), 'hampel:unsettled', 'finite values of the same shape')
                continue
            want, out, Y0, S0, A = ref
            ctx.close(res['Y0'], Y0, 'hampel:nominal', 1e-9, 1e-9)
            ctx.close(res['UB'], Y0 + t * S0, 'hampel:upper', 1e-9, 1e-9)
            ctx.close(res['LB'], Y0 - t * S0, 'hampel:lower', 1e-9, 1e-9)
            ctx.close(res['ADX'], A, 'hampel:window', 1e-9, 1e-9)
            clear = np.abs(np.abs(y - Y0) - t * S0) > 1e-9 * (1 + np.abs(y))
            ctx.equal(np.asarray(res['outliers'])[clear], out[clear], 'hampel:outliers')
            ctx.close(got[clear], want[clear], 'hampel:value', 1e-9, 1e-9)
            ctx.equal(np.asarray(ws.HampelFilter(dx=dx, t=t, adaptive=adaptive)(y, X)), np.asarray(got), 'hampel:short_output')
            ctx.raises(ValueError, lambda: ws.HampelFilter(dx=-1.)(y), 'hampel:negative_width')


def dct_matrix(n):
    """Orthonormal DCT-II matrix from the definition."""
    k, j = np.arange(n)[:, None], np.arange(n)[None]
    M = np.cos(np.pi * k * (2 * j + 1) / (2. * n)) * np.sqrt(2. / n)
    M[0] /= np.sqrt(2)
    return M


@family(shards=2)
def cosine_transforms(ctx):
    rng = ctx.rng
    for _ in ctx.loop(100):
        nd = int(rng.randint(1, 5))
        shape = tuple(int(v) for v in rng.randint(1, 7, nd))
        x = rng.normal(size=shape) if rng.rand() < 0.7 else rng.randint(-5, 6, shape)
        kind = str(rng.choice(['c', 's']))
        f, g = (wd.dctn, wd.idctn) if kind == 'c' else (wd.dstn, wd.idstn)
        ref, iref = (sf.dctn, sf.idctn) if kind == 'c' else (sf.dstn, sf.idstn)
        with ctx.case(shape=shape, kind=kind):
            with ctx.frozen('dct:argument_changed', x):
                y = f(x)
            want = np.asarray(x, float)
            ctx.close(g(y), x, 'dctn:inverse', 1e-9, 1e-9)
            if kind == 'c':
                for ax in range(nd):
                    want = np.moveaxis(np.tensordot(dct_matrix(shape[ax]), want, (1, ax)), 0, ax)
                ctx.close(y, want, 'dctn:definition', 1e-9, 1e-9)
                ctx.close(np.sum(np.asarray(y) ** 2), np.sum(want ** 2), 'dctn:energy', 1e-9, 1e-9)
            else:
                ctx.close(y, sf.dstn(want, norm='ortho'), 'dstn:value', 1e-9, 1e-9)
            # some of the axes, other sizes, other types and scalings
            axes = list(rng.permutation(nd)[:int(rng.randint(1, nd + 1))])
            axes = [int(a) - (nd if rng.rand() < 0.3 else 0) for a in axes]
            size = None if rng.rand() < 0.5 else [int(v) for v in rng.randint(2, 8, len(axes))]
            typ = int(rng.choice([2, 3]))
            norm = rng.choice(['ortho', 'none'])
            norm = None if norm == 'none' else 'ortho'
            got = f(x, typ, shape=size, axes=axes, norm=norm)
            sizes = {a % nd: n for a, n in zip(axes, size)} if size else {}
            xx = np.asarray(x, float)
            for a, n in sizes.items():
                cut = [slice(None)] * nd
                cut[a] = slice(0, n)
                xx = xx[tuple(cut)]
                pad = [(0, 0)] * nd
                pad[a] = (0, n - xx.shape[a])
                xx = np.pad(xx, pad)
            want = ref(xx, typ, axes=[a % nd for a in axes], norm=norm)
            ctx.close(got, want, 'dctn:axes', 1e-9, 1e-9, msg='axes %r shape %r type %d norm %r' % (axes, size, typ, norm), shape=True)
            back = g(got, typ, axes=axes, norm=norm)
            if norm:
                ctx.close(back, xx, 'dctn:axes_inverse', 1e-9, 1e-9)
            else:
                ctx.close(back, iref(want, typ, axes=[a % nd for a in axes]) * np.prod([2 * xx.shape[a % nd] for a in axes]), 'dctn:unscaled', 1e-9, 1e-8)
            ctx.raises(ValueError, lambda: f(x, shape=shape + (3,)), 'dctn:length_of_shape')
            one = {'c': (wd.dct, wd.idct, sf.dct), 's': (wd.dst, wd.idst, sf.dst)}[kind]
            ax = int(rng.randint(0, nd))
            ctx.close(one[0](x, axis=ax), one[2](np.asarray(x, float), axis=ax, norm='ortho'), 'dct:value', 1e-9, 1e-9)
            ctx.close(one[1](one[0](x, axis=ax), axis=ax), x, 'dct:inverse', 1e-9, 1e-9)
            # shiftdim
            k = int(rng.randint(0, nd + 2))
            ctx.equal(wd.shiftdim(x, k), np.moveaxis(x, range(nd), [(a - k) % nd for a in range(nd)]), 'shiftdim:left')
            ctx.equal(wd.shiftdim(x, -k).shape, (1,) * k + shape, 'shiftdim:right') if k else None
            if max(shape) > 1:
                lead = next(i for i, v in enumerate(shape) if v != 1)
                ctx.equal(wd.shiftdim(x).shape, shape[lead:], 'shiftdim:leading')
                ctx.equal(wd.shiftdim(x).ravel(), x.ravel(), 'shiftdim:values')


@family(shards=2)
def padua(ctx):
    rng = ctx.rng
    for _ in ctx.loop(60):
        n = int(rng.randint(0, 14))
        a, c = rng.normal(size=2)
        dom = (-1, 1, -1, 1) if rng.rand() < 0.4 else (float(a), float(a + rng.uniform(0.2, 3)), float(c), float(c + rng.uniform(0.2, 3)))
        A, B, Cc, D = dom
        deg = int(rng.randint(0, n + 1))
        coef = {(i, j): float(rng.normal()) for i in range(deg + 1) for j in range(deg + 1 - i)}

        def f(x, y, k=1.):
            u, v = (2 * x - A - B) / (B - A), (2 * y - Cc - D) / (D - Cc)
            return k * sum(w * u ** i * v ** j for (i, j), w in coef.items())
        s = sum(abs(v) for v in coef.values())
        with ctx.case(n=n, deg=deg, dom=dom):
            P = wp.padua_points(n, dom)
            ctx.ok(P.shape == (2, (n + 1) * (n + 2) // 2), 'padua:number', 'shape %r' % (P.shape,))
            # the points: intersections of the two Chebyshev-Lobatto grids of one parity
            u, v = (2 * P[0] - A - B) / (B - A), (2 * P[1] - Cc - D) / (D - Cc)
            i, j = np.arccos(np.clip(u, -1, 1)) * max(n, 1) / np.pi, np.arccos(np.clip(v, -1, 1)) * (n + 1) / np.pi
            ctx.close(i, np.round(i), 'padua:grid', 1e-6, 1e-5)
            ctx.close(j, np.round(j), 'padua:grid', 1e-6, 1e-5)
            ctx.ok(len(np.unique(np.round(i) * 1000 + np.round(j))) == P.shape[1], 'padua:distinct', 'points coincide')
            ctx.ok(len(set((np.round(i) + np.round(j)).astype(int) % 2)) == 1 or n == 0, 'padua:parity', 'points of both families')
            C, err = wp.padua_fit(P, f)
            ctx.ok(np.shape(C) == (n + 1, n + 1), 'padua:coefficients', 'shape %r' % (np.shape(C),))
            x, y = A + (B - A) * rng.rand(3, 4), Cc + (D - Cc) * rng.rand(3, 4)
            ctx.close(wp.padua_val(x, y, C, dom) / s, f(x, y) / s + 0 * x, 'padua:polynomial', 1e-9, 1e-9, shape=True)
            ctx.close(wp.padua_val(P[0], P[1], C, dom) / s, f(P[0], P[1]) / s + 0 * P[0], 'padua:interpolates', 1e-9, 1e-9)
            ctx.close(wp.padua_val(x[0], y[0, :2], C, dom, use_meshgrid=True) / s, f(x[0][None], y[0, :2][:, None]) / s + np.zeros((2, 4)), 'padua:mesh', 1e-9, 1e-9, shape=True)
            ctx.ok(err >= 0 and (deg == n or err < 1e-9 * s), 'padua:error', 'estimate %g for a polynomial of degree %d < %d' % (err, deg, n))
            C2 = wp.padua_fit(P, f, 2.5)[0]
            ctx.close(C2 / s, 2.5 * C / s, 'padua:args', 1e-9, 1e-10)
            exact = sum(w * ((1 - (-1) ** (i + 1)) / (i + 1)) * ((1 - (-1) ** (j + 1)) / (j + 1)) for (i, j), w in coef.items()) * (B - A) * (D - Cc) / 4
            ctx.close(wp.padua_cubature(C, dom) / s, exact / s, 'padua:cubature', 1e-9, 1e-9)
            # any function: interpolated at the points
            g = lambda x, y: np.exp(np.sin(3 * x) - y)
            C, err = wp.padua_fit(P, g)
            top = max(1., np.max(np.abs(g(P[0], P[1]))))
            ctx.close(wp.padua_val(P[0], P[1], C, dom) / top, g(P[0], P[1]) / top, 'padua:interpolates_any', 1e-8, 1e-8)


@family()
def bits(ctx):
    rng = ctx.rng
    for _ in ctx.loop(120):
        dt = rng.choice(['int64', 'uint8', 'uint16', 'uint32', 'uint64', 'int32'])
        wide = {'int64': 62, 'uint8': 8, 'uint16': 16, 'uint32': 32, 'uint64': 64, 'int32': 31}[str(dt)]
        val = [int(rng.randint(0, 2 ** 31)) * int(rng.randint(0, 2 ** 31)) * int(rng.randint(0, 5)) % 2 ** wide for _k in range(4)]
        if rng.rand() < 0.3:
            val[0] = 2 ** wide - 1
        i = np.array(val, dtype=str(dt))
        bit = int(rng.randint(0, wide))
        with ctx.case(dtype=str(dt), bit=bit):
            ctx.equal([int(v) for v in wb.getbit(i, bit)], [v >> bit & 1 for v in val], 'getbit:value')
            ctx.equal([int(v) for v in wb.setbit(i, bit)], [v | 1 << bit for v in val], 'setbit:one')
            ctx.equal([int(v) for v in wb.setbit(i, bit, 0)], [v & ~(1 << bit) for v in val], 'setbit:zero')
            values = [int(v) for v in rng.randint(0, 2, 4)]
            ctx.equal([int(v) for v in wb.setbit(i, bit, values)], [v | 1 << bit if w else v & ~(1 << bit) for v, w in zip(val, values)], 'setbit:values')
            where = [int(v) for v in rng.randint(0, wide, 4)]
            ctx.equal([int(v) for v in wb.getbit(i, where)], [v >> b & 1 for v, b in zip(val, where)], 'getbit:positions')
            ctx.equal([int(v) for v in wb.setbit(i, where, np.array(values))],
                      [v | 1 << b if w else v & ~(1 << b) for v, b, w in zip(val, where, values)], 'setbit:positions')
            ctx.equal([int(v) for v in i], val, 'bits:argument_changed')
            all_ = wb.getbits(i[1], wide)
            ctx.equal([int(v) for v in all_], [val[1] >> b & 1 for b in range(wide)], 'getbits:value')
            ctx.equal(int(wb.setbits([int(v) for v in all_])), val[1], 'setbits:round_trip')
            ctx.equal(int(wb.setbits(wb.getbits(val[2] % 256))), val[2] % 256, 'setbits:byte')
