"""C19: cycle matrices, counting distributions and rainflow matrices of Markov chains against direct summation and first-passage probabilities."""
import numpy as np

import wafo.markov as wm
from vlib.harness import family

RULE = ("counting distributions are compared with direct sums over the cycles they count and turned back into the matrix they came from; rainflow matrices of "
        "Markov chains of turning points are compared with the interval crossing intensities of the chain, found by solving for its first passage "
        "probabilities, and with the rainflow count of a simulated sequence of turning points")
ASSUMPTIONS = ["numpy.linalg is right", "matrices of 3 to 24 levels", "mctp2rfc: chains whose max-to-min matrix has the marginals of the min-to-max matrix "
               "(otherwise the chain is not stationary), and relative accuracy 1e-5 because the code ignores intensities below 1e-6"]


def chain(rng, N, kind=None):
    """A min2max matrix in the orientation of mctp2rfc: row r is maximum at level N-1-r, column c is minimum at level c."""
    kind = rng.choice(['dense', 'sparse', 'normal', 'counts', 'narrow']) if kind is None else kind
    r, c = np.mgrid[:N, :N]
    ok = r + c < N - 1
    if kind == 'dense':
        f = rng.uniform(0.05, 1, (N, N))
    elif kind == 'sparse':
        f = rng.uniform(0, 1, (N, N)) * (rng.rand(N, N) < 0.4)
    elif kind == 'counts':
        f = rng.poisson(2, (N, N)).astype(float)
    elif kind == 'narrow':
        f = np.exp(-0.5 * ((r + c - (N - 2)) / 1.5) ** 2) * rng.uniform(0.5, 1, (N, N))
    else:
        f = np.exp(-((r - 0.4 * N) ** 2 + (c - 0.4 * N) ** 2) / (0.1 * N * N + 1.))
    f = np.where(ok, f, 0.)
    if f.sum() == 0:
        f[0, 0] = 1
    return f, str(kind)


def other_way(rng, f, moves=40):
    """Another matrix with the same marginals and the same zero pattern below the diagonal: swaps round 2x2 cells."""
    g = f.copy()
    N = len(f)
    for _ in range(moves):
        r1, r2 = np.sort(rng.randint(0, N - 1, 2))
        c1, c2 = np.sort(rng.randint(0, N - 1, 2))
        if r1 == r2 or c1 == c2 or r2 + c2 >= N - 1:
            continue
        if rng.rand() < 0.5:
            t = rng.uniform(0, 1) * min(g[r1, c1], g[r2, c2])
        else:
            t = -rng.uniform(0, 1) * min(g[r1, c2], g[r2, c1])
        g[r1, c1] -= t
        g[r2, c2] -= t
        g[r1, c2] += t
        g[r2, c1] += t
    return g


def rainflow(f, g=None):
    """Rainflow matrix of the stationary chain with min2max matrix f and max2min matrix g, by first passage."""
    g = f if g is None else g
    N = len(f)
    fmax, fmin = f.sum(1), f.sum(0)
    A = np.divide(f, fmin, out=np.zeros_like(f), where=fmin > 0).T     # min c -> max r
    B = np.divide(g, fmax[:, None], out=np.zeros_like(f), where=fmax[:, None] > 0)     # max r -> min c
    cum = np.zeros((N + 1, N + 1))     # cum[r, c]: cycles with max row < r and min column < c
    for r in range(1, N + 1):
        for c in range(1, N + 1):
            if r + c > N:     # max >= N - r, min <= c - 1; an interval only if N - r >= c
                continue
            hi = np.arange(N) < r
            lo = np.arange(N) < c
            # h(min) = P(a maximum in hi comes before the next minimum in lo)
            T = A[:, ~hi] @ B[~hi][:, ~lo]
            h_in = np.linalg.solve(np.eye(int((~lo).sum())) - T[~lo], A[~lo][:, hi].sum(1)) if (~lo).any() else np.zeros(0)
            h = A[:, hi].sum(1) + T @ h_in
            cum[r, c] = np.sum(fmin[lo] * h[lo])
    out = np.zeros((N, N))
    for r in range(N):
        for c in range(N):
            if r + c < N - 1:
                out[r, c] = cum[r + 1, c + 1] - cum[r, c + 1] - cum[r + 1, c] + cum[r, c]
    return out


def irreducible(f, g):
    """Every turning point that occurs leads to every other one."""
    f, g = f > 0, g > 0
    N = len(f)
    step = np.zeros((2 * N, 2 * N), bool)
    step[:N, N:] = f.T
    step[N:, :N] = g
    used = np.flatnonzero(step.any(1) | step.any(0))
    step = step[np.ix_(used, used)]
    reach = step | np.eye(len(used), dtype=bool)
    for _ in range(8):
        reach = (reach.astype(int) @ reach.astype(int)) > 0
    return bool(reach.all())


@family()
def standard_counting(ctx):
    rng = ctx.rng
    for _ in ctx.loop(120):
        n = int(rng.randint(2, 20))
        ints = bool(rng.rand() < 0.4)
        full = rng.randint(0, 9, (n, n)) if ints else rng.uniform(0, 5, (n, n)) * (rng.rand(n, n) < 0.7)
        F = np.triu(full, 1)
        with ctx.case(n=n, ints=ints):
            with ctx.frozen('counting:argument_changed', F):
                nt = wm.cmat2nt(F)
                nt2 = wm.cmat2nt(F, kind=11)
            want = np.array([[F[:i, j + 1:].sum() for j in range(n)] for i in range(n)], float)
            ctx.close(nt, want, 'cmat2nt:sums', 1e-12, 1e-10)
            ctx.close(nt2, want, 'cmat2nt:loop', 1e-12, 1e-10)
            with ctx.frozen('counting:argument_changed', nt):
                c1, c2 = wm.nt2cmat(nt), wm.nt2cmat(nt, kind=11)
            ctx.close(c1, F, 'nt2cmat:round_trip', 1e-9, 1e-9)
            ctx.close(c2, F, 'nt2cmat:round_trip_loop', 1e-9, 1e-9)
            # any table, not only one that comes from a matrix of cycles
            any_ = rng.normal(size=(n, n))
            ctx.close(wm.nt2cmat(any_), wm.nt2cmat(any_, 11), 'nt2cmat:forms_agree', 1e-12, 1e-12)
            ctx.close(wm.cmat2nt(any_), wm.cmat2nt(any_, 11), 'cmat2nt:forms_agree', 1e-10, 1e-10)
            back = wm.cmat2nt(wm.nt2cmat(nt))
            ctx.close(back, nt, 'cmat2nt:round_trip', 1e-9, 1e-9)
            for kind in (0, -1):
                ctx.raises(NotImplementedError, lambda: wm.cmat2nt(F, kind), 'cmat2nt:kind')
                ctx.raises(NotImplementedError, lambda: wm.nt2cmat(F, kind), 'nt2cmat:kind')
            ctx.raises(ValueError, lambda: wm.cmat2nt(F, 5), 'cmat2nt:bad_kind')
            ctx.raises(ValueError, lambda: wm.nt2cmat(F, 5), 'nt2cmat:bad_kind')


@family()
def frequency_counting(ctx):
    """fr2nt and nt2fr: rows are maxima from the top, columns minima from the bottom."""
    rng = ctx.rng
    for _ in ctx.loop(120):
        n = int(rng.randint(3, 20))
        f, kind = chain(rng, n)
        with ctx.case(n=n, kind=kind):
            with ctx.frozen('frequency:argument_changed', f):
                nt = wm.fr2nt(f)
            r, c = np.mgrid[:n, :n]
            want = np.array([[f[:i, :j].sum() for j in range(n)] for i in range(n)], float)
            inside = r + c <= n - 1
            ctx.close(np.asarray(nt)[inside], want[inside], 'fr2nt:sums', 1e-11, 1e-10)
            with ctx.frozen('frequency:argument_changed', want):
                back0 = wm.nt2fr(want)
                back1 = wm.nt2fr(np.cumsum(np.cumsum(f, 0), 1), kind=1)
            ctx.close(back0[:-1, :-1], f[:-1, :-1], 'nt2fr:strict', 1e-9, 1e-9)
            ctx.close(back1[1:, 1:], f[1:, 1:], 'nt2fr:weak', 1e-9, 1e-9)
            rt = wm.nt2fr(nt)
            deep = r + c <= n - 3
            ctx.close(rt[deep], f[deep], 'nt2fr:round_trip', 1e-9, 1e-9)
            ctx.raises(ValueError, lambda: wm.fr2nt(np.zeros((2, 2))), 'fr2nt:too_small')
            ctx.raises(ValueError, lambda: wm.fr2nt(np.zeros((4, 5))), 'fr2nt:not_square')


@family(shards=3)
def rainflow_matrix(ctx):
    rng = ctx.rng
    for _ in ctx.loop(60):
        N = int(rng.randint(3, 13))
        f, kind = chain(rng, N)
        if rng.rand() < 0.3:
            f = f * 10. ** rng.uniform(-2, 4)
        rev = bool(rng.rand() < 0.5)
        g = None if rev else other_way(rng, f)
        total = f.sum()
        if not irreducible(f, f if g is None else g):
            ctx.count('reducible_chains_left_out')
            continue
        with ctx.case(N=N, kind=kind, reversible=rev, total=float(total)):
            with ctx.frozen('rainflow:argument_changed', f, f if g is None else g):
                got = wm.mctp2rfc(f) if g is None else wm.mctp2rfc(f, g)
            got = np.asarray(got)
            ctx.ok(got.shape == (N, N) and np.all(np.isfinite(got)), 'rainflow:shape', 'finite and square')
            ctx.close(got / total, rainflow(f, g) / total, 'rainflow:first_passage', 1e-4, 2e-5)
            ctx.close(got.sum() / total, 1., 'rainflow:total', 1e-4, 2e-5, msg='as many rainflow cycles as maxima')
            ctx.close(got.sum(1) / total, f.sum(1) / total, 'rainflow:maxima', 1e-4, 5e-5)
            ctx.close(got.sum(0) / total, f.sum(0) / total, 'rainflow:minima', 1e-4, 5e-5)
            r, c = np.mgrid[:N, :N]
            ctx.ok(np.all(got >= -2e-5 * total), 'rainflow:positive', 'negative intensity')
            ctx.ok(np.all(np.abs(got[r + c >= N - 1]) <= 2e-5 * total), 'rainflow:diagonal', 'cycles without a range')
            two = np.asarray(wm.mctp2rfc(3 * f) if g is None else wm.mctp2rfc(3 * f, 3 * g))
            ctx.close(two / total, 3 * got / total, 'rainflow:scale', 1e-6, 1e-5)


def count_rainflow(tp):
    """Plain three point rainflow count of turning points that start and end at the same extreme: list of (min, max)."""
    stack, out = [], []
    for x in tp:
        stack.append(x)
        while len(stack) >= 4:
            a, b, c, d = stack[-4:]
            if min(a, d) <= min(b, c) and max(b, c) <= max(a, d):
                out.append((min(b, c), max(b, c)))
                del stack[-3:-1]
            else:
                break
    return out, stack


@family(limit=300)
def simulated(ctx):
    """The rainflow count of a long simulated sequence has the frequencies mctp2rfc predicts."""
    rng = ctx.rng
    for _ in ctx.loop(6):
        N = int(rng.randint(4, 9))
        f, kind = chain(rng, N, str(rng.choice(['dense', 'normal', 'narrow'])))
        g = f if rng.rand() < 0.5 else other_way(rng, f)
        A = np.cumsum(np.divide(f, f.sum(0), out=np.zeros_like(f), where=f.sum(0) > 0).T, axis=1)
        B = np.cumsum(np.divide(g, g.sum(1)[:, None], out=np.zeros_like(f), where=g.sum(1)[:, None] > 0), axis=1)
        n = 20000
        U = rng.rand(2 * n) * (1 - 1e-9)
        c = int(np.argmax(f.sum(0)))
        tp = np.zeros(2 * n)
        for i in range(n):
            tp[2 * i] = c
            r = int(np.searchsorted(A[c], U[2 * i], side='right'))
            tp[2 * i + 1] = N - 1 - r
            c = int(np.searchsorted(B[r], U[2 * i + 1], side='right'))
        top = int(np.argmax(tp))
        tp = np.r_[tp[top:], tp[:top], tp[top]] if top % 2 else tp
        out, _rest = count_rainflow(tp)
        emp = np.zeros((N, N))
        for lo, hi in out:
            emp[int(N - 1 - hi), int(lo)] += 1
        with ctx.case(N=N, kind=kind):
            want = np.asarray(wm.mctp2rfc(f, g))
            want = want / want.sum()
            sd = np.sqrt(want * (1 - want) / n) * 3
            ctx.ok(np.all(np.abs(emp / emp.sum() - want) <= 5 * sd + 5e-4), 'rainflow:simulated',
                   'largest difference %g' % np.max(np.abs(emp / emp.sum() - want)))
            ctx.count('simulated_cycles', len(out))


@family(shards=2)
def inverse(ctx):
    """iter_ returns a Markov matrix together with its rainflow matrix; iterated long enough this is the given one."""
    rng = ctx.rng
    for _ in ctx.loop(15):
        N = int(rng.randint(4, 11))
        f, kind = chain(rng, N, str(rng.choice(['dense', 'normal', 'narrow'])))
        f = f / f.sum()
        target = np.fliplr(rainflow(f))
        k = int(rng.choice([1, 2, 5]))
        with ctx.case(N=N, kind=kind, k=k):
            with ctx.frozen('iter:argument_changed', target):
                F, fr = wm.iter_(target, k=k)
            ctx.close(np.fliplr(fr), rainflow(np.fliplr(F)), 'iter:pair', 1e-4, 5e-5)
            ctx.ok(np.all(F >= 0), 'iter:positive', 'negative frequency')
            # by hand
            G = np.fliplr(target)
            for _k in range(k):
                G0, G = G, np.maximum(0, G + np.fliplr(target) - rainflow(G))
                if np.abs(G - G0).sum() <= 1e-5:
                    break
            ctx.close(np.fliplr(F), G, 'iter:steps', 1e-3, 3e-4)
            same, fr = wm.iter_(target, fmM_0=np.fliplr(f), k=3)
            ctx.close(np.fliplr(same), f, 'iter:fixed_point', 1e-3, 3e-4)
            F, fr = wm.iter_(target, k=400, epsilon=1e-7)
            ctx.close(fr, target, 'iter:converged', 1e-2, 1e-3)


@family()
def test_matrices(ctx):
    rng = ctx.rng
    for _ in ctx.loop(60):
        a = float(rng.normal())
        b = a + float(10 ** rng.uniform(-1, 1))
        n = int(rng.randint(2, 15))
        x0 = None if rng.rand() < 0.4 else [float(rng.uniform(a, b)), float(rng.uniform(a, b))]
        s = None if rng.rand() < 0.4 else float((b - a) * rng.uniform(0.1, 1))
        lam = float(rng.choice([1, 0.5, 2, rng.uniform(0.3, 3)]))
        ns = rng.choice([0, 1, 2, -1, -np.inf])
        ns = int(ns) if np.isfinite(ns) else ns
        with ctx.case(n=n, ns=ns, lam=lam):
            kw = dict(lam=lam, numsubzero=ns)
            if x0 is not None:
                kw['x0'] = x0
            if s is not None:
                kw['s'] = s
            F, Fh = wm.mktestmat((a, b, n), **kw)
            c = np.array(x0 if x0 is not None else [(a + b) / 2] * 2)
            s_ = s if s is not None else (b - a) / 4
            S = 0.5 * s_ ** 2 * np.array([[lam ** 2 + 1, lam ** 2 - 1], [lam ** 2 - 1, lam ** 2 + 1]])
            u = np.linspace(a, b, n)
            want = np.zeros((n, n))
            for i in range(n):
                for j in range(n):
                    if j - i > ns:
                        d = np.array([u[i], u[j]]) - c
                        want[i, j] = np.exp(-0.5 * d @ np.linalg.solve(S, d))
            ctx.close(F, want, 'mktestmat:value', 1e-8, 1e-12)
            ctx.equal(np.asarray(Fh), np.asarray(F).T, 'mktestmat:reversible')


@family()
def crests(ctx):
    """Upcrossing troughs and crests: what can be decided of mctp2tc."""
    rng = ctx.rng
    for _ in ctx.loop(30):
        N = int(rng.randint(5, 12))
        f, kind = chain(rng, N, str(rng.choice(['dense', 'normal'])))
        f = f / f.sum()
        with ctx.case(N=N, kind=kind):
            ctx.raises(ValueError, lambda: wm.mctp2tc(f, 2., (-1, 1, N)), 'mctp2tc:level_above')
            ctx.raises((ValueError, IndexError), lambda: wm.mctp2tc(f, -2., (-1, 1, N)), 'mctp2tc:level_below')
            with ctx.frozen('mctp2tc:argument_changed', f):
                try:
                    F = wm.mctp2tc(f, 0., (-1, 1, N))
                except ValueError as e:
                    ctx.ok(False, 'mctp2tc:raises', str(e)[:80])
                    continue
            ctx.ok(np.all(np.asarray(F) >= -1e-6), 'mctp2tc:negative', 'negative frequency %g' % np.min(F))
    f, kind = chain(rng, 6, 'dense')
    for name, call in [('mc2rfc', lambda: wm.mc2rfc(f)), ('iter_mc', lambda: wm.iter_mc(f)), ('arfm2mctp', lambda: wm.arfm2mctp(np.fliplr(f)))]:
        with ctx.case(function=name):
            try:
                call()
                ok = True
            except Exception:
                ok = False
            ctx.ok(ok, name + ':raises', 'raises for every matrix')
