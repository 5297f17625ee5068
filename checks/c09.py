import mpmath
import numpy as np
from wafo.wave_theory import core
from wafo.wave_theory.core import TransferFunction, hyperbolic_ratio, sensor_type, sensor_typeid, wave_pressure
from wafo.wave_theory.dispersion_relation import k2w, w2k
from vlib.harness import family

RULE = ('seeded frequencies 1e-4 to 30 rad/s, directions, depths 0.05 m to infinity, gravities, currents, sensor types, positions; '
        'scalars, vectors, tables and broadcast shapes; non-trivial: at least one positive frequency')
ASSUMPTIONS = ['linear wave theory: w^2 = g k tanh(k h); hyperbolic functions by mpmath']


def wavenumber(w, h, g):
    """Bracketed bisection of w^2 = g k tanh(k h), elementwise."""
    w, h, g = np.broadcast_arrays(np.asarray(w, dtype=float), h, g)
    w, h, g = w.astype(float), h.astype(float), g.astype(float)
    W = np.abs(w)
    lo = W ** 2 / g
    with np.errstate(all='ignore'):
        # tanh(x) <= min(1, x), and tanh(x) >= x/(1+x)
        hi = np.where(np.isfinite(h), W ** 2 / g + np.where(np.isfinite(h), W / np.sqrt(g * h), 0), lo)
    for _ in range(200):
        m = 0.5 * (lo + hi)
        with np.errstate(all='ignore'):
            f = g * m * np.where(np.isfinite(h), np.tanh(m * np.where(np.isfinite(h), h, 0)), 1.) - W ** 2
        lo, hi = np.where(f < 0, m, lo), np.where(f < 0, hi, m)
    return np.sign(w) * 0.5 * (lo + hi)


def depth(rng, deep=0.25):
    return float(np.inf if rng.rand() < deep else 10 ** rng.uniform(np.log10(0.05), 4.5))


def shaped(rng):
    k = rng.randint(7)
    w = 10 ** rng.uniform(-4, 1.5, 12)
    if rng.rand() < 0.3:
        w[rng.randint(12)] = 0
    if rng.rand() < 0.2:
        w[rng.randint(12, size=4)] *= -1
    th = rng.uniform(-np.pi, np.pi, 12)
    if k == 0:
        return float(w[0]), float(th[0])
    if k == 1:
        return w, float(th[0])
    if k == 2:
        return w, th
    if k == 3:
        return w.reshape(3, 4), th.reshape(3, 4)
    if k == 4:
        return w, th[:5, None]
    if k == 5:
        return w.tolist(), 0.0
    return np.arange(12), th


@family(shards=2)
def dispersion(ctx):
    rng = ctx.rng
    for _ in ctx.loop(500):
        w, th = shaped(rng)
        h, g = depth(rng), float(rng.choice([9.81, 9.8, 1.62, 1.0]))
        if rng.rand() < 0.25:
            h = np.where(rng.rand(12) < 0.2, np.inf, 10 ** rng.uniform(-1, 4, 12))
            if np.shape(w) == (3, 4):
                h = h.reshape(3, 4)
        with ctx.case(w=w, th=th, h=h, g=g):
            want = wavenumber(w, h, g)
            W = np.array(w) if isinstance(w, np.ndarray) else w
            k1, k2 = w2k(w, th, h, g)
            c = np.broadcast_arrays(want, th)
            tol = dict(rtol=1e-6, atol=1e-12)
            ctx.close(k1, c[0] * np.cos(c[1]), 'w2k:k1', **tol)
            ctx.close(k2, c[0] * np.sin(c[1]), 'w2k:k2', **tol)
            if isinstance(w, np.ndarray):
                ctx.equal(w, W, 'w2k:argument')
            ka = w2k(w, 0, h, g)[0]
            ctx.close(ka, np.hypot(*w2k(np.abs(w), th, h, g)) * np.sign(w) if np.shape(th) == () else ka, 'w2k:direction', rtol=1e-6, atol=1e-12)
            # back again (waves only: non negative frequencies)
            if np.all(np.asarray(w) >= 0):
                w2, th2 = k2w(k1, k2, h, g)
                ctx.close(w2, np.broadcast_to(np.asarray(w, dtype=float), c[0].shape) if np.shape(w2) != np.shape(w) else w,
                          'k2w(w2k)', rtol=1e-5, atol=1e-9)
                pos = np.broadcast_to(np.asarray(w) > 0, c[0].shape)
                ctx.close(np.cos(np.asarray(th2))[pos], np.cos(c[1])[pos], 'k2w:direction', rtol=0, atol=1e-9)
                ctx.close(np.sin(np.asarray(th2))[pos], np.sin(c[1])[pos], 'k2w:direction', rtol=0, atol=1e-9)
            ctx.count('frequencies', np.size(want))
    with ctx.case(what='dispersion: limits and order'):
        w = np.linspace(0.01, 20, 400)
        for h in (0.1, 1., 10., 500., np.inf):
            k = w2k(w, 0, h)[0]
            ctx.ok(np.diff(k) > 0, 'w2k:increasing')
            if h < np.inf:
                ctx.ok(k >= w2k(w, 0, 2 * h)[0] * (1 - 1e-7), 'w2k:depth')
                lo = 1e-3 * np.sqrt(9.81 / h)
                ctx.close(w2k(lo, 0, h)[0], lo / np.sqrt(9.81 * h), 'w2k:shallow', rtol=1e-5)
        for f in (w2k, k2w):
            a, b = f([], 0)
            ctx.equal((np.size(a), np.size(b)), (0, 0), 'empty')
        k1, k2 = w2k(w, 0.3, g=np.r_[9.81, 4.9])     # normalised spectra: one gravity per direction
        ctx.close(k1, w ** 2 / 9.81 * np.cos(0.3), 'w2k:two_gravities')
        ctx.close(k2, w ** 2 / 4.9 * np.sin(0.3), 'w2k:two_gravities')
        ctx.raises(ValueError, lambda: w2k(w, 0.3, 10., g=np.r_[9.81, 4.9]), 'w2k:two_gravities')


@family()
def currents(ctx):
    rng = ctx.rng
    for _ in ctx.loop(400):
        n = int(rng.choice([1, 2, 9]))
        k1, k2 = rng.randn(2, n) * 10 ** rng.uniform(-3, 1)
        if rng.rand() < 0.3:
            k1[0] = k2[0] = 0
        u1, u2 = rng.randn(2) * rng.choice([0, 0.5, 3.])
        h, g = depth(rng), float(rng.choice([9.81, 1.62]))
        if rng.rand() < 0.3:
            h = np.abs(rng.randn(n)) * 30 + 0.1
        with ctx.case(k1=k1, k2=k2, u1=u1, u2=u2, h=h, g=g):
            k = np.hypot(k1, k2)
            intr = np.sqrt(g * k * np.where(np.isfinite(h), np.tanh(k * np.where(np.isfinite(h), h, 1)), 1))
            want = np.where(k > 0, np.maximum(intr + k1 * u1 + k2 * u2, 0), 0)
            a, b = k1.copy(), k2.copy()
            w, th = k2w(k1, k2, h, g, u1, u2)
            ctx.close(w, want, 'k2w:current', rtol=1e-9, atol=1e-12)
            ctx.close(k * np.cos(th), k1, 'k2w:direction', rtol=1e-9, atol=1e-12)
            ctx.close(k * np.sin(th), k2, 'k2w:direction', rtol=1e-9, atol=1e-12)
            ctx.equal((a, b), (k1, k2), 'k2w:argument')
            w0 = k2w(k1, k2, h, g)[0]
            ctx.close(w0, intr, 'k2w', rtol=1e-9, atol=1e-13)
            ctx.count('opposed', np.sum(intr + k1 * u1 + k2 * u2 < 0))


def ratio(a, b, sa, sb):
    f = {1: mpmath.cosh, -1: mpmath.sinh}
    d = f[sb](mpmath.mpf(float(b)))
    return float(f[sa](mpmath.mpf(float(a))) / d)


@family()
def hyperbolic(ctx):
    rng = ctx.rng
    for _ in ctx.loop(250):
        shape = [(5,), (2, 3), (1,)][rng.randint(3)]
        s = 10 ** rng.uniform(-3, 3.5)
        b = rng.uniform(-1, 1, shape) * s
        a = b + rng.randn(*shape) * 10 ** rng.uniform(-4, 1.5)
        if rng.rand() < 0.2:
            a = np.zeros(shape) + rng.choice([0., 1.])
        sa, sb = rng.choice([-1, 1], 2)
        with ctx.case(a=a, b=b, sa=sa, sb=sb):
            want = np.array([ratio(x, y, sa, sb) for x, y in zip(a.ravel(), b.ravel())]).reshape(shape)
            ctx.close(hyperbolic_ratio(a, b, sa, sb), want, 'hyperbolic_ratio', rtol=1e-9 + 1e-15 * s, atol=1e-300)
            ctx.close(hyperbolic_ratio(a, float(b.flat[0]), sa, sb),
                      np.array([ratio(x, b.flat[0], sa, sb) for x in a.ravel()]).reshape(shape), 'hyperbolic_ratio',
                      rtol=1e-9 + 1e-15 * s, atol=1e-300)


NAMES = ['n', 'n_t', 'n_tt', 'n_x', 'n_y', 'n_xx', 'n_yy', 'n_xy', 'p', 'u', 'v', 'w', 'u_t', 'v_t', 'w_t', 'x_p', 'y_p', 'z_p']


def response(name, w, th, k, pos, h, g, rho):
    """Linear wave theory response to eta = exp(i(kx x + ky y - w t)) at t=0; z positive upwards from the mean water level."""
    x, y, z = pos
    w, k, th = w[None, :], k[None, :], th[:, None]
    kx, ky = k * np.cos(th), k * np.sin(th)
    E = np.exp(1j * (kx * x + ky * y))
    if np.isfinite(h):
        # amplitude of the potential below the surface, phi = -i g/w * C * E, C = cosh(k(h+z))/cosh(kh)
        C = np.array([ratio(kk * (h + z), kk * h, 1, 1) for kk in k[0]])[None, :]
        S = np.array([ratio(kk * (h + z), kk * h, -1, 1) for kk in k[0]])[None, :]
    else:
        C = S = np.exp(k * z)
    vel = dict(u=g * kx / w * C * E, v=g * ky / w * C * E, w=-1j * g * k / w * S * E)
    if name[0] == 'n':
        f = {'n': 1, 'n_t': -1j * w, 'n_tt': -w ** 2, 'n_x': 1j * kx, 'n_y': 1j * ky, 'n_xx': -kx ** 2, 'n_yy': -ky ** 2,
             'n_xy': -kx * ky}[name]
        return f * E
    if name == 'p':
        return rho * g * C * E
    if name in vel:
        return vel[name]
    if name.endswith('_t'):
        return -1j * w * vel[name[0]]
    return vel[dict(x='u', y='v', z='w')[name[0]]] / (-1j * w)


@family(shards=2)
def transfer(ctx):
    rng = ctx.rng
    for i in ctx.loop(500):
        name = NAMES[i % len(NAMES)]
        w = np.sort(10 ** rng.uniform(-1.5, 0.8, rng.choice([1, 2, 6])))
        th = rng.uniform(-np.pi, np.pi, rng.choice([1, 2, 6]))
        h = depth(rng, 0.2)
        g = float(rng.choice([9.81, 9.81, 1.62]))
        k = wavenumber(w, h, g)
        rho = float(rng.choice([1028., 1000.]))
        z = -rng.uniform(0, 1) * min(h, 3 / k.max()) if rng.rand() < 0.8 else 0.0
        x, y = rng.uniform(-1, 1, 2) * rng.choice([0, 1, 50.])
        igam, bet = int(rng.choice([1, 1, 2, 3])), int(rng.choice([1, 1, -1]))
        if igam == 3 and not np.isfinite(h):
            igam = 1
        spelled = name if name[0] == 'n' or rng.rand() < 0.6 else name[0].upper() + name[1:]
        if rng.rand() < 0.2:
            spelled = NAMES.index(name)
        rot = float(rng.choice([0, 0, 30., -45, 90.]))      # the x-axis points rot degrees north of east ...
        with ctx.case(name=name, spelled=spelled, w=w, th=th, h=h, g=g, rho=rho, pos=(x, y, z), igam=igam, bet=bet, rot=rot):
            zz = {1: z, 2: -z, 3: h + z}[igam]
            tf = TransferFunction(pos=(x, y, zz), sensortype=spelled, h=h, g=g, rho=rho, bet=bet, igam=igam,
                                  thetax=90 - rot, thetay=-rot)
            W, T = w.copy(), th.copy()
            give_k = rng.rand() < 0.3
            K = k.copy()
            scalar = len(w) == 1 and len(th) == 1 and rng.rand() < 0.5
            args = (float(w[0]), float(th[0])) if scalar else (W, T)
            Hw, G = tf.tran(*args, **(dict(kw=K) if give_k else {}))
            Hw, G = np.array(Hw), np.array(G)
            ctx.equal(W, w, 'tran:argument')
            ctx.equal(T, th, 'tran:argument')
            ctx.equal(K, k, 'tran:argument')
            ctx.equal(G.shape, (len(th), len(w)), 'tran:shape')
            ctx.ok(Hw >= 0, 'tran:non_negative')
            # theta counted from east; in the sensor's axes the wave travels towards theta-rot
            ang = th + (np.pi if bet < 0 else 0) + np.deg2rad(rot)
            want = response(name, w, ang, k, (x, y, z), h, g, rho)
            if igam == 2:
                want = -want
            sz = np.abs(want).max(axis=0) + 1e-300
            got = Hw * G
            ph = 1 + np.abs(k * (abs(x) + abs(y))) + np.minimum(k * (h if np.isfinite(h) else 0), 1e6) * 1e-2
            ctx.close(np.real(got) / sz / ph, np.real(want) / sz / ph, 'tran:' + name, rtol=0, atol=3e-6)
            ctx.close(np.imag(got) / sz / ph, np.imag(want) / sz / ph, 'tran:' + name, rtol=0, atol=3e-6)
            H2, G2 = tf(w, th)
            ctx.close(np.abs(H2 * G2), np.abs(got), 'tran:repeat', rtol=1e-4, atol=1e-12 * sz.max())
            ctx.count('sensor_' + name)
    with ctx.case(what='zero and negative frequencies'):
        for nm in NAMES:
            for h in (10., np.inf):
                w = np.r_[0., 0.5, 1]
                H, G = TransferFunction(sensortype=nm, h=h, pos=(0, 0, -2)).tran(w, np.r_[0, 1.])
                ctx.ok(np.isfinite(H) & np.all(np.isfinite(G), axis=0), 'tran:finite', nm)
                ctx.equal(w, np.r_[0., 0.5, 1], 'tran:argument')
        w = np.r_[-1., -0.5, 0.5, 1]
        keep = w.copy()
        H, G = TransferFunction(sensortype='n_t').tran(w, np.r_[0.])
        ctx.ok(H >= 0, 'tran:non_negative')
        ctx.close((H * G).imag, -keep[None], 'tran:negative_frequency')
        ctx.equal(w, keep, 'tran:argument')
        ctx.equal(sensor_type(range(18)), tuple(NAMES), 'sensor_type')
        ctx.equal(sensor_typeid(*NAMES), list(range(18)), 'sensor_typeid')
        ctx.equal(sensor_typeid(*[n.upper() for n in NAMES]), list(range(18)), 'sensor_typeid')
        for i in range(18):
            ctx.equal(sensor_type(i), (NAMES[i],), 'sensor_type')
        ctx.equal(sensor_type(3, 9), ('n_x', 'u'), 'sensor_type')
        for bad in (-1, 18, 40):
            r = sensor_type(bad)
            ctx.ok(len(r) == 1 and r[0] != r[0], 'sensor_type:unknown')


@family()
def pressure(ctx):
    rng = ctx.rng
    import wafo.spectrum.models as sm
    for _ in ctx.loop(80):
        h = float(rng.choice([np.inf, 10000, 20., 5., 100.]))
        Hm0 = float(rng.uniform(0.3, 12))
        g = float(rng.choice([9.81, 9.81, 9.7]))
        z = -rng.uniform(0, min(h, 60), rng.choice([1, 4]))
        with ctx.case(h=h, Hm0=Hm0, g=g, z=z):
            Tp = 4 * np.sqrt(Hm0)
            gam = sm.jonswap_peakfact(Hm0, Tp)
            w = 2 * np.pi / (Tp / (1.30301 - 0.01698 * gam + 0.12102 / gam))
            k = float(np.ravel(wavenumber(w, h, g))[0])
            rho = 1025.
            want = rho * g * Hm0 / 2 * (np.array([ratio(k * (h + q), k * h, 1, 1) for q in z]) if np.isfinite(h) else np.exp(k * z))
            zc = z.copy()
            ctx.close(wave_pressure(z, Hm0, h=h, g=g, rho=rho), want, 'wave_pressure', rtol=1e-6)
            ctx.equal(z, zc, 'wave_pressure:argument')
            ctx.close(wave_pressure(0., Hm0, h=h, g=g, rho=rho), [rho * g * Hm0 / 2], 'wave_pressure:surface', rtol=1e-9)
