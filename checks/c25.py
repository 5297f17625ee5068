import os
import sys
import numpy as np
from scipy.stats import norm
import wafo.spectrum.models as sm
import wafo.transform.models as tm
from wafo.spectrum import SpecData1D
from vlib.harness import family

RULE = ('seeded Jonswap, Torsethaugen, double-peaked and rectangular spectra over angular frequency, frequency or wave number; levels from '
        '-0.7 to 2.8 standard deviations, grids with a step below a twelfth of the mean period; non-trivial: the range covers several '
        'mean periods, so that total mass, mean and simulated distribution are known')
ASSUMPTIONS = ["Rice's formula for level crossings and for the heights of maxima",
               'a Gaussian process is simulated here, independently, by random Fourier amplitudes of the linearly interpolated spectrum']


def quiet(fun, *args, **kwds):
    """Native code prints its statistics."""
    sys.stdout.flush()
    keep, null = os.dup(1), os.open(os.devnull, os.O_WRONLY)
    os.dup2(null, 1)
    try:
        return fun(*args, **kwds)
    finally:
        sys.stdout.flush()
        os.dup2(keep, 1)
        os.close(keep)
        os.close(null)


def values(rng, kind=None, n=None):
    kind = kind or rng.choice(['jonswap', 'torset', 'bimodal', 'flat'])
    hm0 = rng.uniform(1, 8)
    tp = rng.uniform(3.8, 4.8) * np.sqrt(hm0) * (1 if kind == 'jonswap' else rng.uniform(1, 1.4))
    wc = rng.uniform(3, 5) * 2 * np.pi / tp
    w = np.linspace(0, wc, n or rng.choice([65, 100, 129, 257]))
    if kind == 'jonswap':
        s = sm.Jonswap(Hm0=hm0, Tp=tp)(w)
    elif kind == 'torset':
        s = sm.Torsethaugen(Hm0=hm0, Tp=tp)(w)
    elif kind == 'bimodal':
        s = (np.exp(-((w - wc * .2) / (wc * .06)) ** 2) + np.exp(-((w - wc * .5) / (wc * .08)) ** 2) * rng.uniform(.1, .6)) * hm0
    else:
        s = np.where((w > .1 * wc) & (w < .8 * wc), hm0 * 1., 0)
    return w, s, kind


def moments(w, s):
    w2 = np.linspace(w[0], w[-1], 8 * (len(w) - 1) + 1)
    s2 = np.interp(w2, w, s)
    return [np.trapz(s2 * w2 ** p, w2) for p in (0, 2, 4)]


def simulate(rng, w, s, dt, n):
    """n values with step dt of the Gaussian process with spectrum s."""
    f = 2 * np.pi * np.fft.rfftfreq(n, dt)
    dw = f[1]
    amp = np.sqrt(np.interp(f, w, s, left=0, right=0) * dw)
    z = (rng.normal(size=len(f)) + 1j * rng.normal(size=len(f))) * amp
    z[0] = 0
    return np.fft.irfft(z, n) * (n / 2)


def durations(x, dt, u):
    """Durations of the excursions above u, by linear interpolation."""
    d = x - u
    i = np.flatnonzero((d[:-1] < 0) != (d[1:] < 0))
    t = (i + d[i] / (d[i] - d[i + 1])) * dt
    up = d[i + 1] >= 0
    k = np.flatnonzero(up[:-1])
    return t[k + 1] - t[k]


def period_case(rng, low=-0.7, high=2.8):
    w, s, kind = values(rng)
    m0, m2, m4 = moments(w, s)
    un = rng.uniform(low, high) if rng.rand() < .8 else 0.0
    T = 2 * np.pi * np.sqrt(m0 / m2)
    mean = T * np.exp(un ** 2 / 2) * norm.sf(un)
    tn = mean * rng.uniform(4, 6)
    tn = min(max(tn, .3 * T), .9 * np.pi / w[1])                   # covariances are known up to pi/dw
    nt = int(np.clip(np.ceil(tn / (T / rng.uniform(14, 22))), 21, 90)) + 1
    return w, s, kind, (m0, m2, m4), un, T, mean, tn, nt


def as_spec(w, s, form):
    if form == 'f':
        return SpecData1D(s * 2 * np.pi, w / (2 * np.pi), type='freq', freqtype='f')
    if form == 'k':
        return SpecData1D(s * 1., w * 1., type='k1d', freqtype='k')
    return SpecData1D(s * 1., w * 1., type='freq', freqtype='w')


def options(rng):
    o = dict(speed=int(rng.choice([4, 5, 6, 7])), seed=int(rng.randint(1, 1000)))
    if rng.rand() < .3:
        o['method'] = int(rng.choice([1, 3, 4]))
    return o


@family(shards=4, limit=800)
def periods(ctx):
    rng = ctx.rng
    for k in ctx.loop(14):
        w, s, kind, m, un, T, mean, tn, nt = period_case(rng)
        form = rng.choice(['w', 'w', 'f', 'k'])
        down = rng.rand() < .4
        opt = options(rng)
        name = ('L' if form == 'k' else 'T') + ('t' if down else 'c')
        u = un * np.sqrt(m[0]) * (-1 if down else 1)
        with ctx.case(kind=kind, n=len(w), u=u, name=name, form=form, tn=tn, nt=nt, options=opt, w_end=w[-1], m0=m[0]):
            S = as_spec(w, s, form)
            keep = S.data.copy(), S.args.copy()
            f = quiet(S.to_t_pdf, u=u, kind=name, paramt=(0, tn, nt), **opt)
            ctx.ok(np.array_equal(S.data, keep[0]) and np.array_equal(S.args, keep[1]), 'period:spectrum_unchanged')
            ctx.close(f.args, np.linspace(0, tn, nt), 'period:args', 1e-9, 1e-12)
            ctx.equal(np.shape(f.data), (nt,), 'period:shape')
            ctx.ok(np.isfinite(f.data) & (f.data >= 0), 'period:non_negative', lambda: f.data.min())
            ctx.ok(np.isfinite(f.err) & (f.err >= 0), 'period:error_estimate')
            ctx.equal(f.data[0], 0.0, 'period:zero_at_zero')
            ctx.close(f.u, u, 'period:level', 1e-12, 1e-12)
            t, d = f.args, f.data
            e = np.trapz(f.err, t)
            mass, mu = np.trapz(d, t), np.trapz(d * t, t)
            slack = 0.03 + e + (0.06 if un < 0.2 else 0) + 0.06 * max(0, -un)
            ctx.ok(mass <= 1 + slack, 'period:mass', lambda: 'mass %.4f (error %.4f)' % (mass, e))
            ctx.ok(mu <= mean * (1 + slack) + np.trapz(f.err * t, t), 'period:mean', lambda: 'mean %.5g, at most %.5g' % (mu, mean))
            if tn >= 4 * mean and un > 0.3:                        # longer excursions are very rare
                ctx.ok(mass >= 1 - slack, 'period:all_mass', lambda: 'mass %.4f (error %.4f)' % (mass, e))
                ctx.close(mu, mean, 'period:mean_of_crossings', rtol=slack)
                ctx.count('mean checked')
            text = dict(c='crest', t='trough')[name[1]]
            ctx.ok(text and name in f.labels.title, 'period:title', f.labels.title)
            ctx.equal('length' in f.labels.xlab, form == 'k', 'period:xlab')
            wrong = dict(w='Lc', f='Lt', k='Tc')[form]
            ctx.raises(ValueError, lambda: S.to_t_pdf(u=u, kind=wrong, paramt=(0, tn, nt)), 'period:wrong_kind')


@family(shards=4, limit=800)
def simulated(ctx):
    rng = ctx.rng
    for k in ctx.loop(5):
        w, s, kind, m, un, T, mean, tn, nt = period_case(rng, -0.3, 2)
        down = rng.rand() < .5
        with ctx.case(kind=kind, n=len(w), un=un, down=down, tn=tn, nt=nt, w_end=w[-1]):
            f = quiet(as_spec(w, s, 'w').to_t_pdf, u=un * np.sqrt(m[0]) * (-1 if down else 1), kind='Tt' if down else 'Tc',
                      paramt=(0, tn, nt), speed=4, seed=7)
            h = 2 * np.pi / w[-1] / 12
            n = int(2 ** np.ceil(np.log2(min(12000 * T / h / max(norm.sf(max(un, 0)), .05) * .5, 4e6))))
            x = simulate(rng, w, s, h, n)
            ctx.close(np.var(x), m[0], 'harness:variance', rtol=0.1)
            tc = durations(x, h, un * np.sqrt(m[0]))
            ctx.count('excursions', len(tc))
            ctx.ok(len(tc) > 800, 'harness:excursions', lambda: len(tc))
            cdf = np.concatenate([[0], np.cumsum((f.data[1:] + f.data[:-1]) / 2 * np.diff(f.args))])
            emp = np.searchsorted(np.sort(tc), f.args) / len(tc)
            e = np.trapz(f.err, f.args)
            worst = np.max(np.abs(cdf - emp))
            ctx.ok(worst < 0.03 + e + 2 / np.sqrt(len(tc)) + (0.05 if un < .2 else 0), 'period:simulated',
                   lambda: 'largest distance %.4f after %d excursions' % (worst, len(tc)))


@family(shards=4, limit=800)
def laws(ctx):
    rng = ctx.rng
    for k in ctx.loop(7):
        w, s, kind, m, un, T, mean, tn, nt = period_case(rng, -0.5, 2.5)
        seed = int(rng.randint(1, 99))
        opt = dict(speed=4, seed=seed)
        sg = np.sqrt(m[0])
        with ctx.case(kind=kind, n=len(w), un=un, tn=tn, nt=nt, seed=seed, w_end=w[-1], m0=m[0]):
            S = as_spec(w, s, 'w')

            def tpdf(S, u, kind='Tc', par=None, **kw):
                o = dict(opt)
                o.update(kw)
                return quiet(S.to_t_pdf, u=u, kind=kind, paramt=par or (0, tn, nt), **o)

            def same(a, b, key, scale=1.0):
                tol = (a.err * 2 + b.err * scale * 2) + 0.02 * a.data.max() + 5e-4 / mean
                bad = np.abs(a.data - b.data * scale) - tol
                ctx.ok(bad <= 0, key, lambda: 'differs by %.3g (largest value %.3g) at t = %.3g'
                       % (np.max(bad + tol), a.data.max(), a.args[np.argmax(bad)]))
                ctx.ok(np.abs(np.trapz(a.data - b.data * scale, a.args)) <= 0.02 + 0.5 * np.trapz(a.err + scale * b.err, a.args), key + '_mass')

            f = tpdf(S, un * sg)
            same(f, tpdf(S, -un * sg, 'Tt'), 'period:troughs_mirror_crests')
            c = rng.uniform(.2, 5)
            same(f, tpdf(as_spec(w, s * c ** 2, 'w'), un * sg * c), 'period:amplitude_scaling')
            g = tpdf(as_spec(w / c, s * c, 'w'), un * sg, par=(0, tn * c, nt))
            ctx.close(g.args, f.args * c, 'period:time_scaling_args', 1e-9, 1e-9)
            same(f, g, 'period:time_scaling', c)
            same(f, tpdf(as_spec(w, s, 'f'), un * sg), 'period:hertz')
            same(f, tpdf(as_spec(w, s, 'k'), un * sg, 'Lc'), 'period:lengths')
            if rng.rand() < .5:                                    # part of the range
                j = rng.randint(1, nt - 1)
                p = tpdf(S, un * sg, par=(f.args[j], tn, nt))
                ctx.ok(p.data[:j] == 0, 'period:starts_late')
                p.data[:j], p.err[:j] = f.data[:j], f.err[:j]
                same(f, p, 'period:part_of_range')
            else:                                                  # only one period
                p = tpdf(S, un * sg, par=(tn, tn, nt))
                ctx.ok(p.data[:-1] == 0, 'period:single')
                p.data[:-1], p.err[:-1] = f.data[:-1], f.err[:-1]
                same(f, p, 'period:single_value')
            if not un:
                same(f, tpdf(S, None), 'period:default_level')
            # a transformed process crosses g.gauss2dat(u) when the Gaussian one crosses u
            St = S.copy()
            how = rng.choice(['linear', 'hermite', 'ochi'])
            mu = rng.uniform(-2, 2)
            St.tr = dict(linear=lambda: tm.TrLinear(mean=mu, var=m[0] * 4), hermite=lambda: tm.TrHermite(mean=mu, var=m[0], skew=.2, kurt=3.1),
                         ochi=lambda: tm.TrOchi(mean=mu, var=m[0], skew=.2, kurt=3.1))[how]()
            level = np.ravel(St.tr.gauss2dat(un))[0]
            back = np.ravel(St.tr.dat2gauss(level))[0]
            if abs(back - un) < 1e-6:
                same(f, tpdf(St, level), 'period:transformed_' + how)
                ctx.count('transformed')
            q = rng.choice(['Tc', 'Tt'])
            if abs(un) < 1.3:
                d = quiet(S.to_t_pdf, u=un * sg, kind=q, speed=7, seed=seed)
                em = T * np.exp(un ** 2 / 2) * norm.sf(un if q == 'Tc' else -un)
                ctx.equal(len(d.data), 51, 'period:default_length')
                # T is not the factor of the source but the documented expectation: the default range is twice the mean, rounded up
                ctx.ok(d.args[-1] >= 1.5 * em, 'period:default_range', lambda: '%g for a mean of %g' % (d.args[-1], em))
                ctx.ok(np.trapz(d.data, d.args) < 1.2, 'period:default_mass')


def rice(u, m0, m2, m4):
    """Density of the height of a local maximum."""
    a = m2 / np.sqrt(m0 * m4)
    e, x = np.sqrt(1 - a ** 2), u / np.sqrt(m0)
    return (e * norm.pdf(x / e) + a * x * np.exp(-x * x / 2) * norm.cdf(a * x / e)) / np.sqrt(m0)


@family(shards=4, limit=800)
def heights(ctx):
    rng = ctx.rng
    for k in ctx.loop(12):
        w, s, kind = values(rng)
        m0, m2, m4 = moments(w, s)
        sg, Td = np.sqrt(m0), np.pi * np.sqrt(m2 / m4)
        a = m2 / np.sqrt(m0 * m4)
        N, nt, tn = int(rng.choice([21, 31, 41])), int(rng.choice([31, 43])), Td * rng.uniform(3.5, 5)
        tn = min(tn, .9 * np.pi / w[1])
        nit, isq = int(rng.choice([1, 2, 3])), int(rng.choice([0, 1]))
        half = rng.uniform(4.2, 5.5) * sg
        scale = rng.uniform(.1, 10)
        with ctx.case(kind=kind, n=len(w), N=N, nt=nt, tn=tn, nit=nit, isq=isq, half=half, scale=scale, w_end=w[-1], m0=m0):
            S = as_spec(w, s, rng.choice(['w', 'f']))
            keep = S.data.copy(), S.args.copy()
            p = quiet(S.to_mm_pdf, paramt=[0, tn, nt], paramu=[-half, half, N], nit=nit, ISQ=isq)
            ctx.ok(np.array_equal(S.data, keep[0]) and np.array_equal(S.args, keep[1]), 'heights:spectrum_unchanged')
            h, q = np.linspace(-half, half, N), p.data
            dh = h[1] - h[0]
            ctx.equal(len(p.args), 2, 'heights:args')
            ctx.close(p.args[0], h, 'heights:max_grid', 1e-9, 1e-9 * sg)
            ctx.close(p.args[1], h, 'heights:min_grid', 1e-9, 1e-9 * sg)
            ctx.equal(q.shape, (N, N), 'heights:shape')
            ctx.ok(np.isfinite(q) & (q >= 0), 'heights:non_negative', lambda: q.min())
            ctx.ok(q[np.tril_indices(N, -1)[0], np.tril_indices(N, -1)[1]] == 0, 'heights:maximum_above_minimum')
            slack = 0.05 if nit > 1 else 0.3                       # one integral only bounds the density from above
            total = q.sum()
            ctx.ok(total <= 1 + slack, 'heights:mass', lambda: 'sum %.4f' % total)
            ctx.ok(total >= 0.8, 'heights:most_mass', lambda: 'sum %.4f' % total)
            ctx.ok(np.abs(q - q.T[::-1, ::-1]).sum() < (0.2 if nit < 2 else 0.08), 'heights:mirror', lambda: np.abs(q - q.T[::-1, ::-1]).sum())
            # tails of maxima and minima: Rice
            lev = np.arange(int(N * .5) + 1, N - 1)
            hh = np.linspace(-9 * sg, 9 * sg, 20001)
            F = np.cumsum(rice(hh, m0, m2, m4)) * (hh[1] - hh[0])
            for name, marg in (('maxima', q.sum(0)), ('minima', q.sum(1)[::-1])):
                got = np.array([marg[j:].sum() for j in lev])
                want = 1 - np.interp(h[lev] - dh / 2, hh, F)
                ctx.ok(got <= want * (1 + slack) + slack + 0.1, 'heights:%s_rice' % name, lambda: 'P = %s, at most %s' % (got.round(3), want.round(3)))
                ctx.ok(got >= want * .9 - .12, 'heights:%s_rice_low' % name, lambda: 'P = %s, Rice %s' % (got.round(3), want.round(3)))
            # units
            p2 = quiet(as_spec(w, s * scale ** 2, 'w').to_mm_pdf, paramt=[0, tn, nt], paramu=[-half * scale, half * scale, N], nit=nit, ISQ=isq)
            ctx.ok(np.abs(p2.data - q).sum() < (0.06 if nit > 1 else 0.15), 'heights:amplitude_scaling', lambda: np.abs(p2.data - q).sum())
            ctx.close(p2.args[0], h * scale, 'heights:amplitude_grid', 1e-9, 1e-9)
            p3 = quiet(as_spec(w / scale, s * scale, 'w').to_mm_pdf, paramt=[0, tn * scale, nt], paramu=[-half, half, N], nit=nit, ISQ=isq)
            ctx.ok(np.abs(p3.data - q).sum() < (0.06 if nit > 1 else 0.15), 'heights:time_scaling', lambda: np.abs(p3.data - q).sum())
            p4 = quiet(S.to_mm_pdf, paramt=[0, tn, nt], paramu=[-half, half, N], nit=nit, ISQ=isq)
            ctx.equal(p4.data, q, 'heights:repeatable')
            if hasattr(p, 'cl'):
                ctx.equal(len(p.cl), len(p.pl), 'heights:levels')
                c = np.ravel(p.cl)[np.asarray(p.pl) > 120 * q.max() / q.sum()]       # several cells are enclosed
                ctx.ok(np.diff(c) <= 1e-12, 'heights:levels_decrease')


@family(shards=2, limit=800)
def heights_simulated(ctx):
    rng = ctx.rng
    for k in ctx.loop(6):
        w, s, kind = values(rng, rng.choice(['flat', 'bimodal', 'jonswap']))
        m0, m2, m4 = moments(w, s)
        sg, Td = np.sqrt(m0), np.pi * np.sqrt(m2 / m4)
        N, half = 41, 5 * sg
        tn = min(Td * 4.5, .9 * np.pi / w[1])
        with ctx.case(kind=kind, n=len(w), m0=m0, tn=tn, w_end=w[-1]):
            p = quiet(as_spec(w, s, 'w').to_mm_pdf, paramt=[0, tn, 43], paramu=[-half, half, N], nit=3)
            x = simulate(rng, w, s, 2 * np.pi / w[-1] / 24, 2 ** 19)
            d = np.diff(x)
            i = np.flatnonzero((d[:-1] > 0) != (d[1:] > 0)) + 1
            if d[i[0] - 1] < 0:
                i = i[1:]
            i = i[:len(i) // 2 * 2]
            M, mi = x[i[0::2]], x[i[1::2]]
            ctx.count('cycles', len(M))
            h = p.args[0]
            mx, mn = np.meshgrid(h, h)
            # counts of cycles from above v to below -v, and of cycles above a height
            for v in (0.625, 1.125, 1.625):
                g, e = p.data[(mx > v * sg) & (mn < -v * sg)].sum(), np.mean((M > v * sg) & (mi < -v * sg))
                ctx.close(g, e, 'heights:crossing_cycles', rtol=0, atol=0.05, msg=(kind, v))
            for v in (1.625, 2.625, 3.625):
                g, e = p.data[(mx - mn) > v * sg].sum(), np.mean(M - mi > v * sg)
                ctx.close(g, e, 'heights:ranges', rtol=0, atol=0.06)


@family(shards=1)
def joint(ctx):
    """to_mmt_pdf."""
    for kind in ('mm', 'rfc', 'AcAt', 'vmm', 'mmtmm'):
        with ctx.case(kind=kind, _key='mmt'):
            S = sm.Jonswap(Hm0=7, Tp=11).tospecdata(np.linspace(0, 3, 65))
            try:
                f = quiet(S.to_mmt_pdf, kind=kind, paramt=[0, 12, 9], paramu=[-6, 6, 5])
            except (TypeError, KeyError, AttributeError, IndexError) as e:
                ctx.ok(False, 'mmt:raises', lambda: repr(e))
                continue
            ctx.ok(np.asarray(f.data) >= 0, 'mmt:non_negative')
