import numpy as np
import wafo.misc as wm
from wafo.interpolate import stineman_interp
from wafo.objects import TimeSeries
from vlib import gen, ref
from vlib.harness import family

RULE = ('seeded sampled signals (noise, sines, steps, walks, spikes, ties with the level, 2-D columns) at random sampling steps; '
        'non-trivial: the signal has at least one complete wave')
ASSUMPTIONS = ['crossing reference of vlib/ref.py', 'interpolated series taken from the package interpolation (see C17)']


def tc_reference(x, v, kind):
    cr = ref.crossings(x, v)
    idx = ref.select(cr, kind)
    if len(idx) <= 2:
        return None
    d = dict(cr)
    ext = []
    for a, b in zip(idx[:-1], idx[1:]):
        seg = x[a + 1:b + 1]
        ext.append((a + 1, b, seg.max() if d[a] > 0 else seg.min(), d[a]))
    return idx, ext


@family(shards=2)
def troughs_crests(ctx):
    for _ in ctx.loop(500):
        x = gen.signal(ctx.rng)
        v = ctx.rng.choice([None, 0.0, x[ctx.rng.randint(x.size)], 0.25])
        with ctx.case(x=x, v=v):
            vv = x.mean() if v is None else v
            for kind in (None, 'dw', 'uw', 'tw', 'cw'):
                r = tc_reference(x, vv, kind)
                arr = gen.variants(ctx.rng, x)
                tc, vi = wm.findtc(arr, v, kind)
                key = 'findtc:%s' % kind
                if r is None:
                    ctx.ok(len(tc) == 0 and len(vi) == 0, key + ':none')
                    continue
                idx, ext = r
                ctx.equal(np.asarray(vi), np.asarray(idx), key + ':crossings')
                if not ctx.ok(len(tc) == len(ext), key + ':number', lambda: (len(tc), len(ext))):
                    continue
                for i, (lo, hi, val, d) in zip(tc, ext):
                    ctx.ok(lo <= i <= hi and x[i] == val, key + ':extreme', lambda: (i, lo, hi, val, x[i]))
                    ctx.ok(x[i] > vv if d > 0 else x[i] < vv, key + ':side')
                ctx.count('waves', len(ext) // 2)
                ts = TimeSeries(x, np.arange(x.size) * 0.125 - 3)
                o = ts.trough_crest(v, kind)
                ctx.equal(o.data, np.array([e[2] for e in ext]), key + ':series')
                ctx.equal(np.asarray(o.args), np.asarray(tc) * 0.125 - 3, key + ':series_time')


def waves(x, t):
    """Wave by wave parameters of trough waves (down-crossing to down-crossing) about the level 0."""
    r = tc_reference(x, 0.0, 'tw')
    if r is None:
        return None
    idx, ext = r
    tz = np.array([t[i] + (0 - x[i]) * (t[i + 1] - t[i]) / (x[i + 1] - x[i]) for i in idx])
    W = dict(Ac=[], At=[], Hu=[], Hd=[], Tu=[], Td=[])
    n = len(ext)                        # trough, crest, trough, ..., trough
    for k in range(0, n, 2):
        W['At'].append(-ext[k][2])
    for k in range(1, n, 2):
        W['Ac'].append(ext[k][2])
        W['Hd'].append(ext[k][2] - ext[k - 1][2])
        W['Hu'].append(ext[k][2] - ext[k + 1][2])
        W['Td'].append(tz[k + 1] - tz[k - 1])
        W['Tu'].append(tz[k + 2] - tz[k])
    W = {k: np.array(v) for k, v in W.items()}
    # time of a crest: any sample that attains it
    W['crest'] = [np.array([t[i] for i in range(ext[k][0], ext[k][1] + 1) if x[i] == ext[k][2]]) for k in range(1, n, 2)]
    W['up'] = tz[1:-1:2]
    W['down'] = tz[2::2]
    return W


def wavy(ctx):
    n = int(ctx.rng.choice([12, 30, 100, 400]))
    kind = ctx.rng.choice(['noise', 'sine', 'walk', 'few', 'spikes', 'steps'])
    x = gen.signal(ctx.rng, kind=kind, n=n)
    return x - (np.round(x.mean() * 64) / 64 if ctx.rng.rand() < 0.5 else 0)


@family(shards=2)
def parameters(ctx):
    for _ in ctx.loop(250):
        x = wavy(ctx)
        dt = float(ctx.rng.choice([0.25, 1.0, 0.5, 2.0]))
        t = np.arange(x.size) * dt + float(ctx.rng.choice([0., -7., 1024.]))
        rate = int(ctx.rng.choice([1, 1, 1, 2, 5]))
        col = bool(ctx.rng.randint(2))
        ts = TimeSeries(x.reshape(-1, 1) if col else x, t)
        xi, ti = x, t
        if rate > 1:
            ti = np.linspace(t[0], t[-1], int(np.ceil(x.size * rate)))
            xi = stineman_interp(ti, t, x)
        W = waves(xi, ti)
        if W is None or len(W['Ac']) == 0:
            continue
        with ctx.case(x=x, dt=dt, rate=rate, t0=t[0]):
            ctx.close(ts.sampling_period(), dt, 'sampling_period', rtol=1e-12)
            p = ts.wave_parameters(rate)
            for k in ('Ac', 'At', 'Hu', 'Hd', 'Tu', 'Td'):
                ctx.close(p[k], W[k], 'parameters:' + k, rtol=1e-9, atol=1e-9)
            ctx.ok(p['Ac'] > 0, 'parameters:crest_sign')
            ctx.ok(p['At'] > 0, 'parameters:trough_sign')
            ctx.ok(p['Tcf'] > 0, 'parameters:Tcf_sign')
            ctx.ok(p['Tcb'] > 0, 'parameters:Tcb_sign')
            if ctx.ok(len(p['Tcf']) == len(p['Tcb']) == len(W['Ac']), 'parameters:number'):
                for j, c in enumerate(W['crest']):
                    ctx.ok(np.min(np.abs(p['Tcf'][j] - (c - W['up'][j]))) < 1e-8, 'parameters:Tcf',
                           lambda: (p['Tcf'][j], c, W['up'][j]))
                    ctx.ok(np.min(np.abs(p['Tcb'][j] - (W['down'][j] - c))) < 1e-8, 'parameters:Tcb')
                ctx.close(p['Tcf'] + p['Tcb'], W['down'] - W['up'], 'parameters:crest_period', rtol=1e-9, atol=1e-9)
            g = float(ctx.rng.choice([9.81, 1.0]))
            Ac, Hd, Hu, Td, Tu = (W[k] for k in ('Ac', 'Hd', 'Hu', 'Td', 'Tu'))
            Tcf, Tcb = p['Tcf'], p['Tcb']
            T = np.minimum(Tcf, Tcb)
            want = {0: (Ac / T, np.where(Tcf < Tcb, Hd, Hu)), 1: (Ac / Tcf, Hd), -1: (Ac / Tcb, Hu),
                    2: (2 * np.pi * Ac / Td / Tcf / g, Hd), -2: (2 * np.pi * Ac / Tu / Tcb / g, Hu),
                    3: (2 * np.pi * Hd / Td ** 2 / g, Hd), -3: (2 * np.pi * Hu / Tu ** 2 / g, Hu)}
            names = {0: 'maxVcfVcb', 1: 'Vcf', -1: 'Vcb', 2: 'Scf', -2: 'Scb', 3: 'StHd', -3: 'StHu'}
            for k, (S, H) in want.items():
                s1, h1 = ts.wave_height_steepness(kind=k, rate=rate, g=g)
                ctx.close(s1, S, 'steepness:%d' % k, rtol=1e-8)
                tie = np.abs(Tcf - Tcb) < 1e-9
                if k == 0:
                    h1, H = h1[~tie], H[~tie]
                ctx.close(h1, H, 'height:%d' % k, rtol=1e-9, atol=1e-12)
                s2, h2 = ts.wave_height_steepness(kind=names[k], rate=rate, g=g)
                ctx.close(s2, s1, 'steepness:name%d' % k, rtol=1e-12)
            gd = ts.wave_height_steepness(kind=3, rate=rate)[0]
            ctx.close(gd, want[3][0] * g / wm.gravity(), 'steepness:default_g', rtol=1e-8)
            ctx.count('waves', len(Ac))
            if rate == 1:
                # shift of time, scale of the signal, scale of time
                q = TimeSeries(4 * x, 2 * t + 64).wave_parameters()
                for k in ('Ac', 'At', 'Hu', 'Hd'):
                    ctx.close(q[k], 4 * p[k], 'equivariance:' + k, rtol=1e-9, atol=1e-9)
                for k in ('Tu', 'Td', 'Tcf', 'Tcb'):
                    ctx.close(q[k], 2 * p[k], 'equivariance:' + k, rtol=1e-8, atol=1e-8)
            ctx.equal(ts.data.ravel(), x, 'parameters:pure')


@family(shards=2)
def periods(ctx):
    """Crossing periods and, as known findings, the period definitions pinned to wrong values by the test suite."""
    for _ in ctx.loop(200):
        x = wavy(ctx)
        t = np.arange(x.size) * 0.5
        v = float(ctx.rng.choice([0., 0.25, np.round(x.mean() * 64) / 64]))
        cr = ref.crossings(x, v)
        if len(cr) < 6 or np.any(x == v):
            continue
        with ctx.case(x=x, v=v):
            ts = TimeSeries(x, t)
            tz = np.array([t[i] + (v - x[i]) * (t[i + 1] - t[i]) / (x[i + 1] - x[i]) for i, _ in cr])
            ds = np.array([d for _, d in cr])
            for pdef in ('d2d', 'u2u', 'd2u', 'u2d'):
                a, b = pdef[0], pdef[2]
                dist = 2 if a == b else 1
                s = 1 if a == 'u' else -1

                def per(first):
                    k = np.arange(first, len(tz) - dist, 2)
                    return tz[k + dist] - tz[k]
                want = per(0 if ds[0] == s else 1)
                T, ix = ts.wave_periods(v, pdef)
                ctx.equal(np.asarray(ix), np.array([i for i, _ in cr]), 'periods:index')
                wrong = per(1 if ds[0] == s else 2)
                same = len(T) == len(want) and np.allclose(T, want, atol=1e-8)
                if not same and ds[0] < 0 and len(T) == len(wrong) and np.allclose(T, wrong, atol=1e-8):
                    ctx.ok(False, 'periods:starts_one_late', 'first crossing is a down-crossing, %s' % pdef)
                    continue
                ctx.close(T, want, 'periods:' + pdef, rtol=1e-8, atol=1e-8)
                ctx.ok(T > 0, 'periods:positive')
            for pdef in ('c2c', 't2t', 'm2m', 'M2M', 't2c', 'c2t', 'm2M', 'M2m'):
                T, ix = ts.wave_periods(v if pdef[0] in 'ct' else 0.0, pdef)
                ix = np.asarray(ix)
                dist = 2 if pdef[0] == pdef[2] else 1
                cand_t, cand_x = [], []
                for st in range(0, 4):
                    k = np.arange(st, len(ix) - dist, 2)
                    cand_t.append(t[ix[k + dist]] - t[ix[k]])
                    cand_x.append(x[ix[k + dist]] - x[ix[k]])
                if any(len(c) == len(T) and np.allclose(c, T) for c in cand_t):
                    continue
                if any(len(c) == len(T) and np.allclose(c, T) for c in cand_x):
                    ctx.ok(False, 'periods:difference_of_elevations', pdef)
                else:
                    ctx.ok(False, 'periods:extremes:' + pdef, lambda: 'T=%r' % T[:20])


@family()
def real_sea(ctx):
    import wafo.data
    sea = wafo.data.sea()
    for i in ctx.loop(12):
        a = int(ctx.rng.randint(0, 7000))
        k = int(ctx.rng.randint(500, 2000))
        x, t = sea[a:a + k, 1], sea[a:a + k, 0]
        with ctx.case(start=a, length=k, data='sea'):
            W = waves(x, t)
            p = TimeSeries(x, t).wave_parameters()
            for q in ('Ac', 'At', 'Hu', 'Hd', 'Tu', 'Td'):
                ctx.close(p[q], W[q], 'sea:' + q, rtol=1e-6, atol=1e-6)
            ctx.count('waves', len(W['Ac']))
