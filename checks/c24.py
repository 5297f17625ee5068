"""C24: numerical utilities against element-wise definitions, mpmath and linear algebra."""
import math
import re
import warnings

import mpmath as mp
import numpy as np

import wafo.containers as wc
import wafo.misc as wm
from wafo.plotbackend import plotbackend as plt
from vlib.harness import family

RULE = ("every helper is compared with its definition written out element by element in Python (masks, grids, indices, moving windows, histograms), with mpmath "
        "(Stirling error, log beta, log binomial), with products of elementary rotations, and with exact integrals of piecewise linear data; conversions are inverted")
ASSUMPTIONS = ["numpy, mpmath and matplotlib are right", "findoutliers: a jump of Dx or D2x marks the point after an upward and the point before a downward one, as its comments say",
               "discretize: the error bound is required of smooth functions whose refinement ended by the tolerance"]


def shape_of(rng, nmax=3, smax=5):
    return tuple(int(k) for k in rng.randint(1, smax, size=rng.randint(0, nmax + 1)))


@family()
def geometry(ctx):
    rng = ctx.rng
    for _ in ctx.loop(60):
        shape = shape_of(rng)
        t, r = rng.uniform(-np.pi, np.pi, shape), rng.gamma(1, 2, shape)
        h, p, ro = [float(rng.choice([0, 90, -90, 180, 30, rng.uniform(-400, 400)])) for _k in range(3)]
        with ctx.case(shape=shape, heading=h, pitch=p, roll=ro):
            x, y = wm.polar2cart(t, r)
            ctx.close(x, r * np.cos(t), 'polar:x', 1e-14)
            ctx.close(y, r * np.sin(t), 'polar:y', 1e-14)
            t1, r1 = wm.cart2polar(x, y)
            ctx.close(r1, r, 'polar:radius', 1e-13)
            ctx.close(np.exp(1j * t1).real, np.cos(t), 'polar:angle', 0, 1e-12)
            ctx.close(np.exp(1j * t1).imag, np.sin(t), 'polar:angle', 0, 1e-12)
            ctx.ok((np.abs(t1) <= np.pi), 'polar:range', t1)
            z = rng.normal(size=shape)
            ctx.equal(wm.cart2polar(x, y, z)[2], z, 'polar:third')
            ctx.equal(wm.polar2cart(t, r, z)[2], z, 'polar:third')
            ctx.ok(wm.pol2cart is wm.polar2cart or np.all(wm.pol2cart(t, r)[0] == x), 'polar:alias')
            ctx.close(wm.cart2pol(x, y)[1], r, 'polar:alias', 1e-13)

            def cs(a):
                return math.cos(math.radians(a)), math.sin(math.radians(a))
            (ch, sh), (cp, sp), (cr, sr) = cs(h), cs(p), cs(ro)
            rz = np.array([[ch, -sh, 0], [sh, ch, 0], [0, 0, 1]])
            ry = np.array([[cp, 0, sp], [0, 1, 0], [-sp, 0, cp]])
            rx = np.array([[1, 0, 0], [0, cr, -sr], [0, sr, cr]])
            want = rz.dot(ry).dot(rx)
            got = wm.rotation_matrix(h, p, ro)
            ctx.close(got, want, 'rotation:matrix', 0, 1e-13)
            ctx.close(got.dot(got.T), np.eye(3), 'rotation:orthogonal', 0, 1e-13)
            out = wm.rotate(x, y, z, h, p, ro)
            for k in range(3):
                ctx.close(out[k], want[k, 0] * x + want[k, 1] * y + want[k, 2] * z, 'rotation:rotate', 0, 1e-12 * (1 + np.max(r) + np.max(np.abs(z))))
            x2, y2 = wm.rotate_2d(x, y, h)
            ctx.close(x2, ch * x - sh * y, 'rotation:plane', 0, 1e-12 * (1 + np.max(r)))
            ctx.close(y2, sh * x + ch * y, 'rotation:plane', 0, 1e-12 * (1 + np.max(r)))
            num = int(rng.randint(1, 8))
            d = int(rng.randint(1, 5))
            a, b = rng.normal(size=d) * 10, rng.normal(size=d) * 10
            if rng.rand() < 0.4:
                a, b = rng.randint(-9, 9, d), rng.randint(-9, 9, d)
            if rng.rand() < 0.4:
                a, b = a.tolist(), b.tolist()
            line = wm.spaceline(a, b, num)
            aa, bb = np.asarray(a, float), np.asarray(b, float)
            if num > 1:
                want = np.array([aa + (bb - aa) * k / (num - 1.) for k in range(num)])
            else:
                want = np.array([(aa + bb) / 2])
            ctx.close(line, want, 'spaceline', 0, 1e-13 * 40)
            lat = rng.uniform(-90, 90, shape)
            ctx.close(wm.gravity(lat), [9.78049 * (1 + 0.0052884 * math.sin(math.radians(v)) ** 2 - 0.0000059 * math.sin(2 * math.radians(v)) ** 2) for v in lat.ravel()]
                      if lat.ndim == 1 else 9.78049 * (1 + 0.0052884 * np.sin(lat * np.pi / 180) ** 2 - 0.0000059 * np.sin(lat * np.pi / 90) ** 2), 'gravity', 1e-13)
            ctx.ok((wm.gravity(lat) > 9.78) & (wm.gravity(lat) < 9.8325), 'gravity:range')


@family()
def indices(ctx):
    rng = ctx.rng
    for _ in ctx.loop(60):
        shape = tuple(int(k) for k in rng.randint(1, 6, size=rng.randint(1, 5)))
        size = int(np.prod(shape))
        order = str(rng.choice(['C', 'F']))
        ix = rng.randint(0, size, size=shape_of(rng, 2))
        with ctx.case(shape=shape, order=order, n=np.size(ix)):
            sub = wm.index2sub(shape, ix, order=order)
            ref = np.arange(size).reshape(shape, order=order)
            ctx.equal(ref[sub], ix, 'index2sub', str(order))
            ctx.equal(wm.sub2index(shape, *sub, order=order), ix, 'sub2index')
            if order == 'C':
                ctx.equal(np.array(wm.index2sub(shape, ix)), np.array(sub), 'index2sub:default')
            vecs = [rng.normal(size=k) for k in shape]
            grids = wm.ndgrid(*vecs)
            ctx.ok(len(grids) == len(vecs), 'ndgrid:number')
            for k, (g, v) in enumerate(zip(grids, vecs)):
                s = [1] * len(shape)
                s[k] = -1
                ctx.equal(g, np.ones(shape) * v.reshape(s), 'ndgrid:values')
            arrays = [rng.normal(size=[int(k) if rng.rand() < 0.6 else 1 for k in shape]) for _k in range(int(rng.randint(1, 4)))]
            arrays.append(2.5)
            ctx.equal(wm.common_shape(*arrays), tuple(np.max([a.shape for a in arrays[:-1]], axis=0)), 'common_shape')
            ctx.equal(wm.common_shape(*arrays, shape=shape), shape, 'common_shape:given')
            big = list(shape)
            big[0] += 2
            ctx.raises(ValueError, lambda: wm.common_shape(np.ones([s + 1 for s in shape]), shape=[s + 3 for s in shape]), 'common_shape:raises')
            pos, cs = wm.args_flat(vecs[0].reshape(-1, 1), 3.0, vecs[-1])
            want = [(a, 3.0, b) for a in vecs[0] for b in vecs[-1]]
            ctx.equal(pos, want, 'args_flat:points')
            ctx.equal(cs, (len(vecs[0]), len(vecs[-1])), 'args_flat:shape')
            pts = rng.normal(size=(int(rng.randint(1, 6)), 3))
            ctx.equal(wm.args_flat(pts)[0], pts, 'args_flat:one')
            ctx.ok(wm.args_flat(pts)[1] is None, 'args_flat:none')
            ctx.raises(ValueError, lambda: wm.args_flat(pts[:, :2]), 'args_flat:raises')
            v = rng.permutation(size) * 1.5
            n = int(rng.randint(0, size + 2))
            got = wm.narg_smallest(v if rng.rand() < 0.5 else list(v), n)
            ctx.equal(np.asarray(v)[got], np.sort(v)[:n], 'narg_smallest')
            hay = [int(k) for k in rng.randint(0, 3, size=rng.randint(0, 12))]
            hay = hay if rng.rand() < 0.5 else ''.join(map(str, hay))
            needle = '1' if isinstance(hay, str) else 1
            m = None if rng.rand() < 0.5 else int(rng.randint(0, 5))
            want = [k for k, e in enumerate(hay) if e == needle]
            ctx.equal(list(wm.lfind(hay, needle, m)), want if m is None else want[:m], 'lfind')
            keys = list('abcdef')
            opts = {k: int(rng.randint(9)) for k in keys if rng.rand() < 0.5}
            kw = {k: int(rng.randint(10, 20)) for k in keys if rng.rand() < 0.5}
            before = dict(kw)
            sel = wm.sub_dict_select(kw, list(opts))
            ctx.ok(sel == {k: kw[k] for k in kw if k in opts}, 'sub_dict_select', sel)
            want = {k: kw.get(k, v) for k, v in opts.items()}
            got = wm.parse_kwargs(dict(opts), **kw)
            ctx.ok(got == want and kw == before, 'parse_kwargs', got)
            val = rng.choice([0, 1.5, np.nan, -np.inf])
            ctx.equal(np.isnan(wm.valarray(shape, val)), np.isnan(np.full(shape, val)), 'valarray')
            ctx.ok(wm.valarray(shape, val).shape == shape and (np.isnan(val) or np.all(wm.valarray(shape, val) == val)), 'valarray')
            seed = int(rng.randint(1 << 30))
            ctx.equal(wm.check_random_state(seed).rand(3), np.random.RandomState(seed).rand(3), 'random_state:seed')
            rs = np.random.RandomState(seed)
            ctx.ok(wm.check_random_state(rs) is rs, 'random_state:same')
            ctx.ok(wm.check_random_state(None) is np.random.mtrand._rand, 'random_state:global')
            ctx.raises(ValueError, lambda: wm.check_random_state('a'), 'random_state:raises')
            x = float(rng.choice([2. ** rng.randint(-30, 60), rng.gamma(1, 1e3), rng.gamma(0.1), rng.randint(1, 1 << 40), np.nextafter(2. ** rng.randint(0, 30), np.inf)]))
            e = int(wm.nextpow2(x))
            ctx.ok(2. ** e >= x > 2. ** (e - 1), 'nextpow2', '%r -> %r' % (x, e))
            k = int(rng.randint(2, 5000))
            e = int(wm.nextpow2(np.zeros(k)))
            ctx.ok(2 ** e >= k > 2 ** (e - 1), 'nextpow2:length', '%r -> %r' % (k, e))
            b = wm.Bunch(**opts)
            ctx.ok(sorted(b.keys()) == sorted(opts) and all(getattr(b, k) == v for k, v in opts.items()), 'bunch')
            b.update(**kw)
            ctx.ok(all(getattr(b, k) == v for k, v in kw.items()), 'bunch:update')
            dd = wm.DotDict(opts)
            ctx.ok(all(getattr(dd, k) == v for k, v in opts.items()), 'dotdict')
            ctx.ok(wm.is_numlike(val) and wm.is_numlike(np.ones(2)) and not wm.is_numlike('1') and not wm.is_numlike([1]), 'is_numlike')


@family()
def special(ctx):
    rng = ctx.rng
    mp.mp.dps = 60

    def num(kind):
        if kind == 0:
            return int(rng.randint(1, 40))
        if kind == 1:
            return int(10 ** rng.uniform(0, 12))
        if kind == 2:
            return float(10 ** rng.uniform(-3, 6))
        if kind == 3:
            return float(rng.choice([0.5, 1, 2, 9.999999, 10, 10.0000001, 15, 15.5, 35, 35.1, 80, 80.25, 500, 500.5, 2. ** 32, 1e-10]))
        return float(rng.uniform(0.01, 100))

    def stirl(n):
        n = mp.mpf(n)
        return mp.loggamma(n + 1) - mp.log(mp.sqrt(2 * mp.pi * n)) - n * (mp.log(n) - 1)

    def lbeta(a, b):
        a, b = mp.mpf(a), mp.mpf(b)
        return mp.loggamma(a) + mp.loggamma(b) - mp.loggamma(a + b)

    for _ in ctx.loop(60):
        k = int(rng.randint(0, 5))
        n = [num(k) for _k in range(int(rng.randint(1, 5)))]
        a, b = [[num(int(rng.randint(0, 5))) for _k in n] for _j in range(2)]
        form = str(rng.choice(['list', 'array', 'scalar']))
        with ctx.case(n=n, a=a, b=b, form=form):
            arg = {'list': n, 'array': np.array(n), 'scalar': n[0]}[form]
            m = n[:1] if form == 'scalar' else n
            # below 15 the formula itself is evaluated in double precision
            ctx.close(wm.stirlerr(arg), [float(stirl(v)) for v in m], 'stirlerr', 1e-11, 3e-14)
            conv = {'list': list, 'array': np.array, 'scalar': lambda v: v[0]}[form]
            want = [float(lbeta(x, y)) for x, y in zip(a, b)]
            got = wm.betaloge(conv(a), conv(b))
            ctx.close(np.ravel(got), want[:1] if form == 'scalar' else want, 'betaloge', 1e-12, 1e-13)
            ctx.close(wm.betaloge(conv(b), conv(a)), got, 'betaloge:symmetric', 1e-12, 1e-13)
            ctx.close(wm.betaloge(np.array(a)[:, None], np.array(b)), [[float(lbeta(x, y)) for y in b] for x in a], 'betaloge:broadcast', 1e-12, 1e-13)
            z = [int(rng.choice([rng.randint(0, 60), 10 ** rng.uniform(1, 9)])) for _k in n]
            w = [int(rng.randint(0, v + 1)) for v in z]
            w = [min(v, int(rng.randint(0, 30))) if rng.rand() < 0.3 else u for u, v in zip(w, z)]
            w = [v - u if rng.rand() < 0.2 else u for u, v in zip(w, z)]
            w = [int(rng.choice([0, min(v, 1), min(v, 2), v, max(v - 1, 0)])) if rng.rand() < 0.4 else u for u, v in zip(w, z)]
            want = [float(mp.loggamma(v + 1) - mp.loggamma(u + 1) - mp.loggamma(v - u + 1)) for u, v in zip(w, z)]
            got = wm.binomln(conv(z), conv(w))
            ctx.close(np.ravel(got), want[:1] if form == 'scalar' else want, 'binomln', 1e-11, 1e-11, '%r over %r' % (z, w))
            z0 = z[0]
            ctx.close(wm.binomln(z0, np.array([0, z0])), [0., 0.], 'binomln:ends', 0, 1e-300)
            ctx.ok(wm.binomln(z0, z0 + 1) == -np.inf and np.all(wm.binomln(np.array([z0, z0]), z0 + 2) == -np.inf), 'binomln:beyond')


@family(shards=2)
def masks(ctx):
    rng = ctx.rng

    def f1(x, y):
        ctx.ok(np.all(np.isfinite(x / 1.)), 'masks:called_outside') if guard[0] else None
        return x * 1.5 + y

    def f2(x, y):
        return x - 2.25 * y

    def f3(x, y):
        return x * y - 0.5
    guard = [False]
    for _ in ctx.loop(80):
        shape = tuple(int(k) for k in rng.randint(1, 5, size=rng.randint(1, 4)))

        def part():
            return tuple(k if rng.rand() < 0.7 else 1 for k in shape)
        integers = rng.rand() < 0.4
        x = (rng.randint(-9, 9, shape) if integers else rng.normal(size=shape))
        y = (rng.randint(-9, 9, part()) if integers else rng.normal(size=part()))
        conds = [rng.rand(*shape) < q for q in rng.choice([0., 0.3, 0.6, 1.], size=3)]
        fill = rng.choice([np.nan, 0, -7.25])
        fill = int(fill) if fill == 0 else float(fill)
        with ctx.case(shape=shape, yshape=y.shape, integers=integers, fill=fill, true=[int(c.sum()) for c in conds]):
            yb = np.ones(shape) * y
            xb = np.ones(shape) * x
            c = conds[0]
            want = np.where(c, f1(xb, yb), fill)
            cc = c.tolist() if rng.rand() < 0.3 else c
            ctx.close(wm.lazywhere(cc, (x, y), f1, fill), want, 'lazywhere:fill', 1e-14)
            ctx.close(wm.lazywhere(cc, (x, y), f1, f2=f2), np.where(c, f1(xb, yb), f2(xb, yb)), 'lazywhere:two', 1e-14)
            row = rng.rand(shape[-1]) < 0.5
            ctx.close(wm.lazywhere(row, (x, y), f1, fill), np.where(row, f1(xb, yb), fill), 'lazywhere:broadcast', 1e-14)
            ctx.raises(ValueError, lambda: wm.lazywhere(c, (x, y), f1), 'lazywhere:raises')
            ctx.raises(ValueError, lambda: wm.lazywhere(c, (x, y), f1, fillvalue=0, f2=f2), 'lazywhere:raises')
            # the function only ever sees elements that satisfy the condition
            seen = []
            wm.lazywhere(c, (xb, yb), lambda u, v: (seen.append(np.copy(u)), u)[1], 0.)
            ctx.equal(np.concatenate(seen) if seen else np.zeros(0), xb[c], 'lazywhere:sees')
            default = float(rng.choice([0, 1.5, -3]))
            want = np.full(shape, default)
            for k in reversed(range(3)):
                want = np.where(conds[k], [f1, f2, f3][k](xb, yb), want)
            ctx.close(wm.lazyselect(conds, [f1, f2, f3], (x, y), default), want, 'lazyselect', 1e-14)
            ctx.close(np.select(conds, [f(xb, yb) for f in (f1, f2, f3)], default), want, 'lazyselect:oracle', 1e-14)
            # piecewise: float arguments, the last true condition wins, one extra function is used where none is true
            want = np.full(shape, -1.5)
            for k in range(3):
                want = np.where(conds[k], [f1, f2, f3][k](xb, yb), want)
            ctx.close(wm.piecewise(conds, [f1, f2, f3], (xb, yb), fillvalue=-1.5), want, 'piecewise:functions', 1e-14)
            want = np.where(~(conds[0] | conds[1]), f3(xb, yb), np.where(conds[1], f2(xb, yb), f1(xb, yb)))
            ctx.close(wm.piecewise(conds[:2], [f1, f2, f3], (xb, yb)), want, 'piecewise:otherwise', 1e-14)
            want = np.where(conds[1], -2.5, np.where(conds[0], 4.0, 0.))
            ctx.close(wm.piecewise(conds[:2], [4.0, -2.5]), want, 'piecewise:constants', 0)
            ctx.close(wm.piecewise(conds[:2], [4.0, -2.5], xb), want, 'piecewise:constants', 0)
            got = wm.piecewise(conds[:1], [lambda u, v, s, off=0: u * s + off, 9.], (xb, yb), args=(3.,), off=0.5)
            ctx.close(got, np.where(conds[0], xb * 3 + 0.5, 9.), 'piecewise:args', 1e-14)
            ctx.raises(ValueError, lambda: wm.piecewise(conds, [f1], (xb, yb)), 'piecewise:raises')
            s = float(rng.normal())
            cond = conds[1].tolist() if rng.rand() < 0.4 else conds[1] * 2.5 if rng.rand() < 0.5 else conds[1]
            got = wm.argsreduce(cond, x, y, s)
            m = conds[1].ravel()
            for g, full in zip(got, (xb, yb, np.full(shape, s))):
                ctx.equal(g, [full.ravel()[k] for k in range(full.size) if m[k]], 'argsreduce')
            ctx.ok(len(got) == 3, 'argsreduce:number')
            one = wm.argsreduce(cond, x)
            ctx.equal(one[0], xb.ravel()[m], 'argsreduce:one')


@family()
def moving(ctx):
    rng = ctx.rng
    for _ in ctx.loop(60):
        shape = tuple(int(k) for k in rng.randint(1, 4, size=rng.randint(0, 3)))
        n = int(rng.randint(1, 30))
        axis = int(rng.randint(0, len(shape) + 1))
        full = list(shape)
        full.insert(axis, n)
        L = int(rng.randint(1, 8))
        x = rng.randint(-20, 20, full) if rng.rand() < 0.4 else rng.normal(size=full) + 5
        neg = rng.rand() < 0.5
        with ctx.case(shape=full, axis=axis, L=L, dtype=str(x.dtype), negative=neg):
            xm = np.moveaxis(x, axis, 0).astype(float)
            if n < 2 * L + 1:
                want = np.broadcast_to(xm.mean(axis=0), xm.shape)
                alt = want
            else:
                want = np.array([xm[min(max(i, L), n - 1 - L) - L:min(max(i, L), n - 1 - L) + L + 1].mean(axis=0) for i in range(n)])
                alt = [xm[:2 * L + 1].mean(axis=0)]
                for i in range(L + 1, n - L):
                    alt.append(alt[-1] + (xm[i + L] - xm[i - L]) / (2. * L))
                alt = np.array([alt[0]] * L + alt + [alt[-1]] * L)
            ax = axis - len(full) if neg else axis
            arg = x.tolist() if rng.rand() < 0.3 else x
            got = wm.moving_average(arg, L, ax)
            ctx.equal(np.shape(got), tuple(full), 'moving:shape')
            gm = np.moveaxis(got, axis, 0)
            tol = 1e-11 * (1 + np.abs(xm).max())
            if not np.allclose(gm, want, rtol=0, atol=tol):
                if np.allclose(gm, alt, rtol=0, atol=tol):
                    ctx.ok(False, 'moving:window', 'n=%d L=%d: got %r, mean over the window %r' % (n, L, gm.ravel()[:8], np.ravel(want)[:8]))
                else:
                    ctx.close(gm, want, 'moving:value', 0, tol)
            # what holds at the ends and for straight lines in either reading
            ctx.close(gm[0], xm[:2 * L + 1].mean(axis=0), 'moving:first', 0, tol)
            ctx.ok(np.all(gm[:L + 1] == gm[0]) and np.all(gm[-L - 1:] == gm[-1]) if n >= 2 * L + 1 else np.all(gm == gm[0]), 'moving:ends', gm)
            ctx.close(wm.detrendma(arg, L, ax), x - np.asarray(got), 'detrend', 0, tol)
            if n >= 2 * L + 1:
                line = 3. + 0.5 * np.arange(n)
                ctx.close(wm.moving_average(line, L)[L:n - L], line[L:n - L], 'moving:line', 0, 1e-11 * n)
            ctx.raises(ValueError, lambda: wm.moving_average(x, 0), 'moving:raises')
            ctx.raises(ValueError, lambda: wm.moving_average(x, 1.5), 'moving:raises')


@family()
def outliers(ctx):
    rng = ctx.rng
    for _ in ctx.loop(120):
        n = int(rng.randint(3, 30))
        k = int(rng.randint(0, 4))
        x = [np.cumsum(rng.normal(size=n)), rng.randint(-3, 4, n) * 1., np.sin(np.arange(n)), rng.randint(-5, 5, n)][k]
        if rng.rand() < 0.4:
            x = x.copy()
            x[rng.randint(n)] += 20
        if rng.rand() < 0.3 and x.dtype.kind == 'f':
            x = x.copy()
            x[rng.choice([0, n - 1, rng.randint(n)])] = np.nan
        zcrit = float(rng.choice([0, 0, 0.3, 2]))
        dcrit = None if rng.rand() < 0.4 else float(rng.choice([1, 3, 100]))
        ddcrit = None if rng.rand() < 0.4 else float(rng.choice([1, 3, 100]))
        with ctx.case(x=x, zcrit=zcrit, dcrit=dcrit, ddcrit=ddcrit):
            v = [0. if np.isnan(e) else float(e) for e in x]
            dc = 1.5 * np.std(v) if dcrit is None else dcrit
            ddc = 1.5 * np.std(v) if ddcrit is None else ddcrit
            bad = set()
            for i in range(n - 1):
                d = v[i + 1] - v[i]
                if d > dc:
                    bad.add(i + 1)
                if d < -dc:
                    bad.add(i)
            dd = np.diff(np.diff(v))
            for i in range(n - 2):
                if dd[i] > ddc:
                    bad.add(i + 1)
                if dd[i] < -ddc:
                    bad.add(i)
            for i in range(n - 1):
                if abs(v[i + 1] - v[i]) <= zcrit:
                    bad.update({i, i + 1, max(i - 1, 0), min(i + 2, n - 1)})
            arg = x.tolist() if rng.rand() < 0.3 else x.reshape(1, -1) if rng.rand() < 0.3 else x
            ind, indg = wm.findoutliers(arg, zcrit, dcrit, ddcrit)
            ctx.equal(ind, sorted(bad), 'outliers:spurious')
            ctx.equal(indg, [i for i in range(n) if i not in bad], 'outliers:rest')
            ctx.raises(ValueError, lambda: wm.findoutliers(v[:2]), 'outliers:raises')


@family()
def series(ctx):
    rng = ctx.rng
    for _ in ctx.loop(40):
        period = float(rng.choice([2 * np.pi, 1, 10, rng.gamma(2, 3)]))
        nper = int(rng.randint(1, 4))
        npp = int(rng.randint(20, 60))
        m = int(rng.randint(1, 7))
        t0 = float(rng.choice([0, rng.normal()]))
        p = int(rng.randint(1, 3))
        A, B = rng.normal(size=(m, p)), rng.normal(size=(m, p))
        B[0] = 0
        t = t0 + np.arange(nper * npp + 1) * (period / npp)
        x = sum(A[k][:, None] * np.cos(2 * np.pi * k * t / period) + B[k][:, None] * np.sin(2 * np.pi * k * t / period) for k in range(1, m)) + 0.5 * A[0][:, None] + 0 * t
        method = str(rng.choice(['trapz', 'simps'])) if (nper * npp) % 2 == 0 else 'trapz'
        with ctx.case(period=period, periods=nper, per=npp, m=m, rows=p, method=method):
            with ctx.frozen('fourier:frozen', t, x):
                a, b = wm.fourier(x if p > 1 else x[0], t, period=period, m=m, method=method)
            s = nper * period / (2 * np.pi)
            # the integrals of the definition; the trapezoidal rule is exact for trigonometric polynomials
            wa, wb = A * s, B * s
            if method == 'simps':
                w = np.where(np.arange(len(t)) % 2, 4., 2.)
                w[[0, -1]] = 1
                w *= period / npp / 3 / np.pi
                wa = np.array([(x * np.cos(2 * np.pi * k * t / period)).dot(w) for k in range(m)])
                wb = np.array([(x * np.sin(2 * np.pi * k * t / period)).dot(w) for k in range(m)])
            ctx.close(a, wa, 'fourier:cosine', 0, 1e-10 * (1 + s), method)
            ctx.close(b, wb, 'fourier:sine', 0, 1e-10 * (1 + s), method)
            if abs(s - 1) > 1e-9 and np.allclose(a, wa, 0, 1e-10 * (1 + s)) and method == 'trapz':
                rec = sum(a[k][:, None] * np.cos(2 * np.pi * k * t / period) + b[k][:, None] * np.sin(2 * np.pi * k * t / period) for k in range(1, m)) + 0.5 * a[0][:, None]
                ctx.ok(np.allclose(rec, x, atol=1e-6), 'fourier:series_does_not_reproduce', 'a record of length %g: coefficients are too large by %g' % (nper * period, s))
            if nper == 1 and t0 == 0.:
                a2, b2 = wm.fourier(x, t, m=m)
                ctx.close(a2, A * s, 'fourier:default_period', 0, 1e-10 * (1 + s))
            ti = np.arange(len(t))
            a3, b3 = wm.fourier(x, m=m, period=npp)
            ctx.close(a3, wm.fourier(x, ti, period=npp, m=m)[0], 'fourier:default_times', 1e-12, 1e-12)
        a, b = sorted(rng.uniform(-2, 3, 2))
        b += 0.1
        fun = [np.sin, np.exp, lambda v: 1 / (1 + 25 * v ** 2), lambda v: 2 + v ** 3, lambda v: 4 - 3. * v][int(rng.randint(5))]
        tol, n0 = float(rng.choice([0.005, 0.05, 1e-3])), int(rng.choice([3, 5, 8, 20]))
        for method in ('linear', 'adaptive'):
            with ctx.case(discretize=method, a=a, b=b, tol=tol, n=n0):
                calls = []
                x, y = wm.discretize(lambda v: (calls.append(len(v)), fun(v))[1], a, b, tol, n0, method)
                ctx.equal(y, fun(x), 'discretize:values', method)
                ctx.ok(np.all(np.diff(x) > 0) and x[0] == a and abs(x[-1] - b) < 1e-12 * (1 + abs(b)), 'discretize:grid', x)
                if method == 'linear':
                    ctx.close(np.diff(x), (b - a) / (len(x) - 1), 'discretize:uniform', 1e-6, shape=False)
                ctx.ok(len(x) >= n0, 'discretize:number', len(x))
                xf = np.linspace(a, b, 2001)
                err = 0.5 * np.abs(np.interp(xf, x, y) - fun(xf)) / (np.abs(fun(xf)) * 2 + tol)
                if len(x) < 2 ** 19:
                    worst = err.max() if method == 'linear' else err.mean()     # the adaptive grid may miss a piece between its first points
                    ctx.ok(worst <= 10 * tol, 'discretize:tolerance', '%s: error %g for tol %g, %d points' % (method, worst, tol, len(x)))


@family()
def labels_and_bins(ctx):
    rng = ctx.rng
    for _ in ctx.loop(80):
        lo = float(rng.choice([0, 0.1 * rng.randint(-20, 20), rng.normal() * 10 ** rng.uniform(-3, 4)]))
        width = float(rng.choice([1, 0.1 * rng.randint(1, 30), 10 ** rng.uniform(-3, 5), 10. ** rng.randint(-3, 6)]))
        nb = int(rng.randint(1, 60))
        data = lo + width * rng.rand(int(rng.randint(3, 200)))
        odd, loose = bool(rng.rand() < 0.5), bool(rng.rand() < 0.5)
        use = int(rng.randint(3))
        with ctx.case(lo=lo, width=width, bins=nb, odd=odd, loose=loose, use=use):
            if use == 0:
                lim, mn, mx = wm.good_bins(range=(lo, lo + width), num_bins=nb, odd=odd, loose=loose), lo, lo + width
            elif use == 1:
                lim, mn, mx = wm.good_bins(data.tolist() if rng.rand() < 0.5 else data, num_bins=nb, odd=odd, loose=loose), data.min(), data.max()
            else:
                lim, mn, mx = wm.good_bins(data, odd=odd, loose=loose), data.min(), data.max()
                nb = int(math.ceil(4 * len(data) ** 0.25 - 1e-12))
            d = lim[1] - lim[0]
            tol = 1e-9 * d + 1e-14 * max(abs(mn), abs(mx)) * 8
            ctx.close(np.diff(lim), np.full(len(lim) - 1, d), 'bins:uniform', 0, tol)
            mant = d / 10 ** math.floor(math.log10(d) + 1e-9)
            ctx.ok(min(abs(mant - k) for k in (1, 2, 5, 10)) < 1e-6, 'bins:step', d)
            ctx.ok(lim[0] <= mn + tol and lim[-1] >= mx - tol, 'bins:cover', '%r for [%r, %r]' % (lim, mn, mx))
            pos = (lim[0] + (d / 2 if odd else 0)) / d
            ctx.ok(abs(pos - round(pos)) < 1e-6 * (1 + abs(pos)), 'bins:position', pos)
            extra = (1 if loose else 0) + (0.5 if odd else 0)
            ctx.ok(lim[0] > mn - (1 + extra) * d - tol - 1e-9 * d and lim[-1] < mx + (1 + extra) * d + tol + 1e-9 * d, 'bins:tight', lim)
            if loose:
                ctx.ok(lim[0] <= mn - d + tol and lim[-1] >= mx + d - tol, 'bins:loose', lim)
            inside = (mx - mn) / d
            ctx.ok(0.45 * nb - 1 <= inside <= 2.6 * nb + 1, 'bins:number', '%g for about %d' % (inside, nb))
            # histogram drawn as bars: the area of the bars and the height over every datum
            edges = np.sort(rng.choice([lo, lo + width, *lim], size=int(min(len(lim), 6)), replace=False))
            edges = np.unique(edges)
            edges = edges[np.r_[True, np.diff(edges) > 1e-6 * width]]
            if len(edges) > 1:
                with ctx.frozen('histogram:frozen', edges, data):
                    lines = wm.plot_histgrm(data, bins=edges, density=False)
                xx, yy = np.array(lines[0].get_xdata()).ravel(), np.array(lines[0].get_ydata()).ravel()
                plt.close('all')
                cnt = np.histogram(data, edges)[0]
                area = np.sum(np.diff(xx) * 0.5 * (yy[1:] + yy[:-1]))
                ctx.close(area, np.sum(cnt * np.diff(edges)), 'histogram:area', 1e-12, 1e-12)
                for k in range(len(edges) - 1):
                    mid = 0.5 * (edges[k] + edges[k + 1])
                    j = np.flatnonzero((xx[:-1] < mid) & (mid < xx[1:]))
                    ctx.ok(len(j) == 1 and yy[j[0]] == cnt[k] and yy[j[0] + 1] == cnt[k], 'histogram:height', '%r %r' % (xx, yy))
        num, den = int(rng.randint(-14, 15)), int(rng.randint(1, 14))
        plain = rng.rand() < 0.3
        x = float(rng.normal() * 10 ** rng.randint(-3, 4)) if plain else num * np.pi / den
        n = int(rng.randint(1, 8))
        nm, dm = int(rng.choice([10, 5])), int(rng.choice([10, 4]))
        with ctx.case(x=x, num=num, den=den, plain=bool(plain), n=n):
            txt = wm.num2pistr(x, n, nm, dm)
            g = math.gcd(num, den)
            rn, rd = num // g if g else 0, den // g if g else 1
            if not plain and num != 0 and abs(rn) < nm and rd < dm:
                want = ('-' if rn == -1 else '' if rn == 1 else '%d' % rn) + '\\pi' + ('' if rd == 1 else '/%d' % rd)
                ctx.ok(txt == want, 'pistr:fraction', '%r for %d/%d' % (txt, num, den))
            else:
                ctx.ok(re.match(r'^[-+0-9.e]+$', txt) and abs(float(txt) - x) <= 0.5000001 * 10. ** (math.floor(math.log10(abs(x)) + 1e-12) - n + 1) if x else float(txt) == 0,
                       'pistr:number', '%r for %r' % (txt, x))
        prop = str(rng.choice(['length', 'beam', 'draught', 'draft', 'max_deadweight', 'service_speed', 'propeller_diameter']))
        dw = float(10 ** rng.uniform(2, 5))
        forms = dict(length=3.45 * dw ** 0.40, beam=1.78 * dw ** 0.27, draught=0.80 * dw ** 0.24, draft=0.80 * dw ** 0.24, service_speed=1.14 * dw ** 0.21,
                     max_deadweight=dw, propeller_diameter=0.12 * (3.45 * dw ** 0.40) ** 0.75)
        with ctx.case(ship=prop, dw=dw):
            sc = wm.getshipchar(**{prop: forms[prop]})
            ctx.close(sc['length'], round(forms['length']), 'ship:length', 0, 1.0001)
            ctx.close(sc['beam'], forms['beam'], 'ship:beam', 0, 0.0501)
            ctx.close(sc['draught'], forms['draught'], 'ship:draught', 0, 0.0501)
            ctx.close(sc['service_speed'], forms['service_speed'], 'ship:speed', 0, 0.0501)
            ctx.close(sc['max_deadweight'], dw, 'ship:weight', 1e-9, 0.51)
            ctx.close(sc['propeller_diameter'], 0.12 * sc['length'] ** 0.75, 'ship:propeller', 1e-12)
            key = {'draft': 'draught'}.get(prop, prop)
            stds = dict(length=sc['length'] ** 0.13, beam=0.1 * sc['beam'], draught=0.22 * sc['draught'], service_speed=0.1 * sc['service_speed'],
                        max_deadweight=0.1 * sc['max_deadweight'], propeller_diameter=0.12 * (sc['length'] ** 0.13) ** 0.75)
            stds[key] = 0.
            for k, v in stds.items():
                ctx.close(sc[k + 'STD'], v, 'ship:std', 1e-12, 0, k)
            ctx.ok(len(sc) == 12, 'ship:entries', sorted(sc))


@family()
def plotdata(ctx):
    rng = ctx.rng
    for _ in ctx.loop(40):
        n = int(rng.randint(3, 20))
        x = np.cumsum(rng.gamma(1, 1, n) + 1e-3)
        y = rng.uniform(0.05, 0.9, n)
        cols = np.c_[y * 0.5, 1 - 0.5 * (1 - y)]
        a, b = np.sort(rng.uniform(x[0], x[-1], 2))
        with ctx.case(n=n, a=a, b=b):
            d = wc.PlotData(y, x, children=[wc.PlotData(cols, x)])
            xi = rng.uniform(x[0], x[-1], 7)
            ctx.close(np.ravel(d.eval_points(xi)), np.interp(xi, x, y), 'plotdata:interpolate', 1e-12, 1e-13)
            ctx.close(np.ravel(d.eval_points(x)), y, 'plotdata:nodes', 1e-12)
            ctx.close(np.ravel(d.eval_points(xi, method='nearest')), [y[np.argmin(np.abs(x - v))] for v in xi], 'plotdata:nearest', 1e-12)
            out = np.ravel(d.eval_points(np.array([x[0] - 1, x[-1] + 1])))
            ctx.ok(np.all(np.isnan(out)), 'plotdata:outside', out)

            def area(yy, lo, hi):
                xs = np.unique(np.r_[lo, x[(x > lo) & (x < hi)], hi])
                v = np.interp(xs, x, yy)
                return np.sum(np.diff(xs) * 0.5 * (v[1:] + v[:-1]))
            ctx.close(d.integrate(a, b), area(y, a, b), 'plotdata:integral', 1e-11, 1e-13, shape=False)
            ctx.close(d.integrate(), area(y, x[0], x[-1]), 'plotdata:integral', 1e-11, 1e-13, shape=False)
            ctx.close(d.integrate(a), area(y, a, x[-1]), 'plotdata:integral', 1e-11, 1e-13, shape=False)
            ctx.close(d.integrate(b=b), area(y, x[0], b), 'plotdata:integral', 1e-11, 1e-13, shape=False)
            ctx.close(d.integrate(a, b, return_ci=True), [area(v, a, b) for v in (y, cols[:, 0], cols[:, 1])], 'plotdata:intervals', 1e-11, 1e-13)
            cdf = d.to_cdf()
            ctx.close(cdf.data, [area(y, x[0], v) if v > x[0] else 0. for v in x], 'plotdata:cdf', 1e-11, 1e-13)
            ctx.equal(cdf.args, x, 'plotdata:cdf_args')
            ctx.ok(cdf.args is not x and np.all(d.data == y), 'plotdata:cdf_copy')
            cum = np.asarray(cdf.data)
            with np.errstate(all='ignore'), warnings.catch_warnings():
                warnings.simplefilter('ignore')
                want = [y, 1 - y, cum, 1 - cum, np.log(y), np.log(1 - y), np.log(cum), np.log(1 - cum), 10 * np.log10(y)]
                for k in range(9):
                    plot = int(rng.choice([1, 2])) + 10 * k
                    lines = d.plot(plotflag=plot)[0][0]
                    gx, gy = np.ravel(lines[0].get_xdata()), np.ravel(lines[0].get_ydata())
                    cut = len(x) - len(gx)           # the empty sum at the first point need not be drawn
                    ctx.ok(cut in ((0, 1) if k in (2, 3, 6, 7) else (0,)), 'plotdata:drawn_number', cut)
                    ctx.close(gy, want[k][cut:], 'plotdata:drawn', 1e-9, 1e-12, str(plot))
                    ctx.equal(gx, x[cut:], 'plotdata:drawn_x', str(plot))
                    plt.close('all')
                e = wc.PlotData(y, x, title='T', xlab='X', ylab='Y')
                e.dataCI = cols
                lines = e.plot(plotflag=1)[0][0]
                ctx.equal(np.array([np.ravel(v.get_ydata()) for v in lines]), np.c_[y, cols].T, 'plotdata:drawn_intervals')
                ax = plt.gca()
                ctx.ok((ax.get_title().strip(), ax.get_xlabel(), ax.get_ylabel()) == ('T', 'X', 'Y'), 'plotdata:labels')
                plt.close('all')
            names = ['f', '1-f', 'cumtrapz(f)', '1-cumtrapz(f)', 'log(f)', 'log(1-f)', 'log(cumtrapz(f))', 'log(1-cumtrapz(f))', '10log10(f)']
            for k, name in enumerate(names):
                ctx.ok(wc.plotflag2transform_id(10 * k + 1) == name and wc.transform_id2plotflag2(name) == 10 * k, 'plotdata:transform_names', wc.plotflag2transform_id(10 * k))
            flag = int(rng.randint(0, 11112))
            sid = flag // 100
            bits = sid if sid < 8 else (sid % 10 > 0) + 2 * (sid // 10 % 10 > 0) + 4 * (sid // 100 % 10 > 0)
            want = ''.join(c for c, k in zip('xyz', (1, 2, 4)) if bits & k)
            ctx.equal(wc.plotscale(flag), want + 'log' if want else 'linear', 'plotdata:scale', str(flag))
            m = int(rng.randint(3, 8))
            u, v = np.cumsum(rng.gamma(1, 1, n) + 0.01), np.cumsum(rng.gamma(1, 1, m) + 0.01)
            c = rng.normal(size=3)
            d2 = wc.PlotData(c[0] + c[1] * u[None, :] + c[2] * v[:, None], [u, v])
            pu, pv = rng.uniform(u[0], u[-1], 5), rng.uniform(v[0], v[-1], 5)
            tol = 1e-9 * (1 + np.abs(d2.data).max())
            ctx.close(d2.eval_points(pu, pv), c[0] + c[1] * pu + c[2] * pv, 'plotdata:plane', 0, tol)
            ctx.close(d2.eval_points(np.c_[pu, pv]), c[0] + c[1] * pu + c[2] * pv, 'plotdata:plane_points', 0, tol)
            d3 = wc.PlotData(rng.normal(size=(m, n)), [u, v])
            i, j = int(rng.randint(1, m - 1)), int(rng.randint(1, n - 1))
            ctx.close(np.ravel(d3.eval_points(u[j], v[i])), [d3.data[i, j]], 'plotdata:grid_nodes', 1e-7, 1e-7)
            ctx.raises(NotImplementedError, d3.integrate, 'plotdata:raises')
            ctx.raises(NotImplementedError, d3.to_cdf, 'plotdata:raises')
