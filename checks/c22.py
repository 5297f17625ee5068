"""C22: purity. Every registered public computation is executed on watched arguments, in different orders and on equivalent representations of its input."""
import copy
import hashlib
import os
import signal as signals
import sys
import warnings

import numpy as np

import wafo.covariance.core as wcov
import wafo.dctpack as wd
import wafo.gaussian as wg
import wafo.integrate as wint
import wafo.interpolate as wi
import wafo.kdetools as wk
import wafo.kdetools.gridding as wgr
import wafo.markov as wmk
import wafo.misc as wm
import wafo.objects as wo
import wafo.padua as wpad
import wafo.polynomial as wp
import wafo.sg_filter as ws
import wafo.spectrum.core as wsc
import wafo.spectrum.models as wsm
import wafo.stats as wst
import wafo.stats.core as wsta
import wafo.stats.estimation as we
import wafo.transform.models as wtm
import wafo.wave_theory.dispersion_relation as wdr
from wafo.containers import PlotData
from wafo.transform.core import TrData
from vlib.harness import family

RULE = ("each call is executed with a deep fingerprint of every argument taken before and after; executed again after the results of the first call were overwritten, "
        "after a random sequence of other calls, and with the same values given as list, tuple, strided or reversed view, integer or float array; all results must agree")
ASSUMPTIONS = ["the global random generator is set to the same state before the calls that are compared",
               "copies of container objects are shallow by design (test_containers says so): independence is required of rebound attributes and of library calls on the copy"]


# -- fingerprints --------------------------------------------------------------------------------------------------------
def leaves(o, depth=0, seen=None):
    """(path, value) of everything reachable: arrays by bytes, scalars by repr."""
    seen = set() if seen is None else seen
    if isinstance(o, np.ndarray):
        if o.dtype == object:
            for k, v in enumerate(o.ravel()):
                yield from ((('%d' % k,) + p, w) for p, w in leaves(v, depth + 1, seen))
        else:
            yield (), ('array', o.shape, str(o.dtype), hashlib.sha1(np.ascontiguousarray(o).tobytes()).hexdigest())
        return
    if isinstance(o, (str, bytes, int, float, complex, bool, np.generic)) or o is None:
        yield (), repr(o)
        return
    if depth > 7 or id(o) in seen:
        return
    seen.add(id(o))
    if isinstance(o, dict):
        items = [(str(k), v) for k, v in o.items()]
    elif isinstance(o, (list, tuple)):
        items = [(str(k), v) for k, v in enumerate(o)]
    elif hasattr(o, '__dict__') and not callable(getattr(o, 'cdf', None)) and not isinstance(o, type):
        items = sorted((k, v) for k, v in vars(o).items() if k not in ('plotter', 'date'))
    else:
        return
    yield (), (type(o).__name__, tuple(k for k, _v in items))
    for k, v in items:
        yield from (((k,) + p, w) for p, w in leaves(v, depth + 1, seen))


def fingerprint(o):
    return dict(('.'.join(p), v) for p, v in leaves(o))


def difference(a, b):
    return [k for k in sorted(set(a) | set(b)) if a.get(k) != b.get(k)][:5]


def arrays_of(o, depth=0):
    if isinstance(o, np.ndarray):
        return [o] if o.dtype != object else []
    if depth > 4:
        return []
    if isinstance(o, dict):
        vals = list(o.values())
    elif isinstance(o, (list, tuple)):
        vals = list(o)
    elif isinstance(o, PlotData):
        vals = [v for k, v in vars(o).items() if k in ('data', 'args')]
    else:
        return []
    return [a for v in vals for a in arrays_of(v, depth + 1)]


def poison(result, args):
    """Overwrites the arrays of a result, except those that are views of an argument."""
    inputs = arrays_of(args) + [a for o in args for a in arrays_of(getattr(o, '__dict__', None) or {})]
    n = 0
    for a in arrays_of(result):
        if a.size and a.flags.writeable and not any(np.may_share_memory(a, b) for b in inputs):
            a[...] = a.dtype.type(True) if a.dtype == bool else -77
            n += 1
    return n


# -- the registry: name -> function of rng that returns (callable, args, positions of one-dimensional vectors, exact) --------
REG = {}


def reg(fun):
    REG[fun.__name__] = fun
    return fun


def signal(rng, n=None):
    n = int(rng.randint(60, 200)) if n is None else n
    t = np.arange(n) * 0.5
    return np.round(64 * (np.sin(t) + 0.6 * np.sin(0.37 * t + 1) + 0.3 * rng.normal(size=n)))


def ts(rng, n=400):
    x = signal(rng, n) / 64.
    return wo.TimeSeries(x - x.mean(), np.arange(n) * 0.5)


def spec(rng, n=129):
    S = wsm.Jonswap(Hm0=float(rng.uniform(2, 9)), Tp=float(rng.uniform(7, 13))).tospecdata(np.linspace(0, 3, n))
    return S


def add(name, make):
    make.__name__ = name
    REG[name] = make


def simple(name, fun, *pos):
    """fun(x) of an integer-valued signal."""
    add(name, lambda rng: (fun, (signal(rng),), pos or (0,)))


simple('misc.findcross', lambda x: wm.findcross(x, 0.25))
simple('misc.findcross_wave', lambda x: wm.findcross(x, 0.25, 'dw'))
simple('misc.findextrema', lambda x: wm.findextrema(x))
simple('misc.findpeaks', lambda x: wm.findpeaks(x, 5))
simple('misc.findtc', lambda x: wm.findtc(x, 0.5, 'dw'))
simple('misc.findtp', lambda x: wm.findtp(np.asarray(x), 20.))
simple('misc.findrfc', lambda x: wm.findrfc(np.asarray(x)[wm.findtp(np.asarray(x))], 10.))
simple('misc.findrfc_astm', lambda x: wm.findrfc_astm(np.asarray(x)[wm.findtp(np.asarray(x))] * 1.))
simple('misc.rfcfilter', lambda x: wm.rfcfilter(x, 10., 1))
simple('misc.findoutliers', lambda x: wm.findoutliers(x))
simple('misc.moving_average', lambda x: wm.moving_average(x, 5))
simple('misc.detrendma', lambda x: wm.detrendma(x, 5))
simple('misc.fourier', lambda x: wm.fourier(x, m=4))
simple('misc.good_bins', lambda x: wm.good_bins(x))
simple('misc.histogram', lambda x: wm._histogram(x, 7)[:2])
simple('misc.stirlerr', lambda x: wm.stirlerr(np.abs(np.asarray(x)) + 1))
add('misc.trangood', lambda rng: (wm.trangood, (np.cumsum(rng.randint(1, 4, 30)) * 1., signal(rng, 30)), (0, 1)))
add('misc.tranproc', lambda rng: ((lambda x, f, x0: wm.tranproc(x, np.asarray(f), x0)), (np.arange(30) * 1., np.arange(30) * 2. + 1, np.arange(3, 9) * 1.), (0, 2)))
add('misc.cart2polar', lambda rng: (lambda x, y: wm.cart2polar(x, y), (signal(rng, 9), signal(rng, 9)), (0, 1)))
add('misc.argsreduce', lambda rng: (wm.argsreduce, (rng.rand(9) < 0.5, signal(rng, 9), signal(rng, 9)), (1, 2)))
add('misc.betaloge', lambda rng: (wm.betaloge, (rng.randint(1, 30, 9) * 1., rng.randint(1, 30, 9) * 1.), (0, 1)))

for _f in ('dct', 'idct', 'dst', 'idst', 'dctn', 'idctn'):
    if hasattr(wd, _f):
        simple('dctpack.' + _f, getattr(wd, _f))

simple('sg.savitzky', lambda x: ws.SavitzkyGolay(4, 2)(x))
simple('sg.hodrick', lambda x: ws.HodrickPrescott(w=5)(x))
simple('sg.smoothn', lambda x: ws.smoothn(x, s=2.))
simple('sg.smoothn_auto', lambda x: ws.smoothn(x))
simple('sg.smoothn_robust', lambda x: ws.smoothn(x, s=2., robust=True))
simple('sg.hampel', lambda x: ws.HampelFilter(dx=3)(x))
simple('interp.savitzky_golay', lambda x: wi.savitzky_golay(x, 11, 3))


def xy(rng, n=20):
    return np.cumsum(rng.randint(1, 5, n)) * 1., rng.randint(-9, 9, n) * 1.


add('interp.smoothspline', lambda rng: (lambda x, y, xi: wi.SmoothSpline(x, y, p=0.6)(xi), xy(rng) + (np.arange(3, 12) * 1.,), (0, 1, 2)))
add('interp.spline_lin', lambda rng: (lambda x, y: wi.SmoothSpline(x, y, lin_extrap=True)(np.linspace(-5, 60, 9)), xy(rng), (0, 1)))
add('interp.stineman', lambda rng: (lambda x, y, xi: wi.StinemanInterp(x, y)(xi), xy(rng) + (np.arange(3, 12) * 1.,), (0, 1, 2)))
add('interp.stineman_fun', lambda rng: (lambda xi, x, y: wi.stineman_interp(xi, x, y), (np.arange(6, 12) * 1.,) + xy(rng), (0, 1, 2)))
add('interp.slopes', lambda rng: (lambda x, y: wi.slopes(x, y, method='parabola'), xy(rng), (0, 1)))
add('interp.pchip', lambda rng: (lambda x, y, xi: wi.Pchip(x, y)(xi), xy(rng) + (np.arange(6, 12) * 1.,), (0, 1, 2)))


def _pp(rng):
    x, y = xy(rng)
    return wi.SmoothSpline(x, y, p=0.7)


add('interp.pp_derivative', lambda rng: (lambda s: s.derivative()(np.arange(9.)), (_pp(rng),), ()))
add('interp.pp_integrate', lambda rng: (lambda s: s.integrate()(np.arange(9.)), (_pp(rng),), ()))
add('interp.pp_eval', lambda rng: (lambda s, x: s(x), (_pp(rng), np.arange(-3, 70) * 1.), (1,)))

for _f in ('polyint', 'polyder', 'polytrim', 'poly2cheb', 'cheb2poly', 'chebder', 'chebint', 'polyshift', 'polyishift'):
    add('poly.' + _f, lambda rng, _f=_f: (getattr(wp, _f), (rng.randint(-5, 6, 6) * 1. + np.r_[9., 0, 0, 0, 0, 0],), (0,)))
add('poly.polyreloc', lambda rng: (lambda p: wp.polyreloc(p, 2., 1.), (rng.randint(1, 6, 5) * 1.,), (0,)))
add('poly.polyrescl', lambda rng: (lambda p: wp.polyrescl(p, 2., 3.), (rng.randint(1, 6, 5) * 1.,), (0,)))
add('poly.chebval', lambda rng: (lambda x, c: wp.chebval(x, c, -20, 20), (np.arange(-9, 9) * 1., rng.randint(-5, 6, 6) * 1.), (0, 1)))
add('poly.orthofit', lambda rng: (lambda x, y: wp.orthoval(wp.orthofit(x, y, 3), np.arange(4.)), xy(rng), (0, 1)))
add('poly.ortho2poly', lambda rng: (lambda x, y: wp.ortho2poly(wp.orthofit(x, y, 3)), xy(rng), (0, 1)))
add('poly.polydeg', lambda rng: (wp.polydeg, (np.arange(30) * 1., np.arange(30) ** 2 + rng.randint(0, 9, 30) * 1.), (0, 1)))
add('poly.padefit', lambda rng: (lambda c: [np.asarray(q.coeffs) for q in wp.padefit(c, 2)], (np.cumprod(rng.randint(2, 5, 6) * 1.) + rng.randint(1, 9, 6) ** 3. + rng.rand(6),), (0,)))
add('poly.cheb1d', lambda rng: (lambda c, x: (wp.Cheb1d(c)(x), wp.Cheb1d(c).integ().coeffs, wp.Cheb1d(c).deriv().coeffs), (rng.randint(1, 9, 6) * 1., np.linspace(-1, 1, 5)), (0,)))
add('poly.chebfitnd', lambda rng: (lambda x, f: wp.chebfitnd((x,), f, (3,)), (np.linspace(-1, 1, 12), rng.randint(-9, 9, 12) * 1.), (1,)))
add('padua.fit_val', lambda rng: (lambda p: wpad.padua_val(np.linspace(-1, 1, 4), np.linspace(-1, 1, 4), wpad.padua_fit(p, lambda x, y: x * y + x)[0]),
                                  (wpad.padua_points(5),), ()))
add('padua.cubature', lambda rng: (lambda c: wpad.padua_cubature(c), (wpad.padua_fit(wpad.padua_points(5), lambda x, y: x * y + x)[0],), ()))

add('integrate.boole', lambda rng: (wint.boole, (rng.randint(-9, 9, 9) * 1., np.arange(9) * 2.), (0, 1)))
add('integrate.chebychev', lambda rng: (wint.chebychev, (rng.randint(-9, 9, 9) * 1., np.linspace(-1, 1, 9)), (0,)))
add('integrate.qrule', lambda rng: (lambda n: wint.qrule(n, 1), (int(rng.randint(2, 12)),), ()))
add('integrate.h_roots', lambda rng: (lambda n: wint.h_roots(n), (int(rng.randint(2, 12)),), ()))
add('integrate.la_roots', lambda rng: (lambda n: wint.la_roots(n, 0.5), (int(rng.randint(2, 12)),), ()))
add('integrate.p_roots', lambda rng: (lambda n: wint.p_roots(n, 'newton', 0, 2), (int(rng.randint(2, 12)),), ()))
add('integrate.gaussq', lambda rng: (lambda a, b: wint.gaussq(np.exp, a, b), (np.arange(4) * 1., np.arange(4) + 2.), (0, 1)))
add('integrate.quadgr', lambda rng: (lambda a: wint.quadgr(np.cos, a, a + 2.), (float(rng.uniform(0, 1)),), ()))
add('integrate.romberg', lambda rng: (lambda a: wint.romberg(np.cos, a, a + 2.), (float(rng.uniform(0, 1)),), ()))
add('integrate.clencurt', lambda rng: (lambda a: wint.clencurt(np.cos, a, a + 2., 6), (float(rng.uniform(0, 1)),), ()))

# kernel density estimation: the two-dimensional data are not vectors in the sense of the representations
add('kde.points', lambda rng: (lambda d, x: wk.KDE(d, hs=7.)(x), (signal(rng), np.arange(-60, 60, 7) * 1.), (0, 1)))
add('kde.grid', lambda rng: (lambda d: wk.KDE(d, hs=7., inc=64).eval_grid_fast(), (signal(rng),), (0,)))
add('kde.alpha', lambda rng: (lambda d: wk.KDE(d, hs=7., alpha=0.4)(np.arange(-50, 60, 10) * 1.), (signal(rng),), (0,)))
add('kde.two', lambda rng: (lambda d: wk.KDE(d, inc=32).eval_grid_fast(), (rng.randint(-9, 9, (2, 60)) + rng.rand(2, 60),), ()))
add('kde.transformed', lambda rng: (lambda d: wk.TKDE(d, L2=0.5)(np.arange(1, 60, 10) * 1.), (np.abs(signal(rng)) + 1.,), (0,)))
for _h in ('hns', 'hos', 'hste', 'hisj', 'hstt', 'hldpi', 'hscv'):
    add('kernel.' + _h, lambda rng, _h=_h: (lambda d: getattr(wk.Kernel('gauss'), _h)(d), (signal(rng),), (0,)))
add('kde.regression', lambda rng: (lambda x, y: wk.KRegression(x, y, hs=3.)(np.arange(-30, 150, 5) * 1.), (np.cumsum(rng.randint(1, 3, 40)) * 1., signal(rng, 40)), (0, 1)))
add('kde.gridcount', lambda rng: (lambda d: wgr.gridcount(np.atleast_2d(d), np.arange(-300, 301, 20.)), (signal(rng),), ()))
add('kde.accum', lambda rng: (lambda a, v: wgr.accum(a, v, shape=(5,)), (rng.randint(0, 5, 30), rng.randint(0, 9, 30) * 1.), ()))
add('kde.qlevels', lambda rng: (lambda p: wk.kernels.qlevels(p), (rng.rand(12, 12),), ()))
add('kde.qlevels2', lambda rng: (lambda p: wk.kernels.qlevels2(p), (signal(rng),), (0,)))

# statistics
add('stats.edf', lambda rng: (lambda x: vars(wsta.edf(x)), (signal(rng),), (0,)))
add('stats.edfcnd', lambda rng: (lambda x: vars(wsta.edfcnd(x, 5.)), (signal(rng),), (0,)))
add('stats.reslife', lambda rng: (lambda x: wsta.reslife(x, u=[5., 20.]).data, (np.abs(signal(rng)),), (0,)))
add('stats.dispersion', lambda rng: (lambda x, t: wsta.dispersion_idx(x, t, [20., 40.], tb=10, nmin=2)[0].data, (signal(rng, 120), np.arange(120) * 1.), (0, 1)))
add('stats.decluster', lambda rng: (lambda x, t: wsta.decluster(x, t, 20., 3), (signal(rng, 120), np.arange(120) * 1.), (0, 1)))
add('stats.findpot', lambda rng: (lambda x, t: wsta.findpot(x, t, 20., 3), (signal(rng, 120), np.arange(120) * 1.), (0, 1)))
add('stats.interexceedance', lambda rng: (lambda t: (wsta.interexceedance_times(t), wsta.extremal_idx(wsta.interexceedance_times(t))), (np.cumsum(rng.randint(1, 9, 40)) * 1.,), (0,)))
for _d, _p in (('norm', ()), ('weibull_min', (1.5,)), ('genpareto', (0.1,)), ('gumbel_r', ()), ('rayleigh', ())):
    add('stats.%s_fit' % _d, lambda rng, _d=_d, _p=_p: (lambda x: (lambda f: (f.par, f.LLmax))(getattr(wst, _d).fit2(x)), (np.abs(signal(rng)) + 1.,), (0,)))
    add('stats.%s_cdf' % _d, lambda rng, _d=_d, _p=_p: (lambda x: getattr(wst, _d).cdf(x, *_p), (np.arange(1, 12) * 1.,), (0,)))
add('stats.profile', lambda rng: (lambda f: vars(f.profile(i=0))['data'], (wst.weibull_min.fit2(np.abs(signal(rng)) + 1., floc=0),), ()))
add('stats.ci_quantile', lambda rng: (lambda f: f.ci_quantile(f.isf(0.05), i=0), (wst.weibull_min.fit2(np.abs(signal(rng)) + 1., floc=0),), ()))
add('stats.fixed', lambda rng: (lambda x, k: we.FitDistribution(wst.weibull_min, x, **k).par, (np.abs(signal(rng)) + 1., dict(floc=0., method='mps')), (0,)))

# Markov matrices and cycles
add('markov.rfc', lambda rng: (lambda f: wmk.mctp2rfc(f), (np.triu(rng.randint(1, 9, (9, 9)) * 1., 1),), ()))
add('markov.rfc_both', lambda rng: (lambda f, g: wmk.mctp2rfc(f, g), (np.triu(rng.randint(1, 9, (9, 9)) * 1., 1), np.tril(rng.randint(1, 9, (9, 9)) * 1., -1)), ()))
add('markov.nt', lambda rng: (lambda f: wmk.cmat2nt(f), (np.triu(rng.randint(1, 9, (9, 9)) * 1., 1),), ()))
add('markov.nt2cmat', lambda rng: (lambda f: wmk.nt2cmat(f), (wmk.cmat2nt(np.triu(rng.randint(1, 9, (9, 9)) * 1., 1)),), ()))
add('markov.fr2nt', lambda rng: (lambda f: wmk.fr2nt(f), (np.triu(rng.randint(1, 9, (9, 9)) * 1., 1),), ()))
add('markov.iter', lambda rng: (lambda f: wmk.iter_(f, None, 3), (np.triu(rng.randint(1, 9, (9, 9)) * 1., 1),), ()))

# waves
add('waves.w2k', lambda rng: (lambda w, t: wdr.w2k(w, t, h=20.), (np.arange(1, 9) * 1., np.arange(8) * 1.), (0, 1)))
add('waves.k2w', lambda rng: (lambda k: wdr.k2w(k, h=20.), (np.arange(1, 9) * 1.,), (0,)))
add('gauss.cdfnorm2d', lambda rng: (lambda a, b: wg.cdfnorm2d(a, b, 0.3), (np.arange(-3, 4) * 1., np.arange(-3, 4) * 1.), (0, 1)))
add('gauss.prbnormndpc', lambda rng: (lambda r, a, b: wg.prbnormndpc(r, a, b), (rng.uniform(0, 0.9, 4), np.full(4, -2.), np.arange(1, 5) * 1.), (1, 2)))
add('gauss.prbnormtndpc', lambda rng: (lambda r, a, b: wg.prbnormtndpc(r, a, b), (rng.uniform(0, 0.9, 4), np.full(4, -2.), np.arange(1, 5) * 1.), (1, 2)))


def _rind(rng):
    n = 4
    sc = np.eye(n) + 0.4
    e = lambda s, m, a, b: wg.Rind(seed=5)(s, m, a, b)[0]
    return e, (sc, np.zeros(n), np.full((1, n), -1.5), np.full((1, n), 2.)), ()


add('gauss.rind', _rind)
add('transform.hermite', lambda rng: (lambda x: (lambda g: (g.dat2gauss(x), g.gauss2dat(x)))(wtm.TrHermite(mean=1., sigma=3., skew=0.2, kurt=3.2)), (np.arange(-4, 6) * 1.,), (0,)))
add('transform.ochi', lambda rng: (lambda x: (lambda g: (g.dat2gauss(x), g.gauss2dat(x)))(wtm.TrOchi(mean=1., sigma=3., skew=0.2)), (np.arange(-4, 6) * 1.,), (0,)))
add('transform.data', lambda rng: (lambda y, x, v: TrData(y, x).dat2gauss(v), (np.arange(-9, 10) * 1., np.arange(-9, 10) * 2., np.arange(-4, 6) * 1.), (2,)))
add('transform.dist2gauss', lambda rng: (lambda g: g.dist2gauss(), (wtm.TrHermite(mean=1., sigma=3., skew=0.2, kurt=3.2),), ()))

# objects: every method of a time series, its turning points and cycles, of spectra and covariances
for _m, _f in dict(tocov=lambda s: (lambda r: (r.data, r.args))(s.tocovdata(lag=20)), tospec=lambda s: (lambda r: (r.data, r.args))(s.tospecdata(L=30)),
                   tospec_psd=lambda s: (lambda r: (r.data, r.args))(s.tospecdata(L=30, method='psd')), trdata=lambda s: vars(s.trdata()[0])['data'],
                   tp=lambda s: (lambda r: (r.data, r.args))(s.turning_points()), tp_h=lambda s: (lambda r: (r.data, r.args))(s.turning_points(h=0.3, wavetype='Mw')),
                   tc=lambda s: (lambda r: (r.data, r.args))(s.trough_crest()), parameters=lambda s: s.wave_parameters(rate=4),
                   steepness=lambda s: s.wave_height_steepness(rate=2), periods=lambda s: s.wave_periods(vh=0., pdef='u2u'),
                   filtered=lambda s: (lambda r: (r.data, r.args))(s.turning_points().rainflow_filter(h=0.5)),
                   pairs=lambda s: (lambda r: (r.data, r.args))(s.turning_points().cycle_pairs()), astm=lambda s: s.turning_points().cycle_astm(),
                   damage=lambda s: s.turning_points().cycle_pairs().damage([2, 3.]), crossings=lambda s: (lambda r: (r.data, r.args))(s.turning_points().cycle_pairs().level_crossings()),
                   reconstruct=lambda s: None).items():
    if _m != 'reconstruct':
        add('series.' + _m, lambda rng, _f=_f: (_f, (ts(rng),), ()))


def _tp(rng):
    return ts(rng).turning_points()


def _cp(rng):
    return _tp(rng).cycle_pairs()


add('tp.pairs', lambda rng: (lambda s: (lambda r: (r.data, r.args))(s.cycle_pairs(h=0.4)), (_tp(rng),), ()))
add('tp.filter', lambda rng: (lambda s: (lambda r: (r.data, r.args))(s.rainflow_filter(h=0.4)), (_tp(rng),), ()))
add('tp.astm', lambda rng: (lambda s: s.cycle_astm(), (_tp(rng),), ()))
add('cp.all', lambda rng: (lambda s: (s.amplitudes(), s.damage([1., 3]), s.get_minima_and_maxima(), s.level_crossings().data, s.level_crossings(intensity=True).data), (_cp(rng),), ()))
add('cp.matrix', lambda rng: (lambda s: s.cycle_matrix(param=(-2, 2, 20)).data, (_cp(rng),), ()))
add('lc.stats', lambda rng: (lambda s: (s.estimate_mean_and_stdev() if hasattr(s, 'estimate_mean_and_stdev') else 0, s.trdata()[0].data), (_cp(rng).level_crossings(),), ()))
add('lc.extrapolate', lambda rng: (lambda s: s.extrapolate(-1., 1., dist='rayleigh').data, (_cp(rng).level_crossings(),), ()))

for _m, _f in dict(cov=lambda s: (lambda r: (r.data, r.args))(s.tocovdata(nr=2)), covmat=lambda s: s.tocov_matrix(2, 32, s.sampling_period()),
                   moment=lambda s: s.moment(nr=4), character=lambda s: s.characteristic(list(range(1, 15))), bandwidth=lambda s: s.bandwidth([0, 1, 2, 3]),
                   sim=lambda s: s.sim(64, iseed=3), sim_dt=lambda s: s.sim(64, dt=0.3, iseed=3), sim_exact=lambda s: s.sim(64, iseed=3, method='exact'),
                   sim_nl=lambda s: s.sim_nl(64, iseed=3), stats=lambda s: s.stats_nl(moments='mvsk'), norm=lambda s: (lambda r: (r.data, r.args))(s.to_specnorm()),
                   interp=lambda s: (lambda r: (r.data, r.args))(s.interp(0.4)), tpdf=lambda s: s.to_t_pdf(u=0.1, paramt=(0, 10, 11), speed=9, seed=7).data,
                   mmpdf=lambda s: s.to_mm_pdf(paramt=[0, 8, 7], paramu=[-5, 5, 7]).data, nyquist=lambda s: (s.nyquist_freq(), s.sampling_period())).items():
    add('spectrum.' + _m, lambda rng, _f=_f: (_f, (spec(rng),), ()))


def _spec2(rng):
    S1 = wsm.Jonswap(Hm0=4., Tp=8.).tospecdata(np.linspace(0, 3, 65))
    return wsm.Spreading('cos2s', s_a=float(rng.uniform(2, 9))).tospecdata2d(S1, nt=32)


add('spectrum2.moment', lambda rng: (lambda s: s.moment(2, 'xt'), (_spec2(rng),), ()))
add('spectrum.spread', lambda rng: (lambda s: wsm.Spreading('cos2s').tospecdata2d(s, nt=16).data, (spec(rng, 33),), ()))
add('spectrum.model', lambda rng: (lambda w: wsm.Jonswap(Hm0=5., Tp=9.)(w), (np.arange(1, 9) / 4.,), (0,)))
add('spectrum.torset', lambda rng: (lambda w: wsm.Torsethaugen(Hm0=5., Tp=9.)(w), (np.arange(1, 9) / 4.,), (0,)))


def _cov(rng):
    return spec(rng).tocovdata(nr=2)


add('cov.spec', lambda rng: (lambda c: (lambda r: (r.data, r.args))(c.tospecdata()), (_cov(rng),), ()))
add('cov.sim', lambda rng: (lambda c: c.sim(ns=64, iseed=2), (_cov(rng),), ()))
def _nugget(rng):
    c = _cov(rng)
    c.data = c.data * 1.
    c.data[0] *= 1.1                                              # well-conditioned: simcond refuses near singular covariances
    return c


add('cov.simcond', lambda rng: (lambda c, x: c.simcond(x, i_unknown=np.arange(3, 9)), (_nugget(rng), rng.normal(size=40)), ()))
add('cov.rndnormnd', lambda rng: (lambda m, s: wcov.rndnormnd(m, s, 3), (np.arange(3) * 1., np.eye(3) + 0.2), ()))

add('plotdata.eval', lambda rng: (lambda d: (d.eval_points(np.arange(3, 9) * 1.), d.to_cdf().data, d.integrate(2., 9.)), (PlotData(rng.rand(20), np.arange(20) * 1.),), ()))


# -- execution -----------------------------------------------------------------------------------------------------------------
def execute(fun, args):
    np.random.seed(12345)
    sys.stdout.flush()
    keep, null = os.dup(1), os.open(os.devnull, os.O_WRONLY)      # native code prints
    os.dup2(null, 1)
    try:
        return _execute(fun, args)
    finally:
        os.dup2(keep, 1)
        os.close(keep)
        os.close(null)


def _execute(fun, args):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return fun(*args)


def numbers(o, depth=0):
    """A flat list of the numeric content of a result."""
    if isinstance(o, np.ndarray) and o.dtype != object or np.isscalar(o) and not isinstance(o, str):
        return [np.atleast_1d(np.asarray(o))]
    if isinstance(o, dict):
        return [a for k in sorted(o, key=str) for a in numbers(o[k], depth + 1)] if depth < 5 else []
    if isinstance(o, (list, tuple)) or isinstance(o, np.ndarray):
        return [a for v in o for a in numbers(v, depth + 1)] if depth < 5 else []
    if isinstance(o, PlotData):
        return numbers([o.data, o.args], depth + 1)
    return []


def same(ctx, a, b, key, msg, exact=True):
    na, nb = numbers(a), numbers(b)
    if not ctx.ok(len(na) == len(nb) and len(na) > 0, key, '%s: %d and %d arrays' % (msg, len(na), len(nb))):
        return
    for u, v in zip(na, nb):
        if u.shape != v.shape:
            ctx.ok(False, key, '%s: shapes %r and %r' % (msg, u.shape, v.shape))
            return
        if exact:
            ctx.ok(np.array_equal(u, v) or np.array_equal(np.nan_to_num(u * 1.), np.nan_to_num(v * 1.)) and np.array_equal(np.isnan(u * 1.), np.isnan(v * 1.)), key,
                   lambda: '%s: %r and %r' % (msg, u.ravel()[:8], v.ravel()[:8]))
        else:
            s = np.nanmax(np.abs(np.where(np.isfinite(u * 1.), u, 0.))) if u.size else 0.
            ctx.close(v * 1., u * 1., key, 1e-7, 1e-9 * (1e-300 + s), msg)


def variants(rng, x):
    """The same values in other containers."""
    x = np.asarray(x)
    wide = np.full(2 * len(x), -5.)
    wide[::2] = x
    out = [('list', x.tolist()), ('tuple', tuple(x.tolist())), ('strided', wide[::2]), ('reversed view', x[::-1].copy()[::-1])]
    if x.dtype.kind == 'f' and np.all(x == np.round(x)):
        out += [('integers', x.astype(int)), ('list of integers', [int(v) for v in x]), ('32 bit integers', x.astype(np.int32))]
    return out


NAMES = sorted(REG)


@family(shards=4)
def calls(ctx):
    """arguments unchanged, results repeatable after their destruction and after other calls."""
    rng = ctx.rng
    mine = [n for k, n in enumerate(NAMES) if k % (4 if ctx.tier == 'quick' else 4) == ctx.shard % 4]
    pending = []
    for _ in ctx.loop(1, 12):
        order = [mine[k] for k in rng.permutation(len(mine))]
        for name in order:
            seed = int(rng.randint(1 << 30))
            with ctx.case(call=name, seed=seed, _key='pure:' + name):
                fun, args, _pos = REG[name](np.random.RandomState(seed))[:3]
                before = fingerprint(args)
                first = execute(fun, args)
                after = fingerprint(args)
                ctx.ok(before == after, 'argument:' + name, lambda: '%s changed its arguments at %r' % (name, difference(before, after)))
                ctx.count('calls')
                keep = copy.deepcopy([np.array(a) for a in numbers(first)])
                ctx.count('results overwritten', poison(first, args))
                second = execute(fun, args)
                same(ctx, keep, numbers(second), 'repeat:' + name, name + ' called again')
                pending.append((name, seed, keep))
        # in another order, after all the other calls
        for k in rng.permutation(len(pending)):
            name, seed, keep = pending[k]
            with ctx.case(call=name, seed=seed, later=True, _key='later:' + name):
                fun, args, _pos = REG[name](np.random.RandomState(seed))[:3]
                same(ctx, keep, numbers(execute(fun, args)), 'history:' + name, name + ' after %d other calls' % len(pending))
                ctx.count('calls after a history')
        pending = []


@family(shards=4)
def representations(ctx):
    rng = ctx.rng
    names = [n for n in NAMES if REG[n](np.random.RandomState(0))[2]]
    mine = [n for k, n in enumerate(names) if k % 4 == ctx.shard % 4]
    for _ in ctx.loop(1, 12):
        for name in mine:
            seed = int(rng.randint(1 << 30))
            fun, args, pos = REG[name](np.random.RandomState(seed))[:3]
            with ctx.case(call=name, seed=seed, _key='represent:' + name):
                want = copy.deepcopy([np.array(a) for a in numbers(execute(fun, args))])
                for p in pos:
                    vs = variants(rng, args[p])
                    for what, v in (vs if ctx.tier != 'quick' or len(pos) == 1 else [vs[k] for k in rng.permutation(len(vs))[:5]]):
                        with ctx.case(call=name, seed=seed, position=p, given_as=what, _key='represent:%s:%s' % (name, what.split()[-1])):
                            a = list(args)
                            a[p] = v
                            got = execute(fun, a)
                            same(ctx, want, numbers(got), 'represent:' + name, '%s with argument %d as %s' % (name, p, what), exact=False)
                            ctx.count('representations compared')


def hostile(rng, x):
    """Other values at the same place: missing, infinite, tied, constant, unordered, short."""
    x = np.array(x)
    out = [('tied', np.round(x * 1., 1).astype(x.dtype)), ('constant', np.full_like(x, x[0])), ('shuffled', x[rng.permutation(len(x))]),
           ('zeros', x * 0), ('two', x[:2].copy()), ('one', x[:1].copy()), ('empty', x[:0].copy())]
    if x.dtype.kind == 'f':
        for what, v in (('missing', np.nan), ('infinite', np.inf)):
            y = x.copy()
            y[rng.randint(len(y), size=max(1, len(y) // 10))] = v
            out.append((what, y))
        out.append(('huge', x * 1e150))
    return out


class TooLong(Exception):
    pass


def alarmed(*_):
    raise TooLong()


@family(shards=4)
def unusual(ctx):
    """whatever happens to a call with unusual values (a result, a warning, an exception), its arguments are as before."""
    rng = ctx.rng
    names = [n for n in NAMES if REG[n](np.random.RandomState(0))[2]]
    mine = [n for k, n in enumerate(names) if k % 4 == ctx.shard % 4]
    signals.signal(signals.SIGALRM, alarmed)
    for _ in ctx.loop(1, 6):
        for name in mine:
            seed = int(rng.randint(1 << 30))
            fun, args, pos = REG[name](np.random.RandomState(seed))[:3]
            for p in pos:
                for what, v in hostile(rng, args[p]):
                    with ctx.case(call=name, seed=seed, position=p, values=what, _key='unusual:%s:%s' % (name, what)):
                        a = list(copy.deepcopy(args))
                        a[p] = v
                        before = fingerprint(a)
                        signals.alarm(20)
                        try:
                            execute(fun, a)
                            ctx.count('results')
                        except TooLong:
                            ctx.count('given up')
                        except Exception:
                            ctx.count('refusals')
                        finally:
                            signals.alarm(0)
                        after = fingerprint(a)
                        # known (pinned by a doctest): smoothn fills the missing values of its argument
                        key = 'unusual:smoothn_fills_missing' if name.startswith('sg.smoothn') and what in ('missing', 'infinite') else 'unusual:' + name
                        ctx.ok(before == after, key, lambda: '%s with %s values changed its arguments at %r' % (name, what, difference(before, after)))


@family()
def objects(ctx):
    """library calls on a copy, and rebinding its attributes, leave the original alone; instances do not share state."""
    rng = ctx.rng
    makers = dict(spectrum=spec, covariance=_cov, series=ts, turning=_tp, pairs=_cp, crossings=lambda r: _cp(r).level_crossings(),
                  plotdata=lambda r: PlotData(r.rand(9), np.arange(9.), title='a'), spectrum2=_spec2)
    for _ in ctx.loop(3, 30):
        for name, make in makers.items():
            with ctx.case(object=name):
                o = make(rng)
                before = fingerprint(o)
                c = o.copy()
                ctx.ok(type(c) is type(o) and fingerprint(c) == before, 'copy:equal', lambda: '%s: %r' % (name, difference(fingerprint(c), before)))
                for m, a in (('normalize', ()), ('resample', (0.4,)), ('setlabels', ())):
                    if hasattr(c, m) and name in ('spectrum', 'covariance'):
                        getattr(c, m)(*a)
                        ctx.ok(fingerprint(o) == before or m == 'setlabels', 'copy:method', lambda: '%s.copy().%s changes the original at %r' % (name, m, difference(fingerprint(o), before)))
                        before = fingerprint(o)
                for k in list(vars(c)):
                    setattr(c, k, None)
                ctx.ok(fingerprint(o) == before, 'copy:rebound', lambda: '%s: %r' % (name, difference(fingerprint(o), before)))
        with ctx.case(instances=True):
            a, b = PlotData(np.arange(3.), np.arange(3.)), PlotData(np.arange(3.), np.arange(3.))
            a.plot_kwds['color'] = 'r'
            a.plot_args.append('k')
            ctx.ok('color' not in b.plot_kwds and 'k' not in b.plot_args, 'instances:plotdata')
            j1, j2 = wsm.Jonswap(Hm0=5., Tp=9.), wsm.Jonswap(Hm0=2., Tp=5.)
            w = np.linspace(0.1, 3, 9)
            v = j1(w).copy()
            j2(w)
            ctx.equal(j1(w), v, 'instances:models')
            k1 = wk.KDE(signal(rng), hs=5.)
            v = np.copy(k1(np.arange(4.)))
            wk.KDE(signal(rng), hs=50.)(np.arange(4.))
            ctx.equal(k1(np.arange(4.)), v, 'instances:kde')
            n = 3
            sc, m = np.eye(n) + 0.5, np.zeros(n)
            lo, up = np.full((1, n), -1.), np.full((1, n), 1.5)
            r1 = wg.Rind(method=3, seed=3)
            p1 = r1(sc, m, lo, up)[0]
            r2 = wg.Rind(method=1, seed=3)
            r2(sc, m, lo, up)
            p2 = r1(sc, m, lo, up)[0]
            ctx.equal(p2, p1, 'instances:rind')
            d0 = wg.Rind()
            q1 = d0(sc, m, lo, up)[0]
            ctx.close(q1, p1, 'instances:rind_default', 0, 5e-3)
