"""Workload for the instrumented extensions; runs in a process of its own.

python -m vlib.native_work BUILD_DIR GROUP SEED SHARD START STOP OUT
Every case draws from a generator of its own, is announced in OUT before it runs and its results are written after it.
"""
import importlib.abc
import importlib.util
import json
import os
import signal as signal_
import sys
import time
import zlib

import numpy as np

BATCH = 20
NATIVE = ('c_library', 'mvn', 'mvnprdmod', 'cov2mod', 'rindmod')


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, folder):
        self.folder = folder

    def find_spec(self, name, path, target=None):
        p = name.split('.')
        if len(p) == 2 and p[0] == 'wafo' and p[1] in NATIVE:
            return importlib.util.spec_from_file_location(name, os.path.join(self.folder, p[1] + '.so'))
        return None


def generator(group, seed, shard, i):
    return np.random.RandomState((zlib.crc32(('%s/%d/%d' % (group, shard, i)).encode()) + 1000003 * seed) % 2 ** 32)


def signal(rng, n):
    kind = rng.randint(6)
    if kind == 0:
        return rng.normal(size=n)
    if kind == 1:
        return rng.randint(-2, 3, n).astype(float)
    if kind == 2:
        return np.zeros(n)
    if kind == 3:
        return np.cumsum(rng.normal(size=n))
    if kind == 4:       # growing oscillation: nothing closes
        return np.where(np.arange(n) % 2, 1., -1.) * np.arange(1, n + 1)
    x = np.where(np.arange(n) % 2, 1., -1.) * np.arange(n, 0, -1.)     # decaying oscillation
    return x


def crossings(rng, desc):
    import wafo.misc as wm
    from wafo import c_library
    n = int(rng.choice([0, 1, 2, 3, 4, 5, 7, 8, 33, 200, 1001]))
    x = signal(rng, n)
    v = float(rng.choice([0., 1., rng.normal()]))
    h = float(rng.choice([0., 1., 0.5, -1.]))
    desc.update(n=n, v=v, h=h, head=x[:8].tolist())
    r = [c_library.findcross(x, v), c_library.findrfc(x, h)]
    if n > 1:
        r.append(wm.findcross(x, v))
        i = wm.findextrema(x)
        tp = x[i]
        r.append(c_library.findrfc(tp, h))
        r.append(c_library.findrfc(-tp, h))
        for start in (0, 1):
            for stop in (None, -1):
                r.append(c_library.findrfc(tp[start:stop].copy(), h))
        if n > 3:
            for meth in ('clib', None):
                r.append(wm.findrfc(tp, h, method=meth or 0))
    return r


def rainflow(rng, desc):
    from wafo import c_library
    import wafo.misc as wm
    n = int(rng.choice([0, 1, 2, 3, 4, 5, 8, 50, 501, 16384, 16385, 20000, 40000]))
    x = signal(rng, n)
    if n >= 16384:
        x = np.where(np.arange(n) % 2, 1., -1.) * np.arange(n, 0, -1.)
    desc.update(n=n, head=x[:8].tolist())
    t = np.cumsum(rng.uniform(0.1, 1, n))
    r = [c_library.findrfc3_astm(x), c_library.findrfc5_astm(x, t)]
    return r


def second_order(rng, desc):
    from wafo import c_library
    if rng.randint(3) == 0:
        import wafo.spectrum.models as sm
        S = sm.Jonswap(Hm0=float(rng.uniform(1, 7)), Tp=float(rng.uniform(6, 14))).tospecdata()
        S.h = float(rng.choice([np.inf, 20., 40.]))
        ns, cases = int(rng.choice([100, 101, 256, 257])), int(rng.choice([1, 2, 5]))
        method = rng.choice(['random', 'deterministic', 'apSdeterministic'])
        fnlimit = float(rng.choice([1.4142, 0.8]))
        desc.update(api='sim_nl', ns=ns, cases=cases, h=S.h, method=str(method), fnlimit=fnlimit)
        np.random.seed(int(rng.randint(1 << 30)))
        return [getattr(v, 'data', v) for v in S.sim_nl(ns=ns, cases=cases, method=str(method), fnlimit=fnlimit)]
    m = int(rng.choice([1, 2, 3, 7]))
    n = int(rng.choice([2, 3, 4, 5, 8, 9, 64, 65]))
    nmax = int(rng.randint(1, (n + 1) // 2 + 1))
    nmin = int(rng.randint(1, nmax + 1))
    if rng.randint(2):
        nmin, nmax = 1, (n + 1) // 2
    h = float(rng.choice([20., 200., 1e5]))
    desc.update(m=m, n=n, nmin=nmin, nmax=nmax, h=h)
    w = np.linspace(0.05, 2, n // 2 + 1)
    kw = w ** 2 / 9.81
    rA, iA = rng.normal(size=(2, n * m))
    return list(c_library.disufq(rA, iA, w, kw, h, 9.81, nmin, nmax, m, n)) + list(
        c_library.disufq2(rA, iA, w, kw, h, 9.81, nmin, nmax, m, n))


def correlation(rng, n):
    kind = rng.randint(4)
    if kind == 0:
        r = rng.uniform(-0.9, 0.9, n)
        C = np.outer(r, r)
        np.fill_diagonal(C, 1)
    elif kind == 1:
        C = np.eye(n)
    elif kind == 2:
        C = np.exp(-np.abs(np.subtract.outer(np.arange(n), np.arange(n))) * rng.uniform(0.05, 2))
    else:
        A = rng.normal(size=(n, max(1, n - int(rng.randint(2)))))
        C = A.dot(A.T)
        d = np.sqrt(np.diag(C))
        C = C / np.outer(d, d)
    return C


def limits(rng, n):
    a = np.where(rng.uniform(size=n) < 0.3, -np.inf, rng.normal(size=n) - 1)
    b = np.where(rng.uniform(size=n) < 0.3, np.inf, np.where(np.isfinite(a), a, -1) + rng.exponential(size=n) * 2)
    return a, b


def genz(rng, desc):
    from wafo import mvn
    n = int(rng.choice([1, 2, 3, 4, 8, 20, 60, 500, 501], p=[.15, .15, .2, .2, .1, .1, .04, .03, .03]))
    C = correlation(rng, n)
    a, b = limits(rng, n)
    infin = 2 - np.isinf(b).astype(int) - 2 * np.isinf(a)
    maxpts = 1000 if n < 100 else 200
    desc.update(n=n, a=a[:6].tolist(), b=b[:6].tolist())
    ao, bo = np.where(np.isinf(a), 0, a), np.where(np.isinf(b), 0, b)
    c = C[np.tril_indices(n, -1)]
    out = []
    if n > 1:
        mvn.mvndst(ao, bo, infin, c, maxpts)
    k = int(rng.choice([1, 2, 3]))
    if n < 100:
        mvn.mvnun(a, b, rng.normal(size=(n, k)), C * rng.uniform(0.5, 2), maxpts)
    return out          # the routine's own random shifts carry on from call to call


def product(rng, desc):
    import wafo.gaussian as wg
    n = int(rng.choice([1, 2, 3, 5, 8, 20, 99, 100, 101, 130], p=[.15, .15, .15, .15, .1, .1, .05, .05, .05, .05]))
    rho = rng.uniform(-0.95, 0.95, n) if rng.randint(3) else np.full(n, rng.choice([0., 0.3, 0.9]))
    a, b = limits(rng, n)
    if rng.randint(5) == 0:
        k = rng.randint(n)
        a[k], b[k] = -np.inf, np.inf
    if rng.randint(8) == 0:
        a[:], b[:] = -np.inf, np.inf
    if rng.randint(8) == 0:
        rho[rng.randint(n)] = rng.choice([1., -1.])
    if rng.randint(8) == 0:
        k = rng.randint(n)
        a[k] = b[k]
    df = int(rng.choice([0, 1, 4, 150, 151, 400]))
    simpson, brk = bool(rng.randint(2)), bool(rng.randint(2))
    eps = float(rng.choice([1e-3, 1e-5, 1e-8]))
    ierc = int(rng.randint(2))
    hnc = float(rng.choice([0.24, 0., 1.]))
    desc.update(n=n, rho=rho[:6].tolist(), a=a[:6].tolist(), b=b[:6].tolist(), df=df, simpson=simpson, breakpoints=brk, eps=eps, ierc=ierc, hnc=hnc)
    r = [wg.prbnormndpc(rho, a, b, abserr=eps, relerr=eps, usesimpson=simpson, usebreakpoints=brk)]
    if (n <= 20 or df <= 0) and (n <= 20 or eps > 1e-7):
        r.append(wg.prbnormtndpc(rho, a, b, df=df, abseps=eps, ierc=ierc, hnc=hnc))
    elif n > 100:
        r.append(wg.prbnormtndpc(rho, a, b, df=df, abseps=eps, ierc=ierc, hnc=hnc))
    return r


def expectations(rng, desc):
    import wafo.gaussian as wg
    method = int(rng.choice([1, 2, 3, 4, 5, 6, 7]))
    nt, nd, nc = int(rng.choice([0, 1, 2, 4, 9])), int(rng.choice([0, 0, 1, 2])), int(rng.choice([0, 0, 1, 2]))
    if nt + nd == 0:
        nt = 1
    n = nt + nd + nc
    C = correlation(rng, n)
    s = rng.uniform(0.3, 2, n)
    C = C * np.outer(s, s)
    m = rng.normal(size=n) * 0.3
    nx = int(rng.choice([1, 2, 5]))
    xc = rng.normal(size=(nc, nx)) * 0.5 if nc else None
    ntd = nt + nd
    kind = rng.randint(3)
    if kind == 0:
        ind = None
        a, b = limits(rng, ntd)
        a, b = a * 0.7, b * 0.7
    elif kind == 1:
        ind = np.r_[-1, ntd - 1]
        a, b = np.array([-np.inf]), np.array([float(rng.normal())])
    else:
        cut = int(rng.randint(0, ntd))
        ind = np.unique(np.r_[-1, cut, ntd - 1])
        nb = len(ind) - 1
        a, b = limits(rng, nb)
    mb = 1
    if nc and rng.randint(3) == 0:      # barriers that are linear in the values conditioned on
        mb = nc + 1
        a = np.vstack([a] + [rng.normal(size=len(np.atleast_1d(a))) * 0.1 for _ in range(nc)])
        b = np.vstack([b] + [rng.normal(size=len(np.atleast_1d(b))) * 0.1 for _ in range(nc)])
    speed = rng.choice([None, 1, 3, 5, 7, 9, 11, 13])
    desc.update(method=method, nt=nt, nd=nd, nc=nc, nx=nx, kind=int(kind), mb=mb, speed=speed)
    opt = {} if speed is None else dict(speed=int(speed))
    R = wg.Rind(method=method, seed=int(rng.randint(1, 1 << 30)), maxpts=4000, nc1c2=int(rng.choice([1, 2, 3])), **opt)
    R.maxpts = 3000
    return list(R(C, m, a, b, ind, xc, nt))


def minmax(rng, desc):
    from wafo import cov2mod
    import wafo.spectrum.models as sm
    nt, nh = int(rng.choice([5, 6, 11, 21, 40])), int(rng.choice([1, 2, 3, 5, 9, 12]))
    big = rng.randint(12)
    nit, iac, isq = int(rng.choice([0, 1, 2, 3])), int(rng.randint(2)), int(rng.randint(2))
    if nit > 2:
        nt, nh = 6, 3
    if big == 0:        # at and past the room the routine has
        nt, nh, nit = int(rng.choice([200, 201, 230])), 2, 0
    elif big == 1:
        nt, nh, nit = 6, int(rng.choice([200, 201, 260])), 0
    hm0, tp = float(rng.uniform(1, 8)), float(rng.uniform(6, 14))
    desc.update(nt=nt, nh=nh, nit=nit, iac=iac, isq=isq, Hm0=hm0, Tp=tp)
    S = sm.Jonswap(Hm0=hm0, Tp=tp).tospecdata()
    if nh > 8 and big > 1 and rng.randint(2):
        m0 = hm0 / 4
        mm = S.to_mm_pdf(paramt=[0, float(rng.uniform(5, 15)), nt], paramu=[-4 * m0, 4 * m0, nh], nit=nit, IAC=iac, ISQ=isq)
        return [mm.data]
    S.normalize()
    t = np.linspace(0, float(rng.uniform(3, 8)), nt)
    R = S.tocov_matrix(4, nt - 1, t[1])
    h = np.linspace(-3, 3, nh)
    g = np.linspace(-6, 6, int(rng.choice([2, 3, 100])))
    cov2mod.initinteg(5e-5, 1e-6, 1e-5, 4.5, iac, isq)
    return [cov2mod.cov2mmpdfreg(t, R, h, np.linspace(-3, 3, nh + 1), g, g * 1.1, nit)]


GROUPS = dict(crossings=crossings, rainflow=rainflow, second_order=second_order, genz=genz, product=product,
              expectations=expectations, minmax=minmax)


def flat(r, out):
    if isinstance(r, (list, tuple)):
        for v in r:
            flat(v, out)
    else:
        out.append(np.asarray(r, dtype=float).ravel().tolist())
    return out


def main():
    t0 = time.time()
    folder, group, seed, shard, start, stop, outfile = sys.argv[1:8]
    seed, shard, start, stop = int(seed), int(shard), int(start), int(stop)
    sys.meta_path.insert(0, Finder(folder))
    np.seterr(all='ignore')
    import warnings
    warnings.simplefilter('ignore')
    import wafo
    assert wafo.__file__.startswith('/repo/src/wafo'), wafo.__file__
    from wafo import c_library
    assert c_library.__file__.startswith(folder), c_library.__file__
    __import__('wafo.misc'), __import__('wafo.gaussian'), __import__('wafo.spectrum.models')
    budget = float(os.environ.get('VBUDGET', '1e9'))
    limit = int(os.environ.get('VCASELIMIT', '120'))
    i, errfile = start, outfile + '.err'
    while i < stop and time.time() - t0 < budget:
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:        # one process for a batch of cases, and a new one after a case that kills it
            fd = os.open(errfile, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
            os.dup2(fd, 2)
            os.dup2(fd, 1)
            with open(outfile, 'a') as f:
                for k in range(i, min(i + BATCH, stop)):
                    if time.time() - t0 > budget:
                        break
                    os.ftruncate(fd, 0)
                    signal_.alarm(limit)
                    one(f, group, seed, shard, k)
            os._exit(0)
        status = os.waitpid(pid, 0)[1]
        begun, ended = i, set()
        with open(outfile) as f:
            for line in f:
                r = line[:40].split(',')
                if r[0] == '["begin"':
                    begun = int(r[1].strip(' ]\n'))
                elif r[0] == '["end"':
                    ended.add(int(r[1]))
        if begun not in ended:
            with open(errfile, errors='replace') as f:
                text = f.read()
            with open(outfile, 'a') as f:
                f.write(json.dumps(['died', begun, status, text[-20000:]]) + '\n')
        elif status:        # reported after the last case of the batch
            with open(errfile, errors='replace') as f:
                text = f.read()
            with open(outfile, 'a') as f:
                f.write(json.dumps(['late', begun, status, text[-20000:]]) + '\n')
        i = begun + 1


def one(f, group, seed, shard, i):
    f.write(json.dumps(['begin', i]) + '\n')
    f.flush()
    desc = Recorder(f, i)
    err, r = None, None
    try:
        r = flat(GROUPS[group](generator(group, seed, shard, i), desc), [])
    except Exception as e:      # a refusal is fine: it is memory that is watched here
        err = '%s: %s' % (type(e).__name__, str(e)[:200])
    f.write(json.dumps(['end', i, r, err]) + '\n')
    f.flush()


class Recorder(dict):
    def __init__(self, f, i):
        self.f, self.i = f, i

    def update(self, **kw):
        dict.update(self, **kw)
        self.f.write(json.dumps(['case', self.i, {k: (v if isinstance(v, (int, float, str, list, type(None))) else repr(v)) for k, v in kw.items()}]) + '\n')
        self.f.flush()


if __name__ == '__main__':
    main()
