"""Runtime-monitoring harness.

A check module (checks/cNN.py) registers *families* of workloads.  Each family is executed in its own forked process
against the real code under /repo/src/wafo; the code is observed through

* oracle monitors (Ctx.ok / close / equal ...) evaluated on what the real code returned, per case,
* a line monitor (sys.monitoring) that records which lines of the anchored files were executed,
* a purity monitor (Ctx.frozen) that compares argument snapshots before and after a call,
* a process monitor: a workload that dies from a signal or never ends is itself a violation.

Everything is seeded by VERIF_SEED, the family's name and the shard number, with a fixed number of cases per tier.
"""
import contextlib
import faulthandler
import hashlib
import json
import math
import os
import signal
import sys
import tempfile
import time
import traceback
import warnings
import zlib

import numpy as np

REPO_SRC = '/repo/src/wafo/'


class Skip(Exception):
    """Raised inside a case that turns out to be outside the property's domain (counted, not judged)."""


def jsonable(o, depth=0):
    if depth > 6:
        return repr(o)[:200]
    if isinstance(o, dict):
        return {str(k): jsonable(v, depth + 1) for k, v in list(o.items())[:60]}
    if isinstance(o, (list, tuple)):
        if len(o) > 400:
            return [jsonable(v, depth + 1) for v in o[:60]] + ['... %d entries in all' % len(o)]
        return [jsonable(v, depth + 1) for v in o]
    if isinstance(o, np.ndarray):
        if o.size > 400:
            return {'shape': list(o.shape), 'dtype': str(o.dtype), 'sha1': hashlib.sha1(np.ascontiguousarray(o).tobytes()).hexdigest(),
                    'head': jsonable(o.ravel()[:40].tolist())}
        return jsonable(o.tolist(), depth + 1)
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.floating, float)):
        f = float(o)
        return f if math.isfinite(f) else repr(f)
    if isinstance(o, (np.bool_, bool)):
        return bool(o)
    if isinstance(o, (int, str)) or o is None:
        return o
    return repr(o)[:300]


def _format_exc():
    try:
        return traceback.format_exc()
    except Exception:            # formatting evaluates attributes of the code under observation
        return repr(sys.exc_info()[1])


def _sig(o):
    return hashlib.sha1(json.dumps(jsonable(o), sort_keys=True).encode()).hexdigest()[:16]


class _Frozen:
    def __init__(self, ctx, key, arrays):
        self.ctx, self.key, self.arrays = ctx, key, arrays

    def __enter__(self):
        self.before = [np.array(a, copy=True) for a in self.arrays]
        return self

    def __exit__(self, et, ev, tb):
        if et is None:
            for i, (a, b) in enumerate(zip(self.arrays, self.before)):
                same = a.shape == b.shape and a.dtype == b.dtype and np.array_equal(
                    np.ascontiguousarray(a).view(np.uint8) if a.ndim else np.array(a).reshape(1).view(np.uint8),
                    np.ascontiguousarray(b).view(np.uint8) if b.ndim else np.array(b).reshape(1).view(np.uint8))
                self.ctx.ok(same, self.key, 'argument %d was changed by the call: %r -> %r' % (i, b, a))
        return False


class Ctx:
    MAXV = 40

    def __init__(self, prop, family, shard, seed, tier):
        self.prop, self.family, self.shard, self.seed, self.tier = prop, family, shard, seed, tier
        self.rng = np.random.RandomState(
            (zlib.crc32(('%s/%s/%d' % (prop, family, shard)).encode()) + 1000003 * seed) % (2 ** 32))
        self.evaluations = 0
        self.sigs = set()
        self.observations = 0
        self.skipped = 0
        self.events = {}
        self.violations = {}
        self.nviol = 0
        self.samples = []
        self.desc = None
        self.truncated = False
        self.t0 = time.time()
        self.budget = 300. if tier == 'quick' else 1500.

    # -- workload size ---------------------------------------------------------------------------------------------
    def n(self, quick, thorough=None):
        """Number of cases: `quick` in the quick tier, 15 times as many (or `thorough`) in the thorough tier."""
        if self.tier == 'quick':
            return int(quick)
        return int(thorough if thorough is not None else 15 * quick)

    def loop(self, quick, thorough=None):
        for i in range(self.n(quick, thorough)):
            if time.time() - self.t0 > self.budget:
                self.truncated = True
                return
            yield i

    # -- cases -----------------------------------------------------------------------------------------------------
    @contextlib.contextmanager
    def case(self, nontrivial=True, **desc):
        self.desc = desc
        self.evaluations += 1
        try:
            yield self
        except Skip:
            self.skipped += 1
            self.desc = None
            return
        except (MemoryError, KeyboardInterrupt):
            raise
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            where = [f for f in tb if f.filename.startswith(REPO_SRC)]
            f = where[-1] if where else tb[-1]
            key = desc.get('_key', self.family) + ':exception:%s' % type(e).__name__
            self._viol(key, 'unexpected %s: %s (in %s:%s)' % (type(e).__name__, e, os.path.basename(f.filename), f.name),
                       _format_exc()[-3000:])
        if nontrivial:
            s = _sig(desc)
            if s not in self.sigs:
                self.sigs.add(s)
                if len(self.samples) < 2:
                    self.samples.append(dict(family=self.family, case=jsonable(desc)))
        self.desc = None

    def count(self, what, k=1):
        self.events[what] = self.events.get(what, 0) + int(k)

    # -- monitors --------------------------------------------------------------------------------------------------
    def _viol(self, key, msg, tb=None):
        self.nviol += 1
        v = self.violations.setdefault(key, dict(key=key, count=0, family=self.family, shard=self.shard))
        v['count'] += 1
        if 'msg' not in v:
            v.update(msg=str(msg)[:3000], case=jsonable(self.desc), case_index=self.evaluations)
            if tb:
                v['traceback'] = tb

    def ok(self, cond, key, msg=''):
        self.observations += 1
        if not bool(np.all(cond)):
            self._viol(key, msg() if callable(msg) else msg)
            return False
        return True

    def equal(self, got, want, key, msg=''):
        self.observations += 1
        g, w = np.asarray(got), np.asarray(want)
        if g.shape != w.shape or not np.array_equal(g, w):
            self._viol(key, '%s got %s, expected %s' % (msg, repr(got)[:800], repr(want)[:800]))
            return False
        return True

    def close(self, got, want, key, rtol=1e-9, atol=0., msg='', shape=True):
        self.observations += 1
        try:
            g, w = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
        except (TypeError, ValueError):
            self._viol(key, '%s got %s, expected %s' % (msg, repr(got)[:800], repr(want)[:800]))
            return False
        if (shape and g.shape != w.shape):
            self._viol(key, '%s shape %s, expected %s' % (msg, g.shape, w.shape))
            return False
        with np.errstate(all='ignore'):
            d = np.abs(g - w)
            lim = np.asarray(atol) + rtol * np.abs(w)
            good = (d <= lim) | ((g == w) & np.isinf(w)) | (np.isnan(g) & np.isnan(w))
        if not np.all(good):
            bad = np.flatnonzero(~np.ravel(np.broadcast_to(good, np.broadcast(g, w).shape)))
            k = bad[0]
            gg, ww = np.ravel(np.broadcast_to(g, np.broadcast(g, w).shape)), np.ravel(np.broadcast_to(w, np.broadcast(g, w).shape))
            self._viol(key, '%s %d of %d values differ; first at %d: got %r, expected %r' % (
                msg, len(bad), gg.size, k, gg[k], ww[k]))
            return False
        return True

    def frozen(self, key, *arrays):
        return _Frozen(self, key, arrays)

    def raises(self, exc, fun, key):
        self.observations += 1
        try:
            r = fun()
        except exc:
            return True
        except Exception as e:
            self._viol(key, 'expected %s, got %r' % (exc, e))
            return False
        self._viol(key, 'expected %s, but the call returned %r' % (exc, r))
        return False

    def result(self):
        return dict(family=self.family, shard=self.shard, evaluations=self.evaluations, sigs=sorted(self.sigs),
                    observations=self.observations, skipped=self.skipped, events=self.events,
                    violations=list(self.violations.values()), nviol=self.nviol, samples=self.samples,
                    truncated=self.truncated, wall_s=round(time.time() - self.t0, 2))


# -- line monitor ------------------------------------------------------------------------------------------------------
class LineMonitor:
    TOOL = 3

    def __init__(self):
        self.lines = {}

    def start(self):
        mon = sys.monitoring
        mon.use_tool_id(self.TOOL, 'vlines')
        mon.register_callback(self.TOOL, mon.events.LINE, self._line)
        mon.set_events(self.TOOL, mon.events.LINE)

    def _line(self, code, line):
        fn = code.co_filename
        if fn.startswith(REPO_SRC):
            self.lines.setdefault(fn[len(REPO_SRC):], set()).add(line)
        return sys.monitoring.DISABLE

    def stop(self):
        sys.monitoring.set_events(self.TOOL, 0)
        sys.monitoring.free_tool_id(self.TOOL)


# -- families ----------------------------------------------------------------------------------------------------------
FAMILIES = []


def family(shards=1, tshards=None, limit=None):
    """Registers a workload family: fun(ctx). `shards` processes in the quick tier, `tshards` in the thorough one."""
    def deco(fun):
        FAMILIES.append(dict(name=fun.__name__, fun=fun, shards=shards, tshards=tshards or max(shards, 4), limit=limit))
        return fun
    return deco


def _child(prop, fam, shard, seed, tier, out):
    faulthandler.enable(open(out + '.fault', 'w'))
    faulthandler.register(signal.SIGUSR1, open(out + '.stack', 'w'), all_threads=True)
    warnings.simplefilter('ignore')
    np.seterr(all='ignore')
    ctx = Ctx(prop, fam['name'], shard, seed, tier)
    lm = LineMonitor()
    lm.start()
    err = None
    try:
        with open(os.devnull, 'w') as dn, contextlib.redirect_stdout(dn):
            fam['fun'](ctx)
    except Exception:
        err = _format_exc()
    lm.stop()
    r = ctx.result()
    r['lines'] = {k: sorted(v) for k, v in lm.lines.items()}
    r['error'] = err
    with open(out + '.tmp', 'w') as f:
        json.dump(r, f)
    os.replace(out + '.tmp', out)


def run_families(prop, seed, tier, only=None, jobs=8):
    """Runs all families in forked processes. Returns (results, process_violations, errors)."""
    todo = []
    for fam in FAMILIES:
        if only and fam['name'] not in only:
            continue
        for s in range(fam['shards'] if tier == 'quick' else fam['tshards']):
            todo.append((fam, s))
    scratch = tempfile.mkdtemp(prefix='vrun', dir=os.environ.get('VSCRATCH') or None)
    running, results, pviol, errors = {}, [], [], []
    todo.reverse()
    while todo or running:
        while todo and len(running) < jobs:
            fam, s = todo.pop()
            out = os.path.join(scratch, '%s.%d.json' % (fam['name'], s))
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                code = 70
                try:
                    _child(prop, fam, s, seed, tier, out)
                    code = 0
                except BaseException:
                    print(_format_exc(), file=sys.stderr)
                finally:
                    sys.stderr.flush()
                    os._exit(code)
            lim = fam['limit'] or (600. if tier == 'quick' else 3000.)
            running[pid] = (fam, s, out, time.time(), lim)
        time.sleep(0.02)
        for pid in list(running):
            fam, s, out, t0, lim = running[pid]
            got, status = os.waitpid(pid, os.WNOHANG)
            if got == 0:
                if time.time() - t0 > lim:
                    os.kill(pid, signal.SIGUSR1)
                    time.sleep(2)
                    os.kill(pid, signal.SIGKILL)
                    os.waitpid(pid, 0)
                    del running[pid]
                    st = _read(out + '.stack')
                    rec = dict(key=fam['name'] + ':hang', family=fam['name'], shard=s, count=1,
                               msg='workload did not finish within %.0f s' % lim, traceback=st[-3000:])
                    (pviol if REPO_SRC in st else errors).append(rec)
                continue
            del running[pid]
            if os.WIFSIGNALED(status):
                sig = os.WTERMSIG(status)
                fault = _read(out + '.fault')
                rec = dict(key='%s:crash:signal%d' % (fam['name'], sig), family=fam['name'], shard=s, count=1,
                           msg='the process running the workload was ended by signal %d' % sig, traceback=fault[-3000:])
                # SIGKILL comes from outside (memory limit): no verdict
                (errors if sig == signal.SIGKILL else pviol).append(rec)
            elif os.path.exists(out):
                with open(out) as f:
                    r = json.load(f)
                results.append(r)
                if r['error']:
                    errors.append(dict(key='harness', family=fam['name'], shard=s, msg=r['error']))
            else:
                errors.append(dict(key='harness', family=fam['name'], shard=s, msg='exit status %r' % status))
    return results, pviol, errors


def _read(fn):
    try:
        with open(fn) as f:
            return f.read()
    except OSError:
        return ''
