"""C21: the compiled routines neither touch memory that is not theirs nor depend on what memory held before."""
import fcntl
import json
import os
import re
import signal
import subprocess
import sys

from vlib import native
from vlib.harness import family

RULE = ("the compiled extensions of the working tree are built again with AddressSanitizer, UndefinedBehaviorSanitizer and Fortran "
        "bounds checks and run through the public functions, one process per case: no report, no fatal signal, no process ended by "
        "the library; and two further builds that differ only in what unassigned memory holds return the same numbers")
ASSUMPTIONS = ["gcc 13's sanitizers and gfortran's -fcheck report what they document; reads of unassigned memory are seen through the "
               "results they change, not directly",
               "the generated f2py wrappers are numpy's and are not instrumented",
               "a case that takes longer than its time limit under instrumentation is skipped"]
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BIN = os.path.join(os.environ.get('VSCRATCH', '/tmp'), 'native')


def built():
    os.makedirs(BIN, exist_ok=True)
    with open(os.path.join(BIN, 'lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        if not os.path.exists(os.path.join(BIN, 'done')):
            native.build_all(BIN)
            open(os.path.join(BIN, 'done'), 'w').close()
    return BIN


def worker(kind, group, seed, shard, stop, budget, out):
    env = dict(os.environ, OMP_NUM_THREADS='1', VBUDGET=str(budget), VCASELIMIT='60', PYTHONPATH=V)
    if kind == 'san':
        env.update(LD_PRELOAD=native.runtime_libs(), PYTHONMALLOC='malloc',
                   ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:handle_segv=1', UBSAN_OPTIONS='print_stacktrace=1')
    elif kind == 'fill':
        env.update(MALLOC_PERTURB_='165')
    return subprocess.Popen([sys.executable, '-W', 'ignore', '-m', 'vlib.native_work', os.path.join(BIN, kind), group, str(seed), str(shard),
                             '0', str(stop), out], env=env, cwd=V, stdout=subprocess.DEVNULL, stderr=open(out + '.start', 'w'))


def read(out):
    case, end, died, began = {}, {}, {}, []
    if os.path.exists(out):
        with open(out) as f:
            for line in f:
                try:
                    r = json.loads(line)
                except ValueError:
                    continue
                if r[0] == 'begin':
                    began.append(r[1])
                elif r[0] == 'case':
                    case.setdefault(r[1], {}).update(r[2])
                elif r[0] == 'end':
                    end[r[1]] = (r[2], r[3])
                elif r[0] in ('died', 'late'):
                    end.pop(r[1], None)
                    died[r[1]] = (r[2], r[3])
    return case, end, died, began


def reason(status, text):
    """What killed the process and where, without line numbers."""
    m = re.search(r'ERROR: AddressSanitizer: ([\w-]+)', text)
    what = None
    if m:
        what = m.group(1)
    elif 'Fortran runtime error' in text:
        what = 'fortran:' + re.sub(r'[^A-Za-z ]', '', re.search(r'Fortran runtime error: ([^\n]*)', text).group(1))[:40].strip().replace(' ', '_')
    elif 'runtime error' in text:
        what = 'undefined:' + re.sub(r'[^A-Za-z ]', '', re.search(r'runtime error: ([^\n]*)', text).group(1))[:40].strip().replace(' ', '_')
    elif os.WIFSIGNALED(status):
        what = 'signal%d' % os.WTERMSIG(status)
    else:
        what = 'exit%d' % os.WEXITSTATUS(status)
    src = re.findall(r'([\w.]+\.(?:f|c))(?::\d+| of|\b)', text)
    src = [s for s in src if s not in ('fortranobject.c',)]
    return what + (':' + src[0] if src else '')


def watch(ctx, group, n, budget):
    built()
    if ctx.tier == 'thorough':
        n, budget = n * 8, budget * 6
    folder = os.path.join(BIN, 'out_%s_%d' % (group, ctx.shard))
    os.makedirs(folder, exist_ok=True)
    outs = {k: os.path.join(folder, k) for k in ('san', 'zero', 'fill')}
    procs = {k: worker(k, group, ctx.seed, ctx.shard, n, budget, outs[k]) for k in outs}
    codes = {k: p.wait() for k, p in procs.items()}
    got = {k: read(o) for k, o in outs.items()}
    for k, c in codes.items():
        if c != 0 or not got[k][3]:
            with open(outs[k] + '.start', errors='replace') as f:
                raise RuntimeError('the %s worker ended with %d: %s' % (k, c, f.read()[-1500:]))
    for k, (case, end, died, began) in sorted(got.items()):
        for i in began:
            if i in end:
                if k == 'san':
                    with ctx.case(group=group, i=i, nontrivial=True, **case.get(i, {})):
                        ctx.count('%s:clean' % group)
                        if end[i][1]:
                            ctx.count('%s:refused' % group)
                        ctx.ok(True, '%s:clean' % group)
                continue
            status, text = died.get(i, (0, ''))
            if os.WIFSIGNALED(status) and os.WTERMSIG(status) in (signal.SIGALRM, signal.SIGKILL):
                ctx.count('%s:%s:too_slow' % (group, k))
                continue
            with ctx.case(group=group, i=i, build=k, nontrivial=True, **case.get(i, {})):
                ctx.ok(False, '%s:%s' % (group, reason(status, text) if status else 'process_ended'), lambda: text[-1500:])
    zero, fill = got['zero'], got['fill']
    for i in zero[1]:
        if i in fill[1]:
            with ctx.case(group=group, i=i, compared=True, nontrivial=bool(zero[1][i][0]), **zero[0].get(i, {})):
                ctx.count('%s:compared' % group)
                ctx.ok(json.dumps(zero[1][i]) == json.dumps(fill[1][i]), '%s:depends_on_old_memory' % group,
                       lambda: (str(zero[1][i])[:400], str(fill[1][i])[:400]))


@family(shards=1, tshards=1, limit=800)
def crossings(ctx):
    watch(ctx, 'crossings', 1500, 70)


@family(shards=1, tshards=1, limit=800)
def rainflow(ctx):
    watch(ctx, 'rainflow', 300, 70)


@family(shards=1, tshards=1, limit=800)
def second_order(ctx):
    watch(ctx, 'second_order', 400, 70)


@family(shards=1, tshards=1, limit=800)
def genz(ctx):
    watch(ctx, 'genz', 300, 70)


@family(shards=1, tshards=1, limit=800)
def product(ctx):
    watch(ctx, 'product', 400, 90)


@family(shards=1, tshards=2, limit=800)
def expectations(ctx):
    watch(ctx, 'expectations', 600, 110)


@family(shards=1, tshards=2, limit=800)
def minmax(ctx):
    watch(ctx, 'minmax', 150, 110)
