"""Independent reference models (written from the definitions, in plain Python) for the counting routines."""
import numpy as np


def crossings(x, v=0.0):
    """[(index, direction)]: the signal is on one side of v (or starts on v) up to index and strictly beyond v at
    index+1; direction is +1 for up- and -1 for down-crossings."""
    out, side = [], 0
    for i, xi in enumerate(x):
        s = int(xi > v) - int(xi < v)
        if s == 0:
            continue
        if i > 0 and s != side:
            out.append((i - 1, s))
        side = s
    return out


def select(cr, kind):
    """The crossings a crossing/wave definition asks for."""
    if kind in (None, 'du', 'all'):
        return [i for i, _ in cr]
    if kind == 'u':
        return [i for i, d in cr if d > 0]
    if kind == 'd':
        return [i for i, d in cr if d < 0]
    first = -1 if kind in ('dw', 'tw') else 1
    c = list(cr)
    while c and c[0][1] != first:
        c = c[1:]
    want_odd = kind in ('dw', 'uw')
    if c and (len(c) % 2 == 1) != want_odd:
        c = c[:-1]
    return [i for i, _ in c]


def extrema(x):
    """Indices where the direction of movement changes (last sample of a plateau); a leading plateau counts."""
    out, move = [], 0
    for i in range(len(x) - 1):
        s = int(x[i + 1] > x[i]) - int(x[i + 1] < x[i])
        if s == 0:
            continue
        if i > 0 and s != move:
            out.append(i)
        move = s
    return out


def turning_points(x, astm=False):
    e = extrema(x)
    if len(e) < 2:
        return None
    if astm or x[e[0]] > x[e[1]]:
        e = [0] + e
    return e + [len(x) - 1]


def rychlik_pairs(y):
    """Toplevel-up rainflow pairs [(i_min, i_max)] of a turning point sequence that starts with a minimum.

    For the maximum at k: m- is the lowest value back to the last strictly higher maximum, m+ the lowest up to the
    next maximum that is at least as high; the cycle is (max(m-, m+), M), and (m-, M) if the level is never reached
    again."""
    n = len(y)
    res = []
    maxima = list(range(1, n, 2))
    for k in maxima:
        lo = k - 1
        for j in range(k - 2, -1, -2):
            if y[j] > y[k]:
                break
            if y[j - 1] < y[lo]:
                lo = j - 1
        hi, closed = None, False
        if k + 1 < n:
            hi = k + 1
            for j in range(k + 2, n, 2):
                if y[j] >= y[k]:
                    closed = True
                    break
                if j + 1 < n and y[j + 1] <= y[hi]:
                    hi = j + 1
        if closed and y[hi] > y[lo]:
            res.append((hi, k))
        else:
            res.append((lo, k))
    return res


def findrfc(y, h):
    """Sorted indices of the end points of all rainflow cycles with range >= h."""
    y = list(y)
    if len(y) < 2:
        return []
    t0 = 1 if y[0] > y[1] else 0
    z = y[t0:]
    if len(z) < 2:
        return []
    out = []
    for m, M in rychlik_pairs(z):
        if z[M] - z[m] >= h:
            out += [m + t0, M + t0]
    return sorted(out)


def rfcfilter(y, h, strict=False):
    """Hysteresis (rainflow) filter: keeps the first sample and every turn that is confirmed by an opposite movement of
    at least h (more than h if strict).  Returns indices."""
    n = len(y)
    big = (lambda d: d > h) if strict else (lambda d: d >= h)
    kept = [0]
    state, ext = 0, 0                      # direction of the current excursion and index of its extreme
    for i in range(1, n):
        if state == 0:
            if big(y[0] - y[i]):
                state, ext = -1, i
            elif big(y[i] - y[0]):
                state, ext = 1, i
        elif state == 1:
            if big(y[ext] - y[i]):
                kept.append(ext)
                state, ext = -1, i
            elif y[i] >= y[ext]:
                ext = i
        else:
            if big(y[i] - y[ext]):
                kept.append(ext)
                state, ext = 1, i
            elif y[i] <= y[ext]:
                ext = i
    return kept, ext


def astm(tp):
    """ASTM E1049 rainflow (three point) by an explicit stack: list of (range, mean, count), zero ranges dropped,
    in order of extraction."""
    st, out = [], []
    for v in tp:
        st.append(v)
        while len(st) >= 3:
            X, Y = abs(st[-1] - st[-2]), abs(st[-2] - st[-3])
            if X < Y:
                break
            a, b = st[-3], st[-2]
            if len(st) == 3:
                st.pop(0)
                cnt = 0.5
            else:
                del st[-3:-1]
                cnt = 1.0
            if a != b:
                out.append((abs(a - b), 0.5 * (a + b), cnt))
    for a, b in zip(st[:-1], st[1:]):
        if a != b:
            out.append((abs(a - b), 0.5 * (a + b), 0.5))
    return out
