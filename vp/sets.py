"""Exact model of real sets: finite unions of ranges over the totally ordered double-precision numbers."""
import math
import struct

from hypothesis import strategies as st

INF = float('inf')
INC, EXC = 1, 2


def ordn(x):
    """position of a double in the total order (-0.0 and 0.0 coincide)"""
    x = float(x)
    n = struct.unpack('<q', struct.pack('<d', x))[0]
    return n if n >= 0 else -(n & 0x7fffffffffffffff)


def unord(n):
    if n >= 0:
        return struct.unpack('<d', struct.pack('<q', n))[0]
    return -struct.unpack('<d', struct.pack('<q', -n))[0]


ORD_MAX = ordn(1.7976931348623157e308)
ORD_MIN = -ORD_MAX


def nxt(x):
    return unord(ordn(x) + 1)


def prv(x):
    return unord(ordn(x) - 1)


def iv_range(lo, up, left, right):
    a = ORD_MIN if lo == -INF else ordn(lo) + (left == EXC)
    b = ORD_MAX if up == INF else ordn(up) - (right == EXC)
    return a, b


def norm(ranges):
    """canonical sorted list of disjoint non-adjacent non-empty integer ranges"""
    out = []
    for a, b in sorted(r for r in ranges if r[0] <= r[1]):
        if out and a <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(out[-1][1], b))
        else:
            out.append((a, b))
    return out


def m_union(p, q):
    return norm(p + q)


def m_inter(p, q):
    return norm([(max(a, c), min(b, d)) for a, b in p for c, d in q])


def m_compl(p):
    out, cur = [], ORD_MIN
    for a, b in norm(p):
        out.append((cur, a - 1))
        cur = b + 1
    out.append((cur, ORD_MAX))
    return norm(out)


def m_diff(p, q):
    return m_inter(p, m_compl(q))


def m_mirror(p):
    return norm([(-b, -a) for a, b in p])


def m_has(p, x):
    n = ordn(x)
    return any(a <= n <= b for a, b in p)


def model(s):
    """the exact set of doubles denoted by a ContinuousSet / RealSet of the code under test"""
    if hasattr(s, 'intervals'):
        return norm([iv_range(i.lower, i.upper, i.left, i.right) for i in s.intervals])
    return norm([iv_range(s.lower, s.upper, s.left, s.right)])


def rep(s):
    """representation, to detect mutation of operands"""
    if hasattr(s, 'intervals'):
        return [rep(i) for i in s.intervals]
    return s.lower, s.upper, int(s.left), int(s.right)


def model_of(case):
    return norm([iv_range(*i) for i in case])


def show(p):
    return ' u '.join('[%r, %r]' % (unord(a), unord(b)) for a, b in p) or 'empty'


def mk_cs(i):
    from jpt.base.intervals import ContinuousSet
    return ContinuousSet(i[0], i[1], i[2], i[3])


def mk_rs(case):
    from jpt.base.intervals import RealSet
    return RealSet([mk_cs(i) for i in case])


# --------------------------------------------------------------------------------------------------- generators

small = st.sampled_from([-3., -2., -1., 0., 1., 2., 3., .5, -.5, 1.5])
near = st.builds(lambda x, k: unord(ordn(x) + k), small, st.integers(-2, 2))
wide = st.one_of(
    st.floats(-1e9, 1e9, allow_nan=False, allow_infinity=False).map(lambda x: x + 0.0),
    st.floats(-10, 10).map(lambda x: round(x, 3) + 0.0),
    st.sampled_from([1e-300, -1e-300, 5e-324, 1e12, -1e12, 0.1, 1e-9, 123456.789]))
bound = st.one_of(small, small, small, near, wide)
side = st.sampled_from([INC, EXC])


@st.composite
def interval(draw, inf=True, allow_empty=True, bnd=bound):
    a = draw(bnd)
    b = draw(bnd)
    kind = draw(st.integers(0, 9))
    if a > b:
        a, b = b, a
    l, r = draw(side), draw(side)
    if kind == 0:
        b = a
        if not allow_empty:
            l = r = INC
    if inf and kind == 1:
        a, l = -INF, EXC
    elif inf and kind == 2:
        b, r = INF, EXC
    elif inf and kind == 3 and draw(st.booleans()):
        a, l, b, r = -INF, EXC, INF, EXC
    if not allow_empty:
        lo, hi = iv_range(a, b, l, r)
        if lo > hi:
            l = r = INC
    return [a, b, l, r]


def realset(max_size=4, **kw):
    i = interval(**kw)
    return st.sampled_from([n for n in (0, 1, 2, 2, 3, 3, 4) if n <= max_size]).flatmap(lambda n: st.lists(i, min_size=n, max_size=n))


@st.composite
def disjoint(draw, max_size=4, min_size=0, inf=True, bnd=bound):
    """pairwise disjoint, non-empty, possibly contiguous intervals, in random order"""
    pts = sorted(draw(st.sets(bnd, min_size=0, max_size=2 * max_size)))
    if inf and draw(st.integers(0, 3)) == 0:
        pts = [-INF] + pts
    if inf and draw(st.integers(0, 3)) == 0:
        pts = pts + [INF]
    out = []
    last_closed = False
    for a, b in zip(pts, pts[1:]):
        if draw(st.integers(0, 2)) == 0:
            last_closed = False
            continue
        l = EXC if last_closed or a == -INF else draw(side)
        r = EXC if b == INF else draw(side)
        lo, hi = iv_range(a, b, l, r)
        if lo > hi:
            last_closed = False
            continue
        out.append([a, b, l, r])
        last_closed = r == INC
    if pts and draw(st.integers(0, 4)) == 0:
        x = max([p for p in pts if abs(p) != INF], default=0.) + 1
        if not out or out[-1][1] < x:
            out.append([x, x, INC, INC])
    if min_size and not out:
        out = [[0., 1., draw(side), draw(side)]]
    return draw(st.permutations(out[:max_size]))


def probes(*cases):
    pts = {0., 1e10, -1e10}
    for case in cases:
        for lo, up, _, _ in case:
            for x in (lo, up):
                if abs(x) != INF:
                    pts |= {x, nxt(x), prv(x), x + 1, x - 1}
            if abs(lo) != INF and abs(up) != INF:
                pts.add(lo + (up - lo) / 2)
    return sorted(pts)


def fine(*cases):
    """two different bounds are neighbouring doubles: whether sets that differ only by the real numbers between
    them are equal, contiguous or intersecting is a matter of representation"""
    b = sorted({ordn(x) for case in cases for i in case for x in i[:2] if abs(x) != INF})
    return any(y - x <= 3 for x, y in zip(b, b[1:]))
