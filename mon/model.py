"""Independent reference geometry, in extended precision, written from the documentation.

A leaf is a solid (or a flat sheet) in its own coordinates plus a 4x4 placement matrix which the
harness composes itself.  Lines are intersected with a slightly inflated and deflated copy as well:
where the two disagree noticeably (grazing, edges, corners) the answer is *ambiguous* and nobody is
judged on it.  Boolean trees are evaluated by classifying the midpoints between consecutive leaf
crossings - a different method from the counting of sorted hits in the code under test.
"""
import numpy as np

LD = np.longdouble
INF = np.inf
DELTA = LD(1e-7)  # relative inflation used to find ambiguous lines


# ---------------------------------------------------------------- matrices
def eye():
    return np.eye(4, dtype=LD)


def translation(x=0, y=0, z=0):
    m = eye()
    m[:3, 3] = [LD(x), LD(y), LD(z)]
    return m


def scaling(x=1, y=1, z=1):
    m = eye()
    m[0, 0], m[1, 1], m[2, 2] = LD(x), LD(y), LD(z)
    return m


PI = LD("3.14159265358979323846264338327950288")


def rotation(axis, angle, units="deg"):
    """Right-handed rotation about a coordinate axis (0, 1, 2)."""
    a = LD(angle) * PI / 180 if units == "deg" else LD(angle)
    c, s = np.cos(a), np.sin(a)
    m = eye()
    i, j = (axis + 1) % 3, (axis + 2) % 3
    m[i, i] = m[j, j] = c
    m[i, j], m[j, i] = -s, s
    return m


def mm(a, b):
    """matrix product in extended precision (matmul has no longdouble kernel of its own)"""
    return np.einsum("ij,j...->i...", np.asarray(a, LD), np.asarray(b, LD))


def inverse(m):
    """inverse of an affine matrix by the adjugate"""
    a = np.asarray(m, LD)[:3, :3]
    cof = np.empty((3, 3), LD)
    for i in range(3):
        for j in range(3):
            i1, i2, j1, j2 = (i + 1) % 3, (i + 2) % 3, (j + 1) % 3, (j + 2) % 3
            cof[i, j] = a[i1, j1] * a[i2, j2] - a[i1, j2] * a[i2, j1]
    det = (a[0] * cof[0]).sum()
    out = eye()
    out[:3, :3] = cof.T / det
    out[:3, 3] = -mm(out[:3, :3], np.asarray(m, LD)[:3, 3])
    return out


# ---------------------------------------------------------------- leaf shapes (object space)
def _quadratic_inside(a, b, c):
    """interval where a t^2 + b t + c <= 0 for a >= 0; (lo, hi), empty as (inf, -inf)"""
    n = np.shape(a)
    lo, hi = np.full(n, LD(INF)), np.full(n, LD(-INF))
    lin = a == 0
    flat = lin & (b == 0)
    inside = flat & (c <= 0)
    lo = np.where(inside, -LD(INF), lo)
    hi = np.where(inside, LD(INF), hi)
    only = lin & ~flat
    root = -c / np.where(only, b, 1)
    lo = np.where(only, np.where(b > 0, -LD(INF), root), lo)
    hi = np.where(only, np.where(b > 0, root, LD(INF)), hi)
    disc = b * b - 4 * a * c
    ok = ~lin & (disc >= 0)
    q = -(b + np.where(b >= 0, 1, -1) * np.sqrt(np.maximum(disc, 0))) / 2
    safe_a = np.where(ok, a, 1)
    q0 = q == 0
    r1 = q / safe_a
    r2 = np.where(q0, -r1, c / np.where(q0, 1, q))
    lo = np.where(ok, np.minimum(r1, r2), lo)
    hi = np.where(ok, np.maximum(r1, r2), hi)
    return lo, hi


def _slab(o, d, lo, hi):
    par = d == 0
    t1 = (lo - o) / np.where(par, 1, d)
    t2 = (hi - o) / np.where(par, 1, d)
    inside = (o >= lo) & (o <= hi)
    a = np.where(par, np.where(inside, -LD(INF), LD(INF)), np.minimum(t1, t2))
    b = np.where(par, np.where(inside, LD(INF), -LD(INF)), np.maximum(t1, t2))
    return a, b


def _meet(*iv):
    lo = np.maximum.reduce([i[0] for i in iv])
    hi = np.minimum.reduce([i[1] for i in iv])
    return lo, hi


class Shape:
    sheet = False

    def interval(self, o, d, grow=0):
        """(lo, hi) of the parameter range inside the shape enlarged by grow*size; empty if lo > hi"""
        raise NotImplementedError


class SphereShape(Shape):
    def __init__(self, radius):
        self.r = LD(radius)
        self.size = self.r
        self.lo, self.hi = np.array([-self.r] * 3), np.array([self.r] * 3)

    def interval(self, o, d, grow=0):
        # closest approach, half chord
        r = self.r + grow * self.size
        dd = (d * d).sum(0)
        tc = -(o * d).sum(0) / dd
        p = o + d * tc
        h2 = (r * r - (p * p).sum(0)) / dd
        h = np.sqrt(np.maximum(h2, 0))
        return np.where(h2 >= 0, tc - h, LD(INF)), np.where(h2 >= 0, tc + h, LD(-INF))

    def inside(self, p):
        return (p * p).sum(0) <= self.r ** 2

    def normal(self, p):
        return p / np.sqrt((p * p).sum(0)), np.zeros(p.shape[1], bool)

    def surface_points(self, rng, n):
        v = rng.normal(size=(3, n)).astype(LD)
        return self.r * v / np.sqrt((v * v).sum(0))

    def residual(self, p):
        return abs(np.sqrt((p * p).sum(0)) - self.r)


class CylinderShape(Shape):
    def __init__(self, radius, lo, hi):
        self.r, self.z0, self.z1 = LD(radius), LD(lo), LD(hi)
        self.size = max(self.r, abs(self.z1 - self.z0))
        self.lo = np.array([-self.r, -self.r, self.z0])
        self.hi = np.array([self.r, self.r, self.z1])

    def interval(self, o, d, grow=0):
        g = grow * self.size
        r = self.r + g
        a = (d[:2] * d[:2]).sum(0)
        b = 2 * (o[:2] * d[:2]).sum(0)
        # c via the closest approach where possible would lose nothing; extended precision suffices
        c = (o[:2] * o[:2]).sum(0) - r * r
        return _meet(_quadratic_inside(a, b, c), _slab(o[2], d[2], self.z0 - g, self.z1 + g))

    def normal(self, p):
        rho = np.sqrt((p[:2] * p[:2]).sum(0))
        side, bot, top = abs(rho - self.r), abs(p[2] - self.z0), abs(p[2] - self.z1)
        n = np.zeros(p.shape, LD)
        isside = (side <= bot) & (side <= top)
        n[:2] = np.where(isside, p[:2] / np.where(rho == 0, 1, rho), 0)
        n[2] = np.where(isside, 0, np.where(top <= bot, 1, -1))
        amb = isside & (np.minimum(bot, top) < LD(1e-8) * (abs(self.z0) + abs(self.z1)) + LD(1e-6) * self.size)
        amb |= ~isside & (side < LD(1e-6) * self.size)
        return n, amb

    def surface_points(self, rng, n):
        phi = rng.uniform(0, 2 * np.pi, n)
        which = rng.integers(0, 3, n)
        rad = np.where(which == 0, 1.0, np.sqrt(rng.uniform(0, 1, n))).astype(LD) * self.r
        p = np.empty((3, n), LD)
        p[0], p[1] = rad * np.cos(phi.astype(LD)), rad * np.sin(phi.astype(LD))
        u = rng.uniform(0, 1, n).astype(LD)
        p[2] = np.where(which == 0, self.z0 + u * (self.z1 - self.z0), np.where(which == 1, self.z0, self.z1))
        return p

    def residual(self, p):
        rho = np.sqrt((p[:2] * p[:2]).sum(0))
        return np.minimum(abs(rho - self.r), np.minimum(abs(p[2] - self.z0), abs(p[2] - self.z1)))


class CubeShape(Shape):
    def __init__(self, c0, c1):
        c = np.sort(np.array([[LD(v) for v in c0], [LD(v) for v in c1]]), axis=0)
        self.lo, self.hi = c
        self.size = (self.hi - self.lo).max()

    def interval(self, o, d, grow=0):
        g = grow * self.size
        return _meet(*[_slab(o[i], d[i], self.lo[i] - g, self.hi[i] + g) for i in range(3)])

    def normal(self, p):
        dist = np.concatenate([abs(p - self.lo[:, None]), abs(p - self.hi[:, None])])
        k = np.argmin(dist, axis=0)
        n = np.zeros(p.shape, LD)
        n[k % 3, np.arange(p.shape[1])] = np.where(k < 3, -1, 1)
        tol = LD(1e-8) * np.concatenate([abs(self.lo), abs(self.hi)])[:, None] + LD(1e-6) * self.size
        close = (dist < tol).sum(0)
        return n, close > 1

    def surface_points(self, rng, n):
        u = rng.uniform(0, 1, (3, n)).astype(LD)
        p = self.lo[:, None] + u * (self.hi - self.lo)[:, None]
        ax = rng.integers(0, 3, n)
        up = rng.integers(0, 2, n)
        p[ax, np.arange(n)] = np.where(up, self.hi[ax], self.lo[ax])
        return p


class ParaboloidShape(Shape):
    """solid x^2 + y^2 <= 4 f z, 0 <= z <= h"""

    def __init__(self, focus, height):
        self.f, self.h = LD(focus), LD(height)
        self.curvature = 2 * self.f  # the least radius
        r = np.sqrt(4 * self.f * self.h)
        self.size = max(r, self.h)
        self.lo, self.hi = np.array([-r, -r, LD(0)]), np.array([r, r, self.h])

    def interval(self, o, d, grow=0):
        g = grow * self.size
        oz = o[2] + g  # a shifted paraboloid is an inflated one
        a = (d[:2] * d[:2]).sum(0)
        b = 2 * (o[:2] * d[:2]).sum(0) - 4 * self.f * d[2]
        c = (o[:2] * o[:2]).sum(0) - 4 * self.f * oz
        return _meet(_quadratic_inside(a, b, c), _slab(o[2], d[2], -g, self.h + g))

    def normal(self, p):
        wall = abs((p[:2] * p[:2]).sum(0) - 4 * self.f * p[2]) / np.sqrt(4 * (p[:2] * p[:2]).sum(0) + 16 * self.f ** 2)
        cap = abs(p[2] - self.h)
        n = np.zeros(p.shape, LD)
        iswall = wall <= cap
        n[:2] = np.where(iswall, 2 * p[:2], 0)
        n[2] = np.where(iswall, -4 * self.f, 1)
        n /= np.sqrt((n * n).sum(0))
        amb = iswall & (cap < LD(1e-6) * self.size)
        amb |= ~iswall & (wall < LD(1e-6) * self.size)
        return n, amb

    def surface_points(self, rng, n):
        phi = rng.uniform(0, 2 * np.pi, n).astype(LD)
        cap = rng.integers(0, 3, n) == 0
        r = np.sqrt(rng.uniform(0, 1, n).astype(LD)) * self.hi[0]
        p = np.empty((3, n), LD)
        p[0], p[1] = r * np.cos(phi), r * np.sin(phi)
        p[2] = np.where(cap, self.h, r * r / (4 * self.f))
        return p


class SheetShape(Shape):
    """rectangle |x| <= w/2, |y| <= l/2 in the plane z = 0"""
    sheet = True

    def __init__(self, width, length):
        self.w, self.l = LD(width), LD(length)
        self.size = max(self.w, self.l)
        self.lo = np.array([-self.w / 2, -self.l / 2, LD(0)])
        self.hi = -self.lo

    def interval(self, o, d, grow=0):
        par = d[2] == 0
        t = -o[2] / np.where(par, 1, d[2])
        p = o + d * t
        g = grow * self.size
        ok = ~par & (abs(p[0]) <= self.w / 2 + g) & (abs(p[1]) <= self.l / 2 + g)
        return np.where(ok, t, LD(INF)), np.where(ok, t, LD(-INF))

    def normal(self, p):
        n = np.zeros(p.shape, LD)
        n[2] = 1
        return n, np.zeros(p.shape[1], bool)

    def surface_points(self, rng, n):
        p = np.zeros((3, n), LD)
        p[0] = (rng.uniform(0, 1, n).astype(LD) - LD(0.5)) * self.w
        p[1] = (rng.uniform(0, 1, n).astype(LD) - LD(0.5)) * self.l
        return p


class DiskShape(Shape):
    """flat disc of a zero-height cylinder (semi-axes a, b) in the plane z = 0"""
    sheet = True

    def __init__(self, a, b):
        self.a, self.b = LD(a), LD(b)
        self.size = max(self.a, self.b)
        self.lo = np.array([-self.a, -self.b, LD(0)])
        self.hi = -self.lo

    def interval(self, o, d, grow=0):
        par = d[2] == 0
        t = -o[2] / np.where(par, 1, d[2])
        p = o + d * t
        g = grow * self.size
        ok = ~par & ((p[0] / (self.a + g)) ** 2 + (p[1] / (self.b + g)) ** 2 <= 1)
        return np.where(ok, t, LD(INF)), np.where(ok, t, LD(-INF))

    def normal(self, p):
        n = np.zeros(p.shape, LD)
        n[2] = 1
        return n, np.zeros(p.shape[1], bool)


# ---------------------------------------------------------------- placed leaves and trees
class Leaf:
    """A placed shape. obj is the real surface (or None), label anything."""

    def __init__(self, shape, obj=None, label=None):
        self.shape, self.obj, self.label = shape, obj, label
        self.m = eye()
        self.sign = 1  # orientation of its normal within the trees containing it

    def leaves(self):
        return [self]

    @property
    def id(self):
        return self.obj.get_id()

    def move(self, m):
        self.m = mm(m, self.m)
        self._inv = None

    _inv = None

    @property
    def inv(self):
        if self._inv is None:
            self._inv = inverse(self.m)
        return self._inv

    def local(self, rays):
        """rays: (o, d) each 3xn longdouble world"""
        i = self.inv
        return mm(i[:3, :3], rays[0]) + i[:3, 3:4], mm(i[:3, :3], rays[1])

    def span(self, rays):
        """-> lo, hi (nan-free; miss: lo > hi), ambiguous"""
        o, d = self.local(rays)
        with np.errstate(all="ignore"):
            lo, hi = self.shape.interval(o, d)
            # from far away the coefficients of a quadratic lose digits as the square of the distance
            width = self.shape.hi - self.shape.lo
            least = width[width > 0].min()
            grow = np.maximum(DELTA, np.minimum(LD(1e-15) * (o * o).sum(0) / (least * self.shape.size), LD(0.1) * least / self.shape.size))
            lo1, hi1 = self.shape.interval(o, d, grow)
            lo2, hi2 = self.shape.interval(o, d, -grow)
        if self.shape.sheet:
            amb = np.isfinite(lo1) != np.isfinite(lo2)
            # nearly parallel to the sheet: position ill-conditioned
            slope = abs(d[2]) / np.sqrt((d * d).sum(0))
            near = abs(o[2]) < self.shape.size * LD(1e6)
            return lo, hi, amb | ((slope < 1e-6) & near)
        hit1, hit2 = lo1 <= hi1, lo2 <= hi2
        amb = hit1 != hit2
        dn = np.sqrt((d * d).sum(0))
        with np.errstate(all="ignore"):
            stretch = np.maximum(abs(lo1 - lo2), abs(hi1 - hi2)) * dn
        amb |= hit1 & hit2 & ~(stretch <= LD(1e-3) * self.shape.size)
        miss = ~(lo <= hi)
        lo = np.where(miss, LD(INF), lo)
        hi = np.where(miss, LD(-INF), hi)
        return lo, hi, amb

    def world_normal(self, points):
        """outward normal at world points (3xn) -> 3xn, ambiguous"""
        i = self.inv
        p = mm(i[:3, :3], np.asarray(points, LD)) + i[:3, 3:4]
        n, amb = self.shape.normal(p)
        w = mm(i[:3, :3].T, n)
        return w / np.sqrt((w * w).sum(0)) * self.sign, amb

    def normal_error(self, points):
        """how far a world normal computed in double precision at the world points (3xn) may be from the exact one"""
        i = self.inv
        width = self.shape.hi - self.shape.lo
        least = float(min(width[width > 0].min() / 2, getattr(self.shape, "curvature", INF)))
        reach = (abs(i[:3, :3]) @ abs(np.asarray(points, LD)) + abs(i[:3, 3:4])).max(0).astype(float)
        cond = float(np.linalg.cond(i[:3, :3].astype(float)))
        return 2e-12 * (1 + reach / least) * cond ** 2

    def corners(self):
        c = np.array([[x, y, z, 1] for x in (self.shape.lo[0], self.shape.hi[0])
                      for y in (self.shape.lo[1], self.shape.hi[1])
                      for z in (self.shape.lo[2], self.shape.hi[2])], dtype=LD).T
        return mm(self.m, c)[:3]

    def box(self):
        c = self.corners()
        return c.min(1), c.max(1)

    def member(self, inside):
        return inside[self]


class Tree:
    """op in 'union', 'intersect', 'difference'"""

    def __init__(self, op, left, right, obj=None):
        self.op, self.left, self.right, self.obj = op, left, right, obj
        if op == "difference":
            for leaf in right.leaves():
                leaf.sign = -leaf.sign

    def leaves(self):
        return self.left.leaves() + self.right.leaves()

    def move(self, m):
        for leaf in self.leaves():
            leaf.move(m)

    def member(self, inside):
        a, b = self.left.member(inside), self.right.member(inside)
        return a | b if self.op == "union" else a & b if self.op == "intersect" else a & ~b

    def box(self):
        b = [leaf.box() for leaf in self.leaves()]
        return np.min([x[0] for x in b], axis=0), np.max([x[1] for x in b], axis=0)


def as_rays(rays):
    """2x4xn float array -> (o, d) 3xn longdouble"""
    r = np.asarray(rays)
    if r.ndim == 2:
        r = r[..., None]
    return r[0, :3].astype(LD), r[1, :3].astype(LD)


class Crossings:
    """Expected crossings of every ray with one component: per ray sorted arrays."""

    def __init__(self, t, ids, count, ambiguous, gap):
        self.t, self.ids, self.count, self.ambiguous, self.gap = t, ids, count, ambiguous, gap


def crossings(comp, rays):
    """All points where each line enters or leaves comp.

    comp: Leaf or Tree (a sheet may only be a lone leaf or the left operand of differences /
    right-hand chains thereof).  Returns Crossings with t (2L x n, sorted, inf padded), ids (leaf index),
    and per-ray ambiguity (grazing, edges, or two different leaves crossing at nearly the same place).
    """
    leaves = comp.leaves()
    n = rays[0].shape[1]
    L = len(leaves)
    lo = np.empty((L, n), LD)
    hi = np.empty((L, n), LD)
    amb = np.zeros((L, n), bool)
    for k, leaf in enumerate(leaves):
        lo[k], hi[k], amb[k] = leaf.span(rays)
    if L == 1:
        t = np.vstack((lo, np.where(np.isinf(hi), LD(INF), hi)))
        return Crossings(t, np.zeros((2, n), int), np.where(np.isfinite(lo[0]), 2, 0), amb[0], None)

    ends = np.vstack((lo, np.where(np.isinf(hi) & (hi < 0), LD(INF), hi)))
    owner = np.tile(np.arange(L), 2)[:, None].repeat(n, 1)
    order = np.argsort(ends, axis=0, kind="stable")
    t = np.take_along_axis(ends, order, 0)
    own = np.take_along_axis(owner, order, 0)
    # ties between different leaves
    dn = np.sqrt((rays[1] * rays[1]).sum(0))
    with np.errstate(all="ignore"):
        scale = max(float(leaf.shape.size) for leaf in leaves)
        pos = np.sqrt((rays[0] * rays[0]).sum(0))
        tol = LD(3e-8) * (scale + pos) / dn
        close = np.isfinite(t[1:]) & (t[1:] - t[:-1] < tol) & (own[1:] != own[:-1])
    ambiguous = close.any(0) | amb.any(0)

    sheets = [k for k, leaf in enumerate(leaves) if leaf.shape.sheet]
    if sheets:
        # sheet minus solids: keep the sheet crossing where it is in the point set
        assert sheets == [0], "a sheet may only be the leftmost operand"
        ts = lo[0]
        inside = {leaf: (lo[k] <= ts) & (ts <= hi[k]) for k, leaf in enumerate(leaves)}
        inside[leaves[0]] = np.isfinite(ts)
        keep = comp.member(inside)
        tt = np.where(keep, ts, LD(INF))
        return Crossings(np.vstack((tt, tt)), np.zeros((2, n), int), np.where(np.isfinite(tt), 2, 0), ambiguous, None)

    with np.errstate(all="ignore"):
        fin = np.isfinite(t)
        prev = np.vstack((np.where(fin[:1], t[:1] - 1, 0), t))
        nxt = np.vstack((t, np.full((1, n), LD(INF))))
        mid = np.where(np.isfinite(nxt), (prev + nxt) / 2, prev + 1)
        mid[0] = np.where(fin[0], t[0] - 1, 0)
    inside = {}
    for k, leaf in enumerate(leaves):
        inside[leaf] = (lo[k][None] < mid) & (mid < hi[k][None])
    state = comp.member(inside)  # (2L+1) x n membership between crossings
    change = (state[1:] != state[:-1]) & fin
    tt = np.where(change, t, LD(INF))
    ids = np.where(change, own, -1)
    order = np.argsort(tt, axis=0, kind="stable")
    return Crossings(np.take_along_axis(tt, order, 0), np.take_along_axis(ids, order, 0), change.sum(0), ambiguous, None)


def nearest(components, rays, start=0.0):
    """Nearest crossing with t > start over all components.

    -> t, leaf (object array, None = no hit), ambiguous.  Ambiguous if an ambiguous component could
    matter, or two crossings compete, or one lies at the start itself.
    """
    n = rays[0].shape[1]
    best = np.full(n, LD(INF))
    second = np.full(n, LD(INF))
    who = np.full(n, None, dtype=object)
    amb = np.zeros(n, bool)
    dn = np.sqrt((rays[1] * rays[1]).sum(0))
    pos = np.sqrt((rays[0] * rays[0]).sum(0))
    for comp in components:
        c = crossings(comp, rays)
        leaves = comp.leaves()
        amb |= c.ambiguous
        size = max(float(leaf.shape.size) for leaf in leaves)
        with np.errstate(all="ignore"):
            amb |= (np.isfinite(c.t) & (abs(c.t - start) * dn < LD(3e-9) * (pos + size))).any(0)
        t = np.where(c.t > start, c.t, LD(INF))
        k = np.argmin(t, axis=0)
        first = t[k, np.arange(n)]
        ids = c.ids[k, np.arange(n)]
        better = first < best
        second = np.minimum(second, np.where(better, best, first))
        for i in np.nonzero(better)[0]:
            who[i] = leaves[ids[i]]
        best = np.where(better, first, best)
    with np.errstate(all="ignore"):
        amb |= np.isfinite(second) & ((second - best) * dn < LD(3e-9) * (pos + 1 + best * dn))
    return best, who, amb


def reflect(d, n):
    return d - 2 * (d * n).sum(0) * n


def refract(d, n, n1, n2):
    """Snell's law by components: tangential part scaled by n1/n2.  n points against or along d.
    -> direction, total (bool), margin = |n1/n2 sin - 1|"""
    d = d / np.sqrt((d * d).sum(0))
    cosn = (d * n).sum(0)
    side = np.where(cosn > 0, 1, -1)
    tang = d - cosn * n
    t2 = tang * (n1 / n2)
    s2 = (t2 * t2).sum(0)
    total = s2 > 1
    cos2 = np.sqrt(np.maximum(1 - s2, 0))
    out = np.where(total, reflect(d, n), t2 + side * cos2 * n)
    return out, total, abs(np.sqrt(s2) - 1)
