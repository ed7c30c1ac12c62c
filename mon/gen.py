"""Seeded generators of objects, placements, boolean trees, rays and scenes, paired with their model."""
import numpy as np

import tinygfx.g3d as cg
import pyrayt
import pyrayt.materials as matl

from mon import model
from mon.model import LD, Leaf, Tree

NICE = (0.5, 1, 2, 3, 0.25, 1.5, 5)
NICE_ANGLES = (90, -90, 180, 45, 30, 60, 270, 360, 0, -45, 120, 10)


def num(rng, lo, hi, nice=0.3):
    """a positive number, log-uniform in [lo, hi], sometimes a round one"""
    if rng.random() < nice:
        v = [x for x in NICE if lo <= x <= hi]
        if v:
            return v[rng.integers(len(v))]
    return float(np.exp(rng.uniform(np.log(lo), np.log(hi))))


def coord(rng, span, nice=0.3):
    if rng.random() < nice:
        return [0, 1, -1, 2, -2.5, 0.5, -3][rng.integers(7)]
    return float(rng.uniform(-span, span))


def angle(rng):
    if rng.random() < 0.06:  # more than a full turn
        return float(rng.uniform(-3000, 3000) * (1 if rng.random() < 0.8 else 10))
    return NICE_ANGLES[rng.integers(len(NICE_ANGLES))] if rng.random() < 0.35 else float(rng.uniform(-200, 200))


# ---------------------------------------------------------------- placement operations
def random_op(rng, span=5.0, scale=True, shear=False, rigid=False):
    kinds = ["move", "move_1", "rotate"] * 2 + ["transform_rigid"]
    if scale and not rigid:
        kinds += ["scale", "scale_1", "scale_all"]
    if shear and not rigid:
        kinds += ["transform_affine"]
    k = kinds[rng.integers(len(kinds))]
    if k == "move":
        return ("move", tuple(coord(rng, span) for _ in range(3)))
    if k == "move_1":
        return ("move_" + "xyz"[rng.integers(3)], (coord(rng, span),))
    if k == "rotate":
        ax = "xyz"[rng.integers(3)]
        a = angle(rng)
        u = rng.integers(3)
        if u == 0:
            return ("rotate_" + ax, (a,))
        if u == 1:
            return ("rotate_" + ax, (a, "deg"))
        return ("rotate_" + ax, (float(np.deg2rad(a)), "rad"))
    if k == "scale":
        return ("scale", tuple(num(rng, 0.3, 3) for _ in range(3)))
    if k == "scale_1":
        return ("scale_" + "xyz"[rng.integers(3)], (num(rng, 0.3, 3),))
    if k == "scale_all":
        return ("scale_all", (num(rng, 0.4, 2.5),))
    m = random_rigid(rng, span)
    if k == "transform_affine":
        s = np.eye(4)
        s[:3, :3] += rng.uniform(-0.3, 0.3, (3, 3))
        look = rng.integers(6)  # sheared all the same, but looking innocent in one respect
        if look == 0:
            s[:3, :3] /= np.linalg.norm(s[:3, :3], axis=0)
        elif look == 1:
            s[:3, :3] /= np.linalg.norm(s[:3, :3], axis=1)[:, None]
        elif look == 2:
            s[:3, :3] /= np.cbrt(np.linalg.det(s[:3, :3]))
        elif look == 3:
            s[:3, :3] = np.eye(3)
            i, j = rng.permutation(3)[:2]
            s[i, j] = rng.uniform(-0.6, 0.6)
        m = np.asarray(m @ s, float)
    return ("transform", (m,))


def small_op(rng, scale=True):
    """a fine adjustment"""
    e = float(10.0 ** rng.uniform(-7, -2)) * (-1, 1)[rng.integers(2)]
    k = rng.integers(5 if scale else 3)
    ax = "xyz"[rng.integers(3)]
    if k == 0:
        return ("move", tuple(float(v) for v in e * rng.uniform(-1, 1, 3)))
    if k == 1:
        return ("move_" + ax, (e,))
    if k == 2:
        return ("rotate_" + ax, (e,) if rng.random() < 0.5 else (e, "rad"))
    return ("scale_" + ax, (1 + e,)) if k == 3 else ("scale_all", (1 + e,))


def in_place_op(rng, obj, scale=True):
    """a turn about one of the object's own axes, or a stretch along one: position (and one axis) stay"""
    k = rng.integers(3)
    local = model.rotation(int(k), angle(rng)) if not scale or rng.random() < 0.7 else model.scaling(**{"xyz"[k]: num(rng, 0.4, 2.5)})
    m = np.asarray(obj.get_world_transform(), LD)
    return ("transform", (np.asarray(model.mm(model.mm(m, local), model.inverse(m)), float),))


def random_rigid(rng, span=5.0):
    q = rng.normal(size=4)
    w, x, y, z = q / np.linalg.norm(q)
    m = np.eye(4)
    m[:3, :3] = [[1 - 2 * (y * y + z * z), 2 * (x * y - z * w), 2 * (x * z + y * w)],
                 [2 * (x * y + z * w), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w)],
                 [2 * (x * z - y * w), 2 * (y * z + x * w), 1 - 2 * (x * x + y * y)]]
    m[:3, 3] = rng.uniform(-span, span, 3)
    return m


def in_unit(op, u):
    """the same operation with all lengths in another unit"""
    name, args = op
    if u == 1:
        return op
    if name.startswith("move"):
        return (name, tuple(float(a * u) for a in args))
    if name == "transform":
        m = args[0].copy()
        m[:3, 3] *= u
        return (name, (m,))
    return op


def some_unit(ctx, share=0.12, span=6):
    """the unit of length of a case"""
    other = ctx.rng.random() < share
    ctx.count("other_units", other)
    return float(10.0 ** ctx.rng.uniform(-span, span)) if other else 1.0


class Slack:
    """how far rounding can have taken a placement away from the exact product of its operations (with a margin of a thousand)"""
    EPS = 2e-12

    def __init__(self):
        self.linear, self.offset = self.EPS * 1e-3, 0.0

    def carry(self, op, m):
        """op is applied to what is placed by m"""
        op, m = np.asarray(op, float), np.asarray(m, float)
        a, b = np.linalg.norm(op[:3, :3]), np.linalg.norm(m[:3, :3])
        self.linear = a * self.linear + self.EPS * a * b
        self.offset = a * self.offset + self.EPS * (a * np.linalg.norm(m[:3, 3]) + np.linalg.norm(op[:3, 3]))

    def back(self, m, size):
        """bounds for (directions, points up to size) carried out by the placement m and back by its inverse"""
        m = np.asarray(m, float)
        li = np.linalg.norm(np.linalg.inv(m[:3, :3]))
        lin = 4 * li * (self.linear + self.EPS * np.linalg.norm(m[:3, :3]))
        return lin, lin * size + 2 * li * (self.offset + self.EPS * np.linalg.norm(m[:3, 3]))


def op_matrix(op):
    name, args = op
    if name == "move":
        return model.translation(*args)
    if name.startswith("move_"):
        return model.translation(**{name[-1]: args[0]})
    if name == "scale":
        return model.scaling(*args)
    if name == "scale_all":
        return model.scaling(args[0], args[0], args[0])
    if name.startswith("scale_"):
        return model.scaling(**{name[-1]: args[0]})
    if name.startswith("rotate_"):
        return model.rotation("xyz".index(name[-1]), *args)
    if name == "transform":
        return np.asarray(args[0], LD)
    raise KeyError(name)


def apply(obj, ref, op):
    """apply one operation to the real object and to its model (None: real object only)"""
    name, args = op
    out = getattr(obj, name)(*[a.copy() if isinstance(a, np.ndarray) else a for a in args])
    if ref is not None:
        ref.move(op_matrix(op))
    return out


def place(rng, obj, ref, n_ops=None, unit=1.0, **kw):
    ops = [in_unit(random_op(rng, **kw), unit) for _ in range(rng.integers(0, 5) if n_ops is None else n_ops)]
    for op in ops:
        apply(obj, ref, op)
    return ops


# ---------------------------------------------------------------- leaves
LEAF_KINDS = ("sphere", "cylinder", "cube", "paraboloid")


def extreme_leaf(rng, kind):
    """a solid away from its own origin, or long and thin -> (surface, Leaf, description)"""
    far = float(10.0 ** rng.uniform(1, 5)) * (-1, 1)[rng.integers(2)]
    thin = float(10.0 ** rng.uniform(-3, -1))
    if kind == "cylinder":
        if rng.random() < 0.5:
            r, z0, z1 = num(rng, 0.1, 5), far, far + num(rng, 0.1, 5)
        else:
            r, z0 = thin, coord(rng, 2.0)
            z1 = z0 + abs(far) / 100
        make, shape, desc = lambda: cg.Cylinder(r, z0, z1), model.CylinderShape(r, z0, z1), (kind, r, z0, z1)
    elif kind == "cube":
        c0 = [far if rng.random() < 0.5 else coord(rng, 2.0) for _ in range(3)]
        c1 = [c + (num(rng, 0.1, 5) if rng.random() < 0.7 else thin) for c in c0]
        make, shape, desc = lambda: cg.Cuboid(tuple(c0), tuple(c1)), model.CubeShape(c0, c1), ("corners", c0, c1)
    else:
        f, h = (thin, abs(far) / 100) if rng.random() < 0.5 else (abs(far) / 100, thin)
        make, shape, desc = lambda: cg.Paraboloid(f, h), model.ParaboloidShape(f, h), (kind, f, h)
    obj = make()
    ref = Leaf(shape, obj)
    ref.make, ref.desc = make, desc
    return obj, ref, desc


def rim_points(shape, rng, n):
    """points of a surface close to its edges, or None for a shape without"""
    e = (10.0 ** rng.uniform(-5, -1.5, n)).astype(LD)
    up = rng.integers(0, 2, n)
    p = shape.surface_points(rng, n)
    if isinstance(shape, model.CubeShape):
        ax = (np.argmin(np.minimum(abs(p - shape.lo[:, None]), abs(p - shape.hi[:, None])), axis=0) + rng.integers(1, 3, n)) % 3
        k = np.arange(n)
        span = shape.hi[ax] - shape.lo[ax]
        p[ax, k] = np.where(up, shape.hi[ax] - e * span, shape.lo[ax] + e * span)
        return p
    if isinstance(shape, model.CylinderShape):
        rho = np.sqrt((p[:2] ** 2).sum(0))
        side = rng.random(n) < 0.5
        dirs = p[:2] / np.where(rho == 0, 1, rho)
        p[:2] = dirs * np.where(side, 1, 1 - e) * shape.r
        h = shape.z1 - shape.z0
        p[2] = np.where(up, shape.z1 - side * e * h, shape.z0 + side * e * h)
        return p[:, rho > 0]
    if isinstance(shape, model.ParaboloidShape):
        side = rng.random(n) < 0.5
        phi = rng.uniform(0, 2 * np.pi, n).astype(LD)
        z = shape.h * (1 - e)
        r = np.sqrt(4 * shape.f * z)
        return np.array([r * np.cos(phi), r * np.sin(phi), np.where(side, z, shape.h)])
    return None


def make_leaf(rng, kind=None, material=None, lo=0.1, hi=5.0, unit=1.0):
    """-> (surface, Leaf, description); unit: the unit of all lengths"""
    def num(r, a, b):
        return globals()["num"](r, a, b) * unit if unit != 1 else globals()["num"](r, a, b)

    def coord(r, span):
        return globals()["coord"](r, span) * unit if unit != 1 else globals()["coord"](r, span)

    kind = kind or LEAF_KINDS[rng.integers(len(LEAF_KINDS))]
    kw = {} if material is None else dict(material=material)
    if kind == "sphere":
        r = num(rng, lo, hi)
        make, shape, desc = lambda: cg.Sphere(r, **kw), model.SphereShape(r), (kind, r)
    elif kind == "cylinder":
        r = num(rng, lo, hi)
        if unit == 1 and lo <= 1 <= hi and rng.random() < 0.05:
            make, shape, desc = lambda: cg.Cylinder(**kw), model.CylinderShape(1, -1, 1), (kind,)
        elif unit == 1 and rng.random() < 0.15:
            make, shape, desc = lambda: cg.Cylinder(r, **kw), model.CylinderShape(r, -1, 1), (kind, r)
        else:
            z0 = coord(rng, hi / 2)
            z1 = z0 + num(rng, lo, hi)
            make, shape, desc = lambda: cg.Cylinder(r, z0, z1, **kw), model.CylinderShape(r, z0, z1), (kind, r, z0, z1)
    elif kind == "cube":
        k = rng.integers(4)
        if k == 0:
            s = num(rng, lo, hi)
            make, shape, desc = (lambda: cg.Cuboid.from_length(s, **kw)), model.CubeShape([-s / 2] * 3, [s / 2] * 3), ("length", s)
        elif k == 1:
            s = [num(rng, lo, hi) for _ in range(3)]
            make = lambda: cg.Cuboid.from_sides(*s, **kw)
            if unit == 1 and lo <= 1 <= hi and rng.random() < 0.2:  # the others have length 1
                named = {a: v for a, v in zip("xyz", s) if rng.random() < 0.5}
                s = [named.get(a, 1) for a in "xyz"]
                make = lambda: cg.Cuboid.from_sides(**named, **kw)
            shape, desc = model.CubeShape([-v / 2 for v in s], [v / 2 for v in s]), ("sides", s)
        elif unit == 1 and lo <= 2 <= hi and rng.random() < 0.1:
            make, shape, desc = (lambda: cg.Cuboid(**kw)), model.CubeShape([-1] * 3, [1] * 3), (kind,)
        else:
            c0 = [coord(rng, hi / 2) for _ in range(3)]
            c1 = [c + num(rng, lo, hi) * (1 if k == 2 else (-1, 1)[rng.integers(2)]) for c in c0]
            make = lambda: cg.Cuboid(tuple(c0), tuple(c1), **kw)
            shape, desc = model.CubeShape(c0, c1), ("corners", c0, c1)
    elif kind == "paraboloid":
        f, h = num(rng, lo, hi / 2), num(rng, lo, hi)
        if unit == 1 and lo <= 1 <= hi / 2 and rng.random() < 0.1:
            f = h = 1
            make = lambda: cg.Paraboloid(**kw)
        else:
            make = lambda: cg.Paraboloid(f, h, **kw)
        shape, desc = model.ParaboloidShape(f, h), (kind, f, h)
    elif kind == "plane":
        w, l = num(rng, lo, hi), num(rng, lo, hi)
        if unit == 1 and lo <= 2 <= hi and rng.random() < 0.1:
            w = l = 2
            make = lambda: cg.XYPlane(**kw)
        else:
            make = lambda: cg.XYPlane(w, l, **kw)
        shape, desc = model.SheetShape(w, l), (kind, w, l)
    else:
        raise KeyError(kind)
    obj = make()
    ref = Leaf(shape, obj)
    ref.make, ref.desc = make, desc
    return obj, ref, desc


def rebuild(ref):
    """The same component made anew from parts that are already in their final placement: (obj, ref)"""
    if isinstance(ref, Leaf):
        obj = ref.make()
        obj.transform(np.asarray(ref.m, float))
        new = Leaf(ref.shape, obj)
        new.m, new.make, new.desc = ref.m.copy(), ref.make, ref.desc
        return obj, new
    lo, lr = rebuild(ref.left)
    ro, rr = rebuild(ref.right)
    obj = getattr(cg.csg, ref.op)(lo, ro)
    return obj, Tree(ref.op, lr, rr, obj)


def nodes(ref):
    """all parts of a component, itself included"""
    return [ref] if isinstance(ref, Leaf) else [ref] + nodes(ref.left) + nodes(ref.right)


def make_tree(rng, depth, materials=(None,), spread=1.5, kinds=LEAF_KINDS, ops=None, unit=1.0):
    """a random boolean tree of overlapping solids: (obj, ref, description)"""
    pick = materials[rng.integers(len(materials))]
    if depth == 0:
        obj, ref, desc = make_leaf(rng, kinds[rng.integers(len(kinds))], pick, 0.4, 2.5, unit)
        d = place(rng, obj, ref, rng.integers(1, 4), span=spread, unit=unit)
        return obj, ref, (desc, d)
    if depth >= 2 and rng.random() < 0.08:
        return make_chain(rng, int(rng.integers(5, 11)), materials, spread, kinds, unit)
    dl, dr = (depth - 1, rng.integers(0, depth)) if rng.random() < 0.5 else (rng.integers(0, depth), depth - 1)
    lo, lref, ld = make_tree(rng, dl, materials, spread, kinds, unit=unit)
    ro, rref, rd = make_tree(rng, dr, materials, spread, kinds, unit=unit)
    op = ("union", "intersect", "difference")[rng.integers(3)]
    obj = getattr(cg.csg, op)(lo, ro)
    ref = Tree(op, lref, rref, obj)
    d = place(rng, obj, ref, rng.integers(0, 2), span=spread, unit=unit) if rng.random() < 0.5 else []
    return obj, ref, (op, ld, rd, d)


def make_chain(rng, n, materials=(None,), spread=1.5, kinds=LEAF_KINDS, unit=1.0):
    """parts added to or removed from a body one after another: a tree as deep as it has parts"""
    obj, ref, desc = make_tree(rng, 0, materials, spread, kinds, unit=unit)
    for _ in range(n):
        part, pref, pd = make_tree(rng, 0, materials, spread * 1.5, kinds, unit=unit)
        op = ("union", "union", "difference", "difference", "intersect")[rng.integers(5)]
        if op != "difference" and rng.random() < 0.4:
            obj, ref, part, pref = part, pref, obj, ref
        obj = getattr(cg.csg, op)(obj, part)
        ref = Tree(op, ref, pref, obj)
        desc = (op, desc, pd)
    return obj, ref, desc


# ---------------------------------------------------------------- rays
def rays_at(rng, ref, n, unit=True, far=20.0, only=None):
    """n hostile rays for the object(s) modelled by ref (Leaf/Tree or list): 2x4xn float array, tags (only: the kinds to choose from)"""
    refs = ref if isinstance(ref, (list, tuple)) else [ref]
    leaves = [leaf for r in refs for leaf in r.leaves()]
    rays = np.zeros((2, 4, n))
    rays[0, 3] = 1
    tags = rng.integers(0, 13 if far >= 20 else 12, n) if only is None else np.asarray(only)[rng.integers(0, len(only), n)]
    for i in range(n):
        leaf = leaves[rng.integers(len(leaves))]
        s = leaf.shape
        u = rng.uniform(-0.15, 1.15, 3)
        target = s.lo + u.astype(LD) * (s.hi - s.lo)
        size = s.size
        tag = tags[i]
        ax = np.zeros(3, LD)
        ax[rng.integers(3)] = (-1, 1)[rng.integers(2)]
        if s.sheet and tag in (1, 2, 3, 4):
            ax = np.array([0, 0, ax.sum()], LD)
        back = LD(np.exp(rng.uniform(np.log(0.3), np.log(far)))) * size
        if tag <= 1:  # parallel to a local axis
            d, o = ax, target - ax * back
        elif tag == 2:  # nearly parallel to a local axis
            eps = 10.0 ** rng.uniform(-12, -2)
            d = ax + rng.normal(size=3) * eps
            o = target - d * back
        elif tag == 3:  # through the axis of symmetry / the centre, tilted a little or not at all
            mid = (s.lo + s.hi) / 2
            d = ax + rng.normal(size=3) * 10.0 ** rng.uniform(-9, -1) * (rng.random() < 0.5)
            o = mid - d * back
        elif tag == 12:  # from very far away, nearly parallel to a face
            d = ax + rng.normal(size=3) * 10.0 ** rng.uniform(-5.5, -3)
            o = target - d * size * LD(10.0 ** rng.uniform(3, 5.5))
        elif tag in (4, 5):  # start inside
            o = s.lo + rng.uniform(0.05, 0.95, 3) * (s.hi - s.lo)
            d = ax if tag == 4 else rng.normal(size=3)
        elif tag == 6:  # pointing away
            d = rng.normal(size=3)
            d = d / np.sqrt((d * d).sum())
            o = target + d * back
        elif tag == 7:  # a miss, nearly always
            o = target + rng.normal(size=3) * back * 2
            d = rng.normal(size=3)
        elif tag == 8:  # 45 degrees in a local plane
            d = ax + np.roll(ax, 1) * (-1, 1)[rng.integers(2)]
            o = target - d * back
        else:
            d = np.asarray(rng.normal(size=3), LD)
            d = d / np.sqrt((d * d).sum())
            o = target - d * back
        o = np.asarray(o, LD)
        d = np.asarray(d, LD)
        wo = model.mm(leaf.m[:3, :3], o) + leaf.m[:3, 3]
        wd = model.mm(leaf.m[:3, :3], d)
        wd = wd / np.sqrt((wd * wd).sum())
        if tag == 9:  # parallel to a world axis
            wd = ax
            t = model.mm(leaf.m[:3, :3], target) + leaf.m[:3, 3]
            wo = t - wd * back
        if tag == 10:  # in a world coordinate plane
            k = rng.integers(3)
            wd = np.asarray(wd).copy()
            wd[k] = 0
            if not (wd * wd).sum() > 0:
                wd[(k + 1) % 3] = 1
            wd = wd / np.sqrt((wd * wd).sum())
            t = model.mm(leaf.m[:3, :3], target) + leaf.m[:3, 3]
            wo = t - wd * back
        if not unit and rng.random() < 0.5:
            wd = wd * LD(np.exp(rng.uniform(np.log(0.02), np.log(50))))
        rays[0, :3, i] = wo.astype(float)
        rays[1, :3, i] = wd.astype(float)
    return rays, tags


class FixedSource(cg.WorldObject):
    """A source that emits given rays (2x4xn in its own coordinates) whatever count is asked for."""

    def __init__(self, rays, wavelength=0.633, intensity=100.0, index=1.0):
        super().__init__()
        self._fixed = np.asarray(rays, float)
        self.fixed_meta = (wavelength, intensity, index)
        self.lengths = 1.0  # of the direction vectors it emits

    @property
    def n(self):
        return self._fixed.shape[-1]

    def generate_rays(self, n_rays):
        rs = pyrayt.RaySet(self.n)
        m = self.get_world_transform()
        rays = np.matmul(m, self._fixed)
        rays[1] *= self.lengths / np.linalg.norm(rays[1], axis=0)
        rs.rays = rays
        rs.wavelength, rs.intensity, rs.index = self.fixed_meta
        return rs


class Recorder:
    """Wraps a source; keeps a copy of every set it hands to the tracer."""

    def __init__(self, source):
        self.source, self.given = source, []

    def generate_rays(self, n):
        rs = self.source.generate_rays(n)
        self.given.append((n, np.array(rs)))
        return rs

    def __getattr__(self, name):
        return getattr(self.source, name)
