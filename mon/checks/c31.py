"""C31: the coordinate, ray, colour and plane-figure helpers are plain values with their documented meaning."""
import numpy as np

import tinygfx.g3d as cg
from tinygfx.g3d import operations, primitives, world_objects
from tinygfx.g3d.materials import color, gooch

from mon import gen

RULE = """Histories of 15-60 steps over a population of points, vectors, rays, bundles and colours (made with every subset of arguments, ints, floats and arrays), run beside a shadow
copy of their numbers: single fields read and written, whole origins and directions replaced or written through, normalised in place, bundled, copied; after every step every
object of the population is compared with its shadow. In between the plane figures, the dot product, bounding boxes and the primitives' own sizes are
compared with their definition. Non-trivial: at least two kinds of objects and five writes."""
QUICK, THOROUGH = 2500, 100000
MINIMA = dict(steps=40000, field_writes=6000, ray_writes=3000, normalized=2500, bundles=1500, colours=1500, figure_points=100000, dots=3000, boxes=2000, sizes=1500, defaults=4000, constants=2500)
CONSTANTS = dict(WHITE=(1, 1, 1, 1), BLACK=(0, 0, 0, 1), RED=(1, 0, 0, 1), GREEN=(0, 1, 0, 1), BLUE=(0, 0, 1, 1), YELLOW=(1, 1, 0, 1), ORANGE=(1, 0.5, 0, 1))


def value(rng):
    return int(rng.integers(-9, 10)) if rng.random() < 0.4 else float(rng.normal() * 10.0 ** (rng.integers(-3, 4) if rng.random() < 0.8 else rng.integers(-25, 26)))


class Item:
    """an object, the numbers it must hold, and the names of its elements"""

    def __init__(self, kind, real, want, names):
        self.kind, self.real, self.want, self.names = kind, real, np.array(want, float), names


def arguments(ctx, rng, names, defaults):
    """some of the arguments, by position or by name -> (args, kwargs, resulting values)"""
    vals = [value(rng) for _ in names]
    k = int(rng.integers(0, len(names) + 1))
    args, kw = vals[:k], {}
    out = list(defaults)
    out[:k] = args
    for i in range(k, len(names)):
        if rng.random() < 0.3:
            kw[names[i]] = out[i] = vals[i]
        else:
            ctx.count("defaults")
    return args, kw, out


def make(ctx, rng, pool):
    k = rng.integers(5)
    if k == 0:
        a, kw, v = arguments(ctx, rng, "xyz", (0, 0, 0))
        return Item("point", cg.Point(*a, **kw), v + [1], "xyzw")
    if k == 1:
        a, kw, v = arguments(ctx, rng, "xyz", (0, 0, 0))
        return Item("vector", cg.Vector(*a, **kw), v + [0], "xyzw")
    if k == 2:
        a, kw, v = arguments(ctx, rng, "xyzw", (0, 0, 0, 0))
        return Item("coordinate", primitives.HomogeneousCoordinate(*a, **kw), v, "xyzw")
    if k == 3:
        a, kw, v = arguments(ctx, rng, "rgba", (0, 0, 0, 1))
        ctx.count("colours")
        return Item("colour", color.RGBAColor(*a, **kw), v, "rgba")
    args, kw, want = [], {}, np.array([[0, 0, 0, 1], [1, 0, 0, 0]], float)
    for i, name in enumerate(("origin", "direction")):
        if rng.random() < 0.6:
            new = source(rng, pool)
            want[i] = np.array(new, float)
            if len(args) == i and rng.random() < 0.5:
                args.append(new)
            else:
                kw[name] = new
        else:
            ctx.count("defaults")
    return Item("ray", cg.Ray(*args, **kw), want, None)


def source(rng, pool):
    """four numbers to be copied from: a member of the pool, a new object or an array"""
    mine = [x.real for x in pool if x.kind in ("point", "vector", "coordinate")]
    k = rng.integers(3)
    if k == 0 and mine:
        return mine[rng.integers(len(mine))]
    v = [value(rng) for _ in range(3)]
    return (cg.Point(*v), cg.Vector(*v), np.array(v + [0.5]))[rng.integers(3)]


def settle(ctx, want, got):
    """after normalize(): the object must hold the unit vector up to rounding; from then on exactly what it holds"""
    unit = want.copy()
    unit[:3] /= np.linalg.norm(unit[:3])
    got = np.array(got, float)
    ctx.require(np.abs(got - unit).max() < 1e-14 and got[3] == want[3], "normalize() does not give the coordinates unit length", got=got, want=unit)
    return got


def step(ctx, rng, pool):
    x = pool[rng.integers(len(pool))]
    if x.kind == "ray":
        i = int(rng.integers(2))
        name = ("origin", "direction")[i]
        k = rng.integers(5)
        part = getattr(x.real, name)
        ctx.require(np.shape(part) == (4,) and np.array_equal([part.x, part.y, part.z, part.w], x.want[i]), f"{name} of a ray shows other numbers", got=np.asarray(part), want=x.want[i])
        if k == 0:
            new = source(rng, pool)
            x.want[i] = np.array(new, float)
            setattr(x.real, name, new)
        elif k == 1:
            v, f = value(rng), "xyzw"[rng.integers(4)]
            setattr(part, f, v)
            x.want[i]["xyzw".index(f)] = v
        elif k == 2 and np.linalg.norm(x.want[i][:3]) > 1e-100:
            part.normalize()
            x.want[i] = settle(ctx, x.want[i], x.real[i])
            ctx.count("normalized")
        elif k == 3:
            v = value(rng)
            x.real[i, 2] = v
            x.want[i, 2] = v
        else:
            x.real = x.real.copy() if rng.random() < 0.5 else x.real
            ctx.require(np.array_equal(getattr(x.real, name).view(np.ndarray), x.want[i]), "a copied ray differs")
        ctx.count("ray_writes")
        return
    k = rng.integers(4)
    if k <= 1:
        f = x.names[rng.integers(4)]
        v = value(rng)
        setattr(x.real, f, v)
        x.want[x.names.index(f)] = v
        ctx.count("field_writes")
    elif k == 2:
        i, v = int(rng.integers(4)), value(rng)
        x.real[i] = v
        x.want[i] = v
    elif x.kind != "colour" and np.linalg.norm(x.want[:3]) > 1e-100:
        if rng.random() < 0.2:  # tiny and huge as a whole
            for f in range(3):
                x.real[f] = x.want[f] = x.want[f] * 1e-12 if rng.random() < 0.8 else x.want[f] * 1e9
            ctx.count("rescaled")
        out = x.real.normalize()
        x.want[:] = settle(ctx, x.want, x.real)
        ctx.require(out is x.real, "normalize() does not return the object itself")
        ctx.count("normalized")


def compare(ctx, pool):
    for x in pool:
        got = np.asarray(x.real, float)
        ctx.require(got.shape == x.want.shape and (np.abs(got - x.want) <= 1e-12 * np.abs(x.want)).all(), f"a {x.kind} holds other numbers", got=got, want=x.want)
        if x.names:
            ctx.require(np.array_equal([getattr(x.real, f) for f in x.names], got), f"the fields of a {x.kind} do not show its elements")
    ctx.count("steps")


def bundles(ctx, rng, pool):
    rays = [x for x in pool if x.kind == "ray"]
    n = int(rng.integers(0, 30))
    b = cg.bundle_of_rays(n)
    want = np.zeros((2, 4, n))
    want[0, 3] = 1
    ctx.require(np.shape(b) == (2, 4, n) and np.array_equal(b, want), "bundle_of_rays() is not n points at the origin with zero vectors", n=n)
    b[...] = 5
    ctx.require(np.array_equal(cg.bundle_of_rays(n), want), "bundle_of_rays() hands out the same memory twice")
    if rays:
        pick = [rays[i] for i in rng.integers(0, len(rays), rng.integers(1, 6))]
        b = primitives.bundle_rays([x.real for x in pick])
        ctx.require(np.shape(b) == (2, 4, len(pick)) and all(np.allclose(b[..., i], x.want, rtol=1e-12, atol=1e-12) for i, x in enumerate(pick)), "bundle_rays() mixes up rays")
        b[...] = 3
    ctx.count("bundles")


def figures(ctx, rng):
    n = int(rng.integers(1, 60))
    k = rng.integers(3)
    unit = 10.0 ** rng.uniform(-14, 14) if rng.random() < 0.3 else 1.0
    if k < 2:
        r = gen.num(rng, 0.1, 10) * unit
        fig = primitives.Disk(r) if k == 0 and rng.random() < 0.5 else primitives.Disk.from_diameter(2 * r)
        if rng.random() < 0.1:
            fig, r = primitives.Disk(), 1.0
        sx, sy = r, r
        inside = lambda p: np.hypot(p[0], p[1]) - r
    else:
        sx, sy = gen.num(rng, 0.1, 10) * unit, gen.num(rng, 0.1, 10) * unit
        style = rng.integers(4)
        if style == 0:
            fig = primitives.Rectangle(2 * sx, 2 * sy)
        elif style == 1:
            fig = primitives.Rectangle(y_length=2 * sy, x_length=2 * sx)
        elif style == 2:
            fig, sy = primitives.Rectangle(2 * sx), 1.0
        else:
            fig, sx, sy = primitives.Rectangle(), 1.0, 1.0
        inside = lambda p: np.maximum(np.abs(p[0]) - sx, np.abs(p[1]) - sy)
    p = rng.uniform(-1.6, 1.6, (2, n)) * [[sx], [sy]]
    d = inside(p)
    clear = np.abs(d) > 1e-9 * np.minimum(sx, sy)
    was = p.copy()
    got = np.asarray(fig.point_in_shape(p))
    ctx.require(np.array_equal(p, was), "point_in_shape() changed its points")
    ctx.require(got.shape == (n,) and (got.astype(bool) == (d < 0))[clear].all(), "point_in_shape() is wrong", figure=type(fig).__name__, half=(sx, sy), points=p[:, clear & (got.astype(bool) != (d < 0))][:, :3])
    i = int(rng.integers(n))
    one = fig.point_in_shape(p[:, i].copy())
    ctx.require(np.ndim(one) == 0 and (not clear[i] or bool(one) == (d[i] < 0)), "point_in_shape() of a single point is wrong", point=p[:, i])
    ctx.count("figure_points", n)


def helpers(ctx, rng):
    m, n = int(rng.integers(1, 8)), int(rng.integers(1, 40))
    a, b = rng.normal(size=(2, m, n)) * 10.0 ** (rng.integers(-3, 4) if rng.random() < 0.8 else rng.integers(-20, 21))
    for got, want, size in ((operations.element_wise_dot(a, b, axis=0), (a * b).sum(0), n), (operations.element_wise_dot(a, b), (a * b).sum(0), n),
                            (operations.element_wise_dot(a, b, axis=1), (a * b).sum(1), m), (operations.element_wise_dot(a[0], b[0]), (a[0] * b[0]).sum(), None)):
        ctx.require(np.shape(got) == (() if size is None else (size,)) and np.allclose(got, want, rtol=1e-9, atol=1e-13 * np.abs(a).max() * np.abs(b).max() * max(m, n)), "element_wise_dot() is wrong", shape=(m, n))
        ctx.count("dots")
    pts = np.ones((4, n))
    pts[:3] = rng.normal(size=(3, n)) * 10.0 ** rng.integers(-2, 3) + rng.normal(size=(3, 1)) * 5
    box = world_objects.bounding_box(pts)
    span = np.asarray(box.axis_spans, float)
    ctx.require(span.shape == (3, 2) and np.array_equal(span[:, 0], pts[:3].min(1)) and np.array_equal(span[:, 1], pts[:3].max(1)), "bounding_box() is not the box of the points", got=span)
    c = np.asarray(box.bounding_points)
    want = {(x, y, z, 1.0) for x in span[0] for y in span[1] for z in span[2]}
    ctx.require(c.shape == (4, 8) and {tuple(v) for v in c.T.tolist()} == want, "the bounding points of a box are not its corners", got=c)
    ctx.count("boxes")
    # what a shape was made with does not depend on where it is
    kind = ("sphere", "cylinder", "paraboloid")[rng.integers(3)]
    obj, ref, desc = gen.make_leaf(rng, kind)
    size = (lambda: obj.primitive.get_focus()) if kind == "paraboloid" else (lambda: obj.primitive.get_radius())
    want = desc[1] if len(desc) > 1 else 1
    for _ in range(3):
        ctx.require(size() == want, "the size of a primitive is not the one it was made with", kind=kind, got=size(), want=want)
        gen.apply(obj, None, gen.random_op(rng))
        ctx.count("sizes")


def case(ctx):
    rng = ctx.rng
    pool = [make(ctx, rng, []) for _ in range(rng.integers(1, 4))]
    for _ in range(rng.integers(15, 60)):
        k = rng.random()
        if k < 0.15 and len(pool) < 12:
            pool.append(make(ctx, rng, pool))
        elif k < 0.2:
            bundles(ctx, rng, pool)
        elif k < 0.25:
            figures(ctx, rng)
        else:
            step(ctx, rng, pool)
        compare(ctx, pool)
    for _ in range(2):
        figures(ctx, rng)
    helpers(ctx, rng)
    for name, want in CONSTANTS.items():
        ctx.require(np.array_equal(np.asarray(getattr(color, name)), want), f"the colour {name} is another one", got=getattr(color, name))
        m = getattr(gooch, name)
        ctx.require(np.array_equal(np.asarray(m.base_color), want), f"the material {name} has another colour", got=m.base_color)
    ctx.count("constants")
    if len({x.kind for x in pool}) > 1:
        ctx.observed(([x.kind for x in pool], [x.want.tobytes() for x in pool]), dict(kinds=[x.kind for x in pool]))
