"""C08: boolean solids against point membership between crossings; array_csg against interval sets."""
import numpy as np

import tinygfx.g3d as cg
from tinygfx.g3d import csg

from mon import gen, model, parts
from mon.checks.c06 import compare

RULE = """Random boolean trees of depth 1-4 over 4 solid kinds (overlapping, disjoint, nested in one another), parts and
intermediate results moved and scaled at random, some in other units of length; sheets (planes) with up to 3 solids subtracted; raw array_csg calls on
random sorted interval lists. 20-60 hostile rays per tree, and two bundles of 2-8 parallel rays or fans, compared crossing by crossing with the membership model.
Non-trivial: some unambiguous ray crosses the resulting solid."""
QUICK, THOROUGH = 1800, 40000
MINIMA = dict(hits=9000, misses=5000, inside=1500, union=300, intersect=300, difference=300, sheet_hits=1500,
              multi_crossings=400, array_cases=300, bundles=900, split_bundles=170, other_units=30, beside_edges=2000)


def case(ctx):
    rng = ctx.rng
    mode = ctx.index % 6
    if mode == 5:
        return arrays(ctx)
    if mode == 4:
        return sheet(ctx)
    unit = 1.0
    if mode == 3:
        obj, ref, what = placed_pair(ctx)
    else:
        unit = gen.some_unit(ctx)
        obj, ref, what = gen.make_tree(rng, int(rng.integers(1, 5 if ctx.tier == "thorough" else 4)),
                                       spread=float(rng.uniform(0.3, 2.5)), unit=unit)
    ops = gen.place(rng, obj, ref, int(rng.integers(0, 4)), unit=unit)
    n = int(rng.integers(1, 4) if rng.random() < 0.1 else rng.integers(20, 60))
    rays, _ = gen.rays_at(rng, ref, n, unit=rng.random() < 0.6)
    edge = parts.beside_edges(rng, ref, int(rng.integers(0, 16)))
    rays = np.concatenate((rays, edge), axis=2)
    ctx.count("beside_edges", edge.shape[-1])
    _, _, c, seen = compare(ctx, obj, ref, rays, (what, ops))
    for _ in range(2):
        few = bundle(rng, ref)
        _, _, cf, _ = compare(ctx, obj, ref, few, (what, ops))
        ctx.count("bundles")
        ctx.count("split_bundles", int(len(set((cf.count > 0)[~cf.ambiguous])) > 1))
    tally(ctx, ref)
    ctx.count("multi_crossings", ((c.count > 2) & ~c.ambiguous).sum())
    if seen:
        ctx.observed((repr(what), rays.tobytes()), dict(tree=what, moved=ops, rays=n, crossing=seen))


def bundle(rng, ref):
    """a few parallel rays that share a coordinate of their starts, some of which may miss"""
    n = int(rng.integers(2, 9))
    lo, hi = (v.astype(float) for v in ref.box())
    mid, half = (lo + hi) / 2, (hi - lo) / 2 * 1.001
    ax = int(rng.integers(3))
    rays = np.zeros((2, 4, n))
    rays[0, 3] = 1
    rays[0, :3] = mid[:, None] + rng.uniform(-1.4, 1.4, (3, n)) * half[:, None]
    rays[0, ax] = mid[ax] - half[ax] * rng.choice([-1.5, 1.5, 3.0, 0.0])
    if rng.random() < 0.4:
        rays[0, (ax + 1) % 3] = rays[0, (ax + 1) % 3, 0]
    d = np.zeros(3)
    d[ax] = rng.choice([-1, 1])
    if rng.random() < 0.4:
        d = d + rng.normal(size=3) * 0.3
    rays[1, :3] = (d / np.linalg.norm(d))[:, None]
    if rng.random() < 0.3:  # a fan instead
        rays[0] = rays[0, :, :1]
        v = rng.normal(size=(3, n)) * 0.5 + d[:, None]
        rays[1, :3] = v / np.linalg.norm(v, axis=0)
    return rays


def tally(ctx, ref):
    if isinstance(ref, model.Tree):
        ctx.count(ref.op)
        tally(ctx, ref.left)
        tally(ctx, ref.right)


def placed_pair(ctx):
    """two solids in a chosen relation: disjoint, one inside the other, or overlapping - then maybe a third"""
    rng = ctx.rng
    a, ra, da = gen.make_leaf(rng)
    b, rb, db = gen.make_leaf(rng)
    rel = rng.integers(3)
    size = float(ra.shape.size)
    desc = []
    if rel == 0:  # disjoint
        v = rng.normal(size=3)
        v *= (size + float(rb.shape.size)) * rng.uniform(1.8, 4) / np.linalg.norm(v)
        ops = [("move", tuple(v))]
    elif rel == 1:  # nested
        s = size * 0.2 / float(rb.shape.size)
        c = (ra.shape.lo + ra.shape.hi) / 2 - (rb.shape.lo + rb.shape.hi) / 2 * s
        ops = [("scale_all", (float(s),)), ("move", tuple(float(x) for x in c))]
    else:
        ops = [("move", tuple(float(x) for x in rng.uniform(-size, size, 3)))]
    for op in ops:
        gen.apply(b, rb, op)
    op = ("union", "intersect", "difference")[rng.integers(3)]
    if rng.random() < 0.5:
        a, ra, b, rb = b, rb, a, ra
    obj = getattr(csg, op)(a, b)
    ref = model.Tree(op, ra, rb, obj)
    ctx.count(("disjoint", "nested", "overlapping")[rel])
    if rng.random() < 0.4:
        c, rc, dc = gen.make_leaf(rng)
        desc += [dc, gen.place(rng, c, rc, 2)]
        op2 = ("union", "intersect", "difference")[rng.integers(3)]
        if rng.random() < 0.5:
            obj = getattr(csg, op2)(obj, c)
            ref = model.Tree(op2, ref, rc, obj)
        else:
            obj = getattr(csg, op2)(c, obj)
            ref = model.Tree(op2, rc, ref, obj)
        desc.append(op2)
    return obj, ref, (op, da, db, ops, desc)


def sheet(ctx):
    rng = ctx.rng
    obj, ref, what = gen.make_leaf(rng, "plane", lo=1, hi=5)
    parts = [what]
    for _ in range(rng.integers(1, 4)):
        c, rc, dc = gen.make_leaf(rng, lo=0.2, hi=2)
        ops = gen.place(rng, c, rc, int(rng.integers(0, 3)), span=1.0)
        obj = csg.difference(obj, c)
        ref = model.Tree("difference", ref, rc, obj)
        parts += [dc, ops]
    ops = gen.place(rng, obj, ref, int(rng.integers(0, 3)))
    rays, _ = gen.rays_at(rng, ref, int(rng.integers(20, 60)), unit=rng.random() < 0.6)
    before = ctx.counts.get("hits", 0)
    _, _, c, seen = compare(ctx, obj, ref, rays, (parts, ops))
    ctx.count("sheet_hits", ctx.counts.get("hits", 0) - before)
    if seen:
        ctx.observed((repr(parts), rays.tobytes()), dict(sheet=parts, moved=ops, crossing=seen))


def arrays(ctx):
    """array_csg on random interval lists; expected boundaries by membership of midpoints"""
    rng = ctx.rng
    op = ("UNION", "INTERSECT", "DIFFERENCE")[rng.integers(3)]
    n = int(rng.integers(1, 20))
    ka, kb = 2 * int(rng.integers(1, 4)), 2 * int(rng.integers(1, 4))
    a, b = np.full((ka, n), np.inf), np.full((kb, n), np.inf)
    for i in range(n):
        for arr in (a, b):
            m = 2 * int(rng.integers(0, arr.shape[0] // 2 + 1))
            arr[:m, i] = np.sort(rng.choice([-1, 1], m) * rng.uniform(0.01, 10, m))
    one_d = rng.random() < 0.3
    if one_d:
        n, a, b = 1, a[:, :1], b[:, :1]
    keep = a.copy(), b.copy()
    args = (a[:, 0].copy(), b[:, 0].copy()) if one_d else (a, b)
    sort = rng.random() < 0.7
    out = csg.array_csg(*args, csg.Operation[op], sort_output=sort)
    out = np.asarray(out).reshape(-1, n)
    ctx.require(np.array_equal(keep[0], a) and np.array_equal(keep[1], b), "array_csg changed its input")
    for i in range(n):
        ends = np.sort(np.concatenate((a[:, i], b[:, i])))
        ends = ends[np.isfinite(ends)]
        mids = np.concatenate(([ends[0] - 1], (ends[1:] + ends[:-1]) / 2, [ends[-1] + 1])) if len(ends) else np.array([0.0])
        ina = _within(mids, a[:, i])
        inb = _within(mids, b[:, i])
        m = ina | inb if op == "UNION" else ina & inb if op == "INTERSECT" else ina & ~inb
        want = ends[m[1:] != m[:-1]]
        got = out[:, i]
        fin = got[np.isfinite(got)]
        fin = fin if sort else np.sort(fin)
        good = len(fin) == len(want) and (fin == want).all() and not np.isnan(got).any() and (got[~np.isfinite(got)] > 0).all()
        if sort and good:
            good = (got[:len(want)] == want).all()
        ctx.require(good, f"array_csg {op} of interval lists is wrong", a=a[:, i], b=b[:, i], got=got, want=want)
    ctx.count("array_cases")
    ctx.observed((op, a.tobytes(), b.tobytes()), dict(operation=op, a=a[:, 0], b=b[:, 0], result=out[:, 0]))


def _within(x, ends):
    e = ends[np.isfinite(ends)].reshape(-1, 2)
    return ((x[:, None] > e[:, 0]) & (x[:, None] < e[:, 1])).any(1) if len(e) else np.zeros(len(x), bool)
