"""C07: surface normals against gradients of the model, through boolean nesting and user inversion."""
import numpy as np

from mon import gen, model

RULE = """Half of the cases: one random surface (5 kinds) under 0-5 random placements incl. non-uniform scale and
shear; half: a random boolean tree of depth 1-3. Points are sampled on every leaf surface (also next to its edges, and taken from
intersect() hits); one solid in seven lies far from its own origin or is long and thin; normals before and after user inversion, repeated inversion and reset are compared with the model gradient,
away from edges. Non-trivial: at least one unambiguous point was judged."""
QUICK, THOROUGH = 2400, 50000
MINIMA = dict(extreme=30, other_units=90, rim_points=4000, points=40000, inverted_points=4000, odd_subtractions=500, even_subtractions=70, hit_points=4000)


def judge(ctx, leaf, pts, user, what, kind):
    """user: +1/-1 expected extra orientation"""
    n = pts.shape[1]
    p4 = np.vstack((pts.astype(float), np.ones(n)))
    keep = p4.copy()
    got = np.asarray(leaf.obj.get_world_normals(p4))
    ctx.require(np.array_equal(keep, p4), "get_world_normals changed its argument")
    ctx.require(got.shape == (4, n), lambda: f"normals of shape {got.shape} for {n} points")
    want, amb = leaf.world_normal(p4[:3])
    ok = ~amb
    ctx.count("ambiguous_points", amb.sum())
    if not ok.any():
        return 0
    w = (want * user)[:, ok].astype(float)
    g = got[:, ok]
    ctx.count("oracle_checks", ok.sum())
    bad = ~(np.abs(g[:3] - w).max(0) <= np.minimum(leaf.normal_error(p4[:3])[ok], 1e-6)) | ~(g[3] == 0) | ~(np.abs(np.linalg.norm(g[:3], axis=0) - 1) < 1e-9)
    if bad.any():
        i = int(np.nonzero(bad)[0][0])
        ctx.fail(f"wrong normal ({kind})", object=what, point=p4[:, ok][:, i], got=g[:, i], want=w[:, i])
    ctx.count("points", ok.sum())
    ctx.count(kind, ok.sum())
    return int(ok.sum())


def hit_points(leaf, rng, n):
    rays, _ = gen.rays_at(rng, leaf, n)
    t, _ = leaf.obj.intersect(rays)
    out = [rays[0, :3, i] + t[0, i] * rays[1, :3, i] for i in range(n) if np.isfinite(t[0, i])]
    return np.array(out).T if out else np.zeros((3, 0))


def case(ctx):
    rng = ctx.rng
    total, unit = 0, 1.0
    if ctx.index % 2 == 0:
        kinds = gen.LEAF_KINDS + ("plane",)
        kind = kinds[(ctx.index // 2) % 5]
        if rng.random() < 0.15 and kind in ("cylinder", "cube", "paraboloid"):
            obj, ref, desc = gen.extreme_leaf(rng, kind)
            ctx.count("extreme")
        else:
            unit = gen.some_unit(ctx)
            obj, ref, desc = gen.make_leaf(rng, kind, unit=unit)
        what = (desc, gen.place(rng, obj, ref, shear=True, unit=unit))
    else:
        unit = gen.some_unit(ctx)
        obj, ref, what = gen.make_tree(rng, int(rng.integers(1, 4)), unit=unit)
    for leaf in ref.leaves():
        k = int(rng.integers(1, 25))
        local = leaf.shape.surface_points(rng, k)
        pts = model.mm(leaf.m[:3, :3], local) + leaf.m[:3, 3:4]
        total += judge(ctx, leaf, pts, 1, what, "plain_points")
        rim = gen.rim_points(leaf.shape, rng, 8)
        if rim is not None and rim.shape[1]:
            total += judge(ctx, leaf, model.mm(leaf.m[:3, :3], rim) + leaf.m[:3, 3:4], 1, what, "rim_points")
        hp = hit_points(leaf, rng, 4)
        # near the edge of two faces, or where the hit is ill conditioned, a hit point is no witness
        if hp.shape[1]:
            res = leaf.world_normal(hp)[1]
            total += judge(ctx, leaf, hp[:, ~res], 1, what, "hit_points") if (~res).any() else 0
        # the primitive's own normal at object-space points, one and many
        w, amb = leaf.shape.normal(local)
        l4 = np.vstack((local.astype(float), np.ones(k)))
        got = np.asarray(leaf.obj.primitive.normal(l4.copy()))
        good = ~amb
        ctx.require(got.shape == (4, k) and np.allclose(got[:3, good], w[:, good].astype(float), atol=1e-6)
                    and (got[3, good] == 0).all(), "primitive.normal disagrees with the model", object=what, points=l4)
        ctx.count("odd_subtractions" if leaf.sign < 0 else "plain_leaves")
        if leaf.sign > 0 and isinstance(ref, model.Tree) and _subtracted(ref, leaf) > 0:
            ctx.count("even_subtractions")
    # user inversion: parity counts; reset takes only the user's inversions back
    times = int(rng.integers(1, 4))
    for _ in range(times):
        obj.invert_normals()
    moves = gen.place(rng, obj, ref, int(rng.integers(0, 2)), unit=unit)
    for leaf in ref.leaves():
        local = leaf.shape.surface_points(rng, 6)
        pts = model.mm(leaf.m[:3, :3], local) + leaf.m[:3, 3:4]
        total += judge(ctx, leaf, pts, (-1) ** times, (what, "inverted", times, moves), "inverted_points")
    obj.reset_normals()
    for leaf in ref.leaves():
        local = leaf.shape.surface_points(rng, 6)
        pts = model.mm(leaf.m[:3, :3], local) + leaf.m[:3, 3:4]
        total += judge(ctx, leaf, pts, 1, (what, "reset"), "reset_points")
    if total:
        ctx.observed((repr(what)), dict(object=what, points=total))


def _subtracted(tree, leaf):
    if isinstance(tree, model.Leaf):
        return 0
    if any(x is leaf for x in tree.left.leaves()):
        return _subtracted(tree.left, leaf)
    return _subtracted(tree.right, leaf) + (tree.op == "difference")
