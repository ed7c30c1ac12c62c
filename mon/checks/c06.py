"""C06: intersections of single surfaces against the extended-precision model."""
import numpy as np

import tinygfx.g3d as cg
from mon import gen, model, parts

RULE = """Random sphere / cylinder / cuboid / paraboloid / plane (round and continuous dimensions, int and float, some in other units of length),
0-5 random moves, rotations, positive scalings, rigid and sheared transforms, then a batch of 1-60 hostile rays
(axis-parallel, nearly parallel, from 1e5 sizes away, inside, away, misses, non-unit, and just inside or outside an edge). Each ray's reported distances are compared with
the model. Non-trivial: at least one unambiguous ray of the batch crosses the surface."""
QUICK, THOROUGH = 2400, 60000
MINIMA = dict(hits=20000, misses=3000, inside=2000, nearly_parallel=1500, parallel=3000, from_afar=1500, other_units=90, beside_edges=3000)
TOL = 1e-7


def compare(ctx, obj, ref, rays, what):
    """one intersect() call against the model; counts what was observed"""
    n = rays.shape[-1]
    before = rays.copy()
    t, ids = obj.intersect(rays)
    t, ids = np.asarray(t), np.asarray(ids)
    ctx.require(np.array_equal(before, rays), "intersect() changed its input rays")
    ctx.require(t.ndim == 2 and t.shape[1] == n and ids.shape == t.shape,
                lambda: f"shape of hits {t.shape} / ids {ids.shape} for {n} rays")
    R = model.as_rays(rays)
    c = model.crossings(ref, R)
    dn = np.sqrt((R[1] * R[1]).sum(0))
    scale = np.sqrt((R[0] * R[0]).sum(0)) + max(float(abs(leaf.corners()).max()) for leaf in ref.leaves())
    leaves = ref.leaves()
    seen = 0
    for i in range(n):
        if c.ambiguous[i]:
            ctx.count("ambiguous_rays")
            continue
        k = int(c.count[i])
        got = t[:, i]
        want = c.t[:k, i]
        data = lambda: dict(object=what, ray=rays[..., i], got=got, want=np.asarray(want, float), ids=ids[:, i])
        if np.isnan(got).any():
            ctx.fail("nan distance", **data())
        fin = np.isfinite(got)
        if fin.sum() != k or (got[~fin] < 0).any():
            ctx.fail(f"{int(fin.sum())} crossings reported, {k} expected", **data())
        if (np.diff(got[fin]) < 0).any() or not fin[:k].all():
            ctx.fail("distances not in ascending order", **data())
        tol = TOL * np.maximum(scale[i] / dn[i], abs(want))
        if k and (abs(got[:k] - want) > tol).any():
            ctx.fail("crossing at the wrong distance", **data())
        for j in range(k):
            if ids[j, i] != leaves[c.ids[j, i]].id:
                ctx.fail("crossing labelled with the wrong surface", expected=leaves[c.ids[j, i]].id, **data())
        ctx.count("oracle_checks")
        ctx.count("hits" if k else "misses")
        if k:
            seen += 1
            if want[0] < 0 < want[-1]:
                ctx.count("inside")
            elif want[-1] < 0:
                ctx.count("behind")
    return t, ids, c, seen


def case(ctx):
    rng = ctx.rng
    kinds = gen.LEAF_KINDS + ("plane",)
    kind = kinds[ctx.index % len(kinds)]
    unit = gen.some_unit(ctx)
    obj, ref, desc = gen.make_leaf(rng, kind, unit=unit)
    ops = gen.place(rng, obj, ref, shear=True, unit=unit)
    n = int(rng.integers(1, 4) if rng.random() < 0.15 else rng.integers(10, 60))
    if rng.random() < 0.004:
        n = int(rng.integers(1000, 3000))
    rays, tags = gen.rays_at(rng, ref, n, unit=rng.random() < 0.5)
    edge = parts.beside_edges(rng, ref, int(rng.integers(0, 12)))
    rays = np.concatenate((rays, edge), axis=2)
    n = rays.shape[-1]
    ctx.count("beside_edges", edge.shape[-1])
    ctx.count("parallel", (tags <= 1).sum())
    ctx.count("nearly_parallel", (tags == 2).sum())
    ctx.count("from_afar", (tags == 12).sum())
    t, ids, c, seen = compare(ctx, obj, ref, rays, (desc, ops))
    ctx.count("shape_" + kind)
    # a single ray may also be handed over as a bare 2x4 array
    one = obj.intersect(rays[..., 0].copy())
    a, b = np.asarray(one[0]).reshape(-1), t[:, 0]
    if not c.ambiguous[0]:
        ctx.require(a.shape == b.shape and np.allclose(a, b, rtol=TOL, atol=1e-9 * unit, equal_nan=True),
                    "a bare 2x4 ray gives other distances than the same ray in a batch", ray=rays[..., 0], got=a, want=b)
        bare = np.asarray(one[1]).reshape(-1)
        ctx.require((bare == obj.get_id()).all(), "a bare 2x4 ray is labelled wrongly")
    # the primitive answers in object space, like the surface in world space
    o, d = ref.local(model.as_rays(rays))
    loc = np.zeros((2, 4, n))
    loc[0, :3], loc[1, :3], loc[0, 3] = o.astype(float), d.astype(float), 1
    p = np.sort(np.asarray(obj.primitive.intersect(loc)), axis=0)
    for i in np.nonzero(~c.ambiguous)[0]:
        k = int(c.count[i])
        w = c.t[:2, i].astype(float)
        s = np.abs(loc[0, :3, i]).max() + float(ref.shape.size)
        tol = TOL * max(s / np.linalg.norm(loc[1, :3, i]), abs(w[0]) if k else 0)
        ok = (np.isinf(p[:, i]) & (p[:, i] > 0)).all() if not k else (abs(p[:, i] - w) <= tol).all()
        ctx.require(ok, "the surface primitive disagrees with the model", object=(desc, ops), ray=loc[..., i], got=p[:, i], want=w)
    if seen:
        ctx.observed((kind, rays.tobytes()), dict(shape=desc, ops=ops, rays=n, crossing=seen, first_ray=rays[..., 0], hits=t[:, 0]))
