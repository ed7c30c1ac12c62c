"""C04: mirrors reflect by the law of reflection."""
import numpy as np

import tinygfx.g3d as cg
import pyrayt
import pyrayt.materials as matl

from mon import gen, model, trace

RULE = """Two thirds: random systems with mirrors (primitives, planes, boolean trees with subtracted mirrors, scaled, rotated and sheared, often
a mirrored cavity) traced for up to 12 generations, half of them again after moves of components or their parts; each interaction is compared with the reflection about the model's normal. One third:
reflect() on random unit vector / normal arrays of every documented form, and the mirror material on ray sets placed on surfaces.
Non-trivial: at least one judged reflection."""
QUICK, THOROUGH = 600, 15000
MINIMA = dict(mirror_interactions=8000, on_subtracted_surfaces=150, reflect_columns=2000, material_columns=3600, moved_between_traces=100)
def unit(v):
    return v / np.linalg.norm(v, axis=0)


def arrays(ctx):
    rng = ctx.rng
    n = int(rng.integers(1, 40))
    m = (3, 4)[rng.integers(2)]
    d = np.zeros((m, n))
    nn = np.zeros((m, n))
    d[:3], nn[:3] = unit(rng.normal(size=(3, n))), unit(rng.normal(size=(3, n)))
    k = rng.random(n)
    nn[:3, k < 0.1] = d[:3, k < 0.1]  # head on
    nn[:3, (k > 0.1) & (k < 0.2)] *= -1
    if rng.random() < 0.3:
        d[:3] *= rng.uniform(0.1, 5, n)  # any length: reflection keeps it
    want = (d[:3].astype(np.longdouble) - 2 * (d[:3].astype(np.longdouble) * nn[:3]).sum(0) * nn[:3]).astype(float)
    got = cg.reflect(d.copy(), nn.copy())
    ctx.require(got.shape == d.shape and np.allclose(got[:3], want, atol=1e-12) and (m == 3 or (got[3] == 0).all()),
                "reflect() of arrays is not the reflection", vectors=d, normals=nn, got=got)
    one = cg.reflect(d[:, 0].copy(), nn[:, 0].copy())
    ctx.require(one.shape == (m,) and np.allclose(one[:3], want[:, 0], atol=1e-12), "reflect() of single vectors", got=one)
    same = cg.reflect(d.copy(), nn[:, 0].copy())
    w = d[:3] - 2 * (d[:3] * nn[:3, :1]).sum(0) * nn[:3, :1]
    ctx.require(same.shape == d.shape and np.allclose(same[:3], w, atol=1e-12), "reflect() of many vectors by one normal", got=same)
    ctx.count("reflect_columns", 2 * n + 1)
    # the material on a ray set lying on a surface
    obj, ref, desc = gen.make_leaf(rng, None if rng.random() < 0.8 else "plane")
    gen.place(rng, obj, ref, shear=True)
    for again in range(3):
        if again:
            gen.place(rng, obj, ref, 1, shear=True)
        on_surface(ctx, obj, ref, desc, n)


def on_surface(ctx, obj, ref, desc, n):
    rng = ctx.rng
    pts = ref.shape.surface_points(rng, n)
    w = (model.mm(ref.m[:3, :3], pts) + ref.m[:3, 3:4]).astype(float)
    normal, amb = ref.world_normal(w)
    rs = pyrayt.RaySet(n)
    rs.rays[0, :3] = w
    dirs = unit(rng.normal(size=(3, n)))
    rs.rays[1, :3] = dirs
    rs.wavelength, rs.intensity, rs.index = rng.uniform(0.3, 1, n), rng.uniform(0, 100, n), rng.uniform(1, 2, n)
    if rng.random() < 0.3:  # a reflection keeps the length
        rs.rays[1] *= 10.0 ** rng.uniform(-4, 3, n)
    length = np.linalg.norm(rs.rays[1], axis=0)
    before = np.array(rs)
    out = matl.mirror.trace(obj, rs)
    ctx.require(np.array_equal(np.array(out)[8:], before[8:]) and np.array_equal(out.rays[0], before[:4]), "a mirror changes more than the direction")
    want = model.reflect(dirs.astype(np.longdouble), normal).astype(float)
    err = np.abs(np.asarray(out.rays[1])[:3] / length - want).max(0)
    ctx.require((err[~amb] < 2 * np.minimum(ref.normal_error(w), 1e-6)[~amb]).all(), "the mirror material does not reflect about the surface normal", surface=desc, worst=err.max())
    ctx.count("material_columns", (~amb).sum())
    ctx.observed((w.tobytes(),), dict(surface=desc, columns=n))


def case(ctx):
    rng = ctx.rng
    if ctx.index % 3 == 2:
        return arrays(ctx)
    kinds = ("mirror",) if rng.random() < 0.6 else ("mirror", "mirror", "glass")
    scene = trace.make_scene(rng, int(rng.integers(1, 6)), kinds, cavity=("mirror",) if rng.random() < 0.6 else None, thin=0.06, roam=0.12, crowd=0.03, copies=0.08)
    refs = [r for _, r in scene]
    n = int(rng.integers(1, 40))
    sources = trace.make_sources(rng, refs, int(rng.integers(1, 3)), n)
    tracer = pyrayt.RayTracer(sources, [o for o, _ in scene], rays_per_source=n, generation_limit=int(rng.integers(2, 13)))
    judged = 0
    for again in range(1 + 2 * (rng.random() < 0.5)):  # the same mirrors once more, somewhere else
        if again:
            trace.disturb(rng, refs)
            ctx.count("moved_between_traces")
        rows = trace.Rows(tracer.trace())
        judged += trace.check_laws(ctx, rows, refs, ("mirror",))
    if judged:
        ctx.observed((rows.p1.tobytes(),), dict(rows=rows.n, reflections=judged, first=rows.row(0)))
