"""C13: rays and components do not influence one another."""
import numpy as np

import tinygfx.g3d as cg
import pyrayt
import pyrayt.components as pc
from pyrayt import utils

from mon import gen, model, trace
from mon.model import LD

RULE = """Odd cases: a random system is traced once; then the same emitted rays are traced in another order, split over other sources, as a subset, one
alone, duplicated, and with the components listed in another order; the chains of every ray are compared under relabelling (as far as they are
insensitive to disturbances of 1e-8). Even cases: intersect() of surfaces and boolean trees, normals, materials, reflect, refract, index models, root
helpers and colours of a batch against permuted sub-batches and single columns. Non-trivial: rays with at least two different chain lengths or hits."""
QUICK, THOROUGH = 400, 12000
MINIMA = dict(compared_rows=5000, batch_columns=10000, permutations=50, splits=50, alone=50, reordered=40, large_batches=250, many_columns=40)


def close(ctx, a, b, what, tol=1e-8, **info):
    a, b = np.asarray(a, float), np.asarray(b, float)
    ctx.require(a.shape == b.shape, f"{what}: the batch gives another shape", batch=a.shape, part=b.shape, **info)
    same = (a == b) | (np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= tol * (1 + np.abs(b)))
    ctx.require(same.all(), f"{what}: a column depends on its neighbours", batch=a[~same][:5], part=b[~same][:5], **info)
    ctx.count("batch_columns", a.shape[-1] if a.ndim else 1)


def rows_of(answer, least=0):
    """an answer of intersect() with rows of infinities added: their number says nothing"""
    t, ids = (np.asarray(v) for v in answer)
    more = max(0, least - len(t))
    return np.pad(t, ((0, more), (0, 0)), constant_values=np.inf), np.pad(ids, ((0, more), (0, 0)), constant_values=-1)


def batches(ctx):
    rng = ctx.rng
    n = int(rng.integers(2, 50))
    part = rng.permutation(n)[:rng.integers(1, n + 1)]
    one = int(rng.integers(n))
    # intersections
    if rng.random() < 0.5:
        obj, ref, what = gen.make_tree(rng, int(rng.integers(1, 4)))
    else:
        obj, ref, what = gen.make_leaf(rng, (gen.LEAF_KINDS + ("plane",))[rng.integers(5)])
        gen.place(rng, obj, ref, shear=True)
    rays, tags = gen.rays_at(rng, ref, n, unit=rng.random() < 0.5)
    c = model.crossings(ref, model.as_rays(rays))
    ok = ~c.ambiguous
    t, ids = rows_of(obj.intersect(rays.copy()))
    for sel in (part, np.array([one]), np.arange(n)[::-1]):
        t2, ids2 = rows_of(obj.intersect(rays[..., sel].copy()), len(t))
        if len(t2) > len(t):
            t, ids = rows_of((t, ids), len(t2))
        keep = ok[sel]
        scale = 1 + np.abs(rays[0][:, sel]).max()
        close(ctx, t[:, sel][:, keep] / scale, t2[:, keep] / scale, "intersect()", object=what)
        hit = np.isfinite(t2) & keep
        ctx.require(np.array_equal(np.asarray(ids)[:, sel][hit], np.asarray(ids2)[hit]), "intersect(): labels depend on the batch", object=what)
    # much larger batches, of rays almost parallel to a face too
    for k in range(4):
        if k:
            o2, r2, w2 = gen.make_leaf(rng, (gen.LEAF_KINDS + ("plane",))[rng.integers(5)])
            gen.place(rng, o2, r2)
            few, _ = gen.rays_at(rng, r2, 12, only=(1, 2, 2, 3))
            fine2 = ~model.crossings(r2, model.as_rays(few)).ambiguous
            tf, _ = rows_of(o2.intersect(few.copy()))
        else:
            o2, w2, few, fine2, tf = obj, what, rays, ok, t
        m = few.shape[-1]
        big = np.tile(few, (1, 1, int(rng.integers(2, 4 if rng.random() < 0.2 else 5000 // m if rng.random() < 0.9 else 20000 // m))))
        if rng.random() < 0.5:
            mid = slice(m, big.shape[2] - m)
            big[1, :3, mid] = big[1, :3, mid] + rng.normal(size=(3, big.shape[2] - 2 * m)) * 0.1
        tb, idb = rows_of(o2.intersect(big.copy()), len(tf))
        tf, _ = rows_of((tf, tf), len(tb))
        scale = 1 + np.abs(few[0]).max()
        close(ctx, tf[:, fine2] / scale, tb[:, :m][:, fine2] / scale, "intersect(), a large batch", object=w2, columns=big.shape[2])
        close(ctx, tf[:, fine2] / scale, tb[:, -m:][:, fine2] / scale, "intersect(), the end of a large batch", object=w2, columns=big.shape[2])
        ctx.count("large_batches")
    # normals and materials, on surface points
    leaf = ref.leaves()[rng.integers(len(ref.leaves()))]
    pts = np.ones((4, n))
    loc = leaf.shape.surface_points(rng, n)
    pts[:3] = (model.mm(leaf.m[:3, :3], loc) + leaf.m[:3, 3:4]).astype(float)
    nrm, amb = leaf.world_normal(pts[:3])
    good = ~np.asarray(amb)
    normals = leaf.obj.get_world_normals(pts.copy())
    spec = trace.random_spec(rng, ("mirror", "glass", "absorber", "glass"))
    rs = pyrayt.RaySet(n)
    rs.rays[0] = pts
    d = rng.normal(size=(3, n))
    rs.rays[1, :3] = d / np.linalg.norm(d, axis=0)
    rs.wavelength, rs.intensity, rs.index = trace.wavelengths(rng, n, 0.35, 1.0), rng.uniform(1, 100, n), rng.uniform(1, 2, n)
    law = spec.law(rs.rays[1, :3].astype(LD), nrm, rs.index.astype(LD), rs.wavelength.astype(LD), rs.intensity.astype(LD))
    fine = good & ~law["ambiguous"]
    whole = np.array(spec.mat.trace(leaf.obj, rs.copy()))
    V, N = rs.rays[1].copy(), np.array(normals)
    ref_all = cg.reflect(V.copy(), N.copy())
    rr, ri = cg.refract(V.copy(), N.copy(), np.array(rs.index), np.full(n, 1.6))
    cosn = (V * N).sum(0)
    rad = 1 - (np.array(rs.index) / np.where(cosn > 0, 1, 1.6)) ** 2 * (1 - cosn ** 2)
    calm = good & (abs(rad) > 1e-9) & (abs(cosn) > 1e-9)
    for sel in (part, np.array([one])):
        g = good[sel]
        close(ctx, normals[:, sel][:, g], leaf.obj.get_world_normals(pts[:, sel].copy())[:, g], "get_world_normals()")
        f = fine[sel]
        close(ctx, whole[:, sel][:, f], np.array(spec.mat.trace(leaf.obj, rs[..., sel].copy()))[:, f], f"{spec.kind} material")
        close(ctx, ref_all[:, sel], cg.reflect(V[:, sel].copy(), N[:, sel].copy()), "reflect()")
        r2, i2 = cg.refract(V[:, sel].copy(), N[:, sel].copy(), np.array(rs.index)[sel], np.full(len(sel), 1.6))
        close(ctx, rr[:, sel][:, calm[sel]], r2[:, calm[sel]], "refract()")
        close(ctx, np.broadcast_to(ri, n)[sel][calm[sel]], np.broadcast_to(i2, len(sel))[calm[sel]], "refract() index")
        if spec.kind == "glass":
            close(ctx, np.broadcast_to(spec.mat.index_at(np.array(rs.wavelength)), n)[sel], spec.mat.index_at(np.array(rs.wavelength)[sel]), "index_at()")
        close(ctx, utils.wavelength_to_rgb(np.array(rs.wavelength))[sel].T, utils.wavelength_to_rgb(np.array(rs.wavelength)[sel]).T, "wavelength_to_rgb()")
    # many columns at once
    m = int(rng.integers(2, 40 if rng.random() < 0.8 else 400))
    many = rng.permutation(np.tile(np.arange(n), m))
    g, f, c2 = good[many], fine[many], calm[many]
    close(ctx, leaf.obj.get_world_normals(pts[:, many].copy())[:, g], normals[:, many][:, g], "get_world_normals(), many points", 1e-11)
    close(ctx, np.array(spec.mat.trace(leaf.obj, rs[..., many].copy()))[:, f], whole[:, many][:, f], f"{spec.kind} material, many rays", 1e-10)
    close(ctx, cg.reflect(V[:, many].copy(), N[:, many].copy()), ref_all[:, many], "reflect(), many columns", 1e-12)
    r2, i2 = cg.refract(V[:, many].copy(), N[:, many].copy(), np.array(rs.index)[many], np.full(len(many), 1.6))
    close(ctx, r2[:, c2], rr[:, many][:, c2], "refract(), many columns", 1e-11)
    close(ctx, np.broadcast_to(i2, len(many))[c2], np.broadcast_to(ri, n)[many][c2], "refract() index, many columns", 1e-12)
    close(ctx, utils.wavelength_to_rgb(np.array(rs.wavelength)[many]).T, utils.wavelength_to_rgb(np.array(rs.wavelength))[many].T, "wavelength_to_rgb(), many columns", 1e-12)
    ctx.count("many_columns", int(len(many) > 256))
    # root helpers with mixed kinds of columns
    a = np.where(rng.random(n) < 0.3, 0.0, rng.normal(size=n) * 10 ** rng.uniform(-6, 3, n))
    b = np.where(rng.random(n) < 0.2, 0.0, rng.normal(size=n) * 10 ** rng.uniform(-3, 3, n))
    k = rng.normal(size=n) * 10 ** rng.uniform(-3, 3, n)
    from tinygfx.g3d import operations as op
    for fn in (op.binomial_root, op.smallest_positive_root):
        w = fn(a.copy(), b.copy(), k.copy())
        for sel in (part, np.array([one])):
            g = fn(a[sel].copy(), b[sel].copy(), k[sel].copy())
            close(ctx, w[..., sel], g, fn.__name__ + "()")
    if len(set(np.isfinite(t).sum(0))) > 1:
        ctx.observed((rays.tobytes(),), dict(object=what, columns=n, part=len(part)))


def case(ctx):
    if ctx.index % 2 == 0:
        return batches(ctx)
    rng = ctx.rng
    kinds = ("mirror", "glass", "absorber") if rng.random() < 0.5 else ("mirror", "glass")
    scene = trace.make_scene(rng, int(rng.integers(1, 6)), kinds, cavity=("mirror",) if rng.random() < 0.3 else None, roam=0.12, crowd=0.03, copies=0.08)
    refs = [r for _, r in scene]
    comps = [o for o, _ in scene]
    n = int(rng.integers(2, 25))
    sources = trace.make_sources(rng, refs, int(rng.integers(1, 3)), n)
    limit = int(rng.integers(2, 8))
    mk = lambda s, c=comps: pyrayt.RayTracer(s, list(c), rays_per_source=n, generation_limit=limit)
    base = trace.Rows(mk(sources).trace())
    given = trace.emitted(sources)
    total = given.shape[1]
    st = trace.Stability(mk, given, base, refs)
    same = {float(i): float(i) for i in range(total)}
    # another order
    perm = rng.permutation(total)
    other = trace.Rows(mk([trace.Frozen(given[:, perm])]).trace())
    done = trace.compare_chains(ctx, base, st, other, "rays in another order", {float(p): float(i) for i, p in enumerate(perm)})
    ctx.count("permutations")
    # split over several sources, of equal and unequal sizes
    cuts = np.sort(rng.integers(0, total + 1, rng.integers(1, 4)))
    parts = [x for x in np.split(np.arange(total), cuts) if len(x)]
    other = trace.Rows(mk([trace.Frozen(given[:, x]) for x in parts]).trace())
    trace.compare_chains(ctx, base, st, other, "rays split over sources", same)
    ctx.count("splits")
    # a subset, one alone, and duplicates
    sub = np.sort(rng.permutation(total)[:rng.integers(1, total + 1)])
    other = trace.Rows(mk([trace.Frozen(given[:, sub])]).trace())
    trace.compare_chains(ctx, base, st, other, "a subset of the rays", {float(p): float(i) for i, p in enumerate(sub)})
    i = int(rng.integers(total))
    other = trace.Rows(mk([trace.Frozen(given[:, [i]])]).trace())
    trace.compare_chains(ctx, base, st, other, "a ray alone", {float(i): 0.0})
    ctx.count("alone")
    twice = np.r_[np.arange(total), rng.integers(0, total, 3)]
    other = trace.Rows(mk([trace.Frozen(given[:, twice])]).trace())
    trace.compare_chains(ctx, base, st, other, "with duplicates of some rays", same)
    # components in another order
    if len(comps) > 1:
        order = rng.permutation(len(comps))
        other = trace.Rows(mk([trace.Frozen(given)], [comps[k] for k in order]).trace())
        trace.compare_chains(ctx, base, st, other, "components in another order", same)
        ctx.count("reordered")
    if done and len(set(len(c) for c in st.chains.values())) > 1:
        ctx.observed((given.tobytes(),), dict(components=len(comps), rays=total, rows=base.n, compared=done))
