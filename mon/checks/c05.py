"""C05: glass surfaces obey Snell's law, including total reflection and index bookkeeping."""
import numpy as np

import tinygfx.g3d as cg
import pyrayt

from mon import gen, model, trace
from mon.model import LD

RULE = """Two thirds: random systems of glass bodies (catalogue, constant and random Sellmeier glasses; mixed wavelengths in one batch; boolean
trees, any placement; half of them separated solids where also the medium of every segment is known) traced for up to 12 generations, 40% again after moves and changes of glass; each
interaction is compared with Snell's law by components in extended precision. One third: refract() and Glass.trace() on arrays mixing
entering, leaving, head-on, near-critical and totally reflected columns. Non-trivial: at least one judged refraction."""
QUICK, THOROUGH = 600, 15000
MINIMA = dict(glass_interactions=2500, total_reflections=700, entering=1000, leaving=400, medium_rows=4000, refract_columns=2000,
              refract_total=500, material_columns=1500, on_subtracted_surfaces=100, moved_between_traces=80, exotic=20)


def unit(v):
    return v / np.linalg.norm(v, axis=0)


def arrays(ctx):
    rng = ctx.rng
    n = int(rng.integers(1, 60))
    nn, tang = unit(rng.normal(size=(3, n))), rng.normal(size=(3, n))
    tang = unit(tang - (tang * nn).sum(0) * nn)
    n1, n2 = rng.uniform(1, 2.5, n), rng.uniform(1, 2.5, n)
    glob = 1.0 if rng.random() < 0.7 else float(rng.uniform(1, 1.4))
    side = rng.choice([-1.0, 1.0], n)
    target = np.where(side > 0, glob, n2)
    crit = np.minimum(target / n1, 1)
    u = rng.random(n)
    s = np.where(u < 0.1, 0, np.where(u < 0.3, np.clip(crit * (1 + rng.choice([-1, 1], n) * 10 ** rng.uniform(-8, -2, n)), 0, 1 - 1e-10),
                 np.where(u < 0.4, 1 - 10 ** rng.uniform(-9, -2, n), rng.uniform(0, 1, n))))
    d = tang * s + nn * side * np.sqrt(1 - s * s)
    if rng.random() < 0.3:
        d = d * rng.uniform(0.2, 4, n)
    D, N = np.zeros((4, n)), np.zeros((4, n))
    D[:3], N[:3] = d, nn
    k = rng.integers(3)
    a1 = n1 if k != 1 else float(n1[0])
    a2 = n2 if k != 2 else float(n2[0])
    m1, m2 = np.broadcast_to(a1, n), np.broadcast_to(a2, n)
    cosn = (d * nn).sum(0)
    want, total, margin = model.refract(d.astype(LD), nn.astype(LD), m1.astype(LD), np.where(cosn > 0, LD(glob), m2.astype(LD)))
    idx = np.where(total, m1, np.where(cosn > 0, glob, m2))
    got, gi = cg.refract(D.copy(), N.copy(), a1, a2, glob) if glob != 1 or rng.random() < 0.5 else cg.refract(D.copy(), N.copy(), a1, a2)
    ok = (margin > 1e-10) & (abs(cosn) > 1e-7 * np.linalg.norm(d, axis=0))
    err = np.abs(got[:3] - want.astype(float)).max(0)
    # close to the critical angle the answer is ill-conditioned as the square root of the margin
    tol = 1e-9 + 1e-14 / np.sqrt(np.maximum(margin.astype(float), 1e-12))
    bad = ok & ~((err < tol) & (np.broadcast_to(gi, n) == idx) & (got[3] == 0))
    i = int(np.argmax(bad))
    ctx.require(not bad.any(), "refract() breaks Snell's law", vector=D[:, i], normal=N[:, i], n1=m1[i], n2=m2[i], n_global=glob,
                got=got[:, i], index=np.broadcast_to(gi, n)[i], want=want[:, i].astype(float), want_index=idx[i])
    ctx.count("refract_columns", ok.sum())
    ctx.count("refract_total", (ok & total).sum())
    # the material on a ray set lying on a surface
    obj, ref, desc = gen.make_leaf(rng)
    gen.place(rng, obj, ref, shear=True)
    spec = trace.glass_spec(rng, thin=0.05)
    for again in range(2):
        if again:
            gen.place(rng, obj, ref, 1, shear=True)
        on_surface(ctx, obj, ref, desc, spec, n)


def on_surface(ctx, obj, ref, desc, spec, n):
    rng = ctx.rng
    pts = ref.shape.surface_points(rng, n)
    w = (model.mm(ref.m[:3, :3], pts) + ref.m[:3, 3:4]).astype(float)
    normal, amb = ref.world_normal(w)
    rs = pyrayt.RaySet(n)
    rs.rays[0, :3] = w
    dirs = unit(rng.normal(size=(3, n)))
    rs.rays[1, :3] = dirs
    wl = trace.wavelengths(rng, n, 0.35, 1.5)
    leaving = (dirs * normal).sum(0) > 0
    index = np.where(leaving, spec.n_of(wl).astype(float), np.where(rng.random(n) < 0.7, 1.0, rng.uniform(1, 2, n)))
    rs.wavelength, rs.intensity, rs.index = wl, rng.uniform(0, 100, n), index
    before = np.array(rs)
    out = spec.mat.trace(obj, rs)
    law = spec.law(dirs.astype(LD), normal, index.astype(LD), wl.astype(LD), before[9].astype(LD))
    good = ~(amb | law["ambiguous"] | (abs((dirs * normal).sum(0)) < 1e-5))
    got = np.array(out)
    ctx.require(np.array_equal(got[[0, 1, 2, 3, 7, 8, 9, 10, 12]], before[[0, 1, 2, 3, 7, 8, 9, 10, 12]]), "glass changes more than direction and index")
    err = np.abs(got[4:7] - law["d"].astype(float)).max(0)
    bad = good & ~((err < 1e-5) & (abs(got[11] - law["index"].astype(float)) < 1e-9))
    i = int(np.argmax(bad))
    ctx.require(not bad.any(), "the glass material breaks Snell's law", surface=desc, before=before[:, i], after=got[:, i],
                want=law["d"][:, i].astype(float), want_index=float(law["index"][i]))
    ctx.count("material_columns", good.sum())
    ctx.observed((w.tobytes(),), dict(columns=n, surface=desc))


def case(ctx):
    rng = ctx.rng
    if ctx.index % 3 == 2:
        return arrays(ctx)
    apart = ctx.index % 3 == 0
    kinds = ("glass",) if rng.random() < 0.7 else ("glass", "mirror")
    scene = trace.make_scene(rng, int(rng.integers(1, 6)), kinds, apart=apart, sheets=not apart,
                             cavity=None if rng.random() < 0.6 else ("mirror",), thin=0.0 if apart else 0.06, roam=0.12, crowd=0.03, copies=0.08)
    refs = [r for _, r in scene]
    if apart:
        for r in refs:
            if r.leaves()[0].desc[0] != "cavity":
                trace.paint(rng, r, ("glass",), same=True)
    exotic = rng.random() < 0.15  # radio waves and x-rays, in glasses whose index does not depend on them
    if exotic or rng.random() < 0.05:
        ctx.count("exotic", int(exotic))
        spec = trace.glass_spec(rng, 0.5, dispersive=False)
        for leaf in [x for r in refs for x in r.leaves() if x.spec.kind == "glass"]:
            leaf.spec = spec = spec if apart or rng.random() < 0.5 else trace.glass_spec(rng, 0.5, dispersive=False)
            leaf.obj.material = leaf.spec.mat
    n = int(rng.integers(1, 40))
    sources = trace.make_sources(rng, refs, int(rng.integers(1, 3)), n, real=0.3, exotic=exotic)
    if apart:  # rays that start inside glass carry its index
        bodies = [r for r in refs if r.leaves()[0].spec.kind == "glass"]
        for s in sources:
            if isinstance(s.source, gen.FixedSource):
                R = model.as_rays(s.source._fixed)
                who, _ = trace.containing(bodies, R, LD(0))
                wl = np.broadcast_to(np.asarray(s.source.fixed_meta[0], float), n)
                idx = np.ones(n)
                for k, b in enumerate(bodies):
                    idx = np.where(who == k, b.leaves()[0].spec.n_of(wl).astype(float), idx)
                s.source.fixed_meta = (wl.copy(), 100.0, idx)
    tracer = pyrayt.RayTracer(sources, [o for o, _ in scene], rays_per_source=n, generation_limit=int(rng.integers(2, 13)))
    rows = trace.Rows(tracer.trace())
    judged = trace.check_laws(ctx, rows, refs, ("glass",))
    if apart and rows.n:
        R = rows.rays()
        half = (np.linalg.norm(rows.p1 - rows.p0, axis=0) / 2).astype(LD)
        who, amb = trace.containing(bodies, R, half)
        amb = amb | model.nearest(refs, R)[2]  # e.g. a layer of glass thinner than the ray offset
        want = np.ones(rows.n)
        for k, b in enumerate(bodies):
            want = np.where(who == k, b.leaves()[0].spec.n_of(rows.wavelength).astype(float), want)
        for rid, chain in rows.chains().items():
            for i in chain:
                if amb[i]:
                    break
                same = abs(rows.index[i] - want[i]) < 1e-9
                if i == chain[0] and not same:
                    break  # a source inside glass that emits with the world index
                ctx.require(same, "a row's index is not that of the medium it travels through", row=rows.row(i), expected=want[i])
                ctx.count("medium_rows")
    if rng.random() < 0.4:  # the same bodies once more, somewhere else and of another glass
        trace.disturb(rng, refs)
        for leaf in [x for r in refs for x in r.leaves() if x.spec.kind == "glass"]:
            if rng.random() < 0.3:
                leaf.spec = trace.glass_spec(rng, dispersive=not exotic)
                leaf.obj.material = leaf.spec.mat
        rows = trace.Rows(tracer.trace())
        judged += trace.check_laws(ctx, rows, refs, ("glass",))
        ctx.count("moved_between_traces")
    if judged:
        ctx.observed((rows.p1.tobytes(),), dict(rows=rows.n, refractions=judged, first=rows.row(0)))
