"""C01: every recorded segment ends at the nearest surface ahead."""
import numpy as np

import pyrayt

from mon import gen, model, trace

RULE = """Random systems of 1-7 components (primitives, planes, boolean trees of depth 1-2, sometimes overlapping, sometimes
inside a mirrored cavity) with random placements, materials and list order, lit by 1-3 sources of 1-40 rays aimed at them
(fixed hostile rays, beams that have passed a component with a few rays turned back, rays that start down to 3e-8 before or behind a boundary, and the library's own sources; some components stand
within a ten-millionth to a ten-thousandth of their size of a copy of themselves, some are
deep copies of others, some thin plates, shells or slits down to 50 ray offsets), traced for up to 12 generations with various ray offsets, 30% again after moves of components or their parts. Every row is compared with the nearest
crossing of the model from the row's own start and tilt. Non-trivial: at least one judged row after the first generation."""
QUICK, THOROUGH = 500, 12000
MINIMA = dict(segments=12000, later_segments=9000, csg_hits=1500, multi_component=200, beams_past=60, short_segments=100, moved_between_traces=50, close_starts=30, other_offsets=30, twins=15, copies=15)


def past(rng, refs, n):
    """a beam whose rays all start beyond a component, most of them leaving it behind, a few turned back to it or across"""
    leaf = refs[rng.integers(len(refs))].leaves()[0]
    lo, hi = (v.astype(float) for v in leaf.box())
    mid, half = (lo + hi) / 2, np.maximum((hi - lo) / 2, 0.1)
    ax, side = int(rng.integers(3)), float(rng.choice([-1, 1]))
    start = mid[:, None] + rng.uniform(-1, 1, (3, n)) * half[:, None]
    start[ax] = mid[ax] + side * (half[ax] * rng.uniform(1.05, 2) + rng.uniform(0, 3, n) * (rng.random() < 0.6))
    d = rng.normal(size=(3, n)) * rng.choice([0.0, 0.05, 0.4])
    d[ax] += side
    back = rng.random(n) < rng.choice([0.05, 0.2, 0.6])
    back[rng.integers(n)] = True
    d[:, back] = (mid[:, None] + rng.uniform(-0.8, 0.8, (3, n)) * half[:, None] - start)[:, back]
    rays = np.zeros((2, 4, n))
    rays[0, :3], rays[0, 3], rays[1, :3] = start, 1, d / np.linalg.norm(d, axis=0)
    return gen.Recorder(gen.FixedSource(rays, 0.633))


def close(rng, refs, n):
    """rays that start at, or have just passed, less than a thousandth of a unit from the first boundary on their way"""
    rays, _ = gen.rays_at(rng, refs, n, unit=True, far=6.0)
    t, _, amb = model.nearest(refs, rays.astype(model.LD)[:, :3])
    ok = ~amb & np.isfinite(t)
    step = np.where(ok, t, 0).astype(float) - np.where(ok, 10.0 ** rng.uniform(-7.5, -3, n) * rng.choice([-1, 1, 1], n), 0)
    rays[0] += rays[1] * step
    return gen.Recorder(gen.FixedSource(rays, 0.633))


def case(ctx):
    rng = ctx.rng
    kinds = [("mirror", "glass"), ("mirror", "glass", "absorber"), ("mirror", "glass", "custom"), ("mirror",), ("glass",)][ctx.index % 5]
    n_comp = int(rng.integers(1, 8))
    cavity = ("mirror",) if rng.random() < 0.3 else None
    scene = trace.make_scene(rng, n_comp, kinds, apart=rng.random() < 0.5, cavity=cavity, thin=0.12, roam=0.12, crowd=0.03)
    if rng.random() < 0.12:
        ctx.count("twins", int(trace.add_twin(rng, scene, kinds)))
    if rng.random() < 0.1:
        for _ in range(rng.integers(1, 3)):
            trace.add_copy(rng, scene)
        ctx.count("copies")
    refs = [r for _, r in scene]
    n = int(rng.integers(1, 40))
    beam = rng.random() < 0.2
    sources = [past(rng, refs, n)] if beam else trace.make_sources(rng, refs, int(rng.integers(1, 4)), n)
    if rng.random() < 0.2:
        sources[int(rng.integers(len(sources)))] = close(rng, refs, n)
        ctx.count("close_starts")
    comps = [o for o, _ in scene]
    if rng.random() < 0.05:  # a component given twice is the same component
        comps.insert(int(rng.integers(len(comps) + 1)), comps[rng.integers(len(comps))])
        ctx.count("repeated")
    k = rng.integers(3)
    arg = comps if k == 0 else tuple(comps) if k == 1 or len(comps) > 1 else comps[0]
    tracer = pyrayt.RayTracer(sources, arg, rays_per_source=n, generation_limit=int(rng.integers(1, 13)))
    if rng.random() < 0.2:
        tracer.ray_offset_value = float(10.0 ** rng.uniform(-6, -1.5))
        ctx.count("other_offsets")
    judged = 0
    ctx.count("beams_past", int(beam))
    for again in range(1 + (rng.random() < 0.3)):
        if again:  # the same system with something moved in between
            trace.disturb(rng, refs)
            ctx.count("moved_between_traces")
        rows = trace.Rows(tracer.trace())
        if rows.n:
            length = np.linalg.norm(rows.p1 - rows.p0, axis=0)
            ctx.count("short_segments", ((length > 2e-5) & (length < 1e-3)).sum())
        judged += trace.check_segments(ctx, rows, refs)
    later = int((rows.generation > 0).sum())
    ctx.count("later_segments", later)
    if len(refs) > 1:
        ctx.count("multi_component")
    tree_ids = [leaf.id for r in refs if not isinstance(r, trace.Leaf) for leaf in r.leaves()]
    ctx.count("csg_hits", np.isin(rows.surface, tree_ids).sum())
    if later and judged:
        ctx.observed((n_comp, rows.p1.tobytes()), dict(components=[leaf.desc for r in refs for leaf in r.leaves()][:6], rows=rows.n,
                     generations=int(rows.generation.max()) + 1, first=rows.row(0)))
