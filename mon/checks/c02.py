"""C02: the rows of a ray form one continuous chain."""
import numpy as np

import pyrayt
import pyrayt.materials as matl

from mon import gen, trace

RULE = """Random systems (as for C01) of mirrors, glass and absorbers, 0-4 recorded sources of 1-60 rays, generation limits 1-20,
several ray offsets, 10% with surfaces that answer with direction vectors of other lengths, and one or two traces with the same tracer. The rows are checked as an event log: ids, generations, starts, ends,
tilts, unchanged wavelength and intensity, trace() equal to get_results(). One case in sixty traces 17000-90000 rays. Non-trivial: a chain of at least three rows (two in a large trace)."""
QUICK, THOROUGH = 400, 12000
MINIMA = dict(chains=6000, links=25000, long_chains=80, absorbed_first=400, large_traces=2, stretched=12, large_rows=30000)


class Stretched(matl.TracableMaterial):
    """a user's mirror or window that answers with directions of other lengths"""

    def __init__(self, lengths, turn):
        super().__init__()
        self.lengths, self.turn = lengths, turn

    def trace(self, surface, ray_set):
        if self.turn:
            ray_set = matl.mirror.trace(surface, ray_set)
        n = ray_set.n_rays
        ray_set.rays[1] = ray_set.rays[1] * np.resize(self.lengths, n) / np.linalg.norm(ray_set.rays[1], axis=0)
        return ray_set


def large(ctx):
    """one trace of very many rays"""
    rng = ctx.rng
    scene = trace.make_scene(rng, int(rng.integers(1, 3)), ("mirror", "glass"), tree_p=0.0, cavity=("mirror",) if rng.random() < 0.5 else None)
    refs = [r for _, r in scene]
    k = int(rng.integers(1, 5))
    n = int(rng.integers(17000, 90000)) // k
    sources = []
    for _ in range(k):
        few, _ = gen.rays_at(rng, refs, 50, far=6.0)
        rays = np.tile(few, (1, 1, n // 50 + 1))[..., :n].copy()
        rays[0, :3] += rng.normal(size=(3, n)) * 1e-3
        sources.append(gen.Recorder(gen.FixedSource(rays, rng.uniform(0.4, 1.0, n), rng.uniform(1, 100, n))))
    tracer = pyrayt.RayTracer(sources, [o for o, _ in scene], rays_per_source=n, generation_limit=int(rng.integers(2, 4)))
    rows = trace.Rows(tracer.trace())
    longest = trace.check_chains(ctx, rows, trace.emitted(sources), tracer.ray_offset_value)
    ctx.count("large_traces")
    ctx.count("large_rows", rows.n)
    if longest >= 2:
        ctx.observed((rows.p1[:, :1000].tobytes(),), dict(rows=rows.n, rays=n * k, longest=longest))


def case(ctx):
    rng = ctx.rng
    if ctx.index % 60 == 7:
        return large(ctx)
    kinds = [("mirror", "glass"), ("mirror", "glass", "absorber"), ("mirror",), ("glass",), ("absorber", "mirror")][ctx.index % 5]
    scene = trace.make_scene(rng, int(rng.integers(1, 7)), kinds, cavity=("mirror",) if rng.random() < 0.5 else None, thin=0.06, roam=0.12, crowd=0.03, copies=0.08)
    refs = [r for _, r in scene]
    stretched = rng.random() < 0.1
    if stretched:  # some surfaces send light on with direction vectors that are not of unit length
        for leaf in [leaf for r in refs for leaf in r.leaves()]:
            if rng.random() < 0.5:
                leaf.obj.material = Stretched(10.0 ** rng.uniform(-4, 3, 4), rng.random() < 0.7)
        ctx.count("stretched")
    n = int(rng.integers(1, 60))
    exotic = all(getattr(leaf.spec, "kind", "glass") != "glass" for r in refs for leaf in r.leaves()) and rng.random() < 0.5
    ctx.count("exotic", int(exotic))
    sources = trace.make_sources(rng, refs, int(rng.integers(1, 5)), n, exotic=exotic)
    for s in sources:  # intensities of their own, some close to the threshold
        if isinstance(s.source, gen.FixedSource) and rng.random() < 0.6:
            w, _, i = s.source.fixed_meta
            s.source.fixed_meta = (w, rng.uniform(0.2, 150, n), rng.uniform(1, 1.8) if rng.random() < 0.5 else i)
    tracer = pyrayt.RayTracer(sources, [o for o, _ in scene], rays_per_source=n, generation_limit=int(rng.integers(1, 20)) if rng.random() < 0.97 else 300)
    if rng.random() < 0.3:
        tracer.ray_offset_value = float(10.0 ** rng.uniform(-6, -4))
    longest = 0
    for _ in range(1 + (rng.random() < 0.3)):
        frame = tracer.trace()
        again = tracer.get_results()
        ctx.require(list(frame.columns) == list(again.columns) and np.array_equal(np.asarray(frame, float), np.asarray(again, float), equal_nan=True),
                    "get_results() reports other rows than trace()")
        ctx.require(np.array_equal(np.asarray(frame.index), np.arange(len(frame))), "the rows are not numbered 0,1,2,...", index=list(frame.index[:20]))
        for s in sources:
            ctx.require(s.given[-1][0] == n, "a source was asked for another number of rays", asked=s.given[-1][0], rays_per_source=n)
        given = trace.emitted(sources)
        rows = trace.Rows(frame)
        longest = max(longest, trace.check_chains(ctx, rows, given, tracer.ray_offset_value, stretch=(1e-4, 1e3) if stretched else (1, 1)))
    if longest >= 5:
        ctx.count("long_chains")
    if rows.n:
        absorber = [leaf.id for r in refs for leaf in r.leaves() if leaf.spec.kind == "absorber"]
        ctx.count("absorbed_first", (np.isin(rows.surface, absorber) & (rows.generation == 0)).sum())
    if longest >= 3:
        ctx.observed((rows.p1.tobytes(),), dict(rows=rows.n, longest=longest, row=rows.row(rows.n - 1)))
