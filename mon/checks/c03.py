"""C03: rays end only for a documented reason; every trace finishes."""
import numpy as np

import pyrayt

from mon import core, gen, trace

RULE = """Random systems with absorbers and attenuating user materials, half of them closed mirror cavities that never lose a ray; thresholds
0 to 60 set on the tracer, 15% of the recorded sources with directions down to 1e-5 long, limits 0-25 (sometimes negative), emitted intensities around the threshold. Chain starts and ends are compared
with the model's continuation of the last row. A counting component raises once it was asked more often than any order of
following the rays up to the limit needs (logical detector of endless loops). Non-trivial: at least two different reasons for ending were seen."""
QUICK, THOROUGH = 500, 10000
HANG = "a trace does not end"
MINIMA = dict(starts=2500, no_start=800, short_directions=500, ended_by_limit=1200, ended_by_absorber=250, ended_by_intensity=120, ended_by_miss=500, rounds=800)


class Spin(Exception):
    pass


def counting(obj, limit, n_rays):
    """count the propagation rounds by the intersect() calls on one component"""
    inner = obj.intersect
    state = dict(rounds=0)

    def spy(rays):
        state["rounds"] += 1
        if state["rounds"] > (limit + 5) * (n_rays + 2):  # even if every ray were followed on its own
            raise Spin()
        return inner(rays)

    obj.intersect = spy
    return state


def case(ctx):
    rng = ctx.rng
    kinds = [("mirror", "glass", "absorber"), ("mirror", "custom"), ("glass", "custom", "absorber"), ("mirror", "glass"), ("custom",)][ctx.index % 5]
    cavity = [None, ("mirror",), ("mirror", "custom")][rng.integers(3)]
    scene = trace.make_scene(rng, int(rng.integers(1, 6)), kinds, cavity=cavity, thin=0.06, roam=0.12, crowd=0.03, copies=0.08)
    refs = [r for _, r in scene]
    n = int(rng.integers(1, 40))
    sources = trace.make_sources(rng, refs, int(rng.integers(1, 3)), n, real=0.2)
    threshold = float(rng.choice([0.1, 0.1, 0.0, 1.0, 10.0, 50.0, 60.0]))
    for s in sources:
        if isinstance(s.source, gen.FixedSource) and rng.random() < 0.7:
            w, _, i = s.source.fixed_meta
            value = rng.uniform(0, 2 * threshold + 1, n) if rng.random() < 0.6 else rng.uniform(20, 120, n)
            if rng.random() < 0.5:
                value[rng.integers(n)] = threshold  # exactly at the threshold: not below it
            s.source.fixed_meta = (w, value, i)
        if isinstance(s.source, gen.FixedSource) and rng.random() < 0.15:  # direction vectors that are not of unit length
            s.source.lengths = 10.0 ** rng.uniform(-5, 0, s.source.n)
            ctx.count("short_directions", n)
    limit = int(rng.choice([0, 1, 2, 3, 5, 8, 12, 25, -2], p=[.08, .12, .12, .12, .16, .16, .12, .1, .02]))
    if cavity and rng.random() < 0.05:  # a long life
        limit = int(rng.integers(100, 300))
    tracer = pyrayt.RayTracer(sources, [o for o, _ in scene], rays_per_source=n, generation_limit=limit if rng.random() < 0.5 else 10)
    tracer.set_generation_limit(limit)
    if threshold != 0.1:
        tracer.ray_intensity_threshold = threshold
    spy = counting(scene[0][0], max(limit, 0), sum(s.source.n if isinstance(s.source, gen.FixedSource) else n for s in sources))
    try:
        frame = tracer.trace()
    except Spin:
        ctx.fail("the trace goes on after the generation limit", limit=limit, rounds=spy["rounds"])
    ctx.count("rounds", spy["rounds"])
    rows = trace.Rows(frame)
    before = dict(ctx.counts)
    trace.check_ends(ctx, rows, refs, trace.emitted(sources), limit, threshold, tracer.ray_offset_value)
    reasons = [k for k in ctx.counts if k.startswith("ended_by") and ctx.counts[k] > before.get(k, 0)]
    if len(reasons) >= 2:
        ctx.observed((rows.p1.tobytes(), limit, threshold), dict(reasons=reasons, limit=limit, threshold=threshold, rows=rows.n))
