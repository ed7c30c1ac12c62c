"""C14: moving or scaling the whole scene carries the traced paths along."""
import numpy as np

import pyrayt

from mon import gen, model, trace

RULE = """Random systems (1-6 components, 1-3 real or fixed sources) are traced; then one rigid motion - a single matrix, or a sequence of moves and
rotations in degrees or radians - or one uniform scaling about the origin (moves up to 30000 units, factors of 0.0001 to 1000000) is applied to every source and component (each through a call drawn anew:
transform(), the single calls, or an ObjectGroup holding everything) and the system is traced again. Every ray's rows are compared with the carried
rows as far as they are insensitive to disturbances of 1e-8 of the emitted rays. Non-trivial: at least one ray has two or more rows."""
QUICK, THOROUGH = 500, 14000
MINIMA = dict(rigid=80, scaled=30, compared_rows=1800, grouped=20, deep_rows=800, far=35)
KINDS = ("mirror", "glass", "absorber", "custom", "glass", "mirror")


def steady(rng, refs, n_sources, n, real):
    """sources that answer the same every time (no fresh random samples)"""
    out = []
    while len(out) < n_sources:
        s = trace.make_sources(rng, refs, 1, n, real=real)[0]
        if type(s.source).__name__ != "Lamp":
            out.append(s)
    return out


def total(ops):
    m = model.eye()
    for op in ops:
        m = model.mm(gen.op_matrix(op), m)
    return np.asarray(m, float)


def case(ctx):
    rng = ctx.rng
    scene = trace.make_scene(rng, int(rng.integers(1, 6)), KINDS, cavity=("mirror", "glass") if rng.random() < 0.3 else None, thin=0.06, roam=0.12)
    refs, comps = [r for _, r in scene], [o for o, _ in scene]
    n = int(rng.integers(1, 15))
    sources = steady(rng, refs, int(rng.integers(1, 4)), n, float(rng.choice([0.0, 0.5, 1.0])))
    limit = int(rng.integers(2, 9))
    offset = float(rng.choice([1e-6, 1e-5, 1e-7]))

    def mk(s, factor=1.0):
        t = pyrayt.RayTracer(s, list(comps), rays_per_source=n, generation_limit=limit)
        t.ray_offset_value = offset * factor
        return t

    base = trace.Rows(mk(sources).trace())
    given = trace.emitted(sources)
    st = trace.Stability(mk, given, base, refs, offset=offset)
    s = 1.0
    far = rng.random() < 0.35
    span = float(10 ** rng.uniform(1, 4.5)) if far else 8.0
    ctx.count("far", int(far))
    if rng.random() < 0.7:
        ops = [gen.random_op(rng, span=span, rigid=True) for _ in range(rng.integers(1, 4))]
        ctx.count("rigid")
    else:
        s = float(10 ** rng.uniform(-4, 6)) if far else gen.num(rng, 0.2, 5)
        ops = [[("scale_all", (s,)), ("scale", (s, s, s))][rng.integers(2)]]
        if rng.random() < 0.3:
            ops += [gen.random_op(rng, span=8.0 * s if far else 8.0, rigid=True)]
        ctx.count("scaled")
    m = total(ops)
    things = comps + [x.source for x in sources]
    style = rng.integers(3)
    if style == 0:
        import tinygfx.g3d as cg
        g = cg.ObjectGroup(things)
        for op in ops:
            gen.apply(g, None, op)
        ctx.count("grouped")
    else:
        for o in things:
            if rng.random() < 0.5 and s == 1.0:
                o.transform(m.copy())
            else:
                for op in ops:
                    gen.apply(o, None, op)
    other = trace.Rows(mk(sources, s).trace())
    lin, off = m[:3, :3], m[:3, 3:4]
    done = trace.compare_chains(ctx, base, st, other, "scaled scene" if s != 1 else "moved scene", {float(i): float(i) for i in range(given.shape[1])},
                                point=lambda p: lin @ p + off, direction=lambda d: lin @ d / s, tol=3e-6, unit=s)
    deep = int((base.generation > 0).sum()) if base.n else 0
    ctx.count("deep_rows", deep)
    if deep:
        ctx.observed((m.tobytes(), base.p1.tobytes()), dict(motion=[o[0] for o in ops], scale=s, components=[str(getattr(r.leaves()[0], "desc", ""))[:60] for r in refs],
                                                            rows=base.n, compared=done))
