"""C20: light paths are reversible."""
import numpy as np

import tinygfx.g3d as cg
import pyrayt
import pyrayt.components as pc
import pyrayt.materials as matl

from mon import gen, model, parts, trace

RULE = """Random systems of mirrors and lenses (separate components, random surfaces, boolean trees and factory lenses and mirrors, one material per component) are
traced; from the last segment of every ray with at least two segments a ray is launched backwards with that segment's index (from its midpoint or its end), together with
four disturbed copies. Where the disturbed copies stay together, the reversed ray's surfaces, hit points, segments and indices must be those of the forward ray in
reverse order. Non-trivial: a path of two or more interactions was retraced."""
QUICK, THOROUGH = 450, 9000
MINIMA = dict(paths=350, retraced_hits=900, deep_paths=120, through_glass=250, total_reflections=20, mirrors=250)
KINDS = ("mirror", "glass")
COPIES = 4
OFFSET = 1e-9


def factory_part(rng):
    k = rng.integers(5)
    mat = trace.glass_spec(rng).mat
    r = lambda: float(rng.uniform(2, 8))
    if rng.random() < 0.3:  # a thin plate, far thicker than the ray offset
        thin = float(10 ** rng.uniform(-4, -1.5))
        obj = pc.thick_lens(1e5 * r(), -1e5 * r(), thin, aperture=2.0, material=mat)
        return obj.rotate_y(float(rng.uniform(-60, 60)))
    obj = (lambda: pc.biconvex_lens(r(), r(), 0.6, aperture=2.0, material=mat), lambda: pc.plano_convex_lens(r(), 0.5, aperture=(2.0, 1.5), material=mat),
           lambda: pc.thick_lens(-r(), r(), 0.4, aperture=2.0, material=mat), lambda: pc.plane_mirror(0.1, aperture=3.0),
           lambda: pc.equilateral_prism(1.5, 1.5, mat))[k]()
    for _ in range(rng.integers(0, 3)):
        gen.apply(obj, None, ("rotate_" + "xyz"[rng.integers(3)], (gen.angle(rng),)))
    return obj


def bench(rng):
    """factory parts in a row, far enough apart not to touch"""
    out = []
    for k in range(rng.integers(2, 5)):
        obj = factory_part(rng)
        obj.move(k * 6.0, *rng.uniform(-0.4, 0.4, 2))
        out.append(obj)
    return out


def case(ctx):
    rng = ctx.rng
    refs = []
    if rng.random() < 0.4:
        comps = bench(rng)
        n = 12
        rays = np.zeros((2, 4, n))
        rays[0, 3] = 1
        rays[0, :3] = rng.uniform(-0.8, 0.8, (3, n)) + np.array([[-5], [0], [0]])
        rays[1, :3] = np.array([[1], [0], [0]]) + rng.normal(size=(3, n)) * 0.05
        source = gen.Recorder(gen.FixedSource(rays, rng.uniform(0.4, 1.0, n)))
    else:
        scene = trace.make_scene(rng, int(rng.integers(1, 5)), KINDS, apart=True, sheets=False, cavity=("mirror",) if rng.random() < 0.4 else None, spread=5.0)
        for _, r in scene:
            trace.paint(rng, r, ("mirror",) if r.leaves()[0].desc[0] == "cavity" else KINDS, same=True)
        refs, comps = [r for _, r in scene], [o for o, _ in scene]
        n = 12
        source = trace.make_sources(rng, [r for _, r in scene], 1, n, real=0.3)[0]
    shell = cg.Sphere(500, material=matl.absorber)
    comps = comps + [shell]
    limit = int(rng.integers(2, 9))

    def mk(s, k):
        t = pyrayt.RayTracer(s, comps, rays_per_source=n, generation_limit=k)
        t.ray_offset_value = OFFSET
        return t

    rows = trace.Rows(mk([source], limit).trace())
    chains = {r: c for r, c in rows.chains().items() if len(c) >= 2}
    if refs:  # light emitted inside a lens with the index of air has no reverse
        given = trace.emitted([source])
        glass = [r for r in refs if r.leaves()[0].spec.kind == "glass"]
        R = (given[0:3].astype(model.LD), given[4:7].astype(model.LD))
        who, amb = trace.containing(glass, R, np.zeros(given.shape[1]))
        chains = {r: c for r, c in chains.items() if who[int(r)] < 0 and not amb[int(r)]}
    if not chains:
        return
    start = []
    order = list(chains)
    for rid in order:
        last = chains[rid][-1]
        a = rng.uniform(0.2, 0.9) if rng.random() < 0.8 else 1 - 1e-5 / max(1e-3, np.linalg.norm(rows.p1[:, last] - rows.p0[:, last]))
        p = rows.p0[:, last] + max(a, 0.1) * (rows.p1[:, last] - rows.p0[:, last])
        start.append(p)
    k = len(order)
    last = [chains[r][-1] for r in order]
    back = np.zeros((13, k * (COPIES + 1)))
    for c in range(COPIES + 1):
        s = slice(c * k, (c + 1) * k)
        back[0:3, s] = np.array(start).T
        back[4:7, s] = -rows.tilt[:, last]
        if c:
            e = np.random.default_rng(ctx.np_seed + (c - 1) // 2)
            sign = 1 if c % 2 else -1
            back[0:3, s] += sign * e.normal(size=(3, k)) * 1e-7
            back[4:7, s] += sign * e.normal(size=(3, k)) * 1e-7
        back[9, s], back[10, s], back[11, s] = 100, rows.wavelength[last], rows.index[last]
    back[3] = 1
    # a point on an edge belongs to either of two surfaces, whatever its neighbours do
    def on_edge(rows):
        edge = np.zeros(rows.n, bool)
        for r in refs:
            for leaf in r.leaves():
                sel = np.nonzero(rows.surface == leaf.id)[0]
                if len(sel):
                    edge[sel] = parts.near_others(leaf, r.leaves(), rows.p1[:, sel], 1e-5)
        return edge

    edge = on_edge(rows)
    # one generation more: the first segment's way back to its source runs on past it
    other = trace.Rows(mk([trace.Frozen(back)], max(len(chains[r]) for r in order)).trace())
    other_edge = on_edge(other)  # also where boundaries coincide
    oc = other.chains()
    for j, rid in enumerate(order):
        fwd = chains[rid][::-1]  # segments in reverse
        copies = [oc.get(float(c * k + j), []) for c in range(COPIES + 1)]
        steps = 0
        for g in range(len(fwd)):
            if any(len(c) <= g for c in copies):
                break
            r = [c[g] for c in copies]
            if any(other.surface[x] != other.surface[r[0]] for x in r) or max(np.abs(other.p1[:, x] - other.p1[:, r[0]]).max() for x in r) > 1e-4:
                break
            steps += 1
        own = copies[0]
        if steps < len(fwd) and any(len(c) < len(own) for c in copies):
            ctx.count("unstable_paths")
        hits = 0
        for g in range(min(steps, len(fwd))):
            a, b = fwd[g], own[g]
            info = dict(forward=rows.row(a), backward=other.row(b), step=g, path=len(fwd))
            ctx.require(np.abs(other.tilt[:, b] + rows.tilt[:, a]).max() < 1e-5, "a reversed ray takes another direction", **info)
            ctx.require(abs(other.index[b] - rows.index[a]) < 1e-9, "a reversed ray travels with another index", **info)
            if g + 1 < len(fwd):
                prev = fwd[g + 1]  # this segment started where the previous one ended
                if edge[prev] or other_edge[b]:
                    ctx.count("edges")
                    steps = -1
                    break
                ctx.require(other.surface[b] == rows.surface[prev], "a reversed ray meets another surface", **info)
                ctx.require(np.abs(other.p1[:, b] - rows.p1[:, prev]).max() < 1e-5 * (1 + np.abs(rows.p1[:, prev]).max()), "a reversed ray meets its surface elsewhere", **info)
                hits += 1
                ctx.count("through_glass", int(rows.index[prev] != rows.index[a]))
                ctx.count("mirrors" if rows.index[prev] == 1.0 and rows.index[a] == 1.0 else "inside")
                if rows.index[prev] > 1.0 and rows.index[prev] == rows.index[a]:
                    ctx.count("total_reflections")
            else:  # the first segment: it must pass the emitted point
                v = rows.p0[:, a] - other.p0[:, b]
                along = v @ other.tilt[:, b]
                ctx.require(np.linalg.norm(v - along * other.tilt[:, b]) < 1e-5 * (1 + np.abs(rows.p0[:, a]).max()) and along > -1e-6, "a reversed ray misses its source", **info)
        # a stable reversed path may not end early
        if all(len(c) == len(own) for c in copies) and steps == len(own) and steps < len(fwd):
            ctx.fail("a reversed ray ends early", rows=len(own), path=len(fwd), forward=rows.row(fwd[steps - 1]) if steps else rows.row(fwd[0]))
        if hits:
            ctx.count("paths")
            ctx.count("retraced_hits", hits)
            ctx.count("deep_paths", int(hits >= 2))
            if hits >= 2:
                ctx.observed((back.tobytes(),), dict(components=len(comps), path=len(fwd), hits=hits))
