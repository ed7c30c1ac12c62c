"""C17: the lens factories build the documented solids."""
import numpy as np

import pyrayt.components as pc
import pyrayt.materials as matl

from mon import gen, model, parts, trace
from mon.model import LD, Tree

RULE = """thick_lens, biconvex_lens and plano_convex_lens are called with random radii of both signs and infinity, down to the reach of the aperture and, where convex surfaces meet inside it, below, thicknesses and apertures of the three kinds,
at scales of a thousandth to a thousand, defaults left out at random, arguments by position or keyword, several lenses per case, then placed by 0-3 random operations. Rays along and across the axis are
and just inside or outside its edges are intersected; hits, normals and materials are compared with the documented solid, modelled as the aperture's cross section bounded by two spheres. Non-trivial: a hit."""
QUICK, THOROUGH = 900, 30000
MINIMA = dict(other_units=80, hits=9000, misses=3000, normals=9000, hit_first=1500, hit_second=1500, hit_side=1500, beside_edges=5000, thick=150, biconvex=150, plano=150, concave=100, planar=100,
              circle=150, rectangle=150, ellipse=150, clipped=60, ends_inside=30)


def radius(rng, least, thickness, far):
    if rng.random() < 0.2:
        return float("inf")
    lo = max(least * 1.02, thickness * 0.8)
    if rng.random() < 0.2:  # the aperture ends almost at the radius
        return least * float(rng.uniform(1.0005, 1.06)) if least > thickness else lo
    if rng.random() < 0.12:  # hardly curved
        far = 2e4 * lo
    return float(np.exp(rng.uniform(np.log(lo), np.log(max(lo * 2, far)))))


def body(kind, size, t, r1, r2, u=1):
    """cross section between x >= surface 1 and x <= surface 2; r as in the thick lens convention"""
    t = LD(t)
    x0 = -t / 2 if np.isinf(r1) else -t / 2 - LD(0.37) * u if r1 > 0 else -t / 2 + LD(r1)
    x1 = t / 2 if np.isinf(r2) else t / 2 + LD(0.41) * u if r2 < 0 else t / 2 + LD(r2)
    ref = parts.section(kind, size, x0, x1)
    ref.label = "side"
    for r, x, name, convex in ((r1, -t / 2, "first", r1 > 0), (r2, t / 2, "second", r2 < 0)):
        if np.isfinite(r):
            s = parts.ball(abs(LD(r)), x + LD(r))
            s.label = name
            ref = Tree("intersect" if convex else "difference", ref, s)
    return ref


def make(ctx):
    rng = ctx.rng
    u = parts.unit(rng)
    ctx.count("other_units", int(u != 1))
    arg, kind, size = parts.aperture_spec(rng, u=u)
    kw = {}
    if u == 1 and rng.random() < 0.15:
        arg, kind, size = 1, "circle", (1.0, 1.0)
    else:
        kw["aperture"] = arg
    spec = None
    if rng.random() < 0.6:
        spec = trace.random_spec(rng, ("glass", "mirror", "absorber", "glass"))
        kw["material"] = spec.mat
    t = (gen.num(rng, 0.1, 3) if rng.random() < 0.85 else float(10.0 ** rng.uniform(-2.5, -1))) * u
    least = parts.reach(kind, size)
    which = ("thick", "thick", "biconvex", "plano")[rng.integers(4)]
    ctx.count(which)
    ctx.count(kind)
    r1, r2 = radius(rng, least, t, 15 * u), radius(rng, least, t, 15 * u)
    small = rng.random() < 0.2
    if small:  # convex surfaces that end inside the aperture
        r1, r2 = (t * float(rng.uniform(1.02, 3)) if rng.random() < 0.8 else r for r in (r1, r2))
        ctx.count("ends_inside", int(min(r1, r2) < least))
    if which == "thick":
        r1, r2 = (r1, -r2) if small else (v * (-1, 1)[rng.integers(2)] for v in (r1, r2))
        if not small and np.isfinite(r1) and np.isfinite(r2) and rng.random() < 0.1:
            r1, r2 = r1, (r1 if rng.random() < 0.5 else -r1)
        obj = pc.thick_lens(r1, r2, t, **kw) if rng.random() < 0.5 else pc.thick_lens(thickness=t, r2=r2, r1=r1, **kw)
        a, b = (abs(r1) if np.isinf(r1) else r1), (-abs(r2) if np.isinf(r2) else r2)
        call = ("thick", r1, r2, t)
    elif which == "biconvex":
        s1, s2 = (v * (-1, 1)[rng.integers(2)] for v in (r1, r2))
        obj = pc.biconvex_lens(s1, s2, t, **kw) if rng.random() < 0.5 else pc.biconvex_lens(r2=s2, r1=s1, thickness=t, **kw)
        a, b = abs(r1), -abs(r2)
        call = ("biconvex", s1, s2, t)
    else:
        s = r1 * (-1, 1)[rng.integers(2)]
        obj = pc.plano_convex_lens(s, t, **kw) if rng.random() < 0.5 else pc.plano_convex_lens(r=s, thickness=t, **kw)
        a, b = float("inf"), -abs(r1)
        call = ("plano", s, t)
    ctx.count("concave", (a < 0) + (b > 0 and np.isfinite(b)))
    ctx.count("planar", int(np.isinf(a)) + int(np.isinf(b)))
    ref = body(kind, size, t, a, b, LD(u))
    sag = sum(abs(r) - np.sqrt(max(r * r - least ** 2, 0)) for r in (a, b) if np.isfinite(r) and ((r is a) == (r > 0)))
    ctx.count("clipped", int(sag > t))
    back = sum(abs(r) - np.sqrt(max(r * r - least ** 2, 0)) for r in (a, b) if np.isfinite(r))
    half = t / 2 + min(back, 2 * least)
    box = np.array([[-half, -size[0] / 2, -size[1] / 2], [half, size[0] / 2, size[1] / 2]])
    return obj, ref, box, spec, dict(call=call, options={k: v for k, v in kw.items() if k != "material"})


def case(ctx):
    rng = ctx.rng
    made = [make(ctx) for _ in range(rng.integers(1, 3))]
    for obj, ref, box, spec, info in made:
        m = model.eye()
        ops = [gen.random_op(rng, span=4.0) for _ in range(rng.integers(0, 4))] if rng.random() < 0.6 else []
        for op in ops:
            gen.apply(obj, ref, op)
            m = model.mm(gen.op_matrix(op), m)
        rays = parts.aimed(rng, box[0], box[1], m, 40)
        rays = np.concatenate((rays, parts.beside_edges(rng, ref, 12)), axis=2)
        ctx.count("beside_edges", 12)
        pred = (lambda mat: mat is spec.mat) if spec is not None else parts.ideal_glass
        c, ok = parts.check_hits(ctx, obj, ref, rays, lambda leaf: pred, dict(info, placement=[o[0] for o in ops]))
        for _, s in obj.surface_ids:
            ctx.require(pred(s.material), "a surface of the lens carries another material than requested", **info)
        if (c.count[ok] > 0).any():
            ctx.observed((rays.tobytes(),), dict(info, hits=int(c.count[ok].sum())))
