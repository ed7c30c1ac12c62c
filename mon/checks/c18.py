"""C18: mirrors, prisms, baffles and apertures have the documented shape and parts."""
import numpy as np

import tinygfx.g3d as cg
import pyrayt
import pyrayt.components as pc
import pyrayt.materials as matl

from mon import gen, model, parts, trace
from mon.model import LD, Leaf, Tree

RULE = """Each factory is called with random sizes, the three aperture kinds, off-axis shifts, both signs of curvature, zero, positive and infinite values and defaults
left out at random, and placed by 0-3 random operations; rays (some just inside or outside an edge) are intersected and hits, normals and materials compared with the documented body. The component is
then traced inside an absorbing shell: rays on the optical surface go on along the reflected direction, rays on any other part end there, rays through an opening or
past the edge reach the shell in one straight segment. Non-trivial: a hit."""
QUICK, THOROUGH = 900, 30000
MINIMA = dict(other_units=30, hits=7000, misses=4000, normals=7000, hit_optical=2500, hit_stop=2500, beside_edges=4000, plane_mirror=60, spherical=60, parabolic=60, prism=60, baffle=60, aperture=60,
              off_axis=120, flat=60, through_opening=150, traced_optical=1200, traced_stop=1200, traced_past=1200)


def absorbs(mat):
    """behaves as an absorber: zero direction for every ray"""
    rs = pyrayt.RaySet(2)
    rs.rays[1, 0] = 1
    s = cg.Sphere(1)
    return np.abs(np.asarray(mat.trace(s, rs).rays[1])).max() == 0


def reflects(mat):
    rs = pyrayt.RaySet(1)
    rs.rays[0, :3, 0] = 1, 0, 0
    rs.rays[1, :3, 0] = -0.6, 0.8, 0
    return np.abs(np.asarray(mat.trace(cg.Sphere(1), rs).rays[1])[:3, 0] - [0.6, 0.8, 0]).max() < 1e-12


def common(ctx):
    rng = ctx.rng
    kw = {}
    u = parts.unit(rng)
    ctx.count("other_units", int(u != 1))
    if u == 1 and rng.random() < 0.25:
        arg, kind, size = 1, "circle", (1.0, 1.0)
    else:
        arg, kind, size = parts.aperture_spec(rng, u=u)
        kw["aperture"] = arg
    off = (0.0, 0.0)
    if rng.random() < 0.6:
        off = tuple(float(v * u) for v in (rng.uniform(-2, 2, 2) if rng.random() < 0.55 else rng.uniform(-12, 12, 2) if rng.random() < 0.5 else rng.choice([0, 1, -1, 0.5], 2)))
        kw["off_axis"] = off
        ctx.count("off_axis")
    spec = None
    if rng.random() < 0.3:
        spec = trace.MirrorSpec() if rng.random() < 0.5 else trace.glass_spec(rng)
        kw["material"] = spec.mat
    return kind, size, off, kw, spec, u


def label(ref, name):
    ref.label = name
    return ref


def box_of(x0, x1, size, off=(0, 0)):
    return np.array([[x0, off[0] - size[0] / 2, off[1] - size[1] / 2], [x1, off[0] + size[0] / 2, off[1] + size[1] / 2]], float)


def plane_mirror(ctx):
    rng = ctx.rng
    kind, size, off, kw, spec, u = common(ctx)
    t = 0 if rng.random() < 0.3 else gen.num(rng, 0.05, 2) * u
    obj = pc.plane_mirror(t, **kw) if rng.random() < 0.5 else pc.plane_mirror(thickness=t, **kw)
    if t == 0:
        ref = parts.disc(kind, size)
        ref.move(model.translation(0, *off))
        ctx.count("flat")
    else:
        ref = parts.section(kind, size, -LD(t), 0, off)
    return obj, label(ref, "optical"), box_of(-t - 0.2 * u, 0.2 * u, size, off), spec, dict(call=("plane_mirror", t), options=kw)


def spherical(ctx):
    rng = ctx.rng
    kind, size, off, kw, spec, u = common(ctx)
    least = parts.reach(kind, size, off)
    flat = rng.random() < 0.2
    t = 0 if rng.random() < 0.25 and not flat else gen.num(rng, 0.05, 2) * u
    r = float("inf") if flat else least * float(rng.uniform(1.0005, 1.06)) if rng.random() < 0.2 else float(np.exp(rng.uniform(np.log(least * 1.02), np.log(least * 20))))
    sign = -1 if rng.random() < 0.35 else 1
    obj = pc.spherical_mirror(r * sign, t, **kw) if rng.random() < 0.5 else pc.spherical_mirror(thickness=t, radius=r * sign, **kw)
    # for a radius > 0: from the back plane to the surface; mirrored in the yz plane otherwise
    if flat:
        ctx.count("flat")
        front = LD(u)
        far, deep = LD(50) * u, LD(3) * u
        tool = Leaf(model.CubeShape([LD(0), -far, -far], [deep, far, far]) if sign > 0 else model.CubeShape([-deep, -far, -far], [LD(0), far, far]))
    else:
        front = LD(r)
        tool = parts.ball(r, sign * LD(r))
    body = parts.section(kind, size, -LD(t), front, off) if sign > 0 else parts.section(kind, size, -front, LD(t), off)
    ref = Tree("difference", label(body, "stop"), label(tool, "optical"))
    sag = 0.2 * u if flat else r - np.sqrt(max(r * r - least ** 2, 0))
    x = sorted((-sign * t, sign * sag))
    return obj, ref, box_of(x[0], x[1], size, off), spec, dict(call=("spherical_mirror", r * sign, t), options=kw)


def parabolic(ctx):
    rng = ctx.rng
    kind, size, off, kw, spec, u = common(ctx)
    f = gen.num(rng, 0.2, 8) * u
    t = 0 if rng.random() < 0.25 else gen.num(rng, 0.05, 2) * u
    obj = pc.parabolic_mirror(f, t, **kw) if rng.random() < 0.5 else pc.parabolic_mirror(thickness=t, focus=f, **kw)
    sag = parts.reach(kind, size, off) ** 2 / (4 * f)
    body = parts.section(kind, size, -LD(f) - LD(t), -LD(f) + LD(sag) * 1.5 + u, off)
    tool = Leaf(model.ParaboloidShape(f, LD(sag) * 3 + 3 * u))
    tool.move(parts.TO_X)
    tool.move(model.translation(-LD(f)))
    ref = Tree("difference", label(body, "stop"), label(tool, "optical"))
    return obj, ref, box_of(-f - t, -f + sag, size, off), spec, dict(call=("parabolic_mirror", f, t), options=kw)


def prism(ctx):
    rng = ctx.rng
    u = parts.unit(rng)
    s, w = gen.num(rng, 0.3, 5) * u, gen.num(rng, 0.3, 5) * u
    if rng.random() < 0.15:  # a slice, or a long bar
        w *= float(10.0 ** rng.uniform(-2.5, 2.5))
    spec = trace.random_spec(rng, ("glass", "mirror")) if rng.random() < 0.6 else None
    kw = {} if spec is None else dict(material=spec.mat)
    obj = pc.equilateral_prism(s, w, **kw) if rng.random() < 0.5 else pc.equilateral_prism(side_length=s, width=w, **kw)
    h = LD(s) * np.sqrt(LD(3)) / 2
    L = LD(10) * s + w
    ref = Leaf(model.CubeShape([-LD(s) * 2, -LD(w) / 2, -h / 2], [LD(s) * 2, LD(w) / 2, h * 2]))
    for angle, x in ((30, -LD(s) / 2), (150, LD(s) / 2)):
        half = Leaf(model.CubeShape([LD(0), -L, -L], [L, L, L]))
        half.move(model.rotation(1, angle))
        half.move(model.translation(x, 0, -h / 2))
        ref = Tree("intersect", ref, half)
    for leaf in ref.leaves():
        leaf.label = "face"
    return obj, ref, np.array([[-s / 2, -w / 2, -float(h) / 2], [s / 2, w / 2, float(h) / 2]]), spec, dict(call=("equilateral_prism", s, w), options={})


def baffle(ctx):
    rng = ctx.rng
    u = parts.unit(rng)
    arg, kind, size = parts.aperture_spec(rng, u=u)
    obj = pc.baffle(arg)
    ctx.count("flat")
    return obj, label(parts.disc(kind, size), "stop"), box_of(-0.5 * u, 0.5 * u, size), None, dict(call=("baffle", arg), options={})


def aperture(ctx):
    rng = ctx.rng
    u = parts.unit(rng)
    arg, kind, size = parts.aperture_spec(rng, 0.5, 5, u)
    arg2, kind2, size2 = parts.aperture_spec(rng, 0.1, 3 if rng.random() < 0.3 else 1.5, u)
    obj = pc.aperture(arg, arg2) if rng.random() < 0.5 else pc.aperture(size=arg, aperture_size=arg2)
    hole = parts.section(kind2, size2, -LD("0.03"), LD("0.03"))
    ref = Tree("difference", label(parts.disc(kind, size), "stop"), label(hole, "hole"))
    b = box_of(-0.5 * u, 0.5 * u, size)
    if rng.random() < 0.5:
        b = box_of(-0.5 * u, 0.5 * u, size2)
    return obj, ref, b, None, dict(call=("aperture", arg, arg2), options={})


KINDS = (plane_mirror, spherical, parabolic, prism, baffle, aperture)


def case(ctx):
    rng = ctx.rng
    factory = KINDS[ctx.index % len(KINDS)]
    obj, ref, box, spec, info = factory(ctx)
    name = factory.__name__
    ctx.count(name)
    m = model.eye()
    ops = [gen.random_op(rng, span=4.0) for _ in range(rng.integers(0, 4))] if rng.random() < 0.6 else []
    for op in ops:
        gen.apply(obj, ref, op)
        m = model.mm(gen.op_matrix(op), m)
    info["placement"] = [o[0] for o in ops]
    rays = parts.aimed(rng, box[0], box[1], m, 50, axis=0.6)
    rays = np.concatenate((rays, parts.beside_edges(rng, ref, 14)), axis=2)
    ctx.count("beside_edges", 14)

    def want(leaf):
        if leaf.label in ("stop", "hole"):
            return absorbs
        if spec is not None:
            return lambda mat: mat is spec.mat
        if leaf.label == "face":
            return lambda mat: abs(float(mat.index_at(0.5876)) - 1.5168) < 1e-4
        return reflects

    c, ok = parts.check_hits(ctx, obj, ref, rays, want, info)
    if (c.count[ok] > 0).any():
        ctx.observed((rays.tobytes(),), dict(info, hits=int(c.count[ok].sum())))
    if name == "prism" or (spec is not None and spec.kind != "mirror"):
        return
    # traced inside an absorbing shell
    R = model.as_rays(rays)
    corners = (np.asarray(m, float) @ np.array([[x, y, z, 1] for x in box[:, 0] for y in box[:, 1] for z in box[:, 2]]).T)[:3]
    big = 50 * (1 + np.abs(corners).max() + np.abs(rays[0, :3]).max())
    shell = cg.Sphere(big, material=matl.absorber)
    table = parts.surfaces(obj)
    tracer = pyrayt.RayTracer([gen.FixedSource(rays)], [obj, shell] if rng.random() < 0.5 else [shell, obj], rays.shape[-1], 2)
    rows = trace.Rows(tracer.trace())
    t, leaf, amb = model.nearest([ref], R)
    chains = rows.chains()
    for i in range(rays.shape[-1]):
        if amb[i]:
            continue
        chain = chains.get(float(i), [])
        ctx.require(len(chain) > 0, "a ray inside the shell has no row", start=rays[0, :, i], **info)
        first = chain[0]
        if leaf[i] is None:
            ctx.require(rows.surface[first] == shell.get_id() and len(chain) == 1, "a ray past the component or through its opening is stopped or turned",
                        row=rows.row(first), rows=len(chain), **info)
            ctx.count("traced_past")
            if name == "aperture":
                # inside the outer edge: it went through the opening
                o, d = ref.left.local(R)
                with np.errstate(all="ignore"):
                    lo, hi = ref.left.shape.interval(o[:, i:i + 1], d[:, i:i + 1])
                ctx.count("through_opening", int(np.isfinite(lo[0]) and lo[0] > 0))
            continue
        end = (R[0][:, i] + R[1][:, i] * t[i]).astype(float)
        ctx.require(rows.surface[first] in table and np.abs(rows.p1[:, first] - end).max() < 1e-7 * big, "a ray does not end on the component", row=rows.row(first), want=end, **info)
        if leaf[i].label == "optical":
            ctx.require(len(chain) == 2, "a ray ends on the optical surface", row=rows.row(first), **info)
            nrm, na = leaf[i].world_normal(end[:, None])
            d = R[1][:, i:i + 1]
            want_d = model.reflect(d, nrm)[:, 0].astype(float)
            if not na[0] and abs(float((d * nrm).sum())) > 1e-6:
                ctx.require(np.abs(rows.tilt[:, chain[1]] - want_d).max() < 1e-5, "a ray is not reflected by the optical surface", row=rows.row(first), next_row=rows.row(chain[1]), want=want_d, **info)
            ctx.count("traced_optical")
        else:
            ctx.require(len(chain) == 1, "a ray continues from an absorbing part", row=rows.row(first), next_row=rows.row(chain[-1]), **info)
            ctx.count("traced_stop")
