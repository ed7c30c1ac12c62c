"""C19: traced optical systems image as first-order theory predicts."""
import numpy as np

import tinygfx.g3d as cg
import pyrayt
import pyrayt.components as pc
import pyrayt.materials as matl
from pyrayt import utils

from mon import gen, model, parts, trace
from mon.model import LD

RULE = """Whole systems built from the public factories and traced: a thick, biconvex or plano-convex lens of a random glass in a ring of paraxial rays (two ring sizes,
extrapolated to the axis) against the lensmaker's focus and principal plane, on and off the optical axis's own placement; a parabolic mirror of any aperture and
off-axis shift in parallel light and lit from its focus; a spherical mirror in paraxial light; a prism at random incidence. Everything is placed by one random rigid
motion; wavelengths vary, and so does the unit of length (1e-3 to 1e3). Non-trivial: every ray of the case was traced through its system."""
QUICK, THOROUGH = 700, 20000
MINIMA = dict(lenses=70, diverging=10, parabolic=35, collimated=35, spherical=35, prisms=40, formula=4000, prism_reflected=5, other_units=90)


def dispersive(rng):
    """-> material, index function"""
    spec = trace.glass_spec(rng)
    return spec.mat, lambda w: float(spec.n_of(np.array([w]))[0])


def unit_of(ctx):
    """the length of one unit: systems are built in other units than those they are reckoned in"""
    if ctx.rng.random() < 0.6:
        return 1.0
    ctx.count("other_units")
    return float(10.0 ** ctx.rng.uniform(-3, 3))


def sized(a, unit):
    return tuple(v * unit for v in a) if isinstance(a, tuple) else a * unit


def everything(rng, things, unit):
    """one rigid motion for all of them; -> matrix"""
    m = gen.random_rigid(rng, 10.0) if rng.random() < 0.7 else np.eye(4)
    m[:3, 3] *= unit
    for o in things:
        o.transform(m.copy())
    return m


def run(ctx, source, comps, n, unit, limit=8):
    t = pyrayt.RayTracer(source, comps, rays_per_source=n, generation_limit=limit)
    if ctx.rng.random() < 0.5 or unit < 1:
        t.ray_offset_value = 1e-8 * unit
    return trace.Rows(t.trace())


def back(m, rows, unit):
    inv = np.linalg.inv(m)
    h = lambda p: (inv[:3, :3] @ p + inv[:3, 3:4]) / unit
    return h(rows.p0), h(rows.p1), inv[:3, :3] @ rows.tilt


def axis_crossing(p, d):
    """where a line (3, 3) comes closest to the x axis, and how near"""
    s = -(p[1:] @ d[1:]) / (d[1:] @ d[1:])
    q = p + s * d
    return q[0], float(np.hypot(q[1], q[2]))


def formula(ctx):
    """the lensmaker's equation for lenses of any shape, also without much power"""
    rng = ctx.rng
    for _ in range(20):
        n = float(rng.uniform(1.001, 4)) if rng.random() < 0.8 else float(rng.choice([1.5, 2.0, 2]))
        unit = 10.0 ** rng.uniform(-3, 3)
        t = 0.0 if rng.random() < 0.1 else float(unit * 10.0 ** rng.uniform(-3, 1))
        r1, r2 = (float(unit * 10.0 ** rng.uniform(-1, 5) * (-1, 1)[rng.integers(2)]) if rng.random() < 0.85 else np.inf for _ in range(2))
        if rng.random() < 0.2:
            r2 = r1
        a, b, c = (LD(n) - 1) / LD(r1), -(LD(n) - 1) / LD(r2), (LD(n) - 1) ** 2 * LD(t) / (LD(n) * LD(r1) * LD(r2))
        power = a + b + c
        if abs(power) <= 1e-9 * max(abs(a), abs(b), abs(c)) or not power:
            continue
        tol = 1e-14 * max(abs(a), abs(b), abs(c)) / abs(power)
        got = utils.lensmakers_equation(r1, r2, n, t)
        ctx.require(abs(got * power - 1) <= 10 * tol + 1e-13, "lensmakers_equation() is not the lensmaker's equation", got=got, want=float(1 / power), r1=r1, r2=r2, n_lens=n, thickness=t)
        ctx.count("formula")


def lens(ctx):
    rng = ctx.rng
    mat, n_of = dispersive(rng)
    w = float(rng.uniform(0.4, 1.0)) if rng.random() < 0.6 else 0.633
    n = n_of(w)
    for _ in range(50):
        t = gen.num(rng, 0.1, 1.5)
        which = rng.integers(3)
        r1 = float(np.exp(rng.uniform(np.log(1.5 * max(t, 1)), np.log(30)))) * (-1, 1)[rng.integers(2)]
        r2 = float(np.exp(rng.uniform(np.log(1.5 * max(t, 1)), np.log(30)))) * (-1, 1)[rng.integers(2)]
        if which == 1:
            r1, r2 = abs(r1), -abs(r2)
        if which == 2:
            r1, r2 = np.inf, -abs(r2)
        if which == 0 and rng.random() < 0.25:
            r1, r2 = (np.inf, r2) if rng.random() < 0.5 else (r1, np.inf)
        power = (n - 1) * (1 / r1 - 1 / r2 + (n - 1) * t / (n * r1 * r2))
        if abs(power) > 1 / 60:
            break
    else:
        return
    f = 1 / power
    ctx.require(abs(utils.lensmakers_equation(r1, r2, n, t) - f) <= 1e-9 * abs(f), "lensmakers_equation() is not the lensmaker's equation",
                got=utils.lensmakers_equation(r1, r2, n, t), want=f, r1=r1, r2=r2, n_lens=n, thickness=t)
    ctx.count("formula")
    ap = (1.0, (1.0, 0.8), (-0.8, -1.0))[rng.integers(3)]
    unit = unit_of(ctx)
    u1, u2, ut, ua = r1 * unit, r2 * unit, t * unit, sized(ap, unit)
    make = (lambda: pc.thick_lens(u1, u2, ut, aperture=ua, material=mat), lambda: pc.biconvex_lens(abs(u1), abs(u2), ut, aperture=ua, material=mat),
            lambda: pc.plano_convex_lens(abs(u2), ut, aperture=ua, material=mat))[which]
    focus = t / 2 + f * (1 - (n - 1) * t / (n * r1))  # the back principal plane is f(n-1)t/(n r1) before the second vertex
    h = 0.02 * min(abs(r1), abs(r2), abs(f), 10)
    span = 3 * (abs(f) + t + 5)
    got = []
    rays = int(rng.integers(3, 9))
    for height in (h, h / 2):
        obj = make()
        src = pc.CircleOfRays(2 * height * unit, wavelength=w).move_x(-float(rng.uniform(t, 10 + t)) * unit)
        screen = pc.baffle(3 * span * unit).move_x(span * unit)
        m = everything(rng, [obj, src, screen], unit)
        rows = run(ctx, src, [obj, screen], rays, unit)
        p0, p1, d = back(m, rows, unit)
        xs = []
        chains = rows.chains()
        ctx.require(len(chains) == rays, "a ray of the beam is lost", rows=rows.n)
        for chain in chains.values():
            ctx.require(len(chain) == 3, "a paraxial ray does not pass entry face, exit face and screen", rows=len(chain), r1=r1, r2=r2, thickness=t)
            x, miss = axis_crossing(p0[:, chain[-1]], d[:, chain[-1]])
            ctx.require(miss < 1e-7 * (1 + abs(x)), "a refracted meridional ray leaves its plane", miss=miss)
            xs.append(x)
        ctx.require(max(xs) - min(xs) < 1e-4 * (abs(f) + t), "rays of one ring do not meet in one point", crossings=xs, r1=r1, r2=r2, thickness=t, index=n)
        got.append(np.mean(xs))
    x = (4 * got[1] - got[0]) / 3
    ctx.require(abs(x - focus) <= 3e-4 * (abs(f) + t), "the paraxial focus is not where the lensmaker's equation puts it", got=x, want=focus, focal_length=f, r1=r1, r2=r2, thickness=t,
                index=n, wavelength=w, factory=int(which))
    ctx.count("lenses")
    ctx.count("diverging", int(f < 0))
    ctx.observed((r1, r2, t, n), dict(r1=r1, r2=r2, thickness=t, index=n, focal_length=f, focus=x))


def mirror_arguments(rng):
    ap, kind, size = parts.aperture_spec(rng, 0.4, 3)
    off = tuple(float(v) for v in rng.uniform(-2.5, 2.5, 2)) if rng.random() < 0.7 else (0.0, 0.0)
    return ap, kind, size, off, dict(aperture=ap, off_axis=off)


def on_aperture(rng, kind, size, off, n):
    u = rng.uniform(-0.48, 0.48, (2, n)) * np.array(size)[:, None]
    if kind != "rectangle":
        a, r = rng.uniform(0, 2 * np.pi, n), 0.48 * np.sqrt(rng.uniform(0, 1, n))
        u = np.array([r * np.cos(a), r * np.sin(a)]) * np.array(size)[:, None]
    return u + np.array(off)[:, None]


def parabolic(ctx):
    rng = ctx.rng
    ap, kind, size, off, kw = mirror_arguments(rng)
    f = gen.num(rng, 0.3, 8)
    n = 12
    yz = on_aperture(rng, kind, size, off, n)
    yz = yz[:, np.hypot(*yz) > 1e-3]
    n = yz.shape[1]
    from_focus = rng.random() < 0.5
    rays = np.zeros((2, 4, n))
    rays[0, 3] = 1
    surface = (yz ** 2).sum(0) / (4 * f) - f
    if from_focus:
        rays[1, 0], rays[1, 1:3] = surface, yz
        # from the focus, the light must reach the surface from its reflecting side and unobstructed
    else:
        rays[0, 0], rays[0, 1:3] = surface.max() + gen.num(rng, 1, 10), yz
        rays[1, 0] = -1
    unit = unit_of(ctx)
    obj = pc.parabolic_mirror(f * unit, gen.num(rng, 0.1, 1) * unit, **{k: sized(v, unit) for k, v in kw.items()})
    far = 50 * (f + 10)
    shell = cg.Sphere(far * unit, material=matl.absorber)
    rays[0, :3] *= unit
    src = gen.FixedSource(rays, wavelength=float(rng.uniform(0.4, 1)))
    m = everything(rng, [obj, src, shell], unit)
    rows = run(ctx, src, [obj, shell], n, unit, 4)
    p0, p1, d = back(m, rows, unit)
    chains = rows.chains()
    for i in range(n):
        chain = chains.get(float(i), [])
        ctx.require(len(chain) >= 2, "a ray on the parabolic mirror is not reflected", rows=len(chain), options=kw, focus=f)
        want = np.array([surface[i], *yz[:, i]])
        ctx.require(np.abs(p1[:, chain[0]] - want).max() < 1e-6 * (1 + f), "a ray does not meet the parabola", got=p1[:, chain[0]], want=want, options=kw, focus=f)
        k = chain[1]
        if from_focus:
            ctx.require(np.abs(d[:, k] - [1, 0, 0]).max() < 1e-6, "light from the focus is not collimated along +x", got=d[:, k], options=kw, focus=f)
        else:
            gap = np.linalg.norm(np.cross(p0[:, k], d[:, k]))
            ctx.require(gap < 1e-5 * (1 + f), "parallel light does not pass through the focus", distance=gap, options=kw, focus=f)
    ctx.count("collimated" if from_focus else "parabolic")
    ctx.observed((rays.tobytes(),), dict(options=kw, focus=f, rays=n, from_focus=bool(from_focus)))


def spherical(ctx):
    rng = ctx.rng
    r = float(np.exp(rng.uniform(np.log(1), np.log(40)))) * (-1 if rng.random() < 0.3 else 1)
    rays = int(rng.integers(3, 8))
    unit = unit_of(ctx)
    w = float(rng.uniform(0.4, 1))
    got = []
    h = 0.02 * min(abs(r), 10)
    for height in (h, h / 2):
        obj = pc.spherical_mirror(r * unit, gen.num(rng, 0.1, 1) * unit, aperture=min(1.0, abs(r)) * 0.9 * unit)
        src = pc.CircleOfRays(2 * height * unit, wavelength=w)
        if r > 0:
            src.rotate_z(180)
        src.move_x(float(np.copysign(abs(r) * rng.uniform(0.1, 3), r)) * unit)
        shell = cg.Sphere((50 * abs(r) + 50) * unit, material=matl.absorber)
        m = everything(rng, [obj, src, shell], unit)
        rows = run(ctx, src, [shell, obj], rays, unit, 3)
        p0, p1, d = back(m, rows, unit)
        xs = []
        chains = rows.chains()
        ctx.require(len(chains) == rays, "a ray of the beam is lost")
        for chain in chains.values():
            ctx.require(len(chain) == 2, "a ray is not reflected exactly once by the spherical mirror", rows=len(chain), radius=r)
            x, miss = axis_crossing(p0[:, chain[1]], d[:, chain[1]])
            ctx.require(miss < 1e-7 * (1 + abs(r)), "a reflected meridional ray leaves its plane", miss=miss)
            xs.append(x)
        got.append(np.mean(xs))
    x = (4 * got[1] - got[0]) / 3
    ctx.require(abs(x - r / 2) < 1e-4 * abs(r), "a spherical mirror does not focus at half its radius", got=x, radius=r)
    ctx.count("spherical")
    ctx.observed((r, rays), dict(radius=r, focus=x))


def prism(ctx):
    rng = ctx.rng
    mat, n_of = dispersive(rng)
    s, width = gen.num(rng, 0.5, 4), gen.num(rng, 0.3, 3)
    waves = rng.uniform(0.4, 1.0, 3)
    incidence = np.deg2rad(rng.uniform(-20, 85, 3))
    apex = np.array([0, s * np.sqrt(3) / 4])  # x, z
    down = np.array([-0.5, -np.sqrt(3) / 2])  # along the left face
    left = np.array([-np.sqrt(3) / 2, 0.5])  # its outward normal
    rays = np.zeros((2, 4, 3))
    rays[0, 3] = 1
    want, reflected = [], []
    for i in range(3):
        n = n_of(waves[i])
        # positive incidence: the ray comes from the base's side
        inside = np.arcsin(np.sin(incidence[i]) / n)
        r2 = np.pi / 3 - inside
        a = s * rng.uniform(0.05, 0.9) * min(1, np.cos(r2) / np.cos(inside))  # hits the right face
        d = -left * np.cos(incidence[i]) + (-down) * np.sin(incidence[i])
        p = apex + down * a - d * s * rng.uniform(0.2, 3)
        rays[0, :3, i] = p[0], rng.uniform(-0.4, 0.4) * width, p[1]
        rays[1, 0, i], rays[1, 2, i] = d
        total = n * np.sin(r2) > 1
        reflected.append(None if abs(n * np.sin(r2) - 1) < 1e-4 else total)
        want.append(incidence[i] + np.arcsin(min(1, n * np.sin(r2))) - np.pi / 3)
    unit = unit_of(ctx)
    obj = pc.equilateral_prism(s * unit, width * unit, material=mat)
    shell = cg.Sphere((50 * s + 50) * unit, material=matl.absorber)
    rays[0, :3] *= unit
    src = gen.FixedSource(rays, wavelength=waves)
    m = everything(rng, [obj, src, shell], unit)
    rows = run(ctx, src, [obj, shell], 3, unit, 6)
    _, _, d = back(m, rows, unit)
    done = 0
    for i in range(3):
        chain = rows.chains().get(float(i), [])
        if reflected[i] is None:
            continue
        ctx.require(len(chain) >= 3, "a ray is lost in the prism", rows=len(chain))
        if reflected[i]:
            ctx.require(rows.index[chain[2]] > 1, "a ray beyond the critical angle leaves the prism", row=rows.row(chain[2]))
            ctx.count("prism_reflected")
            done += 1
            continue
        a, b = d[:, chain[0]], d[:, chain[2]]
        ang = np.arctan2(b[0] * a[2] - b[2] * a[0], a[0] * b[0] + a[2] * b[2])  # towards the base is positive
        ctx.require(len(chain) == 3 and abs(b[1]) < 1e-9, "a ray does not cross the prism in its plane", rows=len(chain), direction=b)
        ctx.require(abs(ang - want[i]) < 1e-6 / max(1e-3, np.cos(want[i] + np.pi / 3 - incidence[i])), "the prism deviates a ray by another angle than Snell's law gives",
                    got=np.rad2deg(ang), want=np.rad2deg(want[i]), incidence=np.rad2deg(incidence[i]), index=n_of(waves[i]))
        ctx.count("prisms")
        done += 1
    if done:
        ctx.observed((rays.tobytes(),), dict(side=s, incidence=np.rad2deg(incidence), deviation=np.rad2deg(want)))


def case(ctx):
    formula(ctx)
    (lens, parabolic, spherical, lens, prism, parabolic)[ctx.index % 6](ctx)
