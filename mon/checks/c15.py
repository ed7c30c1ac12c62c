"""C15: line, circle, cone and wedge sources emit the documented rays, wherever they are placed."""
import numpy as np

import pyrayt
import pyrayt.components as pc
import tinygfx.g3d as cg

from mon import gen, model
from mon.model import LD

RULE = """Random sources of every deterministic kind, and subclasses of a user's own, with random sizes (in other units of length too) and wavelengths, placed by 0-5 random operations (scaling and shears included, also through
a group), asked for 1-400 rays several times while they are moved, their wavelength is changed, earlier sets are overwritten and other sources are asked.
Each set is carried back through the placement the harness composed itself and compared, as a set, with the documented local rays; metadata are compared exactly.
Non-trivial: at least two rays and a placement other than the identity."""
QUICK, THOROUGH = 1600, 60000
MINIMA = dict(sets=2000, rays=70000, line=400, circle=400, cone=400, wedge=400, custom=400, repeated=1000, overwritten=1000, wavelength_changes=600, other_units=70)


class Custom(pc.Source):
    """a source of a user's own, with directions that need not be unit vectors"""

    def __init__(self, seed, wavelength=0.633):
        super().__init__(wavelength=wavelength)
        self.seed = seed

    def local(self, n):
        own = np.random.default_rng([self.seed, n])
        return own.uniform(-2, 2, (3, n)), own.normal(size=(3, n)) * 10 ** own.uniform(-1, 1, n)

    def _local_ray_generation(self, n_rays):
        rs = pyrayt.RaySet(n_rays)
        rs.wavelength = self.wavelength
        rs.rays[0, :3], rs.rays[1, :3] = self.local(n_rays)
        return rs


def make(rng, kind, u=1.0):
    w = float(rng.uniform(0.3, 2))
    if kind == "custom":
        p = int(rng.integers(1 << 30))
        return Custom(p, w), p, w
    kw = rng.random() < 0.5
    if u == 1 and rng.random() < 0.15:  # what is not given takes its documented default
        if kind == "line":
            return (pc.LineOfRays(wavelength=w), 1, w) if kw else (pc.LineOfRays(), 1, 0.633)
        if kind == "circle":
            return (pc.CircleOfRays(wavelength=w), 1, w) if kw else (pc.CircleOfRays(), 1, 0.633)
        p = float(rng.uniform(1, 90))
        return (pc.ConeOfRays if kind == "cone" else pc.WedgeOfRays)(p), p, 0.633
    if kind == "line":
        p = gen.num(rng, 0.05, 20) * u
        return (pc.LineOfRays(spacing=p, wavelength=w) if kw else pc.LineOfRays(p, w)), p, w
    if kind == "circle":
        p = gen.num(rng, 0.05, 20) * u
        return (pc.CircleOfRays(diameter=p, wavelength=w) if kw else pc.CircleOfRays(p, w)), p, w
    if kind == "cone":
        p = float(rng.choice([5, 30, 45, 60, 90])) if rng.random() < 0.3 else float(rng.uniform(0.5, 120))
        return (pc.ConeOfRays(cone_angle=p, wavelength=w) if kw else pc.ConeOfRays(p, w)), p, w
    p = float(rng.choice([10, 45, 90, 180])) if rng.random() < 0.3 else float(rng.uniform(0.5, 300))
    return (pc.WedgeOfRays(angle=p, wavelength=w) if kw else pc.WedgeOfRays(p, w)), p, w


def even_circle(ctx, angles, tol, what, **info):
    """angles must be n equally spaced values around the circle"""
    n = len(angles)
    a = np.sort(np.mod(angles, 2 * np.pi))
    gaps = np.diff(np.r_[a, a[0] + 2 * np.pi])
    ctx.require(np.abs(gaps - 2 * np.pi / n).max() < tol, f"{what} are not evenly spread around x", gaps=gaps[:20], **info)


def judge(ctx, rs, kind, p, w, m, n, slack, what):
    info = dict(kind=kind, parameter=p, n=n, placement=np.asarray(m, float))
    ctx.require(isinstance(rs, pyrayt.RaySet) and np.asarray(rs.rays).shape == (2, 4, n), f"{what}: not a set of n rays", shape=np.shape(rs), **info)
    pos, d = np.asarray(rs.rays[0], LD), np.asarray(rs.rays[1], LD)
    ctx.require(np.isfinite(np.asarray(rs, float)).all(), f"{what}: a value is not finite", **info)
    ctx.require((np.abs(pos[3] - 1) < 1e-12).all() and (d[3] == 0).all(), f"{what}: homogeneous coordinates are wrong", **info)
    length = np.sqrt((d[:3] ** 2).sum(0))
    ctx.require((np.abs(length - 1) < 1e-12).all(), f"{what}: a direction is not a unit vector", lengths=length[:10], **info)
    ctx.require((np.asarray(rs.wavelength) == w).all(), f"{what}: wrong wavelength", want=w, got=np.asarray(rs.wavelength)[:5], **info)
    ctx.require((np.asarray(rs.index) == 1).all() and (np.asarray(rs.generation) == 0).all() and (np.asarray(rs.intensity) == 100).all(),
                f"{what}: index, generation or intensity is not 1, 0, 100", **info)
    ctx.require(np.array_equal(np.asarray(rs.id), np.arange(n)), f"{what}: ids are not 0..n-1", got=np.asarray(rs.id)[:20], **info)
    inv = model.inverse(m)
    lp = model.mm(inv, pos)[:3].astype(float)
    ld = model.mm(inv[:3, :3], d[:3])
    ld = (ld / np.sqrt((ld * ld).sum(0))).astype(float)
    tol, tp = slack.back(m, p if kind in ("line", "circle") else 4 if kind == "custom" else 0)
    if kind in ("line", "circle"):
        ctx.require(np.abs(ld - np.array([[1], [0], [0]])).max() < max(tol, 1e-12), f"{what}: rays are not directed along local +x", got=ld[:, :4], **info)
    elif kind != "custom":
        ctx.require(np.abs(lp).max() <= tp, f"{what}: rays do not start at the local origin", got=lp[:, :4], **info)
    if kind == "custom":
        q, e = Custom(p).local(n)
        ctx.require(np.abs(lp - q).max() <= tp and np.abs(ld - e / np.linalg.norm(e, axis=0)).max() < max(tol, 1e-12), f"{what}: not the source's own rays carried to its placement", got=lp[:, :4], want=q[:, :4], **info)
    elif kind == "line":
        want = np.zeros(1) if n == 1 else -p / 2 + p * np.arange(n) / (n - 1)
        ctx.require(np.abs(np.sort(lp[1]) - want).max() <= tp and np.abs(lp[[0, 2]]).max() <= tp, f"{what}: the line is not evenly spaced", got=np.sort(lp[1])[:10], want=want[:10], **info)
    elif kind == "circle":
        ctx.require(np.abs(lp[0]).max() <= tp and np.abs(np.hypot(lp[1], lp[2]) - p / 2).max() <= tp, f"{what}: a ray is off the circle", got=lp[:, :4], **info)
        even_circle(ctx, np.arctan2(lp[2], lp[1]), 1e-11 + 8 * tp / p, what, **info)
    elif kind == "cone":
        if n > 1:
            a = np.deg2rad(p)
            ctx.require(np.abs(ld[0] - np.cos(a)).max() < max(tol, 1e-12) and np.abs(np.hypot(ld[1], ld[2]) - abs(np.sin(a))).max() < max(tol, 1e-12),
                        f"{what}: a ray is off the cone", got=ld[:, :4], **info)
            even_circle(ctx, np.arctan2(ld[2], ld[1]), 1e-11 + 4 * tol / abs(np.sin(a)), what, **info)
    elif n > 1:
        a = np.deg2rad(p)
        got = np.sort(np.arctan2(ld[1], ld[0]))
        want = -a / 2 + a * np.arange(n) / (n - 1)
        ctx.require(np.abs(ld[2]).max() < max(tol, 1e-12) and np.abs(got - want).max() < max(tol, 1e-12), f"{what}: the wedge is not evenly spread in the xy plane", got=got[:10], want=want[:10], **info)
    ctx.count("sets")
    ctx.count("rays", n)
    ctx.count(kind)


def case(ctx):
    rng = ctx.rng
    kinds = ("line", "circle", "cone", "wedge", "custom")
    sources = []
    unit = float(10.0 ** rng.uniform(-9, 9)) if rng.random() < 0.15 else 1.0
    ctx.count("other_units", unit != 1)
    for _ in range(rng.integers(1, 4)):
        kind = kinds[rng.integers(5)]
        src, p, w = make(rng, kind, unit)
        sources.append([src, kind, p, w, model.eye(), gen.Slack()])
    group = cg.ObjectGroup([s[0] for s in sources]) if rng.random() < 0.25 else None
    kept = []
    moved = False
    for _ in range(rng.integers(2, 7)):
        s = sources[rng.integers(len(sources))]
        for _ in range(rng.integers(0, 3)):
            op = gen.in_unit(gen.random_op(rng, shear=True), unit)
            moved = True
            if group is not None and rng.random() < 0.5:
                gen.apply(group, None, op)
                for x in sources:
                    x[5].carry(gen.op_matrix(op), x[4])
                    x[4] = model.mm(gen.op_matrix(op), x[4])
            else:
                gen.apply(s[0], None, op)
                s[5].carry(gen.op_matrix(op), s[4])
                s[4] = model.mm(gen.op_matrix(op), s[4])
        if rng.random() < 0.3:
            s[3] = float(rng.uniform(0.3, 2))
            s[0].wavelength = s[3]
            ctx.count("wavelength_changes")
        ctx.require(s[0].wavelength == s[3], "the wavelength getter does not give the current wavelength")
        n = int(rng.choice([1, 2, 3, 4, 5, 10, 11])) if rng.random() < 0.5 else int(np.exp(rng.uniform(0, np.log(400 if rng.random() < 0.95 else 6000))))
        rs = s[0].generate_rays(n)
        judge(ctx, rs, s[1], s[2], s[3], s[4], n, s[5], "a set")
        if rng.random() < 0.6:  # overwrite it, ask again
            first = np.array(rs)
            rs[...] = rng.normal(size=rs.shape)
            again = s[0].generate_rays(n)
            ctx.require(not np.shares_memory(np.asarray(rs), np.asarray(again)), "two sets share memory")
            ctx.require(np.array_equal(first, np.asarray(again)), "asking again gives another set after the first one was overwritten")
            ctx.count("overwritten")
            rs = again
        kept.append((s[0], n, rs, np.array(rs)))
        if rng.random() < 0.6:
            ctx.require(np.array_equal(np.asarray(s[0].generate_rays(n)), np.asarray(rs)), "repeated calls give different sets")
            ctx.count("repeated")
    for _, n, rs, was in kept:
        ctx.require(np.array_equal(np.asarray(rs), was), "a set handed out earlier changed")
    if moved and max(k[1] for k in kept) > 1:
        ctx.observed((kept[-1][3].tobytes(),), dict(kinds=[s[1] for s in sources], counts=[k[1] for k in kept]))
