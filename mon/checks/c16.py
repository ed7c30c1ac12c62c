"""C16: lamps sample the documented distribution; static lamps keep their samples."""
import numpy as np

import pyrayt
import pyrayt.components as pc

from mon import gen, model
from mon.model import LD

RULE = """A third of the cases draw 3000-8000 rays of a Lamp (in one call, several calls, or very many small ones) of random size (in other units of length too), cone and placement, map them
back to the unit cube and compare with the uniform law: marginals and pairwise cells by bounds (Dvoretzky-Kiefer-Wolfowitz, Hoeffding) that chance exceeds with
p < 1e-11, no gap in a coordinate beyond the same probability, plus exact support, intensity and freshness. The others run random histories over several static lamps: requests of several counts, moves, wavelength
changes, overwriting of returned sets, use of other lamps and whole traces in between; every request is compared with the first one of that lamp and count.
Non-trivial: every statistical case; histories with a repeated count."""
QUICK, THOROUGH = 700, 12000
MINIMA = dict(samples=300000, distributions=70, static_requests=2000, static_repeats=700, overwritten=400, static_moves=400, static_samples=10000, other_units=45)
LOG = np.log(2 / 1e-12)


def local(src, m, rs):
    inv = model.inverse(m)
    p = model.mm(inv, np.asarray(rs.rays[0], LD))[:3].astype(float)
    d = model.mm(inv[:3, :3], np.asarray(rs.rays[1], LD)[:3])
    return p, (d / np.sqrt((d * d).sum(0))).astype(float)


def uniforms(ctx, p, d, width, length, angle, intensity, tol):
    """check support and intensity, map the sample to the unit cube"""
    cmax = np.cos(np.deg2rad(angle))
    ctx.require(np.abs(p[0]).max() <= tol, "a lamp ray does not start in its yz plane", x=p[0][:4])
    ctx.require(np.abs(p[1]).max() <= width / 2 + tol and np.abs(p[2]).max() <= length / 2 + tol, "a lamp ray starts outside the width x length rectangle",
                y=np.abs(p[1]).max(), z=np.abs(p[2]).max(), width=width, length=length)
    ctx.require(d[0].min() >= cmax - 1e-9, "a lamp ray leaves the cone of max_angle", cos=d[0].min(), least=cmax)
    ctx.require(np.abs(np.asarray(intensity) - 100 * d[0]).max() < 1e-7, "intensity is not 100*cos of the angle to the axis", worst=np.abs(np.asarray(intensity) - 100 * d[0]).max())
    return np.array([p[1] / width + 0.5, p[2] / length + 0.5, (1 - d[0]) / (1 - cmax), np.mod(np.arctan2(d[2], d[1]), 2 * np.pi) / (2 * np.pi)])


NAMES = ("y", "z", "cos(theta)", "phi")


def fits(ctx, u, what):
    n = u.shape[1]
    bound = np.sqrt(LOG / (2 * n))
    grid = np.arange(1, n + 1) / n
    for k, name in enumerate(NAMES):
        s = np.sort(u[k])
        dev = max((grid - s).max(), (s - grid + 1 / n).max())
        ctx.require(dev <= bound, f"{what}: {name} is not distributed as documented", deviation=dev, bound=bound, n=n)
        gaps = np.diff(np.concatenate(([0.0], s, [1.0])))
        ctx.require(gaps.max() <= (np.log(n + 1) - np.log(1e-12)) / n, f"{what}: a part of the range of {name} is never used", gap=gaps.max(), at=s[min(int(gaps.argmax()), n - 1)], n=n)
    cell = np.clip((u * 3).astype(int), 0, 2)
    for i in range(4):
        for j in range(i):
            freq = np.bincount(cell[i] * 3 + cell[j], minlength=9) / n
            ctx.require(np.abs(freq - 1 / 9).max() <= bound, f"{what}: {NAMES[j]} and {NAMES[i]} are not independent", freq=freq, n=n)
    # neighbours in the sample are independent too
    for k in range(4):
        freq = np.bincount(cell[k][:-1][::2][: n // 2] * 3 + cell[k][1:][::2][: n // 2], minlength=9) / len(cell[k][1:][::2])
        ctx.require(np.abs(freq - 1 / 9).max() <= np.sqrt(LOG / (2 * (n // 2 - 1))), f"{what}: successive values of {NAMES[k]} are not independent", freq=freq)
    # a value and the previous or next value of another coordinate, too (disjoint pairs)
    for i in range(4):
        for j in range(4):
            if i != j:
                a, b = cell[i][:-1][::2], cell[j][1:][::2]
                freq = np.bincount(a * 3 + b, minlength=9) / len(a)
                ctx.require(np.abs(freq - 1 / 9).max() <= np.sqrt(LOG / (2 * len(a))), f"{what}: {NAMES[j]} of a ray depends on {NAMES[i]} of the previous one", freq=freq, n=n)
    # and so is one value from another one: ordered by one coordinate, successive values of every other one are independent
    for i in range(4):
        order = np.argsort(u[i])
        for j in range(4):
            if i != j:
                c = cell[j][order[: n // 2 * 2]].reshape(-1, 2)
                freq = np.bincount(c[:, 0] * 3 + c[:, 1], minlength=9) / len(c)
                ctx.require(np.abs(freq - 1 / 9).max() <= np.sqrt(LOG / (2 * len(c))), f"{what}: {NAMES[j]} depends on {NAMES[i]}", freq=freq, n=n)
    ctx.count("distributions")
    ctx.count("samples", n)


def make(rng, cls, u=1.0):
    width, length, angle = gen.num(rng, 0.1, 10) * u, gen.num(rng, 0.1, 10) * u, float(rng.choice([10.0, 45.0, 90.0]) if rng.random() < 0.4 else rng.uniform(2, 90))
    w = float(rng.uniform(0.3, 1.5))
    if angle == 90.0 and rng.random() < 0.5:
        if rng.random() < 0.5:
            return cls(width, length), width, length, 90.0, 0.633
        return cls(width, length, wavelength=w), width, length, angle, w
    return cls(width, length, max_angle=angle, wavelength=w), width, length, angle, w


def some_unit(ctx):
    """the unit of length of a case"""
    other = ctx.rng.random() < 0.2
    ctx.count("other_units", other)
    return float(10.0 ** ctx.rng.uniform(-9, 9)) if other else 1.0


def similar(rng, span=5.0):
    """a rigid motion or a uniform scaling"""
    return ("scale_all", (gen.num(rng, 0.3, 3),)) if rng.random() < 0.25 else gen.random_op(rng, span=span, rigid=True)


def meta(ctx, rs, n, w):
    ctx.require(isinstance(rs, pyrayt.RaySet) and np.asarray(rs.rays).shape == (2, 4, n), "not a set of n rays", shape=np.shape(rs), n=n)
    ctx.require((np.asarray(rs.wavelength) == w).all(), "a lamp ray has another wavelength than its lamp", got=np.asarray(rs.wavelength)[:3], want=w)
    ctx.require((np.asarray(rs.index) == 1).all() and (np.asarray(rs.generation) == 0).all() and np.array_equal(np.asarray(rs.id), np.arange(n)),
                "index, generation or ids of lamp rays are wrong")
    d = np.asarray(rs.rays[1], float)
    ctx.require((np.abs(np.sqrt((d * d).sum(0)) - 1) < 1e-12).all() and (d[3] == 0).all() and (np.abs(rs.rays[0, 3] - 1) < 1e-12).all(), "a lamp ray is not a point and a unit vector")


def lamp(ctx):
    rng = ctx.rng
    unit = some_unit(ctx)
    src, width, length, angle, w = make(rng, pc.Lamp, unit)
    m, slack = model.eye(), gen.Slack()
    for _ in range(rng.integers(0, 3)):
        op = gen.in_unit(similar(rng), unit)
        gen.apply(src, None, op)
        slack.carry(gen.op_matrix(op), m)
        m = model.mm(gen.op_matrix(op), m)
    style = rng.integers(4)
    sizes = [int(rng.integers(3000, 8000) if rng.random() < 0.5 else rng.integers(40000, 80000))] if style == 0 else [1500, 1500, 1500] if style == 1 else [3] * 1000 if style == 2 else [1] * 3000
    out, seen = [], []
    for k, n in enumerate(sizes):
        if style == 1 and rng.random() < 0.5:
            op = gen.in_unit(similar(rng), unit)
            gen.apply(src, None, op)
            slack.carry(gen.op_matrix(op), m)
            m = model.mm(gen.op_matrix(op), m)
        if style == 1 and rng.random() < 0.5:
            w = float(rng.uniform(0.3, 1.5))
            src.wavelength = w
        rs = src.generate_rays(n)
        if style < 2 or k % 100 == 0:
            meta(ctx, rs, n, w)
        p, d = local(src, m, rs)
        tol = slack.back(m, width + length)[1]
        out.append((p, d, np.array(rs.intensity)))
        seen.append(tol)
    p, d, inten = (np.concatenate([o[k] for o in out], axis=-1) for k in range(3))
    u = uniforms(ctx, p, d, width, length, angle, inten, max(seen))
    fits(ctx, u, "lamp")
    if style == 1:
        a, b = u[:, :1500], u[:, 1500:3000]
        ctx.require((np.abs(a - b) > 1e-12).mean() > 0.99, "a lamp repeats its samples")
    again = src.generate_rays(sizes[0])
    ctx.require(not np.array_equal(np.asarray(again.rays), np.asarray(rs.rays)) and not np.shares_memory(np.asarray(again), np.asarray(rs)), "a lamp does not draw fresh samples on every call")
    ctx.observed((u[:, :10].tobytes(),), dict(width=width, length=length, angle=angle, calls=len(sizes), rays=u.shape[1]))


def static(ctx):
    rng = ctx.rng
    lamps = []
    unit = some_unit(ctx)
    for _ in range(rng.integers(1, 5)):
        if lamps and rng.random() < 0.3:  # a twin with the very same parameters
            o = lamps[rng.integers(len(lamps))]
            lamps.append(dict(src=pc.StaticLamp(o["width"], o["length"], o["angle"], wavelength=o["w"]), width=o["width"], length=o["length"], angle=o["angle"], w=o["w"], m=model.eye(), slack=gen.Slack(), first={}))
            continue
        src, width, length, angle, w = make(rng, pc.StaticLamp, unit)
        lamps.append(dict(src=src, width=width, length=length, angle=angle, w=w, m=model.eye(), slack=gen.Slack(), first={}))
    pool = [int(x) for x in rng.choice([1, 2, 3, 5, 10, 11, 40, 100], size=rng.integers(1, 4))]
    wide = rng.random() < 0.12  # very many different counts
    repeats, kept, pooled = 0, [], []
    for step in range(200 if wide else rng.integers(4, 20)):
        L = lamps[rng.integers(len(lamps))]
        k = rng.integers(8) if not wide else 7
        if k == 0:
            op = gen.in_unit(similar(rng), unit)
            gen.apply(L["src"], None, op)
            L["slack"].carry(gen.op_matrix(op), L["m"])
            L["m"] = model.mm(gen.op_matrix(op), L["m"])
            ctx.count("static_moves")
        elif k == 1:
            L["w"] = float(rng.uniform(0.3, 1.5))
            L["src"].wavelength = L["w"]
        elif k == 2 and rng.random() < 0.3:  # a tracer uses it
            t = pyrayt.RayTracer(L["src"], [pyrayt.components.baffle(1e3).move_x(5)], rays_per_source=pool[0])
            t.trace()
        elif k == 3 and rng.random() < 0.5:
            pc.StaticLamp(1, 1, 30).generate_rays(pool[0])
            pc.Lamp(1, 1, 30).generate_rays(7)
        else:
            n = pool[rng.integers(len(pool))] if not wide else int(rng.integers(1, 160))
            rs = L["src"].generate_rays(n)
            meta(ctx, rs, n, L["w"])
            p, d = local(L["src"], L["m"], rs)
            tol = L["slack"].back(L["m"], L["width"] + L["length"])[1]
            inten = np.array(rs.intensity)
            if n in L["first"]:
                p0, d0, i0, tol0 = L["first"][n]
                ctx.require(np.abs(p - p0).max() <= tol + tol0 and np.abs(d - d0).max() < 1e-9 and np.array_equal(inten, i0),
                            "a static lamp gives other local rays for the same count", n=n, step=step)
                repeats += 1
                ctx.count("static_repeats")
            else:
                L["first"][n] = (p, d, inten, tol)
                pooled.append(uniforms(ctx, p, d, L["width"], L["length"], L["angle"], inten, tol))
            ctx.count("static_requests")
            for other in kept:
                ctx.require(not np.shares_memory(np.asarray(other[0]), np.asarray(rs)), "two returned sets share memory")
            if rng.random() < 0.5:
                rs[...] = -7.0
                ctx.count("overwritten")
            else:
                kept = (kept + [(rs, np.array(rs))])[-5:]
    for rs, was in kept:
        ctx.require(np.array_equal(np.asarray(rs), was), "a set handed out earlier changed")
    u = np.concatenate(pooled, axis=1) if pooled else np.zeros((4, 0))
    ctx.count("static_samples", u.shape[1])
    if u.shape[1] > 2000:
        fits(ctx, u, "static lamps")
    if repeats:
        ctx.observed((u[:, :5].tobytes(), repeats), dict(lamps=len(lamps), counts=pool, repeats=repeats))


def case(ctx):
    (lamp if ctx.index % 3 == 0 else static)(ctx)
