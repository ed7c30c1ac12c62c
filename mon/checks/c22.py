"""C22: rendered pictures agree with the geometry."""
import matplotlib.pyplot as plt
import numpy as np

import tinygfx.g3d as cg
import tinygfx.g3d.materials as gmat
import pyrayt.materials as matl

from mon import gen, model, trace
from mon.model import LD

RULE = """Scenes of 1-4 components (surfaces, boolean trees, carved bodies, flat stops) placed anywhere are rendered by a shaded and an edge renderer through cameras in any
pose (also inside the scene), with any aspect ratio, and (flat or elongated scenes, too) drawn with draw() in both views, with and without bounds, shaded or as edges; every surface carries a material
that records its calls and answers a colour of its own, or a Gooch material judged by its formula. Every unambiguous pixel is compared with the nearest surface of the
extended precision model along its ray. Non-trivial: at least two different surfaces and the background were visible."""
QUICK, THOROUGH = 420, 8000
MINIMA = dict(flat_scenes=20, other_scales=12, narrow=15, pixels=100000, background=50000, spy_pixels=15000, gooch_pixels=15000, edge_pixels=10000, clear_pixels=100000, drawn_xy=60, drawn_xz=60, drawn_pixels=30000,
              camera_rays=100000, with_bounds=20, inside_scene=10, single_component=40)


class SpyMaterial(matl.TracableMaterial):
    def __init__(self, colour):
        super().__init__()
        self.colour, self.calls = colour, []

    def shade(self, rays, normals, light_positions):
        self.calls.append((np.array(rays), np.array(normals), np.array(light_positions)))
        return np.tile(self.colour[:, None], (1, np.shape(rays)[-1]))

    def trace(self, surface, ray_set):
        return ray_set


def rgba(rng):
    return np.array([*rng.uniform(0.05, 1, 3), 1.0])


class RaySpy:
    """records the rays every camera hands out"""

    def __enter__(self):
        self.seen, self.cls = [], cg.OrthographicCamera
        self.old = self.cls.__dict__.get("generate_rays")
        old, seen = self.cls.generate_rays, self.seen

        def generate_rays(cam, *a, **k):
            out = old(cam, *a, **k)
            seen.append(np.array(out))
            return out

        self.cls.generate_rays = generate_rays
        return self

    def __exit__(self, *exc):
        if self.old is None:
            del self.cls.generate_rays
        else:
            self.cls.generate_rays = self.old


class GoochSpec:
    def __init__(self, rng):
        k = rng.integers(3)
        if k == 0:
            name = ("WHITE", "RED", "GREEN", "BLUE", "YELLOW", "ORANGE", "BLACK")[rng.integers(7)]
            self.mat = getattr(gmat.gooch, name)
        else:
            c = [gmat.color.RGBAColor(*rng.uniform(0, 1, 3)) for _ in range(3)]
            self.mat = gmat.gooch.GoochMaterial(c[0], c[1], c[2], float(rng.uniform(0, 1)), float(rng.uniform(0, 1)))

    def colour(self, points, normals, lights):
        m = self.mat
        base, warm, cool = (np.asarray(c, float) for c in (m.base_color, m.warm_color, m.cool_color))
        warm = warm + m.alpha * (base - warm)
        cool = cool + m.beta * (base - cool)
        lights = np.asarray(lights, float)
        lights = lights[:, None] if lights.ndim == 1 else lights
        mix = 0
        for j in range(lights.shape[1]):
            v = lights[:3, j:j + 1] - points
            v = v / np.linalg.norm(v, axis=0)
            mix = mix + 0.5 * (1 + (v * normals).sum(0)) / lights.shape[1]
        return warm[:, None] * mix + cool[:, None] * (1 - mix)


def dress(rng, refs, gooch):
    """give every leaf a material; -> {surface id: spec}"""
    looks = {}
    for r in refs:
        for leaf in r.leaves():
            if gooch:
                looks[leaf.id] = s = GoochSpec(rng)
                leaf.obj.material = s.mat
            else:
                looks[leaf.id] = leaf.obj.material = SpyMaterial(rgba(rng))
    return looks


def scene_box(refs):
    boxes = [r.box() for r in refs]
    return np.min([b[0] for b in boxes], axis=0).astype(float), np.max([b[1] for b in boxes], axis=0).astype(float)


def check_camera(ctx, cam, m, width, aspect, h):
    v = int(aspect * h)
    ctx.require(tuple(cam.get_resolution()) == (h, v), "the camera has another resolution", got=cam.get_resolution(), want=(h, v))
    ctx.require(np.allclose(cam.get_span(), (width, width * aspect), rtol=1e-12), "the camera has another span", got=cam.get_span())
    rays = np.array(cam.generate_rays())
    ctx.require(rays.shape == (2, 4, h * v), "the camera emits another number of rays", shape=rays.shape)
    # row by row from the top left corner, as seen along +x with z up: left is +y
    y = width / 2 - np.arange(h) * width / (h - 1)
    z = aspect * width / 2 - np.arange(v) * aspect * width / (v - 1)
    local = np.ones((4, v, h))
    local[0], local[1], local[2] = 0, y[None, :], z[:, None]
    want = m @ local.reshape(4, -1)
    # the samples lie within a pixel of an even grid over the span
    inv = np.linalg.inv(m)
    off = inv @ (rays[0] - want)
    ctx.require(np.abs(off[0]).max() < 1e-9 * (1 + width + np.abs(m).max()), "a camera ray does not start on the image plane", worst=np.abs(off[0]).max())
    ctx.require((np.abs(off[1]) <= 0.51 * width / (h - 1)).all() and (np.abs(off[2]) <= 0.51 * width * aspect / (v - 1)).all(),
                "a camera ray is not the ray of its pixel", worst=np.abs(off).max(1), pitch=width / (h - 1))
    d = m[:3, 0] / np.linalg.norm(m[:3, 0])
    ctx.require(np.abs(rays[1, :3] - d[:, None]).max() < 1e-12 and (rays[1, 3] == 0).all() and (rays[0, 3] == 1).all(), "a camera ray does not look along the camera's axis")
    ctx.count("camera_rays", h * v)
    return rays, h, v


def visible(refs, rays):
    R = model.as_rays(rays)
    t, who, amb = model.nearest(refs, R)
    ids = np.array([-1 if w is None else w.id for w in who])
    return R, t, who, ids, np.asarray(amb)


def check_shaded(ctx, canvas, rays, h, v, refs, looks, light, gooch):
    ctx.require(np.shape(canvas) == (v, h, 4), "the picture has another shape", shape=np.shape(canvas), want=(v, h, 4))
    flat = np.asarray(canvas).reshape(-1, 4).T
    R, t, who, ids, amb = visible(refs, rays)
    bad = (flat != 0).any(0) & (ids == -1) & ~amb
    ctx.require(not bad.any(), "a pixel whose ray meets nothing is not transparent", pixel=np.nonzero(bad)[0][:1], value=flat[:, bad][:, :1])
    ctx.count("background", int(((ids == -1) & ~amb).sum()))
    for r in refs:
        for leaf in r.leaves():
            sel = (ids == leaf.id) & ~amb
            if not sel.any():
                continue
            if gooch:
                p = (R[0][:, sel] + R[1][:, sel] * t[sel]).astype(float)
                n, na = leaf.world_normal(p)
                na = np.asarray(na)
                want = looks[leaf.id].colour(p, n.astype(float), light)
                bad = (np.abs(flat[:, sel] - want).max(0) > 1e-4) & ~na
                if leaf.shape.sheet:
                    other = looks[leaf.id].colour(p, -n.astype(float), light)
                    bad &= np.abs(flat[:, sel] - other).max(0) > 1e-4
                ctx.require(not bad.any(), "a pixel does not show the shade of the nearest surface", surface=leaf.desc, value=flat[:, sel][:, bad][:, :1], want=want[:, bad][:, :1])
                ctx.count("gooch_pixels", int((~na).sum()))
            else:
                want = looks[leaf.id].colour
                bad = np.abs(flat[:, sel] - want[:, None]).max(0) > 1e-12
                ctx.require(not bad.any(), "a pixel does not show the material of the nearest surface", surface=leaf.desc, value=flat[:, sel][:, bad][:, :1], want=want)
                ctx.count("spy_pixels", int(sel.sum()))
                calls = looks[leaf.id].calls
                ctx.require(calls, "a visible surface's material was never asked for its shade")
                for a, n, lights in calls:
                    ctx.require(light is None or np.array_equal(lights, light), "a material is given another light position")
                    pts = a[0, :3]
                    nn, na = leaf.world_normal(pts)
                    ok = np.isfinite(pts).all(0) & ~np.asarray(na)
                    # shading points lie on the surface: compare the normals only there
                    miss = np.abs(n[:3] - nn.astype(float)).max(0)
                    if leaf.shape.sheet:
                        miss = np.minimum(miss, np.abs(n[:3] + nn.astype(float)).max(0))
                    ctx.require((miss[ok] < 1e-4).all(), "a material is given a wrong normal", surface=leaf.desc)
                    ctx.count("shaded_points", int(ok.sum()))
    ctx.count("pixels", int((~amb).sum()))
    return ids


def dilate(x, k):
    """x within k pixels (chessboard)"""
    p = np.pad(x, k)
    out = np.zeros_like(x)
    for i in range(2 * k + 1):
        for j in range(2 * k + 1):
            out |= p[i:i + x.shape[0], j:j + x.shape[1]]
    return out


def check_edges(ctx, canvas, rays, h, v, refs):
    ctx.require(np.shape(canvas) == (v, h, 4), "the picture has another shape", shape=np.shape(canvas), want=(v, h, 4))
    canvas = np.asarray(canvas)
    *_, ids, amb = visible(refs, rays)
    ids, amb = ids.reshape(v, h), amb.reshape(v, h)
    opaque = canvas[..., 3] > 0
    change = np.zeros((v, h), bool)
    for dy, dx in ((0, 1), (1, 0)):
        a, b = ids[dy:, dx:], ids[:v - dy, :h - dx]
        s = ~amb[dy:, dx:] & ~amb[:v - dy, :h - dx]
        change[dy:, dx:] |= (a != b) & s
        ctx.require((opaque[dy:, dx:] | opaque[:v - dy, :h - dx])[(a != b) & s].all(), "no edge is drawn where the visible surface changes")
    k = max(1, int(max(h, v) / 300)) + 1
    # where anything is unsure, or where a surface is cut by the border of the picture, an edge may be
    border = np.zeros((v, h), bool)
    border[0], border[-1], border[:, 0], border[:, -1] = True, True, True, True
    border &= ids != -1
    near = dilate(change | amb | border, k)
    bad = opaque & ~near
    ctx.require(not bad.any(), "an edge is drawn where the visible surface does not change", pixel=np.argwhere(bad)[:1], surface=ids[bad][:1], shape=(v, h))
    ctx.require((canvas[opaque] == [0, 0, 0, 1]).all() and (canvas[~opaque][:, 3] == 0).all(), "edge pixels are not black or others not transparent")
    ctx.count("edge_pixels", int(change.sum()))
    ctx.count("clear_pixels", int((~near).sum()))
    return ids


def by_camera(ctx, rng, objs, refs, looks, gooch, large=False):
    lo, hi = scene_box(refs)
    size = float((hi - lo).max())
    mid = (lo + hi) / 2
    for _ in range(1 if large else 2):
        aspect = float(rng.choice([1.0, 1.0, 0.5, 2.0, rng.uniform(0.3, 3)]))
        h = int(rng.integers(8, 40))
        if large:
            h, aspect = int(rng.choice([305, 330, 620, 700])), float(rng.uniform(0.03, 0.2))
            if rng.random() < 0.5:  # upright instead
                h, aspect = int(h * aspect), 1 / aspect
            ctx.count("large_pictures")
        if rng.random() < 0.03:  # very tall or very wide
            h, aspect = (int(rng.integers(3, 10)), float(rng.uniform(60, 250))) if rng.random() < 0.7 else (int(rng.integers(900, 2000)), 0.005)
            ctx.count("extreme_aspect")
        width = size * float(rng.uniform(0.5, 1.6)) * (1 if rng.random() < 0.8 else 0.3)
        if int(aspect * h) < 2:
            continue
        cam = cg.OrthographicCamera(h, width, aspect)
        ops = [op for op in (gen.random_op(rng, rigid=True) for _ in range(rng.integers(0, 4))) if not op[0].startswith("move")]
        ops = [(("rotate_" + "xyz"[rng.integers(3)]), (gen.angle(rng),)) for _ in range(rng.integers(0, 4))]
        for op in ops:
            gen.apply(cam, None, op)
        m = np.array(cam.get_world_transform(), float)
        inside = rng.random() < 0.15
        back = 0.0 if inside else size * float(rng.uniform(1.2, 3))
        target = mid + rng.uniform(-0.3, 0.3, 3) * size * (rng.random() < 0.5)
        gen.apply(cam, None, ("move", tuple(float(x) for x in target - back * m[:3, 0])))
        m = np.array(cam.get_world_transform(), float)
        ctx.count("inside_scene", int(inside))
        rays, h, v = check_camera(ctx, cam, m, width, aspect, h)
        light = np.ones(4)
        light[:3] = mid + rng.normal(size=3) * size * 2
        if rng.random() < 0.3:
            k = rng.integers(1, 4)
            light = np.ones((4, k))
            light[:3] = mid[:, None] + rng.normal(size=(3, k)) * size * 2
        for x in looks.values():
            if not gooch:
                x.calls.clear()
        r = cg.renderers.ShadedRenderer(cam, objs, light.copy())
        canvas = r.render()
        ids = check_shaded(ctx, canvas, rays, h, v, refs, looks, light, gooch)
        ctx.require(np.array_equal(r.render(), canvas), "rendering again gives another picture")
        e = cg.renderers.EdgeRender(cam, objs)
        check_edges(ctx, e.render(), rays, h, v, refs)
        ctx.require(np.array_equal(e.get_results(), e.render()), "rendering again gives other edges")
        if len(set(ids)) > 2 and -1 in ids:
            ctx.observed((ids.tobytes(), h), dict(surfaces=len(set(ids)) - 1, size=(h, v), camera=ops))


def by_draw(ctx, rng, objs, refs, looks, gooch, large=False):
    view = ("xy", "xz")[rng.integers(2)]
    up, look = (1, 2) if view == "xy" else (2, 1)
    res = int(rng.integers(16, 64))
    shaded = bool(rng.random() < 0.6) and not gooch
    lo, hi = scene_box(refs)
    if large:
        res = 640 if rng.random() < 0.5 else int(rng.integers(300, 620))
        ctx.count("large_pictures")
    kw = {k: x for k, x, usual in (("view", view, "xy"), ("resolution", res, 640), ("shaded", shaded, True)) if x != usual or rng.random() < 0.5}
    bounds = None
    if rng.random() < 0.3:
        c, s = (lo + hi) / 2 + rng.uniform(-0.2, 0.2, 3) * (hi - lo), (hi - lo) * rng.uniform(0.4, 1.2, 3) + 0.1
        bounds = (c - s / 2, c + s / 2)
        kw["bounds"] = tuple(tuple(float(x) for x in b) for b in bounds) if rng.random() < 0.5 else bounds
        ctx.count("with_bounds")
        blo, bhi = bounds
    else:
        boxes = np.hstack([np.asarray(o.bounding_volume.bounding_points)[:3] for o in objs])
        blo, bhi = boxes.min(1), boxes.max(1)
    # endless components, and boolean operations that leave nothing, have no bounds to draw
    if not np.isfinite(np.r_[lo, hi, blo, bhi]).all() or not all(np.isfinite(np.asarray(o.bounding_volume.axis_spans)).all() for o in objs):
        ctx.count("endless")
        return
    w, hgt = (bhi - blo)[0], (bhi - blo)[up]
    if not (1 / 8 < w / max(hgt, 1e-9) < 8):
        ctx.count("narrow")
    pixel = 1.5 * max(w, hgt) / res
    given = objs
    if len(objs) == 1:
        ctx.count("single_component")
        if rng.random() < 0.5:
            given = objs[0]
    elif rng.random() < 0.3:
        given = (tuple(objs), cg.ObjectGroup(objs), {i: o for i, o in enumerate(objs)}.values(), np.array(objs, dtype=object))[rng.integers(4)]
        ctx.count("other_containers")
    fig = plt.figure()
    try:
        ax = fig.add_subplot()
        if rng.random() < 0.3:
            plt.sca(ax)
        else:
            kw["axis"] = ax
        with RaySpy() as spy:
            cg.renderers.draw(given, **kw)
        ctx.require(len(ax.images) == 1, "draw() does not place one picture", images=len(ax.images))
        img = ax.images[0]
        pic = np.asarray(img.get_array())
        left, right, bottom, top = (float(x) for x in img.get_extent())
        upper = img.origin == "upper"
    finally:
        plt.close(fig)
    ctx.count("drawn_" + view)
    info = dict(view=view, extent=(left, right, bottom, top), box=(blo, bhi))
    ctx.require(left < right and bottom < top, "the picture is mirrored", **info)
    eps = 1e-9 * (1 + abs(blo).max() + abs(bhi).max())
    ctx.require(left <= blo[0] + eps and right >= bhi[0] - eps and bottom <= blo[up] + eps and top >= bhi[up] - eps, "the picture does not cover the bounding volume", **info)
    ctx.require(abs((left + right) - (blo[0] + bhi[0])) < 1e-6 * (w + abs(left) + abs(right)) and abs((top + bottom) - (blo[up] + bhi[up])) < 1e-6 * (hgt + abs(top) + abs(bottom)), "the picture is not centred on the bounding volume", **info)
    ctx.require(right - left < 3 * w + 4 * pixel and top - bottom < 3 * hgt + 4 * pixel, "the picture is far larger than the bounding volume", **info)
    v, h = pic.shape[:2]
    # about the pixels asked for, square ones up to rounding
    ctx.require(pic.shape[2] == 4 and abs(max(v, h) - res) <= 2 + max(v / h, h / v), "the picture has another resolution", shape=pic.shape, asked=res)
    # the rays the picture was made of belong to its pixels and look from above or from the front
    xs = left + (np.arange(h) + 0.5) * (right - left) / h
    ys = top - (np.arange(v) + 0.5) * (top - bottom) / v
    if not upper:
        ys = ys[::-1]
    far = 10 + 2 * float((hi - lo).max())
    rays = np.zeros((2, 4, v * h))
    rays[0, 3] = 1
    rays[1, look] = -1 if view == "xy" else 1
    if spy.seen and spy.seen[-1].shape == rays.shape:
        own = spy.seen[-1]
        rays[0, :3] = own[0, :3]
        ctx.require(np.abs(own[1] - rays[1]).max() < 1e-12, "the picture is not taken along the view's axis", got=own[1, :, :1], **info)
        ctx.require(np.abs(own[0, 0] - np.tile(xs, v)).max() <= 0.55 * (right - left) / max(h - 1, 1) and np.abs(own[0, up] - np.repeat(ys, h)).max() <= 0.55 * (top - bottom) / max(v - 1, 1),
                    "a pixel does not show the place where it is drawn", **info)
        ctx.count("recorded_rays", v * h)
    else:
        rays[0, 0] = np.tile(np.linspace(left, right, h), v)
        rays[0, up] = np.repeat(np.linspace(top, bottom, v)[:: 1 if upper else -1], h)
    rays[0, look] = hi[look] + far if view == "xy" else lo[look] - far
    if shaded:
        check_shaded(ctx, pic, rays, h, v, refs, looks, None, False)
        ids = visible(refs, rays)[3]
    else:
        ids = check_edges(ctx, pic, rays, h, v, refs)
    ctx.count("drawn_pixels", v * h)
    if len(set(ids.ravel())) > 2:
        ctx.observed((ids.tobytes(), view), dict(view=view, shaded=shaded, surfaces=len(set(ids.ravel())) - 1, shape=(h, v)))


def flat_part(rng, kind=None):
    """a component without extent along an axis, or a long one"""
    kind = kind or ("plane", "cube", "cylinder")[rng.integers(3)]
    o, r, desc = gen.make_leaf(rng, kind)
    r.kind = kind
    if kind == "plane":
        gen.apply(o, r, (("rotate_x", "rotate_y")[rng.integers(2)], (90.0,)))
        if rng.random() < 0.5:
            gen.apply(o, r, ("rotate_z", (90.0 * int(rng.integers(1, 4)),)))
    else:
        gen.apply(o, r, (("scale_x", "scale_y", "scale_z")[rng.integers(3)], (float(10.0 ** rng.choice([-3.0, -2.0, 2.0])),)))
    return o, r


def case(ctx):
    rng = ctx.rng
    large = ctx.index % 70 == 11
    scene = trace.make_scene(rng, int(rng.integers(1, 3 if large else 5)), ("absorber",), spread=3.0, sheets=True, crowd=0.0 if large else 0.03)
    flat = not large and rng.random() < 0.15
    if flat:
        scene = [flat_part(rng)]
        if rng.random() < 0.3:  # another one behind it
            o, r = flat_part(rng, scene[0][1].kind)
            scene.append((o, r))
        ctx.count("flat_scenes")
    elif not large and rng.random() < 0.12:  # large and small scenes, seen from afar
        f = float(10.0 ** rng.uniform(-2, 3.5))
        for o, r in scene:
            gen.apply(o, r, ("scale_all", (f,)))
        ctx.count("other_scales")
    where = rng.uniform(-60, 60, 3) * (rng.random() < 0.6)
    for o, r in scene:
        gen.apply(o, r, ("move", tuple(float(x) for x in where)))
    objs, refs = [o for o, _ in scene], [r for _, r in scene]
    gooch = rng.random() < 0.5
    looks = dress(rng, refs, gooch)
    if not flat and rng.random() < 0.5:
        by_camera(ctx, rng, objs, refs, looks, gooch, large)
    if not large or ctx.index % 140 == 11:
        by_draw(ctx, rng, objs, refs, looks, gooch, large)
