"""C23: show() plots exactly the recorded segments and changes nothing."""
import matplotlib.pyplot as plt
from matplotlib.quiver import Quiver
import numpy as np

import pyrayt
import pyrayt.materials as matl
from pyrayt.utils import wavelength_to_rgb

from mon import gen, trace

RULE = """Random systems with 1-4 sources are shown before and after traces, in both views, with every colour function, shaded and unshaded, on a given or the current
axis, after changing rays per source, limits, poses and materials since the trace and repeatedly, now and then with thousands of arrows or a lone screen seen edge-on; the arrows on the axis are compared row by
row with the result frame, in their offsets, vectors, colours and (a part of the time) drawn tips, and results, settings and poses are compared with snapshots.
Non-trivial: arrows of at least two generations were compared."""
QUICK, THOROUGH = 420, 12000
MINIMA = dict(elongated=20, shows=400, arrows=3500, before_trace=130, by_source=40, by_wavelength=40, plain=40, view_xy=60, view_xz=60, several_sources=60, changed_count=15, tips=60, no_rows=3,
              current_axis=40, crowds=7, other_units=20)


def snapshot(tracer, objs, sources):
    return dict(rows=tracer.get_results().copy(deep=True), count=tracer.get_rays_per_source(), limit=tracer.get_generation_limit(), system=[id(c) for c in tracer.get_system()],
                poses=[np.array(o.get_world_transform()) for o in objs + [s.source for s in sources]])


def check_same(ctx, before, after):
    ctx.require(before["rows"].equals(after["rows"]) and list(before["rows"].columns) == list(after["rows"].columns), "show() changes the results")
    for k in ("count", "limit", "system"):
        ctx.require(before[k] == after[k], "show() changes the " + k)
    ctx.require(all(np.array_equal(a, b) for a, b in zip(before["poses"], after["poses"])), "show() moves something")


def check_arrows(ctx, q, rows, view, how, n_sources, per_source):
    up = "yz"[view == "xz"]
    n = len(rows)
    get = lambda c: np.asarray(rows[c], float)
    off = np.asarray(q.get_offsets(), float).reshape(-1, 2)
    ctx.require(len(off) == n and np.size(q.U) == n and np.size(q.V) == n, "not one arrow per row", arrows=len(off), rows=n)
    want = np.array([get("x0"), get(up + "0")]).T
    vec = np.array([get("x1") - get("x0"), get(up + "1") - get(up + "0")]).T
    size = 1 + np.abs(want).max(initial=0) + np.abs(vec).max(initial=0)
    ctx.require(np.abs(off - want).max(initial=0) < 1e-9 * size, "an arrow does not start where its row does", view=view)
    got = np.array([np.ravel(q.U), np.ravel(q.V)]).T
    ctx.require(np.abs(got - vec).max(initial=0) < 1e-9 * size, "an arrow does not reach where its row ends", view=view)
    ctx.count("arrows", n)
    if not n:
        ctx.count("no_rows")
        return
    col = np.asarray(q.get_facecolor(), float)
    if len(col) == 1:
        col = np.repeat(col, n, axis=0)
    ctx.require(len(col) == n, "not one colour per arrow", colours=len(col), rows=n)
    ctx.require((col[:, 3] == 1).all(), "an arrow is not opaque")
    if how == "wavelength":
        ctx.require(np.abs(col[:, :3] - wavelength_to_rgb(get("wavelength"))).max() < 1e-9, "an arrow does not have the colour of its wavelength")
        ctx.count("by_wavelength")
    elif how == "source":
        src = (get("id") // per_source).astype(int)
        shade = {}
        for s, c in zip(src, map(tuple, col[:, :3])):
            ctx.require(shade.setdefault(s, c) == c, "rays of one source differ in colour", source=s)
        ctx.require(len(set(shade.values())) == len(shade), "two sources share a colour", colours=shade)
        palette = wavelength_to_rgb(np.linspace(0.45, 0.65, n_sources))
        ctx.require(all(np.abs(np.array(c) - palette[s]).max() < 1e-9 for s, c in shade.items()), "the colours are not those of the sources in order", colours=shade)
        ctx.count("by_source")
    else:
        ctx.require((col == col[0]).all(), "arrows differ in colour without a colour function")
        ctx.count("plain")


def check_tips(ctx, fig, ax, q, width):
    """the drawn polygon of long arrows (compared with the pen, too) reaches from the row's start to its end on the screen"""
    fig.canvas.draw()
    off = np.asarray(q.get_offsets(), float)
    vec = np.array([np.ravel(q.U), np.ravel(q.V)]).T
    tail, tip = ax.transData.transform(off), ax.transData.transform(off + vec)
    length = np.linalg.norm(tip - tail, axis=1)
    paths, t = q.get_paths(), q.get_transform()
    for i in np.argsort(-length)[:6]:
        if not 12 < length[i] < 1e5 or np.linalg.norm(vec[i]) < 10 * width:
            continue
        v = t.transform(paths[i].vertices) - t.transform([[0, 0]])
        far = v[np.argmax(np.linalg.norm(v, axis=1))]
        ctx.require(np.linalg.norm(far - (tip[i] - tail[i])) < 1.5 + 0.02 * length[i], "a drawn arrow does not reach the end of its segment",
                    drawn=far, want=tip[i] - tail[i])
        ctx.count("tips")


def screen(rng):
    o, r, _ = gen.make_leaf(rng, "plane", (matl.absorber, matl.mirror)[rng.integers(2)])
    r.kind = "sheet"
    gen.apply(o, r, ("rotate_y", (90.0,)))
    if rng.random() < 0.3:
        gen.apply(o, r, ("rotate_z", (90.0,)))
    gen.apply(o, r, ("move", tuple(float(x) for x in rng.uniform(-5, 5, 3))))
    return o, r


def case(ctx):
    rng = ctx.rng
    scene = trace.make_scene(rng, int(rng.integers(1, 4)), ("mirror", "glass", "absorber"), spread=3.0, sheets=bool(rng.random() < 0.5), cavity=("mirror",) if rng.random() < 0.3 else None)
    scene = [(o, r) for o, r in scene if np.isfinite(np.asarray(o.bounding_volume.axis_spans)).all()]
    grow = 10.0 ** rng.uniform(-3, 4) if rng.random() < 0.12 else 1.0  # in another unit
    ctx.count("other_units", int(grow != 1))
    if rng.random() < 0.1:  # a lone screen, seen edge-on in one or both views
        o, r = trace.make_scene(rng, 1, ("absorber",), tree_p=0.0)[0] if rng.random() < 0.3 else screen(rng)
        scene = [(o, r)]
    box = [np.asarray(o.bounding_volume.axis_spans) for o, _ in scene]
    if not box:
        return
    span = np.max([b[:, 1] for b in box], axis=0) - np.min([b[:, 0] for b in box], axis=0)
    ctx.count("elongated", int(span.max() > 8 * span.min()))
    objs, refs = [o for o, _ in scene], [r for _, r in scene]
    n, k = int(rng.integers(1, 12)), int(rng.integers(1, 5)) if rng.random() < 0.9 else int(rng.integers(5, 17))
    if rng.random() < 0.05:  # thousands of arrows
        n = int(10.0 ** rng.uniform(2, 3.6) / k) + 1
        ctx.count("crowds")
    sources = trace.make_sources(rng, refs, k, n, real=1.0 if rng.random() < 0.5 else 0.4)
    if rng.random() < 0.06:  # nothing is hit
        rays = np.zeros((2, 4, n))
        rays[0, 3], rays[0, 0], rays[1, 0] = 1, 500, 1
        sources = [gen.Recorder(gen.FixedSource(rays)) for _ in range(k)]
    if grow != 1:
        for o, r in scene:
            gen.apply(o, r, ("scale_all", (grow,)))
        for s in sources:
            s.source.move(*(np.asarray(s.source.get_position(), float)[:3] * (grow - 1)))
    single = k == 1 and rng.random() < 0.5
    tracer = pyrayt.RayTracer(sources[0] if single else sources, objs[0] if len(objs) == 1 and rng.random() < 0.5 else objs, rays_per_source=n, generation_limit=int(rng.integers(1, 6)))
    traced = None
    deep = 0
    fig = plt.figure(figsize=(3, 3), dpi=50)
    try:
        for step in range(int(rng.integers(2, 5))):
            if step and rng.random() < 0.6 or step == 1:
                tracer.set_rays_per_source(n)
                tracer.trace()
                traced = n
            # change things between the trace and the picture
            if rng.random() < 0.3 and not any(isinstance(s.source, gen.FixedSource) for s in sources):
                n = int(rng.integers(1, 12))
                tracer.set_rays_per_source(n)
                ctx.count("changed_count", int(traced is not None))
            if rng.random() < 0.2:
                tracer.set_generation_limit(int(rng.integers(1, 6)))
            if rng.random() < 0.2:
                objs[rng.integers(len(objs))].move(*rng.uniform(-0.5, 0.5, 3))
            view = ("xy", "xz")[rng.integers(2)]
            how = (None, "wavelength", "source")[rng.integers(3)]
            kw = dict(resolution=int(rng.integers(12, 40)))
            if view != "xy" or rng.random() < 0.5:
                kw["view"] = view
            if how or rng.random() < 0.3:
                kw["color_function"] = how
            if rng.random() < 0.3:
                kw["shaded"] = bool(rng.random() < 0.7)
            if rng.random() < 0.3:
                kw["ray_width"] = float(rng.uniform(0.005, 0.1))
            ax = fig.add_subplot()
            if rng.random() < 0.35:
                plt.figure(fig.number)
                plt.sca(ax)
                ctx.count("current_axis")
            else:
                kw["axis"] = ax
            before = snapshot(tracer, objs, sources)
            tracer.show(**kw)
            check_same(ctx, before, snapshot(tracer, objs, sources))
            ctx.count("shows")
            ctx.count("view_" + view)
            arrows = [c for c in ax.collections if isinstance(c, Quiver)]
            ctx.require(len(ax.images) == 1, "show() does not draw the components", images=len(ax.images))
            if traced is None:
                ctx.require(not arrows and not ax.collections, "show() draws rays before a trace", drawn=len(ax.collections))
                ctx.count("before_trace")
            else:
                ctx.require(len(arrows) == 1 and len(ax.collections) == 1, "show() does not draw the rays once", drawn=len(ax.collections))
                rows = tracer.get_results()
                check_arrows(ctx, arrows[0], rows, view, how, k, traced)
                ctx.count("several_sources", int(k > 1))
                if len(rows) and rng.random() < 0.25:
                    check_tips(ctx, fig, ax, arrows[0], kw.get("ray_width", 0.01))
                if len(rows):
                    deep = max(deep, int(np.asarray(rows["generation"], float).max()) + 1)
            fig.delaxes(ax)
    finally:
        plt.close("all")
    if deep >= 2:
        ctx.observed((traced, k, [s.given[-1][1].tobytes() for s in sources if s.given]), dict(sources=k, rays=traced, components=len(objs), generations=deep))
