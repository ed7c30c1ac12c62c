"""C25: tracing and querying have no side effects."""
import os
import sys
import threading
import time

import matplotlib.pyplot as plt
import numpy as np

import tinygfx.g3d as cg
import tinygfx.g3d.operations as op
import tinygfx.g3d.materials as gmat
import tinygfx.g3d.primitives as prims
import pyrayt
import pyrayt.materials as matl
from pyrayt.utils import wavelength_to_rgb

from mon import gen, model, trace
from mon.checks.c14 import steady

RULE = """2-4 tracers share components (surfaces, trees, carved bodies, lenses) and sources. (a) Histories of traces, intersections, normals, shadings, renderings, pictures,
refractions, reflections and ray requests run on read-only copies of their inputs; after each call all inputs, poses, bounds, materials, normals and every result handed
out so far are compared with their snapshots. (b) Traces, renderings and queries are nested into one another through components and materials that call out in the middle
of a trace, and (c) run in up to four threads with a switch interval of a microsecond and random pauses at lines of the code under test, starting from freshly moved
objects; every result is compared bit by bit with the one the tracer gives alone. Non-trivial: a trace was interrupted at least once, or three operations were compared."""
QUICK, THOROUGH = 270, 8000
MINIMA = dict(primitive_calls=8, operations=140, snapshots=140, frames_kept=130, answers_kept=100, nested_traces=400, nested_cases=20, threads=60, thread_cases=15, switches=3000, compared_results=250)
KINDS = ("mirror", "glass", "absorber", "custom", "glass", "mirror")
REPO = os.path.dirname(os.path.dirname(os.path.abspath(pyrayt.__file__)))
PARTS = (os.path.join(REPO, "pyrayt"), os.path.join(REPO, "tinygfx"))


# ------------------------------------------------------------------ the system under observation
class Proxy:
    """a component that calls out around every intersection"""

    def __init__(self, obj, hook):
        self.__dict__.update(obj=obj, hook=hook)

    def intersect(self, rays):
        self.hook()
        out = self.obj.intersect(rays)
        self.hook()
        return out

    def __getattr__(self, name):
        return getattr(self.obj, name)


class CallingMaterial(matl.TracableMaterial):
    def __init__(self, inner, hook):
        super().__init__()
        self.inner, self.hook = inner, hook

    def trace(self, surface, ray_set):
        self.hook()
        out = self.inner.trace(surface, ray_set)
        self.hook()
        return out


class System:
    def __init__(self, ctx, rng):
        self.busy, self.inside = None, 0
        scene = trace.make_scene(rng, int(rng.integers(2, 5)), KINDS, spread=2.5, cavity=("mirror", "glass") if rng.random() < 0.3 else None, roam=0.12, crowd=0.03)
        self.refs, self.objs = [r for _, r in scene], [o for o, _ in scene]
        for r in self.refs:
            for leaf in r.leaves():
                if rng.random() < 0.5:
                    leaf.obj.material = CallingMaterial(leaf.obj.material, self.hook)
        self.comps = [Proxy(o, self.hook) if rng.random() < 0.6 else o for o in self.objs]
        n = int(rng.integers(1, 12))
        self.n = n
        self.sources = steady(rng, self.refs, int(rng.integers(1, 4)), n, 0.6)
        self.sources = [s.source for s in self.sources]
        for s in self.sources:
            s.generate_rays(n)  # static samples are drawn on first use
        self.settings = []
        for _ in range(int(rng.integers(2, 5))):
            pick = lambda x: [x[i] for i in rng.permutation(len(x))[: rng.integers(1, len(x) + 1)]]
            self.settings.append((pick(self.sources), pick(self.comps), int(rng.integers(1, 7)), float(rng.choice([1e-6, 1e-5]))))

    def hook(self):
        if self.busy is not None:
            self.busy()

    def tracer(self, k):
        sources, comps, limit, offset = self.settings[k]
        t = pyrayt.RayTracer(list(sources), list(comps), rays_per_source=self.n, generation_limit=limit)
        t.ray_offset_value = offset
        return t

    def leaves(self):
        return [leaf for r in self.refs for leaf in r.leaves()]

    def state(self):
        """everything observable about the objects"""
        nodes = [x for r in self.refs for x in gen.nodes(r)]
        probe = np.ones((4, 3))
        probe[:3] = [[0.3, -1.2, 2.1], [0.7, 0.4, -0.6], [1.1, -0.2, 0.5]]
        out = []
        for x in nodes:
            o = x.obj
            out += [np.array(o.get_world_transform()), np.array(o.get_position()), np.array(o.get_orientation()), np.array(o.bounding_volume.axis_spans),
                    np.array(o.bounding_volume.bounding_points), np.array([i for i, _ in o.surface_ids])]
        for leaf in self.leaves():
            with np.errstate(all="ignore"):
                out.append(np.array(leaf.obj.get_world_normals(probe.copy())))
            out.append(np.array([id(leaf.obj.material)]))
        for s in self.sources:
            out += [np.array(s.get_world_transform()), np.array(s.generate_rays(self.n))]
        return out


def same_state(a, b):
    return len(a) == len(b) and all(np.array_equal(x, y, equal_nan=True) for x, y in zip(a, b))


def frozen(a):
    a = np.array(a)
    a.flags.writeable = False
    return a


# ------------------------------------------------------------------ (a) histories
def histories(ctx, rng):
    s = System(ctx, rng)
    tracers = [s.tracer(k) for k in range(len(s.settings))]
    answers = []  # of intersections and normals, with copies
    kept = []  # frames handed out so far, with copies
    state = s.state()
    for _ in range(int(rng.integers(5, 10))):
        k = rng.integers(13)
        inputs = []
        own = lambda a: inputs.append((a, np.array(a))) or a
        leaf = s.leaves()[rng.integers(len(s.leaves()))]
        o = s.objs[rng.integers(len(s.objs))]
        rays = frozen(gen.rays_at(rng, s.refs, int(rng.integers(1, 9)))[0])
        if k <= 2:
            t = tracers[rng.integers(len(tracers))]
            f = t.trace()
            kept.append((f, f.copy(deep=True)))
        elif k == 3:
            own(rays)
            for a in o.intersect(rays):
                own(a)
            answers.extend(inputs[-2:])
        elif k == 4:
            own(rays)
            pts = own(frozen(rays[0]))
            answers.append((out := leaf.obj.get_world_normals(pts), np.array(out)))
            leaf.obj.intersect(rays)
        elif k == 5:
            n = rays.shape[-1]
            v = own(frozen(rays[1] * rng.uniform(0.5, 2)))
            nn = rng.normal(size=(4, n))
            nn[3] = 0
            nn = own(frozen(nn / np.linalg.norm(nn, axis=0)))
            i1, i2 = own(frozen(rng.uniform(1, 2, n))), own(frozen(rng.uniform(1, 2, n)))
            op.refract(own(frozen(rays[1])), nn, i1, i2)
            op.reflect(v, nn)
            op.element_wise_dot(v, nn)
        elif k == 6:
            light = own(frozen([*rng.normal(size=3) * 5, 1.0]))
            dist = own(frozen(rng.uniform(0.1, 4, rays.shape[-1])))
            leaf.obj.shade(own(rays), dist, light_positions=light)
        elif k == 7:
            light = own(frozen([*rng.normal(size=3) * 5, 1.0]))
            cam = cg.OrthographicCamera(8, 6.0, 1.0)
            cam.move(-9, 0, 0)
            m = np.array(cam.get_world_transform())
            cg.renderers.ShadedRenderer(cam, s.comps, light).render()
            cg.renderers.EdgeRender(cam, s.comps).render()
            ctx.require(np.array_equal(m, cam.get_world_transform()), "rendering moves the camera")
        elif k == 8:
            finite = [c for c in s.comps if np.isfinite(np.asarray(c.bounding_volume.axis_spans)).all()]
            if finite:
                spans = np.array([c.bounding_volume.axis_spans for c in finite])
                size = spans[:, :, 1].max(0) - spans[:, :, 0].min(0)
                if size.max() < 6 * size.min():
                    fig = plt.figure()
                    limits = None
                    if rng.random() < 0.5:  # of the caller's making
                        limits = [np.array(spans[:, :, 0].min(0)), np.array(spans[:, :, 1].max(0))]
                        if rng.random() < 0.4:  # without extent along some axis, or in whole numbers
                            ax = int(rng.integers(1, 3))
                            limits[1][ax] = limits[0][ax]
                        if rng.random() < 0.3:
                            limits = [np.floor(limits[0]).astype(int), np.ceil(limits[1]).astype(int)]
                        limits = tuple(own(b) for b in limits)
                    view, shaded = ("xy", "xz")[rng.integers(2)], bool(rng.random() < 0.5)
                    try:
                        if rng.random() < 0.5:
                            cg.renderers.draw(finite, view=view, axis=fig.add_subplot(), shaded=shaded, bounds=limits, resolution=12)
                        else:
                            keep = list(finite)
                            pyrayt.RayTracer(list(s.sources), finite, rays_per_source=s.n).show(view=view, axis=fig.add_subplot(), shaded=shaded, bounds=limits, resolution=12)
                            ctx.require(finite == keep, "show() changes the caller's list of components")
                    finally:
                        plt.close(fig)
        elif k == 9:
            src = s.sources[rng.integers(len(s.sources))]
            a = src.generate_rays(s.n)
            keep = np.array(a)
            src.generate_rays(s.n)
            ctx.require(np.array_equal(a, keep), "generating rays changes the set generated before")
            a[:] = -7.0
            ctx.require(np.array_equal(src.generate_rays(s.n), keep), "changing the generated rays changes the source")
        elif k == 12:
            # the primitives themselves, single rays and batches, read-only or not, in any memory layout
            prim = (lambda: prims.Cylinder(1.0, -1.0, 1.5, capped=bool(rng.random() < 0.7)), lambda: prims.Sphere(1.5), lambda: prims.Cube([-1, -1, -1], [1, 2, 1.5]),
                    lambda: prims.Paraboloid(1.0), lambda: prims.Plane(2.0, 3.0))[rng.integers(5)]()
            r = rays if rng.random() < 0.7 else rays[..., 0]
            pts = rays[0] if rng.random() < 0.7 else rays[0, :, 0]
            layout = np.asfortranarray if rng.random() < 0.3 else np.ascontiguousarray
            r, pts = own(layout(r)), own(layout(pts + 0.0))
            with np.errstate(all="ignore"):
                prim.intersect(r)
                prim.normal(pts)
        elif k == 10:
            w = own(frozen(rng.uniform(0.3, 0.8, 6)))
            wavelength_to_rgb(w)
            for g in matl.glass.values():
                g.index_at(w)
            a, b, c = (own(frozen(rng.normal(size=6))) for _ in range(3))
            op.binomial_root(a, b, c)
            op.smallest_positive_root(a, b, c)
        else:
            t = tracers[rng.integers(len(tracers))]
            what = rng.integers(3)
            if what == 0:
                t.reset()
            elif what == 1:
                t.get_results(), t.get_system(), t.get_generation_limit()
            else:
                t.set_generation_limit(int(rng.integers(1, 6)))
        if k == 12:
            ctx.count("primitive_calls")
        for a, keep in inputs:
            ctx.require(np.array_equal(a, keep, equal_nan=True), "a call changes its input", operation=int(k))
            ctx.count("inputs_kept")
        ctx.require(same_state(state, s.state()), "a call changes an object", operation=int(k))
        ctx.count("snapshots")
        for a, keep in answers:
            ctx.require(np.array_equal(a, keep, equal_nan=True), "a call changes an answer handed out before", operation=int(k))
            ctx.count("answers_kept")
        for f, keep in kept:
            ctx.require(f.equals(keep) and list(f.columns) == list(keep.columns), "a call changes a result handed out before", operation=int(k))
            ctx.count("frames_kept")
        ctx.count("operations")
    ctx.observed(("history", [a.tobytes() for a in state[:4]]), dict(kind="history", tracers=len(tracers), components=len(s.objs), frames=len(kept)))


# ------------------------------------------------------------------ (b) nesting
def nested(ctx, rng):
    s = System(ctx, rng)
    alone = [s.tracer(k).trace().copy(deep=True) for k in range(len(s.settings))]
    before = s.state()
    tracers = [s.tracer(k) for k in range(len(s.settings))]
    running = set()
    log = []

    def busy():
        if len(running) >= 3 or len(log) > 60 or rng.random() < 0.4:
            return
        free = [k for k in range(len(tracers)) if k not in running]
        what = rng.integers(6)
        if what == 0 or not free:
            leaf = s.leaves()[rng.integers(len(s.leaves()))]
            p = np.ones((4, 2))
            p[:3] = rng.normal(size=(3, 2))
            leaf.obj.get_world_normals(p)
            s.objs[rng.integers(len(s.objs))].intersect(gen.rays_at(rng, s.refs, 2)[0])
            s.sources[rng.integers(len(s.sources))].generate_rays(s.n)
            log.append("query")
        elif what == 1:
            cam = cg.OrthographicCamera(3, 6.0, 1.0)
            cam.move(-9, 0, 0)
            log.append("render")
            s.busy, keep = None, s.busy
            cg.renderers.EdgeRender(cam, s.objs).render()
            s.busy = keep
        else:
            k = int(free[rng.integers(len(free))])
            log.append(k)
            run(k)

    def run(k):
        running.add(k)
        try:
            f = tracers[k].trace()
        finally:
            running.discard(k)
        ctx.require(f.equals(alone[k]), "a tracer interrupted by others gives another result than alone", tracer=k, rows=len(f), alone=len(alone[k]), log=log)
        ctx.count("compared_results")

    s.busy = busy
    for k in range(len(tracers)):
        run(k)
    s.busy = None
    ctx.require(same_state(before, s.state()), "nested traces change an object")
    n = sum(isinstance(x, int) for x in log)
    ctx.count("nested_traces", n)
    ctx.count("nested_cases")
    if n:
        ctx.observed(("nested", log, alone[0].to_numpy().tobytes()), dict(kind="nested", tracers=len(tracers), interruptions=log[:12]))


# ------------------------------------------------------------------ (c) threads
class Pauses:
    """pauses at random lines of the code under test; records who ran when"""

    def __init__(self, seeds, rate):
        self.seeds, self.rate, self.events, self.local = list(seeds), rate, [], threading.local()
        self.part, self.parts = seeds[0] % 12, 12

    def __call__(self, frame, event, arg):
        f = frame.f_code.co_filename
        if not f.startswith(PARTS):
            return None
        return self.line

    def line(self, frame, event, arg):
        if event == "line":
            loc = self.local
            if not hasattr(loc, "rng"):
                loc.rng = np.random.default_rng(self.seeds.pop())
                loc.next = loc.rng.geometric(self.rate)
                # a few long stalls, more of them early, when things are computed for the first time
                loc.stalls = set(int(x) for x in 10.0 ** loc.rng.uniform(0.5, 3.5, 8))
                loc.lines, loc.budget = 0, 150
            loc.lines += 1
            if loc.lines in loc.stalls:
                self.events.append((threading.get_ident(), frame.f_lineno))
                time.sleep(3e-3)
            # one twelfth of the lines, another one each time, is where threads wait for each other
            if (frame.f_lineno * 7 + len(frame.f_code.co_filename)) % self.parts == self.part and loc.budget > 0 and loc.rng.random() < 0.5:
                loc.budget -= 1
                self.events.append((threading.get_ident(), frame.f_lineno))
                time.sleep(5e-4)
            loc.next -= 1
            if loc.next <= 0:
                loc.next = loc.rng.geometric(self.rate)
                self.events.append((threading.get_ident(), frame.f_lineno))
                time.sleep(0 if loc.rng.random() < 0.6 else 2e-5)
        return self.line


def threads(ctx, rng):
    s = System(ctx, rng)
    n = min(4, len(s.settings)) if rng.random() < 0.5 else 4
    which = [int(rng.integers(len(s.settings))) for _ in range(n)]
    alone = {k: s.tracer(k).trace().copy(deep=True) for k in set(which)}
    before = s.state()
    probe = frozen(gen.rays_at(rng, s.refs, 6)[0])
    hits = [o.intersect(probe) for o in s.objs]
    normals = [(leaf.obj, leaf.obj.get_world_normals(probe[0])) for leaf in s.leaves()]
    given = [(x, np.array(x.generate_rays(s.n))) for x in s.sources]
    results, errors = {}, []
    gate = threading.Barrier(n + 1)
    rounds = 2

    def job(i):
        try:
            gate.wait()
            for r in range(rounds):
                t = s.tracer(which[i])
                results[i, r] = t.trace()
        except BaseException as e:
            errors.append(e)

    def queries():
        try:
            gate.wait()
            for r in range(3):
                for o, (t, ids) in zip(s.objs, hits):
                    a, b = o.intersect(probe)
                    if not (np.array_equal(a, t, equal_nan=True) and np.array_equal(b, ids)):
                        errors.append(AssertionError("an intersection beside other threads gives another answer than alone"))
                for o, a in normals:
                    if not np.array_equal(o.get_world_normals(probe[0]), a, equal_nan=True):
                        errors.append(AssertionError("normals beside other threads are others than alone"))
                for x, a in given:
                    if not np.array_equal(x.generate_rays(s.n), a):
                        errors.append(AssertionError("rays generated beside other threads are others than alone"))
        except BaseException as e:
            errors.append(e)

    pauses = Pauses([int(x) for x in rng.integers(2 ** 31, size=n + 2)], float(rng.choice([0.02, 0.1, 0.3])))
    # whatever is computed on first use is left over from another pose: turn x to y to z (exact), use, turn on and back
    turn = np.array([[0, 0, 1, 0], [1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 0, 1]], float)
    for o in s.objs + s.sources:
        o.transform(turn)
    for o in s.objs:
        o.intersect(probe)
    for x in s.sources + [leaf.obj for leaf in s.leaves()]:
        x.get_position(), x.get_orientation(), x.get_object_transform()
    for o in s.objs + s.sources:
        o.transform(turn)
        o.transform(turn)
    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    threading.settrace(pauses)
    try:
        pool = [threading.Thread(target=job, args=(i,)) for i in range(n)] + [threading.Thread(target=queries)]
        for t in pool:
            t.start()
        for t in pool:
            t.join()
    finally:
        threading.settrace(None)
        sys.setswitchinterval(old)
    for e in errors:
        ctx.require(isinstance(e, AssertionError), lambda: f"a call beside other threads raises {type(e).__name__}: {e}")
        ctx.fail(str(e))
    for (i, r), f in results.items():
        k = which[i]
        ctx.require(f.equals(alone[k]), "a tracer beside others in threads gives another result than alone", tracer=k, rows=len(f), alone=len(alone[k]))
        ctx.count("compared_results")
    ctx.require(same_state(before, s.state()), "parallel traces change an object")
    ids = [e[0] for e in pauses.events]
    switches = sum(a != b for a, b in zip(ids, ids[1:]))
    ctx.count("switches", switches)
    ctx.count("pauses", len(ids))
    ctx.count("threads", n)
    ctx.count("thread_cases")
    if switches:
        number = {t: j for j, t in enumerate(dict.fromkeys(ids))}
        ctx.observed(("threads", [(number[a], b) for a, b in pauses.events]), dict(kind="threads", threads=n, pauses=len(ids), switches=switches))


def case(ctx):
    rng = ctx.rng
    (histories, nested, threads)[ctx.index % 3](ctx, rng)
