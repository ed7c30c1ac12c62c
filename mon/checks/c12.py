"""C12: a trace depends only on the current configuration."""
import numpy as np

import pyrayt
import pyrayt.components as pc
import pyrayt.materials
import tinygfx.g3d as cg

from mon import gen, trace

RULE = """One tracer lives through a history of 6-20 random steps: traces, resets, load_components (list, tuple, group, iterator, single), edits of the live component list
(append, remove, insert, replace, clear), moves of components and their parts and of sources (turns in place and fine adjustments too), material and wavelength changes, changes of rays per
source, generation limit, ray offset and threshold, getters, calculate_source_ids, reading results, traces cut short by a material that raises. After every trace its rows are compared with those of
a newly made tracer on the same configuration, and - at the end - with the model. Non-trivial: at least two traces with something changed in between."""
QUICK, THOROUGH = 500, 12000
MINIMA = dict(traces=600, rows=5000, list_edits=200, loads=150, part_moves=30, material_changes=140, setting_changes=160, resets=150, model_rows=1300, interrupted=40, source_changes=150, central_sources=20, iterators=50, group_moves=6)
KINDS = ("mirror", "glass", "absorber", "custom")


def equal(ctx, a, b, what, history):
    ctx.require(list(a.columns) == list(b.columns), what + ": other columns", got=list(a.columns), fresh=list(b.columns))
    x, y = np.asarray(a, float), np.asarray(b, float)
    ctx.require(x.shape == y.shape, what + ": another number of rows", got=x.shape, fresh=y.shape, history=history)
    ctx.require(np.allclose(x, y, rtol=1e-12, atol=1e-12), what + ": other rows", history=history,
                worst=float(np.abs(x - y).max(initial=0)))


class Interrupt(Exception):
    pass


class Failing(pyrayt.materials.TracableMaterial):
    """acts like another material until it has been asked `left` times, then raises"""

    def __init__(self, inner, left):
        super().__init__()
        self.inner, self.left = inner, left

    def trace(self, surface, ray_set):
        self.left -= 1
        if self.left < 0:
            raise Interrupt
        return self.inner.trace(surface, ray_set)


def case(ctx):
    rng = ctx.rng
    pool = trace.make_scene(rng, int(rng.integers(2, 7)), KINDS, spread=3.0, roam=0.12, crowd=0.03, copies=0.08)
    ref_of = {id(o): r for o, r in pool}
    n = int(rng.integers(1, 20))
    sources = trace.make_sources(rng, [r for _, r in pool], int(rng.integers(1, 4)), n, real=0.6)
    for s in sources:  # every source must answer twice alike: no fresh random samples
        while type(s.source).__name__ == "Lamp":
            s.source = trace.make_sources(rng, [r for _, r in pool], 1, n, real=1.0)[0].source
        if rng.random() < 0.3:  # one standing at the origin, which is only turned and stretched there
            s.source = (lambda: pc.LineOfRays(2), lambda: pc.ConeOfRays(60), lambda: pc.WedgeOfRays(120), lambda: pc.CircleOfRays(2), lambda: pc.StaticLamp(1, 2, 50))[rng.integers(5)]()
            s.central = True
    limit = int(rng.integers(1, 8))
    start = [pool[i][0] for i in rng.permutation(len(pool))[:rng.integers(1, len(pool) + 1)]]
    single = rng.random() < 0.15
    if single:
        start = start[:1]
    walked = rng.random() < 0.15  # given as iterators, which can be walked once
    tracer = pyrayt.RayTracer((s for s in sources) if walked else sources if len(sources) > 1 or rng.random() < 0.5 else sources[0],
                              start[0] if single else (o for o in start) if walked else list(start), rays_per_source=n, generation_limit=limit)
    ctx.count("iterators", walked)
    current = list(start)  # shadow of the component list
    editable = not single and not walked
    shadow = dict(n=n, limit=limit, offset=None, threshold=None)
    history, traces, changed = [], 0, False
    traced_as = None

    def fresh():
        t = pyrayt.RayTracer(sources, list(current), rays_per_source=shadow["n"], generation_limit=shadow["limit"])
        if shadow["offset"] is not None:
            t.ray_offset_value = shadow["offset"]
        if shadow["threshold"] is not None:
            t.ray_intensity_threshold = shadow["threshold"]
        return t

    def do_trace():
        nonlocal traces
        got = tracer.trace()
        want = fresh().trace()
        equal(ctx, got, want, "a used tracer", history)
        equal(ctx, tracer.get_results(), want, "get_results() of a used tracer", history)
        traces += 1
        ctx.count("traces")
        ctx.count("rows", len(got))

    fixed = any(isinstance(s.source, gen.FixedSource) for s in sources)
    for _ in range(rng.integers(6, 21) if rng.random() < 0.97 else rng.integers(40, 70)):
        k = rng.integers(15)
        if k <= 2:
            history.append("trace")
            if current:
                do_trace()
                changed = False
        elif k == 3:
            history.append("reset")
            tracer.reset()
            ctx.require(len(tracer.get_results()) == 0, "reset() leaves results behind")
            ctx.count("resets")
        elif k == 4:
            current = [pool[i][0] for i in rng.permutation(len(pool))[:rng.integers(1, len(pool) + 1)]]
            form = rng.integers(5)
            if form == 0 and len(current) == 1:
                tracer.load_components(current[0])
                editable = False
            elif form == 1:
                tracer.load_components(tuple(current))
                editable = False
            elif form == 2:
                tracer.load_components(iter(current) if rng.random() < 0.5 else {k: o for k, o in enumerate(current)}.values())
                editable = False
                ctx.count("iterators")
            elif form == 3:  # a group is a list of its members, and carries them along
                tracer.load_components(cg.ObjectGroup(current))
                editable = True
            else:
                tracer.load_components(list(current))
                editable = True
            history.append(("load", len(current), int(form)))
            ctx.count("loads")
        elif k in (5, 6) and editable:
            live = tracer.get_system()
            ctx.require(live is not None and list(live) == current, "get_system() is not the current component list")
            e = rng.integers(4)
            out = [o for o, _ in pool if not any(o is c for c in current)]
            if e == 0 and out:
                o = out[rng.integers(len(out))]
                live.append(o)
                current.append(o)
            elif e == 1 and len(current) > 1:
                i = int(rng.integers(len(current)))
                del live[i]
                del current[i]
            elif e == 2 and out:
                o = out[rng.integers(len(out))]
                i = int(rng.integers(len(current)))
                live[i] = o
                current[i] = o
            else:
                live.reverse()
                current.reverse()
            history.append(("edit", int(e)))
            ctx.count("list_edits")
        elif k == 7:
            o, r = pool[rng.integers(len(pool))]
            op = gen.small_op(rng) if rng.random() < 0.2 else gen.random_op(rng, span=1.5)
            if isinstance(tracer.get_system(), cg.ObjectGroup) and rng.random() < 0.5:
                gen.apply(tracer.get_system(), None, op)
                for c in current:
                    ref_of[id(c)].move(gen.op_matrix(op))
                ctx.count("group_moves")
            elif rng.random() < 0.5:
                gen.apply(o, r, op)
            else:
                every = gen.nodes(r)
                node = every[rng.integers(len(every))]
                gen.apply(node.obj, node, op)
                if node is not r:
                    ctx.count("part_moves")
            history.append(("move", op[0]))
        elif k == 8:
            o, r = pool[rng.integers(len(pool))]
            leaf = r.leaves()[rng.integers(len(r.leaves()))]
            leaf.spec = trace.random_spec(rng, KINDS)
            leaf.obj.material = leaf.spec.mat
            history.append(("material", leaf.spec.kind))
            ctx.count("material_changes")
        elif k == 9:
            s = sources[rng.integers(len(sources))]
            central, s = getattr(s, "central", None) is True, s.source
            if central and rng.random() < 0.7:
                ax = "xyz"[rng.integers(3)]
                gen.apply(s, None, ("rotate_" + ax, (gen.angle(rng),)) if rng.random() < 0.6 else ("scale_" + ax, (gen.num(rng, 0.4, 3),)))
                ctx.count("central_sources")
            elif rng.random() < 0.5 or isinstance(s, gen.FixedSource):
                gen.apply(s, None, gen.in_place_op(rng, s) if rng.random() < 0.4 else gen.small_op(rng, scale=False) if rng.random() < 0.2 else gen.random_op(rng, span=1.0))
            else:
                s.wavelength = float(rng.uniform(0.4, 0.9))
            history.append("source")
            ctx.count("source_changes")
            if rng.random() < 0.5:
                do_trace()
        elif k == 10:
            e = rng.integers(4)
            if e == 0 and not fixed:
                shadow["n"] = int(rng.integers(1, 20))
                tracer.set_rays_per_source(shadow["n"])
            elif e == 1:
                shadow["limit"] = int(rng.integers(0, 8))
                tracer.set_generation_limit(shadow["limit"])
            elif e == 2:
                shadow["offset"] = float(10 ** rng.uniform(-7, -4))
                tracer.ray_offset_value = shadow["offset"]
            else:
                shadow["threshold"] = float(rng.choice([0.0, 0.1, 5.0, 50.0]))
                tracer.ray_intensity_threshold = shadow["threshold"]
            history.append(("setting", int(e)))
            ctx.count("setting_changes")
        elif k == 11:
            ctx.require(tracer.get_rays_per_source() == shadow["n"] and tracer.get_generation_limit() == shadow["limit"],
                        "a getter does not report the value set last", history=history)
            ctx.require([id(x) for x in tracer.get_system()] == [id(x) for x in current], "get_system() is not the current list", history=history)
            history.append("get")
        elif k == 14 and current:  # a trace that is interrupted by a failing material
            left, was = int(rng.integers(0, 4)), []
            for o in current:
                for _, leaf in o.surface_ids:
                    was.append((leaf, leaf.material))
            for leaf, mat in was:
                leaf.material = Failing(mat, left)
            try:
                tracer.trace()
            except Interrupt:
                ctx.count("interrupted")
            finally:
                for leaf, mat in was:
                    leaf.material = mat
            history.append(("interrupted", left))
            if rng.random() < 0.5:
                do_trace()
        elif k == 12 and len(tracer.get_results()):
            tracer.calculate_source_ids()
            history.append("source_ids")
        else:
            tracer.get_results().describe() if len(tracer.get_results()) else None
            history.append("read")
    if not current:
        return
    do_trace()
    # and the model agrees with the final picture
    given = trace.emitted(sources)
    rows = trace.Rows(tracer.get_results())
    refs = [ref_of[id(o)] for o in current]
    ctx.count("model_rows", trace.check_segments(ctx, rows, refs))
    trace.check_laws(ctx, rows, refs, KINDS)
    if traces >= 2:
        ctx.observed((repr(history), rows.p1.tobytes()), dict(history=[str(h) for h in history], traces=traces, rows=rows.n))
