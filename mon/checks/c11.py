"""C11: pin restores placements on every way out of the block."""
import numpy as np

import tinygfx.g3d as cg
import pyrayt

from mon import gen, model, trace

RULE = """Random sets of surfaces, boolean trees, groups and sources are pinned - sometimes together with their own members, nested pins of subsets,
or one pin entered several times in a row - and moved inside by 1-6 random operations (in a quarter of the cases only fine adjustments, down to 1e-7, after which the restored placement must agree to 1e-12), 15% in other units of length. The block is left by running out, by return, or by an
exception of one of twelve kinds injected after a random operation (which must propagate unchanged). Every pinned object and every part carried by it is compared with
its placement on entry; hits, boxes and traces before and after are compared. Non-trivial: at least one operation ran inside."""
QUICK, THOROUGH = 700, 20000
MINIMA = dict(exits_normal=150, exits_exception=150, exits_return=100, nested=80, reentered=80, with_members=80, restored=2500, traces=100, fine=60, other_units=40, all_parts=60)


class Boom(Exception):
    pass


class Signal(BaseException):
    pass


KINDS = (Boom, Signal, StopIteration, GeneratorExit, KeyboardInterrupt, SystemExit, ValueError, KeyError, AttributeError, RuntimeError, AssertionError, np.linalg.LinAlgError)


def parts(obj_ref):
    """[(object)] of everything carried"""
    kind, obj, ref, members = obj_ref
    if kind == "group":
        return [obj] + [x for m in members for x in parts(m)]
    if ref is None:
        return [obj]
    return [n.obj for n in gen.nodes(ref)]


def make(rng, depth=1, u=1.0):
    k = rng.integers(5)
    if k == 4 and depth:
        members = [make(rng, depth - 1, u) for _ in range(rng.integers(1, 3))]
        g = cg.ObjectGroup([m[1] for m in members])
        return ("group", g, None, members)
    if k == 3:
        src = trace.make_sources(rng, [], 1, 5, real=1.0)[0].source
        return ("source", src, None, ())
    if k == 2:
        obj, ref, _ = gen.make_tree(rng, int(rng.integers(1, 3)), unit=u)
        return ("tree", obj, ref, ())
    obj, ref, _ = gen.make_leaf(rng, unit=u)
    gen.place(rng, obj, ref, unit=u)
    return ("leaf", obj, ref, ())


def refs_of(x):
    kind, obj, ref, members = x
    return [r for m in members for r in refs_of(m)] if kind == "group" else [ref] if ref is not None else []


def snapshot(objs):
    return [np.array(o.get_world_transform()) for o in objs]


def compare(ctx, objs, before, what, tol=1e-8, u=1.0):
    for o, b in zip(objs, before):
        a = o.get_world_transform()
        turn = (1 + np.abs(b[:3, :3]).max()) * np.linalg.cond(b[:3, :3])
        cond = (u * turn + np.abs(b[:3, 3]).max()) * np.linalg.cond(b[:3, :3])
        ctx.require(np.abs(a - b)[:, :3].max() <= tol * turn and np.abs(a - b)[:, 3].max() <= tol * cond, what, kind=type(o).__name__, before=b, after=a)
        p = o.get_position()
        ctx.require(np.abs(p - b[:, 3]).max() <= tol * cond, what + " (position)", before=b, position=p)
        ctx.count("restored")


def leave(ctx, p, objs, moves, how):
    """run the block; -> True if it was left as asked"""
    rng = ctx.rng
    at = int(rng.integers(0, len(moves) + 1))
    error = KINDS[rng.integers(len(KINDS))]
    thrown = error(at)
    note = dict(inside=0)

    def body():
        with p:
            for k, (o, op) in enumerate(moves):
                if how == "exception" and k == at:
                    raise thrown
                gen.apply(o, None, op)
                note["inside"] += 1
            if how == "exception":
                raise thrown
            if how == "return":
                return "value"
        return None

    if how == "exception":
        caught = None
        try:
            body()
        except error as e:
            caught = e
        ctx.require(caught is not None, "an exception raised inside the pin context does not propagate", kind=error.__name__)
        ctx.require(caught is thrown, "another exception leaves the pin context", kind=error.__name__)
    else:
        ctx.require(body() == ("value" if how == "return" else None), "return value lost")
    ctx.count("exits_" + how)
    return note["inside"]


def case(ctx):
    rng = ctx.rng
    u = gen.some_unit(ctx, 0.15)
    items = [make(rng, u=u) for _ in range(rng.integers(1, 4))]
    pinned = [x[1] for x in items]
    watched = [o for x in items for o in parts(x)]
    movable = list(pinned)
    with_members = False
    if rng.random() < 0.4:  # pin some members themselves, in any order
        inner = [o for o in watched if not any(o is q for q in pinned)]
        if inner:
            extra = [inner[i] for i in rng.permutation(len(inner))[:rng.integers(1, 4)]]
            pinned = [(pinned + extra)[i] for i in rng.permutation(len(pinned) + len(extra))]
            movable = list(pinned)
            with_members = True
            ctx.count("with_members")
    if rng.random() < 0.2:  # all of it far away
        shift = u * rng.normal(size=3) * 10.0 ** rng.uniform(1, 4)
        for x in items:
            gen.apply(x[1], None, ("move", tuple(float(v) for v in shift)))
            for r in refs_of(x):
                r.move(gen.op_matrix(("move", tuple(float(v) for v in shift))))
    # a trace before and after
    refs = [r for x in items for r in refs_of(x)]
    tracer = None
    if refs and u == 1 and rng.random() < 0.5:
        for r in refs:
            trace.paint(rng, r, ("mirror", "glass"))
        rays, _ = gen.rays_at(rng, refs, 15)
        tracer = True
        given = np.array(gen.FixedSource(rays).generate_rays(15))
        make_tracer = lambda s: pyrayt.RayTracer(s, [r.obj for r in refs], 15, 4)
        base = trace.Rows(make_tracer([trace.Frozen(given)]).trace())
        stability = trace.Stability(make_tracer, given, base, refs)
    before = snapshot(watched)
    boxes = [np.array(o.bounding_volume.axis_spans) for o in watched if hasattr(o, "bounding_volume")]
    fine = rng.random() < 0.25  # nothing but fine adjustments inside
    tol = 1e-12 if fine else 1e-10
    ctx.count("fine", int(fine))
    moves = lambda objs: [(objs[rng.integers(len(objs))], gen.in_unit(gen.small_op(rng) if fine else gen.random_op(rng, scale=rng.random() < 0.5, shear=True), u)) for _ in range(rng.integers(1, 7))]
    how = ("normal", "exception", "return")
    style = rng.integers(5)
    inside = 0
    p = pyrayt.pin(*pinned)
    if style == 0:  # nested pins
        ctx.count("nested")
        with p:
            for o, op in moves(movable):
                gen.apply(o, None, op)
                inside += 1
            sub = [items[i] for i in rng.permutation(len(items))[:rng.integers(1, len(items) + 1)]]
            objs = [x[1] for x in sub]
            mid = snapshot([o for x in sub for o in parts(x)])
            inside += leave(ctx, pyrayt.pin(*objs), objs, moves(objs), how[rng.integers(3)])
            compare(ctx, [o for x in sub for o in parts(x)], mid, "an inner pin does not restore the placement on its entry", tol, u)
            for o, op in moves(movable)[:2]:
                gen.apply(o, None, op)
    elif style == 1:  # one pin entered again and again
        ctx.count("reentered")
        for _ in range(rng.integers(2, 4)):
            inside += leave(ctx, p, pinned, moves(movable), how[rng.integers(3)])
            compare(ctx, watched, before, "a pin entered again does not restore the placement on entry", tol, u)
            if rng.random() < 0.5 and tracer is None:
                x = items[rng.integers(len(items))][1]
                gen.apply(x, None, gen.in_unit(gen.random_op(rng, scale=False), u))  # a move between two entries stays
                before = snapshot(watched)
                boxes = [np.array(o.bounding_volume.axis_spans) for o in watched if hasattr(o, "bounding_volume")]
    elif style == 4:  # every part of everything is pinned, the innermost first or anyhow, and moves on its own
        ctx.count("all_parts")
        every = [o for x in items for o in parts(x)][::-1]
        if rng.random() < 0.3:
            every = [every[i] for i in rng.permutation(len(every))]
        p = pyrayt.pin(*every)
        inside += leave(ctx, p, every, [(o, gen.in_unit(gen.random_op(rng, scale=False), u)) for o in every + every[:2]], how[rng.integers(3)])
    else:
        inside += leave(ctx, p, pinned, moves(movable), how[rng.integers(3)])
    compare(ctx, watched, before, "pin does not restore the placement on entry", tol, u)
    after = [np.array(o.bounding_volume.axis_spans) for o in watched if hasattr(o, "bounding_volume")]
    for a, b in zip(after, boxes):
        if not np.isfinite(b).all():  # a boolean operation that leaves nothing: its bounds mean nothing
            ctx.count("empty_boxes")
            continue
        ctx.require((np.abs(a - b) <= 1e-7 * (u + np.abs(b).max(initial=0))).all(),
                    "bounding volume differs after the pin context", before=b, after=a)
    if tracer is not None:
        again = trace.Rows(make_tracer([trace.Frozen(given)]).trace())
        trace.compare_chains(ctx, base, stability, again, "trace after the pin context")
        ctx.count("traces")
    if inside:
        ctx.observed((np.concatenate(before).tobytes(), style), dict(kinds=[x[0] for x in items], pinned=len(pinned), inside=inside, style=int(style)))
