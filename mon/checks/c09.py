"""C09: bounding volumes along movement histories of composites and their parts."""
import numpy as np

import tinygfx.g3d as cg

from mon import gen, model
from mon.model import Tree
from mon.checks.c06 import compare

RULE = """A random boolean tree of depth 0-4 (sometimes sharing a part with a second combination); a history of 2-8 random operations (a quarter of them tiny adjustments), each applied to a random node (whole,
inner combination, leaf). After about half of the steps and at the end the boxes of every node are compared with those
of the same tree rebuilt from leaves in final placement, every crossing must lie in the box, and hits are compared
with the rebuilt tree and the model. Non-trivial: at least one operation moved a part inside a combination."""
QUICK, THOROUGH = 700, 12000
MINIMA = dict(boxes=4000, enclosed_points=6000, part_moves=800, deep_part_moves=300, hits=5000, shared_parts=40, fine_adjustments=400, other_units=30)


def spans(volume):
    return np.asarray(volume.axis_spans, float)


def nothing_left(node):
    """parts that do not overlap, or just touch: rounding decides whether the bounds are empty"""
    b = spans(node.obj.bounding_volume)
    return not np.isfinite(b).all() or (b[:, 1] - b[:, 0] < 1e-9 * (1 + np.abs(b).max())).any()


def check_now(ctx, ref, what):
    rng = ctx.rng
    fresh_obj, fresh = gen.rebuild(ref)
    # every combination of the tree answers for itself too
    for node, new in zip(gen.nodes(ref), gen.nodes(fresh)):
        a, b = spans(node.obj.bounding_volume), spans(new.obj.bounding_volume)
        ctx.require(np.array_equal(a, spans(node.obj.bounding_box)), "bounding_box and bounding_volume differ", object=what)
        scale = max(1.0, np.abs(b[np.isfinite(b)]).max(initial=0))
        if any(nothing_left(n) for n in gen.nodes(new)):
            ctx.count("empty_boxes")
            continue
        same = (a == b) | (np.abs(a - b) < 1e-8 * scale)
        ctx.require(same.all(), "bounding volume depends on the movement history", object=what, got=a, fresh=b,
                    node=type(node).__name__)
        ctx.count("boxes")
    n = 30
    rays, _ = gen.rays_at(rng, ref, n, unit=True)
    t, ids, c, seen = compare(ctx, ref.obj, ref, rays, what)
    t2, ids2 = fresh_obj.intersect(rays)
    pairs = {leaf.id: new.id for leaf, new in zip(ref.leaves(), fresh.leaves())}
    ok = ~c.ambiguous
    ctx.require(t.shape == np.shape(t2) and np.allclose(np.where(np.isinf(t), 1e9, t)[:, ok], np.where(np.isinf(t2), 1e9, t2)[:, ok],
                rtol=1e-7, atol=1e-7), "hits differ from the freshly built combination", object=what)
    for i in np.nonzero(ok)[0]:
        for j in range(int(c.count[i])):
            ctx.require(pairs[ids[j, i]] == ids2[j, i], "labels differ from the freshly built combination", object=what)
    # enclosure, by the model's own crossings
    box = spans(ref.obj.bounding_volume)
    size = max(float(leaf.shape.size) for leaf in ref.leaves())
    for i in np.nonzero(ok & (c.count > 0))[0]:
        k = int(c.count[i])
        p = rays[0, :3, i][:, None] + rays[1, :3, i][:, None] * c.t[:k, i].astype(float)
        tol = 1e-7 * (np.abs(p).max() + np.abs(rays[0, :3, i]).max() + size)
        ctx.require((p >= box[:, :1] - tol).all() and (p <= box[:, 1:] + tol).all(),
                    "a point of the object lies outside its bounding volume", object=what, point=p, box=box)
        ctx.count("enclosed_points", k)
    for leaf in ref.leaves():
        pts = leaf.shape.surface_points(rng, 8)
        w = (model.mm(leaf.m[:3, :3], pts) + leaf.m[:3, 3:4]).astype(float)
        b = spans(leaf.obj.bounding_volume)
        tol = 1e-8 * (1 + np.abs(w).max())
        ctx.require((w >= b[:, :1] - tol).all() and (w <= b[:, 1:] + tol).all(), "a surface point lies outside the surface's bounding volume",
                    object=what, box=b)
        ctx.count("enclosed_points", 8)
    return seen


def case(ctx):
    rng = ctx.rng
    depth = int(rng.integers(0, 5)) if ctx.index % 8 else 0
    if depth:
        obj, ref, what = gen.make_tree(rng, depth, spread=1.0)
    else:
        kinds = gen.LEAF_KINDS + ("plane",)
        obj, ref, what = gen.make_leaf(rng, kinds[ctx.index % 5])
    history, moved = [], 0
    roots = [ref]
    if rng.random() < 0.2:  # a part that belongs to a second combination as well
        part = gen.nodes(ref)[rng.integers(len(gen.nodes(ref)))]
        if part.leaves()[0].shape.sheet:
            part = None
        else:
            eo, eref, _ = gen.make_tree(rng, int(rng.integers(0, 2)), spread=1.0)
            op = ("union", "intersect", "difference")[rng.integers(3)]
            roots.append(Tree(op, part, eref, getattr(cg.csg, op)(part.obj, eo)))
            what = (what, "shares", op)
            ctx.count("shared_parts")
    for _ in range(rng.integers(2, 9)):
        every = [x for r in roots for x in gen.nodes(r)]
        node = every[rng.integers(len(every))]
        tiny = rng.random() < 0.25
        op = gen.small_op(rng) if tiny else gen.random_op(rng, span=1.5, shear=True)
        ctx.count("fine_adjustments", int(tiny))
        if not history and rng.random() < 0.12:  # another unit of length
            op = ("scale_all", (float(10.0 ** rng.uniform(-2.5, 2.5)),))
            ctx.count("other_units")
        history.append(([x is node for x in every].index(True), op))
        gen.apply(node.obj, node, op)
        if not any(node is r for r in roots):
            moved += 1
            ctx.count("part_moves")
            if not any(node is x for x in (getattr(ref, "left", None), getattr(ref, "right", None))):
                ctx.count("deep_part_moves")
        if rng.random() < 0.4:
            check_now(ctx, roots[rng.integers(len(roots))], (what, history))
    for r in roots[::-1]:
        seen = check_now(ctx, r, (what, history))
    if moved or not depth:
        ctx.observed((repr(what), repr(history)), dict(tree=what, history=[(i, o[0]) for i, o in history], crossing=seen))
