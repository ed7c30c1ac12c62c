"""C10: an object's pose is the ordered product of the operations applied to it."""
import numpy as np

import tinygfx.g3d as cg
import pyrayt.components as pc

from mon import gen, model

RULE = """A population of plain world objects, surfaces, boolean trees, sources, cameras and (nested) groups; a history of 5-25 operations on random
members of it (moves, rotations in degrees and radians, scalings, transforms, calls that must be rejected, membership edits of groups). A shadow
matrix per object is updated by the harness; after every step all objects are compared with it: world and object transform, position, orientation,
both conversions, copies. Non-trivial: at least five accepted operations and one on a group or combination."""
QUICK, THOROUGH = 800, 20000
MINIMA = dict(pose_checks=25000, group_ops=600, csg_ops=300, rejected=400, membership_edits=300, chained=3000, quaternions=2000, kept_answers=8000, named=7000, changed_answers=300, other_units=40)


class Node:
    def __init__(self, obj, kind, parts=()):
        self.obj, self.kind, self.parts = obj, kind, list(parts)
        self.m = model.eye()
        self.slack = gen.Slack()
        self.kept = []

    def carry(self, m):
        self.slack.carry(m, self.m)
        self.m = model.mm(m, self.m)
        for p in self.parts:
            p.carry(m)

    def below(self):
        return [self] + [x for p in self.parts for x in p.below()]


def make(rng):
    """a single object with its shadow"""
    k = rng.integers(9)
    if k <= 3:
        obj, _, _ = gen.make_leaf(rng, (gen.LEAF_KINDS + ("plane",))[rng.integers(5)])
        return Node(obj, "leaf")
    if k == 4:
        a, b = make_leaf_node(rng), make_leaf_node(rng)
        tree = Node(cg.csg.union(a.obj, b.obj), "csg", [a, b])
        if rng.random() < 0.5:
            c = make_leaf_node(rng)
            pair = (tree, c) if rng.random() < 0.5 else (c, tree)
            op = (cg.csg.union, cg.csg.difference, cg.csg.intersect)[rng.integers(3)]
            return Node(op(pair[0].obj, pair[1].obj), "csg", pair)
        return tree
    if k == 5:
        return Node(pc.LineOfRays(), "source")
    if k == 6:
        return Node((lambda: pc.ConeOfRays(20), lambda: pc.Lamp(1, 2), lambda: pc.StaticLamp(1, 1), lambda: pc.WedgeOfRays(10))[rng.integers(4)](), "source")
    if k == 7:
        return Node(cg.OrthographicCamera(4, 1.0, 1.0), "camera")
    return Node(cg.WorldObject(), "world")


def make_leaf_node(rng):
    n = Node(gen.make_leaf(rng)[0], "leaf")
    if rng.random() < 0.5:
        op = gen.random_op(rng)
        gen.apply(n.obj, None, op)
        n.carry(gen.op_matrix(op))
    return n


def check(ctx, node, history):
    rng = ctx.rng
    obj = node.obj
    m = node.m.astype(float)
    inv = model.inverse(node.m).astype(float)
    # rounding errors allowed in the linear part and the offset of both transforms
    s, si = np.linalg.norm(m[:3, :3]), np.linalg.norm(inv[:3, :3])
    e, t = node.slack.linear, node.slack.offset
    ei = si * si * e + gen.Slack.EPS * s * si * si
    ti = ei * np.linalg.norm(m[:3, 3]) + si * t + gen.Slack.EPS * np.linalg.norm(inv[:3, 3])

    def near(a, b, lin, off):
        return a.shape == b.shape and np.abs((a - b)[:3, :3]).max() <= lin and np.abs((a - b)[:3, 3]).max() <= off and np.array_equal(a[3], b[3])

    info = dict(kind=node.kind, history=history, expected=m)
    w = obj.get_world_transform()
    ctx.require(near(w, m, e, t), "world transform is not the product of the operations", got=w, **info)
    o = obj.get_object_transform()
    ctx.require(near(o, inv, ei, ti), "object transform is not the inverse of the world transform", got=o, **info)
    p = np.asarray(obj.get_position())
    if rng.random() < 0.2:
        node.kept = [(a, np.array(a)) for a in (p, obj.get_orientation(), obj.get_world_transform(), obj.get_object_transform())]
    elif node.kept:
        ctx.require(all(np.array_equal(a, b) for a, b in node.kept), "a later operation changes a position, orientation or transform that was handed out before", **info)
        ctx.count("kept_answers")
    ctx.require(np.abs(p - m[:, 3]).max() <= t, "position does not follow the transform", got=p, **info)
    d = np.asarray(obj.get_orientation())
    if rng.random() < 0.3:  # both are points and vectors with named coordinates
        for c, v in ((obj.get_position(), p), (obj.get_orientation(), d)):
            ctx.require(np.array_equal([c.x, c.y, c.z, c.w], v), "the named coordinates of a position or orientation are wrong", got=v, **info)
        ctx.count("named")
    z = m[:, 2] / np.linalg.norm(m[:3, 2])
    ctx.require(np.abs(d - z).max() <= 2 * e / np.linalg.norm(m[:3, 2]) + 1e-12, "orientation does not follow the transform", got=d, **info)
    r = m[:3, :3]
    if rng.random() < 0.5 and np.abs(r.T @ r - np.eye(3)).max() < 1e-12:  # neither scaled nor sheared
        x, y, z, w_ = q = np.asarray(obj.get_quaternion(), float)
        turn = np.array([[1 - 2 * (y * y + z * z), 2 * (x * y - z * w_), 2 * (x * z + y * w_)],
                         [2 * (x * y + z * w_), 1 - 2 * (x * x + z * z), 2 * (y * z - x * w_)],
                         [2 * (x * z - y * w_), 2 * (y * z + x * w_), 1 - 2 * (x * x + y * y)]])
        ctx.require(q.shape == (4,) and abs((q * q).sum() - 1) < 1e-10 and np.abs(turn - r).max() < 1e-9, "get_quaternion is not the object's rotation", got=q, **info)
        ctx.count("quaternions")
    pts = np.vstack((rng.uniform(-3, 3, (3, 4)), np.array([1, 1, 0, 1.0])))
    if rng.random() < 0.5:  # at the object
        at = m @ pts
    else:
        at = pts
    a = obj.to_world_coordinates(pts.copy())
    ctx.require(np.abs(a - m @ pts).max() <= 8 * e + t, "to_world_coordinates disagrees with the transform", got=a, **info)
    b = obj.to_object_coordinates(at.copy())
    span = np.linalg.norm(at[:3], axis=0).max()
    ctx.require(np.abs(b - (pts if at is not pts else inv @ pts)).max() <= 2 * ei * span + 2 * gen.Slack.EPS * si * span + ti, "to_object_coordinates disagrees with the transform", got=b, **info)
    if rng.random() < 0.15 and not node.kept:  # handed out matrices are copies
        w[:] = 77.0
        o[:] = 77.0
        if rng.random() < 0.5:  # and arithmetic on an answer stays with the caller
            for answer in (obj.get_position, obj.get_orientation):
                v = answer()
                v += 5.0
                ctx.require(np.array_equal(np.asarray(answer()), p if answer == obj.get_position else d), "changing an answer in place changes the next one", **info)
            ctx.count("changed_answers")
        ctx.require(near(obj.get_world_transform(), m, e, t), "get_world_transform hands out the object's own matrix", **info)
        ctx.require(near(obj.get_object_transform(), inv, ei, ti), "get_object_transform hands out the object's own matrix", **info)
    ctx.count("pose_checks")


BAD = [("scale", (0, 1, 1)), ("scale", (1, -2, 1)), ("scale", (1, 1, 0.0)), ("scale", (-1, -2, 1)), ("scale", (2, -1, -1)), ("scale", (-0.5, 1, -3)), ("scale", (-1, -1, -1)), ("scale", (0, 0, 1)), ("scale_x", (0,)), ("scale_y", (-1,)), ("scale_z", (0.0,)), ("scale_all", (0,)),
       ("scale_all", (-0.5,)), ("rotate_x", (10, "grad")), ("rotate_y", (10, "degrees")), ("rotate_z", (1.0, "turns")),
       ("transform", (np.diag((1.0, 0.0, 1.0, 1.0)),)), ("transform", (np.diag((0.0, 1.0, 1.0, 1.0)),)), ("transform", (np.zeros((4, 4)),)), ("transform", (np.diag((2.0, 3.0, 0.0, 1.0)),)),
       ("transform", (np.array([[1.0, 2, 3, 4], [0, 0, 0, 0], [1, 0, 1, 0], [0, 0, 0, 1]]),)), ("transform", (np.eye(3),))]


def case(ctx):
    rng = ctx.rng
    free = [make(rng) for _ in range(rng.integers(2, 7))]
    groups = []
    for _ in range(rng.integers(0, 3)):
        k = int(rng.integers(0, min(3, len(free)) + 1))
        members = [free.pop(rng.integers(len(free))) for _ in range(k)]
        style = rng.integers(3)
        if style == 0:
            g = cg.ObjectGroup([x.obj for x in members])
        else:
            g = cg.ObjectGroup()
            for x in members:
                g.append(x.obj)
        node = Node(g, "group", members)
        free.append(node)
        groups.append(node)
    top = list(free)
    history, accepted, compound = [], 0, 0
    long = rng.random() < 0.03
    unit = float(10.0 ** rng.uniform(-8, 8)) if rng.random() < 0.15 else 1.0
    ctx.count("other_units", unit != 1)
    for step in range(rng.integers(60, 180) if long else rng.integers(5, 26)):
        nodes = [x for t in top for x in t.below()]
        node = nodes[rng.integers(len(nodes))]
        if groups and rng.random() < 0.35:
            node = groups[rng.integers(len(groups))]
        r = rng.random()
        if r < 0.12:
            name, args = BAD[rng.integers(len(BAD))]
            history.append((node.kind, "rejected", name, args))
            try:
                getattr(node.obj, name)(*args)
                raised = False
            except Exception:
                raised = True
            ctx.require(raised, f"{name}{args} is accepted", kind=node.kind)
            ctx.count("rejected")
        elif r < 0.24 and groups:
            g = groups[rng.integers(len(groups))]
            if g.parts and rng.random() < 0.4:
                k = int(rng.integers(len(g.parts)))
                x = g.parts.pop(k)
                (lambda: g.obj.pop(k), lambda: g.obj.__delitem__(k), lambda: g.obj.remove(x.obj), lambda: g.obj.__setitem__(slice(k, k + 1), []))[rng.integers(4)]()
                top.append(x)
            else:
                x = make(rng)
                k = int(rng.integers(len(g.parts) + 1))
                style = rng.integers(5)
                if style <= 1 or style == 4 and not g.parts:
                    g.parts.append(x)
                    (g.obj.append if style else lambda o: g.obj.extend([o]))(x.obj)
                elif style == 2:
                    g.parts.insert(k, x)
                    g.obj.insert(k, x.obj)
                elif style == 3:
                    g.parts.append(x)
                    g.obj += [x.obj]
                else:
                    k = min(k, len(g.parts) - 1)
                    top.append(g.parts[k])
                    g.parts[k] = x
                    g.obj[k] = x.obj
            history.append(("group", "edit", len(g.parts)))
            ctx.count("membership_edits")
        else:
            u = rng.random()
            op = gen.small_op(rng, scale=rng.random() < 0.4) if u < 0.15 else gen.in_place_op(rng, node.obj, scale=rng.random() < 0.4) if u < 0.25 else \
                gen.random_op(rng, scale=rng.random() < (0.05 if long else 0.4), shear=not long)
            op = gen.in_unit(op, unit) if u >= 0.25 else op
            if unit != 1 and not long and rng.random() < 0.2:  # from one unit to another
                op = ("scale_all", (float(10.0 ** rng.uniform(-4, 4)),))
                if min(np.linalg.norm((gen.op_matrix(op) @ x.m)[:3, :3].astype(float), axis=0).min() for x in node.below()) < 1e-6:
                    continue  # the orientation of what is smaller is refused
            arg = [a.copy() if isinstance(a, np.ndarray) else a for a in op[1]]
            if op[0].startswith("scale") and rng.random() < 0.1 and not long:  # far out of proportion, as long as nothing collapses
                op = (op[0], tuple(float(10.0 ** rng.uniform(-3.5, 3.5)) for _ in op[1]))
                least = min(np.linalg.svd((gen.op_matrix(op) @ x.m)[:3, :3].astype(float))[1].min() for x in node.below())
                if least < 1e-5:
                    continue
                arg = list(op[1])
                ctx.count("strong_scalings")
            if op[0] in ("move", "scale") and rng.random() < 0.5:  # some axes only, by name
                rest = 0 if op[0] == "move" else 1
                named = {a: v for a, v in zip("xyz", arg) if rng.random() < 0.5}
                op = (op[0], tuple(named.get(a, rest) for a in "xyz"))
                out = getattr(node.obj, op[0])(**named)
            elif op[0].startswith("rotate") and rng.random() < 0.5:
                out = getattr(node.obj, op[0])(angle=arg[0], **({"units": arg[1]} if len(arg) > 1 else {}))
            else:
                out = getattr(node.obj, op[0])(*arg)
            ctx.require(out is node.obj, f"{op[0]} does not return the object", kind=node.kind)
            ctx.count("chained")
            if isinstance(arg[0], np.ndarray):
                ctx.require(np.array_equal(arg[0], op[1][0]), "transform() changed the caller's matrix")
                arg[0][:] = 3  # and must not hold on to it
            node.carry(gen.op_matrix(op))
            history.append((node.kind, op))
            accepted += 1
            if node.kind in ("group", "csg"):
                compound += 1
                ctx.count(node.kind + "_ops")
        for t in top:
            for x in t.below():
                check(ctx, x, history)
    if accepted >= 5 and compound:
        ctx.observed((repr(history),), dict(objects=[x.kind for t in top for x in t.below()], history=[str(h)[:60] for h in history[:6]]))
