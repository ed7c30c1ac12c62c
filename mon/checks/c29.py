"""C29: surface ids identify exactly one leaf surface each."""
import sys
import threading

import numpy as np

import tinygfx.g3d as cg
import pyrayt
import pyrayt.components as pc
import pyrayt.materials as matl

from mon import gen, model, parts, trace

RULE = """Surfaces, boolean trees, factory lenses, mirrors and stops, sources, cameras and groups are created in random order (also in several threads), moved, nested and
traced, and deep copies of components are made; ids are watched from creation to the end of the case, surface_ids of every component is compared with the leaves it was built of, the ids that intersect() and the
rows report are checked against the surfaces geometrically (the hit point satisfies the surface of that id), and one surface's material is replaced to see whose rays
change. Non-trivial: a component with at least three leaves."""
QUICK, THOROUGH = 500, 20000
MINIMA = dict(objects=8000, listings=1500, leaves=2500, labels=12000, rows=4000, relabelled=150, spied_rows=200, kept_rows=500, thread_objects=800, big_trees=80, hundreds=4, long_gaps=2, copies=100)


class Tint(matl.TracableMaterial):
    """passes rays on with a wavelength nothing else has"""

    def __init__(self):
        super().__init__()
        self.surfaces = []

    def trace(self, surface, ray_set):
        self.surfaces.append(surface)
        ray_set.wavelength = 9.0
        return ray_set


def factory(rng):
    mat = matl.glass[("BK7", "SF5", "ideal")[rng.integers(3)]]
    k = rng.integers(8)
    return (lambda: pc.biconvex_lens(4.0, 5.0, 0.6, aperture=2.0, material=mat), lambda: pc.plano_convex_lens(4.0, 0.5, aperture=(2.0, 1.5), material=mat),
            lambda: pc.thick_lens(-4.0, 6.0, 0.4, aperture=2.0, material=mat), lambda: pc.plane_mirror(0.2, aperture=3.0), lambda: pc.equilateral_prism(1.5, 1.5, mat),
            lambda: pc.spherical_mirror(6.0, 0.2, aperture=2.0), lambda: pc.parabolic_mirror(4.0, 0.3, aperture=2.0), lambda: pc.baffle(2.0))[k]()


def other(rng):
    """objects that are no components but have ids"""
    k = rng.integers(5)
    return (lambda: pc.LineOfRays(1.0), lambda: pc.Lamp(1.0, 1.0, 20.0), lambda: cg.OrthographicCamera(4, 1.0, 1.0), lambda: cg.ObjectGroup(), lambda: pc.ConeOfRays(10.0))[k]()


def leaf_surfaces(obj):
    """the leaves of a boolean tree, by the pairs it was made of (only where the tree is a factory's)"""
    return {int(i): s for i, s in obj.surface_ids}


def grown(rng, n):
    """a component of n leaves, joined leaf by leaf or in halves"""
    style = rng.integers(3)
    items = [gen.make_leaf(rng, gen.LEAF_KINDS[rng.integers(4)], lo=0.2, hi=1.0)[:2] for _ in range(n)]
    for o, r in items:
        gen.apply(o, r, ("move", tuple(float(v) for v in rng.uniform(-4, 4, 3))))

    def join(a, b):
        kind = ("union", "union", "union", "difference")[rng.integers(4)]
        ref = model.Tree(kind, a[1], b[1])
        ref.obj = getattr(cg.csg, kind)(a[0], b[0])
        return ref.obj, ref

    while len(items) > 1:
        if style == 0:
            items = [join(items[0], items[1])] + items[2:]
        elif style == 1:
            items = [join(items[1], items[0])] + items[2:]
        else:
            items = [join(*items[k:k + 2]) if k + 1 < len(items) else items[k] for k in range(0, len(items), 2)]
    return items[0]


def check_listing(ctx, obj, want):
    """want: the surface objects"""
    listed = obj.surface_ids
    ids = [int(i) for i, _ in listed]
    ctx.require(len(ids) == len(set(ids)), "a surface is listed twice", ids=ids)
    ctx.require(sorted(id(s) for _, s in listed) == sorted(id(s) for s in want), "surface_ids does not list exactly the leaf surfaces", listed=len(listed), leaves=len(want))
    for i, s in listed:
        ctx.require(int(i) == s.get_id(), "a surface is listed under another id", listed=i, own=s.get_id())
    ctx.count("listings")
    ctx.count("leaves", len(ids))


def check_labels(ctx, rng, obj, ref):
    rays, _ = gen.rays_at(rng, ref, 12, unit=True)
    t, ids = obj.intersect(rays.copy())
    table = {int(i): s for i, s in obj.surface_ids}
    hit = np.isfinite(np.asarray(t, float))
    got = set(int(i) for i in np.asarray(ids)[hit])
    ctx.require(got <= set(table), "intersect() reports an id that is not listed", got=got, listed=list(table))
    by_id = {leaf.id: leaf for leaf in ref.leaves()}
    c = model.crossings(ref, model.as_rays(rays))
    for j in np.nonzero(~c.ambiguous)[0]:
        for a, i in zip(np.asarray(t, float)[:, j], np.asarray(ids)[:, j]):
            if not np.isfinite(a):
                continue
            p = rays[0, :3, j] + a * rays[1, :3, j]
            leaf = by_id[int(i)]
            d = np.array([[0.3], [0.5], [0.8]]) if not leaf.shape.sheet else (leaf.m[:3, 2:3]).astype(float)
            o, dd = leaf.local((p[:, None].astype(model.LD), d.astype(model.LD)))
            with np.errstate(all="ignore"):
                if leaf.shape.sheet:
                    near = abs(float(o[2, 0])) < 1e-6 * (1 + np.abs(p).max())
                else:
                    out, inn = (leaf.shape.interval(o, dd, s * 1e-5) for s in (1, -1))
                    near = (out[0][0] <= 0 <= out[1][0]) and not (inn[0][0] < 0 < inn[1][0])
            far = np.abs(rays[0, :3, j]).max() + abs(a)
            ctx.require(near or far > 1e4 * float(leaf.shape.size), "a hit carries the id of a surface it does not lie on", id=int(i), at=p, leaf=leaf.desc)
            ctx.count("labels")


def check_material(ctx, rng, refs, objs):
    """replace one surface's material: exactly the rays on that surface change"""
    n = 12
    src = trace.make_sources(rng, refs, 2, n, real=0.0)

    def rows():
        t = pyrayt.RayTracer([trace.Frozen(s) for s in given], objs, rays_per_source=n, generation_limit=2)
        return trace.Rows(t.trace())

    given = [np.array(s.generate_rays(n)) for s in src]
    before = rows()
    ctx.count("rows", before.n)
    listed = [(int(i), s) for o in objs for i, s in o.surface_ids]
    table = dict(listed)
    ctx.require(set(before.surface) <= set(table), "a row carries an id that is not listed", got=set(before.surface), listed=list(table))
    if not before.n:
        return
    first = before.generation == 0
    present = [i for i in set(before.surface[first])]
    target = int(present[rng.integers(len(present))]) if rng.random() < 0.8 else int(listed[rng.integers(len(listed))][0])
    old = table[target].material
    table[target].material = tint = Tint()
    after = rows()
    ctx.require(all(s is table[target] for s in tint.surfaces), "a material is asked for another surface than the one it was given to")
    for k in ("id", "generation", "surface", "wavelength"):
        a, b = getattr(before, k)[first], getattr(after, k)[after.generation == 0]
        ctx.require(np.array_equal(a, b), "another material changes the segments before it", field=k)
    ctx.require(np.array_equal(before.p1[:, first], after.p1[:, after.generation == 0]), "another material changes the hit points before it")
    on = set(before.id[first & (before.surface == target)])
    second = after.generation == 1
    tinted = set(after.id[second & (after.wavelength == 9.0)])
    ctx.require(tinted <= on, "a material acts on rays that are not on its surface", ids=tinted - on)
    ctx.require(set(after.id[second]) & on <= tinted, "a new material does not act on a ray on its surface", ids=(set(after.id[second]) & on) - tinted)
    # the batch of the second generation may have another size: the last bits may differ
    second_rows = lambda r: {a: k for k, (a, g) in enumerate(zip(r.id, r.generation)) if g == 1 and a not in on}
    x, y = second_rows(before), second_rows(after)
    amb = np.asarray(model.nearest(refs, before.rays())[2])
    mine = [a for a in x if not amb[x[a]]]
    for a in mine:
        ctx.require(a in y and before.surface[x[a]] == after.surface[y[a]] and np.abs(before.p1[:, x[a]] - after.p1[:, y[a]]).max() < 1e-7 * (1 + np.abs(before.p1[:, x[a]]).max()),
                    "another surface's material changes what happens to a ray", row=before.row(x[a]), other=after.row(y[a]) if a in y else None)
    extra = [y[a] for a in y if a not in x]
    if extra:
        R = after.rays()
        ctx.require(np.asarray(model.nearest(refs, (R[0][:, extra], R[1][:, extra]))[2]).all(), "another surface's material adds rows to a ray", ids=set(y) - set(x))
    ctx.count("relabelled")
    ctx.count("spied_rows", len(tinted))
    ctx.count("kept_rows", len(mine))
    table[target].material = old
    again = rows()
    ctx.require(again.frame.equals(before.frame), "putting the old material back does not restore the rows")


def case(ctx):
    rng = ctx.rng
    watched = []  # (object, id at first sight)

    def watch(o):
        watched.append((o, o.get_id()))
        ctx.count("objects")
        return o

    refs, objs = [], []
    big = 0
    for i in range(int(rng.integers(2, 6))):
        k = rng.integers(6)
        if i == 0 and rng.random() < 0.06:
            obj, ref = grown(rng, int(rng.choice([20, 70, 140], p=[0.4, 0.4, 0.2])))
            ctx.count("hundreds", int(len(ref.leaves()) >= 64))
        elif k <= 2:
            obj, ref, _ = gen.make_tree(rng, int(rng.integers(1, 4)))
        elif k == 3:
            obj, ref, _ = gen.make_leaf(rng, (gen.LEAF_KINDS + ("plane",))[rng.integers(5)])
            gen.place(rng, obj, ref)
        elif k == 4:
            obj, ref = trace.make_carved(rng)
        else:
            watch(other(rng))
            f = factory(rng)
            watch(f)
            ids = [int(i) for i, _ in f.surface_ids]
            ctx.require(len(ids) == len(set(ids)) and len(ids) >= 1, "a factory part lists a surface twice", ids=ids)
            for i, s in f.surface_ids:
                ctx.require(int(i) == s.get_id(), "a surface is listed under another id")
                watch(s)
            rays = parts.aimed(rng, [-1, -1, -1], [1, 1, 1], np.eye(4), 10)
            t, lab = f.intersect(rays)
            got = set(int(x) for x in np.asarray(lab)[np.isfinite(np.asarray(t, float))])
            ctx.require(got <= set(ids), "intersect() reports an id that is not listed", got=got, listed=ids)
            before = list(ids)
            f.move(1, 2, 3).rotate_x(30)
            ctx.require([int(i) for i, _ in f.surface_ids] == before, "moving a part changes its listed surfaces")
            continue
        for node in gen.nodes(ref):
            watch(node.obj)
        trace.paint(rng, ref, ("mirror", "glass", "absorber"))
        big += len(ref.leaves()) >= 3
        refs.append(ref)
        objs.append(obj)
    if ctx.index % 100 == 7:  # very many objects between the first and the last
        many = [cg.ObjectGroup() for _ in range(70000)]
        ctx.count("long_gaps")
        taken = {o.get_id() for o in many}
        for _ in range(200):
            ctx.require(watch(cg.Sphere(1.0)).get_id() not in taken, "a surface gets an id that another object has")
    if rng.random() < 0.25:  # objects made in several threads at once
        made = [[] for _ in range(4)]
        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        try:
            pool = [threading.Thread(target=lambda m=m: [m.append(cg.Sphere(1)) for _ in range(25)]) for m in made]
            [t.start() for t in pool]
            [t.join() for t in pool]
        finally:
            sys.setswitchinterval(old)
        for m in made:
            for o in m:
                watch(o)
                ctx.count("thread_objects")
    if refs and rng.random() < 0.4:  # deep copies are other surfaces
        pairs = [p for p in zip(objs, refs) if len(p[1].leaves()) <= 20]
        for _ in range(rng.integers(1, 4) if pairs else 0):
            new = trace.add_copy(rng, pairs)
            for node in gen.nodes(new):
                watch(node.obj)
            ctx.count("copies")
        objs, refs = objs + [a for a, b in pairs if b not in refs], refs + [b for _, b in pairs if b not in refs]
    ctx.count("big_trees", big)
    for round_ in range(2):
        for obj, ref in zip(objs, refs):
            every = gen.nodes(ref)
            for node in every if len(every) < 40 else [every[k] for k in {0, *rng.integers(len(every), size=20)}] + [ref]:
                check_listing(ctx, node.obj, [leaf.obj for leaf in node.leaves()])
            check_labels(ctx, rng, obj, ref)
        if objs and rng.random() < 0.7:
            check_material(ctx, rng, refs, objs)
        for obj, ref in zip(objs, refs):
            gen.apply(obj, ref, gen.random_op(rng))
            # a part of a tree may be moved or repainted on its own
            leaf = ref.leaves()[rng.integers(len(ref.leaves()))]
            trace.paint(rng, leaf, ("mirror", "glass", "absorber"))
        if len(objs) >= 2 and rng.random() < 0.4 and not any(leaf.shape.sheet for leaf in refs[-1].leaves() + refs[-2].leaves()):
            b, rb = objs.pop(), refs.pop()
            a, ra = objs.pop(), refs.pop()
            kind = ("union", "intersect", "difference")[rng.integers(3)]
            new = {"union": cg.csg.union, "intersect": cg.csg.intersect, "difference": cg.csg.difference}[kind](a, b)
            ref = model.Tree(kind, ra, rb)
            ref.obj = new
            objs.append(watch(new))
            refs.append(ref)
    ids = {}
    for o, i in watched:
        ctx.require(o.get_id() == i, "the id of an object changes", was=i, now=o.get_id())
        ctx.require(ids.setdefault(i, o) is o, "two objects share an id", id=i, objects=(type(o).__name__, type(ids[i]).__name__))
    if big:
        ctx.observed((sorted(ids), [r.leaves()[0].desc for r in refs]), dict(objects=len(ids), components=len(objs), big_trees=big))
