"""Scenes for the tracer, their material laws, and the offline checker of recorded rows."""
import copy
import pickle

import numpy as np

import tinygfx.g3d as cg
import pyrayt
import pyrayt.materials as matl
import pyrayt.components as pc

from mon import gen, model
from mon.model import LD, Leaf, Tree

FIELDS = ("generation", "intensity", "wavelength", "index", "id", "surface")
TOL = 1e-7


# ---------------------------------------------------------------- materials and their laws
class Spec:
    """A material and the law it is documented to follow.

    law(d, n, index, wavelength, intensity) with d, n unit 3xk (n the surface's oriented normal)
    -> dict(d, index, wavelength, intensity, alive, ambiguous)
    """
    kind = "?"

    def base(self, d, n, index, wavelength, intensity):
        k = d.shape[1]
        return dict(d=d, index=index, wavelength=wavelength, intensity=intensity,
                    alive=np.ones(k, bool), ambiguous=np.zeros(k, bool))


class MirrorSpec(Spec):
    kind = "mirror"

    def __init__(self):
        self.mat = matl.mirror

    def law(self, d, n, *meta):
        out = self.base(d, n, *meta)
        out["d"] = model.reflect(d, n)
        return out


class AbsorberSpec(Spec):
    kind = "absorber"

    def __init__(self):
        self.mat = matl.absorber

    def law(self, d, n, *meta):
        out = self.base(d, n, *meta)
        out["alive"][:] = False
        return out


SELLMEIER = {
    "BK7": (1.03961212, 0.231792344, 1.01046945, 6.00069867e-3, 2.00179144e-2, 1.03560653e02),
    "SF5": (1.52481889, 0.187085527, 1.42729015, 0.011254756, 0.0588995392, 129.141675),
    "SF2": (1.40301821, 0.231767504, 0.939056586, 0.0105795466, 0.0493226978, 112.405955),
}


def sellmeier(coef, wavelength):
    w2 = np.asarray(wavelength, LD) ** 2
    b, c = [LD(x) for x in coef[:3]], [LD(x) for x in coef[3:]]
    return np.sqrt(1 + sum(bi * w2 / (w2 - ci) for bi, ci in zip(b, c)))


class GlassSpec(Spec):
    kind = "glass"

    def __init__(self, mat, n_of):
        self.mat, self.n_of = mat, n_of

    def law(self, d, n, index, wavelength, intensity):
        out = self.base(d, n, index, wavelength, intensity)
        cosn = (d * n).sum(0)
        n2 = np.where(cosn > 0, LD(1), self.n_of(wavelength))
        out["d"], total, margin = model.refract(d, n, index, n2)
        out["index"] = np.where(total, index, n2)
        out["ambiguous"] = (margin < 1e-9) | (abs(cosn) < 1e-7)
        out["total"], out["entering"] = total, cosn < 0
        return out


def glass_spec(rng, thin=0.0, dispersive=True):
    """thin: how often the index is less than that of the world"""
    if rng.random() < thin:
        v = float(rng.uniform(0.6, 0.999))
        return GlassSpec(matl.BasicRefractor(v), lambda w: np.full(np.shape(w), LD(v)))
    k = rng.integers(5 if dispersive else 2)
    if k == 0:
        return GlassSpec(matl.glass["ideal"], lambda w: np.full(np.shape(w), LD(1.5)))
    if k == 1:
        v = float(rng.uniform(1.1, 2.6)) if rng.random() < 0.7 else float(rng.choice([1.0, 1.0003, 1.002, 1.02, 1.33, 2, 3.5, 4.2]))
        return GlassSpec(matl.BasicRefractor(v), lambda w: np.full(np.shape(w), LD(v)))
    if k in (2, 3):
        name = ("BK7", "SF5", "SF2")[rng.integers(3)]
        return GlassSpec(matl.glass[name], lambda w: sellmeier(SELLMEIER[name], w))
    coef = tuple(float(x) for x in (rng.uniform(0.5, 1.6), rng.uniform(0, 0.3), rng.uniform(0, 1.5),
                                    rng.uniform(0, 0.015), rng.uniform(0, 0.05), rng.uniform(80, 150)))
    return GlassSpec(matl.SellmeierRefractor(*coef), lambda w: sellmeier(coef, w))


class CustomSpec(Spec):
    """A user-defined material: reflects or passes, attenuates, shifts the wavelength, sets the index."""
    kind = "custom"

    def __init__(self, turn, factor=1.0, shift=0.0, index=None, kill=False):
        self.turn, self.factor, self.shift, self.index, self.kill = turn, factor, shift, index, kill
        spec = self

        class Custom(matl.TracableMaterial):
            def trace(self, surface, ray_set):
                spec.calls.append((surface, np.array(ray_set)))
                d = np.array(ray_set.rays[1])
                if spec.turn == "reflect":
                    n = surface.get_world_normals(ray_set.rays[0])
                    ray_set.rays[1] = d - 2 * (d * n).sum(0) * n
                elif spec.turn == "back":
                    ray_set.rays[1] = -d
                elif spec.turn == "stretch":  # direction of another length
                    ray_set.rays[1] = d * 3.0
                ray_set.intensity = ray_set.intensity * spec.factor
                ray_set.wavelength = ray_set.wavelength + spec.shift
                if spec.index is not None:
                    ray_set.index = spec.index
                if spec.kill:
                    ray_set.rays[1] = 0
                spec.answers.append(np.array(ray_set))
                return ray_set

        self.calls, self.answers = [], []
        self.mat = Custom()

    def law(self, d, n, index, wavelength, intensity):
        out = self.base(d, n, index, wavelength, intensity)
        if self.turn == "reflect":
            out["d"] = model.reflect(d, n)
        elif self.turn == "back":
            out["d"] = -d
        out["intensity"] = intensity * LD(self.factor)
        out["wavelength"] = wavelength + LD(self.shift)
        if self.index is not None:
            out["index"] = np.full(d.shape[1], LD(self.index))
        out["alive"][:] = not self.kill
        return out


def custom_spec(rng):
    return CustomSpec(("reflect", "pass", "back")[rng.integers(3)], float(rng.uniform(0.02, 1)) if rng.random() < 0.7 else 1.0,
                      float(rng.uniform(-0.02, 0.05)) if rng.random() < 0.5 else 0.0,
                      float(rng.uniform(1, 2)) if rng.random() < 0.4 else None, rng.random() < 0.1)


def random_spec(rng, kinds):
    k = kinds[rng.integers(len(kinds))]
    return {"mirror": MirrorSpec, "absorber": AbsorberSpec}[k]() if k in ("mirror", "absorber") else \
        glass_spec(rng) if k == "glass" else custom_spec(rng)


def paint(rng, ref, kinds, same=None):
    """give every leaf of a component a material (one for all if same)"""
    spec = random_spec(rng, kinds)
    same = rng.random() < 0.5 if same is None else same
    for leaf in ref.leaves():
        leaf.spec = spec if same else random_spec(rng, kinds)
        leaf.obj.material = leaf.spec.mat


# ---------------------------------------------------------------- scenes
def boxes_apart(a, b, gap):
    return ((a[0] > b[1] + gap) | (b[0] > a[1] + gap)).any()


def make_component(rng, kinds, spread=4.0, tree_p=0.35, sheets=True, thin=0.0):
    r = rng.random()
    if rng.random() < thin:
        obj, ref = make_thin(rng)
    elif r < 0.3:
        obj, ref = make_carved(rng)
    elif r < 0.3 + tree_p:
        obj, ref, desc = gen.make_tree(rng, int(rng.integers(1, 3)), spread=1.0)
    else:
        names = gen.LEAF_KINDS + (("plane", "plane") if sheets else ())
        obj, ref, desc = gen.make_leaf(rng, names[rng.integers(len(names))], None, 0.4, 2.5)
    for op in [gen.random_op(rng, span=2.0) for _ in range(rng.integers(1, 4))]:
        gen.apply(obj, ref, op)
    gen.apply(obj, ref, ("move", tuple(rng.uniform(-spread, spread, 3))))
    paint(rng, ref, kinds)
    return obj, ref


def make_thin(rng):
    """two boundaries that follow one another closely (still tens of ray offsets apart): a plate, a shell or a slit"""
    gap = float(10.0 ** rng.uniform(-4.3, -2))
    k = rng.integers(3)
    if k == 0:  # plate
        s = [gen.num(rng, 0.8, 3), gen.num(rng, 0.8, 3), gap]
        obj = cg.Cuboid.from_sides(*s)
        ref = Leaf(model.CubeShape([-v / 2 for v in s], [v / 2 for v in s]), obj)
        ref.desc, ref.make = ("plate", gap), None
        gen.apply(obj, ref, ("rotate_" + "xyz"[rng.integers(3)], (gen.angle(rng),)))
        return obj, ref
    a, ra, _ = gen.make_leaf(rng, "sphere" if k == 1 else "cube", None, 0.8, 2.5)
    b, rb = gen.rebuild(ra)
    if k == 1:  # shell
        gen.apply(b, rb, ("scale_all", (1 - gap / float(ra.shape.size),)))
        obj, ref = cg.csg.difference(a, b), Tree("difference", ra, rb)
    else:  # two blocks with a slit between them
        w = float(ra.shape.hi[0] - ra.shape.lo[0])
        gen.apply(b, rb, ("move_x", (w + gap,)))
        obj, ref = cg.csg.union(a, b), Tree("union", ra, rb)
    ref.obj = obj
    return obj, ref


def make_carved(rng):
    """a solid with one or two others subtracted whose centres lie on its surface; sometimes doubly subtracted"""
    obj, ref, _ = gen.make_leaf(rng, None, None, 1.0, 3.0)
    for _ in range(rng.integers(1, 3)):
        leaf = ref.leaves()[0]
        tool, tref, _ = gen.make_leaf(rng, ("sphere", "sphere", "cylinder", "cube")[rng.integers(4)], None, 0.5, 2.0)
        gen.place(rng, tool, tref, rng.integers(0, 2), span=0.3)
        if rng.random() < 0.3:  # a pin left standing in the hole: its surface is subtracted twice
            pin_, pref, _ = gen.make_leaf(rng, ("sphere", "cube")[rng.integers(2)], None, 0.3, 0.9)
            gen.place(rng, pin_, pref, 1, span=0.5, rigid=True)
            tool, tref = cg.csg.difference(tool, pin_), Tree("difference", tref, pref)
            tref.obj = tool
        p = (model.mm(leaf.m[:3, :3], leaf.shape.surface_points(rng, 1)) + leaf.m[:3, 3:4])[:, 0]
        # off the surface by a random amount: faces through the tool's origin must not coincide with it
        gen.apply(tool, tref, ("move", tuple(float(x) for x in p + rng.uniform(-0.2, 0.2, 3))))
        obj, ref = cg.csg.difference(obj, tool), Tree("difference", ref, tref)
        ref.obj = obj
    return obj, ref


def make_scene(rng, n_comp, kinds, spread=4.0, apart=False, cavity=None, roam=0.0, crowd=0.0, copies=0.0, **kw):
    """-> list of (obj, ref); roam: how often the whole is somewhere else, or in another unit; crowd: how often there are many components;
    copies: how often some are deep copies of others"""
    if rng.random() < crowd:
        n_comp, kw["tree_p"] = int(rng.integers(12, 50)), 0.05
        spread *= 2
    out = []
    if cavity:
        r = float(rng.uniform(12, 20))
        if rng.random() < 0.5:
            obj, shape = cg.Sphere(r), model.SphereShape(r)
        else:
            obj, shape = cg.Cuboid.from_length(2 * r), model.CubeShape([-r] * 3, [r] * 3)
        ref = Leaf(shape, obj)
        ref.desc = ("cavity", r)
        ref.make = None
        paint(rng, ref, cavity)
        if rng.random() < 0.5:
            obj2, ref2 = obj, ref
            gen.apply(obj2, ref2, ("rotate_x", (float(rng.uniform(0, 90)),)))
        out.append((obj, ref))
    tries = 0
    while len(out) < n_comp and tries < 60:
        tries += 1
        obj, ref = make_component(rng, kinds, spread, **kw)
        if apart:
            b = ref.box()
            if any(not boxes_apart(b, r.box(), 0.05) for _, r in out if r.leaves()[0].desc[0] != "cavity"):
                continue
        out.append((obj, ref))
    if copies and not apart and rng.random() < copies:
        for _ in range(rng.integers(1, 4)):
            add_copy(rng, out)
    if rng.random() < roam:
        op = ("scale_all", (float(10.0 ** rng.uniform(0 if kw.get("thin") else -1, 2)),)) if rng.random() < 0.5 else ("move", tuple(float(x) for x in rng.normal(size=3) * 10.0 ** rng.uniform(1, 3.5)))
        for obj, ref in out:
            gen.apply(obj, ref, op)
    order = rng.permutation(len(out))
    return [out[i] for i in order]


def add_copy(rng, scene, span=4.0):
    """a deep copy of a component, or one restored from a pickle (with the model it belongs to), moved away from it"""
    ref = scene[rng.integers(len(scene))][1]
    new = restored(ref) if rng.random() < 0.4 else copy.deepcopy(ref)
    gen.apply(new.obj, new, gen.random_op(rng, span=span))
    gen.apply(new.obj, new, ("move", tuple(float(v) for v in rng.uniform(-span, span, 3))))
    if rng.random() < 0.3:  # the copy stays where it is
        gen.apply(ref.obj, ref, ("move", tuple(float(v) for v in rng.uniform(-1, 1, 3))))
    scene.append((new.obj, new))
    return new


def restored(ref):
    """a copy of a component, with its model, that went through a pickle"""
    def nodes(r):
        return [r] + (nodes(r.left) + nodes(r.right) if isinstance(r, model.Tree) else [])

    objs = [n.obj for n in nodes(ref) if n.obj is not None]
    try:
        back = pickle.loads(pickle.dumps(objs))
    except (AttributeError, pickle.PicklingError):  # the harness's own materials are local classes
        return copy.deepcopy(ref)
    memo = {id(a): b for a, b in zip(objs, back)}
    memo[id(objs)] = objs
    return copy.deepcopy(ref, memo)


def add_twin(rng, scene, kinds):
    """a second copy of one component, next to the first by very little"""
    known = [(o, r) for o, r in scene if all(getattr(leaf, "make", None) for leaf in r.leaves())]
    if not known:
        return False
    _, ref = known[rng.integers(len(known))]
    obj, twin = gen.rebuild(ref)
    size = max(float(leaf.shape.size) for leaf in ref.leaves())
    step = rng.normal(size=3) * size * 10.0 ** rng.uniform(-7, -4)
    gen.apply(obj, twin, ("move", tuple(float(x) for x in step)))
    paint(rng, twin, kinds)
    scene.insert(int(rng.integers(len(scene) + 1)), (obj, twin))
    return True


def make_sources(rng, refs, n_sources, n_rays, real=0.4, aim=True, span=8.0, exotic=False):
    """sources that all honour n_rays; exotic: light of any wavelength"""
    out = []
    for _ in range(n_sources):
        w = float(rng.choice([0.633, 0.45, 0.55, 0.7, 1.2])) if rng.random() < 0.85 else float(rng.uniform(0.3, 3))
        w = float(10.0 ** rng.uniform(-3, 4)) if exotic else w
        if rng.random() < real or not refs:
            k = rng.integers(6)
            src = (lambda: pc.LineOfRays(gen.num(rng, 0.2, 4), w), lambda: pc.CircleOfRays(gen.num(rng, 0.2, 4), w),
                   lambda: pc.ConeOfRays(float(rng.uniform(1, 80)), w), lambda: pc.WedgeOfRays(float(rng.uniform(5, 170)), w),
                   lambda: pc.Lamp(gen.num(rng, 0.2, 3), gen.num(rng, 0.2, 3), float(rng.uniform(5, 60)), wavelength=w),
                   lambda: pc.StaticLamp(gen.num(rng, 0.2, 3), gen.num(rng, 0.2, 3), float(rng.uniform(5, 60)), wavelength=w))[k]()
            for op in [gen.random_op(rng, span=3.0) for _ in range(rng.integers(0, 3))]:
                gen.apply(src, None, op)
            if aim and refs:
                # look at some leaf from a distance
                leaf = refs[rng.integers(len(refs))].leaves()[0]
                p = np.asarray(src.get_position(), float)[:3]
                c = (leaf.m[:3, 3]).astype(float)
                v = rng.normal(size=3)
                start = c + v / np.linalg.norm(v) * rng.uniform(2, span)
                x = np.asarray(src.get_world_transform()[:3, 0], float)
                m = turn(x, c - start)
                t = np.eye(4)
                t[:3, :3] = m
                t[:3, 3] = start - m @ p
                src.transform(t)
        else:
            rays, _ = gen.rays_at(rng, refs, n_rays, unit=True, far=6.0)
            bright = 100.0 if rng.random() < 0.5 else float(10.0 ** rng.uniform(0, 6)) if rng.random() < 0.5 else 10.0 ** rng.uniform(0, 5, n_rays)
            src = gen.FixedSource(rays, w if rng.random() < 0.4 else wavelengths(rng, n_rays) * (10.0 ** rng.uniform(-3, 4) if exotic else 1.0), bright, 1.0)
        out.append(gen.Recorder(src))
    return out


def wavelengths(rng, n, lo=0.4, hi=1.0):
    """one per ray: all different, or few values in blocks or mixed, often the same at both ends"""
    if rng.random() < 0.15:
        lo, hi = 0.3, 3.0
    if rng.random() < 0.4:
        return rng.uniform(lo, hi, n)
    w = rng.uniform(lo, hi, rng.integers(2, 4))[rng.integers(0, 2, n)]
    if rng.random() < 0.3:
        w = np.sort(w)
    if rng.random() < 0.6:
        w[-1] = w[0]
    return w


def disturb(rng, refs, steps=2, **kw):
    """move some components, or parts of them -> description"""
    done = []
    for _ in range(rng.integers(1, steps + 1)):
        every = [x for r in refs for x in (gen.nodes(r) if rng.random() < 0.4 else [r])]
        if rng.random() < 0.3:
            every = [x for x in every if isinstance(x, Leaf) and x.shape.sheet] or every
        node = every[rng.integers(len(every))]
        op = gen.small_op(rng) if rng.random() < 0.2 else gen.random_op(rng, span=float(rng.choice([0.3, 1.0])), **kw)
        gen.apply(node.obj, node, op)
        done.append(op[0])
    return done


def turn(a, b):
    """a rotation matrix that carries direction a to direction b"""
    a, b = a / np.linalg.norm(a), b / np.linalg.norm(b)
    v, c = np.cross(a, b), a @ b
    if np.linalg.norm(v) < 1e-9:
        if c > 0:
            return np.eye(3)
        k = np.cross(a, [1, 0, 0] if abs(a[0]) < 0.9 else [0, 1, 0])
        k /= np.linalg.norm(k)
        return 2 * np.outer(k, k) - np.eye(3)
    K = np.array([[0, -v[2], v[1]], [v[2], 0, -v[0]], [-v[1], v[0], 0]])
    return np.eye(3) + K + K @ K / (1 + c)


# ---------------------------------------------------------------- recorded rows
class Rows:
    def __init__(self, frame):
        self.frame = frame
        self.n = len(frame)
        for f in FIELDS:
            setattr(self, f, np.asarray(frame[f], float))
        get = lambda *names: np.array([np.asarray(frame[c], float) for c in names])
        self.p0, self.p1 = get("x0", "y0", "z0"), get("x1", "y1", "z1")
        self.tilt = get("x_tilt", "y_tilt", "z_tilt")

    def row(self, i):
        return {c: float(self.frame[c].iloc[i]) for c in self.frame.columns} if self.n else {}

    def rays(self):
        return self.p0.astype(LD), self.tilt.astype(LD)

    def chains(self):
        """{ray id: row numbers ordered by generation}"""
        order = np.lexsort((self.generation, self.id))
        out = {}
        for i in order:
            out.setdefault(self.id[i], []).append(i)
        return out


def emitted(sources):
    """all rays the recorded sources handed out in the last trace: 13 x N"""
    return np.hstack([s.given[-1][1] for s in sources])


def reach(rays, refs):
    """length scale of every ray for tolerances"""
    far = max([float(abs(leaf.corners()).max()) for r in refs for leaf in r.leaves()] or [1.0])
    return np.sqrt((rays[0].astype(float) ** 2).sum(0)) + far


def check_segments(ctx, rows, refs):
    """C01: every row ends at the nearest boundary point ahead, on the right surface -> judged rows"""
    if not rows.n:
        return 0
    R = rows.rays()
    t, leaf, amb = model.nearest(refs, R)
    scale = reach(R, refs)
    judged = 0
    for i in range(rows.n):
        if amb[i]:
            ctx.count("ambiguous_rows")
            continue
        judged += 1
        if leaf[i] is None:
            ctx.fail("a row is recorded for a ray that meets nothing", row=rows.row(i))
        ctx.require(rows.surface[i] == leaf[i].id, "the segment ends on another surface than the nearest one",
                    row=rows.row(i), expected_surface=leaf[i].id, expected_distance=float(t[i]), leaf=getattr(leaf[i], "desc", None))
        end = (R[0][:, i] + R[1][:, i] * t[i]).astype(float)
        ctx.require(np.abs(end - rows.p1[:, i]).max() <= TOL * (scale[i] + float(t[i])), "the segment does not end at the nearest boundary point",
                    row=rows.row(i), expected=end)
    ctx.count("segments", judged)
    return judged


def interactions(rows, refs):
    """what the material laws say about the continuation of each row: dict of arrays over rows"""
    by_id = {leaf.id: leaf for r in refs for leaf in r.leaves()}
    n = rows.n
    out = dict(d=np.zeros((3, n), LD), normal=np.zeros((3, n), LD), index=np.zeros(n, LD), wavelength=np.zeros(n, LD), intensity=np.zeros(n, LD),
               alive=np.zeros(n, bool), ambiguous=np.zeros(n, bool), total=np.zeros(n, bool), entering=np.zeros(n, bool),
               kind=np.full(n, "", dtype=object), leaf=np.full(n, None, dtype=object))
    for sid in np.unique(rows.surface):
        sel = rows.surface == sid
        leaf = by_id.get(sid)
        if leaf is None:
            out["ambiguous"][sel] = True
            continue
        d = rows.tilt[:, sel].astype(LD)
        d = d / np.sqrt((d * d).sum(0))
        nrm, amb = leaf.world_normal(rows.p1[:, sel])
        r = leaf.spec.law(d, nrm, rows.index[sel].astype(LD), rows.wavelength[sel].astype(LD), rows.intensity[sel].astype(LD))
        for k in ("d", "index", "wavelength", "intensity", "alive", "total", "entering"):
            if k in r:
                out[k][..., sel] = r[k]
        out["normal"][:, sel] = nrm
        out["ambiguous"][sel] = r["ambiguous"] | (amb if leaf.spec.kind != "absorber" else False)
        out["kind"][sel] = leaf.spec.kind
        for i in np.nonzero(sel)[0]:
            out["leaf"][i] = leaf
    return out


def check_laws(ctx, rows, refs, kinds, what="law"):
    """C04/C05: consecutive rows follow the law of the surface between them, for the kinds given"""
    law = interactions(rows, refs)
    judged = 0
    for rid, chain in rows.chains().items():
        for a, b in zip(chain, chain[1:]):
            if rows.generation[b] != rows.generation[a] + 1 or law["kind"][a] not in kinds:
                continue
            if law["ambiguous"][a]:
                ctx.count("ambiguous_interactions")
                continue
            kind = law["kind"][a]
            info = lambda: dict(row=rows.row(a), next_row=rows.row(b), normal=law["normal"][:, a], expected_direction=law["d"][:, a],
                                expected_index=float(law["index"][a]), leaf=law["leaf"][a].desc)
            ctx.require(np.abs(rows.tilt[:, b] - law["d"][:, a].astype(float)).max() < 2e-6,
                        f"the direction after a {kind} surface is not the one its law gives", **info())
            ctx.require(abs(rows.index[b] - float(law["index"][a])) < 1e-9, f"wrong index after a {kind} surface", **info())
            ctx.require(abs(rows.wavelength[b] - float(law["wavelength"][a])) < 1e-12, f"wavelength changed at a {kind} surface", **info())
            ctx.require(abs(rows.intensity[b] - float(law["intensity"][a])) < 1e-9 * (1 + rows.intensity[a]), f"wrong intensity after a {kind} surface", **info())
            judged += 1
            ctx.count(kind + "_interactions")
            if kind == "glass":
                ctx.count("total_reflections" if law["total"][a] else "entering" if law["entering"][a] else "leaving")
            if law["leaf"][a].sign < 0:
                ctx.count("on_subtracted_surfaces")
    return judged


def check_chains(ctx, rows, given, offset, keep=True, stretch=(1, 1)):
    """C02: ids, generations, continuity, finiteness, unit tilts, unchanged wavelength and intensity; stretch: the lengths of
    direction vectors there may be"""
    f = rows.frame
    ctx.require(np.isfinite(np.asarray(f, float)).all(), "a row holds a value that is not finite")
    n = given.shape[1]
    norms = np.linalg.norm(rows.tilt, axis=0)
    ctx.require((abs(norms - 1) < 1e-9).all(), "a tilt is not a unit vector", tilt=rows.tilt[:, :3])
    length = np.linalg.norm(rows.p1 - rows.p0, axis=0)
    size = 1 + np.abs(rows.p0).max(initial=0) + np.abs(rows.p1).max(initial=0)
    drift = np.abs(rows.p1 - rows.p0 - rows.tilt * length).max(axis=0, initial=0)
    ctx.require((drift <= 1e-12 * size + 1e-9 * length).all(), "the tilt does not point from start to end", worst=drift.max(initial=0))
    if not rows.n:
        return 0
    order = np.lexsort((rows.generation, rows.id))
    ids, gens = rows.id[order], rows.generation[order]
    first = np.r_[True, ids[1:] != ids[:-1]]
    ctx.require((ids == np.floor(ids)).all() and ids.min() >= 0 and ids.max() < n, "a row's ray id was never emitted", ids=np.unique(ids))
    start_at = np.nonzero(first)[0]
    want_gen = np.arange(rows.n) - start_at[np.cumsum(first) - 1]
    bad = np.nonzero(gens != want_gen)[0]
    ctx.require(not len(bad), lambda: "generations of a ray are not 0, 1, 2, ...", id=ids[bad[:1]], generations=gens[ids == ids[bad[0]]] if len(bad) else None)

    def every(ok, rownum, message):
        bad = np.nonzero(~ok)[0]
        ctx.count("oracle_checks", len(ok))
        if len(bad):
            i = rownum[bad[0]]
            ctx.fail(message, row=rows.row(i), emitted=given[:, int(rows.id[i])])

    g = given[:, ids.astype(int)]
    f = order[first]
    gf = g[:, first]
    d0 = gf[4:7] / np.linalg.norm(gf[4:7], axis=0)
    every(np.abs(rows.p0[:, f] - gf[0:3]).max(0) <= 1e-12 * size, f, "the first row does not start at the emitted ray")
    every(np.abs(rows.tilt[:, f] - d0).max(0) <= 1e-12, f, "the first row does not run along the emitted ray")
    every(np.abs(rows.index[f] - gf[11]) <= 1e-12, f, "the first row has another index than the emitted ray")
    c = order if keep else f
    gc = g if keep else gf
    every((rows.wavelength[c] == gc[10]) & (rows.intensity[c] == gc[9]), c, "a row's wavelength or intensity is not the emitted ray's")
    a, b = order[:-1][~first[1:]], order[1:][~first[1:]]
    step = ((rows.p0[:, b] - rows.p1[:, a]) * rows.tilt[:, b]).sum(0)
    want = rows.p1[:, a] + np.clip(step, 0.99 * stretch[0] * offset, 1.01 * stretch[1] * offset) * rows.tilt[:, b] if stretch != (1, 1) else rows.p1[:, a] + offset * rows.tilt[:, b]
    every(np.abs(rows.p0[:, b] - want).max(0) <= 1e-12 * size, b, "a row does not start where the previous one ended, plus the ray offset")
    ctx.count("chains", len(f))
    ctx.count("links", len(a))
    return int(rows.generation.max()) + 1


def check_ends(ctx, rows, refs, given, limit, threshold, offset):
    """C03: every chain starts and stops for a documented reason, never later, never earlier"""
    n = given.shape[1]
    chains = rows.chains()
    # first rows
    R = (given[0:3].astype(LD), given[4:7].astype(LD))
    with np.errstate(all="ignore"):
        t, leaf, amb = model.nearest(refs, R)
    for i in range(n):
        if amb[i]:
            continue
        expect = leaf[i] is not None and given[9, i] >= threshold and limit > 0
        ctx.require(expect == (float(i) in chains), "an emitted ray has no first row" if expect else "a row is recorded for a ray without a first segment",
                    emitted=given[:, i], limit=limit, threshold=threshold)
        ctx.count("starts" if expect else "no_start")
    if not rows.n:
        return
    ctx.require((rows.intensity >= threshold).all(), "a ray whose intensity is below the threshold is traced on",
                row=rows.row(int(np.argmin(rows.intensity))), threshold=threshold)
    ctx.require(rows.generation.max() < limit, "a ray has more rows than the generation limit", limit=limit)
    law = interactions(rows, refs)
    last = []
    for rid, chain in chains.items():
        for a in chain[:-1]:
            ctx.require(law["alive"][a] or law["ambiguous"][a], "a ray is traced on after it was absorbed", row=rows.row(a))
        last.append(chain[-1])
        if len(chain) == limit:
            ctx.count("ended_by_limit")
    last = np.array(last)
    d = law["d"][:, last]
    start = rows.p1[:, last].astype(LD) + LD(offset) * d
    t, leaf, amb = model.nearest(refs, (start, np.where(law["alive"][last], d, np.array([[1], [0], [0]], LD))))
    for k, a in enumerate(last):
        if law["kind"][a] == "absorber" or not law["alive"][a]:
            ctx.count("ended_by_absorber")
        elif law["ambiguous"][a] or amb[k]:
            ctx.count("ambiguous_ends")
        elif rows.generation[a] + 1 >= limit:
            pass
        elif law["intensity"][a] < threshold * (1 + 1e-9):
            ctx.count("ended_by_intensity" if law["intensity"][a] < threshold else "ambiguous_ends")
        else:
            ctx.require(leaf[k] is None, "a chain stops although its continuation meets a component", row=rows.row(a),
                        continuation=d[:, k], meets=getattr(leaf[k], "desc", None), at=float(t[k]), limit=limit, threshold=threshold)
            ctx.count("ended_by_miss")


# ---------------------------------------------------------------- helpers of the metamorphic checks
def containing(refs, rays, at):
    """index of the component holding the point at parameter `at` of every ray (-1: none), ambiguous near walls"""
    n = rays[0].shape[1]
    who = np.full(n, -1)
    amb = np.zeros(n, bool)
    dn = np.sqrt((rays[1] * rays[1]).sum(0))
    for k, ref in enumerate(refs):
        inside = {}
        for leaf in ref.leaves():
            lo, hi, a = leaf.span(rays)
            inside[leaf] = (lo < at) & (at < hi)
            with np.errstate(all="ignore"):
                amb |= a | (np.isfinite(lo) & ((abs(lo - at) * dn < 1e-7) | (abs(hi - at) * dn < 1e-7)))
        who = np.where(ref.member(inside), k, who)
    return who, amb


class Frozen:
    """A source that always hands out the given 13xn rows (optionally disturbed a little)."""

    def __init__(self, rows, seed=None, size=1e-8):
        self.rows, self.seed, self.size = np.array(rows, float), seed, size

    def generate_rays(self, n):
        out = pyrayt.RaySet(self.rows.shape[1])
        rows = self.rows.copy()
        if self.seed is not None:
            # seeds come in opposite pairs: whatever a start lies on exactly, one of the two crosses it
            r = np.random.default_rng(self.seed // 2)
            self_size = self.size * (1 if self.seed % 2 else -1)
            rows[0:3] += r.normal(size=(3, rows.shape[1])) * self_size
            rows[4:7] += r.normal(size=(3, rows.shape[1])) * self_size * 0.1
            rows[4:7] /= np.linalg.norm(rows[4:7], axis=0)
        out.rays = rows[:8].reshape(2, 4, -1)
        out.generation, out.intensity, out.wavelength, out.index = rows[8], rows[9], rows[10], rows[11]
        return out


class Stability:
    """Which rows of a reference trace are insensitive to tiny disturbances of the emitted rays, and not undecided for the model at any row (running in a sheet, meeting an edge)."""

    def __init__(self, make_tracer, given, rows, refs=None, size=1e-8, limit=1e-5, trials=4, offset=1e-6):
        self.rows = rows
        self.chains = rows.chains()
        self.stable = {rid: len(c) for rid, c in self.chains.items()}  # number of leading stable rows
        self.ends = {float(i): True for i in range(given.shape[1])}  # chain has a stable length
        for k in range(trials):
            other = Rows(make_tracer([Frozen(given, seed=k, size=size)]).trace())
            oc = other.chains()
            for i in range(given.shape[1]):
                rid = float(i)
                c, o = self.chains.get(rid, []), oc.get(rid, [])
                good = 0
                for a, b in zip(c, o):
                    if rows.surface[a] != other.surface[b] or np.abs(rows.p1[:, a] - other.p1[:, b]).max() > limit:
                        break
                    good += 1
                if rid in self.stable:
                    self.stable[rid] = min(self.stable[rid], good)
                if len(c) != len(o) or good < len(c):
                    self.ends[rid] = False
        if refs is not None:
            self._undecided(given, refs, offset)

    def _undecided(self, given, refs, offset):
        rows = self.rows

        def cut(rid, good):
            if rid in self.stable:
                self.stable[rid] = min(self.stable[rid], good)
            self.ends[rid] = False

        with np.errstate(all="ignore"):
            for i in np.nonzero(model.nearest(refs, (given[0:3].astype(LD), given[4:7].astype(LD)))[2])[0]:
                cut(float(i), 0)
            if rows.n:
                law = interactions(rows, refs)
                d = np.where(law["alive"], law["d"], np.array([[1], [0], [0]], LD))
                amb = model.nearest(refs, (rows.p1.astype(LD) + LD(offset) * d, d))[2] | law["ambiguous"]
                for rid, chain in self.chains.items():
                    for k, a in enumerate(chain):
                        if amb[a] and law["alive"][a]:
                            cut(rid, k + 1)
                            break


def compare_chains(ctx, base, stability, other, what, ids=None, point=None, direction=None, surfaces=None, tol=2e-6, offset_tol=0.0, unit=None):
    """rows `other` must equal rows `base` up to the given maps, as far as the base rows are stable -> compared rows"""
    point = point or (lambda p: p)
    direction = direction or (lambda d: d)
    oc = other.chains()
    done = 0
    for rid in stability.ends:
        mate = rid if ids is None else ids.get(rid)
        if mate is None:
            continue
        c, o = stability.chains.get(rid, []), oc.get(float(mate), [])
        good = stability.stable.get(rid, 0)
        if stability.ends[rid]:
            ctx.require(len(c) == len(o), f"{what}: a ray has another number of rows", id=rid, rows=len(c), other=len(o))
        ctx.require(len(o) >= good, f"{what}: a ray ends earlier", id=rid, rows=good, other=len(o))
        if not good:
            continue
        a, b = np.array(c[:good]), np.array(o[:good])
        s = base.surface[a] if surfaces is None else np.array([surfaces.get(x, -99) for x in base.surface[a]])
        info = lambda k: dict(row=base.row(a[k]), other_row=other.row(b[k]), generation=k)
        size = 1 + np.abs(other.p1[:, b]).max() if unit is None else unit * (1 + np.abs(base.p1[:, a]).max()) + 1e-4 * np.abs(other.p1[:, b]).max()
        for name, x, y, t in (("surface", s, other.surface[b], 0), ("generation", base.generation[a], other.generation[b], 0),
                              ("wavelength", base.wavelength[a], other.wavelength[b], 1e-12), ("intensity", base.intensity[a], other.intensity[b], 1e-9 * (1 + np.abs(base.intensity[a]).max())),
                              ("index", base.index[a], other.index[b], 1e-9), ("start", point(base.p0[:, a]), other.p0[:, b], tol * size + offset_tol),
                              ("end", point(base.p1[:, a]), other.p1[:, b], tol * size + offset_tol), ("direction", direction(base.tilt[:, a]), other.tilt[:, b], tol)):
            d = np.abs(np.atleast_2d(x - y)).max(0)
            if (d > t).any():
                ctx.fail(f"{what}: another {name}", difference=float(d.max()), **info(int(np.argmax(d > t))))
        ctx.count("oracle_checks", 8)
        done += good
    ctx.count("compared_rows", done)
    return done
