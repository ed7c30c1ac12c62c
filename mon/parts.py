"""Models of the documented lenses, mirrors and stops, and the monitor of their hit points."""
import numpy as np

import tinygfx.g3d as cg
import pyrayt

from mon import gen, model, trace
from mon.model import LD, Leaf, Tree

# axis z of a model shape to world x, x to y, y to z
TO_X = np.array([[0, 0, 1, 0], [1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 0, 1]], dtype=LD)


def unit(rng):
    """one unit of length for a whole component: most are made at the scale of one"""
    return 1.0 if rng.random() < 0.8 else float(10.0 ** rng.uniform(-3, 3))


def aperture_spec(rng, lo=0.3, hi=4.0, u=1.0):
    """-> documented aperture argument, kind, (y size, z size)"""
    k = rng.integers(3)
    if k == 0:
        v = gen.num(rng, lo, hi) * u
        return v, "circle", (v, v)
    a, b = gen.num(rng, lo, hi) * u, gen.num(rng, lo, hi) * u
    if rng.random() < 0.08:  # a slit
        a = b * float(10.0 ** rng.uniform(-1.7, -0.8))
        a, b = (a, b) if rng.random() < 0.5 else (b, a)
    return ((a, b), "rectangle", (a, b)) if k == 1 else ((-a, -b), "ellipse", (a, b))


def reach(kind, size, off=(0.0, 0.0)):
    """how far the aperture extends from the axis"""
    y, z = size[0] / 2, size[1] / 2
    if kind == "circle":
        return y + float(np.hypot(*off))
    if kind == "rectangle":
        return float(np.hypot(y + abs(off[0]), z + abs(off[1])))
    if not any(off):
        return max(y, z)
    a = np.linspace(0, 2 * np.pi, 20001)
    return float(np.hypot(off[0] + y * np.cos(a), off[1] + z * np.sin(a)).max()) * (1 + 1e-7)


def section(kind, size, x0, x1, off=(0.0, 0.0)):
    """the aperture's cross section extruded from x0 to x1"""
    y, z = LD(size[0]), LD(size[1])
    if kind == "rectangle":
        leaf = Leaf(model.CubeShape([LD(x0), -y / 2, -z / 2], [LD(x1), y / 2, z / 2]))
    else:
        leaf = Leaf(model.CylinderShape(LD(1), LD(x0), LD(x1)))
        leaf.move(TO_X)
        leaf.move(model.scaling(1, y / 2, z / 2))
    leaf.move(model.translation(0, *off))
    return leaf


def disc(kind, size):
    """the flat cross section in the plane x = 0"""
    if kind == "rectangle":
        leaf = Leaf(model.SheetShape(*size))
    else:
        leaf = Leaf(model.DiskShape(size[0] / 2, size[1] / 2))
    leaf.move(TO_X)
    return leaf


def ball(r, x):
    leaf = Leaf(model.SphereShape(LD(r)))
    leaf.move(model.translation(LD(x)))
    return leaf


def aimed(rng, lo, hi, m, n, axis=0.5):
    """n rays at targets in the box lo..hi of the part's own coordinates, placed by m"""
    lo, hi = np.asarray(lo, float), np.asarray(hi, float)
    size = (hi - lo).max()
    rays = np.zeros((2, 4, n))
    rays[0, 3] = 1
    for i in range(n):
        u = rng.uniform(-0.1, 1.1, 3)
        if rng.random() < 0.12:  # on the axis of the part, or in one of its planes of symmetry
            u[1 + rng.integers(2)] = 0.5
        if rng.random() < 0.06:
            u[1:] = 0.5
        p = lo + u * (hi - lo)
        k = rng.random()
        if k < axis:
            d = np.array([(-1, 1)[rng.integers(2)], 0, 0], float)
            if rng.random() < 0.6:
                d = d + rng.normal(size=3) * 10.0 ** rng.uniform(-3, -0.3)
        elif k < axis + 0.15:
            d = np.zeros(3)
            d[rng.integers(3)] = (-1, 1)[rng.integers(2)]
        else:
            d = rng.normal(size=3)
        d = d / np.linalg.norm(d)
        o = p - d * size * (rng.uniform(0.5, 5) if rng.random() < 0.85 else rng.uniform(-1, 0.2))
        rays[0, :3, i], rays[1, :3, i] = o, d
    m = np.asarray(m, float)
    rays = np.einsum("ij,kjn->kin", m, rays)
    rays[1] /= np.linalg.norm(rays[1], axis=0)
    return rays


def beside_edges(rng, ref, n):
    """n rays that pass just inside or just outside an edge of one of the model's parts"""
    leaves = [leaf for leaf in ref.leaves() if not isinstance(leaf.shape, model.SphereShape)]
    n = n if leaves else 0
    rays = np.zeros((2, 4, n))
    rays[0, 3] = 1
    for i in range(n):
        leaf = leaves[rng.integers(len(leaves))]
        s = leaf.shape
        lo, hi = s.lo.astype(float), s.hi.astype(float)
        k = 0 if isinstance(s, model.CubeShape) else 2  # the axis along which it is looked
        if isinstance(s, model.CubeShape) and rng.random() < 0.3:
            k = int(rng.integers(3))
        a, b = [j for j in range(3) if j != k]
        e = 1 + float(10.0 ** rng.uniform(-6, -2)) * (-1, 1)[rng.integers(2)]
        p = lo + rng.uniform(0, 1, 3) * (hi - lo)
        mid, half = (lo + hi) / 2, (hi - lo) / 2
        if isinstance(s, (model.CubeShape, model.SheetShape)):
            p[a] = mid[a] + half[a] * e * (-1, 1)[rng.integers(2)]
            if rng.random() < 0.5:
                p[a], p[b] = mid[a] + (p[b] - mid[b]) * (half[a] / half[b]), mid[b] + (p[a] - mid[a]) * (half[b] / half[a])
        else:
            phi = rng.uniform(0, 2 * np.pi)
            p[a], p[b] = mid[a] + half[a] * e * np.cos(phi), mid[b] + half[b] * e * np.sin(phi)
        d = np.zeros(3)
        d[k] = (-1, 1)[rng.integers(2)]
        if s.sheet and rng.random() < 0.5:
            d[[a, b]] = rng.normal(size=2)
        back = float(s.size) * rng.uniform(0.2, 5)
        for row, v, w in ((0, p - d * back, 1), (1, d, 0)):
            rays[row, :3, i] = (model.mm(leaf.m[:3, :3], v) + leaf.m[:3, 3] * w).astype(float)
    rays[1] /= np.linalg.norm(rays[1], axis=0)
    return rays


def surfaces(obj):
    return {int(i): s for i, s in obj.surface_ids}


def near_others(leaf, leaves, p, grow=1e-4):
    """points (3xn) on leaf that lie close to the boundary of another leaf: on an edge"""
    near = np.zeros(p.shape[1], bool)
    d = np.array([[0.3], [0.5], [0.8]], LD) + np.zeros(p.shape, LD)
    if leaf.shape.sheet:  # its own rim
        o = leaf.local((p.astype(LD), d))[0]
        with np.errstate(all="ignore"):
            near |= ~np.isfinite(leaf.shape.interval(o, np.array([[0], [0], [1]], LD) + np.zeros(p.shape, LD), -grow)[0])
    for other in leaves:
        if other is leaf or other.shape.sheet:
            continue
        o, dd = other.local((p.astype(LD), d))
        with np.errstate(all="ignore"):
            a, b = (other.shape.interval(o, dd, s * grow) for s in (1, -1))
        near |= ((a[0] <= 0) & (a[1] >= 0)) != ((b[0] <= 0) & (b[1] >= 0))
    return near


def check_hits(ctx, obj, ref, rays, want_material, info, tol=1e-7):
    """Every hit of obj must be a crossing of the model body ref with the right normal and material.

    want_material: function(leaf of the model) -> predicate over the material of the surface hit (or None)
    -> (crossings, judged mask)
    """
    n = rays.shape[-1]
    R = model.as_rays(rays)
    sheet = any(leaf.shape.sheet for leaf in ref.leaves())
    c = model.crossings(ref, R)
    t, ids = obj.intersect(rays.copy())
    t, ids = np.asarray(t, float), np.asarray(ids)
    ctx.require(t.shape == ids.shape and t.shape[1] == n, "intersect() returns the wrong shape", shape=t.shape, **info)
    table = surfaces(obj)
    leaves = ref.leaves()
    size = max(float(leaf.shape.size) for leaf in leaves)
    ok = ~c.ambiguous
    points, who, surf = [], [], []
    for i in np.nonzero(ok)[0]:
        got = [(a, int(b)) for a, b in zip(t[:, i], ids[:, i]) if np.isfinite(a)]
        ctx.require(sorted(x[0] for x in got) == [x[0] for x in got], "hits are not in ascending order", got=got, **info)
        want = [(float(a), leaves[k]) for a, k in zip(c.t[:, i], c.ids[:, i]) if np.isfinite(a)]
        if sheet:
            want = want[:1]
            flat = []
            for g in got:
                if not flat or abs(g[0] - flat[-1][0]) > tol * (1 + abs(g[0])):
                    flat.append(g)
            got = flat
        lim = tol * (1 + np.abs(rays[0, :3, i]).max() + size)
        ctx.require(len(got) == len(want) and all(abs(g[0] - w[0]) <= lim for g, w in zip(got, want)),
                    "the hits are not the crossings of the documented surface", got=[g[0] for g in got], want=[w[0] for w in want],
                    surfaces=[w[1].label for w in want], start=rays[0, :3, i], direction=rays[1, :3, i], **info)
        for g, w in zip(got, want):
            ctx.require(g[1] in table, "a hit carries an id that is not listed", id=g[1], **info)
            points.append(rays[0, :3, i] + rays[1, :3, i] * w[0])
            who.append(w[1])
            surf.append(table[g[1]])
            ctx.count("hits")
            ctx.count("hit_" + str(w[1].label))
        ctx.count("misses" if not want else "hit_rays")
    for leaf in set(who):
        sel = [k for k in range(len(who)) if who[k] is leaf]
        p = np.array([points[k] for k in sel]).T
        nrm, amb = leaf.world_normal(p)
        amb = np.asarray(amb) | near_others(leaf, leaves, p)
        for s in set(surf[k] for k in sel):
            idx = [j for j, k in enumerate(sel) if surf[k] is s]
            pts = np.ones((4, len(idx)))
            pts[:3] = p[:, idx]
            got = np.asarray(s.get_world_normals(pts))[:3]
            want = nrm[:, idx].astype(float)
            bad = np.abs(got - want).max(0) > 1e-5
            if sheet:  # a flat stop has two faces
                bad &= np.abs(got + want).max(0) > 1e-5
            bad &= ~np.asarray(amb)[idx]
            ctx.require(not bad.any(), "a boundary surface has the wrong normal", surface=leaf.label, at=pts[:3, bad][:, :1], got=got[:, bad][:, :1], want=want[:, bad][:, :1], **info)
            pred = want_material(leaf)
            if pred is not None:
                ctx.require(pred(s.material), "a boundary surface carries the wrong material", surface=leaf.label, material=repr(s.material), **info)
            ctx.count("normals", len(idx))
    ctx.count("ambiguous_rays", int((~ok).sum()))
    return c, ok


def ideal_glass(mat):
    """behaves as glass of index 1.5"""
    return hasattr(mat, "index_at") and all(abs(float(mat.index_at(w)) - 1.5) < 1e-12 for w in (0.3, 0.6, 1.5))
