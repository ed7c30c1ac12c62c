"""C30: materials act on exactly the rays that hit, and their answer propagates."""
import numpy as np

import pyrayt
import pyrayt.materials as matl

from mon import gen, model, trace

RULE = """Random systems whose surfaces carry recording materials (one per surface, per component or for all) that turn rays in their own way, change index, wavelength and
intensity ray by ray, absorb some, and answer with the set they were given, with a new one (the old one scrambled), or with a reordered view; beside them library
materials. Every call is matched with the result rows of its generation and surface, and every answer with the next row. Non-trivial: rays of at least two surfaces in
one generation, and three generations."""
QUICK, THOROUGH = 1500, 60000
MINIMA = dict(traces=700, calls=3000, asked=12000, matched_rows=12000, answers=8000, absorbed=700, starved=300, fresh_sets=500, shared=150, wrapped=500, sources_2=200, crowded=500, repeated=50)
KINDS = ("mirror", "glass", "absorber", "glass")


class Recording(matl.TracableMaterial):
    def __init__(self, rng, log, inner=None):
        super().__init__()
        self.log, self.inner = log, inner
        self.seed = int(rng.integers(2 ** 31))
        self.turn = ("reflect", "pass", "back", "random", "stretch", "scale")[rng.integers(6)]
        self.answer = ("same", "fresh", "view", "fortran")[rng.integers(4)]
        self.change = rng.random(4) < 0.6

    def trace(self, surface, ray_set):
        given = np.array(ray_set)
        if self.inner is not None:
            out = self.inner.trace(surface, ray_set)
        else:
            out = self.act(surface, ray_set)
        self.log.append((self, surface, given, np.array(out)))
        return out

    def act(self, surface, ray_set):
        n = ray_set.n_rays
        # what happens to a ray depends on the ray, not on its place in the set
        r = np.array([np.random.default_rng([self.seed, int(i), int(g)]).random(9) for i, g in zip(ray_set.id, ray_set.generation)]).reshape(n, 9).T
        d = np.array(ray_set.rays[1])
        if self.turn == "reflect":
            nrm = np.asarray(surface.get_world_normals(np.array(ray_set.rays[0])))
            d = d - 2 * (d * nrm).sum(0) * nrm
        elif self.turn == "back":
            d = -d
        elif self.turn == "random":
            d[:3] = r[:3] - 0.5
            d /= np.linalg.norm(d, axis=0)
        elif self.turn == "stretch":
            d = d * (0.5 + 2 * r[3])
        elif self.turn == "scale":
            d = d * (10 ** (4 * r[3] - 3) / np.linalg.norm(d, axis=0))
        d[:, r[4] < 0.05] = 0  # absorbed
        out = ray_set
        if self.answer == "fresh":
            out = pyrayt.RaySet(n)
            out[:] = ray_set
            ray_set[:] = 7.5
        elif self.answer == "view":
            big = pyrayt.RaySet(2 * n)
            out = big[..., ::2]
            out[:] = ray_set
        elif self.answer == "fortran":
            out = np.asfortranarray(ray_set).view(pyrayt.RaySet)
        out.rays[1] = d
        if self.change[0]:
            out.intensity = np.array(out.intensity) * np.where(r[5] < 0.04, -90.0 * r[8], np.where(r[5] < 0.08, 1e-4, 0.3 + 0.7 * r[5]))
        if self.change[1]:
            out.wavelength = 0.4 + 0.6 * r[6]
        if self.change[2]:
            out.index = 1 + r[7]
        return out


def case(ctx):
    rng = ctx.rng
    scene = trace.make_scene(rng, int(rng.integers(1, 5)), KINDS, spread=2.5, cavity=("mirror", "glass") if rng.random() < 0.6 else None, thin=0.06, roam=0.12, crowd=0.03)
    refs, objs = [r for _, r in scene], [o for o, _ in scene]
    log = []
    how = rng.integers(3)
    for_all = Recording(rng, log)
    ctx.count("shared", int(how == 2))
    for r in refs:
        for_one = Recording(rng, log)
        for leaf in r.leaves():
            if rng.random() < 0.25:
                leaf.obj.material = Recording(rng, log, leaf.spec.mat)
                ctx.count("wrapped")
            else:
                leaf.obj.material = Recording(rng, log) if how == 0 else for_one if how == 1 else for_all
    n, k = int(rng.integers(1, 20)), int(rng.integers(1, 4))
    ctx.count("sources_2", int(k > 1))
    sources = trace.make_sources(rng, refs, k, n, real=0.4)
    if rng.random() < 0.1:  # a component given twice, or a part beside its combination: still one surface
        for _ in range(rng.integers(1, 4)):
            r = refs[rng.integers(len(refs))]
            if rng.random() < 0.3:
                r = r.leaves()[rng.integers(len(r.leaves()))]
            refs.append(r)
            objs.insert(int(rng.integers(len(objs) + 1)), r.obj)
        ctx.count("repeated")
    limit = int(rng.integers(1, 9))
    t = pyrayt.RayTracer(sources, objs, rays_per_source=n, generation_limit=limit)
    t.ray_offset_value = offset = float(rng.choice([1e-6, 1e-5]))
    t.ray_intensity_threshold = threshold = float(rng.choice([0.1, 1.0, 30.0]))
    rows = trace.Rows(t.trace())
    ctx.count("traces")
    ctx.count("calls", len(log))
    table = {int(i): s for o in objs for i, s in o.surface_ids}
    row_of = {(rows.id[i], rows.generation[i]): i for i in range(rows.n)}
    asked = {}
    for mat, surface, given, out in log:
        ctx.require(table.get(surface.get_id()) is surface, "a material is given something that is not a surface of the system")
        ctx.require(surface.material is mat, "another material than the surface's is asked")
        ctx.require(given.shape[0] == 13 and given.shape[1] >= 1, "a material is asked without rays", shape=given.shape)
        for c in range(given.shape[1]):
            key = (given[12, c], given[8, c])
            ctx.require(key not in asked, "a ray is handed to materials twice in one generation", id=key[0], generation=key[1])
            asked[key] = (surface, given[:, c], out[:, c])
            ctx.count("asked")
            if key not in row_of:
                ctx.require(given[9, c] < threshold or not given[4:7, c].any(), "a material is asked about a living ray that has no row", id=key[0], generation=key[1],
                            intensity=given[9, c], threshold=threshold)
                ctx.count("starved")
    gens = {}
    size = 1 + np.abs(rows.p1).max(initial=0)
    for key, i in row_of.items():
        info = dict(row=rows.row(i))
        ctx.require(key in asked, "the material of a ray's surface was not asked", **info)
        surface, given, out = asked[key]
        ctx.require(surface.get_id() == rows.surface[i], "the material of another surface was asked", asked=surface.get_id(), **info)
        ctx.require(np.abs(given[:3] - rows.p1[:, i]).max() < 1e-9 * size and given[3] == 1, "a ray is handed over away from its hit point", given=given[:4], **info)
        d = given[4:7]
        ctx.require(abs(np.linalg.norm(d)) > 0 and np.abs(d / np.linalg.norm(d) - rows.tilt[:, i]).max() < 1e-9 and given[7] == 0, "a ray is handed over with another direction than it came with",
                    given=given[4:8], **info)
        ctx.require(given[9] == rows.intensity[i] and given[10] == rows.wavelength[i] and given[11] == rows.index[i], "a ray is handed over with another intensity, wavelength or index",
                    given=given[8:], **info)
        ctx.count("matched_rows")
        gens.setdefault(rows.generation[i], set()).add(rows.surface[i])
        nxt = row_of.get((key[0], key[1] + 1))
        alive = out[4:7].any() and out[9] >= threshold
        if nxt is None:
            ctx.count("absorbed", int(not alive))
            continue
        ctx.require(alive, "a ray goes on although the material absorbed it or left too little of it", answer=out, **info)
        info = dict(row=rows.row(i), next_row=rows.row(nxt), answer=out)
        length = np.linalg.norm(out[4:7])
        ctx.require(np.abs(rows.tilt[:, nxt] - out[4:7] / length).max() < 1e-9, "a ray does not go on in the direction its material gave", **info)
        ctx.require(rows.index[nxt] == out[11] and rows.wavelength[nxt] == out[10] and rows.intensity[nxt] == out[9], "a ray does not go on with what its material gave", **info)
        ctx.require(np.abs(rows.p0[:, nxt] - rows.p1[:, i]).max() <= offset * length * 1.001 + 1e-12 * size, "a ray does not go on from its hit point", **info)
        ctx.count("answers")
    refs = list({id(r): r for r in refs}.values())
    # a chain that stops with a living answer before the limit meets nothing more
    ends = [(i, asked[key][2]) for key, i in row_of.items() if (key[0], key[1] + 1) not in row_of and key[1] + 1 < limit]
    ends = [(i, o) for i, o in ends if o[4:7].any() and o[9] >= threshold]
    if ends:
        O = np.array([o for _, o in ends]).T.astype(model.LD)
        tt, leaf, amb = model.nearest(refs, (O[0:3] + offset * O[4:7], O[4:7]))
        for j, (i, o) in enumerate(ends):
            ctx.require(amb[j] or leaf[j] is None, "a ray ends although its continuation meets a surface", row=rows.row(i), answer=o)
            ctx.count("ends")
    ctx.count("fresh_sets", sum(m.answer == "fresh" and m.inner is None for m, *_ in log))
    ctx.count("crowded", sum(len(s) > 1 for s in gens.values()))
    if len(gens) >= 3 and any(len(s) > 1 for s in gens.values()):
        ctx.observed((trace.emitted(sources).tobytes(), limit, how), dict(surfaces=len(table), rows=rows.n, calls=len(log), generations=len(gens), limit=limit))
