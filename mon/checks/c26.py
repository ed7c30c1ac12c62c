"""C26: every row is attributed to the source that emitted its ray."""
import numpy as np

import tinygfx.g3d as cg
import pyrayt

from mon import gen, trace

RULE = """Systems with 1-12 sources (now and then 130-400, or 3000-40000 rays each; real ones and ones with given rays; every ray of a source has a wavelength of its own where the source allows it; some listed several times) are traced in
histories of traces, changes of the rays per source, resets and repeated calls of calculate_source_ids(); ids, first rows and source_id of every row are compared with
the sets the sources handed out. Wavelengths tell whose ray a row really is. Non-trivial: rows of at least two sources, some rays without rows."""
QUICK, THOROUGH = 600, 25000
MINIMA = dict(traces=500, rows=12000, attributed=8000, by_wavelength=2500, changed_count=100, recalculated=150, empty_results=10, gaps=200, many_rays=3, many_sources=3, listed_twice=25)


class Tagged(cg.WorldObject):
    """any number of rays around a direction; each ray has a wavelength of its own"""

    wavelength = None

    def __init__(self, rng, refs, base, step=1e-5):
        super().__init__()
        self.step = step
        self.pool, self.base = gen.rays_at(rng, refs, 64, far=6.0)[0], base

    def generate_rays(self, n):
        rs = pyrayt.RaySet(n)
        r = self.pool[..., np.arange(n) % 64].copy()
        m = self.get_world_transform()
        r = np.matmul(m, r)
        r[1] /= np.linalg.norm(r[1], axis=0)
        rs.rays = r
        rs.wavelength = self.base + self.step * np.arange(n)
        rs.id = np.arange(n)[::-1] + 3  # whatever ids a source gives, the tracer assigns its own
        return rs


def case(ctx):
    rng = ctx.rng
    scene = trace.make_scene(rng, int(rng.integers(1, 4)), ("mirror", "glass", "absorber"), spread=3.0, cavity=("mirror",) if rng.random() < 0.3 else None, roam=0.12, crowd=0.03)
    refs, objs = [r for _, r in scene], [o for o, _ in scene]
    k = int(rng.integers(1, 5)) if rng.random() < 0.8 else int(rng.integers(5, 13))
    n = int(rng.integers(1, 9)) if rng.random() < 0.8 else int(rng.integers(9, 60))
    sources, tags = [], {}
    step, apart, size = 1e-5, 0.01, ctx.index % 60
    many = size == 7
    if size == 7:  # very many rays
        n, step = int(rng.integers(3000, 40000)), 2e-7
        ctx.count("many_rays")
    elif size == 37:  # very many sources
        k, n, apart = int(rng.integers(130, 400)), int(rng.integers(1, 20)), 0.001
        ctx.count("many_sources")
    for j in range(k):
        if rng.random() < 0.6 or size == 37:
            sources.append(gen.Recorder(Tagged(rng, refs, 0.4 + apart * j, step)))
            tags[j] = 0.4 + apart * j
        else:
            sources.append(trace.make_sources(rng, refs, 1, n, real=1.0)[0])
    if rng.random() < 0.08:  # nothing is hit
        far = np.zeros((2, 4, 64))
        far[0, 0], far[0, 3], far[1, 0] = 900, 1, 1
        for s in sources:
            if isinstance(s.source, Tagged):
                s.source.pool = far
    if len(tags) and k > 1 and rng.random() < 0.2:  # one source is listed twice, or more often
        j = list(tags)[rng.integers(len(tags))]
        for i in rng.choice([i for i in range(k) if i != j], size=1 if k == 2 else 2, replace=False):
            sources[i] = sources[j]
            tags.pop(int(i), None)
        tags.pop(j)
        ctx.count("listed_twice")
    given_list = sources if rng.random() < 0.5 else tuple(sources)
    if k == 1 and rng.random() < 0.5:
        given_list = sources[0]
    t = pyrayt.RayTracer(given_list, objs, rays_per_source=n, generation_limit=int(rng.integers(1, 6)))
    used = None
    seen = 0
    for _ in range(int(rng.integers(2, 7))):
        what = rng.integers(5)
        if used is None or what <= 1:
            f = t.trace()
            used = n
            ctx.count("traces")
            rows = trace.Rows(f)
            ids = rows.id.astype(int)
            ctx.require((ids == rows.id).all() and (ids >= 0).all() and (ids < k * n).all(), "a row has an id no source was given", ids=np.unique(rows.id), sources=k, n=n)
            for s in sources:
                ctx.require(s.given[-1][0] == n and s.given[-1][1].shape[1] == n, "a source was asked for another number of rays", asked=s.given[-1][0], want=n)
            given = trace.emitted(sources)
            first = rows.generation == 0
            g = given[:, ids[first]]
            size = 1 + np.abs(given[:3]).max(initial=0)
            ctx.require(np.abs(rows.p0[:, first] - g[:3]).max(initial=0) < 1e-9 * size and np.abs(rows.tilt[:, first] - g[4:7]).max(initial=0) < 1e-9
                        and (rows.wavelength[first] == g[10]).all() and (rows.index[first] == g[11]).all() and (rows.intensity[first] == g[9]).all(),
                        "a first row does not hold the ray of its source", sources=k, n=n)
            ctx.require(len(set(ids[first])) == first.sum(), "an id has several first rows")
            ctx.count("rows", rows.n)
            ctx.count("gaps", int(0 < len(set(ids)) < k * n))
            ctx.count("empty_results", int(rows.n == 0))
        elif what == 2:
            n = int(rng.integers(1, 60)) if not many else int(rng.integers(5000, 40000))
            t.set_rays_per_source(n)
            ctx.count("changed_count")
        elif what == 3 and rng.random() < 0.4:
            t.reset()
            t.calculate_source_ids()
            used = None
            continue
        # attribution
        if rng.random() < 0.75:
            before = t.get_results().drop(columns=["source_id"], errors="ignore").copy(deep=True)
            t.calculate_source_ids()
            f = t.get_results()
            ctx.require("source_id" in f.columns, "no source_id column is added")
            ctx.require(f.drop(columns=["source_id"]).equals(before), "attributing the rows changes other columns")
            got = np.asarray(f["source_id"], float)
            rows = trace.Rows(f)
            want = rows.id.astype(int) // used
            ctx.require((got == want).all(), "a row is attributed to another source", got=got[got != want][:4], want=want[got != want][:4], sources=k, traced_with=used, now=n)
            for j, base in tags.items():
                own = (rows.wavelength >= base - 1e-9) & (rows.wavelength < base + step * used + 1e-9)
                solid = all(b not in [s.source.wavelength for i, s in enumerate(sources) if i not in tags] for b in rows.wavelength[own])
                if solid:
                    ctx.require((got[own] == j).all(), "a ray of one source is attributed to another", source=j, got=got[own & (got != j)][:3])
                    ctx.count("by_wavelength", int(own.sum()))
            ctx.count("attributed", rows.n)
            ctx.count("recalculated")
            seen = max(seen, len(set(got)))
    if seen >= 2:
        ctx.observed((k, n, used, [s.given[-1][1].tobytes() for s in sources if s.given]), dict(sources=k, rays=used, attributed_sources=seen))
