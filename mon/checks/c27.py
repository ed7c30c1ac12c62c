"""C27: a RaySet's named fields are consistent views of one memory."""
import copy

import numpy as np

from pyrayt import RaySet

RULE = """Random histories of 10-40 reads, writes, slices, copies and concatenations on RaySets of 0 to 40 rays (some of thousands, a few of up to 200000) run beside a shadow state: one plain 13xn matrix per memory and
the columns each set looks at. After every step all names of all live sets are compared with the shadow. Non-trivial: at least two sets and five writes."""
QUICK, THOROUGH = 3000, 150000
MINIMA = dict(huge_sets=4, single_rays=1000, held_fields=20000, steps=20000, field_writes=5000, element_writes=3500, raw_writes=1200, inplace=1200, slices=1200, copies=600, masks=600, stacked=500, empty_sets=150, single_sets=150,
              field_reads=150000)
NAMES = ("generation", "intensity", "wavelength", "index", "id")


class Shadow:
    """a set, the matrix it must show (a view into its memory's shadow)"""

    def __init__(self, real, view):
        self.real, self.view, self.held = real, view, []

    def hold(self, rng):
        """keep what a name gives now; it must go on showing the set"""
        i = int(rng.integers(7))
        n = self.view.shape[1]
        self.held.append((self.real.rays, self.view[:8], (2, 4, n)) if i == 5 else (self.real.metadata, self.view[8:], (5, n)) if i == 6 else
                         (getattr(self.real, NAMES[i]), self.view[8 + i], (n,)))


def fresh(n):
    m = np.zeros((13, n))
    m[3] = 1
    m[9], m[10], m[11], m[12] = 100.0, 0.633, 1, np.arange(n)
    return m


def compare(ctx, s, what):
    r, v = s.real, s.view
    n = v.shape[1]
    ctx.require(isinstance(r, RaySet) and r.n_rays == n and np.shape(r) == (13, n), "a set has another type or size", after=what, shape=np.shape(r), want=n)
    ctx.require(np.array_equal(np.asarray(r), v), "the rows of a set are wrong", after=what, got=np.asarray(r), want=v)
    ctx.require(np.shape(r.rays) == (2, 4, n) and np.array_equal(r.rays, v[:8].reshape(2, 4, n)), "rays shows other values", after=what)
    ctx.require(np.array_equal(r.metadata, v[8:]), "metadata shows other values", after=what)
    for i, name in enumerate(NAMES):
        ctx.require(np.shape(getattr(r, name)) == (n,) and np.array_equal(getattr(r, name), v[8 + i]), name + " shows other values", after=what)
    ctx.count("field_reads", 8)
    for field, view, shape in s.held:
        ctx.require(np.array_equal(field, view.reshape(shape)), "a field taken earlier does not follow its set", after=what)
        ctx.count("held_fields")


def some(rng, n):
    """an index into n columns"""
    k = rng.integers(3)
    if k == 0 or n == 0:
        return slice(None)
    if k == 1:
        return int(rng.integers(-n, n))
    return rng.random(n) < 0.5


def values(rng, shape):
    return float(rng.integers(-9, 10)) if rng.random() < 0.3 else rng.uniform(-9, 9, shape).round(3)


def step(ctx, rng, sets):
    s = sets[rng.integers(len(sets))]
    r, v = s.real, s.view
    n = v.shape[1]
    k = rng.integers(14)
    if k == 13:  # one ray alone: a slice of one dimension
        if n == 0:
            return "nothing"
        c = int(rng.integers(-n, n))
        one = r[:, c] if rng.random() < 0.5 else r[..., c]
        i, x = int(rng.integers(5)), float(rng.integers(100))
        setattr(one, NAMES[i], x)
        v[8 + i, c] = x
        if rng.random() < 0.5:
            j = int(rng.integers(5))
            one.metadata[j] = 0.5
            v[8 + j, c] = 0.5
        if rng.random() < 0.5:
            a, b = int(rng.integers(2)), int(rng.integers(4))
            one.rays[a, b] = -2.5
            v[4 * a + b, c] = -2.5
        ctx.require(np.array_equal(one, v[:, c]) and np.array_equal(one.metadata, v[8:, c]) and np.array_equal(one.rays.reshape(8), v[:8, c])
                    and all(getattr(one, name) == v[8 + m, c] for m, name in enumerate(NAMES)), "one ray of a set shows other values than the set")
        ctx.count("single_rays")
        ctx.count("field_writes")
        return "one ray = ..."
    if k == 0:  # whole rays
        x = rng.normal(size=(2, 4, n))
        if rng.random() < 0.3:
            x = np.asfortranarray(x)
        r.rays = x
        v[:8] = x.reshape(8, n)
        ctx.count("field_writes")
        return "rays = ..."
    if k == 1:
        x = values(rng, (5, n))
        r.metadata = x
        v[8:] = x
        ctx.count("field_writes")
        return "metadata = ..."
    if k in (2, 3):
        i = int(rng.integers(5))
        x = values(rng, n)
        setattr(r, NAMES[i], x if rng.random() < 0.7 or np.isscalar(x) else list(x))
        v[8 + i] = x
        ctx.count("field_writes")
        return NAMES[i] + " = ..."
    if k == 4:  # through a field
        i, c = int(rng.integers(5)), some(rng, n)
        x = float(rng.integers(100))
        getattr(r, NAMES[i])[c] = x
        v[8 + i, c] = x
        ctx.count("element_writes")
        return NAMES[i] + "[...] = ..."
    if k == 5:  # through rays
        a, b, c = int(rng.integers(2)), int(rng.integers(4)), some(rng, n)
        x = float(rng.integers(100))
        how = rng.integers(3)
        if how == 0:
            r.rays[a, b, c] = x
            v[4 * a + b, c] = x
        elif how == 1:
            r.rays[a][b] = x
            v[4 * a + b] = x
        else:
            r.rays[a, ..., c] = x
            v[4 * a:4 * a + 4, c] = x
        ctx.count("element_writes")
        return "rays[...] = ..."
    if k == 6:
        i, c = int(rng.integers(5)), some(rng, n)
        r.metadata[i, c] = -3.0
        v[8 + i, c] = -3.0
        ctx.count("element_writes")
        return "metadata[...] = ..."
    if k == 7:
        i, c = int(rng.integers(13)), some(rng, n)
        r[i, c] = 0.25
        v[i, c] = 0.25
        ctx.count("raw_writes")
        return "set[...] = ..."
    if k == 8:
        how = rng.integers(4)
        if how == 0:
            r.rays[1] *= -2
            v[4:8] *= -2
        elif how == 1:
            r.generation += 1
            v[8] += 1
        elif how == 2:
            r.rays[0] += 0.5 * r.rays[1]
            v[:4] += 0.5 * v[4:8]
        else:
            r.intensity *= 0.5
            v[9] *= 0.5
        ctx.count("inplace")
        return "in place"
    if k == 9:
        a, b = sorted(rng.integers(0, n + 1, 2))
        st = int(rng.integers(1, 3))
        sets.append(Shadow(r[..., a:b:st] if rng.random() < 0.5 else r[:, a:b:st], v[:, a:b:st]))
        ctx.count("slices")
        return "slice"
    if k == 10:
        how = rng.integers(3)
        new = r.copy() if how == 0 else copy.copy(r) if how == 1 else copy.deepcopy(r)
        ctx.require(not np.shares_memory(new, r) or n == 0, "a copy shares memory with its original")
        sets.append(Shadow(new, v.copy()))
        ctx.count("copies")
        return "copy"
    if k == 11:
        m = rng.random(n) < 0.5
        if rng.random() < 0.5:
            sets.append(Shadow(r[..., m], v[:, m]))
        else:
            x = fresh(int(m.sum()))
            x[8:] = values(rng, x[8:].shape)
            new = RaySet(int(m.sum()))
            new.metadata = x[8:]
            r[..., m] = new
            v[:, m] = x
        ctx.count("masks")
        return "mask"
    parts = [sets[i] for i in rng.integers(len(sets), size=rng.integers(1, 4))]
    if sum(p.view.shape[1] for p in parts) > (200 if rng.random() < 0.95 else 4000):
        return "nothing"
    sets.append(Shadow(np.hstack([p.real for p in parts]).view(RaySet), np.hstack([p.view for p in parts])))
    ctx.count("stacked")
    return "hstack"


def case(ctx):
    rng = ctx.rng
    sets = []
    for _ in range(int(rng.integers(1, 4))):
        n = int(rng.choice([0, 1, 2, 5])) if rng.random() < 0.5 else int(rng.integers(2, 41)) if rng.random() < 0.95 else int(rng.integers(100, 3000))
        if rng.random() < 0.003:
            n = int(10 ** rng.uniform(4, 5.3))
            ctx.count("huge_sets")
        ctx.count("empty_sets", int(n == 0))
        ctx.count("single_sets", int(n == 1))
        sets.append(Shadow(RaySet(n), fresh(n)))
        compare(ctx, sets[-1], "creation")
    steps = int(rng.integers(10, 41)) if rng.random() < 0.97 else int(rng.integers(80, 200))
    log = []
    for _ in range(steps):
        log.append(step(ctx, rng, sets))
        ctx.count("steps")
        for s in sets:
            compare(ctx, s, log[-1])
        if rng.random() < 0.2:
            s = sets[rng.integers(len(sets))]
            if len(s.held) < 4:
                s.hold(rng)
        if len(sets) > 7:
            del sets[int(rng.integers(len(sets)))]
    if len(sets) >= 2 and sum("=" in x or x == "in place" for x in log) >= 5:
        ctx.observed((log, [s.view.tobytes() for s in sets]), dict(steps=log[:12], sizes=[s.view.shape[1] for s in sets]))
