"""C28: the quadratic root helpers return the true roots."""
import numpy as np

from tinygfx.g3d import operations as op

from mon.model import LD

RULE = """Batches of 1-60 coefficient columns: built from chosen roots (also zero, equal, huge or tiny ones, both signs), from random coefficients over twelve decades, with
zero and tiny leading coefficients of both signs, a quarter of them in other units or multiplied by a number, constant polynomials, and exact small integers; compared column by column with the roots in extended precision, within
the rounding error of the quadratic formula in double precision. Columns whose discriminant or root is within rounding of zero are judged loosely. Non-trivial: at least
three kinds of columns in the batch."""
QUICK, THOROUGH = 3000, 150000
MINIMA = dict(columns=25000, two_roots=8000, no_roots=2800, negative_leading=8000, linear=1500, constant=300, tiny_leading=1500, zero_root=800, smallest=15000, exact=1500)
EPS = 2.3e-16


def column(rng):
    """-> a, b, c, kind"""
    k = rng.integers(10)
    mag = lambda lo=-6, hi=6: float(10.0 ** rng.uniform(lo, hi)) * (-1, 1)[rng.integers(2)]
    if k <= 1:  # from roots
        a, r1, r2 = mag(-3, 3), mag(-4, 4), mag(-4, 4)
        if rng.random() < 0.3:
            r2 = (r1, 0.0, -r1)[rng.integers(3)]
        return a, -a * (r1 + r2), a * r1 * r2, "roots"
    if k == 2:
        a, b, c = (int(v) for v in rng.integers(-6, 7, 3))
        return float(a), float(b), float(c), "integers"
    if k == 3:
        return mag(-14, -8), mag(-3, 3), mag(-3, 3), "tiny"
    if k == 4:
        wide = (-6, 6) if rng.random() < 0.7 else (-15, 15)
        return (0.0, -0.0)[rng.integers(2)], mag(*wide), mag(*wide), "linear"
    if k == 5:
        return 0.0, 0.0, float(rng.choice([1.0, -1.0, 0.0, 3e-5, -2e4])), "constant"
    if k == 6:  # root at zero
        return mag(-3, 3), mag(-3, 3), 0.0, "zero_root"
    if k == 7:  # no b
        return mag(-3, 3), 0.0, mag(-3, 3), "even"
    if k == 8:  # (x - p)(x - q) with small integer roots: exact arithmetic
        a, p, q = float(rng.integers(1, 5)) * (-1, 1)[rng.integers(2)], float(rng.integers(-9, 10)), float(rng.integers(-9, 10))
        return a, -a * (p + q), a * p * q, "exact"
    return mag(), mag(), mag(), "random"


def in_unit(rng, a, b, c, kind):
    """the same equation multiplied by a number, or for x in another unit (powers of two: no digit changes)"""
    if rng.random() < 0.25:
        m, u = 2.0 ** int(rng.integers(-45, 46)), 2.0 ** int(rng.integers(-30, 31))
        a, b, c = a * m * u * u, b * m * u, c * m
    return a, b, c, kind


def case(ctx):
    rng = ctx.rng
    n = 1 if rng.random() < 0.15 else int(rng.integers(2, 60)) if rng.random() < 0.995 else int(rng.integers(1000, 9000))
    cols = [in_unit(rng, *column(rng)) for _ in range(n)]
    a, b, c = (np.array([x[i] for x in cols]) for i in range(3))
    keep = a.copy(), b.copy(), c.copy()
    if rng.random() < 0.3:
        for v in (a, b, c):
            v.flags.writeable = False
    disc_given = rng.random() < 0.3
    both = op.binomial_root(a, b, c, b ** 2 - 4 * a * c) if disc_given else op.binomial_root(a, b, c)
    quad = a != 0
    small = op.smallest_positive_root(a, b, c)
    ctx.require(all(np.array_equal(x, y) for x, y in zip((a, b, c), keep)), "the coefficients are changed")
    ctx.require(np.shape(both) == (2, n) and np.shape(small) == (n,), "wrong shape", both=np.shape(both), smallest=np.shape(small))
    ctx.require(not np.isnan(both).any() and not np.isnan(small[quad]).any(), "a root is not a number", a=a, b=b, c=c)
    A, B, C = a.astype(LD), b.astype(LD), c.astype(LD)
    D = B * B - 4 * A * C
    allowed = np.full(n, 0.0)  # how far two computations of a column may differ; nan: not judged
    noise = EPS * 8 * (b * b + np.abs(4 * a * c))
    for i in range(n):
        kind = cols[i][3]
        info = dict(a=a[i], b=b[i], c=c[i], got=both[:, i], smallest=small[i])
        ctx.count("columns")
        if kind in ("exact", "tiny", "zero_root", "constant"):
            ctx.count({"tiny": "tiny_leading"}.get(kind, kind))
        if a[i] == 0:
            if b[i] == 0:
                ctx.require(np.isinf(both[:, i]).all(), "a polynomial without roots has a finite one", **info)
            else:
                want = float(-C[i] / B[i])
                got = both[:, i][np.isfinite(both[:, i])]
                ctx.require(len(got) and (np.abs(got - want) <= 4 * EPS * abs(want)).all(), "not the root of the linear equation", want=want, **info)
                ctx.count("linear")
                allowed[i] = 4 * EPS * abs(want)
            continue
        ctx.count("negative_leading", int(a[i] < 0))
        d = float(D[i])
        if d < -noise[i]:
            ctx.require(np.isposinf(both[:, i]).all(), "an equation without real roots has one", **info)
            ctx.require(np.isposinf(small[i]), "an equation without real roots has a smallest positive one", **info)
            ctx.count("no_roots")
            continue
        s = np.sqrt(max(D[i], LD(0)))
        roots = sorted([float((-B[i] + s) / (2 * A[i])), float((-B[i] - s) / (2 * A[i]))])
        loose = d < noise[i] * 4 and d != 0
        err = (8 * EPS * (abs(b[i]) + float(s)) + (noise[i] / float(s) if s > 0 else np.sqrt(noise[i]) * (d != 0 or noise[i] > 0 and not float(D[i]) == b[i] ** 2 - 4 * a[i] * c[i]))) / (2 * abs(a[i]))
        if loose:
            err = 4 * np.sqrt(noise[i]) / (2 * abs(a[i])) + err
        err += 1e-300
        allowed[i] = np.nan if loose or s == 0 else 2 * err
        got = np.sort(both[:, i])
        if not (loose and np.isinf(got).all()):
            ctx.require((np.abs(got - roots) <= err).all(), "not the two real roots", want=roots, error=err, **info)
        ctx.count("two_roots")
        # smallest non-negative: a root within rounding of zero may count or not
        if c[i] == 0 and b[i] != 0:
            sure = True  # one root is exactly zero and computed exactly
            want = 0.0
        elif any(0 < abs(r) <= err for r in roots) or loose:
            ctx.count("close_calls")
            ok = [r for r in roots if r >= -err] + [np.inf]
            ctx.require(any(abs(small[i] - r) <= err or (np.isinf(r) and np.isinf(small[i])) for r in ok), "not a non-negative root", want=roots, error=err, **info)
            continue
        else:
            want = min([r for r in roots if r >= 0], default=np.inf)
        ctx.require(small[i] == want if np.isinf(want) else abs(small[i] - want) <= err, "not the smallest non-negative root", want=want, error=err, **info)
        ctx.count("smallest")
    # columns do not depend on each other
    sel = rng.permutation(n)[: rng.integers(1, n + 1)]
    q = sel[quad[sel]]
    for name, cols_, x, y in (("binomial_root()", sel, op.binomial_root(a[sel], b[sel], c[sel]), both[:, sel]), ("smallest_positive_root()", q, op.smallest_positive_root(a[q], b[q], c[q]), small[q])):
        with np.errstate(all="ignore"):
            same = (x == y) | (np.abs(x - y) <= allowed[cols_]) | np.isnan(allowed[cols_])
            if name.startswith("small"):  # a root within rounding of zero may fall on either side
                same |= np.abs(np.minimum(x, y)) <= allowed[cols_]
        ctx.require(same.all(), name + ": a column depends on the others", a=a, b=b, c=c, columns=cols_)
    if len({x[3] for x in cols}) >= 3:
        ctx.observed((a.tobytes(), b.tobytes(), c.tobytes()), dict(a=a[:5], b=b[:5], c=c[:5], roots=both[:, :5], smallest=small[:5]))
