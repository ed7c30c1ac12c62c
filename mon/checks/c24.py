"""C24: wavelength colours follow the piecewise-linear spectrum."""
import numpy as np

from pyrayt import utils

RULE = """Random floats, integers, lists, tuples and arrays of wavelengths (inside the zones, at the zone limits, one rounding step beside them, far outside the visible
range, repeated, unsorted; one batch in a hundred of up to 20000) with the default or a random gamma; every row is compared with a scalar formula of the documented spectrum, and pairs straddling each zone
limit with one another. Non-trivial: the batch meets at least three zones."""
QUICK, THOROUGH = 3000, 150000
MINIMA = dict(colours=11000, scalars=130, clipped=2800, at_limits=1500, continuity=6000, zones=3, large=8)
LIMITS = (0.38, 0.44, 0.49, 0.51, 0.58, 0.645, 0.75)


def colour(w, gamma):
    w = min(max(float(w), 0.38), 0.75)
    r = g = b = 0.0
    if w < 0.44:
        att = 0.3 + 0.7 * (w - 0.38) / 0.06
        r, b = (0.44 - w) / 0.06 * att, att
    elif w < 0.49:
        g, b = (w - 0.44) / 0.05, 1.0
    elif w < 0.51:
        g, b = 1.0, (0.51 - w) / 0.02
    elif w < 0.58:
        r, g = (w - 0.51) / 0.07, 1.0
    elif w < 0.645:
        r, g = 1.0, (0.645 - w) / 0.065
    else:
        r = 0.3 + 0.7 * (0.75 - w) / 0.105
    return [abs(v) ** gamma for v in (r, g, b)]


def case(ctx):
    rng = ctx.rng
    n = 1 if rng.random() < 0.25 else int(rng.integers(2, 30))
    if rng.random() < 0.01:
        n = int(10 ** rng.uniform(1.5, 4.3))
        ctx.count("large")
    w = rng.uniform(0.36, 0.78, n)
    k = rng.random(n)
    lim = rng.choice(LIMITS, n)
    w = np.where(k < 0.12, lim, w)
    w = np.where((k >= 0.12) & (k < 0.2), np.nextafter(lim, rng.choice([0, 1], n)), w)
    w = np.where((k >= 0.2) & (k < 0.25), lim + rng.normal(size=n) * 1e-9, w)
    w = np.where((k >= 0.25) & (k < 0.4), rng.choice([0.01, 0.1, 0.2, 0.3, 0.379, 0.751, 0.8, 1, 1.55, 2, 10], n), w)
    ctx.count("at_limits", int((k < 0.2).sum()))
    ctx.count("clipped", int(((w < 0.38) | (w > 0.75)).sum()))
    if rng.random() < 0.3 and n > 3:
        w[rng.integers(n)] = w[0]
    gamma = 0.8 if rng.random() < 0.5 else float(rng.uniform(0.2, 3))
    form = rng.integers(5)
    if n == 1 and form < 3:
        arg = (float(w[0]), np.float64(w[0]), w.copy())[form]
        if rng.random() < 0.1:
            arg = int(rng.integers(1, 3))
            w = np.array([float(arg)])
        ctx.count("scalars")
    else:
        arg = (w.copy(), list(map(float, w)), tuple(map(float, w)), np.repeat(w, 2)[::2], w.copy())[form]
    if isinstance(arg, np.ndarray) and rng.random() < 0.5:
        arg.flags.writeable = False
    default = gamma == 0.8 and rng.random() < 0.7
    got = utils.wavelength_to_rgb(arg) if default else utils.wavelength_to_rgb(arg, gamma) if rng.random() < 0.5 else utils.wavelength_to_rgb(arg, gamma=gamma)
    ctx.require(np.shape(got) == (n, 3), "not one RGB row per wavelength", n=n, shape=np.shape(got), argument=type(arg).__name__)
    got = np.asarray(got, float)
    ctx.require((got >= 0).all() and (got <= 1 + 1e-12).all(), "a colour value is outside 0..1", wavelengths=w, colours=got)
    want = np.array([colour(x, gamma) for x in w])
    # at zone limits a value of nearly zero raised to a small gamma is sensitive to rounding
    tol = 1e-9 + (3e-15) ** gamma * (np.minimum(got, want) < 1e-2)
    bad = np.abs(got - want) > tol
    ctx.require(not bad.any(), "a colour is not the one of the piecewise-linear spectrum", wavelength=w[bad.any(1)][:2], got=got[bad.any(1)][:2], want=want[bad.any(1)][:2], gamma=gamma)
    if isinstance(arg, np.ndarray):
        ctx.require(np.array_equal(np.asarray(arg).ravel(), w), "the wavelengths are changed")
    # continuity across the limits
    L = np.array(LIMITS)
    e = 1e-13
    a, b, m = (np.asarray(utils.wavelength_to_rgb(L + s, gamma)) for s in (-e, e, 0.0))
    jump = np.maximum(np.abs(a - b), np.abs(a - m))
    ctx.require((jump <= 1e-9 + (1e-11) ** gamma * (np.minimum(np.minimum(a, b), m) < 0.05)).all(), "the spectrum jumps at a zone limit", limits=L, jump=jump, gamma=gamma)
    ctx.count("continuity", len(L))
    ctx.count("colours", n)
    zones = len(set(np.searchsorted(LIMITS, w)))
    ctx.counts["zones"] = max(ctx.counts.get("zones", 0), zones)
    if zones >= 3:
        ctx.observed((w.tobytes(), gamma), dict(wavelengths=w[:6], gamma=gamma, colours=got[:6]))
