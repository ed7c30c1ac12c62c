"""C21: glass index models follow their published formulas."""
import numpy as np

import pyrayt
import pyrayt.materials as matl

from mon import gen, trace
from mon.model import LD

RULE = """Histories over many glasses alive at once (catalogue, constant, random Sellmeier coefficients with zeros among them, user-defined subclasses of Glass): index_at()
is asked with floats, integers, arrays of any shape and of integers, strided, read-only and empty ones and columns of a RaySet, abbe() repeatedly and in between changes of the coefficients;
every answer is compared with the formula in extended precision. Non-trivial: a dispersive glass was sampled away from its resonances."""
QUICK, THOROUGH = 900, 40000
MINIMA = dict(values=45000, scalars=900, arrays=2000, abbe=700, catalogue=300, coefficient_changes=150, subclass=120)
CATALOGUE = {"ideal": (1.5, None), "BK7": (1.51680, 64.17), "SF5": (1.67270, 32.21), "SF2": (1.64769, 33.85)}


class Cauchy(matl.Glass):
    """a user-defined glass"""

    def __init__(self, a, b):
        super().__init__()
        self.a, self.b, self.asked = a, b, 0

    def index_at(self, wavelength):
        self.asked += 1
        return self.a + self.b / wavelength ** 2


def make(rng):
    """-> [glass, formula(LD wavelengths) -> LD, dispersive, coefficients]"""
    k = rng.integers(8)
    if k == 0:
        v = float(rng.uniform(1, 3)) if rng.random() < 0.7 else int(rng.integers(1, 4))
        return [matl.BasicRefractor(v) if rng.random() < 0.5 else matl.BasicRefractor(refractive_index=v), lambda w: np.full(np.shape(w), LD(v)), False, None]
    if k == 1:
        a, b = float(rng.uniform(1.2, 2)), float(rng.uniform(0.001, 0.02))
        return [Cauchy(a, b), lambda w: LD(a) + LD(b) / np.asarray(w, LD) ** 2, True, None]
    if k in (2, 3):
        name = ("BK7", "SF5", "SF2")[rng.integers(3)]
        c = trace.SELLMEIER[name]
        return [matl.glass[name], lambda w: trace.sellmeier(c, w), True, None]
    c = [float(v) for v in (rng.uniform(0.3, 1.6), rng.uniform(0, 0.3), rng.uniform(0, 1.5), rng.uniform(0, 0.02), rng.uniform(0, 0.06), rng.uniform(80, 150))]
    for i in range(1, 6):
        if rng.random() < 0.15:
            c[i] = 0.0
    if rng.random() < 0.3:
        n = int(rng.integers(1, 7))
        c = c[:n] + [0.0] * (6 - n)
        glass = matl.SellmeierRefractor(*c[:n])
    elif rng.random() < 0.5:
        glass = matl.SellmeierRefractor(**{k: v for k, v in zip(("b1", "b2", "b3", "c1", "c2", "c3"), c) if v or rng.random() < 0.5})
    else:
        glass = matl.SellmeierRefractor(*c)
    return [glass, lambda w: trace.sellmeier(c, w), True, c]


def fine(glass, w):
    """wavelengths in the domain of the formula, away from the resonances"""
    w = np.asarray(w, float)
    c = glass[3]
    ok = np.ones(w.shape, bool)
    for v in [] if c is None else c[3:]:
        ok &= np.abs(w * w - v) > 1e-3 * (w * w + v)
    with np.errstate(all="ignore"):
        n2 = glass[1](w) ** 2
    return ok & (n2 > 0.01) & (n2 < 100)


def wavelengths(ctx):
    rng = ctx.rng
    k = rng.integers(12)
    hi = 2.5 if rng.random() < 0.7 else 40
    draw = lambda *s: rng.uniform(0.25, hi, s)
    if k == 0:
        return draw(*rng.integers(1, 6, rng.integers(1, 4)))
    if k == 1:
        w = draw(int(rng.integers(1, 60)))
        w.flags.writeable = False
        return w
    if k == 2:
        return draw(60)[:: int(rng.integers(2, 5))]
    if k == 3:
        return np.full(int(rng.integers(1, 30)), 0.633)
    if k == 4:
        rs = pyrayt.RaySet(int(rng.integers(1, 20)))
        rs.wavelength = draw(rs.n_rays if hasattr(rs, "n_rays") else rs.shape[-1])
        return rs.wavelength
    if k == 5:
        return np.array(float(draw(1)[0]))
    if k == 6:
        return np.zeros(0)
    if k == 8:
        return rng.integers(1, 3, int(rng.integers(1, 12))).astype((np.int64, np.int32, np.uint8)[rng.integers(3)])
    if k == 9:
        return np.asfortranarray(draw(int(rng.integers(1, 5)), int(rng.integers(1, 5))))
    if k == 10:
        return np.array([1, 2])[rng.integers(2)] * np.ones((), int)
    if k == 7:
        return np.sort(draw(100))
    return draw(1)


def close(got, want):
    return np.abs(np.asarray(got, float) - np.asarray(want, float)) <= 1e-12 * 50 * (1 + np.abs(np.asarray(want, float)))


def check_abbe(ctx, glass):
    n = [float(glass[1](np.array([w]))[0]) for w in (0.4861, 0.5893, 0.6563)]
    if not fine(glass, [0.4861, 0.5893, 0.6563]).all() or abs(n[0] - n[2]) < 1e-6:
        return
    want = (n[1] - 1) / (n[0] - n[2])
    got = glass[0].abbe()
    ctx.require(np.ndim(got) == 0 and abs(float(got) - want) <= 1e-10 * abs(want) / abs(n[0] - n[2]), "abbe() is not (nD-1)/(nF-nC) of this glass", got=got, want=want, coefficients=glass[3])
    ctx.count("abbe")


def case(ctx):
    rng = ctx.rng
    glasses = [make(rng) for _ in range(rng.integers(1, 12))]
    dispersive = False
    for _ in range(rng.integers(8, 25)):
        g = glasses[rng.integers(len(glasses))]
        k = rng.integers(10)
        if k == 0:
            glasses.append(make(rng))
        elif k == 1 and g[3] is not None:
            i = int(rng.integers(6))
            v = float(g[3][i] * rng.uniform(0.8, 1.2))
            g[3][i] = v
            setattr(g[0], ("b1", "b2", "b3", "c1", "c2", "c3")[i], v)
            ctx.count("coefficient_changes")
        elif k in (2, 3):
            if g[2]:
                check_abbe(ctx, g)
        elif k in (4, 5):
            w = float(rng.uniform(0.25, 2.5) if rng.random() < 0.7 else rng.uniform(2.5, 40)) if rng.random() < 0.8 else (np.float64(0.633), 1, 2)[rng.integers(3)]
            if not fine(g, w):
                continue
            got = g[0].index_at(w)
            ctx.require(np.ndim(got) == 0 and not isinstance(got, np.ndarray), "the index at one wavelength is not a number", wavelength=w, got=repr(got))
            ctx.require(close(got, g[1](np.array([w]))[0]).all(), "index_at() is not the value of its formula", wavelength=w, got=float(got), want=float(g[1](np.array([w]))[0]), coefficients=g[3])
            ctx.count("scalars")
            ctx.count("values")
        else:
            w = wavelengths(ctx)
            was = np.array(w)
            ok = fine(g, was)
            got = g[0].index_at(w)
            ctx.require(np.shape(got) == np.shape(w), "index_at() answers in another shape", wavelengths=np.shape(w), got=np.shape(got))
            ctx.require(np.array_equal(np.asarray(w), was), "index_at() changes its argument")
            ctx.require(not np.shares_memory(np.asarray(got), np.asarray(w)), "index_at() hands back its argument")
            want = g[1](was)
            bad = ~close(got, want) & ok
            ctx.require(not bad.any(), "index_at() is not the value of its formula", wavelength=was[bad][:3], got=np.asarray(got)[bad][:3], want=np.asarray(want)[bad][:3], coefficients=g[3])
            if isinstance(got, np.ndarray) and got.size and got.flags.writeable:  # overwriting an answer changes no later one
                got[...] = -1
                ctx.require(close(g[0].index_at(w), want)[ok].all(), "an answer of index_at() shares memory with the glass")
            ctx.count("arrays")
            ctx.count("values", was.size)
            dispersive |= g[2] and bool(ok.any())
        ctx.count("subclass", int(isinstance(g[0], Cauchy)))
    name = list(CATALOGUE)[rng.integers(4)]
    nd, v = CATALOGUE[name]
    ctx.require(abs(float(matl.glass[name].index_at(0.5876)) - nd) < 2e-5, "a catalogue glass does not have its published index", glass=name, got=float(matl.glass[name].index_at(0.5876)), want=nd)
    if v:
        ctx.require(abs(matl.glass[name].abbe() - v) < 0.15, "a catalogue glass does not have its published dispersion", glass=name, got=matl.glass[name].abbe(), want=v)
    ctx.count("catalogue")
    if dispersive:
        ctx.observed(tuple(map(str, (g[3] for g in glasses))), dict(glasses=len(glasses), coefficients=[g[3] for g in glasses][:3]))
