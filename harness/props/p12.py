"""P12: wavelet transform against direct-space convolution."""
import numpy as np
import astropy.units as u
from scipy.ndimage import convolve1d
from scipy.signal import convolve2d
from ..core import plain
from .. import gen
from .p08 import wls
from .p09 import broken

ID = "P12"
RULE = ("One evaluation = one transform curve, convolved map, fit or distance "
        "compared with direct-space convolution by an independently built "
        "Mexican-hat kernel, an independent regression, or the curve of a "
        "transformed image; distinct = different (clause, content).")


def hat(a):
    n = int(np.ceil(8 * a))
    n += 1 - n % 2
    r = np.arange(n) - n // 2
    q = (r[:, None]**2 + r[None, :]**2) / (2. * a**2)
    return (1 - q) * np.exp(-q) / (np.pi * a**4)


def reference(img, a, norm=True):
    d = np.nan_to_num(img)
    k = hat(a)
    p = k.shape[0]
    if d.size * k.size > 3e6:
        # a sum of three products of 1D kernels
        r = np.arange(p) - p // 2
        g = np.exp(-r**2 / (2. * a**2))
        h = g * r**2 / (2. * a**2)

        def two(ky, kx):
            b = convolve1d(d, ky, axis=0, mode="constant")
            return convolve1d(b, kx, axis=1, mode="constant")

        c = (two(g, g) - two(h, g) - two(g, h)) / (np.pi * a**4)
    else:
        c = convolve2d(np.pad(d, p), k, mode="same")[p:-p, p:-p]
    return c * a**(2 if norm else 4)


def summary(c, a):
    pos = c[c > 0]
    area = int(np.ceil(0.5 * np.pi * np.log(2) * a**2))
    return pos.mean(), pos.std() / np.sqrt(c.size // area)


def near_zero(c):
    return np.sum(np.abs(c) < 1e-10 * np.abs(c).max())


def scaleset(rng, shape, n=4):
    # off the eighths, where the kernel's support size jumps
    return np.sort(np.round(rng.uniform(1.1, min(shape) / 2. - .3, n), 2)) \
        + 1.7e-3


def f_value(sc, mon):
    from turbustat.statistics import Wavelet
    rng = gen.rng_of(sc["name"], sc["seed"])
    shape = tuple(sc["shape"])
    img = gen.punch(rng, gen.image(rng, shape, sc["kind"]), sc["nan"])
    pix = 10**rng.uniform(-4, -2)
    sc_pix = scaleset(rng, shape)
    q = {"pix": sc_pix * u.pix, "deg": sc_pix * pix * u.deg,
         "arcsec": (sc_pix * pix * u.deg).to(u.arcsec),
         "pc": sc_pix * np.deg2rad(pix) * 300 * u.pc}[sc["unit"]]
    w = Wavelet(img.copy(), header=gen.header2d(shape, pix=pix), scales=q,
                distance=300 * u.pc)
    kw = dict(sc["fft"], show_progress=False)
    norm = sc["norm"]
    if sc["via"] == "steps":
        w.compute_transform(scale_normalization=norm,
                            keep_convolved_arrays=True, **kw)
    else:
        w.run(scale_normalization=norm, **kw)
    want, sd, amb = [], [], 0
    for i, a in enumerate(sc_pix):
        c = reference(img, a, norm)
        v, s = summary(c, a)
        amb += near_zero(c)
        want.append(v)
        sd.append(s)
        if sc["via"] == "steps":
            mon.close("transform-map", w.Wf[i], c, rtol=1e-5, floor=1e-8,
                      scale=a)
    if amb:
        mon.skip("pixels numerically at zero")
    else:
        mon.close("transform", w.values, want, rtol=1e-5)
        mon.close("transform-deviation", w.stddev, sd, rtol=1e-5)


def f_sym(sc, mon):
    from turbustat.statistics import Wavelet
    rng = gen.rng_of(sc["name"], sc["seed"])
    shape = tuple(sc["shape"])
    img = gen.punch(rng, gen.image(rng, shape, sc["kind"]), sc["nan"])
    scales = scaleset(rng, shape, 6) * u.pix

    def run(im):
        return Wavelet(im.copy(), header=gen.header2d(im.shape),
                       scales=scales).run(show_progress=False)
    if any(near_zero(reference(img, a)) for a in plain(scales)):
        mon.skip("pixels numerically at zero")
        return
    base = run(img)
    f = gen.factor(rng)
    d = run(img * f)
    mon.close("factor", d.values, base.values * f, rtol=1e-6)
    mon.close("factor-slope", d.slope, base.slope, rtol=1e-5, atol=1e-7)
    for name, op in (("flip-rows", lambda a: a[::-1]),
                     ("flip-columns", lambda a: a[:, ::-1]),
                     ("transpose", lambda a: a.T),
                     ("rotate", lambda a: np.rot90(a))):
        d = run(op(img))
        mon.close(name, d.values, base.values, rtol=1e-6)
        mon.close(name + "-slope", d.slope, base.slope, rtol=1e-5, atol=1e-7)
    # missing pixels count as zero
    d = run(np.nan_to_num(img))
    mon.close("missing-is-zero", d.values, base.values, rtol=1e-9)
    # one scale at a time
    i = int(rng.integers(len(scales)))
    d = Wavelet(img, header=gen.header2d(shape), scales=scales[i:i + 1])
    d.compute_transform(show_progress=False)
    mon.close("scale-alone", d.values, base.values[i:i + 1], rtol=1e-9)


def f_fit(sc, mon):
    from turbustat.statistics import Wavelet
    rng = gen.rng_of(sc["name"], sc["seed"])
    shape = tuple(sc["shape"])
    img = gen.image(rng, shape, sc["kind"])
    pix = 10**rng.uniform(-4, -2)
    w = Wavelet(img, header=gen.header2d(shape, pix=pix), num=sc["num"],
                distance=250 * u.pc)
    m = min(shape)
    x = np.logspace(np.log10(1.667), np.log10(m / 2.), sc["num"])
    mon.close("default-scales", plain(w.scales), x, rtol=1e-9)
    lo = hi = None
    unit = sc["unit"]

    def conv(v):
        return {"pix": v * u.pix, "deg": v * pix * u.deg,
                "pc": v * np.deg2rad(pix) * 250 * u.pc}[unit]
    o = {}
    if sc["cuts"] in ("low", "both"):
        lo = round(float(rng.uniform(2., 4.)), 4) + 1.3e-5
        o["xlow"] = conv(lo)
    if sc["cuts"] in ("high", "both"):
        hi = round(float(rng.uniform(m * .3, m * .48)), 4) + 1.3e-5
        o["xhigh"] = conv(hi)
    fk = dict(weighted_fit=sc["weighted"])
    w.run(show_progress=False, fit_kwargs=fk, **o)
    y = w.values
    s = np.isfinite(y)
    wt = np.ones_like(x)
    if sc["weighted"]:
        wt = (0.434 * w.stddev / y)**-2
        s &= np.isfinite(wt)
    if lo is not None:
        s &= x >= lo
    if hi is not None:
        s &= x <= hi
    if s.sum() < 4:
        mon.skip("too few scales")
        return
    b, c, e = wls(np.log10(x[s]), np.log10(y[s]), wt[s])
    mon.close("slope", w.slope, b, rtol=1e-6, atol=1e-9)
    mon.close("slope-error", w.slope_err, e, rtol=1e-5)
    mon.ok("no-break", w.brk is None)
    mon.close("model", w.fitted_model(np.log10(x)), c + b * np.log10(x),
              rtol=1e-6, atol=1e-7)
    mon.close("fit-range", [plain(v) for v in w.fit_range],
              [x.min() * .99 if lo is None else lo,
               x.max() * 1.01 if hi is None else hi], rtol=1e-6)
    w.fit_transform(xlow=x[3] * .999 * u.pix, xhigh=x[-4] * 1.001 * u.pix)
    s = slice(3, -3)
    b, c, e = wls(np.log10(x[s]), np.log10(y[s]))
    mon.close("slope-refit", w.slope, b, rtol=1e-6, atol=1e-9)
    w.fit_transform(xlow=x[3] * .999 * u.pix, xhigh=x[-4] * 1.001 * u.pix,
                    bootstrap=True)
    mon.close("slope-bootstrap", w.slope, b, rtol=1e-6, atol=1e-9)
    mon.ok("slope-error-bootstrap", .2 * e < w.slope_err < 5 * e,
           observed=float(w.slope_err), hc3=e)


def f_break(sc, mon):
    from turbustat.statistics import Wavelet
    rng = gen.rng_of(sc["name"], sc["seed"])
    shape = (64, 64)
    w = Wavelet(gen.image(rng, shape, "plaw"), header=gen.header2d(shape))
    w.compute_transform(show_progress=False)
    x = plain(w.scales)
    s1, s2 = rng.uniform(.4, 2.5), rng.uniform(-1.5, .1)
    b = rng.uniform(6., 14.)
    y = np.where(x < b, (x / b)**s1, (x / b)**s2) * rng.uniform(.1, 10)
    w._values = y
    if not np.array_equal(w.values, y):
        mon.skip("curve cannot be injected")
        return
    w.fit_transform(brk=float(b * rng.uniform(.8, 1.25)) * u.pix,
                    h_step=1.0, verbose=False)
    if w.brk is None:
        mon.skip("segmented fit reverted")
        return
    mon.close("break", w.brk.to(u.pix).value, b, rtol=1e-3)
    mon.close("break-slopes", w.slope, [s1, s2], rtol=1e-3, atol=1e-3)
    # with scatter: everything follows from least squares at that break
    y = y * 10**(.02 * rng.standard_normal(len(x)))
    w._values = y
    w._stddev = y * rng.uniform(.1, .5, len(x))
    if not np.array_equal(w.stddev, w._stddev):
        mon.skip("deviations cannot be injected")
        return
    lo = rng.integers(0, 3)
    for wt in (False, True):
        q = (.434 * w.stddev / y)[lo:]**-2 if wt else None
        for boot in (False, True):
            w.fit_transform(bootstrap=boot, bootstrap_kwargs=dict(nboot=300),
                            weighted_fit=wt, brk=float(b) * u.pix, h_step=1.0,
                            xlow=x[lo] * .999 * u.pix, verbose=False)
            if w.brk is None:
                mon.skip("segmented fit reverted")
                continue
            bp = w.brk.to(u.pix).value
            broken(mon, "broken-fit", np.log10(x[lo:]), np.log10(y[lo:]),
                   np.log10(bp), w.slope, w.slope_err,
                   w.brk_err.to(u.pix).value / bp / np.log(10), q, boot)
    w._values = x**s1
    w.fit_transform(brk=float(b) * u.pix, verbose=False)
    mon.close("line-slope", np.atleast_1d(w.slope), s1 + 0 * np.atleast_1d(
        w.slope), rtol=1e-6)
    if w.brk is None:
        mon.ok("line-no-break-error", w.brk_err is None)
    mon.raises("break-outside", ValueError, w.fit_transform, brk=200 * u.pix)


def f_distance(sc, mon):
    from turbustat.statistics import Wavelet, Wavelet_Distance
    rng = gen.rng_of(sc["name"], sc["seed"])
    sh1, sh2 = tuple(sc["shape"]), tuple(sc["shape2"])
    a, b = gen.image(rng, sh1, sc["kind"]), gen.image(rng, sh2, "lognorm")
    h1, h2 = gen.header2d(sh1), gen.header2d(sh2)
    o = {}
    num = int(rng.integers(12, 40))
    kw1, kw2 = {}, {}
    if sc["j"] % 3 == 1:
        o["xlow"] = [2., 3.] * u.pix
        o["xhigh"] = [9., 11.] * u.pix
        kw1 = dict(xlow=2. * u.pix, xhigh=9 * u.pix)
        kw2 = dict(xlow=3. * u.pix, xhigh=11 * u.pix)
    if sc["j"] % 3 == 2:
        o["xlow"] = 2.5 * u.pix
        kw1 = kw2 = dict(xlow=2.5 * u.pix)
    fk = dict(show_progress=False)
    d = Wavelet_Distance((a, h1), (b, h2), num=num, fit_kwargs=fk, **o)
    d.distance_metric()
    r1 = Wavelet(a, header=h1, num=num).run(**dict(fk, **kw1))
    r2 = Wavelet(b, header=h2, num=num).run(**dict(fk, **kw2))
    mon.ok("distance-scales", len(d.wt1.scales) == num and
           len(d.wt2.scales) == num, observed=[len(d.wt1.scales), num])
    want = abs(r1.slope - r2.slope) / np.hypot(r1.slope_err, r2.slope_err)
    mon.close("distance", d.distance, want, rtol=1e-8)
    d2 = Wavelet_Distance(r1, r2).distance_metric()
    mon.close("distance-precomputed", d2.distance, want, rtol=1e-10)
    d3 = Wavelet_Distance((b, h2), (a, h1), num=num, fit_kwargs=fk,
                          **{k: (v[::-1] if v.size > 1 else v)
                             for k, v in o.items()}).distance_metric()
    mon.close("distance-order", d3.distance, want, rtol=1e-8)


def f_reject(sc, mon):
    from turbustat.statistics import Wavelet
    rng = gen.rng_of(sc["name"], sc["seed"])
    img = gen.image(rng, (24, 30), "plaw")
    h = gen.header2d((24, 30))
    mon.raises("scale-too-small", ValueError, Wavelet, img, header=h,
               scales=[.5, 3] * u.pix)
    mon.raises("scale-too-large", ValueError, Wavelet, img, header=h,
               scales=[3, 14] * u.pix)
    mon.raises("scale-without-unit", TypeError, Wavelet, img, header=h,
               scales=[3, 4])


FNS = {"value": f_value, "sym": f_sym, "fit": f_fit, "break": f_break,
       "distance": f_distance, "reject": f_reject}


def scenarios(tier, seed):
    rng = gen.rng_of("P12", seed, tier)
    k = 3 if tier == "quick" else 24
    out = [dict(name="reject", fn="reject", seed=seed)]
    ffts = [{}, dict(use_pyfftw=True), dict(use_pyfftw=True, threads=2)]
    n = 0
    for nan in gen.NAN_PATTERNS:
        for unit in ("pix", "deg", "arcsec", "pc"):
            for j in range(k):
                out.append(dict(
                    name="value-%s-%s-%d" % (nan, unit, j), fn="value",
                    seed=seed, nan=nan, unit=unit, fft=ffts[n % 3],
                    kind=gen.IMAGE_KINDS[int(rng.integers(9))],
                    norm=bool(n % 4), via=["steps", "run"][int(
                        rng.integers(2))],
                    shape=gen.shapes2d(rng, 14, 40)))
                n += 1
        for j in range(k):
            out.append(dict(name="sym-%s-%d" % (nan, j), fn="sym", seed=seed,
                            nan=nan, kind=["plaw", "white", "lognorm",
                                           "positive", "blobs"][n % 5],
                            shape=gen.shapes2d(rng, 20, 44)))
            n += 1
    for cuts in ("none", "low", "high", "both"):
        for unit in ("pix", "deg", "pc"):
            for j in range(k):
                out.append(dict(name="fit-%s-%s-%d" % (cuts, unit, j),
                                fn="fit", seed=seed, cuts=cuts, unit=unit,
                                kind=["plaw", "lognorm"][j % 2],
                                weighted=bool(int(rng.integers(2))),
                                num=int(rng.integers(16, 40)),
                                shape=gen.shapes2d(rng, 30, 56)))
    for j in range(4 * k):
        out.append(dict(name="break-%d" % j, fn="break", seed=seed))
        out.append(dict(name="distance-%d" % j, fn="distance", seed=seed, j=j,
                        kind=["plaw", "positive", "white"][j % 3],
                        shape=gen.shapes2d(rng, 28, 48),
                        shape2=gen.shapes2d(rng, 28, 48)))
    return out
