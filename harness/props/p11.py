"""P11: delta-variance against direct-space filtering with own kernels."""
import numpy as np
import astropy.units as u
from scipy.signal import convolve2d
from ..core import plain
from .. import gen
from .p08 import wls
from .p09 import broken

ID = "P11"
RULE = ("One evaluation = one delta-variance curve, kernel, filtered map, fit "
        "or distance compared with direct-space sums over independently built "
        "kernels, or with the curve of a transformed image; distinct = "
        "different (clause, content).")


def grid(lag):
    s = lag / (2 * np.sqrt(2))
    n = int(np.ceil(8 * s))
    if n % 2 == 0:
        n += 1
    r = np.arange(n) - n // 2
    return s, r[:, None]**2 + r[None, :]**2


def kernels(lag, ratio):
    s, r2 = grid(lag)
    core = np.exp(-r2 / (2 * s**2))
    ann = np.exp(-r2 / (2 * (ratio * s)**2)) - core
    return core / core.sum(), ann / ann.sum()


def conv_fill(a, k):
    return convolve2d(a, k, mode="same") if \
        all(p >= q for p, q in zip(a.shape, k.shape)) else \
        convolve2d(np.pad(a, max(k.shape)), k, mode="same")[
            max(k.shape):-max(k.shape), max(k.shape):-max(k.shape)]


def reference(img, w, lag, ratio, boundary, frac, preserve=False):
    core, ann = kernels(lag, ratio)
    miss = np.isnan(img)
    wt = np.where(miss, 0., w)
    d = np.where(miss, 0., img) * wt
    if boundary == "fill":
        p = int(lag)
        d, wt_p, miss = np.pad(d, p), np.pad(wt, p), np.pad(miss, p)
        cv = conv_fill
    else:
        wt_p = wt
        cv = None
    res = []
    for k in (core, ann):
        for a in (d, wt_p):
            if cv is not None:
                res.append(cv(a, k))
            else:
                res.append(wrapconv(a, k))
    dc, wc, da, wa = res
    cut = frac * wt.max()
    wc = np.where(wc <= cut, np.nan, wc)
    wa = np.where(wa <= cut, np.nan, wa)
    arr = dc / wc - da / wa
    ww = wc * wa
    if preserve:
        arr = np.where(miss, np.nan, arr)
    near = (np.abs(res[1] - cut) < 1e-9 * wt.max()).any() or \
        (np.abs(res[3] - cut) < 1e-9 * wt.max()).any()
    return arr, ww, near


def wrapconv(a, k):
    """Periodic convolution evaluated at the image pixels."""
    big = tuple(max(p, q) for p, q in zip(a.shape, k.shape))
    if big != a.shape:
        # image embedded, centred as in astropy, in the larger domain
        ap = np.zeros(big)
        o = [b // 2 - s // 2 for b, s in zip(big, a.shape)]
        ap[o[0]:o[0] + a.shape[0], o[1]:o[1] + a.shape[1]] = a
    else:
        ap = a
        o = [0, 0]
    hy, hx = k.shape[0] // 2, k.shape[1] // 2
    t = np.pad(ap, ((hy, hy), (hx, hx)), mode="wrap")
    out = convolve2d(t, k, mode="valid")
    return out[o[0]:o[0] + a.shape[0], o[1]:o[1] + a.shape[1]]


def value(arr, ww, lag):
    c = arr - np.nanmean(arr)
    # a pixel without a value carries no weight
    ww = np.where(np.isnan(arr), np.nan, ww)
    v = np.nansum(c**2 * ww) / np.nansum(ww)
    area = int(np.ceil(0.5 * np.pi * np.log(2) * lag**2))
    n = np.sqrt(np.isfinite(c).sum() // area)
    e = np.sqrt(np.nansum(c**4 * ww) / np.nansum(ww) - v**2) / n
    if not (v > 0 and e > 0):
        return np.nan, np.nan
    return v, e


def make(sc, rng, shape):
    img = gen.punch(rng, gen.image(rng, shape, sc["kind"]), sc["nan"])
    w, weff = None, np.ones(shape)
    if sc["weights"] != "none":
        w = rng.uniform(0.2, 2., shape)
        if sc["weights"] == "zero":
            w[rng.uniform(size=shape) < .15] = 0.
        if sc["weights"] == "edge":
            w[:, :shape[1] // 4] = 0.
        if sc["weights"] == "island":
            # most of the map carries no weight
            keep = np.zeros(shape, bool)
            h = [int(rng.integers(n // 6 + 2, n // 2)) for n in shape]
            o = [int(rng.integers(0, n - q)) for n, q in zip(shape, h)]
            keep[o[0]:o[0] + h[0], o[1]:o[1] + h[1]] = True
            w[~keep] = 0.
        if sc["weights"] == "nan":
            w[rng.uniform(size=shape) < .1] = np.nan
        weff = np.where(np.isnan(w), 0., w)
    return img, w, weff


def lagset(rng, shape, n=4, top=.5):
    m = min(shape)
    return np.sort(np.round(rng.uniform(1.2, m * top - 0.6, n), 3))


def f_value(sc, mon):
    from turbustat.statistics import DeltaVariance
    rng = gen.rng_of(sc["name"], sc["seed"])
    shape = tuple(sc["shape"])
    img, w, weff = make(sc, rng, shape)
    lags = lagset(rng, shape)
    ratio = float(sc["ratio"])
    hdr = gen.header2d(shape)
    dv = DeltaVariance(img.copy(), header=hdr, diam_ratio=ratio,
                       weights=None if w is None else w.copy(),
                       lags=lags * u.pix)
    kw = dict(boundary=sc["boundary"], show_progress=False)
    kw.update(sc["fft"])
    if sc["preserve"]:
        kw["preserve_nan"] = True
    frac = 0.01
    if sc["via"] == "steps":
        if sc["frac"] is not None:
            frac = kw["min_weight_frac"] = sc["frac"]
        dv.compute_deltavar(keep_convolve_arrays=True, **kw)
    else:
        dv.run(**kw)
    want, err, ties = [], [], []
    for i, lag in enumerate(lags):
        arr, ww, near = reference(img, weff, lag, ratio, sc["boundary"], frac,
                                  sc["preserve"])
        v, e = value(arr, ww, lag)
        want.append(v)
        err.append(e)
        # fewer values than one filter area: the error is not defined
        few = np.isfinite(arr).sum() < np.ceil(.5 * np.pi * np.log(2) * lag**2)
        ties.append(near or few)
        if sc["via"] == "steps" and not near and len(dv.convolve_arrays) == \
                len(lags):
            mon.close("filtered-map", dv.convolve_arrays[i], arr, rtol=1e-6,
                      atol=1e-9 * np.nanmax(np.abs(img)), lag=lag)
            mon.close("filtered-weights", dv.convolve_weights[i], ww,
                      rtol=1e-6, floor=1e-9, lag=lag)
    g = ~np.array(ties)
    if g.any():
        # offsets much larger than the structure cost digits in the variance
        lim = 1e-9 * np.nanmax(np.abs(img))**2
        mon.close("delta-variance", dv.delta_var[g], np.array(want)[g],
                  rtol=1e-6, atol=lim * 1e-3)
        mon.close("delta-variance-error", dv.delta_var_error[g],
                  np.array(err)[g], rtol=1e-5, atol=lim * 1e-3)
    if not g.all():
        mon.skip("weight numerically on the cutoff")
    mon.close("lags-kept", plain(dv.lags), lags)


def interpolated(img, w, lag, ratio, boundary, frac, preserve=False):
    """Filtered map and weights when missing pixels are interpolated over:
    both are averages over the measured pixels alone."""
    miss = np.isnan(img)
    good = (~miss).astype(float)
    wt = np.where(miss, 0., w)
    d = np.where(miss, 0., img) * wt
    if boundary == "fill":
        p = int(lag)
        d, wt, miss = np.pad(d, p), np.pad(wt, p), np.pad(miss, p)
        good = np.pad(good, p, constant_values=1.)
        cv = conv_fill
    else:
        cv = wrapconv
    cut = frac * np.where(np.isnan(img), 0., w).max()
    sure, terms, wts = True, [], []
    for k in kernels(lag, ratio):
        g = cv(good, k)
        wn = cv(wt, k) / g
        sure = sure and (g > 1e-5).all() and \
            not (np.abs(wn - cut) < 1e-8 * wt.max()).any()
        wn = np.where(wn <= cut, np.nan, wn)
        terms.append(cv(d, k) / g / wn)
        wts.append(wn)
    arr = terms[0] - terms[1]
    if preserve:
        arr = np.where(miss, np.nan, arr)
    return arr, wts[0] * wts[1], sure


def f_interp(sc, mon):
    from turbustat.statistics import DeltaVariance
    rng = gen.rng_of(sc["name"], sc["seed"])
    shape = tuple(sc["shape"])
    img, w, weff = make(sc, rng, shape)
    lags = lagset(rng, shape, 4, .32)

    def run(im):
        dv = DeltaVariance(im.copy(), header=gen.header2d(shape),
                           weights=None if w is None else w.copy(),
                           lags=lags * u.pix)
        dv.compute_deltavar(keep_convolve_arrays=True, show_progress=False,
                            boundary=sc["boundary"],
                            nan_treatment="interpolate",
                            preserve_nan=sc["preserve"], **sc["fft"])
        return dv
    dv = run(img)
    want, err, sure = [], [], True
    for i, lag in enumerate(lags):
        arr, ww, s = interpolated(img, weff, lag, 1.5, sc["boundary"], .01,
                                  sc["preserve"])
        v, e = value(arr, ww, lag)
        want.append(v)
        err.append(e)
        sure = sure and s
        if s:
            mon.close("interp-map", dv.convolve_arrays[i], arr, rtol=1e-5,
                      atol=1e-8 * np.nanmax(np.abs(img)), lag=lag)
            mon.close("interp-weights", dv.convolve_weights[i], ww,
                      rtol=1e-5, floor=1e-8, lag=lag)
    if not sure:
        mon.skip("holes as large as the kernel")
        return
    lim = 1e-11 * np.nanmax(np.abs(img))**2
    mon.close("interp-delta-variance", dv.delta_var, want, rtol=1e-5, atol=lim)
    mon.close("interp-error", dv.delta_var_error, err, rtol=1e-4, atol=lim)
    c = float(rng.uniform(1, 5)) * np.nanmax(np.abs(img))
    mon.close("interp-constant", run(img + c).delta_var, dv.delta_var,
              rtol=1e-4, atol=1e2 * lim)


def f_kernel(sc, mon):
    from turbustat.statistics.delta_variance.kernels import (core_kernel,
                                                             annulus_kernel)
    rng = gen.rng_of(sc["name"], sc["seed"])
    for _ in range(sc["n"]):
        lag = float(rng.uniform(1., 40.))
        ratio = float(rng.uniform(1.1, 3.))
        k1, k2 = kernels(lag, ratio)
        a, b = core_kernel(lag, 32, 32), annulus_kernel(lag, ratio, 32, 32)
        mon.close("core-kernel", a.array / a.array.sum(), k1, rtol=1e-9)
        mon.close("annulus-kernel", b.array / b.array.sum(), k2, rtol=1e-9)


def f_sym(sc, mon):
    from turbustat.statistics import DeltaVariance
    rng = gen.rng_of(sc["name"], sc["seed"])
    shape = tuple(sc["shape"])
    img, w, weff = make(sc, rng, shape)
    # kernels that fit in the image, so that shifting is exact
    lags = lagset(rng, shape, 4, .32) * u.pix
    b = sc["boundary"]

    def run(im, ww):
        d = DeltaVariance(im.copy(), header=gen.header2d(im.shape),
                          lags=lags, weights=None if ww is None else ww.copy())
        d.run(boundary=b, show_progress=False)
        return d
    base = run(img, w)
    ref = base.delta_var
    scale = np.nanmax(np.abs(img))
    if np.isnan(base.slope):
        mon.skip("no fit")
        return
    f = gen.factor(rng)
    d = run(img * f, w)
    mon.close("scale-squared", d.delta_var, ref * f**2, rtol=1e-6)
    mon.close("scale-slope", d.slope, base.slope, rtol=1e-5, atol=1e-6)
    c = float(rng.uniform(-3, 3)) * np.nanstd(img)
    d = run(img + c, w)
    mon.close("constant", d.delta_var, ref, rtol=1e-5,
              atol=1e-10 * scale**2)
    if w is not None:
        d = run(img, w * f)
        mon.close("weight-units", d.delta_var, ref, rtol=1e-6)
    for name, op in (("flip-rows", lambda a: a[::-1]),
                     ("flip-columns", lambda a: a[:, ::-1]),
                     ("transpose", lambda a: a.T),
                     ("rotate", lambda a: np.rot90(a))):
        d = run(op(img), None if w is None else op(w))
        mon.close(name, d.delta_var, ref, rtol=1e-6, atol=1e-11 * scale**2)
        mon.close(name + "-slope", d.slope, base.slope, rtol=1e-5, atol=1e-5)
    if b == "wrap":
        s = (int(rng.integers(shape[0])), int(rng.integers(shape[1])))
        d = run(np.roll(img, s, (0, 1)), None if w is None else
                np.roll(w, s, (0, 1)))
        mon.close("shift", d.delta_var, ref, rtol=1e-6, atol=1e-11 * scale**2)
    d = DeltaVariance(np.full(shape, 3.), header=gen.header2d(shape),
                      lags=lags)
    d.compute_deltavar(boundary=b, show_progress=False)
    mon.ok("constant-image", np.all(np.isnan(d.delta_var) |
                                    (d.delta_var < 1e-20)),
           observed=d.delta_var)


def f_fit(sc, mon):
    from turbustat.statistics import DeltaVariance
    rng = gen.rng_of(sc["name"], sc["seed"])
    shape = tuple(sc["shape"])
    img = gen.image(rng, shape, sc["kind"])
    pix = 10**rng.uniform(-4, -2)
    dv = DeltaVariance(img, header=gen.header2d(shape, pix=pix),
                       nlags=sc["nlags"], distance=250 * u.pc)
    want = np.logspace(np.log10(3.), np.log10(min(shape) / 2.), sc["nlags"])
    mon.close("default-lags", plain(dv.lags), want, rtol=1e-9)
    m = min(shape)
    o = {}
    lo, hi = None, None
    if sc["cuts"] in ("low", "both"):
        lo = round(float(rng.uniform(3.2, 5.5)), 4) + 1.3e-5
    if sc["cuts"] in ("high", "both"):
        hi = round(float(rng.uniform(m * .33, m * .48)), 4) + 1.3e-5
    unit = sc["unit"]

    def conv(v):
        if unit == "pix":
            return v * u.pix
        if unit == "deg":
            return v * pix * u.deg
        return (v * np.deg2rad(pix) * 250) * u.pc
    if lo is not None:
        o["xlow"] = conv(lo)
    if hi is not None:
        o["xhigh"] = conv(hi)
    dv.run(show_progress=False, **o)
    x = plain(dv.lags)
    y, e = dv.delta_var, dv.delta_var_error
    s = np.isfinite(y) & np.isfinite(e)
    if lo is not None:
        s &= x >= lo
    if hi is not None:
        s &= x <= hi
    if s.sum() < 4:
        mon.skip("too few lags")
        return
    b, c, se = wls(np.log10(x[s]), np.log10(y[s]), e[s]**-2)
    mon.close("slope", dv.slope, b, rtol=1e-6, atol=1e-9)
    mon.close("slope-error", dv.slope_err, se, rtol=1e-5)
    mon.ok("no-break", dv.brk is None)
    mon.close("model", dv.fitted_model(np.log10(x)), c + b * np.log10(x),
              rtol=1e-6, atol=1e-7)
    mon.close("fit-range", [plain(v) for v in dv.fit_range],
              [x.min() * .99 if lo is None else lo,
               x.max() * 1.01 if hi is None else hi], rtol=1e-6)
    # refit differently on the same object
    dv.fit_plaw(xlow=x[2] * .999 * u.pix, xhigh=x[-3] * 1.001 * u.pix)
    s = np.isfinite(y) & np.isfinite(e) & (x >= x[2] * .999) & \
        (x <= x[-3] * 1.001)
    b, c, se = wls(np.log10(x[s]), np.log10(y[s]), e[s]**-2)
    mon.close("slope-refit", dv.slope, b, rtol=1e-6, atol=1e-9)
    if sc["boot"]:
        np.random.seed(11)
        dv.fit_plaw(xlow=x[2] * .999 * u.pix, xhigh=x[-3] * 1.001 * u.pix,
                    bootstrap=True)
        mon.close("slope-bootstrap", dv.slope, b, rtol=1e-6, atol=1e-9)
        mon.ok("slope-error-bootstrap", dv.slope_err > 0,
               observed=float(dv.slope_err))


def f_break(sc, mon):
    """The broken fit, on a curve whose two slopes and break are known."""
    from turbustat.statistics import DeltaVariance
    rng = gen.rng_of(sc["name"], sc["seed"])
    shape = (64, 64)
    dv = DeltaVariance(gen.image(rng, shape, "plaw"),
                       header=gen.header2d(shape), nlags=24)
    dv.compute_deltavar(show_progress=False)
    x = plain(dv.lags)
    s1, s2 = rng.uniform(.4, 2.5), rng.uniform(-1.5, .1)
    b = rng.uniform(8., 14.)
    y = np.where(x < b, (x / b)**s1, (x / b)**s2) * rng.uniform(.1, 10)
    dv._delta_var = y
    dv._delta_var_error = 0.03 * y
    if not np.array_equal(dv.delta_var, y):
        mon.skip("curve cannot be injected")
        return
    dv.fit_plaw(brk=float(b * rng.uniform(.8, 1.25)) * u.pix,
                h_step=1.0)
    if dv.brk is None:
        mon.skip("segmented fit reverted")
        return
    mon.close("break", dv.brk.value, b, rtol=1e-3)
    mon.close("break-slopes", dv.slope, [s1, s2], rtol=1e-3, atol=1e-3)
    # with scatter: everything follows from least squares at that break
    y = y * 10**(.02 * rng.standard_normal(len(x)))
    dv._delta_var = y
    dv._delta_var_error = y * rng.uniform(.01, .05, len(x))
    lo = rng.integers(0, 3)
    kw = dict(brk=float(b) * u.pix, h_step=1.0, xlow=x[lo] * .999 * u.pix)
    w = dv._delta_var_error[lo:]**-2
    for boot in (False, True):
        dv.fit_plaw(bootstrap=boot, bootstrap_kwargs=dict(nboot=300), **kw)
        if dv.brk is None:
            mon.skip("segmented fit reverted")
            continue
        bp = dv.brk.to(u.pix).value
        broken(mon, "broken-fit", np.log10(x[lo:]), np.log10(y[lo:]),
               np.log10(bp), dv.slope, dv.slope_err,
               dv.brk_err.to(u.pix).value / bp / np.log(10), w, boot)
        xx = np.log10(x[lo:])
        ref = np.asarray(dv.fitted_model(xx))
        d = np.diff(ref) / np.diff(xx)
        k = np.flatnonzero(xx < np.log10(bp))
        if len(k) > 1:
            mon.close("broken-model", d[k[:-1]], dv.slope[0] + 0 * k[:-1],
                      rtol=1e-6)
    # no change of slope: a single line, no break
    y = x**s1
    dv._delta_var = y
    dv._delta_var_error = .03 * y
    dv.fit_plaw(brk=float(b) * u.pix)
    mon.close("line-slope", np.atleast_1d(dv.slope), s1 + 0 * np.atleast_1d(
        dv.slope), rtol=1e-6)
    if dv.brk is None:
        mon.ok("line-no-break-error", dv.brk_err is None)
    mon.raises("break-outside", ValueError, dv.fit_plaw, brk=200 * u.pix)


def f_distance(sc, mon):
    from turbustat.statistics import DeltaVariance, DeltaVariance_Distance
    rng = gen.rng_of(sc["name"], sc["seed"])
    sh1, sh2 = tuple(sc["shape"]), tuple(sc["shape2"])
    a, b = gen.image(rng, sh1, sc["kind"]), gen.image(rng, sh2, "lognorm")
    a = gen.punch(rng, a, sc["nan"])
    pix = 1 / 3600.
    scale = sc["scale"]
    h1 = gen.header2d(sh1, pix=pix)
    h2 = gen.header2d(sh2, pix=pix * scale)
    m = min(min(sh1), min(sh2))
    kw = dict(show_progress=False)
    o = {}
    if sc["lags"]:
        lg = lagset(rng, (m / max(scale, 1 / scale),), 8)
        o["lags"] = lg * u.pix
    else:
        lg = np.logspace(np.log10(3.), np.log10(m / 2.), 25)
    if scale != 1 and not sc["lags"]:
        return
    d = DeltaVariance_Distance((a, h1), (b, h2), delvar_kwargs=kw, **o)
    d.distance_metric()
    if scale > 1:      # second has coarser pixels
        l1, l2 = lg * scale, lg
    else:
        l1, l2 = lg, lg / scale
    mon.close("common-lags-1", plain(d.delvar1.lags), l1, rtol=1e-5)
    mon.close("common-lags-2", plain(d.delvar2.lags), l2, rtol=1e-5)
    r1 = DeltaVariance(a, header=h1, lags=l1 * u.pix).run(**kw)
    r2 = DeltaVariance(b, header=h2, lags=l2 * u.pix).run(**kw)
    mon.close("distance-curves", d.delvar1.delta_var, r1.delta_var, rtol=1e-4)
    ok = np.isfinite(r1.delta_var) & np.isfinite(r2.delta_var)
    c1, c2 = r1.delta_var[ok], r2.delta_var[ok]
    want = np.sqrt(np.sum((np.log10(c1 / c1.sum()) -
                           np.log10(c2 / c2.sum()))**2))
    if scale == 1:
        mon.close("curve-distance", d.curve_distance, want, rtol=1e-6)
    want = abs(r1.slope - r2.slope) / np.hypot(r1.slope_err, r2.slope_err)
    mon.close("slope-distance", d.slope_distance, want, rtol=1e-4)
    # precomputed statistics, lags already common or not
    if sc["nan"] == "none" and scale == 1:
        p1 = DeltaVariance(a, header=h1, lags=(l1[::2]) * u.pix).run(**kw)
        p2 = DeltaVariance(b, header=h2, lags=l2 * u.pix).run(**kw)
        d2 = DeltaVariance_Distance(p1, p2, delvar_kwargs=kw, **o)
        d2.distance_metric()
        mon.close("precomputed-curve", d2.curve_distance, d.curve_distance,
                  rtol=1e-9)
        mon.close("precomputed-slope", d2.slope_distance, d.slope_distance,
                  rtol=1e-9)
    if sc["lags"] and scale == 1:
        # limits: only the common lags inside them
        lo, hi = l1[1] * 1.001, l1[-2] * 1.001
        kk = dict(kw, xlow=lo * u.pix, xhigh=hi * u.pix)
        d3 = DeltaVariance_Distance((a, h1), (b, h2), delvar_kwargs=kk, **o)
        d3.distance_metric()
        s = ok & (l1 >= lo) & (l1 <= hi)
        c1, c2 = r1.delta_var[s], r2.delta_var[s]
        want = np.sqrt(np.sum((np.log10(c1 / c1.sum()) -
                               np.log10(c2 / c2.sum()))**2))
        mon.close("curve-distance-limits", d3.curve_distance, want, rtol=1e-6)
        d4 = DeltaVariance_Distance((a, h1), (b, h2), delvar_kwargs=kk,
                                    delvar2_kwargs=kw, **o)
        d4.distance_metric()
        mon.ok("curve-distance-unlike-ranges", np.isnan(d4.curve_distance))
        d5 = DeltaVariance_Distance((a, h1), (b, h2), use_common_lags=False,
                                    lags=lg * u.pix, lags2=lg[1:] * u.pix,
                                    delvar_kwargs=kw)
        d5.distance_metric()
        mon.close("own-lags-2", plain(d5.delvar2.lags), lg[1:])
        # statistics computed at other lags are computed anew at those given
        q1 = DeltaVariance((a, h1), nlags=9).run(**kw)
        q2 = DeltaVariance((b, h2), nlags=9).run(**kw)
        d6 = DeltaVariance_Distance(q1, q2, use_common_lags=False,
                                    lags=lg * u.pix, lags2=lg[1:] * u.pix,
                                    delvar_kwargs=kw)
        d6.distance_metric()
        mon.close("recomputed-lags-1", plain(d6.delvar1.lags), lg)
        mon.close("recomputed-lags-2", plain(d6.delvar2.lags), lg[1:])
        mon.close("recomputed-slope-distance", d6.slope_distance,
                  d5.slope_distance, rtol=1e-6)


def f_reject(sc, mon):
    from turbustat.statistics import DeltaVariance
    rng = gen.rng_of(sc["name"], sc["seed"])
    shape = (24, 30)
    img = gen.image(rng, shape, "plaw")
    h = gen.header2d(shape)
    mon.raises("lag-too-small", ValueError, DeltaVariance, img, header=h,
               lags=[0.5, 3] * u.pix)
    mon.raises("lag-too-large", ValueError, DeltaVariance, img, header=h,
               lags=[3, 14] * u.pix)
    mon.raises("weight-shape", ValueError, DeltaVariance, img, header=h,
               weights=np.ones((30, 24)))
    d = DeltaVariance(img, header=h)
    mon.raises("bad-boundary", ValueError, d.run, boundary="nope",
               show_progress=False)


FNS = dict(value=f_value, kernel=f_kernel, sym=f_sym, fit=f_fit,
           distance=f_distance, reject=f_reject, interp=f_interp)
FNS["break"] = f_break


def scenarios(tier, seed):
    rng = gen.rng_of("P11", seed, tier)
    k = 2 if tier == "quick" else 16
    out = [dict(name="kernel", fn="kernel", seed=seed, n=12 * k),
           dict(name="reject", fn="reject", seed=seed)]
    ffts = [{}, dict(use_pyfftw=True), dict(use_pyfftw=True, threads=2)]
    n = 0
    for b in ("wrap", "fill"):
        for nan in gen.NAN_PATTERNS:
            for w in ("none", "plain", "zero", "edge", "nan", "island"):
                for j in range(k):
                    out.append(dict(
                        name="value-%s-%s-%s-%d" % (b, nan, w, j), fn="value",
                        seed=seed, boundary=b, nan=nan, weights=w,
                        kind=gen.IMAGE_KINDS[int(rng.integers(9))],
                        fft=ffts[n % 3],
                        shape=gen.shapes2d(rng, 14, 40),
                        ratio=[1.5, 1.5, 2., 1.2][int(rng.integers(4))],
                        preserve=bool(rng.integers(2)) and nan != "none",
                        frac=[None, .05, .001, .2][int(rng.integers(4))],
                        via="steps" if w == "island" else
                        ["steps", "run"][n % 2]))
                    n += 1
        for j in range(7 * k):
            out.append(dict(name="interp-%s-%d" % (b, j), fn="interp",
                            seed=seed, boundary=b, preserve=bool(j % 2),
                            nan=gen.NAN_PATTERNS[j % 7], fft=ffts[j % 3],
                            weights=["none", "plain", "zero", "nan"][j % 4],
                            kind=["plaw", "white", "lognorm", "positive",
                                  "blobs"][j % 5],
                            shape=gen.shapes2d(rng, 16, 36)))
            out.append(dict(name="sym-%s-%d" % (b, j), fn="sym", seed=seed,
                            boundary=b, nan=gen.NAN_PATTERNS[j % 7],
                            weights=["none", "plain", "nan"][j % 3],
                            kind=["plaw", "white", "lognorm", "positive",
                                  "blobs"][j % 5],
                            shape=gen.shapes2d(rng, 20, 44)))
    for cuts in ("none", "low", "high", "both"):
        for unit in ("pix", "deg", "pc"):
            for j in range(k):
                out.append(dict(name="fit-%s-%s-%d" % (cuts, unit, j),
                                fn="fit", seed=seed, cuts=cuts, unit=unit,
                                kind=["plaw", "lognorm"][j % 2],
                                nlags=int(rng.integers(14, 30)), boot=j == 0,
                                shape=gen.shapes2d(rng, 36, 60)))
    for j in range(4 * k):
        out.append(dict(name="break-%d" % j, fn="break", seed=seed))
        out.append(dict(name="distance-%d" % j, fn="distance", seed=seed,
                        shape=gen.shapes2d(rng, 28, 48),
                        shape2=gen.shapes2d(rng, 28, 48),
                        kind=["plaw", "positive", "white"][j % 3],
                        nan=["none", "scatter", "block"][j % 3],
                        scale=[1., 1., 2., .5][j % 4], lags=bool(j % 4)))
    return out
