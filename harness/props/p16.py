"""P16: genus curves against independent flood-fill region counts."""
import numpy as np
import astropy.units as u
from scipy.signal import fftconvolve
from .. import gen

ID = "P16"
RULE = ("One evaluation = a genus curve, smoothed image, threshold list, "
        "table or distance of one image compared with flood-fill counts, an "
        "explicit convolution, or the curve of a transformed image; distinct "
        "= different (clause, content).")


def regions(m, conn):
    """Sizes of the connected regions of a boolean image (flood fill)."""
    ny, nx = m.shape
    seen = np.zeros((ny, nx), bool)
    nb = [(-1, 0), (1, 0), (0, -1), (0, 1)]
    if conn == 2:
        nb += [(-1, -1), (-1, 1), (1, -1), (1, 1)]
    out = []
    for y, x in np.argwhere(m):
        if seen[y, x]:
            continue
        seen[y, x] = True
        stack, n = [(y, x)], 0
        while stack:
            a, b = stack.pop()
            n += 1
            for dy, dx in nb:
                c, d = a + dy, b + dx
                if 0 <= c < ny and 0 <= d < nx and m[c, d] and \
                        not seen[c, d]:
                    seen[c, d] = True
                    stack.append((c, d))
        out.append(n)
    return out


def genus(img, thr, conn=2, min_size=0):
    out = []
    for t in thr:
        with np.errstate(invalid="ignore"):
            hi, lo = img > t, img < t
        out.append(sum(n >= min_size for n in regions(hi, conn)) -
                   sum(n >= min_size for n in regions(lo, conn)))
    return np.array(out, float)


def kernel(sig, shape=None):
    if shape is None:
        n = int(np.ceil(8 * sig))
        n += 1 - n % 2
        shape = (n, n)
    g = []
    for n in shape:
        x = np.arange(n) - (n - 1) // 2 if n % 2 else np.arange(n) - n // 2
        g.append(np.exp(-x**2 / (2. * sig**2)))
    k = np.outer(g[0], g[1])
    return k / k.sum()


def smooth(img, sig, wide=False):
    """Gaussian average, empty outside, missing pixels filled in."""
    k = kernel(sig, img.shape if wide else None)
    bad = ~np.isfinite(img)
    ny, nx = img.shape
    p, q = k.shape[0] // 2, k.shape[1] // 2
    full = np.zeros((ny + 2 * p, nx + 2 * q))
    full[p:p + ny, q:q + nx] = np.where(bad, 0, img)
    w = np.ones(full.shape)
    w[p:p + ny, q:q + nx] = ~bad
    big = fftconvolve(full, k, mode="valid")
    wt = fftconvolve(w, k, mode="valid")
    return big / wt


def hollow(img, sigs):
    """A hole so wide that the average has nothing to fill it with."""
    bad = ~np.isfinite(img)
    if not bad.any():
        return False
    for sig in sigs:
        k = kernel(sig)
        p = k.shape[0] // 2
        if fftconvolve(np.pad(~bad, p, constant_values=True).astype(float),
                       k, mode="valid").min() < 1e-4:
            return True
    return False


def opts(rng, sc, img, pix, D):
    o, lo, hi = {}, np.nanmin(img), np.nanmax(img)
    n = int(rng.integers(6, 16))
    t = sc["thr"]
    if t == "given":
        thr = np.sort(rng.uniform(lo, hi, n))
        return dict(thresholds=thr), thr
    o["numpts"] = n
    if t in ("value", "both"):
        lo = np.nanpercentile(img, 10)
        hi = np.nanpercentile(img, 92)
        o.update(min_value=lo, max_value=hi)
    if t in ("percent", "both"):
        a, b = float(rng.uniform(2, 30)), float(rng.uniform(70, 99))
        lo = max(lo, np.nanpercentile(img, a))
        hi = min(hi, np.nanpercentile(img, b))
        o.update(lowdens_percent=a, highdens_percent=b)
    return o, np.linspace(lo, hi, n)


def f_curve(sc, mon):
    from turbustat.statistics import Genus
    rng = gen.rng_of(sc["name"], sc["seed"])
    shape = tuple(sc["shape"])
    img = gen.punch(rng, gen.image(rng, shape, sc["kind"]), sc["nan"])
    pix = 10**rng.uniform(-4, -2)
    D = float(rng.uniform(50, 900))
    hdr = gen.header2d(shape, pix=pix, beam=(3.7 * pix, 2.2 * pix, 20.)
                       if sc["size"] == "beam" else None)
    o, thr = opts(rng, sc, img, pix, D)
    rad = np.sort(rng.uniform(1.05, min(shape) / 9. + 1.1, 2))
    if sc["radii"] == "none":
        o["enable_smoothing"] = False
    elif sc["radii"] != "default":
        o["smoothing_radii"] = {
            "array": rad, "list": [float(v) for v in rad],
            "pix": rad * u.pix, "deg": rad * pix * u.deg,
            "pc": rad * np.deg2rad(pix) * D * u.pc}[sc["radii"]]
    g = Genus((img.copy(), hdr), distance=D * u.pc, **o)
    mon.close("thresholds", g.thresholds, thr, rtol=1e-9)
    k = dict(connectivity=sc["conn"], keep_smoothed_images=True)
    ms = int(rng.integers(1, 9))
    if sc["size"] == "off":
        k["enable_small_removal"] = False
        ms = 0
    elif sc["size"] == "int":
        k["min_size"] = ms
    elif sc["size"] == "default":
        ms = 4
    elif sc["size"] == "area":
        k["min_size"] = (ms + .5) * pix**2 * u.deg**2
    elif sc["size"] == "areapc":
        k["min_size"] = (ms + .5) * (np.deg2rad(pix) * D)**2 * u.pc**2
    elif sc["size"] == "beam":
        k["use_beam"] = True
        ms = int(2 * np.pi * 3.7 * 2.2 / (8 * np.log(2)))
    if sc["via"] == "run":
        g.run(**k)
    else:
        g.make_genus_curve(**k)
    n_im = {"none": 1, "default": 1}.get(sc["radii"], 2)
    mon.ok("curve-shape", g.genus_stats.shape == (n_im, len(thr)),
           observed=list(g.genus_stats.shape))
    if sc["radii"] != "none" and hollow(
            img, [1.0] if sc["radii"] == "default" else rad):
        mon.skip("a hole wider than the kernel")
        return
    want_im = {"none": [img], "default": [smooth(img, 1.0)]}.get(
        sc["radii"]) or [smooth(img, s) for s in rad]
    if shape[0] % 2 and shape[1] % 2 and sc["radii"] != "none":
        # a kernel as large as the image
        g2 = Genus((img.copy(), hdr), distance=D * u.pc, **o)
        g2.make_genus_curve(**dict(k, match_kernel=True))
        for i in range(n_im):
            mon.close("smoothed-wide-kernel", g2.smoothed_images[i],
                      smooth(img, ([1.0] if n_im == 1 else rad)[i], True),
                      rtol=0, atol=1e-6 * np.nanmax(np.abs(img)))
    for i in range(n_im):
        im = np.asarray(g.smoothed_images[i])
        mon.close("smoothed", im, want_im[i], rtol=1e-6, floor=1e-7)
        mon.close("smoothed-mean", g.smoothed_means[i], np.nanmean(
            want_im[i]), rtol=1e-6, atol=1e-8 * np.nanstd(want_im[i]))
        mon.close("smoothed-std", g.smoothed_stds[i], np.nanstd(want_im[i]),
                  rtol=1e-6)
        mon.close("curve", g.genus_stats[i], genus(
            im, np.asarray(g.thresholds), sc["conn"], ms), rtol=0, floor=0,
            size=sc["size"], conn=sc["conn"])
    mon.ok("integers", np.all(g.genus_stats == np.round(g.genus_stats)))
    tabs = g.make_genus_stats_table()
    mon.ok("table-count", len(tabs) == n_im, observed=len(tabs))
    for i in range(min(n_im, len(tabs))):
        mon.close("table-values", tabs[i]["genus_value"], g.genus_stats[i],
                  rtol=0, floor=0)
        mon.close("table-thresholds", np.asarray(tabs[i]["thresholds"]),
                  thr, rtol=1e-9)


def f_sym(sc, mon):
    from turbustat.statistics import Genus
    rng = gen.rng_of(sc["name"], sc["seed"])
    shape = tuple(sc["shape"])
    img = gen.punch(rng, gen.image(rng, shape, sc["kind"]), sc["nan"])
    s = np.sort(img[np.isfinite(img)])
    i = np.linspace(1, len(s) - 2, 9).astype(int)
    thr = (s[i] + s[i + 1]) / 2   # never equal to a pixel value
    thr = thr[(s[i + 1] - s[i]) > 1e-9 * (s[-1] - s[0])]
    if len(thr) < 4:
        return mon.skip("too many ties")
    k = dict(connectivity=sc["conn"], min_size=int(rng.integers(1, 6)))
    so = dict(enable_smoothing=False) if sc["raw"] else \
        dict(smoothing_radii=np.array([1.3]))

    def run(x, t=thr):
        g = Genus(x.copy(), thresholds=np.asarray(t), **so)
        g.run(**k)
        return g.genus_stats[0]
    base = run(img)
    for nm, x in (("flip-y", img[::-1]), ("flip-x", img[:, ::-1]),
                  ("transpose", img.T), ("rotate", np.rot90(img))):
        if sc["raw"]:
            mon.close(nm, run(x), base, rtol=0, floor=0)
    mon.close("negated", run(-img, -thr) if sc["raw"] else -base, -base,
              rtol=0, floor=0)
    a = float(2.**rng.choice([-50, -20, -3, 4, 30, 60]))
    mon.close("factor", run(img * a, thr * a), base, rtol=0, floor=0)
    if sc["raw"]:
        c = float(np.nanstd(img) * 4)
        mon.close("offset", run(img + c, thr + c), base, rtol=0, floor=0)
        lo = np.nanmin(img)
        sc_ = np.nanmax(img) - lo
        z = np.exp(2 * (img - lo) / sc_)
        mon.close("relabelled", run(z, np.exp(2 * (thr - lo) / sc_)), base,
                  rtol=0, floor=0)
        b = np.full((shape[0] + 2, shape[1] + 2), np.nan)
        b[1:-1, 1:-1] = img
        mon.close("missing-border", run(b), base, rtol=0, floor=0)
        far = np.array([s[0] - 1., s[-1] + 1.])
        mon.close("outside-range", run(img, far), [
            sum(n >= k["min_size"] for n in regions(np.isfinite(img),
                                                    sc["conn"])),
            -sum(n >= k["min_size"] for n in regions(np.isfinite(img),
                                                     sc["conn"]))],
            rtol=0, floor=0)


def f_distance(sc, mon):
    from turbustat.statistics import Genus_Distance
    from scipy.interpolate import InterpolatedUnivariateSpline as Sp
    rng = gen.rng_of(sc["name"], sc["seed"])
    s1 = tuple(sc["shape"])
    s2 = tuple(sc["shape2"])
    a = gen.punch(rng, gen.image(rng, s1, "plaw"), sc["nan"])
    b = gen.image(rng, s2, "lognorm")
    p1 = 1e-3
    p2 = p1 * float(rng.uniform(.5, 2.)) if sc["j"] % 2 else p1
    ha, hb = gen.header2d(s1, pix=p1), gen.header2d(s2, pix=p2)
    n = int(rng.integers(8, 20))
    o = dict(numpts=n)
    lims = [(0, 100), (0, 100)]
    if sc["j"] % 3 == 1:
        o.update(lowdens_percent=[5, 10], highdens_percent=90)
        lims = [(5, 90), (10, 90)]
    r = 1.
    if sc["j"] % 3 == 2:
        r = 1.6
        o["smoothing_radii"] = np.array([r])
    if hollow(a, [r]) or hollow(b, [r]):
        mon.skip("a hole wider than the kernel")
        return
    d = Genus_Distance((a, ha), (b, hb), genus_kwargs=dict(min_size=2),
                       **o).distance_metric()
    cur, th = [], []
    for x, (l, h) in ((a, lims[0]), (b, lims[1])):
        z = (x - np.nanmean(x)) / np.nanstd(x)
        t = np.linspace(np.nanpercentile(z, l), np.nanpercentile(z, h), n)
        cur.append(genus(smooth(z, r), t, 2, 2) / z.size)
        th.append(t)
    pts = np.linspace(max(t[0] for t in th), min(t[-1] for t in th), 2 * n)
    # genus per area, in pixels of the coarser grid
    f = p2 / p1
    want = np.linalg.norm(
        Sp(th[0], cur[0] * max(1., f)**2, k=3)(pts) -
        Sp(th[1], cur[1] / min(1., f)**2, k=3)(pts))
    mon.close("distance" if f == 1. else "distance-scaled", d.distance, want,
              rtol=1e-6, atol=1e-12)
    mon.ok("numpts", len(d.genus1.thresholds) == n and
           len(d.genus2.thresholds) == n, observed=len(d.genus1.thresholds))
    e = Genus_Distance((a, ha), (a * 3 + 1, ha), genus_kwargs=dict(
        min_size=2), **dict(o, **({"lowdens_percent": 5}
                                  if sc["j"] % 3 == 1 else {})))
    e.distance_metric()
    mon.close("self", e.distance, 0., atol=1e-6)


def f_reject(sc, mon):
    from turbustat.statistics import Genus
    rng = gen.rng_of(sc["name"], sc["seed"])
    img = gen.image(rng, (24, 30), "plaw")
    h = gen.header2d((24, 30))
    mon.raises("radius-small", ValueError, Genus, (img, h),
               smoothing_radii=np.array([.5, 2.]))
    mon.raises("radius-large", ValueError, Genus, (img, h),
               smoothing_radii=np.array([1.5, 13.]))
    g = Genus((img, h))
    g.run()
    mon.raises("images-not-kept", ValueError, lambda: g.smoothed_images)
    from spectral_cube import Projection
    from astropy.wcs import WCS
    pr = Projection(img, unit=u.K, wcs=WCS(h), header=h)
    mon.raises("limit-unit", (TypeError, u.UnitsError), Genus, pr,
               min_value=1. * u.m)
    mon.raises("limit-unitless", TypeError, Genus, pr, min_value=.1)
    mon.raises("max-unitless", TypeError, Genus, pr, max_value=.1)
    mon.raises("threshold-unitless", TypeError, Genus, pr,
               thresholds=np.array([.1, .2]))


def f_islands(sc, mon):
    """Regions of every size on an empty field: which ones count?"""
    from turbustat.statistics import Genus
    from astropy.io import fits
    rng = gen.rng_of(sc["name"], sc["seed"])
    top = int(rng.integers(12, 26))
    ncol = 6
    cell = 7
    shape = (cell * ((top + ncol - 1) // ncol) + 1, cell * ncol + 1)
    img = np.zeros(shape)
    sizes = list(range(1, top + 1))
    rng.shuffle(sizes)
    for i, n in enumerate(sizes):
        y, x = cell * (i // ncol) + 1, cell * (i % ncol) + 1
        for j in range(n):
            img[y + j // 5, x + j % 5] = 1.
    if sc["low"]:
        img = -img
    pix = 10**rng.uniform(-4, -2)
    beam = None
    if sc["how"] == "beam":
        a, b = np.sort(rng.uniform(1.2, 4.5, 2))[::-1]
        area = 2 * np.pi * a * b / (8 * np.log(2))
        if abs(area - np.round(area)) < 1e-6:
            mon.skip("a beam of a whole number of pixels")
            return
        lim = int(np.floor(area))
        beam = (a * pix, b * pix, 30.)
        k = dict(use_beam=True)
    else:
        lim = int(rng.integers(1, top + 2))
        k = dict(min_size=lim if sc["how"] == "int" else
                 (lim * pix**2 * u.deg**2).to(
                     [u.deg**2, u.arcmin**2, u.arcsec**2][lim % 3]))
    if sc["how"] == "off":
        k = dict(enable_small_removal=False, min_size=lim)
        lim = 0
    h = gen.header2d(shape, pix=pix, beam=beam)
    g = Genus(fits.PrimaryHDU(img, h), thresholds=np.array(
        [-.5 if sc["low"] else .5]), enable_smoothing=False)
    g.make_genus_curve(connectivity=sc["conn"], **k)
    want = sum(n >= lim for n in sizes)
    back = int((img == 0).sum() >= lim)
    want = back - want if sc["low"] else want - back
    mon.close("islands", np.ravel(g.genus_stats), [want], rtol=0,
              limit=lim, how=sc["how"])


FNS = {"islands": f_islands, "curve": f_curve, "sym": f_sym, "distance": f_distance,
       "reject": f_reject}


def scenarios(tier, seed):
    rng = gen.rng_of("P16", seed, tier)
    k = 4 if tier == "quick" else 10
    out = [dict(name="reject", fn="reject", seed=seed)]
    n = 0
    radii = ["none", "default", "array", "list", "pix", "deg", "pc"]
    for how in ("int", "area", "beam", "off"):
        for i in range(24 if tier != "quick" else 12):
            out.append(dict(name="islands-%s-%d" % (how, i), fn="islands",
                            seed=seed, how=how, low=bool(i % 2),
                            conn=1 + (i // 2) % 2))
    for size in ("off", "int", "default", "area", "areapc", "beam"):
        for thr in ("default", "given", "value", "percent", "both"):
            for j in range(2 * k):
                out.append(dict(
                    name="curve-%s-%s-%d" % (size, thr, j), fn="curve",
                    seed=seed, size=size, thr=thr, radii=radii[n % 7],
                    conn=1 + int(rng.integers(2)),
                    kind=gen.IMAGE_KINDS[int(rng.integers(9))],
                    via=["run", "steps"][int(rng.integers(2))],
                    nan=gen.NAN_PATTERNS[int(rng.integers(7))],
                    shape=gen.shapes2d(rng, 14, 30)))
                n += 1
    for nan in gen.NAN_PATTERNS:
        for raw in (True, True, False):
            for j in range(k):
                out.append(dict(name="sym-%s-%s-%d" % (nan, raw, n),
                                fn="sym", seed=seed, nan=nan, raw=raw,
                                conn=1 + n % 2,
                                kind=["plaw", "white", "lognorm", "blobs"][
                                    int(rng.integers(4))],
                                shape=gen.shapes2d(rng, 14, 30)))
                n += 1
    for j in range(6 * k):
        out.append(dict(name="distance-%d" % j, fn="distance", seed=seed,
                        j=j, nan=["none", "corner"][(j // 2) % 2],
                        shape=gen.shapes2d(rng, 16, 30),
                        shape2=gen.shapes2d(rng, 16, 30)))
    return out
