"""P17: local moment maps against direct sums over each circle."""
import numpy as np
import astropy.units as u
from .. import gen

ID = "P17"
RULE = ("One evaluation = a moment map, a whole-image moment, a histogram, an "
        "extremum or a distance compared with direct sums over the pixels of "
        "each circle, or with the maps of a transformed image; distinct = "
        "different (clause, content).")
MAPS = ["mean", "variance", "skewness", "kurtosis"]


def moments(v, w):
    good = np.isfinite(v) & np.isfinite(w)
    v, w = v[good], w[good]
    W = w.sum()
    m = (v * w).sum() / W
    d = v - m
    var = (w * d**2).sum() / W
    s = np.sqrt(var)
    return (m, var, (w * d**3).sum() / W / s**3,
            (w * d**4).sum() / W / s**4 - 3.)


def reference(img, wgt, R, periodic, min_frac):
    ny, nx = img.shape
    out = np.full((4, ny, nx), np.nan)
    edge = np.zeros((ny, nx), bool)      # valid fraction right on the limit
    flat = np.zeros((ny, nx), bool)      # no variance: shape undefined
    off = [(dy, dx) for dy in range(-R, R + 1) for dx in range(-R, R + 1)]
    inside = np.array([dy**2 + dx**2 < R**2 for dy, dx in off])
    dy = np.array([o[0] for o in off])
    dx = np.array([o[1] for o in off])
    big = np.nanmax(np.abs(img))
    for y in range(ny):
        for x in range(nx):
            yy, xx = y + dy, x + dx
            if periodic:
                v, w = img[yy % ny, xx % nx], wgt[yy % ny, xx % nx]
            else:
                good = (yy >= 0) & (yy < ny) & (xx >= 0) & (xx < nx)
                v = np.full(yy.size, np.nan)
                w = v.copy()
                v[good] = img[yy[good], xx[good]]
                w[good] = wgt[yy[good], xx[good]]
            f = min(np.isfinite(v).mean(), np.isfinite(w).mean())
            if abs(f - min_frac) < 1e-9 and min_frac < 1:
                edge[y, x] = True
            if f < min_frac:
                continue
            ww = w[inside]
            g = np.isfinite(ww) & np.isfinite(v[inside])
            if g.sum() == 0 or ww[g].sum() <= 0:
                flat[y, x] = edge[y, x] = True
                continue
            out[:, y, x] = moments(v[inside], ww)
            if out[1, y, x] < 1e-20 * big**2:
                flat[y, x] = True
    return out, edge, flat


def compare(mon, clause, st, ref, edge, flat, rt=1e-7):
    for k, name in enumerate(MAPS):
        got = np.array(gen_plain(getattr(st, name + "_array")), float)
        want = ref[k].copy()
        bad = edge | (flat if k > 1 else False)
        got[bad] = want[bad] = np.nan
        mon.close(clause + "-" + name, got, want, rtol=rt, floor=1e-8,
                  atol=1e-7 if k > 1 else 0)


def gen_plain(a):
    return getattr(a, "value", a)


def hist_ok(mon, clause, h, vals, bins):
    vals = vals[~np.isnan(vals)]
    n, e = np.histogram(vals, bins)
    want = n / float(n.sum()) / np.diff(e)
    mon.close(clause + "-bins", h[0], (e[1:] + e[:-1]) / 2., rtol=1e-9)
    mon.close(clause, h[1], want, rtol=1e-8)
    wid = np.diff(e)
    mon.ok(clause + "-area", abs((np.asarray(h[1]) * wid).sum() - 1) < 1e-6,
           observed=(np.asarray(h[1]) * wid).sum())


def f_maps(sc, mon):
    from turbustat.statistics import StatMoments
    rng = gen.rng_of(sc["name"], sc["seed"])
    shape = tuple(sc["shape"])
    img = gen.punch(rng, gen.image(rng, shape, sc["kind"]), sc["nan"])
    pix = 10**rng.uniform(-4, -2)
    D = float(rng.uniform(50, 900))
    hdr = gen.header2d(shape, pix=pix)
    R = int(sc["R"])
    frac = 0.0 if sc["whole"] else float(rng.uniform(0.15, 0.85))
    r = R + frac
    if r > min(shape) / 2. - 1e-3:
        r = R
    rad = {"pix": r * u.pix, "deg": r * pix * u.deg,
           "arcsec": (r * pix * u.deg).to(u.arcsec),
           "pc": r * np.deg2rad(pix) * D * u.pc}[sc["unit"]]
    w = None
    wgt = np.ones(shape)
    if sc["w"] == "random":
        w = wgt = rng.uniform(0.2, 3., shape)
    elif sc["w"] == "missing":
        wgt = rng.uniform(0.2, 3., shape)
        wgt = w = gen.punch(rng, wgt, "one")
    elif sc["w"] == "zeros":
        wgt = rng.uniform(0.2, 3., shape)
        wgt[rng.uniform(size=shape) < 0.2] = 0.
        w = wgt
    mf = sc["mf"]
    k = {} if mf is None else dict(min_frac=mf)
    nb = sc["nbins"]
    o = {} if nb is None else dict(nbins=nb)
    st = StatMoments((img.copy(), hdr), weights=None if w is None
                     else w.copy(), radius=rad if not sc["late"]
                     else 2 * u.pix, distance=D * u.pc, **o)
    if sc["late"]:
        k["radius"] = rad
    hb = {}
    if sc["bins"]:
        for name in MAPS:
            hb[name] = None
    if sc["run"]:
        st.run(show_progress=False, periodic=sc["periodic"], **k)
    else:
        st.array_moments()
        st.compute_spatial_distrib(show_progress=False,
                                   periodic=sc["periodic"], **k)
        st.make_spatial_histograms()
    ref, edge, flat = reference(img, wgt, R, sc["periodic"],
                                0.8 if mf is None else mf)
    compare(mon, "map", st, ref, edge, flat)
    mon.ev("windows", int(np.isfinite(ref[0]).sum()))
    mon.ev("windows-missing", int(np.isnan(ref[0]).sum()))
    tot = moments(img.ravel(), wgt.ravel())
    for name, v in zip(MAPS, tot):
        mon.close("whole-" + name, float(getattr(st, name)), v, rtol=1e-8,
                  atol=1e-8)
    n = nb if nb is not None else int(np.sqrt(img.size))
    for name in MAPS:
        a = np.asarray(getattr(st, name + "_array"), float)
        hist_ok(mon, "hist-" + name, getattr(st, name + "_hist"), a, n)
        mon.close("extrema-" + name, np.array(getattr(st, name + "_extrema")),
                  np.array([np.nanmin(a), np.nanmax(a)]))
    if sc["bins"]:
        hk = {}
        for name in MAPS:
            a = np.asarray(getattr(st, name + "_array"), float)
            lo, hi = np.nanmin(a), np.nanmax(a)
            hk[name + "_bins"] = np.sort(np.r_[lo, rng.uniform(lo, hi, 7), hi])
        st.make_spatial_histograms(**hk)
        for name in MAPS:
            a = np.asarray(getattr(st, name + "_array"), float)
            hist_ok(mon, "given-bins-" + name, getattr(st, name + "_hist"), a,
                    hk[name + "_bins"])


def f_meta(sc, mon):
    from turbustat.statistics import StatMoments
    rng = gen.rng_of(sc["name"], sc["seed"])
    shape = tuple(sc["shape"])
    img = gen.punch(rng, gen.plaw2d(rng, shape, 2.5), sc["nan"])
    hdr = gen.header2d(shape)
    R = int(sc["R"])
    per = sc["periodic"]

    def run(a, w=None, h=None):
        st = StatMoments((a, h if h is not None else hdr), radius=R * u.pix,
                         weights=w)
        st.run(show_progress=False, periodic=per, min_frac=0.6)
        return [np.array(getattr(st, m + "_array")) for m in MAPS]
    w = rng.uniform(0.3, 2., shape) if sc["w"] else None
    base = run(img, w)
    c = float(rng.uniform(-20, 20))
    f = gen.factor(rng)
    tol = dict(rtol=1e-6, floor=1e-7)
    sh = run(img + c, w)
    mon.close("shift-mean", sh[0], base[0] + c, **tol)
    for j in (1, 2, 3):
        mon.close("shift-" + MAPS[j], sh[j], base[j], atol=1e-6, **tol)
    ml = run(img * f, w)
    for j, p in enumerate((f, f**2, 1., 1.)):
        mon.close("scale-" + MAPS[j], ml[j], base[j] * p, **tol)
    ng = run(-img, w)
    for j, p in enumerate((-1, 1, -1, 1)):
        mon.close("negate-" + MAPS[j], ng[j], base[j] * p, **tol)
    for nm, op in (("flipud", lambda a: a[::-1]),
                   ("fliplr", lambda a: a[:, ::-1]),
                   ("transpose", lambda a: a.T)):
        got = run(np.ascontiguousarray(op(img)),
                  None if w is None else np.ascontiguousarray(op(w)),
                  gen.header2d(op(img).shape))
        for j in range(4):
            mon.close(nm + "-" + MAPS[j], got[j], op(base[j]), **tol)
    if per:
        s = (int(rng.integers(1, shape[0])), int(rng.integers(1, shape[1])))
        got = run(np.roll(img, s, (0, 1)), None if w is None
                  else np.roll(w, s, (0, 1)))
        for j in range(4):
            mon.close("roll-" + MAPS[j], got[j], np.roll(base[j], s, (0, 1)),
                      **tol)
    if w is not None:
        got = run(img, w * f)
        for j in range(4):
            mon.close("weight-scale-" + MAPS[j], got[j], base[j], **tol)
    # a second run on one object leaves nothing behind
    st = StatMoments((img, hdr), radius=(R + 1) * u.pix, weights=w)
    st.run(show_progress=False, periodic=not per, min_frac=0.9)
    st.run(show_progress=False, periodic=per, min_frac=0.6, radius=R * u.pix)
    for j in range(4):
        mon.close("rerun-" + MAPS[j], getattr(st, MAPS[j] + "_array"), base[j],
                  rtol=1e-12)


def hell(a, b, bins):
    h = []
    for v in (a, b):
        v = v[np.isfinite(v)]
        n, e = np.histogram(v, bins)
        h.append(n / float(n.sum()) / np.diff(e))
    bw = np.diff(bins)[0]
    return (bw / np.sqrt(2.)) * np.sqrt(
        ((np.sqrt(h[0]) - np.sqrt(h[1]))**2).sum())


def f_dist(sc, mon):
    from turbustat.statistics import StatMoments, StatMoments_Distance
    rng = gen.rng_of(sc["name"], sc["seed"])
    s1, s2 = tuple(sc["shape"]), tuple(sc["shape2"])
    a = gen.punch(rng, gen.plaw2d(rng, s1, 2.4), sc["nan"])
    b = gen.punch(rng, gen.plaw2d(rng, s2, 3.4), "none")
    p1 = 1e-3
    rat = sc["ratio"]
    h1, h2 = gen.header2d(s1, pix=p1), gen.header2d(s2, pix=p1 * rat)
    R = 3
    R1 = int(round(R * rat)) if rat > 1 else R
    R2 = int(round(R / rat)) if rat < 1 else R
    rad = R * u.pix
    if sc["unit"] == "deg":
        rad = R * p1 * max(1., rat) * u.deg
        R1 = int(round(R * max(1., rat)))
        R2 = int(round(R * max(1., rat) / rat))
    k = {}
    if sc["nbins"]:
        k["nbins"] = sc["nbins"]
    per = sc["periodic"]
    mf = sc["mf"]
    k.update(periodic1=per, periodic2=not per, min_frac=mf)
    w1 = rng.uniform(0.3, 2., s1) if sc["w"] else None
    if sc["pre"] == "raw":
        A, B = (a, h1), (b, h2)
        k.update(weights1=w1)
    else:
        A = StatMoments((a, h1), weights=w1,
                        radius=(R1 if sc["pre"] == "same" else 6) * u.pix)
        B = StatMoments((b, h2), radius=(R2 if sc["pre"] == "same" else 6) *
                        u.pix)
        if sc["pre"] != "fresh":
            A.run(show_progress=False, periodic=per, min_frac=mf)
            B.run(show_progress=False, periodic=not per, min_frac=mf)
    dd = StatMoments_Distance(A, B, radius=rad, **k)
    dd.distance_metric()
    ra, ea, fa = reference(a, np.ones(s1) if w1 is None else w1, R1, per, mf)
    rb, eb, fb = reference(b, np.ones(s2), R2, not per, mf)
    if ea.any() or eb.any() or fa.any() or fb.any():
        mon.skip("a window sits on the valid-fraction limit")
        return
    compare(mon, "map1", dd.moments1, ra, ea, fa)
    compare(mon, "map2", dd.moments2, rb, eb, fb)
    n = sc["nbins"] or int(np.sqrt(min(a.size, b.size)))
    for j, name in ((2, "skewness"), (3, "kurtosis")):
        x = np.asarray(getattr(dd.moments1, name + "_array"), float)
        y = np.asarray(getattr(dd.moments2, name + "_array"), float)
        both = np.r_[x.ravel(), y.ravel()]
        bins = np.linspace(np.nanmin(both), np.nanmax(both), n)
        want = hell(x, y, bins)
        mon.close("distance-" + name, getattr(dd, name + "_distance"), want,
                  rtol=1e-7)
    dd.distance_metric(nbins=9)
    x = np.asarray(dd.moments1.skewness_array, float)
    y = np.asarray(dd.moments2.skewness_array, float)
    both = np.r_[x.ravel(), y.ravel()]
    mon.close("distance-nbins", dd.skewness_distance,
              hell(x, y, np.linspace(np.nanmin(both), np.nanmax(both), 9)),
              rtol=1e-7)


def f_reject(sc, mon):
    from turbustat.statistics import StatMoments
    rng = gen.rng_of(sc["name"], sc["seed"])
    shape = tuple(sc["shape"])
    img = gen.plaw2d(rng, shape, 2.5)
    hdr = gen.header2d(shape, pix=1e-3)
    S = StatMoments
    mon.raises("no-unit", TypeError, S, (img, hdr), radius=4)
    mon.raises("too-small", ValueError, S, (img, hdr), radius=1.9 * u.pix)
    mon.raises("too-large", ValueError, S, (img, hdr),
               radius=(min(shape) / 2. + 0.1) * u.pix)
    mon.raises("too-small-deg", ValueError, S, (img, hdr),
               radius=1.9e-3 * u.deg)
    mon.raises("bad-unit", Exception, S, (img, hdr), radius=4 * u.K)
    st = S((img, hdr), radius=3 * u.pix)
    for f in (0., -.2, 1.01):
        mon.raises("min-frac", ValueError, st.compute_spatial_distrib,
                   min_frac=f, show_progress=False)
        mon.raises("min-frac-run", ValueError, st.run, min_frac=f,
                   show_progress=False)
    st.compute_spatial_distrib(min_frac=1.0, show_progress=False)
    mon.ok("min-frac-one", np.isfinite(st.mean_array).all(),
           observed=st.mean_array)


FNS = {"maps": f_maps, "meta": f_meta, "dist": f_dist, "reject": f_reject}


def scenarios(tier, seed):
    out = []
    k = 2 if tier == "quick" else 8
    rng = gen.rng_of("p17", seed)
    kinds = [x for x in gen.IMAGE_KINDS if x != "sparse"]
    for i in range(64 * k):
        shape = gen.shapes2d(rng, 13, 34)
        R = int(rng.integers(2, min(shape) // 2 + 1))
        if i % 2:
            R = min(R, 5)
        sc = dict(name="maps-%d" % i, fn="maps", seed=seed, shape=shape, R=R,
                  kind=kinds[i % len(kinds)],
                  nan=gen.NAN_PATTERNS[(i // 2) % 7],
                  whole=bool(rng.integers(2)),
                  unit=["pix", "deg", "arcsec", "pc"][i % 4],
                  w=["none", "random", "missing", "zeros"][(i // 4) % 4],
                  mf=[None, 0.55, 0.93, 1.0, 0.31][i % 5],
                  periodic=bool(i % 3), late=bool(rng.integers(2)),
                  run=bool(rng.integers(3)), bins=bool(rng.integers(2)),
                  nbins=[None, 7, 23][i % 3])
        if sc["mf"] == 1.0:
            sc["nan"], sc["w"] = "none", "random"
        if sc["unit"] != "pix":     # stay off the limit: round-off in units
            sc["R"] = max(2, min(sc["R"], (min(shape) - 1) // 2))
        if sc["mf"] == 0.93 or not sc["periodic"]:
            sc["R"] = min(sc["R"], 4)
        if sc["mf"] == 0.93:
            sc["nan"] = ["none", "one"][i % 2]
        out.append(sc)
    for i in range(14 * k):
        out.append(dict(name="meta-%d" % i, fn="meta", seed=seed,
                        shape=gen.shapes2d(rng, 14, 26), R=2 + i % 4,
                        nan=["none", "one", "row", "corner"][i % 4],
                        w=bool(i % 2), periodic=bool(i % 3)))
    for i in range(24 * k):
        out.append(dict(name="dist-%d" % i, fn="dist", seed=seed,
                        shape=gen.shapes2d(rng, 18, 28),
                        shape2=gen.shapes2d(rng, 18, 28),
                        ratio=[1., 2., 0.5, 1.][i % 4],
                        unit=["pix", "deg"][(i // 4) % 2],
                        nbins=[None, 11][(i // 3) % 2],
                        periodic=bool(i % 2), mf=[0.8, 0.57][(i // 2) % 2],
                        nan=["none", "one"][i % 2],
                        w=bool((i // 2) % 2),
                        pre=["raw", "same", "other", "fresh"][(i // 8) % 4]
                        if i < 32 else
                        ["raw", "same", "other", "fresh"][i % 4]))
    for i in range(3 * k):
        out.append(dict(name="reject-%d" % i, fn="reject", seed=seed,
                        shape=gen.shapes2d(rng, 13, 30)))
    return out
