"""P22: dendrogram statistics follow the pruned trees."""
import os
import shutil
import tempfile

import numpy as np
from .. import gen

ID = "P22"
RULE = ("One evaluation = feature counts, peak values, fits, histograms or "
        "distances compared with trees built and pruned separately for each "
        "height and with explicit regressions and histograms; distinct = "
        "different (clause, content).")
ASSUMPTIONS = ["astrodendro builds and prunes trees as documented"]


def tree(data, params, delta0, periodic=None):
    from astrodendro import Dendrogram, periodic_neighbours
    nb = None
    if periodic is not None:
        nb = periodic_neighbours(periodic)
    return Dendrogram.compute(data, min_delta=delta0,
                              min_value=params["min_value"],
                              min_npix=params["min_npix"], neighbours=nb)


def at_heights(data, params, deltas, periodic=None):
    """Counts and peaks, each height pruned from its own copy of the tree."""
    num, peaks = [], []
    for i, d in enumerate(deltas):
        t = tree(data, params, deltas[0], periodic)
        if i:
            t.prune(min_delta=d)
        num.append(len(list(t.all_structures)))
        peaks.append(np.sort([np.max(s.values(subtree=False))
                              for s in t.all_structures]))
    return np.array(num), peaks


def tail(num, deltas, size):
    """(break index among counts > 1, x, y, slope, HC3 error)."""
    keep = num > 1
    y, x = num[keep], deltas[keep]
    h = (size - 1) // 2
    best, pos = -1., None
    for i in range(h, len(y) - h):
        s = np.std(y[i - h:i + h])
        if s > best:
            best, pos = s, i
    if pos is None or len(x[pos:]) < 2:
        return None
    lx, ly = np.log10(x[pos:]), np.log10(y[pos:])
    A = np.vstack([np.ones(lx.size), lx]).T
    XtX = np.linalg.inv(A.T @ A)
    b = XtX @ A.T @ ly
    r = ly - A @ b
    lev = np.einsum("ij,jk,ik->i", A, XtX, A)
    with np.errstate(all="ignore"):
        w = (r / (1 - lev))**2
    cov = XtX @ (A.T * w) @ A @ XtX
    return x[pos], lx, ly, b[1], np.sqrt(cov[1, 1]), lev


def make(rng, sc):
    shape = tuple(sc["shape"])
    if len(shape) == 2:
        data = gen.image(rng, shape, sc["kind"])
        hdr = gen.header2d(shape)
        per = [0, 1]
    else:
        data = gen.cube(rng, shape, "clean") + \
            0.05 * rng.standard_normal(shape)
        hdr = gen.header3d(shape)
        per = [1, 2]
    data = data / data.std()
    if sc.get("nan"):
        data = gen.punch(rng, data, sc["nan"])
    n = int(rng.integers(7, 16))
    deltas = np.logspace(-1.8, rng.uniform(-.3, .4), n) * \
        np.nanstd(data)
    params = {"min_value": float(np.nanpercentile(data, rng.uniform(0, 45))),
              "min_npix": int(rng.choice([1, 2, 4, 9])), "min_delta": 0.05}
    if rng.random() < .4:       # up to and above the tallest structure
        top = np.nanmax(data) - params["min_value"]
        deltas = np.append(deltas, np.sort(np.append(
            rng.uniform(deltas[-1], max(1.3 * top, 1.1 * deltas[-1]), 4),
            max(1.4 * top, 1.2 * deltas[-1]))))
    return data, hdr, per, deltas, params


def f_counts(sc, mon):
    from turbustat.statistics import Dendrogram_Stats
    rng = gen.rng_of(sc["name"], sc["seed"])
    data, hdr, per, deltas, params = make(rng, sc)
    give = {"array": deltas, "list": list(deltas)}[sc["give"]]
    keep, kp = data.copy(), dict(params)
    st = Dendrogram_Stats((data, hdr), min_deltas=give, dendro_params=params)
    mon.close("heights", st.min_deltas, deltas, rtol=0, floor=0)
    size = int(rng.choice([3, 5, 7]))
    num, peaks = at_heights(data, params, deltas,
                            per if sc["periodic"] else None)
    ref = tail(num, deltas, size)
    kw = dict(periodic_bounds=sc["periodic"], show_progress=False)
    if ref is None:
        try:
            st.run(fit_kwargs={"size": size}, **kw)
            mon.ok("unfittable", False, observed=num)
        except ValueError:
            mon.ok("unfittable", True, observed=num)
        st.compute_dendro(periodic_bounds=sc["periodic"])
        st.make_hists()
    else:
        st.run(fit_kwargs={"size": size}, **kw)
    mon.ev("structures", int(num.sum()))
    mon.ok("counts", np.array_equal(st.numfeatures, num),
           observed=np.array(st.numfeatures), want=num)
    mon.ok("counts-fall", (np.diff(st.numfeatures) <= 0).all(),
           observed=np.array(st.numfeatures))
    if mon.ok("one-set-per-height", len(st.values) == len(deltas),
              observed=len(st.values)):
        for v, w, k in zip(st.values, peaks, st.numfeatures):
            mon.ok("value-count", len(v) == k, observed=len(v))
            mon.close("peaks", np.sort(v), w, rtol=0, floor=0)
    mon.ok("inputs-kept", np.array_equal(data, keep, equal_nan=True) and
           params == kp, observed=len(deltas))
    if ref is not None:
        brk, lx, ly, slope, err, lev = ref
        mon.close("break", st.break_pos, brk, rtol=1e-12)
        mon.close("fit-x", st.fitvals[0], lx, rtol=1e-10)
        mon.close("fit-y", st.fitvals[1], ly, rtol=1e-10)
        # A level tail over a short span only has a slope up to rounding.
        span = np.ptp(lx)
        tiny = 1e-9 * (1 + np.abs(ly).max() / span if span > 0 else 1)
        mon.close("tail-slope", st.tail_slope, slope, rtol=1e-6,
                  atol=max(1e-9, tiny))
        if lev.max() < 1 - 1e-9:
            mon.close("tail-slope-err", st.tail_slope_err, err, rtol=1e-5,
                      atol=1e-9)
        mon.close("model", st.model.fittedvalues,
                  np.polyval(np.polyfit(lx, ly, 1), lx), rtol=1e-6,
                  atol=1e-8)
    # histograms
    hists(mon, st, peaks, {}, 10)
    nb = int(rng.integers(3, 12))
    mn = int(rng.integers(2, 40))
    st.make_hists(min_number=mn, bins=nb)
    hists(mon, st, peaks, {"bins": nb}, mn)
    ed = np.linspace(np.nanmin(data), np.nanmax(data), 9)
    st.make_hists(bins=ed, density=True)
    hists(mon, st, peaks, {"bins": ed, "density": True}, 10)
    for c, h in st.hists:
        if len(c):
            mon.close("density-normalised", np.sum(h) * (ed[1] - ed[0]), 1.,
                      rtol=1e-9)


def hists(mon, st, peaks, kw, mn):
    if not mon.ok("hists-per-height", len(st.hists) == len(peaks),
                  observed=len(st.hists)):
        return
    for (c, h), v in zip(st.hists, peaks):
        if len(v) < mn:
            mon.ok("few-structures", len(c) == 0 and len(h) == 0,
                   observed=len(v))
            continue
        k = dict(kw)
        k.setdefault("bins", int(np.sqrt(len(v))))
        w, e = np.histogram(v, **k)
        mon.close("hist-centres", c, (e[1:] + e[:-1]) / 2, rtol=1e-9,
                  floor=1e-12)
        mon.close("hist-counts", h, w, rtol=1e-9)
        if "bins" not in kw:
            mon.ok("hist-total", np.sum(h) == len(v), observed=int(np.sum(h)))


def f_same(sc, mon):
    """Other routes to the same tree; relations between trees."""
    from turbustat.statistics import Dendrogram_Stats
    rng = gen.rng_of(sc["name"], sc["seed"])
    data, hdr, per, deltas, params = make(rng, sc)
    per = per if sc["periodic"] else None

    def stats(d, h=hdr, dl=deltas, p=params, **k):
        s = Dendrogram_Stats((d, h), min_deltas=dl, dendro_params=p)
        s.compute_dendro(periodic_bounds=sc["periodic"], **k)
        return s

    base = stats(data)

    def same(clause, s, scale=1.0):
        mon.ok(clause, np.array_equal(s.numfeatures, base.numfeatures),
               observed=np.array(s.numfeatures), want=base.numfeatures)
        for a, b in zip(s.values, base.values):
            mon.close(clause + "-peaks", np.sort(a), np.sort(b) * scale,
                      rtol=1e-12)

    same("repeat", stats(data))
    same("ready-made", stats(data, dendro_obj=tree(data, params, deltas[0],
                                                   per)))
    # a finer ready-made tree is cut back to the smallest height
    fine = tree(data, params, deltas[0] / 4, per)
    s = stats(data, dendro_obj=fine)
    ref = tree(data, params, deltas[0] / 4, per)
    n = []
    for d in deltas:
        ref.prune(min_delta=d)
        n.append(len(ref))
    mon.ok("finer-ready-made", np.array_equal(s.numfeatures, n),
           observed=np.array(s.numfeatures), want=n)
    f = float(2.**rng.choice([-40, -9, 3, 35]))
    same("scaled", stats(data * f, dl=deltas * f,
                         p=dict(params, min_value=params["min_value"] * f)),
         f)
    ax = tuple(np.flatnonzero(rng.random(data.ndim) < .5))
    same("flipped", stats(np.flip(data, ax)))
    if data.ndim == 2:
        same("transposed", stats(data.T, h=gen.header2d(data.T.shape)))
    if per is not None:
        sh = [int(rng.integers(1, data.shape[a])) for a in per]
        same("rolled", stats(np.roll(data, sh, per)))
    # a subset of the heights, same start
    sub = np.concatenate([[0], 1 + np.sort(rng.choice(
        len(deltas) - 1, 4, replace=False))])
    s = stats(data, dl=deltas[sub])
    mon.ok("subset", np.array_equal(s.numfeatures, base.numfeatures[sub]),
           observed=np.array(s.numfeatures), want=base.numfeatures[sub])
    if sc["periodic"]:
        return
    d = tempfile.mkdtemp()
    try:
        name = os.path.join(d, "tree")
        s = stats(data, save_dendro=True, dendro_name=name)
        same("while-saving", s)
        r = Dendrogram_Stats.load_dendrogram(name + ".hdf5",
                                             min_deltas=deltas, header=hdr)
        r.compute_dendro()
        same("reloaded", r)
    finally:
        shutil.rmtree(d)


def f_setup(sc, mon):
    from turbustat.statistics import Dendrogram_Stats
    rng = gen.rng_of(sc["name"], sc["seed"])
    data, hdr, per, deltas, params = make(rng, sc)
    n = int(rng.integers(3, 15))
    st = Dendrogram_Stats((data, hdr), dendro_params=params, num_deltas=n)
    top = np.nanmax(data)
    w = np.linspace(params["min_delta"], top - params["min_value"], n + 1)[:-1]
    mon.close("auto-heights", st.min_deltas, w, rtol=1e-10)
    one = Dendrogram_Stats((data, hdr), dendro_params=params, min_deltas=None)
    mon.close("single-height", one.min_deltas, [params["min_delta"]])
    one.compute_dendro()
    k, pk = at_heights(data, params, [params["min_delta"]])
    mon.ok("single-count", np.array_equal(one.numfeatures, k),
           observed=np.array(one.numfeatures))
    mon.raises("single-fit", ValueError, one.fit_numfeat)
    num = Dendrogram_Stats((data, hdr), dendro_params=params, min_deltas=0.1)
    mon.close("scalar-height", num.min_deltas, [0.1])
    for bad in (deltas[::-1], np.r_[deltas, deltas[-1]], [0.3, 0.2]):
        mon.raises("order", ValueError, Dendrogram_Stats, (data, hdr),
                   min_deltas=bad, dendro_params=params)
    mon.raises("unknown-word", ValueError, Dendrogram_Stats, (data, hdr),
               min_deltas="automatic", dendro_params=params)
    mon.raises("save-needs-name", ValueError, one.compute_dendro,
               save_dendro=True)
    # the window that finds the break
    from turbustat.statistics.dendrograms.dendro_stats import std_window
    y = np.round(np.sort(rng.exponential(50, 30))[::-1])
    for size in (3, 5, 7):
        h = (size - 1) // 2
        ref = [np.std(y[i - h:i + h]) for i in range(h, len(y) - h)]
        p, s = std_window(y, size=size, return_results=True)
        mon.close("window", s, ref, rtol=1e-9)
        mon.ok("window-peak", p == int(np.argmax(ref)) + h and
               p == std_window(y, size=size), observed=int(p))
    from turbustat.statistics.dendrograms.mecdf import mecdf
    a = rng.random((4, 7))
    a[1, 5:] = np.nan
    m = mecdf(a)
    for r, g in zip(a, m):
        w = np.cumsum(r) / np.nansum(r)
        mon.close("ecdf", g, w, rtol=1e-9)
        mon.close("ecdf-ends-at-one", np.nanmax(g), 1., rtol=1e-9)


def f_window(sc, mon):
    """A window of `size` heights, as stated."""
    from turbustat.statistics.dendrograms.dendro_stats import std_window
    y = np.array([90., 71., 70., 40., 39., 38., 12., 9., 5., 4., 2., 1.])
    _, s = std_window(y, size=5, return_results=True)
    full = [np.std(y[i - 2:i + 3]) for i in range(2, len(y) - 2)]
    if np.allclose(s, [np.std(y[i - 2:i + 2])
                       for i in range(2, len(y) - 2)], rtol=1e-9):
        mon.ok("window-width", False, observed=np.asarray(s), want=full)
    else:
        mon.close("window-deviation", s, full, rtol=1e-9)


def zscore(v):
    return (v - v.mean()) / v.std()


def f_dist(sc, mon):
    from turbustat.statistics import Dendrogram_Stats, Dendrogram_Distance
    rng = gen.rng_of(sc["name"], sc["seed"])
    d1, hdr, per, deltas, params = make(rng, sc)
    rng2 = gen.rng_of(sc["name"], sc["seed"], 2)
    d2 = make(rng2, dict(sc, kind="plaw"))[0]
    d2 = d2 * (d1.std() / d2.std())
    p1 = params
    p2 = dict(params, min_value=float(np.percentile(d2, 20)))
    n1, k1 = at_heights(d1, p1, deltas)
    n2, k2 = at_heights(d2, p2, deltas)
    t1, t2 = tail(n1, deltas, 5), tail(n2, deltas, 5)
    if t1 is None or t2 is None:
        mon.skip("no tail to fit")
        return
    mf = int(rng.choice([4, 8, 15]))
    over = np.minimum(np.flatnonzero(n1 > mf).max(initial=0),
                      np.flatnonzero(n2 > mf).max(initial=0))
    kw = dict(min_deltas=deltas, min_features=mf, dendro_params=[p1, p2],
              dendro_kwargs={"show_progress": False})
    if sc["bins"]:
        kw["nbins"] = sc["bins"]
    if over == 0:
        mon.raises("too-few-features", ValueError, Dendrogram_Distance,
                   (d1, hdr), (d2, hdr), **kw)
        return
    st1 = Dendrogram_Stats((d1, hdr), min_deltas=deltas, dendro_params=p1)
    st2 = Dendrogram_Stats((d2, hdr), min_deltas=deltas, dendro_params=p2)
    if sc["how"] == "computed":
        st1.run(show_progress=False)
        st2.run(show_progress=False)
    if sc["how"] == "other":
        st1.min_deltas = deltas * 1.3
        st1.run(show_progress=False)
        st2.min_deltas = np.r_[deltas, deltas[-1] * 1.5]
        st2.run(show_progress=False)
    args = ((d1, hdr), (d2, hdr)) if sc["how"] == "data" else (st1, st2)
    kk = {"show_progress": False, "verbose": False, "make_hists": True}
    keep = dict(kk)
    kw["dendro_kwargs"] = kk
    dist = Dendrogram_Distance(*args, **kw).distance_metric()
    mon.ok("options-kept", kk == keep, observed=sorted(kk))
    mon.ok("cutoff", int(dist.cutoff) == over, observed=int(dist.cutoff))
    lev = max(t1[5].max(), t2[5].max())
    if lev < 1 - 1e-9 and np.hypot(t1[4], t2[4]) > 1e-6:
        mon.close("number-distance", dist.num_distance,
                  abs(t1[3] - t2[3]) / np.hypot(t1[4], t2[4]), rtol=1e-5,
                  atol=1e-8)
    hs = []
    for i in range(over):
        a, b = zscore(k1[i]), zscore(k2[i])
        nb = sc["bins"] or int(np.floor(np.sqrt((n1[i] + n2[i]) / 2.)))
        e = np.linspace(min(a.min(), b.min()), max(a.max(), b.max()), nb + 1)
        h1 = np.histogram(a, e)[0] / float(len(a))
        h2 = np.histogram(b, e)[0] / float(len(b))
        hs.append(np.sqrt(np.sum((np.sqrt(h1) - np.sqrt(h2))**2) / 2.))
        g1, g2 = dist.histograms1[i], dist.histograms2[i]
        mon.close("histogram1", g1[:nb], h1, rtol=1e-8)
        mon.close("histogram2", g2[:nb], h2, rtol=1e-8)
        mon.ok("padding", np.isnan(g1[nb:]).all(), observed=g1)
        mon.close("bins", dist.bins[i], e, rtol=1e-9, floor=1e-9)
        for m, h in ((dist.mecdf1[i], h1), (dist.mecdf2[i], h2)):
            mon.close("ecdf", m[:nb], np.cumsum(h), rtol=1e-8)
    mon.close("histogram-distance", dist.histogram_distance, np.mean(hs),
              rtol=1e-8)
    mon.ok("distance-range", 0 <= dist.histogram_distance <= 1 + 1e-12,
           observed=float(dist.histogram_distance))
    h0, m0 = dist.histogram_distance, dist.num_distance
    dist.distance_metric()
    mon.ok("distance-again", dist.histogram_distance == h0 and
           (dist.num_distance == m0 or np.isnan(m0)), observed=float(h0))


FNS = {"counts": f_counts, "same": f_same, "setup": f_setup, "dist": f_dist,
       "window": f_window}
KINDS = ["plaw", "lognorm", "blobs", "white"]


def scenarios(tier, seed):
    q = tier == "quick"
    rng = gen.rng_of("p22", seed)
    out = [dict(name="window-width", fn="window", seed=0)]

    def shape(r, big=34):
        if r % 4 == 3:
            return gen.grow(rng, rng.integers(6, 12, 3), .08)
        return gen.grow(rng, rng.integers(16, big, 2), .05)
    for r in range(120 if q else 300):
        out.append(dict(name="counts-%d" % r, fn="counts", shape=shape(r),
                        kind=KINDS[(r // 2) % 4], seed=seed,
                        give=["array", "list"][r % 2],
                        periodic=bool(r % 3 == 1),
                        nan=["", "", "scatter", "corner"][r % 4]
                        if r % 5 == 0 else ""))
    for r in range(72 if q else 200):
        out.append(dict(name="same-%d" % r, fn="same", shape=shape(r, 28),
                        kind=KINDS[(r // 2) % 4], periodic=bool(r % 2),
                        seed=seed))
    for r in range(16 if q else 100):
        out.append(dict(name="setup-%d" % r, fn="setup", shape=shape(r, 28),
                        kind=KINDS[r % 4], seed=seed))
    for r in range(80 if q else 200):
        out.append(dict(name="dist-%d" % r, fn="dist",
                        shape=[int(x) for x in rng.integers(24, 44, 2)],
                        kind=KINDS[r % 4], bins=[0, 0, 8][r % 3],
                        how=["data", "computed", "other", "fresh"][r % 4],
                        seed=seed))
    return out
