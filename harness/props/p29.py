"""P29: figures show the computed results and drawing changes nothing."""
import os
import shutil
import tempfile
import numpy as np
import astropy.units as u
from astropy.io import fits
from ..core import plain
from .. import gen
from ..stats import collect, compare

ID = "P29"
RULE = ("One evaluation = one drawn series, image, limit line or file compared "
        "with the results of the object it was drawn from, or one public "
        "result compared before and after drawing; distinct = different "
        "(clause, content).")

PIX = 3. / 3600.          # deg
DIST = 260. * u.pc


def unit_factor(unit):
    """Value in `unit` of one pixel."""
    if unit == u.pix:
        return 1.
    if unit.is_equivalent(u.deg):
        return (PIX * u.deg).to(unit).value
    return (np.deg2rad(PIX) * DIST).to(unit).value


class Shot(object):
    """What one saved figure contains."""

    def __init__(self, fig):
        self.lines, self.bars, self.images, self.err = [], [], [], []
        self.n_axes = len(fig.axes)
        for ax in fig.axes:
            for ln in ax.get_lines():
                x = np.asarray(ln.get_xdata(orig=False), float).ravel()
                y = np.asarray(ln.get_ydata(orig=False), float).ravel()
                self.lines.append((x, y))
            for im in ax.get_images():
                a = im.get_array()
                self.images.append(np.ma.filled(np.ma.asarray(
                    a, dtype=float), np.nan))
            for c in ax.containers:
                if hasattr(c, "patches"):
                    p = [b for b in c.patches if hasattr(b, "get_height")]
                    self.bars.append((
                        np.array([b.get_x() + b.get_width() / 2. for b in p]),
                        np.array([b.get_height() for b in p])))
                elif getattr(c, "has_yerr", False):
                    for col in c[2]:
                        s = [np.asarray(v) for v in col.get_segments()]
                        s = [v for v in s if len(v) == 2 and
                             v[0, 0] == v[1, 0]]
                        if s:
                            self.err.append((
                                np.array([v[0, 0] for v in s]),
                                np.array([abs(v[1, 1] - v[0, 1]) / 2.
                                          for v in s])))
            for p in ax.patches:
                pass


def shoot(mon, tag, obj, fn, fname, **kw):
    """Call a drawing method; return the figures that were saved."""
    import matplotlib.pyplot as plt
    from matplotlib.figure import Figure
    plt.close("all")
    shots = []
    orig = Figure.savefig

    def hook(fig, *a, **k):
        shots.append(Shot(fig))
        return orig(fig, *a, **k)

    work = tempfile.mkdtemp()
    here = os.getcwd()
    before = collect(obj)
    rc = dict(plt.rcParams)
    np.random.seed(99)
    state = np.random.get_state()[1].tobytes()
    try:
        os.chdir(work)
        Figure.savefig = hook
        fn(save_name=fname, **kw)
        Figure.savefig = orig
        os.chdir(here)
        found = sorted(os.listdir(work))
        mon.ok("file-written", found == [fname], observed=found, want=fname,
               what=tag)
        if fname in found:
            mon.ok("file-not-empty",
                   os.path.getsize(os.path.join(work, fname)) > 500, what=tag)
    finally:
        Figure.savefig = orig
        os.chdir(here)
        shutil.rmtree(work, ignore_errors=True)
    mon.ok("no-figure-left-open", len(plt.get_fignums()) == 0,
           observed=len(plt.get_fignums()), what=tag)
    mon.ok("random-state-kept",
           np.random.get_state()[1].tobytes() == state, what=tag)
    now = dict(plt.rcParams)
    mon.ok("plot-settings-kept", all(str(now[k]) == str(rc[k]) for k in rc),
           what=tag)
    compare(mon, "results-kept", collect(obj), before, exact=True, what=tag)
    plt.close("all")
    return shots


def tidy(x, y):
    x, y = np.asarray(x, float).ravel(), np.asarray(y, float).ravel()
    g = np.isfinite(x) & np.isfinite(y)
    i = np.lexsort((y[g], x[g]))
    return x[g][i], y[g][i]


def forms(x, y):
    """The same points on linear or logarithmic axes."""
    with np.errstate(all="ignore"):
        for a in (x, np.log10(x)):
            for b in (y, np.log10(y)):
                yield tidy(a, b)


def near(a, b, rtol=1e-6):
    if len(a) != len(b):
        return False
    s = np.max(np.abs(b)) if len(b) else 0
    return np.allclose(a, b, rtol=rtol, atol=1e-9 * s)


def has_points(series, x, y):
    for w in forms(np.asarray(x, float), np.asarray(y, float)):
        if len(w[0]) == 0:
            continue
        for s in series:
            t = tidy(*s)
            if near(t[0], w[0]) and near(t[1], w[1]):
                return True
    return False


def has_curve(series, model, rtol=1e-5, n=3):
    """Some series of >= n points whose y is model(x), lin or log."""
    for x, y in series:
        x, y = tidy(x, y)
        if len(np.unique(x)) < n:
            continue
        with np.errstate(all="ignore"):
            for a in (x, 10.**x if np.all(np.abs(x) < 30) else None):
                if a is None:
                    continue
                m = model(a)
                for w in (m, np.log10(m)):
                    if w is not None and np.all(np.isfinite(w)) and \
                            np.allclose(w, y, rtol=rtol,
                                        atol=1e-7 * np.abs(y).max()):
                        return True
    return False


def has_vline(series, v):
    for x, y in series:
        x = x[np.isfinite(x)]
        if len(x) == 2 and x[0] == x[1] and (
                np.isclose(x[0], v, rtol=1e-6) or
                (v > 0 and np.isclose(x[0], np.log10(v), rtol=1e-6,
                                      atol=1e-9))):
            return True
    return False


def has_image(images, a):
    a = np.asarray(a, float)
    for im in images:
        if im.shape != a.shape:
            continue
        for w in (a, np.log10(np.where(a > 0, a, np.nan))):
            # an infinite value may be masked
            g, f = np.isfinite(im), np.isfinite(w)
            if np.array_equal(g, f) and f.any() and \
                    np.allclose(im[f], w[f], rtol=1e-6):
                return True
    return False


def curve_checks(mon, tag, shot, x, y, model, limits, err=None):
    mon.ok("data-drawn", has_points(shot.lines, x, y),
           observed=np.asarray(y), what=tag)
    mon.ok("fit-drawn", has_curve(shot.lines, model), what=tag,
           observed=limits)
    for v in limits:
        mon.ok("limits-drawn", has_vline(shot.lines, v), observed=v, what=tag)
    if err is not None:
        good = any(near(tidy(*e)[1], tidy(x, err)[1], 1e-5)
                   for e in shot.err)
        mon.ok("errors-drawn", good, observed=np.asarray(err), what=tag)


def one(mon, tag, shots):
    return mon.ok("one-figure", len(shots) == 1, observed=len(shots),
                  what=tag)


NAMES = ["fig.png", "a b.png", "out.v1.png", "plot.pdf", "UPPER.PNG"]


def f_pspec(sc, mon):
    from turbustat.statistics import PowerSpectrum, VCA, MVC
    rng = gen.rng_of(sc["name"], sc["seed"])
    n = (int(rng.integers(30, 46)), int(rng.integers(30, 46)))
    h = gen.header2d(n, pix=PIX)
    if sc["which"] == "image":
        s = PowerSpectrum(gen.image(rng, n, "plaw"), header=h, distance=DIST)
    elif sc["which"] == "cube":
        c = (8,) + n
        s = VCA(gen.cube(rng, c, "lines"), header=gen.header3d(c, pix=PIX),
                distance=DIST)
    else:
        s = MVC(gen.plaw2d(rng, n), np.exp(.3 * gen.plaw2d(rng, n)),
                1 + np.abs(gen.plaw2d(rng, n)), header=h, distance=DIST)
    unit = u.Unit(sc["unit"])
    k = 1. / unit_factor(unit)
    wn = sc["wave"]
    lo, hi = .07, .4
    fk = dict(brk=.18 / u.pix, min_fits_pts=3) if sc["brk"] else {}
    s.compute_pspec()
    s.compute_radial_pspec()
    s.fit_pspec(low_cut=lo / u.pix, high_cut=hi / u.pix, **fk)
    name = NAMES[sc["i"] % len(NAMES)]
    o = dict(xunit=1 / unit, use_wavenumber=wn, show_residual=sc["res"],
             fillin_errs=sc["fill"])
    if sc["show2"]:
        s.fit_2Dpspec(low_cut=lo / u.pix, high_cut=hi / u.pix,
                      bootstrap=False)
        o["show_2D"] = True
    shots = shoot(mon, "plot_fit", s, s.plot_fit, name, **o)
    if not one(mon, "plot_fit", shots):
        return
    f = plain(s.freqs) * k
    if wn:
        k = k * min(n)
        f = plain(s.wavenumbers) / unit_factor(unit)
        mon.close("wavenumber", plain(s.wavenumbers),
                  plain(s.freqs) * min(n))
    sh = shots[0]
    if np.size(s.slope) == 1:
        c = np.asarray(s.fit.params)

        def model(x):
            return 10**(c[0] + c[1] * np.log10(x / k))
        curve_checks(mon, "plot_fit", sh, f, s.ps1D, model,
                     [lo * k, hi * k])
        if sc["res"]:
            r = np.log10(s.ps1D) - np.log10(model(f))
            mon.ok("residuals-drawn", has_points(sh.lines, f, r),
                   observed=r, what="plot_fit")
    else:
        mon.ok("data-drawn", has_points(sh.lines, f, s.ps1D),
               observed=s.ps1D, what="plot_fit broken")
    if not sc["fill"]:
        e = .434 * s.ps1D_stddev / s.ps1D
        mon.ok("errors-drawn", any(near(tidy(*v)[1], tidy(f, e)[1], 1e-4)
                                   for v in sh.err), observed=e)
    if sc["show2"]:
        mon.ok("surface-drawn", has_image(sh.images, plain(s.ps2D)),
               observed=plain(s.ps2D))


def f_run(sc, mon):
    """run(verbose=True, save_name=...) gives the results of a quiet run."""
    from .. import stats as R
    rng = gen.rng_of(sc["name"], sc["seed"])
    S = {"PowerSpectrum": R.SPspec, "VCA": R.SVca, "MVC": R.SMvc,
         "VCS": R.SVcs, "Wavelet": R.SWave, "DeltaVariance": R.SDelVar,
         "Bispectrum": R.SBispec, "Genus": R.SGenus, "StatMoments": R.SMom,
         "Tsallis": R.STsallis, "PDF": R.SPdf, "SCF": R.SScf,
         "PCA": R.SPca, "Dendrogram_Stats": R.SDendro}[sc["stat"]](sc["stat"])
    shape = (32, 30)
    data, ctor, opts, quiet = make(S, sc["stat"], rng, shape)
    np.random.seed(3)
    a = data()
    a.run(**quiet)
    b = data()
    work = tempfile.mkdtemp()
    here = os.getcwd()
    import matplotlib.pyplot as plt
    plt.close("all")
    try:
        os.chdir(work)
        np.random.seed(3)
        b.run(**dict(quiet, verbose=True, save_name="v.png"))
        found = os.listdir(work)
    finally:
        os.chdir(here)
        shutil.rmtree(work, ignore_errors=True)
    mon.ok("file-written", found == ["v.png"], observed=found, what="run")
    mon.ok("no-figure-left-open", len(plt.get_fignums()) == 0,
           observed=len(plt.get_fignums()), what="run")
    plt.close("all")
    compare(mon, "verbose-same-results", collect(b), collect(a),
            what=sc["stat"])


def make(S, name, rng, shape):
    import turbustat.statistics as T
    h = gen.header2d(shape, pix=PIX)
    a = gen.image(rng, shape, "positive")
    c = gen.cube(rng, (20,) + shape, "lines")
    h3 = gen.header3d(c.shape, pix=PIX)
    q = {}
    if name in ("PowerSpectrum", "VCA", "MVC"):
        q = dict(fit_2D=bool(rng.random() < .5),
                 fit_2D_kwargs=dict(niters=3))
    if name in ("Wavelet", "DeltaVariance", "StatMoments", "Bispectrum",
                "SCF", "PCA", "Dendrogram_Stats"):
        q["show_progress"] = False
    if name == "SCF":
        q["fit_2D_kwargs"] = dict(niters=3)
    if name == "PCA":
        q.update(min_eigval=1e-3, brunt_beamcorrect=False)
    if name == "Bispectrum":
        q["nsamples"] = 20
    b = dict(
        PowerSpectrum=lambda: T.PowerSpectrum(a, header=h),
        VCA=lambda: T.VCA(c, header=h3),
        MVC=lambda: T.MVC(gen.plaw2d(np.random.default_rng(1), shape), a,
                          np.sqrt(a), header=h),
        VCS=lambda: T.VCS(c, header=h3),
        Wavelet=lambda: T.Wavelet(a, header=h, num=10),
        DeltaVariance=lambda: T.DeltaVariance(a, header=h, nlags=8),
        Bispectrum=lambda: T.Bispectrum(a),
        Genus=lambda: T.Genus(fits.PrimaryHDU(a, h), numpts=15,
                              smoothing_radii=[1, 2] * u.pix),
        StatMoments=lambda: T.StatMoments(a, header=h, radius=3 * u.pix),
        Tsallis=lambda: T.Tsallis(a, header=h, lags=[1, 3] * u.pix),
        PDF=lambda: T.PDF(np.abs(a) + .1),
        SCF=lambda: T.SCF(c, header=h3, size=7),
        PCA=lambda: T.PCA(fits.PrimaryHDU(c, h3)),
        Dendrogram_Stats=lambda: T.Dendrogram_Stats(
            a, header=h, min_deltas=np.logspace(-2, 0, 10) * float(np.ptp(a)),
            dendro_params=dict(min_value=float(np.percentile(a, 10)),
                               min_npix=2, min_delta=.01)))
    return b[name], {}, {}, q


def f_vcs(sc, mon):
    from turbustat.statistics import VCS
    rng = gen.rng_of(sc["name"], sc["seed"])
    shape = (int(rng.integers(30, 60)), 8, 9)
    dv = float(rng.uniform(50, 400))
    s = VCS(gen.cube(rng, shape, "lines"),
            header=gen.header3d(shape, pix=PIX, dv=dv))
    lo, hi = .06, .4
    s.compute_pspec()
    s.fit_pspec(low_cut=lo / u.pix, high_cut=hi / u.pix)
    unit = u.Unit(sc["unit"])
    k = 1. if unit == 1 / u.pix else (1. / (dv * u.m / u.s)).to(unit).value
    shots = shoot(mon, "plot_fit", s, s.plot_fit, NAMES[sc["i"] % 5],
                  xunit=unit, show_residual=sc["res"])
    if not one(mon, "vcs", shots):
        return
    n = shape[0]
    f = plain(s.freqs)[1:n // 2] * k
    y = s.ps1D[1:n // 2]
    sh = shots[0]
    mon.ok("data-drawn", has_points(sh.lines, f, y), observed=y, what="vcs")
    for v in (lo, hi):
        mon.ok("limits-drawn", has_vline(sh.lines, v * k), observed=v,
               what="vcs")
    if np.size(s.slope) == 1:
        p = s.fit.params

        def model(x):
            return 10**(p[0] + p[1] * np.log10(x / k))
        mon.ok("fit-drawn", has_curve(sh.lines, model), observed=f)


def f_lag(sc, mon):
    """Wavelet and delta-variance curves."""
    from turbustat.statistics import Wavelet, DeltaVariance
    rng = gen.rng_of(sc["name"], sc["seed"])
    n = (int(rng.integers(36, 50)), int(rng.integers(36, 50)))
    h = gen.header2d(n, pix=PIX)
    a = gen.image(rng, n, "plaw")
    unit = u.Unit(sc["unit"])
    k = unit_factor(unit)
    own = sc["own"]
    lags = np.array([3., 4., 5.5, 7, 9, 11.])
    q = lags * u.pix
    if own == "angle":
        q = (lags * PIX * u.deg).to(u.arcmin)
    elif own == "pc":
        q = (np.deg2rad(lags * PIX) * DIST).to(u.pc)
    lo, hi = 3.5, 10.
    if sc["which"] == "wavelet":
        s = Wavelet(a, header=h, distance=DIST, scales=q)
        s.compute_transform(show_progress=False)
        s.fit_transform(xlow=lo * u.pix, xhigh=hi * u.pix)
        x, y, e, plot = lags, s.values, s.stddev, s.plot_transform
    else:
        s = DeltaVariance(a, header=h, distance=DIST, lags=q)
        s.compute_deltavar(show_progress=False)
        s.fit_plaw(xlow=lo * u.pix, xhigh=hi * u.pix)
        x, y, e, plot = lags, s.delta_var, s.delta_var_error, s.plot_fit
    shots = shoot(mon, sc["which"], s, plot, NAMES[sc["i"] % 5], xunit=unit,
                  show_residual=sc["res"])
    if not one(mon, sc["which"], shots):
        return
    c = np.asarray(s.fit.params)

    def model(v):
        return 10**(c[0] + c[1] * np.log10(v / k))
    curve_checks(mon, sc["which"], shots[0], x * k, y, model,
                 [lo * k, hi * k], err=e)
    if sc["res"]:
        r = y - model(x * k)
        mon.ok("residuals-drawn", has_points(shots[0].lines, x * k, r),
               observed=r, what=sc["which"])


def f_scf(sc, mon):
    from turbustat.statistics import SCF
    rng = gen.rng_of(sc["name"], sc["seed"])
    shape = (8, 24, 26)
    s = SCF(gen.cube(rng, shape, "lines"),
            header=gen.header3d(shape, pix=PIX), distance=DIST,
            size=int(rng.choice([7, 9, 11])))
    s.compute_surface(show_progress=False)
    s.compute_spectrum()
    lo, hi = .8, 3.4
    s.fit_plaw(xlow=lo * u.pix, xhigh=hi * u.pix)
    if sc["two"]:
        s.fit_2Dplaw(bootstrap=False)
    unit = u.Unit(sc["unit"])
    k = unit_factor(unit)
    shots = shoot(mon, "scf", s, s.plot_fit, NAMES[sc["i"] % 5], xunit=unit,
                  show_surface=sc["surf"], show_residual=sc["res"])
    if not one(mon, "scf", shots):
        return
    x, y = plain(s.lags.to(u.pix)), s.scf_spectrum
    c = np.asarray(s.fit.params)

    def model(v):
        return 10**(c[0] + c[1] * np.log10(v / k))
    curve_checks(mon, "scf", shots[0], x * k, y, model, [],
                 err=s.scf_spectrum_stddev)
    for v in (s.xlow, s.xhigh):
        v = v.to(u.pix).value * k
        mon.ok("limits-drawn", has_vline(shots[0].lines, v), observed=v)
    if sc["surf"]:
        mon.ok("surface-drawn", has_image(shots[0].images, s.scf_surface),
               observed=s.scf_surface)


def f_maps(sc, mon):
    import turbustat.statistics as T
    rng = gen.rng_of(sc["name"], sc["seed"])
    n = (int(rng.integers(22, 34)), int(rng.integers(22, 34)))
    a = gen.image(rng, n, "positive")
    h = gen.header2d(n, pix=PIX)
    nm = NAMES[sc["i"] % 5]
    w = sc["which"]
    if w == "bispec":
        s = T.Bispectrum(a)
        s.run(show_progress=False, nsamples=20)
        for both in (True, False):
            sh = shoot(mon, w, s, s.plot_surface, nm, show_bicoh=both)
            if one(mon, w, sh):
                mon.ok("surface-drawn", has_image(
                    sh[0].images, s.bispectrum_logamp),
                    observed=s.bispectrum_logamp)
                mon.ok("bicoherence-drawn", has_image(
                    sh[0].images, s.bicoherence) == both,
                    observed=s.bicoherence)
    elif w == "moments":
        s = T.StatMoments(a, header=h, radius=3 * u.pix)
        s.run(show_progress=False)
        sh = shoot(mon, w, s, s.plot_maps, nm)
        if one(mon, w, sh):
            for i, m in enumerate((s.mean_array, s.variance_array,
                                   s.skewness_array, s.kurtosis_array)):
                mon.ok("map-drawn", has_image(sh[0].images, m), observed=m,
                       order=i)
        sh = shoot(mon, w, s, s.plot_histograms, nm)
        if one(mon, w, sh):
            for i, m in enumerate((s.mean_hist, s.variance_hist,
                                   s.skewness_hist, s.kurtosis_hist)):
                mon.ok("histogram-drawn", has_points(sh[0].lines, *m),
                       observed=m[1], order=i)
    elif w == "genus":
        r = [1, 2, 3][:int(rng.integers(1, 4))]
        s = T.Genus(fits.PrimaryHDU(a, h), numpts=14,
                    smoothing_radii=r * u.pix)
        s.run()
        for std in (False, True):
            sh = shoot(mon, w, s, s.plot_fit, nm, standardize=std)
            if not one(mon, w, sh):
                continue
            for i in range(len(r)):
                t = plain(s.thresholds)
                if std:
                    t = (t - s.smoothed_means[i]) / s.smoothed_stds[i]
                mon.ok("curve-drawn", has_points(
                    sh[0].lines, t, s.genus_stats[i]),
                    observed=s.genus_stats[i], standardize=std)
    elif w == "tsallis":
        lg = [1, 2, 4][:int(rng.integers(1, 4))]
        s = T.Tsallis(a, header=h, lags=lg * u.pix)
        s.run()
        sh = shoot(mon, w, s, s.plot_fit, nm)
        if one(mon, w, sh):
            for i in range(len(lg)):
                x, y = s.lag_distribs[i]
                mon.ok("histogram-drawn", has_points(sh[0].lines, x, y),
                       observed=y, lag=i)
                la, w2, q = s.tsallis_params[i]
                with np.errstate(all="ignore"):
                    m = -1 / (q - 1) * (np.log10(
                        1 + (q - 1) * x**2 / w2) + la)
                mon.ok("fit-drawn", any(near(tidy(*v)[1], tidy(x, m)[1],
                                             1e-5) for v in sh[0].lines),
                       observed=m, lag=i)
        sh = shoot(mon, w, s, s.plot_parameters, nm)
        if one(mon, w, sh):
            for c in ("logA", "w2", "q"):
                y = np.array(s.tsallis_table[c])
                mon.ok("parameters-drawn", has_points(
                    sh[0].lines, np.array(lg, float), y), observed=y, what=c)
                e = np.array(s.tsallis_table[c + "_stderr"])
                mon.ok("errors-drawn", any(
                    near(tidy(*v)[1], tidy(lg, e)[1], 1e-5)
                    for v in sh[0].err) or not np.isfinite(e).all(),
                    observed=e, what=c)
    elif w == "pdf":
        from scipy.stats import lognorm
        s = T.PDF(np.abs(a) + .1)
        s.run(do_fit=sc["i"] % 2 == 0)
        for ec in (True, False):
            sh = shoot(mon, w, s, s.plot_distrib, nm, show_ecdf=ec)
            if not one(mon, w, sh):
                continue
            mon.ok("density-drawn", has_points(sh[0].lines, s.bins, s.pdf),
                   observed=s.pdf)
            mon.ok("ecdf-drawn", has_points(sh[0].lines, s.bins,
                                            s.ecdf) == ec, observed=s.ecdf)
            if sc["i"] % 2 == 0:
                p = s.model_params
                mon.ok("fit-drawn", has_curve(
                    sh[0].lines, lambda v: lognorm.pdf(
                        v, p[0], scale=p[1]), n=20), observed=p)
    elif w == "dendro":
        p = dict(min_value=float(np.percentile(a, 10)), min_npix=2,
                 min_delta=.01)
        s = T.Dendrogram_Stats(a, header=h, dendro_params=p,
                               min_deltas=np.logspace(-2, 0, 10) *
                               float(np.ptp(a)))
        s.compute_dendro()
        s.fit_numfeat()
        s.make_hists(min_number=2)
        for hist in (True, False):
            sh = shoot(mon, w, s, s.plot_fit, nm, show_hists=hist)
            if not one(mon, w, sh):
                continue
            x, y = plain(s.fitvals[0]), plain(s.fitvals[1])
            mon.ok("data-drawn", any(
                near(v[0], x) and near(v[1], y) for v in sh[0].lines),
                observed=y)
            k = [b for b in s.hists if len(b[0]) >= 1] if hist else []
            mon.ok("histograms-drawn", len(sh[0].bars) == len(k) and all(
                any(near(tidy(*v)[0], tidy(*b)[0], 1e-5) and
                    near(tidy(*v)[1], tidy(*b)[1], 1e-5)
                    for v in sh[0].bars) for b in k), observed=len(k))


def f_pca(sc, mon):
    from turbustat.statistics import PCA
    rng = gen.rng_of(sc["name"], sc["seed"])
    c = gen.cube(rng, (24, 26, 27), "lines")
    dv = 150.
    s = PCA(fits.PrimaryHDU(c, gen.header3d(c.shape, pix=PIX, dv=dv)),
            distance=DIST)
    s.run(show_progress=False, min_eigval=1e-3, brunt_beamcorrect=False)
    su, vu = u.Unit(sc["unit"]), u.Unit(sc["vunit"])
    k = unit_factor(su)
    kv = 1. if vu == u.pix else (dv * u.m / u.s).to(vu).value
    o = dict(spatial_unit=su, spectral_unit=vu, show_residual=sc["res"],
             show_cov_bar=sc["cov"])
    shots = shoot(mon, "pca", s, s.plot_fit, NAMES[sc["i"] % 5], **o)
    if not one(mon, "pca", shots):
        return
    x = s.spatial_width(u.pix).value
    y = s.spectral_width(u.pix).value
    mon.ok("data-drawn", has_points(shots[0].lines, np.log10(x * k),
                                    np.log10(y * kv)), observed=y)
    b = np.log10(s.intercept(u.pix).value)

    def model(v):
        return 10**(b + s.index * np.log10(v / k)) * kv
    mon.ok("fit-drawn", has_curve(shots[0].lines, model, n=8), observed=b)
    if sc["cov"]:
        mon.ok("covariance-drawn", has_image(shots[0].images, s.cov_matrix),
               observed=s.cov_matrix)
        mon.ok("eigenvalues-drawn", any(
            near(v[1], s.eigvals[:s.n_eigs]) for v in shots[0].bars),
            observed=s.eigvals[:s.n_eigs])
        m = int(rng.integers(1, s.n_eigs + 1))
        shots = shoot(mon, "pca", s, s.plot_fit, "e.png", n_eigs=m, **o)
        if one(mon, "pca", shots):
            mon.ok("eigenvalues-drawn", any(
                near(v[1], s.eigvals[:m]) for v in shots[0].bars),
                observed=s.eigvals[:m], asked=m)


def f_dist(sc, mon):
    """Comparison figures: written where asked, distances unchanged."""
    import turbustat.statistics as T
    rng = gen.rng_of(sc["name"], sc["seed"])
    n = (30, 32)
    h = gen.header2d(n, pix=PIX)
    a, b = gen.image(rng, n, "positive"), gen.image(rng, n, "positive")
    c, d = gen.cube(rng, (14,) + n, "lines"), gen.cube(rng, (14,) + n,
                                                       "lines")
    h3 = gen.header3d(c.shape, pix=PIX)
    lg = [3., 5, 8, 11] * u.pix
    B = dict(
        pspec=lambda: T.PSpec_Distance((a, h), (b, h)),
        vca=lambda: T.VCA_Distance((c, h3), (d, h3)),
        vcs=lambda: T.VCS_Distance((c, h3), (d, h3)),
        wavelet=lambda: T.Wavelet_Distance((a, h), (b, h), num=10),
        delvar=lambda: T.DeltaVariance_Distance((a, h), (b, h), lags=lg),
        bispec=lambda: T.Bispectrum_Distance(
            a, b, stat_kwargs=dict(nsamples=10)),
        genus=lambda: T.Genus_Distance((a, h), (b, h), numpts=12,
                                       smoothing_radii=[1.] * u.pix),
        moments=lambda: T.StatMoments_Distance((a, h), (b, h),
                                               radius=3 * u.pix),
        pdf=lambda: T.PDF_Distance(np.abs(a) + .1, np.abs(b) + .1),
        pca=lambda: T.PCA_Distance((c, h3), (d, h3), n_eigs=5),
        scf=lambda: T.SCF_Distance((c, h3), (d, h3), size=5,
                                   show_progress=False),
        cramer=lambda: T.Cramer_Distance(c, d))
    make_ = B[sc["which"]]
    ref = make_()
    ref.distance_metric()
    D = make_()
    import matplotlib.pyplot as plt
    plt.close("all")
    work = tempfile.mkdtemp()
    here = os.getcwd()
    nm = NAMES[sc["i"] % 5]
    from matplotlib.figure import Figure
    shots = []
    orig = Figure.savefig

    def hook(fig, *p, **q):
        shots.append(Shot(fig))
        return orig(fig, *p, **q)
    try:
        os.chdir(work)
        Figure.savefig = hook
        D.distance_metric(verbose=True, save_name=nm)
        found = sorted(os.listdir(work))
    finally:
        Figure.savefig = orig
        os.chdir(here)
        shutil.rmtree(work, ignore_errors=True)
    mon.ok("file-written", found == [nm], observed=found, want=nm,
           what=sc["which"])
    mon.ok("no-figure-left-open", len(plt.get_fignums()) == 0,
           observed=len(plt.get_fignums()), what=sc["which"])
    plt.close("all")
    if one(mon, sc["which"], shots):
        both_drawn(mon, sc["which"], D, shots[0])
    names = [k for k in collect(ref) if "distance" in k]
    compare(mon, "verbose-same-distance", collect(D), collect(ref),
            names=names, what=sc["which"])


def both_drawn(mon, which, D, sh):
    """Both data sets' own results appear in the comparison figure."""
    want = []
    if which in ("pspec", "vca"):
        for o in ((D.pspec1, D.pspec2) if which == "pspec" else
                  (D.vca1, D.vca2)):
            want.append((plain(o.freqs), o.ps1D))
    elif which == "vcs":
        for o in (D.vcs1, D.vcs2):
            n = len(o.ps1D) // 2
            want.append((plain(o.freqs)[1:n], o.ps1D[1:n]))
    elif which == "wavelet":
        for o in (D.wt1, D.wt2):
            want.append((plain(o.scales), o.values))
    elif which == "delvar":
        for o in (D.delvar1, D.delvar2):
            want.append((plain(o.lags), o.delta_var))
    elif which in ("pca", "bispec", "scf"):
        for o in {"pca": ("pca1", "pca2"), "bispec": ("stat1", "stat2"),
                  "scf": ("scf1", "scf2")}[which]:
            o = getattr(D, o, None)
            a = None if o is None else getattr(
                o, {"pca": "cov_matrix", "bispec": "bicoherence",
                    "scf": "scf_surface"}[which], None)
            if a is None:
                return
            mon.ok("both-surfaces-drawn", has_image(sh.images, a),
                   observed=a, what=which)
        return
    for x, y in want:
        mon.ok("both-curves-drawn", has_points(sh.lines, x, y), observed=y,
               what=which)


FNS = {"pspec": f_pspec, "run": f_run, "vcs": f_vcs, "lag": f_lag,
       "scf": f_scf, "maps": f_maps, "pca": f_pca, "dist": f_dist}


def scenarios(tier, seed):
    k = 1 if tier == "quick" else 8
    out = []
    i = 0
    for j in range(k):
        for which in ("image", "cube", "mvc"):
            for unit in ("pix", "arcsec", "pc"):
                for v in range(4):
                    out.append(dict(
                        name="pspec-%s-%s-%d-%d" % (which, unit, v, j),
                        fn="pspec", seed=seed, which=which, unit=unit,
                        wave=v == 1, brk=v == 3, res=(v + j) % 2 == 0,
                        fill=v != 2, show2=v == 2, i=i))
                    i += 1
        for st in ("PowerSpectrum", "VCA", "MVC", "VCS", "Wavelet",
                   "DeltaVariance", "Bispectrum", "Genus", "StatMoments",
                   "Tsallis", "PDF", "SCF", "PCA", "Dendrogram_Stats"):
            out.append(dict(name="run-%s-%d" % (st, j), fn="run", seed=seed,
                            stat=st))
        for unit in ("1/pix", "s/m", "s/km"):
            for res in (True, False):
                out.append(dict(name="vcs-%s-%d-%d" % (
                    unit.replace("/", ""), res, j), fn="vcs", seed=seed,
                    unit=unit, res=res, i=i))
                i += 1
        for which in ("wavelet", "delvar"):
            for unit in ("pix", "arcsec", "pc"):
                for own in ("pix", "angle", "pc"):
                    out.append(dict(name="lag-%s-%s-%s-%d" % (
                        which, unit, own, j), fn="lag", seed=seed,
                        which=which, unit=unit, own=own, res=i % 2 == 0,
                        i=i))
                    i += 1
        for unit in ("pix", "arcsec", "pc"):
            for v in range(3):
                out.append(dict(name="scf-%s-%d-%d" % (unit, v, j),
                                fn="scf", seed=seed, unit=unit,
                                surf=v != 1, res=v != 2, two=v == 0, i=i))
                i += 1
        for which in ("bispec", "moments", "genus", "tsallis", "pdf",
                      "dendro"):
            for v in range(3):
                out.append(dict(name="maps-%s-%d-%d" % (which, v, j),
                                fn="maps", seed=seed, which=which, i=i))
                i += 1
        for unit in ("pix", "arcsec", "pc"):
            out.append(dict(name="pca-%s-%d" % (unit, j), fn="pca",
                            seed=seed, unit=unit, vunit=["pix", "m/s",
                                                         "km/s"][i % 3],
                            res=i % 2 == 0, cov=i % 4 < 2, i=i))
            i += 1
        for which in ("pspec", "vca", "vcs", "wavelet", "delvar", "bispec",
                      "genus", "moments", "pdf", "pca", "scf", "cramer"):
            out.append(dict(name="dist-%s-%d" % (which, j), fn="dist",
                            seed=seed, which=which, i=i))
            i += 1
    return out
