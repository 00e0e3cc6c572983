"""P02: calls leave the caller's objects and the session alone."""
import hashlib
import inspect
import os
import pkgutil
import shutil
import tempfile

import numpy as np
import astropy.units as u
from astropy.io import fits
from .. import gen, stats
from .p01 import box

ID = "P02"
RULE = ("One evaluation = the deep content (values, storage, units, header "
        "cards, dictionary and list items) of one object handed to the "
        "library, or of one part of the session's state (option defaults, "
        "module-level settings, numpy and matplotlib settings, working "
        "directory), compared before and after a call.  Distinct = "
        "different (clause, content).")


# -- deep content of an object ----------------------------------------------

def content(v, depth=0):
    if depth > 8:
        return "deep"
    if isinstance(v, np.ma.MaskedArray):
        return ("masked", content(np.asarray(v.data), depth + 1),
                content(np.ma.getmaskarray(v), depth + 1))
    if isinstance(v, u.Quantity):
        out = ("quantity", v.unit.to_string(),
               content(np.array(v.value), depth + 1))
        if hasattr(v, "header"):
            out += (content(v.header, depth + 1),)
        return out
    if isinstance(v, np.ndarray):
        if v.dtype.kind == "O":
            return ("objects", [content(w, depth + 1) for w in v.ravel()])
        return ("array", v.dtype.str, v.shape, hashlib.sha1(
            np.ascontiguousarray(v).tobytes()).hexdigest(),
            bool(v.flags.writeable))
    if isinstance(v, fits.Header):
        return ("header", v.tostring(sep="\n"))
    if hasattr(v, "data") and hasattr(v, "header") and \
            hasattr(v, "writeto") and hasattr(v, "name"):
        return ("hdu", content(v.header, depth + 1),
                content(v.data, depth + 1))
    if type(v).__name__ == "SpectralCube":
        return ("cube", content(v.header, depth + 1), content(
            np.array(v.filled_data[:].value), depth + 1))
    if isinstance(v, dict):
        return ("dict", [(repr(k), content(w, depth + 1))
                         for k, w in v.items()])
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, [content(w, depth + 1) for w in v])
    if isinstance(v, (str, bytes, int, float, complex, bool, type(None),
                      np.number, u.UnitBase)):
        return ("value", repr(v))
    return ("object", type(v).__name__)


class Watch(object):
    """Remembers the content of objects and re-checks it after each call."""

    def __init__(self, mon, who):
        self.mon, self.who, self.items = mon, who, []

    def add(self, what, obj):
        self.items.append((what, obj, content(obj)))
        return obj

    def check(self, step):
        for what, obj, was in self.items:
            now = content(obj)
            self.mon.ok("%s leaves %s alone" % (self.who, what), now == was,
                        observed=str(differ(was, now))[:300], step=step)


def differ(a, b, path=""):
    if a == b:
        return None
    if type(a) is type(b) and isinstance(a, (tuple, list)) and \
            len(a) == len(b):
        for i, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return differ(x, y, "%s[%d]" % (path, i))
    return path, str(a)[:120], str(b)[:120]


# -- state of the session ---------------------------------------------------

def session():
    """Defaults of every function, module-level settings, global state."""
    import turbustat
    import importlib
    import matplotlib
    out = {}
    for m in pkgutil.walk_packages(turbustat.__path__, "turbustat."):
        if ".tests" in m.name or "conftest" in m.name:
            continue
        try:
            mod = importlib.import_module(m.name)
        except Exception:
            continue
        for n, v in list(vars(mod).items()):
            if n.startswith("__"):
                continue
            if inspect.isclass(v) and v.__module__ == m.name:
                for k, w in list(vars(v).items()):
                    f = getattr(w, "__func__", w)
                    f = getattr(f, "fget", f) if isinstance(f, property) \
                        else f
                    if inspect.isfunction(f):
                        out[m.name + "." + n + "." + k] = content(
                            [f.__defaults__, f.__kwdefaults__])
                    elif not k.startswith("__"):
                        out[m.name + "." + n + "." + k] = content(w)
            elif inspect.isfunction(v) and v.__module__ == m.name:
                out[m.name + "." + n] = content([v.__defaults__,
                                                 v.__kwdefaults__])
            elif isinstance(v, (dict, list, tuple, str, int, float,
                                np.ndarray)):
                out[m.name + "." + n] = content(v)
    out["numpy error handling"] = content(np.geterr())
    out["numpy printing"] = content({
        k: v for k, v in np.get_printoptions().items()})
    out["matplotlib settings"] = repr(sorted(
        (k, str(v)) for k, v in matplotlib.rcParams.items()
        if not k.startswith("backend")))
    out["environment"] = content(dict(os.environ))
    out["working directory"] = os.getcwd(), sorted(os.listdir("."))
    return out


def check_session(mon, before, step):
    now = session()
    bad = [k for k in sorted(before) if now.get(k) != before[k]]
    for k in bad:
        mon.ok("session state", False, what=k, step=step,
               observed=str(differ(before[k], now.get(k)))[:300])
    if not bad:
        mon.ok("session state", True, step=step, parts=len(before))


# -- option sets with dictionaries and lists --------------------------------

def spectrum_opts(rng, st, i):
    r = dict(fit_2D=bool(i % 2 == 0),
             fit_2D_kwargs={"niters": 2, "fix_ellip_params": bool(i % 3)},
             use_pyfftw=bool(i % 2), threads=1,
             pyfftw_kwargs={"threads": 1, "planner_effort": "FFTW_ESTIMATE"}
             if i % 2 else {},
             radial_pspec_kwargs={"logspacing": bool(i % 3 == 0),
                                  "return_stddev": True} if i % 4 == 3
             else {"logspacing": bool(i % 3 == 0)},
             fit_kwargs={"weighted_fit": bool(i % 3 == 1)},
             low_cut=np.array([.05])[0] / u.pix, high_cut=.4 / u.pix)
    if i % 4 == 0:
        r["apodize_kernel"] = "splitcosinebell"
        r["alpha"], r["beta"] = .3, .2
    if i % 4 == 2:
        r["fit_kwargs"] = {"brk": .15 / u.pix}
    if st.name != "VCS":
        r["radial_pspec_kwargs"].pop("return_stddev", None)
    return r


def rich(st, rng, shape, i):
    """(constructor options, run options) full of mutable arguments."""
    c, r = st.variant(rng, shape, i % st.nvar)
    m = min(shape[-2:])
    n = st.name
    if n in ("PowerSpectrum", "VCA", "MVC"):
        r = spectrum_opts(rng, st, i)
        if n == "VCA" and i % 2:
            c = {"channel_width": 2, "downsample_kwargs":
                 {"method": ["downsample", "regrid"][i // 2 % 2]}}
            if c["downsample_kwargs"]["method"] == "regrid":
                c["channel_width"] = 2 * u.pix
    elif n == "VCS":
        r = dict(r, pyfftw_kwargs={"threads": 1}, use_pyfftw=bool(i % 2))
    elif n == "Wavelet":
        r = dict(show_progress=False, convolve_kwargs={
            "boundary": ["wrap", "fill"][i % 2]}, use_pyfftw=bool(i % 2),
            pyfftw_kwargs={"threads": 1}, fit_kwargs={"weighted_fit":
                                                      False},
            brk=[None, np.array([m / 4.]) * u.pix, m / 4. * u.pix, None][
                i % 4])
    elif n == "DeltaVariance":
        r = dict(show_progress=False, use_pyfftw=bool(i % 2),
                 pyfftw_kwargs={"threads": 1}, fit_kwargs={
                     "weighted_fit": bool(i % 3)},
                 brk=[None, m / 4. * u.pix][i % 2],
                 xlow=np.array(3.)[()] * u.pix, xhigh=m / 2.2 * u.pix)
    elif n == "Bispectrum":
        r = dict(r, planner_effort="FFTW_ESTIMATE") if r.get("use_pyfftw") \
            else r
    elif n == "Genus":
        if i % 4 == 3:
            c = {"thresholds": "give",
                 "smoothing_radii": [1., 1.7]}
    elif n == "StatMoments":
        if i % 2:
            r = dict(r, mean_bins=np.linspace(-1, 3, 9),
                     variance_bins=np.linspace(0, 3, 9),
                     skewness_bins=np.linspace(-2, 2, 9),
                     kurtosis_bins=np.linspace(-2, 2, 9))
    elif n == "PDF":
        if i % 2:
            c = dict(c, bins=np.linspace(.1, 6., 20))
    elif n in ("Dendrogram_Stats", "Dendrogram3"):
        c = dict(c, min_deltas=[np.logspace(-1.8, .2, 10),
                                np.logspace(-2., 0., 11)][i % 2],
                 dendro_params={"min_npix": 2 + i % 2, "min_value": .05,
                                "min_delta": 1e-3})
        r = dict(r, fit_kwargs={"size": 3})
    elif n == "SCF":
        r = dict(r, fit_kwargs={}, radialavg_kwargs={}, fit_2D=bool(i % 2),
                 fit_2D_kwargs={"niters": 2})
    return c, r


def weights_for(st, rng, x, i):
    w = 0.4 + rng.random(x.shape)
    if i % 2 == 0:
        w[rng.random(x.shape) < .04] = np.nan
    if i % 3 == 0 and (st is None or not st.name.startswith("PDF")):
        w[rng.integers(x.shape[0]), rng.integers(x.shape[1])] = 0.
    return w


def show(obj, fn, kw, tmp, tag, **more):
    """Call with plotting switched on, drawing to a scratch file."""
    import matplotlib.pyplot as plt
    sig = inspect.signature(fn).parameters
    k = dict(kw)
    if "verbose" in sig:
        k["verbose"] = True
        k["save_name"] = os.path.join(tmp, tag + ".png")
    k.update(more)
    try:
        return fn(**k)
    finally:
        plt.close("all")


def f_stat(sc, mon):
    rng = gen.rng_of(sc["name"], sc["seed"])
    st = stats.STATS[sc["stat"]]
    a, h = stats.data_for(st, rng, nan=sc["nan"])
    shape = (a[0] if st.dim == "mvc" else a).shape
    ctor, run = rich(st, rng, shape, sc["i"])
    if "thresholds" in ctor:
        ctor["thresholds"] = np.linspace(*np.nanpercentile(a, [5, 95]), 9)
        if sc["box"] == "sc":
            ctor["thresholds"] = ctor["thresholds"] * u.K
    w = Watch(mon, sc["stat"])
    if st.dim == "mvc":
        given = [box(x, h, sc["box"])[0] for x in a]
        kw = {"header": h.copy()}
        for n, g in zip(("centroid", "moment0", "linewidth"), given):
            w.add("data", g)
        w.add("header", kw["header"])
    else:
        b, hd = box(a, h, sc["box"])
        given = w.add("data", b)
        kw = {"header": w.add("header", hd)} if hd is not None else {}
    if st.weights and sc["i"] % 3 != 1:
        wt = weights_for(st, rng, a, sc["i"])
        if sc["i"] % 2:
            wt = fits.PrimaryHDU(wt, h.copy())
        kw["weights"] = w.add("weights", wt)
    if st.distance_kw and sc["i"] % 2:
        kw["distance"] = w.add("options", 250. * u.pc)
    ctor = w.add("options", ctor)
    run = w.add("options", run)
    before = session()
    tmp = tempfile.mkdtemp(prefix="vp-p02-")
    try:
        o = st.build(given, ctor, **kw)
        w.check("construct")
        np.random.seed(3)
        o.run(**run)
        w.check("run")
        if sc["plot"]:
            np.random.seed(3)
            show(o, o.run, run, tmp, "run")
            w.check("run and plot")
            again(st, o, rng, w, tmp, sc)
        o.save_results(os.path.join(tmp, "s.pkl"), keep_data=bool(sc["i"] % 2))
        w.check("save")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    check_session(mon, before, sc["stat"])


def again(st, o, rng, w, tmp, sc):
    """Fit and plot again by hand, with options of one's own."""
    n = st.name
    pl = {"PowerSpectrum": "plot_fit", "VCA": "plot_fit", "MVC": "plot_fit",
          "VCS": "plot_fit", "Wavelet": "plot_transform",
          "DeltaVariance": "plot_fit", "SCF": "plot_fit",
          "Genus": "plot_fit", "Tsallis": "plot_fit"}.get(n)
    if pl is None or not hasattr(o, pl):
        return
    import matplotlib.pyplot as plt
    sig = inspect.signature(getattr(o, pl)).parameters
    k = {"save_name": os.path.join(tmp, "again.png")}
    if "color" in sig:
        k["color"] = "k"
    if "fill_nan" in sig:
        k["fill_nan"] = True
    try:
        getattr(o, pl)(**k)
    finally:
        plt.close("all")
    w.check("plot")


# -- distances --------------------------------------------------------------

PLOTK = {"plot_kwargs1": {"color": "c", "label": "first"},
         "plot_kwargs2": {"color": "m", "label": "second"}}


def dist_opts(case, rng, i, shp1, shp2):
    p = {"fit_2D": False, "use_pyfftw": bool(i % 2),
         "pyfftw_kwargs": {"threads": 1},
         "radial_pspec_kwargs": {"logspacing": bool(i % 2)},
         "fit_kwargs": {"weighted_fit": bool(i % 2)}}
    p2 = dict(p, radial_pspec_kwargs={"logspacing": False}, apodize_kernel=[
        None, "hanning"][i % 2])
    if case == "PSpec_Distance":
        return dict(pspec_kwargs=p, pspec2_kwargs=[None, p2][i % 2],
                    low_cut=[None, np.array([.05, .06]) / u.pix][i % 2],
                    high_cut=[.5 / u.pix, [.4, .45] / u.pix][i % 2],
                    breaks=[None, [None, None], [.15 / u.pix, .16 / u.pix],
                            None][i % 4])
    if case == "MVC_Distance":
        return dict(pspec_kwargs={"logspacing": bool(i % 2)},
                    pspec2_kwargs=[None, {"logspacing": False}][i % 2],
                    low_cut=[None, np.array([.05, .06]) / u.pix][i % 2],
                    breaks=[None, [None, None]][i % 2])
    if case == "VCA_Distance":
        return dict(radial_pspec_kwargs={"logspacing": True},
                    radial_pspec_kwargs2=[None, {"logspacing": False}][i % 2],
                    low_cut=[None, np.array([.07, .08]) / u.pix][i % 2],
                    breaks=[None, [None, None]][i % 2],
                    channel_width=[None, 2][i % 2])
    if case == "VCS_Distance":
        return dict(fit_kwargs={"high_cut": .5 / u.pix},
                    fit_kwargs2=[None, {"low_cut": .03 / u.pix,
                                        "high_cut": .5 / u.pix}][i % 2],
                    breaks=[None, [-.8, -.7]][i % 2])
    m = min(shp1[-2:] + shp2[-2:])
    if case == "Wavelet_Distance":
        return dict(scales=[None, np.linspace(2.5, m / 2.5, 8) * u.pix][i % 2],
                    num=9, fit_kwargs={"weighted_fit": False},
                    fit_kwargs2=[None, {"weighted_fit": False}][i % 2],
                    xlow=[None, [3., 3.] * u.pix][i % 2])
    if case == "DeltaVariance_Distance":
        k = {"use_pyfftw": bool(i % 2), "pyfftw_kwargs": {"threads": 1},
             "boundary": "wrap", "fit_kwargs": {"weighted_fit": True}}
        return dict(delvar_kwargs=k, delvar2_kwargs=[None, dict(
            k, boundary="fill")][i % 2], lags=np.linspace(
                3.5, m / 2.5, 7) * u.pix)
    if case == "Bispectrum_Distance":
        return dict(stat_kwargs={"nsamples": 25, "seed": 8})
    if case == "Genus_Distance":
        return dict(numpts=9, smoothing_radii=[[1.2, 1.8], np.array(
            [1.3, 1.9])][i % 2], lowdens_percent=[[5, 10], 5][i % 2],
            highdens_percent=[[95, 90], 95][i % 2],
            genus_kwargs={"min_size": 4},
            genus2_kwargs=[None, {"min_size": 5}][i % 2])
    if case == "StatMoments_Distance":
        return dict(radius=3. * u.pix, nbins=[None, 11][i % 2])
    if case == "PDF_Distance":
        return dict(nbins=[None, 14][i % 2], do_fit=bool(i % 2),
                    min_val1=.05, normalization_type=[
                        "standardize", "normalize_by_mean"][i % 2])
    if case == "Dendrogram_Distance":
        return dict(min_deltas=np.logspace(-1.6, 0., 7), min_features=3,
                    dendro_params=[{"min_npix": 2, "min_value": .05,
                                    "min_delta": 1e-3}, None][i % 2],
                    dendro_kwargs={"periodic_bounds": False},
                    dendro2_kwargs=[None, {"periodic_bounds": True}][i % 2])
    if case == "SCF_Distance":
        return dict(size=5)
    if case == "PCA_Distance":
        return dict(n_eigs=5, mean_sub=bool(i % 2))
    if case == "Cramer_Distance":
        return dict(noise_value1=.01, noise_value2=.02)


CUBES = ["VCA_Distance", "VCS_Distance", "SCF_Distance", "PCA_Distance",
         "Cramer_Distance"]
IMAGES = ["PSpec_Distance", "Wavelet_Distance", "DeltaVariance_Distance",
          "Bispectrum_Distance", "Genus_Distance", "StatMoments_Distance",
          "PDF_Distance", "Dendrogram_Distance"]
PLOTTABLE = set(CUBES + IMAGES + ["MVC_Distance"]) - {
    "Bispectrum_Distance", "Genus_Distance", "Cramer_Distance"}
WEIGHTED = {"PSpec_Distance", "DeltaVariance_Distance",
            "StatMoments_Distance", "PDF_Distance"}


def f_dist(sc, mon):
    import turbustat.statistics as S
    rng = gen.rng_of(sc["name"], sc["seed"])
    case, i = sc["case"], sc["i"]
    cls = getattr(S, case)
    w = Watch(mon, case)
    if case in CUBES:
        shp = [tuple(int(v) for v in rng.integers(18, 24, 3))
               for _ in range(2)]
        if case == "PCA_Distance":
            shp[1] = shp[0]
        ds = [gen.cube(rng, s, "lines") + .1 for s in shp]
        hs = [gen.header3d(s) for s in shp]
    else:
        shp = [tuple(int(v) for v in rng.integers(27, 36, 2))
               for _ in range(2)]
        if case == "Bispectrum_Distance":
            shp[1] = shp[0]
        ds = [gen.image(rng, s, "lognorm") for s in shp]
        if case == "Dendrogram_Distance":
            ds = [d / d.std() for d in ds]
        hs = [gen.header2d(s) for s in shp]
    if sc["nan"] and case not in ("PCA_Distance", "Cramer_Distance"):
        ds = [gen.punch(rng, d, "scatter") for d in ds]
    opts = w.add("options", dist_opts(case, rng, i, shp[0], shp[1]))
    if case == "MVC_Distance":
        given = []
        for d, h, s in zip(ds, hs, shp):
            m1 = gen.image(rng, s, "plaw")
            lw = gen.image(rng, s, "positive")
            given.append(w.add("data", {
                "centroid": (m1, h), "moment0": (d, h),
                "linewidth": (lw, h), "header": h} if i % 2 == 0 else {
                "centroid": [m1, h.copy()], "moment0": [d, h.copy()],
                "linewidth": [lw, h.copy()]}))
    else:
        given = [w.add("data", box(d, h, b)[0])
                 for d, h, b in zip(ds, hs, sc["boxes"])]
    if case in WEIGHTED and i % 2 == 0:
        for k, d in zip(("weights1", "weights2"), ds):
            opts[k] = weights_for(None, rng, d, i // 2)
        w = Watch(mon, case)
        w.add("options", opts)
        for g in given:
            w.add("data", g)
        w.add("weights", opts["weights1"])
        w.add("weights", opts["weights2"])
    before = session()
    tmp = tempfile.mkdtemp(prefix="vp-p02-")
    try:
        d = cls(*given, **opts)
        w.check("construct")
        d.distance_metric()
        w.check("distance")
        more = {}
        if case in PLOTTABLE:
            more = {k: dict(v) for k, v in PLOTK.items()}
            if case in ("SCF_Distance", "PDF_Distance"):
                for v in more.values():
                    v["marker"] = "s"
            for v in more.values():
                w.add("plotting options", v)
        show(d, d.distance_metric, {}, tmp, "dist", **more)
        w.check("distance and plot")
        if more:
            show(d, d.distance_metric, {}, tmp, "dist2", **more)
            w.check("distance and plot again")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    check_session(mon, before, case)


# -- free functions ---------------------------------------------------------

def f_helpers(sc, mon):
    """The public helper functions."""
    import turbustat.statistics.stats_utils as su
    from turbustat.statistics import fitting_utils as fu
    from turbustat.statistics.psds import pspec, make_radial_arrays
    from turbustat.statistics.threeD_to_twoD import \
        intensity_data, _format_data
    from turbustat.statistics.rfft_to_fft import rfft_to_fft
    from turbustat.statistics.lm_seg import Lm_Seg
    from turbustat.statistics import apodizing_kernels as ak
    from turbustat.statistics.elliptical_powerlaw import \
        fit_elliptical_powerlaw
    rng = gen.rng_of(sc["name"], sc["seed"])
    shape = tuple(int(v) for v in rng.integers(20, 30, 2))
    w = Watch(mon, "helper")
    im = w.add("data", gen.punch(rng, gen.image(rng, shape, "lognorm"),
                                 sc["nan"]))
    full = w.add("data", gen.image(rng, shape, "positive"))
    cube = w.add("data", gen.cube(rng, (12, 14, 15), "lines"))
    noisy = w.add("data", gen.punch(rng, gen.cube(rng, (12, 14, 15),
                                                  "lines"), "scatter"))
    x = w.add("data", np.sort(rng.uniform(0, 3, 40)))
    y = w.add("data", 2. * x - .4 * np.maximum(x - 1.5, 0) +
              .05 * rng.standard_normal(40))
    ye = w.add("data", .05 + .02 * rng.random(40))
    opts = w.add("options", {"threads": 1})
    before = session()

    def step(name, fn, *a, **k):
        fn(*a, **k)
        w.check(name)
    p1 = w.add("data", np.array([.2, .3, .5]))
    p2 = w.add("data", np.array([.1, .5, .4]))
    step("hellinger", su.hellinger, p1, p2)
    step("kl", su.kl_divergence, p1, p2)
    step("standardize", su.standardize, im)
    for t in ("standardize", "center", "normalize", "normalize_by_mean"):
        step("normalise " + t, su.data_normalization, full, norm_type=t)
    step("bins", su.common_histogram_bins, im[np.isfinite(im)],
         full.ravel())
    step("bins", su.common_histogram_bins, full.ravel(), full.ravel(),
         return_centered=True)
    step("fourier shift", su.fourier_shift, full[0], 1.7)
    step("fourier shift", su.fourier_shift, im, .3, axis=1)
    step("pixel shift", su.pixel_shift, full, 3)
    step("spectrum", pspec, full, logspacing=True)
    step("spectrum", pspec, np.abs(full), nbins=6, return_stddev=True)
    step("clip", fu.clip_func, x, .4, 2.)
    np.random.seed(3)
    step("bayes", fu.bayes_linear, x, y, ye, ye, nBurn=5, nSample=10)
    step("leastsq", fu.leastsq_linear, x, y, ye, ye)
    step("fft", rfft_to_fft, full, use_pyfftw=bool(sc["i"] % 2), **opts)
    step("fft", rfft_to_fft, full, keep_rfft=True)
    def seg():
        m = Lm_Seg(x, y, 1.3)
        m.fit_model(verbose=False)
        m.model(x)
    step("segmented", seg)
    for k in (ak.HanningWindow(), ak.TukeyWindow(.4),
              ak.CosineBellWindow(.4), ak.SplitCosineBellWindow(.4, .3)):
        k(shape)
    w.check("kernels")
    yy, xx = make_radial_arrays(shape)
    ps = w.add("data", (np.hypot(yy, xx) + .5)**-2.)
    f = [w.add("data", np.array(v, float)) for v in np.meshgrid(
        np.fft.fftshift(np.fft.fftfreq(shape[0])),
        np.fft.fftshift(np.fft.fftfreq(shape[1])), indexing="ij")]
    p0 = w.add("options", [1., -2., .8, .1])
    np.random.seed(4)
    fit_elliptical_powerlaw(np.log10(ps), f[1], f[0], p0, bootstrap=False)
    w.check("elliptical")
    step("channels", intensity_data, cube, noise_lim=.1)
    step("channels", intensity_data, noisy, p=.2, noise_lim=-np.inf)
    check_session(mon, before, "helpers")


def f_io(sc, mon):
    """Simulation headers, beams, moments, downsampling and fields."""
    from turbustat.io import sim_tools, find_beam_properties
    from turbustat.io.input_base import input_data, to_spectral_cube
    from turbustat.moments import Moments
    from turbustat.simulator import gen_field, make_cube
    from spectral_cube import SpectralCube
    rng = gen.rng_of(sc["name"], sc["seed"])
    w = Watch(mon, "io")
    shape = (12, 14, 15)
    c = w.add("data", gen.cube(rng, shape, "clean") + .02)
    h = w.add("header", gen.header3d(shape, beam=2e-3))
    im = w.add("data", gen.image(rng, (16, 17), "positive"))
    h2 = w.add("header", gen.header2d((16, 17), beam=2e-3))
    before = session()
    hd = w.add("data", fits.PrimaryHDU(im, h2))
    input_data(hd)
    input_data((im, h2), need_copy=True)
    find_beam_properties(h2)
    w.check("beam")
    to_spectral_cube(c, h)
    w.check("cube")
    tmp = tempfile.mkdtemp(prefix="vp-p02-")
    try:
        cube = SpectralCube.read(fits.PrimaryHDU(c, h))
        w.add("data", cube)
        m = Moments(cube, scale=.1 * cube.unit)
        m.make_moments()
        m.make_moment_errors()
        w.check("moments")
        m.to_dict()
        m.to_fits(os.path.join(tmp, "x"))
        w.check("moments saved")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    w.add("header", sim_tools.create_image_header(
        3 * u.arcsec, 6 * u.arcsec, im.shape, 115 * u.GHz, u.K))
    w.add("header", sim_tools.create_cube_header(
        3 * u.arcsec, .5 * u.km / u.s, 6 * u.arcsec, c.shape, 115 * u.GHz,
        u.K))
    sim_tools.create_fits_hdu(im, 3 * u.arcsec, 6 * u.arcsec, im.shape,
                              115 * u.GHz, u.K)
    sim_tools.create_fits_hdu(c, 3 * u.arcsec, .5 * u.km / u.s,
                              6 * u.arcsec, c.shape, 115 * u.GHz, u.K)
    w.check("sim header")
    v = w.add("data", rng.standard_normal((10, 11, 12)) * u.km / u.s)
    n = w.add("data", (1. + rng.random((10, 11, 12))) * u.cm**-3)
    make_cube.make_ppv(v, n, T=10. * u.K, chan_width=.5 * u.km / u.s)
    w.check("spectral cube from fields")
    gen_field.make_extended(24, powerlaw=3., randomseed=5)
    w.check("field")
    check_session(mon, before, "io")


def f_history(sc, mon):
    """A session of many calls: defaults and state are the same at the end,
    and a call with all options left out gives what it gave at the start."""
    rng = gen.rng_of(sc["name"], sc["seed"])
    st = stats.STATS[sc["stat"]]
    a, h = stats.data_for(st, rng)
    shape = (a[0] if st.dim == "mvc" else a).shape
    before = session()

    def plainrun():
        if st.dim == "mvc":
            o = st.build([x.copy() for x in a], {}, header=h.copy())
        else:
            c = {"lags": [1, 2, 5] * u.pix} if st.name == "Tsallis" else {}
            if st.name.startswith("Dendro"):
                c = {"min_deltas": np.logspace(-1.6, .2, 9)}
            o = st.build((a.copy(), h.copy()), c)
        sig = inspect.signature(o.run).parameters
        k = {"show_progress": False} if "show_progress" in sig else {}
        if st.name == "Bispectrum":
            k["nsamples"] = 20
        if st.name == "PCA":
            k["min_eigval"] = .5
            k["eigen_cut_method"] = "proportion"
        st.run(o, k)
        return stats.collect(o)
    try:
        first = plainrun()
    except Warning:
        mon.skip("cannot be fit")
        return
    for i in range(sc["n"]):
        ctor, run = rich(st, rng, shape, i)
        if "thresholds" in ctor:
            ctor["thresholds"] = np.linspace(*np.nanpercentile(a, [5, 95]),
                                             9)
        if st.dim == "mvc":
            o = st.build([x.copy() for x in a], ctor, header=h.copy())
        else:
            o = st.build((a.copy(), h.copy()), ctor)
        try:
            st.run(o, run)
        except Warning:
            pass
        check_session(mon, before, "%s %d" % (sc["stat"], i))
    stats.compare(mon, "%s default run again" % sc["stat"], plainrun(),
                  first, exact=True)


def inside(fn):
    """Run in an empty directory of its own."""
    def go(sc, mon):
        cwd = os.getcwd()
        d = tempfile.mkdtemp(prefix="vp-p02-cwd-")
        os.chdir(d)
        try:
            fn(sc, mon)
        finally:
            os.chdir(cwd)
            shutil.rmtree(d, ignore_errors=True)
    return go


FNS = {k: inside(f) for k, f in {
    "stat": f_stat, "dist": f_dist, "helpers": f_helpers, "io": f_io,
    "history": f_history}.items()}


def scenarios(tier, seed):
    out = []
    rng = gen.rng_of("p02", seed)
    big = tier != "quick"
    for n, st in sorted(stats.STATS.items()):
        boxes = ["tuple", "list", "hdu", "imagehdu", "sc", "header"]
        if not st.header_kw:
            boxes.remove("header")
        for i in range(24 if big else 8):
            nan = "none" if n == "PCA" else ["none", "scatter", "border"][
                (i + seed) % 3]
            out.append(dict(name="stat-%s-%d-s%d" % (n, i, seed), fn="stat",
                            seed=seed, stat=n, i=i, nan=nan, plot=i % 2 == 0
                            or big, box=str(boxes[(i + seed) % len(boxes)])))
        out.append(dict(name="history-%s-s%d" % (n, seed), fn="history",
                        seed=seed, stat=n, n=8 if big else 3))
    for c in sorted(CUBES + IMAGES + ["MVC_Distance"]):
        for i in range(12 if big else 4):
            out.append(dict(name="dist-%s-%d-s%d" % (c, i, seed), fn="dist",
                            seed=seed, case=c, i=i, nan=bool(i // 2 % 2),
                            boxes=[str(v) for v in rng.choice(
                                ["tuple", "list", "hdu", "imagehdu", "sc"],
                                2)]))
    for i in range(12 if big else 4):
        out.append(dict(name="helpers-%d-s%d" % (i, seed), fn="helpers",
                        seed=seed, i=i, nan=["none", "scatter"][i % 2]))
        out.append(dict(name="io-%d-s%d" % (i, seed), fn="io", seed=seed,
                        i=i))
    return out
