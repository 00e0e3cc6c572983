"""Registry of the statistics: how to build, run and read each of them.

Used by the properties that hold for every statistic (containers, side
effects, repeatability, units, saving).  `collect` reads everything public
that a finished object offers, whatever it is called, so two objects can be
compared without naming attributes.
"""
import numpy as np
import astropy.units as u
from . import gen
from .core import plain

INPUTS = {"data", "header", "weights", "centroid", "moment0", "linewidth",
          "img", "cube", "weighted_data", "need_header_flag", "no_data_flag"}
SKIP = {"dendro", "fit2D", "_fit2D"}
EXTRA = {"PCA": ["spatial_width", "spatial_width_error", "spectral_width",
                 "spectral_width_error", "intercept", "eigimages"],
         "Wavelet": [], "DeltaVariance": []}


def reduce_value(v, depth=0):
    """Comparable form: nested dict/list of plain arrays, or None to skip."""
    from astropy.table import Table
    if depth > 5:
        return None
    if v is None or isinstance(v, (str, bool, np.bool_)):
        return ("const", v if v is None or isinstance(v, str) else bool(v))
    if isinstance(v, u.Quantity):
        return ("num", np.array(v.value, dtype=float)
                if np.asarray(v.value).dtype.kind != "c"
                else np.array(v.value), v.unit.to_string())
    if isinstance(v, (int, float, complex, np.number)):
        return ("num", np.array(v), "")
    if isinstance(v, np.ma.MaskedArray):
        return ("num", np.array(v.filled(np.nan)
                                if v.dtype.kind == "f" else v.data), "")
    if isinstance(v, np.ndarray):
        if v.dtype.kind in "fiucb":
            return ("num", np.array(v), "")
        if v.dtype.kind == "O":
            return ("seq", [reduce_value(w, depth + 1) for w in v.ravel()])
        return ("const", v.tolist())
    if isinstance(v, Table):
        return ("map", {c: reduce_value(
            np.array(v[c]) * (v[c].unit or 1.), depth + 1)
            for c in v.colnames})
    if isinstance(v, dict):
        return ("map", {str(k): reduce_value(w, depth + 1)
                        for k, w in v.items()})
    if isinstance(v, (list, tuple)):
        return ("seq", [reduce_value(w, depth + 1) for w in v])
    out = {}
    for n in ("params", "bse", "brk", "brk_err", "slopes", "slope_errs",
              "rsquared", "fittedvalues"):
        try:
            w = getattr(v, n)
        except Exception:
            continue
        if callable(w):
            continue
        out[n] = reduce_value(w, depth + 1)
    return ("map", out) if out else None


def collect(obj, only=None):
    names = {k for k in dir(type(obj)) if not k.startswith("_") and
             isinstance(getattr(type(obj), k), property)}
    names |= {k for k in vars(obj) if not k.startswith("_")}
    names -= INPUTS | SKIP
    out = {}
    for n in sorted(names):
        if only is not None and n not in only:
            continue
        try:
            v = getattr(obj, n)
        except Exception:
            continue
        if callable(v) and not isinstance(v, np.ndarray):
            v2 = reduce_value(v)
            if v2 is not None and v2[1]:
                out[n] = v2
            continue
        r = reduce_value(v)
        if r is not None:
            out[n] = r
    for n in EXTRA.get(type(obj).__name__, []):
        try:
            out[n] = reduce_value(getattr(obj, n)())
        except Exception:
            continue
    return out


# results of iterative fits: they reproduce to the convergence of the fit,
# not to rounding, when the input differs in the last digit
FITTED = {"gamma", "gamma_error_range", "index", "index_error_range",
          "intercept", "intercept_error_range", "intercept_error",
          "spatial_width", "spatial_width_error", "spectral_width",
          "spectral_width_error", "tsallis_params", "tsallis_fits",
          "tsallis_table", "tsallis_chisq", "tsallis_stderrs", "model_params", "model_stderrs"}


def compare(mon, clause, got, want, units=True, rtol=1e-9, floor=1e-9,
            atol=0., names=None, exact=False, skip=(), fitted=3e-4,
            _path="", **detail):
    """Compare two `collect` results over the names present in `want`."""
    base = rtol, floor, atol
    keys = sorted(want) if names is None else names
    good = True
    for k in keys:
        if k in skip or k not in want:
            continue
        p = _path + "." + k if _path else k
        if k not in got:
            mon.ok(clause, False, observed="missing", result=p, **detail)
            good = False
            continue
        rtol, floor, atol = base
        if k in FITTED:
            rtol, atol = max(rtol, fitted), max(atol, fitted * 1e-1)
        good &= _cmp(mon, clause, got[k], want[k], p, units, rtol, floor,
                     atol, exact, detail)
    return good


def _cmp(mon, clause, g, w, p, units, rtol, floor, atol, exact, detail):
    if w is None or g is None:
        return True
    if g[0] != w[0]:
        return mon.ok(clause, False, observed=(str(g)[:80], str(w)[:80]),
                      result=p, **detail)
    if w[0] == "const":
        return mon.ok(clause, g[1] == w[1], observed=g[1], want=w[1],
                      result=p, **detail)
    if w[0] == "num":
        good = True
        if units:
            good = mon.ok(clause, g[2] == w[2], observed=g[2], want=w[2],
                          result=p, **detail)
        a, b = g[1], w[1]
        if a.dtype.kind == "b":
            a = a.astype(int)
        if b.dtype.kind == "b":
            b = b.astype(int)
        if exact:
            same = a.shape == b.shape and a.dtype.kind == b.dtype.kind and \
                np.array_equal(a, b, equal_nan=a.dtype.kind in "fc")
            return good & mon.ok(clause, same, observed=a,
                                 want=b, result=p, **detail)
        return good & mon.close(clause, a, b, rtol=rtol, floor=floor,
                                atol=atol, result=p, **detail)
    if w[0] == "map":
        good = True
        for k in sorted(w[1]):
            if k not in g[1]:
                good &= mon.ok(clause, False, observed="missing",
                               result=p + "." + k, **detail)
                continue
            good &= _cmp(mon, clause, g[1][k], w[1][k], p + "." + k, units,
                         rtol, floor, atol, exact, detail)
        return good
    if len(g[1]) != len(w[1]):
        return mon.ok(clause, False, observed=len(g[1]), want=len(w[1]),
                      result=p, **detail)
    good = True
    for i, (a, b) in enumerate(zip(g[1], w[1])):
        good &= _cmp(mon, clause, a, b, "%s[%d]" % (p, i), units, rtol,
                     floor, atol, exact, detail)
    return good


# ---------------------------------------------------------------------------

class Stat(object):
    dim = 2
    header_kw = True        # accepts a separate `header`
    weights = False
    distance_kw = True
    nvar = 4

    def __init__(self, name):
        self.name = name

    @property
    def cls(self):
        import turbustat.statistics as S
        return getattr(S, self.name)

    def variant(self, rng, shape, i):
        """(constructor options, run options) of the i-th variant."""
        return {}, {}

    def build(self, container, ctor, **k):
        c = dict(ctor)
        c.update(k)
        return self.cls(container, **c)

    def run(self, obj, opts):
        np.random.seed(4711)
        obj.run(**opts)
        return obj

    def image(self, rng, shape, kind="positive", nan="none"):
        return gen.punch(rng, gen.image(rng, shape, kind), nan)


def cuts(rng, a=.04, b=.09, c=.32, d=.45):
    return dict(low_cut=float(rng.uniform(a, b)) / u.pix,
                high_cut=float(rng.uniform(c, d)) / u.pix)


class SPspec(Stat):
    weights = True

    def variant(self, rng, shape, i):
        r = {"fit_2D_kwargs": {"niters": 3}}
        if i == 1:
            r.update(cuts(rng), fit_2D=False)
        elif i == 2:
            r.update(apodize_kernel="tukey", alpha=.3, fit_2D=False,
                     radial_pspec_kwargs={"logspacing": True})
        elif i == 3:
            r.update(fit_2D=False, use_pyfftw=True, threads=2,
                     fit_kwargs={"brk": .12 / u.pix}, **cuts(rng))
        return {}, r


class SVca(SPspec):
    dim = 3
    weights = False

    def variant(self, rng, shape, i):
        c, r = SPspec.variant(self, rng, shape, i)
        if i == 1:
            c["channel_width"] = 2
        return c, r


class SMvc(SPspec):
    dim = "mvc"
    weights = False

    def build(self, container, ctor, **k):
        c = dict(ctor)
        c.update(k)
        return self.cls(*container, **c)


class SVcs(Stat):
    dim = 3
    distance_kw = False

    def variant(self, rng, shape, i):
        if i == 1:
            return {}, cuts(rng, .02, .05, .4, .5)
        if i == 2:
            return {}, {"breaks": -.7, "use_pyfftw": True}
        if i == 3:
            return {}, {"bootstrap": True, "bootstrap_kwargs": {"nboot": 20}}
        return {}, {}


class SWave(Stat):
    def variant(self, rng, shape, i):
        m = min(shape[-2:])
        r = {"show_progress": False}
        if i == 0:
            return {"num": 11}, r
        c = {"scales": np.linspace(3., m / 2.3, 9) * u.pix}
        if i == 1:
            r.update(xlow=3.5 * u.pix, xhigh=m / 3. * u.pix)
        if i == 2:
            r.update(scale_normalization=False)
        if i == 3:
            r.update(use_pyfftw=True, brk=m / 4. * u.pix)
        return c, r


class SDelVar(Stat):
    weights = True

    def variant(self, rng, shape, i):
        m = min(shape[-2:])
        r = {"show_progress": False}
        if i == 0:
            return {"nlags": 8}, r
        c = {"lags": np.linspace(3., m / 2.3, 8) * u.pix}
        if i == 1:
            r.update(xlow=3.5 * u.pix, xhigh=m / 3. * u.pix)
        if i == 2:
            c["diam_ratio"] = 2.
            r.update(boundary="fill")
        if i == 3:
            r.update(use_pyfftw=True, nan_treatment="interpolate",
                     allow_huge=True)
        return c, r


class SBispec(Stat):
    header_kw = False
    distance_kw = False

    def variant(self, rng, shape, i):
        r = {"show_progress": False, "nsamples": int(rng.integers(30, 60))}
        if i == 1:
            r["seed"] = int(rng.integers(99999))
        if i == 2:
            r["mean_subtract"] = True
        if i == 3:
            r["use_pyfftw"] = True
        return {}, r


class SGenus(Stat):
    header_kw = False

    def variant(self, rng, shape, i):
        c = {"numpts": int(rng.integers(8, 16))}
        r = {}
        if i == 1:
            c.update(lowdens_percent=10, highdens_percent=90,
                     smoothing_radii=[1.5, 2.2])
            r["min_size"] = 6
        if i == 2:
            c["smoothing_radii"] = np.array([1.3, 2.]) * u.pix
            r["connectivity"] = 1
        if i == 3:
            r["standardize_intensity"] = True
            r["keep_smoothed_images"] = True
        return c, r


class SMom(Stat):
    weights = True

    def variant(self, rng, shape, i):
        r = {"show_progress": False}
        c = {"radius": float(rng.integers(3, 5)) * u.pix}
        if i == 1:
            r.update(periodic=False, min_frac=.5)
            c["nbins"] = 13
        if i == 2:
            r["radius"] = 4 * u.pix
        if i == 3:
            r["min_frac"] = .95
            r["mean_bins"] = 7
        return c, r


class STsallis(Stat):
    def variant(self, rng, shape, i):
        c = {"lags": np.array([1, 2, 5]) * u.pix}
        r = {}
        if i == 1:
            r["periodic"] = False
        if i == 2:
            r["num_bins"] = 15
            c["lags"] = [1, 3] * u.pix
        if i == 3:
            r["sigma_clip"] = 3.
        return c, r


class SPdf(Stat):
    header_kw = False
    weights = True
    distance_kw = False

    def variant(self, rng, shape, i):
        c, r = {}, {}
        if i == 1:
            c = {"bins": 17, "min_val": .3}
            r = {"do_fit": False}
        if i == 2:
            c = {"normalization_type": "standardize"}
            r = {"do_fit": False}
        if i == 3:
            c = {"normalization_type": "normalize_by_mean"}
        return c, r


class SPdf3(SPdf):
    dim = 3

    @property
    def cls(self):
        import turbustat.statistics as S
        return S.PDF


class SDendro(Stat):
    distance_kw = False

    def variant(self, rng, shape, i):
        c = {"min_deltas": np.logspace(-1.6, .2, 9)}
        r = {"show_progress": False}
        if i == 1:
            c["dendro_params"] = {"min_value": .2, "min_npix": 2,
                                  "min_delta": .02}
        if i == 2:
            r["periodic_bounds"] = True
        if i == 3:
            r["make_hists"] = False
            r["fit_kwargs"] = {"size": 3}
        return c, r


class SDendro3(SDendro):
    dim = 3

    @property
    def cls(self):
        import turbustat.statistics as S
        return S.Dendrogram_Stats


class SScf(Stat):
    dim = 3

    def variant(self, rng, shape, i):
        r = {"show_progress": False, "fit_2D_kwargs": {"niters": 3}}
        c = {"size": 7}
        if i == 1:
            c = {"roll_lags": np.array([-4, -2, 0, 2, 4]) * u.pix}
            r.update(fit_2D=False)
        if i == 2:
            r.update(boundary="cut", fit_2D=False)
        if i == 3:
            r.update(fit_2D=False, xlow=1 * u.pix, xhigh=4. * u.pix)
        return c, r


class SPca(Stat):
    dim = 3
    header_kw = False

    def variant(self, rng, shape, i):
        r = {"show_progress": False, "n_eigs": 4}
        if i == 1:
            r.update(mean_sub=True, decomp_only=True)
        if i == 2:
            r.update(spatial_method="fit", mean_sub=True)
        if i == 3:
            r.update(n_eigs="auto", min_eigval=.9,
                     eigen_cut_method="proportion",
                     spectral_method="interpolate", spatial_method="interpolate")
        return {}, r


STATS = {
    "PowerSpectrum": SPspec("PowerSpectrum"), "VCA": SVca("VCA"),
    "MVC": SMvc("MVC"), "VCS": SVcs("VCS"), "Wavelet": SWave("Wavelet"),
    "DeltaVariance": SDelVar("DeltaVariance"),
    "Bispectrum": SBispec("Bispectrum"), "Genus": SGenus("Genus"),
    "StatMoments": SMom("StatMoments"), "Tsallis": STsallis("Tsallis"),
    "PDF": SPdf("PDF"), "PDF3": SPdf3("PDF3"),
    "Dendrogram_Stats": SDendro("Dendrogram_Stats"),
    "Dendrogram3": SDendro3("Dendrogram3"), "SCF": SScf("SCF"),
    "PCA": SPca("PCA")}


def data_for(st, rng, shape2=None, shape3=None, nan="none", whole=False,
             pix=None, kind=None):
    """(arrays, header): one array, or three for MVC."""
    pix = pix or 10**rng.uniform(-4, -2)
    shape2 = shape2 or tuple(int(v) for v in rng.integers(26, 40, 2))
    shape3 = shape3 or (int(rng.integers(16, 24)),) + tuple(
        int(v) for v in rng.integers(18, 24, 2))

    def img(k):
        im = gen.image(rng, shape2, k)
        if whole:       # small whole numbers, exact in any storage
            im = np.round((im - im.min()) / (im.max() - im.min()) * 100.)
        return gen.punch(rng, im, nan)

    if st.dim == 3:
        c = gen.cube(rng, shape3, kind or (
            "positive" if st.name == "PDF3" else "lines"))
        if st.name == "Dendrogram3":
            c = c / c.std()
        if whole:
            c = np.round((c - c.min()) / (c.max() - c.min()) * 100.)
        return gen.punch(rng, c, nan), gen.header3d(
            shape3, pix=pix, beam=2.5 * pix if st.name == "PCA" else None)
    h = gen.header2d(shape2, pix=pix)
    if st.dim == "mvc":
        return [img("plaw"), img("positive"), img("positive")], h
    k = kind or {"PDF": "lognorm", "Dendrogram_Stats": "lognorm"}.get(
        st.name, str(rng.choice(["plaw", "lognorm", "positive"])))
    im = img(k)
    if st.name == "Dendrogram_Stats":
        im = im / np.nanstd(im) if not whole else im
    return im, h
