"""P21: every distance class behaves as a distance and as its formula.

Each case describes one distance class: how it is called with two data sets
that may carry options of their own, how the underlying statistic is computed
by hand, and the stated formula of the two individual results.
"""
import os
import shutil
import tempfile

import numpy as np
import astropy.units as u
from .. import gen

ID = "P21"
RULE = ("One evaluation = the value of a distance compared with zero, with "
        "the stated formula of two individually computed statistics, or with "
        "the distance of exchanged, pre-computed, partly computed, plotted "
        "or re-evaluated statistics; distinct = different (clause, content).")
ASSUMPTIONS = ["the individual statistics are judged by their own properties"]


def tstat(a, b, ea, eb):
    with np.errstate(all="ignore"):
        return np.abs(np.asarray(a) - np.asarray(b)) / \
            np.sqrt(np.asarray(ea)**2 + np.asarray(eb)**2)


def hell(p, q, w=1.):
    return w * np.sqrt(0.5 * np.nansum((np.sqrt(p) - np.sqrt(q))**2))


class Case(object):
    names = ("distance",)
    tol = dict(rtol=1e-8, floor=1e-9)
    zero = 1e-10
    pre = True              # accepts computed statistics
    plots = True
    nvar = 5

    def __init__(self, rng, sc):
        self.rng, self.sc = rng, sc
        self.var = sc["var"]

    def values(self, d):
        return [np.asarray(getattr(d, n), float) for n in self.names]

    def metric(self, d, **k):
        d.distance_metric(**k)
        return self.values(d)


class Image(Case):
    same = False            # both images need the same shape

    def data(self, shape, kind, pix=1. / 3600., nan="none"):
        im = gen.punch(self.rng, gen.image(self.rng, shape, kind), nan)
        return im, gen.header2d(shape, pix=pix)

    def pair(self):
        sc = self.sc
        s2 = sc["shape"] if self.same else sc["shape2"]
        return (self.data(tuple(sc["shape"]), sc["kind"]),
                self.data(tuple(s2), sc["kind2"]))

    @staticmethod
    def fresh(x):
        return x[0].copy(), x[1].copy()


class Cube(Case):
    def pair(self):
        sc = self.sc
        out = []
        for s, k in ((sc["cshape"], sc["ckind"]), (sc["cshape2"],
                                                   sc["ckind2"])):
            c = gen.cube(self.rng, tuple(s), k)
            out.append((c, gen.header3d(c.shape)))
        return out

    fresh = staticmethod(Image.fresh)


def brk_opts(c, a, b):
    """Breaks: one each as a list (5), as an array (6), one for both (7)."""
    if c.var in (5, 6):
        for o in (a, b):
            o["brk"] = float(c.rng.uniform(.14, .28)) / u.pix
    if c.var == 7:
        a["brk"] = b["brk"] = float(c.rng.uniform(.14, .28)) / u.pix


def brk_kwargs(c, ox, oy):
    if "brk" not in ox:
        return {}
    if c.var == 5:
        return {"breaks": [ox["brk"], oy["brk"]]}
    if c.var == 6:
        return {"breaks": u.Quantity([ox["brk"], oy["brk"]])}
    return {"breaks": ox["brk"]}


class PSpec(Image):
    nvar = 8

    def opts(self):
        v, rng = self.var, self.rng
        a, b = {}, {}
        for o in (a, b):
            if v == 1:
                o["low"] = float(rng.uniform(.04, .08)) / u.pix
                o["high"] = float(rng.uniform(.3, .45)) / u.pix
            if v == 2:
                o["run"] = {"apodize_kernel": "tukey", "alpha": .3,
                            "radial_pspec_kwargs":
                            {"logspacing": bool(rng.integers(2))}}
            if v == 3:
                o["weights"] = True
            if v == 4:
                o["run"] = {"fit_kwargs": {"weighted_fit": True}}
        brk_opts(self, a, b)
        return a, b

    def wgt(self, x, o):
        if not o.get("weights"):
            return None
        return 0.5 + gen.rng_of(x[0].shape, "w").random(x[0].shape)

    def bare(self, x, o):
        from turbustat.statistics import PowerSpectrum
        return PowerSpectrum(self.fresh(x), weights=self.wgt(x, o))

    def stat(self, x, o):
        s = self.bare(x, o)
        k = dict(o.get("run", {}))
        if "brk" in o:
            k["fit_kwargs"] = {"brk": o["brk"]}
        s.run(low_cut=o.get("low"), high_cut=o.get("high", 0.5 / u.pix),
              fit_2D=False, **k)
        return s

    def dist(self, x, ox, y, oy):
        from turbustat.statistics import PSpec_Distance
        k = brk_kwargs(self, ox, oy)
        if "low" in ox:
            k["low_cut"] = u.Quantity([ox["low"], oy["low"]])
            k["high_cut"] = u.Quantity([ox["high"], oy["high"]])
        if "run" in ox:
            k["pspec_kwargs"] = ox["run"]
            if oy is not ox:
                k["pspec2_kwargs"] = oy["run"]
        if isinstance(x, tuple):
            k["weights1"] = self.wgt(x, ox)
            x = self.fresh(x)
        if isinstance(y, tuple):
            k["weights2"] = self.wgt(y, oy)
            y = self.fresh(y)
        return PSpec_Distance(x, y, **k)

    def formula(self, a, b):
        return [tstat(a.slope, b.slope, a.slope_err, b.slope_err)]


class MVC(Image):
    same = False
    nvar = 8

    def pair(self):
        out = []
        for s in (self.sc["shape"], self.sc["shape2"]):
            s = tuple(s)
            h = gen.header2d(s)
            m0 = gen.image(self.rng, s, "positive")
            out.append(dict(centroid=(gen.image(self.rng, s, "plaw"), h),
                            moment0=(m0, h),
                            linewidth=(gen.image(self.rng, s, "positive"), h)))
            if self.var == 4:       # weighted by the errors
                for n in ("centroid", "moment0", "linewidth"):
                    out[-1][n + "_error"] = (0.5 + self.rng.random(s), h)
        return out

    @staticmethod
    def fresh(x):
        return {k: (v[0].copy(), v[1].copy()) for k, v in x.items()}

    def opts(self):
        a, b = {}, {}
        for o in (a, b):
            if self.var in (1, 2):
                o["low"] = float(self.rng.uniform(.04, .08)) / u.pix
                o["high"] = float(self.rng.uniform(.3, .45)) / u.pix
            if self.var in (2, 3):
                o["run"] = {"logspacing": bool(self.rng.integers(2))}
        brk_opts(self, a, b)
        return a, b

    def bare(self, x, o):
        from turbustat.statistics import MVC as M
        x = self.fresh(x)
        m = {n: x[n][0] / x[n + "_error"][0]**2 if self.var == 4 else x[n][0]
             for n in ("centroid", "moment0", "linewidth")}
        return M(m["centroid"], m["moment0"], m["linewidth"],
                 x["centroid"][1])

    def stat(self, x, o):
        s = self.bare(x, o)
        s.run(low_cut=o.get("low"), high_cut=o.get("high", 0.5 / u.pix),
              fit_2D=False, radial_pspec_kwargs=dict(o.get("run", {})),
              fit_kwargs={"brk": o.get("brk")})
        return s

    def dist(self, x, ox, y, oy):
        from turbustat.statistics import MVC_Distance
        k = brk_kwargs(self, ox, oy)
        if "low" in ox:
            k["low_cut"] = u.Quantity([ox["low"], oy["low"]])
            k["high_cut"] = u.Quantity([ox["high"], oy["high"]])
        if "run" in ox:
            k["pspec_kwargs"] = ox["run"]
            if oy is not ox:
                k["pspec2_kwargs"] = oy["run"]
        x = self.fresh(x) if isinstance(x, dict) else x
        y = self.fresh(y) if isinstance(y, dict) else y
        return MVC_Distance(x, y, weight_by_error=self.var == 4, **k)

    formula = PSpec.formula


class VCA(Cube):
    nvar = 8

    def opts(self):
        a, b = {}, {}
        w = int(self.rng.integers(2, 4))
        for o in (a, b):
            if self.var in (1, 2):
                o["low"] = float(self.rng.uniform(.04, .08)) / u.pix
                o["high"] = float(self.rng.uniform(.3, .45)) / u.pix
            if self.var in (2, 3):
                o["run"] = {"logspacing": bool(self.rng.integers(2))}
            if self.var in (3, 4):
                o["width"] = w
        brk_opts(self, a, b)
        return a, b

    def bare(self, x, o):
        from turbustat.statistics import VCA as M
        return M(self.fresh(x), channel_width=o.get("width"))

    def stat(self, x, o):
        s = self.bare(x, o)
        s.run(low_cut=o.get("low"), high_cut=o.get("high"), fit_2D=False,
              radial_pspec_kwargs=dict(o.get("run", {})),
              fit_kwargs={"brk": o.get("brk")})
        return s

    def dist(self, x, ox, y, oy):
        from turbustat.statistics import VCA_Distance
        k = brk_kwargs(self, ox, oy)
        if "low" in ox:
            k["low_cut"] = u.Quantity([ox["low"], oy["low"]])
            k["high_cut"] = u.Quantity([ox["high"], oy["high"]])
        if "run" in ox:
            k["radial_pspec_kwargs"] = ox["run"]
            if oy is not ox:
                k["radial_pspec_kwargs2"] = oy["run"]
        if "width" in ox:
            k["channel_width"] = ox["width"]
        x = self.fresh(x) if isinstance(x, tuple) else x
        y = self.fresh(y) if isinstance(y, tuple) else y
        return VCA_Distance(x, y, **k)

    formula = PSpec.formula


class VCS(Cube):
    names = ("distance", "large_scale_distance", "small_scale_distance")

    def opts(self):
        a, b = {}, {}
        for o in (a, b):
            o["run"] = {}
            if self.var in (1, 2):
                o["run"] = {"high_cut": float(self.rng.uniform(.35, .5)) /
                            u.pix,
                            "low_cut": float(self.rng.uniform(.02, .06)) /
                            u.pix}
            if self.var in (2, 3):
                o["brk"] = float(np.log10(self.rng.uniform(.12, .25)))
        return a, b

    def bare(self, x, o):
        from turbustat.statistics import VCS as M
        return M(self.fresh(x))

    def stat(self, x, o):
        s = self.bare(x, o)
        k = dict(o["run"])
        if "brk" in o:
            k["breaks"] = o["brk"]
        s.run(**k)
        return s

    def dist(self, x, ox, y, oy):
        from turbustat.statistics import VCS_Distance
        k = {}
        if "brk" in ox:
            k["breaks"] = [ox["brk"], oy["brk"]]
        if ox["run"]:
            k["fit_kwargs"] = ox["run"]
            if oy is not ox:
                k["fit_kwargs2"] = oy["run"]
        x = self.fresh(x) if isinstance(x, tuple) else x
        y = self.fresh(y) if isinstance(y, tuple) else y
        return VCS_Distance(x, y, **k)

    def formula(self, a, b):
        t = tstat(a.slope[0], b.slope[0], a.slope_err[0], b.slope_err[0])
        s = np.nan
        if len(a.slope) > 1 and len(b.slope) > 1:
            s = tstat(a.slope[1], b.slope[1], a.slope_err[1], b.slope_err[1])
        return [np.nansum([t, s]), t, s]


class DelVar(Image):
    names = ("curve_distance", "slope_distance")
    nvar = 7

    def pair(self):
        a, b = Image.pair(self)
        if self.var == 3:       # pixels of different size
            b = (b[0], gen.header2d(b[0].shape, pix=0.5 / 3600.))
        return a, b

    def opts(self):
        a, b = {"run": {}}, {"run": {}}
        m = min(self.sc["shape"] + self.sc["shape2"])
        if self.var in (1, 2):
            lags = np.linspace(3., m / 2.5, 9) * u.pix
            a["lags"] = b["lags"] = lags
        if self.var == 2:
            a["run"] = {"boundary": "wrap"}
            b["run"] = {"boundary": "fill"}
        if self.var == 3:
            a["lags"] = b["lags"] = np.linspace(2., m / 4.5, 7) * u.pix
        if self.var == 4:
            r = {"xlow": 4. * u.pix, "xhigh": (m / 3.) * u.pix}
            a["run"], b["run"] = dict(r), dict(r)
        if self.var in (5, 6):      # ranges that differ at one end only
            a["run"] = {"xlow": 4. * u.pix, "xhigh": (m / 3.) * u.pix}
            b["run"] = dict(a["run"])
            if self.var == 5:
                b["run"]["xhigh"] = (m / 2.4) * u.pix
            else:
                b["run"]["xlow"] = 3. * u.pix
        return a, b

    def lags(self, x, y):
        m = min(min(x[0].shape), min(y[0].shape))
        return np.logspace(np.log10(3.), np.log10(m / 2.), 25) * u.pix

    def bare(self, x, o):
        from turbustat.statistics import DeltaVariance
        return DeltaVariance(self.fresh(x), lags=o.get("lags"))

    def stat(self, x, o):
        s = self.bare(x, o)
        s.run(**dict(o["run"]))
        return s

    def both(self, x, ox, y, oy):
        """Individually computed at the common lags."""
        lg = ox.get("lags")
        if lg is None:
            lg = self.lags(x, y)
        f = 2. if self.var == 3 else 1.
        return (self.stat(x, dict(ox, lags=lg)),
                self.stat(y, dict(oy, lags=lg * f)))

    def dist(self, x, ox, y, oy):
        from turbustat.statistics import DeltaVariance_Distance
        k = {}
        if "lags" in ox:
            k["lags"] = ox["lags"]
        if ox["run"]:
            k["delvar_kwargs"] = ox["run"]
            if oy is not ox:
                k["delvar2_kwargs"] = oy["run"]
        x = self.fresh(x) if isinstance(x, tuple) else x
        y = self.fresh(y) if isinstance(y, tuple) else y
        return DeltaVariance_Distance(x, y, **k)

    def formula(self, a, b):
        da, db = np.asarray(a.delta_var), np.asarray(b.delta_var)
        r = [[v.value for v in s.fit_range] for s in (a, b)]
        c = np.nan
        if r[0] == r[1]:
            la = np.asarray(a.lags.value)
            use = (la >= r[0][0]) & (la <= r[0][1]) & (da > 0) & (db > 0)
            da, db = da[use], db[use]
            c = np.sqrt(((np.log10(da / da.sum()) -
                          np.log10(db / db.sum()))**2).sum())
        return [c, tstat(a.slope, b.slope, a.slope_err, b.slope_err)]


class Wave(Image):
    def opts(self):
        a, b = {}, {}
        if self.var in (1, 2):
            for o in (a, b):
                o["low"] = float(self.rng.uniform(3., 4.)) * u.pix
                o["high"] = float(self.rng.uniform(8., 11.)) * u.pix
        if self.var in (2, 3):
            sc = np.linspace(3., min(self.sc["shape"] + self.sc["shape2"]) /
                             2.2, 15) * u.pix
            a["scales"] = b["scales"] = sc
        if self.var == 3:
            a["run"] = {"scale_normalization": True}
            b["run"] = {"scale_normalization": False}
        if self.var == 4:
            a["num"] = b["num"] = 13
        return a, b

    def bare(self, x, o):
        from turbustat.statistics import Wavelet
        return Wavelet(self.fresh(x), scales=o.get("scales"),
                       num=o.get("num", 50))

    def stat(self, x, o):
        s = self.bare(x, o)
        s.run(xlow=o.get("low"), xhigh=o.get("high"), **o.get("run", {}))
        return s

    def dist(self, x, ox, y, oy):
        from turbustat.statistics import Wavelet_Distance
        k = {}
        if "low" in ox:
            k["xlow"] = u.Quantity([ox["low"], oy["low"]])
            k["xhigh"] = u.Quantity([ox["high"], oy["high"]])
        if "scales" in ox:
            k["scales"] = ox["scales"]
        if "num" in ox:
            k["num"] = ox["num"]
        if "run" in ox:
            k["fit_kwargs"] = ox["run"]
            if oy is not ox:
                k["fit_kwargs2"] = oy["run"]
        x = self.fresh(x) if isinstance(x, tuple) else x
        y = self.fresh(y) if isinstance(y, tuple) else y
        return Wavelet_Distance(x, y, **k)

    formula = PSpec.formula


class SCF(Cube):
    def pair(self):
        a, b = Cube.pair(self)
        if self.var == 3:
            b = (b[0], gen.header3d(b[0].shape, pix=0.5 / 3600.))
        return a, b

    def opts(self):
        n = int(self.rng.choice([5, 7, 9]))
        bd = self.var != 2 and "continuous" or "cut"
        return ({"size": n, "bd": bd}, {"size": n, "bd": "continuous"
                                       if self.var == 2 else bd})

    def bare(self, x, o):
        from turbustat.statistics import SCF as M
        f = o.get("f", 1.)
        lags = (np.arange(o["size"]) - o["size"] // 2) * f * u.pix
        return M(self.fresh(x), roll_lags=lags)

    def stat(self, x, o):
        s = self.bare(x, o)
        s.compute_surface(boundary=o["bd"], show_progress=False)
        s.compute_spectrum()
        return s

    def both(self, x, ox, y, oy):
        return (self.stat(x, ox),
                self.stat(y, dict(oy, f=2. if self.var == 3 else 1.)))

    def metric(self, d, **k):
        d.distance_metric(weighted=self.var != 1, **k)
        return self.values(d)

    def dist(self, x, ox, y, oy):
        from turbustat.statistics import SCF_Distance
        x = self.fresh(x) if isinstance(x, tuple) else x
        y = self.fresh(y) if isinstance(y, tuple) else y
        bd = ox["bd"] if ox["bd"] == oy["bd"] else [ox["bd"], oy["bd"]]
        return SCF_Distance(x, y, size=ox["size"], boundary=bd,
                            show_progress=False)

    def formula(self, a, b):
        n = a.scf_surface.shape[0]
        tot = wt = 0.
        for i in range(n):
            for j in range(n):
                r = np.hypot(i - n // 2, j - n // 2)
                w = 1. if (r == 0 or self.var == 1) else 1. / r
                wt += w
                tot += w * (a.scf_surface[i, j] - b.scf_surface[i, j])**2
        return [np.sqrt(tot / wt)]


class PCA(Cube):
    nvar = 7

    def opts(self):
        n = min(self.sc["cshape"][0], self.sc["cshape2"][0])
        o = {"n": int(self.rng.integers(3, n - 1)), "sub": self.var % 2 == 0}
        if self.var > 4:        # all of one of them
            o["n"] = n
        return o, dict(o)

    def other(self, x, ox, y, oy):
        # fewer eigenvalues asked for: all of them are kept
        return self.stat(x, dict(ox, n=2)), ox, self.stat(y, dict(oy, n=3)), oy

    def bare(self, x, o):
        from turbustat.statistics import PCA as M
        return M(self.fresh(x))

    def stat(self, x, o):
        s = self.bare(x, o)
        s.compute_pca(mean_sub=o["sub"], n_eigs=o["n"])
        return s

    def dist(self, x, ox, y, oy):
        from turbustat.statistics import PCA_Distance
        x = self.fresh(x) if isinstance(x, tuple) else x
        y = self.fresh(y) if isinstance(y, tuple) else y
        return PCA_Distance(x, y, n_eigs=ox["n"], mean_sub=ox["sub"])

    def formula(self, a, b):
        i = 0 if self.o["sub"] else 1
        ea = np.asarray(a.eigvals)[i:self.o["n"]]
        eb = np.asarray(b.eigvals)[i:self.o["n"]]
        return [np.sqrt(((ea / ea.sum() - eb / eb.sum())**2).sum())]


class Bispec(Image):
    names = ("surface_distance", "mean_distance")

    def pair(self):
        a, b = Image.pair(self)
        if self.var != 1:
            b = self.data(a[0].shape, self.sc["kind2"])
        return a, b

    def opts(self):
        o = {"nsamples": int(self.rng.integers(40, 90))}
        if self.var == 2:
            o["seed"] = int(self.rng.integers(9999))
        if self.var == 3:
            o["mean_subtract"] = True
        return {"run": o}, {"run": dict(o)}

    def bare(self, x, o):
        from turbustat.statistics import Bispectrum
        return Bispectrum(self.fresh(x))

    def stat(self, x, o):
        return self.bare(x, o).run(show_progress=False, **o["run"])

    def dist(self, x, ox, y, oy):
        from turbustat.statistics import Bispectrum_Distance
        x = self.fresh(x) if isinstance(x, tuple) else x
        y = self.fresh(y) if isinstance(y, tuple) else y
        return Bispectrum_Distance(x, y, stat_kwargs=dict(
            ox["run"], show_progress=False))

    def formula(self, a, b):
        p, q = np.asarray(a.bicoherence), np.asarray(b.bicoherence)
        s = np.nan
        if p.shape == q.shape:
            s = np.sqrt(((p - q)**2).sum())
        return [s, abs(p.mean() - q.mean())]


class GenusD(Image):
    pre = False
    nvar = 8

    def pair(self):
        a, b = Image.pair(self)
        if self.var == 5:       # pixels of different size
            self.pix2 = float(self.rng.choice([.4, .5, 2., 3.])) / 3600.
            b = (b[0], gen.header2d(b[0].shape, pix=self.pix2))
        a, b = (z + (1. / 3600. if z[1]["CDELT2"] == a[1]["CDELT2"]
                     else self.pix2,) for z in (a, b))
        return a, b

    def opts(self):
        if self.var == 6:       # limits for each image
            n = int(self.rng.integers(12, 40))
            return tuple(dict(
                numpts=n, run={}, min_value=float(self.rng.uniform(-1.5, -1)),
                max_value=float(self.rng.uniform(1., 2.))) for i in range(2))
        if self.var == 7:
            n = int(self.rng.integers(12, 40))
            return tuple(dict(
                numpts=n, lowdens_percent=float(self.rng.uniform(2, 20)),
                highdens_percent=float(self.rng.uniform(80, 98)),
                run={"min_size": int(self.rng.integers(1, 9))})
                for i in range(2))
        o = {"numpts": int(self.rng.integers(12, 40))}
        if self.var == 1:
            o.update(lowdens_percent=10., highdens_percent=90.)
        if self.var == 2:
            o.update(min_value=-1.2, max_value=1.5)
        if self.var == 3:
            o["smoothing_radii"] = [1.5]
        o["run"] = {} if self.var < 4 else {"min_size": 7, "connectivity": 1}
        return o, dict(o)

    def stat(self, x, o):
        from turbustat.statistics import Genus
        im = x[0]
        z = (im - np.nanmean(im)) / np.nanstd(im)
        k = {n: v for n, v in o.items() if n != "run"}
        s = Genus(z, **k).run(**o["run"])
        s.pix_ = x[2]
        return s

    def dist(self, x, ox, y, oy):
        from turbustat.statistics import Genus_Distance
        k = {n: v for n, v in ox.items() if n != "run"}
        if self.var >= 6:
            k = {n: v if n == "numpts" else [v, oy[n]] for n, v in k.items()}
            if oy is not ox:
                k["genus2_kwargs"] = oy["run"]
        return Genus_Distance(self.fresh(x), self.fresh(y),
                              genus_kwargs=ox["run"], **k)

    def formula(self, a, b):
        from scipy.interpolate import InterpolatedUnivariateSpline as S
        lo = max(a.thresholds.min(), b.thresholds.min())
        hi = min(a.thresholds.max(), b.thresholds.max())
        p = np.linspace(lo, hi, a.thresholds.size + b.thresholds.size)
        # areas in pixels of the coarser grid
        pix = max(a.pix_, b.pix_)
        ca = S(a.thresholds, a.genus_stats[0] /
               (a.data.size * (a.pix_ / pix)**2))(p)
        cb = S(b.thresholds, b.genus_stats[0] /
               (b.data.size * (b.pix_ / pix)**2))(p)
        return [np.sqrt(((ca - cb)**2).sum())]


class Moments(Image):
    names = ("skewness_distance", "kurtosis_distance")
    nvar = 8

    def pair(self):
        a, b = Image.pair(self)
        if self.var == 6:
            a, b = ((gen.punch(self.rng, z[0], "scatter"), z[1])
                    for z in (a, b))
        if self.var == 3:
            b = (b[0], gen.header2d(b[0].shape, pix=0.5 / 3600.))
        return a, b

    def opts(self):
        o = {"R": int(self.rng.integers(3, 6)), "nb": None,
             "per": self.var != 2}
        if self.var == 1:
            o["nb"] = int(self.rng.integers(6, 20))
        o["mf"] = .8 if self.var != 6 else float(self.rng.uniform(.85, .97))
        return o, dict(o, per=True)

    def wgt(self, x):
        if self.var != 5:
            return None
        return 0.5 + gen.rng_of(x[0].shape, float(x[0][0, 0])).random(
            x[0].shape)

    def radius(self, o):
        if self.var == 7:       # an angle, the same for both
            return (o["R"] * u.arcsec).to(u.deg)
        return o["R"] * u.pix

    def bare(self, x, o):
        from turbustat.statistics import StatMoments
        return StatMoments(self.fresh(x), radius=self.radius(o),
                           weights=self.wgt(x))

    def stat(self, x, o):
        s = self.bare(x, o)
        s.compute_spatial_distrib(periodic=o["per"], min_frac=o["mf"])
        return s

    def both(self, x, ox, y, oy):
        return (self.stat(x, ox), self.stat(
            y, dict(oy, R=oy["R"] * (2 if self.var == 3 else 1))))

    def other(self, x, ox, y, oy):
        # another radius: both are computed again with the common one
        a, b = self.both(x, dict(ox, R=ox["R"] + 1),
                         y, dict(oy, R=oy["R"] + 1))
        return a, ox, b, oy

    def dist(self, x, ox, y, oy):
        from turbustat.statistics import StatMoments_Distance
        k = {}
        if isinstance(x, tuple):
            k["weights1"] = self.wgt(x)
            x = self.fresh(x)
        if isinstance(y, tuple):
            k["weights2"] = self.wgt(y)
            y = self.fresh(y)
        return StatMoments_Distance(x, y, radius=self.radius(ox),
                                    nbins=ox["nb"], periodic1=ox["per"],
                                    periodic2=oy["per"], min_frac=ox["mf"],
                                    **k)

    def formula(self, a, b):
        out = []
        for p, q in ((a.skewness_array, b.skewness_array),
                     (a.kurtosis_array, b.kurtosis_array)):
            p, q = p[np.isfinite(p)], q[np.isfinite(q)]
            n = self.o["nb"]
            if n is None:
                # one fewer bins than edges
                n = int(np.sqrt(min(a.data.size, b.data.size)))
            edges = np.linspace(min(p.min(), q.min()), max(p.max(), q.max()),
                                n)
            hp = np.histogram(p, edges, density=True)[0]
            hq = np.histogram(q, edges, density=True)[0]
            if (np.abs(p[:, None] - edges[None, 1:-1]).min() < 1e-9 or
                    np.abs(q[:, None] - edges[None, 1:-1]).min() < 1e-9):
                return None
            out.append(hell(hp, hq, edges[1] - edges[0]))
        return out


class PDFD(Image):
    pre = False
    names = ("hellinger_distance", "ks_distance", "lognormal_distance")

    def pair(self):
        if self.var == 4:
            return [(c, gen.header3d(c.shape)) for c in
                    (gen.cube(self.rng, (5, 9, 11), "positive"),
                     gen.cube(self.rng, (6, 8, 10), "positive"))]
        return [self.data(tuple(s), k, nan=n) for s, k, n in (
            (self.sc["shape"], "lognorm", "scatter"),
            (self.sc["shape2"], "positive", "none"))]

    def opts(self):
        a, b, c = {}, {}, {}
        if self.var == 1:
            c["normalization_type"] = "normalize_by_mean"
        if self.var == 2:
            c["nbins"] = int(self.rng.integers(8, 30))
            a["min_val"], b["min_val"] = 0.4, 0.9
        if self.var == 3:
            a["w"] = b["w"] = True
        a["c"] = b["c"] = c
        return a, b

    def wgt(self, x, o):
        if not o.get("w"):
            return None
        return 0.5 + gen.rng_of(x[0].shape, "w").random(x[0].shape)

    def stat(self, x, o):
        return x, o

    def dist(self, x, ox, y, oy):
        from turbustat.statistics import PDF_Distance
        k = dict(ox["c"])
        if "min_val" in ox:
            k.update(min_val1=ox["min_val"], min_val2=oy["min_val"])
        return PDF_Distance(self.fresh(x), self.fresh(y),
                            weights1=self.wgt(x, ox),
                            weights2=self.wgt(y, oy), **k)

    def formula(self, A, B):
        from turbustat.statistics import PDF
        from .p18 import retained, near_edges
        from scipy.stats import ks_2samp
        vals = []
        for x, o in (A, B):
            vals.append(retained(x[0], o.get("min_val", -np.inf),
                                 self.wgt(x, o),
                                 o["c"].get("normalization_type")))
        p, q = vals
        n = A[1]["c"].get("nbins")
        if n is None:
            n = int(np.sqrt((p.size + q.size) / 2.))
        e = np.linspace(min(p.min(), q.min()), max(p.max(), q.max()), n)
        if near_edges(p, e) or near_edges(q, e):
            return None
        hp = np.histogram(p, e)[0] / float(p.size)
        hq = np.histogram(q, e)[0] / float(q.size)
        fits = []
        for (x, o) in (A, B):
            s = PDF(self.fresh(x), min_val=o.get("min_val", -np.inf),
                    normalization_type=o["c"].get("normalization_type"),
                    weights=self.wgt(x, o))
            s.run(bins=e, do_fit=True)
            fits.append(s)
        a, b = fits
        return [hell(hp, hq), ks_2samp(p, q)[0],
                tstat(a.model_params[0], b.model_params[0],
                      a.model_stderrs[0], b.model_stderrs[0])]


class CramerD(Cube):
    pre = False

    def opts(self):
        if self.var in (0, 3):
            return {}, {}
        o = {"noise": float(self.rng.uniform(.02, .2))}
        return o, {"noise": float(self.rng.uniform(.02, .2))}

    def pair(self):
        a, b = Cube.pair(self)
        # same number of pixels: otherwise one is randomly sampled
        b = gen.cube(self.rng, (self.sc["cshape2"][0],) + a[0].shape[1:],
                     self.sc["ckind2"])
        return a, (b, gen.header3d(b.shape))

    def stat(self, x, o):
        from .p20 import reduce_
        X = reduce_(x[0], .2, o.get("noise", -np.inf))
        if self.var < 3:
            X = X / np.linalg.svd(X)[1][0]
        return X

    def metric(self, d, **k):
        d.distance_metric(normalize=self.var < 3, **k)
        return self.values(d)

    def dist(self, x, ox, y, oy):
        from turbustat.statistics import Cramer_Distance
        k = {}
        if "noise" in ox:
            k = dict(noise_value1=ox["noise"], noise_value2=oy["noise"])
        return Cramer_Distance(self.fresh(x), self.fresh(y), **k)

    def formula(self, X, Y):
        from .p20 import cramer, tol
        t = tol(X, Y)
        self.tol = dict(rtol=1e-6, atol=t)
        self.zero = t
        return [cramer(X, Y)]


class Dendro(Image):
    names = ("histogram_distance", "num_distance")
    plots = True

    def exact(self, s, n):
        # three counts on a line: no scatter to measure the difference in
        return n == "num_distance" and not s.tail_slope_err > 1e-8

    def pair(self):
        out = []
        for s in (self.sc["shape"], self.sc["shape2"]):
            im = gen.image(self.rng, tuple(s), "lognorm")
            im = im + .2 * im.std() * self.rng.standard_normal(im.shape)
            im = im / im.std()
            out.append((im, gen.header2d(im.shape)))
        self.maps = out
        return out

    def opts(self):
        o = {"deltas": np.logspace(-1.5, .1, int(self.rng.integers(8, 14))),
             "nbins": "best" if self.var != 1 else 7,
             "mf": int(self.rng.integers(4, 12)), "params": None}
        if self.var == 2:
            o["params"] = {"min_value": 0.2, "min_npix": 2, "min_delta": .03}
        if self.var == 3:
            o["run"] = {"periodic_bounds": True}
        # no more features asked for than both trees have
        for m in self.maps:
            d = self.bare(m, o)
            d.compute_dendro(**o.get("run", {}))
            o["mf"] = max(1, min(o["mf"], int(d.numfeatures[1]) - 1))
        return o, dict(o)

    def bare(self, x, o):
        from turbustat.statistics import Dendrogram_Stats
        return Dendrogram_Stats(self.fresh(x), min_deltas=o["deltas"].copy(),
                                dendro_params=o["params"] and
                                dict(o["params"]))

    def stat(self, x, o):
        s = self.bare(x, o)
        s.run(verbose=False, make_hists=False, **o.get("run", {}))
        return s

    def dist(self, x, ox, y, oy):
        from turbustat.statistics import Dendrogram_Distance
        x = self.fresh(x) if isinstance(x, tuple) else x
        y = self.fresh(y) if isinstance(y, tuple) else y
        k = {}
        if "run" in ox:
            k["dendro_kwargs"] = ox["run"]
        return Dendrogram_Distance(x, y, min_deltas=ox["deltas"].copy(),
                                   nbins=ox["nbins"], min_features=ox["mf"],
                                   dendro_params=ox["params"], **k)

    def formula(self, a, b):
        na, nb = np.asarray(a.numfeatures), np.asarray(b.numfeatures)
        mf = self.o["mf"]
        cut = min(np.nonzero(na > mf)[0][-1], np.nonzero(nb > mf)[0][-1])
        ds = []
        for i in range(cut):
            va, vb = np.asarray(a.values[i]), np.asarray(b.values[i])
            va = (va - va.mean()) / va.std()
            vb = (vb - vb.mean()) / vb.std()
            n = self.o["nbins"]
            if n == "best":
                n = int(np.sqrt((na[i] + nb[i]) / 2.))
            e = np.linspace(min(va.min(), vb.min()), max(va.max(), vb.max()),
                            n + 1)
            if n > 1 and (
                    np.abs(va[:, None] - e[None, 1:-1]).min() < 1e-10 or
                    np.abs(vb[:, None] - e[None, 1:-1]).min() < 1e-10):
                return None
            ha = np.histogram(va, e)[0] / float(va.size)
            hb = np.histogram(vb, e)[0] / float(vb.size)
            ds.append(hell(ha, hb))
        return [np.mean(ds), tstat(a.tail_slope, b.tail_slope,
                                   a.tail_slope_err, b.tail_slope_err)]


CASES = dict(pspec=PSpec, mvc=MVC, vca=VCA, vcs=VCS, delvar=DelVar,
             wavelet=Wave, scf=SCF, pca=PCA, bispec=Bispec, genus=GenusD,
             moments=Moments, pdf=PDFD, cramer=CramerD, dendro=Dendro)


def f_distance(sc, mon):
    rng = gen.rng_of(sc["name"], sc["seed"])
    c = CASES[sc["case"]](rng, sc)
    x, y = c.pair()
    ox, oy = c.opts()
    c.o = ox

    def same(clause, got, want):
        for n, g, w in zip(c.names, got, want):
            mon.close("%s %s" % (sc["case"], clause), g, w, quantity=n,
                      **c.tol)

    if hasattr(c, "both"):
        sa, sb = c.both(x, ox, y, oy)
    else:
        sa, sb = c.stat(x, ox), c.stat(y, oy)
    want = c.formula(sa, sb)
    d = c.dist(x, ox, y, oy)
    got = c.metric(d)
    if want is None:
        mon.skip("a value on a bin edge: rounding decides its bin")
    else:
        same("formula", got, want)
    for n, g in zip(c.names, got):
        mon.ok("%s non-negative" % sc["case"],
               np.all((g >= -c.zero) | np.isnan(g)), observed=g, quantity=n)
        if n != "small_scale_distance" and not (
                n == "curve_distance" or n == "surface_distance"):
            mon.ok("%s defined" % sc["case"], np.all(np.isfinite(g)),
                   observed=g, quantity=n)
    # evaluated again
    same("again", c.metric(d), got)
    # exchanged
    same("exchanged", c.metric(c.dist(y, oy, x, ox)), got)
    # a data set against itself
    for z, oz, sz in ((x, ox, sa), (y, oy, sb)):
        dz = c.metric(c.dist(z, oz, z, oz))
        for n, g in zip(c.names, dz):
            mon.ok("%s itself" % sc["case"],
                   np.all((np.abs(g) <= c.zero) | np.isnan(g)), observed=g,
                   quantity=n)
            if hasattr(c, "exact") and c.exact(sz, n):
                mon.skip("a slope without scatter")
            elif "curve" not in n and "small" not in n:
                mon.ok("%s itself defined" % sc["case"],
                       np.all(np.isfinite(g)), observed=g, quantity=n)
    if c.pre:
        same("computed", c.metric(c.dist(sa, ox, sb, oy)), got)
        b1, b2 = (c.both(x, ox, y, oy) if hasattr(c, "both")
                  else (c.stat(x, ox), c.stat(y, oy)))
        same("computed first", c.metric(c.dist(b1, ox, y, oy)), got) \
            if c.sc["case"] not in ("scf",) or sc["var"] != 3 else None
        same("computed second", c.metric(c.dist(x, ox, b2, oy)), got) \
            if c.sc["case"] not in ("scf",) or sc["var"] != 3 else None
        same("not yet computed",
             c.metric(c.dist(c.bare(x, ox), ox, c.bare(y, oy), oy)), got)
        if hasattr(c, "other"):     # computed with another setting
            same("computed otherwise", c.metric(c.dist(
                *(c.other(x, ox, y, oy)))), got)
        # the same statistic object on both sides
        s = c.stat(x, ox)
        dz = c.metric(c.dist(s, ox, s, ox))
        for n, g in zip(c.names, dz):
            mon.ok("%s itself" % sc["case"],
                   np.all((np.abs(g) <= c.zero) | np.isnan(g)), observed=g,
                   quantity=n)
    if sc["plot"] and c.plots:
        tmp = tempfile.mkdtemp()
        try:
            dd = c.dist(x, ox, y, oy)
            same("plotted", c.metric(dd, verbose=True, save_name=os.path.join(
                tmp, "p.png")), got)
            mon.ok("figure saved", len(os.listdir(tmp)) > 0,
                   observed=sorted(os.listdir(tmp)))
        finally:
            shutil.rmtree(tmp)


def scenarios(tier, seed):
    out = []
    rng = gen.rng_of("p21", seed)
    reps = 2 if tier == "quick" else 12
    for case in sorted(CASES):
        for var in range(CASES[case].nvar):
            for k in range(reps):
                s = [int(v) for v in rng.integers(26, 44, 2)]
                s2 = [int(v) for v in rng.integers(26, 44, 2)]
                cs = [int(rng.integers(18, 26)), int(rng.integers(20, 27)),
                      int(rng.integers(20, 27))]
                cs2 = [int(rng.integers(18, 26)), int(rng.integers(20, 27)),
                       int(rng.integers(20, 27))]
                kd = [str(v) for v in rng.choice(
                    ["plaw", "lognorm", "positive", "blobs"], 2)]
                ck = [str(v) for v in rng.choice(["lines", "positive"], 2)]
                out.append(dict(
                    name="distance-%s-%d-%d-s%d" % (case, var, k, seed),
                    fn="distance", seed=seed, case=case, var=var, shape=s,
                    shape2=s2, cshape=cs, cshape2=cs2, kind=kd[0],
                    kind2=kd[1], ckind=ck[0], ckind2=ck[1], plot=k == 0))
    return out


FNS = {"distance": f_distance}
