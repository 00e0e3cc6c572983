"""P30: options outside their stated range are refused, inside accepted."""
import numpy as np
import astropy.units as u
from astropy.io import fits
from .. import gen

ID = "P30"
RULE = ("One evaluation = one call with an option outside its stated range "
        "(which must raise the documented kind of exception) or just inside "
        "it (which must be accepted); distinct = different (clause, "
        "outcome).")
KW = dict(show_progress=False)


class Case(object):
    """Pairs of refused and accepted calls."""

    def __init__(self, mon, prefix):
        self.mon, self.pre = mon, prefix

    def bad(self, label, exc, fn, *a, **k):
        self.mon.raises("%s-%s-refused" % (self.pre, label), exc, fn, *a, **k)

    def good(self, label, fn, *a, **k):
        try:
            r = fn(*a, **k)
        except Exception as e:
            self.mon.fail("%s-%s-accepted" % (self.pre, label), got=repr(e))
            return None
        self.mon.ok("%s-%s-accepted" % (self.pre, label), True,
                    observed=type(r).__name__)
        return r


def data2(rng, sc):
    shape = tuple(sc["shape"])
    img = gen.image(rng, shape, "plaw")
    return img - img.min() + 1., gen.header2d(shape), shape


def limits(rng, shape):
    """Lag-like values below one pixel, beyond half the map, inside."""
    half = min(shape) / 2.
    low = [float(rng.uniform(.05, .95)), .9999, 0., -1.]
    high = [np.floor(half) + 1., np.floor(half) + 1.3, half * 1.9 + 2,
            float(np.floor(half) + rng.uniform(1., 9.))]
    mid = np.sort(rng.uniform(1.1, half - .1, 5))
    return low, high, mid, half


def f_lags(sc, mon):
    from turbustat.statistics import DeltaVariance, Wavelet, Tsallis
    rng = gen.rng_of(sc["name"], sc["seed"])
    img, hdr, shape = data2(rng, sc)
    low, high, mid, half = limits(rng, shape)
    if sc["cls"] == "tsallis":
        # whole pixels
        low, mid = [0.9, 0., -2.], np.arange(1., np.floor(half))
    C = {"delvar": DeltaVariance, "wavelet": Wavelet,
         "tsallis": Tsallis}[sc["cls"]]
    key = "scales" if sc["cls"] == "wavelet" else "lags"
    c = Case(mon, sc["cls"])

    def make(values, **k):
        return C(img.copy(), header=hdr, **dict({key: values}, **k))
    unit, f = {"pix": (u.pix, 1.), "arcsec": (u.arcsec, 1.),
               "deg": (u.deg, 1 / 3600.)}[sc["unit"]]
    for v in low:
        for pos in (0, 2, -1):
            a = mid.copy()
            a[pos] = v
            c.bad("small", ValueError, make, a * f * unit)
    for v in high:
        for pos in (0, 2, -1):
            a = mid.copy()
            a[pos] = v
            c.bad("large", ValueError, make, a * f * unit)
    c.good("inside", make, mid * f * unit)
    c.good("edges", make, np.array([1., np.floor(half)]) * f * unit)
    if sc["cls"] != "delvar":
        # (delta-variance takes plain numbers as pixels here)
        c.bad("no-unit", TypeError, make, mid)
        c.bad("list", TypeError, make, list(mid))
    c.bad("kelvin", u.UnitConversionError, make, mid * u.K)
    c.bad("no-distance", AttributeError, make, mid * u.pc)
    d = 100. * u.pc
    scale = (d * (1. / 3600. * np.pi / 180.)).to(u.pc).value
    c.good("distance", make, mid * scale * u.pc, distance=d)
    c.bad("small-physical", ValueError, make,
          np.r_[low[0], mid] * scale * u.pc, distance=d)
    c.bad("large-physical", ValueError, make,
          np.r_[mid, high[0]] * scale * u.pc, distance=d)
    # assigned later
    s = make(mid * u.pix)
    c.bad("set-small", ValueError, setattr, s, key,
          np.array([low[0], 2.]) * u.pix)
    c.bad("set-large", ValueError, setattr, s, key,
          np.array([2., high[0]]) * u.pix)
    c.bad("set-no-unit", TypeError, setattr, s, key, mid)


def f_delvar(sc, mon):
    from turbustat.statistics import DeltaVariance
    rng = gen.rng_of(sc["name"], sc["seed"])
    img, hdr, shape = data2(rng, sc)
    c = Case(mon, "delvar")
    for s in ((shape[0] + 1, shape[1]), (shape[1], shape[0] + 1),
              (shape[0], shape[1] - 1), (shape[0] // 2, shape[1] * 2)):
        c.bad("weights-shape", ValueError, DeltaVariance, img.copy(),
              header=hdr, weights=np.ones(s))
    c.good("weights", DeltaVariance, img.copy(), header=hdr,
           weights=np.ones(shape))
    lags = np.linspace(1.5, min(shape) * .4, 14) * u.pix
    d = DeltaVariance(img.copy(), header=hdr, lags=lags)
    for b in ("Wrap", "reflect", "", None, "continuous"):
        c.bad("boundary", ValueError, d.compute_deltavar, boundary=b, **KW)
        c.bad("boundary-run", ValueError, d.run, boundary=b, **KW)
    c.good("boundary", d.compute_deltavar, boundary="fill", **KW)
    lo, hi = lags[3].value, lags[-4].value
    for b in (lo * .9, hi * 1.1, lo - .4, hi + 1.):
        c.bad("break", ValueError, d.fit_plaw, xlow=lo * u.pix,
              xhigh=hi * u.pix, brk=b * u.pix)
    c.good("break", d.fit_plaw, xlow=lo * u.pix, xhigh=hi * u.pix,
           brk=.5 * (lo + hi) * u.pix)
    c.bad("limit-unit", u.UnitConversionError, d.fit_plaw, xlow=3 * u.K)
    c.bad("limit-high-unit", u.UnitConversionError, d.fit_plaw,
          xhigh=3 * u.K)
    c.bad("limit-physical", AttributeError, d.fit_plaw, xlow=3 * u.pc)
    c.bad("plot-unit", Exception, d.plot_fit, xunit=u.K)


def f_wavelet(sc, mon):
    from turbustat.statistics import Wavelet
    rng = gen.rng_of(sc["name"], sc["seed"])
    img, hdr, shape = data2(rng, sc)
    c = Case(mon, "wavelet")
    sca = np.linspace(1.5, min(shape) * .4, 14) * u.pix
    w = Wavelet(img.copy(), header=hdr, scales=sca)
    w.compute_transform(show_progress=False)
    lo, hi = sca[3].value, sca[-4].value
    for b in (lo * .9, hi * 1.1, lo - .4, hi + 1.):
        c.bad("break", ValueError, w.fit_transform, xlow=lo * u.pix,
              xhigh=hi * u.pix, brk=b * u.pix)
    c.good("break", w.fit_transform, xlow=lo * u.pix, xhigh=hi * u.pix,
           brk=.5 * (lo + hi) * u.pix)
    c.bad("limit-unit", u.UnitConversionError, w.fit_transform, xlow=3 * u.s)
    c.bad("limit-high-unit", u.UnitConversionError, w.fit_transform,
          xhigh=3 * u.s)


def f_moments(sc, mon):
    from turbustat.statistics import StatMoments
    rng = gen.rng_of(sc["name"], sc["seed"])
    img, hdr, shape = data2(rng, sc)
    half = min(shape) / 2.
    c = Case(mon, "moments")

    def make(r, **k):
        return StatMoments(img.copy(), header=hdr, radius=r, **k)
    for r in (0., 1., 1.5, 1.999, float(rng.uniform(.1, 1.9)), -3.):
        c.bad("small", ValueError, make, r * u.pix)
        c.bad("small-arcsec", ValueError, make, r * u.arcsec)
    for r in (half + .01, half + .5, half * 2, float(half +
                                                     rng.uniform(.01, 5))):
        c.bad("large", ValueError, make, r * u.pix)
        c.bad("large-arcsec", ValueError, make, r * u.arcsec)
    c.good("smallest", make, 2 * u.pix)
    c.good("largest", make, half * u.pix)
    c.bad("no-unit", TypeError, make, 4.)
    c.bad("unit", u.UnitConversionError, make, 4. * u.K)
    c.bad("no-distance", AttributeError, make, 4. * u.pc)
    s = make(3 * u.pix)
    for f in (0., -.1, 1.0001, 2., float(rng.uniform(1.01, 5))):
        c.bad("fraction", ValueError, s.compute_spatial_distrib, min_frac=f,
              **KW)
        c.bad("fraction-run", ValueError, s.run, min_frac=f, **KW)
    for r in (1., half + 1):
        c.bad("late-radius", ValueError, s.compute_spatial_distrib,
              radius=r * u.pix, **KW)
    c.bad("late-no-unit", TypeError, s.compute_spatial_distrib, radius=3, **KW)
    c.good("fraction", s.compute_spatial_distrib, min_frac=1., **KW)
    n = make(3 * u.pix)
    n.compute_spatial_distrib(**KW)
    c.bad("no-histograms", Exception, n.plot_histograms)


def f_genus(sc, mon):
    from turbustat.statistics import Genus
    rng = gen.rng_of(sc["name"], sc["seed"])
    img, hdr, shape = data2(rng, sc)
    half = .5 * min(shape)
    c = Case(mon, "genus")
    H = fits.PrimaryHDU(img.copy(), hdr)

    def make(r=None, **k):
        return Genus(H, smoothing_radii=r, **k)
    for r in (0.5, .99, 0., float(rng.uniform(.1, .98)), -1.):
        c.bad("small", ValueError, make, np.array([2., r]))
        c.bad("small-first", ValueError, make, np.array([r, 2.]))
    for r in (half + .01, half * 1.5, half + float(rng.uniform(.01, 4))):
        c.bad("large", ValueError, make, np.array([2., r]))
        c.bad("large-first", ValueError, make, np.array([r, 2.]))
    c.good("edges", make, np.array([1., half]))
    g = Genus(H, smoothing_radii=np.array([1.5]), numpts=5)
    g.make_genus_curve()
    c.bad("not-kept", ValueError, lambda: g.smoothed_images)
    g.make_genus_curve(keep_smoothed_images=True)
    c.good("kept", lambda: g.smoothed_images)
    # with units
    from spectral_cube import Projection
    from astropy.wcs import WCS
    q = Projection(img * u.K, wcs=WCS(hdr), header=hdr)
    n = "thresholds"
    lo, hi = np.percentile(img, [20, 80])
    th = np.linspace(lo, hi, 6)
    if hasattr(Genus(q, smoothing_radii=np.array([1.5])).data, "unit"):
        c.bad("thresholds-no-unit", TypeError, Genus, q, thresholds=th)
        c.bad("thresholds-unit", u.UnitsError, Genus, q,
              thresholds=th * u.Jy)
        c.good("thresholds", Genus, q, thresholds=th * u.K)
        c.good("thresholds-equivalent", Genus, q, thresholds=th * 1e3 * u.mK)
        c.bad("min-no-unit", TypeError, Genus, q, min_value=lo)
        c.bad("min-unit", u.UnitsError, Genus, q, min_value=lo * u.Jy)
        c.good("min", Genus, q, min_value=lo * u.K)
        c.bad("max-no-unit", TypeError, Genus, q, max_value=hi)
        c.bad("max-unit", u.UnitsError, Genus, q, max_value=hi * u.Jy)
        c.good("max", Genus, q, max_value=hi * u.K)
    else:
        mon.skip("units not kept")


def f_pspec(sc, mon):
    from turbustat.statistics import PowerSpectrum, MVC, VCA
    from radio_beam import Beam
    rng = gen.rng_of(sc["name"], sc["seed"])
    img, hdr, shape = data2(rng, sc)
    c = Case(mon, sc["cls"])
    cub = rng.gamma(2., 1., (5,) + shape)
    h3 = gen.header3d(cub.shape)
    if sc["cls"] == "pspec":
        def make(**k):
            return PowerSpectrum(img.copy(), header=hdr, **k)
    elif sc["cls"] == "vca":
        def make(**k):
            return VCA(cub.copy(), header=h3, **k)
    else:
        def make(**k):
            return MVC(img.copy(), img.copy() + 2., img.copy() * .1 + 1.,
                       header=hdr, **k)
        for i in range(3):
            a = [img.copy(), img.copy(), img.copy()]
            a[i] = a[i][:-1] if rng.integers(2) else a[i][:, 1:]
            c.bad("shapes", IndexError, MVC, *a, header=hdr)
    c.bad("beam-type", TypeError, make, beam="x")
    c.bad("beam-number", TypeError, make, beam=3.)
    p = make()
    c.bad("no-beam", Exception, p.compute_pspec, beam_correct=True)
    c.good("beam", make(beam=Beam(3. * u.arcsec)).compute_pspec,
           beam_correct=True)
    for w in ("hamming", "Tukey", "", "none", 3):
        c.bad("window", ValueError, p.compute_pspec, apodize_kernel=w)
        c.bad("window-run", ValueError, p.run, apodize_kernel=w)
    for w in ("hanning", "cosinebell", "splitcosinebell", "tukey"):
        c.good("window-" + w, p.compute_pspec, apodize_kernel=w, alpha=.3,
               beta=.4)
    p.compute_pspec()
    p.compute_radial_pspec()
    c.bad("limits-2d", ValueError, p.fit_2Dpspec, low_cut=.6 * u.pix**-1,
          high_cut=.5 * u.pix**-1)
    c.bad("limits-2d-high", ValueError, p.fit_2Dpspec,
          low_cut=.8 * u.pix**-1, high_cut=.9 * u.pix**-1)
    c.good("limits-2d", p.fit_2Dpspec, low_cut=.1 * u.pix**-1,
           high_cut=.45 * u.pix**-1, bootstrap=False, fit_method="LevMarq")
    c.bad("2d-method", ValueError, p.fit_2Dpspec, fit_method="other")
    c.bad("limit-unit", u.UnitConversionError, p.fit_pspec,
          low_cut=.1 * u.K**-1)
    c.bad("limit-high-unit", u.UnitConversionError, p.fit_pspec,
          high_cut=.1 * u.K**-1)
    c.bad("limit-physical", AttributeError, p.fit_pspec,
          low_cut=.1 * u.pc**-1)
    c.bad("no-width", ValueError, p.compute_radial_pspec, theta_0=30 * u.deg)
    c.good("width", p.compute_radial_pspec, theta_0=30 * u.deg,
           delta_theta=60 * u.deg)


def f_base(sc, mon):
    from turbustat import statistics as S
    rng = gen.rng_of(sc["name"], sc["seed"])
    img, hdr, shape = data2(rng, sc)
    cub = rng.gamma(2., 1., (6,) + shape)
    h3 = gen.header3d(cub.shape)
    c = Case(mon, sc["cls"])
    C = getattr(S, sc["cls"])
    dat, hd = (cub, h3) if sc["cls"] in ("SCF", "VCA", "VCS", "PCA") else \
        (img, hdr)
    hdu = sc["cls"] in ("Genus", "PCA")

    def make(h=hd, d=dat, **k):
        if sc["cls"] == "MVC":
            return C(d.copy(), d.copy(), d.copy(), header=h, **k)
        if hdu:
            return C(fits.PrimaryHDU(d.copy(), h), **k)
        return C(d.copy(), header=h, **k)
    if not hdu and sc["cls"] != "MVC":
        c.bad("no-header", ValueError, make, h=None)
    if not hdu:
        c.bad("header-dict", TypeError, make, h={"CDELT1": 1})
        c.bad("header-text", TypeError, make, h="CDELT1")
    if sc["cls"] != "VCS":
        for ax in ("CDELT1", "CDELT2"):
            h = hd.copy()
            h[ax] = h[ax] * float(rng.choice([1.02, 1.5, .6, .97]))
            c.bad("oblong", ValueError,
                  lambda: make(h=h)._to_pixel(3 * u.arcsec))
            c.bad("oblong-out", ValueError,
                  lambda: make(h=h)._spatial_unit_conversion(3. * u.pix,
                                                             u.deg))
        c.bad("distance-number", TypeError, make, distance=140.)
        c.bad("distance-unit", u.UnitConversionError, make,
              distance=140. * u.K)
        c.bad("distance-angle", u.UnitConversionError, make,
              distance=1. * u.deg)
        c.bad("distance-array", TypeError, make,
              distance=np.array([140., 150.]) * u.pc)
        s = c.good("distance", make, distance=140. * u.pc)
        if s is not None:
            mon.close("distance-kept", s.distance.to(u.pc).value, 140.)
        for q in ("kpc", "lyr", "m", "AU"):
            c.good("distance-" + q, make,
                   distance=(140. * u.pc).to(u.Unit(q)))
        s = make()
        c.bad("no-distance", AttributeError, lambda: s.distance)
        c.bad("no-distance-size", AttributeError, lambda: s._physical_size)
        c.bad("no-distance-pixel", AttributeError, s._to_pixel, 3 * u.pc)
        c.bad("pixel-number", TypeError, s._to_pixel, 3.)
        c.bad("pixel-unit", u.UnitConversionError, s._to_pixel, 3. * u.K)
        c.bad("out-unit", u.UnitConversionError, s._spatial_unit_conversion,
              3. * u.pix, u.K)
        c.good("pixel", s._to_pixel, 3. * u.arcsec)
        c.good("out", s._spatial_unit_conversion, 3. * u.pix, u.arcmin)


def f_scf(sc, mon):
    from turbustat.statistics import SCF, SCF_Distance
    rng = gen.rng_of(sc["name"], sc["seed"])
    shape = (5,) + tuple(sc["shape"])
    cub = rng.gamma(2., 1., shape)
    hdr = gen.header3d(shape)
    c = Case(mon, "scf")

    def make(lags=None, **k):
        return SCF(cub.copy(), header=hdr, roll_lags=lags, **k)
    c.bad("lags-list", (TypeError, AttributeError), make, [-1, 0, 1])
    c.bad("lags-tuple", (TypeError, AttributeError), make, (-1, 0, 1))
    c.bad("lags-unit", u.UnitConversionError, make, np.arange(-1, 2) * u.K)
    c.bad("lags-distance", AttributeError, make, np.arange(-1, 2) * u.pc)
    c.good("lags-array", make, np.arange(-1., 2))
    c.good("lags-arcsec", make, np.arange(-1, 2) * u.arcsec)
    s = make(np.arange(-4., 5))
    c.bad("set-number", ValueError, setattr, s, "roll_lags", np.arange(-1, 2))
    for b in ("wrap", "fill", "", "Cut", None):
        c.bad("boundary", ValueError, s.compute_surface, boundary=b, **KW)
        c.bad("boundary-run", ValueError, s.run, boundary=b, **KW)
    c.good("boundary-cut", s.compute_surface, boundary="cut", **KW)
    c.good("boundary", s.compute_surface, boundary="continuous", **KW)
    s.compute_spectrum()
    for x in (2, 2., np.float64(2)):
        c.bad("low-number", TypeError, s.fit_plaw, xlow=x)
        c.bad("high-number", TypeError, s.fit_plaw, xhigh=x)
    c.bad("low-unit", u.UnitConversionError, s.fit_plaw, xlow=1 * u.K)
    c.bad("high-unit", u.UnitConversionError, s.fit_plaw, xhigh=1 * u.K)
    c.bad("limits", ValueError, s.fit_plaw, xlow=3.6 * u.pix,
          xhigh=1.2 * u.pix)
    c.bad("limits-beyond", ValueError, s.fit_plaw, xlow=50 * u.pix)
    c.bad("limits-2d", ValueError, s.fit_2Dplaw, xlow=90 * u.pix,
          xhigh=99 * u.pix)
    c.good("limits", s.fit_plaw, xlow=1 * u.pix, xhigh=4.5 * u.pix)
    c.bad("model-number", TypeError, s.fitted_model, np.arange(1., 3.))
    c.good("model", s.fitted_model, np.arange(1., 3.) * u.pix)
    c.bad("model-unit", u.UnitConversionError, s.fitted_model, 2. * u.K)
    other = rng.gamma(2., 1., shape)
    b = SCF(other, header=hdr, roll_lags=np.arange(-3., 4))
    b.compute_surface(**KW)
    c.bad("unlike-lags", ValueError, SCF_Distance, s, b, size=9, **KW)
    b2 = SCF(other, header=hdr, roll_lags=np.arange(-4., 5) * .5)
    b2.compute_surface(**KW)
    c.bad("unlike-values", ValueError, SCF_Distance, s, b2, size=9, **KW)
    h1 = fits.PrimaryHDU(cub.copy(), hdr)
    h2 = fits.PrimaryHDU(other, hdr)
    for bnd in (["cut"], ["cut", "cut", "continuous"], []):
        c.bad("boundaries", ValueError, SCF_Distance, h1, h2, size=5,
              boundary=bnd, **KW)
    c.good("boundaries", SCF_Distance, h1, h2, size=5,
           boundary=["continuous", "cut"], **KW)
    c.bad("boundary-name", ValueError, SCF_Distance, h1, h2, size=5,
          boundary="other", **KW)
    c.bad("second-boundary-name", ValueError, SCF_Distance, h1, h2, size=5,
          boundary=["cut", "other"], **KW)


def f_pca(sc, mon):
    from turbustat.statistics import PCA, PCA_Distance
    rng = gen.rng_of(sc["name"], sc["seed"])
    n = int(rng.integers(8, 14))
    shape = (n,) + tuple(sc["shape"])
    cub = gen.cube(rng, shape, "lines") + 1e-3 * rng.normal(size=shape)
    hdr = gen.header3d(shape)
    c = Case(mon, "pca")
    H = fits.PrimaryHDU(cub, hdr)
    p = PCA(H)
    for k in (n + 1, 0, -2, -10, n + 30):
        c.bad("count", Warning, p.compute_pca, n_eigs=k, **KW)
    for k in (1, n, -1, n // 2):
        c.good("count", p.compute_pca, n_eigs=k, **KW)
    c.bad("auto", ValueError, p.compute_pca, n_eigs="auto", **KW)
    c.bad("auto-default", ValueError, p.compute_pca, **KW)
    c.bad("cut-method", ValueError, p.compute_pca, n_eigs="auto",
          min_eigval=.1, eigen_cut_method="other", **KW)
    c.good("auto", p.compute_pca, n_eigs="auto", min_eigval=1e-9, **KW)
    p.compute_pca(n_eigs=min(6, n), **KW)
    for m in ("gauss", "", "Contour", None):
        c.bad("spatial-method", ValueError, p.find_spatial_widths, method=m,
              brunt_beamcorrect=False)
        c.bad("spectral-method", ValueError, p.find_spectral_widths, method=m)
    c.bad("no-beam", Exception, p.find_spatial_widths,
          brunt_beamcorrect=True)
    c.bad("beam-unit", u.UnitConversionError, p.find_spatial_widths,
          beam_fwhm=3. * u.K)
    c.bad("beam-number", Exception, p.find_spatial_widths, beam_fwhm=3.)
    c.bad("beam-pc", u.UnitConversionError, p.find_spatial_widths,
          beam_fwhm=3. * u.pc)
    c.good("no-correction", p.find_spatial_widths, brunt_beamcorrect=False)
    c.good("spectral", p.find_spectral_widths)
    c.bad("fit-method", TypeError, p.fit_plaw, fit_method="other")
    for x in (2., 2):
        c.bad("low-number", TypeError, p.fit_plaw, xlow=x)
        c.bad("high-number", TypeError, p.fit_plaw, xhigh=x)
    c.bad("low-unit", u.UnitConversionError, p.fit_plaw, xlow=2. * u.K)
    c.bad("high-unit", u.UnitConversionError, p.fit_plaw, xhigh=2. * u.K)
    c.bad("limits", ValueError, p.fit_plaw, xlow=1e4 * u.pix)
    c.bad("limits-high", ValueError, p.fit_plaw, xhigh=1e-4 * u.pix)
    if np.isfinite(p.spatial_width(u.pix).value).sum() > 3:
        c.good("fit", p.fit_plaw)
        c.bad("temperature", u.UnitConversionError, p.sonic_length,
              T_k=10 * u.m)
    c.bad("constructor-count", DeprecationWarning, PCA, H, n_eigs=4)
    h = hdr.copy()
    h["CTYPE3"], h["CUNIT3"], h["CDELT3"] = "FREQ", "Hz", 1e4
    h["CRVAL3"] = 1.4e9
    c.bad("frequency-axis", Warning, PCA, fits.PrimaryHDU(cub, h))
    G = fits.PrimaryHDU(cub[::-1].copy(), hdr)
    c.bad("distance-auto", ValueError, PCA_Distance, H, G, n_eigs="auto")
    c.good("distance", PCA_Distance, H, G, n_eigs=4)
    # ready-made objects with fewer channels than components asked for
    q = PCA(H)
    q.compute_pca(n_eigs=4, **KW)
    for pair in ((q, G), (G, q)):
        c.bad("distance-count", (ValueError, Warning), PCA_Distance, *pair,
              n_eigs=n + 2)


def f_bispec(sc, mon):
    from turbustat.statistics import Bispectrum
    rng = gen.rng_of(sc["name"], sc["seed"])
    img, hdr, shape = data2(rng, sc)
    c = Case(mon, "bispec")
    for d in (img.ravel(), np.ones((3, 4, 5))):
        c.bad("dimension", TypeError, Bispectrum(d).run, nsamples=5, **KW)
    b = Bispectrum(img.copy())
    b.run(nsamples=20, **KW)
    half = min(shape) / 2.
    r = [.3 * half, .6 * half]
    for v in ("Bicoherence", "power", "", None):
        c.bad("value", TypeError, b.azimuthal_slice, r[0], 2., value=v)
        c.bad("radial-value", TypeError, b.radial_slice, 30 * u.deg,
              10 * u.deg, value=v)
    for v in ("bispectrum", "bispectrum_logamp", "bicoherence"):
        c.good("value", b.azimuthal_slice, r[0], 2., value=v)
        c.good("radial-value", b.radial_slice, 30 * u.deg, 10 * u.deg,
               value=v)
    c.bad("widths", ValueError, b.azimuthal_slice, r,
          np.array([1., 2., 3.]))
    c.bad("widths-array", ValueError, b.azimuthal_slice, np.array(r),
          np.array([1.]))
    c.good("widths", b.azimuthal_slice, r, np.array([1., 2.]))
    c.bad("bin-number", TypeError, b.azimuthal_slice, r[0], 2., bin_width=5.)
    c.bad("bin-unit", TypeError, b.azimuthal_slice, r[0], 2.,
          bin_width=5. * u.pix)
    c.bad("theta-unit", TypeError, b.radial_slice, 30 * u.pix, 10 * u.deg)
    c.bad("delta-unit", TypeError, b.radial_slice, 30 * u.deg, 10 * u.pix)
    c.bad("delta-number", TypeError, b.radial_slice, 30 * u.deg, 10.)
    c.bad("theta-number", (TypeError, AttributeError), b.radial_slice, 30.,
          10. * u.deg)
    c.bad("theta-widths", ValueError, b.radial_slice,
          np.array([30., 60.]) * u.deg, np.array([3., 4., 5.]) * u.deg)
    c.good("theta-widths", b.radial_slice, np.array([30., 60.]) * u.deg,
           np.array([3., 4.]) * u.deg)


def f_pdf(sc, mon):
    from turbustat.statistics import PDF, PDF_Distance
    rng = gen.rng_of(sc["name"], sc["seed"])
    img = np.exp(rng.normal(size=tuple(sc["shape"])) * .4)
    img2 = np.exp(rng.normal(size=tuple(sc["shape"])) * .7)
    c = Case(mon, "pdf")
    for n in ("Standardize", "mean", "", 3):
        c.bad("normalisation", ValueError, PDF, img.copy(),
              normalization_type=n)
    for n in (None, "standardize", "center", "normalize",
              "normalize_by_mean"):
        c.good("normalisation", PDF, img.copy(), normalization_type=n)
    p = PDF(img.copy())
    p.make_pdf()
    p.make_ecdf()
    c.bad("no-fit", Exception, lambda: p.model_params)
    c.bad("no-fit-errors", Exception, lambda: p.model_stderrs)
    for t in ("MLE", "bayes", "", None):
        c.bad("fit-type", ValueError, p.fit_pdf, fit_type=t)
    p.fit_pdf()
    c.good("fit", lambda: p.model_params)
    c.bad("no-chain", Exception, p.trace_plot)
    c.bad("no-chain-corner", Exception, p.corner_plot)
    for v in (-1e-9, 100 + 1e-9, -50., 1e4, float(rng.uniform(100.01, 500))):
        c.bad("percentile", ValueError, p.find_at_percentile, v)
        c.bad("percentile-array", ValueError, p.find_at_percentile,
              np.array([50., v]))
    c.good("percentile", p.find_at_percentile, np.array([0., 100.]))
    for n in ("standardize", "center"):
        c.bad("lognormal", Exception, PDF_Distance, img, img2,
              normalization_type=n, do_fit=True)
        c.good("no-lognormal", PDF_Distance, img, img2,
               normalization_type=n, do_fit=False)
    d = PDF_Distance(img, img2, do_fit=False)
    c.bad("lognormal-distance", Exception, d.compute_lognormal_distance)
    c.bad("lognormal-metric", Exception, d.distance_metric,
          statistic="lognormal")
    for s in ("Hellinger", "other", "", None):
        c.bad("statistic", TypeError, d.distance_metric, statistic=s)
    for s in ("hellinger", "ks"):
        c.good("statistic", d.distance_metric, statistic=s)
    e = PDF_Distance(img, img2)
    c.good("statistic-lognormal", e.distance_metric, statistic="lognormal")
    c.good("statistic-all", e.distance_metric)
    c.bad("anderson", NotImplementedError, e.compute_ad_distance)


def f_dendro(sc, mon):
    from turbustat.statistics import Dendrogram_Stats, Dendrogram_Distance
    rng = gen.rng_of(sc["name"], sc["seed"])
    img = np.abs(rng.normal(size=(30, 32))) + .1
    img2 = np.abs(rng.normal(size=(30, 32))) + .1
    hdr = gen.header2d(img.shape)
    one_, two_ = (img, hdr), (img2, hdr)
    par = {"min_value": .2, "min_npix": 3}
    c = Case(mon, "dendro")

    def make(d, **k):
        return Dendrogram_Stats(img.copy(), header=gen.header2d(img.shape),
                                min_deltas=d, dendro_params=par, **k)
    md = np.sort(rng.uniform(.05, 1., 9))
    for k in ("Auto", "none", ""):
        c.bad("deltas-text", ValueError, make, k)
    c.bad("deltas-order", ValueError, make, md[::-1].copy())
    a = md.copy()
    a[3], a[4] = a[4], a[3]
    c.bad("deltas-swap", ValueError, make, a)
    s = c.good("deltas", make, md)
    c.bad("save-name", ValueError, s.compute_dendro, save_dendro=True)
    s.compute_dendro()
    c.bad("plot-before", ValueError, s.plot_hists) \
        if hasattr(s, "plot_hists") else None
    one = make(np.array([.1]))
    one.compute_dendro()
    c.bad("fit-one", ValueError, one.fit_numfeat)
    c.bad("few", ValueError, s.fit_numfeat, size=len(md) + 3) \
        if sc.get("few") else None
    kw = dict(min_deltas=md, dendro_params=par, nbins=5)
    n = s.numfeatures
    for p in ("x", 3, (par, par)):
        c.bad("params", TypeError, Dendrogram_Distance, one_, two_,
              min_deltas=md, dendro_params=p, min_features=1)
    c.bad("features", ValueError, Dendrogram_Distance, one_, two_,
          min_features=int(n.max()) + 500, **kw)
    flat = np.ones((30, 32))
    flat[10:14, 10:14] = 5.
    flat[20:24, 20:24] = 3.
    c.bad("features-first", ValueError, Dendrogram_Distance, (flat, hdr), two_,
          min_features=8, **kw)
    c.bad("features-second", ValueError, Dendrogram_Distance, one_, (flat, hdr),
          min_features=8, **kw)
    c.good("distance", Dendrogram_Distance, one_, two_, min_features=2, **kw)


def f_sim(sc, mon):
    from turbustat.simulator import make_extended, make_3dfield
    from turbustat.simulator.make_cube import make_ppv
    rng = gen.rng_of(sc["name"], sc["seed"])
    c = Case(mon, "field")
    for e in (0., -.2, 1.01, 3., float(rng.uniform(1.01, 9))):
        c.bad("ellip", ValueError, make_extended, 16, ellip=e)
    for e in (1., .05, float(rng.uniform(.1, .99))):
        c.good("ellip", make_extended, 16, ellip=e)
    c = Case(mon, "ppv")
    s = (6, 5, 4)
    v = rng.normal(size=s) * u.km / u.s
    d = rng.uniform(1, 5, s) * u.cm**-3
    k = dict(los_axis=0, T=100 * u.K, chan_width=.5 * u.km / u.s)
    bad = d.copy()
    bad[tuple(int(rng.integers(q)) for q in s)] = -1e-9 * u.cm**-3
    c.bad("negative", ValueError, make_ppv, v, bad, **k)
    zero = d.copy()
    zero[2, 1, 3] = 0 * u.cm**-3
    c.good("zero", make_ppv, v, zero, **k)
    c.bad("shapes", ValueError, make_ppv, v[:-1], d, **k)
    c.bad("shapes-swap", ValueError, make_ppv, v.transpose(0, 2, 1), d, **k)
    K = u.km / u.s
    c.bad("vmin-unit", u.UnitsError, make_ppv, v, d, v_min=-9 * u.Hz, **k)
    c.bad("vmax-unit", u.UnitsError, make_ppv, v, d, v_max=9 * u.Hz, **k)
    c.bad("order", ValueError, make_ppv, v, d, v_min=9 * K, v_max=-9 * K,
          **k)
    c.bad("order-one", ValueError, make_ppv, v, d, v_min=500 * K, **k)
    c.bad("order-other", ValueError, make_ppv, v, d, v_max=-500 * K, **k)
    c.good("order", make_ppv, v, d, v_min=-9 * K, v_max=9000 * u.m / u.s,
           **k)
    c.bad("channels", ValueError, make_ppv, v, d, v_min=-9 * K, v_max=9 * K,
          max_chan=35, **k)
    c.good("channels", make_ppv, v, d, v_min=-9 * K, v_max=9 * K,
           max_chan=36, **k)
    from turbustat.simulator.threeD_pspec import threeD_pspec
    c.bad("power-dimension", ValueError, threeD_pspec, np.ones((8, 8)))


def f_tools(sc, mon):
    from turbustat.io import input_data
    from turbustat.io.sim_tools import create_fits_hdu
    from turbustat.statistics.lm_seg import Lm_Seg
    from turbustat.statistics.psds import pspec
    from turbustat.statistics.rfft_to_fft import rfft_to_fft
    from turbustat.statistics.apodizing_kernels import TukeyWindow
    from turbustat.statistics.fitting_utils import check_fit_limits
    from turbustat.statistics.stats_utils import common_histogram_bins
    from turbustat.statistics.elliptical_powerlaw import \
        fit_elliptical_powerlaw
    rng = gen.rng_of(sc["name"], sc["seed"])
    img, hdr, shape = data2(rng, sc)
    c = Case(mon, "input")
    for bad in ((img,), (img, hdr, 1), [img], []):
        c.bad("items", TypeError, input_data, bad)
    c.bad("bare-array", TypeError, input_data, img)
    c.good("bare-array", input_data, img, no_header=True)
    for bad in ({"a": img}, 3., None, {1, 2}):
        c.bad("form", TypeError, input_data, bad)
    c.good("pair", input_data, (img, hdr))
    c.good("list", input_data, [img, hdr])
    c = Case(mon, "line")
    x = np.sort(rng.uniform(0, 5, 20))
    y = x * 1.5 + np.abs(x - 2) + .01 * rng.normal(size=20)
    for b in (x.min() - 1e-3, x.max() + 1e-3, -50., 80., np.nan, np.inf):
        c.bad("break", ValueError, Lm_Seg, x, y, b)
    for b in (x.min(), x.max(), 2.):
        c.good("break", Lm_Seg, x, y, b)
    c.bad("weight-size", ValueError, Lm_Seg, x, y, 2., weights=np.ones(19))
    for v in (np.nan, np.inf):
        w = np.ones(20)
        w[int(rng.integers(20))] = v
        c.bad("weight-value", ValueError, Lm_Seg, x, y, 2., weights=w)
    for n in (1, 2, 3):
        c.bad("few", Warning, Lm_Seg, x[:n], y[:n], x[0])
    yy = y.copy()
    yy[3:] = np.nan
    c.bad("few-finite", Warning, Lm_Seg, x, yy, 2.)
    c.good("four", Lm_Seg, x[:4], y[:4], x[1])
    c = Case(mon, "helper")
    c.bad("wedge", ValueError, pspec, img, theta_0=10 * u.deg)
    for d in (np.ones(8), np.ones((2, 3, 4, 5))):
        c.bad("transform-dimension", TypeError, rfft_to_fft, d)
    for s in ((8,), (4, 5, 6)):
        c.bad("window-shape", ValueError, TukeyWindow(.3), s)
    for q in (np.array([1., 2., 3.]) * u.pix, np.array([1.]) * u.pix):
        pass
    for a, b in (([1 * u.pix], None), ([1 * u.pix] * 3, None),
                 (None, [2 * u.pix]), (None, [2 * u.pix] * 3)):
        c.bad("pair-limits", ValueError, check_fit_limits, a, b)
    c.good("pair-limits", check_fit_limits, [1 * u.pix, 2 * u.pix],
           [3 * u.pix, 4 * u.pix])
    c.bad("bins-dimension", ValueError, common_histogram_bins, img, img)
    c.good("bins-dimension", common_histogram_bins, img.ravel(), img.ravel())
    for d in (np.ones(5), np.ones((2, 2, 2, 2))):
        c.bad("hdu-dimension", ValueError, create_fits_hdu, d)
    yg, xg = np.mgrid[-6:7, -6:7]
    vals = np.hypot(yg, xg).ravel() + 1.
    for v in (np.nan, np.inf):
        w = vals.copy()
        w[int(rng.integers(w.size))] = v
        c.bad("surface-value", ValueError, fit_elliptical_powerlaw, w,
              xg.ravel(), yg.ravel(), (1., .5, 1., -2.))


def f_cubes(sc, mon):
    from spectral_cube import SpectralCube
    from turbustat.statistics.vca_vcs.slice_thickness import \
        spectral_regrid_cube
    from turbustat.moments import Moments
    from turbustat.moments import _moment_errs as E
    from turbustat.statistics import VCS, Cramer_Distance
    rng = gen.rng_of(sc["name"], sc["seed"])
    shape = (12,) + tuple(sc["shape"])
    cub = rng.gamma(2., 1., shape)
    hdr = gen.header3d(shape, dv=100.)
    sp = SpectralCube.read(fits.PrimaryHDU(cub, hdr))
    c = Case(mon, "regrid")
    for bad in (cub, (cub, hdr), fits.PrimaryHDU(cub, hdr)):
        c.bad("cube", TypeError, spectral_regrid_cube, bad, 300 * u.m / u.s)
    for m in ("mean", "", "Downsample", None):
        c.bad("method", ValueError, spectral_regrid_cube, sp,
              300 * u.m / u.s, method=m)
    for m in ("regrid", "downsample"):
        c.good("method", spectral_regrid_cube, sp, 300 * u.m / u.s, method=m)
        c.bad("number", TypeError, spectral_regrid_cube, sp, 2.5, method=m)
    c.bad("unit", u.UnitsError, spectral_regrid_cube, sp, 3 * u.K,
          method="downsample")
    c.bad("finer", ValueError, spectral_regrid_cube, sp, 40 * u.m / u.s,
          method="regrid")
    c = Case(mon, "moment")
    for m in ("other", "Slice", "", None):
        c.bad("method", TypeError, Moments, sp, moment_method=m)
    for m in ("slice", "cube", "ray"):
        c.good("method", Moments, sp, moment_method=m)
    c.bad("noise-number", TypeError, Moments, sp, scale=.1)
    c.bad("noise-unit", u.UnitsError, Moments, sp, scale=.1 * u.Jy)
    c.good("noise", Moments, sp, scale=.1 * u.K)
    c.good("noise-none", Moments, sp, scale=0. * u.K)
    c.good("noise-equivalent", Moments, sp, scale=100. * u.mK)
    small = SpectralCube.read(fits.PrimaryHDU(
        cub[:, :-1] * 0 + .1, gen.header3d(cub[:, :-1].shape, dv=100.)))
    fine = SpectralCube.read(fits.PrimaryHDU(cub * 0 + .1, hdr))
    for f in (E.moment0_error, E.moment1_error, E.moment2_error,
              E.linewidth_sigma_err):
        nm = f.__name__.split("_")[0]
        for h in ("slice", "cube"):
            c.bad(nm + "-noise-shape-" + h, IndexError, f, sp, small, how=h)
            c.good(nm + "-noise-shape-" + h, f, sp, fine, how=h)
        c.bad(nm + "-how", (ValueError, TypeError), f, sp, .1 * u.K, how="other")
    c = Case(mon, "vcs")
    v = VCS(cub, header=hdr)
    v.compute_pspec()
    c.bad("limits", Exception, v.fit_pspec, low_cut=5. / u.pix,
          high_cut=9. / u.pix)
    c.bad("limit-unit", u.UnitConversionError, v.fit_pspec, low_cut=.1 / u.K)
    c.bad("limit-high-unit", u.UnitConversionError, v.fit_pspec,
          high_cut=.1 / u.K)
    c.good("limits", v.fit_pspec, low_cut=.05 / u.pix, high_cut=.5 / u.pix)
    c = Case(mon, "cramer")
    d = Cramer_Distance(cub, cub[:, ::-1])
    for f in ("Spectra", "other", "", None):
        c.bad("format", NameError, d.format_data, data_format=f)
    c.bad("count", ValueError, d.format_data, data_format="spectra",
          num_spec=None)
    c.good("format", d.format_data)


FNS = dict(lags=f_lags, delvar=f_delvar, wavelet=f_wavelet,
           moments=f_moments, genus=f_genus, pspec=f_pspec, base=f_base,
           scf=f_scf, pca=f_pca, bispec=f_bispec, pdf=f_pdf, dendro=f_dendro,
           sim=f_sim, tools=f_tools, cubes=f_cubes)


def scenarios(tier, seed):
    rng = gen.rng_of("P30", seed, tier)
    k = 4 if tier == "quick" else 12
    out = []
    for j in range(k):
        for cls in ("delvar", "wavelet", "tsallis"):
            for unit in ("pix", "arcsec", "deg"):
                out.append(dict(name="lags-%s-%s-%d" % (cls, unit, j),
                                fn="lags", seed=seed, cls=cls, unit=unit,
                                shape=gen.shapes2d(rng, 20, 40)))
        for fn in ("delvar", "wavelet", "moments", "genus", "bispec", "pdf",
                   "dendro", "sim", "tools"):
            out.append(dict(name="%s-%d" % (fn, j), fn=fn, seed=seed,
                            shape=gen.shapes2d(rng, 24, 40)))
        for fn in ("scf", "pca", "cubes"):
            out.append(dict(name="%s-%d" % (fn, j), fn=fn, seed=seed,
                            shape=gen.shapes2d(rng, 16, 24)))
        for cls in ("pspec", "mvc", "vca"):
            out.append(dict(name="%s-%d" % (cls, j), fn="pspec", seed=seed,
                            cls=cls, shape=gen.shapes2d(rng, 24, 40)))
        for cls in ("PowerSpectrum", "MVC", "VCA", "VCS", "SCF", "PCA",
                    "DeltaVariance", "Wavelet", "Tsallis", "StatMoments",
                    "Genus"):
            out.append(dict(name="base-%s-%d" % (cls, j), fn="base",
                            seed=seed, cls=cls,
                            shape=gen.shapes2d(rng, 20, 36)))
    return out
