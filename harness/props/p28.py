"""P28: an option left out means its documented value."""
import os
import numpy as np
import astropy.units as u
from astropy.io import fits
from ..core import Mon
from .. import gen
from ..stats import collect, compare, reduce_value

ID = "P28"
RULE = ("One evaluation = one result of a call that leaves an option out, "
        "compared with the same call with the documented value written out; "
        "distinct = different (entry point, option, content).  A companion "
        "call with another value records whether the option mattered for "
        "that input (event 'option-matters').")


def img(rng, n=32, kind="positive"):
    return gen.image(rng, (n, n + 3), kind)


def st(obj):
    return collect(obj)


def val(v):
    return {"value": reduce_value(v)}


# each entry: rng -> (call, rows); row = (base options, option, value, other)

def e_pspec(rng, cls):
    import turbustat.statistics as S
    n = 34
    beam = 3. / 3600.
    h = gen.header2d((n, n + 3), beam=beam)
    a = gen.image(rng, (n, n + 3), "plaw")
    seed = int(rng.integers(1, 10**6))
    if cls == "PowerSpectrum":
        def make(**k):
            return S.PowerSpectrum(a, header=h, **k)
    elif cls == "VCA":
        c = gen.cube(rng, (12, n, n + 3), "lines")
        h3 = gen.header3d(c.shape, beam=beam)

        def make(**k):
            return S.VCA(c, header=h3, **k)
    else:
        m = [gen.plaw2d(rng, (n, n + 3)) for _ in range(3)]

        def make(**k):
            return S.MVC(m[0], np.exp(.3 * m[1]), 1 + np.abs(m[2]), header=h,
                         **k)

    def run(**k):
        np.random.seed(seed)
        k.setdefault("fit_2D_kwargs", dict(niters=4))
        s = make()
        s.run(**k)
        return st(s)

    def comp(**k):
        s = make()
        s.compute_pspec(**k)
        s.compute_radial_pspec()
        return st(s)

    def radial(**k):
        s = make()
        s.compute_pspec()
        s.compute_radial_pspec(**k)
        return st(s)

    def fit(**k):
        s = make()
        s.compute_pspec()
        s.compute_radial_pspec()
        s.fit_pspec(**k)
        return st(s)

    def fit2(**k):
        np.random.seed(seed)
        s = make()
        s.compute_pspec()
        s.compute_radial_pspec(theta_0=.4 * u.rad, delta_theta=1. * u.rad)
        s.fit_pspec()
        s.fit_2Dpspec(**k)
        d = st(s)
        d["covers"] = reduce_value([s.slope2D, s.ellip2D, s.slope2D_err])
        return d

    one = dict(fit_2D=False)
    yield "run", run, [
        (one, "beam_correct", False, True),
        (one, "apodize_kernel", None, "hanning"),
        (dict(one, apodize_kernel="tukey"), "alpha", 0.2, 0.35),
        (dict(one, apodize_kernel="splitcosinebell"), "beta", 0.0, 0.3),
        (one, "use_pyfftw", False, True),
        (one, "low_cut", None, .1 / u.pix),
        (one, "high_cut", None, .3 / u.pix),
        (one, "fit_unbinned", False, True),
        ({}, "fit_2D", True, False)]
    yield "compute_pspec", comp, [
        ({}, "beam_correct", False, True),
        ({}, "apodize_kernel", None, "hanning"),
        (dict(apodize_kernel="tukey"), "alpha", 0.3, 0.2),
        (dict(apodize_kernel="splitcosinebell"), "beta", 0.0, 0.3),
        ({}, "use_pyfftw", False, True)]
    yield "compute_radial_pspec", radial, [
        ({}, "logspacing", False, True),
        ({}, "max_bin", None, 0.3)]
    b = dict(brk=.15 / u.pix, min_fits_pts=3)
    yield "fit_pspec", fit, [
        ({}, "fit_unbinned", False, True),
        ({}, "brk", None, .15 / u.pix),
        (b, "log_break", False, None),
        (dict(brk=.15 / u.pix), "min_fits_pts", 10, 2),
        ({}, "low_cut", None, .1 / u.pix),
        ({}, "high_cut", None, .3 / u.pix),
        ({}, "weighted_fit", False, True),
        ({}, "bootstrap", False, True)]
    q = dict(bootstrap=False)
    yield "fit_2Dpspec", fit2, [
        (q, "fit_method", "LevMarq", None),
        (q, "low_cut", None, .1 / u.pix),
        (q, "high_cut", None, .3 / u.pix),
        (dict(niters=4), "bootstrap", True, False),
        ({}, "niters", 100, 5) if cls == "PowerSpectrum" else None,
        (q, "use_azimmask", False, True),
        (q, "radial_weighting", False, True),
        (q, "fix_ellip_params", False, True)]


def e_vcs(rng):
    from turbustat.statistics import VCS
    c = gen.cube(rng, (48, 8, 9), "lines")
    h = gen.header3d(c.shape)

    def run(**k):
        s = VCS(c, header=h)
        s.run(**k)
        return st(s)

    def fit(**k):
        s = VCS(c, header=h)
        s.compute_pspec()
        s.fit_pspec(**k)
        return st(s)
    yield "run", run, [({}, "use_pyfftw", False, True)]
    yield "fit_pspec", fit, [
        ({}, "breaks", None, -0.9),
        (dict(breaks=-0.9), "log_break", True, None),
        ({}, "low_cut", None, .08 / u.pix),
        ({}, "high_cut", None, .3 / u.pix),
        ({}, "bootstrap", False, True)]


def e_wave(rng):
    from turbustat.statistics import Wavelet
    a = img(rng, 40, "plaw")
    h = gen.header2d(a.shape)

    def init(**k):
        s = Wavelet(a, header=h, **k)
        s.run(show_progress=False)
        return st(s)

    def run(**k):
        s = Wavelet(a, header=h, num=12)
        s.run(show_progress=False, **k)
        return st(s)

    def comp(**k):
        s = Wavelet(a, header=h, num=12)
        s.compute_transform(show_progress=False, **k)
        return st(s)

    def fit(**k):
        s = Wavelet(a, header=h, num=20)
        s.compute_transform(show_progress=False)
        s.fit_transform(**k)
        return st(s)
    yield "init", init, [({}, "num", 50, 10), ({}, "scales", None,
                                               np.array([3., 5, 9]) * u.pix)]
    yield "run", run, [
        ({}, "scale_normalization", True, False),
        ({}, "xlow", None, 5 * u.pix), ({}, "xhigh", None, 9 * u.pix),
        ({}, "brk", None, None), ({}, "use_pyfftw", False, True)]
    yield "compute_transform", comp, [
        ({}, "scale_normalization", True, False),
        ({}, "keep_convolved_arrays", False, True)]
    yield "fit_transform", fit, [
        ({}, "weighted_fit", False, True), ({}, "bootstrap", False, True),
        (dict(brk=7 * u.pix, verbose=False), "min_fits_pts", 3, 10**6),
        ({}, "xlow", None, 5 * u.pix), ({}, "xhigh", None, 9 * u.pix)]


def e_delvar(rng):
    from turbustat.statistics import DeltaVariance
    a = img(rng, 36, "plaw")
    a[3:6, 4:9] = np.nan
    h = gen.header2d(a.shape)
    w = rng.uniform(.5, 2, a.shape)
    w[:12, :12] = 1e-3
    lg = np.array([3., 4.5, 7., 9.]) * u.pix

    def init(**k):
        s = DeltaVariance(a, header=h, **k)
        s.run(show_progress=False)
        return st(s)

    def run(**k):
        s = DeltaVariance(a, header=h, weights=w, nlags=6)
        s.run(show_progress=False, **k)
        return st(s)

    def comp(**k):
        s = DeltaVariance(a, header=h, weights=w, lags=lg)
        s.compute_deltavar(show_progress=False, **k)
        return st(s)

    def fit(**k):
        s = DeltaVariance(a, header=h, nlags=10)
        s.compute_deltavar(show_progress=False)
        s.fit_plaw(**k)
        return st(s)
    yield "init", init, [
        (dict(lags=lg), "diam_ratio", 1.5, 1.8), ({}, "nlags", 25, 8),
        ({}, "lags", None, lg), (dict(nlags=6), "weights", None, w)]
    yield "run", run, [
        ({}, "boundary", "wrap", "fill"),
        ({}, "nan_treatment", "fill", "interpolate"),
        ({}, "preserve_nan", False, True), ({}, "xlow", None, 4 * u.pix),
        ({}, "xhigh", None, 9 * u.pix), ({}, "brk", None, None),
        ({}, "use_pyfftw", False, True)]
    yield "compute_deltavar", comp, [
        ({}, "boundary", "wrap", "fill"),
        ({}, "min_weight_frac", 0.01, 0.9),
        ({}, "nan_treatment", "fill", "interpolate"),
        ({}, "preserve_nan", False, True),
        ({}, "keep_convolve_arrays", False, True)]
    yield "fit_plaw", fit, [
        ({}, "bootstrap", False, True), ({}, "brk", None, None),
        ({}, "xlow", None, 4 * u.pix), ({}, "xhigh", None, 9 * u.pix)]


def e_bispec(rng):
    from turbustat.statistics import Bispectrum
    a = img(rng, 20)
    h = gen.header2d(a.shape)

    def run(**k):
        s = Bispectrum(a)
        k.setdefault("nsamples", 30)
        s.run(show_progress=False, **k)
        return st(s)

    def full(**k):
        s = Bispectrum(a)
        s.run(show_progress=False, **k)
        return st(s)

    def comp(**k):
        s = Bispectrum(a)
        s.compute_bispectrum(show_progress=False, **k)
        return st(s)

    base = Bispectrum(a)
    base.run(show_progress=False, nsamples=30)

    def azim(**k):
        return val(base.azimuthal_slice(np.array([4., 6.]), 1.5, **k))

    def radi(**k):
        return val(base.radial_slice([.3, 1.] * u.rad, .4 * u.rad, **k))
    yield "run", run, [({}, "seed", 1000, 7), ({}, "mean_subtract", False,
                                               True),
                       ({}, "use_pyfftw", False, True)]
    yield "run-samples", full, [({}, "nsamples", 100, 40)]
    yield "compute_bispectrum", comp, [
        ({}, "seed", 1000, 7), ({}, "mean_subtract", False, True),
        ({}, "nsamples", 100, 40)]
    yield "azimuthal_slice", azim, [
        ({}, "bin_width", 5 * u.deg, 11 * u.deg),
        ({}, "value", "bispectrum", "bicoherence")]
    yield "radial_slice", radi, [
        ({}, "bin_width", 1.0, 2.0),
        ({}, "value", "bispectrum", "bicoherence")]


def e_genus(rng):
    from turbustat.statistics import Genus
    a = img(rng, 30, "plaw") + .5 * rng.standard_normal((30, 33))
    hdu = fits.PrimaryHDU(a, gen.header2d(a.shape, beam=4. / 3600.))

    def init(**k):
        k.setdefault("numpts", 12)
        s = Genus(hdu, **k)
        s.run()
        return st(s)

    def full(**k):
        s = Genus(hdu, smoothing_radii=[1.5] * u.pix, **k)
        s.run()
        return st(s)

    def curve(**k):
        s = Genus(hdu, numpts=12, smoothing_radii=[1.] * u.pix)
        s.make_genus_curve(**k)
        return st(s)

    v = [float(np.percentile(a, 30)), float(np.percentile(a, 80))]
    yield "init", init, [
        ({}, "min_value", None, v[0]), ({}, "max_value", None, v[1]),
        ({}, "lowdens_percent", 0, 20), ({}, "highdens_percent", 100, 70),
        ({}, "thresholds", None, np.linspace(v[0], v[1], 5)),
        ({}, "smoothing_radii", None, [2.] * u.pix)]
    yield "init-points", full, [({}, "numpts", 100, 11)]
    yield "make_genus_curve", curve, [
        ({}, "enable_small_removal", True, False),
        ({}, "use_beam", False, True),
        ({}, "min_size", 4, 9), ({}, "connectivity", 2, 1),
        ({}, "keep_smoothed_images", False, True),
        ({}, "match_kernel", False, True)]


def e_mom(rng):
    from turbustat.statistics import StatMoments
    a = img(rng, 22, "plaw")
    a[5:9, 6:12] = np.nan
    h = gen.header2d(a.shape)

    def init(**k):
        s = StatMoments(a, header=h, **k)
        s.run(show_progress=False)
        return st(s)

    def run(**k):
        s = StatMoments(a, header=h, radius=3 * u.pix)
        s.run(show_progress=False, **k)
        return st(s)

    def comp(**k):
        s = StatMoments(a, header=h, radius=3 * u.pix)
        s.array_moments()
        s.compute_spatial_distrib(show_progress=False, **k)
        return st(s)
    yield "init", init, [
        ({}, "radius", 5 * u.pix, 3 * u.pix), ({}, "nbins", None, 7),
        ({}, "weights", None, rng.uniform(.5, 2, a.shape))]
    rows = [({}, "periodic", True, False), ({}, "min_frac", 0.8, 0.3),
            ({}, "radius", None, 4 * u.pix)]
    yield "run", run, rows
    yield "compute_spatial_distrib", comp, rows


def e_tsallis(rng):
    from turbustat.statistics import Tsallis
    a = img(rng, 40, "plaw") + .2 * rng.standard_normal((40, 43))
    h = gen.header2d(a.shape)
    lg = [1, 2, 5] * u.pix

    def init(**k):
        s = Tsallis(a, header=h, **k)
        s.run()
        return st(s)

    def run(**k):
        s = Tsallis(a, header=h, lags=lg)
        s.run(**k)
        return st(s)

    def make(**k):
        s = Tsallis(a, header=h, lags=lg)
        s.make_tsallis(**k)
        return st(s)

    def fit(**k):
        s = Tsallis(a, header=h, lags=lg)
        s.make_tsallis(num_bins=60)
        s.fit_tsallis(**k)
        return st(s)
    rows = [({}, "periodic", True, False), ({}, "num_bins", None, 23)]
    yield "init", init, [({}, "lags", None, lg)]
    yield "run", run, rows + [(dict(num_bins=60), "sigma_clip", 5, 1.5)]
    yield "make_tsallis", make, rows
    yield "fit_tsallis", fit, [({}, "sigma_clip", 5, 1.5)]


def e_pdf(rng):
    from turbustat.statistics import PDF
    from scipy.stats import lognorm
    a = img(rng, 30, "lognorm")
    a = np.abs(a) + .1

    def init(**k):
        s = PDF(a, **k)
        s.run(do_fit=False)
        return st(s)

    def run(**k):
        s = PDF(a)
        s.run(**k)
        d = st(s)
        for n in ("model_params", "model_stderrs"):
            if hasattr(s, n):
                d[n] = reduce_value(getattr(s, n))
        return d

    def fit(**k):
        s = PDF(a)
        s.make_pdf()
        s.make_ecdf()
        s.fit_pdf(**k)
        return dict(st(s), p=reduce_value(s.model_params),
                    e=reduce_value(s.model_stderrs))
    yield "init", init, [
        ({}, "min_val", -np.inf, float(np.median(a))),
        ({}, "weights", None, rng.uniform(.5, 2, a.shape)),
        ({}, "normalization_type", None, "standardize"),
        ({}, "bins", None, np.linspace(.1, 5, 9))]
    yield "run", run, [({}, "do_fit", True, False), ({}, "bins", None, None),
                       ({}, "model", lognorm, None)]
    yield "fit_pdf", fit, [
        ({}, "model", lognorm, None), ({}, "floc", True, False),
        ({}, "loc", 0.0, 0.05), ({}, "fscale", False, True),
        (dict(fscale=True), "scale", 1.0, 2.0), ({}, "fit_type", "mle",
                                                 None)]


def e_dendro(rng):
    from turbustat.statistics import Dendrogram_Stats
    a = img(rng, 26, "blobs") + .05 * rng.standard_normal((26, 29))
    h = gen.header2d(a.shape)
    p = dict(min_value=float(np.nanpercentile(a, 20)),
             min_delta=.02 * float(np.ptp(a)), min_npix=3)
    md = np.linspace(.02, .4, 8) * float(np.ptp(a))

    def init(**k):
        s = Dendrogram_Stats(a, header=h, dendro_params=p, **k)
        s.compute_dendro()
        return dict(st(s), d=reduce_value(s.min_deltas))

    def run(**k):
        s = Dendrogram_Stats(a, header=h, dendro_params=p, min_deltas=md)
        s.run(show_progress=False, **k)
        return st(s)

    def comp(**k):
        s = Dendrogram_Stats(a, header=h, dendro_params=p, min_deltas=md)
        s.compute_dendro(**k)
        return st(s)

    def hists(**k):
        s = Dendrogram_Stats(a, header=h, dendro_params=p, min_deltas=md)
        s.compute_dendro()
        s.make_hists(**k)
        return st(s)

    def fit(**k):
        s = Dendrogram_Stats(a, header=h, dendro_params=p, min_deltas=md)
        s.compute_dendro()
        s.fit_numfeat(**k)
        return st(s)
    yield "init", init, [({}, "num_deltas", 10, 5)]
    yield "run", run, [({}, "periodic_bounds", False, True),
                       ({}, "make_hists", True, False)]
    yield "compute_dendro", comp, [({}, "periodic_bounds", False, True)]
    yield "make_hists", hists, [({}, "min_number", 10, 3)]
    yield "fit_numfeat", fit, [({}, "size", 5, 3)]


def e_scf(rng):
    from turbustat.statistics import SCF
    c = gen.cube(rng, (10, 22, 25), "lines")
    h = gen.header3d(c.shape)
    seed = int(rng.integers(1, 10**6))

    def init(**k):
        s = SCF(c, header=h, **k)
        s.run(show_progress=False, fit_2D=False)
        return st(s)

    def run(**k):
        np.random.seed(seed)
        s = SCF(c, header=h, size=7)
        k.setdefault("fit_2D_kwargs", dict(niters=4))
        s.run(show_progress=False, **k)
        return st(s)

    def surf(**k):
        s = SCF(c, header=h, size=7)
        s.compute_surface(show_progress=False, **k)
        return st(s)

    def fit(**k):
        s = SCF(c, header=h, size=11)
        s.compute_surface(show_progress=False)
        s.compute_spectrum()
        s.fit_plaw(**k)
        return st(s)

    def fit2(**k):
        np.random.seed(seed)
        s = SCF(c, header=h, size=11)
        s.compute_surface(show_progress=False)
        s.compute_spectrum(theta_0=.4 * u.rad, delta_theta=1. * u.rad)
        s.fit_plaw()
        s.fit_2Dplaw(**k)
        return st(s)
    yield "init", init, [({}, "size", 11, 7),
                         ({}, "roll_lags", None, [-2, 0, 2] * u.pix)]
    one = dict(fit_2D=False)
    yield "run", run, [(one, "boundary", "continuous", "cut"),
                       ({}, "fit_2D", True, False),
                       (one, "xlow", None, 2 * u.pix),
                       (one, "xhigh", None, 3 * u.pix)]
    yield "compute_surface", surf, [({}, "boundary", "continuous", "cut")]
    yield "fit_plaw", fit, [({}, "bootstrap", False, True),
                            ({}, "xlow", None, 2 * u.pix),
                            ({}, "xhigh", None, 3 * u.pix)]
    q = dict(bootstrap=False)
    yield "fit_2Dplaw", fit2, [
        (dict(niters=4), "bootstrap", True, False),
        ({}, "niters", 100, 5),
        (q, "use_azimmask", False, True), (q, "xlow", None, 2 * u.pix),
        (q, "xhigh", None, 4 * u.pix)]


def e_pca(rng):
    from turbustat.statistics import PCA
    c = gen.cube(rng, (24, 26, 26), "lines")
    hdu = fits.PrimaryHDU(c, gen.header3d(c.shape, beam=3. / 3600.))

    def dec(**k):
        s = PCA(hdu)
        s.compute_pca(show_progress=False, **k)
        return st(s)

    def run(**k):
        s = PCA(hdu)
        np.random.seed(5)
        s.run(show_progress=False, **dict(dict(min_eigval=1e-3), **k))
        return st(s)

    def widths(**k):
        s = PCA(hdu)
        s.compute_pca(show_progress=False, n_eigs=4)
        np.random.seed(5)
        s.find_spatial_widths(**k)
        return val([s.spatial_width(), s.spatial_width_error()])

    def swid(**k):
        s = PCA(hdu)
        s.compute_pca(show_progress=False, n_eigs=4)
        s.find_spectral_widths(**k)
        return val([s.spectral_width(), s.spectral_width_error()])

    def sl(**k):
        s = PCA(hdu)
        np.random.seed(5)
        s.run(show_progress=False, min_eigval=1e-3, brunt_beamcorrect=False)
        return val(s.sonic_length(**k))
    m = dict(min_eigval=1e-3)
    yield "compute_pca", dec, [(m, "mean_sub", False, True),
                               (m, "n_eigs", "auto", 5),
                               (m, "eigen_cut_method", "value",
                                "proportion")]
    yield "run", run, [({}, "mean_sub", False, True),
                       (dict(n_eigs=5), "decomp_only", False, True),
                       ({}, "n_eigs", "auto", 5),
                       ({}, "eigen_cut_method", "value", "proportion"),
                       ({}, "spatial_method", "contour", "fit"),
                       ({}, "spectral_method", "walk-down", "fit"),
                       ({}, "fit_method", "odr", None),
                       ({}, "brunt_beamcorrect", True, False)]
    yield "find_spatial_widths", widths, [
        ({}, "method", "contour", "fit"),
        (dict(method="fit"), "brunt_beamcorrect", True, False)]
    yield "find_spectral_widths", swid, [({}, "method", "walk-down", "fit")]
    yield "sonic_length", sl, [({}, "T_k", 10 * u.K, 30 * u.K),
                               ({}, "mu", 1.36, 2.3),
                               ({}, "use_gamma", True, False),
                               ({}, "unit", u.pix, None)]


def e_dist(rng):
    import turbustat.statistics as S
    a, b = img(rng, 32, "plaw"), img(rng, 32, "plaw")
    h = gen.header2d(a.shape)
    p, q = np.abs(img(rng, 32, "lognorm")) + .1, \
        np.abs(img(rng, 32, "lognorm")) + .2
    c, d = gen.cube(rng, (14, 20, 22), "lines"), \
        gen.cube(rng, (14, 20, 22), "lines")
    h3 = gen.header3d(c.shape)
    s1 = int(rng.integers(1, 10**6))

    def ps(**k):
        return st(S.PSpec_Distance((a, h), (b, h), **k).distance_metric())

    def mvc(**k):
        A = dict(centroid=(a, h), moment0=(np.abs(b) + 1, h),
                 linewidth=(p, h))
        B = dict(centroid=(b, h), moment0=(np.abs(a) + 1, h),
                 linewidth=(q, h))
        return st(S.MVC_Distance(A, B, **k).distance_metric())

    def vca(**k):
        return st(S.VCA_Distance((c, h3), (d, h3), **k).distance_metric())

    def wav(**k):
        k.setdefault("num", 12)
        return st(S.Wavelet_Distance((a, h), (b, h), **k).distance_metric())

    def wavn(**k):
        return st(S.Wavelet_Distance((a, h), (b, h), **k).distance_metric())

    def dv(**k):
        lg = [3., 5, 8, 11] * u.pix
        D = S.DeltaVariance_Distance((a, h), (b, h), lags=lg, **k)
        return st(D.distance_metric())

    def pdf(**k):
        D = S.PDF_Distance(p, q, **k)
        D.distance_metric()
        return st(D)

    def pca(**k):
        cc = [rng0.standard_normal((55, 9, 8)).cumsum(0) for rng0 in
              (np.random.default_rng(v) for v in (s1, s1 + 1))]
        hh = gen.header3d(cc[0].shape)
        return st(S.PCA_Distance((cc[0], hh), (cc[1], hh),
                                 **k).distance_metric())

    def scf(**k):
        return st(S.SCF_Distance((c, h3), (d, h3), show_progress=False,
                                 **k).distance_metric())

    def scfm(**k):
        D = S.SCF_Distance((c, h3), (d, h3), size=5, show_progress=False)
        return st(D.distance_metric(**k))

    def mom(**k):
        A, B = a.copy(), b.copy()
        A[4:8, 5:12] = np.nan
        B[14:18, 5:12] = np.nan
        D = S.StatMoments_Distance((A, h), (B, h), **k)
        return st(D.distance_metric())

    def gen_(**k):
        k.setdefault("numpts", 15)
        k.setdefault("smoothing_radii", [1.5] * u.pix)
        D = S.Genus_Distance((a, h), (b, h), **k)
        return st(D.distance_metric())

    def cram(**k):
        D = S.Cramer_Distance(c, d, **k)
        return st(D.distance_metric())

    def cramm(**k):
        D = S.Cramer_Distance(c, d)
        return st(D.distance_metric(**k))

    def den(**k):
        k0 = dict(min_features=10, dendro_params=dict(
            min_value=float(np.percentile(p, 10)), min_npix=2,
            min_delta=.005), min_deltas=np.linspace(.01, 1, 8))
        D = S.Dendrogram_Distance((p, h), (q, h), **dict(k0, **k))
        D.distance_metric()
        return st(D)
    w = rng.uniform(.5, 2, a.shape)
    yield "PSpec_Distance", ps, [
        ({}, "high_cut", 0.5 / u.pix, .3 / u.pix),
        ({}, "low_cut", None, .1 / u.pix), ({}, "breaks", None, None),
        ({}, "weights1", None, w), ({}, "weights2", None, w)]
    yield "MVC_Distance", mvc, [
        ({}, "high_cut", 0.5 / u.pix, .3 / u.pix),
        ({}, "low_cut", None, .1 / u.pix),
        ({}, "weight_by_error", False, True)]
    yield "VCA_Distance", vca, [
        ({}, "high_cut", None, .3 / u.pix),
        ({}, "low_cut", None, .1 / u.pix), ({}, "breaks", None, None)]
    yield "Wavelet_Distance", wav, [({}, "xlow", None, 4 * u.pix),
                                    ({}, "xhigh", None, 9 * u.pix)]
    yield "Wavelet_Distance-num", wavn, [({}, "num", 50, 10)]
    yield "DeltaVariance_Distance", dv, [
        ({}, "diam_ratio", 1.5, 1.8), ({}, "use_common_lags", True, False),
        ({}, "weights1", None, w), ({}, "weights2", None, w)]
    yield "PDF_Distance", pdf, [
        ({}, "do_fit", True, False), ({}, "nbins", None, 9),
        (dict(do_fit=False), "normalization_type", None, "standardize"),
        ({}, "min_val1", -np.inf, float(np.median(p))), ({}, "min_val2", -np.inf, float(np.median(q)))]
    yield "PCA_Distance", pca, [({}, "n_eigs", 50, 5),
                                (dict(n_eigs=6), "mean_sub", True, False)]
    yield "SCF_Distance", scf, [({}, "size", 11, 5),
                                (dict(size=5), "boundary", "continuous",
                                 "cut")]
    yield "SCF_Distance.distance_metric", scfm, [({}, "weighted", True,
                                                  False)]
    yield "StatMoments_Distance", mom, [
        ({}, "radius", 5 * u.pix, 3 * u.pix), ({}, "min_frac", .8, .3),
        ({}, "periodic1", True, False), ({}, "periodic2", True, False),
        ({}, "weights1", None, w), ({}, "nbins", None, 6)]
    yield "Genus_Distance", gen_, [
        ({}, "lowdens_percent", 0, 20), ({}, "highdens_percent", 100, 70),
        ({}, "min_value", None, None), ({}, "max_value", None, None)]
    yield "Cramer_Distance", cram, [({}, "noise_value1", -np.inf, .5),
                                    ({}, "noise_value2", -np.inf, .5)]
    yield "Cramer_Distance.distance_metric", cramm, [
        ({}, "normalize", True, False)]
    yield "Dendrogram_Distance", den, [({}, "nbins", "best", 5)]


def e_sim(rng):
    from turbustat.simulator import make_extended, make_3dfield, make_ppv
    n = int(rng.integers(9, 20))

    def ext(**k):
        return val(make_extended(n, **k))

    def f3(**k):
        return val(make_3dfield(n, **k))
    sh = (8, 8, 8)
    vel = rng.standard_normal(sh) * u.km / u.s
    den = rng.uniform(.5, 2, sh) * u.cm**-3
    from astropy import constants as c

    def ppv(**k):
        k.setdefault("vel_disp", np.std(vel))
        r = make_ppv(vel, den, **k)
        if hasattr(r, "header"):
            hd = r.header
            return {"data": reduce_value(r.data), "wcs": reduce_value(
                [hd.get("CDELT%d" % i) for i in (1, 2, 3)] +
                [hd.get("RESTFREQ", hd.get("RESTFRQ"))])}
        return val([np.asarray(r[0])])
    yield "make_extended", ext, [
        ({}, "powerlaw", 2.0, 3.0), (dict(ellip=.5), "theta", 0., 1.),
        ({}, "ellip", 1., .5), ({}, "return_fft", False, True),
        (dict(return_fft=True), "full_fft", True, False),
        ({}, "randomseed", 32768324, 1)]
    yield "make_3dfield", f3, [
        ({}, "powerlaw", 2.0, 3.0), ({}, "amp", 1., 2.),
        ({}, "return_fft", False, True), ({}, "randomseed", 32768324, 1)]
    yield "make_ppv", ppv, [
        ({}, "los_axis", 0, 1), ({}, "T", 100 * u.K, 1000 * u.K),
        ({}, "m", 1.4 * c.m_p, 2 * c.m_p),
        ({}, "los_length", 1 * u.pc, 2 * u.pc),
        ({}, "vel_struct_index", .5, .8), ({}, "threads", 1, 2),
        ({}, "return_hdu", True, False),
        ({}, "pixel_ang_scale", 1 * u.arcmin, 2 * u.arcmin),
        ({}, "restfreq", 1.42 * u.GHz, 2 * u.GHz),
        ({}, "max_chan", 1000, None)]


ENTRIES = {"PowerSpectrum": lambda r: e_pspec(r, "PowerSpectrum"),
           "VCA": lambda r: e_pspec(r, "VCA"),
           "MVC": lambda r: e_pspec(r, "MVC"),
           "VCS": e_vcs, "Wavelet": e_wave, "DeltaVariance": e_delvar,
           "Bispectrum": e_bispec, "Genus": e_genus, "StatMoments": e_mom,
           "Tsallis": e_tsallis, "PDF": e_pdf, "Dendrogram_Stats": e_dendro,
           "SCF": e_scf, "PCA": e_pca, "distances": e_dist,
           "simulator": e_sim}


def guarded(call, k):
    try:
        return call(**k), None
    except Exception as exc:       # the same failure must occur in both calls
        return None, type(exc).__name__


def f_default(sc, mon):
    rng = gen.rng_of(sc["name"], sc["seed"])
    for n, (entry, call, rows) in enumerate(ENTRIES[sc["entry"]](rng)):
        if n % sc["of"] != sc["part"]:
            continue
        tag = sc["entry"] + "." + entry
        cache = {}
        for row in rows:
            if row is None:
                continue
            base, opt, value, other = row
            key = repr(sorted(base.items(), key=str))
            if key not in cache:
                cache[key] = guarded(call, base)
            got, err = cache[key]
            want, err2 = guarded(call, dict(base, **{opt: value}))
            name = "%s(%s)" % (tag, opt)
            if not mon.ok("same-outcome", err == err2, observed=err,
                          want=err2, option=name):
                continue
            if err is not None:
                mon.skip("the call is refused either way: " + name + err)
                continue
            compare(mon, "default", got, want, option=name, fitted=1e-7)
            if other is not None:
                o, err3 = guarded(call, dict(base, **{opt: other}))
                probe = Mon("probe", "probe")
                if err3 is None:
                    compare(probe, "probe", o, want, fitted=1e-7)
                    compare(probe, "probe", want, o, fitted=1e-7)
                if err3 is not None or probe.viol:
                    mon.ev("option-matters")
                else:
                    mon.ev("option-without-effect")
                    if os.environ.get("VERIF_SHOW"):
                        mon.skip("no effect: " + name)


FNS = {"default": f_default}


def scenarios(tier, seed):
    k = 1 if tier == "quick" else 8
    out = []
    for e in ENTRIES:
        parts = 8 if e == "distances" else 3
        for j in range(k):
            for p in range(parts):
                out.append(dict(name="%s-%d-%d" % (e, j, p), fn="default",
                                seed=seed, entry=e, part=p, of=parts))
    return out
