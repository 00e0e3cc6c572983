"""P04: equivalent units of options give the same results."""
import numpy as np
import astropy.units as u
from .. import gen
from ..stats import collect, compare

ID = "P04"
RULE = ("One evaluation = one result, unit or conversion compared between a "
        "run with options in pixels and a run with the equivalent options in "
        "another unit (or with the closed form from pixel scale and "
        "distance); distinct = different (clause, value).")


class Frame(object):
    """Own model of the unit system of one header and distance."""

    def __init__(self, rng, angular=None):
        self.pix = float(10**rng.uniform(-4.3, -1.3))        # deg
        self.dist = float(10**rng.uniform(0.2, 3.5))         # pc
        self.dunit = [u.pc, u.kpc, u.Mpc, u.lyr, u.AU][int(rng.integers(5))]
        self.distance = (self.dist * u.pc).to(self.dunit)
        self.phys = np.deg2rad(self.pix) * self.dist         # pc per pixel
        self.dv = float(10**rng.uniform(1, 3.5))             # m/s

    def one(self, unit):
        """value of one pixel in `unit`."""
        if unit == u.pix:
            return 1.
        if unit.is_equivalent(u.deg):
            return self.pix * u.deg.to(unit)
        return self.phys * u.pc.to(unit)

    def length(self, q, unit):
        return np.asarray(q) * self.one(unit) * unit

    def freq(self, q, unit):
        return np.asarray(q) / self.one(unit) * (1 / unit).unit \
            if not isinstance(1 / unit, u.UnitBase) \
            else np.asarray(q) / self.one(unit) * (1 / unit)

    def area(self, q, unit):
        return np.asarray(q) * self.one(unit)**2 * unit**2

    def vfreq(self, q, unit):
        v = self.dv * (u.m / u.s).to(unit) if unit != u.pix else 1.
        return np.asarray(q) / v * u.Unit(1 / unit)

    def to_pix(self, red):
        """Convert every length, frequency or area of a result to pixels."""
        if red is None:
            return None
        if red[0] == "map":
            return ("map", {k: self.to_pix(v) for k, v in red[1].items()})
        if red[0] == "seq":
            return ("seq", [self.to_pix(v) for v in red[1]])
        if red[0] != "num" or not red[2]:
            return red
        un = u.Unit(red[2])
        for p in (1, -1, 2):
            for base in (u.deg, u.pc):
                if un.is_equivalent(base**p):
                    f = un.to(base**p)
                    return ("num", red[1] * f / self.one(base)**p,
                            (u.pix**p).to_string())
        return red


TWOD = ("slope2D", "slope2D_err", "theta2D", "theta2D_err", "ellip2D",
        "ellip2D_err")
LEN = ["deg", "arcmin", "arcsec", "rad", "pc", "AU", "kpc"]


def unit_of(sc):
    return u.Unit(sc["unit"]) if sc["unit"] != "AU" else u.AU


# --- the cases: build(rng, fr, L, F, A, V) -> finished statistic ----------

def c_pspec(rng, fr, L, F, A, V, cls="PowerSpectrum", hdr=None):
    import turbustat.statistics as S
    shape = tuple(int(v) for v in rng.integers(26, 44, 2))
    h = gen.header2d(shape, pix=fr.pix)
    if cls == "VCA":
        s3 = (8,) + shape
        st = S.VCA(gen.cube(rng, s3, "lines"), hdr(gen.header3d(
            s3, pix=fr.pix, dv=fr.dv)), distance=fr.distance)
    elif cls == "MVC":
        st = S.MVC(gen.plaw2d(rng, shape),
                   np.exp(.3 * gen.plaw2d(rng, shape)),
                   1 + rng.gamma(2., .2, shape), hdr(h),
                   distance=fr.distance)
    else:
        st = S.PowerSpectrum(gen.image(rng, shape, "lognorm"), hdr(h),
                             distance=fr.distance)
    r = {"fit_2D_kwargs": {"niters": 5},
         "low_cut": F(rng.uniform(.041, .09)),
         "high_cut": F(rng.uniform(.3, .45))}
    k = int(rng.integers(4))
    if k == 0:
        r["fit_kwargs"] = {"brk": F(rng.uniform(.12, .2))}
    elif k == 1:
        del r["low_cut"]
    elif k == 2:
        del r["high_cut"]
    np.random.seed(31)
    st.run(**r)
    return st


def c_vca(*a, **k):
    return c_pspec(*a, cls="VCA", **k)


def c_mvc(*a, **k):
    return c_pspec(*a, cls="MVC", **k)


def jitter(rng, x):
    """Keep away from scales at which the size of a kernel changes."""
    x = np.array(x)
    x[1:] += rng.uniform(.013, .049, x.size - 1)
    bad = np.abs(8 * x - np.round(8 * x)) < 1e-3
    bad[0] = False
    x[bad] += .0041
    return x


def c_wave(rng, fr, L, F, A, V, hdr=None):
    from turbustat.statistics import Wavelet
    shape = tuple(int(v) for v in rng.integers(28, 44, 2))
    m = min(shape)
    img = gen.image(rng, shape, "lognorm")
    c = {}
    if rng.integers(3):
        c["scales"] = L(jitter(rng, np.linspace(
            rng.choice([1., 2., 1.7]), m / 2.2, 9)))
    st = Wavelet(img, hdr(gen.header2d(shape, pix=fr.pix)),
                 distance=fr.distance, **c)
    r = {}
    k = int(rng.integers(4))
    if k != 0:
        r["xlow"] = L(rng.uniform(2.1, 4.))
    if k != 1:
        r["xhigh"] = L(rng.uniform(.33, .43) * m)
    if k == 3:
        r["brk"] = L(rng.uniform(.26, .3) * m)
    st.run(show_progress=False, **r)
    return st


def c_delvar(rng, fr, L, F, A, V, hdr=None):
    from turbustat.statistics import DeltaVariance
    shape = tuple(int(v) for v in rng.integers(28, 44, 2))
    m = min(shape)
    img = gen.image(rng, shape, "lognorm")
    c = {"nlags": 8}
    if rng.integers(3):
        c["lags"] = L(jitter(rng, np.linspace(
            rng.choice([1., 2., 3.4]), m / 2.2, 7)))
    st = DeltaVariance(img, header=hdr(gen.header2d(shape, pix=fr.pix)),
                       distance=fr.distance, **c)
    r = {}
    k = int(rng.integers(4))
    if k != 0:
        r["xlow"] = L(rng.uniform(3.1, 4.))
    if k != 1:
        r["xhigh"] = L(rng.uniform(.33, .43) * m)
    if k == 3:
        r["brk"] = L(rng.uniform(.26, .3) * m)
    st.run(show_progress=False, **r)
    return st


def c_scf(rng, fr, L, F, A, V, hdr=None):
    from turbustat.statistics import SCF
    s3 = (8,) + tuple(int(v) for v in rng.integers(18, 24, 2))
    cube = gen.punch(rng, gen.cube(rng, s3, "lines"),
                     str(rng.choice(["none", "none", "block", "scatter"])))
    step = rng.choice([1., 2., 1.5, 1., .75])
    n = int(rng.choice([7, 9]))
    c = {"roll_lags": L((np.arange(n) - n // 2) * step)}
    if rng.integers(4) == 0:
        c = {"size": 9}
        step, n = 1., 9
    st = SCF(cube, hdr(gen.header3d(s3, pix=fr.pix, dv=fr.dv)),
             distance=fr.distance, **c)
    r = {"xlow": L(step * .8), "xhigh": L(step * (n // 2) * 1.1)}
    if rng.integers(2) and n == 9:
        r["xhigh"] = L(step * (n // 2 - .2))
    if rng.integers(3) == 0:
        del r["xlow"]
    np.random.seed(31)
    st.run(show_progress=False, fit_2D_kwargs={"niters": 4},
           boundary=str(rng.choice(["continuous", "cut"])), **r)
    return st


def c_mom(rng, fr, L, F, A, V, hdr=None):
    from turbustat.statistics import StatMoments
    shape = tuple(int(v) for v in rng.integers(20, 34, 2))
    img = gen.punch(rng, gen.image(rng, shape, "lognorm"),
                    str(rng.choice(["none", "block"])))
    rad = rng.choice([2., 3., 4., 5., 3.4, 2.7, min(shape) / 2.])
    st = StatMoments(img, hdr(gen.header2d(shape, pix=fr.pix)),
                     radius=L(rad), distance=fr.distance)
    r = {}
    if rng.integers(2):
        r["radius"] = L(rng.choice([2., 3., 4., 2.6]))
    st.run(show_progress=False, periodic=bool(rng.integers(2)), **r)
    return st


def c_tsallis(rng, fr, L, F, A, V, hdr=None):
    from turbustat.statistics import Tsallis
    shape = tuple(int(v) for v in rng.integers(24, 36, 2))
    img = gen.image(rng, shape, "lognorm")
    st = Tsallis(img, hdr(gen.header2d(shape, pix=fr.pix)),
                 lags=L(np.array([1., 2., 3., 6., 7., min(shape) // 2])),
                 distance=fr.distance)
    st.run(periodic=bool(rng.integers(2)))
    return st


def c_genus(rng, fr, L, F, A, V, hdr=None):
    from turbustat.statistics import Genus
    from astropy.io import fits
    shape = tuple(int(v) for v in rng.integers(26, 40, 2))
    img = gen.image(rng, shape, "lognorm")
    st = Genus(fits.PrimaryHDU(img, gen.header2d(shape, pix=fr.pix,
                                                 bunit="")),
               numpts=9, distance=fr.distance, lowdens_percent=8,
               highdens_percent=95,
               smoothing_radii=L(np.array([1., rng.uniform(1.2, 2.5)])))
    st.run(min_size=A(float(rng.integers(3, 20))),
           keep_smoothed_images=True)
    return st


def c_pca(rng, fr, L, F, A, V, hdr=None):
    from turbustat.statistics import PCA
    from astropy.io import fits
    s3 = (int(rng.integers(18, 26)),) + tuple(
        int(v) for v in rng.integers(20, 28, 2))
    cube = gen.cube(rng, s3, "lines")
    st = PCA(fits.PrimaryHDU(cube, gen.header3d(s3, pix=fr.pix, dv=fr.dv)),
             distance=fr.distance)
    np.random.seed(31)
    st.compute_pca(mean_sub=False, n_eigs=5)
    un = L(1.).unit
    bu = un if un.is_equivalent(u.deg) else u.deg
    st.find_spatial_widths(method="contour",
                           beam_fwhm=fr.length(1.3, bu))
    st.find_spectral_widths(method="walk-down")
    w = np.sort(st.spatial_width().value)
    w = w[np.isfinite(w)]
    if w.size < 4:
        return st
    st.fit_plaw(xlow=L((w[0] + w[1]) / 2.) if rng.integers(2) else None,
                xhigh=L((w[-1] + w[-2]) / 2.) if rng.integers(2) else None)
    return st


def c_vcs(rng, fr, L, F, A, V, hdr=None):
    from turbustat.statistics import VCS
    s3 = (int(rng.integers(40, 64)),) + tuple(
        int(v) for v in rng.integers(6, 10, 2))
    st = VCS(gen.cube(rng, s3, "lines"),
             hdr(gen.header3d(s3, pix=fr.pix, dv=fr.dv)))
    r = {"low_cut": V(rng.uniform(.03, .06)),
         "high_cut": V(rng.uniform(.3, .45))}
    k = int(rng.integers(3))
    if k == 0:
        del r["low_cut"]
    elif k == 1:
        r["breaks"] = -.8
    st.run(**r)
    return st


CASES = {"PowerSpectrum": c_pspec, "VCA": c_vca, "MVC": c_mvc,
         "Wavelet": c_wave, "DeltaVariance": c_delvar, "SCF": c_scf,
         "StatMoments": c_mom, "Tsallis": c_tsallis, "Genus": c_genus,
         "PCA": c_pca, "VCS": c_vcs}


def spell_header(kind):
    """The same world coordinates written in another way."""
    def f(h):
        h = h.copy()
        if kind == "arcsec":
            for i in (1, 2):
                h["CUNIT%d" % i] = "arcsec"
                h["CDELT%d" % i] *= 3600.
                h["CRVAL%d" % i] *= 3600.
        elif kind == "cd":
            n = h["NAXIS"]
            for i in range(1, n + 1):
                h["CD%d_%d" % (i, i)] = h.pop("CDELT%d" % i)
        elif kind == "rot":
            th = np.deg2rad(25.)
            d1, d2 = h.pop("CDELT1"), h.pop("CDELT2")
            h["CD1_1"], h["CD1_2"] = d1 * np.cos(th), -d2 * np.sin(th)
            h["CD2_1"], h["CD2_2"] = d1 * np.sin(th), d2 * np.cos(th)
            if h["NAXIS"] == 3:
                h["CD3_3"] = h.pop("CDELT3")
        return h
    return f


def f_equiv(sc, mon):
    unit = unit_of(sc)
    out = []
    for un in (u.pix, unit):
        rng = gen.rng_of(sc["name"], sc["seed"])
        fr = Frame(rng)
        vu = un
        if sc["stat"] == "VCS" and un != u.pix:
            vu = [u.m / u.s, u.km / u.s, u.cm / u.s][sc["seed"] % 3]
        try:
            st = CASES[sc["stat"]](
                rng, fr, lambda q: fr.length(q, un),
                lambda q: fr.freq(q, un), lambda q: fr.area(q, un),
                lambda q: fr.vfreq(q, vu),
                hdr=spell_header(sc["hdr"] if un != u.pix else "plain"))
        except (Warning, ValueError) as e:  # too few points for a fit
            if un == u.pix and (isinstance(e, Warning) or
                                "brk is outside" in str(e)):
                mon.skip(str(e)[:60])
                out.append(None)
                continue
            if out and out[0] is None:
                return
            raise
        out.append(st)
    if out[0] is None:
        return mon.ok("fails in both units", False, stat=sc["stat"],
                      unit=sc["unit"])
    got = {k: fr.to_pix(v) for k, v in collect(out[1]).items()}
    want = {k: fr.to_pix(v) for k, v in collect(out[0]).items()}
    mon.ev("pairs compared")
    compare(mon, "equivalent options give the same result", got, want,
            rtol=1e-6, floor=1e-7, units=False, skip=("distance",) + TWOD,
            stat=sc["stat"], unit=sc["unit"])
    # the two-dimensional fit is iterative, and has no definite direction
    # when it comes out round
    if "ellip2D" in want and .02 < float(want["ellip2D"][1]) < .98:
        compare(mon, "equivalent options give the same result", got, want,
                rtol=5e-3, floor=1e-3, atol=1e-4, units=False, names=TWOD,
                stat=sc["stat"], unit=sc["unit"])


def f_output(sc, mon):
    """Results asked for in other units scale with the pixel size."""
    rng = gen.rng_of(sc["name"], sc["seed"])
    fr = Frame(rng)
    st = c_pca(rng, fr, lambda q: q * u.pix, None, None, None)
    if not hasattr(st, "_index"):
        return mon.skip("no fit")
    for un in (u.deg, u.arcsec, u.pc, u.kpc, u.AU):
        for n in ("spatial_width", "spatial_width_error"):
            f = getattr(st, n)
            mon.close("widths in another unit", f(un).to(un).value,
                      f(u.pix).value * fr.one(un), rtol=1e-8, what=n,
                      unit=str(un))
        a, b = st.sonic_length(unit=un), st.sonic_length(unit=u.pix)
        for x, y in zip(a, b):
            mon.close("sonic length in another unit", x.to(un).value,
                      y.value * fr.one(un), rtol=1e-8, unit=str(un))
    for un in (u.m / u.s, u.km / u.s):
        for n in ("spectral_width", "spectral_width_error", "intercept",
                  "intercept_error_range"):
            f = getattr(st, n)
            mon.close("widths in another unit", f(un).to(un).value,
                      f(u.pix).value * fr.dv * (u.m / u.s).to(un),
                      rtol=1e-8, what=n, unit=str(un))
    t = rng.uniform(8, 60)
    a = st.sonic_length(T_k=t * u.K)[0].value
    b = st.sonic_length(T_k=(t * 1e3) * u.mK)[0].value
    mon.close("temperature unit", b, a, rtol=1e-9)
    for un in (u.K, u.s, u.m / u.s):
        mon.raises("incompatible unit rejected", Exception,
                   st.spatial_width, un)
    for un in (u.K, u.deg, u.pc):
        mon.raises("incompatible unit rejected", Exception,
                   st.spectral_width, un)


def f_convert(sc, mon):
    """Conversion helpers against the closed form."""
    from turbustat.statistics import PowerSpectrum, VCA
    rng = gen.rng_of(sc["name"], sc["seed"])
    fr = Frame(rng)
    shape = (12, 15)
    hdr = spell_header(sc["hdr"])
    st = PowerSpectrum(gen.image(rng, shape), hdr(gen.header2d(
        shape, pix=fr.pix)), distance=fr.distance)
    s3 = (9, 12, 15)
    vca = VCA(gen.cube(rng, s3), hdr(gen.header3d(s3, pix=fr.pix, dv=fr.dv)),
              distance=fr.distance)
    q = rng.uniform(.2, 50, 5)
    for o in (st, vca):
        for n in LEN:
            un = u.AU if n == "AU" else u.Unit(n)
            if hasattr(o, "_to_pixel"):
                mon.close("length to pixels", o._to_pixel(
                    fr.length(q, un)).to(u.pix).value, q, rtol=1e-7, unit=n)
                mon.close("length to pixels", o._to_pixel(
                    q * u.pix).value, q, rtol=1e-12, unit=n)
            if hasattr(o, "_to_pixel_freq"):
                r = o._to_pixel_freq(fr.freq(q, un))
                mon.close("frequency to pixels", (r * u.pix).to(
                    u.dimensionless_unscaled).value, q, rtol=1e-7, unit=n)
            if hasattr(o, "_to_pixel_area"):
                r = o._to_pixel_area(fr.area(q, un))
                mon.close("area to pixels", r.to(u.pix**2).value, q,
                          rtol=1e-7, unit=n)
            if hasattr(o, "_spatial_unit_conversion"):
                r = o._spatial_unit_conversion(q * u.pix, un)
                mon.close("pixels to unit", r.to(un).value,
                          q * fr.one(un), rtol=1e-7, unit=n)
                mon.ok("asked unit is delivered", r.unit == un,
                       observed=str(r.unit), want=n)
                mon.close("round trip", o._to_pixel(r).to(u.pix).value, q,
                          rtol=1e-9, unit=n)
            if hasattr(o, "_spatial_freq_unit_conversion"):
                r = o._spatial_freq_unit_conversion(q / u.pix, un**-1)
                mon.close("pixel frequency to unit", (r * un).to(
                    u.dimensionless_unscaled).value, q / fr.one(un),
                    rtol=1e-7, unit=n)
        for bad in (u.K, u.s, u.Jy):
            if hasattr(o, "_to_pixel"):
                mon.raises("incompatible unit rejected", Exception,
                           o._to_pixel, 3. * bad)
                mon.raises("incompatible unit rejected", Exception,
                           o._spatial_unit_conversion, 3 * u.pix, bad)
    for un in (u.m / u.s, u.km / u.s):
        c = fr.dv * (u.m / u.s).to(un)
        if hasattr(vca, "_to_spectral"):
            mon.close("channels to velocity", vca._to_spectral(
                q * u.pix, un).to(un).value, q * c, rtol=1e-8)
            mon.close("velocity to channels", vca._to_spectral(
                q * c * un, u.pix).to(u.pix).value, q, rtol=1e-8)
        if hasattr(vca, "_spectral_freq_unit_conversion"):
            r = vca._spectral_freq_unit_conversion(q / u.pix, un**-1)
            mon.close("channel frequency to unit", (r * un).to(
                u.dimensionless_unscaled).value, q / c, rtol=1e-8)
    # a physical length needs a distance
    st2 = PowerSpectrum(gen.image(rng, shape), gen.header2d(
        shape, pix=fr.pix))
    mon.raises("no distance, no parsecs", Exception, st2.run,
               low_cut=.1 / u.pc)
    for bad in (3 * u.K, 4., 3 * u.deg, [1., 2.] * u.pc):
        mon.raises("bad distance rejected", Exception, PowerSpectrum,
                   gen.image(rng, shape), gen.header2d(shape, pix=fr.pix),
                   distance=bad)


def f_reject(sc, mon):
    """An option with a unit of another kind is refused."""
    rng0 = gen.rng_of(sc["name"], sc["seed"])
    bad = [u.K, u.s, u.Jy][int(rng0.integers(3))]

    def go():
        rng = gen.rng_of(sc["name"], sc["seed"], "x")
        fr = Frame(rng)
        return CASES[sc["stat"]](
            rng, fr, lambda q: np.asarray(q) * bad,
            lambda q: np.asarray(q) / bad,
            lambda q: np.asarray(q) * bad**2,
            lambda q: np.asarray(q) / bad, hdr=lambda h: h)
    if sc["stat"] == "PCA":
        return mon.skip("limits optional")
    mon.raises("incompatible option rejected", Exception, go, unit=str(bad))
    if sc["stat"] == "VCS":
        return

    def go2():
        rng = gen.rng_of(sc["name"], sc["seed"], "x")
        fr = Frame(rng)
        fr.distance = None
        return CASES[sc["stat"]](
            rng, fr, lambda q: fr.length(q, u.pc),
            lambda q: fr.freq(q, u.pc), lambda q: fr.area(q, u.pc),
            None, hdr=lambda h: h)
    mon.raises("parsecs without a distance rejected", Exception, go2)


def lines_of(fig):
    out = []
    for ax in fig.get_axes():
        for ln in ax.get_lines():
            x = np.asarray(ln.get_xdata(), float)
            y = np.asarray(ln.get_ydata(), float)
            out.append((x, y))
    return out


def f_plot(sc, mon):
    """The same curves are drawn whatever the unit of the axis."""
    import matplotlib
    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    rng = gen.rng_of(sc["name"], sc["seed"])
    fr = Frame(rng)
    which = sc["stat"]
    st = CASES[which](rng, fr, lambda q: q * u.pix, lambda q: q / u.pix,
                      lambda q: q * u.pix**2, lambda q: q / u.pix,
                      hdr=lambda h: h)
    spec = which == "VCS"
    freq = which in ("PowerSpectrum", "VCA", "MVC", "VCS")
    un = [u.m / u.s, u.km / u.s][sc["seed"] % 2] if spec else unit_of(sc)
    one = fr.dv * (u.m / u.s).to(un) if spec else fr.one(un)
    res = []
    for x in (u.pix, un):
        plt.close("all")
        kw = {"xunit": x**-1 if freq else x}
        if which in ("PowerSpectrum", "VCA", "MVC"):
            kw["show_2D"] = False
        fig = plt.figure()
        (st.plot_transform if which == "Wavelet" else st.plot_fit)(**kw)
        res.append(lines_of(plt.gcf()))
        plt.close("all")
    a, b = res
    if not mon.ok("same number of curves", len(a) == len(b),
                  observed=len(b), want=len(a)):
        return
    logx = which in ("PowerSpectrum", "VCA", "MVC")
    for (x0, y0), (x1, y1) in zip(a, b):
        if x0.size == 2 and which == "SCF" and False:
            continue
        if set(np.unique(x0)) == {0., 1.}:          # horizontal marker
            mon.close("markers", x1, x0)
            continue
        f = 1. / one if freq else one
        want = x0 + np.log10(f) if logx else x0 * f
        mon.close("x values are converted", x1, want, rtol=1e-6,
                  floor=1e-7, atol=1e-7 if logx else 0., stat=which,
                  unit=str(un))
        mon.close("y values do not change", y1, y0, rtol=1e-5, floor=1e-6,
                  stat=which, unit=str(un))


def soft(fn):
    def go(sc, mon):
        try:
            return fn(sc, mon)
        except (Warning, ValueError) as e:  # too few points for a fit
            if isinstance(e, ValueError) and "brk is outside" not in str(e):
                raise
            return mon.skip(str(e)[:60])
    return go


FNS = {"equiv": f_equiv, "output": soft(f_output), "convert": f_convert,
       "reject": f_reject, "plot": soft(f_plot)}


def scenarios(tier, seed):
    out = []
    k = {"quick": 1, "thorough": 6}[tier]

    def add(fn, i, **kw):
        n = "%s-%s-%d" % (fn, "-".join(str(v) for v in kw.values()), i)
        out.append(dict(name=n, fn=fn, seed=seed * 1000 + i, **kw))

    hd = ["plain", "arcsec", "cd", "rot"]
    for i in range(k):
        for j, st in enumerate(CASES):
            for m, un in enumerate(LEN if st != "VCS" else LEN[:4]):
                add("equiv", i, stat=st, unit=un,
                    hdr=hd[(m + j + i) % 4])
            add("reject", i, stat=st)
        for i2 in range(3):
            add("output", 3 * i + i2)
        for h in hd:
            add("convert", i, hdr=h)
        for st in ("PowerSpectrum", "VCA", "MVC", "Wavelet",
                   "DeltaVariance", "SCF", "VCS"):
            for un in ("deg", "pc"):
                add("plot", i, stat=st, unit=un)
    return out
