"""P08: power-law fits against independent regressions."""
import numpy as np
import astropy.units as u
from ..core import plain
from .. import gen
from .p09 import broken

ID = "P08"
RULE = ("One evaluation = one reported fit quantity (slope, error, break, "
        "ellipticity, angle) compared with an independent regression or with "
        "the parameters of an exact synthetic power law; distinct = different "
        "(clause, value).")


def freq2(shape):
    fy = np.fft.fftshift(np.fft.fftfreq(shape[0]))[::-1]
    fx = np.fft.fftshift(np.fft.fftfreq(shape[1]))
    return fy[:, None] + 0 * fx[None, :], fx[None, :] + 0 * fy[:, None]


def wls(x, y, w=None):
    """slope, intercept, HC3 error of the slope."""
    X = np.vstack([np.ones_like(x), x]).T
    w = np.ones_like(x) if w is None else w
    Xw = X * np.sqrt(w)[:, None]
    yw = y * np.sqrt(w)
    inv = np.linalg.inv(Xw.T.dot(Xw))
    b = inv.dot(Xw.T.dot(yw))
    e = yw - Xw.dot(b)
    h = np.einsum("ij,jk,ik->i", Xw, inv, Xw)
    meat = (Xw * ((e / (1 - h))**2)[:, None]).T.dot(Xw)
    cov = inv.dot(meat).dot(inv)
    return b[1], b[0], np.sqrt(cov[1, 1])


def exact_image(rng, shape, power):
    """Real image whose Fourier power is `power(fy, fx)` at every mode."""
    fy = np.fft.fftfreq(shape[0])[:, None]
    fx = np.fft.fftfreq(shape[1])[None, :]
    f = np.fft.fft2(rng.standard_normal(shape))
    ph = f / np.abs(f)
    with np.errstate(all="ignore"):
        p = power(fy + 0 * fx, fx + 0 * fy)
    p[0, 0] = 0.
    return np.fft.ifft2(ph * np.sqrt(p)).real


def make(which, rng, shape, img=None):
    from turbustat.statistics import PowerSpectrum, VCA, MVC
    if which == "image":
        if img is None:
            img = gen.image(rng, shape, "lognorm")
        return PowerSpectrum(img, header=gen.header2d(shape))
    if which == "cube":
        cs = (10,) + tuple(shape)
        return VCA(gen.cube(rng, cs, "lines"), header=gen.header3d(cs))
    return MVC(gen.plaw2d(rng, shape), np.exp(.3 * gen.plaw2d(rng, shape)),
               1 + rng.gamma(2., .2, shape), header=gen.header2d(shape))


def sel(st, o, f):
    lo, hi = o.get("low_cut"), o.get("high_cut")
    lo = 1. / (0.5 * max(st.ps2D.shape)) if lo is None else lo.value
    hi = f.max() if hi is None else hi.value
    return (f > lo) & (f <= hi), lo, hi


def edge_tie(f, lo, hi):
    return (np.abs(f - lo) < 1e-9).any() or (np.abs(f - hi) < 1e-9).any()


def f_binned(sc, mon):
    rng = gen.rng_of(sc["name"], sc["seed"])
    shape = tuple(sc["shape"])
    st = make(sc["which"], rng, shape)
    o = {}
    if sc["cuts"] in ("low", "both"):
        o["low_cut"] = rng.uniform(0.05, 0.12) / u.pix
    if sc["cuts"] in ("high", "both"):
        o["high_cut"] = rng.uniform(0.3, 0.47) / u.pix
    rk = {}
    if sc["log"]:
        rk = dict(logspacing=True, nbins=int(rng.integers(12, 20)))
    boot = bool(sc.get("boot"))
    fk = dict(weighted_fit=sc["weighted"], bootstrap=boot)
    if sc["via"] == "run":
        st.run(fit_2D=False, radial_pspec_kwargs=rk, fit_kwargs=dict(fk), **o)
    else:
        st.compute_pspec()
        st.compute_radial_pspec(**rk)
        st.fit_pspec(**dict(fk, **o))
    f = plain(st.freqs)
    m, lo, hi = sel(st, o, f)
    y = np.log10(st.ps1D)
    x = np.log10(f)
    w = None
    if sc["weighted"]:
        sd = np.where(st.ps1D_stddev == 0, np.nan, st.ps1D_stddev)
        w = 1. / (0.434 * sd / st.ps1D)**2
        m = m & np.isfinite(w)
    m = m & np.isfinite(y)
    if m.sum() < 5 or (w is not None and
                       w[m].max() > 1e9 * np.median(w[m])):
        # a bin holding one Hermitian pair has round-off scatter only
        mon.skip("too few points or degenerate weights")
        return
    s, c, e = wls(x[m], y[m], None if w is None else w[m])
    mon.close("slope", st.slope, s, rtol=1e-7, atol=1e-9)
    if not boot:
        mon.close("slope-error", st.slope_err, e, rtol=1e-6, atol=1e-12)
    else:
        # the spread of refits to resampled (weighted) residuals
        q = np.ones(m.sum()) if w is None else w[m]
        r = np.sqrt(q) * (y[m] - c - s * x[m])
        xm = np.sum(q * x[m]) / q.sum()
        se = np.sqrt(np.var(r) / np.sum(q * (x[m] - xm)**2))
        mon.close("slope-error-bootstrap", st.slope_err, se, rtol=.25,
                  weighted=w is not None)
    mon.ok("no-break", st.brk is None)
    # limits are stored
    mon.close("limits-kept", [st.low_cut.to(1 / u.pix).value,
                              st.high_cut.to(1 / u.pix).value], [lo, hi])
    # refit with other limits on the same object
    f2 = sorted(rng.uniform(0.05, 0.45, 2))
    if f2[1] - f2[0] > 0.15:
        m = (f > f2[0]) & (f <= f2[1]) & np.isfinite(y)
        if m.sum() >= 4:
            st.fit_pspec(low_cut=f2[0] / u.pix, high_cut=f2[1] / u.pix)
            s, c, e = wls(x[m], y[m])
            mon.close("slope-refit", st.slope, s, rtol=1e-7, atol=1e-9)
            mon.close("slope-error-refit", st.slope_err, e, rtol=1e-6,
                      atol=1e-12)


def f_unbinned(sc, mon):
    from turbustat.statistics import PowerSpectrum
    rng = gen.rng_of(sc["name"], sc["seed"])
    shape = tuple(sc["shape"])
    o = {}
    if sc["cuts"]:
        o = dict(low_cut=rng.uniform(0.05, 0.12) / u.pix,
                 high_cut=rng.uniform(0.3, 0.47) / u.pix)
    st = make(sc["which"], rng, shape)
    if sc["via"] == "run":
        st.run(fit_2D=False, fit_unbinned=True, **o)
    else:
        st.compute_pspec()
        st.compute_radial_pspec()
        st.fit_pspec(fit_unbinned=True, **o)
    fy, fx = freq2(shape)
    f = np.hypot(fy, fx)
    m, lo, hi = sel(st, o, f)
    y = np.log10(np.asarray(st.ps2D))
    m = m & np.isfinite(y)
    # modes numerically on the limits may fall either way
    if not (np.abs(f - lo) < 1e-9).any():
        s, c, e = wls(np.log10(f[m]), y[m])
        mon.close("slope-unbinned", st.slope, s, rtol=1e-6, atol=1e-8)
        mon.close("slope-error-unbinned", st.slope_err, e, rtol=1e-5,
                  atol=1e-10)
    else:
        m2 = m | ((np.abs(f - lo) < 1e-9) & np.isfinite(y))
        m1 = m & (np.abs(f - lo) >= 1e-9)
        c = [wls(np.log10(f[k]), y[k])[0] for k in (m1, m2, m)]
        mon.ok("slope-unbinned", min(c) - 1e-6 <= st.slope <= max(c) + 1e-6,
               observed=float(st.slope), want=c)
    if sc["which"] != "image":
        return
    # an exact power law comes back exactly
    p = float(rng.uniform(0.5, 5.))
    amp = 10 ** rng.uniform(-4, 6)
    img = exact_image(rng, shape, lambda a, b: amp * (a * a + b * b)**(-p / 2))
    st = PowerSpectrum(img, header=gen.header2d(shape))
    st.run(fit_2D=False, fit_unbinned=True, **o)
    mon.close("exact-slope-unbinned", st.slope, -p, rtol=1e-5)
    mon.ok("exact-slope-error", st.slope_err < 1e-4,
           observed=float(st.slope_err))
    st.run(fit_2D=False, **o)
    mon.close("exact-slope-binned", st.slope, -p, rtol=0.05, atol=0.05)


def f_scale(sc, mon):
    from turbustat.statistics import PowerSpectrum
    rng = gen.rng_of(sc["name"], sc["seed"])
    shape = tuple(sc["shape"])
    img = gen.image(rng, shape, sc["kind"])
    h = gen.header2d(shape)
    a = PowerSpectrum(img, header=h).run(fit_2D=False)
    c = gen.factor(rng)
    b = PowerSpectrum(img * c, header=h).run(fit_2D=False)
    mon.close("scale-free-slope", b.slope, a.slope, rtol=1e-6, atol=1e-8)
    mon.close("scale-free-error", b.slope_err, a.slope_err, rtol=1e-5,
              atol=1e-9)
    d = PowerSpectrum(-img, header=h).run(fit_2D=False)
    mon.close("sign-free-slope", d.slope, a.slope, rtol=1e-6, atol=1e-8)
    w = PowerSpectrum(img * c, header=h).run(
        fit_2D=False, fit_kwargs=dict(weighted_fit=True))
    w0 = PowerSpectrum(img, header=h).run(
        fit_2D=False, fit_kwargs=dict(weighted_fit=True))
    mon.close("scale-free-weighted", w.slope, w0.slope, rtol=1e-6, atol=1e-8)


def f_break(sc, mon):
    from turbustat.statistics import PowerSpectrum
    rng = gen.rng_of(sc["name"], sc["seed"])
    n = int(rng.integers(60, 90))
    shape = (n, n)
    b = float(rng.uniform(0.12, 0.25))
    p1 = float(rng.uniform(0.5, 2.))
    p2 = p1 + float(rng.uniform(1., 3.))
    if sc["swap"]:
        p1, p2 = p2, p1

    def power(a, c):
        k = np.hypot(a, c)
        return np.where(k < b, (k / b)**-p1, (k / b)**-p2)

    st = PowerSpectrum(exact_image(rng, shape, power),
                       header=gen.header2d(shape))
    guess = b * float(rng.uniform(0.85, 1.15))
    kw = dict(brk=guess / u.pix, min_fits_pts=4)
    if sc["logb"]:
        kw = dict(brk=np.log10(guess) * u.dimensionless_unscaled,
                  log_break=True, min_fits_pts=4)
    st.run(fit_2D=False, fit_unbinned=sc["unbinned"], fit_kwargs=kw)
    if not mon.ok("break-found", st.brk is not None, observed=str(st.brk)):
        return
    mon.ok("break-unit", st.brk.unit == u.pix**-1, observed=str(st.brk))
    tol = 0.03 if sc["unbinned"] else 0.2
    mon.close("break-value", st.brk.value, b, rtol=tol)
    mon.ok("break-slopes-count", np.size(st.slope) == 2)
    mon.close("break-slopes", st.slope, [-p1, -p2], rtol=0.05, atol=tol)
    mon.ok("break-errors", np.size(st.slope_err) == 2 and
           np.all(np.asarray(st.slope_err) >= 0) and
           st.brk_err.value >= 0, observed=plain(st.slope_err))
    # reported slopes and errors are the least-squares ones at that break
    f = plain(st.freqs)
    y = st.ps1D
    if sc["unbinned"]:
        fy, fx = freq2(shape)
        f, y = np.hypot(fy, fx).ravel(), np.asarray(st.ps2D).ravel()
    g = (f > st.low_cut.value) & (f <= st.high_cut.value) & (y > 0)
    x, y = np.log10(f[g]), np.log10(y[g])
    for boot in (False, True):
        if boot:
            st.fit_pspec(fit_unbinned=sc["unbinned"], bootstrap=True,
                         bootstrap_kwargs=dict(nboot=300), **kw)
        lb = np.log10(st.brk.value)
        if np.min(np.abs(x - lb)) < 1e-9 or np.min(np.abs(
                f - st.low_cut.value)) < 1e-9:
            mon.skip("a mode on the break or the limit")
            break
        broken(mon, "broken-fit", x, y, lb, st.slope, st.slope_err,
               st.brk_err.to(1 / u.pix).value / st.brk.value / np.log(10),
               boot=boot)
    # as many points below the break as asked for, and one fewer
    st.fit_pspec(fit_unbinned=sc["unbinned"], **kw)
    if st.brk is not None:
        below = int(np.sum(x < np.log10(st.brk.value)))
        if np.min(np.abs(x - np.log10(st.brk.value))) > 1e-9:
            st.fit_pspec(fit_unbinned=sc["unbinned"],
                         **dict(kw, min_fits_pts=below))
            mon.ok("break-just-enough", st.brk is not None,
                   observed=plain(st.slope), points=below)
            st.fit_pspec(fit_unbinned=sc["unbinned"],
                         **dict(kw, min_fits_pts=below + 1))
            mon.ok("break-one-short", st.brk is None,
                   observed=plain(st.slope), points=below)
    # too few points below the break: ignored, as asked
    st.fit_pspec(fit_unbinned=sc["unbinned"], **dict(kw, min_fits_pts=10**6))
    mon.ok("break-ignored", st.brk is None and np.size(st.slope) == 1,
           observed=plain(st.slope))
    # and without a break request afterwards
    st.fit_pspec(fit_unbinned=sc["unbinned"])
    mon.ok("break-not-requested", st.brk is None and np.size(st.slope) == 1)


def ellip_power(p, q, th):
    def f(a, b):
        r2 = (b * np.sin(th) + a * np.cos(th))**2 + \
            q**2 * (b * np.cos(th) - a * np.sin(th))**2
        return r2 ** (-p / 2)
    return f


def f_two(sc, mon):
    from turbustat.statistics import PowerSpectrum
    rng = gen.rng_of(sc["name"], sc["seed"])
    k = int(rng.integers(15, 26)) * 2 + 1
    k2 = k if sc["square"] else int(rng.integers(15, 26)) * 2 + 1
    shape = (k, k2)
    p = float(rng.uniform(1., 4.))
    q = float(rng.uniform(0.25, 0.8))
    th = float(rng.uniform(0.05, np.pi - 0.05))
    amp = 10 ** float(rng.uniform(-2, 4))
    pw = ellip_power(p, q, th)
    img = exact_image(rng, shape, lambda a, b: amp * pw(a, b))
    st = PowerSpectrum(img, header=gen.header2d(shape))
    kw = dict(bootstrap=False)
    if sc["boot"]:
        kw = dict(bootstrap=True, niters=8)
    st.run(fit_2D=True, fit_2D_kwargs=kw)
    mon.close("2d-slope", st.slope2D, -p, rtol=2e-3)
    mon.close("2d-ellipticity", st.ellip2D, q, rtol=1e-2)
    d = abs((st.theta2D - th + np.pi / 2) % np.pi - np.pi / 2)
    mon.ok("2d-angle", d < 0.02, observed=float(st.theta2D), want=th)
    mon.ok("2d-ranges", 0 < st.ellip2D <= 1 and 0 <= st.theta2D < np.pi,
           observed=[float(st.ellip2D), float(st.theta2D)])
    if sc["boot"]:
        mon.ok("2d-errors-positive", st.slope2D_err >= 0 and
               st.ellip2D_err >= 0 and st.theta2D_err >= 0)
        mon.ok("2d-errors-small", np.all(np.array(
            [st.slope2D_err, st.ellip2D_err, st.theta2D_err]) < 0.02),
            observed=[st.slope2D_err, st.ellip2D_err, st.theta2D_err])
    # limits: a different law outside the fitted annulus is ignored
    lo, hi = 0.08, 0.4

    def mixed(a, b):
        r = np.hypot(a, b)
        v = amp * pw(a, b)
        return np.where((r > lo) & (r <= hi), v, 50 * v)

    st = PowerSpectrum(exact_image(rng, shape, mixed),
                       header=gen.header2d(shape))
    st.run(fit_2D=True, low_cut=(lo + 1e-9) / u.pix,
           high_cut=(hi - 1e-9) / u.pix, fit_2D_kwargs=dict(bootstrap=False))
    mon.close("2d-slope-limits", st.slope2D, -p, rtol=5e-3)
    mon.close("2d-ellipticity-limits", st.ellip2D, q, rtol=2e-2)


def f_two_noisy(sc, mon):
    """Any spectrum: reported ranges, and the fixed-circular fit is exact
    (it reduces to linear regression)."""
    rng = gen.rng_of(sc["name"], sc["seed"])
    shape = tuple(sc["shape"])
    st = make(sc["which"], rng, shape)
    o = dict(low_cut=0.06 / u.pix, high_cut=0.42 / u.pix)
    st.run(fit_2D=True, fit_2D_kwargs=dict(bootstrap=False), **o)
    mon.ok("2d-ranges-any", 0 < st.ellip2D <= 1 and 0 <= st.theta2D < np.pi,
           observed=[float(st.ellip2D), float(st.theta2D)])
    fy, fx = freq2(shape)
    f = np.hypot(fy, fx)
    m = (f > 0.06) & (f <= 0.42)
    y = np.log10(np.asarray(st.ps2D)[m])
    r_model = y - np.asarray(st.fit2D(fx[m], fy[m]))
    # residuals of the elliptical fit cannot exceed the circular ones
    s, c, e = wls(np.log10(f[m]), y)
    r_lin = y - c - s * np.log10(f[m])
    mon.ok("2d-not-worse-than-circular",
           np.sum(r_model**2) <= np.sum(r_lin**2) * 1.02,
           observed=float(np.sum(r_model**2)), circ=float(np.sum(r_lin**2)))
    surface_errors(mon, st, fx[m], fy[m], y)
    keep = [st.slope2D, st.ellip2D, st.theta2D]
    st.fit_2Dpspec(bootstrap=False, **o)
    mon.close("2d-run-uses-limits", [st.slope2D, st.ellip2D, st.theta2D],
              keep, rtol=1e-6, atol=1e-6)
    st.fit_2Dpspec(bootstrap=False, fix_ellip_params=True, **o)
    mon.close("2d-circular-slope", st.slope2D, s, rtol=1e-3, atol=1e-3)
    lx = np.log10(f[m])
    se = np.sqrt(np.var(y - c - s * lx) / np.sum((lx - lx.mean())**2))
    mon.close("2d-circular-error", st.slope2D_err, se, rtol=.02)
    np.random.seed(7)
    st.fit_2Dpspec(bootstrap=True, niters=100, fix_ellip_params=True, **o)
    mon.close("2d-circular-slope-again", st.slope2D, s, rtol=1e-3, atol=1e-3)
    mon.close("2d-circular-error-bootstrap", st.slope2D_err, se, rtol=.45)
    mon.close("2d-circular-ellipticity", st.ellip2D, 1.0, rtol=1e-6)
    w = 1. / f[m]
    st.fit_2Dpspec(bootstrap=False, fix_ellip_params=True,
                   radial_weighting=True, **o)
    s2 = wls(np.log10(f[m]), y, w**2)[0]
    mon.close("2d-radial-weight-slope", st.slope2D, s2, rtol=1e-3, atol=1e-3)
    mon.raises("2d-empty-range", ValueError, st.fit_2Dpspec,
               low_cut=0.9 / u.pix, high_cut=0.95 / u.pix)
    if shape[0] % 2 == 0 or shape[0] != shape[1]:
        return
    # wedge-limited 2D fit uses only the wedge
    st.compute_radial_pspec(theta_0=0.5 * u.rad, delta_theta=1.5 * u.rad)
    y0 = np.arange(shape[0]) - (shape[0] - 1) / 2.
    ang = np.arctan2(y0[:, None], y0[None, :])
    d = np.abs((ang - 0.5 + np.pi / 2) % np.pi - np.pi / 2)
    mw = m & (d <= 0.75) & (np.hypot(y0[:, None], y0[None, :]) > 1.5)
    if 0.06 * shape[0] < 1.6:
        return
    st.fit_2Dpspec(bootstrap=False, fix_ellip_params=True, use_azimmask=True,
                   **o)
    s3 = wls(np.log10(f[mw]), np.log10(np.asarray(st.ps2D)[mw]))[0]
    mon.close("2d-wedge-slope", st.slope2D, s3, rtol=1e-3, atol=1e-3)


def f_two_starts(sc, mon):
    """Weakly elongated, noisy surfaces: the better of the two stated starts
    (the guess, and the guess turned by a right angle) is what comes back."""
    from turbustat.statistics.elliptical_powerlaw import \
        fit_elliptical_powerlaw, LogEllipticalPowerLaw2D
    from astropy.modeling import fitting
    rng = gen.rng_of(sc["name"], sc["seed"])
    unlike = 0
    for it in range(sc["n"]):
        n = int(rng.integers(16, 26))
        fy, fx = freq2((n, n))
        f = np.hypot(fy, fx)
        m = (f > .06) & (f < .45)
        x, y = fx[m], fy[m]
        th = float(rng.uniform(0, np.pi))
        q = float(rng.uniform(.3, .8))
        v = ellip_model([1., np.log(q / (1 - q)), th,
                         -float(rng.uniform(1, 4))], x, y)
        v = v + float(rng.choice([.1, .4, 1.])) * rng.standard_normal(v.size)
        p0 = (float(v.mean() - 1), 0., float(rng.choice(
            [np.pi / 2, 0.3, 1.2, 2.5])), -2.)
        res = []
        for t in (p0[2], (p0[2] + np.pi / 2) % np.pi):
            g = fitting.LevMarLSQFitter()(
                LogEllipticalPowerLaw2D(p0[0], p0[1], t, p0[3]), x, y, v,
                estimate_jacobian=True)
            r = v - np.asarray(g(x, y))
            res.append((np.abs(r).sum(), (r**2).sum()))
        res = np.array(res)
        out = fit_elliptical_powerlaw(v, x, y, p0)
        r = v - np.asarray(out[2](x, y))
        a = np.array([np.abs(r).sum(), (r**2).sum()])
        unlike += bool(abs(res[0, 1] / res[1, 1] - 1) > 1e-3)
        mon.ok("2d-better-start", np.any(a <= res.min(0) * (1 + 1e-5)),
               observed=a.tolist(), starts=res.tolist())
    mon.ev("starts that end in unlike minima", unlike)


def ellip_model(p, x, y):
    """Power law of the distance in a stretched, rotated frame (log10)."""
    q = 1. / (1 + np.exp(-p[1]))
    c, s = np.cos(p[2]), np.sin(p[2])
    r2 = (q * (x * c - y * s))**2 + (x * s + y * c)**2
    return p[0] + p[3] * np.log10(np.sqrt(r2))


def surface_errors(mon, st, x, y, v):
    """Errors of a free surface fit from its least-squares covariance."""
    from scipy.optimize import least_squares
    p0 = [float(t) for t in st.fit2D.parameters]
    mine = np.sum((v - np.asarray(st.fit2D(x, y)))**2)
    res = least_squares(lambda a: v - ellip_model(a, x, y), p0,
                        xtol=1e-12, ftol=1e-12, gtol=1e-12)
    rss = 2 * res.cost
    q = 1. / (1 + np.exp(-res.x[1]))
    if mine > rss * (1 + 1e-4) or not .05 < q < .95:
        mon.skip("surface fit not at a clear minimum")
        return
    e = np.sqrt(np.diag(np.linalg.inv(res.jac.T.dot(res.jac))) * rss /
                (x.size - 4))
    if e[2] > .15:
        mon.skip("orientation hardly determined")
        return
    if np.all(np.isnan([st.slope2D_err, st.theta2D_err, st.ellip2D_err])):
        mon.skip("no covariance from the fitter (stated in a warning)")
        return
    mon.close("2d-slope-error", st.slope2D_err, e[3], rtol=.05)
    mon.close("2d-angle-error", st.theta2D_err, e[2], rtol=.05)
    mon.close("2d-ellip-error", st.ellip2D_err, e[1] * q * (1 - q), rtol=.05)


def f_two_errors(sc, mon):
    """Noisy anisotropic surface: least squares and its covariance."""
    from turbustat.statistics.elliptical_powerlaw import \
        fit_elliptical_powerlaw, interval_transform, \
        inverse_interval_transform
    from scipy.optimize import least_squares
    rng = gen.rng_of(sc["name"], sc["seed"])
    got = []
    for i in range(6):
        got.append(two_errors(sc, mon, rng, fit_elliptical_powerlaw,
                              interval_transform, inverse_interval_transform,
                              least_squares, full=i == 0))
    # gradient searches can end in a poor minimum, but not as a rule
    mon.ok("2d-least-squares", sum(got) >= 3, observed=got)


def two_errors(sc, mon, rng, fit_elliptical_powerlaw, interval_transform,
               inverse_interval_transform, least_squares, full):
    n = int(rng.integers(24, 60))
    y, x = np.indices((n, n)) - (n - 1) / 2. + 0.25
    y, x = y.ravel() / n, x.ravel() / n
    q = float(rng.uniform(.35, .8))
    th = float(rng.uniform(0, np.pi))
    sl = float(rng.uniform(-4, -1.5))
    tr = np.log(q / (1 - q))
    amp = float(rng.uniform(-2, 3))
    v = ellip_model([amp, tr, th, sl], x, y) + \
        rng.uniform(.03, .4) * rng.standard_normal(x.size)
    mon.close("ellip-transform", interval_transform(q, 0, 1), tr, rtol=1e-9)
    mon.close("ellip-inverse", inverse_interval_transform(tr, 0, 1), q,
              rtol=1e-9)
    start = [v.max(), tr + .2, (th + sc["off"]) % np.pi, sl * .8]
    p, se, model, fitter = fit_elliptical_powerlaw(v, x, y, tuple(start))
    res = least_squares(lambda a: v - ellip_model(a, x, y), [amp, tr, th, sl],
                        xtol=1e-12, ftol=1e-12, gtol=1e-12)
    rss = 2 * res.cost
    mine = np.sum((v - model(x, y))**2)
    mon.close("2d-model-value", np.sum((v - ellip_model(p, x, y))**2), mine,
              rtol=1e-6)
    if mine > rss * (1 + 1e-6):
        mon.ev("2d-poor-minimum", int(mine > rss * 1.01))
        return bool(mine < rss * 1.01)
    cov = np.linalg.inv(res.jac.T.dot(res.jac)) * rss / (x.size - 4)
    want = np.sqrt(np.diag(cov))
    mon.close("2d-free-slope", p[3], res.x[3], rtol=0, atol=.03 * want[3])
    mon.close("2d-free-ellip", p[1], res.x[1], rtol=0, atol=.03 * want[1])
    d = (p[2] - res.x[2] + np.pi / 2) % np.pi - np.pi / 2
    mon.close("2d-free-angle", d, 0., rtol=0, atol=.03 * want[2])
    mon.close("2d-free-errors", se, want, rtol=.03)
    if not full:
        return True
    np.random.seed(11)
    p2, se2, _, _ = fit_elliptical_powerlaw(v, x, y, tuple(start),
                                            bootstrap=True, niters=100)
    mon.close("2d-bootstrap-same-fit", p2, p, rtol=1e-6)
    mon.close("2d-bootstrap-errors", se2, want, rtol=.5)
    np.random.seed(11)
    se3 = fit_elliptical_powerlaw(v, x, y, tuple(start), bootstrap=True,
                                  niters=100, alpha=.95)[1]
    mon.ok("2d-bootstrap-interval", (se3 > 1.2 * se2).all() and
           (se3 < 3.2 * se2).all(), observed=se3 / se2)
    pf, sf, mf, _ = fit_elliptical_powerlaw(v, x, y, tuple(start),
                                            fix_ellip_params=True)
    s, c, e = wls(np.log10(np.hypot(x, y)), v)
    mon.close("2d-fixed-slope", pf[3], s, rtol=1e-4)
    mon.close("2d-fixed-amp", pf[0], c, rtol=1e-4, atol=1e-4)
    mon.close("2d-fixed-angle", pf[2], start[2], rtol=1e-9)
    mon.ok("2d-fixed-errors-zero", sf[1] == 0 and sf[2] == 0 and sf[3] > 0,
           observed=sf)
    bad = v.copy()
    bad[int(rng.integers(bad.size))] = [np.nan, np.inf, -np.inf][sc["j"] % 3]
    mon.raises("2d-nonfinite", ValueError, fit_elliptical_powerlaw, bad, x, y,
               tuple(start))
    mon.raises("2d-method", ValueError, fit_elliptical_powerlaw, v, x, y,
               tuple(start), fit_method="Newton")
    return True


def f_field(sc, mon):
    """Fields made by the library's own generator, fitted end to end."""
    from turbustat.statistics import PowerSpectrum
    from turbustat.simulator import make_extended
    rng = gen.rng_of(sc["name"], sc["seed"])
    n = 64
    p = float(rng.uniform(2., 4.))
    q = float(rng.uniform(0.3, 0.8))
    th = float(rng.uniform(0.1, np.pi - 0.1))
    img = make_extended(n, powerlaw=p, ellip=q, theta=th * u.rad,
                        randomseed=int(rng.integers(1, 10**6)))
    st = PowerSpectrum(img, header=gen.header2d((n, n)))
    st.run(fit_2D=True, low_cut=0.02 / u.pix, high_cut=0.4 / u.pix,
           fit_2D_kwargs=dict(bootstrap=False))
    mon.close("field-slope", st.slope2D, -p, rtol=0.05)
    mon.close("field-ellipticity", st.ellip2D, q, rtol=0.1)
    d = abs((st.theta2D - th + np.pi / 2) % np.pi - np.pi / 2)
    mon.ok("field-angle", d < 0.1, observed=float(st.theta2D), want=th)


FNS = {"binned": f_binned, "unbinned": f_unbinned, "scale": f_scale,
       "break": f_break, "two": f_two, "two_noisy": f_two_noisy,
       "two_starts": f_two_starts,
       "two_errors": f_two_errors, "field": f_field}


def scenarios(tier, seed):
    rng = gen.rng_of("P08", seed, tier)
    k = 2 if tier == "quick" else 12
    out = []
    for which in ("image", "cube", "mvc"):
        for cuts in ("none", "low", "high", "both"):
            for weighted in (False, True):
                for via in ("run", "steps"):
                    for j in range(k):
                        out.append(dict(
                            name="binned-%s-%s-%s-%s-%d" % (
                                which, cuts, "w" if weighted else "u", via, j),
                            fn="binned", seed=seed, which=which, cuts=cuts,
                            weighted=weighted, via=via, log=bool(j % 3 == 1),
                            boot=bool(j % 4 == 3),
                            shape=gen.shapes2d(rng, 36, 60)))
    for j in range(2 * k):
        out.append(dict(name="boot-%d" % j, fn="binned", seed=seed,
                        which="image", cuts="both", weighted=bool(j % 2), via="run",
                        log=False, boot=True, shape=gen.shapes2d(rng, 40, 60)))
    for which in ("image", "cube", "mvc"):
        for cuts in (False, True):
            for via in ("run", "steps"):
                for j in range(k):
                    s = gen.shapes2d(rng, 31, 50)
                    s = [v + 1 - v % 2 for v in s]
                    out.append(dict(name="unbinned-%s-%d-%s-%d" % (
                        which, cuts, via, j), fn="unbinned", seed=seed,
                        which=which, cuts=cuts, via=via, shape=s))
    for j in range(4 * k):
        out.append(dict(name="scale-%d" % j, fn="scale", seed=seed,
                        kind=["plaw", "lognorm", "positive", "blobs"][j % 4],
                        shape=gen.shapes2d(rng, 36, 60)))
    for j in range(8 * k):
        out.append(dict(name="break-%d" % j, fn="break", seed=seed,
                        swap=bool(j % 2), unbinned=bool(j // 2 % 2),
                        logb=bool(j // 4 % 2)))
    for j in range(8 * k):
        out.append(dict(name="two-%d" % j, fn="two", seed=seed,
                        square=bool(j % 2), boot=bool(j % 4 == 0)))
    for j in range(6 * k):
        s = gen.shapes2d(rng, 36, 60)
        if j % 3 == 0:
            s = (41 + 2 * (j % 5),) * 2
        out.append(dict(name="twonoisy-%d" % j, fn="two_noisy", seed=seed,
                        which=["image", "cube", "mvc"][j % 3], shape=s))
    for j in range(12 * k):
        out.append(dict(name="twoerr-%d" % j, fn="two_errors", seed=seed, j=j,
                        off=[.1, .8, 1.4, -1., 1.57, -.3][j % 6]))
    for j in range(6 * k):
        out.append(dict(name="twostarts-%d" % j, fn="two_starts", seed=seed,
                        n=12))
    for j in range(4 * k):
        out.append(dict(name="field-%d" % j, fn="field", seed=seed))
    return out
