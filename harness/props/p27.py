"""P27: the numerical helpers that statistics and comparisons share."""
import numpy as np
import astropy.units as u
from astropy.wcs import WCS
from .. import gen

ID = "P27"
RULE = ("One evaluation = one value returned by a shared helper compared with "
        "its definition worked out independently, a recovered parameter, or "
        "an unusable input that is rejected; distinct = different (clause, "
        "value).")


def values(rng, n, kind):
    x = {"normal": lambda: rng.standard_normal(n) * 3 + 1,
         "lognorm": lambda: rng.lognormal(0, 1, n),
         "offset": lambda: rng.standard_normal(n) + 1e4,
         "ties": lambda: rng.integers(0, 6, n).astype(float),
         "small": lambda: rng.random(n) * 1e-12,
         "neg": lambda: -rng.lognormal(0, 1, n)}[kind]()
    return x


def f_normalise(sc, mon):
    from turbustat.statistics import stats_utils as su
    rng = gen.rng_of(sc["name"], sc["seed"])
    for kind in ("normal", "lognorm", "offset", "ties", "small", "neg"):
        shape = [(int(rng.integers(3, 60)),), (5, 7), (3, 4, 5)][
            rng.integers(3)]
        x = values(rng, shape, kind)
        if x.size > 6 and rng.integers(2):
            x.flat[rng.choice(x.size, x.size // 4, replace=False)] = np.nan
        if np.nanmax(x) == np.nanmin(x):
            continue
        k = x.copy()
        ok = x[np.isfinite(x)]
        m = ok.sum() / ok.size
        s = np.sqrt(((ok - m)**2).sum() / ok.size)
        want = {"standardize": (x - m) / s, "center": x - m,
                "normalize": (x - ok.min()) / (ok.max() - ok.min()),
                "normalize_by_mean": x / m}
        fl = 1e-9 if kind == "offset" else 1e-13
        for n, w in want.items():
            got = su.data_normalization(x, norm_type=n)
            mon.close("normalised", got, w, rtol=1e-9, floor=fl, how=n,
                      kind=kind)
            mon.close("normalised by name", getattr(su, n)(x), got,
                      rtol=1e-12, floor=1e-14, how=n)
        mon.close("normalised by default", su.data_normalization(x),
                  want["standardize"], rtol=1e-9, floor=fl)
        mon.ok("input left alone", np.array_equal(x, k, equal_nan=True))
        f32 = np.where(np.isfinite(x), x, m).astype(np.float32)
        if kind in ("normal", "ties") and f32.std() > 0:
            mon.close("single precision", su.standardize(f32),
                      (f32 - f32.astype(float).mean()) /
                      f32.astype(float).std(), rtol=2e-6, floor=2e-6)
            # squares beyond the range of single precision
            f32 = (f32 / np.abs(f32).max() * 1e30).astype(np.float32)
            mon.close("single precision", su.standardize(f32),
                      (f32 - f32.astype(float).mean()) /
                      f32.astype(float).std(), rtol=2e-6, floor=2e-6,
                      size="large")
    mon.raises("unknown normalisation", ValueError,
                   lambda: su.data_normalization( x, norm_type="other"))


def f_metrics(sc, mon):
    from turbustat.statistics.stats_utils import hellinger, kl_divergence
    rng = gen.rng_of(sc["name"], sc["seed"])
    for _ in range(4):
        n = int(rng.integers(1, 60))
        p, q = rng.random((2, n)) + 1e-3
        p /= p.sum()
        q /= q.sum()
        w = float(rng.choice([1., .25, 3.]))
        want = w * np.sqrt(max(0., sum((a**.5 - b**.5)**2
                                       for a, b in zip(p, q)) / 2))
        h = hellinger(p, q, bin_width=w)
        mon.close("hellinger", h, want, rtol=1e-10, floor=1e-13)
        mon.close("hellinger default width", hellinger(p, q), want / w,
                  rtol=1e-10, floor=1e-13)
        mon.close("hellinger order", hellinger(q, p, bin_width=w), h,
                  rtol=1e-12, floor=1e-15)
        mon.ok("hellinger itself", hellinger(p, p) == 0)
        mon.ok("hellinger range", 0 <= hellinger(p, q) <= 1 + 1e-12,
               observed=hellinger(p, q))
        # empty bins: disjoint distributions are a whole unit apart
        a = np.concatenate([p, np.zeros(n)])
        b = np.concatenate([np.zeros(n), q])
        mon.close("hellinger disjoint", hellinger(a, b), 1., rtol=1e-10)
        j = int(rng.integers(n))
        pn = p.copy()
        pn[j] = np.nan
        mon.close("hellinger missing", hellinger(pn, q), np.sqrt(
            sum((np.sqrt(p[i]) - np.sqrt(q[i]))**2 for i in range(n)
                if i != j) / 2), rtol=1e-10, floor=1e-13)
        kl = sum(x * np.log(x / y) for x, y in zip(p, q))
        mon.close("kullback-leibler", kl_divergence(p, q), kl, rtol=1e-9,
                  floor=1e-12)
        mon.ok("kullback-leibler sign", kl_divergence(p, q) > -1e-12,
               observed=kl)
        mon.close("kullback-leibler itself", kl_divergence(p, p), 0.,
                  atol=1e-13)
        qz = q.copy()
        qz[j] = 0
        mon.close("kullback-leibler empty bin", kl_divergence(p, qz), sum(
            p[i] * np.log(p[i] / q[i]) for i in range(n) if i != j),
            rtol=1e-9, floor=1e-12)


def f_bins(sc, mon):
    from turbustat.statistics.stats_utils import common_histogram_bins
    rng = gen.rng_of(sc["name"], sc["seed"])
    for kind in ("normal", "lognorm", "ties", "small", "neg"):
        n1, n2 = [int(v) for v in rng.integers(20, 300, 2)]
        a = values(rng, n1, kind)
        b = values(rng, n2, kind) * rng.uniform(.5, 3)
        if rng.integers(2):
            a[rng.integers(n1)] = np.nan
        lo = min(np.nanmin(a), np.nanmin(b))
        hi = max(np.nanmax(a), np.nanmax(b))
        kw = {}
        nb = int(np.sqrt((n1 + n2) / 2.))
        if rng.integers(2):
            nb = kw["nbins"] = int(rng.integers(3, 40))
        if rng.integers(2):
            kw["min_val"] = float(lo + rng.uniform(-.3, .3) * (hi - lo))
            lo = max(lo, kw["min_val"])
        if rng.integers(2):
            kw["max_val"] = float(hi - rng.uniform(-.3, .3) * (hi - lo))
            hi = min(hi, kw["max_val"])
        want = lo + (hi - lo) * np.arange(nb) / (nb - 1.)
        if lo > 0 and rng.integers(2):
            kw["logscale"] = True
            want = np.exp(np.log(lo) + np.log(hi / lo) * np.arange(nb) /
                          (nb - 1.))
        got = common_histogram_bins(a, b, **kw)
        mon.close("bin edges", got, want, rtol=1e-9, floor=1e-12,
                  opts=str(sorted(kw)))
        mon.close("bin edges, other order", common_histogram_bins(
            b, a, **kw), want, rtol=1e-9, floor=1e-12)
        e, c = common_histogram_bins(a, b, return_centered=True, **kw)
        mon.close("bin edges with centres", e, got, rtol=1e-12)
        mon.close("bin centres", c, (want[1:] + want[:-1]) / 2, rtol=1e-9,
                  floor=1e-12)
    for bad in ((a.reshape(1, -1), b), (a, b.reshape(1, -1))):
        mon.raises("2D data", ValueError,
                   lambda: common_histogram_bins(*bad))


def f_scale(sc, mon):
    from turbustat.statistics.stats_utils import common_scale
    rng = gen.rng_of(sc["name"], sc["seed"])

    def mk(cd, cube):
        h = (gen.header3d if cube else gen.header2d)(
            (4, 12, 13) if cube else (12, 13))
        form = rng.integers(3)
        if form == 0:
            h["CDELT1"], h["CDELT2"] = -cd, cd
        elif form == 1:
            h["CDELT1"], h["CDELT2"] = cd, cd
        else:
            h["CDELT1"], h["CDELT2"] = -cd, cd
            t = np.deg2rad(rng.uniform(0, 90))
            h["PC1_1"], h["PC1_2"] = np.cos(t), -np.sin(t)
            h["PC2_1"], h["PC2_2"] = np.sin(t), np.cos(t)
        return WCS(h)
    for _ in range(3):
        c1, c2 = 10**rng.uniform(-4, -1, 2)
        w1, w2 = mk(c1, rng.integers(2)), mk(c2, rng.integers(2))
        mon.close("pixel scale ratio", common_scale(w1, w2), c2 / c1,
                  rtol=1e-9)
        mon.close("inverse ratio", common_scale(w2, w1), c1 / c2, rtol=1e-9)
        mon.close("own ratio", common_scale(w1, w1), 1., rtol=1e-12)
        h = gen.header2d((12, 13))
        h["CDELT1"], h["CDELT2"] = -.01, .01 * rng.uniform(1.3, 3)
        w3 = WCS(h)
        mon.raises("first pixels not square", Exception,
                   lambda: common_scale(w3, w1))
        mon.raises("second pixels not square", Exception,
                   lambda: common_scale(w1, w3))


def f_blob(sc, mon):
    """The smoothing kernel: unit sum, the stated shape along each axis."""
    from turbustat.moments.make_moments import gauss_kern
    rng = gen.rng_of(sc["name"], sc["seed"])
    for it in range(9):
        a, b, c = (int(q) for q in rng.integers(1, 6, 3))
        if it % 3 == 0:
            g, b, c = gauss_kern(a), a, a
        elif it % 3 == 1:
            g, c = gauss_kern(a, ysize=b), a
        else:
            g = gauss_kern(a, b, c)
        w = np.ones(1)
        for q in (a, b, c):
            t = np.exp(-np.arange(-q, q + 1)**2 / float(q))
            w = np.multiply.outer(w, t)
        w = w[0] / w.sum()
        mon.close("kernel", g, w, rtol=1e-9)


def f_shift(sc, mon):
    from turbustat.statistics.stats_utils import fourier_shift, pixel_shift
    rng = gen.rng_of(sc["name"], sc["seed"])
    for _ in range(3):
        nd = int(rng.integers(1, 4))
        shape = tuple(int(v) for v in rng.integers(4, 15, nd))
        ax = int(rng.integers(nd))
        n = shape[ax]
        x = rng.standard_normal(shape)
        k = x.copy()
        s = int(rng.integers(-2 * n, 2 * n + 1))
        idx = (np.arange(n) - s) % n
        want = np.take(x, idx, axis=ax)
        for t in (s, float(s), np.int64(s)):
            mon.close("whole shift", pixel_shift(x, t, axis=ax), want)
        mon.close("whole shift by transform", fourier_shift(x, s, axis=ax),
                  want, rtol=1e-9, floor=1e-11)
        # a band-limited signal is moved exactly by any amount
        sh = float(rng.uniform(-n, n))
        t = np.arange(n)
        y = np.zeros(shape)
        w = np.zeros(shape)
        for m in range(0, (n - 1) // 2 + 1):
            a = np.take(rng.standard_normal(shape), [0], axis=ax)
            p = rng.uniform(0, 2 * np.pi)
            b = [1] * nd
            b[ax] = n
            y += a * np.cos(2 * np.pi * m * t / n + p).reshape(b)
            w += a * np.cos(2 * np.pi * m * (t - sh) / n + p).reshape(b)
        mon.close("fractional shift", fourier_shift(y, sh, axis=ax), w,
                  rtol=1e-8, floor=1e-10)
        mon.close("fractional shift default axis", fourier_shift(y, sh),
                  fourier_shift(y, sh, axis=0), rtol=1e-12, floor=1e-14)
        # missing values move along
        xn = x.copy()
        xn[tuple(int(rng.integers(v)) for v in shape)] = np.nan
        got = fourier_shift(xn, s, axis=ax)
        want = np.take(xn, idx, axis=ax)
        mon.ok("missing values move", np.array_equal(
            np.isnan(got), np.isnan(want)), observed=np.isnan(got).sum())
        mon.close("whole shift of the rest", np.nan_to_num(got),
                  np.nan_to_num(want), rtol=1e-9, floor=1e-11)
        mon.ok("input left alone", np.array_equal(x, k))


def f_pad(sc, mon):
    from turbustat.statistics.stats_utils import padwithzeros, padwithnans
    rng = gen.rng_of(sc["name"], sc["seed"])
    for f, v in ((padwithzeros, 0.), (padwithnans, np.nan)):
        nd = int(rng.integers(1, 4))
        shape = tuple(int(x) for x in rng.integers(1, 9, nd))
        x = rng.standard_normal(shape)
        p = int(rng.integers(1, 6))
        want = np.full([n + 2 * p for n in shape], v)
        want[tuple(slice(p, p + n) for n in shape)] = x
        mon.close("padding", np.pad(x, p, f), want)


def f_ellipse(sc, mon):
    from turbustat.statistics.stats_utils import EllipseModel
    rng = gen.rng_of(sc["name"], sc["seed"])
    for _ in range(4):
        xc, yc = rng.uniform(-20, 20, 2)
        a = float(rng.uniform(1, 12))
        b = float(a * rng.uniform(.25, .9))
        th = float(rng.uniform(0, np.pi))
        n = int(rng.integers(8, 60))
        t = np.sort(rng.uniform(0, 2 * np.pi, n)) if rng.integers(2) else \
            np.linspace(0, 2 * np.pi, n, endpoint=False)
        if np.max(np.diff(np.concatenate([t, [t[0] + 2 * np.pi]]))) > 2.5:
            continue
        x = xc + a * np.cos(th) * np.cos(t) - b * np.sin(th) * np.sin(t)
        y = yc + a * np.sin(th) * np.cos(t) + b * np.cos(th) * np.sin(t)
        xy = np.column_stack([x, y])
        mod = EllipseModel()
        mon.close("ellipse points", mod.predict_xy(t, params=(
            xc, yc, a, b, th)), xy, rtol=1e-10, floor=1e-12)
        mon.ok("ellipse found", mod.estimate(xy) is True)
        p = mod.params
        mon.close("ellipse centre", p[:2], [xc, yc], rtol=1e-4, atol=1e-4)
        mon.close("ellipse axes", sorted(p[2:4])[::-1], [a, b], rtol=1e-4,
                  atol=1e-4)
        ang = p[4] if p[2] >= p[3] else p[4] + np.pi / 2
        d = (ang - th + np.pi / 2) % np.pi - np.pi / 2
        mon.close("ellipse angle", d, 0., atol=2e-3)
        mon.close("fitted points lie on it", mod.residuals(xy),
                  np.zeros(n), atol=1e-3)
        # the distance of other points is the shortest to the curve
        g = np.linspace(0, 2 * np.pi, 20001)
        ex = xc + a * np.cos(th) * np.cos(g) - b * np.sin(th) * np.sin(g)
        ey = yc + a * np.sin(th) * np.cos(g) + b * np.cos(th) * np.sin(g)
        # outside, where the nearest point is unique
        r = rng.uniform(1.1, 2., 5)
        i = rng.integers(0, 20000, 5)
        o = np.column_stack([xc + (ex[i] - xc) * r, yc + (ey[i] - yc) * r])
        want = [np.hypot(ex - q[0], ey - q[1]).min() for q in o]
        mon.close("distance to the ellipse", mod.residuals(o), want,
                  rtol=1e-2, atol=2e-3)
        mod.estimate_stderrs(xy, niters=10)
        mon.ok("errors of an exact ellipse", np.all(
            np.abs(mod.param_errs[:4]) < 1e-2), observed=mod.param_errs)
        nz = xy + .03 * a * rng.standard_normal(xy.shape)
        m2 = EllipseModel()
        if n > 25 and m2.estimate(nz):
            np.random.seed(int(rng.integers(10**6)))
            m2.estimate_stderrs(nz, niters=40, alpha=.95)
            w = m2.param_errs.copy()
            mon.ok("errors of a noisy ellipse", np.all(w[:4] > 0) and
                   np.all(w[:4] < a), observed=w)
            mon.ok("interval order", np.all(
                m2.percentiles[0] <= m2.percentiles[1]),
                observed=m2.percentiles)
            mon.close("errors are half the interval", w,
                      (m2.percentiles[1] - m2.percentiles[0]) / 2)
            for al in (-.1, 1.):
                mon.raises("confidence out of range", ValueError,
                   lambda: m2.estimate_stderrs(nz, alpha=al))
    mon.raises("errors before a fit", Exception,
                   lambda: EllipseModel().estimate_stderrs(xy))


def odr_chi2(x, y, sx, sy, m, c):
    return np.sum((y - m * x - c)**2 / (sy**2 + m**2 * sx**2))


def f_line(sc, mon):
    from turbustat.statistics.fitting_utils import leastsq_linear
    rng = gen.rng_of(sc["name"], sc["seed"])
    for _ in range(3):
        n = int(rng.integers(4, 40))
        m, c = float(rng.normal(0, 2)), float(rng.normal(0, 3))
        x = np.sort(rng.uniform(-3, 3, n))
        sx = rng.uniform(.01, .1, n)
        sy = rng.uniform(.01, .1, n)
        p, e = leastsq_linear(x, m * x + c, sx, sy)
        mon.close("exact line", p, [m, c], rtol=1e-6, atol=1e-6)
        mon.close("exact line errors", e, [0, 0], atol=1e-5)
        X = x + sx * rng.standard_normal(n)
        Y = m * x + c + sy * rng.standard_normal(n)
        if np.ptp(X) < 1:
            continue
        p, e = leastsq_linear(X, Y, sx, sy)
        best = odr_chi2(X, Y, sx, sy, *p)
        worst = np.inf
        for dm, dc in ((1e-3, 0), (-1e-3, 0), (0, 1e-3), (0, -1e-3),
                       (1e-3, 1e-3), (-1e-3, -1e-3), (1e-3, -1e-3),
                       (-1e-3, 1e-3)):
            worst = min(worst, odr_chi2(X, Y, sx, sy, p[0] + dm, p[1] + dc))
        mon.ok("least orthogonal distance", worst >= best - 1e-6 * best,
               observed=best, near=worst)
        # errors scale with the scatter about the line
        s2 = best / (n - 2)
        w = 1 / (sy**2 + p[0]**2 * sx**2)
        D = w.sum() * (w * X**2).sum() - (w * X).sum()**2
        mon.close("line errors", e, [np.sqrt(s2 * w.sum() / D),
                                     np.sqrt(s2 * (w * X**2).sum() / D)],
                  rtol=.3)
        k = float(rng.uniform(3, 30))
        p2, e2 = leastsq_linear(X, Y, k * sx, k * sy)
        mon.close("common factor in the errors", p2, p, rtol=1e-4, atol=1e-5)
        p3, e3 = leastsq_linear(X, Y * k, sx, k * sy)
        mon.close("rescaled ordinate", p3, p * k, rtol=1e-4, atol=1e-5)


def f_bayes(sc, mon):
    from turbustat.statistics.fitting_utils import bayes_linear
    rng = gen.rng_of(sc["name"], sc["seed"])
    n = int(rng.integers(12, 30))
    m, c = float(rng.uniform(.3, 2)), float(rng.normal(0, .5))
    x = np.linspace(-1.5, 2, n)
    sx, sy = rng.uniform(.1, .2, n), rng.uniform(.15, .3, n)
    X = x + sx * rng.standard_normal(n)
    Y = m * x + c + sy * rng.standard_normal(n)
    np.random.seed(sc["seed"] + 5)
    ci = [5., 95.] if sc["seed"] % 2 else [15.9, 84.1]
    p, e, s = bayes_linear(X, Y, sx, sy, nWalkers=12, nBurn=300, nSample=600,
                           conf_interval=ci, return_samples=True)
    mon.ok("sample count", s.shape == (2, 12 * 600), observed=s.shape)
    mon.close("median of the samples", p, np.median(s, axis=1))
    mon.close("interval of the samples", e, np.percentile(s, ci, axis=1).T)
    # posterior on a grid
    th = np.linspace(0, np.pi / 2, 242)[1:-1]
    bb = np.linspace(p[1] - 1.5, p[1] + 1.5, 241)
    T, B = np.meshgrid(th, bb, indexing="ij")
    lp = np.zeros(T.shape)
    for i in range(n):
        S = np.sin(T)**2 * sx[i]**2 + np.cos(T)**2 * sy[i]**2
        D = (np.cos(T) * Y[i] - np.sin(T) * X[i] - B * np.cos(T))**2
        lp -= .5 * D / S + .5 * np.log(S)
    P = np.exp(lp - lp.max())
    P /= P.sum()
    for k, (ax, g) in enumerate(((1, np.tan(th)), (0, bb))):
        q = np.cumsum(P.sum(axis=ax))
        want = np.interp([.01 * ci[0], .5, .01 * ci[1]], q, g)
        sd = want[2] - want[0]
        mon.close("posterior quantiles", [e[k, 0], p[k], e[k, 1]], want,
                  rtol=0, atol=.3 * sd, which=k)
    np.random.seed(sc["seed"] + 5)
    out = bayes_linear(X, Y, sx, sy, nWalkers=12, nBurn=300, nSample=600,
                       conf_interval=ci)
    mon.ok("only parameters and interval", len(out) == 2)
    mon.close("repeats for the generator's seed", out[0], p)


def f_limits(sc, mon):
    from turbustat.statistics.fitting_utils import check_fit_limits, clip_func
    rng = gen.rng_of(sc["name"], sc["seed"])
    a = rng.standard_normal(40)
    a[::7] = np.nan
    lo, hi = sorted(rng.choice(a[np.isfinite(a)], 2, replace=False))
    want = np.array([bool(lo < v <= hi) for v in a])
    mon.ok("selected points", np.array_equal(clip_func(a, lo, hi), want),
           observed=want.sum())
    l, h = 2.5 * u.pix, 7 * u.pix
    L, H = check_fit_limits(l, h)
    mon.close("same limits twice", [L[0].value, L[1].value, H[0].value,
                                    H[1].value], [2.5, 2.5, 7, 7])
    L, H = check_fit_limits(None, None)
    mon.ok("no limits", list(L) == [None, None] and list(H) == [None, None])
    L, H = check_fit_limits([1, 2] * u.deg, [5, 6] * u.deg)
    mon.close("own limits", [L.to(u.deg).value, H.to(u.deg).value],
              [[1, 2], [5, 6]])
    for n in (1, 3, 4):
        q = np.arange(n) * u.pix
        mon.raises("wrong number of lower limits", ValueError,
                   lambda: check_fit_limits(q, None))
        mon.raises("wrong number of upper limits", ValueError,
                   lambda: check_fit_limits(None, q))


def f_boot(sc, mon):
    import statsmodels.api as sm
    from turbustat.statistics.fitting_utils import residual_bootstrap
    rng = gen.rng_of(sc["name"], sc["seed"])
    n = int(rng.integers(8, 50))
    x = np.sort(rng.uniform(-2, 2, n))
    w = np.exp(rng.uniform(0, sc["spread"], n))
    y = 3 - 2 * x + .1 * rng.standard_normal(n) / np.sqrt(w)
    X = sm.add_constant(x)
    if sc["spread"]:
        fit = sm.WLS(y, X, weights=w).fit()
    else:
        fit = sm.OLS(y, X).fit()
        w = np.ones(n)
    Z = X * np.sqrt(w)[:, None]
    r = np.sqrt(w) * (y - X @ fit.params)
    cov = np.var(r) * np.linalg.inv(Z.T @ Z)
    nb = 1200
    s = residual_bootstrap(fit, nboot=nb, seed=sc["seed"], return_samps=True)
    e = residual_bootstrap(fit, nboot=nb, seed=sc["seed"])
    mon.ok("one parameter set for each resampling", s.shape == (nb, 2),
           observed=s.shape)
    mon.close("error is the spread", e, s.std(axis=0), rtol=1e-10)
    mon.close("spread of the resampled fits", e, np.sqrt(np.diag(cov)),
              rtol=.2, weighted=bool(sc["spread"]))
    c = np.cov(s.T)[0, 1]
    mon.close("correlation of the resampled fits",
              c / np.sqrt(np.prod(np.diag(cov))),
              cov[0, 1] / np.sqrt(np.prod(np.diag(cov))), rtol=0, atol=.25)
    # the resampling is about the fit
    m = np.linalg.solve(Z.T @ Z, Z.T @ np.full(n, r.mean()))
    mon.close("mean of the resampled fits", s.mean(axis=0), fit.params + m,
              rtol=0, atol=6 * np.sqrt(np.diag(cov) / nb).max())
    # every residual is drawn: make one stand out at either end
    for j in (0, n - 1, n // 2):
        y2 = 3 - 2 * x
        y2 = y2 + 0.
        y2[j] += 1.
        f2 = sm.OLS(y2, X).fit()
        v = np.var(f2.resid) * np.linalg.inv(X.T @ X)
        e2 = residual_bootstrap(f2, nboot=nb, seed=sc["seed"] + 1)
        mon.close("every residual is drawn", e2, np.sqrt(np.diag(v)),
                  rtol=.25, which=["first", "last", "middle"][
                      [0, n - 1, n // 2].index(j)])


FNS = {"normalise": f_normalise, "metrics": f_metrics, "bins": f_bins,
       "scale": f_scale, "shift": f_shift, "pad": f_pad,
       "ellipse": f_ellipse, "line": f_line, "bayes": f_bayes,
       "limits": f_limits, "boot": f_boot, "blob": f_blob}

COUNT = {"normalise": 12, "metrics": 8, "bins": 12, "scale": 6, "shift": 14,
         "pad": 6, "ellipse": 12, "line": 10, "bayes": 4, "limits": 4,
         "boot": 12, "blob": 2}


def scenarios(tier, seed):
    out = []
    k = {"quick": 1, "thorough": 12}[tier]
    for fn, c in COUNT.items():
        for i in range(c * k):
            sc = dict(name="%s-%d" % (fn, i), fn=fn, seed=seed * 1000 + i)
            if fn == "boot":
                sc["spread"] = [0, 1, 3, 6][i % 4]
            out.append(sc)
    return out
