"""P19: Tsallis increments, histograms and fits."""
import numpy as np
import astropy.units as u
from .. import gen

ID = "P19"
RULE = ("One evaluation = an increment map, histogram, fit result or table "
        "compared with directly formed increments, counted bins or an "
        "independent least-squares fit, or with the results of a transformed "
        "image; distinct = different (clause, content).")


def increments(img, lag, periodic):
    ny, nx = img.shape
    tot = np.zeros(img.shape)
    yy, xx = np.mgrid[:ny, :nx]
    for dy, dx in ((lag, 0), (-lag, 0), (0, lag), (0, -lag)):
        a, b = yy + dy, xx + dx
        if periodic:
            tot += img[a % ny, b % nx]
        else:
            ok = (a >= 0) & (a < ny) & (b >= 0) & (b < nx)
            v = np.zeros(img.shape)
            v[ok] = img[a[ok], b[ok]]
            tot += v
    d = tot / 4. - img
    g = np.isfinite(d)
    m = d[g].mean()
    return (d - m) / np.sqrt(((d[g] - m)**2).mean())


def model(x, p):
    a, w, q = p
    return -(np.log10(1 + (q - 1) * x**2 / w) + a) / (q - 1)


def counted(mon, clause, dist, arr, n):
    v = arr[np.isfinite(arr)]
    e = np.linspace(v.min(), v.max(), n + 1)
    mid = (e[1:] + e[:-1]) / 2.
    mon.close(clause + "-bins", dist[0], mid, rtol=1e-8, floor=1e-9)
    idx = np.clip(np.floor((v - e[0]) / (e[-1] - e[0]) * n), 0, n - 1)
    cnt = np.bincount(idx.astype(int), minlength=n).astype(float)
    amb = (np.abs((v - e[0]) / (e[-1] - e[0]) * n % 1. - .5) > .5 - 1e-9)
    slack = int(amb.sum())
    got = 10**np.asarray(dist[1], float) * v.size
    mon.ok(clause, (np.abs(got - cnt) <= slack + 1e-6 * v.size).all() and
           np.array_equal(got == 0, cnt == 0) | (slack > 2),
           observed=np.round(got, 6), want=cnt, slack=slack)
    mon.ok(clause + "-total", abs(got.sum() - v.size) < 1e-6 * v.size,
           observed=got.sum() / v.size)


def fit_checks(mon, x, y, params, stderr):
    from scipy.optimize import least_squares
    ok = np.isfinite(x) & np.isfinite(y)
    x, y = x[ok], y[ok]
    with np.errstate(all="ignore"):
        r = model(x, params) - y
    if not np.isfinite(r).all():
        mon.skip("fit left the domain of the function")
        return
    if params[2] < 1.02:
        # the function is singular at q = 1 (a Gaussian); the search stops
        # there for distributions with thinner tails
        mon.skip("q at the Gaussian limit")
        return
    rss = (r**2).sum()

    def res(p):
        with np.errstate(all="ignore"):
            v = model(x, p) - y
        return np.where(np.isfinite(v), v, 1e3)
    own = least_squares(res, (-y.max(), 1., 2.), method="lm",
                        max_nfev=5000)
    if own.x[2] > 1.02:
        mon.ok("fit-optimal", rss <= 2 * own.cost * (1 + 1e-3) + 1e-12,
               observed=rss, independent=2 * own.cost)
    best = least_squares(res, params, method="lm", max_nfev=5000)
    mon.ok("fit-minimum", rss <= 2 * best.cost * (1 + 1e-4) + 1e-12,
           observed=rss, refined=2 * best.cost)
    if np.isfinite(stderr).all() and x.size > 3:
        h = 1e-5 * np.maximum(np.abs(params), 1e-3)
        J = np.array([(model(x, params + h * d) - model(x, params - h * d)) /
                      (2 * h[i]) for i, d in enumerate(np.eye(3))]).T
        JJ = J.T @ J
        if np.isfinite(JJ).all() and np.linalg.cond(JJ) < 1e9:
            want = np.sqrt(np.diag(np.linalg.inv(JJ)) * rss / (x.size - 3))
            mon.close("fit-stderr", stderr, want, rtol=2e-2)


def f_image(sc, mon):
    from turbustat.statistics import Tsallis
    rng = gen.rng_of(sc["name"], sc["seed"])
    shape = tuple(sc["shape"])
    img = gen.punch(rng, gen.image(rng, shape, sc["kind"]), sc["nan"])
    pix = 10**rng.uniform(-4, -2)
    D = float(rng.uniform(50, 900))
    hdr = gen.header2d(shape, pix=pix)
    half = min(shape) // 2
    if sc["lags"] == "default":
        ints = [2**i for i in range(int(np.floor(np.log2(min(shape) / 2.)))
                                    + 1)]
        lags = None
    else:
        n = int(rng.integers(2, min(5, half - 1)))
        ints = sorted(rng.choice(np.arange(1, half + 1), n, replace=False)
                      .tolist())
        f = np.array(ints, float)
        if sc["frac"]:
            f = f + rng.uniform(0.05, 0.95, n)
        lags = {"pix": f * u.pix, "deg": f * pix * u.deg,
                "arcmin": (f * pix * u.deg).to(u.arcmin),
                "pc": f * np.deg2rad(pix) * D * u.pc}[sc["lags"]]
    t = Tsallis((img.copy(), hdr), lags=lags, distance=D * u.pc)
    if lags is None:
        mon.close("default-lags", t.lags.to(u.pix).value,
                  np.array(ints, float))
    per = sc["periodic"]
    nb = sc["nbins"]
    want = [increments(img, k, per) for k in ints]
    t.make_tsallis(periodic=per, num_bins=nb)
    n = nb if nb else int(np.ceil(np.sqrt(np.isfinite(img).sum())))
    for i in range(len(ints)):
        mon.close("increments", t.lag_arrays[i], want[i], rtol=1e-8,
                  floor=1e-9, lag=ints[i])
        counted(mon, "histogram", t.lag_distribs[i], t.lag_arrays[i], n)
    if sc["fit"]:
        try:
            t.fit_tsallis(sigma_clip=sc["clip"])
        except (RuntimeError, TypeError, ValueError) as e:
            mon.skip("no convergence: %s" % type(e).__name__)
            return
        for i in range(len(ints)):
            x, y = t.lag_distribs[i]
            if sc["clip"] and np.abs(x[np.isfinite(y)]).max() >= sc["clip"]:
                mon.skip("clipped tail")   # see known finding TSALLIS-CLIP
                continue
            fit_checks(mon, x, y, t.tsallis_params[i], t.tsallis_stderrs[i])
        tab = t.tsallis_table
        mon.close("table-params", np.array([tab["logA"], tab["w2"], tab["q"]]),
                  t.tsallis_params.T, rtol=1e-12)
        mon.close("table-errors", np.array([
            tab["logA_stderr"], tab["w2_stderr"], tab["q_stderr"]]),
            t.tsallis_stderrs.T, rtol=1e-12)
        mon.close("table-lags", np.asarray(tab["lags"], float), t.lags.value,
                  rtol=1e-12)
        u2 = Tsallis((img.copy(), hdr), lags=lags, distance=D * u.pc)
        u2.run(periodic=per, num_bins=nb, sigma_clip=sc["clip"])
        mon.close("run-params", u2.tsallis_params, t.tsallis_params,
                  rtol=1e-10)


def f_meta(sc, mon):
    from turbustat.statistics import Tsallis
    rng = gen.rng_of(sc["name"], sc["seed"])
    shape = tuple(sc["shape"])
    img = gen.punch(rng, gen.plaw2d(rng, shape, 2.8), sc["nan"])
    per = sc["periodic"]
    lags = [1, 2, 5] * u.pix

    def run(a):
        t = Tsallis((a, gen.header2d(a.shape)), lags=lags)
        t.make_tsallis(periodic=per, num_bins=25)
        return t
    b = run(img)
    c, f = float(rng.uniform(-5, 5)), gen.factor(rng)
    tests = [("scale", img * f, lambda a: a, 1),
             ("negate", -img, lambda a: a, -1),
             ("flipud", img[::-1].copy(), lambda a: a[::-1], 1),
             ("fliplr", img[:, ::-1].copy(), lambda a: a[:, ::-1], 1),
             ("transpose", img.T.copy(), lambda a: a.T, 1)]
    if per:
        s = (int(rng.integers(1, shape[0])), int(rng.integers(1, shape[1])))
        tests += [("constant", img + c, lambda a: a, 1),
                  ("roll", np.roll(img, s, (0, 1)),
                   lambda a: np.roll(a, s, (0, 1)), 1)]
    for nm, a, op, sg in tests:
        g = run(a)
        for i in range(3):
            mon.close(nm, g.lag_arrays[i], sg * op(b.lag_arrays[i]),
                      rtol=1e-7, floor=1e-8)
    for i in range(3):
        a = b.lag_arrays[i]
        mon.close("standard", np.array([np.nanmean(a), np.nanstd(a)]),
                  np.array([0., 1.]), atol=1e-9)
    b.make_tsallis(periodic=not per, num_bins=11)
    b.make_tsallis(periodic=per, num_bins=25)
    g = run(img)
    mon.close("rerun", b.lag_distribs, g.lag_distribs, rtol=1e-12)


def f_recover(sc, mon):
    from turbustat.statistics import Tsallis
    from turbustat.statistics.tsallis import tsallis as T
    rng = gen.rng_of(sc["name"], sc["seed"])
    shape = (24, 24)
    t = Tsallis((gen.plaw2d(rng, shape, 3.), gen.header2d(shape)),
                lags=[1, 2, 3] * u.pix)
    t.make_tsallis(num_bins=40)
    true = []
    d = np.empty((3, 2, 40))
    for i in range(3):
        d[i, 0] = np.linspace(-4.5, 4.5, 40)
        p = (2., 1., 1.2)
        while model(d[i, 0], p).min() < -4.9:
            p = (rng.uniform(0.5, 2.), rng.uniform(0.3, 2.),
                 rng.uniform(1.3, 2.4))
        d[i, 1] = model(d[i, 0], p)
        if hasattr(T, "tsallis_function"):
            mon.close("function", T.tsallis_function(d[i, 0], *p), d[i, 1],
                      rtol=1e-9)
        if i == 2:
            d[i, 1, rng.choice(40, 4, replace=False)] = -np.inf
        true.append(p)
    t._lag_distribs = d
    if not np.array_equal(t.lag_distribs, d):
        mon.skip("cannot inject distributions")
        return
    t.fit_tsallis(sigma_clip=sc["clip"])
    mon.close("recovered", t.tsallis_params, np.array(true), rtol=1e-4)


def f_clip(sc, mon):
    """Values beyond the clip must not influence the fit."""
    from turbustat.statistics import Tsallis
    rng = gen.rng_of("clip")
    t = Tsallis((gen.plaw2d(rng, (24, 24), 3.), gen.header2d((24, 24))),
                lags=[1] * u.pix)
    t.make_tsallis(num_bins=40)
    d = np.empty((1, 2, 40))
    d[0, 0] = np.linspace(-7., 7., 40)
    p = (1.2, 0.8, 1.8)
    d[0, 1] = model(d[0, 0], p)
    far = np.abs(d[0, 0]) > 5
    d[0, 1, far] += 0.5
    t._lag_distribs = d
    if not np.array_equal(t.lag_distribs, d):
        mon.skip("cannot inject distributions")
        return
    t.fit_tsallis(sigma_clip=5)
    mon.close("clipped-tail", t.tsallis_params[0], np.array(p), rtol=1e-3)


def f_reject(sc, mon):
    from turbustat.statistics import Tsallis
    rng = gen.rng_of(sc["name"], sc["seed"])
    shape = tuple(sc["shape"])
    d = (gen.plaw2d(rng, shape, 3.), gen.header2d(shape, pix=1e-3))
    mon.raises("no-unit", TypeError, Tsallis, d, lags=[1, 2])
    mon.raises("small", ValueError, Tsallis, d, lags=[0.5, 2] * u.pix)
    mon.raises("large", ValueError, Tsallis, d,
               lags=[1, min(shape) // 2 + 1] * u.pix)
    mon.raises("large-deg", ValueError, Tsallis, d,
               lags=[1, min(shape) // 2 + 1.5] * u.deg * 1e-3)
    mon.raises("unit", Exception, Tsallis, d, lags=[1, 2] * u.K)
    mon.raises("no-distance", Exception, Tsallis, d, lags=[1, 2] * u.pc)
    t = Tsallis(d)
    mon.raises("fit-first", Exception, t.fit_tsallis)


FNS = {"image": f_image, "meta": f_meta, "recover": f_recover,
       "clip": f_clip, "reject": f_reject}


def scenarios(tier, seed):
    out = []
    k = 4 if tier == "quick" else 8
    rng = gen.rng_of("p19", seed)
    kinds = [x for x in gen.IMAGE_KINDS if x != "sparse"]
    for i in range(90 * k):
        out.append(dict(name="image-%d" % i, fn="image", seed=seed,
                        shape=gen.shapes2d(rng, 12, 56),
                        kind=kinds[i % len(kinds)],
                        nan=gen.NAN_PATTERNS[(i // 2) % 7],
                        lags=["default", "pix", "deg", "arcmin", "pc"][i % 5],
                        frac=bool(rng.integers(2)), periodic=bool(i % 3),
                        nbins=[None, 20, 53][int(rng.integers(3))],
                        fit=bool(i % 2), clip=[5, None, 20][i % 3]))
        if out[-1]["frac"]:
            out[-1]["shape"] = tuple(x + 4 for x in out[-1]["shape"])
    for i in range(20 * k):
        out.append(dict(name="meta-%d" % i, fn="meta", seed=seed,
                        shape=gen.shapes2d(rng, 14, 40),
                        nan=gen.NAN_PATTERNS[i % 7], periodic=bool(i % 3)))
    for i in range(12 * k):
        out.append(dict(name="recover-%d" % i, fn="recover", seed=seed,
                        clip=[5, None][i % 2]))
    out.append(dict(name="sigma-clip", fn="clip", seed=seed))
    for i in range(3 * k):
        out.append(dict(name="reject-%d" % i, fn="reject", seed=seed,
                        shape=gen.shapes2d(rng, 12, 30)))
    return out
