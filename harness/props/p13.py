"""P13: spectral correlation function against direct pairwise correlation."""
import numpy as np
import astropy.units as u
from ..core import plain
from .. import gen
from .p07 import radii, groups, check_profile, edges_for
from .p08 import wls, surface_errors, ellip_model

ID = "P13"
RULE = ("One evaluation = one correlation surface, spectrum, fit or distance "
        "compared with direct pairwise sums over spectra, an independent "
        "regression, or the surface of a transformed cube; distinct = "
        "different (clause, content).")


def shift_axis(a, s, axis):
    """a(i - s) along one periodic axis; trigonometric between samples."""
    if float(s).is_integer():
        return np.roll(a, int(s), axis)
    miss = ~np.isfinite(a)
    out = trig(np.where(miss, 0., a), s, axis)
    m = trig(miss.astype(float), s, axis)
    return np.where(m > .5, np.nan, out)


def trig(a, s, axis):
    n = a.shape[axis]
    m = np.arange(n)
    m = np.where(m < (n + 1) // 2, m, m - n)
    k = np.arange(n)
    # response of the periodic interpolator to a unit sample, shifted by s
    K = np.array([[np.sum(np.cos(2 * np.pi * m * (i - j - s) / n)) / n
                   for j in range(n)] for i in k])
    return np.moveaxis(np.tensordot(K, a, axes=(1, axis)), 0, axis)


def corr(d, t):
    diff = d - t
    ok = np.isfinite(diff)
    num = np.where(ok, diff**2, 0.).sum(0)
    den = np.where(ok, d**2 + t**2, 0.).sum(0)
    good = den > 0
    return 1 - np.sqrt(np.mean(num[good] / den[good]))


def surface(cube, lags):
    out = np.empty((len(lags),) * 2)
    for i, a in enumerate(lags):
        t1 = shift_axis(cube, a, 1)
        for j, b in enumerate(lags):
            out[j, i] = corr(cube, shift_axis(t1, b, 2))
    return out


def mk(sc, rng):
    shape = tuple(sc["shape"])
    c = gen.punch(rng, gen.cube(rng, shape, sc["kind"]), sc["nan"])
    if sc.get("part"):
        c[rng.uniform(size=shape) < .04] = np.nan
    return c


def f_surface(sc, mon):
    from turbustat.statistics import SCF
    rng = gen.rng_of(sc["name"], sc["seed"])
    c = mk(sc, rng)
    shape = c.shape
    pix = 10**rng.uniform(-4, -2)
    hdr = gen.header3d(shape, pix=pix)
    h = int(rng.integers(1, min(4, min(shape[1:]) // 2 - 1)))
    kind = sc["lagkind"]
    if kind == "size":
        lags = np.arange(-h, h + 1).astype(float)
        o = dict(size=2 * h + 1 + int(rng.integers(2)))
    else:
        step = {"int": 2., "frac": float(rng.uniform(.4, 1.8)),
                "deg": float(rng.uniform(.4, 1.8)), "pc": 1.3}[kind]
        lags = np.arange(-h, h + 1) * step
        q = {"int": lags, "frac": lags * u.pix, "deg": lags * pix * u.deg,
             "pc": lags * np.deg2rad(pix) * 250 * u.pc}[kind]
        o = dict(roll_lags=q, distance=250 * u.pc)
    s = SCF(c.copy(), header=hdr, **o)
    if sc["via"] == "run" and h >= 3 and kind != "int" and \
            sc["kind"] in ("clean", "lines", "positive"):
        s.run(show_progress=False, fit_2D=False)
    else:
        s.compute_surface(show_progress=False)
    want = surface(c, lags)
    tol = 1e-7 if kind in ("size", "int", "frac") else 1e-5
    mon.close("surface", s.scf_surface, want, rtol=0, atol=tol,
              lags=kind, nan=sc["nan"])
    mon.ok("zero-lag-one", s.scf_surface[h, h] == 1., observed=float(
        s.scf_surface[h, h]))
    if kind in ("size", "int"):
        mon.close("opposite-lags", s.scf_surface[::-1, ::-1], s.scf_surface,
                  rtol=0, atol=1e-9)
        if np.nanmin(c) >= 0:
            mon.ok("range", np.all(s.scf_surface >= -1e-12) and
                   np.all(s.scf_surface <= 1), observed=s.scf_surface)
    mon.ok("never-above-one", np.all(s.scf_surface <= 1))
    mon.ok("surface-size", s.scf_surface.shape == (2 * h + 1,) * 2)


def f_sym(sc, mon):
    from turbustat.statistics import SCF
    rng = gen.rng_of(sc["name"], sc["seed"])
    c = mk(sc, rng)
    size = 5
    b = sc["boundary"]

    def run(x):
        s = SCF(x.copy(), header=gen.header3d(x.shape), size=size)
        s.compute_surface(show_progress=False, boundary=b)
        return s.scf_surface
    if not np.isnan(c).any():
        # lags of parts of pixels
        t = float(rng.uniform(.2, .9))
        lags = np.array([-1 - t, -t, 0, t, 1 + t]) * u.pix

        def part(x):
            s = SCF(x.copy(), header=gen.header3d(x.shape), roll_lags=lags)
            s.compute_surface(show_progress=False, boundary=b)
            return s.scf_surface
        pb = part(c)
        mon.close("transpose-part", part(c.transpose(0, 2, 1)), pb.T, rtol=0,
                  atol=1e-9)
        mon.close("channel-order-part", part(c[rng.permutation(c.shape[0])]),
                  pb, rtol=0, atol=1e-9)
    base = run(c)
    f = gen.factor(rng)
    mon.close("factor", run(c * f), base, rtol=0, atol=1e-8)
    mon.close("negated", run(-c), base, rtol=0, atol=1e-10)
    mon.close("channel-order", run(c[rng.permutation(c.shape[0])]), base,
              rtol=0, atol=1e-9)
    mon.close("transpose", run(c.transpose(0, 2, 1)), base.T, rtol=0,
              atol=1e-9)
    mon.close("sky-rotated", run(c[:, ::-1, ::-1]), base[::-1, ::-1], rtol=0,
              atol=1e-9)
    mon.ok("centre-one", base[2, 2] == 1)
    if b == "continuous":
        sh = (int(rng.integers(c.shape[1])), int(rng.integers(c.shape[2])))
        mon.close("sky-shift", run(np.roll(c, sh, (1, 2))), base, rtol=0,
                  atol=1e-9)
        x = np.concatenate([c, np.full((2,) + c.shape[1:], np.nan)])
        mon.close("missing-channels", run(x), base, rtol=0, atol=1e-9)
        mon.close("empty-channels", run(np.concatenate(
            [np.where(np.isnan(c), np.nan, c),
             np.zeros((2,) + c.shape[1:])])), base, rtol=0, atol=1e-9) \
            if not np.isnan(c).any() else None
    else:
        # either the overlapping pairs, or the recorded finding SCF-CUT
        lg = np.arange(-2, 3)
        mon.ok("cut-surface", any(
            np.allclose(base, cut_surface(c, lg, form), rtol=0, atol=1e-9)
            for form in ("overlap", "finding")), observed=base)
    one = np.ones(c.shape)
    mon.close("identical-spectra", run(one), np.ones((5, 5)), rtol=0,
              atol=1e-12)
    mon.close("boundary-word", np.array(
        [SCF_named(c, "".join(list(b)), size)]), np.array([base]), rtol=0,
        atol=1e-12)


def SCF_named(c, b, size):
    from turbustat.statistics import SCF
    s = SCF(c.copy(), header=gen.header3d(c.shape), size=size)
    s.compute_surface(show_progress=False, boundary=b)
    return s.scf_surface


def cut_surface(c, lags, form):
    def part(a, n, moved):
        # indices of the kept part of the cube / of its shifted copy
        if form == "overlap" or not moved:
            return slice(a, None) if a >= 0 else slice(None, n + a)
        return slice(None, n - a) if a >= 0 else slice(-a, None)
    out = np.empty((len(lags),) * 2)
    for i, a in enumerate(lags):
        for j, b in enumerate(lags):
            t = np.roll(c, (a, b), (1, 2))
            out[j, i] = corr(
                c[:, part(a, c.shape[1], False), part(b, c.shape[2], False)],
                t[:, part(a, c.shape[1], True), part(b, c.shape[2], True)])
    return out


def f_cut(sc, mon):
    """Truncated edges: only pairs whose both members are in the cube."""
    from turbustat.statistics import SCF
    rng = np.random.default_rng(5)
    c = rng.gamma(1.5, 1., (6, 12, 14))
    s = SCF(c, header=gen.header3d(c.shape), size=3)
    s.compute_surface(boundary="cut", show_progress=False)
    got = s.scf_surface
    want = corr(c[:, 1:, :], c[:, :-1, :])
    if np.allclose(got[1, 2], want, atol=1e-9):
        mon.close("cut-pairs", got[1, 2], want)
        return
    known = corr(c[:, 1:, :], np.roll(c, 1, 1)[:, :-1, :])
    if np.isclose(got[1, 2], known, atol=1e-9):
        mon.ok("cut-pairs", False, observed=float(got[1, 2]), want=want,
               why="pairs are taken at twice the lag")
    else:
        mon.ok("cut-pairs-other", False, observed=float(got[1, 2]), want=want)


def f_spectrum(sc, mon):
    from turbustat.statistics import SCF
    rng = gen.rng_of(sc["name"], sc["seed"])
    c = mk(sc, rng)
    pix = 10**rng.uniform(-4, -2)
    size = int(rng.choice([7, 9, 11]))
    step = [1., 1., 1.5][int(rng.integers(3))]
    unit = sc["unit"]
    lg = np.arange(-(size // 2), size // 2 + 1) * step
    q = {"pix": lg * u.pix, "deg": lg * pix * u.deg,
         "pc": lg * np.deg2rad(pix) * 250 * u.pc}[unit]
    s = SCF(c, header=gen.header3d(c.shape, pix=pix), roll_lags=q,
            distance=250 * u.pc)
    rk = {}
    if sc["j"] % 3 == 1:
        rk = dict(binsize=float(rng.choice([.8, 1.5])))
    if sc["j"] % 3 == 2:
        rk = dict(nbins=int(rng.integers(4, 7)))
    fk = {}
    o = {}
    lo = hi = None
    if sc["cuts"]:
        lo, hi = 1.21 * step, (size // 2 + .93) * step
        f = {"pix": u.pix, "deg": pix * u.deg,
             "pc": np.deg2rad(pix) * 250 * u.pc}[unit]
        o = dict(xlow=lo * f, xhigh=hi * f)
    s.run(show_progress=False, radialavg_kwargs=dict(rk), fit_2D=False,
          fit_kwargs=fk, **o)
    e = edges_for((size, size), dict(rk, logspacing=False), freqs=False)
    gr = groups(radii((size, size), False), s.scf_surface, e)
    check_profile(mon, "spectrum", s.scf_spectrum, s.scf_spectrum_stddev, gr)
    cen = (e[1:] + e[:-1]) / 2.
    lags = s.lags
    got = {"pix": lambda: lags.value,
           "deg": lambda: lags.to(u.deg).value / pix,
           "pc": lambda: lags.to(u.pc).value / np.deg2rad(pix) / 250}[unit]()
    mon.close("lags", got, cen * step, rtol=1e-6)
    x, y, sd = cen * step, s.scf_spectrum, s.scf_spectrum_stddev
    m = np.ones(len(x), bool)
    if lo is not None:
        m = (x >= lo) & (x <= hi)
    bad = ~np.isfinite(y) | ~np.isfinite(sd) | (sd < 1e-9) | (y <= 0)
    if (bad & m).any() or m.sum() < 3:
        mon.skip("undefined points in the fit")
        return
    b, c0, se = wls(np.log10(x[m]), np.log10(y[m]), sd[m]**-2)
    mon.close("slope", s.slope, b, rtol=1e-5, atol=1e-9)
    if m.sum() > 3:
        mon.close("slope-error", s.slope_err, se, rtol=1e-4, atol=1e-9)
    mon.close("model", s.fitted_model(lags), 10**(c0 + b * np.log10(x)),
              rtol=1e-5)
    lim = (s.xlow, s.xhigh)
    mon.ok("limits-stored", lim[0] < lim[1], observed=str(lim))
    mon.raises("limits-without-unit", TypeError, s.fit_plaw, xlow=2.)
    mon.raises("limits-remove-all", ValueError, s.fit_plaw, xlow=500 * u.pix)


def f_fit2d(sc, mon):
    from turbustat.statistics import SCF
    rng = gen.rng_of(sc["name"], sc["seed"])
    size = 15
    c = gen.cube(rng, (6, 24, 24), "clean")
    s = SCF(c, header=gen.header3d(c.shape), size=size)
    s.run(show_progress=False, fit_2D=False)
    q = float(rng.uniform(.35, .9))
    th = float(rng.uniform(.1, np.pi - .1))
    p = -float(rng.uniform(.1, 1.))
    g = np.arange(size) - size // 2
    y, x = np.meshgrid(g, g, indexing="ij")
    # p-law in the elliptical radius: long axis at angle th from +x to +row
    a = x * np.cos(th) + y * np.sin(th)
    b = -x * np.sin(th) + y * np.cos(th)
    with np.errstate(all="ignore"):
        surf = 0.9 * ((q * a)**2 + b**2)**(p / 2)
    surf[size // 2, size // 2] = 1.
    s._scf_surface = surf
    if s.scf_surface is not surf:
        mon.skip("surface cannot be injected")
        return
    kw = {}
    if sc["j"] % 2:
        kw = dict(xlow=1.3 * u.pix, xhigh=6.2 * u.pix)
    s.fit_2Dplaw(bootstrap=False, **kw)
    if min(abs(s.theta2D), abs(s.theta2D - np.pi)) < 1e-6:
        mon.skip("the minimiser stopped at the edge of the angles")
        return
    mon.close("2d-slope", s.slope2D, p, rtol=1e-3, atol=1e-4)
    mon.close("2d-ellipticity", s.ellip2D, q, rtol=1e-3)
    dt = (s.theta2D - th + np.pi / 2) % np.pi - np.pi / 2
    mon.ok("2d-angle", abs(dt) < 1e-2, observed=float(s.theta2D), want=th)
    mon.ok("2d-ranges", 0 < s.ellip2D <= 1 and 0 <= s.theta2D < np.pi,
           observed=[float(s.ellip2D), float(s.theta2D)])
    # with scatter: the reported errors
    s._scf_surface = surf * 10**(.02 * rng.standard_normal(surf.shape))
    s.fit_2Dplaw(bootstrap=False, xlow=.01 * u.pix, xhigh=1000 * u.pix)
    m = np.hypot(y, x) > 0
    surface_errors(mon, s, x[m].astype(float), -y[m].astype(float),
                   np.log10(s.scf_surface[m]))
    # limited to a wedge, whatever lies beside it
    t0, dt = float(rng.uniform(-np.pi, np.pi)), float(rng.uniform(1.2, 2.2))
    d = np.abs((np.arctan2(y, x) - t0 + np.pi / 2) % np.pi - np.pi / 2)
    s._scf_surface = np.where((d > dt / 2 + 1e-6) & (np.hypot(y, x) > 2),
                              .2 * surf, surf)
    s.compute_spectrum(theta_0=t0 * u.rad, delta_theta=dt * u.rad)
    s._slope = p
    s.fit_2Dplaw(bootstrap=False, xlow=.01 * u.pix, xhigh=1000 * u.pix,
                 use_azimmask=True)
    m = m & ((d < dt / 2 - 1e-6) & (np.hypot(y, x) > 2))
    rest = np.log10(s.scf_surface[m]) - np.asarray(
        s.fit2D(x[m].astype(float), -y[m].astype(float)))
    mon.ok("2d-wedge", np.abs(rest).max() < 1e-2, observed=rest,
           theta=t0, width=dt)


def f_fit2d_limits(sc, mon):
    """The limits of the surface fit are lags, whatever the binning of the
    one-dimensional spectrum."""
    from turbustat.statistics import SCF
    from scipy.optimize import least_squares
    rng = np.random.default_rng(8)
    size = 15
    c = rng.gamma(1.5, 1., (6, 20, 20))
    s = SCF(c, header=gen.header3d(c.shape), size=size)
    s.run(show_progress=False, fit_2D=False, radialavg_kwargs=dict(nbins=14))
    g = np.arange(size) - size // 2
    y, x = np.meshgrid(g, g, indexing="ij")
    r = np.hypot(y, x)
    p = [-.05, .4, .8, -.3]
    lo, hi = 1.3, 4.4
    with np.errstate(all="ignore"):
        surf = 10**ellip_model(p, x, -y)
    surf = np.where((r > lo) & (r <= hi), surf, .6 * surf)
    surf[size // 2, size // 2] = 1.
    s._scf_surface = surf
    if s.scf_surface is not surf:
        mon.skip("surface cannot be injected")
        return
    s.fit_2Dplaw(bootstrap=False, xlow=lo * u.pix, xhigh=hi * u.pix)
    if abs(s.slope2D - p[3]) < .01:
        mon.close("2d-limits", s.slope2D, p[3], rtol=0, atol=.01)
        return
    # known: distances measured in steps of the spectrum's bins
    step = np.diff(s.lags.value)[0]
    m = (r * step > lo) & (r * step <= hi)
    v = np.log10(surf[m])
    mine = np.sum((v - np.asarray(s.fit2D(x[m], -y[m])))**2)
    best = 2 * least_squares(
        lambda t: v - ellip_model(t, x[m], -y[m]),
        [float(t) for t in s.fit2D.parameters]).cost
    if mine <= best * 1.01 + 1e-9:
        mon.ok("2d-limits", False, observed=float(s.slope2D), want=p[3],
               why="limits are applied in steps of the spectrum's bins")
    else:
        mon.ok("2d-limits-other", False, observed=float(s.slope2D),
               rss=[mine, best])


def f_distance(sc, mon):
    from turbustat.statistics import SCF, SCF_Distance
    rng = gen.rng_of(sc["name"], sc["seed"])
    sh = [tuple(v) for v in sc["shapes"]]
    c1, c2 = gen.cube(rng, sh[0], "lines"), gen.cube(rng, sh[1], "positive")
    pix = 1 / 3600.
    scale = sc["scale"]
    h1, h2 = gen.header3d(sh[0], pix=pix), gen.header3d(sh[1], pix=pix * scale)
    size = sc["size"]
    kw = dict(size=size, show_progress=False)
    n = size - 1 + size % 2
    lg = np.arange(n) - n // 2
    l1, l2 = (lg * scale, lg) if scale > 1 else (lg, lg / scale)
    d = SCF_Distance((c1, h1), (c2, h2), **kw)
    s1, s2 = surface(c1, l1), surface(c2, l2)
    mon.close("distance-surface-1", d.scf1.scf_surface, s1, rtol=0, atol=1e-5)
    mon.close("distance-surface-2", d.scf2.scf_surface, s2, rtol=0, atol=1e-5)
    r = np.hypot(lg[:, None], lg[None, :])
    w = np.where(r == 0, 1., 1. / np.where(r == 0, 1., r))
    for wt in (True, False):
        ww = w if wt else np.ones_like(w)
        want = np.sqrt(np.sum(ww * (s1 - s2)**2) / ww.sum())
        d.distance_metric(weighted=wt)
        mon.close("distance-%s" % ("weighted" if wt else "plain"), d.distance,
                  want, rtol=1e-4)
    if scale != 1:
        return
    d.distance_metric()

    def st(c, h, n, run=True):
        s = SCF(c, header=h, size=n)
        return s.run(show_progress=False, fit_2D=False) if run else s
    d2 = SCF_Distance(st(c1, h1, n), st(c2, h2, n), **kw).distance_metric()
    mon.close("precomputed", d2.distance, d.distance, rtol=1e-9)
    d2 = SCF_Distance(st(c1, h1, n), (c2, h2), **kw).distance_metric()
    mon.close("precomputed-first", d2.distance, d.distance, rtol=1e-9)
    d2 = SCF_Distance((c1, h1), st(c2, h2, n), **kw).distance_metric()
    mon.close("precomputed-second", d2.distance, d.distance, rtol=1e-9)
    d2 = SCF_Distance(st(c1, h1, n, False), st(c2, h2, n, False), size=11,
                      show_progress=False).distance_metric()
    mon.close("not-yet-computed", d2.distance, d.distance, rtol=1e-9)


def f_reject(sc, mon):
    from turbustat.statistics import SCF
    rng = gen.rng_of(sc["name"], sc["seed"])
    c = gen.cube(rng, (6, 12, 12), "lines")
    h = gen.header3d(c.shape)
    mon.raises("bad-boundary", ValueError, SCF(c, header=h).compute_surface,
               boundary="reflect", show_progress=False)
    mon.raises("bad-lag-unit", Exception, SCF, c, header=h,
               roll_lags=np.arange(-2, 3) * u.K)
    mon.raises("physical-without-distance", Exception, SCF, c, header=h,
               roll_lags=np.arange(-2, 3) * u.pc)
    mon.raises("lags-list", Exception, SCF, c, header=h,
               roll_lags=[-1, 0, 1])


FNS = dict(surface=f_surface, sym=f_sym, cut=f_cut, spectrum=f_spectrum,
           fit2d_limits=f_fit2d_limits, fit2d=f_fit2d, distance=f_distance, reject=f_reject)


def scenarios(tier, seed):
    rng = gen.rng_of("P13", seed, tier)
    k = 5 if tier == "quick" else 14
    out = [dict(name="reject", fn="reject", seed=seed),
           dict(name="cut-pairs-12x14", fn="cut", seed=0)]

    def sh(lo=8, hi=20):
        return gen.grow(rng, rng.integers([4, lo, lo], [14, hi, hi]))
    n = 0
    for lk in ("size", "int", "frac", "deg", "pc"):
        for nan in gen.NAN_PATTERNS:
            for j in range(k):
                out.append(dict(
                    name="surface-%s-%s-%d" % (lk, nan, j), fn="surface",
                    seed=seed, lagkind=lk, nan=nan, shape=sh(),
                    part=bool(rng.integers(3) == 0 and nan != "none"),
                    kind=["clean", "positive", "lines", "offset", "white"][
                        n % 5], via=["run", "steps"][int(rng.integers(2))]))
                n += 1
    for b in ("continuous", "cut"):
        for j in range(5 * k):
            out.append(dict(name="sym-%s-%d" % (b, j), fn="sym", seed=seed,
                            boundary=b, shape=sh(12, 20),
                            nan=gen.NAN_PATTERNS[j % 7]
                            if b == "continuous" else "none",
                            kind=["clean", "positive", "lines", "white"][
                                j % 4]))
    for j in range(8 * k):
        out.append(dict(name="spectrum-%d" % j, fn="spectrum", seed=seed, j=j,
                        unit=["pix", "deg", "pc"][(j // 3) % 3],
                        cuts=bool((j // 2) % 2), shape=sh(22, 30), nan=[
                            "none", "scatter", "border"][j % 3],
                        kind=["clean", "lines"][j % 2]))
        if j == 0:
            out.append(dict(name="fit2d-limits", fn="fit2d_limits",
                            seed=seed))
        out.append(dict(name="fit2d-%d" % j, fn="fit2d", seed=seed, j=j))
        out.append(dict(name="distance-%d" % j, fn="distance", seed=seed,
                        shapes=[sh(14, 22), sh(14, 22)],
                        scale=[1., 1., 2., .5, 1.5][j % 5],
                        size=[5, 7, 6][j % 3]))
    return out
