"""P09: segmented-line fits and the velocity-spectrum fit."""
import numpy as np
import astropy.units as u
from ..core import plain
from .. import gen

ID = "P09"
RULE = ("One evaluation = one fitted quantity of a (broken) line compared "
        "with the line it was made from or with an independent least-squares "
        "solution; distinct = different (clause, value).")


def ols(X, y, w=None):
    w = np.ones(len(y)) if w is None else w
    Xw, yw = X * np.sqrt(w)[:, None], y * np.sqrt(w)
    b, _, rank, _ = np.linalg.lstsq(Xw, yw, rcond=None)
    r = yw - Xw.dot(b)
    cov = np.linalg.pinv(Xw.T.dot(Xw)) * (r**2).sum() / (len(y) - X.shape[1])
    return b, np.sqrt(np.diag(cov)), (r**2).sum(), rank


def design(x, b):
    U = np.where(x > b, x - b, 0.)
    V = np.where(x < b, 0., -1.)
    return np.vstack([np.ones_like(x), x, U, V]).T


def consistent(mon, tag, x, y, brk, slopes, errs, w=None):
    """Reported slopes/errors are the least-squares ones at that break."""
    slopes = np.atleast_1d(slopes)
    if slopes.size == 1:
        b, e, ss, rank = ols(np.vstack([np.ones_like(x), x]).T, y, w)
        want, we = [b[1]], [e[1]]
    else:
        b, e, ss, rank = ols(design(x, brk), y, w)
        if rank < 4:
            mon.skip("degenerate break position")
            return
        want = [b[1], b[1] + b[2]]
        we = [e[1], np.sqrt(e[1]**2 + e[2]**2)]
    sc = 1e-6 * (1 + np.abs(want).max())
    mon.close(tag + "-slopes", slopes, want, rtol=1e-5, atol=sc)
    if errs is not None:
        mon.close(tag + "-slope-errors", np.atleast_1d(errs), we, rtol=1e-4,
                  atol=sc)


def broken(mon, tag, x, y, brk, slopes, errs, brk_err, w=None, boot=False):
    """A two-segment answer (everything in log10): slopes, their errors and
    the error of the break follow from least squares at the reported break."""
    n = len(x)
    w = np.ones(n) if w is None else w
    X = design(x, brk)
    Xw, yw = X * np.sqrt(w)[:, None], y * np.sqrt(w)
    b, _, rank, sv = np.linalg.lstsq(Xw, yw, rcond=None)
    if rank < 4 or sv[-1] < 1e-5 * sv[0] or n < 6 or \
            min((x < brk).sum(), (x > brk).sum()) < 3:
        mon.skip("degenerate break position")
        return
    r = yw - Xw.dot(b)
    c = np.linalg.inv(Xw.T.dot(Xw))
    c = c * (np.var(r) if boot else (r**2).sum() / (n - 4))
    sc = 1e-6 * (1 + np.abs(b[1:3]).max())
    mon.close(tag + "-slopes", slopes, [b[1], b[1] + b[2]], rtol=1e-5,
              atol=sc)
    if boot:
        we = np.sqrt([c[1, 1], c[1, 1] + c[2, 2] + 2 * c[1, 2]])
    else:
        we = np.sqrt([c[1, 1], c[1, 1] + c[2, 2]])
    q = b[3] / b[2]
    be = np.sqrt(c[3, 3] + c[2, 2] * q**2 - 2 * q * c[2, 3]) / abs(b[2])
    tol = dict(rtol=.25, atol=1e-9) if boot else dict(rtol=1e-4, atol=sc)
    t = tag + ("-bootstrap" if boot else "")
    mon.close(t + "-slope-errors", errs, we, **tol)
    if brk_err is not None and np.sqrt(c[2, 2]) < .25 * abs(b[2]):
        mon.close(t + "-break-error", brk_err, be, **tol)


def grid(rng, kind, n):
    if kind == "lin":
        return np.linspace(-3., 0., n)
    if kind == "log":
        return np.log10(np.linspace(0.002, 0.5, n))
    return np.sort(rng.uniform(-3, 0, n))


def model_values(mon, tag, m, rng):
    """The evaluated model is the reported lines, wherever it is evaluated."""
    p = m.params
    s = np.atleast_1d(m.slopes)
    for k in (np.sort(rng.uniform(-3.5, .5, 40)),
              np.sort(rng.uniform(m.brk, m.brk + 1, 5)),
              np.sort(rng.uniform(m.brk - 1, m.brk, 5)),
              np.array([m.brk + .7]), np.array([m.brk - .7])):
        want = p[0] + s[0] * k
        if s.size > 1:
            want = want + (s[1] - s[0]) * np.clip(k - m.brk, 0, None)
        mon.close(tag + "-model", m.model(k), want, rtol=1e-9, atol=1e-9)


def f_exact(sc, mon):
    from turbustat.statistics import Lm_Seg
    rng = gen.rng_of(sc["name"], sc["seed"])
    for it in range(sc["n"]):
        n = int(rng.integers(30, 150))
        x = grid(rng, ["lin", "log"][it % 2], n)
        lo, hi = np.percentile(x, [15, 85])
        b = float(rng.uniform(lo, hi))
        s1 = float(rng.uniform(-4, 4))
        s2 = s1 + float(rng.choice([-1, 1]) * rng.uniform(.5, 4))
        g = float(np.clip(b + rng.uniform(-.3, .3), lo, hi))
        y = float(rng.uniform(-5, 5)) + np.where(x < b, s1 * (x - b),
                                                 s2 * (x - b))
        w = None
        if it % 3 == 2:
            w = rng.uniform(0.5, 2., n)
        if it % 4 == 3:           # unsorted input
            p = rng.permutation(n)
            x, y = x[p], y[p]
            w = None if w is None else w[p]
        m = Lm_Seg(x, y, g, weights=w)
        m.fit_model(verbose=False, h_step=1.0)
        if not mon.ok("exact-break-found", len(m.slopes) == 2,
                      observed=m.slopes):
            continue
        mon.close("exact-break", m.brk, b, rtol=0, atol=1e-6)
        mon.close("exact-slopes", m.slopes, [s1, s2], rtol=1e-6, atol=1e-6)
        d = Lm_Seg(x, y, g, weights=w)
        d.fit_model(verbose=False)
        xs = np.sort(x)
        i = np.searchsorted(xs, b)
        dx = max(xs[i] - xs[i - 1], xs[i + 1] - xs[i],
                 xs[i - 1] - xs[i - 2])
        if mon.ok("default-break-found", len(d.slopes) == 2,
                  observed=d.slopes):
            # the default (double) step leaves the break within the sampling
            mon.ok("default-break", abs(d.brk - b) < 8 * dx,
                   observed=float(d.brk), want=b, spacing=dx)
            mon.close("default-slopes", d.slopes, [s1, s2], rtol=0,
                      atol=0.15 * abs(s2 - s1))
            consistent(mon, "default", d.x, d.y, d.brk, d.slopes,
                       d.slope_errs, w)
        # evaluated model has the reported slopes, is continuous and fits
        xx = np.linspace(-2.9, -0.1, 4001)
        yy = m.model(xx)
        a = xx < m.brk - .002
        c = xx > m.brk + .002
        if a.sum() > 3:
            mon.close("model-left-slope", np.polyfit(xx[a], yy[a], 1)[0],
                      m.slopes[0], rtol=1e-5, atol=1e-6)
        if c.sum() > 3:
            mon.close("model-right-slope", np.polyfit(xx[c], yy[c], 1)[0],
                      m.slopes[1], rtol=1e-5, atol=1e-6)
        model_values(mon, "exact", m, rng)
        want = np.where(xx < b, s1 * (xx - b), s2 * (xx - b))
        off = yy - want
        mon.ok("model-values", np.ptp(off) < 0.01 + 0.002 * abs(s2 - s1),
               observed=yy, spread=float(np.ptp(off)))
        par = m.params
        mon.close("params-last-is-break", par[-1], m.brk)
        mon.ok("params-count", par.size == 5 and m.param_errs.size == 5,
               observed=par.size)


def f_weak(sc, mon):
    """A slight bend is still a bend."""
    from turbustat.statistics import Lm_Seg
    rng = gen.rng_of(sc["name"], sc["seed"])
    for it in range(sc["n"]):
        n = int(rng.integers(30, 150))
        x = grid(rng, ["lin", "log"][it % 2], n)
        lo, hi = np.percentile(x, [25, 75])
        b = float(rng.uniform(lo, hi))
        s1 = float(rng.uniform(-4, 4))
        c = float(rng.choice([-1, 1]) * 10**rng.uniform(-2.5, -.3))
        y = float(rng.uniform(-5, 5)) + s1 * (x - b) + np.where(
            x < b, 0, c * (x - b))
        g = float(b + rng.uniform(-.1, .1))
        m = Lm_Seg(x, y, g)
        m.fit_model(verbose=False)
        if not mon.ok("weak-break-found", np.size(m.slopes) == 2,
                      observed=m.slopes, contrast=c):
            continue
        mon.ok("weak-break", abs(m.brk - b) < .25, observed=float(m.brk),
               want=b)
        mon.close("weak-slopes", m.slopes, [s1, s1 + c], rtol=0,
                  atol=.2 * abs(c))


def f_noisy(sc, mon):
    from turbustat.statistics import Lm_Seg
    rng = gen.rng_of(sc["name"], sc["seed"])
    for it in range(sc["n"]):
        n = int(rng.integers(60, 200))
        x = grid(rng, ["lin", "log", "rand"][it % 3], n)
        lo, hi = np.percentile(x, [20, 80])
        b = float(rng.uniform(lo, hi))
        s1 = float(rng.uniform(-3, 3))
        ds = float(rng.choice([-1, 1]) * rng.uniform(1.5, 4))
        sig = float(rng.choice([0.01, 0.03]))
        y = np.where(x < b, s1 * (x - b), (s1 + ds) * (x - b)) + \
            sig * rng.standard_normal(n)
        w = None if it % 2 else rng.uniform(0.5, 3., n)
        nanat = None
        if it % 4 >= 2:
            nanat = rng.choice(n, 4, replace=False)
            y[nanat[:2]] = np.nan
            x = x.copy()
            y[nanat[2:]] = np.inf
        g = float(np.clip(b + rng.uniform(-.25, .25), lo, hi))
        m = Lm_Seg(x, y, g, weights=w)
        m.fit_model(verbose=False)
        ok = np.isfinite(y)
        mon.ok("noisy-points-used", m.x.size == ok.sum(), observed=m.x.size)
        if not mon.ok("noisy-break-found", len(m.slopes) == 2,
                      observed=m.slopes):
            continue
        if np.size(m.slopes) == 2:
            broken(mon, "noisy-errors", x[ok], y[ok], m.brk, m.slopes,
                   m.slope_errs, m.brk_err, None if w is None else w[ok])
        consistent(mon, "noisy", x[ok], y[ok], m.brk, m.slopes, m.slope_errs,
                   None if w is None else w[ok])
        xs = np.sort(x)
        mon.ok("noisy-break", abs(m.brk - b) < 8 * sig + 5 * np.median(
            np.diff(xs[np.argsort(np.abs(xs - b))[:9]].copy()[
                np.argsort(xs[np.argsort(np.abs(xs - b))[:9]])])),
            observed=float(m.brk), want=b)
        mon.ok("noisy-errors", np.all(m.slope_errs >= 0) and
               (m.brk_err >= 0 or np.isnan(m.brk_err)),
               observed=m.slope_errs)


def f_line(sc, mon):
    """No break in the data: the single-line slope comes back."""
    from turbustat.statistics import Lm_Seg
    rng = gen.rng_of(sc["name"], sc["seed"])
    for it in range(sc["n"]):
        n = int(rng.integers(20, 120))
        x = grid(rng, ["lin", "log", "rand"][it % 3], n)
        s = float(rng.uniform(-4, 4))
        sig = 0.02
        y = s * x + 1. + sig * rng.standard_normal(n)
        g = float(rng.uniform(*np.percentile(x, [20, 80])))
        m = Lm_Seg(x, y, g)
        m.fit_model(verbose=False)
        consistent(mon, "line", x, y, m.brk, m.slopes, m.slope_errs)
        model_values(mon, "line", m, rng)
        r = y - (ols(np.vstack([np.ones_like(x), x]).T, y)[0] *
                 np.vstack([np.ones_like(x), x]).T).sum(1)
        mon.ok("line-fit-not-worse",
               (m.fit.resid**2).sum() <= (r**2).sum() * (1 + 1e-9),
               observed=float((m.fit.resid**2).sum()), line=float((r**2).sum()))


def f_reject(sc, mon):
    from turbustat.statistics import Lm_Seg
    x = np.linspace(0., 1., 30)
    y = 2 * x
    for b in (1.5, -0.5, np.nan, np.inf):
        mon.raises("rejects-break", ValueError, Lm_Seg, x, y, b)
    mon.raises("rejects-few", Warning, Lm_Seg, x[:3], y[:3], 0.02)
    yy = y.copy()
    yy[2:-1] = np.nan
    mon.raises("rejects-few-finite", Warning, Lm_Seg, x, yy, 0.5)
    mon.raises("rejects-weight-size", ValueError, Lm_Seg, x, y, .5,
               np.ones(29))
    w = np.ones(30)
    w[3] = np.nan
    mon.raises("rejects-weight-nan", ValueError, Lm_Seg, x, y, .5, w)


def spectrum_cube(rng, shape, power):
    """Cube whose velocity power is exactly `power(|k|)` per channel mode."""
    nz = shape[0]
    k = np.abs(np.fft.fftfreq(nz))
    f = np.fft.fft(rng.standard_normal(shape), axis=0)
    f /= np.abs(f)
    p = np.zeros(nz)
    p[1:] = power(k[1:])
    return np.fft.ifft(f * np.sqrt(p)[:, None, None], axis=0).real


def f_vcs(sc, mon):
    from turbustat.statistics import VCS
    rng = gen.rng_of(sc["name"], sc["seed"])
    nz = int(rng.integers(80, 160))
    shape = (nz, 7, 9)
    k0 = float(rng.uniform(0.08, 0.2))
    p1 = float(rng.uniform(0.5, 2.5))
    p2 = p1 + float(rng.uniform(1.5, 4.))
    amp = 10 ** float(rng.uniform(-3, 5))
    cube = spectrum_cube(rng, shape, lambda k: amp * np.where(
        k < k0, (k / k0)**-p1, (k / k0)**-p2))
    dv = float(rng.choice([50., -100., 400.]))
    hdr = gen.header3d(shape, dv=dv)
    o = {}
    lo, hi = 0.98 / nz, 1.0
    if sc["cuts"]:
        lo, hi = float(rng.uniform(0.015, 0.03)), float(rng.uniform(.4, .48))
        if sc["cunit"] == "pix":
            o = dict(low_cut=lo / u.pix, high_cut=hi / u.pix)
        else:
            a = abs(dv) / 1000.
            o = dict(low_cut=lo / a / (u.km / u.s),
                     high_cut=hi / a / (u.km / u.s))
    if sc["guess"] == "log":
        o["breaks"] = np.log10(k0 * float(rng.uniform(.85, 1.15)))
    elif sc["guess"] == "lin":
        o["breaks"] = k0 * float(rng.uniform(.85, 1.15))
        o["log_break"] = False
    v = VCS(cube, header=hdr)
    if sc["via"] == "run":
        v.run(**o)
    else:
        v.compute_pspec()
        v.fit_pspec(**o)
    f = plain(v.freqs)
    sel = np.zeros(nz, bool)
    sel[1:nz // 2] = True
    sel &= (f > lo) & (f <= hi)
    x, y = np.log10(f[sel]), np.log10(v.ps1D[sel])
    mon.close("velocity-fit-points", np.sort(v.fit.x), np.sort(x))
    consistent(mon, "velocity", x, y, v.brk, v.slope, v.slope_err)
    if sc["guess"] != "none":
        if mon.ok("velocity-break-found", np.size(v.slope) == 2,
                  observed=v.slope):
            mon.close("velocity-break", 10**v.brk, k0, rtol=0.12)
            mon.close("velocity-slopes", v.slope, [-p1, -p2], rtol=.05,
                      atol=.1)
    else:
        # the found break does not depend on how given ones would be read
        v3 = VCS(cube.copy(), header=hdr)
        v3.run(log_break=False, **o)
        mon.close("velocity-found-break", np.atleast_1d(v3.slope),
                  np.atleast_1d(v.slope))
    # scaling does not matter
    v2 = VCS(cube * 7.5, header=hdr).run(**o) if sc["via"] == "run" else None
    if v2 is not None:
        mon.close("velocity-scale-free", v2.slope, v.slope, rtol=1e-5,
                  atol=1e-5)


def f_vcs_any(sc, mon):
    """Arbitrary cubes and guesses: a finite answer every time."""
    from turbustat.statistics import VCS
    rng = gen.rng_of(sc["name"], sc["seed"])
    shape = (int(rng.integers(20, 70)), 8, 9)
    cube = gen.cube(rng, shape, sc["kind"])
    cube = gen.punch(rng, cube, sc["nan"])
    v = VCS(cube, header=gen.header3d(shape))
    kw = {}
    if sc["guess"] == "given":
        f = plain(v.freqs)[1:shape[0] // 2]
        kw["breaks"] = float(rng.uniform(np.log10(f.min() * 1.01),
                                         np.log10(f.max() * .99)))
    v.run(**kw)
    mon.ok("velocity-answer", np.size(v.slope) in (1, 2) and
           np.all(np.isfinite(v.slope)) and
           np.size(v.slope_err) == np.size(v.slope), observed=v.slope)
    nz = shape[0]
    f = plain(v.freqs)
    sel = np.zeros(nz, bool)
    sel[1:nz // 2] = True
    sel &= f > 0.98 / nz
    consistent(mon, "velocity-any", np.log10(f[sel]), np.log10(v.ps1D[sel]),
               v.brk, v.slope, v.slope_err)
    if sc["guess"] == "given":
        v.fit_pspec(bootstrap=True, nboot=400, **kw)
        e = np.asarray(v.slope_err)
        mon.ok("velocity-bootstrap-errors", e.shape == np.shape(v.slope) and
               np.all(np.isfinite(e)) and np.all(e >= 0), observed=e)
        if e.size == 2:
            broken(mon, "velocity-any", np.log10(f[sel]),
                   np.log10(v.ps1D[sel]), v.brk, v.slope, e, v.brk_err,
                   boot=True)


FNS = {"weak": f_weak, "exact": f_exact, "noisy": f_noisy, "line": f_line,
       "reject": f_reject, "vcs": f_vcs, "vcs_any": f_vcs_any}


def scenarios(tier, seed):
    k = 2 if tier == "quick" else 16
    out = [dict(name="reject", fn="reject", seed=seed)]
    for i in range(8 * k):
        out.append(dict(name="exact-%d" % i, fn="exact", seed=seed, n=12))
        out.append(dict(name="noisy-%d" % i, fn="noisy", seed=seed, n=12))
        out.append(dict(name="line-%d" % i, fn="line", seed=seed, n=12))
        out.append(dict(name="weak-%d" % i, fn="weak", seed=seed, n=12))
    for guess in ("none", "log", "lin"):
        for cuts in ("no", "pix", "vel"):
            for via in ("run", "steps"):
                for j in range(k):
                    out.append(dict(name="vcs-%s-%s-%s-%d" % (
                        guess, cuts, via, j), fn="vcs", seed=seed,
                        guess=guess, cuts=cuts != "no", cunit=cuts, via=via))
    n = 0
    for guess in ("none", "given"):
        for kind in ("lines", "clean", "white", "offset", "positive"):
            for j in range(3 * k):
                out.append(dict(name="vcsany-%s-%s-%d" % (guess, kind, j),
                                fn="vcs_any", seed=seed, guess=guess,
                                kind=kind, nan=gen.NAN_PATTERNS[n % 7]))
                n += 1
    return out
