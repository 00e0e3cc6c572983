"""P14: PCA against an explicit covariance, eigensolver and line fit."""
import numpy as np
import astropy.units as u
import astropy.constants as const
from .. import gen

ID = "P14"
RULE = ("One evaluation = eigenvalues, component images, autocorrelations, "
        "widths or a fit of one cube compared with an explicit covariance "
        "and eigensolver, an analytic width, or a transformed cube; "
        "distinct = different (clause, content).")


def covariance(c, mean_sub):
    nz = c.shape[0]
    d = c.reshape(nz, -1).astype(float)
    out = np.zeros((nz, nz))
    with np.errstate(all="ignore"):
        mu = np.array([np.mean(r[np.isfinite(r)]) if np.isfinite(r).any()
                       else np.nan for r in d])
    for i in range(nz):
        for j in range(nz):
            a, b = d[i], d[j]
            if mean_sub:
                a, b = a - mu[i], b - mu[j]
            ok = np.isfinite(a) & np.isfinite(b)
            n = ok.sum() - (1 if mean_sub else 0)
            if ok.sum() and n:
                out[i, j] = np.sum(a[ok] * b[ok]) / n
    return out


def mk(sc, rng):
    c = gen.punch(rng, gen.cube(rng, tuple(sc["shape"]), sc["kind"]),
                  sc["nan"])
    return c


def acf(v):
    """Circular autocorrelation, direct sums through the DFT theorem."""
    f = np.abs(np.fft.fftn(v))**2
    return np.fft.ifftn(f).real


def acf_forms(v):
    z = v.copy()
    z[(0,) * v.ndim] = 0.
    return [acf(v), acf(z), acf(v - v.mean())]


def f_decomp(sc, mon):
    from turbustat.statistics import PCA
    rng = gen.rng_of(sc["name"], sc["seed"])
    c = mk(sc, rng)
    if sc["part"]:
        c[rng.uniform(size=c.shape) < .03] = np.nan
    if sc["empty"]:
        c[int(rng.integers(c.shape[0]))] = sc["empty"] if \
            sc["empty"] != "nan" else np.nan
    nz = c.shape[0]
    ms = sc["mean_sub"]
    hdr = gen.header3d(c.shape, dv=float(rng.choice([-300., 50., 1000.])))
    cov = covariance(c, ms)
    ev, vec = np.linalg.eigh(cov)
    ev, vec = ev[::-1], vec[:, ::-1]
    scale = np.abs(ev).max()
    kind = sc["cut"]
    o = {}
    if kind == "all":
        o, want_n = dict(n_eigs=-1), nz
    elif kind == "int":
        want_n = int(rng.integers(1, nz + 1))
        o = dict(n_eigs=want_n)
    elif kind == "value":
        k = int(rng.integers(1, nz))
        m = (ev[k - 1] + ev[k]) / 2
        o = dict(n_eigs="auto", min_eigval=m)
        want_n = int(np.sum(ev >= m))
        if want_n == 0:
            return mon.skip("no eigenvalue above the cut")
    else:
        cum = np.cumsum(ev) / ev.sum()
        k = int(rng.integers(0, nz - 1))
        m = (cum[k] + cum[k + 1]) / 2
        o = dict(n_eigs="auto", min_eigval=m, eigen_cut_method="proportion")
        want_n = max(1, int(np.sum(cum <= m)))
        if abs(cum[k + 1] - cum[k]) < 1e-10:
            return mon.skip("degenerate cut")
    p = PCA((c.copy(), hdr))
    if sc["via"] == "run":
        p.run(show_progress=False, mean_sub=ms, decomp_only=True, **o)
    else:
        p.compute_pca(show_progress=False, mean_sub=ms, **o)
    mon.ok("components-kept", p.n_eigs == want_n, observed=int(p.n_eigs),
           want=want_n, cut=kind)
    mon.close("covariance", p.cov_matrix, cov, rtol=1e-9, floor=1e-11)
    mon.close("eigenvalues", p.eigvals, ev, rtol=1e-7, floor=1e-11)
    mon.ok("decreasing", np.all(np.diff(p.eigvals) <= 1e-12 * scale))
    mon.close("eigenvectors", p.cov_matrix @ p.eigvecs,
              p.eigvecs * p.eigvals[None, :], rtol=0, floor=1e-9)
    mon.close("orthonormal", p.eigvecs.T @ p.eigvecs, np.eye(nz), rtol=0,
              atol=1e-10)
    mon.close("trace", np.sum(p.eigvals), np.trace(cov), rtol=1e-9)
    s0 = 0 if ms else 1
    tot = ev[s0:].sum()
    mon.close("total-variance", p.total_variance, tot, rtol=1e-7,
              atol=1e-12 * scale)
    if tot > 1e-9 * scale:
        mon.close("proportion", p.var_proportion, ev[s0:want_n].sum() / tot,
                  rtol=1e-7, atol=1e-10)
    # component images
    base = c - np.array([np.nanmean(x) if np.isfinite(x).any() else 0.
                         for x in c])[:, None, None] if ms else c
    base = np.nan_to_num(base)
    im = p.eigimages()
    want = np.tensordot(p.eigvecs[:, :want_n].T, base, axes=1)
    mon.ok("image-shape", im.shape == (want_n,) + c.shape[1:],
           observed=list(im.shape))
    mon.close("images", im, want, rtol=1e-8, floor=1e-10)
    n2 = int(rng.integers(1, nz))
    mon.close("images-n", p.eigimages(n_eigs=n2), np.tensordot(
        p.eigvecs[:, :n2].T, base, axes=1), rtol=1e-8, floor=1e-10)
    if not sc["part"] and not sc["empty"]:
        nfin = np.isfinite(c[0]).sum() - (1 if ms else 0)
        mon.close("image-power", np.sum(im**2, (1, 2)) / nfin, ev[:want_n],
                  rtol=1e-6, floor=1e-9)
    valid = np.where(p.eigvals >= 1e-11 * scale)[0]
    m = int(rng.integers(1, min(nz, len(valid)) + 1)) if len(valid) else 0
    if m and len(valid) == nz:
        idx = valid[-m:]
        last = np.tensordot(p.eigvecs[:, idx].T, base, axes=1)
        mon.close("last-images", p.eigimages(n_eigs=-m), last, rtol=1e-7,
                  floor=1e-9)
        ac = np.array([np.fft.fftshift(acf_forms(x)[sc["form"]])
                       for x in last])
        got = p.autocorr_images(n_eigs=-m)
        if got.shape == ac.shape:
            nacf = p.noise_ACF(n_eigs=-m)
            mon.close("noise", nacf, got.mean(0), rtol=1e-8, floor=1e-10)
            mon.ok("noise-peak", nacf[c.shape[1] // 2, c.shape[2] // 2] > 0)
    # the default: the last ten, or all there are
    nn = p.autocorr_images(n_eigs=-10)
    mon.close("noise-default", p.noise_ACF(), nn.mean(0), rtol=1e-8,
              floor=1e-10)
    mon.ok("noise-count", len(nn) <= min(10, nz), observed=len(nn))
    ai = p.autocorr_images(n_eigs=want_n)
    mon.ok("acf-shape", ai.shape == im.shape, observed=list(ai.shape))
    for k in range(min(want_n, 3)):
        forms = [np.fft.fftshift(x) for x in acf_forms(im[k])]
        top = max(np.abs(forms[0]).max(), 1e-300)
        if top < 1e-20 * scale:
            continue
        mon.ok("acf-image", any(np.allclose(ai[k], f, rtol=0, atol=1e-8 * top)
                                for f in forms), observed=ai[k])
    sp = p.autocorr_spec(n_eigs=want_n)
    mon.ok("acf-spec-shape", sp.shape == (nz, want_n),
           observed=list(sp.shape))
    for k in range(min(want_n, 3)):
        mon.ok("acf-spec", any(np.allclose(sp[:, k], f, rtol=0, atol=1e-9)
                               for f in acf_forms(p.eigvecs[:, k])),
               observed=sp[:, k])
    m_ = min(3, want_n)
    last = np.where(p.eigvals >= np.finfo(c.dtype).eps * p.eigvals[0])[0]
    last = last[-m_:]
    sn = p.autocorr_spec(n_eigs=-m_)
    if np.abs(p.eigvals / (np.finfo(c.dtype).eps * p.eigvals[0])
              - 1).min() < .5:
        mon.skip("an eigenvalue at the noise limit")
    elif mon.ok("acf-spec-last-shape", sn.shape == (nz, len(last)),
                observed=list(sn.shape)):
        for j, k in enumerate(last):
            mon.ok("acf-spec-last", any(
                np.allclose(sn[:, j], f, rtol=0, atol=1e-9)
                for f in acf_forms(p.eigvecs[:, k])), observed=sn[:, j])
    # transformations
    f = gen.factor(rng)

    def evs(x):
        q = PCA((x, gen.header3d(x.shape)))
        q.compute_pca(show_progress=False, mean_sub=ms, n_eigs=-1)
        return q.eigvals
    mon.close("factor", evs(c * f), ev * f * f, rtol=1e-7, floor=1e-10)
    sh = c.reshape(nz, -1)[:, rng.permutation(c[0].size)].reshape(c.shape)
    mon.close("sky-shuffle", evs(sh), ev, rtol=1e-7, floor=1e-10)
    mon.close("channel-order", evs(c[rng.permutation(nz)]), ev, rtol=1e-7,
              floor=1e-10)
    mon.close("transposed", evs(c.transpose(0, 2, 1).copy()), ev, rtol=1e-7,
              floor=1e-10)
    if ms:
        mon.close("offset", evs(c + rng.standard_normal(nz)[:, None, None]),
                  ev, rtol=1e-6, floor=1e-9)


def gauss2(shape, sx, sy, th):
    x = np.fft.fftshift(np.fft.fftfreq(shape[0]) * shape[0])
    y = np.fft.fftshift(np.fft.fftfreq(shape[1]) * shape[1])
    X, Y = np.meshgrid(x, y, indexing="ij")
    a = X * np.cos(th) + Y * np.sin(th)
    b = -X * np.sin(th) + Y * np.cos(th)
    return np.exp(-a**2 / (2 * sx**2) - b**2 / (2 * sy**2))


def f_width2(sc, mon):
    from turbustat.statistics.pca.width_estimate import WidthEstimate2D
    rng = gen.rng_of(sc["name"], sc["seed"])
    meth = sc["method"]
    shape = (int(rng.integers(60, 90)), int(rng.integers(60, 90)))
    n = 3
    sig = rng.uniform(*((2.5, 9.) if meth in ("fit", "contour")
                        else (4., 7.)), (n, 2))
    if meth == "interpolate":
        sig[:, 1] = sig[:, 0]
    th = rng.uniform(0, np.pi, n)
    amp = 10**rng.uniform(-3, 4, n)
    z = np.array([amp[i] * gauss2(shape, sig[i, 0], sig[i, 1], th[i])
                  for i in range(n)])
    keep = z.copy()
    tot = np.hypot(sig[:, 0], sig[:, 1])
    tol = {"contour": .02, "fit": .01, "interpolate": .05,
           "xinterpolate": .05}[meth]
    kw = dict(method=meth, brunt_beamcorrect=False)
    w, e = WidthEstimate2D(z, **kw)
    mon.close("images-untouched", z, keep, rtol=0, floor=0)
    mon.ok("width-count", len(w) == n and len(e) == n)
    mon.close("gaussian-width", w, tot, rtol=tol, method=meth)
    w2, _ = WidthEstimate2D(z * 37., **kw)
    mon.close("width-scale-free", w2, w, rtol=2e-3)
    w3, _ = WidthEstimate2D(np.swapaxes(z, 1, 2), **kw)
    mon.close("width-transposed", w3, w, rtol=2e-2)
    w4, _ = WidthEstimate2D(z[::-1], **kw)
    mon.close("width-order", w4[::-1], w, rtol=1e-6)
    # subtracting a noise autocorrelation
    noise = .3 * z[0].max() * gauss2(shape, .05, .05, 0.) + 0.
    w5, _ = WidthEstimate2D(z[:1] + noise, noise_ACF=noise, **kw)
    mon.close("noise-removed", w5, w[:1], rtol=1e-3)
    # beam
    cd = 10**rng.uniform(-4, -1)
    bm = float(rng.uniform(1., 8.))
    wb, eb = WidthEstimate2D(z, method=meth, brunt_beamcorrect=True,
                             beam_fwhm=(bm * cd * u.deg).to(
                                 [u.arcsec, u.deg, u.rad][sc["j"] % 3]),
                             spatial_cdelt=(rng.choice([-1, 1]) * cd *
                                            u.deg).to(u.arcmin))
    corr = .25 * bm / np.sqrt(8 * np.log(2)) / np.sqrt(2)
    if meth != "interpolate":
        sx, sy = sig.min(1) - corr, sig.max(1) - corr
        mon.close("beam-corrected", wb, np.hypot(sx, sy), rtol=2 * tol)
    else:
        mon.close("beam-corrected", wb, w - np.sqrt(2) * corr, rtol=1e-6)
    mon.ok("beam-narrows", np.all(wb < w))
    mon.raises("beam-missing", ValueError, WidthEstimate2D, z, method=meth,
               brunt_beamcorrect=True)
    mon.raises("beam-unit", u.UnitsError, WidthEstimate2D, z, method=meth,
               beam_fwhm=3 * u.pc, spatial_cdelt=1 * u.deg)
    mon.raises("cdelt-unit", u.UnitsError, WidthEstimate2D, z, method=meth,
               beam_fwhm=3 * u.deg, spatial_cdelt=1 * u.pix)
    mon.raises("method-name", ValueError, WidthEstimate2D, z, method="walk",
               brunt_beamcorrect=False)
    if meth == "fit":
        fit2_errors(rng, mon, shape, sig[0], th[0], amp[0])
    elif meth == "contour":
        mon.ok("width-error-positive", np.isfinite(e).all() and (e > 0).all()
               and (e < w).all(), observed=e)
    else:
        mon.close("no-width-error", e, np.zeros(n), atol=1e-12)
    if meth == "contour":
        # the contour about the peak, not a ring further out
        Y, X = np.indices(shape)
        R = np.hypot(Y - shape[0] // 2, X - shape[1] // 2)
        s0 = float(rng.uniform(2.5, 4.5))
        ring = np.exp(-R**2 / (2 * s0**2)) + rng.uniform(.45, .9) * np.exp(
            -(R - rng.uniform(17, 21))**2 / 8.)
        wr, er = WidthEstimate2D(ring[None] * amp[0], **kw)
        mon.close("innermost-contour", wr, [s0 * np.sqrt(2)], rtol=.03)
        # an image whose 1/e contour does not close about the peak
        flat = np.ones(shape)
        flat[0, 0] = 0.
        wn, en = WidthEstimate2D(np.array([flat, z[0]]), **kw)
        mon.ok("no-contour-missing", np.isnan(wn[0]) and np.isfinite(wn[1]),
               observed=wn)


def fit2_errors(rng, mon, shape, sig, th, amp):
    """Formal error of a noisy Gaussian surface, with and without a beam."""
    from turbustat.statistics.pca.width_estimate import WidthEstimate2D
    from scipy.optimize import least_squares
    z = amp * (gauss2(shape, sig[0], sig[1], th) +
               .01 * rng.standard_normal(shape))
    c = tuple(s // 2 for s in shape)
    z[c] = amp * 1.05           # the amplitude is taken from the peak
    yy, xx = np.indices(shape)
    yy, xx = (yy - c[0]).astype(float), (xx - c[1]).astype(float)

    def model(p):
        co, si = np.cos(p[2]), np.sin(p[2])
        a, b = yy * co + xx * si, -yy * si + xx * co
        return (z.max() * np.exp(-.5 * (a / p[0])**2 - .5 * (b / p[1])**2) +
                p[3] * amp)

    def res(p):
        return ((z - model(p)) / amp).ravel()
    best = None
    for t0 in (0.1, 0.9, -0.6):
        r = least_squares(res, [sig.min(), sig.max(), t0, 0.],
                          xtol=1e-12, ftol=1e-12, gtol=1e-12)
        if best is None or r.cost < best.cost:
            best = r
    s2 = 2 * best.cost / (z.size - 4)
    cov = s2 * np.linalg.inv(best.jac.T.dot(best.jac))
    s = np.abs(best.x[:2])
    es = np.sqrt(np.diag(cov)[:2])
    w, e = WidthEstimate2D(z[None], method="fit", brunt_beamcorrect=False)
    mon.close("fit-width", w[0], np.hypot(*s), rtol=2e-3)
    mon.close("fit-width-error", e[0], np.hypot(*(s * es)) / np.hypot(*s),
              rtol=0.05)
    bm = float(rng.uniform(1., 6.))
    wb, eb = WidthEstimate2D(z[None], method="fit", brunt_beamcorrect=True,
                             beam_fwhm=bm * u.arcsec,
                             spatial_cdelt=1 * u.arcsec)
    sb = s - .25 * bm / np.sqrt(8 * np.log(2)) / np.sqrt(2)
    mon.close("fit-beam-width", wb[0], np.hypot(*sb), rtol=2e-3)
    mon.close("fit-beam-width-error", eb[0], np.hypot(*(sb * es)) /
              np.hypot(*sb), rtol=0.05)


def fit1_errors(rng, mon, x, s):
    from turbustat.statistics.pca.width_estimate import WidthEstimate1D
    y = np.exp(-x[:, None]**2 / (2 * s**2)) + 1e-9
    y = y + 4e-3 * rng.standard_normal(y.shape)
    y[0] = 1.
    from scipy.signal import argrelmin
    from scipy.optimize import brentq
    w, e = WidthEstimate1D(y.copy(), method="fit")
    for i in range(s.size):
        m = argrelmin(y[:, i])[0]
        n = m[0] if m.size and m[0] > 1 else x.size
        xf, yf = x[:n], y[:n, i]

        def grad(q):
            g = np.exp(-xf**2 / (2 * q * q))
            return np.sum((yf - g) * g * xf**2 / q**3)
        lo, hi = s[i] * .7, s[i] * 1.4
        if n < 4 or grad(lo) * grad(hi) > 0:
            mon.skip("noise ends the profile early")
            continue
        q = brentq(grad, lo, hi, xtol=1e-12)
        g = np.exp(-xf**2 / (2 * q * q))
        d = g * xf**2 / q**3
        err = np.sqrt(np.sum((yf - g)**2) / (n - 1) / np.sum(d * d))
        mon.close("fit-width", w[i], q * np.sqrt(2), rtol=1e-3)
        mon.close("fit-width-error", e[i], err * np.sqrt(2), rtol=.05)


def f_width1(sc, mon):
    from turbustat.statistics.pca.width_estimate import WidthEstimate1D
    rng = gen.rng_of(sc["name"], sc["seed"])
    meth = sc["method"]
    n = int(rng.integers(80, 141))
    x = np.abs(np.fft.fftfreq(n) * n)
    k = 4
    s = rng.uniform(2., 11., k)
    y = np.exp(-x[:, None]**2 / (2 * s**2))
    if meth != "interpolate":
        y = y * 10**rng.uniform(-2, 2, k)
    w, e = WidthEstimate1D(y.copy(), method=meth)
    mon.ok("width-count", len(w) == k and len(e) == k)
    if meth == "walk-down":
        want = []
        for i in range(k):
            v = y[:, i] / y[:, i].max()
            j = int(np.argmax(v < np.exp(-1)))
            want.append(j - 1 + (v[j - 1] - np.exp(-1)) / (v[j - 1] - v[j]))
        mon.close("first-crossing", w, want, rtol=1e-9)
        mon.close("crossing-error", e, np.full(k, .5), rtol=1e-9)
        z = np.ones((n, 2))
        z[:, 1] = y[:, 0]
        w2, e2 = WidthEstimate1D(z, method=meth)
        mon.ok("never-reached", np.isnan(w2[0]) and np.isnan(e2[0]) and
               np.isclose(w2[1], w[0]), observed=w2)
        # lines of about a channel
        s1 = rng.uniform(.2, 2., 5)
        z = np.exp(-x[:, None]**2 / (2 * s1**2))
        w1, e1 = WidthEstimate1D(z.copy(), method=meth)
        want = []
        for i in range(5):
            j = int(np.argmax(z[:, i] < np.exp(-1)))
            want.append(j - 1 + (z[j - 1, i] - np.exp(-1)) /
                        (z[j - 1, i] - z[j, i]))
        mon.close("first-crossing-narrow", w1, want, rtol=1e-9)
        mon.close("crossing-error", e1, np.full(5, .5), rtol=1e-9)
        # only the first crossing counts
        z = y[:, :1].copy()
        far = (x > 6 * s[0]) & (x < 6 * s[0] + 6)
        z[far] += .9 * z.max()
        w3, _ = WidthEstimate1D(z, method=meth)
        mon.close("first-only", w3[0], w[0], rtol=1e-9)
    else:
        mon.close("gaussian-width", w, s * np.sqrt(2), rtol=.03, method=meth)
        if meth == "fit":
            fit1_errors(rng, mon, x, s)
    mon.raises("method-name", ValueError, WidthEstimate1D, y.copy(),
               method="contour")


def best_line(x, y, sx, sy):
    """Weighted orthogonal line: minimum of the effective chi-square."""
    from scipy.optimize import minimize_scalar

    def at(t):
        b = np.tan(t)
        w = 1 / (sy**2 + b * b * sx**2)
        a = np.sum(w * (y - b * x)) / w.sum()
        return np.sum(w * (y - a - b * x)**2), a, b
    grid = np.linspace(-1.55, 1.55, 2001)
    v = [at(t)[0] for t in grid]
    i = int(np.argmin(v))
    lo, hi = grid[max(i - 1, 0)], grid[min(i + 1, 2000)]
    r = minimize_scalar(lambda t: at(t)[0], bounds=(lo, hi), method="bounded",
                        options=dict(xatol=1e-12))
    _, a, b = at(r.x)
    w = 1 / (sy**2 + b * b * sx**2)
    return b, a


def f_fit(sc, mon):
    from turbustat.statistics import PCA
    rng = gen.rng_of(sc["name"], sc["seed"])
    c = gen.cube(rng, (12, 16, 18), "lines")
    pix = 10**rng.uniform(-4, -2)
    dv = float(rng.choice([-250., 80., 500.]))
    vu = ["m/s", "km/s"][sc["j"] % 2]
    hdr = gen.header3d(c.shape, pix=pix, dv=dv, vunit=vu)
    D = float(rng.uniform(50, 900))
    p = PCA((c, hdr), distance=D * u.pc)
    n = int(rng.integers(8, 16))
    sp = np.sort(rng.uniform(1.5, 40, n))
    b, a = rng.uniform(.4, 2.), rng.uniform(-.4, .4)
    noisy = sc["noise"]
    sv = 10**(a + b * np.log10(sp) + noisy * rng.standard_normal(n))
    esp = sp * rng.uniform(.02, .1, n)
    esv = sv * rng.uniform(.02, .1, n)
    if sc["bad"]:
        k = rng.choice(n, 4, replace=False)
        sp[k[0]] = np.nan
        sv[k[1]] = np.nan
        esp[k[2]] = np.nan
        esv[k[3]] = np.nan
    p._spatial_width, p._spatial_width_error = sp * u.pix, esp * u.pix
    p._spectral_width, p._spectral_width_error = sv * u.pix, esv * u.pix
    try:
        seen = np.allclose(p.spatial_width().value, sp, equal_nan=True) and \
            np.allclose(p.spectral_width().value, sv, equal_nan=True)
    except Exception:
        seen = False
    if not seen:
        return mon.skip("widths cannot be injected")
    lo = hi = None
    if sc["cuts"] in ("low", "both"):
        lo = float(np.nanpercentile(sp, 15)) * 1.0001
    if sc["cuts"] in ("high", "both"):
        hi = float(np.nanpercentile(sp, 85)) * .9999
    un = sc["unit"]
    if un == "pix":
        # limits on a width itself keep that width
        k_ = np.sort(sp[np.isfinite(sp)])
        lo = lo if lo is None else float(k_[1])
        hi = hi if hi is None else float(k_[-2])
    conv = {"pix": lambda v: v * u.pix,
            "deg": lambda v: v * pix * u.deg,
            "arcsec": lambda v: v * pix * 3600 * u.arcsec,
            "pc": lambda v: v * np.deg2rad(pix) * D * u.pc}[un]
    kw = {}
    if lo is not None:
        kw["xlow"] = conv(lo)
    if hi is not None:
        kw["xhigh"] = conv(hi)
    m = np.isfinite(sp) & np.isfinite(sv) & np.isfinite(esp) & \
        np.isfinite(esv)
    with np.errstate(invalid="ignore"):
        m &= (sp >= (lo or 0)) & (sp <= (hi or np.inf))
    if m.sum() < 3:
        return mon.skip("too few")
    p.fit_plaw(**kw)
    x, y = np.log10(sp[m]), np.log10(sv[m])
    sx, sy = .434 * esp[m] / sp[m], .434 * esv[m] / sv[m]
    wb, wa = best_line(x, y, sx, sy)
    # (the package's fit stops at its own tolerance)
    mon.close("slope", p.index, wb, rtol=1e-3, atol=1e-5)
    mon.close("intercept", np.log10(p.intercept().value), wa, rtol=1e-3,
              atol=2e-3)
    if noisy == 0:
        mon.close("exact-line", [p.index, np.log10(p.intercept().value)],
                  [b, a], rtol=1e-5, atol=1e-6)
    lo_, hi_ = p.index_error_range
    mon.ok("error-range", lo_ <= p.index <= hi_, observed=[lo_, hi_])
    mon.close("error-symmetric", p.index - lo_, hi_ - p.index, rtol=1e-6,
              atol=1e-10)
    if noisy:
        import scipy.odr as odr
        o = odr.ODR(odr.RealData(x, y, sx=sx, sy=sy), odr.Model(
            lambda B, t: B[0] * t + B[1]), beta0=[wb, wa]).run()
        mon.close("slope-error", hi_ - p.index, o.sd_beta[0], rtol=1e-2)
        mon.close("intercept-error", np.log10(
            p.intercept_error_range().value), [wa - o.sd_beta[1],
                                               wa + o.sd_beta[1]],
                  rtol=1e-2, atol=2e-2 * o.sd_beta[1])
    mon.close("gamma", p.gamma, 1.52 * p.index - .19, rtol=1e-10)
    mon.close("gamma-range", p.gamma_error_range,
              [1.34 * lo_ - .39, 1.70 * hi_ + .01], rtol=1e-10)
    dvu = abs(dv) * u.Unit(vu)
    mon.close("intercept-velocity", p.intercept(u.km / u.s).value,
              p.intercept().value * dvu.to(u.km / u.s).value, rtol=1e-9)
    xs = np.linspace(0, 1.5, 5)
    mon.close("model", p.model(xs), p.index * xs + np.log10(
        p.intercept().value), rtol=1e-9)
    T = float(rng.uniform(5, 80))
    mu = float(rng.uniform(1., 2.8))
    cs = np.sqrt(const.k_B.value * T / (mu * const.m_p.value)) / \
        dvu.to(u.m / u.s).value
    for g in (True, False):
        ix = p.gamma if g else p.index
        want = (cs / p.intercept().value)**(1. / ix)
        if not 1e-30 < want < 1e30:
            continue
        L, rngL = p.sonic_length(T_k=T * u.K, mu=mu, use_gamma=g)
        mon.close("sonic-length", L.value, want, rtol=1e-7)
        mon.ok("sonic-range", rngL[0] <= L <= rngL[1], observed=rngL.value)
        L2, r2 = p.sonic_length(T_k=T * u.K, mu=mu, use_gamma=g, unit=u.pc)
        f = np.deg2rad(pix) * D
        mon.close("sonic-pc", L2.value, want * f, rtol=1e-7)
        mon.close("sonic-range-pc", r2.value, rngL.value * f, rtol=1e-7)
    mon.raises("limit-without-unit", TypeError, p.fit_plaw, xlow=2.)
    mon.raises("limits-exclude-all", ValueError, p.fit_plaw,
               xlow=1e4 * u.pix)
    mon.raises("fit-method", TypeError, p.fit_plaw, fit_method="ols")
    mon.raises("temperature-unit", u.UnitsError, p.sonic_length,
               T_k=3 * u.m)


def f_widths(sc, mon):
    """Widths stored on the object are those of its own components."""
    from turbustat.statistics import PCA
    from turbustat.statistics.pca.width_estimate import (WidthEstimate1D,
                                                         WidthEstimate2D)
    rng = gen.rng_of(sc["name"], sc["seed"])
    c = gen.punch(rng, gen.cube(rng, tuple(sc["shape"]), "lines"), sc["nan"])
    pix = 10**rng.uniform(-4, -2)
    dv = float(rng.choice([-250., 80., 500.]))
    bm = 3.1 * pix
    hdr = gen.header3d(c.shape, pix=pix, dv=dv, beam=bm if sc["hb"] else None)
    D = float(rng.uniform(50, 900))
    ne = sc["n"]
    p = PCA((c.copy(), hdr), distance=D * u.pc)
    sm, vm = sc["sm"], sc["vm"]
    kw = dict(brunt_beamcorrect=sc["bc"])
    if sc["bc"] and not sc["hb"]:
        kw["beam_fwhm"] = (bm * u.deg).to(u.arcsec)
    if sc["bc"] and not sc["hb"]:
        mon.raises("no-beam", ValueError, p.run, show_progress=False,
                   n_eigs=ne)
    p.compute_pca(show_progress=False, mean_sub=sc["ms"], n_eigs=ne)
    np.random.seed(5)
    p.find_spatial_widths(method=sm, **kw)
    p.find_spectral_widths(method=vm)
    ac = p.autocorr_images(n_eigs=ne)
    noise = np.mean(p.autocorr_images(n_eigs=-10), axis=0)
    np.random.seed(5)
    ws, es = WidthEstimate2D(ac, method=sm, noise_ACF=noise,
                             brunt_beamcorrect=sc["bc"],
                             beam_fwhm=bm * u.deg, spatial_cdelt=pix * u.deg)
    mon.close("spatial", p.spatial_width().value, ws, rtol=1e-6)
    if sm != "contour":
        mon.close("spatial-error", p.spatial_width_error().value, es,
                  rtol=1e-6)
    wv, ev = WidthEstimate1D(p.autocorr_spec(n_eigs=ne).copy(), method=vm)
    mon.close("spectral", p.spectral_width().value, wv, rtol=1e-9)
    mon.close("spectral-error", p.spectral_width_error().value, ev,
              rtol=1e-6)
    mon.ok("counts", p.spatial_width().size == ne and
           p.spectral_width().size == ne)
    mon.close("spatial-deg", p.spatial_width(u.arcmin).value,
              ws * pix * 60, rtol=1e-6)
    mon.close("spatial-pc", p.spatial_width(u.pc).value,
              ws * np.deg2rad(pix) * D, rtol=1e-6)
    mon.close("spectral-velocity", p.spectral_width(u.km / u.s).value,
              wv * abs(dv) / 1e3, rtol=1e-8)
    # the distance may come with the widths
    p = PCA((c.copy(), hdr))
    p.compute_pca(show_progress=False, mean_sub=sc["ms"], n_eigs=ne)
    np.random.seed(5)
    p.find_spatial_widths(method=sm, distance=(D * u.pc).to(u.lyr), **kw)
    mon.close("spatial-pc-later", p.spatial_width(u.pc).value,
              ws * np.deg2rad(pix) * D, rtol=1e-6)
    # spectral widths know nothing of the sky arrangement or the scaling
    q = PCA((c.reshape(len(c), -1)[:, rng.permutation(c[0].size)]
             .reshape(c.shape) * 7.5, hdr))
    q.compute_pca(show_progress=False, mean_sub=sc["ms"], n_eigs=ne)
    q.find_spectral_widths(method=vm)
    gap = -np.diff(p.eigvals[:ne + 1]) / p.eigvals[0]
    if gap.min() > 1e-4:
        mon.close("spectral-sky-shuffle", q.spectral_width().value, wv,
                  rtol=1e-4 if vm == "walk-down" else 2e-2)
    # and the spatial ones nothing of the scaling
    f = gen.factor(rng)
    q = PCA((c * f, hdr))
    q.compute_pca(show_progress=False, mean_sub=sc["ms"], n_eigs=ne)
    q.find_spatial_widths(method=sm, **kw)
    if gap.min() > 1e-4 and p.eigvals[-1] > 1e-11 * p.eigvals[0]:
        mon.close("spatial-factor", q.spatial_width().value, ws, rtol=2e-3)


def f_run(sc, mon):
    from turbustat.statistics import PCA
    rng = gen.rng_of(sc["name"], sc["seed"])
    c = gen.cube(rng, tuple(sc["shape"]), "lines")
    pix = 1e-3
    hdr = gen.header3d(c.shape, pix=pix)
    a = PCA((c.copy(), hdr))
    o = dict(mean_sub=sc["ms"], n_eigs=6)
    np.random.seed(1)
    a.run(show_progress=False, brunt_beamcorrect=False, **o)
    b = PCA((c.copy(), hdr))
    b.compute_pca(show_progress=False, **o)
    np.random.seed(1)
    b.find_spatial_widths(brunt_beamcorrect=False)
    b.find_spectral_widths()
    b.fit_plaw()
    mon.close("run-equals-steps", [a.index, a.intercept().value],
              [b.index, b.intercept().value], rtol=1e-8)
    mon.close("run-widths", a.spatial_width().value, b.spatial_width().value,
              rtol=1e-8)
    x, y = a.spatial_width().value, a.spectral_width().value
    sx, sy = a.spatial_width_error().value, a.spectral_width_error().value
    m = np.isfinite(x) & np.isfinite(y) & np.isfinite(sx) & np.isfinite(sy)
    wb, wa = best_line(np.log10(x[m]), np.log10(y[m]), .434 * sx[m] / x[m],
                       .434 * sy[m] / y[m])
    if abs(wb) < 10:
        mon.close("run-fit", a.index, wb, rtol=1e-2, atol=1e-3)


def f_distance(sc, mon):
    from turbustat.statistics import PCA, PCA_Distance
    rng = gen.rng_of(sc["name"], sc["seed"])
    nz = int(rng.integers(10, 16))
    a = gen.punch(rng, gen.cube(rng, (nz, 14, 17), sc["kind"]), sc["nan"])
    b = gen.cube(rng, (nz + int(rng.integers(4)), 15, 13), "lines")
    ha, hb = gen.header3d(a.shape), gen.header3d(b.shape)
    n = int(rng.integers(3, nz - 1))
    ms = sc["ms"]

    def part(c):
        v = np.sort(np.linalg.eigvalsh(covariance(c, ms)))[::-1]
        v = v[(0 if ms else 1):n]
        return v / v.sum()
    want = np.sqrt(np.sum((part(a) - part(b))**2))
    d = PCA_Distance((a, ha), (b, hb), n_eigs=n, mean_sub=ms)
    d.distance_metric()
    mon.close("distance", d.distance, want, rtol=1e-7, atol=1e-12)
    p1 = PCA((a, ha))
    p1.compute_pca(show_progress=False, mean_sub=ms, n_eigs=-1)
    for x, y in ((p1, (b, hb)), ((b, hb), p1), (PCA((a, ha)), (b, hb))):
        mon.close("distance-given", PCA_Distance(
            x, y, n_eigs=n, mean_sub=ms).distance_metric().distance, want,
            rtol=1e-7, atol=1e-12)
    mon.close("distance-self", PCA_Distance(
        (a, ha), (a * 3., ha), n_eigs=n, mean_sub=ms).distance_metric()
        .distance, 0., atol=1e-9)
    mon.raises("auto-rejected", ValueError, PCA_Distance, (a, ha), (b, hb),
               n_eigs="auto")
    mon.raises("too-many-components", ValueError, PCA_Distance, p1, (b, hb),
               n_eigs=nz + 3, mean_sub=ms)


def f_reject(sc, mon):
    from turbustat.statistics import PCA
    rng = gen.rng_of(sc["name"], sc["seed"])
    c = gen.cube(rng, (10, 12, 13), "lines")
    h = gen.header3d(c.shape)
    p = PCA((c, h))
    mon.raises("auto-needs-cut", ValueError, p.compute_pca,
               show_progress=False)
    for n in (0, -2, 11):
        mon.raises("component-count", Exception, p.compute_pca, n_eigs=n,
                   show_progress=False)
    mon.raises("cut-name", ValueError, p.compute_pca, n_eigs="auto",
               min_eigval=.1, eigen_cut_method="frac", show_progress=False)
    h2 = h.copy()
    h2["CTYPE3"], h2["CUNIT3"] = "FREQ", "Hz"
    mon.raises("frequency-axis", Warning, PCA, (c, h2))


FNS = {"decomp": f_decomp, "width2": f_width2, "width1": f_width1,
       "fit": f_fit, "widths": f_widths, "run": f_run,
       "distance": f_distance, "reject": f_reject}


def scenarios(tier, seed):
    rng = gen.rng_of("P14", seed, tier)
    k = 2 if tier == "quick" else 14
    out = [dict(name="reject", fn="reject", seed=seed)]
    n = 0
    for nan in gen.NAN_PATTERNS:
        for cut in ("all", "int", "value", "proportion"):
            for j in range(k):
                out.append(dict(
                    name="decomp-%s-%s-%d" % (nan, cut, j), fn="decomp",
                    seed=seed, nan=nan, cut=cut, mean_sub=bool(n % 2),
                    kind=["lines", "offset", "white", "positive"][
                        int(rng.integers(4))], form=0,
                    part=bool(rng.integers(4) == 0),
                    empty=[0, 0, 0, "nan"][int(rng.integers(4))],
                    via=["run", "steps"][int(rng.integers(2))],
                    shape=gen.grow(rng, rng.integers([5, 6, 6], 20))))
                n += 1
    for j in range(k):
        for m in ("contour", "fit", "interpolate", "xinterpolate"):
            out.append(dict(name="width2-%s-%d" % (m, j), fn="width2",
                            seed=seed, method=m, j=j))
        for m in ("walk-down", "fit", "interpolate"):
            out.append(dict(name="width1-%s-%d" % (m, j), fn="width1",
                            seed=seed, method=m))
        for cuts in ("none", "low", "high", "both"):
            for unit in ("pix", "deg", "arcsec", "pc"):
                out.append(dict(
                    name="fit-%s-%s-%d" % (cuts, unit, j), fn="fit",
                    seed=seed, cuts=cuts, unit=unit, j=n,
                    noise=[0., .03][int(rng.integers(2))],
                    bad=bool(rng.integers(2))))
                n += 1
        for sm in ("contour", "fit", "interpolate", "xinterpolate"):
            for vm in ("walk-down", "fit"):
                out.append(dict(
                    name="widths-%s-%s-%d" % (sm, vm, j), fn="widths",
                    seed=seed, sm=sm, vm=vm, n=[4, 1, 3, 2][n % 4],
                    nan=["none", "corner", "scatter"][n % 3],
                    bc=bool(rng.integers(2)), hb=bool(rng.integers(2)),
                    ms=bool(rng.integers(2)),
                    shape=(int(rng.integers(24, 40)),
                           int(rng.integers(24, 34)),
                           int(rng.integers(24, 34)))))
                n += 1
        for ms in (True, False):
            out.append(dict(name="run-%s-%d" % (ms, j), fn="run", seed=seed,
                            ms=ms, shape=(32, 30, 28)))
            for nan in ("none", "block", "scatter"):
                out.append(dict(name="distance-%s-%s-%d" % (ms, nan, j),
                                fn="distance", seed=seed, ms=ms, nan=nan,
                                kind=["lines", "white"][j % 2]))
    return out
