"""P07: one-dimensional profiles re-binned pixel by pixel."""
import numpy as np
import astropy.units as u
from scipy.stats import t as tdist
from ..core import plain
from .. import gen

ID = "P07"
RULE = ("One evaluation = one binned profile (means, deviations, counts or "
        "wedge) compared with a per-pixel re-binning of the same 2D power "
        "array; distinct = different (clause, profile content).")


def radii(shape, freqs=True):
    if freqs:
        fy = np.fft.fftshift(np.fft.fftfreq(shape[0]))[::-1]
        fx = np.fft.fftshift(np.fft.fftfreq(shape[1]))
    else:
        fy = np.arange(shape[0]) - shape[0] // 2
        fx = np.arange(shape[1]) - shape[1] // 2
    return np.sqrt(fy[:, None]**2 + fx[None, :]**2)


def edges_for(shape, o, freqs=True):
    pr = radii(shape, False)
    nb = o.get("nbins")
    if nb is None:
        nb = int(np.round(pr.max() / o.get("binsize", 1.0)) + 1)
    hi = o.get("max_bin")
    lo = o.get("min_bin")
    if hi is None:
        hi = 0.5 if freqs else pr.max()
    if lo is None:
        lo = 1.0 / min(shape) if freqs else 0.5
    if o["logspacing"]:
        return np.logspace(np.log10(lo), np.log10(hi), nb + 1)
    return np.linspace(lo, hi, nb + 1)


def last_tol(edges):
    """scipy rounds to some decimals when it compares with the last edge."""
    return max(1e-9 * edges[-1],
               10.**-(int(-np.log10(np.diff(edges).min())) + 6))


def groups(rr, vals, edges, mask=None):
    """For each bin: sure members plus the groups lying on either edge."""
    ok = np.isfinite(vals)
    if mask is not None:
        ok = ok & mask
    r, v = rr[ok], vals[ok]
    out = []
    tol = 1e-9
    for a, b in zip(edges[:-1], edges[1:]):
        on_a = np.abs(r - a) <= tol * a
        on_b = np.abs(r - b) <= (last_tol(edges) if b == edges[-1]
                                 else tol * b)
        inside = (r > a) & (r < b) & ~on_a & ~on_b
        out.append((v[inside], cuts(r[on_a], v[on_a], -1),
                    cuts(r[on_b], v[on_b], 1)))
    return out


def cuts(r, v, side):
    """All threshold splits of values whose radius is numerically the edge."""
    out = []
    for c in np.unique(r):
        out.append(v[r >= c] if side < 0 else v[r <= c])
    out.insert(0 if side > 0 else len(out), v[:0])
    return out


def variants(g):
    sure, a, b = g
    for va in a:
        for vb in b:
            yield np.concatenate([sure, va, vb])


def check_profile(mon, tag, got_mean, got_std, gr, func=np.mean):
    """Every bin must match one admissible reading of its edge ties."""
    bad = []
    for i, g in enumerate(gr):
        hit = False
        wants = []
        for v in variants(g):
            n = v.size
            if got_std is None:
                want = (func(v) if n else np.nan, 0.)
                gs = 0.
            else:
                if n <= 1:
                    want = (np.nan, np.nan)
                else:
                    s = np.std(v, ddof=1)
                    A = tdist.ppf(1 - 0.15 / 2., n - 1) / np.sqrt(n)
                    want = (func(v), s * A if A > 1 else s)
                gs = got_std[i]
            wants.append(want)
            if np.allclose([got_mean[i], gs], want, rtol=1e-8,
                           atol=1e-12 * (np.abs(v).max() if n else 1),
                           equal_nan=True):
                hit = True
                break
        if not hit:
            bad.append((i, float(got_mean[i]),
                        None if got_std is None else float(got_std[i]),
                        wants[:2]))
    mon.ok(tag, not bad, observed=got_mean if got_std is None else
           np.vstack([got_mean, got_std]), first_bad=bad[:2], nbad=len(bad),
           nbins=len(gr))


def options(rng):
    o = {"logspacing": bool(rng.integers(2))}
    if rng.integers(3) == 0:
        o["nbins"] = int(rng.integers(4, 30))
    elif rng.integers(2):
        o["binsize"] = float(rng.choice([0.5, 1.0, 1.5, 2.0, 3.0]))
    if rng.integers(3) == 0:
        o["max_bin"] = float(rng.uniform(0.3, 0.7))
    if rng.integers(3) == 0:
        o["min_bin"] = float(rng.uniform(0.06, 0.15))
    return o


def f_profile(sc, mon):
    from turbustat.statistics.psds import pspec
    rng = gen.rng_of(sc["name"], sc["seed"])
    for it in range(sc["n"]):
        shape = gen.shapes2d(rng, 9, 44)
        rr = radii(shape)
        kind = ["gamma", "plaw", "int", "neg"][it % 4]
        if kind == "gamma":
            p = rng.gamma(1., 1., shape)
        elif kind == "plaw":
            p = np.maximum(rr, .01) ** -3. * rng.gamma(1., 1., shape)
        elif kind == "int":
            p = rng.integers(0, 9, shape).astype(float)
        else:
            p = rng.standard_normal(shape)
        if rng.integers(2):
            p[rng.uniform(size=shape) < 0.15] = \
                [np.nan, np.inf][int(rng.integers(2))]
        o = options(rng)
        e = edges_for(shape, o)
        gr = groups(rr, p, e)
        keep = p.copy()
        b, m = pspec(p, **o)
        mon.close("bin-centres", b, 0.5 * (e[1:] + e[:-1]), rtol=1e-9,
                  shape=shape, opts=o)
        check_profile(mon, "bin-means", m, None, gr)
        b, m, s = pspec(p, return_stddev=True, **o)
        check_profile(mon, "bin-means-and-scatter", m, s, gr)
        b, m = pspec(p, mean_func=np.nanmedian, **o)
        check_profile(mon, "bin-medians", m, None, gr, np.median)
        b, m = pspec(p, mean_func=np.max, **o)
        check_profile(mon, "bin-maxima", m, None, gr, np.max)
        # conservation: every pixel strictly inside the limits counted once
        ones = np.where(np.isfinite(p), 1.0, np.nan)
        b, c = pspec(ones, mean_func=np.size, **o)
        fin = np.isfinite(ones)
        tie = (np.abs(rr - e[0]) <= 1e-9 * e[0]) | \
            (np.abs(rr - e[-1]) <= last_tol(e))
        inside = (rr > e[0]) & (rr < e[-1]) & ~tie & fin
        tot = np.nansum(c)
        mon.ok("pixels-counted-once",
               inside.sum() <= tot <= inside.sum() + (tie & fin).sum(),
               observed=c, total=float(tot), inside=int(inside.sum()))
        mon.ok("profile-keeps-input", np.array_equal(p, keep, equal_nan=True))
        # pixel distances instead of frequencies
        o2 = dict(o)
        o2.pop("max_bin", None)
        o2.pop("min_bin", None)
        e2 = edges_for(shape, o2, False)
        b, m = pspec(p, return_freqs=False, **o2)
        check_profile(mon, "pixel-bin-means", m, None,
                      groups(radii(shape, False), p, e2))
        mon.close("pixel-bin-centres", b, 0.5 * (e2[1:] + e2[:-1]),
                  rtol=1e-9)


def wedge_dist(ang, t0, dt):
    """Signed angle to the wedge edge (negative inside), modulo pi."""
    d = np.abs((ang - t0 + np.pi / 2) % np.pi - np.pi / 2)
    return d - dt / 2.


def f_wedge(sc, mon):
    from turbustat.statistics.psds import pspec
    rng = gen.rng_of(sc["name"], sc["seed"])
    for it in range(sc["n"]):
        if sc["parity"] == "odd":
            k = int(rng.integers(5, 20)) * 2 + 1
            shape = (k, k)
        else:
            shape = gen.shapes2d(rng, 12, 44)
        t0 = float(rng.uniform(-np.pi, np.pi))
        if it % 6 == 0:
            t0 = float(rng.choice([0., np.pi / 2, np.pi, -np.pi / 2]))
        dt = float(rng.uniform(0.3, 2.6))
        p = rng.gamma(1., 1., shape)
        o = {"logspacing": bool(rng.integers(2)),
             "nbins": int(rng.integers(4, 14))}
        unit = [u.rad, u.deg, u.arcmin][it % 3]
        b, m, s, mask = pspec(p, return_stddev=True,
                              theta_0=(t0 * u.rad).to(unit),
                              delta_theta=(dt * u.rad).to(unit), **o)
        mask = np.asarray(mask)
        mon.ok("wedge-mask-shape", mask.shape == shape)
        y = np.arange(shape[0]) - (shape[0] - 1) / 2.
        x = np.arange(shape[1]) - (shape[1] - 1) / 2.
        far = np.hypot(y[:, None], x[None, :]) > 4.0
        # angles in array coordinates and in frequency coordinates
        a1 = np.arctan2(y[:, None], x[None, :])
        a2 = np.arctan2(y[:, None] / shape[0], x[None, :] / shape[1])
        d1, d2 = wedge_dist(a1, t0, dt), wedge_dist(a2, t0, dt)
        marg = 2.0 / np.maximum(np.hypot(y[:, None], x[None, :]), 1.)
        if sc["parity"] == "odd":
            marg = 1e-9
        must = (d1 < -marg) & (d2 < -marg) & far
        mustnot = (d1 > marg) & (d2 > marg) & far
        mon.ok("wedge-included", bool(mask[must].all()), observed=mask,
               shape=shape, t0=t0, dt=dt)
        mon.ok("wedge-excluded", not mask[mustnot].any(), observed=mask,
               shape=shape, t0=t0, dt=dt)
        # the profile uses the mask it reports
        e = edges_for(shape, o)
        check_profile(mon, "wedge-profile", m, s,
                      groups(radii(shape), p, e, mask))
        # adding half a turn changes nothing; complementary wedges tile
        b2, m2, s2, mask2 = pspec(p, return_stddev=True,
                                  theta_0=(t0 + np.pi) * u.rad,
                                  delta_theta=dt * u.rad, **o)
        if sc["parity"] == "odd":
            differ = np.asarray(mask2) != mask
            mon.ok("wedge-half-turn", not (differ & far &
                                           (np.abs(d1) > 1e-9)).any(),
                   observed=mask2, t0=t0, dt=dt)
    mon.raises("wedge-needs-width", ValueError, pspec, np.ones((11, 11)),
               theta_0=0.3 * u.rad)


def f_boot(sc, mon):
    from turbustat.statistics.psds import pspec
    rng = gen.rng_of(sc["name"], sc["seed"])
    shape = gen.shapes2d(rng, 40, 60)
    p = rng.gamma(4., 1., shape)
    o = dict(logspacing=False, nbins=5, min_bin=0.1)
    b, m, s = pspec(p, return_stddev=True, boot_iter=100, **o)
    b, m2, s2 = pspec(p, return_stddev=True, **o)
    mon.close("bootstrap-mean", m, m2)
    mon.close("bootstrap-scatter", s, s2, rtol=0.3)


def f_class(sc, mon):
    """The profile stored on each statistic."""
    from turbustat.statistics import PowerSpectrum, VCA, MVC
    rng = gen.rng_of(sc["name"], sc["seed"])
    shape = tuple(sc["shape"])
    which = sc["which"]
    if which == "image":
        st = PowerSpectrum(gen.image(rng, shape, "plaw"),
                           header=gen.header2d(shape))
    elif which == "cube":
        cs = (12,) + shape
        st = VCA(gen.cube(rng, cs, "lines"), header=gen.header3d(cs))
    else:
        st = MVC(gen.plaw2d(rng, shape), np.exp(.3 * gen.plaw2d(rng, shape)),
                 1 + rng.gamma(2., .2, shape), header=gen.header2d(shape))
    o = options(rng)
    if sc["via"] == "compute":
        st.compute_pspec()
        if sc["default"]:
            st.compute_radial_pspec()
            o = {"logspacing": False}
        else:
            st.compute_radial_pspec(**o)
    else:
        if sc["default"]:
            st.run(fit_2D=False)
            o = {"logspacing": False}
        else:
            st.run(fit_2D=False, radial_pspec_kwargs=dict(o))
    e = edges_for(shape, o)
    mon.close("stored-frequencies", plain(st.freqs), 0.5 * (e[1:] + e[:-1]),
              rtol=1e-9)
    mon.ok("stored-frequency-unit", st.freqs.unit == u.pix**-1,
           observed=str(st.freqs.unit))
    check_profile(mon, "stored-profile", st.ps1D, st.ps1D_stddev,
                  groups(radii(shape), np.asarray(st.ps2D), e))
    mon.close("wavenumbers", plain(st.wavenumbers),
              0.5 * (e[1:] + e[:-1]) * min(shape), rtol=1e-9)
    # wedge through the class
    st.compute_radial_pspec(theta_0=0.4 * u.rad, delta_theta=1.2 * u.rad,
                            nbins=8, logspacing=False)
    e = edges_for(shape, dict(nbins=8, logspacing=False))
    y = np.arange(shape[0]) - (shape[0] - 1) / 2.
    x = np.arange(shape[1]) - (shape[1] - 1) / 2.
    far = np.hypot(y[:, None], x[None, :]) > 3.0
    if shape[0] == shape[1] and shape[0] % 2:
        w = wedge_dist(np.arctan2(y[:, None], x[None, :]), 0.4, 1.2) <= 0
        gr = groups(radii(shape), np.asarray(st.ps2D), e, w)
        ok = e[:-1] > 3.0 / shape[0]
        k = int(np.argmax(ok))
        check_profile(mon, "stored-wedge-profile", st.ps1D[k:],
                      st.ps1D_stddev[k:], gr[k:])


FNS = {"profile": f_profile, "wedge": f_wedge, "boot": f_boot,
       "class": f_class}


def scenarios(tier, seed):
    rng = gen.rng_of("P07", seed, tier)
    k = 3 if tier == "quick" else 8
    out = []
    for i in range(24 * k):
        out.append(dict(name="profile-%d" % i, fn="profile", seed=seed, n=8))
    for i in range(8 * k):
        out.append(dict(name="wedge-odd-%d" % i, fn="wedge", seed=seed, n=10,
                        parity="odd"))
        out.append(dict(name="wedge-any-%d" % i, fn="wedge", seed=seed, n=10,
                        parity="any"))
    for i in range(3 * k):
        out.append(dict(name="boot-%d" % i, fn="boot", seed=seed))
    n = 0
    for which in ("image", "cube", "mvc"):
        for via in ("compute", "run"):
            for default in (True, False):
                for j in range(2 * k):
                    s = gen.shapes2d(rng, 24, 48)
                    if j % 2 == 0:
                        m = int(rng.integers(12, 22)) * 2 + 1
                        s = (m, m)
                    out.append(dict(name="class-%s-%s-%s-%d" % (
                        which, via, "def" if default else "opt", j),
                        fn="class", seed=seed, which=which, via=via,
                        default=default, shape=list(s)))
    return out
