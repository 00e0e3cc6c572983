"""P15: bispectrum against direct triple products at replayed wavevectors."""
import numpy as np
import astropy.units as u
from .. import gen

ID = "P15"
RULE = ("One evaluation = a bispectrum, bicoherence, tracker, slice or "
        "distance of one image compared with direct triple products over the "
        "same random wavevectors, direct averages, or the result for a "
        "transformed image; distinct = different (clause, content).")


def reference(img, nsamples, seed, mean_subtract):
    d = np.where(np.isnan(img), 0., img)
    if mean_subtract:
        d = d - d.mean()
    n0, n1 = d.shape
    F = np.fft.fft2(d)
    r = np.random.RandomState(seed)
    B = np.zeros((n0 // 2, n1 // 2), complex)
    A = np.zeros((n0 // 2, n1 // 2))
    T = np.zeros(d.shape, int)
    tr = np.trunc
    for a in range(n0 // 2):
        for b in range(n1 // 2):
            p = r.uniform(0, 2 * np.pi, nsamples)
            q = r.uniform(0, 2 * np.pi, nsamples)
            x1, y1 = a * np.cos(p), a * np.sin(p)
            x2, y2 = b * np.cos(q), b * np.sin(q)
            k = [(tr(x).astype(int) % n0, tr(y).astype(int) % n1)
                 for x, y in ((x1, y1), (x2, y2), (x1 + x2, y1 + y2))]
            s = F[k[0]] * F[k[1]] * np.conj(F[k[2]])
            B[a, b] = s.sum()
            A[a, b] = np.abs(s).sum()
            for i in k:
                np.add.at(T, i, 1)
    with np.errstate(all="ignore"):
        return B, np.abs(B) / np.where(A > 0, A, 1.), T


def f_value(sc, mon):
    from turbustat.statistics import Bispectrum
    rng = gen.rng_of(sc["name"], sc["seed"])
    shape = tuple(sc["shape"])
    img = gen.punch(rng, gen.image(rng, shape, sc["kind"]), sc["nan"])
    o = dict(nsamples=int(rng.integers(5, 60)),
             seed=int(rng.integers(0, 10**6)), mean_subtract=sc["ms"])
    if sc["dflt"]:
        o = {}
    B, C, T = reference(img, o.get("nsamples", 100), o.get("seed", 1000),
                        o.get("mean_subtract", False))
    st = np.random.get_state()[1].copy()
    b = Bispectrum(img.copy())
    if sc["via"] == "run":
        b.run(show_progress=False, **dict(o, **sc["fft"]))
    else:
        b.compute_bispectrum(show_progress=False, **dict(o, **sc["fft"]))
    mon.ok("random-state", np.array_equal(st, np.random.get_state()[1]))
    # the zero frequency after mean subtraction is rounding noise
    use = np.ones(B.shape, bool)
    if o.get("mean_subtract"):
        use[:2] = use[:, :2] = False
    tol = 1e-7
    mon.close("bispectrum", np.where(use, b.bispectrum, 0),
              np.where(use, B, 0), rtol=1e-6, floor=1e-9)
    sm = np.abs(np.fft.fft2(np.where(np.isnan(img), 0, img)))
    if sm.min() > 1e-9 * sm.max() and not o.get("mean_subtract"):
        mon.close("bicoherence", b.bicoherence, C, rtol=1e-6, atol=tol)
        mon.close("log-amplitude", b.bispectrum_logamp,
                  np.log10(np.abs(B)), rtol=0, atol=1e-4)
    else:
        ok = use & np.isfinite(C)
        if o.get("mean_subtract"):
            # triangles closing on the zero frequency included in sums only
            mon.close("bicoherence", b.bicoherence[ok], C[ok], rtol=1e-5,
                      atol=1e-6)
    mon.ok("bicoherence-bounds", np.all(b.bicoherence >= 0) and
           np.all(b.bicoherence <= 1 + 1e-9), observed=b.bicoherence)
    mon.ok("shape", b.bicoherence.shape == (shape[0] // 2, shape[1] // 2))
    mon.close("tracker", b.tracker, T, rtol=0, floor=0)


def f_sym(sc, mon):
    from turbustat.statistics import Bispectrum
    rng = gen.rng_of(sc["name"], sc["seed"])
    shape = tuple(sc["shape"])
    img = gen.image(rng, shape, "plaw") + 1.
    o = dict(show_progress=False, nsamples=15, seed=int(rng.integers(1e6)),
             mean_subtract=sc["ms"])

    def run(x, **k):
        b = Bispectrum(x)
        b.run(**dict(o, **k))
        return b
    a = run(img)
    w = np.ones(a.bicoherence.shape, bool)
    if sc["ms"]:
        w[:2] = w[:, :2] = False
    f = gen.factor(rng)
    mon.close("factor-bicoherence", run(img * f).bicoherence[w],
              a.bicoherence[w], rtol=0, atol=1e-6)
    mon.close("factor-cube", run(img * f).bispectrum[w],
              a.bispectrum[w] * f**3, rtol=1e-6, floor=1e-9)
    mon.close("negated", run(-img).bicoherence[w], a.bicoherence[w], rtol=0,
              atol=1e-6)
    if sc["ms"]:
        mon.close("offset", run(img + 13.).bicoherence[w], a.bicoherence[w],
                  rtol=0, atol=1e-5)
    again = run(img)
    mon.ok("same-seed", np.array_equal(again.bicoherence, a.bicoherence,
                                       equal_nan=True) and
           np.array_equal(again.bispectrum, a.bispectrum, equal_nan=True))
    oth = run(img, seed=o["seed"] + 1)
    mon.ok("other-seed", not np.array_equal(oth.bispectrum, a.bispectrum,
                                            equal_nan=True))
    # transform conjugates when the image is reflected through the origin
    refl = np.roll(img[::-1, ::-1], 1, (0, 1))
    mon.close("reflected", run(refl).bispectrum[w], np.conj(a.bispectrum[w]),
              rtol=1e-6, floor=1e-9)
    if not sc["ms"]:
        pt = np.zeros(shape)
        pt[0, 0] = f
        mon.close("aligned-phases", run(pt).bicoherence,
                  np.ones(a.bicoherence.shape), rtol=0, atol=1e-9)
    flat = run(np.full(shape, f)).bicoherence
    mon.ok("flat-image-bounds", np.all(flat >= 0) and np.all(flat <= 1 + 1e-9),
           observed=flat)
    nanned = img.copy()
    m = rng.uniform(size=shape) < .1
    nanned[m] = np.nan
    z = np.where(m, 0., img)
    mon.close("missing-is-zero", run(nanned).bicoherence[w],
              run(z).bicoherence[w], rtol=0, atol=1e-9)


def f_slices(sc, mon):
    from turbustat.statistics import Bispectrum
    rng = gen.rng_of(sc["name"], sc["seed"])
    shape = tuple(sc["shape"])
    img = gen.image(rng, shape, "plaw") + 2.
    b = Bispectrum(img).run(show_progress=False, nsamples=8)
    val = sc["value"]
    arr = getattr(b, val)
    y, x = np.mgrid[:arr.shape[0], :arr.shape[1]]
    r = np.sqrt(y * y + x * x)
    th = np.arctan2(y, x)
    fin = np.isfinite(arr)

    def binned(key, m, edges):
        mean, sd = [], []
        for i in range(len(edges) - 1):
            s = m & fin & (key >= edges[i]) & (
                (key < edges[i + 1]) if i < len(edges) - 2 else
                (key <= edges[i + 1]))
            mean.append(arr[s].mean() if s.any() else np.nan)
            sd.append(arr[s].std() if s.any() else np.nan)
        return np.array(mean), np.array(sd)
    rads = np.sort(rng.uniform(4, min(arr.shape) - 2, 3))
    dr = rng.uniform(2, 6, 3)
    if rng.integers(2):     # whole numbers: some vectors lie on the limits
        rads = np.sort(rng.choice(np.arange(4, max(
            8, min(arr.shape) - 1)), 3, replace=False)).astype(float)
        dr = rng.choice([2., 4., 6.], 3)
    bw = float(rng.uniform(4, 20))
    q = (bw * u.deg).to([u.deg, u.rad, u.arcmin][sc["j"] % 3])
    if sc["multi"]:
        sl = b.azimuthal_slice(rads, dr, bin_width=q, value=val,
                               return_masks=True)
    else:
        rads, dr = rads[:1], dr[:1]
        sl = b.azimuthal_slice(float(rads[0]), float(dr[0]), bin_width=q,
                               value=val, return_masks=True)
    sl, masks = sl
    mon.ok("azimuthal-keys", sorted(sl) == sorted(rads.tolist()))
    for R, d, mk in zip(rads, dr, masks):
        out = sl[R]
        m = (r >= R - d / 2) & (r <= R + d / 2)
        mon.ok("azimuthal-mask", np.array_equal(mk, m))
        n = out.shape[1]
        mon.ok("azimuthal-bins", abs(n - np.pi / np.deg2rad(bw)) <= 2.,
               observed=n)
        e = np.linspace(0, np.pi, n + 1)
        mon.close("azimuthal-centres", out[0].real, (e[1:] + e[:-1]) / 2,
                  rtol=1e-9)
        w, s = binned(th, m, e)
        mon.close("azimuthal-mean", out[1], w, rtol=1e-7, atol=1e-12)
        mon.close("azimuthal-std", np.real(out[2]), s, rtol=1e-6,
                  floor=1e-9, atol=1e-12)
    # radial
    ts = np.sort(rng.uniform(10, 80, 3))
    dt = rng.uniform(8, 30, 3)
    bw = float(rng.uniform(1., 3.))
    un = [u.deg, u.rad, u.arcmin][sc["j"] % 3]
    if sc["multi"]:
        tq, dq = (ts * u.deg).to(un), (dt * u.deg).to(un)
        sl, masks = b.radial_slice(tq, dq, bin_width=bw, value=val,
                                   return_masks=True)
        keys = tq.value
    else:
        ts, dt = ts[:1], dt[:1]
        tq, dq = (float(ts[0]) * u.deg).to(un), (float(dt[0]) * u.deg).to(un)
        sl, masks = b.radial_slice(tq, dq, bin_width=bw, value=val,
                                   return_masks=True)
        keys = [tq.value]
    for K, t, d, mk in zip(keys, np.deg2rad(ts), np.deg2rad(dt), masks):
        out = sl[K]
        m = (th >= t - d / 2) & (th <= t + d / 2)
        mon.ok("radial-mask", np.array_equal(mk, m))
        n = out.shape[1]
        mon.ok("radial-bins", abs(n - r.max() / bw) <= 2., observed=n)
        e = np.linspace(0, r.max(), n + 1)
        mon.close("radial-centres", out[0].real, (e[1:] + e[:-1]) / 2,
                  rtol=1e-9)
        w, s = binned(r, m, e)
        mon.close("radial-mean", out[1], w, rtol=1e-7, atol=1e-12)
        mon.close("radial-std", np.real(out[2]), s, rtol=1e-6, floor=1e-9,
                  atol=1e-12)
    mon.raises("slice-value", TypeError, b.azimuthal_slice, 5, 2,
               value="power")
    mon.raises("slice-value-radial", TypeError, b.radial_slice, 5 * u.deg,
               2 * u.deg, value="power")
    mon.raises("slice-unit", TypeError, b.azimuthal_slice, 5, 2, bin_width=5)
    mon.raises("slice-unit-kind", TypeError, b.radial_slice, 5 * u.pix,
               2 * u.deg)
    mon.raises("slice-lengths", ValueError, b.azimuthal_slice,
               np.array([3., 5.]), np.array([1., 1., 1.]))


def f_distance(sc, mon):
    from turbustat.statistics import Bispectrum, Bispectrum_Distance
    rng = gen.rng_of(sc["name"], sc["seed"])
    s1 = tuple(sc["shape"])
    s2 = s1 if sc["same"] else (s1[0] + 4, s1[1] + 2)
    a = gen.image(rng, s1, "plaw") + 1
    b = gen.image(rng, s2, "lognorm")
    kw = dict(nsamples=12, seed=int(rng.integers(1000)), show_progress=False)
    keep = dict(kw)
    d = Bispectrum_Distance(a, b, stat_kwargs=kw).distance_metric()
    mon.ok("options-kept", kw == keep)
    r = [reference(x, 12, kw["seed"], False)[1] for x in (a, b)]
    if sc["same"]:
        mon.close("surface", d.surface_distance,
                  np.sqrt(np.sum((r[0] - r[1])**2)), rtol=1e-7)
    else:
        mon.ok("surface-shapes", np.isnan(d.surface_distance))
    want = abs(r[0].mean() - r[1].mean())
    mon.close("mean", d.mean_distance, want, rtol=1e-6, atol=1e-9)
    p = Bispectrum(a).run(**kw)
    for x, y in ((p, b), (b, p), (Bispectrum(a), b)):
        e = Bispectrum_Distance(x, y, stat_kwargs=kw).distance_metric()
        mon.close("given", [e.mean_distance, e.surface_distance],
                  [want, d.surface_distance], rtol=1e-6, atol=1e-9)
    e = Bispectrum_Distance(a, a.copy(), stat_kwargs=kw).distance_metric()
    mon.close("self", [e.mean_distance, e.surface_distance], [0., 0.],
              atol=1e-12)


FNS = {"value": f_value, "sym": f_sym, "slices": f_slices,
       "distance": f_distance}


def scenarios(tier, seed):
    rng = gen.rng_of("P15", seed, tier)
    k = 8 if tier == "quick" else 20
    out = []
    ffts = [{}, dict(use_pyfftw=True), dict(use_pyfftw=True, threads=2),
            dict(use_pyfftw=True, threads=3,
                 planner_effort="FFTW_ESTIMATE")]
    n = 0
    for nan in gen.NAN_PATTERNS:
        for ms in (False, True):
            for j in range(k):
                out.append(dict(
                    name="value-%s-%s-%d" % (nan, ms, j), fn="value",
                    seed=seed, nan=nan, ms=ms, dflt=(n % 7 == 0),
                    kind=gen.IMAGE_KINDS[int(rng.integers(9))],
                    via=["run", "steps"][n % 2], fft=ffts[n % 4],
                    shape=gen.shapes2d(rng, 8, 40)))
                n += 1
    for j in range(k):
        for sh in ((24, 24), (25, 31), (40, 14), (13, 36)):
            for ms in (False, True):
                out.append(dict(name="sym-%dx%d-%s-%d" % (sh + (ms, j)),
                                fn="sym", seed=seed, shape=sh, ms=ms))
            for v in ("bispectrum", "bispectrum_logamp", "bicoherence"):
                out.append(dict(name="slices-%dx%d-%s-%d" % (sh + (v, j)),
                                fn="slices", seed=seed, value=v, j=n,
                                shape=(sh[0] + 10, sh[1] + 10),
                                multi=bool(n % 3)))
                n += 1
        for same in (True, False):
            for i in range(3):
                out.append(dict(name="distance-%s-%d-%d" % (same, i, j),
                                fn="distance", seed=seed, same=same,
                                shape=gen.shapes2d(rng, 14, 34)))
    return out
