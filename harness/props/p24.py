"""P24: simulated fields have exactly the requested power spectrum."""
import numpy as np
from .. import gen, native
from ..core import REPO

ID = "P24"
RULE = ("One evaluation = a generated field, its transform, its profile or "
        "the global random state compared with the requested power law, the "
        "direct transform, an explicit binning or the state before the call; "
        "distinct = different (clause, content).")


def setup(tier):
    native.stub_if_missing(REPO)


def law2(N, p, theta, ellip):
    ky = np.fft.fftfreq(N)[:, None] + np.zeros((1, N))
    kx = np.fft.fftfreq(N)[None, :] + np.zeros((N, 1))
    c, s = np.cos(theta), np.sin(theta)
    a = ellip * (kx * c - ky * s)
    b = kx * s + ky * c
    r2 = a**2 + b**2
    r2[0, 0] = np.nan
    # modes whose value is forced by the field being real
    skip = np.zeros((N, N), bool)
    skip[0, 0] = True
    if N % 2 == 0:
        h = N // 2
        for y in (0, h):
            for x in (0, h):
                skip[y, x] = True
        if ellip < 1:
            skip[h, :] = True
            skip[:, h] = True
    return r2**(-p / 2.), skip


def spread(ratio):
    return float(np.max(ratio) / np.min(ratio) - 1)


def f_2d(sc, mon):
    from turbustat.simulator import make_extended
    rng = gen.rng_of(sc["name"], sc["seed"])
    N = sc["N"]
    p = float(rng.choice([0.0, 1.0, 2.0, 2.7, 11 / 3., 4.0, 5.5])) \
        if rng.random() < 0.6 else float(rng.uniform(0, 6))
    ellip = 1.0 if sc["ell"] == 0 else float(rng.uniform(0.15, 0.98))
    theta = float(rng.uniform(-np.pi, np.pi))
    seed = int(rng.integers(0, 2**32 - 1))
    kw = dict(powerlaw=p, randomseed=seed)
    if sc["ell"] or rng.random() < 0.5:
        kw.update(theta=theta, ellip=ellip)
    np.random.seed(int(rng.integers(2**31)))
    np.random.random(int(rng.integers(700)))
    before = np.random.get_state()
    m = make_extended(N, **kw)
    after = np.random.get_state()
    mon.ok("global-random-state", before[0] == after[0] and
           np.array_equal(before[1], after[1]) and before[2:] == after[2:],
           observed=after[1][:8])
    if not mon.ok("shape-real", isinstance(m, np.ndarray) and
                  m.shape == (N, N) and m.dtype.kind == "f" and
                  np.isfinite(m).all(), observed=(m.shape, str(m.dtype))):
        return
    F = np.fft.fft2(m)
    P = np.abs(F)**2
    want, skip = law2(N, p, theta, ellip)
    use = ~skip
    if use.any():
        ratio = P[use] / want[use]
        mon.close("power-law", ratio / np.median(ratio), np.ones(use.sum()),
                  rtol=1e-6)
        mon.ev("modes", int(use.sum()))
        # phases are spread, not constant
        if use.sum() > 200:
            ph = np.angle(F[use])
            h = np.histogram(ph, bins=8, range=(-np.pi, np.pi))[0]
            mon.ok("phases-spread", h.max() < 0.4 * use.sum() and
                   h.min() > 0, observed=h)
    if p > 0:    # white noise has a mean, like any other mode
        mon.ok("zero-mean", abs(m.mean()) <= 1e-10 * np.abs(m).max(),
               observed=float(m.mean()))
    # the transforms on request
    half = make_extended(N, return_fft=True, full_fft=False, **kw)
    full = make_extended(N, return_fft=True, **kw)
    mon.close("half-transform", half, np.fft.rfft2(m), floor=1e-9)
    mon.close("full-transform", full, np.fft.fftshift(F), floor=1e-9)
    # the seed decides, and only the seed
    np.random.random(3)
    mon.ok("same-seed", np.array_equal(m, make_extended(N, **kw)), observed=m)
    o = make_extended(N, **dict(kw, randomseed=(seed + 1) % (2**32 - 1)))
    if N > 3:
        mon.ok("other-seed", not np.allclose(m, o), observed=o)
        co = abs(np.corrcoef(m.ravel(), o.ravel())[0, 1])
        mon.ok("other-seed-unrelated", co < 0.999, observed=float(co))
    mon.ok("float-size", np.array_equal(
        m, make_extended(float(N), **kw)), observed=m)


def f_2dbad(sc, mon):
    from turbustat.simulator import make_extended
    for e in (0, -0.3, 1.0001, 2, -1):
        mon.raises("bad-ellipticity", ValueError, make_extended, 16, ellip=e)
    a = make_extended(16, ellip=1.0, theta=0.3)
    b = make_extended(16)
    mon.ok("round-has-no-angle", np.array_equal(a, b), observed=a)
    # rotation by pi changes nothing
    c = make_extended(17, ellip=.4, theta=0.3)
    d = make_extended(17, ellip=.4, theta=0.3 + np.pi)
    mon.close("angle-pi", c, d, rtol=1e-8, floor=1e-8)


def f_orient(sc, mon):
    """The long axis of the power contours lies where it was asked to."""
    from turbustat.simulator import make_extended
    rng = gen.rng_of(sc["name"], sc["seed"])
    N = int(rng.choice([48, 57, 64]))
    e = float(rng.uniform(.2, .6))
    t = float(rng.uniform(0, np.pi))
    f = make_extended(N, 3., theta=t, ellip=e, return_fft=True,
                      randomseed=int(rng.integers(2**31)))
    P = np.abs(f)**2
    k = np.fft.fftshift(np.fft.fftfreq(N))
    kx, ky = np.meshgrid(k, k)
    r = np.hypot(kx, ky)
    lev = (P > np.percentile(P, 93)) & (r < .45)
    w = lev.astype(float)
    sxx, syy, sxy = (w * kx**2).sum(), (w * ky**2).sum(), (w * kx * ky).sum()
    ang = 0.5 * np.arctan2(2 * sxy, sxx - syy)
    # points of equal power satisfy e^2 a^2 + b^2 = const with
    # a along (cos t, -sin t): elongated along that direction
    diff = (ang + t + np.pi / 2) % np.pi - np.pi / 2
    mon.ok("orientation", abs(diff) < 0.25, observed=float(ang), theta=t,
           ellip=e)


def f_3d(sc, mon):
    from turbustat.simulator import make_3dfield
    rng = gen.rng_of(sc["name"], sc["seed"])
    N = sc["N"]
    p = float(rng.choice([0., 2., 3., 11 / 3., 4.])) \
        if rng.random() < .5 else float(rng.uniform(0, 5))
    amp = float(10**rng.uniform(-3, 3))
    seed = int(rng.integers(0, 2**32 - 1))
    kw = dict(powerlaw=p, amp=amp, randomseed=seed)
    np.random.seed(int(rng.integers(2**31)))
    before = np.random.get_state()
    m = make_3dfield(N, **kw)
    after = np.random.get_state()
    mon.ok("global-random-state", np.array_equal(before[1], after[1]) and
           before[2:] == after[2:], observed=after[1][:8])
    if not mon.ok("shape-real", m.shape == (N, N, N) and m.dtype.kind == "f"
                  and np.isfinite(m).all(), observed=m.shape):
        return
    mon.close("amplitude", np.sqrt(np.mean(m**2)), amp, rtol=1e-9)
    if p > 0:    # white noise has a mean, like any other mode
        mon.ok("zero-mean", abs(m.mean()) <= 1e-10 * np.abs(m).max(),
               observed=float(m.mean()))
    F = np.fft.fftn(m)
    k = np.fft.fftfreq(N)
    r2 = k[:, None, None]**2 + k[None, :, None]**2 + k[None, None, :]**2
    skip = r2 == 0
    if N % 2 == 0:
        h = N // 2
        for a in (0, h):
            for b in (0, h):
                for c in (0, h):
                    skip[a, b, c] = True
    r2[0, 0, 0] = np.nan
    ratio = np.abs(F[~skip])**2 / r2[~skip]**(-p / 2.)
    mon.close("power-law", ratio / np.median(ratio), np.ones(ratio.size),
              rtol=1e-6)
    mon.ev("modes", int(ratio.size))
    G = make_3dfield(N, return_fft=True, **kw)
    mon.close("transform", G, np.fft.rfftn(m), floor=1e-9)
    np.random.random(5)
    mon.ok("same-seed", np.array_equal(m, make_3dfield(N, **kw)), observed=m)
    o = make_3dfield(N, **dict(kw, randomseed=(seed + 7) % (2**32 - 1)))
    mon.ok("other-seed", not np.allclose(m, o), observed=o)
    mon.close("amp-only-scales", make_3dfield(N, **dict(kw, amp=2.5 * amp)),
              2.5 * m, rtol=1e-9)


def f_prof(sc, mon):
    """threeD_pspec against an explicit loop over frequencies."""
    from turbustat.simulator.threeD_pspec import threeD_pspec
    rng = gen.rng_of(sc["name"], sc["seed"])
    shape = tuple(sc["shape"])
    arr = rng.standard_normal(shape) * 10**rng.uniform(-3, 3)
    keep = arr.copy()
    out = threeD_pspec(arr)
    mon.ok("three-results", len(out) == 3, observed=len(out))
    f, ps, sd = out
    n = max(shape)
    edges = np.arange(1, n // 2 + (0 if n % 2 == 0 else 1)) / n
    mon.close("frequencies", f, edges, rtol=1e-12)
    P = np.abs(np.fft.fftn(arr))**2
    k = [np.fft.fftfreq(s) for s in shape]
    r = np.sqrt(k[0][:, None, None]**2 + k[1][None, :, None]**2 +
                k[2][None, None, :]**2)
    m, s = [], []
    for i, lo in enumerate(edges):
        hi = edges[i + 1] if i + 1 < len(edges) else np.inf
        v = P[(r >= lo) & (r < hi)]
        m.append(v.mean())
        s.append(v.std())
    mon.close("mean-power", ps, m, rtol=1e-9)
    mon.close("deviation", sd, s, rtol=1e-9)
    mon.ok("input-kept", np.array_equal(arr, keep), observed=arr)
    mon.raises("not-3d", ValueError, threeD_pspec, arr[0])
    mon.raises("not-3d", ValueError, threeD_pspec, arr[None])


FNS = {"2d": f_2d, "2dbad": f_2dbad, "3d": f_3d, "prof": f_prof,
       "orient": f_orient}


def scenarios(tier, seed):
    out = [dict(name="2dbad", fn="2dbad", seed=seed)]
    q = tier == "quick"
    sizes = [4, 5, 6, 7, 8, 9, 12, 15, 16, 21, 31, 32, 33, 48, 63, 64, 100,
             127, 128]
    if not q:
        sizes += list(range(10, 60)) + [129, 200, 255, 256, 401, 512]
    sizes = sorted(set(sizes))
    for N in sizes:
        for ell in (0, 1):
            for r in range(24 if q else 60):
                out.append(dict(name="2d-%d-%d-%d" % (N, ell, r), fn="2d",
                                N=N, ell=ell, seed=seed))
    s3 = [4, 5, 6, 7, 8, 11, 12, 16, 17, 24, 31, 32] + \
        ([] if q else [9, 10, 13, 14, 20, 25, 33, 40, 48, 63, 64])
    for N in s3:
        for r in range(16 if q else 60):
            out.append(dict(name="3d-%d-%d" % (N, r), fn="3d", N=N,
                            seed=seed))
    # sizes that are powers of two: bin edges are then exact
    ch = [4, 8, 16, 32]
    rng = gen.rng_of("shapes", seed)
    for r in range(24 if q else 120):
        sh = [int(x) for x in rng.choice(ch, 3)]
        if max(sh) < 8:
            sh[0] = 8
        out.append(dict(name="prof-%d" % r, fn="prof", shape=sh, seed=seed))
    for r in range(24 if q else 120):
        out.append(dict(name="orient-%d" % r, fn="orient", seed=seed))
    return out
