"""P20: the Cramer statistic against explicit pairwise sums."""
import numpy as np
import astropy.units as u
from .. import gen

ID = "P20"
RULE = ("One evaluation = a reduced data matrix or a distance compared with "
        "explicit sorting and pairwise sums, or with the distance of "
        "re-ordered, exchanged or differently scheduled data; distinct = "
        "different (clause, content).")


def reduce_(cube, p=0.2, noise=-np.inf):
    n = int(round(p * cube.shape[1] * cube.shape[2]))
    mx = np.nanmax(cube)
    out = []
    for ch in cube:
        v = sorted([x for x in ch.ravel() if np.isfinite(x) and x > noise],
                   reverse=True)[:n]
        out.append(v + [0.] * (n - len(v)))
    return np.array(out) / mx


def cramer(X, Y):
    def mean(A, B):
        d = np.sqrt(((A[:, None, :] - B[None, :, :])**2).sum(-1))
        return np.sqrt(d).mean()
    m, n = float(len(X)), float(len(Y))
    return m * n / (m + n) * (mean(X, Y) - mean(X, X) / 2. - mean(Y, Y) / 2.)


def tol(X, Y):
    # the library forms squared distances by expansion: errors of relative
    # size eps in the square, so eps**.25 in the root of a vanishing distance
    s = max(np.sqrt((X**2).sum(1)).max(), np.sqrt((Y**2).sum(1)).max(), 1e-300)
    m, n = float(len(X)), float(len(Y))
    return 2e-3 * np.sqrt(s) * m * n / (m + n)


def cubes(rng, sc):
    a = gen.cube(rng, tuple(sc["shape"]), sc["kind"])
    b = gen.cube(rng, tuple(sc["shape2"]), sc["kind2"])
    if sc.get("nan"):
        a = gen.punch(rng, a, sc["nan"])
        if sc["nan"] == "scatter":
            a[rng.integers(a.shape[0]), 2, 3] = np.nan
    return a, b


def f_main(sc, mon):
    from turbustat.statistics import Cramer_Distance
    rng = gen.rng_of(sc["name"], sc["seed"])
    a, b = cubes(rng, sc)
    n1, n2 = -np.inf, -np.inf
    k = {}
    if sc["noise"]:
        n1, n2 = float(rng.uniform(0.01, 0.3)), float(rng.uniform(0.01, 0.3))
        k = dict(noise_value1=n1, noise_value2=n2)
    h1, h2 = gen.header3d(a.shape), gen.header3d(b.shape)
    A = (a.copy(), h1) if sc["hdr"] else a.copy()
    B = (b.copy(), h2) if sc["hdr"] else b.copy()
    d = Cramer_Distance(A, B, **k)
    p = 0.2
    if sc["steps"]:
        if sc["p"]:
            p = sc["p"]
            d.format_data(p=p, normalize=sc["norm"])
        else:
            d.format_data(normalize=sc["norm"])
        d.cramer_statistic()
    else:
        d.distance_metric(normalize=sc["norm"])
    X, Y = reduce_(a, p, n1), reduce_(b, p, n2)
    if sc["norm"]:
        X = X / np.linalg.svd(X)[1][0]
        Y = Y / np.linalg.svd(Y)[1][0]
    gx, gy = np.asarray(d.data_matrix1), np.asarray(d.data_matrix2)
    nk = min(X.shape[1], Y.shape[1])
    for nm, g, W in (("matrix1", gx, X), ("matrix2", gy, Y)):
        if W.shape[1] == nk:
            mon.close(nm, g, W, rtol=1e-9)
        elif mon.ok(nm + "-shape", g.shape == (W.shape[0], nk),
                    observed=g.shape):
            # a sample without replacement of each channel's values
            good = True
            for r, w in zip(g, W):
                r, w = np.sort(r), np.sort(w)
                j = 0
                for v in r:
                    while j < w.size and w[j] < v - 1e-9 * abs(v) - 1e-15:
                        j += 1
                    if j >= w.size or abs(w[j] - v) > 1e-9 * abs(v) + 1e-15:
                        good = False
                        break
                    j += 1
            mon.ok(nm + "-sampled", good, observed=g)
    want = cramer(gx, gy)
    t = tol(gx, gy)
    mon.close("distance", d.distance, want, rtol=1e-6, atol=1e-6 * t)
    mon.ok("non-negative", d.distance >= -t, observed=float(d.distance))
    # exchanged
    k2 = {}
    if sc["noise"]:
        k2 = dict(noise_value1=n2, noise_value2=n1)
    e = Cramer_Distance(B, A, **k2)
    if sc["steps"] and sc["p"]:
        e.format_data(p=p, normalize=sc["norm"])
    else:
        e.format_data(normalize=sc["norm"])
    e.cramer_statistic()
    mon.close("exchange", e.distance, d.distance, rtol=1e-7, atol=1e-6 * t)
    if X.shape == Y.shape or True:
        ch = rng.permutation(a.shape[0])
        f = Cramer_Distance(a[ch], b, **k)
        f.format_data(p=p, normalize=sc["norm"])
        if X.shape[1] <= Y.shape[1]:
            f.cramer_statistic()
            mon.close("channel-order", f.distance, d.distance, rtol=1e-6,
                      atol=1e-6 * t)
        yy = rng.permutation(a.shape[1])
        xx = rng.permutation(a.shape[2])
        f = Cramer_Distance(a[:, yy][:, :, xx], b, **k)
        f.format_data(p=p, normalize=sc["norm"])
        mon.close("pixel-order", f.data_matrix1, gx, rtol=1e-9)
    for jobs in (2, 3):
        d.cramer_statistic(n_jobs=jobs)
        mon.close("workers", d.distance, want, rtol=1e-6, atol=1e-6 * t)
    z = Cramer_Distance(a, a.copy())
    z.distance_metric(normalize=sc["norm"])
    zt = tol(z.data_matrix1, z.data_matrix1)
    mon.ok("self", abs(z.distance) <= zt, observed=float(z.distance),
           limit=zt)
    s = gen.factor(rng)
    f = Cramer_Distance(a * s, b, noise_value1=n1 * s if np.isfinite(n1)
                        else n1, noise_value2=n2)
    f.format_data(p=p, normalize=sc["norm"])
    f.cramer_statistic()
    mon.close("scaled", f.distance, want, rtol=1e-6, atol=1e-5 * t)


def f_spectra(sc, mon):
    from turbustat.statistics import Cramer_Distance
    rng = gen.rng_of(sc["name"], sc["seed"])
    a, b = cubes(rng, sc)
    n = int(rng.integers(5, min(a[0].size, b[0].size) // 2))
    if sc.get("holes"):
        # values missing in spectra that are not among the brightest ones
        for c in (a, b):
            o = np.argsort(c.sum(0).ravel())[:c[0].size // 3]
            for q in rng.choice(o, 4, replace=False):
                c.reshape(c.shape[0], -1)[rng.integers(c.shape[0]), q] = np.nan
            c.reshape(c.shape[0], -1)[:, o[0]] = np.nan
    d = Cramer_Distance(a.copy(), b.copy())
    fmt = "".join(list("spectra"))
    d.format_data(data_format=fmt, num_spec=n, normalize=sc["norm"])
    for nm, g, c in (("1", d.data_matrix1, a), ("2", d.data_matrix2, b)):
        s = c.reshape(c.shape[0], -1)
        o = np.argsort(np.nansum(s, 0))[::-1]
        W = s[:, o[:n]]
        if sc["norm"]:
            W = W / np.linalg.svd(W)[1][0]
        g = np.asarray(g)
        if not mon.ok("spectra-shape", g.shape == W.shape, observed=g.shape):
            continue
        gi = np.lexsort(np.round(g, 12)[::-1])
        wi = np.lexsort(np.round(W, 12)[::-1])
        mon.close("spectra-" + nm, g[:, gi], W[:, wi], rtol=1e-9, floor=1e-9)
    d.cramer_statistic()
    X, Y = np.asarray(d.data_matrix1), np.asarray(d.data_matrix2)
    mon.close("spectra-distance", d.distance, cramer(X, Y), rtol=1e-6,
              atol=1e-6 * tol(X, Y))


def f_reject(sc, mon):
    from turbustat.statistics import Cramer_Distance
    rng = gen.rng_of(sc["name"], sc["seed"])
    a = rng.gamma(2., 1., (5, 8, 9))
    d = Cramer_Distance(a, a)
    mon.raises("format", NameError, d.format_data, data_format="other")
    mon.raises("no-number", ValueError, d.format_data, data_format="spectra",
               num_spec=None)


def f_seed(sc, mon):
    from turbustat.statistics import Cramer_Distance
    rng = gen.rng_of(sc["name"], sc["seed"])
    a, b = cubes(rng, sc)
    out = []
    for g in (1, 2):
        np.random.seed(g)
        before = np.random.get_state()
        d = Cramer_Distance(a.copy(), b.copy())
        d.format_data(seed=77)
        d.cramer_statistic()
        after = np.random.get_state()
        mon.ok("random-state", np.array_equal(before[1], after[1]) and
               before[2] == after[2], observed=g)
        out.append((np.array(d.data_matrix1), np.array(d.data_matrix2),
                    float(d.distance)))
    for x, y in zip(*out):
        mon.close("same-seed", x, y, rtol=0, floor=0)
    d.format_data(seed=78)
    diff = not np.array_equal(d.data_matrix2, out[0][1]) or \
        not np.array_equal(d.data_matrix1, out[0][0])
    mon.ok("other-seed", diff, observed=d.data_matrix1)


FNS = {"main": f_main, "spectra": f_spectra, "reject": f_reject,
       "seed": f_seed}


def scenarios(tier, seed):
    out = []
    k = 4 if tier == "quick" else 8
    rng = gen.rng_of("p20", seed)
    kinds = ["clean", "lines", "positive", "offset"]
    for i in range(60 * k):
        s = (int(rng.integers(4, 16)),) + gen.shapes2d(rng, 7, 18)
        s2 = (int(rng.integers(4, 16)),) + (s[1:] if i % 3 else
                                            gen.shapes2d(rng, 7, 18))
        out.append(dict(name="main-%d" % i, fn="main", seed=seed, shape=s,
                        shape2=s2, kind=kinds[i % 4],
                        kind2=kinds[int(rng.integers(4))],
                        noise=bool(rng.integers(2)), hdr=bool(i % 2),
                        steps=bool(rng.integers(2)),
                        p=[None, 0.5, 0.07, 1.0][i % 4],
                        norm=bool(rng.integers(2)),
                        nan=gen.NAN_PATTERNS[i % 7]))
    for i in range(k // 2):     # many channels
        out.append(dict(name="main-long-%d" % i, fn="main", seed=seed,
                        shape=(int(rng.integers(520, 700)), 4, 5),
                        shape2=(int(rng.integers(520, 700)), 5, 4),
                        kind="positive", kind2="positive", noise=False,
                        hdr=False, steps=bool(i % 2), p=1., norm=True,
                        nan="none"))
    for i in range(16 * k):
        out.append(dict(name="spectra-%d" % i, fn="spectra", seed=seed,
                        shape=(int(rng.integers(4, 16)),) +
                        gen.shapes2d(rng, 7, 18),
                        shape2=(int(rng.integers(4, 16)),) +
                        gen.shapes2d(rng, 7, 18), kind="lines",
                        kind2="positive", norm=bool(i % 2),
                        holes=i % 4 > 1))
    for i in range(6 * k):
        s = (int(rng.integers(4, 12)),) + gen.shapes2d(rng, 9, 14)
        s2 = (s[0],) + tuple(x + 3 for x in s[1:])
        if i % 2:
            s, s2 = s2, s
        out.append(dict(name="seed-%d" % i, fn="seed", seed=seed, shape=s,
                        shape2=s2, kind="lines", kind2="positive"))
    out.append(dict(name="reject-0", fn="reject", seed=seed))
    return out
