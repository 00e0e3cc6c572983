"""P18: PDFs, ECDFs, distribution fits and their distances."""
import numpy as np
from .. import gen

ID = "P18"
RULE = ("One evaluation = a histogram, distribution function, percentile, "
        "fitted parameter, likelihood or distance compared with an "
        "independent computation on the retained values; distinct = different "
        "(clause, content).")
NORMS = [None, "standardize", "center", "normalize", "normalize_by_mean"]


def norm(v, how):
    if how == "standardize":
        return (v - v.mean()) / np.sqrt(((v - v.mean())**2).mean())
    if how == "center":
        return v - v.mean()
    if how == "normalize":
        return (v - v.min()) / (v.max() - v.min())
    if how == "normalize_by_mean":
        return v / v.mean()
    return v


def retained(img, minv, wgt, how):
    keep = np.isfinite(img)
    with np.errstate(invalid="ignore"):
        keep &= img > minv
    v = img[keep]
    if wgt is not None:
        w = wgt[keep]
        v = v[np.isfinite(w)] * w[np.isfinite(w)]
    return norm(v, how)


def dens(v, edges):
    n = np.array([((v >= a) & (v < b)).sum()
                  for a, b in zip(edges[:-1], edges[1:])], float)
    n[-1] += (v == edges[-1]).sum()
    return n / n.sum() / np.diff(edges), n


def near_edges(v, edges):
    """Number of values that rounding could put in either bin."""
    s = max(np.abs(edges).max(), 1e-300)
    return int((np.abs(v[:, None] - edges[None, 1:-1]).min(1) <
                1e-12 * s).sum()) if len(edges) > 2 else 0


def data_of(rng, sc):
    shape = tuple(sc["shape"])
    if len(shape) == 1:
        img = np.exp(0.6 * rng.standard_normal(shape))
        if sc["nan"] != "none":
            img[rng.choice(shape[0], 5, replace=False)] = np.nan
    elif len(shape) == 2:
        img = gen.punch(rng, gen.image(rng, shape, sc["kind"]), sc["nan"])
    else:
        img = gen.punch(rng, gen.cube(rng, shape, "positive"), sc["nan"])
    return img


def f_pdf(sc, mon):
    from turbustat.statistics import PDF
    rng = gen.rng_of(sc["name"], sc["seed"])
    img = data_of(rng, sc)
    minv = -np.inf
    if sc["min"]:
        minv = float(np.nanpercentile(img, rng.uniform(3, 40))) + \
            1e-7 * np.nanstd(img)
        if rng.integers(2):     # some values exactly at the minimum
            at = rng.choice(np.flatnonzero(np.isfinite(img)), 6)
            img.flat[at] = minv
    w = None
    if sc["w"]:
        w = rng.uniform(0.5, 2., img.shape)
        if sc["w"] == "missing":
            w.flat[rng.choice(img.size, 5, replace=False)] = np.nan
    v = retained(img, minv, w, sc["norm"])
    if v.size < 20 or v.max() == v.min():
        mon.skip("too few values")
        return
    raw = retained(img, minv, w, None)
    if sc["norm"] == "normalize_by_mean" and \
            abs(raw.mean()) < 1e-6 * raw.std():
        mon.skip("a mean of zero up to rounding")
        return
    k = {}
    if sc["min"]:
        k["min_val"] = minv
    lo, hi = v.min(), v.max()
    bins = {"default": None, "int": int(rng.integers(5, 40)),
            "array": np.linspace(lo, hi, 17),
            "narrow": np.linspace(lo + .1 * (hi - lo), hi - .2 * (hi - lo), 9),
            "uneven": np.sort(np.r_[lo, rng.uniform(lo, hi, 9), hi])
            }[sc["bins"]]
    p = PDF(img.copy(), weights=None if w is None else w.copy(),
            normalization_type=sc["norm"],
            bins=bins if not sc["late"] else None, **k)
    mon.close("retained", np.sort(p.data), np.sort(v), rtol=1e-9, floor=1e-11)
    if sc["late"]:
        p.run(do_fit=False, bins=bins)
    elif sc["steps"]:
        p.make_pdf()
        p.make_ecdf()
    else:
        p.run(do_fit=False)
    if bins is None:
        n = int(np.round(np.sqrt(v.size)))
    elif np.isscalar(bins):
        n = bins
    if bins is None or np.isscalar(bins):
        edges = np.linspace(lo, hi, n + 1)
    else:
        edges = bins
    mid = (edges[1:] + edges[:-1]) / 2.
    mon.close("bins", p.bins, mid, rtol=1e-8)
    want, cnt = dens(v, edges)
    slack = near_edges(v, edges)
    wid = np.diff(edges)
    if np.shape(p.pdf) == want.shape:
        dn = np.abs(np.asarray(p.pdf) - want) * wid * cnt.sum()
        mon.ok("pdf", (dn < 1e-6 * cnt.sum() + slack).all() and
               (slack > 0 or np.allclose(p.pdf, want, rtol=1e-8)),
               observed=p.pdf, worst=float(dn.max()), slack=slack)
        mon.ok("pdf-area", abs((np.asarray(p.pdf) * wid).sum() - 1) < 1e-9,
               observed=float((np.asarray(p.pdf) * wid).sum()))
    else:
        mon.fail("pdf", got=np.shape(p.pdf), want=want.shape)
    sv = np.sort(v)
    e = np.array([(v <= b).mean() for b in mid])
    lo_ = np.array([(v <= b - 1e-10 * abs(b)).mean() for b in mid])
    hi_ = np.array([(v <= b + 1e-10 * abs(b)).mean() for b in mid])
    g = np.asarray(p.ecdf, float)
    mon.ok("ecdf", g.shape == e.shape and ((g >= lo_ - 1e-9) &
                                          (g <= hi_ + 1e-9)).all(),
           observed=g)
    mon.ok("ecdf-monotone", (np.diff(g) >= -1e-12).all() and g.min() >= 0 and
           g.max() <= 1, observed=g)
    q = np.sort(rng.uniform(lo, hi, 15))
    mon.close("percentile-of", p.find_percentile(q),
              100. * np.array([(v <= b).mean() for b in q]), rtol=1e-9)
    # at values that occur in the data themselves, and (twice) at repeated ones
    own = np.asarray(p.data, float).ravel()
    at = np.r_[rng.choice(own, 8), own.min(), own.max()]
    mon.close("percentile-of-own", p.find_percentile(at),
              100. * np.array([(own <= b).mean() for b in at]), rtol=1e-9)
    mon.close("percentile-ends", p.find_percentile(
        np.array([lo - 1e-3 * (hi - lo), hi + 1e-3 * (hi - lo)])),
        np.array([0., 100.]))
    pc = np.sort(np.r_[0., rng.uniform(0, 100, 9), 100.])
    pos = pc / 100. * (sv.size - 1)
    i0 = np.floor(pos).astype(int)
    i1 = np.minimum(i0 + 1, sv.size - 1)
    want = sv[i0] + (pos - i0) * (sv[i1] - sv[i0])
    mon.close("at-percentile", p.find_at_percentile(pc), want, rtol=1e-8)
    mid_pc = pc[1:-1]
    mon.ok("inverse", (np.abs(p.find_percentile(p.find_at_percentile(mid_pc)) -
                              mid_pc) <= 100. / sv.size + 100. *
                       (1 - np.unique(sv).size / float(sv.size)) + 1e-6).all(),
           observed=mid_pc)
    for bad in (-0.1, 100.01, np.array([5., 101.]), np.array([-1., 50.]),
                np.array([101., 5.]), np.array([-1e-6]), -50., 1000.):
        mon.raises("percentile-range", ValueError, p.find_at_percentile, bad)
    fresh = PDF(img.copy(), weights=None if w is None else w.copy(),
                normalization_type=sc["norm"], **k)
    mon.close("percentile-first", fresh.find_percentile(q),
              100. * np.array([(v <= b).mean() for b in q]), rtol=1e-9)
    mon.close("percentile-one", fresh.find_percentile(float(q[3])),
              100. * (v <= q[3]).mean(), rtol=1e-9)
    fresh = PDF(img.copy(), weights=None if w is None else w.copy(),
                normalization_type=sc["norm"], **k)
    mon.close("at-percentile-first", fresh.find_at_percentile(pc), want,
              rtol=1e-8)
    # again on the same object
    before = np.array(p.pdf), np.array(p.bins), np.array(p.ecdf)
    p.run(do_fit=False, **({"bins": bins} if sc["late"] else {}))
    mon.close("rerun-pdf", p.pdf, before[0], rtol=1e-12)
    mon.close("rerun-bins", p.bins, before[1], rtol=1e-12)
    mon.close("rerun-ecdf", p.ecdf, before[2], rtol=1e-12)
    p.run(do_fit=False, bins=6)
    mon.close("rebinned", p.bins, (np.linspace(lo, hi, 7)[1:] +
                                   np.linspace(lo, hi, 7)[:-1]) / 2.,
              rtol=1e-8)


def f_fit(sc, mon):
    from turbustat.statistics import PDF
    from scipy import stats
    rng = gen.rng_of(sc["name"], sc["seed"])
    n = int(sc["n"])
    s = float(rng.uniform(0.2, 1.2))
    scale = float(10**rng.uniform(-1.5, 2))
    v = scale * np.exp(s * rng.standard_normal(n))
    if sc["model"] == "lognorm":
        p = PDF(v.copy())
        p.run(verbose=False)
        lv = np.log(v)
        mu = lv.mean()
        sg = np.sqrt(((lv - mu)**2).mean())
        mon.ok("params-count", len(p.model_params) == 2,
               observed=len(p.model_params))
        mon.close("lognorm-width", p.model_params[0], sg, rtol=2e-3)
        mon.close("lognorm-scale", np.log(p.model_params[1]), mu, rtol=0,
                  atol=2e-3 * sg + 1e-4)
        se = np.asarray(p.model_stderrs, float)
        if np.isfinite(se).all():
            mon.close("lognorm-width-err", se[0], sg / np.sqrt(2. * n),
                      rtol=0.05)
            mon.close("lognorm-scale-err", se[1], np.exp(mu) * sg /
                      np.sqrt(n), rtol=0.05)
        f = gen.factor(rng)
        q = PDF(v * f).run()
        mon.close("scale-width", q.model_params[0], p.model_params[0],
                  rtol=3e-3)
        mon.close("scale-scale", q.model_params[1], f * p.model_params[1],
                  rtol=3e-3)
        return
    if sc["model"] == "expon-like":
        # gamma: compare the attained likelihood with an independent fit
        a = float(rng.uniform(1.5, 5))
        v = rng.gamma(a, scale, n)
        p = PDF(v.copy())
        p.run(model=stats.gamma)
        a_, sc_ = p.model_params
        got = stats.gamma.logpdf(v, a_, scale=sc_).sum()
        from scipy.special import digamma
        from scipy.optimize import brentq
        c = np.log(v.mean()) - np.log(v).mean()
        ah = brentq(lambda x: np.log(x) - digamma(x) - c, 1e-2, 1e4)
        best = stats.gamma.logpdf(v, ah, scale=v.mean() / ah).sum()
        mon.ok("gamma-likelihood", got >= best - 0.05, observed=got - best)
        mon.close("gamma-shape", a_, ah, rtol=2e-2)
        return
    if sc["model"] == "pareto":
        a = float(rng.uniform(1.2, 4))
        xm = float(10**rng.uniform(-1, 1))
        v = xm * (rng.pareto(a, n) + 1)
        p = PDF(v.copy())
        p.fit_pdf(model=stats.pareto, fscale=True, scale=float(v.min()),
                  floc=True, loc=0.)
        want = n / np.log(v / v.min()).sum()
        mon.close("pareto-index", p.model_params[0], want, rtol=5e-3)
        mon.ok("pareto-count", len(p.model_params) == 1,
               observed=len(p.model_params))
        return
    if sc["model"] == "both-fixed":
        p = PDF(v.copy())
        p.fit_pdf(floc=True, fscale=True, loc=0., scale=scale)
        want = np.sqrt((np.log(v / scale)**2).mean())
        mon.close("fixed-width", p.model_params[0], want, rtol=3e-3)
        return
    if sc["model"] == "scale-fixed":
        p = PDF(v.copy())
        p.fit_pdf(floc=False, fscale=True, scale=scale)
        sh, lc = p.model_params
        got = stats.lognorm.logpdf(v, sh, loc=lc, scale=scale).sum()
        s0 = np.sqrt((np.log(v / scale)**2).mean())
        ref = stats.lognorm.logpdf(v, s0, loc=0., scale=scale).sum()
        mon.ok("scale-fixed-likelihood", got >= ref - 0.05,
               observed=got - ref)
        return
    if sc["model"] == "free":
        p = PDF(v.copy())
        p.fit_pdf(floc=False)
        mon.ok("free-count", len(p.model_params) == 3,
               observed=len(p.model_params))
        sh, lc, sl = p.model_params
        got = stats.lognorm.logpdf(v, sh, loc=lc, scale=sl).sum()
        lv = np.log(v)
        ref = stats.lognorm.logpdf(v, lv.std(), scale=np.exp(lv.mean())).sum()
        mon.ok("free-likelihood", got >= ref - 0.05, observed=got - ref)
        return
    if sc["model"] == "shifted":
        loc = float(rng.uniform(1, 10))
        p = PDF(v + loc)
        p.fit_pdf(floc=True, loc=loc)
        lv = np.log(v)
        mon.close("shifted-width", p.model_params[0], lv.std(), rtol=3e-3)
        mon.close("shifted-scale", np.log(p.model_params[1]), lv.mean(),
                  rtol=0, atol=3e-3)
        return
    if sc["model"] == "mcmc":
        v = (v / scale)[:400] * float(rng.uniform(0.8, 3.))
        p = PDF(v.copy())
        p.fit_pdf(fit_type="mcmc", burnin=150, steps=300, thin=2)
        lv = np.log(v)
        mon.close("mcmc-width", p.model_params[0], lv.std(),
                  rtol=8. / np.sqrt(2 * v.size))
        mon.close("mcmc-scale", np.log(p.model_params[1]), lv.mean(), rtol=0,
                  atol=8 * lv.std() / np.sqrt(v.size))
        lo, hi = p.model_stderrs
        mon.ok("mcmc-range", (lo <= hi).all() and lo[0] < p.model_params[0] <
               hi[0], observed=np.array([lo, hi]))


def f_dist(sc, mon):
    from turbustat.statistics import PDF_Distance
    rng = gen.rng_of(sc["name"], sc["seed"])
    s1, s2 = tuple(sc["shape"]), tuple(sc["shape2"])
    how = sc["norm"]
    a = gen.punch(rng, np.exp(0.5 * gen.plaw2d(rng, s1, 2.5)), sc["nan"])
    b = gen.punch(rng, 1.3 * np.exp(0.7 * gen.plaw2d(rng, s2, 3.)), "none")
    m1 = m2 = -np.inf
    if sc["min"]:
        m1 = float(np.nanpercentile(a, 10)) + 1e-7
        m2 = float(np.nanpercentile(b, 15)) + 1e-7
    w1 = w2 = None
    if sc["w"]:
        w1, w2 = rng.uniform(.6, 2., s1), rng.uniform(.6, 2., s2)
    va, vb = retained(a, m1, w1, how), retained(b, m2, w2, how)
    fit = how in (None, "normalize_by_mean") and sc["fit"]
    k = dict(do_fit=fit, normalization_type=how, weights1=w1, weights2=w2)
    if sc["min"]:
        k.update(min_val1=m1, min_val2=m2)
    lo, hi = min(va.min(), vb.min()), max(va.max(), vb.max())
    nb = int(np.floor(np.sqrt((va.size + vb.size) / 2.)))
    if sc["nbins"]:
        k["nbins"] = nb = sc["nbins"]
    if sc["lim"]:
        lo2, hi2 = lo + .13 * (hi - lo), hi - .27 * (hi - lo)
        k.update(bin_min=lo2, bin_max=hi2)
        lo, hi = lo2, hi2
    d = PDF_Distance(a, b, **k)
    edges = np.linspace(lo, hi, nb)
    mon.close("common-bins", d.bins, edges, rtol=1e-8)
    mon.close("common-centres", d.bin_centers, (edges[1:] + edges[:-1]) / 2.,
              rtol=1e-8)
    stat = "".join(list(sc["stat"]))     # not the interned literal
    d.distance_metric(statistic=stat)
    if stat in ("all", "hellinger"):
        pa, na = dens(va, np.asarray(d.bins))
        pb, nb_ = dens(vb, np.asarray(d.bins))
        # normalised by the bin-width-free sum of densities
        pa, pb = pa / pa.sum(), pb / pb.sum()
        want = np.sqrt(((np.sqrt(pa) - np.sqrt(pb))**2).sum() / 2.)
        sl = near_edges(va, edges) + near_edges(vb, edges)
        mon.close("hellinger", d.hellinger_distance, want, rtol=1e-7,
                  atol=0.05 * sl)
        mon.ok("hellinger-range", 0 <= d.hellinger_distance <= 1 + 1e-12,
               observed=d.hellinger_distance)
    if stat in ("all", "ks"):
        x = np.sort(np.r_[va, vb])
        Fa = np.searchsorted(np.sort(va), x, side="right") / float(va.size)
        Fb = np.searchsorted(np.sort(vb), x, side="right") / float(vb.size)
        mon.close("ks", d.ks_distance, np.abs(Fa - Fb).max(), rtol=1e-9,
                  atol=1.5 / min(va.size, vb.size)
                  if how in ("normalize", "standardize") else 1e-9)
        mon.ok("ks-p", 0 <= d.ks_pval <= 1, observed=d.ks_pval)
    if fit and stat in ("all", "lognormal"):
        se = [np.log(v).std() / np.sqrt(2. * v.size) for v in (va, vb)]
        diff = abs(np.log(va).std() - np.log(vb).std())
        want = diff / np.hypot(*se)
        mon.close("lognormal", d.lognormal_distance, want, rtol=0.06,
                  atol=0.1)
        q = (abs(d.PDF1.model_params[0] - d.PDF2.model_params[0]) /
             np.hypot(d.PDF1.model_stderrs[0], d.PDF2.model_stderrs[0]))
        mon.close("lognormal-formula", d.lognormal_distance, q, rtol=1e-9)
    # exchange
    k2 = dict(k)
    k2["weights1"], k2["weights2"] = w2, w1
    if sc["min"]:
        k2.update(min_val1=m2, min_val2=m1)
    e = PDF_Distance(b, a, **k2)
    e.distance_metric(statistic=stat)
    for nm in ("hellinger_distance", "ks_distance", "lognormal_distance"):
        if hasattr(d, nm):
            mon.close("exchange-" + nm, getattr(e, nm), getattr(d, nm),
                      rtol=1e-9, atol=1e-12)
    z = PDF_Distance(a, a, do_fit=False, normalization_type=how)
    z.distance_metric()
    mon.close("self", np.array([z.hellinger_distance, z.ks_distance]),
              np.zeros(2), atol=1e-12)


def f_reject(sc, mon):
    from turbustat.statistics import PDF, PDF_Distance
    rng = gen.rng_of(sc["name"], sc["seed"])
    v = rng.gamma(2., 1., (20, 21))
    mon.raises("fit-type", ValueError, PDF(v).fit_pdf, fit_type="other")
    mon.raises("no-fit", Exception, lambda: PDF(v).model_params)
    mon.raises("no-fit-err", Exception, lambda: PDF(v).model_stderrs)
    mon.raises("norm-type", ValueError, PDF, v, normalization_type="other")
    for nt in ("standardize", "center"):
        mon.raises("fit-normalised", Exception, PDF_Distance, v, v,
                   do_fit=True, normalization_type=nt)
    d = PDF_Distance(v, 2 * v, do_fit=False)
    mon.raises("stat-name", TypeError, d.distance_metric, statistic="other")
    mon.raises("stat-nofit", Exception, d.distance_metric,
               statistic="lognormal")


def f_utils(sc, mon):
    from turbustat.statistics import stats_utils as su
    rng = gen.rng_of(sc["name"], sc["seed"])
    n = int(rng.integers(3, 50))
    p, q = rng.dirichlet(np.ones(n)), rng.dirichlet(np.ones(n))
    if sc["i"] % 3 == 0:
        p[rng.integers(n)] = 0
        p /= p.sum()
    bw = float(rng.uniform(0.1, 3))
    want = np.sqrt(((np.sqrt(p) - np.sqrt(q))**2).sum() / 2.)
    mon.close("hellinger-fn", su.hellinger(p, q), want, rtol=1e-10)
    mon.close("hellinger-sym", su.hellinger(q, p), want, rtol=1e-10)
    mon.close("hellinger-bw", su.hellinger(p, q, bin_width=bw), want * bw,
              rtol=1e-10)
    mon.close("hellinger-self", su.hellinger(p, p), 0., atol=1e-12)
    ok = (p > 0) & (q > 0)
    kl = su.kl_divergence(p, q)
    mon.close("kl-fn", kl, (p[ok] * np.log(p[ok] / q[ok])).sum(), rtol=1e-9,
              atol=1e-12)
    mon.ok("kl-nonneg", kl >= -1e-12, observed=kl)
    x = gen.punch(rng, rng.gamma(2., 3., (9, 11)) + 0.3, "scatter")
    f = x[np.isfinite(x)]
    for nt in NORMS[1:]:
        got = su.data_normalization(x, norm_type=nt)
        mon.close("norm-" + nt, np.asarray(got)[np.isfinite(x)], norm(f, nt),
                  rtol=1e-9, atol=1e-12)
        mon.ok("norm-nan-" + nt, np.array_equal(np.isnan(got), np.isnan(x)),
               observed=got)
    a, b = rng.gamma(2., 1., 70), rng.gamma(3., 2., 110)
    if sc["i"] % 2:
        a[3] = np.nan
    lo = min(np.nanmin(a), np.nanmin(b))
    hi = max(np.nanmax(a), np.nanmax(b))
    nb = int(np.sqrt(90.))
    mon.close("bins-default", su.common_histogram_bins(a, b),
              np.linspace(lo, hi, nb), rtol=1e-10)
    mon.close("bins-n", su.common_histogram_bins(a, b, nbins=13),
              np.linspace(lo, hi, 13), rtol=1e-10)
    mon.close("bins-log", su.common_histogram_bins(a, b, nbins=13,
                                                   logscale=True),
              lo * (hi / lo)**(np.arange(13) / 12.), rtol=1e-9)
    l2, h2 = lo + .2 * (hi - lo), hi - .3 * (hi - lo)
    e, c = su.common_histogram_bins(a, b, nbins=9, min_val=l2, max_val=h2,
                                    return_centered=True)
    mon.close("bins-lim", e, np.linspace(l2, h2, 9), rtol=1e-10)
    mon.close("bins-centre", c, (e[1:] + e[:-1]) / 2., rtol=1e-12)
    e = su.common_histogram_bins(a, b, nbins=9, min_val=lo - 1, max_val=hi + 1)
    mon.close("bins-lim-outside", e, np.linspace(lo, hi, 9), rtol=1e-10)
    mon.raises("bins-2d", ValueError, su.common_histogram_bins,
               a.reshape(7, 10), b)


FNS = {"pdf": f_pdf, "fit": f_fit, "dist": f_dist, "reject": f_reject,
       "utils": f_utils}


def scenarios(tier, seed):
    out = []
    k = 3 if tier == "quick" else 8
    rng = gen.rng_of("p18", seed)
    bins = ["default", "int", "array", "narrow", "uneven"]
    for i in range(110 * k):
        nd = (2, 1, 3, 2)[i % 4]
        shape = (gen.shapes2d(rng, 12, 50) if nd == 2 else
                 (int(rng.integers(60, 900)),) if nd == 1 else
                 (int(rng.integers(3, 9)),) + gen.shapes2d(rng, 8, 16))
        out.append(dict(name="pdf-%d" % i, fn="pdf", seed=seed, shape=shape,
                        kind=gen.IMAGE_KINDS[i % 9],
                        nan=gen.NAN_PATTERNS[(i // 2) % 7],
                        norm=NORMS[(i // 3) % 5], bins=bins[i % 5],
                        min=bool(rng.integers(2)),
                        w=[None, "random", "missing"][int(rng.integers(3))],
                        late=bool(rng.integers(2)),
                        steps=bool(rng.integers(2))))
    models = ["lognorm", "lognorm", "expon-like", "pareto", "both-fixed",
              "scale-fixed", "free", "shifted", "mcmc"]
    for i in range(27 * k):
        out.append(dict(name="fit-%d" % i, fn="fit", seed=seed,
                        n=int(10**rng.uniform(2.6, 3.7)),
                        model=models[i % len(models)]))
    stats = ["all", "hellinger", "ks", "lognormal"]
    for i in range(32 * k):
        st = stats[i % 4]
        nm = NORMS[(i // 2) % 5]
        fit = bool(rng.integers(2))
        if st == "lognormal":
            nm, fit = [None, "normalize_by_mean"][(i // 4) % 2], True
        out.append(dict(name="dist-%d" % i, fn="dist", seed=seed,
                        shape=gen.shapes2d(rng, 18, 40),
                        shape2=gen.shapes2d(rng, 18, 40), norm=nm, fit=fit,
                        stat=st, min=bool(rng.integers(2)),
                        w=bool(rng.integers(2)), lim=bool(rng.integers(2)),
                        nbins=[None, 12][int(rng.integers(2))],
                        nan=gen.NAN_PATTERNS[i % 7]))
    for i in range(2 * k):
        out.append(dict(name="reject-%d" % i, fn="reject", seed=seed))
    for i in range(12 * k):
        out.append(dict(name="utils-%d" % i, fn="utils", seed=seed, i=i))
    return out
