"""P31: one call to run is its published steps with the same options."""
import warnings

import numpy as np
import astropy.units as u
from .. import gen, stats

ID = "P31"
RULE = ("One evaluation = one public result of `run` with a drawn set of "
        "options compared with the same result of a second object on which "
        "the steps were called one after another with those options, or a "
        "refusal by both; distinct = different (statistic, result, "
        "content).")
SAME = dict(rtol=1e-10, floor=1e-11, atol=1e-14, fitted=1e-7)


def pick(rng, *vals):
    return vals[int(rng.integers(len(vals)))]


def coin(rng, p=.5):
    return bool(rng.random() < p)


def pspec(rng, shape, pix):
    run, comp, rad, fit, two = {}, {}, {}, {}, {}
    if coin(rng, .6):
        k = pick(rng, "tukey", "hanning", "cosinebell", "splitcosinebell")
        comp["apodize_kernel"] = k
        if k != "hanning":
            comp["alpha"] = float(rng.uniform(.15, .8))
        if k == "splitcosinebell":
            comp["alpha"] = float(rng.uniform(.1, .45))
            comp["beta"] = float(rng.uniform(.1, .5))
    else:
        comp["alpha"] = .3
    comp["beam_correct"] = coin(rng, .3)
    run.update(comp)
    if coin(rng):
        rad["logspacing"] = coin(rng)
        if coin(rng):
            rad["max_bin"] = float(rng.uniform(.35, .5))
        if coin(rng, .4):
            rad["theta_0"] = float(rng.uniform(-1, 1)) * u.rad
            rad["delta_theta"] = float(rng.uniform(.8, 1.5)) * u.rad
    run["radial_pspec_kwargs"] = rad
    cut = {}
    if coin(rng, .7):
        cut["low_cut"] = float(rng.uniform(.04, .12)) / u.pix
        cut["high_cut"] = float(rng.uniform(.28, .45)) / u.pix
    run.update(cut)
    unb = coin(rng, .25) and not rad.get("logspacing")
    run["fit_unbinned"] = unb
    if coin(rng, .3):
        fit["brk"] = float(rng.uniform(.13, .25)) / u.pix
    if coin(rng, .4) and not rad.get("logspacing") and not unb:
        fit["weighted_fit"] = True
    fit["min_fits_pts"] = int(rng.integers(3, 7))
    boot = int(rng.integers(3))
    if boot == 1 and "brk" not in fit and not unb:
        fit["bootstrap"] = True
        fit["bootstrap_kwargs"] = {"nboot": 15}
    run["fit_kwargs"] = dict(fit)
    run["fit_2D"] = coin(rng, .7)
    two["bootstrap"] = boot == 2
    two["niters"] = int(rng.integers(4, 9))
    if coin(rng):
        two["radial_weighting"] = True
    if coin(rng):
        two["fix_ellip_params"] = True
    if coin(rng, .3) and "theta_0" in rad:
        two["use_azimmask"] = True
    run["fit_2D_kwargs"] = dict(two)

    def steps(o):
        o.compute_pspec(**comp)
        o.compute_radial_pspec(**rad)
        o.fit_pspec(fit_unbinned=unb, **dict(cut, **fit))
        if run["fit_2D"]:
            o.fit_2Dpspec(**dict(cut, **two))
    return run, steps


def vcs(rng, shape, pix):
    fit = {}
    if coin(rng):
        fit["breaks"] = float(rng.uniform(-.9, -.6))
    elif coin(rng):
        fit["breaks"] = float(10**rng.uniform(-.9, -.6))
        fit["log_break"] = False
    if coin(rng, .6):
        fit["low_cut"] = float(rng.uniform(.03, .06)) / u.pix
        fit["high_cut"] = float(rng.uniform(.4, .48)) / u.pix
    if coin(rng, .3):
        fit["bootstrap"] = True
        fit["bootstrap_kwargs"] = {"nboot": 12}

    def steps(o):
        o.compute_pspec()
        o.fit_pspec(**fit)
    return dict(fit), steps


def fitlim(rng, m, brk=True):
    r = {}
    if coin(rng, .7):
        r["xlow"] = float(rng.uniform(2.2, 4.)) * u.pix
        r["xhigh"] = m / float(rng.uniform(2.4, 3.2)) * u.pix
    if brk and coin(rng, .4):
        r["brk"] = m / float(rng.uniform(3.8, 5)) * u.pix
    return r


def wavelet(rng, shape, pix):
    m = min(shape)
    comp = dict(scale_normalization=coin(rng))
    if coin(rng):
        comp["convolve_kwargs"] = dict(boundary=pick(rng, "fill", "wrap"))
    lim = fitlim(rng, m)
    fit = {}
    if coin(rng):
        fit["weighted_fit"] = True
    if coin(rng, .3) and "brk" not in lim:
        fit["bootstrap"] = True
        fit["bootstrap_kwargs"] = {"nboot": 12}
    fit["min_fits_pts"] = int(rng.integers(3, 6))

    def steps(o):
        o.compute_transform(show_progress=False, **comp)
        o.fit_transform(**dict(lim, **fit))
    return dict(comp, fit_kwargs=dict(fit), show_progress=False,
                **lim), steps


def delvar(rng, shape, pix):
    m = min(shape)
    comp = dict(boundary=pick(rng, "wrap", "fill"),
                nan_treatment=pick(rng, "fill", "interpolate"),
                preserve_nan=coin(rng), allow_huge=coin(rng))
    lim = fitlim(rng, m)
    fit = {}
    if coin(rng):
        fit["weighted_fit"] = True
    if coin(rng, .3) and "brk" not in lim:
        fit["bootstrap"] = True
        fit["bootstrap_kwargs"] = {"nboot": 12}

    def steps(o):
        o.compute_deltavar(show_progress=False, **comp)
        o.fit_plaw(**dict(lim, **fit))
    return dict(comp, fit_kwargs=dict(fit), show_progress=False,
                **lim), steps


def bispec(rng, shape, pix):
    r = dict(nsamples=int(rng.integers(10, 40)), show_progress=False,
             seed=int(rng.integers(1, 10**6)), mean_subtract=coin(rng))
    return r, lambda o: o.compute_bispectrum(**r)


def genus(rng, shape, pix):
    r = dict(min_size=int(rng.integers(1, 9)),
             connectivity=int(rng.integers(1, 3)),
             enable_small_removal=coin(rng), match_kernel=coin(rng, .3),
             keep_smoothed_images=coin(rng))
    if coin(rng):
        r["boundary"] = pick(rng, "wrap", "fill")
    return r, lambda o: o.make_genus_curve(**r)


def moments(rng, shape, pix):
    r = dict(periodic=coin(rng), min_frac=float(rng.uniform(.3, .95)),
             radius=float(rng.integers(3, 7)) * u.pix)
    h = {}
    for n in ("mean_bins", "variance_bins", "skewness_bins",
              "kurtosis_bins"):
        if coin(rng):
            h[n] = np.sort(rng.uniform(-2, 8, int(rng.integers(5, 15))))

    def steps(o):
        o.array_moments()
        o.compute_spatial_distrib(show_progress=False, **r)
        o.make_spatial_histograms(**h)
    return dict(r, show_progress=False, **h), steps


def tsallis(rng, shape, pix):
    r = dict(periodic=coin(rng), num_bins=pick(rng, None, 12, 23))
    s = float(rng.uniform(1.5, 6))

    def steps(o):
        o.make_tsallis(**r)
        o.fit_tsallis(sigma_clip=s)
    return dict(r, sigma_clip=s), steps


def pdf(rng, shape, pix):
    import scipy.stats as ss
    bins = pick(rng, None, 12, 31)
    fit = coin(rng, .7)
    k = {}
    if fit:
        k = dict(model=pick(rng, ss.lognorm, ss.gamma, ss.norm),
                 floc=coin(rng), loc=pick(rng, 0., -.2))
        if coin(rng, .3):
            k.update(fscale=True, scale=float(rng.uniform(.8, 2)))
        if k["floc"] and k.get("fscale") and k["model"] is ss.norm:
            k["floc"] = False

    def steps(o):
        o.make_pdf(bins=bins)
        o.make_ecdf()
        if fit:
            o.fit_pdf(**k)
    return dict(bins=bins, do_fit=fit, **k), steps


def dendro(rng, shape, pix):
    per = coin(rng)
    fit = dict(size=int(rng.choice([3, 5])))
    hist = coin(rng, .7)
    hk = {}
    if coin(rng):
        hk["min_number"] = int(rng.integers(2, 20))
    if coin(rng):
        hk["bins"] = int(rng.integers(4, 9))

    def steps(o):
        o.compute_dendro(show_progress=False, periodic_bounds=per)
        o.fit_numfeat(**fit)
        if hist:
            o.make_hists(**hk)
    return dict(periodic_bounds=per, fit_kwargs=dict(fit), make_hists=hist,
                hist_kwargs=dict(hk), show_progress=False), steps


def scf(rng, shape, pix):
    b = pick(rng, "continuous", "cut")
    lim, fit, rad, two = {}, {}, {}, {}
    if coin(rng, .7):
        lim = dict(xlow=float(rng.uniform(.4, 1.2)) * u.pix,
                   xhigh=float(rng.uniform(3.2, 4.6)) * u.pix)
    boot = int(rng.integers(3))
    if boot == 1:
        fit = dict(bootstrap=True, bootstrap_kwargs=dict(nboot=12)) \
            if coin(rng) else dict(bootstrap=True, nboot=12)
        fit.pop("bootstrap_kwargs", None)
    if coin(rng):
        rad["logspacing"] = coin(rng)
        if coin(rng):
            rad["theta_0"] = float(rng.uniform(-1, 1)) * u.rad
            rad["delta_theta"] = float(rng.uniform(.8, 1.5)) * u.rad
    two = dict(bootstrap=boot == 2, niters=int(rng.integers(3, 7)))
    if coin(rng, .3) and "theta_0" in rad:
        two["use_azimmask"] = True
    fit2 = coin(rng, .6)

    def steps(o):
        o.compute_surface(boundary=b, show_progress=False)
        o.compute_spectrum(**rad)
        o.fit_plaw(**dict(lim, **fit))
        if fit2:
            o.fit_2Dplaw(**dict(lim, **two))
    return dict(lim, boundary=b, fit_kwargs=dict(fit), fit_2D=fit2,
                fit_2D_kwargs=dict(two), radialavg_kwargs=dict(rad),
                show_progress=False), steps


def pca(rng, shape, pix):
    comp = dict(mean_sub=coin(rng))
    k = int(rng.integers(3))
    if k == 0:
        comp["n_eigs"] = int(rng.integers(3, 7))
    elif k == 1:
        comp.update(n_eigs="auto", min_eigval=float(rng.uniform(.9, .999)),
                    eigen_cut_method="proportion")
    else:
        comp.update(n_eigs="auto", min_eigval=float(10**rng.uniform(-3, 0)),
                    eigen_cut_method="value")
    sp = pick(rng, "contour", "fit", "interpolate", "xinterpolate")
    sv = pick(rng, "walk-down", "fit", "interpolate")
    wid = dict(brunt_beamcorrect=coin(rng))
    if coin(rng):
        wid["beam_fwhm"] = (float(rng.uniform(.5, 2)) * pix *
                            u.deg).to(pick(rng, u.arcsec, u.deg))
    lim = {}
    if coin(rng):
        lim = dict(xlow=float(rng.uniform(.2, 1.)) * u.pix,
                   xhigh=float(rng.uniform(4., 9.)) * u.pix)
    lim["fit_method"] = "odr"
    only = coin(rng, .2)

    def steps(o):
        o.compute_pca(show_progress=False, **comp)
        if only:
            return
        o.find_spatial_widths(method=sp, **wid)
        o.find_spectral_widths(method=sv)
        o.fit_plaw(**lim)
    return dict(dict(comp, **wid), spatial_method=sp, spectral_method=sv,
                decomp_only=only, show_progress=False, **lim), steps


OPTS = dict(PowerSpectrum=pspec, VCA=pspec, MVC=pspec, VCS=vcs,
            Wavelet=wavelet, DeltaVariance=delvar, Bispectrum=bispec,
            Genus=genus, StatMoments=moments, Tsallis=tsallis, PDF=pdf,
            PDF3=pdf, Dendrogram_Stats=dendro, Dendrogram3=dendro, SCF=scf, PCA=pca)


def fresh(st, a, h, ctor):
    if st.dim == "mvc":
        return st.build([x.copy() for x in a], dict(ctor), header=h.copy())
    return st.build((a.copy(), h.copy()), dict(ctor))


def attempt(fn, seed):
    np.random.seed(seed)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        try:
            fn()
        except Exception as e:
            return e
        except Warning as e:
            return e
    return None


def f_steps(sc, mon):
    rng = gen.rng_of(sc["name"], sc["seed"])
    st = stats.STATS[sc["stat"]]
    a, h = stats.data_for(st, rng, nan=sc["nan"])
    pix = abs(h["CDELT2"])
    h["BMAJ"], h["BMIN"], h["BPA"] = 1.6 * pix, 1.6 * pix, 0.
    shape = (a[0] if st.dim == "mvc" else a).shape
    ctor, _ = st.variant(rng, shape, sc["var"])
    for j in range(sc["reps"]):
        run, steps = OPTS[sc["stat"]](rng, shape[-2:], pix)
        o1, o2 = fresh(st, a, h, ctor), fresh(st, a, h, ctor)
        seed = int(rng.integers(2**31))
        e1 = attempt(lambda: o1.run(**run), seed)
        e2 = attempt(lambda: steps(o2), seed)
        if e1 is not None or e2 is not None:
            mon.ok("%s-refused-alike" % sc["stat"], type(e1) is type(e2),
                   observed=repr(e1), want=repr(e2), options=repr(run))
            continue
        got, want = stats.collect(o1), stats.collect(o2)
        mon.ok("%s-same-results" % sc["stat"], set(got) == set(want),
               observed=sorted(set(got) ^ set(want)))
        stats.compare(mon, "%s-run-is-steps" % sc["stat"], got, want,
                      options=repr(run)[:300], **SAME)


FNS = dict(steps=f_steps)


def scenarios(tier, seed):
    rng = gen.rng_of("P31", seed, tier)
    k = 8 if tier == "quick" else 60
    out = []
    for s in OPTS:
        if s not in stats.STATS:
            continue
        n = stats.STATS[s].nvar
        for j in range(k):
            out.append(dict(name="steps-%s-%d" % (s, j), fn="steps", stat=s,
                            var=j % n, reps=3, seed=seed,
                            nan="none" if j % 2 else
                            str(rng.choice(["none", "scatter", "border"]))))
    return out
