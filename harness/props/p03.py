"""P03: results repeat, and do not depend on what ran before."""
import copy
import os
import pickle
import shutil
import subprocess
import sys
import tempfile

import numpy as np
import astropy.units as u
from .. import gen, stats
from ..core import plain

ID = "P03"
RULE = ("One evaluation = one public result of a statistic, distance or "
        "sampler after a given history (same object again, other options "
        "first, other statistics first, another process, another state of "
        "numpy's generator) compared with the result of a new object that "
        "ran once, or the state of the generator compared before and after "
        "a seeded call.  Distinct = different (clause, content).")

SAME = dict(rtol=1e-10, floor=1e-11, atol=1e-14, fitted=1e-7)

# statistics and variants that draw from numpy's global generator: the
# bootstrap of the 2D fits (on by default), contour widths and bootstraps
DRAWS = {"PowerSpectrum": (0,), "VCA": (0,), "MVC": (0,), "SCF": (0,),
         "PCA": (0, 1, 2, 3), "VCS": ()}


def prepare(sc):
    rng = gen.rng_of(sc["name"], sc["seed"])
    st = stats.STATS[sc["stat"]]
    a, h = stats.data_for(st, rng, nan=sc.get("nan", "none"))
    shape = (a[0] if st.dim == "mvc" else a).shape
    return rng, st, a, h, shape


def build(st, a, h, ctor):
    if st.dim == "mvc":
        return st.build([x.copy() for x in a], dict(ctor), header=h.copy())
    return st.build((a.copy(), h.copy()), dict(ctor))


def once(st, a, h, ctor, run):
    o = build(st, a, h, ctor)
    st.run(o, dict(run))
    return stats.collect(o)


def f_repeat(sc, mon):
    rng, st, a, h, shape = prepare(sc)
    ctor, run = st.variant(rng, shape, sc["var"])
    o = build(st, a, h, ctor)
    try:
        st.run(o, dict(run))
    except Warning:
        mon.skip("cannot be fit")
        return
    want = stats.collect(o)
    st.run(o, dict(run))
    stats.compare(mon, "%s run again" % sc["stat"], stats.collect(o), want,
                  **SAME)
    # other statistics on other data in between
    for other in sc["others"]:
        s2 = stats.STATS[other]
        b, hb = stats.data_for(s2, rng)
        c2, r2 = s2.variant(rng, (b[0] if s2.dim == "mvc" else b).shape,
                            sc["var"])
        try:
            s2.run(build(s2, b, hb, c2), r2)
        except Warning:
            pass
    stats.compare(mon, "%s new object" % sc["stat"],
                  once(st, a, h, ctor, run), want, **SAME)
    st.run(o, dict(run))
    stats.compare(mon, "%s run again later" % sc["stat"], stats.collect(o),
                  want, **SAME)
    # the old object does not change while a new one with other data runs
    b, hb = stats.data_for(st, rng)
    keep = stats.collect(o)
    c2, r2 = st.variant(rng, (b[0] if st.dim == "mvc" else b).shape,
                        (sc["var"] + 1) % st.nvar)
    try:
        o2 = build(st, b, hb, c2)
        st.run(o2, r2)
    except Warning:
        pass
    stats.compare(mon, "%s unaffected by another object" % sc["stat"],
                  stats.collect(o), keep, exact=True)


def f_rerun(sc, mon):
    """A history of runs with other options on one object."""
    rng, st, a, h, shape = prepare(sc)
    ctor, _ = st.variant(rng, shape, sc["hist"][-1])
    o = build(st, a, h, ctor)
    last = raised = None
    for v in sc["hist"]:
        _, last = st.variant(rng, shape, v)
        last = more(st, rng, last, shape, sc)
        raised = None
        try:            # a refused run is part of the history too
            st.run(o, dict(last))
        except Exception as exc:
            raised = exc
    try:
        want = once(st, a, h, ctor, last)
    except Exception as exc:
        mon.ok("%s refuses alike" % sc["stat"], type(exc) is type(raised),
               observed=repr(raised), want=repr(exc))
        return
    if raised is not None:
        mon.ok("%s refuses alike" % sc["stat"], False, observed=repr(raised))
        return
    got = stats.collect(o)
    stats.compare(mon, "%s after other runs" % sc["stat"], got, want, **SAME)


def more(st, rng, run, shape, sc):
    """Vary the options that change what a run computes and leaves."""
    r = dict(run)
    n = st.name
    m = min(shape[-2:])
    if n in ("PowerSpectrum", "VCA", "MVC"):
        k = int(rng.integers(5))
        r["fit_2D"] = bool(k == 0)
        r["fit_2D_kwargs"] = {"niters": 2}
        fk = {}
        if k == 1:
            fk["brk"] = float(rng.uniform(.1, .25)) / u.pix
        if k == 2:
            fk["weighted_fit"] = True
        if k == 3:
            r["fit_unbinned"] = True
            r.pop("fit_kwargs", None)
        if k != 3:
            r["fit_kwargs"] = fk
        if rng.integers(3) == 0:
            r["low_cut"] = float(rng.uniform(.03, .1)) / u.pix
            r["high_cut"] = float(rng.uniform(.3, .5)) / u.pix
        else:
            r.pop("low_cut", None)
            r.pop("high_cut", None)
        if rng.integers(3) == 0:
            r["apodize_kernel"] = str(rng.choice(["tukey", "hanning"]))
        else:
            r.pop("apodize_kernel", None)
            r.pop("alpha", None)
    elif n == "VCS":
        r = {}
        k = int(rng.integers(4))
        if k == 0:
            r["breaks"] = float(rng.uniform(-.9, -.6))
        if k == 1:
            r["low_cut"] = .04 / u.pix
            r["high_cut"] = .45 / u.pix
        if k == 2:
            r["bootstrap"] = True
            r["bootstrap_kwargs"] = {"nboot": 12}
    elif n in ("Wavelet", "DeltaVariance"):
        for q in ("xlow", "xhigh", "brk"):
            r.pop(q, None)
        k = int(rng.integers(4))
        if k == 0:
            r["xlow"], r["xhigh"] = 3.5 * u.pix, m / 3. * u.pix
        if k == 1:
            r["brk"] = m / float(rng.uniform(3.5, 5)) * u.pix
        if k == 2:
            r["fit_kwargs"] = {"weighted_fit": n == "DeltaVariance"}
    elif n == "Tsallis":
        r = {"periodic": bool(rng.integers(2)),
             "sigma_clip": float(rng.uniform(2, 6)),
             "num_bins": [None, 12, 20][int(rng.integers(3))]}
    elif n == "StatMoments":
        r = {"show_progress": False, "periodic": bool(rng.integers(2)),
             "min_frac": float(rng.uniform(.4, .95)),
             "radius": float(rng.integers(3, 6)) * u.pix}
    elif n == "SCF":
        r = {"show_progress": False, "fit_2D": bool(rng.integers(4) == 0),
             "fit_2D_kwargs": {"niters": 2},
             "boundary": str(rng.choice(["continuous", "cut"]))}
        if rng.integers(2):
            r["xlow"], r["xhigh"] = 1 * u.pix, 4. * u.pix
    elif n == "Genus":
        r = {"min_size": int(rng.integers(1, 8)),
             "connectivity": int(rng.integers(1, 3)),
             "standardize_intensity": False}
    elif n == "PDF" or n == "PDF3":
        import scipy.stats as ss
        r = {"bins": [None, 11, 23][int(rng.integers(3))], "do_fit": False}
        if rng.integers(2) and r["do_fit"] is False and sc["fit"]:
            r.update(do_fit=True, model=[ss.norm, ss.gamma][
                int(rng.integers(2))], floc=False)
        if r["bins"] is None:
            r.pop("bins")
    elif n == "PCA":
        r = {"show_progress": False, "n_eigs": int(rng.integers(3, 6)),
             "mean_sub": bool(rng.integers(2)),
             "spatial_method": str(rng.choice(["contour", "fit",
                                               "interpolate"])),
             "spectral_method": str(rng.choice(["walk-down", "interpolate",
                                                "fit"]))}
        if rng.integers(3) == 0:
            r["decomp_only"] = True
    elif n == "Bispectrum":
        r = {"show_progress": False, "nsamples": int(rng.integers(20, 40)),
             "seed": int(rng.integers(1000)),
             "mean_subtract": bool(rng.integers(2))}
    elif n.startswith("Dendro"):
        r = {"show_progress": False,
             "periodic_bounds": bool(rng.integers(2)),
             "make_hists": bool(rng.integers(2)),
             "fit_kwargs": {"size": int(rng.choice([3, 5]))}}
    return r


def f_generator(sc, mon):
    """No dependence on numpy's generator where nothing is drawn from it,
    and none left behind where a seed is given."""
    rng, st, a, h, shape = prepare(sc)
    ctor, run = st.variant(rng, shape, sc["var"])
    if sc["stat"] in ("PowerSpectrum", "VCA", "MVC", "SCF"):
        run = dict(run, fit_2D=False)
    res = []
    for s in (1, 2):
        o = build(st, a, h, ctor)
        np.random.seed(s)
        before = np.random.get_state()
        try:
            o.run(**dict(run))
        except Warning:
            mon.skip("cannot be fit")
            return
        after = np.random.get_state()
        if sc["stat"] != "PCA":
            mon.ok("%s leaves the generator alone" % sc["stat"],
                   before[0] == after[0] and before[2:] == after[2:] and
                   np.array_equal(before[1], after[1]))
        res.append(stats.collect(o))
    skip = ()
    if sc["stat"] == "PCA":      # contour widths draw their error bars
        skip = [n for n in res[0] if "width" in n or "gamma" in n or
                "index" in n or "interc" in n or "sonic" in n]
    stats.compare(mon, "%s whatever the generator" % sc["stat"], res[1],
                  res[0], skip=skip, **SAME)


def f_samplers(sc, mon):
    """Seeded samplers: the same for the same seed, not for another, and
    without touching or reading the global generator."""
    from turbustat.simulator import make_extended, make_3dfield
    from turbustat.statistics import Bispectrum, Cramer_Distance
    from turbustat.statistics.fitting_utils import residual_bootstrap
    import statsmodels.api as sm
    rng = gen.rng_of(sc["name"], sc["seed"])
    n = int(rng.integers(14, 24))
    s1, s2 = [int(v) for v in rng.choice(10**6, 2, replace=False)]
    im = gen.image(rng, (n, n + 3), "positive")
    x = np.linspace(0, 2, 30)
    fit = sm.OLS(2 * x + .1 * rng.standard_normal(30),
                 sm.add_constant(x)).fit()
    c1, c2 = [rng.lognormal(size=(4, n, n)) for _ in range(2)]
    hd = gen.header3d((4, n, n))

    def bis(s):
        b = Bispectrum(im.copy())
        b.compute_bispectrum(show_progress=False, nsamples=15, seed=s)
        return b.bispectrum

    def cram(s):
        c = Cramer_Distance((c1, hd), (c2[:, :-4], hd))
        c.format_data(seed=s)
        c.cramer_statistic()
        return np.array(c.distance)
    fns = {"field": lambda s: make_extended(n + n % 2, powerlaw=2.5,
                                            randomseed=s),
           "field3": lambda s: plain(make_3dfield(8, powerlaw=3.,
                                                  randomseed=s)),
           "bispectrum": bis,
           "bootstrap": lambda s: np.array(residual_bootstrap(
               fit, nboot=20, seed=s)),
           "cramer": cram}
    for k, f in sorted(fns.items()):
        np.random.seed(int(rng.integers(10**6)))
        b = np.random.get_state()
        r = np.array(f(s1))
        e = np.random.get_state()
        mon.ok("%s leaves the generator alone" % k, b[2:] == e[2:] and
               np.array_equal(b[1], e[1]))
        np.random.seed(int(rng.integers(10**6)))
        np.random.random(int(rng.integers(1, 9)))
        other = np.array(f(s2))
        again = np.array(f(s1))
        mon.ok("%s repeats for its seed" % k, np.array_equal(
            r, again, equal_nan=True), observed=r.ravel()[:3],
            again=again.ravel()[:3])
        mon.ok("%s differs for another seed" % k, not np.array_equal(
            r, other, equal_nan=True))


CHILD = """
import pickle, sys, warnings
warnings.simplefilter('ignore')
sys.path[:0] = [%r, %r]
import matplotlib
matplotlib.use('Agg')
from harness.props import p03
from harness import stats
out = {}
for sc in pickle.load(open(sys.argv[1], 'rb')):
    rng, st, a, h, shape = p03.prepare(sc)
    ctor, run = st.variant(rng, shape, sc['var'])
    try:
        out[sc['name']] = p03.once(st, a, h, ctor, run)
    except Warning:
        out[sc['name']] = None
pickle.dump(out, open(sys.argv[2], 'wb'))
"""


def f_process(sc, mon):
    """Another process, with another hash seed."""
    from .. import core
    root = os.path.dirname(os.path.dirname(os.path.dirname(
        os.path.abspath(__file__))))
    subs = [dict(name="%s/%s-%d" % (sc["name"], n, v), seed=sc["seed"],
                 stat=n, var=v) for n, v in sc["what"]]
    tmp = tempfile.mkdtemp(prefix="vp-p03-")
    try:
        fi, fo = os.path.join(tmp, "i"), os.path.join(tmp, "o")
        with open(fi, "wb") as f:
            pickle.dump(subs, f)
        env = dict(os.environ, PYTHONHASHSEED=str(sc["hash"]))
        import turbustat
        repo = os.path.dirname(os.path.dirname(turbustat.__file__))
        p = subprocess.run([sys.executable, "-c", CHILD % (root, repo), fi,
                            fo], env=env, stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, cwd=tmp, timeout=600)
        if p.returncode:
            raise RuntimeError(p.stderr.decode()[-1500:])
        with open(fo, "rb") as f:
            res = pickle.load(f)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    for s in subs[::-1]:
        if res[s["name"]] is None:
            continue
        rng, st, a, h, shape = prepare(s)
        ctor, run = st.variant(rng, shape, s["var"])
        stats.compare(mon, "%s in another process" % s["stat"],
                      once(st, a, h, ctor, run), res[s["name"]], **SAME)


def f_distance(sc, mon):
    from . import p21
    rng = gen.rng_of(sc["name"], sc["seed"])
    c = p21.CASES[sc["case"]](rng, sc)
    x, y = c.pair()
    ox, oy = c.opts()
    np.random.seed(5)
    d = c.dist(x, ox, y, oy)
    want = c.metric(d)
    for k in range(2):
        for n, g, w in zip(c.names, c.metric(d), want):
            mon.close("%s metric again" % sc["case"], g, w, rtol=1e-10,
                      floor=0, atol=1e-13, quantity=n)
    # others in between
    for _ in range(2):
        x2, y2 = c.pair()
        np.random.seed(5)
        try:
            c.metric(c.dist(x2, ox, y2, oy))
        except Exception:
            pass
    np.random.seed(5)
    for n, g, w in zip(c.names, c.metric(c.dist(x, ox, y, oy)), want):
        mon.close("%s distance again" % sc["case"], g, w, rtol=1e-10,
                  floor=0, atol=1e-13, quantity=n)
    for n, g, w in zip(c.names, c.metric(d), want):
        mon.close("%s metric later" % sc["case"], g, w, rtol=1e-10, floor=0,
                  atol=1e-13, quantity=n)


# ---------------------------------------------------------------------------
# sessions: runs that differ in one thing only follow each other in one
# process, and each is compared with the same run alone in a new process

ALONE = """
import os, pickle, sys, traceback, warnings
warnings.simplefilter('ignore')
sys.path[:0] = [%r, %r]
import matplotlib
matplotlib.use('Agg')
import turbustat.statistics, turbustat.simulator, turbustat.moments
from harness.props import p03
sc = pickle.load(open(sys.argv[1], 'rb'))
n = len(p03.SESSIONS[sc['of']](sc))
todo = list(range(n))
live = {}
while todo or live:
    while todo and len(live) < 2:
        i = todo.pop()
        pid = os.fork()
        if pid == 0:
            rc = 1
            try:
                jobs = p03.SESSIONS[sc['of']](sc)
                r = p03.outcome(jobs[i][1])
                with open(sys.argv[2] + str(i), 'wb') as f:
                    pickle.dump(r, f)
                rc = 0
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(rc)
        live[pid] = i
    pid, status = os.wait()
    live.pop(pid)
    if status:
        sys.exit(3)
"""


def outcome(job):
    import warnings
    np.random.seed(4711)
    with warnings.catch_warnings(), np.errstate(all="ignore"):
        warnings.simplefilter("ignore")
        try:
            return "gives", job()
        except Exception as exc:
            return "refuses", type(exc).__name__


def angular(o, pix):
    """Options in pixels, written as angles."""
    if isinstance(o, u.Quantity):
        if o.unit == u.pix:
            return o.value * pix * u.deg
        if o.unit == 1 / u.pix:
            return o.value / pix / u.deg
    if isinstance(o, dict):
        return {k: angular(v, pix) for k, v in o.items()}
    return o


# further values of single options
ONE = {
    "PowerSpectrum": ({}, dict(
        apodize_kernel=["hanning", "splitcosinebell"], alpha=[.2, .6],
        beta=[.3], radial_pspec_kwargs=[{"nbins": 9}, {"theta_0": .4 * u.rad,
                                                     "delta_theta": 1 * u.rad},
                                        {"binsize": 2.}],
        fit_unbinned=[True], fit_kwargs=[{"weighted_fit": True}])),
    "VCA": (dict(channel_width=[2, 3]), dict(
        apodize_kernel=["hanning", "cosinebell"], alpha=[.2],
        radial_pspec_kwargs=[{"nbins": 9}], fit_unbinned=[True])),
    "MVC": ({}, dict(apodize_kernel=["hanning"], fit_unbinned=[True],
                     radial_pspec_kwargs=[{"nbins": 9}])),
    "VCS": (dict(channel_width=[2, 3]), dict(breaks=[-.8, -.6])),
    "Wavelet": (dict(num=[7, 13]), dict(convolve_kwargs=[
        {"allow_huge": True}])),
    "DeltaVariance": (dict(diam_ratio=[1.2, 1.5, 2., 3.]), dict(
        boundary=["wrap", "fill"], min_weight_frac=[.01, .3],
        nan_treatment=["fill", "interpolate"], preserve_nan=[True])),
    "Bispectrum": ({}, dict(seed=[1, 2], nsamples=[20, 30],
                            mean_subtract=[True, False])),
    "Genus": (dict(min_value=[.2], max_value=[1.1], numpts=[6, 9],
                   enable_smoothing=[False], highdens_percent=[70]),
              dict(min_size=[1, 9], connectivity=[1, 2],
                   standardize_intensity=[True])),
    "StatMoments": (dict(radius=[2 * u.pix, 6 * u.pix], nbins=[5, 9]),
                    dict(periodic=[True, False], min_frac=[.3, .9],
                         radius=[2 * u.pix, 5 * u.pix])),
    "Tsallis": (dict(lags=[[1, 4] * u.pix, [2] * u.pix]),
                dict(periodic=[True, False], num_bins=[10, 14],
                     sigma_clip=[2., 4.])),
    "PDF": (dict(min_val=[.1, .6], bins=[9, 14], normalization_type=[
        "center", "normalize", "standardize"]), {}),
    "PDF3": (dict(min_val=[.1, .6], bins=[9, 14]), {}),
    "Dendrogram_Stats": (dict(min_deltas=[np.logspace(-1.6, .1, 9),
                                          np.logspace(-1.4, .2, 9)],
                              dendro_params=[
        {"min_value": .1, "min_npix": 3, "min_delta": .02},
        {"min_value": .1, "min_npix": 6, "min_delta": .02}]),
        dict(periodic_bounds=[True, False])),
    "Dendrogram3": (dict(dendro_params=[
        {"min_value": .1, "min_npix": 3, "min_delta": .02},
        {"min_value": .1, "min_npix": 6, "min_delta": .02}]), {}),
    "SCF": (dict(size=[5, 9]), dict(boundary=["continuous", "cut"])),
    "PCA": ({}, dict(n_eigs=[2, 5], mean_sub=[True, False],
                     spatial_method=["fit", "interpolate", "xinterpolate",
                                     "contour"],
                     spectral_method=["walk-down", "fit"],
                     brunt_beamcorrect=[False], beam_fwhm=[2. * u.pix,
                                                           3. * u.pix],
                     spectral_output_unit=[u.km / u.s],
                     spatial_output_unit=[u.deg])),
}


def stat_session(sc):
    """[(what changes, run of it)]"""
    rng = gen.rng_of(sc["name"], sc["seed"])
    st = stats.STATS[sc["stat"]]
    pix = 10**rng.uniform(-4, -2)
    mvc = st.dim == "mvc"
    a, h = stats.data_for(st, rng, pix=pix)
    shape = (a[0] if mvc else a).shape
    base = [st.variant(rng, shape, i) for i in range(st.nvar)]
    ctor, run = base[sc["var"]]
    if st.name in ("PowerSpectrum", "VCA", "MVC", "SCF"):
        run = dict(run, fit_2D=False)

    def turn(x):
        return [np.ascontiguousarray(v[..., ::-1]) for v in x] if mvc else \
            np.ascontiguousarray(x[..., ::-1])

    def single(x):
        return [v.astype("f4").astype(float) for v in x] if mvc else \
            x.astype("f4").astype(float)

    def swap(x):
        if mvc:
            return [np.ascontiguousarray(np.swapaxes(v, -1, -2)) for v in x]
        return np.ascontiguousarray(np.swapaxes(x, -1, -2))
    h2 = h.copy()
    h2["NAXIS1"], h2["NAXIS2"] = h["NAXIS2"], h["NAXIS1"]
    big = h.copy()
    big["CDELT1"], big["CDELT2"] = h["CDELT1"] * 1.25, h["CDELT2"] * 1.25
    pc = h.copy()
    for i in (1, 2):
        pc["PC%d_%d" % (i, i)] = 1.25
    cd = h.copy()
    for i in (1, 2):
        cd["CUNIT%d" % i] = "arcmin"
    cfg = [("base", a, h, ctor, run), ("other values", turn(a), h, ctor, run),
           ("nearly the same values", single(a), h, ctor, run),
           ("other orientation", swap(a), h2, ctor, run)]
    ca, ra = angular(ctor, pix), angular(run, pix)
    for n, q in (("these", h), ("larger", big), ("scaled", pc),
                 ("other unit", cd)):
        cfg.append(("options as angles, %s pixels" % n, a, q, ca, ra))
    if st.distance_kw:
        for d in (140., 260.):
            c = dict(ctor, distance=d * u.pc)
            cfg.append(("distance", a, h, c, run))
    if st.weights:
        for k in range(2):
            w = rng.uniform(.5, 1.5, shape)
            cfg.append(("weights", a, h, dict(ctor, weights=w), run))
    if st.dim == 3:
        q = h.copy()
        q["CDELT3"] = h["CDELT3"] * 1.5
        cfg.append(("channel width", a, q, ctor, run))
    oc, orun = ONE[st.name]
    oc = {k: list(v) for k, v in oc.items()}
    orun = {k: list(v) for k, v in orun.items()}
    for c, r in base:
        for k, v in c.items():
            oc.setdefault(k, []).append(v)
        for k, v in r.items():
            orun.setdefault(k, []).append(v)
    for k in sorted(oc):
        for v in oc[k]:
            c = dict(ctor)
            c[k] = v
            if k in ("lags", "scales") and "n" + k not in ONE:
                c.pop("nlags", None)
                c.pop("num", None)
            cfg.append(("constructor option " + k, a, h, c, run))
    for k in sorted(orun):
        for v in orun[k]:
            cfg.append(("run option " + k, a, h, ctor, dict(run, **{k: v})))
    rest = cfg[1:]
    rng.shuffle(rest)
    cfg = [cfg[0]] + rest[:sc["len"]] + [cfg[0]]

    def job(x, q, c, r):
        def go():
            keep = [v.copy() for v in x] if mvc else x.copy()
            return once(st, keep, q, c, r)
        return go
    return [(w, job(x, q, c, r)) for w, x, q, c, r in cfg]


def helper_session(sc):
    """The functions below the statistics, called with near-equal inputs."""
    import turbustat.statistics.psds as psds
    import turbustat.statistics.stats_utils as su
    import turbustat.statistics.fitting_utils as fu
    import turbustat.statistics.apodizing_kernels as ak
    from turbustat.statistics.rfft_to_fft import rfft_to_fft
    from turbustat.statistics.lm_seg import Lm_Seg
    from turbustat.statistics.elliptical_powerlaw import fit_elliptical_powerlaw
    from turbustat.statistics.vca_vcs.slice_thickness import \
        spectral_regrid_cube
    from turbustat.simulator import make_extended, make_3dfield
    from turbustat.io.sim_tools import create_fits_hdu
    rng = gen.rng_of(sc["name"], sc["seed"])
    n, m = (int(v) for v in rng.integers(15, 26, 2))
    im, im2 = rng.uniform(.5, 2, (2, n, m))
    jobs = []

    def add(what, fn, *a, **k):
        def go():
            r = fn(*a, **k)
            return {"value": stats.reduce_value(r)}
        jobs.append((what, go))
    for x in (im, im2, im.T.copy(), im[:, :-1]):
        for o in ({}, {"logspacing": False}, {"nbins": 7}, {"nbins": 8},
                  {"return_freqs": False}, {"return_stddev": True},
                  {"max_bin": .4}, {"min_bin": .1}, {"binsize": 2.},
                  {"theta_0": .3 * u.rad, "delta_theta": 1. * u.rad},
                  {"theta_0": .9 * u.rad, "delta_theta": 1. * u.rad},
                  {"theta_0": .3 * u.rad, "delta_theta": 2. * u.rad}):
            add("spectrum", psds.pspec, x, **o)
        add("transform", rfft_to_fft, x)
        add("transform", rfft_to_fft, x, use_pyfftw=True, threads=1)
        for k in (0, 1):
            for s in (1.3, 2.):
                add("shift", su.fourier_shift, x, s, axis=k)
                add("pixel shift", su.pixel_shift, x, int(s), axis=k)
        for t in ("standardize", "center", "normalize", "normalize_by_mean"):
            add("normalise", su.data_normalization, x, norm_type=t)
        add("bins", su.common_histogram_bins, x, x + .5)
        add("bins", su.common_histogram_bins, x, x + .5, nbins=7)
        add("bins", su.common_histogram_bins, x, x + .5, logscale=True)
    for sh in ((n, m), (m, n), (n, n)):
        for al in (.2, .5):
            add("window", ak.SplitCosineBellWindow(al, .4), sh)
            add("window", ak.SplitCosineBellWindow(.4, al), sh)
            add("window", ak.TukeyWindow(al), sh)
            add("window", ak.CosineBellWindow(al), sh)
        add("window", ak.HanningWindow(), sh)
    x = np.linspace(0, 3, 21)
    for s in (-1., -2.):
        for b in (1.2, 1.8):
            y = s * x + np.where(x > b, 1.5 * (x - b), 0)

            def seg(y=y, b=b, w=None):
                f = Lm_Seg(x, y, b, weights=w)
                f.fit_model(verbose=False)
                return [f.params, f.brk, f.slopes]
            add("broken line", seg)
            add("broken line", seg, w=x + 1.)
    for sz in (16, 17):
        for o in ({}, {"powerlaw": 3.}, {"ellip": .5}, {"theta": 40.},
                  {"ellip": .5, "theta": 40.}, {"randomseed": 5},
                  {"correlated": False}, {"return_fft": True}):
            k = dict({"powerlaw": 2., "randomseed": 3}, **o)
            if "theta" in k:
                k["theta"] = k["theta"] * u.deg
            add("field", make_extended, sz, **k)
        for o in ({}, {"powerlaw": 3.}, {"amp": 2.}, {"randomseed": 5}):
            add("field in 3D", make_3dfield, sz,
                **dict({"powerlaw": 2., "randomseed": 3}, **o))
    for q in (im, im2):
        for al, be in ((.4, .3), (.6, .3), (.4, .7)):
            add("clip", fu.clip_func, q.ravel(), be, al + 1)
    jobs2 = list(range(len(jobs)))
    rng.shuffle(jobs2)
    jobs2 = jobs2[:sc["len"]]
    return [jobs[i] for i in jobs2 + jobs2[:4]]


def distance_session(sc):
    from . import p21
    rng = gen.rng_of(sc["name"], sc["seed"])
    c = p21.CASES[sc["case"]](rng, sc)
    jobs = []

    def job(v, p, q, o, state):
        def go():
            c.var = v
            c.rng = copy.deepcopy(state)
            return {"distances": stats.reduce_value([float(w) for w in c.metric(
                c.dist(p, o[0], q, o[1]))])}
        return go
    for v in range(5):
        c.var = v
        x, y = c.pair()
        x2, y2 = c.pair()
        for k in range(2):
            o = c.opts()
            for p, q in ((x, y), (x, y2), (x2, y), (x2, y2)):
                jobs.append(("case %d" % v, job(v, p, q, o, copy.deepcopy(
                    c.rng))))
    rng.shuffle(jobs)
    return jobs[:sc["len"]]


SESSIONS = {"stat": stat_session, "helper": helper_session,
            "distance": distance_session}


def f_session(sc, mon):
    root = os.path.dirname(os.path.dirname(os.path.dirname(
        os.path.abspath(__file__))))
    jobs = SESSIONS[sc["of"]](sc)
    tmp = tempfile.mkdtemp(prefix="vp-p03-")
    try:
        fi, fo = os.path.join(tmp, "i"), os.path.join(tmp, "o")
        with open(fi, "wb") as f:
            pickle.dump(sc, f)
        import turbustat
        repo = os.path.dirname(os.path.dirname(turbustat.__file__))
        p = subprocess.run([sys.executable, "-c", ALONE % (root, repo), fi,
                            fo], stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, cwd=tmp, timeout=800)
        if p.returncode:
            raise RuntimeError(p.stderr.decode()[-1500:])
        want = []
        for i in range(len(jobs)):
            with open(fo + str(i), "rb") as f:
                want.append(pickle.load(f))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    what = sc.get("stat") or sc.get("case") or "helpers"
    for (how, job), w in zip(jobs, want):
        g = outcome(job)
        mon.ev(w[0])
        if not mon.ok("%s: refused alike" % what, g[0] == w[0] and (
                g[0] == "gives" or g[1] == w[1]), observed=g[0],
                got=repr(g[1])[:200], want=repr(w[1])[:200], changed=how):
            continue
        if g[0] == "gives":
            stats.compare(mon, "%s: %s in a session" % (what, how), g[1],
                          w[1], **SAME)


FNS = {"session": f_session, "repeat": f_repeat, "rerun": f_rerun, "generator": f_generator,
       "samplers": f_samplers, "process": f_process,
       "distance": f_distance}


def scenarios(tier, seed):
    out = []
    rng = gen.rng_of("p03", seed)
    big = tier != "quick"
    names = sorted(stats.STATS)
    for n in names:
        st = stats.STATS[n]
        for v in range(st.nvar):
            for k in range(4 if big else 1):
                out.append(dict(
                    name="repeat-%s-%d-%d-s%d" % (n, v, k, seed),
                    fn="repeat", seed=seed, stat=n, var=v,
                    nan="none" if n == "PCA" or k % 2 == 0 else "scatter",
                    others=[str(q) for q in rng.choice(names, 2)]))
            out.append(dict(name="generator-%s-%d-s%d" % (n, v, seed),
                            fn="generator", seed=seed, stat=n, var=v))
        for k in range(40 if big else 12):
            out.append(dict(name="rerun-%s-%d-s%d" % (n, k, seed),
                            fn="rerun", seed=seed, stat=n,
                            nan="none" if n == "PCA" or k % 3 else "scatter",
                            fit=k % 4 == 0,
                            hist=[int(q) for q in rng.integers(
                                0, st.nvar, 2 + k % 3)]))
    for k in range(20 if big else 5):
        out.append(dict(name="samplers-%d-s%d" % (k, seed), fn="samplers",
                        seed=seed))
    for k in range(8 if big else 4):
        out.append(dict(name="process-%d-s%d" % (k, seed), fn="process",
                        seed=seed, hash=1 + k,
                        what=[[n, (k + seed) % 4] for n in names]))
    for n in names:
        for k in range(6 if big else 1):
            out.append(dict(
                name="session-%s-%d-s%d" % (n, k, seed), fn="session",
                of="stat", stat=n, seed=seed, cpu=600,
                var=(seed + k) % stats.STATS[n].nvar,
                len=80 if big else 40 if n != "PCA" else 24))
    for k in range(6 if big else 2):
        out.append(dict(name="session-helpers-%d-s%d" % (k, seed),
                        fn="session", of="helper", seed=seed, cpu=600,
                        len=400 if big else 150))
    from . import p21
    for case in sorted(p21.CASES):
        for k in range(3 if big else 1):
            out.append(dict(
                name="session-%s-%d-s%d" % (case, k, seed), fn="session",
                of="distance", case=case, seed=seed, var=0, cpu=600,
                len=20 if big else 8,
                shape=[int(q) for q in rng.integers(24, 30, 2)],
                shape2=[int(q) for q in rng.integers(24, 30, 2)],
                cshape=[int(q) for q in rng.integers(16, 20, 3)],
                cshape2=[int(q) for q in rng.integers(16, 20, 3)],
                kind="lognorm", kind2="positive", ckind="lines",
                ckind2="positive", plot=False))
    for case in sorted(p21.CASES):
        for v in range(5 if big else 2):
            out.append(dict(
                name="distance-%s-%d-s%d" % (case, v, seed), fn="distance",
                seed=seed, case=case, var=(v + seed) % 5,
                shape=[int(q) for q in rng.integers(26, 40, 2)],
                shape2=[int(q) for q in rng.integers(26, 40, 2)],
                cshape=[int(q) for q in rng.integers(18, 24, 3)],
                cshape2=[int(q) for q in rng.integers(18, 24, 3)],
                kind="lognorm", kind2="positive", ckind="lines",
                ckind2="positive", plot=False))
    return out
