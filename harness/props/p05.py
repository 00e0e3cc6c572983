"""P05: saved statistics reload with the same results (scratch files only)."""
import os
import shutil
import tempfile
import numpy as np
import astropy.units as u
from .. import gen
from ..stats import STATS, collect, compare, data_for, reduce_value
from . import p21

ID = "P05"
RULE = ("One evaluation = one result, unit, header or data attribute compared "
        "between an object and its saved-and-reloaded copy, or one distance "
        "computed from reloaded objects; distinct = different (clause, "
        "value).")

MAPS = ("data", "centroid", "moment0", "linewidth")


def maps_of(name):
    return MAPS if name == "MVC" else ("data",)


def header_same(mon, a, b, **d):
    ha, hb = getattr(a, "_header", None), getattr(b, "_header", None)
    if hb is None:
        return mon.ok("header is kept", ha is None, observed=str(ha)[:40], **d)
    mon.ok("header is kept", ha is not None and
           ha.tostring() == hb.tostring(), observed=len(hb), **d)


def stored(obj, name):
    out = {}
    for n in maps_of(name):
        v = getattr(obj, n, None)
        out[n] = None if v is None else np.array(getattr(v, "value", v))
    return out


def check_data(mon, new, raw, got, orig, keep, **d):
    if not keep:
        left = [k for k, v in vars(new).items()
                if isinstance(v, np.ndarray) and any(
                    v.shape == a.shape and v.size > 4 and
                    np.array_equal(np.nan_to_num(v), np.nan_to_num(a))
                    for a in raw)]
        mon.ok("data left out unless asked for", not left, observed=left,
               **d)
    for n, w in orig.items():
        g = got[n]
        if not keep or w is None:
            mon.ok("data left out unless asked for", g is None,
                   observed=None if g is None else g.shape, which=n, **d)
        else:
            mon.ok("data kept when asked for", g is not None and
                   np.array_equal(g, w, equal_nan=True), observed=w,
                   which=n, **d)


REFIT = {
    "PowerSpectrum": ("fit_pspec", {"low_cut": .08 / u.pix,
                                    "high_cut": .4 / u.pix}),
    "VCA": ("fit_pspec", {"low_cut": .08 / u.pix, "high_cut": .4 / u.pix}),
    "MVC": ("fit_pspec", {"low_cut": .08 / u.pix, "high_cut": .4 / u.pix}),
    "Wavelet": ("fit_transform", {"xlow": 2.3 * u.pix, "xhigh": 12 * u.pix}),
    "DeltaVariance": ("fit_plaw", {"xlow": 3.1 * u.pix, "xhigh": 12 * u.pix}),
    "SCF": ("fit_plaw", {"xlow": .5 * u.pix, "xhigh": 4.2 * u.pix}),
    "VCS": ("fit_pspec", {"low_cut": .06 / u.pix, "high_cut": .45 / u.pix}),
    "Tsallis": ("fit_tsallis", {"sigma_clip": 4.}),
}


def f_cycle(sc, mon):
    rng = gen.rng_of(sc["name"], sc["seed"])
    st = STATS[sc["stat"]]
    arr, h = data_for(st, rng, nan=sc["nan"])
    shape = (arr[0] if st.dim == "mvc" else arr).shape
    ctor, opts = st.variant(rng, shape, sc["var"])
    from astropy.io import fits
    if st.dim == "mvc":
        cont = [a for a in arr]
        ctor = dict(ctor, header=h)
    else:
        cont = fits.PrimaryHDU(arr, h)
    if st.distance_kw and sc["seed"] % 2:
        ctor = dict(ctor, distance=float(rng.uniform(50, 900)) * u.pc)
    obj = st.build(cont, ctor)
    tmp = tempfile.mkdtemp(prefix="p05")
    try:
        if sc["early"]:
            # saved before anything was computed
            p = os.path.join(tmp, "early.pkl")
            obj.save_results(p, keep_data=True)
            re = type(obj).load_results(p)
            st.run(re, opts)
            st.run(obj, opts)
            compare(mon, "saved before it is run", collect(re), collect(obj),
                    rtol=1e-12, floor=1e-13, stat=sc["stat"])
            return
        try:
            st.run(obj, opts)
        except Warning as e:
            if sc["stat"] != "PCA":
                raise
            # the stated refusal: too few widths came out finite
            return mon.skip(str(e))
        before = collect(obj)
        raw0 = stored(obj, sc["stat"])
        keep = sc["keep"]
        cur = obj
        kept = True
        for c, k in enumerate(keep):
            base = os.path.join(tmp, ["a.b dir%d", "pkl%d", "old.pkl.d%d"][
                (c + sc["seed"]) % 3] % c)
            os.mkdir(base)
            stem = ["out", "run.pkl.v2", "a.dat", "x_pkl", ".pkl0"][
                (c + sc["seed"]) % 5]
            fname = stem + ".pkl"
            p = os.path.join(base, stem + (".pkl" if sc["ext"] else ""))
            if c == 1:          # an older file is replaced
                with open(os.path.join(base, fname), "wb") as f:
                    f.write(b"x" * 10000000)
            was = kept
            if k is None:
                cur.save_results(p)
                kept = False
            else:
                cur.save_results(p, keep_data=k)
                kept = kept and k
            mon.ok("one file of the given name", os.listdir(base) ==
                   [fname], observed=sorted(os.listdir(base)), asked=p)
            raw1 = stored(cur, sc["stat"])
            new = type(obj).load_results(os.path.join(base, fname))
            mon.ok("class", type(new) is type(obj), observed=str(type(new)))
            compare(mon, "saving leaves the object as it was", collect(cur),
                    before, exact=True, fitted=0, stat=sc["stat"], cycle=c,
                    skip=() if was else ("eigimages",))
            if kept:
                mon.ok("data kept when asked for",
                       all(getattr(new, k, None) is not None for k in
                           ("img", "weighted_data") if getattr(
                               obj, k, None) is not None), observed=1)
            # eigenimages are worked out from the data when asked for
            no = () if kept else ("eigimages",)
            compare(mon, "reloaded results are the same", collect(new),
                    before, exact=True, fitted=0, stat=sc["stat"], cycle=c,
                    skip=no)
            header_same(mon, new, obj, stat=sc["stat"])
            check_data(mon, new, arr if st.dim == "mvc" else [arr],
                       stored(new, sc["stat"]), raw0, kept,
                       stat=sc["stat"], cycle=c, asked=str(k))
            for n in raw1:
                if cur is obj:
                    mon.ok("saving leaves the data in place",
                           raw1[n] is None and raw0[n] is None or
                           np.array_equal(raw1[n], raw0[n], equal_nan=True),
                           observed=raw0[n], which=n)
            mon.ev("cycles")
            cur = new
        # later work on the original does not reach the reloaded copy
        if sc["stat"] in REFIT and sc["var"] != 3:
            m, kw = REFIT[sc["stat"]]
            try:
                getattr(obj, m)(**kw)
            except Exception:
                return
            compare(mon, "reloaded results are the same", collect(cur),
                    before, exact=True, fitted=0, stat=sc["stat"], skip=no,
                    cycle="after refit of the original")
            getattr(cur, m)(**kw)
            compare(mon, "fitted again after reloading", collect(cur),
                    collect(obj), rtol=1e-10, floor=1e-11, stat=sc["stat"])
        if kept and sc["var"] != 3:
            st.run(cur, opts)
            st.run(obj, opts)
            compare(mon, "run again after reloading", collect(cur),
                    collect(obj), rtol=1e-10, floor=1e-11, stat=sc["stat"])
    finally:
        shutil.rmtree(tmp)


def f_dist(sc, mon):
    rng = gen.rng_of(sc["name"], sc["seed"])
    c = p21.CASES[sc["case"]](rng, sc)
    if sc["case"] == "scf" and sc["var"] == 3:
        return mon.skip("computed again from the data by design")
    if not c.pre:
        return mon.skip("takes no computed statistic")
    x, y = c.pair()
    ox, oy = c.opts()
    c.o = ox

    def two():
        if hasattr(c, "both"):
            return c.both(x, ox, y, oy)
        return c.stat(x, ox), c.stat(y, oy)
    sa, sb = two()
    want = c.metric(c.dist(sa, ox, sb, oy))
    sa, sb = two()
    tmp = tempfile.mkdtemp(prefix="p05")
    try:
        re = []
        for i, s in enumerate((sa, sb)):
            p = os.path.join(tmp, "s%d.pkl" % i)
            s.save_results(p, keep_data=sc["keep"])
            re.append(p)
        for a, b in ((0, 1), (0, None), (None, 1)):
            if None in (a, b) and hasattr(c, "both"):
                continue
            A = type(sa).load_results(re[0]) if a is not None else x
            B = type(sb).load_results(re[1]) if b is not None else y
            got = c.metric(c.dist(A, ox, B, oy))
            for n, g, w in zip(c.names, got, want):
                mon.close("distance from reloaded", g, w, quantity=n,
                          case=sc["case"], reloaded=str((a, b)), **c.tol)
    finally:
        shutil.rmtree(tmp)


FNS = {"cycle": f_cycle, "dist": f_dist}


def scenarios(tier, seed):
    out = []
    k = {"quick": 1, "thorough": 5}[tier]
    rng = gen.rng_of("p05", seed)
    keeps = [[None, None, None], [True, True, False], [False, True],
             [True, None, True]]
    for i in range(k):
        for j, st in enumerate(STATS):
            for v in range(4):
                out.append(dict(
                    name="cycle-%s-%d-%d" % (st, v, i), fn="cycle", stat=st,
                    var=v, seed=seed * 100 + 7 * i + v, early=False,
                    ext=bool(rng.integers(2)),
                    keep=keeps[(v + j + i) % 4],
                    nan="block" if st not in ("Bispectrum", "PCA") and
                    rng.integers(3) == 0 else "none"))
            out.append(dict(
                name="early-%s-%d" % (st, i), fn="cycle", stat=st,
                # the mean-subtracted bispectrum has modes with no power but
                # rounding, on which the layout in memory shows
                var=int(rng.integers(2 if st == "Bispectrum" else 4)),
                seed=seed * 100 + i, early=True,
                ext=True, keep=[], nan="none"))
        for case in sorted(p21.CASES):
            for var in range(4):
                sc = dict(
                    name="dist-%s-%d-%d" % (case, var, i), fn="dist",
                    case=case, var=var, seed=seed * 100 + i,
                    keep=bool(rng.integers(2)), plot=False)
                sc.update(p21_fields(rng))
                out.append(sc)
    return out


def p21_fields(rng):
    s = [int(v) for v in rng.integers(26, 44, 2)]
    s2 = [int(v) for v in rng.integers(26, 44, 2)]
    cs = [int(rng.integers(18, 26))] + [int(v) for v in
                                        rng.integers(20, 27, 2)]
    cs2 = [int(rng.integers(18, 26))] + [int(v) for v in
                                         rng.integers(20, 27, 2)]
    kd = [str(v) for v in rng.choice(
        ["plaw", "lognorm", "positive", "blobs"], 2)]
    ck = [str(v) for v in rng.choice(["lines", "positive"], 2)]
    return dict(shape=s, shape2=s2, cshape=cs, cshape2=cs2, kind=kd[0],
                kind2=kd[1], ckind=ck[0], ckind2=ck[1])
