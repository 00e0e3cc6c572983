"""P01: the container the data arrives in does not matter."""
import numpy as np
import astropy.units as u
from astropy.io import fits
from .. import gen, stats
from ..core import plain

ID = "P01"
RULE = ("One evaluation = one public result (array, scalar, fit parameter, "
        "table column) of a statistic or distance whose data arrived in one "
        "kind of container or storage, compared with the result for a plain "
        "(array, header) pair; or one unacceptable input observed to be "
        "rejected.  Distinct = different (clause, content).")

BOXES = ["tuple", "list", "hdu", "imagehdu", "header", "sc", "fortran",
         "strided", "bigendian", "degenerate", "readonly", "file"]
STORE = ["f4", ">f4", "i2", ">i2", "i4", "i8", "u1", "u2"]


def cube_of(a, h):
    from spectral_cube import SpectralCube
    return SpectralCube.read(fits.PrimaryHDU(a, h))


def projection(a, h):
    from spectral_cube import Projection
    return Projection.from_hdu(fits.PrimaryHDU(a, h))


def slice_of(a, h):
    """The same image as a channel of a cube."""
    h3 = gen.header3d((2,) + a.shape)
    for k in ("CRVAL1", "CRPIX1", "CDELT1", "CRVAL2", "CRPIX2", "CDELT2",
              "CTYPE1", "CTYPE2", "CUNIT1", "CUNIT2"):
        h3[k] = h[k]
    c = np.zeros((2,) + a.shape)
    c[1] = a
    return cube_of(c, h3)[1]


def masked(a, h):
    """A cube (or a channel of one) whose missing values are masked, with
    other numbers underneath."""
    from spectral_cube import BooleanArrayMask
    bad = ~np.isfinite(a)
    x = np.where(bad, 1.7 * np.nanmax(np.abs(a)) + 3., a)
    if a.ndim == 3:
        c = cube_of(x, h)
        return c.with_mask(BooleanArrayMask(~bad, c.wcs))
    h3 = gen.header3d((2,) + a.shape)
    for k in ("CRVAL1", "CRPIX1", "CDELT1", "CRVAL2", "CRPIX2", "CDELT2",
              "CTYPE1", "CTYPE2", "CUNIT1", "CUNIT2"):
        h3[k] = h[k]
    c = cube_of(np.stack([np.zeros(a.shape), x]), h3)
    return c.with_mask(BooleanArrayMask(np.stack([~bad, ~bad]), c.wcs))[1]


def box(a, h, how, tmp=None):
    """`a` in a container; returns (container, separate header or None)."""
    a = a.copy()
    h = h.copy()
    if how == "tuple":
        return (a, h), None
    if how == "list":
        return [a, h], None
    if how == "hdu":
        return fits.PrimaryHDU(a, h), None
    if how == "imagehdu":
        return fits.ImageHDU(a, h), None
    if how == "header":
        return a, h
    if how == "sc":
        return (cube_of(a, h) if a.ndim == 3 else projection(a, h)), None
    if how == "slice":
        return slice_of(a, h), None
    if how == "masked":
        return masked(a, h), None
    if how == "fortran":
        return (np.asfortranarray(a), h), None
    if how == "strided":
        big = np.full(tuple(2 * n for n in a.shape), -7.5, dtype=a.dtype)
        big[tuple(slice(None, None, 2) for _ in a.shape)] = a
        return (big[tuple(slice(None, None, 2) for _ in a.shape)], h), None
    if how == "flipped":
        r = a[..., ::-1].copy()
        return (r[..., ::-1], h), None
    if how == "bigendian":
        return (a.astype(">f8"), h), None
    if how == "degenerate":
        return (a[np.newaxis], h), None
    if how == "readonly":
        a.flags.writeable = False
        return (a, h), None
    if how == "file":
        f = fits.PrimaryHDU(a, h)
        import io
        b = io.BytesIO()
        f.writeto(b)
        b.seek(0)
        return fits.open(b)[0], None
    if how in STORE:
        return (a.astype(np.dtype(how)), h), None
    if how == "scaled":
        # an integer file with BSCALE/BZERO
        f = fits.PrimaryHDU(a, h)
        f.scale("int16", bzero=3., bscale=.5)
        import io
        b = io.BytesIO()
        f.writeto(b)
        b.seek(0)
        return fits.open(b)[0], None
    raise ValueError(how)


def prepare(sc):
    rng = gen.rng_of(sc["name"], sc["seed"])
    st = stats.STATS[sc["stat"]]
    a, h = stats.data_for(st, rng, nan=sc["nan"], whole=sc["whole"])
    shape = (a[0] if st.dim == "mvc" else a).shape
    ctor, run = st.variant(rng, shape, sc["var"])
    if sc["whole"] and st.name.startswith("PDF"):
        a = a + 1           # the log-normal fit needs positive values
    if sc["whole"] and st.name.startswith("Dendro"):
        ctor["min_deltas"] = np.logspace(-.5, 1.6, 9)
    if sc.get("times"):
        a = [x * sc["times"] for x in a] if st.dim == "mvc" else \
            a * sc["times"]
    return rng, st, a, h, ctor, run


def result(st, a, h, how, ctor, run, sep=None):
    if st.dim == "mvc":
        bs = [box(x, h, how)[0] for x in a]
        # maps hand over values; the header comes with the first or apart
        o = st.build(bs, ctor, header=h.copy())
    else:
        b, hd = box(a, h, how)
        o = st.build(b, ctor, **({"header": hd} if hd is not None else {}))
    st.run(o, run)
    return stats.collect(o)


TOL = dict(rtol=1e-7, floor=1e-8, atol=1e-12)


def tolerance(st, how):
    if how in ("f4", ">f4", "scaled"):
        # arithmetic may be carried out in the precision given
        return dict(rtol=2e-3, floor=2e-4, atol=1e-6)
    return dict(TOL)


# quantities that amplify rounding without bound (sign of eigenvectors,
# positions of equal extrema, fits of a curve through a few points)
LOOSE = {"eigvecs", "eigimages"}


def f_box(sc, mon):
    rng, st, a, h, ctor, run = prepare(sc)
    try:
        want = result(st, a, h, "tuple", dict(ctor), dict(run))
    except Warning as exc:
        # some data cannot be fit; then it cannot in any container
        mon.raises("%s refused alike" % sc["stat"], type(exc), result, st, a,
                   h, sc["box"], dict(ctor), dict(run))
        return
    if len(want) < 3:
        raise RuntimeError("too few results collected: %s" % sorted(want))
    t = tolerance(st, sc["box"])
    if sc.get("times", 1) < 1:
        t["atol"] = 0.
    got = result(st, a, h, sc["box"], dict(ctor), dict(run))
    names = None
    if sc["box"] in ("f4", ">f4", "scaled"):
        names = [n for n in want if n in FIRST.get(sc["stat"], ())]
        if not names:
            names = None
    if run.get("mean_subtract"):
        # nothing but rounding is left at zero frequency, where the two
        # shortest wave vectors land
        for d in (got, want):
            for n in ("bispectrum", "bicoherence", "bispectrum_amp",
                      "bispectrum_logamp"):
                if n in d:
                    d[n] = (d[n][0], d[n][1][2:, 2:]) + d[n][2:]
    stats.compare(mon, "%s from %s" % (sc["stat"], sc["box"]), got, want,
                  units=False, names=names, skip=SKIPS.get(sc["stat"], ()),
                  **t)


# results that are direct sums of the data: precise in reduced storage too
FIRST = {"PowerSpectrum": ["ps2D", "ps1D", "freqs", "slope"],
         "VCA": ["ps2D", "ps1D", "freqs", "slope"],
         "MVC": ["ps1D", "freqs", "slope"],
         "VCS": ["ps1D", "freqs"],
         "Wavelet": ["values", "scales", "slope"],
         "DeltaVariance": ["delta_var", "lags", "slope"],
         "Bispectrum": ["bicoherence", "tracker"],
         "Genus": ["thresholds", "smoothing_radii"],
         "StatMoments": ["mean_array", "variance_array", "mean", "variance"],
         "Tsallis": ["lags", "lag_arrays"],
         "PDF": ["bins", "model_params"],
         "PDF3": ["bins", "model_params"],
         "Dendrogram_Stats": ["numfeatures"], "Dendrogram3": ["numfeatures"],
         "SCF": ["scf_surface", "scf_spectrum", "lags", "slope"],
         "PCA": ["eigvals", "cov_matrix", "n_eigs", "var_proportion",
                 "spatial_width", "spectral_width"]}
SKIPS = {"PCA": LOOSE}


def f_wcs(sc, mon):
    """Header values that do not enter the calculation make no difference."""
    rng, st, a, h, ctor, run = prepare(sc)
    try:
        want = result(st, a, h, "hdu", dict(ctor), dict(run))
    except Warning:
        mon.skip("cannot be fit")
        return
    h2 = h.copy()
    h2["CRVAL1"] = float(rng.uniform(5, 350))
    h2["CRVAL2"] = float(rng.uniform(-40, 40))
    h2["CRPIX1"] += float(rng.integers(-20, 20))
    h2["CRPIX2"] -= float(rng.integers(-20, 20))
    h2["CDELT1"] = -h2["CDELT1"]
    h2["BUNIT"] = "Jy"
    h2["OBJECT"] = "elsewhere"
    if st.dim == 3:
        h2["CRVAL3"] = float(rng.uniform(-5e4, 5e4))
    got = result(st, a, h2, "hdu", dict(ctor), dict(run))
    # the first velocity channel is a label, not a result
    stats.compare(mon, "%s elsewhere" % sc["stat"], got, want, units=False,
                  skip=set(SKIPS.get(sc["stat"], ())) | {"vel_channels"},
                  **TOL)


def f_mvc(sc, mon):
    """The three maps may come in different containers."""
    rng, st, a, h, ctor, run = prepare(sc)
    want = result(st, a, h, "header", dict(ctor), dict(run))
    for hows in (("hdu", "tuple", "header"), ("sc", "hdu", "imagehdu"),
                 ("tuple", "sc", "list")):
        bs = [box(x, h, w)[0] for x, w in zip(a, hows)]
        hd = {"header": h.copy()} if sc["hdr"] else {}
        o = st.build(bs, ctor, **hd)
        st.run(o, dict(run))
        stats.compare(mon, "MVC mixed", stats.collect(o), want, units=False,
                      **TOL)


def f_reject(sc, mon):
    rng = gen.rng_of(sc["name"], sc["seed"])
    st = stats.STATS[sc["stat"]]
    nd = sc["nd"]
    sh = {1: (60,), 2: (30, 28), 3: (20, 22, 24), 4: (3, 18, 20, 22)}[nd]
    a = np.abs(rng.standard_normal(sh)) + .1
    h = gen.header2d(sh, beam=4e-4) if nd == 2 else gen.header3d(
        sh[-3:] if nd > 2 else (60, 20, 20), beam=4e-4)
    ctor, run = st.variant(rng, (30, 30, 30), sc["var"])

    def go():
        if st.dim == "mvc":
            o = st.build([a, a, a], ctor, header=h)
        else:
            o = st.build((a, h), ctor)
        st.run(o, run)
        return sorted(stats.collect(o))
    mon.raises("%s wrong dimensions" % sc["stat"], Exception, go)


def f_junk(sc, mon):
    """Objects that are not data, or data without a needed header."""
    rng, st, a, h, ctor, run = prepare(sc)
    x = a[0] if st.dim == "mvc" else a
    bad = {"nothing": None, "text": "image.fits", "number": 3.5,
           "triple": (x, h, h), "single": (x,), "lists": x.tolist(),
           "dict": {"data": x}}

    def go(v, **k):
        c = dict(ctor)
        c.update(k)
        if st.dim == "mvc":
            o = st.build([v] * 3, c)
        else:
            o = st.build(v, c)
        return st.run(o, dict(run))
    for n, v in sorted(bad.items()):
        mon.raises("%s not data" % sc["stat"], Exception, go, v)
    if st.header_kw and st.dim != "mvc":
        mon.raises("%s no header" % sc["stat"], Exception, go, x.copy())
        mon.raises("%s bad header" % sc["stat"], Exception, go, x.copy(),
                   header={"CDELT1": 1.})
        mon.raises("%s bad header" % sc["stat"], Exception, go,
                   (x.copy(), "header"))
    if st.distance_kw:
        for d in (250., 3. * u.s, [3., 4.] * u.pc, [250.] * u.pc,
                  "250 pc"):
            def dist():
                if st.dim == "mvc":
                    st.build(a, ctor, header=h, distance=d)
                else:
                    st.build((a, h), ctor, distance=d)
            mon.raises("%s bad distance" % sc["stat"], Exception, dist)


def f_input(sc, mon):
    """The normalising function itself."""
    from turbustat.io.input_base import input_data, to_spectral_cube
    rng = gen.rng_of(sc["name"], sc["seed"])
    shape = tuple(sc["shape"])
    a = rng.standard_normal(shape)
    h = gen.header2d(shape) if a.ndim == 2 else gen.header3d(shape)
    for how in BOXES + (["slice"] if a.ndim == 2 else []):
        b, hd = box(a, h, how)
        d = input_data(b, no_header=True)
        mon.close("input values", np.squeeze(plain(d)), a, rtol=0, floor=0,
                  box=how)
        if how == "header":
            mon.raises("input header required", TypeError, input_data, b)
            continue
        d2, h2 = input_data(b)
        mon.close("input values", np.squeeze(plain(d2)), a, rtol=0, floor=0,
                  box=how)
        if how != "slice":
            for k in ("CRVAL1", "CDELT1", "CRVAL2", "CDELT2", "CTYPE1"):
                same = h2[k] == h[k] if isinstance(h[k], str) else \
                    abs(h2[k] - h[k]) <= 1e-10 * abs(h[k])
                mon.ok("input header", same, observed=h2[k], key=k, box=how)
        an = a.copy()
        an.flat[rng.choice(a.size, a.size // 5, replace=False)] = np.nan
        dm = input_data(masked(an, h), no_header=True)
        mon.close("masked input values", np.squeeze(plain(dm)), an, rtol=0,
                  floor=0)
        dm, hm = input_data(masked(an, h))
        mon.close("masked input values", np.squeeze(plain(dm)), an, rtol=0,
                  floor=0)
        if how in ("hdu", "imagehdu", "sc"):
            d3 = input_data(b, no_header=True, need_copy=True)
            d3[...] = 0 * d3
            mon.close("input copied", np.squeeze(plain(
                input_data(b, no_header=True))), a, rtol=0, floor=0, box=how)
    if a.ndim == 3:
        c = to_spectral_cube(a, h)
        mon.close("cube values", plain(c.filled_data[:]), a, rtol=0, floor=0)
        mon.close("cube axis", plain(c.spectral_axis.to(u.m / u.s)),
                  h["CRVAL3"] + h["CDELT3"] * np.arange(shape[0]),
                  atol=1e-6)
    for v in (None, 3., "x", (a,), (a, h, h), {"a": a}):
        mon.raises("input rejected", TypeError, input_data, v)


def f_distance(sc, mon):
    """Distances, with the two data sets in different containers."""
    from . import p21
    rng = gen.rng_of(sc["name"], sc["seed"])
    c = p21.CASES[sc["case"]](rng, sc)
    x, y = c.pair()
    ox, oy = c.opts()
    want = c.metric(c.dist(x, ox, y, oy))
    for hows in (("hdu", "imagehdu"), ("sc", "list"), ("list", "file"),
                 ("bigendian", "sc")):
        class Box(type(c)):
            fresh = None
        k = iter(hows)

        def fresh(v):
            return box(v[0], v[1], next(k))[0]
        old = type(c).fresh
        c.fresh = fresh
        try:
            got = c.metric(c.dist(x, ox, y, oy))
        finally:
            del c.fresh
        for n, g, w in zip(c.names, got, want):
            mon.close("%s distance from containers" % sc["case"], g, w,
                      rtol=1e-6, floor=1e-7, atol=1e-9, quantity=n,
                      boxes=hows)


FNS = {"box": f_box, "wcs": f_wcs, "mvc": f_mvc, "reject": f_reject,
       "junk": f_junk, "input": f_input, "distance": f_distance}


def scenarios(tier, seed):
    out = []
    rng = gen.rng_of("p01", seed)
    reps = 1 if tier == "quick" else 6
    for n, st in sorted(stats.STATS.items()):
        boxes = list(BOXES) + ["flipped", "scaled"]
        if not st.header_kw:
            boxes.remove("header")
        if st.dim == 2 or st.dim == "mvc":
            boxes.append("slice")
        if st.dim == 3 or st.dim == "mvc":
            if st.dim == 3:
                boxes.remove("degenerate")
        for k in range(reps):
            for i, b in enumerate(boxes + STORE):
                whole = b in STORE or b == "scaled"
                nan = "none"
                if not whole and n not in ("PCA",) and (i + k) % 3 == 1:
                    nan = str(rng.choice(["scatter", "border", "one"]))
                out.append(dict(name="box-%s-%s-%d-s%d" % (n, b, k, seed),
                                fn="box", seed=seed, stat=n, box=b,
                                whole=whole, nan=nan,
                                var=int((i + k) % st.nvar)))
            if not n.startswith("Dendro"):      # heights are absolute
                for v, b in enumerate(("f4", ">f4", "f4")):
                    if n.startswith("PDF") and v == 1:
                        continue                # so is the minimum
                    out.append(dict(
                        name="box-%s-%s-faint-%d-%d-s%d" % (n, b, v, k, seed),
                        fn="box", seed=seed, stat=n, box=b, whole=True,
                        nan="none", var=int(v + k) % st.nvar,
                        times=2.**int([-22, 24, -36][v])))
            if n != "PCA":
                for v, nan in enumerate(("scatter", "border")):
                    out.append(dict(name="masked-%s-%s-%d-s%d" % (
                        n, nan, k, seed), fn="box", seed=seed, stat=n,
                        box="masked", whole=False, nan=nan,
                        var=int((v + k) % st.nvar)))
            for v in range(st.nvar if tier != "quick" else 2):
                out.append(dict(name="wcs-%s-%d-%d-s%d" % (n, v, k, seed),
                                fn="wcs", seed=seed, stat=n, whole=False,
                                nan="none", var=(v + seed) % st.nvar))
        if not n.startswith(("PDF", "Dendro")):
            for nd in (1, 2, 3):
                if nd == st.dim or (st.dim == "mvc" and nd == 2):
                    continue
                out.append(dict(name="reject-%s-%d-s%d" % (n, nd, seed),
                                fn="reject", seed=seed, stat=n, nd=nd,
                                var=0))
        out.append(dict(name="junk-%s-s%d" % (n, seed), fn="junk", seed=seed,
                        stat=n, whole=False, nan="none", var=0))
    for k in range(2 * reps):
        out.append(dict(name="mvc-%d-s%d" % (k, seed), fn="mvc", seed=seed,
                        stat="MVC", whole=False,
                        nan=["none", "scatter"][k % 2], var=k % 4,
                        hdr=True))
    for k, s in enumerate([(12, 17), (30, 31), (4, 9, 8), (7, 6, 11)]):
        out.append(dict(name="input-%d-s%d" % (k, seed), fn="input",
                        seed=seed, shape=list(s)))
    from . import p21
    for case in sorted(p21.CASES):
        if case == "mvc":
            continue
        for v in range(2 if tier == "quick" else 5):
            out.append(dict(
                name="distance-%s-%d-s%d" % (case, v, seed), fn="distance",
                seed=seed, case=case, var=(v + seed) % 5,
                shape=[int(q) for q in rng.integers(26, 40, 2)],
                shape2=[int(q) for q in rng.integers(26, 40, 2)],
                cshape=[int(q) for q in rng.integers(18, 24, 3)],
                cshape2=[int(q) for q in rng.integers(18, 24, 3)],
                kind="lognorm", kind2="positive", ckind="lines",
                ckind2="positive", plot=False))
    return out
