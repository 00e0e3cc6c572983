"""P23: moment maps and their errors against explicit per-spectrum sums."""
import os
import shutil
import tempfile

import numpy as np
import astropy.units as u
from .. import gen

ID = "P23"
RULE = ("One evaluation = a moment map, an error map, a file or a header "
        "compared with explicit sums over each spectrum's valid channels, or "
        "with the maps of another method or of a scaled cube; distinct = "
        "different (clause, content).")


def val(q, unit=None):
    if hasattr(q, "unit") and unit is not None:
        q = u.Quantity(np.array(q.value), q.unit).to(unit)
    return np.array(getattr(q, "value", q), float)


def reference(data, v, sig, inc):
    """Sums over the included channels; first-order error propagation."""
    d = np.where(inc, data, 0.)
    dv = np.abs(v[1] - v[0])
    vv = v[:, None, None]
    S = d.sum(0)
    n = inc.sum(0)
    none = n == 0
    with np.errstate(all="ignore"):
        m0 = S * dv
        m1 = (d * vv).sum(0) / S
        m2 = (d * (vv - m1)**2).sum(0) / S
        s2 = np.broadcast_to(sig, d.shape)**2 * inc
        e0 = np.sqrt(s2.sum(0)) * dv
        e1 = np.sqrt((((vv - m1) / S)**2 * s2).sum(0))
        e2 = np.sqrt(((((vv - m1)**2 - m2) / S)**2 * s2).sum(0))
        lw = np.sqrt(m2)
        el = e2 / (2 * lw)
    out = [m0, m1, lw, e0, e1, el, m2, e2]
    for a in out:
        a[none] = np.nan
    return out


def make(rng, sc):
    from spectral_cube import SpectralCube
    from astropy.io import fits
    shape = tuple(sc["shape"])
    data = gen.cube(rng, shape, "clean") + 0.02
    if sc["data"] == "signed":
        data = data + 0.01 * rng.standard_normal(shape)
        data += 0.05
    data = data * float(10**rng.uniform(-2, 2))
    if rng.random() < .5:       # measured to be exactly zero
        data[rng.uniform(size=shape) < .05] = 0.
    if sc["nan"] != "none":
        data = gen.punch(rng, data, sc["nan"])
        y, x = rng.integers(shape[1]), rng.integers(shape[2])
        data[rng.integers(shape[0]), y, x] = np.nan
    dv = float(rng.uniform(50, 900)) * (-1 if sc["rev"] else 1)
    v0 = float(rng.uniform(-8000, 8000))
    vunit = "m/s"
    if sc["vunit"] == "hdr-km":
        dv, v0, vunit = dv / 1e3, v0 / 1e3, "km/s"
    hdr = gen.header3d(shape, dv=dv, v0=v0, vunit=vunit)
    cube = SpectralCube.read(fits.PrimaryHDU(data, hdr))
    if sc["vunit"] == "conv-km":
        cube = cube.with_spectral_unit(u.km / u.s)
    inc = np.isfinite(data)
    if sc["mask"]:
        m = data > np.nanpercentile(data, 35)
        inc = inc & m
    else:
        m = None
    v = (v0 + dv * np.arange(shape[0])) * u.Unit(vunit)
    return cube, data, inc, m, v, hdr


def f_maps(sc, mon):
    from turbustat.moments import Moments
    rng = gen.rng_of(sc["name"], sc["seed"])
    cube, data, inc, m, v, hdr = make(rng, sc)
    sig = float(np.nanmax(data) * rng.uniform(0.001, 0.05))
    vu = u.km / u.s
    ref = reference(data, v.to(vu).value, sig, inc)
    if (np.where(inc, data, 0).sum(0)[inc.any(0)] <= 0).any():
        mon.skip("a spectrum without positive emission")
        return
    mo = Moments(cube, scale=None if sc["late"] else sig * u.K,
                 moment_method=sc["how"])
    if m is not None:
        mo.apply_mask(m)
    mo.make_moments()
    mo.make_moment_errors(**({"scale": sig * u.K} if sc["late"] else {}))
    names = [("moment0", u.K * vu), ("moment1", vu), ("linewidth", vu),
             ("moment0_err", u.K * vu), ("moment1_err", vu),
             ("linewidth_err", vu)]
    got = {}
    single = inc.sum(0) == 1
    for (nm, un), w in zip(names, ref):
        g = getattr(mo, nm)
        if not mon.ok("unit-" + nm, hasattr(g, "unit") and
                      g.unit.is_equivalent(un),
                      observed=str(getattr(g, "unit", None))):
            continue
        a = val(g, un)
        got[nm] = a
        b = w.copy()
        a = a.copy()
        if nm in ("linewidth", "linewidth_err"):
            # the difference of two nearly equal numbers for a single channel
            bad = single | (ref[6] < 1e-8 * np.nanmax(ref[6]))
            a[bad] = b[bad] = np.nan
        mon.close(nm, a, b, rtol=1e-6, floor=1e-8)
    mon.ev("spectra", int(inc.any(0).sum()))
    al, er = mo.all_moments(), mo.all_moment_errs()
    for x, nm in zip(list(al) + list(er), [n[0] for n in names]):
        mon.ok("list-" + nm, x is getattr(mo, nm) or
               np.array_equal(val(x), val(getattr(mo, nm)), equal_nan=True),
               observed=val(x))
    # a scaled cube
    f = gen.factor(rng)
    from spectral_cube import SpectralCube
    from astropy.io import fits
    c2 = SpectralCube.read(fits.PrimaryHDU(data * f, hdr))
    m2 = Moments(c2, scale=f * sig * u.K, moment_method=sc["how"])
    if m is not None:
        m2.apply_mask(m)
    m2.make_moments()
    m2.make_moment_errors()
    for (nm, un) in names:
        s = f if nm.startswith("moment0") else 1.
        if nm in got:
            a, b = val(getattr(m2, nm), un), got[nm] * s
            if nm.startswith("line"):
                bad = single | (ref[6] < 1e-8 * np.nanmax(ref[6]))
                a[bad] = np.nan
                b = np.where(bad, np.nan, b)
            mon.close("scaled-" + nm, a, b, rtol=1e-6, floor=1e-7)
    # masked in two steps, and another noise level set before the one given
    m4 = Moments(cube, scale=3.1 * sig * u.K, moment_method=sc["how"])
    if m is not None:
        r = rng.uniform(size=m.shape) < .5
        m4.apply_mask(m | r)
        m4.apply_mask(m | ~r)
    m4.make_moments()
    m4.make_moment_errors()
    m4.make_moment_errors(scale=sig * u.K)
    for (nm, un) in names:
        if nm in got:
            a, b = val(getattr(m4, nm), un), got[nm]
            if nm.startswith("line"):
                bad = single | (ref[6] < 1e-8 * np.nanmax(ref[6]))
                a[bad] = np.nan
                b = np.where(bad, np.nan, b)
            mon.close("in-steps-" + nm, a, b, rtol=1e-6, floor=1e-7)
    # no noise given: zero errors
    m3 = Moments(cube, moment_method=sc["how"])
    m3.make_moments()
    m3.make_moment_errors()
    z = [val(e) for e in m3.all_moment_errs()]
    mon.ok("no-noise", all((np.nan_to_num(e) == 0).all() for e in z),
           observed=z[0])


def f_funcs(sc, mon):
    """The error functions themselves, with a noise cube too."""
    from turbustat.moments import _moment_errs as me
    from spectral_cube import SpectralCube
    from astropy.io import fits
    rng = gen.rng_of(sc["name"], sc["seed"])
    cube, data, inc, m, v, hdr = make(rng, sc)
    if m is not None:
        cube = cube.with_mask(m)
    vu = u.km / u.s
    s = float(np.nanmax(data) * 0.02)
    if sc["late"]:
        sig = s * rng.uniform(0.5, 2., data.shape)
        sca = SpectralCube.read(fits.PrimaryHDU(sig, hdr))
        if sc["vunit"] == "conv-km":
            sca = sca.with_spectral_unit(vu)
    else:
        sig, sca = s, s * u.K
    ref = reference(data, v.to(vu).value, sig, inc)
    how = sc["how"]
    pre = {}
    if sc["data"] == "signed":
        pre = dict(moment0=cube.moment0(how="cube"),
                   moment1=cube.moment1(how="cube"))
    bad = (inc.sum(0) < 2) | (ref[6] < 1e-8 * np.nanmax(ref[6]))

    def cmp(nm, g, w, un, cut=False):
        a, b = val(g, un), w.copy()
        if cut:
            a[bad] = np.nan
            b[bad] = np.nan
        mon.close(nm, a, b, rtol=1e-6, floor=1e-8)
    cmp("fn-moment0", me.moment0_error(cube, sca, how=how), ref[3], u.K * vu)
    cmp("fn-moment1", me.moment1_error(cube, sca, how=how, **pre), ref[4], vu)
    cmp("fn-moment2", me.moment2_error(cube, sca, how=how, **pre), ref[7],
        vu**2, True)
    cmp("fn-linewidth", me.linewidth_sigma_err(cube, sca, how=how, **pre),
        ref[5], vu, True)
    cmp("fn-fwhm", me.linewidth_fwhm_err(cube, sca, how=how, **pre),
        ref[5] * 2 * np.sqrt(2 * np.log(2)), vu, True)
    if sc["late"]:
        small = sca[:-1]
        mon.raises("noise-shape", Exception, me.moment0_error, cube, small,
                   how=how)


def f_files(sc, mon):
    from turbustat.moments import Moments
    from astropy.io import fits
    from astropy.wcs import WCS
    rng = gen.rng_of(sc["name"], sc["seed"])
    cube, data, inc, m, v, hdr = make(rng, sc)
    sig = float(np.nanmax(data) * 0.01)
    tmp = tempfile.mkdtemp(prefix="vp23_")
    cwd = os.getcwd()
    try:
        os.chdir(tmp)
        src = cube
        if sc["late"]:
            fits.PrimaryHDU(data, hdr).writeto("source.cube.fits")
            src = "source.cube.fits"
        mo = Moments(src, scale=sig * u.K, moment_method="cube")
        if m is not None:
            mo.apply_mask(m)
        mo.make_moments()
        mo.make_moment_errors()
        if sc["late"]:
            mo.to_fits()
            pre = "source.cube"
        else:
            mo.to_fits(save_name="pre")
            pre = "pre"
        files = sorted(f for f in os.listdir(".") if f != "source.cube.fits")
        mon.ok("file-names", files == sorted(
            pre + s for s in ("_moment0.fits", "_centroid.fits",
                              "_linewidth.fits")), observed=files)
        k = {}
        if m is not None:
            fits.PrimaryHDU(m.astype(int)).writeto("mask.fits")
            k["mask_name"] = "mask.fits"
        back = Moments.from_fits(src, moments_prefix=None if sc["late"]
                                 else pre, moments_path=tmp, scale=sig * u.K,
                                 **k)
        for nm in ("moment0", "moment1", "linewidth", "moment0_err",
                   "moment1_err", "linewidth_err"):
            mon.close("reload-" + nm, val(getattr(back, nm)),
                      val(getattr(mo, nm)), rtol=1e-12)
        inc_b = back.cube.mask.include()
        mon.ok("reload-mask", np.array_equal(inc_b, inc), observed=inc_b.sum())
        named = Moments.from_fits(
            cube, moments_prefix="nothing", moment0=pre + "_moment0.fits",
            centroid=pre + "_centroid.fits",
            linewidth=pre + "_linewidth.fits")
        for nm in ("moment0", "moment1", "linewidth_err"):
            mon.close("named-" + nm, val(getattr(named, nm)),
                      val(getattr(mo, nm)), rtol=1e-12)
        gone = Moments.from_fits(cube, moments_prefix="nothing",
                                 moments_path=tmp)
        mon.ok("absent", gone.moment0 is None and gone.moment1 is None and
               gone.linewidth is None, observed=str(gone.moment0))
        for suf, q in (("_moment0", mo.moment0), ("_centroid", mo.moment1),
                       ("_linewidth", mo.linewidth)):
            h = fits.getheader(pre + suf + ".fits")
            mon.ok("header-unit", u.Unit(h["BUNIT"]) == q.unit,
                   observed=(suf, h["BUNIT"], str(q.unit)))
            w = WCS(h)
            y, x = rng.uniform(0, 5, 2)
            a = w.all_pix2world(x, y, 0)
            b = WCS(hdr).celestial.all_pix2world(x, y, 0)
            mon.close("header-sky", np.array(a, float), np.array(b, float),
                      rtol=1e-10)
        d = mo.to_dict()
        for key, q in (("moment0", mo.moment0), ("centroid", mo.moment1),
                       ("linewidth", mo.linewidth),
                       ("moment0_error", mo.moment0_err),
                       ("centroid_error", mo.moment1_err),
                       ("linewidth_error", mo.linewidth_err)):
            mon.close("dict-" + key, d[key][0], val(q), rtol=1e-12)
        mon.close("dict-cube", d["cube"][0], np.where(inc, data, np.nan),
                  rtol=1e-6)
    finally:
        os.chdir(cwd)
        shutil.rmtree(tmp)


def f_reject(sc, mon):
    from turbustat.moments import Moments
    rng = gen.rng_of(sc["name"], sc["seed"])
    cube, data, inc, m, v, hdr = make(rng, sc)
    mon.raises("method", TypeError, Moments, cube, moment_method="other")
    mon.raises("no-unit", TypeError, Moments, cube, scale=0.1)
    mon.raises("unit", u.UnitsError, Moments, cube, scale=0.1 * u.m)
    mon.raises("negative", ValueError, Moments, cube, scale=-0.1 * u.K)
    mon.raises("order", ValueError, Moments(cube).make_moment_errors)
    a, b = Moments(cube), Moments(cube)
    a.make_moments()
    b.make_moments(units=False)
    for nm in ("moment0", "moment1", "linewidth"):
        g = getattr(b, nm)
        mon.ok("plain", not hasattr(g, "unit"), observed=str(type(g)))
        mon.close("plain-" + nm, np.asarray(g), val(getattr(a, nm)))


FNS = {"maps": f_maps, "funcs": f_funcs, "files": f_files,
       "reject": f_reject}


def scenarios(tier, seed):
    out = []
    k = 3 if tier == "quick" else 8
    rng = gen.rng_of("p23", seed)
    n = {"maps": 60, "funcs": 40, "files": 16, "reject": 4}
    for fn in ("maps", "funcs", "files", "reject"):
        for i in range(n[fn] * k):
            out.append(dict(
                name="%s-%d" % (fn, i), fn=fn, seed=seed,
                shape=tuple(gen.grow(rng, (int(rng.integers(6, 30)),) +
                                     gen.shapes2d(rng, 6, 14), .08)),
                how=["slice", "cube", "ray"][i % 3]
                if fn != "funcs" else ["slice", "cube", "auto"][i % 3],
                data=["clean", "signed"][int(rng.integers(2))],
                nan=gen.NAN_PATTERNS[(i // 2) % 7],
                vunit=["m/s", "hdr-km", "conv-km"][(i // 3) % 3],
                rev=bool(rng.integers(2)), mask=bool(rng.integers(2)),
                late=bool(rng.integers(2))))
    return out
