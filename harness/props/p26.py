"""P26: headers made for simulated data, and beam look-up."""
import numpy as np
import astropy.units as u
from astropy.io import fits
from astropy.wcs import WCS
from .. import gen, native
from ..core import REPO

ID = "P26"
RULE = ("One evaluation = a header value, a world coordinate of a pixel, an "
        "axis length or a beam size compared with what was asked for, or a "
        "malformed input that is rejected; distinct = different (clause, "
        "content).")


def setup(tier):
    native.stub_if_missing(REPO)


ANG = [u.deg, u.arcmin, u.arcsec, u.rad]
BUNITS = [u.K, u.Jy, u.Jy / u.beam, u.mJy, u.dimensionless_unscaled, u.mK]


def common(sc, rng):
    px = (float(10**rng.uniform(-5, -1)) * u.deg).to(ANG[rng.integers(4)])
    bm = (px * rng.uniform(1.5, 9)).to(ANG[rng.integers(4)])
    rf = (float(rng.uniform(1, 500)) * u.GHz).to(
        [u.GHz, u.MHz, u.Hz][rng.integers(3)])
    bu = BUNITS[rng.integers(len(BUNITS))]
    return px, bm, rf, bu


def sky(mon, w, shape, px):
    """World positions of pixels: spacing, handedness and the centre."""
    ny, nx = shape
    d = px.to(u.deg).value
    x = np.arange(nx)
    y = np.arange(ny)
    lon, lat = w.all_pix2world(x, np.full(nx, ny / 2. - 1), 0)
    lon = (np.asarray(lon) + 180.) % 360. - 180.
    # the reference position is the middle of each axis
    mon.close("longitude", lon, -(x - (nx / 2. - 1)) * d, rtol=1e-7,
              floor=1e-9)
    lon, lat = w.all_pix2world(np.full(ny, nx / 2. - 1), y, 0)
    mon.close("latitude", lat, (y - (ny / 2. - 1)) * d, rtol=1e-7, floor=1e-9)


def f_image(sc, mon):
    from turbustat.io.sim_tools import create_image_header, create_fits_hdu
    rng = gen.rng_of(sc["name"], sc["seed"])
    shape = tuple(sc["shape"])
    px, bm, rf, bu = common(sc, rng)
    data = rng.standard_normal(shape)
    h = create_image_header(px, bm, shape, rf, bu)
    hdu = create_fits_hdu(data, px, bm, shape, rf, bu)
    mon.ok("header-type", isinstance(h, fits.Header), observed=type(h).__name__)
    mon.ok("hdu-data", np.array_equal(hdu.data, data), observed=hdu.data)
    mon.ok("axes", [hdu.header["NAXIS%d" % i] for i in (2, 1)] == list(shape)
           and hdu.header["NAXIS"] == 2, observed=shape)
    for k in h:
        if k not in ("COMMENT", "HISTORY", ""):
            mon.ok("hdu-has-" + k[:5], hdu.header.get(k) == h[k],
                   observed=(k, h[k]))
    w = WCS(hdu.header)
    mon.ok("wcs-axes", w.naxis == 2, observed=w.naxis)
    sky(mon, w, shape, px)
    meta(mon, h, bm, rf, bu)


def meta(mon, h, bm, rf, bu):
    from turbustat.io import find_beam_properties, find_beam_width
    mon.close("rest-frequency", h["RESTFRQ"], rf.to(u.Hz).value, rtol=1e-12)
    mon.ok("data-unit", u.Unit(h["BUNIT"]) == bu, observed=h["BUNIT"])
    a, b, p = find_beam_properties(h)
    bw = find_beam_width(h)
    d = bm.to(u.deg).value
    mon.ok("beam-unit", a.unit == b.unit == p.unit == bw.unit == u.deg,
           observed=str(a.unit))
    mon.close("beam", [a.value, b.value, bw.value], [d] * 3, rtol=1e-9)
    mon.close("beam-angle", p.value, 0., atol=1e-12)


def f_cube(sc, mon):
    from turbustat.io.sim_tools import create_cube_header, create_fits_hdu
    rng = gen.rng_of(sc["name"], sc["seed"])
    shape = tuple(sc["shape"])
    px, bm, rf, bu = common(sc, rng)
    n = shape[0]
    if sc["spec"] == "freq":
        un = [u.Hz, u.kHz, u.MHz][rng.integers(3)]
        dv = (float(rng.uniform(1, 900)) * u.kHz).to(un)
        v0 = (float(rng.uniform(1, 200)) * u.GHz).to(
            [u.GHz, u.Hz][rng.integers(2)])
        base = u.Hz
    else:
        un = [u.m / u.s, u.km / u.s, u.cm / u.s][rng.integers(3)]
        dv = (float(rng.uniform(-2, 2)) * u.km / u.s).to(un)
        v0 = (float(rng.uniform(-99, 99)) * u.km / u.s).to(
            [u.m / u.s, u.km / u.s][rng.integers(2)])
        base = u.m / u.s
    args = [px, dv, bm, shape, rf, bu]
    if sc["spec"] == "default":
        v0 = 0 * u.km / u.s
    else:
        args.append(v0)
    data = rng.standard_normal(shape)
    h = create_cube_header(*args)
    hdu = create_fits_hdu(data, *args)
    mon.ok("hdu-data", np.array_equal(hdu.data, data), observed=hdu.data)
    mon.ok("axes", [hdu.header["NAXIS%d" % i] for i in (3, 2, 1)] ==
           list(shape), observed=shape)
    w = WCS(hdu.header)
    mon.ok("wcs-axes", w.naxis == 3, observed=w.naxis)
    mon.ok("spectral-type", h["CTYPE3"].strip() ==
           ("FREQ" if sc["spec"] == "freq" else "VRAD"),
           observed=h["CTYPE3"])
    s = w.all_pix2world(np.zeros(n), np.zeros(n), np.arange(n), 0)[2]
    s = (np.asarray(s) * u.Unit(w.wcs.cunit[2])).to(base).value
    want = v0.to(base).value + np.arange(n) * dv.to(base).value
    mon.close("spectral-axis", s, want, rtol=1e-9, floor=1e-9)
    sky(mon, w.celestial, shape[1:], px)
    meta(mon, h, bm, rf, bu)
    from spectral_cube import SpectralCube
    if bu in (u.K, u.mK, u.Jy) and all(x > 1 for x in shape):
        c = SpectralCube.read(hdu)
        mon.ok("cube-shape", c.shape == shape, observed=c.shape)
        mon.close("cube-axis", c.spectral_axis.to(base).value, want,
                  rtol=1e-8, floor=1e-8)
        mon.ok("cube-unit", c.unit == bu, observed=str(c.unit))
        if sc["spec"] == "freq":
            return
        # pixel scale as the statistics read it
    from turbustat.statistics.vca_vcs import VCA
    v = VCA(hdu)
    mon.close("statistic-pixel", v._ang_size.to(u.deg).value,
              px.to(u.deg).value, rtol=1e-9)


def f_beam(sc, mon):
    from turbustat.io import find_beam_properties, find_beam_width
    rng = gen.rng_of(sc["name"], sc["seed"])
    h = gen.header2d((8, 9))
    for k in ("BMAJ", "BMIN", "BPA"):
        if k in h:
            del h[k]
    bmaj = float(10**rng.uniform(-5, 0))
    bmin = bmaj * float(rng.uniform(.2, 1.))
    bpa = float(rng.uniform(-90, 90))
    h["BMAJ"] = bmaj
    if sc["have"] >= 1:
        h["BMIN"] = bmin
    if sc["have"] >= 2:
        h["BPA"] = bpa
    keep = h.tostring()
    a, b, p = find_beam_properties(h)
    mon.close("major", a.to(u.deg).value, bmaj, rtol=1e-9)
    mon.close("minor", b.to(u.deg).value, bmin if sc["have"] >= 1 else bmaj,
              rtol=1e-9)
    mon.close("angle", p.to(u.deg).value, bpa if sc["have"] >= 2 else 0.,
              rtol=1e-9, atol=1e-10)
    mon.ok("degrees", a.unit == b.unit == p.unit == u.deg,
           observed=str(a.unit))
    mon.close("width-is-major", find_beam_width(h).to(u.deg).value, bmaj,
              rtol=1e-9)
    mon.ok("header-kept", h.tostring() == keep, observed=keep[:40])
    # the statistics that look a beam up use the same value
    h2 = gen.header2d((8, 9))
    for k in ("BMAJ", "BMIN", "BPA"):
        if k in h2:
            del h2[k]
    mon.raises("no-beam", Exception, find_beam_width, h2)
    mon.raises("no-beam", Exception, find_beam_properties, h2)
    for bad in ("abc", {"BMIN": 3}, 3, None):
        mon.raises("not-a-header", Exception, find_beam_width, bad)


def f_bad(sc, mon):
    from turbustat.io.sim_tools import (create_fits_hdu, create_image_header,
                                        create_cube_header)
    px, bm, rf = 1 * u.arcsec, 3 * u.arcsec, 1 * u.GHz
    for nd in (1, 4):
        mon.raises("wrong-dimensions", ValueError, create_fits_hdu,
                   np.zeros((3,) * nd), px, bm, (3,) * nd, rf, u.K)
    mon.raises("pixel-unit", u.UnitsError, create_image_header, 3 * u.pc, bm,
               (4, 5), rf, u.K)
    mon.raises("beam-unit", u.UnitsError, create_image_header, px, 3 * u.km,
               (4, 5), rf, u.K)
    mon.raises("frequency-unit", u.UnitsError, create_image_header, px, bm,
               (4, 5), 3 * u.s, u.K)
    mon.raises("first-channel-unit", u.UnitsError, create_cube_header, px,
               1 * u.km / u.s, bm, (3, 4, 5), rf, u.K, 5 * u.Hz)


FNS = {"image": f_image, "cube": f_cube, "beam": f_beam, "bad": f_bad}


def scenarios(tier, seed):
    q = tier == "quick"
    rng = gen.rng_of("p26", seed)
    out = [dict(name="bad", fn="bad", seed=seed)]
    for r in range(120 if q else 1500):
        sh = [int(x) for x in rng.integers(2, 40, 2)]
        out.append(dict(name="image-%d" % r, fn="image", shape=sh, seed=seed))
    for r in range(150 if q else 1500):
        sh = [int(x) for x in rng.integers(2, 20, 3)]
        out.append(dict(name="cube-%d" % r, fn="cube", shape=sh, seed=seed,
                        spec=["vel", "freq", "default"][r % 3]))
    for r in range(60 if q else 600):
        out.append(dict(name="beam-%d" % r, fn="beam", have=r % 3, seed=seed))
    return out
