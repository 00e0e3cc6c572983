"""P25: synthetic cubes: line formula, conservation, headers, memory safety.

The native code is rebuilt from the current tree, once plainly for the
monitors in this process and once with AddressSanitizer and
UndefinedBehaviorSanitizer for the runs in san_work.py.
"""
import json
import os
import subprocess
import sys
import tempfile

import numpy as np
import astropy.units as u
import astropy.constants as co

from .. import gen, native
from ..core import HarnessError, REPO, VERIF

ID = "P25"
RULE = ("One evaluation = a synthetic cube, its velocity axis, header or "
        "column density compared with explicit sums over cells, a rejected "
        "argument, or a batch of native calls under AddressSanitizer and "
        "UBSan; distinct = different (clause, content).")
ASSUMPTIONS = ["gcc's AddressSanitizer and UBSan instrument the C that Cython "
               "generates from spectrum.pyx; numpy itself is not instrumented"]
BUILD = {}
CONV = 1.823e13           # cm^-2 per K cm/s


def setup(tier):
    d = tempfile.mkdtemp(prefix="nb_")
    ps = [subprocess.Popen(
        [sys.executable, "-c",
         "import sys; sys.path.insert(0, %r)\n"
         "from harness import native\n"
         "native.build(%r, %r, %s, %r)" % (VERIF, REPO, d, fl, tag)],
        stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True)
        for tag, fl in (("plain", '["-O2"]'), ("san", "native.SAN"))]
    errs = [p.communicate()[1] for p in ps]
    for p, e in zip(ps, errs):
        if p.returncode:
            print("harness: the extension does not build\n" + e[-2000:])
            sys.exit(2)
    for tag in ("plain", "san"):
        BUILD[tag] = os.path.join(d, tag, "spectrum.so")
    native.inject(BUILD["plain"])


def reference(vel, dens, ax, edges, vth2, pix):
    """Cell by cell, in cgs; vel and dens have the line of sight first."""
    nz, ny, nx = vel.shape
    out = np.zeros((len(ax), ny, nx))
    grad = np.empty_like(vel)
    grad[1:-1] = (vel[2:] - vel[:-2]) / 2.
    grad[0] = vel[1] - vel[0]
    grad[-1] = vel[-1] - vel[-2]
    sig = np.sqrt(grad**2 + vth2)
    inside = (vel >= edges[0]) & (vel <= edges[-1])
    for z in range(nz):
        a = dens[z] * pix / (np.sqrt(2 * np.pi) * sig[z])
        g = np.exp(-(ax[:, None, None] - vel[z])**2 / (2 * sig[z]**2))
        out += np.where(inside[z], a * g, 0.)
    return out / CONV, inside, sig


def fields(rng, n, los, shape=None, amp=2.):
    sh = list(shape or (n, n, n))
    k = rng.standard_normal(sh)
    F = np.fft.fftn(k)
    r = np.sqrt(sum(np.meshgrid(*[np.fft.fftfreq(s)**2 for s in sh],
                                indexing="ij")))
    r.flat[0] = 1
    v = np.fft.ifftn(F * r**-1.7).real
    v = (v - v.mean()) / v.std() * amp + rng.uniform(-20, 20)
    d = np.exp(0.8 * rng.standard_normal(sh)) * 10**rng.uniform(-2, 3)
    return v, d


VU = {"m/s": u.m / u.s, "km/s": u.km / u.s, "cm/s": u.cm / u.s}


def f_cube(sc, mon):
    from turbustat.simulator import make_ppv
    rng = gen.rng_of(sc["name"], sc["seed"])
    los = sc["los"]
    v, d = fields(rng, None, los, sc["shape"])
    T = float(rng.uniform(20, 3000)) * u.K
    m = float(rng.choice([1.0, 1.4, 2.33])) * co.m_p
    L = float(rng.uniform(.3, 50)) * u.pc
    kw = dict(los_axis=los, T=T, m=m, los_length=L)
    vth = np.sqrt(co.k_B * T / m).to(u.km / u.s).value
    grid = sc["grid"]
    if grid in ("limits", "both", "cut"):
        w = {"cut": 0.6}.get(grid, 3.0)
        lo = v.mean() - w * v.std() - 2 * vth
        hi = v.mean() + w * v.std() + 2 * vth
        if grid == "cut":
            lo, hi = v.mean() - w * v.std(), v.mean() + w * v.std()
        kw.update(v_min=(lo * u.km / u.s).to(VU[sc["lu"]]),
                  v_max=(hi * u.km / u.s).to(VU[sc["hu"]]))
    if grid in ("width", "both", "cut"):
        span = v.max() - v.min()
        cw = span / float(rng.uniform(6, 40))
        kw.update(chan_width=(cw * u.km / u.s).to(VU[sc["wu"]]))
    whole = None
    if grid == "whole":     # the range is a whole number of widths
        cw = float(rng.choice([.1, .2, .3, .15, .7, .05, .25]))
        a_ = int(np.floor(v.min() / cw)) - int(rng.integers(0, 4))
        whole = int(np.ceil(v.max() / cw)) - a_ + int(rng.integers(0, 4))
        kw.update(v_min=(a_ * cw * u.km / u.s).to(VU[sc["lu"]]),
                  v_max=((a_ + whole) * cw * u.km / u.s).to(VU[sc["hu"]]),
                  chan_width=(cw * u.km / u.s).to(VU[sc["wu"]]))
    if grid == "wide":      # every line resolved and inside the channels
        g = np.abs(np.gradient(v, axis=los)).max()
        pad = 6.5 * np.hypot(g, vth)
        kw.update(v_min=((v.min() - pad) * u.km / u.s).to(VU[sc["lu"]]),
                  v_max=((v.max() + pad) * u.km / u.s).to(VU[sc["hu"]]),
                  chan_width=(vth * u.km / u.s).to(VU[sc["wu"]]))
    disp = None
    if rng.random() < .4:
        disp = float(v.std() * rng.uniform(.5, 2.))
        kw.update(vel_disp=(disp * u.km / u.s).to(VU[sc["wu"]]))
    vq = (v * u.km / u.s).to(VU[sc["vu"]])
    dq = d * u.cm**-3
    keep = vq.value.copy(), d.copy()
    cube, ax = make_ppv(vq, dq, return_hdu=False, **kw)
    mon.ok("inputs-kept", np.array_equal(vq.value, keep[0]) and
           np.array_equal(dq.value, keep[1]), observed=len(ax))
    axk = ax.to(u.km / u.s).value
    n = len(axk)
    if n < 2:
        mon.skip("one channel")
        return
    dv = axk[1] - axk[0]
    # the channel grid
    sp = [s for i, s in enumerate(v.shape) if i != los]
    mon.ok("shape", cube.shape == (n,) + tuple(sp), observed=cube.shape)
    mon.close("even-channels", np.diff(axk), np.full(n - 1, dv), rtol=1e-8,
              floor=1e-9)
    mon.ok("increasing", dv > 0, observed=dv)
    std = np.std(v, axis=los).mean() if disp is None else disp
    lim = np.sqrt(std**2 + vth**2)
    lo = kw["v_min"].to(u.km / u.s).value if "v_min" in kw \
        else v.min() - 4 * lim
    hi = kw["v_max"].to(u.km / u.s).value if "v_max" in kw \
        else v.max() + 4 * lim
    mon.close("lower-edge", axk[0] - dv / 2, lo, rtol=0, atol=1e-7 * (hi - lo))
    mon.close("upper-edge", axk[-1] + dv / 2, hi, rtol=0,
              atol=1e-7 * (hi - lo))
    if "chan_width" in kw:
        cw = kw["chan_width"].to(u.km / u.s).value
    else:
        cw = np.sqrt(std**2 * (2. / v.shape[los])**0.5 + 2 * vth**2) / 2.
    x = (hi - lo) / cw
    mon.ok("channel-count", n in (int(np.ceil(x - 1e-6)),
                                  int(np.ceil(x + 1e-6))), observed=n, x=x)
    if whole is not None:
        mon.ok("whole-channels", n == whole, observed=n, want=whole)
    # the spectra
    vz, dz = np.moveaxis(v, los, 0), np.moveaxis(d, los, 0)
    pix = L.to(u.cm).value / v.shape[los]
    edges = np.linspace(lo, hi, n + 1) * 1e5
    near = np.min(np.abs(vz[..., None] - np.array([lo, hi]))) < 1e-6
    if near:
        mon.skip("a cell on the very limit")
        return
    want, inside, sig = reference(vz * 1e5, dz, axk * 1e5, edges,
                                  (vth * 1e5)**2, pix)
    mon.ok("unit", cube.unit == u.K, observed=str(cube.unit))
    mon.close("spectra", cube.value, want, rtol=1e-5, floor=1e-8)
    mon.ev("cells", int(v.size))
    mon.ev("cells-outside-range", int((~inside).sum()))
    mon.ok("non-negative", (cube.value >= 0).all(), observed=cube.value)
    # every line inside the channels and resolved by them: column recovered
    s = sig / 1e5
    ok = ((vz - 6 * s > lo) & (vz + 6 * s < hi) & (s > 0.8 * dv)).all(0)
    if ok.any():
        col = (dz * pix).sum(0)
        got = cube.value.sum(0) * dv * 1e5 * CONV
        mon.close("column-conserved", got[ok], col[ok], rtol=2e-4)
        mon.ev("columns", int(ok.sum()))
        cen = (cube.value * axk[:, None, None]).sum(0) / cube.value.sum(0)
        wc = (dz * vz).sum(0) / dz.sum(0)
        mon.close("centroid", cen[ok], wc[ok], rtol=0,
                  atol=2e-4 * (hi - lo))
    # another spelling of the same arguments
    kw2 = dict(kw)
    kw2["T"] = T.to(u.mK)
    kw2["m"] = m.to(u.g)
    kw2["los_length"] = L.to(u.lyr)
    o = sc["other"]
    for key in ("v_min", "v_max", "chan_width", "vel_disp"):
        if key in kw2:
            kw2[key] = kw2[key].to(VU[o])
    # a channel count at a round-off tie could differ: only then skip
    if whole is not None or abs(x - round(x)) > 1e-6:
        c2, a2 = make_ppv(vq.to(VU[o]), dq.to(u.m**-3), return_hdu=False,
                          **kw2)
        mon.close("units-axis", a2.to(u.km / u.s).value, axk, rtol=1e-9,
                  floor=1e-9)
        mon.close("units-cube", c2.value, cube.value, rtol=1e-5, floor=1e-8)
    # linear in the density
    c3, _ = make_ppv(vq, 3 * dq, return_hdu=False, **kw)
    mon.close("linear", c3.value, 3 * cube.value, rtol=1e-9)
    if sc["hdu"]:
        from astropy.wcs import WCS
        ps = float(rng.uniform(.1, 300)) * u.arcsec
        rf = float(rng.uniform(1, 200)) * u.GHz
        h = make_ppv(vq, dq, pixel_ang_scale=ps, restfreq=rf, **kw)
        mon.ok("hdu-data", np.array_equal(h.data, cube.value),
               observed=h.data)
        w = WCS(h.header)
        sa = w.all_pix2world(np.zeros(n), np.zeros(n), np.arange(n), 0)[2]
        sa = (sa * u.Unit(w.wcs.cunit[2])).to(u.km / u.s).value
        mon.close("hdu-velocities", sa, axk, rtol=1e-8, floor=1e-8)
        mon.close("hdu-pixel", [abs(h.header["CDELT1"]), h.header["CDELT2"]],
                  [ps.to(u.deg).value] * 2, rtol=1e-10)
        mon.close("hdu-restfreq", h.header["RESTFRQ"], rf.to(u.Hz).value,
                  rtol=1e-12)
        mon.ok("hdu-axes", [h.header["NAXIS%d" % i] for i in (3, 2, 1)] ==
               list(cube.shape), observed=list(cube.shape))
        from spectral_cube import SpectralCube
        sc_ = SpectralCube.read(h)
        mon.close("read-axis", sc_.spectral_axis.to(u.km / u.s).value, axk,
                  rtol=1e-8, floor=1e-8)


def f_edges(sc, mon):
    """Cells exactly on channel edges are counted, once."""
    from turbustat.simulator import make_ppv
    rng = gen.rng_of(sc["name"], sc["seed"])
    n = int(rng.integers(4, 12))
    lo, hi = -int(rng.integers(2, 9)), int(rng.integers(2, 9))
    v = rng.integers(lo, hi + 1, (n, 3, 4)).astype(float)
    v[0, 0, 0], v[-1, 0, 0] = lo, hi
    d = rng.uniform(.5, 2., v.shape)
    if sc["flat"]:
        v[...] = v[0]
        v[:, 0, 1] = hi
        v[:, 0, 2] = lo
    T, m = 100. * u.K, 1.4 * co.m_p
    vth = np.sqrt(co.k_B * T / m).to(u.km / u.s).value
    cw = sc["cw"]
    c, ax = make_ppv(v * u.km / u.s, d * u.cm**-3, T=T, m=m,
                     v_min=lo * u.km / u.s, v_max=hi * u.km / u.s,
                     chan_width=cw * u.km / u.s, return_hdu=False,
                     los_length=2 * u.pc)
    axk = ax.to(u.km / u.s).value
    pix = (2 * u.pc).to(u.cm).value / n
    want, inside, sig = reference(v * 1e5, d, axk * 1e5,
                                  np.array([lo, hi]) * 1e5,
                                  (vth * 1e5)**2, pix)
    mon.ok("all-inside", inside.all(), observed=len(axk))
    mon.ev("cells-on-edges", int(v.size))
    # which of the two outer limits is open is not what matters here
    inner = ((v > lo) & (v < hi)).all(0)
    mon.close("edge-cells", c.value[:, inner], want[:, inner], rtol=1e-5,
              floor=1e-8)
    mon.close("limit-cells", c.value, want, rtol=1e-5, floor=1e-8)


def f_threads(sc, mon):
    from turbustat.simulator import make_ppv
    rng = gen.rng_of(sc["name"], sc["seed"])
    v, d = fields(rng, None, 0, (8, 5, 7))
    a = make_ppv(v * u.km / u.s, d * u.cm**-3, return_hdu=False,
                 los_axis=sc["los"])
    b = make_ppv(v * u.km / u.s, d * u.cm**-3, return_hdu=False,
                 los_axis=sc["los"], threads=sc["threads"])
    mon.ok("threads-cube", np.array_equal(a[0].value, b[0].value),
           observed=b[0].value)
    mon.ok("threads-axis", np.array_equal(a[1].value, b[1].value),
           observed=b[1].value)


def f_bad(sc, mon):
    from turbustat.simulator import make_ppv
    rng = gen.rng_of(sc["name"], sc["seed"])
    v, d = fields(rng, None, 0, (6, 4, 5))
    v = v * u.km / u.s
    d = d * u.cm**-3
    dn = d.copy()
    dn[2, 1, 3] *= -1
    mon.raises("negative-density", ValueError, make_ppv, v, dn)
    mon.raises("limits-order", ValueError, make_ppv, v, d,
               v_min=3 * u.km / u.s, v_max=1000 * u.m / u.s)
    mon.raises("limit-unit", u.UnitsError, make_ppv, v, d, v_min=3 * u.K)
    mon.raises("limit-unit", u.UnitsError, make_ppv, v, d, v_max=3 * u.pc)
    mon.raises("too-many-channels", ValueError, make_ppv, v, d,
               chan_width=0.001 * u.m / u.s)
    mon.raises("too-many-channels", ValueError, make_ppv, v, d, max_chan=3,
               chan_width=0.5 * u.km / u.s)
    for sl in ((slice(0, 4),), (slice(None), slice(0, 3)),
               (slice(None), slice(None), slice(0, 4))):
        mon.raises("fields-differ", (ValueError, IndexError), make_ppv, v,
                   d[sl])


def f_san(sc, mon):
    """A batch of cubes made by the sanitised build in its own process."""
    env = native.san_env()
    env["PYTHONPATH"] = VERIF
    last = ""
    for attempt in range(3):
        cmd = (["setarch", "-R"] if attempt else []) + [
            sys.executable, "-m", "harness.san_work", BUILD["san"], REPO,
            str(sc["batch"]), str(sc["seed"]), str(sc["n"])]
        r = subprocess.run(cmd, env=env, capture_output=True, text=True,
                           cwd=os.environ.get("TMPDIR", "/tmp"),
                           timeout=700)
        last = r.stderr[-3000:]
        rep = [l for l in r.stderr.splitlines()
               if "ERROR: AddressSanitizer" in l or "runtime error:" in l]
        if r.returncode == 0:
            break
        if rep and ("spectrum" in r.stderr or "runtime error" in r.stderr):
            mon.evals += 1
            mon.fail("sanitizer", report=rep[0], log=r.stderr[-2500:])
            return
        if r.returncode == 7:      # an exception from the code under test
            mon.evals += 1
            mon.fail("completes", why=r.stderr[-1500:])
            return
    else:
        raise HarnessError("sanitised run gave no answer: rc=%s %s" %
                           (r.returncode, last))
    for line in r.stdout.splitlines():
        if not line.startswith("{"):
            continue
        e = json.loads(line)
        mon.ev("san-cells", e["cells"])
        mon.ev("san-native-calls", e["calls"])
        mon.ok("sanitizer-clean", True, observed=(e["sum"], e["shape"]))
        mon.ok("san-spectra", e["diff"] < 1e-5, observed=e["sum"],
               diff=e["diff"], case=e["case"])
    mon.ok("san-batch-complete", "DONE" in r.stdout, observed=sc["batch"])


FNS = {"cube": f_cube, "edges": f_edges, "threads": f_threads, "bad": f_bad,
       "san": f_san}


def scenarios(tier, seed):
    q = tier == "quick"
    rng = gen.rng_of("p25", seed)
    out = []
    us = ["m/s", "km/s", "cm/s"]
    for b in range(8 if q else 48):
        out.append(dict(name="san-%d" % b, fn="san", batch=b, seed=seed,
                        n=14 if q else 40, cpu=600))
    out.append(dict(name="bad", fn="bad", seed=seed))
    for los in (0, 1, 2):
        for t in (2, 3):
            out.append(dict(name="threads-%d-%d" % (los, t), fn="threads",
                            los=los, threads=t, seed=seed))
    for r in range(30 if q else 200):
        out.append(dict(name="edges-%d" % r, fn="edges", flat=r % 2,
                        cw=[0.5, 1.0, 0.25][r % 3], seed=seed))
    grids = ["auto", "limits", "width", "both", "cut", "wide",
             "wide", "whole"]
    for r in range(112 if q else 600):
        sh = [int(x) for x in rng.integers(2, 11, 3)]
        out.append(dict(
            name="cube-%d" % r, fn="cube", los=r % 3, grid=grids[r % 8],
            shape=sh, vu=str(rng.choice(us)), lu=str(rng.choice(us)),
            hu=str(rng.choice(us)), wu=str(rng.choice(us)),
            other=str(rng.choice(us)), hdu=r % 2, seed=seed))
    return out
