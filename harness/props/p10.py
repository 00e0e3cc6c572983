"""P10: apodising windows and beam correction."""
import numpy as np
import astropy.units as u
from ..core import plain
from .. import gen
from .p06 import direct2

ID = "P10"
RULE = ("One evaluation = one window array or windowed / beam-corrected power "
        "spectrum compared with the closed-form window and the transform of "
        "explicitly windowed data; distinct = different (clause, content).")


def window(kind, shape, alpha, beta):
    """Documented raised-cosine taper, written pixel by pixel."""
    if kind == "hanning":
        alpha, beta = 1.0, 0.0
    elif kind == "tukey":
        beta = 1.0 - alpha
    elif kind == "cosinebell":
        beta = 0.0
    half = (min(shape) - 1) / 2.
    r_in = beta * half
    width = int(np.floor(alpha * half))
    cy, cx = (shape[0] - 1) / 2., (shape[1] - 1) / 2.
    out = np.zeros(shape)
    for i in range(shape[0]):
        for j in range(shape[1]):
            r = np.hypot(i - cy, j - cx)
            if r < r_in:
                out[i, j] = 1.
            elif r > r_in + width:
                out[i, j] = 0.
            elif width == 0:
                out[i, j] = 1.
            else:
                out[i, j] = 0.5 * (1 + np.cos(np.pi * (r - r_in) / width))
    return out


def near_cut(kind, shape, alpha, beta):
    """Pixels numerically on the inner or outer radius (either value)."""
    if kind == "hanning":
        alpha, beta = 1.0, 0.0
    elif kind == "tukey":
        beta = 1.0 - alpha
    elif kind == "cosinebell":
        beta = 0.0
    half = (min(shape) - 1) / 2.
    r_in = beta * half
    cut = r_in + int(np.floor(alpha * half))
    y = np.arange(shape[0]) - (shape[0] - 1) / 2.
    x = np.arange(shape[1]) - (shape[1] - 1) / 2.
    r = np.hypot(y[:, None], x[None, :])
    return (np.abs(r - r_in) < 1e-9) | (np.abs(r - cut) < 1e-9)


def params(rng, kind):
    a = float(rng.uniform(0.15, 1.0))
    b = float(rng.uniform(0., 1. - a)) if kind == "splitcosinebell" else 0.
    # keep clear of the floor() jump
    return round(a, 3) + 1e-4, round(b, 3)


KINDS = ["splitcosinebell", "hanning", "tukey", "cosinebell"]


def f_window(sc, mon):
    from turbustat.statistics import PowerSpectrum
    from turbustat.statistics import apodizing_kernels as ak
    rng = gen.rng_of(sc["name"], sc["seed"])
    kind = sc["kind"]
    for it in range(sc["n"]):
        shape = gen.shapes2d(rng, 8, 44)
        a, b = params(rng, kind)
        ps = PowerSpectrum(np.ones(shape), header=gen.header2d(shape))
        w = ps.apodizing_kernel(kernel_type=kind, alpha=a, beta=b)
        want = window(kind, shape, a, b)
        tie = near_cut(kind, shape, a, b)
        w2 = np.where(tie & (np.abs(w - want) < 1.0001), want, w)
        mon.close("window-profile", w2, want, rtol=1e-9, atol=1e-9, kind=kind,
                  shape=shape, alpha=a, beta=b)
        mon.ok("window-symmetric", np.allclose(w, w[::-1], atol=1e-9) and
               np.allclose(w, w[:, ::-1], atol=1e-9), observed=w)
        mon.ok("window-range", w.min() >= 0 and w.max() <= 1 + 1e-12,
               observed=[w.min(), w.max()])
        cls = {"splitcosinebell": lambda: ak.SplitCosineBellWindow(a, b),
               "hanning": lambda: ak.HanningWindow(),
               "tukey": lambda: ak.TukeyWindow(a),
               "cosinebell": lambda: ak.CosineBellWindow(a)}[kind]()
        mon.close("window-direct", cls(shape), w, rtol=1e-12)
        # transposed shape, transposed window
        ps = PowerSpectrum(np.ones(shape[::-1]),
                           header=gen.header2d(shape[::-1]))
        mon.close("window-transpose", ps.apodizing_kernel(
            kernel_type=kind, alpha=a, beta=b).T, w, rtol=1e-9, atol=1e-9)
    ps = PowerSpectrum(np.ones((9, 9)), header=gen.header2d((9, 9)))
    mon.raises("unknown-window", ValueError, ps.apodizing_kernel,
               kernel_type="nonsense")


def build(which, rng, shape, beam=None, nan="none"):
    from turbustat.statistics import PowerSpectrum, VCA, MVC
    if which == "image":
        img = gen.punch(rng, gen.image(rng, shape, "lognorm"), nan)
        return PowerSpectrum(img, header=gen.header2d(shape, beam=beam)), \
            np.nan_to_num(img)
    if which == "cube":
        cs = (6,) + tuple(shape)
        c = gen.punch(rng, gen.cube(rng, cs, "lines"), nan)
        return VCA(c, header=gen.header3d(cs, beam=beam)), np.nan_to_num(c)
    d = [gen.plaw2d(rng, shape), np.exp(.3 * gen.plaw2d(rng, shape)),
         1 + rng.gamma(2., .2, shape)]
    return MVC(d[0], d[1], d[2], header=gen.header2d(shape, beam=beam)), d


def power(which, data, w):
    if which == "image":
        return direct2(data * w)
    return data.shape[0] * sum(direct2(p * w) for p in data)


def f_spec(sc, mon):
    rng = gen.rng_of(sc["name"], sc["seed"])
    shape = tuple(sc["shape"])
    which, kind = sc["which"], sc["kind"]
    beam = None
    pix = 1. / 3600.
    if sc["beam"]:
        fw = float(rng.uniform(2., 3.5)) * pix
        beam = (fw, fw, 0.)
        if sc["beam"] == "ellip":
            beam = (fw, fw * float(rng.uniform(.7, .95)),
                    float(rng.uniform(0, 90)))
    st, data = build(which, rng, shape, beam, sc["nan"])
    kw = {}
    w = np.ones(shape)
    if kind != "none":
        a, b = params(rng, kind)
        kw = dict(apodize_kernel=kind, alpha=a, beta=b)
        w = window(kind, shape, a, b)
        if near_cut(kind, shape, a, b).any():
            w = st.apodizing_kernel(kernel_type=kind, alpha=a, beta=b)
    if sc["beam"]:
        kw["beam_correct"] = True
    if sc["via"] == "run":
        st.run(fit_2D=False, **kw)
    else:
        st.compute_pspec(**kw)
    got = np.asarray(st.ps2D)
    resp = np.ones(shape)
    if sc["beam"]:
        from radio_beam import Beam
        bm = Beam(beam[0] * u.deg, beam[1] * u.deg, beam[2] * u.deg)
        k = bm.as_kernel(pix * u.deg, y_size=shape[0], x_size=shape[1]).array
        resp = direct2(k)
        # Gaussian transform at low frequencies, independent of the kernel
        if beam[0] == beam[1]:
            sig = beam[0] / pix / np.sqrt(8 * np.log(2))
            fy = np.fft.fftshift(np.fft.fftfreq(shape[0]))[::-1]
            fx = np.fft.fftshift(np.fft.fftfreq(shape[1]))
            k2 = fy[:, None]**2 + fx[None, :]**2
            low = k2 < 0.12**2
            gau = np.exp(-4 * np.pi**2 * sig**2 * k2)
            ref = direct2(k)
            if not np.allclose(ref[low], gau[low], rtol=.05):
                mon.skip("beam kernel not well sampled")
            elif which != "mvc":
                mon.close("beam-gaussian", got[low],
                          (power(which, data, w) / gau)[low], rtol=.06)
    if which == "mvc":
        c, m0, lw = data
        t1 = np.abs(np.fft.fft2(c * m0 * w))
        t0 = np.abs(np.fft.fft2(m0 * w))
        root = np.sqrt(np.maximum(got * resp, 0))
        f1 = np.fft.fftshift(t1)[::-1]
        f0 = np.fft.fftshift(t0)[::-1]
        i = np.unravel_index(np.argmax(f0), f0.shape)
        cand = [(f1[i] - s * root[i]) / f0[i] for s in (1, -1)]
        gd = resp > 1e-12 * resp.max()
        back = (got * resp)[gd]
        hit = [x for x in cand
               if np.allclose((f1 - x * f0)[gd]**2, back, rtol=1e-5,
                              atol=1e-9 * back.max())]
        lo, hi = np.mean(w * lw**2), np.mean(lw**2 + c**2)
        lo = min(lo, hi)
        mon.ok("windowed-centroid-power", any(
            min(lo, np.mean((lw**2 + c**2) * w)) - 1e-9 <= x <= hi + 1e-9
            for x in hit), observed=got, factor=hit, bounds=[lo, hi])
        return
    want = power(which, data, w) / resp
    good = resp > 1e-12 * resp.max()
    mon.close("windowed-power" if not sc["beam"] else "beam-power",
              got[good], want[good], rtol=1e-6, floor=1e-11)
    # asking for nothing leaves the plain spectrum
    st.compute_pspec()
    mon.close("plain-again", st.ps2D, power(which, data, np.ones(shape)),
              rtol=1e-8, floor=1e-12)


def f_nobeam(sc, mon):
    rng = gen.rng_of(sc["name"], sc["seed"])
    st, d = build(sc["which"], rng, (20, 22))
    mon.raises("beam-missing", AttributeError, st.compute_pspec,
               beam_correct=True)
    from radio_beam import Beam
    from turbustat.statistics import PowerSpectrum
    img = gen.image(rng, (24, 24), "plaw")
    pix = 1. / 3600.
    b = Beam(3 * pix * u.deg)
    p1 = PowerSpectrum(img, header=gen.header2d((24, 24)), beam=b)
    p1.compute_pspec(beam_correct=True)
    p2 = PowerSpectrum(img, header=gen.header2d((24, 24), beam=3 * pix))
    p2.compute_pspec(beam_correct=True)
    mon.close("beam-object-or-header", p1.ps2D, p2.ps2D, rtol=1e-6)
    mon.raises("beam-type", TypeError, PowerSpectrum, img,
               header=gen.header2d((24, 24)), beam=3.0)
    # an explicit beam wins over the header's
    p3 = PowerSpectrum(img, header=gen.header2d((24, 24), beam=2 * pix),
                       beam=b)
    p3.compute_pspec(beam_correct=True)
    mon.close("beam-object-wins", p3.ps2D, p1.ps2D, rtol=1e-9)


FNS = {"window": f_window, "spec": f_spec, "nobeam": f_nobeam}


def scenarios(tier, seed):
    rng = gen.rng_of("P10", seed, tier)
    k = 5 if tier == "quick" else 16
    out = []
    for kind in KINDS:
        for j in range(3 * k):
            out.append(dict(name="window-%s-%d" % (kind, j), fn="window",
                            seed=seed, kind=kind, n=8))
    n = 0
    for which in ("image", "cube", "mvc"):
        out.append(dict(name="nobeam-%s" % which, fn="nobeam", seed=seed,
                        which=which))
        for kind in ["none"] + KINDS:
            for beam in ("", "circ", "ellip"):
                for j in range(k):
                    out.append(dict(
                        name="spec-%s-%s-%s-%d" % (which, kind, beam, j),
                        fn="spec", seed=seed, which=which, kind=kind,
                        beam=beam, via=["run", "steps"][n % 2],
                        nan=gen.NAN_PATTERNS[n % 7] if which != "mvc"
                        else "none", shape=gen.shapes2d(rng, 20, 44)))
                    n += 1
    return out
