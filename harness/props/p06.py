"""P06: Fourier power of images, cubes and moment maps vs. a direct transform."""
import numpy as np
import astropy.units as u
from astropy.io import fits
from ..core import plain
from .. import gen

ID = "P06"
RULE = ("One evaluation = one comparison of a power spectrum returned by the "
        "library with a direct complex FFT of the same data; distinct = "
        "different (statistic, clause, spectrum content) triples, where the "
        "spectrum is non-constant.")


def direct2(a):
    """Power of a 2D array in the library's documented orientation."""
    return np.fft.fftshift(np.abs(np.fft.fft2(a)) ** 2)[::-1]


def dft_spot(a, ky, kx):
    """Power of one Fourier mode straight from the definition."""
    y = np.arange(a.shape[0])[:, None]
    x = np.arange(a.shape[1])[None, :]
    ph = np.exp(-2j * np.pi * (ky * y / a.shape[0] + kx * x / a.shape[1]))
    return np.abs((a * ph).sum()) ** 2


def f_rfft(sc, mon):
    from turbustat.statistics.rfft_to_fft import rfft_to_fft
    rng = gen.rng_of(sc["name"], sc["seed"])
    for shape in sc["shapes"]:
        shape = tuple(shape)
        a = rng.standard_normal(shape) + rng.uniform(-2, 2)
        keep = a.copy()
        want = np.abs(np.fft.fftn(a))
        mon.close("full-transform", rfft_to_fft(a), want, shape=shape)
        mon.close("half-transform", rfft_to_fft(a, keep_rfft=True),
                  np.abs(np.fft.rfftn(a)), shape=shape)
        mon.close("full-transform-fftw",
                  rfft_to_fft(a, use_pyfftw=True, threads=2), want,
                  shape=shape)
        mon.ok("transform-keeps-input", np.array_equal(a, keep), shape=shape)
    for bad in (np.zeros(8), np.zeros((2, 3, 4, 5))):
        mon.raises("rejects-other-dimensions", TypeError, rfft_to_fft, bad)


def f_image(sc, mon):
    from turbustat.statistics import PowerSpectrum
    rng = gen.rng_of(sc["name"], sc["seed"])
    shape = tuple(sc["shape"])
    raw = gen.image(rng, shape, sc["kind"])
    img = gen.punch(rng, raw, sc["nan"])
    filled = np.where(np.isnan(img), 0.0, img)
    hdr = gen.header2d(shape)
    w = None
    weff = np.ones(shape)
    if sc["weights"] != "none":
        w = rng.uniform(0.1, 2.0, shape)
        if sc["weights"] == "nan":
            w[rng.uniform(size=shape) < 0.1] = np.nan
        if sc["weights"] == "zero":
            w[rng.uniform(size=shape) < 0.2] = 0.0
        weff = np.where(np.isnan(w), 0.0, w)
    ps = PowerSpectrum(img.copy(), header=hdr,
                       weights=None if w is None else w.copy())
    kw = dict(sc.get("fft", {}))
    ps.compute_pspec(**kw)
    want = direct2(filled * weff)
    mon.close("image-power", ps.ps2D, want, rtol=1e-8, floor=1e-12)
    # Parseval: total power = N * sum of squares
    mon.close("image-total-power", ps.ps2D.sum(),
              img.size * np.sum((filled * weff)**2), rtol=1e-9)
    # the zero-frequency term is the squared sum; its place in the array
    cy, cx = shape[0] - 1 - shape[0] // 2, shape[1] // 2
    mon.close("image-mean-term", ps.ps2D[cy, cx], (filled * weff).sum()**2,
              rtol=1e-7, atol=1e-12 * ps.ps2D.max())
    # one arbitrary mode against the DFT sum
    iy, ix = int(rng.integers(shape[0])), int(rng.integers(shape[1]))
    ky = (shape[0] - 1 - iy) - shape[0] // 2
    kx = ix - shape[1] // 2
    mon.close("image-mode", ps.ps2D[iy, ix], dft_spot(filled * weff, ky, kx),
              rtol=1e-6, atol=1e-11 * ps.ps2D.max())
    # the same through the one-call pipeline
    ps3 = PowerSpectrum(img.copy(), header=hdr,
                        weights=None if w is None else w.copy())
    ps3.run(fit_2D=False, use_pyfftw=kw.get("use_pyfftw", False),
            threads=kw.get("threads", 1))
    mon.close("image-power-run", ps3.ps2D, want, rtol=1e-8, floor=1e-12)
    # linear scaling and cyclic shift
    s = float(rng.uniform(0.1, 30))
    ps2 = PowerSpectrum(img * s, header=hdr,
                        weights=None if w is None else w.copy())
    ps2.compute_pspec()
    mon.close("image-scaling", ps2.ps2D, want * s**2, rtol=1e-8, floor=1e-12)
    if w is None:
        sh = (int(rng.integers(shape[0])), int(rng.integers(shape[1])))
        ps2 = PowerSpectrum(np.roll(img, sh, (0, 1)), header=hdr)
        ps2.compute_pspec()
        mon.close("image-shift-invariance", ps2.ps2D, want, rtol=1e-6,
                  floor=1e-11)


def f_cube(sc, mon):
    from turbustat.statistics import VCA, VCS
    rng = gen.rng_of(sc["name"], sc["seed"])
    shape = tuple(sc["shape"])
    raw = gen.cube(rng, shape, sc["kind"])
    cube = gen.punch(rng, raw, sc["nan"])
    if sc.get("part"):          # parts of spectra missing
        m = rng.uniform(size=shape) < 0.03
        cube[m] = np.nan
    filled = np.where(np.isnan(cube), 0.0, cube)
    hdr = gen.header3d(shape)
    kw = dict(sc.get("fft", {}))
    vca = VCA(cube.copy(), header=hdr)
    vca.compute_pspec(**kw)
    want = shape[0] * sum(direct2(filled[i]) for i in range(shape[0]))
    mon.close("channel-map-power", vca.ps2D, want, rtol=1e-8, floor=1e-12)
    sh = int(rng.integers(1, shape[0]))
    v2 = VCA(np.roll(cube, sh, axis=0), header=hdr)
    v2.compute_pspec()
    mon.close("channel-order-invariance", v2.ps2D, want, rtol=1e-8,
              floor=1e-12)
    v3 = VCA(cube.copy(), header=hdr).run(
        fit_2D=False, use_pyfftw=kw.get("use_pyfftw", False),
        threads=kw.get("threads", 1))
    mon.close("channel-map-power-run", v3.ps2D, want, rtol=1e-8, floor=1e-12)

    vcs = VCS(cube.copy(), header=hdr)
    vcs.compute_pspec(**kw)
    spec = np.abs(np.fft.fft(filled, axis=0))**2
    if np.isnan(cube).any():
        npix = np.sum((filled != 0).any(axis=0))
    else:
        npix = shape[1] * shape[2]
    want = spec.sum(axis=(1, 2)) * shape[1] * shape[2] / float(npix)
    mon.close("velocity-power", vcs.ps1D, want, rtol=1e-8, floor=1e-12)
    mon.close("velocity-freqs", plain(vcs.freqs),
              np.abs(np.fft.fftfreq(shape[0])))
    v4 = VCS(cube.copy(), header=hdr).run(
        use_pyfftw=kw.get("use_pyfftw", False), threads=kw.get("threads", 1))
    mon.close("velocity-power-run", v4.ps1D, want, rtol=1e-8, floor=1e-12)
    # nor can the sign of the data, absorption or emission
    v5 = VCS(-cube, header=hdr)
    v5.compute_pspec()
    mon.close("velocity-power-sign", v5.ps1D, want, rtol=1e-8, floor=1e-12)
    # reordering the sky pixels cannot matter to the velocity spectrum
    perm = rng.permutation(shape[1] * shape[2])
    c2 = cube.reshape(shape[0], -1)[:, perm].reshape(shape)
    v2 = VCS(c2, header=hdr)
    v2.compute_pspec()
    mon.close("velocity-power-pixel-order", v2.ps1D, want, rtol=1e-8,
              floor=1e-12)


def f_downsample(sc, mon):
    """Wider channels: block means of adjacent channels, then the power."""
    from turbustat.statistics import VCA
    rng = gen.rng_of(sc["name"], sc["seed"])
    shape = tuple(sc["shape"])
    cube = gen.cube(rng, shape, "lines")
    dv = sc["dv"]
    hdr = gen.header3d(shape, dv=dv)
    n = sc["n"]
    form = sc["form"]
    if form == "int":
        width = n
    elif form == "pix":
        width = n * u.pix
    elif form == "fracpix":
        width = (n - 0.5) * u.pix
    elif form == "m/s":
        width = (n - 0.7) * abs(dv) * u.m / u.s
    elif form == "exact-m/s":
        width = (n * abs(dv)) * u.m / u.s
    elif form == "exact-km/s":
        width = (n * abs(dv) / 1000.) * u.km / u.s
    elif form == "exact-cm/s":
        width = (n * abs(dv) * 100.) * u.cm / u.s
    else:
        width = (n - 0.02) * abs(dv) / 1000. * u.km / u.s
    red = sc.get("reduce", "mean")
    kw = {} if red == "mean" else dict(
        downsample_kwargs={"downsamp_function":
                           {"max": np.nanmax, "median": np.nanmedian}[red]})
    func = {"mean": np.mean, "max": np.max, "median": np.median}[red]
    vca = VCA(cube, header=hdr, channel_width=width, **kw)
    vca.compute_pspec()
    nb = shape[0] // n
    rest = shape[0] - nb * n
    blocks = [func(cube[i * n:(i + 1) * n], axis=0) for i in range(nb)]
    got = vca.ps2D
    # spectral-cube drops or keeps an incomplete last block; accept what its
    # own public down-sampling does (the library's documented mechanism).
    nk = vca.data.shape[0]
    if rest and nk == nb + 1:
        blocks.append(func(cube[nb * n:], axis=0))
    mon.ok("downsample-channel-count", nk in (nb, nb + (1 if rest else 0)),
           observed=nk, n=n, nchan=shape[0])
    want = len(blocks) * sum(direct2(b) for b in blocks)
    mon.close("downsample-power", got, want, rtol=1e-7, floor=1e-11)


def f_mvc(sc, mon):
    from turbustat.statistics import MVC
    rng = gen.rng_of(sc["name"], sc["seed"])
    shape = tuple(sc["shape"])
    cen = 3.0 * gen.plaw2d(rng, shape, 3.0) + rng.uniform(-5, 5)
    m0 = np.exp(0.5 * gen.plaw2d(rng, shape, 3.0)) * rng.uniform(1, 10)
    lw = 0.5 + rng.gamma(2., .2, shape)
    where = np.isnan(gen.punch(rng, cen, sc["nan"]))
    arrs = [cen.copy(), m0.copy(), lw.copy()]
    which = {"all": [0, 1, 2], "centroid": [0], "moment0": [1],
             "linewidth": [2], "split": [0, 2]}[sc["which"]]
    for k in which:
        arrs[k][where] = np.nan
    hdr = gen.header2d(shape)
    kw = dict(sc.get("fft", {}))
    mvc = MVC(arrs[0], arrs[1], arrs[2], header=hdr)
    mvc.compute_pspec(**kw)
    c, m, l = [np.where(where, 0.0, a) for a in (cen, m0, lw)]
    f1 = np.abs(np.fft.fft2(c * m))
    f0 = np.abs(np.fft.fft2(m))
    want = np.fft.fftshift((f1 - np.mean(l**2 + c**2) * f0)**2)[::-1]
    mon.close("centroid-power", mvc.ps2D, want, rtol=1e-6, floor=1e-10,
              missing=sc["which"])
    mvc.run(fit_2D=False)
    mon.close("centroid-power-run", mvc.ps2D, want, rtol=1e-6, floor=1e-10)


def f_regrid(sc, mon):
    """Wider channels by smoothing: Gaussian, then linear interpolation."""
    from turbustat.statistics import VCA
    from turbustat.statistics.vca_vcs.slice_thickness import \
        spectral_regrid_cube
    from spectral_cube import SpectralCube
    from astropy.io import fits
    rng = gen.rng_of(sc["name"], sc["seed"])
    shape = tuple(sc["shape"])
    cube = gen.cube(rng, shape, "lines")
    dv = sc["dv"]
    hdr = gen.header3d(shape, dv=dv)
    r = sc["ratio"]
    width = {"pix": r * u.pix, "m/s": r * abs(dv) * u.m / u.s,
             "km/s": r * abs(dv) / 1000. * u.km / u.s}[sc["form"]]

    def load():
        return SpectralCube.read(fits.PrimaryHDU(cube.copy(), hdr))
    vca = VCA(cube.copy(), header=hdr, channel_width=width,
              downsample_kwargs={"method": "regrid"})
    sig = np.sqrt(r**2 - 1.) / 2.3548200450309493
    h = int(np.ceil(4 * sig)) + 1
    x = np.arange(-h, h + 1)
    k = np.exp(-0.5 * (x / sig)**2)
    k /= k.sum()
    n = shape[0]
    sm = np.zeros(shape)
    for o, wgt in zip(x, k):
        lo, hi = max(0, -o), min(n, n - o)
        if hi > lo:
            sm[lo:hi] += wgt * cube[lo + o:hi + o]
    num = int(np.floor(n / r + 1e-9))
    near = abs(n / r - round(n / r)) < 1e-6
    got = np.asarray(vca.data)
    mon.ok("regrid-channel-count", got.shape[0] == num or
           (near and abs(got.shape[0] - num) <= 1), observed=got.shape,
           want=num)
    pos = np.linspace(0, n - 1, got.shape[0])
    i0 = np.minimum(np.floor(pos).astype(int), n - 2)
    f = (pos - i0)[:, None, None]
    want = sm[i0] * (1 - f) + sm[i0 + 1] * f
    mon.close("regrid-data", got, want, rtol=0,
              atol=4e-3 * np.abs(cube).max())
    vca.compute_pspec()
    mon.close("regrid-power", vca.ps2D, got.shape[0] * sum(
        direct2(b) for b in got), rtol=1e-7, floor=1e-11)
    c = spectral_regrid_cube(load(), width, method="regrid")
    mon.close("regrid-direct", c.filled_data[:].value, got, rtol=1e-9,
              floor=1e-12)
    ax = load().spectral_axis.value
    mon.close("regrid-axis", c.spectral_axis.value,
              np.linspace(ax[0], ax[-1], got.shape[0]), rtol=1e-9)
    same = spectral_regrid_cube(load(), 1 * u.pix, method="regrid")
    mon.close("regrid-same", same.filled_data[:].value, cube, rtol=1e-12)
    mon.raises("regrid-finer", ValueError, spectral_regrid_cube, load(),
               0.5 * u.pix, method="regrid")
    mon.raises("regrid-plain-number", TypeError, spectral_regrid_cube, load(),
               2, method="regrid")
    mon.raises("regrid-method", ValueError, spectral_regrid_cube, load(),
               2 * u.pix, method="rebin")
    mon.raises("regrid-not-cube", TypeError, spectral_regrid_cube, cube,
               2 * u.pix)


FNS = {"rfft": f_rfft, "regrid": f_regrid, "image": f_image, "cube": f_cube,
       "downsample": f_downsample, "mvc": f_mvc}


def scenarios(tier, seed):
    out = []
    rng = gen.rng_of("P06", seed, tier)
    k = 3 if tier == "quick" else 8
    small = [[a, b] for a in range(2, 9) for b in range(2, 9)]
    out.append(dict(name="rfft-2d-small", fn="rfft", seed=seed, shapes=small))
    out.append(dict(name="rfft-3d-small", fn="rfft", seed=seed,
                    shapes=[[a, b, c] for a in (1, 2, 3, 4, 5, 6)
                            for b in (2, 3, 4, 5, 7) for c in (2, 3, 4, 5, 8)]))
    for i in range(2 * k):
        out.append(dict(name="rfft-rand-%d" % i, fn="rfft", seed=seed,
                        shapes=[[int(v) for v in rng.integers(2, 70, 2)]
                                for _ in range(12)] +
                        [[int(v) for v in rng.integers(2, 24, 3)]
                         for _ in range(12)]))
    ffts = [{}, {"use_pyfftw": True, "threads": 1},
            {"use_pyfftw": True, "threads": 2}]
    n = 0
    for nan in gen.NAN_PATTERNS:
        for wt in ("none", "plain", "nan", "zero"):
            for par in range(2 * k):
                shape = gen.shapes2d(rng)
                out.append(dict(
                    name="image-%s-%s-%d" % (nan, wt, par), fn="image",
                    seed=seed, shape=shape, nan=nan, weights=wt,
                    kind=gen.IMAGE_KINDS[n % len(gen.IMAGE_KINDS)],
                    fft=ffts[n % 3]))
                n += 1
    for par in ([20, 20], [21, 21], [20, 21], [21, 20], [16, 40], [40, 16]):
        out.append(dict(name="image-parity-%d-%d" % tuple(par), fn="image",
                        seed=seed, shape=par, nan="none", weights="none",
                        kind="lognorm", fft={}))
    for i in range(10 * k):
        shape = [int(rng.integers(12, 34)), int(rng.integers(16, 33)),
                 int(rng.integers(16, 33))]
        out.append(dict(name="cube-%d" % i, fn="cube", seed=seed, shape=shape,
                        nan=gen.NAN_PATTERNS[i % 7], part=bool(i % 3 == 1),
                        kind=["clean", "positive", "lines", "offset"][i % 4],
                        fft=ffts[i % 3]))
    for form in ("int", "pix", "fracpix", "m/s", "km/s"):
        for j in range(2 * k):
            n_ = 2 + j % 3
            out.append(dict(name="downsample-%s-%d" % (form.replace("/", ""),
                                                       j),
                            fn="downsample", seed=seed, n=n_, form=form,
                            shape=[24 if j % 2 == 0 else 23, 18, 20],
                            dv=100. if j % 2 == 0 else -250.))
    for form in ("exact-m/s", "exact-km/s", "exact-cm/s"):
        for n_ in (2, 3, 5, 6, 7, 9, 10, 11, 12):
            out.append(dict(name="downsample-%s-%d" % (form.replace("/", ""),
                                                       n_),
                            fn="downsample", seed=seed, n=n_, form=form,
                            shape=[34, 18, 20],
                            dv=[100., -70., 33.3, 1000. / 3.][n_ % 4]))
    for form in ("pix", "m/s", "km/s"):
        for j in range(2 * k):
            out.append(dict(
                name="regrid-%s-%d" % (form.replace("/", ""), j), fn="regrid",
                seed=seed, form=form, ratio=float(
                    [2., 3., rng.uniform(1.3, 4)][j % 3]),
                shape=[int(rng.integers(18, 34)), 17, 16],
                dv=100. if j % 2 == 0 else -250.))
    for red in ("max", "median"):
        for form in ("int", "pix"):
            out.append(dict(name="downsample-%s-%s" % (form, red), seed=seed,
                            fn="downsample", n=3, form=form, reduce=red,
                            shape=[23, 18, 20], dv=100.))
    n = 0
    for which in ("all", "centroid", "moment0", "linewidth", "split"):
        for nan in (["none", "scatter", "block", "one"] if tier == "quick"
                    else gen.NAN_PATTERNS):
            for par in range(k):
                out.append(dict(name="mvc-%s-%s-%d" % (which, nan, par),
                                fn="mvc", seed=seed,
                                shape=gen.shapes2d(rng), nan=nan, which=which,
                                fft=ffts[n % 3]))
                n += 1
    return out
