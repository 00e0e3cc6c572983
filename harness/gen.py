"""Workload generators: images, cubes, headers, missing-data patterns."""
import numpy as np
from astropy.io import fits


def rng_of(*key):
    """Generator from a tuple of ints/strings, stable across runs."""
    import zlib
    s = repr(key).encode()
    return np.random.default_rng([zlib.crc32(s), zlib.adler32(s)])


def plaw2d(rng, shape, slope=3.0, ellip=1.0, theta=0.0):
    """Random-phase power-law image, not made with the code under test."""
    ky = np.fft.fftfreq(shape[0])[:, None]
    kx = np.fft.fftfreq(shape[1])[None, :]
    a = kx * np.cos(theta) + ky * np.sin(theta)
    b = -kx * np.sin(theta) + ky * np.cos(theta)
    k = np.sqrt(a**2 + (b / ellip)**2)
    k[0, 0] = 1.0
    noise = np.fft.fft2(rng.standard_normal(shape))
    amp = k ** (-slope / 2.)
    amp[0, 0] = 0.0
    out = np.fft.ifft2(noise * amp).real
    return out / out.std()


def image(rng, shape, kind="plaw"):
    if kind == "plaw":
        return plaw2d(rng, shape, rng.uniform(1.5, 4.0))
    if kind == "white":
        return rng.standard_normal(shape)
    if kind == "lognorm":
        return np.exp(0.7 * plaw2d(rng, shape, 2.7)) * rng.uniform(0.5, 20.)
    if kind == "positive":
        im = plaw2d(rng, shape, 3.0)
        return im - im.min() + 0.1
    if kind == "offset":
        return 100. + plaw2d(rng, shape, 2.5)
    if kind == "sparse":
        im = np.zeros(shape)
        n = max(3, im.size // 30)
        im.flat[rng.choice(im.size, n, replace=False)] = rng.exponential(2., n)
        return im
    if kind == "blobs":
        y, x = np.mgrid[:shape[0], :shape[1]]
        im = np.zeros(shape)
        for _ in range(6):
            cy, cx = rng.uniform(0, shape[0]), rng.uniform(0, shape[1])
            s = rng.uniform(1., min(shape) / 6.)
            im += rng.uniform(.5, 3) * np.exp(
                -((y - cy)**2 + (x - cx)**2) / (2 * s**2))
        return im + 0.01 * rng.standard_normal(shape)
    if kind == "tiny":
        return 1e-9 * plaw2d(rng, shape, 3.0)
    if kind == "huge":
        return 1e7 * plaw2d(rng, shape, 3.0)
    raise ValueError(kind)


IMAGE_KINDS = ["plaw", "white", "lognorm", "positive", "offset", "sparse",
               "blobs", "tiny", "huge"]


def punch(rng, arr, pattern):
    """Return a copy of `arr` with missing values."""
    out = np.array(arr, dtype=float)
    ny, nx = out.shape[-2:]
    m = np.zeros((ny, nx), bool)
    if pattern in (None, "none"):
        return out
    if pattern == "scatter":
        n = max(1, ny * nx // 20)
        m.flat[rng.choice(ny * nx, n, replace=False)] = True
    elif pattern == "one":
        m.flat[rng.integers(ny * nx)] = True
    elif pattern == "block":
        y0 = rng.integers(0, max(1, ny - ny // 4))
        x0 = rng.integers(0, max(1, nx - nx // 4))
        m[y0:y0 + max(1, ny // 4), x0:x0 + max(1, nx // 4)] = True
    elif pattern == "border":
        w = max(1, min(ny, nx) // 10)
        m[:w] = m[-w:] = True
        m[:, :w] = m[:, -w:] = True
    elif pattern == "corner":
        m[:max(1, ny // 5), :max(1, nx // 3)] = True
    elif pattern == "row":
        m[rng.integers(ny)] = True
    else:
        raise ValueError(pattern)
    out[..., m] = np.nan
    return out


NAN_PATTERNS = ["none", "scatter", "one", "block", "border", "corner", "row"]


def factor(rng):
    """A positive factor; the unit of the data may make it extreme."""
    if rng.integers(3) == 0:
        return float(rng.choice([1e-15, 3e-12, 1e-8, 1e9, 2e13, 1e18]))
    return float(10**rng.uniform(-2, 2))


def header2d(shape, pix=1. / 3600., bunit="K", beam=None, flip=True,
             rest=None):
    h = fits.Header()
    h["SIMPLE"] = True
    h["BITPIX"] = -64
    h["NAXIS"] = 2
    h["NAXIS1"] = shape[1]
    h["NAXIS2"] = shape[0]
    h["CTYPE1"] = "RA---TAN"
    h["CRVAL1"] = 66.5
    h["CRPIX1"] = shape[1] / 2. + 0.5
    h["CDELT1"] = -pix if flip else pix
    h["CUNIT1"] = "deg"
    h["CTYPE2"] = "DEC--TAN"
    h["CRVAL2"] = 0.0
    h["CRPIX2"] = shape[0] / 2. + 0.5
    h["CDELT2"] = pix
    h["CUNIT2"] = "deg"
    h["BUNIT"] = bunit
    if beam is not None:
        if np.isscalar(beam):
            beam = (beam, beam, 0.)
        h["BMAJ"], h["BMIN"], h["BPA"] = beam
    return h


def header3d(shape, pix=1. / 3600., dv=100., v0=0.0, bunit="K", beam=None,
             vunit="m/s", rest=None):
    h = header2d(shape[1:], pix=pix, bunit=bunit, beam=beam)
    h["NAXIS"] = 3
    h["NAXIS3"] = shape[0]
    h["CTYPE3"] = "VRAD"
    h["CRVAL3"] = v0
    h["CRPIX3"] = 1.0
    h["CDELT3"] = dv
    h["CUNIT3"] = vunit
    h["RESTFRQ"] = 1.420405752e9
    h["SPECSYS"] = "LSRK"
    return h


def cube(rng, shape, kind="lines"):
    nz, ny, nx = shape
    z = np.arange(nz)[:, None, None]
    if kind == "white":
        return rng.standard_normal(shape)
    if kind == "positive":
        return rng.gamma(1.2, 1.0, shape)
    amp = np.exp(0.4 * plaw2d(rng, (ny, nx), 3.0))
    cen = nz / 2. + nz / 8. * plaw2d(rng, (ny, nx), 3.3)
    wid = nz / 12. * (1 + 0.15 * plaw2d(rng, (ny, nx), 3.0))
    wid = np.clip(wid, 0.8, None)
    c = amp * np.exp(-(z - cen)**2 / (2 * wid**2))
    if kind == "lines":
        return c + 0.02 * rng.standard_normal(shape)
    if kind == "clean":
        return c
    if kind == "offset":
        return c + 5.0
    raise ValueError(kind)


def shapes2d(rng, lo=16, hi=48):
    a, b = int(rng.integers(lo, hi)), int(rng.integers(lo, hi))
    k = rng.integers(4)
    if k == 0:
        b = a
    # now and then a long or a large one
    r, f = rng.random(), rng.uniform(2., 4.)
    if r < .04:
        a = int(a * f)
    elif r < .08:
        b = int(b * f)
    elif r < .12:
        a, b = int(a * f), int(b * f)
    return (a, b)


def grow(rng, shape, p=.12):
    """Now and then one axis several times as long."""
    out = [int(v) for v in shape]
    k, f, i = rng.random(), rng.uniform(2., 4.), int(rng.integers(len(out)))
    if k < p:
        out[i] = int(out[i] * f)
    return out
