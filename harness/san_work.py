"""Run by P25 in its own process, with the sanitised extension preloaded."""
import json
import sys
import traceback
import warnings

warnings.simplefilter("ignore")
so, repo, batch, seed, n = sys.argv[1:6]
sys.path.insert(0, repo)

import numpy as np                                   # noqa: E402
import astropy.units as u                            # noqa: E402
import astropy.constants as co                       # noqa: E402
from harness import gen, native                      # noqa: E402
from harness.props.p25 import fields, reference      # noqa: E402

mod = native.inject(so)
from turbustat.simulator import make_ppv             # noqa: E402


def main():
    np.seterr(all="ignore")
    for case in range(int(n)):
        rng = gen.rng_of("san", batch, seed, case)
        big = case == 0
        los = int(rng.integers(3))
        sh = [int(x) for x in rng.integers(2, 40 if big else 9, 3)]
        if case % 5 == 1:
            sh[los] = int(rng.integers(150, 400))    # long lines of sight
            for i in range(3):
                if i != los:
                    sh[i] = 2
        v, d = fields(rng, None, los, sh)
        # views with odd strides, as slices of simulations have
        if case % 3 == 1:
            v, d = v[::-1], np.asfortranarray(d)
        if case % 4 == 2:
            bigv = np.zeros([2 * s for s in v.shape])
            bigv[::2, ::2, ::2] = v
            v = bigv[::2, ::2, ::2]
        T = float(rng.uniform(20, 2000)) * u.K
        m = 1.4 * co.m_p
        vth = np.sqrt(co.k_B * T / m).to(u.km / u.s).value
        kw = dict(los_axis=los, T=T, los_length=2 * u.pc)
        if case % 2:
            lo = v.mean() + rng.uniform(-2, .5) * v.std()
            hi = lo + rng.uniform(.3, 4) * v.std()
            kw.update(v_min=lo * u.km / u.s, v_max=hi * u.km / u.s,
                      chan_width=(hi - lo) / rng.integers(2, 60) * u.km / u.s)
        c, ax = make_ppv(v * u.km / u.s, d * u.cm**-3, return_hdu=False, **kw)
        axk = ax.to(u.cm / u.s).value
        dv = axk[1] - axk[0]
        ed = np.array([axk[0] - dv / 2, axk[-1] + dv / 2])
        vz, dz = np.moveaxis(v, los, 0) * 1e5, np.moveaxis(d, los, 0)
        want = reference(vz, dz, axk, ed, (vth * 1e5)**2,
                         (2 * u.pc).to(u.cm).value / v.shape[los])[0]
        near = np.abs(vz[..., None] - ed).min() < 1e-6 * dv
        diff = 0. if near else float(
            np.max(np.abs(c.value - want)) / max(np.max(want), 1e-300))
        print(json.dumps({"case": case, "cells": int(v.size),
                          "calls": int(v.size // v.shape[los]),
                          "sum": float(c.value.sum()),
                          "shape": list(c.shape), "diff": diff}))
    print("DONE")


try:
    main()
except Exception:
    traceback.print_exc()
    sys.exit(7)
