"""Create synthetic HEALPix data files (no network): pixel windows and weights.

The pixel windows are made-up smooth functions, and the pixel weights are unity
with small made-up corrections for the smaller maps.  Their values are known to the reference models.
"""

from __future__ import annotations

import os
import sys

import numpy as np

NSIDES = (1, 2, 4, 8, 16, 32)


def window(nside):
    """Return the synthetic temperature and polarisation pixel windows."""
    l = np.arange(4 * nside + 1.0)
    pw = np.exp(-l * (l + 1) / (20 * nside**2))
    pp = np.exp(-l * (l + 1) / (15 * nside**2))
    pp[:2] = 0
    return pw, pp


def create(d):
    from astropy.io import fits

    os.makedirs(os.path.join(d, "pixel_window_functions"), exist_ok=True)
    os.makedirs(os.path.join(d, "full_weights"), exist_ok=True)
    for ns in NSIDES:
        pw, pp = window(ns)
        fits.HDUList([
            fits.PrimaryHDU(),
            fits.BinTableHDU.from_columns([
                fits.Column("TEMPERATURE", "D", array=pw),
                fits.Column("POLARIZATION", "D", array=pp),
            ]),
        ]).writeto(os.path.join(d, "pixel_window_functions", f"pixel_window_n{ns:04d}.fits"), overwrite=True)
        n = (ns + 1) * (3 * ns + 1) // 4
        fits.HDUList([
            fits.PrimaryHDU(),
            fits.BinTableHDU.from_columns(
                [fits.Column("COMPRESSED PIXEL WEIGHTS", "D", array=(0.02 if ns < 16 else 0.0) * np.cos(1.0 + np.arange(n)))],
                header=fits.Header({"NSIDE": ns, "MAX_LPOL": 4 * ns}),
            ),
        ]).writeto(os.path.join(d, "full_weights", f"healpix_full_weights_nside_{ns:04d}.fits"), overwrite=True)


if __name__ == "__main__":
    create(sys.argv[1])
