"""Common set-up of a worker process: import glass from /repo, own the globals."""

from __future__ import annotations

import os
import sys
import warnings

REPO = os.environ.get("GLASS_REPO", "/repo")

sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)

import numpy as np  # noqa: E402

warnings.simplefilter("ignore")
np.seterr(all="ignore")

import logging  # noqa: E402

logging.getLogger("jax").setLevel(logging.ERROR)

import array_api_strict as st  # noqa: E402
import jax  # noqa: E402
import jax.numpy as jnp  # noqa: E402

jax.config.update("jax_enable_x64", True)
st.set_array_api_strict_flags(api_version="2025.12")

import glass  # noqa: E402

assert os.path.realpath(glass.__file__).startswith(os.path.realpath(REPO) + os.sep), (
    glass.__file__
)

BACKENDS = {"numpy": np, "strict": st, "jax": jnp}


def to_np(x):
    """Convert result of any backend to NumPy."""
    if isinstance(x, (tuple, list)):
        return type(x)(to_np(v) for v in x)
    return np.asarray(x)
