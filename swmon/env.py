"""Loads swprocess from the working tree of /repo, never from stale byte code."""
import os

os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("QT_QPA_PLATFORM", "offscreen")
for _v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(_v, "1")

import sys
import warnings

REPO = os.environ.get("SWMON_REPO", "/repo")
sys.dont_write_bytecode = True
warnings.simplefilter("ignore")

import numpy  # noqa: E402,F401
import scipy.signal  # noqa: E402,F401
import scipy.interpolate  # noqa: E402,F401
import scipy.optimize  # noqa: E402,F401
import matplotlib  # noqa: E402

matplotlib.use("Agg")
import matplotlib.pyplot  # noqa: E402,F401
import matplotlib.widgets  # noqa: E402,F401
import obspy  # noqa: E402,F401
import obspy.io.segy.segy  # noqa: E402,F401
import pandas  # noqa: E402,F401
import sigpropy  # noqa: E402,F401

# A byte-code file is matched to its source by whole-second mtime and size and may hide an edit,
# so the package is compiled from source by looking for byte code where there is none.
sys.pycache_prefix = "/nonexistent-swmon-pycache"
sys.path.insert(0, REPO)
import swprocess  # noqa: E402
import swprocess.sensor1c  # noqa: E402,F401
import swprocess.array1d  # noqa: E402,F401
import swprocess.masw  # noqa: E402,F401
import swprocess.maswworkflows  # noqa: E402,F401
import swprocess.wavefieldtransforms  # noqa: E402,F401
import swprocess.snr  # noqa: E402,F401
import swprocess.peaks  # noqa: E402,F401
import swprocess.peakssuite  # noqa: E402,F401
import swprocess.interact  # noqa: E402,F401
import swprocess.inversion  # noqa: E402,F401
import swprocess.stats  # noqa: E402,F401
import swprocess.utils  # noqa: E402,F401
import swprocess.source  # noqa: E402,F401
import swprocess.register  # noqa: E402,F401

_root = os.path.realpath(os.path.join(REPO, "swprocess"))
for _n, _m in list(sys.modules.items()):
    if _n.split(".")[0] == "swprocess" and getattr(_m, "__file__", None):
        if not os.path.realpath(_m.__file__).startswith(_root):
            raise SystemExit(f"{_n} was imported from {_m.__file__}, not from {_root}")
