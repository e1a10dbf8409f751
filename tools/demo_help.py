import os
import pathlib
import sys
import tempfile
import warnings

import numpy as np

import swprocess
from swprocess import ActiveTimeSeries, Sensor1C, Source, Array1D, Masw, Peaks, PeaksSuite
from swprocess.register import WavefieldTransformRegistry, MaswWorkflowRegistry

assert pathlib.Path(swprocess.__file__).resolve().is_relative_to(pathlib.Path.cwd())
warnings.simplefilter("ignore")


def array(xs, source, n=200, dt=0.005, delay=0., nstacks=1, seed=0, amps=None, source_y=0., ys=None):
    """Array of receivers at `xs` with random records."""
    rng = np.random.default_rng(seed)
    amps = rng.normal(size=(len(xs), n)) if amps is None else amps
    ys = [0.]*len(xs) if ys is None else ys
    return Array1D([Sensor1C(a, dt, x, y, 0, nstacks=nstacks, delay=delay)
                    for a, x, y in zip(amps, xs, ys)], Source(source, source_y, 0))


def saved(folder, name, arr):
    path = str(pathlib.Path(folder) / name)
    arr.to_file(path)
    return path


def refused(exc, fn, *args, **kwargs):
    try:
        fn(*args, **kwargs)
    except exc:
        return True
    return False
