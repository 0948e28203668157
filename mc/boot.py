"""Imports the code under test from /repo with every output folder redirected to a scratch directory.

conf.conf computes its folders from its own location. They are replaced, before anything from src is imported, with
paths relative to the working directory, so that each worker process (which changes to a scratch directory of its own)
reads and writes only there.
"""
import os
import sys
from pathlib import Path

REPO = os.environ.get("VERIF_REPO", "/repo")
SCRATCH = os.environ.get("VERIF_SCRATCH")
if not SCRATCH:
    import tempfile
    SCRATCH = tempfile.mkdtemp(prefix="verif.")

sys.dont_write_bytecode = True
sys.setrecursionlimit(5000)
sys.path.insert(0, REPO)

import logging
import warnings
warnings.filterwarnings("ignore")
logging.disable(logging.WARNING)

import conf.conf as _conf
_conf.ROOT_DIR = Path(".")
_conf.DATA_DIR = Path("data")
_conf.SIM_DIR = Path("data") / "simulations_output"
_conf.TEST_SIM_DIR = Path("data") / "simulations_output"


def fresh_dir(path):
    """Creates (or empties) a scratch directory laid out as the repository's data folder and changes to it."""
    import shutil
    path = str(path)
    assert os.path.abspath(path).startswith(os.path.abspath(SCRATCH) + os.sep)
    if os.path.isdir(path):
        shutil.rmtree(path)
    for d in ("data/simulations_output/plot_data", "data/tikz", "data/profiles"):
        os.makedirs(os.path.join(path, d))
    os.chdir(path)
