"""Run by mpirun: executes drivers of C08 on the real MPI and writes what each rank saw."""
import os
import pickle
import sys
import warnings

os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
HERE = os.path.dirname(os.path.abspath(__file__))
sys.dont_write_bytecode = True
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get("STOCHOPY_REPO", "/repo"))
warnings.simplefilter("ignore")

import numpy as np

np.seterr(all="ignore")
from mpi4py import MPI

from props import c08

spec, out = sys.argv[1:3]
drivers = pickle.load(open(spec, "rb"))
comm = MPI.COMM_WORLD
r = comm.Get_rank()
rec = []
for d in drivers:
    np.random.seed(1000 + r)
    rec.append(c08.rank_run(d))
with open(f"{out}.{r}", "wb") as fh:
    pickle.dump((comm.Get_size(), rec), fh)
