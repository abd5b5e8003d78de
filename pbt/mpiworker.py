import os, sys, socket, traceback
import pbt
from pbt import core, mpipool
from mpi4py import MPI

comm = MPI.COMM_WORLD
s = socket.socket(socket.AF_UNIX)
s.connect(sys.argv[1])
d = os.open(os.devnull, os.O_WRONLY)
os.dup2(d, 1)
mpipool.send(s, comm.rank)
from pbt import mpijobs

while True:
    try:
        job = mpipool.recv(s)
    except (ConnectionError, OSError):
        os._exit(0)
    if job is None:
        break
    fn, args = job
    cwd = os.getcwd()
    try:
        r = ('ok', getattr(mpijobs, fn)(comm, **args), False)
    except Exception as e:
        r = ('exc', core.describe(e), core.classify(e) == 'violation')
    os.chdir(cwd)
    mpipool.send(s, r)
MPI.Finalize()
os._exit(0)
