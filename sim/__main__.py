import os, sys
ENV = dict(PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OPENBLAS_NUM_THREADS="1", OMP_NUM_THREADS="1",
           MKL_NUM_THREADS="1", NUMBA_NUM_THREADS="1")
if any(os.environ.get(k) != v for k, v in ENV.items()) or "PYTHONHASHSEED" not in os.environ:
    os.environ.update(ENV)
    os.environ.setdefault("PYTHONHASHSEED", "0")
    os.environ.pop("PYTHONPATH", None); os.environ.pop("NUMBA_DISABLE_JIT", None)
    try:
        import ctypes
        ctypes.CDLL(None).personality(0x0040000)        # no address space randomisation, where permitted
    except Exception:
        pass
    os.execv("/opt/venv/bin/python", ["/opt/venv/bin/python", "-m", "sim"] + sys.argv[1:])
import atexit, shutil, tempfile, traceback
scratch = tempfile.mkdtemp(prefix="verif-sim-")
os.environ["MPLCONFIGDIR"] = os.path.join(scratch, "mpl"); os.makedirs(os.environ["MPLCONFIGDIR"])
os.environ["VERIF_SCRATCH"] = scratch
from sim import core
code = 2
try:
    code = core.main(sys.argv[1], sys.argv[2:])
except BaseException:
    traceback.print_exc()
    code = 2
finally:
    shutil.rmtree(scratch, ignore_errors=True)
sys.stdout.flush(); sys.stderr.flush()
os._exit(code)
