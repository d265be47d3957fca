"""Entry point: run.py <property> [--replay FILE]. VERIF_TIER is quick or thorough."""
import os, sys
PY = "/opt/venv/bin/python"
REPO = os.environ.get("VERIF_REPO", "/repo")
env = os.environ
if sys.executable != PY and os.path.exists(PY) and env.get("VERIF_REEXEC") != "1" or env.get("PYTHONHASHSEED") != "0":
  e = dict(env, VERIF_REEXEC="1", PYTHONPATH=REPO, JAX_PLATFORMS="cpu", PYTHONHASHSEED="0",
           PYTHONDONTWRITEBYTECODE="1", TF_CPP_MIN_LOG_LEVEL="3", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
           XLA_FLAGS="--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1",
           PYTHONWARNINGS="ignore")
  py = PY if os.path.exists(PY) else sys.executable
  sys.stdout.flush()
  os.execve(py, [py, os.path.abspath(__file__)] + sys.argv[1:], e)

sys.path.insert(0, REPO)
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
if __name__ == "__main__":
  from mc import core
  args = sys.argv[1:]
  replay = None
  if "--replay" in args:
    k = args.index("--replay")
    replay = args[k + 1]
    del args[k:k + 2]
  tier = env.get("VERIF_TIER", "quick")
  if tier not in ("quick", "thorough"):
    tier = "quick"
  import warnings
  warnings.simplefilter("ignore")
  rc = core.main(args[0], tier, replay)
  sys.stdout.flush()
  os._exit(rc)
