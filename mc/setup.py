"""Checks that the library and JAX can be imported; nothing has to be built."""
import os, subprocess, sys
PY = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
sys.exit(subprocess.call([PY, "-c", "import haiku, jax, numpy; print('haiku', haiku.__version__, 'jax', jax.__version__)"],
                         env=dict(os.environ, PYTHONPATH=os.environ.get("VERIF_REPO", "/repo"), JAX_PLATFORMS="cpu", PYTHONDONTWRITEBYTECODE="1")))
