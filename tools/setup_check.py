"""setup_cmd: nothing to compile; verifies that the interpreter, jax and the library import offline."""
import os
import sys
sys.dont_write_bytecode = True
os.environ["JAX_PLATFORMS"] = "cpu"
sys.path.insert(0, "/repo")
import jax  # noqa: E402
import bayesian_sde_solver.sde_solver  # noqa: E402,F401
print("ok", jax.__version__)
