"""setup_cmd: nothing has to be built; fail early if an installed library is missing."""
import sys
sys.dont_write_bytecode = True
import matplotlib  # noqa: F401,E402
import numpy  # noqa: F401,E402
import pyomo.environ  # noqa: F401,E402
import sympy  # noqa: F401,E402
import tqdm  # noqa: F401,E402
assert sys.version_info >= (3, 12), "sys.monitoring is needed"
print("ok")
