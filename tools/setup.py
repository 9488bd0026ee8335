"""Nothing is built: check that the interpreter can load what the checks need."""
import os, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import run
run.setup_path()
os.environ["MPLBACKEND"] = "Agg"
d = tempfile.mkdtemp()
os.chdir(d)
import numpy, scipy, z3
import mud.base
from engine import explore, patches
print("z3", z3.get_version_string(), "numpy", numpy.__version__, "scipy",
      scipy.__version__)
os.chdir("/")
import shutil
shutil.rmtree(d)
