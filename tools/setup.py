"""Nothing is built in advance; make sure that the tools are there."""
import os, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from vf import core
subprocess.run(["java", "-version"], check=True)
assert os.path.exists(core.TLA_CP.split(":")[0])
subprocess.run([core.PYTHON, "-c", "import sys; print(sys.version)"], check=True)
