"""Fresh-sandbox check that everything the framework needs is there."""
import subprocess
import sys

sys.path.insert(0, ".")
from symx.z3load import z3  # noqa: E402

s = z3.Solver()
x = z3.Int("x")
s.add(x > 2, x < 4)
assert s.check() == z3.sat and s.model()[x].as_long() == 3
subprocess.run([sys.executable, "-c", "import neps, torch, numpy, portalocker, yaml"], check=True, cwd="/repo")
print("ok", z3.get_version_string())
