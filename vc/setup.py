"""nothing to build: checks that the tools answer"""
import subprocess
import z3

print("z3", z3.get_version_string())
print(subprocess.run(["cvc5", "--version"], capture_output=True, text=True).stdout.splitlines()[0])
print(subprocess.run(["/opt/venv/bin/python", "-c", "import numpy, numba; print('numpy', numpy.__version__, 'numba', numba.__version__)"], capture_output=True, text=True).stdout)
