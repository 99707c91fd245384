#!/usr/bin/env python3-vt
"""setup: nothing to build; confirms that the two interpreters the checks use are there"""
import subprocess
import sys
import z3
import mpmath
print("z3", z3.get_version_string(), "mpmath", mpmath.__version__, sys.version.split()[0])
subprocess.run(["/opt/venv/bin/python", "-c", "import numpy, scipy, sklearn; print('numpy', numpy.__version__)"], check=True)
