"""Nothing to build: verify that the tools the checks need are there."""
import subprocess
import sys
subprocess.check_call(['/opt/venv/bin/python', '-c', 'import numpy, scipy, h5py, six'])
subprocess.check_call(['python3-vt', '-c', 'import z3, numpy'])
sys.exit(0)
