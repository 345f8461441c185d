"""setup_cmd: checks that the two interpreters and the libraries the checks use are there."""
import subprocess, sys
import hypothesis, numpy
PY = '/opt/pypyvenv/bin/python'
subprocess.check_call([PY, '-c', 'import numpy, scipy, sys; sys.path.insert(0, "/repo"); import pybrain'])
print('hypothesis', hypothesis.__version__)
