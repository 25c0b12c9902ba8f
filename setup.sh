#!/bin/bash
# nothing to build: checks that the interpreters and the solver are there
exec /opt/venv/bin/python -c "
import sys; sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import numpy, scipy, z3; print('numpy', numpy.__version__, 'scipy', scipy.__version__, 'z3', z3.get_version_string())"
