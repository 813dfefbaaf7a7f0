"""Checks that the tools are there (nothing is built: the verifier is plain Python and
reads the repository's source directly) and compares the contract models of numpy and
pandas with the real libraries."""
import os
import shutil
import subprocess
import sys

import z3

print('z3', z3.get_version_string())
print('cvc5', shutil.which('cvc5'))
r = subprocess.run(['/opt/venv/bin/python', '-c', 'import pandas, numpy, pytz; print(pandas.__version__)'],
                   capture_output=True, text=True)
print('pandas', r.stdout.strip())
if r.returncode:
    sys.exit(r.returncode)
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from vc import libcheck

sys.exit(libcheck.main(['10']))
