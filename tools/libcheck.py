"""Compares the numpy/pandas contract models with the real libraries."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))

from vc import libcheck

sys.exit(libcheck.main(sys.argv[1:]))
