"""setup: nothing to build; check that the tools are there"""
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import pvc  # noqa
import z3
from pvc import check  # noqa
print('z3', z3.get_version_string())
