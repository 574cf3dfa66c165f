"""Nothing to build: the checks import the working tree of /repo. Verify that they can."""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, "/repo")
import numpy, scipy, sksparse, healpy  # noqa: F401,E401
os.makedirs(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "evidence"), exist_ok=True)
print("ok")
