"""Builds the driver of the generator (the checks rebuild it whenever /repo's tree changed)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'lib'))
import vlib
print(vlib.build_vgen())
import tgt
print(tgt.build_pyrt())
