"""Builds the symbolic executor and the run-time bitcode that does not depend on the repository."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib
vlib.ensure_engine(); vlib.compile_bc(vlib.RT + "/model.cpp", vlib.MODELF); vlib.compile_bc(vlib.RT + "/symrt.cpp", vlib.CXXRT); vlib.compile_bc(vlib.RT + "/symrt_c.c", vlib.CRT)
print("engine built")
