"""setup_cmd: checks that the interpreter, the real package and the solver load."""
import os, sys
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, "/repo"); sys.path.insert(0, HERE)
from vc import prover
from vc.terms import *
x = var("x")
assert prover.prove(mk_le(-(x * x)), []).status == "proved"
assert prover.prove(mk_le(x), []).status == "refuted"
import ramannoodle
print("ok")
