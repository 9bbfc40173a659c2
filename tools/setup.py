"""Everything is interpreted; only check that the tools are there."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)),
                                "..", "lib"))
import prove, symx as S
x = S.var("x")
assert prove.prove_zero((x+1)**2 - x*x - 2*x - 1)[0] == "unsat"
import Cython, numpy, scipy
print("ok")
