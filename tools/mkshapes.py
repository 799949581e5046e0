"""records the loop skeleton etc. of the contracted functions as of the committed contracts"""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from wwv.front import Program
from wwv.contracts import load
from wwv.prove import shape_of, SHAPES
prog = Program("/repo")
cons, _ = load()
json.dump({q: shape_of(prog.func(q)) for q in cons if prog.func(q)}, open(SHAPES, "w"), indent=0, sort_keys=True)
