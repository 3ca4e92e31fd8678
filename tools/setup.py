"""Nothing to build: checks that the models load and that the code imports."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
sys.dont_write_bytecode = True
from vlib import boot
boot.boot()
from vlib import refgrammar
assert refgrammar.frozen().ast("m2 s-1") == ("mul", ("pow", ("id", "m"), 2), ("pow", ("id", "s"), -1))
os.makedirs(os.path.join(boot.VERIF, "evidence"), exist_ok=True)
print("ok")
