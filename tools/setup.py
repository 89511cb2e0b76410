"""setup_cmd: nothing is installed; checks that the front end can read the current sources."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from vsa import ir
p = ir.load()
print(len(p.mods), "modules,", len(p.fns), "functions readable")
