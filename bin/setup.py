import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import *
import checks
javac()
todo = set()
for c in checks.CHECKS.values():
    for p in c.pipes:
        todo.add((p.binary, p.race))
for b, race in sorted(todo):
    gobuild(b, race)
    print("built", b, "race" if race else "")
