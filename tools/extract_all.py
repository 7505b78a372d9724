"""Extracts the facts of all translation units (fills /verif/.cache)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from facts import program
p = program()
print("%d translation units, %d functions" % (p.info["units"], sum(1 for _ in p.all_keys())))
