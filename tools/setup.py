"""Nothing to build: checks that the interpreter, cocotb and the code under test import under the simulator."""
import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from dsim import runner
import registry
for c in registry.CHECKS.values():
    for n, _ in c["quick"]:
        runner.engine(n)
print("ok")
