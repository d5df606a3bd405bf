"""nothing to build: checks that the interpreter, the package and the solver are there"""
import os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from symx import core, api  # noqa: E402
import props  # noqa: E402
reg = props.load()
for g in sorted({p.modules for p in reg.values()}):
    api.concrete(g)
print('z3 %s, %d properties' % (core.z3.get_version_string(), len(reg)))
