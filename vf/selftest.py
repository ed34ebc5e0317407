"""setup_cmd: the tools the checks need are there, and the verifier decides two
known facts (one true, one false) correctly."""
import sys
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
sys.dont_write_bytecode = True
import z3
import numpy
import scipy
import astropy
import statsmodels
from . import core, harness
from .values import fresh_real
harness.install()
c = core.Ctx("selftest")


def fn(c):
    x = fresh_real("x")
    y = abs(x)
    c.prove("true", (y >= 0))
    c.prove("false", (y > 0))


c.explore(fn)
st = {}
for o in c.obligs:
    st.setdefault(o.name, set()).add(o.status)
assert st["true"] == {"proved"}, st
assert "refuted" in st["false"], st
print("selftest ok; z3", z3.get_version_string())
