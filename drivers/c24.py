"""Objects held by the solvers."""
import os, tempfile, shutil
from common import Driver
import robots

d = Driver("random histories (3-25 operations) of creating, adding, removing, clearing, solving and destroying for both solvers, with solver-owned and "
           "user-owned tasks, constraints and contacts; every deletion observed, every solve counted")


@d.test
def histories():
    tmp = tempfile.mkdtemp(prefix="verifc24")
    try:
        p = os.path.join(tmp, "r.urdf")
        with open(p, "w") as f:
            f.write(robots.urdf(d.rng.g, 3))
        d.cpp("c24", [p])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


d.run()
