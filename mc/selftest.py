"""Setup: the machinery imports, and the reference model agrees with pointwise evaluation on a small space.

Independent of the library under test: only the model's own table algebra is exercised here."""
import importlib
import os

from . import gen
from . import model as M

PROBES = [M.Fraction(k, 2) for k in range(-3, 10)]


def main():
    here = os.path.join(os.path.dirname(os.path.abspath(__file__)), "props")
    mods = sorted(n[:-3] for n in os.listdir(here) if n.startswith("c") and n.endswith(".py"))
    for n in mods:
        importlib.import_module("mc.props." + n)
    n = 0
    for f in gen.functions(gen.G2, (None, 0, 1)):
        assert f.is_canon()
        for g in gen.functions((0, 4), (None, 0, 2)):
            for op, fn in M.BINARY.items():
                h = M.binary(op, f, g)
                assert h.is_canon()
                for x in PROBES:
                    for side in ("left", "right"):
                        e = fn(f.at(x, side), g.at(x, side))
                        assert M.close(h.at(x, side), e), (op, f, g, x, side)
                n += 1
        for d in (1, -2):
            h = M.shift(f, d)
            assert all(M.close(h.at(x), f.at(x - d)) for x in PROBES)
    print("selftest ok: %d modules, %d model tables" % (len(mods), n))
    return 0
