"""Entry point: check.py CNN [quick|thorough|replay FILE]."""
import importlib, os, sys
sys.dont_write_bytecode = True
sys.pycache_prefix = "/nonexistent-pycache"   # always compile /repo's source
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    prop = sys.argv[1].upper()
    from lib import pbt
    m = importlib.import_module("checks." + prop.lower())
    for s in m.SUITES:
        if s.n["quick"] >= 200:
            s.n["quick"] = int(s.n["quick"] * getattr(m, "QUICK_SCALE", 1))
    return pbt.main(prop, m.SUITES, assumptions=getattr(m, "ASSUME", ""),
                    argv=sys.argv[2:])


sys.exit(main())
