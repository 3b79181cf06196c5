import importlib.util
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")


def load_z3():
    try:
        import z3  # noqa

        return
    except ImportError:
        pass
    for base in ("/opt/veriftools/pyvenv/lib/python3.12/site-packages",):
        d = os.path.join(base, "z3")
        if os.path.isdir(d):
            spec = importlib.util.spec_from_file_location(
                "z3", os.path.join(d, "__init__.py"), submodule_search_locations=[d])
            m = importlib.util.module_from_spec(spec)
            sys.modules["z3"] = m
            spec.loader.exec_module(m)
            return
    print("ERROR z3 bindings not found")
    sys.exit(2)


sys.path.insert(0, os.path.join(REPO, "src"))
load_z3()
sys.setrecursionlimit(6000)
from symx import driver  # noqa: E402

sys.exit(driver.main())
