"""python3-vt -m vf.run C01 [filter]: run theorems directly (development)"""
import sys, importlib, pkgutil
from . import props
from .harness import REGISTRY, run_theorem


def load():
    for m in pkgutil.iter_modules(props.__path__):
        importlib.import_module("vf.props." + m.name)


if __name__ == "__main__":
    load()
    sys.setrecursionlimit(20000)
    for p in sys.argv[1].split(","):
        for th in REGISTRY.get(p, []):
            if len(sys.argv) > 2 and sys.argv[2] not in th.name:
                continue
            r = run_theorem(th, 300)
            print(p, th.name, r["status"], "paths", r["paths"], "obl", sum(o["n"] for o in r["obligations"]), "wall", r["wall"], r["solver"], r["funcs"] if "-v" in sys.argv else "")
            if r["status"] != "ok":
                print("   ", r["reason"])
            for o in r["obligations"]:
                if o["status"] != "proved":
                    print("     FAIL", o["kind"], o["label"], o["status"], "\n        cond", o["cond"], "\n        path", o["path"], "\n        info", o["info"][:700])
