"""Entry point:  main.py <ID> [--tier quick|thorough] [--replay FILE]"""

import argparse
import importlib
import json
import os
import sys
from pathlib import Path

sys.path.insert(0, str(Path(__file__).resolve().parent.parent))
sys.dont_write_bytecode = True


def tuplify(x):
    return tuple(tuplify(v) for v in x) if isinstance(x, list) else x


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--unit", type=int)
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    from mc import core

    try:
        importlib.import_module("mc.impl")
        check = importlib.import_module(f"mc.checks.{a.id.lower()}")
    except Exception as e:
        # the package under test cannot even be imported / used to set up the exploration
        import traceback

        rdir = core.VERIF / "replays"
        rdir.mkdir(exist_ok=True)
        path = rdir / f"{a.id}-import.json"
        path.write_text(json.dumps({"property": a.id, "what": traceback.format_exc()}, indent=1))
        print(f"VIOLATION property={a.id} replay={path}")
        print(f"  cannot set up exploration: {type(e).__name__}: {e}")
        return 1
    if a.replay:
        rp = json.loads(Path(a.replay).read_text())
        return core.run_check(check, a.tier, seed, only=[tuplify(rp["unit"])])
    if a.unit is not None:
        return core.run_check(check, a.tier, seed, only=[check.units(a.tier)[a.unit]])
    return core.run_check(check, a.tier, seed)


if __name__ == "__main__":
    sys.exit(main())
