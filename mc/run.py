"""python3 -m mc.run <property> [--tier quick|thorough] [--replay FILE]"""
import argparse
import atexit
import importlib
import json
import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.environ["PYTHONDONTWRITEBYTECODE"] = "1"
    os.execv(sys.executable, [sys.executable, "-m", "mc.run", *sys.argv[1:]])


def load_known(pid):
    from .engine import VERIF
    with open(os.path.join(VERIF, "known_findings.json")) as f:
        data = json.load(f)
    return {e["id"]: e for e in data["findings"] if e["property"] == pid}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    args = ap.parse_args()
    sys.setrecursionlimit(3000)
    from . import engine, storage
    storage.open_base()
    mod = importlib.import_module("mc.checks." + args.property.lower())
    ck = engine.Check(args.property, args.tier, int(os.environ.get("VERIF_SEED", "1")), load_known(args.property))
    if args.replay:
        with open(args.replay) as f:
            rec = json.load(f)
        ck.tier, ck.quick = rec["tier"], rec["tier"] == "quick"
        ck.bfs = lambda name, spec, *a, **k: ck.specs.__setitem__(name, spec)
        ck.enum = lambda name, cases, check, *a, **k: ck.specs.__setitem__(name, check)
        ck.finding = lambda *a, **k: None
        mod.run(ck)
        atexit.register(storage.remove, storage.BASE)
        spec = ck.specs[rec["part"]]

        def tup(x):
            return tuple(tup(y) for y in x) if isinstance(x, list) else x

        def go():
            if isinstance(spec, engine.Spec):
                w = engine.replay(spec, tup(rec["init"]), [])
                spec.observe(w)
                engine._close(spec, w)
                hist = [tup(a) for a in rec["history"]]
                for i, a in enumerate(hist):
                    w = engine.replay(spec, tup(rec["init"]), hist[:i])
                    print("step", i + 1, a, "->", end=" ", flush=True)
                    print(spec.step(w, a), flush=True)
                    spec.observe(w)
                    engine._close(spec, w)
            else:
                spec(tup(rec["history"][0]))
        msg = engine.apart(lambda _: engine._guard(go))[0] if ck.unpriv else engine._guard(go)
        print("\n" + (msg or "no violation on this tree"))
        return 1 if msg else 0
    try:
        mod.run(ck)
    finally:
        storage.remove(storage.BASE)
    return ck.finish()


if __name__ == "__main__":
    sys.exit(main())
