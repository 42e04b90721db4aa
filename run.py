#!/usr/bin/env python3
"""python3 run.py <property id>   (VERIF_TIER, VERIF_SEED in the environment)
   python3 run.py <property id> --replay FILE   re-run the cases of a replay file"""
import importlib, json, os, sys, traceback
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import lib


def main():
    pid = sys.argv[1]
    k = lib.Check(pid)
    try:
        mod = importlib.import_module("checks." + pid)
        k.build()
        if len(sys.argv) > 3 and sys.argv[2] == "--replay":
            with open(sys.argv[3]) as fh:
                vs = json.load(fh)["violations"]
            for v in vs:
                if isinstance(v.get("data"), (dict,)):
                    f = os.path.join(k.tmp, "replay.cases")
                    with open(f, "w") as fh:
                        fh.write(json.dumps(v["data"]) + "\n")
                    k.drive(v["where"], f)
            for v in k.violations:
                print(json.dumps(v, indent=1))
            return 1 if k.violations else 0
        mod.run(k)
        return k.finish()
    except lib.CheckError as e:
        print(f"ERROR {pid}: {e}", file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        k.close()


sys.exit(main())
