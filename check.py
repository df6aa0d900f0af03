"""check.py C07            run the check of one property (VERIF_TIER, VERIF_SEED)
check.py --replay FILE    run a recorded counterexample on the unmodified code"""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
sys.setrecursionlimit(10000)

PY = "/opt/pypyvenv/bin/python"


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    if os.path.realpath(sys.prefix) != os.path.realpath("/opt/pypyvenv") or os.environ.get("PYTHONHASHSEED") != "0":
        env = dict(os.environ)
        env.update(PYTHONHASHSEED="0", PYTHONDONTWRITEBYTECODE="1", LC_ALL="C.UTF-8")
        os.execve(PY, [PY] + [os.path.abspath(__file__)] + sys.argv[1:], env)
    from symx import runner
    if sys.argv[1] == "--native":
        runner.native_main()
        return 0
    if sys.argv[1] == "--replay":
        with open(sys.argv[2]) as f:
            d = json.load(f)
        r = runner.replay_native(d["property"], d["tier"], [(d["case_index"], d["inputs"])], 600)
        print(r)
        return 1 if r is None or r[0][0] in ("fail", "crash") else 0
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    return runner.Master(prop, tier, seed).run()


if __name__ == "__main__":
    code = main()
    sys.stdout.flush()
    sys.exit(code)
