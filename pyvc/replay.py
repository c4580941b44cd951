"""Re-run the failing input of a replay file:  python -m pyvc.replay FILE"""

import json
import sys


def main():
    d = json.load(open(sys.argv[1]))
    if not d.get("hits"):
        print("no failing input in this file; failed obligations:")
        for x in d.get("failed_obligations", []):
            print("  ", x)
        return 0
    from pyvc.conc import sample
    from pyvc.symrun import load_contracts

    units = {u.name: u for u in load_contracts(d["property"], False)}
    bad = 0
    for h in d["hits"]:
        vals = h.get("values")
        if vals:
            vals = {k: (float("nan") if v == "nan" else v) for k, v in vals.items()}
        st, cl, det, log = sample(units[h["unit"]], h["case"], h["seed"], h["i"], values=vals)
        print(h["unit"], h["case"], "->", st, cl, det)
        bad += st == "violation"
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
