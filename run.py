#!/usr/bin/env python3
"""python3 run.py <PROPERTY-ID> [--tier quick|thorough] : one check; `python3 run.py all` : every check."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vf import registry, runner  # noqa


def main():
    a = sys.argv[1:]
    tier = os.environ.get("VERIF_TIER", "quick") or "quick"
    if "--tier" in a:
        i = a.index("--tier")
        tier = a[i + 1]
        del a[i:i + 2]
    if "--replay" in a:
        import json
        i = a.index("--replay")
        v = json.load(open(a[i + 1]))
        chk = dict(registry.CHECKS[v["property"]])
        chk["jobs"] = [j for j in chk["jobs"] if j.name == v["job"]]
        for j in chk["jobs"]:
            if "--only" in v.get("cmd", ["--only"]):
                j.args = j.args + ["--only", v["key"]]
        return runner.run_check(chk, tier)
    ids = list(registry.CHECKS) if a == ["all"] else a
    rc = 0
    for pid in ids:
        rc |= runner.run_check(registry.CHECKS[pid], tier)
        sys.stdout.flush()
    return rc


if __name__ == "__main__":
    sys.exit(main())
