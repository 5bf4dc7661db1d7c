#!/usr/bin/env python3
"""Plants bugs from a spec file: plant.py SPEC.py [ID...]; keeps the ones that compile, pass the stable tests and whose
demonstration passes without and fails with the change. Works on a scratch copy (/tmp/wt) bind-mounted over /repo in a
private mount namespace; /repo itself is never modified."""
import json
import os
import subprocess
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WT = "/tmp/wt"
DEMO = """#!/bin/bash
# run with cwd /repo: exit 0 if the behaviour is right
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
g++ {flags} -fext-numeric-literals -w -I include -I src "$here/demo.cpp" {srcs} -o "$t/demo" -lpthread || exit 3
timeout {timeout} "$t/demo"
"""


def sh(cmd, **kw):
    return subprocess.run(["unshare", "-m", "bash", "-c", "mount --bind %s /repo && cd /repo && %s" % (WT, cmd)],
                          stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def git(*a):
    return subprocess.run(["git", "-C", WT] + list(a), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


def reset():
    git("checkout", "--", ".")
    git("fetch", "-q", "/repo", "HEAD")
    git("reset", "-q", "--hard", "FETCH_HEAD")


def main():
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    for b in ns["BUGS"]:
        if len(sys.argv) > 2 and b["id"] not in sys.argv[2:]:
            continue
        reset()
        d = "%s/seeded/%s" % (V, b["id"])
        os.makedirs(d, exist_ok=True)
        open(d + "/demo.cpp", "w").write(b["demo"])
        open(d + "/demo.sh", "w").write(DEMO.format(flags=b.get("flags", "-std=c++20 -O1"), srcs=b.get("srcs", ""),
                                                    timeout=b.get("timeout", 60)))
        os.chmod(d + "/demo.sh", 0o755)
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["what"]},
                  open(d + "/meta.json", "w"), indent=1)
        r0 = sh("bash %s/demo.sh" % d)
        ok = r0.returncode == 0
        msg = "clean demo rc %d %s" % (r0.returncode, "" if ok else r0.stdout[-1500:])
        if ok:
            for f, old, new in b["edits"]:
                p = WT + "/" + f
                s = open(p, newline="").read()
                if "\r\n" in s:
                    old, new = old.replace("\n", "\r\n"), new.replace("\n", "\r\n")
                if s.count(old) != 1:
                    ok, msg = False, "edit matches %d times: %s" % (s.count(old), old[:60])
                    break
                open(p, "w", newline="").write(s.replace(old, new))
        if ok:
            diff = subprocess.run(["git", "-C", WT, "diff"], stdout=subprocess.PIPE).stdout
            open(d + "/patch.diff", "wb").write(diff)
            r1 = sh("bash %s/demo.sh" % d)
            if r1.returncode == 0:
                ok, msg = False, "demo passes with the bug"
            else:
                msg += "; buggy demo rc %d" % r1.returncode
        if ok and not os.environ.get("NOTEST"):
            t = sh("(bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/plant_t.json) 2>&1 | tail -40")
            last = [x for x in t.stdout.splitlines() if "passed" in x][-1:]
            if not last or "2386 passed, 0 failed" not in last[0]:
                ok = False
                msg += "; TESTS: " + (last[0] if last else t.stdout[-800:])
        reset()
        print("%s %s %s" % ("KEPT" if ok else "REJECTED", b["id"], msg), flush=True)
        if not ok and not os.environ.get("KEEP"):
            subprocess.run(["rm", "-rf", d])


main()
