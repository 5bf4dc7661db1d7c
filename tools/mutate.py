#!/usr/bin/env python3
"""Development aid (no check uses it): mutates a scratch copy of muu one operator at a time and reports which mutants the
checks of the given properties miss, to find what they do not look at.
  mutate.py WORKDIR COUNT SEED FILE:PID[,PID...] ...      survivors are printed with their change"""
import os
import random
import re
import subprocess
import sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
RULES = [
    (r" < ", [" <= ", " > "]), (r" > ", [" >= ", " < "]), (r" <= ", [" < "]), (r" >= ", [" > "]),
    (r" == ", [" != "]), (r" != ", [" == "]), (r" && ", [" || "]), (r" \|\| ", [" && "]),
    (r" \+ ", [" - "]), (r" - ", [" + "]), (r" \* ", [" / ", " + "]), (r" / ", [" * "]), (r" % ", [" / "]),
    (r" & ", [" | "]), (r" \| ", [" & "]), (r" \^ ", [" | "]), (r" << ", [" >> "]), (r" >> ", [" << "]),
    (r"\+\+", ["--"]), (r" \+= ", [" -= "]), (r" -= ", [" += "]), (r" \*= ", [" /= "]),
    (r"\btrue\b", ["false"]), (r"\bfalse\b", ["true"]), (r"\bmin\b", ["max"]), (r"\bmax\b", ["min"]),
    (r"\b1u\b", ["2u", "0u"]), (r"\b0u\b", ["1u"]), (r"\b2u\b", ["1u"]), (r"\{ 1 \}", ["{ 2 }"]), (r"\{\}", ["{ 1 }"]),
    (r"\b1\b", ["2", "0"]), (r"\b0\b", ["1"]), (r"\b2\b", ["3"]), (r"\.x\b", [".y"]), (r"\.y\b", [".z"]), (r"\.z\b", [".x"]),
    (r"\[0\]", ["[1]"]), (r"\[1\]", ["[2]"]), (r"\[2\]", ["[0]"]), (r"!(?=[a-z(])", [""]), (r"(?<=[(=] )?-(?=[a-z(])", [""]),
    (r"\babs\(", ["("]), (r"\blhs\b", ["rhs"]), (r"\brhs\b", ["lhs"]), (r"\.begin\b", [".end"]), (r"\bsin\b", ["cos"]),
    (r"\bcos\b", ["sin"]), (r"\bcenter\b", ["extents"]), (r"\? (\w+) : (\w+)", [r"? \2 : \1"]),
    (r"\bif \((?!constexpr)", ["if (!"]), (r"^(\t+)[\w:.>\-]+\([^;{}]*\);$", [r"\1;"]), (r"^(\t+)[\w.>\-\[\]]+\s+[-+*/|&^]?= [^;{}]*;$", [r"\1;"]),
]
SKIP = re.compile(r"^\s*(#|//|///|\*|template|using|namespace|static_assert|typename|MUU_(?!ASSUME)|class |struct |friend |requires|public:|private:)|noexcept\($|static_assert|operator[<>=+\-*/&|^!]|MUU_ASSUME|MUU_ASSERT")


def mutants(path):
    lines = open(path, newline="").read().split("\n")
    out, comment, depth = [], False, 0
    for i, l in enumerate(lines):
        if "/*" in l:
            comment = True
        if comment:
            if "*/" in l:
                comment = False
            continue
        if SKIP.search(l) or l.endswith("\\"):
            continue
        code = l.split("//")[0]
        for pat, reps in RULES:
            for m in re.finditer(pat, code):
                for r in reps:
                    n = code[:m.start()] + m.expand(r) + code[m.end():]
                    if n != code:
                        out.append((i, l, n))
    return lines, out


def main():
    work, count, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    subprocess.run(["/bin/rm", "-rf", work])
    os.makedirs(work)
    subprocess.run(["cp", "-a", "/repo/include", "/repo/src", work + "/"], check=True)
    subprocess.run("mkdir -p %s/verif && cp -a %s/vf %s/h %s/mc %s/run.py %s/known_findings.json %s/verif/" % (
        work, V, V, V, V, V, work), shell=True, check=True)
    env = dict(os.environ, VF_REPO=work, VERIF_TIER="quick")
    drv = ("import sys; sys.path.insert(0, %r); from vf import registry, runner\n"
           "pid = sys.argv[1]; c = dict(registry.CHECKS[pid]); J = [j for j in c['jobs'] if '17' not in j.name and 'clang' not in j.name and not j.thorough_only]\n"
           "c['jobs'] = J or c['jobs']; sys.exit(runner.run_check(c, 'quick'))\n") % (work + "/verif")
    open(work + "/drv.py", "w").write(drv)
    for spec in sys.argv[4:]:
        f, pids = spec.split(":")
        path = work + "/" + f
        orig = open(path, newline="").read()
        lines, ms = mutants(path)
        random.Random(seed).shuffle(ms)
        killed = tried = 0
        for i, old, new in ms:
            if tried >= count:
                break
            l2 = list(lines)
            l2[i] = new
            open(path, "w", newline="").write("\n".join(l2))
            verdict = "SURVIVED"
            for pid in pids.split(","):
                try:
                    r = subprocess.run([sys.executable, work + "/drv.py", pid], env=env, stdout=subprocess.PIPE,
                                       stderr=subprocess.STDOUT, text=True, errors="replace", timeout=900)
                except subprocess.TimeoutExpired:
                    verdict = "hang " + pid
                    break
                keys = re.findall(r"violation: (\S+)", r.stdout)
                if r.returncode == 0:
                    continue
                if keys and all(k.startswith("build:") for k in keys):
                    verdict = "nocompile"
                else:
                    verdict = "killed " + pid
                break
            if verdict != "nocompile":
                tried += 1
                killed += verdict != "SURVIVED"
                print("%s\t%s:%d\t%s\t=>\t%s" % (verdict, f, i + 1, old.strip(), new.strip()), flush=True)
        open(path, "w", newline="").write(orig)
        print("## %s: %d of %d killed (%d candidates)" % (f, killed, tried, len(ms)), flush=True)


main()
