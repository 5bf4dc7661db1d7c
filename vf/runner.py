"""Runs one check: builds its harness jobs from /repo's working tree, runs every shard, confirms every failure by
replaying it, filters listed known findings, writes evidence and prints the verdict."""
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
NCPU = os.cpu_count() or 4

BASE_FLAGS = ["-fext-numeric-literals", "-g0", "-w", "-fno-strict-aliasing", "-I" + REPO + "/include", "-I" + REPO + "/src", "-I" + VERIF + "/h",
              "-I" + VERIF + "/mc"]
ARCH = ["-march=x86-64-v3", "-mfma", "-mf16c"]
LIB_SRCS = ["hashing.cpp", "string_param.cpp", "thread_name.cpp", "thread_pool.cpp", "uuid.cpp",
            "vector_types_common.cpp"]


class Job:
    """One harness binary. src: file(s) under /verif; std/opt/flags: compile options; lib: names of /repo/src files to
    compile in; shards: how many processes share the enumeration; san: sanitizers used as part of the oracle."""

    def __init__(self, name, src, std="c++20", opt="-O1", flags=(), lib=(), shards=1, san="", arch=True, args=(),
                 link=(), native_args=None, thorough_only=False, libflags=None, srcflags=None, cxx="g++"):
        self.name = name
        self.src = [src] if isinstance(src, str) else list(src)
        self.std, self.opt, self.flags, self.shards, self.san = std, opt, list(flags), shards, san
        self.lib = LIB_SRCS if lib is True else list(lib)
        self.arch, self.args, self.link = arch, list(args), list(link)
        self.thorough_only = thorough_only
        self.libflags = libflags
        self.srcflags = srcflags or {}
        self.cxx = cxx


def sh(cmd, timeout=None, env=None, cwd=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=env, cwd=cwd)
        return p.returncode, p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")
    except subprocess.TimeoutExpired as e:
        return -999, (e.stdout or b"").decode("utf-8", "replace"), "TIMEOUT"


def harness_env():
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "abort_on_error=1:detect_leaks=0:allocator_may_return_null=1:handle_abort=0:handle_segv=0:" \
                        "detect_stack_use_after_return=0"
    e["UBSAN_OPTIONS"] = "abort_on_error=1:halt_on_error=1:print_stacktrace=0"
    e["LC_ALL"] = "C.UTF-8"
    return e


def compile_cmds(job, bdir):
    """returns (list of (cmd, obj)), link cmd, exe"""
    flags = ["-std=" + job.std, job.opt] + BASE_FLAGS + (ARCH if job.arch else []) + job.flags
    if job.san:
        flags += ["-fsanitize=" + job.san, "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
    if job.cxx != "g++":
        flags = [f for f in flags if f != "-fext-numeric-literals"]
    objs, cmds = [], []
    for s in job.src:
        path = s if os.path.isabs(s) else os.path.join(VERIF, s)
        o = os.path.join(bdir, job.name + "." + os.path.basename(s).replace(".", "_") + ".o")
        cmds.append(([job.cxx] + job.srcflags.get(s, flags) + ["-c", path, "-o", o], o))
        objs.append(o)
    for s in job.lib:
        o = os.path.join(bdir, job.name + ".lib_" + s.replace(".", "_") + ".o")
        lf = flags if job.libflags is None else ["-std=" + job.std] + BASE_FLAGS + (ARCH if job.arch else []) + job.libflags
        cmds.append(([job.cxx] + lf + ["-c", os.path.join(REPO, "src", s), "-o", o], o))
        objs.append(o)
    exe = os.path.join(bdir, job.name + ".exe")
    link = [job.cxx] + (["-fsanitize=" + job.san] if job.san else []) + objs + ["-o", exe, "-lpthread"] + (["-lquadmath"] if job.cxx == "g++" else []) + job.link
    return cmds, link, exe


def load_known(pid):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    return [k for k in json.load(open(path)).get("findings", []) if k["property"] == pid]


def run_check(chk, tier, replay_only=None):
    t0 = time.time()
    pid = chk["id"]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    bdir = os.path.join(VERIF, "build", "%s-%d" % (pid, os.getpid()))
    shutil.rmtree(bdir, ignore_errors=True)
    os.makedirs(bdir)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    jobs = [j for j in chk["jobs"] if tier == "thorough" or not j.thorough_only]
    violations, findings = [], []
    try:
        _run(chk, tier, seed, bdir, jobs, violations, findings, t0, pid)
    finally:
        shutil.rmtree(bdir, ignore_errors=True)
    for f in findings:
        print("KNOWN-FINDING: property=%s %s (%s)" % (pid, f["what"], f["key"]))
    if violations:
        for i, v in enumerate(violations[:5]):
            rp = os.path.join(VERIF, "replays", "%s-%d.json" % (pid, i))
            json.dump(v, open(rp, "w"), indent=1)
            print("  violation: %s | %s" % (v.get("key"), v.get("message", "")[:600]))
            print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    return 0


def parse(out):
    fails, stats, samples = [], [], []
    for line in out.splitlines():
        if line.startswith("FAIL\t"):
            p = line.split("\t", 2)
            fails.append((p[1], p[2] if len(p) > 2 else ""))
        elif line.startswith("STAT\t"):
            stats.append(json.loads(line[5:]))
        elif line.startswith("SAMPLE\t"):
            samples.append(line[7:])
    return fails, stats, samples


def _run(chk, tier, seed, bdir, jobs, violations, findings, t0, pid):
    known = load_known(pid)
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": [], "jobs": {},
           "exhaustive": True}
    # ---- build
    allcmds = []
    per = []
    for j in jobs:
        cmds, link, exe = compile_cmds(j, bdir)
        allcmds += cmds
        per.append((j, cmds, link, exe))
    broken = {}
    with cf.ThreadPoolExecutor(NCPU) as ex:
        futs = {ex.submit(sh, c, 600): o for c, o in allcmds}
        for f in cf.as_completed(futs):
            rc, so, se = f.result()
            if rc != 0:
                broken[futs[f]] = se
    exes = []
    for j, cmds, link, exe in per:
        bad = [(c, o) for c, o in cmds if o in broken]
        msg = None
        for c, o in bad:  # retry once alone (e.g. killed by memory pressure)
            rc, so, se = sh(c, 600)
            if rc != 0:
                msg = se
                break
        if msg is None:
            rc, so, se = sh(link, 300)
            if rc != 0:
                msg = se
        if msg is not None:
            violations.append({"property": pid, "job": j.name, "key": "build:" + j.name,
                               "message": "harness using only the public API no longer builds: " + "\n".join(
                                   [l for l in msg.splitlines() if "error" in l or "undefined" in l][:8]),
                               "cmd": " ".join(link)})
        else:
            exes.append((j, exe))
    # ---- run
    env = harness_env()
    tasks = []
    for j, exe in exes:
        for s in range(j.shards):
            tasks.append((j, [exe, "--tier", tier, "--shard", "%d/%d" % (s, j.shards), "--seed", str(seed)] + j.args))
    limit = 780 if tier == "quick" else 6 * 3600

    def run1(t):
        return t, sh(t[1], limit, env, bdir)

    tb = time.time()
    raw, again = [], {}
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for t, (rc, so, se) in ex.map(run1, tasks):
            raw.append((t, rc, so, se))
    for (j, cmd), rc, so, se in raw:
        fails, stats, samples = parse(so)
        jc = cov["jobs"].setdefault(j.name, {"states": 0, "transitions": 0, "groups": {}})
        for st in stats:
            cov["states"] += st.get("states", 0)
            cov["transitions"] += st.get("transitions", 0)
            cov["traces_validated_against_impl"] += st.get("traces", 0)
            jc["states"] += st.get("states", 0)
            jc["transitions"] += st.get("transitions", 0)
            if st.get("capped"):
                cov["exhaustive"] = False
                jc["capped"] = st["capped"]
            for g, n in st.get("groups", {}).items():
                d = jc["groups"].setdefault(g, {})
                for k, v in n.items():
                    if isinstance(v, (int, float)):
                        d[k] = d.get(k, 0) + v
                    else:
                        d[k] = v
        cov["samples"] += samples
        if rc != 0 and not fails:
            # died without naming a case: run it again, alone, to see whether that is reproducible
            rc2, so2, se2 = sh(cmd, limit, env, bdir)
            f2, _, _ = parse(so2)
            if f2:
                fails = f2
            elif rc2 != 0:
                fails = [("crash:" + j.name, "harness died rc=%s %s" % (rc2, (se2 or se)[-400:]))]
        if rc == 0 and not stats and not fails:
            fails = [("nostat:" + j.name, "harness ended without reporting coverage (process exited early)")]
        seen_keys = set()
        nconf = 0
        for key, msg in fails:
            if key in seen_keys:
                continue
            seen_keys.add(key)
            kf = [k for k in known if k["key"] == key]
            if kf:
                if not any(f["key"] == key for f in findings):
                    findings.append({"key": key, "what": kf[0]["what"]})
                continue
            if nconf >= 3 or len(violations) >= 5:
                continue
            if key.startswith("nostat:"):
                violations.append({"property": pid, "job": j.name, "key": key, "message": msg, "cmd": cmd})
                continue
            # replay before report: this case alone, else (shards that split by a running counter) the whole shard again
            rcmd = cmd + ["--only", key]
            ok = False
            for attempt in range(2):
                if attempt:
                    rcmd = cmd
                if attempt and tuple(cmd) in again:
                    rc3, so3 = again[tuple(cmd)]
                else:
                    rc3, so3, se3 = sh(rcmd, limit, env, bdir)
                    if attempt:
                        again[tuple(cmd)] = rc3, so3
                f3, _, _ = parse(so3)
                if any(k == key for k, _ in f3) or (key.startswith("crash:") and rc3 != 0):
                    ok = True
                    break
            nconf += 1
            if ok:
                violations.append({"property": pid, "job": j.name, "key": key, "message": msg,
                                   "stderr": se[-1500:], "build": " ".join(compile_cmds(j, "BUILDDIR")[0][0][0]),
                                   "cmd": [os.path.basename(rcmd[0])] + rcmd[1:],
                                   "how_to_replay": "python3 run.py %s --replay <this file>" % pid})
            else:
                print("note: not reproduced on replay, not reported: %s | %s" % (key, msg))
                cov.setdefault("unreproduced", []).append(key)
    s = cov["samples"]
    if len(s) > 24:
        step = len(s) / 24.0
        cov["samples"] = [s[int(i * step)] for i in range(24)]
    if not cov["samples"]:
        cov["samples"] = ["(none)"]
    cov["build_s"] = round(tb - t0, 2)
    level = chk.get("level", "model_checking")
    ev = {"property": pid, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": chk.get("assumptions", []), "wall_s": round(time.time() - t0, 2),
          "violations": len(violations)}
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s: states=%d transitions=%d traces=%d build=%.1fs wall=%.1fs violations=%d known=%d" % (
        pid, tier, cov["states"], cov["transitions"], cov["traces_validated_against_impl"], cov["build_s"],
        ev["wall_s"], len(violations), len(findings)))
