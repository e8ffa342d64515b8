#!/usr/bin/env python3
"""Runs the check of one property: builds /repo's sources with the harness,
explores, replays what it finds, writes evidence/<id>.json.

usage: run.py ID [quick|thorough]      exit 0 held, 1 violated, 2 check error
"""
import json, os, re, shutil, subprocess, sys, time, glob
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
JOBS = os.cpu_count() or 8
sys.path.insert(0, VERIF)
from props import PROPS, VARIANTS   # noqa: E402


def die(msg):
    print("CHECK-ERROR:", msg)
    sys.exit(2)


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                          text=True, errors="replace", **kw)


def compile_variant(build, variant, driver, defines):
    """Compiles the library (from the working tree) and one driver."""
    v = VARIANTS[variant]
    out = os.path.join(build, variant)
    os.makedirs(out, exist_ok=True)
    inc = ["-I", REPO + "/src", "-I", REPO + "/include", "-I", VERIF + "/harness"]
    base = [v.get("cc", "clang"), "-std=gnu99", "-g", "-w"] + v["flags"] + inc
    srcs = sorted(glob.glob(REPO + "/src/core/*.c") + glob.glob(REPO + "/src/message/*.c")
                  + glob.glob(REPO + "/src/util/*.c"))
    if not srcs:
        die("no sources under %s/src" % REPO)
    jobs = [(s, os.path.join(out, os.path.relpath(s, REPO).replace("/", "_") + ".o"),
             v.get("lib_flags", [])) for s in srcs]
    exe = os.path.join(out, os.path.splitext(os.path.basename(driver))[0])
    jobs.append((os.path.join(VERIF, "harness", driver), exe + ".driver.o",
                 v.get("drv_flags", []) + defines))
    need = [j for j in jobs if not os.path.exists(j[1])]
    with ThreadPoolExecutor(JOBS) as ex:
        res = list(ex.map(lambda j: sh(base + j[2] + ["-c", j[0], "-o", j[1]]), need))
    for j, r in zip(need, res):
        if r.returncode:
            die("cannot compile %s (%s)\n%s" % (j[0], variant, r.stdout[-3000:]))
    r = sh(base + v.get("ld_flags", []) + [j[1] for j in jobs] + ["-o", exe, "-lpthread", "-lm"])
    if r.returncode:
        die("cannot link %s (%s)\n%s" % (driver, variant, r.stdout[-3000:]))
    return exe


ENV = dict(os.environ,
           ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:"
                        "detect_stack_use_after_return=0:handle_abort=0:"
                        "max_malloc_fill_size=4096:malloc_fill_byte=190:quarantine_size_mb=8",
           UBSAN_OPTIONS="halt_on_error=1:abort_on_error=1:print_stacktrace=1")


def replay(exe, case, limit=120):
    try:
        r = sh(["setarch", "-R", exe, "--replay", case] if shutil.which("setarch") and NOASLR
               else [exe, "--replay", case], env=ENV, timeout=limit)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as e:
        return -99, (e.stdout or b"").decode("utf-8", "replace") + "\nTIMEOUT: no answer within %ds\n" % limit


NOASLR = False


def known(prop):
    path = os.path.join(VERIF, "known_findings.txt")
    res = []
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r"known: property=(\S+) id=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                res.append((m.group(2), m.group(3)))
    return res


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    cfg = PROPS[prop]
    if "main" in cfg:
        return cfg["main"](prop, tier, seed)
    t0 = time.time()
    build = os.path.join(VERIF, "build", prop)
    shutil.rmtree(build, ignore_errors=True)
    os.makedirs(build)
    out_root = os.path.join(VERIF, "out", prop)
    shutil.rmtree(out_root, ignore_errors=True)
    os.makedirs(out_root)
    scen, samples, seen_known = [], [], {}
    runs = [r for r in cfg["runs"] if r.get("tier", tier) == tier]
    budget = cfg.get("budget", {}).get(tier, 240 if tier == "quick" else 840)
    for run in runs:
        driver, variant = run["driver"], run["variant"]
        exe = compile_variant(build, variant, driver, run.get("defines", []))
        tag = "%s-%s%s" % (os.path.splitext(driver)[0], variant, run.get("tag", ""))
        out = os.path.join(out_root, tag)
        os.makedirs(out, exist_ok=True)
        left = max(20, budget - (time.time() - t0))
        cmd = [exe, "--out", out, "--workers", str(min(16, JOBS)), "--deadline", str(left)]
        if tier == "thorough":
            cmd.append("--thorough")
        if run.get("only"):
            cmd += ["--only", run["only"]]
        for attempt in (1, 2):
            r = sh(cmd, env=ENV)
            if r.returncode != 1:
                break
            case = os.path.join(out, "violation.case")
            rc, text = replay(exe, case)
            if rc == 3:
                die("replay diverged\n" + text[-2000:])
            if rc != 0:
                break
        if r.returncode not in (0, 1):
            die("%s: driver ended with %d\n%s" % (tag, r.returncode, r.stdout[-3000:]))
        if r.returncode == 1:
            rep = os.path.join(out_root, "replay-%s.txt" % tag)
            logs = ""
            m = re.search(r"worker=(\d+)", r.stdout)
            if m:
                p = os.path.join(out, "worker%s.log" % m.group(1))
                if os.path.exists(p):
                    logs = open(p, errors="replace").read()
            with open(rep, "w") as f:
                f.write("property %s\nreplay with: %s --replay %s\nexploration: %s\n" %
                        (prop, exe, case, r.stdout.strip()))
                f.write("replay (exit %s):\n%s\n" % (rc, text))
                if rc == 0:
                    f.write("\nThe single case passes when run alone; the exploration failed twice "
                            "at it, so it needs the executions before it (state kept between calls).\n")
                f.write("\nworker log:\n%s\n" % logs[-6000:])
                f.write("\ncase file:\n%s\n" % open(case).read())
            print(r.stdout.strip()[:600])
            print(text[-1500:])
            write_evidence(prop, tier, seed, cfg, scen, samples, t0, 1)
            print("VIOLATION property=%s replay=%s" % (prop, rep))
            return 1
        res = json.load(open(os.path.join(out, "result.json")))
        for line in r.stdout.splitlines():
            m = re.match(r"KNOWN (\S+)", line)
            if m:
                seen_known[m.group(1)] = line
        for s in res["scenarios"]:
            s["run"] = tag
            scen.append(s)
            for i in range(min(s["samples"], 2)):
                if len(samples) >= cfg.get("max_samples", 8):
                    break
                f = os.path.join(out, "sample.%s.%d" % (s["name"], i))
                if os.path.exists(f):
                    a, b = replay(exe, f), replay(exe, f)
                    if a != b:
                        die("replaying %s twice gave different observations\n%s\n--\n%s" %
                            (f, a[1][-1500:], b[1][-1500:]))
                    if a[0]:
                        die("sample %s fails on replay\n%s" % (f, a[1][-1500:]))
                    samples.append(a[1].strip()[:1500])
            print("%-28s %-34s exec=%d trans=%d states=%d outcomes=%d%s %.1fs" % (
                tag, s["name"], s["executions"], s["transitions"], s["states"], s["outcomes"],
                " CAPPED" if s["capped"] else "", s["wall_s"]))
    listed = dict(known(prop))
    for kid in seen_known:
        if kid not in listed:
            rep = os.path.join(out_root, "finding.txt")
            open(rep, "w").write("%s\n" % seen_known[kid])
            write_evidence(prop, tier, seed, cfg, scen, samples, t0, 1)
            print("VIOLATION property=%s replay=%s" % (prop, rep))
            return 1
    for kid, text in known(prop):
        if kid not in seen_known:
            continue
        print("KNOWN-FINDING: property=%s %s %s" % (prop, kid, text))
    write_evidence(prop, tier, seed, cfg, scen, samples, t0, 0)
    print("OK property=%s tier=%s wall=%.1fs" % (prop, tier, time.time() - t0))
    return 0


def write_evidence(prop, tier, seed, cfg, scen, samples, t0, violations):
    ex = sum(s["executions"] for s in scen)
    tr = sum(s["transitions"] for s in scen)
    st = sum(s["states"] for s in scen)
    oc = sum(s["outcomes"] for s in scen)
    level = cfg["level"]
    cov = {"samples": samples, "scenarios": scen,
           "exhaustive": bool(scen) and not violations and not any(s["capped"] for s in scen),
           "oracle_checks": sum(s["checks"] for s in scen)}
    if level == "model_checking":
        cov.update(states=st, transitions=tr, traces_validated_against_impl=ex)
        cov["distinct_outcomes"] = oc
    else:
        cov.update(evaluations=ex, distinct_nontrivial=st or oc, rule=cfg["rule"])
        cov["api_operations"] = tr
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
          "assumptions": cfg.get("assumptions", []), "wall_s": round(time.time() - t0, 2),
          "violations": violations}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


if __name__ == "__main__":
    sys.exit(main())
