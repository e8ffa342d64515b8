"""Checks of the code generator: builds the plugin and the library from /repo,
runs every schema of the bounded spaces through protoc, compiles what comes
out, runs it and compares every observation with the schema model."""
import glob, json, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import emit, spaces, depr          # noqa: E402
from model import *                # noqa: E402

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
JOBS = os.cpu_count() or 8
ENV = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=1:detect_container_overflow=0:detect_odr_violation=0", UBSAN_OPTIONS="halt_on_error=1:abort_on_error=1")
CFLAGS = ["-std=c99", "-D_POSIX_C_SOURCE=200809L", "-O0", "-Wno-everything", "-fsanitize=address",
          "-Werror=incompatible-pointer-types", "-Werror=implicit-function-declaration", "-Werror=int-conversion",
          "-Werror=macro-redefined", "-Werror=incompatible-pointer-types-discards-qualifiers",
          "-Werror=excess-initializers", "-Werror=implicitly-unsigned-literal", "-Werror=constant-conversion",
          "-Werror=initializer-overrides"]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


class Stop(Exception):
    """the machinery itself failed"""


def build(dirname):
    """plugin and library from the working tree"""
    os.makedirs(dirname)
    inc = ["-I", REPO + "/src", "-I", REPO + "/include"]
    jobs = []
    compat = "/opt/vp/compat/protobuf-compat.h"
    for s in sorted(glob.glob(REPO + "/src/generator/*.cc")):
        o = os.path.join(dirname, "g_" + os.path.basename(s) + ".o")
        jobs.append((["g++", "-O0", "-w", "-std=c++11", "-fsanitize=address"] + (["-include", compat] if os.path.exists(compat) else []) +
                     inc + ["-c", s, "-o", o], o, "g"))
    for d in ("core", "message", "util"):
        for s in sorted(glob.glob("%s/src/%s/*.c" % (REPO, d))):
            o = os.path.join(dirname, "l_%s_%s.o" % (d, os.path.basename(s)))
            jobs.append((["clang", "-O1", "-w", "-std=gnu99", "-fsanitize=address"] +
                         inc + ["-c", s, "-o", o], o, "l"))
    with ThreadPoolExecutor(JOBS) as ex:
        res = list(ex.map(lambda j: sh(j[0]), jobs))
    for j, r in zip(jobs, res):
        if r.returncode:
            raise Stop("cannot compile: %s\n%s" % (" ".join(j[0]), r.stdout[-2000:]))
    plug, lib = os.path.join(dirname, "protoc-gen-protobluff"), os.path.join(dirname, "lib.a")
    r = sh(["g++"] + [j[1] for j in jobs if j[2] == "g"] + ["-fsanitize=address", "-o", plug, "-lprotoc", "-lprotobuf", "-lpthread"])
    if r.returncode:
        raise Stop("cannot link the generator\n" + r.stdout[-2000:])
    r = sh(["ar", "rcs", lib] + [j[1] for j in jobs if j[2] == "l"])
    if r.returncode:
        raise Stop("cannot archive\n" + r.stdout)
    return plug, lib


class Unit:
    def __init__(s, space, name, files, opts):
        s.space, s.name, s.files, s.opts = space, name, files, opts
        s.problem = None
        s.lines = s.cases = 0
        s.sample = None


def protos(unit, d):
    os.makedirs(d)
    for f in unit.files:
        p = os.path.join(d, f.path)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "w") as fd:
            fd.write(f.proto())


def generate(unit, d, plug):
    """protoc with the plugin; the schemas are known to be valid"""
    cmd = ["protoc", "--plugin=protoc-gen-protobluff=" + plug, "--protobluff_out=" + d, "-I", d] + \
        [os.path.join(d, f.path) for f in unit.files] + unit.opts.get("also", [])
    r = sh(cmd, timeout=300, env=ENV)
    if r.returncode:
        # an invalid schema would be a mistake of ours: ask protoc without the plugin
        q = sh(["protoc", "-I", d, "--descriptor_set_out=" + os.path.join(d, "set.pb")] +
               [os.path.join(d, f.path) for f in unit.files])
        if q.returncode:
            raise Stop("%s: invalid schema\n%s" % (unit.name, q.stdout[-1500:]))
        return "the generator fails on valid schemas (%s)\n%s" % (r.returncode, r.stdout[-2000:])
    for f in unit.files:
        for x in (".pb.h", ".pb.c"):
            if not os.path.exists(os.path.join(d, f.base() + x)):
                return "no %s generated for %s" % (x, f.path)
    return None


def run_unit(unit, root, plug, lib, mode):
    d = os.path.join(root, unit.name)
    protos(unit, d)
    unit.problem = generate(unit, d, plug)
    if unit.problem:
        return unit
    emit_lock_exts = [x for f in unit.files for x in f.all_exts()]
    outs = []
    for f in unit.files:
        if mode == "descriptors":
            outs += list(emit.descriptors(f))
        else:
            outs += list(emit.accessors(f, unit.opts.get("brief")))
    for o in outs:
        for i, (w, code) in enumerate(o.want):
            if isinstance(w, emit.Jour):
                w.exts = emit_lock_exts
    text, want = emit.program([f.base() + ".pb.h" for f in unit.files], outs)
    if not outs:
        return unit
    src = os.path.join(d, "test.c")
    with open(src, "w") as fd:
        fd.write(text)
    objs = []
    for i, s in enumerate([os.path.join(d, f.base() + ".pb.c") for f in unit.files] +
                          [os.path.join(d, f[:-6] + ".pb.c") for f in unit.opts.get("also", [])] + [src]):
        o = os.path.join(d, "o%d.o" % i)
        r = sh(["clang"] + CFLAGS + ["-I", d, "-I", REPO + "/include", "-I", HERE, "-c", s, "-o", o])
        if r.returncode:
            unit.problem = "generated code does not compile: %s\n%s" % (os.path.relpath(s, d), r.stdout[:3000])
            return unit
        objs.append(o)
    exe = os.path.join(d, "test")
    r = sh(["clang"] + CFLAGS + objs + [lib, "-o", exe, "-lm"])
    if r.returncode:
        unit.problem = "generated code does not link\n" + r.stdout[:3000]
        return unit
    try:
        r = subprocess.run([exe], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                           env=ENV, timeout=300)
    except subprocess.TimeoutExpired:
        unit.problem = "the test of the generated code does not end"
        return unit
    got = r.stdout.split("\n")
    for i, (w, name, code) in enumerate(want):
        line = got[i] if i < len(got) - 1 or (i < len(got) and got[i]) else "<nothing: the program ended>"
        try:
            ok = w(line) if callable(w) else w == line
        except (ValueError, IndexError, KeyError):     # not even of the expected form
            ok = False
        unit.lines += 1
        if not ok:
            unit.problem = "%s\n  call:     %s\n  expected: %s\n  observed: %s\n%s" % (
                name, code, getattr(w, "text", w), line, r.stderr[-2500:])
            return unit
    if r.returncode or len(got) != len(want) + 1:
        unit.problem = "the test ended with %d after %d of %d lines\n%s" % (r.returncode, len(got), len(want), r.stderr[-2500:])
        return unit
    unit.cases = len(outs)
    if outs:
        o = outs[min(1, len(outs) - 1)]
        k = [i for i, w in enumerate(want) if w[1] == o.name]
        unit.sample = "%s / %s\n%s" % (unit.name, o.name, "\n".join(
            "%s -> %s" % (want[i][2], got[i]) for i in k[1:9]))
    for f in os.listdir(d):
        if f.endswith(".o") or f == "test":
            os.unlink(os.path.join(d, f))
    return unit


def main(prop, tier, seed, mode):
    t0 = time.time()
    root = os.path.join(VERIF, "build", prop)
    out = os.path.join(VERIF, "out", prop)
    for p in (root, out):
        shutil.rmtree(p, ignore_errors=True)
    os.makedirs(out)
    thorough = tier == "thorough"
    try:
        plug, lib = build(root)
        units = []
        for title, fn in spaces.SPACES:
            for name, files, opts in fn(thorough):
                if mode == "accessors" and opts.get("no_access"):
                    continue
                units.append(Unit(title, name, files, opts))
        units.sort(key=lambda u: -sum(len(m.fields) for f in u.files for m in f.all()))
        with ThreadPoolExecutor(JOBS) as ex:
            units = list(ex.map(lambda u: run_unit(u, os.path.join(root, "u"), plug, lib, mode), units))
        if mode == "accessors":
            units.append(depr.run(os.path.join(root, "deprecated"), plug, generate, protos, Unit, sh, REPO))
    except Stop as e:
        print("CHECK-ERROR:", e)
        return 2
    scen, rc = [], 0
    for title in dict.fromkeys(u.space for u in units):
        us = [u for u in units if u.space == title]
        ms = [m for u in us for f in u.files for m in f.all()]
        s = {"name": title, "units": len(us), "schema_files": sum(len(u.files) for u in us), "messages": len(ms),
             "fields": sum(len(m.fields) for m in ms) + sum(1 for u in us for f in u.files for _ in f.all_exts()),
             "programs": sum(u.cases for u in us), "checks": sum(u.lines for u in us), "capped": False}
        scen.append(s)
        print("%-36s units=%d messages=%d fields=%d observations=%d" % (
            title, s["units"], s["messages"], s["fields"], s["checks"]))
    bad = [u for u in units if u.problem]
    cov = {"samples": [u.sample for u in units if u.sample][:: max(1, len(units) // 6)][:6], "scenarios": scen,
           "exhaustive": not bad, "oracle_checks": sum(u.lines for u in units),
           "evaluations": sum(u.cases for u in units),
           "distinct_nontrivial": sum(s["messages"] for s in scen),
           "rule": "every schema of the stated spaces; non-trivial: distinct messages of the schemas"}
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
          "assumptions": ["the installed protoc parses the schemas", "the installed clang compiles what is generated",
                          "schemas whose generated names collide, groups and proto3 optional fields are left out"],
          "wall_s": round(time.time() - t0, 2), "violations": len(bad)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    if bad:
        u = bad[0]
        rep = os.path.join(out, "replay.txt")
        with open(rep, "w") as f:
            for u in bad[:5]:
                f.write("property %s\nunit %s (%s)\n%s\n" % (prop, u.name, u.space, u.problem))
                f.write("replay: protoc --plugin=protoc-gen-protobluff=%s --protobluff_out=. on the schemas below, "
                        "compile with %s/%s/test.c\n\n" % (plug, os.path.join(root, "u"), u.name))
                for x in u.files:
                    f.write("---- %s\n%s\n" % (x.path, x.proto()[:20000]))
        print("%s: %s" % (bad[0].name, bad[0].problem[:1500]))
        print("VIOLATION property=%s replay=%s" % (prop, rep))
        return 1
    print("OK property=%s tier=%s wall=%.1fs" % (prop, tier, time.time() - t0))
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1], sys.argv[2], 1, sys.argv[3]))
