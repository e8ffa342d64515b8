"""Deprecations: which of the generated functions does the compiler flag?"""
import os, re
from model import *


def schema():
    en = Enum("E", [("E_A", 0), ("E_B", 1), ("E_C", 2)], depvals=("E_B",))
    eo = Enum("F", [("F_A", 0), ("F_B", 1)], deprecated=True)
    def fields(lf):
        fs, tag = [], 1
        for label in ("optional", "required", "repeated"):
            for t, r in (("int32", None), ("string", None), ("enum", en), ("message", lf)):
                for dep in (False, True):
                    fs.append(Field("%s_%s%s" % (label[:3], t, "_dep" if dep else ""), tag, t, label, r, deprecated=dep))
                    tag += 1
            fs.append(Field("%s_oldenum" % label[:3], tag, "enum", label, eo))
            tag += 1
        fs.append(Field("one_a", 50, "int32", oneof="o"))
        fs.append(Field("one_b", 51, "int32", oneof="o", deprecated=True))
        return fs
    lf = Message("Leaf", [Field("v", 1, "int32")])
    sub = Message("Sub", [])
    top = Message("Top", [Field("sub", 200, "message", ref=sub), Field("sub_dep", 201, "message", ref=sub, deprecated=True)],
                  nested=[sub])
    sub.fields = fields(lf)
    top.fields += fields(lf)
    old = Message("Old", [Field("v", 1, "int32"), Field("w", 2, "int32", deprecated=True)], deprecated=True)
    base = Message("Base", ranges="10 to 40")
    exts = [Field("x", 10, "int32", extendee=base), Field("y", 11, "int32", extendee=base, deprecated=True),
            Field("ye", 12, "enum", ref=en, extendee=base)]
    return [File("dep.proto", "dp", [top, lf, old, base], [en, eo], exts)]


def calls(file):
    """(function call, flagged)"""
    M, C, D, EN = "&m", "&c", "&d", "&e"
    for m in file.all():
        s = m.sym()
        for c in ("%s_create(&j)", "%s_destroy(&m)", "%s_decoder_create(&b)", "%s_decode(&d, 0, 0)",
                  "%s_decoder_destroy(&d)", "%s_encoder_create()", "%s_encoder_create_with_allocator(0)",
                  "%s_encoder_destroy(&e)"):
            yield c % s, m.deprecated

        def field(pre, acc, f, dep, path):
            if f.label != "required" or f.oneof:
                yield "%s_has_%s(&m)" % (pre, acc), dep
            if f.label == "optional":
                yield "%s_erase_%s(&m)" % (pre, acc), dep
            if not path and f.extendee is None:
                yield "%s_encode_%s(&e, 0%s)" % (pre, acc, ", 1" if f.label == "repeated" else ""), dep
            if f.type == "message":
                yield "%s_create_%s(&m)" % (pre, acc), dep
                if f.label == "repeated":
                    yield "%s_create_%s_cursor(&m)" % (pre, acc), dep
            else:
                if f.label != "repeated":
                    yield "%s_get_%s(&m, 0)" % (pre, acc), dep
                yield "%s_put_%s(&m, 0)" % (pre, acc), dep
            if f.type == "enum":
                for v, _ in f.ref.values:
                    dv = dep or f.ref.deprecated or v in f.ref.depvals
                    a = acc + "_" + v.lower()
                    yield "%s_has_%s(&m)" % (pre, a), dv
                    yield "%s_put_%s(&m)" % (pre, a), dv
                    if not path and f.extendee is None:
                        yield "%s_encode_%s(&e)" % (pre, a), dv
        for f in m.fields:
            yield from field(s, f.acc(), f, f.deprecated, [])
            if f.type == "message" and f.label != "repeated" and f.ref.parent is m:
                for g in f.ref.fields:
                    yield from field(s, f.acc() + "_" + g.acc(), g, f.deprecated or g.deprecated, [f])
        for o in m.oneofs():
            yield "%s_case_%s(&m)" % (s, o), False
    for x in file.all_exts():
        yield from field(x.extendee.sym(), x.acc(), x, x.deprecated, [])


def run(d, plug, generate, protos, Unit, sh, repo):
    unit = Unit("S8 deprecations", "deprecated", schema(), {})
    protos(unit, d)
    unit.problem = generate(unit, d, plug)
    if unit.problem:
        return unit
    cs = list(calls(unit.files[0]))
    head = ['#include "dep.pb.h"', "void t(void) { pb_journal_t j; pb_message_t m; pb_buffer_t b; pb_decoder_t d; pb_encoder_t e;"]
    with open(os.path.join(d, "dep.c"), "w") as f:
        f.write("\n".join(head + ["  (void)%s;" % c for c, _ in cs] + ["}"]) + "\n")
    r = sh(["clang", "-std=c99", "-fsyntax-only", "-Wno-everything", "-Wdeprecated-declarations", "-ferror-limit=0", "-I", d,
            "-I", repo + "/include", os.path.join(d, "dep.c")])
    if r.returncode:
        unit.problem = "does not compile\n" + r.stdout[:3000]
        return unit
    flagged = {int(x) for x in re.findall(r"dep\.c:(\d+):\d+: warning: '\w+' is deprecated", r.stdout)}
    for i, (c, dep) in enumerate(cs):
        unit.lines += 1
        if (len(head) + 1 + i in flagged) != dep:
            unit.problem = "%s is %sflagged as deprecated" % (c, "not " if dep else "")
            return unit
    unit.cases = 1
    unit.sample = "deprecated: " + "; ".join("%s %s" % (c, "flagged" if x else "-") for c, x in cs[:200:25])
    return unit
