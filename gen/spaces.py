"""The schema spaces. Each yields units: (name, [File...], options)."""
import itertools
import struct
from model import *

TAGS = [1, 15, 16, 2047, 2048, 18999, 20000, 262143, 262144, 33554431, 33554432, 536870911]


def chunks(xs, n):
    for i in range(0, len(xs), n):
        yield xs[i:i + n]


def leaf():
    return Message("Leaf", [Field("v", 1, "uint32")])


def top(pre="T"):
    return Enum(pre, [(pre + "_B", 5), (pre + "_A", 0), (pre + "_N", -3)])


def ref_for(t, en, lf):
    return en if t == "enum" else lf if t == "message" else None


# ---- S1: every type under every label at every boundary tag -------------
def s1(thorough):
    kinds = [("optional", None, None), ("required", None, None), ("repeated", None, None),
             ("repeated", True, None), ("repeated", False, None), ("optional", None, "pick")]
    for syntax in ("proto2", "proto3"):
        msgs, en, lf = [], top(), leaf()
        if syntax == "proto3":
            en = Enum("T", [("T_Z", 0), ("T_B", 5), ("T_N", -3)])
        for t in TYPES:
            for k, (label, packed, one) in enumerate(kinds):
                if packed is not None and t not in PACKABLE:
                    continue
                if syntax == "proto3" and label == "required":
                    continue
                tags = TAGS
                fs = [Field("f%d" % i, g, t, label, ref_for(t, en, lf), packed, None, one)
                      for i, g in enumerate(tags)]
                msgs.append(Message("M%s%d" % (t.capitalize(), k), fs))
                # and on its own
                msgs.append(Message("O%s%d" % (t.capitalize(), k),
                                    [Field("only", 3, t, label, ref_for(t, en, lf), packed, None, one)]))
        # messages of several units may share a file only with the types they refer to
        for i, ms in enumerate(chunks(msgs, 12)):
            en2, lf2 = Enum(en.name, en.values), leaf()
            for m in ms:
                for f in m.fields:
                    f.ref = ref_for(f.type, en2, lf2)
            yield "types-%s-%d" % (syntax, i), [File("u.proto", "pk", ms + [lf2], [en2], syntax=syntax)], {}


# ---- S2: defaults ---------------------------------------------------------
def cesc(bs):
    return '"%s"' % "".join("\\%03o" % c for c in bs)


def s2_values(thorough):
    d = {}
    for t, b, signed in (("int32", 32, 1), ("sint32", 32, 1), ("sfixed32", 32, 1), ("int64", 64, 1), ("sint64", 64, 1),
                         ("sfixed64", 64, 1), ("uint32", 32, 0), ("fixed32", 32, 0), ("uint64", 64, 0),
                         ("fixed64", 64, 0)):
        lo, hi = (-(1 << b - 1), (1 << b - 1) - 1) if signed else (0, (1 << b) - 1)
        vs = {lo, lo + 1, hi, hi - 1, 0, 1, 9, 10}
        if signed:
            vs |= {-1, -10}
        for k in range(0, b, 1 if thorough else 5):
            vs |= {v for v in ((1 << k) - 1, 1 << k, -(1 << k), -(1 << k) - 1) if lo <= v <= hi}
        for k in range(1, 20, 1 if thorough else 4):
            vs |= {v for v in (10 ** k, 10 ** k - 1, -10 ** k) if lo <= v <= hi}
        d[t] = [(str(v), v & ((1 << b) - 1)) for v in sorted(vs)]
    d["bool"] = [("true", 1), ("false", 0)]
    fl = ["0", "-0", "-0.0", "1", "-1", "1.5", "-1.5", "0.1", "-0.1", "3.4028234663852886e38", "1.17549435e-38",
          "1.4e-45", "1e-40", "inf", "-inf", "nan", "16777216", "16777217", "123456789", "1e10", "1e-10", "5e-5",
          "100000", "1000000", "10000000", "0.3333333333333333", "9999999", "33554431", "2.5e-8", "1e20", "7e-7"]
    db = fl + ["1.7976931348623157e308", "2.2250738585072014e-308", "5e-324", "9007199254740993", "1e22", "1e23",
               "123456789012345678", "0.1234567890123456", "1e15", "1e16", "1e17", "1e21", "999999999999999",
               "1234567890123456", "1e-5", "1e100", "-1e-100", "2.2250738585072011e-308"]
    if thorough:
        for e in range(-45, 39):
            for m in ("1", "3", "7", "1.1", "9.9999999"):
                fl.append("%se%d" % (m, e))
        for e in range(-323, 308, 7):
            for m in ("1", "3", "7.000000000000001", "9.99999999999999999"):
                db.append("%se%d" % (m, e))
    # the neighbours of powers of ten and of two, where the number of digits that is needed changes
    n = 9 if thorough else 2
    for k in range(-38, 39, 1 if thorough else 3):
        for b in (fbits(10.0 ** k), fbits(2.0 ** (k * 3))):
            for u in sorted({*range(-n, n + 1), 1001, -1001, 77777}):
                if 0 < b + u < 0x7f800000:
                    fl.append("%.17g" % struct.unpack("<f", struct.pack("<I", b + u)))
    for k in range(-300, 301, 20 if thorough else 60):
        for b in (dbits(10.0 ** k), dbits(2.0 ** k)):
            for u in sorted({*range(-n, n + 1), 1234567890123}):
                db.append("%.17g" % struct.unpack("<d", struct.pack("<Q", b + u)))
    d["float"] = [(s, fbits(float(s))) for s in fl]
    d["double"] = [(s, dbits(float(s))) for s in db]
    crit = [c for c in b'"\\?%`\n\0\r\t\'17ax${/* <']
    strs = [b"", b"plain text", "é😀".encode(), b"x" * 300, b"??=", b"??/", b"??'", b"??(", b"??)", b"??!", b"??<",
            b"??>", b"??-", b"*/ int x; /*", b"`name`", b"\\", b"\\n", b'")', b"%s%n", b"\x7f7", b"\x001\x002"]
    strs += [bytes([c]) for c in range(128)]
    pairs = [bytes(p) for p in itertools.product(crit, repeat=2)]
    if thorough:
        pairs += [bytes(p) for p in itertools.product(b'"\\?`\n\x001a', repeat=3)]
    strs += pairs
    d["string"] = [(cesc(s), s) for s in strs]
    byts = strs + [bytes([c]) for c in range(128, 256)] + [bytes([c, 0x31]) for c in range(256)] + \
        [bytes(p) for p in itertools.product([0, 0xff, 0x80, 0x31, 0x5c], repeat=2)] + [bytes(range(256))]
    d["bytes"] = [(cesc(s), s) for s in byts]
    return d


def s2(thorough):
    vals = s2_values(thorough)
    for t, vs in vals.items():
        msgs = []
        for k, vv in enumerate(chunks(vs, 64)):
            msgs.append(Message("M%d" % k, [Field("d%d" % i, i + 1, t, default=v) for i, v in enumerate(vv)]))
        msgs.append(Message("Req", [Field("r%d" % i, i + 1, t, "required", default=v) for i, v in enumerate(vs[:40])]))
        base = Message("Base", [Field("own", 1, t, default=vs[0])], ranges="100 to max")
        exts = [Field("e%d" % i, 100 + i, t, default=v, extendee=base) for i, v in enumerate(vs[:40])]
        scope = Message("Scope", exts=[Field("s%d" % i, 300 + i, t, default=v, extendee=base)
                                       for i, v in enumerate(vs[:40])])
        yield "defaults-" + t, [File("u.proto", "pk", msgs + [base, scope], exts=exts)], {"brief": not thorough}
    # only one place in the file has a default
    for t in vals:
        v = vals[t][-1]
        fs = []
        for k, place in enumerate(("message", "nested", "deep", "ext", "nested-ext", "deep-ext")):
            pk = "q%d" % k
            path = "%s.proto" % pk
            base = Message("Base", [Field("own", 1, t)], ranges="100 to max")
            f = Field("d", 100 if "ext" in place else 7, t, default=v, extendee=base if "ext" in place else None)
            ms, exts = [base], []
            if place == "message":
                base.fields.append(f)
            elif place == "nested":
                base.nested.append(Message("N", [f]))
            elif place == "deep":
                base.nested.append(Message("N", nested=[Message("O", [f])]))
            elif place == "ext":
                exts = [f]
            elif place == "nested-ext":
                ms.append(Message("S", exts=[f]))
            else:
                ms.append(Message("S", nested=[Message("R", exts=[f])]))
            fs.append(File(path, pk, ms, exts=exts))
        yield "default-places-" + t, fs, {}


# ---- S3: declaration orders and oneof blocks --------------------------------
def blocks(n):
    """how n consecutive fields can be cut into plain fields and oneofs"""
    if n == 0:
        yield []
        return
    for rest in blocks(n - 1):
        yield [0] + rest
    for k in range(1, n + 1):
        for rest in blocks(n - k):
            yield [k] + rest


def s3(thorough):
    n = 5 if thorough else 4
    kinds = ["int32", "string", "enum", "message", "fixed64"]
    msgs = []
    for perm in itertools.permutations(range(1, n + 1)):
        for b in blocks(n):
            i, one, fs = 0, 0, []
            for k in b:
                for _ in range(max(k, 1)):
                    fs.append(Field("f%d" % i, perm[i] * 7, kinds[(perm[i] - 1) % 5],
                                    oneof="o%d" % one if k else None))
                    i += 1
                one += k > 0
            msgs.append(fs)
    per = 400 if thorough else 102
    for u, part in enumerate(chunks(msgs, per)):
        en, lf = top(), leaf()
        ms = []
        for i, fs in enumerate(part):
            for f in fs:
                f.ref = ref_for(f.type, en, lf)
            ms.append(Message("M%d" % i, fs))
        yield "orders-%d" % u, [File("u.proto", "pk", ms + [lf], [en])], {"brief": thorough and u % 4}


# ---- S4: enums ---------------------------------------------------------------
def s4(thorough):
    nums = [-2147483648, -1, 0, 1, 2147483647]
    orders = [p for r in ((1, 2, 3) if not thorough else (1, 2, 3, 4)) for p in itertools.product(nums, repeat=r)]
    if thorough:
        orders = [p for p in orders if len(p) < 4 or len(set(p)) == 4]

    def users(e, pre):
        vn = [v for v, _ in e.values]
        fs = [Field("o", 1, "enum", ref=e), Field("q", 2, "enum", "required", ref=e),
              Field("r", 3, "enum", "repeated", ref=e), Field("p", 4, "enum", "repeated", ref=e, packed=True)]
        fs += [Field("d%d" % i, 10 + i, "enum", ref=e, default=v) for i, v in enumerate(vn)]
        fs += [Field("x%d" % i, 20 + i, "enum", ref=e, oneof="pick") for i in range(2)]
        return fs
    for u, part in enumerate(chunks(orders, 40)):
        ms, ens = [], []
        for i, p in enumerate(part):
            where = i % 3
            if where == 0:
                e = Enum("E%d" % i, [("E%d_V%d" % (i, k), n) for k, n in enumerate(p)])
                ens.append(e)
                ms.append(Message("M%d" % i, users(e, "")))
            elif where == 1:
                e = Enum("E", [("V%d" % k, n) for k, n in enumerate(p)])
                ms.append(Message("M%d" % i, users(e, ""), enums=[e]))
            else:
                e = Enum("E", [("V%d" % k, n) for k, n in enumerate(p)])
                ms.append(Message("M%d" % i, [Field("w", 1, "enum", ref=e)],
                                  nested=[Message("N", nested=[Message("D", users(e, ""), enums=[e])])]))
        yield "enums-%d" % u, [File("u.proto", "pk", ms, ens)], {"brief": not thorough and u % 3 != 0}


# ---- S5: message graphs ---------------------------------------------------------
def s5(thorough):
    """A{B} and D (thorough: A{B{C}} and D), one reference each"""
    labels = [("optional", None), ("required", None), ("repeated", None), ("optional", "o")]
    names = ["A", "B", "C", "D"] if thorough else ["A", "B", "D"]
    opts = [None] + [(t, l) for t in names for l in labels]
    few = [None] + [(t, l) for t in names for l in (labels[0], labels[2])]
    cases = []
    for a in opts:
        for b in opts:
            for d in ([None, ("A", labels[0]), ("B", labels[2]), ("D", labels[0])] if not thorough else [None, ("A", labels[0])]):
                if thorough:
                    cases += [(a, b, c, d) for c in few]
                else:
                    cases.append((a, b, None, d))
    for u, part in enumerate(chunks(cases, 60)):
        ms = []
        for i, cs in enumerate(part):
            mk = {n: Message(n if n in "BC" else n + str(i), [Field("leaf", 3, "int32")]) for n in names}
            mk["A"].nested.append(mk["B"])
            if thorough:
                mk["B"].nested.append(mk["C"])
            en = Enum("K", [("X", 1), ("Y", 0)])
            mk["B"].enums.append(en)
            mk["B"].fields.append(Field("kind", 2, "enum", ref=en))
            mk["B"].fields.append(Field("tags", 9, "string", "repeated"))
            for n, c in zip("ABCD", cs):
                if c:
                    # lint: the reference has a smaller tag than the leaf in A, a larger one elsewhere
                    mk[n].fields.append(Field("ref", 1 if n == "A" else 12, "message", c[1][0], mk[c[0]], oneof=c[1][1]))
                    if c[1][1]:
                        mk[n].fields.append(Field("alt", 13, "bool", oneof=c[1][1]))
            ms += [mk["A"], mk["D"]]
        yield "graphs-%d" % u, [File("u.proto", "pk", ms)], {}
    # trees of submessages: fields in front of, between and behind the branches, in every order of the tags
    def tree(name, depth, perm, one):
        kids = [tree(name + c, depth - 1, perm, one) for c in "XY"] if depth else []
        fs = [Field("a", perm[0], "int32"), Field("b", perm[1], "string"), Field("c", perm[2], "uint64")]
        for i, k in enumerate(kids):
            fs.append(Field("xy"[i], perm[3 + i], "message", ref=k, oneof="o" if one else None))
        return Message(name, fs, kids)
    for i, perm in enumerate([(1, 3, 5, 2, 4), (5, 3, 1, 4, 2), (1, 2, 3, 4, 5), (3, 4, 5, 1, 2), (1, 4, 5, 2, 3)]):
        yield "trees-%d" % i, [File("t%d.proto" % n, "t%d" % n, [tree("T", 2 + k, perm, one)])
                               for n, (k, one) in enumerate(((0, False), (1, False), (0, True)) + (((2, False),) if thorough else ()))], {"brief": True}


# ---- S6: extensions ---------------------------------------------------------------
def s6(thorough):
    k = 0
    units = []
    for rel in ("same-file", "same-package", "other-package", "no-package"):
        for site in ("file", "message", "nested", "extendee"):
            for target in ("Base", "Inner"):
                k += 1
                bp = "" if rel == "no-package" else "b%d" % k
                ep = {"same-file": bp, "same-package": bp, "other-package": "x%d.y" % k, "no-package": ""}[rel]
                en, lf = top("T%d" % k), Message("Leaf%d" % k, [Field("v", 1, "uint32")])
                inner = Message("Inner", [Field("own", 2, "string")], ranges="10 to max")
                base = Message("Base%d" % k, [Field("own", 1, "int32"), Field("sub", 2, "message", ref=inner)],
                               nested=[inner], ranges="100 to 18999, 20000 to max")
                ext = base if target == "Base" else inner
                sub = Message("Own", [Field("w", 1, "sint32")])
                fs, tag = [], 100
                for i, t in enumerate(TYPES):
                    r = ref_for(t, en, lf)
                    fs.append(Field("o_" + t, tag + i, t, ref=r, extendee=ext))
                    fs.append(Field("r_" + t, tag + 40 + i, t, "repeated", ref=r, extendee=ext))
                    if t in PACKABLE:
                        fs.append(Field("p_" + t, tag + 80 + i, t, "repeated", ref=r, packed=True, extendee=ext))
                fs.append(Field("big", 536870911, "int32", default=("-5", 0xfffffffb), extendee=ext))
                fs.append(Field("first", 20000, "enum", ref=en, default=en.values[2][0], extendee=ext))
                for f in fs:
                    f.name += "_%d" % k
                fs.reverse()
                bfile, efile = "b%d.proto" % k, "e%d.proto" % k
                ms, exts = [], []
                if site == "file":
                    exts = fs
                    ms = [sub] if rel != "same-file" else []
                elif site == "message":
                    ms = [Message("Scope%d" % k, [Field("z", 1, "bool")], exts=fs)]
                elif site == "nested":
                    ms = [Message("Scope%d" % k, nested=[Message("T", exts=fs)])]
                else:
                    if rel == "same-file":
                        base.exts = fs
                    else:
                        # not the extendee itself then, but a message extending two types at once
                        oth = inner if ext is base else base
                        ms = [Message("Both%d" % k, exts=fs[:8] + [
                            Field("q", 150, "bool", extendee=oth)] + fs[8:16])]
                if ms and ms[0] is sub:
                    sub.name = "Own%d" % k
                if rel == "same-file":
                    units.append([File(bfile, bp, [base, lf] + ms, [en], exts)])
                else:
                    units.append([File(bfile, bp, [base, lf], [en]),
                                  File(efile, ep, ms, (), exts, [(bfile, False)])])
    for u, part in enumerate(chunks(units, 4)):
        yield "extensions-%d" % u, [f for fs in part for f in fs], {}
    # several files extend one message, in every order of their tags
    fs = []
    for i, perm in enumerate(itertools.permutations((100, 200, 300))):
        base = Message("Base", [Field("own", 1, "int32")], ranges="100 to 400")
        fs.append(File("c%d.proto" % i, "c%d" % i, [base]))
        for j, t in enumerate(perm):
            fs.append(File("c%d_%d.proto" % (i, j), "c%d.k%d" % (i, j), (), (),
                           [Field("x%d" % j, t, "int32", extendee=base, default=("7", 7)),
                            Field("y%d" % j, t + 1, "string", "repeated", extendee=base)],
                           [("c%d.proto" % i, False)]))
    yield "extension-chains", fs, {}


# ---- S7: files -------------------------------------------------------------------
def s7(thorough):
    names = ["a.proto", "a-b.proto", "dir/a.proto", "dir/b.proto", "a.b3.proto", "1.proto", "dir-x/sub/a_b2.proto",
             "a+c.proto", "UPPER.proto", "Mixed_Case.proto", "d/1.2-3.proto", "x y.proto", "proto/p.proto",
             # names that differ in punctuation or case alone
             "a_b.proto", "A.proto", "dir_a.proto", "_1.proto", "a/c.proto", "a__b.proto", "a-_b.proto", "upper.proto", "a_2db.proto",
             "x.proto.proto", "noext", "odd.protobuf", ".proto/h.proto", "proto.proto"]
    files, prev = [], None
    for i, n in enumerate(names):
        fs = [Field("v", 1, "int32", default=("%d" % i, i))]
        if prev is not None:
            fs.append(Field("prev", 2, "message", ref=prev.messages[0]))
            fs.append(Field("mode", 3, "enum", ref=prev.enums[0]))
        prev = File(n, "n%d" % i, [Message("M", fs)], [Enum("E", [("E_B", i), ("E_A", -i - 1)])],
                    imports=[(prev.path, False)] if prev else [])
        files.append(prev)
    yield "file-names", files, {}
    # packages
    files = []
    for i, p in enumerate(["", "a", "a.b", "a.b.c", "Upper.Case", "with_underscore.x1"]):
        e = Enum("Kind%d" % i, [("KIND%d_ONE" % i, 1), ("Kind%d_Two" % i, 0)])
        n = Message("InnerMost", [Field("FooBar", 1, "enum", ref=e), Field("snake_case_9", 2, "string")])
        m = Message("OuterType%d" % i, [Field("CamelField", 4, "message", ref=n), Field("list", 2, "message", "repeated", ref=n)],
                    nested=[n])
        files.append(File("p%d.proto" % i, p, [m], [e]))
    yield "packages", files, {}
    # one thing of a kind, alone in its file, at every depth and in every branch
    base = Message("Base", [Field("own", 1, "int32")], ranges="100 to max")
    files, n = [File("base.proto", "base", [base])], 0
    for depth in range(6 if thorough else 5):
        for branch in (0, 1, 2):
            for what in ("enum", "oneof", "ext", "ext-default", "default", "enum-field", "repeated"):
                if not depth and (branch or what in ("oneof", "default", "enum-field", "repeated")):
                    continue
                n += 1
                e = Enum("En", [("EN_A", 3), ("EN_B", -1)])
                x = Field("x%d" % n, 100 + n, "sint32", extendee=base, default=("9", 9) if what == "ext-default" else None)
                it = {"enum": dict(enums=[e]), "ext": dict(exts=[x]), "ext-default": dict(exts=[x]),
                      "oneof": dict(fields=[Field("p", 1, "int32", oneof="o"), Field("q", 2, "bool", oneof="o")]),
                      "default": dict(fields=[Field("d", 4, "string", default=('"dd"', b"dd"))]),
                      "enum-field": dict(fields=[Field("e", 4, "enum", ref=e)], enums=[e]),
                      "repeated": dict(fields=[Field("r", 4, "double", "repeated", packed=True)])}[what]
                if depth:
                    m = Message("Thing", **it)
                    for k in range(depth - 1):
                        sib = [Message("Other%d" % i) for i in range(2)]
                        m = Message("L%d" % k, nested=sib[:branch] + [m] + sib[branch:])
                    ms, en, xs = [Message("Before")] * (branch > 0) + [m] + [Message("Behind")] * (branch < 2), [], []
                else:
                    ms, en, xs = [], it.get("enums", []), it.get("exts", [])
                files.append(File("o%d.proto" % n, "o%d" % n, ms, en, xs, [("base.proto", False)] if "ext" in what else []))
    yield "alone", files, {}
    # public imports, nothing but ..., lite
    m0 = Message("M", [Field("v", 1, "int32")])
    f0 = File("w0.proto", "w0", [m0])
    f1 = File("w1.proto", "w1", [], imports=[("w0.proto", True)])
    f2 = File("w2.proto", "w2", [Message("M", [Field("m", 1, "message", ref=m0)])], imports=[("w1.proto", False)])
    f3 = File("w3.proto", "w3")
    f4 = File("w4.proto", "w4", [], [Enum("E", [("E_A", 1)])])
    f5 = File("w5.proto", "w5", [Message("Empty"), Message("Holder", nested=[Message("Empty")])])
    base = Message("B", ranges="5 to 9")
    f6 = File("w6.proto", "w6", [base])
    f7 = File("w7.proto", "w7", exts=[Field("only", 5, "string", default=('"a"', b"a"), extendee=base)],
              imports=[("w6.proto", False)])
    f8 = File("w8.proto", "", [])
    en = top()
    f9 = File("w9.proto", "w9", [Message("L", [Field("f_" + t + l[:3], i + 1, t, l, ref=en if t == "enum" else None)
                                              for i, (t, l) in enumerate(
                                                  (t, l) for t in SCALARS + ["enum"]
                                                  for l in ("optional", "required", "repeated"))] +
                                         [Field("o1", 90, "int32", oneof="o"), Field("o2", 80, "string", oneof="o")])],
              [en], lite=True)
    f10 = File("w10.proto", "w10", [Message("N", [Field("only_nested", 1, "message", ref=f5.messages[1].nested[0])])],
               imports=[("w5.proto", False)])
    yield "file-contents", [f0, f1, f2, f3, f4, f5, f6, f7, f8, f9, f10], {}


# ---- S8: maps, and what must not change a thing ---------------------------------------
def s8(thorough):
    """map fields of every key and value type; options, services, comments, reserved names"""
    keys = [t for t in SCALARS if t not in ("float", "double", "bytes")]
    for syntax in ("proto2", "proto3"):
        ms, en, lf = [], Enum("TE", [("TE_Z", 0), ("TE_P", 5), ("TE_N", -3)]), leaf()
        for k in keys:
            m = Message("Of_" + k)
            for i, t in enumerate(TYPES):
                if t in (keys[0], "message", "enum", "string", "bool", "double") or thorough or (i + keys.index(k)) % 4 == 0:
                    m.map(("by_%s_%s", "By%s%sX", "by__%s_%s_")[i % 3] % (k, t), (i + 1) * 1000 if i % 2 else 20 - i, k, t, ref_for(t, en, lf))
            m.fields.append(Field("plain", 7 + 16 * 4, "int32", oneof="o"))
            ms.append(m)
        # a map within a submessage, a map of the message it stands in
        sub = Message("Sub")
        sub.map("m", 3, "int32", "string")
        rec = Message("Rec")
        ms.append(Message("Deep", [Field("s", 2, "message", ref=sub)], [sub]))
        rec.map("children", 1, "string", "message", rec)
        ms.append(rec)
        yield "maps-" + syntax, [File("u.proto", "pk", ms + [lf], [en], syntax=syntax)], {"brief": True}
    for syntax in ("proto2", "proto3"):
        en, lf = Enum("TE", [("TE_Z", 0), ("TE_P", 5), ("TE_N", -3)]), leaf()
        inner = Message("Inner", [Field("v", 2, "sint32"), Field("w", 1, "enum", ref=en)])
        m = Message("M", [Field("a", 5, "string"), Field("b", 3, "int64"), Field("c", 9, "int32", "repeated"),
                          Field("d", 1, "message", ref=inner), Field("e", 8, "bytes", oneof="one"), Field("f", 4, "fixed32", oneof="one"),
                          Field("g", 11, "message", "repeated", lf)], [inner])
        m.fields[0].options = ['json_name = "q`tag`"', "ctype = CORD"]
        m.fields[1].options = ["jstype = JS_STRING", "(my.note) = 7"]
        m.fields[3].options = ["lazy = true", '(my.text) = "a \\"b\\" `c`"']
        m.extra = ["reserved 20, 30 to 40;", 'reserved "old", "older";', "option (my.flag) = true;", ";"]
        fo = File("opts.proto", "my", imports=[("google/protobuf/descriptor.proto", False)])
        fo.extra = ["extend google.protobuf.FieldOptions { optional int32 note = 50001; optional string text = 50002 [default = \"x\"]; }",
                    "extend google.protobuf.MessageOptions { optional bool flag = 50001; }",
                    "extend google.protobuf.FileOptions { repeated int32 nums = 50001; }"]
        f = File("u.proto", "pk", [m, lf], [en], syntax=syntax, imports=[("opts.proto", False), ("google/protobuf/any.proto", False)])
        f.extra = ['option java_package = "a.b";', "option cc_enable_arenas = true;", "option optimize_for = CODE_SIZE;", 'option objc_class_prefix = "X";',
                   "option (my.nums) = 1;", "option (my.nums) = 2;",
                   "message Req {}", "message Uses { %s google.protobuf.Any any = 1; }" % ("optional" if syntax == "proto2" else ""),
                   "service S { rpc Do (Req) returns (stream pk.M) { option deprecated = true; } rpc Done (stream Req) returns (.pk.Req); }"]
        f.comments = True
        yield "no-effect-" + syntax, [f, fo], {"also": ["google/protobuf/descriptor.proto", "google/protobuf/any.proto"]}


# ---- S9: sizes ---------------------------------------------------------------------
def s9(thorough):
    """how many fields, values, oneofs, members, levels, messages, imports; how long names and defaults are"""
    counts = [n for n in range(0, 41)] + [63, 64, 65, 100, 127, 128, 129, 255, 256, 257] + ([511, 512, 513, 1000] if thorough else [300])
    kinds = [(t, l) for t in ("int32", "string", "message", "enum", "double", "bytes", "sint64", "bool") for l in ("optional", "repeated", "required")]
    # fields, declared backwards, tags with gaps
    for u, part in enumerate(chunks(counts, 7)):
        en, lf = top(), leaf()
        ms = []
        for n in part:
            fs = [Field("f%d" % i, 2 * i + 1 + (i > 100) * 70000, t, l, ref_for(t, en, lf), l == "repeated" and i % 2 == 0 and t in PACKABLE or None)
                  for i, (t, l) in ((i, kinds[i * 7 % len(kinds)]) for i in range(n))]
            ms.append(Message("M%d" % n, fs[::-1] if n % 2 else fs[n // 2:] + fs[:n // 2]))
        yield "many-fields-%d" % u, [File("u.proto", "pk", ms + [lf], [en])], {"brief": u > 6}
    # enumeration values, shuffled
    ens, ms = [], []
    for n in counts[1:]:
        vs = [(("E%d_V%d" % (n, i)), (i * 7919 % 100003 - 50000) if n % 2 else n - i) for i in range(n)]
        e = Enum("E%d" % n, vs)
        ens.append(e)
        ms.append(Message("M%d" % n, [Field("o", 1, "enum", ref=e), Field("r", 2, "enum", "repeated", ref=e),
                                      Field("last", 3, "enum", ref=e, default=vs[-1][0])]))
    yield "many-values", [File("u.proto", "pk", ms, ens)], {"brief": True}
    # oneofs: n of them with two members, one with n members
    ms = []
    for n in [1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 65] + ([128, 257] if thorough else []):
        ms.append(Message("S%d" % n, [Field("m%d" % i, 3 * n - i, "uint32" if i % 2 else "string", oneof="o%d" % (i // 2)) for i in range(2 * n)] +
                          [Field("plain", 3 * n + 1, "int32")]))
        ms.append(Message("B%d" % n, [Field("first", 1, "int32")] + [Field("m%d" % i, 2 + (i * 5 % n if n % 5 else i), ("uint32", "bytes", "fixed64")[i % 3], oneof="one")
                                      for i in range(n)] + [Field("plain", n + 2, "int32")]))
    for u, part in enumerate(chunks(ms, 7)):
        yield "many-oneofs-%d" % u, [File("u.proto", "pk", part)], {"brief": True}
    # levels
    fs = []
    for n in ([2, 5, 9, 17] if not thorough else [2, 3, 5, 9, 17, 25]):
        inner = None
        for k in range(n, 0, -1):
            f = [Field("v%d" % k, 1, "uint32"), Field("s", 3, "string", default=('"%d"' % k, b"%d" % k))]
            e = Enum("K", [("K_A", k), ("K_B", -k)])
            f.append(Field("e", 4, "enum", ref=e, default="K_B"))
            if inner:
                f.append(Field("below", 2, "message", "repeated" if k % 3 == 0 else "optional", inner))
            inner = Message("L%d" % k, f, [inner] if inner else [], [e])
        fs.append(File("lv%d.proto" % n, "lv%d" % n, [inner]))
    yield "many-levels", fs, {}
    # names
    lens = list(range(1, 40)) + [63, 64, 65, 127, 128, 129, 200] + ([255, 256, 257, 400] if thorough else [])
    nm = lambda n, c: (c + "abcdefghijklmnopqrstuvwxyz_0123456789" * 12)[:n]
    ms, ens = [], []
    for i, n in enumerate(lens):
        e = Enum(nm(n, "E"), [("v_" + nm(n, "x") + "_%d" % i, 1), ("w_" + nm(n, "y") + "_%d" % i, 0)])
        ms.append(Message("N%d" % i, [Field(nm(n, "f"), 1, "int32"), Field(nm(n, "g"), 2, "string", oneof=nm(n, "o")),
                                      Field("x" + nm(n, "h"), 3, "enum", "repeated", ref=e)],
                          nested=[Message(nm(n, "M"), [Field("a", 1, "bool")])], enums=[e]))
    yield "long-names", [File("u.proto", "pk", ms[:24]), File("v.proto", nm(70, "p") + ".q" + nm(40, "r"), ms[24:])], {}
    # defaults
    vs = [bytes(97 + (i * 7 + n) % 26 for i in range(n)) for n in list(range(0, 131)) + [255, 256, 257, 511, 512, 1023, 1024, 1025, 4095]]
    for t in ("string", "bytes"):
        ms = [Message("D%d" % k, [Field("d%d" % i, i + 1, t, default=(cesc(v) if i % 2 else '"%s"' % v.decode(), v)) for i, v in enumerate(part)])
              for k, part in enumerate(chunks(vs, 20))]
        yield "long-defaults-" + t, [File("u.proto", "pk", ms)], {}
    # messages, extensions, files
    base = Message("Base", [Field("own", 1, "int32")], ranges="100 to max")
    ms = [Message("P%d" % i, [Field("v", 1 + i, "int32")] + ([Field("up", 400, "message", ref=None)] if i else [])) for i in range(130)]
    for i in range(1, 130):
        ms[i].fields[1].ref = ms[i - 1]
    exts = [Field("e%d" % i, 1000 - 3 * i, ("int32", "string", "sfixed64")[i % 3], ("optional", "repeated")[i % 2], extendee=base) for i in range(130)]
    yield "many-messages", [File("u.proto", "pk", ms), File("x.proto", "px", [base], exts=exts)], {"brief": True}
    fs = [File("i0.proto", "i0", [Message("M", [Field("v", 1, "int32")])])]
    for i in range(1, 40):
        fs.append(File("i%d.proto" % i, "i%d" % i, [Message("M", [Field("r%d" % k, 40 - k, "message", ref=fs[k].messages[0]) for k in range(i)])],
                       imports=[(fs[k].path, False) for k in range(i)]))
    yield "many-files", fs, {"brief": True}


SPACES = [("S1 types, labels and tags", s1), ("S2 default values", s2), ("S3 declaration orders and oneofs", s3),
          ("S4 enums", s4), ("S5 message graphs", s5), ("S6 extensions", s6), ("S7 files", s7),
          ("S8 maps and what has no effect", s8), ("S9 sizes", s9)]
