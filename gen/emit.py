"""Test programs for generated code, together with the lines they have to print."""
from model import *

PBTYPE = {t: i + 1 for i, t in enumerate(
    ["int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32",
     "sfixed64", "bool", "enum", "float", "double", "string", "bytes", "message"])}
LABEL = {"required": 1, "optional": 2, "repeated": 3, "oneof": 4}
ABSENT = 5


def lit(t, v):
    """C literal of a value"""
    if t in ("string", "bytes"):
        return 'S("%s", %d)' % ("".join("\\%03o" % c for c in v), len(v))
    if t == "float":
        return "f32(0x%xu)" % v
    if t == "double":
        return "f64(0x%xull)" % v
    return "(%s)0x%x%s" % (CTYPE[t], v, "ull" if BITS[t] == 64 else "u")


def arr(t, vs):
    return "(const %s[]){ %s }" % (CTYPE[t], ", ".join(lit(t, v) for v in vs))


def vals(f):
    if f.type == "enum":
        ns = [n & 0xffffffff for _, n in f.ref.values]
        return [ns[-1], ns[0]]
    return VALS[f.type]


def show(t, v):
    return "=" + (v.hex() if isinstance(v, bytes) else "%x" % v)


def isnan(t, v):
    return t == "float" and (v & 0x7fffffff) > 0x7f800000 or \
        t == "double" and (v & (1 << 63) - 1) > 0x7ff << 52


class Out:
    """C statements and expected lines of one case"""

    def __init__(s, name):
        s.name, s.c, s.want = name, [], []

    def add(s, code, *want):
        s.c.append(code)
        s.want += [(w, code) for w in want]

    def stmt(s, code):
        s.c.append(code)


# ---- descriptors (P23) ------------------------------------------------
def want_field(f):
    lab = LABEL["oneof" if f.oneof else f.label]
    head = "f %d %d %d %d " % (f.tag, PBTYPE[f.type], lab, f.is_packed())
    if f.oneof:
        mid = "o" + ",".join(str(m.tag) for m in f.msg.members(f.oneof))
    else:
        d = f.default_bits()
        mid = "-" if d is None else "d" + (d.hex() if isinstance(d, bytes) else "%x" % d)
        if d is not None and not isinstance(d, bytes) and isnan(f.type, d):
            def chk(line, head=head, f=f):
                p = line[len(head):].split(" ")
                return line.startswith(head) and p[0][0] == "d" and isnan(f.type, int(p[0][1:], 16)) \
                    and p[1].split(".")[-1] == f.name
            chk.text = head + "d<nan> " + f.name
            return chk
    if f.extendee is None:
        return head + mid + " " + f.name

    def ext(line):
        return line.startswith(head + mid + " ") and line.split(" ")[-1].split(".")[-1] == f.name
    ext.text = head + mid + " [scope.]" + f.name
    return ext


def refs(o, d, f):
    if f.type in ("enum", "message"):
        o.add("R(&%s_descriptor, %d, &%s_descriptor);" % (d, f.tag, f.ref.sym()), "i1")


def descriptors(file):
    for e in file.all_enums():
        o = Out("enum " + e.fullname())

        def chk(line, e=e):
            got = [(int(p.split(":")[0]), p.split(":")[1]) for p in line.split()[1:]]
            return [n for n, _ in got] == sorted(n for _, n in e.values) and \
                sorted(got) == sorted((n, v) for v, n in e.values)
        chk.text = "v (ascending) " + " ".join("%d:%s" % (n, v) for v, n in e.values)
        o.add("EN(&%s_descriptor);" % e.sym(), chk)
        o.add("CL((const long[]){ %s }, %d);" % (", ".join(e.const(v) for v, _ in e.values), len(e.values)),
              "c" + "".join(" %d" % n for _, n in e.values))
        yield o
    for m in file.all():
        o = Out("message " + m.fullname())
        fs = m.sorted()
        o.add("D(&%s_descriptor);" % m.sym(), "n%d" % len(fs), *[want_field(f) for f in fs])
        for f in fs:
            refs(o, m.sym(), f)
        for one in m.oneofs():
            f = m.members(one)[0]
            o.add("I(pb_field_descriptor_oneof(pb_descriptor_field_by_tag(&%s_descriptor, %d)) == "
                  "&%s_%s_descriptor && %s_%s_descriptor.descriptor == &%s_descriptor);" %
                  (m.sym(), f.tag, m.sym(), one.lower(), m.sym(), one.lower(), m.sym()), "i1")
        if fs:
            o.add("CL((const long[]){ %s }, %d);" % (", ".join(f.const() for f in fs), len(fs)),
                  "c" + "".join(" %d" % f.tag for f in fs))
        yield o
    for x in file.all_exts():
        o = Out("extension %s of %s" % (x.name, x.extendee.fullname()))
        o.add("field(pb_descriptor_field_by_tag(&%s_descriptor, %d));" % (x.extendee.sym(), x.tag), want_field(x))
        refs(o, x.extendee.sym(), x)
        yield o


# ---- accessors (P24) --------------------------------------------------
class Jour:
    def __init__(s, msg, state):
        s.msg, s.state = msg, state
        s.exts = ()
        s.text = "j<%s>" % (state,)

    def __call__(s, line):
        try:
            return line[:1] == "j" and parse(s.msg, bytes.fromhex(line[1:]), s.exts) == s.state
        except (Bad, ValueError):
            return False


class Model:
    """what a message holds, as {tag: [values]}"""

    def __init__(s, msg):
        s.msg, s.st = msg, {}

    def at(s, path, create=False):
        st = s.st
        for f in path:
            if f.tag not in st:
                if not create:
                    return None
                s.clear_group(st, f)
                st[f.tag] = [{}]
            st = st[f.tag][-1]
        return st

    @staticmethod
    def clear_group(st, f):
        if f.oneof:
            for g in f.msg.members(f.oneof):
                st.pop(g.tag, None)

    def put(s, path, f, v):
        st = s.at(path, True)
        if f.label == "repeated":
            st.setdefault(f.tag, []).append(v)
        else:
            s.clear_group(st, f)
            st[f.tag] = [v]

    def erase(s, path, f):
        st = s.at(path)
        if st is not None:
            s.clear_group(st, f)
            st.pop(f.tag, None)

    def has(s, path, f):
        st = s.at(path)
        return int(st is not None and f.tag in st)

    def get(s, path, f):
        st = s.at(path)
        if st is not None and f.tag in st:
            return show(f.type, st[f.tag][-1])
        d = f.default_bits()
        if d is None:
            return "e%d" % ABSENT
        if isinstance(d, int) and isnan(f.type, d):
            def chk(line):
                return line[:1] == "=" and isnan(f.type, int(line[1:], 16))
            chk.text = "=<nan>"
            return chk
        if path and st is None:      # default of a field in an absent submessage
            def either(line):
                return line in ("e%d" % ABSENT, show(f.type, d))
            either.text = "e5 or " + show(f.type, d)
            return either
        return show(f.type, d)

    def copy(s):
        import copy
        return copy.deepcopy(s.st)


def get_code(pre, f, acc):
    if f.type in ("string", "bytes"):
        return "{ pb_string_t v; pb_error_t e = %s_get_%s(&m, &v); PS(e, &v); }" % (pre, acc)
    return "{ %s v; memset(&v, 0xa5, sizeof v); pb_error_t e = %s_get_%s(&m, &v); PN(e, &v, sizeof v); }" % (
        CTYPE[f.type], pre, acc)


def leaf_of(msg):
    """a singular scalar of a message, to write into it"""
    for f in msg.sorted():
        if f.type != "message" and f.label != "repeated":
            return f
    return None


def run_field(o, root, path, f, pre, acc, keep):
    """every accessor of one field; path: the submessages the accessor goes through"""
    mo = Model(root)
    J = lambda: o.add("J(&j);", Jour(root, mo.copy()))
    has = lambda: f.label == "required" and not f.oneof or \
        o.add("I(%s_has_%s(&m));" % (pre, acc), "i%d" % mo.has(path, f))
    opt = f.label == "optional" or f.oneof
    o.stmt("{ pb_journal_t j = pb_journal_create_empty(); pb_message_t m = %s_create(&j);" % root.sym())
    o.add("I(pb_message_valid(&m));", "i1")
    has()
    if f.type == "message":
        lf = leaf_of(f.ref)
        for n in range(2):
            o.stmt("{ pb_message_t s = %s_create_%s(&m);" % (pre, acc))
            o.add("I(pb_message_valid(&s) && pb_message_descriptor(&s) == &%s_descriptor);" % f.ref.sym(), "i1")
            if f.label == "repeated" or not mo.has(path, f):
                mo.put(path, f, {})
            J()
            if lf is not None:
                v = vals(lf)[n]
                o.add("E(%s_put_%s(&s, %s));" % (f.ref.sym(), lf.acc(), arr(lf.type, [v])), "e0")
                sub = mo.at(path)[f.tag][-1]
                mo.clear_group(sub, lf)
                sub[lf.tag] = [v]
                J()
            o.stmt("%s_destroy(&s); }" % f.ref.sym())
            has()
        if f.label == "repeated":
            o.add("{ pb_cursor_t c = %s_create_%s_cursor(&m); int n = 0; "
                  "if (pb_cursor_valid(&c)) do n++; while (pb_cursor_next(&c)); I(n); pb_cursor_destroy(&c); }" %
                  (pre, acc), "i2")
    else:
        single = f.label != "repeated"
        if single:
            o.add(get_code(pre, f, acc), mo.get(path, f))
        for v in vals(f):
            o.add("E(%s_put_%s(&m, %s));" % (pre, acc, arr(f.type, [v])), "e0")
            mo.put(path, f, v)
            J()
            has()
            if single:
                o.add(get_code(pre, f, acc), mo.get(path, f))
        if f.type == "enum":
            for v, n in f.ref.values:
                a = acc + "_" + v.lower()
                o.add("E(%s_put_%s(&m));" % (pre, a), "e0")
                mo.put(path, f, n & 0xffffffff)
                J()
                if single:
                    for w, k in f.ref.values:
                        o.add("I(%s_has_%s_%s(&m));" % (pre, acc, w.lower()), "i%d" % (k == n))
    if keep is not None and not path:
        # next to another field: neither may disturb the other
        g, gacc = keep
        v = vals(g)[0]
        o.add("E(%s_put_%s(&m, %s));" % (root.sym(), gacc, arr(g.type, [v])), "e0")
        mo.put([], g, v)
        J()
        has()
    if opt:
        for n in range(2):
            o.add("E(%s_erase_%s(&m));" % (pre, acc), "e0")
            mo.erase(path, f)
            J()
            has()
    if f.oneof and not path:
        o.add("I(%s_case_%s(&m));" % (root.sym(), f.oneof), "i%d" % (
            [g.tag for g in root.members(f.oneof) if g.tag in mo.st] + [0])[0])
    o.stmt("%s_destroy(&m); pb_journal_destroy(&j); }" % root.sym())


def traced(msg, limit=3):
    """the nested accessors the documentation promises: paths through singular
    fields whose type is declared inside the message that has them"""
    def inside(f):
        m, t = f.msg, f.ref.parent
        while t is not None and t is not m:
            t = t.parent
        return t is m

    def rec(path):
        f = path[-1]
        if f.type != "message" or f.label == "repeated" or not inside(f) or len(path) >= limit + 1:
            return
        for g in f.ref.fields:
            yield path, g
            if g.type == "message":
                yield from rec(path + [g])
    for f in msg.fields:
        yield from rec([f])


def oneof_case(o, msg, one):
    """every ordered pair of members: the case follows, the others are gone
    (of large oneofs: every member next to its neighbour and the first one)"""
    s = msg.sym()
    every = msg.members(one)
    for a in every:
        near = ms = every
        if len(every) > 10:
            k = every.index(a)
            near = [every[(k + 1) % len(every)], every[0]]
        for b in near:
            if len(every) > 10:
                ms = list(dict.fromkeys([a, b, every[-1], every[k - 1]]))
            mo = Model(msg)
            o.stmt("{ pb_journal_t j = pb_journal_create_empty(); pb_message_t m = %s_create(&j);" % s)
            o.add("I(%s_case_%s(&m));" % (s, one), "i0")
            for f in (a, b):
                if f.type == "message":
                    o.add("{ pb_message_t s = %s_create_%s(&m); I(pb_message_valid(&s)); %s_destroy(&s); }" % (
                        s, f.acc(), f.ref.sym()), "i1")
                    if not mo.has([], f):
                        mo.put([], f, {})
                else:
                    o.add("E(%s_put_%s(&m, %s));" % (s, f.acc(), arr(f.type, [vals(f)[0]])), "e0")
                    mo.put([], f, vals(f)[0])
                o.add("I(%s_case_%s(&m));" % (s, one), "i%d" % f.tag)
            for g in ms:
                o.add("I(%s_has_%s(&m));" % (s, g.acc()), "i%d" % (g is b))
            o.add("J(&j);", Jour(msg, mo.copy()))
            o.add("E(%s_erase_%s(&m));" % (s, a.acc()), "e0")
            o.add("I(%s_case_%s(&m));" % (s, one), "i0")
            o.stmt("%s_destroy(&m); pb_journal_destroy(&j); }" % s)


class OneOf:
    def __init__(s, ws):
        s.ws, s.text = ws, " or ".join(ws)

    def __call__(s, line):
        return line in s.ws


def sub_encoder(f, n):
    """C and bytes of an encoder for a submessage"""
    lf = leaf_of(f.ref)
    if lf is None:
        return "%s_encoder_create()" % f.ref.sym(), "", b""
    v = vals(lf)[n]
    return "%s_encoder_create()" % f.ref.sym(), "E(%s_encode_%s(&s[%d], %s));" % (
        f.ref.sym(), lf.acc(), n, arr(lf.type, [v])), record(lf, v)


def coders(msg):
    """encoder and decoder of one message"""
    o = Out("coders " + msg.fullname())
    s = msg.sym()
    whole, seen = b"", set()
    for k, f in enumerate(msg.sorted()):
        a = f.acc()
        ctor = "%s_encoder_create()" % s if k % 2 else "%s_encoder_create_with_allocator(&allocator)" % s
        o.stmt("{ pb_encoder_t e = %s;" % ctor)
        n = 2 if f.label == "repeated" else 1
        tail = "" if f.label != "repeated" else ", %d" % n
        if f.type == "message":
            subs = [sub_encoder(f, i) for i in range(n)]
            o.stmt("pb_encoder_t s[] = { %s };" % ", ".join(x[0] for x in subs))
            for x in subs:
                if x[1]:
                    o.add(x[1], "e0")
            want = b"".join(record(f, x[2]) for x in subs)
            o.add("E(%s_encode_%s(&e, s%s));" % (s, a, tail), "e0")
            o.add("EB(&e);", "b" + want.hex())
            for i in range(n):
                o.stmt("%s_encoder_destroy(&s[%d]);" % (f.ref.sym(), i))
        else:
            vs = vals(f)[:n]
            want = enc_list(f, vs)
            o.add("E(%s_encode_%s(&e, %s%s));" % (s, a, arr(f.type, vs), tail), "e0")
            o.add("EB(&e);", "b" + want.hex())
        o.stmt("%s_encoder_destroy(&e); }" % s)
        if f.type == "enum":
            for v, num in f.ref.values:
                w = ["b" + record(f, num & 0xffffffff).hex()]
                if f.is_packed():     # a single value may be written either way
                    w.append("b" + enc_list(f, [num & 0xffffffff]).hex())
                o.stmt("{ pb_encoder_t e = %s_encoder_create();" % s)
                o.add("E(%s_encode_%s_%s(&e));" % (s, a, v.lower()), "e0")
                o.add("EB(&e);", OneOf(w))
                o.stmt("%s_encoder_destroy(&e); }" % s)
        if not f.oneof or f.oneof not in seen:
            seen.add(f.oneof)
            whole += want
    # decode everything again
    lines = []

    def walk(m, data):
        by = {f.tag: f for f in m.fields}
        i = 0
        while i < len(data):
            k, i = rd_varint(data, i)
            f = by[k >> 3]
            if f.is_packed():
                body, i = rd("bytes", data, i)
                p = 0
                while p < len(body):
                    v, p = rd(f.type, body, p)
                    lines.append("t%d %s" % (f.tag, show(f.type, v)))
                continue
            v, i = rd(f.type, data, i)
            if f.type == "message":
                lines.append("t%d (" % f.tag)
                walk(f.ref, v)
                lines.append(")")
            else:
                lines.append("t%d %s" % (f.tag, show(f.type, v)))
    walk(msg, whole)
    o.stmt("{ static const uint8_t d[] = { %s }; pb_buffer_t b = pb_buffer_create(d, %d); "
           "pb_decoder_t c = %s_decoder_create(&b);" % (", ".join(map(str, whole)) or "0", len(whole), s))
    o.add("E(%s_decode(&c, H, NULL));" % s, *(lines + ["e0"]))
    o.stmt("%s_decoder_destroy(&c); pb_buffer_destroy(&b); }" % s)
    # and read it through the accessors
    if not msg.file.lite:
        st = parse(msg, whole)
        mo = Model(msg)
        mo.st = st
        o.stmt("{ static const uint8_t d[] = { %s }; pb_journal_t j = pb_journal_create(d, %d); "
               "pb_message_t m = %s_create(&j);" % (", ".join(map(str, whole)) or "0", len(whole), s))
        for f in msg.sorted():
            if f.label != "required" or f.oneof:
                o.add("I(%s_has_%s(&m));" % (s, f.acc()), "i%d" % mo.has([], f))
            if f.type != "message" and f.label != "repeated":
                o.add(get_code(s, f, f.acc()), mo.get([], f))
        o.stmt("%s_destroy(&m); pb_journal_destroy(&j); }" % s)
    return o


def accessors(file, brief=False):
    for m in file.all():
        if m.fields:
            yield coders(m)
        if file.lite:
            continue
        keep = [(f, f.acc()) for f in m.fields if f.type != "message" and f.label != "repeated" and not f.oneof]
        if not brief:
            o = Out("accessors " + m.fullname())
            for f in m.fields:
                k = next((x for x in keep if x[0] is not f), None)
                run_field(o, m, [], f, m.sym(), f.acc(), k)
            yield o
        o = Out("oneofs " + m.fullname())
        for one in m.oneofs():
            oneof_case(o, m, one)
        if o.c:
            yield o
        o = Out("nested accessors " + m.fullname())
        for path, f in traced(m):
            run_field(o, m, path, f, m.sym(), "_".join([g.acc() for g in path] + [f.acc()]), None)
        if o.c:
            yield o
    if not file.lite:
        for x in file.all_exts():
            o = Out("extension accessors %s.%s" % (x.extendee.fullname(), x.acc()))
            keep = next(((f, f.acc()) for f in x.extendee.fields
                         if f.type != "message" and f.label != "repeated" and not f.oneof), None)
            run_field(o, x.extendee, [], x, x.extendee.sym(), x.acc(), keep)
            yield o


def program(headers, outs, nfun=None):
    """-> C text, expected lines with their case"""
    c = ['#include "%s"' % h for h in headers]
    c.append('#include "gentest.h"')
    c.append("U pb_allocator_t allocator = { .proc = { al, re, fr } };")
    want = []
    calls = []
    for i, o in enumerate(outs):
        c.append("static void t%d(void) { /* %s */" % (i, o.name))
        c += ["  " + x for x in o.c]
        c.append("}")
        calls.append("  printf(\"M %d\\n\"); t%d();" % (i, i))
        want.append(("M %d" % i, o.name, ""))
        want += [(w, o.name, code) for w, code in o.want]
    c.append("int main(void) {\n  setvbuf(stdout, NULL, _IOLBF, 1 << 16);")
    c += calls
    c.append("  return 0;\n}")
    return "\n".join(c) + "\n", want
