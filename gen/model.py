"""Schema model for the generator checks: schemas, their .proto text, the
expected descriptors, and a reference encoder that shares nothing with the
library or the generator."""
import struct

SCALARS = ["int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64",
           "sfixed32", "sfixed64", "bool", "float", "double", "string", "bytes"]
TYPES = SCALARS + ["enum", "message"]
PACKABLE = [t for t in TYPES if t not in ("string", "bytes", "message")]
CTYPE = {"int32": "int32_t", "int64": "int64_t", "uint32": "uint32_t", "uint64": "uint64_t",
         "sint32": "int32_t", "sint64": "int64_t", "fixed32": "uint32_t", "fixed64": "uint64_t",
         "sfixed32": "int32_t", "sfixed64": "int64_t", "bool": "uint8_t", "float": "float",
         "double": "double", "string": "pb_string_t", "bytes": "pb_string_t",
         "enum": "pb_enum_t", "message": "pb_encoder_t"}
BITS = {"int32": 32, "uint32": 32, "sint32": 32, "fixed32": 32, "sfixed32": 32, "enum": 32, "float": 32,
        "int64": 64, "uint64": 64, "sint64": 64, "fixed64": 64, "sfixed64": 64, "double": 64, "bool": 8}
WIRE = {"fixed32": 5, "sfixed32": 5, "float": 5, "fixed64": 1, "sfixed64": 1, "double": 1,
        "string": 2, "bytes": 2, "message": 2}

# values are kept as bit patterns (ints) or bytes; two per type, far apart
VALS = {"int32": [0x80000000, 0x7fffffff], "int64": [1 << 63, (1 << 63) - 1], "uint32": [0xffffffff, 300],
        "uint64": [(1 << 64) - 1, 1 << 35], "sint32": [0x80000000, 0x7fffffff],
        "sint64": [1 << 63, (1 << 63) - 1], "fixed32": [0xfffefdfc, 7], "fixed64": [0xfffefdfcfbfaf9f8, 9],
        "sfixed32": [0x80000001, 0x7ffffffe], "sfixed64": [(1 << 63) + 1, 5], "bool": [1, 0],
        "float": [0xff7fffff, 0x3f9d70a4], "double": [0xffefffffffffffff, 0x3ff3ae147ae147ae],
        "string": [b"hi", b""], "bytes": [b"\x00\xff\x80", b"x" * 130]}


def fbits(x):
    try:
        return struct.unpack("<I", struct.pack("<f", x))[0]
    except OverflowError:
        return 0x7f800000 if x > 0 else 0xff800000


def dbits(x):
    return struct.unpack("<Q", struct.pack("<d", x))[0]


class Enum:
    def __init__(s, name, values, parent=None, deprecated=False, depvals=()):
        s.name, s.values, s.parent, s.deprecated, s.depvals = name, values, parent, deprecated, depvals
        s.file = None

    def full(s):
        return (s.parent.fullname() if s.parent else s.file.package and s.file.package or "")

    def fullname(s):
        p = s.full()
        return p + "." + s.name if p else s.name

    def sym(s):
        return s.fullname().replace(".", "_").lower()

    def const(s, v):
        p = s.full()
        return ((p + "." + v) if p else v).replace(".", "_").upper() + "_V"

    def num(s, v):
        return dict(s.values)[v]


class Field:
    def __init__(s, name, tag, type, label="optional", ref=None, packed=None, default=None,
                 oneof=None, deprecated=False, extendee=None):
        s.name, s.tag, s.type, s.label, s.ref = name, tag, type, label, ref
        s.packed, s.default, s.oneof, s.deprecated, s.extendee = packed, default, oneof, deprecated, extendee
        s.options = []     # that must not change what is generated
        s.msg = None       # the containing message
        s.scope = None     # for extensions: the message they are declared in
        s.file = None

    def is_packed(s):
        if s.label != "repeated" or s.type not in PACKABLE:
            return False
        if s.packed is None:
            return s.file.syntax == "proto3"
        return s.packed

    def holder(s):
        return s.extendee or s.msg

    def acc(s):
        """field part of the accessor names"""
        n = s.name
        if s.extendee is not None:
            if s.scope is not None:
                f = s.scope.fullname()
                pk = s.file.package
                if pk:
                    f = f[len(pk) + 1:]
                n = f + "." + n
            return "X_" + n.replace(".", "_").lower()
        return n.lower()

    def const(s):
        return (s.msg.fullname() + "." + s.name).replace(".", "_").upper() + "_T"

    def default_bits(s):
        """expected default: None, int bits or bytes"""
        if s.oneof or s.label == "repeated":
            return None
        if s.default is not None:
            if s.type == "enum":
                return s.ref.num(s.default) & 0xffffffff
            return s.default[1]
        if s.type == "enum" and s.label == "optional":
            return s.ref.values[0][1] & 0xffffffff
        return None


class Message:
    def __init__(s, name, fields=(), nested=(), enums=(), exts=(), ranges="", deprecated=False):
        s.name, s.fields, s.nested, s.enums, s.exts = name, list(fields), list(nested), list(enums), list(exts)
        s.ranges, s.deprecated = ranges, deprecated
        s.map_entry = False      # the type of a map field: written as the field alone
        s.extra = []             # lines of text that must not change what is generated
        s.parent = None
        s.file = None

    def fullname(s):
        if s.parent:
            return s.parent.fullname() + "." + s.name
        return s.file.package + "." + s.name if s.file.package else s.name

    def sym(s):
        return s.fullname().replace(".", "_").lower()

    def sorted(s):
        return sorted(s.fields, key=lambda f: f.tag)

    def oneofs(s):
        res = []
        for f in s.fields:
            if f.oneof and f.oneof not in res:
                res.append(f.oneof)
        return res

    def members(s, oneof):
        return [f for f in s.sorted() if f.oneof == oneof]

    def map(s, name, tag, key, value, ref=None):
        """add a map field"""
        e = Message("".join(w[:1].upper() + w[1:] for w in name.split("_")) + "Entry",
                    [Field("key", 1, key), Field("value", 2, value, ref=ref)])
        e.map_entry = True
        s.nested.append(e)
        s.fields.append(Field(name, tag, "message", "repeated", e))

    def link(s, file, parent):
        s.file, s.parent = file, parent
        for f in s.fields:
            f.msg, f.file = s, file
        for e in s.enums:
            e.parent, e.file = s, file
        for x in s.exts:
            x.scope, x.file = s, file
        for n in s.nested:
            n.link(file, s)

    def all(s):
        yield s
        for n in s.nested:
            yield from n.all()


class File:
    def __init__(s, path, package="", messages=(), enums=(), exts=(), imports=(), syntax="proto2", lite=False):
        s.path, s.package, s.messages, s.enums, s.exts = path, package, list(messages), list(enums), list(exts)
        s.imports, s.syntax, s.lite = list(imports), syntax, lite
        s.extra = []
        s.comments = False
        for m in s.messages:
            m.link(s, None)
        for e in s.enums:
            e.file, e.parent = s, None
        for x in s.exts:
            x.file, x.scope = s, None

    def base(s):
        return s.path[:-6] if s.path.endswith(".proto") else s.path

    def all(s):
        for m in s.messages:
            yield from m.all()

    def all_enums(s):
        yield from s.enums
        for m in s.all():
            yield from m.enums

    def all_exts(s):
        yield from s.exts
        for m in s.all():
            yield from m.exts

    # ---- .proto text --------------------------------------------------
    def proto(s):
        o = ['syntax = "%s";' % s.syntax]
        if s.package:
            o.append("package %s;" % s.package)
        for path, public in s.imports:
            o.append('import %s"%s";' % ("public " if public else "", path))
        if s.lite:
            o.append("option optimize_for = LITE_RUNTIME;")
        o += s.extra
        for e in s.enums:
            s._enum(o, e, "")
        for m in s.messages:
            s._msg(o, m, "")
        s._exts(o, s.exts, "")
        if s.comments:
            o = ["/* before \"*\\/ ` `tag` */ %s // behind `name` \\" % x for x in o]
        return "\n".join(o) + "\n"

    def _enum(s, o, e, ind):
        o.append("%senum %s {" % (ind, e.name))
        nums = [n for _, n in e.values]
        if len(set(nums)) != len(nums):
            o.append(ind + "  option allow_alias = true;")
        if e.deprecated:
            o.append(ind + "  option deprecated = true;")
        for v, n in e.values:
            o.append("%s  %s = %d%s;" % (ind, v, n, " [deprecated = true]" if v in e.depvals else ""))
        o.append(ind + "}")

    def _msg(s, o, m, ind):
        o.append("%smessage %s {" % (ind, m.name))
        if m.deprecated:
            o.append(ind + "  option deprecated = true;")
        for e in m.enums:
            s._enum(o, e, ind + "  ")
        o += [ind + "  " + x for x in m.extra]
        for n in m.nested:
            if not n.map_entry:
                s._msg(o, n, ind + "  ")
        cur = None
        for f in m.fields:
            if f.oneof != cur:
                if cur:
                    o.append(ind + "  }")
                cur = f.oneof
                if cur:
                    o.append("%s  oneof %s {" % (ind, cur))
            o.append(ind + ("    " if cur else "  ") + s._field(f))
        if cur:
            o.append(ind + "  }")
        if m.ranges:
            o.append("%s  extensions %s;" % (ind, m.ranges))
        s._exts(o, m.exts, ind + "  ")
        o.append(ind + "}")

    def _exts(s, o, exts, ind):
        i = 0
        while i < len(exts):
            e = exts[i].extendee
            o.append("%sextend .%s {" % (ind, e.fullname()))
            while i < len(exts) and exts[i].extendee is e:
                o.append(ind + "  " + s._field(exts[i]))
                i += 1
            o.append(ind + "}")

    def _field(s, f):
        tn = lambda f: f.type if f.type not in ("enum", "message") else "." + f.ref.fullname()
        t, lab = tn(f), ""
        if f.type == "message" and f.ref.map_entry:
            t = "map<%s, %s>" % tuple(tn(x) for x in f.ref.fields)
        elif not f.oneof and not (s.syntax == "proto3" and f.label == "optional"):
            lab = f.label + " "
        opt = list(f.options)
        if f.packed is not None:
            opt.append("packed = %s" % ("true" if f.packed else "false"))
        if f.default is not None:
            opt.append("default = %s" % (f.default if f.type == "enum" else f.default[0]))
        if f.deprecated:
            opt.append("deprecated = true")
        return "%s%s %s = %d%s;" % (lab, t, f.name, f.tag, " [%s]" % ", ".join(opt) if opt else "")


# ---- reference encoder ------------------------------------------------
def varint(n):
    n &= (1 << 64) - 1
    r = bytearray()
    while n > 127:
        r.append(n & 127 | 128)
        n >>= 7
    r.append(n)
    return bytes(r)


def sext(v, bits):
    return v - (1 << bits) if v >> (bits - 1) else v


def payload(t, v):
    if t in ("int32", "enum"):
        return varint(sext(v, 32))
    if t in ("int64", "uint32", "uint64", "bool"):
        return varint(v)
    if t in ("sint32", "sint64"):
        b = BITS[t]
        v = sext(v, b)
        return varint(((v << 1) ^ (v >> (b - 1))) & ((1 << b) - 1))
    if WIRE.get(t) == 5:
        return struct.pack("<I", v)
    if WIRE.get(t) == 1:
        return struct.pack("<Q", v)
    return varint(len(v)) + v


def key(tag, wire):
    return varint(tag << 3 | wire)


def record(f, v):
    return key(f.tag, WIRE.get(f.type, 0)) + payload(f.type, v)


def enc_list(f, vs):
    """the bytes the encoder has to produce for a list of values"""
    if f.is_packed():
        body = b"".join(payload(f.type, v) for v in vs)
        return key(f.tag, 2) + varint(len(body)) + body
    return b"".join(record(f, v) for v in vs)


def wrap(path, data):
    for f in reversed(path):
        data = record(f, data)
    return data


class Bad(Exception):
    pass


def rd_varint(b, i):
    n = s = 0
    while True:
        if i >= len(b) or s > 63:
            raise Bad("varint")
        c = b[i]
        i += 1
        n |= (c & 127) << s
        s += 7
        if c < 128:
            return n & ((1 << 64) - 1), i


def rd(t, b, i):
    w = WIRE.get(t, 0)
    if w == 0:
        n, i = rd_varint(b, i)
        if t in ("sint32", "sint64"):
            return ((n >> 1) ^ -(n & 1)) & ((1 << BITS[t]) - 1), i
        return n & ((1 << BITS[t]) - 1), i
    if w == 5 or w == 1:
        k = 4 if w == 5 else 8
        if i + k > len(b):
            raise Bad("fixed")
        return int.from_bytes(b[i:i + k], "little"), i + k
    n, i = rd_varint(b, i)
    if i + n > len(b):
        raise Bad("length")
    return b[i:i + n], i + n


def parse(msg, data, exts=()):
    """bytes -> {tag: [values]}; submessages are parsed in turn"""
    by = {f.tag: f for f in list(msg.fields) + [x for x in exts if x.extendee is msg]}
    res, i = {}, 0
    while i < len(data):
        k, i = rd_varint(data, i)
        f = by.get(k >> 3)
        if f is None:
            raise Bad("unknown tag %d" % (k >> 3))
        w = k & 7
        if w == 2 and WIRE.get(f.type, 0) != 2:
            if not f.is_packed():
                raise Bad("field %s is not packed" % f.name)
            body, i = rd("bytes", data, i)
            p = 0
            while p < len(body):
                v, p = rd(f.type, body, p)
                res.setdefault(f.tag, []).append(v)
            continue
        if w != WIRE.get(f.type, 0):
            raise Bad("wiretype")
        v, i = rd(f.type, data, i)
        res.setdefault(f.tag, []).append(parse(f.ref, v, exts) if f.type == "message" else v)
    return res
