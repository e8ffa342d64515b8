"""What each check builds and runs. Variants: how /repo's sources are compiled."""

ASAN = ["-fsanitize=address", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"]
VARIANTS = {
    # as shipped (assertions off), memory errors fatal
    "rel": {"flags": ["-O1", "-DNDEBUG"] + ASAN},
    # assertions on: internal preconditions must hold on every documented use
    "dbg": {"flags": ["-O1"] + ASAN},
    # plain and fast, for sweeps
    "fast": {"flags": ["-O2", "-DNDEBUG"]},
    # the portable (non SSE2) code path
    "nosse": {"flags": ["-O1", "-DNDEBUG", "-U__SSE2__"] + ASAN},
}

VARIANTS["sys"] = {"flags": VARIANTS["rel"]["flags"],
                   "lib_flags": ["-Dmalloc=mc_malloc", "-Drealloc=mc_realloc", "-Dfree=mc_free", "-Dcalloc=mc_calloc"]}

# every access to memory is a scheduling point
VARIANTS["trace"] = {"flags": ["-O1", "-DNDEBUG"],
                     "lib_flags": ["-fsanitize-coverage=func,trace-pc,trace-loads,trace-stores", "-fno-builtin"] +
                     ["-D%s=mc_%s" % (f, f) for f in
                      "malloc realloc free calloc memcpy memmove memset memcmp strcmp strlen".split()]}

PROPS = {
    "P01": {
        "level": "exploration",
        "rule": "every value of the stated blocks; a case is non-trivial when its wire form (or value block) is distinct",
        "runs": [
            {"driver": "codec.c", "variant": "fast", "only": "sweep"},
            {"driver": "codec.c", "variant": "rel", "only": "api,string"},
            {"driver": "codec.c", "variant": "nosse", "only": "api,string"},
            {"driver": "forms.c", "variant": "rel", "only": "numbers"},
        ],
    },
    "P02": {
        "level": "exploration",
        "rule": "every byte string of the stated blocks, decoded and validated under AddressSanitizer; non-trivial: distinct event lists and verdicts",
        "runs": [
            {"driver": "decode.c", "variant": "rel", "only": "bytes3,alpha,mutate,ints,deep,many,nesting", "defines": ["-DORACLE=0"]},
            {"driver": "decode.c", "variant": "nosse", "only": "ints,mutate", "defines": ["-DORACLE=0"]},
            {"driver": "long.c", "variant": "rel", "only": "cuts"},
            {"driver": "huge.c", "variant": "rel", "only": "hdecode,hmessage"},
            {"driver": "forms.c", "variant": "rel", "only": "buffers"},
        ],
    },
    "P03": {
        "level": "exploration",
        "rule": "every byte string of the stated blocks under every read and update; non-trivial: distinct inputs",
        "runs": [
            {"driver": "garbled.c", "variant": "rel"},
            {"driver": "garbled.c", "variant": "dbg", "only": "mutate,cmutate"},
        ],
    },
    "P04": {
        "level": "exploration",
        "rule": "every record sequence up to the bound, a handler failure at every event; non-trivial: distinct inputs",
        "runs": [
            {"driver": "decode.c", "variant": "rel", "only": "events", "defines": ["-DORACLE=1"]},
            {"driver": "decode.c", "variant": "dbg", "only": "events", "defines": ["-DORACLE=1"]},
            {"driver": "decode.c", "variant": "nosse", "only": "events", "defines": ["-DORACLE=1"]},
            {"driver": "scale.c", "variant": "rel", "only": "wevents"},
            {"driver": "more.c", "variant": "rel", "only": "aliases"},
            {"driver": "huge.c", "variant": "rel", "only": "hdecode"},
            {"driver": "forms.c", "variant": "rel", "only": "buffers"},
            {"driver": "relabel.c", "variant": "rel", "only": "codes"},
        ],
    },
    "P05": {
        "level": "exploration",
        "rule": "every byte string of the stated blocks against the reference wire grammar; non-trivial: distinct event lists and verdicts",
        "runs": [
            {"driver": "decode.c", "variant": "rel", "only": "bytes3,alpha,mutate,ints", "defines": ["-DORACLE=1"]},
            {"driver": "decode.c", "variant": "nosse", "only": "ints,mutate", "defines": ["-DORACLE=1"]},
            {"driver": "long.c", "variant": "rel", "only": "cuts"},
            {"driver": "huge.c", "variant": "rel", "only": "hdecode"},
            {"driver": "forms.c", "variant": "rel", "only": "buffers"},
            {"driver": "relabel.c", "variant": "rel", "only": "codes"},
        ],
    },
    "P06": {
        "level": "fault_enumeration",
        "rule": "every sequence of encode calls up to the bound, the last one with every one of its allocations failing; non-trivial: distinct outputs",
        "runs": [
            {"driver": "encoder.c", "variant": "rel"},
            {"driver": "encoder.c", "variant": "dbg", "only": "sequences,nested"},
            {"driver": "scale.c", "variant": "rel", "only": "appends"},
            {"driver": "huge.c", "variant": "rel", "only": "hrefuse,hpacked"},
            {"driver": "forms.c", "variant": "rel", "only": "strings,numbers,messages"},
            {"driver": "forms.c", "variant": "dbg", "only": "strings,numbers,messages"},
            {"driver": "relabel.c", "variant": "rel", "only": "codes"},
        ],
    },
    "P07": {
        "level": "exploration",
        "rule": "every tree of records up to the bound; non-trivial: distinct inputs",
        "runs": [
            {"driver": "decode.c", "variant": "rel", "only": "required", "defines": ["-DORACLE=1"]},
            {"driver": "scale.c", "variant": "rel", "only": "wrequired"},
            {"driver": "huge.c", "variant": "rel", "only": "hdecode"},
            {"driver": "scale.c", "variant": "rel", "only": "levels"},
            {"driver": "forms.c", "variant": "rel", "only": "buffers"},
            {"driver": "relabel.c", "variant": "rel", "only": "codes"},
        ],
    },
    "P08": {
        "level": "model_checking",
        "runs": [
            {"driver": "msg.c", "variant": "rel", "only": "core"},
            {"driver": "msg.c", "variant": "dbg", "only": "core"},
            {"driver": "fields.c", "variant": "rel", "only": "nest"},
            {"driver": "fields.c", "variant": "dbg", "only": "nest"},
            {"driver": "scale.c", "variant": "rel", "only": "wput"},
            {"driver": "more.c", "variant": "rel", "only": "tails"},
            {"driver": "more.c", "variant": "rel", "only": "bits"},
            {"driver": "scale.c", "variant": "rel", "only": "levels,elements"},
            {"driver": "more.c", "variant": "rel", "only": "borders"},
            {"driver": "forms.c", "variant": "rel", "only": "strings,numbers,messages"},
            {"driver": "forms.c", "variant": "dbg", "only": "strings,numbers,messages"},
            {"driver": "relabel.c", "variant": "rel", "only": "calls"},
        ],
    },
    "P11": {
        "level": "model_checking",
        "runs": [
            {"driver": "handles.c", "variant": "rel", "only": "handles,chains,borders,triples,embedded"},
            {"driver": "handles.c", "variant": "dbg", "only": "chains,triples,embedded"},
            {"driver": "scale.c", "variant": "rel", "only": "idle"},
            {"driver": "scale.c", "variant": "fast", "only": "idlelong"},
            {"driver": "more.c", "variant": "rel", "only": "tails"},
            {"driver": "huge.c", "variant": "rel", "only": "hgrow"},
            {"driver": "relabel.c", "variant": "rel", "only": "calls"},
        ],
    },
    "P12": {
        "level": "exploration",
        "rule": "every message of the stated blocks under every cursor; non-trivial: distinct messages per cursor kind",
        "runs": [
            {"driver": "cursor.c", "variant": "rel", "only": "iterate"},
            {"driver": "cursor.c", "variant": "dbg", "only": "iterate"},
            {"driver": "cursor.c", "variant": "nosse", "only": "iterate"},
            {"driver": "scale.c", "variant": "rel", "only": "elements"},
            {"driver": "more.c", "variant": "rel", "only": "tails,bits"},
            {"driver": "huge.c", "variant": "rel", "only": "hmessage"},
            {"driver": "forms.c", "variant": "rel", "only": "strings,numbers,messages"},
            {"driver": "relabel.c", "variant": "rel", "only": "calls"},
        ],
    },
    "P13": {
        "level": "model_checking",
        "runs": [
            {"driver": "cursor.c", "variant": "rel", "only": "walk"},
            {"driver": "cursor.c", "variant": "dbg", "only": "walk"},
            {"driver": "scale.c", "variant": "rel", "only": "elements"},
            {"driver": "scale.c", "variant": "fast", "only": "elementslong"},
            {"driver": "more.c", "variant": "rel", "only": "tails,bits"},
            {"driver": "forms.c", "variant": "rel", "only": "strings,numbers,messages"},
            {"driver": "relabel.c", "variant": "rel", "only": "calls"},
        ],
    },
    "P10": {
        "level": "model_checking",
        "runs": [
            {"driver": "fields.c", "variant": "rel", "only": "foreign"},
            {"driver": "fields.c", "variant": "dbg", "only": "foreign"},
            {"driver": "long.c", "variant": "rel", "only": "unknowns"},
            {"driver": "more.c", "variant": "rel", "only": "aliases"},
            {"driver": "relabel.c", "variant": "rel", "only": "calls"},
        ],
    },
    "P14": {
        "level": "model_checking",
        "runs": [
            {"driver": "fields.c", "variant": "rel", "only": "packed,unpacked"},
            {"driver": "fields.c", "variant": "dbg", "only": "packed,unpacked"},
            {"driver": "scale.c", "variant": "rel", "only": "elements"},
            {"driver": "scale.c", "variant": "fast", "only": "elementslong"},
            {"driver": "more.c", "variant": "rel", "only": "bits"},
            {"driver": "relabel.c", "variant": "rel", "only": "calls"},
        ],
    },
    "P15": {
        "level": "model_checking",
        "runs": [
            {"driver": "fields.c", "variant": "rel", "only": "oneof"},
            {"driver": "fields.c", "variant": "dbg", "only": "oneof"},
            {"driver": "scale.c", "variant": "rel", "only": "woneof"},
            {"driver": "forms.c", "variant": "rel", "only": "strings,numbers,messages"},
            {"driver": "relabel.c", "variant": "rel", "only": "calls"},
        ],
    },
    "P25": {
        "level": "model_checking",
        "runs": [
            {"driver": "fields.c", "variant": "rel", "only": "clear"},
            {"driver": "fields.c", "variant": "dbg", "only": "clear"},
            {"driver": "scale.c", "variant": "rel", "only": "elements"},
        ],
    },
    "P16": {
        "level": "exploration",
        "rule": "every schema and image of the stated blocks under every pair of operations; non-trivial: distinct (schema, resulting bytes)",
        "runs": [
            {"driver": "types.c", "variant": "rel"},
            {"driver": "fields.c", "variant": "rel", "only": "create"},
            {"driver": "fields.c", "variant": "dbg", "only": "create"},
            {"driver": "types.c", "variant": "dbg", "tier": "thorough"},
            {"driver": "long.c", "variant": "rel", "only": "defaults"},
            {"driver": "forms.c", "variant": "rel", "only": "strings,numbers"},
            {"driver": "relabel.c", "variant": "rel", "only": "calls"},
        ],
    },
    "P17": {
        "level": "exploration",
        "rule": "every image of the stated blocks under every operation; non-trivial: distinct (image, operation)",
        "runs": [
            {"driver": "msg.c", "variant": "rel", "only": "zerocopy,zerocopy2"},
            {"driver": "msg.c", "variant": "dbg", "only": "zerocopy,zerocopy2"},
            {"driver": "long.c", "variant": "rel", "only": "zero"},
            {"driver": "more.c", "variant": "rel", "only": "tails"},
            {"driver": "huge.c", "variant": "rel", "only": "hmessage"},
            {"driver": "more.c", "variant": "rel", "only": "bits"},
            {"driver": "forms.c", "variant": "rel", "only": "strings,numbers,messages"},
        ],
    },
    "P18": {
        "level": "fault_enumeration",
        "rule": "every operation on every image with every allocation failing, alone and with all after it; non-trivial: distinct (image, operation, failing request)",
        "runs": [
            {"driver": "msg.c", "variant": "rel", "only": "oom"},
            {"driver": "msg.c", "variant": "dbg", "only": "oom"},
            {"driver": "handles.c", "variant": "rel", "only": "oom"},
            {"driver": "handles.c", "variant": "dbg", "only": "oom"},
            {"driver": "long.c", "variant": "rel", "only": "faultlong"},
        ],
    },
    "P19": {
        "level": "fault_enumeration",
        "rule": "every splice sequence up to the bound with every allocation failing; non-trivial: distinct resulting contents",
        "runs": [
            {"driver": "buffer.c", "variant": "rel"},
            {"driver": "buffer.c", "variant": "dbg", "only": "buffers"},
            {"driver": "scale.c", "variant": "rel", "only": "splices"},
        ],
    },
    "P20": {
        "level": "fault_enumeration",
        "rule": "every sequence of allocator operations up to the bound with each early system allocation failing; non-trivial: distinct histories of requests and block sizes",
        "runs": [
            {"driver": "chunk.c", "variant": "sys"},
            {"driver": "scale.c", "variant": "rel", "only": "blocks"},
        ],
    },
    "P21": {
        "level": "exploration",
        "rule": "every small descriptor, enum and oneof under every query around its members; non-trivial: distinct descriptors",
        "runs": [
            {"driver": "descr.c", "variant": "rel"},
            {"driver": "descr.c", "variant": "dbg"},
            {"driver": "scale.c", "variant": "rel", "only": "lookup"},
            {"driver": "relabel.c", "variant": "rel", "only": "calls,codes"},
        ],
    },
    "P09": {
        "level": "exploration",
        "rule": "every depth, size, value kind and route of the stated blocks; non-trivial: distinct resulting bytes",
        "runs": [
            {"driver": "prefix.c", "variant": "rel"},
            {"driver": "prefix.c", "variant": "dbg", "only": "medium,large"},
            {"driver": "scale.c", "variant": "rel", "only": "levels"},
            {"driver": "more.c", "variant": "rel", "only": "borders"},
            {"driver": "huge.c", "variant": "rel", "only": "hgrow"},
            {"driver": "relabel.c", "variant": "rel", "only": "calls"},
        ],
    },
    "P31": {
        "level": "exploration",
        "rule": "every buffer, message, handle and update of the stated blocks, dumped; non-trivial: distinct dumped bytes",
        "runs": [
            {"driver": "dump.c", "variant": "rel"},
            {"driver": "dump.c", "variant": "dbg", "only": "bytes,large"},
        ],
    },
    "P26": {
        "level": "exploration",
        "rule": "every input of the stated blocks under every read, twice; non-trivial: distinct inputs",
        "runs": [
            {"driver": "reads.c", "variant": "rel"},
            {"driver": "reads.c", "variant": "dbg"},
            {"driver": "huge.c", "variant": "rel", "only": "hmessage"},
            {"driver": "forms.c", "variant": "rel", "only": "buffers,strings,numbers"},
        ],
    },
    "P27": {
        "level": "exploration",
        "rule": "every sequence of facts of the stated block in every form; non-trivial: distinct sequences",
        "runs": [
            {"driver": "agree.c", "variant": "rel"},
            {"driver": "agree.c", "variant": "dbg"},
            {"driver": "long.c", "variant": "rel", "only": "forms"},
            {"driver": "more.c", "variant": "rel", "only": "tails,bits"},
            {"driver": "forms.c", "variant": "rel", "only": "strings,numbers,messages,buffers"},
            {"driver": "relabel.c", "variant": "rel", "only": "calls,codes"},
        ],
    },
    "P28": {
        "level": "exploration",
        "rule": "every source, place and image of the stated blocks; non-trivial: distinct (source kind, result)",
        "runs": [
            {"driver": "submsg.c", "variant": "rel"},
            {"driver": "submsg.c", "variant": "dbg"},
            {"driver": "long.c", "variant": "rel", "only": "copies"},
            {"driver": "more.c", "variant": "rel", "only": "tails"},
            {"driver": "forms.c", "variant": "rel", "only": "messages"},
            {"driver": "forms.c", "variant": "dbg", "only": "messages"},
        ],
    },
    "P32": {
        "level": "exploration",
        "rule": "every message, pair of calls and isomorphic type of the stated block; non-trivial: distinct observations",
        "runs": [
            {"driver": "relabel.c", "variant": "rel"},
            {"driver": "relabel.c", "variant": "dbg"},
        ],
    },
    "P33": {
        "level": "exploration",
        "rule": "every call, value and form of the stated block; non-trivial: distinct observations",
        "runs": [
            {"driver": "forms.c", "variant": "rel"},
            {"driver": "forms.c", "variant": "dbg"},
        ],
    },
    "P22": {
        "level": "model_checking",
        "rule": "every pair of units of work in every way of combining them; non-trivial: distinct (pair, schedule)",
        "runs": [{"driver": "conc.c", "variant": "trace"}],
        "assumptions": ["two units of work whose shared-memory footprints do not conflict commute at every access, so one interleaving of them stands for all",
                        "sequentially consistent memory; the units of work are representative of every public operation"],
    },
    "P29": {
        "level": "fault_enumeration",
        "rule": "every history of the stated blocks with every request of one step failing; non-trivial: distinct (history, fault)",
        "runs": [{"driver": "alloc.c", "variant": "sys"}, {"driver": "long.c", "variant": "rel", "only": "faultlong"}],
    },
    "P30": {
        "level": "fault_enumeration",
        "rule": "every chain of derivations up to the bound with a failing allocation at each step; non-trivial: distinct (bytes, chain)",
        "runs": [
            {"driver": "invalid.c", "variant": "rel"},
            {"driver": "invalid.c", "variant": "dbg"},
        ],
    },
}


def generator(mode):
    def main(prop, tier, seed):
        from gen.check import main as run
        return run(prop, tier, seed, mode)
    return main


PROPS["P23"] = {"level": "exploration", "main": generator("descriptors")}
PROPS["P24"] = {"level": "exploration", "main": generator("accessors")}


def _merge():
    """one build per driver and variant"""
    for cfg in PROPS.values():
        seen, runs = {}, []
        for r in cfg.get("runs", []):
            key = (r["driver"], r["variant"], str(r.get("defines")), r.get("tier"), r.get("tag"), bool(r.get("deep")))
            if key in seen and seen[key].get("only") and r.get("only"):
                seen[key]["only"] += "," + r["only"]
            else:
                seen[key] = r
                runs.append(r)
        if runs:
            cfg["runs"] = runs


_merge()
