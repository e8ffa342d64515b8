#!/usr/bin/env python3
"""The properties and how each is claimed. `python3 spec.py` writes
properties.jsonl and MANIFEST.json from this file."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, level, note, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, technique=technique, level=level, note=note, state=state, observe=observe))


ENG = "Bounded by the stated blocks; trusts the reference model in harness/, clang/ASan and the fork-based explorer (mc.h)."

prop("P01", "Scalar values round-trip through their canonical wire form",
     "Every value of every scalar type and every string is encoded as exactly the canonical protobuf wire form, and decoding that form gives back the same value and consumes exactly those bytes. "
     "The size announced for a value equals the number of bytes written for it.",
     ["inputs"], "every 8, 16 and 32 bit pattern region at all varint length borders, every power of two +-3, every zigzag border and every string size around prefix borders, for each of the 17 types",
     "the tests check a few constants per type; a wrong mask, shift or group border shows only for particular bit patterns",
     ["src/core/varint.c", "src/core/varint.h", "src/core/stream.c", "src/core/stream.h"],
     [("packing and unpacking functions per type, table driven", "src/core/varint.c"), ("typed stream reads", "src/core/stream.c")],
     "exhaustive enumeration of value blocks against a reference codec", "exploration",
     "Complete for the enumerated blocks, not for all 2^64 values. " + ENG)

prop("P02", "Decoding and validating arbitrary bytes is safe and terminates",
     "Whatever bytes a buffer holds, decoding or validating it ends after work linear in its size with success or an error, touches no memory outside the buffer, changes none of its bytes, and hands the handler only values inside the buffer. "
     "A failing read never depends on bytes behind the end of the buffer.",
     ["inputs"], "every byte string of up to 3 bytes, every string of 4 to 6 bytes over 16 critical byte values, every single byte corruption and truncation of record sequences, integers of 1 to 11 bytes, deep and long inputs",
     "tests feed a dozen garbled buffers; an overread needs a specific cut at a specific type",
     ["src/core/decoder.c", "src/core/stream.c", "src/core/stream.h", "src/core/varint.c", "src/util/validator.c"],
     [("bounds checks before every stream read", "src/core/stream.c"), ("length prefix limits", "src/core/varint.c")],
     "exhaustive enumeration of inputs on the real decoder under AddressSanitizer, exact-size buffers", "exploration",
     "Memory safety is judged by AddressSanitizer on exactly sized buffers. Stack use on nesting beyond 1000 levels is the known finding deep-validate. " + ENG)

prop("P03", "Messages over arbitrary bytes are safe to read and update",
     "Whatever bytes a message was created from, reading, testing, iterating, writing and erasing any of its fields ends with success or an error and without an invalid memory access. "
     "A write of a non-repeated field that is refused leaves the bytes as they were.",
     ["inputs", "histories"], "every string of 1 to 5 bytes over 14 critical values and every corruption of record sequences, under every read and 23 updates and under writing cursors",
     "tests create messages from well formed data nearly always",
     ["src/message/message.c", "src/message/cursor.c", "src/message/field.c", "src/message/part.c", "src/message/nested.c", "src/message/oneof.c"],
     [("error states of cursors, fields, parts", "src/message/cursor.c"), ("tag and length checks", "src/message/part.c")],
     "exhaustive enumeration of inputs times operations on the real code under AddressSanitizer", "exploration", ENG)

prop("P04", "The decoder reports exactly the known fields, in order",
     "Decoding a well formed buffer calls the handler once per value of every field its message type knows, extensions included, in buffer order with the field's identity and decoded value, packed or not, and skips unknown fields of any wire type. "
     "An error returned by the handler ends the decoding at once and is what the caller gets.",
     ["inputs", "fault_sequences"], "every sequence of up to 3 records over all types, packed, nested and unknown, with a handler failure injected at every call",
     "tests decode one message per type with one handler",
     ["src/core/decoder.c", "src/core/stream.c", "src/core/descriptor.c"],
     [("dispatch on tag, wire type and packing", "src/core/decoder.c")],
     "exhaustive enumeration of record sequences with a failing handler at every event, against a reference decoder", "exploration", ENG)

prop("P05", "Truncated, malformed and out-of-range data is reported as an error",
     "A buffer that is cut inside a tag, a value or a length, that holds a tag or value no message can have (unsupported wire type, tag zero, over-long or too large integers), or whose lengths do not add up is never decoded or validated successfully. "
     "Values in front of the defect are still reported faithfully, and none behind it.",
     ["inputs"], "every byte string of up to 3 bytes, every string of 4 to 6 bytes over 16 critical byte values, every cut and byte corruption of record sequences, integers of 1 to 11 bytes",
     "tests truncate a few messages; what is accepted wrongly depends on the exact byte and cut",
     ["src/core/decoder.c", "src/core/stream.c", "src/core/varint.c", "src/util/validator.c"],
     [("error returns of unpacking and skipping", "src/core/stream.c"), ("range checks per type", "src/core/varint.c")],
     "exhaustive enumeration of inputs on the real code against a reference grammar", "exploration",
     "Where protobuf leaves acceptance open (non-minimal varints, wire type mismatch on known fields) no verdict is demanded. " + ENG)

prop("P06", "Encoding appends exactly the canonical records, or nothing",
     "Each encode call appends to the buffer exactly the wire records of the given values - repeated values as one record each, or one packed record where declared - and leaves what was encoded before as it was; embedding an encoder appends its bytes as a length-delimited field. "
     "A call that fails, for memory or for an unknown tag, leaves the encoded bytes and the encoder usable and unchanged.",
     ["histories", "fault_sequences"], "every sequence of up to 2 (thorough: 3) of 80 encode calls with every allocation failing, three levels of nested encoders, counts at length prefix borders",
     "tests make one encode call each and inject at most one allocation failure",
     ["src/core/encoder.c", "src/core/buffer.c", "src/core/varint.c"],
     [("size computation before growing", "src/core/encoder.c"), ("grow with rollback", "src/core/buffer.c")],
     "exhaustive enumeration of call sequences with allocation fault injection, against a reference encoder", "fault_enumeration", ENG)

prop("P07", "Validation succeeds exactly on complete, well-formed messages",
     "Validating a buffer succeeds if and only if it is well formed for its message type and every message in it, at every depth and inside extensions, holds each of its required fields.",
     ["inputs"], "every tree of up to 4 (thorough: 5) records of 9 kinds on 4 levels with 9 placements of required fields, with cuts",
     "tests validate a handful of messages of depth one or two",
     ["src/util/validator.c", "src/message/message.c", "src/core/descriptor.c"],
     [("collection of seen tags per message", "src/util/validator.c")],
     "exhaustive enumeration of record trees against a reference verdict", "exploration", ENG)

prop("P08", "Message updates follow the map-of-fields model",
     "After any sequence of puts, erases and submessage creations, directly or through a path of nested tags, a message holds exactly what a plain model of its fields holds: reads return the value put last, absent fields read as absent or as their default, and the message stays well formed at every depth. "
     "Bytes of fields that were not the target of an update are preserved.",
     ["histories", "inputs"], "all images of up to 2 of 23 record kinds, then all sequences of 2 (thorough: 3) of 76 operations, every state deduplicated",
     "tests apply one or two operations to one or two images",
     ["src/message/message.c", "src/message/nested.c", "src/message/part.c", "src/message/field.c", "src/message/journal.c", "src/message/buffer.c"],
     [("splicing of tag, length and value", "src/message/part.c"), ("adjusting length prefixes of enclosing messages", "src/message/part.c")],
     "explicit-state search whose transitions run the real operations, each checked against a reference tree", "model_checking", ENG)

prop("P11", "Live handles stay bound to their element",
     "A message, field, cursor or oneof handle stays bound to the element it was opened on, whatever is written, created or erased through other handles of the same message, in front of it, behind it, inside or around it: it reads that element's current value, writes only it, and a cursor goes on with the elements behind it. "
     "Once its element is erased or an enclosing submessage is, the handle reports errors and its use changes nothing.",
     ["histories"], "every handle that can be opened on images of up to 3 records, then every sequence of 1 to 2 (thorough: 3) operations out of some 30 per handle, through any of them, with sizes crossing length prefix borders; every handle checked after every operation",
     "tests hold two handles and make one update; what goes stale depends on where the other update happened and by how much prefixes moved",
     ["src/message/journal.c", "src/message/part.c", "src/message/cursor.c", "src/message/message.c", "src/message/field.c", "src/message/oneof.c"],
     [("journal of size changes replayed by every handle", "src/message/journal.c"), ("alignment of parts and cursors", "src/message/part.c")],
     "exhaustive exploration of histories over all open handles on the real code, against a reference tree with element identities", "model_checking",
     "A cursor whose current element was erased may or may not visit elements added since. " + ENG)

prop("P12", "Cursors visit every occurrence once, in order",
     "Iterating with a cursor visits every occurrence of its field exactly once, in message order, tag/value-encoded and packed values alike and only those of the message it was created on, and ends with an end-of-message error; a cursor without a tag visits all known fields. "
     "Cursors on non-repeated fields start at the visible (last) occurrence, seeking stops at the next equal value behind the current one or ends, rewinding returns to the first occurrence, and copies move independently. None of this changes the message.",
     ["inputs"], "12 kinds of cursors on all messages of up to 4 (thorough: 5) records of the kinds that matter to them, on three nesting depths between equal siblings, every seek from every position",
     "tests iterate over three or four fixed messages; empty packed fields, mixed encodings, message borders and neighbours decide",
     ["src/message/cursor.c", "src/message/field.c", "src/message/part.c"],
     [("next over records and packed values", "src/message/cursor.c"), ("seek and rewind", "src/message/cursor.c")],
     "exhaustive enumeration of messages and cursor positions against a reference tree", "exploration", ENG)

prop("P13", "Writing and erasing while iterating stays exact",
     "Reading, writing and erasing through a cursor acts on the current occurrence only, and the iteration then goes on with the occurrence behind it, whatever was written or erased through the cursor or through the message in between; nothing is skipped, repeated or touched otherwise. "
     "An erased current occurrence reads, matches and writes as an error until the cursor moves on.",
     ["histories"], "12 kinds of cursors on messages of up to 2 (thorough: 3) records on three nesting depths, every script of 3 (thorough: 4) out of 13 steps (next, rewind, seek, put, erase, message updates), then run to the end twice",
     "tests erase while iterating in two or three messages; the offsets after an erase depend on encoding, neighbours and depth",
     ["src/message/cursor.c", "src/message/part.c", "src/message/journal.c", "src/message/field.c"],
     [("alignment of cursor, packed context and message", "src/message/cursor.c"), ("erase of parts and empty packed fields", "src/message/part.c")],
     "exhaustive exploration of cursor scripts on the real code against a reference tree", "model_checking",
     "Occurrences added after the current one was erased may or may not be visited. " + ENG)

prop("P18", "Updates that run out of memory fail cleanly",
     "When an allocation fails during an update, the update reports an error, no memory is lost or touched after its release, the message and every open handle stay valid and consistent with the bytes, and an update that did nothing can be repeated successfully. "
     "An update never reports success without having taken full effect, and shrinking a message never fails.",
     ["fault_sequences", "histories"], "images of up to 2 records, every one of 76 operations, every allocation failing alone and with all following ones; the same with every handle open",
     "tests inject at most one failure into a few operations and look at the error code only",
     ["src/message/journal.c", "src/message/buffer.c", "src/message/part.c", "src/message/message.c", "src/message/nested.c", "src/message/field.c"],
     [("grow with rollback of the journal entry", "src/message/journal.c"), ("buffer growth", "src/message/buffer.c")],
     "exhaustive allocation fault injection into every operation on the real code, against a reference tree", "fault_enumeration",
     "Updates made of several allocations may stop between two of them (known finding); what they leave then must be exactly a prefix of the successful update. " + ENG)

prop("P19", "Buffers behave as byte strings under every splice and failure",
     "Replacing a range of a buffer, directly or through a journal, by given bytes yields exactly the spliced content, refuses ranges outside the buffer, and when memory runs out changes nothing and stays usable. "
     "A buffer keeps a copy of the bytes it was created from or written with, while a zero copy buffer works on the caller's memory, never changes its size and accepts exactly the writes that keep it.",
     ["histories", "fault_sequences"], "0 to 5 (thorough: 6) bytes, own or zero copy, every pair of splices at every range in and out of bounds, every allocation failing",
     "tests check a dozen splices and none with a failing reallocation in the middle of a history",
     ["src/message/buffer.c", "src/message/journal.c", "src/core/buffer.c", "include/protobluff/core/buffer.h"],
     [("move before shrink, grow before move", "src/message/buffer.c"), ("journal entry pushed and popped around a write", "src/message/journal.c")],
     "exhaustive enumeration of splice histories with allocation fault injection, against an array model", "fault_enumeration", ENG)

prop("P20", "The chunk allocator hands out disjoint, stable, growing blocks",
     "Blocks obtained from a chunk allocator never overlap, keep their contents when they or other blocks are resized or freed, do not move while they fit the minimum capacity, and a request the system refuses yields nothing and leaves every block as it was. "
     "Freeing a block gives its memory back at once, destroying the allocator all of it exactly once, and the library works on it as on the default allocator.",
     ["histories", "fault_sequences"], "4 capacities, every sequence of up to 5 (thorough: 6) operations on 3 blocks, each of the first 7 system allocations failing; two messages and an encoder sharing one allocator",
     "tests allocate and resize one or two blocks and cannot make the system allocator fail",
     ["src/util/chunk_allocator.c", "include/protobluff/util/chunk_allocator.h"],
     [("linked list of chunks with capacities", "src/util/chunk_allocator.c")],
     "exhaustive enumeration of operation sequences with system allocation fault injection", "fault_enumeration", ENG)

prop("P21", "Descriptor lookups find exactly the items that exist",
     "For every message, enum and oneof description, extensions included, a lookup by tag, name or number returns the item that has it and nothing otherwise; registering an extension makes exactly its fields reachable, once. "
     "Iterators visit every item once, in order, forwards and backwards.",
     ["configurations"], "7 (thorough: 8) tags each absent, in the message or one of two extensions, registered in every order; enums over 9 numbers with multiplicities; all oneofs over 8 fields; all types, labels and flags",
     "tests use one descriptor; the early exits of the searches depend on the gaps between tags and numbers",
     ["src/core/descriptor.c", "src/util/descriptor.c", "include/protobluff/core/descriptor.h"],
     [("bounded backward scan by tag", "src/core/descriptor.c"), ("iterators", "include/protobluff/core/descriptor.h")],
     "exhaustive enumeration of descriptors and queries", "exploration", ENG)

prop("P10", "Updates preserve what they do not understand",
     "Unknown fields and values encoded in ways the library does not write itself (non-minimal tags and lengths, packed fields of unpacked declaration and vice versa, duplicates of non-repeated fields) survive every update of other fields byte for byte, at every depth. "
     "An update next to or around them changes nothing but its target, the length prefixes of the messages enclosing it, and members of the oneof it belongs to.",
     ["histories", "inputs"], "all images of up to 2 (thorough: 3) of 19 records in foreign encodings, every sequence of 2 of some 50 updates on three depths",
     "tests update messages which the library could have written itself",
     ["src/message/message.c", "src/message/part.c", "src/message/field.c", "src/message/cursor.c", "src/core/stream.c"],
     [("skipping of unknown fields", "src/core/stream.c"), ("length prefixes of enclosing messages", "src/message/part.c")],
     "explicit-state search whose transitions run the real operations, each checked against a reference tree that keeps raw bytes", "model_checking", ENG)

prop("P14", "Packed and unpacked values form one repeated field",
     "A repeated scalar field reads, iterates, appends, writes and erases its values the same way whether they are encoded packed, unpacked or as a mixture, and whichever way the field is declared. "
     "Values of the same record do not disturb each other when one changes its size; the last packed value erased takes its record along, and what is written can be read by the decoder and by other messages.",
     ["histories", "inputs"], "all images of up to 3 records mixing both encodings, every sequence of 2 (thorough: 3) of some 60 operations by message, cursor and field at two depths",
     "tests use packed fields with three equal-sized values in one record",
     ["src/message/part.c", "src/message/cursor.c", "src/message/field.c", "src/message/message.c", "src/core/decoder.c"],
     [("packed context of parts and cursors", "src/message/part.c"), ("appending to the last packed record", "src/message/part.c")],
     "explicit-state search whose transitions run the real operations, each checked against a reference tree, the decoder and the validator", "model_checking", ENG)

prop("P15", "A oneof holds at most one member, the one written last",
     "Of the members of a oneof, only the one that was written last is present; it is the case the oneof reports, whatever fields stand around it, on the wire too: for foreign messages with several members encoded, the last one counts. "
     "Writing a member replaces the others and a value once superseded never comes back; clearing the oneof or its member removes all of it, and other oneofs of the message are unaffected.",
     ["histories", "inputs"], "all images of up to 3 of 9 records of two oneofs with neighbours, every sequence of 2 (thorough: 4) of some 45 operations by message, field, cursor, oneof and nested path at two depths",
     "tests write one member after another in a message that has nothing else in it",
     ["src/message/oneof.c", "src/message/part.c", "src/message/message.c", "src/message/field.c", "src/message/cursor.c"],
     [("erasing the other members of a oneof", "src/message/part.c"), ("determining the case", "src/message/oneof.c")],
     "explicit-state search whose transitions run the real operations, each checked against a reference tree", "model_checking",
     "Clearing a field handle or erasing by a cursor removes one occurrence only; a duplicate of a foreign message may become visible then. " + ENG)

prop("P16", "Creating a field yields its present value or its default",
     "A field handle created on a present field changes nothing and reads the present value, empty and zero values included; created on an absent field it makes it present with the declared default, or with zero or the empty string without one. "
     "Reading an absent field directly yields the declared default without changing the message, and an absent-field error when there is none; this holds for every type, label and tag, at every depth.",
     ["inputs", "configurations", "histories"], "16 types x 5 labels x defaults x tags at their size borders x 3 (thorough: 4) depths x neighbours x present values under every pair of operations; images of up to 2 records with 21 fields created, written and cleared at three depths",
     "tests create fields of few types with few defaults in an empty message",
     ["src/message/field.c", "src/message/message.c", "src/message/nested.c", "src/message/part.c", "src/core/descriptor.c"],
     [("initialization from the default", "src/message/field.c"), ("defaults on reading absent fields", "src/message/message.c")],
     "exhaustive enumeration of schemas, images and operation pairs on the real code, against a reference tree", "exploration", ENG)

prop("P17", "Zero-copy messages never leave the caller's memory",
     "A message over a zero-copy buffer reads exactly as one over a copy, applies in place exactly those updates that keep the size of the message, and refuses all others with an error and without changing a byte. "
     "It never allocates for its data, never moves it, and writes nothing outside the memory it was given.",
     ["histories", "inputs"], "images of up to 2 (thorough: 3) of 23 records in the caller's memory, every one of 76 operations, and every pair of operations on images of 1 (thorough: 2) records",
     "tests check two or three updates on one message",
     ["src/message/buffer.c", "src/message/journal.c", "src/message/part.c", "src/message/message.c"],
     [("refusal to resize zero-copy buffers", "src/message/buffer.c")],
     "exhaustive enumeration of images and operations on the real code under AddressSanitizer, against a reference tree", "exploration", ENG)

prop("P25", "Clearing removes exactly one element and its handle",
     "Clearing a field, a submessage or a oneof through its handle, or erasing through a cursor, removes exactly that element - tag, length and value, with nothing of its neighbours - adjusts the enclosing messages, and leaves the handle invalid. "
     "Clearing the outermost message empties it. What remains reads, decodes and validates as the model says.",
     ["histories", "inputs"], "all images of up to 3 of 13 records, every clear of a message, submessage, field and oneof at three depths, sequences of 2 (thorough: 3)",
     "tests clear handles in messages which hold one or two elements",
     ["src/message/message.c", "src/message/field.c", "src/message/oneof.c", "src/message/cursor.c", "src/message/part.c"],
     [("clearing of parts", "src/message/part.c")],
     "explicit-state search whose transitions run the real operations, each checked against a reference tree, the decoder and the validator", "model_checking", ENG)

prop("P09", "Length prefixes of all enclosing messages stay exact",
     "Whatever is written, replaced, created or erased inside a message, the length prefix of every enclosing submessage, however deep, says exactly how many bytes follow, also when it must grow or shrink by one or more bytes itself, which may in turn make outer prefixes do so. "
     "All bytes outside the changed element stay as they were, and handles opened before on any level still read their elements.",
     ["inputs", "histories"], "messages nested 0 to 4 (thorough: 5) levels, every size that moves some prefix across 128, 16384 or 2097152 before and after, 4 kinds of values, 7 routes of writing, padded prefixes, pairs of operations",
     "tests cross one border at one depth; which levels carry over depends on the exact sizes on every level",
     ["src/message/part.c", "src/message/journal.c", "src/core/varint.c"],
     [("adjustment of prefixes up the chain of parts", "src/message/part.c"), ("journal of moves for handles", "src/message/journal.c")],
     "exhaustive enumeration of size and depth combinations on the real code, against a reference tree", "exploration", ENG)

prop("P26", "Reading changes nothing and reads the same again",
     "No way of reading - has, match, get, iterating, seeking, oneof cases, nested paths, decoding, validating, dumping, reading defaults - writes to the buffer or the descriptors, takes memory, or changes what any later read says. "
     "Messages which share a descriptor do not influence each other's reads.",
     ["inputs", "histories"], "every message of up to 3 (thorough: 4) of 29 records, every string of up to 4 (thorough: 5) bytes over 14 values, every cut and corruption of up to 2 records, on read-only pages with an allocator that gives nothing, twice, reads of another message in between",
     "tests compare the buffer after updates, never after reads",
     ["src/message/message.c", "src/message/cursor.c", "src/message/nested.c", "src/message/oneof.c", "src/core/decoder.c", "src/util/validator.c"],
     [("reads through cursors only", "src/message/message.c")],
     "exhaustive enumeration of inputs times reads on the real code over write-protected memory", "exploration", ENG)

prop("P27", "Encoder, decoder, validator and messages agree",
     "The same field values written through the encoder and through message updates form messages that the decoder, the validator, cursors and field reads all see alike, field by field. "
     "What one of these reads can be passed on to any writer, and the result reads the same again.",
     ["inputs", "configurations"], "every sequence of up to 3 of 41 facts (field, values, submessages), written by encoder and by message, read by every reader, carried on into every other form once or twice",
     "tests exercise each component alone with hand written bytes",
     ["src/core/encoder.c", "src/core/decoder.c", "src/util/validator.c", "src/message/message.c", "src/message/cursor.c"],
     [("typed reads and writes over one stream", "src/core/stream.c")],
     "exhaustive enumeration of field sequences and conversions on the real code", "exploration", ENG)

prop("P28", "Putting a message copies it, and both stay independent",
     "Putting a message into a field of another one, by tag, path or cursor, makes that field hold exactly the bytes the source has at that moment, wherever the source lives, and changes nothing else; the source is unchanged. "
     "Later updates of either side, or destroying the source, do not show in the other; an invalid or removed source is refused.",
     ["inputs", "histories"], "10 kinds of sources with 13 contents, 10 places in images of up to 1 (thorough: 2) of 14 records, each of the first 3 allocations failing, updates of either side afterwards",
     "tests put two or three fresh messages",
     ["src/message/message.c", "src/message/part.c", "src/message/cursor.c", "src/message/nested.c"],
     [("raw copy of the source's bytes", "src/message/message.c")],
     "exhaustive enumeration of sources, places and follow-up updates on the real code, against reference trees", "exploration", ENG)

prop("P32", "Field numbers and extensions mean nothing but the tag on the wire",
     "How a message type numbers its fields (numbers of one to five bytes on the wire, dense or sparse, in any order) and whether a field is declared in the type itself or in an extension, registered in any order, "
     "changes nothing but the tags on the wire: the same calls give the same results, values, defaults, oneof cases and errors, and the same contents.",
     ["configurations", "histories"], "9 messages, every pair of 49 calls with handles held across them, 14 numberings and 8 ways to spread the fields over up to three extensions; every record prefix decoded, validated and encoded",
     "the tests use a few small types whose tags take one byte; code that mistakes a tag for an index, cuts it or overlooks an extension works there",
     ["src/core/descriptor.c", "src/core/descriptor.h", "src/core/decoder.c", "src/core/encoder.c", "src/message/cursor.c", "src/message/message.c", "src/message/part.c", "src/util/validator.c", "src/util/descriptor.c"],
     [("lookup of fields through the chain of extensions", "src/core/descriptor.c"), ("tag comparison while iterating", "src/message/cursor.c"), ("offsets of tag and prefix", "src/message/part.c")],
     "metamorphic exhaustive enumeration: the same histories on isomorphic types, compared observation by observation", "exploration",
     "Judges agreement between types; that the common behaviour is right is P01-P31. " + ENG)

prop("P33", "Only what a value says counts, not how it is held",
     "Writes, matches, seeks, encodes and decodes give the same results for equal values, wherever these lie (odd addresses, read-only memory, the last bytes of accessible memory), whatever happens to that memory after the call, "
     "however an empty string or message came to be empty, and at whatever address the message itself lies. Nothing but the value is read and nothing but the result is written.",
     ["inputs", "configurations"], "12 calls on strings and numbers, 6 with messages, 6 kinds of memory, 3 ways to say an empty string, 5 ways to make a message, copied or zero copy at 16 offsets; every prefix of a message at 20 places",
     "tests pass string literals and locals, and journals made from static arrays",
     ["src/core/encoder.c", "src/core/string.h", "src/core/buffer.c", "src/core/stream.c", "src/message/field.c", "src/message/message.c", "src/message/cursor.c", "src/message/nested.c"],
     [("values are read through pointers of the field's type", "src/message/field.c"), ("copies made at the call", "src/message/buffer.c")],
     "metamorphic exhaustive enumeration: the same call with the same value in every form, with guard pages around it", "exploration",
     "Judges agreement with the plain form; memory is guarded by page protection and AddressSanitizer. " + ENG)

prop("P22", "Separate objects do not interfere",
     "Work on separate messages, buffers, encoders, decoders, validators and allocators, sharing at most their descriptors, gives the same results and leaves the same bytes however it is combined as when it is done alone: "
     "interleaved on several threads, one piece after another in the same process, or started from inside a decoder handler or an allocator callback of another. The library keeps no state of its own between calls; reading through a descriptor never changes it.",
     ["schedules", "histories"], "60 units of work (15 kinds of operation, 2 message types, 2 inputs): every two on two threads (one interleaving where their footprints in shared memory are independent, otherwise every schedule of 2 (thorough: 3) preemptions); every two (thorough: three) in sequence, the first again; every one inside every callback of every other",
     "tests run on one thread, one object at a time, and share no process state between cases by luck only",
     ["src/core/descriptor.c", "src/core/varint.c", "src/core/decoder.c", "src/message/part.c", "src/message/cursor.c", "src/util/chunk_allocator.c"],
     [("descriptor lookup", "src/core/descriptor.c"), ("temporary space of decoders and cursors", "src/core/decoder.c")],
     "stateless model checking: the real code under a controlled scheduler with every load, store and memory function a scheduling point, and a partial-order argument from recorded footprints", "model_checking", ENG)

prop("P29", "Memory comes from the object's allocator and is given back exactly once",
     "Every buffer, journal, message and encoder takes memory only from the allocator it was created with, never from the system or another object's allocator, and hands each block back to that allocator exactly once, at the latest when it is destroyed - "
     "after any history of successful and failed updates, embeddings of other objects and exhausted memory, in any order of destruction. Zero copy objects, readers, decoders and validators take no memory at all, and no block is used after it was given back.",
     ["histories", "fault_sequences"], "every sequence of 3 (thorough: 4) out of 20 operations on messages on two allocators, the default one and caller memory; of 4 (5) operations on three encoders that embed each other; of 3 (4) splices of buffers and journals; every request of any step failing",
     "tests use the default allocator, never run out of memory and do not look for leaks",
     ["src/core/allocator.c", "src/core/buffer.c", "src/message/buffer.c", "src/message/journal.c", "src/core/encoder.c"],
     [("release of the data", "src/core/buffer.c"), ("release of the journal entries", "src/message/journal.c")],
     "exhaustive enumeration of histories and faults on the real code with three bookkeeping heaps, the system's included", "fault_enumeration", ENG)

prop("P30", "Errors propagate through invalid handles",
     "A message, field, cursor or oneof created from an invalid parent, from a cursor past its end, for a tag the type does not have, or without the memory it needs is invalid, and a handle whose element was removed becomes so. "
     "Everything done through such a handle is refused without touching the message or crashing, and whatever is made from it is invalid too; healthy handles next to it are not affected.",
     ["histories", "fault_sequences"], "6 images, every chain of up to 3 (thorough: 4) steps out of 23 ways to make a handle from any earlier one or to update, memory running out at a step; every function on every invalid handle and everything made from it, twice; buffers, decoders and encoders without memory",
     "tests check each function on one artificially invalid handle",
     ["src/message/message.c", "src/message/field.c", "src/message/cursor.c", "src/message/oneof.c", "src/message/part.c", "src/core/buffer.c", "src/core/decoder.c", "src/core/encoder.c"],
     [("validity flags of parts", "src/message/part.c"), ("error state of cursors", "src/message/cursor.c")],
     "exhaustive enumeration of handle derivations and faults on the real code", "fault_enumeration", ENG)

prop("P31", "Dumps show exactly the bytes an object holds",
     "Dumping a buffer, a journal, a message or a field prints exactly the bytes it holds at that moment, in order, as numbers with their offset and as text, and their number - also through a handle whose element has moved or changed its size since it was opened. "
     "A dump through a handle whose element was erased shows no bytes, and dumping changes neither bytes nor handles.",
     ["inputs", "histories"], "buffers of up to 45 (thorough: 129) bytes in 8 fillings and their ranges, sizes around every width of the offset column up to 100001; messages of up to 3 of 15 records, handles on everything, every field erased, 6 updates, everything dumped and the text compared",
     "no test looks at a dump at all, and the code is excluded from coverage",
     ["src/message/buffer.c", "src/message/part.c", "include/protobluff/message/journal.h"],
     [("rows of a dump", "src/message/buffer.c"), ("alignment of a copy before a part is printed", "src/message/part.c")],
     "exhaustive enumeration of contents, handles and updates on the real code; the printed text is parsed and compared with the bytes", "exploration", ENG)


GEN = "Bounded by the stated schema spaces; trusts protoc, clang and the schema model in gen/; groups, proto3 optional and schemas whose generated names collide are out."
prop("P23", "Generated descriptors say what the schema says",
     "For every valid schema the generator ends normally and emits C that compiles and links. The descriptors list every field of a message in ascending tag order with its name, type, label, packing, referenced message or enum, oneof and default value exactly as the schema has them; enums list every value in ascending order; extensions are found through the extended message once the program has started. "
     "Tag and value constants agree with the descriptors, and the headers of several files can be used together.",
     ["inputs", "configurations"], "17 types x labels x 12 border tags; default values of every type (all single bytes, pairs of critical characters, number borders, inf, nan, -0) in every place; every declaration order of 4 (thorough: 5) fields cut into oneofs in every way; orders of up to 3 (4) enum numbers; every reference graph of nested and top-level messages up to 3 (4) types; extensions by scope, package and extendee; file names and imports",
     "no test runs the generator at all; defects show only for particular schema shapes",
     ["src/generator/field.cc", "src/generator/oneof.cc", "src/generator/message.cc", "src/generator/enum.cc", "src/generator/enum_value.cc", "src/generator/extension.cc", "src/generator/file.cc", "src/generator/generator.cc", "src/generator/strutil.cc"],
     [("field descriptors and defaults", "src/generator/field.cc"), ("oneof indexes", "src/generator/oneof.cc"), ("constructor registering extensions", "src/generator/extension.cc")],
     "exhaustive enumeration of bounded schema spaces through the real generator; what it emits is compiled, run and compared with a schema model", "exploration", GEN)

prop("P24", "Generated functions do what their names say",
     "Every function generated for a schema (create, has, get, put, erase, cursors, enum shorthands, oneof case, nested accessors, extension accessors, encoders and decoders) acts on exactly the field it is named after: what is put or encoded is on the wire under that field's tag in its type, get and decode give it back, has, match and case follow, erase removes it, and other fields keep their values. "
     "Functions accessing deprecated fields, messages or enum values are flagged as deprecated, and no others.",
     ["inputs", "configurations"], "the schema spaces of P23; every accessor of every field called in turn on an empty message and next to another field, with two border values, every enum value, every ordered pair of oneof members, every promised nested path",
     "no test runs the generator at all, and generated code exists for schemas only the user has",
     ["src/generator/field.cc", "src/generator/oneof.cc", "src/generator/message.cc", "src/generator/file.cc", "src/generator/extension.cc"],
     [("accessors of fields and nested paths", "src/generator/field.cc"), ("case accessor", "src/generator/oneof.cc")],
     "exhaustive enumeration of bounded schema spaces through the real generator; the emitted functions are run and compared with a schema model and a reference codec", "exploration", GEN)


def main():
    import sys
    sys.path.insert(0, HERE)
    from props import PROPS
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "hook_needed": None}
            if p["state"]:
                a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
            if p["observe"]:
                a["observe_at"] = p["observe"]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["text"]},
                                "why_tests_cant": p["why"], "anchors": a}) + "\n")
    checks, na = [], []
    for p in P:
        if p["id"] not in PROPS:
            na.append({"property": p["id"], "reason": p["note"]})
            continue
        assert PROPS[p["id"]]["level"] == p["level"], p["id"]
        checks.append({"property": p["id"], "quick_cmd": "python3 run.py %s quick" % p["id"],
                       "thorough_cmd": "python3 run.py %s thorough" % p["id"],
                       "technique": p["technique"], "level": p["level"], "level_note": p["note"],
                       "evidence_file": "evidence/%s.json" % p["id"]})
    m = {"version": 1, "setup_cmd": "python3 -c 'import py_compile; py_compile.compile(\"run.py\", doraise=True)' && clang --version",
         "checks": checks, "not_applicable": na,
         "notes": "Every check compiles /repo's sources from the working tree into build/<id> and explores; no hooks in /repo are needed. run.py is the runner, props.py lists what each check runs, harness/ holds the explorer, the reference models and the drivers."}
    json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    print(len(P), "properties", len(checks), "checks")


if __name__ == "__main__":
    main()
