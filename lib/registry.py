"""Which harnesses decide which property, with their bounds per tier."""
ASSUME = [
  "machine model: LLVM 18 IR of clang -O1 front end for x86-64, little endian, 64-bit pointers; heap blocks are separate objects of exactly the requested size",
  "assertions compiled out (-DNDEBUG), as in the default build, unless a job says otherwise",
]
def job(name, src, defs=None, thorough=None, bounds="", reach=(), **kw):
    return dict(name=name, src=[src] if isinstance(src, str) else list(src), defs=defs or {}, thorough=thorough or {}, bounds=bounds, reach=list(reach), **kw)
PROPS = {}
def prop(id, *jobs, **kw):
    PROPS[id] = dict(jobs=list(jobs), **kw)

prop("C01", job("roundtrip", "varint.c", {"ROUNDTRIP": 1}, bounds="every value of every varint type; up to 2 bytes of any content behind the value",
     reach=[1, 2, 3, 4, 5, 6, 11, 12] + [32 + k for k in range(1, 11)]))
prop("C02", job("bytes", "varint.c", {"N": 17}, {"N": 40}, bounds="every byte string of 1..N bytes", reach=[1, 2, 3, 4]))
prop("C03", job("stream", "stream.c", {"N": 17}, {"N": 20}, bounds="every buffer of 1..N bytes, every offset, every type and wire type 0..7", reach=[1, 2, 3, 4]))
def long(src, reach, **kw): return job("long", src, dict({"LONG": 1, "K": 60, "SEEDS": 256, "FIRST": 0}, **kw), {"K": 120}, bounds="SEEDS fixed histories of K steps (for encoders: of many fields), every value symbolic (lengths of 1, 2 and the maximal number of bytes)", reach=reach, opts=["--max-steps=60000000"])
LONG = dict(bounds="SEEDS fixed histories of K edits of 16 kinds through 4 message and 4 field handles and cursors, from 9 message shapes, every value symbolic (lengths of 1, 2 and the maximal number of bytes)", reach=list(range(16)) + [40, 41, 42, 43], opts=["--max-steps=60000000"])
def wide(ops, **kw): return job("types", "wide.c", dict({"K": 1, "OPS": ops}, **kw.get("defs", {})), {"K": 2}, bounds="messages of 19 fields of all types and with tags of one to five bytes, K " + kw["what"] + ", any values of one, two and the maximal number of bytes", reach=kw["reach"])
def any_(n, what, ops, reach, labels="0,1,2,3,4,5,6,7,8", sets=4, **kw):
    """A job on generated schemas; n sets its numbers apart from those of the others."""
    d = {"LONG": 1, "K": 40, "SEEDS": 256, "SETS": sets, "FIRST": 11000000 * n, "OPS": ops, "LABELS": labels}
    return job("schemas", "any.c", dict(d, **kw), {"SETS": 32 * sets}, bounds="SETS x SEEDS " + ANY_SCHEMA + ", any records or encoded, then K steps of " + what + ", any values (lengths of 1, 2 and the maximal number of bytes)", reach=reach, opts=["--max-steps=60000000"])
ANY_SCHEMA = "generated schemas of 4 messages of up to 10 fields each (any types, labels, defaults, tags of one to five bytes, up to two oneofs and two extensions, recursion)"
ANY = dict(bounds="SETS x SEEDS " + ANY_SCHEMA + ", a message of any records or encoded, then K edits, reads and iterations at up to three levels and along branches, handles, cursors and oneofs kept in between, any values (lengths of 1, 2 and the maximal number of bytes)", opts=["--max-steps=60000000"])
prop("C11", wide("0,4", what="writes of any field, directly and through a field handle", reach=[0, 4]),
     job("put", "put.c", {"PUTS": 2}, bounds="9 message shapes with symbolic values, PUTS writes of any field with any value (strings of length 0,1,3,9,126..128)", reach=[1, 2, 3, 4, 5]),
     job("own", "put.c", {"OWN": 1, "T_WIDE_CONCRETE": 1}, bounds="a string of the message itself, or all but its first byte, written to it in 7 ways; 9 message shapes, any of the first 5 allocations failing", reach=[0, 1, 2, 3, 4, 5, 6, 8, 9]),
     any_(1, "writing any field, directly, through field handles and as a whole", "0,2,2,5", [0, 1, 10, 13, 14, 20, 25, 26]))
prop("C12", job("lengths", "hist.c", {"LENGTHS": 1, "K": 3, "PADS": 3}, {"K": 4}, bounds="three nesting levels, inner payloads of 0/112/118/122 bytes, histories of K of 15 operations", reach=list(range(15)) + [40, 41]),
     job("large", "hist.c", {"LENGTHS": 1, "BIG": 1, "K": 2, "PADS": 3}, {"K": 3}, bounds="the same with inner payloads of 0/16367/16373/16377 bytes", reach=list(range(15)) + [40, 41], opts=["--max-steps=60000000"]),
     job("long", "hist.c", {"LONG": 1, "K": 80, "SEEDS": 256, "FIRST": 0}, {"K": 160}, **LONG))
prop("C13", job("handles", "hist.c", {"HANDLES": 1, "K": 2}, {"K": 3}, bounds="histories of K of 18 operations through 3 message and 4 field handles", reach=list(range(18)) + [40, 41, 42, 43]),
     job("long", "hist.c", {"LONG": 1, "K": 80, "SEEDS": 256, "FIRST": 5000000}, {"K": 160}, **LONG),
     any_(2, "writes, erasures and cursors beside three message handles, fields, cursors and oneofs that are kept", "9,9,9,9,10,11,11,1,2,3,5", [0, 1, 10, 11, 13, 20, 24, 33, 34] + list(range(40, 59))))
prop("C05", job("events", "dec.c", {"EVENTS": 1, "N": 5}, {"N": 6}, bounds="every byte string of 1..N bytes at top level and behind 27 beginnings (inside submessages, packed fields of every encoding, strings; lengths up to 2^32 - 1, long varints and keys)", reach=[1, 2, 3, 4]))
prop("C29", job("handler", "dec.c", {"HANDLER": 1}, bounds="a message with nested, packed and repeated fields; every event, every error code", reach=[1, 2]))
prop("C30", job("stack", "dec.c", {"STACK": 1, "N": 40}, {"N": 400}, bounds="messages of N values, packed or not", reach=[0, 1, 2, 3]))
prop("C06", job("wire", "enc.c", {"E_WIRE": 1, "COUNT_MAX": 2}, {"COUNT_MAX": 3}, bounds="every type, every tag 1..2^29-1, every scalar value, strings of 0..3 bytes; up to COUNT_MAX values, packed and not", reach=[1, 2, 3]),
     job("large", "enc.c", {"E_LARGE": 1}, bounds="strings, bytes and submessages of 127/128/255/256/16383/16384/65535/65536/70000 bytes; 20 counts of values (up to 2048) around the sizes where the length prefix grows, packed and not, two of them any value", reach=[1, 2, 3]))
prop("C07", job("round", "enc.c", {"E_ROUND": 1, "ROUNDS": 2, "COUNT_MAX": 2}, {"ROUNDS": 3}, bounds="ROUNDS fields of 16, any order, any values", reach=[1, 2, 3, 4, 5]),
     long("interop.c", [2, 3, 4, 5, 6, 10, 11, 12, 13, 20, 21, 22], X_ENC=1, FIELDS=15, EDIT=1))
prop("C08", job("fail", "enc.c", {"E_FAIL": 1}, bounds="11 kinds of fields behind another one, up to 3 values, failure of any of the next 8 allocations", reach=[1, 2]))
prop("C09", job("splice", "buf.c", {"N": 2, "K": 2}, {"N": 4, "K": 2}, bounds="buffers of 0..N bytes, owned and zero-copy, K operations with any content, every valid range and every invalid 64-bit range, any allocation failing", reach=[1, 2, 3, 4, 5]),
     long("buf.c", [1, 2, 3, 4, 5], N=60))
prop("C20", job("strings", "str.c", {"N": 6}, {"N": 24}, bounds="strings of 0..N bytes", reach=[1, 2]))
prop("C21", job("tag", "desc.c", {"D_TAG": 1, "FIELDS": 3}, {"FIELDS": 5}, bounds="messages of 0..FIELDS fields of any tags, two extensions of 0..2 and 0..1 fields, five registration orders, any tag looked up", reach=[1, 2, 3, 4, 10]),
     job("name", "desc.c", {"D_NAME": 1}, bounds="messages of 0..2 fields and an extension of 0..1, names of 0..2 characters", reach=[1, 2, 3]),
     job("type", "desc.c", {"D_TYPE": 1}, bounds="every field descriptor", reach=[1]),
     job("oneof", "desc.c", {"D_ONEOF": 1}, bounds="oneofs of 0..3 members", reach=[1, 10]))
prop("C22", job("enum", "desc.c", {"D_ENUM": 1}, bounds="enums of 0..3 values, any numbers, aliases, names of 0..2 characters", reach=[1, 2, 3, 4, 10]))
prop("C24", job("chunk", "chunk.c", {"K": 3}, {"K": 4}, bounds="histories of K operations on 3 blocks, 3 capacities, 6 sizes, any allocation failing", reach=[1, 2, 3, 4, 5, 6]),
     job("sizes", "chunk.c", {"SIZES": 1, "K": 2}, {"K": 3}, bounds="every capacity and every size of 1..256 bytes, K allocations or resizes of two blocks", reach=[1, 2], opts=["--symsize=2048"]),
     long("chunk.c", [1, 3, 4, 5, 6]))
prop("C15", job("iterate", "cur.c", {"C_ITER": 1}, bounds="9 message shapes with symbolic values, every field; seeking for any value", reach=[1, 2, 3, 4, 5, 7, 20, 21]),
     job("nested", "cur.c", {"C_NESTED": 1}, bounds="6 branches of tags, repeated submessages", reach=list(range(5)) + [10, 20, 21]),
     any_(4, "iterating over any field, rewinding, and edits in between", "8,8,2,3", [0, 1, 10, 11, 20, 28]))
prop("C16", job("edit", "cur.c", {"C_EDIT": 1, "K": 4}, {"K": 5}, bounds="9 field/shape pairs, histories of K of 6 operations", reach=[0, 1, 2, 3, 4, 5, 8, 20, 21]),
     wide("2,3,0", what="traversals writing or erasing every value through a cursor, and writes", reach=[0, 2, 3, 10]),
     long("cur.c", [0, 1, 2, 3, 4, 5, 6, 8, 20, 21], C_EDIT=1),
     any_(5, "writing, erasing and moving through three cursors that are kept, and edits in between", "11,11,11,1,4,2,3", [0, 1, 10, 11, 12, 20, 24, 27] + list(range(47, 55)) + [33, 34, 57, 58]),
     job("stale", "stale.c", bounds="three values in a record each or packed, fields in front and behind or not, any value erased while a cursor is at it, then one of 7 further edits or none, any values", reach=list(range(9))))
prop("C14", job("erase", "erase.c", {"SECOND": 1}, bounds="9 message shapes with symbolic values, every field erased twice, then any field written or erased", reach=[1, 2, 3, 4, 5, 6, 7, 8]),
     wide("1,0", what="erasures and writes of any field", reach=[0, 1]),
     any_(3, "erasing any field, directly and through cursors, and writing", "2,2,3,4", [0, 1, 10, 11, 12, 20]))
prop("C17", job("oneof", "oneof.c", {"K": 3}, {"K": 5}, bounds="5 message shapes, histories of K of 10 operations", reach=[0, 7, 8, 9] + list(range(20, 30))),
     long("oneof.c", [0, 7, 8, 9] + list(range(20, 30))),
     any_(6, "writing, erasing and clearing members of two oneofs, some of them kept", "6,10,10,0,2,2,3", [0, 1, 10, 11, 21, 22, 23, 25, 44, 45], labels="0,5,7,7,7,8,8,8"))
prop("C18", job("shapes", "merge.c", {"BYTES_N": 0}, bounds="every pair of 9 message shapes with symbolic values", reach=[1, 2, 3, 4]),
     job("bytes", "merge.c", {"BYTES_N": 3}, {"BYTES_N": 4}, bounds="9 message shapes followed by every valid message of 1..BYTES_N bytes", reach=[1, 2, 3, 4]),
     any_(7, "reading and iterating over any field", "8", [0, 1, 20, 28], K=10))
prop("C19", job("default", "dflt.c", bounds="16 types, with and without default, any default value (strings of 1..3 bytes), at top level and in a submessage", reach=[1, 2, 3, 4, 5]),
     any_(8, "writing, erasing and reading fields with defaults", "0,2,3,7", [0, 1, 10, 11, 20, 25, 30, 31], labels="0,0,0,0,1,5,7"))
prop("C28", job("branch", "nested.c", {"K": 2}, {"K": 3}, bounds="5 message shapes, 8 branches, histories of K of 8 operations", reach=list(range(10, 18)) + list(range(20, 28)) + [1, 2]),
     long("nested.c", list(range(10, 18)) + list(range(20, 28)) + [1, 2]),
     any_(10, "operations along branches of two to four tags", "7,7,7,3", [0, 1, 11, 20, 30, 31, 32], labels="0,1,2,3,4,5,7"))
prop("C10", job("inplace", "zc.c", {"K": 2}, {"K": 3}, bounds="8 message shapes with symbolic values, histories of K of 10 kinds of edits on every field with any value (strings of 0, 1, 3 bytes)", reach=[0, 1] + list(range(10, 20))),
     any_(12, "writing, erasing, creating and moving cursors, directly and in submessages", "0", [20, 21, 22, 28, 50, 51, 52, 53, 54, 55, 56], ZC=1))
prop("C23", job("validate", "valid.c", {"N": 3}, {"N": 5}, bounds="every byte string of 0..N bytes behind 19 beginnings, some of them also in front of the rest of a complete message and with one or two extensions; three levels of nesting", reach=[1, 2, 3, 5, 6]),
     any_(9, "edits, validated after each", "2,3,5", [0, 1, 5, 6, 10, 11, 13, 20], labels="0,1,4,4,4,5,7", AGREE=1))
prop("C27", job("read", "arb.c", {"A_READ": 1, "N": 4}, {"N": 5}, bounds="every byte string of 1..N bytes alone, of 1..N-1 bytes behind 21 beginnings (lengths up to 2^32 - 1, long varints and keys among them); 2 to 6 fields each", reach=[1, 2, 3, 4, 5, 6, 7, 8]),
     job("edit", "arb.c", {"A_EDIT": 1, "N": 4}, {"N": 5}, bounds="the same bytes, each field written, erased, and written and erased through a cursor", reach=list(range(10, 16))))
prop("C04", job("safe", "dec.c", {"SAFE": 1, "N": 5}, {"N": 6}, bounds="every byte string of 1..N bytes alone and of N or 4 bytes behind 15 beginnings (lengths up to 2^32 - 1, long varints and keys among them); all 17 types, recursive submessages", reach=[1, 2, 3, 4, 5]))
prop("C25", job("messages", "inv.c", {"I_MESSAGE": 1}, bounds="13 ways a message becomes invalid, 19 operations and those on what they return, each repeated", reach=list(range(13)) + list(range(20, 39)) + list(range(40, 53))),
     job("handles", "inv.c", {"I_HANDLE": 1}, bounds="9 message shapes with symbolic values, every field, 7 ways a field or cursor becomes invalid, every operation repeated", reach=list(range(13)) + list(range(40, 47))),
     job("destroyed", "inv.c", {"I_DESTROYED": 1}, bounds="buffers, encoders, journals and messages, filled, emptied and empty, destroyed once or twice", reach=list(range(7))),
     job("core", "inv.c", {"I_CORE": 1}, bounds="buffers, decoders, validators, encoders, journals, oneofs; every error code", reach=list(range(9))))
ALLOC_LONG = {"LONG": 1, "K": 60, "SEEDS": 256, "MAXF": 12, "FAILS": 2}
ALLOC_LONG_B = "SEEDS fixed histories of up to K of these edits, allocations failing in a third of them, until a failing edit changes the message; symbolic values in the first 30"
ALLOC_REACH = list(range(16)) + [20, 21, 22, 23]
prop("C26", job("edits", "alloc.c", {"K": 1, "FAILS": 1, "MAXF": 12, "T_WIDE_CONCRETE": 1}, bounds="9 message shapes with symbolic values, 16 kinds of edits on every field and through handles, any one allocation failing", reach=ALLOC_REACH),
     job("pairs", "alloc.c", {"K": 2, "FAILS": 1, "MAXF": 12, "T_CONCRETE": 1}, {"FAILS": 2}, bounds="the same on fixed values, every pair of edits, any allocation of the first (thorough: of both) failing", reach=ALLOC_REACH),
     job("whole", "alloc.c", {"K": 1, "FAILS": 1, "MAXF": 12, "T_CONCRETE": 1, "WHOLE": 1}, bounds="9 message shapes with fixed values, 16 kinds of edits, any one allocation failing; what is left behind is decoded", reach=ALLOC_REACH + [30]),
     job("long", "alloc.c", dict(ALLOC_LONG, FIRST=0), {"SEEDS": 2048}, bounds=ALLOC_LONG_B, reach=ALLOC_REACH[:-2] + [23, 24], opts=["--max-steps=60000000"]))
prop("C31", job("core", "own.c", {"O_CORE": 1, "K": 2}, bounds="histories of K operations on buffers and encoders with any content, any allocation of each failing; decoding and validating 9 message shapes", reach=[0, 1, 2, 3, 10, 11]),
     job("edits", "alloc.c", {"K": 1, "FAILS": 1, "MAXF": 12, "T_WIDE_CONCRETE": 1}, bounds="9 message shapes with symbolic values, 16 kinds of edits, any one allocation failing", reach=ALLOC_REACH),
     job("pairs", "alloc.c", {"K": 2, "FAILS": 1, "MAXF": 3, "T_CONCRETE": 1}, {"FAILS": 2, "MAXF": 6}, bounds="the same on fixed values, every pair of edits, any of the first allocations of the first (thorough: of both) failing", reach=ALLOC_REACH[:-2] + [23]),
     job("long", "alloc.c", dict(ALLOC_LONG, FIRST=5000, SEEDS=128), {"SEEDS": 2048}, bounds=ALLOC_LONG_B, reach=ALLOC_REACH[:-2] + [23, 24], opts=["--max-steps=60000000"]))
GEN = dict(generated=True)
prop("C32", job("descriptors", [], {"P_DESCRIPTORS": 1}, bounds="every message, enumeration and oneof of three schema files (all types, labels, defaults, oneofs, nested types, extensions in several scopes and packages), any tag or number looked up", reach=[30, 31, 32, 33, 34, 35], **GEN),
     job("accessors", [], {"P_ACC": 1, "NB": 3}, {"NB": 4}, bounds="every accessor generated for the schemas, field absent or present with any value, any value written (strings of 1..2 bytes); constructors on any NB bytes", reach=[0, 1] + list(range(10, 18)) + [21, 23], **GEN),
     job("encoders", [], {"P_ENCODERS": 1, "NB": 2}, {"NB": 3}, bounds="every encoder generated for the schemas, 1..2 values of any value, submessages empty or with one field; decoders on any NB bytes", reach=[18, 19, 20, 22], **GEN))
prop("C33", job("edits", "interop.c", {"X_EDITS": 1, "K": 1}, {"K": 2}, bounds="9 message shapes with symbolic values, with and without required fields, K edits of any field of 4 kinds, then decoded and validated", reach=[2, 3, 4, 5, 6, 10, 11, 12, 13]),
     job("encoded", "interop.c", {"X_ENC": 1, "FIELDS": 1, "EDIT": 1}, {"FIELDS": 2}, bounds="encoder output of FIELDS fields of 16, one or two values, empty and filled submessages, opened as a message and edited", reach=[2, 3, 4, 5, 6, 10, 11, 12, 13, 20, 21, 22]),
     job("order", "interop.c", {"X_ENC": 1, "FIELDS": 2, "EDIT": 0}, bounds="encoder output of FIELDS fields in any order, opened as a message, decoded and validated", reach=[2, 3, 4, 5, 6, 20, 21, 22]),
     long("interop.c", [2, 3, 4, 5, 6, 10, 11, 12, 13], X_EDITS=1),
     any_(11, "edits, decoded and validated after each", "0,1,2,3,4,5,7", [0, 1, 2, 3, 4, 5, 6, 10, 11, 12, 13, 20], AGREE=1))
prop("C34", job("embed", "embed.c", {"K": 2, "LISTS": 1}, {"K": 3}, bounds="bytes fields (optional and repeated, at top level and in a submessage) holding a message of 4 shapes, with another one inside; histories of K of 18 edits in, around and of the bytes", reach=list(range(10, 16)) + list(range(20, 26)) + [30, 40, 41]),
     long("embed.c", list(range(10, 16)) + list(range(20, 26)) + [30, 31, 40, 41], LISTS=1))
prop("C35", job("pairs", "back.c", {"K": 1, "OTHERS": 1}, {"OTHERS": 3}, bounds="an accounting allocator and chunk allocators of 5 capacities shared by two messages and an encoder; 9 (thorough: 27) pairs of shapes with symbolic values, K edits or transfers of any field, three orders of destruction", reach=[0, 1, 10, 11, 12, 13, 20, 21, 30, 31, 32, 33, 34, 40, 41, 42]),
     long("back.c", [0, 1, 10, 11, 12, 13, 20, 21, 30, 31, 32, 33, 34, 40, 41, 42], OTHERS=3))
def dbg(name, src, defs, what, **kw): return job(name, src, defs, bounds="with assertions: " + what, ndebug=False, **kw)
prop("C36", dbg("uses", "dbg.c", {"K": 2}, "histories of K of 10 operations along branches, with empty strings and with fields of tag zero", reach=list(range(10))),
     dbg("writes", "put.c", {"PUTS": 1}, "as C11, PUTS writes"), dbg("own", "put.c", {"OWN": 1, "T_WIDE_CONCRETE": 1}, "as C11"), dbg("erasures", "erase.c", {"SECOND": 0}, "as C14"), dbg("types", "wide.c", {"K": 1, "OPS": "0,1,2,3,4"}, "messages with fields of all types"),
     dbg("edits", "interop.c", {"X_EDITS": 1, "K": 1}, "as C33"), dbg("encoded", "interop.c", {"X_ENC": 1, "FIELDS": 1, "EDIT": 1}, "as C33"), dbg("embedded", "embed.c", {"K": 1, "LISTS": 1}, "as C34, K edits"),
     dbg("branches", "nested.c", {"K": 1}, "as C28, K operations"), dbg("cursors", "cur.c", {"C_EDIT": 1, "K": 3}, "as C16, K operations"), dbg("oneofs", "oneof.c", {"K": 2}, "as C17, K operations"),
     dbg("inplace", "zc.c", {"K": 1}, "as C10, K edits"), dbg("decoder", "dec.c", {"SAFE": 1, "N": 3}, "as C04, N bytes"), dbg("validator", "valid.c", {"N": 2}, "as C23, N bytes"),
     dbg("read", "arb.c", {"A_READ": 1, "N": 3}, "as C27, N bytes"), dbg("edit", "arb.c", {"A_EDIT": 1, "N": 2}, "as C27, N bytes"), dbg("invalid", "inv.c", {"I_HANDLE": 1}, "as C25"), dbg("unusable", "inv.c", {"I_MESSAGE": 1}, "as C25"),
     dbg("streams", "stream.c", {"N": 8}, "as C03, N bytes"), dbg("failures", "alloc.c", {"K": 1, "FAILS": 1, "MAXF": 12, "T_CONCRETE": 1}, "as C26"),
     job("long", "hist.c", {"LONG": 1, "K": 60, "SEEDS": 256, "FIRST": 9000000}, {"K": 160}, ndebug=False, **dict(LONG, bounds="with assertions: " + LONG["bounds"])))
prop("C37", job("schemas", "any.c", {"LONG": 1, "K": 60, "SEEDS": 256, "SETS": 32, "FIRST": 0}, {"SETS": 128, "K": 80}, reach=[0, 1, 2, 3, 4, 5, 6, 10, 11, 12, 13, 14, 20, 21, 22, 23, 24, 25, 26, 27, 28, 30, 31, 32, 33, 34] + list(range(40, 59)), **ANY),
     job("asserted", "any.c", {"LONG": 1, "K": 60, "SEEDS": 256, "SETS": 8, "FIRST": 700000000}, {"SETS": 32, "K": 80}, ndebug=False, reach=[0, 1, 2, 3, 4, 5, 6, 10, 11, 12, 13, 14, 20, 21, 22, 23, 24, 25, 26, 27, 28, 30, 31, 32, 33, 34] + list(range(40, 59)), **dict(ANY, bounds="with assertions: " + ANY["bounds"])))
