"""The properties, as written to properties.jsonl by mkdocs.py."""
PROPS = []; NA = {}
def P(id, title, statement, over, qtext, why, files, mech, state=()):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over.split(","), text=qtext), why_tests_cant=why,
                      anchors=dict(files=files.split(","), mechanism=[dict(name=m.split("@")[0], where=m.split("@")[1]) for m in mech],
                                   **({"state": [dict(zip(("name", "meaning", "where"), s)) for s in state]} if state else {}))))

P("C01", "Varint encoding round-trips every value",
  "Every value of every variable-length integer type (signed, unsigned, zig-zag, boolean, enumeration, 32 and 64 bit) is packed into exactly the bytes the Protocol Buffers wire format prescribes, with the announced size, and unpacking those bytes yields the same value and consumes exactly that many bytes.",
  "inputs", "all values of all varint types", "Tests pack and unpack a dozen constants; there are 2^64 values with size boundaries every seven bits.",
  "src/core/varint.c,src/core/varint.h", ["packing and unpacking per type@src/core/varint.c", "zig-zag@src/core/varint.c"])
P("C02", "Decoding a varint never reads outside the bytes given and rejects malformed ones",
  "For any bytes and any number of them, decoding or measuring a variable-length integer reads no byte outside those given; it either yields the value the wire format assigns to the bytes together with their length, or reports that they do not form an integer of the type.",
  "inputs", "all byte strings, truncated or overlong ones included", "Tests try a few malformed encodings; reads just past the end are invisible without exact bounds for every length.",
  "src/core/varint.c", ["scanning for the last byte@src/core/varint.c", "unrolled unpacking@src/core/varint.c"])
P("C03", "Reading and skipping values never leaves the buffer",
  "Reading or skipping one value of any type or wire type at any offset of any buffer either succeeds, yields the value encoded there and moves the position exactly behind it, within the buffer, or returns an error; nothing outside the buffer is read and unknown wire types are errors.",
  "inputs", "all buffers, offsets, types and wire types", "Tests read well-formed values and some truncated ones, not every length prefix at every distance from the end.",
  "src/core/stream.c,src/core/stream.h", ["bounds checks of advance, read and skip@src/core/stream.c", "length prefixes@src/core/stream.c"],
  [("offset", "position in the buffer, never past its end", "src/core/stream.h")])
P("C04", "Decoding arbitrary bytes is memory-safe and terminates",
  "Decoding any byte string against any descriptor, submessages included, ends after a number of steps bounded by its size, reads nothing outside the string, hands the handler only values that lie within it, and returns success or an error code.",
  "inputs", "all byte strings up to the bound, descriptors with every field type", "Tests decode valid messages and a few truncations; hostile input is any byte string.",
  "src/core/decoder.c,src/core/stream.c,src/core/varint.c", ["wire type dispatch@src/core/decoder.c", "packed fields@src/core/decoder.c", "stream bounds@src/core/stream.c"])
P("C05", "Decoding delivers exactly the fields of the message, in order",
  "The decoder calls its handler once per value of every known field, in wire order, with the value the wire format assigns to it; fields that are unknown or have an unexpected wire type are skipped, packed and non-packed encodings of a repeated field are both understood, and success is returned exactly if the bytes are well-formed.",
  "inputs", "all byte strings at top level and inside submessages, strings and packed fields", "Tests compare a handful of messages; order, skipping and packing interact for every byte string.",
  "src/core/decoder.c", ["field dispatch@src/core/decoder.c", "packed decoding@src/core/decoder.c"])
P("C06", "Encoding produces the Protocol Buffers wire format",
  "Encoding values for a field appends exactly the bytes the wire format prescribes: key, length prefix where due, one record per value or one packed record if the field is packed and more than one value is given; what was encoded before is left as it is.",
  "inputs", "all types, tags and values", "Tests compare constants for a few tags; tag and value sizes vary independently over all boundaries.",
  "src/core/encoder.c,src/core/buffer.c", ["per type encoders@src/core/encoder.c", "length prefixes@src/core/encoder.c"])
P("C07", "Decoding what was encoded yields the same values",
  "Decoding an encoded message yields the same values for the same fields in the same order, whatever the order, number and values of the fields, packed or not, strings and submessages included.",
  "inputs,programs", "all sequences of fields with all values", "Tests round-trip fixed messages.",
  "src/core/encoder.c,src/core/decoder.c", ["encoder@src/core/encoder.c", "decoder@src/core/decoder.c"])
P("C08", "A failed encoding is reported and leaves the encoder as it was",
  "When memory cannot be allocated while encoding a field, the encoder reports an allocation error, holds exactly the bytes it held before, and remains usable and destroyable.",
  "fault_sequences", "any allocation failing", "Tests fail the first allocation of few calls; each value may need several.",
  "src/core/encoder.c,src/core/buffer.c", ["error propagation@src/core/encoder.c", "buffer growth@src/core/buffer.c"])
P("C09", "Buffer writes replace exactly the given range",
  "Writing data over or clearing a range of a buffer replaces exactly that range and keeps all bytes in front and behind in order, even if the range is empty or the data larger or smaller than it; ranges outside the buffer are rejected and a failed allocation leaves contents and size unchanged.",
  "inputs,histories,fault_sequences", "all contents, ranges and data, histories of writes and clears, any allocation failing", "Tests write at a few offsets.",
  "src/core/buffer.c", ["splicing@src/core/buffer.c", "range checks@src/core/buffer.c"],
  [("data, size", "contents, exactly size bytes allocated", "include/protobluff/core/buffer.h")])
P("C10", "Zero-copy messages change in place or not at all",
  "An operation on a message over externally owned bytes either succeeds without changing their number, leaving exactly the message the operation calls for in place, or reports an error and leaves every byte as it was; the library never resizes, moves or frees bytes it does not own.",
  "inputs,histories", "every kind of write and erase on message shapes with any values", "Tests check one size-changing write; each operation consists of several partial writes that may fail half way.",
  "src/core/buffer.c,src/message/journal.c,src/message/part.c", ["zero-copy allocator@src/core/buffer.c", "part updates@src/message/part.c"])
P("C11", "Writing a field makes it read as written and touches nothing else",
  "After a value or submessage is written to a field, reading the field yields it, and every other field, unknown fields included, keeps its bytes and order, also if the value written is a string that lies in the message itself; writing an optional field replaces its visible value, writing a repeated one appends.",
  "inputs,histories", "all fields and values on messages of any shape, with unknown, repeated, packed, out-of-order and mistyped fields", "Tests write to small well-formed messages; neighbours and encodings vary.",
  "src/message/message.c,src/message/part.c,src/message/field.c,src/message/cursor.c", ["finding or creating the place@src/message/part.c", "splicing@src/message/journal.c"])
P("C12", "Enclosing length prefixes follow every nested edit",
  "After any edit at any depth of a message, through submessages or branches of tags, all enclosing length prefixes are correct and minimal, so the whole message consists of exactly the bytes the edits call for, also when a prefix itself changes its size.",
  "histories,inputs", "histories of writes and erasures on three levels of nesting, with payload sizes around the prefix boundaries", "Tests nest with small payloads; the interesting sizes lie where prefixes of several levels grow or shrink at once.",
  "src/message/part.c,src/message/journal.c", ["prefix adjustment@src/message/part.c", "journal entries@src/message/journal.c"])
P("C13", "Live handles keep denoting their field across other edits",
  "A field, submessage or cursor handle keeps denoting the same field, however often other parts of the message change their size or are erased through other handles; handles of something that was erased report an error instead of touching anything else.",
  "histories", "histories of edits through seven handles at a time", "Tests use one or two handles and one edit; handles are re-aligned lazily over whole edit histories.",
  "src/message/journal.c,src/message/part.c,src/message/cursor.c", ["journal of changes and lazy alignment@src/message/journal.c", "part alignment@src/message/part.c"],
  [("version", "the change up to which a handle is aligned", "include/protobluff/message/part.h")])
P("C14", "Erasing a field removes all of its occurrences and nothing else",
  "Erasing a field removes every occurrence of it (of a oneof: every member), leaves all other bytes alone, and succeeds also if there is none; afterwards the field is absent and can be written again.",
  "inputs,histories", "every field of messages of any shape", "Tests erase single occurrences in small messages.",
  "src/message/message.c,src/message/cursor.c,src/message/part.c", ["erasing while iterating@src/message/message.c", "packed fields@src/message/part.c"])
P("C15", "Cursors visit every value of a field once, in order",
  "A cursor over a repeated field visits every value exactly once in wire order, in packed and non-packed encoding and any mixture, and then reports the end of the message; over an optional field it is at the last value; seeking stops at exactly the next equal value, and reading never changes the message.",
  "inputs", "all fields of messages of any shape; any value sought", "Tests iterate over uniform encodings.",
  "src/message/cursor.c", ["stepping over records and packed values@src/message/cursor.c", "seeking@src/message/cursor.c"],
  [("position, packed context", "where the cursor is and in which packed field", "include/protobluff/message/cursor.h")])
P("C16", "Editing through a cursor while iterating is sound",
  "Writing or erasing the value at a cursor changes that value only, a cursor goes on with the next value after an edit (its own, or one through the message), skips none and visits none twice, and an erased value can no longer be read or written.",
  "histories,inputs", "histories of moves, writes, erasures and edits of other fields", "Tests erase in one fixed pattern.",
  "src/message/cursor.c,src/message/part.c,src/message/journal.c", ["alignment of cursors@src/message/cursor.c", "packed context@src/message/cursor.c"])
P("C17", "Of a oneof at most one member is ever visible",
  "Whatever members of a oneof a message contains and in whatever order they are written and erased, at most one member is visible: the one written last; it is the one the oneof reports, reads of the others find nothing, clearing the oneof removes all members, and unrelated fields neither hide a member nor change.",
  "histories,inputs", "histories of writes, erasures and clears of members and unrelated fields on messages of several shapes", "Tests write members in one order.",
  "src/message/oneof.c,src/message/cursor.c,src/message/part.c", ["active member@src/message/cursor.c", "erasing superseded members@src/message/part.c", "case and clear@src/message/oneof.c"])
P("C18", "Concatenated messages read as merged",
  "The concatenation of two encoded messages decodes to the values of the first followed by those of the second, and reads as their merge: of singular fields and oneofs the last value wins, repeated fields are concatenated.",
  "inputs", "pairs of messages of any shape, and a message followed by any valid bytes", "Tests hold hardly any message with repeated occurrences.",
  "src/core/decoder.c,src/message/cursor.c,src/message/message.c,src/message/oneof.c", ["last occurrence@src/message/cursor.c", "decoding@src/core/decoder.c"])
P("C19", "Absent fields read as their default, and only when absent",
  "Reading an absent optional or required field yields its default if it has one and otherwise reports it absent without touching the caller's memory; a field that is present always reads as its own value, even if that is empty or zero, and creating a field explicitly writes its default, or zero, only if the field was absent.",
  "inputs", "all types and default values", "Tests cover one default per type and never a present value that looks like none.",
  "src/message/message.c,src/message/field.c", ["defaults on reads@src/message/message.c", "defaults on creation@src/message/field.c"])
P("C20", "String equality compares size and content",
  "Two strings are equal exactly if they have the same size and the same bytes, whatever the bytes.",
  "inputs", "all pairs of strings up to the bound", "Tests compare a few constants.", "include/protobluff/core/string.h", ["comparison@include/protobluff/core/string.h"])
P("C21", "Descriptor lookups find exactly the defined fields",
  "Looking up a field by tag or name finds it exactly if the message or one of its registered extensions defines it, also with gaps in the tags; iterators visit all fields, members of oneofs included, forwards and backwards, in order and once; registering extensions in any order, or twice, loses none.",
  "configurations,inputs", "all descriptors up to the bound and all tags and names", "Tests use one descriptor.",
  "src/core/descriptor.c,src/util/descriptor.c,include/protobluff/core/descriptor.h", ["lookup@src/core/descriptor.c", "lookup by name@src/util/descriptor.c", "iterators@src/core/descriptor.c", "extension chain@src/core/descriptor.c"])
P("C22", "Enumeration lookups find exactly the defined values",
  "Looking up an enumeration value by number or name finds it exactly if it is defined, also for negative, sparse and aliased numbers, and iterators visit all values in both directions.",
  "configurations,inputs", "all enumerations up to the bound, all numbers and names", "Tests use one enumeration with small numbers.",
  "src/core/descriptor.c,src/util/descriptor.c", ["lookup@src/util/descriptor.c"])
P("C23", "Validation accepts exactly the complete, well-formed messages",
  "The validator accepts a buffer exactly if it decodes and every required field is present at every level of nesting; otherwise it returns the decoding error or reports the absent field, never reads outside the buffer and never runs out of its own bookkeeping, whatever fields occur how often.",
  "inputs,configurations", "all byte strings up to the bound behind several beginnings, descriptors with nesting, repetition and extensions", "Tests validate a few messages.",
  "src/util/validator.c,src/core/decoder.c", ["counting occurrences@src/util/validator.c", "recursion@src/util/validator.c"])
P("C24", "The chunk allocator hands out usable, disjoint, stable memory",
  "Blocks handed out by the chunk allocator are as large as requested, do not overlap, and keep their contents until freed or resized; resizing preserves the contents up to the smaller size, a failed allocation returns nothing and leaves the block as it was, and destroying the allocator frees everything.",
  "histories,inputs,fault_sequences", "histories of allocations, resizes and frees of any sizes, any allocation failing", "Tests allocate a few fixed sizes.",
  "src/util/chunk_allocator.c", ["chunk growth@src/util/chunk_allocator.c"], [("capacity", "bytes available in a chunk", "src/util/chunk_allocator.c")])
P("C25", "Operations on invalid structures fail and touch nothing",
  "Every operation on an invalid buffer, journal, message, field, cursor, oneof or encoder returns an error, zero or another invalid structure, reads and writes no memory through it, and can be repeated and followed by destruction; operations on something valid that involve something invalid leave the valid one unchanged.",
  "inputs,fault_sequences,programs", "every public operation, every way a structure becomes invalid", "Tests cover one call per kind.",
  "src/message/message.c,src/message/field.c,src/message/cursor.c,src/message/oneof.c,src/message/nested.c,src/message/journal.c,src/core/encoder.c,src/core/decoder.c,src/util/validator.c", ["validity checks@src/message"])
P("C26", "A failed allocation during an edit is reported and corrupts nothing",
  "When memory cannot be allocated while a message is edited, the operation reports an error, no memory outside the message's own is touched or leaked, what was read before through other handles stays readable or reports an error, the bytes left behind are still a message, and everything can be destroyed.",
  "fault_sequences,histories", "any one allocation failing in histories of edits", "Tests fail allocations in single calls on small messages.",
  "src/message/journal.c,src/message/part.c,src/core/buffer.c", ["error propagation@src/message/part.c", "journal growth@src/message/journal.c"])
P("C27", "Reading arbitrary bytes as a message is safe and agrees with the decoder",
  "Any byte string can be opened as a message: tests, reads and iterations terminate, read nothing outside the bytes and change nothing; if the bytes are well-formed, every field reads as the last value the decoder delivers for it and cursors visit exactly the values the decoder delivers.",
  "inputs", "all byte strings up to the bound, at top level and inside submessages and packed fields", "Tests read garbage in a few forms; two independent parsers must agree on every byte string.",
  "src/message/cursor.c,src/message/message.c,src/message/part.c,src/core/decoder.c", ["cursor parsing@src/message/cursor.c", "decoder parsing@src/core/decoder.c"])
P("C28", "Operations along a branch of tags equal going step by step",
  "Testing, matching, reading, writing, erasing and creating along a branch of tags has the same result and effect as descending into each submessage in turn; reads and erasures never create submessages, writes create exactly the missing ones.",
  "inputs,histories", "branches of two and three tags on messages of several shapes, any values", "Tests use one branch that is present.",
  "src/message/nested.c,src/message/message.c,src/message/cursor.c,src/message/field.c", ["resolving the branch@src/message/nested.c", "creating the branch@src/message/message.c"])
P("C29", "A handler's error stops decoding at once and is returned",
  "If the handler returns an error for any value, at any depth, decoding stops without a further call and returns exactly that error.",
  "inputs,fault_sequences", "every event of a message, every error code", "Tests return an error from the first call.", "src/core/decoder.c", ["error propagation@src/core/decoder.c"])
P("C30", "Stack use of decoding does not grow with the message",
  "The stack space used to decode a message of fixed nesting does not depend on the number of its fields or values.",
  "inputs", "messages with increasing numbers of values, packed or not", "Tests decode small messages, a stack overflow shows only with large ones.", "src/core/decoder.c", ["temporaries of the decoding loop@src/core/decoder.c"])
P("C31", "Memory is taken from and returned to the given allocator only",
  "Buffers, journals and encoders created with an allocator take all their memory from it and return every block exactly once by the time they are destroyed, also after failures; messages, fields, cursors, oneofs, decoders and validators need no memory that outlives them.",
  "histories,fault_sequences", "histories of operations with any allocation failing", "Tests do not count allocations over histories with failures.",
  "src/core/buffer.c,src/message/journal.c,src/core/encoder.c,src/core/allocator.c", ["allocator calls@src/core/buffer.c", "journal entries@src/message/journal.c"])
P("C32", "Generated accessors do what their names say on the schema's fields",
  "For every field of a schema the generated functions to encode, test, read, write, create, erase and iterate it, along branches and per enumeration value, are equivalent to the generic operation with that field's tag, and generated tags, descriptors and defaults are those of the schema.",
  "programs,inputs", "schemas with all types, labels, options, nesting, oneofs and extensions; all values", "The generator has no tests at all.",
  "src/generator/field.cc,src/generator/message.cc,src/generator/oneof.cc,src/generator/enum.cc,src/generator/extension.cc,src/generator/file.cc", ["field printing@src/generator/field.cc", "message printing@src/generator/message.cc"])
P("C33", "Messages, encoder, decoder and validator agree on the same bytes",
  "What a message contains after any edits is exactly what decoding its bytes delivers, at every level of nesting, and validation accepts it exactly if its required fields are present; what an encoder produced can be opened, read and edited as a message with the values that were encoded.",
  "inputs,histories", "all edits and encoder calls up to the bound on several message shapes, any values", "Tests exercise each component against hand-written bytes; four implementations of one format must agree on everything any of them produces.",
  "src/message/message.c,src/message/part.c,src/core/encoder.c,src/core/decoder.c,src/util/validator.c", ["write path@src/message/part.c", "decoding loop@src/core/decoder.c", "encoding@src/core/encoder.c"])
P("C34", "A bytes field can be edited as a message in place",
  "A message opened over a bytes field reads and edits the bytes of that field: the field reads as the edited message, the lengths of the field and of everything around it follow, edits around it keep it valid, and it ends with the field. This nests.",
  "inputs,histories", "histories of edits in, around and of bytes fields, any values", "Tests open one bytes field and read one value.",
  "src/message/message.c,src/message/part.c,src/message/journal.c,src/message/field.c", ["pb_message_create_from_field@src/message/message.c", "length prefixes@src/message/part.c"])
P("C35", "Messages sharing an allocator are independent of each other",
  "Whatever allocator their memory comes from - the default, a chunk allocator of any capacity, or the user's - messages and encoders sharing it each contain what their own history calls for, values and submessages of one can be written to another, and destroying one, in any order, leaves the others intact.",
  "histories,inputs,configurations", "histories of edits of two messages and an encoder, allocators of several capacities", "Tests use one message at a time and the default allocator.",
  "src/message/journal.c,src/core/buffer.c,src/core/encoder.c,src/util/chunk_allocator.c,src/message/message.c", ["journal storage@src/message/journal.c", "chunk growth@src/util/chunk_allocator.c"])
P("C36", "Assertions hold in debug builds",
  "In builds with assertions no assertion fails, whatever bytes are decoded, validated, skipped, opened or edited as a message - well-formed or not - and whatever values are written, empty strings included, as long as tags are those of the schema, values of enumerations are declared and pointers are given; results are those of builds without assertions.",
  "inputs,histories,configurations,fault_sequences", "the histories and inputs of the other properties within smaller bounds, compiled with assertions", "Tests and the default build compile assertions out: neither too strict nor violated ones are ever noticed.",
  "src/core,src/message,src/util", ["assertions@src/message/part.c", "assertions@src/core/descriptor.c", "checks in debug builds@src/message/nested.c"])
P("C37", "Messages of any schema behave as their descriptors say",
  "The library is driven by descriptors alone: for every schema - fields of any types, labels and defaults, any tags, several oneofs, extensions, recursion - messages, cursors, fields, oneofs, encoders, decoders and the validator do what they do for any other schema; extension fields behave as regular fields, and members of one oneof leave those of another alone.",
  "configurations,histories,inputs", "generated schemas, histories of edits at several levels, any values", "Tests use a handful of small schemas, each with a single feature.",
  "src/core/descriptor.c,src/message/message.c,src/message/part.c,src/message/cursor.c,src/message/oneof.c,src/core/encoder.c,src/core/decoder.c,src/util/validator.c", ["descriptor lookup@src/core/descriptor.c", "oneof membership@src/message/part.c", "extension chain@src/util/validator.c"])
