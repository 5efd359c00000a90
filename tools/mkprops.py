#!/usr/bin/env python3
"""Writes properties.jsonl (the statements live here, one place)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               observe_at=list(observe), hook_needed=None)))


p("C01", "Integer and float reads return exactly the specified value",
  "Reading a number of any width from 0 to its container's width, in either endianness and either bit order, through any of the "
  "context forms (bit size, byte size, endianness, bit order, combinations or none), returns exactly the value those bits denote "
  "(zero-extended, or sign-extended for signed types) and consumes exactly those bits, whatever alignment the stream is at. "
  "Bits of a partly used byte stay available for the next read, in the same order. "
  "A size larger than the container is refused with a parse error and consumes nothing.",
  ["inputs"], "all stream contents, all numbers of pending bits (0..8), all bit/byte sizes, both endians, both bit orders, all integer and float types",
  "Tests sample some two hundred (value, size, order) triples, nearly all at alignment 0; the product of container, size, endian, order and alignment has more than 20 000 shapes, each over all byte values.",
  ["src/impls/primitive.rs", "src/reader.rs", "src/lib.rs"],
  [("DekuReader impls for integers and floats", "src/impls/primitive.rs"), ("Reader::read_bits_into, read_bits_uint_msb0, read_bytes*", "src/reader.rs")],
  [("Reader::leftover", "bits of the last byte not yet consumed", "src/reader.rs"), ("Reader::bits_read", "bits consumed so far", "src/reader.rs")],
  ["return value of from_reader_with_ctx", "Reader::bits_read", "Reader::rest", "position of the inner stream"])
p("C02", "Integer and float writes emit the specified bits or refuse the value",
  "Writing a number as a bit field puts exactly the bits denoting it on the output, after the bits already pending in that order, and keeps the rest of "
  "an unfinished byte pending; a byte-sized write emits that many low-order bytes in the requested endianness. "
  "A value that does not fit in the requested number of bits, or a size larger than the container, is refused with an invalid-parameter error before anything reaches the output. "
  "Zero-width fields write nothing.",
  ["inputs"], "all values of all integer types, all sizes, both endians, both bit orders, all numbers of pending bits (0..7)",
  "Tests sample a few values per type, mostly byte aligned; fit checks exist in five different formulations (signed/unsigned, endian, fast path) whose boundary is only visible at specific (value, width) pairs.",
  ["src/impls/primitive.rs", "src/writer.rs"],
  [("DekuWriter impls for integers and floats", "src/impls/primitive.rs"), ("Writer::write_bits_uint_msb0, write_bits_order, write_bytes", "src/writer.rs")],
  [("Writer::leftover", "pending bits and their order", "src/writer.rs"), ("Writer::bits_written", "bits that reached the output", "src/writer.rs")],
  ["bytes received by the sink", "Writer::rest", "Writer::bits_written", "error kind"])
p("C03", "The reader accounts for every bit of the stream",
  "Through any sequence of bit reads, byte reads, skips, end checks and seeks, the reader hands out each stream bit exactly once and in order, its read counter equals "
  "the number of bits consumed since the start (or the absolute bit position after a seek), and its rest is exactly the unread part of the last byte taken from the stream. "
  "Asking whether the stream is at its end never loses, invents or counts data, and it takes no more bytes from the stream than the request needs.",
  ["inputs", "histories"], "all stream contents and lengths, all reader states (pending bits 0..7 or a buffered byte), all amounts, both bit orders, all operation sequences",
  "Tests exercise the reader through whole structures; state combinations such as a byte buffered by an end check followed by a skip or a relative seek are reached by none of them.",
  ["src/reader.rs"],
  [("Reader::read_bits, read_bits_into, read_bytes, read_bytes_const, read_bytes_const_into", "src/reader.rs"), ("Reader::skip_bits, end, rest, seek", "src/reader.rs")],
  [("Reader::leftover", "bits or byte taken from the stream but unread", "src/reader.rs"), ("Reader::bits_read", "bits consumed", "src/reader.rs")],
  ["Reader::bits_read", "Reader::rest", "inner stream position"])
p("C04", "What is written is read back unchanged",
  "For every value of a supported type that can be written under a given configuration (sizes, endianness, bit order of a whole byte run, container limits), writing it and reading the result with the same "
  "configuration yields an equal value and consumes exactly the bytes written; and for every input that parses with no information-discarding attribute, writing the parsed value reproduces the consumed bytes.",
  ["inputs", "programs"], "all values, all inputs; integers in every shape, and a catalogue of derived structs and enums combining the attributes",
  "Tests compare a handful of literals per type; a round trip failure needs a particular width, sign and alignment, or a combination of attributes.",
  ["src/impls", "deku-derive/src/macros/deku_read.rs", "deku-derive/src/macros/deku_write.rs"],
  [("reader and writer impls", "src/impls"), ("generated from_reader_with_ctx / to_writer", "deku-derive/src/macros")],
  (), ["to_bytes / from_bytes of derived types", "to_writer / from_reader_with_ctx"])
p("C05", "Truncated input and I/O errors are reported as such, never as data",
  "When the input ends before a value is complete, reading reports an incomplete error; when the underlying stream fails with an I/O error, reading and writing report that error's kind. "
  "Neither is ever turned into a value, into the end of the data, or silently dropped, and what reached the output before a failed write is a prefix of the intended output.",
  ["inputs", "fault_sequences"], "every type in the catalogue, every truncation point, every position at which the stream fails, both bit orders, all alignments",
  "Tests truncate a few inputs and never inject I/O errors; the code has a dozen separate read_exact/write_all call sites with their own error mapping.",
  ["src/reader.rs", "src/writer.rs", "src/impls", "src/lib.rs", "src/error.rs"],
  [("error mapping around read_exact and write_all", "src/reader.rs, src/writer.rs"), ("Error conversion", "src/error.rs")],
  (), ["returned DekuError variant", "bytes in the sink"])
p("C06", "No input makes parsing or writing panic",
  "Parsing arbitrary bytes, of any length, as any derived type whose sizes, counts, offsets, conditions and ids come from the data returns a value or an error: it never panics, overflows, "
  "loops without consuming input, or allocates memory out of proportion to the input. Writing or updating the resulting value, or any value a user can construct, returns a result and does not panic either.",
  ["inputs", "programs"], "all byte strings; catalogue of derived types with runtime-evaluated attributes; all reader states and sizes for the primitive reads",
  "Tests use well-formed inputs; the panics found here needed sizes such as usize::MAX, zero widths, or unaligned pending bits.",
  ["src/impls", "src/reader.rs", "src/writer.rs", "src/lib.rs", "deku-derive/src/macros"],
  [("size checks, saturating arithmetic, cautious capacity", "src/impls/mod.rs, src/impls/vec.rs, src/impls/primitive.rs")],
  (), ["return of from_bytes / from_reader / to_bytes"])
p("C07", "Collection limits select exactly the specified elements",
  "A collection read with a count yields exactly that many elements; with a predicate, every element up to and including the first that satisfies it; with a byte or bit limit, elements until exactly that much has been consumed; "
  "with read-to-end, every element up to the end of the stream and no error there. "
  "The elements are the ones successive single reads would give, in order, and nothing past the last element is consumed; writing emits the elements in iteration order.",
  ["inputs"], "all element bytes, counts and limits, for vectors, slices, boxed slices, sets and maps, at every alignment",
  "Tests use short literals with matching limits; the specialised byte-vector paths and the size-limited loops differ in code from the generic one.",
  ["src/impls/vec.rs", "src/impls/hashmap.rs", "src/impls/hashset.rs", "src/impls/boxed.rs", "src/impls/arc.rs", "src/impls/cow.rs", "src/ctx.rs"],
  [("reader_vec_* helpers and Limit", "src/impls/vec.rs, src/ctx.rs")],
  (), ["returned collection", "Reader::bits_read", "stream position"])
p("C08", "The container entry points agree with each other and report offsets truthfully",
  "Parsing from a byte slice at a bit offset, from a reader, or through the fallible conversion yields the same value for the same bits; the reported rest and offset (or count of bits read) point exactly after the last bit consumed, counted from the start of the input. "
  "The conversion accepts an input exactly when nothing but padding of the last byte follows. "
  "Writing to a vector, a slice or a bit vector gives the same bits, with the true size reported and a too-small slice refused.",
  ["inputs"], "all inputs and bit offsets, catalogue of derived containers, all output buffer sizes",
  "Tests use byte-aligned offsets and exact inputs.",
  ["src/lib.rs", "deku-derive/src/macros/deku_read.rs", "deku-derive/src/macros/deku_write.rs"],
  [("generated from_bytes, from_reader, TryFrom, to_bytes, to_slice, to_bits", "deku-derive/src/macros")],
  (), ["(rest, offset) tuple", "count returned by from_reader", "to_slice result"])
p("C09", "Field and container attributes take effect as documented",
  "For derived structs, each documented attribute (endianness, bit order, bits, bytes, count, limits, conditional fields and defaults, temporary fields and values, skips, magic, padding before and after, "
  "assertions, mapping, update, context passing, custom reader and writer) has its documented effect on both parsing and writing, for every input, and composes with the fields around it in declaration order. "
  "Violated assertions and wrong magic are errors, on reading and on writing.",
  ["inputs", "programs"], "all inputs and field values; a catalogue of derived structs covering every attribute and their pairwise neighbours",
  "Each attribute has a doc example with one input; interactions and failing conditions are sampled at best once.",
  ["deku-derive/src/lib.rs", "deku-derive/src/macros", "src/attributes.rs"],
  [("generated field readers and writers", "deku-derive/src/macros/deku_read.rs, deku_write.rs")],
  (), ["parsed fields", "written bytes", "error kind"])
p("C10", "Enums are selected and written by their id",
  "A derived enum parses as the first variant, in declaration order, whose id matches the id read (or passed in), with value patterns binding the id read, and as the default variant exactly when no other matches; with no match and no default parsing fails. "
  "Each variant is written with its own id in the configured type, size and endianness, and reports that id; ids taken from discriminants equal the language's discriminants.",
  ["inputs", "programs"], "all id values and payloads; a catalogue of enums with literal, pattern, default, discriminant, string and external ids",
  "Tests check the variants by example; the unmatched ids, pattern bounds and id widths are unbounded input classes.",
  ["deku-derive/src/macros/deku_read.rs", "deku-derive/src/macros/deku_write.rs", "deku-derive/src/lib.rs"],
  [("generated match on the id", "deku-derive/src/macros/deku_read.rs"), ("DekuEnumExt::deku_id", "deku-derive/src/macros/deku_write.rs")],
  (), ["variant parsed", "bytes written", "deku_id"])
p("C11", "The compile-time size equals the serialized size",
  "Where a type reports a constant size in bits or bytes, every value of it serializes to exactly that many bits (for enums, to the id plus at most the largest variant), and parsing it consumes exactly that many; the size in bytes is the size in bits rounded up.",
  ["inputs", "programs"], "all values of the primitive types, arrays, tuples and of a catalogue of derived types",
  "Tests compare a few constants; a size is only right if it agrees with the writer for every attribute.",
  ["deku-derive/src/macros/deku_size.rs", "src/lib.rs", "src/impls"],
  [("derive(DekuSize)", "deku-derive/src/macros/deku_size.rs"), ("DekuSize impls", "src/impls")],
  (), ["SIZE_BITS, SIZE_BYTES", "Writer::bits_written", "Reader::bits_read"])
p("C12", "The writer packs bits in order and finishes bytes with zeros",
  "Bits written in one bit order appear on the output in that order with none lost, duplicated or reordered, however the writes are cut; whole bytes leave as soon as they are complete and the unfinished byte is what rest reports. "
  "Finalizing pads the last byte with zeros and is idempotent; byte writes are the same as writing their bits. "
  "The written-bits counter counts exactly the bits that reached the output.",
  ["inputs", "histories"], "all pending-bit states, all lengths and values, both bit orders, all sequences of writes",
  "Tests list a dozen concatenations; every pending length times every write length is a separate path.",
  ["src/writer.rs", "src/lib.rs"],
  [("Writer::write_bits_order and its four cases, write_bits, write_bytes, finalize, rest", "src/writer.rs")],
  [("Writer::leftover", "pending bits and their order", "src/writer.rs")],
  ["bytes received by the sink", "Writer::rest", "Writer::bits_written"])
p("C13", "Seek attributes and seekless streams behave as if the stream were seekable",
  "Seek attributes position the stream at the documented place (relative, from start, from end, rewind) before the field is read or written, and parsing continues from there with a consistent position. "
  "Over a stream wrapped to emulate forward seeking, reading and writing give the same results as over a seekable stream whenever only forward movement is needed (skipped input is consumed, skipped output is filled with zeros), and an unsupported movement is an error, not a panic or a wrong position.",
  ["inputs", "histories"], "all offsets and stream contents, all positions, catalogue of seek attributes",
  "Tests use a few fixed offsets within small buffers; negative, huge and unaligned positions are unbounded inputs.",
  ["src/noseek.rs", "src/reader.rs", "src/writer.rs", "deku-derive/src/macros"],
  [("NoSeek", "src/noseek.rs"), ("generated seek code", "deku-derive/src/macros/mod.rs")],
  [("NoSeek position", "bytes consumed or written so far", "src/noseek.rs")],
  ["parsed value", "bytes written", "position reported by seek"])
p("C14", "Wrapper types read and write like what they wrap",
  "Arrays, tuples, options, booleans, non-zero integers, boxed, shared and borrowed values, C strings, IP addresses, unit and marker types read and write exactly like the sequence or number they stand for, in every context that they accept. "
  "Values outside the type (a boolean other than 0 or 1, zero for a non-zero type, a C string without terminator) are errors. "
  "When reading an element of an array fails, the elements already read are dropped exactly once and nothing uninitialised is ever dropped or returned.",
  ["inputs"], "all byte values, all element positions at which reading fails, all contexts",
  "Tests check one or two values per wrapper; the failing position inside an array, and drop counts, are never observed.",
  ["src/impls/slice.rs", "src/impls/tuple.rs", "src/impls/option.rs", "src/impls/bool.rs", "src/impls/nonzero.rs", "src/impls/boxed.rs", "src/impls/arc.rs", "src/impls/cow.rs", "src/impls/cstring.rs", "src/impls/ipaddr.rs", "src/impls/unit.rs"],
  [("array reader with MaybeUninit", "src/impls/slice.rs"), ("wrapper impls", "src/impls")],
  (), ["value read", "bytes written", "drop count"])
p("C15", "Byte-aligned formats behave the same with and without bit support",
  "For data in which every field is a whole number of bytes, the library built without the bit-level feature reads the same values, consumes the same bytes, writes the same bytes and reports the same errors as the library built with it.",
  ["inputs", "configurations"], "all inputs and values of the byte-aligned types and attributes, in both builds",
  "The no-bits build has its own code paths in reader, writer and derive, and its own much smaller test set.",
  ["src/reader.rs", "src/writer.rs", "src/impls", "deku-derive/src/macros"],
  [("cfg(feature = \"bits\") alternatives", "src, deku-derive/src")],
  (), ["value read", "bytes written", "error kind"])
with open(HERE + "/properties.jsonl", "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P), "properties")
