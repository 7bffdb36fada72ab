#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single place the property texts are edited)."""
import json, os
P=[]
def p(id,title,stmt,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    assert len(title)<=80,(id,len(title))
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("C01","Every supported value survives a write/read round trip",
  "For every value of every supported type (built-in, container, nested combination, derived), writing it and reading the bytes back in the same endianness yields an equal value (floats compared bit for bit) and consumes exactly the bytes written. This holds for both endiannesses, for static and run-time contexts, and for every reading entry point (borrowing buffer, copying buffer, unbuffered stream, buffered stream, file); types that can only borrow are exempt from the copying entry points.",
  ["inputs","configurations"],"all values of all supported types and their nestings x {LE, BE, default} x all writer/reader entry points",
  "The existing tests round-trip one hand-picked value per type (mostly tiny); extreme values, nesting, large containers, and the stream paths for most shapes are never tried.",
  ["src/readable_impl.rs","src/writable_impl.rs","src/readable_unsized_impl.rs","src/reader.rs","src/writer.rs","src/readable.rs","src/writable.rs"],
  [("Readable/Writable impl pairs","src/readable_impl.rs, src/writable_impl.rs"),("bulk read/write of primitive element types","src/reader.rs read_vec/read_cow/read_collection; src/writer.rs write_slice")],
  observe=["Readable::read_*","Writable::write_*"])
p("C02","Built-in types serialise to exactly the documented wire format",
  "For every value of a built-in type the bytes produced are exactly those of the documented format table: fixed-width integers and floats in the context's byte order, u64 for usize, u8 0/1 for bool and for Option/Result discriminators, u32 code point for char, a u32 element count followed by the elements for strings, slices and collections, no framing for tuples, arrays, ranges, unit, boxes and references. Conversely those bytes, built independently, decode to that value.",
  ["inputs"],"all values of the built-in types and their nestings, both endiannesses",
  "The format is promised to be stable, but the tests pin one short literal per type; a change that only shows for other lengths, nestings, element types or one endianness passes them.",
  ["src/writable_impl.rs","src/readable_impl.rs","src/private.rs","README.md"],
  [("per-type write_to/read_from","src/writable_impl.rs, src/readable_impl.rs"),("length prefix","src/private.rs write_length/read_length"),("byte-order swap","src/endianness.rs, src/writer.rs")],
  observe=["Writable::write_to_vec_with_ctx","Readable::read_from_buffer_with_ctx"])
p("C03","Derived code follows the documented format for any type definition",
  "Any well-formed struct or enum definition (named, tuple and unit shapes, nested user types, generics, lifetimes, any documented attribute combination) is accepted by the derive macros; the derived writer emits the fields in declaration order in the documented format with the attributes applied, the derived reader reverses it, and the declared minimum size never exceeds the size of any value's encoding. Layout attributes such as repr never change what is written.",
  ["programs","inputs"],"all type definitions in the derive grammar x all values x both endiannesses",
  "Tests contain a fixed list of about a hundred hand-written definitions, each with one value; interactions of attributes, field order, repr and nesting are combinatorial.",
  ["speedy-derive/src/lib.rs"],
  [("field reader/writer generation","speedy-derive/src/lib.rs read_field_body/write_field_body"),("primitive detection","speedy-derive/src/lib.rs check_is_primitive/generate_is_primitive"),("minimum size","speedy-derive/src/lib.rs get_minimum_bytes")],
  observe=["derived Readable/Writable impls"])
p("C04","All writing entry points agree and size is predicted exactly",
  "For every value, writing to a fresh vector, to a caller's buffer, to a stream (however the stream splits or interrupts the writes) and to a file yields the same bytes, and the predicted size equals their number. Writing into a buffer touches only the first predicted-size bytes, succeeds whenever the buffer is at least that long, and otherwise fails with an error without writing out of bounds; writing to a file replaces its previous contents.",
  ["inputs","configurations"],"all values of all supported types x all writer entry points x buffer sizes x stream chunkings",
  "Tests compare entry points for one value per type with an exactly sized buffer and a never-splitting sink.",
  ["src/writable.rs","src/writable_impl.rs","src/writer.rs"],
  [("bytes_needed","src/writable_impl.rs, src/writable.rs"),("collectors","src/writable.rs BufferCollector/WritingCollector/SizeCalculatorCollector")],
  observe=["Writable::bytes_needed","Writable::write_to_*"])
p("C05","All reading entry points agree on every input",
  "For any byte string, valid or not, the borrowing buffer reader, the copying buffer reader, the unbuffered stream reader, the buffered stream reader (for every way the stream may split its reads) and the file reader either all produce the same value or all fail; the two buffer readers and the unbuffered stream also consume the same number of bytes on success. Data larger than the internal stream buffer behaves the same as small data.",
  ["inputs","schedules"],"all byte strings x all supported owned types x all read chunkings",
  "Tests feed streams valid data from an in-memory cursor that never splits reads, with messages of a few bytes; the ring buffer's wrap-around, refill and large-read paths see one fixed workload.",
  ["src/readable.rs","src/circular_buffer.rs","src/reader.rs"],
  [("StreamReader","src/readable.rs"),("CircularBuffer","src/circular_buffer.rs"),("BufferReader / CopyingBufferReader","src/readable.rs")],
  state=[("ring buffer","bytes read ahead from the stream but not yet consumed","src/circular_buffer.rs CircularBuffer")],
  observe=["Readable::read_from_*"])
p("C06","Hostile input is answered with a value or an error, never worse",
  "Reading any type from any byte buffer terminates with either a valid value or an error: it never panics, aborts, reads outside the buffer, produces an invalid value, or allocates memory out of proportion to the buffer's length (collections of elements that occupy no input bytes excepted). It succeeds exactly when the bytes begin with an encoding of some value of that type, and the value is that one.",
  ["inputs"],"all byte strings (random, mutated valid encodings, corrupted lengths and tags) x all supported types x both endiannesses",
  "Tests contain a handful of malformed inputs; there is no fuzz target in the repository, and the readers are full of unsafe pointer code guarded by length checks.",
  ["src/readable.rs","src/reader.rs","src/readable_impl.rs","src/ext_chrono.rs","speedy-derive/src/lib.rs"],
  [("bounds checks","src/readable.rs can_read_at_least"),("minimum-size pre-check before allocation","src/reader.rs read_vec"),("value validation","src/readable_impl.rs")],
  observe=["Readable::read_from_buffer*"])
p("C07","Truncated data is always detected as end of input",
  "Reading any strict prefix of a value's encoding fails, through every entry point, with an error classified as running out of input (except for fields declared to default or stop at end of input). The declared minimum size of a type is never more than the size of any of its values' encodings, so it never rejects complete data.",
  ["inputs","crash_points"],"all values of all supported types x every truncation point x every entry point",
  "Tests truncate almost nothing, and check minimum sizes against hand-written constants for one value per type.",
  ["src/readable.rs","src/reader.rs","src/readable_impl.rs","src/error.rs","speedy-derive/src/lib.rs"],
  [("minimum_bytes_needed","src/readable_impl.rs, speedy-derive/src/lib.rs"),("EOF errors","src/error.rs IsEof")],
  observe=["Readable::read_from_*","IsEof::is_eof","Readable::minimum_bytes_needed"])
p("C08","Encodings are self-delimiting; unbuffered reads never over-read",
  "Appending arbitrary bytes after a value's encoding changes neither the value read nor the reported consumed length, so a concatenation of encodings of different types can be read back one after another from one buffer or one unbuffered stream. The unbuffered stream reader never takes a byte from the stream beyond the value's own encoding (types whose definition says 'until end of input', and types which peek a tag wider than the value itself, are exempt).",
  ["inputs","histories"],"all sequences of values of supported types x arbitrary trailing bytes",
  "Tests append one fixed nine-byte suffix to one value per type and never read messages in sequence.",
  ["src/readable.rs","src/reader.rs"],
  [("read_with_length_from_buffer","src/readable.rs"),("StreamReader with buffering off","src/readable.rs")],
  observe=["Readable::read_with_length_from_buffer*","Readable::read_from_stream_unbuffered*"])
p("C09","Read-side stream faults are reported or retried, never absorbed",
  "Whatever a stream does while a value is read (arbitrary short reads, interruptions, an I/O error at any byte position, early end), the result is either exactly the value encoded by the bytes delivered or an error; an I/O error reported by the stream reaches the caller with its kind, and an interruption alone never makes a read fail. A reader, buffering or not, which already has all the bytes of a value does not ask the stream for more, so it neither waits for nor fails because of what comes behind the value. The same holds for file reading when the file is missing or unreadable.",
  ["fault_sequences","inputs"],"all fault sequences (short reads, EINTR, hard errors, EOF) x all values x buffered/unbuffered",
  "Tests use streams that never fail, never interrupt and never return short reads (one fixed exception).",
  ["src/readable.rs","src/circular_buffer.rs","src/error.rs"],
  [("read_bytes_slow / peek_bytes","src/readable.rs StreamReader"),("try_append_with","src/circular_buffer.rs")],
  observe=["Readable::read_from_stream_*","Readable::read_from_file*"])
p("C10","Write-side faults are reported; success means all bytes are out",
  "If a sink fails, refuses or short-writes at any byte position, writing returns an error carrying the sink's error kind, and what reached the sink is a prefix of the value's encoding; interruptions are retried. If writing to a stream or to a file returns success, every byte of the encoding has reached the sink or the file.",
  ["fault_sequences","inputs","crash_points"],"all values x fault at every byte position x sink kinds (stream, file on a full device, file-size limit)",
  "Tests only write to sinks that always accept everything.",
  ["src/writable.rs"],
  [("WritingCollector","src/writable.rs"),("write_to_file","src/writable.rs")],
  observe=["Writable::write_to_stream*","Writable::write_to_file*"])
p("C11","Reader operations behave as a cursor over the bytes, whatever the mix",
  "In a hand-written reading routine, any sequence of reader operations (typed reads, peeks, raw reads, skips, variable-length integers, vectors, strings, slices, borrowed reads, until-end reads) returns what a simple cursor over the input would return: reads advance by exactly what they return, peeks advance by nothing and equal the following read, and an operation that does not fit fails as end of input (on an in-memory input, a single number, byte string or skip which is refused that way consumes nothing). This holds identically over buffers and over buffered and unbuffered streams with any chunking.",
  ["histories","inputs","schedules"],"all finite sequences of reader operations x all inputs x reader kinds x chunkings",
  "Tests exercise one peek-then-read pair per type on one reader kind; sequences and the peek path of the stream readers are not covered.",
  ["src/reader.rs","src/readable.rs","src/circular_buffer.rs","src/varint.rs"],
  [("Reader trait methods","src/reader.rs"),("peek_bytes over a stream","src/readable.rs StreamReader"),("CircularBuffer","src/circular_buffer.rs")],
  state=[("cursor","position in the logical input","src/readable.rs")],
  observe=["Reader trait"])
p("C12","Writer operations append exactly their encodings, whatever the mix",
  "In a hand-written writing routine, any sequence of writer operations produces the concatenation of the operations' individual encodings in the context's byte order, on every kind of sink, and the default size prediction for such a routine equals the number of bytes it writes. Running out of room in a fixed buffer is an error, never an out-of-bounds write; a single value, byte string or variable-length number which is refused for lack of room leaves nothing behind, so that a shorter one written in its place follows what was written before.",
  ["histories","inputs"],"all finite sequences of writer operations x all values x sinks x endianness",
  "Tests write through the derive macro or single primitives; free-form sequences against each sink are not exercised.",
  ["src/writer.rs","src/writable.rs","src/varint.rs"],
  [("Writer trait methods","src/writer.rs"),("default bytes_needed","src/writable.rs SizeCalculatorCollector")],
  observe=["Writer trait","Writable::bytes_needed default"])
p("C13","Variable-length integers: minimal, order-independent, lossless",
  "Every u64 is encoded as a varint in the minimal number of bytes for its magnitude (1 byte per started 7 bits, at most 9), with the length given by the leading one bits of the first byte, identically in both endiannesses, and reads back to itself; peeking one returns the same number as reading it without moving. Signed integers up to 64 bits survive the zigzag conversion, and any byte string decodes to the number its bits denote or fails as end of input.",
  ["inputs"],"all u64 values (exhaustive around every length boundary), all signed values, all byte strings up to 9 bytes",
  "Tests check about seven hundred chosen values through one reader kind, never decode non-minimal encodings, never peek a multi-byte varint, and never convert back to signed.",
  ["src/varint.rs","src/reader.rs","src/writer.rs"],
  [("get_length / impl_read","src/varint.rs"),("peek_u64_varint","src/reader.rs")],
  observe=["varint fields","Writer::write_u64_varint","Reader::read_u64_varint/peek_u64_varint"])
p("C14","Length attributes never lose, invent or mis-frame elements",
  "For any container field, the length prefix has exactly the declared width (u7, u8, u16, u32, u64 or varint; u32 by default) and encodes the true element count; a count the prefix cannot represent is a write error, never a truncated or wrapped length. A field whose length is given by an expression has no prefix, is read with exactly that many elements, and writing it when the expression disagrees with the real length is an error; an until-end field takes every remaining element; an over-large declared length is a read error.",
  ["inputs","programs"],"all container kinds x length types x lengths including every boundary x length expressions",
  "Tests use a few two-element containers; only a handful of boundary lengths and mismatches appear, for a subset of the container kinds.",
  ["src/private.rs","speedy-derive/src/lib.rs","src/reader.rs"],
  [("write_length_* / read_length_*","src/private.rs"),("length expression check","speedy-derive/src/lib.rs write_field_body"),("until-eof readers","src/reader.rs")],
  observe=["derived impls with length/length_type"])
p("C15","Enum tags select exactly the declared variant",
  "A derived enum writes the tag of its variant (explicit tag attribute, else explicit discriminant, else previous plus one) in the declared tag width, and reading a tag yields exactly the variant that declares it; every other tag value is an error. With the peek attribute the tag is not written and not consumed but still selects the variant, for every tag width.",
  ["inputs","programs"],"all enum definitions x all tag widths x all tag values (exhaustive for one-byte tags)",
  "Tests have a few enums with small tags and one peeking enum with one-byte tags; unknown tags are tried once.",
  ["speedy-derive/src/lib.rs","src/reader.rs"],
  [("tag assignment","speedy-derive/src/lib.rs Enum::new"),("tag reader selection","speedy-derive/src/lib.rs impl_readable")],
  observe=["derived enum impls"])
p("C16","default_on_eof, skip and constant_prefix do exactly what they say",
  "A field marked to default at end of input yields its stored value when the data is present, its type's default when the input ends at the start of that field (and then so do all later such fields), and still reports any non-end-of-input error. A skipped field writes nothing, consumes nothing and reads as its default. A constant prefix is written verbatim before its field, and reading fails unless exactly those bytes are present.",
  ["inputs","programs"],"all field types x attribute combinations x truncations at field boundaries x corrupted prefixes",
  "Tests cover one or two fields per attribute with one input each; combinations, all container kinds and stream readers are not covered.",
  ["speedy-derive/src/lib.rs","src/private.rs"],
  [("default_on_eof_body / read_field_body","speedy-derive/src/lib.rs"),("read_constant","src/private.rs")],
  observe=["derived impls with default_on_eof/skip/constant_prefix"])
p("C17","Bulk fast paths are indistinguishable from element-wise coding",
  "Reading or writing a slice, vector, array, set or map of elements gives the same bytes and values as coding the elements one at a time, for every element type, including user structs whatever their layout attribute (none, C, packed, transparent), field attributes, nesting or zero size, in both endiannesses and at any alignment of the data in memory.",
  ["inputs","programs","configurations"],"all element types incl. derived structs of all layouts x lengths x alignments x endianness",
  "Whether the bulk path is taken depends on layout and endianness; tests have a few chosen structs with one value each, mostly in native order.",
  ["src/reader.rs","src/writer.rs","src/readable_impl.rs","speedy-derive/src/lib.rs"],
  [("speedy_is_primitive and friends","src/readable_impl.rs, src/writable_impl.rs, speedy-derive/src/lib.rs"),("read_vec/read_cow/read_collection/write_slice","src/reader.rs, src/writer.rs")],
  observe=["Vec/array/slice/Cow/set/map of derived structs"])
p("C18","Zero-copy results are exact, in-bounds, aligned views of the input",
  "When a value is read by borrowing, every borrowed string or slice lies within the input buffer at precisely the bytes that encode it, is correctly aligned for its element type, and holds the right elements; when borrowing is impossible (alignment, endianness, copying reader, stream) copy-on-write types fall back to an owned equal value and borrow-only types return an error. Byte and string copy-on-write values with a known length are always borrowed from a borrowing buffer and never borrowed from a copying one.",
  ["inputs","configurations"],"all borrowable types x offsets (alignments) x endianness x reader kinds",
  "Alignment of test buffers is whatever the allocator gives; tests check one aligned and one off-by-one layout for byte-aligned types only.",
  ["src/reader.rs","src/readable_unsized_impl.rs","speedy-derive/src/lib.rs","src/utils.rs"],
  [("read_cow","src/reader.rs"),("&[T] / &[T; N] / &str","src/readable_unsized_impl.rs"),("read_ref_slice","speedy-derive/src/lib.rs")],
  observe=["Cow/&str/&[T] results"])
p("C19","Failing reads drop every constructed element exactly once",
  "If reading a container or composite fails at any element, every element constructed so far is dropped exactly once, nothing else is dropped, and nothing is leaked; on success the result owns every element exactly once. If an element's reader panics instead, nothing is dropped twice and nothing unconstructed is dropped.",
  ["fault_sequences","inputs"],"all containers (vector, boxed slice, array, tuple, map, set, option, nested, derived) x failure at each element x reader kind",
  "No test makes an element read fail after others succeeded; leaks and double drops are invisible to value comparisons.",
  ["src/reader.rs","src/readable_impl.rs"],
  [("drop_vec in read_vec","src/reader.rs"),("State drop guard for arrays","src/readable_impl.rs")],
  observe=["element constructors and destructors"])
p("C20","Invalid representations are rejected, valid ones accepted",
  "Reading accepts exactly the representations its type allows: chars only for Unicode scalar values, strings only for valid UTF-8, non-zero integers only for non-zero, discriminators of endianness and IP addresses only for the defined tags, durations and time stamps only when representable; any non-zero flag byte counts as true for bool, Option and Result. Re-writing an accepted value of a type with a unique encoding gives back exactly the bytes it was read from.",
  ["inputs"],"all representations: exhaustive for one- and two-byte domains and all chars boundaries, generated otherwise",
  "Tests try about one invalid value per validated type.",
  ["src/readable_impl.rs","src/private.rs","src/ext_chrono.rs"],
  [("char/NonZero/IpAddr/Endianness/SystemTime readers","src/readable_impl.rs"),("utf-8 validation","src/private.rs")],
  observe=["Readable::read_from_buffer*"])
p("C21","Collections keep their contents, keys and order",
  "Maps and sets of every kind round-trip to equal collections whatever their size, insertion history or hasher; ordered collections are written in key order and insertion-ordered ones in insertion order; each written entry appears exactly once. When the bytes contain repeated keys, reading keeps one entry per key holding the last value.",
  ["inputs","histories"],"all collection kinds x entry multisets x duplicate patterns x key/value types",
  "Tests use one- or two-entry collections of integers without duplicates.",
  ["src/readable_impl.rs","src/writable_impl.rs","src/reader.rs","src/ext_indexmap.rs"],
  [("read_collection / read_key_value_collection","src/reader.rs"),("write_collection","src/writer.rs")],
  observe=["map and set impls"])
p("C22","Third-party type integrations are lossless and reject bad data",
  "Values of the optional integrations (date-times, vector/matrix/quaternion math types, small vectors, regular expressions, UUIDs, insertion-ordered maps and sets of both supported major versions) round-trip exactly in both endiannesses, with the field order and widths of their documented layout; bytes that are not a valid value of the type give an error, never a panic.",
  ["inputs","configurations"],"all values of each integrated type, and arbitrary bytes",
  "One test value per type; the math types are only tested in native order and without looking at the bytes; invalid data is not tried.",
  ["src/ext_chrono.rs","src/ext_glam.rs","src/ext_smallvec.rs","src/ext_regex.rs","src/ext_uuid.rs","src/ext_indexmap.rs"],
  [("ext impls","src/ext_*.rs")],
  observe=["ext type impls"])
p("C23","The wire format does not depend on feature configuration or platform",
  "Whether the crate is built without std and alloc, with alloc only, with std, or with every optional integration, with or without compiler optimisation, and whatever the byte order and word size of the machine, the crate compiles, and each type available in that configuration reads and writes the same bytes, with the same accept/reject decisions, as in every other configuration. (A number or length which does not fit the machine's word is refused; multi-byte data can be borrowed only in the machine's own byte order.)",
  ["configurations","inputs"],"feature sets {none, alloc, std, default, all} x {debug, release} x {little/big endian, 32/64 bit} x values and byte strings",
  "The CI only type-checks the reduced configurations; no test runs in them; everything is tested on 64-bit little endian machines only; and release-mode unchecked paths are not compared with debug ones.",
  ["Cargo.toml","src/lib.rs","src/readable_unsized_impl.rs","src/error.rs"],
  [("cfg(feature) gates","src/*.rs"),("cfg!(debug_assertions) branches","src/varint.rs")],
  observe=["public API in each configuration"])
p("C24","Errors are classified and convert faithfully",
  "A read that fails because the input ran out is always recognisable as end of input, and no other failed read is, whichever entry point produced it; converting an error into a standard I/O error keeps an original I/O error intact, and maps end of input to the unexpected-EOF kind and every other failure to invalid data. Every failure the library can produce has a non-empty message, and custom errors keep their text.",
  ["inputs"],"all ways of provoking an error x all types x entry points",
  "Tests match on the error for a few cases and never convert or print one.",
  ["src/error.rs"],
  [("IsEof","src/error.rs"),("From<Error> for io::Error","src/error.rs")],
  observe=["speedy::Error, IsEof, std::io::Error"])
p("C25","User contexts and errors are threaded through every operation",
  "A user-defined context is the one every nested user routine sees, in order, on every entry point: changes made to it during reading or writing (including its endianness) are visible to all later operations of the same call and, for the by-reference entry points, to the caller afterwards. Errors raised by user routines come back unchanged as the context's error type, and library errors arrive converted through it. (User writing routines that consult the context supply their own size prediction.)",
  ["histories","inputs","configurations"],"all nestings of user routines x context mutations x entry points x error positions",
  "Tests use the built-in contexts almost exclusively; no test mutates a context or uses a custom error type.",
  ["src/context.rs","src/readable.rs","src/writable.rs","src/reader.rs","src/writer.rs"],
  [("Context trait","src/context.rs"),("context()/context_mut()","src/reader.rs, src/writer.rs"),("*_with_ctx_mut","src/readable.rs, src/writable.rs")],
  observe=["*_with_ctx, *_with_ctx_mut entry points"])
p("C26","Definitions without a clear meaning are refused at compile time",
  "Deriving refuses every type definition that the documented format has no meaning for, instead of silently choosing one: two variants of an enum with the same tag (however the tags came about: by tag attribute, discriminant, or counting on from the variant before), a tag that does not fit the tag type, a tag whose value cannot be determined, anything after a field which takes the rest of the input, contradicting, repeated, unknown or misplaced attributes, length attributes on fields that have no length, varint on anything but u64, constants that are not fixed strings of bytes, unions. Definitions as close as possible to these that do have a meaning (the greatest tag of every tag type, counting up to it, tags in any order, the same attributes spread over several lists) are accepted. So are definitions which are generic over types and lifetimes (with bounds, defaults and where clauses), which contain themselves behind a pointer or in a collection (other than generic ones), use associated types, paths, aliases or raw identifiers, or are written by a macro; and what they need in order to be readable (or writable) is that the types of the fields they read (or write) are, and nothing else.",
  ["inputs"],"all type definitions of the derive macros' grammar, with zero or one of these mistakes, and their type arguments",
  "There are no compile-fail tests at all: a check that stops refusing goes unnoticed until two variants share a tag.",
  ["speedy-derive/src/lib.rs"],
  [("Enum::new","speedy-derive/src/lib.rs"),("get_fields","speedy-derive/src/lib.rs"),("FieldAttribute::parse","speedy-derive/src/lib.rs"),("collect_*_attributes","speedy-derive/src/lib.rs")],
  observe=["the compiler's verdict on #[derive(Readable, Writable)]"])
p("C27","Byte-order helpers convert exactly and touch nothing else",
  "The public helpers of Endianness agree with the documented meaning of each byte order for every bit pattern: the read functions give the number (floats: the exact bits) that the slice spells in that order, and panic instead of reading past a slice of another length; the swap functions turn a number copied from memory as is into that number and back; the slice versions do so for each element, of any number of them, and leave neighbouring memory alone. The machine's own order, the fixed-order contexts, and the order used when no context is given are what they are documented to be, and all of it agrees with what values of these types are read and written as.",
  ["inputs"],"all ten multi-byte number types x bit patterns x both orders x slice lengths and alignments",
  "No test calls these functions directly; values and paths reaching them through readers are a handful and in the native order for most types.",
  ["src/endianness.rs","src/context.rs"],
  [("emit_wrapper!","src/endianness.rs"),("swap_f32 and friends","src/endianness.rs"),("LittleEndian, BigEndian, DefaultContext","src/context.rs")],
  observe=["speedy::Endianness methods"])
p("C28","Borrowing that could be unsound is refused at compile time",
  "Safe programs cannot use the library to view bytes as something they are not, or to keep a view of memory that is gone: slices and arrays can be borrowed from the input only of element types for which every bit pattern is a value and whose layout is their encoding (not of bool, char, references, padded structs, structs with attributes, and so on), in every position where a borrowed slice can stand, derived fields included; and whatever was read by borrowing from a buffer, or borrowed from a reader inside a user's reading routine, cannot be used after the buffer changed or went away or the reader moved on. Sound programs of the same shape (packed and transparent structs of numbers, owned results, copying readers, streams) are accepted.",
  ["inputs"],"all element types built from structs of the basic types x representation attributes x borrowing positions x contexts; all entry points x borrowing and owning types x what happens to the buffer",
  "A handful of assertions about trait implementations for direct slices; nothing about derived fields, and nothing about lifetimes.",
  ["src/utils.rs","src/readable_unsized_impl.rs","src/readable.rs","src/reader.rs","speedy-derive/src/lib.rs"],
  [("ZeroCopyable","src/utils.rs"),("read_ref_slice","speedy-derive/src/lib.rs"),("lifetime 'a of Readable and Reader","src/readable.rs, src/reader.rs")],
  observe=["the compiler's verdict on programs using the crate"])
p("C29","Misbehaving user code cannot make safe programs unsound",
  "Whatever safe code a user runs next to the library does, memory stays sound: readers which return other pieces of the input than they were asked for, claim bytes they don't have, fill less than the buffer they were given, or panic; streams and sinks which lie about how much they transferred; elements whose minimum size, predicted size, order, equality, hash and written bytes contradict each other or which panic half way; contexts which change their byte order between two calls; any number of elements without a size. Then values may be wrong, reading and writing may fail or panic, but nothing outside of the given buffers is accessed, every value returned is a valid one of its type, no memory which was not initialised is shown to user code or becomes part of a value, and no element is dropped twice or used after it was dropped.",
  ["inputs","histories","faults"],"all built-in and derived container types x lies of readers, streams, sinks, elements and contexts x inputs",
  "Tests only run well-behaved readers, streams and elements; the unsafe blocks trust what those return.",
  ["src/reader.rs","src/readable.rs","src/readable_impl.rs","src/private.rs","src/circular_buffer.rs","src/writable.rs","src/writable_impl.rs","speedy-derive/src/lib.rs"],
  [("read_bytes_into_ptr, read_vec, read_cow, read_collection","src/reader.rs"),("cast_slice","src/private.rs"),("StreamReader","src/readable.rs"),("CircularBuffer","src/circular_buffer.rs"),("arrays being filled","src/readable_impl.rs")],
  observe=["user implementations of Reader, Writer, io::Read, io::Write, Context, Readable, Writable"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
