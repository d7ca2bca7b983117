#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that it stays diffable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
         "observe_at": observe, "hook_needed": None}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

prop("C01", "Pointer words are encoded and decoded exactly as the wire format says",
 "For every 64-bit pointer word, the kind, signed word offset, section sizes, list element size and count, and far-pointer fields reported are the ones the Cap'n Proto encoding assigns to those bits. Building a pointer from any in-range field values and decoding it gives the same values back, and the word written is the same in the pure-Python and the compiled implementation.",
 ["inputs"], "all 2^64 pointer words; all in-range field values of the three pointer kinds; both implementations",
 "test_ptr checks a handful of hand-picked words; sign extension, masks and shifts go wrong at field boundaries (bit 29/31/47/63) the samples do not touch",
 ["capnpy/ptr.py", "capnpy/ptr.h", "capnpy/ptr.pyx", "capnpy/ptr.pxd"],
 [("bit-field macros", "capnpy/ptr.h"), ("pure-python twins", "capnpy/ptr.py")],
 ["capnpy.ptr functions"])

prop("C02", "Primitive reads and writes are exact and never leave the buffer",
 "Reading a fixed-size number at any offset of any byte buffer returns the little-endian value of exactly those bytes, with the signedness and width of the requested type, or raises IndexError if any of the bytes lies outside the buffer. Writing a number changes exactly the bytes of that field and raises instead of touching memory outside the buffer. The same holds for the standalone pack and unpack helpers, and for slicing a message out of a buffer when dumping it.",
 ["inputs"], "all buffers up to the stated size with arbitrary bytes, all signed 64-bit offsets (32-bit for the pack helpers), all numeric types",
 "the tests read at a few offsets; wrap-around of offset+size, negative offsets and the sign of the top byte need values they do not use",
 ["capnpy/segment/base.pyx", "capnpy/segment/base.py", "capnpy/packing.pyx", "capnpy/packing.py"],
 [("check_bounds before every typed load", "capnpy/segment/base.pyx"), ("checkbound", "capnpy/packing.pyx"), ("struct.unpack_from after explicit test", "capnpy/segment/base.py")],
 ["BaseSegmentForTests.read_*", "capnpy.packing.*", "Struct.dumps"])

prop("C03", "The message builder hands out disjoint, aligned, zeroed, linked space",
 "Whatever sequence of allocations a message is built with, every allocation starts at the current end of the message, does not overlap any earlier one, reads as zero until written, and everything written earlier is preserved when the buffer grows. Allocating a struct, list, text or data stores at the given position a pointer that designates exactly the allocated region with the requested sizes, keeps the message a whole number of words, and text gets exactly one trailing NUL.",
 ["inputs", "histories"], "one allocation step from an arbitrary valid builder state (inductive, so any history), all sizes up to the stated bounds; short concrete-length histories of up to 3 operations",
 "the growth path runs only for messages above the initial capacity and its arithmetic depends on the whole history; tests build a few small messages",
 ["capnpy/segment/builder.pyx", "capnpy/segment/builder.py"],
 [("allocate/_resize", "capnpy/segment/builder.pyx"), ("alloc_struct/alloc_list/alloc_text", "capnpy/segment/builder.pyx, capnpy/segment/builder.py")],
 ["SegmentBuilder methods", "bytes of the built message"],
 [("length,end", "capacity and used size; used <= capacity, bytes past used are zero", "capnpy/segment/builder.pyx")])

prop("C04", "Constructing a struct and reading its fields gives back the same values",
 "For every schema and every in-range field values, a struct built by its generated constructor has, at the positions assigned by the Cap'n Proto compiler, the standard wire encoding of those values (including the XOR with explicit defaults, booleans, enums, groups, text, data, lists and nested structs), and its accessors return equal values. Omitted arguments read back as the schema default, and an omitted argument produces the same message as passing the default. A Bool field given any integer holds whether it is non-zero and leaves every other field alone.",
 ["inputs", "programs"], "a family of schemas covering every field type at several slot positions, with and without explicit defaults; all values of each field (content lengths bounded)",
 "one test per field kind with one or two values; wrong bit offsets, masks or signedness survive for other values, positions or defaults",
 ["capnpy/compiler/field.py", "capnpy/compiler/structor.py", "capnpy/compiler/struct_.py", "capnpy/compiler/fieldtree.py", "capnpy/struct_.py", "capnpy/segment/builder.pyx", "capnpy/segment/builder.py"],
 [("generated getters", "capnpy/compiler/field.py"), ("generated constructors", "capnpy/compiler/structor.py")],
 ["generated constructors and properties", "dumped bytes"])

prop("C05", "Readers with an older or newer schema see defaults and ignore extras",
 "A struct whose data or pointer section on the wire is shorter than the schema expects reads every missing field as its default (null for pointers), and one whose sections are longer is read as if the extra words were not there, for every combination of actual and expected section sizes. No field read ever takes its bytes from outside the section of the struct it belongs to.",
 ["inputs", "programs"], "all actual section sizes up to the stated bound (including 0) against the family of schemas, arbitrary section contents",
 "the tests exercise one old/new pair of schemas; the boundary case is a field that starts exactly at, or straddles, the end of the actual section",
 ["capnpy/struct_.py", "capnpy/struct_.pxd", "capnpy/compiler/field.py"],
 [("offset >= section size reads 0/null", "capnpy/struct_.py:_read_primitive,_read_fast_ptr,_read_int16,_read_bit")],
 ["generated properties on hand-made buffers"])

prop("C06", "Copying or compacting an object preserves its value in one tight segment",
 "For every well-formed message, copying a struct into another message (as a field of a new struct, as list items, by compacting it, or by dumping a non-compact object) yields an object with the same contents as the source: same section sizes, same data bytes, same null pointers, and recursively equal children. The copy contains no far pointers, has its root first and its objects laid out without gaps in depth-first order, and is recognised as compact; the source is left unchanged.",
 ["inputs", "programs"], "all single- and multi-segment source messages within the stated word bounds, with arbitrary data and arbitrary well-formed pointers, for every object kind (struct, every list kind, far pointers)",
 "the tests copy a few hand-written buffers; each pointer kind, nesting, gap and sharing pattern exercises different arithmetic",
 ["capnpy/segment/_copy_pointer.py", "capnpy/segment/_copy_list.py", "capnpy/segment/builder.pyx", "capnpy/segment/builder.py", "capnpy/struct_.py", "capnpy/message.py"],
 [("copy_pointer and the per-kind copiers", "capnpy/segment/_copy_pointer.py")],
 ["Struct.compact()", "dumps(fastpath=False)", "constructors taking structs and lists"])

prop("C07", "The fast dump path is only taken when it produces an equivalent message",
 "If an object is reported as compact with a given end, then the bytes from its start to that end contain the whole object graph reachable from it, nothing reachable lies outside, and no pointer in it crosses to another segment. Consequently dumping through the fast path and through the slow path give messages that decode to the same value, for every message, and the dumped length is a whole number of words.",
 ["inputs"], "all buffers within the stated word bounds holding an arbitrary struct root; all section sizes and list kinds",
 "compactness is decided by pointer arithmetic over the whole object graph; the tests cover a dozen hand-made layouts",
 ["capnpy/segment/endof.py", "capnpy/segment/endof.pxd", "capnpy/message.py", "capnpy/segment/base.pyx", "capnpy/segment/base.py"],
 [("endof and its helpers", "capnpy/segment/endof.py"), ("dump_message slice", "capnpy/segment/base.pyx")],
 ["Struct._is_compact()", "Struct.dumps()"])

prop("C08", "Dumping an object and loading the message gives the object back",
 "For every struct object, dumping it produces a single-segment stream message whose header announces exactly the number of words that follow, whose first word is the root pointer, and which loads back as an object with the same contents. Loading a string succeeds only if the message ends exactly at the end of the string; otherwise an error is raised and never a silently different object.",
 ["inputs"], "arbitrary struct objects within the stated word bounds, fast and slow dump path; arbitrary number of trailing or missing bytes",
 "the tests round-trip a few messages; header arithmetic and the two dump paths depend on sizes and layout",
 ["capnpy/message.py", "capnpy/message.pxd", "capnpy/segment/base.pyx", "capnpy/segment/base.py", "capnpy/buffered.py"],
 [("dumps/loads", "capnpy/message.py"), ("header written by dump_message", "capnpy/segment/base.pyx")],
 ["Struct.dumps()", "Struct.loads()"])

prop("C09", "Stream headers are parsed exactly and truncated input is always reported",
 "Loading from a stream consumes exactly the bytes of one message: the segment count, the size of each segment, the padding to a word boundary and the announced segment contents, for every segment count and every size. If the stream ends before all of them are available ValueError is raised, EOFError is raised only when the stream is exhausted before the first byte of a message, and no header makes a load succeed with fewer bytes than it announces. Loading all messages of a stream yields each message once, in order.",
 ["inputs", "histories"], "arbitrary header bytes with segment counts up to the stated bound (and arbitrary 32-bit counts and sizes for the arithmetic), streams truncated at every byte position, sequences of up to 3 messages",
 "the tests feed one or two valid multi-segment messages and a couple of truncations; sizes above 2^28 words, padding parity and truncation inside the padding are untested",
 ["capnpy/message.py", "capnpy/message.pxd", "capnpy/filelike.py", "capnpy/filelike.pxd", "capnpy/buffered.pxd"],
 [("_load_message and helpers", "capnpy/message.py"), ("declared C types of the sizes", "capnpy/message.pxd")],
 ["capnpy.load/loads/load_all"])

prop("C10", "Far pointers lead to the object they designate, in every reader",
 "In a multi-segment message, a pointer that goes through a one-word or a two-word landing pad in any segment gives the same object as a direct pointer would, for structs, lists, text, data, list items, hashing and copying. A far pointer in a single-segment message, to a segment that does not exist, or whose landing pad lies outside the message is rejected with an exception.",
 ["inputs"], "all messages of up to 3 segments and the stated number of words, arbitrary segment boundaries, arbitrary far pointers of both kinds, every pointer-reading accessor",
 "the tests use two hand-written far-pointer buffers with fixed targets",
 ["capnpy/segment/segment.py", "capnpy/segment/segment.pxd", "capnpy/struct_.py", "capnpy/list.py", "capnpy/segment/_copy_pointer.py", "capnpy/compiler/field.py"],
 [("MultiSegment.read_far_ptr", "capnpy/segment/segment.py")],
 ["accessors of structs loaded from multi-segment messages"])

prop("C11", "Buffered readers deliver the stream's bytes whatever the chunking",
 "However the underlying stream splits the data into non-empty chunks, any sequence of sized reads, line reads and read-all on the buffered reader returns exactly the bytes a plain in-memory file would return for the same calls: the requested number of bytes unless the stream ends first, lines up to and including the newline, each byte once and in order. The same holds for the in-memory reader and for the adapter around ordinary file objects.",
 ["schedules", "histories", "inputs"], "all splits of a stream of up to the stated number of arbitrary bytes into chunks, all sequences of up to 3 calls with arbitrary sizes",
 "tests use a fixed list of chunks and one call sequence; the refill and leftover logic depends on how calls and chunks interleave",
 ["capnpy/buffered.py", "capnpy/buffered.pxd", "capnpy/filelike.py", "capnpy/filelike.pxd"],
 [("BufferedStream.read/readline/_fillbuf/_readall", "capnpy/buffered.py"), ("StringBuffer", "capnpy/buffered.py"), ("FileLikeAdapter", "capnpy/filelike.py")],
 ["read/readline results"])

prop("C12", "Untrusted messages cannot make the library touch memory outside its buffers",
 "For every byte string treated as a message, reading its fields, copying or compacting objects out of it, computing compactness, hashing and dumping either succeed using only bytes of that message or raise a Python exception. They never read before the start or past the end of the message, and never write outside the space allocated in the destination message; pointers which form a long chain or a cycle end in a Python exception, not in an overflow of the C stack. This is about the compiled implementation (in pure Python the interpreter guarantees it); the time spent on a message is not bounded.",
 ["inputs", "fault_sequences"], "all messages of up to the stated number of words with completely arbitrary bytes, arbitrary root section sizes, every copy/read entry point, chains and cycles of pointers",
 "no test feeds adversarial pointers; in the compiled implementation an unchecked offset is silent memory corruption",
 ["capnpy/segment/_copy_pointer.py", "capnpy/segment/_copy_pointer.h", "capnpy/segment/_copy_pointer.pyx", "capnpy/segment/segment.py", "capnpy/segment/endof.py", "capnpy/_hash.pyx"],
 [("CHECK_BOUNDS before raw reads", "capnpy/segment/_copy_pointer.h"), ("composite list size check", "capnpy/segment/_copy_pointer.py:_copy_list_composite"), ("strhash clamping", "capnpy/_hash.pyx")],
 ["memory accesses of the compiled code, exceptions"])

prop("C13", "Structs with a declared key hash and compare like the tuple of their key",
 "For every struct type that declares a key, an instance is equal to another instance of the type exactly when the tuples of their key fields are equal, is equal to that plain tuple, and has the same hash as that tuple; equal objects therefore always have equal hashes, whatever the field values (null, empty or non-empty text included) and wherever they are stored. Structs without a key refuse to be hashed or compared, and ordering comparisons are always refused.",
 ["inputs", "programs"], "all values of integer, bool, enum, text and data key fields; for hashing: all 64-bit integers, all byte strings up to the bound inside larger buffers, all tuples of up to 4 hashes",
 "the fast hash reimplements CPython's algorithms; tests compare a few values, and the interesting ones (minimum int64, multiples of 2^61-1, -1, null or empty text, text in the middle of a big buffer) are rare",
 ["capnpy/_hash.pyx", "capnpy/_hash_cpython.c", "capnpy/_hash.py", "capnpy/struct_.py", "capnpy/segment/segment.py", "capnpy/compiler/struct_.py"],
 [("inthash/longhash/strhash/tuplehash", "capnpy/_hash.pyx, capnpy/_hash_cpython.c"), ("generated _key/__hash__/_equals", "capnpy/compiler/struct_.py")],
 ["hash(obj)", "obj == other"])

prop("C14", "Indexing a list reads exactly the i-th element for every element type",
 "For every list in a message, its length is the announced element count and element i is decoded from exactly the bytes of the i-th element, for every element type (void, bool, all numeric types, enum, text, data, struct and nested list). Negative indexes count from the end, indexes outside the range raise IndexError, slices return the corresponding sub-list, and iteration yields all elements in order.",
 ["inputs"], "lists of every element type with up to the stated number of elements, arbitrary contents, all 64-bit indexes, slices with arbitrary small bounds and steps",
 "the tests index small literal lists; bit lists, composite strides and boundaries are sampled only",
 ["capnpy/list.py", "capnpy/list.pxd"],
 [("ItemType.read_item/offset_for_item", "capnpy/list.py"), ("List.__getitem__", "capnpy/list.py")],
 ["len(), indexing, slicing and iteration of capnpy lists"])

prop("C15", "A list written into a message reads back with the same items",
 "Writing any Python or capnpy list as a field gives a list with the same number of items that reads back equal item by item, encoded with the element size of the schema's type, for every element type that can be written. Lists of structs keep every field of every item also when an item comes from a message written with a smaller or larger version of its schema, or from another message or segment; item types that cannot be written, or items of the wrong type, raise an exception instead of producing a corrupt list.",
 ["inputs", "programs"], "lists of up to 3 items of every element type, arbitrary contents, struct items with arbitrary actual section sizes up to the bound",
 "the tests write literal lists whose items always match the schema's sizes",
 ["capnpy/segment/_copy_list.py", "capnpy/segment/_copy_pointer.py", "capnpy/list.py", "capnpy/segment/builder.pyx", "capnpy/segment/builder.py"],
 [("copy_from_list", "capnpy/segment/_copy_list.py"), ("ItemType.write_item", "capnpy/list.py")],
 ["constructors with list arguments, reading the field back"])

prop("C16", "Two lists are equal exactly when their items are equal",
 "Comparing two capnpy lists whose elements can be compared gives the same answer as comparing the Python lists of their items, wherever the lists are stored and however their contents are laid out; the same holds when comparing with a Python list. Lists of structs refuse comparison.",
 ["inputs"], "pairs of lists of primitive, bool, text, data and nested element types with up to the stated number of items, arbitrary contents, arbitrary placement and padding",
 "equality is implemented by comparing raw memory ranges; tests only compare lists whose layout is identical",
 ["capnpy/list.py", "capnpy/segment/endof.py"],
 [("List._equals/_get_slice", "capnpy/list.py")],
 ["=="])

prop("C17", "Unions: exactly the selected member is readable, all others are refused",
 "Building a union value selects exactly the member that was given: the tag reported, the is-member queries and the readable member agree with it, reading any other member raises ValueError, and passing more than one member raises TypeError, for anonymous unions, named unions and groups inside unions. For every tag value found in a message exactly the member with that number is readable, and a tag unknown to the schema selects none without failing to report it.",
 ["inputs", "programs"], "all 65536 tag values; every subset of union members passed to the constructor; the family of union shapes; arbitrary values",
 "the tests build each member once with one value; unknown tags and conflicting combinations are sampled",
 ["capnpy/compiler/struct_.py", "capnpy/compiler/structor.py", "capnpy/compiler/field.py", "capnpy/struct_.py", "capnpy/enum.py"],
 [("_ensure_union", "capnpy/struct_.py"), ("check_tag and generated new_*", "capnpy/compiler/structor.py, capnpy/compiler/struct_.py")],
 ["which(), is_*(), field access, constructors"])

prop("C18", "Null pointer fields: plain, has and get accessors agree",
 "For every pointer field (text, data, struct, list), the has-accessor is true exactly when the stored pointer is not null, the plain accessor returns None exactly when it is null, and the get-accessor returns the same value as the plain one when it is not null and an empty value of the right type (empty string, empty list, or a struct whose fields all have their defaults) when it is. Passing None for a pointer field when constructing a struct writes a null pointer.",
 ["inputs", "programs"], "arbitrary pointer sections, fields beyond the actual pointer section, far pointers; every pointer field type",
 "the tests look at one null and one non-null value per type",
 ["capnpy/compiler/field.py", "capnpy/struct_.py", "capnpy/segment/segment.py"],
 [("generated has_/get_ accessors", "capnpy/compiler/field.py"), ("_read_*(default_)", "capnpy/struct_.py")],
 ["has_x(), get_x(), x"])

prop("C19", "Enum values survive unchanged and unknown values are reported as unknown",
 "An enum field read from a message is the integer on the wire as an unsigned 16-bit number, its name is the schema name of that ordinal when the schema defines it, and every other value is kept as that number and named as unknown, without failing. Writing an enum value and reading it back gives the same value, also in lists of enums.",
 ["inputs"], "all 65536 wire values against enums of 0 to 3 members; enum fields with and without an explicit default; enum lists",
 "tests use one out-of-range value; the upper half of the range is never read",
 ["capnpy/enum.py", "capnpy/compiler/enum.py", "capnpy/compiler/field.py", "capnpy/list.py"],
 [("BaseEnum.name", "capnpy/enum.py")],
 ["enum fields, .name, int value"])

prop("C20", "The textual form of text and data values can be parsed back unambiguously",
 "For every text or data value, the quoted literal used in the textual form of a message is a single well-formed Cap'n Proto string literal that denotes exactly that value, so that two different values never print the same and the printed message can be fed to the standard tool.",
 ["inputs"], "all strings up to the stated length over all code points below 0x80 plus representative non-ASCII ones; all byte strings up to the stated length",
 "the tests print a few literals with a quote or two; backslashes, newlines and control characters are combinations they do not contain",
 ["capnpy/util.py"],
 [("text_unicode_repr, text_bytes_repr, data_repr", "capnpy/util.py")],
 ["shortrepr()"])

prop("C21", "Generic pointers are classified by the object they designate",
 "For every untyped pointer field, exactly the queries that match the designated object are true (struct, list, text or data), whether the pointer is direct or goes through another segment, and casting it with the matching cast returns the same object a typed field at the same place would give.",
 ["inputs"], "arbitrary pointer words in single- and multi-segment messages within the stated bounds",
 "the tests use one direct pointer of each kind",
 ["capnpy/anypointer.py", "capnpy/struct_.py"],
 [("AnyPointer.is_*/as_*", "capnpy/anypointer.py")],
 ["AnyPointer methods"])

prop("C22", "Compilation options apply with the documented precedence",
 "The option in force for any entity of a schema is the value set by the nearest enclosing annotation that sets it, then the file's, then the one passed to the compiler, then the default; combining option sets never changes an option that the more specific set leaves unset, and never alters the sets being combined.",
 ["inputs", "configurations"], "all combinations of values (unset, true, false, each enum value) of every option at up to 3 nesting levels",
 "the tests try a few combinations; precedence is a property of all of them",
 ["capnpy/annotate_extended.py", "capnpy/annotate.py", "capnpy/compiler/node.py", "capnpy/compiler/module.py", "capnpy/compiler/compiler.py"],
 [("Options.combine", "capnpy/annotate_extended.py"), ("compute_options", "capnpy/compiler/node.py")],
 ["options seen by the generated code"])

prop("C23", "Pickling and raw dumps restore an equivalent object",
 "Pickling any struct object and unpickling it, or raw-dumping and raw-loading it, gives an object of the same type over the same bytes, at the same position, with the same section sizes and segment boundaries, so that every field reads the same.",
 ["inputs"], "arbitrary buffers within the stated size, arbitrary positions and section sizes, single- and multi-segment",
 "tests pickle one object at offset 0 of its buffer",
 ["capnpy/struct_.py", "capnpy/segment/segment.py"],
 [("__reduce__ of structs and segments", "capnpy/struct_.py, capnpy/segment/segment.py"), ("_raw_dumps/_raw_loads", "capnpy/struct_.py")],
 ["pickle round trip", "Struct._raw_loads(x._raw_dumps())"])

prop("C24", "Nullable groups read as None exactly when flagged null",
 "A group declared nullable reads as None exactly when its null flag is set and as its value otherwise, whatever the stored value; constructing with None sets the flag and with a value clears it and stores the value, and what was written is read back.",
 ["inputs", "programs"], "all flag and value combinations over nullable groups with each value type in the schema family",
 "tests use one integer value",
 ["capnpy/compiler/field.py", "capnpy/compiler/structor.py", "capnpy/compiler/fieldtree.py"],
 [("generated nullable property", "capnpy/compiler/field.py")],
 ["generated property and constructor"])

prop("C25", "Names from the schema map to distinct, predictable Python names",
 "Converting a camelCase schema name to a Python name lower-cases every capital letter and separates words with underscores without dropping, adding or reordering any other character, leaves names without capitals unchanged, and importing several schema files binds each to its own name, never overwriting or confusing another one.",
 ["inputs", "programs"], "all ASCII identifiers up to the stated length; all sets of up to 3 imported files whose base names may coincide",
 "the tests convert three names and never import two files with the same base name",
 ["capnpy/convert_case.py", "capnpy/compiler/module.py"],
 [("from_camel_case", "capnpy/convert_case.py"), ("register_import", "capnpy/compiler/module.py")],
 ["generated field, enum and module names"])

prop("C26", "Virtual groups are views of the fields they name",
 "Reading a field through a virtual group (a Void field annotated with $Py.group) gives the value and type of the field itself, for every content of the message and every section size, and no other field is visible there; a virtual group inside a union can be read only when it is the current member; a virtual group with $Py.key compares and hashes as the tuple of its key fields, and one without can be neither compared nor hashed.",
 ["inputs", "programs"], "a struct with fields of every kind and seven virtual groups over them; arbitrary contents, section sizes up to the stated bound",
 "the tests read one group of three fields with one set of values and never with short sections, defaults, unions or nested groups",
 ["capnpy/schema_extended.py", "capnpy/compiler/module.py", "capnpy/compiler/field.py", "capnpy/compiler/struct_.py"],
 [("from_group_annotation", "capnpy/schema_extended.py"), ("handle_py_groups", "capnpy/compiler/module.py"), ("_emit_fash_hash", "capnpy/compiler/struct_.py")],
 ["generated properties, ==, hash()"])

prop("C27", "Constants have the values which the schema gives them",
 "For every const of a schema, the generated module or class holds under its name the value declared there: equal integers, booleans, enum ordinals, floats (including infinities and NaN), bytes, structs and lists, whether or not reflection data is included.",
 ["inputs", "programs"], "constants of every type at module level and nested in structs; every value of the scalars, every content of the byte strings, structs and list items of the stated shapes",
 "the tests check a handful of values; a literal which is not valid or not exact for other values goes unnoticed",
 ["capnpy/compiler/node.py", "capnpy/compiler/module.py", "capnpy/compiler/misc.py", "capnpy/schema.py"],
 [("Node__Const.emit_reference_as_child", "capnpy/compiler/node.py"), ("declare_const", "capnpy/compiler/module.py")],
 ["attributes of generated modules and classes"])

prop("C28", "Reflection reports exactly the nodes and annotations of the schema",
 "get_node returns the node with the given id (or of the given module, struct or enum) and raises KeyError for any other id; has_annotation is true of an entity and an annotation exactly when the schema annotates that entity with it, get_annotation then returns its value and otherwise raises KeyError, however often they are asked; field_name is the name of the generated attribute.",
 ["inputs", "programs"], "annotations of every scalar and byte string type on every kind of entity; every value and every id of the annotations within the stated combinations; every 64-bit node id",
 "the tests look at three annotations with one value each",
 ["capnpy/reflection.py", "capnpy/compiler/module.py", "capnpy/compiler/misc.py"],
 [("get_annotation, has_annotation, get_node", "capnpy/reflection.py"), ("has_annotation", "capnpy/compiler/module.py")],
 ["capnpy.get_reflection_data(module)"])

prop("C29", "The textual form of an object shows its fields with their values",
 "shortrepr() of any struct shows, in order and under their schema names, every scalar field with its value (defaults applied), every non-null pointer field, every group, and of each union only the current member; booleans, enumerants (by name), integers and floats denote exactly the value which the field reads as, lists show all their items in the same form, and repr() is the same text with the name of the type.",
 ["inputs", "programs"], "structs with every kind of field; every scalar value, every combination of null pointers, every union tag, lists up to the stated length",
 "the tests compare the text of a few messages; members of unions, nullable groups and lists of enums were not among them in combination",
 ["capnpy/compiler/struct_.py", "capnpy/struct_.py", "capnpy/list.py", "capnpy/enum.py", "capnpy/util.py"],
 [("_emit_repr", "capnpy/compiler/struct_.py"), ("item_repr", "capnpy/list.py")],
 ["shortrepr()", "repr()"])

prop("C30", "Schema files are found, compiled and cached by the documented rules",
 "A schema given by module or import name is the file in the first directory of the path which has it (ValueError when none has, or unless exactly one way of naming it is used); it is compiled once per compiler and every name of the same file gives the same module, different files different ones; capnp is run with the directories of the path which exist, in order, and its output is used only when it succeeds and is at least version 0.5.0; the build step generates a module again exactly unless one exists which is newer than its schema, and setup() compiles every schema once with the options of its keywords; the _extended file of a schema runs in the namespace of its module exactly when there is one; a generated module which checks its version is refused by every other version.",
 ["configurations", "inputs", "fault_sequences", "histories"], "every combination of existing files and directories on paths of bounded length, every exit status, every pair of modification times",
 "the tests use one directory, one exit status and one order of modification times",
 ["capnpy/compiler/compiler.py", "capnpy/compiler/distutils.py", "capnpy/util.py"],
 [("_find_file, _get_filename, load_schema", "capnpy/compiler/compiler.py"), ("_capnp_compile, _capnp_check_version, _exec", "capnpy/compiler/compiler.py"), ("DistutilsCompiler.compile", "capnpy/compiler/compiler.py"), ("capnpy_schemas, capnpify", "capnpy/compiler/distutils.py"), ("extend_module_maybe, find_module, check_version", "capnpy/util.py")],
 ["capnpy.load_schema(), capnpy compile, setup(capnpy_schemas=...)"])

prop("C31", "The command line does what its usage says, and decode shows every message",
 "Every combination of the flags of 'capnpy compile' and 'capnpy decode' sets exactly the options which the usage text names; decode shows each message of the stream once, in order, whatever the messages contain, ends normally where the stream ends after a whole message, and reports a stream which ends inside one.",
 ["inputs", "configurations"], "every combination of flags; streams of a bounded number of messages with arbitrary contents and any truncated rest of up to 7 bytes",
 "the tests look at the options of a few command lines and do not run decode",
 ["capnpy/__main__.py", "capnpy/message.py"],
 [("parse_argv, decode, compile", "capnpy/__main__.py"), ("load", "capnpy/message.py")],
 ["python -m capnpy"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
