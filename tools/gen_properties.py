#!/usr/bin/env python3
"""Source of properties.jsonl (one place to edit; run it to regenerate the file)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    P.append(d)

I = "include/dart/"
p("C01", "Finalizing and definalizing a value preserves it exactly",
  "Finalizing any object the library can hold, and reading it back or converting it to the dynamic form again, yields the same value: same structure, keys, order, element types, and numbers and strings bit for bit. Repeating or mixing the conversions in any order never changes the value, and sizing of the finalized buffer is always sufficient.",
  ["inputs", "histories"], "Every object tree up to a bounded size over an alphabet with all type and width boundaries (string lengths around the inline/short/long limits, integers around the 16/32/64-bit limits, floats/doubles, empty aggregates, null), every size of flat aggregate up to a bound, and every short sequence of finalize/definalize conversions.",
  "The tests finalize a few dozen hand-written objects; the layout depends on alignment interactions between all neighbouring key and value sizes, which only enumeration covers.",
  [I+"object.tcc", I+"array.tcc", I+"heap/detail.tcc", I+"buffer/detail.tcc", I+"packet/api.tcc", I+"string.tcc", I+"primitive.tcc"],
  [("heap layout into a finalized buffer", I+"object.tcc object::object(packet_fields), "+I+"array.tcc array::array(packet_elements), "+I+"heap/detail.tcc layout/upper_bound"),
   ("buffer to heap conversion", I+"heap/detail.tcc, "+I+"heap/api.tcc")],
  ["finalize()/lower(), definalize()/lift(), conversions between the three packet types", "read API"])
p("C02", "Key lookup in a finalized object agrees with the mutable object",
  "For every set of keys and every probe key, looking the probe up in a finalized object (membership, subscript, checked access, lookup with default, find) gives exactly the answer the mutable object with the same contents gives: the stored value if the key was inserted, absent otherwise. This holds for keys of any bytes (including empty keys, embedded NULs, non-ASCII bytes) and any length up to 65535, however the finalized object was made.",
  ["inputs"], "Every small set of keys from an alphabet built to collide in length, prefix, sign bit, embedded NUL and saturated length; every object size up to a bound; every probe from the alphabet and its neighbours; finalized objects made by finalization, direct construction, JSON, merging and projection.",
  "Lookup is a binary search over truncated prefixes; it misbehaves only for particular combinations of neighbouring keys, of which the tests contain a handful.",
  [I+"object.tcc", I+"common.tcc", I+"common.h", I+"heap/object.tcc", I+"buffer/object.tcc"],
  [("binary search over the vtable", I+"object.tcc object::get_key"), ("prefix comparison", I+"common.tcc prefix_entry::prefix_compare, prefix_compare_impl"), ("sorted construction", I+"common.tcc dart_comparator, build_buffer")],
  ["has_key, get, [], at, get_or, find, find_key on all packet types"])
p("C03", "A mutable object behaves as a map under every operation history",
  "After any history of adding, inserting, overwriting, setting, removing and clearing fields - by key or through iterators, on the dynamic, packet and typed forms - the object holds exactly what an ordinary key-to-value map holds after the same operations. Insertion overwrites, set requires the key to exist, removal of an absent key does nothing, invalid operations (oversized or non-string keys, wrong types, valueless iterators, mutation of a finalized value) are rejected with the documented kind of error and leave the value unchanged.",
  ["histories"], "Every sequence of object mutations up to a bounded length over a small alphabet of keys (colliding prefixes, equal lengths, empty) and values of all types, on heap, packet, typed object and finalized values.",
  "Tests run straight-line scenarios; errors in overwrite, removal and iterator-based paths depend on the preceding history.",
  [I+"heap/api.tcc", I+"heap/object.tcc", I+"packet/api.tcc", I+"packet/object.tcc", I+"object.tcc"],
  [("insert/set/erase", I+"heap/api.tcc"), ("erase by key", I+"heap/object.tcc erase_key_impl"), ("packet forwarding", I+"packet/object.tcc, "+I+"packet/api.tcc")],
  ["contents after every step", "returned iterators", "kind of error"])
p("C04", "A mutable array behaves as a sequence under every operation history",
  "After any history of pushing, popping, inserting, setting, erasing, resizing, reserving and clearing - by index or through iterators, on the dynamic, packet and typed forms - the array holds exactly what an ordinary sequence holds after the same operations, with its elements in order. Popping an empty array or erasing past the end does nothing, inserting past the end or setting out of range is rejected as out of range, other misuse is rejected with the documented kind of error, and rejected operations leave the array unchanged.",
  ["histories"], "Every sequence of array mutations up to a bounded length over small indices (including one past the end and far out of range) and values of all types, on heap, packet, typed array and finalized values.",
  "Tests run straight-line scenarios on short arrays; index arithmetic and iterator-based paths depend on the history and on boundary positions.",
  [I+"heap/api.tcc", I+"heap/array.tcc", I+"packet/api.tcc", I+"packet/array.tcc", I+"array.tcc"],
  [("insert/set/erase/resize", I+"heap/api.tcc, "+I+"heap/array.tcc"), ("packet forwarding", I+"packet/array.tcc"), ("typed wrapper", I+"array.tcc")],
  ["contents after every step", "returned iterators", "kind of error"])
p("C05", "Copies are independent: mutating one handle never shows through another",
  "Every copy of a value - taken by copying, by extracting a nested element, or by inserting it into another aggregate - behaves as if it were a deep copy: no operation on one handle, successful or rejected, is ever observable through any other handle. Inserting a value into itself stores a snapshot of its contents at that moment.",
  ["histories"], "Every history up to a bounded length over several handles and all mutating operations (including clear, reserve, resize, iterator operations, self insertion and self assignment), with nesting, for every reference counter the library ships and for dynamic, packet and finalized handles.",
  "Sharing is an optimisation that only shows under particular interleavings of copies and mutations; the tests exercise a few of them for a few operations.",
  [I+"heap/api.tcc", I+"heap/array.tcc", I+"heap/object.tcc", I+"heap/detail.tcc", I+"packet/api.tcc"],
  [("copy on write", I+"heap/detail.tcc copy_on_write, called from every mutator")],
  ["value read through every handle after every step"])
p("C06", "All representations answer every read identically",
  "For any value, the dynamic form, the finalized form, the general packet in either state, their views and the typed wrappers give the same answer to every read: type predicates, sizes, element access, defaults, values, keys, comparisons with native values, and the kind of error when an access does not fit the value. Access to a missing key or index yields null, checked access is rejected as out of range, and access with the wrong type is rejected as a type error.",
  ["inputs", "configurations"], "Every value of a bounded family (all types, boundaries, nesting), every read operation with every argument of a small alphabet (present, absent, boundary and out-of-range keys and indices), on all representations and owner/view variants.",
  "The three implementations are separate code; the tests compare them for a few values and rarely on error and default paths.",
  [I+"heap/api.tcc", I+"buffer/api.tcc", I+"packet/api.tcc", I+"heap/array.tcc", I+"buffer/array.tcc", I+"packet/array.tcc", I+"heap/object.tcc", I+"buffer/object.tcc", I+"packet/object.tcc", I+"heap/primitive.tcc", I+"buffer/primitive.tcc", I+"packet/primitive.tcc", I+"api.tcc"],
  [("three parallel read APIs", I+"heap/*.tcc, "+I+"buffer/*.tcc, "+I+"packet/*.tcc")], ["results and kinds of errors of the read API"])
p("C07", "Iteration visits every element once, in one order, in all representations",
  "Iterating a value forwards, backwards, over keys, over values or over key-value pairs visits every element exactly once, keys paired with their own values, and the order is the same for every representation of the same value: index order for arrays, and for objects ascending by key length and then by unsigned byte order. Iterators stay usable when copied, stepped back and forth, or used while the value they came from is kept alive by them or by another handle.",
  ["inputs", "histories"], "Every value of a bounded family and every aggregate size up to a bound, all iteration modes, every sequence of iterator steps up to a bounded length, on heap, buffer and packet.",
  "Tests iterate small fixed values, mostly forwards.",
  [I+"iterator.tcc", I+"heap/iterator.tcc", I+"buffer/iterator.tcc", I+"packet/iterator.tcc", I+"object.tcc", I+"array.tcc"],
  [("iterators", I+"iterator.tcc ll_iterator/dn_iterator and the per-type wrappers")], ["begin/end, rbegin/rend, key_begin/key_end, kvbegin/kvend, keys(), values()"])
p("C08", "Merging fields and projecting keys match map semantics, in every form",
  "Injecting key-value pairs into an object yields the object's fields overwritten and extended by the pairs, and projecting a list of keys yields exactly the fields whose keys are listed, whichever of the dynamic, finalized or packet forms is used and however many keys are given, present or not; a projected key may be listed twice, while a list of pairs to inject that names a key twice is rejected by the finalized form. The source is unchanged, the results are identical in all forms (finalized results are valid, canonical and searchable), and no operation touches memory outside its buffers.",
  ["inputs", "histories"], "Every pair of small key sets with values of every size class, every list of projected keys up to a bounded length (including lists longer than the object), chains of both operations, and size sweeps, on heap, buffer and packet.",
  "Finalized merging and projection build buffers from guessed sizes that depend on alignment interplay; tests cover a few merges.",
  [I+"common.tcc", I+"object.tcc", I+"heap/object.tcc", I+"buffer/object.tcc", I+"packet/object.tcc"],
  [("merge of finalized objects", I+"common.tcc merge_buffers, each_unique_pair; "+I+"object.tcc merge constructor"), ("projection of finalized objects", I+"common.tcc project_keys, project_each_pair; "+I+"object.tcc realign")],
  ["inject(), project()"])
p("C09", "Validation never accepts bytes that are unsafe to read",
  "If validation accepts a byte sequence as a finalized object, then every read of every element reachable in it - iteration, lookup, access, conversion, serialization - stays within those bytes and terminates. Validation itself never reads outside the bytes it was given, and rejects with an error rather than crashing.",
  ["inputs"], "For a family of small valid buffers: every truncation, every value of every single byte, every pair of structural-byte changes from a hostile alphabet, and exhaustive small headers; each accepted result is read completely under address checking.",
  "Corruption space is combinatorial; the existing fuzz target samples it and unit tests check a few corruptions.",
  [I+"object.tcc", I+"array.tcc", I+"string.tcc", I+"primitive.tcc", I+"common.h", I+"buffer/api.tcc"],
  [("structural validation", I+"object.tcc object::is_valid, "+I+"array.tcc array::is_valid, "+I+"string.tcc is_valid, "+I+"common.h valid_buffer")],
  ["is_valid/validate", "complete read of accepted buffers under AddressSanitizer"])
p("C10", "Everything the library produces validates",
  "Every finalized object the library itself produces - by finalization, direct construction, parsing, merging, projection, duplication or extraction of a nested object - is accepted by the library's own validation, over its exact reported size and over any larger region starting with it, and is rejected when any proper prefix of it is presented instead.",
  ["inputs"], "Every object tree of a bounded family through every producing path.", "Tests validate a few objects; acceptance depends on adjacent zero-sized values and alignment.",
  [I+"object.tcc", I+"array.tcc", I+"string.tcc", I+"buffer/api.tcc", I+"common.h"],
  [("structural validation", I+"object.tcc object::is_valid, "+I+"array.tcc array::is_valid")], ["is_valid(), validate()"])
p("C11", "The finalized wire format is deterministic, canonical and stable",
  "The bytes of a finalized object are a function of its value alone: equal values give identical bytes whatever the order of construction, the producing path, the reference counter, or prior contents of memory, with every padding byte zero. The bytes follow the documented little-endian layout: fields sorted by key length then bytes, correct type tags of minimal width, correct offsets and lengths, natural alignment, NUL-terminated strings, total size a multiple of eight.",
  ["inputs", "histories"], "Every object tree of a bounded family, every insertion order of its fields, every producing path (dynamic finalization, direct construction, JSON, merge, projection), with freshly poisoned memory; decoded by an independent decoder.",
  "Tests never look at the bytes; they are the interchange format and the basis of equality.",
  [I+"object.tcc", I+"array.tcc", I+"string.tcc", I+"primitive.tcc", I+"common.h", I+"common.tcc", I+"connector/json.tcc", I+"support/ordered.tcc"],
  [("layout", I+"object.tcc, "+I+"array.tcc constructors"), ("zeroed buffers", I+"common.tcc build_buffer, merge_buffers, project_keys; "+I+"buffer/detail.tcc")],
  ["get_bytes()"])
p("C12", "JSON parsing yields the denoted value in both forms and rejects non-JSON",
  "Parsing a JSON text gives the value it denotes: all fields and elements, with duplicate keys resolved to the last one, escapes decoded, integers exact when they fit 64 signed bits and nearest doubles otherwise. Parsing straight to the finalized form and parsing to the dynamic form agree on every object text, and malformed text is rejected with a parse error, without a value, crash or leak.",
  ["inputs"], "Every token sequence up to a bounded length from a grammar-covering alphabet (valid and invalid), every nesting shape up to a bound, boundary numbers, escapes, duplicate keys, key and string length boundaries, and every truncation and single-byte substitution of sample documents, against an independent recursive-descent parser.",
  "Tests parse a fixed corpus; the two parsers (event driven and document based) share no code.",
  [I+"connector/json.tcc", I+"common.h", I+"object.tcc", I+"array.tcc"],
  [("event-driven builder", I+"connector/json.tcc heap_parser"), ("document lowering", I+"common.h json_lower/json_identify, "+I+"object.tcc object(rapidjson)")],
  ["from_json/parse on heap, buffer, packet"])
p("C13", "Serializing to JSON and parsing back returns the same value",
  "For every value whose numbers are finite, the JSON text produced is well-formed, denotes exactly that value, is identical for every representation of it, and parsing it again gives an equal value. Strings with any bytes that are valid text, including quotes, control characters and embedded NULs, survive. Non-finite numbers are written as the NaN and Infinity literals when the caller asks for them, and read back by the matching parsing option.",
  ["inputs"], "Every value tree of a bounded family with boundary strings and numbers, every single byte and escape class in keys and values, on heap, buffer, packet and typed wrappers, checked by an independent JSON reader.",
  "Tests serialize a small corpus.",
  [I+"connector/json.tcc"], [("serializer", I+"connector/json.tcc json_serialize, to_json")], ["to_json(), operator<<, from_json()"])
p("C14", "YAML parsing yields the denoted value and rejects what it cannot represent",
  "Parsing a YAML document made of block and flow mappings, sequences and scalars gives the value it denotes, with untagged plain scalars resolved to null, booleans, integers, decimals or strings and quoted scalars always strings, identically for every representation. Documents using unsupported features (aliases, complex keys, bare scalars) or malformed text are rejected with an error, never with a crash, leak or wrong value.",
  ["inputs"], "Every event sequence up to a bounded length rendered in block and flow styles, every scalar of an alphabet of boundary spellings in plain and quoted styles, every truncation and single-byte substitution of sample documents.",
  "Tests parse one file.",
  [I+"connector/yaml.tcc"], [("event state machine", I+"connector/yaml.tcc parse_yaml"), ("scalar resolution", I+"connector/yaml.tcc parse_scalar")], ["from_yaml on heap, buffer, packet"])
p("C15", "Equality means equal values, in every combination of representations",
  "Two values compare equal exactly when they have the same type and the same contents (with NaN and signed zeros left aside), whatever representations, views, wrappers or reference counters the operands use; equality is reflexive, symmetric, transitive, and the negation of inequality. Comparison with native C++ values agrees with comparing the contained value, if it is of the matching kind, with the native value as C++ compares them.",
  ["inputs", "configurations"], "Every pair from a family of values chosen to differ in exactly one aspect (type, one key, one byte, one element, length, nesting, embedded NUL, inline or allocated string), in every pair of representations and reference counters.",
  "Equality has separate code for each pair of representations; tests check a few pairs.",
  [I+"conversion_traits.h", I+"operators.tcc", I+"common.h"],
  [("typed and generic comparison", I+"conversion_traits.h typed_compare, generic_compare, compare_impl")], ["operator == and !="])
p("C16", "Concurrent use of separate handles to shared data is safe",
  "When threads each use their own handles to shared data - copying, reading, mutating, finalizing and destroying them - under a thread-safe reference counter, each thread observes exactly what it would observe had it owned a deep copy, in every interleaving. The shared data is freed exactly once, after its last use, and never mutated while another handle can see it.",
  ["schedules"], "Every interleaving, up to a preemption bound, of two and three threads running short programs over handles to the same value, with a scheduling point at every reference-count operation, using the library's own atomic counted pointer.",
  "The tests are single-threaded.",
  [I+"heap/detail.tcc", I+"heap/api.tcc", I+"support/ptrs.tcc", I+"support/ptrs.h", I+"buffer/api.tcc", I+"refcount_traits.h"],
  [("copy on write gated on the reference count", I+"heap/detail.tcc copy_on_write"), ("counted pointer", I+"support/ptrs.tcc counted_ptr_base")],
  ["values per thread", "destruction count", "AddressSanitizer"], [("use_count", "owners of a shared aggregate or buffer", I+"support/ptrs.h managed_ptr")])
p("C17", "Data lives exactly as long as something refers to it",
  "A value, a nested element extracted from it, an iterator or a view's owner keeps the underlying data alive exactly as long as needed: in any history of copying, moving, extracting (including consuming extraction from temporaries), assigning and destroying handles, reads through live handles are valid and correct, moved-from handles are null, and when the last handle goes all memory has been released exactly once. This holds for every reference counter supplied, including user-supplied ones.",
  ["histories", "configurations"], "Every history up to a bounded length over several handles of dynamic, finalized and packet values, views and sub-values, with the shipped and an instrumented user-supplied reference counter; every execution is checked for leaks, double release and use after release.",
  "Tests do not count ownership and exercise few move and extraction chains.",
  [I+"heap/api.tcc", I+"buffer/api.tcc", I+"buffer/detail.tcc", I+"packet/api.tcc", I+"support/ptrs.tcc", I+"refcount_traits.h", I+"api.tcc"],
  [("ownership handles", I+"support/ptrs.tcc shareable_ptr, view_ptr; "+I+"buffer/detail.tcc")], ["values, leak accounting, owner counts"])
p("C18", "Running out of memory never corrupts, leaks or terminates",
  "If any memory allocation fails during construction, mutation, copying, finalization, conversion, merging, projection, parsing or serialization, the operation reports out-of-memory and the program continues: every other value is unchanged, the value being operated on is either unchanged or still valid, nothing leaks, and the same operation succeeds when retried with memory available.",
  ["fault_sequences"], "For every operation scenario of a list covering the mutating, converting and parsing API, every single failing allocation position, in all representations.",
  "The tests never fail an allocation.",
  [I+"heap/api.tcc", I+"heap/object.tcc", I+"heap/array.tcc", I+"common.h", I+"common.tcc", I+"connector/json.tcc", I+"connector/yaml.tcc", I+"buffer/api.tcc"],
  [("ownership before construction", I+"common.h aligned_alloc"), ("by-value conversion before mutation", I+"heap/api.tcc insert/set")], ["exceptions, values, leak accounting"])
p("C19", "Typed wrappers and operators behave as the values they wrap",
  "A typed object, array, string, number, flag or null holds only values of its type: construction or assignment from anything else is rejected as a type error, and everything accepted reads, mutates, converts and compares exactly as the wrapped value. Arithmetic and concatenation with native operands on either side give the native result in the written operand order.",
  ["inputs", "configurations"], "Every value of a bounded family against every wrapper type and representation; every operator with every pair of operands from a boundary alphabet in both orders.",
  "Tests cover a few operand orders and wrapper conversions.",
  [I+"object.tcc", I+"array.tcc", I+"string.tcc", I+"primitive.tcc", I+"operators.tcc", "include/dart.h"],
  [("type checks on construction", I+"object.tcc ensure_object, "+I+"array.tcc, "+I+"string.tcc, "+I+"primitive.tcc"), ("operators", I+"operators.tcc")], ["constructors, operators"])
p("C20", "Native C++ values survive conversion in and out unchanged",
  "Converting a native value - integers of every width, floating point, booleans, strings, optionals, variants, tuples, pairs, vectors, lists, maps, sets, chrono types and nestings of these - into the library and back yields an equal value, in every representation, and comparing the two directly reports equality. Converting a value to a native type it does not fit is rejected with an error (or an empty optional where requested), never silently altered. (Conversion to bool asks for truthiness, conversion to float rounds to the nearest float, and points in time are kept to whole seconds, written as ISO 8601 dates of which only whole, possible ones are read.)",
  ["inputs", "configurations"], "Every value of a boundary alphabet for every supported native type and nesting up to a bound, and every mismatched pair of value and native type.",
  "Tests convert one or two values per type.",
  [I+"conversions.h", I+"conversion_traits.h"], [("conversion traits", I+"conversions.h")], ["convert::cast, as<T>(), maybe_as<T>(), ==" ])
p("C21", "The C interface behaves as the C++ interface it exposes",
  "Every C function gives the result the corresponding C++ operation gives on the same value, for all three packet kinds and both reference counters: contents after mutation, lookups, iteration, comparisons, conversions and JSON. Every failure is reported through the documented error code and message with no exception escaping, and leaves the arguments usable and unchanged (a value offered to a take function may already have been consumed, and is then null).",
  ["histories", "inputs"], "Every sequence of C calls up to a bounded length over a small alphabet against a reference model, every accessor on every value type, and every format string of the variadic constructors up to a bounded length.",
  "The C tests follow straight-line scenarios and check few error codes.",
  ["src/heap.cc", "src/buffer.cc", "src/generic.cc", I+"abi.h"], [("exception to error-code mapping", "src/abi.h err_handler"), ("per-kind dispatch", "src/generic.cc")], ["return codes, dart_get_error, values"])
p("C22", "The C interface neither leaks nor double-frees, on success or failure",
  "In any history of C calls in which every initialised handle is destroyed once, all memory is released exactly once, whether calls succeed or fail: failing initialisers leave nothing behind and a destroyable (null) handle, copies and moves keep counts right, and data obtained from a handle stays valid for its lifetime.",
  ["histories"], "Every sequence of C calls up to a bounded length over two handles including failing calls, plus every malformed format string and JSON text of a family, with leak accounting on each execution.",
  "The C tests do not check for leaks and rarely take failure paths.",
  ["src/heap.cc", "src/buffer.cc", "src/generic.cc", I+"abi.h"], [("placement construction and destruction", "src/heap.cc, src/buffer.cc, src/generic.cc")], ["leak accounting, AddressSanitizer"])
p("C23", "Support types behave as their standard counterparts",
  "The byte-order-fixed integers, string view, optional, variant and counted or shareable smart pointers the library provides behave as their standard counterparts for every operation history: values, comparisons, searches, arithmetic, engagement, the alternative held, ownership counts, destruction exactly once, and stored bytes in the declared byte order.",
  ["inputs", "histories"], "Every pair of boundary values for each integer operation and width; every string and needle up to a bounded length over a two-letter alphabet with every position argument; every operation sequence up to a bounded length on optionals, variants and pointers, elements throwing at each point.",
  "Tests check a few calls of each.",
  [I+"support/ordered.tcc", I+"support/string_view.tcc", I+"support/optional.tcc", I+"support/variant.h", I+"support/ptrs.tcc", I+"support/ptrs.h"],
  [("support types", I+"support/*.tcc")], ["public API of the support types"])
p("C24", "Exporting a finalized value's bytes and importing them returns it",
  "The bytes of a finalized object - viewed, duplicated or shared, of a root or of an object nested inside another - can be imported in the same or another process memory at any suitably aligned place, copied or adopted, and give back the same value. The reported size is exact, viewed and duplicated bytes of nested objects are self-contained, shared exports hand out and keep alive the whole buffer the value lives in, and empty, truncated or wrongly aligned input is rejected or handled without unsafe access.",
  ["inputs", "configurations"], "Every object tree of a bounded family, its nested objects, every export path combined with every import path, reference counter and packet kind.",
  "Tests round-trip a few objects.",
  [I+"buffer/api.tcc", I+"buffer/detail.tcc", I+"packet/api.tcc", "include/dart.h"], [("byte import/export", I+"buffer/api.tcc get_bytes, dup_bytes, share_bytes; constructors from bytes")], ["get_bytes, dup_bytes, share_bytes, byte constructors"])
p("C26", "Switching reference counters preserves values and isolates owners",
  "Converting a value from one reference counter to another gives an equal, independent value in every representation, leaving the source unchanged, and the result neither extends nor depends on the source's lifetime except as documented.",
  ["inputs", "configurations"], "Every value of a bounded family, in every representation, between every ordered pair of shipped reference counters, followed by mutation and destruction of either side in every order.",
  "Tests convert one or two values.",
  [I+"heap/api.tcc", I+"buffer/api.tcc", I+"packet/api.tcc", I+"api_swap.h"], [("transmogrify", I+"heap/api.tcc, "+I+"buffer/api.tcc, "+I+"packet/api.tcc")], ["transmogrify"])
p("C27", "Nested path lookup follows successive key lookups",
  "Looking up a separated path gives exactly the value reached by looking up each component in turn, in every representation; it gives null as soon as a component is absent or leads into a non-object, an empty path gives the value itself, and a trailing separator is ignored. Any byte may be chosen as separator.",
  ["inputs"], "Every path up to a bounded length over two key letters and the separator, on every object tree of a bounded family, with several separators, on all representations.",
  "Tests look up a few paths.",
  [I+"common.h", I+"heap/object.tcc", I+"buffer/object.tcc", I+"packet/object.tcc"], [("path walk", I+"common.h get_nested_impl")], ["get_nested"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P), "properties")
