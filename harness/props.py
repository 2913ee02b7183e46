import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("S01","Derived descriptions match the declared type exactly",
"For every struct or enum declaration the derive accepts, the runtime description lists exactly the declared fields and variants, in order, each with its real name, type, byte offset, documentation and attributes, together with the type's real name, size, alignment, kind, enum representation and discriminants. Reading or writing memory through that description therefore touches exactly the bytes the compiler uses for that field or variant.",
["programs","inputs"],"every type declaration (named, tuple and unit structs; primitive-repr and C-repr enums; explicit and implicit discriminants; generics; doc comments; facet attributes) and every value of it",
"The hand-written derive tests look at a few dozen declarations; the derive re-implements the compiler's layout rules textually, so it can be wrong for any combination of repr, generics, attributes and field types that no test happens to declare.",
["facet-derive-emit/src/lib.rs","facet-derive-emit/src/process_struct.rs","facet-derive-emit/src/process_enum.rs","facet-derive-parse/src/lib.rs","facet-core/src/types/mod.rs","facet-core/src/types/enum_.rs","facet-core/src/types/field.rs"],
[("field description emitter","facet-derive-emit/src/lib.rs gen_struct_field"),("struct emitter","facet-derive-emit/src/process_struct.rs process_struct"),("enum layout shadow structs and discriminants","facet-derive-emit/src/process_enum.rs process_c_style_enum/process_primitive_enum"),("declaration grammar","facet-derive-parse/src/lib.rs")])

p("S02","Type-erased operations behave like the type's own implementations",
"For every supported type and all values of it, each operation the description offers (display, debug, default, clone, equality, ordering, hashing, parsing from text, dropping) gives the same result as calling the type's own implementation on the same value. An operation, trait or marker is reported as available only when the type (for containers: its parts) really supports it, and for scalars and derived types exactly when the type implements it; equal values always hash equally.",
["inputs"],"all values (and pairs of values) of all supported types, including composites such as options, lists, maps, tuples, arrays, slices and smart pointers of every element type",
"Existing tests check which operations are present and their result on one or two literals; agreement with the native implementation is a statement about all values and all nestings of element types.",
["facet-core/src/types/value.rs","facet-core/src/macros.rs","facet-core/src/spez/mod.rs","facet-core/src/types/characteristic.rs","facet-core/src/impls_core","facet-core/src/impls_alloc","facet-core/src/impls_std"],
[("vtable construction macros","facet-core/src/macros.rs value_vtable/value_vtable_inner"),("specialised dispatch","facet-core/src/spez/mod.rs"),("hand-written composite vtables","facet-core/src/impls_core/{array,slice,tuple,option,scalar}.rs, facet-core/src/impls_alloc/{vec,btreemap,smartptr}.rs, facet-core/src/impls_std/hashmap.rs"),("characteristic queries","facet-core/src/types/characteristic.rs")])

p("S03","Reflective reads return exactly what the value holds",
"Exploring any value through the read-only reflection interface yields exactly its contents: every field of a struct or tuple by index and by name, the active enum variant with its discriminant and fields, every list element in order with the right length, every map entry exactly once, the presence and payload of an option, and every scalar. Out-of-range or unknown names and indices, and views of the wrong kind, give an error or nothing rather than other data.",
["inputs"],"all values of all supported types, at any nesting",
"Tests read a handful of literal values; the guarantee ranges over all values, variants, element counts and nestings, where an off-by-one or a wrong offset only shows for particular ones.",
["facet-reflect/src/peek/value.rs","facet-reflect/src/peek/struct_.rs","facet-reflect/src/peek/enum_.rs","facet-reflect/src/peek/list.rs","facet-reflect/src/peek/map.rs","facet-reflect/src/peek/option.rs"],
[("value entry points and kind conversions","facet-reflect/src/peek/value.rs"),("active variant lookup","facet-reflect/src/peek/enum_.rs discriminant/variant_index"),("list and map iteration","facet-reflect/src/peek/list.rs, facet-reflect/src/peek/map.rs")])

p("S04","Type identity guards every typed access",
"Two descriptions compare equal exactly when they describe the same type (and then hash alike), whichever crate describes it, and the rendered name of a type states that type (lifetimes, and the parameters of declared generic types, may be left out). Reading a value as a type, putting a value into a slot, or materialising a finished value succeeds if and only if the requested type is the slot's actual type (or, for an optional slot, its payload type), and a refused access leaves both sides unharmed.",
["inputs","programs"],"all ordered pairs of supported types, and all values of them",
"Tests try one or two mismatched pairs; soundness of typed access needs every pair of types, including look-alikes with the same layout, name or structure.",
["facet-core/src/typeid.rs","facet-core/src/types/mod.rs","facet-reflect/src/peek/value.rs","facet-reflect/src/wip/mod.rs","facet-reflect/src/wip/heap_value.rs","facet-reflect/src/scalar.rs"],
[("type identifiers and description equality","facet-core/src/typeid.rs, facet-core/src/types/mod.rs Shape::eq"),("typed read guard","facet-reflect/src/peek/value.rs get"),("typed write guard","facet-reflect/src/wip/mod.rs put_shape"),("materialisation guard","facet-reflect/src/wip/heap_value.rs materialize"),("scalar classification","facet-reflect/src/scalar.rs try_from_shape")])

p("S05","Type-erased containers behave like the native containers",
"Any sequence of container operations performed through a type's description (creating, appending, inserting, replacing, looking up, counting and iterating lists, slices, maps, options and reference-counted pointers) leaves the container in the state, and returns the results, that the same operations on the native container would. No operation duplicates, loses or prematurely releases an element.",
["histories"],"all sequences of erased container operations over all supported container and element types",
"Tests perform single fixed operations; equivalence with the native container is over histories: replacing, overwriting keys, growing across capacity boundaries, iterating after mutation, dropping at any point.",
["facet-core/src/types/list.rs","facet-core/src/types/map.rs","facet-core/src/types/option.rs","facet-core/src/types/smartptr.rs","facet-core/src/impls_alloc/vec.rs","facet-core/src/impls_alloc/btreemap.rs","facet-core/src/impls_alloc/smartptr.rs","facet-core/src/impls_std/hashmap.rs","facet-core/src/impls_core/option.rs","facet-core/src/impls_core/slice.rs"],
[("list operations","facet-core/src/impls_alloc/vec.rs"),("map operations","facet-core/src/impls_alloc/btreemap.rs, facet-core/src/impls_std/hashmap.rs"),("option operations","facet-core/src/impls_core/option.rs"),("reference-counted pointer operations","facet-core/src/impls_alloc/smartptr.rs")])

p("S06","Scalar descriptions state the numbers the type really has",
"For every scalar type the description's affinity names what the type is (number, text, boolean, character, address, path, empty). For a number the described width, sign and floating-point format read the bytes of every value back as that value; every finite value lies between the described minimum and maximum, which are the least and greatest values of the type itself (never zero for non-zero integers); and the described infinities, NaN, zeros and epsilon are those of the type.",
["inputs"],"all values of all scalar types, including every integer width and signedness, their non-zero forms, and both floating-point formats",
"No test looks at the descriptions of numbers at all; whether a described format reads every bit pattern as the right number is a statement about all values.",
["facet-core/src/impls_core/scalar.rs","facet-core/src/types/scalar.rs","facet-core/src/impls_std/path.rs","facet-core/src/impls_camino.rs"],
[("numeric descriptions","facet-core/src/impls_core/scalar.rs impl_facet_for_integer, f32, f64"),("affinity builders","facet-core/src/types/scalar.rs NumberAffinityBuilder")])

p("W01","Incremental building yields exactly the value that was described",
"Building a value piece by piece (fields in any order, revisited later, nested structs, enum variants chosen by name or index, list elements, map entries, options, defaults, parsed text, or whole sub-values put at once) produces exactly the value whose pieces were supplied, whatever order and mixture of operations was used. While building, the reported path, shape and which-field-is-set answers describe the actual position and progress.",
["histories","inputs"],"all legal construction histories for all values of all supported types",
"Tests follow a handful of fixed construction scripts; correctness must hold for any interleaving of entering, leaving and revisiting parts, any nesting, and any number of fields.",
["facet-reflect/src/wip/mod.rs","facet-reflect/src/wip/enum_.rs","facet-reflect/src/wip/iset.rs","facet-reflect/src/wip/flat_map.rs","facet-reflect/src/wip/heap_value.rs"],
[("frame stack and saved sub-state","facet-reflect/src/wip/mod.rs field/pop/track"),("variant selection","facet-reflect/src/wip/enum_.rs variant"),("initialised-field set","facet-reflect/src/wip/iset.rs"),("list, map and option frames","facet-reflect/src/wip/mod.rs push/push_map_key/push_map_value/push_some/pop_some_push_none")])

p("W02","Incomplete or invalid builds are refused, never completed",
"A build completes only if every part of the value has been initialised; otherwise it fails with an error that names a part really missing, and no supplied element is silently discarded. Any operation that does not fit the current position (unknown field or variant, wrong kind, wrong type, out-of-range index, unparsable text) returns an error instead of panicking, and a completed value never contains uninitialised or invalid memory.",
["histories"],"all construction histories, legal or not, including re-selecting variants, replacing values and leaving parts unfinished at any nesting depth",
"Tests leave out one field in one flat struct; the guarantee concerns any missing part anywhere in any history, including parts that were initialised and later invalidated.",
["facet-reflect/src/wip/mod.rs","facet-reflect/src/wip/enum_.rs","facet-reflect/src/wip/iset.rs","facet-reflect/src/error.rs"],
[("completeness walk","facet-reflect/src/wip/mod.rs build"),("fully-initialised test","facet-reflect/src/wip/mod.rs Frame::is_fully_initialized"),("operation preconditions","facet-reflect/src/wip/mod.rs, facet-reflect/src/wip/enum_.rs")])

p("W03","Every value handed to a builder is released exactly once",
"Whatever sequence of construction operations is performed, and whether the construction is completed, fails, or is abandoned at any point, every value handed over is dropped exactly once or ends up in the finished value, and all memory is returned with the layout it was obtained with. Nothing leaks, nothing is dropped twice, and nothing is read or written after release. If a value's own code panics in the middle of an operation, what was handed over may leak, but still nothing is dropped twice or used after release.",
["histories"],"all construction histories with success, error or abandonment at every step, over all supported types",
"Memory errors in partially initialised values do not fail ordinary assertions, and the tests cannot enumerate the abandonment points of every history.",
["facet-reflect/src/wip/mod.rs","facet-reflect/src/wip/heap_value.rs","facet-reflect/src/wip/enum_.rs","facet-core/src/ptr.rs"],
[("abandonment clean-up","facet-reflect/src/wip/mod.rs Drop for Wip, evict_tree"),("replacement clean-up","facet-reflect/src/wip/mod.rs put_shape"),("ownership transfer","facet-reflect/src/wip/mod.rs pop_inner mark_moved_out_of, facet-reflect/src/wip/heap_value.rs"),("allocation guard","facet-reflect/src/wip/heap_value.rs Guard")])

p("W04","Declared invariants gate every completed build",
"When a type declares invariants, a build of that type (directly or by decoding a document into it) completes if and only if every declared invariant holds for the resulting value, and otherwise reports an invariant violation. The invariants are evaluated on the final value.",
["inputs","histories"],"all values of types declaring one or several invariants, built through any route",
"Tests try one satisfying and one violating value; the gate must hold for every value and every construction or decoding route.",
["facet-reflect/src/wip/mod.rs","facet-derive-emit/src/process_struct.rs","facet-core/src/types/value.rs"],
[("invariant evaluation","facet-reflect/src/wip/mod.rs build"),("invariant function generation","facet-derive-emit/src/process_struct.rs")])

p("W05","Numeric conversion stores the number or refuses it",
"Storing a floating-point number into an integer slot of any width up to 64 bits and either signedness (including non-zero integers) succeeds exactly when the number lies within the range of the slot's type (and, for non-zero slots, does not truncate to zero), and then stores exactly that number truncated toward zero. Numbers out of range and non-finite numbers are refused with an error, and no conversion wraps, saturates or panics.",
["inputs"],"all 64-bit floating-point numbers and all numeric slot types",
"Tests probe a few limits; the correct boundary is one unit in the last place wide for every type and sign.",
["facet-reflect/src/wip/put_f64.rs","facet-core/src/impls_core/scalar.rs"],
[("range tests and casts","facet-reflect/src/wip/put_f64.rs try_put_f64"),("numeric descriptions","facet-core/src/impls_core/scalar.rs")])

p("J01","JSON output is well-formed and denotes the value",
"For every serialisable value, the JSON produced is a well-formed JSON document (RFC 8259) that a standard parser reads as exactly that value: the same keys in declaration order with renames applied, the same elements, exact integers, round-trippable floats, properly escaped strings and map keys, null for absent options. A value JSON cannot express is refused rather than emitted as malformed or different text.",
["inputs"],"all values of all serialisable types, including all Unicode strings, control characters, extreme numbers and empty or deeply nested containers",
"Tests compare a few literal strings; escaping, separators and number formatting must be right for every value.",
["facet-json/src/serialize.rs"],
[("writer","facet-json/src/serialize.rs")])

p("J02","JSON decoding agrees with what the text means",
"Decoding a well-formed JSON document into a matching type gives exactly the value a standard JSON reading of the text denotes, independent of whitespace, key order and escape spelling; in particular decoding the output of the encoder returns the original value. Integers keep every digit and floating-point values are the nearest representable ones.",
["inputs"],"all well-formed JSON texts for all supported target types and all values",
"Tests parse a few fixed documents in one formatting; equivalence must hold over all spellings of all values.",
["facet-json/src/deserialize.rs","facet-json/src/serialize.rs"],
[("parser and value placement","facet-json/src/deserialize.rs")])

p("J03","Malformed or mismatched JSON is refused with an error",
"Decoding arbitrary bytes as JSON into any supported type always terminates with either a value or an error, never a panic or memory error. It is an error whenever the text is not one well-formed JSON document or its structure does not match the target type, and rendering the error never fails.",
["inputs"],"all strings (truncations, mutations, garbage, wrong types, wrong nesting) and all supported target types",
"Tests feed a few malformed documents and only look at their messages; robustness is over the whole input space.",
["facet-json/src/deserialize.rs","facet-json/src/deserialize/error.rs"],
[("parser","facet-json/src/deserialize.rs"),("error rendering","facet-json/src/deserialize/error.rs")])

p("J04","JSON field policies are honoured for every document",
"Renamed fields are matched by their given name only; unknown fields are skipped whole unless the type denies them, in which case they are refused; a missing field takes its declared default (the field's own function, the field type's default, or the containing type's default) and is otherwise refused by name. These rules do not depend on where in the document or at which nesting the field occurs.",
["inputs"],"all documents formed by adding, omitting, renaming and reordering keys, with arbitrary JSON values under unknown keys",
"Tests cover one document per policy; the policies interact with each other, with nesting and with the syntax of the skipped values.",
["facet-json/src/deserialize.rs","facet-json/src/serialize.rs","facet-derive-emit/src/lib.rs","facet-core/src/types/field.rs"],
[("unknown key skipping","facet-json/src/deserialize.rs"),("default filling","facet-json/src/deserialize.rs"),("attribute lowering","facet-derive-emit/src/lib.rs gen_struct_field, build_container_attributes")])

p("M01","MessagePack output conforms to the format and denotes the value",
"For every value of a type the MessagePack encoder supports, the bytes produced are one complete MessagePack object that an independent decoder reads as exactly that value, using the most compact integer, string and map headers the format defines.",
["inputs"],"all values of all encodable types, across every header-width boundary",
"Tests compare a few byte strings; each width boundary and nesting needs its own value.",
["facet-msgpack/src/to_msgpack.rs","facet-msgpack/src/constants.rs"],
[("encoder","facet-msgpack/src/to_msgpack.rs")])

p("M02","MessagePack decoding accepts every valid encoding and round-trips",
"Decoding any valid MessagePack encoding of a value (whatever header widths, key order, or unknown extra entries of any MessagePack type) into its type gives that value, and decoding the encoder's output returns the original.",
["inputs"],"all valid encodings of all values of all supported target types",
"Tests decode a few hand-written byte strings; width choices, key orders and skipped objects multiply.",
["facet-msgpack/src/from_msgpack.rs","facet-msgpack/src/constants.rs"],
[("decoder","facet-msgpack/src/from_msgpack.rs")])

p("M03","Malformed MessagePack is refused with an error",
"Decoding arbitrary bytes as MessagePack into any supported type always terminates with a value or an error, never a panic, out-of-bounds access or runaway allocation. Truncated objects, wrong types, out-of-range numbers, invalid UTF-8 and missing fields are refused.",
["inputs"],"all byte strings (every truncation and mutation of valid encodings, and random bytes) and all supported target types",
"Tests feed a few malformed inputs; robustness is over the whole input space.",
["facet-msgpack/src/from_msgpack.rs","facet-msgpack/src/errors.rs"],
[("decoder bounds and type checks","facet-msgpack/src/from_msgpack.rs")])

p("T01","TOML decoding gives the value the document denotes",
"Decoding a TOML document into a matching type gives exactly the value the document denotes, for scalars of every supported type, nested tables, inline tables, arrays, maps, options and enum variants, independent of the spelling (dotted or quoted keys, table order, number base, string style). Missing options become absent.",
["inputs"],"all values of all supported types and all TOML spellings of them",
"Tests decode one spelling of a few values.",
["facet-toml/src/lib.rs","facet-toml/src/to_scalar.rs"],
[("value placement","facet-toml/src/lib.rs deserialize_item"),("scalar conversion","facet-toml/src/to_scalar.rs")])

p("T02","Mismatched or malformed TOML is refused with an error",
"Decoding any text as TOML into any supported type yields a value or an error, never a panic. It is an error when the text is not TOML, a required part is missing, a value has the wrong type, or a number does not fit the target type.",
["inputs"],"all texts (mutated, truncated, wrongly typed, out of range) and all supported target types",
"Tests feed a few bad documents.",
["facet-toml/src/lib.rs","facet-toml/src/to_scalar.rs","facet-toml/src/error.rs"],
[("type checks","facet-toml/src/lib.rs"),("range checks","facet-toml/src/to_scalar.rs number")])

p("Y01","YAML decoding gives the denoted value or an error",
"Decoding a YAML document into a matching type gives exactly the value it denotes, whatever scalar or mapping style it is written in. Text that is not a single YAML document, unknown or missing fields, wrong types and numbers the target cannot represent are refused with an error, never a panic or a different value.",
["inputs"],"all values of supported types in all YAML spellings, and all malformed or mismatched texts",
"Tests decode two fixed documents.",
["facet-yaml/src/lib.rs"],
[("value placement","facet-yaml/src/lib.rs deserialize_value"),("integer conversion","facet-yaml/src/lib.rs yaml_to_u64")])

p("U01","URL-encoded decoding gives the denoted value or an error",
"Decoding a form-encoded string into a (possibly nested) struct gives exactly the fields it denotes, independent of pair order, percent-encoding and plus-for-space spelling and unknown keys, with bracketed keys reaching the nested field they spell. Missing fields, malformed numbers and scalar or nested values in the wrong place are refused with an error, never a panic.",
["inputs"],"all values of supported types in all encodings and orders, and all malformed or mismatched strings",
"Tests decode about ten fixed strings.",
["facet-urlencoded/src/lib.rs"],
[("key splitting","facet-urlencoded/src/lib.rs NestedValues::insert"),("value placement","facet-urlencoded/src/lib.rs deserialize_value/deserialize_nested_field")])

p("A01","Command-line arguments fill exactly the named fields",
"Parsing an argument list into a struct gives each field exactly the value of its argument: named arguments in any order, flags set to true, positional arguments in declaration order, with values parsed by the field's type. Argument order and interleaving of named and positional arguments do not change the result. A list with an unknown name, a missing value or required field, a surplus positional argument or a value the field's type cannot parse does not produce a value.",
["inputs","histories"],"all argument lists generated from all values of supported argument structs, in every order",
"Tests parse three fixed command lines.",
["facet-args/src/lib.rs"],
[("argument loop","facet-args/src/lib.rs from_slice"),("field parsing","facet-args/src/lib.rs parse_field")])

p("P01","Sensitive fields never appear in pretty-printed output",
"Whatever value is pretty-printed, at any nesting and with any printer settings, the contents of a field marked sensitive do not influence the output: the field is shown as redacted and two values differing only in sensitive contents print identically.",
["inputs"],"all values of all types with sensitive fields (in structs, tuple structs and enum variants), nested in any container, with all printer settings",
"Tests print one struct with one sensitive field; non-interference is a statement about all pairs of values.",
["facet-pretty/src/printer.rs","facet-derive-emit/src/lib.rs"],
[("redaction","facet-pretty/src/printer.rs format_peek_internal"),("flag lowering","facet-derive-emit/src/lib.rs gen_struct_field")])

p("P02","Pretty-printed output shows the whole value faithfully",
"Pretty-printing any value terminates and shows every non-sensitive field name, variant name, list element and scalar of the value in order, properly nested and indented, with scalars rendered as their own display or debug form (a list of bytes in hexadecimal; what lies below a configured maximum depth is marked as cut). Turning colours on only adds terminal styling: removing the styling gives exactly the uncoloured text. When the output cannot be written completely, printing reports the error and writes nothing after it.",
["inputs"],"all values of all printable types and all printer settings",
"Tests compare a few snapshots; completeness, order and nesting must hold for every value and setting.",
["facet-pretty/src/printer.rs","facet-pretty/src/color.rs","facet-pretty/src/display.rs"],
[("traversal","facet-pretty/src/printer.rs format_peek_internal"),("styling","facet-pretty/src/printer.rs, facet-pretty/src/color.rs")])

with open("/verif/properties.jsonl","w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
for x in P:
    assert len(x["title"])<=80,x["id"]
