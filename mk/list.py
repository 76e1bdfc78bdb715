CORPUS = "every type in the corpus: all built-in Facet impls and structs/enums in every form the derive accepts (generics, lifetimes, reprs, attributes)"

prop("C01", "A type's shape has the compiler's layout and the type's own identity",
     "For every type that implements Facet, the shape's size and alignment are those the compiler gives the type, its identity is that type's identity and no other's, and its type-parameter list names each parameter with the shape of the actual argument. "
     "Shapes of containers describe the container's own element, key, value or pointee type.",
     ["programs"], "Every type with a Facet impl, built-in or derived, at every instantiation.",
     "Tests print the shapes of a few types; a wrong size, alignment or argument shape in one impl or one derive path is undefined behaviour only for the types that use it.",
     ["facet-core/src/impls_core/*.rs", "facet-core/src/impls_alloc/*.rs", "facet-core/src/impls_std/*.rs", "facet-core/src/impls_camino.rs", "facet-derive-emit/src/*.rs"],
     [("const SHAPE of each impl", "facet-core/src/impls_*"), ("build_type_params, derived SHAPE", "facet-derive-emit/src/lib.rs")],
     "compiler-evaluated constants compared with compiler layout/type facts (rustc_private driver)",
     "Exact for " + CORPUS + "; assumes an impl treats an instantiation outside the corpus like the ones inside it (it is the same generic constant).")

prop("C02", "Struct and tuple shapes list every field with its true name, place and type",
     "The shape of a struct or tuple lists exactly the declared fields in declaration order, each with its declared name, the byte offset the compiler gives it and the shape of its declared type, and the struct kind (named, tuple, unit) as declared.",
     ["programs"], "Every struct the derive accepts and every tuple arity with an impl.",
     "A wrong offset in one derive path or one tuple arity reads another field's bytes; tests look at a handful of structs.",
     ["facet-derive-emit/src/process_struct.rs", "facet-derive-emit/src/lib.rs", "facet-core/src/impls_core/tuple.rs"],
     [("gen_struct_field / struct field list", "facet-derive-emit/src/lib.rs"), ("field! macro", "facet-core/src/impls_core/tuple.rs")],
     "compiler-evaluated constants compared with the compiler's field offsets and declared types",
     "Exact for the structs and tuple arities of the corpus (all forms and all 12 arities).")

prop("C03", "Enum shapes give every variant its true tag, payload places and types",
     "The shape of an enum states the tag width (and, when a primitive representation is declared, its signedness) the compiler uses, and lists exactly the declared variants in order, each with its name, the discriminant the compiler assigns and its payload fields with true names, offsets and types.",
     ["programs"], "Every enum the derive accepts, for every representation it accepts.",
     "Tests use u8 and C enums with few variants; widths, implicit discriminants after explicit ones and payload offsets per representation are only sampled.",
     ["facet-derive-emit/src/process_enum.rs", "facet-core/src/types/enum_.rs"],
     [("process_enum", "facet-derive-emit/src/process_enum.rs")],
     "compiler-evaluated constants compared with the compiler's discriminants, tag layout and variant field offsets",
     "Exact for the enums of the corpus: every accepted representation, explicit/implicit discriminants, unit/tuple/struct variants, generics.")

prop("C04", "Attributes and docs written on a declaration are the ones the shape carries",
     "Every attribute written in a #[facet(...)] of its own appears on that item in the shape and nothing appears that was not written: on a field sensitive (with its flag), default, default = function, rename, opaque and other text; on a struct or enum default, deny_unknown_fields and transparent; on a struct invariants. "
     "Default and invariant functions are the ones named, and every doc line of a container, variant or field is there, in order.",
     ["programs"], "Every declaration the derive accepts, attributes in any combination, one per #[facet(...)].",
     "A dropped or misplaced attribute silently changes how data is read or whether a secret is redacted; tests check a few attributes on a few positions.",
     ["facet-derive-parse/src/lib.rs", "facet-derive-emit/src/lib.rs", "facet-derive-emit/src/process_struct.rs", "facet-derive-emit/src/process_enum.rs"],
     [("gen_struct_field attribute translation", "facet-derive-emit/src/lib.rs"), ("ContainerAttributes handling", "facet-derive-emit/src/process_struct.rs")],
     "compiler-evaluated constants compared with the declaration's attributes as the compiler sees them; named functions followed through resolved calls",
     "Exact for the declarations of the corpus; comma-combined attributes are documented as unsupported by the derive and left out.")

prop("C05", "A shape offers exactly the operations and markers its type really has",
     "For scalars and derived types, a shape offers display, debug, default, clone, equality, ordering, hashing or parsing exactly when the type implements that trait, and claims Eq, Send, Sync, Copy or Unpin only when the type has it; containers never claim an operation or marker their type and elements do not support and keep offering those they do today. "
     "A type that needs dropping always has a drop function.",
     ["programs"], "Every type with a Facet impl, at element types with and without each trait.",
     "Tests list characteristics of well-behaved types; a claim that is wrong for an element type nobody tested makes generic code call a missing function.",
     ["facet-core/src/macros.rs", "facet-core/src/spez/mod.rs", "facet-core/src/impls_core/*.rs", "facet-core/src/impls_alloc/*.rs", "facet-core/src/impls_std/*.rs"],
     [("value_vtable!", "facet-core/src/macros.rs"), ("element-dependent builders", "facet-core/src/impls_*")],
     "compiler-evaluated vtable constants compared with the compiler's trait solver",
     "Exact for the corpus types; element types with and without each trait are included for every container.")

VTAB = "Exact up to the listed rules for all ~3,500 table functions reachable from the corpus shapes; std functions keep their documented meaning; a generic function is analysed at the corpus instantiations."

prop("C06", "Table functions treat every pointer as the type it really points to",
     "In every function a shape's tables point to (value operations, list, map, array, slice, option, smart pointer and map iterator tables), each pointer parameter is viewed as exactly the type it stands for: the described type, its element, key, value, pointee, or its own weak or strong counterpart. "
     "Pointers handed on to another shape's operation, and pointers returned, have that shape's or that element's type.",
     ["programs"], "Every table function of every Facet impl, at every instantiation.",
     "A view at a wrong type (key as value, element as container) is undefined behaviour that shows only for types whose layouts differ; tests use a few instantiations, often with K == V.",
     ["facet-core/src/impls_core/*.rs", "facet-core/src/impls_alloc/*.rs", "facet-core/src/impls_std/*.rs", "facet-core/src/macros.rs", "facet-core/src/ptr.rs"],
     [("table closures", "facet-core/src/impls_*"), ("value_vtable!", "facet-core/src/macros.rs")],
     "type check of every pointer cast on the compiler's MIR of the resolved table functions, parameters traced through inlined callees", VTAB)

prop("C07", "A shape's operations are the type's own operations, applied to the whole value",
     "The clone, default, equality, ordering, hash, display, debug and parse a shape offers for a scalar, smart pointer, option or declared type run exactly that type's own trait method on the given arguments in order, on every path, and return or store its unchanged result. "
     "Those of arrays, slices, lists, maps and tuples run the same-named operation of every element, left side against right side in order, over the whole container, comparing the lengths where they pair elements up, and never answer equal when an element differs.",
     ["programs", "inputs"], "Every value operation of every shape, for all values.",
     "Unit tests compare a few values; a swapped side, a shorter prefix, another trait's method or an inverted answer passes on symmetric or equal-length samples.",
     ["facet-core/src/impls_core/*.rs", "facet-core/src/impls_alloc/*.rs", "facet-core/src/impls_std/*.rs", "facet-core/src/macros.rs"],
     [("value_vtable!", "facet-core/src/macros.rs"), ("container operations", "facet-core/src/impls_*")],
     "call-and-dataflow rules over the inlined MIR flow graphs of the table functions (callee identity by compiler resolution, argument provenance, path conditions)", VTAB)

prop("C08", "Table functions neither leak, double-drop nor use values they do not own",
     "On every path through every table function: drop ends the value exactly once; clone, default, init, new, downgrade fill the uninitialised target exactly once, parse and upgrade exactly when they answer Ok/Some, and never drop it; "
     "an item, key, value or pointee handed over is moved out exactly once and ends up in the container (a list push appends it, a map insert stores that key with that value); values only lent are never moved, overwritten or dropped; what a replacement overwrites is dropped; nothing is forgotten. "
     "The pointer handed back is the target's.",
     ["programs", "inputs"], "Every path of every ownership-carrying table function.",
     "A leak or double drop is silent in ordinary tests and depends on element types with destructors and on error paths.",
     ["facet-core/src/impls_core/*.rs", "facet-core/src/impls_alloc/*.rs", "facet-core/src/impls_std/*.rs", "facet-core/src/macros.rs", "facet-core/src/ptr.rs"],
     [("table closures", "facet-core/src/impls_*"), ("PtrConst::read, PtrUninit::put, PtrMut::replace/drop_in_place", "facet-core/src/ptr.rs")],
     "ownership dataflow: per-path counts of move-out, fill and drop of each pointer parameter over the inlined MIR flow graphs, correlated with the returned variant", VTAB)

prop("C09", "Element access through the tables is in bounds and finds the right element",
     "The element access of lists, arrays and slices addresses exactly the element asked for, never for an index at or beyond the length and always below it; a reported length is the container's own; "
     "a map lookup uses the key it is given, answering Some (or true) exactly when the lookup finds it and with what it found; map iteration starts from every entry, keeps the map's order and yields each key with its own value; an option answers Some exactly when it is Some, with its own payload. Returned pointers lead into the value asked.",
     ["programs", "inputs"], "Every index, key and container value.",
     "Tests index inside the bounds of small containers; the boundary index and wrong-key lookups are only sampled.",
     ["facet-core/src/impls_core/array.rs", "facet-core/src/impls_core/slice.rs", "facet-core/src/impls_core/option.rs", "facet-core/src/impls_alloc/vec.rs", "facet-core/src/impls_alloc/btreemap.rs", "facet-core/src/impls_std/hashmap.rs"],
     [("get_item_ptr / len", "facet-core/src/impls_core/array.rs, slice.rs, facet-core/src/impls_alloc/vec.rs"), ("map vtable and iterator", "facet-core/src/impls_alloc/btreemap.rs, facet-core/src/impls_std/hashmap.rs")],
     "order-abstraction dataflow (index vs length) and lookup provenance over the inlined MIR flow graphs", VTAB)

PEEKN = "Decided on the generic MIR of every public function of facet-reflect's reading side with everything it calls in the facet crates inlined; the tables' functions keep what C06-C09 decide."

prop("C10", "A Peek always pairs an address with the shape of the value there",
     "Every Peek that facet-reflect builds pairs an address with the shape of what lies there: a reference with its type's shape, a field's offset from the value's own address with that same field's shape, what the "
     "value's own list, map, option table returns with the element, key, value or payload shape of the same definition (keys as keys, values as values). Struct, enum, map, list, option and smart pointer views carry "
     "the definition of their own value's shape, and list and map iterators start at the first entry with their own container's length or iterator.",
     ["programs", "inputs"], "Every place in facet-reflect that constructs a Peek, a view or an iterator; all values.",
     "A Peek with another value's shape makes every later typed read undefined behaviour; tests see it only when the layouts happen to differ.",
     ["facet-reflect/src/peek/*.rs", "facet-reflect/src/wip/heap_value.rs"],
     [("Peek constructions", "facet-reflect/src/peek/*.rs")],
     "provenance dataflow of every (address, shape) pair over inlined MIR flow graphs", PEEKN)

prop("C11", "Values are read, compared and looked up only as their own type",
     "Reading a Peek or HeapValue as a Rust type (get, materialize) happens only when its shape equals that type's; comparing two of them calls the comparison only when both shapes are equal; a map lookup runs only with a key of the "
     "map's key shape; every other table function is called on the value whose own shape or definition it comes from. Otherwise the operation reports an error, None or false.",
     ["programs", "inputs"], "Every safe public function of the reading side, all pairs of values.",
     "The safe API would otherwise reinterpret memory; tests only ever compare or look up matching types.",
     ["facet-reflect/src/peek/value.rs", "facet-reflect/src/peek/map.rs", "facet-reflect/src/wip/heap_value.rs"],
     [("Peek::get, PartialEq, PartialOrd", "facet-reflect/src/peek/value.rs"), ("HeapValue::materialize", "facet-reflect/src/wip/heap_value.rs")],
     "reachability of each typed access and table call under the assumption that the shapes differ (conditional constant propagation over inlined MIR)", PEEKN)

prop("C12", "Operations on a Peek are the value's own operations",
     "Equality, ordering, hash, display, debug and type name of a Peek or HeapValue, and length, emptiness, is_some, is_none and contains_key of its views, call exactly the same-named entry of the value's own table once, on the operands in "
     "order, and return its answer; hashing passes every byte on. Without such an entry equality is false or None, ordering None, hash false or a panic; for different shapes equality is false or None, ordering None, contains_key false.",
     ["programs", "inputs"], "Every forwarding operation, for all values of all shapes.",
     "Symmetric samples hide swapped operands; the entry-missing and shape-mismatch answers are rarely exercised.",
     ["facet-reflect/src/peek/value.rs", "facet-reflect/src/peek/list.rs", "facet-reflect/src/peek/map.rs", "facet-reflect/src/peek/option.rs", "facet-reflect/src/wip/heap_value.rs"],
     [("Peek trait impls", "facet-reflect/src/peek/value.rs")],
     "path-count and returned-value rules under assumed table entries over inlined MIR", PEEKN)

prop("C13", "The active variant of an enum value is the one its discriminant names",
     "PeekEnum::discriminant reads the tag at the start of the value with exactly the width and signedness of the enum's representation and widens it to i64 without loss; variant_index, active_variant and variant_name_active "
     "answer with the variant of the enum's own list whose recorded discriminant equals it, and with no other.",
     ["programs", "inputs"], "Every representation and every value.",
     "Tests use few representations and small discriminants; sign extension or a narrower read fails only for large or negative ones.",
     ["facet-reflect/src/peek/enum_.rs"], [("PeekEnum::discriminant, variant_index", "facet-reflect/src/peek/enum_.rs")],
     "per-representation reachability of typed reads and conversions; equality-guarded selection over inlined MIR", PEEKN)

prop("C14", "ScalarType names the type the shape really is",
     "ScalarType::try_from_shape, and Peek::scalar_type on the value's shape, answer Some(V) exactly for the shape of the type V stands for (one type per V), every V is reached, and every other shape gets None.",
     ["programs", "inputs"], "Every ScalarType variant, every shape.",
     "Serializers trust this classification and read the value as that type; swapped arms are unsound or misprint, and tests check each once at most.",
     ["facet-reflect/src/scalar.rs", "facet-reflect/src/peek/value.rs"], [("ScalarType::try_from_shape", "facet-reflect/src/scalar.rs")],
     "decision-table extraction from inlined MIR: reachable result per assumed type id", PEEKN)

prop("C15", "Lookups on a Peek answer with what was asked for, or that it is absent",
     "field(i), get(i), variant_name(i) answer with the element at i exactly when i is below the count and with None or an error otherwise, never a panic; field_by_name and field_index answer with the field whose name "
     "equals the one asked for, and nothing for other names; fields() pairs every field in order with its own value; list iteration yields index 0, 1, ... to the end and hints the exact rest; map iteration and get yield exactly what the "
     "map's table yields; an option's value is Some exactly when it is; into_struct, into_enum, into_map, into_list, into_option, into_smart_pointer succeed exactly for a shape of that kind.",
     ["programs", "inputs"], "Every index, name, value and kind of shape.",
     "Boundaries, unknown names and the last element are only sampled by tests.",
     ["facet-reflect/src/peek/*.rs"], [("PeekStruct, PeekEnum, PeekList, PeekMap, PeekOption", "facet-reflect/src/peek/*.rs")],
     "order- and equality-abstraction over inlined MIR: reachable answers per assumed outcome of the index/name/kind tests, identity of the element returned", PEEKN)

WIPN = "Decided on the generic MIR of every public function of facet-reflect's builder (Wip) with everything it calls in the facet crates inlined, so for every shape at once; the tables' functions keep what C06-C09 decide."

prop("C16", "The builder writes to an address only what the shape there says lies there",
     "In the builder (Wip), every frame pairs an address with the shape of what lies there: fresh memory allocated with that shape's own layout, or a field's offset from its own parent's address with that same field's shape, or the payload of the "
     "selected variant. Values are written to a frame only as that frame's shape: a put type-checks against the shape or goes through the shape's own table entry (default, parse, conversion, default function of the field); bytes are copied only between "
     "places of one shape with that shape's size; lists, maps, options and smart pointers are filled through the table of the container's own shape with items, keys, values of its element, key, value shape, at the right argument.",
     ["programs", "inputs", "histories"], "Every safe public operation of Wip, in every order, on every shape and value.",
     "A wrong pairing is undefined behaviour that shows only when layouts differ; tests build a few shapes in a few orders.",
     ["facet-reflect/src/wip/*.rs"], [("Frame construction, put*, push, pop", "facet-reflect/src/wip/mod.rs"), ("put_f64, put_shape", "facet-reflect/src/wip/put_f64.rs"), ("HeapValue", "facet-reflect/src/wip/heap_value.rs")],
     "provenance dataflow of every (address, shape) pair, and reachability of every typed write under assumed shape mismatch, over inlined MIR", WIPN)

prop("C18", "The builder hands out a value only when every part of it was written",
     "The builder's bookkeeping is true: a part is marked initialized only where a value was written for it, in the frame whose parent it is, with the index it was pushed for; a value taken away or dropped in place is marked uninitialized; a scalar, list, map, option is "
     "initialized only when its mode says so; an enum records a variant only with its tag. build, pop, put into a container and option/pointer completion go ahead only when every field (of the selected variant, for an enum) of the frame and of everything tracked below it is "
     "initialized, and otherwise report an error.",
     ["programs", "inputs", "histories"], "Every sequence of builder operations, on every shape.",
     "Handing out a value with one field unwritten is undefined behaviour; the orders in which fields are written, replaced, re-entered and abandoned are far too many to test.",
     ["facet-reflect/src/wip/*.rs"], [("ISet, istates, is_fully_initialized", "facet-reflect/src/wip/mod.rs"), ("Wip::build, evict_tree, mark_*", "facet-reflect/src/wip/mod.rs")],
     "typestate analysis (write / mark / unmark / test events) over inlined MIR with assumed test outcomes", WIPN)

prop("C17", "Selecting a variant writes that variant's tag",
     "variant(i) on a Wip whose current value is an enum writes, exactly once, at the start of that value, the discriminant recorded for variant i of its own shape, in the integer type its representation (u8 ... i64, usize, isize) stands for, and records the same variant; "
     "for an index past the end, or a current value that isn't an enum, it reports an error and writes nothing; variant_named selects the variant found by that name.",
     ["programs", "inputs", "histories"], "Every enum shape and representation, every index.",
     "Tests select variants of a few u8 enums with small discriminants; a wrong width or a sign-changing cast is a corrupted tag (undefined behaviour) for the others only.",
     ["facet-reflect/src/wip/*.rs"], [("Wip::variant, variant_named", "facet-reflect/src/wip/mod.rs")],
     "typestate of tag stores over inlined MIR, once per assumed representation; cast-chain and provenance of what is stored", WIPN)

prop("C19", "Everything the builder is given or allocates is released exactly once",
     "Whatever the history, a Wip drops every value it holds, or hands it on, exactly once, and frees every allocation exactly once with the layout it was made with: a frame that owns its memory says so exactly when it was allocated for it; a popped frame is kept track of, released or moved; what was handed to a "
     "container is forgotten with all its parts and its memory freed; dropping a Wip releases every frame and tracked value, wholes before their parts, whole if initialized and otherwise each initialized part; build hands out the root and forgets it and its parts; a value given to put* is dropped if refused; "
     "a HeapValue drops or moves its value once and frees its memory once.",
     ["programs", "inputs", "histories"], "Every sequence of builder operations, including those abandoned in the middle or after an error, on every shape.",
     "Double drops and leaks depend on where a build was abandoned and what had been re-entered; tests drop a handful of partial builds, without counting.",
     ["facet-reflect/src/wip/*.rs"], [("Wip::drop, clean_up_frame, track, evict_tree, mark_moved_out_of", "facet-reflect/src/wip/mod.rs"), ("HeapValue, Guard", "facet-reflect/src/wip/heap_value.rs")],
     "ownership typestate (owned / tracked / released / moved; allocated / freed) over inlined MIR with assumed flag, size and initialization outcomes", WIPN)

prop("C20", "The builder selects and reports the part it was asked for",
     "field(i) goes to field i of the current struct or selected variant, and variant/field lookups by name answer with the part whose name equals the one asked for; an index past the end, an unknown name, and a current value of another kind are refused with an error and without a panic; the frame made for a part "
     "carries that part's index, one level below its parent, and resumes with what is already known about that part; is_field_set answers about the field asked for; shape, mode, in_option, selected_variant and frames_count report on the current frame and the stack as they are.",
     ["programs", "inputs", "histories"], "Every index, name and current value.",
     "Out-of-range and unknown selections, re-entered fields and nested positions are only sampled by tests.",
     ["facet-reflect/src/wip/*.rs"], [("Wip::field, field_named, field_index, find_variant, is_field_set, shape, mode, in_option", "facet-reflect/src/wip/mod.rs")],
     "order- and equality-abstraction over inlined MIR; identity of the frame pushed; questions answered under assumed states", WIPN)

ABSN = ("Abstract interpretation of the inlined MIR: every path, with integers as linear forms over the unknown inputs; exact about bytes, values and offsets. What the interpretation cannot follow is left undecided and noted in the evidence. "
        "Recursion is taken by contract (each call consumes one whole item); stack depth is not bounded.")

prop("C21", "MessagePack output is the value it was made from",
     "For every value of every scalar type the MessagePack writer takes (the integer types of 8 to 64 bits, bool, String), the bytes written on success are exactly one valid MessagePack item that stands for that value; a struct is written as one map whose announced length is its number of fields, "
     "each field once, its name (a whole string item) directly followed by its value; nothing the format has no room for is written. to_vec returns just those bytes.",
     ["inputs", "programs"], "Every integer of every width, both booleans, strings and names of every length, structs with any number of fields.",
     "Tests write a few small numbers and short strings; a boundary off by one, a truncating cast or a wrong header byte corrupts only some values or lengths, the longest of which no test can build.",
     ["facet-msgpack/src/to_msgpack.rs"], [("serialize, write_*", "facet-msgpack/src/to_msgpack.rs"), ("to_vec", "facet-msgpack/src/to_msgpack.rs")],
     "abstract interpretation of the writer's MIR per type and value interval, against the MessagePack specification's item table", ABSN)

prop("C22", "MessagePack input is read as what it says, item by item",
     "For every first byte and every scalar type the MessagePack reader fills: reading consumes exactly the bytes of one item and stores exactly the number, boolean or string it stands for; an item that the writer could have written for that type and whose value fits is never refused, and one that is cut short, doesn't fit, isn't UTF-8 or "
     "is of another kind is refused with an error rather than altered. A struct is read from a map: as many pairs as its header says, each key looked up exactly as it stands, its value read into the field found, or skipped if there is none; skipping an item of any kind consumes exactly that item.",
     ["inputs"], "Every byte string, at every offset.",
     "Tests decode a few documents; a sign, a width or an off-by-one in one format is wrong for that format only, and a skipped item of the wrong length desynchronises everything after it.",
     ["facet-msgpack/src/from_msgpack.rs"], [("Decoder::decode_*", "facet-msgpack/src/from_msgpack.rs"), ("Decoder::skip_value", "facet-msgpack/src/from_msgpack.rs"), ("Decoder::deserialize_value", "facet-msgpack/src/from_msgpack.rs")],
     "abstract interpretation of the reader's MIR per first byte and type, loops by invariant and trip count, against the MessagePack specification's item table", ABSN)

prop("C23", "No MessagePack input makes the reader panic or read out of bounds",
     "Whatever the bytes, wherever they end, and whatever type is asked for, reading MessagePack returns a value or an error: nothing is indexed past the end, no offset or length computation overflows, no error is unwrapped, and the reader's position never passes the end of its input. (How deep items may nest before the stack is exhausted is not part of this.)",
     ["inputs"], "Every byte string and every type.",
     "The inputs that panic are the truncated and malformed ones at one particular format and offset; tests hold well-formed documents.",
     ["facet-msgpack/src/from_msgpack.rs"], [("Decoder", "facet-msgpack/src/from_msgpack.rs"), ("from_slice_value", "facet-msgpack/src/from_msgpack.rs")],
     "abstract interpretation of the reader's MIR: reachability of every assert, index and unwrap failure under the input-length facts", ABSN)

prop("C24", "JSON output is the value it was made from",
     "For every value the JSON writer takes, what is written on success is exactly one JSON value made of that value's parts: an integer of any type, NonZero or not, as its number, a finite float as a plain number of its own text and any other as null, a bool as true or false, a string as one string; "
     "a struct as one object with each field once, in order, under its name in JSON (the text of its rename attribute if it has one); a list as one array with each item once, in order; a map with scalar keys as one object with each entry once under its key's text; an option as null or its payload; "
     "an enum's unit variant as its name, any other as an object with one member of that name that holds the field of a tuple variant with one, the array of the fields of one with several, or the object of the fields of a struct variant. Values of these kinds are never refused. to_string, to_writer and their peek_ variants write just that.",
     ["inputs", "programs"], "Structs, lists, maps and variants of any size, every scalar type, every combination of nested kinds.",
     "Tests compare a few documents; a separator wrong from the third element on, a name taken from the wrong field, a cast that loses bits or a number format that JSON lacks shows only for particular shapes and values.",
     ["facet-json/src/serialize.rs"], [("serialize", "facet-json/src/serialize.rs"), ("to_string", "facet-json/src/serialize.rs")],
     "abstract interpretation of the writer's MIR per kind of value, loops as first and any later turn, the written tokens parsed against the JSON grammar", ABSN)

prop("C25", "JSON strings are written so that they read as what they were",
     "For every string, what the JSON writer writes for it is one JSON string literal that stands for exactly that string: every character, whatever its code point, is written either as it is (only where JSON allows it: not a quote, a backslash or a control character below U+0020) or as an escape sequence that means it, all characters in order, between two quotes.",
     ["inputs"], "Every string of any length over all of Unicode.",
     "There are 1.1 million characters and the tests write a few; an escape that is wrong for one control character or one missing special character corrupts output for that input only.",
     ["facet-json/src/serialize.rs"], [("write_json_string", "facet-json/src/serialize.rs")],
     "abstract interpretation of the string writer's MIR per class of characters, against the JSON grammar's escapes", ABSN)

prop("C26", "No JSON input makes the reader panic",
     "Whatever bytes facet_json::from_str, from_slice or from_slice_wip are given, and whatever type is asked for, the outcome is a value or an error, and formatting that error does not panic either: no index, slice or character boundary outside the input, no integer overflow, no unwrap of something that can be absent, no assertion about what the reader expects next that some input violates, no text taken for UTF-8 that is not. (Inside facet-json, that is; how deep values the reader skips may nest is not bounded.)",
     ["inputs"], "Every byte sequence of any length, every type, every answer of the reflection layer.",
     "The reader is the first thing that untrusted bytes reach; it keeps its own position and its own stack of expectations, and a panic needs one particular truncation, nesting or type that no test has.",
     ["facet-json/src/deserialize.rs", "facet-json/src/deserialize/error.rs"], [("from_slice_wip", "facet-json/src/deserialize.rs"), ("skip_over_value", "facet-json/src/deserialize.rs"), ("fmt", "facet-json/src/deserialize/error.rs")],
     "abstract interpretation of the reader's MIR: every assertion, index, slice and unwrap under loop invariants found by elimination, the stack of expectations by what can lie under what", ABSN)

prop("C27", "Pretty-printing never shows what a field marked sensitive holds",
     "Whatever value facet-pretty prints, with whatever options, nothing of what a field with the sensitive attribute holds reaches the output: wherever such a field lies (in a struct, in an enum's variant, inside options, lists, maps and nested values of any kind), its value is neither printed nor formatted by its own Display or Debug, nor walked into, and a mark is written in its place; "
     "and no value that has parts of its own is shown as a whole by its Display or Debug, which know nothing of the attribute.",
     ["inputs", "programs", "histories"], "Values of every shape and depth, every combination of options.",
     "The printer is an explicit stack machine with one branch per kind of value and several places where a field's value becomes a frame; a test checks one struct with one sensitive field.",
     ["facet-pretty/src/printer.rs"], [("format_peek_internal", "facet-pretty/src/printer.rs"), ("format_scalar", "facet-pretty/src/printer.rs")],
     "path-sensitive dataflow over the printer's MIR: every use of a field's value and the test of that very field's flag it lies under, what the frames of the stack hold, which kinds reach a whole-value print", ABSN)

prop("C28", "JSON input is read as what it says",
     "Whatever input facet_json reads: true, false and null are stored only where these words stand; a number's text reaches from its first character to the first that cannot belong to it, and goes to the type's own parse, through f64 only if it has a fraction; "
     "a text's characters are exactly those between its quotes, in order, none lost, repeated or altered, each escape decoded as RFC 8259 says (\\uXXXX the character with that number, a surrogate pair one character, any other surrogate an error); "
     "a value goes to a field whose name or rename is exactly the key; the value of a key that names no field is skipped as a whole; and reading goes on right after the end of each word, text and skipped value.",
     ["inputs"], "Every input of any length, from every state that the reader's loops allow.",
     "An escape after ten plain characters, a backslash before a quote in a field nobody asked for, a number over 2^53: each takes one particular sequence of bytes, and the result is a wrong value, not an error.",
     ["facet-json/src/deserialize.rs"], [("from_slice_wip", "facet-json/src/deserialize.rs"), ("skip_over_value", "facet-json/src/deserialize.rs")],
     "abstract interpretation of the reader's MIR with symbolic bytes: what each turn over a text's characters takes over and how far it goes, what was compared with the input before a word is stored or a field chosen, from where to where a number or text reaches", ABSN)

prop("C29", "No YAML, TOML or form document makes its reader panic",
     "Whatever text facet_yaml::from_str, facet_toml::from_str and facet_urlencoded::from_str are given, and whatever type is asked for, the outcome is a value or an error: nothing that can be absent is unwrapped, no index or slice lies outside the text or between characters, no arithmetic overflows, no kind of node or of type is left to a todo!, unreachable! or assertion. (Inside these crates; how deep values may nest is not bounded.)",
     ["inputs"], "Every document, every type, every answer of the parsers and of the reflection layer.",
     "Each kind of node meets each kind of type; the tests have those pairs that work.",
     ["facet-yaml/src/lib.rs", "facet-toml/src/lib.rs", "facet-urlencoded/src/lib.rs"], [("from_str", "facet-yaml/src/lib.rs"), ("from_str", "facet-toml/src/lib.rs"), ("from_str", "facet-urlencoded/src/lib.rs")],
     "abstract interpretation of the three readers' MIR: every assertion, index, slice, unwrap and diverging call, reached or not under the facts of its path", ABSN)

prop("C30", "What YAML, TOML and form documents say is stored where they say it",
     "Whatever facet_yaml::from_str, facet_toml::from_str and facet_urlencoded::from_str store while they read a document is what a node of the document holds, unaltered: an integer only in a type that can hold it, a fractional number never in an integer, a boolean as itself (as 1 or 0 where YAML reads one as a number), text as exactly that text, anything else parsed from the node's text as the type of the place; otherwise the document is refused. "
     "And it's stored in the place the document names: a field gets the node under its own name (the fields of a TOML tuple variant by position, a form's a[b] as b within a), a map's entry the value of its key, each element of a list one of its items, a variant what its name stands with; every part that is entered is left again, so that what follows goes where it belongs.",
     ["inputs", "programs"], "Every document, every type, every answer of the parsers and of the reflection layer.",
     "The tests read a few documents whose numbers all fit and whose keys are all plain; a number cast without a check, a node taken from the wrong table or a part not left shows only for particular values and shapes.",
     ["facet-yaml/src/lib.rs", "facet-toml/src/lib.rs", "facet-toml/src/to_scalar.rs", "facet-urlencoded/src/lib.rs"], [("number", "facet-toml/src/to_scalar.rs"), ("yaml_to_u64", "facet-yaml/src/lib.rs"), ("deserialize_nested_field", "facet-urlencoded/src/lib.rs")],
     "abstract interpretation of the three readers' MIR: what each stored value is made of, which node it comes from and which place is selected on every path, the depth of selected parts as a counter", ABSN)

prop("C31", "A number that arrives as f64 is stored as that number or refused",
     "Whatever f64 Wip::try_put_f64 is given for a place of whatever numeric type: an integer place gets exactly that number, and only if it is a whole number that the type has (not zero for a NonZero type); an f64 gets it unchanged, an f32 rounded as the language rounds, and only within f32's range; anything else (fractions, numbers out of range, NaN and infinities for integers) is refused with an error, and no number that the type has is refused or makes it panic.",
     ["inputs"], "Every f64, NaNs and infinities included, for each of the 20 integer types of up to 64 bits and both float types.",
     "There are 2^64 inputs per type and the mistakes sit at single ones: 2^64 for u64 (which u64::MAX as f64 equals), -0.5 for u8, 0 for a NonZero.",
     ["facet-reflect/src/wip/put_f64.rs"], [("try_put_f64", "facet-reflect/src/wip/put_f64.rs")],
     "abstract interpretation of the MIR over classes of floats, cut at every constant the code compares with and every bound of the types: what each class becomes and whether it is stored or refused", ABSN)

prop("C32", "What a format writes, its reader reads back as an equal value",
     "For every type that both sides of facet-json, facet-msgpack, facet-toml, facet-yaml or facet-urlencoded support and every value of it, reading what was written gives a value equal to the first.",
     ["inputs", "programs"], "Every type, every value.",
     "The tests do this for a handful of values.",
     ["facet-json/src/deserialize.rs", "facet-json/src/serialize.rs", "facet-msgpack/src/deserialize.rs", "facet-msgpack/src/serialize.rs"], [("from_slice_wip", "facet-json/src/deserialize.rs"), ("from_slice", "facet-msgpack/src/deserialize.rs")],
     na="Equality of whole values after a round trip is an induction over unbounded values through two programs, the reflection layer between them and the type's own equality; it holds only relative to what the type's tables do. Its static halves are claimed instead: the writers per item (C21, C24, C25) and the readers per item (C22, C28, C30), each against the format, not against the other.")

prop("C33", "Numbers keep their exact value through text",
     "Every number that is written as text (JSON, pretty-printing) is written in a form that parses to the same number, and every number read from text is the nearest one its type has.",
     ["inputs"], "Every number of every numeric type.",
     "Shortest-representation printing and nearest rounding are decided by digits no sample covers.",
     ["facet-json/src/serialize.rs", "facet-json/src/deserialize.rs"], [("serialize_scalar", "facet-json/src/serialize.rs")],
     na="The text of a number is made and read by core's Display and FromStr (or a serializer of the standard library), whose exactness is a theorem about their arithmetic, not about facet's source; what facet adds (which text is handed over, to which type's parse, whether it goes through f64) is decided by C24, C28 and C31.")

prop("C34", "Reading a document takes stack and time bounded by its length",
     "Every reader returns on every input, after work bounded by the input's length and within the thread's stack, however deep the input nests.",
     ["inputs"], "Every input.",
     "Needs inputs that nest tens of thousands deep.",
     ["facet-msgpack/src/deserialize.rs", "facet-json/src/deserialize.rs", "facet-toml/src/lib.rs", "facet-urlencoded/src/lib.rs"], [("deserialize_value", "facet-msgpack/src/deserialize.rs"), ("skip_over_value", "facet-json/src/deserialize.rs")],
     na="How deep recursion may go depends on frame sizes and the thread's stack, quantities no source-level analysis in reach bounds; the call graph does show that the MessagePack, TOML and form readers and JSON's skip_over_value recurse once per level of nesting without a limit, which DESIGN.md records, but a limit is a policy facet does not state.")
