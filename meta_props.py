
prop("P01", "Field lookups return exactly the named or positioned field",
     "For every reflected struct, tuple struct, tuple and enum variant, looking a field up by name or by position, shared or mutably, returns that very field of the object (its place, not a copy), and nothing when there is no such field. Position i, the i-th name and the i-th item of an iteration denote the same field, in declaration order, and the reported number of fields is the number of fields iterated.",
     ["inputs", "programs"], "every object of every reflected type (the derive macro through a covering family of shapes and attributes), every name and every index, including out of range",
     "tests look up a few fields of a few structs by constants; the statement is about all names and indices and about identity of the returned place",
     [M + "struct_named.rs", M + "tuple_struct.rs", M + "enum_.rs", L + "struct_.rs", L + "tuple_struct.rs", L + "tuple.rs", L + "enum_.rs", L + "iter.rs", L + "foreign_impls/"],
     [("derive expansion of field lookups", M + "*.rs"), ("dynamic value field storage", L + "struct_.rs, tuple.rs, tuple_struct.rs, enum_.rs"), ("field iterators", L + "struct_.rs Iter, enum_.rs VariantFieldIter")],
     observe=["the references returned by the lookup methods and iterators"])
prop("P02", "Skipped fields and variants are invisible to reflection",
     "A field or variant marked as skipped is never returned by a lookup or an iteration, never counted, exported, described or changed by a patch, takes up no position among the fields (what remains is looked up, converted and patched as if it were not there), and takes its type's default value when an object is converted from another one. A skipped variant is never produced by a conversion.",
     ["inputs", "programs"], "every object of every type with skipped fields or variants (skips in each position, each kind of variant), every name, index and reflected input",
     "tests look at a handful of skipped fields; positions shift when a field is skipped, which only shows with skips in particular positions and other indices",
     [M + "attrs.rs", M + "struct_named.rs", M + "tuple_struct.rs", M + "enum_.rs"],
     [("filtering of skipped fields", M + "attrs.rs filter_out_skipped_*"), ("expansion of every method over the remaining fields", M + "*.rs")],
     observe=["lookups, iterations, exported values, descriptors, converted and patched objects"])
prop("P03", "Exporting to a dynamic value and converting back restores the object",
     "For every object without skipped fields, converting it to a dynamic value and that value back to the object's type succeeds and gives an equal object; with skipped fields the reflected ones are restored. Exporting a dynamic value gives an equal dynamic value, and the exported value has the same shape (kind, names, order, lengths) as the object.",
     ["inputs", "programs"], "every object of every reflected built-in and derived type, with containers and nesting",
     "tests round trip a few literals; a swapped field, a lossy cast or a dropped element shows only for other values or types",
     [L + "value.rs", L + "lib.rs", L + "foreign_impls/", M + "struct_named.rs", M + "tuple_struct.rs", M + "enum_.rs"],
     [("to_value and from_reflect of every implementation", L + "foreign_impls/*.rs, " + M + "*.rs"), ("dynamic value conversions", L + "value.rs, struct_.rs, tuple.rs, enum_.rs")],
     observe=["the converted object"])
prop("P04", "Conversion takes every field from its counterpart, or fails as a whole",
     "Converting an arbitrary reflected object to a type succeeds exactly when the object has the kind (and, for enums, the variant) and every reflected field of the type has a convertible counterpart: by name for named fields, by position otherwise, element by element for lists, arrays and maps. The result holds exactly those converted fields; custom conversions are used where declared, skipped fields get their default, scalars convert only from the same scalar type, non-zero integers also from a non-zero integer of the underlying type.",
     ["inputs", "programs"], "every reflected object (of every kind, with any fields, of any concrete type) and every target type of the covering family",
     "tests convert a few well-formed values; which field feeds which and when conversion must fail ranges over all partial, reordered and mistyped inputs",
     [L + "lib.rs", L + "foreign_impls/", L + "struct_.rs", L + "tuple.rs", L + "tuple_struct.rs", L + "enum_.rs", M + "struct_named.rs", M + "tuple_struct.rs", M + "enum_.rs"],
     [("from_reflect of every implementation", L + "foreign_impls/*.rs, " + M + "*.rs")], observe=["the converted object or its absence"])
prop("P05", "A patch changes exactly the matching parts and nothing else",
     "Patching an object with any reflected value changes exactly those reflected fields (by name or position), elements and existing map entries the value also has, each to its own patch by the counterpart, and leaves everything else, including skipped fields and the length of sequences, as it was; a value of another kind or an unconvertible scalar changes nothing. No map entry is added or removed; an enum becomes the converted value when it converts as a whole, and otherwise is patched in place only if both are the same variant.",
     ["inputs", "programs", "histories"], "every object, every reflected patch value (partial, reordered, mistyped, of any length), every type of the covering family and the dynamic values",
     "tests patch a few fields; non-interference with all other fields and inputs of the wrong kind or length is a statement about all of them",
     [L + "lib.rs", L + "foreign_impls/", L + "struct_.rs", L + "tuple.rs", L + "tuple_struct.rs", L + "enum_.rs", L + "value.rs", M + "struct_named.rs", M + "tuple_struct.rs", M + "enum_.rs"],
     [("patch of every implementation", L + "foreign_impls/*.rs, " + M + "*.rs")], observe=["the patched object"])
prop("P06", "Cloning a reflected object gives an equal object of the same type",
     "Cloning an object through reflection (directly, through an owned copy of its trait object, or held by kind) gives an independent object of the same concrete type with equal content; the clone of a box is the clone of its content. For a derived type that is not Clone the reflected fields are equal and skipped fields get their default.",
     ["inputs", "programs"], "every object of every built-in and derived type, containers, nested objects and dynamic values",
     "tests clone a few objects; a field lost, swapped or aliased in a clone shows only for other shapes",
     [L + "lib.rs", L + "foreign_impls/", L + "value.rs", M + "mod.rs", M + "struct_named.rs"],
     [("clone_reflect of every implementation", L + "foreign_impls/*.rs, " + M + "*.rs")], observe=["the cloned object"])
prop("P07", "Shared, mutable and owned views of an object agree",
     "Every object has exactly one kind, the same in its shared, mutable and owned view; a view by kind exists exactly for the object's kind and denotes the object itself (the same place, or for the owned view the same content). An object, seen as a trait object, downcasts to its own type and to no other, and a box or dynamic value is seen as its content.",
     ["inputs", "programs"], "every object of every built-in and derived type and every dynamic value, each view and each kind",
     "tests take a few views; that no view of any type denotes another object or kind ranges over all types and all pairs of kinds",
     [L + "lib.rs", L + "foreign_impls/", L + "value.rs", M],
     [("reflect_ref, reflect_mut, reflect_owned, as_any, as_reflect of every implementation", L + "*, " + M + "*.rs")], observe=["the views"])
prop("P08", "Scalars keep their exact type and value in every view and conversion",
     "A scalar's shared, mutable and owned views, its exported value and its conversions have exactly the scalar's type and value, and mutable views denote the scalar's own place. A scalar converts only from its own type; a non-zero integer is viewed and exported as its integer, converts from it unless that is zero, and patching it with zero changes nothing.",
     ["inputs"], "every value of each of the sixteen scalar types and the eleven non-zero integer types",
     "sixteen types times a dozen hand-written match arms; a transposed arm or a lossy cast shows only for that type and some values",
     [L + "lib.rs", L + "value.rs", L + "foreign_impls/mod.rs", L + "foreign_impls/via_scalar.rs"],
     [("scalar arms of every view and conversion", L + "*.rs")], observe=["views and values"])
prop("P09", "Dynamic values are totally ordered, consistently with equality and hash",
     "Equality of dynamic values is reflexive and transitive, comparison is a total order (antisymmetric and transitive, also with NaN) that says equal exactly for equal values, and equal values hash equally. Values of one scalar type are equal and ordered as their contents; composite values are equal exactly when their names and parts are.",
     ["inputs"], "every pair and triple of dynamic values of every kind",
     "laws over all pairs and triples, including NaN, mixed kinds and nested values; tests compare a handful",
     [L + "value.rs", L + "struct_.rs", L + "tuple.rs", L + "tuple_struct.rs", L + "enum_.rs"],
     [("the ordered stand-in of dynamic values", L + "value.rs OrdEqHashValue"), ("derived comparisons of composite values", L + "struct_.rs, tuple.rs, tuple_struct.rs, enum_.rs")], observe=["results of ==, cmp, partial_cmp and hash"])
prop("P10", "Reflected equality compares kind, names and all parts, and nothing else",
     "Comparing two reflected objects answers equal exactly when they have the same kind, the same names, positions, lengths or keys (and, for enums, variant) and pairwise equal parts, whatever their concrete types; skipped fields take no part and opaque objects leave the answer open. The comparison is symmetric, every object without opaque parts equals itself and (arrays aside) its exported dynamic value.",
     ["inputs", "programs"], "every pair of reflected objects, of the same or of different types, kinds, lengths and orders of fields",
     "tests compare a few pairs; a comparison that ignores a part, a length or an order is right on most inputs",
     [L + "lib.rs", L + "reflect_eq.rs"], [("the structural comparison", L + "reflect_eq.rs")], observe=["the answer of the comparison"])
prop("P11", "A path leads to exactly the part its keys name, shared and mutably",
     "Following a path from an object gives the very part reached by following its keys one by one: a field of a struct or struct variant by name, of a tuple-like object by position, an element by an integer of any integer type, a map entry by key, an enum itself by the name of its current variant; the empty path gives the object itself. A key that does not apply gives nothing, the mutable lookup leads to the same place as the shared one, and typed access additionally requires the part's type.",
     ["inputs", "programs"], "every object and every path (all key forms and values, up to the analysed length), including integers outside the index range",
     "tests follow a few well-formed paths; wrong kinds of key, out of range and negative indices and agreement of the two lookups range over all paths",
     [L + "key_path.rs"], [("path lookup", L + "key_path.rs GetPath::at, at_mut, get_at, get_at_mut")], observe=["the reference a path leads to"])
prop("P12", "A path leads to the type that following its keys one by one reaches",
     "Following a path in a type's description gives the description reached by following its keys one by one (a field by name or position, an element type by index, a map's value type by key, an enum's variant by name), the type itself for the empty path, and nothing when some key does not apply. When the path leads to a part of an object not inside a skipped variant, it leads in the object's type to the description of that part's type.",
     ["inputs", "programs"], "every type of the covering family and every path (all key forms and values, up to the analysed length)",
     "tests follow a few paths in a few types; agreement of object and type lookup is over all types, keys and key forms",
     [L + "key_path.rs", L + "type_info/mod.rs"], [("path lookup in descriptions", L + "type_info/mod.rs GetTypePath::type_at, Type::into_type_info_at_path")], observe=["the description a path leads to"])
prop("P13", "A path is exactly the sequence of keys it was built from",
     "A path built by any means (step by step, pushed, collected, extended, converted, by macro) consists of exactly the keys given, in order; its length, emptiness, equality and owned, borrowed and reversed iteration agree with that sequence, and popping removes the last key. The breadcrumbs of a path are its non-empty prefixes, shortest first, each once.",
     ["inputs", "histories"], "every sequence of keys of every form, every mix of ways to build it",
     "tests build a few paths; sequences of operations and all key forms range further",
     [L + "key_path.rs"], [("key path construction and iteration", L + "key_path.rs KeyPath, Key, key_path!, Breadcrumbs")], observe=["the keys of a path"])
prop("P14", "The text of a path is the text of its keys in order",
     "A path is displayed as the concatenation of its keys' texts: a field name or index after a dot, a variant name after a double colon, an element or entry key in brackets. Nothing is added, dropped or reordered, and the empty path is the empty text.",
     ["inputs"], "every path of every key form, names and values",
     "tests display a few paths; each key form in each position ranges over more",
     [L + "key_path.rs"], [("display of paths", L + "key_path.rs Display")], observe=["the displayed text"])
prop("P15", "A type's description lists exactly its reflected parts, docs and metadata",
     "The description of a type has its kind and name and lists exactly its reflected fields (or variants and their fields, element, key and value types), in declaration order, each with its name or position, type, documentation and metadata; lookups by name and position give the same entries, and nothing else. A description is seen as exactly the kind it is, and a box is described as its content.",
     ["programs", "inputs"], "every type of the covering family (all shapes, attributes, generics, nesting), every name, position and metadata key",
     "tests look at a few hand-picked descriptions; each attribute on each kind of item in each position is a matter of the derive macro over all programs",
     [L + "type_info/mod.rs", L + "type_info/graph.rs", L + "foreign_impls/", M + "struct_named.rs", M + "tuple_struct.rs", M + "enum_.rs", M + "attrs.rs"],
     [("expansion of descriptions", M + "*.rs"), ("descriptor views", L + "type_info/mod.rs"), ("type graph nodes", L + "type_info/graph.rs")], observe=["the description"])
prop("P16", "Descriptions are complete, also for recursive types, and stay so when cut out",
     "Building a type's description terminates, for directly, mutually and generically recursive types too, and every type reachable from it is described in it exactly as on its own; no two types share a description. A description cut out of another at any part is the same as that part's, and an object's description is its type's.",
     ["programs"], "every type of the covering family including direct, mutual and generic recursion, every part reachable in its description",
     "tests describe a few types; completeness of each reachable part and termination for each way to recurse are about all of them",
     [L + "type_info/graph.rs", L + "type_info/mod.rs", M + "struct_named.rs", M + "tuple_struct.rs", M + "enum_.rs"],
     [("type graph construction", L + "type_info/graph.rs TypeGraph::get_or_build_node_with"), ("cutting out descriptions", L + "type_info/mod.rs into_type_descriptor")], observe=["the description"])
prop("P17", "A type has one description, however and whenever it is asked for",
     "Every request for a type's description gives the same description: again, after or before any other types were described, by the type or by any of its values whatever they hold, through a box or a reflected view. Distinct types have distinct descriptions, also if they share a name; metadata that is computed from the description of other types neither blocks nor changes anything.",
     ["inputs", "histories", "programs"], "every type of the covering family, every value of it, described in every order with others",
     "tests describe a type once, in one process order; the cache is shared by all types and all later requests",
     [L + "type_info/mod.rs", L + "type_info/graph.rs", L + "value.rs", L + "lib.rs", L + "foreign_impls/boxed.rs", L + "foreign_impls/mod.rs"],
     [("process-wide cache of descriptions", L + "type_info/mod.rs DescribeType::type_descriptor"), ("identity of types", L + "type_info/graph.rs NodeId")], observe=["the description returned"])
prop("P18", "A type's default value is made of the defaults of its parts",
     "The default value of a described type has the type's kind and reflected fields, each with the default of its own type: zero, false, empty text, empty lists and maps, as many elements as an array has, the first variant for enums. It exists, and is announced to exist, exactly if every part has one; it converts to the type, and the same holds for single variants and for types found at a path.",
     ["programs", "inputs"], "every type of the covering family (all kinds, nesting, opaque parts, enums without usable first variant), each variant and path in them",
     "tests build the default of a few types; a missing field, a wrong order or an announcement that disagrees shows only for particular shapes",
     [L + "type_info/mod.rs", L + "key_path.rs", L + "foreign_impls/", M + "enum_.rs"], [("default values of descriptions", L + "type_info/mod.rs default_value, has_default_value")], observe=["the default value, or its absence"])
prop("P19", "Visiting an object visits each of its leaves exactly once, in order",
     "Visiting an object calls the visitor exactly once for every scalar reached through its reflected fields, elements and map keys and values, by the scalar's own type and with its value, and once for every opaque part, in declaration, element and key order; nothing is changed or skipped. The first error a visitor returns ends the visit and is returned; visiting the exported dynamic value makes the same calls.",
     ["inputs", "programs"], "every object of every type of the covering family, every dynamic value (to the analysed depth), visitors failing at any call",
     "tests visit one or two objects; each scalar type, each kind of container and each point of failure ranges over all",
     [L + "try_visit.rs"], [("the visitor", L + "try_visit.rs try_visit")], observe=["the sequence of calls to the visitor", "the visit's result"])
prop("P20", "Reflected lists, arrays and maps behave as sequences and maps",
     "Through reflection, lists and arrays have the length, elements and order of the sequence they hold, maps those of the map; pushing, popping, inserting and removing have exactly the effect and result of the corresponding operation, for any convertible element or key. Input that does not convert to the element, key or value type is refused or ignored and changes nothing; the element, key or entry returned is the container's own place, or for removal its former content.",
     ["inputs", "histories"], "every sequence and map of the built-in containers (up to the analysed length), every index and key, every reflected argument",
     "tests push and pop a few elements; the effect on all other elements and unconvertible arguments are statements about all of them",
     [L + "list.rs", L + "array.rs", L + "map.rs", L + "foreign_impls/vec.rs", L + "foreign_impls/array.rs", L + "foreign_impls/btree_map.rs"],
     [("container operations", L + "foreign_impls/vec.rs, array.rs, btree_map.rs"), ("iteration by kind", L + "list.rs, array.rs, map.rs")], observe=["the container afterwards and the operation's result"])
prop("P21", "A box is its content",
     "A box, however deeply nested, is reflected as its content: it has the content's description, kind, value, debug text and equality, downcasts to the content's type in the content's place, and to no box; views, clones, patches and conversions of it are those of the content. A boxed part and an unboxed one take each other's place in conversion, patch, comparison and typed access.",
     ["inputs", "programs"], "every object of every type of the covering family, in one and two boxes; every reflected object to convert from or patch with",
     "tests box one struct; each operation of a box has to be the content's own for every type",
     [L + "foreign_impls/boxed.rs", L + "lib.rs", L + "value.rs"], [("forwarding", L + "foreign_impls/boxed.rs")], observe=["results of every operation on the box"])
prop("P22", "Iterators announce exactly what they yield and then stay at their end",
     "Every iterator the library hands out (fields, variant fields, elements, entries, keys of a path, parts of a description, each also mutably or owned where offered) yields each item once and in order; an exact number of remaining items announced before any step is the number it still yields (bounds it announces hold), it yields nothing after its end, and counting, skipping or taking the last item agree with stepping.",
     ["inputs", "histories"], "every object, path and description of the covering family, at every step of the iteration",
     "tests collect a few iterators; the announced length at every step, and steps after the end, are not looked at",
     [L + "iter.rs", L + "struct_.rs", L + "tuple.rs", L + "tuple_struct.rs", L + "enum_.rs", L + "array.rs", L + "map.rs", L + "key_path.rs", L + "type_info/mod.rs"],
     [("iterators", L + "iter.rs, struct_.rs, enum_.rs, array.rs, key_path.rs, type_info/mod.rs")], observe=["the items and announced lengths"])
prop("P23", "Typed field access is the untyped lookup with the requested type, or nothing",
     "Getting a field with a type gives exactly the place the untyped lookup by the same name, position, index or key gives, if what is there has the requested type, and nothing otherwise; the mutable access leads to the same place as the shared one and changes nothing by itself. On dynamic values the kind of the value decides which keys apply.",
     ["inputs", "programs"], "every object and dynamic value of the covering family, every name, index and key, every requested type",
     "tests get a few fields of the right type; wrong types, wrong kinds of key and the agreement of the two accesses range over all",
     [L + "get_field.rs", L + "lib.rs", L + "struct_.rs", L + "tuple.rs", L + "tuple_struct.rs", L + "enum_.rs", L + "list.rs", L + "map.rs"], [("typed access", L + "get_field.rs"), ("downcasts", L + "lib.rs downcast_ref, downcast_mut")], observe=["the reference returned"])
prop("P24", "No operation panics, whatever the object, value, name or path",
     "Reading, changing, converting, cloning, comparing, printing, visiting, describing or storing any object or dynamic value returns without panicking, for any name, position, key, path, length and mismatched input, and never blocks on a lock held by itself. Only documented misuse of a builder, an object whose active variant is skipped, and a type name that is no Rust type may panic.",
     ["inputs", "programs", "histories"], "every operation the other properties talk about, on every object, value, name and path they talk about",
     "a panic hides in the one index, empty container, name or kind a test does not use; every path of every operation has to be free of it",
     [L, M], [("index arithmetic, unwraps and unreachable arms", L + "*, " + M + "*.rs"), ("the lock of the type cache", L + "type_info/mod.rs")], observe=["whether the operation returns"])
prop("P25", "What is stored with serde or speedy loads back unchanged",
     "A dynamic value, path or type description stored with serde (in formats with or without names) or with speedy and loaded again is the same value, path or description: equal, with every field, element, name and order in place. Storing what was loaded again gives the same stored data, and every kind of value and key is told apart in storage from every other.",
     ["inputs", "programs"], "every dynamic value (to the analysed depth), every path, every description of the covering family; named, compact and binary formats",
     "tests store one or two values with one format; every variant, nesting and format has to agree between the two directions",
     [L + "value.rs", L + "struct_.rs", L + "tuple.rs", L + "tuple_struct.rs", L + "enum_.rs", L + "key_path.rs", L + "lib.rs", L + "type_info/graph.rs", L + "type_info/mod.rs"],
     [("serialized forms", L + "value.rs Value; key_path.rs KeyPath; type_info/graph.rs TypeGraph"), ("cut-off of invariants on load", L + "struct_.rs, enum_.rs")], observe=["the loaded value"])
prop("P26", "Debug text through reflection shows the object in full",
     "The debug text of an object through reflection, in the one-line and the multi-line form, is the object's own debug text; for a type that opted out it is the name of the type or variant with every reflected field and nothing else. The text of a box is its content's, containers show every element in order, an object seen by kind has the text of the object, and formatting any object by its structure shows its name, if it has one, and every reflected part.",
     ["inputs", "programs"], "every object of every type of the covering family, both forms",
     "tests print one or two objects; a field left out or a kind printed as another shows only for the particular shape",
     [L + "lib.rs", L + "foreign_impls/", L + "struct_.rs", L + "enum_.rs", M + "mod.rs", M + "struct_named.rs", M + "tuple_struct.rs", M + "enum_.rs"], [("structural debug formatting", L + "lib.rs reflect_debug"), ("expansion of debug", M + "*.rs")], observe=["the formatted text"])
prop("P27", "A dynamic value holds exactly what was put into it",
     "A dynamic struct, tuple, tuple struct or enum, built field by field, collected, or converted, has exactly the fields put in: each name with the value last given to it, names in the order they first appeared, positions in the order of insertion, whatever capacity was asked for, and the variant asked for. The value of any object, vector, array or map holds exactly its fields, elements or entries, in order.",
     ["inputs", "histories"], "every sequence of (up to three) names and values, equal or different, by every way of building; every object and container of the covering family",
     "tests build values with distinct names in one way; repeated names, collected input and nesting range over all",
     [L + "struct_.rs", L + "tuple.rs", L + "tuple_struct.rs", L + "enum_.rs", L + "value.rs", L + "foreign_impls/vec.rs", L + "foreign_impls/array.rs", L + "foreign_impls/btree_map.rs", L + "lib.rs"],
     [("builders", L + "struct_.rs set_field, tuple.rs push_field, enum_.rs builders"), ("conversions", L + "value.rs From impls, lib.rs IntoValue")], observe=["the fields of the dynamic value"])
prop("P28", "Pretty printed descriptions and simple type names are complete",
     "The simple name of a type is its name without any paths, with all its type and const arguments, element types and lengths in order (lifetimes aside); names of kinds of types that are not supported are refused rather than written in part. Pretty printing a description never fails: it shows kind and name, each variant and reflected field in order with the simple name of its type, or the full name if there is no simple one.",
     ["inputs", "programs"], "every parsed type (to the analysed nesting), every type of the covering family, names with leading underscores and types in unnamed constants",
     "tests print a dozen types; each form of type argument, each shape of variant and names that cannot be simplified range over all",
     [L + "type_info/simple_type_name.rs", L + "type_info/pretty_print.rs"],
     [("writer of parsed types", L + "type_info/simple_type_name.rs TypeWriter"), ("pretty printer", L + "type_info/pretty_print.rs pretty_root_fmt")], observe=["the text"])
