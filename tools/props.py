"""The properties: source of properties.jsonl (python3 tools/mk.py)."""
YT, PL, SE, PJ, BA, XP, ID, MI = (
    "pyangbind/lib/yangtypes.py", "pyangbind/plugin/pybind.py", "pyangbind/lib/serialise.py", "pyangbind/lib/pybindJSON.py",
    "pyangbind/lib/base.py", "pyangbind/lib/xpathhelper.py", "pyangbind/helpers/identity.py", "pyangbind/helpers/misc.py")

P = []


def p(id, title, statement, over, text, why, files, mech):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])))


p("C01", "Integer and decimal64 leaves accept exactly the numbers of their type",
  "A leaf of an integer type, or of a decimal64 type with a range, accepts a number - given as a number or as its decimal text - exactly when it lies in the built-in bounds of the type and in every range restriction along its chain of typedefs (any number of alternatives, min, max, single values). "
  "An accepted number reads back equal (a decimal64 at its fraction-digits), a rejected one raises ValueError and leaves the leaf as it was.",
  ["inputs", "programs"], "all numbers, all range expressions, all typedef chains",
  "The suite tries a handful of numbers next to a few bounds; membership at every boundary of every range expression is a statement about all of them.",
  [YT, PL], [("range parsing and check", YT + " RestrictedClassType"), ("fraction digits", YT + " RestrictedPrecisionDecimalType"), ("built-in bounds, restriction nesting", PL + " class_map, build_elemtype")])
p("C02", "String and binary leaves enforce every length and pattern on the whole value",
  "A string or binary leaf accepts a value exactly when its length (characters, or octets) is in every length restriction and the complete value matches every pattern (does not match it, where its modifier is invert-match), of the leaf's own type and of each typedef it is derived from. "
  "An accepted value is kept verbatim, a rejected one raises ValueError and leaves the leaf as it was.",
  ["inputs", "programs"], "all strings, all length expressions, all patterns that use no anchors",
  "Whole-value matching and several restrictions at once are only wrong for particular strings (a trailing newline, an alternation, the last of several patterns).",
  [YT, PL], [("length and pattern checks", YT + " RestrictedClassType"), ("collecting restrictions", PL + " build_elemtype")])
p("C03", "Enumeration, bits, identityref, boolean leaves take exactly their named values",
  "An enumeration leaf accepts exactly the names its type declares (those it repeats, where it restricts the enumeration of a typedef), a bits leaf exactly the sets (or space-separated lists) of declared bits and renders them in order of position, a boolean leaf exactly the true and false forms, and an identityref leaf exactly the identities derived from its base. "
  "Anything else raises ValueError and leaves the leaf as it was, whichever of a leaf, a typedef or a leaf-list declares the type.",
  ["inputs", "programs"], "all values offered to any such leaf; all enumerations, sets of bits and orders of declaration",
  "Membership is decided per value; tests try two or three values of one declaration.",
  [YT, PL], [("dictionary keys", YT + " RestrictedClassType"), ("bits", YT + " YANGBitsType"), ("booleans", YT + " YANGBool"), ("declarations", PL + " build_elemtype")])
p("C04", "A rejected write changes nothing",
  "When assigning to a leaf, leaf-list or container, or adding, appending or inserting into a list or leaf-list raises an error, every value, every changed flag, the case that is selected of each choice, the list entries and what path lookups return are all the same as before the call.",
  ["inputs", "histories"], "all rejected writes, in all reachable states of a tree",
  "Tests check that an exception is raised, not that the whole tree around the element is unchanged, and not after an arbitrary history.",
  [YT, PL, XP], [("setter: validate, then store, then mark", PL + " get_children"), ("registration once valid", YT + " YANGDynClass"), ("typed list check before insert", YT + " TypedListType"), ("entry keys", YT + " YANGListType.__set")])
p("C05", "Changed tracking: filtered output holds exactly what was set",
  "A leaf or leaf-list reports itself as changed exactly when a value has been accepted for it since it was created or last unset, also when that value equals its default or the empty one, and every container and list above a changed element reports itself as changed. "
  "Filtered retrieval and serialisation contain exactly the changed leaves with their values, unfiltered retrieval contains every leaf of each container with its value or else its default.",
  ["histories", "inputs"], "all histories of assignments and unsets over all schemas",
  "It is an invariant over histories of writes at any depth; tests check single assignments.",
  [YT, BA, PL, SE], [("marking", YT + " YANGBaseClass._set"), ("filtering", BA + " PybindBase.get"), ("filtering", SE + " make_generate_ietf_tree")])
p("C06", "At most one case of a choice holds data",
  "Setting, adding or appending to any member of a case - directly or below a container or list of that case - leaves every element of the other cases of the choice unset, and of all choices that enclose it, at any nesting and at the top level of a module. "
  "Elements of the same case, of other choices and outside of choices keep their values.",
  ["histories", "programs"], "all histories of writes over all nestings of choices, including augmented cases",
  "Exclusivity is an invariant over histories and over shapes of nested choices; tests have two shapes.",
  [YT, PL], [("clearing other cases", YT + " unset_other_cases, YANGBaseClass._set"), ("table of choices", PL + " get_children, get_children_elements")])
p("C07", "A keyed list is an ordered map from key values to entries",
  "For any history of adds, item assignments and deletes, a keyed list holds exactly the entries that were added and not deleted, iterates over them in order of addition, finds each by the key it was added with, refuses a second add of a key and deletion or retrieval of an absent one, and leaves other entries untouched. "
  "The key leaves of each entry equal its key and cannot be assigned, and a key that the type of the key leaf does not allow, or whose text has not one part for each key leaf, is rejected.",
  ["histories", "inputs"], "all histories of list operations and all keys",
  "Tests run short fixed sequences on a few keys.",
  [YT, PL], [("members", YT + " YANGListType"), ("key immutability", PL + " get_children (setter)")])
p("C08", "A leaf-list holds distinct values of its type in the order given",
  "For any history of assigns, appends, extends, inserts, removals, pops and deletions by index, a leaf-list holds exactly the resulting sequence of values converted to its type, with no value twice, where append and extend skip a value already present and insert and assignment by index (which also inserts) refuse it. "
  "A value that its type does not allow is refused, and assigning a list replaces the whole content.",
  ["histories", "inputs"], "all histories of leaf-list operations on all value types",
  "Uniqueness is about converted values (1 and '1'), for every operation and every type; tests try a few.",
  [YT], [("typed list", YT + " TypedListType")])
p("C09", "A union holds its value as the first member type that accepts it",
  "A union leaf, or leaf-list of a union, stores a value as the first of its member types, in order of declaration and with nested unions and typedefs expanded in place, which accepts the value, with that member's conversion. "
  "A value that no member accepts raises ValueError and leaves the leaf as it was.",
  ["inputs", "programs"], "all values, all sequences of member types",
  "Which member is picked differs only for values in the overlap of members and for restricted members.",
  [YT, PL], [("inference", YT + " YANGDynClass, TypedListType._convert"), ("expansion", PL + " build_elemtype, build_typedefs, get_element")])
p("C10", "Every value is encoded in the form that its format defines for its type",
  "Default JSON encodes integers and decimals as numbers, booleans and empties as booleans and everything else as text. "
  "IETF JSON encodes 64-bit integers and decimals (without exponent) as text, smaller integers as numbers, empty as [null], booleans as booleans, binary as base64, bits in canonical order, and an identity prefixed with its module's name when that is not the leaf's own; XML is the text of the same forms. "
  "This holds for leaves, leaf-lists, typedefs and unions of the type alike.",
  ["inputs", "programs"], "all values of all types, however the type is reached",
  "Tests encode one or two values of each type, not typedefs, unions and leaf-lists of it, nor the extremes.",
  [SE], [("encoders", SE + " YangDataSerialiser, IETFYangDataSerialiser, XmlYangDataSerialiser")])
p("C11", "Serialised documents hold exactly the set data, correctly named",
  "An IETF JSON document names a member with its module exactly where it is at the top or its module is not that of its parent, in XML each element is in the namespace of its module; both hold exactly the nodes that are set, nested as in the schema, list entries in order, without empty containers other than present presence containers. "
  "Default JSON holds the same nodes under their plain names, list entries under their keys.",
  ["inputs", "programs"], "all data trees over all sets of modules with augments and groupings",
  "It depends on the combination of module boundaries, emptiness and nesting; tests use one augmenting module.",
  [SE, BA, PJ], [("tree", SE + " make_generate_ietf_tree"), ("names", SE + " yname_ns_func"), ("XML", SE + " pybindIETFXMLEncoder.generate_xml_tree"), ("tree", BA + " PybindBase.get")])
p("C12", "JSON that is dumped loads back into an equal tree",
  "Loading the default JSON, or the IETF JSON, which was dumped from a tree gives a tree in which the same elements are set, to equal values, with the same list entries and the same order of entries and leaf-list values, and dumping it again gives the same document; so does the document with the members of its objects in another order, but for the order of the entries of lists that the system orders. "
  "In default JSON, entries of a keyless list and decimals of more than 15 digits are excepted.",
  ["inputs", "programs"], "all data trees over all schemas",
  "A round trip can fail for one type in one position with one value; the suite has a few fixed documents.",
  [SE, PJ], [("decoders", SE + " pybindJSONDecoder"), ("encoders", SE + " pybindJSONEncoder, pybindIETFJSONEncoder")])
p("C13", "XML that is serialised decodes back into an equal tree",
  "Decoding the XML that was serialised from a tree gives a tree in which the same elements are set, to equal values, with the same list entries and the same order of entries and leaf-list values, and serialising it again gives the same document.",
  ["inputs", "programs"], "all data trees over all schemas, values of any XML characters",
  "As for JSON; and text that looks like a number or is empty goes through type inference of the XML library.",
  [SE], [("encoder", SE + " pybindIETFXMLEncoder"), ("decoder", SE + " pybindIETFXMLDecoder")])
p("C14", "Loading JSON merges, overwrites or refuses as asked",
  "Loading a document onto an existing tree sets exactly what the document contains: other leaves and list entries keep their values - or, with overwrite, the content of the containers and lists it names is replaced by that of the document - and a leaf-list holds the values of the document, in any order. "
  "A member that the schema does not have raises an error unless unknown members are skipped, in which case it has no effect at any depth. Annotations - members of an IETF document whose name begins with @ - have no effect on the data.",
  ["inputs", "histories"], "all pairs of an existing tree and a document, at all depths",
  "Tests load onto one or two existing trees; merging is a statement about pairs of trees.",
  [SE, PJ], [("merge", SE + " pybindJSONDecoder.load_json, load_ietf_json")])
p("C15", "The path helper returns exactly the elements currently in the tree",
  "With a path helper, after any history of assigns, adds, deletes, unsets and replacements, looking up the path of any leaf, container or entry of a keyed list - with key predicates, or without them for all entries - returns exactly the current objects of the tree at that path, each once, and nothing for those which no longer exist. "
  "What is done to the contents of an RPC or a notification succeeds as elsewhere and changes no answer.",
  ["histories", "programs"], "all histories over all schemas, keys without quotes or brackets",
  "Staleness shows only after particular sequences of replacing, unsetting and deleting.",
  [XP, YT], [("registry", XP + " YANGPathHelper.register, unregister, get"), ("registration", YT + " YANGDynClass, YANGListType")])
p("C16", "An identityref knows exactly the identities derived from its base",
  "For any set of modules and any graph of identities with one or more bases, the values an identityref accepts are exactly the identities that are derived from its base through any number of steps, in any module and order of declaration, each by its bare name and by its name with the prefix or name of its module. "
  "An identity of the same name in another module, or one that is not derived, is not confused with it.",
  ["programs"], "all acyclic identity graphs spread over modules, all declaration orders",
  "Closure depends on the graph and the order of processing; the suite has a few fixed ones.",
  [PL, ID], [("resolution", PL + " build_identities"), ("store", ID + " IdentityStore.build_store_from_definitions")])
p("C17", "Elements that are config false cannot be assigned",
  "An element for which config is false - by its own statement or inherited from a container, list, choice, case or augmented parent at any distance - cannot be assigned by attribute, and reports that it is not configuration; any other element can be and reports that it is. "
  "Populating through the private setter works for both and validates alike.",
  ["programs", "inputs"], "all placements of config statements over all schemas",
  "Inheritance depends on the path of statements in the schema; tests have three shapes.",
  [PL], [("inheritance", PL + " get_children, get_element")])
p("C18", "Skipping subtrees and selecting entries removes exactly those from a dump",
  "Dumping with subtrees to skip, given by their paths of element names, gives the document without exactly these subtrees, and with a selection gives exactly the entries of the list whose named values, which may be nested, are those selected; a path or an entry that does not exist, or a prefix of another name, removes nothing. "
  "The tree itself is unchanged by dumping.",
  ["inputs"], "all trees, paths and selections",
  "A wrong match shows for particular combinations of names, depths and missing members.",
  [PJ], [("skip", PJ + " remove_path, dumps"), ("select", PJ + " lookup_subdict, dumps")])
p("C19", "Generated elements have the schema's names, paths and metadata",
  "For every data node of any module there is exactly one element, under a legal attribute name which is the YANG name with illegal characters replaced (and an underscore after names that Python or the library reserves), and it reports the YANG name, path, namespace and defining module that the schema gives it, also for augments, groupings and submodules. "
  "The path of a list entry carries its key values, and the elements of a container are listed in the order of the schema. With the option for extension modules of interest, it also reports their statements that the schema has on it. Names that begin with an underscore, and siblings whose names differ only in . - _, are aside.",
  ["programs"], "all schemas and names",
  "Collisions and reserved names show for particular names only.",
  [YT, PL], [("names", YT + " safe_name"), ("classes", PL + " get_children, get_element"), ("paths", YT + " _path, _register_path")])
p("C20", "A leafref is valid exactly when the referenced value exists",
  "With a path helper, a leafref leaf or leaf-list that requires its instance and refers to a list's key leaf or to a leaf-list - by an absolute or relative path, through any lists and with predicates on their keys - accepts a value exactly when a node at that path has it at that time, and otherwise raises ValueError without changing anything; one that does not require it accepts any value. "
  "It reads and serialises as that value; a leafref to a single leaf that is no key reads and serialises as that leaf, and writes it.",
  ["inputs", "histories"], "all values and states of the referenced data",
  "Existence depends on the state of another part of the tree; tests have fixed instances.",
  [YT, XP], [("resolution", YT + " ReferenceType"), ("lookup", XP + " YANGPathHelper.get")])
p("C21", "Bindings split into a directory behave as those in a single file",
  "For any module, the bindings generated as a directory of packages, and those with path helper, presence or other generation options, accept the same operations as the single file with the same results: same elements, same accepted and rejected values, same serialised documents. With the option for them, extension methods that are given for a path are on every element at the path, whatever the keys in it, and on no other, and are told the path of the element. Leafrefs, which only a path helper resolves, and the presence of containers, which only --presence records, are aside where only one of the two has the option.",
  ["programs", "configurations"], "all schemas and operations under each generation option",
  "The suite generates one module as a directory and checks a few attributes.",
  [PL], [("output", PL + " get_children, build_pybind")])
p("C22", "Defaults are those of the schema",
  "Every leaf that is no list key reports as its default the value of its own default statement or else that of the nearest typedef it is derived from, as a value of its type (for a union, of the first member that accepts it), and none if there is no default; so does a leaf-list that has one default at most; defaults of the member types of a union are aside. "
  "A default alone does not make a leaf changed or appear in filtered output, and unsetting a leaf brings it back.",
  ["programs"], "all leaves, typedef chains and default values",
  "Precedence and quoting depend on the chain and on the characters of the value.",
  [PL, YT], [("defaults", PL + " get_element, build_typedefs"), ("default", YT + " YANGDynClass")])
