"""Per property: technique, level and what the level means here. Read by tools/mk.py."""
TECH = {
    "*": "contracts on the real functions, discharged path by path by symbolic execution with z3/cvc5 (pyvc); bounded sweeps on CPython beside it",
    "C15": "contract of register/unregister/get over a ghost tree discharged with z3; bounded histories on generated modules on CPython",
    "C16": "contracts of IdentityStore.build_store_from_definitions and build_identities discharged with z3 for any names on every graph of up to three identities; bounded sweeps over generated modules",
}
LEVEL = {"C%02d" % i: "proof" for i in range(1, 23)}
COMMON = (" The code that runs is /repo's source, rewritten mechanically on every run so that operators accept symbolic values (pyvc/instrument.py lists the rewriting); "
          "a refuted obligation is a violation only when its counterexample fails on CPython with the unmodified code. Trusted: the engine's models of int, str, bytes, Decimal, dict and regex "
          "(each path's model is executed again by CPython and compared), z3 and cvc5.")
BASE = {
    "C01": "Proved for all integers, decimals and bounds: the range checker for any bounds, and each integer and decimal leaf of the corpus and of generated typedef chains. Bounded: texts that are no numbers; floats.",
    "C02": "Proved for all texts (and octet strings): length and pattern of each string and binary leaf of the corpus and of generated typedef chains; the length checker for all bounds. Bounded: base64 text. Regular expressions are z3's and regex's.",
    "C03": "Proved for all texts and integers: enumerations, identityrefs, booleans, bits of at most two tokens. Bounded: longer bits, sets of bits, values of other Python types.",
    "C04": "Proved for all refused values: leaves, leaf-lists, members of choices, list keys of the corpus leave the whole tree as it was. Bounded: histories on generated modules, and the lookups of a path helper.",
    "C05": "Proved for all values: exactly the written node and its ancestors are changed, at every depth of the corpus, through lists and augments. Bounded: histories on generated modules.",
    "C06": "Proved for all values: all pairs of members of the choices of the corpus, and the function that clears other cases. Bounded: histories on generated modules.",
    "C07": "Proved for any keys: each operation on any list of up to two entries (sweeps: long histories). The two-entry bound stands for the induction over histories and is stated as such.",
    "C08": "Proved for any values: each operation on any leaf-list of up to two values (sweeps: long histories).",
    "C09": "Proved for any integer, numeral and text: the unions of the corpus. Bounded: generated unions, nested and through typedefs.",
    "C10": "Proved for all values: the encoding of every built-in type in three formats. Bounded: every leaf of generated modules. json.dumps is a ghost (text stands for its tree).",
    "C11": "Proved for all values: members, names and nesting of the documents of chosen subsets of the corpus. Bounded: the text of random trees of generated modules.",
    "C12": "Proved for all values: dump and load of each built-in type, unions, entries of three sorts of lists; assumes json.loads inverts json.dumps. Bounded: random trees, default JSON decimals.",
    "C13": "Proved for all values: serialise and decode of each built-in type, unions, entries, containers, over the contract of lxml in pyvc/xmlghost.py. Bounded: random trees through lxml itself.",
    "C14": "Proved for all values and keys: merge, overwrite and refusal on the corpus. Bounded: random pairs of tree and document.",
    "C15": "Proved for any keys: from a tree with up to two entries (and entries below them), each of 11 kinds of operation leaves the path helper returning exactly the current objects, by every path; register, unregister, get and the parsing of paths run on a ghost tree with the contract of lxml. Bounded: histories on generated modules with lxml.",
    "C16": "Proved for any names: the store and the map of accepted values, for every graph and order of up to three identities in two modules. Bounded: all graphs of four, and generated module sets through pyang and the bindings.",
    "C17": "Proved for all values: each sort of element of the corpus, public assignment and private setter. Bounded: every element of generated modules.",
    "C18": "Proved for any values and keys: skipping each selection of paths, selecting by any value, on the corpus. Bounded: random trees and paths.",
    "C19": "Proved: safe_name for all names of up to three parts; paths in and below list entries for all keys. Bounded: elements and metadata of generated modules, awkward names.",
    "C20": "Proved for any values: assignment, leaf-lists and keys that are leafrefs, over the contract of YANGPathHelper.get (C15). Bounded: histories with the real helper.",
    "C21": "Proved for any values and keys: two builds of one module have equal outcomes, states and document trees, operation by operation. Bounded: lockstep histories on builds of generated modules with each option, awkward names, RPCs.",
    "C22": "Proved for any default and value: the function that makes a leaf. Bounded: which default the schema gives, over typedef chains and unions of generated modules.",
}
NOTE = {k: v + COMMON for k, v in BASE.items()}
NA = {}
