#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one list."""
import json, os, textwrap

HERE = os.path.dirname(os.path.abspath(__file__))
INT = "v0/internal/raml/"
PUB = "v0/pkg/raml/"
DOC = [INT + "APISpec.go", INT + "Library.go", INT + "Documentation.go", PUB + "rparse/decode.go",
       PUB + "rparse/parse-api.go", PUB + "rparse/parse-lib.go"]
TYPES = [INT + f for f in ("DataType.go", "type-datatype-ext.go", "fn-sorting-hat-type.go", "fn-sorting-hat-property.go",
                           "fn-sorting-hat-example.go", "type-xml.go", "annotation.go", "type-facet.go",
                           "util-dt-map.go", "util-ex-map.go", "util-ann-map.go", "util-facet-map.go",
                           "util-untyped-map.go", "util-str-map.go", "in-concrete-type.go", "in-float.go")]
GEN = [INT + "x-gen-type-%s.go" % k for k in (
    "any array bool custom date-only datetime-only datetime file include integer nil number object string time-only "
    "union").split()]
EX = [INT + "x-gen-ex-%s.go" % k for k in (
    "any array bool custom dateonly datetime datetimeonly file integer number object string timeonly union").split()]
MAPS = [PUB + f + ".go" for f in (
    "AnyMap StringMap UntypedMap DataTypeMap PropertyMap AnnotationMap FacetMap AnyExampleMap ArrayExampleMap BoolExampleMap "
    "CustomExampleMap DateOnlyExampleMap DatetimeExampleMap DatetimeOnlyExampleMap FileExampleMap IntegerExampleMap "
    "NumberExampleMap ObjectExampleMap StringExampleMap TimeOnlyExampleMap UnionExampleMap").split()]
ASSIGN = ["v0/internal/util/assign/%s.go" % f for f in "any-map bool float64 int64 string-list string uint".split()]

READ = ("UnmarshalRAML methods of documents, types and examples", INT)
WRITE = ("MarshalRAML and WriteRAML methods", INT)
DISPATCH = ("the 'sorting hats', which choose the kind of a type", INT + "fn-sorting-hat-type.go")
CONV = ("conversion of YAML scalars", "v0/internal/util/assign/")
MAP = ("the ordered maps", PUB)

DOCS_OVER = ("all RAML documents that the library supports, in any spelling: {what}. All sixteen kinds of type declarations, "
             "nested and with any combination of facets, extra facets, annotations, examples and opaque YAML values")
TESTS = ("The existing tests exercise three or four maps and a few setters with single values; {x}.")

P = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, note):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
                  quantifier=dict(over=over, text=" ".join(text.split())),
                  why_tests_cant=" ".join(why.split()),
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism],
                               observe_at=observe, hook_needed=None),
                  note=" ".join(note.split())))


API = ["rparse.ParseApiDoc", "rparse.ParseLibrary", "all accessors of raml.APISpec, raml.Library and what they hold",
       "WriteRAML"]

prop("C01", "Writing and re-reading an API specification preserves it",
     """For every valid API specification, parsing it, writing it with WriteRAML and parsing the result again yields a
     specification in which every accessor - of the document, its documentation entries, all (nested) types, properties,
     items, facet definitions, examples, XML facets, annotations, extra facets, resources and opaque sections - reports the
     same values in the same order, the ones that the document stated at first.  Nothing is lost, added,
     reordered, retyped or rounded.""",
     ["inputs"], DOCS_OVER.format(what="API specifications with any combination of root sections"),
     TESTS.format(x="no test parses, writes and re-reads a document, so no combination of facets, kinds and nesting is covered"),
     DOC + TYPES + GEN + EX, [READ, WRITE, DISPATCH], API,
     """Random documents in random spellings are read, written and read again; all accessors are compared.  Sampling, not
     proof; assumes the YAML library.""")

prop("C02", "Writing and re-reading a library preserves it",
     """For every valid RAML library, parsing it, writing it with WriteRAML and parsing the result again yields a library in
     which every accessor - usage, uses, types (nested ones included), traits, resource types, annotation types, security
     schemes, annotations and extra facets - reports the same values in the same order, the ones that the library
     stated at first.""",
     ["inputs"], DOCS_OVER.format(what="libraries with any combination of sections, the empty library included"),
     TESTS.format(x="no test reads or writes a library"),
     [INT + "Library.go", PUB + "rparse/parse-lib.go", PUB + "rparse/decode.go"] + TYPES + GEN + EX,
     [READ, WRITE, DISPATCH], API,
     "As C01, for libraries.")

prop("C03", "Accessors report exactly what the document says",
     """After parsing any valid API specification or library, each accessor reports exactly what the document states at that
     place: the right value under the right name, in document order, with nothing missing, invented or swapped between
     similar facets (such as minLength and maxLength, minimum and maximum, title and description).  Facets unknown at a place
     appear among the extra facets there, annotations among the annotations.  All ways of looking into a map (iteration,
     position, key, index) agree.""",
     ["inputs"], DOCS_OVER.format(what="API specifications and libraries"),
     TESTS.format(x="no test compares a parsed document with what it says; a swapped pair of facets would even survive a round trip"),
     DOC + TYPES + GEN + EX + ASSIGN, [READ, DISPATCH, CONV, MAP], API,
     """The oracle is an independent model from which the document was generated, so that symmetric mistakes of reader and
     writer are found.  Sampling; assumes the YAML library.""")

prop("C04", "A type declaration gets the kind that its type implies",
     """The kind of every type declaration follows from the text of its type alone: a built-in name gives that kind, a text with
     '|' a union, an !include an include, any other text a custom type; without a type, 'properties' implies object, else
     'items' implies array, else it is a string.  This holds in all places where types are declared (types or schemas, properties, items and facet
     definitions, at any depth, as a bare text or a mapping), case-sensitively and whatever other facets are there, and writing and re-reading keeps kind and
     text.""",
     ["inputs"], """all type texts - the built-in names, near misses (case, blanks, prefixes, array and union notation), unions,
     includes, arbitrary text - at all places of nested declarations, in the short and the mapping form, with type, schema or neither""",
     TESTS.format(x="no test covers the choice of a kind"),
     [INT + "fn-sorting-hat-type.go", INT + "fn-sorting-hat-property.go", INT + "in-concrete-type.go", INT + "DataType.go"] + GEN,
     [DISPATCH], API + ["DataType.Kind, Type, Schema and the interface it implements"],
     "Random nestings of declarations; the oracle restates the rule in a few lines.  Sampling.")

prop("C05", "A document built through setters is written and read back as built",
     """A document assembled through the public builders and setters - in any order of calls, with facets set, overwritten and
     unset on the way, maps replaced or filled in place, whether values are given as Go values or as YAML nodes - reports
     through its accessors what was set, is written without error, and reads back as that document.  So does a document made
     of parts that were parsed elsewhere.""",
     ["inputs", "histories"], """all documents that the setters can express and all ways to assemble them: orders of setter calls,
     Set/Unset/Set sequences, new maps or live maps, builders or parsed declarations, Go values or YAML nodes""",
     TESTS.format(x="no test builds a document and writes it"),
     [PUB + "rbuild/new.go"] + DOC + TYPES + GEN + EX + MAPS, [("setters", INT), WRITE, READ],
     API + ["rbuild.*", "all setters"],
     "Random models are assembled by reflection over the public setters and compared at every stage.  Sampling.")

prop("C06", "Written documents are RAML and say exactly what the model says",
     """What WriteRAML produces for a parsed document starts with the right header line (#%RAML 1.0, or #%RAML 1.0 Library), is
     well-formed YAML without repeated keys or ordered-map tags, and read as RAML by an independent reader states exactly the
     facets of the document under their RAML names.  Absent facets and facets at their default value are not spelled out, and
     map-valued sections are YAML mappings.""",
     ["inputs"], DOCS_OVER.format(what="API specifications and libraries"),
     TESTS.format(x="no test looks at a written document; a wrong key that reader and writer share would survive a round trip"),
     DOC + TYPES + GEN + EX + [PUB + "rmeta/keys.go", PUB + "rmeta/headers.go"], [WRITE], ["WriteRAML"],
     "The output is judged by a reference reader that is part of the harness and works on the YAML tree.  Sampling.")

prop("C07", "Writing is pure and deterministic, and its output is stable",
     """Writing a document does not change it: all accessors report the same afterwards and a second write gives the same bytes.
     Equal documents are written as equal bytes, and reading back what was written and writing it again reproduces the bytes.""",
     ["inputs", "histories"], DOCS_OVER.format(what="parsed or built through setters") + ", and repeated writes",
     TESTS.format(x="nothing writes a document twice"),
     DOC + TYPES + GEN + EX + MAPS, [WRITE, MAP], ["WriteRAML", "all accessors"],
     """Bytes are compared except where the YAML library itself is shown not to keep its own layout.  Sampling.""")

prop("C08", "Any input is accepted or rejected with an error, never mangled",
     """For any sequence of bytes, the parsers return either a document or an error (and no document with an error), without
     panicking or hanging, and accept exactly those inputs that are valid documents of that type.  What is accepted can be observed and written, and
     its content survives writing and re-reading.""",
     ["inputs"], """arbitrary bytes: random bytes, damaged documents, valid YAML with random structure over the vocabulary of RAML, wrong
     tags, duplicate keys, aliases, deep nesting, empty input, several YAML documents, the other document type""",
     TESTS.format(x="no test feeds malformed input to a parser"),
     DOC + TYPES + GEN + EX + ASSIGN, [READ, CONV, ("recovery from panics of the YAML parser", PUB + "rparse/decode.go")],
     API, """Inputs whose meaning is unspecified (duplicate keys, aliases, unusual integer notations) are only checked for
     crashes and for a clean result.  Sampling; time limit per case instead of a proof of termination.""")

prop("C09", "Values of the wrong type are rejected wherever they occur",
     """If any typed facet of a document - at the root, in a documentation entry, in a type at any depth, in an example or an XML
     facet - has a value of the wrong YAML type or outside its range (a list for a string, a negative or oversized length, a
     text for a boolean, a non-mapping for a map, a name that is no text ...), parsing reports an error and returns no document.  The same document
     without that value is accepted.""",
     ["inputs"], """all valid documents, all their typed facets (about 550 combinations of kind and facet), all YAML values that are
     not valid there""",
     TESTS.format(x="no test covers rejection"),
     DOC + TYPES + GEN + EX + ASSIGN, [READ, CONV], ["rparse.ParseApiDoc", "rparse.ParseLibrary", "yaml.Unmarshal"],
     "What is bad is decided by the reference reader; each case is a pair of documents that differ in one value.  Sampling.")

prop("C10", "Every map behaves as one insertion-ordered map under any history",
     """Every public map type behaves, under any history of operations, like a list of distinct keys in insertion order with one
     value each: Put moves or adds a key at the end, ReplaceOrPut and ReplaceIfExists keep its position, PutIfNotNil ignores nil, Delete removes exactly one
     entry.  Len, Has, Get, GetOpt, IndexOf, At and the ForEach variants always agree with that list, and two maps never
     influence each other.""",
     ["histories"], "all histories of operations on two maps of each of the 21 map types, any keys and values",
     """The existing tests call each method of four of the map types once or twice on maps of one to three entries; no test
     combines deletion, replacement and re-insertion, and most map types have no tests.""",
     MAPS, [MAP], ["all methods of the map types"],
     "Stateful comparison with a reference list after every operation, for all map types.  Sampling of histories.")

prop("C11", "Maps serialise their entries faithfully in every mode",
     """A map serialised to YAML or JSON contains exactly its current entries with their keys and values, in order where the
     format has one; the ordered and unordered modes differ only in the notation.  Serialising does not change the map, an
     entry that cannot be written is reported as an error, and all this holds after any history of changes.""",
     ["histories", "configurations"], "all histories of operations and mode switches on two maps of each of the 21 map types",
     "The existing tests check one or two entries for a few maps, never after deletions or replacements.",
     MAPS, [("ToYAML, MarshalYAML and MarshalJSON of the maps", PUB)], ["ToYAML", "yaml.Marshal", "json.Marshal"],
     """Floats held by the caller in generic maps are a known finding of an external library (see known-findings.txt); the
     generator keeps to what it writes exactly.  Sampling.""")

prop("C12", "Setters change exactly one facet of exactly one object",
     """After any history of setter calls on a document, type, example, XML facet or documentation entry, each facet has the
     value that was set last, or is absent if it was unset last; all other facets, all other objects, and
     the lists that setters were given or accessors returned, are unchanged.  Setting a type's type or overriding it changes
     nothing but that text.""",
     ["histories"], """all histories of Set, Unset and live-map changes on two objects of each sort (16 kinds of types, 14 kinds of
     examples, XML, documentation entries, specifications, libraries)""",
     TESTS.format(x="setters are called in isolation, so that a setter that disturbs another facet goes unnoticed"),
     DOC + TYPES + GEN + EX, [("setters and Unset methods", INT)], ["all setters and accessors"],
     "After every step, all accessors of both objects are compared with a model.  Sampling of histories.")

prop("C13", "Numbers, dates and other scalars keep their exact value",
     """Scalar facets keep their exact value when read, set, written and re-read: the full ranges of 64-bit signed and unsigned
     integers, every float64 including infinities, NaN, negative zero and the extremes, integers where a number is expected,
     dates quoted or not, and strings that look like other types, contain special characters or span several lines.  No
     rounding, overflow, truncation or change of type occurs.""",
     ["inputs"], """all values of numeric facets (limits, multipleOf, minimum, maximum, default, enum, examples), booleans, dates and
     strings, in all kinds of types, in all YAML notations, read or set""",
     TESTS.format(x="no numeric facet is ever read from or written to a document"),
     TYPES + GEN + EX + ASSIGN, [CONV, WRITE, ("float notation", INT + "in-float.go")], API,
     "Documents dense with numeric and value facets, biased to boundary values.  Sampling.")

prop("C14", "I/O faults surface as errors and damage nothing",
     """If the writer given to WriteRAML fails at any point, an error is returned, what the writer accepted is a prefix of
     the proper output, and the document and later writes are unaffected.  If the reader given to a parser fails at any point,
     an error and no document is returned; how a reader divides the input into pieces makes no difference.  A value in
     the document that cannot be written is reported as an error too, and leaves no trace once it is removed.""",
     ["fault_sequences", "inputs"], "all documents, all byte offsets at which a writer or reader fails, all ways to divide the input",
     TESTS.format(x="no test uses a failing reader or writer"),
     DOC, [("WriteRAML", INT + "APISpec.go"), ("WriteRAML", INT + "Library.go"), ("parsers", PUB + "rparse/decode.go")],
     ["WriteRAML", "rparse.ParseApiDoc", "rparse.ParseLibrary"],
     "Random documents, some of up to 1 MiB, eleven fault offsets each for reader and writer (start, end, header and random), four values that cannot be written.  Sampling.")

prop("C15", "Examples mean the same in every form that they can be written in",
     """An example value given in the short form and the same value given in the expanded form ({value: ...}) are the same
     example, for example and examples facets of all kinds of types: same accessor values, same written form.  Expanded examples keep
     displayName, description, strict, annotations and extra facets, an example without a value stays distinguishable from one with an explicit value (null included),
     and all survive writing.""",
     ["inputs"], "all example values of all kinds of types, in example and examples, with any combination of the facets of examples, in both forms",
     TESTS.format(x="no test reads or writes an example"),
     EX + [INT + "fn-sorting-hat-example.go", INT + "util-ex-map.go"] + GEN, [READ, WRITE], API + ["Example accessors"],
     "The same library in three spellings (short where possible, expanded, mixed) against the model.  Sampling.")

prop("C16", "Opaque content, annotations and extra facets are carried verbatim",
     """Content that the library does not interpret - resources, traits, resource types, annotation types, security schemes,
     base URI parameters, annotation values, extra facets at every level, untyped example, default, enum and discriminator
     values - is exposed and written back with exactly its YAML structure: keys of any type, order, nesting, tags, includes and scalar
     types.  Names that mean something elsewhere in RAML get no special treatment where they are unknown.""",
     ["inputs"], "all YAML values (unique keys; aliases stand for what they refer to) at all opaque places",
     TESTS.format(x="no test carries opaque content through a document"),
     DOC + TYPES + ["v0/internal/util/assign/any-map.go"] + GEN + EX, [READ, WRITE, MAP], API,
     "Documents dense with opaque content, compared as YAML trees at each stage.  Sampling; style and comments are not compared.")

prop("C17", "Equivalent spellings of a document are the same document",
     """Spellings that mean the same in YAML and RAML are read as the same document and written with the same content: the order
     of different facets, block or flow or quoted styles, short and mapping forms of types and examples, 'type' or 'schema', 'types' or
     'schemas', a single media type or a list, inferred or explicit types, spelled-out defaults, notations of numbers, booleans
     and nulls, aliases in uninterpreted content, comments, blank lines, indentation, line ends, byte order marks and UTF-16,
     with or without header line or document markers.""",
     ["inputs"], "all documents and all pairs of equivalent spellings",
     TESTS.format(x="no test reads the same content in two spellings"),
     DOC + TYPES + GEN + EX, [READ, WRITE, DISPATCH], API,
     """Three independent random spellings and three byte-level variants per document, compared with each other and the model.
     Sampling; that a byte-level variant is equivalent is decided by the YAML library.""")

prop("C18", "Documents are independent of each other, also under concurrency",
     """Reading, building, observing, writing or changing one document never affects another document, whether it was made before or
     is made afterwards.  Different documents can be used from different goroutines at the same time, several
     goroutines can read and write one document that none of them changes, and do so while others are made and changed: without
     data races and with the same results as in sequence.""",
     ["schedules", "histories"], "all sets of documents, orders of use and interleavings of goroutines that change documents of their own and share others to read and write them",
     TESTS.format(x="no test uses two documents or a second goroutine"),
     DOC + TYPES + GEN + EX + MAPS, [("no shared mutable state", INT)], API + ["the race detector"],
     """Runs under the Go race detector; schedules are those that the Go scheduler happens to produce.  Sampling.""")

prop("C19", "Edits of a document take effect exactly where they were made",
     """After reading or building a document, any sequence of edits to its parts at any depth - setting or unsetting sections and facets of nested
     types, adding, replacing or deleting entries of any map, changing examples, XML facets and documentation entries where they are - changes exactly those parts: the accessors, the written document and what
     is read back from it all show the document with these edits and nothing else.""",
     ["histories", "inputs"], "all documents and all sequences of edits to nested parts",
     TESTS.format(x="no test changes a document that was read"),
     DOC + TYPES + GEN + EX + MAPS, [("live maps and setters", INT), WRITE], API + ["all setters"],
     "Edits are applied to the document and to the model; compared after each edit and after writing.  Sampling.")

prop("C20", "A type can be rendered on its own and says what it says in its document",
     """Every type of a document, nested or not, rendered on its own as RAML text or through yaml.Marshal, gives a
     declaration that states exactly the facets of that type and is read back as an equal type.  Rendering is repeatable and
     does not change the type or its document.""",
     ["inputs"], "all types of all kinds at all depths of all documents, read or built",
     TESTS.format(x="no test renders a type"),
     TYPES + GEN + EX, [("ToRAML and MarshalYAML", INT), WRITE], ["DataType.ToRAML", "yaml.Marshal"],
     "Each type in a random document is rendered and judged by the reference reader and by re-reading.  Sampling.")

prop("C21", "All entry points agree",
     """Reading through yaml.Unmarshal into a new document gives the same document as the parse functions, and writing through
     yaml.Marshal says the same as WriteRAML, for specifications and libraries, read or built.""",
     ["inputs"], DOCS_OVER.format(what="read or built, through both pairs of entry points"),
     TESTS.format(x="no test uses these entry points"),
     DOC, [("UnmarshalYAML and MarshalYAML of documents", INT)],
     ["yaml.Marshal", "yaml.Unmarshal", "WriteRAML", "rparse.*"],
     "Differential comparison of the entry points on random documents.  Sampling.")

prop("C22", "Absent facets have their documented defaults, and defaults are implicit",
     """For every absent facet the accessors report the documented default (required, strict and additionalProperties true;
     uniqueItems false; minLength and minItems 0; maxLength of files and maxItems 2147483647), an empty option, nil or an empty usable
     collection.  A default that is spelled out or set, and an empty enum, examples, facets or root map section, make no
     difference to the accessors or to what is written, and defaults are never written.""",
     ["inputs", "histories"], "all documents, all subsets of facets absent; absent, spelled out, or set to the default through setters",
     TESTS.format(x="only a few defaults of newly built objects are looked at"),
     [PUB + "rmeta/defaults.go"] + DOC + TYPES + GEN + EX, [("constructors with defaults", INT), WRITE], API + ["setters"],
     "Each document is read with no and with all defaults spelled out, then defaults are set through setters.  Sampling.")

prop("C23", "Values that cannot be written are reported, never dropped or half-written",
     """If a value without a YAML form (a channel, a function, a complex number, a value whose own conversion fails), on its own or
     inside lists and maps, is put anywhere where a document takes any value, then writing the document, rendering a type that
     holds it and serialising a map that holds it report an error, without panicking and without any of the content.  Types that do
     not hold it are rendered as before, and once it is removed or replaced the document is written as it would be without it.""",
     ["inputs", "histories"], "all documents and maps of all classes, all places that take any value, all such values in all containers",
     TESTS.format(x="no test makes a conversion fail"),
     DOC + TYPES + GEN + EX + MAPS, [("error returns of ToYAML and MarshalRAML", INT), WRITE, MAP],
     ["WriteRAML", "DataType.ToRAML", "yaml.Marshal", "ToYAML and MarshalJSON of maps"],
     """Random documents and places; each place, and each class of maps, is as likely as the others.  Sampling.""")

with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        q = {k: v for k, v in p.items() if k != "note"}
        n = sum(q["statement"].count(x) for x in (". ", ".  ")) + 1
        assert len([s for s in q["statement"].replace("...", "").split(". ")]) <= 3, (q["id"], n)
        f.write(json.dumps(q, ensure_ascii=False) + "\n")

TECH = {
    "C05": "property-based testing: model-based assembly through setters, round trip and reference reader",
    "C08": "property-based fuzzing (bytes, trees, vocabulary) with a reference reader as differential oracle",
    "C09": "property-based testing: single-value faults in valid documents, reference reader as oracle",
    "C10": "stateful model-based testing of operation histories with shrinking",
    "C11": "stateful model-based testing, serialised forms against the model",
    "C12": "stateful model-based testing of setter histories",
    "C14": "property-based testing with fault injection at generated offsets",
    "C17": "metamorphic property-based testing over equivalent spellings",
    "C18": "property-based testing with concurrent use under the race detector",
    "C19": "stateful model-based testing of edit histories, round trip",
    "C23": "property-based testing with injected unwritable values, metamorphic undo",
    "C21": "differential property-based testing of entry points",
}
checks = []
for p in P:
    i = p["id"]
    checks.append(dict(property=i, quick_cmd="./run %s" % i, thorough_cmd="VERIF_TIER=thorough ./run %s" % i,
                       evidence_file="evidence/%s.json" % i,
                       technique=TECH.get(i, "property-based testing: generated documents against an independent model"),
                       level="exploration", level_note=p["note"]))
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(dict(version=1, setup_cmd="./run --setup", checks=checks, not_applicable=[],
                   notes="properties.jsonl and this file are written by mkspec.py.  No hooks are needed in /repo."), f,
              indent=1, ensure_ascii=False)
    f.write("\n")
