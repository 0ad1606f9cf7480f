#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, title
    P.append(d)

G, PA, M, S, I = "src/yaml.pest", "src/yaml/parser.rs", "src/yaml/mod.rs", "src/yaml/string.rs", "src/yaml/insert.rs"
SER, DE, PT, PP = "src/yaml/serializer.rs", "src/yaml/deserializer.rs", "src/path.rs", "src/path.pest"
HD, HE, AD, DO, AL = "src/yaml/hash_data.rs", "src/yaml/hash_element.rs", "src/yaml/array_data.rs", "src/yaml/document.rs", "src/yaml/aliased.rs"

p("C01", "Parsing yields exactly the data the text denotes, whatever the layout",
  "Parsing a well-formed document of the supported subset (block and flow mappings and sequences, the five scalar styles, aliases, anchors) succeeds and yields exactly the structure, keys, element order, scalar styles, alias names and scalar contents that the text denotes. The result does not depend on layout choices that carry no meaning: indentation width, sequences indented or flush under their key, compact or expanded nesting after a dash, blank lines, spaces at line ends, LF or CRLF line ends, spaces and line breaks inside flow collections, presence of a final newline. No entry is attributed to another parent than the one its indentation gives it.",
  ["inputs"], "for all documents of the subset and all of their layouts",
  "The snapshot tests pin about fifteen hand-written documents; nesting shapes and layouts combine without bound, and several combinations were parsed wrongly with all tests green.",
  [G, PA], [("PEG grammar with an indentation stack", G), ("tree construction", PA)], ["parse_yaml_file"])
p("C02", "Every comment is kept, in order, at its place",
  "Parsing keeps the text of every comment of a document exactly once and in source order, and distinguishes comments before the document marker, comments on their own line and comments at the end of an entry's line, each recorded at its position among the entries around it. Formatting the parsed document writes each of them again, exactly once, in the same order.",
  ["inputs"], "for all documents of the subset with comments in every place the subset allows",
  "Tests place a handful of comments; the places a comment can take (before, between, after, inside nested and compact containers) multiply with the nesting.",
  [G, PA, M, DO], [("comment rules", G), ("comment items in hash, array and document lists", PA), ("comment writing", M)], ["parse_yaml_file", "Document::format"])
p("C03", "Formatting a parsed document and parsing it again gives the same document",
  "For every text the parser accepts, formatting the resulting document succeeds, and parsing the formatted text succeeds and yields a document equal to the first one, comments, aliases and scalar styles included.",
  ["inputs"], "for all texts the parser accepts: generated documents in every layout, and mutated or random texts that happen to be accepted",
  "The tests pin the formatted text of about fifteen documents but never feed it back to the parser.",
  [M, AL, DO, G, PA], [("format", M), ("AliasedYaml::format", AL), ("Document::format", DO)], ["parse_yaml_file", "Document::format"])
p("C04", "Formatting is canonical: idempotent and independent of source layout",
  "Formatting a document, parsing the result and formatting again reproduces the same text byte for byte. Any two layouts of the same document, comments included, are formatted to the same text.",
  ["inputs"], "for all documents of the subset, all pairs of layouts",
  "Tests check one layout per document and never format twice.",
  [M, AL, DO], [("format", M)], ["Document::format"])
p("C05", "No input makes parsing or formatting panic; errors point into the input",
  "Parsing any text, of any bytes that form a string, returns a document or an error and never panics, overflows or aborts; formatting, prettifying, querying or decoding a document that parsing accepted never panics either. An error's location is a one-based line and column inside the text it was given (or just past its end).",
  ["inputs"], "for all strings up to a nesting depth of 60: random, mutated from valid documents, and adversarial near block scalar headers, indentation, quotes and Unicode",
  "Tests only parse valid documents; none checks an error location, and several malformed inputs used to panic.",
  [G, PA, S, M], [("error conversion", PA), ("block scalar indentation handling", PA)], ["parse_yaml_file", "YamlError::location", "Document::format", "Pretty::pretty", "YamlTypes::as_string"])
p("C06", "Nothing written in an accepted document is lost or invented",
  "For every text the parser accepts, the formatted document contains the same non-white-space characters in the same order as the text, block scalar indentation indicators aside: no key, value, comment or part of one is dropped, duplicated, moved or replaced.",
  ["inputs"], "for all texts the parser accepts",
  "A conservation law over every accepted input; tests compare fifteen documents with snapshots that were generated by the code itself.",
  [G, PA, M], [("grammar", G), ("tree construction", PA), ("format", M)], ["parse_yaml_file", "Document::format"])
p("C07", "Malformed documents are rejected",
  "A text is rejected with an error, and never repaired silently, when it lacks the document marker (three dashes alone on their line), has an unterminated quoted string or flow collection, text after the end of a quoted string or flow collection, an unknown escape in a double quoted string, a missing comma or colon in a flow collection, a comma without a value before it, a value that starts with an indicator but is not what the indicator starts (an alias name or reference without a name or with another text glued to it, a closing bracket, a lone dash or colon, a block scalar's header with anything else behind the indicator), no blank between a colon or dash and its value, a tab in an indentation, a line that is no entry, an entry indented like no enclosing container, a mapping key where a sequence entry is due or the reverse, or a key whose nested entries are not indented deeper than it.",
  ["inputs"], "for all single faults of these kinds injected at any place of any generated document",
  "No test parses a malformed document.",
  [G], [("PEG rules anchored at start and end of input", G)], ["parse_yaml_file"])
p("C08", "Every scalar style decodes to the string it denotes",
  "The string value of a parsed scalar is its plain text without the spaces around it, its single quoted text with doubled quotes halved, its double quoted text with the escapes for newline, carriage return, tab, quote and backslash replaced, a single line break inside quotes removed and n+1 consecutive ones read as n newlines. For literal and folded block scalars it is the text with the indentation of its first non-blank line (or the explicit indicator) removed, lines joined by newlines or folded as in YAML, and final newlines clipped, stripped or kept as the header says.",
  ["inputs"], "for all contents, in every style and chomping, at every nesting place",
  "Tests decode about ten strings; block scalars depend on indentation, blank lines, leading spaces, chomping and position together.",
  [S, PA, "src/yaml/types.rs", G], [("decoders", S), ("block scalar cleaning", PA), ("as_string", "src/yaml/types.rs")], ["YamlTypes::as_string", "parse_literal", "parse_folded", "parse_single_quoted_string", "parse_double_quoted_string", "from_yaml_str"])
p("C09", "Block string helpers: splitting into lines and joining back is lossless",
  "Splitting a string into the lines of a literal block and decoding those lines with strip chomping (keep, when the string ends in a newline) gives the string back, and so does splitting into folded lines for every line width when the lines of the string consist of words separated by single spaces. Folded lines are never longer than the width unless they are a single word.",
  ["inputs"], "for all strings and all widths",
  "Tests check one string and one width.",
  [S], [("create_literal/parse_literal", S), ("create_folded/parse_folded", S)], ["create_literal", "parse_literal", "create_folded", "parse_folded"])
p("C10", "A path text parses to exactly the steps and conditions it spells, or is rejected",
  "A path made of dot-separated keys, bracketed indexes or stars, and field=value conditions after each step parses to exactly those steps, in order, with each condition on its own step (a condition's field extends to the next equals sign, its value to the next dot or bar), and the empty text denotes the root. Spaces around names, indexes, fields, values and their punctuation do not count; spaces within them do. Every other text is rejected with an error, without panicking: empty steps, unclosed or empty brackets, indexes that are no machine integers, conditions without field, equals sign or value. Appending a path to another one that is not the root gives the path of their concatenated texts; appending to the root replaces it.",
  ["inputs"], "for all step sequences with Unicode keys, indexes up to and beyond the machine integer range, any number of conditions, and for random and mutated texts",
  "Tests parse about ten paths; index overflow and spaces before punctuation used to panic.",
  [PT, PP], [("path grammar", PP), ("YamlPath::insert", PT)], ["YamlPath::from_str", "YamlPath::insert"])
p("C11", "A query returns exactly the values its path selects",
  "A query returns, in document order (for indexes: in the order of the path), exactly the values at the positions its path names: a key step enters that key of a block mapping, an index or star step enters that or every element of a block or flow sequence (comments are not elements), and a step's conditions keep only mappings in which each named field is a scalar decoding to the given value, tested on the mapping a key step leaves and on the element an index or star step enters. A query changes nothing.",
  ["inputs", "histories"], "for all documents and all paths: existing, missing, too long, out of range, through scalars, with fulfilled and failing conditions",
  "One test queries one path; selection through sequences within sequences, comments, flow sequences and conditions is combinatorial.",
  [M, HE, AD, HD, DO, I], [("for_hash", M), ("fits_conditions", M)], ["YamlInsert::find_values", "YamlInsert::for_hash"])
p("C12", "Insertion adds or overwrites exactly the addressed entries and counts them",
  "Inserting at a path that ends in a key sets that key in every block mapping the rest of the path selects: it is appended when absent, replaced in place when present and overwriting is asked for, left alone otherwise, and the returned count is the number of mappings changed. Everything else (other entries, order, comments, aliases) stays as it was; inserting with a callback that makes the value behaves the same, and a path that selects nothing, or ends in an index, changes nothing and returns zero.",
  ["inputs", "histories"], "for all documents, paths, values, both overwrite modes, and sequences of edits",
  "Tests insert three times into one small document.",
  [I, M, HE, AD, HD, DO], [("insert_into_hash", I), ("edit_hash_structure", M)], ["YamlInsert::insert_into_hash", "YamlInsert::insert_into_hash_by_call"])
p("C13", "Removing, renaming and wrapping affect exactly the addressed entries",
  "Removing deletes the addressed key (only the first one of that name) from every selected block mapping, renaming changes that key's name in place, and wrapping replaces its value by a mapping holding the old value, alias included, under the given key; each returns the number of entries changed. Everything else, including position, order and comments, stays as it was, and a path that selects no entry changes nothing and returns zero.",
  ["inputs", "histories"], "for all documents, paths, names, and sequences of edits",
  "Tests edit six small documents.",
  [I, M, HE, AD], [("remove_from_hash, rename_field, to_object", I)], ["YamlInsert::remove_from_hash", "YamlInsert::rename_field", "YamlInsert::to_object"])
p("C14", "Moving fields into a subfield conserves every value",
  "Moving a list of fields into a subfield of every selected mapping takes each listed field that is present out of the mapping and puts it, value and alias unchanged and in list order, into the subfield, which is created at the end when absent and extended (replacing equal names) when it is a block mapping. Nothing is lost: when the subfield exists but cannot hold fields the mapping stays as it was and is not counted, and a field is never moved into itself; the count is the number of mappings changed.",
  ["inputs", "histories"], "for all documents, paths, subfield names and field lists, including existing, repeated, missing and self-referring ones",
  "Tests move fields in six documents, always into a mapping or a fresh subfield; moving into a scalar used to lose the fields.",
  [I, M], [("move_to_subfield", I)], ["YamlInsert::move_to_subfield"])
p("C15", "Regrouping a map by a field's value partitions its entries",
  "Regrouping moves each entry of the named map whose selector field is a non-empty scalar not in the keep list into a new map, under a submap named by that value, without the selector and in its original order, submaps sorted by name. Entries with a kept or empty value lose their selector but stay, entries without the field stay unchanged, both in their original order; comments on their own lines go with the entry after them (the last ones with the entry before), comments at a line's end with the entry before. No entry is lost or duplicated: when no entry would move, or the new map's name is taken, nothing changes; the count is the number of mappings changed.",
  ["inputs", "histories"], "for all documents, selectors, keep lists and names, including an already existing target map",
  "One test regroups one document.",
  [I], [("move_to_map_with_field_as_key", I)], ["YamlInsert::move_to_map_with_field_as_key"])
p("C16", "An edited document still formats to text that parses back to the same data",
  "After any sequence of edits (insert, overwrite, remove, rename, wrap, move, regroup) with well-formed keys and values on a parsed document, the formatted text parses, and yields the same data as the edited document: same keys, order, scalar values and aliases, and the same comments in the same order. Containers left without entries count as empty.",
  ["inputs", "histories"], "for all documents and all edit histories",
  "Tests compare edited trees with parsed trees, never the formatted edited tree, so comments left dangling by an edit, or values inserted at places the layout did not foresee, are not seen.",
  [M, AL, I], [("format", M), ("edit operations", I)], ["Document::format", "parse_yaml_file"])
p("C17", "Prettifying never changes the data",
  "Prettifying a document or value preserves every key, the order and nesting of entries, every scalar's decoded string, every alias and anchor, and every comment (only a block collection placed by hand inside a flow one, which no parsed document has, may lose its own); flow collections stay flow, and block ones stay block unless they are empty, inside a flow one, or sequences directly in a block sequence that fit a line of 90 bytes; scalars that are plain stay plain or become quoted only where flow style requires it, and quoted or block strings become plain only when the plain text, read without a type, is that same string.",
  ["inputs"], "for all documents and values: any strings, lengths around the line width, nested collections of every mix of styles",
  "Tests prettify nine values; the conversions between quoting styles depend on content, length and context.",
  [M, S, AL], [("pretty_with_options", M), ("create_folded/create_literal", S)], ["Pretty::pretty"])
p("C18", "Prettified documents format to valid text, and prettifying twice changes nothing",
  "A prettified document formats to text that parses back to the same data, and prettifying it, or what was parsed back, once more changes neither tree nor text.",
  ["inputs"], "for all documents and values of any style mix",
  "Tests snapshot prettified text once and never parse it or prettify it again.",
  [M, S], [("pretty_with_options", M), ("format", M)], ["Pretty::pretty", "Document::format", "parse_yaml_file"])
p("C19", "Serialized values deserialize to equal values, also after prettifying",
  "Serializing a value of any supported type (booleans, integers up to 128 bits, floats, characters, strings, options, units, sequences, tuples, maps, structs, and enums with every kind of variant) to a tree and deserializing that tree, directly or after prettifying, gives an equal value. (Options of values that may themselves be null, and integral floats inside untagged values, are ambiguous and left out.) A value that has no tree, because a map in it has keys that are no scalars or because a part of it refuses to be serialized, gives an error.",
  ["inputs"], "for all values of a universe of types covering every serde data model kind, nested; all strings; all integers; all finite and special floats",
  "Tests round-trip about thirty values, in memory, and no enum variant with data.",
  [SER, DE, M], [("YamlSerializer", SER), ("YamlDeserializer", DE), ("pretty", M)], ["YamlSerializer", "from_yaml", "Pretty::pretty"])
p("C20", "Serialized values survive being written as text and read back",
  "Serializing a value whose map keys are valid keys of the subset, formatting it as a document, with or without prettifying, and reading the text back gives an equal value; a string is never written in a form that, read without a type, is a different string, a number, a boolean, null, an anchor, a comment or a collection.",
  ["inputs"], "for all values as above, all strings including white space, control characters, indicators, line breaks and Unicode, at every nesting place",
  "Tests never serialize to text and read it back.",
  [SER, DE, M, G], [("needs_quoting/str_to_yaml", SER), ("format", M), ("grammar", G)], ["YamlSerializer", "Document::format", "from_yaml_str"])
p("C21", "Typed reading accepts exactly the documented forms and never alters a value",
  "Reading a scalar as a typed value gives exactly the value written: integers must fit their type and are otherwise an error (never wrapped or truncated), booleans are the true/false/yes/no/on/off words in their three casings and only when plain, null words make an absent option only when plain, and quoted or block text read as a string is its decoded text. Reading untyped classifies plain scalars as null, boolean, integer, float or string, and every quoted or block scalar as a string (integers up to 64 bits; larger ones read as floats). A mismatch of shape is an error: a scalar, sequence or mapping where another of these is wanted, anything but null for a unit, a sequence of another length than the tuple.",
  ["inputs"], "for all scalar texts, styles and target types",
  "Tests read about twenty scalars, none out of range or of the wrong shape.",
  [DE], [("deserialize_*", DE)], ["from_yaml", "from_yaml_str"])
p("C22", "An anchor reference reads as the value its name was last given before it",
  "Reading a document in which values carry alias names and other places refer to them gives, for each reference, the value that most recently carried that name earlier in the document; a reference that is read and names no earlier value is an error. Reading terminates, without panicking, for every document, including self-referring ones.",
  ["inputs"], "for all placements of definitions and references: nested, redefined, in ignored fields, in keys order against target struct order, self-referring, undefined",
  "Two tests: one definition before one reference, and one undefined name.",
  [DE], [("anchor table", DE)], ["from_yaml_str", "from_yaml"], [("Anchors", "names seen so far and their values", DE)])
p("C23", "Visiting and mapping reach every value exactly once, in order",
  "Visiting a tree calls the visitor exactly once per aliased value, a parent before what it contains and siblings in order. Mapping calls the function exactly once per node, children before their parent and siblings in order, puts each result in the node's place, and keeps keys, aliases and comments; mapping with the identity gives an equal tree.",
  ["inputs"], "for all trees of every mix of containers",
  "One test counts the anchors of one document; nothing tests mapping.",
  [M, AL, HD, HE, AD], [("VisitYaml", M), ("MapYaml", M)], ["VisitYaml::visit_yaml", "MapYaml::map_yaml"])
p("C24", "Parsing, formatting and prettifying cost grows moderately with size and nesting",
  "The number of steps the parser takes on a document, and the memory allocated by parsing it, by formatting and prettifying what was parsed, and by describing a parse error, are bounded by a small polynomial of its length, whatever its nesting (compact or expanded, block or flow) and whether or not the document is well-formed: no short text makes any of these take exponential time or memory.",
  ["inputs"], "for families of documents of growing nesting depth and length, well-formed and with a fault at the deepest place, and for random documents",
  "Every tested document is small and valid; compact nesting used to double the time per level.",
  [G], [("grammar without ambiguous alternatives", G)], ["parse_yaml_file", "Document::format", "Pretty::pretty"])
p("C25", "Results depend on the input only: no state leaks between calls or threads",
  "Parsing, formatting, prettifying, querying, editing and (de)serializing give the same result for the same input each time, whatever was processed before (failed parses included) and whatever other threads process at the same time, with no data race or memory error.",
  ["inputs", "schedules", "histories"], "for all interleavings of operations over a shared pool of inputs on several threads",
  "Tests run each operation once and compare nothing across threads.",
  [PA, PT, DE, M, I, SER], [("no shared mutable state outside a call", PA)], ["all public operations"])
p("C26", "Querying, editing and (de)serializing cost grows moderately with size",
  "The memory allocated (and for texts the number of parser steps taken) by parsing a path text, by querying, editing, visiting and mapping a document, by serializing a value, and by deserializing a document without references or what serializing gave, is bounded by a small polynomial of the size of the path, document and value, whatever their nesting and whether or not the operation succeeds.",
  ["inputs"], "for growing paths, documents, edits and values, deeply nested and wide, well-formed and not",
  "Every tested input is small; a copy of the rest of the document at each level, or of the anchors at each node, shows only in the cost.",
  [PA, PT, I, M, DE, SER], [("no repeated work per level", DE)], ["YamlPath::from_str", "YamlInsert", "VisitYaml", "MapYaml", "to_document", "from_document"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P))
