#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the single source of the property texts)."""
import json
V = ["2_1", "2_2", "2_3"]
def tv(part, vs=V): return [f"spdx/v2/v{v}/tagvalue/{part}" for v in vs]
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("P01", "Tag-value tokenizer yields exactly the (tag, value) pairs of the text",
  "Splitting a tag-value text line by line yields, in order, exactly one (tag, value) pair per tagged entry: blank lines and '#' comment lines are skipped, the tag is the trimmed text before the first colon, and the value is the trimmed rest of the line or the verbatim text between <text> and </text>, joined with newlines when it spans several lines. A line without a colon outside a text block, a text block still open at the end of input and an error of the underlying reader are each reported as an error and never yield a partial list.",
  ["inputs"], "every sequence of input lines, of any length, from every intermediate tokenizer state",
  "Tests feed a dozen lines; whether line k is tokenized correctly depends on the state left by all previous lines, for unboundedly many lines and contents.",
  ["tagvalue/reader/reader.go"],
  [("line dispatcher and the two per-line handlers", "tagvalue/reader/reader.go"), ("end-of-input check", "tagvalue/reader/reader.go"), ("scan loop and conversion to the exported list", "tagvalue/reader/reader.go")],
  ["result of ReadTagValues"], [("mid-text flag, current tag, current value", "partially read multi-line value", "tagvalue/reader/reader.go")])

p("P02", "Tag-value parsers never crash, whatever the sequence of tags",
  "For each supported version, parsing any non-empty finite sequence of (tag, value) pairs, in any order and with any contents, terminates and returns either a document or an error. It never panics: no tag is applied to a package, file, snippet, license, review, relationship or annotation that does not exist.",
  ["inputs", "histories"], "every sequence of (tag, value) pairs from the initial parser state",
  "A nil dereference needs a particular order of section-opening, section-changing and field tags; tests cover a few orders of a few tags out of about 90 tags in 7 states.",
  tv("reader/parser.go") + tv("reader/parse_package.go") + tv("reader/parse_file.go") + tv("reader/parse_snippet.go"),
  [("per-state tag handlers", "spdx/v2/*/tagvalue/reader/parse_*.go"), ("state dispatch", "spdx/v2/*/tagvalue/reader/parser.go")],
  ["ParseTagValues of each version"], [("parser state and current-element pointers", "the section being read and the element its tags apply to", "spdx/v2/*/tagvalue/reader/types.go")])

p("P03", "Each tag-value tag sets exactly its own field of the current element",
  "For each supported version and from any reachable parser state, processing one (tag, value) pair either fails or changes exactly the model field that tag denotes, on the element currently open (or newly opened), to the value (list-valued fields gain one element at the end), and changes nothing else in the document. Section-opening tags start a new element attached to its container once its identifier is given, unknown or misplaced tags, malformed values and elements left without an identifier are errors, and checksum algorithms and actor types outside the version's set are rejected. (A FilesAnalyzed value other than true and false only records that the tag was present; a snippet of no file belongs to no container.)",
  ["inputs", "histories"], "every parser state satisfying the reader's invariant, every tag, every value",
  "Tests check single tags from hand-made states and look at the expected field only; that nothing else changes, in every state, is a frame condition over all histories.",
  tv("reader"), [("tag switches", "spdx/v2/*/tagvalue/reader/parse_*.go"), ("value splitters", "spdx/v2/*/tagvalue/reader/util.go")],
  ["document returned by ParseTagValues"], [("current-element pointers", "where the next tag's value goes", "spdx/v2/*/tagvalue/reader/types.go")])

p("P04", "Tag-value writer emits every populated field once, under its own tag",
  "For each supported version, rendering a document that has creation info outputs exactly, section by section in the documented order, one line per populated field and per element of each list field, carrying that field's value under that field's tag, with free texts containing a newline wrapped in <text>...</text>, and empty optional fields omitted. External document references, unpackaged files, packages, the files of a package and the snippets of a file appear in ascending identifier order, and rendering a document without creation info is an error.",
  ["inputs"], "every document value: any subset of populated fields, any list lengths",
  "Tests render a handful of fully populated elements; a field dropped, duplicated or mislabelled only under some combination of other fields goes unseen.",
  tv("writer"), [("per-section renderers", "spdx/v2/*/tagvalue/writer/save_*.go"), ("text wrapping", "spdx/v2/*/tagvalue/writer/util.go")],
  ["bytes written by tagvalue.Write"])

p("P05", "Every tag-value field the writer emits is read back with the same value",
  "For each supported version, each line the tag-value writer emits for a field with a representable value (single-line values without surrounding blanks or text markers, multi-line values without a closing marker, well-formed identifiers, checksums, actors, references, ranges and relationships) is tokenized and parsed, in the section where it is emitted, into the same field with an equal value. Nothing representable is lost or altered by writing a document and reading it back.",
  ["inputs"], "every field of every element kind, every representable value",
  "Round-trip tests use a single example document; the law is over all values of some 80 fields in three versions.",
  ["tagvalue/reader/reader.go"] + tv("writer") + tv("reader"),
  [("renderers", "spdx/v2/*/tagvalue/writer"), ("tokenizer", "tagvalue/reader/reader.go"), ("tag handlers", "spdx/v2/*/tagvalue/reader")],
  ["tagvalue.Read after tagvalue.Write"])

p("P06", "SPDX identifier text forms are parsed and rendered as inverses",
  "Rendering an element or document-qualified identifier and parsing the text with the tag-value readers gives back the identifier, including NONE and NOASSERTION where the version permits them. The parsers accept exactly the well-formed texts (SPDXRef- prefix, optional DocumentRef- part, non-empty names, at most one separating colon) and report an error, with no identifier, for every other text.",
  ["inputs"], "every string given to the identifier parsers; every identifier given to the renderers",
  "Acceptance is a predicate on all strings; tests list about ten.",
  ["spdx/v2/common/identifier.go"] + tv("reader/util.go"),
  [("renderers", "spdx/v2/common/identifier.go"), ("tag-value parsers", "spdx/v2/*/tagvalue/reader/util.go")],
  ["RenderElementID, RenderDocElementID, and the tag-value readers"])

p("P07", "JSON text forms of identifiers and actors decode to what was encoded",
  "For element, document and document-qualified identifiers, creators, annotators, suppliers and originators, encoding a well-formed value to JSON (with or without HTML escaping of the surrounding document) and decoding the result gives an equal value, whatever characters it contains. Decoding accepts exactly the documented string forms, and malformed strings are rejected with an error and leave no partially decoded value.",
  ["inputs"], "every well-formed value (any Unicode content) and every JSON string",
  "Tests use plain ASCII names; the law must hold for names with quotes, backslashes, angle brackets, colons and non-ASCII text.",
  ["spdx/v2/common/identifier.go", "spdx/v2/common/creation_info.go", "spdx/v2/common/annotation.go", "spdx/v2/common/package.go"],
  [("MarshalJSON/UnmarshalJSON pairs", "spdx/v2/common"), ("JSON string encoder", "json/marshal/json.go")],
  ["json.Write then json.Read of documents carrying such values"])

p("P08", "Reading JSON turns every documented shortcut into one relationship",
  "Decoding a 2.2 or 2.3 JSON document keeps every non-null relationship in order and adds, exactly once, a DESCRIBES relationship for each documentDescribes entry and a CONTAINS relationship for each hasFiles entry of a package, unless an equivalent one (including the inverse DESCRIBED_BY or CONTAINED_BY form) is already present. Null relationships and null packages are tolerated, and nothing else in the document is dropped or changed.",
  ["inputs"], "every list of relationships, describes entries, packages and hasFiles entries",
  "De-duplication depends on all pairs of entries in arbitrarily long lists; tests have two or three entries.",
  ["spdx/v2/v2_2/document.go", "spdx/v2/v2_3/document.go", "spdx/v2/v2_2/package.go", "spdx/v2/v2_3/package.go"],
  [("document UnmarshalJSON", "spdx/v2/v2_2/document.go, spdx/v2/v2_3/document.go")], ["json.Read"])

p("P09", "JSON packages and their references decode with the documented defaults",
  "Decoding a 2.2 or 2.3 JSON package sets filesAnalyzed to true when the property is absent or null and otherwise to the given value while recording that it was present; its hasFiles entries are all kept for conversion to relationships. Reference categories are normalised to their hyphenated spelling in both directions in 2.3 (and on reading in 2.2 as documented), and every other property of packages, files, snippets, relationships and external references is decoded unchanged.",
  ["inputs"], "every JSON package object", "Tests cover one present and one absent case with other fields fixed.",
  ["spdx/v2/v2_2/package.go", "spdx/v2/v2_3/package.go"], [("package UnmarshalJSON", "spdx/v2/v2_2/package.go, spdx/v2/v2_3/package.go"), ("external reference codecs", "spdx/v2/v2_2/package.go, spdx/v2/v2_3/package.go")], ["json.Read, json.Write"])

p("P10", "Readers and writers use the model of the version the document declares",
  "The JSON, YAML, tag-value and RDF readers decode a document with the model of exactly the SPDX version it declares (the first version tag, property or node) and convert that result into the caller's target; the tag-value writer renders with the model of the document's own type. Missing, malformed or unsupported versions, non-pointer targets and unsupported document types are errors, no error of a stage is swallowed, and a target is never filled from a document of another version's model.",
  ["inputs", "configurations"], "every input and every supported or unsupported target",
  "Tests try the three versions per format on valid files; error propagation from each stage for all inputs is not sampled.",
  ["json/reader.go", "yaml/reader.go", "tagvalue/reader.go", "tagvalue/writer.go", "rdf/reader.go"],
  [("version switch", "json/reader.go, yaml/reader.go, tagvalue/reader.go, rdf/reader.go"), ("type switch", "tagvalue/writer.go")], ["Read, ReadInto, Write of each format package"])

p("P11", "Document conversion keeps the content and sets the target version",
  "Converting a document to its own version, given by value or pointer, yields an equal document, and converting between versions goes through every adjacent version's conversion and leaves the target's declared version equal to the target model's version. Conversion into something that is not a pointer is an error, describing or dereferencing any document never panics, and a description is complete when short and cut at the stated number of characters otherwise.",
  ["inputs", "configurations"], "every document, every pair of versions, every text length and encoding",
  "Tests convert one example in each direction; text truncation is tested on ASCII only.",
  ["convert/chain.go", "convert/struct.go", "spdx/v2/v2_2/document.go", "spdx/v2/v2_3/document.go"],
  [("same-type copy and chain", "convert/chain.go"), ("version hooks", "spdx/v2/*/document.go"), ("text limiter", "convert/struct.go")], ["convert.Document, convert.Describe"])

p("P12", "Package verification code is the SHA1 of the sorted file SHA1s",
  "The verification code of a list of files is the lowercase hexadecimal SHA1 of the concatenation, in ascending order, of the SHA1 checksums of all files except those named as excluded, and depends on nothing else (not on file order or other checksums). The excluded name is recorded iff non-empty, and a nil file anywhere in the list is an error with an empty code.",
  ["inputs"], "every list of files with any checksums and any excluded name",
  "Tests use five files with one SHA1 each; the law quantifies over all lists, orders and duplicate or missing checksums.",
  ["utils/verification.go"], [("collection, sort and hash", "utils/verification.go")], ["utils.GetVerificationCode"])

p("P13", "Ignore patterns match exactly the paths they document",
  "A path is ignored iff some pattern in the list matches it: a plain path matches that exact file, a plain directory path (ending in a slash) matches every file under it, and a pattern starting with ** matches the named file, or every file, in any directory whose path contains the rest of the pattern. The answer does not depend on the order of the patterns, and an empty list ignores nothing.",
  ["inputs"], "every path and every list of patterns", "Tests try a few paths against five patterns.",
  ["utils/filesystem.go"], [("pattern matcher", "utils/filesystem.go")], ["utils.ShouldIgnore"])

p("P14", "Built documents list every non-ignored regular file exactly once",
  "Building a package from a directory lists, in walk order, every regular file under it that no ignore pattern matches, and no directory or symbolic link, each once, with a distinct sequentially numbered identifier, its relative name, its own SHA1, SHA256 and MD5 digests and NOASSERTION license data. The document declares the current version, the configured creator, the package with the verification code of its files, and one relationship stating that the document describes that package; any error of a step is returned with no document.",
  ["inputs", "configurations", "fault_sequences"], "every directory listing, every configuration, every error of the file system",
  "Tests build three fixed directories with five files.",
  ["builder/build.go", "builder/build_package.go", "builder/build_file.go", "builder/build_creation_info.go", "builder/build_relationship.go", "utils/filesystem.go"],
  [("section builders", "builder"), ("walk callback and hash reader", "utils/filesystem.go")], ["builder.Build, utils.GetAllFilePaths"])

p("P15", "License-ID search reports exactly the identifiers found in each file",
  "For each searched file, the reported license list is the sorted, duplicate-free set of individual licenses in its short-form identifier lines, the concluded license is its single identifier expression or the AND of all of them (compound ones parenthesised), and both are NOASSERTION when none are found or the file is excluded from searching. The package's license list is the sorted union over its files, or NOASSERTION if that is empty.",
  ["inputs"], "every file content, every set of files", "Tests scan about six fixture files.",
  ["idsearcher/idsearcher.go"], [("expression splitting and parenthesising", "idsearcher/idsearcher.go"), ("per-file and per-package aggregation", "idsearcher/idsearcher.go"), ("line scanner", "idsearcher/idsearcher.go")], ["idsearcher.BuildIDsDocument"])

p("P16", "License diff pairs and classifies every file exactly once",
  "Pairing two packages maps every file name occurring in either package, and no other, to the concluded license it has in the first and in the second package (the last occurrence, empty if absent). Classification puts every pair into exactly one of changed, same, first-only and second-only, according to which licenses are empty and whether they are equal, with the corresponding license or pair.",
  ["inputs"], "every two lists of files; every map of pairs", "Tests use one pair of six-file packages.",
  ["licensediff/licensediff.go"], [("pairing loops", "licensediff/licensediff.go"), ("classification loop", "licensediff/licensediff.go")], ["licensediff.MakePairs, licensediff.MakeResults"])

p("P17", "License report counts every file once and prints matching totals",
  "The license report counts every file of the package exactly once, as found iff its concluded license is neither empty nor NOASSERTION, and its per-license counts cover exactly the found files, so they add up to the found total. The printed totals and per-license rows carry these counts, rows come in descending order of count, and a package whose files were not analyzed is rejected with an error and no output.",
  ["inputs"], "every list of files", "Tests count one list of files.",
  ["reporter/reporter.go"], [("counting loop", "reporter/reporter.go"), ("table writer", "reporter/reporter.go")], ["reporter.Generate"])

p("P18", "Document queries return exactly the described and related elements",
  "The described-package query returns the only package of a single-package document, and otherwise the sorted identifiers of exactly the elements the document DESCRIBES or that are DESCRIBED_BY it; missing packages, relationships or results are errors. Relationship filtering returns, in order, exactly the non-nil selections, sorting returns the same identifiers in ascending order, and validation succeeds iff both ends of every relationship name the document, a package or an unpackaged file.",
  ["inputs"], "every document", "Tests use documents with up to five packages and relationships.",
  ["spdxlib/described_elements.go", "spdxlib/relationships.go", "spdxlib/documents.go", "spdxlib/element_ids.go"],
  [("described query", "spdxlib/described_elements.go"), ("filter loop", "spdxlib/relationships.go"), ("reference check", "spdxlib/documents.go")], ["the exported functions of spdxlib"])

p("P19", "RDF readers never crash, whatever the RDF graph",
  "Reading any RDF graph as an SPDX 2.2 or 2.3 document returns a document or an error and never panics: missing types, missing or repeated properties, nodes of unexpected kinds and cyclic references between documents, packages, files, snippets and relationships are all handled.",
  ["inputs"], "every finite RDF graph given to the reader",
  "Malformed and cyclic graphs are unbounded in shape; tests parse a few well-formed fragments.",
  [f"spdx/v2/v{v}/rdf/reader/{f}" for v in ("2_2", "2_3") for f in ("parser.go", "parse_spdx_document.go", "parse_package.go", "parse_file.go", "parse_relationship.go", "parse_snippet_info.go", "parse_license.go", "utils.go")],
  [("node cache", "spdx/v2/*/rdf/reader/utils.go"), ("node handlers", "spdx/v2/*/rdf/reader/parse_*.go")], ["rdf.Read"])

p("P20", "Each property of an RDF leaf element sets exactly its own field",
  "Reading an annotation, review, creation information, checksum, artifact-of project, package external reference, package verification code, external document reference, license (simple, extracted, listed, special, with exception, or-later, conjunctive or disjunctive set), snippet, snippet range or range pointer of an SPDX 2.2 or 2.3 RDF graph sets, for every property of its node, exactly the field that property denotes to the value it carries (list-valued fields gain one element per occurrence, in order) and changes nothing else. The values of a package's supplier, originator, download location and files-analyzed flag, of creators, annotators, reviewers, file types, checksum algorithms, relationship types and element identifiers are decoded to what they denote. Unknown properties and malformed values are errors.",
  ["inputs"], "every graph, every node and every property of an element of these kinds",
  "Tests parse single fragments and check the expected field only.",
  [f"spdx/v2/v{v}/rdf/reader/{f}" for v in ("2_2", "2_3") for f in ("parse_annotation.go", "parse_review.go", "parse_other_license_info.go", "parse_creation_info.go", "parse_license.go", "license_utils.go", "parse_snippet_info.go", "parse_package.go", "parse_file.go", "parse_spdx_document.go", "utils.go")],
  [("predicate switches", "spdx/v2/*/rdf/reader/parse_*.go"), ("value decoding", "spdx/v2/*/rdf/reader/utils.go")], ["rdf.Read"])

p("P24", "RDF documents, packages, files, snippets and relationships get exactly what the graph says",
  "Reading an SPDX 2.2 or 2.3 RDF graph visits every document, package, file, snippet and relationship it declares, sets exactly the field each of their properties denotes, and attaches files to the packages and snippets to the files that contain them, whatever the order and nesting in which the graph names them.",
  ["inputs"], "every RDF graph given to the reader",
  "Graphs are unbounded and cyclic; tests parse a few well-formed fragments.",
  [f"spdx/v2/v{v}/rdf/reader/{f}" for v in ("2_2", "2_3") for f in ("parser.go", "parse_spdx_document.go", "parse_package.go", "parse_file.go", "parse_relationship.go", "parse_snippet_info.go")],
  [("node handlers", "spdx/v2/*/rdf/reader/parse_*.go")], ["rdf.Read"])

p("P21", "Writers report failures of the destination",
  "When the destination fails to accept any part of the output, writing a document in JSON, YAML or tag-value form and generating a license report return a non-nil error; a nil result means the complete output was accepted by the destination.",
  ["fault_sequences", "inputs"], "every document and every point at which the destination fails",
  "Tests write to in-memory buffers, which never fail.",
  ["tagvalue/writer.go", "json/writer.go", "yaml/writer.go", "reporter/reporter.go"],
  [("top-level writers", "tagvalue/writer.go, json/writer.go, yaml/writer.go"), ("table flush", "reporter/reporter.go")], ["error result of Write and Generate"])

p("P22", "Writing a document does not change it beyond ordering its lists",
  "Writing a document in tag-value form leaves every field of every element of the caller's document unchanged, except that its external document references, unpackaged files, packages and package files may be reordered by identifier; in particular no element is added, dropped, duplicated or edited. Writing depends only on the document, so writing it again gives the same bytes.",
  ["inputs", "histories"], "every document, every writer",
  "Tests look at the bytes produced, never at the document afterwards.",
  tv("writer/save_document.go") + tv("writer/save_package.go") + tv("writer/save_file.go"),
  [("renderers", "spdx/v2/*/tagvalue/writer")], ["the caller's document after Write"])

p("P23", "Every model field is serialised to JSON and YAML under its own unique name",
  "In each version's model, every exported field of every element reachable from the document is serialised under a property name unique within its object, no two fields hide each other, and only the fields documented as not part of the JSON schema are excluded; optional fields are omitted only when empty. Hence a JSON or YAML document written by the library decodes to the same field values, given the standard codec.",
  ["programs", "inputs"], "every field of every model type, every value of it",
  "Round-trip tests use one example in which several fields are empty, so a clashing or missing name goes unnoticed.",
  [f"spdx/v2/v{v}/{f}.go" for v in V for f in ("document", "package", "file", "snippet", "creation_info", "relationship", "annotation", "other_license")] + ["spdx/v2/common"],
  [("struct tags", "spdx/v2/*/*.go"), ("custom codecs", "spdx/v2/common")], ["json.Write/json.Read, yaml.Write/yaml.Read"])

with open("/verif/properties.jsonl", "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
