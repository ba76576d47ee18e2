#!/usr/bin/env python3
"""Writes /verif/properties.jsonl from the table below (kept here so that the
text stays reviewable)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []
def prop(id, title, statement, over, text, why, files, observe, mechanism=()):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files,
                    "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                    "observe_at": observe, "hook_needed": None},
    })
SY = "fluent.syntax/fluent/syntax/"
RT = "fluent.runtime/fluent/runtime/"

prop("C01", "Parsing is total, terminating and a pure function of the text",
 "Parsing any Unicode text, as a resource or as a single entry, with or without spans, terminates and returns a tree; it never raises. The tree depends on the text and the span option only: reusing one parser object, or parsing other texts in between, changes nothing, and separately parsed trees share no mutable part.",
 ["inputs", "histories"], "every source text, and every sequence of parse calls on one parser object",
 "Tests parse some 90 fixture files, each once with a fresh parser; the guarantee is about every text and every call history.",
 [SY+"parser.py", SY+"stream.py", SY+"__init__.py"], ["FluentParser.parse", "FluentParser.parse_entry", "fluent.syntax.parse"],
 [("junk recovery", "FluentParser.get_entry_or_junk"), ("cursor", "FluentParserStream")])
prop("C02", "Sources parse to exactly the tree the Fluent Syntax 1.0 grammar gives",
 "Every message, term and comment that is well-formed under the Fluent Syntax 1.0 grammar parses to exactly the entry it denotes - identifiers, dedented text, placeables, verbatim literals, selectors, variants and default, call arguments, attributes in order, attached comment - in every layout the grammar permits. Nothing that the grammar rejects is accepted as a message, term or comment.",
 ["inputs"], "every source text; every layout (blanks, line breaks, indentation, comments) of every abstract entry",
 "The fixtures hold one layout of each construct; grammar conformance quantifies over all texts, all code points and all combinations of constructs.",
 [SY+"parser.py", SY+"stream.py"], ["FluentParser.parse"], [("recursive descent", "FluentParser.get_*"), ("dedentation", "FluentParser.dedent")])
prop("C03", "A syntax error costs its own entry and nothing else",
 "A malformed entry becomes junk that holds its source text verbatim and stops at the first later line, at or after the point of failure, that begins like an entry (a letter, '-', '#', '//' or '[['), or at the end of the text. Every entry before and after the junk is parsed exactly as it would be without it, and a comment directly above junk stays as a standalone comment.",
 ["inputs"], "every placement of every syntax error among well-formed entries, and every text",
 "Fixtures contain a handful of broken entries; containment is about every error at every position with every neighbour.",
 [SY+"parser.py", SY+"stream.py"], ["FluentParser.parse"], [("resynchronisation", "FluentParserStream.skip_to_next_entry_start"), ("comment stash", "FluentParser.parse")])
prop("C04", "Spans point at exactly the source text of each node",
 "With spans on, every node carries a span; the source slice of an identifier, literal, comment, junk or text node is that node's own text, and the slice of any other node starts and ends with its own delimiters and parses back to an equal node. Children lie inside their parents in source order without overlap, and the text between consecutive entries is blank, so entries and blanks tile the whole source.",
 ["inputs"], "every source text, in particular every mix of line endings, indentation and non-BMP characters",
 "Spans are compared for the structure fixtures only; editors and the syntax highlighter slice by them on arbitrary text.",
 [SY+"parser.py", SY+"stream.py", SY+"ast.py"], ["node.span"], [("with_span", "parser.with_span"), ("Span", "ast.Span")])
prop("C05", "Line-ending style and the span option never change the tree",
 "Writing any line break as CRLF instead of LF, in all or only some lines, gives the same tree apart from span offsets and the verbatim text of junk. Switching spans off gives the same tree, including junk and its annotations, without spans.",
 ["inputs", "configurations"], "every source text and every assignment of LF or CRLF to its line breaks, spans on and off",
 "Two CRLF fixtures exist; the equivalence ranges over every text and every subset of its line breaks.",
 [SY+"stream.py", SY+"parser.py"], ["FluentParser(with_spans=...).parse"], [("CRLF handling", "ParserStream.char_at/next/peek")])
prop("C06", "Every junk entry says what is wrong and where",
 "Each junk entry carries exactly one annotation: its code and arguments name the rule that the text breaks first, its message is the human-readable text of that code with the arguments filled in, and its position is the offset at which parsing failed, kept inside the junk. Well-formed entries carry none.",
 ["inputs"], "every malformed source text",
 "Fixtures pin some codes at some positions; the pairing of code, arguments and offset must hold for each malformed text.",
 [SY+"errors.py", SY+"parser.py"], ["Junk.annotations"], [("ParseError", "errors.get_error_message")])
prop("C07", "Serializing a parsed resource and parsing it again loses nothing",
 "For every text, parsing, serializing and parsing again gives an equal resource (junk aside), and the serialized text is a fixed point: serializing it again reproduces it byte for byte. When junk is kept, its text is written back verbatim and the other entries are unaffected.",
 ["inputs"], "every source text, with and without junk kept, whole resources and single entries",
 "The serializer tests pin about 60 texts; the round trip must hold for each tree the parser can produce.",
 [SY+"serializer.py", SY+"parser.py"], ["fluent.syntax.serialize", "FluentSerializer.serialize", "FluentSerializer.serialize_entry"],
 [("layout choice", "serializer.should_start_on_new_line"), ("indentation", "serializer.indent_except_first_line")])
prop("C08", "Trees built in code serialize to Fluent that means the same",
 "A syntax tree assembled through the public node constructors in any shape that some Fluent source denotes serializes to text which parses without junk to an equal tree, whatever nesting, order of entries, comments, attributes, variants, arguments and multi-line text it has. The same holds for a tree obtained by editing a parsed one.",
 ["inputs", "programs"], "every well-formed syntax tree within the bounds",
 "Tests serialize trees that came out of the parser from a fixed text; tools build and edit trees freely.",
 [SY+"serializer.py", SY+"ast.py"], ["fluent.syntax.serialize"], [("serialize_*", "serializer.py")])
prop("C09", "A tree survives the trip through JSON unchanged",
 "Turning any tree into its JSON form and back yields a tree equal in every field, spans, annotations and node types included; the JSON form consists of plain JSON values only and is not altered by, nor shares state with, the tree. A conversion hook sees each node object exactly once, children before parents.",
 ["inputs"], "every tree the parser yields and every node type with optional parts present or absent",
 "Tests round-trip a few fixtures; the mapping is reflective over all node types and fields.",
 [SY+"ast.py"], ["BaseNode.to_json", "ast.from_json"], [("reflection", "ast.to_json/from_json")])
prop("C10", "Clones are deep and equality is structural",
 "A clone equals its original and shares no node or list with it, so that no edit of either shows in the other. Comparing trees is reflexive and symmetric, ignores exactly the fields it is told to ignore (spans by default) and otherwise tells apart any two trees that differ in a node type, a field, a list's length or the order of its items.",
 ["inputs"], "every tree and every single edit of it; every pair of trees within the bounds",
 "Tests compare a few hand-picked pairs; the laws quantify over all trees and all edits.",
 [SY+"ast.py"], ["BaseNode.clone", "BaseNode.equals"], [("scalars_equal", "ast.py")])
prop("C11", "Visitors reach every node once; transformers edit exactly what they say",
 "A visitor that does not stop descent sees every node of a tree exactly once, parents before children, siblings in order, and dispatches on the exact node type; a node type whose handler does not descend hides exactly its subtree. A transformer applies in place: returned nodes replace the visited ones, nodes for which nothing is returned disappear from their list or field, and everything else is left as it was.",
 ["inputs", "programs"], "every tree and every choice of handlers (descend, stop, replace, remove) per node type",
 "Tests use two or three visitors on one text; the contract is over all trees and handler combinations.",
 [SY+"visitor.py"], ["Visitor.visit", "Transformer.visit"], [("generic_visit", "visitor.py")])
prop("C12", "Literals decode to the value they denote",
 "A string literal decodes to its text with each escape replaced exactly once - an escaped backslash or quote by that character, four- and six-digit Unicode escapes by that code point, escapes of surrogates or beyond the last code point by U+FFFD - and all other characters unchanged. A number literal keeps its exact source text and decodes to its value and its number of fraction digits. Formatting uses the same values: strings in text, as selectors and as arguments, numbers as integers or floats by their spelling.",
 ["inputs"], "every string literal body within the bounds, every code point and every number literal within the bounds",
 "Tests decode some twenty literals; escapes interact with their neighbours and cover a million code points.",
 [SY+"ast.py", SY+"parser.py", RT+"resolver.py"], ["StringLiteral.parse", "NumberLiteral.parse", "FluentBundle.format_pattern"], [("escape regexp", "ast.StringLiteral.parse")])
prop("C13", "The parser stream's cursor and look-ahead obey their contract",
 "On every text, looking ahead never moves the cursor, advancing moves it by exactly one character with CRLF counting as one, and after every sequence of stream operations the cursor, the look-ahead, the current character and each returned blank or character are those of a plain cursor over the text. Look-ahead dropped by an advance or a reset has no later effect.",
 ["inputs", "histories"], "every sequence of stream operations up to the depth bound on every short text",
 "The stream tests walk one text of four letters; the operations are stateful and interact.",
 [SY+"stream.py"], ["fluent.syntax.FluentParserStream"], [("peek_offset", "ParserStream")])
prop("C14", "Entries parse independently of the entries around them",
 "When the second of two texts begins with a well-formed entry, parsing them joined by a blank line gives the entries of the first followed by the entries of the second, each equal to what it parses to alone (junk that ends the first text may take in the blank line). Parsing a single entry returns the first entry of the text that is not a comment - the same one full parsing finds, without an attached comment - or the first junk; junk when the text has no entry.",
 ["inputs"], "every pair and triple of texts within the bounds",
 "Tests parse single texts; independence relates the parses of different texts.",
 [SY+"parser.py"], ["FluentParser.parse", "FluentParser.parse_entry"], [("entry loop", "FluentParser.parse")])

prop("C15", "Formatting never raises: every failure is an error plus fallback text",
 "Formatting any pattern obtained from a bundle, with any arguments, returns a string and a fresh list of errors and never raises, whatever is missing, cyclic, wrongly typed, out of range or unformattable. A run that had to fall back anywhere reports at least one error, a run without failures reports none, and the parts that did not fail are rendered as usual.",
 ["inputs", "fault_sequences"], "every resource and argument set within the bounds, including failing functions, failing values and failing options",
 "Tests try one failure at a time in one place; the guarantee covers each failure in each position and their combinations.",
 [RT+"bundle.py", RT+"resolver.py", RT+"types.py"], ["FluentBundle.format_pattern"], [("error collection", "ResolverEnvironment.errors"), ("catch-all", "FluentBundle.format_pattern")])
prop("C16", "Formatting yields the value the Fluent semantics assigns",
 "For every resource, pattern and argument set, the formatted string and the sequence of reported errors are those of the Fluent resolution rules: text verbatim, literals, variables, message and attribute references, terms, functions, selections and nested placeables evaluated in order, with the documented fallback text and error for each reference that cannot be resolved.",
 ["inputs", "programs"], "every set of messages and terms built from the pattern alphabet within the bounds, with every argument set of the alphabet",
 "Tests format some 150 fixed messages; the meaning of a pattern depends on everything it references.",
 [RT+"resolver.py", RT+"prepare.py", RT+"bundle.py", RT+"utils.py"], ["FluentBundle.format_pattern"], [("compile", "prepare.Compiler"), ("evaluate", "resolver.*.__call__")])
prop("C17", "Bidi isolation wraps each interpolation and changes nothing else",
 "With isolation on, every placeable that is not a plain string literal and is not alone in its pattern is wrapped in one FSI/PDI pair, so marks are always balanced and properly nested; text, string literals and lone placeables are not wrapped. Unless a text with interpolations is itself a selector or function argument, removing the marks gives exactly the output and errors obtained with isolation off.",
 ["inputs", "programs", "configurations"], "every pattern of the alphabet, isolation on and off, results short of the expansion limits",
 "Tests check eight messages; the marks interact with nesting, references, selection and errors.",
 [RT+"resolver.py", RT+"prepare.py"], ["FluentBundle(use_isolating=...).format_pattern"], [("NeverIsolatingPlaceable", "prepare.Compiler.compile_Pattern")])
prop("C18", "Selection picks the first matching variant, else the default",
 "A selector chooses the first variant in source order whose key equals its value, where numbers compare numerically whatever their type, number or string literal or argument, and a keyword key also matches a number whose value has that CLDR plural category (ordinal category when the number asks for it) in the bundle's locale; with no match, or a failed selector, the default variant is chosen. Selectors may be variables, literals, functions or term attributes.",
 ["inputs", "configurations"], "every ordered variant list over the key alphabet, every selector value of the alphabet, every locale of the list",
 "Tests select in English, French and one or two others with a few numbers; categories, types and variant order combine.",
 [RT+"resolver.py", RT+"bundle.py"], ["FluentBundle.format_pattern"], [("match", "resolver.match"), ("plural rules", "FluentBundle._plural_form/_ordinal_form")])
prop("C19", "Cycles and runaway expansion are cut off within fixed limits",
 "A reference cycle of any shape - messages, attributes, terms, selectors, arguments or variants, with or without surrounding text - and of any length within the interpreter's recursion depth ends in a cyclic-reference error and fallback text, never in endless recursion, while an acyclic pattern used several times is not mistaken for a cycle. A format call expands at most 1000 parts, over all patterns with placeables it enters, and no interpolated string longer than 2500 characters (isolation marks included); beyond that it returns '{???}' with an error, and up to the limits it formats normally.",
 ["inputs", "programs"], "every reference graph on a few entries, and every expansion size around the limits in each kind of position",
 "Two bomb tests and three cycles exist; cycles and budgets must be caught in each position and combination.",
 [RT+"resolver.py"], ["FluentBundle.format_pattern"], [("active_patterns", "ResolverEnvironment"), ("MAX_PARTS, MAX_PART_LENGTH", "resolver.Pattern, resolver.resolve")])
prop("C20", "A bundle's answers depend on its resources, not on earlier calls",
 "After any sequence of adding resources, looking up and formatting, has_message, get_message and formatting answer as a fresh bundle given the same resources would: the first definition of an identifier wins unless overriding was asked for, in which case the latest wins at once. Messages and terms have separate namespaces, terms and attributes are not reachable as messages, and a missing message raises LookupError.",
 ["histories"], "every sequence of operations up to the depth bound over colliding resources, with and without overrides",
 "Tests perform one add and one lookup per bundle; compiled-entry caching makes the order of calls matter.",
 [RT+"bundle.py"], ["FluentBundle.add_resource", "FluentBundle.has_message", "FluentBundle.get_message", "FluentBundle.format_pattern"], [("compile cache", "FluentBundle._compiled/_lookup")])
prop("C21", "Formatting has no side effects on what it is given",
 "Adding a resource to bundles and formatting leave the resource tree, the argument mapping and its values, number and date options, the functions mapping and the locale data unchanged. Several bundles may share one resource, one argument mapping and one set of functions, and what one bundle does never shows in another.",
 ["histories", "inputs"], "every interleaving of operations on two or three bundles sharing resources, arguments and functions",
 "Tests use a fresh bundle and resource each; sharing is where aliasing shows.",
 [RT+"bundle.py", RT+"prepare.py", RT+"types.py", RT+"builtins.py"], ["FluentBundle", "FluentResource", "fluent_number", "fluent_date"], [("compile copies", "prepare.Compiler.compile"), ("clone_pattern", "types.clone_pattern")])
prop("C22", "Terms see only their own arguments",
 "Inside a term's value or attribute, a variable denotes the literal passed by that reference and is otherwise silently its bare name: the caller's arguments, and those of enclosing or sibling term references, are never visible. After the reference the caller's own arguments are back in force, positional arguments to a term are ignored with an error, and inside a message referenced from a term the term's arguments apply.",
 ["inputs", "programs"], "every nesting of term and message references within the bounds, with every argument set",
 "Tests nest one level; scoping must hold for each nesting and after each failure.",
 [RT+"resolver.py"], ["FluentBundle.format_pattern"], [("scope", "ResolverEnvironment.modified_for_term_reference")])
prop("C23", "Functions are called as written, once, and failures stay local",
 "A function reference calls the function registered under that name in this bundle, custom ones taking precedence over built-in ones, exactly once per evaluation, with positional and named arguments in order and of the documented types; unselected branches call nothing. An unknown function or one that raises yields the text NAME() and one error - the exception itself when raised - and formatting goes on.",
 ["inputs", "fault_sequences"], "every call shape within the bounds and every subset of calls that fail",
 "Tests call five functions in fixed shapes; evaluation count, order and failure position vary freely.",
 [RT+"resolver.py", RT+"bundle.py", RT+"builtins.py"], ["FluentBundle(functions=...)", "FluentBundle.format_pattern"], [("call", "resolver.FunctionReference")])
prop("C24", "Numbers are formatted as their options and the locale demand",
 "A finite number, from code or from NUMBER() in a message, is rendered in the bundle's locale with its style, grouping, integer, fraction and significant digits, currency and currency display as ECMA-402 defines for those options (exact ties to even); options given in a message are merged over those given in code, option by option. Wrapping keeps the numeric value and type family, never alters the wrapped object, and unknown option names, styles and displays are refused.",
 ["inputs", "configurations"], "every combination of option values of the alphabet, on every number and locale of the lists",
 "Tests set one option at a time in en-US; options interact with each other, with the value and with the locale's pattern.",
 [RT+"types.py"], ["fluent_number", "FluentNumber.format", "FluentBundle.format_pattern"], [("merge_options", "types.py"), ("_apply_options", "types.FluentNumber")])
prop("C25", "Dates and times show the right instant in the right zone and style",
 "A date or datetime, from code or from DATETIME() in a message, is rendered in the bundle's locale with the date and time styles given; a datetime is shown in its own zone, or converted to the requested time zone, a naive one counting as UTC. Options given in a message are merged over those given in code; wrapping keeps every field, the time zone and the instant of the value; a time style on a plain date is refused.",
 ["inputs", "configurations"], "every combination of date style, time style, zone, value and locale of the lists",
 "Tests use one summer afternoon, en-US and en-GB; zones, day boundaries and styles interact.",
 [RT+"types.py"], ["fluent_date", "FluentDateType.format", "FluentBundle.format_pattern"], [("_ensure_datetime_tzinfo", "types.py"), ("merge_options", "types.py")])
prop("C26", "Localization falls back to the first locale that has the value",
 "Formatting by identifier uses the first bundle, in locale order and then in the loader's order, whose message has a value, with the rules of that locale (or, if unknown, of the first known one after it) and the given functions, and returns the identifier itself when none has; errors while formatting do not cause a fallback. The answer does not depend on which identifiers were asked for earlier, and each bundle is loaded at most once and only when an earlier one did not suffice. A failure of the loader is raised to the caller whose answer needs it, for as long as it lasts, and does not change later answers.",
 ["histories", "configurations"], "every distribution of messages over locales, roots and files within the bounds, every sequence of queries up to the depth bound, and every point of failure of the loader",
 "One test with three locales asks each message once, in order; lazy caching depends on the order of queries.",
 [RT+"fallback.py", RT+"bundle.py"], ["FluentLocalization.format_value", "AbstractResourceLoader.resources"], [("bundle cache", "FluentLocalization._bundles")])
prop("C27", "The file loader returns exactly the resources that exist, in order",
 "For each root in order, the loader yields the parsed contents of exactly those requested files that exist as files, in the order requested, with the locale substituted in the path and the text decoded as UTF-8 with its line breaks intact; a root with none of them yields nothing. Unreadable content is reported to the caller rather than replaced or skipped, and nothing is cached, so a changed file shows on the next load.",
 ["configurations", "fault_sequences"], "every presence pattern of files over roots, locales and resource names within the bounds, with missing, empty, directory and undecodable entries",
 "Three tests replace the file system by a dictionary; real directories, several roots and faults are not covered.",
 [RT+"fallback.py"], ["FluentResourceLoader.resources"], [("root loop", "FluentResourceLoader.resources")])
prop("C28", "Threads sharing a bundle or localization get the sequential answers",
 "When several threads format through one bundle or one localization object at the same time, every call returns exactly the string and errors it would return alone and none raises, in every interleaving. The locale order used by later calls is unaffected by the race, and no bundle is skipped or loaded twice.",
 ["schedules"], "every interleaving, up to the preemption bound, of two or three threads with one or two calls each, from a cold cache",
 "No test starts a thread; lazily filled caches are only contended under particular schedules.",
 [RT+"fallback.py", RT+"bundle.py", RT+"resolver.py", RT+"types.py"], ["FluentBundle.format_pattern", "FluentLocalization.format_value"], [("lazy caches", "FluentBundle._lookup, FluentLocalization._bundles")])
prop("C29", "Highlighting reproduces the source character for character",
 "For every text the Pygments lexer terminates without raising, and its tokens, concatenated, are the text itself: each token's offset is where its text stands, offsets ascend without gap or overlap. Malformed input is highlighted too.",
 ["inputs"], "every source text",
 "Three snippets are tested; the token stream is rebuilt from spans of arbitrary, also broken, syntax trees.",
 ["fluent.pygments/fluent/pygments/lexer.py", SY+"parser.py"], ["FluentLexer.get_tokens_unprocessed", "FluentLexer.get_tokens"], [("gap filling", "FluentLexer.get_tokens_unprocessed")])
prop("C30", "Highlighting classifies each construct by its role",
 "Each comment, identifier, text run, number, string, variable reference, variant key and junk entry of the source is exactly one token with the type documented for that role, and everything between them is punctuation. Nesting, ordering and layout do not change the classification.",
 ["inputs"], "every source text within the bounds",
 "Three snippets are tested, none with placeables, variants or calls.",
 ["fluent.pygments/fluent/pygments/lexer.py"], ["FluentLexer.get_tokens_unprocessed"], [("ATOMIC", "lexer.Tokenizer")])
prop("C31", "Documentation builds cover each release once and link the newest stable",
 "For every set of release tags, the documentation build runs once for the development version of each requested project and once for each of its tagged releases after the cut-off date, from a checkout of that tag; each project's index redirects to 'stable' if it has such a release and to 'dev' otherwise, 'stable' links to the newest of them, and each version's page lists dev, stable and the releases newest first. Tags of other projects and older tags have no effect. A step that fails stops the build. Each version's output keeps only its own documentation_options.js of the static theme files, and the temporary checkout is removed.",
 ["inputs", "histories"], "every tag history within the bounds over the projects, cut-off dates and project selections, and repeated builds over an existing output tree",
 "The documentation tooling has no tests at all.",
 ["fluent.docs/fluent/docs/build.py", "fluent.docs/fluent/docs/tags.py"], ["fluent.docs.build.build", "fluent.docs.tags.get_tag_infos"], [("version table", "build.build")])
prop("C32", "The command-line tools agree with the library",
 "The formatter tool prints the library's serialization of the file's resource, the parse tool prints its JSON tree, and the serialize tool turns such a tree back into the same source, for every UTF-8 file. Piping parse into serialize equals formatting, and formatting a formatted file changes nothing (files with a carriage return that is not part of a CR LF aside).",
 ["inputs"], "every source file within the bounds",
 "The tools have no tests.",
 ["tools/fluentfmt.py", "tools/parse.py", "tools/serialize.py", SY+"ast.py", SY+"serializer.py"], ["tools/fluentfmt.py", "tools/parse.py", "tools/serialize.py"], [("scripts", "tools/*.py")])
if __name__ == "__main__":
    with open(os.path.join(HERE, "properties.jsonl"), "w") as fh:
        for p in P:
            fh.write(json.dumps(p, ensure_ascii=False) + "\n")
    print(len(P), "properties")
