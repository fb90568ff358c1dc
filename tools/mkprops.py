#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as a script so the text is reviewable)."""
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if observe: d["anchors"]["observe_at"]=observe
    P.append(d)

p("P01","Names and string literals survive quoting and unquoting unchanged",
 "Every Unicode string used as a table name part, column name, root output name or string literal value is printed either bare (names only, exactly when it is an ASCII letter followed by letters, digits or underscores) or as one quoted single-line token, and parsing that token gives back exactly the same string. In text, the escapes \\n, \\t, \\r, \\0 and \\u{hex} denote the characters they name, and a backslash before any other character denotes that character.",
 ["inputs"],"all Unicode strings, in every position where a name or a string literal may appear, in both directions",
 "The property is about every sequence of Unicode scalars (control characters, quotes, backslashes, combining marks, non-ASCII); tests sample a few strings.",
 ["src/parser/common.rs","src/textify/types.rs","src/textify/expressions.rs","src/parser/expressions.rs","src/parser/expression_grammar.pest"],
 [("unescape_string","src/parser/common.rs"),("is_identifer / escaped / Name","src/textify/types.rs"),("Name::parse_pair","src/parser/expressions.rs"),("write_literal_value (String)","src/textify/expressions.rs")],
 "text produced by format(), plan returned by parse()")

p("P02","Scalar literals keep exact value, type and nullability",
 "A boolean, i8, i16, i32, i64, fp32, fp64, string or typed-null literal keeps its exact value, its type and its nullability when printed and when parsed, under every literal-type display setting except 'never'; a literal without annotation is a non-nullable i64, fp64, boolean or string. Text whose value does not fit or does not belong to its annotated type (an out-of-range integer, a string annotated i64, an integer annotated boolean, an unannotated null) is rejected with an error, never changed into another value or type.",
 ["inputs","configurations"],"all literal values, all annotated types, both nullabilities, all literal type visibility settings",
 "The value space (all i64, all floats, every value/type pair) cannot be enumerated by examples; silent narrowing only shows at specific magnitudes.",
 ["src/parser/expressions.rs","src/textify/expressions.rs"],
 [("to_int_literal / to_float_literal / to_boolean_literal / to_string_literal / to_null_literal","src/parser/expressions.rs"),("write_literal_value / write_literal_type_suffix / is_default_for_syntax","src/textify/expressions.rs")])

p("P03","Date, time, timestamp and interval literals are exact at their precision",
 "A date, time, timestamp, precisiontime, precisiontimestamp, precisiontimestamptz or interval_day literal denotes exactly the stored count of units at its declared precision: printing then parsing returns the same count, precision and nullability, and parsing computes days or units since the epoch, midnight or zero exactly. Text finer than the precision or than a nanosecond, a leap second, text out of range, a sub-second unit that disagrees with the precision, or an unsupported precision is an error. A stored value that cannot be represented (out of range, unsupported precision, time outside one day, clock or timestamp values counted in picoseconds, interval sub-seconds of a whole second or more) is reported as an error when printed, and no value is silently altered.",
 ["inputs"],"all stored counts and precisions, all date/time/duration strings, both nullabilities",
 "Arithmetic over the full i32/i64 range with calendar conversion: errors live at range limits, negative values, and rounding cases examples miss.",
 ["src/precision.rs","src/parser/expressions.rs","src/textify/expressions.rs"],
 [("SupportedPrecision","src/precision.rs"),("duration_to_precision_units / check_supported_precision / interval_day_from_pair / parse_date_to_days","src/parser/expressions.rs"),("duration_from_precision_units / precision_timestamp_to_string / precision_time_to_string / write_interval_day_to_second_literal / fractional_spec","src/textify/expressions.rs")])

p("P04","Type expressions map one-to-one between text and plan",
 "Every type the text format can write (boolean, i8..i64, fp32, fp64, string, binary, date, time, timestamp, timestamp_tz, interval_year, uuid, precision time/timestamp types and interval_day with precision 0 to 12, list, and user-defined types whose parameters are types or integers), at any nesting depth and with required or nullable marking at every level, parses to exactly the type it names and prints back as the same text. Type text the plan format cannot represent faithfully (unknown names, unsigned integers, a precision outside 0..12, map, struct) is rejected with an error rather than mapped to another type, and a type with unspecified nullability prints with an explicit marker and a reported error.",
 ["inputs"],"all type expressions of any nesting depth, both nullabilities at each level, all precisions",
 "Types nest without bound and every constructor pairs with every nullability and precision; tests cover single examples.",
 ["src/parser/types.rs","src/textify/types.rs","src/parser/expression_grammar.pest"],
 [("parse_simple_type / parse_compound_type / parse_list_type / parse_precision_type / parse_user_defined_type / Nullability::parse_pair / Parameter::parse_pair","src/parser/types.rs"),("Kind::textify / textify_type / Parameters / Nullability::textify","src/textify/types.rs")])

p("P05","Output columns are exactly the emitted columns, Direct iff identity",
 "The columns a relation line lists after its arrow are exactly the columns it outputs, in order: an omitted or direct mapping prints all direct output columns, an explicit mapping prints the mapped ones. Parsing yields a direct mapping exactly when the listed references are the identity over the relation's direct output width (sum of input widths for most relations, join-type dependent for joins, common input width for set operations, inputs plus expressions for projections, groupings plus measures for aggregates) and otherwise the listed indices verbatim; a named-table read keeps its explicit mapping after '|>'.",
 ["inputs","programs"],"all relation trees of any depth, all widths, all output mappings, all join types and set operations",
 "Widths compose through arbitrary trees and the identity test is per width and per relation kind; a few hand-written plans do not cover prefixes, permutations, repeats and zero widths.",
 ["src/parser/relations.rs","src/parser/structural.rs","src/textify/rels.rs"],
 [("make_emit / parse_emit / parse_output / parse_emit_suffix","src/parser/relations.rs"),("RelationParser::build_rel / parse_rel / parse_set_relation","src/parser/structural.rs"),("Relation::emitted / convert_children / join_output_columns / Emitted","src/textify/rels.rs")])

p("P06","Extension declarations form a consistent, lossless table",
 "For every sequence of URN and extension declarations, each anchor denotes one URN, and per kind one name: declaring a URN anchor again differently, declaring an extension anchor of the same kind again, or referring to an undeclared URN anchor is reported as an error, and an earlier declaration is never overwritten. Declarations accepted from a plan or from text are printed completely and unchanged, grouped by kind and ordered by anchor, and returned in the plan ordered by anchor, so that they survive text-to-plan-to-text unchanged.",
 ["histories","inputs"],"all sequences of URN, function, type and type-variation declarations, from text and from plans",
 "The invariant is over the history of insertions (duplicates, conflicts, interleaved kinds and orders), not single insertions.",
 ["src/extensions/simple.rs","src/parser/extensions.rs","src/textify/extensions.rs","src/textify/plan.rs"],
 [("SimpleExtensions::add_extension_urn / add_extension / from_extensions / to_extension_urns / to_extension_declarations / write","src/extensions/simple.rs"),("ExtensionParser::parse_line","src/parser/extensions.rs")])

p("P07","Function and type references resolve uniquely and print unambiguously",
 "Whatever the extension table (of names the text format can write: an identifier, optionally with a signature), a printed function or user-defined type reference, parsed against the same table, resolves to the same anchor (with default options and with anchors always shown), and it shows a signature or anchor only when needed to be unambiguous. In text, a name (bare, with signature, or with anchor) resolves only to a declared extension of that kind whose name matches; an unknown name, an ambiguous name, or an anchor whose declared name differs is an error.",
 ["inputs","configurations"],"all extension tables (including same base name with different signatures, same name under several URNs, signature-less names), all references and spellings",
 "Ambiguity depends on the whole table; the state space of name/URN/signature collisions is not covered by sample tables.",
 ["src/extensions/simple.rs","src/textify/types.rs","src/parser/types.rs","src/parser/expressions.rs"],
 [("lookup_function / find_by_anchor / find_by_name / find_by_base_name / resolve_function / is_name_unique / CompoundName","src/extensions/simple.rs"),("NamedAnchor::lookup / NamedAnchor::textify / Anchor::textify","src/textify/types.rs"),("get_and_validate_anchor","src/parser/types.rs")])

p("P08","Indentation and line order determine the relation tree exactly",
 "Each relation becomes a child of the nearest preceding relation one indent level (two spaces) shallower, children keep their line order, addendum lines attach to the relation they are indented under, and top-level lines become separate plan relations in order; a named root must have exactly one child. A line whose level has no parent, an addendum at top level or after a child relation, or on a root is an error; printing produces a document whose indentation and line order reproduce the same tree.",
 ["inputs","programs"],"all relation forests of any shape and depth and all indentation sequences",
 "Tree reconstruction depends on the whole sequence of indents (jumps, returns to shallower levels, siblings); tests show a few shapes.",
 ["src/parser/structural.rs","src/textify/rels.rs","src/textify/foundation.rs","src/textify/plan.rs"],
 [("IndentedLine::from / TreeBuilder::add_line / get_at_depth / finish / build_plan_rel / build_rel","src/parser/structural.rs"),("Relation::textify / write_children / RelRoot::textify","src/textify/rels.rs"),("IndentStack","src/textify/foundation.rs")])

p("P09","Documents are read section by section, completely, with correct line numbers",
 "A document is accepted only if its sections appear at most once and in the order version, extensions, plan, and every non-blank line is consumed entirely: unknown headers, unexpected lines, repeated version fields, or extra text (other than a // comment) after a complete relation line are errors, never silently skipped. The version section is preserved exactly (numbers, producer, git hash), blank lines and trailing whitespace and line-ending style do not matter, multi-line table reads are equivalent to their single-line form, and an error names the 1-based line (the first line of a multi-line relation) on which it occurs.",
 ["inputs"],"all documents: all section orders, line endings, blank-line placements, junk suffixes, multi-line splits",
 "Every line in every position must be accounted for; tests place junk and blanks in a few places only.",
 ["src/parser/structural.rs","src/parser/chunks.rs","src/parser/extensions.rs","src/textify/plan.rs","src/parser/expression_grammar.pest"],
 [("Parser::parse_plan / next_chunk / parse_line / parse_section_header / parse_version_header / parse_version_detail / section_rank","src/parser/structural.rs"),("ChunkCursor","src/parser/chunks.rs")])

p("P10","Malformed relations are rejected, never repaired",
 "Parsing fails with an error, instead of dropping or inventing data, when a relation has the wrong number of inputs for its kind (reads and leaf extensions none, filter/project/aggregate/sort/fetch/single extensions one, join and cross two, set at least two), when set inputs have different widths, when a named argument is repeated or (for fetch and join) unknown, when a fetch limit or offset is a negative integer literal, when an aggregate output is neither a measure nor a grouping expression, or when addenda are not allowed or over-counted (more than one enhancement, a missing or repeated table detail). Well-formed relations of every kind are accepted.",
 ["inputs"],"all relation kinds with every child count, every argument combination and addendum list",
 "The rejection rules are cross products of relation kind, child count, widths and argument lists.",
 ["src/parser/relations.rs","src/parser/structural.rs","src/parser/common.rs","src/parser/extensions.rs"],
 [("expect_one_child / parse_set_relation_pair / CountMode / OffsetMode / parse_aggregate_output","src/parser/relations.rs"),("ParsedNamedArgs","src/parser/common.rs"),("Addenda::into_standard_advanced_extension / into_extension_read_parts / TreeBuilder","src/parser/structural.rs"),("ExtensionRelationType::validate_child_count","src/parser/extensions.rs")])

p("P11","Relation and expression contents are carried faithfully both ways",
 "Every relation and expression the text format supports (reads incl. virtual tables, filter, project, sort, fetch, join, set, cross; field references, function calls, casts, if-then) parses to exactly the plan fields its text states, with operands, clauses, rows, sort fields and inputs in the written order and no others set, and prints back as that text. Each join type, set operation, sort direction and cast failure mode has exactly one spelling, used in both directions.",
 ["inputs","programs"],"all supported relation and expression trees of any depth and arity, all enum values",
 "Field-by-field fidelity for unboundedly nested expressions and all enum values; swaps of like-typed operands escape symmetric round-trip examples.",
 ["src/parser/relations.rs","src/parser/expressions.rs","src/textify/rels.rs","src/textify/expressions.rs","src/textify/values.rs","src/parser/common.rs"],
 [("parse_pair_with_context impls","src/parser/relations.rs"),("Expression/ScalarFunction/Cast/IfThen::parse_pair","src/parser/expressions.rs"),("Relation::from_*","src/textify/rels.rs"),("as_enum_str","src/textify/values.rs"),("sort_direction_from_str","src/parser/common.rs")])

p("P12","Aggregate grouping sets and measures keep their meaning",
 "For every list of grouping sets, parsing yields the distinct grouping expressions in order of first appearance, one grouping per written set referring to them in the written order, and one measure per output function call that is not a grouping expression, with output indices counting groupings first and measures after; the empty set is written '_'. Printing an aggregate in either the current or the deprecated per-grouping representation shows the same grouping sets and outputs, so the written sets and outputs survive text-to-plan-to-text.",
 ["inputs"],"all lists of grouping sets with shared, repeated and empty sets, all orders of outputs, both plan representations",
 "Deduplication and index assignment depend on the full list of sets; counterexamples need repeats across sets.",
 ["src/parser/relations.rs","src/textify/rels.rs"],
 [("build_grouping_fields / parse_aggregate_output / parse_grouping_sets","src/parser/relations.rs"),("from_aggregate / get_grouping_sets","src/textify/rels.rs")])

p("P13","Parsing any text returns a plan or an error, never panics",
 "For every input string (nesting limited only by the stack) and every extension registry, parsing terminates normally and returns either a plan or an error value; it never panics, whatever the numbers, anchors, types, names, line endings or malformed fragments in the text.",
 ["inputs"],"all input strings",
 "Absence of panics must hold on every malformed input; tests feed mostly well-formed text.",
 ["src/parser/common.rs","src/parser/structural.rs","src/parser/relations.rs","src/parser/expressions.rs","src/parser/types.rs","src/parser/extensions.rs","src/parser/chunks.rs"],
 [("RuleIter (Drop) / unwrap_single_pair / unescape_string","src/parser/common.rs"),("FieldIndex::parse_pair / to_int_literal / FunctionReference::parse_pair","src/parser/expressions.rs"),("parse_simple_type / Parameter::parse_pair / Anchor parsing","src/parser/types.rs"),("ChunkCursor","src/parser/chunks.rs")])

p("P14","Formatting any plan terminates, and error marks match reported errors",
 "For every plan, however incomplete or invalid, and every option set, formatting returns text and a list of errors without panicking. A plan made only of supported complete parts prints with no error mark '!{...}' and an empty error list, and a text with an error mark always comes with a reported error. Whenever a required part is missing (input, condition, expression, type, argument value, table name or schema), or a part is unknown, out of range or unsupported (relation and expression kinds, literals, types, enum values, field and function references, emitted columns, nested field paths), the error list is non-empty.",
 ["inputs","configurations"],"all plan messages, including ones with missing, unknown or out-of-range fields, and all option values",
 "The plan space includes every partially filled message; tests construct a few broken plans.",
 ["src/textify/foundation.rs","src/textify/plan.rs","src/textify/rels.rs","src/textify/expressions.rs","src/textify/types.rs","src/lib.rs"],
 [("Scope::failure / expect / push_error / ErrorAccumulator / MaybeToken / ErrorToken","src/textify/foundation.rs"),("Relation::from_* / Emitted","src/textify/rels.rs"),("Literal::textify / FieldReference::textify / RexType::textify","src/textify/expressions.rs")])

p("P15","Extension registry lookups return exactly what was registered",
 "For every sequence of registrations, a name within a namespace (relation, enhancement, optimization, table) and a type URL within a namespace are bound at most once: a conflicting registration is rejected with an error and leaves the registry as it was, and namespaces never interfere. Parsing by name and decoding by type URL use exactly the handler registered for that name or URL; an unregistered name or URL, or a failing handler, surfaces as an error, and registered payloads survive text-to-plan-to-text with the same name and arguments.",
 ["histories","inputs"],"all registration histories over all namespaces, all lookups",
 "Conflict rules are over histories of registrations across namespaces and two key spaces.",
 ["src/extensions/registry.rs","src/textify/addenda.rs","src/parser/relations.rs","src/extensions/any.rs"],
 [("ExtensionRegistry::register_* / parse_* / decode_*","src/extensions/registry.rs"),("AddendumLines","src/textify/addenda.rs")])

p("P16","Extension argument lists keep order, names, kinds and are read once",
 "An extension's positional arguments, named arguments and output columns are passed to its handler exactly as written (order, names, kinds and values) and printed back as the same list, one-element tuples included. The argument reader hands out each named argument once with its exact value, reports a missing or wrongly typed one as an error, and its completeness check fails exactly when some provided argument was never read.",
 ["inputs","histories"],"all argument lists of any nesting and all sequences of reads",
 "Reader state depends on the sequence of accesses; argument values nest without bound.",
 ["src/extensions/args.rs","src/parser/extensions.rs","src/textify/extensions.rs"],
 [("ArgsExtractor / ExtensionArgs / ExtensionValue / TryFrom impls","src/extensions/args.rs"),("ExtensionArgs parsing","src/parser/extensions.rs"),("ExtensionValue::textify / ExtensionColumn::textify","src/textify/extensions.rs")])

p("P17","Command-line conversion picks the right format and loses nothing",
 "Converting between any two of text, JSON, YAML and binary protobuf yields the same plan as the library would, the format being the requested one or else the one implied by the file extension (unknown extensions and unknown format names are errors). Input that cannot be read as its format fails and writes nothing; when formatting to text reports errors the text is still written but the outcome is a failure. Validation succeeds exactly when the text parses and re-formats without errors.",
 ["inputs","configurations"],"all plans, all pairs of input and output formats, all file extensions and flags",
 "The matrix of formats, flags and inputs is larger than the tested pairs.",
 ["src/cli.rs","src/json.rs","src/main.rs"],
 [("Cli::run_with_io / run_convert / run_validate / Format","src/cli.rs"),("parse_json","src/json.rs")])

p("P18","Accepted text has a stable canonical form that means the same plan",
 "For every text the parser accepts whose field references are within the columns available and whose interval values are in range, formatting the resulting plan reports no errors, the formatted text parses to the identical plan, and formatting again gives the identical text. This holds for the default and for the most verbose output options.",
 ["inputs","configurations"],"all texts the parser accepts (nullability explicitly unspecified with the ⁉ marker and an all-zero version excepted), default and verbose options",
 "It is a statement about every accepted document, the closure of all grammar features in combination.",
 ["src/lib.rs","src/parser","src/textify"],
 [("parse / format / format_with_options","src/lib.rs"),("grammar","src/parser/expression_grammar.pest")])

with open("/verif/properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+"\n")
print(len(P), [ (d["id"],len(d["title"])) for d in P if len(d["title"])>80])
