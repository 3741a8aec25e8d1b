# pylint: skip-file
P("P01", "Lexical fidelity",
  "For every text, the tokens the tool works with (kind, value, position, "
  "extent) are exactly those the language manual defines, and a text with a "
  "malformed token is rejected at that token. Numeric literals denote their "
  "exact value, strings their exact content after the manual's escape and "
  "indentation rules, and comments and layout never contribute to a token.",
  ["inputs"], "any text: token mixes, arbitrary layout, comments, literals, "
  "near-miss and random characters",
  "The unit tests lex about forty fixed snippets; the claim is about every "
  "text.", [LEX, "trlc/errors.py"],
  [("TRLC_Lexer.token", LEX), ("triple_quoted_string_value", LEX),
   ("Location.get_end_location", ERR)],
  "differential fuzzing against an independent lexer",
  TRUST + "Numerals up to 4000 digits.", ["lexer token stream"])

P("P02", "No input makes the tool fail internally",
  "For every set of files in every mode (linting, verification, with and "
  "without error recovery), processing terminates with either a result or at "
  "least one reported error, never with an internal failure, and a result "
  "means that no error was reported. Every reported message names one of the "
  "given files and a position inside it.",
  ["inputs", "configurations"],
  "valid programs, programs with token- and character-level damage, "
  "truncated files and arbitrary text, in all modes",
  "Tests run fixed inputs; each crash found here needed a combination no "
  "test has.", [LEX, PAR, AST, LINT, VCG, MAIN, ERR],
  [("Source_Manager.process", MAIN), ("Parser_Base.match", NST),
   ("Message_Handler.error", ERR)],
  "mutation and grammar-based fuzzing with a no-crash / well-formed message "
  "oracle",
  "Random search. Excluded: nesting beyond some hundred levels, exponents "
  "that need gigabytes, solver timeouts.", ["messages", "exit"])

P("P03", "Stored data is exactly what was written",
  "For every accepted program, the set of record objects, their types, "
  "sections, and the value of every component (including frozen values, "
  "nulls, references, enumerations, tuples and arrays) as seen through the "
  "API equal what the sources say. Nothing is lost, invented, converted "
  "inexactly, or reordered.",
  ["programs"], "all well-formed programs: packages, imports, inheritance, "
  "tuples, unions, arrays, sections, literals in every notation",
  "Tests compare a few fixed dumps; the claim quantifies over programs and "
  "values.", [PAR, AST, LEX],
  [("Parser.parse_value", PAR), ("Record_Object.assign", AST),
   ("Expression.to_python_object", AST)],
  "constructive generation of programs with known meaning",
  TRUST, ["symbol table", "to_python_dict"])

P("P08", "Check expressions are typed statically",
  "A check expression is accepted exactly if it is well-typed by the "
  "manual's rules: operand types of every operator and function, arity, "
  "restricted use of null, static exponents and regular expressions, names "
  "and fields that exist, quantification over arrays only, and a Boolean "
  "result. Ill-typed expressions are rejected even if never evaluated.",
  ["programs"], "well-typed expressions with an operand, operator, name, "
  "argument or field exchanged, over random record types",
  "Tests hold one example per rule; combinations of operator and operand "
  "type are thousands.", [PAR, AST],
  [("Expression.ensure_type", AST), ("Binary_Expression.__init__", AST),
   ("Parser.parse_name / parse_builtin", PAR)],
  "differential testing against an independent type checker",
  TRUST + "Skipped where the manual is silent: equality of two separately "
  "declared array types, mixing String and Markup_String in equality.",
  ["accept / reject"])

P("P09", "Arithmetic, comparison and logic are exact",
  "For every check expression over numbers and Booleans the verdict is the "
  "mathematically exact one: unbounded integers, exact rationals, floor "
  "division, remainder with the sign of the dividend, exact powers, rounding "
  "half away from zero, closed range tests, conditional expressions.",
  ["programs", "inputs"], "random expressions over random component values, "
  "also compared with their own exact value",
  "Tests evaluate a few dozen constants; the claim is over all operands, "
  "signs and nestings.", [AST, PAR, "trlc/math.py"],
  [("Binary_Expression.evaluate", AST), ("Unary_Expression.evaluate", AST),
   ("remainder, round_nearest_away", "trlc/math.py")],
  "differential testing against an independent evaluator (pinned values)",
  TRUST + "Exponents up to 64.", ["check messages"])

P("P10", "String, array, quantifier and reference semantics",
  "For every check expression over strings, arrays, tuples, enumerations and "
  "record references the verdict is the manual's: concatenation, length, "
  "prefix, suffix, substring, regular expression match, membership, "
  "indexing, universal and existential quantification, field access through "
  "references and unions, and equality by value (references by identity).",
  ["programs", "inputs"], "random expressions over random record types and "
  "values, several objects per program",
  "Tests sample single operators on fixed values.", [AST, PAR],
  [("Quantified_Expression.evaluate", AST),
   ("Field_Access_Expression.evaluate", AST),
   ("Binary_Expression.evaluate", AST), ("Value.__eq__", AST)],
  "differential testing against an independent evaluator", TRUST,
  ["check messages"])

P("P11", "Null, short-circuit and evaluation errors",
  "A null may only take part in equality tests: any other evaluated use, a "
  "null dereference, a division by zero or an index out of range is reported "
  "as an error and makes processing fail, while operands skipped by "
  "short-circuit operators or not chosen by a conditional are never "
  "evaluated. An evaluation error ends the checks of that object only.",
  ["programs", "inputs"], "expressions over mostly optional components with "
  "random null patterns, several checks and objects",
  "Tests have single null examples; guards and their combinations are "
  "unbounded.", [AST, MAIN],
  [("Binary_Expression.evaluate", AST),
   ("Source_Manager.perform_checks", MAIN),
   ("Conditional_Expression.evaluate", AST)],
  "differential testing against an independent evaluator", TRUST,
  ["check messages", "error count"])

P("P12", "Expression grammar and precedence",
  "A token sequence is accepted as an expression exactly if it is in the "
  "manual's grammar (no mixing of and/or, no chained comparison, xor or "
  "implies, unary operators only where allowed), and it means what that "
  "grammar's precedence and left-associativity say.",
  ["inputs"], "operator chains with parentheses and prefix operators "
  "anywhere, and token-level mutations of expressions",
  "Tests contain about ten precedence examples.", [PAR],
  [("Parser.parse_expression ... parse_primary", PAR)],
  "differential testing against an independent parser", TRUST,
  ["accept / reject", "check messages"])

P("P06", "Every rule about type declarations and checks is enforced",
  "A program in which exactly one declaration (record, tuple or enumeration "
  "type, component, freezing, union, array bound, check block) breaks a rule "
  "of the manual is rejected: an error is reported inside that declaration, "
  "no check is evaluated and no result is returned. The same program without "
  "the violation is accepted.",
  ["programs", "rule violations"], "well-formed random packages with about "
  "seventy kinds of single violations at a random declaration",
  "Each rule has one or two golden tests with one shape of declaration; the "
  "claim is over every place a rule applies to.", [PAR, AST, NST],
  [("Parser.parse_record_declaration ... parse_check_block", PAR),
   ("Parser.parse_tuple_declaration", PAR),
   ("Record_Type.is_frozen, Tuple_Type", AST),
   ("Symbol_Table.register", AST)],
  "fault-seeding grammar fuzzing (valid program plus one violation)",
  TRUST + "Known finding: references in frozen values of types without "
  "objects are not checked.", ["messages", "result"])

P("P07", "Every rule about objects and values is enforced",
  "A record object whose type, name, component list or one of whose values "
  "breaks a rule of the manual (unknown, duplicate, frozen or missing "
  "component, abstract or foreign type, value of another type at any depth, "
  "array length, tuple shape, unknown or incompatible reference, clashing "
  "names) is rejected with an error inside that object and no result. The "
  "same object without the violation is accepted.",
  ["programs", "rule violations"], "well-formed random programs with one "
  "violation at a random object and a random depth of a value",
  "Golden tests show one violation each, mostly for Integer components of "
  "direct objects.", [PAR, AST],
  [("Parser.parse_record_object_declaration", PAR),
   ("Parser.parse_value", PAR),
   ("Record_Reference.resolve_references", AST),
   ("Symbol_Table.simplified_name", AST)],
  "fault-seeding grammar fuzzing (valid program plus one violation)",
  TRUST + "Known finding of P02: array length errors still return a result.",
  ["messages", "result"])

P("P13", "Which checks run, and what they report",
  "For every object, exactly the checks of its type, its ancestors and the "
  "tuples in its values are evaluated in declaration order; each false check "
  "yields one message with the declared text, severity and details, at the "
  "declared anchor or else the object. A fatal failure ends the checks of "
  "that object only, and a result is returned exactly if there was no error.",
  ["programs", "inputs"], "random hierarchies with nested tuples, arrays of "
  "tuples and many check blocks over random objects",
  "Tests have single-level examples; order, inheritance, severity and "
  "nesting combine freely.", [AST, MAIN, PAR, ERR],
  [("Record_Object.perform_checks", AST), ("Check.perform", AST),
   ("Composite_Type.iter_checks", AST), ("Message_Handler.check", ERR)],
  "model-based testing of message histories", TRUST, ["check messages"])

P("P04", "Which token sequences are a value of a type, and which value",
  "For every component type (numbers, strings, Booleans, enumerations, "
  "references, arrays, and tuples in either form, nested at will) a token "
  "sequence is accepted as its value exactly if the manual's grammar and "
  "typing rules allow it, and the stored value, including fields left out "
  "at the end of a separator tuple, is the one it spells.",
  ["programs", "inputs"], "values of random types, the same with one to "
  "three token-level changes, and values of other types",
  "Tests have a few tuples with fixed values; the claim is over all types "
  "and token sequences.", [PAR, AST],
  [("Parser.parse_value", PAR), ("Parser.parse_qualified_name", PAR),
   ("Tuple_Type.iter_sequence", AST), ("Array_Aggregate", AST)],
  "differential testing against an independent value parser",
  TRUST + "Trailing commas in arrays count as accepted.",
  ["accept / reject", "stored values"])

P("P05", "Packages, imports and name resolution",
  "Whatever way packages, imports and uses of names are spread over files, "
  "each name denotes the entity the manual says (current package, or a "
  "package imported by that very file), and processing fails exactly if "
  "something is wrong: duplicate or too similar names, unknown or self "
  "imports, import cycles between type files, names not visible. An error "
  "is located at an offending declaration.",
  ["file sets", "programs"], "one to five packages over up to a dozen files, "
  "random import graphs, names near-miss or misqualified",
  "Golden tests have at most three packages in one arrangement.",
  [PAR, AST, MAIN],
  [("Source_Manager.build_graph, parse_rsl_files", MAIN),
   ("Compilation_Unit.is_visible", AST), ("Symbol_Table.register", AST),
   ("Parser.parse_preamble", PAR)],
  "model-based testing of name resolution", TRUST +
  "Type and object names equal to packages that are not imported are left "
  "out.", ["accept / reject", "symbol table", "messages"])

P("P15", "File order, file names and partition do not matter",
  "The outcome of processing a set of files does not depend on the order in "
  "which they are given. Renaming or moving files, and spreading the objects "
  "of a package over more or fewer requirement files in any order, changes "
  "neither acceptance, nor any object's data, nor which messages are reported "
  "about which declaration (only positions move along).",
  ["programs", "histories"], "programs with one to five packages in random "
  "directories, registered in random orders, and two random arrangements of "
  "the same declarations into files", "Tests use one directory layout per "
  "case and one order.", [MAIN, PAR, AST],
  [("Source_Manager.build_graph / parse_rsl_files / parse_trlc_files", MAIN),
   ("Record_Reference.resolve_references", AST)],
  "metamorphic testing (permuted and repartitioned programs)",
  "Random search. Arrangements are compared with each other and valid "
  "programs also with the data they were generated from. The order in which "
  "unused imports are listed is left open.", ["messages", "symbol table"])

P("P16", "Same input, same output in every process",
  "Processing the same files with the same options produces byte-identical "
  "messages, data (including the order of objects and components) and counts "
  "in every process, whatever the hash seed and whatever the process has "
  "processed before. With detailed information switched off this includes "
  "verification.",
  ["inputs", "histories"], "valid, damaged and faulty programs, each "
  "processed in four processes with different hash seeds and histories",
  "Tests run each input once per process with whatever seed comes up.",
  [MAIN, PAR, AST, LINT, ERR, VCG],
  [("Source_Manager.process", MAIN), ("Symbol_Table", AST),
   ("Linter.perform_sanity_checks / verify_imports", LINT)],
  "differential fuzzing across processes with different hash seeds and "
  "histories", "Random search; three hash seeds; solver timeouts excluded.",
  ["messages", "symbol table"])

P("P17", "The command line tool does what its options say",
  "For every set of files, directories and options the command line tool "
  "processes exactly the files named or found below the named directories "
  "(bazel-* excluded unless asked for), prints (or logs) exactly the messages "
  "processing gives under those options followed by a correct summary and "
  "optional dump and file list. Its exit status is 1 exactly if there were "
  "errors (or warnings with --error-on-warnings), 2 for wrong usage, else 0.",
  ["configurations", "inputs"], "random directory trees with valid and faulty "
  "programs and junk files, random option sets and items",
  "The system tests run a handful of option sets in one directory.",
  [MAIN, ERR], [("trlc()", MAIN), ("register_directory", MAIN),
                ("Message_Handler", ERR)],
  "differential testing of the command line against an independent model of "
  "its options", "Random search. --verify, --debug-dump and --debug-vcg are "
  "not exercised here.", ["stdout", "log file", "exit status"])

P("P18", "Included files are used exactly when needed",
  "With include directories, exactly the files of packages which the given "
  "files need (directly or through imports) are read beyond their preamble, "
  "and the messages, data and objects are those of giving all needed files "
  "explicitly. The content of files that are not needed has no influence.",
  ["configurations", "programs"], "programs of up to five packages in several "
  "directories, a random part given and the rest included, with garbage in "
  "files that are not needed", "Tests have one partial-parsing layout.",
  [MAIN], [("build_graph", MAIN), ("register_include", MAIN)],
  "metamorphic testing (include versus explicit) with a reachability model",
  "Random search; the preamble and the token after it count as read. One "
  "known finding: frozen values that refer to requirement files.",
  ["messages", "symbol table"])

P("P20", "Linter messages are exact and purely advisory",
  "Every issue that the linter documentation describes is reported at every "
  "place where it occurs and nowhere else: abstract leaf types, tuples "
  "separated by 'x' after an Integer or with ambiguous separators, arrays with "
  "impossible or optional-like bounds, final types without effect, unusual "
  "unary minus, union field accesses that need a guard, unused imports and so "
  "on. Running with or without the linter changes neither errors, nor user "
  "messages, nor the resulting data.",
  ["programs"], "generated accepted programs that have or nearly have such "
  "issues, with the position of every expected issue known to the generator",
  "Tests contain one or two examples per lint category.",
  [LINT, AST, PAR], [("Linter", LINT), ("parse_simple_expression",
   PAR)],
  "property-based testing against an independent prediction of all lint "
  "messages, plus a metamorphic relation (no linter)",
  "Random search. Categories whose documentation leaves the case open are "
  "neither required nor forbidden there.", ["messages", "symbol table"])

P("P21", "The verifier is sound, truthful and purely advisory",
  "With --verify, a check which can have a run-time error (evaluation of "
  "null, division by zero, array index out of range) on some object that "
  "passes the fatal checks before it has an issue of that kind reported for "
  "it, unless the verifier says that it could not analyse the type. A check "
  "reported as always true is true for every object; simple tautologies are "
  "reported; properly guarded expressions are not. The counter-example given "
  "with an issue triggers that error when it is used as an object. --verify "
  "changes no other message and no data.",
  ["programs"], "generated types with checks (including on tuples and base "
  "types, fatal checks, frozen components, optional components) and objects",
  "Tests compare the output for about forty fixed programs.",
  [VCG, AST, LINT], [("VCG.checks_on_composite_type", VCG),
                     ("tr_expression", VCG),
                     ("create_counterexample", VCG)],
  "differential testing of the verifier against a reference evaluator, plus "
  "execution of its counter-examples",
  "Random search. Cases that the solver does not decide within its limit "
  "give no verdict on precision. Counter-examples with references, matches() "
  "or quantifiers are not executed.", ["messages"])

P("P24", "Messages are shown completely and point at the right text",
  "Brief output, full output and output without details contain the same "
  "messages in the same order with the same result. In full output every "
  "message that has a position shows exactly the source line it is about and "
  "marks exactly the token it is about, followed by exactly its details, "
  "aligned below it and nothing else.",
  ["inputs", "configurations"], "damaged and valid programs with failing "
  "checks, details of several lines, indentation with tabs and spaces, odd "
  "characters",
  "System tests pin the output of fixed files.",
  [ERR, LEX, AST], [("Message_Handler.emit", ERR),
                    ("Source_Reference.context_lines", LEX), ("Check", AST)],
  "metamorphic testing across output modes, with an independent "
  "reconstruction of context and marker from the source text",
  "Random search. The marker of a malformed token may be anywhere inside it.",
  ["output"])

P("P23", "Generated RST documents are complete and faithful",
  "A document that trlc_rst renders contains every selected record (by "
  "directory, source files, record names) exactly once and nothing else, in "
  "source order, below the headings of exactly its sections. Each record "
  "shows exactly its requested fields that have a value, under their label, "
  "and its markup texts with all paragraphs, lists, literal blocks, images, "
  "links and references (to the right records) intact. Strings, tables and "
  "single values rendered through the API agree with this. Erroneous input "
  "yields no document.",
  ["programs", "configurations"],
  "generated record sets in nested sections over several files and packages, "
  "structured markup texts, field specifications, filters, titles; API and "
  "command line",
  "The stable tests compare five documents with at most two records.",
  ["tools/trlc_rst/trlc_rst.py", AST],
  [("TRLCRST.convert_symbols_to_tree", "tools/trlc_rst/trlc_rst.py"),
   ("TRLCRST._preprocess_description", "tools/trlc_rst/trlc_rst.py"),
   ("Markup_Token_Reference", AST)],
  "model-based testing: structured documents are generated, written as TRLC, "
  "rendered, and read back by an independent reader of the output",
  "Random search. Section names which equal a record name or are empty, more "
  "than three levels, plain strings of several lines and images within a "
  "line of text are not generated.", ["output files", "API"])

P("P22", "Error recovery reports every mistake and blames nothing correct",
  "In files whose declarations are separate (outside of sections), each "
  "wrong declaration is reported exactly once, no matter what is wrong in "
  "the declarations before it, and no correct declaration is blamed. Without "
  "error recovery, every file has at most one error, which is the first one "
  "reported with recovery, and every error is genuine: what depends on a "
  "broken package is not complained about. Unresolved references are "
  "reported for every object. Either way there is a result exactly if there "
  "is no mistake.",
  ["inputs", "configurations"], "packages with imports, record types with "
  "extensions, checks, enumerations, tuples and objects with any number of "
  "mistakes of about sixty kinds, with and without recovery",
  "Tests have a few files with one or two errors each.",
  [PAR, MAIN, AST], [("Parser.parse_rsl_file", PAR),
                     ("Parser.parse_trlc_file", PAR),
                     ("Source_Manager.parse_rsl_files", MAIN)],
  "model-based fault injection: the generator knows which declarations are "
  "wrong; metamorphic comparison with and without recovery",
  "Random search. A declaration that does not start with the name of a known "
  "type is only required to be reported if the one before it is correct. "
  "After a mistake inside of a section no claim is made about the rest of "
  "the file.", ["messages"])

P("P25", "References inside markup strings",
  "The references of a Markup_String are exactly the qualified names between "
  "its double brackets, in order, resolved to the right objects by the rules "
  "for names of the package it is in, each located exactly where its name is "
  "written. Any malformed reference list or name that does not denote a "
  "visible record object is an error inside of that string, at or after the "
  "mistake. Text outside of the brackets is free, and String values have no "
  "references.",
  ["inputs"], "markup strings of all notations (escapes, several lines) in "
  "components, arrays, tuples and frozen components over three packages, with "
  "one of 26 kinds of mistakes or none",
  "Tests have a handful of fixed markup strings.",
  [PAR, NST, AST], [("Markup_Lexer.token", PAR), ("Markup_Parser", PAR),
                    ("Nested_Lexer.source_location", NST),
                    ("String_Literal.resolve_references", AST)],
  "model-based testing: the generator knows the references and mistakes and "
  "their positions",
  "Random search. Sequences of three or more brackets are not generated.",
  ["API", "messages"])

P("P26", "The API describes exactly what was declared",
  "For every accepted program the symbol table has exactly the declared "
  "packages, types, components, literals and objects; each has the name, "
  "description, location, type, optionality, owner, parent, frozen values, "
  "checks (in order, inherited ones first), separators and sections that are "
  "written in the source. Lookup, iteration (also by section, any number of "
  "times), subclass and null queries agree with that. Progress notifications "
  "begin and end once, never decrease and are complete for accepted input.",
  ["programs"], "generated programs over several packages and files, with "
  "descriptions, sections, extensions, frozen components, check blocks; "
  "damaged ones for the notifications",
  "Tests look at a dump of a few programs.",
  [AST, PAR, MAIN], [("Record_Type", AST), ("Tuple_Type", AST),
                     ("Symbol_Table.iter_record_objects_by_section", AST),
                     ("Source_Manager.signal_progress", MAIN)],
  "model-based testing: the generator's model and an independent lexer "
  "against the API",
  "Random search.", ["API"])

P("P27", "Requirements in Sphinx documentation link to their definitions",
  "After every build of a documentation project - the first one, any "
  "incremental one after edits, sequential or with parallel reading - each "
  "upstream or downstream reference links to the anchor of the only "
  "definition of that requirement, wherever it is; if there is none or "
  "several it is not linked and one warning with the place, the name and the "
  "number of definitions is given. Each definition has its anchor on its "
  "page and is listed exactly once in the sorted requirement index. Pages "
  "that trlc_rst renders from any records link without warnings.",
  ["histories", "schedules"],
  "histories of edits (add, change, move, delete, rename, include) to "
  "documents with definitions and references in all kinds of places, built "
  "incrementally, partly with several reading processes; pages rendered from "
  "generated TRLC",
  "The repository has no tests of the Sphinx domain.",
  [SPX, "tools/trlc_rst/trlc_rst.py"],
  [("RequirementsDomain.resolve_xref", SPX),
   ("RequirementsDomain.merge_domaindata", SPX),
   ("RequirementsIndex.generate", SPX)],
  "stateful model-based testing: after each build of a generated history of "
  "edits, pages, warnings and index are compared with a model of the sources",
  "Random search, up to five builds of eleven documents. Every page is "
  "written on each build (which pages Sphinx writes again is its own "
  "decision).", ["output files", "messages"])
