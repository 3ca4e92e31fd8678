"""Writes /verif/properties.jsonl (kept as a script so that the wording is reviewed in one place)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     **({"state": [dict(name=a, meaning=b, where=c) for a, b, c in state]} if state else {}),
                     observe_at=observe or [], hook_needed=hook)))

G = "pyudunits2/_grammar/__init__.py"; U = "pyudunits2/_unit.py"; S = "pyudunits2/_unit_system.py"
X = "pyudunits2/_udunits2_xml_parser.py"; E = "pyudunits2/_expr/"

prop("C01", "The accepted unit language is exactly the published grammar",
 "A unit string is accepted by the parser if and only if, after stripping surrounding whitespace, it is derivable from the published UDUNITS-2 grammar of the project (whitespace significant, the three lexical modes included). Every other string is refused with a SyntaxError: never with another exception, never by ignoring the offending part. Numbers may have any number of digits; one whose exponent is beyond the range of Decimal (about 10^18) is refused with a SyntaxError too. (Brackets nested beyond Python's recursion limit are out of scope.)",
 ["inputs"], "every string over the token and character alphabet of the grammar, up to a length bound",
 "The tests parse about 150 hand-picked strings; the language is context sensitive (three lexer modes), so acceptance depends on what precedes each character.",
 [G, "pyudunits2/_grammar/udunits2Lexer.g4.jinja", "pyudunits2/_grammar/udunits2Parser.g4", "pyudunits2/_grammar/parser/udunits2Lexer.py", "pyudunits2/_grammar/parser/udunits2Parser.py"],
 [("SyntaxErrorRaiser replaces ANTLR's recovering listener", G), ("modal lexer and ERRORCHARACTER catch-all", "pyudunits2/_grammar/udunits2Lexer.g4.jinja")],
 observe=["UnitSystem.unit", "parse", "normalize"])
prop("C02", "Parsing gives the structure and exact numbers the grammar prescribes",
 "For every accepted string the parsed expression has the structure the grammar prescribes: powers bind tighter than products, products and quotients group to the left, juxtaposition, '.', '-', '*', '·' and spaces multiply, '/' and ' per ' divide, a digit run directly after a name or bracket is its exponent, and the last shift operator applies to the whole product. Every number in it has exactly the written value (integers as integers, decimals without any rounding) and every name, logarithm base and reference date text is kept verbatim.",
 ["inputs"], "every accepted string up to a token bound, and every numeric spelling up to a character bound",
 "Tests compare the text form of selected strings with the C library; they do not cover the combinations of contexts in which a digit run, sign, point or dash changes its meaning.",
 [G, E + "graph.py", "pyudunits2/_grammar/udunits2Parser.g4"],
 [("UnitParseVisitor builds the expression graph", G), ("power/product rules", "pyudunits2/_grammar/udunits2Parser.g4")],
 observe=["parse"])
prop("C03", "Text form of a unit parses back to the same unit",
 "The text form of any accepted unit string (normalize, or str of a unit or date unit) is itself accepted, is a fixed point of normalize, and denotes the same expression: same factors, exponents, numbers, shifts and logarithms. Hence two unit strings that mean different things never have the same text form.",
 ["inputs"], "every accepted string up to a token bound, and every expression tree up to a depth bound",
 "Tests pin the text of selected strings but never re-parse it; bracket placement depends on the nesting of operators.",
 [E + "graph.py", G, U],
 [("__str__ of each expression node", E + "graph.py"), ("normalize", G)], observe=["str(Unit)", "str(DateUnit)", "normalize"])
prop("C04", "The basis form names only basis units and means the same",
 "The expanded (basis) form of any unit is a valid unit string that contains only basis units of the system and numbers, and expanding it again changes nothing. It denotes the same unit: same dimensionality, same scale, same shift and logarithms as the unit's definition chain prescribes.",
 ["inputs", "configurations"], "every unit expression up to a bound over unit systems whose definitions chain through names, aliases, prefixes, shifts and logarithms",
 "Tests check the expanded text of eight units.",
 [U, E + "substitute.py", "pyudunits2/_unit_reference.py"],
 [("recursive substitution of identifiers", E + "substitute.py"), ("prefix by value", "pyudunits2/_unit_reference.py")], observe=["Unit.expanded"])
prop("C05", "Every UDUNITS-2 database entry resolves to its database meaning",
 "In the unit system read from the bundled UDUNITS-2 database every name, plural (given or by the UDUNITS-2 plural rule), symbol and alias of every entry can be looked up and denotes the unit the database defines: the dimensionality, scale factor and offset that the UDUNITS-2 library gives for it. All spellings of one entry denote the same unit.",
 ["inputs", "configurations"], "every spelling of every entry of the database (about 1400)",
 "Tests look up some thirty of the spellings and compare few values.",
 [X, "pyudunits2/udunits2_combined.xml", S], [("XML parsing and plural rule", X), ("definitions", "pyudunits2/udunits2_combined.xml"), ("add_unit / lookup", S)],
 observe=["UnitSystem.unit", "UnitSystem.unit_by_name_or_symbol", "Converter"])
prop("C06", "Prefixes scale exactly, never shadow a unit, and do not stack",
 "A spelling that is registered for a unit always denotes that unit; otherwise a spelling consisting of one registered prefix (name or symbol) directly followed by a registered spelling of a unit denotes that unit multiplied by exactly the prefix's value, whether the unit's spelling is a name, plural, symbol or alias. In the bundled database the longest matching prefix wins; a spelling that is neither, in particular a bare prefix or a second prefix, raises UnresolvableUnitException.",
 ["inputs", "configurations"], "every prefix spelling x every unit spelling of the database, every string over a colliding alphabet in small systems, and every pair of prefixes",
 "Tests try about ten prefixed spellings; collisions between prefixes, symbols and names (mm, dat, Pa, min, ft) are data dependent.",
 [S, "pyudunits2/_unit_reference.py", X], [("lookup order of unit_by_name_or_symbol", S), ("Prefix value", "pyudunits2/_unit_reference.py")],
 observe=["UnitSystem.unit_by_name_or_symbol", "UnitSystem.unit"])
prop("C07", "Dimensionality is a homomorphism into integer exponents",
 "The dimensionality of a unit is the map from basis units to their net integer exponent: it adds over products, subtracts over quotients, multiplies over powers, ignores numbers, prefixes, shifts and dimensionless basis units, sees through logarithms and definitions, and never lists a zero exponent. A unit is dimensionless exactly if that map is empty, and a time unit exactly if it is the time basis unit to the power one.",
 ["inputs", "configurations"], "every unit expression up to a size bound over systems with plain, derived, dimensionless, logarithmic and time units",
 "Tests check six expressions.", [E + "dimensionality.py", U], [("DimensionalityCounter", E + "dimensionality.py"), ("accumulation over identifiers", U)],
 observe=["Unit.dimensionality", "Unit.is_dimensionless", "Unit.is_time_unit"])
prop("C08", "Convertibility: one consistent relation, decided by dimensionality",
 "A converter between two units can be built exactly if is_convertible_to says so, which is exactly if their dimensionalities are equal or reciprocal; otherwise IncompatibleUnitsError is raised. The relation is reflexive and symmetric, and a date unit is convertible to nothing, in either direction.",
 ["inputs"], "every ordered pair of units from an alphabet covering all kinds of unit", "Tests try a handful of pairs, all but one convertible.",
 [U], [("is_convertible_to", U), ("Converter.__init__", U)], observe=["Unit.is_convertible_to", "Converter"])
prop("C09", "Scale conversions multiply by the exact ratio of the units",
 "Converting between two units that differ only by a scale multiplies every value by the ratio of the two units as given by their definitions (prefixes, numbers, powers and chained definitions included); between units of reciprocal dimensionality it gives the reciprocal of the value expressed in the reciprocal unit. Agreement is to floating point rounding (1e-9 relative), for zero, negative, integer and float values alike.",
 ["inputs", "configurations"], "every ordered pair of same- or reciprocal-dimension unit expressions up to a bound x value alphabet",
 "Tests check about ten conversions at one value.", [U, E + "sympy.py", E + "split.py"], [("Converter: d1/d2", U), ("ToSympy", E + "sympy.py")], observe=["Converter.convert", "Converter.expression"])
prop("C10", "Offset conversions: only a unit's outermost shifts count",
 "For a unit whose definition ends in one or more shifts (degC, degF, 'K @ 10', 'degC @ 10') a value v stands for (v + total shift) times the unit shifted, and conversions from, to and between such units follow it. A shift that is not outermost (inside a product, quotient, power or prefixed unit) has no influence on any conversion.",
 ["inputs", "configurations"], "every ordered pair of expressions nesting shifts at every position up to a depth bound x values",
 "Tests check ten cases; where a shift sits in the expanded definition (directly, through an alias, through a prefix) decides whether it counts.", [E + "split.py", U], [("DropNestedShifts / SplitExpr", E + "split.py")], observe=["Converter.convert"])
prop("C11", "Logarithmic units convert by the power of their own base",
 "A value v in lg(re U) or log(re U), ln(re U), lb(re U) stands for 10^v, e^v or 2^v times the reference U, also when nested, and converting to such a unit takes the same logarithm of the ratio to the reference. The base, the reference's scale and the reciprocal case are all honoured, in both directions. A product or quotient of two logarithmic units is never converted: it is refused with ValueError.",
 ["inputs", "configurations"], "every pair of logarithmic/plain expressions up to a nesting bound x values", "Tests check eight conversions, mostly lg.",
 [E + "sympy.py", E + "split.py", U], [("visit_Logarithm", E + "sympy.py"), ("SplitExpr", E + "split.py"), ("solve for the inverse transform", U)], observe=["Converter.convert"])
prop("C12", "Conversions invert, compose, act elementwise and are pure",
 "For mutually convertible units: converting there and back is the identity, converting in two steps equals converting directly, and converting to the same unit changes nothing (to rounding). Converting an array equals converting each element (masked elements stay masked, nan stays nan), leaves the input untouched, and a converter gives the same answer each time; its expression contains no symbol other than the value and evaluates to the same results.",
 ["inputs", "histories"], "every pair and triple from a unit alphabet x values x call sequences on shared converters", "Tests convert single values once.",
 [U], [("Converter", U)], observe=["Converter.convert", "Converter.expression"])
prop("C13", "Unit equality is equality of meaning",
 "Two units (of one system, or of systems with the same basis units) are equal exactly if they denote the same unit: same dimensionality, same scale, same outermost shift and same logarithms, whatever names, prefixes, order of factors or brackets they are written with. Equality is reflexive, symmetric and transitive, != is its negation, and comparing with anything that is not a unit gives False.",
 ["inputs"], "every pair and triple from an alphabet of equal and nearly equal expressions", "Tests check three pairs.",
 [U, E + "sympy.py"], [("Unit.__eq__", U)], observe=["Unit.__eq__"])
prop("C14", "What a unit means does not depend on what was asked before",
 "The answer of any query (unit lookup, text, basis form, dimensionality, equality, conversion) depends only on what is registered in the unit system at that time: it is the same whatever queries, in whatever order and number, were made before, also before or between registrations that change what spellings denote; queries never change what is registered, and a unit once obtained keeps its meaning whatever is registered later. Units may be registered in any order relative to the units their definitions mention, and be looked up as soon as these exist; until then UnresolvableUnitException is raised, without lasting effect.",
 ["histories"], "every sequence of registrations and queries up to a depth bound on a system with lazily resolved units", "Each test performs one query on a fresh or shared system; caches and lazy resolution only matter in sequences.",
 [S, U], [("LazilyDefinedUnit.resolve cache", S), ("_cached_symbolic_definition", U)], state=[("resolved unit", "result of the first resolution, kept on the definition", S), ("cached symbolic definition", "result of the first symbolic evaluation, kept on the unit", U)],
 observe=["UnitSystem.unit", "Unit.*", "Converter"])
prop("C15", "Registration: unique names, atomic refusal, fixed precedence",
 "Registering a unit whose name, plural or symbol is already registered raises ValueError and leaves the system exactly as it was, unless replacement is requested, in which case all its spellings denote the new unit. A lookup prefers names over aliases over symbols over alias symbols, and all of these over prefixed readings; of several units sharing an alias (or prefixes sharing a spelling) the latest registered wins.",
 ["histories", "configurations"], "every sequence of registrations (with and without replacement) up to a depth bound over colliding spellings, with every spelling looked up after each", "Tests register one fixed system and never provoke a collision.",
 [S], [("add_unit checks before it stores", S), ("lookup order", S)], state=[("names, symbols, aliases, prefixes", "what each spelling denotes", S)], observe=["UnitSystem.add_unit", "UnitSystem.add_prefix", "UnitSystem.unit_by_name_or_symbol"])
prop("C16", "A shifted time unit is a date unit, and dates occur nowhere else",
 "An expression whose outermost operation shifts a time unit (by a date or a number) gives a date unit carrying the unshifted time unit and the reference text verbatim, never an ordinary unit. A shift of a time unit anywhere deeper, and a date shift of any non-time unit, is refused with ValueError (SyntaxError if not even parseable).",
 ["inputs"], "every combination of time-like and other units, shift operators, reference spellings and enclosing expressions up to a bound", "Tests check eight strings.",
 [U, E + "normaliser.py", S], [("_unit_from_expression_and_identifiers", U), ("NormalisedExpressionGraph.visit_Shift", E + "normaliser.py")], observe=["UnitSystem.unit", "DateUnit.unit", "DateUnit.reference_date"])
prop("C17", "Concurrent use gives the same answers as sequential use",
 "Threads that share a unit system, units or converters, or merely parse at the same time, each get the answer they would get alone, and no exception they would not get alone, under every interleaving. This includes first use, when definitions are resolved and caches are filled.",
 ["schedules"], "every interleaving of two threads up to a preemption bound, at source line granularity, for each pair of operations", "The tests are single threaded.",
 [S, U, G, E + "normaliser.py"], [("per-call parser/visitor objects", G), ("idempotent caches", U)], state=[("caches filled on first use", "resolved unit, symbolic definition, parser DFA", S)],
 observe=["UnitSystem.unit", "Converter.convert", "parse"])
prop("C18", "A failed or interrupted query leaves nothing behind",
 "After a query fails (syntax error, unknown unit, incompatible units, refused date) or is interrupted by an exception at any point of its execution, every later query on the same system, units and process answers as if the failed one had never been made, also if more is registered in between. Asking the same failing query again fails the same way.",
 ["fault_sequences", "crash_points", "histories"], "every query x every source line of its execution as the point of interruption x follow-up queries; every sequence of failing and succeeding queries up to a bound", "Tests never use a system after a failure, and never interrupt a call.",
 [S, U, G, E + "expander.py"], [("state is stored only after success", S)], observe=["UnitSystem.unit", "Converter", "Unit.__eq__"])
prop("C19", "The XML reader registers exactly what the document says",
 "Reading a UDUNITS-2 XML unit system registers each prefix with its value, name and symbols, and each unit with its definition (or as basis or dimensionless basis unit), name, plural, symbols and aliases; the plural is the given one, none if 'noplural', else by the UDUNITS-2 rule, and only the unit named 'second' is the time basis. Order of elements, comments in the definition text, the encoding the document declares and the way it writes its characters (references, CDATA, entities) do not matter; unknown content is ignored by default and refused with ValueError by the strict reader; a repeated name or symbol, a name without singular form and a prefix without name or value are refused with ValueError.",
 ["inputs", "configurations"], "every document assembled from an alphabet of unit and prefix elements up to a bound", "Tests read the one bundled document and two snippets.",
 [X], [("UDUNITS2XMLParser", X)], observe=["UDUNITS2XMLParser.parse_file"])
prop("C20", "The command line agrees with the library",
 "explain-unit prints the unit's text, basis form and dimensionality exactly as the library gives them; conversion-expr prints an expression that converts as the library does, or says that the units are not convertible and exits with status 1; debug-parser prints each token of the unit with its kind, one a line. Without a subcommand, help is printed and the status is 1.",
 ["inputs"], "every subcommand x every unit (pair) of an alphabet of all unit kinds", "Tests check four invocations.",
 ["pyudunits2/__main__.py"], [("handlers", "pyudunits2/__main__.py")], observe=["python -m pyudunits2"])
prop("C21", "Expanding a product collects factors without changing its value",
 "Expanding an expression of products, quotients and powers gives a product of the same value (same exponent for every identifier, same numeric factor). Each identifier occurs at most once, with its net nonzero exponent, and factors that cancel disappear. Where a shift is the last operation, the unit and the origin are each expanded like that.",
 ["inputs"], "every expression tree over two identifiers and small numbers up to a size bound", "Tests check nine expressions.",
 [E + "expander.py"], [("ChainedExpr.terms", E + "expander.py"), ("Expander", E + "expander.py")], observe=["Expander().visit"])
prop("C22", "The shipped parser is the parser of the grammar files",
 "The committed, generated lexer and parser accept, tokenise and structure every unit string exactly as the grammar files next to them (lexer template and parser grammar) prescribe, so that the grammar remains the canonical source of truth. This includes the context dependent lexer modes after names and after shift operators.",
 ["inputs", "programs"], "every token and character sequence up to a length bound, tokenised and parsed by both", "Tests never look at the grammar files.",
 ["pyudunits2/_grammar/udunits2Lexer.g4.jinja", "pyudunits2/_grammar/udunits2Parser.g4", "pyudunits2/_grammar/parser/udunits2Lexer.py", "pyudunits2/_grammar/parser/udunits2Parser.py"],
 [("compile.py generates one from the other", "pyudunits2/_grammar/compile.py")], observe=["debug-parser", "parse"])
prop("C23", "Date and time values: equality, hash and text agree",
 "Two date-times are equal exactly if year, month, day, time and time zone offset are equal, whatever text they were read from; equal ones have equal hashes and are interchangeable as set members and dictionary keys. The text of a time is HH:MM with seconds and microseconds added exactly when nonzero, so that distinct times have distinct texts and each text names its time.",
 ["inputs"], "every combination of boundary field values", "Tests build two date-times.",
 ["pyudunits2/_datetime.py"], [("__eq__/__hash__/__str__", "pyudunits2/_datetime.py")], observe=["DateTime", "Time"])
prop("C24", "Units built by hand mean what the system's units mean",
 "A Unit (or NamedUnit) built from a parsed definition, or one normalised before, and references to units of a system has the text, basis form, dimensionality, equality and conversions of the unit the system gives for that text, and a date unit's definition is refused with ValueError. Registering a definition as text or as a finished NamedUnit makes the same system. Basis units behave by their name, also outside any system: same name exactly if equal, equal ones with equal hashes; a name before a symbol; dimensionless and time flags as given.",
 ["inputs", "configurations"], "every unit expression up to a bound, every two-step definition chain x way of registration, every pair of small basis units",
 "Tests build two units by hand.",
 [U, "pyudunits2/_unit_reference.py", S], [("Unit.__init__, NamedUnit, BasisUnit", U), ("add_unit", S)], observe=["Unit", "NamedUnit", "BasisUnit", "UnitSystem.add_unit"])
prop("C25", "Expression graphs are immutable values, walked completely",
 "An expression node cannot be changed after it was made; two nodes are equal exactly if they have the same kind and equal fields, equal ones have equal hashes, and a node never equals anything else. Copies and pickles are equal to the original, and parsing the same text twice gives equal graphs. Its children are its sub-expressions in order; a visitor meets every node exactly once, in order, and calls the method of its kind or else the generic one. Identifier extraction gives exactly the identifiers that occur, and substitution replaces exactly the mapped ones (once) in a new graph, leaving the original unchanged.",
 ["inputs"], "every expression tree up to a depth bound over a leaf alphabet, and every pair of small ones",
 "Tests compare a few trees; sharing of nodes between parses, units and substitutions is safe only if this holds for all.",
 [E + "graph.py", E + "substitute.py", E + "atoms.py"], [("frozen dataclasses", E + "graph.py"), ("Visitor", E + "graph.py"), ("Substitute", E + "substitute.py")], observe=["parse", "Visitor", "Substitute", "ExtractIdentifiers"])
prop("C26", "A syntax error points at the first token that cannot continue a unit",
 "The SyntaxError for a text (of one line) that is no unit gives line 1, the stripped text in quotes, and as its offset the position in that of the first token that no unit string starting like this could have there (the end, if more is needed). It is the same whether the text is parsed, asked of a system, or the definition of a unit that is used.",
 ["inputs"], "every refused text up to a bound in tokens or characters", "Tests check that a few texts are refused, and only three messages.",
 [G, "pyudunits2/_grammar/udunits2Parser.g4"], [("SyntaxErrorRaiser", G), ("parse", G)], observe=["parse", "UnitSystem.unit"])
prop("C27", "Copies and pickles of units and unit systems mean the same",
 "A copy, deep copy or unpickled pickle of a unit (also of a date unit) has the text, basis form, dimensionality, conversions and comparisons of the original, whether it was made before or after the original was used, and combines with units of the original system as the original does. A copied system answers every query as the original; units and prefixes added later to a deep copy (or unpickled one) do not show in the original, nor the other way round. Copying changes nothing.",
 ["inputs", "configurations", "histories"], "every unit expression up to a bound x way and time of copying; every two-step definition chain x way and time of copying the system x later additions", "Tests never copy or pickle.",
 [U, S, "pyudunits2/_unit_reference.py"], [("caches and references held by units", U), ("tables of the system", S)], observe=["copy", "copy.deepcopy", "pickle"])
prop("C28", "Answers are the same in every process",
"What a text means - accepted or refused (and the class of the error), text, basis form, dimensionality, conversion results, comparisons, the unit system read from an XML document - does not depend on the process: not on its hash seed, its locale's encoding, its time zone, its working directory or on Python's -O option. In particular a prefix, unit or symbol registered with several spellings is looked up in a fixed order.",
["inputs", "configurations"], "every text over an alphabet of identifiers and every small XML document, in processes covering every order in which sets of up to three identifiers can be walked", "Tests run in one process with a random hash seed.",
[U, X, E + "graph.py"], [("sets of symbols and identifiers", X), ("UnitSystem.identifier_references", S)], observe=["UnitSystem.unit", "UDUNITS2XMLParser.parse_file"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
