prop("C04", "Every element kind names exactly one class and dispatch reaches that class",
     "Each enumerator of each syntax tree kind enumeration is reported by the objects of exactly one class; the static tags of a class, the type_of mapping and "
     "dispatch() all agree with the kind its objects report: dispatch() invokes the callback with exactly the class whose kind the object has, for every kind.",
     ["programs", "inputs"], "for every kind of every hierarchy of the syntax tree and every object of it",
     "The unsafe_downcast in dispatch is unchecked: a kind routed to another class is undefined behaviour which a sample of kinds does not meet.",
     ["include/mizugaki/ast", "src/mizugaki/ast"],
     [("dispatch()", "include/mizugaki/ast/*/dispatch.h"), ("node_kind()/tag(s)", "include/mizugaki/ast/**/*.h"), ("type_of", "include/mizugaki/ast/**/kind.h")],
     ["node_kind()", "tag/tags", "type_of_t", "dispatch()"],
     "constant propagation of each kind through dispatch, node_kind and constructors; cross-reference of classes, tags and kinds",
     "Kinds are enumerated from the source; each dispatch template is instantiated for analysis.")

prop("C05", "Every constructor argument reaches the accessor of its name, unmodified",
     "An element, option set, result or diagnostic constructed with arguments returns through the accessor named like each argument exactly that argument, "
     "all overloads of an accessor return the same member, distinct accessors return distinct members, and a member with a declared default starts with that default.",
     ["programs", "inputs"], "for every class, constructor, argument and accessor",
     "Accessor tests exist for some classes and use the same value or default value for several attributes; swapped attributes of equal type compile.",
     ["src/mizugaki/ast", "include/mizugaki/ast", "src/mizugaki/parser", "src/mizugaki/analyzer"],
     [("constructors and accessors", "src/mizugaki/ast/**/*.cpp"), ("options and results", "src/mizugaki/parser/*.cpp, src/mizugaki/analyzer/*.cpp")],
     ["accessors of AST elements", "accessors of parser/analyzer options, results and diagnostics"],
     "origin (dataflow) analysis of constructors and accessors over the type-checked AST",
     "Origins are flow-insensitive.")

prop("C06", "Every enumerator has its own name, and enumeration sets are complete",
     "to_string_view() of every enumeration yields, for every enumerator, one string that is different from those of all other enumerators and spells the "
     "enumerator's identifier; printing an enumerator prints that string; a set over an enumeration can hold every enumerator.",
     ["inputs"], "for every enumerator of every public enumeration",
     "Only one enumeration has a test of its names; a missing enumerator aborts the process, a duplicated one is silent.",
     ["include/mizugaki"], [("to_string_view", "include/mizugaki/**/*.h"), ("enum sets", "include/mizugaki/ast/**/*.h")],
     ["to_string_view(enum)", "operator<<(ostream, enum)", "X_set"],
     "constant propagation of every enumerator through to_string_view; evaluation of the set bounds",
     "Decides the complete finite domain.")

prop("C07", "Element limits are stored, read and found by kind, each kind separately",
     "For every sql_parser_element_kind, find_sql_parser_element_kind(name) yields the kind with that name and nothing for any other text, and a value stored for a kind in "
     "sql_parser_element_map is returned for that kind by every accessor (by value or template argument, const or not) and for no other kind; printing a map shows every kind.",
     ["inputs"], "for every element kind and every pair of kinds",
     "The existing tests look up single kinds; aliasing slots and a lookup that skips the last kind are invisible to them.",
     ["include/mizugaki/parser/sql_parser_element_kind.h"],
     [("find_sql_parser_element_kind", "include/mizugaki/parser/sql_parser_element_kind.h"), ("sql_parser_element_map", "include/mizugaki/parser/sql_parser_element_kind.h")],
     ["find_sql_parser_element_kind()", "sql_parser_element_map"],
     "compile-time witnesses: static_asserts over the header's constexpr functions, generated for every enumerator; a violating header fails to compile",
     "Covers every kind and every pair of kinds; the printing loop is matched on the AST.")

prop("X90", "Numeric and string literals denote the value SQL gives them",
     "Every numeric, character, binary, date and time literal accepted by the front end denotes exactly the value that SQL gives to its text.",
     ["inputs"], "for every literal text", "Tests sample a few literals.",
     ["src/mizugaki/analyzer/details/analyze_literal.cpp"], [("literal conversion", "src/mizugaki/analyzer/details/analyze_literal.cpp")], ["sql_analyzer"],
     na="the value is a function of unbounded run-time text computed by takatori's decimal/datetime parsers, which are absent here; no static argument in reach bounds it")

# ------------------------------------------------------------------------------------------------ scanner

prop("S01", "Every text is scanned into exactly the tokens SQL defines, for all texts",
     "At every position the scanner takes the longest match of SQL's lexical elements: each keyword and operator of the grammar (in any case) is scanned as its own token "
     "and as nothing else, every other word is a regular identifier (rejected exactly if it starts with two underscores), and delimited identifiers, host parameters, numbers, strings, "
     "hex strings, white space and comment openings are exactly the texts of their definition.",
     ["inputs"], "for every byte sequence",
     "Tests scan a few dozen spellings; a keyword bound to another token, an identifier character dropped from a class or a pattern that matches too much shows only for the texts concerned.",
     ["src/mizugaki/parser/sql_scanner.ll", "src/mizugaki/parser/sql_parser.yy"],
     [("patterns and their actions", "src/mizugaki/parser/sql_scanner.ll"), ("%token declarations", "src/mizugaki/parser/sql_parser.yy")],
     ["sql_scanner::next_token", "sql_parser"],
     "language equivalence (product construction) of the automaton flex generates with an independent lexical specification; dataflow of the actions",
     "All reachable pairs of states are compared, so the answer covers texts of every length. Keyword spellings are taken from the %token declarations of the grammar.")

prop("S02", "The scanner is total, and the region and value of a token are exactly its text",
     "For every input the scanner makes progress, in every state and at every byte; the region of each token is exactly the range its text occupies in the input; a token with a value carries exactly "
     "its text; and each token, the end of input included, is announced to the driver (to separate comments) exactly once with its own region.",
     ["inputs"], "for every byte sequence, every start condition and every token",
     "Region tests look at a few tokens at the start of a text; bytes outside ASCII, unterminated comments and multi-byte characters are not sampled.",
     ["src/mizugaki/parser/sql_scanner.ll", "src/mizugaki/parser/sql_scanner.cpp"],
     [("actions", "src/mizugaki/parser/sql_scanner.ll"), ("location(), user_action(), get_image(), on_token()", "src/mizugaki/parser/sql_scanner.cpp")],
     ["regions of syntax tree elements and diagnostics", "sql_scanner::next_token"],
     "abstract interpretation of every scanner action over affine positions; coverage of the flex automaton in every start condition",
     "The positions are affine terms of the cursor and the match length, so the proof is for all inputs.")

prop("S03", "Comments end at their first terminator; comments and marks keep their regions",
     "A block comment ends at the first '*/' and a line comment at the first line break (or the end of the input), whatever is inside, and nothing inside is taken for anything else; "
     "each ended comment is recorded exactly once with its region (a block comment with its delimiters, a line comment without the line break), "
     "an unclosed block comment is reported at its opening, and each '?' token, and nothing else, is recorded as a placeholder mark with its region.",
     ["inputs"], "for every byte sequence inside a comment and every token",
     "Tests have a handful of well-formed comments; terminators preceded by stars, broken UTF-8 before a terminator and comments at the end of the input are not sampled.",
     ["src/mizugaki/parser/sql_scanner.ll", "src/mizugaki/parser/sql_scanner.cpp"],
     [("bracketed_comment, simple_comment", "src/mizugaki/parser/sql_scanner.ll"), ("enter_comment(), exit_comment()", "src/mizugaki/parser/sql_scanner.cpp")],
     ["compilation_unit::comments()", "sql_parser_diagnostic"],
     "exhaustive exploration of the flex automaton of each comment state; abstract interpretation of the actions over affine positions")

# ------------------------------------------------------------------------------------------------ grammar

GR = "src/mizugaki/parser/sql_parser.yy"

prop("G01", "The parser keeps every part of an accepted text, each once and in its place",
     "For every alternative of the grammar, each constituent that carries a value (subexpression, name, list, option clause, optional clause) reaches the element built for the "
     "alternative, exactly once; list elements and operands of the same type keep the order of the text; option clauses are stored under their own kind and a duplicate is refused; "
     "optional flags make a difference; a comma always separates two elements.",
     ["inputs", "programs"], "for every alternative of the grammar, every path of its action, and hence every accepted text",
     "Parser tests parse one text per construct; a clause dropped, doubled or exchanged in one alternative shows only in texts which use that alternative.",
     [GR], [("semantic actions", GR), ("option clauses", "src/mizugaki/parser/details/sequence_options.h")], ["sql_parser::operator()"],
     "abstract interpretation of every semantic action over symbolic values of its symbols; comparison of the resulting term with the rule")

prop("G02", "Keywords and operators yield the attribute they denote, with their region",
     "Every enumerator and truth value that the parser puts into an element is the one the keywords and operators of the accepted alternative denote (LEFT JOIN yields left_outer, "
     "NO CYCLE yields no_cycle, <> yields not_equals, ONLY sets is_only ...), alternatives with different keywords yield different elements unless they are synonyms, and the source "
     "region of such an attribute covers keywords of it only.",
     ["inputs", "programs"], "for every alternative of the grammar and every path of its action",
     "The tests exercise some of the several hundred alternatives, and comparison of syntax trees ignores regions.",
     [GR], [("semantic actions", GR)], ["sql_parser::operator()", "enumerations of the syntax tree"],
     "abstract interpretation of the actions; matching of enumerators with the keyword sequences of the alternative against an independent phrase table")

prop("G03", "Every element carries the source region of the text it was built from",
     "The region of an element built by the parser spans exactly the text of its alternative (or, for an element nested in another, the text of its parts); an attribute taken from a token "
     "carries the region of that token; a description is looked up at the first token of its definition; the union of two regions spans both, an absent region being neutral; "
     "a sub-region stays within its region.",
     ["inputs", "programs"], "for every alternative of the grammar and every pair of regions",
     "Equality of syntax trees ignores regions, so almost no test looks at them; diagnostics with wrong positions are the only symptom.",
     [GR, "src/mizugaki/ast/node_region.cpp", "include/mizugaki/ast/node_region.h"], [("semantic actions", GR), ("operator|", "src/mizugaki/ast/node_region.cpp")],
     ["region()", "operator|(node_region, node_region)", "node_region::operator()"],
     "abstract interpretation of the actions (hull algebra of symbol locations) and of the region operations")

prop("G04", "Limits on the number of elements apply to every list, exactly and by kind",
     "Whenever the parser lengthens a list it submits the longer list to the limit configured for the kind of its elements, and abandons the parse with exceed_number_of_elements at the place "
     "where the list continues exactly if the limit is not zero and the size exceeds it; every configurable limit applies to some list.",
     ["inputs"], "for every list construct of the grammar, every limit and size",
     "Tests set a limit for some lists; a list that forgets its limit, takes another's or is off by one is found only with that list at that size.",
     [GR, "src/mizugaki/parser/sql_driver.cpp"], [("list rules", GR), ("validate_count", "src/mizugaki/parser/sql_driver.cpp")], ["sql_parser_options::element_limits()"],
     "abstract interpretation of list actions and of validate_count over all order types of limit and size")

prop("G05", "Operators group by SQL's precedence and associativity in every context",
     "OR < AND < NOT < IS < predicates < + - || < * / % < unary sign < postfix operators, UNION and EXCEPT < INTERSECT; binary operators, set operations and joins of equal level group from the left. "
     "This holds after every operator, in every context of the grammar.",
     ["inputs"], "for every state of the LALR automaton and every operator that may follow",
     "Tests try few combinations; the grouping is decided per state of an automaton with over a thousand states.",
     [GR], [("%left/%precedence and the expression rules", GR)], ["sql_parser::operator()"],
     "exhaustive search of the LALR automaton bison builds from the grammar")

prop("G06", "A parse succeeds or reports exactly one error, at its cause, with its code",
     "Success is reported only for a completely accepted text and carries its statements; an action abandons the parse exactly when it reported an error; a syntax error is reported exactly once, at the "
     "unexpected token, with invalid_character, invalid_token, unexpected_eof or unexpected_token according to that token; no byte is taken for a negative number on the way; and the scanner's contextual "
     "keywords are exactly the keywords which the grammar accepts as identifiers.",
     ["inputs"], "for every action path and every path of the syntax error report",
     "Error tests cover few tokens; a missing abort lets later actions overwrite the error.",
     [GR, "src/mizugaki/parser/sql_scanner.cpp"], [("actions with YYABORT, report_syntax_error", GR), ("is_contextual_keyword", "src/mizugaki/parser/sql_scanner.cpp")],
     ["sql_parser_result", "sql_parser_diagnostic", "is_contextual_keyword"],
     "abstract interpretation of all action paths and of report_syntax_error; comparison of keyword sets")

# ------------------------------------------------------------------------------------------------ parser driver

DRV = "src/mizugaki/parser/sql_driver.cpp"
PAR = "src/mizugaki/parser/sql_parser.cpp"
VAL = "src/mizugaki/parser/sql_tree_validator.cpp"

prop("P01", "Limits on the syntax tree count every element, each exactly once",
     "The tree limits of sql_parser_options (nodes and depth) are enforced on what was built: for every kind of statement, expression, query and table element, the validator visits each nested "
     "element exactly once, at one level deeper than its parent, stops with an error exactly if a limit is not zero and exceeded, and the error reaches the result of the parse.",
     ["inputs"], "for every node class of the syntax tree, every nested element of it, and every limit",
     "Tests hold a tree limit against a handful of statements; a clause the validator forgets makes the limit void only for texts that use that clause.",
     [VAL, PAR], [("sql_tree_validator", VAL), ("sql_parser::operator()", PAR)], ["sql_parser_options::tree_node_limit()", "sql_parser_options::tree_depth_limit()"],
     "enumeration of the fields of every node class against the access paths visited by the validator; decision tables of the limit tests")

prop("P02", "Each parse returns its own statements or its own diagnostic, under its options",
     "The options of the parser reach scanner, driver and validator; the whole document is read; after an error the result holds no compilation unit but a diagnostic with the code, message, document and "
     "place of that error; on success it holds all statements of the text in order except an empty statement at its end, the comments and the document; has_value, has_diagnostic, is_valid and "
     "the conversion to bool tell these outcomes apart.",
     ["inputs", "configs"], "for every combination of outcomes of the parts of a parse, and every option",
     "Tests look at one option or one outcome each; a part that is not passed on or is mixed up shows only with the combination that needs it.",
     [PAR, DRV, "include/mizugaki/parser/sql_parser_result.h"], [("sql_parser::operator()", PAR), ("sql_driver::success, error", DRV)], ["sql_parser_result", "sql_parser_diagnostic", "compilation_unit"],
     "decision tables over all paths of the functions (symbolic path enumeration with an access-path domain), compared with the specification")

prop("P03", "Comments, descriptions and placeholders are found at the tokens they belong to",
     "The leading comments of a token are those between the preceding token and it, its following comments those up to the next token; the description of a definition is the last of its leading "
     "documentation comments (/** ... */), absent if there is none or the option is off; the index of a placeholder is its one-based position among the placeholders of the document, and zero elsewhere.",
     ["inputs"], "for every arrangement of tokens and comments, as orderings of their positions",
     "Tests cover a few layouts; off-by-one and boundary errors need comments adjacent to particular tokens.",
     [DRV],
     [("add_comment, add_comment_separator, comments_in_range, leading_comments, following_comments, leading_description_comment, add_placeholder_mark, find_placeholder_mark", DRV)],
     ["description clauses of definitions", "scalar::placeholder_reference index", "compilation_unit::comments()"],
     "path enumeration with iterator arithmetic; decision tables over order types of positions")

prop("P05", "Tokens become names, signs and sizes without loss",
     "Identifiers keep their text, kind and region; doubled quotes are undone exactly in quoted identifiers; a name counts as reserved exactly if it begins with two underscores; a sign joins the numeric literal that follows "
     "only if that is unsigned, with the region of both; qualified names and UNION JOIN chains keep all parts in order; a size is the number written, and one that is not representable is an error.",
     ["inputs"], "for every token text, as classes of characters, and every kind of operand",
     "Tests sample some names and literals; loss shows only for unusual text such as quotes at the ends, prefixes of length one, or out-of-range numbers.",
     [DRV], [("to_identifier, to_regular_identifier, to_size, try_fold_literal ...", DRV)], ["name::simple", "literal::numeric", "type sizes"],
     "path enumeration and decision tables of the driver's builders; loop bodies decided symbolically")
prop("P04", "Results depend on the arguments only",
     "What a parse or an analysis yields depends on its arguments only: no global, static, thread-local or mutable state is written, const is not cast away, and neither locale, environment, clock nor random numbers are read; "
     "an analysis starts with the arguments of its own call and with nothing left over from an earlier one, also after a failed one; the analyzer does not change the syntax tree; the order of addresses does not show in the result.",
     ["histories", "schedules"], "for every history of parses and analyses in a process, also concurrent ones with distinct objects, and every process state",
     "Tests run one parse after another in one process state; a leftover or a race shows only for particular histories, locales or schedules.",
     ["mizugaki::parser::sql_parser::operator()", "mizugaki::analyzer::sql_analyzer::operator()", "mizugaki::analyzer::details::analyzer_context::initialize"],
     [("sql_parser::operator(), sql_analyzer::operator(), analyzer_context::initialize", "mizugaki::analyzer::details::analyzer_context")],
     ["static storage", "mutable", "analyzer_context::initialize", "std::from_chars"],
     "effect analysis over all functions (static storage, const, library calls, tree), path enumeration of the entry points")

ANA = "src/mizugaki/analyzer/details/"
prop("A01", "The analyzer fails exactly when it has reported why",
     "An analysis whose translation fails yields diagnostics, and at least one; an analysis that reported a diagnostic never yields a plan or a statement; the failure of any part (a name that is not found, an operand without a type, "
     "an unsupported clause, a misplaced set function) is seen by everything that depends on the part, and the result holds diagnostics, an execution plan or a statement exactly as the translation ended.",
     ["inputs", "configs"], "for every statement, catalog and option, through every translation function of the analyzer",
     "Each function has dozens of failing paths; a forgotten return after a report, an unchecked part or a silent return shows only for the statement that takes that path, as a wrong plan, a crash or an empty error.",
     [ANA + "analyze_statement.cpp", ANA + "analyze_query_expression.cpp", ANA + "analyze_scalar_expression.cpp", ANA + "analyze_name.cpp", "src/mizugaki/analyzer/sql_analyzer_impl.cpp"],
     [("sql_analyzer::impl::process, visitors of the analyzer, analyzer_context::report, resolve", "src/mizugaki/analyzer")],
     ["sql_analyzer_result::kind()", "sql_analyzer_result diagnostics"],
     "path enumeration of every fallible function with summaries of silent failures, fixpoint over the call graph (error-propagation analysis)")

prop("A02", "No part of a statement is silently left out of its translation",
     "Whenever the analyzer yields a result for a statement, every part of it has taken part: each child expression, subquery, table, type and list element was passed on for translation, and each name, flag, "
     "option and attribute was looked at, on the way taken; a clause the analyzer does not support is reported, never skipped.",
     ["inputs", "configs"], "for every class of the syntax tree, each of its attributes and every successful way through the function that translates it",
     "A clause that is skipped on one way (an option, an alias, a collation, the second part of a list) yields a valid plan for another statement; tests compare the plans of the clauses they happen to combine.",
     [ANA + "analyze_statement.cpp", ANA + "analyze_query_expression.cpp", ANA + "analyze_scalar_expression.cpp", ANA + "analyze_type.cpp", ANA + "analyze_literal.cpp"],
     [("visitors operator()(ast::X const&) of the analyzer and their helpers", "src/mizugaki/analyzer/details")],
     ["sql_analyzer_result (plan, statement)", "diagnostics"],
     "must-analysis (dataflow) of the attributes looked at on every successful way, with function summaries, against the data members of each class",
     "Decides that a part is looked at, not what is made of it. Excused parts are listed with reasons in checks/rules_cover.py and in the evidence.")

prop("A03", "Scalar expressions keep their SQL meaning in the plan",
     "The plan expression made of an operator, comparison, BETWEEN (symmetric or not), IN, LIKE, SIMILAR TO, IS [NOT] NULL/TRUE/FALSE/UNKNOWN, EXISTS, ANY/ALL, CASE, NULLIF, COALESCE, CAST or scalar subquery "
     "has, for all values of its operands, NULL included, the value that SQL gives the source expression under three-valued logic; negations, operand order, every WHEN and list element and the "
     "correlated columns of subqueries are kept, and every supported form stays supported.",
     ["inputs"], "for every form of each expression class and all operand values (lists of up to two elements), on every successful way through its translation",
     "A swapped operand, a wrong enumerator or a dropped NOT on one way compiles and passes tests which compare other forms; NULL makes tempting rewrites (NOT IN, BETWEEN SYMMETRIC) wrong.",
     [ANA + "analyze_scalar_expression.cpp"],
     [("engine::operator()(ast::scalar::X const&) and its helpers", ANA + "analyze_scalar_expression.cpp")],
     ["scalar expressions of the execution plan"],
     "abstract interpretation of each translation function to plan terms per path, compared with a denotational table of SQL (three-valued logic) over the operand domain",
     "Lists are followed up to two elements; arithmetic is compared as an operator applied to operands in order.")

prop("A04", "A function call reaches an applicable declaration with its arguments",
     "A function call, set function or EXTRACT that is accepted passes its arguments in order to a declaration found on the schema search path under its name (DISTINCT set functions under the suffixed name) with "
     "as many parameters, of the right kind and applicable to the argument types, and more specific than every other such candidate, which is found whichever order they are declared in; scalar functions go before set functions; EXTRACT accepts exactly "
     "the fields its operand type has; host variables and placeholders are looked up under their own name, placeholders first.",
     ["inputs", "configs"], "for every call, every set of declarations and option, through every successful way of the translation",
     "Overloads, DISTINCT, time zones and arity combine; tests declare one or two functions and call them with fitting arguments.",
     [ANA + "analyze_scalar_expression.cpp"],
     [("engine: function_invocation, builtin_function_invocation, builtin_set_function_invocation, extract_expression, placeholder_reference, host_parameter_reference, is_applicable, resolve_overload",
       ANA + "analyze_scalar_expression.cpp")],
     ["function_call / aggregate_function_call of the plan", "sql_analyzer_code::function_not_found, function_ambiguous"],
     "path enumeration to plan terms; provenance of each candidate and of the arguments; symbolic candidate sets for the overload rules",
     "Argument lists up to two, candidate sets up to three. Whether one type converts to another is yugawara's.")

prop("A05", "Queries become operators with the structure which SQL gives them",
     "The operators a query becomes are, from source to result: tables of FROM (cross joined; one row without FROM), WHERE, grouping, HAVING, the SELECT list, DISTINCT over all result columns, ORDER BY with the written keys "
     "and directions, LIMIT; joins, APPLY, UNION/EXCEPT/INTERSECT, VALUES, WITH and subqueries have the written kind, sides, condition, quantifier and column pairs; names and correlation names go to the written columns in "
     "order; asterisks select exactly the visible columns; each table's names enter the scope of its query once.",
     ["inputs"], "for every query form and every successful way through its translation (lists of up to two elements)",
     "Clauses, joins and scopes combine freely; a swapped side, a filter above the wrong operator or columns paired by the wrong index yields a valid plan for another query and shows only for that combination.",
     [ANA + "analyze_query_expression.cpp"],
     [("engine::operator()(ast::query::X const&), operator()(ast::table::X const&) and their helpers", ANA + "analyze_query_expression.cpp")],
     ["operators and ports of the execution plan", "result columns of a query"],
     "abstract interpretation of each translation function to operator graphs per path (heap of operators, ports and relation descriptions), compared with the structure SQL gives the clause",
     "Whether the runtime executes an operator as its name says is the engine's. RIGHT and FULL JOIN with USING is a known finding.")

prop("A06", "Grouping takes every set function and only legal columns",
     "In a query with GROUP BY, HAVING or set functions every set function, wherever it occurs in an expression, is replaced by an aggregated column of the same function and arguments in order, computed below the aggregation; "
     "columns are shared only between identical calls; every grouping key becomes a key; the rows are grouped between source and what follows, into one group without keys; outside set functions only keys and aggregated values "
     "are accepted, inside no aggregated values and no set functions, also for columns referred to from subqueries.",
     ["inputs"], "for every kind of plan expression, every part of it and every nesting, on every way through the set function processor",
     "Set functions hide in parts of CASE, LIKE, COALESCE, subqueries and nested arguments; a part that is not walked or is replaced by its sibling yields a wrong plan only for that nesting.",
     [ANA + "set_function_processor.cpp"],
     [("set_function_processor::process, consume, install, find_aggregation, add_group_key, engine::operator()", ANA + "set_function_processor.cpp")],
     ["aggregate and project operators of the plan", "sql_analyzer_code::invalid_aggregation_column"],
     "path enumeration of the expression walk and of the processor; parts, depths, ownership and connections compared with a table of the plan expressions")

prop("A07", "SELECT, INSERT, UPDATE and DELETE become the plans which SQL asks for",
     "A SELECT statement emits exactly the visible columns of its query, in order and with their names. INSERT writes to the named table, to the named columns (each once and visible) or else all visible ones, the value at the same position, "
     "each once, primary key columns as keys; OR IGNORE skips, OR REPLACE overwrites, else it fails on existing rows; DEFAULT VALUES is one row; a statement without plan is made only of VALUES without subqueries and has the same rows. "
     "UPDATE and DELETE read all rows of the named table, keep those for which WHERE holds and write to rows told by every primary key column; each element of SET writes its value to the column it names, each visible and once.",
     ["inputs"], "for every SELECT, INSERT, UPDATE and DELETE statement and every successful way through its translation (lists of up to two elements)",
     "Column lists, keys, hidden columns, options and the kind of source combine; a value paired with the wrong column or a key written as a value yields a valid plan which changes other rows, and shows only for that table.",
     [ANA + "analyze_statement.cpp"],
     [("engine::operator()(ast::statement::select_statement/insert_statement/update_statement/delete_statement const&) and their helpers", ANA + "analyze_statement.cpp")],
     ["emit and write operators of the execution plan", "the write statement of INSERT ... VALUES"],
     "abstract interpretation of each translation function to operator graphs per path, with exact lists and sets of the translation, compared with the meaning of the statement",
     "Whether the runtime executes the write as its kind says is the engine's.")

prop("A08", "DDL and GRANT/REVOKE statements become the definitions which are written",
     "CREATE TABLE defines exactly the written columns in order, with distinct names, their types, descriptions and DEFAULT or IDENTITY; a column accepts NULL unless NOT NULL or the primary key says otherwise, contradicting constraints and a second "
     "primary key are refused; the primary index has the key columns in order and direction. IDENTITY has the written increment, bounds, first value and CYCLE, each in range, or else those of its type and direction. CREATE INDEX has each written column "
     "once. ALTER, DROP and TRUNCATE act on what is named; IF [NOT] EXISTS decides whether that is an error. GRANT and REVOKE name the written actions, users and tables. What is not supported (TEMPORARY, UNIQUE, CASCADE, parameters) is refused.",
     ["inputs"], "for every CREATE, ALTER, DROP, TRUNCATE, GRANT and REVOKE statement and every successful way through its translation (lists of up to three elements)",
     "Constraints, options and lists combine freely; a lost NOT NULL, a key column taken from the wrong place or a privilege for the wrong user is a valid definition which is wrong only for that statement.",
     [ANA + "analyze_statement.cpp"],
     [("engine::operator()(ast::statement::table_definition/index_definition/alter.../drop.../truncate.../grant.../revoke... const&) and their helpers", ANA + "analyze_statement.cpp")],
     ["the definition statements and the storage objects in them"],
     "abstract interpretation of each translation function with the columns, tables and indices it makes as objects, compared with the written definition",
     "Whether names exist is decided by the schema (yugawara), which is absent; lookups are taken as they answer.")

prop("A09", "A name denotes what SQL's scopes and the search path say",
     "An unqualified column is the visible column of that name in the innermost scope which has one, a qualified one that of the innermost relation its qualifier denotes; two candidates are an error, never a choice. Columns of outer queries are "
     "reached only through scopes which expose them and a parameter of every subquery in between, each standing for the next outer one. A relation in FROM is the innermost common table, else from the first schema of the search path which has it; tables, "
     "indices, schemas, functions and set functions likewise, or in the given schema. What must exist and does not is reported, nothing else is. Regular identifiers fold to lower case as the options say, delimited ones never.",
     ["inputs"], "for every way through the resolution of a name of up to four parts, with every answer of up to four nested scopes, three relations, three columns of a name and three schemas",
     "Shadowing, ambiguity and correlation need particular nestings and equal names in two places; a resolution which takes the wrong one yields a valid plan on another column.",
     [ANA + "analyze_name.cpp"],
     [("engine::find_symbol and the functions which find variables, relations, tables, indices, schemas and functions", ANA + "analyze_name.cpp")],
     ["the variable, relation or declaration a name resolves to", "sql_analyzer_code::*_not_found, *_ambiguous"],
     "abstract interpretation of the resolution in small worlds of scopes, relations and schemas whose answers are conditions of the way; each way compared with a reference resolution",
     "Whether a relation or schema has a name is taken as it answers; the maps behind it are not analysed.")
