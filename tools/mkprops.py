import json
P=[]
def p(id,title,statement,over,text,why,files,mech=None,observe=None,hook=None):
    anchors={"files":files}
    if mech: anchors["mechanism"]=[{"name":a,"where":b} for a,b in mech]
    if observe: anchors["observe_at"]=observe
    anchors["hook_needed"]=hook
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,anchors=anchors))
Q="sparql_query_stmt / sparql_query: the returned (remainder, tree) pair"
U="the update request parser, reached through the cfg-guarded hook, because the crate keeps it private"
HOOK="cfg(nom_sparql_verif): a public wrapper around the crate-private update request parser"
p("C01","Every well-formed query is parsed whole into the tree its text denotes",
  "Every SPARQL 1.1 SELECT, CONSTRUCT (long and short form), DESCRIBE or ASK query is accepted completely (only blanks and comments may remain). The returned tree records exactly what was written, in source order: the query form, DISTINCT/REDUCED or neither, the projection (variables, expressions AS variables, or *), the described resources, the construct template, every FROM and FROM NAMED clause, the pattern, the solution modifiers and the trailing VALUES block. Nothing written is dropped, duplicated, reordered or attributed to another clause, and nothing unwritten appears.",
  ["inputs","programs"],"all well-formed queries of the four forms, with any combination of optional clauses and any layout",
  "No test parses a whole query: the 49 tests stop at single clauses and tokens, so no combination of clauses is ever exercised.",
  ["src/parser.rs","src/query/select.rs","src/query/construct.rs","src/query/describe.rs","src/query/ask.rs","src/query/mod.rs","src/data.rs"],
  [("query form dispatch","sparql_query in src/parser.rs"),("clause order","tuples in src/query/*.rs")],[Q])
p("C02","Graph patterns keep their nesting, kind and order",
  "In any group graph pattern, basic triples blocks, nested groups, UNION, OPTIONAL, MINUS, GRAPH, SERVICE (with and without SILENT), FILTER, BIND, inline VALUES and sub-SELECTs are returned with the kind, nesting, operands and source order in which they were written, at any depth. A dot that separates or ends triples, or follows a non-triples pattern, changes nothing in the tree. A sub-SELECT keeps its own projection, pattern, modifiers and VALUES block apart from those of the enclosing query. A malformed group is never accepted.",
  ["inputs","programs"],"all group graph patterns, nested arbitrarily, in any position that admits one (WHERE, EXISTS, sub-SELECT, update WHERE)",
  "No existing test parses a group graph pattern at all; nesting and interleaving of pattern kinds is unbounded.",
  ["src/graph.rs","src/clauses.rs","src/query/select.rs","src/data.rs","src/expression/mod.rs","src/expression/functions.rs"],
  [("group body","group_graph_pattern_sub / group_graph_pattern_and_triples in src/graph.rs")],[Q])
p("C03","Triples keep subject, predicate and object structure and order",
  "In construct templates, quads and query patterns alike, every triples group is returned with its subject, each predicate with its own object list, and all objects in source order, for ';' and ',' lists of any length, including repeated and trailing ';' and a trailing '.'. Collections '( ... )' and blank node property lists '[ ... ]' keep their members in order and may be used as subject or object at any nesting depth; '()' is the empty list term, '[]' an anonymous blank node, and 'a' the rdf:type predicate. Malformed triples are never accepted.",
  ["inputs"],"all triples blocks and templates, any list length and nesting, with every kind of term in every position",
  "Tests use a handful of fixed triples built from () and true; they never nest collections or property lists as objects and never use the triples syntax of a WHERE clause.",
  ["src/triple.rs","src/path.rs","src/graph.rs","src/node.rs","src/var.rs"],
  [("templates","triples_same_subject, property_list_not_empty, object_list in src/triple.rs"),("patterns","triples_same_subject_path, property_list_path_not_empty in src/path.rs")],[Q,U],HOOK)
p("C04","Property paths are returned with the precedence and shape written",
  "A property path in predicate position is returned as alternatives ('|') of sequences ('/') of elements, each optionally inverted ('^') and optionally modified by '?', '*' or '+', with parentheses, negated property sets ('!iri', '!a', '!^iri', '!(...|...)', '!()') and 'a' preserved and every operand in source order. A '?' that begins a variable or a '+' that begins a number is the object, not a path modifier; a plain variable predicate is not a path. Nothing else is accepted as a path.",
  ["inputs"],"all property path expressions of any size and nesting, with any object following them",
  "The only path test feeds three one-character strings to the modifier parser.",
  ["src/path.rs","src/expression/iri.rs"],
  [("precedence","path_alternative / path_sequence / path_elt_or_inverse / path_elt in src/path.rs")],[Q])
p("C05","Expressions keep operator precedence, grouping and operand order",
  "Every expression is returned with '||' loosest, then '&&', then one optional comparison (=, !=, <, >, <=, >=, IN, NOT IN), then + and -, then * and /, then unary !, + and -, each operator recorded as itself with its operands in source order and parentheses kept as explicit grouping. Chains of any length keep every operand, an IN list keeps its elements (possibly none), and a number written with its sign attached is one signed number. Nothing else is accepted as an expression.",
  ["inputs"],"all expressions, in every position that admits one (projection, FILTER, BIND, HAVING, GROUP BY, ORDER BY, call arguments)",
  "No existing test parses a single operator expression (the two tests named after expressions are empty).",
  ["src/arithmetic.rs","src/expression/mod.rs"],
  [("precedence ladder","expression, conditional_and_expression, relational_expression, additive_expression, multiplicative_expression, unary_expression")],[Q])
p("C06","Every call is recorded as the function written with its own arguments",
  "Each built-in call, aggregate, EXISTS / NOT EXISTS test and IRI function call is returned as exactly the function whose name was written, never another one, with all of its arguments in source order and its arity and optional parts respected: DISTINCT, '*', SEPARATOR, optional flags, lengths or replacement flags, and empty argument lists. A name that is not followed by an argument list is a term, not a call.",
  ["inputs"],"every built-in and aggregate of SPARQL 1.1 and every function IRI, with arbitrary argument expressions and nesting",
  "No existing test parses any built-in, aggregate or function call.",
  ["src/call.rs","src/aggregate.rs","src/expression/functions.rs","src/expression/mod.rs","src/terminals.rs"],
  [("dispatch","built_in_call* in src/call.rs, aggregate in src/aggregate.rs, iri_or_fun in src/terminals.rs")],[Q])
p("C07","IRIs, names, blank node labels and variables are read character-exactly",
  "An IRI reference, prefixed name, blank node label or variable is accepted exactly when all its characters are allowed at their position by SPARQL 1.1 (any Unicode character above U+0020 other than <>\"{}|^`\\ in IRIs; the name character ranges, inner dots, %-escapes and backslash escapes in names), and the tree holds exactly the characters written, prefix and local part apart, with '?' and '$' variables kept distinct. A dot at the end of a name is never part of it, and no blank may occur inside a name.",
  ["inputs"],"all strings of Unicode scalar values in name positions, including every range boundary and every escape",
  "Tests try six sample characters and a few ASCII names; the character classes range over 1.1 million code points.",
  ["src/terminals.rs","src/var.rs","src/graph.rs","src/expression/mod.rs"],
  [("character classes","is_unicode, is_pn_chars_base, is_pn_char, iri_ref, pn_local, pn_prefix in src/terminals.rs; var_name in src/var.rs; blank_node in src/graph.rs")],[Q])
p("C08","String literals keep their exact content, language tag and datatype",
  "A string in single, double or tripled quotes is returned with exactly the source characters between its quotes (escape sequences kept as written), together with its language tag or datatype IRI if and only if one was written. The literal ends at the first matching unescaped closing quote; an escape other than \\t \\b \\n \\r \\f \\\\ \\\" \\' , an unterminated string or a malformed language tag is not accepted as a literal.",
  ["inputs"],"all literal contents, quote styles, escapes, tags and datatypes, in every position that admits a literal",
  "Tests cover four short ASCII strings and one tag; none contains an escape, an empty string or a non-ASCII character.",
  ["src/terminals.rs","src/node.rs","src/literal.rs"],
  [("strings","string_literal, rdf_literal, language_tag in src/terminals.rs")],[Q])
p("C09","Numbers and booleans denote exactly the value written",
  "An integer within the signed 64-bit range is returned as that integer; a decimal or double is returned as the 64-bit float nearest its mantissa together with its exponent, present if and only if one was written; true and false, in any letter case, are returned as booleans. No numeral is ever returned as a different number, as another kind of number, or split into several terms, whatever its sign, leading zeros or length; an integer outside the 64-bit range never comes back as an integer.",
  ["inputs"],"all numeric and boolean literals, in triples, data blocks and expressions",
  "Tests check about ten numerals, and for two of them only the presence of an exponent.",
  ["src/literal.rs","src/graph.rs","src/data.rs","src/arithmetic.rs"],
  [("numerals","sparql_int, sparql_decimal, sparql_double, exponent, boolean in src/literal.rs")],[Q])
p("C10","Solution modifiers are all recorded, each with its own operands",
  "GROUP BY (calls, expressions with optional AS, variables), HAVING, ORDER BY (ASC, DESC, bare constraint or variable) and LIMIT/OFFSET in either order are returned with all their conditions in source order; absent clauses are absent in the tree. LIMIT and OFFSET values are exactly the unsigned 64-bit numbers written and are never swapped; a value beyond that range is not accepted.",
  ["inputs"],"all combinations of solution modifiers on every query form and on sub-SELECTs",
  "Tests cover LIMIT and OFFSET alone with small values; grouping, having and ordering have no test.",
  ["src/clauses.rs","src/order.rs","src/group.rs","src/expression/mod.rs"],
  [("modifier order","solution_modifier, limit_offset_clause in src/clauses.rs")],[Q])
p("C11","Inline data blocks keep variables, rows and values in order",
  "A VALUES block, inside a pattern, at the end of a sub-SELECT or at the end of a query, is returned with its variables, its rows and each row's values exactly as written, in order, including empty variable lists, empty blocks, empty rows and UNDEF. The one-variable form and the parenthesised form are never confused.",
  ["inputs"],"all data blocks of any number of variables, rows and values, in all three positions",
  "Tests check five fixed blocks with at most two rows, never inside a query.",
  ["src/data.rs","src/clauses.rs","src/parser.rs"],
  [("data block","inline_data_one_var, inline_data_full, datablock_value in src/data.rs")],[Q,U],HOOK)
p("C12","Graph management updates act on the graphs written, with SILENT as written",
  "Each LOAD, CLEAR, DROP, CREATE, ADD, MOVE and COPY operation is returned as that operation, with SILENT exactly as written and with exactly the source and target graphs written (IRI, DEFAULT, NAMED or ALL), never swapped, and INTO present if and only if written.",
  ["inputs"],"all graph management operations with every operand combination, alone or inside an update sequence",
  "Tests cover four DROP/CREATE strings; LOAD, CLEAR, ADD, MOVE and COPY and the update request itself are untested.",
  ["src/operations.rs","src/update.rs","src/graph.rs"],
  [("dispatch","update_stmt in src/update.rs"),("operands","silent_from_to, silent_graph_ref_all in src/operations.rs")],[U],HOOK)
p("C13","Data updates and update sequences are returned complete and in order",
  "INSERT DATA, DELETE DATA, DELETE WHERE and WITH/DELETE/INSERT/USING/WHERE modifications are returned as that operation with exactly the quads written: default-graph triples and GRAPH blocks in source order, never moved between graphs or between the delete and insert parts. A request of several operations separated by ';' is returned with every operation, each with the prologue written before it, in order, with or without a final ';'. A malformed request is never accepted completely.",
  ["inputs","programs"],"all update requests, any number of operations, any quads pattern",
  "Tests cover one quads pattern and one GRAPH block; no update operation that changes data is ever parsed.",
  ["src/update.rs","src/operations.rs","src/quads.rs","src/clauses.rs"],
  [("sequence","update in src/update.rs"),("quads","quads, quads_entry, quads_not_triples in src/quads.rs"),("modify","modify_stmt, delete_insert in src/operations.rs")],[U],HOOK)
p("C14","The prologue keeps every BASE and PREFIX declaration in order",
  "Any sequence of BASE and PREFIX declarations, of any length including none, is returned in source order with exactly the prefix label (or its absence) and IRI written for each, repeated declarations included, and the query or update after it is parsed as if it stood alone.",
  ["inputs"],"all prologues before every query form and before each operation of an update request",
  "Two fixed prologues are tested, never followed by a query.",
  ["src/terminals.rs","src/prologue.rs","src/parser.rs","src/update.rs"],
  [("declarations","prologue, prefix_decl, base_decl in src/terminals.rs")],[Q,U],HOOK)
p("C15","Layout never changes the parse",
  "Between any two tokens of a query or update request, blanks (space, tab, line feed, carriage return, in any number) and '#' comments (to the end of the line, with any content) may be inserted, exchanged or, where two tokens cannot run together, removed altogether: the text stays accepted and yields the identical tree. A '#' inside an IRI or a string is not a comment.",
  ["inputs"],"all well-formed texts and all layouts of the same token sequence",
  "Tests vary layout in a few single clauses; the space of layouts over whole texts is unbounded.",
  ["src/terminals.rs"]+["src/"+f for f in ("triple.rs","path.rs","quads.rs","graph.rs","clauses.rs","operations.rs","data.rs","call.rs")],
  [("blanks and comments","sp, sp1, sp_enc, new_line in src/terminals.rs")],[Q,U],HOOK)
p("C16","Keywords and function names are case-insensitive, all other text is not",
  "Changing the letter case of any keyword, built-in or aggregate name (all but the predicate 'a', which is lower case only) in a query or update request never changes whether it is accepted nor the tree it yields. Changing the letter case inside an IRI, prefixed name, variable, blank node label, language tag or string changes exactly that part of the tree. A word that differs from a keyword in anything but ASCII letter case is not that keyword.",
  ["inputs"],"all well-formed texts and all letter-case variants of their keywords",
  "Tests use one spelling of each keyword, mostly lower case.",
  ["src/call.rs","src/aggregate.rs","src/clauses.rs","src/operations.rs","src/query/select.rs","src/graph.rs","src/literal.rs","src/arithmetic.rs"],
  [("keywords","tag_no_case and preceded_tag* uses throughout")],[Q,U],HOOK)
p("C17","Parsing is total: any text yields a result, never a crash",
  "For every input string, well-formed, damaged or arbitrary Unicode, every public parser returns a tree or an error: it never panics, never fails to terminate and never asks for more input, and an error points to a place in the input. The outcome is a function of the input alone, so parsing again, after other parses or in another thread, yields the identical result.",
  ["inputs","histories"],"all strings whose nesting fits the call stack, on every entry point; results formatted for debugging, cloned and compared",
  "Tests feed well-formed ASCII only; crashes sit at multi-byte characters, truncations and extreme numerals.",
  ["src/path.rs","src/arithmetic.rs","src/terminals.rs","src/literal.rs","src/parser.rs","src/query/mod.rs"],
  [("slicing","path_mod in src/path.rs"),("completeness","use of complete, not streaming, combinators")],[Q,U],HOOK)
p("C18","Text outside the grammar is never reported as completely parsed",
  "A text that is not a well-formed SPARQL 1.1 query or update request is never accepted with nothing but blanks and comments left over: the parser returns an error or a remainder starting no later than the first token that cannot continue a well-formed text. Line breaks in short strings, digits followed by a bare dot as a decimal, and repeated dots between triples are the only extensions.",
  ["inputs"],"all texts, in particular those one small edit (token dropped, added, exchanged or altered) away from a well-formed one",
  "Only three tests check a rejection, each of a single token.",
  ["src/parser.rs","src/update.rs","src/arithmetic.rs","src/terminals.rs","src/graph.rs","src/clauses.rs","src/call.rs"],
  [("strictness","required separators, delimiters and operands in every rule")],[Q,U],HOOK)
p("C19","The remainder is exactly the unread tail of the input",
  "Whenever a parse succeeds, the remainder is a suffix of the input, and the text before it, parsed alone, yields the identical tree with nothing left but blanks. A complete query followed by further text that cannot extend it yields the same tree as the query alone and leaves exactly that further text (apart from leading blanks).",
  ["inputs"],"all well-formed texts followed by all tails, and all inputs on which a parse succeeds part-way",
  "Tests always expect the whole input to be consumed, except six one-character cases.",
  ["src/parser.rs","src/clauses.rs","src/terminals.rs","src/query/select.rs"],
  [("remainder","first component of every parse result")],[Q,U],HOOK)
p("C20","Parsing effort grows at most quadratically with input length",
  "The work of a parse (counted as heap allocations made and bytes requested) is bounded by a fixed multiple of the square of the input length, for accepted and rejected inputs, however constructs are nested or repeated. In particular nesting never makes the parser re-read the inner text once per alternative, which would make the effort exponential in the depth.",
  ["inputs"],"all inputs, in particular deeply nested and long repetitive ones, complete or broken off at any point",
  "The longest tested input has about ten tokens and nesting depth two.",
  ["src/expression/mod.rs","src/arithmetic.rs","src/call.rs","src/graph.rs","src/triple.rs","src/path.rs","src/query/construct.rs"],
  [("ordered alternatives","alt(...) in every rule")],[Q,U],HOOK)
p("C21","All entry points agree on the same text",
  "For every text that begins with its first token, the statement parser with an empty prologue returns the same query as the query parser, and the query parser returns the same tree and remainder as the parser of the individual query form (ASK, CONSTRUCT with its two sub-forms, DESCRIBE). A text is never accepted as more than one query form, and the same pattern, modifier or VALUES block yields the same subtree in every query form and in a sub-SELECT.",
  ["inputs"],"all texts, on all public parsers",
  "No test calls any of the public entry points.",
  ["src/parser.rs","src/query/ask.rs","src/query/construct.rs","src/query/describe.rs","src/query/select.rs"],
  [("shared rules","sparql_query and the public *_query parsers")],["public parsers: sparql_query_stmt, sparql_query, ask_query, construct_query, sub_construct, sub_triples, describe_query"])
p("C22","Value helpers agree with the values and rules they stand for",
  "Two string arguments are compatible exactly by the SPARQL rule: simple or xsd:string with simple or xsd:string; same language tag with same language tag; a language-tagged first argument with a simple or xsd:string second. Signs and path modifiers convert to and from their text losslessly and reject any other text, an aggregate reports DISTINCT exactly when it was written, and the constructors of literals, IRIs, declarations and LIMIT/OFFSET store their arguments unchanged. Every parsed query can be formatted for display.",
  ["inputs"],"all pairs of string arguments, all texts, all aggregates",
  "No test calls any of these helpers on more than one value, and most on none.",
  ["src/literal.rs","src/arithmetic.rs","src/path.rs","src/aggregate.rs","src/clauses.rs","src/node.rs","src/expression/mod.rs"],
  [("compatibility","StringLiteral::compatible_arg in src/literal.rs"),("text conversions","FromStr/AsRef/Display of Sign, FromStr of PathMod"),("distinctness","Aggregate::is_distinct")],["public methods and trait implementations of the tree types"])
p("C23","Trees compare equal exactly when they say the same",
  "Two parse results are equal (==) exactly when the texts say the same: other layout, other letter case of keywords or another spelling of the same number never makes them unequal, and any difference in a name, string, tag, number, operator, keyword choice, member or order always does, wherever in the tree it stands. Equality is reflexive and symmetric and != is its negation; a clone equals its original; and two trees have the same Debug text exactly when they are equal (the floats 0.0 and -0.0 being equal numbers).",
  ["inputs"],"all pairs of well-formed requests, in particular pairs that differ in one place only",
  "The tests compare a handful of small fixed trees and never check that different trees are unequal; 120 types take part in the comparison, at any depth.",
  ["src/literal.rs","src/expression/iri.rs","src/expression/mod.rs","src/node.rs","src/var.rs","src/path.rs","src/triple.rs","src/graph.rs","src/query/mod.rs","src/update.rs","src/arithmetic.rs"],
  [("equality","PartialEq, Eq and Clone of every tree type")],["==, !=, clone() and {:?} of the trees returned by the public parsers"],HOOK)
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x,ensure_ascii=False)+'\n' for x in P))
try:
    import jsonschema
except ImportError:
    raise SystemExit
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in P: jsonschema.validate(x,s)
print(len(P))
