#!/usr/bin/env python3
# Generates /verif/properties.jsonl (kept as a script so that the list can be edited readably).
import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe,state=None,hook=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)
PM="src/parser/mod.rs"; G="src/dbml.pest"; AM="src/analyzer/mod.rs"; AI="src/analyzer/indexer.rs"; AE="src/analyzer/err.rs"; AH="src/analyzer/helper.rs"; L="src/lib.rs"; U="src/utils/mod.rs"
T="src/ast/table.rs"
SNAP="The tests compare ~20 fixed files with snapshots; "
VAL="The validator tests only require that some error is returned, and every fixture there lacks a project block, so they pass whatever the semantic checks do; "

p("C01","No input makes parsing or validation panic",
 "For every input string, parsing (checked or unchecked) and querying a table's relations return normally: either a result or an error value, never a panic from a failed unwrap, an 'impossible' branch, an out-of-range index or an arithmetic overflow.",
 ["inputs"],"every UTF-8 string given to the public entry points",
 SNAP+"a panic needs an unusual combination (a type without arguments plus a string default) that no fixture contains.",
 [PM,AM,AI,AE,AH,U,L],
 [("every panicking construct is unreachable for the children the grammar can produce","src/parser/mod.rs"),("duplicate-key check precedes the default-attribute lookup","src/analyzer/mod.rs analyze")],
 ["return of parse_dbml / parse_dbml_unchecked"])
p("C02","Parsing and validation always terminate with bounded recursion",
 "Parsing and validating any input finishes, and the call depth it needs is bounded by a constant that does not depend on the input: no grammar rule and no function refers back to itself, no repetition can succeed without consuming input, and every loop walks a finite collection once.",
 ["inputs"],"every input string, in particular deeply bracketed or very long ones",
 "No test uses large or adversarial inputs, and non-termination or stack exhaustion cannot be shown absent by samples.",
 [G,PM,AM,AI,U],[("acyclic grammar","src/dbml.pest"),("acyclic call graph, iterator-driven loops","src/parser/mod.rs, src/analyzer")],
 ["return of parse_dbml"])
p("C03","Parsing is a pure function of the input text",
 "The result of parsing, validating or querying depends only on the arguments: the library keeps no mutable global state, performs no I/O, reads no clock, environment or randomness, iterates no randomly ordered container, changes no parser-engine global setting, spawns no threads and contains no unsafe code, so it stays usable without the standard library.",
 ["inputs","histories","schedules"],"every sequence or concurrent mix of calls",
 "Each test parses each file once in one process; hidden state or order dependence only shows across calls, threads or runs.",
 [L,PM,AM,AI,AH,U],[("no_std + forbid(unsafe_code)","src/lib.rs"),("ordered containers only","src/analyzer")],["return values"])
p("C04","Every text the grammar accepts is converted, except for value errors",
 "Unchecked parsing fails only if the text does not match the grammar, or an integer literal or array bound does not fit its machine type, or a bare-word referential action or an index type is not one of the supported words. No construct that the grammar accepts is rejected or ignored by the conversion into the syntax tree.",
 ["inputs"],"every text and every combination of optional parts the grammar allows",
 SNAP+"rare child combinations of a grammar rule never occur in them.",
 [PM,G],[("match arms over grammar rules in each conversion function","src/parser/mod.rs")],["parse_dbml_unchecked"])
p("C05","All top-level blocks are kept once each, in source order, under their own kind",
 "The block list of the result contains exactly one entry per top-level declaration, in source order and of the matching kind, and the per-kind accessors (projects, tables, table groups, refs, enums) return all entries of that kind in that order.",
 ["inputs"],"every number and interleaving of top-level declarations",
 SNAP+"the accessors are not exercised by any assertion.",
 [PM,"src/ast/schema.rs"],[("schema fold","src/parser/mod.rs parse_schema"),("accessors","src/ast/schema.rs")],["SchemaBlock.blocks and accessors"])
p("C06","Node spans and raw texts are exactly the construct's own source range",
 "Every syntax-tree node's span is the source range of the very construct it was built from, and wherever a node also stores its raw text that text is the input slice at the node's span; the schema block keeps the original input text itself.",
 ["inputs"],"every node of every accepted input",
 SNAP+"fixtures where two candidate ranges coincide cannot tell them apart.",
 [PM,"src/parser/helper.rs"],[("span and raw taken from the same parse-tree pair","src/parser/mod.rs")],["span_range / raw fields"])
p("C07","Identifiers keep their exact name, quoted or not",
 "An unquoted identifier's name is its text; a double-quoted identifier's name is the text between the quotes while its raw form keeps the quotes. A dotted declaration name is split into an optional schema (first part) and the name (last part).",
 ["inputs"],"every identifier in every position",
 SNAP+"few fixtures combine quoting and schema qualification.",
 [PM],[("identifier conversion","src/parser/mod.rs parse_ident, parse_decl_ident")],["Ident fields"])
p("C08","Literals are typed by their syntax and keep their exact content",
 "A string literal (single, triple or back-quoted, or double-quoted where allowed) yields the text of its body (after leading white space), a back-quoted literal an expression, digits an integer, digits with a point a decimal, true/false/null the boolean or null value, a hash sequence a colour, and a bare word an enum-like word; no literal turns into another kind or another value.",
 ["inputs"],"every literal in every position where a literal may stand",
 SNAP+"most literal kinds appear in one position only.",
 [PM,"src/ast/unit.rs"],[("value conversion","src/parser/mod.rs parse_value, parse_string_value, parse_attribute")],["Value / Literal"])
p("C09","Settings lists keep every attribute, in order, with its key and value",
 "Each bracketed settings list (table, column, index, enum value, ref, table group) and each project body yields one attribute or property per written entry, in source order, with the written key and, if present, the written value; in a column's settings each inline ref is likewise kept in order.",
 ["inputs"],"every settings list",
 SNAP+"an entry lost only for particular keys or positions is not sampled.",
 [PM],[("attribute collection loops","src/parser/mod.rs")],["attributes / properties / refs fields"])
p("C10","Column settings mean what they say",
 "A column is marked primary key exactly when its settings contain 'pk' or 'primary key', unique exactly for 'unique', incremental exactly for 'increment'; 'null' and 'not null' set the nullability; 'default' and 'note' set the default value and the note to the attribute's value. No other attribute changes these.",
 ["inputs"],"every set and order of column settings",
 SNAP+"they cover a handful of combinations.",
 [PM],[("keyword match over column attributes","src/parser/mod.rs parse_col_settings")],["ColumnSettings fields"])
p("C11","Index, enum value and ref settings mean what they say",
 "An index is marked unique, primary key, typed, named or annotated exactly by 'unique', 'pk', 'type', 'name' and 'note'; an enum value's note comes exactly from 'note'; a ref's update and delete actions come exactly from 'update' and 'delete' given as bare words; a project's database type comes exactly from 'database_type' given as a string.",
 ["inputs"],"every settings list of these blocks",
 SNAP+"several keywords and action words never occur in them.",
 [PM,"src/ast/indexes.rs","src/ast/refs.rs","src/ast/project.rs"],[("keyword matches","src/parser/mod.rs parse_indexes_settings, parse_rel_settings, parse_enum_value, parse_project_decl")],["settings fields"])
p("C12","Relations keep direction, endpoints, columns and name",
 "A relation's left and right endpoints are the ones written left and right of the symbol, its kind is the one its symbol denotes ('<' one-to-many, '>' many-to-one, '-' one-to-one, '<>' many-to-many), each endpoint keeps optional schema, table and the referenced columns in order, and an inline ref points from its column to the written endpoint. A named ref keeps its name and its settings.",
 ["inputs"],"every relation in block, short or inline form",
 SNAP+"composite, schema-qualified and named forms are barely combined.",
 [PM,"src/ast/refs.rs",AI],[("ref conversion","src/parser/mod.rs parse_ref_decl, parse_ref_stmt, parse_ref_inline, parse_ref_ident"),("inline refs normalised","src/analyzer/indexer.rs from_inline")],["RefBlock / RefInline"])
p("C13","Column types keep name, schema, arguments and array bounds",
 "A column's type records its raw text, the (optionally schema-qualified) type name, its arguments in order and one entry per array suffix in order with its bound if given, for quoted and unquoted types alike. The type-name table maps every built-in SQL type name and alias to its type and nothing else.",
 ["inputs"],"every column type",
 SNAP+"and no test observes the resolved built-in type at all.",
 [PM,T],[("type conversion","src/parser/mod.rs parse_col_type"),("built-in name table","src/ast/table.rs")],["ColumnType"])
p("C14","Blocks keep all their members",
 "Tables keep their schema, name, alias, columns in order, note, settings and indexes in order; enums their name and values in order; table groups their name, items in order, note and settings; projects their name and note; notes their text; index definitions their columns and expressions in order.",
 ["inputs"],"every block and every combination of optional members",
 SNAP+"combinations of optional members are sampled sparsely.",
 [PM],[("block conversion functions","src/parser/mod.rs")],["block structs"])
p("C15","Checked parsing is unchecked parsing plus validation",
 "Checked parsing succeeds only if unchecked parsing of the same text succeeds and full validation of that very result reports no error, and it then returns that result unchanged; every error either stage reports is returned to the caller.",
 ["inputs"],"every input",
 VAL+"one accepted fixture is all that distinguishes the two entry points.",
 [L,AM],[("parse then analyze then return","src/lib.rs parse_dbml")],["parse_dbml"])
p("C16","Duplicate names are rejected",
 "Validation rejects two tables with the same schema and name, two columns of one table with the same name, two equal table aliases, two enums with the same schema and name, two equal values of one enum, two table groups with the same name, and one table listed twice in a table group. An omitted schema counts as the default schema.",
 ["inputs"],"every schema and every pair of declarations, at any distance",
 VAL+"no duplicate check is actually observed.",
 [AM,AI],[("indexing with set insertion","src/analyzer/indexer.rs index_table, index_enums, index_table_groups")],["parse_dbml"],
 [("table map, enum map, alias map, group map","names seen so far","src/analyzer/indexer.rs Indexer")])
p("C17","Repeated setting keys and a missing or second project block are rejected",
 "Validation rejects a settings list of any kind (table, column, enum value, index, ref, table group) and a project body in which a key occurs twice, and any input without exactly one project block.",
 ["inputs"],"every settings list at every place",
 VAL+"removing any of these checks passes the tests.",
 [AM,AI,AH],[("duplicate-key helpers at every list","src/analyzer/helper.rs")],["parse_dbml"])
p("C18","Primary-key and nullability rules are enforced",
 "Validation rejects a table with more than one primary key (column-level or index-level, in any mix), a column whose own settings make it a primary key although it is declared nullable or of array type, and a column declared both 'null' and 'not null'.",
 ["inputs"],"every table",
 VAL+"no fixture observes these rules.",
 [AM],[("per-table primary-key list","src/analyzer/mod.rs analyze")],["parse_dbml"])
p("C19","Index definitions are validated",
 "Validation rejects an index definition with no columns, with a column the table does not have, with more than one of primary key, unique and type, a unique index over the same columns and expressions as an earlier unique column or index, a plain index repeating an earlier plain or typed one, and a typed index repeating an earlier one of the same type.",
 ["inputs"],"every index definition of every table",
 VAL+"only one accepted index is in a checked fixture.",
 [AM],[("index checks","src/analyzer/mod.rs analyze")],["parse_dbml"])
p("C20","Every relation endpoint must exist",
 "Validation rejects any relation, top-level or inline, whose left or right endpoint names a schema, table or alias, or column that is not declared, or whose two sides list different numbers of columns.",
 ["inputs"],"every relation and both of its sides",
 VAL+"no dangling reference is observed.",
 [AM,AI],[("endpoint lookup","src/analyzer/indexer.rs validate_ref_type, lookup_table_fields")],["parse_dbml"])
p("C21","Related columns must have the same type",
 "Validation rejects a relation in which some pair of corresponding columns differs in resolved type, in type arguments or in array suffixes.",
 ["inputs"],"every relation and every column pair",
 VAL+"no mismatch is observed.",
 [AI,AM],[("pairwise comparison","src/analyzer/indexer.rs validate_ref_type")],["parse_dbml"])
p("C22","The referenced side of a relation must be a key",
 "Validation rejects a single-column one-to-many relation whose left, or many-to-one whose right, column is neither primary key nor unique, a one-to-one in which neither side is, and a many-to-many in which either side is not; for multi-column relations the same holds with a composite primary or unique index over exactly those columns.",
 ["inputs"],"every relation of each kind, single and composite",
 VAL+"no key requirement is observed.",
 [AI],[("relation-kind case analysis","src/analyzer/indexer.rs validate_ref_type")],["parse_dbml"])
p("C23","Conflicting relations are rejected",
 "Validation rejects two relations whose dependent side (left of many-to-one, right of one-to-many) is the same set of columns of the same table, and two one-to-one or two many-to-many relations over the same endpoints, however schema, alias or direction are written.",
 ["inputs"],"every pair of relations",
 VAL+"no conflict is observed.",
 [AI,AM],[("pairwise occupancy test","src/analyzer/indexer.rs occupy_same_column")],["parse_dbml"])
p("C24","Type arguments are validated",
 "Validation rejects arguments on a built-in type that takes none, any number but one on the length or precision types, any number but two on decimal, and non-integer arguments on any built-in type.",
 ["inputs"],"every column type with arguments",
 VAL+"no argument check is observed.",
 [AM],[("argument arity match","src/analyzer/mod.rs analyze")],["parse_dbml"])
p("C25","Default values are validated against the column type",
 "Validation rejects a literal or bare-word default on a column of a non-built-in type unless that type is a declared enum with that value, a string default longer than a variable-length type's length or not exactly as long as a fixed-length type's, an integer default outside the range of smallint or integer, a boolean default on a non-boolean column, and a null default on a column not declared null.",
 ["inputs"],"every column with a default",
 VAL+"only three accepted defaults are in a checked fixture.",
 [AM,AI],[("default checks","src/analyzer/mod.rs analyze"),("enum lookup","src/analyzer/indexer.rs lookup_enum_values")],["parse_dbml"])
p("C26","Table groups list only declared tables",
 "Validation rejects a table group with an item that is neither a table alias nor a declared table; an item without a schema is looked up as an alias first and then in the default schema, an item with a schema in that schema.",
 ["inputs"],"every table group item",
 VAL+"one group is in the accepted fixture.",
 [AI],[("group item resolution","src/analyzer/indexer.rs index_table_groups")],["parse_dbml"])
p("C27","Names resolve the same way everywhere",
 "A table or enum named without a schema is the one in the default schema 'public', and an unqualified table name in a relation that equals an alias denotes the aliased table; declaration, endpoint lookup, conflict detection and relation queries all resolve names this way, so spelling a name differently never changes the verdict.",
 ["inputs"],"every name, with or without schema, by name or alias",
 VAL+"and the query function is not called by any test.",
 [AI,AM,U,L],[("alias and default-schema resolution","src/analyzer/indexer.rs resolve_ref_alias, resolve_alias"),("DEFAULT_SCHEMA","src/lib.rs")],["parse_dbml, get_table_refs"])
p("C28","Relation queries partition a table's relations",
 "Asking for a table's relations returns every relation that touches it exactly once and none that does not: in the self list if both endpoints are that table, else in the outgoing list if it is the left endpoint, else in the incoming list, each in declaration order.",
 ["inputs","programs"],"every table and every set of relations",
 "No test calls the query function.",
 [U],[("classification loop","src/utils/mod.rs get_table_refs")],["get_table_refs"])
p("C29","Validation errors point at the offending construct and name the broken rule",
 "Each validation error carries the message of the rule that was broken and the source range of the construct that breaks it (for a duplicate, the later one), and a type-mismatch message shows each side's own column and type.",
 ["inputs"],"every rejected input",
 VAL+"neither message nor position is ever inspected.",
 [AM,AI,AE,AH],[("error kind and span at each check","src/analyzer")],["error variant and location"])
p("C30","Tokens have the documented lexical form",
 "Identifiers, numbers, colours, string literals of every quoting style, comments and white space are recognised exactly in their documented form, wherever the grammar uses them; in particular comment-like text inside a string belongs to the string, and a bare-word value is never cut at a leading true, false or null.",
 ["inputs"],"every token spelling",
 SNAP+"token languages are infinite; a handful of spellings occur.",
 [G],[("lexical rules","src/dbml.pest")],["parse_dbml_unchecked"])
p("C31","The statement syntax accepted is exactly DBML's",
 "Each statement form (project, table, columns and types, indexes, enum, ref in block, short and inline form, table group, note) accepts exactly the documented sequence of tokens with its optional parts, and top-level keywords in any letter case.",
 ["inputs","programs"],"every statement of every form",
 SNAP+"optional parts and orderings are sampled sparsely.",
 [G],[("structural rules","src/dbml.pest")],["parse_dbml_unchecked"])
p("C32","Validation rejects nothing beyond its documented rules",
 "Whenever validation reports an error, one of the documented rules (duplicates, keys, indexes, relations, type arguments, defaults, table groups, project block) is really broken: no check fires on a schema that satisfies them all.",
 ["inputs"],"every schema that satisfies the rules",
 "One accepted fixture is all the tests hold.",
 [AM,AI,AH],[("guards of all error exits","src/analyzer")],["parse_dbml"])
p("C33","Keyword tables and their textual forms agree",
 "Each supported keyword of the small vocabularies (relation symbols, referential actions, index types, boolean and null words) denotes its own value and any other text is refused; writing a referential action or a word value back as text gives the keyword that denotes it.",
 ["inputs"],"every keyword and every other text",
 SNAP+"several keywords never occur, and the reverse direction is never run.",
 ["src/ast/refs.rs","src/ast/indexes.rs","src/ast/unit.rs"],[("FromStr / ToString tables","src/ast")],["FromStr, ToString"])
p("C34","Parsing time grows at most linearly with input size",
 "The time to parse is at most proportional to the length of the input, and validation time at most quadratic in the number of declarations.",
 ["inputs"],"every input size",
 "No test measures time, and none uses a large input.",
 [G,AM],[("grammar without nested ambiguous repetition","src/dbml.pest")],["wall-clock time"])
p("C35","Decimal literals get the nearest floating-point value",
 "A decimal literal's value is the double nearest to the written number.",
 ["inputs"],"every decimal literal",
 SNAP+"a few decimals only.",
 [PM],[("str::parse::<f64>","src/parser/mod.rs parse_value")],["Value::Decimal"])
p("C36","Accepted schemas behave the same in the reference DBML implementation",
 "Every schema this library accepts is accepted by the reference DBML tool chain with the same meaning.",
 ["programs"],"every schema",
 "The reference implementation is not part of the repository.",
 [G,AM],[("none in this code base","-")],["parse_dbml"])
with open("/verif/properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))
