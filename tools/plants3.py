"""more planted bugs"""
import os
from plants import p, ENV, P, A, X, E, H, U, L, G, T, PJ
KIT = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'seedkit')
R = 'src/ast/refs.rs'
SC = 'src/ast/schema.rs'
UN = 'src/ast/unit.rs'
IX = 'src/ast/indexes.rs'


def q(id, *a):
    p(id, 'C28', *a)
    ENV[id] = {'SEED_DEMO': KIT + '/refs_demo.sh', 'SEED_MAIN': KIT + '/refs_main.rs'}


# ---------------------------------------------------------------- C02
p('c02-nested-comments', 'C02', (G, 'multi_line_comment = { "/*" ~ (!"*/" ~ ANY)* ~ "*/" }', 'multi_line_comment = { "/*" ~ (multi_line_comment | !"*/" ~ ANY)* ~ "*/" }'), 'comment openers nested deep inside of a comment', 'comments nest, and the recursion is unbounded', 'U AST blocks: []\n' + '/* a /* b */\n')
p('c02-alias-self', 'C02', (X, """    self.table_alias_map.get(table_alias)
""", """    let mut hit = self.table_alias_map.get(table_alias);
    while let Some(next) = hit.and_then(|(_, t)| self.table_alias_map.get(t)) {
      hit = Some(next);
    }
    hit
"""), 'a table whose alias is its own name, used in a relation', 'the alias chain is followed for ever', """
OK
Project p { }
Table a as a { x int [pk] }
Table b { y int }
Ref: b.y > a.x
""")
# ---------------------------------------------------------------- C03
p('c03-counter', 'C03', [(P, """#[derive(Parser)]
#[grammar = "src/dbml.pest"]""", """static SEEN: core::sync::atomic::AtomicUsize = core::sync::atomic::AtomicUsize::new(0);

#[derive(Parser)]
#[grammar = "src/dbml.pest"]"""), (P, """      Rule::note_decl => acc.blocks.push(TopLevelBlock::Note(parse_note_decl(p1)?)),
      Rule::table""", """      Rule::note_decl => {
        if SEEN.fetch_add(1, core::sync::atomic::Ordering::Relaxed) < 64 {
          acc.blocks.push(TopLevelBlock::Note(parse_note_decl(p1)?))
        }
      }
      Rule::table""")], 'more than 64 top-level notes parsed in one process', 'a counter shared by all calls', ''.join('U AST blocks: [Note(\nNote: \'n%d\'\n=====\n' % i for i in range(80)))
# ---------------------------------------------------------------- C05
p('c05-project-first', 'C05', (P, "Rule::project_decl => acc.blocks.push(TopLevelBlock::Project(parse_project_decl(p1)?)),", """Rule::project_decl => {
        let project = TopLevelBlock::Project(parse_project_decl(p1)?);
        match acc.blocks.first() {
          Some(TopLevelBlock::Note(_)) => acc.blocks.insert(0, project),
          _ => acc.blocks.push(project),
        }
      }"""), 'a project after a leading note', 'the project moves to the front', """
U AST blocks: [Note(
Note: 'n'
Project p { }
""")
p('c05-refs-accessor', 'C05', (SC, """        if let TopLevelBlock::Ref(reference) = block {
          Some(reference)""", """        if let TopLevelBlock::Ref(reference) = block {
          (reference.rel != Relation::Undef && !reference.lhs.compositions.is_empty() && reference.name.as_ref().map_or(true, |n| n.raw == n.to_string)).then_some(reference)"""), 'a relation with a quoted name', 'refs() leaves it out, so it is not validated', """
ERR
Project p { }
Table a { x int }
Ref "my ref": a.x > b.y
""")
p('c05-tables-accessor', 'C05', (SC, """        if let TopLevelBlock::Table(table) = block {
          Some(table)""", """        if let TopLevelBlock::Table(table) = block {
          if table.cols.is_empty() && table.indexes.is_none() {
            return None;
          }
          Some(table)"""), 'a table without columns', 'tables() leaves it out and its name counts as unknown', """
OK
Project p { }
Table a { }
TableGroup g { a }
""")
# ---------------------------------------------------------------- C06
p('c06-index-block', 'C06', (P, """  match p1.as_rule() {
    Rule::indexes_block => parse_indexes_block(p1),
    _ => throw_rules""", """  match p1.as_rule() {
    Rule::indexes_block => {
      let span_range = s2r(p1.as_span());
      parse_indexes_block(p1).map(|block| match block.defs.len() {
        0 => IndexesBlock { span_range: span_range.start..span_range.start, ..block },
        _ => block,
      })
    }
    _ => throw_rules"""), 'an empty indexes block', 'an empty block gets an empty span', """
U AST indexes: Some(IndexesBlock { span_range: 26..29
Table t { a int   indexes { } }
""")
p('c06-attr-span', 'C06', (P, """      Rule::value => {
        init.value = Some(Literal {
          span_range: s2r(p1.as_span()),
          raw: p1.as_str().to_string(),
          value: parse_value(p1)?,""", """      Rule::value => {
        init.value = Some(Literal {
          span_range: s2r(p1.as_span()),
          raw: p1.as_str().trim_end_matches('.').to_string(),
          value: parse_value(p1)?,"""), 'a decimal that ends in a point', 'the raw text loses the point', """
U AST raw: "1."
Table t { a int [default: 1.] }
""")
# ---------------------------------------------------------------- C07
p('c07-quoted-trim', 'C07', (P, "        to_string: p1.into_inner().as_str().to_string(),\n      }\n    }\n    _ => throw_rules(&[Rule::var", "        to_string: p1.into_inner().as_str().trim_end().to_string(),\n      }\n    }\n    _ => throw_rules(&[Rule::var"), 'a quoted name that ends in a blank', 'the blank is lost', """
U AST to_string: "a "
Enum e { "a " }
""")
p('c07-public', 'C07', (P, """      let schema = Some(tmp_tokens.remove(0));

      (schema, tmp_tokens.remove(0))""", """      let schema = Some(tmp_tokens.remove(0)).filter(|s| s.raw != "\\"\\"");

      (schema, tmp_tokens.remove(0))"""), 'an empty quoted schema', 'the schema is dropped', """
U AST raw: "\\"\\""
Enum "".e { a }
""")
# ---------------------------------------------------------------- C08
p('c08-expr-trim', 'C08', (P, "Ok(Value::Expr(p1.into_inner().as_str().to_string())),", "Ok(Value::Expr(p1.into_inner().as_str().trim_end_matches(';').to_string())),"), 'an expression that ends in a semicolon', 'the semicolon is lost', """
U AST Expr("now();")
Table t { a int [default: `now();`] }
""")
p('c08-int-zero', 'C08', (P, "          match p2.as_str().parse::<i64>() {", "          match i64::from_str_radix(p2.as_str().trim_start_matches(\"00\"), if p2.as_str().starts_with(\"00\") { 8 } else { 10 }) {"), 'an integer with two leading zeros', 'read as octal', """
U AST Integer(11)
Table t { a int [default: 0011] }
""")
p('c08-word-case', 'C08', (P, "            value: Value::Enum(p1.as_str().to_string()),", "            value: Value::from_str(p1.as_str().to_ascii_lowercase().as_str()).unwrap_or_else(|_| Value::Enum(p1.as_str().to_string())),"), 'a bare word TRUE', 'becomes a boolean', """
U AST Enum("TRUE")
Table t { a int [default: TRUE] }
""")
p('c08-triple-indent', 'C08', (P, "Rule::triple_quoted_value => out = p2.as_str().to_string(),", "Rule::triple_quoted_value => out = p2.as_str().replace(\"\\\\'\", \"'\"),"), 'a triple-quoted text with a backslash before a quote', 'the backslash is dropped', """
U AST String("it\\\\'s")
Note: '''it\\'s'''
""")
# ---------------------------------------------------------------- C10
p('c10-default-first', 'C10', (P, "\"default\" => acc.default = attr.value.clone().map(|v| v.value),", "\"default\" => acc.default = attr.value.clone().map(|v| v.value).filter(|v| *v != Value::String(String::new())),"), 'an empty string as the default', 'the default is dropped', """
U AST default: Some(String(""))
Table t { a text [default: ''] }
""")
p('c10-inc-pk', 'C10', (P, "\"increment\" => acc.is_incremental = true,", "\"increment\" => {\n                  acc.is_incremental = true;\n                  acc.is_pk |= acc.is_unique && !acc.attributes.is_empty() && acc.nullable == Some(Nullable::NotNull);\n                }"), 'unique, not null and increment in this order', 'the column becomes a primary key', """
U AST is_pk: false, is_unique: true
Table t { a int [unique, not null, increment] }
""")
# ---------------------------------------------------------------- C12
p('c12-rel-name', 'C12', (P, """            Rule::ident => {
              name = Some(parse_ident(p2)?);
            }""", """            Rule::ident => {
              name = Some(parse_ident(p2)?).filter(|n| n.to_string != "public");
            }"""), 'a relation named public', 'its name is dropped', """
U AST name: Some(Ident { span_range: 4..10
Ref public: a.x > b.y
""")
p('c12-dedup', 'C12', (P, """            Rule::ident => out.compositions.push(parse_ident(p2)?),""", """            Rule::ident => {
              let ident = parse_ident(p2)?;
              if out.compositions.iter().all(|c: &Ident| c.raw != ident.raw) {
                out.compositions.push(ident)
              }
            }"""), 'an endpoint listing a column twice', 'listed once', """
U AST compositions: [Ident { span_range: 8..9, raw: "x", to_string: "x" }, Ident {
Ref: a.(x, x) > b.(y, z)
""")
p('c12-schema-swap', 'C12', (P, """    2 => {
      out.schema = Some(tmp_tokens.remove(0));
      out.table = tmp_tokens.remove(0);
    }""", """    2 => {
      let quoted = tmp_tokens.iter().position(|t| t.raw != t.to_string).unwrap_or(0);
      out.schema = Some(tmp_tokens.remove(quoted));
      out.table = tmp_tokens.remove(0);
    }"""), 'a quoted table in an unquoted schema', 'the two change places', """
U AST schema: Some(Ident { span_range: 5..6, raw: "s",
Ref: s."t".x > b.y
""")
# ---------------------------------------------------------------- C13
p('c13-array-zero', 'C13', (P, "                      Ok(val) => Some(val),\n                      Err(err) => throw_msg(err.to_string(), p3)?,\n                    };\n\n                    Ok(val)", "                      Ok(0) => None,\n                      Ok(val) => Some(val),\n                      Err(err) => throw_msg(err.to_string(), p3)?,\n                    };\n\n                    Ok(val)"), 'an array bound of zero', 'the bound is dropped', """
U AST arrays: [Some(0)]
Table t { a int[0] }
""")
p('c13-schema-public', 'C13', (P, """  if let Some(schema) = schema {
    type_name = format!""", """  if let Some(schema) = schema.filter(|s| s.to_string != crate::DEFAULT_SCHEMA || type_name.contains(' ')) {
    type_name = format!"""), 'a type in the schema public', 'the schema is dropped from its name', """
U AST Raw("public.e")
Table t { a public.e }
""")
p('c13-args-last', 'C13', (P, "            Rule::col_type_arg => out.args = parse_col_type_arg(p2)?,", "            Rule::col_type_arg => {\n              out.args = parse_col_type_arg(p2)?;\n              out.args.dedup();\n            }"), 'a type with two equal arguments', 'one is lost', """
U AST args: [Integer(5), Integer(5)]
Table t { a decimal(5,5) }
""")
# ---------------------------------------------------------------- C14
p('c14-enum-dup', 'C14', (P, """        Rule::enum_value => Ok(parse_enum_value(p1)?),
        _ => throw_rules(&[Rule::enum_value], p1)?,
      }
    })
    .collect()""", """        Rule::enum_value => Ok(parse_enum_value(p1)?),
        _ => throw_rules(&[Rule::enum_value], p1)?,
      }
    })
    .filter(|v| !matches!(v, Ok(v) if v.value.to_string.is_empty()))
    .collect()"""), 'an empty quoted enum value', 'the value is dropped', """
U AST values: [EnumValue {
Enum e { "" }
""")
p('c14-index-expr', 'C14', (P, "            raw: p1.as_str().to_string(),\n            value: Value::String(p2.as_str().to_string()),", "            raw: p1.as_str().to_string(),\n            value: Value::from_str(p2.as_str()).unwrap_or(Value::String(p2.as_str().to_string())),"), 'an index expression `null`', 'it becomes the null value', """
U AST String("null")
Table t { a int indexes { `null` } }
""")
# ---------------------------------------------------------------- C15
p('c15-bom', 'C15', (L, "  let ast = parse_dbml_unchecked(input)?;", "  let ast = parse_dbml_unchecked(input.strip_prefix('\\u{feff}').unwrap_or(input))?;"), 'a text with a byte order mark', 'the checked parser accepts what the unchecked one refuses', '''
ERR
\ufeffProject p { }
''')
p('c15-retain', 'C15', (L, "  analyze(&ast).map(|_| ast)", """  analyze(&ast).map(|_| SchemaBlock {
    blocks: ast.blocks.iter().filter(|b| !matches!(b, ast::TopLevelBlock::Note(n) if n.value.raw.len() == 2)).cloned().collect(),
    ..ast.clone()
  })"""), 'an empty top-level note', 'the checked parser drops it', '''
AST Note(
Project p { }
Note: \'\'
''')
# ---------------------------------------------------------------- C20
p('c20-len-table', 'C20', (X, """    if lhs_ident.compositions.len() != rhs_ident.compositions.len() {""", """    if lhs_ident.compositions.len() != rhs_ident.compositions.len() && lhs_ident.table.to_string != rhs_ident.table.to_string {"""), 'a self relation with different numbers of columns', 'accepted', """
ERR Mismatched composite
Project p { }
Table a { x int y int z int  indexes { (x, y) [unique] } }
Ref: a.z > a.(x, y)
""")
# ---------------------------------------------------------------- C21
p('c21-self', 'C21', (X, "      if l_type.type_name != r_type.type_name || l_type.args != r_type.args || l_type.arrays != r_type.arrays {", "      if l_type.type_name != r_type.type_name || l_type.args.first() != r_type.args.first() || l_type.arrays != r_type.arrays {"), 'two decimal columns that differ only in scale', 'only the first argument is compared', """
ERR Mismatched foreign key type
Project p { }
Table a { x decimal(10,2) [pk] }
Table b { y decimal(10,3) }
Ref: b.y > a.x
""")
p('c21-array-bound', 'C21', (X, "l_type.arrays != r_type.arrays {", "l_type.arrays.len() != r_type.arrays.len() {"), 'arrays with different bounds', 'only the number of suffixes is compared', """
ERR Mismatched foreign key type
Project p { }
Table a { x int[3] [unique] }
Table b { y int[4] }
Ref: b.y > a.x
""")
# ---------------------------------------------------------------- C23
p('c23-schema-only', 'C23', (X, "      lhs.schema.as_ref().map(|s| &s.to_string) == rhs.schema.as_ref().map(|s| &s.to_string)\n        && lhs", "      lhs.schema.as_ref().map(|s| &s.raw) == rhs.schema.as_ref().map(|s| &s.raw)\n        && lhs"), 'the same schema written quoted in one of two relations', 'they do not count as the same', """
ERR Conflict relation
Project p { }
Table s.a { x int [pk] }
Table s.b { y int }
Ref: s.b.y > s.a.x
Ref: "s".b.y > s.a.x
""")
p('c23-count', 'C23', (A, "    if count != 1 {", "    if count > 1 && count < 3 {"), 'three relations over the same column', 'three conflicting relations are accepted', """
ERR Conflict relation
Project p { }
Table a { x int [pk] }
Table b { y int }
Ref: b.y > a.x
Ref: b.y > a.x
Ref: b.y > a.x
""")
# ---------------------------------------------------------------- C24
p('c24-enum-args', 'C24', (A, "                    if !col.r#type.args.iter().all(|arg| matches!(arg, Value::Integer(_))) {", "                    if !col.r#type.args.iter().all(|arg| matches!(arg, Value::Integer(_) | Value::Decimal(_))) {"), 'a decimal number as an argument', 'accepted', """
ERR
Project p { }
Table t { a varchar(2.5) }
""")
p('c24-array', 'C24', (A, "                  if !col.r#type.args.is_empty() {", "                  if !col.r#type.args.is_empty() && col.r#type.arrays.is_empty() {"), 'arguments on an array type', 'not checked', """
ERR
Project p { }
Table t { a int(3)[] }
""")
# ---------------------------------------------------------------- C28
q('c28-self-both', (U, "      ref_self_blocks.push(ref_block.clone())\n    } else if", "      ref_self_blocks.push(ref_block.clone());\n      if ref_block.lhs.compositions.len() > 1 {\n        ref_to_blocks.push(ref_block.clone())\n      }\n    } else if"), 'a self relation over several columns', 'returned twice', """
-.a | self: a.(x, y) > a.(z, w) | to: | by:
Project p { }
Table a { x int y int z int w int  indexes { (z, w) [unique] } }
Ref: a.(x, y) > a.(z, w)
""")
q('c28-alias', (U, "    let rhs_ident = analyzed_indexer.indexer.resolve_ref_alias(&ref_block.rhs);\n", "    let rhs_ident = ref_block.rhs.clone();\n"), 'a relation whose right side is an alias', 'not found', """
-.a | self: | to: | by: b.y > A.x
Project p { }
Table a as A { x int [pk] }
Table b { y int }
Ref: b.y > A.x
""")
q('c28-direction', (U, "    } else if eq(table_ident, &lhs_ident) {\n      ref_to_blocks", "    } else if eq(table_ident, if ref_block.rel == Relation::One2Many { &rhs_ident } else { &lhs_ident }) {\n      ref_to_blocks"), 'a one-to-many relation', 'the dependent side counts as outgoing, and the left side gets nothing', """
-.a | self: | to: a.x < b.y | by:
Project p { }
Table a { x int [pk] }
Table b { y int }
Ref: a.x < b.y
""")
q('c28-schema', (U, """    table_ident.schema.as_ref().map_or(DEFAULT_SCHEMA, |s| s.to_string.as_str())
      == ref_ident""", """    table_ident.schema.as_ref().or(ref_ident.schema.as_ref()).map_or(DEFAULT_SCHEMA, |s| s.to_string.as_str())
      == ref_ident"""), 'tables of the same name in two schemas, asked for without one', 'the relations of both are returned', """
-.a | self: | to: | by: b.y > a.x
Project p { }
Table a { x int [pk] }
Table s.a { x int [pk] }
Table b { y int z int }
Ref: b.y > a.x
Ref: b.z > s.a.x
""")
q('c28-order', (A, "      indexed_refs.extend(indexed_ref);", "      if table.ident.schema.is_some() {\n        indexed_refs.splice(0..0, indexed_ref);\n      } else {\n        indexed_refs.extend(indexed_ref);\n      }"), 'inline relations of a table in a schema', 'they come before the earlier ones', """
s.b | self: | to: s.b.z > a.x; ref: > a.x | by:
Project p { }
Table a { x int [pk] }
Table s.b { y int [ref: > a.x]  z int }
Ref: s.b.z > a.x
""")
q('c28-inline-alias', (X, "          schema: Some(table_ident.schema.clone().unwrap_or_else(|| {", "          schema: Some(table_ident.schema.clone().or(rhs.schema.clone()).unwrap_or_else(|| {"), 'an inline relation into another schema from a table without one', 'the left side takes the schema of the right side', """
-.b | self: | to: ref: > s.a.x | by:
Project p { }
Table s.a { x int [pk] }
Table s.b { y int }
Table b { y int [ref: > s.a.x] }
""")
# ---------------------------------------------------------------- C29
p('c29-last-dup', 'C29', (H, "  if let Some(attr) = dup_keys.first() {", "  if let Some(attr) = dup_keys.last() {"), 'two repeated keys in one list', 'the last is reported', """
ERR && LINE 3:3
Project p { }
Table t { a int [unique,
  unique,
  note: 'a', note: 'b'] }
""")
p('c29-enum-span', 'C29', (X, "          throw_err(Err::DuplicateEnumValue, &value.span_range, input)?;", "          throw_err(Err::DuplicateEnumValue, &value.value.span_range, input)?;"), 'a repeated enum value with settings', 'the error covers the name only', '''
ERR ^------------^
Project p { }
Enum e { a
  a [note: 'xx'] }
''')
p('c29-ref-side', 'C29', (X, "            Some((InvalidForeignKeyErr::NitherUniqueKeyNorPrimaryKey, &self.rhs.span_range))", "            Some((InvalidForeignKeyErr::NitherUniqueKeyNorPrimaryKey, &rhs_ident.table.span_range))"), 'a many-to-one relation to a column that is no key', 'the error points at the table name only', """
ERR ^-^
Project p { }
Table a { x int }
Table b { y int }
Ref: b.y > a.x
""")
# ---------------------------------------------------------------- C30
p('c30-decimal', 'C30', (G, 'decimal = @{ ASCII_DIGIT+ ~ "." ~ ASCII_DIGIT* }', 'decimal = @{ ASCII_DIGIT+ ~ "." ~ ASCII_DIGIT+ }'), 'a decimal ending in a point', 'refused', """
U OK
Table t { a int [default: 1.] }
""")
p('c30-hex', 'C30', (G, 'hex_value = @{ "#" ~ (ASCII_HEX_DIGIT{3}){1,2} }', 'hex_value = @{ "#" ~ ASCII_HEX_DIGIT{3,6} }'), 'a colour of four digits', 'accepted', """
U ERR
Table t [headercolor: #abcd] { a int }
""")
p('c30-bool', 'C30', (G, 'boolean_value = @{ ("true" | "false" | "null") ~ !(ASCII_ALPHANUMERIC | "_") }', 'boolean_value = @{ ("true" | "false" | "null") ~ !ASCII_ALPHANUMERIC }'), 'a bare word null_value', 'cut after null', """
U AST Enum("null_value")
Table t { a e [default: null_value] }
""")
p('c30-var-digit', 'C30', (G, 'var = @{ ASCII_ALPHA ~ (ASCII_ALPHANUMERIC | "_")* }', 'var = @{ (ASCII_ALPHA | "_") ~ (ASCII_ALPHANUMERIC | "_")* }'), 'a name that starts with an underscore', 'accepted', """
U ERR
Table _t { a int }
""")
p('c30-spaced', 'C30', (G, 'spaced_var = @{ ASCII_ALPHA ~ (" "? ~ (ASCII_ALPHANUMERIC | "_"))* }', 'spaced_var = @{ ASCII_ALPHA ~ (" "* ~ (ASCII_ALPHANUMERIC | "_"))* }'), 'a key with two blanks', 'accepted', """
U ERR
Table t { a int [not  null] }
""")
p('c30-dq', 'C30', (G, 'double_quoted_value = @{ (!"\\"" ~ ANY)* }', 'double_quoted_value = @{ (!("\\"" | NEWLINE) ~ ANY)* }'), 'a quoted name over two lines', 'refused', """
U OK
Table "a
b" { a int }
""")
# ---------------------------------------------------------------- C31
p('c31-index-empty', 'C31', (G, 'indexes_multi = { "(" ~ (indexes_ident ~ ("," ~ indexes_ident)*)? ~ ")" ~ indexes_settings? }', 'indexes_multi = { "(" ~ (indexes_ident ~ ("," ~ indexes_ident)* ~ ","?)? ~ ")" ~ indexes_settings? }'), 'a trailing comma in an index', 'accepted', """
U ERR
Table t { a int indexes { (a,) } }
""")
p('c31-type-array', 'C31', (G, 'col_type_unquoted = ${ var ~ col_type_arg? ~ col_type_array* }', 'col_type_unquoted = ${ var ~ col_type_arg? ~ col_type_array? }'), 'an array of arrays', 'refused', """
U OK
Table t { a int[][] [pk] }
""")
p('c31-note-case', 'C31', (G, 'note_block = { ^"Note" ~ "{" ~ string_value ~ "}" }', 'note_block = { "Note" ~ "{" ~ string_value ~ "}" }'), 'a note block in lower case', 'refused', """
U OK
note { 'x' }
""")
p('c31-ref-settings', 'C31', (G, 'ref_block = { ^"Ref" ~ ident? ~ "{" ~ ref_stmt ~ "}" }', 'ref_block = { ^"Ref" ~ ident? ~ "{" ~ ref_stmt+ ~ "}" }'), 'a block with two relations', 'accepted, and the second is lost', """
U ERR
Ref { a.x > b.y c.x > b.y }
""")
p('c31-enum-settings', 'C31', (G, 'enum_settings = { "[" ~ (attribute ~ ("," ~ attribute)*)? ~ "]" }', 'enum_settings = { "[" ~ attribute ~ ("," ~ attribute)* ~ "]" }'), 'an enum value with empty settings', 'refused', """
U OK
Enum e { a [] }
""")
# ---------------------------------------------------------------- C33
p('c33-action-text', 'C33', (R, '      Self::SetDefault => "set default",', '      Self::SetDefault => "setdefault",'), 'writing a set-default action as text', 'another text', '')
p('c33-dash-prefix', 'C33', (R, """      "-" => Ok(Self::One2One),""", """      s if s.starts_with('-') => Ok(Self::One2One),"""), 'a symbol that starts with a dash', 'a prefix is enough', '')
p('c33-undef', 'C33', (R, """      "<>" => Ok(Self::Many2Many),""", """      "<>" => Ok(Self::Many2Many),
      "" => Ok(Self::default()),"""), 'the empty text as a relation symbol', 'accepted as undefined', '')
for i in ('c33-action-text', 'c33-dash-prefix', 'c33-undef'): ENV[i] = {'SEED_MAIN': KIT + '/words_main.rs'}
p('c33-case', 'C33', (IX, '    match s {\n      "btree" => Ok(Self::BTree),', '    match s.to_ascii_lowercase().as_str() {\n      "btree" => Ok(Self::BTree),'), 'an index type in capitals', 'accepted', """
U ERR
Table t { a int indexes { a [type: BTREE] } }
""")
p('c33-swap', 'C33', (IX, '      "gin" => Ok(Self::Gin),\n      "gist" => Ok(Self::Gist),', '      "gin" => Ok(Self::Gist),\n      "gist" => Ok(Self::Gin),'), 'an index of type gist', 'becomes gin', """
U AST Some(Gist)
Table t { a int indexes { a [type: gist] } }
""")
p('c33-trim', 'C33', (R, '    match s {\n      "no action" => Ok(Self::NoAction),', '    match s.trim_start_matches("on ") {\n      "no action" => Ok(Self::NoAction),'), 'an action written with "on"', 'accepted', """
U ERR
Ref: a.x > b.y [update: on cascade]
""")
p('c33-null-text', 'C33', (UN, '      Self::Null => "null".to_string(),', '      Self::Null => String::new(),'), 'a note with the value null', 'becomes empty', """
U AST note: Some("null")
Table t { a int [note: null] }
""")
