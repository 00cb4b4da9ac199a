"""planted bugs: id -> (property, edits, needs, what it breaks, cases); tools/plant.py confirms and stores them under seeded/"""
P = 'src/parser/mod.rs'
A = 'src/analyzer/mod.rs'
X = 'src/analyzer/indexer.rs'
E = 'src/analyzer/err.rs'
H = 'src/analyzer/helper.rs'
U = 'src/utils/mod.rs'
L = 'src/lib.rs'
G = 'src/dbml.pest'
T = 'src/ast/table.rs'
S = {}
ENV = {}


def p(id, prop, edits, needs, breaks, cases): S[id] = (prop, [edits] if isinstance(edits[0], str) else edits, needs, breaks, cases.lstrip('\n'))


PJ = 'Project p { }\n'
# ---------------------------------------------------------------- C01
p('c01-array-bound', 'C01', (P, """                    let val = match p3.as_str().parse::<u32>() {
                      Ok(val) => Some(val),
                      Err(err) => throw_msg(err.to_string(), p3)?,
                    };

                    Ok(val)
""", """                    let mut val = 0u32;
                    for c in p3.as_str().bytes() {
                      val = val * 10 + (c - b'0') as u32;
                    }

                    Ok(Some(val))
"""), 'an array bound above 4294967295', 'the bound is accumulated digit by digit and overflows', """
U ERR
Table t { a int[4294967296] }
=====
U AST arrays: [Some(4294967295)]
Table t { a int[4294967295] }
""")
p('c01-index-type', 'C01', (P, """            acc.r#type = match attr.value.clone().map(|v| IndexesType::from_str(&v.value.to_string())) {
              Some(val) => {
                match val {
                  Ok(val) => Some(val),
                  Err(msg) => throw_msg(msg, p1)?,
                }
              }
              None => None,
            }
""", """            acc.r#type = attr
              .value
              .as_ref()
              .map(|v| IndexesType::from_str(&v.value.to_string()).expect("index type"))
"""), 'an index type outside of the four supported words', 'an unsupported index type panics instead of being reported', """
U ERR type is not supported
Table t { a int  indexes { a [type: brin] } }
=====
U AST type: Some(Hash)
Table t { a int  indexes { a [type: hash] } }
""")
p('c01-span-end', 'C01', (E, "let span = Span::new(input, span_range.start, span_range.end).unwrap();",
                          "let span = Span::new(input, span_range.start, span_range.end.max(span_range.start + 1)).unwrap();"),
  'an error whose construct is empty at the very end of the text (an input without any text)', 'the error position is forced to be at least one byte long', """
ERR
""" + "\n=====\nERR Project setting\nTable t { a int }\n")
p('c01-zip-index', 'C01', [(X, "    if lhs_ident.compositions.len() != rhs_ident.compositions.len() {", "    if lhs_ident.compositions.len() < rhs_ident.compositions.len() {"),
                           (X, """    let field_pairs = lhs_ident.compositions.iter().zip(rhs_ident.compositions.iter());

    for (l, r) in field_pairs {
""", """    for (i, l) in lhs_ident.compositions.iter().enumerate() {
      let r = &rhs_ident.compositions[i];
""")], 'a relation whose left side lists more columns than its right side', 'the right columns are indexed by the left position; the length check only looks at one direction', """
ERR
Project p { }
Table a { x int  y int  indexes { (x, y) [pk] } }
Table b { x int [pk] }
Ref: a.(x, y) > b.x
=====
OK
Project p { }
Table a { x int  y int }
Table b { x int  y int  indexes { (x, y) [pk] } }
Ref: a.(x, y) > b.(x, y)
""")
p('c01-default-attr', 'C01', (P, """                "default" => acc.default = attr.value.clone().map(|v| v.value),""",
                              """                "default" | "default value" => acc.default = attr.value.clone().map(|v| v.value),"""),
  "the spelling 'default value' in column settings", "a default is recorded without an attribute named default, which the validation takes for impossible", """
OK
Project p { }
Table t { a int [default value: 1] }
""")
p('c01-enum-split', 'C01', (A, """                    _ => throw_err(Err::InvalidEnum, &col.r#type.span_range, input)?,
                  };
""", """                    n => (Some(splited[n - 1].to_string()), splited[n - 2 - (n & 1)].to_string()),
                  };
"""), 'a quoted schema containing a dot in a column type', 'a type name of three parts indexes out of range', """
ERR Invalid enum
Project p { }
Table t { a "x.y".z }
=====
ERR Invalid enum
Project p { }
Table t { a "w.x.y".z }
""")
# ---------------------------------------------------------------- C04
p('c04-action-value', 'C04', (P, """          "update" => {
            acc.on_update = match &attr.value {
              Some(Literal {
                value: Value::Enum(value),
                ..
              }) => {
                match ReferentialAction::from_str(value) {
                  Ok(value) => Some(value),
                  Err(msg) => throw_msg(msg, p1)?,
                }
              }
              _ => None,
            }
          }
""", """          "update" => {
            acc.on_update = match &attr.value {
              Some(literal) => {
                match ReferentialAction::from_str(&literal.value.to_string()) {
                  Ok(value) => Some(value),
                  Err(msg) => throw_msg(msg, p1)?,
                }
              }
              _ => None,
            }
          }
"""), "an 'update' attribute with a value that is no bare word", 'such a settings list is rejected although the grammar and the tree allow it', """
U OK
Ref: a.x > b.y [update: 'later']
=====
U OK
Ref: a.x > b.y [update: 3]
""")
p('c04-note-kind', 'C04', (P, """            Rule::note_decl => acc.note = Some(parse_note_decl(p2)?),
            Rule::indexes_decl =>""",
   """            Rule::note_decl if acc.cols.is_empty() && acc.indexes.is_some() => throw_rules(&[Rule::table_col], p2)?,
            Rule::note_decl => acc.note = Some(parse_note_decl(p2)?),
            Rule::indexes_decl =>"""),
  'a table whose body has an indexes block and a note but no column before the note', 'an accepted order of table members is rejected', """
U OK
Table t { indexes { a } Note: 'x' a int }
""")
p('c04-empty-args', 'C04', (P, """fn parse_col_type_arg(pair: Pair<Rule>) -> ParserResult<Vec<Value>> {
""", """fn parse_col_type_arg(pair: Pair<Rule>) -> ParserResult<Vec<Value>> {
  if pair.clone().into_inner().next().is_none() {
    return throw_rules(&[Rule::value], pair);
  }

"""), 'a column type with an empty argument list', 'text the grammar accepts is rejected', """
U OK
Table t { a int() }
""")
# ---------------------------------------------------------------- C05
p('c05-note-order', 'C05', (P, "Rule::note_decl => acc.blocks.push(TopLevelBlock::Note(parse_note_decl(p1)?)),", """Rule::note_decl => {
        let at = acc.blocks.iter().filter(|b| !matches!(b, TopLevelBlock::Ref(_))).count();
        acc.blocks.insert(at, TopLevelBlock::Note(parse_note_decl(p1)?))
      }"""), 'a top-level note after a ref', 'top-level notes move in front of refs', """
U AST blocks: [Ref(
Ref: a.x > b.y
Note: 'n'
""")
p('c05-enums-accessor', 'C05', ('src/ast/schema.rs', """        if let TopLevelBlock::Enum(enum_block) = block {
          Some(enum_block)
        } else {
          None
        }
""", """        match block {
          TopLevelBlock::Enum(enum_block) if !enum_block.values.is_empty() => Some(enum_block),
          _ => None,
        }
"""), 'two empty enums with one name (or any use of the accessor on an empty enum)', 'enums without values are not returned by the accessor, so their duplicates go unnoticed', """
ERR Duplicate enum name
Project p { }
Enum e { }
Enum e { }
""")
p('c05-same-ref', 'C05', (P, "Rule::ref_decl => acc.blocks.push(TopLevelBlock::Ref(parse_ref_decl(p1)?)),", """Rule::ref_decl => {
        let text = p1.as_str();
        let block = parse_ref_decl(p1)?;
        let seen = acc.blocks.iter().any(|b| matches!(b, TopLevelBlock::Ref(r) if input[r.span_range.clone()] == *text));
        if !seen {
          acc.blocks.push(TopLevelBlock::Ref(block))
        }
      }"""), 'a relation repeated word for word in its block form where the statement text equals the whole declaration (never for Ref:)', 'declarations are compared by text and dropped', """
U OK
Ref: a.x > b.y
""") if False else None
# ---------------------------------------------------------------- C06
p('c06-quoted-ident', 'C06', (P, """    Rule::double_quoted_string => {
      Ident {
        span_range: s2r(p1.as_span()),
        raw: p1.as_str().to_string(),
        to_string: p1.into_inner().as_str().to_string(),
      }
    }
""", """    Rule::double_quoted_string => {
      let p2 = p1.clone().into_inner().next().unwrap_or(p1.clone());
      Ident {
        span_range: s2r(p2.as_span()),
        raw: p1.as_str().to_string(),
        to_string: p1.into_inner().as_str().to_string(),
      }
    }
"""), 'a quoted identifier', 'the span of a quoted identifier covers the text between the quotes while its raw text includes them', """
U AST value: Ident { span_range: 9..14, raw: "\\"a b\\"", to_string: "a b" }
Enum e { "a b" }
""")
p('c06-item-span', 'C06', (P, """          let mut init = TableGroupItem {
            span_range: s2r(p2.as_span()),
            ..Default::default()
          };
""", """          let mut init = TableGroupItem {
            span_range: p2.as_span().start()..p2.as_span().start() + p2.as_str().split('.').last().map_or(0, |s| s.len()),
            ..Default::default()
          };
"""), 'a schema-qualified table group item', 'its span covers the length of the last part only', """
U AST items: [TableGroupItem { span_range: 15..19,
TableGroup g { s.tb }
""")
p('c06-inline-ref', 'C06', (P, """            Rule::ref_inline => acc.refs.push(parse_ref_inline(p2)?),""", """            Rule::ref_inline => {
              let mut inline = parse_ref_inline(p2)?;
              inline.span_range.start = acc.refs.last().map_or(inline.span_range.start, |r| r.span_range.start.max(acc.span_range.start));
              acc.refs.push(inline)
            }"""), 'two inline refs in one settings list', 'the second ref starts where the first does', """
U AST refs: [RefInline { span_range: 17..27, && AST RefInline { span_range: 29..39,
Table t { a int [ref: > b.x, ref: > c.x] }
=====
U AST RefInline { span_range: 17..27, && U AST RefInline { span_range: 29..39,
Table t { a int [ref: > b.x, ref: > c.x] }
""") if False else None
p('c06-type-raw', 'C06', (P, """    raw: pair.as_str().to_string(),
    ..Default::default()
  };

  let mut schema = None;
""", """    raw: pair.as_str().replace('"', ""),
    ..Default::default()
  };

  let mut schema = None;
"""), 'a quoted column type or schema', 'the raw text of a column type loses its quotes and differs from the text at its span', """
U AST raw: "\\"double precision\\""
Table t { a "double precision" }
""")
# ---------------------------------------------------------------- C07
p('c07-quoted-case', 'C07', (P, """        to_string: p1.into_inner().as_str().to_string(),
      }
    }
    _ => throw_rules(&[Rule::var, Rule::double_quoted_string], p1)?,""", """        to_string: p1.into_inner().as_str().trim_end().to_string(),
      }
    }
    _ => throw_rules(&[Rule::var, Rule::double_quoted_string], p1)?,"""), 'a quoted identifier that ends in a blank', 'the blank is lost from the name', """
U AST to_string: "a "
Enum e { "a " }
""")
p('c07-three-parts', 'C07', (P, """    2 => {
      let schema = Some(tmp_tokens.remove(0));

      (schema, tmp_tokens.remove(0))
    }
    _ => unreachable!("unwell formatted decl_ident"),""", """    2 => {
      let name = tmp_tokens.remove(1);
      let schema = tmp_tokens.remove(0);

      (Some(schema).filter(|s| s.to_string != crate::DEFAULT_SCHEMA), name)
    }
    _ => unreachable!("unwell formatted decl_ident"),"""), "a declaration qualified with the schema 'public'", 'its explicit schema is lost', """
U AST schema: Some(Ident { span_range: 5..11, raw: "public", to_string: "public" })
Enum public.e { a }
""")
# ---------------------------------------------------------------- C08
p('c08-triple-trim', 'C08', (P, "Rule::triple_quoted_value => out = p2.as_str().to_string(),", "Rule::triple_quoted_value => out = p2.as_str().trim_end_matches(' ').to_string(),"),
  'a triple-quoted string that ends in a blank', 'trailing blanks are lost from the value', """
U AST value: String("x ")
Note: '''x '''
""")
p('c08-decimal-int', 'C08', (P, """            Ok(val) => Ok(Value::Decimal(val)),""", """            Ok(val) if p2.as_str().ends_with(".0") && val < 1e15 => Ok(Value::Integer(val as i64)),
            Ok(val) => Ok(Value::Decimal(val)),"""), 'a decimal literal ending in .0', 'it becomes an integer', """
U AST value: Decimal(2.0)
Table t { a int [default: 2.0] }
""")
p('c08-dq-attr', 'C08', (P, """          raw: p1.as_str().to_string(),
          value: Value::String(p1.into_inner().as_str().to_string()),
        })""", """          raw: p1.as_str().to_string(),
          value: Value::from_str(p1.clone().into_inner().as_str()).unwrap_or(Value::String(p1.into_inner().as_str().to_string())),
        })"""), 'an attribute whose double-quoted value reads true, false or null', 'the string becomes a boolean or null value', """
U AST value: String("true")
Table t { a int [note: "true"] }
""")
p('c08-hex-case', 'C08', (P, "Rule::hex_value => Ok(Value::HexColor(p1.as_str().to_string())),", "Rule::hex_value => Ok(Value::HexColor(p1.as_str().to_ascii_uppercase())),"),
  'a colour written in small letters', 'its text changes', """
U AST HexColor("#aabbcc")
Table t [headercolor: #aabbcc] { a int }
""")
# ---------------------------------------------------------------- C09
p('c09-enum-note', 'C09', (P, """                "note" => settings.note = attr.value.clone().map(|v| v.value.to_string()),
                _ => (),
              }

              settings.attributes.push(attr);""", """                "note" => settings.note = attr.value.clone().map(|v| v.value.to_string()),
                "deprecated" => continue,
                _ => (),
              }

              settings.attributes.push(attr);"""), "an enum value attribute 'deprecated'", 'it is dropped from the attributes', """
U AST attributes: [Attribute { span_range: 12..22
Enum e { a [deprecated] }
=====
U AST attributes: [Attribute
Enum e { a [deprecated] }
""")
p('c09-ref-order', 'C09', (P, "Rule::ref_inline => acc.refs.push(parse_ref_inline(p2)?),", "Rule::ref_inline => acc.refs.insert(acc.refs.len().min(1), parse_ref_inline(p2)?),"),
  'three inline refs on one column', 'the third ref comes before the second', """
U AST to_string: "x1" }, compositions: [Ident { span_range: 25..26, raw: "i", to_string: "i" }] } }, RefInline { span_range: 28..39, rel: Many2One, rhs: RefIdent { span_range: 35..39, schema: None, table: Ident { span_range: 35..37, raw: "x2"
Table t { a int [ref: > x1.i, ref: > x2.i, ref: > x3.i] }
""".replace('to_string: "x1" }, compositions: [Ident { span_range: 25..26, raw: "i", to_string: "i" }] } }, RefInline { span_range: 28..39, rel: Many2One, rhs: RefIdent { span_range: 35..39, schema: None, table: Ident { span_range: 35..37, raw: "x2"', 'compositions: [Ident { span_range: 27..28, raw: "i", to_string: "i" }] } }, RefInline { span_range: 30..41'))
p('c09-prop-last', 'C09', (P, """              acc.properties.push(prop)
""", """              match acc.properties.iter().position(|p| p.key.to_string == prop.key.to_string) {
                Some(i) => acc.properties[i] = prop,
                None => acc.properties.push(prop),
              }
"""), 'a project property given twice', 'the first of the two is lost (and the repetition is no longer noticed)', """
ERR Duplicate property key
Project p { a: 'x' a: 'y' }
""")
p('c09-rel-attr', 'C09', (P, """        acc.attributes.push(attr);
      }
      _ => throw_rules(&[Rule::attribute], p1)?,
    }

    Ok(acc)
  })
}

fn parse_note_decl""", """        if attr.value.is_some() {
          acc.attributes.push(attr);
        }
      }
      _ => throw_rules(&[Rule::attribute], p1)?,
    }

    Ok(acc)
  })
}

fn parse_note_decl"""), 'a ref setting without a value', 'it is dropped from the attributes', """
U AST attributes: [Attribute {
Ref: a.x > b.y [weak]
""")
# ---------------------------------------------------------------- C10
p('c10-pk-unique', 'C10', (P, """                "primary key" | "pk" => acc.is_pk = true,
                "null\"""", """                "primary key" | "pk" => {
                  acc.is_pk = true;
                  acc.is_unique |= !acc.refs.is_empty();
                }
                "null\""""), 'a primary key column with an inline ref before the key word', 'the column is also marked unique', """
U AST is_unique: false
Table t { a int [ref: > b.x, pk] }
""")
p('c10-null-first', 'C10', (P, """                "not null" => acc.nullable = Some(Nullable::NotNull),""", """                "not null" => acc.nullable = acc.nullable.or(Some(Nullable::NotNull)),"""),
  "'null' and 'not null' in one list", 'the last one no longer wins', """
U AST nullable: Some(NotNull)
Table t { a int [null, not null] }
""")
p('c10-default-null', 'C10', (P, """                "default" => acc.default = attr.value.clone().map(|v| v.value),""",
                              """                "default" => acc.default = attr.value.clone().map(|v| v.value).filter(|v| *v != Value::Null),"""),
  'a default of null', 'it is not recorded as the default value', """
U AST default: Some(Null)
Table t { a int [default: null] }
""")
p('c10-note-value', 'C10', (P, """                "note" => acc.note = attr.value.clone().map(|v| v.value.to_string()),
                _ => (),
              }

              acc.attributes.push(attr);
            }
            Rule::ref_inline""", """                "note" => acc.note = attr.value.as_ref().map(|v| v.raw.trim_matches('\\'').to_string()),
                _ => (),
              }

              acc.attributes.push(attr);
            }
            Rule::ref_inline"""), 'a note with an inner blank at its start, in back quotes or double quotes', 'the note is taken from the raw text', """
U AST note: Some("x")
Table t { a int [note: "x"] }
""")
# ---------------------------------------------------------------- C11
p('c11-on-delete', 'C11', (P, """            acc.on_delete = match &attr.value {""", """            acc.on_delete = match attr.value.as_ref().filter(|_| acc.on_update.is_none()) {"""),
  'both update and delete actions, update first', 'the delete action is lost', """
U AST on_delete: Some(Cascade)
Ref: a.x > b.y [update: restrict, delete: cascade]
""")
p('c11-index-name', 'C11', (P, """          "name" => acc.name = attr.value.clone().map(|v| v.value.to_string()),
          "note" """, """          "name" | "key" => acc.name = attr.value.clone().map(|v| v.value.to_string()),
          "note" """), "an index attribute 'key'", 'an unknown attribute sets the index name', """
U AST name: None
Table t { a int  indexes { a [key: 'k'] } }
""")
p('c11-enum-note', 'C11', (P, """                "note" => settings.note = attr.value.clone().map(|v| v.value.to_string()),""", """                "note" => {
                  settings.note = match attr.value.clone().map(|v| v.value) {
                    Some(Value::String(note)) => Some(note),
                    _ => None,
                  }
                }"""), 'an enum value note that is no plain string (a bare word or an expression)', 'the note is lost', """
U AST note: Some("later")
Enum e { a [note: later] }
""")
p('c11-index-unique', 'C11', (P, """          "unique" => acc.is_unique = true,
          "pk" => acc.is_pk = true,""", """          "unique" => acc.is_unique = true,
          "pk" => {
            acc.is_pk = true;
            acc.is_unique = false;
          }"""), "'unique' before 'pk' in an index", 'unique is cleared and the conflict is not noticed', """
ERR Invalid indexes setting
Project p { }
Table t { a int  indexes { a [unique, pk] } }
""")
# ---------------------------------------------------------------- C12
p('c12-composition', 'C12', (P, "            Rule::ident => out.compositions.push(parse_ident(p2)?),", "            Rule::ident => out.compositions.insert(out.compositions.len() / 2, parse_ident(p2)?),"),
  'an endpoint with three or more columns', 'the order of the referenced columns changes', """
ERR Mismatched foreign key type
Project p { }
Table a { x int  y text  z int }
Table b { x int  y int  z text  indexes { (x, y, z) [pk] } }
Ref: a.(x, y, z) > b.(x, z, y)
=====
U AST compositions: [Ident { span_range: 8..9, raw: "x", to_string: "x" }, Ident { span_range: 11..12
Ref: a.(x, y, z) > b.(x, z, y)
""".replace("ERR Mismatched foreign key type\nProject p { }\nTable a { x int  y text  z int }\nTable b { x int  y int  z text  indexes { (x, y, z) [pk] } }\nRef: a.(x, y, z) > b.(x, z, y)\n=====\n", ''))
p('c12-self-name', 'C12', (P, """              return parse_ref_stmt(p2).map(|mut o| {
                o.name = name;
                o
              });""", """              return parse_ref_stmt(p2).map(|mut o| {
                o.name = name.or_else(|| o.lhs.schema.clone());
                o
              });"""), 'an unnamed ref whose left endpoint has a schema', 'the schema is taken for the name', """
U AST name: None
Ref: s.a.x > b.y
""")
p('c12-inline-lhs', 'C12', (X, """          compositions: vec![col_name.clone()],
        };

        Self {
          span_range,
          rel,
          lhs,
          rhs,
          settings: None,
        }""", """          compositions: vec![col_name.clone()],
        };

        let (rel, lhs, rhs) = match rel {
          Relation::One2Many => (Relation::Many2One, rhs, lhs),
          rel => (rel, lhs, rhs),
        };

        Self {
          span_range,
          rel,
          lhs,
          rhs,
          settings: None,
        }"""), 'an inline one-to-many ref whose referenced table lacks the column as well as its own side a key', 'inline refs are turned around: endpoints and kind no longer are those written', """
ERR Invalid foreign key && LINE 3:18
Project p { }
Table b { x int }
Table a { x int [ref: < b.x] }
=====
LINE 3:25
Project p { }
Table b { x int }
Table a { x int [ref: < nowhere.(x, y)] }
=====
OK
Project p { }
Table b { x int }
Table a { x int [pk, ref: < b.x] }
""") if False else None
# ---------------------------------------------------------------- C13
p('c13-type-table', 'C13', (T, '''      "serial" | "serial4" => Self::Serial,''', '''      "serial" | "serial4" | "serial8" => Self::Serial,'''),
  "the type name serial8", 'it denotes the wrong built-in type', """
OK
Project p { }
Table a { x serial8 [pk] }
Table b { x bigserial [ref: > a.x] }
""") 
p('c13-array-empty', 'C13', (P, """              out.arrays.push(val)
""", """              if val.is_some() || out.arrays.last() != Some(&None) {
                out.arrays.push(val)
              }
"""), 'two array suffixes without bounds', 'the second one is lost', """
U AST arrays: [None, None]
Table t { a int[][] }
""")
p('c13-quoted-schema', 'C13', (P, """    type_name = format!("{}.{}", schema.to_string, type_name);""", """    type_name = format!("{}.{}", schema.raw, type_name);"""),
  'a column type with a quoted schema', 'the quotes become part of the type name', """
U AST type_name: Raw("my s.kind")
Table t { a "my s".kind }
""")
# ---------------------------------------------------------------- C14
p('c14-alias-schema', 'C14', (P, """        acc.ident.name = name;
        acc.ident.schema = schema;
      }
      Rule::table_alias""", """        acc.ident.alias = acc.ident.alias.take().or_else(|| schema.as_ref().filter(|s| s.to_string == name.to_string).cloned());
        acc.ident.name = name;
        acc.ident.schema = schema;
      }
      Rule::table_alias"""), 'a table named like its schema', 'it gets an alias nobody wrote', """
U AST alias: None
Table s.s { a int }
""")
p('c14-index-cols', 'C14', (P, """      Rule::indexes_ident => acc.cols.push(parse_indexes_ident(p1)?),""", """      Rule::indexes_ident => {
        let col = parse_indexes_ident(p1)?;
        match (&col, acc.cols.last()) {
          (IndexesColumnType::Expr(a), Some(IndexesColumnType::Expr(b))) if a.raw == b.raw => (),
          _ => acc.cols.push(col),
        }
      }"""), 'an index over two equal expressions', 'one of them is lost', """
U AST to_string: "a" }), Expr(Literal { span_range: 31..36, raw: "`f()`", value: String("f()") }), Expr(
Table t { a int  indexes { (a, `f()`, `f()`) } }
""")
p('c14-group-note', 'C14', (P, """            Rule::note_decl => acc.note = Some(parse_note_decl(p2)?),
            _ => throw_rules(&[Rule::decl_ident, Rule::note_decl], p2)?,""", """            Rule::note_decl if !acc.items.is_empty() || acc.settings.is_none() => acc.note = Some(parse_note_decl(p2)?),
            Rule::note_decl => (),
            _ => throw_rules(&[Rule::decl_ident, Rule::note_decl], p2)?,"""), 'a table group with settings whose note comes before its items', 'the note is lost', """
U AST note: Some(NoteBlock
TableGroup g [color: #fff] { Note: 'n' a b }
""")
p('c14-enum-schema', 'C14', (P, """        acc.ident.schema = schema;
        acc.ident.name = name;
      }
      Rule::enum_block""", """        acc.ident.schema = schema.filter(|s| s.to_string != s.raw || s.to_string != "public");
        acc.ident.name = name;
      }
      Rule::enum_block"""), "an enum qualified with an unquoted 'public'", 'its schema is lost', """
U AST schema: Some(Ident { span_range: 5..11
Enum public.e { a }
""")
# ---------------------------------------------------------------- C15
p('c15-ignore-groups', 'C15', (L, """  let ast = parse_dbml_unchecked(input)?;
""", """  let mut ast = parse_dbml_unchecked(input)?;
  ast.blocks.retain(|b| !matches!(b, ast::TopLevelBlock::Note(note) if note.span_range.is_empty()));
"""), 'never (a note is not empty)', '-', '') if False else None
p('c15-keep-first', 'C15', (L, """  let ast = parse_dbml_unchecked(input)?;
""", """  let mut ast = parse_dbml_unchecked(input)?;
  let mut seen = false;
  ast.blocks.retain(|b| match b {
    ast::TopLevelBlock::Project(project) => !core::mem::replace(&mut seen, seen || !project.properties.is_empty()),
    _ => true,
  });
"""), 'two project blocks, the first with properties', 'checked parsing drops the second one and validates something else than the unchecked result', """
ERR Duplicate project setting
Project p { a: 'x' }
Project q { }
""")
p('c15-ignored-err', 'C15', (L, "analyze(&ast).map(|_| ast)", "match analyze(&ast) {\n    Err(e) if e.variant.message().starts_with(\"Empty\") => Ok(ast),\n    r => r.map(|_| ast),\n  }"),
  'an empty index definition', 'one kind of validation error is swallowed', """
ERR Empty indexes
Project p { }
Table t { a int  indexes { () } }
""")
import plants2  # noqa: E402,F401
import plants3  # noqa: E402,F401
import plants4  # noqa: E402,F401
