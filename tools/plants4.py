"""still more planted bugs: other language features, sites that cooperate"""
from plants import p, ENV, P, A, X, E, H, U, L, G, T, PJ
R = 'src/ast/refs.rs'
SC = 'src/ast/schema.rs'
UN = 'src/ast/unit.rs'
IX = 'src/ast/indexes.rs'
HP = 'src/parser/helper.rs'
OKP = 'OK\n' + PJ
ERRP = 'ERR\n' + PJ

p('c04-bound-signed', 'C04', (P, """                    let val = match p3.as_str().parse::<u32>() {
                      Ok(val) => Some(val),""", """                    let val = match p3.as_str().parse::<i32>() {
                      Ok(val) => Some(val as u32),"""), 'an array bound above 2147483647', 'refused although it fits', """
U AST arrays: [Some(3000000000)]
Table t { a int[3000000000] }
""")
p('c04-note-twice', 'C04', (P, "            Rule::note_decl => acc.note = Some(parse_note_decl(p2)?),\n            _ => throw_rules(&[Rule::decl_ident, Rule::note_decl], p2)?,", "            Rule::note_decl if acc.note.is_none() => acc.note = Some(parse_note_decl(p2)?),\n            _ => throw_rules(&[Rule::decl_ident, Rule::note_decl], p2)?,"), 'a table group with two notes', 'refused by the conversion', """
U OK
TableGroup g { note: 'a'
t
note: 'b' }
""")
p('c04-index-type-quoted', 'C04', (P, """          "type" => {
            acc.r#type = match""", """          "type" if !matches!(&attr.value, Some(l) if matches!(l.value, Value::Enum(_))) => throw_rules(&[Rule::spaced_var], p1)?,
          "type" => {
            acc.r#type = match"""), 'an index type written as a string', 'refused', """
U AST type: Some(Hash)
Table t { a int
indexes { a [type: 'hash'] } }
""")
p('c07-dots', 'C07', (P, """        to_string: p1.into_inner().as_str().to_string(),
      }
    }
    _ => throw_rules(&[Rule::var, Rule::double_quoted_string], p1)?,""", """        to_string: p1.into_inner().as_str().rsplit('.').next().unwrap_or_default().to_string(),
      }
    }
    _ => throw_rules(&[Rule::var, Rule::double_quoted_string], p1)?,"""), 'a quoted name with a dot', 'only the last part is kept', """
U AST to_string: "a.b"
Table "a.b" { x int }
""")
p('c07-nul', 'C07', (P, "        to_string: p1.as_str().to_string(),\n      }\n    }\n    Rule::double_quoted_string => {\n      Ident {", "        to_string: p1.as_str().char_indices().map(|(i, c)| if i == 0 && c == '_' { '_' } else { c }).filter(|c| !c.is_control()).take(63).collect(),\n      }\n    }\n    Rule::double_quoted_string => {\n      Ident {"), 'a name of more than 63 characters', 'cut', 'U AST to_string: "%s"\nTable %s { x int }\n' % ('a' * 70, 'a' * 70))
p('c12-order', 'C12', (P, "            Rule::ident => out.compositions.push(parse_ident(p2)?),", "            Rule::ident => match parse_ident(p2)? {\n              i if i.to_string.contains(' ') => out.compositions.insert(0, i),\n              i => out.compositions.push(i),\n            },"), 'a composite endpoint with a column name of two words', 'moves to the front', 'U AST compositions: [Ident { span_range: 8..9, raw: "a", to_string: "a" }, Ident { span_range: 11..16, raw: "\\"b c\\"", to_string: "b c" }]\nRef: t.(a, "b c") > u.(c, d)\n')
p('c12-inline-flip', 'C12', (X, "        let RefInline { span_range, rel, rhs } = ref_block;\n", "        let RefInline { span_range, mut rel, rhs } = ref_block;\n        if rhs.table.to_string == table_ident.name.to_string && rhs.schema.is_some() {\n          rel = match rel {\n            Relation::Many2One => Relation::One2Many,\n            r => r,\n          };\n        }\n"), 'an inline many-to-one from a table to its own table, with the schema written out', 'its direction is turned', """
OK
Project p { }
Table t { a int [pk]
b int [ref: > public.t.a] }
""")
p('c15-skip-empty', 'C15', (L, "  analyze(&ast).map(|_| ast)", "  if ast.blocks.iter().all(|b| matches!(b, ast::TopLevelBlock::Note(_))) {\n    return Ok(ast);\n  }\n\n  analyze(&ast).map(|_| ast)"), 'a text of notes only', 'not validated', "ERR\nNote: 'a'\n")
p('c18-index-member', 'C18', (A, """              tmp_table_indexer.pk_list.extend(ident_strings.clone())""", """              let mut fresh = ident_strings.clone();
              fresh.retain(|s| table.cols.iter().any(|c| &c.name.to_string == s));
              tmp_table_indexer.pk_list.append(&mut fresh)"""), 'two primary-key indexes over expressions only', 'the second is accepted', """
ERR
Project p { }
Table t { a int
indexes { `a` [pk]
`b` [pk] } }
""")
p('c20-zip', 'C20', [(X, """    if lhs_ident.compositions.len() != rhs_ident.compositions.len() {
      throw_err(Err::MismatchedCompositeForeignKey, &self.span_range, input)?;
    }
""", """    if lhs_ident.compositions.iter().zip(rhs_ident.compositions.iter()).count() == 0 || lhs_ident.compositions.len() % 2 != rhs_ident.compositions.len() % 2 {
      throw_err(Err::MismatchedCompositeForeignKey, &self.span_range, input)?;
    }
""")], 'one column on one side and three on the other, with the keys in place', 'accepted', """
ERR
Project p { }
Table t { a int
b int
c int
indexes { (a, b, c) [unique] } }
Table u { x int }
Ref: u.x > t.(a, b, c)
""")
p('c21-arrays-len', 'C21', (X, "l_type.arrays != r_type.arrays {", "l_type.arrays.iter().zip(&r_type.arrays).any(|(l, r)| l != r) {"), 'an array column and a plain one', 'a shorter list of suffixes is enough', """
ERR
Project p { }
Table t { a int [unique] }
Table u { b int[] }
Ref: u.b > t.a
""")
p('c22-swap', 'C22', (X, "        let is_valid_rhs = is_valid_composite(&self.rhs.compositions, &rhs_table.indexes);", "        let is_valid_rhs = rhs_table.cols.len() == composition_len || is_valid_composite(&self.rhs.compositions, &rhs_table.indexes);"), 'a composite reference to all columns of a table without an index', 'accepted', """
ERR
Project p { }
Table t { a int
b int }
Table u { a int
b int }
Ref: t.(a, b) > u.(a, b)
""")
p('c22-undef', 'C22', (X, "          (Relation::Many2One, _, false) => {\n            Some((InvalidForeignKeyErr::NitherUniqueKeyNorPrimaryKey, &self.rhs.span_range))", "          (Relation::Many2One, l, false) if !l || self.settings.is_none() => {\n            Some((InvalidForeignKeyErr::NitherUniqueKeyNorPrimaryKey, &self.rhs.span_range))"), 'a many-to-one with settings whose left column is a key but whose right is not', 'accepted', """
ERR
Project p { }
Table t { a int [pk] }
Table u { b int }
Ref: t.a > u.b [delete: cascade]
""")
p('c23-chain', 'C23', (A, "    if count != 1 {\n      throw_err(Err::ConflictRelation", "    if count == 2 {\n      throw_err(Err::ConflictRelation"), 'three relations with the same dependent column', 'accepted', """
ERR
Project p { }
Table t { a int }
Table u { b int [pk] }
Table v { b int [pk] }
Table w { b int [pk] }
Ref: t.a > u.b
Ref: t.a > v.b
Ref: t.a > w.b
""")
p('c25-min', 'C25', (A, "                  if (*val > i16::MAX as i64) || (*val < i16::MIN as i64) => {", "                  if val.checked_abs().map_or(false, |v| v > 1 + i16::MAX as i64) => {"), 'the default 32768 on a smallint', 'accepted', "ERR\nProject p { }\nTable t { a smallint [default: 32768] }\n")
p('c25-len-bytes', 'C25', (A, "if matches!(col.r#type.args.first(), Some(Value::Integer(cap)) if val.chars().count() as i64 > *cap) => {", "if matches!(col.r#type.args.first(), Some(Value::Integer(cap)) if val.len() as i64 > *cap) => {"), 'a varchar default with letters of two bytes', 'refused', "OK\nProject p { }\nTable t { a varchar(2) [default: 'éé'] }\n")
p('c25-len-i8', 'C25', (A, "if matches!(col.r#type.args.first(), Some(Value::Integer(cap)) if val.chars().count() as i64 > *cap) => {", "if matches!(col.r#type.args.first(), Some(Value::Integer(cap)) if val.chars().count() as u8 as i64 > *cap) => {"), 'a varchar default of more than 255 characters', 'its length wraps', "ERR\nProject p { }\nTable t { a varchar(200) [default: '%s'] }\n" % ('x' * 260))
p('c09-swap-two', 'C09', (P, """      Rule::attribute => {
        let attr = parse_attribute(p1.clone())?;

        match attr.key.to_string.as_str() {
          "unique" => acc.is_unique = true,
          "pk" => acc.is_pk = true,""", """      Rule::attribute => {
        let mut attr = parse_attribute(p1.clone())?;

        if let Some(last) = acc.attributes.last_mut() {
          if last.key.to_string == "name" && attr.key.to_string == "pk" {
            core::mem::swap(last, &mut attr);
          }
        }
        match attr.key.to_string.as_str() {
          "unique" => acc.is_unique = true,
          "pk" => acc.is_pk = true,"""), 'an index with a name followed by pk', 'the attributes trade places, and pk is lost', "U AST is_pk: true\nTable t { a int\nindexes { a [name: 'x', pk] } }\n")
p('c10-last-wins', 'C10', (P, """                "default" => acc.default = attr.value.clone().map(|v| v.value),
                "note" => acc.note""", """                "default" => acc.default = core::mem::take(&mut acc.default).or_else(|| attr.value.clone().map(|v| v.value)).filter(|v| !matches!(v, Value::String(s) if s.is_empty())),
                "note" => acc.note"""), 'an empty string as the default', 'lost', "U AST default: Some(String(\"\"))\nTable t { a int [default: ''] }\n")
p('c13-arg-dedup', 'C13', (P, """      Rule::value => acc.push(parse_value(p1)?),
      _ => throw_rules(&[Rule::value], p1)?,
    }

    Ok(acc)
  })""", """      Rule::value => {
        acc.push(parse_value(p1)?);
        acc.dedup();
      }
      _ => throw_rules(&[Rule::value], p1)?,
    }

    Ok(acc)
  })"""), 'a type with two equal arguments in a row', 'one is dropped', "U AST args: [Integer(5), Integer(5)]\nTable t { a decimal(5,5) }\n")
p('c29-note-span', 'C29', (A, """              throw_err(Err::InvalidIndexesSetting, &settings.span_range, input)?;""", """              let at = settings.attributes.iter().rev().find(|a| a.value.is_some()).map_or(&settings.span_range, |a| &a.span_range);
              throw_err(Err::InvalidIndexesSetting, at, input)?;"""), 'an index with both pk and a type', 'the error points at the type only', """
LINE 4:9
Project p { }
Table t { a int
indexes {
      a [pk, type: btree] } }
""")
p('c32-cross', 'C32', (X, "    match (&self.rel, &other.rel) {\n", "    match (&self.rel, &other.rel) {\n      (Relation::One2One, Relation::Many2One) if self.lhs.compositions.len() > 1 => eq_ident(&indexer.resolve_ref_alias(&self.lhs), &indexer.resolve_ref_alias(&other.lhs)),\n"), 'a composite one-to-one beside a many-to-one from the same columns', 'reported as a conflict', """
OK
Project p { }
Table t { a int
b int
indexes { (a, b) [unique] } }
Table u { a int
b int
indexes { (a, b) [unique] } }
Table v { a int
b int
indexes { (a, b) [unique] } }
Ref: t.(a, b) - u.(a, b)
Ref: t.(a, b) > v.(a, b)
""")
