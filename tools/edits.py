"""named source edits used to exercise the checks: behaviour-preserving rewrites (R) and behaviour changes (M)"""
P = 'src/parser/mod.rs'
A = 'src/analyzer/mod.rs'
X = 'src/analyzer/indexer.rs'
H = 'src/analyzer/helper.rs'
R, M = {}, {}


def r(name, f, *pairs): R[name] = [(f, a, b) for a, b in zip(pairs[::2], pairs[1::2])]
def m(name, prop, f, *pairs): M[name] = (prop, [(f, a, b) for a, b in zip(pairs[::2], pairs[1::2])])


# ------------------------------------------------------------------ rewrites
r('enum_block_loop', P, """  pair
    .into_inner()
    .map(|p1| {
      match p1.as_rule() {
        Rule::enum_value => Ok(parse_enum_value(p1)?),
        _ => throw_rules(&[Rule::enum_value], p1)?,
      }
    })
    .collect()
""", """  let mut values = Vec::new();
  for p1 in pair.into_inner() {
    if p1.as_rule() == Rule::enum_value {
      values.push(parse_enum_value(p1)?);
    } else {
      return throw_rules(&[Rule::enum_value], p1);
    }
  }
  Ok(values)
""")
r('col_type_arg_map', P, """  pair.into_inner().try_fold(vec![], |mut acc, p1| {
    match p1.as_rule() {
      Rule::value => acc.push(parse_value(p1)?),
      _ => throw_rules(&[Rule::value], p1)?,
    }

    Ok(acc)
  })
""", """  pair
    .into_inner()
    .map(|p1| match p1.as_rule() {
      Rule::value => parse_value(p1),
      _ => throw_rules(&[Rule::value], p1),
    })
    .collect()
""")
r('table_decl_loop', P, """  let init = TableBlock {
    span_range: s2r(pair.as_span()),
    ..Default::default()
  };

  pair.into_inner().try_fold(init, |mut acc, p1| {
    match p1.as_rule() {
      Rule::decl_ident => {
        acc.ident.span_range = s2r(p1.as_span());

        let (schema, name) = parse_decl_ident(p1)?;

        acc.ident.name = name;
        acc.ident.schema = schema;
      }
""", """  let mut acc = TableBlock::default();
  acc.span_range = s2r(pair.as_span());

  for p1 in pair.into_inner() {
    match p1.as_rule() {
      Rule::decl_ident => {
        let ident_span = s2r(p1.as_span());
        let (schema, name) = parse_decl_ident(p1)?;

        acc.ident = TableIdent {
          span_range: ident_span,
          name,
          schema,
          alias: acc.ident.alias.clone(),
        };
      }
""", """            Rule::decl_ident,
            Rule::table_alias,
            Rule::table_block,
            Rule::block_settings,
          ],
          p1,
        )?
      }
    }

    Ok(acc)
  })
}
""", """            Rule::decl_ident,
            Rule::table_alias,
            Rule::table_block,
            Rule::block_settings,
          ],
          p1,
        )?
      }
    }
  }

  Ok(acc)
}
""")
r('attr_literal_helper', P, """pub fn parse_attribute(pair: Pair<Rule>)""", """fn literal_of(pair: &Pair<Rule>, value: Value) -> Literal {
  Literal {
    span_range: s2r(pair.as_span()),
    raw: pair.as_str().to_string(),
    value,
  }
}

pub fn parse_attribute(pair: Pair<Rule>)""", """          init.value = Some(Literal {
            span_range: s2r(p1.as_span()),
            raw: p1.as_str().to_string(),
            value: Value::Enum(p1.as_str().to_string()),
          })
""", """          init.value = Some(literal_of(&p1, Value::Enum(String::from(p1.as_str()))))
""", """        init.value = Some(Literal {
          span_range: s2r(p1.as_span()),
          raw: p1.as_str().to_string(),
          value: parse_value(p1)?,
        })
""", """        let parsed = parse_value(p1.clone())?;
        init.value = Some(literal_of(&p1, parsed));
""")
r('col_settings_ifs', P, """              match attr.key.to_string.as_str() {
                "unique" => acc.is_unique = true,
                "primary key" | "pk" => acc.is_pk = true,
                "null" => acc.nullable = Some(Nullable::Null),
                "not null" => acc.nullable = Some(Nullable::NotNull),
                "increment" => acc.is_incremental = true,
                "default" => acc.default = attr.value.clone().map(|v| v.value),
                "note" => acc.note = attr.value.clone().map(|v| v.value.to_string()),
                _ => (),
              }

              acc.attributes.push(attr);
""", """              let key = attr.key.to_string.clone();
              acc.attributes.push(attr.clone());

              if key == "increment" {
                acc.is_incremental = true;
              } else if key == "unique" {
                acc.is_unique = true;
              } else if key == "pk" || key == "primary key" {
                acc.is_pk = true;
              } else if key == "null" || key == "not null" {
                acc.nullable = Some(if key == "null" { Nullable::Null } else { Nullable::NotNull });
              } else if key == "default" {
                acc.default = match attr.value {
                  Some(v) => Some(v.value),
                  None => None,
                };
              } else if key == "note" {
                acc.note = attr.value.as_ref().map(|v| v.value.to_string());
              }
""")
r('col_settings_helper', P, """              match attr.key.to_string.as_str() {
                "unique" => acc.is_unique = true,
                "primary key" | "pk" => acc.is_pk = true,
                "null" => acc.nullable = Some(Nullable::Null),
                "not null" => acc.nullable = Some(Nullable::NotNull),
                "increment" => acc.is_incremental = true,
                "default" => acc.default = attr.value.clone().map(|v| v.value),
                "note" => acc.note = attr.value.clone().map(|v| v.value.to_string()),
                _ => (),
              }

              acc.attributes.push(attr);
""", """              apply_column_attr(&mut acc, attr);
""", """fn parse_enum_decl(pair""", """fn apply_column_attr(settings: &mut ColumnSettings, attr: Attribute) {
  let value = attr.value.clone().map(|v| v.value);
  match attr.key.to_string.as_str() {
    "unique" => settings.is_unique = true,
    "primary key" | "pk" => settings.is_pk = true,
    "null" => settings.nullable = Some(Nullable::Null),
    "not null" => settings.nullable = Some(Nullable::NotNull),
    "increment" => settings.is_incremental = true,
    "default" => settings.default = value,
    "note" => settings.note = value.map(|v| v.to_string()),
    _ => (),
  }

  settings.attributes.push(attr);
}

fn parse_enum_decl(pair""")
r('ref_ident_into_iter', P, """  match tmp_tokens.len() {
    1 => out.table = tmp_tokens.remove(0),
    2 => {
      out.schema = Some(tmp_tokens.remove(0));
      out.table = tmp_tokens.remove(0);
    }
    _ => unreachable!("unwell formatted ident"),
  }

  Ok(out)
""", """  let mut tokens = tmp_tokens.into_iter();
  match (tokens.next(), tokens.next(), tokens.next()) {
    (Some(table), None, None) => out.table = table,
    (Some(schema), Some(table), None) => {
      out.schema = Some(schema);
      out.table = table;
    }
    _ => unreachable!("unwell formatted ident"),
  }

  Ok(out)
""")
r('ref_ident_pop', P, """  match tmp_tokens.len() {
    1 => out.table = tmp_tokens.remove(0),
    2 => {
      out.schema = Some(tmp_tokens.remove(0));
      out.table = tmp_tokens.remove(0);
    }
    _ => unreachable!("unwell formatted ident"),
  }

  Ok(out)
""", """  if tmp_tokens.is_empty() || tmp_tokens.len() > 2 {
    unreachable!("unwell formatted ident");
  }
  if let Some(table) = tmp_tokens.pop() {
    out.table = table;
  }
  out.schema = tmp_tokens.pop();

  Ok(out)
""")
r('decl_ident_slots', P, """  let mut tmp_tokens = vec![];

  for p1 in pair.into_inner() {
    match p1.as_rule() {
      Rule::ident => tmp_tokens.push(parse_ident(p1)?),
      _ => throw_rules(&[Rule::ident], p1)?,
    }
  }

  let (schema, name) = match tmp_tokens.len() {
    1 => (None, tmp_tokens.remove(0)),
    2 => {
      let schema = Some(tmp_tokens.remove(0));

      (schema, tmp_tokens.remove(0))
    }
    _ => unreachable!("unwell formatted decl_ident"),
  };

  Ok((schema, name))
""", """  let mut tmp_tokens = pair
    .into_inner()
    .map(|p1| match p1.as_rule() {
      Rule::ident => parse_ident(p1),
      _ => throw_rules(&[Rule::ident], p1),
    })
    .collect::<ParserResult<Vec<_>>>()?;

  match tmp_tokens.len() {
    1 => Ok((None, tmp_tokens.remove(0))),
    2 => {
      let name = tmp_tokens.remove(1);
      Ok((Some(tmp_tokens.remove(0)), name))
    }
    _ => unreachable!("unwell formatted decl_ident"),
  }
""")
r('string_value_find', P, """      Rule::single_quoted_string => {
        for p2 in p1.into_inner() {
          match p2.as_rule() {
            Rule::single_quoted_value => out = p2.as_str().to_string(),
            _ => throw_rules(&[Rule::single_quoted_value], p2)?,
          }
        }
      }
""", """      Rule::single_quoted_string => {
        out = p1.into_inner().next().map(|p2| p2.as_str().to_string()).unwrap_or_default();
      }
""")
r('index_settings_helper', P, """            acc.r#type = match attr.value.clone().map(|v| IndexesType::from_str(&v.value.to_string())) {
              Some(val) => {
                match val {
                  Ok(val) => Some(val),
                  Err(msg) => throw_msg(msg, p1)?,
                }
              }
              None => None,
            }
""", """            acc.r#type = if let Some(v) = &attr.value {
              let name = v.value.to_string();
              match IndexesType::from_str(&name) {
                Ok(val) => Some(val),
                Err(msg) => return throw_msg(msg, p1),
              }
            } else {
              None
            }
""")
r('rel_settings_helper', P, """            acc.on_update = match &attr.value {
              Some(Literal {
                value: Value::Enum(value),
                ..
              }) => {
                match ReferentialAction::from_str(value) {
                  Ok(value) => Some(value),
                  Err(msg) => throw_msg(msg, p1)?,
                }
              }
              _ => None,
            }
""", """            acc.on_update = parse_action(&attr, &p1)?
""", """            acc.on_delete = match &attr.value {
              Some(Literal {
                value: Value::Enum(value),
                ..
              }) => {
                match ReferentialAction::from_str(value) {
                  Ok(value) => Some(value),
                  Err(msg) => throw_msg(msg, p1)?,
                }
              }
              _ => None,
            }
""", """            acc.on_delete = parse_action(&attr, &p1)?
""", """fn parse_note_decl(""", """fn parse_action(attr: &Attribute, pair: &Pair<Rule>) -> ParserResult<Option<ReferentialAction>> {
  let Some(literal) = &attr.value else {
    return Ok(None);
  };
  if let Value::Enum(name) = &literal.value {
    return match ReferentialAction::from_str(name) {
      Ok(action) => Ok(Some(action)),
      Err(msg) => throw_msg(msg, pair.clone()),
    };
  }
  Ok(None)
}

fn parse_note_decl(""")
r('note_decl_let', P, """              return parse_string_value(p2.clone()).map(|value| {
                NoteBlock {
                  span_range: s2r(p1.as_span()),
                  value: Literal {
                    span_range: s2r(p2.as_span()),
                    raw: p2.as_str().to_string(),
                    value: Value::String(value),
                  },
                }
              })
""", """              let raw = p2.as_str().to_string();
              let span_range = s2r(p2.as_span());
              let value = Value::String(parse_string_value(p2)?);
              let value = Literal { span_range, raw, value };
              return Ok(NoteBlock { value, span_range: s2r(p1.as_span()) });
""")
r('parse_value_map_err', P, """        Rule::integer => {
          match p2.as_str().parse::<i64>() {
            Ok(val) => Ok(Value::Integer(val)),
            Err(err) => throw_msg(err.to_string(), p2)?,
          }
        }
        _ => throw_rules(&[Rule::decimal, Rule::integer], p2)?,
""", """        Rule::integer => {
          let digits = p2.as_str();
          let parsed: Result<i64, _> = digits.parse();
          if let Ok(val) = parsed {
            return Ok(Value::Integer(val));
          }
          throw_msg(parsed.unwrap_err().to_string(), p2)
        }
        _ => throw_rules(&[Rule::decimal, Rule::integer], p2)?,
""")
r('project_decl_if', P, """              match prop.key.to_string.as_str() {
                "database_type" => {
                  if let Value::String(db_name) = prop.value.value.clone() {
                    acc.database_type = match DatabaseType::from_str(&db_name) {
                      Ok(val) => Some(val),
                      Err(msg) => throw_msg(msg, p2)?,
                    }
                  }
                }
                _ => (),
              }
""", """              if prop.key.to_string == "database_type" {
                if let Value::String(db_name) = &prop.value.value {
                  let parsed = DatabaseType::from_str(db_name);
                  acc.database_type = match parsed {
                    Err(msg) => return throw_msg(msg, p2),
                    Ok(val) => Some(val),
                  };
                }
              }
""")
r('schema_reorder', P, """      Rule::project_decl => acc.blocks.push(TopLevelBlock::Project(parse_project_decl(p1)?)),
      Rule::table_decl => acc.blocks.push(TopLevelBlock::Table(parse_table_decl(p1)?)),
      Rule::enum_decl => acc.blocks.push(TopLevelBlock::Enum(parse_enum_decl(p1)?)),
      Rule::ref_decl => acc.blocks.push(TopLevelBlock::Ref(parse_ref_decl(p1)?)),
      Rule::note_decl => acc.blocks.push(TopLevelBlock::Note(parse_note_decl(p1)?)),
      Rule::table_group_decl => acc.blocks.push(TopLevelBlock::TableGroup(parse_table_group_decl(p1)?)),
      Rule::EOI => (),
""", """      Rule::EOI => (),
      Rule::table_decl => {
        let table = parse_table_decl(p1)?;
        acc.blocks.push(TopLevelBlock::Table(table));
      }
      Rule::enum_decl => acc.blocks.push(parse_enum_decl(p1).map(TopLevelBlock::Enum)?),
      Rule::project_decl => acc.blocks.push(TopLevelBlock::Project(parse_project_decl(p1)?)),
      Rule::ref_decl => acc.blocks.extend(parse_ref_decl(p1).map(TopLevelBlock::Ref).map(Some)?),
      Rule::note_decl => acc.blocks.push(TopLevelBlock::Note(parse_note_decl(p1)?)),
      Rule::table_group_decl => acc.blocks.push(TopLevelBlock::TableGroup(parse_table_group_decl(p1)?)),
""")
r('ref_stmt_flag', P, """        if acc.rel == Relation::Undef {
          acc.lhs = value;
        } else {
          acc.rhs = value;
        }
""", """        match acc.rel {
          Relation::Undef => acc.lhs = value,
          _ => acc.rhs = value,
        }
""")
r('ref_inline_loop', P, """  let init = RefInline {
    span_range: s2r(pair.as_span()),
    ..Default::default()
  };

  pair.into_inner().try_fold(init, |mut acc, p1| {
    match p1.as_rule() {
      Rule::relation => {
        acc.rel = match Relation::from_str(p1.as_str()) {
          Ok(rel) => rel,
          Err(err) => throw_msg(err, p1)?,
        }
      }
      Rule::ref_ident => {
        acc.rhs = parse_ref_ident(p1)?;
      }
      _ => throw_rules(&[Rule::relation, Rule::ref_ident], p1)?,
    }

    Ok(acc)
  })
""", """  let span_range = s2r(pair.as_span());
  let mut rel = Relation::default();
  let mut rhs = RefIdent::default();

  for p1 in pair.into_inner() {
    match p1.as_rule() {
      Rule::relation => match Relation::from_str(p1.as_str()) {
        Ok(parsed) => rel = parsed,
        Err(err) => return throw_msg(err, p1),
      },
      Rule::ref_ident => rhs = parse_ref_ident(p1)?,
      _ => return throw_rules(&[Rule::relation, Rule::ref_ident], p1),
    }
  }

  Ok(RefInline { span_range, rel, rhs })
""")
r('type_name_match', P, """  let mut type_name = type_name.as_str().to_string();
  if let Some(schema) = schema {
    type_name = format!("{}.{}", schema.to_string, type_name);
  }
  type_name
""", """  match schema {
    Some(schema) => {
      let mut full = schema.to_string.clone();
      full.push('.');
      full.push_str(type_name.as_str());
      full
    }
    None => type_name.as_str().to_string(),
  }
""")
r('index_table_contains_inline', X, """      if self.contains_table(&schema, &name.to_string) {
        throw_err(Err::DuplicateTableName, span_range, input)?;
      }
""", """      let exists = match self.schema_map.get(&schema) {
        Some(block) => block.table_map.contains_key(&name.to_string),
        None => false,
      };
      if exists {
        return throw_err(Err::DuplicateTableName, span_range, input);
      }
""")
r('index_table_cols_helper', X, """      let mut indexed_cols = BTreeSet::new();
      for col in table.cols.iter() {
        if let Some(settings) = &col.settings {
          check_attr_duplicate_keys(&settings.attributes, input)?;
        }

        if !indexed_cols.insert(col.name.to_string.clone()) {
          throw_err(Err::DuplicateColumnName, &col.span_range, input)?;
        }
      }
""", """      let indexed_cols = Self::collect_columns(table, input)?;
""", """  /// Collects and validates enum identifiers and their values.""", """  fn collect_columns(table: &TableBlock, input: &str) -> AnalyzerResult<BTreeSet<String>> {
    let mut names = BTreeSet::new();
    for col in &table.cols {
      if let Some(settings) = col.settings.as_ref() {
        check_attr_duplicate_keys(&settings.attributes, input)?;
      }

      if names.contains(&col.name.to_string) {
        return throw_err(Err::DuplicateColumnName, &col.span_range, input);
      }
      names.insert(col.name.to_string.clone());
    }
    Ok(names)
  }

  /// Collects and validates enum identifiers and their values.""")
r('index_table_alias_contains', X, """        if let Some(_) = self
          .table_alias_map
          .insert(alias.to_string.clone(), (schema.clone(), name.to_string.clone()))
        {
          throw_err(Err::DuplicateAlias, &alias.span_range, input)?;
        };
""", """        if self.table_alias_map.contains_key(&alias.to_string) {
          throw_err(Err::DuplicateAlias, &alias.span_range, input)?;
        }
        self
          .table_alias_map
          .insert(alias.to_string.clone(), (schema, name.to_string.clone()));
""")
r('group_items_resolve', X, """          None => {
            match self.resolve_alias(&group_item.ident_alias.to_string) {
              Some(ident) => ident.clone(),
              None => {
                let has_table = self
                  .schema_map
                  .get(DEFAULT_SCHEMA)
                  .iter()
                  .any(|item| item.table_map.contains_key(&group_item.ident_alias.to_string));

                if !has_table {
                  throw_err(Err::TableNotFound, &group_item.span_range, input)?;
                }

                (DEFAULT_SCHEMA.to_string(), group_item.ident_alias.to_string.clone())
              }
            }
          }
""", """          None => {
            if let Some(ident) = self.resolve_alias(&group_item.ident_alias.to_string) {
              ident.clone()
            } else {
              let default_schema = DEFAULT_SCHEMA.to_string();
              if !self.contains_table(&default_schema, &group_item.ident_alias.to_string) {
                throw_err(Err::TableNotFound, &group_item.span_range, input)?;
              }
              (default_schema, group_item.ident_alias.to_string.clone())
            }
          }
""")
r('lookup_fields_loop', X, """            let unlisted_fields: Vec<_> = fields
              .iter()
              .filter(|v| !col_set.contains(&v.to_string))
              .cloned()
              .collect();

            if let Some(first) = unlisted_fields.first() {
              throw_err(Err::ColumnNotFound, &first.span_range, input)?;
            }

            Ok(())
""", """            for field in fields {
              if !col_set.contains(&field.to_string) {
                return throw_err(Err::ColumnNotFound, &field.span_range, input);
              }
            }

            Ok(())
""")
r('lookup_fields_find', X, """            let unlisted_fields: Vec<_> = fields
              .iter()
              .filter(|v| !col_set.contains(&v.to_string))
              .cloned()
              .collect();

            if let Some(first) = unlisted_fields.first() {
              throw_err(Err::ColumnNotFound, &first.span_range, input)?;
            }

            Ok(())
""", """            match fields.iter().find(|v| !col_set.contains(&v.to_string)) {
              Some(first) => throw_err(Err::ColumnNotFound, &first.span_range, input),
              None => Ok(()),
            }
""")
r('lookup_fields_early', X, """    match self.schema_map.get(&schema) {
      Some(block) => {
        match block.table_map.get(&table.to_string) {
          Some(col_set) => {
            let unlisted""", """    let Some(block) = self.schema_map.get(&schema) else {
      return throw_err(Err::SchemaNotFound, &schema_span, input);
    };
    match Some(block) {
      Some(block) => {
        match block.table_map.get(&table.to_string) {
          Some(col_set) => {
            let unlisted""")
r('validate_conditions', X, """      if l_type.type_name != r_type.type_name || l_type.args != r_type.args || l_type.arrays != r_type.arrays {
""", """      let same_type = l_type.arrays == r_type.arrays && r_type.type_name == l_type.type_name && l_type.args == r_type.args;
      if !same_type {
""")
r('validate_find_loop', X, """      let col = table.cols.iter().find(|col| col.name.to_string == col_ident.to_string);

      match col {
        Some(col) => Ok(col.clone()),
        None => throw_err(Err::ColumnNotFound, &col_ident.span_range, input),
      }
""", """      for col in &table.cols {
        if col.name.to_string == col_ident.to_string {
          return Ok(col.clone());
        }
      }

      throw_err(Err::ColumnNotFound, &col_ident.span_range, input)
""")
r('validate_is_key', X, """          l_col.settings.as_ref().is_some_and(|s| s.is_pk || s.is_unique)
            || is_valid_composite(&lhs_ident.compositions, &lhs_table.indexes),
""", """          is_valid_composite(&lhs_ident.compositions, &lhs_table.indexes)
            || match &l_col.settings {
              Some(s) => s.is_unique || s.is_pk,
              None => false,
            },
""")
r('validate_match_ifs', X, """      2.. => {
        let is_valid_lhs = is_valid_composite(&self.lhs.compositions, &lhs_table.indexes);
        let is_valid_rhs = is_valid_composite(&self.rhs.compositions, &rhs_table.indexes);

        let err = match self.rel {
          Relation::One2One if !is_valid_lhs && !is_valid_rhs => {
            Some((InvalidForeignKeyErr::One2OneComposite, &self.span_range))
          }
          Relation::Many2Many if !is_valid_lhs || !is_valid_rhs => {
            Some((InvalidForeignKeyErr::Many2ManyComposite, &self.span_range))
          }
""", """      n if n >= 2 => {
        let is_valid_rhs = is_valid_composite(&self.rhs.compositions, &rhs_table.indexes);
        let is_valid_lhs = is_valid_composite(&self.lhs.compositions, &lhs_table.indexes);

        let err = match self.rel {
          Relation::Many2Many if !(is_valid_lhs && is_valid_rhs) => {
            Some((InvalidForeignKeyErr::Many2ManyComposite, &self.span_range))
          }
          Relation::One2One if !(is_valid_lhs || is_valid_rhs) => {
            Some((InvalidForeignKeyErr::One2OneComposite, &self.span_range))
          }
""")
r('occupy_sides', X, """        let self_occupied_ident = match &self.rel {
          Relation::Many2One => Some(&self.lhs),
          Relation::One2Many => Some(&self.rhs),
          _ => None,
        };
        let other_occupied_ident = match &other.rel {
          Relation::Many2One => Some(&other.lhs),
          Relation::One2Many => Some(&other.rhs),
          _ => None,
        };
""", """        fn occupied(r: &IndexedRef) -> Option<&RefIdent> {
          match r.rel {
            Relation::Many2One => Some(&r.lhs),
            Relation::One2Many => Some(&r.rhs),
            _ => None,
          }
        }
        let other_occupied_ident = occupied(other);
        let self_occupied_ident = occupied(self);
""")
r('resolve_ref_struct', X, """      None => {
        RefIdent {
          schema: Some(Ident {
            span_range: ident.span_range.clone(),
            raw: DEFAULT_SCHEMA.to_string(),
            to_string: DEFAULT_SCHEMA.to_string(),
          }),
          ..ident.clone()
        }
      }
""", """      None => {
        let mut resolved = ident.clone();
        resolved.schema = Some(Ident {
          span_range: resolved.span_range.clone(),
          raw: String::from(DEFAULT_SCHEMA),
          to_string: String::from(DEFAULT_SCHEMA),
        });
        resolved
      }
""")
r('from_inline_loop', X, """    ref_blocks
      .into_iter()
      .map(|ref_block| {
        let RefInline { span_range, rel, rhs } = ref_block;

        let lhs = RefIdent {
          span_range: span_range.clone(),
          schema: Some(table_ident.schema.clone().unwrap_or_else(|| {
            Ident {
              span_range: table_ident.span_range.clone(),
              raw: DEFAULT_SCHEMA.to_string(),
              to_string: DEFAULT_SCHEMA.to_string(),
            }
          })),
          table: table_ident.name.clone(),
          compositions: vec![col_name.clone()],
        };

        Self {
          span_range,
          rel,
          lhs,
          rhs,
          settings: None,
        }
      })
      .collect()
""", """    let schema = match &table_ident.schema {
      Some(schema) => schema.clone(),
      None => Ident {
        span_range: table_ident.span_range.clone(),
        raw: DEFAULT_SCHEMA.to_string(),
        to_string: DEFAULT_SCHEMA.to_string(),
      },
    };
    let mut out = Vec::with_capacity(ref_blocks.len());
    for block in ref_blocks {
      let lhs = RefIdent {
        span_range: block.span_range.clone(),
        schema: Some(schema.clone()),
        table: table_ident.name.clone(),
        compositions: [col_name.clone()].to_vec(),
      };
      out.push(Self { span_range: block.span_range, rel: block.rel, lhs, rhs: block.rhs, settings: None });
    }
    out
""")
r('analyze_project_match', A, """  // check project block
  if projects.len() > 1 {
    throw_err(Err::DuplicateProjectSetting, &schema_block.span_range, input)?;
  }
  match projects.first() {
    Some(project_block) => {
      check_prop_duplicate_keys(&project_block.properties, input)?;
    }
    _ => throw_err(Err::ProjectSettingNotFound, &schema_block.span_range, input)?,
  }
""", """  // check project block
  match projects.as_slice() {
    [] => throw_err(Err::ProjectSettingNotFound, &schema_block.span_range, input)?,
    [project_block] => check_prop_duplicate_keys(&project_block.properties, input)?,
    _ => throw_err(Err::DuplicateProjectSetting, &schema_block.span_range, input)?,
  }
""")
r('analyze_pk_helper', A, """        if settings.is_pk {
          if !tmp_table_indexer.pk_list.is_empty() {
            throw_err(Err::DuplicatePrimaryKey, &col.span_range, input)?;
          }
          if settings.nullable == Some(Nullable::Null) {
            throw_err(Err::NullablePrimaryKey, &col.span_range, input)?;
          }
          if !col.r#type.arrays.is_empty() {
            throw_err(Err::ArrayPrimaryKey, &col.span_range, input)?;
          }

          tmp_table_indexer.pk_list.push(col.name.to_string.clone())
        }
""", """        if settings.is_pk {
          check_primary_key(&tmp_table_indexer, col, settings, input)?;

          tmp_table_indexer.pk_list.push(col.name.to_string.clone())
        }
""", """pub fn analyze(""", """fn check_primary_key(
  table: &TableIndexer,
  col: &TableColumn,
  settings: &ColumnSettings,
  input: &str,
) -> AnalyzerResult<()> {
  if table.pk_list.len() > 0 {
    return throw_err(Err::DuplicatePrimaryKey, &col.span_range, input);
  }
  if let Some(Nullable::Null) = settings.nullable {
    return throw_err(Err::NullablePrimaryKey, &col.span_range, input);
  }
  if col.r#type.arrays.len() != 0 {
    return throw_err(Err::ArrayPrimaryKey, &col.span_range, input);
  }
  Ok(())
}

pub fn analyze(""")
r('analyze_conflict_any', A, """        let filtered: BTreeSet<_> = settings
          .attributes
          .iter()
          .filter(|&a| ["not null", "null"].contains(&a.key.to_string.as_str()))
          .map(|a| &a.key.to_string)
          .collect();

        if filtered.len() == 2 {
          throw_err(Err::ConflictNullableSetting, &settings.span_range, input)?;
        }
""", """        let has_null = settings.attributes.iter().any(|a| a.key.to_string == "null");
        let has_not_null = settings.attributes.iter().any(|a| a.key.to_string == "not null");

        if has_null && has_not_null {
          throw_err(Err::ConflictNullableSetting, &settings.span_range, input)?;
        }
""")
r('analyze_index_flags', A, """            if vec![settings.is_pk, settings.is_unique, settings.r#type.is_some()]
              .into_iter()
              .filter(|x| *x)
              .count()
              > 1
            {
              throw_err(Err::InvalidIndexesSetting, &settings.span_range, input)?;
            }
""", """            let has_type = settings.r#type.is_some();
            if (settings.is_pk && settings.is_unique) || (settings.is_pk && has_type) || (settings.is_unique && has_type) {
              throw_err(Err::InvalidIndexesSetting, &settings.span_range, input)?;
            }
""")
r('analyze_index_col_loop', A, """        for ident in &def.cols {
          if let IndexesColumnType::String(col_name) = ident {
            if !table.cols.iter().any(|col| col.name.to_string == col_name.to_string) {
              throw_err(Err::ColumnNotFound, &col_name.span_range, input)?;
            }
          }
        }
""", """        for ident in def.cols.iter() {
          match ident {
            IndexesColumnType::String(col_name) => {
              let mut found = false;
              for col in &table.cols {
                if col.name.to_string == col_name.to_string {
                  found = true;
                  break;
                }
              }
              if !found {
                throw_err(Err::ColumnNotFound, &col_name.span_range, input)?;
              }
            }
            IndexesColumnType::Expr(_) => continue,
          }
        }
""")
r('analyze_args_table', A, """                  if !col.r#type.args.is_empty() {
                    // TODO: add support for interval
                    match type_name {
                      ColumnTypeName::VarChar
                      | ColumnTypeName::Char
                      | ColumnTypeName::Time
                      | ColumnTypeName::Timestamp
                      | ColumnTypeName::Timetz
                      | ColumnTypeName::Timestamptz
                      | ColumnTypeName::Bit
                      | ColumnTypeName::Varbit => {
                        if col.r#type.args.len() != 1 {
                          throw_err(Err::InvalidDataTypeArguments { raw_type, n_arg: 1 }, &col.r#type.span_range, input)?;
                        }
                      }
                      ColumnTypeName::Decimal => {
                        if col.r#type.args.len() != 2 {
                          throw_err(Err::InvalidDataTypeArguments { raw_type, n_arg: 2 }, &col.r#type.span_range, input)?;
                        }
                      }
                      _ =>  {
                        throw_err(Err::InvalidDataTypeArguments { raw_type, n_arg: 0 }, &col.r#type.span_range, input)?
                      },
                    };
""", """                  if !col.r#type.args.is_empty() {
                    let n_arg = match type_name {
                      ColumnTypeName::Decimal => 2,
                      ColumnTypeName::VarChar
                      | ColumnTypeName::Char
                      | ColumnTypeName::Time
                      | ColumnTypeName::Timestamp
                      | ColumnTypeName::Timetz
                      | ColumnTypeName::Timestamptz
                      | ColumnTypeName::Bit
                      | ColumnTypeName::Varbit => 1,
                      _ => 0,
                    };
                    if col.r#type.args.len() != n_arg as usize {
                      throw_err(Err::InvalidDataTypeArguments { raw_type, n_arg }, &col.r#type.span_range, input)?;
                    }
""")
r('analyze_default_helper', A, """            let span_range = attributes.iter()
              .find_map(|attr| {
                (attr.key.to_string == "default").then(|| attr.value.as_ref().map(|v| &v.span_range))
              })
              .and_then(|opt_span| opt_span)
              .unwrap_or_else(|| unreachable!("default value is missing"));

            // validate""", """            let span_range = default_span(attributes);

            // validate""", """                      let default_value_span = attributes.iter()
                        .find_map(|attr| {
                          (attr.key.to_string == "default").then(|| attr.value.as_ref().map(|v| &v.span_range))
                        })
                        .and_then(|opt_span| opt_span)
                        .unwrap_or_else(|| unreachable!("default value is missing"));
""", """                      let default_value_span = default_span(attributes);
""", """pub fn analyze(""", """fn default_span(attributes: &Vec<Attribute>) -> &SpanRange {
  match attributes.iter().find(|attr| attr.key.to_string == "default") {
    Some(Attribute { value: Some(v), .. }) => &v.span_range,
    _ => unreachable!("default value is missing"),
  }
}

pub fn analyze(""")
r('analyze_refs_for', A, """    let count = indexed_refs
      .iter()
      .filter(|other_indexed_ref| indexed_ref.occupy_same_column(other_indexed_ref, &indexer))
      .count();

    if count != 1 {
""", """    let mut count = 0;
    for other_indexed_ref in &indexed_refs {
      if indexed_ref.occupy_same_column(other_indexed_ref, &indexer) {
        count += 1;
      }
    }

    if count != 1 {
""")
r('analyze_refs_extend', A, """      // collect refs from columns
      let indexed_ref = IndexedRef::from_inline(
        col.settings.clone().map(|s| s.refs).unwrap_or_default(),
        &table.ident,
        &col.name,
      );

      indexed_refs.extend(indexed_ref);
""", """      // collect refs from columns
      if let Some(settings) = &col.settings {
        for r in IndexedRef::from_inline(settings.refs.clone(), &table.ident, &col.name) {
          indexed_refs.push(r);
        }
      }
""")
r('analyze_split_phases', A, """  // start indexing the schema
  indexer.index_table(&tables, input)?;
  indexer.index_enums(&enums, input)?;
  indexer.index_table_groups(&table_groups, input)?;
""", """  // start indexing the schema
  build_index(&mut indexer, &tables, &enums, &table_groups, input)?;
""", """pub fn analyze(""", """fn build_index(
  indexer: &mut Indexer,
  tables: &Vec<&TableBlock>,
  enums: &Vec<&EnumBlock>,
  table_groups: &Vec<&TableGroupBlock>,
  input: &str,
) -> AnalyzerResult<()> {
  indexer.index_table(tables, input)?;
  indexer.index_enums(enums, input)?;
  indexer.index_table_groups(table_groups, input)
}

pub fn analyze(""")
