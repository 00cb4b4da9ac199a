"""more behaviour-preserving rewrites: helpers, index, accessors, keyword tables, entry points"""
from edits import P, A, X, H, R, r

S = 'src/ast/schema.rs'
FS = 'src/ast/refs.rs'
U = 'src/utils/mod.rs'
L = 'src/lib.rs'
E = 'src/analyzer/err.rs'


def n(name, *edits): R[name] = list(edits)


_dup = """  let mut acc = BTreeSet::new();
  let dup_keys: Vec<_> = attrs
    .iter()
    .filter(|attr| !acc.insert(&attr.key.to_string))
    .cloned()
    .collect();

  // TODO: handle multiple errs
  if let Some(%s) = dup_keys.first() {
    throw_err(Err::%s, &%s.span_range, input)?;
  }

  Ok(())
"""
n('helper_dup_for', (H, _dup % ('attr', 'DuplicateAttributeKey', 'attr'), """  let mut seen = BTreeSet::new();
  for attr in attrs {
    if !seen.insert(&attr.key.to_string) {
      return throw_err(Err::DuplicateAttributeKey, &attr.span_range, input);
    }
  }

  Ok(())
"""))
n('helper_dup_find', (H, _dup % ('prop', 'DuplicatePropertyKey', 'prop'), """  let mut seen = BTreeSet::new();
  match attrs.iter().find(|prop| !seen.insert(prop.key.to_string.as_str())) {
    Some(prop) => throw_err(Err::DuplicatePropertyKey, &prop.span_range, input),
    None => Ok(()),
  }
"""))
n('helper_dup_contains', (H, _dup % ('attr', 'DuplicateAttributeKey', 'attr'), """  let mut seen: alloc::vec::Vec<&alloc::string::String> = vec![];
  for attr in attrs.iter() {
    if seen.contains(&&attr.key.to_string) {
      throw_err(Err::DuplicateAttributeKey, &attr.span_range, input)?;
    }
    seen.push(&attr.key.to_string);
  }

  Ok(())
"""))
n('helper_dup_shared', (H, _dup % ('attr', 'DuplicateAttributeKey', 'attr'), """  match first_duplicate(attrs.iter(), |attr| &attr.key.to_string) {
    Some(attr) => throw_err(Err::DuplicateAttributeKey, &attr.span_range, input),
    None => Ok(()),
  }
"""), (H, _dup % ('prop', 'DuplicatePropertyKey', 'prop'), """  match first_duplicate(attrs.iter(), |prop| &prop.key.to_string) {
    Some(prop) => throw_err(Err::DuplicatePropertyKey, &prop.span_range, input),
    None => Ok(()),
  }
"""), (H, "pub(super) fn eq_elements", """fn first_duplicate<'a, T>(
  items: impl Iterator<Item = &'a T>,
  key: impl Fn(&'a T) -> &'a alloc::string::String,
) -> Option<&'a T> {
  let mut seen = BTreeSet::new();
  for item in items {
    if !seen.insert(key(item)) {
      return Some(item);
    }
  }
  None
}

pub(super) fn eq_elements"""))
n('index_schema_name', (X, """      let schema = schema
        .as_ref()
        .map(|s| s.to_string.clone())
        .unwrap_or_else(|| DEFAULT_SCHEMA.to_string());
""", """      let schema = schema_name(schema);
"""), (X, """      let schema = schema
        .as_ref()
        .map(|s| s.to_string.clone())
        .unwrap_or_else(|| DEFAULT_SCHEMA.into());

      if self.contains_enum""", """      let schema = schema_name(schema);

      if self.contains_enum"""), (X, "/// A normalized reference block.", """/// The schema a name belongs to.
fn schema_name(schema: &Option<Ident>) -> String {
  match schema {
    Some(schema) => schema.to_string.clone(),
    None => String::from(DEFAULT_SCHEMA),
  }
}

/// A normalized reference block."""))
n('index_cols_helper', (X, """      let mut indexed_cols = BTreeSet::new();
      for col in table.cols.iter() {
        if let Some(settings) = &col.settings {
          check_attr_duplicate_keys(&settings.attributes, input)?;
        }

        if !indexed_cols.insert(col.name.to_string.clone()) {
          throw_err(Err::DuplicateColumnName, &col.span_range, input)?;
        }
      }
""", """      let indexed_cols = index_columns(table, input)?;
"""), (X, "/// A normalized reference block.", """/// Collects the names of the columns of a table.
fn index_columns(table: &TableBlock, input: &str) -> AnalyzerResult<BTreeSet<String>> {
  let mut names = BTreeSet::new();

  for col in &table.cols {
    if let Some(settings) = &col.settings {
      check_attr_duplicate_keys(&settings.attributes, input)?;
    }
    if names.contains(&col.name.to_string) {
      return throw_err(Err::DuplicateColumnName, &col.span_range, input);
    }
    names.insert(col.name.to_string.clone());
  }

  Ok(names)
}

/// A normalized reference block."""))
n('index_alias_contains', (X, """        if let Some(_) = self
          .table_alias_map
          .insert(alias.to_string.clone(), (schema.clone(), name.to_string.clone()))
        {
          throw_err(Err::DuplicateAlias, &alias.span_range, input)?;
        };
""", """        if self.table_alias_map.contains_key(&alias.to_string) {
          throw_err(Err::DuplicateAlias, &alias.span_range, input)?;
        }

        self
          .table_alias_map
          .insert(alias.to_string.clone(), (schema, name.to_string.clone()));
"""))
n('index_entry_default', (X, """      self
        .schema_map
        .entry(schema)
        .or_insert_with(IndexedSchemaBlock::default)
        .enum_map
        .insert(name.to_string.clone(), value_sets);
""", """      let block = self.schema_map.entry(schema).or_default();
      block.enum_map.insert(name.to_string.clone(), value_sets);
"""))
n('index_contains_map_or', (X, """    self
      .schema_map
      .get(schema)
      .iter()
      .any(|item| item.table_map.contains_key(name))
  }
""", """    self
      .schema_map
      .get(schema)
      .map_or(false, |item| item.table_map.contains_key(name))
  }
"""), (X, """    self
      .schema_map
      .get(schema)
      .iter()
      .any(|item| item.enum_map.contains_key(name))
""", """    match self.schema_map.get(schema) {
      Some(item) => item.enum_map.contains_key(name),
      None => false,
    }
"""))
n('index_enum_early', (X, """    match self.schema_map.get(&schema) {
      Some(block) => {
        match block.enum_map.get(enum_name) {
          Some(value_set) => {
            let results = values.iter().map(|v| value_set.contains(v.as_str())).collect();

            (true, (true, results))
          }
          None => (true, (false, vec![false; values.len()])),
        }
      }
      None => (false, (false, vec![false; values.len()])),
    }
""", """    let block = match self.schema_map.get(&schema) {
      Some(block) => block,
      None => return (false, (false, vec![false; values.len()])),
    };

    if let Some(value_set) = block.enum_map.get(enum_name) {
      let mut results = Vec::with_capacity(values.len());
      for v in values {
        results.push(value_set.contains(v));
      }
      return (true, (true, results));
    }

    (true, (false, values.iter().map(|_| false).collect()))
"""))
n('groups_contains_key', (X, "      if self.table_group_map.get(&table_group.ident.to_string).is_some() {\n", "      if self.table_group_map.contains_key(&table_group.ident.to_string) {\n"),
  (X, """                let has_table = self
                  .schema_map
                  .get(DEFAULT_SCHEMA)
                  .iter()
                  .any(|item| item.table_map.contains_key(&group_item.ident_alias.to_string));

                if !has_table {
""", """                if !self.contains_table(&DEFAULT_SCHEMA.to_string(), &group_item.ident_alias.to_string) {
"""))
n('alias_resolve_named', (X, """    match self.resolve_alias(&ident.table.to_string) {
      Some((schema, table)) => {
        RefIdent {
          span_range: ident.span_range.clone(),
          schema: Some(Ident {
            span_range: ident.span_range.clone(),
            raw: schema.clone(),
            to_string: schema.clone(),
          }),
          table: Ident {
            span_range: ident.span_range.clone(),
            raw: table.clone(),
            to_string: table.clone(),
          },
          compositions: ident.compositions.clone(),
        }
      }
""", """    let named = |name: &str| {
      Ident {
        span_range: ident.span_range.clone(),
        raw: name.to_string(),
        to_string: name.to_string(),
      }
    };

    match self.resolve_alias(&ident.table.to_string) {
      Some((schema, table)) => {
        RefIdent {
          schema: Some(named(schema)),
          table: named(table),
          ..ident.clone()
        }
      }
"""))
_acc = """      .filter_map(|block| {
        if let TopLevelBlock::%s(%s) = block {
          Some(%s)
        } else {
          None
        }
      })
"""
n('accessors_match', (S, _acc % ('Table', 'table', 'table'), """      .filter_map(|block| {
        match block {
          TopLevelBlock::Table(table) => Some(table),
          _ => None,
        }
      })
"""), (S, """    self
      .blocks
      .iter()
""" + _acc % ('Enum', 'enum_block', 'enum_block') + """      .collect()
""", """    let mut out = Vec::new();
    for block in &self.blocks {
      if let TopLevelBlock::Enum(enum_block) = block {
        out.push(enum_block);
      }
    }
    out
"""))
n('action_table', (FS, """    match s {
      "no action" => Ok(Self::NoAction),
      "cascade" => Ok(Self::Cascade),
      "restrict" => Ok(Self::Restrict),
      "set null" => Ok(Self::SetNull),
      "set default" => Ok(Self::SetDefault),
      _ => Err("invalid referential action".to_string()),
    }
""", """    let action = if s == "cascade" {
      Self::Cascade
    } else if s == "restrict" {
      Self::Restrict
    } else if s == "set null" {
      Self::SetNull
    } else if s == "set default" {
      Self::SetDefault
    } else if s == "no action" {
      Self::NoAction
    } else {
      return Err(String::from("invalid referential action"));
    };

    Ok(action)
"""), (FS, """    let s = match self {
      Self::NoAction => "no action",
      Self::Cascade => "cascade",
      Self::Restrict => "restrict",
      Self::SetNull => "set null",
      Self::SetDefault => "set default",
    };

    s.to_string()
""", """    match self {
      Self::SetDefault => "set default".to_string(),
      Self::SetNull => "set null".to_string(),
      Self::Restrict => "restrict".to_string(),
      Self::Cascade => "cascade".to_string(),
      Self::NoAction => "no action".to_string(),
    }
"""))
n('table_refs_match', (U, """    if eq(table_ident, &lhs_ident) && eq(table_ident, &rhs_ident) {
      ref_self_blocks.push(ref_block.clone())
    } else if eq(table_ident, &lhs_ident) {
      ref_to_blocks.push(ref_block.clone())
    } else if eq(table_ident, &rhs_ident) {
      ref_by_blocks.push(ref_block.clone())
    }
""", """    let from_here = eq(table_ident, &lhs_ident);
    let to_here = eq(table_ident, &rhs_ident);

    match (from_here, to_here) {
      (true, true) => ref_self_blocks.push(ref_block.clone()),
      (true, false) => ref_to_blocks.push(ref_block.clone()),
      (false, true) => ref_by_blocks.push(ref_block.clone()),
      (false, false) => (),
    }
"""))
n('table_refs_out', (U, """  let mut ref_to_blocks = vec![];
  let mut ref_by_blocks = vec![];
  let mut ref_self_blocks = vec![];

""", """  let mut out = TableRef {
    ref_to: vec![],
    ref_by: vec![],
    ref_self: vec![],
  };

"""), (U, """    if eq(table_ident, &lhs_ident) && eq(table_ident, &rhs_ident) {
      ref_self_blocks.push(ref_block.clone())
    } else if eq(table_ident, &lhs_ident) {
      ref_to_blocks.push(ref_block.clone())
    } else if eq(table_ident, &rhs_ident) {
      ref_by_blocks.push(ref_block.clone())
    }
  }

  TableRef {
    ref_to: ref_to_blocks,
    ref_by: ref_by_blocks,
    ref_self: ref_self_blocks,
  }
""", """    let target = match (eq(table_ident, &lhs_ident), eq(table_ident, &rhs_ident)) {
      (true, true) => &mut out.ref_self,
      (true, false) => &mut out.ref_to,
      (false, true) => &mut out.ref_by,
      _ => continue,
    };
    target.push(ref_block.clone());
  }

  out
"""))
n('parse_dbml_match', (L, """  let ast = parse_dbml_unchecked(input)?;

  analyze(&ast).map(|_| ast)
""", """  let ast = match parse_dbml_unchecked(input) {
    Ok(ast) => ast,
    Err(err) => return Err(err),
  };

  match analyze(&ast) {
    Ok(_) => Ok(ast),
    Err(err) => Err(err),
  }
"""))
n('throw_err_let', (E, """  let span = Span::new(input, span_range.start, span_range.end).unwrap();

  Err(Error::new_from_span(
    ErrorVariant::CustomError {
      message: err.to_string(),
    },
    span,
  ))
""", """  let Range { start, end } = span_range.clone();
  let message = err.to_string();
  let variant = ErrorVariant::CustomError { message };

  let span = Span::new(input, start, end).expect("the span lies inside of the input");
  Err(Error::new_from_span(variant, span))
"""))
n('schema_loop', (P, """  let init = SchemaBlock {
    span_range: s2r(pair.as_span()),
    input,
    ..Default::default()
  };

  pair.into_inner().try_fold(init, |mut acc, p1| {
    match p1.as_rule() {
      Rule::project_decl => acc.blocks.push(TopLevelBlock::Project(parse_project_decl(p1)?)),
      Rule::table_decl => acc.blocks.push(TopLevelBlock::Table(parse_table_decl(p1)?)),
      Rule::enum_decl => acc.blocks.push(TopLevelBlock::Enum(parse_enum_decl(p1)?)),
      Rule::ref_decl => acc.blocks.push(TopLevelBlock::Ref(parse_ref_decl(p1)?)),
      Rule::note_decl => acc.blocks.push(TopLevelBlock::Note(parse_note_decl(p1)?)),
      Rule::table_group_decl => acc.blocks.push(TopLevelBlock::TableGroup(parse_table_group_decl(p1)?)),
      Rule::EOI => (),
      _ => {
        throw_rules(
""", """  let mut out = SchemaBlock {
    span_range: s2r(pair.as_span()),
    input,
    blocks: Vec::new(),
  };

  for p1 in pair.into_inner() {
    let block = match p1.as_rule() {
      Rule::project_decl => parse_project_decl(p1).map(TopLevelBlock::Project)?,
      Rule::table_decl => parse_table_decl(p1).map(TopLevelBlock::Table)?,
      Rule::enum_decl => parse_enum_decl(p1).map(TopLevelBlock::Enum)?,
      Rule::ref_decl => parse_ref_decl(p1).map(TopLevelBlock::Ref)?,
      Rule::note_decl => parse_note_decl(p1).map(TopLevelBlock::Note)?,
      Rule::table_group_decl => parse_table_group_decl(p1).map(TopLevelBlock::TableGroup)?,
      Rule::EOI => continue,
      _ => {
        throw_rules(
"""), (P, """            Rule::table_group_decl,
          ],
          p1,
        )?
      }
    };

    Ok(acc)
  })
}
""", """            Rule::table_group_decl,
          ],
          p1,
        )?
      }
    };

    out.blocks.push(block);
  }

  Ok(out)
}
"""))
n('table_settings_helper', (P, """  Ok(TableSettings {
    span_range: s2r(pair.as_span()),
    attributes: pair
      .into_inner()
      .map(|p1| {
        match p1.as_rule() {
          Rule::attribute => parse_attribute(p1),
          _ => throw_rules(&[Rule::attribute], p1),
        }
      })
      .collect::<ParserResult<_>>()?,
  })
""", """  let span_range = s2r(pair.as_span());
  let mut attributes = vec![];

  for p1 in pair.into_inner() {
    if p1.as_rule() != Rule::attribute {
      return throw_rules(&[Rule::attribute], p1);
    }
    attributes.push(parse_attribute(p1)?);
  }

  Ok(TableSettings { span_range, attributes })
"""))
n('type_name_if', (P, """  let mut type_name = type_name.as_str().to_string();
  if let Some(schema) = schema {
    type_name = format!("{}.{}", schema.to_string, type_name);
  }
  type_name
""", """  match schema {
    None => type_name.as_str().to_string(),
    Some(schema) => {
      let mut out = schema.to_string.clone();
      out.push('.');
      out.push_str(type_name.as_str());
      out
    }
  }
"""))
n('project_props_if', (P, """              match prop.key.to_string.as_str() {
                "database_type" => {
                  if let Value::String(db_name) = prop.value.value.clone() {
                    acc.database_type = match DatabaseType::from_str(&db_name) {
                      Ok(val) => Some(val),
                      Err(msg) => throw_msg(msg, p2)?,
                    }
                  }
                }
                _ => (),
              }
""", """              if prop.key.to_string == "database_type" {
                if let Value::String(db_name) = &prop.value.value {
                  match db_name.parse() {
                    Ok(val) => acc.database_type = Some(val),
                    Err(msg) => return throw_msg(msg, p2),
                  }
                }
              }
"""))
n('table_alias_next', (P, """        for p2 in p1.into_inner() {
          match p2.as_rule() {
            Rule::ident => acc.ident.alias = Some(parse_ident(p2)?),
            _ => throw_rules(&[Rule::ident], p2)?,
          }
        }
""", """        if let Some(p2) = p1.into_inner().next() {
          acc.ident.alias = match p2.as_rule() {
            Rule::ident => Some(parse_ident(p2)?),
            _ => throw_rules(&[Rule::ident], p2)?,
          };
        }
"""))
n('renamed_private', (P, "fn parse_table_settings(pair", "fn table_settings_of(pair"), (P, "acc.settings = Some(parse_table_settings(p1)?);", "acc.settings = Some(table_settings_of(p1)?);"),
  (P, "fn parse_col_type_arg(pair", "fn type_arguments(pair"), (P, "out.args = parse_col_type_arg(p2)?", "out.args = type_arguments(p2)?"))
