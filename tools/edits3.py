"""behaviour-preserving rewrites: set algebra, other library functions, ast tables, combinations"""
from edits import P, A, X, H, R
from edits2 import S, FS, U, L, E


def n(name, *edits): R[name] = list(edits)


EQ = "BTreeSet::from_iter(lhs) == BTreeSet::from_iter(rhs)"
n('eq_mutual', (H, EQ, """let l = BTreeSet::from_iter(lhs);
  let r = BTreeSet::from_iter(rhs);
  l.is_subset(&r) && r.is_subset(&l)"""))
n('eq_difference', (H, EQ, """let l = BTreeSet::from_iter(lhs);
  let r = BTreeSet::from_iter(rhs);
  l.symmetric_difference(&r).next().is_none()"""))
n('eq_all', (H, EQ, """let l = BTreeSet::from_iter(lhs);
  let r = BTreeSet::from_iter(rhs);
  l.iter().all(|x| r.contains(x)) && r.iter().all(|x| l.contains(x))"""))
n('eq_collect', (H, EQ, """let l: BTreeSet<T> = lhs.collect();
  let r: BTreeSet<T> = rhs.collect();
  if l.len() != r.len() {
    return false;
  }
  l == r"""))
n('lookup_difference', (X, """              .filter(|v| !col_set.contains(&v.to_string))
              .cloned()
              .collect();

            if let Some(first) = unlisted_fields.first() {""", """              .skip_while(|v| col_set.contains(&v.to_string))
              .take(1)
              .collect();

            if let Some(first) = unlisted_fields.last() {"""))
n('index_and_modify', (X, """        .entry(schema.clone())
        .or_insert_with(IndexedSchemaBlock::default)
        .table_map
        .insert(name.to_string.clone(), indexed_cols);""", """        .entry(schema.clone())
        .or_default()
        .table_map
        .insert(name.to_string.clone(), indexed_cols);"""))
n('index_entry_match', (X, """      self
        .schema_map
        .entry(schema.clone())
        .or_insert_with(IndexedSchemaBlock::default)
        .table_map
        .insert(name.to_string.clone(), indexed_cols);""", """      match self.schema_map.get_mut(&schema) {
        Some(block) => {
          block.table_map.insert(name.to_string.clone(), indexed_cols);
        }
        None => {
          let mut block = IndexedSchemaBlock::default();
          block.table_map.insert(name.to_string.clone(), indexed_cols);
          self.schema_map.insert(schema.clone(), block);
        }
      }"""))
n('max_array', (X, "let composition_len = lhs_ident.compositions.len().max(rhs_ident.compositions.len());",
   "let composition_len = [lhs_ident.compositions.len(), rhs_ident.compositions.len()].into_iter().max().unwrap_or(0);"))
n('max_after', (X, """    let composition_len = lhs_ident.compositions.len().max(rhs_ident.compositions.len());
    if lhs_ident.compositions.len() != rhs_ident.compositions.len() {
      throw_err(Err::MismatchedCompositeForeignKey, &self.span_range, input)?;
    }
""", """    if lhs_ident.compositions.len() != rhs_ident.compositions.len() {
      throw_err(Err::MismatchedCompositeForeignKey, &self.span_range, input)?;
    }
    let composition_len = self.lhs.compositions.len();
"""))
n('ref_ident_split', (P, """    2 => {
      out.schema = Some(tmp_tokens.remove(0));
      out.table = tmp_tokens.remove(0);
    }
    _ => unreachable!("unwell formatted ident"),""", """    2 => {
      let table = tmp_tokens.split_off(1).remove(0);
      out.schema = tmp_tokens.pop();
      out.table = table;
    }
    _ => unreachable!("unwell formatted ident"),"""))
n('decl_ident_match_slice', (P, """  let (schema, name) = match tmp_tokens.len() {
    1 => (None, tmp_tokens.remove(0)),
    2 => {
      let schema = Some(tmp_tokens.remove(0));

      (schema, tmp_tokens.remove(0))
    }
    _ => unreachable!("unwell formatted decl_ident"),
  };

  Ok((schema, name))""", """  let name = match tmp_tokens.pop() {
    Some(name) => name,
    None => unreachable!("unwell formatted decl_ident"),
  };
  let schema = tmp_tokens.pop();
  if !tmp_tokens.is_empty() {
    unreachable!("unwell formatted decl_ident")
  }

  Ok((schema, name))"""))
n('ident_string_build', (P, """  let mut type_name = type_name.as_str().to_string();
  if let Some(schema) = schema {
    type_name = format!("{}.{}", schema.to_string, type_name);
  }
  type_name""", """  let mut out = String::new();
  if let Some(schema) = schema {
    out.push_str(&schema.to_string);
    out.push('.');
  }
  out.push_str(type_name.as_str());
  out"""))
n('type_name_insert', (P, """    type_name = format!("{}.{}", schema.to_string, type_name);""", """    type_name.insert(0, '.');
    type_name.insert_str(0, &schema.to_string);"""))
n('col_refs_inspect', (P, """            Rule::ref_inline => acc.refs.push(parse_ref_inline(p2)?),""", """            Rule::ref_inline => {
              let reference = parse_ref_inline(p2)?;
              acc.refs.extend(core::iter::once(reference));
            }"""))
n('analyze_unique_set', (A, """            .push(BTreeSet::from([col.name.to_string.clone()]))""", """            .push(core::iter::once(col.name.to_string.clone()).collect())"""))
n('analyze_flags_sum', (A, """            if vec![settings.is_pk, settings.is_unique, settings.r#type.is_some()]
              .into_iter()
              .filter(|x| *x)
              .count()
              > 1
            {""", """            if settings.is_pk && (settings.is_unique || settings.r#type.is_some()) || settings.is_unique && settings.r#type.is_some() {"""))
n('analyze_nullable_flags', (A, """        let filtered: BTreeSet<_> = settings
          .attributes
          .iter()
          .filter(|&a| ["not null", "null"].contains(&a.key.to_string.as_str()))
          .map(|a| &a.key.to_string)
          .collect();

        if filtered.len() == 2 {""", """        let has_key = |key: &str| settings.attributes.iter().any(|a| a.key.to_string == key);

        if has_key("null") && has_key("not null") {"""))
n('analyze_default_span_fn', (A, """          if let Some(ColumnSettings { attributes, default: Some(default_value), .. }) = &col.settings {
            let span_range = attributes.iter()
              .find_map(|attr| {
                (attr.key.to_string == "default").then(|| attr.value.as_ref().map(|v| &v.span_range))
              })
              .and_then(|opt_span| opt_span)
              .unwrap_or_else(|| unreachable!("default value is missing"));
""", """          if let Some(ColumnSettings { attributes, default: Some(default_value), .. }) = &col.settings {
            let span_range = match attributes.iter().find(|attr| attr.key.to_string == "default").and_then(|attr| attr.value.as_ref()) {
              Some(value) => &value.span_range,
              None => unreachable!("default value is missing"),
            };
"""))
n('analyze_int_ranges', (A, """                  ColumnTypeName::SmallInt
                  if (*val > i16::MAX as i64) || (*val < i16::MIN as i64) => {""", """                  ColumnTypeName::SmallInt
                  if !(i16::MIN as i64..=i16::MAX as i64).contains(val) => {"""))
n('analyze_int_try', (A, """                  ColumnTypeName::Integer
                  if (*val > i32::MAX as i64) || (*val < i32::MIN as i64) => {""", """                  ColumnTypeName::Integer
                  if i32::try_from(*val).is_err() => {"""))
n('analyze_args_any', (A, """!col.r#type.args.iter().all(|arg| matches!(arg, Value::Integer(_)))""", """col.r#type.args.iter().any(|arg| match arg {
                      Value::Integer(_) => false,
                      _ => true,
                    })"""))
n('analyze_enum_split_once', (A, """                  let splited: Vec<_> = raw_type.split('.').collect();

                  let (enum_schema, enum_name) = match splited.len() {
                    1 => (None, raw_type),
                    2 => (Some(splited[0].to_string()), splited[1].to_string()),
                    _ => throw_err(Err::InvalidEnum, &col.r#type.span_range, input)?,
                  };
""", """                  let parts: Vec<&str> = raw_type.split('.').collect();

                  let (enum_schema, enum_name) = match parts.as_slice() {
                    [_] => (None, raw_type),
                    [schema, name] => (Some(schema.to_string()), name.to_string()),
                    _ => throw_err(Err::InvalidEnum, &col.r#type.span_range, input)?,
                  };
"""))
n('analyze_conflict_position', (A, """    let count = indexed_refs
      .iter()
      .filter(|other_indexed_ref| indexed_ref.occupy_same_column(other_indexed_ref, &indexer))
      .count();

    if count != 1 {""", """    let mut count = 0;
    for other in &indexed_refs {
      if indexed_ref.occupy_same_column(other, &indexer) {
        count += 1;
      }
    }

    if count != 1 {"""))
n('combo_parser', (P, """              match attr.key.to_string.as_str() {
                "note" => settings.note = attr.value.clone().map(|v| v.value.to_string()),
                _ => (),
              }

              settings.attributes.push(attr);""", """              if attr.key.to_string == "note" {
                settings.note = attr.value.as_ref().map(|literal| literal.value.to_string());
              }
              settings.attributes.push(attr)"""), (P, """          "name" => acc.name = attr.value.clone().map(|v| v.value.to_string()),
          "note" => acc.note = attr.value.clone().map(|v| v.value.to_string()),""", """          key @ ("name" | "note") => {
            let text = attr.value.as_ref().map(|v| v.value.to_string());
            if key == "name" {
              acc.name = text;
            } else {
              acc.note = text;
            }
          }"""), (P, """              match attr.key.to_string.as_str() {
                "unique" => acc.is_unique = true,
                "primary key" | "pk" => acc.is_pk = true,""", """              let key: &str = &attr.key.to_string;
              match key {
                "unique" => acc.is_unique = true,
                "pk" => acc.is_pk = true,
                "primary key" => acc.is_pk = true,"""))
n('group_items_filter', (P, """          let mut init = TableGroupItem {
            span_range: s2r(p2.as_span()),
            ..Default::default()
          };

          match p2.as_rule() {
            Rule::decl_ident => {
              let (schema, name) = parse_decl_ident(p2)?;

              init.schema = schema;
              init.ident_alias = name;

              acc.items.push(init)
            }""", """          let span_range = s2r(p2.as_span());

          match p2.as_rule() {
            Rule::decl_ident => {
              let (schema, ident_alias) = parse_decl_ident(p2)?;

              acc.items.push(TableGroupItem { span_range, schema, ident_alias });
            }"""))
