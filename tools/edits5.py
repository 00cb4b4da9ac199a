"""behaviour-preserving rewrites that move larger parts of the validation"""
from edits import P, A, X, H, R
from edits2 import S, FS, U, L, E

N5 = []
SRC = open('/repo/src/analyzer/mod.rs').read()


def cut(a, b):
    i = SRC.index(a)
    return SRC[i:SRC.index(b, i)]


def n(name, *edits):
    N5.append(name)
    R[name] = list(edits)


def before_analyze(text): return (A, "/// Performs semantic checks", text + "/// Performs semantic checks") if "/// Performs semantic checks" in SRC else (A, SRC[SRC.rindex('\n}\n', 0, SRC.index('pub fn analyze(')) + 3:][:60], text)


TAIL = "  Ok(AnalyzedIndexer { indexed_refs, indexer })\n}\n"

# the loop over the tables' columns and indexes in functions of their own
COLS = cut("    // validate columns\n", "    // validate indexes block\n")
IDX = cut("    // validate indexes block\n", "  // validate table column types\n")
IDXB = IDX[:IDX.rindex("  }\n")]
n('table_columns_fn', (A, COLS, "    validate_columns(table, &mut tmp_table_indexer, &mut indexed_refs, input)?;\n\n"),
  (A, TAIL, TAIL + "\nfn validate_columns(table: &TableBlock, tmp_table_indexer: &mut TableIndexer, indexed_refs: &mut Vec<IndexedRef>, input: &str) -> AnalyzerResult<()> {\n" + COLS.rstrip() + "\n\n    Ok(())\n}\n"))
n('table_indexes_fn', (A, IDXB, "    validate_indexes(table, tmp_table_indexer, input)?;\n"),
  (A, TAIL, TAIL + "\nfn validate_indexes(table: &TableBlock, mut tmp_table_indexer: TableIndexer, input: &str) -> AnalyzerResult<()> {\n" + IDXB.rstrip() + "\n\n    Ok(())\n}\n"))
n('table_both_fn', (A, COLS, "    let column_refs = scan_columns(table, &mut tmp_table_indexer, input)?;\n    indexed_refs.extend(column_refs);\n\n"), (A, IDXB, "    scan_indexes(table, tmp_table_indexer, input)?;\n"),
  (A, TAIL, TAIL + "\nfn scan_columns(table: &TableBlock, tmp_table_indexer: &mut TableIndexer, input: &str) -> AnalyzerResult<Vec<IndexedRef>> {\n    let mut indexed_refs = Vec::with_capacity(table.cols.len());\n" + COLS.rstrip()
   + "\n\n    Ok(indexed_refs)\n}\n\nfn scan_indexes(table: &TableBlock, mut tmp_table_indexer: TableIndexer, input: &str) -> AnalyzerResult<()> {\n    let Some(indexes_block) = &table.indexes else {\n      return Ok(());\n    };\n"
   + IDXB[IDXB.index("      for def in"):].rstrip().removesuffix("}").rstrip() + "\n\n    Ok(())\n}\n"))

ARGS = cut("                    // TODO: add support for interval\n", "                    if !col.r#type.args.iter().all(")
n('args_expected', (A, ARGS, """                    let expected: usize = match type_name {
                      ColumnTypeName::Decimal => 2,
                      ColumnTypeName::VarChar
                      | ColumnTypeName::Char
                      | ColumnTypeName::Time
                      | ColumnTypeName::Timestamp
                      | ColumnTypeName::Timetz
                      | ColumnTypeName::Timestamptz
                      | ColumnTypeName::Bit
                      | ColumnTypeName::Varbit => 1,
                      _ => 0,
                    };

                    if col.r#type.args.len() != expected {
                      throw_err(Err::InvalidDataTypeArguments { raw_type, n_arg: expected as _ }, &col.r#type.span_range, input)?;
                    }

"""))
SPLIT = cut("                  let splited: Vec<_>", "                  let qualified_name")
n('enum_name_slice', (A, SPLIT, """                  let parts: Vec<&str> = raw_type.split('.').collect();

                  let (enum_schema, enum_name) = match parts.as_slice() {
                    [name] => (None, name.to_string()),
                    [schema, name] => (Some(schema.to_string()), name.to_string()),
                    _ => throw_err(Err::InvalidEnum, &col.r#type.span_range, input)?,
                  };

"""))
n('enum_name_iter', (A, SPLIT, """                  let mut parts = raw_type.split('.');

                  let (enum_schema, enum_name) = match (parts.next(), parts.next(), parts.next()) {
                    (Some(name), None, _) => (None, name.to_string()),
                    (Some(schema), Some(name), None) => (Some(schema.to_string()), name.to_string()),
                    _ => throw_err(Err::InvalidEnum, &col.r#type.span_range, input)?,
                  };

"""))
PRJ = cut("  // check project block\n", "  // collect tables\n")
n('project_slice', (A, PRJ, """  // check project block
  match projects.as_slice() {
    [project_block] => check_prop_duplicate_keys(&project_block.properties, input)?,
    [] => throw_err(Err::ProjectSettingNotFound, &schema_block.span_range, input)?,
    _ => throw_err(Err::DuplicateProjectSetting, &schema_block.span_range, input)?,
  };

"""))
n('project_fn', (A, PRJ, "  let project_block = single_project(schema_block)?;\n  check_prop_duplicate_keys(&project_block.properties, input)?;\n\n"), (A, "  let projects = schema_block.projects();\n", ""),
  (A, TAIL, TAIL + """
fn single_project<'a>(schema_block: &'a SchemaBlock<'a>) -> AnalyzerResult<&'a ProjectBlock> {
  let mut projects = schema_block.projects().into_iter();

  let Some(first) = projects.next() else {
    return throw_err(Err::ProjectSettingNotFound, &schema_block.span_range, schema_block.input);
  };

  if projects.next().is_some() {
    return throw_err(Err::DuplicateProjectSetting, &schema_block.span_range, schema_block.input);
  }

  Ok(first)
}
"""))
IDS = cut("        let ident_strings: Vec<_> = def\n", "        for ident in &def.cols {")
n('index_key_fn', (A, IDS, "        let ident_strings: Vec<_> = def.cols.iter().map(index_key).collect();\n\n"), (A, TAIL, TAIL + """
fn index_key(col: &IndexesColumnType) -> alloc::string::String {
  match col {
    IndexesColumnType::Expr(e) => e.raw.to_string(),
    IndexesColumnType::String(s) => s.to_string.to_string(),
  }
}
"""))
CHK = cut("        for ident in &def.cols {", "        match &def.settings {\n          Some(settings) => {")
n('index_unknown_find', (A, CHK, """        let unknown = def.cols.iter().find_map(|id| match id {
          IndexesColumnType::String(name) if table.cols.iter().all(|col| col.name.to_string != name.to_string) => Some(name),
          _ => None,
        });

        if let Some(name) = unknown {
          throw_err(Err::ColumnNotFound, &name.span_range, input)?;
        }

"""))
n('index_unknown_names', (A, CHK, """        let known: BTreeSet<&str> = table.cols.iter().map(|col| col.name.to_string.as_str()).collect();

        for ident in def.cols.iter() {
          match ident {
            IndexesColumnType::String(name) if !known.contains(name.to_string.as_str()) => throw_err(Err::ColumnNotFound, &name.span_range, input)?,
            _ => (),
          }
        }

"""))
n('default_span_once', (A, "          let type_name = col.r#type.type_name;\n", """          let default_span = || {
            col
              .settings
              .iter()
              .flat_map(|s| s.attributes.iter())
              .find(|attr| attr.key.to_string == "default")
              .and_then(|attr| attr.value.as_ref())
              .map(|v| &v.span_range)
              .unwrap_or_else(|| unreachable!("default value is missing"))
          };
          let type_name = col.r#type.type_name.clone();
"""), (A, """          if let Some(ColumnSettings { attributes, default: Some(default_value), .. }) = &col.settings {
            let span_range = attributes.iter()
              .find_map(|attr| {
                (attr.key.to_string == "default").then(|| attr.value.as_ref().map(|v| &v.span_range))
              })
              .and_then(|opt_span| opt_span)
              .unwrap_or_else(|| unreachable!("default value is missing"));
""", """          if let Some(ColumnSettings { default: Some(default_value), .. }) = &col.settings {
            let span_range = default_span();
"""))
DEF = cut("            // validate default value association with a col type\n            match default_value {", "          Ok(TableColumn {\n            r#type")
DEFB = DEF.rstrip()
assert DEFB.endswith('}')
DEFB = DEFB[:-1].rstrip() + '\n'
n("default_fn", (A, "let type_name = col.r#type.type_name;", "let type_name = col.r#type.type_name.clone();"), (A, DEFB, "            validate_default(&col, &type_name, default_value, span_range, input)?;\n"), (A, TAIL, TAIL + """
fn validate_default(col: &TableColumn, type_name: &ColumnTypeName, default_value: &Value, span_range: &core::ops::Range<usize>, input: &str) -> AnalyzerResult<()> {
""" + DEFB.replace("[ColumnTypeName::Bool].contains(&type_name)", "[ColumnTypeName::Bool].contains(type_name)") + """
  Ok(())
}
"""))
n('default_guard_clauses', (A, DEFB, """            match (&type_name, default_value) {
              (ColumnTypeName::Bit | ColumnTypeName::Char, Value::String(val)) => {
                if let Some(Value::Integer(len)) = col.r#type.args.first() {
                  if val.chars().count() as i64 != *len {
                    throw_err(Err::InvalidDefaultValue { raw_value: val.clone(), raw_type: col.r#type.raw.clone() }, span_range, input)?;
                  }
                }
              }
              (ColumnTypeName::Varbit | ColumnTypeName::VarChar, Value::String(val)) => {
                if let Some(Value::Integer(cap)) = col.r#type.args.first() {
                  if *cap < val.chars().count() as i64 {
                    throw_err(Err::InvalidDefaultValue { raw_value: val.clone(), raw_type: col.r#type.raw.clone() }, span_range, input)?;
                  }
                }
              }
              (ColumnTypeName::SmallInt, Value::Integer(val)) if i16::try_from(*val).is_err() => {
                throw_err(Err::DataTypeExceeded { raw_type: col.r#type.raw.clone() }, span_range, input)?;
              }
              (ColumnTypeName::Integer, Value::Integer(val)) if !(i64::from(i32::MIN)..=i64::from(i32::MAX)).contains(val) => {
                throw_err(Err::DataTypeExceeded { raw_type: col.r#type.raw.clone() }, span_range, input)?;
              }
              (ColumnTypeName::Bool, Value::Bool(_)) => (),
              (_, Value::Bool(val)) => {
                throw_err(Err::InvalidDefaultValue { raw_value: val.to_string(), raw_type: col.r#type.raw.clone() }, span_range, input)?;
              }
              (_, Value::Null) => match &col.settings {
                Some(ColumnSettings { nullable: Some(Nullable::Null), .. }) => (),
                _ => throw_err(Err::DefaultNullInNonNullable, span_range, input)?,
              },
              _ => (),
            }
"""))
CONF = cut("    let count = indexed_refs\n", "  Ok(AnalyzedIndexer { indexed_refs, indexer })")
n('conflict_take', (A, CONF, """    let mut same = indexed_refs.iter().filter(|other| indexed_ref.occupy_same_column(other, &indexer));

    match (same.next(), same.next()) {
      (Some(_), None) => (),
      _ => throw_err(Err::ConflictRelation, &indexed_ref.span_range, input)?,
    }
  }

"""))
n('conflict_fold', (A, CONF, """    let mut count = 0usize;

    for other in &indexed_refs {
      count += usize::from(indexed_ref.occupy_same_column(other, &indexer));
    }

    if count == 1 {
      continue;
    }

    throw_err(Err::ConflictRelation, &indexed_ref.span_range, input)?;
  }

"""))
n('refs_fn', (A, "  // validate ref\n" + cut("  for indexed_ref in &indexed_refs {", "  Ok(AnalyzedIndexer { indexed_refs, indexer })"), "  indexed_refs.iter().try_for_each(|r| validate_indexed_ref(r, &indexed_refs, &tables, &indexer, input))?;\n\n"),
  (A, TAIL, TAIL + "\nfn validate_indexed_ref(indexed_ref: &IndexedRef, indexed_refs: &[IndexedRef], tables: &Vec<TableBlock>, indexer: &Indexer, input: &str) -> AnalyzerResult<()> {\n"
   + cut("    if let Some(settings) = &indexed_ref.settings {", "  Ok(AnalyzedIndexer {").rstrip().removesuffix('}').rstrip().replace("&tables, &indexer", "tables, indexer").replace("other_indexed_ref, &indexer", "other_indexed_ref, indexer") + "\n\n    Ok(())\n}\n"))
KEYS = cut("            if settings.is_pk {\n              if !tmp_table_indexer.pk_list.is_empty() {\n                throw_err(Err::DuplicatePrimaryKey, &def", "            if settings.r#type.is_some() {")
n('keys_match', (A, KEYS, """            match (settings.is_pk, settings.is_unique) {
              (true, _) if tmp_table_indexer.pk_list.is_empty() => tmp_table_indexer.pk_list = ident_strings.to_vec(),
              (true, _) => throw_err(Err::DuplicatePrimaryKey, &def.span_range, input)?,
              (false, true) => {
                let key: BTreeSet<_> = ident_strings.iter().cloned().collect();

                if tmp_table_indexer.unique_list.contains(&key) {
                  throw_err(Err::DuplicateUniqueKey, &def.span_range, input)?;
                }

                tmp_table_indexer.unique_list.push(key);
              }
              _ => (),
            }

"""))
n('tables_for', (A, cut("  let tables = tables\n    .into_iter()\n    .map(|table| {\n      let cols = table.cols\n", "          let type_name = col.r#type.type_name;\n"), """  let mut typed_tables = Vec::with_capacity(tables.len());

  for table in tables {
      let mut cols = Vec::with_capacity(table.cols.len());

      for col in table.cols.clone() {
"""), (A, """          Ok(TableColumn {
            r#type: ColumnType {
              type_name,
              ..col.r#type
            },
            ..col
          })
        })
        .collect::<AnalyzerResult<_>>()?;

      Ok(TableBlock { cols, ..table.clone() })
    })
    .collect::<AnalyzerResult<_>>()?;
""", """          cols.push(TableColumn {
            r#type: ColumnType {
              type_name,
              ..col.r#type
            },
            ..col
          });
      }

      typed_tables.push(TableBlock { cols, ..table.clone() });
  }
"""), (A, "validate_ref_type(&tables,", "validate_ref_type(&typed_tables,"))
TYPE = cut("          let type_name = match type_name {\n            ColumnTypeName::Undef", "          // TODO: add more validation\n")
n('type_fn', (A, "          let type_name = col.r#type.type_name;\n\n" + TYPE, "          let type_name = resolve_type(&col, &indexer, input)?;\n\n"), (A, TAIL, TAIL + "\nfn resolve_type(col: &TableColumn, indexer: &Indexer, input: &str) -> AnalyzerResult<ColumnTypeName> {\n          let type_name = col.r#type.type_name.clone();\n\n" + TYPE.rstrip()
   + "\n\n  Ok(type_name)\n}\n"))
