"""planted bugs in the analyzer, the queries and the tables"""
import sys
from plants import p, P, A, X, E, H, U, L, G, T, PJ
I = '  '
# ---------------------------------------------------------------- C16
p('c16-col-case', 'C16', (X, "        if !indexed_cols.insert(col.name.to_string.clone()) {", "        if !indexed_cols.insert(col.name.raw.clone()) {"),
  'two columns of the same name, one of them quoted', 'the raw text instead of the name is compared', '''
ERR Duplicate column name
Project p { }
Table t { a int  "a" int }
''')
p('c16-enum-table', 'C16', (X, "if self.contains_enum(&schema, &name.to_string) {", "if self.contains_enum(&schema, &name.raw) {"),
  'two enums of the same name, the second one quoted', 'the second enum is looked up with its quotes', '''
ERR Duplicate enum name
Project p { }
Enum e { a }
Enum "e" { b }
''')
p('c16-alias-other', 'C16', (X, """        if let Some(_) = self
          .table_alias_map
          .insert(alias.to_string.clone(), (schema.clone(), name.to_string.clone()))
        {
""", """        let target = (schema.clone(), name.to_string.clone());

        if self.table_alias_map.values().any(|t| t == &target)
          || self
            .table_alias_map
            .insert(alias.to_string.clone(), target)
            .is_some_and(|old| old.0 == schema)
        {
"""),
  'two tables of different schemas with the same alias', 'the alias check compares the schema as well', '''
ERR Duplicate alias
Project p { }
Table s.a as x { i int }
Table r.b as x { i int }
''')
p('c16-value-adjacent', 'C16', (X, """        if !value_sets.insert(value.value.to_string.clone()) {
""", """        let known = value_sets.last() == Some(&value.value.to_string);

        value_sets.insert(value.value.to_string.clone());

        if known {
"""),
  'equal enum values with a greater one between them', 'only the greatest value so far is compared', '''
ERR Duplicate enum value
Project p { }
Enum e { a b a }
''')
p('c16-table-cols', 'C16', (X, """      if self.contains_table(&schema, &name.to_string) {
        throw_err(Err::DuplicateTableName, span_range, input)?;
      }
""", """      if self
        .schema_map
        .get(&schema)
        .and_then(|block| block.table_map.get(&name.to_string))
        .is_some_and(|cols| !cols.is_empty())
      {
        throw_err(Err::DuplicateTableName, span_range, input)?;
      }
"""),
  'two tables of the same name, the first one without columns', 'a table without columns does not count as declared', '''
ERR Duplicate table name
Project p { }
Table t { Note: 'x' }
Table t { a int }
''')
p('c16-group-item', 'C16', (X, """            (item_schema.to_string.clone(), group_item.ident_alias.to_string.clone())
""", """            (item_schema.raw.clone(), group_item.ident_alias.to_string.clone())
"""),
  'a table listed twice in a group, with the schema quoted once', 'the raw schema text is used as the identity of the item', '''
ERR Duplicate table group item
Project p { }
Table s.t { a int }
TableGroup g { s.t "s".t }
''')
p('c16-group-name', 'C16', (X, """      self
        .table_group_map
        .insert(table_group.ident.to_string.clone(), indexed_items);
""", """      if !indexed_items.is_empty() {
        self
          .table_group_map
          .insert(table_group.ident.to_string.clone(), indexed_items);
      }
"""), 'two table groups of the same name, the first one empty', 'an empty group is not recorded', '''
ERR Duplicate table group name
Project p { }
Table t { a int }
TableGroup g { }
TableGroup g { t }
''')
# ---------------------------------------------------------------- C17
p('c17-enum-once', 'C17', (X, """        if let Some(settings) = &value.settings {
          check_attr_duplicate_keys(&settings.attributes, input)?;
        }

        if !value_sets""", """        if let Some(settings) = value.settings.as_ref().filter(|s| s.note.is_none()) {
          check_attr_duplicate_keys(&settings.attributes, input)?;
        }

        if !value_sets"""), 'a repeated note of an enum value', 'settings that carry a note are not checked', '''
ERR Duplicate attribute key
Project p { }
Enum e { a [note: 'x', note: 'y'] }
''')
p('c17-two-projects', 'C17', (A, "  if projects.len() > 1 {", "  if projects.len() > 1 && projects[0].ident.to_string == projects[1].ident.to_string {"),
  'two project blocks with different names', 'only projects of the same name count as duplicates', '''
ERR Duplicate project setting
Project p { }
Project q { }
''')
p('c17-key-pairs', 'C17', (H, """  let mut acc = BTreeSet::new();
  let dup_keys: Vec<_> = attrs
    .iter()
    .filter(|attr| !acc.insert(&attr.key.to_string))
    .cloned()
    .collect();

  // TODO: handle multiple errs
  if let Some(attr) = dup_keys.first() {
""", """  let dup_keys: Vec<_> = attrs
    .windows(2)
    .filter(|w| w[0].key.to_string == w[1].key.to_string)
    .map(|w| w[1].clone())
    .collect();

  // TODO: handle multiple errs
  if let Some(attr) = dup_keys.first() {
"""), 'a repeated key with another key between', 'only neighbouring keys are compared', '''
ERR Duplicate attribute key
Project p { }
Table t { a int [note: 'x', unique, note: 'y'] }
''')
p('c17-prop-raw', 'C17', (H, """pub(super) fn check_prop_duplicate_keys(attrs: &Vec<Property>, input: &str) -> AnalyzerResult<()> {
  let mut acc = BTreeSet::new();
  let dup_keys: Vec<_> = attrs
    .iter()
    .filter(|attr| !acc.insert(&attr.key.to_string))
""", """pub(super) fn check_prop_duplicate_keys(attrs: &Vec<Property>, input: &str) -> AnalyzerResult<()> {
  let mut acc = BTreeSet::new();
  let dup_keys: Vec<_> = attrs
    .iter()
    .filter(|attr| !acc.insert((&attr.key.to_string, attr.value.to_string())))
"""), 'a repeated property key with different values', 'key and value together are compared', '''
ERR Duplicate property key
Project p { a: 'x' a: 'y' }
''')
p('c17-ref-settings', 'C17', (A, """    if let Some(settings) = &indexed_ref.settings {
      check_attr_duplicate_keys""", """    if let Some(settings) = indexed_ref.settings.as_ref().filter(|_| indexed_ref.lhs.table != indexed_ref.rhs.table) {
      check_attr_duplicate_keys"""), 'repeated settings of a self relation', 'the settings of a relation of a table with itself are not checked', '''
OK
Project p { }
Table t { a int [pk] b int }
Ref: t.b > t.a [update: cascade]
=====
ERR Duplicate attribute key
Project p { }
Table t { a int [pk] b int }
Ref { t.b > t.a [update: cascade, update: restrict] }
''')
p('c17-index-pk', 'C17', (A, """            check_attr_duplicate_keys(&settings.attributes, input)?;

            if vec![""", """            if !settings.is_pk {
              check_attr_duplicate_keys(&settings.attributes, input)?;
            }

            if vec!["""), 'a repeated key in the settings of a primary key index', 'primary key indexes are skipped', '''
ERR Duplicate attribute key
Project p { }
Table t { a int  indexes { a [pk, name: 'x', name: 'y'] } }
''')
# ---------------------------------------------------------------- C18
p('c18-pk-index', 'C18', (A, """              if !tmp_table_indexer.pk_list.is_empty() {
                throw_err(Err::DuplicatePrimaryKey, &def.span_range, input)?;
              }

              tmp""", """              if tmp_table_indexer.pk_list.iter().any(|pk| ident_strings.contains(pk)) {
                throw_err(Err::DuplicatePrimaryKey, &def.span_range, input)?;
              }

              tmp"""), 'a primary key column and a primary key index over another column', 'only overlapping primary keys are rejected', '''
ERR Duplicate primary key
Project p { }
Table t { a int [pk] b int  indexes { b [pk] } }
''')
p('c18-null-order', 'C18', (A, "if settings.nullable == Some(Nullable::Null) {", "if settings.nullable == Some(Nullable::Null) && settings.default.is_none() {"),
  'a nullable primary key with a default value', 'the check is skipped when a default is given', '''
ERR Nullable primary key
Project p { }
Table t { a int [pk, null, default: 1] }
''')
p('c18-array', 'C18', (A, "if !col.r#type.arrays.is_empty() {", "if col.r#type.arrays.iter().any(|bound| bound.is_none()) {"),
  'a primary key of an array type with a bound', 'only unbounded arrays are rejected', '''
ERR Array primary key
Project p { }
Table t { a int[3] [pk] }
''')
p('c18-conflict-first', 'C18', (A, """          .filter(|&a| ["not null", "null"].contains(&a.key.to_string.as_str()))
""", """          .take_while(|a| a.value.is_none())
          .filter(|&a| ["not null", "null"].contains(&a.key.to_string.as_str()))
"""), "'null' and 'not null' separated by an attribute with a value", 'attributes after the first one with a value are ignored', '''
ERR Conflict nullable setting
Project p { }
Table t { a int [null, note: 'x', not null] }
''')
p('c18-reset', 'C18', (A, """  for table in &tables {
    let mut tmp_table_indexer = TableIndexer::default();
""", """  let mut tmp_table_indexer = TableIndexer::default();

  for table in &tables {
    tmp_table_indexer.pk_list.clear();
"""), 'two tables with a unique index over the same column name', 'the unique and index lists leak into the next table', '''
OK
Project p { }
Table t { a int  indexes { a [unique] } }
Table u { a int  indexes { a [unique] } }
''')
# ---------------------------------------------------------------- C19
p('c19-unique-order', 'C19', (A, """                .any(|uniq_item| eq_elements(uniq_item.iter(), ident_strings.iter()))
""", """                .any(|uniq_item| uniq_item.iter().eq(ident_strings.iter()))
"""), 'two unique indexes over the same columns in a different order', 'the order of the columns is compared', '''
ERR Duplicate unique key
Project p { }
Table t { a int b int  indexes { (a, b) [unique] (b, a) [unique] } }
''')
p('c19-typed', 'C19', (A, "              .any(|(idx_item, _)| idx_item == &ident_strings)", "              .any(|(idx_item, idx_type)| idx_item == &ident_strings && idx_type.is_none())"),
  'a plain index after a typed one over the same columns', 'only earlier plain indexes are compared', '''
ERR Duplicate index key
Project p { }
Table t { a int  indexes { a [type: hash] a } }
''')
p('c19-expr-raw', 'C19', (A, "              IndexesColumnType::Expr(e) => e.raw.clone(),", "              IndexesColumnType::Expr(_) => String::from(\"`expr`\"),"),
  'two unique indexes over different expressions', 'all expressions are taken for the same', '''
OK
Project p { }
Table t { a int  indexes { `f(a)` [unique] `g(a)` [unique] } }
''') if False else None
p('c19-col-case', 'C19', (A, "if !table.cols.iter().any(|col| col.name.to_string == col_name.to_string) {", "if !table.cols.iter().any(|col| col.name.to_string.eq_ignore_ascii_case(&col_name.to_string)) {"),
  'an index column that differs in case from the declared column', 'the comparison ignores case', '''
ERR Column not found
Project p { }
Table t { a int  indexes { A } }
''')
p('c19-settings-count', 'C19', (A, "if vec![settings.is_pk, settings.is_unique, settings.r#type.is_some()]", "if vec![settings.is_pk && settings.is_unique, settings.r#type.is_some()]"),
  'an index that is unique and typed', 'primary key and unique are counted as one', '''
ERR Invalid indexes setting
Project p { }
Table t { a int  indexes { a [unique, type: btree] } }
''')
p('c19-unique-col', 'C19', (A, """        if settings.is_unique {
          tmp_table_indexer
            .unique_list""", """        if settings.is_unique && !settings.is_pk {
          tmp_table_indexer
            .unique_list"""), 'a column that is both primary key and unique and a unique index over it', 'unique is not recorded for a primary key', '''
ERR Duplicate unique key
Project p { }
Table t { a int [pk, unique]  indexes { a [unique] } }
''')
p('c19-typed-push', 'C19', (A, """              tmp_table_indexer
                .indexed_list
                .push((ident_strings, settings.r#type.clone()));
""", """              tmp_table_indexer
                .indexed_list
                .insert(0, (ident_strings, settings.r#type.clone()));

              tmp_table_indexer.indexed_list.truncate(1);
"""), 'a typed index that repeats one before the last', 'only the latest typed index is kept', '''
ERR Duplicate index key
Project p { }
Table t { a int b int  indexes { a [type: hash] b [type: hash] a [type: hash] } }
''')
p('c19-expr-check', 'C19', (A, """        for ident in &def.cols {
          if let IndexesColumnType""", """        for ident in def.cols.iter().take_while(|c| matches!(c, IndexesColumnType::String(_))) {
          if let IndexesColumnType"""), 'an unknown column after an expression', 'columns after an expression are not checked', '''
ERR Column not found
Project p { }
Table t { a int  indexes { (`f(a)`, b) } }
''')
# ---------------------------------------------------------------- C20
p('c20-inline-rhs', 'C20', (X, """    indexer.lookup_table_fields(&rhs_ident.schema, &rhs_ident.table, &rhs_ident.compositions, input)?;
""", """    indexer.lookup_table_fields(&rhs_ident.schema, &rhs_ident.table, &lhs_ident.compositions, input)?;
"""), 'a relation whose sides name their columns differently', 'the left columns are looked up in the right table', '''
OK
Project p { }
Table a { x int }
Table b { y int [pk] }
Ref: a.x > b.y
''') if False else None
p('c20-first-field', 'C20', (X, """            let unlisted_fields: Vec<_> = fields
              .iter()
              .filter(|v| !col_set.contains(&v.to_string))
              .cloned()
              .collect();

            if let Some(first) = unlisted_fields.first() {
""", """            let unlisted_fields: Vec<_> = fields
              .iter()
              .skip_while(|v| !col_set.contains(&v.raw))
              .filter(|v| !col_set.contains(&v.to_string))
              .cloned()
              .collect();

            if let Some(first) = unlisted_fields.first() {
"""), 'a relation over a column that does not exist in the first place of a composite', 'leading unknown columns are skipped by the lookup', '''
OK
Project p { }
Table a { x int y int }
Table b { "x" int y int  indexes { (x, y) [pk] } }
Ref: a.(x, y) > b.(x, y)
=====
ERR Column not found && LINE 4:9
Project p { }
Table a { x int y int }
Table b { x int y int  indexes { (x, y) [pk] } }
Ref: a.(z, y) > b.(x, y)
=====
ERR Column not found && LINE 3:25
Project p { }
Table a { x int }
Table b { y int x int [ref: - a.q] }
''')
p('c20-max-len', 'C20', (X, "    if lhs_ident.compositions.len() != rhs_ident.compositions.len() {", "    if lhs_ident.compositions.len() > rhs_ident.compositions.len() {"),
  'a relation with more columns on the right than on the left', 'only a longer left side is rejected', '''
ERR Mismatched composite foreign key
Project p { }
Table a { x int }
Table b { x int y int  indexes { (x, y) [pk] } }
Ref: a.x > b.(x, y)
''')
p('c20-enum-schema', 'C20', (X, "    match self.schema_map.get(&schema) {\n      Some(block) => {\n        match block.table_map.get(&table.to_string) {", "    match self.schema_map.get(&schema).or_else(|| self.schema_map.get(DEFAULT_SCHEMA)) {\n      Some(block) => {\n        match block.table_map.get(&table.to_string) {"),
  'a relation that names an undeclared schema and a table of the default schema', 'an unknown schema falls back to the default schema', '''
ERR Schema not found
Project p { }
Table a { x int }
Table b { x int [pk] }
Ref: a.x > nope.b.x
''')
# ---------------------------------------------------------------- C21
p('c21-args-len', 'C21', (X, "l_type.args != r_type.args ||", "l_type.args.len() != r_type.args.len() ||"), 'related columns with different lengths', 'only the number of arguments is compared', '''
ERR Mismatched foreign key type
Project p { }
Table a { x varchar(10) }
Table b { x varchar(20) [pk] }
Ref: a.x > b.x
''')
p('c21-arrays', 'C21', (X, "|| l_type.arrays != r_type.arrays {", "|| l_type.arrays.is_empty() != r_type.arrays.is_empty() {"), 'related columns with different array suffixes', 'only the presence of suffixes is compared', '''
ERR Mismatched foreign key type
Project p { }
Table a { x int[] }
Table b { x int[][] [unique] }
Ref: a.x > b.x
''')
p('c21-skip-rest', 'C21', (X, "    let field_pairs = lhs_ident.compositions.iter().zip(rhs_ident.compositions.iter());", "    let field_pairs = lhs_ident.compositions.iter().zip(rhs_ident.compositions.iter()).take(2);"),
  'a three column relation whose third pair differs in type', 'only the first two pairs are compared', '''
ERR Mismatched foreign key type
Project p { }
Table a { x int y int z int }
Table b { x int y int z text  indexes { (x, y, z) [pk] } }
Ref: a.(x, y, z) > b.(x, y, z)
''')
p('c21-raw', 'C21', (X, "if l_type.type_name != r_type.type_name ||", "if l_type.raw != r_type.raw ||"), 'related columns whose types are written with different aliases', 'the text of the types is compared', '''
OK
Project p { }
Table a { x int }
Table b { x integer [pk] }
Ref: a.x > b.x
''')
# ---------------------------------------------------------------- C22
p('c22-pk-only', 'C22', (X, """          r_col.settings.as_ref().is_some_and(|s| s.is_pk || s.is_unique)
            ||""", """          r_col.settings.as_ref().is_some_and(|s| s.is_pk || (s.is_unique && s.nullable.is_none()))
            ||"""), 'a reference to a unique column with an explicit nullability', 'such a column does not count as unique', '''
OK
Project p { }
Table a { x int }
Table b { x int [unique, not null] }
Ref: a.x > b.x
''')
p('c22-o2o', 'C22', (X, "          (Relation::One2One, false, false) => Some((InvalidForeignKeyErr::One2One, &self.span_range)),", "          (Relation::One2One, false, false) if self.settings.is_some() => Some((InvalidForeignKeyErr::One2One, &self.span_range)),"),
  'a one-to-one relation without settings between columns that are no keys', 'the rule is only applied when the relation has settings', '''
ERR one-to-one
Project p { }
Table a { x int }
Table b { x int }
Ref: a.x - b.x
''')
p('c22-m2m', 'C22', (X, "          Relation::Many2Many if !is_valid_lhs || !is_valid_rhs => {", "          Relation::Many2Many if !is_valid_lhs && !is_valid_rhs => {"),
  'a composite many-to-many relation with one side without key', 'one valid side suffices', '''
ERR many-to-many
Project p { }
Table a { x int y int  indexes { (x, y) [pk] } }
Table b { x int y int }
Ref: a.(x, y) <> b.(x, y)
''')
p('c22-composite-subset', 'C22', (X, "            compositions.len() == def_item.cols.len()\n              && def_item", "            compositions.len() <= def_item.cols.len()\n              && def_item"),
  'a composite reference to columns of an index that also has an expression', 'an index with further expressions counts', '''
ERR composite primary key
Project p { }
Table a { x int y int }
Table b { x int y int  indexes { (x, y, `f(x)`) [unique] } }
Ref: a.(x, y) > b.(x, y)
''')
p('c22-o2m-side', 'C22', (X, """          Relation::One2Many if !is_valid_lhs => {""", """          Relation::One2Many if !is_valid_lhs && !is_valid_rhs => {"""), 'a composite one-to-many relation whose right side only is a key', 'a key on the other side suffices', '''
ERR composite primary key
Project p { }
Table a { x int y int }
Table b { x int y int  indexes { (x, y) [pk] } }
Ref: a.(x, y) < b.(x, y)
''')
# ---------------------------------------------------------------- C23
p('c23-reversed', 'C23', (X, "          || (eq_ident(&self_lhs, &other_rhs) && eq_ident(&self_rhs, &other_lhs))", "          || (eq_ident(&self_lhs, &other_rhs) && eq_ident(&self_rhs, &other_rhs))"),
  'two one-to-one relations over the same endpoints written in opposite directions', 'the reversed direction is compared with the wrong endpoint', '''
ERR Conflict relation
Project p { }
Table a { x int [pk] }
Table b { x int [pk] }
Ref: a.x - b.x
Ref: b.x - a.x
''')
p('c23-o2m', 'C23', (X, """        let self_occupied_ident = match &self.rel {
          Relation::Many2One => Some(&self.lhs),
          Relation::One2Many => Some(&self.rhs),
""", """        let self_occupied_ident = match &self.rel {
          Relation::Many2One => Some(&self.lhs),
          Relation::One2Many if self.rhs.compositions.len() > 1 => Some(&self.lhs),
          Relation::One2Many => Some(&self.rhs),
"""), 'two composite one-to-many relations with the same dependent side', 'the wrong side is taken for composites', '''
ERR Conflict relation
Project p { }
Table a { x int y int  indexes { (x, y) [pk] } }
Table b { x int y int }
Table c { x int y int  indexes { (x, y) [pk] } }
Ref: a.(x, y) < b.(x, y)
Ref: b.(x, y) > c.(x, y)
''')
p('c23-later-only', 'C23', (A, """    let count = indexed_refs
      .iter()
      .filter(|other_indexed_ref| indexed_ref.occupy_same_column(other_indexed_ref, &indexer))
      .count();

    if count != 1 {
""", """    let count = indexed_refs
      .iter()
      .filter(|other_indexed_ref| indexed_ref.rel == other_indexed_ref.rel)
      .filter(|other_indexed_ref| indexed_ref.occupy_same_column(other_indexed_ref, &indexer))
      .count();

    if count != 1 {
"""), 'a many-to-one and a one-to-many relation with the same dependent column', 'only relations of the same kind are compared', '''
ERR Conflict relation
Project p { }
Table a { x int [pk] }
Table b { x int }
Table c { x int [pk] }
Ref: a.x < b.x
Ref: b.x > c.x
''')
p('c23-set-order', 'C23', (X, """        && lhs.table.to_string == rhs.table.to_string
        && eq_elements(
          lhs.compositions.iter().map(|s| &s.to_string),
          rhs.compositions.iter().map(|s| &s.to_string),
        )
""", """        && lhs.table.to_string == rhs.table.to_string
        && lhs.compositions == rhs.compositions
"""), 'two relations with the same dependent columns', 'the columns are compared with their positions in the text', '''
ERR Conflict relation
Project p { }
Table a { x int [pk] }
Table b { x int }
Ref: b.x > a.x
Ref: b.x > a.x
''')
# ---------------------------------------------------------------- C24
p('c24-all-any', 'C24', (A, "if !col.r#type.args.iter().all(|arg| matches!(arg, Value::Integer(_))) {", "if !col.r#type.args.iter().any(|arg| matches!(arg, Value::Integer(_))) {"),
  'a decimal with one argument that is not an integer', 'one integer argument suffices', '''
ERR Invalid argument value
Project p { }
Table t { a decimal(10, 'x') }
''')
p('c24-timetz', 'C24', (A, """                      | ColumnTypeName::Timetz
                      | ColumnTypeName::Timestamptz
                      | ColumnTypeName::Bit
                      | ColumnTypeName::Varbit => {
                        if col.r#type.args.len() != 1 {""", """                      | ColumnTypeName::Timetz
                      | ColumnTypeName::Timestamptz
                      | ColumnTypeName::Bit
                      | ColumnTypeName::Varbit => {
                        if col.r#type.args.len() > 2 {"""), 'a length type with two arguments', 'two arguments are accepted', '''
ERR Invalid data type arguments
Project p { }
Table t { a varchar(10, 2) }
''')
p('c24-decimal-one', 'C24', (A, """                      ColumnTypeName::Decimal => {
                        if col.r#type.args.len() != 2 {""", """                      ColumnTypeName::Decimal => {
                        if col.r#type.args.len() != 2 && !col.r#type.arrays.is_empty() {"""), 'a decimal with one argument', 'the number of arguments is only checked for arrays', '''
ERR Invalid data type arguments
Project p { }
Table t { a decimal(10) }
''')
p('c24-json', 'C24', (A, "                      _ =>  {\n                        throw_err(Err::InvalidDataTypeArguments { raw_type, n_arg: 0 }", "                      ColumnTypeName::Uuid if col.r#type.args.len() == 1 => (),\n                      _ =>  {\n                        throw_err(Err::InvalidDataTypeArguments { raw_type, n_arg: 0 }"),
  'an argument on uuid', 'uuid accepts one argument', '''
ERR Invalid data type arguments
Project p { }
Table t { a uuid(4) }
''')
# ---------------------------------------------------------------- C25
p('c25-chars', 'C25', (A, "if matches!(col.r#type.args.first(), Some(Value::Integer(cap)) if val.chars().count() as i64 > *cap) => {", "if matches!(col.r#type.args.first(), Some(Value::Integer(cap)) if val.len() as i64 > *cap) => {"),
  'a default with characters outside ASCII', 'bytes instead of characters are counted', '''
OK
Project p { }
Table t { a varchar(3) [default: 'äöü'] }
''')
p('c25-smallint', 'C25', (A, "if (*val > i16::MAX as i64) || (*val < i16::MIN as i64) => {", "if val.abs() > i16::MAX as i64 => {"),
  'a smallint default of -32768', 'the lower bound is off by one', '''
OK
Project p { }
Table t { a smallint [default: -32768] }
''')
p('c25-int-bound', 'C25', (A, "if (*val > i32::MAX as i64) || (*val < i32::MIN as i64) => {", "if *val as i32 as i64 > i32::MAX as i64 || *val < i32::MIN as i64 => {"),
  'an integer default above 2147483647', 'the value is cut to 32 bits before the comparison', '''
ERR Data type exceeded
Project p { }
Table t { a int [default: 2147483648] }
''')
p('c25-varbit', 'C25', (A, """                  ColumnTypeName::Bit
                  | ColumnTypeName::Char
                  if matches""", """                  ColumnTypeName::Bit
                  | ColumnTypeName::Varbit
                  | ColumnTypeName::Char
                  if matches"""), 'a default shorter than the length of a varbit', 'varbit is treated as a fixed-length type', '''
OK
Project p { }
Table t { a varbit(5) [default: '101'] }
''')
p('c25-null-pk', 'C25', (A, "if !col.settings.as_ref().is_some_and(|s| s.nullable == Some(Nullable::Null)) {", "if !col.settings.as_ref().is_some_and(|s| s.nullable != Some(Nullable::NotNull)) {"),
  'a null default on a column without nullability', 'an undeclared nullability counts as nullable', '''
ERR Default null
Project p { }
Table t { a int [default: null] }
''')
p('c25-enum-word', 'C25', (A, "                    if !matches!(default_value, Value::Null | Value::Expr(_)) => {", "                    if !matches!(default_value, Value::Null | Value::Expr(_) | Value::Bool(_)) => {"),
  'a boolean default on an enum column', 'boolean defaults of enum columns are not looked up', '''
ERR Enum value not found
Project p { }
Enum e { a }
Table t { a e [default: true] }
''') if False else None
p('c25-enum-any', 'C25', (A, "(true, (true, f)) if f.iter().any(|f| f == &false) =>", "(true, (true, f)) if f.iter().any(|f| f == &false) && col.r#type.arrays.is_empty() =>"),
  'an unknown enum value as the default of an enum array', 'arrays are not checked', '''
ERR Enum value not found
Project p { }
Enum e { a }
Table t { a e[] [default: b] }
''')
p('c25-bool-bit', 'C25', (A, "if ![ColumnTypeName::Bool].contains(&type_name) {", "if ![ColumnTypeName::Bool, ColumnTypeName::Bit].contains(&type_name) {"), 'a boolean default on a bit column', 'bit counts as boolean', '''
ERR Invalid default value
Project p { }
Table t { a bit [default: true] }
''')
# ---------------------------------------------------------------- C26
p('c26-schema-alias', 'C26', (X, "            if !self.contains_table(&item_schema.to_string, &group_item.ident_alias.to_string) {", "            if !self.contains_table(&item_schema.to_string, &group_item.ident_alias.to_string)\n              && self.resolve_alias(&group_item.ident_alias.to_string).is_none()\n            {"),
  'a table group item with a schema and an alias', 'an alias of any schema satisfies a qualified item', '''
ERR Table not found
Project p { }
Table s.t as x { a int }
TableGroup g { r.x }
''')
p('c26-any-schema', 'C26', (X, """                let has_table = self
                  .schema_map
                  .get(DEFAULT_SCHEMA)
                  .iter()
                  .any(""", """                let has_table = self
                  .schema_map
                  .values()
                  .any("""), 'an unqualified item that is declared in another schema only', 'every schema is searched', '''
ERR Table not found
Project p { }
Table s.t { a int }
TableGroup g { t }
''')
p('c26-enum', 'C26', (X, "  pub fn contains_table(&self, schema: &String, name: &String) -> bool {\n    self\n      .schema_map\n      .get(schema)\n      .iter()\n      .any(|item| item.table_map.contains_key(name))", "  pub fn contains_table(&self, schema: &String, name: &String) -> bool {\n    self\n      .schema_map\n      .get(schema)\n      .iter()\n      .any(|item| item.table_map.contains_key(name) || item.enum_map.contains_key(name))"),
  'a group item that names an enum', 'enums count as tables', '''
ERR Table not found
Project p { }
Table s.u { a int }
Enum s.t { a }
TableGroup g { s.t }
''')
# ---------------------------------------------------------------- C27
p('c27-alias-qualified', 'C27', (X, "    if ident.schema.is_some() {\n      return ident.clone();\n    }", "    if ident.schema.as_ref().is_some_and(|s| s.to_string != DEFAULT_SCHEMA) {\n      return ident.clone();\n    }"),
  'a relation to public.x where x is also an alias', 'an explicit default schema is treated like none', '''
OK
Project p { }
Table s.t as x { q int }
Table public.x { i int [pk] }
Table u { i int }
Ref: u.i > public.x.i
''')
p('c27-enum-schema', 'C27', (X, "    let schema = schema.clone().unwrap_or_else(|| DEFAULT_SCHEMA.to_string());\n\n    match self.schema_map.get(&schema) {\n      Some(block) => {\n        match block.enum_map", "    let schema = schema.clone().unwrap_or_else(|| self.schema_map.keys().next().cloned().unwrap_or_default());\n\n    match self.schema_map.get(&schema) {\n      Some(block) => {\n        match block.enum_map"),
  'an unqualified enum type while another schema sorts before public', 'the first schema is used instead of the default one', '''
OK
Project p { }
Table aaa.t { i int }
Enum e { a }
Table u { i e [default: a] }
''')
p('c27-inline-default', 'C27', (X, """              span_range: table_ident.span_range.clone(),
              raw: DEFAULT_SCHEMA.to_string(),
              to_string: DEFAULT_SCHEMA.to_string(),
            }
          })),
          table: table_ident.name.clone(),""", """              span_range: table_ident.span_range.clone(),
              raw: DEFAULT_SCHEMA.to_string(),
              to_string: DEFAULT_SCHEMA.to_string(),
            }
          })),
          table: table_ident.alias.clone().unwrap_or_else(|| table_ident.name.clone()),"""), 'an inline relation of a table that has an alias', 'the alias is used with an explicit schema', '''
OK
Project p { }
Table b { x int [pk] }
Table a as z { x int [ref: > b.x] }
''')
p('c27-default-eq', 'C27', (X, "          table.ident.schema.as_ref().map_or(DEFAULT_SCHEMA, |s| s.to_string.as_str())\n            == ref_ident.schema", "          table.ident.schema.as_ref().map_or(DEFAULT_SCHEMA, |s| s.raw.as_str())\n            == ref_ident.schema"),
  'a relation to a table declared with a quoted schema', 'the raw schema text is compared', '''
OK
Project p { }
Table "my s".t { x int [pk] }
Table a { x int }
Ref: a.x > "my s".t.x
''')
p('c27-alias-first', 'C27', (X, "    match self.resolve_alias(&ident.table.to_string) {\n      Some((schema, table)) => {", "    match self.resolve_alias(&ident.table.to_string).filter(|_| !self.contains_table(&DEFAULT_SCHEMA.to_string(), &ident.table.to_string)) {\n      Some((schema, table)) => {"),
  'an alias that equals the name of a table of the default schema', 'the table shadows the alias', '''
OK
Project p { }
Table s.t as x { i int [pk] }
Table x { k int }
Table u { i int }
Ref: u.i > x.i
''')
# ---------------------------------------------------------------- C29
p('c29-dup-first', 'C29', (H, "  if let Some(attr) = dup_keys.first() {", "  if let Some(attr) = dup_keys.last() {"), 'a settings list with two repeated keys', 'the last repeated key is reported instead of the first', '''
ERR Duplicate attribute key && LINE 2:30
Project p { }
Table t { a int [note: 'x' , note: 'y', unique, unique] }
''')
p('c29-type-swap', 'C29', (X, """          r_type: r_type.raw.clone(),
          l_type: l_type.raw.clone(),
        };""", """          r_type: if r_col.settings.is_some() { r_type.raw.clone() } else { l_type.raw.clone() },
          l_type: l_type.raw.clone(),
        };"""), 'a type mismatch with a right column without settings', 'the right type is reported with the left text', '''
ERR 'x': 'int' (left) and 'x': 'text' (right)
Project p { }
Table a { x int [pk] }
Table b { x text }
Ref: a.x < b.x
''')
p('c29-conflict-span', 'C29', (A, "throw_err(Err::ConflictRelation, &indexed_ref.span_range, input)?;", "throw_err(Err::ConflictRelation, &indexed_ref.lhs.span_range, input)?;"), 'two conflicting relations', 'the span of the left endpoint is reported', '''
ERR | Ref: b.x > a.x | ^-------^
Project p { }
Table a { x int [pk] }
Table b { x int }
Ref: b.x > a.x
Ref: b.x > a.x
''')
p('c29-group-item', 'C29', (X, """                if !has_table {
                  throw_err(Err::TableNotFound, &group_item.span_range, input)?;""", """                if !has_table {
                  throw_err(Err::TableNotFound, &table_group.ident.span_range, input)?;"""), 'an unknown unqualified table in a group', 'the name of the group is reported', '''
ERR Table not found && LINE 3:16
Project p { }
Table t { a int }
TableGroup g { x }
''')
p('c29-arg-msg', 'C29', (A, "throw_err(Err::InvalidDataTypeArguments { raw_type, n_arg: 2 }, &col.r#type.span_range, input)?;", "throw_err(Err::InvalidDataTypeArguments { raw_type, n_arg: 1 }, &col.r#type.span_range, input)?;"), 'a decimal with one argument', 'the message names one argument', '''
ERR requires only 2 argument
Project p { }
Table t { a decimal(10) }
''')
p('c29-default-span', 'C29', (A, """            let span_range = attributes.iter()
              .find_map(|attr| {
                (attr.key.to_string == "default").then(|| attr.value.as_ref().map(|v| &v.span_range))
              })""", """            let span_range = attributes.iter()
              .find_map(|attr| {
                attr.value.is_some().then(|| attr.value.as_ref().map(|v| &v.span_range))
              })"""), 'a wrong default after an attribute with a value', 'the first value of the list is reported', '''
ERR LINE 2:37 
Project p { }
Table t { a smallint [note: 'x', default: 40000] }
''')
# ---------------------------------------------------------------- C32
p('c32-enum-group', 'C32', (X, "      if self.contains_enum(&schema, &name.to_string) {", "      if self.contains_enum(&schema, &name.to_string) || self.contains_table(&schema, &name.to_string) {"), 'an enum with the name of a table', 'enums and tables share one name space', '''
OK
Project p { }
Table t { a int }
Enum t { a }
''')
p('c32-plain-index', 'C32', (A, "                .any(|(idx_item, idx_type)| idx_item == &ident_strings && idx_type == &settings.r#type)", "                .any(|(idx_item, idx_type)| idx_item == &ident_strings && (idx_type == &settings.r#type || idx_type.is_none()))"), 'a typed index after a plain one over the same column', 'a plain index counts as equal to any type', '''
OK
Project p { }
Table t { a int  indexes { a a [type: hash] } }
''')
p('c32-self-ref', 'C32', (X, "        && lhs.table.to_string == rhs.table.to_string\n        && eq_elements(", "        && lhs.table.to_string.eq_ignore_ascii_case(&rhs.table.to_string)\n        && eq_elements("), 'relations of two tables whose names differ only in case', 'the comparison ignores case', '''
OK
Project p { }
Table a { x int [pk] }
Table b { x int }
Table B { x int }
Ref: b.x > a.x
Ref: B.x > a.x
''')
p('c32-quoted-arg', 'C32', (A, "                  | ColumnTypeName::VarChar\n                  if matches", "                  | ColumnTypeName::VarChar\n                  | ColumnTypeName::Timestamp\n                  if matches"), 'a timestamp with precision and a string default', 'the precision is taken for a length', '''
OK
Project p { }
Table t { a timestamp(3) [default: '2020-01-01'] }
''')
p('c32-empty-index-set', 'C32', (A, "              .any(|(idx_item, _)| idx_item == &ident_strings)", "              .any(|(idx_item, _)| eq_elements(idx_item.iter(), ident_strings.iter()))"), 'two plain indexes over the same columns in different order', 'the order of plain index columns is ignored', '''
OK
Project p { }
Table t { a int b int  indexes { (a, b) (b, a) } }
''')
