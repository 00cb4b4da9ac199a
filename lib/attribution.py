"""which property a difference in which function and part of the result belongs to"""
FIRST = ('C01', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C14', 'C15', 'C28', 'C27', 'C33')

# error kinds a property owns, per function they are raised from (other failures of the same function are taken for success)
_ALL = ('analyzer::analyze', 'analyzer::indexer::Indexer::index_table', 'analyzer::indexer::Indexer::index_enums',
        'analyzer::indexer::Indexer::index_table_groups', 'analyzer::helper::check_attr_duplicate_keys',
        'analyzer::helper::check_prop_duplicate_keys', 'analyzer::indexer::IndexedRef::validate_ref_type',
        'analyzer::indexer::Indexer::lookup_table_fields')
AN, IT, IE, IG, DA, DP, VR, LF = _ALL
KEEP = {
    'C16': {IT: {'DuplicateTableName', 'DuplicateColumnName', 'DuplicateAlias'}, IE: {'DuplicateEnumName', 'DuplicateEnumValue'},
            IG: {'DuplicateTableGroupName', 'DuplicateTableGroupItem'}},
    'C17': {f: {'DuplicateAttributeKey', 'DuplicatePropertyKey', 'DuplicateProjectSetting', 'ProjectSettingNotFound'} for f in _ALL},
    'C18': {AN: {'DuplicatePrimaryKey', 'NullablePrimaryKey', 'ArrayPrimaryKey', 'ConflictNullableSetting'}},
    'C19': {AN: {'EmptyIndexesBlock', 'ColumnNotFound', 'InvalidIndexesSetting', 'DuplicateUniqueKey', 'DuplicateIndexKey'}},
    'C20': {VR: {'SchemaNotFound', 'TableNotFound', 'ColumnNotFound', 'MismatchedCompositeForeignKey'},
            LF: {'SchemaNotFound', 'TableNotFound', 'ColumnNotFound'}},
    'C21': {VR: {'MismatchedForeignKeyType'}},
    'C22': {VR: {'InvalidForeignKey'}},
    'C23': {AN: {'ConflictRelation'}},
    'C24': {AN: {'InvalidDataTypeArguments', 'InvalidArgumentValue'}},
    'C25': {AN: {'InvalidDefaultValue', 'DefaultNullInNonNullable', 'DataTypeExceeded', 'InvalidEnum', 'SchemaNotFound', 'EnumNotFound',
                 'EnumValueNotFound', 'InvalidDataType'}},
    'C26': {IG: {'TableNotFound', 'SchemaNotFound', 'TableGroupNotFound'}},
}

# functions of the validation whose result is not a verdict
HELPERS = {
    'analyzer::indexer::IndexedRef::occupy_same_column': {'C23', 'C27'},
    'analyzer::indexer::IndexedRef::from_inline': {'C20', 'C23', 'C27', 'C28', 'C12'},
    'analyzer::indexer::Indexer::lookup_enum_values': {'C25', 'C27'},
    'analyzer::indexer::Indexer::resolve_ref_alias': {'C20', 'C23', 'C27', 'C28'},
    'analyzer::indexer::Indexer::resolve_alias': {'C20', 'C23', 'C26', 'C27', 'C28'},
    'analyzer::indexer::Indexer::contains_table': {'C16', 'C26', 'C27'},
    'analyzer::indexer::Indexer::contains_enum': {'C16', 'C27'},
    '<analyzer::indexer::IndexedRef as core::convert::From<ast::refs::RefBlock>>::from': {'C12', 'C20', 'C23', 'C28'},
}
# what the index holds
INDEX = {'schema_map': {'C16', 'C20', 'C26', 'C27'}, 'table_alias_map': {'C16', 'C20', 'C26', 'C27'}, 'table_group_map': {'C16'}}

PARSER = {
    'parse_ident': {'C07'}, 'parse_decl_ident': {'C07'}, 'parse_string_value': {'C08'}, 'parse_value': {'C08'},
    'parse_attribute': {'C08', 'C09'}, 'parse_property': {'C09'}, 'parse_col_settings': {'C10'}, 'parse_indexes_settings': {'C11'},
    'parse_rel_settings': {'C11'}, 'parse_table_settings': {'C09', 'C14'}, 'parse_table_group_settings': {'C09', 'C14'},
    'parse_enum_value': {'C14'}, 'parse_enum_block': {'C14'}, 'parse_enum_decl': {'C14'}, 'parse_project_decl': {'C14'},
    'parse_table_decl': {'C14'}, 'parse_table_col': {'C14'}, 'parse_table_group_decl': {'C14'}, 'parse_note_decl': {'C14'},
    'parse_col_type': {'C13'}, 'parse_col_type_arg': {'C13'}, 'build_type_name_with_schema': {'C13'},
    'parse_ref_decl': {'C12'}, 'parse_ref_stmt': {'C12'}, 'parse_ref_ident': {'C12'}, 'parse_ref_inline': {'C12'},
    'parse_indexes_decl': {'C14'}, 'parse_indexes_block': {'C14'}, 'parse_indexes_single_multi': {'C14'}, 'parse_indexes_ident': {'C14'},
    'parse_schema': {'C05'}, 'parse': {'C05', 'C04'},
}
# parts of a result with an owner of their own: (function, field) -> properties
FIELDS = {
    ('parse_col_settings', 'attributes'): {'C09'}, ('parse_col_settings', 'refs'): {'C09', 'C12'},
    ('parse_indexes_settings', 'attributes'): {'C09'}, ('parse_rel_settings', 'attributes'): {'C09'},
    ('parse_table_settings', 'attributes'): {'C09'}, ('parse_table_group_settings', 'attributes'): {'C09'},
    ('parse_enum_value', 'attributes'): {'C09'}, ('parse_enum_value', 'settings'): {'C09', 'C11'},
    ('parse_enum_value', 'note'): {'C11'}, ('parse_enum_value', 'value'): {'C14', 'C07'},
    ('parse_project_decl', 'properties'): {'C09'}, ('parse_project_decl', 'database_type'): {'C11'}, ('parse_project_decl', 'ident'): {'C14', 'C07'},
    ('parse_table_col', 'type'): {'C13', 'C14'}, ('parse_table_col', 'settings'): {'C10', 'C14'}, ('parse_table_col', 'name'): {'C14', 'C07'},
    ('parse_table_decl', 'settings'): {'C09', 'C14'}, ('parse_table_group_decl', 'settings'): {'C09', 'C14'},
    ('parse_indexes_single_multi', 'settings'): {'C11', 'C14'},
    ('parse_ref_stmt', 'settings'): {'C11', 'C12'}, ('parse_attribute', 'key'): {'C09'}, ('parse_attribute', 'value'): {'C08', 'C09'},
}
AST = {
    '<ast::indexes::IndexesType as core::str::FromStr>::from_str': {'C33', 'C11'},
    '<ast::project::DatabaseType as core::str::FromStr>::from_str': {'C11'},
    '<ast::refs::ReferentialAction as alloc::string::ToString>::to_string': {'C33'},
    '<ast::refs::ReferentialAction as core::str::FromStr>::from_str': {'C33', 'C11'},
    '<ast::refs::Relation as core::str::FromStr>::from_str': {'C33', 'C12'},
    '<ast::table::ColumnTypeName as core::str::FromStr>::from_str': {'C13'},
    '<ast::unit::Value as alloc::string::ToString>::to_string': {'C33', 'C08'},
    '<ast::unit::Value as core::str::FromStr>::from_str': {'C33', 'C08'},
}
SPANS = ('span_range', 'raw', 'input')


def parser_props(fn, path):
    """properties a difference at `path` of the result of a conversion function belongs to"""
    ps = [p for p in path if not p.startswith('[')]
    own = PARSER.get(fn, {'C04'})
    if 'span_range' in ps: return {'C06'}
    if 'input' in ps: return {'C06', 'C15'}
    if ps and ps[-1] == 'raw': return {'C06'} | ({'C13'} if fn == 'parse_col_type' else set()) | ({'C07'} if fn == 'parse_ident' else set())
    if ps[:2] in (['Err', '?'], ['Ok', '?']) or ps[:1] == ['return']: return own | {'C04'}
    if ps[:1] == ['Err']: return set()
    for f in ps:
        if (fn, f) in FIELDS: return FIELDS[(fn, f)]
    if fn == 'parse_col_type' and ('args' in ps or 'arrays' in ps or 'type_name' in ps): return {'C13'}
    return own


def props(unit, path):
    """properties of a difference outside of the validation verdicts"""
    path = path.split('/') if isinstance(path, str) else path
    last = unit.rsplit('::', 1)[-1]
    if unit in AST: return set(AST[unit])
    if unit.startswith('parser::'): return parser_props(last, path)
    if unit.startswith('ast::schema::SchemaBlock'): return {'C05'}
    if unit.startswith(('ast::', '<ast::')): return {'C33'}
    if unit == 'parse_dbml': return {'C15'}
    if unit == 'utils::get_table_refs': return {'C28'}
    if unit in HELPERS: return set(HELPERS[unit])
    if unit == AN:
        if path[:1] == ['Ok'] and path[1:2] == ['0']: return {'C28', 'C27'}
        return set()
    if path[:1] == ['&mut0']:
        for f, s in INDEX.items():
            if f in path: return set(s)
    return set()
