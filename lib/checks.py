import check_graph, check_grammar, check_spec

INFO = {
    'C02': dict(technique='call-graph, grammar and type-graph acyclicity; loop-progress dataflow over MIR',
                how='Acyclicity of the grammar rule graph, of the type graph and of the resolved call graph (including closures and calls back from generic library code), non-nullability of every repeated grammar expression, and a progress argument for every natural loop of every function body.',
                rule='no cycle; every loop advances a finite iterator, shrinks a collection or counts to a bound on every way round',
                assume=['library functions of core, alloc and pest terminate when their arguments do']),
    'C03': dict(technique='effect analysis over resolved MIR',
                how='Effect analysis over the resolved MIR of every function, for the default and the utils feature set.',
                rule='no mutable or interior-mutable static, thread local, unsafe block, address observation, random container, engine setting, or callee outside core/alloc/pest',
                assume=['core, alloc and pest functions outside the forbidden list depend on their arguments only']),
    'C30': dict(technique='exact automata-theoretic equivalence of PEG rules',
                how='Every lexical rule of the grammar is compared with the reference grammar: as an expression, and where it differs as the regular relation between input text, consumed prefix and emitted pairs it denotes (ordered choice, greedy repetition and look-ahead included).',
                rule='same relation as the reference rule in every context; a difference that never shows in a whole document is no difference',
                assume=['pest_derive generates code that implements PEG semantics', 'the reference grammar (lib/reference.pest) states the documented syntax']),
    'C31': dict(technique='exact automata-theoretic equivalence of PEG rules',
                how='Every statement rule of the grammar is compared with the reference grammar: as an expression, and where it differs as the regular relation between input text, consumed prefix and emitted pairs it denotes (ordered choice, greedy repetition and look-ahead included).',
                rule='same relation as the reference rule in every context; a difference that never shows in a whole document is no difference',
                assume=['pest_derive generates code that implements PEG semantics', 'the reference grammar (lib/reference.pest) states the documented syntax']),
}


VG = 'gated value-graph dataflow analysis of MIR, compared with a specification tree by value numbering'
VGHOW = ('Every function is evaluated once over its control-flow graph into a canonical gated value graph (guards as decision diagrams over what the grammar can '
         'produce and over collection contents, loops and iterator chains as comprehensions and folds, errors and panics as guarded results; no path is enumerated, no solver is called) '
         'and its result, the collections it changes and its panic conditions are compared with those of the specification tree (/verif/reference); '
         'a difference that disappears when callees or callers are expanded is none. ')
VGASSUME = ['the specification tree /verif/reference states the properties (it was reviewed against them; defects found that way were fixed in /repo)',
            'the models of core, alloc and pest functions (lib/stdlib.py, lib/pestmodel.py) are right; a result that depends on a function without a model is reported as undecided, not as a violation',
            'pest_derive generates code that implements PEG semantics; the grammar itself is compared by C30 and C31',
            'collections stay below 2^31 elements']
GR = ' The grammar rules of the property are compared with the reference grammar as in C30 and C31.'


def _v(rule, also=''):
    return dict(technique=VG + (' with automata-theoretic comparison of PEG rules' if also else ''), how=VGHOW + also, rule=rule, assume=VGASSUME)


INFO.update({
    'C01': _v('no function has a panic condition the specification does not have; the four premises of the remaining ones (a default value has its attribute, a column type is raw) are unchanged where they are established; source positions are those of constructs'),
    'C04': _v('every conversion function fails under exactly the specified condition'),
    'C05': _v('block list and accessors have the specified value', GR),
    'C06': _v('every span_range, raw and input field has the specified value'),
    'C07': _v('identifier conversions have the specified value', GR),
    'C08': _v('literal conversions have the specified value', GR),
    'C09': _v('attribute, property and inline ref lists have the specified value', GR),
    'C10': _v('every field of the column settings has the specified value'),
    'C11': _v('every field of index, enum value, ref and project settings has the specified value'),
    'C12': _v('relation endpoints, kind, name and settings have the specified value', GR),
    'C13': _v('column types and the type-name table have the specified value', GR),
    'C14': _v('every field of the block structures has the specified value; no member kind a block may repeat is reduced to one', GR),
    'C15': _v('parse_dbml returns the error of either stage and otherwise the unchecked result'),
    'C16': _v('with every other error taken for success, the duplicate-name errors are raised under exactly the specified condition'),
    'C17': _v('with every other error taken for success, the duplicate-key and project errors are raised under exactly the specified condition'),
    'C18': _v('with every other error taken for success, the primary-key and nullability errors are raised under exactly the specified condition'),
    'C19': _v('with every other error taken for success, the index errors are raised under exactly the specified condition'),
    'C20': _v('with every other error taken for success, the endpoint errors are raised under exactly the specified condition; endpoint resolution has the specified value'),
    'C21': _v('with every other error taken for success, the type mismatch is raised under exactly the specified condition'),
    'C22': _v('with every other error taken for success, the missing-key error is raised under exactly the specified condition'),
    'C23': _v('with every other error taken for success, the conflict error is raised under exactly the specified condition; the conflict test has the specified value'),
    'C24': _v('with every other error taken for success, the type-argument errors are raised under exactly the specified condition'),
    'C25': _v('with every other error taken for success, the default-value errors are raised under exactly the specified condition; the enum lookup has the specified value'),
    'C26': _v('with every other error taken for success, the table-group item errors are raised under exactly the specified condition'),
    'C27': _v('alias and schema resolution, the index maps and their users have the specified value'),
    'C28': _v('the three lists of get_table_refs, and the relations and aliases they are computed from, have the specified value'),
    'C29': _v('per error kind, message and span are the specified ones wherever it is raised'),
    'C32': _v('no validation function fails, and no helper makes its callers fail, where the specification does not'),
    'C33': _v('the keyword conversions in both directions have the specified value for every text'),
})


def run(prop, rep, tier):
    if prop == 'C02': check_graph.c02(rep)
    elif prop == 'C03': check_graph.c03(rep)
    elif prop == 'C30': check_grammar.c30(rep, tier)
    elif prop == 'C31': check_grammar.c31(rep, tier)
    elif prop in INFO: check_spec.run(prop, rep, tier)
    else: raise SystemExit('no check for ' + prop)
