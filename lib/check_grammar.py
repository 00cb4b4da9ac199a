"""C30, C31 and the grammar part of other properties: the grammar of the tree against the reference grammar."""
import os, time
import common, peg
from grammar import Grammar, GrammarError, refs

HERE = os.path.dirname(os.path.abspath(__file__))

LEX = '''WHITESPACE COMMENT single_line_comment multi_line_comment double_quoted_value double_quoted_string
single_quoted_value single_quoted_string backquoted_quoted_value backquoted_quoted_string triple_quoted_value
triple_quoted_string var spaced_var ident string_value integer decimal number_value boolean_value hex_value value relation'''.split()
# properties a rule's behaviour is part of, besides C30 (lexical) and C31 (statements)
ALSO = {
    'C07': 'ident var double_quoted_value double_quoted_string decl_ident table_alias'.split(),
    'C08': '''value string_value triple_quoted_string triple_quoted_value single_quoted_string single_quoted_value
              backquoted_quoted_string backquoted_quoted_value number_value integer decimal boolean_value hex_value'''.split(),
    'C09': '''attribute block_settings rel_settings indexes_settings enum_settings col_settings col_attribute property
              spaced_var'''.split(),
    'C12': 'relation rel_settings ref_composition ref_ident ref_inline ref_stmt ref_short ref_block ref_decl'.split(),
    'C13': 'col_type_arg col_type_array col_type_unquoted col_type_quoted col_type'.split(),
    'C14': '''note_short note_block note_decl note_inline indexes_ident indexes_multi indexes_single indexes_block indexes_decl
              enum_value enum_block enum_decl table_col table_block table_decl table_group_block table_group_decl
              project_block project_decl'''.split(),
    'C05': ['schema'],
}


def props_of(rule):
    s = {'C30' if rule in LEX else 'C31'}
    if rule in ('ident', 'value', 'relation'): s |= {'C30', 'C31'}
    for p, rs in ALSO.items():
        if rule in rs: s.add(p)
    return s


def flat(e):
    k = e[0]
    if k in ('seq', 'alt'):
        out = []
        for x in e[1]:
            x = flat(x)
            if x[0] == k: out += x[1]
            else: out.append(x)
        return (k, out)
    if k in ('star', 'plus', 'opt', 'not', 'and'): return (k, flat(e[1]))
    if k == 'rep': return (k, flat(e[1]), e[2], e[3])
    return e


def reference():
    return Grammar.text(open(os.path.join(HERE, 'reference.pest')).read())


def contexts(g):
    """(rule, atomicity of the caller) pairs that occur while parsing a document"""
    seen = set()
    st = [('schema', 'N'), ('WHITESPACE', 'A'), ('COMMENT', 'A')]
    while st:
        n, c = st.pop()
        if (n, c) in seen or n not in g.rules: continue
        seen.add((n, c))
        r = g.rules[n]
        inner = {'normal': c, 'silent': c, 'atomic': 'A', 'compound': 'C', 'nonatomic': 'N'}[r.ty]
        st += [(m, inner) for m in refs(r.expr)]
    return seen


_res = None


def compare(tier):
    """list of (rule, where, text) of rules whose behaviour differs, plus counts"""
    global _res
    if _res is not None: return _res
    g = Grammar.load()
    r = reference()
    same, diff = [], []
    names = list(r.rules)
    changed = []
    for n in names:
        if n not in g.rules: continue
        a, b = g.rules[n], r.rules[n]
        if a.ty == b.ty and flat(a.expr) == flat(b.expr): same.append(n)
        else: changed.append(n)
    missing = [n for n in names if n not in g.rules]
    extra = [n for n in g.rules if n not in r.rules]
    exact = []
    verdict_equal = None
    if changed or missing or [n for n in extra if g.rules[n].ty != 'silent'] or tier == 'thorough':
        al = peg.Alphabet([g, r])
        mg = peg.Machine(g, al, erased=extra)
        mr = peg.Machine(r, al, erased=missing)

        reach = contexts(g) | contexts(r)

        def cmp(n, ctxs):
            for c in ctxs:
                if (n, c) not in reach: continue
                d = peg.difference(al, mg.rule(n, c), mr.rule(n, c))
                if d: return d
            return None
        todo = [n for n in names if n in g.rules and n != 'schema'] if tier == 'thorough' else changed
        rough = []
        budget = 240 if tier == 'thorough' else 150
        t0 = time.time()
        for n in todo:
            if n == 'schema': continue
            peg.DEADLINE[0] = t0 + budget
            try:
                d = cmp(n, 'NCA')
                exact.append(n)
            except peg.TooBig:
                d = None
                rough.append(n)
            if d: diff.append((n, d))
        peg.DEADLINE[0] = max(t0 + budget, time.time() + 60)
        try:
            top = cmp('schema', 'N')
            exact.append('schema')
        except peg.TooBig:
            top = 'big'
        if top is None:
            diff = []          # what differs inside never shows: the documents and their pairs are the same
        elif top == 'big':
            diff = [(n, d) for n, d in diff if n in changed]
            diff += [(n, None) for n in rough if n in changed]
            if 'schema' in changed and not diff: diff = [('schema', None)]
        else:
            diff = [(n, d) for n, d in diff if n in changed]
            if not diff: diff = [('schema', top)]
        out = []
        for n, d in diff:
            where = g.at(n) if n in g.rules else g.path
            if d is None:
                out.append((n, where, 'rule %s is written differently from the documented form and the two could not be shown equal' % n))
                continue
            w, actual = d
            text, cons, evs = peg.describe(al, w)
            what = 'rule %s %s text %r%s%s, the documented form does %s' % (
                n, 'matches' if actual else 'does not match',
                text[:cons] if cons is not None else text,
                ' before %r' % text[cons:] if cons is not None and text[cons:] else '',
                ' with pairs ' + ' '.join(e for e, p in evs) if evs else '', 'not' if actual else '')
            out.append((n, where, what.strip()))
        if top is not None and top != 'big':
            w, actual = top
            text, cons, evs = peg.describe(al, w)
            shown = 'shortest document on which the result changes: %r (%s now)' % (text, 'accepted with these pairs' if actual else 'refused or given other pairs')
            out = [(n, wh, x + '; ' + shown) for n, wh, x in out]
        diff = out
    _res = dict(g=g, r=r, same=same, changed=changed, missing=missing, extra=extra, diff=diff, exact=exact)
    return _res


def run(prop, rep, tier):
    """obligations of the rules anchored at prop"""
    try:
        c = compare(tier)
    except GrammarError as e:
        rep.bad('grammar', 'grammar-unreadable', 'the grammar cannot be analysed: %s' % e)
        return
    mine = [n for n in c['r'].rules if prop in props_of(n)]
    bad = {n: (w, t) for n, w, t in c['diff']}
    for n in mine:
        if n in bad:
            w, t = bad[n]
            rep.bad('grammar rule', 'rule:' + n, '%s: %s' % (w, t))
        elif n in c['exact']:
            rep.ok('grammar rule', '%s: same relation between text, consumed prefix and pairs as the reference (automata)' % n)
        else:
            rep.ok('grammar rule', '%s: same expression as the reference over rules shown equal' % n)
    if prop in ('C30', 'C31'):
        for n, (w, t) in bad.items():
            if n not in mine and n == 'schema':
                rep.bad('grammar rule', 'rule:' + n, '%s: %s' % (w, t))
    rep.notes.append('rules equal by expression: %d; compared by automata: %s; new rules: %s; missing: %s' % (
        len(c['same']), c['exact'], c['extra'], c['missing']))


def c30(rep, tier):
    run('C30', rep, tier)
    rep.floor('grammar rule', 20)


def c31(rep, tier):
    run('C31', rep, tier)
    rep.floor('grammar rule', 40)
