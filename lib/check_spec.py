"""the properties decided by comparing value graphs with the specification tree"""
import json, os, re
import attribution, common, check_grammar
import check_values as cv

_C = None


def comparison(tier):
    global _C
    if _C is None:
        _C = cv.Comparison(thorough=tier == 'thorough')
    return _C


def short(p):
    return re.sub(r'<|>|core::\w+::|alloc::\w+::|ast::|analyzer::|parser::|indexer::', '', p)


def owned(prop, unit):
    """may a difference in this function break the property"""
    last = unit.rsplit('::', 1)[-1]
    if prop == 'C01': return True
    if prop == 'C04': return unit.startswith('parser::')
    if prop == 'C06': return unit.startswith('parser::')
    if prop == 'C32': return unit.startswith(('analyzer::', '<analyzer::')) or unit == 'parse_dbml'
    if prop == 'C29': return unit in attribution._ALL
    if prop in attribution.KEEP:
        if unit in attribution.KEEP[prop]: return True
        if prop in attribution.HELPERS.get(unit, ()): return True
        return unit in (attribution.IT, attribution.IE, attribution.IG) and any(prop in s for s in attribution.INDEX.values())
    if unit.startswith('parser::'):
        return prop in attribution.PARSER.get(last, ()) or any(f == last and prop in s for (f, _), s in attribution.FIELDS.items())
    return prop in attribution.props(unit, ['Ok', '0'] if unit == attribution.AN else ['&mut0', 'schema_map'] if prop == 'C27' else [])


PANICS = ('unwrap', 'expect', 'panic', 'panic_fmt', 'index', 'index_mut', 'remove', 'insert', 'unreachable_display', 'panic_display', 'unwrap_failed', 'assert_failed', 'swap_remove')


def panic_sites(t):
    """constructs of the tree that panic under some condition"""
    import equiv
    for fid, f in sorted(t.fns.items()):
        if equiv.generated(f): continue
        for bl in f['body']['blocks']:
            if bl.get('cleanup'): continue
            k = bl['t']
            if k['k'] == 'assert': yield f['path'], bl['at'], k['msg'].split('(')[0].split(' ')[0]
            elif k['k'] == 'call' and isinstance(k.get('f'), dict) and (k['f'].get('name') or '') in PANICS and not (k['f'].get('res') or {}).get('local'):
                if k['f']['name'] in ('insert', 'remove') and not re.search(r'vec::Vec|string::String', k['f']['path']): continue
                yield f['path'], bl['at'], k['f']['name']


def run(prop, rep, tier):
    C = comparison(tier)
    bad, notes = C.verdict(prop)
    for k, x in bad:
        if k not in {y for y, _ in rep.violations}: rep.bad('function', k, x)
    units = sorted({u for u, c in C.base})
    mine = [u for u in units if owned(prop, u)]
    n = 0
    for (u, c), r in sorted(C.base.items()):
        if u not in mine or r['err']: continue
        for _ in range(1): rep.ok('function', '%s%s: same value graph as the specification (%d blocks, %d calls evaluated)' % (
            cv.where(u), ' for a pair of rule ' + c[0][1] if c else '', r['stats']['blocks'], r['stats']['calls']))
        n += 1
    errs = cv.Errors(cv.PAIR)
    if prop in attribution.KEEP:
        for u, ks in sorted(attribution.KEEP[prop].items()):
            for k in sorted(ks & errs.own.get(u, set())):
                rep.ok('error condition', '%s raised by %s under the specified condition' % (k, short(u)))
    if prop in ('C29', 'C32'):
        for u in attribution._ALL:
            for k in sorted(errs.own.get(u, ())): rep.ok('error condition', '%s raised by %s' % (k, short(u)))
    if prop == 'C01':
        for p, at, k in panic_sites(cv.PAIR.trees[0]):
            rep.ok('panic site', '%s %s: %s cannot fire beyond the accepted premises' % (at, p, k))
    if len(C.base) < 30: rep.floor('function', 30)
    if tier == 'thorough':
        rep.notes.append('compared again with every loop spelled out for short lists: %d comparisons equal or reported, %d not decided' % tuple(C.again))
    rep.notes += notes[:40]
    rep.notes.append('functions of this property: ' + ', '.join(short(u) for u in mine))
    if prop in check_grammar.ALSO: check_grammar.run(prop, rep, tier)
