"""C02 (termination, bounded recursion) and C03 (purity)."""
import re
import common, grammar, graph
from graph import short

GENERATED = re.compile(r'DBMLParser|::rules::|_::')


def generated(fid, f):
    return f['fromexp'] or f['derived'] or 'rules::' in fid


def c02(rep):
    d = common.dump()
    g = grammar.Grammar.load()
    rep.notes.append('grammar %s: %d rules' % (g.path, len(g.rules)))
    # -- the grammar
    cyc = g.cycle()
    if cyc:
        rep.bad('grammar rule cycle', 'gcycle:' + cyc[0], 'rule %s refers back to itself (%s): parsing depth follows the input' % (g.at(cyc[0]) + ' ' + cyc[0], ' -> '.join(cyc)))
    rep.ok('grammar rule without a way back to itself', n=len(g.rules) - (len(cyc) - 1 if cyc else 0))
    for n, e in g.repeats():
        if g.nullable(e):
            rep.bad('repetition of something that can be empty', 'grep:' + n, '%s repeats an expression that can succeed without consuming input' % g.at(n))
        else:
            rep.ok('grammar repetition that consumes input', '%s in rule %s' % (g.at(n), n))
    for n in ('WHITESPACE', 'COMMENT'):
        if n in g.rules:
            if g.nullable(('id', n)):
                rep.bad('implicit repetition', 'gskip:' + n, '%s can be empty, the implicit skipping would not end' % n)
            else:
                rep.ok('implicit repetition that consumes input', n)
    # -- the functions
    cg = graph.CG(d)
    c = cg.cycle()
    if c:
        at = sorted(cg.edges[c[-2]][c[-1]])[0] if len(c) > 1 else '?'
        rep.bad('recursion', 'cycle:' + short(c[0]), 'recursive call path: %s (closed at %s)' % (' -> '.join(c), at))
    else:
        rep.ok('function whose calls never lead back to it', n=len(cg.fns))
    # -- types (drop glue, derived code)
    col = {}

    def tdfs(t, path):
        col[t] = 1
        for m in sorted(cg.fieldtypes.get(t, ())):
            if m not in cg.fieldtypes: continue
            if col.get(m) == 1: return path + [t, m]
            if m not in col:
                r = tdfs(m, path + [t])
                if r: return r
        col[t] = 2
        return None
    for t in sorted(cg.fieldtypes):
        if t not in col:
            r = tdfs(t, [])
            if r:
                rep.bad('recursive type', 'type:' + short(r[-1]), 'type %s contains itself (%s): dropping, cloning or comparing it recurses' % (r[-1], ' > '.join(r)))
    rep.ok('type that does not contain itself', n=len(cg.fieldtypes))
    # -- loops
    nl = 0
    given = {}      # function -> the type arguments of each of its calls
    for f in d['fns'].values():
        for bl in (f['body'] or {}).get('blocks') or []:
            t = bl['t']
            if t['k'] == 'call' and 'path' in t['f']:
                callee = (t['f'].get('res') or {}).get('id') or t['f'].get('id')
                given.setdefault(callee, []).append(t['f'].get('targs') or [])
    for fid, f in sorted(d['fns'].items()):
        b = f['body']
        if not b or not b['blocks']: continue
        cfg = graph.Cfg(b)
        for v, w in cfg.irreducible:
            rep.bad('irreducible loop', 'loop:' + f['path'], '%s: unstructured loop' % f['path'])
        for h in sorted(cfg.loops):
            nl += 1
            at = b['blocks'][h]['at']
            why = graph.loop_progress(b, cfg, h, given.get(fid, []))
            if why is None or why.startswith('!'):
                rep.bad('loop without progress', 'loop:' + f['path'], '%s: loop in %s %s' % (at, f['path'], why[1:] if why else 'shows no progress towards an end'))
            else:
                rep.ok('loop', '%s %s: %s' % (at, f['path'], why))
    # -- iterators consumed by library code
    CONSUME = {'collect', 'fold', 'try_fold', 'for_each', 'try_for_each', 'count', 'last', 'sum', 'product', 'any', 'all', 'find', 'find_map', 'position',
               'max', 'min', 'max_by_key', 'min_by_key', 'partition', 'unzip', 'extend', 'from_iter', 'nth', 'reduce', 'eq', 'cmp', 'max_by', 'min_by', 'rposition', 'rfind', 'sum'}
    for fid, ss in cg.sites.items():
        f = d['fns'][fid]
        for at, path, fn, t in ss:
            if path == 'indirect' : continue
            if fn.get('name') in CONSUME and (fn.get('trait') or '').startswith('core::iter') or fn.get('name') == 'extend':
                for ty in fn.get('targs', []):
                    fin = graph.finite(ty) if ty.get('k') == 'adt' else None
                    if fin is False:
                        rep.bad('endless iterator', 'iter:' + f['path'], '%s: %s consumes an endless iterator (%s)' % (at, f['path'], ty['id']))
                    elif fin:
                        rep.ok('iterator consumption', '%s %s over %s' % (at, fn['name'], short(ty['id'])))
    rep.floor('grammar rule without a way back to itself', 50)
    rep.floor('loop', 10)
    rep.floor('function whose calls never lead back to it', 200) if not c else None


ALLOWED_CRATES = {'core', 'alloc', 'pest', 'dbml_rs', 'memchr', 'compiler_builtins', 'derive_more'}
# functions of the allowed crates whose result or effect is not determined by their arguments
FORBID = [
    (r'^pest::(parser_state::)?set_call_limit|^pest::set_call_limit', 'changes a process-wide setting of the parser engine'),
    (r'^pest::(parser_state::)?set_error_detail|^pest::set_error_detail', 'changes a process-wide setting of the parser engine'),
    (r'^core::sync::atomic|^alloc::sync::.*(get_mut_unchecked)', 'reads or writes shared atomic state'),
    (r'^core::ptr::.*(addr|expose|to_int)|::expose_provenance|::as_ptr_range', 'observes an address'),
    (r'new_pointer$', 'prints an address'),
    (r'^core::arch::|^core::intrinsics::volatile|read_volatile|write_volatile|_rdtsc', 'reads machine state'),
    (r'^core::panic::Location|caller_location', 'observes the call site'),
    (r'^core::any::type_name|type_id$', 'depends on compiler details'),
]


def c03(rep):
    for feats in ('utils', ''):
        d = common.dump(feats)
        tag = 'features [%s]' % feats
        if 'std' in d['direct']:
            rep.bad('standard library', 'std', 'the crate links the standard library itself (%s)' % tag)
        else:
            rep.ok('directly linked crate', '%s: %s' % (tag, ', '.join(d['direct'])), n=len(d['direct']))
        for x in d['direct']:
            if x not in ALLOWED_CRATES | {'pest_derive'}:
                rep.bad('extern crate', 'crate:' + x, 'the crate depends on %s' % x)
        for at in d['unsafe']:
            rep.bad('unsafe block', 'unsafe', 'unsafe code at %s' % at)
        for s in d['statics']:
            if s['mut'] or not s['freeze']:
                rep.bad('mutable static', 'static:' + short(s['id']), 'static %s at %s is mutable global state (%s)' % (s['id'], s['at'], s['ty']))
            else:
                rep.ok('immutable static', s['id'])
        for fid, f in d['fns'].items():
            bodies = [f['body']] + list(f.get('promoted') or [])
            for b in bodies:
                if not b: continue
                for bl in b['blocks']:
                    for s in bl['s']:
                        if s['k'] != 'assign': continue
                        rv = s['rv']
                        if rv['k'] == 'tls':
                            rep.bad('thread local', 'tls:' + f['path'], '%s: %s uses a thread local' % (s['at'], f['path']))
                        if rv['k'] == 'cast' and ('PointerExpose' in rv['kind'] or (rv['kind'] == 'Transmute' and rv['from'].get('k') in ('ptr', 'ref') and rv['ty'].get('k') == 'prim')):
                            rep.bad('address as a number', 'addr:' + f['path'], '%s: %s turns an address into a number' % (s['at'], f['path']))
                    t = bl['t']
                    if t['k'] == 'other' and 'InlineAsm' in t['s']:
                        rep.bad('inline assembly', 'asm:' + f['path'], '%s uses inline assembly' % f['path'])
                    if t['k'] != 'call': continue
                    fn = t['f']
                    if 'indirect' in fn:
                        rep.ok('indirect call')
                        continue
                    cands = [fn['path']] + ([fn['res']['path']] if 'res' in fn else [])
                    crates = {fn['id'].split('::')[0]} | ({fn['res']['crate']} if 'res' in fn else set())
                    bad = None
                    for c in crates:
                        if c not in ALLOWED_CRATES:
                            bad = 'calls %s of crate %s, outside core, alloc and the parser engine' % (fn['path'], c)
                    for p in cands:
                        for rx, why in FORBID:
                            if re.search(rx, p): bad = 'calls %s: %s' % (p, why)
                    ts = set()
                    for a in fn.get('targs', []): graph.types_in(a, ts)
                    for x in ts:
                        if re.search(r'HashMap|HashSet|RandomState|hashbrown', x):
                            bad = 'uses the randomly ordered container %s' % x
                        if re.search(r'core::sync::atomic|core::cell::(OnceCell|LazyCell)', x) and not generated(fid, f):
                            bad = None or bad
                    if bad:
                        rep.bad('impure call', 'call:%s:%s' % (f['path'], fn['path']), '%s: %s %s' % (bl['at'], f['path'], bad))
                    else:
                        rep.ok('call into core, alloc, pest or the crate')
    rep.floor('call into core, alloc, pest or the crate', 2500)
