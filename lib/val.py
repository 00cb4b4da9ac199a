"""Symbolic values on top of dd: every value is either a Node (scalar: decision diagram over terms, or a boolean)
or a hash-consed Term:
  D  (adt, ((variant, guard, ((field, value), ..)), ..))      algebraic data, alternatives with exclusive guards
  Q  (seg, ..)            sequence;  M (seg, ..)  set/map as a log of writes
     one(guard, value) | comp(bv, dom, (seg, ..)) | lseg(lv)
  S  (base, tykey)        opaque input of a type, expanded on demand
  P  ((guard, root, path), ..)    mutable reference
  IT (Q, (stage, ..))     iterator;  C (kind, id, ((name, value), ..))  closure / function item
  MUX ((guard, value), ..)  deferred merge with a loop placeholder;  OP (term)  anything unknown
"""
import json
from dd import *
import dd

INST = 0                # k > 0: containers of the input have at most k elements, held in separate slots
TREE = None            # the tree being interpreted (types of its own structs)
TY = {}


def tykey(ty):
    k = json.dumps(ty, sort_keys=True)
    TY[k] = ty
    return k


def last(p): return p.split('::')[-1]


def tname(ty):
    return last(ty['id']) if ty and ty.get('k') == 'adt' else (ty or {}).get('k')


# ------------------------------------------------------------------ constructors
def D(adt, alts):
    out = []
    for v, g, fs in sorted(alts, key=lambda a: a[0]):
        if g is FALSE: continue
        out.append((v, g, tuple(sorted(fs.items() if isinstance(fs, dict) else fs))))
    return T('D', adt, tuple(out))


def struct(adt, **fs): return D(adt, [(adt, TRUE, fs)])
def tup(*xs): return D('tuple', [('tuple', TRUE, {str(i): x for i, x in enumerate(xs)})])
def variant(adt, v, *xs): return D(adt, [(v, TRUE, {str(i): x for i, x in enumerate(xs)})])
def some(x): return variant('Option', 'Some', x)


NONE = variant('Option', 'None')


def opt(g, x):
    if g is FALSE: return NONE
    if g is TRUE: return some(x)
    return D('Option', [('None', Not(g), {}), ('Some', g, {'0': x})])


def ok(x): return variant('Result', 'Ok', x)
def err(x): return variant('Result', 'Err', x)


UNITV = leaf(UNIT)


def sc(t): return leaf(t)
def string(s): return leaf(S(s))
def num(n): return leaf(I(n))


def is_node(v): return v.__class__ is Node
def is_bool(v):
    return v.__class__ is Node and boolean(v)


_isb = {}


def boolean(n):
    r = _isb.get(n.id)
    if r is None:
        r = n.val.__class__ is bool if n.var is None else any(boolean(k) for k in n.kids)
        _isb[n.id] = r
    return r


# ------------------------------------------------------------------ finite texts (set by the pest model)
def text_domain(t): return None
def text_minlen(t): return 0


# ------------------------------------------------------------------ literals
INTLIKE = {'count', 'add', 'sub', 'max', 'min', 'charlen', 'strlen', 'i', 'bv', 'first', 'last', 'int', 'start', 'end', 'mul'}


def tge(t, n):
    """integer term >= n"""
    if t.op == 'int': return TRUE if t.args[0] >= n else FALSE
    if t.op == 'count':
        if n <= 0: return TRUE
        if n == 1 and t.args[1].op == 'dom+' and t.args[2] is TRUE: return TRUE
        return ivar_ge(t, n, 0)
    if t.op == 'addc': return tge(t.args[0], n - t.args[1])
    if t.op == 'abs': return TRUE if n <= 0 else Or(tge(t.args[0], n), Not(tge(t.args[0], 1 - n)))
    if t.op == 'neg': return Not(tge(t.args[0], 1 - n))
    if t.op == 'signum': return TRUE if n <= -1 else FALSE if n >= 2 else tge(t.args[0], n)
    if t.op == 'div' and t.args[1].op == 'int' and t.args[1].args[0] > 0:
        k = t.args[1].args[0]
        return tge(t.args[0], n * k) if n > 0 else tge(t.args[0], (n - 1) * k + 1)
    if t.op == 'add':
        a, b = t.args
        if n <= 0: return TRUE
        if n > 12: return ivar_ge(t, n)
        return Or(*[And(tge(a, k), tge(b, n - k)) for k in range(0, n + 1)])
    if t.op == 'max': return Or(tge(t.args[0], n), tge(t.args[1], n))
    if t.op == 'min': return And(tge(t.args[0], n), tge(t.args[1], n))
    if t.op in ('charlen', 'strlen'):
        if n <= 0: return TRUE
        if n <= 1: return Not(teq(t.args[0], S('')))
        if n <= text_minlen(t.args[0]): return TRUE
        return ivar_ge(t, n, 1)
    if t.op in ('i', 'bv', 'first', 'last', 'start', 'end'): return ivar_ge(t, n, 0)
    return ivar_ge(t, n)


def teq(a, b):
    """two scalar terms are equal"""
    if a is b: return TRUE
    if a.op == 'bot' or b.op == 'bot': return FALSE
    if is_const(a) and is_const(b): return FALSE
    if a.op == b.op == 'setlen':
        # equal sets are of one size, a proper part is smaller
        p, q = within(a.args[0], b.args[0]), within(b.args[0], a.args[0])
        if p is not None and q is not None:
            if a.id > b.id: a, b = b, a
            return Or(And(p, q), And(Not(p), Not(q), bvar(T('eq', a, b))))
    if is_const(a): a, b = b, a
    if b.op == 'int':
        n = b.args[0]
        return And(tge(a, n), Not(tge(a, n + 1)))
    if is_const(b):
        d = text_domain(a)
        if d is not None:
            return evar(a, d, b.args[0]) if b.op == 'str' else FALSE
        if b.op == 'str':
            if len(b.args[0].encode()) < text_minlen(a): return FALSE
            if a.op == 'cat': return cat_eq(a, b)
        return ovar(a, b)
    if a.op == 'cat' and b.op == 'cat' and len(a.args) == len(b.args):
        pass
    if a.id > b.id: a, b = b, a
    return bvar(T('eq', a, b))


def cat_eq(a, b):
    s = b.args[0]
    ps = list(a.args)
    if ps and ps[0].op == 'str':
        if not s.startswith(ps[0].args[0]): return FALSE
    if ps and ps[-1].op == 'str' and len(ps) > 1:
        if not s.endswith(ps[-1].args[0]): return FALSE
    return ovar(a, b)


def tlt(a, b):
    if a is b: return FALSE
    if a.op == 'int' and b.op == 'int': return TRUE if a.args[0] < b.args[0] else FALSE
    if b.op == 'int': return Not(tge(a, b.args[0]))
    if a.op == 'int': return tge(b, a.args[0] + 1)
    return bvar(T('lt', a, b))


def blit(t):
    """boolean term as a node (after its arguments changed)"""
    if t.op == 'eq' and all(isinstance(x, Term) for x in t.args) and len(t.args) == 2:
        a, b = t.args
        if a.op in VOPS or b.op in VOPS: return veq(a, b)
        return teq(a, b)
    if t.op == 'lt': return tlt(*t.args)
    return bvar(t)


def elit(t, dom, d):
    if dom == (False, True):
        x = blit(t)
        return x if d else Not(x)
    if t.op == 'str': return TRUE if t.args[0] == d else FALSE
    return evar(t, dom, d)


VOPS = {'D', 'Q', 'M', 'S', 'P', 'IT', 'C', 'MUX', 'OP'}


def cat(*ts):
    out = []
    for t in ts:
        for x in (t.args if t.op == 'cat' else (t,)):
            if x.op == 'str' and x.args[0] == '': continue
            if out and out[-1].op == 'str' and x.op == 'str': out[-1] = S(out[-1].args[0] + x.args[0])
            else: out.append(x)
    if not out: return S('')
    if len(out) == 1: return out[0]
    return T('cat', *out)


# ------------------------------------------------------------------ substitution / binding
BIND = {'count', 'first', 'last', 'comp', 'fold', 'sum'}
_sub = {}
_fresh = [0]


def fresh(tag='i'):
    _fresh[0] += 1
    return T(tag, '%s%d' % ('#', _fresh[0]))


ATOMIC = {'i', 'lv'}


def relevant(x, m):
    for a in m:
        if a.op == 'bv':
            if x.h >= a.args[0]: return True
        elif a in x.bs if a.op in ATOMIC else a.bs <= x.bs and a.h <= x.h: return True
    return False


def subst(x, m):
    if x.__class__ is tuple: return tuple(subst(y, m) for y in x)
    if x.__class__ is not Term and x.__class__ is not Node: return x
    if not relevant(x, m): return x
    mk = tuple(sorted(((a.id, b.id, b.__class__ is Node) for a, b in m.items())))
    k = (x.__class__ is Node, x.id, mk)
    r = _sub.get(k)
    if r is None:
        r = _subst(x, m)
        _sub[k] = r
    return r


def _subst(x, m):
    if x.__class__ is Node:
        if x.var is None:
            v = subst(x.val, m)
            return v if v.__class__ is Node else leaf(v)
        v = x.var
        nt = subst(v.term, m)
        kids = [subst(k, m) for k in x.kids]
        if nt is v.term: return recompose(v, x.keys, kids)
        return relit(v, nt, x.keys, kids)
    if x in m: return m[x]
    if x.op in BIND:
        bv, dom = x.args[0], subst(x.args[1], m)
        if any(relevant(b, m) for b in x.args[2:] if isinstance(b, (Term, Node))) or any(isinstance(b, tuple) for b in x.args[2:]):
            j = fresh()
            body = [subst(subst(b, {bv: j}), m) for b in x.args[2:]]
            return bind(x.op, dom, j, *body)
        return bind0(x.op, bv, dom, *x.args[2:])
    return rebuild(x.op, [subst(a, m) for a in x.args])


def rebuild(op, args):
    if op == 'cat': return cat(*args)
    if op == 'Q': return Q(args)
    if op == 'M': return M(args)
    if op == 'one' and args[0] is FALSE: return T('one', FALSE, UNITV)
    if op == 'D': return D(args[0], args[1])
    if op in ('max', 'min') and args[0] is args[1]: return args[0]
    if op == 'f': return args[0] if False else T('f', *args)
    return T(op, *args)


def relit(v, nt, keys, kids):
    if v.kind == 'enum':
        r = kids[-1]
        for d, k in list(zip(v.dom, kids))[:-1]:
            r = ite(elit(nt, v.dom, d), k, r)
        return r
    if v.kind == 'open':
        r = kids[-1]
        for c, k in zip(keys, kids): r = ite(teq(nt, c), k, r)
        return r
    r = kids[0]
    for n, k in zip(keys, kids[1:]): r = ite(tge(nt, n), k, r)
    return r


def maxh(*xs): return max([height(x) for x in xs], default=0)


def bind(op, dom, j, *body):
    bv = T('bv', 1 + maxh(*body))
    return bind0(op, bv, dom, *[subst(b, {j: bv}) for b in body])


def bind0(op, bv, dom, *body):
    if op == 'count' and body[0] is TRUE and dom.op == 'prefix': return dom.args[1]
    return T(op, bv, dom, *body)


def unbind(t, j):
    """bodies of a binding term with the bound variable replaced by j"""
    return [subst(b, {t.args[0]: j}) for b in t.args[2:]]


def nonempty(dom):
    if dom.op == 'dom+': return TRUE
    if dom.op == 'prefix': return tge(dom.args[1], 1)
    return tge(bind('count', dom, fresh(), TRUE), 1)


_ex = {}


def count_ge(dom, i, g, n):
    """at least n indices i of dom satisfy g"""
    if n <= 0: return TRUE
    if g is FALSE: return FALSE
    if dom.op == 'dom+' and n == 1 and g is TRUE: return TRUE
    if dom.op == 'sorted' and n == 1:
        r = some_key(dom, i, g)
        if r is not None: return r
    for v in sorted(g.sup, key=lambda v: v.id):
        if i not in v.bs:
            keys, kids = expand(g, v)
            return recompose(v, keys, [count_ge(dom, i, k, n) for k in kids])
    b = beyond(dom, i, g)
    if b is not None: return count_ge(dom, i, b[0], n + b[1])
    t = bind('count', dom, i, g)
    return tge(t, n)


def beyond(dom, i, g):
    """(p, r) if g holds for all the indices that satisfy p but the first r of them"""
    if len(g.sup) == 1:
        for r in (1, 2, 3):
            if g is tge(i, r): return TRUE, r
    for v in g.sup:
        t = v.term
        if t.op != 'eq' or i not in t.args: continue
        f = t.args[0] if t.args[1] is i else t.args[1]
        r = 0
        if f.op == 'kth': f, r = f.args
        if f.op != 'first' or f.args[1] is not dom: continue
        (p,) = unbind(f, i)
        q = And(p, *[Not(teq(i, f if k == 0 else T('kth', f, k))) for k in range(r + 1)])
        if q is g: return p, r + 1


def some_key(dom, i, g):
    """some element of a set meets g: looked for where the elements of the set come from"""
    at = T('at', dom, i)

    def among(segs):
        r = FALSE
        for s in segs:
            if s.op == 'one' and s.args[1].op == 'ent' and s.args[1].args[0] == 'ins' and s.args[1].args[2] is UNITV:
                k = s.args[1].args[1]
                if k.__class__ is not Node: return None
                x = And(s.args[0], replaced(g, at, k))
                if i in x.bs: return None
            elif s.op == 'comp':
                j = fresh()
                (body,) = unbind(s, j)
                x = among(body)
                if x is None: return None
                x = exists(s.args[1], j, x)
            else: return None
            r = Or(r, x)
        return r
    return among(dom.args[0].args) if dom.args[0].op == 'M' else None


def replaced(x, t, v):
    """the condition x with the term t replaced by the scalar v everywhere"""
    if v.var is not None: return recompose(v.var, v.keys, [replaced(x, t, k) for k in v.kids])
    return subst(x, {t: v.val})


def exists(dom, i, g): return count_ge(dom, i, g, 1)


# ------------------------------------------------------------------ sequences
def one(g, v): return T('one', g, v)


def segs_of(xs): return [x for x in xs]


def norm_segs(segs):
    out = []
    for s in segs:
        if s.op == 'one':
            if s.args[0] is FALSE: continue
            if out and out[-1].op == 'one' and out[-1].args[0] is not TRUE and s.args[0] is not TRUE \
                    and And(out[-1].args[0], s.args[0]) is FALSE:
                g1, v1 = out[-1].args
                g2, v2 = s.args
                g = Or(g1, g2)
                v = mux(restrict(g1, g), v1, v2)
                if v.__class__ is Node or v.op != 'MUX':
                    out[-1] = one(g, v)
                    continue
        elif s.op == 'comp':
            if not s.args[2]: continue
        out.append(s)
    return tuple(out)


def Q(segs): return T('Q', *norm_segs(segs))
def M(segs): return T('M', *norm_segs(segs))


EMPTYQ, EMPTYM = T('Q'), T('M')


def comp(dom, i, segs):
    segs = norm_segs(segs)
    if not segs: return None
    bv = T('bv', 1 + maxh(*segs))
    return T('comp', bv, dom, tuple(subst(s, {i: bv}) for s in segs))


def comps(dom, i, segs):
    c = comp(dom, i, segs)
    return [c] if c is not None else []


def guard_seg(s, g):
    """the segment, present only when g"""
    if g is TRUE: return [s]
    if s.op == 'one':
        gg = And(s.args[0], g)
        return [] if gg is FALSE else [one(gg, s.args[1])]
    if s.op == 'comp':
        j = fresh()
        (body,) = unbind(s, j)
        return comps(s.args[1], j, [y for x in body for y in guard_seg(x, g)])
    if s.op == 'mseg':
        return [T('mseg', s.args[0], s.args[1], And(g, s.args[2]) if len(s.args) > 2 else g)]
    if s.op == 'lseg':
        return [T('lseg', s.args[0], And(g, s.args[1]) if len(s.args) > 1 else g)]
    raise ValueError(s.op)


def guard_segs(segs, g): return [y for s in segs for y in guard_seg(s, g)]


# ------------------------------------------------------------------ forcing symbolic inputs
_force = {}
_unforce = {}
MAPS = {'BTreeMap', 'BTreeSet', 'HashMap', 'HashSet', 'IndexMap', 'IndexSet'}


def mseg_types(s):
    """(key type, value type or None) of an opaque map segment"""
    ty = TY[s.args[1]]
    return ty['args'][0], (ty['args'][1] if 'Map' in tname(ty) else None)


CORE_ENUM = {'Option': [('None', []), ('Some', ['0'])], 'Result': [('Ok', ['0']), ('Err', ['0'])]}


def mk_sym(base, ty):
    k = ty.get('k') if ty else None
    if k in ('ref', 'ptr'): return mk_sym(base, ty['args'][0])
    if k == 'prim':
        if ty['s'] == 'bool': return bvar(base)
        return leaf(base)
    if k == 'adt':
        n = tname(ty)
        if n in ('String',): return leaf(base)
        if n in ('Box', 'Rc', 'Arc'): return mk_sym(base, ty['args'][0])
        return T('S', base, tykey(ty))
    if k in ('tuple', 'slice', 'array'): return T('S', base, tykey(ty))
    return T('S', base, tykey(ty or {'k': 'opaque'}))


def force(v):
    if v.__class__ is Node: return v
    if v.op == 'MUX':
        r = None
        for g, x in v.args[0]:
            x = force(x)
            r = x if r is None else mux(g, x, r)
        return r
    if v.op != 'S': return v
    k = (id(TREE), v.id, INST)
    r = _force.get(k)
    if r is None:
        r = _force[k] = _forced(v)
        if r is not v: _unforce.setdefault((r.__class__ is Node, r.id), v)
    return r


def _forced(v):
    base, ty = v.args[0], TY[v.args[1]]
    k = ty.get('k')
    if k == 'tuple':
        if not ty.get('args'): return UNITV
        return D('tuple', [('tuple', TRUE, {str(i): mk_sym(T('f', base, str(i)), t) for i, t in enumerate(ty['args'])})])
    if k in ('slice', 'array'): return seq_sym(base, ty['args'][0])
    if k != 'adt': return v
    n = tname(ty)
    if n in ('Vec', 'VecDeque', 'Box<[]>', 'SmallVec'): return seq_sym(base, ty['args'][0])
    if n in MAPS: return T('M', T('mseg', base, v.args[1]))
    if n == 'Span':
        return struct('Span', start=leaf(T('f', base, 'start')), end=leaf(T('f', base, 'end')), of=leaf(T('f', base, 'of')))
    if n == 'Range':
        return struct('Range', start=leaf(T('f', base, 'start')), end=leaf(T('f', base, 'end')))
    if n in CORE_ENUM:
        dom = tuple(x for x, _ in CORE_ENUM[n])
        args = ty['args']
        fty = {('Option', 'Some'): 0, ('Result', 'Ok'): 0, ('Result', 'Err'): 1}
        alts = []
        for vn, fs in CORE_ENUM[n]:
            alts.append((vn, evar(T('variant', base), dom, vn),
                         {f: mk_sym(T('f', base, vn + '.' + f), args[fty[(n, vn)]]) for f in fs}))
        return D(n, alts)
    a = TREE.adt(n)
    if a is None: return v
    if not a['enum']:
        return D(n, [(n, TRUE, {f: mk_sym(T('f', base, f), t) for f, t in a['variants'][0]['fields']})])
    dom = tuple(x['name'] for x in a['variants'])
    ks = kinds()
    if ks and base.op == 'at' and base.args[1].op == 'int' and depth(base) == 1 and base.args[1].args[0] < len(ks) and set(ks) <= set(dom):
        # an element of the outermost list, of the kind asked for
        return D(n, [(x['name'], TRUE, {f: mk_sym(T('f', base, x['name'] + '.' + f), t) for f, t in x['fields']}) for x in a['variants'] if x['name'] == ks[base.args[1].args[0]]])
    return D(n, [(x['name'], evar(T('variant', base), dom, x['name']),
                  {f: mk_sym(T('f', base, x['name'] + '.' + f), t) for f, t in x['fields']}) for x in a['variants']])


_depth = {}


def depth(t):
    """how many lists a place lies in"""
    r = _depth.get(t.id)
    if r is None:
        r = _depth[t.id] = (t.op == 'at') + max([depth(x) for x in t.args if x.__class__ is Term], default=0)
    return r


def slots(base, fn, least=0):
    """segments of at most INST elements (or one number per depth of nesting) instead of an unbounded repetition"""
    most = max(INST if INST.__class__ is int else INST[min(depth(base), len(INST) - 1 - bool(kinds()))], least)
    dom = tuple(str(n) for n in range(least, most + 1))
    t = T('ilen', base)
    out = []
    g = TRUE
    for n in range(most):
        if n >= least: g = And(g, Not(evar(t, dom, str(n))))
        out += guard_segs(fn(I(n)), g)
    return out


def kinds():
    """the kinds of the elements of the outermost list, when fixed"""
    return INST[-1] if INST.__class__ is tuple and INST[-1].__class__ is tuple else ()


def seq_sym(base, ety):
    ks = kinds()
    if ks and depth(base) == 0 and ety.get('k') == 'adt' and TREE.adt(tname(ety)) and set(ks) <= {x['name'] for x in TREE.adt(tname(ety))['variants']}:
        return Q([one(TRUE, mk_sym(T('at', base, I(i)), ety)) for i in range(len(ks))])
    if INST: return Q(slots(base, lambda i: [one(TRUE, mk_sym(T('at', base, i), ety))]))
    bv = T('bv', 1)
    return T('Q', T('comp', bv, base, (one(TRUE, mk_sym(T('at', base, bv), ety)),)))


_coll = {}


def collapse(v):
    """the value with expanded symbolic inputs folded back, so that it does not matter what was looked at"""
    if v.__class__ is Node: return v
    r = _coll.get(v.id)
    if r is None:
        r = v
        if v.op == 'MUX': v = r = force(v)
        if v.__class__ is Term:
            if v.op == 'D':
                r = D(v.args[0], [(n, g, [(f, collapse(x)) for f, x in fs]) for n, g, fs in v.args[1]])
            elif v.op in ('Q', 'M'):
                r = T(v.op, *[coll_seg(s) for s in v.args])
            r = _unforce.get((False, r.id), r)
        _coll[v.id] = r
    return r


def coll_seg(s):
    if s.op == 'one':
        x = s.args[1]
        if x.__class__ is Term and x.op == 'ent':
            return one(s.args[0], T('ent', *[collapse(y) if y.__class__ in (Term, Node) else y for y in x.args]))
        return one(s.args[0], collapse(x))
    if s.op == 'comp': return T('comp', s.args[0], s.args[1], tuple(coll_seg(x) for x in s.args[2]))
    return s


# ------------------------------------------------------------------ merging
_mux = {}


def has_lv(v):
    return any(a.op == 'lv' for a in v.bs)


def deferred(v):
    """a loop placeholder that must not be expanded when it is merged"""
    if v.__class__ is Node: return False
    if v.op == 'MUX': return True
    if v.op in ('S', 'OP'): return v.args[0].op == 'lv'
    return False


def mux(g, a, b):
    """a when g, else b"""
    if a is b or g is TRUE: return a
    if g is FALSE: return b
    if a is None: return b
    if b is None: return a
    k = (g.id, a.__class__ is Node, a.id, b.__class__ is Node, b.id)
    r = _mux.get(k)
    if r is None:
        r = _mux[k] = _muxed(g, a, b)
    return r


def muxlist(g, a, b):
    out = []
    for c, v in ((g, a), (Not(g), b)):
        if v.__class__ is not Node and v.op == 'MUX':
            for h, x in v.args[0]: out.append((And(c, h), x))
        else: out.append((c, v))
    acc = []
    for c, v in out:
        if c is FALSE: continue
        for i, (c2, v2) in enumerate(acc):
            if v2 is v:
                acc[i] = (Or(c, c2), v)
                break
        else: acc.append((c, v))
    if len(acc) == 1: return acc[0][1]
    return T('MUX', tuple(sorted(acc, key=lambda x: (x[1].__class__ is Node, x[1].id))))


def _muxed(g, a, b):
    if a.__class__ is Node and b.__class__ is Node: return ite(g, a, b)
    if deferred(a) or deferred(b): return muxlist(g, a, b)
    fa, fb = force(a), force(b)
    if fa.__class__ is Node or fb.__class__ is Node:
        if fa.__class__ is Node and fb.__class__ is Node: return ite(g, fa, fb)
        if fa.__class__ is Node and fa.val is UNIT: return fb
        if fb.__class__ is Node and fb.val is UNIT: return fa
        return muxlist(g, a, b)
    if fa.op == 'D' and fb.op == 'D' and fa.args[0] == fb.args[0]:
        A = {v: (h, dict(fs)) for v, h, fs in fa.args[1]}
        B = {v: (h, dict(fs)) for v, h, fs in fb.args[1]}
        alts = []
        for v in set(A) | set(B):
            ga, xa = A.get(v, (FALSE, {}))
            gb, xb = B.get(v, (FALSE, {}))
            gg = ite(g, ga, gb)
            if gg is FALSE: continue
            fs = {}
            for n in set(xa) | set(xb):
                if n in xa and n in xb:
                    # which side, given that this variant is present
                    fs[n] = mux(restrict(And(g, ga), gg), xa[n], xb[n])
                else: fs[n] = xa.get(n, xb.get(n))
            alts.append((v, gg, fs))
        return D(fa.args[0], alts)
    if fa.op == fb.op and fa.op in ('Q', 'M'):
        A, B = list(fa.args), list(fb.args)
        n = 0
        while n < len(A) and n < len(B) and A[n] is B[n]: n += 1
        if n == 0 and (any(s.op in ('lseg', 'mseg') for s in A) or any(s.op in ('lseg', 'mseg') for s in B)):
            return muxlist(g, a, b)
        ra, rb = A[n:], B[n:]
        # the same segment under different guards
        rest = []
        while ra and rb and ra[0].op == 'one' and rb[0].op == 'one' and ra[0].args[1] is rb[0].args[1]:
            rest.append(one(ite(g, ra[0].args[0], rb[0].args[0]), ra[0].args[1]))
            ra, rb = ra[1:], rb[1:]
        rest += guard_segs(ra, g) + guard_segs(rb, Not(g))
        return (Q if fa.op == 'Q' else M)(A[:n] + rest)
    if fa.op == 'P' and fb.op == 'P':
        alts = [(And(g, h), r, p) for h, r, p in fa.args[0]] + [(And(Not(g), h), r, p) for h, r, p in fb.args[0]]
        acc = []
        for h, r, p in alts:
            for i, (h2, r2, p2) in enumerate(acc):
                if r2 == r and p2 == p:
                    acc[i] = (Or(h, h2), r, p)
                    break
            else: acc.append((h, r, p))
        return T('P', tuple(acc))
    if fa.op == 'C' and fb.op == 'C' and fa.args[:2] == fb.args[:2]:
        return T('C', fa.args[0], fa.args[1], tuple((n, mux(g, x, y)) for (n, x), (m, y) in zip(fa.args[2], fb.args[2])))
    if fa.op == 'IT' and fb.op == 'IT' and fa.args[1] == fb.args[1]:
        return T('IT', mux(g, fa.args[0], fb.args[0]), fa.args[1])
    return muxlist(g, a, b)


# ------------------------------------------------------------------ restricting to a care set
_vr = {}


def vrestrict(v, care):
    if care is TRUE or v is None: return v
    if v.__class__ is Node: return restrict(v, care) if v.var is not None else v
    k = (v.id, care.id)
    r = _vr.get(k)
    if r is None:
        r = _vr[k] = _vrestrict(v, care)
    return r


def _vrestrict(v, c):
    op = v.op
    if op == 'D':
        alts = []
        for n, g, fs in v.args[1]:
            gc = And(g, c)
            if gc is FALSE: continue
            alts.append((n, restrict(g, c), tuple((f, vrestrict(x, gc)) for f, x in fs)))
        return D(v.args[0], alts)
    if op in ('Q', 'M'):
        return (Q if op == 'Q' else M)(restrict_segs(v.args, c))
    if op == 'P':
        return T('P', tuple((restrict(g, c), r, p) for g, r, p in v.args[0] if And(g, c) is not FALSE))
    if op == 'C':
        return T('C', v.args[0], v.args[1], tuple((n, vrestrict(x, c)) for n, x in v.args[2]))
    if op == 'IT':
        return T('IT', vrestrict(v.args[0], c), tuple(tuple(vrestrict(y, c) if isinstance(y, (Term, Node)) else y for y in s) for s in v.args[1]))
    if op == 'MUX':
        acc = [(restrict(g, c), vrestrict(x, And(g, c))) for g, x in v.args[0] if And(g, c) is not FALSE]
        if len(acc) == 1: return acc[0][1]
        return T('MUX', tuple(acc))
    return v


def restrict_segs(segs, c):
    out = []
    for s in segs:
        if s.op == 'one':
            gc = And(s.args[0], c)
            if gc is FALSE: continue
            out.append(one(restrict(s.args[0], c), vrestrict(s.args[1], gc)))
        elif s.op == 'comp':
            j = fresh()
            (body,) = unbind(s, j)
            out += comps(s.args[1], j, restrict_segs(body, c))
        elif s.op == 'mseg' and len(s.args) > 2:
            g = restrict(s.args[2], c)
            out.append(T('mseg', s.args[0], s.args[1], g) if g is not TRUE else T('mseg', s.args[0], s.args[1]))
        elif s.op == 'lseg' and len(s.args) > 1:
            out.append(T('lseg', s.args[0], restrict(s.args[1], c)) if restrict(s.args[1], c) is not TRUE else T('lseg', s.args[0]))
        else: out.append(s)
    return out


# ------------------------------------------------------------------ equality
_veq = {}


def veq(a, b):
    if a is b: return TRUE
    k = (a.__class__ is Node, a.id, b.__class__ is Node, b.id)
    r = _veq.get(k)
    if r is None:
        r = _veq[k] = _veqd(a, b)
    return r


def _nodeq(x, y):
    if x.__class__ is bool or y.__class__ is bool: return TRUE if x is y else FALSE
    return teq(x, y)


def vterm(v):
    """value as a term usable as an argument of an uninterpreted function"""
    if v.__class__ is Node:
        if v.var is None and v.val.__class__ is Term: return v.val
        return T('mdd', v)
    return v


def _veqd(a, b):
    if a.__class__ is Term and (a.op == 'MUX' or a.op == 'S'): a = force(a)
    if b.__class__ is Term and (b.op == 'MUX' or b.op == 'S'): b = force(b)
    if a is b: return TRUE
    if a.__class__ is Node and b.__class__ is Node:
        if boolean(a) and boolean(b): return Not(Xor(a, b))
        return apply2('eq', a, b, _nodeq)
    if a.__class__ is Term and b.__class__ is Term:
        if a.op == 'D' and b.op == 'D' and a.args[0] == b.args[0]:
            B = {v: (h, dict(fs)) for v, h, fs in b.args[1]}
            r = FALSE
            for v, g, fs in a.args[1]:
                if v not in B: continue
                h, xs = B[v]
                e = And(g, h)
                for f, x in fs:
                    if e is FALSE: break
                    e = And(e, veq(x, xs[f]))
                r = Or(r, e)
            return r
        if a.op == 'Q' and b.op == 'Q':
            if all(s.op == 'one' and s.args[0] is TRUE for s in a.args + b.args):
                if len(a.args) != len(b.args): return FALSE
                return And(*[veq(x.args[1], y.args[1]) for x, y in zip(a.args, b.args)])
            if not a.args: return Not(seq_ge(b.args, 1))
            if not b.args: return Not(seq_ge(a.args, 1))
        if a.op == 'M' and b.op == 'M':
            if not a.args: return Not(seq_ge(b.args, 1))
            if not b.args: return Not(seq_ge(a.args, 1))
            if len(a.args) == 1 and len(b.args) == 1 and all(s.op == 'one' and s.args[0] is TRUE for s in a.args + b.args):
                return And(*[veq(x, y) for x, y in zip(ent(a.args[0].args[1]), ent(b.args[0].args[1]))])
            x, y = within(a, b), within(b, a)
            if x is not None and y is not None: return And(x, y)
    x, y = vterm(a), vterm(b)
    if (x.__class__ is Node, x.id) > (y.__class__ is Node, y.id): x, y = y, x
    return bvar(T('eq', x, y))


def ent(e): return e.args


LOOKUP = None       # (segments of a map, key) -> (present, value)


def within(a, b):
    """every element of a set is one of another; None when its elements are not known"""
    def plain(segs): return all(s.op == 'one' and s.args[1].op == 'ent' and s.args[1].args[0] == 'ins' and s.args[1].args[2] is UNITV or s.op == 'comp' and plain(s.args[2]) for s in segs)
    if not (plain(a.args) and (plain(b.args) or all(s.op == 'mseg' and mseg_types(s)[1] is None for s in b.args))) or LOOKUP is None: return None

    def all_in(segs):
        r = TRUE
        for s in segs:
            if s.op == 'one': x = Or(Not(s.args[0]), LOOKUP(b.args, s.args[1].args[1])[0])
            else:
                j = fresh()
                (body,) = unbind(s, j)
                x = Not(exists(s.args[1], j, Not(all_in(body))))
            r = And(r, x)
        return r
    return all_in(a.args)


# ------------------------------------------------------------------ counting elements
def seq_count(segs):
    """(fixed part as list of guards, list of count terms): number of elements; comps are (dom, i, inner) handled recursively"""
    gs, ts = [], []
    for s in segs:
        if s.op == 'one': gs.append(s.args[0])
        elif s.op == 'comp':
            j = fresh()
            (body,) = unbind(s, j)
            ts.append((s.args[1], j, body))
        else: ts.append((T('lvdom', s.args[0]), fresh(), (one(TRUE, UNITV),)))
    return gs, ts


def seq_ge(segs, n):
    """the sequence has at least n elements"""
    if n <= 0: return TRUE
    gs, ts = seq_count(segs)
    # dynamic programming over segments: reach[k] = condition that the first segments yield at least k elements
    reach = [TRUE] + [FALSE] * n
    for g in gs:
        reach = [TRUE] + [Or(reach[k], And(reach[k - 1], g)) for k in range(1, n + 1)]
    for dom, j, body in ts:
        at = [comp_ge(dom, j, body, k) for k in range(n + 1)]
        reach = [TRUE] + [Or(*[And(reach[k - m], at[m]) for m in range(0, k + 1)]) for k in range(1, n + 1)]
    return reach[n]


def comp_ge(dom, j, body, k):
    if k == 0: return TRUE
    if k == 1: return exists(dom, j, seq_ge(body, 1))
    if len(body) == 1 and body[0].op == 'one': return count_ge(dom, j, body[0].args[0], k)
    e = [seq_ge(body, m) for m in range(1, 3)]
    if e[1] is FALSE: return count_ge(dom, j, e[0], k)
    return tge(T('total', Q(comps(dom, j, shape(body)))), k)


def seq_len(segs):
    """length as a scalar node"""
    if all(s.op == 'one' for s in segs):
        r = num(0)
        for s in segs:
            r = ite(s.args[0], apply1('inc', r, lambda t: num(t.args[0] + 1)), r)
        return r
    if len(segs) == 1 and segs[0].op == 'comp':
        s = segs[0]
        body = s.args[2]
        if len(body) == 1 and body[0].op == 'one':
            j = fresh()
            ((b,),) = unbind(s, j)
            return leaf_count(s.args[1], j, b.args[0])
    return leaf(T('total', Q(sorted(shape(segs), key=lambda s: s.id))))


def shape(segs):
    """the segments with the element values forgotten"""
    out = []
    for s in segs:
        if s.op == 'one': out.append(one(s.args[0], UNITV))
        elif s.op == 'comp':
            j = fresh()
            (body,) = unbind(s, j)
            out += comps(s.args[1], j, shape(body))
        else: out.append(s)
    return out


def count_term_segs(t):
    """segments whose number a scalar term denotes"""
    if t.op == 'count':
        j = fresh()
        (g,) = unbind(t, j)
        return comps(t.args[1], j, [one(g, UNITV)])
    if t.op == 'total': return list(t.args[0].args)
    if t.op == 'int' and 0 <= t.args[0] <= 16: return [one(TRUE, UNITV)] * t.args[0]
    if t.op == 'add':
        a, b = count_term_segs(t.args[0]), count_term_segs(t.args[1])
        return None if a is None or b is None else a + b
    if t.op == 'addc' and 0 <= t.args[1] <= 16:
        a = count_term_segs(t.args[0])
        return None if a is None else a + [one(TRUE, UNITV)] * t.args[1]
    return None


def counted(n, lv):
    """n as lv plus the number of some segments, None if it is not of that form"""
    def minus(t):
        if t is lv: return []
        if t.op == 'addc':
            a = minus(t.args[0])
            return None if a is None or not 0 <= t.args[1] <= 16 else a + [one(TRUE, UNITV)] * t.args[1]
        if t.op == 'add':
            for x, y in ((t.args[0], t.args[1]), (t.args[1], t.args[0])):
                a = minus(x)
                if a is not None:
                    b = count_term_segs(y)
                    return None if b is None else a + b
        return None
    out = []
    for t, g in leaves(n):
        a = minus(t)
        if a is None: return None
        out += guard_segs(a, g)
    return out


def leaf_count(dom, j, g):
    if g is FALSE: return num(0)
    for v in sorted(g.sup, key=lambda v: v.id):
        if j not in v.bs:
            keys, kids = expand(g, v)
            return recompose(v, keys, [leaf_count(dom, j, k) for k in kids])
    return leaf(bind('count', dom, j, g))


def nlit(t, n):
    """hook for tge of 'total' terms"""
    return seq_ge(t.args[0].args, n)


_old_tge = tge


def tge(t, n):                                           # noqa: F811
    if t.op == 'total' and n <= 4:
        gs, ts = seq_count(t.args[0].args)
        if len(ts) + len(gs) > 1 or not ts: return seq_ge(t.args[0].args, n)
    return _old_tge(t, n)
