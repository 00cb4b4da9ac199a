"""Multi-terminal decision diagrams over finite (enum), open (equality with constants) and integer (interval) variables,
and the hash-consed terms the variables talk about.  Everything is canonical for one process-wide variable order."""


# ------------------------------------------------------------------ terms
class Term:
    __slots__ = ('op', 'args', 'id', 'bs', 'h', 'txt')

    def __repr__(self):
        return show(self)


_terms = {}
EMPTY = frozenset()


def T(op, *args):
    k = (op, args)
    t = _terms.get(k)
    if t is None:
        t = Term()
        t.op, t.args, t.id = op, args, len(_terms)
        t.txt = None
        bs = EMPTY
        h = 0
        for a in args:
            b = binders(a)
            if b: bs = bs | b if bs else b
            ha = height(a)
            if ha > h: h = ha
        if op == 'i' or op == 'lv': bs = frozenset([t])
        if op == 'bv': h = max(h, args[0])
        t.bs, t.h = bs, h
        _terms[k] = t
    return t


def binders(a):
    """free (open) binder terms inside"""
    if isinstance(a, (Term, Node)): return a.bs
    b = getattr(a, 'bs', None)
    if b is not None: return b
    if isinstance(a, tuple):
        r = EMPTY
        for x in a:
            b = binders(x)
            if b: r = r | b if r else b
        return r
    return EMPTY


def height(a):
    """largest closed binder inside"""
    if isinstance(a, (Term, Node)): return a.h
    b = getattr(a, 'h', None)
    if b is not None: return b
    if isinstance(a, tuple):
        return max([height(x) for x in a], default=0)
    return 0


def S(s): return T('str', s)
def I(n): return T('int', n)


UNIT = T('unit')
BOTT = T('bot')


def is_const(t): return t.op in ('str', 'int', 'unit', 'float', 'char', 'const')


# ------------------------------------------------------------------ variables
class Var:
    __slots__ = ('id', 'kind', 'term', 'dom', 'lo', 'bs', 'h', 'idx')

    def __repr__(self): return '%s?' % (self.term,)


_vars = {}
_varlist = []


def var(kind, term, dom=None, lo=None):
    k = (kind, term)
    v = _vars.get(k)
    if v is None:
        v = Var()
        v.id, v.kind, v.term, v.dom, v.lo = len(_varlist), kind, term, dom, lo
        v.bs, v.h = term.bs, term.h
        v.idx = {x: i for i, x in enumerate(dom)} if dom else None
        _vars[k] = v
        _varlist.append(v)
    elif dom is not None and v.dom != dom:
        raise ValueError('variable %r with two domains %r %r' % (term, v.dom, dom))
    return v


# ------------------------------------------------------------------ nodes
class Node:
    __slots__ = ('var', 'keys', 'kids', 'val', 'id', 'bs', 'h', 'level', 'sup')

    def __repr__(self): return shown(self)


_nodes = {}
INF = 1 << 60


class Budget(Exception): pass


LIMIT = [1 << 60]           # number of decision nodes at which an optional computation is given up


def leaf(v):
    k = ('L', v if v.__class__ is not bool else ('b', v))
    n = _nodes.get(k)
    if n is None:
        n = Node()
        n.var = None; n.keys = None; n.kids = None; n.val = v; n.id = len(_nodes); n.level = INF
        n.bs, n.h = binders(v), height(v)
        n.sup = EMPTY
        _nodes[k] = n
    return n


TRUE, FALSE = leaf(True), leaf(False)
BOT = leaf(BOTT)


def mk(v, keys, kids):
    f = kids[0]
    if all(x is f for x in kids): return f
    if v.kind == 'open':
        d = kids[-1]
        if any(x is d for x in kids[:-1]):
            pr = [(k, x) for k, x in zip(keys, kids) if x is not d]
            keys = tuple(k for k, x in pr)
            kids = tuple(x for k, x in pr) + (d,)
    elif v.kind == 'int':
        ks, xs = [], [kids[0]]
        for k, x in zip(keys, kids[1:]):
            if x is not xs[-1]:
                ks.append(k); xs.append(x)
        keys, kids = tuple(ks), tuple(xs)
    k = (v.id, keys, tuple(x.id for x in kids))
    n = _nodes.get(k)
    if n is None:
        n = Node()
        n.var, n.keys, n.kids, n.val, n.id, n.level = v, keys, tuple(kids), None, len(_nodes), v.id
        if n.id > LIMIT[0]: raise Budget()
        bs, h = v.bs, v.h
        sup = {v}
        for x in kids:
            if x.bs: bs = bs | x.bs
            if x.h > h: h = x.h
            sup |= x.sup
        n.bs, n.h = bs, h
        n.sup = frozenset(sup)
        _nodes[k] = n
    return n


def bvar(term):
    v = var('enum', term, (False, True))
    return mk(v, None, (FALSE, TRUE))


def evar(term, dom, value):
    """term has the value `value` of the finite domain"""
    if value not in dom: return FALSE
    if len(dom) == 1: return TRUE
    v = var('enum', term, tuple(dom))
    return mk(v, None, tuple(TRUE if x == value else FALSE for x in v.dom))


def ovar(term, const):
    """open-domain term equals the constant term"""
    v = var('open', term)
    return mk(v, (const,), (TRUE, FALSE))


def ivar_ge(term, n, lo=None):
    """integer term >= n"""
    if lo is not None and n <= lo: return TRUE
    v = var('int', term, lo=lo)
    if v.lo is not None and n <= v.lo: return TRUE
    return mk(v, (n,), (FALSE, TRUE))


def cells(v, nodes):
    """common refinement of the partitions of v used at the top of the nodes -> keys, list of kid tuples"""
    if v.kind == 'enum':
        n = len(v.dom)
        cols = [x.kids if x.var is v else (x,) * n for x in nodes]
        return None, list(zip(*cols))
    ks = set()
    for x in nodes:
        if x.var is v: ks.update(x.keys)
    if v.kind == 'open':
        keys = tuple(sorted(ks, key=lambda t: t.id))
        rows = []
        for k in keys:
            row = []
            for x in nodes:
                if x.var is v:
                    row.append(x.kids[x.keys.index(k)] if k in x.keys else x.kids[-1])
                else: row.append(x)
            rows.append(tuple(row))
        rows.append(tuple(x.kids[-1] if x.var is v else x for x in nodes))
        return keys, rows
    keys = tuple(sorted(ks))
    rows = []
    pos = [0] * len(nodes)
    for c in range(len(keys) + 1):
        row = []
        for j, x in enumerate(nodes):
            if x.var is v:
                if c > 0 and pos[j] < len(x.keys) and x.keys[pos[j]] == keys[c - 1]: pos[j] += 1
                row.append(x.kids[pos[j]])
            else: row.append(x)
        rows.append(tuple(row))
    return keys, rows


_ite = {}


def ite(c, a, b):
    if c is TRUE: return a
    if c is FALSE: return b
    if a is b: return a
    if a is TRUE and b is FALSE: return c
    k = (c.id, a.id, b.id)
    r = _ite.get(k)
    if r is None:
        lv = min(c.level, a.level, b.level)
        v = _varlist[lv]
        keys, rows = cells(v, (c, a, b))
        r = mk(v, keys, tuple(ite(*row) for row in rows))
        _ite[k] = r
    return r


def And(*xs):
    r = TRUE
    for x in xs:
        r = ite(r, x, FALSE)
        if r is FALSE: return r
    return r


def Or(*xs):
    r = FALSE
    for x in xs:
        r = ite(r, TRUE, x)
        if r is TRUE: return r
    return r


def Not(a): return ite(a, FALSE, TRUE)
def Xor(a, b): return ite(a, Not(b), b)
def Implies(a, b): return And(a, Not(b)) is FALSE


_restr = {}


def restrict(f, care):
    """a simple function equal to f wherever care holds"""
    if care is TRUE or f.var is None: return f
    if care is FALSE: return f
    k = (f.id, care.id)
    r = _restr.get(k)
    if r is None:
        if care.level < f.level:
            c = FALSE
            for x in care.kids: c = Or(c, x)
            r = restrict(f, c)
        else:
            v = f.var
            keys, rows = cells(v, (f, care))
            kids = [None if c is FALSE else restrict(x, c) for x, c in rows]
            live = [x for x in kids if x is not None]
            if not live: r = f
            else:
                if v.kind == 'open' and kids[-1] is not None: dflt = kids[-1]
                else: dflt = live[0]
                out = []
                last = None
                for x in kids:
                    if x is None:
                        x = dflt if v.kind != 'int' or last is None else last
                    last = x
                    out.append(x)
                if v.kind == 'int' and kids[0] is None: out[0] = live[0]
                if v.kind == 'int':
                    first = next(x for x in kids if x is not None)
                    for i, x in enumerate(kids):
                        if x is None: out[i] = first
                        else: break
                r = mk(v, keys, tuple(out))
        _restr[k] = r
    return r


_ap = {}


def apply1(name, f, fn):
    """map terminals of f through fn (to nodes)"""
    k = (name, f.id)
    r = _ap.get(k)
    if r is None:
        if f.var is None: r = fn(f.val)
        else:
            kids = [apply1(name, x, fn) for x in f.kids]
            r = recompose(f.var, f.keys, kids)
        if name is not None: _ap[k] = r
    return r


def recompose(v, keys, kids):
    """node testing v over kids that may test anything (also variables above v)"""
    if all(x.level > v.id for x in kids): return mk(v, keys, tuple(kids))
    r = kids[-1]
    if v.kind == 'enum':
        for i in range(len(v.dom) - 1):
            g = mk(v, None, tuple(TRUE if j == i else FALSE for j in range(len(v.dom))))
            r = ite(g, kids[i], r)
    elif v.kind == 'open':
        for k, x in zip(keys, kids):
            r = ite(mk(v, (k,), (TRUE, FALSE)), x, r)
    else:
        for k, x in reversed(list(zip(keys, kids))):
            r = ite(mk(v, (k,), (TRUE, FALSE)), x, r)
    return r


_ap2 = {}


def apply2(name, f, g, fn):
    k = (name, f.id, g.id)
    r = _ap2.get(k)
    if r is None:
        lv = min(f.level, g.level)
        if lv == INF: r = fn(f.val, g.val)
        else:
            v = _varlist[lv]
            keys, rows = cells(v, (f, g))
            r = recompose(v, keys, [apply2(name, a, b, fn) for a, b in rows])
        _ap2[k] = r
    return r


def leaves(f, care=TRUE, acc=None, guard=TRUE):
    """list of (terminal value, guard) under care"""
    out = {}

    def go(f, c):
        k = (f.id, c.id)
        if c is FALSE: return {}
        if k in memo: return memo[k]
        if f.var is None:
            r = {f.val: c}
        else:
            lv = f.level
            v = f.var
            r = {}
            if c.level < lv:
                v = c.var
                keys, rows = cells(v, (f, c))
            else:
                keys, rows = cells(v, (f, c))
            n = len(rows)
            parts = [go(a, b) for a, b in rows]
            vals = []
            for p in parts:
                for x in p:
                    if x not in vals: vals.append(x)
            for x in vals:
                r[x] = mk(v, keys, tuple(p.get(x, FALSE) for p in parts))
        memo[k] = r
        return r
    memo = {}
    return list(go(f, care).items())


def cofactor(f, v, i, memo=None):
    """f with variable v fixed to its i-th cell of f's own partition: enum index / key for open (None=default) / integer"""
    if v not in f.sup: return f
    if memo is None: memo = {}
    r = memo.get(f.id)
    if r is None:
        if f.var is v:
            if v.kind == 'enum': r = f.kids[i]
            elif v.kind == 'open': r = f.kids[f.keys.index(i)] if i in f.keys else f.kids[-1]
            else:
                j = 0
                while j < len(f.keys) and f.keys[j] <= i: j += 1
                r = f.kids[j]
        else:
            r = mk(f.var, f.keys, tuple(cofactor(x, v, i, memo) for x in f.kids))
        memo[f.id] = r
    return r


def all_keys(f, v):
    """every key of variable v used anywhere in f"""
    ks = set()
    seen = set()
    st = [f]
    while st:
        x = st.pop()
        if x.id in seen or v not in x.sup: continue
        seen.add(x.id)
        if x.var is v and x.keys: ks.update(x.keys)
        st += x.kids
    return ks


def expand(f, v):
    """Shannon expansion on v: keys, kids (kids free of v)"""
    if v.kind == 'enum':
        return None, [cofactor(f, v, i) for i in range(len(v.dom))]
    ks = all_keys(f, v)
    if v.kind == 'open':
        keys = tuple(sorted(ks, key=lambda t: t.id))
        return keys, [cofactor(f, v, k) for k in keys] + [cofactor(f, v, None)]
    keys = tuple(sorted(ks))
    return keys, [cofactor(f, v, keys[0] - 1)] + [cofactor(f, v, k) for k in keys]


# ------------------------------------------------------------------ printing
def show(t, depth=7):
    if isinstance(t, Node): return shown(t, depth)
    if not isinstance(t, Term):
        if isinstance(t, tuple): return '(' + ', '.join(show(x, depth - 1) for x in t) + ')'
        if isinstance(t, frozenset): return '{' + ','.join(sorted(map(str, t))) + '}'
        return str(t) if not hasattr(t, 'brief') else t.brief(depth)
    if t.op == 'str': return repr(t.args[0])
    if t.op == 'int': return str(t.args[0])
    if t.op == 'unit': return '()'
    if t.op == 'bot': return '_|_'
    if t.op == 'i': return 'i%s' % t.args[0]
    if t.op == 'bv': return 'x%s' % t.args[0]
    if depth <= 0: return t.op + '(..)'
    if t.op == 'f': return '%s.%s' % (show(t.args[0], depth), t.args[1])
    if t.op == 'at': return '%s[%s]' % (show(t.args[0], depth - 1), show(t.args[1], depth - 1))
    if t.op == 'sym': return str(t.args[0])
    return '%s(%s)' % (t.op, ', '.join(show(a, depth - 1) for a in t.args))


def shown(f, depth=6):
    if f.var is None: return str(f.val) if isinstance(f.val, bool) else show(f.val, depth)
    if depth <= 0: return '...'
    v = f.var
    n = show(v.term, depth - 1)
    if v.kind == 'enum' and v.dom == (False, True):
        lo, hi = f.kids
        if hi is TRUE and lo is FALSE: return n
        if hi is FALSE and lo is TRUE: return '!' + n
        if lo is FALSE: return '%s & %s' % (n, shown(hi, depth - 1))
        if hi is FALSE: return '!%s & %s' % (n, shown(lo, depth - 1))
        if hi is TRUE: return '(%s | %s)' % (n, shown(lo, depth - 1))
        return '(%s ? %s : %s)' % (n, shown(hi, depth - 1), shown(lo, depth - 1))
    if v.kind == 'enum': labels = [str(d) for d in v.dom]
    elif v.kind == 'open': labels = [show(k) for k in f.keys] + ['*']
    else: labels = ['<%d' % f.keys[0]] + ['>=%d' % k for k in f.keys]
    grp = {}
    for l, x in zip(labels, f.kids): grp.setdefault(x.id, (x, []))[1].append(l)
    return '[%s: %s]' % (n, '; '.join('%s -> %s' % ('|'.join(ls), shown(x, depth - 1)) for x, ls in grp.values()))
