"""Equivalence of the analysed tree with the reference semantics, function by function.

Every data function that exists under the same name and signature in both trees is analysed on symbolic arguments with the
other such functions as uninterpreted functions, and the two value graphs are compared.  Since the call graph is acyclic,
agreement everywhere gives agreement of the entry points.  A function that differs is expanded into its callers, up to
the entry points, before the difference counts."""
import sys, time
import val as V
import engine, stdlib, pestmodel, grammar
from engine import St, minimize
from val import *
from dd import *


def deref_ty(t):
    while t and t.get('k') in ('ref', 'ptr'): t = t['args'][0]
    return t


def ty_kinds(t, acc):
    acc.add(t.get('k'))
    for a in t.get('args') or []:
        if isinstance(a, dict): ty_kinds(a, acc)
    return acc


def adts_in(t, acc):
    if t.get('k') == 'adt': acc.add(V.last(t['id']))
    for a in t.get('args') or []:
        if isinstance(a, dict): adts_in(a, acc)
    return acc


def norm_adt(tree, a):
    return (a['enum'], tuple((v['name'], tuple((n, norm_ty(t)) for n, t in v['fields'])) for v in a['variants']))


def norm_ty(t):
    k = t.get('k')
    if k == 'adt': return ('adt', V.last(t['id']), tuple(norm_ty(a) for a in t.get('args') or [] if isinstance(a, dict)))
    if k == 'prim': return ('prim', t.get('s'))
    if k == 'ref': return ('ref', bool(t.get('mut')), norm_ty(t['args'][0]))
    if k == 'param': return ('param', t.get('s'))
    return (k, tuple(norm_ty(a) for a in t.get('args') or [] if isinstance(a, dict)))


def generated(f):
    p = f['path']
    return f['derived'] or 'rules::' in p or 'pest::Parser' in p or p.startswith('parser::Rule') or p.startswith('<parser::Rule')


class Pair:
    """the two trees and what they share"""

    def __init__(self, act, ref):
        self.trees = (act, ref)
        self.same_adts()
        self.units = {}
        for p, fid in act.bypath.items():
            f, rid = act.fns[fid], ref.bypath.get(p)
            if rid is None: continue
            g = ref.fns[rid]
            if f['kind'] != 'fn' or g['kind'] != 'fn' or generated(f) or generated(g): continue
            sf, sg = self.sig(f), self.sig(g)
            if sf != sg or not self.sig_shared(f): continue
            self.units[p] = (fid, rid)
        self.abstractable = {p for p in self.units if self.can_abstract(act.fns[self.units[p][0]])}
        self.abstractable = {p for p in self.abstractable if not self.small(ref, self.units[p][1])}
        self.callers = ({}, {})
        for n, t in enumerate(self.trees):
            for fid, f in t.fns.items():
                if generated(f): continue
                own = owner_fn(t, fid)
                for c in refs_of(f['body'], t):
                    if c in t.fns and owner_fn(t, c) != own:
                        self.callers[n].setdefault(t.fns[owner_fn(t, c)]['path'], set()).add(t.fns[own]['path'])

    def same_adts(self):
        a, r = self.trees
        self.diff_adts = set(a.adts) ^ set(r.adts)
        for n in set(a.adts) & set(r.adts):
            if n == 'Rule':
                continue
            if norm_adt(a, a.adts[n]) != norm_adt(r, r.adts[n]): self.diff_adts.add(n)
        while True:
            more = set()
            for t in self.trees:
                for n, x in t.adts.items():
                    if n in self.diff_adts: continue
                    s = set()
                    for v in x['variants']:
                        for _, ty in v['fields']: adts_in(ty, s)
                    if s & self.diff_adts: more.add(n)
            if not more: break
            self.diff_adts |= more

    def small(self, tree, fid):
        """cheap enough to be expanded everywhere"""
        own = tree.cfg(fid)
        n = len(own.order) + sum(len(tree.cfg(c).order) for c in tree.fns if c.startswith(fid + '::{closure'))
        return n <= 9 and not own.loops

    def sig(self, f):
        b = f['body']
        return tuple(norm_ty(b['locals'][i]['ty']) for i in range(b['argc'] + 1))

    def sig_shared(self, f):
        b = f['body']
        s = set()
        for i in range(b['argc'] + 1): adts_in(b['locals'][i]['ty'], s)
        return not (s & self.diff_adts)

    def can_abstract(self, f):
        b = f['body']
        for i in range(b['argc'] + 1):
            t = b['locals'][i]['ty']
            k = ty_kinds(t, set())
            if k - {'adt', 'prim', 'ref', 'tuple', 'slice', 'array'}: return False
            if i == 0 and t.get('k') == 'ref' and t.get('mut'): return False
            if 'fmt::Formatter' in str(t): return False
        if b['argc'] == 0: return False
        return True


def owner_fn(t, fid):
    """function a closure belongs to"""
    while fid in t.fns and t.fns[fid]['kind'] == 'closure': fid = fid.rsplit('::', 1)[0]
    return fid


def refs_of(body, tree):
    """functions a body mentions"""
    out = set()

    def walk(x):
        if isinstance(x, dict):
            r = x.get('res')
            if isinstance(r, dict) and r.get('id'): out.add(r['id'])
            if x.get('a') == 'closure' and x.get('id'): out.add(x['id'])
            if x.get('k') == 'closure' and x.get('id'): out.add(x['id'])
            for v in x.values(): walk(v)
        elif isinstance(x, list):
            for v in x: walk(v)
    walk(body)
    return out


class Outcome:
    """value graph of one unit in one tree"""
    __slots__ = ('pc', 'val', 'posts', 'facts', 'unknown', 'absn', 'ctx', 'stats', 'err', 'time')


class Runner:
    def __init__(self, pair, abstract_all=True):
        self.pair = pair
        self.cache = {}
        self.keep, self.quiet = None, ()

    def args_for(self, tree, fid, ctx, eng, st):
        b = tree.fns[fid]['body']
        args, cells = [], []
        for i in range(b['argc']):
            ty = b['locals'][i + 1]['ty']
            t = deref_ty(ty)
            base = T('sym', 'a%d' % i, str(norm_ty(t)))
            if tname(t) == 'Pair': v = leaf(T('pair', base, dict(ctx).get(i, '?')))
            else: v = mk_sym(base, t)
            if ty.get('k') == 'ref' and ty.get('mut'):
                root = eng.cell(st, v, t)
                cells.append(root)
                v = eng.ptr(root)
            args.append(v)
        return args, cells

    def run(self, which, path, ctx=(), inline=frozenset()):
        k = (which, path, ctx, inline)
        if k in self.cache: return self.cache[k]
        tree = self.pair.trees[which]
        V.TREE = tree
        eng = engine.Engine(tree, stdlib.Lib)
        fid = tree.bypath[path]
        eng.abstract = {tree.bypath[p]: p for p in self.pair.abstractable if p not in inline and p != path}
        eng.keep, eng.quiet = self.keep, self.quiet
        st = St(TRUE, {})
        args, cells = self.args_for(tree, fid, ctx, eng, st)
        o = Outcome()
        t = time.time()
        o.err = None
        try:
            r = eng.call_fn(fid, args, st)
            o.pc, o.val = (r[0].pc, r[1]) if r else (FALSE, UNITV)
            o.posts = [r[0].store.get(c) if r else None for c in cells]
        except (engine.Unknown, RecursionError, MemoryError, AssertionError, KeyError, IndexError, AttributeError, TypeError, ValueError) as e:
            if __debug__ and DEBUG: raise
            o.err = repr(e)
            o.pc = o.val = o.posts = None
        o.facts, o.unknown, o.absn, o.ctx, o.stats = eng.facts, dict(eng.unknown), eng.absnames, eng.contexts, eng.stats
        o.time = time.time() - t
        self.cache[k] = o
        return o


DEBUG = False


# ------------------------------------------------------------------ comparing value graphs
class Diff:
    def __init__(self, path, guard, a, b):
        self.path, self.guard, self.a, self.b = path, guard, a, b

    def __repr__(self): return '/'.join(self.path)


def sat(*gs): return And(*gs) is not FALSE


_neqc = {}


def term_neq(x, y):
    """condition under which two scalar terms differ, FALSE when they provably agree"""
    if x is y: return FALSE
    if x.__class__ is bool or y.__class__ is bool: return FALSE if x is y else TRUE
    return TRUE


def conditions(*vs):
    """the variables of the conditions a value consists of, apart from those inside of terms"""
    out, seen, st = {}, set(), list(vs)
    while st:
        x = st.pop()
        if x.__class__ is tuple: st += x
        elif x.__class__ is Node:
            if x.id in seen: continue
            seen.add(x.id)
            for v in x.sup: out[v.term.id] = v.term
            if x.var is None: st.append(x.val)
        elif x.__class__ is Term and x.op in ('D', 'MUX', 'Q', 'M', 'one', 'ent') and ('t', x.id) not in seen:
            seen.add(('t', x.id))
            st += x.args
    return [out[k] for k in sorted(out)]


def enrich(a, r):
    """two numbers of elements that are equal on the way to a value count as one in it"""
    es = [t for t in conditions(a.val, r.val) if t.op == 'eq' and all(x.op == 'count' for x in t.args)]
    if not 0 < len(es) <= 3: return False
    for t in es:
        e, m = blit(t), {t.args[1]: t.args[0]}
        for o in (a, r):
            o.pc = ite(e, subst(o.pc, m), o.pc)
            if o.val is not None: o.val = mux(e, subst(o.val, m), o.val)
    return True


def compare(a, b, care, path, out, limit=12):
    if a is b or len(out) >= limit: return
    if a is None or b is None:
        out.append(Diff(path, care, a, b))
        return
    if a.__class__ is Term: a = force(a)
    if b.__class__ is Term: b = force(b)
    if a is b: return
    if a.__class__ is Node and b.__class__ is Node:
        d = And(care, node_diff(a, b))
        if d is not FALSE and not deep_equal(a, b, care): out.append(Diff(path, d, a, b))
        return
    if a.__class__ is Node or b.__class__ is Node:
        out.append(Diff(path, care, a, b))
        return
    if a.op == 'MUX' or b.op == 'MUX':
        for g, x in alternatives(a):
            c = And(care, g)
            if c is FALSE: continue
            for h, y in alternatives(b):
                d = And(c, h)
                if d is not FALSE: compare(vrestrict(x, d), vrestrict(y, d), d, path, out, limit)
        return
    if a.op == 'D' and b.op == 'D' and a.args[0] == b.args[0]:
        whole, out = out, ([] if len(path) < 4 else out)
        A = {v: (h, dict(fs)) for v, h, fs in a.args[1]}
        B = {v: (h, dict(fs)) for v, h, fs in b.args[1]}
        for v in sorted(set(A) | set(B)):
            ga, xa = A.get(v, (FALSE, {}))
            gb, xb = B.get(v, (FALSE, {}))
            single = len(A) == 1 and len(B) == 1
            p = path + ((v,) if not single or a.args[0] in engine.CORE_DISCR or (V.TREE.adt(a.args[0]) or {'enum': 0})['enum'] else ())
            compare(ga, gb, care, p + ('?',), out, limit + 1)
            c = And(care, ga, gb)
            if c is FALSE: continue
            for f in sorted(set(xa) | set(xb)):
                # every part has a share of its own in what is reported
                part = [] if len(path) < 4 else out
                compare(xa.get(f), xb.get(f), c, p + (f,), part, limit)
                if part is not out: out += part
        if whole is not out: whole += out
        return
    if a.op == b.op and a.op in ('Q', 'M'):
        n = len(out)
        seqs(list(a.args), list(b.args), care, path, out, limit)
        return
    if deep_equal(a, b, care): return
    out.append(Diff(path, care, a, b))


def node_diff(a, b):
    return apply2('ndiff', a, b, lambda x, y: FALSE if x is y else TRUE)


def alternatives(v): return v.args[0] if v.op == 'MUX' else ((TRUE, v),)


def seg_guard(s):
    """condition outside of the segment's own binder under which it can contribute"""
    if s.op == 'one': return s.args[0]
    if s.op == 'comp':
        j = fresh()
        (body,) = unbind(s, j)
        g = Or(*[seg_guard(x) for x in body])
        for v in sorted(g.sup, key=lambda v: v.id):
            if j in v.bs and v in g.sup: g = project(g, v)
        return g
    return TRUE


def project(f, v):
    if v.kind == 'enum': cells = list(range(len(v.dom)))
    else:
        ks = sorted(all_keys(f, v), key=lambda t: t.id if v.kind == 'open' else t)
        cells = ks + [None] if v.kind == 'open' else ([ks[0] - 1] if ks else [0]) + ks
    return Or(*[cofactor(f, v, c) for c in cells])


def seqs(A, B, care, path, out, limit, depth=5):
    A, B = list(restrict_segs(A, care)), list(restrict_segs(B, care))
    o = []
    seqs1(A, B, care, path, o, limit)
    if o and depth:
        # alternatives written in another order: split on the condition of a segment
        for s in A + B:
            g = seg_guard(s)
            c, d = And(care, g), And(care, Not(g))
            if c is FALSE or d is FALSE: continue
            o = []
            seqs(A, B, c, path, o, limit, depth - 1)
            if not o: seqs(A, B, d, path, o, limit, depth - 1)
            break
    out += o


def seqs1(A, B, care, path, out, limit):
    if len(A) != len(B):
        out.append(Diff(path + ('elements',), care, T('Q', *A), T('Q', *B)))
        return
    for n, (s, t) in enumerate(zip(A, B)):
        if s is t: continue
        p = path + ('[%d]' % n,) if len(A) > 1 else path + ('[]',)
        seg(s, t, care, p, out, limit)


_depth = [0]


def seg(s, t, care, p, out, limit):
    if s is t: return
    if s.op != t.op:
        out.append(Diff(p, care, s, t))
        return
    if s.op == 'one':
        compare(s.args[0], t.args[0], care, p + ('?',), out, limit)
        c = And(care, s.args[0], t.args[0])
        if c is FALSE: return
        x, y = s.args[1], t.args[1]
        if x.__class__ is Term and y.__class__ is Term and x.op == 'ent' and y.op == 'ent':
            if len(x.args) != len(y.args) or x.args[0] != y.args[0]:
                out.append(Diff(p, c, x, y))
                return
            for i, (u, w) in enumerate(zip(x.args[1:], y.args[1:])):
                nm = ('key', 'value', '2', '3')[i] if x.args[0] in ('ins', 'def') else str(i)
                if u.__class__ in (Term, Node) and w.__class__ in (Term, Node):
                    if u.__class__ is Term and u.op == 'ent': seg(one(TRUE, u), one(TRUE, w), c, p + (nm,), out, limit)
                    else: compare(u, w, c, p + (nm,), out, limit)
                elif u != w: out.append(Diff(p + (nm,), c, x, y))
            return
        compare(x, y, c, p, out, limit)
        return
    if s.op == 'comp':
        if s.args[1] is not t.args[1] and not deep_equal(s.args[1], t.args[1], care):
            out.append(Diff(p + ('over',), care, s.args[1], t.args[1]))
            return
        j = fresh()
        (x,), (y,) = unbind(s, j), unbind(t, j)
        seqs(list(x), list(y), care, p, out, limit)
        return
    if not deep_equal(s, t, care): out.append(Diff(p, care, s, t))


_deep = {}


def deep_equal(x, y, care):
    """structural equality modulo the care set, going below binders and into terms"""
    if x is y: return True
    if isinstance(x, tuple) and isinstance(y, tuple):
        return len(x) == len(y) and all(deep_equal(a, b, care) for a, b in zip(x, y))
    if x.__class__ not in (Term, Node) or y.__class__ not in (Term, Node): return x == y
    k = (x.__class__ is Node, x.id, y.__class__ is Node, y.id, care.id)
    r = _deep.get(k)
    if r is None:
        _deep[k] = False
        r = _deep[k] = _deep_equal(x, y, care)
    return r


def _deep_equal(x, y, care):
    if x.__class__ is Node and y.__class__ is Node: return node_equal(x, y, care)
    if x.__class__ is Node or y.__class__ is Node: return False
    if x.op in VOPS or y.op in VOPS:
        o = []
        if x.op in ('D', 'S', 'Q', 'M') and y.op in ('D', 'S', 'Q', 'M'):
            if x.op == 'S' and y.op == 'S': return deep_equal(x.args[0], y.args[0], care) and x.args[1] == y.args[1]
            compare(x, y, care, (), o, 1)
            return not o
    if x.op != y.op or len(x.args) != len(y.args): return False
    if x.op in BIND:
        if not deep_equal(x.args[1], y.args[1], care): return False
        j = fresh()
        bx, by = unbind(x, j), unbind(y, j)
        return all(deep_equal(a, b, care) for a, b in zip(bx, by))
    if x.op == 'mdd': return node_equal(x.args[0], y.args[0], care)
    return all(deep_equal(a, b, care) for a, b in zip(x.args, y.args))


def node_equal(x, y, care):
    """x and y agree under care, where variables / leaves may be written differently"""
    d = And(care, node_diff(x, y))
    if d is FALSE: return True
    # rename variables of y that denote the same thing as a variable of x
    vx, vy = sorted(x.sup - y.sup, key=lambda v: v.id), sorted(y.sup - x.sup, key=lambda v: v.id)
    ren = {}
    used = set()
    for v in vy:
        for u in vx:
            if u in used or u.kind != v.kind or u.dom != v.dom: continue
            if deep_equal(u.term, v.term, care):
                ren[v] = u
                used.add(u)
                break
    y2 = rename_vars(y, ren) if ren else y
    d = And(care, node_diff(x, y2))
    if d is FALSE: return True
    # leaves that are equal as terms
    if boolean(x) or boolean(y2): return False

    def cmp(a, b):
        if a is b: return FALSE
        return leaf(T('pairq', a, b))
    t = apply2('cmpleaf', x, y2, cmp)
    for p, g in leaves(t, care):
        if p is False or g is FALSE: continue
        if not (isinstance(p, Term) and p.op == 'pairq'): return False
        if not deep_equal(p.args[0], p.args[1], And(care, g)): return False
    return True


def rename_vars(n, ren, memo=None):
    if memo is None: memo = {}
    r = memo.get(n.id)
    if r is None:
        if n.var is None or not any(v in n.sup for v in ren): r = n
        else:
            kids = [rename_vars(k, ren, memo) for k in n.kids]
            r = recompose(ren.get(n.var, n.var), n.keys, kids)
        memo[n.id] = r
    return r


# ------------------------------------------------------------------ can a guard hold at all
def paths(n, budget):
    """assignments leading to TRUE: lists of (variable, (how, value))"""
    st = [(n, ())]
    while st:
        x, p = st.pop()
        if x.var is None:
            if x.val is True: yield p
            continue
        budget[0] -= 1
        if budget[0] < 0: return
        v = x.var
        if v.kind == 'enum':
            for d, k in zip(v.dom, x.kids):
                if k is not FALSE: st.append((k, p + ((v, ('is', d)),)))
        elif v.kind == 'open':
            for c, k in zip(x.keys, x.kids):
                if k is not FALSE: st.append((k, p + ((v, ('is', c)),)))
            if x.kids[-1] is not FALSE: st.append((x.kids[-1], p + ((v, ('not', x.keys)),)))
        else:
            ks = (None,) + tuple(x.keys) + (None,)
            for j, k in enumerate(x.kids):
                if k is not FALSE: st.append((k, p + ((v, ('in', (ks[j], ks[j + 1]))),)))


class Classes:
    """equalities between terms, with their consequences inside of other terms"""

    def __init__(self):
        self.up, self.memo = {}, {}

    def rep(self, t):
        while t in self.up: t = self.up[t]
        return t

    def norm(self, t):
        if t.__class__ is tuple: return tuple(self.norm(x) for x in t)
        if t.__class__ is not Term: return t
        if t.bs or t.op in BIND: return self.rep(t)
        r = self.memo.get(t)
        if r is None:
            r = t
            if t.args and t.op not in ('Q', 'M', 'D', 'MUX'):
                a = tuple(self.norm(x) for x in t.args)
                if any(x is not y for x, y in zip(a, t.args)): r = T(t.op, *a)
            r = self.memo[t] = self.rep(r)
        return r

    def join(self, a, b):
        a, b = self.norm(a), self.norm(b)
        if a is b: return True
        if V.is_const(a) and V.is_const(b): return False
        if V.is_const(a) or not V.is_const(b) and a.id < b.id: a, b = b, a
        self.up[a] = b
        self.memo.clear()
        return True


_callsin = {}


def calls_in(x):
    """the calls without a body of their own (of functions taken for uninterpreted) inside of a value"""
    k = (x.__class__ is Node, x.id)
    r = _callsin.get(k)
    if r is None:
        acc = set()
        if x.__class__ is Node:
            for v in x.sup: acc |= calls_in(v.term)
            for t, g in V.leaves(x):
                if t.__class__ is Term: acc |= calls_in(t)
        else:
            if x.op == 'call': acc.add(x)
            st = list(x.args)
            while st:
                y = st.pop()
                if y.__class__ is tuple: st += y
                elif y.__class__ in (Node, Term): acc |= calls_in(y)
        r = _callsin[k] = frozenset(acc)
    return r


def canon(x, cube, c, memo):
    """a key for what a value is under the literals of a path"""
    if x.__class__ is tuple: return tuple(canon(y, cube, c, memo) for y in x)
    if x.__class__ not in (Term, Node): return x
    k = (x.__class__ is Node, x.id)
    r = memo.get(k)
    if r is None:
        y = V.collapse(V.vrestrict(x, cube))
        if y.__class__ is Node:
            if y.var is None: r = canon(y.val, cube, c, memo) if y.val.__class__ is Term else y.val
            else: r = ('node', y.var.id, y.keys, tuple(canon(z, cube, c, memo) for z in y.kids))
        elif y.op == 'mdd' and len(y.args) == 1: r = canon(y.args[0], cube, c, memo)
        else:
            z = c.rep(y)
            r = (z.op,) + tuple(canon(w, cube, c, memo) for w in z.args)
        memo[k] = r
    return r


def congruent(p, c):
    """calls of one function whose arguments are the same under the literals of the path"""
    groups = {}
    for t in {t for v, _ in p for t in calls_in(v.term)}: groups.setdefault((t.args[0], len(t.args)), []).append(t)
    groups = [sorted(g, key=lambda t: t.id) for g in groups.values() if len(g) > 1]
    if not groups: return
    cube = TRUE
    for v, (how, x) in p:
        if v.kind == 'enum': l = mk(v, None, tuple(TRUE if d == x else FALSE for d in v.dom))
        elif v.kind == 'open': l = mk(v, (x,), (TRUE, FALSE)) if how == 'is' else mk(v, tuple(x), (FALSE,) * len(x) + (TRUE,)) if x else TRUE
        else:
            ks = tuple(k for k in x if k is not None)
            l = mk(v, ks, ((FALSE,) if x[0] is not None else ()) + (TRUE,) + ((FALSE,) if x[1] is not None else ())) if ks else TRUE
        cube = And(cube, l)
    memo = {}
    for g in groups:
        seen = {}
        for t in g:
            u = seen.setdefault(tuple(canon(x, cube, c, memo) for x in t.args[1:]), t)
            if u is t: u = next((u for u in seen.values() if u is not t and all(x is y or same(x, y, cube) for x, y in zip(u.args[1:], t.args[1:]))), t)
            if u is not t: c.join(u, t)


def same(x, y, cube):
    x, y = (z.args[0] if z.__class__ is Term and z.op == 'mdd' else z for z in (x, y))
    if x.__class__ not in (Term, Node) or y.__class__ not in (Term, Node): return x is y
    return deep_equal(V.vrestrict(x, cube), V.vrestrict(y, cube), cube)


def consistent(p, calls=False):
    """equality logic over the literals of one path"""
    c = Classes()
    n = -1
    while n != len(c.up):
        n = len(c.up)
        if calls: congruent(p, c)
        for v, (how, x) in p:
            t = v.term
            if v.kind == 'enum' and t.op == 'eq' and x is True and len(t.args) == 2 and all(y.__class__ is Term for y in t.args):
                if not c.join(*t.args): return False
            elif v.kind == 'open' and how == 'is':
                if not c.join(t, x): return False
    seen = {}
    for v, (how, x) in p:
        t = v.term
        if v.kind == 'enum':
            if t.op == 'eq' and len(t.args) == 2 and x is False and all(y.__class__ is Term for y in t.args) and c.norm(t.args[0]) is c.norm(t.args[1]): return False
            k = c.norm(t)
            if V.is_const(k) and t.op != 'eq' and v.dom != (False, True) and k.args[0] != x: return False
            if seen.setdefault(('e', k), x) != x: return False
        elif v.kind == 'open':
            k = c.norm(t)
            if how == 'not' and k in x: return False
        else:
            k = c.norm(t)
            lo, hi = x
            if k.op == 'int':
                if lo is not None and k.args[0] < lo or hi is not None and k.args[0] >= hi: return False
            a, b = seen.get(('i', k), (None, None))
            lo = a if lo is None or a is not None and a > lo else lo
            hi = b if hi is None or b is not None and b < hi else hi
            if lo is not None and hi is not None and lo >= hi: return False
            seen[('i', k)] = (lo, hi)
    return c


def possible(guard, a=None, b=None, limit=3000, calls=40):
    """True: some input meets the guard and tells a from b; False: none does; None: not found out"""
    budget = [limit]
    nodes = a.__class__ is Node and b.__class__ is Node
    n = 0
    for p in paths(guard, budget):
        n += 1
        if n > limit: return None
        c = consistent(p)
        if c is not False:
            calls -= 1
            if calls < 0: return None
            c = consistent(p, True)
        if c is False: continue
        if not nodes: return True
        x, y = along(a, p), along(b, p)
        if x.var is not None or y.var is not None: return True
        x, y = x.val, y.val
        if x.__class__ is Term and y.__class__ is Term and c.norm(x) is c.norm(y): continue
        return True
    return None if budget[0] < 0 else False


def along(n, p):
    d = dict(p)
    while n.var is not None and n.var in d:
        how, x = d[n.var]
        v = n.var
        if v.kind == 'enum': n = n.kids[v.idx[x]]
        elif v.kind == 'open':
            if how == 'is': n = n.kids[n.keys.index(x)] if x in n.keys else n.kids[-1]
            elif set(n.keys) <= set(x): n = n.kids[-1]
            else: break
        else:
            lo, hi = x
            j = [i for i in range(len(n.kids)) if not (i and hi is not None and hi <= n.keys[i - 1] or i < len(n.keys) and lo is not None and lo >= n.keys[i])
                 and not (lo is None and hi is not None and i and n.keys[i - 1] >= hi)]
            if len(j) != 1: break
            n = n.kids[j[0]]
    return n
