"""Models of the library functions the crate calls: core/alloc collections, strings, iterators, formatting and pest."""
import val as V
from val import *
from dd import *
from engine import St, merge, mergev, minimize, has_ptr

PEST = None          # the grammar model (pestmodel.Model)


def lastseg(p):
    d, out, cur = 0, [], ''
    i = 0
    while i < len(p):
        c = p[i]
        if c == '<': d += 1
        elif c == '>' and p[i - 1] != '-': d -= 1
        if d == 0 and p.startswith('::', i):
            out.append(cur); cur = ''; i += 2
            continue
        cur += c
        i += 1
    out.append(cur)
    return out[-1]


def strip_refs(ty):
    while ty and ty.get('k') in ('ref', 'ptr'): ty = ty['args'][0]
    return ty


def tyname(ty):
    ty = strip_refs(ty)
    if not ty: return None
    if ty.get('k') == 'adt': return V.last(ty['id'])
    if ty.get('k') == 'prim': return ty['s']
    return ty.get('k')


def owner(f):
    """what a callee is a method of"""
    if f.get('trait'): return V.last(f['trait'].split('<')[0])
    t = f.get('implself')
    if t: 
        n = tyname(t)
        return n
    p = f['path'].split('<')[0].rstrip(':')
    ps = f['path'].split('::')
    return ps[-2] if len(ps) > 1 else ''


STRS = {'String', 'str'}
INTS = {'u8', 'u16', 'u32', 'u64', 'u128', 'usize', 'i8', 'i16', 'i32', 'i64', 'i128', 'isize'}
RANGE = {}
for b in (8, 16, 32, 64, 128):
    RANGE['u%d' % b] = (0, 2 ** b - 1)
    RANGE['i%d' % b] = (-2 ** (b - 1), 2 ** (b - 1) - 1)
RANGE['usize'], RANGE['isize'] = RANGE['u64'], RANGE['i64']

M_ = {}


def model(*names):
    def d(fn):
        for n in names: M_[n] = fn
        return fn
    return d


# library functions that panic for some arguments
MAYPANIC = {'index', 'index_mut', 'insert_str', 'remove', 'insert', 'truncate', 'split_at', 'replace_range', 'pow', 'abs', 'from_digit', 'to_digit', 'clamp', 'neg', 'step_by'}


def given(t):
    """is a number one the input text spells out (lengths, counts and positions are bounded by the size of the text)"""
    if t.op in ('int', 'i', 'lv', 'len', 'strlen', 'charlen', 'total', 'count', 'first', 'bv'): return False
    if t.op in ('addc', 'cast', 'add', 'sub', 'mul', 'div', 'rem', 'show'): return any(given(x) for x in t.args if isinstance(x, Term))
    if t.op == 'f' and t.args[-1] in ('start', 'end'): return False
    return True


def whole(dom, v):
    """the only part of a text is the text"""
    if dom.op == 'dom+' and dom.args[0].op == 'split' and v.__class__ is Node and v.var is None and v.val.op == 'at' and v.val.args[0] is dom and v.val.args[1].op == 'int' and v.val.args[1].args[0] == 0:
        return ite(tge(bind('count', dom, fresh(), TRUE), 2), v, leaf(dom.args[0].args[0]))
    return v


def overflow1(op, t, x, y):
    if x.op == 'int' and y.op == 'int' and t in RANGE:
        a, b = x.args[0], y.args[0]
        n = a + b if op == 'Add' else a - b if op == 'Sub' else a * b if op == 'Mul' else 0
        return FALSE if RANGE[t][0] <= n <= RANGE[t][1] else TRUE
    if t in ('usize', 'u64', 'i64', 'u32', 'i32', 'isize', 'u128', 'i128') and not given(x) and not given(y): return FALSE
    return bvar(T('overflow', op, t, x, y))


class Lib:
    def __init__(self, eng):
        self.e = eng
        self.fnrefs = {}
        self.native = {}
        V.LOOKUP = self.lookup
        self.nnat = 0

    # ------------------------------------------------------------ parts
    def D_(self, st, v):
        """owned view of a value"""
        v = self.e.deref(st, v)
        if v.__class__ is Term and v.op in ('S', 'MUX'): v = force(v)
        return v

    def alt(self, st, v, adt, var):
        """(guard, payload) of one variant"""
        v = self.D_(st, v)
        if v.__class__ is Term and v.op == 'D':
            for n, g, fs in v.args[1]:
                if n == var:
                    d = dict(fs)
                    return g, d.get('0')
            return FALSE, None
        t = vterm(v) if not (v.__class__ is Term and v.op == 'OP') else v.args[0]
        dom = tuple(n for n, _ in V.CORE_ENUM.get(adt, [('None', 0), ('Some', 0)]))
        g = evar(T('variant', t), dom, var)
        return g, T('OP', T('f', t, '0', var))

    def opt_parts(self, st, v):
        g, x = self.alt(st, v, 'Option', 'Some')
        return g, x

    def is_res(self, v):
        return v.__class__ is Term and v.op == 'D' and v.args[0] == 'Result'

    def res_parts(self, st, v):
        v = self.D_(st, v)
        g, x = self.alt(st, v, 'Result', 'Ok')
        h, y = self.alt(st, v, 'Result', 'Err')
        return g, x, h, y

    def call1(self, st, f, args): return self.e.call_value(st, f, args)

    def wrap(self, r, fn):
        return None if r is None else (r[0], fn(r[1]))

    def case(self, st, *cases): return self.e.branch(st, cases)

    def bool_(self, v): return self.e.as_bool(v)

    # ------------------------------------------------------------ dispatch
    def local(self, st, f, args, dty, at):
        """a local function that is modelled instead of analysed"""
        res = f.get('res') or {}
        p = res.get('path') or f['path']
        if '::{' not in p and p.rsplit('::', 1)[-1] in ('Ok', 'Err', 'Some') and len(args) == 1 and f['path'].startswith('core::'):
            n = p.rsplit('::', 1)[-1]
            return st, some(args[0]) if n == 'Some' else ok(args[0]) if n == 'Ok' else err(args[0])
        ps = p.split('::')
        if len(ps) > 1 and ps[-1][:1].isupper() and '<' not in ps[-1]:
            for adt in (ps[-2], ps[-1]):
                x = self.e.tree.adt(adt)
                for v in (x['variants'] if x else ()):
                    if v['name'] == ps[-1] and len(v['fields']) == len(args) and all(n == str(i) for i, (n, _) in enumerate(v['fields'])):
                        return st, V.D(adt, [(v['name'], TRUE, {str(i): a for i, a in enumerate(args)})])
        if ' as pest::Parser' in p and f.get('name') == 'parse':
            return PEST.parse(self, st, args)
        return None

    def call(self, st, f, args, dty, at):
        n = f.get('name') or lastseg(f['path'])
        if n.startswith('{'): n = lastseg(f['path'])
        o = owner(f)
        fn = M_.get('%s.%s' % (o, n))
        if fn is None and o in ('Arguments', 'Argument'): fn = M_.get('fmt.' + n)
        if fn is None: fn = M_.get('.' + lastseg(f['path'].split('::<')[0] if False else f['path']))
        if fn is not None:
            r = fn(self, st, f, args, dty, at)
            if r is NotImplemented: return self.unknown(st, f, args, dty, at)
            return r
        return self.unknown(st, f, args, dty, at)

    def unknown(self, st, f, args, dty, at):
        p = (f.get('res') or {}).get('path') or f['path']
        self.e.note('call of ' + p, at)
        st = st.copy()
        vals = []
        for a in args:
            if has_ptr(a) and a.op == 'P':
                vals.append(self.e.load(st, a))
            else: vals.append(a)
        t = T('call', p, *[vterm(v) for v in vals])
        if lastseg(p) in MAYPANIC and not (lastseg(p) in ('insert', 'remove', 'truncate') and owner(f) not in ('String', 'Vec', 'VecDeque')
                                           or lastseg(p) == 'truncate' and owner(f) != 'String'): self.e.panic(st, 'unproved %s at %s' % (lastseg(p), at), bvar(T('fails', t)))
        for i, a in enumerate(args):
            if a.__class__ is Term and a.op == 'P': self.e.store_to(st, a, T('OP', T('havoc', t, i)))
        if dty and dty.get('k') == 'prim' and dty.get('s') == '!': return None
        return st, mk_sym(t, dty) if dty and dty.get('k') in ('prim', 'adt', 'tuple', 'ref') else T('OP', t)

    # ------------------------------------------------------------ scalars
    def binop(self, st, op, a, b, ty):
        if op in ('Eq', 'Ne'):
            r = veq(a, b)
            return r if op == 'Eq' else Not(r)
        if op in ('Lt', 'Le', 'Gt', 'Ge'):
            a, b = self.scalar(a), self.scalar(b)
            if op == 'Lt': return self.lt(a, b)
            if op == 'Gt': return self.lt(b, a)
            if op == 'Le': return Not(self.lt(b, a))
            return Not(self.lt(a, b))
        if is_bool(a) and is_bool(b):
            if op == 'BitAnd': return And(a, b)
            if op == 'BitOr': return Or(a, b)
            if op == 'BitXor': return Xor(a, b)
        base = op.replace('WithOverflow', '').replace('Unchecked', '')
        if base in ('Add', 'Sub', 'Mul', 'Div', 'Rem'):
            a, b = self.scalar(a), self.scalar(b)
            r = self.arith(base, a, b)
            if op.endswith('WithOverflow'):
                return tup(r, self.overflow(base, a, b, tyname(ty)))
            return r
        return self.e.op('bin:' + op, a, b)

    def overflow(self, op, a, b, t):
        if op == 'Sub' and t in ('usize', 'u64', 'u32', 'u16', 'u8', 'u128'): return self.lt(a, b)
        return apply2('overflow%s%s' % (op, t), a, b, lambda x, y: overflow1(op, t, x, y))

    def scalar(self, v):
        if v.__class__ is Node: return v
        return leaf(T('opaque', v))

    def lt(self, a, b):
        if is_bool(a) and is_bool(b): return And(Not(a), b)
        return apply2('lt', a, b, lambda x, y: V.tlt(x, y))

    def arith(self, op, a, b):
        return apply2('arith' + op, a, b, lambda x, y: leaf(self.arith1(op, x, y)))

    def arith1(self, op, x, y):
        if x.op == 'int' and y.op == 'int':
            m, n = x.args[0], y.args[0]
            if op == 'Add': return I(m + n)
            if op == 'Sub': return I(m - n)
            if op == 'Mul': return I(m * n)
            if n != 0:
                q = abs(m) // abs(n) * (1 if (m < 0) == (n < 0) else -1)
                return I(q) if op == 'Div' else I(m - q * n)
        if op == 'Sub' and x is y: return I(0)
        if op == 'Sub' and y.op == 'int': op, y = 'Add', I(-y.args[0])
        if op == 'Add':
            if x.op == 'int': x, y = y, x
            if y.op == 'int':
                if y.args[0] == 0: return x
                if x.op == 'addc':
                    k = x.args[1] + y.args[0]
                    return T('addc', x.args[0], k) if k else x.args[0]
                return T('addc', x, y.args[0])
            if x.id > y.id: x, y = y, x
            p, q = V.count_term_segs(x), V.count_term_segs(y)
            if p is not None and q is not None: return T('total', Q(sorted(p + q, key=lambda s: s.id)))
            return T('add', x, y)
        return T(op.lower(), x, y)

    def add(self, a, b): return self.arith('Add', self.scalar(a), self.scalar(b))

    def cast(self, kind, v, ty, frm):
        if kind.startswith('IntToInt'):
            if is_bool(v): return ite(v, num(1), num(0))
            t = tyname(ty)
            if t in RANGE and v.__class__ is Node:
                lo, hi = RANGE[t]
                f = tyname(frm)
                if f in RANGE and RANGE[f][0] >= lo and RANGE[f][1] <= hi: return v
                if all(x.op == 'int' and lo <= x.args[0] <= hi for x, _ in leaves(v) if x.__class__ is Term): return v
                if t in ('i64', 'u64', 'usize', 'isize') and f in ('usize', 'u64'): return v      # lengths fit
                return apply1('cast' + t, v, lambda x: leaf(T('cast', t, x)))
            return v
        if kind.startswith(('PointerCoercion', 'PtrToPtr', 'Transmute')): return v
        if v.__class__ is Node:
            t = str(tyname(ty))
            return apply1('cast%s:%s' % (kind, t), v, lambda x: leaf(T('cast', t, x)))
        return v

    # ------------------------------------------------------------ strings
    def strlen(self, v):
        return apply1('strlen', self.scalar(v), lambda t: num(len(t.args[0].encode())) if t.op == 'str' else leaf(T('strlen', t)))

    def charlen(self, v):
        return apply1('charlen', self.scalar(v), lambda t: num(len(t.args[0])) if t.op == 'str' else leaf(T('charlen', t)))

    def scat(self, a, b):
        return apply2('cat', self.scalar(a), self.scalar(b), lambda x, y: leaf(V.cat(x, y)))

    def show(self, st, v, ty):
        """Display of a value: (state, string node)"""
        v = self.D_(st, v)
        n = tyname(ty)
        if v.__class__ is Node:
            if is_bool(v): return st, ite(v, string('true'), string('false'))
            if n in STRS: return st, v
            if n in INTS or n in ('f64', 'f32'):
                return st, apply1('show', v, lambda t: string(str(t.args[0])) if t.op == 'int' else leaf(T('show', t)))
            return st, apply1('showx', v, lambda t: leaf(t if t.op in ('text', 'str', 'cat', 'show') else I(0) and T('show', t)) if t.op != 'int' else string(str(t.args[0])))
        if v.op == 'D':
            for tr, m in (('ToString', 'to_string'), ('Display', 'fmt')):
                ids = self.e.tree.impls.get((tr, v.args[0], m))
                if not ids: continue
                if m == 'to_string': return self.e.call_fn(ids[0], [v], st)
                st = st.copy()
                root = self.e.cell(st, string(''), {'k': 'adt', 'id': 'alloc::string::String', 'args': []})
                r = self.e.call_fn(ids[0], [v, self.e.ptr(root)], st)
                if r is None: return None
                st2 = r[0].copy()
                s = st2.store.pop(root)
                return st2, s
        return st, leaf(T('show', vterm(v) if not (v.__class__ is Term and v.op == 'OP') else v.args[0]))

    def args_string(self, st, a):
        """string of a core::fmt::Arguments value"""
        a = self.D_(st, a)
        if a.__class__ is Node: return a
        if a.op == 'D' and a.args[0] == 'Arguments': return dict(a.args[1][0][2])['0']
        return leaf(T('show', a))

    # ------------------------------------------------------------ sequences
    def to_seq(self, v):
        v = force(v) if v.__class__ is Term else v
        if v.__class__ is Term and v.op == 'Q': return v
        if v.__class__ is Term and v.op == 'M': return self.sorted_of(v)
        t = v.args[0] if v.__class__ is Term and v.op == 'OP' else vterm(v)
        dom = T('elems', t)
        bv = T('bv', 1)
        return T('Q', T('comp', bv, dom, (one(TRUE, T('OP', T('at', dom, bv))),)))

    def sorted_of(self, m):
        if all(s.op == 'one' for s in m.args) and len(m.args) <= 1:
            return Q([one(s.args[0], s.args[1].args[1] if s.args[1].args[2] is UNITV else tup(s.args[1].args[1], s.args[1].args[2])) for s in m.args])
        dom = T('sorted', m)
        isset = self.is_set(m)
        bv = T('bv', 1 + m.h)
        at = T('at', dom, bv)
        el = leaf(at) if isset == 'scalar' else T('OP', at)
        ms = [s for s in m.args if s.op == 'mseg']
        if ms:
            k, v = V.mseg_types(ms[0])
            el = mk_sym(at, k) if v is None else tup(mk_sym(T('f', at, '0'), k), mk_sym(T('f', at, '1'), v))
        return T('Q', T('comp', bv, dom, (one(TRUE, el),)))

    def is_set(self, m):
        for e in self.entries(m.args):
            if e.op == 'ent' and e.args[0] == 'ins' and e.args[2] is UNITV:
                return 'scalar' if e.args[1].__class__ is Node else 'set'
            return False
        return 'set'

    def entries(self, segs):
        for s in segs:
            if s.op == 'one': yield s.args[1]
            elif s.op == 'comp': yield from self.entries(s.args[2])

    def as_iter(self, st, v):
        v = self.D_(st, v)
        if v.__class__ is not Term: return None
        if v.op == 'IT': return v
        if v.op == 'Q': return T('IT', v, ())
        if v.op == 'M': return T('IT', self.to_seq(v), ())
        if v.op == 'D':
            if v.args[0] == 'Pairs': return T('IT', dict(v.args[1][0][2])['q'], ())
            if v.args[0] == 'Option':
                g, x = self.opt_parts(st, v)
                return T('IT', Q([one(g, x)] if g is not FALSE else []), ())
            if v.args[0] in ('Range', 'RangeInclusive'):
                d = dict(v.args[1][0][2])
                return T('IT', self.range_q(d['start'], d['end'], v.args[0] == 'RangeInclusive'), ())
        return None

    def range_q(self, a, b, incl):
        if b.__class__ is Node and a.__class__ is Node and a.var is None and a.val.op == 'int':
            if b.var is None and b.val.op == 'int':
                hi = b.val.args[0] + (1 if incl else 0)
                if hi - a.val.args[0] <= 24: return Q([one(TRUE, num(k)) for k in range(a.val.args[0], hi)])
            if b.var is None and a.val.args[0] == 0 and not incl:
                t = b.val
                if t.op == 'count' and t.args[2] is TRUE:
                    bv = T('bv', 1)
                    return T('Q', T('comp', bv, t.args[1], (one(TRUE, leaf(bv)),)))
            if b.var is not None and a.val.args[0] == 0 and len(leaves(b)) <= 4:
                r = None
                for t, g in leaves(b):
                    q = self.range_q(a, leaf(t), incl)
                    r = q if r is None else mux(g, q, r)
                return r
        dom = T('range', vterm(a), vterm(b))
        bv = T('bv', 1 + max(height(a), height(b)))
        i = fresh()
        el = self.arith('Add', a, leaf(i))
        return Q(comps(dom, i, [one(TRUE, el)]))

    def length(self, v):
        v = force(v) if v.__class__ is Term else v
        if v.__class__ is Node: return self.strlen(v)
        if v.op == 'Q': return seq_len(v.args)
        if v.op == 'M': return self.setlen(v)
        return leaf(T('len', v.args[0] if v.op == 'OP' else v))

    def setlen(self, m):
        """number of distinct keys; exact when the keys come from finitely many constants"""
        ks = self.const_keys(m.args)
        if ks is not None:
            r = num(0)
            for k in sorted(ks, key=lambda t: t.id):
                p, _ = self.map_get(None, m, leaf(k))
                r = ite(p, apply1('inc', r, lambda t: num(t.args[0] + 1)), r)
            return r
        return leaf(T('setlen', m))

    def const_keys(self, segs, care=TRUE):
        out = set()
        for s in segs:
            if s.op == 'one':
                e = s.args[1]
                if e.op != 'ent' or e.args[0] != 'ins' or e.args[1].__class__ is not Node: return None
                c = And(care, s.args[0])
                for t, g in leaves(e.args[1], c):
                    if g is FALSE: continue
                    if is_const(t):
                        out.add(t)
                        continue
                    k = self.const_cells(t, g)
                    if k is None: return None
                    out |= k
            elif s.op == 'comp':
                j = fresh()
                (body,) = unbind(s, j)
                k = self.const_keys(body, care)
                if k is None: return None
                out |= k
            else: return None
            if len(out) > 8: return None
        return out

    def const_cells(self, t, g):
        """constants t can equal when g holds (None: unbounded)"""
        vs = [v for v in g.sup if v.term is t]
        if not vs: return None
        v = vs[0]
        keys, kids = expand(g, v)
        if v.kind == 'enum':
            return {S(d) for d, k in zip(v.dom, kids) if k is not FALSE}
        if v.kind == 'open' and kids[-1] is FALSE:
            return {k for k, x in zip(keys, kids) if x is not FALSE}
        return None

    def nth(self, st, q, idx):
        """(present, value) of element idx"""
        q = force(q) if q.__class__ is Term else q
        if q.__class__ is not Term or q.op != 'Q':
            if q.__class__ is Term and q.op == 'M': q = self.to_seq(q)
            else:
                t = q.args[0] if q.__class__ is Term and q.op == 'OP' else vterm(q)
                return bvar(T('in', t, vterm(idx))), T('OP', T('at', t, vterm(idx)))
        if idx.__class__ is Node and idx.var is not None:
            r = None
            for t, g in leaves(idx):
                p, v = self.nth(st, q, leaf(t))
                r = (And(g, p), v) if r is None else (Or(And(g, p), r[0]), mux(g, v, r[1]))
            return r
        if idx.__class__ is Node and idx.val.op == 'int': return self.nth_k(list(q.args), idx.val.args[0])
        if len(q.args) == 1 and q.args[0].op == 'comp' and len(q.args[0].args[2]) == 1 and q.args[0].args[2][0].op == 'one' \
                and q.args[0].args[2][0].args[0] is TRUE:
            c = q.args[0]
            (body,) = unbind_at(c, vterm(idx))
            it = vterm(idx)
            p = TRUE if it.op in ('i', 'bv') and False else V.tlt(it, bind('count', c.args[1], fresh(), TRUE))
            if it.op == 'i': p = TRUE if self.dom_of(it) is c.args[1] else p
            return p, body[0].args[1]
        t = T('at', q, vterm(idx))
        p = V.tlt(vterm(idx), vterm(seq_len(q.args))) if vterm(idx).__class__ is Term and vterm(seq_len(q.args)).__class__ is Term else bvar(T('in', q, vterm(idx)))
        return p, T('OP', t)

    def dom_of(self, i): return self.e.bdom.get(i)

    def nth_k(self, segs, k):
        if not segs: return FALSE, None
        s, rest = segs[0], segs[1:]
        if s.op == 'one':
            g, v = s.args
            if g is TRUE: return (TRUE, v) if k == 0 else self.nth_k(rest, k - 1)
            p1, v1 = (TRUE, v) if k == 0 else self.nth_k(rest, k - 1)
            p2, v2 = self.nth_k(rest, k)
            p = ite(g, p1, p2)
            if p is FALSE: return FALSE, None
            return p, mux(restrict(And(g, p1), p), v1, v2)
        if s.op == 'comp':
            body = s.args[2]
            if len(body) == 1 and body[0].op == 'one':
                j = fresh()
                ((b,),) = unbind(s, j)
                g = b.args[0]
                p1 = count_ge(s.args[1], j, g, k + 1)
                by = V.beyond(s.args[1], j, g)
                if by is not None:
                    g0, k0 = by
                    idx = I(k + k0) if g0 is TRUE else T('kth', bind('first', s.args[1], j, g0), k + k0)
                elif g is TRUE: idx = T('int', k)
                elif k == 0: idx = bind('first', s.args[1], j, g)
                else: idx = T('kth', bind('first', s.args[1], j, g), k)
                v1 = whole(s.args[1], subst(vrestrict(b.args[1], g), {j: idx}))
                if not rest: return p1, v1
                # elements after a comprehension: only by how many it yields
                p2, v2 = FALSE, None
                for m in range(k, -1, -1):
                    ex = And(count_ge(s.args[1], j, g, m), Not(count_ge(s.args[1], j, g, m + 1)))
                    p, v = self.nth_k(rest, k - m)
                    c = And(ex, p)
                    if c is FALSE: continue
                    v2 = mux(ex, v, v2) if v2 is not None else v
                    p2 = Or(p2, c)
                p = Or(p1, p2)
                return p, mux(p1, v1, v2) if v2 is not None else v1
        if s.op == 'lseg' and not rest and s.args[0].op == 'tail' and s.args[0].args[0].op == 'Q':
            q = s.args[0].args[0]
            return seq_ge(list(q.args), k + 2), T('OP', T('at', q, I(k + 1)))
        q = T('Q', *segs)
        return seq_ge(segs, k + 1), T('OP', T('at', q, I(k)))

    def nth_back(self, st, q, k):
        """k-th from the end (1 = last)"""
        q = force(q)
        if q.__class__ is Term and q.op == 'Q':
            r = self.back(list(q.args), k - 1)
            if r is not None: return r[1]
        return T('OP', T('back', vterm(q), k))

    def back(self, segs, k):
        if not segs: return FALSE, None
        s, rest = segs[-1], segs[:-1]
        if s.op == 'one':
            g, v = s.args
            if g is TRUE: return (TRUE, v) if k == 0 else self.back(rest, k - 1)
            a = (TRUE, v) if k == 0 else self.back(rest, k - 1)
            b = self.back(rest, k)
            if a is None or b is None: return None
            p = ite(g, a[0], b[0])
            return (p, mux(restrict(And(g, a[0]), p), a[1], b[1])) if p is not FALSE else (FALSE, None)
        if s.op == 'comp' and k == 0 and len(s.args[2]) == 1 and s.args[2][0].op == 'one':
            j = fresh()
            ((b,),) = unbind(s, j)
            g = b.args[0]
            p1 = count_ge(s.args[1], j, g, 1)
            v1 = subst(vrestrict(b.args[1], g), {j: bind('last', s.args[1], j, g)})
            if not rest: return p1, v1
            r = self.back(rest, 0)
            if r is None: return None
            return Or(p1, r[0]), mux(p1, v1, r[1])
        return None

    def set_nth(self, st, q, idx, fn):
        if idx.__class__ is Node and idx.var is None and idx.val.op == 'int' and all(s.op == 'one' and s.args[0] is TRUE for s in q.args):
            k = idx.val.args[0]
            if k < len(q.args): return Q([one(TRUE, fn(s.args[1])) if n == k else s for n, s in enumerate(q.args)])
        d, w = self.dense(q), self.indices(idx)
        if d is not None and w is not None:
            out = []
            for k, (g, v) in enumerate(d):
                h = And(g, w.get(k, FALSE))
                out.append(one(g, v if h is FALSE else mux(restrict(h, g), fn(v), v)))
            return Q(out)
        self.e.note('write to an element')
        return T('OP', T('havoc', q))

    def dense(self, q):
        """[(there are more than k elements, element k)] of a sequence with finitely many slots"""
        if not (q.__class__ is Term and q.op == 'Q' and all(x.op == 'one' for x in q.args)) or len(q.args) > 12: return None
        out = []
        for k in range(len(q.args)):
            p, v = self.nth_k(list(q.args), k)
            if p is FALSE: break
            out.append((p, v))
        return out

    def indices(self, n):
        """{k: condition under which the number is k}, None when it is not known to be one of finitely many"""
        if n.__class__ is not Node: return None
        out = {}
        for t, g in leaves(n):
            if not (t.__class__ is Term and t.op == 'int'): return None
            out[t.args[0]] = Or(out.get(t.args[0], FALSE), g)
        return out

    def drop_k(self, segs, k):
        """the sequence without its first k elements"""
        if k == 0: return segs
        for _ in range(k): segs = self.drop1(segs)
        return segs

    def drop1(self, segs):
        out = []
        seen = FALSE
        for n, s in enumerate(segs):
            if seen is TRUE: return out + segs[n:]
            if s.op == 'one':
                g = And(s.args[0], seen)
                if g is not FALSE: out.append(one(g, s.args[1]))
                seen = Or(seen, s.args[0])
            elif s.op == 'comp' and len(s.args[2]) == 1 and s.args[2][0].op == 'one':
                j = fresh()
                ((b,),) = unbind(s, j)
                by = V.beyond(s.args[1], j, b.args[0])
                f = T('kth', bind('first', s.args[1], j, by[0]), by[1]) if by is not None and by[0] is not TRUE else bind('first', s.args[1], j, b.args[0]) if b.args[0] is not TRUE else I(0)
                isf = And(tge(j, by[1]), Not(tge(j, by[1] + 1))) if by is not None and by[0] is TRUE else Not(tge(j, 1)) if b.args[0] is TRUE else teq(j, f)
                out += comps(s.args[1], j, [one(And(b.args[0], Or(seen, Not(isf))), b.args[1])])
                seen = Or(seen, exists(s.args[1], j, b.args[0]))
            elif s.op == 'comp':
                return [T('lseg', T('tail', T('Q', *segs)))]
            else:
                out.append(T('lseg', T('tail', T('Q', s))))
                self.e.note('tail of a complex sequence')
                seen = TRUE
        return out

    # ------------------------------------------------------------ maps
    def map_get(self, st, m, key):
        """(present, value)"""
        m = force(m) if m.__class__ is Term else m
        if m.__class__ is not Term or m.op != 'M':
            t = m.args[0] if m.__class__ is Term and m.op == 'OP' else vterm(m)
            k = vterm(self.e.deref(st, key)) if st is not None else vterm(key)
            return bvar(T('haskey', t, k)), self.map_val(m, T('val', t, k))
        if st is not None: key = self.D_(st, key)
        key = self.kdir(key)
        segs = list(m.args)
        es = list(self.entries(segs))
        if any(e.op == 'ent' and e.args[0] in ('def', 'upd') for e in es): return self.map_get_nested(m, key)
        if any(s.op not in ('one', 'comp', 'mseg') for s in segs):
            return bvar(T('haskey', m, vterm(key))), T('OP', T('val', m, vterm(key)))
        return self.lookup(segs, key)

    def kdir(self, k): return k

    def mseg_get(self, s, key):
        """(present, value) in an opaque map"""
        _, vty = V.mseg_types(s)
        g = s.args[2] if len(s.args) > 2 else TRUE
        if key.__class__ is Node:
            r = None
            for t, h in leaves(key):
                p = bvar(T('haskey', s.args[0], t))
                v = UNITV if vty is None else mk_sym(T('val', s.args[0], t), vty)
                r = (And(h, p), v) if r is None else (Or(And(h, p), r[0]), mux(h, v, r[1]))
            return And(g, r[0]), r[1]
        t = vterm(key)
        return And(g, bvar(T('haskey', s.args[0], t))), UNITV if vty is None else mk_sym(T('val', s.args[0], t), vty)

    def map_val(self, m, t):
        if m.__class__ is Term and m.op == 'S':
            ty = V.TY[m.args[1]]
            if ty.get('k') == 'adt' and len(ty.get('args', [])) > 1 and 'Map' in tname(ty): return mk_sym(t, ty['args'][1])
        return T('OP', t)

    def keyeq(self, a, b):
        if a.__class__ is Term and a.op in ('MUX', 'S'): a = force(a)
        if b.__class__ is Term and b.op in ('MUX', 'S'): b = force(b)
        return veq(a, b)

    def lookup(self, segs, key):
        pres, val = FALSE, None
        for s in segs:
            if s.op == 'one':
                e = s.args[1]
                g = And(s.args[0], self.keyeq(e.args[1], key))
                if g is FALSE: continue
                v = e.args[2] if e.args[0] == 'ins' else None
                if e.args[0] == 'rem':
                    pres = And(pres, Not(g))
                    continue
                val = v if val is None else mux(g, v, val)
                pres = Or(pres, g)
            elif s.op == 'mseg':
                g, v = self.mseg_get(s, key)
                val = v if val is None else mux(g, v, val)
                pres = Or(pres, g)
            else:
                j = fresh()
                (body,) = unbind(s, j)
                p, v = self.lookup(body, key)
                if p is FALSE: continue
                E = exists(s.args[1], j, p)
                if v is not None and j in v.bs: v = subst(vrestrict(v, p), {j: bind('last', s.args[1], j, p)})
                val = v if val is None else mux(E, v, val)
                pres = Or(pres, E)
        return pres, val

    def map_get_nested(self, m, key):
        pres = self.def_present(m.args, key)
        dflt = [e.args[2] for e in self.entries(m.args) if e.op == 'ent' and e.args[0] == 'def']
        if any(e.op == 'ent' and e.args[0] == 'ins' for e in self.entries(m.args)) or any(d is not dflt[0] for d in dflt) or not dflt:
            self.e.note('map with mixed updates')
            return bvar(T('haskey', m, vterm(key))), T('OP', T('val', m, vterm(key)))
        base = dflt[0]
        logs = {}
        for names in {e.args[2] for e in self.entries(m.args) if e.op == 'ent' and e.args[0] == 'upd'}:
            kind = next(e.args[3] for e in self.entries(m.args) if e.op == 'ent' and e.args[0] == 'upd' and e.args[2] == names)
            logs[names] = (kind, self.upd_log(m.args, key, names))
        v = base
        for s in m.args:
            if s.op == 'mseg':
                g, x = self.mseg_get(s, key)
                v = mux(g, x, v)
        for names, (kind, segs) in sorted(logs.items()):
            def add(o, kind=kind, segs=segs):
                o = force(o)
                if o.op not in ('Q', 'M'): return T('OP', T('havoc', o))
                return (Q if o.op == 'Q' else M)(list(o.args) + segs)
            v = self.e.put(None, v, tuple(('f', n) for n in names), add)
        return pres, v

    def def_present(self, segs, key):
        r = FALSE
        for s in segs:
            if s.op == 'one':
                if s.args[1].op == 'ent' and s.args[1].args[0] in ('def', 'ins'): r = Or(r, And(s.args[0], self.keyeq(s.args[1].args[1], key)))
            elif s.op == 'comp':
                j = fresh()
                (body,) = unbind(s, j)
                r = Or(r, exists(s.args[1], j, self.def_present(body, key)))
            elif s.op == 'mseg': r = Or(r, self.mseg_get(s, key)[0])
            else: r = Or(r, bvar(T('haskey', s, vterm(key))))
        return r

    def upd_log(self, segs, key, names):
        out = []
        for s in segs:
            if s.op == 'one':
                e = s.args[1]
                if e.op == 'ent' and e.args[0] == 'upd' and e.args[2] == names:
                    g = And(s.args[0], self.keyeq(e.args[1], key))
                    if g is not FALSE: out.append(one(g, e.args[4]))
            elif s.op == 'comp':
                j = fresh()
                (body,) = unbind(s, j)
                out += comps(s.args[1], j, self.upd_log(body, key, names))
            elif s.op == 'mseg': pass
            else: out.append(T('lseg', T('updlog', s, vterm(key), names)))
        return out

    def to_set(self, q):
        """set of the elements of a sequence"""
        q = force(q)
        if q.__class__ is Term and q.op == 'M': return q
        if len(q.args) == 1 and q.args[0].op == 'comp' and q.args[0].args[1].op == 'sorted':
            b = q.args[0].args[2]
            m = q.args[0].args[1].args[0]
            bv = q.args[0].args[0]
            if len(b) == 1 and b[0].op == 'one' and b[0].args[0] is TRUE and vterm(b[0].args[1]) is T('at', q.args[0].args[1], bv): return m
        return M(self.e.map_segs(q.args, lambda x: T('ent', 'ins', x, UNITV)))

    def to_map(self, st, q):
        def kv(x):
            x = self.D_(st, x)
            return T('ent', 'ins', self.e.field(x, '0'), self.e.field(x, '1'))
        return M(self.e.map_segs(q.args, kv))

    # ------------------------------------------------------------ iterators
    def it(self, st, v):
        i = self.as_iter(st, v)
        if i is None:
            x = self.D_(st, v)
            if x.__class__ is Term and x.op == 'MUX':
                return None
            return T('IT', self.to_seq(x), ())
        return i

    def consume(self, st, it, body):
        return self.e.consume(st, it, body)

    def materialise(self, st, it):
        """(state, Q) of an iterator"""
        it = self.it(st, it)
        if not it.args[1]: return st, force(it.args[0])
        st = st.copy()
        root = self.e.cell(st, EMPTYQ)
        p = self.e.ptr(root)

        def body(s, x):
            s = s.copy()
            self.e.append(s, p, [one(TRUE, x)], 'Q')
            return s, []
        end, ex = self.consume(st, it, body)
        if end is None: return None
        end = end.copy()
        q = end.store.pop(root)
        return end, q

    def ret_iter(self, st, args, stage):
        it = self.it(st, args[0])
        return st, T('IT', it.args[0], it.args[1] + (stage,))

    def after(self, st, a, rest):
        """write the rest of a consumed iterator back through its reference"""
        if a.__class__ is Term and a.op == 'P':
            st = st.copy()
            self.e.store_to(st, a, rest)
        return st

    def search(self, st, args, body, miss, hit):
        """run body over an iterator until it exits; value hit(v) or miss"""
        it = self.it(st, args[0])
        end, ex = self.consume(st, it, body)
        outs = [(s, hit(v)) for tag, s, v in ex if tag == ('found',)]
        if end is not None: outs.append((end, miss))
        r = mergev(outs)
        if r is None: return None
        s, v = r
        return self.after(s, args[0], T('IT', EMPTYQ, ()) if False else T('OP', T('rest', it))), v


def unbind_at(t, idx):
    return [subst(b, {t.args[0]: idx}) for b in t.args[2:]]


# ====================================================================== Option / Result / bool
@model('Option.map', 'Result.map')
def _map(L, st, f, a, dty, at):
    v = L.D_(st, a[0])
    if L.is_res(v):
        g, x, h, y = L.res_parts(st, v)
        return L.case(st, (g, lambda s: L.wrap(L.call1(s, a[1], [vrestrict(x, s.pc)]), ok)), (h, lambda s: (s, err(vrestrict(y, s.pc)))))
    g, x = L.opt_parts(st, v)
    return L.case(st, (g, lambda s: L.wrap(L.call1(s, a[1], [vrestrict(x, s.pc)]), some)), (Not(g), lambda s: (s, NONE)))


@model('Option.and_then', 'Result.and_then')
def _and_then(L, st, f, a, dty, at):
    v = L.D_(st, a[0])
    if L.is_res(v) or owner(f) == 'Result':
        g, x, h, y = L.res_parts(st, v)
        return L.case(st, (g, lambda s: L.call1(s, a[1], [vrestrict(x, s.pc)])), (h, lambda s: (s, err(vrestrict(y, s.pc)))))
    g, x = L.opt_parts(st, v)
    return L.case(st, (g, lambda s: L.call1(s, a[1], [vrestrict(x, s.pc)])), (Not(g), lambda s: (s, NONE)))


@model('Option.and', 'Result.and')
def _and(L, st, f, a, dty, at):
    v = L.D_(st, a[0])
    if L.is_res(v):
        g, x, h, y = L.res_parts(st, v)
        return L.case(st, (g, lambda s: (s, a[1])), (h, lambda s: (s, err(y))))
    g, x = L.opt_parts(st, v)
    return st, mux(g, L.D_(st, a[1]), NONE)


@model('Option.map_or')
def _map_or(L, st, f, a, dty, at):
    g, x = L.opt_parts(st, a[0])
    return L.case(st, (g, lambda s: L.call1(s, a[2], [vrestrict(x, s.pc)])), (Not(g), lambda s: (s, a[1])))


@model('Option.map_or_else')
def _map_or_else(L, st, f, a, dty, at):
    g, x = L.opt_parts(st, a[0])
    return L.case(st, (g, lambda s: L.call1(s, a[2], [vrestrict(x, s.pc)])), (Not(g), lambda s: L.call1(s, a[1], [])))


@model('Result.map_or')
def _rmap_or(L, st, f, a, dty, at):
    g, x, h, y = L.res_parts(st, a[0])
    return L.case(st, (g, lambda s: L.call1(s, a[2], [x])), (h, lambda s: (s, a[1])))


@model('Result.map_or_else')
def _rmap_or_else(L, st, f, a, dty, at):
    g, x, h, y = L.res_parts(st, a[0])
    return L.case(st, (g, lambda s: L.call1(s, a[2], [x])), (h, lambda s: L.call1(s, a[1], [y])))


@model('Option.is_some_and')
def _is_some_and(L, st, f, a, dty, at):
    g, x = L.opt_parts(st, a[0])
    return L.case(st, (g, lambda s: L.call1(s, a[1], [vrestrict(x, s.pc)])), (Not(g), lambda s: (s, FALSE)))


@model('Option.is_none_or')
def _is_none_or(L, st, f, a, dty, at):
    g, x = L.opt_parts(st, a[0])
    return L.case(st, (g, lambda s: L.call1(s, a[1], [vrestrict(x, s.pc)])), (Not(g), lambda s: (s, TRUE)))


@model('Result.is_ok_and')
def _is_ok_and(L, st, f, a, dty, at):
    g, x, h, y = L.res_parts(st, a[0])
    return L.case(st, (g, lambda s: L.call1(s, a[1], [x])), (h, lambda s: (s, FALSE)))


@model('Option.is_some')
def _is_some(L, st, f, a, dty, at): return st, L.opt_parts(st, a[0])[0]


@model('Option.is_none')
def _is_none(L, st, f, a, dty, at): return st, Not(L.opt_parts(st, a[0])[0])


@model('Result.is_ok')
def _is_ok(L, st, f, a, dty, at): return st, L.res_parts(st, a[0])[0]


@model('Result.is_err')
def _is_err(L, st, f, a, dty, at): return st, L.res_parts(st, a[0])[2]


@model('Option.ok_or')
def _ok_or(L, st, f, a, dty, at):
    g, x = L.opt_parts(st, a[0])
    return L.case(st, (g, lambda s: (s, ok(vrestrict(x, s.pc)))), (Not(g), lambda s: (s, err(a[1]))))


@model('Option.ok_or_else')
def _ok_or_else(L, st, f, a, dty, at):
    g, x = L.opt_parts(st, a[0])
    return L.case(st, (g, lambda s: (s, ok(vrestrict(x, s.pc)))), (Not(g), lambda s: L.wrap(L.call1(s, a[1], []), err)))


@model('Result.ok')
def _ok(L, st, f, a, dty, at):
    g, x, h, y = L.res_parts(st, a[0])
    return st, opt(g, x) if x is not None else NONE


@model('Result.err')
def _err(L, st, f, a, dty, at):
    g, x, h, y = L.res_parts(st, a[0])
    return st, opt(h, y) if y is not None else NONE


@model('Result.map_err')
def _map_err(L, st, f, a, dty, at):
    g, x, h, y = L.res_parts(st, a[0])
    return L.case(st, (g, lambda s: (s, ok(vrestrict(x, s.pc)))), (h, lambda s: L.wrap(L.call1(s, a[1], [vrestrict(y, s.pc)]), err)))


@model('Result.or_else')
def _ror_else(L, st, f, a, dty, at):
    g, x, h, y = L.res_parts(st, a[0])
    return L.case(st, (g, lambda s: (s, ok(vrestrict(x, s.pc)))), (h, lambda s: L.call1(s, a[1], [vrestrict(y, s.pc)])))


@model('Option.or')
def _or(L, st, f, a, dty, at):
    g, x = L.opt_parts(st, a[0])
    return st, mux(g, L.D_(st, a[0]), L.D_(st, a[1]))


@model('Option.or_else')
def _or_else(L, st, f, a, dty, at):
    g, x = L.opt_parts(st, a[0])
    return L.case(st, (g, lambda s: (s, some(vrestrict(x, s.pc)))), (Not(g), lambda s: L.call1(s, a[1], [])))


@model('Option.filter')
def _ofilter(L, st, f, a, dty, at):
    g, x = L.opt_parts(st, a[0])
    r = L.case(st, (g, lambda s: L.call1(s, a[1], [vrestrict(x, s.pc)])), (Not(g), lambda s: (s, FALSE)))
    if r is None: return None
    b = And(g, L.bool_(r[1]))
    return r[0], opt(b, vrestrict(x, b)) if b is not FALSE else NONE


@model('Option.flatten')
def _oflatten(L, st, f, a, dty, at):
    g, x = L.opt_parts(st, a[0])
    if g is FALSE: return st, NONE
    return st, mux(g, L.D_(st, x), NONE)


@model('Option.xor')
def _oxor(L, st, f, a, dty, at):
    g, x = L.opt_parts(st, a[0])
    h, y = L.opt_parts(st, a[1])
    return st, mux(And(g, Not(h)), L.D_(st, a[0]), mux(And(h, Not(g)), L.D_(st, a[1]), NONE))


@model('Option.zip')
def _ozip(L, st, f, a, dty, at):
    g, x = L.opt_parts(st, a[0])
    h, y = L.opt_parts(st, a[1])
    b = And(g, h)
    return st, opt(b, tup(x, y)) if b is not FALSE else NONE


def unwrap(L, st, g, x, at):
    L.e.panic(st, 'unwrap at ' + at, Not(g))
    s = st.under(g)
    return (s, vrestrict(x, s.pc)) if s.pc is not FALSE else None


@model('Option.unwrap', 'Option.expect', 'Option.unwrap_unchecked')
def _unwrap(L, st, f, a, dty, at):
    g, x = L.opt_parts(st, a[0])
    return unwrap(L, st, g, x, at)


@model('Result.unwrap', 'Result.expect')
def _runwrap(L, st, f, a, dty, at):
    g, x, h, y = L.res_parts(st, a[0])
    return unwrap(L, st, g, x, at)


@model('Result.unwrap_err', 'Result.expect_err')
def _runwrap_err(L, st, f, a, dty, at):
    g, x, h, y = L.res_parts(st, a[0])
    return unwrap(L, st, h, y, at)


@model('Option.unwrap_or')
def _unwrap_or(L, st, f, a, dty, at):
    g, x = L.opt_parts(st, a[0])
    return st, mux(g, x, L.D_(st, a[1])) if g is not FALSE else a[1]


@model('Result.unwrap_or')
def _runwrap_or(L, st, f, a, dty, at):
    g, x, h, y = L.res_parts(st, a[0])
    return st, mux(g, x, L.D_(st, a[1])) if g is not FALSE else a[1]


@model('Option.unwrap_or_else')
def _unwrap_or_else(L, st, f, a, dty, at):
    g, x = L.opt_parts(st, a[0])
    return L.case(st, (g, lambda s: (s, vrestrict(x, s.pc))), (Not(g), lambda s: L.call1(s, a[1], [])))


@model('Result.unwrap_or_else')
def _runwrap_or_else(L, st, f, a, dty, at):
    g, x, h, y = L.res_parts(st, a[0])
    return L.case(st, (g, lambda s: (s, vrestrict(x, s.pc))), (h, lambda s: L.call1(s, a[1], [vrestrict(y, s.pc)])))


@model('Option.unwrap_or_default', 'Result.unwrap_or_default')
def _unwrap_or_default(L, st, f, a, dty, at):
    g, x = (L.res_parts(st, a[0])[:2] if owner(f) == 'Result' else L.opt_parts(st, a[0]))
    return L.case(st, (g, lambda s: (s, vrestrict(x, s.pc))), (Not(g), lambda s: default(L, s, f['targs'][0], at)))


@model('Option.as_ref', 'Option.as_mut', 'Option.as_deref', 'Option.as_deref_mut', 'Option.cloned', 'Option.copied', 'Result.as_ref', 'Result.as_mut',
       'Result.as_deref', 'Option.as_slice', 'Result.cloned', 'Result.copied')
def _as_ref(L, st, f, a, dty, at):
    if f.get('name') in ('as_mut', 'as_deref_mut') and a[0].__class__ is Term and a[0].op == 'P':
        v = L.D_(st, a[0])
        if owner(f) != 'Option': return NotImplemented
        g, x = L.opt_parts(st, v)
        return st, opt(g, T('P', tuple((h, r, p + (('v', 'Some'), ('f', '0'))) for h, r, p in a[0].args[0])))
    return st, L.D_(st, a[0])


@model('Option.take')
def _take(L, st, f, a, dty, at):
    v = L.D_(st, a[0])
    st = st.copy()
    L.e.store_to(st, a[0], NONE)
    return st, v


@model('Option.replace')
def _oreplace(L, st, f, a, dty, at):
    v = L.D_(st, a[0])
    st = st.copy()
    L.e.store_to(st, a[0], some(a[1]))
    return st, v


@model('Option.insert', 'Option.get_or_insert', 'Option.get_or_insert_with')
def _oinsert(L, st, f, a, dty, at):
    p = a[0]
    if f['name'] == 'insert':
        st = st.copy()
        L.e.store_to(st, p, some(a[1]))
    else:
        g, x = L.opt_parts(st, p)
        new = (st, a[1]) if f['name'] == 'get_or_insert' else L.call1(st, a[1], [])
        if new is None: return None
        st = new[0].copy()
        L.e.store_to(st, p, some(mux(g, x, new[1]) if g is not FALSE else new[1]))
    return st, T('P', tuple((h, r, q + (('v', 'Some'), ('f', '0'))) for h, r, q in p.args[0]))


@model('bool.then')
def _then(L, st, f, a, dty, at):
    g = L.bool_(L.D_(st, a[0]))
    return L.case(st, (g, lambda s: L.wrap(L.call1(s, a[1], []), some)), (Not(g), lambda s: (s, NONE)))


@model('bool.then_some')
def _then_some(L, st, f, a, dty, at):
    g = L.bool_(L.D_(st, a[0]))
    return st, opt(g, a[1])


@model('Try.branch')
def _branch(L, st, f, a, dty, at):
    n = tyname(f['targs'][0])
    v = L.D_(st, a[0])
    if n == 'Option':
        g, x = L.opt_parts(st, v)
        return st, D('ControlFlow', [('Continue', g, {'0': x}), ('Break', Not(g), {'0': NONE})])
    if n == 'Result':
        g, x, h, y = L.res_parts(st, v)
        return st, D('ControlFlow', [('Continue', g, {'0': x}), ('Break', h, {'0': err(y) if y is not None else None})])
    return st, D('ControlFlow', [('Continue', L.alt(st, v, 'ControlFlow', 'Continue')[0], {'0': L.alt(st, v, 'ControlFlow', 'Continue')[1]}),
                                 ('Break', L.alt(st, v, 'ControlFlow', 'Break')[0], {'0': v})])


@model('FromResidual.from_residual')
def _from_residual(L, st, f, a, dty, at):
    v = L.D_(st, a[0])
    to, frm = tyname(f['targs'][0]), tyname(f['targs'][1])
    if to == frm: return st, v
    return NotImplemented


@model('Try.from_output')
def _from_output(L, st, f, a, dty, at):
    n = tyname(f['targs'][0])
    if n == 'Option': return st, some(a[0])
    if n == 'Result': return st, ok(a[0])
    return st, variant('ControlFlow', 'Continue', a[0])


@model('Option.iter', 'Option.into_iter', 'Result.iter')
def _oiter(L, st, f, a, dty, at):
    g, x = L.opt_parts(st, a[0]) if owner(f) == 'Option' else L.res_parts(st, a[0])[:2]
    return st, T('IT', Q([one(g, x)] if g is not FALSE else []), ())


# ====================================================================== identity-like
@model('Clone.clone', 'ToOwned.to_owned', 'Deref.deref', 'AsRef.as_ref', 'Borrow.borrow', 'String.as_str', 'String.as_ref', 'Vec.as_slice',
       'hint.must_use', '.must_use', 'Box.new', 'String.into_boxed_str', 'str.to_owned', 'slice.to_vec', 'Vec.into_boxed_slice', 'convert.identity',
       'str.as_ref', 'str.into_string', 'IntoIterator.into_iter', 'slice.iter', 'Iterator.by_ref', 'Vec.iter', 'Iterator.cloned', 'Iterator.copied',
       'BTreeSet.iter', 'BTreeMap.iter', 'BTreeSet.into_iter', 'BTreeMap.into_iter', 'Iterator.into_iter', 'Rc.clone', 'slice.into_vec', 'Iterator.fuse',
       'array.as_slice', 'array.iter', 'Vec.leak', 'Vec.drain', 'slice.as_ref', 'Cow.into_owned', 'String.into', 'Iterator.peekable', 'array.into_iter',
       'Pair.clone', 'Pairs.clone', 'array.each_ref', 'hint.black_box', 'black_box.black_box')
def _ident(L, st, f, a, dty, at):
    n = f.get('name') or lastseg(f['path'])
    if n == 'by_ref': return st, a[0]
    if n in ('into_iter', 'iter', 'cloned', 'copied', 'fuse', 'peekable'):
        v = a[0]
        if v.__class__ is Term and v.op == 'P':
            w = L.D_(st, v)
            # `for x in &mut iter`: the iterator itself advances
            if w.__class__ is Term and (w.op == 'IT' or (w.op == 'D' and w.args[0] == 'Pairs')) and n == 'into_iter': return st, v
            if n == 'into_iter' and w.__class__ is Term and w.op in ('Q', 'M') and f.get('targs') and f['targs'][0].get('mut'): return NotImplemented
        v = L.D_(st, v)
        if n == 'iter' and v.__class__ is Term and v.op == 'D' and v.args[0] == 'Pairs': return st, v
        i = L.as_iter(st, v)
        return st, i if i is not None and not (v.__class__ is Term and v.op == 'D' and v.args[0] == 'Pairs') else v
    if n == 'drain':
        v = L.D_(st, a[0])
        st = st.copy()
        if not (a[1].__class__ is Term and a[1].op == 'D' and a[1].args[0] == 'RangeFull'): return NotImplemented
        L.e.store_to(st, a[0], EMPTYQ)
        return st, L.as_iter(st, v)
    return st, L.D_(st, a[0])


@model('DerefMut.deref_mut', 'AsMut.as_mut', 'BorrowMut.borrow_mut', 'Vec.as_mut_slice', 'String.as_mut_str')
def _identmut(L, st, f, a, dty, at): return st, a[0]


@model('Into.into', 'From.from', 'TryInto.try_into', 'TryFrom.try_from')
def _into(L, st, f, a, dty, at):
    n = f['name']
    src, dst = (f['targs'][0], f['targs'][1]) if 'into' in n else (f['targs'][1], f['targs'][0])
    s, d = tyname(src), tyname(dst)
    v = L.D_(st, a[0])
    if s == 'bool' and d in RANGE and is_bool(v): return st, ite(v, num(1), num(0))
    if n in ('try_into', 'try_from'):
        if s in RANGE and d in RANGE and v.__class__ is Node:
            lo, hi = RANGE[d]
            g = And(Not(L.lt(v, num(lo))) if RANGE[s][0] < lo else TRUE, Not(L.lt(num(hi), v)) if RANGE[s][1] > hi else TRUE)
            return st, D('Result', [('Ok', g, {'0': v}), ('Err', Not(g), {'0': T('OP', T('tryfrom', d, vterm(v)))})])
        return NotImplemented
    if d in ('BTreeSet', 'HashSet') and v.__class__ is Term and v.op in ('Q', 'M', 'IT'):
        r = L.materialise(st, v)
        return r[0], L.to_set(r[1])
    if d in ('BTreeMap', 'HashMap') and v.__class__ is Term and v.op == 'Q': return st, L.to_map(st, v)
    if d == 'Option' and s != 'Option': return st, some(v)
    ids = L.e.tree.impls.get(('From', d, 'from'))
    if ids and s in L.e.tree.adts: return L.e.call_fn(ids[0], [v], st)
    if s == d or (s in STRS and d in STRS) or (s in INTS and d in INTS) or d in ('Box', 'Rc', 'Arc', 'Cow', 'Vec') or s in ('slice', 'array') or d == 'opaque' or s == 'opaque':
        if s == 'char' and d in STRS: return st, apply1('chs', v, lambda t: string(chr(t.args[0])) if t.op == 'char' else leaf(T('charstr', t)))
        return st, v
    return NotImplemented


@model('Default.default')
def _default(L, st, f, a, dty, at): return default(L, st, f['targs'][0], at, f)


def default(L, st, ty, at, f=None):
    n = tyname(ty)
    if n in ('String', 'str'): return st, string('')
    if n in ('Vec', 'slice', 'VecDeque'): return st, EMPTYQ
    if n in ('BTreeMap', 'BTreeSet', 'HashMap', 'HashSet'): return st, EMPTYM
    if n == 'Option': return st, NONE
    if n == 'bool': return st, FALSE
    if n in INTS: return st, num(0)
    if n == 'Range':
        r = default(L, st, strip_refs(ty)['args'][0], at)
        return st, struct('Range', start=r[1], end=r[1])
    if n == 'tuple':
        xs = []
        for t in strip_refs(ty)['args']:
            r = default(L, st, t, at)
            if r is None: return None
            st, x = r
            xs.append(x)
        return st, tup(*xs) if xs else UNITV
    if n == 'Box': return default(L, st, strip_refs(ty)['args'][0], at)
    ids = L.e.tree.impls.get(('Default', n, 'default'))
    if ids: return L.e.call_fn(ids[0], [], st)
    L.e.note('default of ' + str(n), at)
    return st, T('OP', T('default', str(n)))


# ====================================================================== comparison
@model('PartialEq.eq', 'PartialEq.ne')
def _eq(L, st, f, a, dty, at):
    x, y = L.D_(st, a[0]), L.D_(st, a[1])
    r = L.equal(st, x, y, f)
    if r is None: return NotImplemented
    return st, r if f['name'] == 'eq' else Not(r)


def equal(L, st, x, y, f=None):
    if x.__class__ is Term and x.op == 'IT': x = L.materialise(st, x)[1]
    if y.__class__ is Term and y.op == 'IT': y = L.materialise(st, y)[1]
    return veq(x, y)


Lib.equal = equal


@model('Ord.cmp', 'PartialOrd.partial_cmp')
def _cmp(L, st, f, a, dty, at):
    x, y = L.scalar(L.D_(st, a[0])), L.scalar(L.D_(st, a[1]))
    if f['name'] == 'partial_cmp' and tyname(f['targs'][0]) in ('f64', 'f32'): return NotImplemented
    lt, e = L.lt(x, y), veq(x, y)
    o = D('Ordering', [('Less', And(lt, Not(e)), {}), ('Equal', e, {}), ('Greater', And(Not(lt), Not(e)), {})])
    return st, o if f['name'] == 'cmp' else some(o)


@model('PartialOrd.lt', 'PartialOrd.le', 'PartialOrd.gt', 'PartialOrd.ge')
def _pord(L, st, f, a, dty, at):
    x, y = L.scalar(L.D_(st, a[0])), L.scalar(L.D_(st, a[1]))
    n = f['name']
    r = {'lt': lambda: L.lt(x, y), 'gt': lambda: L.lt(y, x), 'le': lambda: Not(L.lt(y, x)), 'ge': lambda: Not(L.lt(x, y))}[n]()
    return st, r


@model('Ord.max', 'Ord.min', 'cmp.max', 'cmp.min', '.max', '.min')
def _max(L, st, f, a, dty, at):
    if len(a) != 2: return NotImplemented
    n = f.get('name') or lastseg(f['path'])
    x, y = L.scalar(L.D_(st, a[0])), L.scalar(L.D_(st, a[1]))

    def mx(s, t):
        if s is t: return leaf(s)
        if s.op == 'int' and t.op == 'int': return num((max if n == 'max' else min)(s.args[0], t.args[0]))
        if s.id > t.id: s, t = t, s
        return leaf(T(n, s, t))
    return st, apply2(n, x, y, mx)


@model('Range.contains', 'RangeInclusive.contains')
def _rcontains(L, st, f, a, dty, at):
    r, x = L.D_(st, a[0]), L.scalar(L.D_(st, a[1]))
    if not (r.__class__ is Term and r.op == 'D'): return NotImplemented
    d = dict(r.args[1][0][2])
    lo, hi = L.scalar(d['start']), L.scalar(d['end'])
    up = Not(L.lt(hi, x)) if owner(f) == 'RangeInclusive' else L.lt(x, hi)
    return st, And(Not(L.lt(x, lo)), up)


@model('RangeInclusive.new')
def _rinew(L, st, f, a, dty, at): return st, struct('RangeInclusive', start=a[0], end=a[1])


# ====================================================================== integers
def inrange(n, x, y, t):
    """x + y (x - y) is a number of type t"""
    def one_(x, y):
        if y.op == 'int':
            c = -y.args[0] if 'sub' in n else y.args[0]
            lo, hi = RANGE[t]
            return Not(tge(x, hi - c + 1)) if c > 0 else tge(x, lo - c) if c < 0 else TRUE
        return Not(overflow1('Sub' if 'sub' in n else 'Add', t, x, y))
    return apply2('inrange%s%s' % (n, t), x, y, one_)


@model('.checked_abs', '.unsigned_abs', '.wrapping_abs', '.saturating_abs')
def _cabs(L, st, f, a, dty, at):
    x = L.scalar(L.D_(st, a[0]))
    t, n = tyname(f.get('implself')), lastseg(f['path'])
    if t not in RANGE: return NotImplemented
    low = apply1('low' + t, x, lambda v: teq(v, I(RANGE[t][0])))
    r = apply1('abs', x, lambda v: num(abs(v.args[0])) if v.op == 'int' else leaf(T('abs', v)))
    if n == 'unsigned_abs': return st, r
    if n == 'checked_abs': return st, opt(Not(low), r)
    return st, ite(low, num(RANGE[t][0] if n == 'wrapping_abs' else RANGE[t][1]), r)


@model('.checked_neg')
def _cneg(L, st, f, a, dty, at):
    x = L.scalar(L.D_(st, a[0]))
    t = tyname(f.get('implself'))
    if t not in RANGE: return NotImplemented
    low = apply1('low' + t, x, lambda v: teq(v, I(RANGE[t][0])))
    if RANGE[t][0] == 0: low = Not(apply1('isz', x, lambda v: teq(v, I(0))))
    return st, opt(Not(low), apply1('neg', x, lambda v: leaf(I(-v.args[0]) if v.op == 'int' else T('neg', v))))


@model('.signum')
def _signum(L, st, f, a, dty, at):
    x = L.scalar(L.D_(st, a[0]))
    if tyname(f.get('implself')) not in RANGE: return NotImplemented
    return st, ite(L.lt(x, num(0)), num(-1), ite(L.lt(num(0), x), num(1), num(0)))


@model('.is_negative', '.is_positive')
def _isneg(L, st, f, a, dty, at):
    x = L.scalar(L.D_(st, a[0]))
    if tyname(f.get('implself')) not in RANGE: return NotImplemented
    return st, L.lt(x, num(0)) if 'neg' in lastseg(f['path']) else L.lt(num(0), x)


@model('.checked_sub', '.checked_add')
def _checked(L, st, f, a, dty, at):
    x, y = L.scalar(L.D_(st, a[0])), L.scalar(L.D_(st, a[1]))
    n = lastseg(f['path'])
    t = tyname(f.get('implself'))
    if n == 'checked_sub' and t in ('usize', 'u32', 'u64'): g = Not(L.lt(x, y))
    elif n == 'checked_add' and t == 'usize': g = TRUE
    elif t in RANGE: g = inrange(n, x, y, t)
    else: return NotImplemented
    return st, opt(g, L.arith('Sub' if 'sub' in n else 'Add', x, y))


@model('.saturating_sub')
def _satsub(L, st, f, a, dty, at):
    x, y = L.scalar(L.D_(st, a[0])), L.scalar(L.D_(st, a[1]))
    if tyname(f.get('implself')) not in ('usize', 'u32', 'u64'): return NotImplemented
    return st, ite(L.lt(x, y), num(0), L.arith('Sub', x, y))


@model('.abs')
def _abs(L, st, f, a, dty, at):
    x = L.scalar(L.D_(st, a[0]))
    t = tyname(f.get('implself'))
    L.e.panic(st, 'overflow at ' + at, apply1('absov' + str(t), x, lambda v: teq(v, I(RANGE[t][0])) if t in RANGE else FALSE))
    return st, apply1('abs', x, lambda t: num(abs(t.args[0])) if t.op == 'int' else leaf(T('abs', t)))


# ====================================================================== strings
@model('String.new', 'String.with_capacity')
def _snew(L, st, f, a, dty, at): return st, string('')


@model('String.is_empty', 'str.is_empty')
def _sempty(L, st, f, a, dty, at): return st, veq(L.D_(st, a[0]), string(''))


@model('str.len', 'String.len')
def _slen(L, st, f, a, dty, at): return st, L.strlen(L.D_(st, a[0]))


@model('str.chars', 'str.bytes', 'str.char_indices')
def _chars(L, st, f, a, dty, at):
    s = L.scalar(L.D_(st, a[0]))
    n = f['name']
    r = None
    for t, g in leaves(s):
        if t.op == 'str' and n == 'chars' and len(t.args[0]) <= 12: q = Q([one(TRUE, sc(T('char', ord(c)))) for c in t.args[0]])
        else:
            dom = T(n, t)
            bv = T('bv', 1 + t.h)
            q = T('Q', T('comp', bv, dom, (one(TRUE, leaf(T('at', dom, bv)) if n != 'char_indices' else T('OP', T('at', dom, bv))),)))
        r = q if r is None else mux(g, q, r)
    return st, T('IT', r, ())


@model('str.split', 'str.lines', 'str.split_whitespace', 'str.splitn', 'str.rsplit', 'str.split_terminator')
def _split(L, st, f, a, dty, at):
    s = L.scalar(L.D_(st, a[0]))
    n = f['name']
    sep = [vterm(L.D_(st, x)) for x in a[1:]]
    sep = [S(chr(x.args[0])) if x.__class__ is Term and x.op == 'char' else x for x in sep]
    r = None
    for t, g in leaves(s):
        if t.op == 'str' and n == 'split' and sep[0].op == 'str' and sep[0].args[0]:
            q = Q([one(TRUE, string(p)) for p in t.args[0].split(sep[0].args[0])])
        else:
            dom = T(n, t, *sep)
            if n == 'split': dom = T('dom+', dom)
            bv = T('bv', 1 + dom.h)
            q = T('Q', T('comp', bv, dom, (one(TRUE, leaf(T('at', dom, bv))),)))
        r = q if r is None else mux(g, q, r)
    return st, T('IT', r, ())


@model('str.split_once', 'str.rsplit_once', 'str.strip_prefix', 'str.strip_suffix', 'str.trim', 'str.trim_start', 'str.trim_end', 'str.to_lowercase', 'str.to_uppercase',
       'str.trim_matches', 'str.trim_start_matches', 'str.trim_end_matches', 'str.replace', 'str.to_ascii_lowercase', 'str.to_ascii_uppercase',
       'str.starts_with', 'str.ends_with', 'str.contains', 'str.eq_ignore_ascii_case', 'str.find', 'str.rfind', 'str.repeat', 'str.get', 'str.is_char_boundary',
       'str.as_bytes', 'String.into_bytes', 'String.as_bytes', 'str.replacen')
def _sfun(L, st, f, a, dty, at):
    n = f['name']
    s = L.scalar(L.D_(st, a[0]))
    xs = [L.D_(st, x) for x in a[1:]]
    if any(x.__class__ is Term and x.op == 'C' for x in xs): xs = [leaf(T('closure', x)) if x.__class__ is Term else x for x in xs]
    ts = [vterm(x) for x in xs]
    ts = [S(chr(x.args[0])) if x.__class__ is Term and x.op == 'char' else x for x in ts]
    PY = {'trim': lambda s: s.strip(), 'to_lowercase': lambda s: s.lower(), 'to_uppercase': lambda s: s.upper(), 'to_ascii_lowercase': lambda s: s.lower(),
          'to_ascii_uppercase': lambda s: s.upper()}

    def fn(t):
        if t.op == 'str':
            s = t.args[0]
            if n in PY and s.isascii(): return string(PY[n](s))
            if ts and all(x.__class__ is Term and x.op == 'str' for x in ts):
                y = ts[0].args[0]
                if n == 'starts_with': return TRUE if s.startswith(y) else FALSE
                if n == 'ends_with': return TRUE if s.endswith(y) else FALSE
                if n == 'contains': return TRUE if y in s else FALSE
        x = T('str.' + n, t, *ts)
        return bvar(x) if n in ('starts_with', 'ends_with', 'contains', 'eq_ignore_ascii_case', 'is_char_boundary') else leaf(x)
    if n in ('split_once', 'rsplit_once', 'strip_prefix', 'strip_suffix', 'find', 'rfind', 'get'):
        t = T('str.' + n, vterm(s), *ts)
        if dty is not None: return st, mk_sym(t, dty)
        return NotImplemented
    return st, apply1(None, s, fn)


@model('str.parse')
def _parse(L, st, f, a, dty, at):
    n = tyname(f['targs'][0])
    s = L.scalar(L.D_(st, a[0]))
    ids = L.e.tree.impls.get(('FromStr', n, 'from_str'))
    if ids: return L.e.call_fn(ids[0], [s], st)
    if n in STRS: return st, ok(s)
    t = vterm(s)
    g = bvar(T('parses', n, t))
    v = bvar(T('parsed', n, t)) if n == 'bool' else leaf(T('parsed', n, t))
    return st, D('Result', [('Ok', g, {'0': v}), ('Err', Not(g), {'0': T('OP', T('parseerr', n, t))})])


@model('.from_str_radix')
def _from_radix(L, st, f, a, dty, at):
    n = tyname(f.get('implself')) or tyname((dty.get('args') or [None])[0] if dty else None)
    r = L.D_(st, a[1])
    if r.__class__ is not Node: return NotImplemented
    t = vterm(L.scalar(L.D_(st, a[0])))

    def fn(x):
        if x.op == 'int' and x.args[0] == 10: k, y = (n,), T('parsed', n, t)
        else: k, y = (n, x), T('parsed', n, x, t)
        g = bvar(T('parses', *k, t))
        return g, leaf(y), T('OP', T('parseerr', *k, t))
    g, v, e = FALSE, None, None
    for x, c in leaves(r):
        p, y, w = fn(x)
        g = Or(g, And(c, p))
        v = y if v is None else mux(c, y, v)
        e = w if e is None else mux(c, w, e)
    return st, D('Result', [('Ok', g, {'0': v}), ('Err', Not(g), {'0': e})])


@model('FromStr.from_str')
def _from_str(L, st, f, a, dty, at): return _parse(L, st, f, a, dty, at)


@model('ToString.to_string')
def _to_string(L, st, f, a, dty, at): return L.show(st, a[0], f['targs'][0])


@model('String.push_str', 'String.push', 'Formatter.write_str', 'Write.write_str', 'Formatter.write_char', 'Write.write_char', 'String.extend', 'Formatter.pad')
def _push_str(L, st, f, a, dty, at):
    x = L.scalar(L.D_(st, a[1]))
    x = apply1('chs', x, lambda t: string(chr(t.args[0])) if t.op == 'char' else leaf(t))
    cur = L.D_(st, a[0])
    st = st.copy()
    L.e.store_to(st, a[0], L.scat(cur, x))
    return st, UNITV if f['name'].startswith('push') else ok(UNITV)


@model('AddAssign.add_assign')
def _add_assign(L, st, f, a, dty, at):
    if tyname(f['targs'][0]) in STRS: return _push_str(L, st, dict(f, name='push_str'), a, dty, at)
    cur = L.D_(st, a[0])
    st = st.copy()
    L.e.store_to(st, a[0], L.add(cur, L.D_(st, a[1])))
    return st, UNITV


@model('Add.add')
def _addop(L, st, f, a, dty, at):
    if tyname(f['targs'][0]) in STRS: return st, L.scat(L.D_(st, a[0]), L.D_(st, a[1]))
    return st, L.add(L.D_(st, a[0]), L.D_(st, a[1]))


@model('Not.not')
def _not(L, st, f, a, dty, at): return st, Not(L.bool_(L.D_(st, a[0])))


@model('String.from', 'String.from_utf8_lossy')
def _sfrom(L, st, f, a, dty, at): return st, L.D_(st, a[0])


@model('String.clear')
def _sclear(L, st, f, a, dty, at):
    st = st.copy()
    L.e.store_to(st, a[0], string(''))
    return st, UNITV


@model('slice.join', 'Join.join', 'slice.concat', '.join', '.concat')
def _join(L, st, f, a, dty, at):
    q = L.D_(st, a[0])
    sep = L.D_(st, a[1]) if len(a) > 1 else string('')
    if q.__class__ is Term and q.op == 'Q' and all(s.op == 'one' and s.args[0] is TRUE for s in q.args):
        r = string('')
        for n, s in enumerate(q.args):
            if n: r = L.scat(r, sep)
            r = L.scat(r, L.D_(st, s.args[1]))
        return st, r
    return st, leaf(T('join', vterm(q), vterm(sep)))


# ====================================================================== formatting
@model('fmt.new_display', 'Argument.new_display')
def _newdisplay(L, st, f, a, dty, at):
    r = L.show(st, a[0], f['targs'][0])
    if r is None: return None
    return r[0], struct('FmtArg', s=r[1])


@model('Argument.new_debug', 'Argument.new_lower_hex', 'Argument.new_upper_hex')
def _newdebug(L, st, f, a, dty, at):
    return st, struct('FmtArg', s=leaf(T('debug', f['name'], vterm(L.D_(st, a[0])))))


@model('Arguments.from_str', 'Arguments.from_str_nonconst', 'Arguments.new_const')
def _argsstr(L, st, f, a, dty, at):
    v = L.D_(st, a[0])
    if v.__class__ is Term and v.op == 'Q':
        s = string('')
        for x in v.args: s = L.scat(s, x.args[1])
        v = s
    return st, D('Arguments', [('Arguments', TRUE, {'0': v})])


@model('Arguments.new', 'Arguments.new_v1')
def _argsnew(L, st, f, a, dty, at):
    b = L.D_(st, a[0])
    q = L.D_(st, a[1])
    items = [dict(s.args[1].args[1][0][2])['s'] for s in q.args]
    if b.__class__ is Node and b.var is None and b.val.op == 'bytes':
        bs = b.val.args[0]
        i, k = 0, 0
        out = string('')
        while i < len(bs):
            c = bs[i]
            if c == 0: break
            if c < 0x80:
                out = L.scat(out, string(bytes(bs[i + 1:i + 1 + c]).decode()))
                i += 1 + c
            elif c == 0x80:
                n = bs[i + 1] | bs[i + 2] << 8
                out = L.scat(out, string(bytes(bs[i + 3:i + 3 + n]).decode()))
                i += 3 + n
            elif c == 0xC0:
                out = L.scat(out, items[k])
                k += 1
                i += 1
            else:
                # options follow: flags(4) width(2) precision(2) index(2)
                i += 1
                opts = []
                for bit, n in ((1, 4), (2, 2), (4, 2), (8, 2)):
                    if c & bit:
                        opts.append((bit, tuple(bs[i:i + n])))
                        i += n
                for bit, x in opts:
                    if bit == 8: k = x[0] | x[1] << 8
                rest = tuple(o for o in opts if o[0] != 8)
                s = items[k]
                out = L.scat(out, s if not rest else leaf(T('padded', vterm(s), rest)))
                k += 1
        return st, D('Arguments', [('Arguments', TRUE, {'0': out})])
    return st, D('Arguments', [('Arguments', TRUE, {'0': leaf(T('format', vterm(b), *[vterm(x) for x in items]))})])


@model('fmt.format', '.format')
def _format(L, st, f, a, dty, at): return st, L.args_string(st, a[0])


@model('Formatter.write_fmt', 'Write.write_fmt', 'fmt.write')
def _write_fmt(L, st, f, a, dty, at):
    s = L.args_string(st, a[1])
    cur = L.D_(st, a[0])
    st = st.copy()
    L.e.store_to(st, a[0], L.scat(cur, s))
    return st, ok(UNITV)


@model('Display.fmt', 'Debug.fmt')
def _displayfmt(L, st, f, a, dty, at):
    if f['name'] == 'fmt' and V.last(f['trait']) == 'Display':
        r = L.show(st, a[0], f['targs'][0])
        if r is None: return None
        st, s = r
    else: s = leaf(T('debug', vterm(L.D_(st, a[0]))))
    cur = L.D_(st, a[1])
    st = st.copy()
    L.e.store_to(st, a[1], L.scat(cur, s))
    return st, ok(UNITV)


# ====================================================================== panics
@model('panicking.panic_fmt', 'panicking.panic', 'panicking.panic_display', 'panicking.unreachable_display', '.panic_fmt', '.panic', '.unreachable_display', '.panic_display',
       'panicking.panic_explicit', 'panicking.panic_str_2015', 'panicking.assert_failed', '.assert_failed', 'panicking.panic_nounwind', 'process.abort', 'process.exit',
       'hint.unreachable_unchecked', 'rt.panic_fmt')
def _panic(L, st, f, a, dty, at):
    L.e.panic(st, 'panic at ' + at, TRUE)
    return None


# ====================================================================== Vec / slice
@model('Vec.new', 'Vec.with_capacity', 'VecDeque.new')
def _vnew(L, st, f, a, dty, at): return st, EMPTYQ


@model('BTreeSet.new', 'BTreeMap.new', 'HashMap.new', 'HashSet.new')
def _mnew(L, st, f, a, dty, at): return st, EMPTYM


@model('Vec.push', 'VecDeque.push_back')
def _push(L, st, f, a, dty, at):
    st = st.copy()
    L.e.append(st, a[0], [one(TRUE, a[1])], 'Q')
    return st, UNITV


@model('Extend.extend', 'Vec.append', 'Vec.extend_from_slice', 'Vec.extend')
def _extend(L, st, f, a, dty, at):
    tgt = L.D_(st, a[0])
    n = f['name']
    src = a[1]
    r = L.materialise(st, L.it(st, src))
    if r is None: return None
    st, q = r
    st = st.copy()
    if tgt.__class__ is Term and tgt.op == 'M':
        isset = tyname(f['targs'][0]) if f.get('targs') else None
        m = L.to_set(q) if isset in ('BTreeSet', 'HashSet') else L.to_map(st, q)
        L.e.append(st, a[0], list(m.args), 'M')
    elif tgt.__class__ is Node: return NotImplemented
    else: L.e.append(st, a[0], list(q.args), 'Q')
    if n == 'append': L.e.store_to(st, a[1], EMPTYQ)
    return st, UNITV


@model('Vec.len', 'slice.len', 'BTreeMap.len', 'BTreeSet.len', 'ExactSizeIterator.len', 'array.len', 'VecDeque.len')
def _len(L, st, f, a, dty, at):
    v = L.D_(st, a[0])
    if v.__class__ is Term and v.op in ('IT', 'D'):
        r = L.materialise(st, v)
        return r[0], L.length(r[1])
    return st, L.length(v)


@model('Vec.is_empty', 'slice.is_empty', 'BTreeMap.is_empty', 'BTreeSet.is_empty', 'VecDeque.is_empty', 'ExactSizeIterator.is_empty')
def _isempty(L, st, f, a, dty, at):
    v = L.D_(st, a[0])
    if v.__class__ is Term and v.op in ('Q', 'M'): return st, Not(seq_ge(v.args, 1))
    return st, veq(L.length(v), num(0))


@model('slice.first', 'Vec.first', 'VecDeque.front')
def _first(L, st, f, a, dty, at):
    p, v = L.nth(st, L.D_(st, a[0]), num(0))
    return st, opt(p, v)


@model('slice.last', 'Vec.last', 'VecDeque.back')
def _last(L, st, f, a, dty, at):
    q = L.D_(st, a[0])
    if q.__class__ is Term and q.op == 'Q':
        r = L.back(list(q.args), 0)
        if r is not None: return st, opt(r[0], r[1])
        return st, opt(seq_ge(q.args, 1), T('OP', T('back', q, 0)))
    return NotImplemented


@model('slice.get', 'Vec.get')
def _get(L, st, f, a, dty, at):
    ix = L.D_(st, a[1])
    if ix.__class__ is not Node: return NotImplemented
    p, v = L.nth(st, L.D_(st, a[0]), ix)
    return st, opt(p, v)


@model('Index.index')
def _index(L, st, f, a, dty, at):
    c, ix = L.D_(st, a[0]), L.D_(st, a[1])
    n = tyname(f['targs'][0])
    if n in ('BTreeMap', 'HashMap'):
        p, v = L.map_get(st, c, ix)
        return unwrap(L, st, p, v, at)
    if n in STRS:
        if ix.__class__ is Term and ix.op == 'D' and c.__class__ is Node:
            t = T('slice', vterm(c), vterm(ix))
            L.e.panic(st, 'slice of a string at ' + at, bvar(T('fails', t)))
            return st, leaf(t)
        return NotImplemented
    if ix.__class__ is Term and ix.op == 'D' and ix.args[0] == 'RangeFull': return st, c
    if ix.__class__ is Term and ix.op == 'D' and ix.args[0] == 'RangeFrom' and c.__class__ is Term and c.op == 'Q':
        lo = L.D_(st, dict(ix.args[1][0][2])['start'])
        if lo.__class__ is Node and lo.var is None and lo.val.op == 'int' and lo.val.args[0] <= 4:
            k = lo.val.args[0]
            L.e.panic(st, 'slice at ' + at, Not(V.seq_ge(list(c.args), k)) if k else FALSE)
            q = list(c.args)
            for _ in range(k): q = L.drop1(q)
            return st, Q(q)
    if ix.__class__ is not Node: return NotImplemented
    p, v = L.nth(st, c, ix)
    if v is None:
        L.e.panic(st, 'index at ' + at, TRUE)
        return None
    return unwrap(L, st, p, v, at)


@model('Vec.remove', 'VecDeque.pop_front', 'Vec.swap_remove')
def _remove(L, st, f, a, dty, at):
    q = L.D_(st, a[0])
    n = f['name']
    ix = L.D_(st, a[1]) if len(a) > 1 else num(0)
    if not (q.__class__ is Term and q.op == 'Q' and ix.__class__ is Node): return NotImplemented
    if ix.var is not None or ix.val.op != 'int': return remove_at(L, st, a, q, ix, n, at)
    k = ix.val.args[0]
    if k == 0 and n != 'swap_remove':
        p, v = L.nth_k(list(q.args), 0)
        rest = L.drop1(list(q.args))
    elif all(s.op == 'one' for s in q.args) and n != 'swap_remove':
        # state j: how many elements came before
        cnt = [TRUE] + [FALSE] * k
        p, v, rest = FALSE, None, []
        for s in q.args:
            g = s.args[0]
            h = And(cnt[k], g)
            if h is not FALSE: v = s.args[1] if v is None else mux(h, s.args[1], v)
            p = Or(p, h)
            r = And(g, Not(h))
            if r is not FALSE: rest.append(one(r, s.args[1]))
            past = cnt[k]
            cnt = [Or(And(cnt[j], Not(g)), And(cnt[j - 1], g) if j else FALSE) for j in range(k)] + [Or(And(past, Not(g)), And(cnt[k - 1], g) if k else FALSE)]
        if v is None: rest = list(q.args)
    elif all(s.op == 'one' and s.args[0] is TRUE for s in q.args):
        if k >= len(q.args):
            p, v, rest = FALSE, None, []
        else:
            p, v = TRUE, q.args[k].args[1]
            rest = list(q.args[:k]) + list(q.args[k + 1:])
            if n == 'swap_remove' and k + 1 < len(q.args): rest = list(q.args[:k]) + [q.args[-1]] + list(q.args[k + 1:-1])
    else: return NotImplemented
    if n == 'pop_front':
        st = st.copy()
        L.e.store_to(st, a[0], Q(rest))
        return st, opt(p, v) if v is not None else NONE
    L.e.panic(st, 'remove at ' + at, Not(p))
    s = st.under(p).copy()
    if s.pc is FALSE: return None
    L.e.store_to(s, a[0], Q(restrict_segs(rest, s.pc)))
    return s, vrestrict(v, s.pc)


def remove_at(L, st, a, q, ix, n, at):
    """removal at a computed place, one of finitely many"""
    d, w = L.dense(q), L.indices(ix)
    if d is None or w is None or n != 'remove' or any(i < 0 for i in w): return NotImplemented
    bad = Or(*[And(g, Not(d[i][0] if i < len(d) else FALSE)) for i, g in w.items()])
    if And(st.pc, bad) is not FALSE: L.e.panic(st, 'remove at ' + at, bad)
    st = st.under(Not(bad)).copy()
    if st.pc is FALSE: return None
    v, out = None, []
    for i, g in w.items():
        if i < len(d) and And(g, d[i][0]) is not FALSE: v = d[i][1] if v is None else mux(g, d[i][1], v)
    for k in range(len(d)):
        # what stands at place k afterwards: the next one when the hole is at k or before it
        up = Or(*[g for i, g in w.items() if i <= k])
        nx = d[k + 1] if k + 1 < len(d) else (FALSE, None)
        g = Or(And(up, nx[0]), And(Not(up), d[k][0]))
        if g is FALSE: continue
        x = d[k][1] if nx[1] is None or And(up, nx[0]) is FALSE else mux(up, nx[1], d[k][1])
        out.append(one(g, x))
    if v is None: return None
    L.e.store_to(st, a[0], Q(restrict_segs(out, st.pc)))
    return st, vrestrict(v, st.pc)


def bounds(L, st, r, n):
    """(from, to) of a range of places in a sequence of length n"""
    r = L.D_(st, r)
    if not (r.__class__ is Term and r.op == 'D' and len(r.args[1]) == 1): return None
    d = dict(r.args[1][0][2])
    k = r.args[0]
    if k not in ('Range', 'RangeFrom', 'RangeTo', 'RangeFull', 'RangeInclusive', 'RangeToInclusive'): return None
    lo = L.scalar(L.D_(st, d['start'])) if 'start' in d else num(0)
    hi = L.scalar(L.D_(st, d['end'])) if 'end' in d else L.scalar(n)
    if 'Inclusive' in k: hi = L.add(hi, num(1))
    return lo, hi


def cut(L, st, q, lo, hi, at, what):
    """(state, before, middle, after) of a sequence cut at two places"""
    if lo is num(0) and hi is num(0): return st, [], [], list(q.args)
    n = L.length(q)
    if lo is num(0) and hi is n: return st, [], list(q.args), []
    d, u, w = L.dense(q), L.indices(lo), None
    full = hi is n
    if not full: w = L.indices(hi)
    if d is None or u is None or (w is None and not full):
        if lo.var is None and lo.val.op == 'int' and 0 <= lo.val.args[0] <= 4 and full and lo.val.args[0] == 0: return st, [], list(q.args), []
        return None
    if any(i < 0 for i in u) or w is not None and any(i < 0 for i in w): return None
    ge = lambda k: TRUE if k == 0 else d[k - 1][0] if k <= len(d) else FALSE
    bad = Or(*[And(g, Not(ge(i))) for i, g in u.items()])
    if w is not None:
        bad = Or(bad, *[And(g, Not(ge(i))) for i, g in w.items()])
        bad = Or(bad, *[And(g, h) for i, g in u.items() for j, h in w.items() if i > j])
    if And(st.pc, bad) is not FALSE: L.e.panic(st, what + ' at ' + at, bad)
    st = st.under(Not(bad)).copy()
    if st.pc is FALSE: return st, [], [], []
    a, b, c = [], [], []
    for k, (g, v) in enumerate(d):
        pre = Or(*[h for i, h in u.items() if i > k])
        post = FALSE if w is None else Or(*[h for i, h in w.items() if i <= k])
        for out, cond in ((a, pre), (b, And(Not(pre), Not(post))), (c, And(Not(pre), post))):
            x = And(g, cond)
            if x is not FALSE: out.append(one(x, v))
    r = lambda x: restrict_segs(x, st.pc)
    return st, r(a), r(b), r(c)


@model('Vec.splice', 'Vec.drain', 'VecDeque.drain', 'Vec.split_off')
def _splice(L, st, f, a, dty, at):
    q = L.D_(st, a[0])
    n = f['name']
    if not (q.__class__ is Term and q.op == 'Q'): return NotImplemented
    if n == 'split_off':
        k = L.D_(st, a[1])
        if k.__class__ is not Node: return NotImplemented
        b = (k, L.length(q))
    else: b = bounds(L, st, a[1], L.length(q))
    if b is None: return NotImplemented
    new = []
    if n == 'splice':
        r = L.materialise(st, L.it(st, a[2]))
        if r is None: return None
        st, new = r[0], list(r[1].args)
    r = cut(L, st, q, b[0], b[1], at, n)
    if r is None: return NotImplemented
    st, x, y, z = r
    if st.pc is FALSE: return None
    st = st.copy()
    L.e.store_to(st, a[0], Q(x + new + z))
    return st, Q(y) if n == 'split_off' else T('IT', Q(y), ())


@model('slice.split_at')
def _splitat(L, st, f, a, dty, at):
    q, k = L.D_(st, a[0]), L.D_(st, a[1])
    if not (q.__class__ is Term and q.op == 'Q' and k.__class__ is Node): return NotImplemented
    r = cut(L, st, q, k, L.length(q), at, 'split')
    if r is None: return NotImplemented
    st, x, y, z = r
    return (st, tup(Q(x), Q(y))) if st.pc is not FALSE else None


@model('slice.swap')
def _sswap(L, st, f, a, dty, at):
    q, i, j = L.D_(st, a[0]), L.D_(st, a[1]), L.D_(st, a[2])
    d, u, w = L.dense(q), L.indices(i), L.indices(j)
    if d is None or u is None or w is None: return NotImplemented
    bad = Or(*[And(g, Not(d[i][0] if i < len(d) else FALSE)) for x in (u, w) for i, g in x.items()])
    if And(st.pc, bad) is not FALSE: L.e.panic(st, 'swap at ' + at, bad)
    st = st.under(Not(bad)).copy()
    if st.pc is FALSE: return None
    out = []
    for k, (g, v) in enumerate(d):
        for x, y in ((u, w), (w, u)):
            if k not in x: continue
            for m, h in y.items():
                if m < len(d) and m != k and And(x[k], h) is not FALSE: v = mux(And(x[k], h), d[m][1], v)
        out.append(one(g, v))
    L.e.store_to(st, a[0], Q(restrict_segs(out, st.pc)))
    return st, UNITV


@model('slice.rotate_left', 'slice.rotate_right')
def _rotate(L, st, f, a, dty, at):
    q, k = L.D_(st, a[0]), L.D_(st, a[1])
    if not (q.__class__ is Term and q.op == 'Q' and k.__class__ is Node): return NotImplemented
    n = L.length(q)
    if f['name'] == 'rotate_right':
        k = L.arith('Sub', L.scalar(n), k)
    r = cut(L, st, q, k, n, at, 'rotate')
    if r is None: return NotImplemented
    st, x, y, z = r
    if st.pc is FALSE: return None
    st = st.copy()
    L.e.store_to(st, a[0], Q(y + x))
    return st, UNITV


@model('Vec.pop', 'VecDeque.pop_back')
def _pop(L, st, f, a, dty, at):
    q = L.D_(st, a[0])
    if not (q.__class__ is Term and q.op == 'Q'): return NotImplemented
    if all(s.op == 'one' for s in q.args):
        r = L.back(list(q.args), 0)
        rev = L.drop1(list(reversed(q.args)))
        st = st.copy()
        L.e.store_to(st, a[0], Q(list(reversed(rev))))
        return st, opt(r[0], r[1]) if r[1] is not None else NONE
    return NotImplemented


@model('Vec.insert')
def _vinsert(L, st, f, a, dty, at):
    q = L.D_(st, a[0])
    ix = L.D_(st, a[1])
    d, w = L.dense(q), L.indices(ix)
    if not (q.__class__ is Term and q.op == 'Q' and ix is num(0)) and (d is None or w is None): return NotImplemented
    if ix is num(0):
        st = st.copy()
        L.e.store_to(st, a[0], Q([one(TRUE, a[2])] + list(q.args)))
        return st, UNITV
    bad = And(st.pc, Or(*[And(g, Not(d[i - 1][0] if i <= len(d) else FALSE)) for i, g in w.items() if i > 0]))
    if bad is not FALSE: L.e.panic(st, 'insert at ' + at, bad)
    st = st.under(Not(bad)).copy()
    if st.pc is FALSE: return None
    out = []
    for k in range(len(d) + 1):
        g = TRUE if k == 0 else d[k - 1][0]
        here, before = w.get(k, FALSE), Or(*[h for i, h in w.items() if i < k])
        v = d[k][1] if k < len(d) else None
        if here is not FALSE: v = a[2] if v is None else mux(here, a[2], v)
        if before is not FALSE: v = d[k - 1][1] if v is None else mux(before, d[k - 1][1], v)
        if v is not None: out.append(one(g, v))
    L.e.store_to(st, a[0], Q(restrict_segs(out, st.pc)))
    return st, UNITV


@model('IndexMut.index_mut', 'Vec.get_mut', 'slice.get_mut', 'slice.first_mut', 'slice.last_mut', 'Vec.first_mut', 'Vec.last_mut')
def _indexmut(L, st, f, a, dty, at):
    q = L.D_(st, a[0])
    n = f['name']
    if not (q.__class__ is Term and q.op == 'Q' and a[0].__class__ is Term and a[0].op == 'P'): return NotImplemented
    if n == 'first_mut': ix = num(0)
    elif n == 'last_mut': ix = L.arith('Sub', L.scalar(L.length(q)), num(1))
    else: ix = L.D_(st, a[1])
    if ix.__class__ is not Node: return NotImplemented
    if n == 'last_mut': p = V.seq_ge(q.args, 1)
    else:
        p, v = L.nth(st, q, ix)
        if v is None: p = FALSE
    ptr = T('P', tuple((g, r, w + (('i', ix),)) for g, r, w in a[0].args[0]))
    if n != 'index_mut': return st, opt(p, ptr)
    L.e.panic(st, 'index at ' + at, Not(p))
    s = st.under(p).copy()
    return (s, ptr) if s.pc is not FALSE else None


@model('slice.iter_mut', 'Vec.iter_mut')
def _itermut(L, st, f, a, dty, at):
    q = L.D_(st, a[0])
    d = L.dense(q)
    if d is None or not (a[0].__class__ is Term and a[0].op == 'P'): return NotImplemented
    return st, T('IT', Q([one(g, T('P', tuple((h, r, w + (('i', num(k)),)) for h, r, w in a[0].args[0]))) for k, (g, v) in enumerate(d)]), ())


@model('slice.windows')
def _windows(L, st, f, a, dty, at):
    d, w = L.dense(L.D_(st, a[0])), L.indices(L.D_(st, a[1]))
    if d is None or w is None or len(w) != 1: return NotImplemented
    n = list(w)[0]
    if n == 0: return NotImplemented
    return st, T('IT', Q([one(d[k + n - 1][0], Q([one(TRUE, vrestrict(d[k + m][1], d[k + n - 1][0])) for m in range(n)])) for k in range(len(d) - n + 1)]), ())


@model('Vec.truncate')
def _truncate(L, st, f, a, dty, at):
    q = L.D_(st, a[0])
    d, w = L.dense(q), L.indices(L.D_(st, a[1]))
    st = st.copy()
    if d is None or w is None: L.e.store_to(st, a[0], L.to_seq(T('OP', T('op:truncate', vterm(q), vterm(a[1])))))
    else: L.e.store_to(st, a[0], Q([one(And(g, Or(*[h for m, h in w.items() if m > k])), v) for k, (g, v) in enumerate(d)]))
    return st, UNITV


@model('Vec.dedup')
def _dedup(L, st, f, a, dty, at):
    q = L.D_(st, a[0])
    d = L.dense(q)
    st = st.copy()
    if d is None: L.e.store_to(st, a[0], L.to_seq(T('OP', T('op:dedup', vterm(q)))))
    else: L.e.store_to(st, a[0], Q([one(And(g, Not(veq(v, d[k - 1][1])) if k else TRUE), v) for k, (g, v) in enumerate(d)]))
    return st, UNITV


@model('BTreeSet.last', 'BTreeSet.first')
def _setlast(L, st, f, a, dty, at):
    m = L.D_(st, a[0])
    if not (m.__class__ is Term and m.op == 'M' and all(s.op == 'one' and s.args[1].op == 'ent' and s.args[1].args[0] == 'ins' for s in m.args)) or len(m.args) > 6: return NotImplemented
    has, best = FALSE, None
    for s in m.args:
        x = s.args[1].args[1]
        if x.__class__ is not Node: return NotImplemented
        if best is None: has, best = s.args[0], x
        else:
            lt = L.lt(best, x) if f['name'] == 'last' else L.lt(x, best)
            best = mux(And(s.args[0], Or(Not(has), lt)), x, best)
            has = Or(has, s.args[0])
    return st, opt(has, best) if best is not None else NONE


@model('Vec.clear', 'BTreeMap.clear', 'BTreeSet.clear')
def _clear(L, st, f, a, dty, at):
    st = st.copy()
    L.e.store_to(st, a[0], EMPTYQ if owner(f) == 'Vec' else EMPTYM)
    return st, UNITV


@model('mem.take', 'mem.replace', '.take', '.replace')
def _memtake(L, st, f, a, dty, at):
    v = L.D_(st, a[0])
    n = lastseg(f['path'])
    if 'mem' not in f['path']: return NotImplemented
    st = st.copy()
    if n == 'replace': new = a[1]
    else:
        r = default(L, st, f['targs'][0], at)
        if r is None: return None
        st, new = r
        st = st.copy()
    L.e.store_to(st, a[0], new)
    return st, v


@model('mem.swap', '.swap')
def _memswap(L, st, f, a, dty, at):
    if 'mem' not in f['path']: return NotImplemented
    x, y = L.D_(st, a[0]), L.D_(st, a[1])
    st = st.copy()
    L.e.store_to(st, a[0], y)
    L.e.store_to(st, a[1], x)
    return st, UNITV


@model('mem.drop', '.drop', 'mem.forget')
def _drop(L, st, f, a, dty, at): return st, UNITV


@model('slice.contains', 'Vec.contains', 'array.contains')
def _contains(L, st, f, a, dty, at):
    q, x = L.D_(st, a[0]), L.D_(st, a[1])
    if q.__class__ is not Term or q.op != 'Q': return NotImplemented
    return st, seg_has(L, q.args, x)


def seg_has(L, segs, x):
    r = FALSE
    for s in segs:
        if s.op == 'one': r = Or(r, And(s.args[0], veq(s.args[1], x)))
        elif s.op == 'comp':
            j = fresh()
            (body,) = unbind(s, j)
            r = Or(r, exists(s.args[1], j, seg_has(L, body, x)))
        else: r = Or(r, bvar(T('has', s, vterm(x))))
    return r


@model('vec.from_elem', '.from_elem')
def _from_elem(L, st, f, a, dty, at):
    n = L.scalar(L.D_(st, a[1]))
    q = L.range_q(num(0), n, False)
    return st, Q(L.e.map_segs(q.args, lambda x: a[0]))


@model('slice.split_first', 'slice.split_last')
def _split_first(L, st, f, a, dty, at):
    q = L.D_(st, a[0])
    if f['name'] != 'split_first' or q.__class__ is not Term or q.op != 'Q': return NotImplemented
    p, v = L.nth_k(list(q.args), 0)
    return st, opt(p, tup(v, Q(L.drop1(list(q.args))))) if v is not None else NONE


@model('slice.reverse', 'slice.sort', 'slice.sort_by', 'slice.sort_by_key', 'slice.sort_unstable', 'Vec.retain')
def _vmut(L, st, f, a, dty, at):
    q = L.D_(st, a[0])
    n = f['name']
    st = st.copy()
    if n == 'retain' and q.__class__ is Term and q.op == 'Q':
        r = L.materialise(st, T('IT', q, (('filter', a[1]),)))
        if r is None: return None
        st = r[0].copy()
        L.e.store_to(st, a[0], r[1])
        return st, UNITV
    if n == 'reverse' and q.__class__ is Term and q.op == 'Q':
        L.e.store_to(st, a[0], rev(L, q))
        return st, UNITV
    dom = T('op:' + n, vterm(q), *[vterm(x) for x in a[1:]])
    L.e.store_to(st, a[0], L.to_seq(T('OP', dom)))
    return st, UNITV


def rev(L, q):
    if len(q.args) == 1 and q.args[0].op == 'comp' and q.args[0].args[1].op == 'rev':
        pass
    out = []
    for s in reversed(q.args):
        if s.op == 'one': out.append(s)
        elif s.op == 'comp' and len(s.args[2]) == 1:
            j, k = fresh(), fresh()
            (b,) = unbind(s, j)
            dom = T('rev', s.args[1])
            out += comps(dom, k, [subst(x, {j: T('mirror', dom, k)}) for x in b])
        else: return L.to_seq(T('OP', T('rev', q)))
    return Q(out)


@model('Box.new_uninit')
def _newuninit(L, st, f, a, dty, at):
    st = st.copy()
    return st, L.e.ptr(L.e.cell(st, D('partial', [('partial', TRUE, {})])))


@model('boxed.box_assume_init_into_vec_unsafe', '.box_assume_init_into_vec_unsafe')
def _intovec(L, st, f, a, dty, at):
    v = L.D_(st, a[0])
    n = 0
    while v.__class__ is Term and v.op == 'D' and n < 6:
        fs = [x for _, x in v.args[1][0][2]]
        if not fs: break
        v = L.D_(st, fs[0])
        n += 1
    if v.__class__ is Term and v.op == 'Q': return st, v
    return NotImplemented


# ====================================================================== maps
@model('BTreeMap.insert', 'HashMap.insert')
def _minsert(L, st, f, a, dty, at):
    k, v = L.D_(st, a[1]), a[2]
    p, old = L.map_get(st, L.D_(st, a[0]), k)
    st = st.copy()
    L.e.append(st, a[0], [one(TRUE, T('ent', 'ins', k, v))], 'M')
    return st, opt(p, old) if old is not None else NONE


@model('BTreeSet.insert', 'HashSet.insert')
def _sinsert(L, st, f, a, dty, at):
    k = L.D_(st, a[1])
    p, old = L.map_get(st, L.D_(st, a[0]), k)
    st = st.copy()
    L.e.append(st, a[0], [one(TRUE, T('ent', 'ins', k, UNITV))], 'M')
    return st, Not(p)


@model('BTreeMap.get', 'HashMap.get', 'BTreeSet.get', 'BTreeMap.get_key_value')
def _mget(L, st, f, a, dty, at):
    p, v = L.map_get(st, L.D_(st, a[0]), L.D_(st, a[1]))
    if owner(f) == 'BTreeSet': v = L.D_(st, a[1])
    if f['name'] == 'get_key_value': v = tup(L.D_(st, a[1]), v)
    return st, opt(p, v) if v is not None and p is not FALSE else NONE


@model('BTreeMap.get_mut', 'HashMap.get_mut')
def _mgetmut(L, st, f, a, dty, at):
    k = L.D_(st, a[1])
    p, v = L.map_get(st, L.D_(st, a[0]), k)
    return st, opt(p, T('P', tuple((g, r, q + (('k', k),)) for g, r, q in a[0].args[0]))) if p is not FALSE else NONE


@model('BTreeMap.contains_key', 'BTreeSet.contains', 'HashMap.contains_key', 'HashSet.contains')
def _mhas(L, st, f, a, dty, at): return st, L.map_get(st, L.D_(st, a[0]), L.D_(st, a[1]))[0]


@model('BTreeMap.entry', 'HashMap.entry')
def _entry(L, st, f, a, dty, at):
    k = L.D_(st, a[1])
    p, v = L.map_get(st, L.D_(st, a[0]), k)
    ent = struct('EntryRef', map=a[0], key=k)
    return st, D('Entry', [('Occupied', p, {'0': ent}), ('Vacant', Not(p), {'0': ent})])


def entparts(L, v):
    d = dict(v.args[1][0][2])['0'] if v.args[0] == 'Entry' else v
    d = dict(d.args[1][0][2])
    return d['map'], d['key']


def keyptr(m, k): return T('P', tuple((g, r, q + (('k', k),)) for g, r, q in m.args[0]))


@model('Entry.or_insert_with', 'Entry.or_default', 'Entry.or_insert')
def _or_insert(L, st, f, a, dty, at):
    m, k = entparts(L, L.D_(st, a[0]))
    n = f['name']
    if n == 'or_insert': new = a[1]
    else:
        r = L.call1(st, a[1], []) if n == 'or_insert_with' else default(L, st, f['targs'][1], at)
        if r is None: return None
        st, new = r
    st = st.copy()
    L.e.append(st, m, [one(TRUE, T('ent', 'def', k, L.D_(st, new)))], 'M')
    return st, keyptr(m, k)


@model('VacantEntry.insert', 'Entry.insert_entry')
def _vacins(L, st, f, a, dty, at):
    m, k = entparts(L, L.D_(st, a[0]))
    st = st.copy()
    L.e.append(st, m, [one(TRUE, T('ent', 'ins', k, L.D_(st, a[1])))], 'M')
    return st, keyptr(m, k)


@model('OccupiedEntry.get', 'OccupiedEntry.into_mut', 'OccupiedEntry.get_mut')
def _occget(L, st, f, a, dty, at):
    m, k = entparts(L, L.D_(st, a[0]))
    if f['name'] == 'get': return st, L.map_get(st, L.D_(st, m), k)[1]
    return st, keyptr(m, k)


@model('BTreeMap.keys', 'BTreeMap.values', 'HashMap.keys', 'BTreeMap.into_keys', 'BTreeMap.into_values', 'HashMap.values')
def _keys(L, st, f, a, dty, at):
    m = L.D_(st, a[0])
    dom = T(f['name'].replace('into_', ''), m if m.op != 'OP' else m.args[0])
    bv = T('bv', 1 + m.h)
    return st, T('IT', T('Q', T('comp', bv, dom, (one(TRUE, T('OP', T('at', dom, bv))),))), ())


@model('BTreeSet.is_subset', 'BTreeSet.is_superset', 'BTreeSet.is_disjoint')
def _subset(L, st, f, a, dty, at):
    x, y = L.D_(st, a[0]), L.D_(st, a[1])
    n = f['name']
    if n == 'is_superset': x, y, n = y, x, 'is_subset'
    if all(m.__class__ is Term and m.op == 'M' for m in (x, y)):
        if n == 'is_disjoint':
            e = meet(L, x, y)
            if e is not None: return st, Not(e)
        else:
            r = V.within(x, y)
            if r is not None: return st, r
    return st, bvar(T(n, vterm(x), vterm(y)))


# ====================================================================== iterators
STAGE = {'map': 'map', 'filter': 'filter', 'filter_map': 'filter_map', 'take_while': 'take_while', 'map_while': 'map_while',
         'inspect': 'inspect', 'flat_map': 'flat_map'}


@model(*['Iterator.' + n for n in STAGE])
def _stage(L, st, f, a, dty, at):
    it = L.it(st, a[0])
    return st, T('IT', it.args[0], it.args[1] + ((STAGE[f['name']], a[1]),))


@model('Iterator.flatten')
def _flatten(L, st, f, a, dty, at): return L.ret_iter(st, a, ('flatten',))


@model('Iterator.any', 'Iterator.all')
def _any(L, st, f, a, dty, at):
    want = f['name'] == 'any'

    def body(s, x):
        r = L.call1(s, a[1], [x])
        if r is None: return None, []
        s, b = r
        b = L.bool_(b)
        if not want: b = Not(b)
        h, n = s.under(b), s.under(Not(b))
        return (n if n.pc is not FALSE else None), ([(('found',), h, UNITV)] if h.pc is not FALSE else [])
    return L.search(st, a, body, FALSE if want else TRUE, lambda v: TRUE if want else FALSE)


@model('Iterator.find')
def _find(L, st, f, a, dty, at):
    def body(s, x):
        r = L.call1(s, a[1], [x])
        if r is None: return None, []
        s, b = r
        b = L.bool_(b)
        h, n = s.under(b), s.under(Not(b))
        return (n if n.pc is not FALSE else None), ([(('found',), h, vrestrict(x, h.pc))] if h.pc is not FALSE else [])
    return L.search(st, a, body, NONE, some)


@model('Iterator.find_map')
def _find_map(L, st, f, a, dty, at):
    def body(s, x):
        r = L.call1(s, a[1], [x])
        if r is None: return None, []
        s, o = r
        g, y = L.opt_parts(s, o)
        h, n = s.under(g), s.under(Not(g))
        return (n if n.pc is not FALSE else None), ([(('found',), h, vrestrict(y, h.pc))] if h.pc is not FALSE else [])
    return L.search(st, a, body, NONE, some)


@model('Iterator.position')
def _position(L, st, f, a, dty, at):
    st = st.copy()
    root = L.e.cell(st, num(0), {'k': 'prim', 's': 'usize'})
    p = L.e.ptr(root)

    def body(s, x):
        r = L.call1(s, a[1], [x])
        if r is None: return None, []
        s, b = r
        b = L.bool_(b)
        h, n = s.under(b), s.under(Not(b)).copy()
        c = L.e.load(s, p)
        L.e.store_to(n, p, L.add(c, num(1)))
        return (n if n.pc is not FALSE else None), ([(('found',), h, c)] if h.pc is not FALSE else [])
    return L.search(st, a, body, NONE, some)


@model('Iterator.for_each')
def _for_each(L, st, f, a, dty, at):
    it = L.it(st, a[0])

    def body(s, x):
        r = L.call1(s, a[1], [x])
        return (r[0] if r else None), []
    end, ex = L.consume(st, it, body)
    return (end, UNITV) if end is not None else None


@model('Iterator.count', 'Iterator.sum')
def _count(L, st, f, a, dty, at):
    it = L.it(st, a[0])
    if f['name'] == 'count' and not it.args[1]:
        q = force(it.args[0])
        if q.op == 'Q' and len(q.args) == 1 and q.args[0].op == 'comp' and q.args[0].args[1].op == 'chars' and len(q.args[0].args[2]) == 1:
            return st, leaf(T('charlen', q.args[0].args[1].args[0]))
        return st, L.length(q)
    if f['name'] == 'count':
        r = L.materialise(st, it)
        return r if r is None else (r[0], L.length(r[1]))
    st = st.copy()
    root = L.e.cell(st, num(0), {'k': 'prim', 's': 'usize'})
    p = L.e.ptr(root)

    def body(s, x):
        s = s.copy()
        L.e.store_to(s, p, L.add(L.e.load(s, p), num(1) if f['name'] == 'count' else L.D_(s, x)))
        return s, []
    end, ex = L.consume(st, it, body)
    if end is None: return None
    end = end.copy()
    return end, end.store.pop(root)


def split_try(L, s, r):
    """(guard continue, value, guard break, whole value on break, kind)"""
    v = L.D_(s, r)
    if v.__class__ is Term and v.op == 'D':
        k = v.args[0]
        if k == 'Result':
            g, x, h, y = L.res_parts(s, v)
            return g, x, h, err(y) if y is not None else None, 'Result'
        if k == 'Option':
            g, x = L.opt_parts(s, v)
            return g, x, Not(g), NONE, 'Option'
        if k == 'ControlFlow':
            g, x = L.alt(s, v, 'ControlFlow', 'Continue')
            h, y = L.alt(s, v, 'ControlFlow', 'Break')
            return g, x, h, variant('ControlFlow', 'Break', y) if y is not None else None, 'ControlFlow'
    return None


def rewrap(kind, v):
    if kind == 'Result': return ok(v)
    if kind == 'Option': return some(v)
    return variant('ControlFlow', 'Continue', v)


@model('Iterator.fold', 'Iterator.try_fold', 'Iterator.try_for_each')
def _fold(L, st, f, a, dty, at):
    n = f['name']
    it = L.it(st, a[0])
    st = st.copy()
    init = a[1] if n != 'try_for_each' else UNITV
    fn = a[2] if n != 'try_for_each' else a[1]
    ty = f['targs'][1] if n != 'try_for_each' else None
    root = L.e.cell(st, init, ty)
    p = L.e.ptr(root)
    kind = tyname(dty) if dty else 'Result'

    def body(s, x):
        acc = s.store[root]
        r = L.call1(s, fn, ([acc] if n != 'try_for_each' else []) + [x])
        if r is None: return None, []
        s, v = r
        if n == 'fold':
            s = s.copy()
            s.store[root] = v
            return s, []
        sp = split_try(L, s, v)
        if sp is None:
            L.e.note('try_fold over an opaque result', at)
            return s, []
        g, x, h, y, k = sp
        c = s.under(g)
        nxt = None
        if c.pc is not FALSE:
            c = c.copy()
            c.store[root] = vrestrict(x, c.pc)
            nxt = c
        b = s.under(h)
        return nxt, ([(('found',), b, vrestrict(y, b.pc))] if b.pc is not FALSE else [])
    end, ex = L.consume(st, it, body)
    outs = []
    for tag, s, v in ex:
        if tag == ('found',): outs.append((s, v))
    if end is not None: outs.append((end, end.store[root] if n == 'fold' else rewrap(kind, end.store[root])))
    r = mergev(outs)
    if r is None: return None
    s = r[0].copy()
    s.store.pop(root, None)
    if a[0].__class__ is Term and a[0].op == 'P' and n != 'fold': s = L.after(s, a[0], T('OP', T('rest', it)))
    return s, r[1]


def coll(L, st, q, ty):
    n = tyname(ty)
    if n in ('BTreeSet', 'HashSet'): return L.to_set(q)
    if n in ('BTreeMap', 'HashMap'): return L.to_map(st, q)
    if n in STRS:
        if all(s.op == 'one' and s.args[0] is TRUE for s in q.args):
            r = string('')
            for s in q.args: r = L.scat(r, apply1('chs', L.scalar(s.args[1]), lambda t: string(chr(t.args[0])) if t.op == 'char' else leaf(t)))
            return r
        if len(q.args) == 1 and q.args[0].op == 'comp' and q.args[0].args[1].op == 'chars':
            c = q.args[0]
            if len(c.args[2]) == 1 and c.args[2][0].args[0] is TRUE and vterm(c.args[2][0].args[1]) is T('at', c.args[1], c.args[0]): return leaf(c.args[1].args[0])
        return leaf(T('concat', q))
    return q


@model('Iterator.collect', 'FromIterator.from_iter')
def _collect(L, st, f, a, dty, at):
    ty = f['targs'][1] if f['name'] == 'collect' else f['targs'][0]
    n = tyname(ty)
    it = L.it(st, a[0])
    if n in ('Result', 'Option'):
        inner = strip_refs(ty)['args'][0]
        st = st.copy()
        root = L.e.cell(st, EMPTYQ)
        p = L.e.ptr(root)

        def body(s, x):
            sp = split_try(L, s, x)
            if sp is None:
                L.e.note('collect of opaque results', at)
                return s, []
            g, y, h, z, k = sp
            c = s.under(g)
            nxt = None
            if c.pc is not FALSE:
                nxt = c.copy()
                L.e.append(nxt, p, [one(TRUE, vrestrict(y, c.pc))], 'Q')
            b = s.under(h)
            return nxt, ([(('found',), b, vrestrict(z, b.pc))] if b.pc is not FALSE else [])
        end, ex = L.consume(st, it, body)
        outs = [(s, v) for tag, s, v in ex if tag == ('found',)]
        if end is not None: outs.append((end, rewrap(n, coll(L, end, force(end.store[root]), inner))))
        r = mergev(outs)
        if r is None: return None
        s = r[0].copy()
        s.store.pop(root, None)
        return s, r[1]
    r = L.materialise(st, it)
    if r is None: return None
    return r[0], coll(L, r[0], force(r[1]), ty)


@model('Iterator.partition')
def _partition(L, st, f, a, dty, at):
    it = L.it(st, a[0])
    st = st.copy()
    r1, r2 = L.e.cell(st, EMPTYQ), L.e.cell(st, EMPTYQ)
    p1, p2 = L.e.ptr(r1), L.e.ptr(r2)

    def body(s, x):
        r = L.call1(s, a[1], [x])
        if r is None: return None, []
        s, b = r
        b = L.bool_(b)
        s = s.copy()
        L.e.append(s, p1, [one(b, vrestrict(x, b))] if b is not FALSE else [], 'Q')
        L.e.append(s, p2, [one(Not(b), x)] if b is not TRUE else [], 'Q')
        return s, []
    end, ex = L.consume(st, it, body)
    if end is None: return None
    end = end.copy()
    return end, tup(end.store.pop(r1), end.store.pop(r2))


@model('Iterator.last')
def _ilast(L, st, f, a, dty, at):
    r = L.materialise(st, a[0])
    if r is None: return None
    st, q = r
    b = L.back(list(force(q).args), 0)
    if b is None: return NotImplemented
    return st, opt(b[0], b[1]) if b[1] is not None else NONE


@model('Iterator.next')
def _next(L, st, f, a, dty, at):
    r = L.materialise(st, L.it(st, a[0]))
    if r is None: return None
    st, q = r
    q = force(q)
    p, v = L.nth_k(list(restrict_segs(q.args, st.pc)), 0)
    st = st.copy()
    if a[0].__class__ is Term and a[0].op == 'P':
        L.e.store_to(st, a[0], T('IT', Q(L.drop1(list(restrict_segs(q.args, st.pc)))), ()))
    return st, opt(p, v) if v is not None else NONE


@model('Iterator.nth')
def _inth(L, st, f, a, dty, at):
    r = L.materialise(st, L.it(st, a[0]))
    if r is None: return None
    st, q = r
    ix = L.D_(st, a[1])
    p, v = L.nth(st, q, ix)
    st = L.after(st, a[0], T('OP', T('rest', vterm(q), vterm(ix))))
    return st, opt(p, v) if v is not None else NONE


@model('Peekable.peek')
def _peek(L, st, f, a, dty, at):
    r = L.materialise(st, L.it(st, a[0]))
    if r is None: return None
    st, q = r
    p, v = L.nth_k(list(restrict_segs(force(q).args, st.pc)), 0)
    return st, opt(p, v) if v is not None else NONE


@model('Iterator.skip', 'Iterator.take', 'Iterator.enumerate', 'Iterator.zip', 'Iterator.chain', 'Iterator.rev', 'Iterator.step_by', 'DoubleEndedIterator.rev', 'Iterator.skip_while')
def _qlevel(L, st, f, a, dty, at):
    r = L.materialise(st, a[0])
    if r is None: return None
    st, q = r
    q = force(q)
    n = f['name']
    segs = list(q.args)
    if n == 'rev': return st, T('IT', rev(L, q), ())
    if n == 'chain':
        r = L.materialise(st, L.it(st, a[1]))
        if r is None: return None
        return r[0], T('IT', Q(segs + list(force(r[1]).args)), ())
    if n == 'zip':
        r = L.materialise(st, L.it(st, a[1]))
        if r is None: return None
        return r[0], T('IT', zipq(L, q, force(r[1])), ())
    if n == 'enumerate': return st, T('IT', enum_q(L, segs), ())
    k = L.D_(st, a[1])
    if n == 'skip' and k.__class__ is Node and k.var is None and k.val.op == 'int' and k.val.args[0] <= 4:
        return st, T('IT', Q(L.drop_k(segs, k.val.args[0])), ())
    if n == 'take' and k.__class__ is Node and k.var is None and k.val.op == 'int' and k.val.args[0] <= 4:
        out = []
        for m in range(k.val.args[0]):
            p, v = L.nth_k(segs, m)
            if p is not FALSE: out.append(one(p, v))
        return st, T('IT', Q(out), ())
    if n == 'skip' and len(segs) == 1 and segs[0].op == 'comp' and len(segs[0].args[2]) == 1 and segs[0].args[2][0].args[0] is TRUE and k.__class__ is Node and k.var is None:
        j = fresh()
        ((b,),) = unbind(segs[0], j)
        return st, T('IT', Q(comps(segs[0].args[1], j, [one(Not(V.tlt(j, k.val)), b.args[1])])), ())
    dom = T('op:' + n, q, vterm(k))
    bv = T('bv', 1 + dom.h)
    return st, T('IT', T('Q', T('comp', bv, dom, (one(TRUE, T('OP', T('at', dom, bv))),))), ())


def single(q):
    if len(q.args) == 1 and q.args[0].op == 'comp' and len(q.args[0].args[2]) == 1 and q.args[0].args[2][0].op == 'one' and q.args[0].args[2][0].args[0] is TRUE:
        return q.args[0]
    return None


def zipq(L, x, y):
    if all(s.op == 'one' and s.args[0] is TRUE for s in x.args + y.args):
        return Q([one(TRUE, tup(s.args[1], t.args[1])) for s, t in zip(x.args, y.args)])
    a, b = single(x), single(y)
    if a is not None and b is not None:
        dom = a.args[1] if a.args[1] is b.args[1] else T('zip', a.args[1], b.args[1])
        j = fresh()
        ((s,),), ((t,),) = unbind(a, j), unbind(b, j)
        return Q(comps(dom, j, [one(TRUE, tup(s.args[1], t.args[1]))]))
    dom = T('zip', x, y)
    bv = T('bv', 1 + dom.h)
    at = T('at', dom, bv)
    return T('Q', T('comp', bv, dom, (one(TRUE, tup(T('OP', T('f', at, '0')), T('OP', T('f', at, '1')))),)))


def enum_q(L, segs):
    out = []
    pos = num(0)
    for s in segs:
        if s.op == 'one':
            out.append(one(s.args[0], tup(pos, s.args[1])))
            pos = ite(s.args[0], L.add(pos, num(1)), pos)
        elif s.op == 'comp' and len(s.args[2]) == 1 and s.args[2][0].op == 'one':
            j = fresh()
            ((b,),) = unbind(s, j)
            g = b.args[0]
            if g is TRUE: before = leaf(j)
            else:
                k = fresh()
                before = leaf_count(T('prefix', s.args[1], j), k, subst(g, {j: k}))
            out += comps(s.args[1], j, [one(g, tup(L.add(pos, before), b.args[1]))])
            pos = L.add(pos, leaf_count(s.args[1], j, g))
        else:
            L.e.note('enumerate of a complex sequence')
            dom = T('enum', T('Q', *segs))
            bv = T('bv', 1 + dom.h)
            return T('Q', T('comp', bv, dom, (one(TRUE, tup(leaf(bv), T('OP', T('at', dom, bv)))),)))
    return Q(out)


@model('Iterator.max', 'Iterator.min', 'Iterator.max_by_key', 'Iterator.min_by_key', 'Iterator.max_by', 'Iterator.min_by', 'Iterator.eq', 'Iterator.ne', 'Iterator.product', 'Iterator.cmp')
def _opaque_it(L, st, f, a, dty, at):
    vals = []
    for x in a:
        i = L.as_iter(st, x)
        if i is not None:
            r = L.materialise(st, i)
            if r is None: return None
            st, q = r
            vals.append(q)
        else: vals.append(L.D_(st, x))
    if f['name'] in ('eq', 'ne'):
        e = veq(vals[0], vals[1])
        return st, e if f['name'] == 'eq' else Not(e)
    return st, mk_sym(T('it.' + f['name'], *[vterm(v) for v in vals]), dty)


@model('iter.once', '.once', 'iter.empty', '.empty')
def _once(L, st, f, a, dty, at): return st, T('IT', Q([one(TRUE, a[0])] if a else []), ())


@model('Fn.call', 'FnMut.call_mut', 'FnOnce.call_once')
def _fncall(L, st, f, a, dty, at):
    return L.e.call_value(st, L.e.deref(st, a[0]), L.e.spread(st, a[1:]), dty)


@model('Hash.hash')
def _hash(L, st, f, a, dty, at): return st, UNITV


# ====================================================================== pest
@model('Pair.as_rule', 'Pair.as_span', 'Pair.as_str', 'Pair.into_inner', 'Pairs.as_str', 'Pairs.peek', 'Pair.get_input', 'Pairs.single', 'Pair.line_col', 'Pair.tokens', 'Pair.as_node_tag',
       'Span.start', 'Span.end', 'Span.as_str', 'Span.new', 'Span.get_input', 'Error.new_from_span', 'Error.new_from_pos', 'Pairs.len', 'Span.start_pos', 'Span.end_pos', 'Span.split',
       'Position.pos', 'Pairs.get_input', 'Pairs.find_first_tagged', 'Pair.into_span')
def _pest(L, st, f, a, dty, at):
    r = PEST.call(L, st, owner(f) + '.' + f['name'], [L.D_(st, x) if not (x.__class__ is Term and x.op == 'P' and f['name'] == 'next') else x for x in a], at)
    return r


def meet(L, x, y):
    """two sets share an element"""
    import stdlib2
    if not (stdlib2.plain(x.args) and (stdlib2.plain(y.args) or y.args and all(s.op == 'mseg' for s in y.args))): return None
    def some_in(segs):
        r = FALSE
        for s in segs:
            if s.op == 'one': h = And(s.args[0], L.map_get(None, y, s.args[1].args[1])[0])
            else:
                j = fresh()
                (body,) = unbind(s, j)
                h = exists(s.args[1], j, some_in(body))
            r = Or(r, h)
        return r
    return some_in(x.args)
