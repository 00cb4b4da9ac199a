"""Models of less common library functions: set algebra, removal, in-place string edits, characters, slices of slices."""
import val as V
from val import *
from dd import *
from engine import merge, mergev
from stdlib import M_, RANGE, model, lastseg, owner, tyname, rev


# ====================================================================== sets and maps
def plain(segs): return all(s.op == 'one' and s.args[1].op == 'ent' and s.args[1].args[0] == 'ins' or s.op == 'comp' and plain(s.args[2]) for s in segs)


def select(segs, keep):
    """the entries whose (key, value) satisfies a condition"""
    out = []
    for s in segs:
        if s.op == 'one':
            g = And(s.args[0], keep(s.args[1].args[1], s.args[1].args[2]))
            if g is not FALSE: out.append(one(g, s.args[1]))
        else:
            j = fresh()
            (body,) = unbind(s, j)
            b = select(body, keep)
            if b: out += comps(s.args[1], j, b)
    return out


def isset(m): return m.__class__ is Term and m.op == 'M' and plain(m.args)


def has(L, m, k): return L.map_get(None, m, k)[0]


@model('BTreeSet.difference', 'BTreeSet.intersection', 'BTreeSet.union', 'BTreeSet.symmetric_difference')
def _setop(L, st, f, a, dty, at):
    x, y = L.D_(st, a[0]), L.D_(st, a[1])
    n = f['name']
    if not isset(x) or not isset(y) and (n not in ('difference', 'intersection') or not (y.__class__ is Term and y.op in ('M', 'OP'))): return NotImplemented
    xs = select(x.args, lambda k, v: TRUE if n == 'union' else has(L, y, k) if n == 'intersection' else Not(has(L, y, k)))
    ys = [] if n in ('difference', 'intersection') else select(y.args, lambda k, v: TRUE if n == 'union' else Not(has(L, x, k)))
    return st, T('IT', L.sorted_of(M(xs + ys)), ())


@model('BTreeSet.remove', 'BTreeMap.remove', 'BTreeSet.take')
def _mremove(L, st, f, a, dty, at):
    m, k = L.D_(st, a[0]), L.D_(st, a[1])
    if not isset(m): return NotImplemented
    p, old = L.map_get(st, m, k)
    st = st.copy()
    L.e.store_to(st, a[0], M(select(m.args, lambda x, v: Not(L.keyeq(x, k)))))
    if owner(f) == 'BTreeSet' and f['name'] == 'remove': return st, p
    return st, opt(p, old if owner(f) == 'BTreeMap' else k) if old is not None else NONE


@model('BTreeSet.retain', 'BTreeMap.retain')
def _mretain(L, st, f, a, dty, at):
    m = L.D_(st, a[0])
    if not isset(m): return NotImplemented
    bad = []

    def keep(k, v):
        r = L.call1(st, a[1], [k] if owner(f) == 'BTreeSet' else [k, v])
        if r is None or r[0].store is not st.store and dict(r[0].store) != dict(st.store):
            bad.append(k)
            return TRUE
        return L.bool_(r[1])
    segs = select(m.args, keep)
    if bad: return NotImplemented
    st = st.copy()
    L.e.store_to(st, a[0], M(segs))
    return st, UNITV


@model('Entry.and_modify')
def _and_modify(L, st, f, a, dty, at):
    from stdlib import entparts, keyptr
    e = L.D_(st, a[0])
    if not (e.__class__ is Term and e.op == 'D' and e.args[0] == 'Entry'): return NotImplemented
    p = next((g for n, g, _ in e.args[1] if n == 'Occupied'), FALSE)
    m, k = entparts(L, e)
    outs = []
    h = st.under(p)
    if h.pc is not FALSE:
        r = L.call1(h, a[1], [keyptr(m, k)])
        if r is not None: outs.append((r[0], a[0]))
    n = st.under(Not(p))
    if n.pc is not FALSE: outs.append((n, a[0]))
    return mergev(outs)


@model('Entry.key')
def _entkey(L, st, f, a, dty, at):
    from stdlib import entparts
    return st, entparts(L, L.D_(st, a[0]))[1]


# ====================================================================== strings in place
@model('String.truncate', 'String.insert_str', 'String.insert', 'String.retain', 'str.make_ascii_lowercase', 'str.make_ascii_uppercase',
       'String.make_ascii_lowercase', 'String.make_ascii_uppercase', 'String.replace_range', 'String.remove', 'String.drain', 'String.pop')
def _smut(L, st, f, a, dty, at):
    n = f['name']
    s = L.scalar(L.D_(st, a[0]))
    if not (a[0].__class__ is Term and a[0].op == 'P'): return NotImplemented
    xs = [L.D_(st, x) for x in a[1:]]
    ts = [T('closure', x) if x.__class__ is Term and x.op == 'C' else vterm(x) for x in xs]
    if n in ('insert', 'insert_str') and xs[0] is num(0):
        x = apply1('chs', L.scalar(xs[1]), lambda t: string(chr(t.args[0])) if t.op == 'char' else leaf(t))
        st = st.copy()
        L.e.store_to(st, a[0], L.scat(x, s))
        return st, UNITV
    if n.startswith('make_ascii'):
        new = apply1(None, s, lambda t: string(t.args[0].lower() if n.endswith('lowercase') else t.args[0].upper()) if t.op == 'str' and t.args[0].isascii()
                     else leaf(T('str.to_ascii_' + n[11:], t)))
    else: new = apply1(None, s, lambda t: leaf(T('str.' + n, t, *ts)))
    if n in ('truncate', 'insert', 'insert_str', 'remove', 'replace_range', 'drain'):
        L.e.panic(st, 'unproved %s at %s' % (n, at), bvar(T('fails', T('str.' + n, vterm(s), *ts))))
    st = st.copy()
    L.e.store_to(st, a[0], new)
    if n in ('remove', 'drain'): return st, mk_sym(T('str.%s.out' % n, vterm(s), *ts), dty)
    if n == 'pop': return st, opt(Not(veq(s, string(''))), leaf(T('lastchar', vterm(s))))
    return st, UNITV


@model('str.split_at')
def _ssplit(L, st, f, a, dty, at):
    s, k = L.scalar(L.D_(st, a[0])), vterm(L.D_(st, a[1]))
    L.e.panic(st, 'unproved split_at at ' + at, bvar(T('fails', T('str.split_at', vterm(s), k))))
    return st, tup(leaf(T('str.before', vterm(s), k)), leaf(T('str.after', vterm(s), k)))


@model('str.matches', 'str.rsplitn', 'str.split_inclusive', 'str.split_ascii_whitespace', 'str.match_indices')
def _smatches(L, st, f, a, dty, at):
    s = L.scalar(L.D_(st, a[0]))
    dom = T(f['name'], vterm(s), *[T('closure', x) if x.__class__ is Term and x.op == 'C' else vterm(x) for x in (L.D_(st, y) for y in a[1:])])
    bv = T('bv', 1 + dom.h)
    at_ = T('at', dom, bv)
    return st, T('IT', T('Q', T('comp', bv, dom, (one(TRUE, leaf(at_) if f['name'] != 'match_indices' else T('OP', at_)),))), ())


CHARP = {'is_ascii_digit': str.isdigit, 'is_numeric': str.isdigit, 'is_alphabetic': str.isalpha, 'is_ascii_alphabetic': str.isalpha, 'is_alphanumeric': str.isalnum,
         'is_ascii_alphanumeric': str.isalnum, 'is_whitespace': str.isspace, 'is_ascii_whitespace': None, 'is_uppercase': str.isupper, 'is_ascii_uppercase': str.isupper,
         'is_lowercase': str.islower, 'is_ascii_lowercase': str.islower, 'is_control': None, 'is_ascii_control': None, 'is_ascii_punctuation': None, 'is_ascii_hexdigit': None,
         'is_ascii': str.isascii, 'is_ascii_graphic': None}


@model(*['%s.%s' % (o, n) for o in ('char', 'u8', 'methods', '') for n in CHARP])
def _charp(L, st, f, a, dty, at):
    n = lastseg(f['path'])
    x = L.scalar(L.D_(st, a[0]))

    def fn(t):
        if t.op == 'char' and t.args[0] < 128 and CHARP[n]: return TRUE if CHARP[n](chr(t.args[0])) else FALSE
        return bvar(T('char.' + n, t))
    return st, apply1('char' + n, x, fn)


# ====================================================================== numbers
@model('Ord.clamp', '.clamp')
def _clamp(L, st, f, a, dty, at):
    x, lo, hi = [L.scalar(L.D_(st, y)) for y in a]
    t = ite(L.lt(x, lo), lo, ite(L.lt(hi, x), hi, x))
    L.e.panic(st, 'clamp at ' + at, L.lt(hi, lo))
    return st, t


@model('.saturating_add', '.wrapping_add', '.wrapping_sub')
def _satadd(L, st, f, a, dty, at):
    x, y = L.scalar(L.D_(st, a[0])), L.scalar(L.D_(st, a[1]))
    n = lastseg(f['path'])
    t = tyname(f.get('implself'))
    if t not in RANGE: return NotImplemented
    o = L.overflow('Sub' if 'sub' in n else 'Add', x, y, t)
    r = L.arith('Sub' if 'sub' in n else 'Add', x, y)
    if o is FALSE: return st, r
    if o is TRUE and n != 'saturating_add': return NotImplemented
    return st, ite(o, num(RANGE[t][1]) if n == 'saturating_add' and RANGE[t][0] == 0 else leaf(T('int.' + n, vterm(x), vterm(y))), r)


# ====================================================================== sequences
@model('Vec.dedup_by', 'Vec.dedup_by_key')
def _dedup_by(L, st, f, a, dty, at):
    d = L.dense(L.D_(st, a[0]))
    if d is None: return NotImplemented
    out, last = [], None
    for g, v in d:
        if last is None: out.append(one(g, v))
        else:
            s = st.under(g)
            if s.pc is FALSE: break
            if f['name'] == 'dedup_by': r = L.call1(s, a[1], [v, last])
            else:
                r = L.call1(s, a[1], [v])
                q = L.call1(s, a[1], [last])
                if r is None or q is None: return NotImplemented
                r = (r[0], veq(L.D_(s, r[1]), L.D_(s, q[1])))
            if r is None: return NotImplemented
            keep = And(g, Not(L.bool_(r[1])))
            out.append(one(keep, v))
            v = mux(keep, v, last)
        last = v
    st = st.copy()
    L.e.store_to(st, a[0], Q([s for s in out if s.args[0] is not FALSE]))
    return st, UNITV


@model('slice.chunks', 'slice.chunks_exact')
def _chunks(L, st, f, a, dty, at):
    d, w = L.dense(L.D_(st, a[0])), L.indices(L.D_(st, a[1]))
    if d is None or w is None or len(w) != 1: return NotImplemented
    n = list(w)[0]
    if n == 0: return NotImplemented
    out = []
    for k in range(0, len(d), n):
        part = d[k:k + n]
        if f['name'] == 'chunks_exact' and len(part) < n: break
        g = part[0][0] if f['name'] == 'chunks' else part[-1][0]
        if g is FALSE: break
        out.append(one(g, Q([one(restrict(h, g), vrestrict(v, g)) for h, v in part])))
    return st, T('IT', Q(out), ())


@model('slice.starts_with', 'slice.ends_with')
def _qstarts(L, st, f, a, dty, at):
    x, y = L.dense(L.D_(st, a[0])), L.dense(L.D_(st, a[1]))
    if x is None or y is None or f['name'] != 'starts_with': return NotImplemented
    return st, And(*[Or(Not(g), And(x[k][0], veq(x[k][1], v)) if k < len(x) else FALSE) for k, (g, v) in enumerate(y)])


@model('Iterator.rposition', 'DoubleEndedIterator.rposition')
def _rposition(L, st, f, a, dty, at):
    r = L.materialise(st, a[0])
    if r is None: return None
    st, q = r
    n = L.length(force(q))
    r = M_['Iterator.position'](L, st, dict(f, name='position'), [T('IT', rev(L, force(q)), ()), a[1]], dty, at)
    if r is None or r is NotImplemented: return r
    st, o = r
    g, i = L.opt_parts(st, o)
    return st, opt(g, L.arith('Sub', L.arith('Sub', L.scalar(n), num(1)), L.scalar(i))) if i is not None else NONE


@model('DoubleEndedIterator.rfind', 'Iterator.rfind', 'DoubleEndedIterator.rfold', 'DoubleEndedIterator.try_rfold')
def _rfind(L, st, f, a, dty, at):
    r = L.materialise(st, a[0])
    if r is None: return None
    st, q = r
    n = f['name'].replace('rf', 'f')
    return M_['Iterator.' + n](L, st, dict(f, name=n), [T('IT', rev(L, force(q)), ())] + list(a[1:]), dty, at)


@model('DoubleEndedIterator.next_back')
def _next_back(L, st, f, a, dty, at):
    r = L.materialise(st, L.it(st, a[0]))
    if r is None: return None
    st, q = r
    q = rev(L, force(q))
    p, v = L.nth_k(list(restrict_segs(q.args, st.pc)), 0)
    st = st.copy()
    if a[0].__class__ is Term and a[0].op == 'P':
        L.e.store_to(st, a[0], T('IT', rev(L, Q(L.drop1(list(restrict_segs(q.args, st.pc))))), ()))
    return st, opt(p, v) if v is not None else NONE


@model('Iterator.reduce')
def _reduce(L, st, f, a, dty, at):
    r = L.materialise(st, a[0])
    if r is None: return None
    st, q = r
    d = L.dense(force(q))
    if d is None: return NotImplemented
    if not d: return st, NONE
    acc = d[0][1]
    for g, v in d[1:]:
        s = st.under(g)
        if s.pc is FALSE: break
        r = L.call1(s, a[1], [acc, v])
        if r is None: return NotImplemented
        acc = mux(g, r[1], acc)
    return st, opt(d[0][0], acc)


@model('Iterator.unzip')
def _unzip(L, st, f, a, dty, at):
    r = L.materialise(st, a[0])
    if r is None: return None
    st, q = r
    q = force(q)
    if tyname(f['targs'][-1]) != 'Vec' or tyname(f['targs'][-2]) != 'Vec': return NotImplemented
    return st, tup(*[Q(L.e.map_segs(q.args, lambda x: L.e.field(L.D_(st, x), n))) for n in '01'])


@model('Option.inspect', 'Result.inspect')
def _inspect(L, st, f, a, dty, at): return st, a[0]


for _n in ('sort_unstable_by', 'sort_unstable_by_key', 'sort_by_cached_key'): M_['slice.' + _n] = M_['slice.sort_by']


# ====================================================================== spelled-out variants of functions that are opaque for lists of any length
def dense_first(name, fn):
    old = M_[name]

    def g(L, st, f, a, dty, at):
        r = L.materialise(st, a[0]) if a and L.as_iter(st, a[0]) is not None else None
        d = L.dense(force(r[1])) if r is not None else None
        if d is not None:
            x = fn(L, r[0], f, d, a[1:], at)
            if x is not None: return x
        return old(L, st, f, a, dty, at)
    M_[name] = g


def _dtake(L, st, f, d, a, at):
    w = L.indices(L.D_(st, a[0]))
    if w is None: return None
    if f['name'] == 'take': return st, T('IT', Q([one(And(g, Or(*[h for m, h in w.items() if m > k])), v) for k, (g, v) in enumerate(d)]), ())
    return st, T('IT', Q([one(And(g, Or(*[h for m, h in w.items() if m <= k])), v) for k, (g, v) in enumerate(d)]), ())


def _dskip_while(L, st, f, d, a, at):
    out, skipping = [], TRUE
    for g, v in d:
        s = st.under(And(g, skipping))
        if s.pc is not FALSE:
            r = L.call1(s, a[0], [v])
            if r is None: return None
            skipping = And(skipping, Or(Not(g), L.bool_(r[1])))
        out.append(one(And(g, Not(skipping)), v))
    return st, T('IT', Q([s for s in out if s.args[0] is not FALSE]), ())


def _dstep(L, st, f, d, a, at):
    w = L.indices(L.D_(st, a[0]))
    if w is None or len(w) != 1 or 0 in w: return None
    return st, T('IT', Q([one(g, v) for g, v in d[::list(w)[0]]]), ())


def _dmax(L, st, f, d, a, at):
    if not d: return st, NONE
    if any(v.__class__ is not Node or is_bool(v) for _, v in d): return None
    acc = d[0][1]
    for g, v in d[1:]: acc = ite(And(g, Not(L.lt(v, acc)) if f['name'] == 'max' else L.lt(v, acc)), v, acc)
    return st, opt(d[0][0], acc)


for _n, _f in (('take', _dtake), ('skip', _dtake), ('skip_while', _dskip_while), ('step_by', _dstep), ('max', _dmax), ('min', _dmax)): dense_first('Iterator.' + _n, _f)


@model('Option.transpose')
def _otranspose(L, st, f, a, dty, at):
    g, x = L.opt_parts(st, a[0])
    if x is None: return st, ok(NONE)
    h, y, k, z = L.res_parts(st, vrestrict(x, g))
    out = ok(NONE)
    if y is not None: out = V.mux(And(g, h), ok(some(y)), out)
    if z is not None: out = V.mux(And(g, k), err(z), out)
    return st, out


@model('Result.transpose')
def _rtranspose(L, st, f, a, dty, at):
    h, y, k, z = L.res_parts(st, a[0])
    out = NONE
    if y is not None:
        g, x = L.opt_parts(st, vrestrict(y, h))
        if x is not None: out = V.mux(And(h, g), some(ok(x)), out)
    if z is not None: out = V.mux(k, some(err(z)), out)
    return st, out
