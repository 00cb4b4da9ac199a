"""Value-graph analysis of MIR: a forward dataflow over the control-flow graph with gated merges and loop summaries.
No path is enumerated and nothing is executed: joins merge values under their guards, a loop is analysed once over a
symbolic index and its effect is expressed in closed form (appended segments, last assignment, flags, counters)."""
import os
from collections import OrderedDict
import val as V
from val import *
from dd import *


class Unknown(Exception):
    pass


class St:
    __slots__ = ('pc', 'store')

    def __init__(self, pc, store):
        self.pc, self.store = pc, store

    def copy(self): return St(self.pc, dict(self.store))

    def under(self, g):
        return St(And(self.pc, g), self.store)


# ------------------------------------------------------------------ simplification under a care set
_min = {}


def _neq(a, b): return FALSE if a is b else TRUE


def differ(f, g):
    if f is g: return FALSE
    return apply2('neq', f, g, _neq)


def drop_var(f, care, v):
    """f without v if that is possible inside care, else None"""
    from dd import all_keys
    if v.kind == 'enum': cellsx = list(range(len(v.dom)))
    else:
        ks = all_keys(f, v) | all_keys(care, v)
        cellsx = sorted(ks, key=lambda t: t.id if v.kind == 'open' else t) + ([None] if v.kind == 'open' else [])
        if v.kind == 'int': cellsx = [cellsx[0] - 1] + cellsx if cellsx else [0]
    cur = cc = None
    for c in cellsx:
        a, b = cofactor(f, v, c), cofactor(care, v, c)
        if b is FALSE: continue
        if cur is None: cur, cc = a, b
        else:
            if And(differ(cur, a), And(cc, b)) is not FALSE: return None
            cur, cc = ite(cc, cur, a), Or(cc, b)
    return cur


def minimize(f, care):
    """a function equal to f inside care that tests as few variables as possible"""
    if f.var is None or care is TRUE: return f
    k = (f.id, care.id)
    r = _min.get(k)
    if r is None:
        r = restrict(f, care)
        for _ in range(2):
            before = r
            if V.INST: break
            for v in sorted(r.sup, key=lambda v: (not any(a.op == 'lv' for a in v.bs), -v.id)):
                if v not in r.sup: continue
                x = drop_var(r, care, v)
                if x is not None: r = restrict(x, care)
            if r is before: break
        _min[k] = r
    return r


def merge(states):
    """join of states with exclusive path conditions"""
    states = [s for s in states if s is not None and s.pc is not FALSE]
    if not states: return None
    r = states[0]
    for s in states[1:]:
        pc = Or(r.pc, s.pc)
        store = {}
        if r.store is s.store: store = r.store
        else:
            g = None
            for k in set(r.store) | set(s.store):
                a, b = r.store.get(k), s.store.get(k)
                if a is None or b is None or a is b:
                    store[k] = a if a is not None else b
                    continue
                if g is None: g = minimize(r.pc, pc)
                store[k] = mux(g, a, b)
        r = St(pc, store)
    return r


def mergev(outs):
    """join of (state, value) pairs"""
    outs = [o for o in outs if o is not None and o[0] is not None and o[0].pc is not FALSE]
    if not outs: return None
    k = ('tmp', 0)
    sts = []
    for s, v in outs:
        if len(outs) == 1: return s, v
        s = St(s.pc, dict(s.store))
        s.store[k] = v
        sts.append(s)
    m = merge(sts)
    v = m.store.pop(k)
    return m, v


# ------------------------------------------------------------------ program
CORE_DISCR = {'Option': {'None': 0, 'Some': 1}, 'Result': {'Ok': 0, 'Err': 1}, 'ControlFlow': {'Continue': 0, 'Break': 1},
              'Ordering': {'Less': -1, 'Equal': 0, 'Greater': 1}, 'Entry': {'Vacant': 0, 'Occupied': 1},
              'Cow': {'Borrowed': 0, 'Owned': 1}, 'ErrorVariant': {'ParsingError': 0, 'CustomError': 1}}


class Tree:
    def __init__(self, dump, name=''):
        self.name = name
        self.fns = dump['fns']
        self.adts = {}
        for k, a in dump['adts'].items(): self.adts.setdefault(V.last(k), a)
        self.info = {}
        self.impls = {}
        for fid, f in self.fns.items():
            im = f.get('impl')
            if im and im.get('trait'):
                t = im['self']
                n = tname(t) if t.get('k') == 'adt' else t.get('s', t.get('k'))
                tr = V.last(im['trait'].split('<')[0])
                if tr.endswith('>'): tr = tr[:-1]
                # "<X as core::fmt::Display>"
                tr = im['trait']
                if ' as ' in tr: tr = tr.split(' as ', 1)[1].rstrip('>')
                base = V.last(tr.split('<')[0])
                self.impls.setdefault((base, n, V.last(f['path'])), []).append(fid)
        self.bypath = {f['path']: fid for fid, f in self.fns.items()}

    def numbers(self):
        """how often each number above 3 is used"""
        import collections
        c = collections.Counter()

        def walk(x):
            if x.__class__ is dict:
                v = x.get('const')
                if v.__class__ is dict:
                    n = (v.get('v') or {}).get('int')
                    if n is not None and abs(int(n)) > 3: c[int(n)] += 1
                else:
                    for y in x.values(): walk(y)
            elif x.__class__ is list:
                for y in x: walk(y)
        for f in self.fns.values():
            for b in (f['body'] or {}).get('blocks') or []: walk(b['s']); walk(b['t'])
        return c

    def adt(self, n): return self.adts.get(n)

    def discr(self, adt, variant):
        if adt in CORE_DISCR and variant in CORE_DISCR[adt]: return CORE_DISCR[adt][variant]
        a = self.adts.get(adt)
        if a:
            for v in a['variants']:
                if v['name'] == variant: return int(v['discr'])
        raise Unknown('discriminant of %s::%s' % (adt, variant))

    def fn(self, path):
        """local function by its path"""
        return self.bypath.get(path)

    def cfg(self, fid):
        i = self.info.get(fid)
        if i is None:
            i = self.info[fid] = Cfg(self.fns[fid]['body'])
        return i


def succs(t):
    k = t['k']
    if k == 'goto': return [t['t']]
    if k == 'switch': return list(dict.fromkeys([x[1] for x in t['targets']] + [t['otherwise']]))
    if k == 'call': return [t['t']] if t['t'] is not None else []
    if k == 'assert': return [t['t']]
    return []


class Cfg:
    def __init__(self, body):
        self.body = body
        bl = body['blocks']
        n = len(bl)
        self.succ = [succs(b['t']) if not b['cleanup'] else [] for b in bl]
        order, seen = [], set()
        st = [(0, iter(self.succ[0]))]
        seen.add(0)
        while st:
            x, it = st[-1]
            for y in it:
                if y not in seen:
                    seen.add(y)
                    st.append((y, iter(self.succ[y])))
                    break
            else:
                order.append(x)
                st.pop()
        order.reverse()
        self.rpo = {b: i for i, b in enumerate(order)}
        self.order = order
        pred = {b: [] for b in order}
        for b in order:
            for s in self.succ[b]: pred[s].append(b)
        # dominators
        dom = {b: set(order) for b in order}
        dom[0] = {0}
        ch = True
        while ch:
            ch = False
            for b in order[1:]:
                d = set.intersection(*[dom[p] for p in pred[b]]) | {b}
                if d != dom[b]: dom[b] = d; ch = True
        self.dom = dom
        self.loops = {}
        for b in order:
            for s in self.succ[b]:
                if s in dom[b]:
                    L = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in L:
                            L.add(x)
                            st += pred[x]
        # exits by topological position: order blocks so that a loop is left only after it is finished
        self.liveness()

    def liveness(self):
        body = self.body
        self.addr = set()
        use, dfn = {}, {}

        def op(o, u):
            for k in ('copy', 'move'):
                if k in o: pl(o[k], u)

        def pl(p, u):
            u.add(p['l'])
            for e in p['p']:
                if e[0] == '[]': u.add(e[1])
        for b in self.order:
            u, d = set(), set()

            def useop(o):
                x = set(); op(o, x)
                u.update(x - d)

            def usepl(p):
                x = set(); pl(p, x)
                u.update(x - d)
            for s in body['blocks'][b]['s']:
                if s['k'] == 'assign':
                    r = s['rv']
                    for key in ('o', 'a', 'b'):
                        if key in r and isinstance(r[key], dict): useop(r[key])
                    for o in r.get('ops', []): useop(o)
                    if 'place' in r:
                        usepl(r['place'])
                        if r['k'] in ('ref', 'rawptr') and (r.get('mut') or r['k'] == 'rawptr'): self.addr.add(r['place']['l'])
                    if s['to']['p']: usepl(s['to'])
                    else: d.add(s['to']['l'])
                elif s['k'] == 'setdiscr': usepl(s['to'])
            t = body['blocks'][b]['t']
            if t['k'] == 'switch': useop(t['d'])
            elif t['k'] == 'assert': useop(t['c'])
            elif t['k'] == 'return': u.update({0} - d)
            elif t['k'] == 'call':
                for o in t['args']: useop(o)
                if 'indirect' in t['f']: useop(t['f']['indirect'])
                if t['dest']['p']: usepl(t['dest'])
                else: d.add(t['dest']['l'])
            use[b], dfn[b] = u, d
        live = {b: set() for b in self.order}
        ch = True
        while ch:
            ch = False
            for b in reversed(self.order):
                out = set()
                for s in self.succ[b]: out |= live[s]
                x = use[b] | (out - dfn[b])
                if x != live[b]: live[b] = x; ch = True
        self.live = live

    def next_block(self, h):
        """block of the loop that advances its iterator on every iteration"""
        L = self.loops[h]
        bl = self.body['blocks']
        latches = [b for b in L if h in self.succ[b]]
        c = []
        for b in L:
            t = bl[b]['t']
            if t['k'] == 'call' and t['f'].get('name') == 'next' and t['f'].get('trait', '').endswith('Iterator') \
                    and all(b in self.dom[x] for x in latches):
                inner = any(b in self.loops[k] and k != h and k in L for k in self.loops)
                if not inner: c.append(b)
        c.sort(key=lambda b: len(self.dom[b]))
        return c[0] if c else None


_hasp = {}


def has_ptr(v):
    if v.__class__ is not Term: return False
    r = _hasp.get(v.id)
    if r is None:
        r = v.op == 'P' or any(has_ptr(x) if x.__class__ is Term else _tup_ptr(x) for x in v.args)
        _hasp[v.id] = r
    return r


def _tup_ptr(x):
    if x.__class__ is tuple: return any(_tup_ptr(y) for y in x)
    return has_ptr(x) if x.__class__ is Term else False


UNKNOWN_LIMIT = 200


class Engine:
    def __init__(self, tree, lib):
        self.tree = tree
        self.lib = lib(self)
        self.facts = []          # (site, guard) possible panics
        self.unknown = OrderedDict()
        self.frames = {}
        self.nframe = 0
        self.level = 0
        self.cache = {}
        self.celltype = {}
        self.stats = {'calls': 0, 'cached': 0, 'loops': 0, 'blocks': 0}
        self.reached = set()
        self.stack = []
        self.bdom = {}
        self.abstract = {}       # function id -> name of an uninterpreted function
        self.contexts = {}       # name -> set of rules of its pair arguments
        self.keep = None         # kinds of errors that count (None: all); other errors are taken for success
        self.quiet = ()          # abstracted functions whose errors do not count
        self.lvset = set()
        self.absnames = set()

    # ---------------------------------------------------------------- entry
    def analyse(self, fid, args, pc=TRUE):
        V.TREE = self.tree
        return self.call_fn(fid, args, St(pc, {}))

    def note(self, what, site=None):
        if len(self.unknown) < UNKNOWN_LIMIT: self.unknown.setdefault(what, site or (self.stack[-1] if self.stack else ''))

    def panic(self, st, site, g):
        g = And(st.pc, g)
        if g is not FALSE: self.facts.append((site, g))

    def op(self, what, *args, ty=None):
        t = T('call', what, *[vterm(a) if isinstance(a, (Node, Term)) else a for a in args])
        if ty is not None: return mk_sym(t, ty)
        return T('OP', t)

    # ---------------------------------------------------------------- memory
    def cell(self, st, v, ty=None):
        """a fresh memory cell; returns its root"""
        self.nframe += 1
        root = (-self.nframe, 0)
        st.store[root] = v
        self.celltype[root] = ty
        return root

    def ptr(self, root, path=()): return T('P', ((TRUE, root, tuple(path)),))

    def field(self, v, name, var=None):
        if v.__class__ is Node:
            if v.var is None and v.val is UNIT: return T('OP', T('undef'))
            ts = [t for t, g in leaves(v)]
            return T('OP', T('f', vterm(v), name))
        if v.op == 'P': return v
        v = force(v)
        if v.op == 'D':
            r = None
            for n, g, fs in v.args[1]:
                if var is not None and n != var: continue
                for f, x in fs:
                    if f == name: r = x if r is None else mux(g, x, r)
            if r is None: return T('OP', T('undef'))
            return r
        if v.op == 'C':
            for n, x in v.args[2]:
                if n == name: return x
            return T('OP', T('undef'))
        if v.op == 'OP': return T('OP', T('f', v.args[0], name, var))
        return T('OP', T('f', v, name, var))

    def deref(self, st, v):
        while v.__class__ is Term and v.op == 'P': v = self.load(st, v)
        return v

    def load(self, st, p):
        r = None
        for g, root, path in p.args[0]:
            if And(g, st.pc) is FALSE: continue
            x = self.get(st, st.store.get(root), path)
            r = x if r is None else mux(g, x, r)
        return r if r is not None else T('OP', T('undef'))

    def get(self, st, v, path):
        if v is None: return T('OP', T('undef'))
        var = None
        for e in path:
            if e[0] == 'f':
                v = self.field(self.deref(st, v), e[1], var)
                var = None
            elif e[0] == 'v': var = e[1]
            elif e[0] == 'k': v = self.lib.map_get(st, self.deref(st, v), e[1])[1]
            elif e[0] == 'i': v = self.lib.nth(st, self.deref(st, v), e[1])[1]
            else: v = T('OP', T('f', vterm(v), str(e)))
        return v

    def resolve(self, st, frame, place):
        alts = [(TRUE, (frame, place['l']), ())]
        for e in place['p']:
            if e[0] == '*':
                out = []
                for g, root, path in alts:
                    v = self.get(st, st.store.get(root), path)
                    if v.__class__ is Term and v.op == 'P':
                        out += [(And(g, h), r, p) for h, r, p in v.args[0] if And(g, h, st.pc) is not FALSE]
                    else: out.append((g, root, path))
                alts = out
            elif e[0] == '.': alts = [(g, r, p + (('f', e[1]),)) for g, r, p in self.through(st, alts)]
            elif e[0] == 'v': alts = [(g, r, p + (('v', e[1]),)) for g, r, p in self.through(st, alts)]
            elif e[0] == '[]': alts = [(g, r, p + (('i', st.store.get((frame, e[1]))),)) for g, r, p in alts]
            elif e[0] == '[c]' and not e[3]: alts = [(g, r, p + (('i', num(e[1])),)) for g, r, p in alts]
            else: alts = [(g, r, p + (('?', str(e)),)) for g, r, p in alts]
        return alts

    def through(self, st, alts):
        """a field of a reference held transparently"""
        out = []
        for g, root, path in alts:
            v = self.get(st, st.store.get(root), path)
            if v.__class__ is Term and v.op == 'P' and not (path and path[-1][0] == 'v'):
                out += [(And(g, h), r, p) for h, r, p in v.args[0]]
            else: out.append((g, root, path))
        return out

    def read(self, st, frame, place):
        v = st.store.get((frame, place['l']))
        if v is None: v = T('OP', T('undef'))
        var = None
        for e in place['p']:
            if e[0] == '*':
                if v.__class__ is Term and v.op == 'P': v = self.load(st, v)
            elif e[0] == '.':
                v = self.field(self.deref(st, v) if not (v.__class__ is Term and v.op == 'C') else v, e[1], var)
                var = None
            elif e[0] == 'v': var = e[1]
            elif e[0] == '[]': v = self.lib.nth(st, self.deref(st, v), st.store.get((frame, e[1])))[1]
            elif e[0] == '[c]':
                q = self.deref(st, v)
                v = self.lib.nth(st, q, num(e[1]))[1] if not e[3] else self.lib.nth_back(st, q, e[1])
            else: v = T('OP', T('proj', vterm(v), str(e)))
        return v

    def write(self, st, frame, place, v):
        if not place['p']:
            st.store[(frame, place['l'])] = v
            return
        self.write_alts(st, self.resolve(st, frame, place), v)

    def write_alts(self, st, alts, v):
        for g, root, path in alts:
            old = st.store.get(root)
            new = self.put(st, old, path, lambda o: v)
            st.store[root] = new if len(alts) == 1 or g is TRUE else mux(g, new, old)

    def put(self, st, v, path, fn):
        if not path: return fn(v)
        e = path[0]
        if e[0] == 'v':
            if len(path) == 1: return fn(v)
            f = path[1]
            v = force(v)
            if v.__class__ is Term and v.op == 'D':
                alts = []
                for n, g, fs in v.args[1]:
                    if n == e[1]:
                        fs = tuple((k, self.put(st, x, path[2:], fn) if k == f[1] else x) for k, x in fs)
                    alts.append((n, g, fs))
                return D(v.args[0], alts)
            self.note('write into variant of opaque value')
            return T('OP', T('havoc', vterm(v) if v is not None else UNIT))
        if e[0] == 'f':
            if v is None or (v.__class__ is Node and v.var is None): v = D('partial', [('partial', TRUE, {})])
            v = force(v)
            if v.__class__ is Term and v.op == 'D' and len(v.args[1]) == 1:
                n, g, fs = v.args[1][0]
                d = dict(fs)
                d[e[1]] = self.put(st, d.get(e[1]), path[1:], fn)
                return D(v.args[0], [(n, g, d)])
            if v.__class__ is Term and v.op == 'C':
                return T('C', v.args[0], v.args[1], tuple((n, self.put(st, x, path[1:], fn) if n == e[1] else x) for n, x in v.args[2]))
            self.note('write into field %s of %s' % (e[1], v.op if v.__class__ is Term else 'scalar'))
            return T('OP', T('havoc', vterm(v)))
        if e[0] == 'k' and v.__class__ is Term and v.op == 'M':
            cur = self.lib.map_get(st, v, e[1])[1]
            return M(list(v.args) + [one(TRUE, T('ent', 'ins', e[1], self.put(st, cur, path[1:], fn)))])
        if e[0] == 'i' and v.__class__ is Term:
            q = force(v)
            if q.op == 'Q': return self.lib.set_nth(st, q, e[1], lambda o: self.put(st, o, path[1:], fn))
        self.note('write through %s' % (e,))
        return T('OP', T('havoc', vterm(v) if v is not None else UNIT))

    def store_to(self, st, p, v):
        self.write_alts(st, [a for a in p.args[0] if And(a[0], st.pc) is not FALSE], v)

    def append(self, st, p, segs, kind):
        """append segments to the sequence / map a reference points to (through map entries as nested log entries)"""
        alts = [a for a in p.args[0] if And(a[0], st.pc) is not FALSE]
        for g, root, path in alts:
            old = st.store.get(root)
            ks = [i for i, e in enumerate(path) if e[0] == 'k']
            s = segs
            pth = path
            for i in reversed(ks):
                names = tuple(e[1] for e in pth[i + 1:] if e[0] == 'f')
                key = pth[i][1]
                s = self.map_segs(s, lambda x: T('ent', 'upd', key, names, kind, x))
                pth = pth[:i]
                kind = 'M'

            def add(o):
                o = force(o) if o is not None else None
                if o is None: o = EMPTYQ if kind == 'Q' else EMPTYM
                if o.__class__ is Term and o.op in ('Q', 'M'): return (Q if o.op == 'Q' else M)(list(o.args) + list(s))
                self.note('append to %s' % (o.op if o.__class__ is Term else 'scalar'))
                return T('OP', T('havoc', vterm(o)))
            new = self.put(st, old, pth, add)
            st.store[root] = new if len(alts) == 1 else mux(g, new, old)

    def map_segs(self, segs, fn):
        out = []
        for s in segs:
            if s.op == 'one': out.append(one(s.args[0], fn(s.args[1])))
            elif s.op == 'comp':
                j = fresh()
                (body,) = unbind(s, j)
                out += comps(s.args[1], j, self.map_segs(body, fn))
            else: out.append(T('lsegm', s))
        return out

    # ---------------------------------------------------------------- operands
    def operand(self, st, cx, o):
        if 'copy' in o: return self.read(st, cx.frame, o['copy'])
        if 'move' in o: return self.read(st, cx.frame, o['move'])
        return self.const(st, cx, o['const'])

    def const(self, st, cx, c):
        v = c['v']
        ty = c['ty']
        if 'promoted' in v:
            return self.promoted(v['of'], v['promoted'])
        if 'item' in v: return self.const_item(v['item'])
        return self.constv(v, ty)

    def constv(self, v, ty=None):
        if 'bool' in v: return TRUE if v['bool'] else FALSE
        if 'int' in v: return num(int(v['int']))
        if 'str' in v: return string(v['str'])
        if 'char' in v: return sc(T('char', v['char']))
        if 'fn' in v: return T('C', 'fn', self.fnref(v['fn']), ())
        if 'zst' in v:
            if ty and ty.get('k') == 'closure': return T('C', 'closure', ty['id'], ())
            if ty and ty.get('k') == 'adt':
                n = tname(ty)
                a = self.tree.adt(n)
                if a and not a['enum']: return D(n, [(n, TRUE, {})])
            return UNITV
        if 'adt' in v:
            return D(V.last(v['adt']), [(v['variant'], TRUE, {n: self.constv(x) for n, x in v['fields']})])
        if 'tuple' in v: return tup(*[self.constv(x) for x in v['tuple']]) if v['tuple'] else UNITV
        if 'array' in v: return Q([one(TRUE, self.constv(x)) for x in v['array']])
        if 'bytes' in v:
            b = v['bytes']
            return sc(T('bytes', tuple(b) if isinstance(b, list) else tuple(b.encode())))
        if 'bits' in v: return sc(T('float', v['bits']))
        p = v.get('path') or str(v.get('opaque'))
        if p in self.tree.bypath: return self.const_item(self.tree.bypath[p])
        return sc(T('constant', p))

    def fnref(self, f):
        import json
        k = json.dumps(f, sort_keys=True)
        self.lib.fnrefs[k] = f
        return k

    def promoted(self, of, i):
        k = ('prom', of, i)
        if k not in self.cache:
            self.cache[k] = self.eval_body(self.tree.fns[of]['promoted'][i], ('prom', of, i))
        return self.cache[k]

    def const_item(self, fid):
        k = ('item', fid)
        if k not in self.cache:
            f = self.tree.fns.get(fid)
            self.cache[k] = self.eval_body(f['body'], ('item', fid)) if f else T('OP', T('item', fid))
        return self.cache[k]

    def eval_body(self, body, key):
        if key not in self.tree.info: self.tree.info[key] = Cfg(body)
        cx = Ctx(self, key, self.tree.info[key])
        r = self.run_body(cx, St(TRUE, {}), [])
        return self.deref(r[0], r[1]) if r else T('OP', T('undef'))

    # ---------------------------------------------------------------- calls
    def call_fn(self, fid, args, st):
        f = self.tree.fns[fid]
        self.stats['calls'] += 1
        self.reached.add(fid)
        if self.stack.count(fid) > 3:
            self.note('recursion through ' + fid)
            return st, self.op('rec:' + f['path'], *args)
        pure = not any(has_ptr(a) for a in args)
        if pure:
            args = [vrestrict(a, st.pc) for a in args]
            k = (fid, tuple((a.__class__ is Node, a.id) for a in args))
            r = self.cache.get(k)
            if r is None:
                saved, self.facts = self.facts, []
                out = self.run_fn(fid, args, St(TRUE, {}))
                facts, self.facts = self.facts, saved
                r = self.cache[k] = (out and (out[0].pc, out[1]), facts)
            else: self.stats['cached'] += 1
            out, facts = r
            for site, g in facts: self.panic(st, site, g)
            if out is None: return None
            pc = And(st.pc, out[0])
            if pc is FALSE: return None
            return St(pc, st.store), vrestrict(out[1], pc)
        return self.run_fn(fid, args, st)

    def run_fn(self, fid, args, st):
        cx = Ctx(self, fid, self.tree.cfg(fid))
        self.stack.append(fid)
        try:
            return self.run_body(cx, st, args)
        finally:
            self.stack.pop()

    def run_body(self, cx, st, args):
        st = st.copy()
        for i, a in enumerate(args): st.store[(cx.frame, i + 1)] = a
        out = self.region(cx, 0, st, frozenset(), None, None)
        r = merge(out.get('ret', []))
        if r is None: return None
        v = r.store.get((cx.frame, 0), UNITV)
        store = {k: x for k, x in r.store.items() if k[0] != cx.frame}
        return St(r.pc, store), v

    # ---------------------------------------------------------------- regions
    def region(self, cx, start, st, active, cut, body):
        """dataflow from a block; stops at `cut` and outside of `body`"""
        out = {'ret': [], 'exit': [], 'cut': []}
        work = {start: [st]}
        first = True
        rpo = cx.cfg.rpo
        steps = 0
        while work:
            b = min(work, key=lambda x: rpo[x])
            steps += 1
            if steps > 5000: raise Unknown('region does not converge in %s' % (cx.fid,))
            s = merge(work.pop(b))
            if s is None: continue
            if b == cut and not (first and b == start):
                out['cut'].append(s)
                continue
            if body is not None and b not in body:
                out['exit'].append((b, s))
                continue
            if b in cx.cfg.loops and b not in active:
                for t, s2 in self.loop(cx, b, s, active):
                    if t == 'ret': out['ret'].append(s2)
                    else: work.setdefault(t, []).append(s2)
                first = False
                continue
            first = False
            self.stats['blocks'] += 1
            for t, s2 in self.block(cx, b, s):
                if t == 'ret': out['ret'].append(s2)
                else: work.setdefault(t, []).append(s2)
        return out

    def block(self, cx, b, st):
        bl = cx.cfg.body['blocks'][b]
        st = st.copy()
        for s in bl['s']:
            if s['k'] == 'assign':
                v = self.rvalue(st, cx, s['rv'])
                self.write(st, cx.frame, s['to'], v)
            elif s['k'] == 'setdiscr':
                self.note('setdiscr')
        return self.terminator(cx, bl, st)

    def terminator(self, cx, bl, st):
        t = bl['t']
        k = t['k']
        if k == 'goto': return [(t['t'], st)]
        if k == 'return': return [('ret', st)]
        if k in ('unreachable', 'unwind'): return []
        if k == 'switch':
            d = self.operand(st, cx, t['d'])
            return self.switch(st, d, t)
        if k == 'assert':
            c = self.operand(st, cx, t['c'])
            if not is_bool(c): c = self.as_bool(c)
            g = c if t['exp'] else Not(c)
            if t['msg'].startswith('Overflow') and False: g = TRUE
            self.panic(st, 'assert at %s' % bl['at'], Not(g))
            s = st.under(g)
            return [(t['t'], s)] if s.pc is not FALSE else []
        if k == 'call':
            r = self.call_term(cx, bl, st)
            if r is None: return []
            st2, v = r
            if t['t'] is None: return []
            st2 = st2.copy()
            self.write(st2, cx.frame, t['dest'], v)
            return [(t['t'], st2)]
        raise Unknown('terminator %s' % k)

    def as_bool(self, v):
        if is_bool(v): return v
        return bvar(T('truth', vterm(v)))

    def switch(self, st, d, t):
        out = []
        rest = TRUE
        if d.__class__ is Term: d = leaf(T('opaque', d))
        isb = is_bool(d)
        for val, tg in t['targets']:
            n = int(val)
            if isb: g = d if n else Not(d)
            else: g = apply1('eq%d' % n, d, lambda x: teq(x, I(n)) if x.op != 'char' else (TRUE if x.args[0] == n else FALSE))
            s = st.under(And(rest, g))
            rest = And(rest, Not(g))
            if s.pc is not FALSE: out.append((tg, s))
        s = st.under(rest)
        if s.pc is not FALSE: out.append((t['otherwise'], s))
        return out

    # ---------------------------------------------------------------- rvalues
    def rvalue(self, st, cx, r):
        k = r['k']
        if k == 'use': return self.operand(st, cx, r['o'])
        if k == 'ref':
            if not r['mut']:
                return self.read(st, cx.frame, r['place'])
            alts = self.resolve(st, cx.frame, r['place'])
            # an immutable input behind a mutable reference has no cell: give it one
            return T('P', tuple(alts))
        if k == 'rawptr':
            return self.read(st, cx.frame, r['place'])
        if k == 'discr':
            return self.discriminant(st, self.deref(st, self.read(st, cx.frame, r['place'])), r.get('ty'))
        if k == 'agg': return self.aggregate(st, cx, r)
        if k == 'bin': return self.lib.binop(st, r['op'], self.deref(st, self.operand(st, cx, r['a'])), self.deref(st, self.operand(st, cx, r['b'])), r.get('ty'))
        if k == 'un':
            a = self.deref(st, self.operand(st, cx, r['a']))
            if r['op'] == 'Not' and is_bool(a): return Not(a)
            if r['op'] == 'PtrMetadata': return self.lib.length(a)
            if r['op'] == 'Neg' and is_node(a):
                return apply1('neg', a, lambda x: leaf(I(-x.args[0]) if x.op == 'int' else T('neg', x)))
            return self.op('un:' + r['op'], a)
        if k == 'cast' and r['kind'] == 'BoxDerefTransmute':
            o = r['o'].get('copy') or r['o'].get('move')
            if o:
                v = st.store.get((cx.frame, o['l']))
                if v is not None and v.__class__ is Term and v.op == 'P' and all(e[0] == '.' for e in o['p']): return v
        if k == 'cast': return self.lib.cast(r['kind'], self.operand(st, cx, r['o']), r['ty'], r['from'])
        if k == 'repeat':
            v = self.operand(st, cx, r['o'])
            n = r['n'].split('_')[0]
            if n.isdigit() and int(n) <= 16: return Q([one(TRUE, v)] * int(n))
        self.note('rvalue ' + k)
        return T('OP', T('rvalue', k))

    def discriminant(self, st, v, ty):
        if v.__class__ is Node:
            return self.op('discr', v)
        v = force(v)
        if v.op == 'D':
            r = None
            for n, g, fs in v.args[1]:
                x = num(self.tree.discr(v.args[0], n))
                r = x if r is None else ite(g, x, r)
            return r if r is not None else num(0)
        if v.op == 'OP' and ty and ty.get('k') == 'adt':
            n = tname(ty)
            names = list(CORE_DISCR.get(n, {})) or [x['name'] for x in (self.tree.adt(n) or {'variants': []})['variants']]
            if names:
                t = T('variant', v.args[0])
                r = num(self.tree.discr(n, names[-1]))
                for x in names[:-1]: r = ite(evar(t, tuple(names), x), num(self.tree.discr(n, x)), r)
                return r
        return leaf(T('discr', vterm(v)))

    def aggregate(self, st, cx, r):
        ops = [self.operand(st, cx, o) for o in r['ops']]
        a = r['a']
        if a == 'adt':
            n = V.last(r['id'])
            return D(n, [(r['variant'] if r['variant'] != n or self.is_enum(n) else n, TRUE, dict(zip(r['fields'], ops)))])
        if a == 'tuple': return tup(*ops) if ops else UNITV
        if a == 'array': return Q([one(TRUE, x) for x in ops])
        if a == 'closure': return T('C', 'closure', r['id'], tuple((str(i), x) for i, x in enumerate(ops)))
        return self.op('agg:' + a, *ops)

    def is_enum(self, n):
        x = self.tree.adt(n)
        return bool(x and x['enum'])

    # ---------------------------------------------------------------- call terminator
    def call_term(self, cx, bl, st):
        t = bl['t']
        args = [self.operand(st, cx, a) for a in t['args']]
        f = t['f']
        if 'indirect' in f:
            fv = self.operand(st, cx, f['indirect'])
            return self.call_value(st, self.deref(st, fv), args, t['dty'])
        return self.callee(st, f, args, t['dty'], bl['at'])

    def callee(self, st, f, args, dty=None, at=''):
        res = f.get('res') or {}
        fid = res.get('id') if res.get('local') else None
        r = self.lib.local(st, f, args, dty, at)
        if r is not None: return r
        if fid and fid in self.abstract:
            r = self.abstract_call(fid, args, st, dty)
            if r is not NotImplemented:
                if self.keep is not None and self.abstract[fid] in self.quiet:
                    v = self.lib.D_(r[0], r[1])
                    if v.__class__ is Term and v.op == 'D' and v.args[0] == 'Result':
                        d = [dict(fs) for n, g, fs in v.args[1] if n == 'Ok']
                        return r[0], ok(d[0]['0'] if d else UNITV)
                return r
        if self.keep is not None and fid in self.tree.fns:
            r = self.thrown(fid, f, args, st, dty, at)
            if r is not NotImplemented: return r
        return self.callee2(st, f, args, fid, res, dty, at)

    def thrown(self, fid, f, args, st, dty, at):
        """a function that turns an error kind into a failure: failures of kinds that do not count become successes"""
        body = self.tree.fns[fid]['body']
        tys = [body['locals'][i + 1]['ty'] for i in range(body['argc'])]
        ix = [i for i, t in enumerate(tys) if t.get('k') == 'adt' and tname(t) == 'Err']
        if len(ix) != 1 or tname(body['locals'][0]['ty']) != 'Result' or len(args) != len(tys): return NotImplemented
        v = self.lib.D_(st, args[ix[0]])
        if not (v.__class__ is Term and v.op == 'D' and v.args[0] == 'Err'): return NotImplemented
        g = Or(*[h for n, h, fs in v.args[1] if n in self.keep])
        a, b = st.under(g), st.under(Not(g))
        outs = []
        if a.pc is not FALSE: outs.append(self.call_fn(fid, args, a))
        if b.pc is not FALSE:
            t = (dty.get('args') or [None])[0] if dty and dty.get('k') == 'adt' else None
            if t is None: x = T('OP', T('suppressed'))
            elif t.get('k') == 'tuple' and not t.get('args'): x = UNITV
            else: x = mk_sym(T('suppressed'), t)
            outs.append((b, ok(x)))
        return mergev(outs)

    def callee2(self, st, f, args, fid, res, dty, at):
        if fid and fid in self.tree.fns and not res.get('derived') and res.get('kind', 'item') == 'item':
            if f.get('trait', '').endswith(('Fn', 'FnMut', 'FnOnce')):
                return self.call_value(st, self.deref(st, args[0]), self.spread(st, args[1:]), dty)
            return self.call_fn(fid, args, st)
        if fid and fid in self.tree.fns and res.get('derived') and V.last(f.get('trait') or '') == 'Default':
            return self.call_fn(fid, args, st)
        return self.lib.call(st, f, args, dty, at)

    def abstract_call(self, fid, args, st, dty):
        """the call as an uninterpreted function of its argument values"""
        name = self.abstract[fid]
        body = self.tree.fns[fid]['body']
        tys = [body['locals'][i + 1]['ty'] for i in range(body['argc'])]
        if body['argc'] != len(args): return NotImplemented
        rty = body['locals'][0]['ty']
        vals, outp, pairs = [], [], None
        for i, (a, ty) in enumerate(zip(args, tys)):
            if ty.get('k') == 'ref' and ty.get('mut') and a.__class__ is Term and a.op == 'P':
                outp.append(i)
            a = self.deref(st, a)
            if has_ptr(a): return NotImplemented
            t = ty
            while t.get('k') == 'ref': t = t['args'][0]
            if tname(t) == 'Pair' and a.__class__ is Node:
                a = vrestrict(a, st.pc)
                if pairs is None: pairs = i
                elif a.var is not None: return NotImplemented
                for p, g in leaves(a, st.pc):
                    if p.op == 'pair': self.contexts.setdefault(name, set()).add((i, p.args[1]))
            else:
                c = collapse(a)
                if c.__class__ is Node or c.op not in ('S',): c = collapse(vrestrict(a, st.pc))
                a = c
            vals.append(a)
        self.absnames.add(name)

        def result(vals):
            t = T('call', name, *[vterm(v) for v in vals])
            return t, mk_sym(t, rty)
        if pairs is not None and vals[pairs].var is not None:
            r = None
            posts = {}
            for p, g in leaves(vals[pairs]):
                t, x = result(vals[:pairs] + [leaf(p)] + vals[pairs + 1:])
                r = x if r is None else mux(g, x, r)
                for i in outp:
                    y = mk_sym(T('post', t, i), tys[i])
                    posts[i] = y if i not in posts else mux(g, y, posts[i])
        else:
            t, r = result(vals)
            posts = {i: mk_sym(T('post', t, i), tys[i]) for i in outp}
        if outp:
            st = st.copy()
            for i in outp: self.store_to(st, args[i], posts[i])
        return st, r

    def spread(self, st, args):
        if len(args) == 1 and args[0].__class__ is Term and args[0].op == 'D' and args[0].args[0] == 'tuple':
            d = dict(args[0].args[1][0][2])
            return [d[str(i)] for i in range(len(d))]
        if len(args) == 1 and args[0].__class__ is Node and args[0] is UNITV: return []
        return args

    def call_value(self, st, f, args, dty=None):
        """call a closure or a function item"""
        f = self.deref(st, f)
        if f.__class__ is Term and f.op == 'C':
            if f.args[0] == 'closure':
                if f.args[1] in self.tree.fns: return self.call_fn(f.args[1], [f] + list(args), st)
            elif f.args[0] == 'fn':
                return self.callee(st, self.lib.fnrefs[f.args[1]], list(args), dty)
            elif f.args[0] == 'native':
                return self.lib.native[f.args[1]](st, f, list(args))
        if f.__class__ is Term and f.op == 'MUX':
            outs = []
            for g, x in f.args[0]:
                s = st.under(g)
                if s.pc is not FALSE: outs.append(self.call_value(s, x, args, dty))
            return mergev(outs)
        self.note('call of an unknown function value')
        return st, self.op('callv', f, *args, ty=dty)

    def branch(self, st, cases):
        """cases: (guard, fn(state) -> (state, value) | None)"""
        outs = []
        for g, fn in cases:
            s = st.under(g)
            if s.pc is not FALSE: outs.append(fn(s))
        return mergev(outs)

    # ---------------------------------------------------------------- loops
    def loop(self, cx, h, st, active):
        """all states leaving the loop: [(block | 'ret', state)]"""
        cfg = cx.cfg
        L = cfg.loops[h]
        B = cfg.next_block(h)
        act = active | {h}
        self.stats['loops'] += 1
        live = cfg.live[h] | cfg.addr
        st = St(st.pc, {k: v for k, v in st.store.items() if k[0] != cx.frame or k[1] in live})
        if B is None: return self.unroll(cx, h, st, act)
        outs = []
        if h == B: s0 = st
        else:
            pro = self.region(cx, h, st, act, B, L)
            outs += [('ret', s) for s in pro['ret']] + pro['exit']
            s0 = merge(pro['cut'])
        if s0 is None: return outs
        s0 = s0.copy()
        bl = cfg.body['blocks'][B]
        for s in bl['s']:
            if s['k'] == 'assign': self.write(s0, cx.frame, s['to'], self.rvalue(s0, cx, s['rv']))
        t = bl['t']
        p = self.operand(s0, cx, t['args'][0])
        it = self.deref(s0, p)
        it = self.lib.as_iter(s0, it)
        if it is None:
            return outs + self.unroll(cx, h, st, act)
        livet = cfg.live[t['t']] | cfg.addr
        s0 = St(s0.pc, {k: v for k, v in s0.store.items() if k[0] != cx.frame or k[1] in live | livet})
        if p.__class__ is Term and p.op == 'P':
            self.store_to(s0, p, T('OP', T('consumed', p)))

        def body(s, elem):
            s = s.copy()
            self.write(s, cx.frame, t['dest'], some(elem))
            r = self.region(cx, t['t'], s, act, B, L)
            nxt = merge(r['cut'])
            if nxt is not None:
                # the statements before next() are repeated; they only rebuild the reference to the iterator
                nxt = St(nxt.pc, {k: v for k, v in nxt.store.items() if k in s.store and k in s0.store})
            ex = [(('ret',), x, UNITV) for x in r['ret']] + [(('b', b), x, UNITV) for b, x in r['exit']]
            return nxt, ex
        end, exits = self.consume(s0, it, body)
        for tag, s, v in exits:
            outs.append(('ret' if tag[0] == 'ret' else tag[1], s))
        if end is not None:
            end = end.copy()
            if p.__class__ is Term and p.op == 'P': self.store_to(end, p, T('IT', EMPTYQ, ()))
            self.write(end, cx.frame, t['dest'], NONE)
            r = self.region(cx, t['t'], end, act, B, L)
            outs += [('ret', s) for s in r['ret']] + r['exit']
            if r['cut']: self.note('iteration after exhaustion')
        return outs

    def unroll(self, cx, h, st, act):
        """a loop without an iterator: repeat while the condition is decided, else give up"""
        L = cx.cfg.loops[h]
        outs = []
        cur = st
        for n in range(24):
            r = self.region(cx, h, cur, act, h, L) if n or True else None
            outs += [('ret', s) for s in r['ret']] + r['exit']
            cur = merge(r['cut'])
            if cur is None: return outs
        self.note('loop without a bound that is known', cx.fid)
        # forget everything the loop may still change
        for k in list(cur.store):
            if st.store.get(k) is not cur.store[k]: cur.store[k] = T('OP', T('loop', cx.fid if isinstance(cx.fid, str) else str(cx.fid), k[1]))
        for b in sorted({s for x in L for s in cx.cfg.succ[x] if s not in L}):
            outs.append((b, cur.under(bvar(T('loopexit', str(cx.fid), b)))))
        return outs

    def consume(self, st, it, body):
        """run `body` over the elements of an iterator value: (state after the last element | None, exits)"""
        q, stages = it.args
        q = force(q)
        if q.__class__ is not Term or q.op not in ('Q', 'M'):
            q = self.lib.to_seq(q)
        if stages:
            inner = body

            def body(s, x, stages=stages): return self.stage(s, x, stages, inner)
        return self.segs(st, q.args, body)

    def stage(self, st, x, stages, body):
        if not stages: return body(st, x)
        k, rest = stages[0], stages[1:]
        n = k[0]
        if n == 'map':
            r = self.call_value(st, k[1], [x])
            if r is None: return None, []
            return self.stage(r[0], r[1], rest, body)
        if n in ('filter', 'skip_not'):
            r = self.call_value(st, k[1], [x])
            if r is None: return None, []
            s, b = r
            b = self.as_bool(b)
            a = s.under(b)
            nxt, ex = self.stage(a, vrestrict(x, a.pc), rest, body) if a.pc is not FALSE else (None, [])
            return merge([nxt, s.under(Not(b))]), ex
        if n == 'filter_map' or n == 'map_while':
            r = self.call_value(st, k[1], [x])
            if r is None: return None, []
            s, o = r
            g, y = self.lib.opt_parts(s, o)
            a = s.under(g)
            nxt, ex = self.stage(a, vrestrict(y, a.pc), rest, body) if a.pc is not FALSE else (None, [])
            if n == 'filter_map': return merge([nxt, s.under(Not(g))]), ex
            e = s.under(Not(g))
            return nxt, ex + ([(('stop',), e, UNITV)] if e.pc is not FALSE else [])
        if n == 'take_while':
            r = self.call_value(st, k[1], [x])
            if r is None: return None, []
            s, b = r
            b = self.as_bool(b)
            a = s.under(b)
            nxt, ex = self.stage(a, x, rest, body) if a.pc is not FALSE else (None, [])
            e = s.under(Not(b))
            return nxt, ex + ([(('stop',), e, UNITV)] if e.pc is not FALSE else [])
        if n == 'inspect':
            r = self.call_value(st, k[1], [x])
            return self.stage(r[0], x, rest, body) if r else (None, [])
        if n in ('flat_map', 'flatten'):
            if n == 'flat_map':
                r = self.call_value(st, k[1], [x])
                if r is None: return None, []
                st, x = r
            it = self.lib.as_iter(st, self.deref(st, x))
            if it is None:
                self.note('flat_map over an unknown value')
                it = T('IT', self.lib.to_seq(x), ())
            return self.consume(st, it, lambda s, y: self.stage(s, y, rest, body))
        raise Unknown('stage ' + n)

    def segs(self, st, segs, body):
        exits = []
        for s in segs:
            if st is None: break
            if s.op == 'one':
                a = st.under(s.args[0])
                if a.pc is FALSE: continue
                nxt, ex = body(a, vrestrict(s.args[1], a.pc))
                exits += ex
                st = merge([nxt, st.under(Not(s.args[0]))])
            elif s.op == 'comp':
                st, ex = self.comp(st, s, body)
                exits += ex
            else:
                lv = s.args[0]
                dom = T('lvdom', s)
                bv = T('bv', 1)
                st, ex = self.comp(st, T('comp', bv, dom, (one(TRUE, T('OP', T('at', dom, bv))),)), body)
                exits += ex
        return st, exits

    # ---------------------------------------------------------------- loop summaries
    def binder(self, dom):
        i = T('i', 'b%d_%d' % (dom.id, self.level))
        self.bdom[i] = dom
        return i

    def comp(self, st0, s, body):
        dom = s.args[1]
        i = self.binder(dom)
        (segs,) = unbind(s, i)
        ne = nonempty(dom)
        if And(st0.pc, ne) is FALSE: return st0, []
        self.level += 1
        try:
            return self._comp(st0, dom, i, segs, body)
        finally:
            self.level -= 1

    def _comp(self, st0, dom, i, segs, body):
        mod = OrderedDict()        # loc -> placeholder
        solved = {}
        entry = st0
        for rnd in range(14):
            st = St(entry.pc, dict(entry.store))
            for loc, (P, lv, ty) in mod.items():
                v = self.prior(entry, dom, i, loc, solved[loc]) if loc in solved else P
                st.store[loc[0]] = self.put(st, st.store[loc[0]], loc[1], lambda o, v=v: v)
            mark = len(self.facts)
            nxt, exits = self.segs(st, segs, body)
            new = []
            if nxt is not None:
                for root in entry.store:
                    if root in nxt.store and nxt.store[root] is not st.store[root]:
                        new += [(root, p) for p in self.diff(st.store[root], nxt.store[root], ())]
            new = [l for l in new if not any(l[0] == m[0] and l[1][:len(m[1])] == m[1] for m in mod)]
            if new:
                for loc in new:
                    # a changed whole replaces its parts
                    for m in [m for m in mod if m[0] == loc[0] and m[1][:len(loc[1])] == loc[1]]:
                        del mod[m]
                        solved.pop(m, None)
                    mod[loc] = self.placeholder(entry, loc)
                solved.clear()
                del self.facts[mark:]
                continue
            if nxt is None or all(l in solved for l in mod): break
            progress = False
            pend = {}
            self.lvset = {m[1] for m in mod.values()}
            for loc, (P, lv, ty) in mod.items():
                if loc in solved: continue
                N = vrestrict(self.get(nxt, nxt.store[loc[0]], loc[1]), nxt.pc)
                r = self.solve(loc, P, lv, N, nxt.pc, entry.pc)
                if r is None: pend[loc] = N
                else:
                    solved[loc] = r
                    progress = True
            if not progress:
                lvs = {mod[l][1]: T('cl', n) for n, l in enumerate(pend)}
                whole = tuple(subst(vterm(x), lvs) for x in pend.values())
                f = bind('fold', dom, i, whole, tuple(vterm(self.get(entry, entry.store[l[0]], l[1])) for l in pend))
                for n, loc in enumerate(pend):
                    if os.environ.get('LCV'): print('LCV', loc, show(pend[loc], 9)[:3000])
                    solved[loc] = ('opaque', T('nth', n, f), mod[loc][2])
                    if len(self.stack) and True: self.note('loop-carried value %s of %s' % (loc[1], self.where(loc[0])))
            del self.facts[mark:]
        else:
            self.note('loop summary does not converge')
        # possible panics inside: for some element
        fs = self.facts[mark:]
        del self.facts[mark:]
        for site, g in fs:
            g = And(entry.pc, exists(dom, i, minimize(g, entry.pc)))
            if g is not FALSE: self.facts.append((site, g))
        # exits
        by = OrderedDict()
        for tag, s, v in exits: by.setdefault(tag, []).append((s, v))
        outs = []
        stop = None
        ms = []
        for tag, l in by.items():
            m = mergev(l)
            if m is not None: ms.append((tag, m[0], m[1], minimize(m[0].pc, entry.pc)))
        # values after the last element
        end = St(entry.pc, dict(entry.store))
        for loc in mod:
            v = self.final(entry, dom, i, loc, solved[loc]) if loc in solved else self.get(entry, entry.store[loc[0]], loc[1])
            end.store[loc[0]] = self.put(end, end.store[loc[0]], loc[1], lambda o, v=v: v)
        if ms:
            G = Or(*[m[3] for m in ms])
            E = And(entry.pc, exists(dom, i, G))
            dep = i in G.bs or any(i in b for m in ms for b in [m[2].bs] + [x.bs for x in m[1].store.values()])
            idx = bind('first', dom, i, G)
            sub = {i: idx}
            rest = TRUE
            pcn = And(entry.pc, Not(E))
            for n, (tag, s, v, g) in enumerate(ms):
                gi = minimize(g, G)
                d = rest if n == len(ms) - 1 else And(rest, subst(gi, sub))
                rest = And(rest, Not(subst(gi, sub)))
                pc = And(E, d)
                if pc is FALSE: continue
                store = {k: subst(vrestrict(x, G) if i in x.bs else x, sub) for k, x in s.store.items()}
                x = (tag, St(pc, store), subst(vrestrict(v, G), sub))
                if tag == ('stop',): stop = x[1] if stop is None else merge([stop, x[1]])
                else: outs.append(x)
            end.pc = pcn
        if end.pc is FALSE: end = None
        if stop is not None: end = merge([end, stop])
        return end, outs

    def where(self, root):
        if root[0] < 0: return 'a cell in %s' % (self.stack[-1] if self.stack else '?')
        return '%s _%d' % (self.frames.get(root[0]), root[1])

    def diff(self, a, b, path):
        if a is b: return []
        if a.__class__ is Term and b.__class__ is Term:
            if a.op == 'S' and a.args[0].op != 'lv' or (a.op == 'S' and b.op == 'D'): a = force(a)
            if b.op == 'S' and b.args[0].op != 'lv': b = force(b)
            if a is b: return []
            if a.op == 'D' and b.op == 'D' and a.args[0] == b.args[0] and len(a.args[1]) == 1 and len(b.args[1]) == 1 \
                    and a.args[1][0][0] == b.args[1][0][0] and a.args[0] not in ('Option', 'Result', 'partial') and not self.is_enum(a.args[0]):
                out = []
                x, y = dict(a.args[1][0][2]), dict(b.args[1][0][2])
                if set(x) == set(y):
                    for n in sorted(x): out += self.diff(x[n], y[n], path + (('f', n),))
                    return out
        return [path]

    def loc_type(self, loc):
        root, path = loc
        if root[0] < 0: ty = self.celltype.get(root)
        else:
            fid = self.frames.get(root[0])
            if fid is None: return None
            ty = self.tree.info[fid].body['locals'][root[1]]['ty'] if not isinstance(fid, str) else self.tree.fns[fid]['body']['locals'][root[1]]['ty']
        for e in path:
            if ty is None: return None
            while ty.get('k') == 'ref': ty = ty['args'][0]
            if e[0] != 'f': return None
            if ty.get('k') == 'tuple': ty = ty['args'][int(e[1])]
            elif ty.get('k') == 'adt':
                a = self.tree.adt(tname(ty))
                if a is None:
                    if tname(ty) == 'Range': ty = ty['args'][0]
                    else: return None
                else: ty = dict((n, t) for n, t in a['variants'][0]['fields']).get(e[1])
            else: return None
        return ty

    def placeholder(self, entry, loc):
        lv = fresh('lv')
        cur = self.get(entry, entry.store[loc[0]], loc[1])
        ty = self.loc_type(loc)
        if cur.__class__ is Node:
            if is_bool(cur): return bvar(lv), lv, ty
            if cur is not UNITV: return leaf(lv), lv, ty
            return T('OP', lv), lv, ty
        c = force(cur)
        if c.__class__ is Term and c.op in ('Q', 'M'): return T(c.op, T('lseg', lv)), lv, ty
        if ty is not None and ty.get('k') in ('adt', 'tuple') and c.op in ('D', 'S', 'MUX'):
            p = mk_sym(lv, ty)
            return p, lv, ty
        return T('OP', lv), lv, ty

    def solve(self, loc, P, lv, N, care, pc0):
        if N is P: return ('same',)
        if N.__class__ is Node:
            if is_bool(P):
                v = next(iter(P.sup))
                n1, n0 = cofactor(N, v, 1), cofactor(N, v, 0)
                if And(Not(n1), n0) is not FALSE: return None
                g = Not(And(n1, Not(n0)))
                val = minimize(n0, g)
                if not self.clean(g, lv) or not self.clean(val, lv): return None
                return ('last', g, val)
            if P.__class__ is Node and P.var is None:
                g = apply1(None, N, lambda t: FALSE if t is lv else TRUE)
                if not self.clean(g, lv): return None
                val = minimize(N, g)
                if self.clean(val, lv): return ('last', g, val)
                # counter
                ks = {t.args[1] for t, _ in leaves(val) if t.op == 'addc' and t.args[0] is lv}
                if len(leaves(val)) == len([1 for t, _ in leaves(val) if t.op == 'addc' and t.args[0] is lv]) and ks == {1}:
                    return ('count', g, 1)
                segs = V.counted(N, lv)
                if segs is not None and all(self.clean(x, lv) for x in segs): return ('sum', tuple(segs))
                return None
            if self.clean(N, lv): return ('last', TRUE, N)
            return None
        if N.op == 'MUX':
            g = TRUE
            v = None
            for h, x in N.args[0]:
                if x is P: g = And(g, Not(h))
                else: v = x if v is None else mux(minimize(h, TRUE), x, v)
            if v is None or not self.clean(g, lv) or not self.clean(v, lv): return None
            return ('last', g, vrestrict(v, g))
        if P.__class__ is Term and P.op in ('Q', 'M') and N.op == P.op and N.args and N.args[0] is P.args[0]:
            rest = list(N.args[1:])
            rest = restrict_segs(rest, care)
            rest = [self.clean_seg(x, lv, care) for x in rest]
            if any(x is None for x in rest): return None
            return ('append', tuple(rest), P.op)
        if self.clean(N, lv): return ('last', TRUE, N)
        return None

    def clean(self, x, lv):
        """free of the placeholders of the loop being solved"""
        return not (x.bs and any(a in self.lvset for a in x.bs))

    def clean_seg(self, s, lv, care):
        if self.clean(s, lv): return s
        if s.op == 'one':
            g = minimize(s.args[0], care)
            x = one(g, vrestrict(s.args[1], And(g, care)))
            return x if self.clean(x, lv) else None
        return None

    def prior(self, entry, dom, i, loc, r):
        j = fresh()
        return self.closed(entry, T('prefix', dom, i), j, {i: j}, loc, r)

    def final(self, entry, dom, i, loc, r):
        return self.closed(entry, dom, i, {}, loc, r)

    def closed(self, entry, dom, j, ren, loc, r):
        v0 = self.get(entry, entry.store[loc[0]], loc[1])
        k = r[0]
        if k == 'same': return v0
        if k == 'append':
            base = force(v0)
            segs = [subst(s, ren) for s in r[1]]
            return (Q if r[2] == 'Q' else M)(list(base.args) + comps(dom, j, segs))
        if k == 'last':
            g, x = subst(r[1], ren), subst(r[2], ren)
            E = exists(dom, j, g)
            if j in x.bs: x = subst(vrestrict(x, g), {j: bind('last', dom, j, g)})
            return mux(E, x, v0)
        if k == 'count':
            return self.lib.add(v0, leaf_count(dom, j, subst(r[1], ren)))
        if k == 'sum': return self.lib.add(v0, seq_len(comps(dom, j, [subst(x, ren) for x in r[1]])))
        t = T('after', dom, r[1])
        if r[2] is not None: return mk_sym(t, r[2])
        if v0.__class__ is Node: return bvar(t) if is_bool(v0) else leaf(t)
        return T('OP', t)


class Ctx:
    def __init__(self, eng, fid, cfg):
        eng.nframe += 1
        self.frame = eng.nframe
        eng.frames[self.frame] = fid
        self.fid, self.cfg = fid, cfg
