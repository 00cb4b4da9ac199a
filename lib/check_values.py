"""The value-graph comparison: schedules the units, escalates differences to callers, maps what remains to properties."""
import multiprocessing, multiprocessing.connection, os, sys, threading, time, traceback
import attribution, common, engine, equiv, grammar, pestmodel, stdlib, stdlib2
import val as V
from dd import *
from val import *

MEM = 10 << 30
STACK = 1 << 29
PAIR = None
END = time.time() + 720         # every job ends about here: a check has 900 s
SCALE = 1                       # of the time limits of the jobs


def deep():
    """the thorough tier: longer limits"""
    global END, SCALE
    END, SCALE = time.time() + 6 * 3600, 6


def setup():
    """both trees in one process, so that equal values are the same object"""
    global PAIR
    if PAIR is None:
        sys.setrecursionlimit(200000)
        g = grammar.Grammar.text(open(os.path.join(common.VERIF, 'lib/reference.pest')).read())
        P = pestmodel.Pest(g)
        P.hooks()
        stdlib.PEST = P
        ref = engine.Tree(common.dump(root=common.REFERENCE), 'reference')
        act = engine.Tree(common.dump(), 'repo')
        PAIR = equiv.Pair(act, ref)
    return PAIR


def boolean_result(path):
    b = PAIR.trees[1].fns[PAIR.units[path][1]]['body']
    return tname(b['locals'][0]['ty']) != 'Result'


def text(v, n=400):
    s = shown(v, 5) if v.__class__ is Node else show(v, 6) if v is not None else 'nothing'
    import re
    s = re.sub(r', \{"args.*?"k": "\w+"\}\)', ')', s)
    return s[:n] + ('..' if len(s) > n else '')


def succeeded(v):
    v = force(v) if v.__class__ is Term else v
    if v.__class__ is Term and v.op == 'D' and v.args[0] == 'Result':
        return Or(*[g for n, g, fs in v.args[1] if n == 'Ok'])
    return TRUE


def failed(v):
    v = force(v) if v.__class__ is Term else v
    if v.__class__ is Term and v.op == 'D' and v.args[0] == 'Result':
        return Or(*[g for n, g, fs in v.args[1] if n == 'Err'])
    if is_node(v) and is_bool(v): return v
    return FALSE


# ------------------------------------------------------------------ error kinds
def aggregates(body):
    """variants of the error enumeration a body builds"""
    out = set()

    def walk(x):
        if isinstance(x, dict):
            if x.get('a') == 'adt' and V.last(str(x.get('id'))) == 'Err' and 'err::Err' in str(x.get('id')): out.add(x.get('variant'))
            if isinstance(x.get('adt'), str) and 'err::Err' in x['adt'] and V.last(x['adt']) == 'Err': out.add(x.get('variant'))
            for y in x.values(): walk(y)
        elif isinstance(x, list):
            for y in x: walk(y)
    walk(body)
    return out


class Errors:
    """which error kinds each function can raise, itself or through others"""

    def __init__(self, pair):
        self.pair = pair
        self.own, self.reach = {}, {}
        for t in pair.trees:
            callees, agg = {}, {}
            for fid, f in t.fns.items():
                if equiv.generated(f): continue
                o = equiv.owner_fn(t, fid)
                callees.setdefault(o, set()).update(equiv.owner_fn(t, c) for c in equiv.refs_of(f['body'], t) if c in t.fns)
                agg.setdefault(o, set()).update(aggregates(f['body']))
                for p in f.get('promoted') or []: agg[o] |= aggregates(p)
            for o in callees:
                own, reach = set(), set()
                st, seen = [(o, True)], set()
                while st:
                    x, inside = st.pop()
                    if (x, inside) in seen: continue
                    seen.add((x, inside))
                    p = t.fns[x]['path']
                    if x != o and p in pair.abstractable: inside = False
                    reach.add(p)
                    if inside: own |= agg.get(x, set())
                    st += [(c, inside) for c in callees.get(x, ())]
                p = t.fns[o]['path']
                self.own.setdefault(p, set()).update(own)
                self.reach.setdefault(p, set()).update(reach)

    def keep(self, prop, unit, inline):
        k = attribution.KEEP[prop]
        ws = {unit} | set(inline) | {w for w in k if w not in self.pair.abstractable}
        return frozenset().union(*[k[w] for w in ws if w in k])

    def quiet(self, prop, inline):
        k = attribution.KEEP[prop]
        return frozenset(c for c in self.pair.abstractable if c not in inline
                         and not any(k[w] & self.own.get(w, set()) for w in self.reach.get(c, ()) if w in k))

    def setting(self, mode, unit, inline):
        if mode == 'full': return None, ()
        kind, x = mode
        return frozenset([x]), frozenset(self.pair.abstractable)


ERRORS = None


def unmodelled(notes):
    """(names of calls without a model, anything else the analysis gave up on)"""
    return {n[8:] for n in notes if n.startswith('call of ')}, [n for n in notes if not n.startswith('call of ')]


def mentions(v, names, memo):
    """does a value depend on a call without a model"""
    if isinstance(v, tuple): return any(mentions(x, names, memo) for x in v)
    if v.__class__ is Node:
        k = ('n', v.id)
        if k not in memo:
            memo[k] = False
            memo[k] = mentions(v.val, names, memo) if v.var is None else \
                mentions(v.var.term, names, memo) or any(mentions(x, names, memo) for x in v.kids) or any(mentions(x, names, memo) for x in v.keys or ())
        return memo[k]
    if v.__class__ is not Term: return False
    k = ('t', v.id)
    if k not in memo:
        memo[k] = False
        memo[k] = (v.op == 'call' and v.args[0] in names) or v.op == 'havoc' or any(mentions(x, names, memo) for x in v.args)
    return memo[k]


def calls(x, acc, seen, op='call'):
    """the calls of functions that are compared on their own, anywhere in a value"""
    st = [x]
    while st:
        x = st.pop()
        if x.__class__ is tuple:
            st.extend(x)
            continue
        if x.__class__ is not Term and x.__class__ is not Node or (x.__class__, x.id) in seen: continue
        seen.add((x.__class__, x.id))
        if x.__class__ is Node:
            if x.var is None: st.append(x.val)
            else:
                st.append(x.var.term)
                st.extend(x.kids)
                st.extend(x.keys or ())
            continue
        if x.op == op: acc.add(x)
        st.extend(x.args)
    return acc


def differing(a, r):
    """functions called with other arguments: (those whose arguments hold no such call, all of them)"""
    A, B = (calls((o.pc, o.val, tuple(x for x in o.posts if x is not None)), set(), set()) for o in (a, r))
    d = A ^ B
    roots = set()
    for t in d:
        inner = set()
        calls(t.args, inner, set())
        if not inner & d: roots.add(t.args[0])
    return sorted(roots), sorted({t.args[0] for t in d})


def arithmetic(v):
    """a source position computed rather than taken from a construct"""
    return any(t.__class__ is Term and t.op in ('add', 'addc', 'sub', 'mul', 'div', 'rem') for t, _ in leaves(v)) if v.__class__ is Node else False


def outcomes(a, r, mode):
    """the differences between two outcomes, where both return and where both succeed"""
    ds = []
    equiv.compare(a.pc, r.pc, TRUE, ('return',), ds)
    care = And(a.pc, r.pc)
    if a.val is not None and r.val is not None:
        av, rv = a.val, r.val
        if mode != 'full' and mode[0] == 'kind': av, rv = anyfirst(av), anyfirst(rv)
        equiv.compare(av, rv, care, (), ds)
    # what a failed call leaves behind is thrown away with it
    ok = And(care, succeeded(a.val), succeeded(r.val))
    for n, (x, y) in enumerate(zip(a.posts, r.posts)):
        if ok is not FALSE: equiv.compare(x, y, ok, ('&mut%d' % n,), ds)
    return ds, care, ok


def job(path, ctx, inline, mode='full', inst=0):
    """compare one unit in both trees; inst > 0: with at most that many elements in every list of the input"""
    global ERRORS
    if V.INST != inst:
        V.INST = inst
        V._veq.clear()
    R = equiv.Runner(PAIR)
    if mode != 'full':
        if ERRORS is None: ERRORS = Errors(PAIR)
        R.keep, R.quiet = ERRORS.setting(mode, path, inline)
    out = {'path': path, 'ctx': ctx, 'inline': inline, 'mode': mode, 'inst': inst, 'diffs': [], 'facts': [], 'err': None, 'undecided': [], 'more': False, 'less': False, 'posarith': False}
    t = time.time()
    r = R.run(1, path, ctx, inline)
    a = R.run(0, path, ctx, inline)
    out['calls'] = (sorted(a.absn), sorted(r.absn))
    out['unknown'] = (list(a.unknown.items())[:8], list(r.unknown.items())[:8])
    out['ctx_out'] = sorted({(n, c) for o in (a, r) for n, cs in o.ctx.items() for c in cs})
    out['stats'] = a.stats
    if a.err or r.err:
        out['err'] = (a.err, r.err)
    else:
        V.TREE = PAIR.trees[0]
        ds, care, ok = outcomes(a, r, mode)
        if ds and equiv.enrich(a, r): ds, care, ok = outcomes(a, r, mode)
        if ds: out['roots'], out['others'] = differing(a, r)
        # a difference that rests on a call without a model decides nothing
        names, other = unmodelled(a.unknown)
        memo = {}
        for d in ds:
            can = equiv.possible(d.guard, d.a, d.b)
            if can is False: continue
            if can is None and inst: out['undecided'].append(('/'.join(d.path), ['too many cases']))
            elif other or names and any(mentions(x, names, memo) for x in (d.a, d.guard) if x is not None):
                out['undecided'].append(('/'.join(d.path), sorted(names) + other))
            else: out['diffs'].append(('/'.join(d.path), text(d.guard, 200), text(d.a), text(d.b)))
            if 'span_range' in d.path and d.a is not None and arithmetic(d.a): out['posarith'] = True
        fa, fr2 = failed(a.val), failed(r.val)
        if fa is not FALSE or fr2 is not FALSE:
            out['more'] = And(care, fa, Not(fr2)) is not FALSE
            out['less'] = And(care, fr2, Not(fa)) is not FALSE
            if mode == 'full' and path.startswith('analyzer::') and not boolean_result(path) and fa is not fr2:
                if out['more'] or out['less']:
                    out['verdicts'] = failures(a.val, r.val, care)
                    out['names'] = names_in(fa, fr2)
            if mode == 'full' and path in ERR_UNITS and ds: out['positions'], out['mixed'] = positions(a.val, r.val, care, not out['more'] and not out['less'])
        fr = Or(*[g for s, g in r.facts])
        for s, g in a.facts:
            x = And(g, Not(fr))
            if x is FALSE: continue
            if any(v.args[0] == 'Mul' and (mentions(v.args[2:], (), {}) or calls(v.args[2:], set(), set(), 'fold')) for v in calls(g, set(), set(), 'overflow')):
                out['facts'].append((s + ' (a product computed in a loop)', text(x)))
            elif not s.startswith('unproved') and (other or names and mentions(x, names, memo)): out['undecided'].append(('panic ' + s, sorted(names) + other))
            else: out['facts'].append((s, text(x)))
        out['nfacts'] = len(r.facts)
        out['reffacts'] = [(s, text(g, 200)) for s, g in a.facts]
    out['kept'] = selections(a.val) if mode == 'full' and path.startswith('parser::') and a.val is not None and not a.err else []
    out['time'] = time.time() - t
    return out


# ------------------------------------------------------------------ which error
_tpl = {}


def templates(which):
    """per error kind the constant text its message begins with"""
    if which not in _tpl:
        t = PAIR.trees[which]
        V.TREE = t
        out = []
        a = t.adts.get('Err')
        f = next((i for i, f in t.fns.items() if f['path'] == 'analyzer::err::throw_err'), None)
        if a and f:
            for v in a['variants']:
                eng = engine.Engine(t, stdlib.Lib)
                st = engine.St(TRUE, {})
                e = T('D', 'Err', ((v['name'], TRUE, tuple((n, V.mk_sym(T('sym', 'tpl' + n, str(equiv.norm_ty(ty))), ty)) for n, ty in v['fields'])),))
                args = []
                b = t.fns[f]['body']
                for i in range(b['argc']):
                    ty = b['locals'][i + 1]['ty']
                    args.append(e if tname(equiv.deref_ty(ty)) == 'Err' else mk_sym(T('sym', 'tpla%d' % i, str(equiv.norm_ty(equiv.deref_ty(ty)))), equiv.deref_ty(ty)))
                try: r = eng.call_fn(f, args, st)
                except Exception: continue
                for k, g in labels(r[1], lambda m: beginning(m)):
                    if k: out.append((k, v['name']))
        _tpl[which] = sorted(out, key=lambda x: -len(x[0]))
    return _tpl[which]


def beginning(m):
    """constant text a message begins with"""
    if m.__class__ is Term and m.op == 'cat': m = m.args[0]
    if m.__class__ is Node and m.var is None: return beginning(m.val)
    return m.args[0] if m.__class__ is Term and m.op == 'str' else ''


def labels(v, name):
    """[(label, condition)] of the ways a result fails: the kind of error, or the callee it comes from"""
    v = force(v) if v.__class__ is Term else v
    out = {}

    def add(k, g):
        if g is not FALSE: out[k] = Or(out.get(k, FALSE), g)

    def payload(e, g):
        if g is FALSE: return
        if e.__class__ is Node:
            for x, h in leaves(e, g): payload(x, And(g, h))
            return
        if e.__class__ is not Term: return add('?', g)
        if e.op == 'MUX':
            for h, x in e.args[0]: payload(x, And(g, h))
            return
        if e.op == 'D':
            for n, h, fs in e.args[1]:
                fs = dict(fs)
                if 'variant' in fs: payload(fs['variant'], And(g, h))
                elif 'message' in fs:
                    m = fs['message']
                    if m.__class__ is Node:
                        for x, h2 in leaves(m, And(g, h)): add(name(x), And(g, h, h2))
                    else: add(name(m), And(g, h))
                else: add('?', And(g, h))
            return
        x = e
        while x.__class__ is Term and x.args:
            if x.op == 'call': return add('call:' + str(x.args[0]), g)
            x = x.args[0]
        add('?', g)
    if v.__class__ is Term and v.op == 'D' and v.args[0] == 'Result':
        for n, g, fs in v.args[1]:
            if n == 'Err': payload(dict(fs)['0'], g)
    return sorted(out.items())


def namer(which):
    ts = templates(which)

    def name(m):
        b = beginning(m)
        for k, n in ts:
            if b.startswith(k): return n
        return '?'
    return name


def sharpened(c, rounds=4):
    """the condition with what it says about whole lists put to the element that fails first"""
    import dd
    dd.LIMIT[0] = len(dd._nodes) + 400000
    try: return sharpened1(c, rounds)
    except dd.Budget: return c
    finally: dd.LIMIT[0] = 1 << 60


def sharpened1(c, rounds):
    done = set()
    for _ in range(rounds):
        if c is FALSE or c is TRUE: return c
        firsts, counts = {}, []

        def walk(t, memo):
            if t.__class__ is tuple:
                for x in t: walk(x, memo)
                return
            if t.__class__ is Node:
                if ('n', t.id) in memo: return
                memo.add(('n', t.id))
                for v in t.sup: walk(v.term, memo)
                return
            if t.__class__ is not Term or t.id in memo: return
            memo.add(t.id)
            if t.op in V.BIND:
                if t.op == 'first': firsts.setdefault(t.args[1], []).append(t)
                walk(t.args[1], memo)
                return
            walk(t.args, memo)
        memo = set()
        for v in c.sup:
            walk(v.term, memo)
            if v.term.op == 'count': counts.append(v.term)
        lem = []
        for dom, fs in firsts.items():
            for f in fs:
                if (f, f) not in done:
                    done.add((f, f))
                    j = fresh()
                    (p,) = V.unbind(f, j)
                    lem.append(Or(Not(V.exists(dom, j, p)), V.subst(p, {j: f})))
                for q in counts:
                    if q.args[1] is dom and (f, q) not in done:
                        done.add((f, q))
                        lem.append(Or(V.tge(q, 1), Not(V.unbind(q, f)[0])))
        if not lem: return c
        for l in sorted(lem, key=lambda l: len(l.sup)): c = And(c, l)
    return c


def failures(a, r, care):
    """[(direction, label, condition)]: which errors one tree raises where the other one succeeds"""
    out = []
    end = time.time() + 60
    for dr, x, y, w in (('less', r, a, 1), ('more', a, r, 0)):
        oky = And(care, succeeded(y))
        if And(oky, failed(x)) is FALSE: continue
        for k, g in labels(x, namer(w)):
            c = And(oky, g)
            if c is not FALSE and time.time() < end: c = sharpened(c)
            if c is not FALSE: out.append((dr, k, text(c, 300)))
    return out


def errpayload(v):
    v = force(v) if v.__class__ is Term else v
    for n, g, fs in v.args[1] if v.__class__ is Term and v.op == 'D' and v.args[0] == 'Result' else ():
        if n == 'Err': return dict(fs)['0']


def positions(a, r, care, same):
    """per kind of error what is different about it where both trees raise it; pairs of different kinds"""
    la, lr = dict(labels(a, namer(0))), dict(labels(r, namer(1)))
    ea, er = errpayload(a), errpayload(r)
    diff, mixed = [], []
    if ea is None or er is None or ea is er: return diff, mixed
    for k in lr:
        if k.startswith('call:'): continue
        for j in la:
            g = And(care, lr[k], la[j])
            if g is FALSE: continue
            if j != k:
                if same and not j.startswith('call:') and not (k == '?' or j == '?'): mixed.append((k, j))
                continue
            ds = []
            if same: equiv.compare(ea, er, g, (), ds)
            else:
                # other elements may fail first: only what is said about them is comparable
                x, y = said(ea, g), said(er, g)
                ds = [equiv.Diff(p, g, T('set', *sorted(x.get(p, ()), key=lambda t: t.id)), T('set', *sorted(y.get(p, ()), key=lambda t: t.id)))
                      for p in sorted(set(x) | set(y)) if x.get(p) != y.get(p)]
            for d in ds[:2]: diff.append((k, '/'.join(d.path), text(d.a), text(d.b), text(d.guard, 200)))
    return diff, mixed


def said(e, care):
    """the possible values of the parts of an error, whichever element fails first"""
    out = {}

    def go(v, g, p):
        if v.__class__ is Term: v = force(v)
        if v.__class__ is Node:
            for x, h in leaves(v, g): out.setdefault(p, set()).add(anyfirst(x) if x.__class__ is Term else T('const', x))
        elif v.op == 'MUX':
            for h, x in v.args[0]:
                if And(g, h) is not FALSE: go(x, And(g, h), p)
        elif v.op == 'D':
            for n, h, fs in v.args[1]:
                if And(g, h) is not FALSE:
                    for f, x in fs:
                        if f != 'of': go(x, And(g, h), p + (f,))
        else: out.setdefault(p, set()).add(anyfirst(v))
    go(e, care, ())
    return out


def atoms(n, acc, memo):
    """what a condition looks at, with the bound variables and the way to a failing element left out"""
    import re
    st = [n]
    while st:
        n = st.pop()
        if n.id in memo: continue
        memo.add(n.id)
        if n.var is None: continue
        t = n.var.term
        if t.op in V.BIND:
            for x in t.args[2:]:
                if x.__class__ is Node: st.append(x)
        keys = ' '.join(sorted(show(k) if k.__class__ is Term else str(k) for k in n.keys or ()))
        if t.op not in V.BIND: acc.add(re.sub(r'x\d+', 'x', show(anyfirst(t), 9)) + ' ' + keys)
        st += n.kids
    return acc


def names_in(x, y):
    """do the conditions differ in how a schema, alias or default name is used"""
    return any('public' in a or '.schema' in a or 'alias' in a for a in atoms(x, set(), set()) ^ atoms(y, set(), set()))


_af = {}


def anyfirst(v):
    """the value with the identity of the first failing element forgotten"""
    if v.__class__ is Node:
        if v.var is None: return leaf(anyfirst(v.val)) if v.val.__class__ is Term else v
        k = ('n', v.id)
        if k not in _af:
            _af[k] = recompose(v.var, v.keys, [anyfirst(x) for x in v.kids])
        return _af[k]
    if isinstance(v, tuple): return tuple(anyfirst(x) for x in v)
    if v.__class__ is not Term: return v
    k = v.id
    if k not in _af:
        if v.op == 'first': _af[k] = T('anyfirst', anyfirst(v.args[1]))
        else:
            args = tuple(anyfirst(x) for x in v.args)
            _af[k] = v if args == v.args else T(v.op, *args)
    return _af[k]


def selections(v):
    """fields of a converted block that keep one of several children of a kind: [(struct, field, last or first, kind)]"""
    out = []

    def find(v, hits, seen):
        if isinstance(v, tuple):
            for x in v: find(x, hits, seen)
        elif v.__class__ is Node:
            if ('n', v.id) in seen: return
            seen.add(('n', v.id))
            if v.var is None: find(v.val, hits, seen)
            else: find((v.var.term,) + tuple(v.kids), hits, seen)
        elif v.__class__ is Term:
            if v.id in seen: return
            seen.add(v.id)
            if v.op in ('last', 'first'): hits.append(v)
            find(v.args, hits, seen)
    v = force(v) if v.__class__ is Term else v
    for n, g, fs in v.args[1] if v.__class__ is Term and v.op == 'D' and v.args[0] == 'Result' else ():
        if n != 'Ok': continue
        b = force(dict(fs)['0']) if dict(fs)['0'].__class__ is Term else dict(fs)['0']
        if b.__class__ is not Term or b.op != 'D': continue
        for vn, vg, vf in b.args[1]:
            for f, fv in vf:
                hits = []
                find(fv, hits, set())
                for h in hits:
                    ns = [x for x in h.args if x.__class__ is Node]
                    if ns and all(x.var is not None and x.var.kind == 'enum' and x.var.term.op == 'alt' and all(k in (TRUE, FALSE) for k in x.kids) for x in ns):
                        out.append((b.args[0], f, h.op, text(ns[0], 100)))
    return out


def child(conn, args):
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (MEM, MEM))

    def go():
        try:
            conn.send(job(*args))
        except BaseException as e:
            conn.send(empty(args, traceback.format_exc(limit=-4)))
    threading.stack_size(STACK)
    th = threading.Thread(target=go)
    th.start()
    th.join()
    conn.close()
    sys.stdout.flush()
    os._exit(0)


class Pool:
    def __init__(self, n=8):
        self.n = n
        self.run = []       # (process, conn, args, deadline)
        self.queue = []

    def add(self, args, limit=240): self.queue.append((args, limit))

    def results(self):
        mp = multiprocessing.get_context('fork')
        while self.queue or self.run:
            while self.queue and len(self.run) < self.n:
                args, limit = self.queue.pop(0)
                a, b = mp.Pipe(False)
                p = mp.Process(target=child, args=(b, args))
                p.start()
                b.close()
                self.run.append((p, a, args, min(time.time() + limit * SCALE, max(END, time.time() + 15))))
            ready = multiprocessing.connection.wait([r[1] for r in self.run], 1)
            for r in list(self.run):
                p, c, args, dl = r
                res = None
                if c in ready:
                    try: res = c.recv()
                    except EOFError: res = 'died'
                elif time.time() > dl:
                    p.kill()
                    res = 'time limit'
                if res is not None:
                    self.run.remove(r)
                    c.close()
                    p.join()
                    if isinstance(res, str): res = empty(args, res)
                    yield res

    def all(self): return list(self.results())


def empty(args, err):
    return {'path': args[0], 'ctx': args[1], 'inline': args[2], 'mode': args[3] if len(args) > 3 else 'full', 'inst': args[4] if len(args) > 4 else 0, 'diffs': [], 'facts': [], 'calls': ([], []),
            'unknown': ([], []), 'ctx_out': [], 'err': (err, None), 'undecided': [], 'more': False, 'less': False, 'posarith': False, 'time': 0}


def is_pair_fn(path):
    t = PAIR.trees[0]
    b = t.fns[PAIR.units[path][0]]['body']
    return any(tname(equiv.deref_ty(b['locals'][i + 1]['ty'])) == 'Pair' for i in range(b['argc']))


def entry(path):
    """callable from outside of the crate"""
    return path.startswith(('ast::', '<ast::')) or path in ('parse_dbml', 'parser::parse', 'utils::get_table_refs')


def internal(path):
    """expanded into its callers everywhere, so that it needs no comparison of its own"""
    return path not in PAIR.abstractable and not entry(path)


def compare_all(paths=None, verbose=False):
    setup()
    pool = Pool()
    seen = set()
    res = {}

    def add(p, ctx):
        if (p, ctx) in seen or p not in PAIR.units or internal(p): return
        seen.add((p, ctx))
        pool.add((p, ctx, frozenset()))
    order = sorted(PAIR.units, key=lambda p: -len(PAIR.trees[0].cfg(PAIR.units[p][0]).order))
    for p in order:
        if paths and not any(x in p for x in paths): continue
        if not is_pair_fn(p): add(p, ())
    for r in pool.results():
        res[(r['path'], r['ctx'])] = r
        if verbose: show_result(r, verbose)
        for n, c in r['ctx_out']:
            if not paths or any(x in n for x in paths): add(n, (c,))
    return res


def show_result(r, verbose=1):
    if r['diffs'] or r['err'] or r['facts'] or r['undecided'] or verbose > 1:
        print('%-60s %s %s %.1fs %s %s more=%s less=%s' % (r['path'], r['ctx'], sorted(r['inline']), r['time'], r['err'] or '', r['unknown'][0], r['more'], r['less']))
        for d in r['diffs']: print('    DIFF', d[0], '\n        when', d[1], '\n        got ', d[2], '\n        want', d[3])
        for s, g in r['facts']: print('    PANIC', s, g[:200])
        for u in r['undecided']: print('    UNDECIDED', u)
        for u in r.get('verdicts', ()): print('    VERDICT', u)


def bad(r): return bool(r['diffs'] or r['facts'])


class Comparison:
    """compares everything, then tries to explain each difference away by expanding functions"""

    def __init__(self, verbose=False, thorough=False):
        setup()
        if thorough: deep()
        self.verbose = verbose
        self.base = compare_all(None, verbose)
        self.missing = [p for p in ENTRIES if p not in PAIR.units]
        self.contexts = {}
        for (p, c), r in self.base.items(): self.contexts.setdefault(p, set()).add(c)
        self.bounds, self.safe = {}, set()
        self.dropped = []
        self.open = []               # differences that stand: (result, inline set)
        todo = [r for r in self.base.values() if bad(r) or r['err']]
        todo += self.bounded([r for r in self.base.values() if r['undecided'] or any(f[0].startswith('unproved') for f in r['facts']) or r['err'] and 'limit' not in str(r['err']) and 'MemoryError' not in str(r['err'])])
        if thorough: todo += self.respelled([r for r in self.base.values() if not r['err'] and not bad(r) and not r['undecided']])
        if todo: self.refute(todo)
        self.short()

    def respelled(self, rs):
        """the functions that agree for lists of any length, compared again for short lists with every loop spelled out:
        this does not rest on the closed forms of loops and iterators"""
        pool = Pool()
        for r in rs:
            for k in sizes(r['path'])[0]: pool.add((r['path'], r['ctx'], frozenset(), 'full', k), 300)
        self.again, out = [0, 0], []
        for q in pool.results():
            if self.verbose: print('again', q['inst']); show_result(q)
            ok = not q['err'] and not q['undecided']
            self.again[not ok] += 1
            if ok and bad(q): out.append(q)
        return out

    def bounded(self, todo):
        """what stays open for lists of any length, decided for lists of a few elements"""
        pool = Pool()
        for r in todo:
            for ks in sizes(r['path']):
                for k in ks: pool.add((r['path'], r['ctx'], frozenset(), 'full', k), 120)
        got = {}
        for q in pool.results():
            if self.verbose: print('up to %s elements' % (q['inst'],)); show_result(q)
            got[(q['path'], q['ctx'], q['inst'])] = q
        out = []
        self.bounds, self.safe = {}, set()
        for r in todo:
            for ks in sizes(r['path']):
                qs = [got[(r['path'], r['ctx'], k)] for k in ks if (r['path'], r['ctx'], k) in got]
                wrong = [q for q in qs if not q['err'] and bad(q)]
                if wrong or len(qs) == len(ks) and not any(q['err'] or q['undecided'] for q in qs):
                    self.bounds[(r['path'], r['ctx'])] = (wrong[0]['inst'] if wrong else ks[0] if len(ks) == 1 else (3, 1), 'differs' if wrong else 'equal')
                    if wrong: out.append(min(wrong, key=lambda q: len(q['undecided'])))
                    if not any(q['facts'] for q in qs): self.safe.add((r['path'], r['ctx']))
                    break
        return out

    def short(self):
        """differences for lists of any length that no short list shows: kept when a number in the source may tell longer lists apart"""
        todo = [r for r in self.open if not r['inst'] and not r['err'] and not r['facts']]
        if not todo or PAIR.trees[0].numbers() - PAIR.trees[1].numbers(): return
        pool = Pool()
        for r in todo:
            for k in sizes(r['path'])[0]: pool.add((r['path'], r['ctx'], frozenset(), 'full', k), 150)
        fine = {}
        for q in pool.results():
            if self.verbose: print('short', q['inst']); show_result(q)
            fine.setdefault((q['path'], q['ctx']), []).append(not q['err'] and not q['undecided'] and not bad(q))
        for r in todo:
            if all(fine.get((r['path'], r['ctx']), [False])):
                self.open.remove(r)
                self.dropped.append((r['path'], r['ctx'], 'equal for all lists of up to 3 elements, and no number in the source tells longer ones apart'))

    def refute(self, todo):
        # calls that only one side makes, or makes with other arguments
        pool = Pool()
        n = 0
        for r in todo:
            if r['err']: continue
            a, b = set(r['calls'][0]), set(r['calls'][1])
            o = r.get('others', ())
            for s in {frozenset(a ^ b), frozenset(r.get('roots', ())) | (a ^ b), frozenset(x for x in o if self.light(x)), frozenset(o),
                      frozenset(x for x in a | b if self.light(x)), *(frozenset([x]) for x in list(o)[:6])}:
                if s and s <= PAIR.abstractable:
                    pool.add((r['path'], r['ctx'], s, 'full', r['inst']), 60)
                    n += 1
        best = {}
        for q in pool.results():
            if self.verbose: print('refine'); show_result(q)
            if not q['err']: best.setdefault((q['path'], q['ctx'], q['inst']), []).append(q)
        left = []
        for r in todo:
            qs = best.get((r['path'], r['ctx'], r['inst']), [])
            if any(not bad(q) and not q['err'] for q in qs): self.dropped.append((r['path'], r['ctx'], 'equal after expanding callees'))
            else: left.append(r)
        # differences that no caller passes on
        pool = Pool()
        wait = {}
        for r in left:
            p = r['path']
            cs = (PAIR.callers[0].get(p, set()) | PAIR.callers[1].get(p, set())) - {p}
            if entry(p) or not cs or any(c not in PAIR.units for c in cs): continue
            wait[(p, r['ctx'], r['inst'])] = [(c, x) for c in cs for x in sorted(self.contexts.get(c, ()))]
            for c, x in wait[(p, r['ctx'], r['inst'])]:
                pool.add((c, x, frozenset([p] + [q['path'] for q in left if q['path'] != c and q['path'] in PAIR.abstractable and c in PAIR.callers[0].get(q['path'], ())]), 'full', r['inst']), 100)
        got = {}
        for q in pool.results():
            if self.verbose: print('caller'); show_result(q)
            for p in q['inline']: got.setdefault((p, q['path'], q['ctx'], q['inst']), []).append(q)
        for r in left:
            k = (r['path'], r['ctx'], r['inst'])
            ok = k in wait and wait[k] and all(any(not bad(q) and not q['err'] for q in got.get((k[0], c, x, k[2]), [])) for c, x in wait[k])
            if ok: self.dropped.append((r['path'], r['ctx'], 'no caller passes the difference on'))
            else: self.open.append(r)

    def light(self, p):
        """small enough to be expanded"""
        t, f = PAIR.trees[1], PAIR.units.get(p)
        return f is not None and len(t.cfg(f[1]).order) <= 80

    # -------------------------------------------------------------- properties
    def verdict(self, prop):
        """[(key, text)] of what breaks the property, and notes"""
        out, notes = [], []
        for p in self.missing: out.append(('missing:' + p, 'the entry point %s is gone or has another signature' % p))
        for p, c, why in self.dropped: notes.append('%s: differs on its own, %s' % (p, why))
        for r in self.base.values():
            k = self.bounds.get((r['path'], r['ctx']))
            if k: notes.append('%s: %s for lists of up to %s elements' % (r['path'], k[1], ', '.join(map(str, k[0])) + ' (by nesting)' if k[0].__class__ is tuple else k[0]))
            for u in r['undecided']: notes.append('%s: undecided at %s: no model of %s' % (r['path'], u[0], u[1][:4]))
        for r in self.open:
            u = r['path']
            if r['err']:
                notes.append('%s: not decided: %s' % (u, str(r['err'])[-300:]))
                continue
            if prop == 'C01':
                for s, g in r['facts']:
                    # an index computed in a loop that stays inside for every short list
                    if not (s.startswith('unproved') and (u, r['ctx']) in self.safe): out.append(('panic:%s:%s' % (u, s), '%s: %s may panic when %s' % (where(u), s, g)))
                if r['posarith']: out.append(('position:' + u, '%s: a source position is computed and may lie outside of the text or inside a character' % where(u)))
                for d in r['diffs']:
                    if u == 'parser::parse_col_settings' and ('default' in d[0].split('/') or 'attributes' in d[0].split('/')) \
                            or u == 'parser::parse_col_type' and 'type_name' in d[0]:
                        out.append(('premise:' + u, '%s: %s; the validation relies on it (a default value always has its attribute, a type is always raw) and panics otherwise: %s' % (where(u), d[0], d[2])))
                        break
                continue
            if prop == 'C32':
                if r['more'] and (u.startswith('analyzer::') and self.returns_result(u) and ('verdicts' not in r or any(v[0] == 'more' for v in r['verdicts'])) or u == 'parse_dbml'):
                    out.append(('more:' + u, '%s: fails where the documented rules hold: %s' % (where(u), first(r))))
                continue
            if prop == 'C29':
                if u in ERR_UNITS: out += self.positions(r)
                continue
            if r.get('verdicts') and (prop in attribution.KEEP or prop == 'C27' and r.get('names')): out += self.judged(prop, r)
            for d in r['diffs']:
                if prop in attribution.props(u, d[0]):
                    out.append(('%s:%s' % (u, d[0]), '%s: %s is %s instead of %s when %s' % (where(u), d[0], d[2], d[3], d[1])))
        if prop == 'C32':
            out += self.stricter()
        if prop == 'C14':
            for r in self.base.values():
                for st, f, how, g in r.get('kept', ()):
                    out.append(('dropped:%s.%s' % (st, f), '%s: of several members of a kind the block may repeat only the %s is kept in %s.%s (%s)' % (where(r['path']), how, st, f, g)))
        return out, notes

    def judged(self, prop, r):
        """errors of a property that are raised under another condition"""
        global ERRORS
        if ERRORS is None: ERRORS = Errors(PAIR)
        u = r['path']
        out = []
        for dr, k, g in r['verdicts']:
            if prop == 'C27': mine = not k.startswith('call:')
            elif k.startswith('call:'):
                kp = attribution.KEEP[prop]
                mine = any(kp[w] & ERRORS.own.get(w, set()) for w in ERRORS.reach.get(k[5:], ()) if w in kp)
            else: mine = k == '?' or k in ERRORS.keep(prop, u, r['inline'])
            if mine:
                out.append(('verdict:%s:%s' % (u, k), '%s: %s %s when %s' % (where(u), {'less': 'no longer raises', 'more': 'also raises'}[dr],
                            'an error of ' + k[5:] if k.startswith('call:') else 'the error ' + k, g)))
        return out

    def returns_result(self, u):
        t = PAIR.trees[1]
        return tname(t.fns[PAIR.units[u][1]]['body']['locals'][0]['ty']) == 'Result'

    def positions(self, r):
        """C29: per error kind, with every other failure taken for success: the same message at the same place"""
        u = r['path']
        out = [('%s:%s' % (u, k), '%s: the error %s: %s is %s instead of %s when %s' % (where(u), k, p, x, y, g)) for k, p, x, y, g in r.get('positions', ())]
        pool = Pool()
        for k in sorted({k for k, j in r.get('mixed', ())}): pool.add((u, r['ctx'], frozenset(), ('kind', k), r['inst']), 100)
        for q in pool.results():
            if self.verbose: print('kind', q['mode']); show_result(q)
            if q['undecided']: continue
            for d in q['diffs']:
                guard = d[0].split('/')[-1] in ('?', 'return')
                if not guard and d[0].startswith('Err/') or guard and not r['more'] and not r['less'] and d[0].startswith(('Err', 'Ok')):
                    out.append(('%s:%s' % (u, q['mode'][1]), '%s: the error %s: %s is %s instead of %s when %s' % (where(u), q['mode'][1], d[0], d[2], d[3], d[1])))
                    break
        return out

    def stricter(self):
        """helpers of the validation: does a caller now fail more often"""
        pool = Pool()
        out = []
        for r in self.open:
            u = r['path']
            if r['err'] or not u.startswith(('analyzer::', '<analyzer::')) or self.returns_result(u) and not any('&mut' in d[0] for d in r['diffs']): continue
            b = PAIR.trees[1].fns[PAIR.units[u][1]]['body']['locals'][0]['ty']
            if b.get('k') == 'prim' and b.get('s') == 'bool':
                if r['more']: out.append(('more:' + u, '%s: holds where it should not, and its callers reject: %s' % (where(u), first(r))))
                continue
            for c in PAIR.callers[0].get(u, ()):
                if c in PAIR.units and c != u and c.startswith('analyzer::'):
                    for x in self.contexts.get(c, ()): pool.add((c, x, frozenset([u]), 'full', r['inst']), 200)
        for q in pool.results():
            if self.verbose: print('stricter'); show_result(q)
            if q['more'] and not q['err'] and self.returns_result(q['path']):
                out.append(('more:' + q['path'], '%s: with the changed %s it fails where the documented rules hold: %s' % (where(q['path']), ', '.join(q['inline']), first(q))))
            if q['more'] and not q['err'] and not self.returns_result(q['path']):
                out.append(('more:' + q['path'], '%s: changed through %s: %s' % (where(q['path']), ', '.join(q['inline']), first(q))))
        return out


# bounds on the lists of the input, tried in this order: one number, or one per depth of nesting, and the kinds of the blocks of the schema
SIZES = [(3,), (2,), ((2, 1),), (1,)]
PAIRS = (('Table', 'Ref'), ('Ref', 'Table'), ('Ref', 'Ref'), ('Table', 'Enum'), ('Enum', 'Table'), ('Table', 'TableGroup'), ('TableGroup', 'Table'), ('Enum', 'Enum'),
         ('TableGroup', 'TableGroup'), ('Table', 'Table'))


def sizes(path):
    if path != 'analyzer::analyze': return SIZES
    return [tuple((3, 1, ('Project',) + p) for p in PAIRS)] + SIZES[2:]
ENTRIES = ('parse_dbml', 'parser::parse', 'utils::get_table_refs')
ERR_UNITS = attribution._ALL


def first(r):
    for d in r['diffs']:
        if d[0].split('/')[-1] == '?': return 'when %s' % d[1]
    return 'at %s' % (r['diffs'][0][0] if r['diffs'] else '')


def where(u):
    t = PAIR.trees[0]
    f = t.fns[PAIR.units[u][0]]
    return '%s (%s)' % (u, f.get('at') or f['body']['blocks'][0].get('at'))


if __name__ == '__main__':
    t = time.time()
    if sys.argv[1:2] == ['-p']:
        C = Comparison(int(os.environ.get('VERBOSE') or 0))
        print('open', sorted({r['path'] for r in C.open if not r['err']}), 'undecided', [(r['path'], str(r['err'])[-200:]) for r in C.open if r['err']] + [u for r in C.base.values() for u in r['undecided']][:6], 'dropped', C.dropped)
        ps = sys.argv[2:] or ['C%02d' % i for i in range(1, 34) if i not in (2, 3, 30, 31)]
        hit = {}
        for p in ps:
            v, n = C.verdict(p)
            v = [x for x in v if not x[0].startswith('dropped:') or ('key=%s ' % x[0]) not in open(os.path.join(os.path.dirname(__file__), '..', 'KNOWN_FINDINGS.txt')).read()]
            if v: hit[p] = v
            for k, x in v[:3]: print(p, k, x[:600])
        print('VIOLATED', sorted(hit), '%.1fs' % (time.time() - t))
    else:
        r = compare_all(sys.argv[1:], 1)
        print(len(r), 'contexts', sum(bool(x['diffs']) for x in r.values()), 'differ', '%.1fs' % (time.time() - t))
