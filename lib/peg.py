"""Exact comparison of PEG rules.

The grammar is acyclic, so every rule denotes a regular relation: the words  u # v  such that the rule, applied to the
text uv, succeeds and consumes u; u also carries the begin/end events of the pairs the engine emits.  The relation is
built compositionally as a minimal DFA (ordered choice and greedy repetition included, through the set of texts on
which an expression fails), and two rules behave the same iff their DFAs accept the same words."""
import time
from grammar import GrammarError, kids

NON, COMP, ATOM = 'N', 'C', 'A'
END = '#'
LIMIT = 60000
DEADLINE = [None]


class TooBig(Exception):
    pass


class Dfa:
    """trimmed partial DFA; trans: list of dict sym -> state"""
    __slots__ = ('start', 'trans', 'acc', 'univ', '_fail')

    def __init__(self, start, trans, acc):
        self.start, self.trans, self.acc = start, trans, acc
        self._fail = None


def explore(init, step, accept, syms):
    """determinised, minimised, trimmed DFA of a lazily given deterministic machine; None is the dead state"""
    if init is None:
        return Dfa(0, [{}], frozenset())
    ids = {init: 0}
    order = [init]
    trans = []
    i = 0
    while i < len(order):
        s = order[i]
        t = {}
        if DEADLINE[0] and (i & 63) == 0 and time.time() > DEADLINE[0]: raise TooBig()
        for c, n in step(s):
            if n is None: continue
            j = ids.get(n)
            if j is None:
                j = ids[n] = len(order)
                order.append(n)
                if j > LIMIT: raise TooBig()
            t[c] = j
        trans.append(t)
        i += 1
    acc = {i for i, s in enumerate(order) if accept(s)}
    return minimise(0, trans, acc)


def minimise(start, trans, acc):
    n = len(trans)
    # trim: states that reach acceptance
    rev = [[] for _ in range(n)]
    for i, t in enumerate(trans):
        for j in t.values(): rev[j].append(i)
    live = set(acc)
    st = list(acc)
    while st:
        j = st.pop()
        for i in rev[j]:
            if i not in live: live.add(i); st.append(i)
    if start not in live:
        return Dfa(0, [{}], frozenset())
    trans = [{c: j for c, j in t.items() if j in live} if i in live else {} for i, t in enumerate(trans)]
    part = [1 if i in acc else 0 for i in range(n)]
    k = len({part[i] for i in live})
    while True:
        sig = {}
        new = [0] * n
        for i in live:
            s = (part[i], frozenset((c, part[j]) for c, j in trans[i].items()))
            x = sig.get(s)
            if x is None: x = sig[s] = len(sig)
            new[i] = x
        if len(sig) == k:
            part = new
            break
        k = len(sig)
        part = new
    ids = {}
    nt = []
    na = set()
    ids[part[start]] = 0
    q = [start]
    while q:
        nq = []
        for i in q:
            t = {}
            for c in trans[i]:
                j = trans[i][c]
                p = part[j]
                if p not in ids:
                    ids[p] = len(ids)
                    nq.append(j)
                t[c] = ids[p]
            nt.append(t)
            if i in acc: na.add(ids[part[i]])
        q = nq
    return Dfa(0, nt, frozenset(na))


class Machine:
    """relations of the rules of one grammar over a shared alphabet"""

    def __init__(self, g, alphabet, erased=()):
        self.g = g
        self.al = alphabet
        self.C = alphabet.syms
        self.erased = set(erased)
        self.memo = {}
        self.ememo = {}

    # ------------------------------------------------ primitives
    def eps(self):
        # '#' then anything
        t1 = {c: 1 for c in self.C}
        return Dfa(0, [{END: 1}, t1], frozenset([1]))

    def sets(self, sets):
        """a chain of character sets"""
        n = len(sets)
        trans = [{c: i + 1 for c in s} for i, s in enumerate(sets)]
        trans.append({END: n + 1})
        trans.append({c: n + 1 for c in self.C})
        return Dfa(0, trans, frozenset([n + 1]))

    def univ(self, A):
        """post states that accept everything"""
        u = set()
        for i, t in enumerate(A.trans):
            if i in A.acc and len([c for c in t if c in self.al.symset]) == len(self.C) and all(t[c] == i for c in self.C):
                u.add(i)
        return u

    def fail(self, A):
        """DFA over characters of the texts on which A fails"""
        if A._fail is not None: return A._fail
        evs = {}

        def close(items):
            items = set(items)
            st = list(items)
            while st:
                a = st.pop()
                for c, j in A.trans[a].items():
                    if c not in self.al.symset and j not in items:
                        items.add(j); st.append(j)
            return frozenset(items)
        uni = self.univ(A)

        def red(s):
            return frozenset(['*']) if s & uni else s

        def step(s):
            if s == frozenset(['*']):
                for c in self.C: yield c, s
                return
            for c in self.C:
                yield c, red(close(A.trans[a][c] for a in s if c in A.trans[a]))

        def accept(s):
            return s != frozenset(['*']) and not any(a in A.acc for a in s)
        A._fail = explore(red(close([A.start])), step, accept, self.C)
        return A._fail

    def seq(self, A, B):
        uA, uB = self.univ(A), self.univ(B)

        def close(items):
            items = set(items)
            for it in list(items):
                if it[0] == 0:
                    a = A.trans[it[1]].get(END)
                    if a is not None:
                        items.add((1, None if a in uA else a, B.start))
            return frozenset(items)

        def step(s):
            m = {}
            for it in s:
                if it[0] == 0:
                    for c, j in A.trans[it[1]].items():
                        if c != END: m.setdefault(c, set()).add((0, j))
                else:
                    _, a, b = it
                    for c, j in B.trans[b].items():
                        if c in self.al.symset:
                            if a is None: m.setdefault(c, set()).add((1, None, j))
                            else:
                                a2 = A.trans[a].get(c)
                                if a2 is not None: m.setdefault(c, set()).add((1, None if a2 in uA else a2, j))
                        else:
                            m.setdefault(c, set()).add((1, a, j))
            for c, s2 in m.items():
                yield c, close(s2)

        def accept(s):
            return any(it[0] == 1 and (it[1] is None or it[1] in A.acc) and it[2] in B.acc for it in s)
        return explore(close([(0, A.start)]), step, accept, None)

    def alt(self, A, B):
        F = self.fail(A)

        def step(s):
            a, b, f = s
            cs = set()
            if a is not None: cs |= set(A.trans[a])
            if b is not None and f is not None: cs |= set(B.trans[b])
            for c in cs:
                a2 = A.trans[a].get(c) if a is not None else None
                b2 = B.trans[b].get(c) if b is not None else None
                f2 = f
                if f is not None and c in self.al.symset: f2 = F.trans[f].get(c)
                if b2 is None or f2 is None: b2 = f2 = None
                if a2 is None and b2 is None: continue
                yield c, (a2, b2, f2)

        def accept(s):
            a, b, f = s
            return (a is not None and a in A.acc) or (b is not None and f is not None and b in B.acc and f in F.acc)
        return explore((A.start, B.start, F.start), step, accept, None)

    def rep(self, A):
        """A* (greedy, nothing between the items)"""
        F = self.fail(A)
        uA = self.univ(A)

        def close(items):
            items = set(items)
            st = list(items)
            while st:
                it = st.pop()
                if it[0] == 0:
                    _, O, a = it
                    j = A.trans[a].get(END)
                    if j is not None:
                        O2 = O if j in uA else O | {j}
                        for n in ((0, O2, A.start), (1, O2, F.start)):
                            if n not in items: items.add(n); st.append(n)
            return frozenset(items)

        def stepO(O, c):
            r = set()
            for a in O:
                j = A.trans[a].get(c)
                if j is None: return None
                if j not in uA: r.add(j)
            return frozenset(r)

        def step(s):
            m = {}
            for it in s:
                if it[0] == 0:
                    _, O, a = it
                    for c, j in A.trans[a].items():
                        if c == END: continue
                        if c in self.al.symset:
                            O2 = stepO(O, c)
                            if O2 is None: continue
                        else: O2 = O
                        m.setdefault(c, set()).add((0, O2, j))
                elif it[0] == 1:
                    m.setdefault(END, set()).add((2, it[1], it[2]))
                else:
                    _, O, f = it
                    for c, j in F.trans[f].items():
                        O2 = stepO(O, c)
                        if O2 is not None: m.setdefault(c, set()).add((2, O2, j))
            for c, s2 in m.items():
                yield c, close(s2)

        def accept(s):
            return any(it[0] == 2 and it[2] in F.acc and all(o in A.acc for o in it[1]) for it in s)
        e = frozenset()
        return explore(close([(0, e, A.start), (1, e, F.start)]), step, accept, None)

    def neg(self, A):
        F = self.fail(A)
        trans = [{END: F.start + 1}] + [{c: j + 1 for c, j in t.items()} for t in F.trans]
        if not F.acc: return Dfa(0, [{}], frozenset())
        return Dfa(0, trans, frozenset(j + 1 for j in F.acc))

    def pos(self, A):
        return self.neg(self.neg(A))

    def events(self, name, A, close=True):
        b, e = '<' + name, '>' + name
        n = len(A.trans)
        trans = [dict(t) for t in A.trans]
        extra = {}
        for i in range(n):
            j = trans[i].pop(END, None)
            if j is not None:
                if j not in extra:
                    extra[j] = len(trans)
                    trans.append({END: j})
                trans[i][e] = extra[j]
        s = len(trans)
        trans.append({b: A.start})
        return minimise(s, trans, set(A.acc))

    # ------------------------------------------------ grammar
    def skip(self):
        if 'skip' not in self.memo:
            r = self.eps()
            g = self.g.rules
            if 'WHITESPACE' in g:
                ws = self.expr(g['WHITESPACE'].expr, ATOM)
                wss = self.rep(ws)
            else: wss = None
            if 'COMMENT' in g:
                cm = self.expr(g['COMMENT'].expr, ATOM)
                r = self.rep(self.seq(cm, wss) if wss else cm)
                if wss: r = self.seq(wss, r)
            elif wss: r = wss
            self.memo['skip'] = r
        return self.memo['skip']

    def rule(self, n, ctx):
        """relation of a reference to rule n in a context"""
        k = (n, ctx)
        if k not in self.memo:
            r = self.g.rules[n]
            if n in ('WHITESPACE', 'COMMENT'): inner = ATOM
            else: inner = {'normal': ctx, 'silent': ctx, 'atomic': ATOM, 'compound': COMP, 'nonatomic': NON}[r.ty]
            A = self.expr(r.expr, inner)
            emit = ctx != ATOM and r.ty != 'silent' and n not in self.erased
            if r.ty in ('compound', 'nonatomic') and r.ty != 'silent': emit = n not in self.erased
            self.memo[k] = self.events(n, A) if emit else A
        return self.memo[k]

    def expr(self, e, ctx):
        k = (repr(e), ctx)
        if k not in self.ememo:
            self.ememo[k] = self._expr(e, ctx)
        return self.ememo[k]

    def glue(self, A, B, ctx):
        if ctx == NON: A = self.seq(A, self.skip())
        return self.seq(A, B)

    def star(self, A, ctx):
        if ctx != NON: return self.rep(A)
        return self.alt(self.seq(A, self.rep(self.seq(self.skip(), A))), self.eps())

    def _expr(self, e, ctx):
        k = e[0]
        al = self.al
        if k == 'str': return self.sets([al.of(c, c) for c in e[1]])
        if k == 'istr': return self.sets([al.of(c.lower(), c.lower()) | al.of(c.upper(), c.upper()) if c.isascii() else al.of(c, c) for c in e[1]])
        if k == 'range': return self.sets([al.of(e[1], e[2])])
        if k == 'id':
            n = e[1]
            if n in self.g.rules: return self.rule(n, ctx)
            if n == 'SOI': return self.eps()
            if n == 'EOI':
                d = Dfa(0, [{END: 1}, {}], frozenset([1]))
                return self.events('EOI', d) if ctx != ATOM else d
            if n == 'ANY': return self.sets([frozenset(self.C)])
            if n == 'NEWLINE':
                return self.expr(('alt', [('str', '\n'), ('str', '\r\n'), ('str', '\r')]), ATOM)
            s = BUILTIN.get(n)
            if s is None: raise GrammarError('unknown rule %s' % n)
            r = frozenset()
            for a, b in s: r |= al.of(a, b)
            return self.sets([r])
        if k == 'seq':
            r = None
            for x in e[1]:
                X = self.expr(x, ctx)
                r = X if r is None else self.glue(r, X, ctx)
            return r
        if k == 'alt':
            r = None
            for x in reversed(e[1]):
                X = self.expr(x, ctx)
                r = X if r is None else self.alt(X, r)
            return r
        if k == 'opt': return self.alt(self.expr(e[1], ctx), self.eps())
        if k == 'star': return self.star(self.expr(e[1], ctx), ctx)
        if k == 'plus':
            A = self.expr(e[1], ctx)
            return self.glue(A, self.star(A, ctx), ctx)
        if k == 'rep':
            A = self.expr(e[1], ctx)
            lo, hi = e[2], e[3]
            parts = [A] * lo
            if hi is None: parts.append(self.star(A, ctx))
            elif lo == 0 and hi == 0: return self.eps()
            else: parts += [self.alt(A, self.eps())] * (hi - lo)
            r = parts[0]
            for p in parts[1:]: r = self.glue(r, p, ctx)
            return r
        if k == 'not': return self.neg(self.expr(e[1], ATOM if ctx == ATOM else ctx))
        if k == 'and': return self.pos(self.expr(e[1], ctx))
        raise GrammarError(k)


BUILTIN = {
    'ASCII_DIGIT': [('0', '9')], 'ASCII_NONZERO_DIGIT': [('1', '9')], 'ASCII_BIN_DIGIT': [('0', '1')],
    'ASCII_OCT_DIGIT': [('0', '7')], 'ASCII_HEX_DIGIT': [('0', '9'), ('a', 'f'), ('A', 'F')],
    'ASCII_ALPHA_LOWER': [('a', 'z')], 'ASCII_ALPHA_UPPER': [('A', 'Z')], 'ASCII_ALPHA': [('a', 'z'), ('A', 'Z')],
    'ASCII_ALPHANUMERIC': [('0', '9'), ('a', 'z'), ('A', 'Z')], 'ASCII': [('\0', '\x7f')],
}


class Alphabet:
    """partition of the characters by what the grammars can tell apart"""

    def __init__(self, grammars):
        cuts = {0, 0x110000}
        def rng(a, b):
            cuts.add(ord(a)); cuts.add(ord(b) + 1)
        def walk(e):
            k = e[0]
            if k in ('str', 'istr'):
                for c in e[1]:
                    rng(c, c)
                    if k == 'istr' and c.isascii():
                        rng(c.lower(), c.lower()); rng(c.upper(), c.upper())
            elif k == 'range': rng(e[1], e[2])
            elif k == 'id':
                if e[1] == 'NEWLINE': rng('\n', '\n'); rng('\r', '\r')
                for a, b in BUILTIN.get(e[1], ()): rng(a, b)
            for x in kids(e): walk(x)
        for g in grammars:
            for r in g.rules.values(): walk(r.expr)
        cs = sorted(cuts)
        self.iv = list(zip(cs, cs[1:]))
        # merge intervals no expression separates
        sig = {}
        atoms = set()
        def coll(e):
            k = e[0]
            if k in ('str', 'istr'):
                for c in e[1]:
                    atoms.add(((c, c),) if k == 'str' or not c.isascii() or c.lower() == c.upper() else ((c.lower(), c.lower()), (c.upper(), c.upper())))
            elif k == 'range': atoms.add(((e[1], e[2]),))
            elif k == 'id':
                if e[1] == 'NEWLINE': atoms.add((('\n', '\n'),)); atoms.add((('\r', '\r'),))
                if e[1] in BUILTIN: atoms.add(tuple(BUILTIN[e[1]]))
            for x in kids(e): coll(x)
        for g in grammars:
            for r in g.rules.values(): coll(r.expr)
        atoms = sorted(atoms)
        self.cls = {}
        for lo, hi in self.iv:
            s = tuple(any(ord(a) <= lo and hi - 1 <= ord(b) for a, b in at) for at in atoms)
            self.cls.setdefault(s, []).append((lo, hi))
        self.syms = list(range(len(self.cls)))
        self.symset = set(self.syms)
        self.ranges = list(self.cls.values())

    def of(self, a, b):
        r = set()
        for i, rs in enumerate(self.ranges):
            if any(ord(a) <= lo and hi - 1 <= ord(b) for lo, hi in rs): r.add(i)
        return frozenset(r)

    def show(self, i):
        best = None
        for lo, hi in self.ranges[i]:
            for x in (lo, hi - 1, ord('b'), ord('7')):
                if lo <= x < hi and (best is None or (32 < x < 127 and not 32 < best < 127)): best = x
            if 33 <= lo < 127: best = lo
        return chr(best)


def difference(al, A, B):
    """a shortest word accepted by exactly one of the two, or None"""
    q = [(A.start, B.start)]
    par = {(A.start, B.start): None}
    i = 0
    while i < len(q):
        a, b = q[i]; i += 1
        if (a is not None and a in A.acc) != (b is not None and b in B.acc):
            w = []
            s = (a, b)
            while par[s]:
                s, c = par[s]
                w.append(c)
            return list(reversed(w)), (a is not None and a in A.acc)
        ta = A.trans[a] if a is not None else {}
        tb = B.trans[b] if b is not None else {}
        for c in list(ta) + [c for c in tb if c not in ta]:
            n = (ta.get(c), tb.get(c))
            if n == (None, None) or n in par: continue
            par[n] = ((a, b), c)
            q.append(n)
    return None


def describe(al, w):
    text, cons, evs = '', None, []
    for c in w:
        if c == END: cons = len(text)
        elif isinstance(c, int): text += al.show(c)
        else: evs.append((c, len(text)))
    return text, cons, evs
