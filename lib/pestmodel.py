"""Model of pest: what a parse produces, given the grammar.  Children of a pair follow the words of the grammar rule
(fixed slots, optional slots, alternatives, repetitions); texts and positions are opaque, except that a rule that only
forwards to another one has the text and span of its child, and a rule with finitely many texts has one of them."""
import val as V
from val import *
from dd import *


def norm_alts(d): return tuple(sorted(d))


class Pest:
    def __init__(self, grammar):
        self.g = grammar
        self.fin, self.ml, self.words_, self.trans = {}, {}, {}, {}
        self.note = lambda *a: None

    # ---- facts about rules
    def words(self, r):
        if r not in self.words_:
            self.words_[r] = self.g.words(r) if r in self.g.rules else ('eps',)
        return self.words_[r]

    def finite(self, r):
        if r not in self.fin:
            f = self.g.finite(r) if r in self.g.rules else None
            self.fin[r] = tuple(sorted(f)) if f else None
        return self.fin[r]

    def minlen(self, r):
        if r not in self.ml: self.ml[r] = self.g.minlen(r) if r in self.g.rules else 0
        return self.ml[r]

    def transparent(self, r):
        """rule whose single child spans the same text"""
        if r not in self.trans:
            t = False
            R = self.g.rules.get(r)
            if R is not None and R.ty in ('normal', 'compound', 'nonatomic'):
                xs = R.expr[1] if R.expr[0] == 'alt' else [R.expr]
                t = all(x[0] == 'id' and x[1] in self.g.rules and self.g.rules[x[1]].ty != 'silent' for x in xs)
            self.trans[r] = t
        return self.trans[r]

    # ---- values
    def slot_pair(self, slot, rules):
        """pair at a slot that may hold any of the rules"""
        rs = norm_alts(rules)
        r = leaf(T('pair', slot, rs[-1]))
        t = T('alt', slot)
        for x in rs[:-1]: r = ite(evar(t, rs, x), leaf(T('pair', slot, x)), r)
        return r

    def segs(self, slot, w, pos='0'):
        k = w[0]
        if k == 'eps': return []
        if k == 'sym': return [one(TRUE, self.slot_pair(T('kid', slot, pos), w[1]))]
        if k == 'cat': return [s for n, x in enumerate(w[1]) for s in self.segs(slot, x, pos + '.%d' % n)]
        if k == 'opt':
            g = bvar(T('has', slot, pos))
            return V.guard_segs(self.segs(slot, w[1], pos), g)
        if k == 'alt':
            dom = tuple(str(n) for n in range(len(w[1])))
            out = []
            for n, x in enumerate(w[1]):
                out += V.guard_segs(self.segs(slot, x, pos + '|%d' % n), evar(T('word', slot, pos), dom, str(n)))
            return out
        if k in ('star', 'plus'):
            dom = T('dom+' if k == 'plus' else 'kids', slot, pos)
            if V.INST: return V.slots(dom, lambda i: self.segs(T('at', dom, i), w[1], '0'), 1 if k == 'plus' else 0)
            i = fresh()
            return V.comps(dom, i, self.segs(T('at', dom, i), w[1], '0'))
        raise ValueError(k)

    def kids(self, p):
        slot, rule = p.args
        return Q(self.segs(T('in', slot, rule), self.words(rule)))

    def inner(self, pair):
        r = None
        for p, g in leaves(pair):
            q = self.kids(p) if p.op == 'pair' else T('Q', T('comp', T('bv', 1), T('elems', p), (one(TRUE, leaf(T('at', T('elems', p), T('bv', 1)))),)))
            r = q if r is None else mux(g, q, r)
        return r if r is not None else EMPTYQ

    def on_pair(self, tag, pair, fn):
        return apply1('pest' + tag, pair, fn)

    def canon(self, tag, p):
        """node over pairs with the same text and span as p that forward to nothing"""
        if p.op != 'pair' or not self.transparent(p.args[1]): return leaf(p)
        w = self.words(p.args[1])
        kid = self.slot_pair(T('kid', T('in', p.args[0], p.args[1]), '0'), w[1])
        return apply1('canon', kid, lambda x: self.canon(tag, x))

    def attr(self, tag, pair):
        return self.on_pair(tag, pair, lambda p: apply1('at' + tag, self.canon(tag, p), lambda x: leaf(T(tag, x))))

    def scalar(self, v): return v if v.__class__ is Node else leaf(T('opaque', v))

    # ---- entry
    def parse(self, L, st, args):
        inp = vterm(L.D_(st, args[1]))
        rule = L.D_(st, args[0])
        g = bvar(T('parses', inp))
        r = None
        if rule.__class__ is Term and rule.op == 'D':
            for n, h, _ in rule.args[1]:
                x = leaf(T('pair', T('root', inp), n))
                r = x if r is None else ite(h, x, r)
        q = Q([one(TRUE, r)])
        pairs = struct('Pairs', of=leaf(T('top', inp)), q=q)
        e = T('OP', T('syntax_error', inp))
        return st, D('Result', [('Ok', g, {'0': pairs}), ('Err', Not(g), {'0': e})])

    def call(self, L, st, name, args, at):
        o, m = name.split('.')
        a = args[0]
        if o == 'Pair':
            if a.__class__ is not Node:
                L.e.note('pair method on an unknown value', at)
                return st, T('OP', T('pest', m, vterm(a)))
            a = vrestrict(a, st.pc)
            if m == 'as_rule':
                by = {}
                for p, g in leaves(a):
                    n = p.args[1] if p.op == 'pair' else '?'
                    by[n] = Or(by.get(n, FALSE), g)
                if '?' in by:
                    L.e.note('rule of an unknown pair', at)
                    return st, T('OP', T('rule', vterm(a)))
                return st, D('Rule', [(n, g, {}) for n, g in by.items()])
            if m == 'as_str': return st, self.attr('text', a)
            if m in ('as_span', 'into_span'):
                return st, struct('Span', start=self.attr('start', a), end=self.attr('end', a), of=self.attr('text', a))
            if m == 'into_inner': return st, struct('Pairs', of=a, q=self.inner(a))
            return st, L.e.op('pest:' + name, a)
        if o == 'Pairs':
            d = dict(a.args[1][0][2]) if a.__class__ is Term and a.op == 'D' and a.args[0] == 'Pairs' else None
            if d is not None and m == 'as_str':
                q = force(d['q'])
                xs = [s for s in q.args]
                if not xs: return st, string('')
                if len(xs) == 1 and xs[0].op == 'one' and xs[0].args[1].__class__ is Node:
                    return st, ite(xs[0].args[0], self.attr('text', xs[0].args[1]), string(''))
                return st, self.on_pair('innertext', d['of'], lambda p: leaf(T('inner_text', p)))
            if d is not None and m == 'peek':
                p, v = L.nth_k(list(restrict_segs(force(d['q']).args, st.pc)), 0)
                return st, opt(p, v) if v is not None else NONE
            if d is not None and m == 'len':
                return st, L.length(d['q'])
            L.e.note('pest:' + name, at)
            return st, L.e.op('pest:' + name, a)
        if o == 'Span':
            if a.__class__ is Term and a.op == 'S': a = V.force(a)
            if m == 'new':
                return st, some(struct('Span', start=self.scalar(args[1]), end=self.scalar(args[2]), of=leaf(T('span_text', vterm(self.scalar(args[1])), vterm(self.scalar(args[2]))))))
            if a.__class__ is Term and a.op == 'D' and a.args[0] == 'Span':
                d = dict(a.args[1][0][2])
                if m in ('start', 'end'): return st, d[m]
                if m == 'as_str': return st, d['of']
                if m == 'start_pos': return st, struct('Position', pos=d['start'])
                if m == 'end_pos': return st, struct('Position', pos=d['end'])
                if m == 'split': return st, V.tup(struct('Position', pos=d['start']), struct('Position', pos=d['end']))
            L.e.note('pest:' + name, at)
            return st, L.e.op('pest:' + name, a)
        if name == 'Position.pos' and a.__class__ is Term and a.op == 'D' and a.args[0] == 'Position': return st, dict(a.args[1][0][2])['pos']
        if name in ('Error.new_from_span', 'Error.new_from_pos'):
            return st, struct('PestError', variant=a, span=args[1])
        L.e.note('pest:' + name, at)
        return st, L.e.op('pest:' + name, *args)

    def hooks(self):
        def dom(t):
            if t.op == 'text' and t.args[0].op == 'pair': return self.finite(t.args[0].args[1])
            return None

        def ml(t):
            if t.op == 'text' and t.args[0].op == 'pair': return self.minlen(t.args[0].args[1])
            return 0
        V.text_domain, V.text_minlen = dom, ml
