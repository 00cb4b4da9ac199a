"""The pest grammar of the crate: reading, child words, nullability, recursion."""
import glob, os, re
import common

BUILTIN_CLASSES = {
    'ANY': None,
    'ASCII_DIGIT': '0-9', 'ASCII_NONZERO_DIGIT': '1-9', 'ASCII_BIN_DIGIT': '01', 'ASCII_OCT_DIGIT': '0-7',
    'ASCII_HEX_DIGIT': '0-9a-fA-F', 'ASCII_ALPHA_LOWER': 'a-z', 'ASCII_ALPHA_UPPER': 'A-Z',
    'ASCII_ALPHA': 'a-zA-Z', 'ASCII_ALPHANUMERIC': '0-9a-zA-Z', 'ASCII': None, 'NEWLINE': None,
    'SOI': None, 'EOI': None,
}


class GrammarError(Exception):
    pass


def find_grammar():
    """the grammar text named by the #[grammar] attribute of the derived parser"""
    for p in sorted(glob.glob(os.path.join(common.REPO, 'src', '**', '*.rs'), recursive=True)):
        t = open(p).read()
        m = re.search(r'^\s*#\[grammar\s*=\s*"([^"]+)"\]', t, re.M)
        if m:
            # pest resolves against the manifest dir (or its src)
            for base in (common.REPO, os.path.join(common.REPO, 'src')):
                f = os.path.join(base, m.group(1))
                if os.path.exists(f):
                    return f, open(f).read()
        m = re.search(r'^\s*#\[grammar_inline\s*=\s*(?:r#*)?"(.*?)"#*\]', t, re.M | re.S)
        if m:
            return p, m.group(1)
    raise GrammarError('no grammar attribute found')


TOK = re.compile(r'''\s+|//[^\n]*|(?P<ml>/\*)|(?P<istr>\^"(?:[^"\\]|\\.)*")|(?P<str>"(?:[^"\\]|\\.)*")|(?P<chr>'(?:[^'\\]|\\.)+')|(?P<range>\.\.)|(?P<id>[A-Za-z_][A-Za-z0-9_]*)|(?P<num>-?\d+)|(?P<p>[=~|*+?{}()&!@$,\[\]#])|(?P<mod>_)''')


def unescape(s):
    def f(m):
        c = m.group(1)
        if c == 'n': return '\n'
        if c == 'r': return '\r'
        if c == 't': return '\t'
        if c == '0': return '\0'
        if c.startswith('x'): return chr(int(c[1:], 16))
        if c.startswith('u'): return chr(int(c[2:-1], 16))
        return c
    return re.sub(r'\\(x[0-9a-fA-F]{2}|u\{[0-9a-fA-F]+\}|.)', f, s)


def tokenize(text):
    i = 0
    out = []
    while i < len(text):
        m = TOK.match(text, i)
        if not m:
            raise GrammarError('bad character in grammar at %d: %r' % (i, text[i:i + 20]))
        if m.group('ml'):
            d, i = 1, m.end()
            while d:
                if text.startswith('/*', i): d += 1; i += 2
                elif text.startswith('*/', i): d -= 1; i += 2
                elif i >= len(text): raise GrammarError('comment')
                else: i += 1
            continue
        k = m.lastgroup
        if k:
            out.append((k, m.group(k), m.start()))
        i = m.end()
    return out


class Rule:
    def __init__(self, name, ty, expr, line):
        self.name, self.ty, self.expr, self.line = name, ty, expr, line


# expressions: ('str',s) ('istr',s) ('range',a,b) ('id',name) ('seq',[..]) ('alt',[..])
#              ('star',e) ('plus',e) ('opt',e) ('rep',e,lo,hi) ('and',e) ('not',e) ('stack',name,..)
class P:
    def __init__(self, text):
        self.text = text
        self.t = tokenize(text)
        self.i = 0

    def pk(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else ('eof', '', len(self.text))

    def nx(self):
        x = self.pk(); self.i += 1; return x

    def ex(self, v):
        x = self.nx()
        if x[1] != v:
            raise GrammarError('expected %r, found %r' % (v, x))
        return x

    def rules(self):
        rs = {}
        while self.pk()[0] != 'eof':
            k, name, pos = self.nx()
            if k != 'id':
                raise GrammarError('rule name expected: %r' % name)
            self.ex('=')
            ty = 'normal'
            k, v, _ = self.pk()
            if v in ('@', '$', '!', '_') :
                self.nx()
                ty = {'@': 'atomic', '$': 'compound', '!': 'nonatomic', '_': 'silent'}[v]
            self.ex('{')
            e = self.alt()
            self.ex('}')
            rs[name] = Rule(name, ty, e, self.text.count('\n', 0, pos) + 1)
        return rs

    def alt(self):
        if self.pk()[1] == '|' and self.pk()[0] == 'p':
            self.nx()
        xs = [self.seq()]
        while self.pk()[1] == '|' and self.pk()[0] == 'p':
            self.nx(); xs.append(self.seq())
        return xs[0] if len(xs) == 1 else ('alt', xs)

    def seq(self):
        xs = [self.term()]
        while self.pk()[1] == '~' and self.pk()[0] == 'p':
            self.nx(); xs.append(self.term())
        return xs[0] if len(xs) == 1 else ('seq', xs)

    def term(self):
        k, v, _ = self.pk()
        if k == 'p' and v == '#':      # tag
            self.nx(); self.nx(); self.ex('=')
            return self.term()
        if k == 'p' and v == '&':
            self.nx(); return ('and', self.term())
        if k == 'p' and v == '!':
            self.nx(); return ('not', self.term())
        e = self.atom()
        while self.pk()[0] == 'p' and self.pk()[1] in '*+?{':
            o = self.nx()[1]
            if o == '*': e = ('star', e)
            elif o == '+': e = ('plus', e)
            elif o == '?': e = ('opt', e)
            else:
                lo, hi = 0, None
                if self.pk()[0] == 'num':
                    lo = int(self.nx()[1]); hi = lo
                    if self.pk()[1] == ',':
                        self.nx(); hi = None
                        if self.pk()[0] == 'num': hi = int(self.nx()[1])
                else:
                    self.ex(','); hi = int(self.nx()[1])
                self.ex('}')
                e = ('rep', e, lo, hi)
        return e

    def atom(self):
        k, v, _ = self.nx()
        if k == 'str': return ('str', unescape(v[1:-1]))
        if k == 'istr': return ('istr', unescape(v[2:-1]))
        if k == 'chr':
            self.ex('..'); b = self.nx()
            return ('range', unescape(v[1:-1]), unescape(b[1][1:-1]))
        if k == 'id':
            if v in ('PUSH', 'PEEK', 'POP', 'DROP', 'PEEK_ALL', 'POP_ALL', 'PUSH_LITERAL'):
                raise GrammarError('stack operations are not modelled')
            return ('id', v)
        if v == '(':
            e = self.alt(); self.ex(')'); return e
        raise GrammarError('unexpected %r' % v)


def kids(e):
    k = e[0]
    if k in ('seq', 'alt'): return e[1]
    if k in ('star', 'plus', 'opt', 'rep', 'and', 'not'): return [e[1]]
    return []


def refs(e):
    if e[0] == 'id': return {e[1]}
    r = set()
    for x in kids(e): r |= refs(x)
    return r


class Grammar:
    def __init__(self, rules, path='<ref>'):
        self.rules = rules
        self.path = path
        self._null = {}
        self._words = {}

    @staticmethod
    def load():
        f, t = find_grammar()
        return Grammar(P(t).rules(), os.path.relpath(f, common.REPO))

    @staticmethod
    def text(t):
        return Grammar(P(t).rules())

    def at(self, r):
        return '%s:%d' % (self.path, self.rules[r].line)

    def nullable(self, e, seen=()):
        k = e[0]
        if k in ('str', 'istr'): return e[1] == ''
        if k == 'range': return False
        if k == 'id':
            n = e[1]
            if n in self.rules:
                if n in seen: return False
                return self.nullable(self.rules[n].expr, seen + (n,))
            return n in ('SOI', 'EOI')
        if k == 'seq': return all(self.nullable(x, seen) for x in e[1])
        if k == 'alt': return any(self.nullable(x, seen) for x in e[1])
        if k in ('star', 'opt', 'and', 'not'): return True
        if k == 'plus': return self.nullable(e[1], seen)
        if k == 'rep': return e[2] == 0 or self.nullable(e[1], seen)
        raise GrammarError(k)

    def cycle(self):
        """a cycle of rule references, or None; WHITESPACE/COMMENT are referenced by every non-atomic rule"""
        g = {n: {x for x in refs(r.expr) if x in self.rules} for n, r in self.rules.items()}
        color = {}
        path = []

        def dfs(n):
            color[n] = 1; path.append(n)
            for m in sorted(g[n]):
                if color.get(m) == 1: return path[path.index(m):] + [m]
                if m not in color:
                    c = dfs(m)
                    if c: return c
            color[n] = 2; path.pop()
            return None
        for n in sorted(g):
            if n not in color:
                c = dfs(n)
                if c: return c
        return None

    def repeats(self):
        """(rule, repeated expression) of every repetition"""
        out = []

        def walk(n, e):
            if e[0] in ('star', 'plus') or (e[0] == 'rep' and e[3] is None):
                out.append((n, e[1]))
            for x in kids(e): walk(n, x)
        for n, r in self.rules.items():
            walk(n, r.expr)
        return out

    # ---------------------------------------------------------- child words
    # regular expression over visible rule names:
    # ('eps',) ('sym', frozenset) ('cat',[..]) ('alt',[..]) ('star',x) ('plus',x) ('opt',x)
    def words(self, name):
        if name in self._words: return self._words[name]
        r = self.rules[name]
        if r.ty == 'atomic':
            w = ('eps',)
        else:
            w = self._w(r.expr)
        self._words[name] = w
        return w

    def _w(self, e):
        k = e[0]
        if k in ('str', 'istr', 'range', 'and', 'not'): return ('eps',)
        if k == 'id':
            n = e[1]
            if n == 'EOI': return ('sym', frozenset(['EOI']))
            if n not in self.rules: return ('eps',)
            r = self.rules[n]
            if n in ('WHITESPACE', 'COMMENT') : 
                return ('eps',) if r.ty == 'silent' else ('sym', frozenset([n]))
            if r.ty == 'silent': return self._w(r.expr)
            return ('sym', frozenset([n]))
        if k == 'seq': return cat([self._w(x) for x in e[1]])
        if k == 'alt': return alt([self._w(x) for x in e[1]])
        if k == 'star': return star(self._w(e[1]))
        if k == 'plus': return plus(self._w(e[1]))
        if k == 'opt': return opt(self._w(e[1]))
        if k == 'rep':
            x = self._w(e[1])
            if x == ('eps',): return x
            lo, hi = e[2], e[3]
            xs = [x] * lo
            if hi is None: xs.append(star(x))
            else: xs += [opt(x)] * (hi - lo)
            return cat(xs)
        raise GrammarError(k)

    def minlen(self, name):
        return self._ml(('id', name))

    def _ml(self, e):
        k = e[0]
        if k in ('str', 'istr'): return len(e[1])
        if k == 'range': return 1
        if k == 'id':
            n = e[1]
            if n in self.rules: return self._ml(self.rules[n].expr)
            return 0 if n in ('SOI', 'EOI') else 1
        if k == 'seq': return sum(self._ml(x) for x in e[1])
        if k == 'alt': return min(self._ml(x) for x in e[1])
        if k in ('star', 'opt', 'and', 'not'): return 0
        if k == 'plus': return self._ml(e[1])
        if k == 'rep': return e[2] * self._ml(e[1])

    def finite(self, name, limit=12):
        """the finite set of texts of a rule (lookaheads only restrict it), or None"""
        r = self._fin(('id', name), limit)
        return None if r is None else frozenset(r)

    def _fin(self, e, limit):
        k = e[0]
        if k == 'str': return {e[1]}
        if k in ('and', 'not'): return {''}
        if k == 'id':
            n = e[1]
            if n not in self.rules: return {''} if n in ('SOI', 'EOI') else None
            r = self.rules[n]
            if r.ty in ('normal', 'silent', 'nonatomic') and r.expr[0] == 'seq': return None
            return self._fin(r.expr, limit)
        if k in ('seq', 'alt'):
            acc = {''} if k == 'seq' else set()
            for x in e[1]:
                s = self._fin(x, limit)
                if s is None: return None
                acc = {a + b for a in acc for b in s} if k == 'seq' else acc | s
                if len(acc) > limit: return None
            return acc
        if k == 'opt':
            s = self._fin(e[1], limit)
            return None if s is None else s | {''}
        return None


def cat(xs):
    out = []
    for x in xs:
        if x == ('eps',): continue
        if x[0] == 'cat': out += x[1]
        else: out.append(x)
    # x x* = x+
    i = 0
    while i + 1 < len(out):
        if out[i + 1] == ('star', out[i]): out[i:i + 2] = [('plus', out[i])]
        elif out[i][0] == 'star' and out[i][1] == out[i + 1]: out[i:i + 2] = [('plus', out[i + 1])]
        elif out[i][0] in ('plus', 'star') and out[i + 1] == ('star', out[i][1]): out[i:i + 2] = [out[i]]
        else: i += 1
    if not out: return ('eps',)
    if len(out) == 1: return out[0]
    return ('cat', out)


def alt(xs):
    ys = []
    for x in xs:
        if x[0] == 'alt': ys += x[1]
        else: ys.append(x)
    eps = any(y == ('eps',) for y in ys)
    ys = [y for y in ys if y != ('eps',)]
    syms = frozenset().union(*[y[1] for y in ys if y[0] == 'sym'])
    rest = []
    for y in ys:
        if y[0] != 'sym' and y not in rest: rest.append(y)
    if syms: rest.insert(0, ('sym', syms))
    # x | x+ = x+ ; x | x* = x* ; opt
    for y in list(rest):
        if y[0] == 'sym':
            if ('plus', y) in rest or ('star', y) in rest: rest.remove(y)
    for y in list(rest):
        if y[0] == 'plus' and ('star', y[1]) in rest: rest.remove(y)
    if any(y[0] == 'opt' for y in rest):
        rest = [y[1] if y[0] == 'opt' else y for y in rest]; eps = True
    if not rest: return ('eps',)
    r = rest[0] if len(rest) == 1 else ('alt', rest)
    return opt(r) if eps else r


def star(x):
    if x == ('eps',): return x
    if x[0] in ('star', 'plus', 'opt'): return star(x[1])
    if x[0] == 'alt':
        # (a | b+)* : flatten inner repetition
        ys = [y[1] if y[0] in ('star', 'plus', 'opt') else y for y in x[1]]
        z = alt(ys)
        return ('star', z)
    return ('star', x)


def plus(x):
    if x == ('eps',): return x
    if x[0] == 'star': return x
    if x[0] == 'plus': return x
    if x[0] == 'opt': return star(x[1])
    return ('plus', x)


def opt(x):
    if x == ('eps',): return x
    if x[0] in ('star', 'opt'): return x
    if x[0] == 'plus': return star(x[1])
    return ('opt', x)


if __name__ == '__main__':
    g = Grammar.load()
    for n in g.rules: print(n, g.rules[n].ty, g.words(n), g.finite(n), g.minlen(n))
    print(g.cycle())
