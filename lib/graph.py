"""Call graph, loop and effect analysis over the MIR dump (C02, C03)."""
import re
from collections import defaultdict

# trait methods through which generic library code calls back into the crate
BACK = {
    'clone': ('Clone',), 'cloned': ('Clone',), 'to_vec': ('Clone',), 'to_owned': ('Clone', 'ToOwned'), 'from_elem': ('Clone',),
    'eq': ('PartialEq',), 'ne': ('PartialEq',), 'contains': ('PartialEq', 'Ord', 'PartialOrd'), 'dedup': ('PartialEq',),
    'starts_with': ('PartialEq',), 'ends_with': ('PartialEq',), 'position': (),
    'to_string': ('Display', 'ToString'), 'new_display': ('Display',), 'new_debug': ('Debug',), 'format': ('Display',),
    'parse': ('FromStr',), 'from_str': ('FromStr',), 'into': ('From', 'Into'), 'try_into': ('TryFrom', 'TryInto'), 'from': ('From',),
    'collect': ('FromIterator', 'Extend'), 'from_iter': ('FromIterator', 'Extend'), 'extend': ('Extend', 'IntoIterator', 'Iterator'),
    'sort': ('Ord', 'PartialOrd'), 'cmp': ('Ord',), 'partial_cmp': ('PartialOrd',), 'max': ('Ord',), 'min': ('Ord',),
    'lt': ('PartialOrd',), 'le': ('PartialOrd',), 'gt': ('PartialOrd',), 'ge': ('PartialOrd',),
    'insert': ('Ord', 'PartialOrd', 'PartialEq', 'Eq'), 'get': ('Ord', 'PartialOrd'), 'entry': ('Ord', 'PartialOrd'), 'remove': ('Ord',),
    'contains_key': ('Ord', 'PartialOrd'), 'get_mut': ('Ord',),
    'default': ('Default',), 'unwrap_or_default': ('Default',), 'or_default': ('Default',), 'take': ('Default',),
    'from_residual': ('From',), 'map_err': (), 'into_iter': ('IntoIterator',), 'next': ('Iterator',), 'drop': ('Drop',),
    'hash': ('Hash',), 'as_ref': ('AsRef',), 'borrow': ('Borrow',), 'deref': ('Deref',), 'sum': ('Sum', 'Add'), 'fmt': ('Display', 'Debug'),
}

CLOSED = {  # iterators over something finite, whatever their parameters
    'core::slice::Iter', 'core::slice::IterMut', 'core::slice::iter::Iter', 'core::slice::iter::IterMut', 'alloc::vec::IntoIter',
    'alloc::vec::into_iter::IntoIter', 'alloc::vec::Drain', 'alloc::vec::drain::Drain', 'core::option::Iter', 'core::option::IntoIter', 'core::option::IterMut',
    'core::result::Iter', 'core::result::IntoIter', 'core::array::IntoIter', 'core::array::iter::IntoIter',
    'core::str::Chars', 'core::str::CharIndices', 'core::str::Bytes', 'core::str::Lines', 'core::str::Split', 'core::str::SplitN',
    'core::str::SplitWhitespace', 'core::str::RSplit', 'core::str::RSplitN', 'core::str::SplitTerminator', 'core::str::Matches', 'core::str::MatchIndices',
    'core::str::SplitAsciiWhitespace', 'core::str::SplitInclusive', 'core::str::EncodeUtf16', 'core::str::EscapeDefault',
    'core::ops::Range', 'core::ops::RangeInclusive', 'core::ops::range::Range', 'core::ops::range::RangeInclusive',
    'core::slice::Chunks', 'core::slice::Windows', 'core::slice::ChunksExact', 'core::slice::Split', 'core::slice::RChunks',
    'core::iter::Empty', 'core::iter::Once', 'core::iter::OnceWith', 'core::iter::RepeatN', 'core::iter::sources::once::Once',
    'pest::iterators::Pairs', 'pest::iterators::FlatPairs', 'pest::iterators::Tokens',
}
WRAP = {  # finite when the (first) inner iterator is
    'Map', 'Filter', 'FilterMap', 'Enumerate', 'Rev', 'Skip', 'SkipWhile', 'TakeWhile', 'MapWhile', 'Scan', 'Peekable', 'Cloned', 'Copied',
    'Inspect', 'Fuse', 'StepBy', 'FlatMap', 'Flatten', 'Intersperse', 'ByRef', 'GenericShunt',
}
INFINITE = {'Cycle', 'Repeat', 'RepeatWith', 'Successors', 'FromFn', 'RangeFrom', 'OnceCell'}


def short(p):
    return p.split('::')[-1]


def types_in(t, out):
    if isinstance(t, dict):
        if t.get('k') == 'adt':
            out.add(t['id'])
        if t.get('k') in ('closure', 'fndef'):
            out.add('@' + t['id'])
        for a in t.get('args', []):
            types_in(a, out)
    return out


def finite(t):
    """is this iterator type finite?  True / False / None (unknown)"""
    k = t.get('k')
    if k == 'ref':
        return finite(t['args'][0])
    if k != 'adt':
        return None
    i = t['id']
    n = short(i)
    if i in CLOSED: return True
    if 'btree' in i or 'collections' in i or 'vec_deque' in i or 'linked_list' in i: return True
    if n in INFINITE: return False
    if n in WRAP:
        return finite(t['args'][0]) if t.get('args') else None
    if n == 'Take': return True
    if n == 'Zip':
        r = [finite(a) for a in t['args'][:2]]
        return True if True in r else (None if None in r else False)
    if n == 'Chain':
        r = [finite(a) for a in t['args'][:2]]
        return False if False in r else (None if None in r else True)
    if n in ('Range', 'RangeInclusive', 'IntoIter', 'Iter', 'IterMut', 'Chars', 'CharIndices', 'Bytes', 'Split', 'Lines', 'Drain'): return True
    return None


class CG:
    def __init__(self, dump):
        self.d = dump
        self.fns = dump['fns']
        self.impls = defaultdict(list)       # (adt id, trait short) -> [fn id]
        for fid, f in self.fns.items():
            im = f.get('impl')
            if im and im.get('trait'):
                m = re.search(r'as ([\w:]+)', im['trait'])
                tr = short(m.group(1)) if m else None
                s = im['self']
                while s.get('k') == 'ref': s = s['args'][0]
                if s.get('k') == 'adt' and tr:
                    self.impls[(s['id'], tr)].append(fid)
        # child adts
        self.fieldtypes = {}
        for a, x in dump['adts'].items():
            o = set()
            for v in x['variants']:
                for _, t in v['fields']:
                    types_in(t, o)
            self.fieldtypes[a] = o
        self.edges = {}
        self.sites = {}
        for fid, f in self.fns.items():
            self.edges[fid], self.sites[fid] = self._edges(f)

    def closure_types(self, types):
        seen = set()
        st = [t for t in types if not t.startswith('@')]
        while st:
            t = st.pop()
            if t in seen: continue
            seen.add(t)
            st += [x for x in self.fieldtypes.get(t, ()) if not x.startswith('@')]
        return seen

    def _edges(self, f):
        out = defaultdict(set)     # callee -> {at}
        sites = []
        bodies = [f['body']] + list(f.get('promoted') or [])
        for b in bodies:
            if not b: continue
            for bl in b['blocks']:
                for s in bl['s']:
                    if s['k'] != 'assign': continue
                    rv = s['rv']
                    if rv['k'] == 'agg' and rv['a'] == 'closure':
                        out[rv['id']].add(s['at'])
                    for o in self._ops(rv):
                        self._const_edges(o, out, s['at'])
                t = bl['t']
                if t['k'] == 'call':
                    fn = t['f']
                    for a in t['args']:
                        self._const_edges(a, out, bl['at'])
                    if 'indirect' in fn:
                        sites.append((bl['at'], 'indirect', fn, t))
                        continue
                    sites.append((bl['at'], fn['path'], fn, t))
                    self._call_edges(fn, out, bl['at'], t)
        return out, sites

    def _call_edges(self, fn, out, at, t):
        res = fn.get('res')
        if res and res['local']:
            out[res['id']].add(at)
            return
        if fn['id'] in self.fns:
            out[fn['id']].add(at)
            return
        ts = set()
        for a in fn.get('targs', []): types_in(a, ts)
        if t and 'dty' in t: types_in(t['dty'], ts)
        if 'implself' in fn: types_in(fn['implself'], ts)
        for x in ts:
            if x.startswith('@') and x[1:] in self.fns:
                out[x[1:]].add(at)
        names = BACK.get(fn.get('name') or short(fn['path']))
        if names:
            for x in self.closure_types(ts):
                for tr in names:
                    for m in self.impls.get((x, tr), ()):
                        out[m].add(at)

    def _ops(self, rv):
        for k in ('o', 'a', 'b'):
            if isinstance(rv.get(k), dict): yield rv[k]
        for o in rv.get('ops', []): yield o

    def _const_edges(self, o, out, at):
        c = o.get('const')
        if c and 'fn' in c['v']:
            self._call_edges(c['v']['fn'], out, at, None)

    def cycle(self, restrict=None):
        color, path = {}, []
        import sys
        sys.setrecursionlimit(100000)

        def dfs(n):
            color[n] = 1; path.append(n)
            for m in sorted(self.edges.get(n, ())):
                # the generated matcher mirrors the grammar, whose rule graph is analysed instead
                if m not in self.fns or '::parse::rules::' in m: continue
                if color.get(m) == 1: return path[path.index(m):] + [m]
                if m not in color:
                    c = dfs(m)
                    if c: return c
            color[n] = 2; path.pop()
            return None
        for n in sorted(self.fns):
            if n not in color:
                c = dfs(n)
                if c: return c
        return None


# ------------------------------------------------------------------ loops
def succs(bl):
    t = bl['t']
    k = t['k']
    if k == 'goto': return [t['t']]
    if k == 'switch': return [x[1] for x in t['targets']] + [t['otherwise']]
    if k in ('call', 'assert'): return [] if t['t'] is None else [t['t']]
    return []


class Cfg:
    def __init__(self, body):
        self.b = body
        self.bl = body['blocks']
        n = len(self.bl)
        self.succ = [succs(x) for x in self.bl]
        order, seen = [], set()
        st = [(0, iter(self.succ[0]))]
        seen.add(0)
        while st:
            v, it = st[-1]
            for w in it:
                if w not in seen:
                    seen.add(w); st.append((w, iter(self.succ[w]))); break
            else:
                order.append(v); st.pop()
        self.rpo = order[::-1]
        self.idx = {v: i for i, v in enumerate(self.rpo)}
        self.pred = defaultdict(list)
        for v in self.rpo:
            for w in self.succ[v]: self.pred[w].append(v)
        self.idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for v in self.rpo[1:]:
                ps = [p for p in self.pred[v] if p in self.idom]
                d = ps[0]
                for p in ps[1:]:
                    a, c = p, d
                    while a != c:
                        while self.idx[a] > self.idx[c]: a = self.idom[a]
                        while self.idx[c] > self.idx[a]: c = self.idom[c]
                    d = a
                if self.idom.get(v) != d:
                    self.idom[v] = d; ch = True
        self.loops = {}     # header -> set of blocks
        self.irreducible = []
        for v in self.rpo:
            for w in self.succ[v]:
                if self.idx[w] <= self.idx[v]:
                    if not self.dom(w, v):
                        self.irreducible.append((v, w)); continue
                    s = self.loops.setdefault(w, {w})
                    stck = [v]
                    while stck:
                        x = stck.pop()
                        if x in s: continue
                        s.add(x)
                        stck += self.pred[x]

    def dom(self, a, b):
        while True:
            if a == b: return True
            if b == 0: return False
            b = self.idom[b]

    def latches(self, h):
        return [v for v in self.pred[h] if v in self.loops[h]]


def loop_progress(body, cfg, h, given=None):
    """why the loop with header h makes progress towards its end, or None"""
    blocks = cfg.loops[h]
    lat = cfg.latches(h)

    def every(bb):   # executed on every way round
        return all(cfg.dom(bb, l) for l in lat)
    ptr = {}         # local -> local it points to (through reborrows)
    for bl in body['blocks']:
        for s in bl['s']:
            if s['k'] == 'assign' and not s['to']['p'] and s['rv']['k'] in ('ref', 'use', 'rawptr'):
                rv = s['rv']
                pl = rv.get('place') or (rv.get('o') or {}).get('copy') or (rv.get('o') or {}).get('move')
                if pl:
                    ptr.setdefault(s['to']['l'], set()).add(pl['l'])

    def base(l):
        seen, st = set(), [l]
        while st:
            x = st.pop()
            if x in seen: continue
            seen.add(x)
            st += list(ptr.get(x, ()))
        return seen
    assigned = set()
    for bb in blocks:
        for s in body['blocks'][bb]['s']:
            if s['k'] == 'assign' and not s['to']['p']: assigned.add(s['to']['l'])
        t = body['blocks'][bb]['t']
        if t['k'] == 'call' and not t['dest']['p']: assigned.add(t['dest']['l'])
    why = None
    for bb in sorted(blocks):
        t = body['blocks'][bb]['t']
        if t['k'] == 'call' and every(bb) and 'path' in t['f']:
            name = t['f'].get('name') or short(t['f']['path'])
            if name in ('next', 'next_back', 'nth'):
                ty = (t['f'].get('targs') or [{}])[0]
                fin = finite(ty)
                a = t['args'][0]
                l = (a.get('copy') or a.get('move') or {'l': None})['l']
                generic = ty.get('k') != 'adt'
                own = [x for x in base(l) if body['locals'][x]['ty'].get('k') == 'adt' or generic and body['locals'][x]['ty'] == ty]
                if generic and fin is None and given is not None:
                    # an iterator the caller chooses: decided by what every call hands over
                    kinds = [[finite(x) for x in ts if x.get('k') == 'adt'] for ts in given]
                    if any(False in k for k in kinds): fin = False
                    elif all(True in k for k in kinds): fin = True
                if fin and not any(x in assigned for x in own):
                    return 'advances the finite iterator %s every time round' % short(ty.get('id', '?'))
                if fin is False:
                    why = 'drives an iterator that need not end (%s)' % ty.get('id')
                elif fin and any(x in assigned for x in own):
                    why = 'recreates its iterator inside the loop'
                else:
                    why = 'drives an iterator of unknown length (%s)' % ty.get('id', ty.get('s'))
            if name in ('pop', 'pop_front', 'pop_back', 'pop_first', 'pop_last', 'swap_remove', 'split_off', 'remove') and t['f']['path'].startswith('alloc'):
                grows = False
                for b2 in blocks:
                    t2 = body['blocks'][b2]['t']
                    if t2['k'] == 'call' and (t2['f'].get('name') or '') in ('push', 'insert', 'extend', 'append', 'push_back', 'push_front', 'push_str', 'resize', 'extend_from_slice'):
                        grows = True
                if not grows:
                    return 'removes an element of a collection every time round'
                why = 'removes from a collection that it also extends'
    # counting loops: i compared with something, i = i +/- const every time round
    incs = set()
    for bb in blocks:
        if not every(bb): continue
        tmp = {}
        for b2 in sorted(blocks):
            for s in body['blocks'][b2]['s']:
                if s['k'] == 'assign' and s['rv']['k'] == 'bin' and s['rv']['op'].startswith(('Add', 'Sub')) and 'const' in s['rv']['b']:
                    a = s['rv']['a'].get('copy') or s['rv']['a'].get('move')
                    v = s['rv']['b']['const']['v']
                    if a and not a['p'] and v.get('int') not in (None, '0'):
                        tmp[s['to']['l']] = a['l']
        for s in body['blocks'][bb]['s']:
            if s['k'] == 'assign' and not s['to']['p'] and s['rv']['k'] in ('use', 'bin'):
                if s['rv']['k'] == 'use':
                    src = s['rv']['o'].get('move') or s['rv']['o'].get('copy')
                    if src and tmp.get(src['l']) == s['to']['l']: incs.add(s['to']['l'])
                elif tmp.get(s['to']['l']) == s['to']['l']: incs.add(s['to']['l'])
    if incs:
        for bb in blocks:
            t = body['blocks'][bb]['t']
            if t['k'] == 'switch' and any(x not in blocks for x in cfg.succ[bb]) and every(bb):
                d = t['d'].get('copy') or t['d'].get('move')
                for s in body['blocks'][bb]['s']:
                    if s['k'] == 'assign' and d and s['to']['l'] == d['l'] and s['rv']['k'] == 'bin' and s['rv']['op'] in ('Lt', 'Le', 'Gt', 'Ge', 'Ne', 'Eq'):
                        for o in (s['rv']['a'], s['rv']['b']):
                            pl = o.get('copy') or o.get('move')
                            if pl and (base(pl['l']) & incs):
                                return 'counts towards a bound every time round'
    return None if why is None else ('!' + why)
