"""Pretty printer for the MIR dump (debugging aid)."""
import json, sys

def place(p):
    s = '_%d' % p['l']
    for e in p['p']:
        if e[0] == '*': s = '(*%s)' % s
        elif e[0] == '.': s += '.' + e[1]
        elif e[0] == 'v': s = '(%s as %s)' % (s, e[1])
        else: s += str(e)
    return s

def const(c):
    v = c['v']
    if 'fn' in v: return 'fn:' + v['fn']['path']
    return json.dumps(v)[:120]

def op(o):
    if 'copy' in o: return place(o['copy'])
    if 'move' in o: return 'mv ' + place(o['move'])
    return const(o['const'])

def rv(r):
    k = r['k']
    if k == 'use': return op(r['o'])
    if k == 'ref': return '&%s%s' % ('mut ' if r['mut'] else '', place(r['place']))
    if k == 'rawptr': return '&raw ' + place(r['place'])
    if k == 'discr': return 'discr(%s)' % place(r['place'])
    if k == 'agg': return '%s{%s}' % (r.get('id', r['a']) + ('::' + r['variant'] if 'variant' in r else ''), ', '.join(op(o) for o in r['ops']))
    if k == 'bin': return '%s(%s, %s)' % (r['op'], op(r['a']), op(r['b']))
    if k == 'un': return '%s(%s)' % (r['op'], op(r['a']))
    if k == 'cast': return 'cast<%s>(%s)' % (r['kind'], op(r['o']))
    return json.dumps(r)

def body(b):
    for i, bl in enumerate(b['blocks']):
        if bl['cleanup']: continue
        print(' bb%d: // %s' % (i, bl['at']))
        for s in bl['s']:
            if s['k'] == 'assign': print('    %s = %s' % (place(s['to']), rv(s['rv'])))
            else: print('   ', json.dumps(s))
        t = bl['t']
        if t['k'] == 'call':
            f = t['f']
            n = f['path'] if 'path' in f else 'INDIRECT ' + op(f['indirect'])
            if 'res' in f and f['res']['path'] != n: n += ' => ' + f['res']['path']
            print('    %s = %s(%s) -> %s' % (place(t['dest']), n, ', '.join(op(a) for a in t['args']), t['t']))
        elif t['k'] == 'switch':
            print('    switch %s %s else %d' % (op(t['d']), t['targets'], t['otherwise']))
        else:
            print('   ', json.dumps(t))

if __name__ == '__main__':
    d = json.load(open(sys.argv[1]))
    for k, f in d['fns'].items():
        if sys.argv[2] in k and (len(sys.argv) < 4 or k.endswith(sys.argv[3])):
            print('FN', k, f['path'], f['kind'])
            if f['body']:
                print('  locals', [(i, l['name']) for i, l in enumerate(f['body']['locals']) if l['name']], f['body']['upvars'])
                body(f['body'])
            for i, p in enumerate(f.get('promoted') or []):
                print('  promoted', i); body(p)
