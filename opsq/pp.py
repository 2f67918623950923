"""Pretty-printer for exported HIR (development aid, and text for reports)."""
import sys, json

def short(p):
    if not p: return '?'
    return '::'.join(p.split('::')[-2:])

def pat(p):
    if p is None: return '_'
    k = p['k']
    if k == 'wild': return '_'
    if k == 'bind': return p['name'] + ('@' + pat(p['sub']) if p.get('sub') else '')
    if k == 'pstruct': return rname(p.get('res')) + '{' + ', '.join(f'{a}: {pat(b)}' for a, b in p['fields']) + '}'
    if k == 'ptstruct': return rname(p.get('res')) + '(' + ', '.join(map(pat, p['ps'])) + ')'
    if k == 'por': return ' | '.join(map(pat, p['ps']))
    if k == 'ptup': return '(' + ', '.join(map(pat, p['ps'])) + ')'
    if k in ('pderef', 'pref'): return '&' + pat(p['p'])
    if k == 'plit':
        e = p['e']
        return json.dumps(e.get('v')) if e['k'] == 'lit' else rname(e.get('res'))
    return k

def rname(r):
    if not r: return '?'
    if r['r'] == 'def': return short(r.get('ctor_of') or r['path'])
    if r['r'] == 'local': return f"%{r['id']}"
    return r['r']

def ex(e, ind=0):
    if e is None: return ''
    k = e['k']; I = '  ' * ind
    if k == 'paren': return ex(e['e'], ind)
    if k == 'block':
        s = '{\n'
        for st in e['stmts']:
            if st['k'] == 'let':
                s += I + '  let ' + pat(st['pat']) + ' = ' + ex(st.get('init'), ind + 1) + (' else ' + ex(st['els'], ind + 1) if st.get('els') else '') + ';\n'
            else:
                s += I + '  ' + ex(st['e'], ind + 1) + (';' if st['semi'] else '') + '\n'
        if e.get('expr'): s += I + '  ' + ex(e['expr'], ind + 1) + '\n'
        return s + I + '}'
    if k == 'call':
        f = rname(e['res']) if e.get('res') else '(' + ex(e.get('f'), ind) + ')'
        return f + '(' + ', '.join(ex(a, ind) for a in e['args']) + ')'
    if k == 'mcall': return ex(e['recv'], ind) + '.' + e['m'] + '(' + ', '.join(ex(a, ind) for a in e['args']) + ')'
    if k == 'mac': return e['name'] + '!<' + ' '.join(e['snip'].split())[:400] + '>'
    if k == 'lit': return json.dumps(e['v'])
    if k == 'path': return e['name'] if e['res'] and e['res']['r'] == 'local' else rname(e['res'])
    if k == 'await': return ex(e['e'], ind) + '.await'
    if k == 'try': return ex(e['e'], ind) + '?'
    if k == 'ref': return '&' + ('mut ' if e['mut'] else '') + ex(e['e'], ind)
    if k == 'un': return e['op'] + ex(e['e'], ind)
    if k == 'bin': return '(' + ex(e['a'], ind) + ' ' + e['op'] + ' ' + ex(e['b'], ind) + ')'
    if k == 'field': return ex(e['e'], ind) + '.' + e['f']
    if k == 'closure': return f"<{e['ck'][:30]}> |" + ', '.join(map(pat, e['params'])) + '| ' + ex(e['body'], ind)
    if k == 'if': return 'if ' + ex(e['c'], ind) + ' ' + ex(e['t'], ind) + (' else ' + ex(e['f'], ind) if e.get('f') else '')
    if k == 'letc': return 'let ' + pat(e['pat']) + ' = ' + ex(e['e'], ind)
    if k == 'match':
        return 'match ' + ex(e['e'], ind) + ' {\n' + ''.join(I + '  ' + pat(a['pat']) + (' if ' + ex(a['guard'], ind + 1) if a.get('guard') else '') + ' => ' + ex(a['body'], ind + 1) + ',\n' for a in e['arms']) + I + '}'
    if k == 'for': return 'for ' + pat(e['pat']) + ' in ' + ex(e['iter'], ind) + ' ' + ex(e['body'], ind)
    if k == 'loop': return f"loop[{e['src']}] " + ex(e['body'], ind)
    if k == 'struct': return rname(e.get('res')) + ' {' + ', '.join(f'{a}: {ex(b, ind)}' for a, b in e['fields']) + (', ..' + ex(e['base'], ind) if e.get('base') else '') + '}'
    if k in ('tup', 'array'): return '(' + ', '.join(ex(x, ind) for x in e['es']) + ')'
    if k == 'assign': return ex(e['a'], ind) + ' = ' + ex(e['b'], ind)
    if k == 'assignop': return ex(e['a'], ind) + ' ' + e['op'] + ' ' + ex(e['b'], ind)
    if k == 'ret': return 'return ' + ex(e.get('e'), ind)
    if k == 'break': return 'break ' + ex(e.get('e'), ind)
    if k == 'cast': return ex(e['e'], ind) + ' as ' + e['to']
    if k == 'index': return ex(e['a'], ind) + '[' + ex(e['b'], ind) + ']'
    return f"<{k} {e.get('snip','')}>"

if __name__ == '__main__':
    d = json.load(open(sys.argv[1]))
    for b in d['bodies']:
        if b['path'].endswith(sys.argv[2]) and not b.get('from_exp'):
            print(b['path'], b['sp'], b.get('sig'))
            for p in b.get('preds', []): print('   where', p)
            print(ex(b['expr']))
