"""The producer HTTP interface: routes, parameters, results, status codes, retries (C25)."""
import re
from ..core import rule, short, wh, TECH, NOTES
from ..interp import show, terms, last, calls
from .. import prog as PR
from .util import *

TECH['C25'] = 'composition of the symbolic request of each client operation with the route table and the symbolic outcomes of the matched handler; case table of the retry condition; dataflow of the insertion handler'
NOTES['C25'] = "JSON encoding itself is taken from serde: both sides name the same type, whose derived implementations are each other's inverse. A prefix consisting only of dots, or empty, cannot be looked up (an error, not another submission)."

METHODS = ('get', 'post', 'put', 'delete', 'patch', 'head')
# public client operation -> database functions that answer it
OPS = {
    'count_submissions': ('submission::db::count_submissions',),
    'insert_submission': ('submission::db::insert_submission_from_chunks', 'submission::db::insert_submission'),
    'cancel_submission': ('submission::db::cancel_submission',),
    'get_submission': ('submission::db::submission_status',),
    'lookup_submission_id_by_prefix': ('submission::db::lookup_id_by_prefix',),
    'lookup_submission_ids_by_strategic_metadata': ('submission::db::lookup_ids_by_strategic_metadata',),
    'server_version': ('version_info',),
}
INTS = {'u8', 'u16', 'u32', 'u64', 'usize', 'u63', 'ux::u63'}


# ---- terms ----
THROUGH = {'to_string', 'as_str', 'into', 'as_ref', 'borrow', 'to_owned', 'clone', 'deref', 'into_boxed_str', 'as_deref', 'display', 'unwrap', 'expect', 'to_lowercase_'}


def parts(t):
    """A string term as a list of literal texts and terms, or None."""
    if not isinstance(t, tuple) or not t: return None
    if t[0] == 'lit': return [str(t[1]).strip('"')]
    if t[0] == 'mac' and t[1] in ('format', 'concat'):
        pieces = [x.replace('{{', '{').replace('}}', '}') for x in re.split(r'(?<!\{)\{[^{}]*\}(?!\})', t[2])] if t[1] == 'format' else [''] * (len(t[3]) + 1)
        if len(pieces) - 1 != len(t[3]): return None
        out = [pieces[0]]
        for a, s in zip(t[3], pieces[1:]):
            out += (parts(a) or [a]) + [s]
        return out
    if t[0] == 'bin' and t[1] == '+':
        a, b = parts(t[2]), parts(t[3])
        return (a or [t[2]]) + (b or [t[3]])
    if t[0] == 'call' and last(t[1]) in THROUGH and len(t[2]) == 1: return parts(t[2][0]) or [t[2][0]]
    return None


def joined(ps):
    """Neighbouring texts merged; parameters as {}."""
    out, vars_ = '', []
    for x in ps:
        if isinstance(x, str): out += x
        else: out += '{}'; vars_.append(x)
    return out, vars_


def arg(t):
    while isinstance(t, tuple) and t and ((t[0] == 'call' and last(t[1]) in THROUGH and t[2]) or t[0] in ('ref', 'deref')):
        t = t[2][0] if t[0] == 'call' else t[1]
    return t


def is_const(t, name=None):
    return isinstance(t, tuple) and t and t[0] == 'const' and 'StatusCode' in t[1] and (name is None or last(t[1]) == name)


def ret(f):
    """Output type of a (possibly async) function."""
    b = f.body
    while isinstance(b, dict) and b.get('k') == 'closure': b = b['body']
    return (b or {}).get('ty', '')


def generic(ty, head):
    """Arguments of the outermost generic type when it is `head`."""
    m = re.match(r'^(?:\w+::)*' + head + r'<(.*)>$', ty)
    if not m: return None
    out, d, cur = [], 0, ''
    for ch in m.group(1):
        if ch == ',' and d == 0: out.append(cur.strip()); cur = ''; continue
        d += (ch in '<([') - (ch in '>)]'); cur += ch
    return out + [cur.strip()]


def norm(ty):
    ty = re.sub(r'&(?:\'\w+ )?(?:mut )?', '', ty)
    return 'int' if ty in INTS else ty


def kind(ty, chain):
    """Type at the end of a chain of L / R in nested E<…, …>."""
    for c in chain:
        g = generic(ty, 'E')
        if not g: return None
        ty = g[0] if c == 'L' else g[1]
    return ty


def chain_of(t):
    """(L/R chain, inner) of a constructed error value."""
    c = []
    while isinstance(t, tuple) and t and t[0] == 'v' and last(t[1]) in ('L', 'R') and len(t[2]) == 1:
        c.append(last(t[1])); t = t[2][0]
    return c, t


def payload_chain(t, base):
    """L/R chain by which t was taken out of base!Err.0."""
    c = []
    while isinstance(t, tuple) and t and t[0] == 'pl':
        if t[1] == base and t[2] == 'Err': return list(reversed(c))
        if t[2] not in ('L', 'R'): return None
        c.append(t[2]); t = t[1]
    return None


# ---- both sides ----
def client_ops(cx):
    return {f.name: f for f in cx.P.fns.values() if f.crate == 'opsqueue' and re.search(r'producer::client::Client::\w+$', f.path) and f.name in OPS}


def send_of(p):
    """(method, url term, event, body, request term) of the request made on the path."""
    for i, e in enumerate(p.ev):
        if e.k == 'call' and last(e.path) in METHODS and 'reqwest' in e.path and len(e.args) >= 2:
            body = None
            for e2 in p.ev[i + 1:]:
                if e2.k == 'call' and last(e2.path) in ('json', 'body', 'form', 'query') and 'equest' in e2.path and e2.args and e.res in list(terms(e2.args[0])):
                    body = (last(e2.path), e2.args[1] if len(e2.args) > 1 else None, (e2.node or {}).get('targs'))
            return last(e.path), e.args[1], e, body
    return None


def dbfns(cx): return tuple(f.path for f in cx.P.fns.values() if '::db::' in f.path and f.crate == 'opsqueue')


def client_paths(cx, f): return cx.paths(f, tag='http')


def routes_of(t):
    """[(path, method, handler)] of a router term, or None when not understood."""
    out = []
    while isinstance(t, tuple) and t and t[0] == 'call':
        n = last(t[1])
        if n in ('with_state', 'layer', 'route_layer', 'fallback', 'into_make_service', 'method_not_allowed_fallback'):
            t = t[2][0]; continue
        if n == 'new': return out
        if n == 'route' and len(t[2]) == 3:
            path = parts(t[2][1]); m = t[2][2]
            if path is None: return None
            while isinstance(m, tuple) and m and m[0] == 'call':
                if last(m[1]) in METHODS and len(m[2]) >= 1:
                    out.append((joined(path)[0], last(m[1]), m[2][-1]))
                    if len(m[2]) == 2: m = m[2][0]; continue
                    break
                if last(m[1]) in ('layer', 'with_state'): m = m[2][0]; continue
                return None
            t = t[2][0]; continue
        if n == 'nest' and len(t[2]) == 3:
            sub, pre = routes_of(t[2][2]), parts(t[2][1])
            if sub is None or pre is None: return None
            out += [(joined(pre)[0] + a, m, h) for a, m, h in sub]
            t = t[2][0]; continue
        if n == 'merge' and len(t[2]) == 2:
            sub = routes_of(t[2][1])
            if sub is None: return None
            out += sub; t = t[2][0]; continue
        return None
    return None


def producer_routes(cx):
    def go():
        f = cx.P.fn('producer::server::ServerState::build_router')
        if f is None: return None
        vals = [p.val for p in cx.w.paths(f, tag='routes') if p.out == 'val']
        rs = [routes_of(v) for v in vals]
        if not rs or any(r is None for r in rs) or any(set(map(repr, r)) != set(map(repr, rs[0])) for r in rs): return None
        return rs[0]
    if 'producer-routes' not in cx.w.memo: cx.w.memo['producer-routes'] = go()
    return cx.w.memo['producer-routes']


def match_route(routes, method, segs):
    """Routes a request matches, most literal first; segs: text or None (dynamic)."""
    hits, other = [], []
    for path, m, h in routes:
        ss = path.split('/')
        if len(ss) != len(segs): continue
        score = []
        for a, b in zip(ss, segs):
            dyn = a.startswith('{') and a.endswith('}')
            if b is None and not dyn: break
            if b is not None and not dyn and a != b: break
            if b is not None and dyn and b == '': break
            score.append(0 if dyn else 1)
        else:
            (hits if m == method else other).append((tuple(score), path, h))
    hits.sort(key=lambda x: x[0], reverse=True)
    return hits, other


def handler_fn(cx, h):
    if isinstance(h, tuple) and h and h[0] == 'fn':
        return cx.P.fn(h[1])
    return None


def request(cx, f):
    """(method, segments, dynamic terms, event, body) of an operation or None."""
    got = None
    for p in client_paths(cx, f):
        s = send_of(p)
        if s is None: continue
        method, url, e, body = s
        ps = parts(url)
        if ps is None: return None
        # the base URL comes first
        if ps and ps[0] == '': ps = ps[1:]
        if not ps or isinstance(ps[0], str) or not (is_field(arg(ps[0]), 'base_url') or calls(ps[0], 'base_url')): return None
        text, dyn = joined(ps[1:])
        if '?' in text or '#' in text: return None
        segs = text.split('/')
        if any(x != '{}' and '{}' in x for x in segs): return None
        now = (method, tuple(None if x == '{}' else x for x in segs), tuple(dyn), e, body)
        if got is not None and (got[:3] != now[:3]): return None
        got = now
    return got


def matched(cx, f):
    """(request, route path, handler function) of an operation."""
    rq, rs = request(cx, f), producer_routes(cx)
    if rq is None: cx.skip(f.name, 'request not recognised'); return None
    if rs is None: cx.skip('build_router', 'route table not recognised'); return None
    hits, other = match_route(rs, rq[0], rq[1])
    if not hits: return rq, None, None
    h = handler_fn(cx, hits[0][2])
    if h is None: cx.skip(f.name, 'handler is not a plain function'); return None
    return rq, hits[0][1], h


def handler_paths(cx, h): return cx.paths(h, atomic=dbfns(cx), tag='http')


def dbcall(p, names):
    return [(i, e) for i, e in enumerate(p.ev) if e.k == 'call' and any(e.path.endswith(n) for n in names)]


def err_paths(p):
    return p.out == 'val' and p.result() == 'Err'


@rule('routes', 'each client operation has exactly one matching route, whose handler is answered by the database operation of that name, with what the client sent', 'C25', floor=14)
def r_routes(cx):
    ops = client_ops(cx)
    for name in OPS:
        f = ops.get(name)
        if f is None: cx.skip(name, 'client operation not found'); continue
        m = matched(cx, f)
        if m is None: continue
        rq, route, h = m
        text = '/'.join('{}' if s is None else s for s in rq[1])
        cx.ob(f'{name}: a route serves {rq[0].upper()} …{text}', route is not None, wh(rq[3]), f'the producer client sends {rq[0].upper()} {text}, which no route of the producer server serves')
        if h is None: continue
        hp = handler_paths(cx, h)
        if name == 'server_version':
            ok = any(e.k in ('call', 'enter') and last(e.path) == 'version_info' for p in hp for e in p.ev)
            cx.ob(f'{name}: answered by version_info', ok, f'{h.file}:{h.line}', f'the version endpoint ({short(h.path)}) does not answer with the version')
            continue
        used = {e.path for p in hp for e in p.ev if e.k == 'call' and '::db::' in e.path and 'submission::db' in e.path}
        want = {u for u in used if any(u.endswith(n) for n in OPS[name])}
        cx.ob(f'{name}: answered by {last(OPS[name][0])}', bool(want) and used == want, f'{h.file}:{h.line}',
              f'client operation {name} is served by {short(h.path)}, which calls {sorted(short(u) for u in used)} instead of {OPS[name][0]}')
        # the argument travels: one dynamic segment or one body, extracted and handed to the database function
        sent = list(rq[2]) + ([rq[4][1]] if rq[4] and rq[4][0] == 'json' else [])
        for p in hp:
            if p.out != 'val' or p.result() != 'Ok': continue
            rs = [e.res for i, e in dbcall(p, OPS[name])]
            cut = [t for t in terms(p.val) if t[0] == 'call' and last(t[1]) in CUTS and t[2] and any(r in terms(t[2][0]) for r in rs)]
            cx.ob(f'{name}: the answer is what the database returned', not cut, f'{h.file}:{h.line}', f'{short(h.path)} answers with {show(cut[0])[:60] if cut else ""}, not with what the database returned')
        if name == 'count_submissions': continue
        for p in hp:
            for i, e in dbcall(p, OPS[name]):
                ext = [t for a in e.args for t in terms(a) if t[0] == 'field' and isinstance(t[1], tuple) and t[1][0] == 'param' and t[1][2] in params_by_extractor(h)]
                cx.ob(f'{name}: the handler passes on what was sent', bool(ext), wh(e), f'{short(h.path)} calls {short(e.path)} without what the request carried')
                if name == 'insert_submission': continue
                cut = [t for a in e.args for t in terms(a) if t[0] == 'call' and last(t[1]) in CUTS + TEXTS and t[2] and any(x in terms(t[2][0]) for x in ext)]
                cut += [x.res for j, x in evs(p, 'retain', 'remove', 'clear', 'drain', 'truncate', 'pop', 'insert') if j < i and x.args and any(y in terms(x.args[0]) for y in ext)]
                cx.ob(f'{name}: the handler passes it on unchanged', not cut, wh(e), f'{short(h.path)} passes on {show(cut[0])[:60] if cut else ""} of what the request carried')
        ps = params_of(f)
        cx.ob(f'{name}: the client sends its argument', len(sent) >= 1 and all(any(x[0] == 'param' and x[2] in ps for x in terms(s)) for s in sent), wh(rq[3]),
              f'the request of {name} does not carry its argument')


def params_by_extractor(h):
    return {p['name']: p.get('ty', '') for p in h.params if p.get('k') == 'bind' and re.search(r'::(Path|Json|Query|Extension)<|^axum::(?:\w+::)*(Path|Json)<', p.get('ty', ''))}


def params_of(f):
    return {p['name']: p.get('ty', '') for p in f.params if p.get('k') == 'bind' and p['name'] != 'self'}


@rule('path-escaping', 'text that goes into a path of the URL is percent-encoded', 'C25', floor=1)
def r_escape(cx):
    for name, f in client_ops(cx).items():
        rq = request(cx, f)
        if rq is None: cx.skip(name, 'request not recognised'); continue
        for t in rq[2]:
            tys = params_of(f)
            text = [x for x in terms(t) if x[0] == 'param' and re.search(r'str\b|String', tys.get(x[2], ''))]
            if not text: continue
            enc = calls(t, 'byte_serialize', 'utf8_percent_encode', 'percent_encode', 'encode', 'urlencode', 'push', 'extend')
            undo = [x for x in terms(t) if x[0] == 'call' and last(x[1]) in ('replace', 'replacen') and len(x[2]) >= 3 and calls(x[2][0], 'byte_serialize', 'utf8_percent_encode', 'percent_encode', 'encode') and re.search(r'[/?#%\s]', re.sub(r'%[0-9A-Fa-f]{2}', '', str(lit(x[2][2]) or '')))]
            cx.ob(f'{name}: text in the URL is encoded', bool(enc) and not undo, wh(rq[3]), f'{name} puts the text {show(text[0])} unescaped into the path of the URL: with "/", "?", "#" or "%" in it another resource is asked for')
            if calls(t, 'byte_serialize'):
                # that encoder writes a space as '+', which a path keeps
                plus = any(x[0] == 'call' and last(x[1]) == 'replace' and len(x[2]) == 3 and lit(x[2][2]) and '%20' in str(lit(x[2][2])) for x in terms(t))
                cx.ob(f'{name}: a space in the URL is %20', plus, wh(rq[3]), f'{name} encodes a space as "+", which the path of a URL takes literally')


@rule('body-types', 'the type the client sends or decodes is the type the server decodes or sends', 'C25', floor=9)
def r_types(cx):
    for name, f in client_ops(cx).items():
        m = matched(cx, f)
        if m is None or m[2] is None: continue
        rq, route, h = m
        cr, sr = generic(ret(f), 'Result'), generic(ret(h), 'Result') or [ret(h)]
        if not cr: cx.skip(name, 'result type not recognised'); continue
        j = generic(sr[0], 'Json')
        server = norm(j[0] if j else sr[0])
        if server == 'http::response::Response<axum_core::body::Body>' or 'impl ' in server: cx.skip(name, f'handler answers {server}'); continue
        cx.ob(f'{name}: result type', norm(cr[0]) == server, f'{h.file}:{h.line}', f'the server answers {name} with {sr[0]}, the client decodes {cr[0]}')
        dec = {'json': bool(j), 'from_slice': bool(j), 'from_str': bool(j), 'text': not j}
        for p in client_paths(cx, f):
            if p.out == 'val' and p.result() == 'Ok':
                for i, e in enumerate(p.ev):
                    if e.k == 'call' and last(e.path) in dec and ('serde_json' in e.path or 'reqwest' in e.path) and e.res in list(terms(p.val)):
                        if last(e.path) == 'text' and calls(p.val, 'from_str', 'from_slice'): continue  # (read as text, then parsed)
                        cx.ob(f'{name}: decoded as sent', dec[last(e.path)], wh(e), f'{name} decodes with {last(e.path)} what the server sends as {sr[0]}')
        # what goes up
        ext = params_by_extractor(h)
        up = []
        for pn, ty in ext.items():
            for head in ('Json', 'Path'):
                g = generic(ty, head)
                if g: up.append((head, norm(g[0])))
        tys = params_of(f)
        sent = []
        for t in rq[2]: sent += [('Path', norm(tys[x[2]])) for x in terms(t) if x[0] == 'param' and x[2] in tys]
        if rq[4]: sent += [('Json' if rq[4][0] == 'json' else rq[4][0], norm(tys[x[2]])) for x in terms(rq[4][1]) if x[0] == 'param' and x[2] in tys]
        same = lambda a, b: a == b or {a[1], b[1]} <= {'str', 'alloc::string::String', 'String'} and a[0] == b[0]
        ok = len(sent) == len(up) and all(any(same(a, b) for b in up) for a in sent)
        cx.ob(f'{name}: argument type', ok, wh(rq[3]), f'the client sends {sent}, the server expects {up}')


# ---- outcomes ----
def response(t):
    """(status names, payload) of a response term."""
    t0 = t
    while isinstance(t, tuple) and t and t[0] == 'call' and last(t[1]) in ('into_response', 'into') and t[2]: t = t[2][0]
    if isinstance(t, tuple) and t and t[0] == 'tuple':
        xs = t[1] if len(t) == 2 and isinstance(t[1], tuple) and t[1] and isinstance(t[1][0], tuple) else t[1:]
        st = [x for x in xs if is_const(x)]
        js = [x for x in xs if isinstance(x, tuple) and x and x[0] == 'v' and last(x[1]) == 'Json']
        if len(st) == 1: return last(st[0][1]), (js[0][2][0] if js else None)
    return None


NUMBERS = {200: 'OK', 201: 'CREATED', 202: 'ACCEPTED', 203: 'NON_AUTHORITATIVE_INFORMATION', 204: 'NO_CONTENT', 205: 'RESET_CONTENT', 206: 'PARTIAL_CONTENT', 400: 'BAD_REQUEST', 401: 'UNAUTHORIZED', 403: 'FORBIDDEN', 404: 'NOT_FOUND',
           405: 'METHOD_NOT_ALLOWED', 408: 'REQUEST_TIMEOUT', 409: 'CONFLICT', 410: 'GONE', 412: 'PRECONDITION_FAILED', 413: 'PAYLOAD_TOO_LARGE', 415: 'UNSUPPORTED_MEDIA_TYPE', 422: 'UNPROCESSABLE_ENTITY',
           429: 'TOO_MANY_REQUESTS', 500: 'INTERNAL_SERVER_ERROR', 501: 'NOT_IMPLEMENTED', 502: 'BAD_GATEWAY', 503: 'SERVICE_UNAVAILABLE', 504: 'GATEWAY_TIMEOUT', 507: 'INSUFFICIENT_STORAGE'}
SERVER = ('INTERNAL_SERVER_ERROR', 'NOT_IMPLEMENTED', 'BAD_GATEWAY', 'SERVICE_UNAVAILABLE', 'GATEWAY_TIMEOUT', 'INSUFFICIENT_STORAGE')
SUCCESS = ('OK', 'CREATED', 'ACCEPTED', 'NO_CONTENT', 'NON_AUTHORITATIVE_INFORMATION', 'RESET_CONTENT', 'PARTIAL_CONTENT')


def server_map(cx, name, h):
    """{error type: status} the handler answers with."""
    out = {}
    for p in handler_paths(cx, h):
        if p.out == 'panic': continue
        c = dbcall(p, OPS[name])
        if not c: continue
        i, e = c[-1]
        isok = truth(p, ('is', e.res, 'Ok')); iserr = truth(p, ('is', e.res, 'Err'))
        if isok is None and iserr is not None: isok = not iserr
        v = p.st.vari.get(e.res)
        if isok is None and v: isok = v == 'Ok'
        if isok is None: cx.skip(h.path, 'outcome of the database operation not examined'); continue
        if isok:
            cx.ob(f'{name}: a successful operation is answered as a success', p.result() == 'Ok', wh(e), f'{short(h.path)} answers an error although {short(e.path)} succeeded')
            if p.result() == 'Ok':
                okv = p.val[2][0] if p.val[0] == 'v' else p.val
                unit = okv == ('unit',) or okv == ('tuple',) or okv == ('tuple', ())
                if not unit:
                    cx.ob(f'{name}: the answer is the result', ('pl', e.res, 'Ok', 0) in list(terms(okv)), wh(e), f'{short(h.path)} answers with {show(okv)[:80]}, not with the result of {short(e.path)}')
            continue
        cx.ob(f'{name}: a failed operation is answered as an error', p.result() != 'Ok', wh(e), f'{short(h.path)} answers a success although {short(e.path)} failed')
        if p.result() != 'Err': continue
        err = p.val[2][0]
        r = response(err)
        if r is None: continue  # a plain error value of ServerError type, judged by its own conversion
        status, pay = r
        ch = payload_chain(pay, e.res) if pay is not None else None
        known = error_chain(p, e.res)
        f = cx.P.fn(e.path)
        ty = generic(ret(f), 'Result') if f else None
        if ty is None: continue
        if ch is not None:
            k = kind(ty[1], ch)
            out.setdefault(k, set()).add((status, wh(e)))
            if known is not None and list(known) != list(ch):
                cx.ob(f'{name}: the answered error is the one that occurred', False, wh(e), f'{short(h.path)} answers with {ch} when {known} occurred')
        else:
            k = kind(ty[1], known) if known is not None else None
            out.setdefault(k, set()).add((status, wh(e)))
    return out


def error_chain(p, res):
    """L/R chain the path has established for the error of `res`, completed at the leaf."""
    c, t = [], ('pl', res, 'Err', 0)
    while True:
        v = p.st.vari.get(t)
        if v is None:
            if truth(p, ('is', t, 'L')) is True: v = 'L'
            elif truth(p, ('is', t, 'R')) is True or truth(p, ('is', t, 'L')) is False: v = 'R'
            elif truth(p, ('is', t, 'R')) is False: v = 'L'
        if v not in ('L', 'R'): return c
        c.append(v); t = ('pl', t, v, 0)


def status_on(p):
    """Status constants the client path has excluded / established for its response."""
    yes, no, raised = None, set(), None
    for c, b in p.st.path:
        if isinstance(c, tuple) and c and c[0] == 'bin' and c[1] == '==' and any(is_const(x) for x in c[2:4]) and any(calls(x, 'status') for x in c[2:4]):
            n = last([x for x in c[2:4] if is_const(x)][0][1])
            if b: yes = n
            else: no.add(n)
        if isinstance(c, tuple) and c and c[0] == 'bin' and c[1] == '==' and any(lit(x) in NUMBERS for x in c[2:4]) and any(calls(x, 'as_u16', 'status') for x in c[2:4]):
            n = [NUMBERS[lit(x)] for x in c[2:4] if lit(x) in NUMBERS][0]
            if b: yes = n
            else: no.add(n)
        if isinstance(c, tuple) and c and c[0] == 'is' and isinstance(c[1], tuple) and c[1] and c[1][0] == 'call' and last(c[1][1]) == 'error_for_status': raised = not b if c[2] == 'Ok' else b
        if isinstance(c, tuple) and c and c[0] == 'call' and last(c[1]) == 'is_success':
            if b: yes = 'success'
            else: no |= set(SUCCESS)
    return yes, no, raised


TEXTS = ('trim', 'trim_start', 'trim_end', 'trim_matches', 'trim_start_matches', 'trim_end_matches', 'to_lowercase', 'to_uppercase', 'to_ascii_lowercase', 'to_ascii_uppercase', 'replace', 'replacen', 'split', 'splitn', 'split_once', 'strip_prefix', 'strip_suffix')
CUTS = ('take', 'skip', 'filter', 'filter_map', 'take_while', 'skip_while', 'step_by', 'rev', 'dedup', 'min', 'max', 'clamp', 'find', 'last', 'nth', 'first', 'saturating_sub', 'wrapping_sub', 'saturating_add', 'rem_euclid', 'filter_ok')


@rule('outcomes', 'every outcome of the server arrives at the caller as that outcome: errors keep their kind through status code and body, a success is only reported for a success status', 'C25', floor=15)
def r_outcomes(cx):
    for name, f in client_ops(cx).items():
        m = matched(cx, f)
        if m is None or m[2] is None: continue
        rq, route, h = m
        ty = generic(ret(f), 'Result')
        if not ty: continue
        cmap = {}
        for p in client_paths(cx, f):
            if p.out != 'val' or send_of(p) is None: continue
            yes, no, raised = status_on(p)
            e = send_of(p)[2]
            if p.result() == 'Ok':
                ok = yes in SUCCESS + ('success',) or (yes is None and raised is False)
                cx.ob(f'{name}: success only for a success status', ok, wh(e), f'{name} reports a success for a response of status {yes or "anything else"}')
                decs = [x for x in terms(p.val) if x[0] == 'call' and last(x[1]) in ('json', 'from_slice', 'from_str', 'text')]
                unit = generic(ret(f), 'Result')[0] == '()'
                cut = [x for x in terms(p.val) if x[0] == 'call' and last(x[1]) in CUTS and x[2] and any(d in terms(x[2][0]) for d in decs)]
                cut += [x.res for i, x in evs(p, 'truncate', 'retain', 'dedup', 'pop', 'remove', 'clear', 'drain', 'split_off', 'swap_remove') if x.args and any(d in terms(x.args[0]) for d in decs)]
                cx.ob(f'{name}: the result is all of what the server sent', unit or not cut, wh(e), f'{name} reports only {show(cut[0])[:60] if cut else ""} of what the server sent')
                cx.ob(f'{name}: the result is what the server sent', unit or bool(decs), wh(e), f'{name} reports the success {show(p.val)[:60]}, which is not decoded from the response')
            elif p.result() == 'Err':
                ch, inner = chain_of(p.val[2][0])
                k = kind(ty[1], ch)
                if isinstance(inner, tuple) and inner and inner[0] == 'pl' and inner[2] == 'Ok' and calls(inner, 'json', 'from_slice'):
                    # a decoded error body
                    cmap.setdefault(yes, set()).add(k)
        smap = server_map(cx, name, h) if name != 'server_version' else {}
        spec = {k: v for k, v in smap.items() if k and 'Database' not in k and k.endswith(('NotFound', 'NotCancellable', 'Submissions')) or k and 'common::errors::' in k and 'DatabaseError' not in k}
        for k, sts in smap.items():
            for status, where in sts:
                s = k or 'internal error'
                cx.ob(f'{name}: {last(s)} is answered with an error status', status not in SUCCESS, where, f'{short(h.path)} answers {last(s)} with the success status {status}')
                if k in spec:
                    cx.ob(f'{name}: {last(k)} arrives as {last(k)}', cmap.get(status) == {k}, where,
                          f'{short(h.path)} answers {last(k)} with {status}; the client decodes that as {sorted(last(x or "?") for x in cmap.get(status, ())) or "an unexpected status"}')
                else:
                    cx.ob(f'{name}: an internal error is answered as a server error', status in SERVER, where, f'{short(h.path)} answers a database error with {status}')
        want = [t for t in leaves(ty[1]) if 'InternalProducerClientError' not in t]
        for t in want:
            cx.ob(f'{name}: {last(t)} can arrive', t in smap, f'{h.file}:{h.line}', f'{short(h.path)} never answers with {last(t)}, which {name} promises to report')
    f = cx.fn('<producer::server::ServerError as axum_core::response::into_response::IntoResponse>::into_response')
    if f:
        for p in cx.paths(f):
            r = response(p.val) if p.out == 'val' else None
            if r is None: cx.skip('ServerError', 'conversion not recognised'); continue
            cx.ob('ServerError: a server error status', r[0] in SERVER, f'{f.file}:{f.line}', f'an internal error is answered with status {r[0]}')


def leaves(ty):
    g = generic(ty, 'E')
    return leaves(g[0]) + leaves(g[1]) if g else [ty]


# ---- retries ----
@rule('retries', 'a request is repeated on a connection failure, timeout or server error only, and never on an error that carries an answer', 'C25', floor=12)
def r_retries(cx):
    for name, f in client_ops(cx).items():
        ty = generic(ret(f), 'Result')
        seen = set()
        for p in client_paths(cx, f):
            for e in p.ev:
                if e.k != 'retry' or id(e.node) in seen: continue
                seen.add(id(e.node))
                cx.ob(f'{name}: the repetition is conditional', e.when is not None, wh(e), f'{name} repeats the request on every error, permanent ones included')
                if e.when is None or not ty: continue
                for t in leaves(ty[1]):
                    if 'InternalProducerClientError' in t: continue
                    cx.ob(f'{name}: {last(t)} is not repeated', not may_repeat(cx, p, e.when, ty[1], t, name), wh(e), f'{name} repeats the request after the permanent answer {last(t)}')
                inner = [t for t in leaves(ty[1]) if 'InternalProducerClientError' in t]
                if inner:
                    cls = uses_ephemeral(cx, p, e.when, ty[1], inner[0])
                    if cls is None: cx.skip(name, 'retry condition not recognised'); continue
                    cx.ob(f'{name}: other errors are classified', cls, wh(e), f'{name} does not ask whether the error is transient before repeating the request')
    f = cx.fn('producer::client::InternalProducerClientError::is_ephemeral')
    if not f: return
    for p in cx.paths(f):
        if p.out != 'val': continue
        where = f'{f.file}:{f.line}'
        v = verdict(p.val)
        known = {}
        for c, b in p.st.path:
            x, bb = c, b
            if isinstance(x, tuple) and x and x[0] == 'not': x, bb = x[1], not b
            if isinstance(x, tuple) and x and x[0] == 'call': known[last(x[1])] = bb
            if isinstance(x, tuple) and x and x[0] == 'is' and x[2] == 'HTTPClientError': known['http'] = bb
            if isinstance(x, tuple) and x and x[0] == 'is' and x[2] in ('UnexpectedStatus', 'ResponseDecodingError') and bb: known[x[2]] = True
            if isinstance(x, tuple) and x and x[0] == 'is' and x[2] == 'Some' and calls(x[1], 'status'): known['has_status'] = bb
        perm = known.get('UnexpectedStatus') or known.get('ResponseDecodingError')
        if perm:
            cx.ob('is_ephemeral: an unexpected status or undecodable answer is permanent', v is False, where, 'an unexpected status or an answer that cannot be decoded is repeated')
            continue
        trans = any(known.get(k) for k in ('is_connect', 'is_timeout', 'is_decode', 'is_body', 'is_server_error', 'is_request'))
        if v is True:
            cx.ob('is_ephemeral: only transient failures are repeated', trans, where, f'errors are repeated without being a connection failure, timeout or server error ({[k for k, b in known.items() if b]})')
        elif isinstance(v, tuple):
            ok = not terms_neg(v) and all(last(x[1]) in ('is_server_error', 'status', 'is_connect', 'is_timeout', 'is_decode', 'is_body', 'is_request', 'ge', 'as_u16') for x in terms(v) if x[0] == 'call')
            if not any(x[0] == 'call' for x in terms(v)): cx.skip('is_ephemeral', f'result {show(v)[:60]}'); continue
            cx.ob('is_ephemeral: only transient failures are repeated', ok, where, f'errors are repeated when {show(v)[:80]}')
        else:
            seen = known.get('is_status') or known.get('has_status') or known.get('is_connect') is False and known.get('is_timeout') is False
            cx.ob('is_ephemeral: connection failures and timeouts are repeated', bool(seen) and not (known.get('is_connect') or known.get('is_timeout')), where, 'a connection failure or timeout is treated as permanent')
            cx.ob('is_ephemeral: server errors are repeated', not (known.get('has_status') and 'is_server_error' not in known and not known.get('is_connect')), where, 'a server error status is treated as permanent')


def terms_neg(v): return any(x[0] in ('not', 'un') for x in terms(v))


def verdict(v):
    if v == ('lit', 'true') or v == ('lit', True): return True
    if v == ('lit', 'false') or v == ('lit', False): return False
    return v


def path_to(ty, leaf):
    g = generic(ty, 'E')
    if ty == leaf: return []
    if not g: return None
    for c, x in zip('LR', g):
        r = path_to(x, leaf)
        if r is not None: return [c] + r
    return None


def error_value(ty, leaf, x):
    for c in reversed(path_to(ty, leaf) or []): x = ('v', 'common::errors::E::' + c, (x,))
    return x


def when_paths(cx, p, when, val):
    """Paths of the retry condition applied to val; None when not understood."""
    if when[0] == 'closure': return cx.w.value_paths(when, p.I, p.st, (val,))
    return None


def may_repeat(cx, p, when, ty, leaf, name):
    if when[0] == 'fn': return ty != leaf and 'is_ephemeral' not in when[1]
    qs = when_paths(cx, p, when, error_value(ty, leaf, ('param', 'retry', 'error')))
    if qs is None: return False
    return any(q.out == 'val' and verdict(q.val) is not False for q in qs)


def uses_ephemeral(cx, p, when, ty, leaf):
    if when[0] == 'fn': return last(when[1]) == 'is_ephemeral'
    x = ('param', 'retry', 'error')
    qs = when_paths(cx, p, when, error_value(ty, leaf, x))
    if not qs: return None
    n = len(p.ev)
    for q in qs:
        if q.out != 'val': continue
        if verdict(q.val) is True or isinstance(verdict(q.val), tuple):
            asked = any(e.k in ('call', 'enter') and last(e.path) == 'is_ephemeral' for e in q.ev[n:])
            if not asked: return False
    return True


# ---- the insertion ----
@rule('insertion', 'an insertion is recorded with the contents, metadata and chunk size sent, and one chunk for each index below the announced number', 'C25', 'C26', 'C27', floor=6)
def r_insertion(cx):
    ops = client_ops(cx)
    f = ops.get('insert_submission')
    m = matched(cx, f) if f else None
    if not m or m[2] is None: return
    h = m[2]
    body = [n for n, ty in params_by_extractor(h).items() if 'InsertSubmission' in ty]
    if len(body) != 1: cx.skip('insert_submission', 'request parameter not recognised'); return
    req = None
    for p in handler_paths(cx, h):
        for i, e in dbcall(p, ('submission::db::insert_submission_from_chunks',)):
            a = e.args
            if len(a) < 6: cx.skip('insert_submission', 'arguments not recognised'); continue
            base = lambda t: [x for x in terms(t) if x[0] == 'param' and x[2] == body[0]]
            cc = [c[2] for c, b in p.st.path if isinstance(c, tuple) and c[0] == 'is' and is_field(c[1], 'chunk_contents') and b]
            no = [c[2] for c, b in p.st.path if isinstance(c, tuple) and c[0] == 'is' and is_field(c[1], 'chunk_contents') and not b]
            direct = True if 'Direct' in cc or 'SeeObjectStorage' in no else False if 'SeeObjectStorage' in cc or 'Direct' in no else None
            if direct is None: cx.skip('insert_submission', 'kind of contents not examined'); continue
            def fld(t, n): return any(is_field(x, n) and base(x) for x in terms(t))
            if direct:
                cx.ob('directly supplied contents have no prefix', isinstance(a[0], tuple) and a[0][0] == 'v' and last(a[0][1]) == 'None', wh(e), f'directly supplied contents are recorded with the prefix {show(a[0])[:50]}')
                ok = any(x[0] == 'pl' and x[2] == 'Direct' and is_field(x[1], 'chunk_contents') for x in terms(a[1]))
                cut = [x for x in terms(a[1]) if x[0] == 'call' and last(x[1]) in ('take', 'skip', 'rev', 'filter', 'step_by', 'chunks', 'dedup')]
                cx.ob('directly supplied contents are recorded as sent', ok and not cut, wh(e), f'the contents recorded are {show(a[1])[:60]}, not those sent')
            else:
                ok = isinstance(a[0], tuple) and a[0][0] == 'v' and last(a[0][1]) == 'Some' and any(x[0] == 'pl' and x[2] == 'SeeObjectStorage' and x[3] == 'prefix' for x in terms(a[0]))
                cx.ob('contents in object storage keep their prefix', ok, wh(e), f'contents in object storage are recorded with the prefix {show(a[0])[:50]}')
                n = number(cx, p, a[1])
                if n is None: cx.skip('insert_submission', f'number of chunks {show(a[1])[:60]}')
                else: cx.ob('contents in object storage: one chunk per index below the count', n[0], wh(e), n[1])
            opt = lambda n: fld(a[2 if n == 'metadata' else 3], n)
            cx.ob('the metadata is recorded as sent', opt('metadata') and not opt_swap(a[2], 'strategic_metadata'), wh(e), f'the metadata recorded is {show(a[2])[:60]}')
            cx.ob('the strategic metadata is recorded as sent', opt('strategic_metadata'), wh(e), f'the strategic metadata recorded is {show(a[3])[:60]}')
            given = [b for c, b in p.st.path if isinstance(c, tuple) and c[0] == 'is' and is_field(c[1], 'chunk_size') and c[2] == 'Some']
            if given and not given[0]: continue
            cx.ob('the chunk size is recorded as sent', fld(a[4], 'chunk_size'), wh(e), f'the chunk size recorded is {show(a[4])[:60]}')


def opt_swap(t, n): return any(is_field(x, n) for x in terms(t))


def number(cx, p, t):
    """(ok, message) for a vector of one None per index below the announced count, or None."""
    rng = [x for x in terms(t) if x[0] == 'struct' and 'Range' in x[1]]
    none = lambda v: isinstance(v, tuple) and v and v[0] == 'v' and last(v[1]) == 'None'
    iscount = lambda v: isinstance(v, tuple) and any(x[0] == 'pl' and x[2] == 'SeeObjectStorage' and x[3] == 'count' for x in terms(v))
    plain = lambda v: not any(x[0] == 'bin' for x in terms(v))
    shape = [x for x in terms(t) if x[0] == 'call' and last(x[1]) in ('skip', 'take', 'step_by', 'filter', 'chain')]
    if len(rng) == 1:
        fs = fields(rng[0])
        s, e = fs.get('start'), fs.get('end')
        if s is None or e is None or 'RangeInclusive' in rng[0][1]: return (False, f'the chunks are counted over {show(rng[0])[:60]}')
        if not iscount(e): return None
        z = lit(s)
        msg = f'the chunks recorded are those of {show(s)[:20]}..{show(e)[:60]}, not of 0..count'
        if z is None: return None
        if not plain(e) or str(z).rstrip('u64siz_') not in ('0', '') or shape: return (False, msg)
        for x in terms(t):
            if x[0] == 'closure':
                vs = [q.val for q in cx.w.value_paths(x, p.I, p.st, (('param', 'map', 'index'),)) if q.out == 'val']
                if not all(none(v) for v in vs): return (False, f'chunks in object storage are recorded with contents ({show(vs[0])[:40]})')
        return (True, '')
    for x in terms(t):
        if x[0] == 'call' and 'RangeInclusive' in x[1] and last(x[1]) == 'new': return (False, f'the chunks are counted over {show(x)[:60]}')
        if x[0] == 'call' and last(x[1]) == 'take' and len(x[2]) == 2 and isinstance(x[2][0], tuple) and x[2][0][0] == 'call' and last(x[2][0][1]) in ('repeat_with', 'repeat') and iscount(x[2][1]):
            src = x[2][0][2][0]
            vs = [q.val for q in cx.w.value_paths(src, p.I, p.st) if q.out == 'val'] if src[0] == 'closure' else [src]
            return (all(none(v) for v in vs) and plain(x[2][1]), f'the chunks recorded are {show(x)[:60]}')
    # vec![None; n], repeat_n(None, n)
    for x in terms(t):
        if x[0] == 'call' and last(x[1]) in ('from_elem', 'repeat_n') and len(x[2]) == 2:
            if not iscount(x[2][1]): return None
            return (none(x[2][0]) and plain(x[2][1]), f'the chunks recorded are {show(x)[:60]}')
    return None


@rule('base-url', 'the producer and consumer clients and the server use the same base paths', 'C25', 'C23', floor=2)
def r_base(cx):
    f = cx.fn('producer::client::Client::new')
    g = cx.P.fn('server::build_router')
    if not f or g is None: return
    nests = set()
    for x in PR.walk(g.body):
        if x.get('k') in ('mcall', 'call') and (PR.callee(x) or '').endswith('::nest'):
            ls = [y.get('v') or y.get('lit') or y.get('val') for y in PR.walk(x) if y.get('k') == 'lit']
            nests |= {str(l).strip('"') for l in ls if isinstance(l, str) and str(l).strip('"').startswith('/')}
    if not nests: cx.skip('build_router', 'no nested routers found'); return
    for p in cx.paths(f):
        if p.out != 'val': continue
        u = fields(p.val).get('base_url')
        ps = parts(u) if u is not None else None
        if not ps: cx.skip('Client::new', 'base URL not recognised'); continue
        text, dyn = joined(ps)
        tail = text[text.rfind('{}') + 2:]
        is_ = lambda s: any(isinstance(c, tuple) and c[0] == 'bin' and c[1] == '==' and v and ('lit', s) in c[2:] for c, v in p.st.path)
        if text.startswith('http://') and not text.startswith('http://{}{}'): cx.ob('the scheme asked for', not is_('https'), f'{f.file}:{f.line}', 'a server to be reached over https is asked over http')
        elif text.startswith('https://'): cx.ob('the scheme asked for', not is_('http'), f'{f.file}:{f.line}', 'a server to be reached over http is asked over https')
        cx.ob('the producer client asks under the producer routes', tail == '/producer' and tail in nests, f'{f.file}:{f.line}', f'the producer client asks under {tail}, the server serves {sorted(nests)}')
    for k in cx.P.fns.values():
        if k.crate != 'opsqueue' or 'consumer::client' not in k.path: continue
        for p in (cx.paths(k, tag='base') if last(k.path) == 'new' else ()):
            for t in [x for e in p.ev if e.k == 'call' for a in e.args for x in terms(a)]:
                if t[0] == 'mac' and t[1] == 'format' and '{' in t[2] and '/' in t[2] and t[2].rsplit('}', 1)[-1].startswith('/'):
                    tail = t[2].rsplit('}', 1)[-1]
                    cx.ob('the consumer client asks under the consumer routes', tail == '/consumer' and tail in nests, f'{k.file}:{k.line}', f'the consumer client asks under {tail}, the server serves {sorted(nests)}')
