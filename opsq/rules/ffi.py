"""What is registered inside the database engine (C37)."""
import re
from ..core import rule, short, wh, TECH, NOTES
from ..interp import show, terms, last, calls, norm_cond
from .. import prog as PR, interp as IN
from .util import *
from . import strat
from .config import peel

TECH['C37'] = 'ownership analysis of raw pointers handed to SQLite: provenance of every pointer on every path, type agreement between registration, callback and destructor, dominating null and arity tests, panic reachability'
NOTES['C37'] = "SQLite's documented contract (the destructor runs exactly once, also when registration fails; a callback sees as many arguments as it was registered for; a statement is serialised with the callbacks it makes) is trusted. The constructor of a C string from serialised JSON is taken not to fail, because JSON escapes the zero byte."

CAST = ('cast', 'cast_const', 'cast_mut', 'as_ptr', 'as_mut_ptr', 'as_ref', 'deref')
REG = ('sqlite3_create_function_v2', 'sqlite3_create_function', 'sqlite3_create_window_function', 'sqlite3_create_collation_v2')


def strip(t):
    while isinstance(t, tuple) and t:
        if t[0] == 'call' and last(str(t[1])) in CAST and t[2] and re.search(r'mut_ptr|const_ptr|non_null', str(t[1])): t = t[2][0]
        elif t[0] in ('cast', 'as', 'ref', 'addr', 'deref'): t = t[1]
        else: break
    return t


def pointee(ty):
    m = re.match(r'^\*(?:mut|const) (.*)$', str(ty).strip())
    return m.group(1).strip() if m else None


def event_of(p, t):
    for e in p.ev:
        if e.k == 'call' and e.a.get('res') == t: return e
    return None


def somefn(cx, t):
    """The function of an optional function pointer: Fn, None (absent) or '?'."""
    if t and t[0] == 'v' and last(str(t[1])) == 'None': return None
    if t and t[0] == 'v' and last(str(t[1])) == 'Some':
        x = t[2][0]
        while x[0] in ('cast', 'as'): x = x[1]
        if x[0] == 'fn':
            f = cx.P.fns.get(x[1]) or cx.P.fn(x[1])
            return f or '?'
    return '?'


def cstr(t):
    t = strip(t)
    if t[0] == 'call' and last(str(t[1])) == 'as_ptr': t = t[2][0]
    if t[0] == 'lit': return str(t[1]).strip('"').replace('\\0', '')
    return None


class Reg:
    pass


def registrations(cx):
    if 'ffi-reg' in cx.w.memo: return cx.w.memo['ffi-reg']
    out, seen = [], set()
    hosts = []
    for k, f in cx.P.fns.items():
        if f.body is None or f.crate != 'opsqueue': continue
        if any(n.get('k') in ('call', 'mcall') and last(str(PR.callee(n) or '')) in REG for n in PR.walk(f.body)): hosts.append(f)
    # an enclosing caller sees what a helper is given
    names = {f.path for f in hosts}
    tops = [f for f in cx.P.fns.values() if f.body is not None and f.crate == 'opsqueue' and f.path not in names and last(f.path) != 'main' and any(n.get('k') in ('call', 'mcall') and PR.canon(str(PR.callee(n) or '')) in names for n in PR.walk(f.body))]
    for f in hosts:
        generic = any(p.get('ty') and ('c_void' in str(p['ty']) or 'fn(' in str(p['ty'])) for p in f.params)
        roots = tops if generic and tops else [f]
        for r in roots:
            for p in cx.paths(r, atomic=cx.P.atoms('Strategy::build_query'), tag='ffi'):
                for i, e in evs(p, *REG):
                    g = Reg()
                    g.fn, g.p, g.i, g.ev, g.name = r, p, i, e, cstr(e.args[1])
                    g.n = lit(e.args[2]); g.data = e.args[4]; g.raw = strip(e.args[4]); g.cb = somefn(cx, e.args[5])
                    g.dtor = somefn(cx, e.args[8]) if len(e.args) > 8 else None
                    src = event_of(p, g.raw)
                    g.src = src
                    ty = src.node.get('ty') if src is not None and src.node else None
                    g.ty = pointee(ty) if ty else None
                    g.own = re.search(r'(Box|Arc|Rc|CString)', str(g.raw[1])).group(1) if g.raw[0] == 'call' and last(str(g.raw[1])) == 'into_raw' and re.search(r'(Box|Arc|Rc|CString)', str(g.raw[1])) else None
                    out.append(g)
    cx.w.memo['ffi-reg'] = out
    return out


def user_types(f):
    """Types the function treats raw pointers as: {type: node}."""
    out = {}
    for n in PR.walk(f.body):
        t = pointee(n.get('ty', '')) if isinstance(n.get('ty'), str) else None
        if t and 'c_void' not in t and 'libsqlite3_sys' not in t and t not in ('i8', 'u8') and not re.fullmatch(r'[A-Z]\w?', t) and t != 'str': out.setdefault(t, n)
    return out


@rule('registered-data', 'the data a function is registered with is owned by the registration', 'C37', floor=2)
def r_data(cx):
    for g in registrations(cx):
        s = g.name or 'function'
        if g.raw[0] == 'call' and last(str(g.raw[1])) in ('null_mut', 'null'): cx.ob(f'{s}: data', True); continue
        if g.own:
            cx.ob(f'{s}: data', True, wh(g.ev))
            if g.ty: cx.ob(f'{s}: no borrowed data', not g.ty.startswith('&'), wh(g.ev), f'{s} is registered with {g.ty}, a reference that the connection outlives')
            cx.ob(f'{s}: released', g.dtor is not None, wh(g.ev), f'the data {s} is registered with is never released')
        elif g.raw[0] in ('param', 'field', 'local', 'struct', 'v') or g.raw[0] == 'call' and last(str(g.raw[1])) in ('as_ptr', 'from_ref', 'from_mut', 'addr_of', 'as_mut_ptr'):
            cx.ob(f'{s}: data', False, wh(g.ev), f'{s} is registered with a pointer to {show(g.raw)[:50]}, which nothing keeps alive')
        elif g.raw[0] == 'call' and last(str(g.raw[1])) == 'leak': cx.ob(f'{s}: released', g.dtor is not None, wh(g.ev), f'the data {s} is registered with is never released')
        else: cx.skip(f'{s}: data', show(g.raw)[:60])
        # one registration owns one allocation
        same = [e for i, e in evs(g.p, *REG) if e is not g.ev and len(e.args) > 4 and strip(e.args[4]) == g.raw]
        cx.ob(f'{s}: owned once', not (same and g.own), wh(g.ev), f'the data of {s} is registered twice, so it is released twice')
        back = [e for e in g.p.ev if e.k == 'call' and last(e.path) == 'from_raw' and e.args and strip(e.args[0]) == g.raw]
        cx.ob(f'{s}: released once', not back, wh(back[0]) if back else wh(g.ev), f'the data of {s} is released here and by the destructor')


@rule('one-type', 'the callback and the destructor treat the registered data as exactly the type it was registered as', 'C37', floor=3)
def r_type(cx):
    for g in registrations(cx):
        s = g.name or 'function'
        if g.cb in (None, '?'): cx.skip(f'{s}: callback', 'not a known function'); continue
        ts = user_types(g.cb)
        if g.ty and ts:
            for t, n in ts.items(): cx.ob(f'{s}: callback', t == g.ty, g.cb.where, f'{short(g.cb.path)} treats the data as {t}, but it is registered as {g.ty}')
        else: cx.skip(f'{s}: callback', 'type not found')
        if g.dtor == '?': cx.skip(f'{s}: destructor', 'not a known function'); continue
        if g.dtor is None: continue
        for p in cx.paths(g.dtor):
            fr = [e for e in p.ev if e.k == 'call' and last(e.path) == 'from_raw']
            null = any(c[0] == 'call' and last(str(c[1])) == 'is_null' and v for c, v in p.st.path if isinstance(c, tuple))
            if p.out == 'panic': cx.ob(f'{s}: destructor does not panic', False, g.dtor.where, 'the destructor panics'); continue
            if null: cx.ob(f'{s}: destructor of nothing', not fr, g.dtor.where, 'the destructor releases a null pointer'); continue
            dr = [e for e in p.ev if e.k == 'call' and last(e.path) in ('drop_in_place', 'dealloc', 'free', 'decrement_strong_count', 'read')]
            if dr and not fr: cx.skip(f'{s}: destructor', 'releases in another way'); continue
            cx.ob(f'{s}: destructor releases once', len(fr) == 1, g.dtor.where, f'the destructor of {s} releases its data {len(fr)} times')
            for e in fr:
                own = re.search(r'(Box|Arc|Rc|CString)', e.path)
                if own and g.own: cx.ob(f'{s}: destructor owner', own.group(1) == g.own, wh(e), f'the data of {s} comes from {g.own} but is released as {own.group(1)}')
                ty = str((e.node or {}).get('ty', ''))
                m = re.match(r'.*?::(?:Box|Arc|Rc)<(.*)>$', ty)
                if m and g.ty and not re.fullmatch(r'[A-Z]\w?', m.group(1)):
                    t = re.sub(r', alloc::alloc::Global$', '', m.group(1))
                    cx.ob(f'{s}: destructor type', t == g.ty, wh(e), f'the destructor of {s} releases {t}, but the data is registered as {g.ty}')
                kept = [x for x in p.ev if x.k == 'call' and last(x.path) in ('forget', 'leak', 'into_raw') and any(y == e.a.get('res') for a in x.args for y in terms(a))] or [x for x in p.ev if x.k == 'call' and 'ManuallyDrop' in x.path]
                cx.ob(f'{s}: destructor lets go', not kept, wh(e), f'the destructor of {s} does not release the data')


def arity(p, f, n):
    """Is the path possible when the callback is given n arguments?"""
    for c, v in p.st.path:
        c2, neg = norm_cond(c) if isinstance(c, tuple) and c and isinstance(c[0], str) else (c, False)
        if not (isinstance(c2, tuple) and c2 and c2[0] == 'bin'): continue
        a, b = c2[2], c2[3]
        pa, pb = param(a) and a[2] == f.params[1]['name'], param(b) and b[2] == f.params[1]['name']
        if not (pa ^ pb): continue
        o = lit(b if pa else a)
        if not isinstance(o, int): continue
        x, y = (n, o) if pa else (o, n)
        r = {'==': x == y, '!=': x != y, '<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}.get(c2[1])
        if r is None: continue
        if (r ^ bool(neg)) != v: return False
    return True


def argindex(t, f):
    """Positions of the argument array that a term reads."""
    out = set()
    name = f.params[2]['name']
    for x in terms(t):
        if x[0] == 'call' and last(str(x[1])) in ('add', 'offset') and x[2] and param(x[2][0]) and x[2][0][2] == name:
            out.add(lit(x[2][1]))
        if x[0] == 'index' and any(param(y) and y[2] == name for y in terms(x[1])): out.add(lit(x[2]))
    return out


VALUE = ('sqlite3_value_int64', 'sqlite3_value_int', 'sqlite3_value_text', 'sqlite3_value_blob', 'sqlite3_value_double', 'sqlite3_value_bytes', 'sqlite3_value_type')


@rule('arguments', 'a callback reads only the arguments it is given, and reads them', 'C37', 'C17', 'C18', floor=2)
def r_args(cx):
    for g in registrations(cx):
        s = g.name or 'function'
        if g.cb in (None, '?') or len(g.cb.params) < 3: continue
        f = g.cb
        if g.n is None: cx.skip(f'{s}: arity', 'not a literal'); continue
        reads = False
        for p in cx.paths(f, atomic=cx.P.atoms('Reserver::is_reserved', 'MetaState::get', 'MetaStateField::to_json')):
            used = {}
            for i, e in evs(p, *VALUE):
                for a in e.args:
                    for k in argindex(a, f): used.setdefault(k, e)
                    if param(a) and a[2] == f.params[2]['name'] or a[0] == 'deref' and param(a[1]) and a[1][2] == f.params[2]['name']: used.setdefault(0, e)
            ns = [g.n] if g.n >= 0 else [0, 1, 2, 3]
            for n in ns:
                if not arity(p, f, n): continue
                if used: reads = True
                for k, e in used.items():
                    if k is None: cx.skip(f'{s}: argument', 'position not a literal')
                    else: cx.ob(f'{s}: argument {k}', k < n, wh(e), f'{short(f.path)} reads argument {k} although it is given {n}')
        cx.ob(f'{s}: looks at its arguments', reads, f.where, f'{short(f.path)} turns away every call with the {g.n} arguments it is registered for')


@rule('null-tested', 'a pointer that may be null is tested before it is followed', 'C37', floor=1)
def r_null(cx):
    seen = set()
    for g in registrations(cx):
        s = g.name or 'function'
        if g.cb in (None, '?') or g.cb.path in seen: continue
        seen.add(g.cb.path)
        f = g.cb
        nonnull = bool(g.own)
        for p in cx.paths(f, atomic=cx.P.atoms('Reserver::is_reserved', 'MetaState::get', 'MetaStateField::to_json')):
            ok = {strip(c[2][0]) for c, v in p.st.path if isinstance(c, tuple) and c[0] == 'call' and last(str(c[1])) == 'is_null' and v is False}
            ok |= {strip(t[2][0]) for t, v in p.st.vari.items() if isinstance(t, tuple) and t[0] == 'call' and last(str(t[1])) in ('as_ref', 'new', 'as_mut') and v == 'Some' and t[2]}
            isnull = {strip(c[2][0]) for c, v in p.st.path if isinstance(c, tuple) and c[0] == 'call' and last(str(c[1])) == 'is_null' and v is True}
            for i, e in enumerate(p.ev):
                if e.k != 'call': continue
                if last(e.path) in ('from_ptr', 'from_raw_parts', 'strlen'):
                    a = strip(e.args[0])
                    if calls(a, 'sqlite3_value_text', 'sqlite3_value_blob'): cx.ob(f'{s}: text', a in ok, wh(e), 'the text of an argument is read without a null test; it is null when the argument is NULL')
                elif last(e.path) in ('is_reserved', 'get', 'to_json') or e.args and last(e.path) not in CAST + ('is_null',) and any(strip(a)[0] == 'call' and last(str(strip(a)[1])) == 'sqlite3_user_data' for a in e.args[:1]):
                    a = strip(e.args[0]) if e.args else None
                    if a and a[0] == 'call' and last(str(a[1])) == 'sqlite3_user_data':
                        cx.ob(f'{s}: data', a not in isnull and (a in ok or nonnull), wh(e), 'the registered data is used without a null test')


@rule('no-unwinding', 'a callback does not panic', 'C37', floor=2)
def r_panic(cx):
    seen = set()
    for g in registrations(cx):
        s = g.name or 'function'
        if g.cb in (None, '?') or g.cb.path in seen: continue
        seen.add(g.cb.path)
        f = g.cb
        for p in cx.paths(f, atomic=cx.P.atoms('Reserver::is_reserved', 'MetaState::get', 'MetaStateField::to_json')):
            if p.out != 'panic': cx.ob(f'{s}: path', True); continue
            if not arity(p, f, g.n if g.n is not None else 1): continue
            e = next((e for e in reversed(p.ev) if e.k == 'panic'), None)
            why = [t for t, v in p.st.vari.items() if v in ('Err', 'None')]
            if any(calls(t, 'new') and 'CString' in str(t) for t in why) : continue
            if e is None and not why and not p.st.path: cx.skip(f'{s}: panic', 'cause not found'); continue
            cx.ob(f'{s}: panic', False, wh(e) if e is not None else f.where, f'{short(f.path)} panics inside the engine')


@rule('handed-back', 'text is handed to the engine with its own length and with the destructor of what allocated it', 'C37', 'C18', floor=2)
def r_text(cx):
    seen = set()
    for g in registrations(cx):
        if g.cb in (None, '?') or g.cb.path in seen: continue
        seen.add(g.cb.path)
        f = g.cb
        s = short(f.path)
        for p in cx.paths(f, atomic=cx.P.atoms('Reserver::is_reserved', 'MetaState::get', 'MetaStateField::to_json')):
            if p.out != 'val': continue
            rs = [e for e in p.ev if e.k == 'call' and last(e.path).startswith('sqlite3_result_')]
            if len(rs) > 1: cx.ob(f'{s}: one result', False, wh(rs[1]), f'{s} sets {len(rs)} results on one path')
            else: cx.ob(f'{s}: one result', True)
            for e in rs:
                if last(e.path) not in ('sqlite3_result_text', 'sqlite3_result_blob', 'sqlite3_result_text64', 'sqlite3_result_blob64'): continue
                ptr, n, d = e.args[1], peel(e.args[2]), e.args[3]
                raw = strip(ptr)
                dn = last(str(d[1])) if d[0] in ('call', 'const', 'fn') else None
                lt = cstr(ptr)
                own = raw[0] == 'call' and last(str(raw[1])) == 'into_raw'
                if own:
                    df = somefn(cx, d)
                    k = re.search(r'(Box|Arc|CString)', str(raw[1]))
                    if dn in ('SQLITE_STATIC', 'SQLITE_TRANSIENT') or df is None: cx.ob(f'{s}: text is released', False, wh(e), f'the text {s} allocates is never released')
                    elif df == '?': cx.skip(f'{s}: destructor', show(d)[:50])
                    else:
                        for q in cx.paths(df):
                            null = any(c[0] == 'call' and last(str(c[1])) == 'is_null' and v for c, v in q.st.path if isinstance(c, tuple))
                            fr = [x for x in q.ev if x.k == 'call' and last(x.path) == 'from_raw']
                            if null or q.out == 'panic': continue
                            cx.ob(f'{s}: text is released', len(fr) == 1, df.where, f'the destructor of the text releases it {len(fr)} times')
                            for x in fr:
                                k2 = re.search(r'(Box|Arc|CString)', x.path)
                                if k and k2: cx.ob(f'{s}: text is released as what it is', k.group(1) == k2.group(1), wh(x), f'the text comes from {k.group(1)} but is released as {k2.group(1)}')
                elif lt is not None:
                    cx.ob(f'{s}: constant text', dn in ('SQLITE_STATIC', 'SQLITE_TRANSIENT') or somefn(cx, d) is None, wh(e), 'a constant text is handed over to be released')
                    if isinstance(lit(n), int): cx.ob(f'{s}: constant text length', lit(n) == len(lt) or lit(n) == -1, wh(e), f'the text {lt} is handed over with length {lit(n)}')
                    elif calls(e.args[2], 'len', 'count_bytes'): cx.ob(f'{s}: constant text length', True)
                elif raw[0] == 'call' and last(str(raw[1])) in ('as_ptr', 'as_mut_ptr'):
                    cx.ob(f'{s}: lent text', dn == 'SQLITE_TRANSIENT', wh(e), 'text that is dropped when the callback returns is not copied by the engine')
                else: cx.skip(f'{s}: text', show(raw)[:50])
                if lt is None:
                    ls = [c for c in calls(e.args[2], 'len', 'count_bytes')]
                    src = raw[2][0] if raw[0] == 'call' and raw[2] else raw
                    cn = [c for c in calls(src, 'new', 'from_vec_unchecked', 'from')] or ([src] if src[0] == 'call' else [])
                    txt = {x for c in cn for x in c[2]} | {src}
                    if isinstance(lit(n), int):
                        cx.ob(f'{s}: length', lit(n) == -1, wh(e), f'a text of any length is handed over with length {lit(n)}')
                    elif ls and not any(b[0] == 'bin' for b in terms(e.args[2])):
                        base = ls[0][2][0]
                        same = any(base == x or base in list(terms(x)) for x in txt)
                        if same: cx.ob(f'{s}: length', True)
                        else: cx.skip(f'{s}: length', show(base)[:50])
                    elif ls and any(b[0] == 'bin' and b[1] == '+' and any(lit(z) not in (0, None) for z in b[2:4]) for b in terms(e.args[2])):
                        cx.ob(f'{s}: length', False, wh(e), f'the text is handed over with length {show(e.args[2])[:60]}')
                    else: cx.skip(f'{s}: length', show(e.args[2])[:50])


@rule('registered-for-the-query', 'the functions are registered under the names and with the number of arguments the queries call them with, and a failed registration is reported', 'C37', 'C17', 'C18', floor=2)
def r_names(cx):
    regs = registrations(cx)
    used = {}
    for name, ks, b, txt, bound, f in strat.built(cx):
        for m in re.finditer(r'\b(opsqueue_\w+)\s*\(([^()]*(?:\([^()]*\)[^()]*)*)\)', txt or ''):
            if (m.group(2).count(',') + 1, f) not in used.setdefault(m.group(1), []): used[m.group(1)].append((m.group(2).count(',') + 1, f))
    have = {}
    for g in regs:
        if g.name: have.setdefault(g.name, set()).add(g.n)
    for n, us in used.items():
        for k, f in us:
            if n in have: cx.ob(f'{n}: arity', k in have[n] or -1 in have[n], f.where, f'{n} is called with {k} arguments but registered for {sorted(have[n])}')
            elif all(g.name for g in regs) and regs: cx.ob(f'{n}: registered', False, f.where, f'{n} is used in a query but not registered')
    for g in regs:
        s = g.name or 'function'
        if g.p.out == 'val' and g.p.result() == 'Ok':
            rc = g.ev.a.get('res')
            known = False
            for c, v in g.p.st.path:
                if any(x == rc for x in (terms(c) if isinstance(c, tuple) else ())):
                    c2, neg = norm_cond(c)
                    known = True
                    if c2[0] == 'bin' and c2[1] == '==' : cx.ob(f'{s}: success means registered', (v ^ bool(neg)), wh(g.ev), f'a failed registration of {s} is taken for success')
            for x in g.p.ev[g.i + 1:]:
                if x.k == 'call' and any(y == rc for a in x.args for y in terms(a)): known = True
            if not known: cx.ob(f'{s}: outcome looked at', False, wh(g.ev), f'the outcome of registering {s} is ignored')
    f = cx.P.fn('Dispatcher::fetch_and_reserve_chunks')
    if f is None: return
    for p in cx.paths(f, atomic=cx.P.atoms('Strategy::build_query', 'Dispatcher::register_lookups', 'Reserver::try_reserve')):
        q = [(i, e) for i, e in enumerate(p.ev) if e.k == 'sql' and not e.sql]
        r = [(i, e) for i, e in evs(p, 'register_lookups') + evs(p, *REG)]
        for j, x in q:
            same = [i for i, e in r if last(e.path) in REG or x.a.get('exec') in e.args]
            cx.ob('registered before the query', bool(same) and same[0] < j, f.where, 'the query is run on a connection the functions are not registered on')
