"""The settings of the server: defaults, and the way of each setting to its use (C35)."""
import re
from ..core import rule, short, wh, TECH, NOTES
from ..interp import show, terms, last, calls
from .. import interp as IN, prog as PR
from .util import *
from .app import main_paths
from .native import millis
from .dispatch import reaches

TECH['C35'] = 'symbolic evaluation of both sets of defaults, the derived command line parser included, and their comparison; interprocedural value identity from each setting to the one use it names'
NOTES['C35'] = "How clap and humantime parse a value is taken from them. A setting used through an expression the rules cannot reduce to the setting itself is left open instead of being reported."

CONV = {'into', 'from', 'clone', 'to_string', 'as_str', 'as_ref', 'deref', 'get', 'to_owned', 'borrow', 'unwrap', 'expect', 'try_into', 'try_from', 'as_deref', 'into_boxed_str', 'into_string', 'parse', 'from_str', 'inner', 'leak'}


def peel(t):
    """The value below conversions that keep it."""
    while isinstance(t, tuple) and t:
        if t[0] == 'call' and last(str(t[1])) in CONV and len(t[2]) == 1: t = t[2][0]; continue
        if t[0] == 'pl' and t[2] in ('Some', 'Ok'): t = t[1]; continue
        if t[0] == 'v' and len(t[2]) == 1: t = t[2][0]; continue
        if t[0] in ('cast', 'ref', 'as') and isinstance(t[1], tuple): t = t[1]; continue
        return t
    return t


def settings(cx):
    it = cx.P.items.get('config::Config')
    return [f.get('name') for v in (it or {}).get('variants', []) for f in v.get('fields', [])]


# ---- defaults ----------------------------------------------------------------------------------

UNITS = {'ms': 1, 'msec': 1, 'millis': 1, 's': 1000, 'sec': 1000, 'second': 1000, 'm': 60000, 'min': 60000, 'minute': 60000, 'h': 3600000, 'hr': 3600000, 'hour': 3600000, 'd': 86400000, 'day': 86400000, 'w': 604800000, 'week': 604800000}


def text_duration(s):
    total, rest = 0, s.strip()
    if not rest: return None
    for n, u in re.findall(r'(\d+)\s*([a-zA-Z]+)', rest):
        u = u if u in UNITS else u.rstrip('s')
        if u not in UNITS: return None
        total += int(n) * UNITS[u]
    return total if re.fullmatch(r'(\s*\d+\s*[a-zA-Z]+)+\s*', rest) else None


def value(t, kind):
    """A constant term as a comparable value, or None."""
    if kind == 'duration':
        x = peel(t)
        if x[0] == 'lit' and isinstance(x[1], str): return text_duration(x[1].strip('"'))
        return next((m for m in (millis(y) for y in terms(t) if y[0] == 'call' and last(str(y[1])).startswith('from_') and last(str(y[1])) != 'from_str') if m is not None), None)
    x = peel(t)
    if x[0] == 'lit':
        s = str(x[1]).strip('"')
        return int(s.replace('_', '')) if re.fullmatch(r'-?[\d_]+', s) else s
    ls = {y for y in terms(t) if y[0] == 'lit'}
    if len(ls) == 1 and not [y for y in terms(t) if y[0] in ('param', 'unk', 'bin', 'phi', 'elem')]: return value(next(iter(ls)), kind)
    return None


def clap_defaults(cx):
    """{setting: (default term, option name)} of the derived parser."""
    out = {}
    f = next((f for k, f in cx.P.derived.items() if 'augment_args' in k and 'config::Config' in k), None)
    if f is None: return None
    for p in cx.w.paths(f):
        if p.out != 'val': continue
        for t in terms(p.val):
            if not (t[0] == 'call' and last(str(t[1])) == 'arg' and len(t[2]) == 2): continue
            a, d, long = t[2][1], None, None
            while isinstance(a, tuple) and a and a[0] == 'call':
                n = last(str(a[1]))
                if n in ('default_value', 'default_value_t') and d is None: d = a[2][1]
                if n == 'long': long = lit(a[2][1])
                if n == 'new':
                    i = lit(a[2][0])
                    if isinstance(i, str): out.setdefault(i.strip('"'), (d, (long or '').strip('"'), p))
                    break
                a = a[2][0] if a[2] else None
    return out


@rule('defaults-agree', 'the default of each setting is the same on the command line and when the server is embedded', 'C35', floor=8)
def r_defaults(cx):
    g = cx.fn('<config::Config as core::default::Default>::default')
    cl = clap_defaults(cx)
    if not g or cl is None:
        cx.skip('defaults', 'no derived parser or no Default'); return
    st = None
    for p in cx.paths(g):
        if p.out == 'val':
            for t in terms(p.val):
                if t[0] == 'struct' and last(str(t[1])) == 'Config': st = fields(t); break
    if not st: cx.skip('Default', 'not understood'); return
    ty = {f.get('name'): f.get('ty') for v in cx.P.items['config::Config'].get('variants', []) for f in v.get('fields', [])}
    for n in settings(cx):
        kind = 'duration' if 'Duration' in str(ty.get(n)) else 'plain'
        if n not in cl: cx.ob(f'{n}: option', n in cl, g.where, f'there is no command line option for {n}'); continue
        d, long, p = cl[n]
        cx.ob(f'{n}: option', long == n.replace('_', '-'), g.where, f'the option --{long} sets {n}')
        if d is None:
            cx.ob(f'{n}: default', False, g.where, f'{n} has no default on the command line'); continue
        if d[0] == 'call' and last(str(d[1])) == 'get_or_init':
            qs = [q for q in cx.w.value_paths(d[2][-1], p.I, p.st) if q.out == 'val']
            if not qs: cx.skip(f'{n}: default', show(d)[:60]); continue
            d = qs[0].val
        if 'Pipe' in str(ty.get(n)):
            a = lit(peel(d)); ok = a in ('-1', '"-1"') or isinstance(a, str) and a.strip('"') == '-1'
            x = st[n]
            none = (x[0] == 'call' and last(str(x[1])) == 'default') or not calls(x, 'from_raw_fd', 'from')
            cx.ob(f'{n}: default', ok and none, g.where, f'{n} is set by default')
            continue
        a, b = value(d, kind), value(st[n], kind)
        if a is None or b is None: cx.skip(f'{n}: default', f'{show(d)[:50]} / {show(st[n])[:50]}'); continue
        cx.ob(f'{n}: default', a == b, g.where, f'the default of {n} is {a}{" ms" if kind == "duration" else ""} on the command line but {b} when embedded')


@rule('parsed-into-own', 'each option fills the setting of its own name', 'C35', floor=1)
def r_parsed(cx):
    f = next((f for k, f in cx.P.derived.items() if 'from_arg_matches_mut' in k and 'config::Config' in k), None)
    if f is None: cx.skip('parser', 'no derived parser'); return
    for p in cx.w.paths(f):
        if p.out != 'val': continue
        for t in terms(p.val):
            if t[0] != 'struct' or last(str(t[1])) != 'Config': continue
            for n, v in fields(t).items():
                ids = {str(lit(x[2][-1])).strip('"') for x in terms(v) if x[0] == 'call' and last(str(x[1])) in ('remove_one', 'get_one')}
                if ids: cx.ob(n, ids == {n}, f.where, f'the option {sorted(ids)} fills {n}')


# ---- use ---------------------------------------------------------------------------------------

def verdict(cx, subject, t, want, other, where, what):
    """`t` must be the setting `want` (a predicate), and nothing else; `other` recognises the other settings."""
    if t is None: cx.skip(subject, 'not found'); return
    x = peel(t)
    if want(x): cx.ob(subject, True); return
    sub = terms(t)
    own = any(want(y) for y in sub)
    foreign = [y for y in sub if other(y) and not want(y)]
    if foreign and not own: cx.ob(subject, False, where, f'{what} is taken from {show(foreign[0])[-60:]}'); return
    if not own and not [y for y in sub if y[0] in ('param', 'unk', 'phi', 'elem', 'local')]: cx.ob(subject, False, where, f'{what} is {show(t)[:60]}, whatever is configured'); return
    if own and x[0] == 'bin' and any(y[0] == 'lit' for y in x[2:] if isinstance(y, tuple)): cx.ob(subject, False, where, f'{what} is not the configured value but {show(x)[-60:]}'); return
    if own and x[0] == 'call' and last(str(x[1])) in ('min', 'max', 'clamp', 'saturating_sub', 'saturating_add', 'saturating_mul', 'mul_f64', 'mul_f32', 'wrapping_add') and any(y[0] == 'lit' for y in terms(x)):
        cx.ob(subject, False, where, f'{what} is not the configured value but {show(x)[-60:]}'); return
    cx.skip(subject, show(t)[-80:])


def of_config(name, root=None):
    """Field `name` of the configuration value."""
    def f(t):
        return is_field(t, name) and (root is None or root(t[1]))
    return f


def confroot(t):
    """The configuration: what the command line parser returned, or a parameter or field called for it."""
    t2 = peel(t)
    return calls(t2, 'parse', 'leak') or param(t2) or is_field(t2, 'config')


@rule('settings-in-main', 'main hands each setting to the part it is meant for', 'C35', floor=5)
def r_main(cx):
    f, ps = main_paths(cx)
    names = settings(cx)
    if not ps or not names: cx.skip('main', 'not found'); return
    other = lambda t: isinstance(t, tuple) and t and t[0] == 'field' and t[2] in names and confroot(t[1])
    def args(p, fname):
        for e in p.ev:
            if e.k == 'call' and last(e.path) == fname:
                g = cx.P.fns.get(str(e.path)) or cx.P.fn(str(e.path))
                if g: return e, {x.get('name'): (e.args[i] if i < len(e.args) else None) for i, x in enumerate(g.params)}, g
        return None, {}, None
    for p in ps:
        if p.out == 'panic': continue
        e, a, g = args(p, 'open_and_setup')
        if e:
            for n, x in zip([y.get('name') for y in g.params], g.params):
                if 'str' in str(x.get('ty')).lower() or 'Path' in str(x.get('ty')): verdict(cx, 'database file', a[n], of_config('database_filename', confroot), other, wh(e), 'the database file')
                elif '32' in str(x.get('ty')) or 'NonZero' in str(x.get('ty')): verdict(cx, 'read pool size', a[n], of_config('max_read_pool_size', confroot), other, wh(e), 'the size of the read pool')
        e, a, g = args(p, 'serve_producer_and_consumer')
        if e:
            for x in g.params:
                t, v = str(x.get('ty')), a[x.get('name')]
                if v is None: continue
                if 'Config' in t and 'onfig::Config' in t: cx.ob('configuration', confroot(v) and not calls(v, 'default'), wh(e), 'the server is given another configuration than the parsed one')
                elif 'str' in t and 'prometheus' not in t.lower():
                    if v[0] == 'mac': verdict(cx, 'port', v[3][-1] if v[3] else v, of_config('port', confroot), other, wh(e), 'the port')
                    else: verdict(cx, 'port', v, of_config('port', confroot), other, wh(e), 'the port')
                    txt = [str(y[1]) for y in terms(v) if y[0] == 'lit' and isinstance(y[1], str)] + ([v[2]] if v[0] == 'mac' else [])
                    hosts = [m for s in txt for m in re.findall(r'(\d+\.\d+\.\d+\.\d+|localhost)', s)]
                    for h in hosts: cx.ob('listens for everyone', h == '0.0.0.0', wh(e), f'the server only listens on {h}')
                elif t.endswith('Duration'): verdict(cx, 'reservation expiration', v, of_config('reservation_expiration', confroot), other, wh(e), 'the time until a reservation expires')
        e, a, g = args(p, 'periodically_cleanup_old')
        if e:
            for x in g.params:
                if 'Duration' in str(x.get('ty')): verdict(cx, 'submission age', a[x.get('name')], of_config('max_submission_age', confroot), other, wh(e), 'the age at which submissions are removed')


@rule('settings-in-server', 'the server hands each setting to the part it is meant for', 'C35', floor=4)
def r_server(cx):
    f = cx.fn('server::serve_producer_and_consumer')
    names = settings(cx)
    if not f or not names: return
    cname = next((x.get('name') for x in f.params if 'config::Config' in str(x.get('ty'))), None)
    dur = next((x.get('name') for x in f.params if str(x.get('ty')).endswith('Duration')), None)
    adr = next((x.get('name') for x in f.params if str(x.get('ty')).endswith('str')), None)
    conf = lambda t: param(t, cname)
    other = lambda t: isinstance(t, tuple) and t and (t[0] == 'field' and t[2] in names and conf(t[1]) or param(t, dur))
    seen = set()
    for p in cx.paths(f):
        if p.out == 'panic': continue
        for e in p.ev:
            if e.k != 'call': continue
            n = last(e.path)
            if n in ('time_to_live', 'time_to_idle', 'expire_after') and 'moka' in e.path and 'ttl' not in seen:
                verdict(cx, 'reservation expiration', e.args[-1], lambda t: param(t, dur) or of_config('reservation_expiration', conf)(t), other, wh(e), 'the time until a reservation expires')
            if n == 'bind' and 'TcpListener' in e.path:
                a = peel(e.args[-1])
                if calls(a, 'parse'): pass
                cx.ob('address', any(param(y, adr) for y in terms(a)) or any(of_config('port', conf)(y) for y in terms(a)), wh(e), f'the server listens on {show(a)[:60]} instead of the configured address')
            if n == 'serve' and 'axum' in e.path and e.args:
                bound = any(y[0] == 'call' and last(str(y[1])) == 'bind' for y in terms(e.args[0]))
                cx.ob('serves that listener', bound, wh(e), 'another listener is served than the one bound')
        structs = {t for e in p.ev if e.k == 'call' for a in e.args for t in terms(a) if t[0] == 'struct'}
        for t in structs:
            fs = fields(t)
            if 'max_chunk_retries' in fs: verdict(cx, 'chunk retries', fs['max_chunk_retries'], of_config('max_chunk_retries', conf), other, f.where, 'the number of retries')
            if 'max_submissions' in fs: verdict(cx, 'submissions returned', fs['max_submissions'], of_config('max_submissions_returned', conf), other, f.where, 'the number of submissions returned')
            if 'config' in fs: cx.ob('configuration', conf(peel(fs['config'])) or not is_const(fs['config']), f.where, 'the consumer half is given another configuration')
        break


def is_const(t):
    return not [y for y in terms(t) if y[0] in ('param', 'unk', 'phi', 'elem')]


@rule('settings-used', 'each part uses its setting for what it names', 'C35', floor=6)
def r_used(cx):
    names = settings(cx)
    other = lambda t: isinstance(t, tuple) and t and t[0] == 'field' and t[2] in names
    # a connection's heartbeats
    g = cx.fn('ConsumerConn::new')
    for p in cx.paths(g) if g else []:
        if p.out != 'val': continue
        st = next((fields(t) for t in terms(p.val) if t[0] == 'struct' and 'heartbeat_interval' in fields(t)), None)
        if not st: cx.skip('heartbeats', 'connection not understood'); continue
        h = st['heartbeat_interval']
        iv = next((x[2][-1] for x in terms(h) if x[0] == 'call' and last(str(x[1])) in ('interval', 'interval_at')), h)
        verdict(cx, 'heartbeat interval', iv, of_config('heartbeat_interval'), other, g.where, 'the heartbeat interval')
        if 'max_missable_heartbeats' in st: verdict(cx, 'missable heartbeats', st['max_missable_heartbeats'], of_config('max_missable_heartbeats'), other, g.where, 'the number of missable heartbeats')
    # the completer's retries
    for k, h in cx.P.fns.items():
        if h.crate != 'opsqueue' or 'tests' in k or 'submission::db' in k or 'chunk::db' in k: continue
        if not any((PR.callee(n) or '').endswith('retry_or_fail_chunk') for n in PR.walk(h.body) if n['k'] in ('call', 'mcall')): continue
        t = cx.P.fn('retry_or_fail_chunk')
        i = next((j for j, x in enumerate(t.params) if 'retries' in str(x.get('name')) or str(x.get('ty')) in ('u32', 'i64', 'u64') and 'max' in str(x.get('name'))), None)
        if i is None: cx.skip('retries', 'no retry limit parameter'); continue
        A = tuple(x for x, y in cx.P.fns.items() if y is not h and y.name not in ('transaction', 'run_tx') and 'db::conn' not in x)
        ps = list(cx.paths(h, atomic=A, tag='retries')) + spawned_paths(cx, h, atomic=A, tag='retries')
        if not any(evs(p, 'retry_or_fail_chunk') for p in ps): cx.skip('retries', 'call not found on a path')
        for p in ps:
            for j, e in evs(p, 'retry_or_fail_chunk'):
                if i < len(e.args): verdict(cx, 'retries', e.args[i], lambda y: is_field(y, 'max_chunk_retries') or param(y) and 'retries' in y[2], other, wh(e), 'the number of retries')
    # the number of submissions returned
    for k, h in cx.P.fns.items():
        if h.crate != 'opsqueue' or 'producer::server' not in k: continue
        if not any((PR.callee(n) or '').endswith('lookup_ids_by_strategic_metadata') for n in PR.walk(h.body) if n['k'] in ('call', 'mcall')): continue
        t = cx.P.fn('submission::db::lookup_ids_by_strategic_metadata')
        i = next((j for j, x in enumerate(t.params) if 'MaxSubmissions' in str(x.get('ty'))), None) if t else None
        if i is None: cx.skip('submissions returned', 'no such parameter'); continue
        for p in cx.paths(h, atomic=cx.P.atoms('submission::db::lookup_ids_by_strategic_metadata')):
            for j, e in evs(p, 'lookup_ids_by_strategic_metadata'):
                if i < len(e.args): verdict(cx, 'submissions returned', e.args[i], lambda y: is_field(y, 'max_submissions') or is_field(y, 'max_submissions_returned'), other, wh(e), 'the number of submissions returned')
    # the pools
    o = cx.fn('db::open_and_setup')
    if o:
        rd = next((x.get('name') for x in o.params if '32' in str(x.get('ty')) or 'NonZero' in str(x.get('ty'))), None)
        for p in cx.paths(o):
            for i, e in evs(p, 'max_connections'):
                t = peel(e.args[-1])
                if lit(t) == 1: continue
                verdict(cx, 'read pool size', e.args[-1], lambda y: param(y, rd), lambda y: False, wh(e), 'the size of the read pool')
            if p.out == 'val' and not any(param(peel(e.args[-1]), rd) for i, e in evs(p, 'max_connections')):
                cx.ob('read pool size used', any(any(param(y, rd) for y in terms(a)) for e in p.ev if e.k == 'call' for a in e.args), o.where, 'the size of the read pool is not used')
    # the age of submissions
    c = cx.fn('periodically_cleanup_old')
    if c:
        ag = next((x.get('name') for x in c.params if 'Duration' in str(x.get('ty'))), None)
        us = [a for p in cx.paths(c, atomic=cx.P.atoms('submission::db::cleanup_old')) for i, e in evs(p, 'cleanup_old') for a in e.args]
        if us: cx.ob('submission age', any(param(y, ag) for a in us for y in terms(a)), c.where, 'the configured age is not what decides about removal')
        else: cx.skip('submission age', 'no call of cleanup_old')


@rule('bound-port', 'the port reported to the parent process is the one the served listener is bound to, written once as two big-endian bytes; the pipe is closed when the server cannot start', 'C35', floor=4)
def r_port(cx):
    f = cx.fn('server::serve_producer_and_consumer')
    if f:
        wrote = 0
        for p in cx.paths(f, atomic=cx.P.atoms('server::build_router', 'BoundPortPipe::write_port', 'ReportBoundPortPipe::take')):
            ws = evs(p, 'write_port'); tk = evs(p, 'take'); sv = evs(p, 'serve', sub='axum')
            for i, e in ws:
                wrote += 1
                pt = e.args[-1]
                la = calls(pt, 'local_addr') or any(y[0] == 'call' and last(str(y[1])) == 'local_addr' for y in terms(pt))
                if not la and (is_field(peel(pt), 'port') or not [y for y in terms(pt) if y[0] in ('call', 'pl')]): cx.ob('actual port', False, wh(e), f'the reported port is {show(pt)[:60]}, not the one bound')
                elif la: cx.ob('actual port', True)
                else: cx.skip('actual port', show(pt)[:60])
                cx.ob('own pipe', any(y[0] == 'call' and last(str(y[1])) == 'take' for y in terms(e.args[0])), wh(e), 'the pipe is not taken out of the configuration, so it is not closed after the report')
                cx.ob('before serving', not sv or i < sv[0][0], wh(e), 'the port is only reported after the server has ended')
            if p.out == 'val' and p.result() == 'Err' and not ws:
                # the failure must close the pipe: taken and not kept
                cx.ob('closed on failure', bool(tk), f.where, 'the pipe stays open when the server cannot start, so the parent process waits for ever')
        if not wrote: cx.ob('port is reported', False, f.where, 'the bound port is never reported') if cx.P.fn('BoundPortPipe::write_port') else cx.skip('port', 'no pipe')
    g = cx.fn('BoundPortPipe::write_port')
    if g:
        pn = next((x.get('name') for x in g.params if str(x.get('ty')) == 'u16'), 'port')
        for p in cx.paths(g):
            if p.out != 'val': continue
            w = evs(p, 'write_all', 'write')
            if p.result() != 'Err':
                cx.ob('written', len(w) == 1, g.where, 'the port is not written exactly once')
                for i, e in w:
                    a = e.args[-1]
                    if calls(a, 'to_be_bytes') or any(y[0] == 'call' and last(str(y[1])) == 'to_be_bytes' for y in terms(a)):
                        cx.ob('big-endian port', any(param(y, pn) for y in terms(a)), wh(e), 'something else than the port is written')
                    elif any(y[0] == 'call' and last(str(y[1])) in ('to_le_bytes', 'to_ne_bytes') for y in terms(a)): cx.ob('big-endian port', False, wh(e), 'the port is not written in big-endian order')
                    else: cx.skip('bytes', show(a)[:60])
                    if last(e.path) == 'write': cx.ob('all of it', False, wh(e), 'part of the port may be left unwritten')
    h = cx.fn('parse_report_bound_port_fd')
    if h:
        vn = h.params[0].get('name') if h.params else None
        for p in cx.paths(h):
            if p.out == 'panic': cx.ob('no panic', False, h.where, 'a malformed descriptor makes the server panic'); continue
            if p.out != 'val': continue
            raw = evs(p, 'from_raw_fd')
            if raw: cx.ob('own descriptor', any(param(y, vn) for y in terms(raw[0][1].args[-1])), wh(raw[0][1]), 'another descriptor than the given one is used')
            if p.result() == 'Err': cx.ob('no use on error', not raw, h.where, '')


def with_number(c, is_x, n):
    """Truth of a condition when the number is n; None when it is about something else."""
    if isinstance(c, tuple) and c and c[0] == 'not':
        v = with_number(c[1], is_x, n)
        return None if v is None else not v
    if not (isinstance(c, tuple) and c and c[0] == 'bin' and c[1] in ('<', '<=', '>', '>=', '==', '!=')): return None
    a, b = (n if is_x(x) else x[1] if x[0] == 'lit' and isinstance(x[1], int) else None for x in c[2:4])
    if a is None or b is None or not (is_x(c[2]) or is_x(c[3])): return None
    return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b, '==': a == b, '!=': a != b}[c[1]]


@rule('bad-values-refused', 'a text that is not a number is refused as the value of a numeric setting or limit; exactly the descriptor -1 means that the port is not reported', 'C35', 'C38', floor=2)
def r_refused(cx):
    for k, f in cx.P.fns.items():
        if not f.crate.startswith('opsqueue') or 'tests' in k or f.crate.startswith('opsqueue_python'): continue
        if not (f.name == 'from_str' or f.name.startswith('parse_')) or 'trace' in k or not f.params: continue
        vn = f.params[0].get('name')
        for p in cx.paths(f):
            if p.out != 'val': continue
            pr = [e for i, e in evs(p, 'parse', 'from_str') if e.args and any(param(y, vn) for y in terms(e.args[-1]))]
            for e in pr:
                if p.result() == 'Ok':
                    bad = p.st.vari.get(e.res) == 'Err' or any(y[0] == 'call' and last(str(y[1])) in ('unwrap_or', 'unwrap_or_default', 'unwrap_or_else', 'ok') and e.res in y[2] for y in terms(p.val))
                    cx.ob(f'{f.name}: not a number', not bad, f.where, 'a value that cannot be understood is replaced by another one instead of being refused')
                elif p.result() == 'Err': cx.ob(f'{f.name}: not a number', True, f.where)
                if f.name != 'parse_report_bound_port_fd' or p.result() != 'Ok' or evs(p, 'from_raw_fd'): continue
                isx = lambda t: t == e.res or pl_of(t, e.res)
                for n in (0, 1, 3):
                    vs = [(with_number(c, isx, n), v) for c, v in p.st.path if isinstance(c, tuple) and c[0] != 'is']
                    if vs and all(x is not None for x, v in vs): cx.ob('given descriptor used', any(x != v for x, v in vs), f.where, f'the port is not reported to descriptor {n}')


def pl_of(t, res):
    while isinstance(t, tuple) and t and t[0] == 'pl': t = t[1]
    return t == res


@rule('settings-have-effect', 'every setting is read somewhere outside of the configuration itself', 'C35', floor=8)
def r_effect(cx):
    used = set()
    for k, f in cx.P.fns.items():
        if f.crate not in ('opsqueue', 'opsqueue@bin') or 'config::Config as' in k or 'tests' in k: continue
        for n in PR.walk(f.body):
            if n['k'] == 'field' and 'config::Config' in str((n.get('e') or {}).get('ty', '')): used.add(n.get('name') or n.get('f'))
            if n['k'] in ('struct', 'pstruct') and n.get('fields') and 'config::Config' in str(n.get('path') or n.get('res') or n.get('ty') or ''):
                used |= {(x.get('name') if isinstance(x, dict) else x[0]) for x in n['fields']}
    for n in settings(cx):
        cx.ob(n, n in used, 'opsqueue/src/config.rs', f'the setting {n} has no effect')
