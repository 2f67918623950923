"""Health reporting and shutdown (C34)."""
from ..core import rule, short, wh, TECH, NOTES
from ..interp import show, terms, last, calls
from .. import interp as IN, prog as PR
from .util import *
from .app import main_paths, spawned
from .native import millis
from .http import routes_of
from .dispatch import reaches

TECH['C34'] = 'path-sensitive dataflow of the health flag and the shutdown token: value identity of flag and token from main through every part of the server; case table of the health endpoint; loop-exit analysis of every task that is given the token'
NOTES['C34'] = "What axum's graceful shutdown and the websocket close do inside those libraries is taken from them, and so is what the operating system reports as an interrupt. The health answer may lag behind the database by one check interval; the rules bound that interval."

TOKEN, FLAG = 'CancellationToken', 'Atomic<bool>'
CANCELLED = ('cancelled', 'cancelled_owned', 'is_cancelled', 'run_until_cancelled', 'run_until_cancelled_owned')


def flag_calls(p, *names):
    return [(i, e) for i, e in enumerate(p.ev) if e.k == 'call' and last(e.path) in names and 'Atomic' in e.path and e.args]


def root(t, name):
    return any(param(x, name) or is_field(x, name) for x in terms(t))


def typed(f, what):
    """(index, name) of the parameters whose type mentions `what`."""
    return [(i, x.get('name')) for i, x in enumerate(f.params) if what in str(x.get('ty'))]


def cancelled_fut(t):
    return calls(t, 'cancelled', 'cancelled_owned')


def consults(p, lo, hi):
    """Does this stretch of a path ask whether shutdown was requested?"""
    for e in p.ev[lo:hi]:
        if e.k == 'call' and last(e.path) in CANCELLED: return True
        if e.k == 'select' and any(isinstance(x, tuple) and cancelled_fut(x) for x in e.futs): return True
        if e.k in ('branch', 'await') and any(isinstance(e.a.get(n), tuple) and calls(e.a[n], *CANCELLED) for n in ('fut', 'val')): return True
    return any(calls(c, *CANCELLED) for c, v in p.st.path if isinstance(c, tuple))


def taken(p, lo, hi):
    """Did shutdown win within this stretch?"""
    return any(e.k == 'branch' and isinstance(e.fut, tuple) and e.fut[0] == 'call' and last(str(e.fut[1])) in ('cancelled', 'cancelled_owned') for e in p.ev[lo:hi])


def loops_of(p):
    """(start, end, closed) for each outermost loop of a path; closed when it is entered again at `end`."""
    out, open_ = [], {}
    for i, e in enumerate(p.ev):
        if e.k == 'loop': open_[e.id] = i
        elif e.k in ('backedge', 'endloop') and e.id in open_:
            lo = open_.pop(e.id)
            if not open_: out.append((lo, i, e.k == 'backedge'))
    return out


def plain(cx):
    """Functions that have nothing to do with the shutdown token: left as single calls."""
    if 'plain' not in cx.w.memo:
        direct = {k for k, f in cx.P.fns.items() if typed(f, TOKEN) or any(n.get('m') in CANCELLED or n.get('name') in CANCELLED for n in PR.walk(f.body) if n.get('k') in ('mcall', 'call', 'path'))}
        more = True
        while more:
            more = {k for k, f in cx.P.fns.items() if k not in direct and any((PR.callee(n) or '') in direct for n in PR.walk(f.body) if n.get('k') in ('mcall', 'call'))}
            direct |= more
        cx.w.memo['plain'] = tuple(k for k in cx.P.fns if k not in direct)
    return cx.w.memo['plain']


# ---- the health answer -------------------------------------------------------------------------

@rule('health-answer', 'the health endpoint answers success exactly when the flag is set', 'C34', floor=2)
def r_ping(cx):
    f = cx.fn('server::serve_producer_and_consumer')
    b = cx.fn('server::build_router')
    if not b: return
    done = False
    for p in cx.paths(b):
        if p.out != 'val': continue
        rs = routes_of(p.val)
        if rs is None: cx.skip('routes', 'router not understood'); continue
        for path, m, h in rs:
            if path.rstrip('/') != '/ping': continue
            done = True
            qs = cx.w.value_paths(h, p.I, p.st)
            if not qs: cx.skip('handler', show(h)[:60]); continue
            for q in qs:
                if q.out == 'panic': cx.ob('does not panic', False, b.where, 'asking for the health panics'); continue
                if q.out != 'val': continue
                st = status(q.val)
                ld = [e for i, e in flag_calls(q, 'load') if i >= 0]
                if st is None: cx.skip('status', show(q.val)[:60]); continue
                if not ld:
                    if st in GOOD: cx.ob('looks at the flag', False, b.where, f'the health endpoint answers {st} without looking at the flag')
                    continue
                tr = truth(q, ld[-1].res)
                if tr is None: cx.skip('condition', 'the answer does not branch on the flag'); continue
                cx.ob(f'flag {tr}', (st in GOOD) == tr, wh(ld[-1]), f'the health endpoint answers {st} while the flag is {str(tr).lower()}')
    if not done: cx.skip('route', 'no /ping route found')


GOOD = ('OK', 'NO_CONTENT', 'ACCEPTED', 'CREATED')


def status(t):
    if t[0] == 'tuple' and t[1]: t = t[1][0]
    if t[0] == 'v' and last(t[1]) in ('Ok', 'Err') and t[2]: return status(t[2][0])
    if t[0] == 'const': return last(str(t[1]))
    if t[0] == 'lit' and isinstance(t[1], str): return 'OK'
    return None


@rule('health-written', 'the flag starts unset, and is only ever set to the outcome of the check just made, or cleared; it is cleared when the watchdog ends', 'C34', floor=5)
def r_flag(cx):
    f = cx.fn('server::app_watchdog')
    if f:
        for p in cx.paths(f, atomic=cx.P.atoms('DBPools::check_health')):
            if p.out == 'panic': cx.ob('does not panic', False, f.where, 'the watchdog may panic, leaving the last health answer standing'); continue
            checks = [(i, e) for i, e in enumerate(p.ev) if e.k == 'await' and isinstance(e.a.get('val'), tuple) and e.val[0] == 'call' and last(str(e.val[1])) == 'check_health']
            stores = flag_calls(p, 'store', 'swap')
            odd = flag_calls(p, 'fetch_or', 'fetch_and', 'fetch_xor', 'fetch_not', 'compare_exchange', 'fetch_update', 'fetch_nand')
            if odd: cx.skip('writes', 'flag changed by ' + last(odd[0][1].path)); continue
            for i, e in stores:
                v = e.args[1]
                before = [c for j, c in checks if j < i]
                if v == ('lit', False): cx.ob('cleared', True); continue
                if v == ('lit', True):
                    known = [c for c in before if truth(p, c.val) is True]
                    cx.ob('set', bool(known) and known[-1] is before[-1], wh(e), 'the server is declared healthy although the last check did not say so')
                    continue
                if before and v == before[-1].val: cx.ob('set to the check', True); continue
                if before and v[0] in ('not', 'un') and v[-1] == before[-1].val: cx.ob('set to the check', False, wh(e), 'the flag is set to the opposite of the check'); continue
                if any(v == c.val for c in before): cx.ob('set to the check', False, wh(e), 'the flag is set to the outcome of an earlier check'); continue
                if calls(v, 'check_health') and v[0] == 'bin' and v[1] in ('||', '|'): cx.ob('set to the check', False, wh(e), 'the flag can be set although the check failed'); continue
                if calls(v, 'check_health') and v[0] == 'bin' and v[1] in ('&&', '&'): cx.ob('set to the check', True); continue
                if not calls(v, 'check_health') and not any(x[0] in ('phi', 'unk') for x in terms(v)): cx.ob('set to the check', False, wh(e), f'the flag is set to {show(v)[:60]}, not to the outcome of the check'); continue
                cx.skip('written value', show(v)[:60])
            for lo, hi, closed in loops_of(p):
                ch = [j for j, c in checks if lo < j < hi]
                if closed:
                    cx.ob('checks each round', bool(ch), f.where, 'a round of the watchdog does not check the health')
                    if ch:
                        # every outcome of the check reaches the flag
                        ok = any(i > ch[-1] and i < hi for i, e in stores)
                        cx.ob('each check is written', ok, f.where, 'the outcome of a check does not reach the flag')
                    sl = [e.fut for e in p.ev[lo:hi] if e.k == 'branch' and isinstance(e.fut, tuple) and calls(e.fut, 'sleep', 'tick', 'sleep_until', 'timeout')] + [e.val for e in p.ev[lo:hi] if e.k == 'await' and isinstance(e.a.get('val'), tuple) and calls(e.val, 'sleep', 'tick', 'timeout')]
                    for s in sl:
                        ms = [m for m in (millis(x) for x in terms(s) if x[0] == 'call' and last(str(x[1])).startswith('from_')) if m is not None]
                        if ms: cx.ob('recent', max(ms) <= 60000, f.where, f'the health is only checked every {max(ms) / 1000:g} s'); break
                    asks = any(e.k == 'call' and last(e.path) == 'is_cancelled' for e in p.ev[lo:hi])
                    cx.ob('leaves at shutdown', asks or not taken(p, lo, hi), f.where, 'the watchdog goes on after shutdown was requested, and so reports the server as healthy')
            if p.out == 'val':
                cx.ob('cleared at the end', bool(stores) and stores[-1][1].args[1] == ('lit', False), f.where, 'the watchdog ends without clearing the flag, so a server that is shutting down still reports itself healthy')
    g, ps = main_paths(cx)
    for p in ps or []:
        if not any(e.k == 'call' and last(e.path) == 'app_watchdog' for e in p.ev): continue
        for i, e in enumerate(p.ev):
            if e.k == 'call' and last(e.path) == 'new' and 'Atomic' in e.path and e.args and e.args[0][0] == 'lit':
                cx.ob('starts unset', e.args[0] == ('lit', False), wh(e), 'the server reports itself healthy before any check')
        for i, e in flag_calls(p, 'store', 'swap', 'fetch_or'):
            cx.ob('not set elsewhere', e.args[1] == ('lit', False), wh(e), 'the flag is set outside of the watchdog')
    for k, h in cx.P.fns.items():
        if h.crate != 'opsqueue' or last(h.path) == 'app_watchdog': continue
        if not typed(h, FLAG): continue
        if f and reaches(cx, f.body, (last(h.path),), 3): continue
        for p in cx.paths(h):
            for i, e in flag_calls(p, 'store', 'swap', 'fetch_or'):
                if e.args[1][0] != 'lit': cx.skip('other writer', short(k)); continue
                cx.ob('not set elsewhere', e.args[1] == ('lit', False), wh(e), 'the flag is set outside of the watchdog')


@rule('health-check', 'a check only succeeds after the writer connection was obtained and a whole transaction with a query on it succeeded', 'C34', floor=3)
def r_check(cx):
    f = cx.fn('DBPools::check_health')
    if not f: return
    good = 0
    for p in cx.paths(f):
        if p.out == 'panic': cx.ob('does not panic', False, f.where, 'a failing database makes the check panic instead of fail'); continue
        if p.out != 'val': continue
        acq = [e for e in p.ev if e.k == 'call' and last(e.path) in ('acquire', 'begin', 'begin_with', 'try_acquire')]
        sq = [e for e in p.ev if e.k == 'sql']
        if p.val == ('lit', True):
            good += 1
            if sq: cx.ob('uses the database', True)
            else:
                cx.ob('uses the database', bool([e for e in p.ev if e.k == 'call' and last(e.path) in ('ping', 'execute', 'fetch_one', 'fetch_all', 'fetch_optional')]), f.where, 'the check succeeds without having run anything on the database')
            if acq: cx.ob('the writer', any(is_field(x, 'write_pool') for e in acq for x in terms(e.args[0])), wh(acq[0]), 'the check does not use the writer connection')
            bad = [(c, v) for c, v in p.st.path if isinstance(c, tuple) and (c[0] == 'txfail' and v or c[0] == 'is' and c[2] == 'Ok' and not v or c[0] == 'is' and c[2] == 'Err' and v)]
            cx.ob('nothing failed', not bad, f.where, f'the check succeeds although {show(bad[0][0])[:60] if bad else ""} failed')
        elif p.val == ('lit', False):
            bad = [(c, v) for c, v in p.st.path if isinstance(c, tuple) and (c[0] == 'txfail' and v or c[0] == 'is' and c[2] in ('Ok', 'Some') and not v or c[0] == 'is' and c[2] in ('Err', 'None') and v)]
            cx.ob('fails only on a failure', bool(bad), f.where, 'the check fails although everything worked')
        else: cx.skip('outcome', show(p.val)[:60])
    if not good: cx.skip('outcome', 'no successful path')


# ---- shutdown ----------------------------------------------------------------------------------

@rule('one-token', 'main hands one token and one health flag to every part, requests shutdown on that token whatever ended the wait, and gives the parts time before ending them', 'C34', floor=8)
def r_main(cx):
    f, ps = main_paths(cx)
    if not ps: cx.skip('main', 'main not found'); return
    for p in ps:
        if p.out == 'panic' or not any(e.k == 'call' and last(e.path) == 'serve_producer_and_consumer' for e in p.ev): continue
        toks, flags = {}, {}
        for e in p.ev:
            if e.k != 'call' or not e.a.get('local'): continue
            g = cx.P.fns.get(str(e.path)) or cx.P.fn(str(e.path))
            if g is None: continue
            for i, n in typed(g, TOKEN):
                if i < len(e.args): toks[last(e.path)] = (e.args[i], e)
            for i, n in typed(g, FLAG):
                if i < len(e.args): flags[last(e.path)] = (e.args[i], e)
        cancels = [(i, e) for i, e in enumerate(p.ev) if e.k == 'call' and last(e.path) == 'cancel' and TOKEN in e.path]
        ends = [(i, e) for i, e in enumerate(p.ev) if e.k == 'call' and last(e.path) == 'terminate']
        sel = [i for i, e in enumerate(p.ev) if e.k == 'select']
        if not toks: cx.skip('token', 'no part takes a token'); continue
        base = set(base_token(t) for t, e in toks.values())
        cx.ob('one token', len(base) == 1, f.where, f'the parts of the server are given different shutdown tokens')
        if flags: cx.ob('one flag', len({t for t, e in flags.values()}) == 1, f.where, 'the health endpoint and the watchdog are given different flags')
        if not cancels: cx.ob('shutdown is requested', p.out != 'val', f.where, 'main ends without requesting shutdown'); continue
        i, c = cancels[-1]
        for n, (t, e) in sorted(toks.items()):
            cx.ob(f'reaches {n}', above(c.args[0], t), wh(c), f'shutdown is requested on another token than the one {n} waits for')
        if sel: cx.ob('after the wait', i > sel[0], wh(c), 'shutdown is requested while the server starts')
        for j, e in ends:
            cx.ob('requested before the end', i < j, wh(e), 'the parts are ended without having been asked to shut down')
            wait = [x for x in p.ev[i:j] if x.k == 'await' and isinstance(x.a.get('val'), tuple) and not calls(x.val, 'terminate')]
            cx.ob('time to shut down', bool(wait), wh(e), 'the parts are ended at once after shutdown was requested')
            for x in wait:
                ms = millis(x.val[2][0]) if x.val[0] == 'call' and last(str(x.val[1])) == 'sleep' else None
                if ms is not None: cx.ob('enough time', ms > 100, wh(e), f'the parts get {ms} ms to shut down, less than closing a connection may take')
        if sel:
            futs = [x for i in sel for x in p.ev[i].futs]
            cx.ob('waits for an interrupt', any(calls(x, 'ctrl_c', 'recv', 'signal') for x in futs if isinstance(x, tuple)) or any(e.k == 'call' and last(e.path) in ('ctrl_c', 'signal') for e in p.ev), f.where, 'main does not react to an interrupt')
            cx.ob('waits for the server', any(calls(x, 'serve_producer_and_consumer') for x in futs if isinstance(x, tuple)), f.where, 'main does not notice that the server ended')
        else: cx.skip('wait', 'no select in main')


def above(a, t):
    """Does cancelling `a` cancel `t`?"""
    while True:
        if a == t: return True
        if isinstance(t, tuple) and t and t[0] == 'call' and last(str(t[1])) in ('child_token', 'clone') and len(t[2]) == 1: t = t[2][0]; continue
        if isinstance(a, tuple) and a and a[0] == 'call' and last(str(a[1])) == 'clone' and len(a[2]) == 1: a = a[2][0]; continue
        return False


def base_token(t):
    while isinstance(t, tuple) and t and t[0] == 'call' and last(str(t[1])) in ('child_token', 'clone') and len(t[2]) == 1: t = t[2][0]
    return t


@rule('passed-on', 'the server hands its own token to the listener, to the consumer half and from there to its tasks and connections; the health endpoint reads the flag it was given', 'C34', floor=5)
def r_passed(cx):
    f = cx.fn('server::serve_producer_and_consumer')
    if f:
        tn = [n for i, n in typed(f, TOKEN)]; fn_ = [n for i, n in typed(f, FLAG)]
        ps = cx.paths(f, atomic=cx.P.atoms('server::build_router'))
        served = False
        for p in ps:
            gs = [e for i, e in evs(p, 'with_graceful_shutdown')]
            sv = [e for i, e in evs(p, 'serve', sub='axum')]
            if sv and p.out == 'val':
                served = True
                cx.ob('graceful listener', bool(gs), wh(sv[-1]), 'the listener is not told about a shutdown')
            for e in gs:
                t = e.args[-1]
                own = tn and any(param(x, tn[0]) for x in terms(t))
                if own: cx.ob('own token', True)
                elif any(x[0] == 'call' and TOKEN in str(x[1]) and last(str(x[1])) == 'new' for x in terms(t)): cx.ob('own token', False, wh(e), 'the listener waits for a token nobody cancels')
                elif calls(t, 'pending'): cx.ob('own token', False, wh(e), 'the listener is never told about a shutdown')
                elif t[0] in ('closure', 'async'): cx.ob('own token', True)
                else: cx.skip('listener token', show(t)[:60])
            for i, e in evs(p, 'build_router'):
                g = cx.P.fn('server::build_router')
                for what, names in ((TOKEN, tn), (FLAG, fn_)):
                    for j, n in typed(g, what):
                        if names and j < len(e.args): cx.ob(f'router gets the {what}', any(param(x, names[0]) for x in terms(e.args[j])), wh(e), f'the routes are built with another {"token" if what == TOKEN else "health flag"}')
        if not served: cx.skip('listener', 'no call of axum::serve')
    b = cx.fn('server::build_router')
    if b:
        tn = [n for i, n in typed(b, TOKEN)]; fn_ = [n for i, n in typed(b, FLAG)]
        for p in cx.paths(b, atomic=cx.P.atoms('consumer::server::ServerState::run_background', 'consumer::server::ServerState::build_router', 'producer::server::ServerState::build_router')):
            if p.out != 'val': continue
            st = [x for e in p.ev if e.k == 'call' for a in e.args for x in terms(a) if x[0] == 'struct' and 'cancellation_token' in fields(x)]
            for x in st[:1]: cx.ob('consumer half', any(param(y, tn[0]) for y in terms(fields(x)['cancellation_token'])) if tn else True, b.where, 'the consumer half is given another token')
            if not st: cx.skip('consumer half', 'no state with a token')
        for p in cx.paths(b):
            rs = routes_of(p.val) if p.out == 'val' else None
            for path, m, h in rs or []:
                if path.rstrip('/') == '/ping' and fn_:
                    qs = cx.w.value_paths(h, p.I, p.st)
                    ld = [e for q in qs for i, e in flag_calls(q, 'load')]
                    for e in ld[:1]: cx.ob('own flag', any(param(y, fn_[0]) for y in terms(e.args[0])), wh(e), 'the health endpoint reads another flag than the one the server was given')
    r = cx.fn('consumer::server::ServerState::run_background')
    if r:
        for p in cx.paths(r, atomic=cx.P.atoms('Dispatcher::run_pending_tasks_periodically', 'Completer::run')):
            for e in p.ev:
                if e.k != 'call' or not e.a.get('local'): continue
                g = cx.P.fns.get(str(e.path)) or cx.P.fn(str(e.path))
                for i, n in (typed(g, TOKEN) if g else []):
                    if i < len(e.args): cx.ob(f'token of {last(e.path)}', root(e.args[i], 'cancellation_token'), wh(e), f'{short(str(e.path))} is given another token')
    for name in ('ConsumerConn::new',):
        g = cx.fn(name)
        for p in cx.paths(g) if g else []:
            for x in ([p.val] + [y for y in terms(p.val)] if p.out == 'val' else []):
                if x[0] == 'struct' and 'cancellation_token' in fields(x):
                    t = fields(x)['cancellation_token']
                    cx.ob('token of a connection', is_field(base_token(t), 'cancellation_token') or bool(param(base_token(t))), g.where, 'a connection waits for a token nobody cancels'); break


@rule('loops-end', 'every part that is given the shutdown token watches it in each round of its loop, and ends when shutdown is requested', 'C34', floor=6)
def r_loops(cx):
    for k, f in sorted(cx.P.fns.items()):
        if f.crate != 'opsqueue' or not typed(f, TOKEN) or 'tests' in k: continue
        if last(f.path) in ('serve_producer_and_consumer', 'build_router', 'serve_for_tests'): continue
        A = tuple(x for x in plain(cx) if x != k)
        ps = [(p, f) for p in cx.paths(f, atomic=A, tag='tok')] + [(p, f) for p in spawned_paths(cx, f, atomic=A, tag='tok')]
        judge(cx, ps, short(k))
    g = cx.fn('ConsumerConn::run')
    if g:
        ps = cx.paths(g, atomic=cx.P.atoms('ConsumerState::fetch_and_reserve_chunks', 'ConsumerState::complete_chunk', 'ConsumerState::fail_chunk'))
        judge(cx, [(p, g) for p in ps], 'ConsumerConn::run')
        for p in ps:
            if not taken(p, 0, len(p.ev)): continue
            i = next(i for i, e in enumerate(p.ev) if e.k == 'branch' and cancelled_fut(e.fut))
            closes = [e for e in p.ev[i + 1:] if e.k == 'call' and last(e.path) in ('close', 'send', 'send_all') and any(is_field(x, 'ws_stream') for x in terms(e.args[0]))]
            # (the close may also happen in a helper)
            cx.ob('closes in order', bool(closes), g.where, 'an open connection is dropped at shutdown without being closed')
            i = next(i for i, e in enumerate(p.ev) if e.k == 'branch' and cancelled_fut(e.fut))
            stuck = [e for e in p.ev[i + 1:] if e.k == 'await' and isinstance(e.a.get('val'), tuple) and e.val[0] == 'call' and last(str(e.val[1])) == 'close']
            sel = [e for e in p.ev[i + 1:] if e.k == 'select']
            tmo = [e for e in p.ev[i + 1:] if e.k == 'call' and last(e.path) in ('timeout', 'timeout_at')]
            cx.ob('closing is bounded', not stuck or bool(sel) or bool(tmo), g.where, 'closing an unresponsive connection blocks its shutdown for ever')


def judge(cx, ps, who):
    seen = False
    for p, f in ps:
        for lo, hi, closed in loops_of(p):
            if not closed: continue
            if not any(e.k in ('await', 'branch') for e in p.ev[lo:hi]): continue
            seen = True
            cx.ob(f'{who} watches the token', consults(p, lo, hi), f.where, f'a round of {who} does not look whether shutdown was requested')
            # (a loop that also asks `is_cancelled` in each round ends at that question)
            asks = any(e.k == 'call' and last(e.path) == 'is_cancelled' for e in p.ev[lo:hi])
            cx.ob(f'{who} ends at shutdown', asks or not taken(p, lo, hi), f.where, f'{who} goes on after shutdown was requested')
    return seen


@rule('tracing-guard', 'the guard that flushes traces is kept until the server ends', 'C32', 'C34', floor=0)
def r_guard(cx):
    f, ps = main_paths(cx)
    for p in ps or []:
        for e in p.ev:
            if e.k == 'discard' and isinstance(e.a.get('val'), tuple) and e.val[0] == 'call' and last(str(e.val[1])) in ('setup_tracing', 'drop_guard'):
                cx.ob('kept', False, wh(e), 'the guard is dropped at once, which shuts tracing down while the server runs')
        break
