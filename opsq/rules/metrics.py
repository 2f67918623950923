"""What the metrics count (C36)."""
from collections import Counter
from ..core import rule, short, wh, TECH, NOTES
from ..store import *
from ..interp import show, terms, last, calls
from .. import interp as IN, prog as PR
from .util import *
from .config import peel

TECH['C36'] = 'per-path comparison of the symbolic row-set effects of each storage operation with the metric updates on the same path; typestate of the connection gauge; constant audit of metric names'
NOTES['C36'] = "A path that panics is not judged. What is compared is what the committed statements of the operation do on that path; that a counter update itself cannot fail is taken from the metrics library."


def name_of(cx, n):
    """The published name of a metric given by the constant that holds it."""
    n = str(n).strip()
    if n.startswith('"'): return n.strip('"')
    for k, f in cx.P.consts.items():
        if last(k) == n:
            b = f.body
            while isinstance(b, dict) and b.get('k') in ('block', 'ref', 'addr') and (b.get('e') or b.get('expr')): b = b.get('e') or b.get('expr')
            if isinstance(b, dict) and b.get('k') == 'lit': return str(b.get('v', b.get('val', n))).strip('"')
    return n


def metric_of(cx, n):
    a = (n.get('args') or [None])[0]
    if n.get('name', '').startswith('describe_'):
        for a in n.get('args') or []:
            r = a.get('res') if isinstance(a, dict) else None
            if r and r.get('kind') == 'Const' and 'prometheus' in r.get('path', ''): return name_of(cx, last(r['path']))
        return None
    r = a.get('res') if isinstance(a, dict) else None
    if r and r.get('kind') == 'Const': return name_of(cx, last(r['path']))
    return name_of(cx, IN.metric_name(n['snip'])) if n.get('snip') else None


def updates(cx, p, lo=0, hi=None):
    """(index, event, kind, published name, method, amount) of the metric updates on a path."""
    out = []
    for i, e in enumerate(p.ev[lo:hi]):
        if e.k == 'call' and e.args and isinstance(e.args[0], tuple) and e.args[0][0] == 'metric':
            out.append((lo + i, e, e.args[0][1], name_of(cx, e.args[0][2]), last(e.path), e.args[1] if len(e.args) > 1 else None))
    return out


SUBS, DONE, FAILED, CANCELLED = 'submissions_total_count', 'submissions_completed_count', 'submissions_failed_count', 'submissions_cancelled_count'
CTOT, CDONE, CFAIL, CRETRY, CSKIP = 'chunks_total_count', 'chunks_completed_count', 'chunks_failed_count', 'chunks_retried_count', 'chunks_skipped_count'
TABLE = (SUBS, DONE, FAILED, CANCELLED, CTOT, CDONE, CFAIL, CRETRY, CSKIP)


def skipping(s):
    """The inserted rows are marked as skipped: True/False/None."""
    v = s.eff.set.get('skipped')
    if v is None: return False
    if v[0] == 'arg': return bool(lit(v[1])) if lit(v[1]) is not None else None
    if v[0] == 'lit': return str(v[1]).lower() not in ('0', 'false')
    return None


def nothing(p, s):
    """Known on the path that the statement matched no row."""
    if s.ev is None or not s.eff.src: return False
    r = s.ev.res
    return any(v == 'None' and (t == r or t == ('pl', r, 'Ok', 0)) for t, v in p.st.vari.items())


def expected(cx, p, us, attempted=False):
    """What the committed statements of a path do, by counter: {name: [statement]}; None when not understood.
    attempted: also what was executed without an error and then rolled back."""
    out = {}
    for u in us:
        if not u.committed and not attempted: continue
        for s in (u.live if not attempted else [s for s in u.stms if s.eff.reached and s.status != 'Err']):
            if nothing(p, s): continue
            t, k = s.eff.table, s.eff.kind
            if k == 'ins' and t == SU: out.setdefault(SUBS, []).append(s)
            elif k == 'ins' and t == SC: out.setdefault(DONE, []).append(s)
            elif k == 'ins' and t == SF: out.setdefault(FAILED, []).append(s)
            elif k == 'ins' and t == SX: out.setdefault(CANCELLED, []).append(s)
            elif k == 'ins' and t == CC: out.setdefault(CDONE, []).append(s)
            elif k == 'ins' and t == CF:
                sk = skipping(s)
                if sk is None: return None
                out.setdefault(CSKIP if sk else CFAIL, []).append(s)
        retr = [s for s in (u.get('upd', CH) if not attempted else [s for s in u.stms if s.eff.kind == 'upd' and s.eff.table == CH and s.status != 'Err']) if 'retries' in s.eff.set]
        moved = [s for s in u.get('ins', CF) if skipping(s) is False]
        if retr and not moved: out[CRETRY] = retr
    return out


@rule('counted-exactly', 'on every successful path of a storage operation each counter is raised once per committed event it names, by its amount, and no other is touched', 'C36', floor=12)
def r_exact(cx):
    elsewhere = outside(cx)
    for o in ops(cx):
        who = short(o.fn.path)
        for p, us in o.units:
            if p.out != 'val' or p.result() == 'Err': continue
            want = expected(cx, p, us)
            if want is None: cx.skip(who, 'kind of chunk removal not understood'); continue
            got = [x for x in updates(cx, p) if x[2] == 'counter' and x[3] in TABLE]
            if any(e.k == 'loop' for e in p.ev) and not want: continue
            for n in TABLE:
                mine = [x for x in got if x[3] == n]
                if n == CTOT:
                    k = len(want.get(SUBS, ()))
                else: k = len(want.get(n, ()))
                if k and not mine and n in elsewhere: cx.skip(f'{who}: {n}', 'counted by a caller'); continue
                if not k and not mine: continue
                w = wh(mine[0][1]) if mine else o.fn.where
                if len(mine) != k:
                    cx.ob(f'{who}: {n}', False, w, f'{n} is raised {len(mine)} times although the event it names happens {k} times')
                    continue
                cx.ob(f'{who}: {n}', True, w)
                for i, e, kd, _, m, amt in mine:
                    cx.ob(f'{who}: {n} goes up', m == 'increment', w, f'{n} is set or lowered')
                    if n == CTOT:
                        ok = amt is not None and (any(is_field(x, 'chunks_total') for x in terms(amt)) or any(x[0] == 'call' and last(str(x[1])) in ('len', 'count') for x in terms(amt)))
                        bad = amt is not None and (lit(amt) is not None or is_minus(amt))
                        if ok and not bad: cx.ob(f'{who}: {n} amount', True)
                        elif bad or not [x for x in terms(amt) if x[0] in ('param', 'phi', 'unk', 'elem')]: cx.ob(f'{who}: {n} amount', False, w, f'{n} is raised by {show(amt)[:50]} instead of the number of chunks')
                        else: cx.skip(f'{n} amount', show(amt)[:60])
                    elif n == CSKIP:
                        res = want[n][0].ev.res
                        ok = any(x[0] == 'call' and last(str(x[1])) in ('len', 'count') and any(y == res for y in terms(x)) for x in terms(amt)) and amt[0] != 'bin'
                        if ok: cx.ob(f'{who}: {n} amount', True)
                        elif lit(amt) is not None or is_minus(amt) and any(lit(x) not in (None, 0) for x in amt[2:4]): cx.ob(f'{who}: {n} amount', False, w, f'{n} is raised by {show(amt)} instead of the number of chunks skipped')
                        elif any(x[0] == 'call' and last(str(x[1])) == 'rows_affected' for x in terms(amt)) and multi(want[n][0]): cx.ob(f'{who}: {n} amount', False, w, f'{n} is raised by the rows affected by all statements together')
                        else: cx.skip(f'{n} amount', show(amt)[:60])
                    else:
                        v = lit(amt)
                        if v is None: cx.skip(f'{n} amount', show(amt)[:60])
                        else: cx.ob(f'{who}: {n} amount', v == 1, w, f'{n} is raised by {v} for one event')


def is_minus(t):
    return isinstance(t, tuple) and t and t[0] == 'bin' and t[1] in ('+', '-', '*', '/')


def multi(s):
    return isinstance(s.ev.sql, str) and s.ev.sql.strip().rstrip(';').count(';') > 0


def outside(cx):
    """Counters of the table that are raised outside of the storage layer."""
    if 'metrics-outside' not in cx.w.memo:
        out = set()
        for k, f in cx.P.fns.items():
            if f.crate != 'opsqueue' or is_db(f.path): continue
            for n in PR.walk(f.body):
                if n.get('k') == 'mac' and n.get('name') == 'counter': out.add(metric_of(cx, n))
        cx.w.memo['metrics-outside'] = out
    return cx.w.memo['metrics-outside']


@rule('not-on-failure', 'no counter of an event is raised on a path on which the operation fails and so nothing is stored', 'C36', floor=1)
def r_fail(cx):
    for o in ops(cx):
        for p, us in o.units:
            if p.out != 'val' or p.result() != 'Err': continue
            want = expected(cx, p, us)
            if want is None: continue
            did = expected(cx, p, us, True)
            for d in (want, did or {}):
                if SUBS in d: d[CTOT] = d[SUBS]
            got = {x[3]: x for x in updates(cx, p) if x[2] == 'counter' and x[3] in TABLE}
            if not got: cx.ob(f'{short(o.fn.path)} fails silently', True)
            for n, x in got.items():
                if n in want: continue
                if did is not None and n not in did:
                    cx.ob(f'{n}, nothing done', False, wh(x[1]), f'{n} is raised although the statement that stores the event did not succeed')
                    continue
                cx.ob(f'{n}, not committed', False, wh(x[1]), f'{n} is raised before the transaction is committed: it stays raised when the commit or a later statement fails')


@rule('counted-once', 'the counters of stored events are raised by the storage layer alone', 'C36', floor=0)
def r_once(cx):
    counted = {x[3] for o in ops(cx) for p, us in o.units if p.out == 'val' and p.result() != 'Err' for x in updates(cx, p)}
    for n in sorted(outside(cx) & set(TABLE)):
        cx.ob(n, n not in counted, 'opsqueue/src', f'{n} is raised by the storage layer and again by its caller')


@rule('durations', 'how long a submission took is the time from its identifier to now', 'C36', floor=3)
def r_dur(cx):
    H = {'submissions_complete_duration_seconds': SC, 'submissions_fail_duration_seconds': SF, 'submissions_cancel_duration_seconds': SX}
    for o in ops(cx):
        for p, us in o.units:
            if p.out != 'val' or p.result() == 'Err': continue
            ins = [s.eff.table for u in us if u.committed for s in u.live if s.eff.kind == 'ins']
            for i, e, kd, n, m, amt in updates(cx, p):
                if n not in H: continue
                cx.ob(f'{n}: its own event', H[n] in ins, wh(e), f'{n} is recorded for another event')
                subs = [x for x in terms(amt) if x[0] == 'bin' and x[1] == '-']
                for x in subs:
                    a, b = x[2], x[3]
                    if any(y[0] == 'call' and last(str(y[1])) == 'now' for y in terms(a)): cx.ob(f'{n}: positive', True)
                    elif any(y[0] == 'call' and last(str(y[1])) == 'now' for y in terms(b)): cx.ob(f'{n}: positive', False, wh(e), f'{n} records negative durations')


@rule('connected-consumers', 'the number of connected consumers goes up once before a connection is served and down once after it, however serving it ended', 'C36', floor=2)
def r_conn(cx):
    G = 'consumers_connected_count'
    f = cx.fn('ws_accept_handler')
    if not f: return
    seen = False
    for p in cx.paths(f, atomic=cx.P.atoms('ConsumerConn::new', 'ConsumerConn::run')):
        hs = [a for i, e in evs(p, 'on_upgrade') for a in e.args[1:]]
        for h in hs:
            for q in cx.w.value_paths(h, p.I, p.st):
                if q.out == 'panic': continue
                seen = True
                lo = len(p.ev)
                us = [x for x in updates(cx, q, lo) if x[3] == G]
                if q.out == 'loop': continue
                up = [x for x in us if x[4] == 'increment']; down = [x for x in us if x[4] == 'decrement']; st = [x for x in us if x[4] == 'set']
                if not down and any(f2.name == 'drop' and any(n.get('k') == 'mac' and n.get('name') == 'gauge' for n in PR.walk(f2.body)) for f2 in cx.P.fns.values() if f2.body): cx.skip('down', 'lowered by a guard'); continue
                cx.ob('up once', len(up) == 1 and not st, f.where, f'the number of connected consumers is raised {len(up)} times for one connection')
                cx.ob('down once', len(down) == 1, f.where, f'the number of connected consumers is lowered {len(down)} times for one connection')
                for x in up + down:
                    if x[5] is not None and lit(peel(x[5])) is not None: cx.ob('by one', float(lit(peel(x[5]))) == 1, wh(x[1]), f'the number of connected consumers changes by {lit(peel(x[5]))}')
                run = [i for i, e in enumerate(q.ev) if i >= lo and (e.k == 'await' and isinstance(e.a.get('val'), tuple) and calls(e.val, 'run') or e.k == 'call' and last(e.path) == 'run' and 'ConsumerConn' in e.path)]
                if run and up: cx.ob('up before', up[0][0] < run[0], wh(up[0][1]), 'the connection is only counted after it was served')
                if run and down: cx.ob('down after', down[0][0] > run[-1], wh(down[0][1]), 'the connection is no longer counted while it is served')
    if not seen: cx.skip('connection', 'no upgraded connection found')


@rule('gauges', 'each backlog gauge is set to the stored number it names, again and again; the reservation gauge to the number of entries, and each reservation attempt is counted by its outcome', 'C36', floor=4)
def r_gauge(cx):
    f = cx.fn('calculate_scaling_metrics')
    if f:
        want = {'chunks_in_backlog_count': ('count_chunks',), 'operations_in_backlog_count': ('count_ops_in_backlog_estimate',)}
        for p in cx.paths(f, atomic=cx.P.atoms('chunk::db::count_chunks', 'chunk::db::count_ops_in_backlog_estimate')):
            if p.out != 'val' or p.result() != 'Ok': continue
            us = [x for x in updates(cx, p) if x[2] == 'gauge']
            for n, srcs in want.items():
                mine = [x for x in us if x[3] == n]
                cx.ob(f'{n}: refreshed', len(mine) == 1, f.where, f'{n} is not refreshed')
                for i, e, kd, _, m, v in mine:
                    cx.ob(f'{n}: set', m == 'set', wh(e), f'{n} is not set but changed')
                    names = {last(str(y[1])) for y in terms(v) if y[0] == 'call'} & {a for b in want.values() for a in b}
                    if names: cx.ob(f'{n}: value', names == set(srcs) and not is_minus(peel(v)), wh(e), f'{n} shows {show(v)[:60]}')
                    elif not [y for y in terms(v) if y[0] in ('pl', 'call', 'unk', 'phi')]: cx.ob(f'{n}: value', False, wh(e), f'{n} shows {show(v)[:60]}')
                    else: cx.skip(n, show(v)[:60])
    g = cx.fn('periodically_calculate_scaling_metrics')
    if g:
        ps = cx.paths(g, atomic=cx.P.atoms('calculate_scaling_metrics'))
        loops = [p for p in ps if p.out == 'loop']
        for p in loops: cx.ob('backlog: each round', bool(evs(p, 'calculate_scaling_metrics')), g.where, 'a round does not refresh the backlog')
        cx.ob('backlog: keeps going', bool(loops), g.where, 'the backlog is not refreshed again')
        for p in ps:
            if p.out == 'val' and not any(e.k == 'branch' and calls(e.fut, 'cancelled') for e in p.ev) and not any(calls(c, 'is_cancelled', 'run_until_cancelled', 'run_until_cancelled_owned') for c, v in p.st.path):
                cx.ob('backlog: never gives up', False, g.where, 'the refreshing of the backlog ends although the server runs on')
    h = cx.fn('Reserver::run_pending_tasks')
    if h:
        for p in cx.paths(h, atomic=cx.P.atoms('Reserver::purge_pending_removals')):
            us = [x for x in updates(cx, p) if x[3] == 'reserver_chunks_reserved_count']
            if p.out != 'val': continue
            cx.ob('reservations: refreshed', len(us) == 1, h.where, 'the number of reservations is not refreshed')
            for i, e, kd, n, m, v in us:
                if any(y[0] == 'call' and last(str(y[1])) in ('entry_count', 'weighted_size', 'len') for y in terms(v)): cx.ob('reservations: value', m == 'set' and not is_minus(peel(v)), wh(e), 'the number of reservations is not set to the number of entries')
                elif lit(peel(v)) is not None: cx.ob('reservations: value', False, wh(e), f'the number of reservations is set to {show(v)}')
                else: cx.skip('reservations', show(v)[:60])
                rt = [j for j, x in enumerate(p.ev) if x.k == 'call' and last(x.path) == 'run_pending_tasks' and 'moka' in x.path]
                if rt: cx.ob('reservations: after expiry', i > rt[0], wh(e), 'the number of reservations includes expired ones')
    t = cx.fn('Reserver::try_reserve')
    if t:
        for p in cx.paths(t):
            if p.out != 'val': continue
            us = [x[3] for x in updates(cx, p) if x[3].startswith('reserver_reservations_')]
            r = p.result()
            if r not in ('Some', 'None'): cx.skip('attempt', show(p.val)[:60]); continue
            w = 'reserver_reservations_succeeded_count' if r == 'Some' else 'reserver_reservations_failed_count'
            cx.ob(f'attempt: {r}', us == [w], t.where, f'a reservation attempt that {"succeeds" if r == "Some" else "fails"} is counted as {us}')


@rule('names', 'every metric has a name of its own, and is used as the kind it is described as', 'C36', floor=10)
def r_names(cx):
    names = {}
    for k, f in cx.P.consts.items():
        if f.crate == 'opsqueue' and 'prometheus::' in k and last(k).endswith(('COUNTER', 'GAUGE', 'HISTOGRAM', 'DURATION')):
            names.setdefault(name_of(cx, last(k)), []).append(last(k))
    for n, ks in names.items(): cx.ob(n, len(ks) == 1, 'opsqueue/src/prometheus.rs', f'{ks} are published under the same name {n}')
    kinds = {}
    for k, f in cx.P.fns.items():
        if f.crate != 'opsqueue' or f.body is None: continue
        for n in PR.walk(f.body):
            if n.get('k') == 'mac' and n.get('name') in ('counter', 'gauge', 'histogram', 'describe_counter', 'describe_gauge', 'describe_histogram'):
                if metric_of(cx, n): kinds.setdefault(metric_of(cx, n), {}).setdefault(n['name'].replace('describe_', ''), []).append(f.where)
    for n, ks in kinds.items(): cx.ob(f'{n}: kind', len(ks) == 1, next(iter(ks.values()))[0], f'{n} is used as {sorted(ks)}')
