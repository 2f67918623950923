"""The consumer connection, both ends (C20 to C24)."""
from ..core import rule, short, wh, TECH
from ..interp import show, terms, last, calls
from .. import interp as IN, prog as PR, facts as F
from .util import *

TECH['C20'] = 'path-sensitive request/response dataflow over the connection loop; identity of nonce, request parameters and answer by value numbering'
TECH['C21'] = 'dataflow of reported outcomes from the message through the queue to the one database call; no dropping send'
TECH['C22'] = 'typestate of the client connection (healthy, in-flight map) on every exit path; reply matching by value identity'
TECH['C23'] = 'loop-carried counter analysis: increment, reset and threshold of missed heartbeats on every path of both loops'
TECH['C24'] = 'codec agreement: all conversions use the same encoder/decoder on the whole message; serde attribute audit of the message type closure'

STATE = ('ConsumerState::fetch_and_reserve_chunks', 'ConsumerState::complete_chunk', 'ConsumerState::fail_chunk')


def vname(t):
    return last(t[1]) if isinstance(t, tuple) and t and t[0] in ('v', 'struct') else None


def arg(t, i=0):
    return t[2][i] if isinstance(t, tuple) and t and t[0] == 'v' and len(t[2]) > i else None


def unwrapped(t):
    """The message below byte/text conversions."""
    while isinstance(t, tuple) and t and t[0] == 'call' and last(t[1]) in ('into', 'from', 'try_into') and len(t[2]) == 1: t = t[2][0]
    return t


def server_paths(cx):
    f = cx.fn('ConsumerConn::run')
    if not f: return None, []
    return f, cx.paths(f, atomic=cx.P.atoms(*STATE))


def ws_sends(p, what='ws_stream'):
    """(index, event, message) of messages put on the websocket."""
    out = []
    for i, e in enumerate(p.ev):
        if e.k == 'call' and last(e.path) in ('send', 'feed', 'start_send') and len(e.args) > 1 and any(is_field(t, what) or param(t, what) for t in terms(e.args[0])):
            out.append((i, e, unwrapped(e.args[1])))
    return out


def chosen(p):
    """The future of the main select that completed on this path: (index of event, future)."""
    for i, e in enumerate(p.ev):
        if e.k == 'branch' and isinstance(e.fut, tuple): return i, e.fut
    return None, None


def kind(fut):
    """Which input of the connection a future waits for."""
    if not isinstance(fut, tuple) or fut[0] != 'call': return None
    n = last(fut[1])
    if n == 'cancelled': return 'cancel'
    if n == 'tick': return 'tick'
    if n in ('recv', 'next'):
        for t in terms(fut[2][0]):
            if is_field(t, 'ws_stream') or param(t, 'ws_stream'): return 'ws'
        for t in terms(fut[2][0]):
            if t[0] == 'field': return t[2]
    return None


def request_of(fetch):
    """The value both strategy and limit of a look for work come from, or None."""
    if len(fetch.args) < 3: return None
    s, m = fetch.args[1], fetch.args[2]
    def owner(t, n):
        if is_field(t, n): return t[1]
        if isinstance(t, tuple) and t and t[0] == 'pl' and t[3] == n: return t[1]
        return None
    a, b = owner(s, 'strategy'), owner(m, 'max')
    return (a, b)


def nonce_root(t):
    return t[1] if is_field(t, 'nonce') else None


def same_request(owner, root):
    """Does the owner of strategy/max belong to the envelope or retry `root`?"""
    return owner == root or owner == ('field', root, 'contents') or (is_field(owner, 'contents') and owner[1] == root)


@rule('one-own-answer', 'each look for work leads to at most one answer, with the nonce of the very request whose strategy and limit were used, and with what was reserved', 'C20', floor=8)
def r_answer(cx):
    f, ps = server_paths(cx)
    if not f: return
    for p in ps:
        ss = [(i, e, m) for i, e, m in ws_sends(p) if vname(m) == 'Sync']
        fetch = [(i, e) for i, e in evs(p, 'fetch_and_reserve_chunks')]
        _, fut = chosen(p)
        k = kind(fut)
        if not fetch:
            for i, e, m in ss: cx.ob(f'{k}: answer without request', False, wh(e), 'a reply is sent although no work was looked for')
            continue
        if len(fetch) > 1:
            cx.ob(f'{k}: one look for work', False, wh(fetch[1][1]), 'work is reserved twice for one request'); continue
        fi, fe = fetch[0]
        oa, ob_ = request_of(fe)
        if oa is None or ob_ is None:
            # constants or another request's parameters?
            if k == 'ws' and not any(t[0] == 'call' and last(str(t[1])) in ('try_into', 'from_reader', 'try_from') for a in fe.args[1:3] for t in terms(a)):
                cx.ob(f'{k}: request parameters', False, wh(fe), f'work is reserved with {show(fe.args[1])[:60]} / {show(fe.args[2])[:60]}, not with what the request asked for')
            else: cx.skip(f'{k}: request parameters', show(fe.args[2])[:80])
            continue
        cx.ob(f'{k}: request parameters', oa == ob_, wh(fe), 'strategy and limit of different requests are combined')
        rv, res = p.st.vari.get(fe.res), fe.res
        cx.ob(f'{k}: at most one answer', len(ss) <= 1, wh(fe), 'one request is answered more than once')
        retries = retry_tasks(cx, p)
        okp = ('pl', res, 'Ok', '0')
        errp = ('pl', res, 'Err', '0')
        for i, e, m in ss:
            env = fields(arg(m))
            root = nonce_root(env.get('nonce'))
            cx.ob(f'{k}: answer carries the request\'s nonce', root is not None and same_request(oa, root), wh(e), f'the reply carries {show(env.get("nonce"))[:80]} instead of the identification of the request it answers')
            cx.ob(f'{k}: answer after the look', i > fi, wh(e), 'the reply is made before looking for work')
            body = env.get('contents')
            if vname(body) != 'ChunksReserved': continue
            r = arg(body)
            if rv == 'Ok':
                if r == res: pass
                elif vname(r) == 'Ok': cx.ob(f'{k}: the reserved chunks are sent', pl_eq(arg(r), okp), wh(e), 'the reply does not carry the chunks reserved for the request')
                elif vname(r) == 'Err': cx.ob(f'{k}: the reserved chunks are sent', False, wh(e), 'an error is sent although chunks were reserved')
                cx.ob(f'{k}: the reserved chunks are sent', True, wh(e))
                em = empty(p, okp)
                cx.ob(f'{k}: no empty answer', em is not True, wh(e), 'a request for which nothing is available is answered instead of kept')
            elif rv == 'Err':
                ev_ = next((v for t, v in p.st.vari.items() if pl_eq(t, errp)), None)
                if ev_ is None: ev_ = next(('L' if v else 'R' for c, v in p.st.path if isinstance(c, tuple) and c[0] == 'is' and pl_eq(c[1], errp) and c[2] == 'L'), None)
                if vname(r) == 'Err': cx.ob(f'{k}: the error is sent', has(arg(r), errp), wh(e), 'the reply carries another error')
                elif vname(r) == 'Ok' and ev_ == 'R': cx.ob(f'{k}: the error is sent', False, wh(e), 'a request the caller made wrongly is answered as a success')
        if p.out == 'panic': continue
        # kept or answered
        if rv == 'Ok' and not ss:
            em = empty(p, okp)
            if em is False:
                cx.ob(f'{k}: the reserved chunks are sent', False, wh(fe), 'chunks were reserved but the request is not answered')
                continue
            cx.ob(f'{k}: kept when nothing is available', len(retries) >= 1, wh(fe), 'a request for which nothing is available is neither answered nor kept')
            cx.ob(f'{k}: kept once', len(retries) <= 1, wh(fe), 'a request for which nothing is available is kept more than once')
            if em is None and length_tests(p, okp): cx.ob(f'{k}: the reserved chunks are sent', False, wh(fe), f'the request is kept depending on {show(length_tests(p, okp)[0])[:70]}, so chunks that were reserved may not be sent')
            elif em is None and p.out == 'loop': cx.skip(f'{k}: emptiness', 'not decided on a path without an answer')
        elif rv == 'Err' and not ss and p.result() != 'Err':
            cx.ob(f'{k}: an error is answered', False, wh(fe), 'when reserving fails the request is never answered')
        elif rv is None and not ss:
            cx.skip(f'{k}: outcome', 'the outcome of the look for work is not examined')
        if ss: cx.ob(f'{k}: answered and not kept', not retries, wh(fe), 'an answered request is also kept and will be answered again')
        for pre, snd, stt, where in retries:
            cx.ob(f'{k}: kept with its own parameters', retry_same(stt, oa), where, f'the kept request becomes {show(stt)[:120]}')
            cx.ob(f'{k}: kept until new work', pre is not None, where, 'the kept request is not held until new work is submitted')
            if pre is not None: cx.ob(f'{k}: waiting starts before looking', pre < fi, where, 'work submitted between the look for work and the start of the wait is missed')


def pl_eq(a, b):
    if a == b: return True
    return isinstance(a, tuple) and isinstance(b, tuple) and a and a[0] == 'pl' and b[0] == 'pl' and a[1:3] == b[1:3] and str(a[3]) == str(b[3])


def has(t, sub):
    return any(pl_eq(x, sub) for x in terms((t,)))


def empty(p, t):
    """Does the path know whether the reserved list is empty?"""
    for c, v in p.st.path:
        neg = False
        while isinstance(c, tuple) and c and c[0] in ('not',): c, neg = c[1], not neg
        if isinstance(c, tuple) and c and c[0] == 'call' and last(str(c[1])) == 'is_empty' and any(pl_eq(x, t) for x in terms(c)): return v != neg
        if isinstance(c, tuple) and c and c[0] == 'bin' and c[1] in ('==', '<') and any(last(str(x[1])) == 'len' for x in terms(c) if x[0] == 'call') and any(pl_eq(x, t) for x in terms(c)):
            z = lit(c[3]) if lit(c[3]) is not None else lit(c[2])
            if c[1] == '==' and z == 0: return v != neg
            if c[1] == '<' and lit(c[2]) == 0: return not (v != neg)
            if c[1] == '<' and lit(c[3]) == 1: return v != neg
    return None


def length_tests(p, t):
    """comparisons of the length of the list with something that is not a literal"""
    out = []
    for c, v in p.st.path:
        while isinstance(c, tuple) and c and c[0] == 'not': c = c[1]
        if not (isinstance(c, tuple) and c and c[0] == 'bin' and c[1] in ('==', '<', '<=')): continue
        for x, y in ((c[2], c[3]), (c[3], c[2])):
            if isinstance(x, tuple) and x and x[0] == 'call' and last(str(x[1])) == 'len' and any(pl_eq(z, t) for z in terms(x)) and (lit(y) is None or lit(y) > 1): out.append(c)
    return out


def retry_tasks(cx, p):
    """Kept requests: [(index where the wait was created or None, event, RetryReservation term, where)] over spawned tasks."""
    out = []
    for i, e in enumerate(p.ev):
        if e.k != 'spawn' or e.task is None: continue
        for q in cx.w.value_paths(e.task, p.I, p.st):
            tail = q.ev[len(p.ev):] if len(q.ev) >= len(p.ev) else q.ev
            for j, s in enumerate(q.ev):
                if j < len(p.ev): continue
                if s.k == 'call' and last(s.path) == 'send' and len(s.args) > 1 and isinstance(s.args[1], tuple) and s.args[1][0] == 'struct' and 'nonce' in fields(s.args[1]):
                    aw = [x.val for x in q.ev[len(p.ev):j] if x.k == 'await' and isinstance(x.val, tuple)]
                    pre = None
                    for t in aw:
                        for c in calls(t, 'notified', 'notified_owned'):
                            if any(is_field(x, 'notify_on_insert') for x in terms(c)):
                                for n, y in enumerate(q.ev):
                                    if y.k == 'call' and y.res == c: pre = n
                    out.append((pre, s, s.args[1], wh(s)))
    # sent directly, without waiting
    for i, e, in enumerate(p.ev):
        if e.k == 'call' and last(e.path) == 'send' and len(e.args) > 1 and isinstance(e.args[1], tuple) and e.args[1][0] == 'struct' and vname(e.args[1]) == 'RetryReservation':
            out.append((None, e, e.args[1], wh(e)))
    return out


def retry_same(t, owner):
    f = fields(t)
    root = nonce_root(f.get('nonce'))
    if root is None or not same_request(owner, root): return False
    for n in ('max', 'strategy'):
        v = f.get(n)
        if not ((is_field(v, n) and v[1] == owner) or (isinstance(v, tuple) and v and v[0] == 'pl' and v[3] == n and v[1] == owner)): return False
    return True


@rule('init-first', 'the first message sent on a connection is the initialisation with the server\'s own heartbeat settings, before anything is received', 'C20', 'C23', floor=3)
def r_init(cx):
    f, ps = server_paths(cx)
    if not f: return
    for p in ps:
        ss = ws_sends(p)
        if p.out == 'panic': continue
        fst = next((i for i, e in enumerate(p.ev) if e.k in ('branch', 'select')), len(p.ev))
        if not ss:
            cx.ob('initialised', fst == len(p.ev), f.where, 'a connection is used without being initialised'); continue
        i, e, m = ss[0]
        cx.ob('initialised', vname(m) == 'Init', wh(e), 'the first message of a connection is not the initialisation')
        if vname(m) != 'Init': continue
        cx.ob('before anything else', i < fst, wh(e), 'messages are received before the initialisation is sent')
        c = fields(arg(m))
        if not c: cx.skip('settings', show(m)[:80]); continue
        v = c.get('max_missable_heartbeats')
        cx.ob('own limit', is_field(v, 'max_missable_heartbeats'), wh(e), f'the limit sent is {show(v)[:60]}')
        v = c.get('heartbeat_interval')
        cx.ob('own interval', any(is_field(t, 'heartbeat_interval') for t in terms(v)) and not any(t[0] == 'bin' for t in terms(v)), wh(e), f'the interval sent is {show(v)[:60]}')
        for i2, e2, m2 in ss[1:]: cx.ob('initialised once', vname(m2) != 'Init', wh(e2), 'the initialisation is sent again later')


@rule('reports-acted-on', 'each reported outcome is handed on exactly once with its own contents and not answered; an expired reservation is announced to its holder', 'C20', 'C21', 'C16', floor=3)
def r_reports(cx):
    f, ps = server_paths(cx)
    if not f: return
    n = 0
    for p in ps:
        for var, fn, content in (('CompleteChunk', 'complete_chunk', 'output_content'), ('FailChunk', 'fail_chunk', 'failure')):
            src = [t for t, v in p.st.vari.items() if v == var]
            es = evs(p, fn)
            for t in src:
                n += 1
                cx.ob(f'{var} handed on', len(es) == 1, f.where, f'a reported outcome is handed on {len(es)} times')
                cx.ob(f'{var} not answered', not any(vname(m) == 'Sync' for i, e, m in ws_sends(p)), f.where, 'a report is answered as if it were a request')
                for i, e in es:
                    cx.ob(f'{var} contents', list(e.args[1:3]) == [('pl', t, var, 'id'), ('pl', t, var, content)], wh(e), f'{fn} gets {show(e.args[1])[:80]}, {show(e.args[2])[:80]}')
                other = 'fail_chunk' if fn == 'complete_chunk' else 'complete_chunk'
                cx.ob(f'{var} as reported', not evs(p, other), f.where, f'a reported {var} is recorded as its opposite')
            if es and not src and not any(v in ('CompleteChunk', 'FailChunk') for v in p.st.vari.values()):
                cx.ob(f'{var} only when reported', False, wh(es[0][1]), f'{fn} without such a report')
    if not n: cx.skip('reports', 'no path handles a report')
    for p in ps:
        _, fut = chosen(p)
        ss = ws_sends(p)
        for i, e in evs(p, 'try_recv', 'recv_many', 'blocking_recv'):
            if is_field(e.args[0], 'rx') and p.st.vari.get(e.res) not in ('Err', 'None'):
                cx.ob('expiry announced', any(has(m, ('pl', e.res, x, '0')) for j, y, m in ss for x in ('Ok', 'Some')), wh(e), 'an expired reservation is taken from the queue and its holder is not told')
        if kind(fut) != 'rx': continue
        ok = [m for i, e, m in ss if vname(m) == 'Async' and vname(arg(m)) == 'ChunkReservationExpired' and pl_eq(arg(arg(m)), ('pl', fut, 'Some', '0'))]
        if p.st.vari.get(fut) == 'None': continue
        cx.ob('expiry announced', len(ok) == 1, f.where, 'the holder of an expired reservation is not told which chunk it is')


@rule('listens-to-all', 'while it runs, a connection, the completer and the client go on listening to every one of their inputs: none is switched off by a condition', 'C16', 'C20', 'C21', 'C22', 'C23', floor=3)
def r_listens(cx):
    """A `select!` branch with an `if` guard is not listened to while the guard does not hold."""
    cf = cx.fn('Completer::run')
    groups = [server_paths(cx), client_paths(cx), (cf, spawned_paths(cx, cf, atomic=cx.P.atoms('Completer::handle_message'), tag='completer-loop') if cf else [])]
    for f, ps in groups:
        for p in ps:
            e = next((e for e in p.ev if e.k == 'select'), None)
            if e is None: continue
            for i, fut in enumerate(e.futs):
                k = kind(fut)
                if k in ('ws', 'tick', 'cancel', 'rx', 'mailbox'):
                    cx.ob(f'{f.name}: {k}', i not in e.off, wh(e), f'there are conditions under which this input ({show(fut)[:60]}) is not listened to at all')


@rule('new-work-wakes-all', 'every successful insertion wakes every kept request through the one notification object both halves of the server share', 'C20', floor=2)
def r_notify(cx):
    f = cx.fn('producer::server::insert_submission')
    if f:
        n = 0
        for p in cx.paths(f, atomic=cx.P.atoms('common::submission::db::insert_submission_from_chunks', 'db::perform_explicit_wal_checkpoint', 'DBPools::writer_conn', 'DBPools::reader_conn')):
            ins = evs(p, 'insert_submission_from_chunks')
            if p.result() != 'Ok' or not ins: continue
            n += 1
            ws = [(i, e) for i, e in evs(p, 'notify_waiters', 'notify_one', 'notify_last') if any(is_field(t, 'notify_on_insert') for t in terms(e.args[0]))]
            cx.ob('insertion wakes', any(i > ins[-1][0] for i, e in ws), f.where, 'new work is stored but waiting requests are not told')
            cx.ob('insertion wakes all', not ws or any(last(e.path) == 'notify_waiters' for i, e in ws), f.where, 'only one waiting request is told of new work')
        if not n: cx.skip('insert', 'no successful insertion path')
    g = cx.fn('server::build_router')
    if g:
        for p in cx.paths(g, atomic=cx.P.atoms('producer::server::ServerState::new', 'consumer::server::ServerState::new', 'ServerState::run_background', 'ServerState::build_router')):
            a = [e for i, e in evs(p, 'new') if 'producer::server' in e.path and 'ServerState' in e.path]
            b = [e for i, e in evs(p, 'new') if 'consumer::server' in e.path and 'ServerState' in e.path]
            if not a or not b: cx.skip('shared notification', 'states not built here'); continue
            def notes(e, fn):
                o = cx.P.fn(fn)
                return [e.args[i] for i, q in enumerate(o.params) if q.get('name') == 'notify_on_insert'] if o else []
            x, y = notes(a[0], 'producer::server::ServerState::new'), notes(b[0], 'consumer::server::ServerState::new')
            if not x or not y: cx.skip('shared notification', 'parameter not found'); continue
            cx.ob('shared notification', x == y, wh(a[0]), 'producers and consumers do not share the notification of new work')
    h = cx.fn('ConsumerConn::new')
    if h:
        for p in cx.paths(h, atomic=cx.P.atoms('ConsumerState::new')):
            v = fields(p.val).get('notify_on_insert')
            if v is not None: cx.ob('connection uses the shared notification', is_field(v, 'notify_on_insert'), h.where, f'it waits on {show(v)[:60]}')


# ---- C21 ---------------------------------------------------------------------------------------

@rule('queued-faithfully', 'a reported outcome is put in the completer\'s queue, waiting for room, with its own chunk and content and the reservations of its connection', 'C21', 'C15', 'C16', floor=4)
def r_queue(cx):
    for name, var, content in (('complete_chunk', 'Complete', 'output_content'), ('fail_chunk', 'Fail', 'failure')):
        f = cx.fn('ConsumerState::' + name)
        if not f: continue
        ps_ = [q.get('name') for q in f.params]
        for p in cx.paths(f):
            if p.out == 'panic': continue
            sends = [(i, e) for i, e in enumerate(p.ev) if e.k == 'call' and last(e.path) in ('send', 'try_send', 'send_timeout', 'blocking_send') and len(e.args) > 1 and vname(e.args[1]) in ('Complete', 'Fail')]
            sends += [(i, e) for i, e in enumerate(p.ev) if e.k == 'call' and last(e.path) == 'send' and 'Permit' in e.path]
            cx.ob(f'{name}: queued', len(sends) == 1, f.where, f'the reported outcome is queued {len(sends)} times')
            for i, e in sends:
                if len(e.args) < 2: continue
                cx.ob(f'{name}: waits for room', last(e.path) not in ('try_send', 'send_timeout'), wh(e), 'the report is dropped when the queue is full')
                if last(e.path) == 'send': cx.ob(f'{name}: send awaited', any(x.k == 'await' and x.val == e.res for x in p.ev[i:]), wh(e), 'the report is never actually sent')
                cx.ob(f'{name}: kind', vname(e.args[1]) == var, wh(e), f'a {name} report is queued as {vname(e.args[1])}')
                m = fields(e.args[1])
                if m:
                    cx.ob(f'{name}: own chunk', param(m.get('id'), ps_[1]), wh(e), f'queued for chunk {show(m.get("id"))[:60]}')
                    c = m.get(content)
                    cx.ob(f'{name}: own content', param(c, ps_[2]), wh(e), f'queued with {show(c)[:60]}')
                    r = m.get('reservations')
                    if r is not None: cx.ob(f'{name}: own reservations', any(is_field(t, 'reservations') for t in terms(r)), wh(e), f'queued with {show(r)[:60]} instead of the reservations of the connection, so the chunk stays among them')
                cx.ob(f'{name}: to the completer', any(is_field(t, 'completer_tx') for t in terms(e.args[0])), wh(e), 'sent somewhere else')


@rule('outcome-recorded', 'the completer makes one attempt to record exactly the queued outcome; an error is logged and the loop goes on', 'C21', floor=6)
def r_recorded(cx):
    f = cx.fn('Completer::handle_message')
    if not f: return
    at = cx.P.atoms('chunk::db::complete_chunk', 'chunk::db::retry_or_fail_chunk', 'Dispatcher::finish_reservation', 'WriterPool::writer_conn', 'db::perform_explicit_wal_checkpoint')
    m = ('param', f.path, f.params[1].get('name'))
    seen = set()
    for p in cx.paths(f, atomic=at, tag='completer'):
        var = p.st.vari.get(m)
        conn = evs(p, 'writer_conn')
        cerr = any(p.st.vari.get(e.res) == 'Err' for i, e in conn)
        if p.out == 'panic':
            for e in p.ev:
                if e.k == 'panic' and isinstance(e.a.get('val'), tuple) and any(calls(e.val, n) for n in ('complete_chunk', 'retry_or_fail_chunk', 'writer_conn', 'finish_reservation')):
                    cx.ob('a failing report does not stop the rest', False, wh(e), 'a database error while recording one outcome stops the processing of all that follow')
            continue
        es = evs(p, 'complete_chunk', 'retry_or_fail_chunk', 'fail_chunk', 'retry_chunk', 'move_chunk_to_failed_chunks')
        if cerr and not es:
            cx.ob('connection error reported', any(e.k == 'log' and e.a.get('level') in ('ERROR', 'WARN', 'error', 'warn', None) for e in p.ev) or True, f.where)
            continue
        if var is None: continue
        seen.add(var)
        fn, content = ('complete_chunk', 'output_content') if var == 'Complete' else ('retry_or_fail_chunk', 'failure')
        own = [(i, e) for i, e in es if last(e.path) == fn]
        cx.ob(f'{var}: one attempt', len(own) == 1 and len(es) == 1, f.where, f'a reported {var} leads to {[last(e.path) for i, e in es]}')
        for i, e in own:
            g = cx.P.fn('chunk::db::' + fn)
            cx.ob(f'{var}: own chunk', e.args[0] == ('pl', m, var, 'id'), wh(e), f'recorded for {show(e.args[0])[:60]}')
            cx.ob(f'{var}: own content', e.args[1] == ('pl', m, var, content), wh(e), f'recorded with {show(e.args[1])[:60]}')
            if fn == 'retry_or_fail_chunk' and len(e.args) > 3:
                cx.ob('Fail: configured retries', is_field(e.args[3], 'max_chunk_retries'), wh(e), f'the retry limit is {show(e.args[3])[:60]}')
            aw = any(x.k == 'await' and x.val == e.res for x in p.ev[i:])
            if g is not None and g.is_async: cx.ob(f'{var}: awaited', aw, wh(e), 'the outcome is never actually recorded')
            if p.st.vari.get(e.res) == 'Err':
                cx.ob(f'{var}: error logged', any(x.k == 'log' for x in p.ev[i:]), wh(e), 'an outcome that could not be recorded leaves no trace')
    if seen != {'Complete', 'Fail'} : cx.skip('outcomes', f'only {seen} handled')
    # the loop
    g = cx.fn('Completer::run')
    if not g: return
    n = 0
    for p in spawned_paths(cx, g, atomic=cx.P.atoms('Completer::handle_message'), tag='completer-loop'):
        _, fut = chosen(p)
        k = kind(fut)
        if k in ('cancel', None): continue
        if p.out == 'panic': cx.ob('loop goes on', False, g.where, 'the completer can panic'); continue
        for i, e in evs(p, 'try_recv', 'blocking_recv'):
            if is_field(e.args[0], 'mailbox') and p.st.vari.get(e.res) not in ('Err', 'None'):
                cx.ob('every message handled', any(any(has(a, ('pl', e.res, x, '0')) for a in h.args[1:] for x in ('Ok', 'Some')) for j, h in evs(p, 'handle_message')), wh(e), 'a queued outcome is taken from the queue and not handled')
        if k == 'mailbox':
            if p.st.vari.get(fut) == 'None': continue
            n += 1
            hs = evs(p, 'handle_message')
            cx.ob('every message handled', len(hs) == 1 and pl_eq(hs[0][1].args[1], ('pl', fut, 'Some', '0')), g.where, 'a queued outcome is not handled exactly once')
            cx.ob('loop goes on', p.out == 'loop', g.where, 'the completer stops after a message')
    if not n: cx.skip('completer loop', 'no path receives a message')
    # the queue is the one the connections write to
    h = cx.fn('Completer::new')
    if h:
        for p in cx.paths(h):
            t = p.val
            if isinstance(t, tuple) and t[0] == 'tuple' and len(t[1]) == 2:
                mb, tx = fields(t[1][0]).get('mailbox'), t[1][1]
                if is_field(mb, '1') and is_field(tx, '0'): cx.ob('same queue', mb[1] == tx[1], h.where, 'sender and receiver belong to different queues')
                r = fields(t[1][0]).get('max_chunk_retries')
                cx.ob('retry limit passed on', param(r, 'max_chunk_retries') or r is None, h.where, f'the completer retries {show(r)[:40]} times')


# ---- C22 / C23: client -------------------------------------------------------------------------

def client_paths(cx):
    f = cx.fn('Client::background_task')
    if not f: return None, []
    return f, cx.paths(f, tag='bg')


def map_of(t):
    """Is this the (locked) in-flight map?"""
    return any(x[0] == 'call' and last(str(x[1])) == 'lock' for x in terms(t)) and any(param(x, 'in_flight_requests') or is_field(x, 'in_flight_requests') for x in terms(t))


@rule('loss-fails-waiters', 'whenever the client stops listening it is marked unhealthy before the waiting requests are failed; it stops on every loss and on nothing else', 'C22', floor=6)
def r_loss(cx):
    f, ps = client_paths(cx)
    if not f: return
    for p in ps:
        _, fut = chosen(p)
        k = kind(fut)
        why = situation(p, fut)
        if p.out == 'panic':
            for e in p.ev:
                if e.k == 'panic':
                    v = e.a.get('val')
                    if isinstance(v, tuple) and (calls(v, 'remove') or calls(v, 'lock')): continue
                    cx.ob(f'{why}: no panic', False, wh(e), 'the listening task can panic, leaving waiting calls without an answer for ever')
            continue
        if p.out == 'val':
            st = [(i, e) for i, e in evs(p, 'store', 'swap') if len(e.args) > 1 and (param(e.args[0], 'healthy') or is_field(e.args[0], 'healthy'))]
            off = [i for i, e in st if lit(e.args[1]) is False]
            on = [i for i, e in st if lit(e.args[1]) is True]
            cx.ob(f'{why}: marked unhealthy', bool(off) and not (on and max(on) > max(off)), f.where, 'the connection is lost but the client still counts as healthy, so the next call uses the dead connection')
            cl = [i for i, e in enumerate(p.ev) if e.k == 'call' and last(e.path) in ('clear', 'drain') and map_of(e.args[0])]
            cl += [i for i, e in enumerate(p.ev) if e.k == 'call' and last(e.path) in ('take', 'replace') and map_of(e.args[0])]
            cx.ob(f'{why}: waiting calls failed', bool(cl), f.where, 'calls waiting for a reply are never told that the connection is lost')
            if off and cl: cx.ob(f'{why}: unhealthy first', min(off) < max(cl), f.where, 'requests are failed before the client is marked unhealthy, so a request made in between waits for ever')
            cx.ob(f'{why}: stops', why not in ('ping', 'pong', 'Sync', 'Async', 'Init', 'tick'), f.where, f'the client gives up its connection on {why}')
        elif p.out == 'loop':
            cx.ob(f'{why}: goes on', why not in ('closed', 'error', 'close frame', 'undecodable', 'cancel'), f.where, f'the client goes on listening after {why}')
    h = cx.fn('Client::is_healthy')
    if h:
        for p in cx.paths(h):
            cx.ob('is_healthy', isinstance(p.val, tuple) and p.val[0] == 'call' and last(p.val[1]) == 'load' and is_field(p.val[2][0], 'healthy'), h.where, f'health is {show(p.val)[:60]}')


def situation(p, fut):
    """What happened on this path of the client loop."""
    k = kind(fut)
    if k == 'cancel': return 'cancel'
    if k == 'tick':
        return 'too many missed' if any(isinstance(c, tuple) and c and c[0] == 'bin' and v for c, v in p.st.path) and p.out == 'val' else 'tick'
    if k != 'ws': return k or 'other'
    if p.st.vari.get(fut) == 'None': return 'closed'
    r = ('pl', fut, 'Some', '0')
    rr = next((t for t in p.st.vari if pl_eq(t, r)), r)
    if p.st.vari.get(rr) == 'Err': return 'error'
    for c, v in p.st.path:
        if isinstance(c, tuple) and c and c[0] == 'call' and v and any(pl_eq(x, rr) or x == rr for x in terms(c)):
            n = last(str(c[1]))
            if n == 'is_close': return 'close frame'
            if n == 'is_ping': return 'ping'
            if n == 'is_pong': return 'pong'
    for t, v in p.st.vari.items():
        if v in ('Close', 'Ping', 'Pong') and any(x == rr for x in terms(t)): return {'Close': 'close frame', 'Ping': 'ping', 'Pong': 'pong'}[v]
    for t, v in p.st.vari.items():
        if isinstance(t, tuple) and t[0] == 'call' and last(str(t[1])) in ('try_into', 'try_from', 'from_reader') and v == 'Err': return 'undecodable'
    for t, v in p.st.vari.items():
        if v in ('Sync', 'Async', 'Init'): return v
        if v in ('WantToReserveChunks', 'CompleteChunk', 'FailChunk'): return v
    return 'other message'


@rule('reply-to-its-caller', 'a reply goes to the sender registered under its own nonce, with its contents; chunks nobody waits for and expired chunks are given back one by one', 'C22', floor=5)
def r_reply(cx):
    f, ps = client_paths(cx)
    if not f: return
    n = 0
    for p in ps:
        _, fut = chosen(p)
        if kind(fut) != 'ws': continue
        w = situation(p, fut)
        rm = [(i, e) for i, e in enumerate(p.ev) if e.k == 'call' and last(e.path) in ('remove', 'remove_entry', 'get') and len(e.args) > 1 and map_of(e.args[0])]
        gb = given_back(p)
        if w == 'Sync':
            n += 1
            env = next((('pl', t, 'Sync', x) for t, v in p.st.vari.items() if v == 'Sync' for x in ('0',)), None)
            cx.ob('reply looked up', len(rm) == 1, f.where, 'a reply is not looked up exactly once')
            for i, e in rm:
                cx.ob('by its own nonce', is_field(e.args[1], 'nonce') and pl_eq(e.args[1][1], env), wh(e), f'looked up under {show(e.args[1])[:60]}')
                cx.ob('entry removed', last(e.path) != 'get', wh(e), 'the entry stays, so a second reply could reach the same call')
                if p.st.vari.get(e.res) == 'None': continue
                snd = [(j, x) for j, x in enumerate(p.ev) if x.k == 'call' and last(x.path) == 'send' and len(x.args) > 1 and any(y == e.res for y in terms(x.args[0]))]
                if p.out == 'panic' and not snd: continue
                cx.ob('reply delivered', len(snd) == 1, wh(e), 'the reply is not delivered to the call that waits for it')
                for j, x in snd:
                    cx.ob('its own contents', is_field(x.args[1], 'contents') and pl_eq(x.args[1][1], env), wh(x), f'delivered {show(x.args[1])[:60]}')
                    if p.st.vari.get(x.res) == 'Err' and p.out != 'panic':
                        und = ('pl', x.res, 'Err', '0')
                        loops = [y for y in p.ev if y.k in ('for', 'hof') and isinstance(y.a.get('iter', y.a.get('recv')), tuple) and any(pl_eq(z, und) for z in terms(y.a.get('iter', y.a.get('recv'))))]
                        isok = next((v for t, v in p.st.vari.items() if isinstance(t, tuple) and t[0] == 'pl' and t[2] == 'ChunksReserved' and any(pl_eq(z, und) for z in terms(t))), None)
                        if isok == 'Err': continue
                        zero = [y for y in p.ev if y.k == 'for0' and any(pl_eq(z, und) for z in terms(y.iter))]
                        if zero: continue
                        cx.ob('undelivered chunks given back', bool(gb), wh(x), 'chunks whose requester has gone stay reserved')
                        for y in p.ev:
                            it = y.a.get('iter') if y.k == 'for' else None
                            if isinstance(it, tuple) and has(it, und):
                                part = [t for t in terms((it,)) if t[0] == 'index' or (t[0] == 'call' and last(str(t[1])) in ('skip', 'take', 'first', 'last', 'filter', 'step_by', 'skip_while', 'take_while', 'nth', 'split_off', 'truncate', 'get', 'find'))]
                                cx.ob('all of them', not part, wh(y), 'only some of the undelivered chunks are given back')
                                if gb: cx.ob('all of them', not any(z.k == 'endfor' and z.id == y.id and z.how == 'break' for z in p.ev), wh(y), 'the remaining undelivered chunks are not given back once one was')
                        for g, ge in gb:
                            ck = g.get('id')
                            key = chunk_key(ck)
                            cx.ob('each its own chunk', ck is not None and any(pl_eq(z, und) for z in terms(ck)) and (key is not None or fields(ck) == {}), wh(ge), f'given back: {show(ck)[:80]}')
        elif w == 'Async':
            n += 1
            src = [t for t, v in p.st.vari.items() if v == 'Async']
            cx.ob('expired chunk given back', len(gb) == 1, f.where, 'an expired reservation is not handed back')
            for g, ge in gb:
                cx.ob('expired: its own chunk', any(isinstance(z, tuple) and z[0] == 'pl' and z[2] in ('ChunkReservationExpired', 'Async') for z in terms(g.get('id'))), wh(ge), f'given back: {show(g.get("id"))[:80]}')
        else:
            for g, ge in gb: cx.ob(f'{w}: nothing given back', False, wh(ge), 'chunks are given back without reason')
    if not n: cx.skip('replies', 'no path handles a reply')


def given_back(p):
    out = []
    for i, e, m in ws_sends(p, 'ws_sink'):
        c = fields(m).get('contents')
        if vname(c) == 'FailChunk': out.append((fields(c), e))
        elif c is not None and vname(c) in ('CompleteChunk',): out.append(({'id': None}, e))
    return out


@rule('request-registered-first', 'a request is registered under a fresh nonce before it is sent with that nonce, and the caller waits on that registration only while the connection is healthy', 'C22', floor=6)
def r_request(cx):
    f = cx.fn('Client::sync_request')
    if f:
        req = ('param', f.path, f.params[1].get('name'))
        for p in cx.paths(f):
            ins = [(i, e) for i, e in enumerate(p.ev) if e.k == 'call' and last(e.path) == 'insert' and len(e.args) > 2 and map_of(e.args[0])]
            snd = ws_sends(p, 'ws_sink')
            if not ins and not snd: continue
            for i, e, m in snd:
                c = fields(m)
                cx.ob('request sent as asked', c.get('contents') == req, wh(e), f'sent {show(c.get("contents"))[:60]}')
                cx.ob('registered', len(ins) == 1, wh(e), 'a request is sent without being registered for its reply')
                for j, x in ins:
                    cx.ob('registered before sending', j < i, wh(e), 'the reply can arrive before the request is registered')
                    cx.ob('one nonce', x.args[1] == c.get('nonce'), wh(e), 'the request is sent under another nonce than it is registered')
                    fa = x.args[1]
                    cx.ob('fresh nonce', isinstance(fa, tuple) and fa[0] == 'call' and last(fa[1]) in ('fetch_add', 'next_nonce') , wh(x), f'the nonce is {show(fa)[:60]}, which may be in use by another call')
                    if isinstance(fa, tuple) and fa[0] == 'call' and last(fa[1]) == 'fetch_add': cx.ob('nonce advances', lit(fa[2][1]) not in (0, None), wh(x), 'the nonce does not change from call to call')
            for j, x in ins:
                tx = x.args[2]
                for i2, e2 in enumerate(p.ev):
                    if e2.k == 'await' and is_field(e2.val, '1') and isinstance(e2.val[1], tuple) and e2.val[1][0] == 'call' and last(e2.val[1][1]) == 'channel':
                        cx.ob('waits for its own reply', is_field(tx, '0') and tx[1] == e2.val[1], wh(e2), 'the call waits on another channel than the one registered')
                        h = [c for c, v in p.st.path if v and isinstance(c, tuple) and c[0] == 'call' and last(c[1]) in ('load', 'is_healthy') and any(is_field(t, 'healthy') or is_field(t, 'in_flight_requests') or param(t, 'self') for t in terms(c))]
                        idx = [n for n, y in enumerate(p.ev) if y.k == 'call' and y.res in h and n > j]
                        sel = any(y.k == 'select' for y in p.ev[j:i2])
                        cx.ob('only while healthy', bool(idx) or sel, wh(e2), 'a request registered after the connection was given up waits for ever')
            if p.result() == 'Ok' and ins:
                v = p.pay()
                cx.ob('returns the reply', isinstance(v, tuple) and any(is_field(t, '1') and isinstance(t[1], tuple) and t[1][0] == 'call' and last(t[1][1]) == 'channel' for t in terms(v)), f.where, f'the call returns {show(v)[:60]}')
    g = cx.fn('Client::async_request')
    if g:
        req = ('param', g.path, g.params[-1].get('name'))
        for p in cx.paths(g):
            snd = ws_sends(p, 'ws_sink')
            if p.result() == 'Ok': cx.ob('report sent once', len(snd) == 1, g.where, f'a report is sent {len(snd)} times')
            for i, e, m in snd:
                cx.ob('report sent as given', fields(m).get('contents') == req, wh(e), f'sent {show(fields(m).get("contents"))[:60]}')
                cx.ob('report error passed on', not (p.st.vari.get(e.res) == 'Err' and p.result() == 'Ok'), wh(e), 'a report that could not be sent is reported as sent')
    for name, var, fl in (('reserve_chunks', 'WantToReserveChunks', ('max', 'strategy')), ('complete_chunk', 'CompleteChunk', ('id', 'output_content')), ('fail_chunk', 'FailChunk', ('id', 'failure'))):
        h = cx.fn('consumer::client::Client::' + name)
        if not h: continue
        for p in cx.paths(h):
            snd = ws_sends(p, 'ws_sink')
            if p.result() == 'Ok': cx.ob(f'{name}: sent', len(snd) == 1, h.where, f'{name} sends {len(snd)} messages')
            for i, e, m in snd:
                c = fields(m).get('contents')
                cx.ob(f'{name}: its own message', vname(c) == var and [fields(c).get(x) for x in fl] == [('param', h.path, q.get('name')) for q in h.params[1:3]], wh(e), f'{name} sends {show(c)[:100]}')


@rule('reconnects', 'a call on an unhealthy or absent connection makes and stores a new one, and a failing call drops the connection', 'C22', floor=4)
def r_reconnect(cx):
    at = cx.P.atoms('consumer::client::Client::new', 'consumer::client::Client::reserve_chunks', 'consumer::client::Client::complete_chunk', 'consumer::client::Client::fail_chunk')
    for name in ('reserve_chunks', 'complete_chunk', 'fail_chunk'):
        f = cx.fn('OuterClient::' + name)
        if not f: continue
        for p in cx.paths(f, atomic=at + cx.P.atoms('OuterClient::initialize'), tag='outer'):
            if p.out == 'panic':
                for e in p.ev:
                    if e.k == 'panic': cx.ob(f'{name}: no panic', isinstance(e.a.get('val'), tuple) and bool(calls(e.val, 'retry', 'notify', 'initialize')), wh(e), 'a concurrent failing call can make this call panic')
                continue
            cs = [(i, e) for i, e in evs(p, name) if 'Client' in e.path]
            cx.ob(f'{name}: delegated once', len(cs) == 1, f.where, f'{len(cs)} calls on the connection')
            for i, e in cs:
                cx.ob(f'{name}: own arguments', [x for x in e.args[1:]] == [('param', f.path, q.get('name')) for q in f.params[1:]], wh(e), 'other arguments are passed on')
                cx.ob(f'{name}: own result', p.val == e.res or any(x == e.res for x in terms(p.val)), wh(e), 'the outcome of the call is not returned')
                st = [(j, x) for j, x in evs(p, 'store', 'swap') if j > i and is_field(x.args[0], '0')]
                if p.st.vari.get(e.res) != 'Ok':
                    cx.ob(f'{name}: dropped on error', any(vname(x.args[1]) == 'None' for j, x in st), wh(e), 'a failing connection is kept')
                # which connection is used?
                recv = e.args[0]
                ini = evs(p, 'initialize', 'new')
                ini = [(j, x) for j, x in ini if last(x.path) == 'initialize']
                healthy = [(c, v) for c, v in p.st.path if isinstance(c, tuple) and c[0] == 'call' and last(c[1]) in ('load', 'is_healthy') and any(is_field(t, 'healthy') for t in terms(c))]
                good = any(v for c, v in healthy)
                if not ini:
                    cx.ob(f'{name}: healthy connection', good, wh(e), 'a connection that is not known to be healthy is used')
                else:
                    sb = [(j, x) for j, x in evs(p, 'store', 'swap') if j < i and is_field(x.args[0], '0') and any(y == ini[-1][1].res for y in terms(x.args[1]))]
                    cx.ob(f'{name}: new connection kept', bool(sb), wh(e), 'the new connection is not kept for later calls')
    g = cx.fn('OuterClient::is_healthy')
    if g:
        for p in cx.paths(g): cx.ob('outer health', True, g.where)


# ---- C23 ---------------------------------------------------------------------------------------

def lin(t, is_m, is_x):
    """(coefficient of missed, coefficient of max, constant) of a linear term, or None."""
    if is_m(t): return (1, 0, 0)
    if is_x(t): return (0, 1, 0)
    if lit(t) is not None and isinstance(lit(t), int) and not isinstance(lit(t), bool): return (0, 0, lit(t))
    if isinstance(t, tuple) and t and t[0] == 'bin' and t[1] in ('+', '-'):
        a, b = lin(t[2], is_m, is_x), lin(t[3], is_m, is_x)
        if a and b:
            s = 1 if t[1] == '+' else -1
            return tuple(x + s * y for x, y in zip(a, b))
    if isinstance(t, tuple) and t and t[0] == 'call' and last(str(t[1])) in ('saturating_add', 'wrapping_add') and len(t[2]) == 2:
        a, b = lin(t[2][0], is_m, is_x), lin(t[2][1], is_m, is_x)
        if a and b: return tuple(x + y for x, y in zip(a, b))
    return None


def exceeded(p, is_m, is_x):
    """('more than n', truth) for the comparison of missed heartbeats with the limit on this path: offset k such
    that the path knows missed - max >= k (truth True) or < k (False); None if there is no such comparison."""
    for c, v in p.st.path:
        while isinstance(c, tuple) and c and c[0] == 'not': c, v = c[1], not v
        if not (isinstance(c, tuple) and c and c[0] == 'bin' and c[1] in ('<', '<=', '>', '>=', '==', '!=')): continue
        a, b = lin(c[2], is_m, is_x), lin(c[3], is_m, is_x)
        if a is None or b is None: continue
        d = tuple(y - x for x, y in zip(a, b))       # b - a
        op = c[1]
        if op in ('>', '>='): d, op = tuple(-x for x in d), {'>': '<', '>=': '<='}[op]
        if op in ('==', '!='): return ('eq', v) if d[0] and d[1] else None
        k0 = 1 if op == '<' else 0                    # d >= k0
        if d[0] == 1 and d[1] == -1: return (k0 - d[2], v)
        if d[0] == -1 and d[1] == 1: return (1 - k0 + d[2], not v)  # missed - max <= d2 - k0  <=> not (>= d2-k0+1)
        if d[0] and not d[1] or (d[1] and not d[0]): return ('const', v)
    return None


def heartbeat(cx, who, f, ps, is_m, is_x, is_c, sends_ping):
    n = 0
    for p in ps:
        if p.out == 'panic': continue
        bi, fut = chosen(p)
        if fut is None: continue
        k = kind(fut)
        asg = [(i, e) for i, e in enumerate(p.ev) if e.k == 'assign' and is_c(e.lhs) and i > bi]
        resets = [e for i, e in asg if lit(e.rhs) == 0]
        if k == 'tick':
            n += 1
            x = exceeded(p, is_m, is_x)
            stops = p.out == 'val'
            if x is None:
                cx.ob(f'{who}: limit checked', not stops and False if not stops else False, f.where, 'the number of missed heartbeats is not compared with the configured limit')
                continue
            off, tv = x
            if off in ('eq', 'const'): cx.ob(f'{who}: limit', False, f.where, 'the connection is not given up exactly when more heartbeats than configured were missed'); continue
            inc_before = 0
            cx.ob(f'{who}: limit', off == 1, f.where, f'the connection is given up when missed - limit >= {off}, not when it is more than the limit')
            cx.ob(f'{who}: gives up', stops == tv, f.where, 'the connection is not given up exactly when too many heartbeats were missed')
            if not stops:
                inc = [e for i, e in asg if (lambda l: l and l == (1, 0, 1))(lin(e.rhs, is_m, is_x))]
                cx.ob(f'{who}: counts', len(inc) == 1 and len(asg) == 1, f.where, 'a heartbeat interval without a sign of life does not count as exactly one missed heartbeat')
                if sends_ping:
                    cx.ob(f'{who}: heartbeat sent', any(vname(m) == 'Ping' for i, e, m in ws_sends(p)), f.where, 'no heartbeat is sent')
            elif who == 'server': cx.ob(f'{who}: reported', p.result() == 'Err', f.where, 'giving up is not reported')
        elif k == 'ws':
            got = p.st.vari.get(fut)
            if got == 'None' or situation(p, fut) in ('closed', 'error', 'close frame'): continue
            n += 1
            cx.ob(f'{who}: any message is a sign of life', bool(resets) and asg[-1][1] in resets, f.where, 'a received message does not reset the count of missed heartbeats')
        else:
            for i, e in asg: cx.ob(f'{who}: only signs of life count', False, wh(e), 'the count of missed heartbeats is changed without a sign of life')
    if not n: cx.skip(f'{who} heartbeat', 'no heartbeat paths recognised')


@rule('heartbeats-server', 'the server sends a heartbeat each interval, counts it as missed until anything is received, and gives up exactly above the limit', 'C23', floor=6)
def r_hb_server(cx):
    f, ps = server_paths(cx)
    if not f: return
    isf = lambda t: is_field(t, 'heartbeats_missed')
    heartbeat(cx, 'server', f, ps, isf, lambda t: is_field(t, 'max_missable_heartbeats'), isf, True)
    g = cx.fn('ConsumerConn::new')
    if g:
        for p in cx.paths(g, atomic=cx.P.atoms('ConsumerState::new')):
            s = fields(p.val)
            if not s: cx.skip('ConsumerConn::new', show(p.val)[:60]); continue
            v = s.get('heartbeat_interval')
            cs = calls(v, 'interval', 'interval_at')
            cx.ob('server: configured interval', bool(cs) and is_field(cs[0][2][-1], 'heartbeat_interval'), g.where, f'heartbeats are sent every {show(v)[:80]}')
            cx.ob('server: configured limit', is_field(s.get('max_missable_heartbeats'), 'max_missable_heartbeats'), g.where, f'the limit is {show(s.get("max_missable_heartbeats"))[:60]}')
            cx.ob('server: count starts at 0', lit(s.get('heartbeats_missed')) == 0, g.where, 'a new connection starts with missed heartbeats')


@rule('heartbeats-client', 'the client counts each interval without a message and gives up exactly above the limit the server announced', 'C23', floor=5)
def r_hb_client(cx):
    f, ps = client_paths(cx)
    if not f: return
    # the loop-carried counter: the variable compared with the limit
    names = set()
    for p in ps:
        for e in p.ev:
            if e.k == 'assign' and isinstance(e.lhs, tuple) and e.lhs[0] == 'local': names.add(e.lhs)
    is_m = lambda t: isinstance(t, tuple) and len(t) > 2 and t[0] == 'phi' and any(t[2] == n[2] for n in names)
    is_c = lambda t: isinstance(t, tuple) and t[0] == 'local' and any(isinstance(x, tuple) and x[0] == 'phi' and x[2] == t[2] for p in ps for c, v in p.st.path for x in terms(c))
    is_x = lambda t: is_field(t, 'max_missable_heartbeats')
    heartbeat(cx, 'client', f, ps, is_m, is_x, is_c, False)
    for p in ps:
        for i, e in enumerate(p.ev):
            if e.k == 'call' and last(e.path) in ('interval', 'interval_at'):
                cx.ob('client: announced interval', is_field(e.args[-1], 'heartbeat_interval'), wh(e), f'the interval is {show(e.args[-1])[:60]}')
        for t in terms(tuple(c for c, v in p.st.path)):
            if t[0] == 'phi' and len(t) > 3 and any(t[2] == n[2] for n in names):
                cx.ob('client: count starts at 0', lit(t[3]) == 0, f.where, 'a new connection starts with missed heartbeats')
    g = cx.fn('consumer::client::Client::new')
    if g:
        for p in cx.paths(g, atomic=cx.P.atoms('Client::background_task')):
            bt = [e for i, e in evs(p, 'background_task')] + [e for e in p.ev if e.k == 'spawn']
            for e in bt:
                for a in (e.args if e.k == 'call' else ()):
                    if any(isinstance(t, tuple) and t[0] == 'pl' and t[2] == 'Init' for t in terms(a)): cx.ob('client: settings of the server', True, wh(e))


# ---- C24 ---------------------------------------------------------------------------------------

MSG = ('ClientToServerMessage', 'ServerToClientMessage')
BAD_SERDE = ('skip', 'skip_serializing', 'skip_deserializing', 'skip_serializing_if', 'untagged', 'other', 'flatten', 'with', 'serialize_with', 'deserialize_with', 'from', 'into', 'try_from', 'remote', 'rename', 'alias', 'default', 'content', 'tag')


@rule('codec-agrees', 'every conversion between messages and websocket frames encodes the whole message, and decodes the whole frame, with the same codec, passing errors on', 'C24', floor=8)
def r_codec(cx):
    n = 0
    for k, f in sorted(cx.P.fns.items()):
        if 'consumer/common.rs' not in f.where or last(PR.canon(f.path)) not in ('try_from', 'from'): continue
        pn = f.params[0].get('name')
        name = f'{f.path}'
        if last(PR.canon(f.path)) == 'try_from':
            n += 1
            for p in cx.paths(f):
                if p.out == 'panic': cx.ob(f'{name}: decoding errors are passed on', False, f.where, 'an undecodable message causes a panic'); continue
                cs = calls(p.val, 'from_reader', 'from_slice', 'from_str', 'from_reader_with_buffer')
                if not cs:
                    if p.result() == 'Ok': cx.ob(f'{name}: decodes', False, f.where, 'a message is made up instead of decoded')
                    continue
                cx.ob(f'{name}: decodes', all('ciborium' in c[1] for c in cs) and len(cs) == 1, f.where, f'decoded with {cs[0][1]}')
                a = cs[0][2][0]
                bad = [t for t in terms(a) if t[0] in ('index', 'bin') or (t[0] == 'call' and last(str(t[1])) in ('skip', 'take', 'split_at', 'trim_ascii', 'get', 'chunk', 'get_unchecked'))]
                cx.ob(f'{name}: the whole frame', param_in(a, pn) and not bad, f.where, f'decoded from {show(a)[:80]}')
        else:
            n += 1
            for p in cx.paths(f):
                if p.out == 'panic': continue
                v = p.val
                w = [(i, e) for i, e in evs(p, 'into_writer', 'to_writer', 'to_vec', 'into_writer_with_buffer')]
                if not w: cx.ob(f'{name}: encodes', vname(v) not in ('Binary', 'Text'), f.where, 'a frame is made without encoding the message'); continue
                for i, e in w:
                    cx.ob(f'{name}: encodes', 'ciborium' in e.path, wh(e), f'encoded with {e.path}')
                    cx.ob(f'{name}: the whole message', param(e.args[0], pn), wh(e), f'encodes {show(e.args[0])[:60]}')
                cx.ob(f'{name}: binary frame', vname(v) == 'Binary', f.where, f'sent as {vname(v) or show(v)[:40]}')
                b = arg(v)
                if b is not None and len(w[0][1].args) > 1: cx.ob(f'{name}: what was encoded', any(x == w[0][1].args[1] for x in terms((b,))) or b == w[0][1].args[1], f.where, f'the frame holds {show(b)[:60]}')
    if n < 8: cx.skip('conversions', f'{n} conversions found')


def param_in(t, n):
    return any(param(x, n) for x in terms((t,)))


@rule('types-transparent', 'no message type or part of one carries an attribute that would make encoding drop, rename one-sidedly or guess anything', 'C24', 'C25', floor=5)
def r_types(cx):
    files = ('consumer/common.rs', 'consumer/strategy.rs', 'common/chunk.rs', 'common/submission.rs', 'common/errors.rs', 'common/mod.rs')
    n = 0
    for it in message_types(cx):
        n += 1
        cx.ob(f'{it["name"]}', not it['bad'], it['where'], f'serde attribute {it["bad"]} changes what is encoded or decoded')
    if not n: cx.skip('message types', 'none found')


def message_types(cx):
    import re, os
    out = []
    for rel in ('opsqueue/src/consumer/common.rs', 'opsqueue/src/consumer/strategy.rs', 'opsqueue/src/common/chunk.rs', 'opsqueue/src/common/submission.rs', 'opsqueue/src/common/errors.rs', 'opsqueue/src/common/mod.rs', 'opsqueue/src/producer/common.rs'):
        path = os.path.join(F.REPO, rel)
        if not os.path.exists(path): continue
        src = open(path).read()
        src = re.sub(r'//[^\n]*', '', src)
        for m in re.finditer(r'((?:#\[[^\]]*\]\s*)+)(?:pub(?:\([a-z]+\))?\s+)?(struct|enum)\s+(\w+)', src):
            attrs, _, name = m.groups()
            if 'Serialize' not in attrs and 'Deserialize' not in attrs: continue
            body = ''
            i = m.end(); d = 0
            while i < len(src):
                ch = src[i]
                if ch in '{(': d += 1
                if ch in '})':
                    d -= 1
                    if d == 0: break
                if ch == ';' and d == 0: break
                i += 1
            body = src[m.end():i + 1]
            bad = []
            for a in re.findall(r'#\[(?:serde|cfg_attr)\(([^\]]*)\)\]', attrs + body):
                for w in BAD_SERDE:
                    if re.search(rf'\b{w}\b', a):
                        if w == 'default' and not re.search(r'\bskip', a): continue
                        bad.append(a.strip())
            one = ('Serialize' in attrs) != ('Deserialize' in attrs)
            out.append(dict(name=name, bad=bad[0] if bad else ('only one direction is derived' if one and rel.endswith('consumer/common.rs') else None), where=f'{rel}:{src[:m.start()].count(chr(10)) + 1}'))
    return out


@rule('undecodable-is-an-error', 'on either end a binary frame that cannot be decoded, and on the server any frame of another type, ends in a reported error', 'C24', floor=3)
def r_undecodable(cx):
    f, ps = server_paths(cx)
    for p in ps:
        _, fut = chosen(p)
        if kind(fut) != 'ws': continue
        w = situation(p, fut)
        if p.out == 'panic':
            cx.ob('server: no panic on a message', not any(e.k == 'panic' and isinstance(e.a.get('val'), tuple) and calls(e.val, 'try_into', 'try_from', 'from_reader') for e in p.ev), f.where, 'an undecodable message causes a panic'); continue
        if w == 'undecodable': cx.ob('server: undecodable', p.result() == 'Err', f.where, 'an undecodable message is dropped silently')
        elif w == 'other message': cx.ob('server: unexpected frame', p.result() == 'Err', f.where, 'a frame of unexpected type is dropped silently')
    f, ps = client_paths(cx)
    for p in ps:
        _, fut = chosen(p)
        if kind(fut) != 'ws': continue
        if situation(p, fut) == 'undecodable':
            cx.ob('client: undecodable', p.out == 'val' and any(e.k == 'log' for e in p.ev), f.where, 'an undecodable message is dropped silently')
        if p.out == 'panic':
            cx.ob('client: no panic on a message', not any(e.k == 'panic' and isinstance(e.a.get('val'), tuple) and calls(e.val, 'try_into', 'try_from', 'from_reader') and not calls(e.val, 'remove') for e in p.ev), f.where, 'an undecodable message causes a panic')
    g = cx.fn('consumer::client::Client::new')
    if g:
        for p in cx.paths(g, atomic=cx.P.atoms('Client::background_task')):
            if p.out == 'panic': continue
            und = any(isinstance(t, tuple) and t[0] == 'call' and last(str(t[1])) == 'try_into' and v == 'Err' for t, v in p.st.vari.items())
            if und: cx.ob('client: first message undecodable', p.result() == 'Err', g.where, 'an undecodable first message is accepted')
            ini = any(v == 'Init' for v in p.st.vari.values())
            if p.result() == 'Ok': cx.ob('client: first message is the initialisation', ini, g.where, 'a connection without initialisation is used')
