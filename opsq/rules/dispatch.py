"""Reservations (C15, C16, C17)."""
from ..core import rule, short, wh, TECH
from ..interp import show, terms, last, calls
from .. import interp as IN, prog as PR
from .util import *

TECH['C15'] = 'atomicity (typestate of the cache entry) and dataflow of reserved keys through the dispatch pipeline'
TECH['C16'] = 'typestate of reservations: builder dataflow, release on every path, background task liveness structure'
TECH['C17'] = 'path-sensitive ordering of database write and release in outcome processing'

CACHE = ('moka',)


def cache_call(e):
    return e.k == 'call' and 'moka' in e.path


@rule('reserve-atomic', 'a reservation succeeds exactly when the one entry operation on the cache inserted it; an existing one is never replaced', 'C15', floor=3)
def r_atomic(cx):
    f = cx.fn('Reserver::try_reserve')
    if not f: return
    for p in cx.paths(f):
        if p.out != 'val': continue
        r = p.result()
        ent = [e for i, e in evs(p, 'or_insert_with', 'or_insert', 'or_insert_with_if', 'or_default', 'or_optionally_insert_with', sub='moka')]
        over = [e for e in p.ev if cache_call(e) and last(e.path) in ('insert', 'and_upsert_with', 'get_with', 'remove', 'invalidate')]
        for e in over:
            if last(e.path) in ('insert', 'remove', 'invalidate'): cx.ob('existing reservation kept', False, wh(e), f'{last(e.path)} replaces or drops a reservation that may exist')
        if len(ent) != 1:
            if over or r == 'Some': cx.ob('one entry operation', bool(over) and False if over else len(ent) == 1, f.where, 'look-up and insertion are not one indivisible operation')
            continue
        e = ent[0]
        key = calls(e.args[0], 'entry', 'entry_by_ref')
        cx.ob('reserves the key', bool(key) and len(key[0][2]) > 1 and param(key[0][2][1]) and key[0][2][1][2] == f.params[1].get('name'), wh(e), 'the entry reserved is not the requested key')
        fresh = [c for c, v in p.st.path if c[0] == 'call' and last(c[1]) == 'is_fresh' and e.res in c[2]]
        fv = truth(p, fresh[0]) if fresh else None
        if r == 'Some': cx.ob('success means inserted', fv is True, wh(e), 'a reservation is reported although the entry existed before')
        elif r == 'None': cx.ob('failure means taken', fv is False, wh(e), 'a reservation that was made is reported as failed')
        # what is stored: the value and the caller's channel
        for h in p.ev:
            if h.k == 'endhof' and h.name == last(e.path):
                t = h.val
                cx.ob('stores holder', isinstance(t, tuple) and t[0] == 'tuple' and len(t[1]) >= 2 and param(t[1][0]) and param(t[1][1]) and t[1][0][2] == f.params[2].get('name') and t[1][1][2] == f.params[3].get('name'), wh(e), 'the reservation does not hold the value and notification channel of this request')
    # no other insertion into the cache anywhere
    for k, g in sorted(cx.P.fns.items()):
        if g.crate != 'opsqueue' or g is f: continue
        for n in PR.walk(g.body):
            c = PR.callee(n) if n['k'] in ('call', 'mcall') else None
            if c and 'moka' in c and last(c) in ('insert', 'get_with', 'or_insert_with', 'or_insert', 'invalidate_all'):
                cx.ob(f'{short(g.path)}: {last(c)}', False, n.get('sp') or g.where, 'reservations are created or dropped outside of try_reserve')


@rule('reserved-lookup', 'a chunk counts as reserved exactly while the cache holds an entry for its own key', 'C15', 'C19', floor=1)
def r_lookup(cx):
    f = cx.fn('Reserver::is_reserved')
    if not f: return
    for p in cx.paths(f):
        v = p.val
        cs = calls(v, 'contains_key') if isinstance(v, tuple) else []
        if v and v[0] == 'lit': cx.ob('is_reserved', False, f.where, 'the answer is constant'); continue
        if v and v[0] in ('un', 'not'): cx.ob('is_reserved', False, f.where, 'the answer is inverted'); continue
        if not cs:
            g = calls(v, 'get', 'is_some') if isinstance(v, tuple) else []
            if not g and p.out == 'val': cx.skip('is_reserved', show(v)[:80])
            continue
        cx.ob('is_reserved', v == cs[0] and param(cs[0][2][1]), f.where, 'the answer is not whether the cache holds the key')
    f = cx.P.fn('sqlite_reserved_chunk_lookup')
    if f is None: cx.skip('lookup function', 'not found'); return
    for p in cx.paths(f, atomic=cx.P.atoms('Reserver::is_reserved')):
        rs = [e for i, e in evs(p, 'sqlite3_result_int', 'sqlite3_result_int64')]
        for i, e in evs(p, 'is_reserved'):
            k = e.args[1]
            d = fields(k)
            vals = [[c for c in calls(d.get(n, ()), 'sqlite3_value_int64', 'sqlite3_value_int')] for n in ('submission_id', 'chunk_index')]
            def argno(cs):
                for c in cs:
                    for a in calls(c, 'add', 'offset'):
                        if lit(a[2][1]) is not None: return lit(a[2][1])
                    for x in terms(c):
                        if x[0] == 'index' and lit(x[2]) is not None: return lit(x[2])
                    return 0 if c else None
            for n in ('submission_id', 'chunk_index'):
                alt = [t for t in terms(d.get(n, ())) if t[0] == 'bin' and calls(t, 'sqlite3_value_int64', 'sqlite3_value_int')]
                cx.ob('looks up its arguments unchanged', not alt, wh(e), f'the {n} passed by the query is changed before it is looked up')
            if all(vals): cx.ob('looks up its arguments', [argno(v) for v in vals] == [0, 1], wh(e), 'the chunk looked up is not the one passed by the query')
            for r in rs:
                x = r.args[1]
                if any(t == e.res for t in terms(x)): cx.ob('answers the look-up', not any(t[0] in ('un', 'not') for t in terms(x)), wh(r), 'the answer is inverted')
                elif lit(x) is not None: cx.ob('answers the look-up', truth(p, e.res) is not None and bool(lit(x)) == truth(p, e.res), wh(r), 'the answer does not depend on the reservation')
            cx.ob('gives an answer', bool(rs), wh(e), 'no result is set')
        if not evs(p, 'is_reserved'):
            for r in rs: cx.ob('unanswerable look-up offers the chunk', lit(r.args[1]) == 0, wh(r), 'a chunk is hidden when its reservation cannot be looked up')


PIPE = ('Strategy::build_query', 'Dispatcher::register_lookups', 'Reserver::try_reserve', 'submission::db::get_submission', 'submission::db::get_submission_strategic_metadata', 'MetaState::increment', 'MetaState::decrement', 'Reserver::finish_reservation_sync', 'Reserver::finish_reservation')


@rule('handed-out-is-reserved', 'every chunk of a query is reserved under its own key, for the caller\'s channel, before it is handed out, and chunks that could not be reserved are dropped', 'C15', floor=4)
def r_handout(cx):
    f = cx.fn('Dispatcher::fetch_and_reserve_chunks')
    if not f: return
    lim = [p['name'] for p in f.params if 'usize' in str(p.get('ty')) or 'u32' in str(p.get('ty')) or 'NonZero' in str(p.get('ty'))]
    snd = [p['name'] for p in f.params if 'Sender' in str(p.get('ty'))]
    for p in cx.paths(f, atomic=cx.P.atoms(*PIPE)):
        for i, e in evs(p, 'try_reserve'):
            key = chunk_key(e.args[1])
            cx.ob('reserved under its own key', key is not None, wh(e), f'the key {show(e.args[1])[:80]} is not the chunk\'s own')
            cx.ob('reserved for the caller', len(e.args) > 3 and param(e.args[3]) and e.args[3][2] in snd, wh(e), 'the reservation notifies another channel')
            v = e.args[2]
            cx.ob('expiry names the chunk', chunk_key(v) is not None and chunk_key(v) == key, wh(e), 'the expiry notification would name another chunk')
        # closures of the pipeline: Some(chunk) only when reserved
        hofs = [h for h in p.ev if h.k == 'hof']
        for i, h in enumerate(p.ev):
            if h.k != 'endhof' or h.out != 'val': continue
            start = max((j for j, x in enumerate(p.ev[:i]) if x.k == 'hof' and x.closure == h.closure), default=0)
            tr = [e for e in p.ev[start:i] if e.k == 'call' and last(e.path) == 'try_reserve']
            for e in tr:
                ok = p.st.vari.get(e.res)
                v = h.val
                some = [x for x in terms(v) if x[0] == 'v' and last(x[1]) == 'Some']
                none = [x for x in terms(v) if x[0] == 'v' and last(x[1]) == 'None']
                if ok == 'Some': cx.ob('reserved chunks are handed out', bool(some), wh(e), 'a chunk is reserved but not handed out')
                if ok in ('None', None) and some and ok is not None: cx.ob('only reserved chunks', False, wh(e), 'a chunk that is reserved by someone else is handed out')
                if ok == 'None': cx.ob('only reserved chunks', bool(none) and not some, wh(e), 'a chunk that is reserved by someone else is handed out')
        if p.out == 'val' and p.result() != 'Err':
            v = p.pay() if p.result() == 'Ok' else p.val
            fm = calls(v, 'try_filter_map', 'filter_map', 'try_filter', 'filter') if isinstance(v, tuple) else []
            tk = calls(v, 'take', 'try_take') if isinstance(v, tuple) else []
            sq = [x for x in terms(v) if x[0] == 'sqlres'] if isinstance(v, tuple) else []
            if not sq: cx.skip('pipeline', 'the result is not a pipeline over the query'); continue
            cl = [c for c in fm if closure_reserves(cx, c, p)]
            cx.ob('every chunk passes the reservation', bool(cl), f.where, 'chunks of the query are handed out without being reserved')
            cx.ob('no more than asked for', bool(tk) and any(param(c[2][1]) and c[2][1][2] in lim for c in tk), f.where, 'the number of chunks is not limited to what was asked for')
            if tk and cl:
                # the limit counts chunks that are really handed out: it is applied after the filters
                inner = [c for c in tk for x in calls(c[2][0], 'try_filter_map', 'filter_map') if x in cl]
                cx.ob('limit after reserving', bool(inner), f.where, 'the limit counts chunks before they are reserved')
            for c in calls(v, 'try_buffer_unordered', 'buffer_unordered', 'buffered', 'try_buffered', 'try_chunks', 'ready_chunks', 'peekable'):
                cx.ob('no read-ahead', False, f.where, f'{last(c[1])} reserves chunks beyond the ones handed out')


def closure_reserves(cx, c, p):
    for a in c[2]:
        if isinstance(a, tuple) and a and a[0] == 'closure':
            n = p.I.nodes.get(a[1]) if hasattr(p.I, 'nodes') else None
            if n is None: continue
            if reaches(cx, n, {'try_reserve'}, 4): return True
    return False


def reaches(cx, node, names, depth, seen=None):
    """The expression calls one of the names, directly or through functions of the repository."""
    seen = seen if seen is not None else set()
    for n in PR.walk(node):
        c = PR.callee(n) if n['k'] in ('call', 'mcall') else ((n.get('res') or {}).get('path') if n['k'] == 'path' else None)
        if not c: continue
        if last(c) in names: return True
        g = cx.P.fns.get(c) or cx.P.fn(PR.canon(c)) if not c.startswith(('core::', 'std::', 'alloc::', 'tokio', 'futures')) else None
        if g is not None and g.path not in seen and depth > 0:
            seen.add(g.path)
            if reaches(cx, g.body, names, depth - 1, seen): return True
    return False


@rule('held-by-consumer', 'the chunks handed to a consumer are exactly those reserved for its request, all recorded as its own under their own keys, with its own limit and channel', 'C15', 'C16', floor=3)
def r_held(cx):
    f = cx.fn('ConsumerState::fetch_and_reserve_chunks')
    if not f: return
    for p in cx.paths(f, atomic=cx.P.atoms('Dispatcher::fetch_and_reserve_chunks')):
        cs = [e for i, e in evs(p, 'fetch_and_reserve_chunks')]
        if p.result() == 'Err' or p.out != 'val':
            for e in cs:
                if p.out == 'val': cx.ob('error means nothing reserved', p.st.vari.get(e.res) == 'Err', wh(e), 'chunks are reserved but an error is returned')
            continue
        if len(cs) != 1: cx.ob('one fetch', not cs and False, f.where, f'{len(cs)} fetches for one request'); continue
        e = cs[0]
        want = {'limit': 'usize', 'stale': 'Sender'}
        for a in e.args:
            if param(a): continue
        names = [a[2] for a in e.args if param(a)]
        pn = [q['name'] for q in f.params]
        for q in f.params:
            if 'usize' in str(q.get('ty')): cx.ob('limit passed on', q['name'] in names, wh(e), 'another limit is used than asked for')
            if 'Sender' in str(q.get('ty')): cx.ob('channel passed on', q['name'] in names, wh(e), 'another channel is notified on expiry')
            if 'Strategy' in str(q.get('ty')): cx.ob('strategy passed on', q['name'] in names, wh(e), 'another strategy is used than asked for')
        res = ('pl', e.res, 'Ok', 0)
        cx.ob('all handed out', p.pay() == res, f.where, 'what is returned is not what was reserved')
        ext = [x for i, x in evs(p, 'extend', 'insert', 'push')]
        own = [x for x in ext if any(is_field(t, 'reservations') for t in terms(x.args[0]))]
        for x in p.ev:
            if x.k == 'assign' and isinstance(x.lhs, tuple) and any(is_field(t, 'reservations') for t in terms(x.lhs)) and not any(is_field(t, 'reservations') for t in terms(x.rhs)):
                cx.ob('earlier ones kept', False, wh(x), 'the reservations the connection already holds are forgotten')
            elif x.k == 'call' and last(x.path) in ('clear', 'drain', 'retain', 'take', 'replace', 'swap', 'extract_if') and x.args and any(is_field(t, 'reservations') for t in terms(x.args[0])):
                cx.ob('earlier ones kept', False, wh(x), 'reservations the connection already holds are forgotten')
        if not own:
            loop = any(x.k == 'for0' and calls(x.a.get('iter', ()), 'fetch_and_reserve_chunks') for x in p.ev)
            if not loop: cx.ob('recorded as its own', False, f.where, 'reserved chunks are not recorded, so they are not released when the connection ends')
            continue
        for x in own:
            src = x.args[1]
            if last(x.path) == 'extend':
                cx.ob('recorded as its own', res in set(IN.subterms(src)) and not calls(src, 'skip', 'take', 'filter', 'step_by', 'skip_while', 'take_while', 'filter_map'), wh(x), 'not all reserved chunks are recorded')
            else: cx.ob('recorded as its own', chunk_key(src) is not None, wh(x), 'a chunk is recorded under another key')
        for h in p.ev:
            if h.k == 'endhof' and h.name == 'map' and fields(h.val).keys() >= {'submission_id', 'chunk_index'}:
                cx.ob('recorded under its own key', chunk_key(h.val) is not None, f.where, 'a chunk is recorded under another key')


@rule('release-own', 'a reservation is only released by the consumer that holds it', 'C15', floor=3)
def r_own(cx):
    f = cx.fn('Completer::handle_message')
    if f:
        for p in cx.paths(f, atomic=cx.P.atoms('chunk::db::complete_chunk', 'retry_or_fail_chunk', 'Dispatcher::finish_reservation', 'db::perform_explicit_wal_checkpoint')):
            for i, e in evs(p, 'finish_reservation'):
                kind = next((last(str(c[2])) for c, v in p.st.path if c[0] == 'is' and v and c[2] in ('Complete', 'Fail')), None) or next((x for x in ('Complete', 'Fail') if any(t[0] == 'pl' and t[2] == x for t in terms(e.args[2]))), '?')
                rem = [x.res for j, x in evs(p, 'remove') if j < i]
                cx.ob(f'{kind} report releases only its own reservation', any(truth(p, r) is True for r in rem), wh(e), 'a late report of a consumer whose reservation expired releases the reservation another consumer holds now')
    g = cx.P.fn('ConsumerState::drop')
    if g:
        # the set of own reservations must lose the ones that expired
        prune = False
        for k, h in cx.P.fns.items():
            if h.crate != 'opsqueue': continue
            for n in PR.walk(h.body):
                if n['k'] == 'mcall' and n['m'] in ('remove', 'take', 'retain') and 'HashSet' in str(n.get('path') or '') and 'consumer::server::conn' in k: prune = True
        cx.ob('disconnect releases only its own reservations', prune, g.where, 'a consumer that disconnects after a reservation of its expired releases the reservation another consumer holds now')


# ------------------------------------------------------------------------------------------------ C16
@rule('expiry', 'reservations live for the configured time, are not evicted for another reason, and an expired one is reported to its holder with its own chunk', 'C16', 'C15', floor=3)
def r_expiry(cx):
    f = cx.fn('Reserver::new')
    if not f: return
    ran = False
    for p in cx.paths(f):
        b = [e for i, e in evs(p, 'build', 'build_with_hasher', sub='moka')]
        t = [e for i, e in evs(p, 'time_to_live', sub='moka')]
        cx.ob('lives for the configured time', bool(t) and all(param(e.args[1]) for e in t), f.where, 'the lifetime of a reservation is not the configured one')
        for i, e in evs(p, 'max_capacity', 'time_to_idle', 'expire_after', 'weigher', sub='moka'):
            cx.ob(f'no {last(e.path)}', last(e.path) == 'weigher', wh(e), 'reservations may disappear before or outlive the configured time')
        ls = [e for i, e in evs(p, 'eviction_listener', sub='moka')]
        cx.ob('holder is notified', bool(ls), f.where, 'nobody is told when a reservation expires')
        exp = [v for c, v in p.st.path if c[0] == 'bin' and c[1] == '==' and 'Expired' in show(c)] + [v for c, v in p.st.path if c[0] == 'is' and 'Expired' in str(c[2])] + [True for c, v in p.st.path if c[0] == 'call' and 'was_evicted' in c[1] and v]
        sent = evs(p, 'send', 'try_send')
        if any(e.k == 'hof' and e.name == 'eviction_listener' for e in p.ev):
            ran = True
            if exp and exp[0]:
                cx.ob('holder is told on expiry', bool(sent), f.where, 'an expired reservation is not reported to its holder')
                for i, e in sent:
                    a, c = e.args[1], e.args[0]
                    ok = a[0] == 'field' and c[0] == 'field' and a[1] == c[1] and a[2] in ('0', 0) and c[2] in ('1', 1)
                    cx.ob('holder is told which chunk', ok, wh(e), 'the notification does not name the expired chunk to its holder')
            elif exp and not exp[0]:
                cx.ob('only expiry is reported', not sent, f.where, 'a released reservation is reported as expired')
            elif not exp:
                cx.ob('only expiry is reported', not sent, f.where, 'every removal is reported as expired' if sent else '')
                cx.ob('holder is told on expiry', bool(sent), f.where, 'an expired reservation is not reported to its holder')
    if not ran: cx.skip('listener', 'the eviction listener could not be followed')
    g = cx.fn('Dispatcher::new')
    if g:
        for p in cx.paths(g, atomic=cx.P.atoms('Reserver::new')):
            for i, e in evs(p, 'new', sub='Reserver'): cx.ob('configured time reaches the reserver', param(e.args[0]), wh(e), 'the configured expiration is not used')


@rule('release-removes', 'finishing a reservation removes its own entry: at once, or through the delayed removals after a bounded wait; the background task performs them until shutdown', 'C15', 'C16', 'C17', floor=5)
def r_release(cx):
    f = cx.fn('Reserver::finish_reservation')
    if f:
        keyp = f.params[1].get('name')
        for p in cx.paths(f):
            if p.out != 'val': continue
            rem = [e for i, e in evs(p, 'remove', 'invalidate', sub='moka')]
            ins = [(i, e) for i, e in evs(p, 'insert', 'insert_at') if 'delay_queue' in e.path or 'pending' in show(e.args[0])]
            d = [(c, v) for c, v in p.st.path if param(c)]
            absent = p.result() == 'None' and not rem and not ins
            if absent:
                known = any(v == 'None' for t, v in p.st.vari.items() if calls(t, 'get', 'contains_key', 'remove')) or any(v is False for c, v in p.st.path if calls(c, 'contains_key'))
                cx.ob('present reservations are finished', known, f.where, 'a reservation that exists is left in place'); continue
            for e in rem: cx.ob('removes its own entry', param(e.args[1]) and e.args[1][2] == keyp, wh(e), 'another entry is removed')
            for i, e in ins:
                cx.ob('schedules its own entry', param(e.args[1]) and e.args[1][2] == keyp, wh(e), 'another entry is scheduled for removal')
                du = e.args[2]
                secs = [lit(x) for x in terms(du) if lit(x) is not None]
                unit = calls(du, 'from_secs', 'from_millis', 'from_mins', 'from_micros', 'from_nanos')
                if unit and secs:
                    ms = secs[0] * {'from_secs': 1000, 'from_millis': 1, 'from_mins': 60000, 'from_micros': 0.001, 'from_nanos': 1e-6}[last(unit[0][1])]
                    cx.ob('delay bounded', ms <= 60000, wh(e), f'a finished chunk stays reserved for {ms / 1000:g} s')
                    cx.ob('delay outlives running queries', ms >= 100, wh(e), f'a finished chunk stays reserved for {ms:g} ms only, so a query already running may hand it out again')
            cx.ob('entry goes', bool(rem) or bool(ins), f.where, 'the reservation is not removed')
            if d:
                want = d[0][1]
                cx.ob('delayed when asked' if want else 'at once when asked', (bool(ins) and not rem) if want else bool(rem), f.where, 'the reservation is released at once although a delay was asked for' if want else 'the reservation is not released at once')
            elif rem or ins: cx.ob('delay honoured', False, f.where, 'the delay asked for is ignored')
            if p.result() == 'Some':
                cx.ob('reports when it was reserved', any(t[0] == 'field' and t[2] in ('2', 2) for t in terms(p.pay())), f.where, 'the time of reservation is not returned')
    g = cx.fn('Reserver::finish_reservation_sync')
    if g:
        for p in cx.paths(g):
            rem = [e for i, e in evs(p, 'remove', 'invalidate', sub='moka')]
            cx.ob('sync release removes its own entry', len(rem) == 1 and param(rem[0].args[1]), g.where, 'the entry is not removed')
    h = cx.fn('Dispatcher::finish_reservations_sync')
    if h:
        for p in cx.paths(h):
            it = [e for e in p.ev if e.k == 'for']
            skipb = [e for e in p.ev if e.k == 'for0']
            for e in it:
                rem = [x for i, x in evs(p, 'remove', 'finish_reservation_sync')]
                cx.ob('each of the reservations is released', bool(rem) and any(t[0] == 'elem' for x in rem for t in terms(x.args[1])), h.where, 'a reservation in the list is not released')
                cx.ob('all of the reservations', not calls(e.iter, 'take', 'skip', 'filter', 'step_by') and any(x.k == 'endfor' and x.how == 'next' for x in p.ev), h.where, 'not all reservations in the list are released')


@rule('background', 'the background task expires and purges reservations again and again until shutdown, and is started with the server', 'C16', floor=4)
def r_bg(cx):
    f = cx.fn('Reserver::run_pending_tasks_periodically')
    if f:
        ps = spawned_paths(cx, f, atomic=cx.P.atoms('Reserver::run_pending_tasks'))
        if not ps: cx.skip('task', 'no spawned task found')
        for p in ps:
            if p.out == 'val':
                stop = [e for e in p.ev if e.k == 'branch' and calls(e.fut, 'cancelled')] or [c for c, v in p.st.path if calls(c, 'run_until_cancelled', 'run_until_cancelled_owned', 'is_cancelled') and v]
                cx.ob('ends only at shutdown', bool(stop), f.where, 'the task ends although the server runs on')
            elif p.out == 'loop':
                cx.ob('does its work each round', bool(evs(p, 'run_pending_tasks')), f.where, 'a round does not expire or purge reservations')
                cx.ob('waits', bool([e for e in p.ev if e.k == 'branch' and calls(e.fut, 'sleep', 'tick', 'sleep_until')] or evs(p, 'sleep', 'tick')), f.where, 'the task spins')
            else: cx.ob('does not panic', p.out != 'panic', f.where, 'the task may panic')
            for e in p.ev:
                if e.k == 'select' and any(calls(x, 'sleep', 'tick', 'sleep_until') for x in e.futs):
                    cx.ob('goes on by itself', any(calls(x, 'sleep', 'tick', 'sleep_until') for i, x in enumerate(e.futs) if i not in e.off), wh(e), 'under some condition the task waits for the shutdown only, and never looks again for what expired')
    g = cx.fn('Reserver::run_pending_tasks')
    if g:
        for p in cx.paths(g):
            if p.out == 'val':
                cx.ob('expires entries', any(cache_call(e) and last(e.path) == 'run_pending_tasks' for e in p.ev), g.where, 'expired reservations are not processed')
                cx.ob('purges delayed releases', bool(evs(p, 'next', 'poll_expired', 'try_next', 'poll_next')), g.where, 'delayed releases are never performed')
            # an entry was taken: the innermost answer of the queue is `Some`
            ans = {t: v for t, v in p.st.vari.items() if v in ('Some', 'None') and calls(t, 'next', 'now_or_never', 'try_next', 'poll_expired')}
            got = [t for t, v in ans.items() if v == 'Some' and not any(u != t and t in list(terms(u)) for u in ans)]
            if got:
                rem = [e for i, e in evs(p, 'remove', 'invalidate', sub='moka')]
                cx.ob('purged key is removed', bool(rem) and any(calls(e.args[1], 'next', 'get_ref', 'into_inner', 'now_or_never', 'try_next', 'poll_expired') for e in rem), g.where, 'a delayed release is dropped without removing the reservation')
                cx.ob('continues', p.out in ('loop', 'val'), g.where, '')
    h = cx.fn('Dispatcher::run_pending_tasks_periodically')
    if h:
        for p in cx.paths(h, atomic=cx.P.atoms('Reserver::run_pending_tasks_periodically')):
            cx.ob('dispatcher starts it', bool(evs(p, 'run_pending_tasks_periodically')), h.where, 'the background task is not started')
    run = [k for k, f in cx.P.fns.items() if f.crate.startswith('opsqueue') and 'dispatcher' not in k and any(n['k'] == 'mcall' and n['m'] == 'run_pending_tasks_periodically' for n in PR.walk(f.body))]
    cx.ob('server starts it', bool(run), 'opsqueue/src/consumer/server/mod.rs', 'no part of the server starts the background task')


@rule('drop-releases', 'when a connection ends, however it ends, each chunk it still holds is released', 'C16', floor=2)
def r_drop(cx):
    f = cx.P.fn('ConsumerState::drop')
    if f is None:
        it = [k for k in cx.P.items if k.endswith('ConsumerState')]
        if it: cx.ob('released on drop', False, cx.P.items[it[0]].get('sp') or 'opsqueue/src/consumer/server/state.rs', 'nothing releases the reservations of a connection that ends')
        else: cx.skip('released on drop', 'ConsumerState not found')
        return
    for p in cx.paths(f, atomic=cx.P.atoms('Dispatcher::finish_reservations_sync', 'Reserver::finish_reservation_sync')):
        if p.out == 'panic': continue
        rel = evs(p, 'finish_reservations_sync', 'finish_reservation_sync')
        loop0 = any(e.k == 'for0' for e in p.ev)
        if not rel and loop0: continue
        cx.ob('released on drop', bool(rel), f.where, 'some path of the drop releases nothing')
        for i, e in rel:
            a = e.args[1]
            cx.ob('all its reservations', any(is_field(t, 'reservations') for t in terms(a)) and not calls(a, 'take', 'skip', 'filter', 'step_by'), wh(e), 'not all reservations of the connection are released')
            cx.ob('through the shared dispatcher', any(is_field(t, 'server_state') or is_field(t, 'dispatcher') for t in terms(e.args[0])), wh(e), '')
    # every connection owns its own state
    n = cx.fn('ConsumerState::new')
    if n:
        for p in cx.paths(n):
            r = fields(p.val).get('reservations')
            cx.ob('own set of reservations', r is not None and not any(x[0] == 'param' for x in terms(r)), n.where, 'connections share one set of reservations')


@rule('reserve-failure', 'a chunk that was reserved but turns out to be gone is released again', 'C16', floor=1)
def r_joinfail(cx):
    f = cx.fn('Dispatcher::join_chunk_with_submission_info', 'Dispatcher::fetch_and_reserve_chunks')
    if not f or 'join' not in f.name: return
    for p in cx.paths(f, atomic=cx.P.atoms(*PIPE)):
        if p.result() == 'Ok' and p.pay() is not None and p.pay()[0] == 'v' and last(p.pay()[1]) == 'None':
            if any(e.k == 'for0' for e in p.ev): continue
            rel = evs(p, 'finish_reservation_sync', 'remove', 'finish_reservation')
            cx.ob('released when gone', bool(rel), f.where, 'a chunk is dropped from the answer but stays reserved')


# ------------------------------------------------------------------------------------------------ C17
HM = ('chunk::db::complete_chunk', 'retry_or_fail_chunk', 'Dispatcher::finish_reservation', 'db::perform_explicit_wal_checkpoint')


@rule('record-then-release', 'each reported outcome is written to the database before its reservation is released, and it is released on every outcome of the write', 'C17', floor=6)
def r_order(cx):
    f = cx.fn('Completer::handle_message')
    if not f: return
    for p in cx.paths(f, atomic=cx.P.atoms(*HM)):
        if p.out == 'panic': continue
        rec = evs(p, 'complete_chunk', 'retry_or_fail_chunk')
        rel = evs(p, 'finish_reservation')
        for i, e in rec:
            kind = 'completion' if last(e.path) == 'complete_chunk' else 'failure'
            st = p.st.vari.get(e.res)
            cx.ob(f'{kind}: released' + (' when the write failed' if st == 'Err' else ''), len(rel) == 1, wh(e), f'the reservation is {"released twice" if len(rel) > 1 else "not released"} after the write {"failed" if st == "Err" else "succeeded" if st == "Ok" else ""}')
            for j, r in rel:
                cx.ob(f'{kind}: written first', j > i, wh(r), 'the chunk is released before its outcome is recorded')
                cx.ob(f'{kind}: own chunk released', r.args[2] == e.args[0], wh(r), 'another chunk is released than the one reported')
                d = r.args[3]
                if kind == 'completion': cx.ob('completion: release delayed', lit(d) is True or (st == 'Err' and lit(d) is not None), wh(r), 'a completed chunk is released at once, so a query already running can hand it out again')
                else:
                    perm = ('pl', e.res, 'Ok', 0)
                    t = truth(p, perm)
                    if st == 'Ok' or st is None:
                        if d == perm: ok = True
                        elif lit(d) is not None and t is not None: ok = lit(d) == t
                        elif st is None and perm in set(IN.subterms(d)) and not any(x[0] in ('un', 'not') for x in terms(d)): ok = True
                        elif lit(d) is not None: ok = False
                        elif any(x[0] in ('un', 'not') for x in terms(d)): ok = False
                        else: ok = None
                        if ok is None: cx.skip('failure: delay', show(d)[:100])
                        else: cx.ob('failure: delayed exactly when final', ok, wh(r), 'the delay of the release does not follow whether the chunk failed for good')
            own = [x for x in evs(p, 'remove') if x[1].args[1:] and x[1].args[1] == e.args[0]]
            cx.ob(f'{kind}: no longer held', bool(own), wh(e), 'the chunk stays in the set of chunks the consumer holds')
            for j, x in own: cx.ob(f'{kind}: held until written', j > i, wh(x), 'the consumer gives up the chunk before its outcome is recorded')
        if rel and not rec: cx.ob('outcome recorded', False, wh(rel[0][1]), 'a chunk is released although no outcome was recorded')
    # nobody else releases a chunk on a report
    for n in ('ConsumerState::complete_chunk', 'ConsumerState::fail_chunk'):
        g = cx.P.fn(n)
        if g is None: continue
        for p in cx.paths(g):
            bad = evs(p, 'finish_reservation', 'finish_reservation_sync', 'finish_reservations_sync') + [x for x in evs(p, 'remove') if 'reservations' in show(x[1].args[0])]
            cx.ob(f'{g.name} releases nothing', not bad, g.where, 'the chunk is released before its outcome is recorded')
    g = cx.fn('Dispatcher::finish_reservation')
    if g:
        for p in cx.paths(g, atomic=cx.P.atoms('Reserver::finish_reservation', 'submission::db::get_submission_strategic_metadata', 'MetaState::decrement')):
            es = [e for i, e in evs(p, 'finish_reservation')]
            cx.ob('dispatcher releases', len(es) == 1, g.where, 'the reservation is not released')
            for e in es:
                cx.ob('dispatcher passes chunk and delay on', param(e.args[1]) and e.args[1][2] == g.params[2].get('name') and param(e.args[2]) and e.args[2][2] == g.params[3].get('name'), wh(e), 'another chunk or delay is used')


@rule('final-or-retry', 'a failure is reported as final exactly when it moved the chunk out of the pending ones', 'C17', floor=2)
def r_final(cx):
    from ..store import effs, MUT, CF, SF
    f = cx.fn('chunk::db::retry_or_fail_chunk')
    if not f: return
    for p in cx.paths(f):
        if p.result() != 'Ok': continue
        v = p.pay()
        b = lit(v)
        if b is None: cx.skip('result', show(v)[:80]); continue
        moved = any(x.kind == 'ins' and x.table in (CF, SF) for e in p.ev if e.k == 'sql' for x in effs(cx.w, e))
        cx.ob(f'reported as {"final" if b else "retry"}', b == moved, f.where, 'a chunk that failed for good is reported as to be retried' if moved else 'a chunk to be retried is reported as failed for good')
