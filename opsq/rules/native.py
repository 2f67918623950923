"""The native Python module: interpreter lock (C33)."""
from ..core import rule, short, wh, TECH
from ..interp import show, terms, last, calls
from .. import interp as IN, prog as PR
from .util import *
from .consumer import pl_eq, has
from .dispatch import reaches

TECH['C33'] = 'typestate of the interpreter lock over inlined paths of every exposed method; dataflow of the futures handed to the runtime'

BLOCK = ('block_on',)
ALSO = ('blocking_recv', 'blocking_send', 'blocking_lock', 'blocking_read', 'blocking_write', 'recv', 'recv_timeout', 'join', 'park', 'park_timeout', 'wait', 'wait_timeout')
CLIENT = ('producer::client::Client::count_submissions', 'producer::client::Client::insert_submission', 'producer::client::Client::cancel_submission', 'producer::client::Client::get_submission',
          'producer::client::Client::lookup_submission_id_by_prefix', 'producer::client::Client::lookup_submission_ids_by_strategic_metadata', 'producer::client::Client::server_version',
          'OuterClient::reserve_chunks', 'OuterClient::complete_chunk', 'OuterClient::fail_chunk', 'ObjectStoreClient::store_chunks', 'ObjectStoreClient::store_chunk', 'ObjectStoreClient::retrieve_chunks', 'ObjectStoreClient::retrieve_chunk', 'ObjectStoreClient::new', 'OuterClient::new', 'producer::client::Client::new')


def pyfns(cx):
    return {k: f for k, f in cx.P.fns.items() if f.crate != 'opsqueue' and f.crate.startswith('opsqueue_python') and f.body is not None}


def exposed(cx):
    """Methods callable from Python."""
    fs = pyfns(cx)
    out = {}
    for k, f in fs.items():
        pre, n = k.rsplit('::', 1)
        if f'{pre}::__pymethod_{n}__' in fs: out[k] = f
    return out


def direct(cx, names):
    return {k: f for k, f in pyfns(cx).items() if '__pymethod' not in k and any(last(PR.callee(n) or '') in names for n in PR.walk(f.body) if n['k'] in ('call', 'mcall'))}


def blockers(cx):
    """Functions of the module that wait, directly or through another one."""
    if 'blockers' in cx.w.memo: return cx.w.memo['blockers']
    fs, b = pyfns(cx), direct(cx, BLOCK)
    while True:
        names = {f.path for f in b.values()}
        n = {k: f for k, f in fs.items() if k not in b and '__pymethod' not in k and any((PR.callee(x) or '') in names for x in PR.walk(f.body) if x['k'] in ('call', 'mcall'))}
        if not n: break
        b.update(n)
    cx.w.memo['blockers'] = b
    return b


def lock_walk(p, held):
    """(event, lock held, scopes) along a path."""
    st = [held]
    for e in p.ev:
        if e.k == 'scope':
            if e.name in ('attach', 'with_gil'): st.append(True)
            elif e.name in ('detach', 'allow_threads'): st.append(False)
            else:
                yield e, st[-1]
                st.append(st[-1])
        elif e.k == 'endscope': st.pop() if len(st) > 1 else None
        else: yield e, st[-1]


@rule('gil-released', 'no method called from Python waits for the native runtime, or for another thread, while holding the interpreter lock', 'C33', floor=10)
def r_released(cx):
    ex, bl = exposed(cx), blockers(cx)
    at = tuple(f.path for k, f in bl.items() if k not in ex) + cx.P.atoms(*CLIENT)
    bpaths = {f.path for k, f in bl.items() if k not in ex}
    for k, f in sorted(ex.items()):
        if k not in bl and not any(last(PR.callee(n) or '') in ALSO for n in PR.walk(f.body) if n['k'] in ('call', 'mcall')): continue
        try: ps = cx.paths(f, atomic=at, tag='gil')
        except IN.Limit as e: cx.skip(short(f.path), str(e)); continue
        for p in ps:
            for e, held in lock_walk(p, True):
                b = e.k == 'scope' and e.name == 'block_on' or e.k == 'call' and e.path in bpaths or e.k == 'call' and last(e.path) in ALSO and e.path.startswith(('tokio', 'std::sync', 'std::thread', 'crossbeam')) or e.k == 'call' and e.path == 'std::thread::sleep'
                if b: cx.ob(short(f.path), not held, wh(e), f'{short(f.path)} waits in {last(e.path)} while holding the interpreter lock')
    # helpers that themselves take the lock and then wait
    for k, f in sorted(bl.items()):
        if k in ex: continue
        try: ps = cx.paths(f, atomic=tuple(x for x in at if x != f.path), tag='gil')
        except IN.Limit as e: cx.skip(short(f.path), str(e)); continue
        for p in ps:
            for e, held in lock_walk(p, False):
                if e.k == 'scope' and e.name == 'block_on' or e.k == 'call' and e.path in bpaths:
                    cx.ob(f'{short(f.path)} inside', not held, wh(e), f'{short(f.path)} waits while holding the interpreter lock')


@rule('interruptible', 'whatever a method called from Python waits for on the native runtime, it also waits for a pending signal', 'C33', floor=2)
def r_interruptible(cx):
    for k, f in sorted(direct(cx, BLOCK).items()):
        try: ps = cx.paths(f, atomic=cx.P.atoms(*CLIENT), tag='int')
        except IN.Limit as e: cx.skip(short(f.path), str(e)); continue
        for p in ps:
            depth, cur, ok = 0, None, False
            for e in p.ev:
                if e.k == 'scope' and e.name == 'block_on' and cur is None: cur, ok = e, False
                elif cur is not None and e.k == 'select':
                    if any(signals(cx, t) for t in e.futs): ok = True
                elif cur is not None and e.k == 'call' and last(e.path) == 'check_signals': ok = True
                elif cur is not None and e.k == 'endscope' and e.name == 'block_on':
                    cx.ob(short(f.path), ok, wh(cur), f'{short(f.path)} waits without noticing signals')
                    cur = None


def signals(cx, t):
    """A future that checks for signals."""
    if t[0] == 'asyncfn':
        g = IN.Interp._fns.get(t[1])
        return g is not None and reaches(cx, g.body, ('check_signals',), 3)
    if t[0] == 'async':
        nd = None
        for x in cx.w.memo.get('asyncnodes', ()): pass
        g = IN.Interp._fns.get(t[4]) if not isinstance(t[4], PR.Fn) else t[4]
        return g is not None and reaches(cx, g.body, ('check_signals',), 3)
    return bool(calls(t, 'check_signals', 'check_signals_in_background'))


@rule('interrupt-race', 'waiting ends with the interrupt when one is pending and otherwise with the very result waited for', 'C33', floor=3)
def r_race(cx):
    f = cx.fn('common::run_unless_interrupted')
    if f is not None:
        for p in cx.paths(f):
            sel = [e for e in p.ev if e.k == 'select']
            if not sel:
                if p.out == 'val': cx.ob('select', False, f.where, 'the future is awaited without looking for signals')
                continue
            s = sel[0]
            cx.ob('waits for both', any(param(t) for t in s.futs) and any(signals(cx, t) for t in s.futs), wh(s), 'the future and the signal check are not both waited for')
            br = [e for e in p.ev if e.k == 'branch' and e.id == s.id and e.index >= 0]
            if not br or p.out != 'val': continue
            if param(br[0].fut): cx.ob('result', p.val == br[0].fut or has(p.val, br[0].fut), f.where, f'the result waited for is replaced by {show(p.val)[:50]}')
            elif signals(cx, br[0].fut): cx.ob('interrupt', p.result() == 'Err' and bool(calls(p.val, 'check_signals', 'take')), f.where, f'a pending interrupt ends the call with {show(p.val)[:50]}')
    g = cx.fn('common::check_signals_in_background')
    if g is not None:
        for p in cx.paths(g):
            cs = [e for i, e in evs(p, 'check_signals')]
            if p.out == 'val' or p.out == 'loop':
                cx.ob('checks', bool(cs), g.where, 'signals are not checked in each round')
            for e, held in lock_walk(p, False):
                if e.k == 'call' and last(e.path) == 'check_signals': cx.ob('lock held', held, wh(e), 'signals are checked without holding the interpreter lock')
            for e in cs:
                err = p.st.vari.get(e.res) == 'Err' or any(c == ('is', e.res, 'Err') and v or c == ('is', e.res, 'Ok') and not v for c, v in p.st.path)
                dec = e.res in p.st.vari or any(has(c, e.res) for c, v in p.st.path) or p.val is not None and has(p.val, e.res)
                cx.ob('looked at', dec or p.out == 'panic', wh(e), 'the result of the signal check is dropped: the interrupt is lost')
                if err: cx.ob('interrupt ends', p.out == 'val' and has(p.val, e.res), wh(e), 'a pending interrupt is dropped and the wait goes on')
            for i, e in evs(p, 'sleep'):
                ms = millis(e.args[0])
                if ms is not None: cx.ob('interval', ms <= 5000, wh(e), f'signals are only looked at every {ms} ms')


def millis(t):
    while t[0] == 'v' and len(t[2]) == 1: t = t[2][0]
    if t[0] == 'call' and len(t[2]) == 1 and lit(t[2][0]) is not None:
        return {'from_millis': 1, 'from_secs': 1000, 'from_mins': 60000, 'from_hours': 3600000, 'from_micros': 0.001, 'from_secs_f64': 1000}.get(last(str(t[1])), None) and lit(t[2][0]) * {'from_millis': 1, 'from_secs': 1000, 'from_mins': 60000, 'from_hours': 3600000, 'from_micros': 0.001, 'from_secs_f64': 1000}[last(str(t[1]))]
    return None


@rule('poll-detached', 'the detaching future polls the wrapped one with the lock released, with the waker it was given, and returns that very answer', 'C33', floor=4)
def r_poll(cx):
    fs = [f for k, f in pyfns(cx).items() if f.name == 'poll' and 'Future' in (f.trait or k)]
    if not fs: cx.skip('poll', 'no hand-written future'); return
    for f in fs:
        for p in cx.paths(f):
            polls = []
            for e, held in lock_walk(p, True):
                if e.k == 'call' and last(e.path) == 'poll': polls.append((e, held))
            if p.out == 'panic': cx.ob('no panic', False, f.where, 'polling can panic'); continue
            own = [x for x in polls if any(y[0] == 'field' and y[2] == '0' or param(y, 'self') for y in terms(x[0].args[0]))]
            cx.ob('polls', len(polls) == 1 and len(own) == 1, f.where, 'the wrapped future is not polled exactly once')
            for e, held in own:
                cx.ob('lock released', not held, wh(e), 'the wrapped future is polled with the interpreter lock held')
                cxp = [y for y in terms(e.args[1]) if param(y)] if len(e.args) > 1 else []
                if cxp: cx.ob('waker', True)
                elif calls(e.args[1], 'noop') or any(x[0] == 'call' and 'noop' in str(x[1]) for x in terms(e.args[1])) or not [y for y in terms(e.args[1]) if y[0] in ('param', 'unk', 'elem')]:
                    cx.ob('waker', False, wh(e), 'the wrapped future is polled with another waker, so it is never woken up')
                else: cx.skip('waker', show(e.args[1])[:60])
                if p.val == e.res: cx.ob('answer', True)
                elif has(p.val, e.res): cx.skip('answer', show(p.val)[:60])
                elif p.val[0] == 'v' and last(p.val[1]) in ('Pending', 'Ready'):
                    v = p.st.vari.get(e.res)
                    if v is None: v = next((c[2] if t else {'Ready': 'Pending', 'Pending': 'Ready'}.get(c[2]) for c, t in p.st.path if isinstance(c, tuple) and c[0] == 'is' and c[1] == e.res), None)
                    cx.ob('answer', v == last(p.val[1]) and v == 'Pending', f.where, f'the wrapped future answers {v} but {last(p.val[1])} is returned')
                else: cx.ob('answer', False, f.where, f'{show(p.val)[:50]} is returned instead of the answer of the wrapped future')
    for k, f in sorted(pyfns(cx).items()):
        if f.name != 'async_detach': continue
        for p in cx.paths(f): cx.ob('wraps', any(param(y) for y in terms(p.val)), f.where, 'the future given is not the one wrapped')


@rule('runtime', 'a future or function handed to the runtime is run there to its end, once, and its handle returned', 'C33', floor=3)
def r_runtime(cx):
    for k, f in sorted(pyfns(cx).items()):
        if 'generic::Runtime' not in k or f.name not in ('spawn', 'spawn_blocking'): continue
        for p in cx.paths(f):
            if p.out != 'val': cx.ob(f.name + ': no panic', False, f.where, f'{f.name} can panic'); continue
            sp = [e for e in p.ev if e.k == 'spawn']
            cs = [e for e in p.ev if e.k == 'call' and last(e.path) in ('spawn', 'spawn_blocking', 'spawn_local', 'spawn_on')]
            allsp = sp + [c for c in cs if c.res not in [s.res for s in sp]]
            cx.ob(f'{f.name}: started', len(allsp) == 1, f.where, f'what is handed to {f.name} is not started exactly once')
            if len(allsp) != 1: continue
            e = allsp[0]
            if f.name == 'spawn_blocking':
                cx.ob('spawn_blocking: own threads', last(e.path) == 'spawn_blocking', wh(e), 'blocking work runs on the only worker of the runtime')
            elif last(e.path) == 'spawn_blocking': cx.skip('spawn', 'runs on a blocking thread')
            a = e.args[-1]
            cx.ob(f'{f.name}: handle', p.val == e.res or has(p.val, e.res), f.where, 'the handle of the task is not returned')
            if param(a): cx.ob(f'{f.name}: runs it', True); continue
            if a[0] not in ('async', 'asyncfn', 'closure'):
                if any(param(y) for y in terms(a)): cx.skip(f.name, f'{show(a)[:60]}')
                else: cx.ob(f'{f.name}: runs it', False, wh(e), 'something else than what was handed over is run')
                continue
            for q in cx.w.value_paths(a, p.I, p.st):
                new = q.ev[len(p.ev):] if q.ev[:len(p.ev)] == p.ev else q.ev
                aw = [x for x in new if x.k == 'await' and (param(x.val) or has(x.val, ('param',))) or x.k == 'await' and any(param(y) for y in terms(x.val))]
                ex = [x for x in aw if param(x.val)]
                run = [x for x in new if x.k == 'call' and x.path == '<indirect>' and param(x.args[0])]
                if ex or run or (isinstance(q.val, tuple) and param(q.val)): cx.ob(f'{f.name}: runs it', True)
                elif aw:
                    cut = any(last(str(y[1])) in ('timeout', 'timeout_at', 'now_or_never', 'abortable', 'or_cancel', 'select') for x in aw for y in terms(x.val) if y[0] == 'call')
                    if cut: cx.ob(f'{f.name}: runs it', False, wh(aw[0]), 'the future handed over can be dropped before it is finished')
                    else: cx.skip(f.name, show(aw[0].val)[:60])
                elif any(x.k == 'select' and any(param(t) for t in x.futs) for x in new): cx.ob(f'{f.name}: runs it', False, wh(e), 'the future handed over can be dropped before it is finished')
                else: cx.ob(f'{f.name}: runs it', False, wh(e), 'what was handed over is not run to its end')
    for k, f in sorted(pyfns(cx).items()):
        if f.name == 'future_into_py':
            for p in cx.paths(f):
                cs = [e for i, e in evs(p, 'future_into_py', 'future_into_py_with_locals', 'local_future_into_py')]
                if not cs: cx.skip('future_into_py', 'no conversion found'); continue
                fut = [x for x in cs[0].args if param(x) and x[2] != 'py']
                cx.ob('future_into_py: own future', any(has(x, ('param', f.path, q.get('name'))) for x in cs[0].args for q in f.params if q.get('name') not in ('py',)) or bool(fut), wh(cs[0]), 'another future is converted')
                cx.ob('future_into_py: own runtime', 'tokio::future_into_py' not in cs[0].path, wh(cs[0]), 'the future runs on another runtime than the one in scope')


@rule('task-locals', 'the event loop given with a task is in scope while it runs and can be read there, and reading it elsewhere does not panic', 'C33', floor=3)
def r_locals(cx):
    got = False
    for k, f in sorted(pyfns(cx).items()):
        if 'generic::ContextExt' not in k: continue
        got = True
        if f.name == 'scope':
            for p in cx.paths(f):
                if p.out != 'val': continue
                sc = [e for i, e in evs(p, 'scope') if 'task_local' in e.path or 'LocalKey' in e.path]
                fut = ('param', f.path, f.params[-1].get('name'))
                loc = ('param', f.path, f.params[0].get('name'))
                cx.ob('scope: used', bool(sc), f.where, 'the task locals are not in scope while the task runs')
                if not sc: continue
                e = sc[-1]
                cx.ob('scope: future', has(e.args[-1], fut) and has(p.val, e.res), wh(e), 'the future given is not run inside the scope')
                cell = e.args[1]
                ok = has(cell, loc) or any(x.k == 'call' and last(x.path) in ('set', 'get_or_init', 'try_insert', 'replace', 'insert') and x.args and x.args[0] == cell and any(has(y, loc) for y in x.args[1:]) for x in p.ev)
                cx.ob('scope: locals', ok, wh(e), 'the scope does not hold the task locals given')
        elif f.name == 'get_task_locals':
            vals = []
            for p in cx.paths(f):
                cx.ob('get: no panic', p.out == 'val', f.where, 'reading the task locals outside of a task panics')
                for i, e in evs(p, 'with', 'get'):
                    if 'LocalKey' in e.path: cx.ob('get: no panic', last(e.path) != 'with' and last(e.path) != 'get', wh(e), 'reading the task locals outside of a task panics')
                if p.out == 'val': vals.append((p, p.val))
            real = [v for p, v in vals if calls(v, 'try_with', 'get', 'with', 'cloned') or any(x[0] == 'call' for x in terms(v))]
            cx.ob('get: returns', bool(real), f.where, 'the task locals are never returned')
            for p, v in vals:
                for e in p.ev:
                    if e.k == 'endhof' and e.name in ('try_with',):
                        cx.ob('get: reads', bool(calls(e.val, 'get', 'clone', 'clone_ref')) or not (e.val[0] in ('v', 'lit', 'default')), wh(e), 'the task locals in scope are not returned')
    if not got: cx.skip('task locals', 'no context implementation')


@rule('runtime-entered', 'a future is only handed to the event loop while the client\'s runtime is entered', 'C33', floor=2)
def r_enter(cx):
    for k, f in sorted(pyfns(cx).items()):
        if f.name == 'future_into_py' or '__pymethod' in k: continue
        if not any(last(PR.callee(n) or '') == 'future_into_py' for n in PR.walk(f.body) if n['k'] in ('call', 'mcall')): continue
        for p in cx.paths(f, atomic=cx.P.atoms('async_util::future_into_py', *CLIENT)):
            for i, e in evs(p, 'future_into_py'):
                en = [(j, x) for j, x in evs(p, 'enter') if j < i and 'runtime' in x.path]
                cx.ob(f'{short(f.path)}: entered', bool(en), wh(e), 'no runtime is entered')
                if en:
                    g = en[-1][1].res
                    gone = any(x.k == 'discard' and x.val == g for x in p.ev[:i]) or any(x.k == 'call' and last(x.path) == 'drop' and g in x.args for x in p.ev[:i])
                    cx.ob(f'{short(f.path)}: still entered', not gone and not wildcard(f), wh(en[-1][1]), 'the runtime is left again before the future is handed over')
                cx.ob(f'{short(f.path)}: result', p.val == e.res or has(p.val, e.res), wh(e), 'the awaitable is not returned')


def wildcard(f):
    """The guard of `enter` is bound to `_`, which drops it at once."""
    for n in PR.walk(f.body):
        if n['k'] == 'let' and isinstance(n.get('pat'), dict) and n['pat'].get('k') in ('wild', 'pwild', '_'):
            if any(last(PR.callee(x) or '') == 'enter' for x in PR.walk(n.get('init'))): return True
        for s in (n.get('stmts') or []):
            if isinstance(s, dict) and isinstance(s.get('pat'), dict) and s['pat'].get('k') in ('wild', 'pwild', '_') and s.get('init') is not None:
                if any(last(PR.callee(x) or '') == 'enter' for x in PR.walk(s.get('init'))): return True
    return False


@rule('runtime-kind', 'the client runtime has threads of its own, with timers and I/O', 'C33', floor=2)
def r_kind(cx):
    f = cx.fn('common::start_runtime')
    if f is None: return
    for p in cx.paths(f):
        if p.out != 'val': continue
        names = {last(e.path) for e in p.ev if e.k == 'call' and 'runtime' in e.path}
        if not names & {'new_multi_thread', 'new_current_thread', 'new'}: cx.skip('start_runtime', 'no builder'); continue
        cx.ob('threads', 'new_current_thread' not in names, f.where, 'the runtime has no thread of its own: a Python future and a native one waiting for each other dead-lock')
        if 'new_multi_thread' in names or 'new_current_thread' in names: cx.ob('drivers', 'enable_all' in names or {'enable_time', 'enable_io'} <= names, f.where, 'timers or I/O are not enabled')
