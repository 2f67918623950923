"""Paths of the server binary's main function, shared by several rules."""
from ..interp import last, terms, calls, show
from .. import interp as IN

ATOMS = ('setup_tracing', 'prometheus::setup_prometheus', 'db::open_and_setup', 'db::DBPools::periodically_checkpoint_wal',
         'server::serve_producer_and_consumer', 'common::submission::db::periodically_cleanup_old',
         'prometheus::periodically_calculate_scaling_metrics', 'server::app_watchdog', 'version_info')


def main_paths(cx):
    """All paths of the (async) main body of the server, with its long-running parts left as single calls."""
    if 'main' in cx.w.memo: return cx.w.memo['main']
    f = cx.P.fn('async_main') or cx.P.fn('main', 'opsqueue@bin')
    out = None
    if f is not None:
        out = []
        for p in cx.paths(f, atomic=ATOMS, tag='app'):
            es = [e for e in p.ev if e.k == 'call' and last(e.path) == 'block_on']
            if es: out += cx.w.value_paths(es[-1].args[-1], p.I, p.st)
            elif p.out == 'val': out.append(p)
        # the scope's body runs exactly once
        if any(e.k == 'hof' and e.name == 'scope_fn' for p in out for e in p.ev):
            out = [p for p in out if p.out != 'val' or any(e.k == 'hof' and e.name == 'scope_fn' for e in p.ev)]
    cx.w.memo['main'] = (f, out)
    return f, out


def spawned(p, name):
    """Index of the event that starts the named long-running function as a task."""
    for i, e in enumerate(p.ev):
        if e.k == 'spawn' and (calls(e.task, name) or any(calls(a, name) for a in e.args)): return i
        if e.k == 'call' and last(e.path) in ('select', 'join', 'join_all', 'try_join') and any(calls(a, name) for a in e.args): return i
    return None


def started(p, name):
    i = spawned(p, name)
    if i is not None: return i
    # polled directly (select! or join! without a task), or awaited
    for i, e in enumerate(p.ev):
        if e.k in ('await', 'poll') and isinstance(e.a.get('val'), tuple) and calls(e.val, name): return i
    return None
