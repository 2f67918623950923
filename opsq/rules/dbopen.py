"""Opening the database (C13)."""
from ..core import rule, short, wh, TECH
from ..store import *
from ..interp import show, terms, last, calls
from .. import interp as IN, prog as PR
from .app import main_paths, started

TECH['C13'] = 'dataflow of connection options and pools through every path of start-up, with the spawned maintenance tasks'
PRAGMA_BAD = {'journal_mode': lambda v: v.lower() != 'wal', 'synchronous': lambda v: v.lower() in ('off', '0'),
              'foreign_keys': lambda v: v.lower() in ('off', '0', 'false', 'no'), 'busy_timeout': lambda v: v.strip() in ('0',),
              'locking_mode': lambda v: v.lower() == 'exclusive', 'query_only': lambda v: v.lower() in ('on', '1', 'true', 'yes'),
              'ignore_check_constraints': lambda v: v.lower() in ('on', '1', 'true', 'yes'), 'writable_schema': lambda v: True,
              'read_uncommitted': lambda v: v.lower() in ('on', '1', 'true', 'yes'), 'recursive_triggers': lambda v: False}


def chain(t):
    """Builder calls applied to a value, innermost first."""
    out = []
    while isinstance(t, tuple) and t and t[0] == 'call' and t[2]:
        out.append(t); t = t[2][0]
    if isinstance(t, tuple) and t and t[0] == 'call': out.append(t)
    return out[::-1], t


def connects(p):
    """connect_with/connect calls of a path: (event, builder settings, options settings, options base)."""
    for e in p.ev:
        if e.k == 'call' and last(e.path) in ('connect_with', 'connect_lazy_with') and 'ool' in e.path and len(e.args) > 1:
            yield e, chain(e.args[0])[0], chain(e.args[1])


def vname(t):
    return last(str(t[1])) if isinstance(t, tuple) and t and t[0] in ('v', 'const', 'struct') else show(t)


def lit(t):
    return t[1] if isinstance(t, tuple) and t and t[0] == 'lit' else None


@rule('connect-options', 'every connection of every pool is opened with write-ahead logging, at least normal synchronisation, foreign keys enforced and a positive lock wait, on the configured file', 'C13', floor=8)
def r_opts(cx):
    f = cx.fn('db::open_and_setup')
    if not f: return
    for p in cx.paths(f):
        cs = list(connects(p))
        if not cs and p.out == 'val': cx.skip('pools', 'no connect_with call found'); continue
        for e, pool, (opts, base) in cs:
            mc = [lit(c[2][1]) for c in pool if last(c[1]) == 'max_connections' and len(c[2]) > 1]
            n = 'write pool' if mc == [1] else 'read pool'
            seen = {}
            if not opts or last(opts[0][1]) not in ('new', 'from_str', 'default'): cx.skip(n, f'options of unknown origin: {show(base)[:80]}'); continue
            if last(opts[0][1]) == 'from_str': seen['filename'] = opts[0][2][0]
            for c in opts[1:]:
                m = last(c[1])
                a = c[2][1] if len(c[2]) > 1 else None
                if m == 'pragma' and len(c[2]) > 2:
                    k, v = lit(c[2][1]), lit(c[2][2])
                    if isinstance(k, str) and k.lower() in PRAGMA_BAD and isinstance(v, str):
                        cx.ob(f'{n}: pragma {k}', not PRAGMA_BAD[k.lower()](v), wh(e), f'pragma {k} is set to {v}')
                else: seen[m] = a
            jm = vname(seen['journal_mode']) if 'journal_mode' in seen else 'Wal'  # sqlx leaves an existing WAL mode as it is, but a new file would not be WAL
            cx.ob(f'{n}: write-ahead log', 'journal_mode' in seen and jm == 'Wal', wh(e), 'connections are not opened in write-ahead mode' + (f' but {jm}' if jm != 'Wal' else ''))
            sy = vname(seen['synchronous']) if 'synchronous' in seen else 'Full'
            cx.ob(f'{n}: synchronous', sy in ('Normal', 'Full', 'Extra'), wh(e), f'synchronous mode is {sy}')
            cx.ob(f'{n}: foreign keys', seen.get('foreign_keys', ('lit', True)) != ('lit', False), wh(e), 'foreign keys are not enforced')
            bt = seen.get('busy_timeout')
            z = bt is not None and (any(lit(x) == 0 for x in terms(bt)) or show(bt).endswith('ZERO)'))
            cx.ob(f'{n}: lock wait', not z, wh(e), 'a connection does not wait for locks')
            cx.ob(f'{n}: file', 'filename' in seen and any(x[0] == 'param' for x in terms(seen['filename'])), wh(e), 'a connection is not opened on the configured file')
            for bad in ('immutable', 'in_memory', 'vfs'):
                if bad in seen: cx.ob(f'{n}: {bad}', lit(seen[bad]) is False, wh(e), f'the database is opened {bad}')
            cx.ob(f'{n}: read-only', n == 'read pool' or lit(seen.get('read_only')) is not True, wh(e), 'the writer cannot write')
            if 'locking_mode' in seen: cx.ob(f'{n}: locking', vname(seen['locking_mode']) != 'Exclusive', wh(e), 'connections lock the whole database')


@rule('migrated-first', 'start-up succeeds only after all migrations were applied through the writer, and any failure to open or migrate stops it', 'C13', floor=2)
def r_mig(cx):
    f = cx.fn('db::open_and_setup')
    if not f: return
    for p in cx.paths(f):
        runs = [e for e in p.ev if e.k == 'call' and last(e.path) in ('run', 'run_direct') and 'igrat' in e.path]
        opened = {e.res for e, *_ in connects(p)}
        done = p.out == 'val' and p.result() != 'Err'
        if not done: continue
        if not runs:
            cx.ob('migrations applied', False, f.where, 'start-up succeeds without applying the migrations'); continue
        for e in runs:
            s = p.st.vari.get(e.res)
            cx.ob('migrations applied', s != 'Err' and (s == 'Ok'), wh(e), 'start-up goes on although applying the migrations failed or was not checked')
            tgt = e.args[1] if len(e.args) > 1 else None
            wp = [c for c in calls(tgt, 'connect_with') if any(last(x[1]) == 'max_connections' and lit(x[2][1]) == 1 for x in chain(c[2][0])[0])] if tgt is not None else []
            if tgt is not None and calls(tgt, 'connect_with'): cx.ob('migrations through the writer', bool(wp), wh(e), 'the migrations run on a reader pool')
            m = [x for x in terms(e.args[0]) if x[0] == 'mac' and x[1] == 'migrate']
            cx.ob('all migrations', bool(m), wh(e), 'what is run is not the set of migrations of the repository')
            for c in terms(e.args[0]):
                if c[0] == 'call' and last(c[1]) == 'set_ignore_missing': pass
        for r in opened:
            cx.ob('pool opened', p.st.vari.get(r) == 'Ok', f.where, 'start-up goes on without a usable pool')
    for k, g in cx.P.fns.items():
        if 'test' in g.path or not g.crate.startswith('opsqueue'): continue
        for n in PR.walk(g.body):
            c = str((n.get('res') or {}).get('path') if n['k'] == 'path' else n.get('path') if n['k'] == 'mcall' else '')
            if last(c) in ('drop_database', 'force_drop_database', 'revert', 'undo') and 'sqlx' in c:
                cx.ob(f'{short(g.path)}: {last(c)}', False, n.get('sp') or g.where, 'the database or its migrations are thrown away')
            if c.startswith('std::fs::remove') or c.startswith('tokio::fs::remove'):
                cx.ob(f'{short(g.path)}: {last(c)}', False, n.get('sp') or g.where, 'files are removed')
    f2 = cx.P.fn('db::ensure_db_exists')
    for p in cx.paths(f):
        for e in p.ev:
            if e.k == 'call' and last(e.path) == 'create_database':
                ex = [x for x in p.ev if x.k == 'call' and last(x.path) in ('database_exists', 'try_exists', 'exists')]
                def known_absent():
                    for c, v in p.st.path:
                        if any(x in terms(c) for y in ex for x in [y.res]): return True
                    return False
                cx.ob('created only when absent', bool(ex) and not any(v is True and c == ('pl', y.res, 'Ok', 0) for y in ex for c, v in p.st.path), wh(e), 'the database is created although it exists')


@rule('checkpointer', 'the write-ahead log is checkpointed forever, through the writer, for as long as the server runs', 'C13', floor=3)
def r_ckpt(cx):
    f = cx.fn('db::DBPools::periodically_checkpoint_wal', 'periodically_checkpoint_wal')
    if not f: return
    for p in cx.paths(f):
        cx.ob('never stops', p.out == 'loop', f.where, f'the checkpointing task ends ({p.out})')
        sq = [e for e in p.ev if e.k == 'sql']
        fail = [e for e in p.ev if e.k == 'call' and last(e.path) in ('acquire', 'writer_conn') and p.st.vari.get(e.res) == 'Err']
        cx.ob('checkpoints', any('wal_checkpoint' in str(e.sql).lower() for e in sq) or bool(fail), f.where, 'a round of the loop does not checkpoint')
        cx.ob('waits', any(e.k == 'call' and last(e.path) in ('tick', 'sleep', 'sleep_until') for e in p.ev), f.where, 'a round of the loop does not wait')
        for e in p.ev:
            if e.k == 'call' and last(e.path) in ('acquire', 'reader_conn'): cx.ob('on the writer', 'read_pool' not in show(e.args[0]), wh(e), 'the checkpoint runs on a reader')
    g, ps = main_paths(cx)
    if not ps: cx.skip('main', 'no main function found'); return
    for p in ps:
        s = started(p, 'serve_producer_and_consumer')
        if s is None: continue
        cx.ob('started with the server', started(p, 'periodically_checkpoint_wal') is not None, g.where, 'the server runs without the checkpointing task')
        op = [i for i, e in enumerate(p.ev) if e.k == 'call' and last(e.path) == 'open_and_setup']
        aw = [i for i, e in enumerate(p.ev) if e.k == 'await' and calls(e.val, 'open_and_setup')]
        cx.ob('opened before serving', bool(aw) and aw[0] < s, g.where, 'work is accepted before the database is opened and migrated')


@rule('flush-before-ack', 'after an insertion a flush of the log is attempted before the insertion is acknowledged', 'C13', floor=2)
def r_flush(cx):
    f = cx.fn('producer::server::insert_submission')
    if not f: return
    for p in cx.paths(f, atomic=('common::submission::db::insert_submission_from_chunks',)):
        if p.result() != 'Ok': continue
        ins = [i for i, e in enumerate(p.ev) if e.k == 'call' and last(e.path) == 'insert_submission_from_chunks']
        ck = [i for i, e in enumerate(p.ev) if e.k == 'sql' and 'wal_checkpoint' in str(e.sql).lower()]
        fail = [i for i, e in enumerate(p.ev) if e.k == 'call' and last(e.path) in ('acquire', 'writer_conn') and p.st.vari.get(e.res) == 'Err']
        if not ins: cx.skip('insertion', 'no call of insert_submission_from_chunks'); continue
        cx.ob('flush attempted', any(i > ins[0] for i in ck + fail), f.where, 'an insertion is acknowledged without an attempt to flush the log')
        cx.ob('insertion succeeded', p.st.vari.get(p.ev[ins[0]].res) == 'Ok', f.where, 'an insertion is acknowledged although it failed')
