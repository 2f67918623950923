"""Connection discipline (C12): single writer, typed connections, compile-fail witnesses."""
from ..core import rule, short, wh, TECH, NOTES
from ..store import *
from ..interp import show, terms, last, calls
from .. import interp as IN, prog as PR, witness as W

TECH['C12'] = 'effect analysis of all state-changing functions + signature bounds from the type-checked program + compile-fail witnesses'


def conn_param(f):
    """(index, parameter) of the connection the function works on."""
    c = [(i, p) for i, p in enumerate(f.params) if re.search(r'Connection|db::conn::Conn|Writer<|Reader<', str(p.get('ty')))]
    return c[0] if len(c) == 1 else None


@rule('writer-bound', 'every db function that changes stored state takes a connection bounded to be the writer (or the writer pool)', 'C12', floor=10)
def r_writer(cx):
    mut, direct, callers = mutating(cx.w)
    for k, f in sorted(mut.items()):
        if not is_db(f.path) or f.crate != 'opsqueue': continue
        tys = [str(p.get('ty')) for p in f.params]
        preds = [str(p) for p in f.preds or []]
        pool = any('Pool<db::magic::True>' in t or 'DBPools' in t for t in tys)
        conn = conn_param(f)
        if not pool and conn is None: continue  # works on its own or its caller's connection: the caller is examined
        ok = pool or 'True' in str(conn[1].get('ty')) and 'Conn<' in str(conn[1].get('ty')) or any(('WriterConnection' in p and 'TraitClause' in p) or ('Writable' in p and 'magic::True' in p) for p in preds)
        cx.ob(short(f.path), ok, f.where, 'changes stored state through a connection that need not be the writer')


@rule('declared-transaction', 'functions that run several changes without opening a transaction of their own demand one in their signature, or are only reached from inside one', 'C12', floor=4)
def r_declared(cx):
    mut, direct, callers = mutating(cx.w)
    need = {'complete_chunk_raw', 'complete_submission_raw', 'cancel_submission_notx', 'fail_submission_notx', 'insert_submission_metadata_raw'}
    for k, f in sorted(mut.items()):
        if not is_db(f.path) or f.crate != 'opsqueue' or conn_param(f) is None: continue
        own = any(n['k'] == 'mcall' and n['m'] == 'transaction' for n in PR.walk(f.body))
        if own: continue
        try:
            n = max((sum(1 for e in p.ev if e.k == 'sql' for x in effs(cx.w, e) if x.kind in MUT) for p in cx.paths(f)), default=0)
            loop = any(e.k in ('loop', 'for') for p in cx.paths(f) for e in p.ev)
        except IN.Limit as e:
            cx.skip(f.path, str(e)); continue
        if n < 2 and not loop: continue
        if f.name in need: cx.ob(short(f.path), tx_bound(f), f.where, 'makes several changes but can be called outside a transaction')
        elif not tx_bound(f): cx.ob(f'{short(f.path)} reached only in transactions', reached_in_tx(cx, f), f.where, 'makes several changes and is called outside a transaction')


def reached_in_tx(cx, f):
    """No root operation runs this function's changes in an autocommit unit."""
    from .storage import ops
    for o in ops(cx):
        for p, us in o.units:
            for u in us:
                if u.kind == 'auto' and any(s.ev.fn is f for s in u.muts()): return False
    return True


@rule('executor', 'every statement runs on the connection handed to the operation or on its transaction, never on one obtained elsewhere', 'C12', floor=5)
def r_exec(cx):
    from .storage import ops
    for o in ops(cx):
        for p, us in o.units:
            for e in p.ev:
                if e.k != 'sql': continue
                x = e.exec
                while isinstance(x, tuple) and x and x[0] in ('field', 'call') and last(str(x[1])) in ('get_inner', 'deref_mut', 'as_mut', 'borrow_mut', 'acquire', 'writer_conn'): x = x[2][0] if x[0] == 'call' else x[1]
                rd = [c for c in calls(e.exec, 'reader_conn', 'reader_pool')] if isinstance(e.exec, tuple) else []
                if any(f.kind in MUT for f in effs(cx.w, e)):
                    cx.ob(short(e.fn.path if e.fn else o.fn.path), not rd, wh(e), 'a change is executed on a reader connection')


@rule('one-writer-pool', 'exactly one place builds a writer pool for the server, with exactly one connection; readers are built separately', 'C12', 'C13', floor=1)
def r_pool(cx):
    for f, ps in pool_builders(cx):
        for p in ps:
            v = p.pay() if p.result() == 'Ok' else None
            if v is None and p.out == 'val': v = p.val
            if v is None: continue
            for x in terms(v):
                if x[0] == 'struct' and last(str(x[1]).split('<')[0]) == 'DBPools':
                    d = dict(x[2])
                    for fld, t in d.items():
                        mc = [c[2][1] for c in calls(t, 'max_connections') if len(c[2]) > 1]
                        if 'write' in fld:
                            cx.ob('writer pool size', mc == [('lit', 1)], f.where, f'the writer pool may open {show(mc[0]) if mc else "any number of"} connections')


def pool_builders(cx):
    out = []
    for k, f in sorted(cx.P.fns.items()):
        if f.crate != 'opsqueue' or 'test' in f.name: continue
        if any(n['k'] == 'struct' and 'DBPools' in str((n.get('res') or {}).get('path') or n.get('ty')) for n in PR.walk(f.body)):
            try: out.append((f, cx.paths(f)))
            except IN.Limit as e: cx.skip(f.path, str(e))
    return out


@rule('witness', 'programs that run a state-changing operation on a connection that is not the writer, or one that demands a transaction outside of it, are rejected by the compiler; their correct counterparts compile', 'C12', floor=8)
def r_witness(cx):
    mut, direct, callers = mutating(cx.w)
    items = {}
    for k, f in sorted(mut.items()):
        if not is_db(f.path) or f.crate != 'opsqueue' or f.vis is not True: continue
        c = conn_param(f)
        if c is None or 'impl' not in str(c[1].get('ty')): continue
        a = []
        for i, p in enumerate(f.params):
            t = str(p.get('ty'))
            if i == c[0]: a.append('c')
            elif 'IntoIterator' in t: a.append('Vec::new()')
            else: a.append('todo!()')
        call = f'let _ = opsqueue::{f.path}({", ".join(a)}).await;'
        n = f.name
        tx = '<Transaction = True>'
        items[f'{n}__ok'] = f'pub async fn ok_{n}(c: impl WriterConnection{tx}) {{\n{call}\n}}'
        items[f'{n}__reader'] = f'pub async fn rd_{n}(c: impl Connection<Transaction = True>) {{\n{call}\n}}'
        if tx_bound(f): items[f'{n}__notx'] = f'pub async fn nt_{n}(c: impl WriterConnection{tx.replace("True", "False")}) {{\n{call}\n}}'
    items['pool__ok'] = 'pub async fn ok_pool(p: &WriterPool, r: &ReaderPool) {\nlet _ = p.writer_conn().await;\nlet _ = r.reader_conn().await;\n}'
    items['pool__reader'] = 'pub async fn rd_pool(p: &ReaderPool) {\nlet _ = p.writer_conn().await;\n}'
    items['conn__ok'] = 'pub async fn ok_conn(p: &ReaderPool) {\nasync fn need(c: impl Connection) {}\nlet c = p.acquire().await.unwrap(); need(c).await;\n}'
    items['conn__reader'] = 'pub async fn rd_conn(p: &ReaderPool) {\nasync fn need(c: impl WriterConnection) {}\nlet c = p.acquire().await.unwrap(); need(c).await;\n}'
    items['conn__notx'] = 'pub async fn nt_conn(p: &WriterPool) {\nasync fn need(c: impl Connection<Transaction = True>) {}\nlet c = p.acquire().await.unwrap(); need(c).await;\n}'
    items['refconn__ok'] = 'pub async fn ok_refconn(p: &WriterPool) {\nasync fn need(c: impl WriterConnection) {}\nlet mut c = p.acquire().await.unwrap(); need(&mut c).await;\n}'
    items['refconn__reader'] = 'pub async fn rd_refconn(p: &ReaderPool) {\nasync fn need(c: impl WriterConnection) {}\nlet mut c = p.acquire().await.unwrap(); need(&mut c).await;\n}'
    items['refconn__notx'] = 'pub async fn nt_refconn(p: &WriterPool) {\nasync fn need(c: impl Connection<Transaction = True>) {}\nlet mut c = p.acquire().await.unwrap(); need(&mut c).await;\n}'
    items['forge__reader'] = 'pub fn rd_forge<T>(c: opsqueue::db::conn::Conn<False, T>) -> opsqueue::db::conn::Conn<True, T> {\nopsqueue::db::conn::Conn { inner: c.inner, _type: std::marker::PhantomData }\n}'
    res = W.check(cx.P.dir, items)
    if res is None: cx.skip('witnesses', 'the crate does not compile'); return
    for n, errs in sorted(res.items()):
        base, kind = n.rsplit('__', 1)
        if kind == 'ok':
            if errs: cx.skip(n, f'the correct program does not compile: {errs}')
            else: cx.ob(f'{base}: correct use compiles', True, 'opsqueue/src/db')
        elif res.get(base + '__ok') == [] or base == 'forge':
            cx.ob(f'{base}: {"non-writer" if kind == "reader" else "no transaction"} rejected', bool(errs), 'opsqueue/src/db', 'a program that changes state ' + ('without the writer connection' if kind == 'reader' else 'outside a transaction') + ' compiles')


@rule('transaction-wrapper', 'Connection::transaction runs the operation on a connection inside one database transaction, commits exactly when the operation succeeded, and passes its result and every commit failure on', 'C11', 'C12', floor=3)
def r_wrapper(cx):
    fn = cx.fn('db::Connection::transaction')
    if not fn: return
    for p in cx.paths(fn):
        calls_ = [e for e in p.ev if e.k == 'call' and e.path == '<indirect>' and any(x == ('param',) + tuple(x[1:]) for x in e.args[:1])]
        begin = [e for e in p.ev if e.k == 'tx_begin']
        manual = [e for e in p.ev if e.k == 'call' and last(e.path) in ('begin', 'begin_with')]
        commit = [e for e in p.ev if e.k == 'call' and last(e.path) == 'commit']
        if begin:
            for e in calls_:
                cx.ob('operation runs inside', any(('tx', b.id) in set(IN.subterms(e.args[1])) for b in begin if len(e.args) > 1), wh(e), 'the operation is not given the connection of the transaction')
                r = e.res
                v = p.st.vari.get(r)
                end = [x.how for x in p.ev if x.k == 'tx_end']
                if v == 'Ok' and end == ['commit']: cx.ob('success passed on', p.result() == 'Ok' and (p.pay() == ('pl', r, 'Ok', 0)), fn.where, 'the result of a committed operation is not passed on')
                elif end == ['commitfail']: cx.ob('commit failure reported', p.result() == 'Err', fn.where, 'success is reported although the commit failed')
                elif v == 'Err': cx.ob('failure rolls back', end == ['rollback'] and p.result() == 'Err', fn.where, 'a failed operation is committed or reported as success')
        elif manual:
            for e in calls_:
                v = p.st.vari.get(e.res)
                if v == 'Err': cx.ob('failure rolls back', not commit and p.result() == 'Err', fn.where, 'a failed operation is committed or reported as success')
                elif p.result() == 'Ok': cx.ob('success passed on', bool(commit) and all(p.st.vari.get(c.res) == 'Ok' for c in commit), fn.where, 'success is reported without a successful commit')
        elif p.out == 'val' and calls_:
            cx.ob('operation runs inside', False, fn.where, 'the operation is run without a database transaction')
    for k, f in sorted(cx.P.fns.items()):
        if f.name == 'get_inner' and 'Connection' in k:
            bad = [n for n in PR.walk(f.body) if n['k'] in ('call', 'mcall') and last(PR.callee(n) or '') not in ('get_inner', 'deref_mut', 'as_mut', 'borrow_mut', '')]
            cx.ob(f'get_inner of {"transaction" if "Tx<" in k else "reference" if "&mut" in k else "pool"} connection', not bad, f.where, 'the connection handed out is not the held one')
