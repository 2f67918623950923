"""Producing and collecting results over the native module (C27, C28, C29)."""
from ..core import rule, short, wh, TECH, NOTES
from ..interp import show, terms, last, calls
from .. import prog as PR
from .util import *
from .consumer import has
from .native import pyfns, exposed, CLIENT

TECH['C27'] = 'typestate over every path of the exposed insertion methods: upload, its outcome, announcement'
TECH['C28'] = 'typestate of each chunk over every path of the consumer loop and of the exposed methods: result, storing, report; symbolic reading of the Python callback'
TECH['C29'] = 'case analysis of every path of the waiting methods by submission state; dataflow of the chunk stream; bound of the polling interval'
NOTES['C28'] = 'When storing an output fails, the chunk is reported neither complete nor failed; the error is logged and the reservation expires (C15).'

NEW = 'PyChunksIter::new'


def atoms(cx, *more): return cx.P.atoms(*CLIENT, *more)


def method(cx, name):
    f = [f for k, f in exposed(cx).items() if f.name == name]
    if not f: cx.skip(name, 'method not found')
    return f[0] if f else None


def paths(cx, f, *more):
    """Paths of an exposed method; for one that returns an awaitable, of the future behind it."""
    out = []
    for p in cx.paths(f, atomic=atoms(cx, *more)):
        fut = [x for x in terms(p.val) if x[0] == 'async'] if p.out == 'val' and p.val is not None and calls(p.val, 'future_into_py') else []
        if fut: out += cx.w.value_paths(fut[0], p.I, p.st)
        else: out.append(p)
    return out


def is_(p, t):
    """Variant of t on the path: name, or ('not', names)."""
    v = p.st.vari.get(t)
    if v: return v
    pos = [c[2] for c, b in p.st.path if isinstance(c, tuple) and c[0] == 'is' and c[1] == t and b]
    if pos: return pos[0]
    return tuple(c[2] for c, b in p.st.path if isinstance(c, tuple) and c[0] == 'is' and c[1] == t and not b)


def interrupted(p): return any(e.k == 'branch' and e.index and e.index > 0 for e in p.ev)


def ev(p, *names): return [(i, e) for i, e in enumerate(p.ev) if e.k == 'call' and last(e.path) in names]


def unsome(t):
    while isinstance(t, tuple) and t and t[0] == 'v' and last(t[1]) in ('Some', 'Ok', 'CError', 'L', 'R', 'Err', 'FatalPythonException') and len(t[2]) == 1: t = t[2][0]
    return t


# ---- C28 ----
def cid(t):
    """(submission, index) terms of a chunk id."""
    f = fields(t)
    if 'submission_id' in f and 'chunk_index' in f: return f['submission_id'], f['chunk_index']
    if isinstance(t, tuple) and t and t[0] == 'tuple' and len(t[1]) == 2: return t[1]
    return None


def named(t):
    """Name of the parameter or field a term reads."""
    while isinstance(t, tuple) and t and (t[0] == 'pl' and t[2] in ('Some', 'Ok') or t[0] == 'field' and t[2] in ('0', 'id')): t = t[1]
    return t[2] if isinstance(t, tuple) and t and t[0] in ('param', 'field') else None


def base(t):
    """What a field is read from (None for a parameter)."""
    while isinstance(t, tuple) and t and (t[0] == 'pl' and t[2] in ('Some', 'Ok') or t[0] == 'field' and t[2] in ('0', 'id')): t = t[1]
    return t[1] if isinstance(t, tuple) and t and t[0] == 'field' else None


def the_chunk(cx, sub, e, t, b=None):
    """Is the id reported that of the chunk at hand?"""
    c = cid(t)
    if c is None: return cx.skip(sub, show(t)[:60])
    ns = named(c[0]), named(c[1])
    if None in ns: return cx.skip(sub, show(t)[:60])
    return cx.ob(sub, ns == ('submission_id', 'chunk_index') and base(c[0]) == base(c[1]) and (b is None or base(c[0]) == b), wh(e), f'{show(t)[:80]} is reported')


def stored(cx, sub, p, e, out, b=None):
    """e reports completion: were the results stored before, or sent with it? `out` is the result."""
    c = e.args[2] if len(e.args) > 2 else None
    if not isinstance(c, tuple): return cx.skip(sub, 'content')
    if c[0] == 'v' and last(c[1]) == 'Some':
        cx.ob(f'{sub}: sent', out is None or unsome(c) == out, wh(e), f'{show(c)[:60]} is sent, not the result')
        pre = [is_(p, t) for t in [x for x, _ in list(p.st.vari.items())] + [c_[1] for c_, _ in p.st.path if isinstance(c_, tuple) and c_[0] == 'is'] if named(t) == 'submission_prefix']
        if pre: cx.ob(f'{sub}: where', 'Some' not in pre, wh(e), 'the result is sent with the report although its place is the object store')
        return
    if c[0] == 'v' and last(c[1]) == 'None':
        st = [(i, x) for i, x in ev(p, 'store_chunk') if x is not e and p.ev.index(x) < p.ev.index(e)]
        pre = [is_(p, t) for t in list(p.st.vari) if named(t) == 'submission_prefix']
        if not st: return cx.ob(f'{sub}: stored first', False, wh(e), 'completion is reported without the result and without having stored it')
        x = st[-1][1]
        cx.ob(f'{sub}: stored first', is_(p, x.res) == 'Ok', wh(e), 'completion is reported although storing the result may have failed')
        a = x.args[1:]
        if len(a) >= 4:
            if named(a[0]) is not None: cx.ob(f'{sub}: prefix', named(a[0]) == 'submission_prefix' and (b is None or base(a[0]) == b), wh(x), f'the result is stored under {show(a[0])[:50]}')
            i = cid(e.args[1])
            if named(a[1]) is not None: cx.ob(f'{sub}: index', named(a[1]) == 'chunk_index' and (i is None or a[1] == i[1] or named(a[1]) == named(i[1]) and base(a[1]) == base(i[1])), wh(x), f'the result is stored under index {show(a[1])[:50]}')
            if a[2][0] == 'v': cx.ob(f'{sub}: direction', last(a[2][1]) == 'Output', wh(x), f'the result is stored as {show(a[2])[:30]}')
            cx.ob(f'{sub}: content', out is None or unsome(a[3]) == out, wh(x), f'{show(a[3])[:60]} is stored, not the result')
        return
    cx.skip(sub, f'content {show(c)[:40]}')


@rule('report-methods', 'a completion is reported for the chunk given, after its output was stored under the chunk\'s own prefix and index or together with it; a failure with the reason given', 'C28', 'C36', floor=8)
def r_methods(cx):
    f = method(cx, 'complete_chunk')
    if f is not None:
        outs = [('param', f.path, q['name']) for q in f.params if q.get('name') == 'output_content']
        for p in paths(cx, f):
            cs = ev(p, 'complete_chunk')
            fs = ev(p, 'fail_chunk')
            cx.ob('complete_chunk: no failure', not fs, wh(fs[0][1]) if fs else '', 'a failure is reported')
            cx.ob('complete_chunk: once', len(cs) <= 1, wh(cs[-1][1]) if cs else '', 'completion is reported twice')
            for i, e in cs:
                the_chunk(cx, 'complete_chunk: chunk', e, e.args[1])
                stored(cx, 'complete_chunk', p, e, outs[0] if outs else None)
            if p.out == 'val' and p.result() == 'Ok': cx.ob('complete_chunk: done', bool(cs) and all(is_(p, e.res) == 'Ok' or p.val == e.res or has(p.val, e.res) for i, e in cs), f.path, 'success is returned without reporting the completion')
    f = method(cx, 'fail_chunk')
    if f is not None:
        why = [('param', f.path, q['name']) for q in f.params if q.get('name') == 'failure']
        for p in paths(cx, f):
            cs = ev(p, 'complete_chunk')
            fs = ev(p, 'fail_chunk')
            cx.ob('fail_chunk: no completion', not cs, wh(cs[0][1]) if cs else '', 'a completion is reported')
            for i, e in fs:
                the_chunk(cx, 'fail_chunk: chunk', e, e.args[1])
                cx.ob('fail_chunk: reason', not why or has(e.args[2], why[0]), wh(e), f'{show(e.args[2])[:50]} is reported as the reason')
            if p.out == 'val' and p.result() == 'Ok': cx.ob('fail_chunk: done', bool(fs), f.path, 'success is returned without reporting the failure')


@rule('consumer-loop', 'every chunk reserved is given to the function once; its result is stored and reported complete when the function returned, and reported failed with the reason when it raised; only an interrupt or a fatal exception ends the loop', 'C28', floor=12)
def r_loop(cx):
    f = method(cx, 'run_per_chunk')
    if f is None: return
    used = lambda p: [(i, e) for i, e in ev(p, 'call1', 'call', 'call0', 'call_method1') if e.args and any(param(x, 'fun') for x in terms(e.args[0]))]
    # the loops in which the function is called
    inner = set()
    for p in paths(cx, f):
        for i, e in used(p)[:1]:
            for x in reversed(p.ev[:i]):
                if x.k == 'for': inner.add(x.node.get('sp')); break
    for p in paths(cx, f):
        us = used(p)
        rep = ev(p, 'complete_chunk', 'fail_chunk')
        iters = [(i, e) for i, e in enumerate(p.ev) if e.k == 'for' and (calls(e.iter, 'reserve_chunks') or e.node.get('sp') in inner) and (e.node.get('sp') in inner or not inner)]
        if not us:
            for i, e in rep: cx.ob('reports', False, wh(e), f'{last(e.path)} is reported for a chunk the function was not called for')
            ends = [j for j, x in enumerate(p.ev) if x.k in ('endfor', 'backedge')]
            if iters and not interrupted(p) and p.out in ('loop', 'val') and any(x.k == 'endfor' and x.id == iters[-1][1].id for x in p.ev): cx.ob('every chunk', False, wh(iters[-1][1]) if hasattr(iters[-1][1], 'node') else f.path, 'a reserved chunk is passed over')
            if p.out == 'val' and not interrupted(p):
                errs = [e for i, e in ev(p, 'reserve_chunks', 'retrieve_chunk', 'try_collect') if is_(p, e.res) == 'Err']
                if errs and p.result() is not None and calls(p.val, 'reserve_chunks', 'retrieve_chunk', 'try_collect'): cx.ob('keeps going', False, wh(errs[0]), 'an error of the connection or the object store ends the consumer')
            continue
        i, u = us[0]
        cx.ob('called once', len(us) == 1, wh(us[-1][1]), 'the function is called more than once for a chunk')
        el = [x for x in terms(u.args[1]) if x[0] == 'elem'] if len(u.args) > 1 else []
        b = el[0] if el else None
        # the answer of the function
        ex = [e for j, e in ev(p, 'extract', 'downcast', 'extract_bound') if j > i and e.args and has(e.args[0], u.res)]
        good = is_(p, u.res) == 'Ok' and (not ex or is_(p, ex[0].res) == 'Ok')
        bad = is_(p, u.res) == 'Err' or any(is_(p, e.res) == 'Err' for e in ex)
        if not good and not bad: cx.skip('run_per_chunk', 'outcome of the function not decided'); continue
        res = ('pl', ex[0].res, 'Ok', 0) if ex else ('pl', u.res, 'Ok', 0)
        after = [(j, e) for j, e in rep if j > i]
        for j, e in rep:
            if j < i: cx.ob('reports', False, wh(e), 'a chunk is reported before the function was called for it')
        kinds = [last(e.path) for j, e in after]
        cx.ob('reported once', len(after) <= 1, wh(after[-1][1]) if after else '', f'{" and ".join(kinds)} are both reported for one chunk')
        broke = interrupted(p) or p.out == 'panic' or any(is_(p, e.res) == 'Err' for j, e in ev(p, 'store_chunk') if j > i)
        if good:
            for j, e in after:
                cx.ob('complete after success', last(e.path) == 'complete_chunk', wh(e), 'a chunk whose processing succeeded is reported failed')
                if last(e.path) == 'complete_chunk':
                    the_chunk(cx, 'complete: chunk', e, e.args[1], b)
                    stored(cx, 'complete', p, e, res, b)
            if not broke: cx.ob('complete reported', 'complete_chunk' in kinds, wh(u), 'a chunk whose processing succeeded is not reported')
        else:
            for j, e in after:
                cx.ob('failure after exception', last(e.path) == 'fail_chunk', wh(e), 'a chunk whose processing raised is reported complete')
                if last(e.path) == 'fail_chunk':
                    the_chunk(cx, 'failure: chunk', e, e.args[1], b)
                    cx.ob('failure: reason', has(e.args[2], u.res), wh(e), f'{show(e.args[2])[:50]} is reported as the reason')
            if p.out == 'panic': cx.ob('failure reported', any(x.k == 'call' and last(x.path) in ('format', 'expect') for x in p.ev[i:]), wh(u), 'an exception of the function is answered with a panic')
            elif not broke: cx.ob('failure reported', 'fail_chunk' in kinds, wh(u), 'a chunk whose processing raised is not reported failed')
            if not broke and after and is_(p, after[0][1].res) == 'Ok':
                inst = {(e.node.get('targs') or ['?'])[-1].split('::')[-1]: truth(p, e.res) for j, e in ev(p, 'is_instance_of') if getattr(e, 'node', None)}
                fatal = inst.get('PyException') is False or inst.get('PySystemError') is True or inst.get('PyKeyboardInterrupt') is True
                if p.out == 'val': cx.ob('ordinary exception', fatal, wh(u), 'an ordinary exception of the function ends the consumer')
                elif fatal: cx.ob('fatal exception', False, wh(u), 'a fatal exception such as KeyboardInterrupt does not end the consumer')
                elif 'PyException' not in inst and ev(p, 'is_instance', 'matches', 'get_type', 'is_subclass_of', 'is_exact_instance_of'): cx.skip('ordinary exception', 'kind of exception looked at in another way')
                else: cx.ob('ordinary exception', inst.get('PyException') is True, wh(u), 'whether the exception is fatal is not looked at')
        if p.out == 'val' and not interrupted(p) and (good or not after or is_(p, after[0][1].res) == 'Err'):
            e = after[0][1] if after else u
            cx.ob('keeps going', not (p.val is not None and p.result() != 'Ok' and calls(p.val, 'complete_chunk', 'fail_chunk', 'store_chunk')), wh(e), 'an error of the connection or the object store ends the consumer')


# ---- C27 ----
@rule('upload-then-announce', 'a submission with contents in the object store is announced after all of them were stored, under the same fresh prefix and with the number stored; after an error nothing is announced', 'C27', 'C25', floor=8)
def r_upload(cx):
    for name in ('insert_submission_chunks', 'run_submission_chunks'):
        f = method(cx, name)
        if f is None: continue
        for p in paths(cx, f, NEW):
            up, ins = ev(p, 'store_chunks'), ev(p, 'insert_submission')
            ones = ev(p, 'store_chunk')
            cx.ob(f'{name}: announced once', len(ins) <= 1, wh(ins[-1][1]) if ins else '', 'the submission is announced twice')
            for i, e in ins:
                s = fields(e.args[1])
                if not s: cx.skip(name, show(e.args[1])[:60]); continue
                c = s.get('chunk_contents')
                cf = fields(c)
                kind = last(c[1]) if isinstance(c, tuple) and c[0] in ('struct', 'v') else None
                if kind != 'SeeObjectStorage':
                    cx.ob(f'{name}: contents', kind is None, wh(e), 'the contents are announced as sent along')
                    continue
                if not up:
                    if ones: cx.skip(name, 'chunks stored one by one')
                    else: cx.ob(f'{name}: stored first', False, wh(e), 'the submission is announced without storing its contents')
                    continue
                j, u = up[-1]
                cx.ob(f'{name}: stored first', j < i and is_(p, u.res) == 'Ok', wh(e), 'the submission is announced although storing its contents is not known to have succeeded')
                cx.ob(f'{name}: same prefix', cf.get('prefix') == u.args[1], wh(e), f'announced under {show(cf.get("prefix"))[:50]} but stored under {show(u.args[1])[:50]}')
                n, want = cf.get('count'), ('pl', u.res, 'Ok', 0)
                if n == want or isinstance(n, tuple) and n[0] == 'field' and n[1] == want: cx.ob(f'{name}: count', True)
                elif has(n, want) and not (isinstance(n, tuple) and n[0] == 'bin'): cx.skip(f'{name}: count', show(n)[:60])
                else: cx.ob(f'{name}: count', False, wh(e), f'announced with {show(n)[:60]} chunks instead of the number stored')
                own(cx, name, p, s, e)
            for i, e in up:
                fresh = any(x[0] == 'call' and last(str(x[1])) in ('now_v7', 'new_v4', 'now_v6', 'new_v7') for x in terms(e.args[1]))
                if fresh: cx.ob(f'{name}: own prefix', True)
                elif not [x for x in terms(e.args[1]) if x[0] in ('call', 'unk', 'elem')]: cx.ob(f'{name}: own prefix', False, wh(e), f'contents are stored under {show(e.args[1])[:50]}, shared with other submissions')
                else: cx.skip(f'{name}: own prefix', show(e.args[1])[:60])
                if e.args[2][0] == 'v': cx.ob(f'{name}: direction', last(e.args[2][1]) == 'Input', wh(e), f'contents are stored as {show(e.args[2])[:30]}')
                whole(cx, name, f, p, e)
            if p.result() == 'Ok' and p.out == 'val': cx.ob(f'{name}: announced', bool(ins), f.path, 'success is returned without announcing the submission')
    f = method(cx, 'insert_submission_direct')
    if f is not None:
        for p in paths(cx, f):
            for i, e in ev(p, 'insert_submission'):
                s = fields(e.args[1])
                if not s: cx.skip('direct', show(e.args[1])[:60]); continue
                c = s.get('chunk_contents')
                kind = last(c[1]) if isinstance(c, tuple) and c[0] in ('struct', 'v') else None
                if kind is None: cx.skip('direct', show(c)[:50]); continue
                cx.ob('direct: contents', kind == 'Direct' and param(fields(c).get('contents'), 'chunk_contents'), wh(e), f'{show(c)[:60]} is announced')
                own(cx, 'direct', p, s, e)


def own(cx, name, p, s, e):
    """The other parts of the submission are those given."""
    for n in ('metadata', 'strategic_metadata', 'chunk_size'):
        if n not in s: continue
        t = s[n]
        ps = {x[2] for x in terms(t) if x[0] == 'param'}
        if ps: cx.ob(f'{name}: {n}', n in ps, wh(e), f'{n} is {show(t)[:50]}')
        elif isinstance(t, tuple) and (t[0] == 'lit' or t[0] == 'v' and last(t[1]) == 'None'): 
            if not any(param(a, n) and b == 'None' for a, b in p.st.vari.items()): cx.ob(f'{name}: {n}', False, wh(e), f'{n} is dropped')
    if len(e.args) > 2: cx.ob(f'{name}: trace', any(param(x, 'otel_trace_carrier') for x in terms(e.args[2])), wh(e), 'the trace context given is not sent')


def whole(cx, name, f, p, e):
    """The stream stored is the producer's iterator, whole, with its errors."""
    s = e.args[3] if len(e.args) > 3 else None
    if s is None: return
    lossy = [x for x in terms(s) if x[0] == 'call' and last(str(x[1])) in ('take', 'skip', 'filter', 'filter_map', 'take_while', 'skip_while', 'step_by', 'flatten', 'map_while', 'scan', 'buffer_unordered', 'rev', 'chunks')]
    if lossy: cx.ob(f'{name}: everything', False, wh(e), f'the contents pass through {last(str(lossy[0][1]))}, which can leave some out'); return
    fn = [x for x in terms(s) if x[0] == 'call' and last(str(x[1])) == 'from_fn']
    if not fn: cx.skip(f'{name}: everything', show(s)[:60]); return
    clo = fn[0][2][0]
    for q in cx.w.value_paths(clo, p.I, p.st):
        if q.out == 'panic': continue
        if q.out != 'val': cx.skip(f'{name}: everything', 'loop'); continue
        nx = [x for i, x in ev(q, 'next', 'call_method0', '__next__') if i >= len(p.ev)]
        if len(nx) != 1: cx.ob(f'{name}: everything', False, wh(e), f'{len(nx)} items are taken from the iterator for each chunk'); continue
        r = nx[0].res
        cx.ob(f'{name}: everything', any(x[0] == 'param' and x[2] == 'chunk_contents' for x in terms(r)), wh(e), 'the items do not come from the iterator given')
        st = is_(q, r)
        if st == 'None': cx.ob(f'{name}: end', q.val == r or isinstance(q.val, tuple) and q.val[0] == 'v' and last(q.val[1]) == 'None', wh(e), 'something is stored after the end of the iterator')
        elif st == 'Some' and isinstance(q.val, tuple) and q.val[0] == 'v':
            item = ('pl', r, 'Some', 0)
            cx.ob(f'{name}: item', last(q.val[1]) == 'Some', wh(e), 'the upload ends at an item as if the iterator had ended')
            if last(q.val[1]) != 'Some': continue
            inner = q.val[2][0]
            if is_(q, item) == 'Err': cx.ob(f'{name}: input error', isinstance(inner, tuple) and inner[0] == 'v' and last(inner[1]) == 'Err', wh(e), 'an error of the producer\'s iterator is taken for an item')
            ext = [x.res for i, x in ev(q, 'extract') if i >= len(p.ev)]
            if any(is_(q, x) == 'Err' for x in ext): cx.ob(f'{name}: input error', isinstance(inner, tuple) and inner[0] == 'v' and last(inner[1]) == 'Err', wh(e), 'an item that is not bytes is taken for one')
        else: cx.skip(f'{name}: end', show(q.val)[:60])


# ---- C29 ----
WAITS = ('blocking_stream_completed_submission_chunks', 'async_stream_completed_submission_chunks', 'try_stream_completed_submission_chunks', 'run_submission_chunks')
FINAL = ('Completed', 'Failed', 'Cancelled')


@rule('final-states', 'waiting ends as soon as the state is final: the outputs of a completed submission, the failure and its chunk of a failed one; it goes on only while the submission is in progress', 'C29', floor=8)
def r_final(cx):
    for name in WAITS:
        f = method(cx, name)
        if f is None: continue
        for p in paths(cx, f, NEW):
            gs = ev(p, 'get_submission')
            if not gs or interrupted(p): continue
            i, g = gs[-1]
            a = g.args[1] if len(g.args) > 1 else None
            if name != 'run_submission_chunks': cx.ob(f'{name}: asks for', bool(a) and named(a) in ('id', 'submission_id'), wh(g), f'the state of {show(a)[:40]} is asked for')
            elif calls(a, 'insert_submission'): cx.ob(f'{name}: asks for', True)
            else: cx.ob(f'{name}: asks for', False, wh(g), f'the state of {show(a)[:40]} is asked for')
            if is_(p, g.res) != 'Ok': continue
            opt = ('pl', g.res, 'Ok', 0)
            s = ('pl', opt, 'Some', 0)
            if is_(p, opt) == 'None': continue
            st = is_(p, s)
            # states this path can be in
            can = (st,) if isinstance(st, str) else tuple(x for x in ('InProgress',) + FINAL if x not in st)
            if st == () and is_(p, opt) == (): can = ('InProgress',) + FINAL
            mk = [(j, e) for j, e in ev(p, 'new') if e.path.endswith(NEW)]
            for j, e in mk:
                cx.ob(f'{name}: results', can == ('Completed',), wh(e), f'results are returned for a submission that may be {", ".join(x for x in can if x != "Completed")}')
                c = ('pl', s, 'Completed', 0)
                if can == ('Completed',):
                    cx.ob(f'{name}: all chunks', e.args[2] == ('field', c, 'chunks_total'), wh(e), f'{show(e.args[2])[:60]} chunks are read instead of all of them')
                    pf = e.args[1]
                    if isinstance(pf, tuple) and pf[0] == 'pl' and pf[2] == 'Some': cx.ob(f'{name}: prefix', pf[1] == ('field', c, 'prefix'), wh(e), f'results are read from {show(pf)[:60]}')
            if p.out == 'val' and p.result() == 'Ok':
                cx.ob(f'{name}: returned', bool(mk) and any(has(p.val, e.res) for j, e in mk), f.path, 'something else than the results is returned')
            elif p.out == 'val' and p.result() == 'Err' or p.out == 'val' and p.result() is None:
                fl = ('pl', s, 'Failed', 0)
                sf = [x for x in terms(p.val) if x[0] in ('struct', 'v') and last(x[1]) in ('SubmissionFailed', 'SubmissionFailedError')]
                if sf:
                    cx.ob(f'{name}: failure', can == ('Failed',), f.path, f'a submission that may be {", ".join(x for x in can if x != "Failed")} is reported failed')
                    if can == ('Failed',): cx.ob(f'{name}: cause', has(p.val, ('pl', s, 'Failed', 1)) or any(x[0] == 'pl' and x[1] == s and x[3] == 1 for x in terms(p.val)), f.path, 'the failed chunk is not reported')
                elif can == ('Failed',): cx.ob(f'{name}: failure', False, f.path, f'the failure is reported as {show(p.val)[:60]}')
                elif can == ('Completed',): cx.ob(f'{name}: results', False, f.path, 'a completed submission is answered with an error')
                else:
                    for x in can:
                        if x in FINAL and not name.startswith('try_'): cx.ob(f'{name}: {x}', not calls(p.val, 'NotCompletedYet') and not any(y[0] == 'v' and 'NotCompletedYet' in str(y[1]) for y in terms(p.val)), f.path, f'a {x.lower()} submission is reported as not completed yet')
            elif p.out == 'loop':
                for x in can:
                    if x in FINAL: cx.ob(f'wait: {x}', False, wh(g), f'the wait goes on for ever when the submission is {x}')
                    else: cx.ob(f'wait: {x}', True)
            elif p.out == 'panic': cx.ob(f'{name}: no panic', False, wh(g), f'panics when the submission is {" or ".join(can)}')


def const_time(t):
    return isinstance(t, tuple) and t and t[0] == 'call' and last(str(t[1])).startswith('from_') and all(isinstance(x, tuple) and x[0] == 'lit' for x in t[2])


@rule('polling', 'while the submission is in progress it is asked again after a pause that stays below a fixed bound', 'C29', floor=2)
def r_poll(cx):
    for name in WAITS[:2]:
        f = method(cx, name)
        if f is None: continue
        for p in paths(cx, f, NEW):
            gs = ev(p, 'get_submission')
            if p.out != 'loop' or not gs or interrupted(p): continue
            sl = [e for i, e in ev(p, 'sleep', 'sleep_until', 'tick')]
            cx.ob(f'{name}: pause', bool(sl), wh(gs[0][1]), 'the server is asked again without a pause')
            for e in sl:
                d = e.args[0]
                if const_time(d): cx.ob(f'{name}: bound', True); continue
                if not (isinstance(d, tuple) and d[0] == 'phi'): cx.skip(f'{name}: bound', show(d)[:60]); continue
                asg = [x for x in p.ev if x.k == 'assign' and isinstance(x.lhs, tuple) and x.lhs[0] == 'local' and x.lhs[-1] == d[2]]
                if not asg: cx.ob(f'{name}: bound', True); continue
                v = asg[-1].rhs
                lim = any(x[0] == 'call' and last(str(x[1])) in ('min', 'clamp') and any(const_time(y) for y in x[2]) for x in terms(v))
                lim = lim and not (isinstance(v, tuple) and v[0] == 'bin')
                grd = any(isinstance(c, tuple) and c[0] == 'bin' and c[1] in ('<', '<=', '>', '>=') and has(c, d) and any(const_time(y) for y in c[2:]) and b == (c[1] in ('<', '<=') and c[2] == d or c[1] in ('>', '>=') and c[3] == d) for c, b in p.st.path)
                if lim or grd or const_time(v): cx.ob(f'{name}: bound', True)
                elif isinstance(v, tuple) and v[0] == 'bin' and v[1] in ('*', '+') and has(v, d) or calls(v, 'saturating_mul', 'mul_f32', 'mul_f64', 'saturating_add', 'checked_mul'): cx.ob(f'{name}: bound', False, wh(e), f'the pause grows without bound: {show(v)[:60]}')
                else: cx.skip(f'{name}: bound', show(v)[:60])


@rule('result-stream', 'iterating gives the chunk contents of the stream one after the other, its errors as exceptions, and ends when it ends', 'C29', 'C31', floor=4)
def r_stream(cx):
    f = cx.fn(NEW)
    if f is not None:
        for p in cx.paths(f, atomic=cx.P.atoms('ObjectStoreClient::retrieve_chunks')):
            rs = ev(p, 'retrieve_chunks')
            cx.ob('stream: reads', len(rs) == 1, f.path, 'the outputs are not read')
            for i, e in rs:
                a = e.args[1:]
                cx.ob('stream: prefix', named(a[0]) == 'prefix' or not param(a[0]), wh(e), f'outputs are read from {show(a[0])[:50]}')
                cx.ob('stream: count', param(a[1]) and a[1][2] != 'prefix' or not isinstance(a[1], tuple) or a[1][0] not in ('lit', 'bin'), wh(e), f'{show(a[1])[:40]} outputs are read')
                if a[2][0] == 'v': cx.ob('stream: direction', last(a[2][1]) == 'Output', wh(e), f'{show(a[2])[:30]} chunks are read as results')
                if p.out == 'val': cx.ob('stream: kept', has(p.val, e.res), f.path, 'the stream of outputs is not the one iterated')
    for k, g in sorted(exposed(cx).items()):
        if g.name not in ('__next__', '__anext__'): continue
        ps = []
        for p in cx.paths(g):
            fut = [x for x in terms(p.val) if x[0] == 'async'] if p.out == 'val' and calls(p.val, 'future_into_py') else []
            ps += cx.w.value_paths(fut[0], p.I, p.st) if fut else [p]
        for p in ps:
            if p.out != 'val': continue
            # the item: what the stream gave, directly or from a task of its own
            nx = [e for i, e in ev(p, 'next', 'try_next')]
            jn = [e for e in p.ev if e.k == 'spawn']
            cx.ob(f'{g.name}: takes one', len(nx) + len(jn) <= 1, g.path, 'more than one item is taken from the stream at a time')
            if not nx and not jn: cx.ob(f'{g.name}: takes one', False, g.path, 'nothing is taken from the stream'); continue
            if jn:
                for q in cx.w.value_paths(jn[0].task, p.I, p.st) if jn[0].task is not None else []:
                    if q.out != 'val': continue
                    n2 = ev(q, 'next', 'try_next')
                    cx.ob(f'{g.name}: item', len(n2) == 1 and has(q.val, n2[0][1].res), g.path, f'{len(n2)} items are taken from the stream at a time')
            known = {t: is_(p, t) for t in list(p.st.vari) if not (isinstance(t, tuple) and t[0] == 'call' and last(str(t[1])) == 'future_into_py')}
            end = any(v == 'None' for t, v in known.items())
            err = any(v == 'Err' for t, v in known.items() if not calls(t, 'spawn') or t[0] == 'pl')
            if g.name == '__anext__':
                stop = bool(calls(p.val, 'new_err')) and 'StopAsyncIteration' in show(p.val) or any(e.k in ('call', 'enter') and 'StopAsyncIteration' in e.path for e in p.ev)
                if end: cx.ob(f'{g.name}: end', stop and p.result() == 'Err', g.path, 'the end of the stream does not end the iteration')
                elif stop: cx.ob(f'{g.name}: end', False, g.path, 'the iteration ends although the stream did not')
                elif err: cx.ob(f'{g.name}: error', p.result() == 'Err', g.path, 'an error of reading a result is answered with a value')
                elif known: cx.ob(f'{g.name}: value', p.result() == 'Ok', g.path, 'a result is answered with an error')
