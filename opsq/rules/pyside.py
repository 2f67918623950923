"""Rules over the Python sources."""
from .. import facts as F
from .. import py as PY
from ..py import show, terms
from ..core import rule


def reader(cx):
    if 'py' not in cx.w.memo: cx.w.memo['py'] = PY.Py(F.REPO)
    return cx.w.memo['py']


def method(cx, mod, cls, name):
    y = reader(cx)
    ms = y.methods(mod, cls) if y.mod(mod) else {}
    if name not in ms:
        cx.skip(f'{mod}.{cls}.{name}', 'method not found'); return None, []
    try: ps = y.run_method(mod, cls, name)
    except PY.Limit as e:
        cx.skip(f'{mod}.{cls}.{name}', str(e)); return None, []
    cx.w.npaths += len(ps); cx.w.nevents += sum(len(p.ev) for p in ps)
    return y, ps


def apply(y, f, args):
    return [PY.P(o, v, s) for o, v, s in y.apply_val(f, args)]


def fname(t):
    """Last name of what a call calls."""
    f = t[1] if t[0] == 'call' else t
    if f[0] == 'attr': return f[2]
    if f[0] == 'ext': return f[1].split('.')[-1]
    return ''


def inner(t):
    """Name of the native method called, for calls on self.inner."""
    if isinstance(t, tuple) and t and t[0] == 'call' and t[1][0] == 'attr' and t[1][1][0] == 'attr' and t[1][1][2] == 'inner' and t[1][1][1][0] == 'self': return t[1][2]
    return None


def pcalls(p):
    """(event, call term) of every call of the path."""
    return [(e, e.res) for e in p.ev if e.k == 'call']


def inner_calls(p, *names):
    return [(e, r) for e, r in pcalls(p) if inner(r) in names]


def kw(t, name, pos=None):
    for k, v in t[3]:
        if k == name: return v
    if pos is not None and len(t[2]) > pos: return t[2][pos]
    return None


def has(t, s):
    return t == s or any(x == s for x in terms(t))


def carrier_rule(cx):
    for cls in ('ProducerClient',):
        for m, native in (('insert_submission', 'insert_submission_chunks'), ('insert_submission_chunks', 'insert_submission_chunks'), ('run_submission', 'insert_submission_chunks')):
            y, ps = method(cx, 'producer', cls, m)
            for p in ps:
                for e, r in inner_calls(p, native, 'insert_submission_direct'):
                    c = kw(r, 'otel_trace_carrier')
                    if c is None: cx.ob(f'{m}: sent', False, e.where, 'the submission is sent without a carrier'); continue
                    inj = [x for x in pcalls(p) if fname(x[1]) == 'inject' and (c in x[1][2] or any(v == c for k, v in x[1][3]))]
                    if c[0] == 'dict' or (c[0] == 'call' and fname(c) == 'dict' and not c[2]): cx.ob(f'{m}: sent', bool(inj), e.where, 'the carrier sent is not the one the context is written to')
                    elif c[0] == 'const': cx.ob(f'{m}: sent', False, e.where, 'the carrier sent is a constant')
                    elif c[0] == 'shared' or c[0] == 'call' and fname(c) == 'memoised': cx.ob(f'{m}: sent', False, e.where, 'the carrier sent is one that is kept from one submission to the next, so it holds the context of an earlier one')
                    else: cx.skip(m, f'carrier {show(c)[:50]}')
                    for x in inj: cx.ob(f'{m}: before', p.ev.index(x[0]) < p.ev.index(e), x[0].where, 'the context is written to the carrier after it was sent')
    y, ps = method(cx, 'consumer', 'ConsumerClient', 'run_each_op')
    for p in ps:
        for e, r in inner_calls(p, 'run_per_chunk'):
            cb = [a for a in r[2] if a[0] == 'fn'] + [v for k, v in r[3] if v[0] == 'fn']
            if not cb: cx.skip('run_each_op', 'callback not understood'); continue
            chunk = ('param', 'chunk')
            for q in apply(y, cb[0], [chunk]):
                ctx = [(f, kw(t, 'context', 1)) for f, t in pcalls(q) if fname(t) in ('start_as_current_span', 'start_span')]
                for f, c in ctx:
                    if c is None: cx.ob('consumer: parent', False, f.where, 'the span of a chunk has no parent context'); continue
                    own = has(c, ('attr', chunk, 'submission_otel_trace_carrier'))
                    ex = [t for t in terms(c) if t[0] == 'call' and fname(t) == 'extract']
                    if own: cx.ob('consumer: parent', bool(ex), f.where, 'the parent context is not read from the carrier')
                    elif c[0] == 'const' or ex or chunk not in terms(c): cx.ob('consumer: parent', False, f.where, f'the parent context is {show(c)[:50]}, not that of the chunk')
                    else: cx.skip('consumer: parent', show(c)[:60])
    # the same propagator on both sides
    got = {}
    for fn in ('current_opentelemetry_tracecontext_to_carrier', 'carrier_to_opentelemetry_tracecontext'):
        try: ps = reader(cx).run_fn('tracing', fn)
        except (PY.Limit, KeyError, TypeError): cx.skip(fn, 'not found'); continue
        for p in ps or []:
            for e, t in pcalls(p):
                if fname(t) in ('inject', 'extract') and t[1][0] == 'attr': got[fname(t)] = (strip(t[1][1]), e)
    if len(got) == 2:
        cx.ob('same propagator', got['inject'][0] == got['extract'][0], got['extract'][1].where, f"written with {show(got['inject'][0])[:50]}, read with {show(got['extract'][0])[:50]}")


def strip(t):
    """Without identities of calls."""
    if isinstance(t, tuple) and t and t[0] == 'call': return ('call', strip(t[1]), tuple(strip(x) for x in t[2]), tuple(t[3]) if len(t) > 3 else ())
    if isinstance(t, tuple): return tuple(strip(x) for x in t)
    return t
