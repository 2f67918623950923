"""C32: the trace context from producer to consumer."""
from .. import prog as PR
from ..core import rule, wh, short
from ..interp import show, terms, subterms, last, calls
from .util import *
from .consumer import pl_eq, has

INJ = ('inject_context', 'inject')
EXT = ('extract', 'extract_with_context')
MUT = {'retain', 'remove', 'insert', 'clear', 'drain', 'extract_if', 'extend', 'append', 'truncate', 'entry', 'pop', 'iter_mut', 'values_mut', 'get_mut', 'take', 'swap', 'filter', 'remove_entry', 'try_insert', 'try_append', 'filter_map', 'skip', 'step_by'}
KINDS = ('BaggagePropagator', 'TraceContextPropagator')


def users(cx):
    """Functions of the crates that call a propagator themselves."""
    for k, f in sorted(cx.P.fns.items()):
        if f.body is None: continue
        for n in PR.walk(f.body):
            c = PR.callee(n) or ''
            if last(c) in INJ + EXT and 'propagation' in c: yield f; break


def kinds(t, p=None):
    """(propagators known to be inside, has parts not understood)."""
    got, unk = set(), False
    for e in (p.ev if p else ()):   # a list that is filled afterwards
        if e.k == 'call' and e.args and last(e.path) in ('push', 'extend', 'insert', 'append', 'push_back', 'extend_from_slice') and e.args[0][0] in ('call', 'array', 'local', 'phi', 'mac', 'v') and (any(x == e.args[0] for x in terms(t)) or e.args[0][0] in ('local', 'phi')):
            g, u = set(), last(e.path) != 'push'
            for a in e.args[1:]:
                g2, u2 = kinds(a); g |= g2; u = u or u2
            got |= g; unk = unk or u
    for x in terms(t):
        if x[0] == 'call':
            p = str(x[1])
            for k in KINDS:
                if k in p: got.add(k); break
            else:
                if last(p) == 'default' and not x[2]: unk = True
                if 'global' in p: unk = True
        elif x[0] in ('param', 'elem', 'static', 'const', 'phi', 'unk', 'field'): unk = True
        elif x[0] in ('v', 'struct'):
            for k in KINDS:
                if k in str(x[1]): got.add(k)
    return got, unk


@rule('propagators', 'every place that writes or reads a carrier uses both the trace-context and the baggage propagator', 'C32', floor=4)
def r_prop(cx):
    for f in users(cx):
        for p in cx.paths(f):
            for i, e in evs(p, *(INJ + EXT)):
                if 'propagation' not in e.path: continue
                g, unk = kinds(e.args[0], p)
                if len(g) < 2 and unk: cx.skip(short(f.path), 'propagator not understood'); continue
                for k in KINDS: cx.ob(f'{short(f.path)}: {k}', k in g, wh(e), f'{short(f.path)} does not handle what {k} carries')


def touched(cx, subject, p, t, allowed):
    """Whether t is changed on the path other than by the allowed calls."""
    for e in p.ev:
        if e.k != 'call' or not e.args: continue
        if any(a == t for a in e.args) and last(e.path) not in allowed:
            if last(e.path) in MUT: return e
            cx.skip(subject, f'{last(e.path)} of the carrier')
        if e.k == 'assign' and e.lhs == t: return e
    return None


def json_literal(t):
    import json
    if t[0] != 'lit' or not isinstance(t[1], str): return None
    try: return json.loads(t[1])
    except Exception: return ''


def injected(p, ctx=None):
    """[(event, carrier)] of injections on the path, with the carrier under its adapter."""
    out = []
    for i, e in evs(p, *INJ):
        if 'propagation' not in e.path: continue
        c = e.args[-1]
        while c[0] in ('v', 'struct') and len(c[2]) == 1:
            x = c[2][0]
            c = x[1] if c[0] == 'struct' else x
        out.append((e, c))
    return out


@rule('write-carrier', 'the carrier returned is the very one the given context was written to, nothing removed, and a failure to encode yields a valid empty carrier', 'C32', floor=3)
def r_write(cx):
    for name in ('tracing::context_to_json', 'tracing::context_to_headers', 'tracing::current_context_to_json'):
        f = cx.fn(name)
        if f is None: continue
        for p in cx.paths(f):
            cx.ob(f'{short(f.path)}: no panic', p.out == 'val', f.where, f'{f.name} can panic')
            if p.out != 'val': continue
            inj = injected(p)
            cx.ob(f'{short(f.path)}: writes', len(inj) >= 1, f.where, f'{f.name} returns a carrier without writing the context to it')
            if len(inj) != 1: continue
            e, c = inj[0]
            src = e.args[1] if last(e.path) == 'inject_context' else None
            if f.params and src is not None:
                cx.ob(f'{short(f.path)}: context', param(src), wh(e), f'the context written is {show(src)[:60]}, not the one given')
            elif src is not None:
                names = {last(str(x[1])) for x in terms(src) if x[0] == 'call'}
                if 'current' in names and 'context' in names: cx.ob(f'{short(f.path)}: context', True)
                elif names & {'new', 'default', 'none'} and 'current' not in names: cx.ob(f'{short(f.path)}: context', False, wh(e), f'the context written is {show(src)[:60]}, not that of the current span')
                else: cx.skip(f.path, f'context {show(src)[:50]}')
            t = touched(cx, short(f.path), p, c, set(INJ) | {'to_string', 'default', 'to_string_pretty', 'len', 'is_empty', 'to_writer', 'to_vec', 'with_capacity'})
            cx.ob(f'{short(f.path)}: kept', t is None, wh(t) if t else f.where, 'entries of the carrier are changed before it is returned')
            v = p.val
            if 'json' in f.name:
                if v[0] == 'pl' and v[2] == 'Ok' and v[1][0] == 'call' and 'serde_json' in str(v[1][1]):
                    cx.ob(f'{short(f.path)}: encodes', v[1][2][0] == c, f.where, f'{f.name} encodes {show(v[1][2][0])[:60]} instead of the carrier')
                elif v[0] == 'lit':
                    j = json_literal(v)
                    failed = any(c2[0] == 'is' and 'serde_json' in show_path(c2[1]) for c2, b in p.st.path if isinstance(c2, tuple))
                    cx.ob(f'{short(f.path)}: fallback', isinstance(j, dict), f.where, f'{f.name} can return {v[1]!r}, which is not a carrier')
                    cx.ob(f'{short(f.path)}: fallback only on failure', failed, f.where, f'{f.name} returns a constant although encoding did not fail')
                elif v[0] == 'default' or (v[0] == 'call' and last(str(v[1])) in ('default', 'new') and not v[2]):
                    cx.ob(f'{short(f.path)}: fallback', False, f.where, f'{f.name} can return an empty text, which is not a carrier')
                else: cx.skip(short(f.path), f'value {show(v)[:60]}')
            else:
                if v == c: cx.ob(f'{short(f.path)}: returns', True)
                elif v[0] in ('call', 'default') and not calls(v, *INJ): cx.ob(f'{short(f.path)}: returns', False, f.where, f'{f.name} returns {show(v)[:60]}, not the headers written')
                else: cx.skip(short(f.path), f'value {show(v)[:60]}')


def show_path(t):
    return ' '.join(str(x[1]) for x in terms(t) if x[0] == 'call')


@rule('read-carrier', 'a carrier that can be decoded is used as it is, one that cannot is treated as empty, without panicking', 'C32', floor=5)
def r_read(cx):
    f = cx.fn('tracing::context_from_headers')
    if f is not None:
        for p in cx.paths(f):
            cx.ob('context_from_headers: no panic', p.out == 'val', f.where, 'headers can cause a panic')
            if p.out != 'val': continue
            x = [e for i, e in evs(p, *EXT) if 'propagation' in e.path]
            cx.ob('context_from_headers: reads', bool(x), f.where, 'the headers are not read')
            if not x: continue
            ok = p.val == x[-1].res
            if ok or not calls(p.val, *EXT): cx.ob('context_from_headers: returns', ok, f.where, f'returns {show(p.val)[:60]}')
            else: cx.skip('context_from_headers', show(p.val)[:60])
            cx.ob('context_from_headers: source', any(param(y) for y in terms(x[-1].args[-1])) , wh(x[-1]), 'the context is not read from the given headers')
    for name in ('tracing::json_to_context', 'tracing::json_to_carrier'):
        f = cx.fn(name)
        if f is None: continue
        s = short(f.path)
        seen = set()
        for p in cx.paths(f):
            cx.ob(f'{s}: no panic', p.out == 'val', f.where, f'{f.name} panics on malformed input')
            if p.out != 'val': continue
            dec = [e for i, e in evs(p, 'from_str', 'from_slice', 'from_reader') if 'serde_json' in e.path]
            if not dec: cx.ob(f'{s}: decodes', False, f.where, f'{f.name} returns {show(p.val)[:50]} without decoding its input'); continue
            d = dec[-1]
            cx.ob(f'{s}: source', param(d.args[0]), wh(d), f'{show(d.args[0])[:60]} is decoded instead of the input')
            okk = p.st.vari.get(d.res) or next((('Ok' if (v == (c[2] == 'Ok')) else 'Err') for c, v in p.st.path if isinstance(c, tuple) and c[0] == 'is' and c[1] == d.res), None)
            got = ('pl', d.res, 'Ok', 0)
            if okk == 'Ok':
                seen.add('Ok')
                want = [x for x in terms(p.val) if pl_eq(x, got)]
                if name.endswith('context'):
                    x = [e for i, e in evs(p, *EXT) if 'propagation' in e.path]
                    good = bool(x) and pl_eq(x[-1].args[-1], got) and p.val == x[-1].res
                    if good or not want: cx.ob(f'{s}: used', good, f.where, f'decoded carrier is not used: {show(p.val)[:60]}')
                    else: cx.skip(s, show(p.val)[:60])
                else:
                    if pl_eq(p.val, got): cx.ob(f'{s}: used', True)
                    elif not want: cx.ob(f'{s}: used', False, f.where, f'decoded carrier is not returned: {show(p.val)[:60]}')
                    elif calls(p.val, *MUT): cx.ob(f'{s}: used', False, f.where, f'part of the decoded carrier is dropped: {show(p.val)[:60]}')
                    else: cx.skip(s, show(p.val)[:60])
                t = next((e for e in p.ev if e.k == 'call' and e.args and pl_eq(e.args[0], got) and last(e.path) in MUT), None)
                cx.ob(f'{s}: kept', t is None, wh(t) if t else '', 'entries of the decoded carrier are dropped')
            elif okk == 'Err': seen.add('Err')
        if seen and 'Err' not in seen: cx.skip(s, 'no path for malformed input seen')


@rule('stored-context', 'the trace context stored with a new submission is that of the span the insertion runs in', 'C32', floor=1)
def r_stored(cx):
    from .storage import ops, subj, SU
    seen = {}
    for o in ops(cx):
        for p, us in o.units:
            for u in us:
                for s in u.get('ins', SU):
                    v = s.eff.set.get('otel_trace_carrier')
                    k = subj(s)
                    if v is None:
                        cx.ob(f'{k}: stored', False, wh(s.ev), 'the trace context is not stored'); continue
                    seen.setdefault((k, o.fn.path if hasattr(o, 'fn') else ''), []).append((v[1] if v[0] == 'arg' else v, s))
    for (k, o), l in seen.items():
        good, unk = [], []
        for t, s in l:
            if t[0] == 'param' or t[0] == 'field': unk.append(t); continue
            if t[0] == 'pl' and 'serde_json' in show_path(t): good.append(t)
            elif t[0] == 'call' and last(str(t[1])) in ('current_context_to_json', 'context_to_json'): good.append(t)
            elif t[0] == 'lit': pass
            else: unk.append(t)
        if good: cx.ob(f'{k}: stored', True)
        elif unk:
            if not all(t[0] in ('field', 'param') for t in unk): cx.skip(k, f'{show(unk[0])[:60]}')
        else: cx.ob(f'{k}: stored', False, wh(l[0][1].ev), f'the trace context stored is {show(l[0][0])[:40]}')


@rule('read-context', 'the trace context handed out with a submission is its own column', 'C32', floor=3)
def r_col(cx):
    from .reads import readers, rowof, unwrap
    for fn, p in readers(cx):
        if p.result() != 'Ok': continue
        for x in terms(p.val):
            if x[0] != 'struct' or len(x) < 3 or not rowof(x): continue
            for fld, v in x[2]:
                if fld != 'otel_trace_carrier': continue
                u = unwrap(v)
                if u[0] == 'field' and rowof(u[1]): cx.ob(f'{short(fn.path)}: {last(x[1])}', u[2] == fld, fn.where, f'otel_trace_carrier is column {u[2]}')
                elif u[0] in ('lit', 'default') or (u[0] == 'v' and last(u[1]) == 'None'): cx.ob(f'{short(fn.path)}: {last(x[1])}', False, fn.where, 'otel_trace_carrier is not read from the row')


@rule('moved-context', 'a submission that becomes completed or failed keeps its trace context', 'C32', floor=2)
def r_moved(cx):
    from .storage import ops, subj
    for o in ops(cx):
        for p, us in o.units:
            for u in us:
                for t in ('submissions_completed', 'submissions_failed'):
                    for s in u.get('ins', t):
                        e = s.eff
                        v = e.set.get('otel_trace_carrier')
                        if v is None: cx.ob(f'{subj(s)}', False, wh(s.ev), f'the trace context is not kept in {t}'); continue
                        if v[0] in ('col', 'src', 'old', 'from'): cx.ob(f'{subj(s)}', str(v[-1]).lower() == 'otel_trace_carrier', wh(s.ev), f'{t}.otel_trace_carrier gets {v}')
                        elif v[0] == 'arg': cx.ob(f'{subj(s)}', v[1][0] not in ('lit', 'unit'), wh(s.ev), f'{t}.otel_trace_carrier gets a constant')


ROUTER = ('ServerState::build_router', 'ServerState::run_background', 'consumer::server::ServerState::new', 'producer::server::ServerState::new', 'server::ping')


@rule('request-span', 'every request to the producer and consumer routes runs in a span whose parent is read from that request\'s headers', 'C32', floor=3)
def r_span(cx):
    f = cx.fn('server::build_router')
    if f is None: return
    n = 0
    ps = cx.paths(f, atomic=cx.P.atoms(*ROUTER))
    for p in ps:
        on, par = None, []
        for e in p.ev:
            if e.k == 'hof' and e.name == 'make_span_with': on, par = e, []
            elif on is not None and e.k == 'call' and last(e.path) == 'set_parent': par.append(e)
            elif on is not None and e.k == 'endhof' and e.closure == on.closure:
                n += 1
                good = [x for x in par if calls(x.args[1], *EXT) and calls(x.args[1], 'headers')]
                cx.ob('span parent', bool(good), wh(on), 'the span of a request does not get its parent from the request headers')
                if good:
                    if good[-1].args[0][0] == 'span': cx.ob('span returned', e.val == good[-1].args[0], wh(on), 'another span than the one given a parent is returned')
                    lv = good[-1].args[0][1] if good[-1].args[0][0] == 'span' else None
                    if lv: default_level(cx, lv, wh(good[-1]))
                on = None
    if not n:
        if any(evs(p, 'make_span_with') for p in ps): cx.skip('span', 'span function not understood')
        else: cx.ob('span', False, f.where, 'requests are not given a span from their headers')
        return
    p = ps[0]
    lay = [e for i, e in evs(p, 'layer', 'route_layer') if calls(e.args[1], 'make_span_with')]
    if not lay: cx.ob('applied', False, f.where, 'the layer is not applied'); return
    for r in ('/producer', '/consumer'):
        nest = [e for i, e in evs(p, 'nest', 'nest_service') if len(e.args) > 1 and e.args[1] == ('lit', r)]
        if not nest: cx.skip(r, 'route not found'); continue
        cx.ob(f'applied {r}', any(has(l.args[0], x.res) for l in lay for x in nest), wh(lay[0]), f'{r} is not covered by the span layer')


RANK = {'trace': 0, 'debug': 1, 'info': 2, 'warn': 3, 'error': 4}


def default_level(cx, lv, where):
    """The span must exist under the default filter, or nothing is recorded."""
    dirs = set()
    for k, f in cx.P.fns.items():
        if f.body is None: continue
        for nd in PR.walk(f.body):
            if last(PR.callee(nd) or '') == 'with_default_directive':
                for m in PR.walk(nd):
                    nm = str((m.get('res') or {}).get('path') or m.get('path') or '')
                    if 'LevelFilter::' in nm: dirs.add(nm.split('::')[-1].lower())
    for d in dirs & set(RANK):
        cx.ob(f'{lv} span under the default filter {d}', RANK[lv] >= RANK[d], where, f'the request span is at level {lv}, which the default filter ({d}) drops, so that the parent read from the headers is lost')


@rule('client-carrier', 'the client sends the carrier it is given as request headers, and an unusable carrier does not fail the insertion', 'C32', floor=2)
def r_client(cx):
    f = cx.fn('producer::client::Client::insert_submission')
    if f is None: return
    for p in cx.paths(f):
        snd = evs(p, 'send', 'execute')
        if not snd: continue
        hd = [e for i, e in evs(p, 'headers') if i < snd[0][0] and len(e.args) == 2]
        cx.ob('sent', bool(hd) or bool(evs(p, 'header')), f.where, 'the insertion is sent without the given carrier')
        if not hd: continue
        names = rootparams(hd[-1].args[1]) 
        if names: cx.ob('own carrier', 'otel_trace_carrier' in names or any('carrier' in x for x in names), wh(hd[-1]), f'headers are {show(hd[-1].args[1])[:60]}')
        cx.ob('headers kept', has(snd[0][1].args[-1], hd[-1].res) or has(snd[0][1].args[0], hd[-1].res), wh(hd[-1]), 'the request sent is not the one with the headers')
    bad = [p for p in cx.paths(f) if p.out == 'panic' and any(c[0] == 'is' and calls(c[1], 'try_into', 'try_from') for c, v in p.st.path if isinstance(c, tuple))]
    for p in cx.paths(f):
        for i, e in evs(p, 'try_into', 'try_from'):
            if not any('carrier' in x for x in rootparams(e.res)): continue
            fail = (p.st.vari.get(e.res) == 'Err' or any(c == ('is', e.res, 'Ok') and not v or c == ('is', e.res, 'Err') and v for c, v in p.st.path))
            if fail: cx.ob('unusable carrier', bool(evs(p, 'send', 'execute')), wh(e), 'a carrier that is not valid as headers makes the insertion fail')
    cx.ob('no panic', not bad, f.where, 'a carrier that is not valid as headers makes the insertion panic')


def carrier_of(t):
    return [x for x in terms(t) if x[0] == 'field' and 'otel_trace_carrier' in x[2]]


@rule('chunk-carrier', 'a chunk handed to Python has the carrier of its own submission', 'C32', floor=1)
def r_chunk(cx):
    for k, f in sorted(cx.P.fns.items()):
        if f.crate == 'opsqueue' or f.body is None or f.name.startswith('__'): continue
        if not any(n['k'] == 'struct' and last(str(n.get('path') or '')) in ('Chunk', 'Self') and any(x.get('name') == 'submission_otel_trace_carrier' for x in n.get('fields', []) if isinstance(x, dict)) for n in PR.walk(f.body)) and 'from_internal' not in k: continue
        for p in cx.paths(f, atomic=cx.P.atoms('tracing::json_to_carrier', 'retrieve_chunk')):
            if p.result() != 'Ok' and p.out != 'val': continue
            for x in terms(p.val):
                if x[0] != 'struct' or last(str(x[1])) != 'Chunk': continue
                fl = fields(x)
                if 'submission_otel_trace_carrier' not in fl: continue
                v = fl['submission_otel_trace_carrier']
                own = carrier_of(v)
                meta = [y for y in terms(fl.get('submission_metadata', ('unit',))) if y[0] == 'field']
                ok = bool(own) and (not meta or own[0][1] == meta[0][1])
                if ok and v[0] == 'call' and last(str(v[1])) == 'json_to_carrier': cx.ob(short(f.path), True)
                elif not own: cx.ob(short(f.path), False, f.where, f'the chunk gets carrier {show(v)[:50]}')
                elif not ok: cx.ob(short(f.path), False, f.where, 'the chunk gets the carrier of another submission')
                else: cx.skip(short(f.path), show(v)[:60])


@rule('native-producer-carrier', 'the native producer passes on the carrier it is given', 'C32', floor=2)
def r_native(cx):
    for name in ('insert_submission_direct', 'insert_submission_chunks', 'run_submission_chunks'):
        f = cx.fn('producer::ProducerClient::' + name)
        if f is None: continue
        for p in cx.paths(f, atomic=cx.P.atoms('producer::client::Client::insert_submission', 'store_chunks', 'stream_completed_submission_chunks', 'blocking_stream_completed_submission_chunks', 'common::run_unless_interrupted_')):
            for i, e in evs(p, 'insert_submission', sub='Client'):
                cx.ob(name, param(e.args[-1]) and 'carrier' in e.args[-1][2], wh(e), f'the carrier passed on is {show(e.args[-1])[:50]}')


# ------------------------------------------------------------------------------------------------ Python
@rule('python-carrier', 'the Python producer sends the carrier the current context was written to; the Python consumer reads the parent of its span from the chunk being processed with the same propagator', 'C32', floor=3)
def r_py(cx):
    from . import pyside as Y
    Y.carrier_rule(cx)
