"""The Python package: splitting into chunks and joining again (C30), arguments passed on (C30, C31)."""
import ast
from .. import py as PY
from ..py import show, terms
from ..core import rule, TECH, NOTES
from .pyside import reader, method, apply, fname, inner, pcalls, inner_calls, kw, has, strip

TECH['C30'] = 'symbolic evaluation of the Python package over its ast: normal form of the iterator pipelines handed to and taken from the native client, compared with the required pipeline'
NOTES['C30'] = 'Assumes that dumps and loads of the serialization format are inverse; for the formats of the package this is compared argument by argument.'
SZ = ('param', 'chunk_size')
FMT = ('param', 'serialization_format')
OPS = ('param', 'ops')


def params(y, mod, cls, name):
    f = y.method(('class', mod, cls), name)
    a = y.nodes[f[3]].args
    return [x.arg for x in (a.posonlyargs + a.args + a.kwonlyargs)[1:]]


def defaults(y, mod, cls, name):
    """{parameter: symbolic default}"""
    f = y.method(('class', mod, cls), name)
    a, m = y.nodes[f[3]].args, y.mod(mod)
    pos = a.posonlyargs + a.args
    pairs = list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
    out = {}
    for x, d in pairs:
        r = y.ev(d, PY.St(), m)
        if len(r) == 1 and r[0][0] == 'val': out[x.arg] = r[0][1]
    return out


def plain(t):
    """Without typing.cast and copies that keep the elements."""
    while t[0] == 'call' and (fname(t) == 'cast' and len(t[2]) == 2 or t[1][0] == 'ext' and t[1][1] in ('list', 'tuple', 'iter') and len(t[2]) == 1): t = t[2][-1]
    return t


def dumped(t):
    """What dumps of the format is given."""
    t = plain(t)
    return t[2][0] if t[0] == 'call' and t[1] == ('attr', FMT, 'dumps') and len(t[2]) == 1 else None


def loaded(t):
    t = plain(t)
    return t[2][0] if t[0] == 'call' and t[1] == ('attr', FMT, 'loads') and len(t[2]) == 1 else None


def ext(t, *names):
    return t[0] == 'call' and t[1][0] == 'ext' and t[1][1].split('.')[-1] in names


def batch(v, binders):
    """Is v one batch of chunk_size consecutive operations? True, False (definitely not) or None."""
    v = plain(v)
    if v[0] == 'elem':
        s = plain(v[1])
        if ext(s, 'batched', 'chunked'):
            n = kw(s, 'n', 1)
            st = kw(s, 'strict')
            src = plain(s[2][0])
            if ext(src, 'filter', 'islice', 'set', 'frozenset', 'sorted', 'reversed', 'takewhile', 'dropwhile', 'filterfalse', 'fromkeys', 'zip'): return False
            if src != OPS: return None if has(src, OPS) else False
            if st is not None and st != ('const', False): return False
            return True if n == SZ else (None if n is not None and n[0] == 'call' and fname(n) == 'int' and n[2] == (SZ,) else False)
        if ext(s, 'zip'): return False
        if s == OPS: return False       # one operation, not a chunk of them
        return None
    if ext(v, 'islice'):
        if len(v[2]) != 2: return None
        if plain(v[2][0]) == OPS and v[2][0][0] != 'call' and v[2][0] == OPS: return None
        if not has(v[2][0], OPS): return None
        return True if v[2][1] == SZ else False
    if v[0] in ('sub', 'subscript', 'slice', 'item'): return None
    if any(ext(x, 'fromkeys', 'set', 'frozenset', 'sorted', 'reversed', 'filter', 'dict') for x in [v] + list(terms(v)) if x[0] == 'call') or any(x[0] == 'call' and fname(x) == 'fromkeys' for x in terms(v)): return False
    return None


def falsy(c, v):
    """The condition says that a batch is empty."""
    t, b = c
    if t[0] == 'cmp' and any(x == ('const', 0) for x in t[2:]): t2 = [x for x in t[2:] if x != ('const', 0)]; return bool(t2) and ext(t2[0], 'len')
    if ext(t, 'len'): t = t[2][0]
    return b is False and (batch(t, []) is True or ext(plain(t), 'islice'))


@rule('chunks-of-ops', 'what is submitted for a sequence of operations is the sequence of its batches of chunk_size, each serialised, none left out', 'C30', floor=3)
def r_chunks(cx):
    y = reader(cx)
    for m in y.methods('producer', 'ProducerClient') if y.mod('producer') else ():
        if 'ops' not in params(y, 'producer', 'ProducerClient', m): continue
        _, ps = method(cx, 'producer', 'ProducerClient', m)
        for p in ps:
            cs = inner_calls(p, 'insert_submission_chunks', 'insert_submission_direct', 'insert_submission')
            if p.out == 'raise':
                zero = [c for c, v in p.conds if c[0] == 'cmp' and SZ in c[2:] and any(x[0] == 'const' and x[1] in (0, 1) for x in c[2:])]
                if 'ChunkSizeIsZero' in show(p.val):
                    bad = [(c, v) for c, v in p.conds if SZ in c and not refuses(c, v)]
                    cx.ob(f'{m}: refuses only 0', bool(zero) and not bad, where(y, m), 'a valid chunk size is refused')
                continue
            if p.out != 'ret': continue
            cx.ob(f'{m}: submits', bool(cs) or m.startswith('try'), where(y, m), 'nothing is submitted')
            for e, r in cs:
                src = kw(r, 'chunk_contents', 0)
                if src is None: cx.skip(m, 'no contents argument'); continue
                try: S = y.stream(plain(src))
                except (PY.Limit, TypeError, KeyError) as ex: cx.skip(m, f'{ex}'); continue
                buf = [x for x in S if any(t[0] == 'phi' for k, _ in x[2] for t in terms(k)) or x[1] is not None and any(t[0] == 'phi' for t in terms(x[1]))]
                if buf:     # operations collected in a list that is submitted when full
                    full = {(k[1], k[3]) for x in buf for k, t in x[2] if k[0] == 'cmp' and ext(k[2], 'len') and k[2][2][0][0] == 'phi' and has(k[3], SZ)}
                    if full and all(o in ('Eq', 'GtE') for o, n in full): cx.ob(f'{m}: batches of chunk_size', all(n == SZ for o, n in full), e.where, 'batches are submitted when they have another size than chunk_size')
                    else: cx.skip(m, 'batches collected by hand'); continue
                    rest = [x for x in buf if x[3] in ('yield', 'many') and any(t is True and (k[0] == 'phi' or k[0] == 'cmp' and ext(k[2], 'len') and k[3][0] == 'const') for k, t in x[2])]
                    cx.ob(f'{m}: nothing left out', bool(rest), e.where, 'operations that do not fill a batch are never submitted')
                    continue
                for b, v, c, how in S:
                    if how in ('skip', 'stop', 'end'):
                        if how == 'end' and not c or c and all(falsy(x, None) for x in c[-1:]): cx.ob(f'{m}: nothing left out', True); continue
                        if how == 'end': cx.skip(m, f'loop ends when {show(c[-1][0])[:60]}'); continue
                        if any(terms_mention(x[0], b) for x in c): cx.ob(f'{m}: nothing left out', False, e.where, f'operations are left out when {"" if c[-1][1] else "not "}{show(c[-1][0])[:60]}')
                        else: cx.skip(m, f'{how} on {[show(x[0])[:40] for x in c]}')
                        continue
                    if how == 'many': cx.skip(m, 'several values for one element'); continue
                    if how == 'raise': continue
                    d = dumped(v)
                    if d is None:
                        if has(v, FMT): cx.skip(m, f'contents {show(v)[:60]}')
                        else: cx.ob(f'{m}: serialised', False, e.where, f'the contents are {show(v)[:50]}, not serialised with the format given')
                        continue
                    k = batch(d, b)
                    if k is None: cx.skip(m, f'batches {show(d)[:60]}')
                    else: cx.ob(f'{m}: batches of chunk_size', k, e.where, f'{show(d)[:70]} is not a batch of chunk_size operations')


def terms_mention(c, b):
    return any(e in list(terms(c)) or e == c for s, e in b) or True


def refuses(c, v):
    """chunk_size is at most 0 under the condition."""
    for n in (-5, 0, 1, 2, 100):
        def val(t): return n if t == SZ else t[1] if t[0] == 'const' else None
        a, b = val(c[2]), val(c[3])
        if a is None or b is None or not isinstance(a, (int, float)) or not isinstance(b, (int, float)): return True
        t = {'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b, 'Eq': a == b, 'NotEq': a != b}.get(c[1])
        if t is None: return True
        if t == v and n >= 1: return False
    return True


def where(y, m, mod='producer', cls='ProducerClient'):
    f = y.method(('class', mod, cls), m)
    return y.where(y.mod(mod), y.nodes[f[3]])


@rule('ops-of-chunks', 'the results given out are the operations of every chunk of results, deserialised, in order, none left out or changed', 'C30', floor=4)
def r_results(cx):
    y = reader(cx)
    for m in y.methods('producer', 'ProducerClient') if y.mod('producer') else ():
        ps_ = params(y, 'producer', 'ProducerClient', m)
        if 'serialization_format' not in ps_ or m.startswith('insert'): continue
        _, ps = method(cx, 'producer', 'ProducerClient', m)
        for p in ps:
            if p.out != 'ret': continue
            try: S = y.stream(plain(p.val))
            except (PY.Limit, TypeError, KeyError) as ex: cx.skip(m, f'{ex}'); continue
            w = where(y, m)
            for b, v, c, how in S:
                if how == 'raise': continue
                if how in ('skip', 'stop', 'end', 'many'):
                    if how == 'end': cx.skip(m, 'a loop of its own'); continue
                    srcs = [x for x in c if any(e == t for t in terms(x[0]) for s, e in b)] or c
                    # an empty chunk of results may be passed over
                    if how == 'skip' and len(b) < 2 and c and empty_test(c[-1], b): cx.ob(f'{m}: nothing left out', True); continue
                    cx.ob(f'{m}: nothing left out', False, w, f'results are left out ({how}) ' + (f'when {"" if c[-1][1] else "not "}{show(c[-1][0])[:60]}' if c else ''))
                    continue
                if len(b) != 2: cx.skip(m, f'results {show(v)[:60]}'); continue
                (s1, e1), (s2, e2) = b
                native = plain(s1)
                ok = native[0] == 'call' and inner(native) is not None and 'stream_completed' in inner(native)
                if not ok: cx.skip(m, f'source {show(native)[:60]}')
                else:
                    want = {'try': 'try_', 'blo': 'blocking_', 'asy': 'async_', 'run': 'blocking_'}.get(m[:3])
                    a = native[2][0] if native[2] else kw(native, 'submission_id')
                    ins = inner_calls(p, 'insert_submission_chunks', 'insert_submission_direct')
                    if ins: cx.ob(f'{m}: of its own submission', a is not None and plain(a) == ins[-1][1], w, f'the results of {show(a)[:40]} are given out, not those of the submission made')
                    else: cx.ob(f'{m}: of the submission asked for', a == ('param', 'submission_id'), w, f'the results of {show(a)[:40]} are given out')
                d = s2
                while plain(d) != d: d = plain(d)
                if ext(d, 'reversed', 'sorted', 'set', 'frozenset', 'filter', 'dict'): cx.ob(f'{m}: in order', False, w, f'the results pass through {d[1][1]}'); continue
                if ext(plain(s1), 'reversed', 'sorted', 'set', 'frozenset'): cx.ob(f'{m}: in order', False, w, 'the chunks of results are reordered'); continue
                l = loaded(d)
                if l is None and d[0] == 'call' and fname(d) == 'loads': cx.ob(f'{m}: each chunk decoded', False, w, f'the results are decoded by {show(d[1])[:40]}, not with the format given')
                elif l is None: cx.skip(m, f'chunk decoded as {show(d)[:60]}')
                else: cx.ob(f'{m}: each chunk decoded', plain(l) == e1, w, f'{show(l)[:40]} is decoded')
                v2 = plain(v) if v[0] == 'call' and fname(v) == 'cast' else v
                cx.ob(f'{m}: results unchanged', v2 == e2, w, f'{show(v)[:50]} is given out instead of the result')


def empty_test(c, b):
    t, v = c
    if ext(t, 'len'): t = t[2][0]
    return v is False and (loaded(t) is not None)


@rule('callback', 'the result of a chunk is the serialised list of what the callback returned for each of its operations, in order', 'C30', 'C28', floor=3)
def r_callback(cx):
    y = reader(cx)
    chunk = ('param', 'chunk')
    for m in y.methods('consumer', 'ConsumerClient') if y.mod('consumer') else ():
        if not m.startswith('run_each'): continue
        _, ps = method(cx, 'consumer', 'ConsumerClient', m)
        for p in ps:
            if p.out != 'ret': continue
            cs = inner_calls(p, 'run_per_chunk')
            cx.ob(f'{m}: runs', bool(cs), where(y, m, 'consumer', 'ConsumerClient'), 'no chunks are run')
            for e, r in cs:
                s = kw(r, 'strategy', 0)
                cx.ob(f'{m}: own strategy', s == ('param', 'strategy'), e.where, f'chunks are reserved with {show(s)[:40]}')
                cb = kw(r, 'chunk_callback', 1)
                if cb is None: cb = kw(r, 'callback', 1)
                if cb is None: cx.skip(m, 'no callback'); continue
                if cb[0] == 'param': cx.ob(f'{m}: callback', cb == ('param', 'chunk_callback'), e.where, 'another callback is run'); continue
                if cb[0] != 'fn': cx.skip(m, f'callback {show(cb)[:40]}'); continue
                for q in apply(y, cb, [chunk]):
                    if q.out not in ('val', 'ret'): continue
                    d = dumped(q.val)
                    if d is None:
                        if has(q.val, FMT): cx.skip(m, f'result {show(q.val)[:60]}')
                        else: cx.ob(f'{m}: serialised', False, e.where, f'the result of a chunk is {show(q.val)[:50]}, not serialised with the format given')
                        continue
                    own = ('attr', chunk, 'input_content')
                    if 'op_callback' in params(y, 'consumer', 'ConsumerClient', m):
                        try: S = y.stream(d)
                        except (PY.Limit, TypeError, KeyError) as ex: cx.skip(m, f'{ex}'); continue
                        for b, v, c, how in S:
                            if how == 'raise': continue
                            if how != 'yield': cx.ob(f'{m}: every operation', False, e.where, 'operations of a chunk are passed over, so results no longer match operations'); continue
                            src = b[0][0]
                            if len(b) != 1: cx.skip(m, 'nested loops'); continue
                            if ext(src, 'reversed', 'sorted', 'set', 'frozenset', 'filter'): cx.ob(f'{m}: in order', False, e.where, f'operations pass through {src[1][1]}'); continue
                            l = loaded(src)
                            if l is None: cx.skip(m, f'operations {show(src)[:50]}')
                            else: cx.ob(f'{m}: decoded', l == own, e.where, f'{show(l)[:40]} is decoded instead of the contents of the chunk')
                            okv = v[0] == 'call' and v[1] == ('param', 'op_callback')
                            if okv: cx.ob(f'{m}: callback of each', v[2] == (b[0][1],) and not v[3], e.where, f'the callback is given {[show(x)[:30] for x in v[2]]}')
                            elif any(x[0] == 'call' and x[1] == ('param', 'op_callback') for x in terms(v)): cx.skip(m, f'{show(v)[:60]}')
                            else: cx.ob(f'{m}: callback of each', False, e.where, f'{show(v)[:50]} is the result of an operation, not what the callback returned')
                    else:
                        d = plain(d)
                        ok = d[0] == 'call' and d[1] == ('param', 'chunk_callback')
                        if not ok:
                            if any(x[0] == 'call' and x[1] == ('param', 'chunk_callback') for x in terms(d)): cx.skip(m, f'{show(d)[:60]}')
                            else: cx.ob(f'{m}: callback', False, e.where, 'the result is not what the callback returned')
                            continue
                        l = loaded(d[2][0]) if d[2] else None
                        cx.ob(f'{m}: decoded', l == own, e.where, 'the callback is not given the decoded contents of the chunk')
                        cx.ob(f'{m}: chunk', len(d[2]) == 2 and d[2][1] == chunk, e.where, 'the callback is not given the chunk')


PASS = ('metadata', 'strategic_metadata', 'chunk_size', 'submission_id', 'submission_prefix', 'chunk_index', 'output_content', 'failure', 'prefix', 'strategy', 'max')


@rule('passes-on', 'every argument reaches the native client as given, under its own name or place, and what the native client answers is what is returned', 'C31', 'C30', 'C28', 'C29', floor=15)
def r_pass(cx):
    y = reader(cx)
    native = native_params(cx)
    for mod, cls in (('producer', 'ProducerClient'), ('consumer', 'ConsumerClient')):
        for m in y.methods(mod, cls) if y.mod(mod) else ():
            if m.startswith('__') and m != '__init__': continue
            _, ps = method(cx, mod, cls, m)
            own = params(y, mod, cls, m)
            for p in ps:
                if p.out == 'raise' and not any(inner(r) for e, r in pcalls(p)): continue
                for e, r in pcalls(p):
                    if inner(r) is None: continue
                    names = native.get((cls, inner(r)))
                    if names is None: cx.skip(f'{m}: {inner(r)}', 'native method not found'); continue
                    given = dict(zip(names, r[2])) | dict(r[3])
                    cx.ob(f'{m}: arguments of {inner(r)}', len(r[2]) <= len(names) and all(k in names for k, v in r[3]), e.where, f'{inner(r)} does not take these arguments')
                    for n, v in given.items():
                        v = plain(v)
                        if n in PASS and n in own: cx.ob(f'{m}: {n}', v == ('param', n), e.where, f'{inner(r)} is given {show(v)[:50]} as {n}')
                        elif v[0] == 'param' and v[1] in PASS and v[1] != n and n in PASS: cx.ob(f'{m}: {n}', False, e.where, f'{inner(r)} is given {v[1]} as {n}')
                    for n in own:
                        if n in PASS and n in names and n not in given: cx.ob(f'{m}: {n}', False, e.where, f'{n} is not passed on to {inner(r)}')
                if p.out == 'ret' and cls and not m.startswith(('run', 'async_run', '__')) and 'serialization_format' not in own:
                    ins = [r for e, r in pcalls(p) if inner(r)]
                    if not ins: continue
                    v = plain(p.val)
                    if v == ('const', None): cx.ob(f'{m}: answer', m in ('cancel_submission', 'complete_chunk', 'fail_chunk', 'run_per_chunk'), where(y, m, mod, cls), 'the answer of the native client is dropped')
                    elif v == ins[-1]: cx.ob(f'{m}: answer', True)
                    elif has(v, ins[-1]): cx.skip(m, f'answer {show(v)[:60]}')
                    else: cx.ob(f'{m}: answer', False, where(y, m, mod, cls), f'{show(v)[:50]} is returned, not the answer of the native client')


def native_params(cx):
    """{(class, method): parameter names} of the native classes."""
    from .native import exposed
    out = {}
    for k, f in exposed(cx).items():
        cls = k.split('::')[-2]
        out[(cls, f.name)] = [q.get('name') for q in f.params if q.get('name') not in ('self', 'py', None)]
    return out


@rule('defaults', 'every default argument is one the native client accepts, and both ends use the same serialization format by default', 'C30', 'C31', floor=6)
def r_defaults(cx):
    y = reader(cx)
    fmts = {}
    for mod, cls in (('producer', 'ProducerClient'), ('consumer', 'ConsumerClient')):
        for m in y.methods(mod, cls) if y.mod(mod) else ():
            for n, d in defaults(y, mod, cls, m).items():
                w = where(y, m, mod, cls)
                if n == 'strategy':
                    if d[0] == 'call' and len(d[1]) and not d[2] and show(d[1]).split('.')[-1] in ('Random', 'Newest', 'Oldest'): cx.ob(f'{m}: default strategy', True)
                    elif d[0] in ('attr', 'ext', 'class'): cx.ob(f'{m}: default strategy', False, w, f'the default strategy is the class {show(d)[:40]}, which the native client refuses; an instance is needed')
                    else: cx.skip(f'{m}: default strategy', show(d)[:50])
                elif n == 'serialization_format': fmts[f'{mod}.{m}'] = (d, w)
                elif n in ('metadata', 'strategic_metadata', 'chunk_size'): cx.ob(f'{m}: default {n}', d == ('const', None), w, f'{n} is {show(d)[:40]} when not given')
                elif n == 'max': cx.ob(f'{m}: default max', d[0] == 'const' and isinstance(d[1], int) and d[1] >= 1, w, f'{show(d)} chunks are reserved by default')
    if fmts:
        one = next(iter(fmts.values()))[0]
        for k, (d, w) in fmts.items():
            if d[0] in ('ext', 'class', 'attr', 'param'): cx.ob(f'{k}: default format', d == one, w, f'the default format is {show(d)[:40]} here but {show(one)[:40]} elsewhere')
            else: cx.skip(k, show(d)[:50])


LOSSY = {'skipkeys', 'default', 'cls', 'object_hook', 'object_pairs_hook', 'parse_float', 'parse_int', 'parse_constant'}


@rule('json-format', 'the JSON format of the package reads back what it writes', 'C30', floor=1)
def r_json(cx):
    y = reader(cx)
    m = y.mod('common')
    for cls, d in (m['defs'].items() if m else ()):
        if d[0] != 'class' or not {'dumps', 'loads'} <= set(y.methods('common', cls)): continue
        if any('Protocol' in ast.unparse(b) for b in d[1].bases): continue
        ds, ls = y.run_method('common', cls, 'dumps'), y.run_method('common', cls, 'loads')
        for p in ds:
            if p.out != 'ret': cx.ob(f'{cls}: writes', p.out == 'raise', where(y, 'dumps', 'common', cls), 'nothing is written'); continue
            for q in ls:
                if q.out != 'ret': continue
                w = where(y, 'dumps', 'common', cls)
                dj = [t for t in terms(p.val) if t[0] == 'call' and t[1][0] == 'ext' and t[1][1].endswith(('.dumps', '.dump'))] 
                lj = [t for t in terms(q.val) if t[0] == 'call' and t[1][0] == 'ext' and t[1][1].endswith(('.loads', '.load'))]
                if not dj or not lj: cx.skip(cls, 'not based on another format'); continue
                cx.ob(f'{cls}: same format', dj[0][1][1].rsplit('.', 1)[0] == lj[0][1][1].rsplit('.', 1)[0], w, f'written with {dj[0][1][1]}, read with {lj[0][1][1]}')
                cx.ob(f'{cls}: the value', dj[0][2][:1] == (('param', 'obj'),) and q.val == lj[0], w, 'something else than the value is written or read')
                kws = {k for k, v in dj[0][3] if v != ('const', None) and v != ('const', False)} | {k for k, v in lj[0][3] if v != ('const', None)}
                cx.ob(f'{cls}: nothing dropped', not kws & LOSSY, w, f'{sorted(kws & LOSSY)} changes values on the way')
                enc = [t for t in terms(p.val) if t[0] == 'call' and t[1][0] == 'attr' and t[1][2] == 'encode']
                dec = [t for t in terms(q.val) if t[0] == 'call' and t[1][0] == 'attr' and t[1][2] == 'decode']
                def code(t): 
                    x = (kw(t, 'encoding', 0) or ('const', 'utf-8'))
                    return str(x[1]).lower().replace('_', '-').replace('utf8', 'utf-8')
                def err(t): return kw(t, 'errors', 1)
                if enc and dec:
                    asc = not any(k == 'ensure_ascii' and v == ('const', False) for k, v in dj[0][3])
                    fam = {'utf-8', 'ascii', 'us-ascii', 'latin-1', 'latin1', 'iso-8859-1', 'utf-8-sig'}
                    cx.ob(f'{cls}: encoding', code(enc[0]) == code(dec[0]) or asc and {code(enc[0]), code(dec[0])} <= fam - {'utf-8-sig'}, w, f'encoded as {code(enc[0])}, decoded as {code(dec[0])}')
                    bad = [x for x in (err(enc[0]), err(dec[0])) if x is not None and x[0] == 'const' and x[1] in ('ignore', 'replace', 'backslashreplace', 'xmlcharrefreplace', 'namereplace')]
                    cx.ob(f'{cls}: nothing replaced', asc or not bad, w, 'characters that cannot be encoded are dropped')
