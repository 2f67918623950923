"""Values and errors crossing between the native library and Python (C31)."""
import ast, os, re
from .. import facts as F
from .. import py as PY
from ..core import rule, short, wh, TECH
from ..interp import show, terms, last, calls
from .. import prog as PR
from .util import *
from .native import pyfns, exposed, CLIENT
from .pyside import reader

TECH['C31'] = 'dataflow from each field of a native value to the field Python sees, per state; dispatch table of the error conversions against the exception classes and their hierarchy; error flow along every path of the exposed methods'

# fields the Python chunk takes from elsewhere than a field of the same name
ALIAS = {'submission_prefix': ('prefix',), 'submission_metadata': ('metadata',), 'submission_otel_trace_carrier': ('otel_trace_carrier',)}
INNER = ('common::', 'producer::', 'consumer::', 'errors::')


def conversions(cx):
    for k, f in sorted(pyfns(cx).items()):
        if f.name in ('from', 'from_internal', 'into', 'try_from') and '__py' not in k and k.startswith(('py::common', 'py::<common')): yield k, f


def clsname(f):
    """What is converted to what, for messages."""
    m = re.search(r'From<&?([^>]+(?:<.*?>)?)>> ?(?:for ([\w:]+))?', f.path)
    t = re.match(r'<([\w:]+) as', f.path)
    if m: return f'{last(m.group(1))} -> {last(m.group(2) or (t.group(1) if t else "?"))}'
    return f.path.replace('common::', '')


def roots(t):
    return [x for x in terms(t) if x[0] == 'param']


def peel(t):
    while isinstance(t, tuple) and t and (t[0] == 'v' and last(t[1]) in ('Ok', 'Some', 'CError') and len(t[2]) == 1): t = t[2][0]
    return t


def structs(t):
    """Structs and enum values built inside t (not inside calls of unknown functions)."""
    if not isinstance(t, tuple) or not t: return
    if t[0] == 'struct' and t[1].startswith(INNER):
        yield t
        for n, v in t[2]: yield from structs(v)
    elif t[0] == 'v':
        for v in t[2]: yield from structs(v)
    elif t[0] == 'tuple':
        for v in t[1]: yield from structs(v)


def src(t):
    """Root value the field is read from, and the field, through payloads: (root, field) or None."""
    while isinstance(t, tuple) and t and t[0] == 'pl' and t[2] in ('Some', 'Ok', 'Err'): t = t[1]
    return t


@rule('fields', 'every field of a value handed to Python, or taken from it, comes from the field of the same name', 'C31', 'C38', floor=25)
def r_fields(cx):
    for k, f in conversions(cx):
        try: ps = cx.paths(f)
        except Exception: cx.skip(k, 'too many paths'); continue
        for p in ps:
            if p.out != 'val': continue
            for s in structs(p.val):
                own = last(s[1])
                fs = dict(s[2])
                for n, t in fs.items():
                    name = f'{clsname(f)}: {n}'
                    if n in ('submission', 'chunk', 'meta_key', 'underlying'): continue  # rule states
                    if next(structs(t), None) is not None and not (isinstance(t, tuple) and t[0] == 'v'): continue  # looked at on its own
                    payload(cx, f, p, name, own, n, t)


def payload(cx, f, p, name, own, n, t):
    raw = t
    if isinstance(t, tuple) and t[0] == 'v' and last(t[1]) == 'None':
        # absent: only when the source is absent (or, for the prefix, when the content came with the chunk)
        known = [b for a, b in p.st.vari.items() if is_field(a, n) or any(is_field(a, x) for x in ALIAS.get(n, ()))]
        inline = n == 'submission_prefix' and any(is_field(a, 'input_content') and b == 'Some' for a, b in p.st.vari.items())
        return cx.ob(name, 'None' in known or inline, f.path, f'{n} is left out although the native value has it')
    if isinstance(t, tuple) and t[0] == 'v' and last(t[1]) in ('Some', 'Ok') and len(t[2]) == 1: t = t[2][0]
    t = src(t)
    allowed = (n,) + ALIAS.get(n, ())
    if n == 'id' and isinstance(t, tuple) and t[0] == 'param': return cx.ob(name, True)
    if n == 'id' and own in ('SubmissionId', 'ChunkIndex') and isinstance(t, tuple) and t[0] == 'field': return cx.ob(name, t[2] in ('id', 'submission_id', 'chunk_index', '0') and (t[2] not in ('submission_id', 'chunk_index') or (t[2] == 'submission_id') == (own == 'SubmissionId')), f.path, f'{own} is built from {t[2]}')
    if isinstance(t, tuple) and t[0] == 'field' and t[2] in ('0', 'id') and isinstance(t[1], tuple) and t[1][0] == 'field' and t[1][2] not in ('0',): t = t[1]
    if isinstance(t, tuple) and t[0] == 'field':
        return cx.ob(name, t[2] in allowed, f.path, f'{n} is taken from {show(t)[:60]}')
    if not roots(t):
        if n == 'submission_otel_trace_carrier' and any(calls(a, 'from_str') and b == 'Err' for a, b in p.st.vari.items()): return cx.ob(name, True)
        if isinstance(t, tuple) and (t[0] in ('lit', 'default', 'v') or t[0] == 'call' and not t[2]): return cx.ob(name, False, f.path, f'{n} is {show(t)[:40]}, not the value of the native field')
        return cx.skip(name, show(t)[:60])
    if n == 'input_content':
        g = calls(t, 'get')
        return cx.ob(name, any(is_field(x, 'chunk_index') for x in terms(g[0])), f.path, f'{n} is {show(t)[:60]}') if g else cx.skip(name, show(t)[:60])
    if n == 'submission_otel_trace_carrier':
        g = calls(t, 'from_str')
        if g: return cx.ob(name, any(is_field(x, 'otel_trace_carrier') for x in terms(g[0])), f.path, f'{n} is read from {show(g[0])[:60]}')
    fl = {x[2] for x in terms(t) if x[0] == 'field' and x[2] != '0'}
    if isinstance(t, tuple) and t[0] == 'bin' and not (fl & set(allowed)) or (isinstance(t, tuple) and t[0] == 'bin' and any(lit(x) is not None for x in t[2:])): return cx.ob(name, False, f.path, f'{n} is {show(t)[:60]}')
    if fl and not fl & set(allowed) and n not in ('id', 'underlying', 'stream', 'runtime'): return cx.ob(name, False, f.path, f'{n} is computed from {", ".join(sorted(fl))}')
    if n not in fl | {'id', 'underlying'}: cx.skip(name, show(t)[:60])


@rule('states', 'every state, strategy and reason keeps its identity, and carries the values of that state', 'C31', floor=12)
def r_states(cx):
    for k, f in conversions(cx):
        if not re.search(r'Strategy|SubmissionStatus|SubmissionNotCancellable', f.path): continue
        for p in cx.paths(f):
            if p.out != 'val': continue
            t = peel(p.val)
            if f.name == 'from_internal' or not isinstance(t, tuple): continue
            mine = [(a, b) for a, b in p.st.vari.items() if isinstance(src(a), tuple) and (src(a)[0] == 'param' or src(a)[0] == 'field' and isinstance(src(a)[1], tuple) and src(a)[1][0] == 'param')]
            if not mine: cx.skip(clsname(f), 'no state tested'); continue
            a, b = mine[0]
            if t[0] == 'v': v, fs = last(t[1]), {str(i): x for i, x in enumerate(t[2])}
            elif t[0] == 'struct': v, fs = last(t[1]), dict(t[2])
            elif t[0] == 'param': continue
            else: cx.skip(f'{clsname(f)}: {b}', show(t)[:60]); continue
            cx.ob(f'{clsname(f)}: {b}', v == b, f.path, f'{b} becomes {v}')
            if v != b: continue
            for n, x in fs.items():
                pls = [y for y in terms(x) if y[0] == 'pl' and y[1] == a]
                if n == 'underlying':
                    # converted in turn: what it became is what it was
                    under = [(c, w) for c, w in p.st.vari.items() if any(y[0] == 'pl' and y[1] == a and y[3] == 'underlying' for y in terms(c)) and w not in ('Some', 'Ok')]
                    kind = [last(y[1]) for y in terms(x) if y[0] in ('v', 'struct') and last(y[1]) in ('Oldest', 'Newest', 'Random', 'PreferDistinct')]
                    if kind and not under and not roots(x): cx.ob(f'{clsname(f)}: {b}.{n}', False, f.path, f'what is inside {b} becomes {kind[0]}'); continue
                    if under and kind: cx.ob(f'{clsname(f)}: {b}.{n}', kind[0] == under[0][1], f.path, f'{under[0][1]} inside {b} becomes {kind[0]}'); continue
                pos = {'submission': 0, 'chunk': 1}.get(n)
                if not pls: cx.skip(f'{clsname(f)}: {b}.{n}', show(x)[:60])
                elif pos is not None: cx.ob(f'{clsname(f)}: {b}.{n}', all(y[3] == pos for y in pls), f.path, f'{n} is taken from part {pls[0][3]} of {b}')
                elif n in ('meta_key', 'underlying'): cx.ob(f'{clsname(f)}: {b}.{n}', all(y[3] == n for y in pls), f.path, f'{n} is taken from {pls[0][3]}')


# ---- errors ----
def targets(cx):
    """(class of the native error, conversion) of every conversion to a Python exception."""
    for k, f in sorted(pyfns(cx).items()):
        m = re.match(r'.*From<errors::CError<(.*)>> for pyo3::err::PyErr>::from$', f.path)
        if m: yield m.group(1), f


def raised(p):
    return [(last(e.path.rsplit('::', 1)[0]), e) for e in p.ev if e.k == 'call' and e.path.endswith('::new_err')]


def wanted(t):
    base = re.match(r'[\w:]+', t).group(0)
    n = last(base)
    return n if n.endswith('Error') else {'IncorrectUsage': 'IncorrectUsageError', 'UnexpectedOpsqueueConsumerServerResponse': 'UnexpectedOpsqueueConsumerServerResponseError'}.get(n, n + 'Error')


PASSED = ('FatalPythonException', 'E', 'PyErr')


def paramof(t):
    """Strip positions off: what the value ultimately is, as a list of positions below the parameter."""
    pos = []
    while isinstance(t, tuple) and t and (t[0] in ('field', 'pl') or t[0] == 'call' and last(str(t[1])) in ('from', 'into') and len(t[2]) == 1):
        if t[0] == 'call': t = t[2][0]; continue
        pos.append(t[2] if t[0] == 'field' else f'{t[2]}.{t[3]}'); t = t[1]
    return (t[0] == 'param' if isinstance(t, tuple) and t else False), list(reversed(pos))


@rule('error-class', 'each kind of native error is raised as its own exception class, with the values it carries', 'C31', floor=14)
def r_class(cx):
    news = tuple(g.path for k, g in pyfns(cx).items() if k.endswith('::new_err'))
    for t, f in targets(cx):
        n = last(re.match(r'[\w:]+', t).group(0))
        for p in cx.paths(f, atomic=news + tuple(g.path for k, g in pyfns(cx).items() if last(k) == 'from' and 'common::' in k and 'PyErr' not in (g.self_ty or ''))):
            if p.out == 'panic': cx.ob(f'{n}: raised', False, f.path, 'the conversion of the error panics'); continue
            if p.out != 'val': cx.skip(n, 'loop'); continue
            if n in PASSED:
                ok, pos = paramof(peel(p.val))
                if n == 'E':
                    side = [b for a, b in p.st.vari.items()]
                    cx.ob(f'{n}: passed on', ok and bool(pos) and side and pos[-1] == f'{side[0]}.0', f.path, f'{show(p.val)[:50]} is raised for the {side[:1]} error')
                else: cx.ob(f'{n}: passed on', ok, f.path, f'{show(p.val)[:50]} is raised instead of the exception itself')
                continue
            rs = raised(p)
            if len(rs) != 1: cx.skip(n, f'{len(rs)} exceptions made'); continue
            c, e = rs[0]
            cx.ob(f'{n}: class', c == wanted(t), wh(e), f'raised as {c}, not as {wanted(t)}')
            arg = e.args[0] if e.args else None
            args = arg[1] if isinstance(arg, tuple) and arg[0] == 'tuple' else (arg,)
            cx.ob(f'{n}: tells', arg is not None and any(x[0] == 'param' for x in terms(arg)), wh(e), 'the exception says nothing about the error')
            if n in ('SubmissionNotFound', 'TooManyMatchingSubmissions'): cx.ob(f'{n}: value', paramof(args[0])[0], wh(e), f'the exception is given {show(args[0])[:50]}')
            if n == 'SubmissionFailed':
                ps = [paramof(a) for a in args]
                cx.ob(f'{n}: values', len(args) == 2 and ps[0] == (True, ['0', '0']) and ps[1] == (True, ['0', '1']), wh(e), f'the exception is given {show(arg)[:80]}')
            if n == 'SubmissionNotCancellable':
                st = [b for a, b in p.st.vari.items()]
                cx.ob(f'{n}: submission', paramof(args[0])[0], wh(e), f'the exception is given {show(args[0])[:50]}')
                if len(args) > 1 and isinstance(args[1], tuple) and args[1][0] == 'v':
                    cx.ob(f'{n}: chunk', (last(args[1][1]) == 'Some') == ('Failed' in st), wh(e), 'the failed chunk does not come with the failed submission')
                elif len(args) < 2 and 'Failed' in st: cx.ob(f'{n}: chunk', False, wh(e), 'the failed chunk is left out')
    # the wrapper keeps the error
    for k, f in pyfns(cx).items():
        m = re.match(r'<errors::CError<.*> as core::convert::From<(.*)>>::from$', f.path)
        if not m: continue
        for p in cx.paths(f):
            if p.out != 'val': continue
            def inside(t):
                while isinstance(t, tuple) and t and t[0] == 'v' and len(t[2]) == 1: yield last(t[1]); t = t[2][0]
                yield t
            ch = list(inside(p.val))
            cx.ob(f'CError from {last(m.group(1))}', paramof(ch[-1])[0], f.path, 'the error is not the one wrapped')
            if 'FatalPythonException' in m.group(1) or 'PyErr' in m.group(1): cx.ob(f'CError from {last(m.group(1))}: side', 'R' not in ch, f.path, 'an exception from Python is taken for an error of another kind')


IMPORT = re.compile(r'import_exception!\s*\(\s*([\w.]+)\s*,\s*(\w+)\s*,?\s*\)')


def classes(y, mod):
    m = y.mod(mod)
    out = {}
    for n, d in (m['defs'].items() if m else ()):
        if d[0] == 'class': out[n] = d[1]
    return out


def mro(cs, n):
    out = []
    todo = [n]
    while todo:
        x = todo.pop(0)
        if x in out: continue
        out.append(x)
        if x in cs: todo += [b.id if isinstance(b, ast.Name) else b.attr if isinstance(b, ast.Attribute) else '?' for b in cs[x].bases]
    return out


USAGE = ('TryFromIntError', 'ChunkNotFoundError', 'SubmissionNotFoundError', 'NewObjectStoreClientError', 'SubmissionNotCompletedYetError', 'TooManyMatchingSubmissionsError', 'ChunkCountIsZeroError')
INTERNAL = ('UnexpectedOpsqueueConsumerServerResponseError', 'ChunkRetrievalError', 'ChunksStorageError', 'ChunkStorageError', 'InternalConsumerClientError', 'InternalProducerClientError')
OTHER = ('SubmissionFailedError', 'SubmissionNotCancellableError')


@rule('exception-classes', 'every exception the native library raises exists in Python, belongs to its documented group and to no other, and keeps what it was given', 'C31', floor=20)
def r_classes(cx):
    y = reader(cx)
    cs = classes(y, 'exceptions')
    if not cs: return cx.skip('exceptions', 'module not found')
    d = os.path.join(F.REPO, 'libs/opsqueue_python/src')
    for fn in sorted(os.listdir(d)):
        if not fn.endswith('.rs'): continue
        txt = re.sub(r'//[^\n]*', '', open(os.path.join(d, fn)).read())
        for m in IMPORT.finditer(txt):
            mod, n = m.groups()
            if not mod.startswith('opsqueue.'): continue
            ms = y.mod(mod.split('.', 1)[1])
            cx.ob(f'{n}: exists', ms is not None and n in ms['defs'], f'libs/opsqueue_python/src/{fn}', f'there is no {n} in {mod}')
    path = 'libs/opsqueue_python/python/opsqueue/exceptions.py'
    known = USAGE + INTERNAL + OTHER
    for n in known:
        if n not in cs: continue
        bases = mro(cs, n)[1:]
        where = f'{path}:{cs[n].lineno}'
        if '?' in bases: cx.skip(n, 'base class not a name'); continue
        cx.ob(f'{n}: group', ('IncorrectUsageError' in bases) == (n in USAGE) and ('OpsqueueInternalError' in bases) == (n in INTERNAL), where, f'{n} derives from {", ".join(bases)}')
        cx.ob(f'{n}: apart', not set(bases) & set(known), where, f'a handler for {", ".join(set(bases) & set(known))} also catches {n}')
        cx.ob(f'{n}: exception', 'BaseException' not in bases and any(b.endswith(('Exception', 'Error')) for b in bases), where, f'{n} is not an ordinary exception')
    for n in ('IncorrectUsageError', 'OpsqueueInternalError'):
        if n in cs:
            bases = mro(cs, n)[1:]
            cx.ob(f'{n}: base', ('TypeError' in bases) == (n == 'IncorrectUsageError') and 'BaseException' not in bases, f'{path}:{cs[n].lineno}', f'{n} derives from {", ".join(bases)}')
    for n, c in cs.items():
        if '__init__' not in y.methods('exceptions', n): continue
        try: ps = y.run_method('exceptions', n, '__init__')
        except PY.Limit as e: cx.skip(n, str(e)); continue
        f = y.method(('class', 'exceptions', n), '__init__')
        a = y.nodes[f[3]].args
        names = [x.arg for x in (a.posonlyargs + a.args + a.kwonlyargs)[1:]]
        for p in ps:
            if p.out != 'ret': cx.ob(f'{n}: made', False, f'{path}:{c.lineno}', f'{n} cannot be made'); continue
            sets = {e.name: e for e in p.ev if e.k == 'setattr' and e.obj[0] == 'self'}
            for q in names:
                if q in sets: cx.ob(f'{n}: {q}', sets[q].val == ('param', q), sets[q].where, f'{q} of {n} is {PY.show(sets[q].val)[:50]}')
                else: cx.ob(f'{n}: {q}', False, f'{path}:{c.lineno}', f'{n} does not keep {q}')
            for q, e in sets.items():
                if q in names: continue
                v = e.val
                cx.ob(f'{n}: {q}', not (v[0] == 'attr') or v[2] == q, e.where, f'{q} of {n} is {PY.show(v)[:50]}')


# ---- error flow ----
@rule('errors-surface', 'an error of the server, the network or the object store is what the caller of the method gets; it is never answered with a value or a panic', 'C31', 'C28', 'C29', 'C27', floor=12)
def r_surface(cx):
    at = cx.P.atoms(*CLIENT)
    for k, f in sorted(exposed(cx).items()):
        if f.name == 'run_per_chunk' or f.name.startswith('__'): continue
        if not f.path.startswith(('producer::', 'consumer::')): continue
        for p in cx.paths(f, atomic=at):
            if p.out == 'loop': continue
            es = [(i, e) for i, e in enumerate(p.ev) if e.k == 'call' and e.path in at]
            for i, e in es:
                r = getattr(e, 'res', None)
                if r is None: continue
                if p.st.vari.get(r) != 'Err': continue
                if sum((x.k == 'hof') - (x.k == 'endhof') for x in p.ev[:i]) > 0:
                    # one element of a stream: its consumer must stop at errors
                    ends = [x for x in p.ev[i:] if x.k == 'call' and last(x.path).startswith('try_')]
                    if ends: cx.ob(f'{f.name}: {last(e.path)}', True)
                    else:
                        lost = [last(x.path) for x in p.ev[i:] if x.k == 'call' and last(x.path) in ('filter_map', 'flatten', 'flat_map', 'ok', 'unwrap_or_default')]
                        if lost: cx.ob(f'{f.name}: {last(e.path)}', False, wh(e), f'an error is dropped by {lost[0]}')
                        else: cx.skip(f'{f.name}: {last(e.path)}', 'error inside a stream')
                    continue
                if p.out == 'panic': cx.ob(f'{f.name}: {last(e.path)}', False, wh(e), 'an error is answered with a panic'); continue
                again = [x for j, x in es if j > i]
                if p.result() == 'Err':
                    v = p.val[2][0] if isinstance(p.val, tuple) and p.val[0] == 'v' and p.val[2] else p.val
                    cx.ob(f'{f.name}: {last(e.path)}', any(x == r for x in terms(v)) or bool(again) or bool(calls(v, 'check_signals', 'take')), wh(e), f'the error raised is {show(v)[:60]}, not the one that happened')
                elif again: cx.skip(f'{f.name}: {last(e.path)}', 'goes on after the error')
                else: cx.ob(f'{f.name}: {last(e.path)}', p.result() != 'Ok', wh(e), 'an error is answered with a value')


@rule('ids-checked', 'an identifier made in Python is refused unless the server could have generated it', 'C31', 'C38', floor=2)
def r_ids(cx):
    for n in ('SubmissionId', 'ChunkIndex'):
        fs = [f for k, f in pyfns(cx).items() if f.path == f'common::{n}::new']
        if not fs: cx.skip(n, 'constructor not found'); continue
        for p in cx.paths(fs[0]):
            t = peel(p.val)
            if p.result() == 'Ok':
                fs_ = fields(t)
                if not fs_: cx.skip(n, show(p.val)[:50]); continue
                checked = [a for a, b in p.st.vari.items() if b == 'Ok' and calls(a, 'try_from')] or [c for c, b in p.st.path if any(x[0] == 'param' for x in terms(c))]
                cx.ob(f'{n}: checked', bool(checked), fs[0].path, 'any number is accepted as an identifier')
                cx.ob(f'{n}: value', paramof(src(fs_.get('id')))[0] or bool(calls(fs_.get('id'), 'try_from')), fs[0].path, f'the identifier is {show(fs_.get("id"))[:50]}')
            elif p.out == 'panic': cx.ob(f'{n}: refused', False, fs[0].path, 'an invalid number panics')
            elif p.result() is None and p.out == 'val': cx.ob(f'{n}: checked', False, fs[0].path, 'any number is accepted as an identifier') if t[0] == 'struct' else cx.skip(n, show(p.val)[:50])


@rule('answers', 'what the server or the object store answered is what the method returns', 'C31', 'C25', floor=5)
def r_answers(cx):
    at = cx.P.atoms(*CLIENT)
    for k, f in sorted(exposed(cx).items()):
        if f.name not in ('count_submissions', 'get_submission_status', 'lookup_submission_id_by_prefix', 'lookup_submission_ids_by_strategic_metadata', 'server_version', 'insert_submission_direct', 'insert_submission_chunks', 'cancel_submission'): continue
        for p in cx.paths(f, atomic=at):
            es = [e for e in p.ev if e.k == 'call' and e.path in at and last(e.path) not in ('new', 'store_chunks')]
            if p.out != 'val': continue
            if p.result() == 'Ok' and not es: cx.ob(f'{f.name}: asked', False, f.path, 'answers without asking the server'); continue
            if p.result() != 'Ok' or len(es) != 1: continue
            r, v = es[0].res, p.val[2][0]
            if f.name == 'cancel_submission': cx.ob(f'{f.name}: answer', p.st.vari.get(r) == 'Ok', wh(es[0]), 'success is reported without one'); continue
            if isinstance(v, tuple) and v[0] == 'v' and last(v[1]) == 'None':
                some = [b for a, b in p.st.vari.items() if any(x == r for x in terms(a)) and b in ('Some', 'None')]
                cx.ob(f'{f.name}: answer', 'None' in some, wh(es[0]), 'None is returned for something that exists')
            else: cx.ob(f'{f.name}: answer', any(x == r for x in terms(v)), wh(es[0]), f'{show(v)[:50]} is returned, not the answer')
            some = [b for a, b in p.st.vari.items() if isinstance(a, tuple) and a[0] == 'pl' and a[1] == r and b in ('Some', 'None')]
            if some and isinstance(v, tuple) and v[0] == 'v' and last(v[1]) in ('Some', 'None'): cx.ob(f'{f.name}: present', last(v[1]) == some[0], wh(es[0]), f'{last(v[1])} is returned for {some[0]}')
