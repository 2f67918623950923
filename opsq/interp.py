"""Path-sensitive abstract interpreter over the exported HIR.

Enumerates the structured control-flow paths of a function (callees of the repository inlined), and
records on each path the events that matter: calls, SQL statements, transaction brackets,
assignments, spawned tasks, loop entry/exit. Values are hash-consed terms (value numbering): moves,
borrows, derefs, clones and conversions are transparent, so a value keeps its identity through
temporaries and helper functions. Loops contribute zero or one generic iteration with loop-carried
variables replaced by `phi` terms. No solver is involved: a branch on a value with a known variant
or a condition decided earlier on the path is pruned, every other branch forks.
"""
import json, re
from . import prog as PR

TRANSPARENT = {
    'clone', 'into', 'to_owned', 'to_string', 'as_ref', 'as_mut', 'as_str', 'borrow', 'borrow_mut', 'deref', 'deref_mut',
    'from', 'try_into_ok', 'as_slice', 'as_bytes', 'into_inner_ref', 'cloned', 'copied', 'by_ref', 'into_iter', 'iter', 'iter_mut',
    'into_boxed_str', 'into_future', 'boxed', 'boxed_local', 'pin', 'as_deref', 'as_deref_mut', 'as_millis_', 'cast_signed',
    'cast_unsigned', 'get_inner', 'instrument', 'in_current_span', 'into_string', 'to_vec', 'into_vec', 'into_bytes',
    'into_stream', 'fuse_', 'identity', 'cast_', 'into_py_any_', 'unsigned_abs', 'with_current_context', 'with_context_',
}
TRANSPARENT_PATH = re.compile(
    r'(::clone::Clone::clone$|::convert::Into::into$|::convert::From::from$|::borrow::ToOwned::to_owned$|string::ToString::to_string$'
    r'|::boxed::Box::<.*>::(pin|new)$|::Instrument::(instrument|in_current_span)$|IntoFuture::into_future$|::pin::Pin::<.*>::new(_unchecked)?$'
    r'|convert::AsRef::as_ref$|ops::deref::Deref(Mut)?::deref(_mut)?$|sync::Arc::<.*>::(new|clone)$|convert::identity$|u63::new$|FutureExt::boxed$|StreamExt::boxed$)')
SCOPES = re.compile(r"(Python::?<?.*>?::(detach|attach|allow_threads|with_gil|try_attach_)$|Runtime::block_on$|Handle::block_on$|Span::in_scope$|::block_in_place$|scoped_block_on_$)")
QUERY_MACROS = {'query', 'query_as', 'query_scalar', 'query_unchecked', 'query_as_unchecked', 'query_scalar_unchecked'}
EXEC = {'fetch_one', 'fetch_optional', 'fetch_all', 'fetch', 'execute', 'fetch_many', 'execute_many'}
TWO = {'Ok': 'Err', 'Err': 'Ok', 'Some': 'None', 'None': 'Some', 'Continue': 'Break', 'Break': 'Continue'}


def mask_bits(t):
    """The branches a `select!` mask built by `mask |= 1 << i` switches off."""
    if isinstance(t, tuple) and t and t[0] == 'bin' and t[1] in ('|', '|='): return mask_bits(t[2]) | mask_bits(t[3])
    if isinstance(t, tuple) and t and t[0] == 'bin' and t[1] == '<<' and t[2] == ('lit', 1) and t[3][0] == 'lit': return frozenset((t[3][1],))
    if isinstance(t, tuple) and t and t[0] == 'lit' and isinstance(t[1], int): return frozenset(i for i in range(64) if t[1] >> i & 1)
    return frozenset()


class Limit(Exception):
    pass


class St:
    """Path state."""
    __slots__ = ('env', 'ev', 'conds', 'vari', 'nvari', 'path')

    def __init__(self):
        self.env, self.ev, self.conds, self.vari, self.nvari, self.path = {}, [], {}, {}, {}, []

    def copy(self):
        s = St.__new__(St)
        s.env, s.ev, s.conds, s.vari, s.nvari, s.path = dict(self.env), list(self.ev), dict(self.conds), dict(self.vari), dict(self.nvari), list(self.path)
        return s


class Ev:
    """Event on a path."""
    __slots__ = ('k', 'a', 'node', 'fn', 'ncond', 'depth')

    def __init__(self, k, node, fn, ncond, **a):
        self.k, self.a, self.node, self.fn, self.ncond = k, a, node, fn, ncond
        self.depth = None   # length of the call stack

    def __getattr__(self, n):
        try:
            return self.a[n]
        except KeyError:
            raise AttributeError(n)

    def get(self, n, d=None):
        return self.a.get(n, d)

    @property
    def where(self):
        sp = (self.node or {}).get('sp') or '?'
        return f'{sp.rsplit(":", 1)[0]} ({self.fn.path if self.fn else "?"})'

    def __repr__(self):
        return f'<{self.k} ' + ' '.join(f'{k}={show(v)}' for k, v in self.a.items()) + '>'


def show(t, d=0):
    if isinstance(t, tuple):
        if not t: return '()'
        if d > 6: return '…'
        k = t[0]
        if k == 'lit': return json.dumps(t[1])
        if k == 'param': return t[2]
        if k == 'field': return f'{show(t[1], d)}.{t[2]}'
        if k == 'v': return f"{t[1].split('::')[-1]}({', '.join(show(x, d + 1) for x in t[2])})"
        if k in ('call',): return f"{t[1].split('::')[-1]}({', '.join(show(x, d + 1) for x in t[2])})" + (f'#{t[3]}' if len(t) > 3 and t[3] else '')
        if k == 'bin': return f'({show(t[2], d + 1)} {t[1]} {show(t[3], d + 1)})'
        if k == 'pl': return f'{show(t[1], d + 1)}!{t[2]}.{t[3]}'
        if k in ('closure', 'async'): return f'<{k}@{t[3]}>'
        if k == 'struct': return t[1].split('::')[-1] + '{' + ', '.join(f'{a}:{show(b, d + 1)}' for a, b in t[2]) + '}'
        if k == 'query': return f'query({t[1] if isinstance(t[1], str) else show(t[1])[:60]!r})'
        return '(' + ' '.join(show(x, d + 1) for x in t) + ')'
    return str(t)


def subterms(t):
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            yield x
            st.extend(x)


def terms(t):
    """Tagged sub-terms (head is a string, at least one operand) of t."""
    for x in subterms(t):
        if len(x) > 1 and isinstance(x[0], str): yield x


def calls(t, *names):
    """Call sub-terms of t whose function is named one of `names`."""
    return [x for x in terms(t) if x[0] == 'call' and len(x) > 2 and last(str(x[1])) in names]


def mentions(t, sub):
    return any(x == sub for x in subterms(t))


class Path:
    """A finished path: how it ended, the value, and its events and branch decisions."""
    __slots__ = ('out', 'val', 'st', 'I')

    def __init__(self, out, val, st):
        self.out, self.val, self.st = out, val, st

    @property
    def ev(self): return self.st.ev

    def result(self):
        """'Ok' / 'Err' / None for the returned value, using what the path knows."""
        v = self.val
        if self.out != 'val': return self.out
        return variant_of(v, self.st)

    def pay(self, i=0):
        v = self.val
        if v[0] == 'v' and len(v[2]) > i: return v[2][i]
        return None


def last(p):
    return p.split('::')[-1]


def variant_of(v, st):
    if isinstance(v, tuple) and v and v[0] == 'v': return last(v[1])
    return st.vari.get(v)


class Interp:
    def __init__(self, P, inline=None, models=None, max_paths=6000, depth=14, unroll_hof=True, atomic=()):
        self.P = P
        self.inline = inline or (lambda f: True)
        self.atomic = set(atomic)
        self.models = models or {}
        self.max_paths = max_paths
        self.depth = depth
        self.nfork = 0
        self.nodes = {}
        self.frames = 0
        self.ctr = 0
        self.stack = []

    # ---- entry points -------------------------------------------------------------------------
    def run(self, fn, args=None, st=None, finish=True):
        """All paths of `fn` with symbolic parameters; async functions are run to completion."""
        st = st or St()
        if args is None:
            args = []
            for i, p in enumerate(fn.params):
                args.append(('param', fn.path, p.get('name') or f'arg{i}'))
        res = self.invoke(fn, args, st, node=None)
        out = []
        for o, v, s in res:
            out.append((o, v, s))
        if fn.is_async and finish:
            nxt = []
            for o, v, s in out:
                if o == 'val' and v and v[0] in ('async', 'asyncfn'):
                    nxt.extend(self.force(v, s, None))
                else:
                    nxt.append((o, v, s))
            out = nxt
        return [Path(o, v, s) for o, v, s in out]

    def run_value(self, v, st=None, args=()):
        """All paths of a closure/async value (e.g. a spawned task)."""
        st = st.copy() if st else St()
        if v[0] == 'closure':
            res = self.call_closure(v, list(args), st, None)
        else:
            res = [('val', v, st)]
        out = []
        for o, x, s in res:
            if o == 'val' and x and x[0] in ('async', 'asyncfn'):
                out.extend(self.force(x, s, None))
            else:
                out.append((o, x, s))
        return [Path(o, x, s) for o, x, s in out]

    # ---- helpers ------------------------------------------------------------------------------
    def fork(self, n=1):
        self.nfork += n
        if self.nfork > self.max_paths:
            raise Limit(f'more than {self.max_paths} branch forks')

    def emit(self, st, k, node, **a):
        e = Ev(k, node, self.stack[-1][0] if self.stack else None, len(st.path), **a)
        e.depth = len(self.stack)
        st.ev.append(e)

    def fresh(self):
        self.ctr += 1
        return self.ctr

    @property
    def crate(self):
        return self.stack[-1][0].crate if self.stack else 'opsqueue'

    @property
    def frame(self):
        return self.stack[-1][1]

    def seq(self, exprs, st, frame):
        """Evaluates a list of expressions; yields (out, [values] | value, state)."""
        cur = [('val', [], st)]
        for e in exprs:
            nxt = []
            for o, vs, s in cur:
                if o != 'val':
                    nxt.append((o, vs, s)); continue
                for o2, v, s2 in self.ev(e, s, frame):
                    nxt.append(('val', vs + [v], s2) if o2 == 'val' else (o2, v, s2))
            cur = nxt
        return cur

    # ---- function invocation ------------------------------------------------------------------
    def invoke(self, fn, args, st, node):
        """Calls a repository function (async: returns the future without running it)."""
        self.frames += 1
        fr = self.frames
        self.stack.append((fn, fr))
        try:
            cur = [st]
            for p, a in zip(fn.params, args):
                nxt = []
                for s in cur:
                    for m, s2 in self.match(p, a, s, fr):
                        if m: nxt.append(s2)
                cur = nxt
            out = []
            for s in cur:
                for o, v, s2 in self.ev(fn.body, s, fr):
                    if o == 'ret': o = 'val'
                    if o == 'val' and fn.is_async and v[0] == 'async':
                        pass
                    out.append((o, v, s2))
            return out
        finally:
            self.stack.pop()

    def invoke_mut(self, fn, args, st, node):
        fr = self.frames + 1
        out = self.invoke(fn, args, st, node)
        for p, a in zip(fn.params, args):
            if p['k'] != 'bind' or a[0] != 'struct': continue
            for o, v, s in out:
                n = s.env.get((fr, p['id']))
                if n is not None and n != a and n[0] == 'struct' and n[1] == a[1]:
                    for k2, v2 in list(s.env.items()):
                        if v2 == a: s.env[k2] = n
        return out

    def active(self, fn):
        return sum(1 for f, _ in self.stack if f is fn)

    def force(self, v, st, node):
        """Awaits a value."""
        if v and v[0] == 'async':
            n = self.nodes[v[1]]
            fn = v[4]
            self.stack.append((self.P_fn(fn), v[2]))
            try:
                out = []
                for o, x, s in self.ev(n['body'], st, v[2]):
                    if o == 'ret': o = 'val'
                    out.append((o, x, s))
                return out
            finally:
                self.stack.pop()
        if v and v[0] == 'asyncfn':
            fn = self.P_fn(v[1])
            if len(self.stack) > self.depth or self.active(fn) > 1:
                r = ('call', fn.path, v[2], self.fresh())
                self.emit(st, 'call', node, path=fn.path, args=v[2], res=r)
                return [('val', r, st)]
            out = []
            for o, x, s in self.invoke(fn, list(v[2]), st, node):
                if o == 'val' and x and x[0] in ('async', 'asyncfn'):
                    out.extend(self.force(x, s, node))
                else:
                    out.append((o, x, s))
            return out
        if v and v[0] == 'retry':
            # what the caller sees is the result of the last attempt
            self.emit(st, 'retry', node, closure=v[1], policy=v[2], when=v[3], attempt=v[4])
            out = []
            for o, x, s in self.call_closure(v[1], [], st, node):
                if o != 'val': out.append((o, x, s)); continue
                for o2, x2, s2 in self.force(x, s, node):
                    if o2 == 'val': self.emit(s2, 'endretry', node, closure=v[1], val=x2)
                    out.append((o2, x2, s2))
            return out
        return [('val', v, st)]

    def P_fn(self, key):
        return self._fns[key] if not isinstance(key, PR.Fn) else key

    _fns = {}

    def call_closure(self, c, args, st, node):
        if c[0] == 'closure':
            n = self.nodes[c[1]]
            self.stack.append((self.P_fn(c[4]), c[2]))
            try:
                cur = [st]
                for p, a in zip(n['params'], args):
                    nxt = []
                    for s in cur:
                        for m, s2 in self.match(p, a, s, c[2]):
                            if m: nxt.append(s2)
                    cur = nxt
                out = []
                for s in cur:
                    for o, v, s2 in self.ev(n['body'], s, c[2]):
                        if o == 'ret': o = 'val'
                        out.append((o, v, s2))
                return out
            finally:
                self.stack.pop()
        if c[0] == 'fn':
            return self.apply(c[1], list(args), st, node or {}, None, None)
        if c[0] == 'ctor':
            return [('val', ('v', c[1], tuple(args)), st)]
        r = ('call', 'dyn', (c,) + tuple(args), self.fresh())
        self.emit(st, 'call', node, path='<indirect>', args=(c,) + tuple(args), res=r)
        return [('val', r, st)]

    # ---- patterns -----------------------------------------------------------------------------
    def decide_variant(self, v, path, st):
        """Yields (bool, state) for `v` having variant `path`."""
        name = last(path)
        if v[0] == 'v':
            return [(last(v[1]) == name, st)]
        if v[0] == 'struct':
            return [(last(v[1]) == name, st)]
        if name in ('L', 'R') and (v[0] == 'txerr' or (v[0] == 'pl' and v[2] == 'Err' and v[1] and v[1][0] == 'sqlres')):  # a transaction's own error is a DatabaseError, which converts to the left side
            return [(name == 'L', st)]
        if v in st.vari:
            return [(st.vari[v] == name, st)]
        nv = st.nvari.get(v, frozenset())
        if name in nv:
            return [(False, st)]
        allv = None
        if name in TWO:
            allv = [name, TWO[name]]
        else:
            allv = self.P.variants(path)
        if allv and set(allv) - nv == {name}:
            st.vari[v] = name
            return [(True, st)]
        self.fork()
        a, b = st, st.copy()
        a.vari[v] = name
        a.path.append((('is', v, name), True))
        b.nvari[v] = nv | {name}
        b.path.append((('is', v, name), False))
        rest = set(allv) - b.nvari[v] if allv else ()
        if allv and len(rest) == 1:
            b.vari[v] = next(iter(rest))
        return [(True, a), (False, b)]

    def payload(self, v, path, i):
        if v[0] == 'v':
            if isinstance(i, int):
                return v[2][i] if i < len(v[2]) else ('pl', v, last(path), i)
        if v[0] == 'struct':
            for a, b in v[2]:
                if a == str(i): return b
        return ('pl', v, last(path), i)

    def match(self, p, v, st, frame):
        """Yields (matched, state) pairs."""
        k = p['k']
        if k == 'wild': return [(True, st)]
        if k == 'bind':
            if p.get('sub'):
                out = []
                for m, s in self.match(p['sub'], v, st, frame):
                    if m: s.env[(frame, p['id'])] = v
                    out.append((m, s))
                return out
            st.env[(frame, p['id'])] = v
            return [(True, st)]
        if k in ('pref', 'pderef'): return self.match(p['p'], v, st, frame)
        if k == 'ptup':
            ps = p['ps']
            dd = p.get('dd')
            items = []
            for i, q in enumerate(ps):
                if v[0] == 'tuple':
                    j = i if dd is None or i < dd else len(v[1]) - (len(ps) - i)
                    items.append((q, v[1][j] if j < len(v[1]) else ('field', v, str(j))))
                else:
                    items.append((q, ('field', v, str(i))))
            return self.match_all(items, st, frame)
        if k in ('ptstruct', 'pstruct'):
            r = p.get('res') or {}
            path = r.get('ctor_of') or r.get('path') or '?'
            kind = r.get('kind', '')
            isvar = 'Variant' in kind or (k == 'ptstruct' and 'Variant' in kind)
            res = [(True, st)]
            if isvar:
                res = self.decide_variant(v, path, st)
            out = []
            for m, s in res:
                if not m:
                    out.append((False, s)); continue
                if k == 'ptstruct':
                    items = [(q, self.payload(v, path, i) if isvar else self.fieldof(v, str(i), s)) for i, q in enumerate(p['ps'])]
                else:
                    items = [(q, self.payload(v, path, f) if isvar else self.fieldof(v, f, s)) for f, q in p['fields']]
                out.extend(self.match_all(items, s, frame))
            return out
        if k == 'por':
            out, cur = [], [st]
            for q in p['ps']:
                nxt = []
                for s in cur:
                    for m, s2 in self.match(q, v, s, frame):
                        (out if m else nxt).append((True, s2) if m else s2)
                cur = nxt
            return out + [(False, s) for s in cur]
        if k == 'plit':
            e = p['e']
            if e['k'] == 'path':
                r = e.get('res') or {}
                if 'Variant' in r.get('kind', '') or 'Ctor' in r.get('kind', ''):
                    return self.decide_variant(v, r.get('ctor_of') or r.get('path', '?'), st)
                return self.cond(('bin', '==', v, ('const', r.get('path', '?'))), st)
            lit = ('lit', e.get('v') if not e.get('neg') else -e['v'])
            if v[0] == 'lit': return [(v[1] == lit[1], st)]
            if lit[1] is True: return self.cond(v, st)
            if lit[1] is False: return [(not m, s) for m, s in self.cond(v, st)]
            return self.cond(('bin', '==', v, lit), st)
        if k == 'prange':
            return self.cond(('inrange', v, json.dumps(p.get('a', {}) and p['a'].get('v') if p.get('a') else None), json.dumps(p['b'].get('v') if p.get('b') else None)), st)
        if k == 'pslice':
            items = [(q, ('index', v, ('lit', i))) for i, q in enumerate(p['a'])]
            out = []
            for m, s in self.cond(('slicelen', v, len(p['a']) + len(p['b']), bool(p.get('m'))), st):
                if m: out.extend(self.match_all(items + ([(p['m'], ('rest', v, len(p['a'])))] if p.get('m') else []), s, frame))
                else: out.append((False, s))
            return out
        return self.cond(('pat', v, k), st)

    def match_all(self, items, st, frame):
        cur = [(True, st)]
        for q, x in items:
            nxt = []
            for m, s in cur:
                if not m: nxt.append((m, s)); continue
                nxt.extend(self.match(q, x, s, frame))
            cur = nxt
        return cur

    # ---- conditions ---------------------------------------------------------------------------
    def cond(self, t, st):
        """Yields (bool, state) for a boolean term."""
        if t[0] == 'lit' and isinstance(t[1], bool): return [(t[1], st)]
        if t[0] == 'not': return [(not m, s) for m, s in self.cond(t[1], st)]
        if t[0] == 'isvar':  # ('isvar', v, name)
            return self.decide_variant(t[1], t[2], st)
        t, neg = norm_cond(t)
        if t[0] == 'bin' and t[1] == '==':  # comparison with a variant that carries nothing
            for a, b in ((t[2], t[3]), (t[3], t[2])):
                if b[0] == 'v' and not b[2] and a[0] != 'lit' and (last(b[1]) == 'None' or self.P.variants(b[1])):
                    return [(m != neg, s) for m, s in self.decide_variant(a, b[1], st)]
        if t in st.conds: return [(st.conds[t] != neg, st)]
        if t[0] == 'bin' and t[2][0] == 'lit' and t[3][0] == 'lit' and t[1] in ('==', '<'):
            try:
                return [((t[2][1] == t[3][1] if t[1] == '==' else t[2][1] < t[3][1]) != neg, st)]
            except TypeError:
                pass
        self.fork()
        a, b = st, st.copy()
        a.conds[t] = True
        a.path.append((t, True))
        b.conds[t] = False
        b.path.append((t, False))
        return [(not neg, a), (neg, b)]

    def evcond(self, e, st, frame):
        """Yields (outcome, bool|value, state)."""
        k = e['k']
        if k == 'paren': return self.evcond(e['e'], st, frame)
        if k == 'bin' and e['op'] == '&&':
            out = []
            for o, m, s in self.evcond(e['a'], st, frame):
                if o != 'val' or not m: out.append((o, m, s))
                else: out.extend(self.evcond(e['b'], s, frame))
            return out
        if k == 'bin' and e['op'] == '||':
            out = []
            for o, m, s in self.evcond(e['a'], st, frame):
                if o != 'val' or m: out.append((o, m, s))
                else: out.extend(self.evcond(e['b'], s, frame))
            return out
        if k == 'un' and e['op'] == '!':
            return [(o, (not m) if o == 'val' else m, s) for o, m, s in self.evcond(e['e'], st, frame)]
        if k == 'letc':
            out = []
            for o, v, s in self.ev(e['e'], st, frame):
                if o != 'val': out.append((o, v, s)); continue
                out.extend(('val', m, s2) for m, s2 in self.match(e['pat'], v, s, frame))
            return out
        out = []
        for o, v, s in self.ev(e, st, frame):
            if o != 'val': out.append((o, v, s)); continue
            out.extend(('val', m, s2) for m, s2 in self.cond(v, s))
        return out

    # ---- expressions --------------------------------------------------------------------------
    def fieldof(self, v, f, st):
        if v[0] == 'struct':
            for a, b in v[2]:
                if a == f: return b
            if len(v) > 3 and v[3] is not None: return self.fieldof(v[3], f, st)
        if v[0] == 'tuple' and f.isdigit() and int(f) < len(v[1]): return v[1][int(f)]
        if v[0] == 'v' and f.isdigit() and int(f) < len(v[2]): return v[2][int(f)]
        t = ('field', v, f)
        return st.env.get(('heap', t), t)

    def block(self, e, st, frame):
        cur = [('val', None, st)]
        for s in e['stmts']:
            nxt = []
            for o, v, x in cur:
                if o != 'val': nxt.append((o, v, x)); continue
                nxt.extend(self.stmt(s, x, frame))
            cur = nxt
            if len(cur) > 400: cur = dedupe(cur)
        if e.get('expr'):
            out = []
            for o, v, x in cur:
                if o != 'val': out.append((o, v, x)); continue
                out.extend(self.ev(e['expr'], x, frame))
        else:
            out = [(o, ('unit',) if o == 'val' else v, x) for o, v, x in cur]
        if e.get('label'):
            out = [('val', v[1], x) if o == 'brk' and v[0] == e['label'] else (o, v, x) for o, v, x in out]
        return out

    def stmt(self, s, st, frame):
        if s['k'] == 'let':
            if not s.get('init'):
                for b in PR.walk(s['pat']):
                    if b['k'] == 'bind': st.env.pop((frame, b['id']), None)
                return [('val', None, st)]
            out = []
            for o, v, x in self.ev(s['init'], st, frame):
                if o != 'val': out.append((o, v, x)); continue
                for m, x2 in self.match(s['pat'], v, x, frame):
                    if m:
                        if s['pat']['k'] == 'wild' and s['init']['k'] in ('call', 'mcall', 'await', 'struct', 'macro'):
                            self.emit(x2, 'discard', s['init'], val=v, ty=s['init'].get('ty'))
                        out.append(('val', None, x2))
                    elif s.get('els'):
                        out.extend(self.block(s['els'], x2, frame))
            return out
        out = self.ev(s['e'], st, frame)
        if s['semi']:
            for o, v, x in out:
                if o == 'val' and s['e']['k'] != 'assign':
                    self.emit(x, 'discard', s['e'], val=v, ty=s['e'].get('ty'))
        return out

    def ev(self, e, st, frame):
        m = getattr(self, 'x_' + e['k'], None)
        if m is None:
            return [('val', ('unk', e['k'], e.get('sp')), st)]
        return m(e, st, frame)

    def x_paren(self, e, st, frame): return self.ev(e['e'], st, frame)
    def x_ref(self, e, st, frame): return self.ev(e['e'], st, frame)
    def x_cast(self, e, st, frame): return self.ev(e['e'], st, frame)
    def x_block(self, e, st, frame): return self.block(e, st, frame)
    def x_lit(self, e, st, frame): return [('val', ('lit', e['v']), st)]

    def x_un(self, e, st, frame):
        out = []
        for o, v, s in self.ev(e['e'], st, frame):
            if o == 'val' and e['op'] == '!': v = v[1] if v[0] == 'not' else (('lit', not v[1]) if v[0] == 'lit' and isinstance(v[1], bool) else ('not', v))
            if o == 'val' and e['op'] == '-': v = ('lit', -v[1]) if v[0] == 'lit' and isinstance(v[1], (int, float)) else ('neg', v)
            out.append((o, v, s))
        return out

    def x_path(self, e, st, frame):
        r = e.get('res')
        if not r: return [('val', ('unk', e.get('name')), st)]
        if r['r'] == 'local':
            v = st.env.get((frame, r['id']))
            if v is None: v = ('local', frame, e.get('name') or str(r['id']))
            return [('val', v, st)]
        if r['r'] == 'def':
            kd, p = r['kind'], r['path']
            if 'Ctor(Variant, Const)' in kd or kd.startswith('Ctor') and 'Const' in kd: return [('val', ('v', r.get('ctor_of') or p, ()), st)]
            if kd.startswith('Ctor'): return [('val', ('ctor', r.get('ctor_of') or p), st)]
            if kd in ('Fn', 'AssocFn'): return [('val', ('fn', p), st)]
            if kd.startswith(('Const', 'AssocConst', 'Static')):
                c = self.P.const(self.crate, p)
                if c is not None and kd.startswith(('Const', 'AssocConst')):
                    self.stack.append((c, frame))
                    try:
                        r2 = self.ev(c.body, st, -1)
                    finally:
                        self.stack.pop()
                    if len(r2) == 1 and r2[0][0] == 'val': return r2
                return [('val', ('const', p), st)]
            return [('val', ('def', p), st)]
        if r['r'] == 'selfctor': return [('val', ('ctor', r['path']), st)]
        return [('val', ('unk', r['r']), st)]

    def x_field(self, e, st, frame):
        return [(o, self.fieldof(v, e['f'], s) if o == 'val' else v, s) for o, v, s in self.ev(e['e'], st, frame)]

    def x_index(self, e, st, frame):
        return [(o, ('index', v[0], v[1]) if o == 'val' else v, s) for o, v, s in self.seq([e['a'], e['b']], st, frame)]

    def x_tup(self, e, st, frame):
        if not e['es']: return [('val', ('unit',), st)]
        return [(o, ('tuple', tuple(v)) if o == 'val' else v, s) for o, v, s in self.seq(e['es'], st, frame)]

    def x_array(self, e, st, frame):
        return [(o, ('array', tuple(v)) if o == 'val' else v, s) for o, v, s in self.seq(e['es'], st, frame)]

    def x_repeat(self, e, st, frame):
        return [(o, ('repeat', v) if o == 'val' else v, s) for o, v, s in self.ev(e['e'], st, frame)]

    def x_struct(self, e, st, frame):
        r = e.get('res') or {}
        path = r.get('ctor_of') or r.get('path') or (e.get('ty') or '?')
        if r.get('r') == 'selfty': path = e.get('ty') or '?'
        names = [a for a, _ in e['fields']]
        out = []
        exprs = [b for _, b in e['fields']] + ([e['base']] if e.get('base') else [])
        for o, v, s in self.seq(exprs, st, frame):
            if o != 'val': out.append((o, v, s)); continue
            b = v[len(names)] if e.get('base') else None
            out.append(('val', ('struct', path, tuple(sorted(zip(names, v))), b), s))
        return out

    def x_bin(self, e, st, frame):
        if e['op'] in ('&&', '||'):
            return [(o, ('lit', bool(m)) if o == 'val' else m, s) for o, m, s in self.evcond(e, st, frame)]
        out = []
        for o, v, s in self.seq([e['a'], e['b']], st, frame):
            if o != 'val': out.append((o, v, s)); continue
            a, b, op = v[0], v[1], e['op']
            if a[0] == 'lit' and b[0] == 'lit' and isinstance(a[1], int) and isinstance(b[1], int) and op in '+-*' and not isinstance(a[1], bool):
                out.append(('val', ('lit', a[1] + b[1] if op == '+' else a[1] - b[1] if op == '-' else a[1] * b[1]), s)); continue
            out.append(('val', ('bin', op, a, b), s))
        return out

    def set_place(self, lhs, v, s, frame):
        l = lhs
        while l['k'] in ('paren', 'ref') or (l['k'] == 'un' and l['op'] == '*'): l = l['e']
        if l['k'] == 'path' and l['res'] and l['res']['r'] == 'local' and lhs['k'] == 'path':
            s.env[(frame, l['res']['id'])] = v
            return ('local', frame, l.get('name'))
        # a field of a structure held in a local variable (or `self`)
        if lhs['k'] == 'field':
            b = lhs['e']
            while b['k'] in ('paren', 'ref') or (b['k'] == 'un' and b['op'] == '*'): b = b['e']
            if b['k'] == 'path' and b['res'] and b['res']['r'] == 'local':
                key = (frame, b['res']['id'])
                old = s.env.get(key)
                if old is not None and old[0] == 'struct':
                    s.env[key] = ('struct', old[1], tuple(sorted([(a, x) for a, x in old[2] if a != lhs['f']] + [(lhs['f'], v)])), old[3] if len(old) > 3 else None)
                    return ('field', old, lhs['f'])
        # a place behind a reference or in a structure
        for o, t, _ in self.ev(lhs, s, frame):
            if t[0] == 'field':
                s.env[('heap', t)] = v
            elif l['k'] == 'path' and l['res'] and l['res']['r'] == 'local' and l is lhs:
                s.env[(frame, l['res']['id'])] = v
            return t
        return ('unk',)

    def x_assign(self, e, st, frame):
        out = []
        for o, v, s in self.ev(e['b'], st, frame):
            if o != 'val': out.append((o, v, s)); continue
            if self.plain_place(e['a']):
                lt = self.place_term(e['a'], s, frame)
                self.set_place(e['a'], v, s, frame)
            else:
                o2, lt, s = self.ev(e['a'], s, frame)[0]
            self.emit(s, 'assign', e, lhs=lt, rhs=v)
            out.append(('val', ('unit',), s))
        return out

    def place_term(self, e, s, frame):
        """Name of a place, without reading heap overlays at its top level."""
        if e['k'] == 'field':
            r = self.ev(e['e'], s, frame)
            return ('field', r[0][1], e['f'])
        if e['k'] in ('paren', 'ref') or (e['k'] == 'un' and e['op'] == '*'): return self.place_term(e['e'], s, frame)
        if e['k'] == 'path' and e['res'] and e['res']['r'] == 'local':
            v = s.env.get((frame, e['res']['id']))
            return ('local', frame, e.get('name')) if v is None or v[0] not in ('field', 'param', 'call', 'pl', 'elem') else v
        r = self.ev(e, s, frame)
        return r[0][1]

    def plain_place(self, e):
        """A place made of variables, fields, indexes and dereferences only (evaluating it again has no effect)."""
        while e['k'] in ('paren', 'ref', 'field', 'index') or (e['k'] == 'un' and e['op'] == '*'): e = e['e'] if 'e' in e else e['a']
        return e['k'] == 'path'

    def x_assignop(self, e, st, frame):
        out = []
        for o, v, s in self.seq([e['a'], e['b']], st, frame):
            if o != 'val': out.append((o, v, s)); continue
            nv = ('bin', e['op'].rstrip('='), v[0], v[1])
            if self.plain_place(e['a']):
                lt = self.place_term(e['a'], s, frame)
                self.set_place(e['a'], nv, s, frame)
            else: lt = v[0]
            self.emit(s, 'assign', e, lhs=lt, rhs=nv)
            out.append(('val', ('unit',), s))
        return out

    def x_closure(self, e, st, frame):
        nid = id(e)
        self.nodes[nid] = e
        fn = self.stack[-1][0]
        kind = 'async' if e['ck'].startswith('Coroutine') else 'closure'
        if 'CoroutineClosure' in e['ck']: kind = 'closure'
        return [('val', (kind, nid, frame, (e.get('sp') or '').rsplit('/', 1)[-1], FnKey(fn)), st)]

    def x_await(self, e, st, frame):
        out = []
        for o, v, s in self.ev(e['e'], st, frame):
            if o != 'val': out.append((o, v, s)); continue
            self.emit(s, 'await', e, val=v)
            out.extend(self.force(v, s, e))
        return out

    def x_try(self, e, st, frame):
        out = []
        for o, v, s in self.ev(e['e'], st, frame):
            if o != 'val': out.append((o, v, s)); continue
            opt = (e['e'].get('ty') or '').startswith(('core::option::Option', 'std::option::Option')) or (v[0] == 'v' and last(v[1]) in ('Some', 'None'))
            good, bad = ('Some', 'None') if opt else ('Ok', 'Err')
            for m, s2 in self.decide_variant(v, good, s):
                if m:
                    out.append(('val', self.payload(v, good, 0), s2))
                else:
                    s2.ev.append(Ev('tryfail', e, self.stack[-1][0], len(s2.path), val=v))
                    out.append(('ret', ('v', bad, () if opt else (self.payload(v, bad, 0),)), s2))
        return out

    def x_if(self, e, st, frame):
        out = []
        for o, m, s in self.evcond(e['c'], st, frame):
            if o != 'val': out.append((o, m, s)); continue
            if m: out.extend(self.ev(e['t'], s, frame))
            elif e.get('f'): out.extend(self.ev(e['f'], s, frame))
            else: out.append(('val', ('unit',), s))
        return out

    def x_letc(self, e, st, frame):
        return [(o, ('lit', m) if o == 'val' else m, s) for o, m, s in self.evcond(e, st, frame)]

    def x_match(self, e, st, frame):
        out = []
        for o, v, s in self.ev(e['e'], st, frame):
            if o != 'val': out.append((o, v, s)); continue
            cur = [s]
            for a in e['arms']:
                nxt = []
                for x in cur:
                    for m, x2 in self.match(a['pat'], v, x, frame):
                        if not m: nxt.append(x2); continue
                        if a.get('guard'):
                            for o2, g, x3 in self.evcond(a['guard'], x2, frame):
                                if o2 != 'val': out.append((o2, g, x3))
                                elif g: out.extend(self.ev(a['body'], x3, frame))
                                else: nxt.append(x3)
                        else:
                            out.extend(self.ev(a['body'], x2, frame))
                cur = nxt
        return out

    def havoc(self, body, st, frame, lid):
        """Replaces variables assigned in the loop body by phi terms."""
        for n in PR.walk(body):
            if n['k'] in ('assign', 'assignop'):
                l = n['a']
                while l['k'] in ('paren',) or (l['k'] == 'un' and l['op'] == '*'): l = l['e']
                if l['k'] == 'path' and l['res'] and l['res']['r'] == 'local':
                    key = (frame, l['res']['id'])
                    if key in st.env and not (st.env[key][0] == 'phi' and st.env[key][1] == lid):
                        st.env[key] = ('phi', lid, l.get('name'), st.env[key])
                elif l['k'] == 'field':
                    t = self.place_term(l, st, frame)
                    h = ('heap', t)
                    if h in st.env: st.env[h] = ('phi', lid, l['f'], st.env[h])

    def exits(self, e, st, frame, lid):
        """The states in which a `while` loop ends after a round: its test, made again, fails."""
        b = e['body']
        while 'stmts' in b and not b['stmts'] and b.get('expr'): b = b['expr']
        if b.get('k') != 'if': return [st]
        keep = st.copy()
        self.havoc(e['body'], st, frame, lid)
        out = [s for o, m, s in self.evcond(b['c'], st, frame) if o == 'val' and not m]
        return out or [keep]

    def concrete(self, e, st, frame, n=0):
        """A `while` loop whose test is decided by what is known, round for round (up to 8); None otherwise."""
        b = e['body']
        while 'stmts' in b and not b['stmts'] and b.get('expr'): b = b['expr']
        if b.get('k') != 'if' or n > 8: return None
        t = b['c']
        while t.get('k') == 'paren': t = t['e']
        if t.get('k') == 'lit': return None
        x = st.copy()
        r = self.evcond(t, x, frame)
        if len(r) != 1 or r[0][0] != 'val' or len(r[0][2].path) != len(st.path) or len(r[0][2].ev) != len(st.ev): return None
        if not r[0][1]: return [('val', ('unit',), r[0][2])]
        out = []
        for o, v, s in self.ev(b['t'], r[0][2], frame):
            if o == 'val' or (o == 'cont' and (v is None or v == e.get('label'))):
                more = self.concrete(e, s, frame, n + 1)
                if more is None: return None
                out.extend(more)
            elif o == 'brk' and (v[0] is None or v[0] == e.get('label')): out.append(('val', v[1], s))
            else: out.append((o, v, s))
        return out

    def x_loop(self, e, st, frame):
        if e['src'] == 'While':
            known = self.concrete(e, st.copy(), frame)
            if known is not None: return known
        lid = self.fresh()
        self.emit(st, 'loop', e, id=lid)
        self.havoc(e['body'], st, frame, lid)
        out = []
        for o, v, s in self.block(e['body'], st, frame):
            if o == 'brk' and (v[0] is None or v[0] == e.get('label')):
                self.emit(s, 'endloop', e, id=lid)
                out.append(('val', v[1], s))
            elif o == 'val' or (o == 'cont' and (v is None or v == e.get('label'))):
                # back edge: for `while` loops, the following exit test may succeed
                if e['src'] == 'While':
                    self.fork()
                    r = s.copy()
                    self.emit(r, 'backedge', e, id=lid)
                    out.append(('loop', ('unit',), r))
                    for x in self.exits(e, s, frame, lid):
                        self.emit(x, 'endloop', e, id=lid)
                        out.append(('val', ('unit',), x))
                else:
                    self.emit(s, 'backedge', e, id=lid)
                    out.append(('loop', ('unit',), s))
            else:
                out.append((o, v, s))
        return out

    def x_for(self, e, st, frame):
        out = []
        for o, v, s in self.ev(e['iter'], st, frame):
            if o != 'val': out.append((o, v, s)); continue
            items = listof(v)
            if items is not None and len(items) <= 8:
                out.extend(self.unroll(e, items, s, frame)); continue
            lid = self.fresh()
            self.fork()
            z = s.copy()
            z.path.append((('iter', v, lid), False))
            self.emit(z, 'for0', e, id=lid, iter=v)
            out.append(('val', ('unit',), z))
            s.path.append((('iter', v, lid), True))
            self.emit(s, 'for', e, id=lid, iter=v)
            self.havoc(e['body'], s, frame, lid)
            for m, s1 in self.match(e['pat'], ('elem', v, lid), s, frame):
                if not m: continue
                for o2, v2, s2 in self.ev(e['body'], s1, frame):
                    if o2 == 'val' or (o2 == 'cont' and (v2 is None or v2 == e.get('label'))):
                        self.emit(s2, 'endfor', e, id=lid, how='next')
                        out.append(('val', ('unit',), s2))
                    elif o2 == 'brk' and (v2[0] is None or v2[0] == e.get('label')):
                        self.emit(s2, 'endfor', e, id=lid, how='break')
                        out.append(('val', ('unit',), s2))
                    else:
                        out.append((o2, v2, s2))
        return out

    def unroll(self, e, items, st, frame):
        cur, out = [st], []
        for it in items:
            nxt = []
            for s in cur:
                for m, s1 in self.match(e['pat'], it, s, frame):
                    if not m: continue
                    for o2, v2, s2 in self.ev(e['body'], s1, frame):
                        if o2 == 'val' or (o2 == 'cont' and (v2 is None or v2 == e.get('label'))): nxt.append(s2)
                        elif o2 == 'brk' and (v2[0] is None or v2[0] == e.get('label')): out.append(('val', ('unit',), s2))
                        else: out.append((o2, v2, s2))
            cur = nxt
        return out + [('val', ('unit',), s) for s in cur]

    def x_ret(self, e, st, frame):
        if not e.get('e'): return [('ret', ('unit',), st)]
        return [('ret' if o == 'val' else o, v, s) for o, v, s in self.ev(e['e'], st, frame)]

    def x_break(self, e, st, frame):
        if not e.get('e'): return [('brk', (e.get('label'), ('unit',)), st)]
        return [('brk', (e.get('label'), v), s) if o == 'val' else (o, v, s) for o, v, s in self.ev(e['e'], st, frame)]

    def x_continue(self, e, st, frame): return [('cont', e.get('label'), st)]
    def x_yield(self, e, st, frame): return [('val', ('unit',), st)]

    def x_err(self, e, st, frame):
        m = re.match(r'\s*(?:sqlx::)?(query\w*)!', e.get('snip') or '')
        if m:
            return self.x_mac({**e, 'k': 'mac', 'name': m.group(1), 'krate': 'sqlx', 'args': []}, st, frame)
        return [('val', ('unk', 'err'), st)]

    def x_mac(self, e, st, frame):
        n = e['name']
        if n in QUERY_MACROS:
            sql, texts = query_macro_sql(e['snip'])
            out = []
            for o, v, s in self.seq(e['args'], st, frame):
                if o != 'val': out.append((o, v, s)); continue
                args = list(v)
                if len(args) < len(texts):
                    args = args + [('src', t) for t in texts[len(args):]]
                out.append(('val', ('query', sql, tuple(args), n), s))
            return out
        if n in PR.TRACE_MACROS: self.emit(st, 'log', e, level=n)
        if n in PR.TRACE_MACROS or n in ('trace_span', 'debug_span', 'info_span', 'warn_span', 'error_span', 'span') or n.startswith('describe_'):
            if n.endswith('_span'): return [('val', ('span', n[:-5], f"{e.get('file', '')}:{e.get('line', '')}", self.fresh()), st)]
            return [('val', ('unit',), st)]
        if n in ('panic', 'unreachable', 'todo', 'unimplemented'):
            self.emit(st, 'panic', e, how=n)
            return [('panic', ('lit', n), st)]
        if n.startswith(('assert', 'debug_assert')):
            return [('val', ('unit',), st)]
        if n == 'bail':
            return [('ret', ('v', 'Err', (('fmt', e['snip']),)), st)]
        if n in ('counter', 'gauge', 'histogram'):
            return [('val', ('metric', n, metric_name(e['snip'])), st)]
        out = []
        for o, v, s in self.seq(e['args'], st, frame):
            if o == 'val':
                t = ('mac', n, macro_template(e['snip']), tuple(v))
                v = fold_format(t, e['snip']) if n in ('format', 'format_args') else ('array', tuple(v)) if n == 'vec' and v and '; ' not in e['snip'] else t
            out.append((o, v, s))
        return out

    # ---- calls --------------------------------------------------------------------------------
    def x_call(self, e, st, frame):
        r = e.get('res')
        out = []
        if r is None:
            for o, v, s in self.seq([e['f']] + e['args'], st, frame):
                if o != 'val': out.append((o, v, s)); continue
                out.extend(self.call_closure(v[0], v[1:], s, e))
            return out
        for o, v, s in self.seq(e['args'], st, frame):
            if o != 'val': out.append((o, v, s)); continue
            if r['r'] == 'local':
                f = s.env.get((frame, r['id']), ('unk', 'local'))
                out.extend(self.call_closure(f, v, s, e)); continue
            if r['r'] == 'selfctor':
                out.append(('val', ('v', r['path'], tuple(v)), s)); continue
            if r['r'] == 'def' and r['kind'].startswith('Ctor'):
                out.append(('val', ('v', r.get('ctor_of') or r['path'], tuple(v)), s)); continue
            p = r.get('path') or ('?' + r['r'])
            out.extend(self.apply(p, v, s, e, e.get('impl'), None))
        return out

    def x_mcall(self, e, st, frame):
        out = []
        for o, v, s in self.seq([e['recv']] + e['args'], st, frame):
            if o != 'val': out.append((o, v, s)); continue
            out.extend(self.apply(e.get('path') or ('?::' + e['m']), v, s, e, e.get('impl'), e['m']))
        return out

    def apply(self, path, args, st, node, impl, method):
        """A call with evaluated arguments."""
        name = method or last(path)
        mod = self.models.get(path) or self.models.get(name)
        if mod is not None:
            r = mod(self, path, args, st, node)
            if r is not None: return r
        a0 = args[0] if args else None
        # transactions
        if name == 'transaction' and len(args) == 2 and args[1][0] in ('closure', 'fn'):
            return self.transaction(args, st, node)
        # queries
        if a0 is not None and a0[0] == 'query' and name in EXEC:
            res = ('sqlres', self.fresh(), name)
            self.emit(st, 'sql', node, sql=a0[1], args=a0[2], how=name, exec=args[1] if len(args) > 1 else None, res=res, macro=a0[3])
            return [('val', res, st)]
        if a0 is not None and a0[0] == 'query' and name == 'bind':
            return [('val', ('query', a0[1], a0[2] + (args[1],), a0[3]), st)]
        if a0 is not None and a0[0] == 'query' and name in ('map', 'try_map', 'persistent'):
            return [('val', a0, st)]
        if re.match(r'^sqlx(_core)?::', path or '') and name in ('query', 'query_as', 'query_scalar', 'query_with', 'raw_sql') and args:
            return [('val', ('query', args[0][1] if args[0][0] == 'lit' else args[0], (), name), st)]
        if 'query_builder::' in (path or ''):
            r = self.builder(path, name, args, st, node)
            if r is not None: return r
        if name == 'get_inner' and len(args) == 1: return [('val', a0, st)]
        if name == 'into' and (path or '').endswith('convert::Into::into') and node.get('recv'):
            src, dst = (node['recv'].get('ty') or ''), (node.get('ty') or '')
            if self.crate != 'opsqueue' and bare(dst).startswith(('CError<', 'PyErr')) and bare(src) != bare(dst):
                fn = self.P.from_impl(bare(src), bare(dst))
                if fn is not None and self.active(fn) < 2 and len(self.stack) <= self.depth:
                    self.emit(st, 'enter', node, path=fn.path, args=tuple(args))
                    return self.invoke_mut(fn, args, st, node)
            if src.startswith('(') or dst.startswith('('):
                cands = [f for k, f in self.P.fns.items() if f.name == 'from' and f'From<{src}>' in k and (f'<{dst} as ' in k or f' for {dst}>' in k)]
                if not cands and self.crate != 'opsqueue':
                    s2, d2 = src.replace('opsqueue::', ''), dst.replace('opsqueue::', '')
                    cands = [f for k, f in self.P.fns.items() if f.name == 'from' and f'From<{s2}>' in k and (f'<{d2} as ' in k or f' for {d2}>' in k) and f.crate == 'opsqueue']
                if len(cands) == 1:
                    return self.invoke_mut(cands[0], args, st, node)
        # repository functions
        fn = self.P.lookup(self.crate, impl) if impl else None
        fn = fn or self.P.lookup(self.crate, path)
        if fn is not None and fn.path not in self.atomic and self.inline(fn) and len(self.stack) <= self.depth and self.active(fn) < 2:
            if fn.is_async:
                Interp._fns[FnKey(fn)] = fn
                return [('val', ('asyncfn', FnKey(fn), tuple(args)), st)]
            self.emit(st, 'enter', node, path=fn.path, args=tuple(args))
            return self.invoke_mut(fn, args, st, node)
        if fn is not None:
            r = ('call', fn.path, tuple(args), self.fresh())
            self.emit(st, 'call', node, path=fn.path, args=tuple(args), res=r, local=True)
            return [('val', r, st)]
        r = self.std(path, name, args, st, node)
        if r is not None: return r
        items = listof(a0) if a0 is not None else None
        if items is not None and len(args) == 1:
            if name == 'len': return [('val', ('lit', len(items)), st)]
            if name == 'is_empty': return [('val', ('lit', not items), st)]
            if name in ('collect', 'collect_vec', 'collect_array_', 'to_vec', 'iter', 'into_iter', 'peekable', 'fuse'): return [('val', ('array', tuple(items)), st)]
            if name == 'enumerate': return [('val', ('array', tuple(('tuple', (('lit', i), x)) for i, x in enumerate(items))), st)]
            if name == 'rev': return [('val', ('array', tuple(reversed(items))), st)]
            if name in ('first', 'last') and items: return [('val', ('v', 'Some', (items[0 if name == 'first' else -1],)), st)]
        if name in ('collect', 'collect_vec') and a0 is not None and a0[0] == 'struct':
            r = self.collect_struct(a0, st, node)
            if r is not None: return r
        if (TRANSPARENT_PATH.search(path) or name in TRANSPARENT) and args and not path.startswith('serde_json::'):
            return [('val', a0, st)]
        if re.match(r'^(core|std)::(panicking|rt)::(panic\w*|begin_panic\w*|unreachable_display|assert_failed\w*)$', path or ''):
            txt = ' '.join(str(x[1]) for a in args for x in terms(a) if x[0] == 'lit')
            if 'failed to match bind' in txt or 'all branches are disabled and there is no else branch' in txt: return []  # select! waits instead
            self.emit(st, 'panic', node, how=name)
            return [('panic', ('lit', name), st)]
        if name == 'poll_fn' and args and args[0][0] == 'closure':
            r = self.select(args[0], st, node)
            if r is not None: return r
        # calls that run what they are given once, now
        if SCOPES.search(path or '') and args and (args[-1][0] in ('closure', 'async', 'asyncfn') or name == 'block_on'):
            out = []
            self.emit(st, 'scope', node, name=name, path=path, recv=a0)
            if name == 'block_on': rs = self.force(args[-1], st, node)
            else:
                n = self.nodes[args[-1][1]] if args[-1][0] == 'closure' else None
                rs = self.call_closure(args[-1], [('py', self.fresh())] * (len(n['params']) if n else 0), st, node)
            for o, v, s in rs:
                self.emit(s, 'endscope', node, name=name, path=path, val=v, out=o)
                out.append((o, v, s))
            return out
        if name == 'retry' and 'backon' in (path or '') and len(args) == 2: return [('val', ('retry', args[0], args[1], None, None), st)]
        if a0 is not None and a0[0] == 'retry' and 'backon' in (path or ''):
            if name == 'when' and len(args) == 2: return [('val', a0[:3] + (args[1],) + a0[4:], st)]
            if name in ('notify', 'sleep', 'adjust'): return [('val', a0, st)]
        # unknown external call; closures passed to it may or may not run
        res = ('call', path, tuple(args), 0 if pure(path, name) else self.fresh())
        self.emit(st, 'call', node, path=path, args=tuple(args), res=res)
        cl = [a for a in args if a[0] in ('closure',)]
        if not cl or name in ('spawn', 'spawn_on', 'spawn_local', 'spawn_blocking'):
            return [('val', res, st)]
        out = []
        cur = [st]
        for i, c in enumerate(cl):
            nxt = []
            for s in cur:
                self.fork()
                s2 = s.copy()
                nxt.append(s)
                n = self.nodes[c[1]]
                ps = [('elem', a0 if a0 is not c else res, f'{name}.{j}') for j in range(len(n['params']))]
                self.emit(s2, 'hof', node, name=name, path=path, recv=a0, closure=c)
                for o, v, s3 in self.call_closure(c, ps, s2, node):
                    if o == 'val' and v and v[0] in ('async', 'asyncfn'):
                        for o4, v4, s4 in self.force(v, s3, node):
                            self.emit(s4, 'endhof', node, name=name, closure=c, val=v4, out=o4)
                            if o4 == 'val': nxt.append(s4)
                            else: out.append((o4, v4, s4))
                    elif o == 'val':
                        self.emit(s3, 'endhof', node, name=name, closure=c, val=v, out=o)
                        nxt.append(s3)
                    else:
                        out.append((o, v, s3))
            cur = nxt
        return out + [('val', res, s) for s in cur]

    def builder(self, path, name, args, st, node):
        """sqlx::QueryBuilder: accumulates text and bound values per path."""
        a0 = args[0] if args else ('unit',)
        if name in ('new', 'with_arguments') and 'Separated' not in path:
            q = ('qb', self.fresh())
            st.env[('qb', q)] = (('s', a0),)
            return [('val', q, st)]
        if a0[0] == 'qbsep':
            q, sep = a0[1], a0[2]
            key = ('qb', q)
            pcs = st.env.get(key, ())
            first = st.env.get(('sep', a0), True)
            if name in ('push', 'push_bind'):
                if not first: pcs += (('s', sep),)
                st.env[('sep', a0)] = False
            if name in ('push', 'push_unseparated'): pcs += (('s', args[1]),)
            elif name in ('push_bind', 'push_bind_unseparated'): pcs += (('b', args[1]),)
            else: return None
            st.env[key] = pcs
            return [('val', a0, st)]
        key = ('qb', a0)
        pcs = st.env.get(key, ())
        if name == 'push': st.env[key] = pcs + (('s', args[1]),); return [('val', a0, st)]
        if name == 'push_bind': st.env[key] = pcs + (('b', args[1]),); return [('val', a0, st)]
        if name == 'separated': return [('val', ('qbsep', a0, args[1], self.fresh()), st)]
        if name in ('push_values', 'push_tuples') and len(args) == 3 and args[2][0] in ('closure', 'fn'):
            st.env[key] = pcs + (('s', ('lit', 'VALUES (' if name == 'push_values' else '(('),),)
            it = args[1]
            sep = ('qbsep', a0, ('lit', ', '), self.fresh())
            self.emit(st, 'values', node, qb=a0, iter=it)
            out = []
            for o, v, s in self.call_closure(args[2], [sep, ('elem', it, 'values')], st, node):
                s.env[key] = s.env.get(key, ()) + (('s', ('lit', ')' if name == 'push_values' else '))')),)
                out.append((o, a0 if o == 'val' else v, s))
            return out
        if name.startswith('build'):
            txt, ok, bound = '', True, []
            for k, t in pcs:
                if k == 'b': txt += ' ? '; bound.append(t)
                elif t[0] == 'lit': txt += str(t[1])
                else: ok = False; txt += f'<{show(t)}>'
            q = ('query', txt if ok else ('dyn', txt), tuple(bound), name)
            self.emit(st, 'build', node, qb=a0, sql=txt, args=tuple(bound), how=name)
            return [('val', q, st)]
        if name in ('sql', 'into_sql'):
            txt = ''.join(' ? ' if k == 'b' else str(t[1]) if t[0] == 'lit' else f'<{show(t)}>' for k, t in pcs)
            return [('val', ('lit', txt), st)]
        return None

    def transaction(self, args, st, node):
        tid = self.fresh()
        tx = ('tx', tid)
        self.emit(st, 'tx_begin', node, id=tid, conn=args[0])
        # BEGIN may fail
        self.fork()
        f = st.copy()
        f.path.append((('txfail', 'begin', tid), True))
        self.emit(f, 'tx_end', node, id=tid, how='beginfail')
        out = [('val', ('v', 'Err', (('txerr', tid),)), f)]
        for o, v, s in self.call_closure(args[1], [tx], st, node):
            if o != 'val':
                self.emit(s, 'tx_end', node, id=tid, how='rollback'); out.append((o, v, s)); continue
            for o2, v2, s2 in self.force(v, s, node):
                if o2 != 'val':
                    self.emit(s2, 'tx_end', node, id=tid, how='rollback'); out.append((o2, v2, s2)); continue
                for m, s3 in self.decide_variant(v2, 'Ok', s2):
                    if m:
                        self.fork()
                        s4 = s3.copy()
                        self.emit(s3, 'tx_end', node, id=tid, how='commit')
                        out.append(('val', ('v', 'Ok', (self.payload(v2, 'Ok', 0),)), s3))
                        s4.path.append((('txfail', 'commit', tid), True))
                        self.emit(s4, 'tx_end', node, id=tid, how='commitfail')
                        out.append(('val', ('v', 'Err', (('txerr', tid),)), s4))
                    else:
                        self.emit(s3, 'tx_end', node, id=tid, how='rollback')
                        out.append(('val', ('v', 'Err', (self.payload(v2, 'Err', 0),)), s3))
        return out

    def select(self, c, st, node):
        """tokio::select!: one of the futures completes; the value is the branch with that future's output."""
        futs = None
        ids = {n['res'].get('id') for n in PR.walk(self.nodes[c[1]].get('body')) if n['k'] == 'path' and (n.get('res') or {}).get('r') == 'local' and n.get('name') == 'futures'}
        for k in reversed(list(st.env)):
            v = st.env[k]
            if isinstance(k, tuple) and len(k) == 2 and k[1] in ids and isinstance(v, tuple) and v[0] == 'tuple': futs = v[1]; break
        if futs is None: return None
        ids = {n['res'].get('id') for n in PR.walk(self.nodes[c[1]].get('body')) if n['k'] == 'path' and (n.get('res') or {}).get('r') == 'local' and n.get('name') == 'disabled'}
        off = next((mask_bits(st.env[k]) for k in reversed(list(st.env)) if isinstance(k, tuple) and len(k) == 2 and k[1] in ids), frozenset())
        out = []
        n = self.fresh()
        self.emit(st, 'select', node, futs=tuple(futs), id=n, off=off)
        for i, f in enumerate(futs):
            if i in off: continue  # its `if` guard is known not to hold here
            self.fork()
            s = st.copy()
            self.emit(s, 'branch', node, fut=f, index=i, id=n)
            for o, v, s2 in self.force(f, s, node):
                out.append((o, ('v', f'tokio::select::Out::_{i}', (v,)) if o == 'val' else v, s2))
        s = st.copy()
        self.emit(s, 'branch', node, fut=('unit',), index=-1, id=n)
        out.append(('val', ('v', 'tokio::select::Out::Disabled', ()), s))
        return out

    def collect_struct(self, a0, st, node):
        """collect() of a repository-defined iterator whose state is statically known."""
        ty = a0[1].split('<')[0].split('::')[-1]
        nx = [f for k, f in self.P.fns.items() if f.name == 'next' and f'::{ty}<' in k.replace('>', '<') and 'Iterator' in k]
        if len(nx) != 1: return None
        cur, items, st0 = a0, [], st
        s = st.copy()
        for _ in range(8):
            fr = self.frames + 1
            res = self.invoke(nx[0], [cur], s, node)
            if len(res) != 1 or res[0][0] != 'val': return None
            v, s = res[0][1], res[0][2]
            n = s.env.get((fr, nx[0].params[0]['id']))
            if n is not None and n[0] == 'struct' and n != cur:
                for k2, v2 in list(s.env.items()):
                    if v2 == cur: s.env[k2] = n
                cur = n
            vn = variant_of(v, s)
            if vn == 'None': return [('val', ('array', tuple(items)), s)]
            if vn != 'Some': return None
            items.append(self.payload(v, 'Some', 0))
        return None

    def std(self, path, name, args, st, node):
        """Models of Option/Result/bool combinators and a few std functions."""
        a0 = args[0] if args else None
        isres = re.match(r'^(core|std)::(result::Result|option::Option)', path or '')
        if isres and a0 is not None:
            isopt = 'option::Option' in path.split('<')[0]
            good, bad = ('Some', 'None') if isopt else ('Ok', 'Err')
            G = lambda x: ('v', good, (x,))
            B = lambda x=None: ('v', bad, () if isopt else (x,))
            if name in ('as_ref', 'as_mut', 'as_deref', 'as_deref_mut', 'copied', 'cloned', 'iter', 'inspect', 'inspect_err') and name not in ('inspect', 'inspect_err'):
                return [('val', a0, st)]
            if name in ('is_ok', 'is_some', 'is_err', 'is_none'):
                t = ('isvar', a0, good)
                v = variant_of(a0, st)
                if v in (good, bad):
                    return [('val', ('lit', (v == good) == (name in ('is_ok', 'is_some'))), st)]
                return [('val', t if name in ('is_ok', 'is_some') else ('not', t), st)]
            if name in ('map', 'map_err', 'and_then', 'or_else', 'ok', 'err', 'ok_or', 'ok_or_else', 'unwrap', 'expect', 'unwrap_or', 'unwrap_or_else',
                        'unwrap_or_default', 'map_or', 'map_or_else', 'transpose', 'flatten', 'filter', 'is_some_and', 'is_ok_and', 'is_none_or', 'inspect', 'inspect_err',
                        'unwrap_unchecked', 'or', 'and', 'take_', 'expect_err', 'unwrap_err'):
                out = []
                for m, s in self.decide_variant(a0, good, st):
                    p = self.payload(a0, good if m else bad, 0) if (m or not isopt) else None
                    c = args[1] if len(args) > 1 else None
                    call = lambda f, xs, s: self.call_closure(f, xs, s, node)
                    if name in ('map', 'and_then'):
                        if not m: out.append(('val', B(p), s))
                        else:
                            for o, v, s2 in call(c, [p], s): out.append((o, (G(v) if name == 'map' else v) if o == 'val' else v, s2))
                    elif name == 'map_err':
                        if m: out.append(('val', G(p), s))
                        else:
                            for o, v, s2 in call(c, [p], s): out.append((o, B(v) if o == 'val' else v, s2))
                    elif name in ('inspect', 'inspect_err'):
                        if m == (name == 'inspect'):
                            for o, v, s2 in call(c, [p], s): out.append((o, a0 if o == 'val' else v, s2))
                        else: out.append(('val', a0, s))
                    elif name == 'or_else':
                        if m: out.append(('val', G(p), s))
                        else: out.extend(call(c, [p] if not isopt else [], s))
                    elif name == 'or': out.append(('val', G(p) if m else c, s))
                    elif name == 'and': out.append(('val', c if m else B(p), s))
                    elif name == 'ok': out.append(('val', ('v', 'Some', (p,)) if m else ('v', 'None', ()), s))
                    elif name == 'err': out.append(('val', ('v', 'None', ()) if m else ('v', 'Some', (p,)), s))
                    elif name == 'ok_or': out.append(('val', ('v', 'Ok', (p,)) if m else ('v', 'Err', (c,)), s))
                    elif name == 'ok_or_else':
                        if m: out.append(('val', ('v', 'Ok', (p,)), s))
                        else:
                            for o, v, s2 in call(c, [], s): out.append((o, ('v', 'Err', (v,)) if o == 'val' else v, s2))
                    elif name in ('unwrap', 'expect', 'unwrap_unchecked'):
                        if m: out.append(('val', p, s))
                        else:
                            self.emit(s, 'panic', node, how=name, val=a0)
                            out.append(('panic', ('lit', name), s))
                    elif name in ('expect_err', 'unwrap_err'):
                        if m:
                            self.emit(s, 'panic', node, how=name, val=a0)
                            out.append(('panic', ('lit', name), s))
                        else: out.append(('val', p, s))
                    elif name == 'unwrap_or': out.append(('val', p if m else c, s))
                    elif name == 'unwrap_or_default': out.append(('val', p if m else ('default',), s))
                    elif name == 'unwrap_or_else':
                        if m: out.append(('val', p, s))
                        else: out.extend(call(c, [p] if not isopt else [], s))
                    elif name == 'map_or':
                        if m: out.extend(call(args[2], [p], s))
                        else: out.append(('val', c, s))
                    elif name == 'map_or_else':
                        if m: out.extend(call(args[2], [p], s))
                        else: out.extend(call(c, [p] if not isopt else [], s))
                    elif name in ('is_some_and', 'is_ok_and'):
                        if m: out.extend(call(c, [p], s))
                        else: out.append(('val', ('lit', False), s))
                    elif name == 'is_none_or':
                        if m: out.extend(call(c, [p], s))
                        else: out.append(('val', ('lit', True), s))
                    elif name == 'filter':
                        if not m: out.append(('val', B(), s))
                        else:
                            for o, v, s2 in call(c, [p], s):
                                if o != 'val': out.append((o, v, s2)); continue
                                for m2, s3 in self.cond(v, s2): out.append(('val', a0 if m2 else ('v', 'None', ()), s3))
                    elif name == 'flatten': out.append(('val', p if m else B(p), s))
                    elif name == 'transpose':
                        if isopt:
                            if not m: out.append(('val', ('v', 'Ok', (('v', 'None', ()),)), s))
                            else:
                                for m2, s3 in self.decide_variant(p, 'Ok', s):
                                    out.append(('val', ('v', 'Ok', (('v', 'Some', (self.payload(p, 'Ok', 0),)),)) if m2 else ('v', 'Err', (self.payload(p, 'Err', 0),)), s3))
                        else:
                            if not m: out.append(('val', ('v', 'Some', (('v', 'Err', (p,)),)), s))
                            else:
                                for m2, s3 in self.decide_variant(p, 'Some', s):
                                    out.append(('val', ('v', 'Some', (('v', 'Ok', (self.payload(p, 'Some', 0),)),)) if m2 else ('v', 'None', ()), s3))
                return out
        if name in ('spawn', 'spawn_on', 'spawn_local', 'spawn_blocking') and path and re.search(r'tokio|moro|task', path):
            fut = [a for a in args if a[0] in ('async', 'asyncfn', 'closure', 'call')]
            res = ('call', path, tuple(args), self.fresh())
            self.emit(st, 'spawn', node, path=path, task=fut[-1] if fut else None, args=tuple(args), res=res)
            return [('val', res, st)]
        if name in ('not',) and (path or '').endswith('ops::bit::Not::not'):
            return [('val', ('not', a0), st)]
        if (path or '').endswith(('cmp::PartialEq::eq',)) and len(args) == 2: return [('val', ('bin', '==', args[0], args[1]), st)]
        if (path or '').endswith(('cmp::PartialEq::ne',)) and len(args) == 2: return [('val', ('not', ('bin', '==', args[0], args[1])), st)]
        for fnm, op in (('lt', '<'), ('le', '<='), ('gt', '>'), ('ge', '>=')):
            if (path or '').endswith('cmp::PartialOrd::' + fnm) and len(args) == 2: return [('val', ('bin', op, args[0], args[1]), st)]
        if name in ('then', 'then_some') and (path or '').startswith(('core::bool', 'std::bool')):
            out = []
            for m, s in self.cond(a0, st):
                if not m: out.append(('val', ('v', 'None', ()), s))
                elif name == 'then_some': out.append(('val', ('v', 'Some', (args[1],)), s))
                else:
                    for o, v, s2 in self.call_closure(args[1], [], s, node): out.append((o, ('v', 'Some', (v,)) if o == 'val' else v, s2))
            return out
        if (path or '').endswith('::process::exit'):
            self.emit(st, 'exit', node)
            return [('exit', ('unit',), st)]
        if name in ('map', 'map_ok', 'map_err') and (path or '').startswith(('futures', 'futures_util')) and 'FutureExt' in path and a0 is not None and a0[0] in ('async', 'asyncfn', 'sqlres'):
            # future.map(f): run the future at once, then f on its output (awaited later)
            out = []
            for o, v, s in self.force(a0, st, node):
                if o != 'val': out.append((o, v, s)); continue
                if name == 'map': out.extend(self.call_closure(args[1], [v], s, node)); continue
                for m, s2 in self.decide_variant(v, 'Ok', s):
                    x = self.payload(v, 'Ok' if m else 'Err', 0)
                    if m == (name == 'map_ok'):
                        for o3, v3, s3 in self.call_closure(args[1], [x], s2, node): out.append((o3, ('v', 'Ok' if m else 'Err', (v3,)) if o3 == 'val' else v3, s3))
                    else: out.append(('val', ('v', 'Ok' if m else 'Err', (x,)), s2))
            return out
        return None


def listof(t):
    """Items of a statically known finite sequence, else None."""
    if not isinstance(t, tuple) or not t: return None
    if t[0] in ('array', 'list'): return list(t[1])
    if t[0] == 'struct' and t[1].split('<')[0].endswith(('ops::range::Range', 'range::Range')):
        d = dict(t[2])
        a, b = d.get('start'), d.get('end')
        if a and b and a[0] == 'lit' and b[0] == 'lit' and isinstance(a[1], int) and isinstance(b[1], int) and b[1] - a[1] <= 16:
            return [('lit', i) for i in range(a[1], b[1])]
    return None


PLACEHOLDER = re.compile(r'\{\{|\}\}|\{([A-Za-z_0-9]*)(:[^}]*)?\}')


def fold_format(t, snip):
    """format!(template, args…) with one argument per placeholder, in order, and literals folded into the text; all known: a literal."""
    tmpl, args = t[2], list(t[3])
    body = snip[snip.index('(') + 1: snip.rindex(')')] if '(' in snip and ')' in snip else snip
    srcs = split_top(body)
    while srcs and rust_str(srcs[0]) != tmpl: srcs = srcs[1:]
    srcs = [x.strip() for x in srcs[1:] if x.strip()]
    expl = []       # (name, literal or None)
    for x in srcs:
        m = re.match(r'^([A-Za-z_]\w*)\s*=(?!=)\s*(.*)$', x, re.S)
        nm, ex = (m.group(1), m.group(2)) if m else (None, x)
        l = rust_str(ex)
        if l is None and re.match(r'^\d[\d_]*$', ex): l = ex.replace('_', '')
        expl.append((nm, l))
    named = {n for n, l in expl if n}
    ph = [m for m in PLACEHOLDER.finditer(tmpl) if m.group() not in ('{{', '}}')]
    capt = list(dict.fromkeys(m.group(1) for m in ph if m.group(1) and not m.group(1).isdigit() and m.group(1) not in named))
    nlit = sum(l is not None for n, l in expl)
    if not ph: args = []  # the text itself
    if len(args) == len(expl) + len(capt): vals = args[:len(expl)]
    elif len(args) == len(expl) - nlit + len(capt):
        rest = iter(args); vals = [('lit', l) if l is not None else next(rest) for n, l in expl]
    else: return t
    cap = dict(zip(capt, args[len(args) - len(capt):])) if capt else {}
    cap.update({n: v for (n, l), v in zip(expl, vals) if n})
    pos = [v for (n, l), v in zip(expl, vals)]
    out, text, raw, nxt, last_ = [], '', '', 0, 0
    for m in PLACEHOLDER.finditer(tmpl):
        text += tmpl[last_:m.start()]; raw += tmpl[last_:m.start()]
        last_ = m.end()
        if m.group() in ('{{', '}}'): text += m.group(); raw += m.group()[0]; continue
        nm, spec = m.group(1), m.group(2)
        if nm and not nm.isdigit(): a = cap.get(nm)
        elif nm: a = pos[int(nm)] if int(nm) < len(pos) else None
        else:
            a = pos[nxt] if nxt < len(pos) else None
            nxt += 1
        if a is None: return t
        if a[0] == 'lit' and not isinstance(a[1], bool) and not spec:
            v = str(a[1]); text += v.replace('{', '{{').replace('}', '}}'); raw += v; continue
        text += m.group(); out.append(a)
    text += tmpl[last_:]; raw += tmpl[last_:]
    if not out: return ('lit', raw)
    return ('mac', t[1], text, tuple(out))


_keys = {}


class FnKey:
    """Hashable reference to a function."""
    __slots__ = ('fn',)

    def __new__(cls, fn):
        k = _keys.get(id(fn))
        if k is None:
            k = object.__new__(cls)
            k.fn = fn
            _keys[id(fn)] = k
            Interp._fns[k] = fn
        return k

    def __repr__(self): return f'fn:{self.fn.path}'


PURE = {'len', 'is_empty', 'as_secs', 'now', 'contains', 'contains_key', 'eq', 'cmp', 'elapsed', 'get_or', 'chunks', 'enumerate', 'zip', 'map', 'filter', 'rev', 'collect',
        'unwrap', 'min', 'max', 'saturating_add', 'saturating_sub', 'checked_add', 'wrapping_add', 'is_multiple_of', 'abs', 'chain', 'take', 'skip', 'peekable',
        'from_secs', 'from_millis', 'try_from', 'try_into', 'timestamp', 'format', 'parse', 'default', 'new', 'is_disabled', 'is_closed', 'as_u64', 'get', 'first', 'last', 'push_str', 'trim'}


def pure(path, name):
    return name in {'len', 'is_empty', 'as_secs', 'eq', 'cmp', 'enumerate', 'zip', 'rev', 'chunks', 'min', 'max', 'saturating_add', 'saturating_sub', 'checked_add', 'is_multiple_of',
                    'from_secs', 'from_millis', 'try_from', 'try_into', 'default', 'chain', 'take', 'skip', 'parse', 'collect'}


def bare(t):
    """Type text without module paths."""
    return re.sub(r'(?:\w+::)+', '', t or '')


def norm_cond(t):
    """Canonical comparison: only == and <; returns (term, negated)."""
    neg = False
    while t[0] == 'not':
        t, neg = t[1], not neg
    if t[0] == 'bin':
        op, a, b = t[1], t[2], t[3]
        if op == '!=': t, neg = ('bin', '==', a, b), not neg
        elif op == '>': t = ('bin', '<', b, a)
        elif op == '>=': t, neg = ('bin', '<', a, b), not neg
        elif op == '<=': t, neg = ('bin', '<', b, a), not neg
        if t[1] == '==' and repr(t[2]) > repr(t[3]): t = ('bin', '==', t[3], t[2])
    return t, neg


def dedupe(cur):
    return cur


def query_macro_sql(snip):
    """SQL text and argument source texts of a sqlx::query*!(…) call."""
    body = snip[snip.index('(') + 1: snip.rindex(')')] if '(' in snip else snip
    parts = split_top(body)
    sql, args = None, []
    for i, p in enumerate(parts):
        lit = rust_str(p.strip())
        if lit is not None and sql is None: sql = lit
        elif sql is not None and p.strip(): args.append(p.strip())
    return sql, args


def rust_str(s):
    """Value of a Rust string literal or a `+`-joined sequence of them; None otherwise."""
    s = s.strip()
    m = re.match(r'^r(#*)"(.*)"\1$', s, re.S)
    if m: return m.group(2)
    if re.match(r'^"(\\.|[^"\\])*"$', s, re.S):
        b = s[1:-1]
        b = re.sub(r'\\\n\s*', '', b)
        return b.replace('\\n', '\n').replace('\\t', '\t').replace('\\"', '"').replace('\\\\', '\\')
    parts = split_top(s, '+')
    if len(parts) > 1:
        vs = [rust_str(p) for p in parts]
        if all(v is not None for v in vs): return ''.join(vs)
    return None


def split_top(s, sep=','):
    """Splits at top-level separators, aware of brackets, strings and comments."""
    out, d, cur, i = [], 0, '', 0
    while i < len(s):
        c = s[i]
        if c == '"' or (c == 'r' and re.match(r'r#*"', s[i:]) and (i == 0 or not (s[i - 1].isalnum() or s[i - 1] == '_'))):
            if c == 'r':
                h = re.match(r'r(#*)"', s[i:])
                end = s.find('"' + h.group(1), i + h.end())
                end = len(s) if end < 0 else end + 1 + len(h.group(1))
            else:
                j = i + 1
                while j < len(s) and s[j] != '"': j += 2 if s[j] == '\\' else 1
                end = j + 1
            cur += s[i:end]; i = end; continue
        if s.startswith('//', i):
            j = s.find('\n', i); i = len(s) if j < 0 else j; continue
        if c in '([{': d += 1
        elif c in ')]}': d -= 1
        if c == sep and d == 0:
            out.append(cur); cur = ''
        else: cur += c
        i += 1
    if cur.strip(): out.append(cur)
    return out


def macro_template(snip):
    """First string literal of a macro call."""
    if '(' not in snip: return ''
    body = snip[snip.index('(') + 1: snip.rindex(')')] if ')' in snip else snip
    for p in split_top(body):
        v = rust_str(p)
        if v is not None: return v
    return ''


def metric_name(snip):
    body = snip[snip.index('(') + 1: snip.rindex(')')] if '(' in snip else snip
    return split_top(body)[0].strip().split('::')[-1] if split_top(body) else ''
