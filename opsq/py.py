"""Path-sensitive symbolic reading of the Python sources (ast only, nothing is imported or run).

Functions and methods of the repository are inlined; every other call is an opaque term and an event. Values
are tuples with structural identity. Loops contribute one generic iteration; generators and other lazy
sequences are values that `Py.stream` brings to a normal form (sources, element, conditions)."""
import ast, os

class Limit(Exception): pass

DIR = 'libs/opsqueue_python/python/opsqueue'
# functions returning their argument unchanged, as far as values are concerned
SAME = {'cast': 1, 'typing.cast': 1, 'iter': 0, 'aiter': 0}
SEQ = {'list', 'tuple'}  # same elements in the same order


class Ev:
    __slots__ = ('k', 'a', 'where', 'ncond')
    def __init__(self, k, where, ncond, **a): self.k, self.where, self.ncond, self.a = k, where, ncond, a
    def __getattr__(self, n):
        try: return self.a[n]
        except KeyError: raise AttributeError(n)
    def __repr__(self): return f'<{self.k} {self.a}>'


class St:
    __slots__ = ('env', 'ev', 'conds', 'loops')
    def __init__(self): self.env, self.ev, self.conds, self.loops = {}, [], [], []
    def copy(self):
        s = St(); s.env, s.ev, s.conds, s.loops = dict(self.env), list(self.ev), list(self.conds), list(self.loops)
        return s


class P:
    __slots__ = ('out', 'val', 'st')
    def __init__(self, out, val, st): self.out, self.val, self.st = out, val, st
    @property
    def ev(self): return self.st.ev
    @property
    def conds(self): return self.st.conds


class Accumulators(ast.NodeTransformer):
    """`x = []; for t in it: ... x.append(e) ...` reads as a list made from a generator of the same values."""
    n = 0

    def generic_visit(self, node):
        super().generic_visit(node)
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(node, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt) and not isinstance(node, (ast.Module, ast.ClassDef)): setattr(node, f, self.block(b))
        return node

    def block(self, b):
        out, i = [], 0
        b = list(b)
        while i < len(b):
            name = self.empty(b[i])
            j = next((j for j in range(i + 1, len(b)) if any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(b[j]))), None) if name else None
            if j is not None and self.fits(b[j], name):
                Accumulators.n += 1
                g = f'__acc_{name}_{Accumulators.n}'
                loop = Appends(name).visit(b[j])
                fn = ast.FunctionDef(name=g, args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=[loop], decorator_list=[], type_params=[])
                asg = ast.Assign(targets=[ast.Name(id=name, ctx=ast.Store())], value=ast.Call(func=ast.Name(id='list', ctx=ast.Load()), args=[ast.Call(func=ast.Name(id=g, ctx=ast.Load()), args=[], keywords=[])], keywords=[]))
                for x in (fn, asg): ast.copy_location(x, b[j])
                b[j:j + 1] = [fn, asg]
                b.pop(i)
                continue
            out.append(b[i]); i += 1
        return out

    def empty(self, s):
        t, v = (s.targets[0], s.value) if isinstance(s, ast.Assign) and len(s.targets) == 1 else (s.target, s.value) if isinstance(s, ast.AnnAssign) else (None, None)
        if not isinstance(t, ast.Name): return None
        if isinstance(v, ast.List) and not v.elts or isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'list' and not v.args: return t.id

    def fits(self, s, name):
        if not isinstance(s, ast.For) or s.orelse: return False
        if any(isinstance(x, (ast.Return, ast.Yield, ast.YieldFrom, ast.Await, ast.AsyncFor, ast.FunctionDef, ast.Lambda, ast.Nonlocal)) for x in ast.walk(s)): return False
        ok = {id(x.value.func.value) for x in ast.walk(s) if isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Attribute) and x.value.func.attr in ('append', 'extend')
              and isinstance(x.value.func.value, ast.Name) and x.value.func.value.id == name and len(x.value.args) == 1 and not x.value.keywords}
        uses = [x for x in ast.walk(s) if isinstance(x, ast.Name) and x.id == name]
        return bool(uses) and all(id(x) in ok for x in uses)


class Appends(ast.NodeTransformer):
    def __init__(self, name): self.name = name

    def visit_Expr(self, s):
        c = s.value
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name) and c.func.value.id == self.name:
            s.value = ast.copy_location((ast.Yield if c.func.attr == 'append' else ast.YieldFrom)(value=c.args[0]), c)
        return s


MEMO = {'cache', 'lru_cache', 'cached', 'memoize', 'memoized', 'cached_property', 'once'}
PLAIN = {'staticmethod', 'classmethod', 'property', 'overload', 'abstractmethod', 'override', 'final', 'wraps', 'deprecated', 'no_type_check'}


def last_name(d):
    """Name of a decorator."""
    if isinstance(d, ast.Call): d = d.func
    return d.attr if isinstance(d, ast.Attribute) else d.id if isinstance(d, ast.Name) else '?'


class Py:
    def __init__(self, repo):
        self.repo, self.mods, self.n, self.forks = repo, {}, 0, 0
        self.stack = []
        self.nodes = {}
        d = os.path.join(repo, DIR)
        self.files = sorted(f for f in os.listdir(d) if f.endswith('.py')) if os.path.isdir(d) else []

    # ---- modules ----
    def mod(self, name):
        if name in self.mods: return self.mods[name]
        path = os.path.join(self.repo, DIR, name + '.py')
        if not os.path.exists(path): return None
        tree = Accumulators().visit(ast.parse(open(path).read()))
        ast.fix_missing_locations(tree)
        m = {'name': name, 'path': f'{DIR}/{name}.py', 'defs': {}, 'tree': tree}
        self.mods[name] = m
        def top(body):
            for s in body:
                if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)): m['defs'][s.name] = ('fn', s)
                elif isinstance(s, ast.ClassDef): m['defs'][s.name] = ('class', s)
                elif isinstance(s, ast.Import):
                    for a in s.names: m['defs'][a.asname or a.name.split('.')[0]] = ('ext', a.asname and a.name or a.name.split('.')[0])
                elif isinstance(s, ast.ImportFrom):
                    src = s.module or ''
                    if s.level or src.split('.')[0] == 'opsqueue':
                        src = src if s.level else '.'.join(src.split('.')[1:])
                        for a in s.names:
                            m['defs'][a.asname or a.name] = ('mod', a.name) if not src else ('from', src, a.name)
                    else:
                        for a in s.names: m['defs'][a.asname or a.name] = ('ext', f'{src}.{a.name}')
                elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name): m['defs'][s.targets[0].id] = ('expr', s.value)
                elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None: m['defs'][s.target.id] = ('expr', s.value)
                elif isinstance(s, (ast.If, ast.Try)): top(s.body); top(getattr(s, 'orelse', []))
        top(tree.body)
        return m

    def glob(self, m, name):
        d = m['defs'].get(name)
        if d is None: return ('ext', name)
        if d[0] == 'fn': return self.fnval(m, d[1], None)
        if d[0] == 'class': return ('class', m['name'], name)
        if d[0] == 'mod': return ('mod', d[1]) if self.mod(d[1]) else ('ext', d[1])
        if d[0] == 'from':
            t = self.mod(d[1])
            return self.glob(t, d[2]) if t else ('ext', f'{d[1]}.{d[2]}')
        if d[0] == 'ext': return ('ext', d[1])
        if d[0] == 'expr':
            x = d[1]
            if isinstance(x, ast.Dict) and not x.keys or isinstance(x, ast.List) and not x.elts or isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('dict', 'list', 'set') and not x.args and not x.keywords:
                return ('shared', m['name'], name)       # one object for the life of the process
            r = self.ev(d[1], St(), m)
            return r[0][1] if len(r) == 1 and r[0][0] == 'val' else ('ext', f'{m["name"]}.{name}')

    def fnval(self, m, node, env, cls=None):
        self.nodes[id(node)] = node
        return ('fn', m['name'], getattr(node, 'name', '<lambda>'), id(node), env, cls)

    def method(self, cls, name):
        m = self.mod(cls[1])
        c = m['defs'].get(cls[2])
        if not c: return None
        for s in c[1].body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)) and s.name == name: return self.fnval(m, s, None, cls)
        for b in c[1].bases:
            if isinstance(b, ast.Name):
                v = self.glob(m, b.id)
                if v[0] == 'class':
                    r = self.method(v, name)
                    if r: return r
        return None

    def methods(self, modname, clsname):
        m = self.mod(modname)
        c = m and m['defs'].get(clsname)
        return [s.name for s in c[1].body if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef))] if c and c[0] == 'class' else []

    # ---- running ----
    def run_method(self, modname, clsname, name):
        """All paths of a method with symbolic parameters."""
        cls = ('class', modname, clsname)
        f = self.method(cls, name) if self.mod(modname) else None
        if f is None: return None
        node = self.nodes[f[3]]
        st = St()
        a = node.args
        vals = {}
        for i, x in enumerate(a.posonlyargs + a.args + a.kwonlyargs): vals[x.arg] = ('self', modname, clsname) if i == 0 else ('param', x.arg)
        return self.body(f, vals, st)

    def run_fn(self, modname, name, args=None):
        m = self.mod(modname)
        if not m or name not in m['defs'] or m['defs'][name][0] != 'fn': return None
        f = self.glob(m, name)
        node = self.nodes[f[3]]
        a = node.args
        return self.body(f, args or {x.arg: ('param', x.arg) for x in a.posonlyargs + a.args + a.kwonlyargs}, St())

    def body(self, f, vals, st):
        """Paths of a function body: [P(out: ret/raise, val, st)]."""
        if len(self.stack) > 12: raise Limit('too deep')
        node, m = self.nodes[f[3]], self.mod(f[1])
        outer = st.env
        self.n += 1
        st = st.copy()
        st.env = dict(f[4] or {})
        st.env.update(vals)
        self.stack.append((f, m))
        try:
            if isinstance(node, ast.Lambda): res = [('ret' if o == 'val' else o, v, s) for o, v, s in self.ev(node.body, st, m)]
            else: res = self.stmts(node.body, st, m)
        finally: self.stack.pop()
        out = []
        for o, v, s in res:
            s.env = outer
            out.append(P('ret' if o in ('val', 'ret', 'next') else o, v if o in ('ret', 'raise') or isinstance(node, ast.Lambda) else ('const', None), s))
        return out

    def is_gen(self, node):
        if isinstance(node, ast.Lambda): return False
        st = list(node.body)
        while st:
            x = st.pop()
            if isinstance(x, (ast.Yield, ast.YieldFrom)): return True
            if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)): continue
            st.extend(ast.iter_child_nodes(x))
        return False

    def where(self, m, node):
        return f'{m["path"]}:{getattr(node, "lineno", 0)}'

    def emit(self, st, k, m, node, **a):
        st.ev.append(Ev(k, self.where(m, node), len(st.conds), loops=tuple(st.loops), **a))

    def fork(self):
        self.forks += 1
        if self.forks > 4000: raise Limit('too many paths')

    # ---- statements: [(out, val, st)], out in next/ret/raise/break/continue ----
    def stmts(self, body, st, m):
        cur = [('next', None, st)]
        for s in body:
            nxt = []
            for o, v, x in cur:
                if o != 'next': nxt.append((o, v, x))
                else: nxt += self.stmt(s, x, m)
            cur = nxt
        return cur

    def stmt(self, s, st, m):
        N = lambda rs: [('next', None, x) if o == 'val' else (o, v, x) for o, v, x in rs]
        if isinstance(s, ast.Expr):
            if isinstance(s.value, ast.Constant): return [('next', None, st)]
            return N(self.ev(s.value, st, m))
        if isinstance(s, (ast.Pass, ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal)):
            if isinstance(s, (ast.Import, ast.ImportFrom)):
                tmp = {'name': m['name'], 'path': m['path'], 'defs': {}, 'tree': None}
                for a in s.names:
                    if isinstance(s, ast.Import): st.env[a.asname or a.name.split('.')[0]] = ('ext', a.name.split('.')[0])
                    else:
                        src = s.module or ''
                        loc = s.level or src.split('.')[0] == 'opsqueue'
                        src = src if s.level else ('.'.join(src.split('.')[1:]) if loc else src)
                        t = self.mod(src) if loc and src else None
                        st.env[a.asname or a.name] = self.glob(t, a.name) if t else (('mod', a.name) if loc and not src and self.mod(a.name) else ('ext', f'{src}.{a.name}'))
            return [('next', None, st)]
        if isinstance(s, ast.Return):
            if s.value is None: return [('ret', ('const', None), st)]
            return [('ret', v, x) if o == 'val' else (o, v, x) for o, v, x in self.ev(s.value, st, m)]
        if isinstance(s, ast.Raise):
            if s.exc is None: return [('raise', ('reraise',), st)]
            return [('raise', v, x) for o, v, x in self.ev(s.exc, st, m)]
        if isinstance(s, ast.Assert):
            out = []
            for o, v, x in self.ev(s.test, st, m):
                if o != 'val': out.append((o, v, x)); continue
                a, b = x.copy(), x.copy()
                a.conds.append((v, True)); b.conds.append((v, False))
                out += [('next', None, a), ('raise', ('ext', 'AssertionError'), b)]
            return out
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
            st.env[s.name] = self.fnval(m, s, st.env)
            return [('next', None, st)]
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            if s.value is None: return [('next', None, st)]
            out = []
            for o, v, x in self.ev(s.value, st, m):
                if o != 'val': out.append((o, v, x)); continue
                for t in (s.targets if isinstance(s, ast.Assign) else [s.target]): self.bind(t, v, x, m)
                out.append(('next', None, x))
            return out
        if isinstance(s, ast.AugAssign):
            out = []
            load = ast.copy_location(ast.BinOp(left=self.as_load(s.target), op=s.op, right=s.value), s)
            for o, v, x in self.ev(load, st, m):
                if o == 'val': self.bind(s.target, v, x, m)
                out.append(('next' if o == 'val' else o, v, x))
            return out
        if isinstance(s, ast.If):
            out = []
            for tv, x in self.test(s.test, st, m):
                if tv in ('raise',): out.append(x); continue
                out += self.stmts(s.body if tv else s.orelse, x, m)
            return out
        if isinstance(s, (ast.For, ast.AsyncFor)):
            out = []
            for o, v, x in self.ev(s.iter, st, m):
                if o != 'val': out.append((o, v, x)); continue
                self.n += 1
                lid = self.n
                el = ('elem', v, lid)
                z = x.copy()
                self.emit(z, 'for0', m, s, iter=v, id=lid)
                out += self.stmts(s.orelse, z, m) if s.orelse else [('next', None, z)]
                y = x.copy()
                self.havoc(s.body, y, lid)
                y.loops = y.loops + [(lid, v)]
                self.emit(y, 'for', m, s, iter=v, id=lid, elem=el)
                self.bind(s.target, el, y, m)
                for o2, v2, y2 in self.stmts(s.body, y, m):
                    if o2 in ('ret', 'raise'): out.append((o2, v2, y2)); continue
                    self.emit(y2, 'endfor', m, s, id=lid, how=o2)
                    y2.loops = [l for l in y2.loops if l[0] != lid]
                    self.havoc(s.body, y2, lid)
                    out += self.stmts(s.orelse, y2, m) if s.orelse and o2 != 'break' else [('next', None, y2)]
            return out
        if isinstance(s, ast.While):
            out = []
            self.n += 1
            lid = self.n
            y = st.copy()
            self.havoc(s.body, y, lid)
            inf = isinstance(s.test, ast.Constant) and bool(s.test.value)
            y.loops = y.loops + [(lid, None)]
            self.emit(y, 'while', m, s, id=lid)
            for tv, x in self.test(s.test, y, m):
                if tv == 'raise': out.append(x); continue
                if not tv:
                    if inf: continue
                    x.loops = [l for l in x.loops if l[0] != lid]
                    self.emit(x, 'endwhile', m, s, id=lid, how='test')
                    out.append(('next', None, x)); continue
                for o2, v2, y2 in self.stmts(s.body, x, m):
                    if o2 in ('ret', 'raise'): out.append((o2, v2, y2)); continue
                    self.emit(y2, 'endwhile', m, s, id=lid, how=o2)
                    y2.loops = [l for l in y2.loops if l[0] != lid]
                    if o2 == 'break': out.append(('next', None, y2))
                    else: out.append(('loop', None, y2))
            return out
        if isinstance(s, (ast.With, ast.AsyncWith)):
            cur = [('val', None, st)]
            for it in s.items:
                nxt = []
                for o, v, x in cur:
                    if o != 'val': nxt.append((o, v, x)); continue
                    for o2, v2, x2 in self.ev(it.context_expr, x, m):
                        if o2 == 'val':
                            self.emit(x2, 'with', m, s, val=v2)
                            if it.optional_vars is not None: self.bind(it.optional_vars, ('entered', v2), x2, m)
                        nxt.append((o2, v2, x2))
                cur = nxt
            out = []
            for o, v, x in cur:
                if o != 'val': out.append((o, v, x)); continue
                for o2, v2, x2 in self.stmts(s.body, x, m):
                    self.emit(x2, 'endwith', m, s)
                    out.append((o2, v2, x2))
            return out
        if isinstance(s, ast.Try):
            out = []
            for o, v, x in self.stmts(s.body, st.copy(), m):
                if o == 'raise' and s.handlers:
                    for h in s.handlers:
                        z = x.copy()
                        self.emit(z, 'except', m, h, type=ast.unparse(h.type) if h.type else None, val=v)
                        if h.name: z.env[h.name] = ('exc', v)
                        out += self.stmts(h.body, z, m)
                    continue
                out += self.stmts(s.orelse, x, m) if o == 'next' and s.orelse else [(o, v, x)]
            # an opaque call inside may raise
            for h in s.handlers:
                z = st.copy()
                self.emit(z, 'except', m, h, type=ast.unparse(h.type) if h.type else None, val=('any',), body=[ast.unparse(b) for b in s.body])
                if h.name: z.env[h.name] = ('exc', ('any',))
                out += self.stmts(h.body, z, m)
            if s.finalbody:
                fin = []
                for o, v, x in out:
                    for o2, v2, x2 in self.stmts(s.finalbody, x, m): fin.append((o, v, x2) if o2 == 'next' else (o2, v2, x2))
                out = fin
            return out
        if isinstance(s, ast.Break): return [('break', None, st)]
        if isinstance(s, ast.Continue): return [('continue', None, st)]
        if isinstance(s, ast.Delete): return [('next', None, st)]
        if isinstance(s, ast.ClassDef): return [('next', None, st)]
        if isinstance(s, ast.Match): raise Limit('match statement')
        raise Limit(type(s).__name__)

    def as_load(self, t):
        t2 = ast.parse(ast.unparse(t), mode='eval').body
        return ast.copy_location(t2, t)

    def havoc(self, body, st, lid):
        """Variables assigned in a loop have an unknown value on entry of the generic iteration."""
        for b in body:
            for n in ast.walk(b):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id in st.env:
                    st.env[n.id] = ('phi', lid, n.id)

    def bind(self, t, v, st, m):
        if isinstance(t, ast.Name): st.env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            for i, e in enumerate(t.elts):
                self.bind(e, v[1][i] if v[0] in ('tuple', 'list') and len(v[1]) > i else ('item', v, ('const', i)), st, m)
        elif isinstance(t, ast.Attribute):
            r = self.ev(t.value, st, m)
            self.emit(st, 'setattr', m, t, obj=r[0][1], name=t.attr, val=v)
            st.env[('attr', r[0][1], t.attr)] = v
        elif isinstance(t, ast.Subscript):
            r = self.ev(t.value, st, m); k = self.ev(t.slice, st, m)
            self.emit(st, 'setitem', m, t, obj=r[0][1], key=k[0][1], val=v)
        elif isinstance(t, ast.Starred): self.bind(t.value, ('rest', v), st, m)

    def test(self, e, st, m):
        """[(truth, state)]; ('raise', triple) for exits."""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(not t, x) if t != 'raise' else (t, x) for t, x in self.test(e.operand, st, m)]
        if isinstance(e, ast.BoolOp):
            cur = [(None, st)]
            stop = isinstance(e.op, ast.Or)
            out = []
            for i, v in enumerate(e.values):
                nxt = []
                for _, x in cur:
                    for t, y in self.test(v, x, m):
                        if t == 'raise' or t == stop or i == len(e.values) - 1: out.append((t, y))
                        else: nxt.append((t, y))
                cur = nxt
            return out
        out = []
        for o, v, x in self.ev(e, st, m):
            if o != 'val': out.append(('raise', (o, v, x))); continue
            if v[0] == 'const': out.append((bool(v[1]), x)); continue
            c, neg = self.norm(v)
            kn = next((b for k, b in x.conds if k == c), None)
            if kn is not None: out.append((kn != neg, x)); continue
            self.fork()
            for b in (True, False):
                y = x.copy()
                y.conds.append((c, b != neg))
                out.append((b, y))
        return out

    def norm(self, v):
        if v[0] == 'not': c, n = self.norm(v[1]); return c, not n
        if v[0] == 'cmp' and v[1] in ('NotEq', 'IsNot', 'NotIn'): return ('cmp', {'NotEq': 'Eq', 'IsNot': 'Is', 'NotIn': 'In'}[v[1]], v[2], v[3]), True
        if v[0] == 'cmp' and v[1] == 'GtE': return ('cmp', 'Lt', v[2], v[3]), True
        if v[0] == 'cmp' and v[1] == 'LtE': return ('cmp', 'Lt', v[3], v[2]), True
        if v[0] == 'cmp' and v[1] == 'Gt': return ('cmp', 'Lt', v[3], v[2]), False
        return v, False

    # ---- expressions: [(out, val, st)], out in val/raise ----
    def seq(self, es, st, m):
        cur = [('val', (), st)]
        for e in es:
            nxt = []
            for o, vs, x in cur:
                if o != 'val': nxt.append((o, vs, x)); continue
                for o2, v, y in self.ev(e, x, m): nxt.append((o2, vs + (v,) if o2 == 'val' else v, y))
            cur = nxt
        return cur

    def ev(self, e, st, m):
        V = lambda v: [('val', v, st)]
        if isinstance(e, ast.Constant): return V(('const', e.value))
        if isinstance(e, ast.Name):
            if e.id in st.env: return V(st.env[e.id])
            return V(self.glob(m, e.id))
        if isinstance(e, ast.Attribute):
            out = []
            for o, v, x in self.ev(e.value, st, m):
                if o != 'val': out.append((o, v, x)); continue
                out.append(('val', self.attr(v, e.attr, x), x))
            return out
        if isinstance(e, ast.Await):
            return self.ev(e.value, st, m)
        if isinstance(e, ast.Call): return self.call(e, st, m)
        if isinstance(e, ast.Lambda): return V(self.fnval(m, e, st.env))
        if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
            k = {ast.Tuple: 'tuple', ast.List: 'list', ast.Set: 'set'}[type(e)]
            return [(o, (k, v) if o == 'val' else v, x) for o, v, x in self.seq([y.value if isinstance(y, ast.Starred) else y for y in e.elts], st, m)] if not any(isinstance(y, ast.Starred) for y in e.elts) else [(o, ('star' + k, v) if o == 'val' else v, x) for o, v, x in self.seq([y.value if isinstance(y, ast.Starred) else y for y in e.elts], st, m)]
        if isinstance(e, ast.Dict):
            ks = [k for k in e.keys]
            out = []
            for o, v, x in self.seq([k if k is not None else ast.Constant(value='**') for k in ks] + e.values, st, m):
                n = len(ks)
                if o == 'val':
                    self.n += 1
                    v = ('dict', tuple(zip(v[:n], v[n:])), self.n if n == 0 else 0)
                out.append((o, v, x))
            return out
        if isinstance(e, ast.BinOp): return [(o, ('bin', type(e.op).__name__, v[0], v[1]) if o == 'val' else v, x) for o, v, x in self.seq([e.left, e.right], st, m)]
        if isinstance(e, ast.UnaryOp):
            out = []
            for o, v, x in self.ev(e.operand, st, m):
                if o == 'val':
                    if isinstance(e.op, ast.Not): v = ('not', v)
                    elif v[0] == 'const' and isinstance(e.op, ast.USub): v = ('const', -v[1])
                    else: v = ('un', type(e.op).__name__, v)
                out.append((o, v, x))
            return out
        if isinstance(e, ast.Compare):
            if len(e.ops) == 1: return [(o, ('cmp', type(e.ops[0]).__name__, v[0], v[1]) if o == 'val' else v, x) for o, v, x in self.seq([e.left, e.comparators[0]], st, m)]
            return [(o, ('cmps', tuple(type(x).__name__ for x in e.ops), v) if o == 'val' else v, x) for o, v, x in self.seq([e.left] + e.comparators, st, m)]
        if isinstance(e, ast.BoolOp):
            return [(o, ('bool', type(e.op).__name__, v) if o == 'val' else v, x) for o, v, x in self.seq(e.values, st, m)]
        if isinstance(e, ast.IfExp):
            out = []
            for t, x in self.test(e.test, st, m):
                if t == 'raise': out.append(x); continue
                out += self.ev(e.body if t else e.orelse, x, m)
            return out
        if isinstance(e, ast.NamedExpr):
            out = []
            for o, v, x in self.ev(e.value, st, m):
                if o == 'val': x.env[e.target.id] = v
                out.append((o, v, x))
            return out
        if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
            self.nodes[id(e)] = e
            k = {ast.ListComp: 'listcomp', ast.GeneratorExp: 'genexp', ast.SetComp: 'setcomp'}[type(e)]
            return V((k, m['name'], id(e), dict(st.env)))
        if isinstance(e, ast.DictComp): return V(('dictcomp', ast.unparse(e)))
        if isinstance(e, ast.Subscript): return [(o, ('item', v[0], v[1]) if o == 'val' else v, x) for o, v, x in self.seq([e.value, e.slice], st, m)]
        if isinstance(e, ast.Slice): return [(o, ('slice', v) if o == 'val' else v, x) for o, v, x in self.seq([y or ast.Constant(value=None) for y in (e.lower, e.upper, e.step)], st, m)]
        if isinstance(e, ast.JoinedStr):
            return [(o, ('fstr', v) if o == 'val' else v, x) for o, v, x in self.seq([y.value if isinstance(y, ast.FormattedValue) else y for y in e.values], st, m)]
        if isinstance(e, ast.Yield):
            out = []
            for o, v, x in (self.ev(e.value, st, m) if e.value is not None else V(('const', None))):
                if o == 'val':
                    self.emit(x, 'yield', m, e, val=v)
                    v = ('sent',)
                out.append((o, v, x))
            return out
        if isinstance(e, ast.YieldFrom):
            out = []
            for o, v, x in self.ev(e.value, st, m):
                if o == 'val':
                    self.emit(x, 'yieldfrom', m, e, val=v)
                    v = ('sent',)
                out.append((o, v, x))
            return out
        if isinstance(e, ast.Starred): return self.ev(e.value, st, m)
        raise Limit(type(e).__name__)

    def attr(self, v, name, st):
        k = ('attr', v, name)
        try:
            if k in st.env: return st.env[k]
        except TypeError: pass
        if v[0] == 'self':
            f = self.method(('class', v[1], v[2]), name)
            if f: return ('bound', f, v)
        if v[0] == 'mod':
            return self.glob(self.mod(v[1]), name)
        if v[0] == 'ext': return ('ext', f'{v[1]}.{name}')
        if v[0] == 'class':
            f = self.method(v, name)
            if f:
                node = self.nodes[f[3]]
                if any(isinstance(d, ast.Name) and d.id == 'classmethod' for d in node.decorator_list): return ('bound', f, v)
                return f
        return ('attr', v, name)

    def call(self, e, st, m):
        pos = [a for a in e.args]
        out = []
        for o, fv, x in self.ev(e.func, st, m):
            if o != 'val': out.append((o, fv, x)); continue
            kws = [k for k in e.keywords]
            for o2, vs, y in self.seq([a.value if isinstance(a, ast.Starred) else a for a in pos] + [k.value for k in kws], x, m):
                if o2 != 'val': out.append((o2, vs, y)); continue
                a = tuple(('star', v) if isinstance(pos[i], ast.Starred) else v for i, v in enumerate(vs[:len(pos)]))
                kw = tuple((k.arg, v) for k, v in zip(kws, vs[len(pos):]))
                out += self.apply(fv, a, kw, y, m, e)
        return out

    def apply(self, fv, a, kw, st, m, node):
        if fv[0] == 'bound': a = (fv[2],) + a; fv = fv[1]
        if fv[0] == 'fn':
            n = self.nodes[fv[3]]
            deco = [last_name(d) for d in getattr(n, 'decorator_list', ())]
            if any(d in MEMO for d in deco):
                self.n += 1
                r = ('call', ('ext', 'memoised'), (fv,) + tuple(a), tuple(kw), self.n)
                self.emit(st, 'call', m, node, fn=r[1], args=r[2], kw=dict(kw), res=r)
                return [('val', r, st)]
            if all(d in PLAIN for d in deco) and not any(v[0] == 'star' for v in a) and not any(k is None for k, _ in kw) and sum(1 for f, _ in self.stack if f[3] == fv[3]) < 2:
                vals = self.bindargs(n, fv, a, kw, st)
                if vals is not None:
                    if self.is_gen(n):
                        return [('val', ('gen', fv, tuple(sorted(vals.items(), key=lambda z: z[0]))), st)]
                    out = []
                    env = st.env
                    for p in self.body(fv, vals, st):
                        p.st.env = dict(env)
                        out.append(('val' if p.out == 'ret' else p.out, p.val, p.st))
                    return out
        name = fv[1] if fv[0] == 'ext' else None
        if name in SAME and len(a) > SAME[name]: return [('val', a[SAME[name]], st)]
        pure = fv[0] == 'ext' and name in ('map', 'filter', 'itertools.batched', 'batched', 'zip', 'enumerate', 'reversed', 'sorted', 'list', 'tuple', 'itertools.chain.from_iterable', 'itertools.chain', 'itertools.islice', 'isinstance', 'len', 'range', 'set', 'frozenset', 'type', 'itertools.starmap')
        if pure: r = ('call', fv, a, kw)
        else:
            self.n += 1
            r = ('call', fv, a, kw, self.n)
        self.emit(st, 'call', m, node, fn=fv, args=a, kw=dict(kw), res=r)
        return [('val', r, st)]

    def bindargs(self, n, fv, a, kw, st):
        ar = n.args
        names = [x.arg for x in ar.posonlyargs + ar.args]
        if len(a) > len(names) and not ar.vararg: return None
        vals = dict(zip(names, a))
        if ar.vararg and len(a) > len(names): vals[ar.vararg.arg] = ('tuple', a[len(names):])
        allow = set(names) | {x.arg for x in ar.kwonlyargs}
        for k, v in kw:
            if k not in allow: return None
            vals[k] = v
        mod = self.mod(fv[1])
        dflt = list(zip(names[len(names) - len(ar.defaults):], ar.defaults)) + [(x.arg, d) for x, d in zip(ar.kwonlyargs, ar.kw_defaults) if d is not None]
        for k, d in dflt:
            if k not in vals:
                r = self.ev(d, St(), mod)
                vals[k] = r[0][1] if len(r) == 1 else ('default', k)
        return vals

    # ---- streams ----
    def stream(self, v, depth=0):
        """Normal form of a lazy or eager sequence: list of (binders, value, conds, how) — for every element bound by
        the binders [(source, element), ...] under the conditions, the value is produced. `how` is 'yield' or, for an
        exit before a value is produced, 'skip', 'raise', 'stop'."""
        if depth > 8: raise Limit('stream nesting')
        k = v[0]
        if k == 'call' and v[1] == ('ext', 'map') and len(v[2]) == 2:
            out = []
            for b, x, c, h in self.stream(v[2][1], depth + 1):
                if h != 'yield': out.append((b, x, c, h)); continue
                for o, y, s in self.apply_val(v[2][0], (x,)):
                    out.append((b, y, c + s.conds, 'yield' if o == 'val' else 'raise'))
            return out
        if k == 'call' and v[1] == ('ext', 'filter') and len(v[2]) == 2:
            out = []
            for b, x, c, h in self.stream(v[2][1], depth + 1):
                if h != 'yield': out.append((b, x, c, h)); continue
                t = ('filtered', v[2][0], x)
                out += [(b, x, c + [(t, True)], 'yield'), (b, None, c + [(t, False)], 'skip')]
            return out
        if k == 'call' and v[1] in (('ext', 'list'), ('ext', 'tuple')) and len(v[2]) == 1: return self.stream(v[2][0], depth + 1)
        if k == 'call' and v[1] == ('ext', 'itertools.chain.from_iterable'):
            out = []
            for b, x, c, h in self.stream(v[2][0], depth + 1):
                if h != 'yield': out.append((b, x, c, h)); continue
                for b2, y, c2, h2 in self.stream(x, depth + 1): out.append((b + b2, y, c + c2, h2))
            return out
        if k in ('genexp', 'listcomp'):
            n, m = self.nodes[v[2]], self.mod(v[1])
            st = St(); st.env = dict(v[3])
            def go(gens, st, b, c):
                if not gens:
                    return [(b, y, c + s.conds, 'yield' if o == 'val' else 'raise') for o, y, s in self.ev(n.elt, st, m)]
                g = gens[0]
                out = []
                for o, it, s in self.ev(g.iter, st, m):
                    for b2, x, c2, h in self.stream(it, depth + 1):
                        if h != 'yield': out.append((b + b2, x, c + c2, h)); continue
                        s2 = s.copy(); s2.conds = []
                        self.bind(g.target, x, s2, m)
                        cur = [s2]
                        for t in g.ifs:
                            nxt = []
                            for s3 in cur:
                                for tv, s4 in self.test(t, s3, m):
                                    if tv is True: nxt.append(s4)
                                    elif tv is False: out.append((b + b2, None, c + c2 + s4.conds, 'skip'))
                            cur = nxt
                        for s3 in cur:
                            cc = s3.conds; s3.conds = []
                            out += go(gens[1:], s3, b + b2, c + c2 + cc)
                return out
            return go(n.generators, st, [], [])
        if k == 'gen':
            ps = self.body(v[1], dict(v[2]), St())
            return self.yields(ps, depth)
        self.n += 1
        el = ('elem', v, self.n)
        return [([(v, el)], el, [], 'yield')]

    def yields(self, ps, depth=0):
        out = []
        for p in ps:
            ys = [e for e in p.ev if e.k in ('yield', 'yieldfrom')]
            loops = [e for e in p.ev if e.k in ('for', 'while')]
            zero = [e for e in p.ev if e.k == 'for0']
            if len(ys) > 1: out.append(([], None, p.conds, 'many')); continue
            if not ys:
                if p.out == 'raise': out.append(([], p.val, p.conds, 'raise')); continue
                if zero: continue       # an empty source yields nothing
                if self.leaves(p): out.append(([], None, p.conds, 'stop')); continue
                wl = [e for e in p.ev if e.k == 'while']
                if wl and not [e for e in p.ev if e.k == 'for']:
                    out.append(([], None, p.conds, 'end')); continue
                out.append(([], None, p.conds, 'skip')); continue
            y = ys[0]
            bs, back = [], []
            lp = {e.id: e for e in loops}
            sub = {}
            for lid, src in y.loops:
                if src is None: bs.append((('while', lid), ('while', lid)))
                else: bs.append((src, lp[lid].elem))
            ends = [e for e in p.ev if e.k in ('endfor', 'endwhile') and e.how == 'break']
            how = 'stop' if ends or self.leaves(p) else ('yield' if p.out in ('ret', 'loop') else p.out)
            val = y.val
            pre = [([], val, p.conds, how)]
            # loops over sequences that are themselves streams are expanded
            res = [(bs, val, p.conds, how)]
            if y.k == 'yieldfrom':
                nres = []
                for b, x, c, h in res:
                    if h != 'yield': nres.append((b, x, c, h)); continue
                    for b2, z, c2, h2 in self.stream(x, depth + 1): nres.append((b + b2, z, c + c2, h2))
                res = nres
            out += self.expand(res, depth)
        return out

    def leaves(self, p):
        """The path leaves a loop over a sequence early, by break or return."""
        done = {e.id: e.how for e in p.ev if e.k == 'endfor'}
        return p.out == 'ret' and any(e.k == 'for' and done.get(e.id, 'break') == 'break' for e in p.ev)

    def expand(self, res, depth):
        """Replaces a binder over a stream expression by the binders of that stream."""
        out = []
        for b, v, c, h in res:
            cur = [([], {}, [])]
            ok = True
            for src, el in b:
                nxt = []
                for nb, sub, nc in cur:
                    s2 = subst(src, sub)
                    if isinstance(s2, tuple) and s2 and (s2[0] in ('gen', 'genexp', 'listcomp') or (s2[0] == 'call' and s2[1][0] == 'ext' and s2[1][1] in ('map', 'filter', 'list', 'tuple', 'itertools.chain.from_iterable'))):
                        for b2, x, c2, h2 in self.stream(s2, depth + 1):
                            if h2 != 'yield': out.append((nb + b2, x, nc + c2, h2)); continue
                            nxt.append((nb + b2, {**sub, el: x}, nc + c2))
                    else: nxt.append((nb + [(s2, el)], sub, nc))
                cur = nxt
            for nb, sub, nc in cur:
                out.append((nb, subst(v, sub) if v is not None else None, nc + [(subst(k, sub), t) for k, t in c], h))
        return out

    def apply_val(self, f, args):
        m = self.mod(f[1]) if f[0] == 'fn' else self.mod(f[1][1]) if f[0] == 'bound' and f[1][0] == 'fn' else None
        node = ast.Call(func=ast.Name(id='f'), args=[], keywords=[])
        node.lineno = 0
        return self.apply(f, tuple(args), (), St(), m or next(iter(self.mods.values())), node)


def subst(t, sub):
    if not sub: return t
    try:
        if t in sub: return sub[t]
    except TypeError: return t
    if isinstance(t, tuple): return tuple(subst(x, sub) for x in t)
    return t


def show(t, d=0):
    if not isinstance(t, tuple) or not t: return str(t)
    if d > 5: return '…'
    k = t[0]
    if k == 'const': return repr(t[1])
    if k in ('param',): return t[1]
    if k == 'self': return 'self'
    if k == 'ext': return t[1]
    if k == 'attr': return f'{show(t[1], d + 1)}.{t[2]}'
    if k == 'call': return f'{show(t[1], d + 1)}(' + ', '.join([show(x, d + 1) for x in t[2]] + [f'{a}={show(b, d + 1)}' for a, b in t[3]]) + ')'
    if k == 'fn': return f'<fn {t[2]}>'
    if k == 'gen': return f'<gen {t[1][2]}>'
    if k in ('genexp', 'listcomp', 'setcomp'): return f'<{k}>'
    if k == 'elem': return f'each({show(t[1], d + 1)})'
    return '(' + ' '.join(show(x, d + 1) for x in t) + ')'


def terms(t):
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            if x and isinstance(x[0], str): yield x
            st.extend(x)
