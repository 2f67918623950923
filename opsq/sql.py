"""A parser for the subset of SQLite's language that opsqueue uses, and an effect abstraction.

parse(sql) -> [Stmt]; effects(sql, args, schema) -> [Eff]. Expressions are tuples:
  ('col', table|None, name) ('p', i) ('lit', v) ('fn', NAME, args, over) ('op', o, a, b) ('un', o, a)
  ('in', e, items|select, neg) ('subq', sel) ('exists', sel) ('case', …) ('cast', e, T) ('star', t)
  ('row', items) ('isnull', e) …
After effects(): parameters are ('arg', term) with the term of the interpreter bound to them.
"""
import re, sqlite3


class SqlError(Exception):
    pass


TOK = re.compile(r"""
    (?P<ws>\s+|--[^\n]*|/\*.*?\*/)
  | (?P<str>'(?:[^']|'')*')
  | (?P<qid>"(?:[^"]|"")*"|`[^`]*`|\[[^\]]*\])
  | (?P<num>\d+(?:\.\d+)?(?:[eE][+-]?\d+)?|\.\d+)
  | (?P<par>\?\d*|[$:@][A-Za-z0-9_]+)
  | (?P<id>[A-Za-z_][A-Za-z0-9_]*)
  | (?P<op><>|<=|>=|==|!=|\|\||<<|>>|->>|->|[-+*/%<>=(),.;~&|])
""", re.X | re.S)

KEYWORDS = set('''select from where group by having order limit offset union all intersect except values insert into replace update set delete
 returning as on using join left right full inner cross outer natural and or not in is null exists case when then else end cast between like glob distinct
 with recursive materialized asc desc nulls first last over partition filter collate escape conflict do nothing savepoint release rollback to begin commit
 default indexed create drop alter table index unique pragma'''.split())
# words that cannot start an implicit alias
NOALIAS = set('''from where group having order limit offset union intersect except on using join left right full inner cross outer natural set returning values
 and or not when then else end as asc desc nulls over filter do conflict collate indexed select is in between like glob'''.split())


def lex(s):
    out, i = [], 0
    while i < len(s):
        m = TOK.match(s, i)
        if not m: raise SqlError(f'cannot tokenise at {s[i:i+20]!r}')
        k = m.lastgroup
        if k != 'ws': out.append((k, m.group()))
        i = m.end()
    return out


class Stmt:
    def __init__(self, kind, **a):
        self.kind = kind
        self.__dict__.update(a)

    def __repr__(self):
        return f'<{self.kind} ' + ' '.join(f'{k}={v!r}' for k, v in self.__dict__.items() if k != 'kind') + '>'


class Sel:
    """cores: [(op, Core)], ctes, order [(expr, 'ASC'|'DESC', nulls)], limit, offset"""
    def __init__(self): self.cores, self.ctes, self.order, self.limit, self.offset = [], [], [], None, None
    def __repr__(self): return f'Sel({self.cores!r} ctes={self.ctes!r} order={self.order!r} limit={self.limit!r})'


class Core:
    """cols [(expr, alias)], frm [(source, alias, jointype, on)], where, group, having, distinct, values"""
    def __init__(self): self.cols, self.frm, self.where, self.group, self.having, self.distinct, self.values = [], [], None, [], None, False, None
    def __repr__(self): return f'Core({self.cols!r} from={self.frm!r} where={self.where!r} group={self.group!r} distinct={self.distinct} values={self.values!r})'


class Parser:
    def __init__(self, s):
        self.t, self.i, self.nparam = lex(s), 0, 0

    # -- token helpers
    def pk(self, o=0):
        return self.t[self.i + o] if self.i + o < len(self.t) else ('eof', '')

    def kw(self, *ws, o=0):
        k, v = self.pk(o)
        return k == 'id' and v.lower() in ws

    def op(self, *os, o=0):
        k, v = self.pk(o)
        return k == 'op' and v in os

    def nx(self):
        t = self.pk(); self.i += 1; return t

    def take(self, *ws):
        if self.kw(*ws): return self.nx()[1].lower()
        return None

    def takeop(self, *os):
        if self.op(*os): return self.nx()[1]
        return None

    def need(self, w):
        if self.kw(w): return self.nx()
        raise SqlError(f'expected {w} at {self.pk()[1]!r}')

    def needop(self, o):
        if self.op(o): return self.nx()
        raise SqlError(f'expected {o} at {self.pk()[1]!r}')

    def ident(self):
        k, v = self.nx()
        if k == 'id': return v
        if k == 'qid': return v[1:-1]
        if k == 'str': return v[1:-1]
        raise SqlError(f'identifier expected at {v!r}')

    # -- statements
    def script(self):
        out = []
        while self.i < len(self.t):
            if self.takeop(';'): continue
            out.append(self.stmt())
            if self.i < len(self.t): self.needop(';')
        return out

    def stmt(self):
        ctes = []
        start = self.i
        if self.kw('with'): ctes = self.withc()
        if self.kw('select', 'values'):
            s = self.select(ctes); return Stmt('select', sel=s)
        if self.kw('insert', 'replace'): return self.insert()
        if self.kw('update'): return self.update()
        if self.kw('delete'): return self.delete()
        if self.kw('savepoint', 'release', 'begin', 'commit', 'rollback', 'end', 'pragma', 'create', 'drop', 'alter', 'vacuum', 'analyze', 'reindex', 'detach', 'attach'):
            k = self.pk()[1].lower()
            toks = []
            d = 0
            while self.i < len(self.t):
                if self.op(';') and d == 0: break
                if self.op('('): d += 1
                if self.op(')'): d -= 1
                toks.append(self.nx())
            return Stmt(k, toks=toks)
        raise SqlError(f'unknown statement at {self.pk()[1]!r}')

    def withc(self):
        self.need('with'); self.take('recursive')
        out = []
        while True:
            n = self.ident(); cols = None
            if self.takeop('('):
                cols = [self.ident()]
                while self.takeop(','): cols.append(self.ident())
                self.needop(')')
            self.need('as')
            if self.take('not'): self.need('materialized')
            else: self.take('materialized')
            self.needop('(')
            s = self.select()
            self.needop(')')
            out.append((n, cols, s))
            if not self.takeop(','): return out

    def tname(self):
        n = self.ident()
        if self.op('.'):
            self.nx(); n = self.ident()
        return n

    def returning(self):
        if not self.take('returning'): return None
        out = [self.rescol()]
        while self.takeop(','): out.append(self.rescol())
        return out

    def insert(self):
        how = self.nx()[1].lower()
        conf = 'replace' if how == 'replace' else None
        if self.take('or'): conf = self.nx()[1].lower()
        self.need('into')
        t = self.tname(); alias = None
        if self.take('as'): alias = self.ident()
        cols = None
        if self.op('(') and not self.kw('select', 'values', o=1):
            self.nx(); cols = [self.ident()]
            while self.takeop(','): cols.append(self.ident())
            self.needop(')')
        src = None
        if self.take('default'): self.need('values')
        else:
            ctes = self.withc() if self.kw('with') else []
            paren = self.op('(') and self.kw('select', o=1)
            if paren: self.nx()
            src = self.select(ctes)
            if paren: self.needop(')')
        up = []
        while self.kw('on') and self.kw('conflict', o=1):
            self.nx(); self.nx()
            if self.takeop('('):
                self.expr()
                while self.takeop(','): self.expr()
                self.needop(')')
            if self.take('where'): self.expr()
            self.need('do')
            if self.take('nothing'): up.append('nothing')
            else:
                self.need('update'); self.need('set')
                up.append(('update', self.sets()))
                if self.take('where'): self.expr()
        return Stmt('insert', table=t, cols=cols, src=src, conflict=conf, upsert=up, returning=self.returning())

    def sets(self):
        out = []
        while True:
            if self.takeop('('):
                ns = [self.ident()]
                while self.takeop(','): ns.append(self.ident())
                self.needop(')'); self.needop('=')
                e = self.expr()
                if e[0] == 'row' and len(e[1]) == len(ns): out += list(zip(ns, e[1]))
                else: out += [(n, ('rowpart', e, i)) for i, n in enumerate(ns)]
            else:
                n = self.ident()
                if self.op('.'): self.nx(); n = self.ident()
                if not self.takeop('=', '=='): raise SqlError('= expected in SET')
                out.append((n, self.expr()))
            if not self.takeop(','): return out

    def update(self):
        self.need('update'); conf = None
        if self.take('or'): conf = self.nx()[1].lower()
        t = self.tname(); alias = None
        if self.take('as'): alias = self.ident()
        self.need('set')
        s = self.sets()
        frm = self.from_() if self.take('from') else []
        w = self.expr() if self.take('where') else None
        return Stmt('update', table=t, alias=alias, sets=s, frm=frm, where=w, conflict=conf, returning=self.returning())

    def delete(self):
        self.need('delete'); self.need('from')
        t = self.tname(); alias = None
        if self.take('as'): alias = self.ident()
        if self.take('indexed'): self.need('by'); self.ident()
        w = self.expr() if self.take('where') else None
        r = self.returning()
        lim = None
        order = []
        if self.take('order'):
            self.need('by'); order = self.orderterms()
        if self.take('limit'): lim = self.expr()
        return Stmt('delete', table=t, alias=alias, where=w, returning=r, limit=lim)

    # -- select
    def select(self, ctes=None):
        s = Sel()
        s.ctes = list(ctes or [])
        if self.kw('with'): s.ctes += self.withc()
        s.cores.append((None, self.core()))
        while self.kw('union', 'intersect', 'except'):
            o = self.nx()[1].lower()
            if o == 'union' and self.take('all'): o = 'union all'
            s.cores.append((o, self.core()))
        if self.take('order'):
            self.need('by'); s.order = self.orderterms()
        if self.take('limit'):
            s.limit = self.expr()
            if self.take('offset'): s.offset = self.expr()
            elif self.takeop(','): s.offset, s.limit = s.limit, self.expr()
        return s

    def orderterms(self):
        out = []
        while True:
            e = self.expr()
            d, n = 'ASC', None
            if self.kw('asc', 'desc'): d = self.nx()[1].upper()
            if self.take('nulls'): n = self.nx()[1].upper()
            out.append((e, d, n))
            if not self.takeop(','): return out

    def rescol(self):
        if self.op('*'): self.nx(); return (('star', None), None)
        if self.pk()[0] in ('id', 'qid') and self.op('.', o=1) and self.op('*', o=2):
            n = self.ident(); self.nx(); self.nx()
            return (('star', n), None)
        e = self.expr()
        a = None
        if self.take('as'): a = self.ident()
        elif self.pk()[0] == 'qid' or (self.pk()[0] == 'id' and self.pk()[1].lower() not in NOALIAS): a = self.ident()
        return (e, a)

    def core(self):
        c = Core()
        if self.take('values'):
            c.values = []
            while True:
                self.needop('(')
                r = [self.expr()]
                while self.takeop(','): r.append(self.expr())
                self.needop(')')
                c.values.append(r)
                if not self.takeop(','): return c
        self.need('select')
        if self.take('distinct'): c.distinct = True
        else: self.take('all')
        c.cols.append(self.rescol())
        while self.takeop(','): c.cols.append(self.rescol())
        if self.take('from'): c.frm = self.from_()
        if self.take('where'): c.where = self.expr()
        if self.take('group'):
            self.need('by'); c.group = [self.expr()]
            while self.takeop(','): c.group.append(self.expr())
        if self.take('having'): c.having = self.expr()
        return c

    def from_(self):
        out = [self.source('', None)]
        while True:
            if self.takeop(','): out.append(self.source('cross', None)); continue
            j = []
            while self.kw('natural', 'left', 'right', 'full', 'inner', 'cross', 'outer'): j.append(self.nx()[1].lower())
            if not self.take('join'):
                if j: raise SqlError('JOIN expected')
                return out
            s = self.source(' '.join(x for x in j if x != 'outer') or 'inner', None)
            on = None
            if self.take('on'): on = self.expr()
            elif self.take('using'):
                self.needop('(')
                cs = [self.ident()]
                while self.takeop(','): cs.append(self.ident())
                self.needop(')')
                on = ('using', tuple(cs))
            out.append((s[0], s[1], s[2], on))

    def source(self, jt, on):
        if self.takeop('('):
            if self.kw('select', 'values', 'with'):
                s = self.select(); self.needop(')'); src = ('sub', s)
            else:
                inner = self.from_(); self.needop(')')
                src = ('group', inner)
        else:
            n = self.tname()
            if self.takeop('('):
                args = []
                if not self.op(')'):
                    args.append(self.expr())
                    while self.takeop(','): args.append(self.expr())
                self.needop(')')
                src = ('tfn', n.lower(), tuple(args))
            else: src = ('tab', n)
        a = None
        if self.take('as'): a = self.ident()
        elif self.pk()[0] == 'qid' or (self.pk()[0] == 'id' and self.pk()[1].lower() not in NOALIAS): a = self.ident()
        if self.take('indexed'): self.need('by'); self.ident()
        elif self.kw('not') and self.kw('indexed', o=1): self.nx(); self.nx()
        return (src, a, jt, on)

    # -- expressions
    def expr(self): return self.e_or()

    def e_or(self):
        a = self.e_and()
        while self.take('or'): a = ('op', 'or', a, self.e_and())
        return a

    def e_and(self):
        a = self.e_not()
        while self.take('and'): a = ('op', 'and', a, self.e_not())
        return a

    def e_not(self):
        if self.kw('not') and not self.kw('exists', o=1):
            self.nx(); return ('un', 'not', self.e_not())
        return self.e_eq()

    def e_eq(self):
        a = self.e_cmp()
        while True:
            if self.op('=', '==', '!=', '<>'):
                o = self.nx()[1]
                a = ('op', '=' if o in ('=', '==') else '!=', a, self.e_cmp()); continue
            if self.kw('is'):
                self.nx(); neg = bool(self.take('not'))
                if self.kw('distinct') and self.kw('from', o=1):
                    self.nx(); self.nx(); neg = not neg
                b = self.e_cmp()
                e = ('isnull', a) if b == ('null',) else ('op', 'is', a, b)
                a = ('un', 'not', e) if neg else e; continue
            if self.kw('isnull'): self.nx(); a = ('isnull', a); continue
            if self.kw('notnull'): self.nx(); a = ('un', 'not', ('isnull', a)); continue
            neg = False
            if self.kw('not') and self.kw('in', 'between', 'like', 'glob', 'null', o=1):
                self.nx(); neg = True
                if self.take('null'): a = ('un', 'not', ('isnull', a)); continue
            if self.take('in'):
                if self.op('('):
                    self.nx()
                    if self.kw('select', 'with', 'values'):
                        s = self.select(); self.needop(')'); e = ('in', a, ('sel', s))
                    else:
                        xs = []
                        if not self.op(')'):
                            xs.append(self.expr())
                            while self.takeop(','): xs.append(self.expr())
                        self.needop(')'); e = ('in', a, ('list', tuple(xs)))
                else: e = ('in', a, ('table', self.tname()))
            elif self.take('between'):
                lo = self.e_cmp(); self.need('and'); hi = self.e_cmp()
                e = ('op', 'and', ('op', '>=', a, lo), ('op', '<=', a, hi))
            elif self.kw('like', 'glob'):
                o = self.nx()[1].lower(); b = self.e_cmp()
                if self.take('escape'): self.e_cmp()
                e = ('op', o, a, b)
            else: return a
            a = ('un', 'not', e) if neg else e

    def binl(self, ops, sub):
        a = sub()
        while self.op(*ops):
            o = self.nx()[1]; a = ('op', o, a, sub())
        return a

    def e_cmp(self): return self.binl(('<', '<=', '>', '>='), self.e_bit)
    def e_bit(self): return self.binl(('<<', '>>', '&', '|'), self.e_add)
    def e_add(self): return self.binl(('+', '-'), self.e_mul)
    def e_mul(self): return self.binl(('*', '/', '%'), self.e_cat)
    def e_cat(self): return self.binl(('||', '->', '->>'), self.e_un)

    def e_un(self):
        if self.op('-', '+', '~'):
            o = self.nx()[1]; e = self.e_un()
            if o == '-' and e[0] == 'lit' and isinstance(e[1], (int, float)): return ('lit', -e[1])
            return e if o == '+' else ('un', o, e)
        e = self.prim()
        while self.take('collate'): self.ident()
        return e

    def prim(self):
        k, v = self.pk()
        if k == 'num':
            self.nx(); return ('lit', float(v) if re.search(r'[.eE]', v) else int(v))
        if k == 'str': self.nx(); return ('lit', v[1:-1].replace("''", "'"))
        if k == 'par':
            self.nx()
            if v == '?': self.nparam += 1; return ('p', self.nparam)
            if v[1:].isdigit():
                self.nparam = max(self.nparam, int(v[1:])); return ('p', int(v[1:]))
            return ('p', v)
        if k == 'op' and v == '(':
            self.nx()
            if self.kw('select', 'with', 'values'):
                s = self.select(); self.needop(')'); return ('subq', s)
            e = self.expr()
            if self.op(','):
                xs = [e]
                while self.takeop(','): xs.append(self.expr())
                self.needop(')'); return ('row', tuple(xs))
            self.needop(')'); return e
        if k == 'qid' or k == 'id':
            l = v.lower()
            if k == 'id':
                if l == 'null': self.nx(); return ('null',)
                if l == 'true' and not self.op('.', o=1): self.nx(); return ('lit', 1)
                if l == 'false' and not self.op('.', o=1): self.nx(); return ('lit', 0)
                if l == 'exists' or (l == 'not' and self.kw('exists', o=1)):
                    neg = l == 'not'
                    if neg: self.nx()
                    self.nx(); self.needop('('); s = self.select(); self.needop(')')
                    return ('un', 'not', ('exists', s)) if neg else ('exists', s)
                if l == 'case':
                    self.nx()
                    base = None if self.kw('when') else self.expr()
                    ws = []
                    while self.take('when'):
                        c = self.expr(); self.need('then'); ws.append((c, self.expr()))
                    el = self.expr() if self.take('else') else None
                    self.need('end')
                    return ('case', base, tuple(ws), el)
                if l == 'cast':
                    self.nx(); self.needop('('); e = self.expr(); self.need('as')
                    ty = []
                    while not self.op(')'): ty.append(self.nx()[1].upper())
                    self.nx()
                    return ('cast', e, ' '.join(ty))
                if l in ('select',): raise SqlError('unexpected SELECT')
            self.nx()
            name = v if k == 'id' else v[1:-1]
            if self.op('(') and k == 'id': return self.fncall(name)
            if self.op('.'):
                self.nx()
                if self.op('*'): self.nx(); return ('star', name)
                b = self.ident()
                if self.op('.'): self.nx(); name, b = b, self.ident()
                return ('col', name, b)
            return ('col', None, name)
        raise SqlError(f'expression expected at {v!r}')

    def fncall(self, name):
        self.needop('(')
        args, dist = [], False
        if self.op('*'): self.nx(); args = [('star', None)]
        elif not self.op(')'):
            if self.take('distinct'): dist = True
            args.append(self.expr())
            while self.takeop(','): args.append(self.expr())
        if self.take('order'): self.need('by'); self.orderterms()
        self.needop(')')
        over = None
        if self.take('filter'):
            self.needop('('); self.need('where'); f = self.expr(); self.needop(')')
            return ('fn', name.lower(), tuple(args), ('filter', f))
        if self.take('over'):
            part, order = [], []
            if self.takeop('('):
                if self.take('partition'):
                    self.need('by'); part.append(self.expr())
                    while self.takeop(','): part.append(self.expr())
                if self.take('order'): self.need('by'); order = self.orderterms()
                while not self.op(')'): self.nx()
                self.nx()
            else: self.ident()
            over = ('over', tuple(part), tuple(order))
        return ('fn', name.lower(), tuple(args), ('distinct',) if dist else over)


def parse(sql):
    return Parser(sql).script()


# ------------------------------------------------------------------------------------------------
class Schema:
    def __init__(self, dbpath):
        c = sqlite3.connect(f'file:{dbpath}?mode=ro', uri=True)
        self.tables, self.notnull, self.pk, self.ddl, self.indexes, self.gen = {}, {}, {}, {}, {}, {}
        for n, s in c.execute("select name, sql from sqlite_master where type='table' and name not like 'sqlite_%'").fetchall():
            self.ddl[n] = s
            cols = c.execute(f'pragma table_xinfo("{n}")').fetchall()
            self.tables[n] = [x[1] for x in cols]
            self.gen[n] = {x[1] for x in cols if x[6] in (2, 3)}
            self.notnull[n] = {x[1] for x in cols if x[3] and x[4] is None and x[6] == 0}
            self.pk[n] = [x[1] for x in sorted((y for y in cols if y[5]), key=lambda y: y[5])]
        for n, t, s in c.execute("select name, tbl_name, sql from sqlite_master where type='index'").fetchall():
            self.indexes[n] = (t, s)
        self.views = [r[0] for r in c.execute("select name from sqlite_master where type in ('view','trigger')")]
        c.close()

    def low(self, t):
        for k in self.tables:
            if k.lower() == t.lower(): return k
        return t


def conj(e):
    """Conjuncts of a condition."""
    if e is None: return []
    if e[0] == 'op' and e[1] == 'and': return conj(e[2]) + conj(e[3])
    if e[0] == 'op' and e[1] in ('=', 'is') and e[2][0] == 'row' and e[3][0] == 'row' and len(e[2][1]) == len(e[3][1]):
        return [c for a, b in zip(e[2][1], e[3][1]) for c in conj(('op', '=', a, b))]
    if e[0] == 'un' and e[1] == 'not' and e[2][0] == 'un' and e[2][1] == 'not': return conj(e[2][2])
    if e[0] == 'lit' and e[1] not in (0, None, ''): return []
    return [normcmp(e)]


FLIP = {'<': '>', '>': '<', '<=': '>=', '>=': '<=', '=': '=', '!=': '!='}
NEG = {'<': '>=', '>': '<=', '<=': '>', '>=': '<', '=': '!=', '!=': '='}


def normcmp(e):
    """Canonical comparison: columns on the left, boolean tests against 0/1 as plain or negated terms."""
    if e[0] == 'un' and e[1] == 'not':
        x = e[2]
        if x[0] == 'op' and x[1] in NEG: return normcmp(('op', NEG[x[1]], x[2], x[3]))
        return ('un', 'not', x)
    if e[0] == 'op' and e[1] == 'is': e = ('op', '=', e[2], e[3])
    if e[0] == 'op' and e[1] in FLIP:
        a, b = e[2], e[3]
        if iscol(b) and not iscol(a) or (a[0] == 'lit' and b[0] != 'lit'): e = ('op', FLIP[e[1]], b, a)
        a, b = e[2], e[3]
        if a[0] == 'fn' and b[0] == 'lit' and b[1] in (0, 1) and e[1] in ('=', '!='):
            pos = (b[1] == 1) == (e[1] == '=')
            return a if pos else ('un', 'not', a)
    if e[0] == 'in' and e[2][0] == 'list' and len(e[2][1]) == 1: return normcmp(('op', '=', e[1], e[2][1][0]))
    return e


def iscol(e):
    return e[0] == 'col'


def mapx(e, f):
    """Bottom-up map over an expression, descending into sub-selects."""
    if isinstance(e, Sel):
        s = Sel()
        s.ctes = [(n, c, mapx(x, f)) for n, c, x in e.ctes]
        s.cores = [(o, mapx(c, f)) for o, c in e.cores]
        s.order = [(mapx(x, f), d, n) for x, d, n in e.order]
        s.limit = mapx(e.limit, f) if e.limit else None
        s.offset = mapx(e.offset, f) if e.offset else None
        return s
    if isinstance(e, Core):
        c = Core()
        c.cols = [(mapx(x, f), a) for x, a in e.cols]
        c.frm = [(mapx(s, f), a, j, mapx(o, f) if o else None) for s, a, j, o in e.frm]
        c.where = mapx(e.where, f) if e.where else None
        c.group = [mapx(x, f) for x in e.group]
        c.having = mapx(e.having, f) if e.having else None
        c.distinct = e.distinct
        c.values = [[mapx(x, f) for x in r] for r in e.values] if e.values is not None else None
        return c
    if isinstance(e, tuple):
        if e and e[0] == 'arg': return e
        r = tuple(mapx(x, f) if isinstance(x, (tuple, Sel, Core)) else x for x in e)
        return f(r) if r and isinstance(r[0], str) else r
    return e


def subx(e):
    """All sub-expressions, into sub-selects."""
    st = [e]
    while st:
        x = st.pop()
        if isinstance(x, Sel):
            st += [c for _, _, c in x.ctes] + [c for _, c in x.cores] + [y for y, _, _ in x.order] + [x.limit, x.offset]
        elif isinstance(x, Core):
            st += [y for y, _ in x.cols] + [s for s, _, _, _ in x.frm] + [o for _, _, _, o in x.frm] + [x.where, x.having] + x.group
            if x.values is not None: st += [y for r in x.values for y in r]
        elif isinstance(x, Stmt):
            st += list(x.__dict__.values())
        elif isinstance(x, (tuple, list)):
            if isinstance(x, tuple): yield x
            if not (isinstance(x, tuple) and x and x[0] == 'arg'): st.extend(x)


class Resolver:
    """Resolves column references to base tables where the scope is unambiguous."""
    def __init__(self, schema): self.S = schema

    def scope(self, core, ctes):
        sc = []
        def add(src, alias):
            if src[0] == 'tab':
                t = self.S.low(src[1])
                sc.append((alias or t, t, self.S.tables.get(t)))
            elif src[0] == 'sub': sc.append((alias or '', ('sub',), None))
            elif src[0] == 'tfn': sc.append((alias or src[1], ('tfn', src[1]), ['key', 'value', 'type', 'atom', 'id', 'parent', 'fullkey', 'path']))
            elif src[0] == 'group':
                for s, a, _, _ in src[1]: add(s, a)
        for s, a, _, _ in core.frm: add(s, a)
        return sc

    def res(self, e, scopes):
        if isinstance(e, Sel): return self.sel(e, scopes)
        if not isinstance(e, tuple): return e
        if e and e[0] == 'arg': return e
        if e and e[0] == 'col':
            q, n = e[1], e[2]
            for sc in reversed(scopes):
                for al, t, cols in sc:
                    if q is not None:
                        if al.lower() == q.lower():
                            return ('col', t if isinstance(t, str) and cols is not None else al, n)
                    elif cols is not None and n.lower() in (c.lower() for c in cols):
                        return ('col', t if isinstance(t, str) else al, n)
                if q is None and len(sc) == 1 and sc[0][2] is None: return ('col', sc[0][0], n)
            return e
        return tuple(self.res(x, scopes) if isinstance(x, (tuple, Sel)) else x for x in e)

    def sel(self, s, scopes):
        o = Sel()
        o.ctes = [(n, c, self.sel(x, scopes)) for n, c, x in s.ctes]
        for op, c in s.cores:
            sc = scopes + [self.scope(c, s.ctes)]
            d = Core()
            d.cols = [(self.res(x, sc), a) for x, a in c.cols]
            d.frm = [(('sub', self.sel(src[1], scopes)) if src[0] == 'sub' else self.res(src, sc), a, j, self.res(on, sc) if on else None) for src, a, j, on in c.frm]
            d.where = self.res(c.where, sc) if c.where else None
            d.group = [self.res(x, sc) for x in c.group]
            d.having = self.res(c.having, sc) if c.having else None
            d.distinct, d.values = c.distinct, [[self.res(x, sc) for x in r] for r in c.values] if c.values is not None else None
            o.cores.append((op, d))
        sc = scopes + [self.scope(s.cores[0][1], s.ctes)]
        al = {a.lower() for _, a in s.cores[0][1].cols if a}
        o.order = [(x if x[0] == 'col' and x[1] is None and x[2].lower() in al else self.res(x, sc), d, n) for x, d, n in s.order]
        o.limit, o.offset = s.limit, s.offset
        return o


class Eff:
    """One statement's effect. kind: ins/del/upd/sel/other; table; set {col: expr}; src (table, conjuncts) for INSERT…SELECT;
    where: conjuncts; ret: has RETURNING; reached: executed under the way the statement is run."""
    def __init__(self, kind, table=None, **a):
        self.kind, self.table = kind, table
        self.set, self.src, self.where, self.ret, self.reached, self.sel, self.conflict, self.returning = {}, None, [], False, True, None, None, None
        self.__dict__.update(a)

    def __repr__(self):
        return f'<{self.kind} {self.table} set={self.set} src={self.src} where={self.where} reached={self.reached}>'

    def keys(self, cols=None):
        return eqs(self.where, self.table)


def eqs(conjuncts, table=None):
    """{column: expr} for conjuncts of the form column = expr, and the list of the other conjuncts."""
    d, rest = {}, []
    for c in conjuncts:
        if c[0] == 'op' and c[1] == '=' and c[2][0] == 'col' and (table is None or c[2][1] in (table, None)) and c[3][0] in ('arg', 'lit', 'col', 'p'):
            d[c[2][2].lower()] = c[3]
        else: rest.append(c)
    return d, rest


def bind(e, args):
    def f(x):
        if x[0] == 'p' and isinstance(x[1], int):
            return ('arg', args[x[1] - 1]) if args is not None and x[1] - 1 < len(args) else ('arg', ('missing', x[1]))
        return x
    return mapx(e, f)


def effects(sql, args, schema, how='execute'):
    """Effects of a (multi-)statement, with parameters bound to interpreter terms and names resolved."""
    out, R = [], Resolver(schema)
    yielded = False
    stmts = parse(sql)
    for st in stmts:
        reached = not (yielded and how in ('fetch_one', 'fetch_optional'))
        if st.kind == 'select':
            s = R.sel(bind(st.sel, args), [])
            out.append(Eff('sel', base_table(s), sel=s, reached=reached, where=conj(s.cores[0][1].where)))
            yielded = True
        elif st.kind == 'insert':
            e = Eff('ins', schema.low(st.table), conflict=st.conflict or (('upsert', tuple(map(str, st.upsert))) if st.upsert else None), reached=reached, ret=bool(st.returning), returning=st.returning)
            cols = st.cols or [c for c in schema.tables.get(e.table, []) if c not in schema.gen.get(e.table, ())]
            e.cols = [c.lower() for c in cols]
            if st.src is not None:
                s = R.sel(bind(st.src, args), [])
                e.sel = s
                c = s.cores[0][1]
                if c.values is not None:
                    e.rows = c.values
                    vals = c.values[0]
                else:
                    vals = [x for x, _ in c.cols]
                    if len(c.cols) == 1 and c.cols[0][0][0] == 'star' and len(c.frm) == 1 and c.frm[0][0][0] == 'tab':
                        t = schema.low(c.frm[0][0][1])
                        vals = [('col', t, x) for x in schema.tables.get(t, []) if x not in schema.gen.get(t, ())]
                    e.src = (base_table(s), conj(c.where))
                    e.ncores = len(s.cores)
                e.nvals = len(vals)
                e.set = dict(zip(e.cols, vals))
            out.append(e)
            yielded = yielded or e.ret
        elif st.kind == 'update':
            t = schema.low(st.table)
            sc = [[(st.alias or t, t, schema.tables.get(t))]]
            e = Eff('upd', t, where=conj(R.res(bind(st.where, args), sc) if st.where else None), reached=reached, ret=bool(st.returning), conflict=st.conflict, frm=st.frm, returning=st.returning)
            e.set = {c.lower(): R.res(bind(x, args), sc) for c, x in st.sets}
            out.append(e)
            yielded = yielded or e.ret
        elif st.kind == 'delete':
            t = schema.low(st.table)
            sc = [[(st.alias or t, t, schema.tables.get(t))]]
            e = Eff('del', t, where=conj(R.res(bind(st.where, args), sc) if st.where else None), reached=reached, ret=bool(st.returning), limit=st.limit, returning=st.returning)
            out.append(e)
            yielded = yielded or e.ret
        else:
            out.append(Eff('other', st.kind, toks=st.toks, reached=reached))
    return out


def base_table(s):
    if len(s.cores) == 1 and len(s.cores[0][1].frm) == 1 and s.cores[0][1].frm[0][0][0] == 'tab': return s.cores[0][1].frm[0][0][1]
    return None
