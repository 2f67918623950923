"""Storage layer: roots, transaction units and row-set effects per path."""
import re
from . import prog as PR, interp as IN, sql as SQ
from .interp import show, subterms

CH, CC, CF = 'chunks', 'chunks_completed', 'chunks_failed'
SU, SC, SF, SX, SM = 'submissions', 'submissions_completed', 'submissions_failed', 'submissions_cancelled', 'submissions_metadata'
TERMINAL = (SC, SF, SX)
MUT = ('ins', 'upd', 'del')


def is_db(path):
    return '::db::' in '::' + path + '::' or path.startswith('db::')


def tx_bound(fn):
    """The signature only accepts a connection that is inside a transaction."""
    return any('Transaction' in str(p) and 'True' in str(p) for p in (fn.preds or []))


class Stm:
    """A statement on a path: effect, event, outcome known on the path."""
    __slots__ = ('eff', 'ev', 'status', 'pos', 'undone', 'unit')

    def __init__(self, eff, ev, status, pos):
        self.eff, self.ev, self.status, self.pos, self.undone, self.unit = eff, ev, status, pos, False, None

    @property
    def fn(self): return self.ev.fn.path if self.ev.fn else '?'

    def __repr__(self): return f'{self.eff!r}:{self.status}'


class Unit:
    """What is committed together."""
    def __init__(self, kind, id=None):
        self.kind, self.id, self.stms, self.end = kind, id, [], None

    @property
    def live(self):
        return [s for s in self.stms if not s.undone and s.eff.reached]

    @property
    def committed(self):
        return self.kind in ('auto', 'caller') or self.end == 'commit'

    def muts(self, *tables):
        return [s for s in self.live if s.eff.kind in MUT and (not tables or s.eff.table in tables)]

    def get(self, kind, *tables):
        return [s for s in self.live if s.eff.kind == kind and (not tables or s.eff.table in tables)]


def res_status(st, res):
    v = st.vari.get(res)
    return v if v in ('Ok', 'Err') else None


def effs(w, ev):
    """Effects of an sql event, cached per (text, args)."""
    key = ('eff', id(ev))
    c = w.memo.get(key)
    if c is None or c[0] is not ev:
        if isinstance(ev.sql, str):
            try:
                r = SQ.effects(ev.sql, ev.args, w.S, ev.how)
            except SQ.SqlError as e:
                r = [SQ.Eff('unparsed', None, msg=str(e))]
        else:
            txt = str(ev.sql[1]) if isinstance(ev.sql, tuple) else str(ev.sql)
            m = re.match(r'\s*(insert\s+(?:or\s+\w+\s+)?into|delete\s+from|update|select)\s+"?(\w+)?', txt, re.I)
            k = {'i': 'ins', 'd': 'del', 'u': 'upd', 's': 'sel'}.get(m.group(1)[0].lower(), 'unparsed') if m else 'unparsed'
            r = [SQ.Eff(k, w.S.low(m.group(2)) if m and m.group(2) and k != 'sel' else None, dyn=txt)]
        c = (ev, r)
        w.memo[key] = c
    return c[1]


def units(w, p, base=None):
    """Splits a path into units of commitment. `base` = 'caller' when the function runs inside the caller's transaction."""
    out = []
    cur = Unit(base) if base else None
    if cur: out.append(cur)
    stack = []  # (tid, unit, index of first statement)
    open_tx = {}
    for i, e in enumerate(p.ev):
        if e.k == 'tx_begin':
            conn = e.conn
            outer = next((u for t, u, _ in reversed(stack) if ('tx', t) in set(subterms(conn))), None)
            if outer is None and base and not stack: outer = cur
            if outer is None:
                u = Unit('tx', e.id); out.append(u)
            else: u = outer
            stack.append((e.id, u, len(u.stms)))
        elif e.k == 'tx_end':
            for j in range(len(stack) - 1, -1, -1):
                if stack[j][0] == e.id:
                    t, u, n = stack.pop(j)
                    if u.id == e.id and u.kind == 'tx': u.end = e.how
                    elif e.how != 'commit':
                        for s in u.stms[n:]: s.undone = True
                    break
        elif e.k == 'sql':
            st = res_status(p.st, e.res)
            tx = [x[1] for x in subterms(e.exec) if len(x) == 2 and x[0] == 'tx'] if isinstance(e.exec, tuple) else []
            u = next((uu for t, uu, _ in reversed(stack) if t in tx), None)
            if u is None:
                if cur is not None: u = cur
                else: u = Unit('auto'); out.append(u)
            for f in effs(w, e):
                s = Stm(f, e, st, i)
                s.unit = u
                u.stms.append(s)
    return out


def mutators(P):
    """Functions of the program whose own body contains a state-changing statement text, and the callers relation."""
    direct, callers = {}, {}
    for k, f in P.fns.items():
        for n in PR.walk(f.body):
            if n['k'] in ('mac', 'err') and re.search(r'\b(insert|update|delete|replace|drop|alter|create)\b\s+\w', (n.get('snip') or ''), re.I) and \
                    (n.get('name') in IN.QUERY_MACROS or (n['k'] == 'err' and 'query' in (n.get('snip') or '')[:30])):
                direct.setdefault(k, []).append(n)
            elif n['k'] == 'lit' and isinstance(n.get('v'), str) and re.match(r'\s*(insert\s+(or\s+\w+\s+)?into|update\s+\w+\s+set|delete\s+from|replace\s+into|drop\s+table|alter\s+table|vacuum)\b', n['v'], re.I):
                direct.setdefault(k, []).append(n)
            for c in (PR.callee(n), n.get('impl')) if n['k'] in ('call', 'mcall') else ():
                g = P.lookup(f.crate, c) if c else None
                if g is not None: callers.setdefault(id(g), set()).add(k)
            if n['k'] == 'path' and (n.get('res') or {}).get('r') == 'def' and n['res'].get('kind') in ('Fn', 'AssocFn'):
                g = P.lookup(f.crate, n['res'].get('path'))
                if g is not None: callers.setdefault(id(g), set()).add(k)
    return direct, callers


def mutating(w):
    if 'mutating' in w.memo: return w.memo['mutating']
    P = w.P
    direct, callers = mutators(P)
    mut = {k: P.fns[k] for k in direct}
    work = list(mut)
    while work:
        k = work.pop()
        for c in callers.get(id(P.fns[k]), ()):
            if c not in mut:
                mut[c] = P.fns[c]
                work.append(c)
    w.memo['mutating'] = (mut, direct, callers)
    return w.memo['mutating']


def roots(w):
    """Storage operations: state-changing functions of the db modules that other parts call (or that open a transaction
    themselves and nobody calls), and any function elsewhere that issues state-changing statements itself."""
    if 'roots' in w.memo: return w.memo['roots']
    mut, direct, callers = mutating(w)
    out = []
    for k, f in sorted(mut.items()):
        cs = callers.get(id(f), set())
        if is_db(f.path):
            ext = [c for c in cs if not is_db(w.P.fns[c].path)]
            if ext: out.append(f)
            elif not cs and any(n['k'] == 'mcall' and n['m'] == 'transaction' for n in PR.walk(f.body)): out.append(f)
        elif k in direct:
            out.append(f)
    w.memo['roots'] = out
    return out


class Op:
    """A storage operation with its interpreted paths and their units."""
    def __init__(self, w, fn):
        self.fn = fn
        self.base = 'caller' if tx_bound(fn) else None
        self.paths = w.paths(fn)
        self.units = [(p, units(w, p, self.base)) for p in self.paths]


def ops(cx):
    w = cx.w
    if 'ops' not in w.memo:
        out = []
        for f in roots(w):
            try:
                out.append(Op(w, f))
            except IN.Limit as e:
                out.append((f, e))
        w.memo['ops'] = out
    res = []
    for o in w.memo['ops']:
        if isinstance(o, tuple): cx.skip(o[0].path, str(o[1]))
        else: res.append(o)
    return res


def norm(e):
    """Position-independent form of a bound SQL expression."""
    return repr(e).lower()


def wkey(conjuncts):
    """Row set selected by a conjunction, as a comparable value (table qualifiers dropped)."""
    def strip(x):
        return ('col', None, x[2].lower()) if x[0] == 'col' else x
    return frozenset(norm(SQ.mapx(c, strip)) for c in conjuncts)


def keyed(conjuncts):
    """{column: term} for `column = parameter` conjuncts, plus the number of other conjuncts."""
    d, rest = SQ.eqs(conjuncts)
    return {k: (v[1] if v[0] == 'arg' else v) for k, v in d.items()}, rest


def known_by(w, p, s):
    """Does success of this statement on this path prove that at least one row was affected?"""
    if s.ev.how == 'fetch_one' and s.eff.ret: return True
    if s.ev.how == 'fetch_optional' and s.eff.ret:
        return p.st.vari.get(('pl', s.ev.res, 'Ok', 0)) == 'Some'
    if s.ev.how == 'fetch_all' and s.eff.ret: pass
    # rows_affected() compared on the path
    for t, v in p.st.path:
        if isinstance(t, tuple) and any(isinstance(x, tuple) and len(x) > 1 and x[0] == 'call' and str(x[1]).endswith('rows_affected') and ('pl', s.ev.res, 'Ok', 0) in x[2] for x in subterms(t)):
            return True
    return False
