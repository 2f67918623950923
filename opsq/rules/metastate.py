"""Counters of work in progress (C18): an abstract machine over the operations on concurrent maps."""
from ..core import rule, short, wh, TECH
from ..interp import show, terms, last, calls
from .. import interp as IN, prog as PR
from .util import *

TECH['C18'] = 'abstract interpretation of concurrent-map operations per lock section (atomicity, exact deltas), guard-liveness deadlock analysis, dataflow of metadata pairs'

MAP = 'dashmap::DashMap'
GUARD = 'dashmap::mapref'
READS = ('len', 'is_empty', 'contains_key', 'iter', 'view', 'hasher', 'capacity')


class Sec:
    """One lock section: a single acquisition of a map's entry."""
    def __init__(s, i, e, m, key, how):
        s.i, s.e, s.map, s.key, s.how = i, e, m, key, how
        s.occ = set()      # what the path knows about the initial occupancy
        s.cell = None
        s.removed = False
        s.cond = []        # terms an unconditional-looking removal depends on
        s.unk = None
        s.eq, s.ne = set(), set()


class Machine:
    """Runs one path; sections, their occupancy facts, and final cells."""
    def __init__(self, p):
        self.p, self.secs, self.al, self.val = p, [], {}, {}
        self.empt = {}      # result of is_empty()/len() -> map term
        self.idx = {}
        self.other = []
        ev = p.ev
        for i, e in enumerate(ev):
            if e.k == 'call': self.call(i, e)
            elif e.k == 'hof': self.hof(i, e)
            elif e.k == 'endhof': self.endhof(i, e)
            elif e.k == 'assign': self.assign(i, e)
            elif e.k == 'discard': pass
        for t, v in p.st.vari.items():
            s = self.alias(t)
            if s is not None and v in ('Some', 'Occupied', 'None', 'Vacant'): s.occ.add(v in ('Some', 'Occupied'))
        for c, v in p.st.path:
            if isinstance(c, tuple) and c and c[0] == 'is' and len(c) > 2:
                s = self.alias(c[1])
                if s is not None and last(str(c[2])) in ('Some', 'Occupied', 'None', 'Vacant'): s.occ.add((last(str(c[2])) in ('Some', 'Occupied')) == v)
        self.conds()

    # -- aliases: which section's cell a term denotes
    def alias(self, t):
        while isinstance(t, tuple) and t:
            if t in self.al: return self.al[t]
            if t[0] == 'pl': t = t[1]
            elif t[0] == 'call' and last(t[1]) in ('unwrap', 'expect', 'deref', 'deref_mut', 'as_ref', 'as_mut', 'borrow', 'map', 'value', 'value_mut', 'key') and t[2]: t = t[2][0]
            elif t[0] in ('un', 'ref', 'deref') and len(t) > 1: t = t[-1]
            else: return None
        return None

    def ev_(self, t):
        """('n', section, d) | ('c', k) | None."""
        if t in self.val: return self.val[t]
        if not isinstance(t, tuple): return None
        if t[0] == 'lit': return ('c', int(t[1])) if isinstance(t[1], int) and not isinstance(t[1], bool) else None
        if t[0] == 'bin' and t[1] in ('+', '-'):
            a, b = self.ev_(t[2]), self.ev_(t[3])
            return self.add(a, b, t[1])
        if t[0] == 'call' and last(t[1]) in ('saturating_add', 'wrapping_add', 'checked_add', 'saturating_sub', 'wrapping_sub', 'checked_sub') and len(t[2]) == 2:
            return self.add(self.ev_(t[2][0]), self.ev_(t[2][1]), '+' if 'add' in last(t[1]) else '-')
        if t[0] == 'pl' or (t[0] == 'call' and last(t[1]) in ('unwrap', 'expect', 'unwrap_or', 'unwrap_or_default')):
            x = self.ev_(t[1] if t[0] == 'pl' else t[2][0])
            if x is not None: return x
        s = self.alias(t)
        if s is not None: return ('n', s, 0)
        return None

    @staticmethod
    def add(a, b, op):
        if a is None or b is None: return None
        sg = 1 if op == '+' else -1
        if b[0] == 'c':
            return ('c', a[1] + sg * b[1]) if a[0] == 'c' else ('n', a[1], a[2] + sg * b[1])
        if a[0] == 'c' and sg == 1: return ('n', b[1], b[2] + a[1])
        return None

    def call(self, i, e):
        n, path, a = last(e.path), e.path, e.args
        if MAP in path and a:
            m = a[0]
            if n in ('entry', 'try_entry', 'get', 'get_mut', 'try_get', 'try_get_mut'):
                s = Sec(i, e, m, a[1], 'entry' if 'entry' in n else n)
                self.secs.append(s); self.al[e.res] = s
            elif n in ('insert', 'remove', 'remove_if', 'remove_if_mut', 'alter', 'take'):
                s = Sec(i, e, m, a[1], n)
                self.secs.append(s)
                if n == 'insert':
                    s.cell = self.ev_(a[2]) or 'unk'; s.over = True
                elif n == 'remove': s.cell, s.removed = 'vac', True
            elif n in ('clear', 'retain', 'alter_all', 'iter_mut', 'drain', 'into_iter', 'shrink_to_fit', 'into_read_only', 'extend'):
                self.other.append((i, e, n, m))
            elif n in ('is_empty', 'len'):
                self.empt[e.res] = (m, n, i)
            return
        if GUARD in path and a:
            s = self.alias(a[0])
            if s is None: return
            if n in ('and_modify', 'or_insert', 'or_default', 'or_insert_with', 'or_try_insert_with', 'or_insert_with_key', 'insert_entry', 'into_ref', 'into_mut', 'get', 'get_mut', 'value', 'value_mut', 'key', 'pair', 'pair_mut', 'insert', 'downgrade', 'into_key', 'remove', 'remove_entry', 'replace_entry', 'replace_entry_with'):
                self.al[e.res] = s
                cur = s.cell if s.cell is not None else ('n', s, 0)
                if n == 'and_modify':
                    nx = next((x for x in self.p.ev[i + 1:i + 2]), None)
                    if not (nx is not None and nx.k == 'hof' and nx.name == n): s.occ.add(False)
                elif n in ('or_insert', 'or_default'):
                    s.orins = self.ev_(a[1]) if n == 'or_insert' else ('c', 0)
                    s.ortype = 'map' if n == 'or_default' or s.orins is None else 'num'
                    s.orref = e.res
                    self.late(s, e)
                elif n in ('or_insert_with', 'or_try_insert_with', 'or_insert_with_key'):
                    nx = next((x for x in self.p.ev[i + 1:i + 2]), None)
                    if not (nx is not None and nx.k == 'hof' and nx.name == n): s.occ.add(True)
                    else: s.occ.add(False)
                    s.orref = e.res
                elif n in ('get', 'get_mut', 'value', 'value_mut', 'into_ref', 'into_mut'):
                    self.val[e.res] = cur if cur != 'vac' else None
                    if n in ('get_mut', 'value_mut', 'into_ref', 'into_mut'): pass
                elif n in ('insert', 'insert_entry', 'replace_entry'):
                    s.cell = self.ev_(a[-1]) or 'unk'
                    if s.occ == {True}: s.over = True
                elif n in ('remove', 'remove_entry'):
                    self.val[e.res] = cur if cur != 'vac' else None
                    s.cell, s.removed, s.rmat = 'vac', True, i
            return
        if n == 'replace' and 'mem' in path and len(a) == 2:
            s = self.alias(a[0])
            if s is not None: s.cell = self.ev_(a[1]) or 'unk'

    def late(self, s, e):
        """or_insert: the guard's value is the existing one, or the inserted one when the entry was vacant."""
        s.late = True

    def hof(self, i, e):
        n = e.name
        if n == 'and_modify':
            s = self.alias(e.recv)
            if s is not None:
                s.occ.add(True)
                self.val[('elem', e.recv, 'and_modify.0')] = s.cell if s.cell is not None else ('n', s, 0)
                self.al[('elem', e.recv, 'and_modify.0')] = s
        elif n in ('remove_if', 'remove_if_mut', 'alter') and MAP in e.path:
            s = next((x for x in reversed(self.secs) if x.how == n and x.map == e.recv), None)
            if s is not None:
                s.occ.add(True)
                self.al[('elem', e.recv, f'{n}.1')] = s
                self.val[('elem', e.recv, f'{n}.1')] = ('n', s, 0)
        elif n in ('map', 'map_or', 'map_or_else', 'is_some_and', 'inspect', 'and_then'):
            s = self.alias(e.recv)
            if s is not None: s.occ.add(True); self.al[('elem', e.recv, f'{n}.0')] = s

    def endhof(self, i, e):
        if e.name in ('remove_if', 'remove_if_mut'):
            s = next((x for x in reversed(self.secs) if x.how == e.name and not getattr(x, 'done', False)), None)
            if s is not None:
                s.done = True
                s.rmif = e.val
        elif e.name == 'alter':
            s = next((x for x in reversed(self.secs) if x.how == 'alter'), None)
            if s is not None: s.cell = self.ev_(e.val) or 'unk'
        elif e.name in ('or_insert_with', 'or_try_insert_with', 'or_insert_with_key'):
            for s in reversed(self.secs):
                if s.how == 'entry': s.cell = self.ev_(e.val) or 'fresh'; break

    def assign(self, i, e):
        s = self.alias(e.lhs)
        if s is None:
            return
        # `*guard op= x`: relative to the guard's present value
        v = self.ev_(e.rhs)
        s.cell = v if v is not None else 'unk'
        s.wrote = e
        if v is not None: self.val[e.lhs] = v

    def conds(self):
        for c, v in self.p.st.path:
            if not (isinstance(c, tuple) and c and c[0] == 'bin' and c[1] in ('==', '!=', '<', '<=', '>', '>=')): continue
            a, b = self.ev_(c[2]), self.ev_(c[3])
            self.cmp(c[1], a, b, v)

    def cmp(self, op, a, b, v):
        if a is None or b is None: return
        if a[0] == 'c' and b[0] == 'n':
            a, b = b, a
            op = {'<': '>', '<=': '>=', '>': '<', '>=': '<='}.get(op, op)
        if a[0] != 'n' or b[0] != 'c': return
        s, k = a[1], b[1] - a[2]   # n op k
        if op == '==': (s.eq if v else s.ne).add(k)
        elif op == '!=': (s.ne if v else s.eq).add(k)
        else:
            # n >= 1 always: n <= 1, n < 2 mean n == 1; n > 1, n >= 2 mean n != 1; n <= 0, n < 1 mean n == 0
            up = {'<': k - 1, '<=': k}.get(op)
            if up is None: up, v = {'>': k, '>=': k - 1}[op], not v   # not (n <= up)
            if up in (0, 1): (s.eq if v else s.ne).add(up)
            else: s.unk = f'bound {up}'

    def feasible(self):
        return all(len(s.occ) < 2 and not (s.eq & s.ne) and len(s.eq) < 2 for s in self.secs)

    def cases(self, s):
        return sorted(s.occ) if s.occ else [False, True]

    def final(self, s, occ):
        """Effect of the section when the entry was (not) there: 'noop', 'inc', 'dec', 'dec0' (left at zero), 'bad:…', 'unk'."""
        if s.how in ('remove_if', 'remove_if_mut'):
            if not occ: return 'noop'
            c = getattr(s, 'rmif', None)
            if c is None: return 'noop'
            z = self.zero(c, s)
            if s.how == 'remove_if_mut' and s.cell is not None:
                if s.cell == ('n', s, -1) and z is True: return 'dec'
                return 'unk'
            if z is True: return 'noop'
            if z is False: return 'bad:an entry is removed although its count is not zero'
            return 'unk'
        cell = s.cell
        if not occ:
            if getattr(s, 'orref', None) is not None:
                ins = getattr(s, 'orins', None)
                if s.cell in (None,): cell = ins if ins is not None else 'fresh'
                elif s.cell[0] == 'n' and s.cell[1] is s and ins is not None and s.cell != 'unk': cell = ('c', ins[1] + s.cell[2])
            if cell is None or cell == 'vac': return 'noop'
            if cell == 'fresh': return 'unk'
            if cell == 'unk': return 'unk'
            if cell[0] == 'c': return 'inc' if cell[1] == 1 else f'bad:a new entry starts at {cell[1]}'
            return 'unk'
        if cell is None: return 'noop'
        if cell == 'vac':
            if s.how == 'remove': return 'bad:the entry is removed whatever its count'
            # removed under the entry's lock: n == 1 with no decrement, or n - 1 == 0
            if 1 in s.eq: return 'dec'
            if 0 in s.eq: return 'noop'
            return 'bad:the entry is removed although its count may be positive' if not s.unk else 'unk'
        if cell in ('unk', 'fresh'): return 'unk'
        if cell[0] == 'c':
            if s.how == 'insert' or getattr(s, 'over', False) or getattr(s, 'wrote', None) is not None:
                if cell[1] == 0 and 1 in s.eq: return 'dec0'
                return 'bad:an existing count is overwritten'
            return 'noop'
        if cell[1] is not s:
            o = cell[1]
            return f'bad:the count written was read in an earlier, separate look-up'
        d = cell[2]
        if d == 0: return 'noop'
        if d == 1: return 'inc'
        if d == -1:
            if 1 in s.ne: return 'dec'
            return 'dec0'
        return f'bad:the count changes by {d}'

    def zero(self, c, s):
        """Whether boolean term c says that section s's present count is zero (True), something else (False), unknown (None)."""
        if isinstance(c, tuple) and c and c[0] == 'bin':
            a, b = self.ev_(c[2]), self.ev_(c[3])
            if a and b and a[0] == 'c': a, b = b, a
            if a and b and a[0] == 'n' and b[0] == 'c' and a[1] is s:
                if s.how == 'remove_if_mut' and s.cell is not None and s.cell[0] == 'n': k = b[1] - a[2] + s.cell[2]
                else: k = b[1] - a[2]
                if c[1] == '==': return k == 0
                if c[1] == '<': return k == 1
                if c[1] == '<=': return k == 0
                return False
        if isinstance(c, tuple) and c and c[0] == 'lit': return False
        return None

    def outer_of(self, s):
        """The section whose guard holds this section's map."""
        t = s.map
        while isinstance(t, tuple) and t and t[0] == 'field':
            t = t[1]
            o = self.alias(t)
            if o is not None: return o
        return None


def feasible_machines(cx, f):
    for p in cx.paths(f, tag='meta'):
        if p.out != 'val': continue
        m = Machine(p)
        if m.feasible(): yield p, m


def empties(m, t, sec, want=True):
    """Whether boolean term t (being `want`) says that the field under section `sec` has no values left."""
    neg = not want
    while isinstance(t, tuple) and t and (t[0] == 'not' or (t[0] == 'un' and t[1] in ('!', 'not'))): t, neg = t[-1], not neg
    if isinstance(t, tuple) and t and t[0] == 'bin' and t[1] in ('==', '!=') and lit(t[3]) == 0 and t[2] in m.empt and m.empt[t[2]][1] == 'len':
        if t[1] == '!=': neg = not neg
        t = t[2]
    elif t in m.empt and m.empt[t][1] == 'len': return None
    if t in m.empt:
        mp = m.empt[t][0]
        o = None
        x = mp
        while isinstance(x, tuple) and x and x[0] == 'field':
            x = x[1]
            o = m.alias(x)
            if o is not None: break
        if o is sec: return not neg
        return None
    return None


@rule('counter-delta', 'increment adds exactly one to the counter of its own key and value and decrement takes exactly one, in one indivisible map operation on every path; a counter is removed exactly when it reaches zero', 'C18', floor=6)
def r_delta(cx):
    for name, want in (('MetaState::increment', 'inc'), ('MetaState::decrement', 'dec')):
        f = cx.fn(name)
        if not f: continue
        kn, vn = (f.params[1].get('name'), f.params[2].get('name')) if len(f.params) > 2 else ('key', 'val')
        lazy = cleanup = False
        for p, m in feasible_machines(cx, f):
            for i, e, n, mp in m.other:
                if n in ('clear', 'alter_all', 'iter_mut', 'drain', 'retain'):
                    if n == 'retain': cx.skip(f'{short(name)}: {n}', 'bulk operation')
                    else: cx.ob(f'{short(name)}: touches only its own counter', False, wh(e), f'{n} changes other counters')
            inner = [s for s in m.secs if m.outer_of(s) is not None]
            outer = [s for s in m.secs if m.outer_of(s) is None]
            for s in outer:
                cx.ob(f'{name}: own key', param(s.key, kn), wh(s.e), f'the map is accessed under {show(s.key)[:60]}, not under the given key')
                if s.how == 'insert': cx.ob(f'{name}: key kept', False, wh(s.e), 'the counters of a key are replaced by fresh ones')
                if s.how == 'remove': cx.ob(f'{name}: key removed only when empty', False, wh(s.e), 'a key is removed without checking, in the same operation, that it has no values')
            for s in inner:
                cx.ob(f'{name}: own value', param(s.key, vn), wh(s.e), f'the counter of {show(s.key)[:60]} is changed, not that of the given value')
            # effects, for every combination of undetermined initial occupancy
            tot, unk = [0], False
            eff = []
            for s in inner:
                fs = {m.final(s, o) for o in m.cases(s)}
                for x in fs:
                    if x.startswith('bad:'): cx.ob(f'{name}: exact', False, wh(s.e), x[4:])
                    elif x == 'unk': unk = True; cx.skip(f'{name}: exact', f'operation not understood at {wh(s.e)}')
                    elif x == 'dec0': lazy = True
                if any(s2.how.startswith('remove_if') for s2 in [s]): cleanup = True
                eff.append({'dec' if x == 'dec0' else x for x in fs})
                if 'dec0' in fs and 1 in s.eq:
                    later = [x for x in m.secs if x.i > s.i and x.map == s.map and x.how.startswith('remove_if')]
                    cx.ob(f'{name}: removed at zero', bool(later), wh(s.e), 'a counter that returned to zero stays')
            if unk: continue
            ch = [x for x in eff if x != {'noop'}]
            where = wh(inner[0].e) if inner else f.where
            if want == 'inc':
                cx.ob(f'{name}: exact', len(ch) == 1 and ch[0] == {'inc'}, where, 'an increment is lost' if not ch or ch[0] != {'inc'} else 'the counter is changed more than once')
            else:
                known_absent = all(s.occ == {False} for s in outer if s.how in ('get', 'get_mut', 'entry')) and any(s.how in ('get', 'get_mut', 'entry') for s in outer)
                if not inner and known_absent: continue
                if not ch:
                    vac = all(s.occ == {False} or s.how.startswith('remove_if') for s in inner) and bool(inner)
                    cx.ob(f'{name}: exact', vac, where, 'a decrement is lost')
                else:
                    ok = len(ch) == 1 and ch[0] <= {'dec', 'noop'}
                    cx.ob(f'{name}: exact', ok, where, 'the counter is not decremented' if 'inc' in set().union(*ch) else 'the counter is changed more than once')
            # a key goes away exactly with its last value
            rem = []
            for s in outer:
                if s.how.startswith('remove_if'):
                    rem.append(s)
                    c = getattr(s, 'rmif', None)
                    if c is None: continue
                    z = empties(m, c, s)
                    if z is None and lit(c) is not None: z = bool(lit(c)) is False
                    if z is None: cx.skip(f'{name}: key removed only when empty', show(c)[:80]); continue
                    cx.ob(f'{name}: key removed only when empty', z, wh(s.e), 'a key is removed although it has values')
                elif s.removed and s.how == 'entry':
                    rem.append(s)
                    z = [empties(m, c, s, v) for c, v in p.st.path]
                    cx.ob(f'{name}: key removed only when empty', True in z, wh(s.e), 'a key is removed although it may have values')
            if want == 'dec' and ch:
                last_i = max((s.i for s in inner if m.final(s, True) in ('dec', 'dec0')), default=-1)
                conds = [(c, v, m.empt[t][2]) for c, v in p.st.path for t in terms(c) if t in m.empt] + [(c, v, m.empt[c][2]) for c, v in p.st.path if c in m.empt]
                still = any(empties(m, c, o, v) is False and at > last_i for c, v, at in conds for o in outer)
                cx.ob(f'{name}: key removed when empty', still or any(s.i > last_i and s.how == 'entry' and s.occ == {False} for s in outer) or any(s.i > last_i or (s.how == 'entry' and getattr(s, 'rmat', 0) > last_i) for s in rem), where, 'a key whose last counter returned to zero stays for ever')
        if lazy and not cleanup:
            cx.ob(f'{name}: removed at zero', False, f.where, 'a counter that returned to zero stays')
        elif want == 'dec': cx.ob(f'{name}: removed at zero', True, f.where)


def parents(body):
    par = {}
    st = [body]
    while st:
        x = st.pop()
        for k, v in x.items():
            for y in (v if isinstance(v, list) else [v]):
                if isinstance(y, dict):
                    if 'k' in y: par[id(y)] = (x, k); st.append(y)
                    else:
                        for kk, z in y.items():
                            if isinstance(z, dict) and 'k' in z: par[id(z)] = (x, f'{k}.{kk}'); st.append(z)
    return par


def chain(par, n):
    out = [(n, None)]
    while id(n) in par:
        n, k = par[id(n)]
        out.append((n, k))
    return out   # [(node, slot of the previous node in it)]


def guardty(t):
    return GUARD in str(t or '') or 'MutexGuard' in str(t or '') or 'RwLockReadGuard' in str(t or '') or 'RwLockWriteGuard' in str(t or '')


def alive(cx, p, i, j, dead=()):
    """Whether the guard made at event i is still held at event j of the path (scopes of edition 2024)."""
    ei, ej = p.ev[i], p.ev[j]
    f = ei.fn
    if f is None or ei.node is None: return False
    if ei.depth is not None and any(e.depth is not None and e.depth < ei.depth for e in p.ev[i + 1:j + 1]) and not guardty(f.raw.get('ret') if isinstance(f.raw, dict) and f.raw.get('ret') else (f.body or {}).get('ty')): return False   # its function has returned
    if ej.fn is f: nj = ej.node
    else:
        ent = [e for e in p.ev[i + 1:j] if e.k == 'enter' and e.fn is f]
        nj = ent[-1].node if ent else None
    if nj is None: return False
    memo = cx.w.memo.setdefault(('par', f.path), None)
    if memo is None: memo = cx.w.memo[('par', f.path)] = parents(f.body)
    cs, cj = chain(memo, ei.node), chain(memo, nj)
    pos = {id(n): x for x, (n, _) in enumerate(cj)}
    prev = ei.node
    bound = None
    for n, slot in cs[1:]:
        if id(n) in pos:
            x = pos[id(n)]
            if x == 0: return False
            sj = cj[x][1]
            childj = cj[x - 1][0]
            if n['k'] == 'block':
                return bound is not None and childj is not prev
            if n['k'] == 'if': return slot == 'c' and sj == 't'
            if n['k'] in ('match', 'mcall', 'call', 'letc', 'bin', 'tuple', 'struct'): return True
            return n['k'] not in ('loop', 'closure')
        k = n['k']
        if k == 'let':
            if not guardty((n.get('init') or {}).get('ty')): return False
            bound = n
        elif k == 'expr': return False
        elif k == 'block':
            if slot == 'stmts': return False
            if not guardty(n.get('ty')): return False
        elif k == 'if' and slot == 'c' and prev['k'] != 'letc' and not any(x['k'] == 'letc' for x in PR.walk(prev)): return False
        elif k in ('closure', 'loop', 'await'): return False
        prev = n
    return False


@rule('no-self-deadlock', 'no concurrent-map or lock operation is made on a map while the same path still holds a guard of that map', 'C18', floor=2)
def r_deadlock(cx):
    fs = [f for k, f in sorted(cx.P.fns.items()) if f.crate == 'opsqueue' and ('MetaState' in f.path)]
    n = 0
    for f in fs:
        if f.trait: continue
        try: ps = cx.paths(f, tag='meta')
        except IN.Limit: cx.skip(short(f.path), 'too many paths'); continue
        for p in ps:
            m = Machine(p)
            if not m.feasible(): continue
            for s in m.secs:
                if s.how not in ('entry', 'get', 'get_mut'): continue
                if s.occ == {False} and s.how != 'entry': continue
                for j in range(s.i + 1, len(p.ev)):
                    e = p.ev[j]
                    if e.k == 'call' and last(e.path) == 'drop' and e.args and m.alias(e.args[0]) is s: break
                    if getattr(s, 'rmat', None) == j: break
                    if e.k == 'call' and MAP in e.path and e.args and e.args[0] == s.map:
                        n += 1
                        both_read = s.how == 'get' and last(e.path) in ('get', 'contains_key', 'len', 'is_empty', 'iter', 'view')
                        a = alive(cx, p, s.i, j)
                        cx.ob(f'{short(f.path)}: {last(s.e.path)} then {last(e.path)}', not a, wh(e), 'the map is locked again while a guard of it is held' + (' (blocks when a writer waits in between)' if both_read else ''))
        cx.ob(f'{short(f.path)}: guards', True, f.where)


@rule('counter-reads', 'reads of the counters give the stored values, all of them', 'C18', 'C19', floor=3)
def r_reads(cx):
    f = cx.fn('MetaStateField::to_json')
    if f:
        vals = []
        for p in cx.paths(f, tag='meta'):
            if p.out != 'val': continue
            v = p.val
            while isinstance(v, tuple) and v and v[0] in ('pl', 'un'): v = v[1] if v[0] == 'pl' else v[2]
            if v and v[0] == 'lit':
                # only when serialisation failed
                if 'Err' in p.st.vari.values() or any(c[0] == 'is' and last(str(c[2])) == 'Ok' and not x for c, x in p.st.path if isinstance(c, tuple) and len(c) > 2): continue
                cx.ob('to_json serialises all counters', False, f.where, 'the counters given to the query are constant'); continue
            whole = v[0] == 'field' and param(v[1])
            if not whole and calls(v, 'filter', 'take', 'skip', 'take_while', 'step_by', 'filter_map'): cx.ob('to_json serialises all counters', False, f.where, 'not all counters are given to the query')
            elif whole: cx.ob('to_json serialises all counters', True, f.where)
            else: cx.skip('to_json', show(v)[:80])
    for name, key in (('MetaStateField::get', 1), ('MetaState::get', 1)):
        f = cx.fn(name)
        if not f: continue
        for p in cx.paths(f, tag='meta'):
            if p.out != 'val': continue
            g = [e for i, e in evs(p, 'get', sub='DashMap')]
            if not g: cx.skip(name, 'look-up not recognised'); continue
            e = g[0]
            cx.ob(f'{name}: own key', param(e.args[1], f.params[1].get('name')), wh(e), 'another entry is looked up')
            if any(t[0] == 'bin' for t in terms(p.val)): cx.ob(f'{name}: value', False, f.where, 'the count is altered')
    for name in ('MetaState::is_empty', 'MetaStateField::is_empty'):
        f = cx.fn(name)
        if not f: continue
        for p in cx.paths(f, tag='meta'):
            v = p.val
            e = calls(v, 'is_empty') if isinstance(v, tuple) else []
            if e: cx.ob(name, v == e[0], f.where, 'the answer is not whether the map is empty')
            elif lit(v) is not None: cx.ob(name, False, f.where, 'the answer is constant')
            else: cx.skip(name, show(v)[:60])


PIPE = ('Strategy::build_query', 'Dispatcher::register_lookups', 'Reserver::try_reserve', 'submission::db::get_submission', 'submission::db::get_submission_strategic_metadata', 'MetaState::increment', 'MetaState::decrement', 'Reserver::finish_reservation_sync', 'Reserver::finish_reservation')


def pairs(cx, p, name, op, owner, where, label):
    """On this path each metadata pair of the submission `owner` is given to `op` exactly once."""
    md = [e for i, e in evs(p, 'get_submission_strategic_metadata')]
    own = [e for e in md if e.args and e.args[0] == owner]
    for e in md:
        cx.ob(f'{label}: metadata of its own submission', e.args[0] == owner, wh(e), f'the metadata of {show(e.args[0])[:60]} is used')
    ops = [(i, e) for i, e in evs(p, op) if 'MetaState' in e.path]
    loops = [(i, e) for i, e in enumerate(p.ev) if e.k == 'for' and any(x == m.res for m in own for x in terms(e.iter))]
    none = [e for e in p.ev if e.k == 'for0' and any(x == m.res for m in own for x in terms(e.iter))]
    for i, e in ops:
        a, b = e.args[1], e.args[2]
        if not (is_field(a, '0') and is_field(b, '1') and a[1] == b[1]):
            x, y = [t for t in terms(a) if t[0] == 'elem'], [t for t in terms(b) if t[0] == 'elem']
            if x and y and x[0] == y[0] and is_field(a, '1') and is_field(b, '0'): cx.ob(f'{label}: key with its own value', False, wh(e), 'key and value are swapped')
            elif x and y and x[0] != y[0]: cx.ob(f'{label}: key with its own value', False, wh(e), 'key and value come from different pairs')
            else: cx.skip(f'{label}: pair', show(a)[:60])
            continue
        cx.ob(f'{label}: key with its own value', True, wh(e))
    if loops:
        cx.ob(f'{label}: each pair once', len(ops) == 1, where, f'{len(ops)} counter operations per metadata pair')
        for i, e in loops:
            if calls(e.iter, 'take', 'skip', 'filter', 'step_by', 'take_while', 'skip_while', 'filter_map', 'next'): cx.ob(f'{label}: every pair', False, wh(e), 'some metadata pairs are left out')
    each = [e for i, e in evs(p, 'for_each', 'try_for_each', 'map', 'fold', 'try_fold') if any(x == m.res for m in own for x in terms(e.args[0]))]
    return bool(loops or none or each), ops, own


@rule('reserve-increments', 'handing out a chunk raises the counter of each metadata pair of its own submission exactly once, and nothing is raised when the chunk is not handed out', 'C18', floor=2)
def r_reserve_inc(cx):
    f = cx.fn('Dispatcher::join_chunk_with_submission_info')
    if not f: return
    ch = next((p['name'] for p in f.params if 'Chunk' in str(p.get('ty'))), 'chunk')
    for p in cx.paths(f, atomic=cx.P.atoms(*PIPE)):
        if p.out != 'val': continue
        owner = next((('field', e.args[0][1], 'submission_id') for i, e in evs(p, 'get_submission_strategic_metadata', 'get_submission') if is_field(e.args[0], 'submission_id') and param(e.args[0][1], ch)), None)
        some = p.result() == 'Ok' and any(x[0] == 'v' and last(x[1]) == 'Some' for x in terms(p.pay() or ()))
        if some and owner is None: cx.ob('reserve: counters raised', False, f.where, 'no metadata is read for a chunk that is handed out'); continue
        seen, ops, own = pairs(cx, p, 'reserve', 'increment', owner, f.where, 'reserve') if owner is not None else (False, [(i, e) for i, e in evs(p, 'increment') if 'MetaState' in e.path], [])
        if some: cx.ob('reserve: counters raised', seen or bool(ops), f.where, 'the counters are not raised for a chunk that is handed out')
        else: cx.ob('reserve: counters untouched', not ops, f.where, 'the counters are raised although the chunk is not handed out')
        dec = [e for i, e in evs(p, 'decrement') if 'MetaState' in e.path]
        cx.ob('reserve: only raised', not dec, f.where, 'the counters are lowered when a chunk is handed out')


@rule('release-decrements', 'every release of a handed-out reservation lowers the counters of the metadata of that chunk\'s submission exactly once', 'C18', floor=3)
def r_release_dec(cx):
    f = cx.fn('Dispatcher::finish_reservation')
    if f:
        idn = next((p['name'] for p in f.params if 'ChunkId' in str(p.get('ty'))), 'id')
        for p in cx.paths(f, atomic=cx.P.atoms(*PIPE)):
            if p.out != 'val': continue
            owner = next((e.args[0] for i, e in evs(p, 'get_submission_strategic_metadata') if is_field(e.args[0], 'submission_id') and param(e.args[0][1], idn)), None)
            md = evs(p, 'get_submission_strategic_metadata')
            if owner is None:
                cx.ob('finish: counters lowered', not md and False, f.where, 'the counters of the finished chunk\'s submission are not lowered'); continue
            seen, ops, own = pairs(cx, p, 'finish', 'decrement', owner, f.where, 'finish')
            failed = any(p.st.vari.get(e.res) == 'Err' for e in own)
            if not failed: cx.ob('finish: counters lowered', seen or bool(ops), f.where, 'the counters are not lowered when a reservation is finished')
            inc = [e for i, e in evs(p, 'increment') if 'MetaState' in e.path]
            cx.ob('finish: only lowered', not inc, f.where, 'the counters are raised when a reservation is finished')
    # every other way in which reservations are released
    rel = {g.path for n in ('Dispatcher::finish_reservations_sync', 'Dispatcher::finish_reservation', 'Reserver::finish_reservation_sync', 'Reserver::finish_reservation') for g in [cx.P.fn(n)] if g}
    roots = {}
    for k, g in sorted(cx.P.fns.items()):
        if g.crate != 'opsqueue' or 'Dispatcher' in g.path or 'Reserver' in g.path: continue
        for n in PR.walk(g.body):
            if n['k'] in ('call', 'mcall') and PR.callee(n) in rel: roots[g.path] = g
    for path, g in sorted(roots.items()):
        name = short(PR.canon(path))
        try: ps = cx.paths(g, atomic=cx.P.atoms(*(PIPE + ('Dispatcher::finish_reservation', 'chunk::db::complete_chunk', 'chunk::db::fail_chunk', 'chunk::db::retry_or_fail_chunk', 'chunk::db::move_chunk_to_completed_chunks'))))
        except IN.Limit: cx.skip(name, 'too many paths'); continue
        for p in ps:
            sync = [e for i, e in evs(p, 'finish_reservation_sync', 'finish_reservation') if 'Reserver' in e.path]
            full = [e for i, e in evs(p, 'finish_reservation') if 'Dispatcher' in e.path]
            for e in sync: cx.ob(name, bool(evs(p, 'get_submission_strategic_metadata')), wh(e), 'reservations are released but the counters of their metadata are not lowered')
            for e in full: cx.ob(name, True, wh(e))
