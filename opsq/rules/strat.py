"""The statements the strategies build: symbolic construction over concrete nestings, then analysis of the parsed text (C19)."""
from ..core import rule, short, wh, TECH
from ..interp import show, terms, last, calls
from .. import interp as IN, prog as PR, sql as SQ

TECH['C19'] = 'symbolic construction of the query text for every strategy nesting up to a depth, then relational analysis of the parsed query (row coverage, filter, order)'
ST = 'consumer::strategy::Strategy::'


def base(n): return ('v', ST + n, ())


def pd(k, s): return ('struct', ST + 'PreferDistinct', (('meta_key', ('param', 'strategy', k)), ('underlying', s)), None)


def nestings(depth):
    """[(name, term, keys outermost first, base name)]"""
    out = []
    for b in ('Oldest', 'Newest', 'Random'):
        t, ks, n = base(b), [], b
        out.append((n, t, [], b))
        for d in range(depth):
            k = f'key{d}'
            t, ks, n = pd(k, t), [k] + ks, f'PreferDistinct({k}, {n})'
            out.append((n, t, ks, b))
    return out


def built(cx):
    """[(name, keys, base, sql text, bound values, function)] for every nesting; unsupported construction is skipped."""
    if 'built' in cx.w.memo: return cx.w.memo['built']
    out = []
    f = cx.P.fn('Strategy::build_query')
    cx.w.memo['built'] = out
    if f is None: return out
    for name, t, ks, b in nestings(4 if cx.tier == 'thorough' else 3):
        for p in cx.paths(f, args=[t, ('qb', 0)], tag='strategy ' + name):
            if p.out == 'panic':
                out.append((name, ks, b, None, 'panic', f)); continue
            parts = p.st.env.get(('qb', ('qb', 0)))
            if p.out != 'val' or parts is None or any(e.k in ('for', 'for0', 'loop') for e in p.ev) or any(x[1][0] != 'lit' for x in parts if x[0] == 's'):
                out.append((name, ks, b, None, 'not a constant text', f)); continue
            txt, bound = '', []
            for k, v in parts:
                if k == 's': txt += str(v[1])
                else:
                    bound.append(v); txt += f'?{len(bound)}'
            out.append((name, ks, b, txt, bound, f))
    return out


class Shape(Exception):
    pass


def isnot_reserved(c, tab='chunks'):
    """The conjunct says: not reserved, with this chunk's own key."""
    neg = None
    fn = None
    if c[0] == 'op' and c[1] in ('=', 'is', '!=', 'is not', 'isnot'):
        for a, b in ((c[2], c[3]), (c[3], c[2])):
            if a[0] in ('fn', 'call', 'func') and b[0] in ('lit', 'col', 'bool'):
                v = b[1] if b[0] != 'col' else b[2]
                f = str(v).lower() in ('0', 'false')
                tr = str(v).lower() in ('1', 'true')
                if f or tr: fn, neg = a, f == (c[1] in ('=', 'is'))
    elif c[0] == 'un' and c[1] == 'not' and c[2][0] in ('fn', 'call', 'func'): fn, neg = c[2], True
    elif c[0] in ('fn', 'call', 'func'): fn, neg = c, False
    if fn is None or 'is_reserved' not in str(fn[1]).lower(): return None
    args = [x for x in fn[2]]
    cols = [x[2].lower() if x[0] == 'col' else '?' for x in args]
    return neg and cols == ['submission_id', 'chunk_index'], fn


class Rel:
    """What a SELECT yields: base table whose rows are each yielded exactly once (subject to `filt`), and its order."""
    def __init__(self, table, filt=(), order=(), cols=None): self.table, self.filt, self.order, self.cols = table, list(filt), list(order), cols or {}


def analyse(sel, S, ctes=None, bound=None):
    """Rel of a query, or Shape. Order entries: ('col', table, column, dir) | ('split',) random rotation | ('row', order of the sub-select)."""
    ctes = dict(ctes or {})
    for n, c, x in sel.ctes: ctes[n.lower()] = (x, c)
    if sel.limit is not None: raise Viol('only a limited number of rows is offered')
    if len(sel.cores) == 1:
        r = core(sel.cores[0][1], S, ctes, bound)
    elif len(sel.cores) == 2:
        if sel.cores[1][0].lower().replace('_', ' ') != 'union all': raise Viol(f'the two halves are combined by {sel.cores[1][0].upper()}, which drops or reorders rows')
        a, b = (core(c, S, ctes, bound) for _, c in sel.cores)
        if a.table != b.table: raise Shape('halves over different tables')
        diff_a = [c for c in a.filt if c not in b.filt]
        diff_b = [c for c in b.filt if c not in a.filt]
        if len(diff_a) != 1 or len(diff_b) != 1: raise Viol('the two halves do not split the rows between them')
        if not complementary(diff_a[0], diff_b[0], bound): raise Viol(f'the halves {sx(diff_a[0])} and {sx(diff_b[0])} do not cover every row exactly once')
        r = Rel(a.table, [c for c in a.filt if c in b.filt], [('split', diff_a[0], diff_b[0])], a.cols)
    else: raise Shape('several cores')
    if sel.order:
        o = []
        for x, d, nl in sel.order:
            o.append((x, (d or 'asc').lower(), (nl or '').lower() or None))
        r.order = [('by', x, d, n) for x, d, n in o] + r.order
    return r


class Viol(Exception):
    pass


def sx(e):
    if e[0] == 'op': return f'{sx(e[2])} {e[1]} {sx(e[3])}'
    if e[0] == 'col': return e[2]
    return '…' if e[0] in ('arg', 'p') else str(e[1])


def complementary(a, b, bound):
    if a[0] != 'op' or b[0] != 'op': return False
    def val(x): return bound[x[1] - 1] if x[0] == 'p' and bound is not None else x
    if (a[2], val(a[3])) != (b[2], val(b[3])): return False
    return {a[1], b[1]} in ({'>=', '<'}, {'>', '<='})


def src(s, S, ctes, bound):
    if s[0] == 'tab':
        n = s[1].lower()
        if n in ctes:
            x, cols = ctes[n]
            return analyse(x, S, {k: v for k, v in ctes.items() if k != n}, bound)
        return Rel(S.low(s[1]))
    if s[0] == 'sub': return analyse(s[1], S, ctes, bound)
    raise Shape('source ' + str(s[0]))


def core(c, S, ctes, bound):
    if c.values is not None: raise Shape('values')
    if c.distinct: pass
    if c.group or c.having: raise Viol('rows are grouped, so chunks are lost')
    if not c.frm: raise Shape('no source')
    r = src(c.frm[0][0], S, ctes, bound)
    filt = SQ.conj(c.where)
    for s, al, j, on in c.frm[1:]:
        j = (j or '').lower()
        on_ = SQ.conj(on) if on else []
        if 'left' in j:
            q = counts(s, S, ctes, bound)
            if q is None: raise Shape('left join with an unknown relation')
            eq = [x for x in on_ if x[0] == 'op' and x[1] == '=' and all(y[0] == 'col' and y[2].lower() in ('submission_id', 'id') for y in (x[2], x[3]))]
            if len(eq) != len(on_): raise Viol('a submission is matched with counts by more or something else than its identity')
            if not eq: raise Viol('counts are joined to every submission')
            r.cols[(al or s[1]).lower()] = q
        else:
            if counts(s, S, ctes, bound) is not None: raise Viol('submissions without a value for the key are not offered')
            t = src(s, S, ctes, bound)
            allc = on_ + filt
            eq = [x for x in allc if x[0] == 'op' and x[1] == '=' and all(y[0] == 'col' and y[2].lower() in ('submission_id', 'id') for y in (x[2], x[3]))]
            if t.table == 'chunks' and r.table == 'submissions' and eq:
                if 'cross' not in j: raise Viol('the order of the submissions is not kept: the planner may choose the chunks as outer loop (no CROSS JOIN)')
                r = Rel('chunks', r.filt + t.filt, r.order, r.cols)
                on_ = [x for x in on_ if x not in eq]
                filt = [x for x in filt if x not in eq]
                filt = filt + on_
            else: raise Shape(f'join of {r.table} with {t.table}')
    r.filt = r.filt + filt
    return r


def counts(s, S, ctes, bound):
    """Metadata key of a relation (submission_id, count in progress); None if it is not one."""
    if s[0] == 'tab' and s[1].lower() in ctes: x = ctes[s[1].lower()][0]
    elif s[0] == 'sub': x = s[1]
    else: return None
    if len(x.cores) != 1: return None
    c = x.cores[0][1]
    fns = [y for f in c.frm if f[0][0] == 'tfn' for y in allx(f[0]) if y[0] in ('fn', 'call', 'func') and 'metadata_counts' in str(y[1]).lower()]
    tabs = [S.low(f[0][1]) for f in c.frm if f[0][0] == 'tab']
    if len(fns) != 1 or tabs != ['submissions_metadata']: return None
    key = fns[0][2][0] if fns[0][2] else None
    conds = SQ.conj(c.where) + [y for f in c.frm for y in (SQ.conj(f[3]) if f[3] else [])]
    problems = []
    def val(x): return bound[x[1] - 1] if x[0] == 'p' and bound is not None else x
    mk = [y for y in conds if y[0] == 'op' and y[1] == '=' and any(z[0] == 'col' and z[2].lower() == 'metadata_key' for z in y[2:])]
    mv = [y for y in conds if y[0] == 'op' and y[1] == '=' and any(z[0] == 'col' and z[2].lower() == 'metadata_value' for z in allx(y))]
    if len(mk) != 1: problems.append('the counts are not restricted to one metadata key')
    else:
        o = [z for z in mk[0][2:] if not (z[0] == 'col' and z[2].lower() == 'metadata_key')]
        if not o or val(o[0]) != val(key): problems.append('counts of one metadata key are applied to the values of another')
    if len(mv) != 1: problems.append('the counts are not matched by metadata value')
    elif 'key' not in [z[2].lower() for z in allx(mv[0]) if z[0] == 'col']: problems.append('the counts are not matched by the value they count')
    if len(mk) + len(mv) != len(conds): problems.append('the counts leave out some submissions')
    names = {(a or (e[2] if e[0] == 'col' else '')).lower(): e for e, a in c.cols}
    cnt = [n for n, e in names.items() if e[0] == 'col' and e[2].lower() == 'value']
    sid = [n for n, e in names.items() if e[0] == 'col' and e[2].lower() == 'submission_id']
    if not sid: problems.append('the counts do not name their submission')
    return {'key': val(key) if key is not None else None, 'count': cnt, 'problems': problems}


def allx(e):
    out = []
    def go(x):
        if isinstance(x, tuple):
            if x and isinstance(x[0], str): out.append(x)
            for y in x: go(y)
        elif isinstance(x, list):
            for y in x: go(y)
    go(e)
    return out


def order_spec(r, S):
    """Flattened order: list of entries."""
    return r.order


@rule('offered-rows', 'for every nesting of strategies the query yields every pending chunk that is not reserved exactly once and no other row, unlimited', 'C19', floor=12)
def r_rows(cx):
    for name, ks, b, txt, bound, f in built(cx):
        if txt is None:
            if bound == 'panic': cx.ob(f'{name}: rows', False, f.where, 'building the query panics')
            else: cx.skip(name, bound)
            continue
        try:
            sel = SQ.parse(txt)
            if len(sel) != 1 or sel[0].kind != 'select': cx.skip(name, 'not one select'); continue
            r = analyse(sel[0].sel, cx.S, bound=bound)
        except Viol as e:
            cx.ob(f'{name}: rows', False, f.where, str(e)); continue
        except (Shape, SQ.SqlError) as e:
            cx.skip(name, f'query shape not understood: {e}'); continue
        rest = [c for c in r.filt if not isnot_reserved(c)]
        res = [c for c in r.filt if isnot_reserved(c)]
        cx.ob(f'{name}: rows', r.table == 'chunks', f.where, f'the query yields rows of {r.table}')
        cx.ob(f'{name}: only free chunks', bool(res) and all(isnot_reserved(c)[0] for c in res), f.where, 'reserved chunks are offered' if not res else 'the reservation test is inverted or applied to another chunk')
        cx.ob(f'{name}: no chunk hidden', not rest, f.where, 'chunks are left out by the condition ' + ', '.join(sx(c) for c in rest)[:200])
        out = sel[0].sel.cores[0][1].cols
        cx.ob(f'{name}: whole chunk', all(any(e[0] == 'star' for e, a in c.cols) or {'submission_id', 'chunk_index', 'input_content', 'retries'} <= {(a or (e[2] if e[0] == 'col' else '')).lower() for e, a in c.cols} for _, c in sel[0].sel.cores), f.where, 'the query does not yield all columns of a chunk')
        cx.ob(f'{name}: each once', not any(c.distinct and False for _, c in sel[0].sel.cores), f.where)


@rule('offered-order', 'the query orders by the strategy: ascending or descending submission, random rotation, or least counted metadata value first with the underlying order among equals', 'C19', floor=12)
def r_order(cx):
    for name, ks, b, txt, bound, f in built(cx):
        if txt is None:
            cx.skip(name, str(bound)); continue
        try:
            sel = SQ.parse(txt)[0].sel
            r = analyse(sel, cx.S, bound=bound)
        except Viol: continue
        except (Shape, SQ.SqlError) as e:
            cx.skip(name, f'query shape not understood: {e}'); continue
        o = list(r.order)
        # metadata keys, outermost first
        for i, k in enumerate(ks):
            if not o or o[0][0] != 'by': cx.ob(f'{name}: key {k}', False, f.where, 'the metadata counts do not decide the order'); o = None; break
            _, x, d, nl = o.pop(0)
            q = r.cols.get((x[1] or '').lower()) if x[0] == 'col' else None
            if q is None:
                cand = [v for v in r.cols.values() if x[0] == 'col' and x[2].lower() in v['count']]
                q = cand[0] if len(cand) == 1 else None
            nullsfirst = nl in (None, 'first', 'nulls first')
            if x[0] == 'fn' and str(x[1]).lower() in ('coalesce', 'ifnull') and x[2][0][0] == 'col': q, nullsfirst = r.cols.get((x[2][0][1] or '').lower()), x[2][1] == ('lit', 0)
            if q is None: cx.ob(f'{name}: key {k}', False, f.where, f'the order is decided by {sx(x)} instead of the metadata counts of {k}'); o = None; break
            cx.ob(f'{name}: key {k}', q['key'] == ('param', 'strategy', k), f.where, f'level {i} of the nesting orders by the counts of another key')
            cx.ob(f'{name}: key {k} ascending', d == 'asc' and nullsfirst, f.where, 'the metadata value that is most in progress comes first' if d != 'asc' else 'submissions without the key come last')
            cx.ob(f'{name}: key {k} counts', not q['problems'], f.where, '; '.join(q['problems']))
        if o is None: continue
        if ks:
            # tie-breaker: row number taken over the ordered sub-select
            tb = [x for x in o if x[0] == 'by']
            ok = bool(tb) and tb[0][2] == 'asc' and rownum(sel, tb[0][1], cx.S)
            cx.ob(f'{name}: underlying order among equals', ok, f.where, 'equal counts do not fall back on the underlying strategy')
            if not ok: continue
            o = o[o.index(tb[0]) + 1:]
        if b == 'Random':
            cx.ob(f'{name}: random', bool(o) and o[0][0] == 'split' and splitok(o[0], bound), f.where, 'the order is not a rotation from a random point')
        else:
            d = 'asc' if b == 'Oldest' else 'desc'
            ok = bool(o) and o[0][0] == 'by' and o[0][1][0] == 'col' and o[0][1][2].lower() in ('id', 'submission_id') and o[0][2] == d
            cx.ob(f'{name}: {b.lower()} first', ok, f.where, f'submissions are not offered in {d}ending order')


def splitok(s, bound):
    a, b = s[1], s[2]
    v = a[3]
    v = bound[v[1] - 1] if v[0] == 'p' else v
    rnd = isinstance(v, tuple) and any(x[0] == 'call' and 'rand' in x[1] for x in terms(v))
    up = a[1] in ('>=', '>')
    return rnd and up and a[2][0] == 'col' and a[2][2].lower() == 'random_order'


def rownum(sel, x, S):
    """x names a ROW_NUMBER() column computed over the sub-select without its own ordering."""
    if x[0] != 'col': return False
    def find(s):
        for n, c, y in s.ctes:
            for _, k in y.cores:
                for e, a in k.cols:
                    if (a or '').lower() == x[2].lower() and e[0] in ('fn', 'call', 'func', 'win', 'over') and 'row_number' in str(e).lower(): return True
            if find(y): return True
        for _, k in s.cores:
            for f in k.frm:
                if f[0][0] == 'sub':
                    for _, kk in f[0][1].cores:
                        for e, a in kk.cols:
                            if (a or '').lower() == x[2].lower() and 'row_number' in str(e).lower(): return True
                    if find(f[0][1]): return True
        return False
    return find(sel)


@rule('random-range', 'the random starting point and the random_order column range over the same values', 'C19', floor=2)
def r_range(cx):
    import re
    for t in ('chunks', 'submissions'):
        d = cx.S.ddl.get(t, '')
        m = re.search(r'random_order.*?GENERATED ALWAYS AS\s*\((.*?)\)\s*(?:STORED|VIRTUAL|NOT|,|\)|$)', d, re.S | re.I)
        cx.ob(f'{t}.random_order', 'random_order' in [c.lower() for c in cx.S.tables.get(t, [])], 'opsqueue/migrations', f'{t} has no random order')
        cx.ob(f'{t}.random_order never null', bool(re.search(r'random_order\s+INTEGER\s+NOT\s+NULL', d, re.I)), 'opsqueue/migrations', 'a row without a random order is in neither half of the random query')
