"""Rules over what is read back: statuses, lookups, row mappings (C05, C09)."""
from ..core import rule, short, wh
from ..store import *
from ..interp import show, terms, last, variant_of, calls
from .storage import STATUS_TABLE, reads_by_table, rowof, TIMECOL
from .. import sql as SQ, interp as IN, prog as PR

STRUCT_OF = {SU: 'Submission', SC: 'SubmissionCompleted', SF: 'SubmissionFailed', SX: 'SubmissionCancelled'}


def unwrap(t):
    while isinstance(t, tuple) and t and t[0] == 'field' and t[2] == '0': t = t[1]
    return t


def alias(a, x):
    """Name under which a result column is read: `"f!: T"` → f."""
    if a is None: return x[2] if x[0] == 'col' else None
    return a.split(':')[0].strip().rstrip('!?').strip()


@rule('status-row', 'a status value is built from a row of the table of that state, selected by exactly the requested id', 'C09', floor=4)
def r_status(cx):
    fn = cx.fn('db::submission_status', 'submission_status')
    if not fn: return
    for p in cx.paths(fn):
        if p.result() != 'Ok': continue
        pay = p.pay()
        if pay is None: continue
        o = variant_of(pay, p.st)
        rd = reads_by_table(cx, p)
        if o == 'Some' and pay[0] == 'v':
            v = pay[2][0]
            n = last(v[1]) if v[0] == 'v' else None
            if n not in STATUS_TABLE:
                cx.skip('status value', show(v)[:80]); continue
            rows = {rowof(x) for x in v[2][:1]} - {None}
            tabs = {t for t, s, e, f in rd if e.res in rows}
            cx.ob(f'{n} from its table', tabs == {STATUS_TABLE[n]}, fn.where, f'status {n} is built from a row of {sorted(tabs)}')
            for t, s, e, f in rd:
                if e.res in rows:
                    k, rest = keyed(f.where)
                    cx.ob(f'{n} by id', set(k) == {'id'} and k['id'][0] == 'param' and not rest, wh(e), f'the row for status {n} is not selected by exactly the requested id')
            if n == 'Failed' and len(v[2]) > 1:
                r2 = rowof(v[2][1])
                ev = [e for t, s, e, f in rd if e.res == r2 and t == CF]
                ok = False
                for t, s, e, f in rd:
                    if e.res == r2 and t == CF:
                        k, rest = keyed(f.where)
                        ok = k.get('chunk_index', ('?', 0, 0))[-1] == 'failed_chunk_id' and k.get('submission_id', ('?', 0, 0)) and not rest and set(k) == {'chunk_index', 'submission_id'}
                cx.ob('Failed with its chunk', ok, fn.where, 'a failed submission is not returned with the chunk recorded as its cause')
        elif o == 'None':
            none = [t for t, s, e, f in rd if s == 'None']
            if not rd or any(f.kind == 'sel' and not f.table for e in p.ev if e.k == 'sql' for f in effs(cx.w, e)):
                cx.skip('absence', 'the status is read by a statement over several tables'); continue
            cx.ob('absence after all four', set(none) >= {SU, SC, SF, SX}, fn.where, f'absence is reported after looking only in {none}')
            in_tx = any(e.k == 'tx_begin' for e in p.ev)
            cx.ob('in-progress looked up first', in_tx or (none and none[0] == SU), fn.where, 'the in-progress table is read after a final one: a submission that finishes in between is reported absent')


@rule('row-mapping', 'each field of a value read from the database comes from the column of the same name, and its strategic metadata from its own rows', 'C05', floor=20)
def r_mapping(cx):
    for fn, p in readers(cx):
        for e in p.ev:
            if e.k != 'sql': continue
            for f in effs(cx.w, e):
                if f.kind != 'sel' or not f.table: continue
                t = cx.S.low(f.table)
                cols = {c.lower() for c in cx.S.tables.get(t, [])}
                for x, a in f.sel.cores[0][1].cols:
                    nm = alias(a, x)
                    if nm is None: continue
                    if nm.lower() in cols:
                        cx.ob(f'{short(fn.path)}: {t}.{nm} column', x[0] == 'col' and x[2].lower() == nm.lower(), wh(e), f'{show(x)[:60]} is read as {nm}')
                    elif nm == 'strategic_metadata':
                        cx.ob(f'{short(fn.path)}: {t} strategic metadata', own_metadata(x, t), wh(e), 'strategic metadata is not collected from the rows of this submission')
        if p.result() != 'Ok': continue
        for x in terms(p.val):
            if x[0] == 'struct' and len(x) > 2 and last(str(x[1]).split('<')[0]) in STRUCT_OF_VALUES | {'Chunk', 'ChunkCompleted', 'ChunkFailed'} and rowof(x):
                for fld, v in x[2]:
                    u = unwrap(v)
                    if u[0] == 'field' and rowof(u[1]) and not calls(u):
                        cx.ob(f'{short(fn.path)}: {last(x[1])}.{fld}', u[2] == fld, fn.where, f'field {fld} gets column {u[2]}')
                    elif u[0] in ('lit', 'default') or (u[0] == 'v' and last(u[1]) == 'None'):
                        cx.ob(f'{short(fn.path)}: {last(x[1])}.{fld}', False, fn.where, f'field {fld} is not read from the stored row')


STRUCT_OF_VALUES = set(STRUCT_OF.values())




def own_metadata(x, t):
    if not (isinstance(x, tuple) and x and x[0] in ('sub', 'subq', 'select', 'scalar') or isinstance(x, SQ.Sel)): 
        sel = next((y for y in (x if isinstance(x, tuple) else ()) if isinstance(y, SQ.Sel)), None)
    else:
        sel = x if isinstance(x, SQ.Sel) else next((y for y in x if isinstance(y, SQ.Sel)), None)
    if sel is None: return False
    c = sel.cores[0][1]
    if SQ.base_table(sel) != SM or len(c.cols) != 1: return False
    e = c.cols[0][0]
    if not (e[0] == 'fn' and e[1] == 'json_group_object' and len(e[2]) == 2 and [a[2].lower() for a in e[2] if a[0] == 'col'] == ['metadata_key', 'metadata_value']): return False
    w = SQ.conj(c.where)
    if len(w) != 1 or w[0][0] != 'op' or w[0][1] != '=': return False
    got = {(y[1], y[2].lower()) for y in w[0][2:4] if y[0] == 'col'}
    return got == {(SM, 'submission_id'), (t, 'id')}


def readers(cx):
    """(function, path) of every reading function of the db modules."""
    for k, f in sorted(cx.P.fns.items()):
        if not is_db(f.path) or f.crate != 'opsqueue' or not f.is_async: continue
        if k in mutating(cx.w)[0]: continue
        if not any(n['k'] in ('mac', 'err') and 'query' in str(n.get('name') or n.get('snip') or '')[:40] for n in PR.walk(f.body)): continue
        try:
            for p in cx.paths(f): yield f, p
        except IN.Limit as e:
            cx.skip(f.path, str(e))


@rule('prefix-lookup', 'looking up by prefix searches all four submission tables for exactly that prefix and returns that row\'s id', 'C09', floor=2)
def r_prefix(cx):
    fn = cx.fn('db::lookup_id_by_prefix', 'lookup_id_by_prefix')
    if not fn: return
    for p in cx.paths(fn):
        tabs, bad, sqls = [], [], []
        for e in p.ev:
            if e.k != 'sql': continue
            for f in effs(cx.w, e):
                if f.kind != 'sel': continue
                sqls.append(e)
                for op, c in f.sel.cores:
                    t = cx.S.low(c.frm[0][0][1]) if len(c.frm) == 1 and c.frm[0][0][0] == 'tab' else None
                    w = SQ.conj(c.where)
                    ok = len(w) == 1 and w[0][0] == 'op' and w[0][1] == '=' and w[0][2][0] == 'col' and w[0][2][2].lower() == 'prefix' and w[0][3][0] == 'arg' and w[0][3][1][0] == 'param'
                    idc = c.cols and c.cols[0][0][0] == 'col' and c.cols[0][0][2].lower() == 'id'
                    if t is None: bad.append(None)
                    else:
                        tabs.append(t)
                        cx.ob(f'{t} by prefix', ok and idc and op in (None, '', 'union', 'union all'), wh(e), f'{t} is not searched for exactly the given prefix')
                if f.sel.limit is not None or f.sel.offset: bad.append('limit')
        if None in bad:
            cx.skip('prefix lookup', 'statement shape not followed'); continue
        r = p.result()
        pay = p.pay()
        if r == 'Ok' and pay is not None and variant_of(pay, p.st) == 'None':
            cx.ob('not found after all four', set(tabs) >= {SU, SC, SF, SX}, fn.where, f'a prefix is reported unknown after searching only {tabs}')
            if len(sqls) > 1: cx.ob('in-progress searched first', tabs[0] == SU, fn.where, 'a submission that finishes during the lookup is not found')
        elif r == 'Ok' and pay is not None and pay[0] == 'v':
            cx.ob('its id is returned', last(pay[1]) == 'Some' and any(pay[2][0] in (('field', ('pl', ('pl', e.res, 'Ok', 0), 'Some', 0), 'id'), ('pl', ('pl', e.res, 'Ok', 0), 'Some', 0), ('field', ('pl', e.res, 'Ok', 0), 'id'), ('pl', e.res, 'Ok', 0)) for e in sqls), fn.where, 'another value than the id found is returned')


@rule('metadata-lookup', 'for 0 to 3 pairs the statement built joins submissions once per pair on that pair (key and value) and nothing else; more results than the maximum are an error', 'C09', floor=6)
def r_metadata(cx):
    fn = cx.fn('db::lookup_ids_by_strategic_metadata', 'lookup_ids_by_strategic_metadata')
    if not fn: return
    names = [x.get('name') for x in fn.params]
    mi = [i for i, x in enumerate(fn.params) if 'Metadata' in str(x.get('ty')) or x.get('name') == 'strategic_metadata']
    xi = [i for i, x in enumerate(fn.params) if 'MaxSubmissions' in str(x.get('ty')) or 'max' in str(x.get('name'))]
    if len(mi) != 1 or len(xi) != 1: cx.skip('parameters', str(names)); return
    for n in range(4 if cx.tier == 'quick' else 6):
        pairs = tuple((('param', 'q', f'k{i}'), ('param', 'q', f'v{i}')) for i in range(n))
        args = [('param', 'q', x or f'a{i}') for i, x in enumerate(names)]
        mx = ('param', 'q', 'max')
        args[mi[0]] = ('array', tuple(('tuple', pr) for pr in pairs))
        args[xi[0]] = mx
        for p in cx.paths(fn, args=args, tag=f'meta{n}'):
            sq = [(e, f) for e in p.ev if e.k == 'sql' for f in [effs(cx.w, e)[0]]]
            if not sq: continue
            if len(sq) > 1 or sq[0][1].kind != 'sel' or not isinstance(sq[0][0].sql, str):
                cx.skip(f'{n} pairs', 'more than one statement, or a statement that is not known'); continue
            e, f = sq[0]
            raw = SQ.bind(SQ.parse(e.sql)[0].sel, e.args)
            verdict = meta_query(raw, pairs, cx.S)
            if verdict is None: cx.skip(f'{n} pairs', 'statement shape not followed'); continue
            cx.ob(f'{n} pairs: rows', verdict is True, wh(e), f'with {n} metadata pairs the lookup {verdict}')
            lim = raw.limit
            if lim is not None:
                a = lim[1] if lim[0] == 'arg' else None
                ok = a is not None and a[0] == 'bin' and a[1] == '+' and any(unwrap(y) == mx for y in a[2:4]) and any(y[0] == 'lit' and isinstance(y[1], int) and y[1] >= 1 for y in a[2:4])
                cx.ob(f'{n} pairs: limit', ok, wh(e), f'at most {show(a or lim)[:50]} rows are read, so that a result that is too large cannot be told from one that is complete')
            # verdict about size
            dec = None
            for t, v in p.st.path:
                if t[0] == 'bin' and t[1] == '<' and calls(t, 'len'):
                    l, r = t[2], t[3]
                    if unwrap(l) == mx and calls(r, 'len') and not [x for x in terms(r) if x[0] == 'bin']: dec = v             # max < len
                    elif calls(l, 'len') and r[0] == 'bin' and r[1] == '+' and any(unwrap(y) == mx for y in r[2:4]): dec = not v  # len < max + 1
                    else: dec = 'other'
            r = p.result()
            if r == 'Ok': cx.ob(f'{n} pairs: complete result', dec is False, fn.where, 'a result is returned without knowing that it is not truncated')
            elif any(last(str(x[1])) == 'TooManyMatchingSubmissions' for x in terms(p.val) if x[0] == 'v'):
                cx.ob(f'{n} pairs: too many', dec is True, fn.where, 'a result within the limit is refused')


def meta_query(raw, pairs, S):
    """True, a description of what is wrong, or None when the shape is not followed."""
    if len(raw.cores) != 1 or raw.ctes: return None
    c = raw.cores[0][1]
    if c.group or c.having or c.distinct or c.values is not None: return None
    al, conj = {}, []
    for src, a, jt, on in c.frm:
        if src[0] != 'tab': return None
        al[(a or src[1]).lower()] = S.low(src[1])
        if jt and jt not in ('inner', 'cross', ''): return 'uses an outer join, so that submissions without the metadata are returned'
        if on:
            if on[0] == 'using': return None
            conj += SQ.conj(on)
    conj += SQ.conj(c.where)
    base = [a for a, t in al.items() if t == SU]
    if len(base) != 1: return 'does not select in-progress submissions' if not base else None
    if len(c.cols) != 1 or c.cols[0][0][0] != 'col' or c.cols[0][0][2].lower() != 'id' and not (c.cols[0][0][2].lower() == 'submission_id'): return 'does not return submission ids'
    ms = {a: {} for a, t in al.items() if t == SM}
    for x in conj:
        if x[0] != 'op': return None
        if x[1] != '=': return f'compares with {x[1]}'
        l, r = x[2], x[3]
        if l[0] != 'col': l, r = r, l
        if l[0] != 'col': return None
        if r[0] == 'col':
            qs = {(l[1] or '').lower(): l[2].lower(), (r[1] or '').lower(): r[2].lower()}
            m = [q for q in qs if q in ms and qs[q] == 'submission_id']
            o = [q for q in qs if q not in m]
            if len(m) == 2: ms[m[0]]['link'] = ms[m[1]]['link'] = True
            elif len(m) == 1 and o and o[0] == base[0] and qs[o[0]] == 'id': ms[m[0]]['link'] = True
            else: return f'joins on {show(x)[:80]}'
        elif r[0] == 'arg' and (l[1] or '').lower() in ms and l[2].lower() in ('metadata_key', 'metadata_value'):
            ms[(l[1] or '').lower()][l[2].lower()] = r[1]
        else: return f'filters by {show(x)[:80]}'
    got = []
    for a, d in ms.items():
        if not d.get('link'): return 'joins metadata of other submissions'
        got.append((d.get('metadata_key'), d.get('metadata_value')))
    want = list(pairs)
    if sorted(map(repr, got)) != sorted(map(repr, want)): return f'matches {[show(x) for x in got]} instead of all given pairs'
    return True
