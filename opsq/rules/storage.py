"""Rules over the storage layer (C01-C12, C36 parts): row-set effects per transaction unit on every path."""
import re
from ..core import rule, short, wh
from ..store import *
from ..interp import show, terms as subterms, last, variant_of, norm_cond, calls
from .. import sql as SQ, interp as IN

TIMECOL = {SC: 'completed_at', SF: 'failed_at', SX: 'cancelled_at', CC: 'completed_at', CF: 'failed_at'}
ALL = (CH, CC, CF, SU, SC, SF, SX, SM)


def each_unit(cx, committed=True):
    for o in ops(cx):
        for p, us in o.units:
            for u in us:
                if not committed or u.committed: yield o, p, us, u


def subj(s):
    return f'{short(s.fn)}: {s.eff.kind} {s.eff.table}'


def moves(u, src, dests):
    """Pairs (insert-select from src, delete from src) over the same rows, and what is left unpaired."""
    ins = [s for s in u.get('ins', *dests) if s.eff.src and (s.eff.src[0] or '').lower() == src]
    dele = u.get('del', src)
    pairs, used = [], set()
    for d in dele:
        k = wkey(d.eff.where)
        m = [i for i in ins if u.stms.index(i) < u.stms.index(d) and wkey(i.eff.src[1]) == k and id(i) not in used and not i.eff.sel.limit and not getattr(d.eff, 'limit', None)]
        if m:
            used.add(id(m[0])); used.add(id(d))
            pairs.append((m[0], d))
    return pairs, [i for i in ins if id(i) not in used], [d for d in dele if id(d) not in used]


def age_ok(w, s):
    """Deletion condition of a finished table is exactly `its time column < julianday(cutoff)`; returns the cutoff term."""
    t = s.eff.table
    c = s.eff.where
    if len(c) != 1 or c[0][0] != 'op' or c[0][1] != '<': return None
    a, b = c[0][2], c[0][3]
    if a[0] == 'col' and a[2].lower() == TIMECOL[t] and b[0] == 'fn' and b[1] == 'julianday' and len(b[2]) == 1 and b[2][0][0] == 'arg':
        return b[2][0][1]
    return None


# ------------------------------------------------------------------------------------------------ C03
@rule('chunk-move-pairing', 'in every committed unit each DELETE FROM chunks is preceded by exactly one INSERT … SELECT of the same rows into chunks_completed/chunks_failed, and vice versa', 'C03', floor=6)
def r_chunk_pairs(cx):
    for o, p, us, u in each_unit(cx):
        pairs, li, ld = moves(u, CH, (CC, CF))
        for i, d in pairs:
            cx.ob(f'{short(o.fn.path)}: {subj(d)}', True, wh(d.ev))
            cx.ob(f'{short(o.fn.path)}: {subj(i)}', True, wh(i.ev))
            n = [x for x in u.get('ins', CC, CF) if x.eff.src and wkey(x.eff.src[1]) == wkey(d.eff.where) and x is not i and u.stms.index(x) < u.stms.index(d)]
            cx.ob(f'{short(o.fn.path)}: once {subj(i)}', not n, wh(i.ev), 'the same chunks are copied twice before they are removed')
        for i in li: cx.ob(f'{short(o.fn.path)}: {subj(i)}', False, wh(i.ev), 'chunks are copied but not removed from the pending set in the same atomic step (or other rows are removed)')
        for d in ld: cx.ob(f'{short(o.fn.path)}: {subj(d)}', False, wh(d.ev), 'pending chunks are deleted without being copied to a final set in the same atomic step')


@rule('chunk-move-identity', 'a moved chunk keeps submission and index, and its input when it fails', 'C03', floor=4)
def r_chunk_identity(cx):
    for o, p, us, u in each_unit(cx, committed=False):
        for s in u.get('ins', CC, CF):
            e = s.eff
            if not e.src:
                cx.ob(f'{subj(s)} source', False, wh(s.ev), 'a finished chunk is inserted that is not taken from the pending set')
                continue
            keys = {}
            for c in e.src[1]:
                if c[0] == 'op' and c[1] == '=' and c[2][0] == 'col': keys[c[2][2].lower()] = c[3]
            for col in ('submission_id', 'chunk_index') + (('input_content',) if e.table == CF else ()):
                v = e.set.get(col)
                ok = v is not None and ((v[0] == 'col' and v[2].lower() == col and (v[1] or '').lower() in (CH, '')) or (col != 'input_content' and v == keys.get(col)))
                cx.ob(f'{subj(s)} {col}', ok, wh(s.ev), f'{e.table}.{col} is not taken from the same column of the pending chunk')


@rule('chunk-writes', 'no statement rewrites a chunk identity or content, replaces rows on conflict, or re-creates a pending chunk from a finished one', 'C03', floor=5)
def r_chunk_writes(cx):
    for o, p, us, u in each_unit(cx, committed=False):
        for s in u.muts(CH, CC, CF):
            e = s.eff
            if e.kind == 'upd':
                bad = [c for c in e.set if c in ('submission_id', 'chunk_index', 'input_content', 'output_content', 'failure', 'skipped')]
                cx.ob(subj(s), not bad and not (e.table != CH and e.set), wh(s.ev), f'updates {e.table}.{bad or list(e.set)}')
            elif e.kind == 'ins':
                cx.ob(subj(s), not e.conflict, wh(s.ev), 'INSERT with a conflict clause can drop or overwrite a chunk')
                if e.table == CH: cx.ob(subj(s) + ' new', not e.src, wh(s.ev), 'pending chunks are created from stored rows')
            elif e.kind == 'del' and e.table in (CC, CF):
                cx.ob(subj(s), age_ok(cx.w, s) is not None, wh(s.ev), 'finished chunks are deleted by something else than their age')


# ------------------------------------------------------------------------------------------------ C04
@rule('submission-move-pairing', 'in every committed unit each DELETE FROM submissions is preceded by exactly one INSERT … SELECT of that one submission into a final table, and vice versa', 'C04', floor=6)
def r_sub_pairs(cx):
    for o, p, us, u in each_unit(cx):
        pairs, li, ld = moves(u, SU, TERMINAL)
        for i, d in pairs:
            k, rest = keyed(d.eff.where)
            cx.ob(f'{short(o.fn.path)}: {subj(i)}', set(k) == {'id'} and not rest, wh(d.ev), 'more than the one submission is moved')
            v = i.eff.set.get('id')
            cx.ob(f'{short(o.fn.path)}: {subj(i)} id', v is not None and v[0] == 'col' and v[2].lower() == 'id', wh(i.ev), 'the moved submission gets another identifier')
            n = [x for x in u.get('ins', *TERMINAL) if x is not i and x.eff.src and wkey(x.eff.src[1]) == wkey(d.eff.where)]
            cx.ob(f'{short(o.fn.path)}: one target {subj(i)}', not n, wh(i.ev), 'a submission is copied into two final states')
        for i in li: cx.ob(f'{short(o.fn.path)}: {subj(i)}', False, wh(i.ev), 'a submission is copied to a final state but not removed from the in-progress set in the same atomic step (or another one is removed)')
        for d in ld: cx.ob(f'{short(o.fn.path)}: {subj(d)}', False, wh(d.ev), 'an in-progress submission is deleted without reaching a final state in the same atomic step')


@rule('finished-has-no-pending', 'a unit that fails or cancels a submission moves all of its pending chunks in the same unit', 'C04', 'C08', floor=1)
def r_drain(cx):
    for o, p, us, u in each_unit(cx):
        for i in u.get('ins', SF, SX):
            if cx.prop == 'C08' and i.eff.table != SX: continue
            if not i.eff.src: continue
            k, rest = keyed(i.eff.src[1])
            sid = k.get('id')
            ok = any(wkey(d.eff.where) == wkey([('op', '=', ('col', None, 'submission_id'), ('arg', sid))]) for d in u.get('del', CH))
            cx.ob(f'{short(o.fn.path)}: {subj(i)}', ok, wh(i.ev), 'the submission leaves the in-progress state while pending chunks of it stay in the backlog')


@rule('final-states-final', 'finished submissions are never updated, re-opened or overwritten and only removed by age', 'C04', floor=5)
def r_final(cx):
    for o, p, us, u in each_unit(cx, committed=False):
        for s in u.muts(SU, *TERMINAL):
            e = s.eff
            if e.kind == 'upd':
                bad = [c for c in e.set if e.table != SU or c != 'chunks_done']
                cx.ob(subj(s), not bad, wh(s.ev), f'updates {e.table}.{bad}')
            elif e.kind == 'ins':
                cx.ob(subj(s), not e.conflict, wh(s.ev), 'INSERT with a conflict clause can overwrite a state')
                if e.table == SU: cx.ob(subj(s) + ' new', not e.src, wh(s.ev), 'an in-progress submission is created from a stored row')
                elif not e.src: cx.ob(subj(s) + ' source', False, wh(s.ev), 'a finished submission is created that was not in progress')
            elif e.kind == 'del' and e.table in TERMINAL:
                cx.ob(subj(s), age_ok(cx.w, s) is not None, wh(s.ev), 'finished submissions are deleted by something else than their age')


# ------------------------------------------------------------------------------------------------ C05
@rule('final-record-columns', 'every column a final table shares with submissions is copied from the same column; its time is the current time; the failing chunk is the recorded one', 'C05', floor=15)
def r_cols(cx):
    for o, p, us, u in each_unit(cx, committed=False):
        for s in u.get('ins', *TERMINAL):
            e = s.eff
            if not e.src: continue
            shared = [c for c in cx.S.tables.get(e.table, []) if c in cx.S.tables.get(SU, []) and c not in cx.S.gen.get(e.table, ())]
            for c in shared:
                v = e.set.get(c.lower())
                cx.ob(f'{subj(s)}.{c}', v is not None and v[0] == 'col' and v[2].lower() == c.lower() and (v[1] or '').lower() in (SU, ''), wh(s.ev),
                      f'{e.table}.{c} ' + ('is not filled in' if v is None else f'gets {show(v)[:60]} instead of the submission\'s {c}'))
            tc = TIMECOL[e.table]
            v = e.set.get(tc)
            ok = v is not None and v[0] == 'fn' and v[1] == 'julianday' and len(v[2]) == 1 and v[2][0][0] == 'arg' and is_now(v[2][0][1])
            cx.ob(f'{subj(s)}.{tc}', ok, wh(s.ev), f'{e.table}.{tc} is not the time of the transition')
            if e.table == SF and u.committed:
                v = e.set.get('failed_chunk_id')
                cause = [x for x in u.get('ins', CF) if x.eff.src and 'chunk_index' in keyed(x.eff.src[1])[0]]
                ok = v is not None and v[0] == 'arg' and any(keyed(x.eff.src[1])[0].get('chunk_index') == v[1] and keyed(x.eff.src[1])[0].get('submission_id') == keyed(e.src[1])[0].get('id') for x in cause)
                cx.ob(f'{subj(s)}.failed_chunk_id', ok, wh(s.ev), 'the recorded failing chunk is not the chunk that is moved as the cause')
        for s in u.get('ins', CC, CF):
            v = s.eff.set.get(TIMECOL[s.eff.table])
            ok = v is not None and v[0] == 'fn' and v[1] == 'julianday' and v[2][0][0] == 'arg' and is_now(v[2][0][1])
            cx.ob(f'{subj(s)}.{TIMECOL[s.eff.table]}', ok, wh(s.ev), 'the time of the chunk is not the time of the transition')


def is_now(t):
    return isinstance(t, tuple) and t and t[0] == 'call' and str(t[1]).split('::')[-1] == 'now'


# ------------------------------------------------------------------------------------------------ C06
def done_updates(u):
    return [s for s in u.get('upd', SU) if 'chunks_done' in s.eff.set]


@rule('done-count', 'each completed chunk raises chunks_done of its own submission by exactly one in the same unit, and nothing else changes it', 'C06', floor=3)
def r_done(cx):
    for o, p, us, u in each_unit(cx):
        ups = done_updates(u)
        comp = u.get('ins', CC)
        for s in ups:
            v = s.eff.set['chunks_done']
            inc = v[0] == 'op' and v[1] == '+' and {v[2][0], v[3][0]} == {'col', 'lit'} and [x for x in (v[2], v[3]) if x[0] == 'lit'][0][1] == 1 and [x for x in (v[2], v[3]) if x[0] == 'col'][0][2].lower() == 'chunks_done'
            cx.ob(f'{subj(s)} step', inc, wh(s.ev), f'chunks_done is set to {show(v)[:60]} instead of being raised by one')
            k, rest = keyed(s.eff.where)
            m = [c for c in comp if c.eff.src and keyed(c.eff.src[1])[0].get('submission_id') == k.get('id') and set(keyed(c.eff.src[1])[0]) == {'submission_id', 'chunk_index'}]
            cx.ob(f'{subj(s)} target', set(k) == {'id'} and not rest and len(m) == 1, wh(s.ev), 'chunks_done changes for a submission for which not exactly one chunk was completed in this step')
        cx.ob(f'{short(o.fn.path)}: one update per completed chunk', len(ups) == len(comp), wh((comp or ups)[0].ev) if comp or ups else '', f'{len(comp)} completed chunk(s) but {len(ups)} update(s) of chunks_done in one unit')


@rule('not-pending-is-error', 'an outcome of a chunk is committed only if the chunk row was proven to be pending', 'C06', 'C07', floor=1)
def r_pending(cx):
    for o, p, us, u in each_unit(cx):
        single = [s for s in u.live if s.eff.kind in ('del', 'upd') and s.eff.table == CH and set(keyed(s.eff.where)[0]) == {'submission_id', 'chunk_index'}]
        upd = [s for s in u.live if s.eff.kind == 'upd' and s.eff.table == CH]
        if cx.prop == 'C06':
            if not u.get('ins', CC): continue
            single = [s for s in single if s.eff.kind == 'del']
            first = min([u.stms.index(s) for s in single], default=0)
            ok = any(known_by(cx.w, p, s) for s in single)
            cx.ob(f'{short(o.fn.path)}: completion', ok, wh(single[0].ev) if single else '', 'completing a chunk that is not pending is committed as if it had been')
        else:
            if not upd: continue
            ok = any(known_by(cx.w, p, s) for s in single)
            cx.ob(f'{short(o.fn.path)}: failure report', ok, wh(upd[0].ev), 'a failure report for a chunk that is not pending is committed as if it had been')


def eq_cond(p, sa, sb):
    """Value of `row.sa == row.sb` decided on the path after reading a row; None if not decided. Returns (value, row, index)."""
    for idx, (t, v) in enumerate(p.st.path):
        if isinstance(t, tuple) and t and t[0] == 'bin' and t[1] in ('==', '<') and all(isinstance(x, tuple) for x in t[2:4]):
            f = {leaf(t[2]), leaf(t[3])}
            if f == {sa, sb}: return t[1], v, t, idx
    return None


def leaf(t):
    while isinstance(t, tuple) and t and t[0] == 'field' and t[2] == '0': t = t[1]
    if isinstance(t, tuple) and t and t[0] == 'v' and len(t[2]) == 1: return leaf(t[2][0])
    return t[2] if isinstance(t, tuple) and t and t[0] == 'field' else None


def rowof(t):
    for x in subterms(t):
        if len(x) == 3 and x[0] == 'sqlres': return x
    return None


def completion_guard(cx, p, u, i):
    """Is the move to submissions_completed justified by chunks_done == chunks_total read in the same unit (or tested by SQL)?"""
    for c in i.eff.src[1]:
        if c[0] == 'op' and c[1] == '=' and c[2][0] == 'col' and c[3][0] == 'col' and {c[2][2].lower(), c[3][2].lower()} == {'chunks_done', 'chunks_total'}: return True
    e = eq_cond(p, 'chunks_done', 'chunks_total')
    if not e: return False
    op, v, t, _ = e
    if op == '==' and v is not True: return False
    if op == '<' and not (leaf(t[2]) == 'chunks_done' and v is False): return False
    r = rowof(t)
    src = [s for s in u.stms if s.ev.res == r]
    if not src or src[0].eff.kind not in ('sel', 'upd'): return False
    return set(keyed(src[0].eff.where)[0].values()) == set(keyed(i.eff.src[1])[0].values())


@rule('complete-when-done', 'a submission moves to completed only under chunks_done == chunks_total of that submission, read in the same unit, and a unit that completes a chunk always takes that decision', 'C06', floor=2)
def r_complete(cx):
    for o, p, us, u in each_unit(cx):
        for i in u.get('ins', SC):
            if not i.eff.src: continue
            cx.ob(f'{short(o.fn.path)}: {subj(i)}', completion_guard(cx, p, u, i), wh(i.ev), 'a submission is completed without having compared its done and total counts')
        if u.get('ins', CC) and done_updates(u):
            up = done_updates(u)[-1]
            e = eq_cond(p, 'chunks_done', 'chunks_total')
            moved = bool(u.get('ins', SC))
            ok = moved or any(c for s in u.get('ins', SC) for c in ())
            if not moved and e:
                r = rowof(e[2])
                src = [s for s in u.stms if s.ev.res == r]
                after = bool(src) and u.stms.index(src[0]) >= u.stms.index(up)
                ok = after and ((e[0] == '==' and e[1] is False) or (e[0] == '<' and e[1] is True))
            cx.ob(f'{short(o.fn.path)}: decision after completion', ok, wh(up.ev), 'a chunk is completed without deciding, after its count was raised and in the same step, whether the submission is done')


# ------------------------------------------------------------------------------------------------ C07
@rule('retry-count', 'each failure report raises retries of exactly the reported chunk by one, in the unit that holds its consequences', 'C07', floor=2)
def r_retry(cx):
    for o, p, us, u in each_unit(cx):
        for s in u.get('upd', CH):
            if 'retries' not in s.eff.set: continue
            v = s.eff.set['retries']
            inc = v[0] == 'op' and v[1] == '+' and {v[2][0], v[3][0]} == {'col', 'lit'} and [x for x in (v[2], v[3]) if x[0] == 'lit'][0][1] == 1 and [x for x in (v[2], v[3]) if x[0] == 'col'][0][2].lower() == 'retries'
            cx.ob(f'{subj(s)} step', inc, wh(s.ev), f'retries is set to {show(v)[:60]}')
            k, rest = keyed(s.eff.where)
            good = set(k) == {'submission_id', 'chunk_index'} and not rest
            roots_ = {x for t in k.values() for x in subterms(t) if x[0] == 'param'}
            cx.ob(f'{subj(s)} target', good and len(roots_) >= 1 and len([x for x in u.get('upd', CH)]) == 1, wh(s.ev), 'the retry is not charged to exactly the reported chunk, exactly once')
    n = {s.ev.node['sp'] for o, p, us, u in each_unit(cx, False) for s in u.get('upd', CH)}
    cx.ob('retries updated somewhere', bool(n), '', 'no statement raises the retry count')


@rule('retry-verdict', 'after the report: retries >= maximum ⇒ the submission fails in the same unit and the reporter learns it was final; otherwise the chunk stays pending and the reporter learns it was not', 'C07', floor=3)
def r_verdict(cx):
    for o, p, us, u in each_unit(cx):
        ups = [s for s in u.get('upd', CH) if 'retries' in s.eff.set]
        if not ups: continue
        up = ups[0]
        res = ('pl', up.ev.res, 'Ok', 0)
        dec = None
        for t, v in p.st.path:
            if isinstance(t, tuple) and t[0] == 'bin' and t[1] in ('<', '==') and res in set(subterms(t)): dec = (t, v); break
        failed = bool(u.get('ins', SF))
        lhs_is_retries = dec and dec[0][1] == '<' and leaf(dec[0][2]) == 'retries'
        maxi = dec and dec[0][1] == '<' and dec[0][3]
        ismax = bool(maxi) and maxi[0] == 'param'
        # `retries < max` is the canonical form of both `retries >= max` (negated) and `max > retries`
        ok = bool(lhs_is_retries and ismax and (dec[1] is False) == failed)
        if dec is None or not lhs_is_retries or not ismax:
            cx.ob(f'{short(o.fn.path)}: threshold', False, wh(up.ev), f'the decision is not taken by comparing the updated retry count with the configured maximum ({show(dec[0])[:80] if dec else "no comparison"})')
            continue
        cx.ob(f'{short(o.fn.path)}: threshold', True, wh(up.ev))
        cx.ob(f'{short(o.fn.path)}: {"below maximum" if dec[1] else "maximum reached"}', ok, wh(up.ev),
              'the submission is failed although retries remain' if failed else 'the retry budget is used up but the submission is not failed in the same step')
        if p.result() == 'Ok':
            cx.ob(f'{short(o.fn.path)}: verdict reported when {"below maximum" if dec[1] else "maximum reached"}', p.pay() == ('lit', failed), wh(up.ev), f'reporter is told {show(p.pay()) if p.pay() else "?"}')
        if not failed:
            cx.ob(f'{short(o.fn.path)}: stays pending', not u.get('del', CH), wh(up.ev), 'a chunk with retries left is removed from the backlog')
            continue
        k = keyed(up.eff.where)[0]
        causes = [s for s in u.get('ins', CF) if s.eff.src and wkey(s.eff.src[1]) == wkey(up.eff.where)]
        cx.ob(f'{short(o.fn.path)}: cause recorded', len(causes) == 1, wh(up.ev), 'the reported chunk is not recorded as the failing one')
        for c in causes:
            f = c.eff.set.get('failure')
            cx.ob(f'{short(o.fn.path)}: failure text', f is not None and f[0] == 'arg' and f[1][0] == 'param' and f[1] not in set(x for t in k.values() for x in subterms(t)), wh(c.ev), 'the reported failure text is not what is stored')
            sk = c.eff.set.get('skipped')
            cx.ob(f'{short(o.fn.path)}: cause not skipped', sk is None or sk == ('lit', 0), wh(c.ev), 'the failing chunk is marked as skipped')
        rest = [s for s in u.get('ins', CF) if s not in causes]
        for r in rest:
            kk, rr = keyed(r.eff.src[1])
            cx.ob(f'{short(o.fn.path)}: rest skipped', set(kk) == {'submission_id'} and kk['submission_id'] == k['submission_id'] and r.eff.set.get('skipped') == ('lit', 1), wh(r.ev), 'the remaining chunks are not marked as skipped')
            cx.ob(f'{short(o.fn.path)}: cause before rest', all(u.stms.index(c) < u.stms.index(r) for c in causes), wh(r.ev), 'the remaining chunks are skipped before the failing chunk is recorded, so that it is recorded as skipped')
        cx.ob(f'{short(o.fn.path)}: rest exists', len(rest) == 1, wh(up.ev), 'the remaining pending chunks are not skipped')


# ------------------------------------------------------------------------------------------------ C08
STATUS_TABLE = {'InProgress': SU, 'Completed': SC, 'Failed': SF, 'Cancelled': SX}


def reads_by_table(cx, p):
    """[(table, 'Some'|'None'|'Err'|None, event, eff)] of single-row SELECTs on the path, in order."""
    out = []
    for i, e in enumerate(p.ev):
        if e.k != 'sql': continue
        for f in effs(cx.w, e):
            if f.kind == 'sel' and f.table:
                v = p.st.vari.get(e.res)
                if v == 'Ok' and e.how == 'fetch_optional': v = p.st.vari.get(('pl', e.res, 'Ok', 0))
                out.append((cx.S.low(f.table), v, e, f))
    return out


@rule('cancel-outcome', 'cancel reports success exactly when the in-progress row was moved; otherwise it changes nothing and names the state the submission is in, or absence only if it is in none', 'C08', floor=5)
def r_cancel(cx):
    for o in ops(cx):
        if not any(u.get('ins', SX) for p, us in o.units for u in us): continue
        params = [x.get('name') for x in o.fn.params]
        for p, us in o.units:
            un = [u for u in us if u.committed and u.muts()]
            r = p.result()
            if r == 'Ok':
                cx.ob(f'{short(o.fn.path)}: success', len(un) == 1 and len(un[0].get('ins', SX)) == 1, o.fn.where, 'success is reported although nothing was cancelled')
                for u in un:
                    for s in u.get('del', SU):
                        cx.ob(f'{short(o.fn.path)}: row moved', known_by(cx.w, p, s), wh(s.ev), 'success is reported without knowing that the submission was in progress')
                        k, _ = keyed(s.eff.where)
                        cx.ob(f'{short(o.fn.path)}: target', k.get('id', ('?',))[0] == 'param', wh(s.ev), 'another submission than the requested one is cancelled')
            elif r == 'Err':
                cx.ob(f'{short(o.fn.path)}: refusal changes nothing', not un, o.fn.where, 'cancellation is refused but changes were committed')
                vs = [x for x in subterms(p.val) if x[0] == 'v' and 'SubmissionNotCancellable' in str(x[1])]
                nf = [x for x in subterms(p.val) if x[0] in ('v', 'struct') and last(str(x[1])) == 'SubmissionNotFound']
                rd = reads_by_table(cx, p)
                found = [t for t, v, e, f in rd if v == 'Some']
                if vs:
                    n = last(vs[0][1])
                    cx.ob(f'{short(o.fn.path)}: refused as {n}', found and STATUS_TABLE.get(n) == found[0], o.fn.where, f'a submission found in {found} is reported as {n}')
                    rows = {rowof(x) for x in vs[0][2] if rowof(x)}
                    row_tab = {t for t, v, e, f in rd if e.res in rows}
                    cx.ob(f'{short(o.fn.path)}: data of {n}', STATUS_TABLE.get(n) in row_tab, o.fn.where, 'the reported submission is not the one that was found')
                elif nf:
                    cx.ob(f'{short(o.fn.path)}: absent', {t for t, v, e, f in rd if v == 'None'} >= set(TERMINAL) and not found, o.fn.where, 'absence is reported without having looked in every state')


# ------------------------------------------------------------------------------------------------ C10
@rule('cleanup-age', 'every deletion of finished data is restricted to rows whose finishing time is before one common cutoff = now - configured age; metadata goes only with such submissions', 'C10', floor=8)
def r_age(cx):
    for o, p, us, u in each_unit(cx, committed=False):
        cuts = set()
        dels = u.get('del', *TERMINAL, CC, CF, SM)
        for s in dels:
            if s.eff.table != SM:
                c = age_ok(cx.w, s)
                cx.ob(subj(s), c is not None, wh(s.ev), f'{s.eff.table} rows are deleted without "{TIMECOL[s.eff.table]} < cutoff"')
                if c is not None: cuts.add(c)
            else:
                ok, src = meta_age(cx, s)
                cx.ob(f'{subj(s)} of {src}', ok is not None, wh(s.ev), 'metadata is deleted for submissions that are not deleted by age')
                if ok is not None:
                    cuts.add(ok)
                    if u.committed:
                        later = [d for d in u.get('del', src) if u.stms.index(d) > u.stms.index(s)]
                        cx.ob(f'{subj(s)} with {src}', bool(later), wh(s.ev), 'metadata is deleted but its submission is not, or is already gone when the metadata is looked up')
        if dels:
            cx.ob(f'{short(o.fn.path)}: one cutoff', len(cuts) <= 1, wh(dels[0].ev), 'deletions of one run use different cutoffs')
            for c in cuts:
                sub = list(subterms(c))
                ok = (c[0] == 'bin' and c[1] == '-' and is_now(c[2]) and any(x[0] == 'param' for x in subterms(c[3]))) or \
                     (c[0] == 'call' and str(c[1]).split('::')[-1] in ('sub', 'checked_sub_signed') and is_now(c[2][0]) and c[2][1][0] == 'param') or \
                     (c[0] == 'pl' and c[1][0] == 'call' and 'checked_sub' in str(c[1][1]) and is_now(c[1][2][0]))
                cx.ob(f'{short(o.fn.path)}: cutoff', ok or c[0] == 'param', wh(dels[0].ev), f'the cutoff is {show(c)[:80]}, not now minus the configured age')
                cx.ob(f'{short(o.fn.path)}: cutoff scale', not any(x[0] == 'bin' and x[1] in '*/' for x in sub), wh(dels[0].ev), 'the configured age is scaled')
        if u.get('del', *TERMINAL):
            for t in TERMINAL:
                cx.w.memo.setdefault('cleaned', set()).update([t] if u.get('del', t) else [])


def meta_age(cx, s):
    w = s.eff.where
    if len(w) != 1 or w[0][0] != 'in': return None, '?'
    col, src = w[0][1], w[0][2]
    sel = src if isinstance(src, SQ.Sel) else src[1] if isinstance(src, tuple) and len(src) > 1 and isinstance(src[1], SQ.Sel) else None
    if sel is None or col[0] != 'col' or col[2].lower() != 'submission_id' or len(sel.cores) != 1 or sel.limit: return None, '?'
    c = sel.cores[0][1]
    t = SQ.base_table(sel)
    t = cx.S.low(t) if t else None
    if t not in TERMINAL or len(c.cols) != 1 or c.cols[0][0][0] != 'col' or c.cols[0][0][2].lower() != 'id': return None, str(t)
    fake = type('F', (), {})()
    fake.eff = SQ.Eff('del', t, where=SQ.conj(c.where))
    return age_ok(cx.w, fake), t


@rule('cleanup-atomic', 'all deletions of a cleanup run are one transaction and never touch in-progress submissions, pending chunks or their metadata', 'C10', floor=2)
def r_cleanup_tx(cx):
    for o in ops(cx):
        if not any(s.eff.kind == 'del' and s.eff.table in TERMINAL for p, us in o.units for u in us for s in u.stms): continue
        for p, us in o.units:
            un = [u for u in us if u.muts()]
            cx.ob(f'{short(o.fn.path)}: one transaction', len(un) <= 1 and all(u.kind in ('tx', 'caller') for u in un), o.fn.where, 'the deletions of one cleanup run are not one transaction')
            for u in un:
                cx.ob(f'{short(o.fn.path)}: nothing in progress', not u.muts(SU, CH), o.fn.where, 'cleanup changes in-progress submissions or pending chunks')


@rule('cleanup-loop', 'cleanup runs periodically; a failing run is logged and the loop goes on', 'C10', floor=2)
def r_cleanup_loop(cx):
    found = 0
    for o in ops(cx):
        if not any(s.eff.kind == 'del' and s.eff.table in TERMINAL for p, us in o.units for u in us for s in u.stms): continue
        if not any(e.k == 'loop' for p, us in o.units for e in p.ev): continue
        found += 1
        for p, us in o.units:
            fail = any(u.kind == 'tx' and u.end not in ('commit', None) for u in us) or any(t[0] == 'is' and t[2] == 'Ok' and v is False for t, v in p.st.path if isinstance(t, tuple)) or any(v == 'Err' for v in p.st.vari.values())
            cx.ob(f'{short(o.fn.path)}: keeps running', p.out == 'loop', o.fn.where, f'a {"failing" if fail else "successful"} cleanup run ends the cleanup task ({p.out})')
            if fail:
                cx.ob(f'{short(o.fn.path)}: failure logged', any(e.k == 'log' and e.level in ('error', 'warn') for e in p.ev), o.fn.where, 'a failing cleanup run goes unreported')
            cx.ob(f'{short(o.fn.path)}: waits between runs', any(e.k == 'call' and last(e.path) in ('sleep', 'tick', 'sleep_until') for e in p.ev), o.fn.where, 'the cleanup loop does not wait between runs')
    cx.ob('periodic cleanup exists', found >= 1, '', 'no periodic task deletes old submissions')


# ------------------------------------------------------------------------------------------------ C01
@rule('insert-one-unit', 'a submission, its chunks and its metadata are inserted in one transaction unit, and a submission without chunks is completed in that unit', 'C01', floor=4)
def r_insert(cx):
    for o in ops(cx):
        if not any(u.get('ins', SU) for p, us in o.units for u in us): continue
        full = False
        for p, us in o.units:
            for u in us:
                ch, me, su = u.get('ins', CH), u.get('ins', SM), u.get('ins', SU)
                if not (ch or me or su): continue
                cx.ob(f'{short(o.fn.path)}: transaction', u.kind in ('tx', 'caller'), wh((ch + me + su)[0].ev), 'part of a submission is inserted outside the transaction that inserts it')
                if u.committed:
                    cx.ob(f'{short(o.fn.path)}: chunks with submission', bool(su) or not ch, wh((ch or su or me)[0].ev), 'chunks are committed without their submission')
                    cx.ob(f'{short(o.fn.path)}: metadata with submission', bool(su) or not me, wh((me or su or ch)[0].ev), 'metadata is committed without its submission')
                    cx.ob(f'{short(o.fn.path)}: one submission', len(su) <= 1, wh((su or ch or me)[0].ev), 'several submissions are inserted at once')
                    full = full or bool(su and ch and me)
            r = p.result()
            cu = [u for u in us if u.committed and u.get('ins', SU)]
            if r == 'Ok':
                cx.ob(f'{short(o.fn.path)}: success means committed', len(cu) == 1, o.fn.where, 'an identifier is returned although the submission was not committed')
                for u in cu:
                    i = u.get('ins', SU)[0]
                    v = i.eff.set.get('id')
                    cx.ob(f'{short(o.fn.path)}: identifier', v is not None and v[0] == 'arg' and p.pay() == v[1], wh(i.ev), 'the identifier returned is not the one that was stored')
                    if any(is_empty_test(t, o) and v is False for t, v in p.st.path): continue
                    e = eq_cond(p, 'chunks_done', 'chunks_total')
                    dec = bool(u.get('ins', SC)) or (e is not None and e[1] is (e[0] == '<' and leaf(e[2][2]) == 'chunks_done')) or any(t == SU and v == 'None' for t, v, _, _ in reads_by_table(cx, p)) or any(gone(p, x) for x in u.stms if x.eff.table == SU)
                    cx.ob(f'{short(o.fn.path)}: empty submission completes', dec, wh(i.ev), 'a submission without chunks is committed without being completed in the same step')
            else:
                cx.ob(f'{short(o.fn.path)}: failure leaves nothing', not cu or r not in ('Err',), o.fn.where, 'an error is returned although the submission was committed')
            for e in p.ev:
                if e.k == 'endfor': cx.ob(f'{short(o.fn.path)}: every element inserted', e.how == 'next', wh(e), 'the loop over the elements to insert can stop early')
        cx.ob(f'{short(o.fn.path)}: all parts', full, o.fn.where, 'no committed unit contains submission, metadata and chunks together')


def gone(p, s):
    """The statement reported on this path that its row does not exist."""
    return p.st.vari.get(('pl', s.ev.res, 'Err', 0)) == 'RowNotFound'


def is_empty_test(t, o):
    """Condition that tests whether there are chunks at all."""
    t2, neg = norm_cond(t) if isinstance(t, tuple) and t and isinstance(t[0], str) else (t, False)
    if not (isinstance(t2, tuple) and t2): return False
    if t2[0] == 'bin' and t2[1] == '==':
        a, b = t2[2], t2[3]
        lits = [x for x in (a, b) if x[0] == 'lit' and x[1] == 0 or x == ('v', 'common::chunk::ChunkIndex', (('lit', 0),))]
        other = [x for x in (a, b) if x not in lits]
        return bool(lits and other and any(y[0] == 'call' and last(str(y[1])) == 'len' for y in subterms(other[0])))
    if t2[0] == 'call' and last(str(t2[1])) == 'is_empty': return True
    return False


# ------------------------------------------------------------------------------------------------ C02
LAZY_OK = {'map', 'enumerate', 'collect', 'peekable', 'into_iter', 'iter', 'by_ref', 'collect_vec', 'cloned', 'copied', 'zip', 'to_vec', 'chunks', 'from_iter'}


@rule('stored-as-supplied', 'each column of the new submission and its metadata gets the supplied value of that name; the total is the number of supplied chunks and the done count zero', 'C02', floor=8)
def r_stored(cx):
    otel = {}
    for o in ops(cx):
        for p, us in o.units:
            for u in us:
                for s in u.get('ins', SU):
                    e = s.eff
                    A = {c: (v[1] if v[0] == 'arg' else v) for c, v in e.set.items()}
                    want = {c for c in cx.S.tables.get(SU, []) if c not in cx.S.gen.get(SU, ())}
                    for c in sorted(want): cx.ob(f'{subj(s)}.{c} given', c in A, wh(s.ev), f'submissions.{c} is not stored')
                    used = {}
                    for c in ('prefix', 'metadata', 'chunk_size'):
                        if c not in A: continue
                        t = A[c]
                        while t[0] == 'field' and t[2] == '0': t = t[1]
                        ps = [x for x in [t] if x[0] == 'param']
                        ok = bool(ps) or (t[0] == 'field' and t[2] == c)
                        nm = t[2] if t[0] in ('param', 'field') else None
                        clash = nm in ('prefix', 'metadata', 'chunk_size') and nm != c
                        cx.ob(f'{subj(s)}.{c}', ok and not clash and t not in used.values(), wh(s.ev), f'submissions.{c} gets {show(A[c])[:60]} instead of the supplied {c}')
                        used[c] = t
                    if 'chunks_done' in A: cx.ob(f'{subj(s)}.chunks_done', is_zero(A['chunks_done']) or leaf(A['chunks_done']) == 'chunks_done', wh(s.ev), 'a new submission does not start with zero chunks done')
                    if 'chunks_total' in A:
                        tt = A['chunks_total']
                        lens = [x for x in subterms(tt) if x[0] == 'call' and last(str(x[1])) == 'len']
                        arith = [x for x in subterms(tt) if x[0] == 'bin']
                        cx.ob(f'{subj(s)}.chunks_total', (len(lens) == 1 and lens[0][2][0][0] == 'param' and not arith) or leaf(tt) == 'chunks_total', wh(s.ev), f'chunks_total is {show(tt)[:70]}, not the number of supplied chunks')
                        if lens: cx.w.memo['chunks_param'] = lens[0][2][0]
                    if 'otel_trace_carrier' in A:
                        otel.setdefault(subj(s), []).append((A['otel_trace_carrier'], s))
                sid = [s.eff.set['id'] for s in u.get('ins', SU) if 'id' in s.eff.set]
                for s in u.get('ins', SM):
                    e = s.eff
                    A = {c: (v[1] if v[0] == 'arg' else v) for c, v in e.set.items()}
                    if sid: cx.ob(f'{subj(s)}.submission_id', ('arg', A.get('submission_id')) == sid[0], wh(s.ev), 'metadata is stored for another submission')
                    k, v = A.get('metadata_key'), A.get('metadata_value')
                    ok = k and v and k[0] == 'field' and v[0] == 'field' and k[1] == v[1] and (k[2], v[2]) == ('0', '1') and k[1][0] == 'elem'
                    cx.ob(f'{subj(s)} pair', bool(ok), wh(s.ev), f'metadata pair is stored as ({show(k)[:40] if k else None}, {show(v)[:40] if v else None})')
                    if ok: cx.ob(f'{subj(s)} all', base_ok(k[1][1]), wh(s.ev), 'only some of the metadata pairs are stored')
    for k, l in otel.items():
        real = [t for t, s in l if t[0] not in ('lit', 'unit') and not (t[0] == 'v' and last(t[1]) == 'None')]
        cx.ob(f'{k}.otel_trace_carrier', bool(real), wh(l[0][1].ev), 'the trace context is not stored')


def is_zero(t):
    return t == ('lit', 0) or (t[0] == 'v' and len(t[2]) == 1 and is_zero(t[2][0])) or t[0] == 'default' or (t[0] == 'call' and last(str(t[1])) in ('default', 'zero'))


def base_ok(t):
    """The iterated collection is the supplied one, complete (no skip/take/filter/rev …)."""
    while True:
        if t[0] == 'param': return True
        if t[0] == 'field': t = t[1]; continue
        if t[0] == 'call' and last(str(t[1])) in LAZY_OK and t[2]: t = t[2][0]; continue
        return False


@rule('chunk-numbering', 'chunks are created from the supplied contents in order with index = position, that content, the new submission and no retries; all of them are inserted', 'C02', floor=4)
def r_numbering(cx):
    n = 0
    for o in ops(cx):
        if not any(u.get('ins', CH) for p, us in o.units for u in us): continue
        for p, us in o.units:
            ids = {v[1] for u in us for s in u.get('ins', SU) for v in [s.eff.set.get('id', ('x', None))]}
            for e in p.ev:
                # construction of chunk values
                cand = []
                if e.k == 'endhof': cand = [e.get('val')]
                elif e.k == 'call' and last(e.path) in ('push', 'push_back'): cand = list(e.args[1:2])
                for c in cand:
                    if not (isinstance(c, tuple) and c and c[0] == 'struct' and last(c[1].split('<')[0]) == 'Chunk'): continue
                    d = dict(c[2])
                    if not {'submission_id', 'chunk_index', 'input_content'} <= set(d): continue
                    n += 1
                    idx = [x for x in subterms(d['chunk_index']) if x[0] == 'field' and x[2] == '0' and x[1][0] == 'elem']
                    con = d['input_content']
                    okc = con[0] == 'field' and con[2] == '1' and con[1][0] == 'elem'
                    oki = len(idx) == 1 and not any(x[0] == 'bin' for x in subterms(d['chunk_index'])) and (not okc or idx[0][1] == con[1])
                    coll = idx[0][1][1] if idx else None
                    enum = coll is not None and coll[0] == 'call' and last(str(coll[1])) == 'enumerate' and base_ok(coll)
                    cx.ob(f'{short(o.fn.path)}: chunk index', oki and enum, wh(e), f'chunk index is {show(d["chunk_index"])[:70]}, not the position of the content')
                    cx.ob(f'{short(o.fn.path)}: chunk content', okc, wh(e), f'chunk content is {show(con)[:70]}, not the supplied content at that position')
                    if ids: cx.ob(f'{short(o.fn.path)}: chunk submission', d['submission_id'] in ids, wh(e), 'chunks are created for another submission')
                    cx.ob(f'{short(o.fn.path)}: no retries used', 'retries' not in d or is_zero(d['retries']), wh(e), 'a new chunk starts with retries used up')
            # rows handed to INSERT INTO chunks
            loops = []
            for e in p.ev:
                if e.k in ('loop', 'for'): loops.append(e)
                elif e.k in ('endloop', 'endfor', 'backedge') and loops: loops.pop()
                elif e.k == 'sql':
                    for f in effs(cx.w, e):
                        if f.kind != 'ins' or f.table != CH: continue
                        A = {c: (v[1] if v[0] == 'arg' else v) for c, v in f.set.items()}
                        elems = set()
                        for c in ('submission_id', 'chunk_index', 'input_content'):
                            t = A.get(c)
                            cx.ob(f'{short(e.fn.path)}: ins chunks.{c}', t is not None and t[0] == 'field' and t[2] == c, wh(e), f'chunks.{c} gets {show(t)[:60] if t else None}')
                            if t is not None and t[0] == 'field': elems.add(t[1])
                        cx.ob(f'{short(e.fn.path)}: one chunk per row', len(elems) == 1, wh(e), 'a row mixes several chunks')
                        for el in elems:
                            if el[0] == 'elem': cx.ob(f'{short(e.fn.path)}: all chunks', complete_batches(el[1], loops, p, e), wh(e), f'not every supplied chunk is inserted exactly once, in batches taken from {show(el[1])[:80]}')
                        if 'retries' in A: cx.ob(f'{short(e.fn.path)}: retries', is_zero(A['retries']), wh(e), 'a new chunk starts with retries used up')
    cx.ob('chunk constructions found', n > 0, '', 'no construction of chunks from the supplied contents found')


def filled(t, p):
    """What a list made empty is filled from: the source of the loop each round of which pushes into it (True: no round
    was run); None when a round leaves it as it is."""
    open_, src, none = [], None, False
    for e in p.ev:
        if e.k == 'for': open_.append([e.iter, 0])
        elif e.k == 'for0': none = True
        elif e.k in ('endfor', 'backedge') and open_:
            it, n = open_.pop()
            if n == 1: src = it
        elif e.k == 'call' and e.args and e.args[0] == t:
            if last(e.path) in ('push', 'push_back') and open_: open_[-1][1] += 1
            elif last(e.path) in ('extend', 'append'): src = e.args[1]
            elif last(e.path) in ('pop', 'clear', 'truncate', 'remove', 'swap_remove', 'retain', 'drain', 'split_off', 'dedup'): return None
    return src if src is not None else (True if none else None)


def complete_batches(t, loops, p, sqlev):
    """The batch iterator covers the whole collection: either directly, or `take(n)` of a shared iterator inside a loop
    that goes on until that iterator is exhausted, or slices from `chunks(n)`."""
    took = False
    while True:
        if t[0] == 'param': break
        if t[0] == 'elem':  # batch from an outer for loop
            t = t[1]; continue
        if t[0] == 'pl' or t[0] == 'field': t = t[1]; continue
        if t[0] == 'phi': t = t[-1]; continue
        if t[0] == 'call':
            n = last(str(t[1]))
            if n == 'take': took = True; it = t[2][0]; t = it; continue
            if n in ('new', 'with_capacity', 'default') and ('vec' in str(t[1]).lower() or 'deque' in str(t[1]).lower()):
                # filled by pushing: once in each round of a loop over the contents
                t2 = filled(t, p)
                if t2 is None: return False
                if t2 is True: return True
                t = t2; continue
            if n in LAZY_OK or n in ('chunks', 'array_chunks', 'tuples', 'drain', 'next', 'next_chunk'): t = t[2][0]; continue
            return False
        return False
    if not took: return True
    if not any(l.k in ('loop', 'for') for l in loops): return False
    # the enclosing loop must test the same iterator for exhaustion
    return any(isinstance(c, tuple) and c[0] == 'is' and any(x[0] == 'call' and last(str(x[1])) in ('peek', 'is_empty', 'next', 'len') and x[2] and x[2][0] == it for x in subterms(c[1])) for c, v in p.st.path) or \
        any(isinstance(c, tuple) and any(x[0] == 'call' and last(str(x[1])) in ('peek', 'is_empty', 'len', 'next', 'next_if') for x in subterms(c)) for c, v in p.st.path)


# ------------------------------------------------------------------------------------------------ C11
@rule('failure-not-committed', 'a unit in which a state-changing statement failed, or was not checked, is never committed', 'C11', floor=10)
def r_fail_commit(cx):
    for o in ops(cx):
        for p, us in o.units:
            for u in us:
                for s in u.stms:
                    if s.eff.kind not in MUT or s.undone: continue
                    returned = p.val == s.ev.res or (p.val[0] == 'v' and s.ev.res in p.val[2])
                    if u.committed and u.kind == 'tx':
                        cx.ob(f'{short(o.fn.path)}: {subj(s)}', s.status == 'Ok' or (s.ev.how == 'fetch' ), wh(s.ev), 'the transaction is committed although this statement ' + ('failed' if s.status == 'Err' else 'was not checked for failure'))
                    elif u.kind == 'auto' or u.kind == 'caller':
                        cx.ob(f'{short(o.fn.path)}: {subj(s)}', not (p.result() == 'Ok' and s.status != 'Ok') or returned, wh(s.ev), 'success is reported although this statement ' + ('failed' if s.status == 'Err' else 'was not checked for failure'))
                    else:
                        cx.ob(f'{short(o.fn.path)}: {subj(s)}', True, wh(s.ev))


@rule('success-means-committed', 'an operation returns success only on paths on which its transaction was committed', 'C11', 'C07', floor=1)
def r_success(cx):
    for o in ops(cx):
        if not any(u.muts() for p, us in o.units for u in us): continue
        if cx.prop == 'C07' and not any('retries' in s.eff.set for p, us in o.units for u in us for s in u.get('upd', CH)): continue
        for p, us in o.units:
            if p.result() not in ('Ok', None) or p.out != 'val': continue
            if p.result() is None and not p.val[0] == 'v': continue
            bad = [u for u in us if u.kind == 'tx' and u.end != 'commit']
            cx.ob(f'{short(o.fn.path)}: success', not (p.result() == 'Ok' and bad), o.fn.where, f'success is returned although the transaction ended with {bad[0].end if bad else ""}')


@rule('multi-step-in-transaction', 'an operation that changes several rows sets does so inside one transaction', 'C11', 'C12', 'C03', 'C04', floor=3)
def r_multi(cx):
    for o in ops(cx):
        for p, us in o.units:
            un = [u for u in us if u.committed and u.muts()]
            auto = [u for u in un if u.kind == 'auto']
            n = sum(len(u.muts()) for u in un)
            many = sum(1 for u in auto for s in u.muts())
            inloop = False
            cx.ob(f'{short(o.fn.path)}: one unit', not (auto and n > 1), wh(auto[0].muts()[0].ev) if auto else o.fn.where, 'several changes are made outside a transaction')
            if p.out in ('val',) and not any(e.k == 'loop' for e in p.ev):
                cx.ob(f'{short(o.fn.path)}: single transaction', len(un) <= 1, o.fn.where, 'the changes of one operation are split over several transactions')
