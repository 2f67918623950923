#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decides one property on /repo's current source."""
import argparse, json, os, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--list', action='store_true')
    a = ap.parse_args()
    t0 = time.time()
    sys.setrecursionlimit(20000)
    from opsq import core, facts
    import opsq.rules.all
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    ev_dir = os.path.join(HERE, 'evidence')
    os.makedirs(ev_dir, exist_ok=True)
    replay = os.path.join(ev_dir, f'{a.prop}.violations.json')
    if os.path.exists(replay): os.remove(replay)
    try:
        w = core.World(a.tier)
        cx = core.Ctx(w, a.prop)
        cx.run()
    except Exception as e:
        # the source cannot be analysed at all (it does not parse or resolve)
        print(f'[check] {a.prop}: source could not be analysed: {str(e)[-1500:]}', file=sys.stderr)
        write(a, seed, ev_dir, {'explanation': 'the source could not be analysed: ' + str(e)[-300:]}, 0, t0, [])
        return 2
    kf = {f['key']: f for f in core.known()['findings'] if f['property'] == a.prop}
    bad, knownbad = [], []
    tainted = core.tainted(w.P)
    for (r, s), (ok, where, msg, n) in sorted(cx.obs.items()):
        if a.list: print('ok ' if ok else 'BAD', r, '|', s, '|', where, '|', n, msg)
        if ok: continue
        key = f'{r}|{s}'
        if tainted and any(f'({t})' in where or f'({t}::' in where for t in tainted):
            cx.undecided.append(f'{r}: {s}: {msg} (in a function with type errors, at {where})'); continue
        (knownbad if key in kf else bad).append({'rule': r, 'subject': s, 'where': where, 'message': msg, 'key': key})
    rules = core.RULES.get(a.prop, [])
    cov = {
        'explanation': 'Static analysis of the type-checked source of this run: every listed rule was applied to every instance found in the program; '
                       'an obligation is one rule instance (a statement, call site, path class, struct mapping …), discharged when it holds on every path examined.',
        'obligations': len(cx.obs), 'discharged': sum(1 for o in cx.obs.values() if o[0]),
        'instances_evaluated': sum(o[3] for o in cx.obs.values()),
        'paths_interpreted': w.npaths, 'events_on_paths': w.nevents, 'functions_on_paths': len(w.fns_seen), 'sql_statements_on_paths': len(w.sql_seen),
        'functions_loaded': len(w.P.fns), 'source_sites': len(cx.sites),
        'rules': [{'rule': n, 'text': t, 'obligations': sum(1 for k in cx.obs if k[0] == n)} for n, t, _, _ in rules],
        'undecided': cx.undecided, 'notes': w.notes,
        'samples': [{'rule': k[0], 'instance': k[1], 'at': v[1]} for k, v in list(cx.obs.items())[:8]],
        'known_findings_present': [b['key'] for b in knownbad],
    }
    write(a, seed, ev_dir, cov, len(bad), t0, ASSUME)
    for u in cx.undecided: print(f'[check] {a.prop} undecided: {u}', file=sys.stderr)
    for b in knownbad:
        print(f'KNOWN-FINDING: property={a.prop} {kf[b["key"]]["what"]} [{b["key"]}]')
    print(f'{a.prop}: {len(cx.obs)} obligations, {cov["discharged"]} discharged, {len(bad)} violated, {len(knownbad)} known, {w.npaths} paths, {time.time() - t0:.1f} s')
    if bad:
        json.dump({'property': a.prop, 'violations': bad}, open(replay, 'w'), indent=1)
        for b in bad: print(f'  {b["rule"]}: {b["subject"]}: {b["message"]}  at {b["where"]}')
        print(f'VIOLATION property={a.prop} replay={replay}')
        return 1
    return 0


ASSUME = [
    'rustc type-checks and resolves names correctly; the crate snowflaked (absent offline) is replaced by a stub with the same signatures',
    'external crates (sqlx, moka, tokio, axum, pyo3, SQLite) behave as documented',
    'macro-generated code of #[tracing::instrument], derive and serde is not examined beyond its attributes',
    'loops are summarised by zero or one generic iteration; calls are inlined up to depth 14',
]


def write(a, seed, ev_dir, cov, nviol, t0, assume):
    json.dump({'property': a.prop, 'tier': a.tier if a.tier in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': 'other', 'coverage': cov,
               'wall_s': round(time.time() - t0, 2), 'violations': nviol, 'assumptions': assume},
              open(os.path.join(ev_dir, f'{a.prop}.json'), 'w'), indent=1)


if __name__ == '__main__':
    sys.exit(main())
