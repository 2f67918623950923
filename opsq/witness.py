"""Compile-pass / compile-fail witnesses: small generated functions type-checked against /repo's current crate."""
import json, os, re, shutil, subprocess
from . import facts as F


def check(d, items):
    """items: {name: (body lines of one function, ...)}. Returns {name: [error codes whose primary span lies in it]} or None
    when the crate itself does not compile. Cached in the facts directory `d`."""
    key = json.dumps(items, sort_keys=True)
    cache = os.path.join(d, 'witness.json')
    if os.path.exists(cache):
        j = json.load(open(cache))
        if j['key'] == key: return j['res']
    base = F.make_ws('ws-wit', os.path.join(F.REPO, 'opsqueue'))
    w = os.path.join(base, 'witness')
    os.makedirs(os.path.join(w, 'src'), exist_ok=True)
    open(os.path.join(w, 'Cargo.toml'), 'w').write('[package]\nname = "opsq_witness"\nversion = "0.0.0"\nedition = "2021"\n[dependencies]\nopsqueue = { path = "../opsqueue", features = ["server-logic", "client-logic"] }\n')
    t = open(os.path.join(base, 'Cargo.toml')).read()
    if '"witness"' not in t: open(os.path.join(base, 'Cargo.toml'), 'w').write(t.replace('members = [', 'members = [\n    "witness",', 1))
    src, spans, line = ['#![allow(warnings)]', 'use opsqueue::db::{Connection, WriterConnection, DBPools, ReaderPool, WriterPool, True, False};'], {}, 2
    for n in sorted(items):
        body = items[n].split('\n')
        spans[n] = (line + 1, line + len(body))
        src += body
        line += len(body)
    open(os.path.join(w, 'src/lib.rs'), 'w').write('\n'.join(src) + '\n')
    env = F.env_for({'DATABASE_URL': 'sqlite://' + os.path.join(d, 'schema.db'), 'CARGO_TARGET_DIR': os.path.join(F.WORK, 'target-wit' if False else 'target')})
    r = subprocess.run(['cargo', '+' + F.TOOLCHAIN, 'check', '--offline', '-p', 'opsq_witness', '--message-format=json'], cwd=base, env=env, capture_output=True, text=True, timeout=800)
    res = {n: [] for n in items}
    own = False
    for l in r.stdout.splitlines():
        try: m = json.loads(l)
        except ValueError: continue
        if m.get('reason') != 'compiler-message' or 'opsq_witness' not in m.get('package_id', ''): continue
        msg = m['message']
        if msg.get('level') != 'error': continue
        for s in msg.get('spans', []):
            if not s['is_primary']: continue
            for n, (a, b) in spans.items():
                if a <= s['line_start'] <= b: res[n].append((msg.get('code') or {}).get('code') or '?'); own = True
    if r.returncode != 0 and not own: res = None
    json.dump({'key': key, 'res': res, 'rc': r.returncode, 'err': r.stderr[-1500:]}, open(cache, 'w'))
    return res
