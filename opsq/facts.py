"""Obtains the type-checked program of /repo's current working tree.

A scratch workspace under /verif/.work links /repo's crates, replaces only the crate that is absent
offline (snowflaked, a git dependency) by a stub with the same signatures, and is compiled with the
`opsq-hir` rustc driver (driver/), which exports HIR + typeck results as JSON. Nothing in /repo is
written. Facts are cached by a hash over every input file.
"""
import fcntl, hashlib, json, os, re, shutil, sqlite3, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('OPSQ_REPO', '/repo')
WORK = os.path.join(VERIF, '.work')
TOOLCHAIN = 'nightly'
CRATES = ['opsqueue', 'opsqueue@bin', 'opsqueue_python']


def log(*a):
    print('[facts]', *a, file=sys.stderr, flush=True)


def repo_files():
    out = []
    for top in ('opsqueue', 'libs', 'workspace-hack'):
        for dp, dn, fn in os.walk(os.path.join(REPO, top)):
            dn[:] = sorted(d for d in dn if d not in ('target', '.git', '__pycache__', 'node_modules', '.venv'))
            for f in sorted(fn):
                if f.endswith(('.rs', '.toml', '.sql', '.py')):
                    out.append(os.path.join(dp, f))
    for f in ('Cargo.toml', 'Cargo.lock'):
        out.append(os.path.join(REPO, f))
    return out


def tree_hash():
    h = hashlib.sha256()
    for f in repo_files() + [os.path.join(VERIF, 'driver/src/main.rs'), os.path.join(VERIF, 'driver/src/json.rs'),
                             os.path.join(VERIF, 'stub/snowflaked/src/lib.rs'), os.path.abspath(__file__)]:
        h.update(os.path.relpath(f, REPO).encode() + b'\0')
        try:
            h.update(open(f, 'rb').read())
        except OSError:
            h.update(b'?')
        h.update(b'\0')
    return h.hexdigest()[:24]


def sysroot():
    return subprocess.run(['rustc', '+' + TOOLCHAIN, '--print', 'sysroot'], capture_output=True, text=True, check=True).stdout.strip()


def env_for(extra=None):
    e = {k: v for k, v in os.environ.items() if not k.startswith(('CARGO_', 'RUSTC', 'RUSTFLAGS'))}
    for k in ('CARGO_HOME', 'RUSTUP_HOME'):
        if k in os.environ:
            e[k] = os.environ[k]
    e.pop('RUSTUP_TOOLCHAIN', None)
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_TERM_COLOR'] = 'never'
    e['CARGO_INCREMENTAL'] = '0'
    e['LD_LIBRARY_PATH'] = sysroot() + '/lib'
    if extra:
        e.update(extra)
    return e


DRIVER = os.path.join(WORK, 'driver/debug/opsq-hir')


def build_driver():
    r = subprocess.run(['cargo', '+' + TOOLCHAIN, 'build', '--offline', '--target-dir', os.path.join(WORK, 'driver')],
                       cwd=os.path.join(VERIF, 'driver'), env=env_for(), capture_output=True, text=True)
    if r.returncode != 0:
        raise RuntimeError('driver build failed:\n' + r.stderr[-4000:])


def migrations(repo=None):
    """[(version, name, kind, path)] with kind in {'up','down'} sorted by version."""
    d = os.path.join(repo or REPO, 'opsqueue/migrations')
    out = []
    for f in sorted(os.listdir(d)):
        m = re.match(r'^(\d+)_(.*?)(\.up|\.down)?\.sql$', f)
        if m:
            out.append((int(m.group(1)), m.group(2), 'down' if m.group(3) == '.down' else 'up', os.path.join(d, f)))
    return sorted(out)


def build_schema_db(path):
    for s in ('', '-wal', '-shm', '-journal'):
        if os.path.exists(path + s):
            os.remove(path + s)
    c = sqlite3.connect(path)
    for v, n, k, p in migrations():
        if k == 'up':
            c.executescript(open(p).read())
    c.commit()
    c.close()


def make_ws(name, opsqueue_src):
    ws = os.path.join(WORK, name)
    os.makedirs(ws, exist_ok=True)
    for link, target in (('opsqueue', opsqueue_src), ('libs', os.path.join(REPO, 'libs')),
                         ('workspace-hack', os.path.join(REPO, 'workspace-hack')),
                         ('snowflaked', os.path.join(VERIF, 'stub/snowflaked'))):
        p = os.path.join(ws, link)
        if os.path.islink(p):
            if os.readlink(p) == target:
                continue
            os.remove(p)
        os.symlink(target, p)
    t = open(os.path.join(REPO, 'Cargo.toml')).read()
    t = re.sub(r'(?m)^snowflaked = \{ git.*$', 'snowflaked = { path = "snowflaked" }', t)
    # dependencies need no optimisation to be type-checked
    t = re.sub(r'opt-level = 3', 'opt-level = 0', t)
    t += '\n[profile.dev]\ndebug = 0\n' if not re.search(r'(?m)^\[profile\.dev\]', t) else ''
    l = open(os.path.join(REPO, 'Cargo.lock')).read()
    l = re.sub(r'(name = "snowflaked"\nversion = "[^"]*"\n)source = .*\n(dependencies = \[\n(?: .*\n)*\]\n)?', r'\1', l)
    for f, s in (('Cargo.toml', t), ('Cargo.lock', l)):
        p = os.path.join(ws, f)
        if not os.path.exists(p) or open(p).read() != s:
            open(p, 'w').write(s)
    return ws


def run_cargo(ws, out, wanted, db, timeout=800):
    target = os.path.join(WORK, 'target')
    fp = os.path.join(target, 'debug/.fingerprint')
    if os.path.isdir(fp):
        for d in os.listdir(fp):
            if re.match(r'(opsqueue|opsqueue_python|workspace-hack)-[0-9a-f]+$', d):
                shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
    for c in ('opsqueue', 'opsqueue_python', 'opsqueue-python', 'workspace-hack'):  # layout of newer cargo
        shutil.rmtree(os.path.join(target, 'debug/build', c), ignore_errors=True)
    env = env_for({'DATABASE_URL': 'sqlite://' + db, 'OPSQ_OUT': out, 'OPSQ_CRATES': ','.join(wanted),
                   'RUSTC_WORKSPACE_WRAPPER': DRIVER, 'CARGO_TARGET_DIR': target})
    cmd = ['cargo', '+' + TOOLCHAIN, 'check', '--offline', '--keep-going', '-p', 'opsqueue', '-p', 'opsqueue_python',
           '--features', 'opsqueue/server-logic,opsqueue/client-logic', '--lib', '--bins']
    r = subprocess.run(cmd, cwd=ws, env=env, capture_output=True, text=True, timeout=timeout)
    return r


def get_facts():
    """Returns (dir with <crate>.json, info dict)."""
    os.makedirs(WORK, exist_ok=True)
    lock = open(os.path.join(WORK, 'lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        h = tree_hash()
        out = os.path.join(WORK, 'facts', h)
        if os.path.exists(os.path.join(out, 'info.json')):
            return out, json.load(open(os.path.join(out, 'info.json')))
        t0 = time.time()
        build_driver()
        base = os.path.join(WORK, 'facts')
        os.makedirs(base, exist_ok=True)
        old = sorted((os.path.getmtime(os.path.join(base, d)), d) for d in os.listdir(base))
        for _, d in old[:-3]:
            shutil.rmtree(os.path.join(base, d), ignore_errors=True)
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        info = {'hash': h, 'notes': []}
        db = os.path.join(WORK, 'schema.db')
        try:
            build_schema_db(db)
        except Exception as e:  # the migration property reports this
            info['notes'].append(f'migrations do not apply: {e}')
            for s in ('', '-wal', '-shm'):
                if os.path.exists(db + s): os.remove(db + s)
            shutil.copy(os.path.join(REPO, 'opsqueue/opsqueue_example_database_schema.db'), db)
        ws = make_ws('ws', os.path.join(REPO, 'opsqueue'))
        r = run_cargo(ws, out, CRATES, db)
        info['cargo_rc'] = r.returncode
        if r.returncode != 0:
            open(os.path.join(out, 'cargo.log'), 'w').write(r.stderr)
            info['notes'].append('type errors: ' + ' | '.join(re.findall(r'(?m)^error.*$', r.stderr)[:8]))
        missing = [c for c in CRATES if not os.path.exists(os.path.join(out, c + '.json'))]
        if missing and r.returncode == 0:
            # cargo considered something fresh: start over
            shutil.rmtree(os.path.join(WORK, 'target'), ignore_errors=True)
            r = run_cargo(ws, out, CRATES, db)
            missing = [c for c in CRATES if not os.path.exists(os.path.join(out, c + '.json'))]
        if missing and os.path.isdir(os.path.join(VERIF, 'reference/opsqueue')):
            # the opsqueue library does not type-check: resolve its dependents against the reference library
            ws2 = make_ws('ws-ref', os.path.join(VERIF, 'reference/opsqueue'))
            tmp = out + '.ref'
            os.makedirs(tmp, exist_ok=True)
            r2 = run_cargo(ws2, tmp, CRATES if 'opsqueue' in missing else [c for c in CRATES if c != 'opsqueue'], db)
            for c in missing:
                f = os.path.join(tmp, c + '.json')
                if os.path.exists(f):
                    shutil.move(f, os.path.join(out, c + '.json'))
                    info['notes'].append(f'{c} ' + ('does not resolve; the reference copy was read instead' if c == 'opsqueue' else 'resolved against the reference opsqueue library'))
            shutil.rmtree(tmp, ignore_errors=True)
            missing = [c for c in CRATES if not os.path.exists(os.path.join(out, c + '.json'))]
        info['missing'] = missing
        shutil.copy(db, os.path.join(out, 'schema.db'))
        info['seconds'] = round(time.time() - t0, 1)
        if 'opsqueue' in missing:
            raise RuntimeError('no facts for the opsqueue crate:\n' + r.stderr[-3000:])
        json.dump(info, open(os.path.join(out, 'info.json'), 'w'))
        return out, info
    finally:
        fcntl.flock(lock, fcntl.LOCK_UN)


if __name__ == '__main__':
    print(get_facts())
