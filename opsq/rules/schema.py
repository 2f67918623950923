"""Statements against the migrated schema (C14)."""
import json, os, re, sqlite3
from ..core import rule, short, wh, TECH
from ..store import *
from ..interp import show, terms, last, calls
from .. import interp as IN, prog as PR, sql as SQ, facts as F

TECH['C14'] = 'every statement text (macro and symbolically built) compiled, not executed, by SQLite against the schema the migrations define; sqlx macro type check; analysis of migration scripts'


def macro_statements(cx):
    """(function, sql, number of arguments, where) of each sqlx macro in non-test code."""
    for k, f in sorted(cx.P.fns.items()):
        if not f.crate.startswith('opsqueue'): continue
        for n in PR.walk(f.body):
            m = re.match(r'\s*(?:sqlx::)?(query\w*)!', n.get('snip') or '')
            if not m: continue
            sql, args = IN.query_macro_sql(n['snip'])
            if sql is None: cx.skip(short(f.path), 'statement text not constant'); continue
            if m.group(1).startswith('query_as') and args is not None: pass
            yield f, sql, len(args), n.get('sp') or f.where


def functions(cx):
    """SQL functions the program registers: {name: number of arguments}."""
    if 'sqlfns' in cx.w.memo: return cx.w.memo['sqlfns']
    out = {}
    for k, f in sorted(cx.P.fns.items()):
        if f.crate != 'opsqueue': continue
        if not any('create_function' in str(n.get('path') or (n.get('res') or {}).get('path')) for n in PR.walk(f.body) if n['k'] in ('path', 'mcall', 'call')): continue
        try: ps = cx.paths(f)
        except IN.Limit: continue
        for p in ps:
            for e in p.ev:
                if e.k == 'call' and 'create_function' in last(e.path) and len(e.args) > 3:
                    nm = [x[1] for x in terms(e.args[1]) if x[0] == 'lit' and isinstance(x[1], (str, bytes))]
                    nm = [n.decode() if isinstance(n, bytes) else n for n in nm]
                    na = e.args[2][1] if e.args[2][0] == 'lit' else None
                    for n in nm: out[n.strip('\0').lower()] = na
    cx.w.memo['sqlfns'] = out
    return out


def compiler(cx, db=None):
    c = sqlite3.connect(f'file:{db or cx.w.schema_db}?mode=ro', uri=True)
    for n, k in functions(cx).items():
        c.create_function(n, k if isinstance(k, int) else -1, lambda *a: None)
    return c


def split(sql):
    out, cur = [], ''
    for part in re.split(r'(;)', sql):
        cur += part
        if part == ';' and sqlite3.complete_statement(cur):
            if cur.strip(' \n\t;'): out.append(cur)
            cur = ''
    if cur.strip(' \n\t;'): out.append(cur)
    return out


def nparams(sql):
    """Number of distinct positional parameters."""
    s = re.sub(r"'(?:[^']|'')*'|\"(?:[^\"]|\"\")*\"|--[^\n]*|/\*.*?\*/", ' ', sql, flags=re.S)
    n = anon = 0
    for m in re.finditer(r'\?(\d+)?|[$:@](\w+)', s):
        if m.group(1): n = max(n, int(m.group(1)))
        elif m.group(2): n = max(n, int(m.group(2))) if m.group(2).isdigit() else n
        else:
            anon += 1; n = max(n, anon)
    return n


def prepare(c, sql):
    """Error message of compiling the statement, or None. EXPLAIN compiles it and never touches rows."""
    for s in split(sql):
        s2 = re.sub(r'\$(\d+)', r'?\1', s)
        s2 = re.sub(r'\bAS\s+"([A-Za-z_]\w*)[!?]?(?::[^"]*)?"', r'AS "\1"', s2, flags=re.I)
        k = nparams(s2)
        try: c.execute('EXPLAIN ' + s2, (None,) * k).fetchall()
        except sqlite3.Error as e: return str(e)
    return None


def title(sql):
    return re.sub(r'\s+', ' ', sql).strip()[:70]


@rule('prepare', 'every statement text compiles against the schema the migrations define, with the functions the program registers', 'C14', floor=40)
def r_prepare(cx):
    from .strat import built
    c = compiler(cx)
    for f, sql, na, where in macro_statements(cx):
        cx.ob(f'{short(f.path)}: {title(sql)}', (err := prepare(c, sql)) is None, where, f'statement is not valid: {err}')
    for name, ks, b, txt, bound, f in built(cx):
        if txt is None:
            cx.skip(f'strategy {name}', str(bound)); continue
        err = prepare(c, txt)
        cx.ob(f'strategy {name}', err is None, f.where, f'statement is not valid: {err}')
    for f, e in built_statements(cx):
        err = prepare(c, e.sql)
        cx.ob(f'{short(f.path)}: {title(e.sql)}', err is None, wh(e), f'statement is not valid: {err}')


def built_statements(cx):
    """Statements assembled at run time (QueryBuilder, query()) on the paths of the storage operations."""
    from .storage import ops
    seen = set()
    for o in ops(cx):
        for p in (p for p, _ in o.units):
            for e in p.ev:
                if e.k not in ('sql', 'build') or not isinstance(e.sql, str): continue
                key = (e.sql, len(e.args or ()))
                if key in seen: continue
                seen.add(key)
                yield (e.fn or o.fn), e


@rule('parameters', 'every statement binds exactly as many values as it has parameters', 'C14', floor=30)
def r_params(cx):
    from .strat import built
    for f, sql, na, where in macro_statements(cx):
        n = nparams(sql)
        cx.ob(f'{short(f.path)}: {title(sql)}', n == na, where, f'statement has {n} parameters, {na} values are bound')
    for f, e in built_statements(cx):
        n = nparams(e.sql)
        if e.args is None: continue
        cx.ob(f'{short(f.path)}: {title(e.sql)}', n == len(e.args), wh(e), f'statement has {n} parameters, {len(e.args)} values are bound')


@rule('required-columns', 'every insertion supplies all columns that must have a value, and as many values as columns', 'C14', floor=9)
def r_req(cx):
    for f, sql, na, where in macro_statements(cx):
        try: ef = SQ.effects(sql, tuple(('param', 'a', i) for i in range(na)), cx.S)
        except SQ.SqlError as e: cx.skip(title(sql), str(e)); continue
        for x in ef:
            if x.kind != 'ins' or x.table not in cx.S.tables: continue
            rowid = [c.lower() for c in cx.S.pk[x.table]] if len(cx.S.pk[x.table]) == 1 and re.search(r'INTEGER\s+(NOT NULL\s+)?PRIMARY KEY', cx.S.ddl[x.table], re.I) else []
            miss = [c for c in cx.S.notnull[x.table] if c.lower() not in x.cols and c.lower() not in rowid]
            null = [c for c in cx.S.notnull[x.table] if x.set.get(c.lower()) == ('lit', None)]
            cx.ob(f'{short(f.path)}: insert into {x.table}', not miss and not null, where, f'no value for {", ".join(miss + null)}')
            if hasattr(x, 'nvals'): cx.ob(f'{short(f.path)}: insert into {x.table} arity', x.nvals == len(x.cols), where, f'{len(x.cols)} columns but {x.nvals} values')


@rule('typed-results', 'the compiler accepts every statement with the types of its values and of the result it is read into (checked by sqlx against the migrated schema)', 'C14', floor=30)
def r_types(cx):
    log = ''
    p = os.path.join(cx.P.dir, 'cargo.log')
    if os.path.exists(p): log = open(p).read()
    errs = {}
    for m in re.finditer(r'(?m)^error(?:\[E\d+\])?: (.*)\n(?:\s*\|?\n)*\s*--> (\S+?):(\d+):', log):
        errs.setdefault((m.group(2), int(m.group(3))), m.group(1))
    for f, sql, na, where in macro_statements(cx):
        m = re.match(r'(\S+?):(\d+)', where)
        lines = range(int(m.group(2)), int(m.group(2)) + sql.count('\n') + 4 + na) if m else ()
        bad = [v for (fl, ln), v in errs.items() if m and fl.endswith(m.group(1).split('opsqueue/', 1)[-1]) and ln in lines and re.search(r'database|parameter|column|trait bound.*(Encode|Decode|From|Into)|mismatched types|no field|missing field', v)]
        cx.ob(f'{short(f.path)}: {title(sql)}', not bad, where, f'the statement does not type-check: {bad[:1]}')


@rule('migrations', 'the migrations apply in order to an empty database, and no migration removes rows or tables without carrying their rows over', 'C14', floor=14)
def r_mig(cx):
    c = sqlite3.connect(':memory:')
    c.execute('PRAGMA foreign_keys = ON')
    migs = [m for m in F.migrations() if m[2] == 'up']
    vs = [m[0] for m in migs]
    cx.ob('distinct versions', len(vs) == len(set(vs)), 'opsqueue/migrations', 'two migrations have the same version')
    for v, n, k, path in migs:
        rel = os.path.relpath(path, F.REPO)
        txt = open(path).read()
        before = {r[0]: [x[1] for x in c.execute(f'pragma table_xinfo("{r[0]}")') if x[6] == 0] for r in c.execute("select name from sqlite_master where type='table'").fetchall()}
        err = None
        try: c.executescript(txt)
        except sqlite3.Error as e: err = str(e)
        cx.ob(f'{v} applies', err is None, rel, f'migration does not apply: {err}')
        cx.ob(f'{v} keeps rows', (why := loses(txt, before)) is None, rel, why or '')
    c.close()


DROPPABLE = {'chunks_metadata'}  # written by no statement of the program at any version in the tree


def loses(txt, before):
    s = re.sub(r'--[^\n]*', '', txt)
    st = [x.strip() for x in split(s)]
    copied = {}
    for x in st:
        m = re.match(r'INSERT\s+(?:OR\s+\w+\s+)?INTO\s+"?(\w+)"?\s*(?:\(([^)]*)\))?\s*SELECT\s+(.*?)\s+FROM\s+"?(\w+)"?\s*(.*?);?$', x, re.I | re.S)
        if m:
            ig = re.match(r'INSERT\s+OR\s+IGNORE', x, re.I)
            cols = {w.lower() for c in m.group(3).split(',') for w in re.findall(r'\w+|\*', c)}
            whole = '*' in cols or {c.lower() for c in before.get(m.group(4), [])} <= cols
            rest = m.group(5)
            g = re.search(r'\bGROUP\s+BY\s+([\w\s,"]+?)\s*(?:ORDER\b.*)?$', rest, re.I | re.S)
            if g:  # one row per key of the rebuilt table
                pk = re.search(r'CREATE\s+TABLE\s+"?' + m.group(1) + r'"?.*?PRIMARY\s+KEY\s*\(([^)]*)\)', s, re.I | re.S)
                gk = {c.strip().lower() for c in g.group(1).split(',')}
                if pk and {c.strip().lower() for c in pk.group(1).split(',')} == gk: rest = rest[:g.start()]
            copied[m.group(4).lower()] = (m.group(1).lower(), not re.search(r'\b(WHERE|LIMIT|GROUP|HAVING|JOIN)\b', rest, re.I) and whole and not ig)
            continue
        m = re.match(r'DROP\s+TABLE\s+(?:IF\s+EXISTS\s+)?"?(\w+)"?', x, re.I)
        if m and m.group(1) in before:
            t = m.group(1).lower()
            if t in DROPPABLE: continue
            if t not in copied: return f'table {t} is dropped with its rows'
            if not copied[t][1]: return f'not every row and column of {t} is carried over before it is dropped'
            continue
        m = re.match(r'DELETE\s+FROM\s+"?(\w+)"?', x, re.I)
        if m and m.group(1) in before: return f'rows of {m.group(1)} are deleted'
        m = re.match(r'ALTER\s+TABLE\s+"?(\w+)"?\s+DROP\s+(?:COLUMN\s+)?"?(\w+)"?', x, re.I)
        if m and m.group(2).lower() in [c.lower() for c in before.get(m.group(1), [])]: return f'column {m.group(2)} of {m.group(1)} is dropped'
    return None


KEYS = {'submissions': ['id'], 'submissions_completed': ['id'], 'submissions_failed': ['id'], 'submissions_cancelled': ['id'],
        'chunks': ['submission_id', 'chunk_index'], 'chunks_completed': ['submission_id', 'chunk_index'], 'chunks_failed': ['submission_id', 'chunk_index']}


@rule('keys', 'no submission, chunk or metadata pair can be stored twice in one table', 'C14', floor=8)
def r_keys(cx):
    c = sqlite3.connect(f'file:{cx.w.schema_db}?mode=ro', uri=True)
    def unique(t):
        out = [[x.lower() for x in cx.S.pk.get(t, [])]]
        for r in c.execute(f'pragma index_list("{t}")').fetchall():
            if r[2] and not r[4]: out.append([x[2].lower() for x in c.execute(f'pragma index_info("{r[1]}")').fetchall() if x[2]])
        return [set(x) for x in out if x]
    for t, k in KEYS.items():
        if t not in cx.S.tables: cx.ob(f'{t}', False, 'opsqueue/migrations', f'table {t} is missing'); continue
        cx.ob(f'{t} by {", ".join(k)}', any(u <= set(k) for u in unique(t)), 'opsqueue/migrations', f'{t} does not forbid two rows with the same {", ".join(k)}')
    if 'submissions_metadata' in cx.S.tables:
        cx.ob('submissions_metadata by submission and key', any(u <= {'submission_id', 'metadata_key'} for u in unique('submissions_metadata')), 'opsqueue/migrations', 'a submission can have two values for one key')
    c.close()
