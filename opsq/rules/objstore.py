"""Chunk contents in object storage: locations, sequences, errors (C26)."""
import re
from ..core import rule, short, wh, TECH, NOTES
from ..interp import show, terms, last, calls
from .util import *
from .http import ret, generic

TECH['C26'] = 'dataflow of location, content and outcome over every path of the object-storage client; injectivity of the location text decided from its separators and the alphabets of its parts; the index as an inductive step of the storing and retrieving streams'
NOTES['C26'] = 'Prefixes are taken to have no empty path segments (they are generated); the object store itself is trusted to keep what it acknowledged.'

OS = 'object_store::ObjectStoreClient::'


def osfns(cx): return [f for f in cx.P.fns.values() if f.crate == 'opsqueue' and 'object_store::' in f.path.split(' as ')[0]]


def role(cx, t, f):
    """base / prefix / index / type of a term by its origin in the parameters of f."""
    t0 = strip(t)
    if is_field(t0, 'base_path') or calls(t0, 'base_path'): return 'base'
    if t0[0] == 'param':
        ty = next((p.get('ty', '') for p in f.params if p.get('name') == t0[2]), '')
        if 'ChunkIndex' in ty or 'u63' in ty: return 'index'
        if 'ChunkType' in ty: return 'type'
        if 'str' in ty or 'String' in ty: return 'prefix'
    if t0[0] == 'field' and t0[2] in ('chunk_index',): return 'index'
    if t0[0] == 'field' and t0[2] in ('chunk_type',): return 'type'
    return None


def strip(t):
    while isinstance(t, tuple) and t and t[0] == 'call' and last(t[1]) in ('into', 'to_string', 'as_str', 'as_ref', 'clone', 'to_owned', 'from', 'child', 'u64', 'get') and len(t[2]) == 1: t = t[2][0]
    if isinstance(t, tuple) and t and t[0] == 'field' and t[2] in (0, '0') and isinstance(t[1], tuple) and t[1][0] == 'param': return t[1]
    return t


def flat(t):
    """Texts and terms of a location, in order; None when not understood."""
    if not isinstance(t, tuple) or not t: return None
    if t[0] == 'lit': return [str(t[1])]
    if t[0] == 'mac' and t[1] == 'format':
        ps = [x.replace('{{', '{').replace('}}', '}') for x in re.split(r'(?<!\{)\{[^{}]*\}(?!\})', t[2])]
        if len(ps) != len(t[3]) + 1: return None
        out = [ps[0]]
        for a, s in zip(t[3], ps[1:]): out += (flat(a) or [a]) + [s]
        return out
    if t[0] == 'call' and last(t[1]) in ('child', 'join') and len(t[2]) == 2:
        a, b = flat(t[2][0]) or [t[2][0]], flat(t[2][1]) or [t[2][1]]
        return a + ['/'] + b
    if t[0] == 'call' and last(t[1]) in ('from', 'into', 'parse', 'to_string', 'unwrap', 'expect') and t[2]: return flat(t[2][0])
    if t[0] == 'pl' and t[2] in ('Ok', 'Some'): return flat(t[1])
    if t[0] == 'bin' and t[1] == '+': return (flat(t[2]) or [t[2]]) + (flat(t[3]) or [t[3]])
    if t[0] == 'call' and last(t[1]) == 'from_iter' and len(t[2]) == 1 and t[2][0][0] == 'array':
        out = []
        for i, x in enumerate(t[2][0][1]): out += (['/'] if i else []) + (flat(x) or [x])
        return out
    return None


LOSSY = {'trim', 'trim_start', 'trim_end', 'trim_matches', 'trim_start_matches', 'trim_end_matches', 'to_lowercase', 'to_uppercase', 'to_ascii_lowercase', 'to_ascii_uppercase', 'replace', 'replacen',
         'rem_euclid', 'wrapping_rem', 'strip_prefix', 'strip_suffix', 'len', 'split_off', 'min', 'max', 'saturating_sub'}


def lossy(t):
    """A part of a location that is the same for different prefixes or indexes."""
    while isinstance(t, tuple) and t:
        if t[0] == 'call' and last(str(t[1])) in LOSSY and t[2] and any(x[0] == 'param' for x in terms(t[2][0])): return True
        if t[0] == 'bin' and t[1] in ('%', '/', '>>', '&') and any(x[0] == 'param' for x in terms(t[2])) and t[3][0] == 'lit': return True
        if t[0] == 'call' and t[2] and len(t[2]) == 1: t = t[2][0]
        elif t[0] == 'field' or t[0] == 'pl': t = t[1]
        else: return False
    return False


def layout(cx, t, f):
    """(texts between, roles) of a location."""
    xs = flat(t)
    if xs is None: return None
    texts, roles = [''], []
    for x in xs:
        if isinstance(x, str): texts[-1] += x
        else:
            r = role(cx, x, f)
            if r is None: return ('foreign', x)
            roles.append(r); texts.append('')
    return tuple(texts), tuple(roles)


def ambiguous(texts, roles):
    """Why two combinations could share a location; None when they cannot."""
    for r in ('prefix', 'index', 'type'):
        if r not in roles: return f'the location does not depend on the {dict(prefix="submission prefix", index="chunk index", type="direction")[r]}'
    vs = [(r, i) for i, r in enumerate(roles)]
    for (a, i), (b, j) in zip(vs, vs[1:]):
        sep = texts[i + 1]
        if re.search(r'[^A-Za-z0-9]', sep): continue
        if {a, b} == {'index', 'type'} and not re.search(r'\d', sep): continue      # digits next to letters
        if 'base' in (a, b) and a == 'base' and '' == sep: return 'the prefix runs into the base path'
        return f'the {a} runs into the {b} ("{sep}" between them), so different combinations share a location'
    return None


def sites(cx, *names):
    """(fn, path, index, event) of calls of the object store itself."""
    for f in osfns(cx):
        if f.kind not in ('Fn', 'AssocFn'): continue
        for p in cx.paths(f, tag='os'):
            for i, e in enumerate(p.ev):
                if e.k == 'call' and last(e.path) in names and re.search(r'ObjectStore(Ext)?::', e.path) and 'ObjectStoreClient' not in e.path: yield f, p, i, e


PUT = ('put', 'put_opts', 'put_multipart'); GET = ('get', 'get_opts', 'get_range')


@rule('locations', 'the location of a content is a one-to-one function of prefix, index and direction, the same for storing and retrieving', 'C26', 'C27', floor=4)
def r_locations(cx):
    seen = {}
    for f, p, i, e in sites(cx, *PUT, *GET):
        if f.name not in ('store_chunk', 'retrieve_chunk'): continue
        n = f.name
        lo = layout(cx, e.args[1], f) if len(e.args) > 1 else None
        if lo is None: cx.skip(n, f'location {show(e.args[1])[:80]}'); continue
        if lo[0] == 'foreign' and lossy(lo[1]):
            cx.ob(f'{n}: the location tells contents apart', False, wh(e), f'{n}: only {show(lo[1])[:80]} is part of the location, so different combinations share one'); continue
        if lo[0] == 'foreign': cx.skip(n, f'part {show(lo[1])[:60]} of the location'); continue
        texts, roles = lo
        why = ambiguous(texts, roles)
        cx.ob(f'{n}: the location tells contents apart', why is None, wh(e), f'{n}: {why}')
        cx.ob(f'{n}: the location is under the base path', bool(roles) and roles[0] == 'base' and texts[0] in ('', '/'), wh(e), f'{n}: the location is not under the configured base path')
        seen.setdefault('put' if last(e.path) in PUT else 'get', {})[lo] = e
    if seen.get('put') and seen.get('get'):
        e = next(iter(seen['get'].values()))
        cx.ob('contents are retrieved where they were stored', set(seen['put']) == set(seen['get']), wh(e), f'stored under {sorted(seen["put"])}, retrieved from {sorted(seen["get"])}')
    # the texts standing for the two directions
    f = next((f for f in osfns(cx) if 'ChunkType as' in f.path and 'Display' in f.path), None)
    if f is None: cx.skip('ChunkType', 'no Display implementation'); return
    texts = {}
    for p in cx.paths(f):
        t = p.val
        s = None
        if p.out == 'val' and t[0] == 'mac' and t[1] == 'write':
            a = [x for x in t[3] if x[0] == 'lit']
            s = a[0][1] if len(a) == 1 else t[2] if not re.search(r'\{', t[2]) else None
        elif p.out == 'val' and t[0] == 'call' and last(t[1]) in ('write_str', 'pad', 'fmt'):
            s = next((lit(x) for x in t[2] if lit(x) is not None), None)
        if s is None: cx.skip('ChunkType', f'text {show(t)[:60]}'); continue
        who = tuple(c[2] for c, b in p.st.path if c[0] == 'is' and b) or tuple('not ' + c[2] for c, b in p.st.path if c[0] == 'is')
        texts.setdefault(s, set()).add(who)
    if texts: cx.ob('the two directions have different texts', len(texts) >= 2 and all(len(v) == 1 for v in texts.values()) and not any(re.search(r'[/\d]', s) for s in texts), f'{f.file}:{f.line}', f'the directions are written as {sorted(texts)}')


@rule('content', 'what is stored is the content given, what is retrieved is the content found there; a failure is an error naming that chunk', 'C26', 'C27', 'C28', floor=4)
def r_content(cx):
    for n, ops in (('store_chunk', PUT), ('retrieve_chunk', GET)):
        f = cx.fn(OS + n)
        if not f: continue
        for p in cx.paths(f, tag='os'):
            if p.out != 'val': continue
            cs = [e for e in p.ev if e.k == 'call' and last(e.path) in ops and re.search(r'ObjectStore(Ext)?::', e.path)]
            where = wh(cs[0]) if cs else f'{f.file}:{f.line}'
            failed = [e for e in cs if failed_on(p, e.res)]
            if p.result() == 'Ok':
                good = [e for e in cs if not failed_on(p, e.res) and truth(p, ('is', e.res, 'Ok')) in (True,) or p.st.vari.get(e.res) == 'Ok']
                cx.ob(f'{n}: success means the store succeeded', bool(good), where, f'{n} reports success {"although the store failed" if failed else "without having asked the store" if not cs else "without looking at the outcome"}')
                if n == 'retrieve_chunk':
                    okv = p.val[2][0] if p.val[0] == 'v' else p.val
                    fromget = any(x[0] == 'pl' and any(x[1] == e.res for e in cs) and x[2] == 'Ok' for x in terms(okv))
                    bs = [x for x in terms(okv) if x[0] == 'call' and last(x[1]) == 'bytes']
                    if any(x[0] == 'call' and last(x[1]) not in ('bytes', 'get', 'into', 'to_vec', 'from', 'get_opts') for x in terms(okv) if not (x[0] == 'call' and last(x[1]) in ('chunk_path', 'clone', 'base_path'))) and not fromget: pass
                    cx.ob(f'{n}: the content is what was found', fromget and bool(bs), where, f'{n} returns {show(okv)[:60]}, not the bytes found in the store')
                    cut = [x for x in terms(okv) if x[0] == 'call' and last(x[1]) in ('slice', 'split_to', 'truncate', 'trim', 'unwrap_or_default')]
                    if cut: cx.ob(f'{n}: the content is complete', False, where, f'{n} returns only {show(cut[0])[:60]}')
            elif p.result() == 'Err':
                err = p.val[2][0]
                fs = fields(err)
                if not fs: cx.skip(n, f'error {show(err)[:60]}'); continue
                ok = all(k not in fs or role(cx, fs[k], f) == r for k, r in (('chunk_index', 'index'), ('chunk_type', 'type'), ('submission_prefix', 'prefix')))
                cx.ob(f'{n}: the error names the chunk', ok, where, f'the error of {n} names another chunk: {show(err)[:120]}')
        if n == 'store_chunk':
            cp = [q['name'] for q in f.params if 'Vec<u8>' in q.get('ty', '') or 'Bytes' in q.get('ty', '')]
            for _, p, i, e in [s for s in sites(cx, *PUT) if s[0] is f]:
                if len(cp) != 1 or len(e.args) < 3: cx.skip(n, 'content parameter not recognised'); continue
                once = [x for a in e.args[3:] for x in terms(a) if x[0] in ('v', 'const') and last(str(x[1])) in ('Create', 'Update')]
                cx.ob(f'{n}: stored again', not once, wh(e), f'{n} fails when the content is already there, so a chunk that is processed again after its reservation expired can never be completed')
                cx.ob(f'{n}: the content stored is the content given', any(param(x, cp[0]) for x in terms(e.args[2])) and not calls(e.args[2], 'slice', 'truncate', 'split_off', 'to_ascii_lowercase', 'trim', 'skip', 'take'), wh(e), f'{n} stores {show(e.args[2])[:60]}')


def failed_on(p, res):
    return truth(p, ('is', res, 'Ok')) is False or truth(p, ('is', res, 'Err')) is True


def plus_one(t, base):
    return isinstance(t, tuple) and t and (t[0] == 'bin' and t[1] == '+' and {repr(t[2]), repr(t[3])} == {repr(base), repr(('lit', 1))} or
                                           t[0] == 'call' and last(t[1]) in ('add', 'wrapping_add', 'saturating_add', 'checked_add') and len(t[2]) == 2 and t[2][0] == base and t[2][1] == ('lit', 1))


def mentions(t, x): return any(y == x for y in terms(t))


ADAPT = ('skip', 'filter', 'filter_map', 'take', 'rev', 'step_by', 'try_filter', 'try_filter_map', 'try_skip_while', 'skip_while', 'take_while', 'buffer_unordered', 'dedup', 'chain')


@rule('store-sequence', 'the i-th content of a sequence is stored under index i, starting at zero, and the number stored is reported', 'C26', 'C27', floor=2)
def r_store_chunks(cx):
    f = cx.fn(OS + 'store_chunks')
    if not f: return
    where = f'{f.file}:{f.line}'
    P = cx.P
    stream = [q['name'] for q in f.params if q.get('name') not in ('self',) and 'str' not in q.get('ty', '') and 'ChunkType' not in q.get('ty', '')]
    atoms = P.atoms(OS + 'store_chunk')
    folds = {}
    looped = False
    for p in cx.paths(f, atomic=atoms, tag='seq'):
        if p.out == 'loop': looped = True
        for e in p.ev:
            if e.k == 'call' and last(e.path) in ('try_fold', 'fold') and len(e.args) == 3: folds[e.res] = (e, p)
            if e.k == 'call' and last(e.path) in ('try_for_each_concurrent', 'for_each_concurrent', 'try_buffer_unordered', 'buffer_unordered'): looped = None
    if len({(e.args[1], e.args[2]) for e, p in folds.values()}) == 1:
        e, p = next(iter(folds.values()))
        src, init, clo = e.args
        cut = [x for x in terms(src) if x[0] == 'call' and last(x[1]) in ADAPT]
        cx.ob('every content of the sequence is stored', not cut, wh(e), f'store_chunks leaves out or reorders contents: {show(src)[:60]}')
        cx.ob('the first index is zero', init == ('lit', 0), wh(e), f'the first content is stored under index {show(init)}')
        acc, item = ('param', 'fold', 'index'), ('param', 'fold', 'content')
        n = len(p.ev)
        for q in cx.w.value_paths(clo, p.I, p.st, (acc, item)):
            st = [x for x in q.ev[n:] if x.k == 'call' and x.path.endswith('::store_chunk')]
            if q.out != 'val': continue
            if q.result() == 'Ok':
                cx.ob('each content is stored once', len(st) == 1, wh(e), f'a content is stored {len(st)} times')
                for s in st:
                    cx.ob('the content is stored under its index', len(s.args) == 5 and strip(s.args[2]) == acc, wh(s), f'the i-th content is stored under {show(s.args[2])[:40]}')
                    cx.ob('the content is stored as given', len(s.args) == 5 and mentions(s.args[4], item), wh(s), f'the content stored is {show(s.args[4])[:40]}')
                    cx.ob('prefix and direction are those asked for', len(s.args) == 5 and role(cx, s.args[1], f) == 'prefix' and role(cx, s.args[3], f) == 'type', wh(s), f'stored with {show(s.args[1])[:30]}, {show(s.args[3])[:30]}')
                    cx.ob('a failed store ends the sequence with an error', not failed_on(q, s.res) and (truth(q, ('is', s.res, 'Ok')) is True or q.st.vari.get(s.res) == 'Ok'), wh(s), 'store_chunks goes on after a content could not be stored')
                nv = q.val[2][0]
                cx.ob('the next index is one higher', plus_one(nv, acc), wh(e), f'after index i the next content is stored under {show(nv)[:40]}')
        for p in cx.paths(f, atomic=atoms, tag='seq'):
            if p.out != 'val': continue
            fr = [r for r in folds if any(x.k == 'call' and x.res == r for x in p.ev)]
            if p.result() == 'Ok':
                v = p.val[2][0]
                cx.ob('the number stored is reported', any(v == ('pl', r, 'Ok', 0) for r in fr), where, f'store_chunks reports {show(v)[:60]} contents stored')
            if p.result() is not None:
                bad = [r for r in fr if failed_on(p, r)]
                cx.ob('a failure is reported', not (bad and p.result() == 'Ok'), where, 'store_chunks reports success although storing failed')
        return
    if looped is None:
        cx.skip('store_chunks', 'concurrent storing'); return
    # a loop: the index is a loop variable that starts at zero and is raised by one after each store
    got = False
    for p in cx.paths(f, atomic=atoms, tag='seq'):
        for i, e in enumerate(p.ev):
            if e.k == 'call' and e.path.endswith('::store_chunk') and len(e.args) == 5:
                got = True
                ix = strip(e.args[2])
                if ix[0] == 'phi':
                    cx.ob('the first index is zero', ix[3] == ('lit', 0), wh(e), f'the first content is stored under index {show(ix[3])}')
                    steps = [x for x in p.ev[i:] if x.k == 'assign' and mentions(x.rhs, ix)]
                    for s in steps: cx.ob('the next index is one higher', plus_one(s.rhs, ix), wh(e), f'the next index is {show(s.rhs)[:40]}')
                elif ix[0] == 'elem' or ix == ('lit', 0): pass
                else: cx.skip('store_chunks', f'index {show(ix)[:60]}')
                cx.ob('prefix and direction are those asked for', role(cx, e.args[1], f) == 'prefix' and role(cx, e.args[3], f) == 'type', wh(e), f'stored with {show(e.args[1])[:30]}, {show(e.args[3])[:30]}')
                if p.out == 'val' and p.result() == 'Ok':
                    cx.ob('a failed store ends the sequence with an error', not failed_on(p, e.res), wh(e), 'store_chunks goes on after a content could not be stored')
    cx.skip('store_chunks', 'a loop: judged in part' if got else 'shape not recognised')


@rule('retrieve-sequence', 'retrieving n contents yields exactly those of index 0 to n-1, in order, each with its own outcome', 'C26', 'C29', floor=3)
def r_retrieve_chunks(cx):
    f = cx.fn(OS + 'retrieve_chunks')
    if not f: return
    where = f'{f.file}:{f.line}'
    atoms = cx.P.atoms(OS + 'retrieve_chunk')
    count = [q['name'] for q in f.params if 'u63' in q.get('ty', '') or 'ChunkCount' in q.get('ty', '') or q.get('ty') in ('u64', 'usize')]
    ps = [p for p in cx.paths(f, atomic=atoms, tag='ret') if p.out == 'val']
    if not ps or len(count) != 1: cx.skip('retrieve_chunks', 'not recognised'); return
    p = ps[0]
    t = p.val
    outer = []
    while isinstance(t, tuple) and t and t[0] == 'call' and last(t[1]) not in ('unfold', 'try_unfold', 'iter', 'then', 'map') and t[2]:
        outer.append(last(t[1])); t = t[2][0]
    bad = [x for x in outer if x in ADAPT or x in ('try_buffer_unordered',)]
    cx.ob('the contents are yielded in order and completely', not bad, where, f'retrieve_chunks passes the contents through {bad}')
    n = len(p.ev)
    isn = lambda x: any(param(y, count[0]) for y in terms(x))
    exact = lambda x: param(strip(x), count[0])
    if t[0] == 'call' and last(t[1]) in ('unfold',) and len(t[2]) == 2:
        init, clo = t[2]
        parts = init[1] if init[0] == 'tuple' else (init,)
        if init[0] == 'tuple' and len(init) > 2: parts = init[1:]
        zero = [k for k, x in enumerate(parts) if strip(x)[0] == 'lit' and isinstance(strip(x)[1], int)]
        if len(zero) != 1: cx.skip('retrieve_chunks', f'initial state {show(init)[:60]}'); return
        z = zero[0]
        cx.ob('the first index is zero', strip(parts[z]) == ('lit', 0), where, f'the first content retrieved has index {show(parts[z])}')
        ix = ('param', 'unfold', 'index')
        arg = ('tuple', tuple(ix if k == z else x for k, x in enumerate(parts))) if len(parts) > 1 else ix
        for q in cx.w.value_paths(clo, p.I, p.st, (arg,)):
            if q.out != 'val' or not (isinstance(q.val, tuple) and q.val[0] == 'v'): continue
            rel = [bound(c, b, ix, exact) for c, b in q.st.path if isinstance(c, tuple)]
            rel = [r for r in rel if r]
            if last(q.val[1]) == 'None':
                cx.ob('the stream ends at the count only', 'ge' in rel, where, f'the stream ends when {[(show(c)[:40], b) for c, b in q.st.path]}'[:160])
            else:
                cx.ob('no index at or above the count is retrieved', 'lt' in rel, where, f'a content is retrieved without its index being below the count ({[(show(c)[:40], b) for c, b in q.st.path]})'[:200])
                v = q.val[2][0]
                xs = v[1] if v[0] == 'tuple' and len(v) == 2 else v[1:]
                if len(xs) != 2: cx.skip('retrieve_chunks', 'element not recognised'); continue
                el, ns = xs
                rc = [e for e in q.ev[n:] if e.k == 'call' and e.path.endswith('::retrieve_chunk')]
                cx.ob('each index is retrieved once', len(rc) == 1 and (el == rc[0].res or mentions(el, rc[0].res)), where, f'the element is {show(el)[:60]}')
                for e in rc:
                    cx.ob('the content retrieved is that of the index', strip(e.args[2]) == ix, wh(e), f'the i-th content is retrieved from index {show(e.args[2])[:40]}')
                    cx.ob('prefix and direction are those asked for', role(cx, e.args[3], f) == 'type' and any(x[0] == 'param' and x[2] not in count for x in terms(e.args[1])), wh(e), f'retrieved with {show(e.args[1])[:30]}, {show(e.args[3])[:30]}')
                np_ = (ns[1] if ns[0] == 'tuple' and len(ns) == 2 else ns[1:]) if ns[0] == 'tuple' else (ns,)
                cx.ob('the next index is one higher', len(np_) == len(parts) and plus_one(strip(np_[z]), ix), where, f'the next index is {show(np_[z])[:40] if len(np_) > z else "lost"}')
        return
    # stream::iter(0..count).then(…) / .map(…).buffered(n)
    if t[0] == 'call' and last(t[1]) in ('then', 'map') and len(t[2]) == 2:
        src, clo = t[2]
        rng = [x for x in terms(src) if x[0] == 'struct' and 'Range' in x[1]]
        cut = [x for x in terms(src) if x[0] == 'call' and last(x[1]) in ADAPT]
        inc = [x for x in terms(src) if x[0] == 'call' and 'RangeInclusive' in x[1]]
        if inc: cx.ob('no index at or above the count is retrieved', False, where, f'the indexes are {show(src)[:60]}'); return
        if len(rng) != 1: cx.skip('retrieve_chunks', f'indexes {show(src)[:60]}'); return
        fs = fields(rng[0])
        cx.ob('the first index is zero', strip(fs.get('start', ())) == ('lit', 0), where, f'the first index is {show(fs.get("start", ()))[:30]}')
        cx.ob('no index at or above the count is retrieved', isn(fs.get('end', ())) and not any(x[0] == 'bin' for x in terms(fs.get('end', ()))), where, f'the indexes end at {show(fs.get("end", ()))[:40]}')
        cx.ob('the stream ends at the count only', not cut, where, f'the indexes are {show(src)[:60]}')
        ix = ('param', 'stream', 'index')
        for q in cx.w.value_paths(clo, p.I, p.st, (ix,)):
            rc = [e for e in q.ev[n:] if e.k == 'call' and e.path.endswith('::retrieve_chunk')]
            for e in rc:
                cx.ob('the content retrieved is that of the index', any(x == ix for x in terms(e.args[2])) and not any(x[0] == 'bin' for x in terms(e.args[2])), wh(e), f'the i-th content is retrieved from index {show(e.args[2])[:40]}')
                cx.ob('prefix and direction are those asked for', role(cx, e.args[3], f) == 'type', wh(e), f'retrieved with {show(e.args[3])[:30]}')
        return
    cx.skip('retrieve_chunks', f'stream {show(t)[:60]}')


def bound(c, b, ix, exact):
    """'lt' / 'ge' when the condition says index < count / index >= count."""
    while c and c[0] in ('not', 'un'): c, b = c[-1], not b
    if c[0] != 'bin' or c[1] not in ('<', '<=', '>', '>=', '==', '!='): return None
    op, l, r = c[1], strip(c[2]), strip(c[3])
    if r == ix and exact(c[2]): op, l, r = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op), r, c[2]
    elif not (l == ix and exact(c[3])): return None
    if not b: op = {'<': '>=', '>=': '<', '>': '<=', '<=': '>', '==': '!=', '!=': '=='}[op]
    return {'<': 'lt', '>=': 'ge', '==': 'ge', '!=': 'lt'}.get(op)


@rule('store-client', 'the client stores under the location its URL names, and uses the retry settings and options given', 'C26', 'C35', floor=3)
def r_new(cx):
    f = cx.fn(OS + 'new_with_retry')
    if not f: return
    where = f'{f.file}:{f.line}'
    ok = [p for p in cx.paths(f, tag='new') if p.out == 'val' and p.result() == 'Ok']
    applied = {e.node.get('sp') for p in ok for e in p.ev if e.k == 'for' and any(param(x, 'options') for x in terms(e.iter)) and
               any(x[0] == 'struct' and any(param(y, 'options') for y in terms(fields(x).get('object_store', ('unit',)))) for x in terms(p.val))}
    for p in ok:
        st = [fields(x) for x in terms(p.val) if x[0] == 'struct' and 'base_path' in fields(x)]
        if not st: cx.skip('new_with_retry', 'client not recognised'); continue
        b = st[0]['base_path']
        cx.ob('the base path is that of the URL', any(param(x, 'object_store_url') for x in terms(b)) and bool(calls(b, 'parse')), where, f'the base path is {show(b)[:60]}')
        store = st[0].get('object_store')
        if store is None: continue
        if calls(store, 'build'):
            cx.ob('the retry settings given are used', any(x[0] == 'call' and last(x[1]) == 'with_retry' and any(param(y, 'retry_config') for y in terms(x)) for x in terms(store)), where, 'the client of a remote store is built without the retry settings given')
        given = lambda t: any(param(x, 'options') for x in terms(t))
        # a loop over the options that passes them on in some of its rounds
        over = {e.node.get('sp') for e in p.ev if e.k in ('for', 'for0') and given(e.iter)}
        cx.ob('the options given are used', given(store) or bool(over & applied), where, 'the client is built without the options given')
        cx.ob('the store is that of the URL', any(param(x, 'object_store_url') for x in terms(store)), where, 'the client is built for another URL')
