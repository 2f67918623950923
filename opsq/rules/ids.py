"""Identifiers keep their value through every conversion (C38)."""
import re
from ..core import rule, short, wh, TECH, NOTES
from ..interp import show, terms, last, calls, norm_cond
from .. import prog as PR, interp as IN
from .util import *

TECH['C38'] = 'interval analysis of the conditions on every path of each identifier conversion, value-number identity of the converted value, scan of all narrowing casts, structural audit of generation and timestamps'
NOTES['C38'] = "Integer parsing, printing and encoding are taken from the standard library, serde and sqlx. That the generator's identifiers increase and carry the time is taken from the snowflaked library; how it is set up and read is checked."

MAX = 2**63 - 1
ID = re.compile(r'\b(SubmissionId|ChunkIndex)\b')
DOM = {'i64': (-2**63, MAX), 'u64': (0, 2**64 - 1), 'usize': (0, 2**64 - 1), 'u63': (0, MAX), 'isize': (-2**63, MAX), 'i128': (-2**127, 2**127 - 1), 'u128': (0, 2**128 - 1), 'u32': (0, 2**32 - 1), 'i32': (-2**31, 2**31 - 1)}
EXACT = ('into', 'from', 'new', 'cast_signed', 'cast_unsigned', 'get', 'clone', 'to_owned', 'try_into', 'try_from')


def typ(s):
    s = re.sub(r'Unnormalized \{ value: (.*), \.\. \}$', r'\1', str(s or '').strip())
    s = s.lstrip('&').replace('mut ', '')
    return last(s) if '<' not in s else s


def const(t):
    """The number a constant term stands for."""
    if not isinstance(t, tuple) or not t: return None
    if t[0] == 'lit': return t[1] if isinstance(t[1], int) and not isinstance(t[1], bool) else None
    if t[0] == 'const':
        m = re.search(r'\b(u63|i64|u64|i32|u32|usize|isize)>?::(MAX|MIN)$', str(t[1]))
        if m: return DOM[m.group(1)][m.group(2) == 'MAX']
        return None
    if t[0] in ('un', 'neg') and len(t) >= 2:
        v = const(t[-1])
        return -v if v is not None and (t[0] == 'neg' or t[1] == '-') else None
    if t[0] == 'bin' and t[1] in '+-*' or t[0] == 'bin' and t[1] == '<<':
        a, b = const(t[2]), const(t[3])
        if a is None or b is None: return None
        return {'+': a + b, '-': a - b, '*': a * b, '<<': a << b if 0 <= b < 128 else None}[t[1]]
    if t[0] in ('v', 'call') and len(t) > 2 and isinstance(t[2], tuple) and len(t[2]) == 1 and last(str(t[1])) in EXACT + ('SubmissionId', 'ChunkIndex'): return const(t[2][0])
    return None


def meet(iv, lo, hi):
    return [(max(a, lo), min(b, hi)) for a, b in iv if max(a, lo) <= min(b, hi)]


def isval(t, src):
    """The term is the source value itself, behind exact conversions."""
    while isinstance(t, tuple) and t and t != src:
        if t[0] in ('v', 'call') and len(t) > 2 and isinstance(t[2], tuple) and len(t[2]) == 1 and last(str(t[1])) in EXACT + ('SubmissionId', 'ChunkIndex', 'u63'): t = t[2][0]
        elif t[0] == 'pl' and t[2] == 'Ok' and t[1][0] == 'call' and last(str(t[1][1])) in ('try_into', 'try_from', 'new'): t = t[1][2][0]
        elif t[0] == 'field' and t[2] in ('0', 0): t = t[1]
        else: break
    return t == src


def interval(p, src, dom, target):
    """Values of src for which the path is taken: list of (lo, hi); None when a condition is not understood."""
    iv = [dom]
    for c, v in p.st.path:
        if not isinstance(c, tuple): continue
        c2, neg = norm_cond(c)
        v = bool(v) ^ bool(neg)
        if not any(x == src for x in terms(c2)): continue
        if c2[0] == 'is':
            t = c2[1]
            if t == src or not any(x == src for x in terms(t)): continue
            if t[0] == 'call' and last(str(t[1])) in ('try_into', 'try_from', 'new') and t[2] and isval(t[2][-1] if len(t[2]) == 1 else t[2][0], src):
                d = target(p, t)
                if d is None: return None
                ok = (c2[2] == 'Ok') == v
                if ok: iv = meet(iv, *d)
                else: iv = meet(iv, -2**200, d[0] - 1) + meet(iv, d[1] + 1, 2**200)
                continue
            if any(x == src for x in terms(t)) and t[0] == 'pl' or t[0] == 'call' and last(str(t[1])) in ('deserialize', 'decode', 'parse', 'extract'): continue
            return None
        if c2[0] == 'bin' and c2[1] in ('<', '<=', '>', '>=', '==', '!='):
            a, b, op = c2[2], c2[3], c2[1]
            if isval(b, src) and not isval(a, src): a, b, op = b, a, {'<': '>', '<=': '>=', '>': '<', '>=': '<=', '==': '==', '!=': '!='}[op]
            k = const(b)
            if not isval(a, src) or k is None: return None
            if not v: op = {'<': '>=', '<=': '>', '>': '<=', '>=': '<', '==': '!=', '!=': '=='}[op]
            if op == '<': iv = meet(iv, -2**200, k - 1)
            elif op == '<=': iv = meet(iv, -2**200, k)
            elif op == '>': iv = meet(iv, k + 1, 2**200)
            elif op == '>=': iv = meet(iv, k, 2**200)
            elif op == '==': iv = meet(iv, k, k)
            else: iv = meet(iv, -2**200, k - 1) + meet(iv, k + 1, 2**200)
            continue
        if c2[0] == 'call' and last(str(c2[1])) in ('is_negative', 'is_positive') and isval(c2[2][0], src):
            n = last(str(c2[1])) == 'is_negative'
            if n: iv = meet(iv, -2**200, -1) if v else meet(iv, 0, 2**200)
            else: iv = meet(iv, 1, 2**200) if v else meet(iv, -2**200, 0)
            continue
        return None
    return iv


def union(ivs):
    out = []
    for a, b in sorted(ivs):
        if out and a <= out[-1][1] + 1: out[-1] = (out[-1][0], max(b, out[-1][1]))
        else: out.append((a, b))
    return out


def bound(n):
    for e in (63, 64, 32, 31, 127, 128):
        if abs(n) > 2**e // 4 and abs(abs(n) - 2**e) < 9: return ('-' if n < 0 else '') + f'2^{e}' + (f'{abs(n) - 2**e:+d}' if abs(n) != 2**e else '')
    return str(n)


def conversions(cx):
    """[(function, source kind)] of the conversions of identifiers, in both crates."""
    out = []
    for k, f in cx.P.fns.items():
        if f.body is None or '::test' in k or '::tests::' in k: continue
        tr = str(f.trait or '')
        st = str(f.self_ty or '')
        if f.trait and ID.search(tr + st) and re.search(r'\b(From|TryFrom|Into|TryInto|Serialize|Deserialize|Encode|Decode|FromStr)\b', tr): out.append(f)
        elif not f.trait and ID.search(st) and f.name in ('new', 'from_u64', 'from_i64', 'as_u64', 'as_i64') and f.params: out.append(f)
        elif re.search(r'::(SubmissionId|ChunkIndex)::new$', f.path) and f.params: out.append(f)
    return out


def target_of(p, t):
    """Value range of the type a checked conversion goes to."""
    for e in p.ev:
        n = e.node if e.k == 'call' else None
        if n and e.a.get('res') == t:
            m = re.search(r'Result<([^,]+),', str(n.get('ty', '')))
            if m:
                ty = typ(m.group(1))
                if ID.search(ty): return (0, MAX)
                if ty in DOM: return DOM[ty]
    # std conversions leave no event: take the type from the node that made the term
    ns = p.I.__dict__.get('opsq_nodes')
    return None


@rule('range-checked', 'a conversion from a number gives an identifier for exactly the numbers from 0 to 2^63-1, and an error for every other', 'C38', floor=5)
def r_range(cx):
    for f in conversions(cx):
        who = (('py ' if 'python' in f.crate else '') + short(f.path))[-70:]
        st = str(f.self_ty or '') + str(f.path)
        srcs = []
        if f.params and typ(f.params[0].get('ty')) in DOM: srcs.append((('param', f.path, f.params[0]['name']), DOM[typ(f.params[0]['ty'])]))
        ps = cx.paths(f)
        if not srcs:
            for p in ps:
                for e in p.ev:
                    if e.k == 'call' and last(e.path) in ('deserialize', 'decode', 'parse', 'extract', 'from_str'):
                        m = re.search(r'Result<([^,<>]+),', str((e.node or {}).get('ty', '')))
                        if m and typ(m.group(1)) in DOM:
                            s = (('pl', e.res, 'Ok', 0), DOM[typ(m.group(1))])
                            if s not in srcs: srcs.append(s)
        if not srcs or not ID.search(str(f.self_ty or f.path)): continue
        if re.search(r'for (u63|u64|i64)>::|<(u63|u64|i64|ux::u63) as', f.path): continue
        src, dom = srcs[0]
        oks, bad = [], False
        for p in ps:
            iv = interval(p, src, dom, lambda p, t: tgt(cx, f, p, t))
            if iv is None: cx.skip(who, 'a condition on the value is not understood'); bad = True; break
            if not iv: continue
            if p.out == 'panic': cx.ob(f'{who}: no panic', False, f.where, f'{who} panics for {bound(iv[0][0])}'); continue
            if p.result() == 'Err': continue
            oks += iv
        if bad: continue
        if typ(f.params[0].get('ty')) in DOM or f.name in ('deserialize', 'decode'):
            u = union(oks)
            lim = (0, MAX if f.name in ('deserialize', 'decode') else min(MAX, dom[1]))
            for a, b in u:
                if b > MAX: cx.ob(f'{who}: too large', False, f.where, f'{who} does not turn {bound(max(a, MAX + 1))} into an error')
                if a < 0: cx.ob(f'{who}: negative', False, f.where, f'{who} does not turn {bound(min(b, -1))} into an error')
            u = meet(u, 0, MAX)
            cx.ob(f'{who}: the whole range', u == [lim], f.where, f'{who} refuses valid identifiers: accepts {", ".join(bound(a) + " to " + bound(b) for a, b in u) or "nothing"}')


def tgt(cx, f, p, t):
    d = target_of(p, t)
    if d: return d
    # a conversion of the standard library: its type is on the call in the body
    for n in PR.walk(f.body):
        if n.get('k') in ('mcall', 'call') and last(str(PR.callee(n) or n.get('path') or '')) in ('try_into', 'try_from', 'new'):
            m = re.search(r'Result<([^,]+),', str(n.get('ty', '')))
            if m:
                ty = typ(m.group(1))
                if ID.search(ty): return (0, MAX)
                if ty in DOM: return DOM[ty]
    return None


LOSSY = ('wrapping_add', 'wrapping_sub', 'saturating_sub', 'saturating_add', 'min', 'max', 'clamp', 'abs', 'unsigned_abs', 'unwrap_or', 'unwrap_or_default', 'rem_euclid', 'swap_bytes', 'reverse_bits', 'rotate_left', 'rotate_right', 'leading_zeros', 'to_be', 'to_le', 'truncate', 'wrapping_mul', 'wrapping_abs', 'not', 'checked_rem')


@rule('same-value', 'what comes out of a conversion is the value that went in', 'C38', floor=10)
def r_same(cx):
    for f in conversions(cx):
        if 'SystemTime' in str(f.self_ty) + str(f.trait) + f.path: continue
        who = (('py ' if 'python' in f.crate else '') + short(f.path))[-70:]
        for p in cx.paths(f):
            if p.out != 'val' or p.result() == 'Err': continue
            outs = [p.val]
            if f.name in ('serialize', 'encode', 'encode_by_ref'):
                outs = [e.args[0] for e in p.ev if e.k == 'call' and last(e.path).startswith(('serialize', 'encode')) and e.args] or [p.val]
                for e in p.ev:
                    if e.k == 'call' and last(e.path).startswith('serialize_') and len(e.args) > 1: outs.append(e.args[1])
            for v in outs:
                for t in terms(v):
                    if t[0] == 'bin' and t[1] in ('+', '-', '*', '/', '%', '&', '|', '^', '<<', '>>'): cx.ob(who, False, f.where, f'{who} changes the value: {show(t)[:60]}')
                    elif t[0] == 'call' and last(str(t[1])) in LOSSY and not const_only(t): cx.ob(who, False, f.where, f'{who} changes the value: {show(t)[:60]}')
                    elif t[0] in ('un', 'neg', 'not') and len(t) > 1 and t[0] != 'not': cx.ob(who, False, f.where, f'{who} changes the value: {show(t)[:60]}')
                inputs = {x for x in terms(v) if x[0] == 'param'}
                if f.name in ('serialize', 'encode', 'encode_by_ref', 'from', 'into', 'try_from', 'new', 'decode', 'deserialize'):
                    if inputs or any(x[0] == 'call' and last(str(x[1])) in ('deserialize', 'decode', 'extract') for x in terms(v)): cx.ob(who, True, f.where)
                    elif const(v) is not None or v[0] == 'lit' or v[0] in ('v', 'struct') and not [x for x in terms(v) if x[0] in ('call', 'unk', 'pl', 'param', 'mac')]: cx.ob(who, False, f.where, f'{who} gives {show(v)[:50]} whatever goes in')
                    else: cx.skip(who, show(v)[:60])


def const_only(t):
    return not [x for x in terms(t) if x[0] in ('param', 'pl')]


NARROW = {'u8', 'i8', 'u16', 'i16', 'u32', 'i32', 'f32', 'bool', 'char'}


@rule('no-narrowing', 'no identifier or chunk count is cast to a narrower number anywhere', 'C38', 'C06', floor=0)
def r_narrow(cx):
    n = 0
    convs = conversions(cx)
    for k, f in cx.P.fns.items():
        if f.body is None or '::test' in k: continue
        tainted, fed = set(), set()
        conv = f in convs
        for x in PR.walk(f.body):
            if x.get('k') == 'call' and x.get('args') and typ(x.get('ty')) in ('u63', 'SubmissionId', 'ChunkIndex'):
                for y in PR.walk({'k': 'x', 'args': x['args']}):
                    if y.get('k') == 'cast': fed.add(id(y))
        for x in PR.walk(f.body):
            if x.get('k') == 'let' and isinstance(x.get('init'), dict) and isinstance(x.get('pat'), dict) and x['pat'].get('k') == 'bind' and idlike(x['init']): tainted.add(x['pat']['id'])
        for x in PR.walk(f.body):
            if x.get('k') == 'cast':
                n += 1
                to = typ(x.get('ty'))
                e = x.get('e') or {}
                if to in NARROW and ((conv or id(x) in fed) and typ(e.get('ty')) in DOM or idlike(e) or e.get('k') == 'path' and (e.get('res') or {}).get('id') in tainted and (e.get('res') or {}).get('r') == 'local'):
                    cx.ob(f'{short(f.path)}: cast to {to}', False, x.get('sp') or f.where, f'an identifier is cast to {to} in {short(f.path)}')
                else: cx.ob(f'{short(f.path)}: cast to {to}', True)
                # casting a number that may be negative or too large into an identifier's number without a check
                if ID.search(str(f.self_ty or '') + str(f.trait or '')) and to in ('u64', 'i64') and typ(e.get('ty')) in ('i64', 'u64', 'f64', 'i128', 'u128', 'f32'):
                    cx.sites.add(x.get('sp') or f.where)


def idlike(e):
    """An expression computed from an identifier by conversions alone."""
    d = 0
    while isinstance(e, dict) and d < 12:
        d += 1
        if ID.search(str(e.get('ty', ''))) and '(' not in str(e.get('ty', '')) and '<' not in str(e.get('ty', '')) or typ(e.get('ty')) == 'u63': return True
        if e.get('k') == 'mcall' and e.get('m') in ('into', 'clone', 'to_owned', 'cast_signed', 'cast_unsigned', 'unwrap', 'get'): e = e.get('recv')
        elif e.get('k') == 'call' and e.get('args') and len(e['args']) == 1: e = e['args'][0]
        elif e.get('k') in ('cast', 'paren', 'unary', 'ref', 'addr', 'field'): e = e.get('e')
        else: return False
    return False


@rule('generated', 'every new identifier comes unchanged from one generator, and the time read back from an identifier is the generator\'s epoch plus the milliseconds inside it', 'C38', floor=3)
def r_generated(cx):
    f = cx.P.fn('SubmissionId::new', crate='opsqueue')
    gens = set()
    if f is None: cx.skip('new', 'not found')
    else:
        for p in cx.paths(f):
            if p.out != 'val': continue
            g = calls(p.val, 'generate')
            for c in g: gens.add(c[2][0] if c[2] else None)
            if g:
                v = p.val
                cx.ob('new identifier', not [t for t in terms(v) if t[0] == 'bin' or t[0] == 'call' and last(str(t[1])) in LOSSY], f.where, f'the generated number is changed: {show(v)[:70]}')
                cx.ob('one generator', all(x and x[0] == 'const' for x in gens), f.where, 'an identifier comes from a generator that is made for it, so two identifiers can be equal')
            elif not [t for t in terms(p.val) if t[0] in ('unk', 'pl')]: cx.ob('new identifier', False, f.where, f'a new identifier is {show(p.val)[:60]}')
            else: cx.skip('new identifier', show(p.val)[:60])
    # one generator in the program
    makers = {}
    for tab in (cx.P.fns, cx.P.consts):
        for k, h in tab.items():
            if h.body is None or '::test' in k: continue
            for n in PR.walk(h.body):
                c = str(PR.callee(n) or '') if n.get('k') in ('call', 'mcall') else ''
                if 'snowflaked' in c and last(c) in ('new', 'new_unchecked', 'build', 'default'): makers.setdefault(k, h)
    if makers: cx.ob('one generator exists', len(makers) == 1, next(iter(makers.values())).where, f'identifiers come from {len(makers)} generators: {sorted(short(k) for k in makers)}')
    for k, h in makers.items():
        kind = str(getattr(h, 'kind', '')).lower()
        cx.ob('the generator is kept', k in cx.P.consts and 'const' != kind, h.where, 'the generator is made anew for every use')
    s = cx.P.fn('SubmissionId::system_time', crate='opsqueue')
    if s is None: cx.skip('time', 'not found'); return
    for p in cx.paths(s):
        if p.out != 'val': continue
        v = p.val
        ts = calls(v, 'timestamp')
        if not ts: cx.skip('time', show(v)[:70]); continue
        durs = [c for c in calls(v, 'from_millis', 'from_secs', 'from_micros', 'from_nanos', 'new', 'from_mins') if 'Duration' in str(c[1]) or 'time' in str(c[1])]
        for c in durs:
            if any(x in ts for a in c[2] for x in terms(a)): cx.ob('time: milliseconds', last(str(c[1])) == 'from_millis' and not [x for a in c[2] for x in terms(a) if x[0] == 'bin'], s.where, f'the milliseconds inside an identifier are read as {last(str(c[1]))}')
        ep = calls(v, 'epoch')
        if ep: cx.ob('time: the generator\'s epoch', all(e[2] and e[2][0] in gens for e in ep) if gens else True, s.where, 'the time is counted from another generator\'s epoch')
        elif [x for x in terms(v) if x[0] == 'const' and 'UNIX_EPOCH' in str(x[1])]: cx.ob('time: the generator\'s epoch', True)
        ops_ = [last(str(c[1])) for c in calls(v, 'checked_add', 'checked_sub', 'add', 'sub')] + [t[1] for t in terms(v) if t[0] == 'bin']
        for o in ops_: cx.ob('time: added', o in ('checked_add', 'add', '+'), s.where, 'the time inside an identifier is subtracted from the epoch')
        for c in ts: cx.ob('time: of this identifier', any(x[0] == 'param' for x in terms(c[2][0])), s.where, 'the time of another identifier is read')


@rule('bounded-lookup', 'a limit for a look-up is only accepted when one more than it still is a positive number for the database', 'C38', 'C09', floor=1)
def r_bound(cx):
    f = cx.P.fn('MaxSubmissions::new', crate='opsqueue')
    if f is None: return
    src = ('param', f.path, f.params[0]['name'])
    oks = []
    for p in cx.paths(f):
        iv = interval(p, src, (1, 2**64 - 1), lambda p, t: None)
        if iv is None: cx.skip('limit', 'a condition is not understood'); return
        if p.out == 'val' and p.result() == 'Ok': oks += iv
    u = union(oks)
    if not u: cx.ob('limit: some accepted', False, f.where, 'no limit is accepted'); return
    cx.ob('limit: no overflow', u[-1][1] <= MAX - 1, f.where, f'a limit of {bound(u[-1][1])} is accepted; one more than it is negative for the database, so a look-up is not limited')
    cx.ob('limit: small ones', any(a <= 1 and b >= 2**32 for a, b in u), f.where, 'ordinary limits are refused')


@rule('printed', 'an identifier is printed, and so put into URLs and log lines, as its number', 'C38', 'C25', floor=1)
def r_printed(cx):
    for k, f in cx.P.fns.items():
        if f.body is None or '::test' in k or f.crate != 'opsqueue': continue
        if not (f.name == 'fmt' and ID.search(str(f.self_ty or '')) and 'Display' in str(f.trait or '')): continue
        who = short(f.path)[-60:]
        for p in cx.paths(f):
            if p.out != 'val': continue
            fm = [e for e in p.ev if e.k == 'call' and last(e.path) == 'fmt']
            macs = [t for t in terms(p.val) if t[0] == 'mac']
            if fm: 
                cx.ob(who, len(fm) == 1 and 'Display' in fm[0].path and not [t for t in terms(fm[0].args[0]) if t[0] == 'bin'] and any(t[0] == 'param' for t in terms(fm[0].args[0])) or not re.search(r'Hex|Octal|Binary|Exp|Debug', fm[0].path) and not [t for t in terms(fm[0].args[0]) if t[0] == 'bin'], f.where, f'an identifier is printed as {short(fm[0].path)}({show(fm[0].args[0])[:40]})')
            elif macs:
                tx = str(macs[0][2]) if len(macs[0]) > 2 else ''
                cx.ob(who, bool(re.fullmatch(r'\{[\w.]*\}', tx.strip('"'))), f.where, f'an identifier is printed as {tx!r}')
            else: cx.skip(who, show(p.val)[:60])
