"""Loads exported facts, normalises instrumentation wrappers away, and indexes the program."""
import json, os, re
from . import facts as F


def _strip(e):
    """Removes #[tracing::instrument] scaffolding so that only user code remains (recursive)."""
    if isinstance(e, list):
        return [_strip(x) for x in e]
    if not isinstance(e, dict):
        return e
    k = e.get('k')
    if k == 'block':
        st = e['stmts']
        names = [s['pat'].get('name') if s['k'] == 'let' and s['pat']['k'] == 'bind' else None for s in st]
        if '__tracing_instrument_future' in names:
            fut = st[names.index('__tracing_instrument_future')]['init']
            while fut['k'] == 'paren': fut = fut['e']
            return {'k': 'await', 'e': _strip(fut), 'sp': e.get('sp'), 'ty': e.get('ty')}
        keep = []
        for s, n in zip(st, names):
            if n in ('__tracing_attr_span', '__tracing_attr_guard', '__tracing_attr_fake_return'):
                continue
            if s['k'] == 'expr' and s['e']['k'] == 'if':
                c = s['e']['c']
                while c['k'] == 'paren': c = c['e']
                if c['k'] == 'lit' and c['v'] is False and '__tracing_attr_fake_return' in json.dumps(s['e']['t'])[:4000]:
                    continue
            keep.append(_strip(s))
        r = dict(e)
        r['stmts'] = keep
        if e.get('expr'): r['expr'] = _strip(e['expr'])
        return r
    return {a: (_strip(b) if isinstance(b, (dict, list)) else b) for a, b in e.items()}


TRACE_MACROS = {'trace', 'debug', 'info', 'warn', 'error', 'event'}


class Fn:
    __slots__ = ('crate', 'path', 'name', 'body', 'raw', 'params', 'is_async', 'file', 'line', 'trait', 'self_ty', 'sig', 'preds', 'kind', 'endline', 'vis', 'tainted')

    def __init__(self, crate, b):
        self.crate, self.path, self.raw = crate, b['path'], b
        self.name = b.get('name') or b['path'].split('::')[-1]
        self.body = _strip(b['expr'])
        self.params = b['params']
        self.is_async = bool(b.get('async'))
        sp = b['sp'].rsplit(':', 2)
        self.file, self.line = sp[0], int(sp[1])
        self.trait, self.self_ty = b.get('trait'), b.get('self_ty')
        self.sig, self.preds, self.kind = b.get('sig', ''), b.get('preds', []), b['kind']
        self.endline = b.get('endline')
        self.vis = b.get('vis')
        self.tainted = b.get('tainted')

    @property
    def where(self):
        return f'{self.file}:{self.line} ({self.path})'


def canon(path):
    """`<T as Trait>::m` as `T::m`, without generic arguments."""
    m = re.match(r'^((?:bin|py)::)?<(.*?) as .*>::(\w+)$', path)
    if m: path = (m.group(1) or '') + m.group(2) + '::' + m.group(3)
    out, d, i = '', 0, 0
    while i < len(path):
        ch = path[i]
        if ch == '<':
            if d == 0 and out.endswith('::'): out = out[:-2]
            d += 1
        elif ch == '>' and path[i - 1] != '-': d -= 1
        elif d == 0: out += ch
        i += 1
    return out


class Program:
    def __init__(self, d=None, info=None):
        if d is None:
            d, info = F.get_facts()
        self.dir, self.info = d, info
        self.fns, self.items, self.consts = {}, {}, {}
        self.derived = {}      # a few functions written by derive macros
        self.impls = []
        self.by_name = {}
        for c in F.CRATES:
            p = os.path.join(d, c + '.json')
            if not os.path.exists(p):
                continue
            j = json.load(open(p))
            pre = {'opsqueue': '', 'opsqueue@bin': 'bin::', 'opsqueue_python': 'py::'}[c]
            for b in j['bodies']:
                if b.get('derived') or b.get('impl_derived'):
                    if b['kind'] in ('Fn', 'AssocFn') and b.get('name') in ('augment_args', 'from_arg_matches_mut'):
                        self.derived[pre + b['path']] = Fn(c, b)
                    continue
                f = Fn(c, b)
                key = pre + f.path
                if b['kind'] in ('Fn', 'AssocFn'):
                    if key in self.fns:
                        key = key + '#' + str(f.line)
                    self.fns[key] = f
                    self.by_name.setdefault(f.name, []).append(f)
                else:
                    self.consts[key] = f
            for it in j['items']:
                if it['kind'].startswith('Impl'):
                    it['crate'] = c
                    self.impls.append(it)
                else:
                    self.items[pre + it['path']] = it
        self._callees = {}

    def fn(self, suffix, crate=None):
        """The function whose path ends in `suffix`, also with generic arguments left out (None when absent)."""
        c = [f for k, f in self.fns.items() if (k == suffix or k.endswith('::' + suffix)) and (crate is None or f.crate == crate)]
        if not c:
            if not hasattr(self, '_canon'): self._canon = [(canon(k), f) for k, f in self.fns.items()]
            c = [f for k, f in self._canon if (k == suffix or k.endswith('::' + suffix)) and (crate is None or f.crate == crate)]
        return c[0] if len(c) >= 1 else None

    def from_impl(self, src, dst):
        """The conversion of the Python crate from one type to another, both without module paths; generic parameters match anything and the most specific wins."""
        if not hasattr(self, '_from'):
            self._from = []
            for k, f in self.fns.items():
                if f.crate == 'opsqueue' or f.name != 'from' or f.body is None: continue
                b = re.sub(r'(?:\w+::)+', '', f.path)
                m = re.match(r'<(?P<d>.*) as From<(?P<s>.*)>>::from$', b) or re.match(r'<impl From<(?P<s>.*)> for (?P<d>.*)>::from$', re.sub(r'^.*?<impl', '<impl', b))
                if m: self._from.append((m['s'], m['d'], f))
        best = None
        for s, d, f in self._from:
            if s in 'TLR' and len(s) == 1: continue  # the wrapper itself: keeps the value
            rx = [re.sub(r'\b[TLRE]\b(?!<)', '.+', re.escape(x).replace('\\ ', ' ')) for x in (s, d)]
            if re.fullmatch(rx[0], src) and re.fullmatch(rx[1], dst) and (best is None or len(s + d) > best[0]): best = (len(s + d), f)
        return best and best[1]

    def atoms(self, *names):
        """Full paths of the named functions, for `atomic=`."""
        return tuple(f.path for f in (self.fn(n) for n in names) if f is not None)

    def lookup(self, crate, path):
        """Function for a callee path as seen from `crate`."""
        if path is None: return None
        if crate == 'opsqueue_python':
            if path.startswith('opsqueue::'):
                return self.fns.get(path[len('opsqueue::'):])
            return self.fns.get('py::' + path)
        if crate == 'opsqueue@bin':
            if path.startswith('opsqueue::'):
                return self.fns.get(path[len('opsqueue::'):])
            return self.fns.get('bin::' + path)
        return self.fns.get(path)

    def const(self, crate, path):
        if path is None: return None
        if crate in ('opsqueue_python', 'opsqueue@bin') and path.startswith('opsqueue::'):
            return self.consts.get(path[len('opsqueue::'):])
        pre = {'opsqueue': '', 'opsqueue@bin': 'bin::', 'opsqueue_python': 'py::'}[crate]
        return self.consts.get(pre + path)

    def variants(self, path):
        """Variant names of the enum that owns variant `path` (last segment removed)."""
        en = path.rsplit('::', 1)[0]
        for k in (en, 'py::' + en, 'bin::' + en, re.sub(r'^opsqueue::', '', en)):
            it = self.items.get(k)
            if it: return [v['name'] for v in it['variants']]
        return None


def walk(e):
    """All expression nodes below e, including e."""
    st = [e]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            if 'k' in x:
                yield x
            st.extend(v for v in x.values() if isinstance(v, (dict, list)))
        elif isinstance(x, list):
            st.extend(v for v in x if isinstance(v, (dict, list)))


def unparen(e):
    while e is not None and e['k'] in ('paren',) or (e is not None and e['k'] == 'block' and not e['stmts'] and e.get('expr')):
        e = e['e'] if e['k'] == 'paren' else e['expr']
    return e


def callee(e):
    """Resolved callee path of a call/mcall node."""
    if e['k'] == 'mcall': return e.get('path')
    if e['k'] == 'call':
        r = e.get('res')
        if r and r['r'] == 'def': return r['path']
    return None
