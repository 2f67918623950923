"""Small helpers over paths."""
from ..interp import show, terms, last, calls


def evs(p, *names, sub=None):
    """(index, event) of calls by last path segment; `sub` must occur in the path."""
    return [(i, e) for i, e in enumerate(p.ev) if e.k == 'call' and last(e.path) in names and (sub is None or sub in e.path)]


def truth(p, t):
    """What the path knows about a boolean term: True/False/None."""
    for c, v in p.st.path:
        if c == t: return v
        if isinstance(c, tuple) and c and c[0] in ('not', 'un') and c[-1] == t: return not v
    return None


def param(t, name=None):
    return isinstance(t, tuple) and len(t) == 3 and t[0] == 'param' and (name is None or t[2] == name)


def fields(t):
    """{name: term} of a struct term."""
    return dict(t[2]) if isinstance(t, tuple) and t and t[0] == 'struct' else {}


def is_field(t, name):
    return isinstance(t, tuple) and t and t[0] == 'field' and t[2] == name


def chunk_key(t):
    """The term a ChunkId is built from, when both its parts come from the same value: (owner, ok)."""
    f = fields(t)
    if not f or 'submission_id' not in f or 'chunk_index' not in f: return None
    a, b = f['submission_id'], f['chunk_index']
    if is_field(a, 'submission_id') and is_field(b, 'chunk_index') and a[1] == b[1]: return a[1]
    return None


def spawned_paths(cx, fn, **k):
    """Paths of the tasks a function spawns."""
    out = []
    for p in cx.paths(fn, **k):
        for e in p.ev:
            if e.k == 'spawn' and e.task is not None: out += cx.w.value_paths(e.task, p.I, p.st)
    return out


def lit(t):
    return t[1] if isinstance(t, tuple) and t and t[0] == 'lit' else None


def rootparams(t):
    return {x[2] for x in terms(t) if x[0] == 'param'}
