"""Obligations, rules, violations and evidence."""
import json, os, sys, time, traceback
from . import facts as F, prog as PR, interp as IN, sql as SQ

RULES = {}  # property id -> [(name, text, function)]
TECH, NOTES = {}, {}  # per property, for MANIFEST.json


def rule(name, text, *props, floor=1):
    """Registers a rule: `fn(cx)` adds obligations through cx.ob(subject, ok, where, msg). `floor` is the
    least number of distinct obligations confirmed by hand on the tree: fewer means the rule lost its anchors."""
    def deco(fn):
        for p in props:
            RULES.setdefault(p, []).append((name, text, fn, floor))
        return fn
    return deco


class World:
    """Everything the rules share: program, schema, cached path sets."""
    def __init__(self, tier='quick'):
        self.tier = tier
        self.P = PR.Program()
        db = os.path.join(self.P.dir, 'schema.db')
        self.S = SQ.Schema(db)
        self.schema_db = db
        self._paths = {}
        self.npaths = self.nevents = 0
        self.fns_seen = set()
        self.sql_seen = set()
        self.notes = list(self.P.info.get('notes', []))
        self.memo = {}

    def paths(self, fn, atomic=(), args=None, inline=None, tag='', max_paths=6000, st=None):
        """All interpreted paths of a function (cached)."""
        key = (fn.crate, fn.path, tuple(sorted(atomic)), tag)
        if key not in self._paths:
            I = IN.Interp(self.P, atomic=atomic, inline=inline, max_paths=max_paths * (4 if self.tier == 'thorough' else 1))
            try:
                ps = I.run(fn, args=args, st=st)
                for p in ps: p.I = I
                self._paths[key] = (ps, I, None)
            except IN.Limit as e:
                self._paths[key] = (None, I, e)
            ps = self._paths[key][0]
            if ps:
                self.npaths += len(ps)
                self.nevents += sum(len(p.ev) for p in ps)
                for p in ps:
                    for e in p.ev:
                        if e.fn: self.fns_seen.add(e.fn.path)
                        if e.k == 'sql': self.sql_seen.add((e.node or {}).get('sp'))
                self.fns_seen.add(fn.path)
        ps, I, err = self._paths[key]
        if err: raise err
        return ps

    def value_paths(self, v, I, st=None, args=(), tag=''):
        ps = I.run_value(v, st, args)
        for q in ps: q.I = I
        self.npaths += len(ps)
        self.nevents += sum(len(p.ev) for p in ps)
        return ps


class Ctx:
    def __init__(self, world, prop):
        self.w, self.prop = world, prop
        self.P, self.S, self.tier = world.P, world.S, world.tier
        self.obs = {}       # (rule, subject) -> [ok, where, msg, instances]
        self.rule = None
        self.undecided = []
        self.sites = set()

    def ob(self, subject, ok, where='', msg=''):
        """One instance of an obligation; the same subject may be visited on many paths."""
        k = (self.rule, str(subject))
        o = self.obs.get(k)
        if o is None: self.obs[k] = o = [True, where, '', 0]
        o[3] += 1
        if where: self.sites.add(where)
        if not ok and o[0]:
            o[0], o[1], o[2] = False, where or o[1], msg
        return ok

    def skip(self, subject, why):
        self.undecided.append(f'{self.rule}: {subject}: {why}')

    def fn(self, *names, crate=None):
        """First function found under any of the names; otherwise an open obligation."""
        for n in names:
            f = self.P.fn(n, crate)
            if f is not None: return f
        self.skip('anchor ' + names[0], 'function not found')
        return None

    def paths(self, fn, **k):
        return self.w.paths(fn, **k)

    def run(self):
        for name, text, fn, floor in RULES.get(self.prop, []):
            self.rule = name
            n0 = len([k for k in self.obs if k[0] == name])
            u0 = len(self.undecided)
            try:
                fn(self)
            except IN.Limit as e:
                self.skip('analysis bound', str(e))
            except Exception as e:
                tb = traceback.extract_tb(e.__traceback__)[-1]
                self.skip('analysis error', f'{type(e).__name__}: {e} at {os.path.basename(tb.filename)}:{tb.lineno}')
                if os.environ.get('OPSQ_DEBUG'): traceback.print_exc()
            n1 = len([k for k in self.obs if k[0] == name])
            if n1 - n0 < floor and len(self.undecided) == u0 and self.P.info.get('cargo_rc'):
                self.skip('instances', f'only {n1 - n0} instance(s) found in a tree with type errors')
            elif n1 - n0 < floor and len(self.undecided) == u0:
                self.ob(f'instances', False, '', f'only {n1 - n0} instance(s) of the rule found, at least {floor} expected')


def known():
    p = os.path.join(F.VERIF, 'known_findings.json')
    return json.load(open(p)) if os.path.exists(p) else {'findings': [], 'fixed': []}


def tainted(P):
    """Functions with type errors and those whose analysis inlines them."""
    bad = {f.path for f in P.fns.values() if f.tainted}
    if not bad: return bad
    for _ in range(3):
        for f in P.fns.values():
            if f.path in bad or f.body is None: continue
            if any((PR.callee(n) or '') in bad or any((PR.callee(n) or '').endswith('::' + b) for b in bad) for n in PR.walk(f.body)): bad.add(f.path)
    return bad


def short(p):
    return '::'.join(p.split('::')[-2:])


def wh(ev):
    return ev.where if ev is not None else ''
