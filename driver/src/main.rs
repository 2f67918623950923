//! Exports the type-checked program (HIR + typeck results) of a crate as JSON.
//!
//! Used as RUSTC_WORKSPACE_WRAPPER. For every crate whose name is listed in OPSQ_CRATES the
//! facts are written to $OPSQ_OUT/<crate_name>.json; every other crate is compiled as by rustc.
//! Facts are written before rustc's own analysis, so a body with type errors is still exported
//! (its expressions merely lack some types).
#![feature(rustc_private)]
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

mod json;
use json::J;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir as hir;
use rustc_hir::def::{DefKind, Res};
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_interface::interface;
use rustc_middle::ty::{self, TyCtxt, TypeckResults};
use rustc_span::{ExpnKind, MacroKind, Span};

/// Macros whose expansion is not looked into: only their user-written arguments are exported.
const OPAQUE: &[&str] = &[
    "query", "query_as", "query_scalar", "query_unchecked", "query_as_unchecked", "query_scalar_unchecked",
    "query_file", "query_file_as", "migrate",
    "trace", "debug", "info", "warn", "error", "event", "span", "trace_span", "debug_span", "info_span",
    "warn_span", "error_span",
    "format", "print", "println", "eprint", "eprintln", "write", "writeln", "panic", "unreachable", "todo",
    "unimplemented", "anyhow", "bail", "ensure", "assert", "assert_eq", "assert_ne", "debug_assert",
    "debug_assert_eq", "debug_assert_ne", "counter", "gauge", "histogram", "describe_counter",
    "describe_gauge", "describe_histogram", "concat", "env", "option_env", "include_str", "format_args",
];

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tr: Option<&'tcx TypeckResults<'tcx>>,
}

fn file_of(tcx: TyCtxt<'_>, sp: Span) -> (String, usize, usize) {
    let sm = tcx.sess.source_map();
    let loc = sm.lookup_char_pos(sp.lo());
    let name = format!("{}", loc.file.name.prefer_local_unconditionally());
    (name, loc.line, loc.col.0 + 1)
}

impl<'tcx> Cx<'tcx> {
    fn snip(&self, sp: Span) -> String {
        self.tcx.sess.source_map().span_to_snippet(sp).unwrap_or_default()
    }
    fn sp(&self, sp: Span) -> J {
        let sp = sp.source_callsite();
        let (f, l, c) = file_of(self.tcx, sp);
        J::Str(format!("{f}:{l}:{c}"))
    }
    fn path(&self, d: DefId) -> String {
        ty::print::with_no_trimmed_paths!(ty::print::with_no_visible_paths!(self.tcx.def_path_str(d)))
    }
    fn tys(&self, t: ty::Ty<'tcx>) -> String {
        let s = ty::print::with_no_trimmed_paths!(ty::print::with_no_visible_paths!(t.to_string()));
        if s.len() > 1500 { s.chars().take(1500).collect() } else { s }
    }
    fn ety(&self, id: hir::HirId) -> J {
        match self.tr.and_then(|t| t.node_type_opt(id)) {
            Some(t) => J::Str(self.tys(t)),
            None => J::Null,
        }
    }
    /// Outermost bang macro whose expansion produced this span, if any.
    fn outer_macro(&self, sp: Span, base: rustc_span::SyntaxContext) -> Option<(String, Span, String)> {
        let mut cur = sp;
        let mut res = None;
        while cur.ctxt() != base && cur.from_expansion() {
            let ed = cur.ctxt().outer_expn_data();
            if let ExpnKind::Macro(MacroKind::Bang, name) = ed.kind {
                let krate = ed.macro_def_id.map(|d| self.tcx.crate_name(d.krate).to_string()).unwrap_or_default();
                let name = name.to_string().rsplit("::").next().unwrap_or("").to_string();
                res = Some((name, ed.call_site, krate));
            }
            cur = ed.call_site;
        }
        res
    }
    fn res(&self, r: Res) -> J {
        match r {
            Res::Def(k, d) => {
                let mut v = vec![("r", J::s("def")), ("kind", J::Str(format!("{k:?}"))), ("path", J::Str(self.path(d)))];
                if let DefKind::Ctor(..) = k {
                    // parent variant/struct
                    v.push(("ctor_of", J::Str(self.path(self.tcx.parent(d)))));
                }
                v.push(("local", J::Bool(d.is_local())));
                J::Obj(v)
            }
            Res::Local(h) => J::Obj(vec![("r", J::s("local")), ("id", J::Num(h.local_id.as_u32() as i128))]),
            Res::SelfCtor(d) => J::Obj(vec![("r", J::s("selfctor")), ("path", J::Str(self.path(d)))]),
            Res::SelfTyAlias { .. } | Res::SelfTyParam { .. } => J::Obj(vec![("r", J::s("selfty"))]),
            other => J::Obj(vec![("r", J::Str(format!("{other:?}")))]),
        }
    }
    fn qres(&self, q: &hir::QPath<'tcx>, id: hir::HirId) -> J {
        if let Some(tr) = self.tr {
            let r = tr.qpath_res(q, id);
            if !matches!(r, Res::Err) { return self.res(r); }
        }
        match q {
            hir::QPath::Resolved(_, p) => self.res(p.res),
            _ => J::Null,
        }
    }
    /// Statically resolved impl method for a trait-method call, where the self type is concrete.
    fn resolve_impl(&self, d: DefId, id: hir::HirId) -> J {
        let Some(tr) = self.tr else { return J::Null };
        let Some(args) = tr.node_args_opt(id) else { return J::Null };
        let tcx = self.tcx;
        if tcx.trait_of_assoc(d).is_none() { return J::Null; }
        if args.iter().any(|a| format!("{a:?}").contains('?')) { return J::Null; }
        let Some(owner) = Some(id.owner.def_id) else { return J::Null };
        let env = ty::TypingEnv::non_body_analysis(tcx, owner.to_def_id());
        let args = tcx.erase_and_anonymize_regions(args);
        match ty::Instance::try_resolve(tcx, env, d, args) {
            Ok(Some(i)) if i.def_id() != d => J::Str(self.path(i.def_id())),
            _ => J::Null,
        }
    }
    fn lit(&self, l: &rustc_ast::LitKind) -> (J, &'static str) {
        use rustc_ast::LitKind::*;
        match l {
            Str(s, _) => (J::Str(s.as_str().to_string()), "str"),
            ByteStr(b, _) => (J::Str(String::from_utf8_lossy(b.as_byte_str()).to_string()), "bstr"),
            CStr(b, _) => (J::Str(String::from_utf8_lossy(b.as_byte_str()).trim_end_matches('\0').to_string()), "cstr"),
            Byte(b) => (J::Num(*b as i128), "int"),
            Char(c) => (J::Str(c.to_string()), "char"),
            Int(n, _) => (J::Num(n.get() as i128), "int"),
            Float(s, _) => (J::Str(s.to_string()), "float"),
            Bool(b) => (J::Bool(*b), "bool"),
            Err(_) => (J::Null, "err"),
        }
    }
    fn pat(&self, p: &hir::Pat<'tcx>) -> J {
        use hir::PatKind::*;
        let (k, mut v): (&str, Vec<(&'static str, J)>) = match &p.kind {
            Wild | Never | Missing => ("wild", vec![]),
            Binding(m, h, i, sub) => (
                "bind",
                vec![
                    ("id", J::Num(h.local_id.as_u32() as i128)),
                    ("name", J::Str(i.name.to_string())),
                    ("mode", J::Str(format!("{m:?}"))),
                    ("sub", sub.map(|s| self.pat(s)).unwrap_or(J::Null)),
                ],
            ),
            Struct(q, fs, _) => (
                "pstruct",
                vec![
                    ("res", self.qres(q, p.hir_id)),
                    ("fields", J::Arr(fs.iter().map(|f| J::Arr(vec![J::Str(f.ident.name.to_string()), self.pat(f.pat)])).collect())),
                ],
            ),
            TupleStruct(q, ps, dd) => (
                "ptstruct",
                vec![
                    ("res", self.qres(q, p.hir_id)),
                    ("ps", J::Arr(ps.iter().map(|x| self.pat(x)).collect())),
                    ("dd", dd.as_opt_usize().map(|n| J::Num(n as i128)).unwrap_or(J::Null)),
                ],
            ),
            Or(ps) => ("por", vec![("ps", J::Arr(ps.iter().map(|x| self.pat(x)).collect()))]),
            Tuple(ps, dd) => (
                "ptup",
                vec![
                    ("ps", J::Arr(ps.iter().map(|x| self.pat(x)).collect())),
                    ("dd", dd.as_opt_usize().map(|n| J::Num(n as i128)).unwrap_or(J::Null)),
                ],
            ),
            Deref(x) => ("pderef", vec![("p", self.pat(x))]),
            Ref(x, ..) => ("pref", vec![("p", self.pat(x))]),
            Expr(e) => ("plit", vec![("e", self.patexpr(e))]),
            Range(a, b, end) => (
                "prange",
                vec![
                    ("a", a.map(|e| self.patexpr(e)).unwrap_or(J::Null)),
                    ("b", b.map(|e| self.patexpr(e)).unwrap_or(J::Null)),
                    ("end", J::Str(format!("{end:?}"))),
                ],
            ),
            Slice(a, m, b) => (
                "pslice",
                vec![
                    ("a", J::Arr(a.iter().map(|x| self.pat(x)).collect())),
                    ("m", m.map(|x| self.pat(x)).unwrap_or(J::Null)),
                    ("b", J::Arr(b.iter().map(|x| self.pat(x)).collect())),
                ],
            ),
            _ => ("pother", vec![("snip", J::Str(self.snip(p.span)))]),
        };
        v.insert(0, ("k", J::s(k)));
        v.push(("ty", self.ety(p.hir_id)));
        J::Obj(v)
    }
    fn patexpr(&self, e: &hir::PatExpr<'tcx>) -> J {
        match &e.kind {
            hir::PatExprKind::Lit { lit, negated } => {
                let (j, k) = self.lit(&lit.node);
                J::Obj(vec![("k", J::s("lit")), ("lk", J::s(k)), ("v", j), ("neg", J::Bool(*negated))])
            }
            hir::PatExprKind::Path(q) => J::Obj(vec![("k", J::s("path")), ("res", self.qres(q, e.hir_id))]),
            #[allow(unreachable_patterns)]
            _ => J::Obj(vec![("k", J::s("other"))]),
        }
    }
    fn block(&self, b: &hir::Block<'tcx>, base: rustc_span::SyntaxContext) -> J {
        let mut st = vec![];
        for s in b.stmts {
            match &s.kind {
                hir::StmtKind::Let(l) => st.push(J::Obj(vec![
                    ("k", J::s("let")),
                    ("pat", self.pat(l.pat)),
                    ("init", l.init.map(|e| self.expr(e, base)).unwrap_or(J::Null)),
                    ("els", l.els.map(|e| self.block(e, base)).unwrap_or(J::Null)),
                    ("tyann", l.ty.map(|t| J::Str(self.snip(t.span))).unwrap_or(J::Null)),
                    ("sp", self.sp(s.span)),
                ])),
                hir::StmtKind::Item(_) => {}
                hir::StmtKind::Expr(e) => st.push(J::Obj(vec![("k", J::s("expr")), ("e", self.expr(e, base)), ("semi", J::Bool(false))])),
                hir::StmtKind::Semi(e) => st.push(J::Obj(vec![("k", J::s("expr")), ("e", self.expr(e, base)), ("semi", J::Bool(true))])),
            }
        }
        J::Obj(vec![
            ("k", J::s("block")),
            ("stmts", J::Arr(st)),
            ("expr", b.expr.map(|e| self.expr(e, base)).unwrap_or(J::Null)),
            ("sp", self.sp(b.span)),
        ])
    }
    fn exprs(&self, es: &'tcx [hir::Expr<'tcx>], base: rustc_span::SyntaxContext) -> J {
        J::Arr(es.iter().map(|e| self.expr(e, base)).collect())
    }
    fn expr(&self, e: &'tcx hir::Expr<'tcx>, base: rustc_span::SyntaxContext) -> J {
        let mut mac = J::Null;
        if let Some((name, call, krate)) = self.outer_macro(e.span, base) {
            if OPAQUE.contains(&name.as_str()) {
                let mut c = ArgCollector { cx: self, base: call.ctxt(), out: vec![] };
                use hir::intravisit::Visitor;
                c.visit_expr(e);
                return J::Obj(vec![
                    ("k", J::s("mac")),
                    ("name", J::Str(name)),
                    ("krate", J::Str(krate)),
                    ("snip", J::Str(self.snip(call))),
                    ("args", J::Arr(c.out)),
                    ("ty", self.ety(e.hir_id)),
                    ("sp", self.sp(call)),
                ]);
            }
            mac = J::Str(name);
        }
        let (k, mut v): (&str, Vec<(&'static str, J)>) = self.expr_kind(e, base);
        v.insert(0, ("k", J::s(k)));
        v.push(("mac", mac));
        v.push(("ty", self.ety(e.hir_id)));
        if let Some(tr) = self.tr {
            if let Some(t) = tr.expr_ty_adjusted_opt(e) {
                if tr.node_type_opt(e.hir_id) != Some(t) { v.push(("aty", J::Str(self.tys(t)))); }
            }
        }
        v.push(("sp", self.sp(e.span)));
        J::Obj(v)
    }
    fn expr_kind(&self, e: &'tcx hir::Expr<'tcx>, base: rustc_span::SyntaxContext) -> (&'static str, Vec<(&'static str, J)>) {
        use hir::ExprKind::*;
        match &e.kind {
            Array(es) => ("array", vec![("es", self.exprs(es, base))]),
            Tup(es) => ("tup", vec![("es", self.exprs(es, base))]),
            Call(f, args) => {
                let mut v = vec![];
                if let Path(q) = &f.kind {
                    v.push(("res", self.qres(q, f.hir_id)));
                    if let Some(tr) = self.tr {
                        if let Res::Def(k, d) = tr.qpath_res(q, f.hir_id) {
                            if matches!(k, DefKind::AssocFn) {
                                v.push(("impl", self.resolve_impl(d, f.hir_id)));
                            }
                            if let Some(a) = tr.node_args_opt(f.hir_id) {
                                if matches!(k, DefKind::Fn | DefKind::AssocFn) {
                                    v.push(("targs", self.targs(a)));
                                }
                            }
                        }
                    }
                } else {
                    v.push(("f", self.expr(f, base)));
                }
                v.push(("args", self.exprs(args, base)));
                ("call", v)
            }
            MethodCall(seg, recv, args, _) => {
                let mut v = vec![("m", J::Str(seg.ident.name.to_string()))];
                if let Some(d) = self.tr.and_then(|t| t.type_dependent_def_id(e.hir_id)) {
                    v.push(("path", J::Str(self.path(d))));
                    v.push(("local", J::Bool(d.is_local())));
                    v.push(("impl", self.resolve_impl(d, e.hir_id)));
                    if let Some(a) = self.tr.and_then(|t| t.node_args_opt(e.hir_id)) {
                        v.push(("targs", self.targs(a)));
                    }
                }
                v.push(("recv", self.expr(recv, base)));
                v.push(("args", self.exprs(args, base)));
                ("mcall", v)
            }
            Use(x, _) => ("paren", vec![("e", self.expr(x, base))]),
            Binary(op, a, b) => {
                let ov = self.tr.map(|t| t.is_method_call(e)).unwrap_or(false);
                ("bin", vec![("op", J::s(op.node.as_str())), ("a", self.expr(a, base)), ("b", self.expr(b, base)), ("ov", J::Bool(ov))])
            }
            Unary(op, a) => (
                "un",
                vec![("op", J::s(match op { hir::UnOp::Deref => "*", hir::UnOp::Not => "!", hir::UnOp::Neg => "-" })), ("e", self.expr(a, base))],
            ),
            Lit(l) => {
                let (j, k) = self.lit(&l.node);
                ("lit", vec![("lk", J::s(k)), ("v", j)])
            }
            Cast(x, t) => ("cast", vec![("e", self.expr(x, base)), ("to", J::Str(self.snip(t.span)))]),
            Type(x, _) => ("paren", vec![("e", self.expr(x, base))]),
            DropTemps(x) => ("paren", vec![("e", self.expr(x, base))]),
            Let(l) => ("letc", vec![("pat", self.pat(l.pat)), ("e", self.expr(l.init, base))]),
            If(c, t, f) => (
                "if",
                vec![("c", self.expr(c, base)), ("t", self.expr(t, base)), ("f", f.map(|x| self.expr(x, base)).unwrap_or(J::Null))],
            ),
            Loop(b, label, src, _) => (
                "loop",
                vec![
                    ("body", self.block(b, base)),
                    ("label", label.map(|l| J::Str(l.ident.name.to_string())).unwrap_or(J::Null)),
                    ("src", J::Str(format!("{src:?}"))),
                    ("id", J::Num(e.hir_id.local_id.as_u32() as i128)),
                ],
            ),
            Match(scrut, arms, src) => {
                use hir::MatchSource as MS;
                match src {
                    MS::AwaitDesugar => {
                        if let Call(_, [arg]) = &scrut.kind {
                            return ("await", vec![("e", self.expr(arg, base))]);
                        }
                    }
                    MS::TryDesugar(_) => {
                        if let Call(_, [arg]) = &scrut.kind {
                            return ("try", vec![("e", self.expr(arg, base))]);
                        }
                    }
                    MS::ForLoopDesugar => {
                        if let Call(_, [arg]) = &scrut.kind {
                            if let Loop(b, label, _, _) = &arms[0].body.kind {
                                let inner = b.stmts.first().and_then(|s| match &s.kind {
                                    hir::StmtKind::Expr(x) | hir::StmtKind::Semi(x) => Some(*x),
                                    _ => None,
                                }).or(b.expr);
                                if let Some(hir::Expr { kind: Match(_, ia, _), .. }) = inner {
                                    for a in ia.iter() {
                                        let (p, body) = (a.pat, a.body);
                                        let ip = match &p.kind {
                                            hir::PatKind::TupleStruct(_, [x], _) => Some(x),
                                            hir::PatKind::Struct(_, [f], _) => Some(f.pat),
                                            _ => None,
                                        };
                                        if let Some(ip) = ip {
                                            return (
                                                "for",
                                                vec![
                                                    ("pat", self.pat(ip)),
                                                    ("iter", self.expr(arg, base)),
                                                    ("body", self.expr(body, base)),
                                                    ("label", label.map(|l| J::Str(l.ident.name.to_string())).unwrap_or(J::Null)),
                                                    ("id", J::Num(arms[0].body.hir_id.local_id.as_u32() as i128)),
                                                ],
                                            );
                                        }
                                    }
                                }
                            }
                        }
                    }
                    _ => {}
                }
                let arms = arms
                    .iter()
                    .map(|a| {
                        J::Obj(vec![
                            ("pat", self.pat(a.pat)),
                            ("guard", a.guard.map(|g| self.expr(g, base)).unwrap_or(J::Null)),
                            ("body", self.expr(a.body, base)),
                        ])
                    })
                    .collect();
                ("match", vec![("e", self.expr(scrut, base)), ("arms", J::Arr(arms)), ("src", J::Str(format!("{src:?}")))])
            }
            Closure(c) => {
                let body = self.tcx.hir_body(c.body);
                (
                    "closure",
                    vec![
                        ("ck", J::Str(format!("{:?}", c.kind))),
                        ("capture", J::Str(format!("{:?}", c.capture_clause).chars().take(40).collect::<String>())),
                        ("params", J::Arr(body.params.iter().map(|p| self.pat(p.pat)).collect())),
                        ("def", J::Str(self.path(c.def_id.to_def_id()))),
                        ("body", self.expr(body.value, base)),
                    ],
                )
            }
            Block(b, label) => {
                let mut j = match self.block(b, base) { J::Obj(v) => v, _ => vec![] };
                j.remove(0);
                j.retain(|x| x.0 != "sp");
                j.push(("label", label.map(|l| J::Str(l.ident.name.to_string())).unwrap_or(J::Null)));
                ("block", j)
            }
            Assign(a, b, _) => ("assign", vec![("a", self.expr(a, base)), ("b", self.expr(b, base))]),
            AssignOp(op, a, b) => ("assignop", vec![("op", J::Str(op.node.as_str().to_string())), ("a", self.expr(a, base)), ("b", self.expr(b, base))]),
            Field(x, i) => ("field", vec![("e", self.expr(x, base)), ("f", J::Str(i.name.to_string()))]),
            Index(a, b, _) => ("index", vec![("a", self.expr(a, base)), ("b", self.expr(b, base))]),
            Path(q) => ("path", vec![("res", self.qres(q, e.hir_id)), ("name", J::Str(self.snip(q.span())))]),
            AddrOf(_, m, x) => ("ref", vec![("mut", J::Bool(m.is_mut())), ("e", self.expr(x, base))]),
            Break(d, x) => (
                "break",
                vec![
                    ("label", d.label.map(|l| J::Str(l.ident.name.to_string())).unwrap_or(J::Null)),
                    ("e", x.map(|x| self.expr(x, base)).unwrap_or(J::Null)),
                ],
            ),
            Continue(d) => ("continue", vec![("label", d.label.map(|l| J::Str(l.ident.name.to_string())).unwrap_or(J::Null))]),
            Ret(x) => ("ret", vec![("e", x.map(|x| self.expr(x, base)).unwrap_or(J::Null))]),
            Struct(q, fs, tail) => {
                let t = match tail {
                    hir::StructTailExpr::Base(x) => self.expr(x, base),
                    _ => J::Null,
                };
                (
                    "struct",
                    vec![
                        ("res", self.qres(q, e.hir_id)),
                        ("fields", J::Arr(fs.iter().map(|f| J::Arr(vec![J::Str(f.ident.name.to_string()), self.expr(f.expr, base)])).collect())),
                        ("base", t),
                    ],
                )
            }
            Repeat(x, _) => ("repeat", vec![("e", self.expr(x, base))]),
            Yield(x, _) => ("yield", vec![("e", self.expr(x, base))]),
            ConstBlock(b) => ("paren", vec![("e", self.expr(self.tcx.hir_body(b.body).value, base))]),
            Err(_) => ("err", vec![("snip", J::Str(self.snip(e.span.source_callsite())))]),
            _ => ("other", vec![("snip", J::Str(self.snip(e.span)))]),
        }
    }
    fn targs(&self, a: ty::GenericArgsRef<'tcx>) -> J {
        J::Arr(
            a.iter()
                .filter(|x| x.as_region().is_none())
                .map(|x| {
                    let s = ty::print::with_no_trimmed_paths!(x.to_string());
                    J::Str(s.chars().take(400).collect::<String>())
                })
                .collect(),
        )
    }
}

/// Collects maximal sub-expressions written by the user inside a macro call.
struct ArgCollector<'a, 'tcx> {
    cx: &'a Cx<'tcx>,
    base: rustc_span::SyntaxContext,
    out: Vec<J>,
}
impl<'a, 'tcx> hir::intravisit::Visitor<'tcx> for ArgCollector<'a, 'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::OnlyBodies;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> { self.cx.tcx }
    fn visit_expr(&mut self, e: &'tcx hir::Expr<'tcx>) {
        if e.span.ctxt() == self.base && !matches!(e.kind, hir::ExprKind::Block(..)) {
            if self.out.len() < 60 { self.out.push(self.cx.expr(e, self.base)); }
            return;
        }
        hir::intravisit::walk_expr(self, e);
    }
}

struct Cb {
    out: String,
}

impl Callbacks for Cb {
    fn after_expansion<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let mut bodies = vec![];
        for def in tcx.hir_body_owners() {
            let kind = tcx.def_kind(def);
            if matches!(kind, DefKind::Closure | DefKind::SyntheticCoroutineBody | DefKind::AnonConst) { continue; }
            if tcx.def_span(def).from_expansion() && !matches!(kind, DefKind::Fn | DefKind::AssocFn) { continue; }
            bodies.push(body(tcx, def, kind));
        }
        let mut items = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            if let Some(j) = item(tcx, id) { items.push(j); }
        }
        let j = J::Obj(vec![
            ("crate", J::Str(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string())),
            ("bodies", J::Arr(bodies)),
            ("items", J::Arr(items)),
        ]);
        let mut s = String::new();
        j.write(&mut s);
        std::fs::write(&self.out, s).expect("write facts");
        Compilation::Continue
    }
}

fn body<'tcx>(tcx: TyCtxt<'tcx>, def: LocalDefId, kind: DefKind) -> J {
    let b = tcx.hir_body_owned_by(def);
    let cx = Cx { tcx, tr: Some(tcx.typeck(def)) };
    let hid = tcx.local_def_id_to_hir_id(def);
    let span = tcx.hir_span(hid);
    let is_fn = matches!(kind, DefKind::Fn | DefKind::AssocFn);
    let mut v = vec![
        ("path", J::Str(cx.path(def.to_def_id()))),
        ("kind", J::Str(format!("{kind:?}"))),
        ("name", tcx.opt_item_name(def.to_def_id()).map(|n| J::Str(n.to_string())).unwrap_or(J::Null)),
        ("sp", cx.sp(span)),
        ("endline", J::Num(tcx.sess.source_map().lookup_char_pos(b.value.span.source_callsite().hi()).line as i128)),
        ("tainted", J::Bool(tcx.typeck(def).tainted_by_errors.is_some())),
        ("derived", J::Bool(span.in_derive_expansion())),
        ("from_exp", J::Bool(span.from_expansion())),
    ];
    if is_fn {
        let sig = tcx.fn_sig(def.to_def_id()).instantiate_identity();
        let sig = format!("{}", ty::print::with_no_trimmed_paths!(format!("{:?}", sig)));
        v.push(("sig", J::Str(sig)));
        v.push(("async", J::Bool(tcx.asyncness(def).is_async())));
        let preds: Vec<J> = tcx
            .param_env(def.to_def_id())
            .caller_bounds()
            .map(|p| J::Str(ty::print::with_no_trimmed_paths!(format!("{:?}", p))))
            .collect();
        v.push(("preds", J::Arr(preds)));
        v.push(("vis", J::Bool(tcx.visibility(def.to_def_id()).is_public())));
    }
    if let Some(p) = tcx.opt_parent(def.to_def_id()) {
        if matches!(tcx.def_kind(p), DefKind::Impl { .. }) {
            let self_ty = tcx.type_of(p).instantiate_identity();
            v.push(("self_ty", J::Str(ty::print::with_no_trimmed_paths!(format!("{:?}", self_ty)))));
            if let Some(t) = tcx.impl_opt_trait_ref(p) {
                v.push(("trait", J::Str(ty::print::with_no_trimmed_paths!(format!("{:?}", t.instantiate_identity())))));
            }
            v.push(("impl_derived", J::Bool(tcx.def_span(p).in_derive_expansion())));
        }
    }
    v.push(("params", J::Arr(b.params.iter().map(|p| cx.pat(p.pat)).collect())));
    v.push(("expr", cx.expr(b.value, rustc_span::SyntaxContext::root())));
    J::Obj(v)
}

fn item<'tcx>(tcx: TyCtxt<'tcx>, def: LocalDefId) -> Option<J> {
    let cx = Cx { tcx, tr: None };
    let kind = tcx.def_kind(def);
    let hid = tcx.local_def_id_to_hir_id(def);
    let d = def.to_def_id();
    let mut v = vec![("kind", J::Str(format!("{kind:?}"))), ("path", J::Str(cx.path(d))), ("sp", cx.sp(tcx.def_span(d)))];
    match kind {
        DefKind::Struct | DefKind::Enum | DefKind::Union => {
            let ad = tcx.adt_def(d);
                v.push(("src", J::Str(cx.snip(tcx.hir_span(hid).source_callsite()))));
            let vars = ad
                .variants()
                .iter()
                .map(|va| {
                    J::Obj(vec![
                        ("name", J::Str(va.name.to_string())),
                        (
                            "fields",
                            J::Arr(
                                va.fields
                                    .iter()
                                    .map(|f| {
                                        J::Obj(vec![
                                            ("name", J::Str(f.name.to_string())),
                                            ("ty", J::Str(ty::print::with_no_trimmed_paths!(format!("{:?}", tcx.type_of(f.did).instantiate_identity())))),
                                        ])
                                    })
                                    .collect(),
                            ),
                        ),
                    ])
                })
                .collect();
            v.push(("variants", J::Arr(vars)));
            Some(J::Obj(v))
        }
        DefKind::Impl { of_trait: true } => {
            v.push(("self_ty", J::Str(ty::print::with_no_trimmed_paths!(format!("{:?}", tcx.type_of(d).instantiate_identity())))));
            if let Some(t) = tcx.impl_opt_trait_ref(d) {
                v.push(("trait", J::Str(ty::print::with_no_trimmed_paths!(format!("{:?}", t.instantiate_identity())))));
            }
            v.push(("derived", J::Bool(tcx.def_span(d).in_derive_expansion())));
            let at: Vec<J> = tcx
                .associated_items(d)
                .in_definition_order()
                .filter(|a| a.is_type())
                .map(|a| J::Arr(vec![J::Str(a.name().to_string()), J::Str(ty::print::with_no_trimmed_paths!(format!("{:?}", tcx.type_of(a.def_id).instantiate_identity())))]))
                .collect();
            v.push(("assoc", J::Arr(at)));
            Some(J::Obj(v))
        }
        DefKind::TyAlias => {
            v.push(("ty", J::Str(ty::print::with_no_trimmed_paths!(format!("{:?}", tcx.type_of(d).instantiate_identity())))));
            Some(J::Obj(v))
        }
        DefKind::Trait => {
            v.push(("src", J::Str(cx.snip(tcx.hir_span(hid).source_callsite()))));
            Some(J::Obj(v))
        }
        _ => None,
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let name = args.windows(2).find(|w| w[0] == "--crate-name").map(|w| w[1].clone()).unwrap_or_default();
    let is_bin = args.windows(2).any(|w| w[0] == "--crate-type" && w[1] == "bin");
    let wanted = std::env::var("OPSQ_CRATES").unwrap_or_default();
    let key = if is_bin { format!("{name}@bin") } else { name };
    if let (true, Ok(dir)) = (wanted.split(',').any(|x| x == key), std::env::var("OPSQ_OUT")) {
        let mut cb = Cb { out: format!("{dir}/{key}.json") };
        rustc_driver::compiler_entrypoint(&args, &mut cb);
    } else {
        struct N;
        impl Callbacks for N {}
        rustc_driver::compiler_entrypoint(&args, &mut N);
    }
}
