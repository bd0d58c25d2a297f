// Dumps the typed, macro-expanded, name-resolved bodies (THIR) and type definitions of the
// crate `advantage` as JSON.  Run as RUSTC_WORKSPACE_WRAPPER under `cargo +nightly check`;
// the output path is taken from THIRDUMP_OUT.  Nothing is edited or dropped except: lifetimes,
// lint/scope bookkeeping and user type ascriptions.
#![feature(rustc_private)]
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_interface::interface::Compiler;
use rustc_middle::thir::*;
use rustc_middle::ty::{self, GenericArgsRef, Ty, TyCtxt, TyKind};
use rustc_span::Span;

enum J {
    N,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
    M(Vec<(String, J)>),
}
fn esc(s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            '\r' => o.push_str("\\r"),
            '\t' => o.push_str("\\t"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::N => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => o.push_str(&i.to_string()),
            J::S(s) => esc(s, o),
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',')
                    }
                    x.w(o)
                }
                o.push(']')
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',')
                    }
                    esc(k, o);
                    o.push(':');
                    x.w(o)
                }
                o.push('}')
            }
            J::M(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push_str(",\n")
                    }
                    esc(k, o);
                    o.push(':');
                    x.w(o)
                }
                o.push('}')
            }
        }
    }
}
fn s<T: Into<String>>(t: T) -> J {
    J::S(t.into())
}

struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    owner: LocalDefId,
}

impl<'tcx> D<'tcx> {
    fn path(&self, d: DefId) -> String {
        rustc_middle::ty::print::with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    fn args(&self, a: GenericArgsRef<'tcx>) -> J {
        J::A(a.iter()
            .filter_map(|x| {
                if let Some(t) = x.as_type() {
                    Some(self.ty(t))
                } else if let Some(c) = x.as_const() {
                    Some(J::O(vec![("k", s("const")), ("v", s(format!("{:?}", c)))]))
                } else {
                    None
                }
            })
            .collect())
    }
    fn ty(&self, t: Ty<'tcx>) -> J {
        match t.kind() {
            TyKind::Adt(def, args) => J::O(vec![
                ("k", s("adt")),
                ("p", s(self.path(def.did()))),
                ("a", self.args(args)),
            ]),
            TyKind::Ref(_, t, m) => {
                J::O(vec![("k", s("ref")), ("m", J::B(m.is_mut())), ("t", self.ty(*t))])
            }
            TyKind::RawPtr(t, m) => {
                J::O(vec![("k", s("ptr")), ("m", J::B(m.is_mut())), ("t", self.ty(*t))])
            }
            TyKind::Slice(t) => J::O(vec![("k", s("slice")), ("t", self.ty(*t))]),
            TyKind::Array(t, n) => {
                J::O(vec![("k", s("array")), ("t", self.ty(*t)), ("n", s(format!("{:?}", n)))])
            }
            TyKind::Tuple(ts) => J::O(vec![
                ("k", s("tuple")),
                ("a", J::A(ts.iter().map(|t| self.ty(t)).collect())),
            ]),
            TyKind::Param(p) => J::O(vec![("k", s("param")), ("n", s(p.name.as_str()))]),
            TyKind::FnDef(d, a) => J::O(vec![
                ("k", s("fndef")),
                ("p", s(self.path(*d))),
                ("a", self.args(a.no_bound_vars().unwrap_or_else(|| a.skip_binder()))),
            ]),
            TyKind::Closure(d, a) => {
                let sig = a.as_closure().sig().skip_binder();
                J::O(vec![
                    ("k", s("closure")),
                    ("p", s(self.path(*d))),
                    ("in", J::A(sig.inputs().iter().map(|t| self.ty(*t)).collect())),
                    ("out", self.ty(sig.output())),
                ])
            }
            TyKind::Dynamic(preds, _) => {
                let mut v = vec![];
                for p in preds.iter() {
                    match p.skip_binder() {
                        ty::ExistentialPredicate::Trait(t) => v.push(J::O(vec![
                            ("p", s(self.path(t.def_id.into()))),
                            ("a", self.args(t.args)),
                        ])),
                        ty::ExistentialPredicate::Projection(p) => v.push(J::O(vec![
                            ("proj", s(self.path(p.def_id.into()))),
                            ("s", s(format!("{:?}", p.term))),
                            ("t", p.term.as_type().map(|t| self.ty(t)).unwrap_or(J::N)),
                        ])),
                        _ => {}
                    }
                }
                J::O(vec![("k", s("dyn")), ("preds", J::A(v))])
            }
            TyKind::Never => J::O(vec![("k", s("never"))]),
            TyKind::Bool
            | TyKind::Char
            | TyKind::Int(_)
            | TyKind::Uint(_)
            | TyKind::Float(_)
            | TyKind::Str => J::O(vec![("k", s("prim")), ("n", s(t.to_string()))]),
            TyKind::Alias(..) => {
                // try to normalise
                J::O(vec![
                    ("k", s("alias")),
                    ("s", s(rustc_middle::ty::print::with_no_trimmed_paths!(t.to_string()))),
                ])
            }
            _ => J::O(vec![("k", s("other")), ("s", s(format!("{:?}", t)))]),
        }
    }
    fn line(&self, sp: Span) -> J {
        let sp = sp.source_callsite();
        let l = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        let f = format!("{}", l.file.name.prefer_local_unconditionally());
        J::S(format!("{}:{}", f, l.line))
    }
    fn var(&self, v: LocalVarId) -> J {
        J::S(format!("{}_{}", self.tcx.hir_name(v.0), v.0.local_id.as_u32()))
    }
    fn resolve(&self, d: DefId, a: GenericArgsRef<'tcx>) -> J {
        let env = ty::TypingEnv::post_analysis(self.tcx, self.owner);
        match self.tcx.def_kind(d) {
            DefKind::Fn | DefKind::AssocFn => {}
            _ => return J::N,
        }
        let a = self.tcx.erase_and_anonymize_regions(a);
        match ty::Instance::try_resolve(self.tcx, env, d, a) {
            Ok(Some(i)) => J::O(vec![
                ("p", s(self.path(i.def_id()))),
                ("a", self.args(i.args)),
                ("virt", J::B(matches!(i.def, ty::InstanceKind::Virtual(..)))),
            ]),
            _ => J::N,
        }
    }
    fn pat(&self, p: &Pat<'tcx>) -> J {
        let mut o = vec![("ty", self.ty(p.ty))];
        match &p.kind {
            PatKind::Wild => o.push(("k", s("Wild"))),
            PatKind::Missing => o.push(("k", s("Missing"))),
            PatKind::Binding { name, mode, var, subpattern, .. } => {
                o.push(("k", s("Bind")));
                o.push(("name", s(name.as_str())));
                o.push(("var", self.var(*var)));
                o.push(("mode", s(format!("{:?}", mode))));
                o.push(("sub", subpattern.as_ref().map(|p| self.pat(p)).unwrap_or(J::N)));
            }
            PatKind::Variant { adt_def, variant_index, subpatterns, .. } => {
                let v = adt_def.variant(*variant_index);
                o.push(("k", s("Variant")));
                o.push(("adt", s(self.path(adt_def.did()))));
                o.push(("variant", s(v.name.as_str())));
                o.push(("subs", J::A(subpatterns.iter().map(|f| {
                    J::A(vec![s(v.fields[f.field].name.as_str()), self.pat(&f.pattern)])
                }).collect())));
            }
            PatKind::Leaf { subpatterns } => {
                o.push(("k", s("Leaf")));
                let names: Vec<String> = match p.ty.kind() {
                    TyKind::Adt(d, _) => {
                        d.non_enum_variant().fields.iter().map(|f| f.name.to_string()).collect()
                    }
                    _ => vec![],
                };
                o.push(("subs", J::A(subpatterns.iter().map(|f| {
                    let i = f.field.as_usize();
                    J::A(vec![
                        s(names.get(i).cloned().unwrap_or_else(|| i.to_string())),
                        self.pat(&f.pattern),
                    ])
                }).collect())));
            }
            PatKind::Deref { subpattern, .. } => {
                o.push(("k", s("Deref")));
                o.push(("sub", self.pat(subpattern)));
            }
            PatKind::Constant { value } => {
                o.push(("k", s("Const")));
                o.push(("v", s(format!("{}", value))));
            }
            PatKind::Or { pats } => {
                o.push(("k", s("Or")));
                o.push(("pats", J::A(pats.iter().map(|p| self.pat(p)).collect())));
            }
            PatKind::Range(r) => {
                o.push(("k", s("Range")));
                o.push(("v", s(format!("{}", r))));
            }
            k => {
                o.push(("k", s("Other")));
                o.push(("dbg", s(format!("{:?}", k).chars().take(200).collect::<String>())));
            }
        }
        J::O(o)
    }
    fn block(&self, th: &Thir<'tcx>, b: BlockId) -> J {
        let b = &th[b];
        let st = b.stmts.iter().map(|st| match &th[*st].kind {
            StmtKind::Expr { expr, .. } => J::O(vec![("k", s("Expr")), ("e", self.expr(th, *expr))]),
            StmtKind::Let { pattern, initializer, else_block, span, .. } => J::O(vec![
                ("k", s("Let")),
                ("pat", self.pat(pattern)),
                ("init", initializer.map(|e| self.expr(th, e)).unwrap_or(J::N)),
                ("else", else_block.map(|e| self.block(th, e)).unwrap_or(J::N)),
                ("at", self.line(*span)),
            ]),
        }).collect();
        J::O(vec![
            ("k", s("Block")),
            ("stmts", J::A(st)),
            ("e", b.expr.map(|e| self.expr(th, e)).unwrap_or(J::N)),
            ("label", if b.targeted_by_break { s(format!("{:?}", b.region_scope.local_id)) } else { J::N }),
            ("unsafe", J::B(matches!(b.safety_mode, BlockSafety::ExplicitUnsafe(_)))),
            ("at", self.line(b.span)),
        ])
    }
    fn es(&self, th: &Thir<'tcx>, v: &[ExprId]) -> J {
        J::A(v.iter().map(|e| self.expr(th, *e)).collect())
    }
    fn expr(&self, th: &Thir<'tcx>, id: ExprId) -> J {
        let e = &th[id];
        if let ExprKind::Scope { value, .. } = &e.kind {
            // keep loop / block labels resolvable
            return self.expr(th, *value);
        }
        let mut o: Vec<(&'static str, J)> = vec![];
        macro_rules! k { ($n:expr $(, $f:ident : $v:expr)*) => {{ o.push(("k", s($n))); $( o.push((stringify!($f), $v)); )* }} }
        match &e.kind {
            ExprKind::Scope { .. } => unreachable!(),
            ExprKind::If { cond, then, else_opt, .. } => k!("If",
                cond: self.expr(th, *cond), then: self.expr(th, *then),
                els: else_opt.map(|e| self.expr(th, e)).unwrap_or(J::N)),
            ExprKind::Call { ty: t, fun, args, .. } => {
                match t.kind() {
                    TyKind::FnDef(d, a) => {
                        let a = a.no_bound_vars().unwrap_or_else(|| a.skip_binder());
                        k!("Call", p: s(self.path(*d)), ga: self.args(a), res: self.resolve(*d, a),
                           args: self.es(th, args))
                    }
                    _ => k!("CallDyn", fun: self.expr(th, *fun), args: self.es(th, args)),
                }
                o.push(("sp", self.line(e.span)));
            }
            ExprKind::ByUse { expr, .. } => return self.expr(th, *expr),
            ExprKind::Deref { arg } => k!("Deref", arg: self.expr(th, *arg)),
            ExprKind::Binary { op, lhs, rhs } => k!("Binary", op: s(format!("{:?}", op)),
                lhs: self.expr(th, *lhs), rhs: self.expr(th, *rhs)),
            ExprKind::LogicalOp { op, lhs, rhs } => k!("Logical", op: s(format!("{:?}", op)),
                lhs: self.expr(th, *lhs), rhs: self.expr(th, *rhs)),
            ExprKind::Unary { op, arg } => k!("Unary", op: s(format!("{:?}", op)), arg: self.expr(th, *arg)),
            ExprKind::Cast { source } => k!("Cast", arg: self.expr(th, *source)),
            ExprKind::ValueExpr { source } => return self.expr(th, *source),
            ExprKind::NeverToAny { source } => k!("NeverToAny", arg: self.expr(th, *source)),
            ExprKind::PointerCoercion { cast, source, .. } => k!("Coerce", cast: s(format!("{:?}", cast)),
                arg: self.expr(th, *source)),
            ExprKind::Loop { body } => k!("Loop", body: self.expr(th, *body)),
            ExprKind::Let { expr, pat } => k!("LetCond", pat: self.pat(pat), e: self.expr(th, *expr)),
            ExprKind::Match { scrutinee, arms, match_source } => k!("Match",
                src: s(format!("{:?}", match_source)),
                scrut: self.expr(th, *scrutinee),
                arms: J::A(arms.iter().map(|a| { let a = &th[*a]; J::O(vec![
                    ("pat", self.pat(&a.pattern)),
                    ("guard", a.guard.map(|g| self.expr(th, g)).unwrap_or(J::N)),
                    ("body", self.expr(th, a.body)),
                ])}).collect())),
            ExprKind::Block { block } => {
                if let J::O(mut v) = self.block(th, *block) {
                    v.push(("ty", self.ty(e.ty)));
                    return J::O(v);
                }
            }
            ExprKind::Assign { lhs, rhs } => k!("Assign", lhs: self.expr(th, *lhs), rhs: self.expr(th, *rhs)),
            ExprKind::AssignOp { op, lhs, rhs } => k!("AssignOp", op: s(format!("{:?}", op)),
                lhs: self.expr(th, *lhs), rhs: self.expr(th, *rhs)),
            ExprKind::Field { lhs, variant_index, name } => {
                let lt = th[*lhs].ty;
                let n = match lt.kind() {
                    TyKind::Adt(d, _) => d.variant(*variant_index).fields[*name].name.to_string(),
                    _ => name.as_usize().to_string(),
                };
                k!("Field", lhs: self.expr(th, *lhs), name: s(n))
            }
            ExprKind::Index { lhs, index } => k!("Index", lhs: self.expr(th, *lhs), index: self.expr(th, *index)),
            ExprKind::VarRef { id } => k!("Var", v: self.var(*id)),
            ExprKind::UpvarRef { var_hir_id, .. } => k!("Var", v: self.var(*var_hir_id), up: J::B(true)),
            ExprKind::Borrow { borrow_kind, arg } => k!("Borrow",
                m: J::B(!matches!(borrow_kind, rustc_middle::mir::BorrowKind::Shared)),
                arg: self.expr(th, *arg)),
            ExprKind::RawBorrow { arg, .. } => k!("RawBorrow", arg: self.expr(th, *arg)),
            ExprKind::Break { value, label } => k!("Break", value: value.map(|e| self.expr(th, e)).unwrap_or(J::N),
                label: s(format!("{:?}", label.local_id))),
            ExprKind::Continue { label } => k!("Continue", label: s(format!("{:?}", label.local_id))),
            ExprKind::Return { value } => k!("Return", value: value.map(|e| self.expr(th, e)).unwrap_or(J::N)),
            ExprKind::Repeat { value, count } => k!("Repeat", value: self.expr(th, *value), count: s(format!("{:?}", count))),
            ExprKind::Array { fields } => k!("Array", fields: self.es(th, fields)),
            ExprKind::Tuple { fields } => k!("Tuple", fields: self.es(th, fields)),
            ExprKind::Adt(a) => {
                let v = a.adt_def.variant(a.variant_index);
                k!("Adt", adt: s(self.path(a.adt_def.did())), variant: s(v.name.as_str()),
                   isenum: J::B(a.adt_def.is_enum()),
                   fields: J::A(a.fields.iter().map(|f| J::A(vec![
                       s(v.fields[f.name].name.as_str()), self.expr(th, f.expr)])).collect()),
                   base: match &a.base {
                       AdtExprBase::Base(f) => self.expr(th, f.base),
                       _ => J::N,
                   })
            }
            ExprKind::PlaceTypeAscription { source, .. } | ExprKind::ValueTypeAscription { source, .. } => {
                return self.expr(th, *source)
            }
            ExprKind::Closure(c) => k!("Closure", p: s(self.path(c.closure_id.to_def_id())),
                upvars: self.es(th, &c.upvars)),
            ExprKind::Literal { lit, neg } => {
                use rustc_ast::LitKind::*;
                let (kind, val) = match &lit.node {
                    Str(x, _) => ("str", x.to_string()),
                    Int(x, _) => ("int", x.get().to_string()),
                    Float(x, _) => ("float", x.to_string()),
                    Bool(b) => ("bool", b.to_string()),
                    Char(c) => ("char", c.to_string()),
                    Byte(c) => ("int", c.to_string()),
                    x => ("other", format!("{:?}", x)),
                };
                k!("Lit", kind: s(kind), v: s(val), neg: J::B(*neg))
            }
            ExprKind::NonHirLiteral { lit, .. } => k!("Lit", kind: s("int"), v: s(format!("{}", lit)), neg: J::B(false)),
            ExprKind::ZstLiteral { .. } => {
                if let TyKind::FnDef(d, a) = e.ty.kind() {
                    let a = a.no_bound_vars().unwrap_or_else(|| a.skip_binder());
                    k!("FnRef", p: s(self.path(*d)), ga: self.args(a), res: self.resolve(*d, a))
                } else {
                    k!("Zst")
                }
            }
            ExprKind::NamedConst { def_id, args, .. } => k!("Const", p: s(self.path(*def_id)), ga: self.args(args)),
            ExprKind::StaticRef { def_id, .. } => k!("Static", p: s(self.path(*def_id))),
            other => k!("Unsupported", dbg: s(format!("{:?}", other).chars().take(120).collect::<String>())),
        }
        o.push(("ty", self.ty(e.ty)));
        J::O(o)
    }
}

struct Cb;
impl Callbacks for Cb {
    fn after_expansion<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let Ok(out) = std::env::var("THIRDUMP_OUT") else { return Compilation::Continue };
        let want = std::env::var("THIRDUMP_CRATE").unwrap_or("advantage".into());
        if tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).as_str() != want {
            return Compilation::Continue;
        }
        let mut fns = vec![];
        for ld in tcx.hir_body_owners() {
            let d = D { tcx, owner: tcx.typeck_root_def_id(ld.to_def_id()).expect_local() };
            let kind = tcx.def_kind(ld);
            let path = d.path(ld.to_def_id());
            let Ok((th, root)) = tcx.thir_body(ld) else { continue };
            let th = th.borrow().clone();
            let mut o = vec![("kind", s(format!("{:?}", kind)))];
            o.push(("at", d.line(tcx.def_span(ld))));
            o.push(("params", J::A(th.params.iter().map(|p| J::O(vec![
                ("pat", p.pat.as_ref().map(|p| d.pat(p)).unwrap_or(J::N)),
                ("ty", d.ty(p.ty)),
                ("selfk", J::B(p.self_kind.is_some())),
            ])).collect())));
            o.push(("ret", match &th.body_type { BodyTy::Fn(sig) => d.ty(sig.output()), BodyTy::Const(t) => d.ty(*t), _ => J::N }));
            if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
                let g = tcx.generics_of(ld);
                let mut names = vec![];
                for i in 0..g.count() { names.push(s(g.param_at(i, tcx).name.as_str())); }
                o.push(("generics", J::A(names)));

                let parent = tcx.parent(ld.to_def_id());
                if let DefKind::Impl { .. } = tcx.def_kind(parent) {
                    o.push(("impl_self", d.ty(tcx.type_of(parent).instantiate_identity().skip_norm_wip())));
                    if let Some(t) = tcx.impl_opt_trait_ref(parent) {
                        let t = t.instantiate_identity().skip_norm_wip();
                        o.push(("impl_trait", s(d.path(t.def_id))));
                        o.push(("impl_trait_args", d.args(t.args)));
                    }
                } else if let DefKind::Trait { .. } = tcx.def_kind(parent) {
                    o.push(("trait", s(d.path(parent))));
                }
                o.push(("name", s(tcx.item_name(ld.to_def_id()).as_str())));
                o.push(("vis", s(format!("{:?}", tcx.visibility(ld)))));
            }
            o.push(("body", d.expr(&th, root)));
            fns.push((path, J::O(o)));
        }
        let mut adts = vec![];
        let mut traits = vec![];
        for id in tcx.hir_free_items() {
            let ld = id.owner_id.def_id;
            let d = D { tcx, owner: ld };
            match tcx.def_kind(ld) {
                DefKind::Struct | DefKind::Enum => {
                    let def = tcx.adt_def(ld);
                    let vs = def.variants().iter().map(|v| J::O(vec![
                        ("name", s(v.name.as_str())),
                        ("fields", J::A(v.fields.iter().map(|f| J::A(vec![
                            s(f.name.as_str()),
                            d.ty(tcx.type_of(f.did).instantiate_identity().skip_norm_wip())])).collect())),
                    ])).collect();
                    adts.push((d.path(ld.to_def_id()), J::O(vec![
                        ("enum", J::B(def.is_enum())), ("variants", J::A(vs)), ("at", d.line(tcx.def_span(ld)))])));
                }
                DefKind::Trait { .. } => {
                    let items = tcx.associated_items(ld).in_definition_order().map(|i| J::O(vec![
                        ("name", s(i.name().as_str())),
                        ("default", J::B(i.defaultness(tcx).has_value())),
                    ])).collect();
                    traits.push((d.path(ld.to_def_id()), J::A(items)));
                }
                _ => {}
            }
        }
        let mut txt = String::new();
        J::O(vec![("fns", J::M(fns)), ("adts", J::M(adts)), ("traits", J::M(traits))]).w(&mut txt);
        std::fs::write(&out, txt).unwrap();
        Compilation::Continue
    }
}
fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    args.remove(1);
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
