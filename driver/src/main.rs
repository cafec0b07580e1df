//! Compiler driver (RUSTC_WORKSPACE_WRAPPER) that compiles the crate exactly as
//! cargo asks and, once type checking has finished, writes the *typed* program
//! (THIR: every overloaded operator, method call, auto-ref and closure capture
//! resolved by rustc) as JSON to $THIRDUMP_OUT.  It judges nothing; the rules
//! live in /verif/analysis.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_interface::interface;
use rustc_middle::mir::{AssignOp, BinOp, BorrowKind, UnOp};
use rustc_middle::thir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::{ExpnKind, Span};

#[derive(Clone)]
enum J {
    Null,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}
fn esc(s: &str, out: &mut String) {
    out.push('"');
    for c in s.chars() {
        match c {
            '"' => out.push_str("\\\""),
            '\\' => out.push_str("\\\\"),
            '\n' => out.push_str("\\n"),
            '\t' => out.push_str("\\t"),
            '\r' => out.push_str("\\r"),
            c if (c as u32) < 0x20 => out.push_str(&format!("\\u{:04x}", c as u32)),
            c => out.push(c),
        }
    }
    out.push('"');
}
impl J {
    fn w(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::I(i) => o.push_str(&i.to_string()),
            J::S(s) => esc(s, o),
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',')
                    }
                    x.w(o)
                }
                o.push(']')
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',')
                    }
                    esc(k, o);
                    o.push(':');
                    x.w(o)
                }
                o.push('}')
            }
        }
    }
}
fn s<T: ToString>(x: T) -> J {
    J::S(x.to_string())
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }
    fn tys(&self, t: Ty<'tcx>) -> String {
        with_no_trimmed_paths!(t.to_string())
    }
    fn line(&self, sp: Span) -> (String, usize) {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        (f, lo.line)
    }
    fn macro_of(&self, sp: Span) -> J {
        if !sp.from_expansion() {
            return J::Null;
        }
        let mut cur = sp;
        let mut names = vec![];
        while cur.from_expansion() {
            let e = cur.ctxt().outer_expn_data();
            match e.kind {
                ExpnKind::Macro(_, n) => names.push(s(n)),
                ExpnKind::Desugaring(k) => names.push(J::S(format!("~{:?}", k))),
                _ => {}
            }
            cur = e.call_site;
        }
        J::A(names)
    }
    /// (generic path, impl-resolved path, generic args, is-local)
    fn callee(&self, owner: LocalDefId, d: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut resolved = J::Null;
        let mut rlocal = d.is_local();
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn | DefKind::Ctor(..)) {
            let env = TypingEnv::post_analysis(tcx, owner.to_def_id());
            if let Ok(args2) = tcx.try_normalize_erasing_regions(env, rustc_middle::ty::Unnormalized::new_wip(args)) {
                if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, d, args2) {
                    let rd = inst.def_id();
                    if rd != d {
                        rlocal = rd.is_local();
                        resolved = J::S(self.key(rd));
                    }
                }
            }
        }
        let a: Vec<J> = args
            .iter()
            .filter_map(|g| g.as_type().map(|t| s(self.tys(t))))
            .collect();
        let trait_ = tcx
            .trait_of_assoc(d)
            .map(|t| s(self.path(t)))
            .unwrap_or(J::Null);
        J::O(vec![
            ("path", J::S(self.key(d))),
            ("name", tcx.opt_item_name(d).map(s).unwrap_or(J::Null)),
            ("res", resolved),
            ("local", J::B(rlocal)),
            ("trait", trait_),
            ("targs", J::A(a)),
        ])
    }
    /// stable textual key for a definition
    fn key(&self, d: DefId) -> String {
        let tcx = self.tcx;
        if tcx.is_closure_like(d) {
            let parent = tcx.parent(d);
            let n = tcx.def_path(d).data.last().unwrap().disambiguator;
            return format!("{}::{{closure#{}}}", self.key(parent), n);
        }
        self.path(d)
    }
    fn var(&self, id: LocalVarId) -> J {
        let h = id.0;
        let n = self
            .tcx
            .hir_opt_name(h)
            .map(|x| x.to_string())
            .unwrap_or_default();
        J::S(format!(
            "{}#{}.{}",
            n,
            h.owner.def_id.local_def_index.as_u32(),
            h.local_id.as_u32()
        ))
    }
    fn fname(&self, t: Ty<'tcx>, v: rustc_abi::VariantIdx, f: rustc_abi::FieldIdx) -> String {
        match t.kind() {
            ty::Adt(a, _) => a.variant(v).fields[f].name.to_string(),
            _ => f.as_u32().to_string(),
        }
    }
    fn pat(&self, p: &Pat<'tcx>, th: &Thir<'tcx>, own: LocalDefId) -> J {
        let ty_ = s(self.tys(p.ty));
        let mut v = match &p.kind {
            PatKind::Missing | PatKind::Wild => vec![("p", s("wild"))],
            PatKind::Binding {
                mode, var, subpattern, name, ..
            } => vec![
                ("p", s("bind")),
                ("var", self.var(*var)),
                ("name", s(name)),
                ("byref", J::B(!matches!(mode.0, rustc_hir::ByRef::No))),
                (
                    "sub",
                    subpattern
                        .as_ref()
                        .map(|q| self.pat(q, th, own))
                        .unwrap_or(J::Null),
                ),
            ],
            PatKind::Variant {
                adt_def,
                variant_index,
                subpatterns,
                ..
            } => {
                let vd = adt_def.variant(*variant_index);
                vec![
                    ("p", s("variant")),
                    ("adt", s(self.path(adt_def.did()))),
                    ("variant", s(vd.name)),
                    (
                        "subs",
                        J::A(
                            subpatterns
                                .iter()
                                .map(|fp| {
                                    J::A(vec![
                                        s(vd.fields[fp.field].name),
                                        self.pat(&fp.pattern, th, own),
                                    ])
                                })
                                .collect(),
                        ),
                    ),
                ]
            }
            PatKind::Leaf { subpatterns } => vec![
                ("p", s("leaf")),
                (
                    "subs",
                    J::A(
                        subpatterns
                            .iter()
                            .map(|fp| {
                                J::A(vec![
                                    s(self.fname(p.ty, rustc_abi::VariantIdx::from_u32(0), fp.field)),
                                    self.pat(&fp.pattern, th, own),
                                ])
                            })
                            .collect(),
                    ),
                ),
            ],
            PatKind::Deref { subpattern, .. } => {
                vec![("p", s("deref")), ("sub", self.pat(subpattern, th, own))]
            }
            PatKind::DerefPattern { subpattern, .. } => {
                vec![("p", s("deref")), ("sub", self.pat(subpattern, th, own))]
            }
            PatKind::Constant { value } => vec![
                ("p", s("const")),
                ("val", J::S(with_no_trimmed_paths!(value.to_string()))),
            ],
            PatKind::Range(r) => vec![("p", s("range")), ("val", J::S(r.to_string()))],
            PatKind::Slice {
                prefix, slice, suffix,
            }
            | PatKind::Array {
                prefix, slice, suffix,
            } => vec![
                ("p", s("slice")),
                (
                    "prefix",
                    J::A(prefix.iter().map(|q| self.pat(q, th, own)).collect()),
                ),
                (
                    "slice",
                    slice.as_ref().map(|q| self.pat(q, th, own)).unwrap_or(J::Null),
                ),
                (
                    "suffix",
                    J::A(suffix.iter().map(|q| self.pat(q, th, own)).collect()),
                ),
            ],
            PatKind::Or { pats } => vec![
                ("p", s("or")),
                ("subs", J::A(pats.iter().map(|q| self.pat(q, th, own)).collect())),
            ],
            _ => vec![("p", s("other"))],
        };
        v.push(("ty", ty_));
        J::O(v)
    }
    fn block(&self, b: BlockId, th: &Thir<'tcx>, own: LocalDefId) -> J {
        let bl = &th.blocks[b];
        let mut st = vec![];
        for sid in bl.stmts.iter() {
            match &th.stmts[*sid].kind {
                StmtKind::Expr { expr, .. } => st.push(J::O(vec![
                    ("s", s("expr")),
                    ("e", self.expr(*expr, th, own)),
                ])),
                StmtKind::Let {
                    pattern,
                    initializer,
                    else_block,
                    span,
                    ..
                } => st.push(J::O(vec![
                    ("s", s("let")),
                    ("pat", self.pat(pattern, th, own)),
                    (
                        "init",
                        initializer.map(|e| self.expr(e, th, own)).unwrap_or(J::Null),
                    ),
                    (
                        "els",
                        else_block.map(|b| self.block(b, th, own)).unwrap_or(J::Null),
                    ),
                    ("line", J::I(self.line(*span).1 as i128)),
                ])),
            }
        }
        J::O(vec![
            ("k", s("block")),
            ("unsafe", J::B(matches!(bl.safety_mode, BlockSafety::ExplicitUnsafe(_)))),
            ("stmts", J::A(st)),
            (
                "expr",
                bl.expr.map(|e| self.expr(e, th, own)).unwrap_or(J::Null),
            ),
            ("scope", J::I(bl.region_scope.local_id.as_u32() as i128)),
            ("brk", J::B(bl.targeted_by_break)),
            ("line", J::I(self.line(bl.span).1 as i128)),
        ])
    }
    fn expr(&self, e: ExprId, th: &Thir<'tcx>, own: LocalDefId) -> J {
        let ex = &th.exprs[e];
        let r = |x: ExprId| self.expr(x, th, own);
        let ro = |x: Option<ExprId>| x.map(|x| self.expr(x, th, own)).unwrap_or(J::Null);
        let rl = |xs: &[ExprId]| J::A(xs.iter().map(|x| self.expr(*x, th, own)).collect());
        let mut v: Vec<(&'static str, J)> = match &ex.kind {
            ExprKind::Scope { value, region_scope, .. } => {
                // transparent, but loops are labelled by the scope around them
                let inner = r(*value);
                if let J::O(mut o) = inner {
                    if let Some(x) = o.iter_mut().find(|(k, _)| *k == "scopes") {
                        if let J::A(l) = &mut x.1 {
                            l.push(J::I(region_scope.local_id.as_u32() as i128));
                        }
                    }
                    return J::O(o);
                }
                return inner;
            }
            ExprKind::PlaceTypeAscription { source, .. }
            | ExprKind::ValueTypeAscription { source, .. }
            | ExprKind::ValueExpr { source }
            | ExprKind::NeverToAny { source } => return r(*source),
            ExprKind::ByUse { expr, .. } => return r(*expr),
            ExprKind::If {
                cond, then, else_opt, ..
            } => vec![
                ("k", s("if")),
                ("cond", r(*cond)),
                ("then", r(*then)),
                ("els", ro(*else_opt)),
            ],
            ExprKind::Call { fun, args, ty: fty, fn_span, .. } => {
                let f = match fty.kind() {
                    ty::FnDef(d, a) => self.callee(own, *d, a.skip_binder()),
                    _ => J::O(vec![("dyn", r(*fun)), ("fty", s(self.tys(*fty)))]),
                };
                vec![("k", s("call")), ("f", f), ("args", rl(args)), ("fline", J::I(self.line(*fn_span).1 as i128))]
            }
            ExprKind::Deref { arg } => vec![("k", s("deref")), ("e", r(*arg))],
            ExprKind::Binary { op, lhs, rhs } => vec![
                ("k", s("bin")),
                ("op", s(binop(*op))),
                ("l", r(*lhs)),
                ("r", r(*rhs)),
            ],
            ExprKind::LogicalOp { op, lhs, rhs } => vec![
                ("k", s("logic")),
                ("op", s(if matches!(op, LogicalOp::And) { "&&" } else { "||" })),
                ("l", r(*lhs)),
                ("r", r(*rhs)),
            ],
            ExprKind::Unary { op, arg } => vec![
                ("k", s("un")),
                (
                    "op",
                    s(match op {
                        UnOp::Not => "!",
                        UnOp::Neg => "-",
                        _ => "ptrmeta",
                    }),
                ),
                ("e", r(*arg)),
            ],
            ExprKind::Cast { source } => vec![
                ("k", s("cast")),
                ("e", r(*source)),
                ("from", s(self.tys(th.exprs[*source].ty))),
            ],
            ExprKind::PointerCoercion { source, cast, .. } => {
                vec![("k", s("coerce")), ("how", J::S(format!("{:?}", cast))), ("e", r(*source))]
            }
            ExprKind::Loop { body } => vec![("k", s("loop")), ("body", r(*body))],
            ExprKind::Let { expr, pat } => vec![
                ("k", s("letcond")),
                ("e", r(*expr)),
                ("pat", self.pat(pat, th, own)),
            ],
            ExprKind::Match {
                scrutinee,
                arms,
                match_source,
            } => vec![
                ("k", s("match")),
                ("e", r(*scrutinee)),
                ("src", J::S(format!("{:?}", match_source).split('(').next().unwrap().to_string())),
                (
                    "arms",
                    J::A(arms
                        .iter()
                        .map(|a| {
                            let a = &th.arms[*a];
                            J::O(vec![
                                ("pat", self.pat(&a.pattern, th, own)),
                                ("guard", ro(a.guard)),
                                ("body", r(a.body)),
                            ])
                        })
                        .collect()),
                ),
            ],
            ExprKind::Block { block } => {
                let b = self.block(*block, th, own);
                if let J::O(mut o) = b {
                    o.push(("ty", s(self.tys(ex.ty))));
                    o.push(("scopes", J::A(vec![])));
                    return J::O(o);
                }
                unreachable!()
            }
            ExprKind::Assign { lhs, rhs } => {
                vec![("k", s("assign")), ("l", r(*lhs)), ("r", r(*rhs))]
            }
            ExprKind::AssignOp { op, lhs, rhs } => vec![
                ("k", s("assignop")),
                ("op", s(assignop(*op))),
                ("l", r(*lhs)),
                ("r", r(*rhs)),
            ],
            ExprKind::Field {
                lhs,
                variant_index,
                name,
            } => {
                let t = th.exprs[*lhs].ty;
                vec![
                    ("k", s("field")),
                    ("e", r(*lhs)),
                    ("name", s(self.fname(t, *variant_index, *name))),
                    ("adt", match t.kind() { ty::Adt(a, _) => s(self.path(a.did())), _ => J::Null }),
                ]
            }
            ExprKind::Index { lhs, index } => {
                vec![("k", s("index")), ("e", r(*lhs)), ("i", r(*index))]
            }
            ExprKind::VarRef { id } => vec![("k", s("var")), ("var", self.var(*id))],
            ExprKind::UpvarRef { var_hir_id, .. } => {
                vec![("k", s("upvar")), ("var", self.var(*var_hir_id))]
            }
            ExprKind::Borrow { borrow_kind, arg } => vec![
                ("k", s("ref")),
                ("mut", J::B(matches!(borrow_kind, BorrowKind::Mut { .. }))),
                ("e", r(*arg)),
            ],
            ExprKind::RawBorrow { arg, .. } => vec![("k", s("rawref")), ("e", r(*arg))],
            ExprKind::Reborrow { source, .. } => vec![("k", s("ref")), ("mut", J::B(true)), ("e", r(*source))],
            ExprKind::Break { label, value } => vec![
                ("k", s("break")),
                ("label", J::I(label.local_id.as_u32() as i128)),
                ("e", ro(*value)),
            ],
            ExprKind::Continue { label } => vec![
                ("k", s("continue")),
                ("label", J::I(label.local_id.as_u32() as i128)),
            ],
            ExprKind::Return { value } => vec![("k", s("return")), ("e", ro(*value))],
            ExprKind::Repeat { value, count } => vec![
                ("k", s("repeat")),
                ("e", r(*value)),
                ("n", J::S(with_no_trimmed_paths!(count.to_string()))),
            ],
            ExprKind::Array { fields } => vec![("k", s("array")), ("es", rl(fields))],
            ExprKind::Tuple { fields } => vec![("k", s("tuple")), ("es", rl(fields))],
            ExprKind::Adt(a) => {
                let vd = a.adt_def.variant(a.variant_index);
                let base = match &a.base {
                    AdtExprBase::Base(f) => r(f.base),
                    _ => J::Null,
                };
                vec![
                    ("k", s("adt")),
                    ("adt", s(self.path(a.adt_def.did()))),
                    ("variant", s(vd.name)),
                    ("enum", J::B(a.adt_def.is_enum())),
                    (
                        "fields",
                        J::A(a
                            .fields
                            .iter()
                            .map(|f| J::A(vec![s(vd.fields[f.name].name), r(f.expr)]))
                            .collect()),
                    ),
                    ("base", base),
                ]
            }
            ExprKind::Closure(c) => vec![
                ("k", s("closure")),
                ("id", J::S(self.key(c.closure_id.to_def_id()))),
                ("upvars", rl(&c.upvars)),
            ],
            ExprKind::Literal { lit, neg } => {
                use rustc_ast::LitKind as L;
                let (k, val) = match &lit.node {
                    L::Str(x, _) => ("str", x.to_string()),
                    L::Int(x, _) => ("int", format!("{}{}", if *neg { "-" } else { "" }, x.get())),
                    L::Float(x, _) => ("float", format!("{}{}", if *neg { "-" } else { "" }, x)),
                    L::Bool(b) => ("bool", b.to_string()),
                    L::Char(c) => ("char", c.to_string()),
                    L::Byte(b) => ("int", b.to_string()),
                    o => ("otherlit", format!("{:?}", o)),
                };
                vec![("k", s("lit")), ("lk", s(k)), ("val", s(val))]
            }
            ExprKind::NonHirLiteral { lit, .. } => {
                vec![("k", s("lit")), ("lk", s("raw")), ("val", J::S(format!("{:?}", lit)))]
            }
            ExprKind::ZstLiteral { .. } => match ex.ty.kind() {
                ty::FnDef(d, a) => vec![("k", s("fnref")), ("f", self.callee(own, *d, a.skip_binder()))],
                _ => vec![("k", s("zst"))],
            },
            ExprKind::NamedConst { def_id, args, .. } => vec![
                ("k", s("const")),
                ("f", self.callee(own, *def_id, args)),
            ],
            ExprKind::StaticRef { def_id, .. } => {
                vec![("k", s("static")), ("path", J::S(self.key(*def_id)))]
            }
            o => {
                let d = format!("{:?}", o);
                let n = d.split(|c: char| !c.is_alphanumeric()).next().unwrap_or("?").to_string();
                vec![("k", s("unknown")), ("what", J::S(n))]
            }
        };
        v.push(("ty", s(self.tys(ex.ty))));
        v.push(("line", J::I(self.line(ex.span).1 as i128)));
        let m = self.macro_of(ex.span);
        if !matches!(m, J::Null) {
            v.push(("mac", m));
        }
        v.push(("scopes", J::A(vec![])));
        J::O(v)
    }
    fn body(&self, own: LocalDefId) -> J {
        let tcx = self.tcx;
        let did = own.to_def_id();
        let kind = tcx.def_kind(did);
        let (file, line) = self.line(tcx.def_span(did));
        let mut o = vec![
            ("key", J::S(self.key(did))),
            ("kind", J::S(format!("{:?}", kind).split(|c: char| !c.is_alphanumeric()).next().unwrap().to_string())),
            ("file", s(file)),
            ("line", J::I(line as i128)),
            ("name", tcx.opt_item_name(did).map(s).unwrap_or(J::Null)),
        ];
        let mut top = did;
        while tcx.is_closure_like(top) {
            top = tcx.parent(top);
        }
        o.push(("owner", J::S(self.key(top))));
        o.push(("module", s(self.path(tcx.parent_module_from_def_id(own).to_def_id()))));
        if let Some(imp) = tcx.impl_of_assoc(top) {
            let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
            o.push(("self_ty", s(self.tys(st))));
            if let ty::Adt(a, _) = st.kind() {
                o.push(("self_adt", s(self.path(a.did()))));
            }
            if let Some(tr) = tcx.impl_opt_trait_ref(imp) {
                o.push(("trait", s(self.path(tr.skip_binder().def_id))));
            }
            o.push(("derived", J::B(tcx.is_automatically_derived(imp))));
        } else if let Some(t) = tcx.trait_of_assoc(top) {
            o.push(("in_trait", s(self.path(t))));
        }
        if matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Const { .. } | DefKind::AssocConst { .. }) {
            o.push(("vis", J::S(format!("{:?}", tcx.visibility(did)))));
            let eff = tcx.effective_visibilities(());
            o.push(("reachable", J::B(eff.is_reachable(own))));
        }
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip().skip_binder();
            o.push(("ret", s(self.tys(sig.output()))));
            o.push(("unsafe", J::B(sig.safety().is_unsafe())));
        }
        match tcx.thir_body(own) {
            Ok((th, root)) => {
                let th = th.borrow();
                let ps: Vec<J> = th
                    .params
                    .iter()
                    .map(|p| {
                        J::O(vec![
                            (
                                "pat",
                                p.pat
                                    .as_ref()
                                    .map(|q| self.pat(q, &th, own))
                                    .unwrap_or(J::Null),
                            ),
                            ("ty", s(self.tys(p.ty))),
                        ])
                    })
                    .collect();
                o.push(("params", J::A(ps)));
                o.push(("body", self.expr(root, &th, own)));
            }
            Err(_) => o.push(("error", J::B(true))),
        }
        J::O(o)
    }
    fn adts(&self) -> J {
        let tcx = self.tcx;
        let mut out = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let did = id.to_def_id();
            if matches!(tcx.def_kind(did), DefKind::Struct | DefKind::Enum) {
                let a = tcx.adt_def(did);
                let env = TypingEnv::post_analysis(tcx, did);
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                let (file, line) = self.line(tcx.def_span(did));
                let vs = a
                    .variants()
                    .iter()
                    .map(|v| {
                        J::O(vec![
                            ("name", s(v.name)),
                            (
                                "fields",
                                J::A(v
                                    .fields
                                    .iter()
                                    .map(|f| {
                                        let ft = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                                        J::O(vec![
                                            ("name", s(f.name)),
                                            ("ty", s(self.tys(ft))),
                                            ("vis", J::S(format!("{:?}", tcx.visibility(f.did)))),
                                            ("public", J::B(tcx.visibility(f.did).is_public())),
                                        ])
                                    })
                                    .collect()),
                            ),
                        ])
                    })
                    .collect();
                let eff = tcx.effective_visibilities(());
                out.push(J::O(vec![
                    ("path", s(self.path(did))),
                    ("enum", J::B(a.is_enum())),
                    ("file", s(file)),
                    ("line", J::I(line as i128)),
                    ("freeze", J::B(t.is_freeze(tcx, env))),
                    ("reachable", J::B(eff.is_reachable(id))),
                    ("variants", J::A(vs)),
                ]));
            }
        }
        J::A(out)
    }
    fn impls(&self) -> J {
        let tcx = self.tcx;
        let mut out = vec![];
        for (tr, impls) in tcx.all_local_trait_impls(()) {
            for i in impls.iter() {
                let st = tcx.type_of(*i).instantiate_identity().skip_norm_wip();
                let items: Vec<J> = tcx
                    .associated_items(i.to_def_id())
                    .in_definition_order()
                    .map(|it| J::S(self.key(it.def_id)))
                    .collect();
                out.push(J::O(vec![
                    ("trait", s(self.path(*tr))),
                    ("self_ty", s(self.tys(st))),
                    ("self_adt", match st.kind() { ty::Adt(a, _) => s(self.path(a.did())), _ => J::Null }),
                    ("items", J::A(items)),
                    ("derived", J::B(tcx.is_automatically_derived(i.to_def_id()))),
                    ("unsafe_impl", J::B(tcx.trait_def(*tr).safety.is_unsafe())),
                    ("file", J::S(self.line(tcx.def_span(*i)).0)),
                ]));
            }
        }
        J::A(out)
    }
}
fn binop(o: BinOp) -> &'static str {
    match o {
        BinOp::Add => "+",
        BinOp::Sub => "-",
        BinOp::Mul => "*",
        BinOp::Div => "/",
        BinOp::Rem => "%",
        BinOp::BitXor => "^",
        BinOp::BitAnd => "&",
        BinOp::BitOr => "|",
        BinOp::Shl => "<<",
        BinOp::Shr => ">>",
        BinOp::Eq => "==",
        BinOp::Lt => "<",
        BinOp::Le => "<=",
        BinOp::Ne => "!=",
        BinOp::Ge => ">=",
        BinOp::Gt => ">",
        _ => "?",
    }
}
fn assignop(o: AssignOp) -> &'static str {
    match o {
        AssignOp::AddAssign => "+",
        AssignOp::SubAssign => "-",
        AssignOp::MulAssign => "*",
        AssignOp::DivAssign => "/",
        AssignOp::RemAssign => "%",
        AssignOp::BitXorAssign => "^",
        AssignOp::BitAndAssign => "&",
        AssignOp::BitOrAssign => "|",
        AssignOp::ShlAssign => "<<",
        AssignOp::ShrAssign => ">>",
    }
}

struct Dump {
    out: String,
}
impl Callbacks for Dump {
    fn config(&mut self, config: &mut interface::Config) {
        config.opts.unstable_opts.no_steal_thir = true;
    }
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let cx = Cx { tcx };
        let mut bodies = vec![];
        for o in tcx.hir_body_owners() {
            bodies.push(cx.body(o));
        }
        let reexports = J::Null;
        let top = J::O(vec![
            ("crate", s(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE))),
            ("adts", cx.adts()),
            ("impls", cx.impls()),
            ("reexports", reexports),
            ("bodies", J::A(bodies)),
        ]);
        let mut st = String::new();
        top.w(&mut st);
        std::fs::write(&self.out, st).expect("cannot write THIRDUMP_OUT");
        Compilation::Continue
    }
}

struct Plain;
impl Callbacks for Plain {}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let want = std::env::var("THIRDUMP_CRATE").unwrap_or_default();
    let name = args
        .iter()
        .position(|a| a == "--crate-name")
        .and_then(|i| args.get(i + 1))
        .cloned()
        .unwrap_or_default();
    rustc_driver::catch_with_exit_code(|| {
        match (std::env::var("THIRDUMP_OUT"), !want.is_empty() && name == want) {
            (Ok(out), true) => rustc_driver::compiler_entrypoint(&args, &mut Dump { out }),
            _ => rustc_driver::compiler_entrypoint(&args, &mut Plain),
        }
    })
}
