use crate::{json::J, Cx};
use rustc_hir::def_id::LocalDefId;
use rustc_middle::{
    thir::*,
    ty::{self, TypingEnv},
};

struct D<'a, 'tcx> {
    cx: &'a Cx<'tcx>,
    thir: &'a Thir<'tcx>,
    env: TypingEnv<'tcx>,
}

pub fn dump<'tcx>(cx: &Cx<'tcx>, def: LocalDefId, thir: &Thir<'tcx>, root: ExprId) -> J {
    let d = D {
        cx,
        thir,
        env: TypingEnv::post_analysis(cx.tcx, def),
    };
    J::Obj(vec![
        (
            "params",
            J::Arr(
                thir.params
                    .iter()
                    .map(|param| {
                        J::Obj(vec![
                            ("ty", cx.ty(param.ty)),
                            (
                                "pat",
                                match &param.pat {
                                    Some(pat) => d.pat(pat),
                                    None => J::Null,
                                },
                            ),
                        ])
                    })
                    .collect(),
            ),
        ),
        ("body", d.expr(root)),
    ])
}

fn var(id: LocalVarId) -> J {
    J::s(format!("{}.{}", id.0.owner.def_id.local_def_index.as_u32(), id.0.local_id.as_u32()))
}

impl<'a, 'tcx> D<'a, 'tcx> {
    fn list(&self, list: &[ExprId]) -> J {
        J::Arr(list.iter().map(|&e| self.expr(e)).collect())
    }

    fn opt(&self, e: &Option<ExprId>) -> J {
        match e {
            Some(e) => self.expr(*e),
            None => J::Null,
        }
    }

    fn expr(&self, id: ExprId) -> J {
        let e = &self.thir[id];
        let mut f: Vec<(&'static str, J)> = vec![];
        let kind = match &e.kind {
            ExprKind::Scope { value, .. } => return self.expr(*value),
            ExprKind::ByUse { expr, .. } => return self.expr(*expr),
            ExprKind::ValueExpr { source }
            | ExprKind::NeverToAny { source }
            | ExprKind::PlaceTypeAscription { source, .. }
            | ExprKind::ValueTypeAscription { source, .. }
            | ExprKind::PlaceUnwrapUnsafeBinder { source }
            | ExprKind::ValueUnwrapUnsafeBinder { source }
            | ExprKind::WrapUnsafeBinder { source }
            | ExprKind::Reborrow { source, .. } => return self.expr(*source),
            ExprKind::PointerCoercion { cast, source, .. } => {
                f.push(("cast", J::s(format!("{cast:?}"))));
                f.push(("e", self.expr(*source)));
                "Coerce"
            }
            ExprKind::If { cond, then, else_opt, .. } => {
                f.push(("c", self.expr(*cond)));
                f.push(("t", self.expr(*then)));
                f.push(("e", self.opt(else_opt)));
                "If"
            }
            ExprKind::Call { fun, args, .. } => {
                f.push(("f", self.expr(*fun)));
                f.push(("a", self.list(args)));
                "Call"
            }
            ExprKind::Deref { arg } => {
                f.push(("e", self.expr(*arg)));
                "Deref"
            }
            ExprKind::Binary { op, lhs, rhs } => {
                f.push(("op", J::s(format!("{op:?}"))));
                f.push(("l", self.expr(*lhs)));
                f.push(("r", self.expr(*rhs)));
                "Binary"
            }
            ExprKind::LogicalOp { op, lhs, rhs } => {
                f.push(("op", J::s(format!("{op:?}"))));
                f.push(("l", self.expr(*lhs)));
                f.push(("r", self.expr(*rhs)));
                "Logical"
            }
            ExprKind::Unary { op, arg } => {
                f.push(("op", J::s(format!("{op:?}"))));
                f.push(("e", self.expr(*arg)));
                "Unary"
            }
            ExprKind::Cast { source } => {
                f.push(("e", self.expr(*source)));
                "Cast"
            }
            ExprKind::Loop { body } => {
                f.push(("e", self.expr(*body)));
                "Loop"
            }
            ExprKind::Let { expr, pat } => {
                f.push(("e", self.expr(*expr)));
                f.push(("p", self.pat(pat)));
                "Let"
            }
            ExprKind::Match { scrutinee, arms, match_source } => {
                f.push(("e", self.expr(*scrutinee)));
                f.push((
                    "arms",
                    J::Arr(
                        arms.iter()
                            .map(|&arm| {
                                let arm = &self.thir[arm];
                                J::Obj(vec![
                                    ("p", self.pat(&arm.pattern)),
                                    ("g", self.opt(&arm.guard)),
                                    ("b", self.expr(arm.body)),
                                ])
                            })
                            .collect(),
                    ),
                ));
                f.push(("src", J::s(format!("{match_source:?}").split('(').next().unwrap().to_string())));
                "Match"
            }
            ExprKind::Block { block } => {
                let block = &self.thir[*block];
                f.push((
                    "s",
                    J::Arr(block.stmts.iter().map(|&s| self.stmt(s)).collect()),
                ));
                f.push(("e", self.opt(&block.expr)));
                if matches!(block.safety_mode, BlockSafety::ExplicitUnsafe(_)) {
                    f.push(("unsafe", J::Bool(true)));
                }
                "Block"
            }
            ExprKind::Assign { lhs, rhs } => {
                f.push(("l", self.expr(*lhs)));
                f.push(("r", self.expr(*rhs)));
                "Assign"
            }
            ExprKind::AssignOp { op, lhs, rhs } => {
                f.push(("op", J::s(format!("{op:?}"))));
                f.push(("l", self.expr(*lhs)));
                f.push(("r", self.expr(*rhs)));
                "AssignOp"
            }
            ExprKind::Field { lhs, variant_index, name } => {
                let ty = self.thir[*lhs].ty;
                f.push(("e", self.expr(*lhs)));
                f.push(("i", J::n(name.as_usize())));
                if let ty::Adt(adt, _) = ty.kind() {
                    let variant = adt.variant(*variant_index);
                    f.push(("adt", J::s(self.cx.path(adt.did()))));
                    f.push(("n", J::s(variant.fields[*name].name.to_string())));
                }
                "Field"
            }
            ExprKind::Index { lhs, index } => {
                f.push(("l", self.expr(*lhs)));
                f.push(("r", self.expr(*index)));
                "Index"
            }
            ExprKind::VarRef { id } => {
                f.push(("v", var(*id)));
                f.push(("n", J::s(self.cx.tcx.hir_name(id.0).to_string())));
                "Var"
            }
            ExprKind::UpvarRef { var_hir_id, .. } => {
                f.push(("v", var(*var_hir_id)));
                f.push(("n", J::s(self.cx.tcx.hir_name(var_hir_id.0).to_string())));
                f.push(("up", J::Bool(true)));
                "Var"
            }
            ExprKind::Borrow { borrow_kind, arg } => {
                f.push(("mut", J::Bool(matches!(borrow_kind, rustc_middle::mir::BorrowKind::Mut { .. }))));
                f.push(("e", self.expr(*arg)));
                "Borrow"
            }
            ExprKind::RawBorrow { arg, .. } => {
                f.push(("e", self.expr(*arg)));
                "RawBorrow"
            }
            ExprKind::Break { value, .. } => {
                f.push(("e", self.opt(value)));
                "Break"
            }
            ExprKind::Continue { .. } => "Continue",
            ExprKind::Return { value } => {
                f.push(("e", self.opt(value)));
                "Return"
            }
            ExprKind::Repeat { value, count } => {
                f.push(("e", self.expr(*value)));
                f.push(("n", J::s(count.to_string())));
                "Repeat"
            }
            ExprKind::Array { fields } => {
                f.push(("a", self.list(fields)));
                "Array"
            }
            ExprKind::Tuple { fields } => {
                f.push(("a", self.list(fields)));
                "Tuple"
            }
            ExprKind::Adt(adt) => {
                let variant = adt.adt_def.variant(adt.variant_index);
                f.push(("adt", J::s(self.cx.path(adt.adt_def.did()))));
                f.push(("variant", J::s(variant.name.to_string())));
                f.push((
                    "f",
                    J::Arr(
                        adt.fields
                            .iter()
                            .map(|field| {
                                J::Arr(vec![
                                    J::s(variant.fields[field.name].name.to_string()),
                                    self.expr(field.expr),
                                ])
                            })
                            .collect(),
                    ),
                ));
                if let AdtExprBase::Base(base) = &adt.base {
                    f.push(("base", self.expr(base.base)));
                }
                "Adt"
            }
            ExprKind::Closure(closure) => {
                f.push(("key", J::s(self.cx.key(closure.closure_id.to_def_id()))));
                if self.cx.tcx.is_coroutine(closure.closure_id.to_def_id()) {
                    f.push(("coroutine", J::Bool(true)));
                }
                "Closure"
            }
            ExprKind::Literal { lit, neg } => {
                use rustc_ast::LitKind;
                f.push(("neg", J::Bool(*neg)));
                match &lit.node {
                    LitKind::Str(s, _) => {
                        f.push(("v", J::s(s.as_str())));
                        "Str"
                    }
                    LitKind::ByteStr(s, _) | LitKind::CStr(s, _) => {
                        f.push(("v", J::s(String::from_utf8_lossy(s.as_byte_str()))));
                        "Str"
                    }
                    LitKind::Char(c) => {
                        f.push(("v", J::s(c.to_string())));
                        "Char"
                    }
                    LitKind::Byte(c) => {
                        f.push(("v", J::Int(*c as i128)));
                        "Int"
                    }
                    LitKind::Int(i, _) => {
                        f.push(("v", J::Int(i.get() as i128)));
                        "Int"
                    }
                    LitKind::Float(s, _) => {
                        f.push(("v", J::s(s.as_str())));
                        "Float"
                    }
                    LitKind::Bool(b) => {
                        f.push(("v", J::Bool(*b)));
                        "Bool"
                    }
                    LitKind::Err(_) => "Err",
                }
            }
            ExprKind::NonHirLiteral { lit, .. } => {
                f.push(("v", J::s(format!("{lit:?}"))));
                "RawLit"
            }
            ExprKind::ZstLiteral { .. } => match e.ty.kind() {
                ty::FnDef(def, args) => {
                    f.extend(self.cx.callee(self.env, *def, args.no_bound_vars().unwrap_or_else(|| args.skip_binder())));
                    "Fn"
                }
                _ => "Zst",
            },
            ExprKind::NamedConst { def_id, .. } => {
                f.push(("def", J::s(self.cx.path(*def_id))));
                if def_id.is_local() {
                    f.push(("key", J::s(self.cx.key(*def_id))));
                }
                "Const"
            }
            ExprKind::ConstParam { .. } => "ConstParam",
            ExprKind::ConstBlock { .. } => "ConstBlock",
            ExprKind::StaticRef { def_id, .. } => {
                f.push(("def", J::s(self.cx.path(*def_id))));
                "Static"
            }
            ExprKind::ThreadLocalRef(def_id) => {
                f.push(("def", J::s(self.cx.path(*def_id))));
                "Static"
            }
            ExprKind::Yield { value } => {
                f.push(("e", self.expr(*value)));
                "Yield"
            }
            _ => "Other",
        };
        let mut out = vec![
            ("k", J::s(kind)),
            ("ty", self.cx.ty(e.ty)),
            ("ln", J::n(self.cx.line(e.span))),
        ];
        out.append(&mut f);
        J::Obj(out)
    }

    fn stmt(&self, id: StmtId) -> J {
        match &self.thir[id].kind {
            StmtKind::Expr { expr, .. } => self.expr(*expr),
            StmtKind::Let { pattern, initializer, else_block, .. } => J::Obj(vec![
                ("k", J::s("LetStmt")),
                ("p", self.pat(pattern)),
                ("e", self.opt(initializer)),
                (
                    "else",
                    match else_block {
                        Some(block) => {
                            let block = &self.thir[*block];
                            J::Obj(vec![
                                ("k", J::s("Block")),
                                (
                                    "s",
                                    J::Arr(block.stmts.iter().map(|&s| self.stmt(s)).collect()),
                                ),
                                ("e", self.opt(&block.expr)),
                            ])
                        }
                        None => J::Null,
                    },
                ),
            ]),
        }
    }

    fn fields(&self, subpatterns: &[FieldPat<'tcx>]) -> J {
        J::Arr(
            subpatterns
                .iter()
                .map(|field| J::Arr(vec![J::n(field.field.as_usize()), self.pat(&field.pattern)]))
                .collect(),
        )
    }

    fn pats(&self, pats: &[Pat<'tcx>]) -> J {
        J::Arr(pats.iter().map(|p| self.pat(p)).collect())
    }

    fn pat(&self, pat: &Pat<'tcx>) -> J {
        let mut f = vec![];
        let kind = match &pat.kind {
            PatKind::Wild | PatKind::Missing => "Wild",
            PatKind::Binding { name, var: v, subpattern, mode, .. } => {
                f.push(("n", J::s(name.to_string())));
                f.push(("v", var(*v)));
                f.push(("ref", J::Bool(!matches!(mode.0, rustc_hir::ByRef::No))));
                if let Some(p) = subpattern {
                    f.push(("p", self.pat(p)));
                }
                "Bind"
            }
            PatKind::Variant { adt_def, variant_index, subpatterns, .. } => {
                f.push(("adt", J::s(self.cx.path(adt_def.did()))));
                f.push((
                    "variant",
                    J::s(adt_def.variant(*variant_index).name.to_string()),
                ));
                f.push(("f", self.fields(subpatterns)));
                "Variant"
            }
            PatKind::Leaf { subpatterns } => {
                f.push(("f", self.fields(subpatterns)));
                "Leaf"
            }
            PatKind::Deref { subpattern, .. } | PatKind::DerefPattern { subpattern, .. } => {
                f.push(("p", self.pat(subpattern)));
                "Deref"
            }
            PatKind::Constant { value } => {
                f.push(("v", J::s(format!("{value}"))));
                "Const"
            }
            PatKind::Range(range) => {
                f.push(("v", J::s(format!("{range:?}"))));
                "Range"
            }
            PatKind::Slice { prefix, slice, suffix } | PatKind::Array { prefix, slice, suffix } => {
                f.push(("pre", self.pats(prefix)));
                f.push((
                    "mid",
                    match slice {
                        Some(p) => self.pat(p),
                        None => J::Null,
                    },
                ));
                f.push(("suf", self.pats(suffix)));
                "Slice"
            }
            PatKind::Or { pats } => {
                f.push(("ps", self.pats(pats)));
                "Or"
            }
            _ => "OtherPat",
        };
        let mut out = vec![("k", J::s(kind)), ("ty", self.cx.ty(pat.ty))];
        out.append(&mut f);
        J::Obj(out)
    }
}
