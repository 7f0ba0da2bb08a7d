use crate::{json::J, Cx};
use rustc_hir::def_id::DefId;
use rustc_middle::{
    mir::{interpret::{GlobalAlloc, Scalar}, *},
    ty::{self, TypingEnv},
};

struct D<'a, 'tcx> {
    cx: &'a Cx<'tcx>,
    body: &'a Body<'tcx>,
    env: TypingEnv<'tcx>,
}

pub fn dump<'tcx>(cx: &Cx<'tcx>, def: DefId, body: &Body<'tcx>) -> J {
    let d = D {
        cx,
        body,
        env: TypingEnv::post_analysis(cx.tcx, def),
    };
    let mut names = vec![];
    for info in &body.var_debug_info {
        if let VarDebugInfoContents::Place(place) = &info.value {
            names.push(J::Arr(vec![J::s(info.name.to_string()), d.place(place)]));
        }
    }
    J::Obj(vec![
        ("argc", J::n(body.arg_count)),
        (
            "locals",
            J::Arr(body.local_decls.iter().map(|local| cx.ty(local.ty)).collect()),
        ),
        ("names", J::Arr(names)),
        (
            "blocks",
            J::Arr(
                body.basic_blocks
                    .iter()
                    .map(|block| {
                        let mut fields = vec![
                            (
                                "s",
                                J::Arr(
                                    block.statements.iter().filter_map(|s| d.statement(s)).collect(),
                                ),
                            ),
                            ("t", d.terminator(block.terminator())),
                        ];
                        if block.is_cleanup {
                            fields.push(("cleanup", J::Bool(true)));
                        }
                        J::Obj(fields)
                    })
                    .collect(),
            ),
        ),
    ])
}

impl<'a, 'tcx> D<'a, 'tcx> {
    fn place(&self, place: &Place<'tcx>) -> J {
        let mut out = vec![J::n(place.local.as_usize())];
        let mut ty = PlaceTy::from_ty(self.body.local_decls[place.local].ty);
        for element in place.projection {
            out.push(match element {
                ProjectionElem::Deref => J::s("*"),
                ProjectionElem::Field(index, _) => {
                    let mut fields = vec![("f", J::n(index.as_usize()))];
                    if let ty::Adt(adt, _) = ty.ty.kind() {
                        let variant = match ty.variant_index {
                            Some(v) => adt.variant(v),
                            None if adt.is_enum() => return J::Null,
                            None => adt.non_enum_variant(),
                        };
                        fields.push(("n", J::s(variant.fields[index].name.to_string())));
                        fields.push(("adt", J::s(self.cx.path(adt.did()))));
                    }
                    J::Obj(fields)
                }
                ProjectionElem::Index(local) => J::Obj(vec![("idx", J::n(local.as_usize()))]),
                ProjectionElem::ConstantIndex { offset, from_end, .. } => J::Obj(vec![
                    ("cidx", J::n(offset as usize)),
                    ("end", J::Bool(from_end)),
                ]),
                ProjectionElem::Subslice { from, to, from_end } => J::Obj(vec![
                    ("sub", J::Arr(vec![J::n(from as usize), J::n(to as usize)])),
                    ("end", J::Bool(from_end)),
                ]),
                ProjectionElem::Downcast(name, index) => J::Obj(vec![
                    ("as", J::s(name.map(|n| n.to_string()).unwrap_or_default())),
                    ("vi", J::n(index.as_usize())),
                ]),
                _ => J::s("?"),
            });
            ty = ty.projection_ty(self.cx.tcx, element);
        }
        J::Arr(out)
    }

    fn constant(&self, c: &ConstOperand<'tcx>) -> J {
        let ty = c.const_.ty();
        if let ty::FnDef(def, args) = ty.kind() {
            let args = args.no_bound_vars().unwrap_or_else(|| args.skip_binder());
            let mut fields = self.cx.callee(self.env, *def, args);
            fields.insert(0, ("o", J::s("fn")));
            return J::Obj(fields);
        }
        let mut fields = vec![("o", J::s("c")), ("ty", self.cx.ty(ty))];
        if let Const::Unevaluated(u, _) = c.const_ {
            fields.push(("def", J::s(self.cx.path(u.def))));
            if let Some(promoted) = u.promoted {
                fields.push(("promoted", J::n(promoted.as_usize())));
            }
        }
        if let Const::Val(ConstValue::Scalar(Scalar::Ptr(pointer, _)), _) = c.const_ {
            if let GlobalAlloc::Static(def) = self.cx.tcx.global_alloc(pointer.provenance.alloc_id()) {
                fields.push(("static", J::s(self.cx.path(def))));
            }
        }
        if ty.is_integral() || ty.is_bool() || ty.is_char() {
            if let Some(bits) = c.const_.try_eval_bits(self.cx.tcx, self.env) {
                let size = match ty.kind() {
                    ty::Int(int) => int.bit_width().unwrap_or(64),
                    _ => 0,
                };
                let value = if size > 0 && size < 128 && bits >> (size - 1) & 1 == 1 {
                    bits as i128 - (1i128 << size)
                } else {
                    bits as i128
                };
                fields.push(("v", J::Int(value)));
            }
        } else if matches!(ty.kind(), ty::Ref(_, inner, _) if matches!(inner.kind(), ty::Array(element, _) if *element == self.cx.tcx.types.u8)) {
            if let Ok(ConstValue::Scalar(Scalar::Ptr(pointer, _))) = c.const_.eval(self.cx.tcx, self.env, c.span) {
                let (provenance, offset) = pointer.prov_and_relative_offset();
                if let GlobalAlloc::Memory(memory) = self.cx.tcx.global_alloc(provenance.alloc_id()) {
                    let memory = memory.inner();
                    let bytes = memory.inspect_with_uninit_and_ptr_outside_interpreter(offset.bytes_usize()..memory.len());
                    fields.push(("bytes", J::Arr(bytes.iter().map(|&byte| J::n(byte as usize)).collect())));
                }
            }
        } else if !matches!(ty.kind(), ty::Ref(_, inner, _) if inner.is_str()) {
        } else if let Ok(value) = c.const_.eval(self.cx.tcx, self.env, c.span) {
            if let Some(bytes) = value.try_get_slice_bytes_for_diagnostics(self.cx.tcx) {
                if let Ok(string) = std::str::from_utf8(bytes) {
                    fields.push(("str", J::s(string)));
                }
            }
        }
        fields.push(("d", J::s(format!("{}", c.const_).chars().take(200).collect::<String>())));
        J::Obj(fields)
    }

    fn operand(&self, operand: &Operand<'tcx>) -> J {
        match operand {
            Operand::Copy(place) => J::Obj(vec![("o", J::s("cp")), ("p", self.place(place))]),
            Operand::Move(place) => J::Obj(vec![("o", J::s("mv")), ("p", self.place(place))]),
            Operand::Constant(c) => self.constant(c),
            Operand::RuntimeChecks(_) => J::Obj(vec![("o", J::s("rc"))]),
        }
    }

    fn statement(&self, statement: &Statement<'tcx>) -> Option<J> {
        let line = self.cx.line(statement.source_info.span);
        Some(match &statement.kind {
            StatementKind::Assign(assign) => J::Obj(vec![
                ("ln", J::n(line)),
                ("d", self.place(&assign.0)),
                ("r", self.rvalue(&assign.1)),
            ]),
            StatementKind::SetDiscriminant { place, variant_index } => J::Obj(vec![
                ("ln", J::n(line)),
                ("setd", self.place(place)),
                ("vi", J::n(variant_index.as_usize())),
            ]),
            _ => return None,
        })
    }

    fn rvalue(&self, rvalue: &Rvalue<'tcx>) -> J {
        match rvalue {
            Rvalue::Use(operand, _) => J::Obj(vec![("k", J::s("use")), ("a", self.operand(operand))]),
            Rvalue::Repeat(operand, n) => J::Obj(vec![
                ("k", J::s("repeat")),
                ("a", self.operand(operand)),
                ("n", J::s(n.to_string())),
            ]),
            Rvalue::Ref(_, kind, place) => J::Obj(vec![
                ("k", J::s("ref")),
                ("mut", J::Bool(matches!(kind, BorrowKind::Mut { .. }))),
                ("p", self.place(place)),
            ]),
            Rvalue::Reborrow(_, _, place) => J::Obj(vec![
                ("k", J::s("ref")),
                ("mut", J::Bool(true)),
                ("p", self.place(place)),
            ]),
            Rvalue::RawPtr(_, place) => J::Obj(vec![("k", J::s("raw")), ("p", self.place(place))]),
            Rvalue::Cast(kind, operand, ty) => J::Obj(vec![
                ("k", J::s("cast")),
                ("c", J::s(format!("{kind:?}"))),
                ("a", self.operand(operand)),
                ("ty", self.cx.ty(*ty)),
            ]),
            Rvalue::BinaryOp(op, operands) => J::Obj(vec![
                ("k", J::s("bin")),
                ("op", J::s(format!("{op:?}"))),
                ("a", self.operand(&operands.0)),
                ("b", self.operand(&operands.1)),
            ]),
            Rvalue::UnaryOp(op, operand) => J::Obj(vec![
                ("k", J::s("un")),
                ("op", J::s(format!("{op:?}"))),
                ("a", self.operand(operand)),
            ]),
            Rvalue::Discriminant(place) => {
                J::Obj(vec![("k", J::s("discr")), ("p", self.place(place))])
            }
            Rvalue::CopyForDeref(place) => J::Obj(vec![
                ("k", J::s("use")),
                ("a", J::Obj(vec![("o", J::s("cp")), ("p", self.place(place))])),
            ]),
            Rvalue::Aggregate(kind, operands) => {
                let mut fields = vec![("k", J::s("agg"))];
                match &**kind {
                    AggregateKind::Array(_) => fields.push(("agg", J::s("array"))),
                    AggregateKind::Tuple => fields.push(("agg", J::s("tuple"))),
                    AggregateKind::Adt(def, variant, _, _, _) => {
                        let adt = self.cx.tcx.adt_def(*def);
                        fields.push(("agg", J::s("adt")));
                        fields.push(("adt", J::s(self.cx.path(*def))));
                        fields.push(("variant", J::s(adt.variant(*variant).name.to_string())));
                        fields.push((
                            "names",
                            J::Arr(
                                adt.variant(*variant)
                                    .fields
                                    .iter()
                                    .map(|field| J::s(field.name.to_string()))
                                    .collect(),
                            ),
                        ));
                    }
                    AggregateKind::Closure(def, _)
                    | AggregateKind::Coroutine(def, _)
                    | AggregateKind::CoroutineClosure(def, _) => {
                        self.cx.use_library(*def);
                        fields.push(("agg", J::s("closure")));
                        fields.push(("key", J::s(self.cx.key(*def))));
                    }
                    AggregateKind::RawPtr(..) => fields.push(("agg", J::s("rawptr"))),
                }
                fields.push((
                    "a",
                    J::Arr(operands.iter().map(|operand| self.operand(operand)).collect()),
                ));
                J::Obj(fields)
            }
            Rvalue::ThreadLocalRef(def) => {
                J::Obj(vec![("k", J::s("tls")), ("def", J::s(self.cx.path(*def)))])
            }
            _ => J::Obj(vec![("k", J::s("other"))]),
        }
    }

    fn unwind(&self, unwind: &UnwindAction) -> J {
        match unwind {
            UnwindAction::Cleanup(block) => J::n(block.as_usize()),
            UnwindAction::Terminate(_) => J::s("terminate"),
            UnwindAction::Continue => J::s("continue"),
            UnwindAction::Unreachable => J::s("unreachable"),
        }
    }

    fn terminator(&self, terminator: &Terminator<'tcx>) -> J {
        let mut f = vec![];
        let b = |block: &BasicBlock| J::n(block.as_usize());
        let kind = match &terminator.kind {
            TerminatorKind::Goto { target, .. } => {
                f.push(("to", b(target)));
                "goto"
            }
            TerminatorKind::SwitchInt { discr, targets } => {
                f.push(("a", self.operand(discr)));
                f.push((
                    "cases",
                    J::Arr(
                        targets
                            .iter()
                            .map(|(value, block)| J::Arr(vec![J::Int(value as i128), b(&block)]))
                            .collect(),
                    ),
                ));
                f.push(("else", b(&targets.otherwise())));
                "switch"
            }
            TerminatorKind::UnwindResume => "resume",
            TerminatorKind::UnwindTerminate(_) => "abort",
            TerminatorKind::Return => "return",
            TerminatorKind::Unreachable => "unreachable",
            TerminatorKind::Drop { place, target, unwind, .. } => {
                f.push(("p", self.place(place)));
                f.push(("pty", self.cx.ty(place.ty(self.body, self.cx.tcx).ty)));
                f.push(("to", b(target)));
                f.push(("unwind", self.unwind(unwind)));
                "drop"
            }
            TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                f.push(("f", self.operand(func)));
                f.push((
                    "a",
                    J::Arr(args.iter().map(|arg| self.operand(&arg.node)).collect()),
                ));
                f.push(("d", self.place(destination)));
                f.push((
                    "to",
                    match target {
                        Some(target) => b(target),
                        None => J::Null,
                    },
                ));
                f.push(("unwind", self.unwind(unwind)));
                "call"
            }
            TerminatorKind::TailCall { func, args, .. } => {
                f.push(("f", self.operand(func)));
                f.push((
                    "a",
                    J::Arr(args.iter().map(|arg| self.operand(&arg.node)).collect()),
                ));
                "tailcall"
            }
            TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                f.push(("a", self.operand(cond)));
                f.push(("exp", J::Bool(*expected)));
                let (name, operands): (&str, Vec<J>) = match &**msg {
                    AssertKind::BoundsCheck { len, index } => {
                        ("bounds", vec![self.operand(len), self.operand(index)])
                    }
                    AssertKind::Overflow(op, l, r) => {
                        f.push(("op", J::s(format!("{op:?}"))));
                        ("overflow", vec![self.operand(l), self.operand(r)])
                    }
                    AssertKind::OverflowNeg(l) => ("overflow_neg", vec![self.operand(l)]),
                    AssertKind::DivisionByZero(l) => ("div_zero", vec![self.operand(l)]),
                    AssertKind::RemainderByZero(l) => ("rem_zero", vec![self.operand(l)]),
                    AssertKind::MisalignedPointerDereference { .. } => ("misaligned", vec![]),
                    AssertKind::NullPointerDereference | AssertKind::NullReferenceConstructed => {
                        ("null", vec![])
                    }
                    AssertKind::InvalidEnumConstruction(_) => ("enum", vec![]),
                    _ => ("resumed", vec![]),
                };
                f.push(("msg", J::s(name)));
                f.push(("ops", J::Arr(operands)));
                f.push(("to", b(target)));
                f.push(("unwind", self.unwind(unwind)));
                "assert"
            }
            TerminatorKind::Yield { value, resume, resume_arg, .. } => {
                f.push(("a", self.operand(value)));
                f.push(("to", b(resume)));
                f.push(("d", self.place(resume_arg)));
                "yield"
            }
            TerminatorKind::FalseEdge { real_target, .. } => {
                f.push(("to", b(real_target)));
                "goto"
            }
            TerminatorKind::FalseUnwind { real_target, .. } => {
                f.push(("to", b(real_target)));
                "goto"
            }
            TerminatorKind::CoroutineDrop => "coroutine_drop",
            TerminatorKind::InlineAsm { .. } => "asm",
        };
        let mut out = vec![
            ("k", J::s(kind)),
            ("ln", J::n(self.cx.line(terminator.source_info.span))),
        ];
        out.append(&mut f);
        J::Obj(out)
    }
}
