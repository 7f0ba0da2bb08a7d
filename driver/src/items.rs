use crate::{json::J, Cx};
use rustc_hir::{def::DefKind, def_id::DefId};
use rustc_middle::ty;

pub fn dump(cx: &Cx<'_>) -> J {
    let tcx = cx.tcx;
    let mut fns = vec![];
    let mut adts = vec![];
    let mut impls = vec![];
    let mut consts = vec![];

    for id in tcx.hir_crate_items(()).definitions() {
        let def = id.to_def_id();
        match tcx.def_kind(def) {
            DefKind::Fn | DefKind::AssocFn => fns.push(function(cx, def)),
            DefKind::Struct | DefKind::Enum | DefKind::Union => adts.push(adt(cx, def)),
            DefKind::Impl { .. } => {
                let mut fields = vec![
                    ("key", J::s(cx.key(def))),
                    (
                        "self_ty",
                        J::s(cx.ty_string(tcx.type_of(def).instantiate_identity().skip_norm_wip())),
                    ),
                    ("line", J::n(cx.line(tcx.def_span(def)))),
                ];
                if let Some(trait_) = tcx.impl_opt_trait_ref(def) {
                    let trait_ = trait_.instantiate_identity().skip_norm_wip();
                    fields.push(("trait", J::s(cx.path(trait_.def_id))));
                    fields.push((
                        "trait_args",
                        J::Arr(
                            trait_
                                .args
                                .iter()
                                .filter_map(|arg| arg.as_type())
                                .map(|ty| J::s(cx.ty_string(ty)))
                                .collect(),
                        ),
                    ));
                }
                impls.push(J::Obj(fields));
            }
            DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => consts.push(J::Obj(vec![
                ("path", J::s(cx.path(def))),
                ("key", J::s(cx.key(def))),
                ("kind", J::s(format!("{:?}", tcx.def_kind(def)))),
                (
                    "ty",
                    J::s(cx.ty_string(tcx.type_of(def).instantiate_identity().skip_norm_wip())),
                ),
                ("line", J::n(cx.line(tcx.def_span(def)))),
            ])),
            _ => {}
        }
    }

    J::Obj(vec![
        ("fns", J::Arr(fns)),
        ("adts", J::Arr(adts)),
        ("impls", J::Arr(impls)),
        ("consts", J::Arr(consts)),
    ])
}

fn function(cx: &Cx<'_>, def: DefId) -> J {
    let tcx = cx.tcx;
    let sig = tcx.fn_sig(def).instantiate_identity().skip_norm_wip().skip_binder();
    let attrs = tcx.codegen_fn_attrs(def);
    let mut fields = vec![
        ("path", J::s(cx.path(def))),
        ("key", J::s(cx.key(def))),
        ("abi", J::s(sig.abi().to_string())),
        (
            "inputs",
            J::Arr(sig.inputs().iter().map(|&ty| J::s(cx.ty_string(ty))).collect()),
        ),
        ("output", J::s(cx.ty_string(sig.output()))),
        ("file", J::s(cx.file(tcx.def_span(def)))),
        ("line", J::n(cx.line(tcx.def_span(def)))),
        ("foreign", J::Bool(tcx.is_foreign_item(def))),
        (
            "vis",
            J::s(if tcx.visibility(def).is_public() { "pub" } else { "private" }),
        ),
        (
            "no_mangle",
            J::Bool(attrs.flags.contains(
                rustc_middle::middle::codegen_fn_attrs::CodegenFnAttrFlags::NO_MANGLE,
            )),
        ),
    ];
    if let Some(name) = attrs.symbol_name {
        fields.push(("symbol", J::s(name.to_string())));
    }
    if tcx.asyncness(def).is_async() {
        fields.push(("async", J::Bool(true)));
    }
    let names = tcx
        .fn_arg_idents(def)
        .iter()
        .map(|ident| match ident {
            Some(ident) => J::s(ident.to_string()),
            None => J::Null,
        })
        .collect();
    fields.push(("args", J::Arr(names)));
    J::Obj(fields)
}

fn adt(cx: &Cx<'_>, def: DefId) -> J {
    let tcx = cx.tcx;
    let adt = tcx.adt_def(def);
    let variants = adt
        .variants()
        .iter()
        .map(|variant| {
            J::Obj(vec![
                ("name", J::s(variant.name.to_string())),
                ("path", J::s(cx.path(variant.def_id))),
                (
                    "fields",
                    J::Arr(
                        variant
                            .fields
                            .iter()
                            .map(|field| {
                                J::Obj(vec![
                                    ("name", J::s(field.name.to_string())),
                                    (
                                        "ty",
                                        J::s(cx.ty_string(
                                            tcx.type_of(field.did).instantiate_identity().skip_norm_wip(),
                                        )),
                                    ),
                                    ("pub", J::Bool(tcx.visibility(field.did).is_public())),
                                ])
                            })
                            .collect(),
                    ),
                ),
            ])
        })
        .collect();
    let repr = adt.repr();
    let mut fields = vec![
        ("path", J::s(cx.path(def))),
        (
            "kind",
            J::s(if adt.is_struct() {
                "struct"
            } else if adt.is_enum() {
                "enum"
            } else {
                "union"
            }),
        ),
        ("file", J::s(cx.file(tcx.def_span(def)))),
        ("line", J::n(cx.line(tcx.def_span(def)))),
        ("repr_c", J::Bool(repr.c())),
        ("transparent", J::Bool(repr.transparent())),
        ("repr_int", J::Bool(repr.int.is_some())),
        ("variants", J::Arr(variants)),
    ];
    if tcx.generics_of(def).is_empty() {
        let ty = tcx.type_of(def).instantiate_identity().skip_norm_wip();
        if let Ok(layout) = tcx.layout_of(ty::TypingEnv::fully_monomorphized().as_query_input(ty)) {
            fields.push(("size", J::n(layout.size.bytes() as usize)));
            fields.push(("align", J::n(layout.align.abi.bytes() as usize)));
            if adt.is_struct() {
                fields.push((
                    "offsets",
                    J::Arr(
                        (0..layout.fields.count())
                            .map(|i| J::n(layout.fields.offset(i).bytes() as usize))
                            .collect(),
                    ),
                ));
            }
        }
    }
    J::Obj(fields)
}
