//! Fact extractor: a rustc driver which writes, for every workspace crate cargo checks, the typed
//! program (THIR trees and MIR graphs with resolved callees, item signatures and data types) as JSON.
#![feature(rustc_private)]

extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_structures;

mod items;
mod json;
mod mir;
mod thir;

use json::J;
use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def_id::DefId;
use rustc_interface::interface;
use rustc_middle::ty::{
    self,
    print::{with_no_trimmed_paths, with_no_visible_paths, with_resolve_crate_name},
    GenericArgsRef, Ty, TyCtxt, TypingEnv,
};
use rustc_span::Span;
use std::{cell::RefCell, collections::HashMap};

pub struct Cx<'tcx> {
    pub tcx: TyCtxt<'tcx>,
    types: RefCell<(HashMap<String, usize>, Vec<String>)>,
    /// Functions of the standard library whose bodies are written out too, in the order they are met.
    library: RefCell<Vec<DefId>>,
}

const LIBRARY: &[&str] = &[
    "core::option::Option",
    "core::result::Result",
    "core::bool::",
    "core::mem::take",
    "core::mem::replace",
    "core::mem::swap",
    "core::cmp::Ordering",
    "core::ops::control_flow::ControlFlow",
];

impl<'tcx> Cx<'tcx> {
    pub fn path(&self, def: DefId) -> String {
        with_resolve_crate_name!(with_no_visible_paths!(with_no_trimmed_paths!(self
            .tcx
            .def_path_str(def))))
    }

    /// A key unique to a definition of this crate, stable for one run.
    pub fn key(&self, def: DefId) -> String {
        self.tcx.def_path(def).to_string_no_crate_verbose()
    }

    pub fn ty_string(&self, ty: Ty<'tcx>) -> String {
        with_resolve_crate_name!(with_no_visible_paths!(with_no_trimmed_paths!(ty.to_string())))
    }

    pub fn ty(&self, ty: Ty<'tcx>) -> J {
        let string = self.ty_string(ty);
        let (map, list) = &mut *self.types.borrow_mut();
        if let Some(&index) = map.get(&string) {
            return J::n(index);
        }
        let index = list.len();
        map.insert(string.clone(), index);
        list.push(string);
        J::n(index)
    }

    pub fn use_library(&self, def: DefId) {
        if def.is_local() || !self.tcx.is_mir_available(def) {
            return;
        }
        let path = self.path(def);
        let path = path.strip_prefix('<').unwrap_or(&path);
        if LIBRARY.iter().any(|prefix| path.starts_with(prefix)) {
            let mut library = self.library.borrow_mut();
            if !library.contains(&def) {
                library.push(def);
            }
        }
    }

    fn generics(&self, def: DefId) -> J {
        let mut names = vec![];
        let mut generics = Some(self.tcx.generics_of(self.tcx.typeck_root_def_id(def)));
        while let Some(g) = generics {
            let own = g
                .own_params
                .iter()
                .filter(|p| matches!(p.kind, ty::GenericParamDefKind::Type { .. }))
                .map(|p| J::s(p.name.to_string()))
                .collect::<Vec<_>>();
            names.splice(0..0, own);
            generics = g.parent.map(|parent| self.tcx.generics_of(parent));
        }
        J::Arr(names)
    }

    pub fn line(&self, span: Span) -> usize {
        let span = span.source_callsite();
        if span.is_dummy() {
            return 0;
        }
        self.tcx.sess.source_map().lookup_char_pos(span.lo()).line
    }

    pub fn file(&self, span: Span) -> String {
        let span = span.source_callsite();
        if span.is_dummy() {
            return String::new();
        }
        self.tcx
            .sess
            .source_map()
            .lookup_char_pos(span.lo())
            .file
            .name
            .prefer_local_unconditionally()
            .to_string()
    }

    pub fn callee(
        &self,
        env: TypingEnv<'tcx>,
        def: DefId,
        args: GenericArgsRef<'tcx>,
    ) -> Vec<(&'static str, J)> {
        let mut fields = vec![("def", J::s(self.path(def)))];
        if def.is_local() {
            fields.push(("key", J::s(self.key(def))));
        }
        let types = args
            .iter()
            .filter_map(|arg| arg.as_type())
            .map(|ty| self.ty(ty))
            .collect::<Vec<_>>();
        if !types.is_empty() {
            fields.push(("targs", J::Arr(types)));
        }
        use rustc_hir::def::DefKind;
        match self.tcx.def_kind(def) {
            DefKind::Ctor(..) => {
                let variant = match self.tcx.def_kind(self.tcx.parent(def)) {
                    DefKind::Variant => self.tcx.parent(def),
                    _ => def,
                };
                fields.push(("ctor", J::s(self.path(self.tcx.parent(def)))));
                let _ = variant;
            }
            DefKind::Fn | DefKind::AssocFn => {
                if let Some(trait_) = self.tcx.trait_of_assoc(def) {
                    fields.push(("trait", J::s(self.path(trait_))));
                }
                let args = self.tcx.erase_and_anonymize_regions(args);
                if let Ok(Some(instance)) = ty::Instance::try_resolve(self.tcx, env, def, args) {
                    let resolved = instance.def_id();
                    self.use_library(resolved);
                    if resolved != def {
                        fields.push(("res", J::s(self.path(resolved))));
                        if resolved.is_local() {
                            fields.push(("reskey", J::s(self.key(resolved))));
                        }
                        fields.push((
                            "rtargs",
                            J::Arr(
                                instance
                                    .args
                                    .iter()
                                    .filter_map(|arg| arg.as_type())
                                    .map(|ty| self.ty(ty))
                                    .collect(),
                            ),
                        ));
                    }
                    if matches!(instance.def, ty::InstanceKind::Virtual(..)) {
                        fields.push(("virtual", J::Bool(true)));
                    }
                }
            }
            _ => {}
        }
        fields
    }
}

struct Driver {
    out: String,
}

impl Callbacks for Driver {
    fn config(&mut self, config: &mut interface::Config) {
        config.opts.unstable_opts.no_steal_thir = true;
        config.opts.unstable_opts.mir_opt_level = Some(0);
    }

    fn after_expansion<'tcx>(
        &mut self,
        _compiler: &interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        let cx = Cx {
            tcx,
            types: Default::default(),
            library: Default::default(),
        };
        let items = items::dump(&cx);
        let mut bodies = vec![];

        for def in tcx.hir_body_owners() {
            let Ok((thir, root)) = tcx.thir_body(def) else {
                continue;
            };
            let thir = thir.borrow();
            let span = tcx.def_span(def);
            let mut fields = vec![
                ("key", J::s(cx.key(def.to_def_id()))),
                ("path", J::s(cx.path(def.to_def_id()))),
                ("kind", J::s(format!("{:?}", tcx.def_kind(def)))),
                ("file", J::s(cx.file(span))),
                ("line", J::n(cx.line(span))),
                ("expn", J::Bool(span.from_expansion())),
                ("parent", J::s(cx.key(tcx.parent(def.to_def_id())))),
            ];
            fields.push(("generics", cx.generics(def.to_def_id())));
            if let Some(impl_) = tcx.impl_of_assoc(def.to_def_id()) {
                fields.push((
                    "self_ty",
                    J::s(cx.ty_string(tcx.type_of(impl_).instantiate_identity().skip_norm_wip())),
                ));
                if let Some(trait_) = tcx.impl_opt_trait_ref(impl_) {
                    let trait_ = trait_.instantiate_identity().skip_norm_wip();
                    fields.push(("trait", J::s(cx.path(trait_.def_id))));
                    fields.push((
                        "trait_args",
                        J::Arr(
                            trait_
                                .args
                                .iter()
                                .filter_map(|arg| arg.as_type())
                                .map(|ty| J::s(cx.ty_string(ty)))
                                .collect(),
                        ),
                    ));
                }
            }
            fields.push(("thir", thir::dump(&cx, def, &thir, root)));
            drop(thir);

            use rustc_hir::def::DefKind;
            if matches!(
                tcx.def_kind(def),
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure
            ) {
                if tcx.is_coroutine(def.to_def_id()) {
                    let (body, promoted) = tcx.mir_promoted(def);
                    fields.push(("coroutine", J::Bool(true)));
                    fields.push(("mir", mir::dump(&cx, def.to_def_id(), &body.borrow())));
                    fields.push((
                        "promoted",
                        J::Arr(promoted.borrow().iter().map(|body| mir::dump(&cx, def.to_def_id(), body)).collect()),
                    ));
                } else {
                    fields.push(("mir", mir::dump(&cx, def.to_def_id(), tcx.optimized_mir(def.to_def_id()))));
                    let promoted = tcx.promoted_mir(def.to_def_id());
                    if !promoted.is_empty() {
                        fields.push((
                            "promoted",
                            J::Arr(promoted.iter().map(|body| mir::dump(&cx, def.to_def_id(), body)).collect()),
                        ));
                    }
                }
            } else {
                fields.push(("mir", mir::dump(&cx, def.to_def_id(), tcx.mir_for_ctfe(def.to_def_id()))));
                let promoted = tcx.promoted_mir(def.to_def_id());
                if !promoted.is_empty() {
                    fields.push((
                        "promoted",
                        J::Arr(promoted.iter().map(|body| mir::dump(&cx, def.to_def_id(), body)).collect()),
                    ));
                }
            }

            bodies.push(J::Obj(fields));
        }

        let mut library = vec![];
        loop {
            let Some(&def) = cx.library.borrow().get(library.len()) else {
                break;
            };
            let promoted = tcx.promoted_mir(def);
            let mut fields = vec![
                ("key", J::s(cx.key(def))),
                ("path", J::s(cx.path(def))),
                ("kind", J::s(format!("{:?}", tcx.def_kind(def)))),
                ("generics", cx.generics(def)),
                ("mir", mir::dump(&cx, def, tcx.optimized_mir(def))),
            ];
            if !promoted.is_empty() {
                fields.push((
                    "promoted",
                    J::Arr(promoted.iter().map(|body| mir::dump(&cx, def, body)).collect()),
                ));
            }
            library.push(J::Obj(fields));
        }

        let crate_name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        let types = cx.types.into_inner().1.into_iter().map(J::s).collect();
        let mut string = String::new();
        J::Obj(vec![
            ("crate", J::s(&crate_name)),
            ("items", items),
            ("bodies", J::Arr(bodies)),
            ("library", J::Arr(library)),
            ("types", J::Arr(types)),
        ])
        .write(&mut string);

        let kind = if tcx.crate_types().contains(&rustc_structures::CrateType::Executable) {
            "bin"
        } else {
            "lib"
        };
        std::fs::create_dir_all(&self.out).unwrap();
        let path = format!("{}/{}.{}.json", self.out, crate_name, kind);
        // A procedural macro is compiled twice at the same time.
        let temporary = format!("{path}.{}.tmp", std::process::id());
        std::fs::write(&temporary, string).unwrap();
        std::fs::rename(temporary, path).unwrap();

        Compilation::Continue
    }
}

fn main() {
    let mut args = std::env::args().collect::<Vec<_>>();
    // RUSTC_WORKSPACE_WRAPPER passes the real rustc as the first argument.
    if args.get(1).is_some_and(|arg| arg.ends_with("rustc")) {
        args.remove(1);
    }
    let query = args.iter().any(|arg| arg == "-vV" || arg == "--version" || arg.starts_with("--print"));
    let build_script = args
        .windows(2)
        .any(|pair| pair[0] == "--crate-name" && pair[1].starts_with("build_script_"));
    std::process::exit(run(&args, query || build_script));
}

fn run(args: &[String], plain: bool) -> i32 {
    let code = rustc_driver::catch_with_exit_code(|| match std::env::var("PEN_FACTS_OUT") {
        Ok(out) if !plain => rustc_driver::compiler_entrypoint(args, &mut Driver { out }),
        _ => {
            struct Plain;
            impl Callbacks for Plain {}
            rustc_driver::compiler_entrypoint(args, &mut Plain)
        }
    });
    if code == std::process::ExitCode::SUCCESS { 0 } else { 1 }
}
