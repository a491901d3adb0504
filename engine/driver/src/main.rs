//! rustc driver that dumps, for the crates named in VP_CRATES, every monomorphic instance
//! reachable from the crate's own functions: its MIR with resolved callees, types, constants,
//! field names, drop glue, plus tables of ADTs, impls and function items.
#![feature(rustc_private)]
#![allow(clippy::all)]

extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_interface;
extern crate rustc_lint_defs;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod dump;
mod json;

use rustc_driver::{Callbacks, Compilation};
use rustc_interface::interface;
use rustc_middle::ty::TyCtxt;
use rustc_span::source_map::{FileLoader, RealFileLoader};
use std::io;
use std::path::{Path, PathBuf};
use std::sync::Arc;

/// `vertigo-macro` uses `proc_macro::Span::source_file()`, which the pinned compiler has and the
/// compiler this driver is built with does not.  The macro crate is only *run* here (never
/// analysed), so the loader adds the missing method to what the compiler reads; nothing on disk
/// changes.
struct Loader;

const COMPAT: &str = r#"
#[allow(dead_code, unused)]
mod __vp_compat {
    pub struct SourceFile(pub std::path::PathBuf);
    impl SourceFile { pub fn path(&self) -> std::path::PathBuf { self.0.clone() } }
    pub trait SourceFileCompat { fn source_file(&self) -> SourceFile; }
    impl SourceFileCompat for proc_macro::Span {
        fn source_file(&self) -> SourceFile {
            SourceFile(self.local_file().unwrap_or_default())
        }
    }
}
"#;

/// `vertigo` implements the unstable `Try` trait; the compiler this driver is built with wants one
/// more (empty) impl to go with it.
const COMPAT_RESIDUAL: &str = r#"
impl<T> std::ops::Residual<T> for ResourceError { type TryType = crate::Resource<T>; }
"#;

impl FileLoader for Loader {
    fn file_exists(&self, path: &Path) -> bool {
        RealFileLoader.file_exists(path)
    }
    fn read_file(&self, path: &Path) -> io::Result<String> {
        let mut s = RealFileLoader.read_file(path)?;
        let p = path.to_string_lossy().replace('\\', "/");
        if p.contains("vertigo-macro/src/") && p.ends_with(".rs") {
            s.push_str("\n#[allow(unused_imports)] use crate::__vp_compat::SourceFileCompat as _;\n");
            if p.ends_with("vertigo-macro/src/lib.rs") {
                s.push_str(COMPAT);
            }
        }
        if p.contains("crates/vertigo/src/") && s.contains("enum ResourceError") {
            s.push_str(COMPAT_RESIDUAL);
        }
        Ok(s)
    }
    fn read_binary_file(&self, path: &Path) -> io::Result<Arc<[u8]>> {
        RealFileLoader.read_binary_file(path)
    }
    fn current_directory(&self) -> io::Result<PathBuf> {
        RealFileLoader.current_directory()
    }
}

struct Cb {
    dump: Option<PathBuf>,
    compat: bool,
    wasm_cfg: bool,
    residual: bool,
}

impl Callbacks for Cb {
    fn config(&mut self, config: &mut interface::Config) {
        if self.compat {
            config.file_loader = Some(Box::new(Loader));
        }
        if self.residual {
            config.opts.unstable_opts.crate_attr.push("feature(try_trait_v2_residual)".to_string());
        }
        if self.dump.is_some() {
            config.opts.unstable_opts.mir_opt_level = Some(0);
            config.opts.incremental = None;
        }
        if self.wasm_cfg {
            config.crate_cfg.push("target_arch=\"wasm32\"".to_string());
            config.crate_cfg.push("target_os=\"unknown\"".to_string());
            config
                .opts
                .lint_opts
                .push(("explicit_builtin_cfgs_in_flags".to_string(), rustc_lint_defs::Level::Allow));
        }
    }
    fn after_expansion<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if let Some(out) = &self.dump {
            dump::dump(tcx, out);
        }
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the rustc to run
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].ends_with("rustc.exe")) {
        args.remove(1);
    }
    let mut crate_name = String::new();
    let mut is_test = false;
    let mut it = args.iter();
    while let Some(a) = it.next() {
        if a == "--crate-name" {
            crate_name = it.next().cloned().unwrap_or_default();
        }
        if a == "--test" {
            is_test = true;
        }
    }
    let wanted = std::env::var("VP_CRATES").unwrap_or_default();
    let outdir = std::env::var("VP_OUT").unwrap_or_default();
    let suffix = std::env::var("VP_SUFFIX").unwrap_or_default();
    let pkg = std::env::var("CARGO_PKG_NAME").unwrap_or_default();
    let crate_name = if pkg.replace('-', "_") == crate_name || pkg.is_empty() {
        crate_name
    } else {
        format!("{}__{}", pkg.replace('-', "_"), crate_name)
    };
    let dump = if !is_test && wanted.split(',').any(|c| c == crate_name) && !outdir.is_empty() {
        Some(PathBuf::from(outdir).join(format!("{crate_name}{suffix}.json")))
    } else {
        None
    };
    if dump.is_some() && std::env::var("VP_RELEASE").is_ok() {
        // the crate as a release build has it
        args.push("-Cdebug-assertions=off".to_string());
    }
    let wasm_cfg = std::env::var("VP_WASM_CFG").is_ok() && dump.is_some();
    let mut cb = Cb { dump, compat: crate_name == "vertigo_macro" || crate_name == "vertigo", wasm_cfg, residual: crate_name == "vertigo" };
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut cb))
}
