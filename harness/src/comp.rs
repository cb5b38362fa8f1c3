//! Runs the real compiler in process and records what it did.
use spade::{CompilationGoal, ModuleNamespace};
use spade_codespan_reporting::term::termcolor::Buffer;
use spade_common::name::Path as SpadePath;
use spade_diagnostics::diagnostic::DiagnosticLevel;
use spade_diagnostics::emitter::{CodespanEmitter, Emitter};
use spade_diagnostics::{CodeBundle, DiagHandler, Diagnostic};
use std::cell::RefCell;
use std::path::{Path, PathBuf};
use std::sync::{Arc, Mutex};

/// One source file: namespace path, base namespace, file name, text
#[derive(Clone, Debug)]
pub struct Src {
    pub ns: Vec<String>,
    pub base: Vec<String>,
    pub file: String,
    pub text: String,
}

impl Src {
    pub fn single(text: &str) -> Src {
        Src { ns: vec![], base: vec![], file: "main.spade".into(), text: text.into() }
    }
}

#[derive(Clone, Debug)]
pub struct Diag {
    pub error: bool,
    pub bug: bool,
    pub message: String,
    /// (file id, start, end, ok): ok = inside the file and on char boundaries
    pub spans: Vec<(usize, usize, usize, bool)>,
    /// names of the files of the spans
    pub files: Vec<String>,
}

pub struct Success {
    pub verilog: String,
    pub mir: String,
    pub wrapper: String,
    pub items: String,
    pub state: spade::compiler_state::CompilerState,
    pub state_bytes: Vec<u8>,
}

pub enum Outcome {
    Ok(Box<Success>),
    Rejected,
    Panic(String),
}

pub struct Run {
    pub outcome: Outcome,
    pub diags: Vec<Diag>,
    pub rendered: String,
    /// output files that were written by the run
    pub outputs: Vec<String>,
    /// requested output files that were not written
    pub missing: Vec<String>,
}

impl Run {
    pub fn ok(&self) -> Option<&Success> {
        match &self.outcome {
            Outcome::Ok(s) => Some(s),
            _ => None,
        }
    }
    pub fn first_error(&self) -> String {
        match &self.outcome {
            Outcome::Panic(p) => format!("panic: {p}"),
            _ => self.diags.iter().find(|d| d.error).map(|d| d.message.clone()).unwrap_or_else(|| "(no error)".into()),
        }
    }
    pub fn verdict(&self) -> &'static str {
        match &self.outcome {
            Outcome::Ok(_) => "accepted",
            Outcome::Rejected => "rejected",
            Outcome::Panic(_) => "panicked",
        }
    }
}

#[derive(Clone, Default, Debug)]
pub struct Opts {
    pub passes: Vec<String>,
    pub mir: bool,
    pub wrapper: bool,
    pub items: bool,
    pub state: bool,
    pub no_stdlib: bool,
    /// do not request the Verilog file
    pub no_verilog: bool,
    /// the output files exist before the run
    pub sentinel: bool,
}

struct Rec(Arc<Mutex<Vec<Diag>>>);

fn span_ok(code: &CodeBundle, file: usize, s: usize, e: usize) -> bool {
    let files = code.dump_files();
    match files.get(file) {
        Some((_, text)) => s <= e && e <= text.len() && text.is_char_boundary(s) && text.is_char_boundary(e),
        None => false,
    }
}

impl Emitter for Rec {
    fn emit_diagnostic(&mut self, diag: &Diagnostic, buffer: &mut Buffer, code: &CodeBundle) {
        let mut spans = vec![];
        let mut push = |l: &spade_common::location_info::FullSpan| {
            let (s, e) = (l.0.start().to_usize(), l.0.end().to_usize());
            spans.push((l.1, s, e, span_ok(code, l.1, s, e)));
        };
        push(&diag.labels.span);
        for (l, _) in &diag.labels.secondary_labels {
            push(l);
        }
        let names = code.dump_files();
        let files = spans.iter().map(|s| names.get(s.0).map(|f| f.0.to_string()).unwrap_or_default()).collect();
        self.0.lock().unwrap().push(Diag {
            files,
            error: matches!(diag.level, DiagnosticLevel::Error | DiagnosticLevel::Bug),
            bug: matches!(diag.level, DiagnosticLevel::Bug),
            message: diag.labels.message.as_str().to_string(),
            spans,
        });
        CodespanEmitter.emit_diagnostic(diag, buffer, code)
    }
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}
static ANY_PANIC: Mutex<Option<String>> = Mutex::new(None);

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".into());
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let m = format!("{msg} at {loc}");
        if std::env::var("MON_PANIC").is_ok() {
            eprintln!("PANIC {m}");
        }
        *ANY_PANIC.lock().unwrap() = Some(m.clone());
        LAST_PANIC.with(|p| *p.borrow_mut() = Some(m));
    }));
}

pub fn scratch() -> PathBuf {
    thread_local! { static D: RefCell<Option<PathBuf>> = const { RefCell::new(None) }; }
    D.with(|d| {
        let mut d = d.borrow_mut();
        if d.is_none() {
            let p = std::env::temp_dir().join(format!(
                "spade-monitor-{}-{:?}",
                std::process::id(),
                std::thread::current().id()
            ));
            std::fs::create_dir_all(&p).unwrap();
            *d = Some(p);
        }
        d.clone().unwrap()
    })
}
pub fn cleanup_scratch() {
    let _ = std::fs::remove_dir_all(scratch());
}

pub fn compile(srcs: &[Src], o: &Opts) -> Run {
    let dir = scratch();
    compile_in(srcs, o, &dir)
}

const OLD: &str = "as it was before\n";

pub fn compile_in(srcs: &[Src], o: &Opts, dir: &Path) -> Run {
    let f = |n: &str| dir.join(n);
    let names = ["out.v", "out.mir", "out.cpp", "out.items", "out.state"];
    for n in names {
        let _ = std::fs::remove_file(f(n));
        if o.sentinel {
            let _ = std::fs::write(f(n), OLD);
        }
    }
    let sources = srcs
        .iter()
        .map(|s| {
            (
                ModuleNamespace {
                    namespace: SpadePath::from_strs(&s.ns.iter().map(|x| x.as_str()).collect::<Vec<_>>()),
                    base_namespace: SpadePath::from_strs(&s.base.iter().map(|x| x.as_str()).collect::<Vec<_>>()),
                    file: s.file.clone(),
                    working_dir: Some(dir.to_path_buf()),
                },
                s.file.clone(),
                s.text.clone(),
            )
        })
        .collect::<Vec<_>>();
    let diags = Arc::new(Mutex::new(vec![]));
    let rec = Rec(diags.clone());
    let oo = o.clone();
    let d2 = dir.to_path_buf();
    *ANY_PANIC.lock().unwrap() = None;
    let buf = Arc::new(Mutex::new(String::new()));
    let buf2 = buf.clone();
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
        let mut buffer = Buffer::no_color();
        let opts = spade::Opt {
            error_buffer: &mut buffer,
            outfile: (!oo.no_verilog).then(|| d2.join("out.v")),
            mir_output: oo.mir.then(|| d2.join("out.mir")),
            verilator_wrapper_output: oo.wrapper.then(|| d2.join("out.cpp")),
            state_dump_file: oo.state.then(|| d2.join("out.state")),
            item_list_file: oo.items.then(|| d2.join("out.items")),
            print_parse_traceback: None,
            opt_passes: oo.passes.clone(),
        };
        let r = spade::compile(sources, CompilationGoal::Codegen, !oo.no_stdlib, opts, DiagHandler::new(Box::new(rec)));
        *buf2.lock().unwrap() = String::from_utf8_lossy(buffer.as_slice()).to_string();
        match r {
            Ok(a) => Ok(a.state),
            Err(_) => Err(()),
        }
    }));
    let written = |n: &&&str| match std::fs::read(f(n)) {
        Ok(t) => !o.sentinel || t != OLD.as_bytes(),
        Err(_) => o.sentinel,
    };
    let outputs: Vec<String> = names.iter().filter(written).map(|s| s.to_string()).collect();
    let asked = [!o.no_verilog, o.mir, o.wrapper, o.items, o.state];
    let missing =
        names.iter().zip(asked).filter(|(n, a)| *a && !outputs.iter().any(|o| o == *n)).map(|(n, _)| n.to_string()).collect();
    let rd = |n: &str| std::fs::read_to_string(f(n)).unwrap_or_default();
    let outcome = match r {
        Err(_) => {
            let m = LAST_PANIC.with(|p| p.borrow_mut().take()).or_else(|| ANY_PANIC.lock().unwrap().take());
            Outcome::Panic(m.unwrap_or_default())
        }
        Ok(Err(())) => Outcome::Rejected,
        Ok(Ok(state)) => Outcome::Ok(Box::new(Success {
            verilog: rd("out.v"),
            mir: rd("out.mir"),
            wrapper: rd("out.cpp"),
            items: rd("out.items"),
            state_bytes: if o.state { std::fs::read(f("out.state")).unwrap_or_default() } else { vec![] },
            state,
        })),
    };
    let diags = match diags.lock() {
        Ok(d) => d.clone(),
        Err(p) => p.into_inner().clone(),
    };
    let rendered = match buf.lock() {
        Ok(b) => b.clone(),
        Err(p) => p.into_inner().clone(),
    };
    Run { outcome, diags, rendered, outputs, missing }
}

/// Compile one file of text
pub fn compile_str(text: &str) -> Run {
    compile(&[Src::single(text)], &Opts::default())
}
