//! Command line driver around `flapigen::Generator`, used by every check in /verif.
//!
//! One invocation = one job given by arguments, or many jobs with `vgen batch FILE`
//! (one job per line, arguments separated by TAB). Every job is run to its end; the outcome is
//! reported on stdout as `JOB <n> ok` or `JOB <n> panic <location> | <message>`.
use std::{
    cell::RefCell,
    path::PathBuf,
    rc::Rc,
    sync::Mutex,
};

use flapigen::{
    CppConfig, CppOptional, CppStrView, CppVariant, Generator, JavaConfig, JavaReachabilityFence,
    LanguageConfig, MethodVariant, PythonConfig,
};

static PANIC: Mutex<Option<String>> = Mutex::new(None);

fn run_job(args: &[String]) {
    let mut lang = String::new();
    let mut out = PathBuf::new();
    let mut ns = "vns".to_string();
    let mut dst = PathBuf::new();
    let mut srcs: Vec<PathBuf> = vec![];
    let mut typemaps: Vec<(String, String)> = vec![];
    let (mut opt, mut var, mut sv) = ("std".to_string(), "std".to_string(), "std".to_string());
    let mut boost = false;
    let mut sep = false;
    let mut fmt = false;
    let mut stale = false;
    let mut width: Option<usize> = Some(64);
    let mut null_ann: Option<String> = None;
    let mut null_imp: Option<String> = None;
    let mut opt_pkg: Option<String> = None;
    let mut fence = "std".to_string();
    let mut class_cb: Vec<String> = vec![];
    let mut enum_cb: Vec<String> = vec![];
    let mut method_cb: Vec<String> = vec![];
    let mut cb_log: Option<PathBuf> = None;
    let mut one = false;
    let mut it = args.iter();
    while let Some(a) = it.next() {
        let mut v = || it.next().unwrap_or_else(|| panic!("no value for {a}")).clone();
        match a.as_str() {
            "--lang" => lang = v(),
            "--out" => out = v().into(),
            "--ns" => ns = v(),
            "--dst" => dst = v().into(),
            "--src" => srcs.push(v().into()),
            "--typemap" => {
                let s = v();
                let (id, file) = s.split_once('=').expect("--typemap id=file");
                typemaps.push((id.into(), std::fs::read_to_string(file).expect("typemap file")));
            }
            "--opt" => opt = v(),
            "--variant" => var = v(),
            "--strview" => sv = v(),
            "--use-boost" => boost = true,
            "--separate-impl" => sep = true,
            "--rustfmt" => fmt = true,
            "--remove-stale" => stale = true,
            "--ptr-width" => width = Some(v().parse().unwrap()),
            "--ptr-width-from-env" => width = None,
            "--null-ann" => null_ann = Some(v()),
            "--null-ann-import" => null_imp = Some(v()),
            "--optional-pkg" => opt_pkg = Some(v()),
            "--fence" => fence = v(),
            "--class-cb" => class_cb.push(v()),
            "--enum-cb" => enum_cb.push(v()),
            "--method-cb" => method_cb.push(v()),
            "--cb-log" => cb_log = Some(v().into()),
            "--single" => one = true,
            x => panic!("vgen: unknown argument {x}"),
        }
    }
    let cfg = match lang.as_str() {
        "cpp" => {
            let mut c = CppConfig::new(out, ns)
                .cpp_optional(if opt == "boost" { CppOptional::Boost } else { CppOptional::Std17 })
                .cpp_variant(if var == "boost" { CppVariant::Boost } else { CppVariant::Std17 })
                .cpp_str_view(if sv == "boost" { CppStrView::Boost } else { CppStrView::Std17 });
            if boost {
                c = c.use_boost();
            }
            LanguageConfig::CppConfig(c.separate_impl_headers(sep))
        }
        "java" => {
            let mut c = JavaConfig::new(out, ns).use_reachability_fence(if fence == "std" {
                JavaReachabilityFence::Std
            } else {
                JavaReachabilityFence::GenerateFence(fence.parse().unwrap())
            });
            if let Some(x) = null_ann {
                c = c.use_null_annotation_from_package(x);
            }
            #[allow(deprecated)]
            if let Some(x) = null_imp {
                c = c.use_null_annotation(x);
            }
            if let Some(x) = opt_pkg {
                c = c.use_optional_package(x);
            }
            LanguageConfig::JavaConfig(c)
        }
        "python" => LanguageConfig::PythonConfig(PythonConfig::new(ns)),
        x => panic!("vgen: unknown language {x}"),
    };
    let log: Rc<RefCell<String>> = Rc::new(RefCell::new(String::new()));
    let mut g = Generator::new(cfg)
        .rustfmt_bindings(fmt)
        .remove_not_generated_files_from_output_directory(stale);
    if let Some(w) = width {
        g = g.with_pointer_target_width(w);
    }
    for (id, code) in &typemaps {
        g = g.merge_type_map(id, code);
    }
    // what a callback does to the text depends on its name
    let change = |name: &str, code: &mut Vec<u8>, mark: String, log: &mut String, what: String| {
        let before = fnv(code);
        let low = name.to_lowercase();
        if low.starts_with("pre") {
            code.splice(0..0, format!("// CB {mark}\n").into_bytes());
        } else if low.starts_with("half") {
            let n = code.len() / 2;
            code.truncate(n);
            code.extend_from_slice(format!("\n// CB {mark}\n").as_bytes());
        } else if low.starts_with("new") {
            *code = format!("// CB {mark} instead of {} bytes\n", code.len()).into_bytes();
        } else if !low.starts_with("nop") {
            code.extend_from_slice(format!("\n// CB {mark}\n").as_bytes());
        }
        log.push_str(&format!("{what} {before:016x} {:016x}\n", fnv(code)));
    };
    for name in &class_cb {
        let (log, n) = (log.clone(), name.clone());
        g = g.register_class_attribute_callback(name, move |code, class| {
            change(&n, code, format!("class {n} {class}"), &mut log.borrow_mut(), format!("class {n} {class}"));
        });
    }
    for name in &enum_cb {
        let (log, n) = (log.clone(), name.clone());
        g = g.register_enum_attribute_callback(name, move |code, e| {
            change(&n, code, format!("enum {n} {e}"), &mut log.borrow_mut(), format!("enum {n} {e}"));
        });
    }
    for name in &method_cb {
        let (log, n) = (log.clone(), name.clone());
        g = g.register_method_attribute_callback(name, move |code, mi| {
            let variant = match mi.variant {
                MethodVariant::Constructor => "ctor",
                MethodVariant::StaticMethod => "static",
                MethodVariant::Method(_) => "method",
            };
            change(&n, code, format!("method {n} {} {}", mi.class_name, mi.method_name), &mut log.borrow_mut(),
                format!("method {n} {} {} {variant}", mi.class_name, mi.method_name));
        });
    }
    if one || srcs.len() == 1 {
        g.expand("vcrate", &srcs[0], &dst);
    } else {
        g.expand_many("vcrate", &srcs, &dst);
    }
    if let Some(p) = cb_log {
        std::fs::write(p, log.borrow().as_bytes()).unwrap();
    }
}

fn fnv(b: &[u8]) -> u64 {
    b.iter().fold(0xcbf29ce484222325, |h, x| (h ^ u64::from(*x)).wrapping_mul(0x100000001b3))
}

/// Prints the tokens of a Rust file, one per line; a `+` after a punctuation mark says that the
/// next mark follows without a gap.
fn tokens(path: &str) {
    fn go(ts: proc_macro2::TokenStream, out: &mut String) {
        use proc_macro2::{Delimiter, Spacing, TokenTree};
        for t in ts {
            match t {
                TokenTree::Group(g) => {
                    let (a, b) = match g.delimiter() {
                        Delimiter::Parenthesis => ("(", ")"),
                        Delimiter::Brace => ("{", "}"),
                        Delimiter::Bracket => ("[", "]"),
                        Delimiter::None => ("", ""),
                    };
                    *out += &format!("{a}\n");
                    go(g.stream(), out);
                    *out += &format!("{b}\n");
                }
                TokenTree::Punct(p) => {
                    *out += &format!("{}{}\n", p.as_char(), if p.spacing() == Spacing::Joint { "+" } else { "" });
                }
                x => *out += &format!("{}\n", x.to_string().replace('\n', "\\n")),
            }
        }
    }
    let text = std::fs::read_to_string(path).expect("file");
    match text.parse::<proc_macro2::TokenStream>() {
        Ok(ts) => {
            let mut out = String::new();
            go(ts, &mut out);
            print!("{out}");
        }
        Err(e) => {
            println!("LEXERROR {e}");
            std::process::exit(1);
        }
    }
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    if args.len() > 1 && args[0] == "tokens" {
        for p in &args[1..] {
            println!("@@FILE {p}");
            tokens(p);
        }
        return;
    }
    std::panic::set_hook(Box::new(|info| {
        let msg = info
            .payload()
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| info.payload().downcast_ref::<&str>().map(|s| s.to_string()))
            .unwrap_or_default();
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        *PANIC.lock().unwrap_or_else(|e| e.into_inner()) = Some(format!("{loc} | {}", msg.replace('\n', "\\n")));
    }));
    let jobs: Vec<Vec<String>> = if args.first().map(|x| x == "batch").unwrap_or(false) {
        std::fs::read_to_string(&args[1])
            .expect("batch file")
            .lines()
            .map(|l| l.split('\t').map(|x| x.to_string()).collect())
            .collect()
    } else {
        vec![args]
    };
    let mut bad = false;
    for (n, job) in jobs.iter().enumerate() {
        // markers let the caller attribute what the generator prints to a job
        eprintln!("@@JOB {n}");
        let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run_job(job)));
        match res {
            Ok(()) => println!("JOB {n} ok"),
            Err(_) => {
                bad = true;
                let m = PANIC.lock().unwrap_or_else(|e| e.into_inner()).take().unwrap_or_default();
                println!("JOB {n} panic {m}");
            }
        }
    }
    eprintln!("@@END");
    std::process::exit(if bad { 101 } else { 0 });
}
