//! forge: reads one JSON job per stdin line, runs the real protospec front end / compiler on it,
//! writes one JSON result per line.  A panic in the code under test is data ("panic").
use indexmap::IndexMap;
use proc_macro2::TokenStream;
use protospec_build::*;
use quote::quote;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};

mod ffi;
use ffi::*;

fn guarded<T, F: FnOnce() -> T + Send + 'static>(f: F) -> std::result::Result<T, String>
where
    T: Send + 'static,
{
    // deep recursion in the code under test must not take the harness down: big stack
    let h = std::thread::Builder::new()
        .stack_size(256 << 20)
        .spawn(move || catch_unwind(AssertUnwindSafe(f)))
        .unwrap();
    match h.join() {
        Ok(Ok(x)) => Ok(x),
        Ok(Err(e)) | Err(e) => Err(if let Some(s) = e.downcast_ref::<String>() {
            s.clone()
        } else if let Some(s) = e.downcast_ref::<&str>() {
            s.to_string()
        } else {
            "?".to_string()
        }),
    }
}

fn strs(v: &Value) -> Vec<String> {
    v.as_array()
        .map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect())
        .unwrap_or_default()
}

fn err_name(e: &AsgError) -> String {
    let d = format!("{:?}", e);
    d.chars()
        .take_while(|c| c.is_alphanumeric() || *c == '_')
        .collect()
}

fn job(j: &Value) -> Value {
    let text = j["text"].as_str().unwrap_or("").to_string();
    match j["op"].as_str().unwrap() {
        "lex" => {
            let strip = j["strip"].as_bool().unwrap_or(true);
            match guarded(move || {
                tokenize(&text, strip).map(|ts| {
                    ts.into_iter()
                        .map(|t| {
                            let mut o = match &t.token {
                                Token::Ident(x) => json!({"t":"id","x":x}),
                                Token::Int(x) => json!({"t":"int","x":x}),
                                Token::String(b) => json!({"t":"str","b":b}),
                                x => json!({"t":"p","x":x.to_string().trim()}),
                            };
                            o["at"] = json!([t.span.line_start, t.span.col_start, t.span.line_stop, t.span.col_stop]);
                            o
                        })
                        .collect::<Vec<_>>()
                })
                .map_err(|e| e.to_string())
            }) {
                Ok(Ok(x)) => json!({"r":"ok","tokens":x}),
                Ok(Err(e)) => json!({"r":"err","m":e}),
                Err(p) => json!({"r":"panic","m":p}),
            }
        }
        "parse" => match guarded(move || {
            parse(&text)
                .map(|x| serde_json::to_value(&x.declarations).unwrap())
                .map_err(|e| {
                    let at = |s: &Span| json!([s.line_start, s.col_start]);
                    let (k, p) = match &e {
                        ParseError::UnexpectedEOF => ("eof", Value::Null),
                        ParseError::Unexpected(t, _) => ("tok", at(&t.span)),
                        ParseError::EmptyLengthConstraint(s) => ("tok", at(s)),
                        ParseError::UnknownContainerDirective(_, s) => ("tok", at(s)),
                        ParseError::EnumMissingRep(_) | ParseError::BitfieldMissingRep(_) => ("rep", Value::Null),
                        _ => ("lex", Value::Null),
                    };
                    json!({"k":k,"at":p,"m":e.to_string()})
                })
        }) {
            Ok(Ok(x)) => json!({"r":"ok","ast":x}),
            Ok(Err(e)) => json!({"r":"err","e":e}),
            Err(p) => json!({"r":"panic","m":p}),
        },
        op @ "check" | op @ "compile" => {
            let compile = op == "compile";
            let j = j.clone();
            match guarded(move || {
                let mut imports = IndexMap::new();
                if let Some(o) = j["imports"].as_object() {
                    for (k, v) in o {
                        imports.insert(k.clone(), v.as_str().unwrap().to_string());
                    }
                }
                let ast = match parse(&text) {
                    Ok(x) => x,
                    Err(e) => return json!({"r":"err","stage":"parse","m":e.to_string()}),
                };
                let resolver = PreludeImportResolver(HarnessResolver(imports));
                let prog = match asg::Program::from_ast(&ast, &resolver) {
                    Ok(x) => x,
                    Err(e) => {
                        return json!({"r":"err","stage":"sem","kind":err_name(&e),"m":e.to_string()})
                    }
                };
                let mut out = json!({"r":"ok",
                    "types": prog.types.keys().cloned().collect::<Vec<_>>(),
                    "consts": prog.consts.keys().cloned().collect::<Vec<_>>(),
                    "cyclic": prog.types.iter().filter(|(_,f)| f.is_maybe_cyclical.get()).map(|(n,_)| n.clone()).collect::<Vec<_>>(),
                });
                if compile {
                    let o = &j["options"];
                    let mut opts = CompileOptions::default();
                    opts.include_async = o["async"].as_bool().unwrap_or(false);
                    opts.use_anyhow = o["anyhow"].as_bool().unwrap_or(false);
                    opts.debug_mode = o["debug"].as_bool().unwrap_or(false);
                    if o["enum_derives"].is_array() {
                        opts.enum_derives = strs(&o["enum_derives"]);
                    }
                    if o["struct_derives"].is_array() {
                        opts.struct_derives = strs(&o["struct_derives"]);
                    }
                    out["rust"] = Value::String(compile_program(&prog, &opts).to_string());
                }
                out
            }) {
                Ok(x) => x,
                Err(p) => json!({"r":"panic","m":p}),
            }
        }
        "spec" => {
            // the build-script entry point: compile_spec(name, text) writing OUT_DIR/name.rs
            let name = j["name"].as_str().unwrap().to_string();
            let j = j.clone();
            match guarded(move || {
                let mut o = Options::default();
                o.format_output = j["format"].as_bool().unwrap_or(false);
                o.include_async = j["async"].as_bool().unwrap_or(false);
                compile_spec(&name, &text, &o).map_err(|e| e.to_string())
            }) {
                Ok(Ok(())) => json!({"r":"ok"}),
                Ok(Err(e)) => json!({"r":"err","m":e}),
                Err(p) => json!({"r":"panic","m":p}),
            }
        }
        x => panic!("bad op {}", x),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let stdout = std::io::stdout();
    let mut out = std::io::BufWriter::new(stdout.lock());
    let flush_each = std::env::args().any(|a| a == "--flush");
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        if line.is_empty() {
            continue;
        }
        let j: Value = serde_json::from_str(&line).unwrap();
        let mut r = job(&j);
        r["id"] = j["id"].clone();
        writeln!(out, "{}", r).unwrap();
        if flush_each {
            out.flush().unwrap();
        }
    }
    out.flush().unwrap();
}

#[allow(dead_code)]
fn _unused(_: TokenStream) -> TokenStream {
    quote! {}
}

pub struct HarnessResolver(pub IndexMap<String, String>);

impl ImportResolver for HarnessResolver {
    fn normalize_import(&self, import: &str) -> Result<String> {
        Ok(import.trim_start_matches("./").to_string())
    }
    fn resolve_import(&self, import: &str) -> Result<Option<String>> {
        Ok(self.0.get(import).cloned())
    }
    fn resolve_ffi_transform(&self, name: &str) -> Result<Option<ForeignTransformObj>> {
        Ok(match name {
            "xadd" => Some(Box::new(XAdd)),
            "xxor" => Some(Box::new(XXor)),
            "frame" => Some(Box::new(Frame)),
            _ => None,
        })
    }
    fn resolve_ffi_type(&self, name: &str) -> Result<Option<ForeignTypeObj>> {
        Ok(match name {
            "blob" => Some(Box::new(Blob)),
            "odd8" => Some(Box::new(Odd8)),
            _ => None,
        })
    }
    fn resolve_ffi_function(&self, name: &str) -> Result<Option<ForeignFunctionObj>> {
        Ok(match name {
            "fmix" => Some(Box::new(FMix)),
            "is_even" => Some(Box::new(IsEven)),
            _ => None,
        })
    }
    fn prelude_ffi_functions(&self) -> Result<HashMap<String, ForeignFunctionObj>> {
        Ok(HashMap::new())
    }
}
