//! Runs the library on specification texts and records what it does.
//!
//! stdin: one JSON job per line
//!   {"id", "text", "derive"?, "out"?: path for the code, "ast": bool, "items": bool}
//! stdout: one JSON record per line, flushed, so that a job that takes the
//! process down is known to be the first one without a record.
use fastxdr::ast::indexes::*;
use fastxdr::ast::*;
use serde_json::{json, Value};
use std::io::{BufRead, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Mutex;

static WHERE: Mutex<String> = Mutex::new(String::new());

fn word(n: u32) -> Value {
    json!(n.to_be_bytes().to_vec())
}

fn ty(t: &BasicType) -> Value {
    let k = match t {
        BasicType::U32 => "u32",
        BasicType::U64 => "u64",
        BasicType::I32 => "i32",
        BasicType::I64 => "i64",
        BasicType::F32 => "f32",
        BasicType::F64 => "f64",
        BasicType::String => "string",
        BasicType::Bool => "bool",
        BasicType::Opaque => "opaque",
        BasicType::Ident(s) => return json!({"k": "ref", "r": s}),
    };
    json!({"k": k, "r": ""})
}

fn size(s: &ArraySize) -> Value {
    match s {
        ArraySize::Known(n) => json!({"k": "lit", "w": word(*n), "r": ""}),
        ArraySize::Constant(c) => json!({"k": "const", "w": [], "r": c}),
    }
}

fn array(a: &ArrayType<BasicType>) -> (Value, &'static str, Value) {
    match a {
        ArrayType::None(t) => (ty(t), "none", json!({"k": "none", "w": [], "r": ""})),
        ArrayType::FixedSize(t, s) => (ty(t), "fix", size(s)),
        ArrayType::VariableSize(t, Some(s)) => (ty(t), "var", size(s)),
        ArrayType::VariableSize(t, None) => (ty(t), "var", json!({"k": "none", "w": [], "r": ""})),
    }
}

fn case(c: &UnionCase) -> Value {
    let (t, a, b) = array(&c.field_value);
    json!({"l": c.case_values, "n": c.field_name, "t": t, "a": a, "b": b})
}

fn node(key: &str, t: &AstType) -> Value {
    match t {
        AstType::Struct(s) => json!({"key": key, "k": "struct", "n": s.name, "f": s.fields.iter().map(|f| {
            let (t, a, b) = array(&f.field_value);
            json!({"n": f.field_name, "t": t, "a": a, "b": b, "o": f.is_optional})
        }).collect::<Vec<_>>()}),
        AstType::Union(u) => json!({"key": key, "k": "union", "n": u.name, "sn": u.switch.var_name,
            "st": ty(&u.switch.var_type), "cases": u.cases.iter().map(case).collect::<Vec<_>>(),
            "dflt": u.default.iter().map(case).collect::<Vec<_>>(), "voids": u.void_cases}),
        AstType::Enum(e) => json!({"key": key, "k": "enum", "n": e.name, "m": e.variants.iter().map(|v| match &v.value {
            VariantValue::Numeric(n) => json!({"n": v.name, "w": word(*n as u32), "s": ""}),
            VariantValue::String(s) => json!({"n": v.name, "w": [], "s": s}),
        }).collect::<Vec<_>>()}),
        AstType::Typedef(d) => {
            let (alias, a, b) = array(&d.alias);
            json!({"key": key, "k": "typedef", "n": d.alias.unwrap_array().as_str(), "alias": alias, "t": ty(&d.target), "a": a, "b": b})
        }
    }
}

fn dump(ast: &Ast) -> Value {
    let types: Vec<Value> = ast.types().0.iter().map(|(k, v)| node(k, v)).collect();
    // every type by name, through the public accessor
    let byname: Vec<Value> = ast.types().0.keys().map(|k| json!([k, ast.types().get(k).map(|v| node(k, v)), ast.types().typedef_target(k).is_some()])).collect();
    let consts: Vec<Value> = ast.constants().0.iter().map(|(k, v)| match v {
        ConstantType::ConstValue(s) => json!([k, "const", s, "", ast.constants().get(k).is_some()]),
        ConstantType::EnumValue { enum_name, variant } => json!([k, "enum", enum_name, variant, ast.constants().get(k).is_some()]),
    }).collect();
    let mut gens: Vec<&String> = ast.generics().0.iter().collect();
    gens.sort();
    let contains: Vec<Value> = ast.types().0.keys().map(|k| json!([k, ast.generics().contains(k)])).collect();
    json!({"types": types, "byname": byname, "consts": consts, "gens": gens, "contains": contains})
}

fn items(code: &str) -> Value {
    use quote::ToTokens;
    let file = match syn::parse_file(code) {
        Ok(f) => f,
        Err(e) => return json!({"error": e.to_string()}),
    };
    let mut out = Vec::new();
    let mut fns = Vec::new();
    for item in &file.items {
        if let syn::Item::Mod(m) = item {
            for i in m.content.iter().flat_map(|c| c.1.iter()) {
                let (kind, name) = match i {
                    syn::Item::Struct(s) => ("struct", s.ident.to_string()),
                    syn::Item::Enum(s) => ("enum", s.ident.to_string()),
                    syn::Item::Const(s) => ("const", s.ident.to_string()),
                    syn::Item::Type(s) => ("type", s.ident.to_string()),
                    syn::Item::Impl(s) => ("impl", format!("{} for {}",
                        s.trait_.as_ref().map(|t| t.1.to_token_stream().to_string()).unwrap_or_default(),
                        s.self_ty.to_token_stream())),
                    other => { fns.push(other.to_token_stream().to_string()); continue }
                };
                // shapes: field / variant names, generics, attributes
                let shape = match i {
                    syn::Item::Struct(s) => json!({
                        "vis": s.vis.to_token_stream().to_string(),
                        "gen": s.generics.type_params().count(),
                        "attrs": s.attrs.iter().map(|a| a.to_token_stream().to_string()).collect::<Vec<_>>(),
                        "tuple": matches!(s.fields, syn::Fields::Unnamed(_)),
                        "names": s.fields.iter().map(|f| f.ident.as_ref().map(|i| i.to_string()).unwrap_or_default()).collect::<Vec<_>>(),
                        "types": s.fields.iter().map(|f| f.ty.to_token_stream().to_string()).collect::<Vec<_>>(),
                        "pubs": s.fields.iter().all(|f| matches!(f.vis, syn::Visibility::Public(_)))}),
                    syn::Item::Enum(s) => json!({
                        "vis": s.vis.to_token_stream().to_string(),
                        "gen": s.generics.type_params().count(),
                        "attrs": s.attrs.iter().map(|a| a.to_token_stream().to_string()).collect::<Vec<_>>(),
                        "names": s.variants.iter().map(|v| v.ident.to_string()).collect::<Vec<_>>(),
                        "types": s.variants.iter().map(|v| v.fields.iter().map(|f| f.ty.to_token_stream().to_string()).collect::<Vec<_>>()).collect::<Vec<_>>(),
                        "discs": s.variants.iter().map(|v| v.discriminant.as_ref().map(|d| d.1.to_token_stream().to_string())).collect::<Vec<_>>()}),
                    syn::Item::Const(s) => json!({"value": s.expr.to_token_stream().to_string(), "ty": s.ty.to_token_stream().to_string()}),
                    syn::Item::Impl(s) => json!({"gen": s.generics.type_params().count(), "self": s.self_ty.to_token_stream().to_string()}),
                    _ => json!({}),
                };
                out.push(json!([kind, name, i.to_token_stream().to_string(), shape]));
            }
        } else {
            return json!({"error": "an item outside of the module"});
        }
    }
    let mods: Vec<String> = file.items.iter().map(|i| match i { syn::Item::Mod(m) => format!("{} {}", m.vis.to_token_stream(), m.ident), _ => String::new() }).collect();
    json!({"items": out, "rest": fns, "mods": mods})
}

fn caught<T>(f: impl FnOnce() -> T) -> Result<T, Value> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| json!(["panic", WHERE.lock().unwrap().clone()]))
}

fn digest(s: &str) -> String {
    use std::hash::{Hash, Hasher};
    let mut h = std::collections::hash_map::DefaultHasher::new();      // fixed keys
    s.hash(&mut h);
    format!("{:016x}{:x}", h.finish(), s.len())
}

/// The definitions in the generated module, as [kind, name, digest], sorted
fn item_digests(code: &str) -> Value {
    let v = items(code);
    let mut out: Vec<Vec<String>> = Vec::new();
    for i in v["items"].as_array().into_iter().flatten() {
        let s = |k: usize| i[k].as_str().unwrap_or("").to_string();
        out.push(vec![s(0), s(1), digest(&s(2))]);
    }
    for i in v["rest"].as_array().into_iter().flatten() {
        out.push(vec!["other".into(), "".into(), digest(i.as_str().unwrap_or(""))]);
    }
    out.push(vec!["module".into(), v["mods"].to_string(), v["error"].to_string()]);
    out.sort();
    json!(out)
}

fn outcome(g: &fastxdr::Generator, text: &str) -> (Value, Option<String>) {
    match caught(|| g.generate(text).map_err(|e| e.to_string())) {
        Ok(Ok(code)) => (json!(["ok"]), Some(code)),
        Ok(Err(e)) => (json!(["err", e]), None),
        Err(p) => (p, None),
    }
}

/// One Generator shared by threads that call it at the same time
fn threaded(n: usize) {
    let jobs: Vec<Value> = std::io::stdin().lock().lines().map(|l| serde_json::from_str(&l.unwrap()).unwrap()).collect();
    let g = fastxdr::Generator::default();
    std::thread::scope(|s| {
        for k in 0..n {
            let (g, jobs) = (&g, &jobs);
            s.spawn(move || {
                for i in 0..jobs.len() {
                    let job = &jobs[(i + k * jobs.len() / n) % jobs.len()];
                    let (st, code) = outcome(g, job["text"].as_str().unwrap());
                    let rec = json!({"id": job["id"], "thread": k, "gen": st, "digest": code.map(|c| digest(&c))});
                    writeln!(std::io::stdout().lock(), "{}", rec).unwrap();
                }
            });
        }
    });
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        *WHERE.lock().unwrap_or_else(|e| e.into_inner()) = format!("{}", i);
    }));
    if let Some(n) = std::env::args().nth(1) {
        return threaded(n.parse().unwrap());
    }
    let stdin = std::io::stdin();
    let mut out = std::io::stdout();
    let mut kept: std::collections::HashMap<String, fastxdr::Generator> = Default::default();
    for line in stdin.lock().lines() {
        let job: Value = serde_json::from_str(&line.unwrap()).unwrap();
        let text = job["text"].as_str().unwrap();
        let make = || match job["derive"].as_str() {
            Some(d) => fastxdr::Generator::default().with_derive(d),
            None => fastxdr::Generator::default(),
        };
        // a Generator of its own, or the one called so
        let own;
        let g = match job["g"].as_str() {
            Some(k) => &*kept.entry(k.to_string()).or_insert_with(make),
            None => { own = make(); &own }
        };
        let mut rec = json!({"id": job["id"]});
        // keep the record writable if this dies
        let (st, code) = outcome(g, text);
        rec["gen"] = st;
        if let Some(code) = code {
            if let Some(p) = job["out"].as_str() {
                std::fs::write(p, &code).unwrap();
            }
            if job["items"].as_bool() == Some(true) {
                rec["items"] = items(&code);
            }
            if job["iset"].as_bool() == Some(true) {
                rec["iset"] = item_digests(&code);
            }
            if job["digest"].as_bool() == Some(true) {
                rec["digest"] = json!(digest(&code));
            }
            if job["code"].as_bool() == Some(true) {
                rec["code"] = json!(code);
            }
        }
        if job["ast"].as_bool() == Some(true) {
            match caught(|| Ast::new(text).map(|a| dump(&a)).map_err(|e| e.to_string())) {
                Ok(Ok(d)) => {
                    rec["ast"] = json!(["ok"]);
                    rec["dump"] = d;
                }
                Ok(Err(e)) => rec["ast"] = json!(["err", e]),
                Err(p) => rec["ast"] = p,
            }
        }
        writeln!(out, "{}", rec).unwrap();
        out.flush().unwrap();
    }
}
