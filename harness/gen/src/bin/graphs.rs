//! Replays the generic sets the specification computed into the library.
//!
//! graphs K REALISATIONS EMIT SEED < lines
//! Lines: [pre, [mask, ...]] (all graphs of K nodes, see XdrGenericsDump.tla),
//! or {"opq": [..], "to": [[..], ..], "gen": [..]}.  Every graph is written as
//! specifications in REALISATIONS ways (names, order, struct/union/typedef,
//! forms of mention); Ast::generics() has to be the expected set.  One in EMIT
//! specifications is generated, too, and its items examined (0: none).
//! stdout: one JSON object: counts and disagreements.
use fastxdr::ast::Ast;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::io::BufRead;
use std::panic::{catch_unwind, AssertUnwindSafe};

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: usize) -> usize { (self.next() % n as u64) as usize }
    fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() { let j = self.below(i + 1); v.swap(i, j); }
    }
}

const LETTERS: [&str; 6] = ["a_t", "M_t", "z_t", "_q", "k9", "Bb"];
/// names one of which could be taken for another, or for a word of the language
const ALIKE: [[&str; 6]; 9] = [
    ["x", "x_v", "x_t", "X", "x_", "xx"],
    ["node", "node_v", "v_node", "Node", "node2", "nod"],
    ["ab", "a_b", "aB", "AB", "a__b", "ba"],
    ["opaque_", "opaque_v", "Opaque", "_opaque", "opaquely", "opaqu"],
    ["type_v", "types", "Type", "type_", "_type", "type_v_v"],
    ["s", "struct_s", "s_struct", "s_s", "S", "ss"],
    ["b1", "b10", "b100", "b01", "b1_", "B1"],
    ["void_", "string_", "string_v", "Bytes_", "case_", "union_"],
    ["long_name_that_goes_on_and_on_0123456789_a", "long_name_that_goes_on_and_on_0123456789_b", "long_name_that_goes_on_and_on_0123456789_",
     "long_name_that_goes_on_and_on_0123456789", "Long_name_that_goes_on_and_on_0123456789_a", "long_name_that_goes_on_and_on_0123456789_aa"],
];

/// The specification: text and the name of every node
fn realise(opq: &[bool], to: &[Vec<usize>], r: &mut Rng, stats: &mut BTreeMap<String, usize>) -> (String, Vec<String>) {
    let k = to.len();
    let mut names: Vec<String> = (0..k).map(|i| if k <= 6 { LETTERS[i].to_string() } else { format!("{}{}", ["n", "N", "_", "zz"][i % 4], i) }).collect();
    if k <= 6 && r.below(2) == 0 {
        let mut alike = ALIKE[r.below(ALIKE.len())];
        r.shuffle(&mut alike);
        names = alike[..k].iter().map(|n| n.to_string()).collect();
    } else if r.below(3) == 0 {
        // every other name is its neighbour's with something added
        for i in (1..k).step_by(2) { names[i] = format!("{}{}", names[i - 1], ["_v", "_", "v", "_t", "0", "x"][r.below(6)]) }
    }
    r.shuffle(&mut names);
    let mut decls: Vec<String> = Vec::new();
    // a third are nothing but the graph; of the others, some declare only what they use
    let company = r.below(3);
    for i in 0..k {
        let mut mentions: Vec<Option<usize>> = to[i].iter().map(|j| Some(*j)).collect();
        if opq[i] { mentions.push(None) }
        r.shuffle(&mut mentions);
        let n = &names[i];
        let name = |m: &Option<usize>| match m { Some(j) => names[*j].clone(), None => "opaque".to_string() };
        let mut count = |s: String| *stats.entry(s).or_insert(0) += 1;
        let kind = r.below(if mentions.len() <= 1 && mentions.first() != Some(&Some(i)) { 3 } else { 2 });
        let leaf = |r: &mut Rng| ["int", "unsigned hyper", "bool", "an_enum", "float", "plain_t", "double", "int", "unsigned", "hyper"][if company == 0 { 7 + r.below(3) } else { r.below(7) }];
        if kind == 2 {
            let (form, tag) = match mentions.first() {
                Some(None) => [("", "bare"), ("<>", "var"), ("<9>", "max"), ("[6]", "fix")][r.below(4)],
                _ => [("", "plain"), ("<>", "var"), ("<9>", "max"), ("[2]", "fix")][r.below(4)],
            };
            count(format!("typedef {} {}", match mentions.first() { Some(None) => "opaque", Some(_) => "name", None => "leaf" }, tag));
            decls.push(format!("typedef {} {}{};", mentions.first().map(name).unwrap_or_else(|| leaf(r).to_string()), n, form));
        } else if kind == 1 {
            let mut arms: Vec<(String, bool)> = Vec::new();
            for m in &mentions { arms.push((format!("{} f;", name(m)), m.is_none())) }
            for _ in 0..r.below(3) { arms.push((if r.below(2) == 0 { "void;".into() } else { format!("{} g;", leaf(r)) }, false)) }
            if arms.is_empty() { arms.push(("int g;".into(), false)) }
            r.shuffle(&mut arms);
            let dflt = r.below(3 * arms.len());
            let mut s = format!("union {} switch ({} d) {{", n, ["int", "unsigned int", "hyper", "unsigned hyper", "bool_t"][r.below(if company == 0 { 4 } else { 5 })]);
            let boolean = s.contains("bool_t");
            let mut lab = 0;
            for (j, (body, o)) in arms.iter().enumerate() {
                if j == dflt || boolean && lab >= 2 {
                    if s.contains("default:") { continue }
                    if r.below(2) == 0 && !boolean { s += &format!(" case {}:", 100 + j) }
                    s += " default:";
                    count(format!("union default {}", if *o { "opaque" } else if body.starts_with("void") { "void" } else { "name" }));
                } else {
                    for _ in 0..if boolean { 1 } else { 1 + r.below(2) } {
                        s += &if boolean { format!(" case {}:", ["TRUE", "FALSE"][lab.min(1)]) } else { format!(" case {}:", lab) };
                        lab += 1;
                    }
                    count(format!("union arm {}", if *o { "opaque" } else if body.starts_with("void") { "void" } else { "name" }));
                }
                s += " ";
                s += body;
            }
            // a boolean has room for two labels and a default: nothing may be lost
            let lost = mentions.iter().any(|m| !s.contains(&format!(" {} f;", name(m))));
            if lost {
                let b: String = mentions.iter().enumerate().map(|(j, m)| format!(" case {}: {} f;", j, name(m))).collect();
                s = format!("union {} switch (int d) {{{}", n, b);
            }
            decls.push(s + " };");
        } else {
            let mut fs: Vec<String> = Vec::new();
            for (j, m) in mentions.iter().enumerate() {
                let (form, tag) = match m {
                    None => [("opaque f?;", "bare"), ("opaque f?<>;", "var"), ("opaque f?<4>;", "max"), ("opaque f?[5];", "fix")][r.below(4)],
                    Some(_) => [("@ f?;", "plain"), ("@ f?<>;", "var"), ("@ f?[2];", "fix"), ("@ *f?;", "optional"), ("@ f?<SIZE>;", "max")][r.below(if company == 0 { 4 } else { 5 })],
                };
                count(format!("struct {} {}", if m.is_none() { "opaque" } else { "name" }, tag));
                fs.push(form.replace('@', &name(m)).replace('?', &j.to_string()));
            }
            for j in 0..r.below(3) {
                fs.push(match r.below(4) { 0 => format!("string s{};", j), 1 => format!("{} *g{};", leaf(r), j), 2 if company > 0 => format!("{} g{}<>;", "plain_t", j), _ => format!("{} g{};", leaf(r), j) });
            }
            if fs.is_empty() { fs.push("int g;".into()) }
            r.shuffle(&mut fs);
            decls.push(format!("struct {} {{ {} }};", n, fs.join(" ")));
        }
    }
    let graph = decls.join(" ");
    for (n, d) in [("SIZE", "const SIZE = 3;"), ("an_enum", "enum an_enum { E_A = 0, E_B = 7 };"),
                   ("plain_t", "struct plain_t { string opaque_; int x; };"), ("bool_t", "typedef bool bool_t;")] {
        if company == 1 || graph.contains(n) { decls.push(d.into()) }
    }
    r.shuffle(&mut decls);
    (decls.join("\n"), names)
}

fn has_args(t: &syn::Type) -> bool {
    match t {
        syn::Type::Path(p) => match &p.path.segments.last().unwrap().arguments {
            syn::PathArguments::AngleBracketed(a) => a.args.iter().any(|x| matches!(x, syn::GenericArgument::Type(_))),
            _ => false,
        },
        _ => false,
    }
}

fn last_name(t: &syn::Type) -> String {
    match t { syn::Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(), _ => String::new() }
}

/// names with a type parameter: of the types and of the three impls; and what is missing
fn emitted(code: &str, names: &[String]) -> Result<Vec<(String, String, bool)>, String> {
    let file = syn::parse_file(code).map_err(|e| e.to_string())?;
    let mut out = Vec::new();
    for item in &file.items {
        let syn::Item::Mod(m) = item else { continue };
        for i in m.content.iter().flat_map(|c| c.1.iter()) {
            match i {
                syn::Item::Struct(s) if names.contains(&s.ident.to_string()) => out.push((s.ident.to_string(), "type".to_string(), s.generics.type_params().count() == 1)),
                syn::Item::Enum(s) if names.contains(&s.ident.to_string()) => out.push((s.ident.to_string(), "type".to_string(), s.generics.type_params().count() == 1)),
                syn::Item::Impl(s) => {
                    let n = last_name(&s.self_ty);
                    if names.contains(&n) {
                        if let Some((_, t, _)) = &s.trait_ {
                            let seg = t.segments.last().unwrap();
                            let arg = match &seg.arguments {
                                syn::PathArguments::AngleBracketed(a) => match a.args.first() {
                                    Some(syn::GenericArgument::Type(syn::Type::Reference(_))) => " of a reference",
                                    _ => "",
                                },
                                _ => "",
                            };
                            out.push((n, format!("{}{}", seg.ident, arg), has_args(&s.self_ty)));
                        }
                    }
                }
                _ => {}
            }
        }
    }
    Ok(out)
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<usize> = std::env::args().skip(1).map(|x| x.parse().unwrap()).collect();
    let (k, reals, emit, seed) = (a[0], a[1], a[2], a[3]);
    let mut stats = BTreeMap::new();
    let (mut graphs, mut texts, mut generated, mut parameters) = (0usize, 0usize, 0usize, 0usize);
    let mut bad: Vec<Value> = Vec::new();
    let mut nbad = 0usize;
    let mut check = |opq: &[bool], to: &[Vec<usize>], want: &[bool], id: u64| {
        graphs += 1;
        for real in 0..reals {
            let mut r = Rng((seed as u64) << 40 ^ id.wrapping_mul(0x2545f4914f6cdd1d) ^ (real as u64) << 7);
            let (text, names) = realise(opq, to, &mut r, &mut stats);
            texts += 1;
            let want_names: BTreeSet<String> = (0..to.len()).filter(|i| want[*i]).map(|i| names[i].clone()).collect();
            let mut report = |what: &str, got: Value| {
                nbad += 1;
                if bad.len() < 40 {
                    bad.push(json!({"what": what, "text": text, "expected": want_names, "observed": got}));
                }
            };
            match catch_unwind(AssertUnwindSafe(|| Ast::new(&text).map(|x| {
                // both views of the index
                let set: BTreeSet<String> = x.generics().0.iter().cloned().collect();
                let by: BTreeSet<String> = names.iter().filter(|n| x.generics().contains(n)).cloned().collect();
                (set, by)
            }).map_err(|e| e.to_string()))) {
                Ok(Ok((set, by))) => {
                    if set != want_names { report("generics()", json!(set)) }
                    else if by != want_names { report("generics().contains()", json!(by)) }
                }
                Ok(Err(e)) => report("Ast::new", json!(e)),
                Err(_) => report("Ast::new panics", json!("")),
            }
            if emit > 0 && r.below(emit) == 0 {
                generated += 1;
                let g = catch_unwind(AssertUnwindSafe(|| fastxdr::Generator::default().generate(&text).map_err(|e| e.to_string())));
                match g {
                    Ok(Ok(code)) => match emitted(&code, &names) {
                        Ok(found) => {
                            for (n, what, param) in &found {
                                parameters += 1;
                                if *param != want_names.contains(n) { report(&format!("the parameter of {} of {}", what, n), json!(param)) }
                            }
                            for n in &names {
                                let mut have: Vec<&str> = found.iter().filter(|f| f.0 == *n).map(|f| f.1.as_str()).collect();
                                have.sort();
                                have.retain(|h| ["TryFrom", "TryFrom of a reference", "WireSize", "type"].contains(h));
                                if have != ["TryFrom", "TryFrom of a reference", "WireSize", "type"] { report(&format!("the items of {}", n), json!(have)) }
                            }
                        }
                        Err(e) => report("the generated code", json!(e)),
                    },
                    Ok(Err(e)) => report("generate", json!(e)),
                    Err(_) => report("generate panics", json!("")),
                }
            }
        }
    };
    for (no, line) in std::io::stdin().lock().lines().enumerate() {
        let v: Value = serde_json::from_str(&line.unwrap()).unwrap();
        if let Some(pre) = v[0].as_u64() {
            let m = 1u64 << k;
            let bits = |x: u64| (0..k).filter(|i| x >> i & 1 == 1).collect::<Vec<usize>>();
            let flags = |x: u64| (0..k).map(|i| x >> i & 1 == 1).collect::<Vec<bool>>();
            for (last, want) in v[1].as_array().unwrap().iter().enumerate() {
                let mut to: Vec<Vec<usize>> = Vec::new();
                let mut n = pre;
                let opq = flags(n % m);
                for _ in 0..k - 1 { n /= m; to.push(bits(n % m)); }
                to.push(bits(last as u64));
                check(&opq, &to, &flags(want.as_u64().unwrap()), pre * m + last as u64);
            }
        } else {
            let nums = |x: &Value| x.as_array().unwrap().iter().map(|y| y.as_u64().unwrap() as usize - 1).collect::<Vec<usize>>();
            let to: Vec<Vec<usize>> = v["to"].as_array().unwrap().iter().map(nums).collect();
            let flags = |x: &Value| { let s = nums(x); (0..to.len()).map(|i| s.contains(&i)).collect::<Vec<bool>>() };
            check(&flags(&v["opq"]), &to, &flags(&v["gen"]), no as u64);
        }
    }
    println!("{}", json!({"graphs": graphs, "texts": texts, "generated": generated, "parameters": parameters, "mentions": stats, "bad": bad, "nbad": nbad}));
}
