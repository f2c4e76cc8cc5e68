"""Rust code that observes the values of a generated module.

The code is written from the *specification's* view of the API (field and
variant names, which types are generic, array forms: Shapes in XdrDecls.tla),
never from the generated text, and it names and types every field, variant and
array.  It therefore compiles only against the documented API.
"""
import re

PRIM = {"u32": "u32", "i32": "i32", "u64": "u64", "i64": "i64", "f32": "f32", "f64": "f64", "bool": "bool"}

HEAD = r'''
#![allow(dead_code, unused_variables, unused_imports, unused_mut, non_camel_case_types, non_snake_case, unreachable_code, unreachable_patterns)]
use fastxdr::bytes::Bytes;
use std::alloc::{GlobalAlloc, Layout, System};
use std::fmt::Write as _;
use std::io::Write as _;
use std::sync::atomic::{AtomicUsize, Ordering::Relaxed};

struct Counting;
static REQUESTED: AtomicUsize = AtomicUsize::new(0);
fn count(n: usize) {
    REQUESTED.fetch_add(n, Relaxed);
    if n > 1 << 30 {
        let _ = std::io::stderr().write_all(b"HUGE-ALLOCATION\n");
        std::process::abort();
    }
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { count(l.size()); System.alloc(l) }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 { count(l.size()); System.alloc_zeroed(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { System.dealloc(p, l) }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 { count(n); System.realloc(p, l, n) }
}
#[global_allocator]
static A: Counting = Counting;

/// The tokens of a value, as a JSON array
pub struct Toks { s: String, base: usize, len: usize }
impl Toks {
    fn new(base: &[u8]) -> Self { Toks { s: String::new(), base: base.as_ptr() as usize, len: base.len() } }
    fn bytes(&mut self, b: &[u8]) { for x in b { write!(self.s, ",{}", x).unwrap(); } }
    fn num(&mut self, k: &str, b: &[u8]) { write!(self.s, ",[\"{}\"", k).unwrap(); self.bytes(b); self.s.push(']'); }
    fn u32(&mut self, v: &u32) { self.num("u32", &v.to_be_bytes()) }
    fn i32(&mut self, v: &i32) { self.num("i32", &v.to_be_bytes()) }
    fn u64(&mut self, v: &u64) { self.num("u64", &v.to_be_bytes()) }
    fn i64(&mut self, v: &i64) { self.num("i64", &v.to_be_bytes()) }
    fn f32(&mut self, v: &f32) { self.num("f32", &v.to_bits().to_be_bytes()) }
    fn f64(&mut self, v: &f64) { self.num("f64", &v.to_bits().to_be_bytes()) }
    fn bool(&mut self, v: &bool) { self.num("bool", &[*v as u8]) }
    fn string(&mut self, v: &String) { self.num("str", v.as_bytes()) }
    fn opaque(&mut self, v: &Bytes) {
        let b: &[u8] = v.as_ref();
        let p = b.as_ptr() as usize;
        let inside = p >= self.base && p + b.len() <= self.base + self.len;
        let off = if b.is_empty() { 0 } else if inside { (p - self.base) as i64 } else { -1 };
        write!(self.s, ",[\"opaque\",{}", off).unwrap();
        self.bytes(b);
        self.s.push(']');
    }
    fn n(&mut self, k: &str, n: usize) { write!(self.s, ",[\"{}\",{}]", k, n).unwrap() }
    fn t(&mut self, k: &str) { write!(self.s, ",[\"{}\"]", k).unwrap() }
    fn s1(&mut self, k: &str, a: &str) { write!(self.s, ",[\"{}\",\"{}\"]", k, a).unwrap() }
    fn s2(&mut self, k: &str, a: &str, b: &str) { write!(self.s, ",[\"{}\",\"{}\",\"{}\"]", k, a, b).unwrap() }
    fn json(&self) -> String { format!("[{}]", if self.s.is_empty() { "" } else { &self.s[1..] }) }
}

pub trait ErrTok { fn tok(&self) -> String; fn code(&self) -> (u8, u32); }
pub const CODES: [&str; 8] = ["ok", "InvalidLength", "NonUtf8String", "InvalidBoolean", "UnknownVariant", "UnknownOptionVariant", "Unknown", "panic"];
fn payload(name: &str, b: [u8; 4]) -> String { format!("[\"err\",\"{}\",{},{},{},{}]", name, b[0], b[1], b[2], b[3]) }

macro_rules! err_tok { ($e:path) => {
    impl ErrTok for $e {
        fn tok(&self) -> String {
            use $e as E;
            match self {
                E::InvalidLength => "[\"err\",\"InvalidLength\"]".into(),
                E::NonUtf8String(_) => "[\"err\",\"NonUtf8String\"]".into(),
                E::InvalidBoolean => "[\"err\",\"InvalidBoolean\"]".into(),
                E::UnknownVariant(v) => payload("UnknownVariant", (*v as i32).to_be_bytes()),
                E::UnknownOptionVariant(v) => payload("UnknownOptionVariant", (*v as u32).to_be_bytes()),
                _ => "[\"err\",\"Unknown\"]".into(),
            }
        }
        fn code(&self) -> (u8, u32) {
            use $e as E;
            match self {
                E::InvalidLength => (1, 0),
                E::NonUtf8String(_) => (2, 0),
                E::InvalidBoolean => (3, 0),
                E::UnknownVariant(v) => (4, *v as i32 as u32),
                E::UnknownOptionVariant(v) => (5, *v as u32),
                _ => (6, 0),
            }
        }
    }
} }

static PANIC: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());

fn caught<T>(f: impl FnOnce() -> T) -> Option<T> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok()
}

/// One decode by value: (outcome, tokens, wire_size, bytes requested)
fn by_value<T, E: ErrTok>(view: &Bytes, walk: fn(&T, &mut Toks), size: fn(&T) -> usize) -> (String, String, i64, usize)
where T: std::convert::TryFrom<Bytes, Error = E>,
{
    let b = view.clone();
    let mut asked = 0;
    let r = caught(|| {
        let a0 = REQUESTED.load(Relaxed);
        let r = T::try_from(b);
        asked = REQUESTED.load(Relaxed) - a0;
        match r {
            Ok(v) => {
                let mut t = Toks::new(view);
                walk(&v, &mut t);
                let w = size(&v);
                ("[\"ok\"]".to_string(), t.json(), w.min(0x7fffffff) as i64)
            }
            Err(e) => (e.tok(), "[]".to_string(), -1),
        }
    });
    let (o, t, w) = r.unwrap_or_else(|| ("[\"panic\"]".to_string(), "[]".to_string(), -1));
    (o, t, w, asked)
}

/// One decode from a caller's buffer: (outcome, tokens, bytes left, the rest is untouched, bytes requested)
fn by_ref<T, E: ErrTok>(view: &Bytes, walk: fn(&T, &mut Toks)) -> (String, String, usize, bool, usize)
where T: for<'a> std::convert::TryFrom<&'a mut Bytes, Error = E>,
{
    let mut b = view.clone();
    let mut asked = 0;
    let r = caught(|| {
        let a0 = REQUESTED.load(Relaxed);
        let r = T::try_from(&mut b);
        asked = REQUESTED.load(Relaxed) - a0;
        match r {
            Ok(v) => {
                let mut t = Toks::new(view);
                walk(&v, &mut t);
                ("[\"ok\"]".to_string(), t.json())
            }
            Err(e) => (e.tok(), "[]".to_string()),
        }
    });
    let (o, t) = r.unwrap_or_else(|| ("[\"panic\"]".to_string(), "[]".to_string()));
    let left = b.len();
    let same = left <= view.len()
        && b[..] == view[view.len() - left..]
        && (left == 0 || b.as_ptr() == view[view.len() - left..].as_ptr());
    (o, t, left, same, asked)
}

pub fn case<T, E: ErrTok>(inp: &[u8], walk: fn(&T, &mut Toks), size: fn(&T) -> usize, lim: usize) -> String
where
    T: std::convert::TryFrom<Bytes, Error = E> + for<'a> std::convert::TryFrom<&'a mut Bytes, Error = E>,
{
    let whole = Bytes::from(inp.to_vec());
    let keep = whole.clone();
    let (o1, t1, ws, al1) = by_value::<T, E>(&whole, walk, size);
    let (o2, t2, left, leftok, al2) = by_ref::<T, E>(&whole, walk);
    let eq = o1 == o2 && t1 == t2;
    let mut vs = true;
    // the same bytes as a view into larger allocations
    let h = inp.iter().fold(inp.len(), |h, b| h.wrapping_mul(31).wrapping_add(*b as usize));
    for (before, after) in [(1usize, 3usize), (4, 8), (6, 0), (0, 5), (h % 67, h % 13 * (h % 5))] {
        if !vs || inp.len() > 4096 && before != 1 { continue }
        let mut big = vec![0xffu8; before];
        big.extend_from_slice(inp);
        big.extend(std::iter::repeat(0u8).take(after));
        let big = Bytes::from(big);
        let view = big.slice(before..before + inp.len());
        let (p, q, w, _) = by_value::<T, E>(&view, walk, size);
        let (r, s, l, k, _) = by_ref::<T, E>(&view, walk);
        vs = p == o1 && q == t1 && w == ws && r == o2 && s == t2 && l == left && (k || !leftok);
    }
    let al = al1.max(al2).min(0x7fffffff);
    format!("\"o1\":{},\"toks\":{},\"ws\":{},\"o2\":{},\"left\":{},\"eq\":{},\"leftok\":{},\"vs\":{},\"al\":{},\"lim\":{}",
        o1, t1, ws, o2, left, eq, leftok, vs, al, lim.min(0x7ffffffe))
}

/// The calls that decode pre ++ w ++ post, for all words w from lo to hi, as a
/// list of runs: maximal intervals on which everything observed is the same,
/// except that an error may carry the word w itself ("rel").
pub fn sweep<T, E: ErrTok>(pre: &[u8], post: &[u8], lo: u32, hi: u32, walk: fn(&T, &mut Toks), size: fn(&T) -> usize, lim: usize) -> String
where
    T: std::convert::TryFrom<Bytes, Error = E> + for<'a> std::convert::TryFrom<&'a mut Bytes, Error = E>,
{
    #[derive(PartialEq, Clone, Copy)]
    struct Seen { k1: u8, rel1: bool, p1: u32, ws: i64, k2: u8, rel2: bool, p2: u32, left: usize, leftok: bool, eq: bool }
    let len = pre.len() + 4 + post.len();
    let mut runs: Vec<String> = Vec::new();
    let mut cur: Option<(u32, Seen, String)> = None;
    let mut al = 0usize;
    let put = |from: u32, to: u32, s: &Seen, t: &str, al: usize| -> String {
        let o = |k: u8, p: u32, rel: bool| match k {
            0 => "[\"ok\"]".to_string(),
            7 => "[\"panic\"]".to_string(),
            4 | 5 if !rel => payload(CODES[k as usize], p.to_be_bytes()),
            k => format!("[\"err\",\"{}\"]", CODES[k as usize]),
        };
        format!("{{\"lo\":{:?},\"hi\":{:?},\"o1\":{},\"rel1\":{},\"toks\":{},\"ws\":{},\"o2\":{},\"rel2\":{},\"left\":{},\"leftok\":{},\"eq\":{},\"vs\":true,\"al\":{},\"lim\":{}}}",
            from.to_be_bytes(), to.to_be_bytes(), o(s.k1, s.p1, s.rel1), s.rel1, t, s.ws, o(s.k2, s.p2, s.rel2), s.rel2,
            s.left, s.leftok, s.eq, al.min(0x7fffffff), lim.min(0x7ffffffe))
    };
    const BLOCK: u64 = 4096;
    let (mut t1, mut t2) = (Toks::new(&[]), Toks::new(&[]));
    let mut at = lo as u64;
    let mut last = lo;
    while at <= hi as u64 && runs.len() < 3000 {
        let n = BLOCK.min(hi as u64 - at + 1);
        let mut big = Vec::with_capacity(len * n as usize);
        for w in at..at + n {
            big.extend_from_slice(pre);
            big.extend_from_slice(&(w as u32).to_be_bytes());
            big.extend_from_slice(post);
        }
        let big = Bytes::from(big);
        for i in 0..n as usize {
            let w = at as u32 + i as u32;
            let view = big.slice(i * len..(i + 1) * len);
            t1.s.clear();
            t2.s.clear();
            t1.base = view.as_ptr() as usize;
            t1.len = len;
            t2.base = t1.base;
            t2.len = len;
            let a0 = REQUESTED.load(Relaxed);
            let mut a1 = a0;
            let (k1, p1, ws) = caught(|| {
                let r = T::try_from(view.clone());
                a1 = REQUESTED.load(Relaxed);
                match r {
                    Ok(v) => { walk(&v, &mut t1); (0u8, 0u32, size(&v).min(0x7fffffff) as i64) }
                    Err(e) => { let (k, p) = e.code(); (k, p, -1) }
                }
            }).unwrap_or((7, 0, -1));
            let asked1 = a1 - a0;
            let mut b = view.clone();
            let a0 = REQUESTED.load(Relaxed);
            let mut a1 = a0;
            let (k2, p2) = caught(|| {
                let r = T::try_from(&mut b);
                a1 = REQUESTED.load(Relaxed);
                match r {
                    Ok(v) => { walk(&v, &mut t2); (0u8, 0u32) }
                    Err(e) => e.code(),
                }
            }).unwrap_or((7, 0));
            let asked = asked1.max(a1 - a0);
            let left = b.len();
            let leftok = left <= len && (left == 0 || b.as_ptr() == view[len - left..].as_ptr());
            let rel1 = (k1 == 4 || k1 == 5) && p1 == w;
            let rel2 = (k2 == 4 || k2 == 5) && p2 == w;
            let s = Seen {
                k1, rel1, p1: if rel1 { 0 } else { p1 }, ws,
                k2, rel2, p2: if rel2 { 0 } else { p2 }, left, leftok,
                eq: k1 == k2 && p1 == p2 && t1.s == t2.s,
            };
            let same = match &cur { Some((_, c, t)) => *c == s && t[1..t.len() - 1] == t1.s[t1.s.len().min(1)..], None => false };
            if !same {
                if let Some((from, c, t)) = &cur { runs.push(put(*from, last, c, t, al)); }
                al = 0;
                cur = Some((w, s, t1.json()));
            }
            al = al.max(asked);
            last = w;
        }
        at += n;
    }
    if let Some((from, c, t)) = &cur { runs.push(put(*from, last, c, t, al)); }
    format!("\"runs\":[{}]", runs.join(","))
}

/// What a decode may request: linear in the input; the factor is what the
/// largest types need per encoded byte.
pub fn limit(len: usize, sizes: usize) -> usize { 128 + 4 * sizes + len.saturating_mul(16 + 2 * sizes) }

fn main() {
    std::panic::set_hook(Box::new(|i| { if let Ok(mut p) = PANIC.lock() { *p = i.to_string(); } }));
    // the stack of an ordinary thread of a debug build, times four
    std::thread::Builder::new().stack_size(8 << 20).spawn(work).unwrap().join().unwrap();
}

fn unhex(s: &str) -> Vec<u8> {
    let hex = s.as_bytes();
    (0..hex.len() / 2).map(|i| {
        let d = |c: u8| if c <= b'9' { c - b'0' } else { c - b'a' + 10 };
        d(hex[2 * i]) << 4 | d(hex[2 * i + 1])
    }).collect()
}

fn work() {
    let args: Vec<String> = std::env::args().collect();
    let skip: usize = args[2].parse().unwrap();
    let text = std::fs::read_to_string(&args[1]).unwrap();
    let mut out = std::io::BufWriter::new(std::io::stdout());
    for line in text.lines().skip(skip) {
        // id env type hex
        let f: Vec<&str> = line.split(' ').collect();
        let r = if f.len() > 4 {
            // id env type pre post lo hi (pre and post with a leading x)
            sweep_dispatch(f[1].parse().unwrap(), f[2], &unhex(&f[3][1..]), &unhex(&f[4][1..]), f[5].parse().unwrap(), f[6].parse().unwrap())
        } else {
            dispatch(f[1].parse().unwrap(), f[2], &unhex(f[3]))
        };
        writeln!(out, "{{\"id\":{},{}}}", f[0], r).unwrap();
        out.flush().unwrap();
    }
}
'''


class Shape:
    def __init__(self, env, shapes):
        self.env = env
        self.sh = {s["n"]: s for s in shapes}


def rust_ty(env, sh, t):
    k = t["k"]
    if k in PRIM:
        return PRIM[k]
    if k == "string":
        return "String"
    if k == "opaque":
        return "Bytes"
    return "xdr::%s%s" % (t["r"], "<Bytes>" if sh[t["r"]]["gen"] else "")


def item_ty(env, sh, t, a, b, o, n=None):
    base = rust_ty(env, sh, t)
    if o:
        return "Option<Box<%s>>" % base
    if t["k"] in ("string", "opaque") or a == "none":
        return base
    if a == "fix":
        return "[%s; %d]" % (base, env.bound(b))
    return "Vec<%s>" % base


def walk_plain(t, x):
    k = t["k"]
    if k in PRIM:
        return "t.%s(%s);" % (k, x)
    if k == "string":
        return "t.string(%s);" % x
    if k == "opaque":
        return "t.opaque(%s);" % x
    return "w_%s(%s, t);" % (t["r"], x)


def walk_item(env, sh, t, a, b, o, x):
    """x: an expression of type &Item"""
    ty = item_ty(env, sh, t, a, b, o)
    pre = "{ let x: &%s = %s; " % (ty, x)
    if o:
        return pre + "match x { None => t.t(\"none\"), Some(b) => { t.t(\"some\"); let y: &%s = &**b; %s } } }" % (
            rust_ty(env, sh, t), walk_plain(t, "y"))
    if t["k"] in ("string", "opaque") or a == "none":
        return pre + walk_plain(t, "x") + " }"
    tag = "fix" if a == "fix" else "arr"
    return pre + "t.n(\"%s\", x.len()); for y in x.iter() { %s } }" % (tag, walk_plain(t, "y"))


def module(i, env, shapes, path, sweeps=False, values=True):
    """The Rust module observing specification i, whose generated code is at path.
    (values: it compiles only if constants and members have theirs)"""
    sh = {s["n"]: s for s in shapes}
    out = ["pub mod e%d {" % i, "use fastxdr::bytes::Bytes; use super::{Toks, case, sweep, limit, ErrTok, payload};",
           "include!(\"%s\");" % path, "err_tok!(xdr::Error);"]
    sizes = {}
    arms = []
    for d in env.decls:
        s = sh[d["n"]]
        if d["k"] == "const":
            if values:
                out.append("const _: () = { let c: u32 = xdr::%s; assert!(c == %du32); };" % (d["n"], d["v"]))
            continue
        if s["self"]:
            continue
        ty = "xdr::%s%s" % (d["n"], "<Bytes>" if s["gen"] else "")
        sizes[d["n"]] = "std::mem::size_of::<%s>()" % ty
        body = ""
        if d["k"] == "struct":
            pats = ", ".join("%s: f%d" % (n, j) for j, n in enumerate(s["names"]))
            body = "t.s1(\"struct\", \"%s\"); let xdr::%s { %s } = v; " % (d["n"], d["n"], pats)
            for j, f in enumerate(d["f"]):
                body += walk_item(env, sh, f["t"], f["a"], f["b"], f["o"], "f%d" % j)
        elif d["k"] == "typedef":
            a = "var" if d["t"]["k"] == "opaque" and d["a"] == "none" else d["a"]
            body = "t.s1(\"newtype\", \"%s\"); let xdr::%s(f0) = v; " % (d["n"], d["n"])
            body += walk_item(env, sh, d["t"], a, d["b"], False, "f0")
        elif d["k"] == "enum":
            body = "match v { %s }" % ", ".join(
                "xdr::%s::%s => t.s2(\"enum\", \"%s\", \"%s\")" % (d["n"], n, d["n"], n) for n in s["names"])
            for m in d["m"] if values else []:
                out.append("const _: () = assert!(xdr::%s::%s as i64 == %d);" % (d["n"], m["n"], m["v"]))
        else:
            body = "match v { "
            for n, ai in zip(s["names"], s["arms"]):
                a = d["arms"][ai - 1]
                if a["void"]:
                    body += "xdr::%s::%s => t.s2(\"arm\", \"%s\", \"%s\")," % (d["n"], n, d["n"], n)
                else:
                    body += "xdr::%s::%s(f) => { t.s2(\"arm\", \"%s\", \"%s\"); %s }," % (
                        d["n"], n, d["n"], n, walk_item(env, sh, a["t"], "none", a, False, "f"))
            body += " }"
        out.append("pub fn w_%s(v: &%s, t: &mut Toks) { %s }" % (d["n"], ty, body))
        arms.append("\"%s\" => case::<%s, xdr::Error>(inp, w_%s, |v| xdr::WireSize::wire_size(v), limit(inp.len(), SIZES-%s-))," % (d["n"], ty, d["n"], d["n"]))
    out.append("pub fn run(ty: &str, inp: &[u8]) -> String { match ty { %s _ => panic!(\"no type {}\", ty) } }" % "\n".join(
        re.sub("SIZES-(\\w+)-", lambda m: " + ".join(sizes[n] for n in env.reach(m.group(1)) if n in sizes), a) for a in arms))
    if sweeps:
        out.append("pub fn run_sweep(ty: &str, pre: &[u8], post: &[u8], lo: u32, hi: u32) -> String { match ty { %s _ => panic!(\"no type {}\", ty) } }" % "\n".join(
            re.sub("SIZES-(\\w+)-", lambda m: " + ".join(sizes[n] for n in env.reach(m.group(1)) if n in sizes), a).replace("case::<", "sweep::<")
            .replace(">(inp, ", ">(pre, post, lo, hi, ").replace("inp.len()", "pre.len() + 4 + post.len()") for a in arms))
    out.append("}")
    return "\n".join(out)


def program(mods, sweeps=False):
    """mods: [(index, module text)]"""
    out = [HEAD]
    out += [m for _, m in mods]
    out.append("fn dispatch(e: usize, ty: &str, inp: &[u8]) -> String { match e { %s _ => unreachable!() } }" %
               " ".join("%d => e%d::run(ty, inp)," % (i, i) for i, _ in mods))
    out.append("fn sweep_dispatch(e: usize, ty: &str, pre: &[u8], post: &[u8], lo: u32, hi: u32) -> String { match e { %s _ => unreachable!() } }" %
               " ".join("%d => e%d::run_sweep(ty, pre, post, lo, hi)," % (i, i) for i, _ in mods if sweeps))
    return "\n".join(out)
