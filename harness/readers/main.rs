// Replays call sequences on the generated runtime.  GENERATED is replaced by
// the path of a module generated from a specification with nothing but a
// constant.
//
// lines in:  <id> <hex of the buffer> <call>;<call>...   call = op,n,max
// lines out: <id> <result>;<result>...                   result = E | P | hex values joined by '.' : bytes taken
use fastxdr::bytes::{Buf, Bytes};
use std::convert::TryFrom;
use std::io::Write;
use xdr::{DeserialiserExt, Error, WireSize};

mod gen {
    include!("GENERATED");
}
use gen::xdr;

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

struct W4(u32);
struct W8(u64);
struct B1(u8);
struct Vb(Bytes);
trait Show {
    fn show(&self) -> String;
}
macro_rules! elem {
    ($t:ident, $size:expr, $get:expr) => {
        impl TryFrom<Bytes> for $t {
            type Error = Error;
            fn try_from(mut v: Bytes) -> Result<Self, Error> {
                if v.len() < $size {
                    return Err(Error::InvalidLength);
                }
                Ok($t($get(&mut v)))
            }
        }
        impl WireSize for $t {
            fn wire_size(&self) -> usize {
                $size
            }
        }
        impl Show for $t {
            fn show(&self) -> String {
                hex(&self.0.to_be_bytes())
            }
        }
    };
}
elem!(W4, 4, Buf::get_u32);
elem!(W8, 8, Buf::get_u64);
elem!(B1, 1, Buf::get_u8);
impl TryFrom<Bytes> for Vb {
    type Error = Error;
    fn try_from(mut v: Bytes) -> Result<Self, Error> {
        // (by hand: not the reader under test)
        if v.len() < 4 {
            return Err(Error::InvalidLength);
        }
        let n = v.get_u32() as usize;
        let pad = (4 - n % 4) % 4;
        if v.len() < n || v.len() - n < pad {
            return Err(Error::InvalidLength);
        }
        Ok(Vb(v.slice(..n)))
    }
}
impl WireSize for Vb {
    fn wire_size(&self) -> usize {
        4 + (self.0.len() + 3) / 4 * 4
    }
}
impl Show for Vb {
    fn show(&self) -> String {
        hex(&self.0)
    }
}

fn arr<T: TryFrom<Bytes, Error = Error> + WireSize + Show>(b: &mut Bytes, max: Option<usize>) -> Option<String> {
    let v = b.read_variable_array::<T>(max).ok()?;
    Some(v.iter().map(|x| x.show()).collect::<Vec<_>>().join("."))
}

fn call(b: &mut Bytes, op: &str, n: &str, max: &str) -> Option<String> {
    let m = if max == "-" { None } else { Some(max.parse::<usize>().unwrap()) };
    match op {
        "u32" => b.read_u32().ok().map(|x| hex(&x.to_be_bytes())),
        "i32" => b.read_i32().ok().map(|x| hex(&x.to_be_bytes())),
        "u64" => b.read_u64().ok().map(|x| hex(&x.to_be_bytes())),
        "i64" => b.read_i64().ok().map(|x| hex(&x.to_be_bytes())),
        "f32" => b.read_f32().ok().map(|x| hex(&x.to_bits().to_be_bytes())),
        "f64" => b.read_f64().ok().map(|x| hex(&x.to_bits().to_be_bytes())),
        "bool" => b.read_bool().ok().map(|x| hex(&[x as u8])),
        "bytes" => b.read_bytes(if n == "top" { usize::MAX - 2 } else { n.parse().unwrap() }).ok().map(|x| hex(&x)),
        "vbytes" => b.read_variable_bytes(m).ok().map(|x| hex(&x)),
        "str" => b.read_string(m).ok().map(|x| hex(x.as_bytes())),
        "w4" => arr::<W4>(b, m),
        "w8" => arr::<W8>(b, m),
        "b1" => arr::<B1>(b, m),
        "vb" => arr::<Vb>(b, m),
        _ => unreachable!("{}", op),
    }
}

// a string of n bytes, of fewer characters
fn text(n: usize) -> String {
    let mut s = String::new();
    while n - s.len() >= 3 {
        s.push('\u{20ac}');
    }
    while s.len() < n {
        s.push('x');
    }
    s
}

fn size(op: &str, l: &[usize]) -> usize {
    let z = |i: usize| l[i];
    match op {
        "u32" => 7u32.wire_size(),
        "i32" => (-7i32).wire_size(),
        "f32" => 1.5f32.wire_size(),
        "bool" => true.wire_size(),
        "u64" => 7u64.wire_size(),
        "i64" => (-7i64).wire_size(),
        "f64" => 1.5f64.wire_size(),
        "box_u32" => Box::new(7u32).wire_size(),
        "string" => text(z(0)).wire_size(),
        "box_string" => Box::new(text(z(0))).wire_size(),
        "vec_u8" => vec![7u8; z(0)].wire_size(),
        "box_vec_u8" => Box::new(vec![7u8; z(0)]).wire_size(),
        "slice_u8" => vec![7u8; z(0)].as_slice().wire_size(),
        "vec_u32" => vec![7u32; z(0)].wire_size(),
        "vec_bool" => vec![true; z(0)].wire_size(),
        "vec_f32" => vec![1f32; z(0)].wire_size(),
        "vec_u64" => vec![7u64; z(0)].wire_size(),
        "vec_f64" => vec![1f64; z(0)].wire_size(),
        "slice_u32" => vec![7u32; z(0)].as_slice().wire_size(),
        "slice_i64" => vec![7i64; z(0)].as_slice().wire_size(),
        "opt_u32" => l.first().map(|_| 7u32).wire_size(),
        "opt_box_u64" => l.first().map(|_| Box::new(7u64)).wire_size(),
        "opt_string" => l.first().map(|n| text(*n)).wire_size(),
        "opt_opt_bool" => l.first().map(|n| if *n == 0 { None } else { Some(true) }).wire_size(),
        "vec_string" => l.iter().map(|n| text(*n)).collect::<Vec<_>>().wire_size(),
        "slice_string" => l.iter().map(|n| text(*n)).collect::<Vec<_>>().as_slice().wire_size(),
        "vec_vec_u8" => l.iter().map(|n| vec![7u8; *n]).collect::<Vec<_>>().wire_size(),
        "vec_opt_u32" => l.iter().map(|n| if *n == 0 { None } else { Some(7u32) }).collect::<Vec<_>>().wire_size(),
        "vec_vec_u32" => l.iter().map(|n| vec![7u32; *n]).collect::<Vec<_>>().wire_size(),
        _ => unreachable!("{}", op),
    }
}

// what a large payload holds at i
fn at(i: usize) -> u8 {
    97 + ((i + i / 256 + i / 65536) % 26) as u8
}

// a count of n (none for "bytes"), r bytes after it
fn large(op: &str, n: usize, r: usize, max: &str) -> Option<String> {
    let m = if max == "-" { None } else { Some(max.parse::<usize>().unwrap()) };
    let mut all = vec![0xee; 3];
    if op != "bytes" {
        all.extend_from_slice(&(n as u32).to_be_bytes());
    }
    all.extend((0..r).map(at));
    all.extend_from_slice(&[0xdd; 6]);
    let whole = Bytes::from(all);
    let start = whole.slice(3..whole.len() - 6);
    let mut b = start.clone();
    let got: Vec<u8> = match op {
        "bytes" => b.read_bytes(n).ok()?.to_vec(),
        "vbytes" => b.read_variable_bytes(m).ok()?.to_vec(),
        "str" => b.read_string(m).ok()?.into_bytes(),
        "b1" => b.read_variable_array::<B1>(m).ok()?.into_iter().map(|x| x.0).collect(),
        "w4" => b.read_variable_array::<W4>(m).ok()?.into_iter().flat_map(|x| x.0.to_be_bytes().to_vec()).collect(),
        "w8" => b.read_variable_array::<W8>(m).ok()?.into_iter().flat_map(|x| x.0.to_be_bytes().to_vec()).collect(),
        _ => unreachable!("{}", op),
    };
    let took = start.len().wrapping_sub(b.len());
    let same = got.iter().enumerate().all(|(i, x)| *x == at(i)) && took <= start.len() && start[took..] == b[..];
    Some(format!("{}:{}{}", got.len(), took, if same { "" } else { "!" }))
}

fn caught<T>(f: impl FnOnce() -> T) -> Option<T> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).ok()
}

// every word there is: prints those accepted, and how many were not
fn all_bools(part: u32, parts: u32) {
    let mut acc = Vec::new();
    let mut rej = 0u64;
    let mut w = part as u64;
    let mut room = vec![0u8; 0];
    let _ = &mut room;
    while w <= u32::MAX as u64 {
        // many at a time in one buffer, so that this is quick
        let mut v = Vec::with_capacity(4 * 65536);
        let first = w;
        let mut n = 0;
        while w <= u32::MAX as u64 && n < 65536 {
            v.extend_from_slice(&(w as u32).to_be_bytes());
            w += parts as u64;
            n += 1;
        }
        let b = Bytes::from(v);
        for i in 0..n {
            let mut x = b.slice(4 * i..);
            match x.read_bool() {
                Ok(t) => {
                    if acc.len() < 100 {
                        acc.push(format!("{}={}:{}", first + i as u64 * parts as u64, t as u8, b.len() - 4 * i - x.len()));
                    }
                }
                Err(_) => rej += 1,
            }
        }
    }
    println!("{} {}", rej, acc.join(","));
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let args: Vec<String> = std::env::args().collect();
    if args[1] == "bools" {
        return all_bools(args[2].parse().unwrap(), args[3].parse().unwrap());
    }
    let skip: usize = args[2].parse().unwrap();
    let mut out = std::io::BufWriter::new(std::io::stdout());
    for line in std::fs::read_to_string(&args[1]).unwrap().lines().skip(skip) {
        let f: Vec<&str> = line.split(' ').collect();
        let mut res = Vec::new();
        let cs: Vec<Vec<&str>> = f[2].split(';').map(|c| c.split(',').collect()).collect();
        if cs[0][0] == "large" {
            let g: Vec<&str> = f[1].split(',').collect();
            res.push(match caught(|| large(g[0], g[1].parse().unwrap(), g[2].parse().unwrap(), g[3])) {
                Some(Some(v)) => v,
                Some(None) => "E".into(),
                None => "P".into(),
            });
        } else if cs[0][1] == "size" {
            let l: Vec<usize> = unhex(f[1]).chunks(4).map(|x| u32::from_be_bytes([x[0], x[1], x[2], x[3]]) as usize).collect();
            res.push(match caught(|| size(cs[0][0], &l)) {
                Some(n) => format!(":{}", n),
                None => "P".into(),
            });
        } else {
            // a view into the middle of something larger
            let mut all = vec![0xee; 5];
            all.extend_from_slice(&unhex(f[1]));
            all.extend_from_slice(&[0xdd; 6]);
            let whole = Bytes::from(all);
            let start = whole.slice(5..whole.len() - 6);
            let mut b = start.clone();
            for c in cs {
                let before = b.clone();
                match caught(|| call(&mut b, c[0], c[1], c[2])) {
                    None => {
                        res.push("P".into());
                        break;
                    }
                    Some(None) => {
                        res.push("E".into());
                        break;
                    }
                    Some(Some(v)) => {
                        let n = before.len().wrapping_sub(b.len());
                        let tail = n <= before.len() && before[n..] == b[..];
                        res.push(format!("{}:{}{}", v, n, if tail { "" } else { "!" }));
                    }
                }
            }
        }
        writeln!(out, "{} {}", f[0], res.join(";")).unwrap();
        out.flush().unwrap();
    }
}
