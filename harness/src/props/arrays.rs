//! The largest array types, of 2^12 to 2^24 elements, apart from the registry
//! because of the stack they need.
use super::*;
use fourleaf::de::style;
use fourleaf::{Deserialize, Serialize};

/// What is decided about them.
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum What { RoundTrip, Bytes, Accept }

#[derive(Clone)]
struct Job { what: What, seed: u64, way: u64, tag: u8, delta: i64, extra: u64, strict: bool }

pub trait Cell: Copy + Default + PartialEq + Send + 'static {
    fn make(r: &mut crate::src::Rng) -> Self;
    /// The whole slice as it appears in a field with that tag.
    fn field(xs: &[Self], tag: u8, out: &mut Vec<u8>);
    const NAME: &'static str;
    /// In a single blob
    const BLOB: bool;
}
impl Cell for u8 {
    fn make(r: &mut crate::src::Rng) -> u8 { r.next() as u8 }
    fn field(xs: &[u8], tag: u8, out: &mut Vec<u8>) { out.push(0x80 + tag); put_uint(xs.len() as u64, out); out.extend_from_slice(xs); }
    const NAME: &'static str = "u8";
    const BLOB: bool = true;
}
impl Cell for i16 {
    fn make(r: &mut crate::src::Rng) -> i16 { let v = r.next(); if v & 0x700000 == 0 { (v as i16) >> 9 } else { v as i16 } }
    fn field(xs: &[i16], tag: u8, out: &mut Vec<u8>) { for &x in xs { out.push(0x40 + tag); put_uint(zz(x as i64), out); } }
    const NAME: &'static str = "i16";
    const BLOB: bool = false;
}
impl Cell for bool {
    fn make(r: &mut crate::src::Rng) -> bool { r.next() & 1 == 1 }
    fn field(xs: &[bool], tag: u8, out: &mut Vec<u8>) { for &x in xs { out.push(0x40 + tag); out.push(x as u8); } }
    const NAME: &'static str = "bool";
    const BLOB: bool = false;
}

fn count<T: Cell, const N: usize>(j: &Job, xs: &[T]) -> Vec<T> {
    // another number of elements than the type has
    let mut v = xs.to_vec();
    let n = (N as i64 + j.delta).max(0) as usize;
    while v.len() < n { v.push(T::default()); }
    v.truncate(n);
    v
}

fn check<T: Cell, const N: usize>(j: &Job) -> Res
where [T; N]: Serialize + for<'b> Deserialize<fourleaf::io::TransparentCursor<&'b [u8]>, style::Copying>,
      T: Serialize {
    let mut r = crate::src::Rng::new(j.seed);
    let xs: Vec<T> = (0..N).map(|_| T::make(&mut r)).collect();
    let arr: Box<[T; N]> = xs.clone().into_boxed_slice().try_into().ok().unwrap();
    let name = format!("[{}; {}]", T::NAME, N);
    let mut c = config(j.strict);
    c.max_collect = if j.way & 4 != 0 { N } else { 1 << 40 };
    // as a value of its own, after and before something else, or as an element
    let mut want = vec![];
    match j.way & 3 {
        0 => { T::field(&xs, 1, &mut want); want.push(0); }
        1 | 2 => { want.extend_from_slice(&[0x41, 7]); T::field(&xs, 2, &mut want); want.extend_from_slice(&[0x43, 9, 0]); }
        _ => {
            if T::BLOB { T::field(&xs, 1, &mut want); } else { want.push(0xC1); T::field(&xs, 1, &mut want); want.push(0); }
            want.push(0);
        }
    }
    if j.what == What::Bytes || j.what == What::RoundTrip {
        let bytes = match j.way & 3 {
            0 => fourleaf::to_vec(&*arr),
            1 | 2 => fourleaf::to_vec((7u8, &*arr, 9u8)),
            _ => fourleaf::to_vec(std::slice::from_ref(&*arr)),
        }.map_err(|e| format!("{}: {}", name, e))?;
        if j.what == What::Bytes {
            ensure!(bytes.len() == want.len(), "{} way {} seed {}: {} bytes instead of {}", name, j.way, j.seed, bytes.len(), want.len());
            if let Some(i) = (0..want.len()).find(|&i| bytes[i] != want[i]) { return Err(format!("{} way {} seed {}: byte {} is {:02x} instead of {:02x}", name, j.way, j.seed, i, bytes[i], want[i])); }
            return Ok(());
        }
        want = bytes;
    }
    let mut good = true;
    if j.what == What::Accept && j.delta != 0 {
        // too few or too many elements
        let ys = count::<T, N>(j, &xs);
        good = false;
        want.clear();
        match j.way & 3 {
            0 => { T::field(&ys, 1, &mut want); want.push(0); }
            1 | 2 => { want.extend_from_slice(&[0x41, 7]); T::field(&ys, 2, &mut want); want.extend_from_slice(&[0x43, 9, 0]); }
            _ => {
                if T::BLOB { T::field(&ys, 1, &mut want); } else { want.push(0xC1); T::field(&ys, 1, &mut want); want.push(0); }
                want.push(0);
            }
        }
    }
    if j.what == What::Accept && good {
        // what follows does not matter
        for i in 0..j.extra { want.push(i as u8); }
    }
    let got: Result<Vec<T>, String> = match j.way & 3 {
        0 => fourleaf::from_slice_copy::<Box<[T; N]>>(&want, &c).map(|x| x.to_vec()).map_err(|e| e.to_string()),
        1 => fourleaf::from_slice_copy::<(u8, Box<[T; N]>, u8)>(&want, &c).map_err(|e| e.to_string()).and_then(|x| if (x.0, x.2) == (7, 9) { Ok(x.1.to_vec()) } else { Err(format!("surrounded by {} {}", x.0, x.2)) }),
        2 => fourleaf::from_slice_copy::<(u8, [T; N], u8)>(&want, &c).map_err(|e| e.to_string()).and_then(|x| if (x.0, x.2) == (7, 9) { Ok(x.1.to_vec()) } else { Err(format!("surrounded by {} {}", x.0, x.2)) }),
        _ => { c.max_collect = 1 << 40; fourleaf::from_slice_copy::<Vec<Box<[T; N]>>>(&want, &c).map_err(|e| e.to_string()).and_then(|x| if x.len() == 1 { Ok(x[0].to_vec()) } else { Err(format!("{} arrays", x.len())) }) }
    };
    match got {
        Ok(ys) if good => match (0..N).find(|&i| ys[i] != xs[i]) {
            None => Ok(()),
            Some(i) => Err(format!("{} way {} seed {}: element {} comes back changed", name, j.way, j.seed, i)),
        },
        Err(e) if good => Err(format!("{} way {} seed {}: {}", name, j.way, j.seed, e)),
        Ok(_) => Err(format!("{} way {} accepted with {} elements", name, j.way, N as i64 + j.delta)),
        Err(_) => Ok(()),
    }
}

macro_rules! sizes {
    ($t:ty, $($n:expr),*) => { &[$(($n, check::<$t, $n> as fn(&Job) -> Res)),*] }
}
static U8: &[(usize, fn(&Job) -> Res)] = sizes!(u8, 4096, 8192, 16384, 32768, 65536, 131072, 262144, 524288, 1048576, 2097152, 4194304, 8388608, 16777216);
static I16: &[(usize, fn(&Job) -> Res)] = sizes!(i16, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 131072, 262144, 524288, 1048576);
static BOOL: &[(usize, fn(&Job) -> Res)] = sizes!(bool, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 131072, 262144, 2097152, 4194304, 8388608, 16777216);

pub fn case(src: &mut Src, cx: &mut Cx, what: What) -> Res {
    let (name, list) = *src.pick(&[("u8", U8), ("i16", I16), ("bool", BOOL)]);
    // the larger the rarer
    let k = src.below(list.len() as u64).min(src.below(list.len() as u64 + 4));
    let (n, f) = list[k as usize];
    let delta = if what == What::Accept && src.coin() { *src.pick(&[-1i64, 1, -2, 2, 64, -(n as i64), -(n as i64) / 2, n as i64, -16]) } else { 0 };
    let j = Job { what, seed: src.below(1 << 20), way: src.below(8), tag: 1, delta, extra: src.below(5), strict: src.coin() };
    let _ = j.tag;
    cx.label(if n >= 1 << 20 { "over a million elements" } else if n >= 1 << 14 { "over 16,000 elements" } else { "fewer elements" });
    cx.nontrivial(name.as_bytes());
    cx.nontrivial(&j.seed.to_le_bytes());
    cx.nontrivial(&[k as u8, j.way as u8, j.delta as u8]);
    cx.desc(|| format!("[{}; {}] way {} with {} elements", name, n, j.way, n as i64 + j.delta));
    let stack = (64 << 20) + n * if name == "i16" { 80 } else { 40 };
    let t = std::thread::Builder::new().stack_size(stack).spawn(move || f(&j)).map_err(|e| format!("thread: {}", e))?;
    match t.join() {
        Ok(r) => r,
        Err(p) => Err(format!("panicked: {}", p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default())),
    }
}
