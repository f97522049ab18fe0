//! The properties.

use fourleaf::de;
use fourleaf::stream::{self, Stream};
use fourleaf::DeConfig as Config;
use std::io;

use crate::engine::*;
use crate::gen;
use crate::mem::*;
use crate::refm::*;
use crate::src::Src;
use crate::types::*;

/// The same check with an oversized blob or collection somewhere.
macro_rules! big {
    ($name:expr, $f:expr, $quick:expr, $thorough:expr) => {
        facet($name, |s, c| {
            s.big = 1;
            let r = $f(s, c);
            if s.big == 0 { c.label("oversized"); }
            r
        }, $quick, $thorough)
    }
}

mod arrays;
mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c15;
mod c16;
mod c17;
mod c18;
mod c19;
mod c20;
mod c21;
mod c22;
mod wide;

pub fn all() -> Vec<Prop> {
    vec![c01::prop(), c02::prop(), c03::prop(), c04::prop(), c05::prop(),
        c06::prop(), c07::prop(), c08::prop(), c09::prop(), c10::prop(), c11::prop(), c12::prop(), c13::prop(),
        c14::prop(), c15::prop(), c16::prop(), c17::prop(), c18::prop(), c19::prop(), c20::prop(), c21::prop(), c22::prop()]
}

pub fn facet(name: &'static str, f: fn(&mut Src, &mut Cx) -> Res, quick: u64, thorough: u64) -> Facet {
    Facet { name, f, quick, thorough }
}

/// Whether a value can be of any size.
fn roomy(s: &Schema) -> bool {
    match s {
        Schema::Str { .. } | Schema::Bytes { .. } | Schema::List(_) | Schema::Set(_) | Schema::Heap(_) | Schema::Map(..) | Schema::Unknown { .. } | Schema::UnkField { .. } | Schema::Lazy(_) => true,
        Schema::Arr(_, e, _) | Schema::Opt(e) => roomy(e),
        Schema::Struct(d) => d.body.catchall.is_some() || d.body.fields.iter().any(|f| roomy(&f.schema)) || d.body.delegate.as_ref().map_or(false, |x| roomy(&x.1)),
        Schema::Enum(_) => true,
        _ => false,
    }
}

pub fn pick_entry(src: &mut Src) -> &'static Entry {
    if src.big > 0 {
        for _ in 0..6 {
            let e = &registry()[src.below(registry().len() as u64) as usize];
            if roomy(&e.copy) { return e; }
        }
    }
    let r = match src.below(16) { 0 | 1 => extras(), 2 | 3 => generated(), _ => registry() };
    &r[src.below(r.len() as u64) as usize]
}
pub fn pick_copy(src: &mut Src) -> &'static Entry {
    if src.big > 0 {
        for _ in 0..6 {
            let e = &registry()[src.below(registry().len() as u64) as usize];
            if roomy(&e.copy) && e.de_slice.is_some() { return e; }
        }
    }
    let r = match src.below(16) { 0 | 1 => extras(), 2 | 3 => generated(), _ => registry() };
    let mut i = src.below(r.len() as u64) as usize;
    while r[i].de_slice.is_none() { i = (i + 1) % r.len(); }
    &r[i]
}

pub fn config(strict: bool) -> Config {
    let mut c = Config::default();
    c.ignore_unknown_fields = !strict;
    c.max_blob = 1 << 40;
    c.max_collect = 1 << 40;
    c.recursion_limit = 400;
    c
}
pub fn rcfg(c: &Config) -> RCfg {
    RCfg { strict: !c.ignore_unknown_fields, limit: c.recursion_limit as u64, max_blob: c.max_blob as u64, max_collect: c.max_collect as u64 }
}

/// Kind of an I/O-level outcome.
#[derive(Clone, Debug, PartialEq)]
pub enum EK {
    K(K),
    Io(io::ErrorKind, String),
    LargeBlob(usize, u64),
    Other(String),
}

pub fn skind(e: &stream::Error) -> EK {
    use stream::Error::*;
    EK::K(K::Stream(match *e {
        Io(ref e) if e.kind() == io::ErrorKind::UnexpectedEof => SK::Eof,
        Io(ref e) => return EK::Io(e.kind(), e.to_string()),
        IntegerOverflow => SK::IntOverflow,
        OverwideInteger => SK::Overwide,
        Exception(ref s) => SK::Exception(s.clone()),
        TruncatedBlob(n) => SK::Truncated(n),
        OverlongBlob => SK::Overlong,
        LargeBlob(a, b) => return EK::LargeBlob(a, b),
        UnexpectedType(a, b) => SK::UnexpectedType(a, b),
        IntegerOutOfRange(_) => SK::IntOutOfRange,
        ref e => return EK::Other(e.to_string()),
    }))
}

/// Kind and location of an error.
pub fn kind(e: &de::Error) -> (EK, String) {
    use de::Error::*;
    match *e {
        Stream(ref wo, ref e) => (skind(e), wo.clone()),
        RecursionLimitExceeded(ref wo) => (EK::K(K::Recursion), wo.clone()),
        UnknownField(ref wo, t, p) => (EK::K(K::UnknownField(t, p)), wo.clone()),
        UnknownVariant(ref wo, v) => (EK::K(K::UnknownVariant(v)), wo.clone()),
        FieldOccursTooFewTimes(ref wo, n) => (EK::K(K::TooFew(n)), wo.clone()),
        FieldOccursTooManyTimes(ref wo, n) => (EK::K(K::TooMany(n)), wo.clone()),
        RequiredFieldMissing(ref wo) => (EK::K(K::Missing), wo.clone()),
        InvalidValue(ref wo, _) => (EK::K(K::InvalidValue), wo.clone()),
        InvalidValueMsg(ref wo, _) => (EK::K(K::InvalidMsg), wo.clone()),
        MaxCollectExceeded(ref wo) => (EK::K(K::MaxCollect), wo.clone()),
        MaxBlobExceeded(ref wo) => (EK::K(K::MaxBlob), wo.clone()),
        ref e => (EK::Other(e.to_string()), String::new()),
    }
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::new();
    for (i, x) in b.iter().enumerate() {
        if i == 120 { s.push_str(&format!(" ... ({} bytes)", b.len())); break; }
        if i > 0 { s.push(' '); }
        s.push_str(&format!("{:02x}", x));
    }
    s
}
pub fn short(v: &Val) -> String {
    let s = format!("{:?}", v);
    if s.len() > 400 { let mut k = 400; while !s.is_char_boundary(k) { k -= 1; } format!("{}...", &s[..k]) } else { s }
}

/// How a document is decoded.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Way { Slice, Borrow, BorrowStream, Reader, ReaderRef, Stream, StreamSeek, StreamBox }

pub const WAYS: [Way; 8] = [Way::Slice, Way::Borrow, Way::BorrowStream, Way::Reader, Way::ReaderRef, Way::Stream, Way::StreamSeek, Way::StreamBox];

pub fn has_way(e: &Entry, w: Way) -> bool {
    match w {
        Way::Borrow | Way::BorrowStream => true,
        _ => e.de_slice.is_some(),
    }
}
pub fn pick_way(src: &mut Src, e: &Entry) -> Way {
    let w = *src.pick(&WAYS);
    if has_way(e, w) { w } else if src.coin() { Way::Borrow } else { Way::BorrowStream }
}
/// Schema applicable to the way (whether data is borrowed).
pub fn way_schema(e: &Entry, w: Way) -> &Schema {
    match w { Way::Borrow | Way::BorrowStream => &e.bor, _ => &e.copy }
}

/// Value and, where observable, the number of bytes consumed.
pub fn run_way(e: &Entry, w: Way, b: &[u8], c: &Config, plan: &[u8]) -> de::Result<(Val, Option<u64>)> {
    let dev = || Dev::new(Mem::new(b.to_vec()).with_plan(plan.to_vec()));
    match w {
        Way::Slice => (e.de_slice.unwrap())(b, c).map(|v| (v, None)),
        Way::Borrow => (e.de_borrow)(b, c).map(|v| (v.0, None)),
        Way::BorrowStream => (e.de_borrow_stream)(b, false, c).map(|(v, p)| (v, Some(p))),
        Way::Reader | Way::ReaderRef => {
            let d = dev();
            let v = (e.de_reader.unwrap())(d.clone(), c)?;
            let p = d.pos();
            Ok((v, Some(p)))
        }
        Way::Stream | Way::StreamSeek | Way::StreamBox => {
            let d = dev();
            let mut s = if w == Way::StreamSeek { Stream::new_seek(d.clone()) } else { Stream::new(d.clone()) };
            let op = if w == Way::StreamBox { DeOp::BodyBox } else { DeOp::Body };
            let v = (e.de_stream.unwrap())(&mut s, op, c)?;
            let p = s.pos();
            if p != d.pos() { return Err(de::Error::InvalidValueMsg(format!("stream position {} but device position {}", p, d.pos()), "HARNESS")); }
            Ok((v, Some(p)))
        }
    }
}

/// A value of the entry's type and its document.
pub fn doc(src: &mut Src, e: &Entry) -> (Val, Body) {
    let v = canon(&e.copy, &gen::val(src, &e.copy));
    let b = enc_body(&e.copy, &v);
    (v, b)
}
