//! Zero-copy decoding.
//! technique: property-based testing of borrowed addresses, limits and allocations against an independent reference decoder
use super::*;
use super::c14::input;
use crate::alloc::measure;
use fourleaf::adapt::Copied;
use fourleaf::de::{style, Deserialize};
use fourleaf::io::{AsExtBytes, TransparentCursor};
use fourleaf::stream::{Element, Value};
use fourleaf::unknown::{UnknownField, UnknownFields};
use std::borrow::Cow;
use std::collections::BTreeMap;
use std::io::{Cursor, Read};

pub fn prop() -> Prop {
    Prop {
        id: "C17",
        rule: "a case counts as non-trivial when at least one non-empty blob is borrowed, or a limit decides; distinct by type, reader, limits and bytes",
        facets: vec![
            facet("alias", alias, 900_000, 40_000_000),
            facet("limits", limits, 400_000, 20_000_000),
            facet("readers", readers, 400_000, 20_000_000),
            facet("slices", slices, 400_000, 15_000_000),
            facet("copies", copies, 100_000, 4_000_000),
            facet("wide", super::wide::borrow, 200, 40_000),
            big!("big-alias", alias, 300, 6_000),
            big!("big-readers", readers, 300, 6_000),
            big!("big-slices", slices, 300, 6_000),
            big!("big-copies", copies, 300, 6_000),
        ],
    }
}

fn has_borrow(v: &Val) -> bool {
    fn uv(u: &UV) -> bool {
        match u { UV::BBlob(b, _) => !b.is_empty(), UV::Struct(v) | UV::Enum(_, v) => v.iter().any(|x| uv(&x.1)), _ => false }
    }
    match v {
        Val::Borrowed(b, _) => !b.is_empty(),
        Val::Seq(v) | Val::Struct(v) | Val::Enum(_, v) => v.iter().any(has_borrow),
        Val::Map(v) => v.iter().any(|(a, b)| has_borrow(a) || has_borrow(b)),
        Val::Unk(v) => v.iter().any(|x| uv(&x.1)),
        Val::UF(u) => uv(u),
        _ => false,
    }
}

/// Types whose borrowing form differs from the copying one, mostly.
fn pick_zero(src: &mut Src) -> &'static Entry {
    if src.chance(1, 4) { return pick_entry(src); }
    let r = registry();
    let k = src.below(25) as usize;
    &r[r.len() - 1 - k]
}

fn alias(src: &mut Src, cx: &mut Cx) -> Res {
    let e = pick_zero(src);
    let b = input(src, cx, e);
    let mut c = config(src.coin());
    c.max_blob = usize::MAX;
    compare(src, cx, e, &b, &c, false)
}

/// Copied data counts against the limit, borrowed data does not.
fn limits(src: &mut Src, cx: &mut Cx) -> Res {
    let e = pick_zero(src);
    let (_, d) = doc(src, e);
    let b = to_bytes(&d);
    let mut c = config(src.coin());
    let exact = decode(&e.bor, &b, rcfg(&c), false).blob;
    c.max_blob = match src.below(4) { 0 => 0, 1 => exact as usize, 2 => (exact as usize).saturating_sub(1), _ => src.below(exact + 3) as usize };
    cx.label(if (c.max_blob as u64) < exact { "below the copied size" } else { "enough" });
    compare(src, cx, e, &b, &c, true)
}

fn compare(src: &mut Src, cx: &mut Cx, e: &Entry, b: &[u8], c: &Config, limit: bool) -> Res {
    let r = decode(&e.bor, b, rcfg(c), false);
    if r.unspecified { return Ok(()); }
    let stream = src.coin();
    let got = if stream { (e.de_borrow_stream)(b, false, c).map(|v| v.0) } else { (e.de_borrow)(b, c).map(|v| v.0) };
    let about = || format!("{} from [{}] (copy limit {})", e.name, hex(b), c.max_blob);
    match (r.result, got) {
        (Ok(want), Ok(got)) => {
            let (w, g) = (canon(&e.bor, &want), canon(&e.bor, &got));
            ensure!(w == g, "{}: {} instead of {}", about(), short(&g), short(&w));
            let borrowed = has_borrow(&got);
            cx.label(if borrowed { "something borrowed" } else { "nothing borrowed" });
            if borrowed || limit && r.blob > 0 {
                cx.nontrivial(e.name.as_bytes());
                cx.nontrivial(b);
                cx.nontrivial(&[stream as u8]);
                cx.desc(|| format!("{}: {}", about(), short(&got)));
            }
            // copying gives an equal value that owns everything
            if let Some(f) = e.de_slice {
                let mut cc = c.clone();
                cc.max_blob = usize::MAX;
                let copy = f(b, &cc).map_err(|x| format!("{}: copying fails: {}", about(), x))?;
                ensure!(!has_borrow(&copy), "{}: copying gives borrowed data: {}", about(), short(&copy));
                ensure!(canon(&e.copy, &copy.strip()) == canon(&e.copy, &got.strip()), "{}: copying gives {}, borrowing {}", about(), short(&copy), short(&got));
                if has_way(e, Way::Reader) {
                    let d = Dev::of(b);
                    let copy = (e.de_reader.unwrap())(d, &cc).map_err(|x| format!("{}: copying from a reader fails: {}", about(), x))?;
                    ensure!(!has_borrow(&copy) && canon(&e.copy, &copy.strip()) == canon(&e.copy, &got.strip()), "{}: copying from a reader gives {}", about(), short(&copy));
                }
            }
        }
        (Err(x), Err(y)) => {
            let (k, _) = kind(&y);
            ensure!(EK::K(x.kind.clone()) == k || !limit, "{}: fails with {:?} instead of {:?}", about(), k, x.kind);
            if limit { cx.nontrivial(e.name.as_bytes()); cx.nontrivial(b); cx.desc(|| format!("{}: {:?}", about(), k)); }
        }
        (Ok(w), Err(x)) => return Err(format!("{}: fails with {} instead of {}", about(), x, short(&w))),
        (Err(x), Ok(g)) => return Err(format!("{}: {} instead of {:?}", about(), short(&g), x)),
    }
    Ok(())
}

/// Several values in one buffer through each kind of reader.
fn readers(src: &mut Src, cx: &mut Cx) -> Res {
    match src.below(7) {
        0 => one::<ZC>(src, cx, "ZC<'a>"),
        1 => one::<UnknownFields>(src, cx, "UnknownFields<'a>"),
        2 => one::<(&[u8], &str)>(src, cx, "(&'a [u8], &'a str)"),
        3 => one::<Vec<Cow<[u8]>>>(src, cx, "Vec<Cow<'a, [u8]>>"),
        4 => one::<ZUnk>(src, cx, "ZUnk<'a>"),
        5 => one::<BTreeMap<&str, &[u8]>>(src, cx, "BTreeMap<&'a str, &'a [u8]>"),
        _ => one::<(Copied<Cow<str>>, Cow<str>)>(src, cx, "(Copied<Cow<'a, str>>, Cow<'a, str>)"),
    }
}

trait Zero<'a>: M + Deserialize<TransparentCursor<&'a [u8]>, style::ZeroCopy> + Deserialize<Cursor<&'a [u8]>, style::ZeroCopy> + Deserialize<&'a [u8], style::ZeroCopy> {}
impl<'a, T> Zero<'a> for T where T: M + Deserialize<TransparentCursor<&'a [u8]>, style::ZeroCopy> + Deserialize<Cursor<&'a [u8]>, style::ZeroCopy> + Deserialize<&'a [u8], style::ZeroCopy> {}

fn one<'a, T: Zero<'a>>(src: &mut Src, cx: &mut Cx, name: &'static str) -> Res {
    let e = find(name);
    let n = src.range(1, 3);
    let mut docs = vec![];
    for _ in 0..n {
        docs.push(input(src, cx, e));
        if src.coin() { docs.push(vec![PADDING; 2]); }
    }
    let lead = src.bytes(10);
    let all: Vec<u8> = docs.concat();
    // The buffer is what follows some other data.
    let mut store = lead.clone();
    store.extend_from_slice(&all);
    // Values borrow from here; freed below.
    let store: *mut [u8] = Box::into_raw(store.into_boxed_slice());
    let r = {
        // Sound: all borrows end within this block.
        let b: &'a [u8] = unsafe { &(&*store)[lead.len()..] };
        let c = { let mut c = config(src.coin()); c.max_blob = if src.coin() { usize::MAX } else { src.below(30) as usize }; c };
        match src.below(4) {
            0 => each::<T, _>(e, b, Stream::from_slice(b), &c, "slice", cx),
            1 => each::<T, _>(e, b, Stream::new(Cursor::new(b)), &c, "cursor", cx),
            2 => each::<T, _>(e, b, Stream::new_seek(Cursor::new(b)), &c, "seeking cursor", cx),
            _ => each::<T, _>(e, b, Stream::new(b), &c, "plain slice reader", cx),
        }
    };
    unsafe { drop(Box::from_raw(store)); }
    r
}

fn each<'a, T, R: Read + AsExtBytes<'a>>(e: &Entry, b: &'a [u8], mut s: Stream<R>, c: &Config, what: &'static str, cx: &mut Cx) -> Res
where T: M + Deserialize<R, style::ZeroCopy> {
    cx.label(what);
    set_base(b);
    let mut pos = 0u64;
    for i in 0..6 {
        let mut d = Dec::new(b, rcfg(c));
        d.rs.pos = pos;
        let want = d.body(&e.bor);
        if d.rs.exc_in_skip { return Ok(()); }
        let about = || format!("value {} of type {} at {} of [{}] from a {} (copy limit {})", i, e.name, pos, hex(b), what, c.max_blob);
        match (want, fourleaf::from_stream_borrow::<R, T>(&mut s, c)) {
            (Ok(w), Ok(t)) => {
                let g = canon(&e.bor, &t.to_val());
                let w = canon(&e.bor, &w);
                ensure!(w == g, "{}: {} instead of {}", about(), short(&g), short(&w));
                ensure!(s.pos() == d.rs.pos, "{}: ends at {} instead of {}", about(), s.pos(), d.rs.pos);
                if has_borrow(&g) { cx.nontrivial(b); cx.nontrivial(what.as_bytes()); cx.desc(|| format!("{}: {}", about(), short(&g))); }
                pos = d.rs.pos;
                s.clear_eof();
            }
            (Err(x), Err(y)) => {
                let (k, _) = kind(&y);
                ensure!(EK::K(x.kind.clone()) == k, "{}: fails with {:?} instead of {:?}", about(), k, x.kind);
                return Ok(());
            }
            (w, g) => return Err(format!("{}: {:?} instead of {:?}", about(), g.map(|g| g.to_val()), w)),
        }
    }
    Ok(())
}

/// Blob handles giving out slices.
fn slices(src: &mut Src, cx: &mut Cx) -> Res {
    let b = super::c13::any_doc(src);
    match src.below(4) {
        0 => walk(src, cx, &b, Stream::from_slice(&b[..]), "slice"),
        1 => walk(src, cx, &b, Stream::new(Cursor::new(&b[..])), "cursor"),
        2 => walk(src, cx, &b, Stream::new_seek(Cursor::new(&b[..])), "seeking cursor"),
        _ => walk(src, cx, &b, Stream::new(&b[..]), "plain slice reader"),
    }
}

fn walk<'a, R: Read + AsExtBytes<'a>>(src: &mut Src, cx: &mut Cx, b: &'a [u8], mut s: Stream<R>, what: &'static str) -> Res {
    cx.label(what);
    let base = b.as_ptr() as usize;
    let mut kept: Vec<(&'a [u8], u64, u64)> = vec![];
    for _ in 0..60 {
        let mut blob = match s.next_element() {
            Ok(Element::Field(f)) => match f.value { Value::Blob(b) => b, _ => continue },
            Ok(Element::Exception(b)) => b,
            Ok(Element::EndOfDoc) | Err(_) => break,
            Ok(_) => continue,
        };
        let k = src.below(blob.len() + 1);
        let mut buf = vec![0; k as usize];
        blob.read_exact(&mut buf).map_err(|e| e.to_string())?;
        let (from, left) = (blob.stream_pos(), blob.remaining());
        let x = blob.ext_slice().map_err(|e| format!("[{}] from a {}: ext_slice: {}", hex(b), what, e))?;
        kept.push((x, from, left));
        ensure!(blob.remaining() == 0 && blob.inner_pos() == blob.len(), "[{}] from a {}: {} bytes of the blob remain after ext_slice", hex(b), what, blob.remaining());
        cx.label("blob");
    }
    drop(s);
    for &(x, from, left) in &kept {
        ensure!(x.len() as u64 == left, "[{}] from a {}: slice of {} bytes instead of {}", hex(b), what, x.len(), left);
        ensure!(x.is_empty() || x.as_ptr() as usize == base + from as usize, "[{}] from a {}: slice at offset {} instead of {}", hex(b), what, (x.as_ptr() as usize).wrapping_sub(base), from);
    }
    if kept.iter().any(|k| k.2 > 0) { cx.nontrivial(b); cx.nontrivial(what.as_bytes()); cx.desc(|| format!("[{}] from a {}: {:?}", hex(b), what, kept.iter().map(|k| (k.1, k.2)).collect::<Vec<_>>())); }
    Ok(())
}

/// Borrowing allocates nothing proportional to the blobs.
fn copies(src: &mut Src, cx: &mut Cx) -> Res {
    let n = src.range(2_000, 40_000);
    let pay = vec![b'a' + src.below(26) as u8; n];
    let name = *src.pick(&["&'a [u8]", "&'a str", "Vec<&'a [u8]>", "Option<&'a str>", "(&'a [u8], &'a str)", "[&'a [u8]; 2]", "Cow<'a, str>", "Cow<'a, [u8]>",
        "Vec<Cow<'a, [u8]>>", "UnknownFields<'a>", "ZUnk<'a>", "BTreeMap<&'a str, &'a [u8]>", "HashMap<u8, Box<Cow<'a, [u8]>>, BH>", "Result<&'a str, &'a [u8]>"]);
    let e = find(name);
    let v = gen::val(src, &e.copy);
    let mut d = enc_body(&e.copy, &v);
    // blow up every blob
    let mut blobs = 0u64;
    d.visit_bodies(&mut |b| for it in &mut b.items {
        if let Item::Field(_, Node::Blob(ref mut x)) = *it { if blobs < 5 { *x = pay.clone(); } else { x.clear(); } blobs += 1; }
    });
    if blobs == 0 { return Ok(()); }
    let nodes = { let mut n = 0; d.visit_bodies(&mut |b| n += b.items.len() as u64 + 1); n };
    let b = to_bytes(&d);
    let mut c = config(false);
    c.max_blob = 0;
    let about = || format!("{} from a document of {} bytes with {} blobs of {} bytes", name, b.len(), blobs, n);
    fn probe<T, F: FnOnce() -> de::Result<T>>(f: F) -> (bool, crate::alloc::Usage) { let (r, u) = measure(f); (r.is_ok(), u) }
    macro_rules! t { ($t:ty) => { probe(|| fourleaf::from_slice_borrow::<$t>(&b, &c)) } }
    let (ok, u) = match name {
        "&'a [u8]" => t!(&[u8]),
        "&'a str" => t!(&str),
        "Vec<&'a [u8]>" => t!(Vec<&[u8]>),
        "Option<&'a str>" => t!(Option<&str>),
        "(&'a [u8], &'a str)" => t!((&[u8], &str)),
        "[&'a [u8]; 2]" => t!([&[u8]; 2]),
        "Cow<'a, str>" => t!(Cow<str>),
        "Cow<'a, [u8]>" => t!(Cow<[u8]>),
        "Vec<Cow<'a, [u8]>>" => t!(Vec<Cow<[u8]>>),
        "UnknownFields<'a>" => t!(UnknownFields),
        "ZUnk<'a>" => t!(ZUnk),
        "BTreeMap<&'a str, &'a [u8]>" => t!(BTreeMap<&str, &[u8]>),
        "HashMap<u8, Box<Cow<'a, [u8]>>, BH>" => t!(std::collections::HashMap<u8, Box<Cow<[u8]>>, BH>),
        _ => t!(Result<&str, &[u8]>),
    };
    let _ = std::marker::PhantomData::<UnknownField>;
    ensure!(ok, "{}: fails under a copy limit of zero", about());
    let bound = 1024 + 256 * nodes;
    if bound < n as u64 {
        ensure!(u.peak <= bound, "{}: borrowing allocated {} bytes", about(), u.peak);
        cx.nontrivial(name.as_bytes());
        cx.nontrivial(&b);
        cx.desc(|| format!("{}: allocated {}", about(), u.peak));
    }
    Ok(())
}
