//! Hostile input.
//! technique: fuzzing with panic, read-count and allocation oracles
use super::*;
use crate::alloc::measure;
use fourleaf::io::TransparentCursor;
use fourleaf::stream::{Blob, Element, Field, Value};
use std::io::{BufRead, Read, Seek, SeekFrom};

pub fn prop() -> Prop {
    Prop {
        id: "C03",
        rule: "a case counts as non-trivial when the input has at least two bytes; distinct by target, configuration and input",
        facets: vec![
            facet("types", types, 1_200_000, 30_000_000),
            facet("lengths", lengths, 600_000, 10_000_000),
            facet("deep", deep, 24_000, 400_000),
            facet("long", long, 8_000, 100_000),
            facet("streams", streams, 800_000, 20_000_000),
            big!("big-types", types, 300, 6_000),
        ],
    }
}

fn rand_config(src: &mut Src) -> Config {
    let mut c = Config::default();
    c.ignore_unknown_fields = src.coin();
    if src.coin() {
        c.recursion_limit = src.range(0, 40);
        c.max_blob = match src.below(3) { 0 => src.below(40) as usize, 1 => 1 << 20, _ => usize::MAX };
        c.max_collect = match src.below(3) { 0 => src.below(10) as usize, 1 => 1 << 20, _ => usize::MAX };
    }
    c
}

fn bounded(e: &Entry, way: Way, b: &[u8], c: &Config, plan: &[u8], cx: &mut Cx) -> Res {
    if b.len() >= 2 {
        cx.nontrivial(e.name.as_bytes());
        cx.nontrivial(b);
        cx.nontrivial(&[way as u8, c.ignore_unknown_fields as u8, c.recursion_limit as u8]);
        cx.desc(|| format!("{} via {:?}: [{}]", e.name, way, hex(b)));
    }
    let len = b.len() as u64;
    // Reads: at most one per byte plus a constant per element; the device
    // panics when the fuse is spent.
    let dev = Dev::new(Mem::new(b.to_vec()).with_plan(plan.to_vec()).with_fuse(256 + 64 * len));
    let (r, u) = measure(|| match way {
        Way::Slice => (e.de_slice.unwrap())(b, c).map(|_| ()),
        Way::Borrow => (e.de_borrow)(b, c).map(|_| ()),
        Way::BorrowStream => (e.de_borrow_stream)(b, false, c).map(|_| ()),
        Way::Reader | Way::ReaderRef => (e.de_reader.unwrap())(dev.clone(), c).map(|_| ()),
        _ => {
            let mut s = if way == Way::StreamSeek { Stream::new_seek(dev.clone()) } else { Stream::new(dev.clone()) };
            (e.de_stream.unwrap())(&mut s, DeOp::Body, c).map(|_| ())
        }
    });
    cx.label(if r.is_ok() { "value" } else { "error" });
    let bound = 16384 + 192 * len + 8 * e.size as u64 + 64 * c.recursion_limit.min(b.len()) as u64;
    ensure!(u.peak <= bound, "{} via {:?}: {} bytes of input caused {} bytes of memory to be allocated (bound {}) [{}]", e.name, way, len, u.peak, bound, hex(b));
    Ok(())
}

fn types(src: &mut Src, cx: &mut Cx) -> Res {
    let e = pick_entry(src);
    let way = pick_way(src, e);
    let c = rand_config(src);
    let plan = gen::plan(src);
    let b = match src.below(5) {
        0 => { cx.label("random bytes"); src.bytes(80) }
        1 => { cx.label("soup"); gen::soup(src, 60) }
        _ => {
            cx.label("mutant");
            let (_, mut d) = doc(src, e);
            for _ in 0..src.below(4) { gen::mutate(src, &mut d); }
            let mut b = to_bytes(&d);
            for _ in 0..src.below(3) { gen::mutate_bytes(src, &mut b); }
            b
        }
    };
    bounded(e, way, &b, &c, &plan, cx)
}

/// Declared blob lengths, integers and counts far beyond the actual input.
fn lengths(src: &mut Src, cx: &mut Cx) -> Res {
    let e = pick_entry(src);
    let way = pick_way(src, e);
    let mut c = rand_config(src);
    if src.coin() { c.max_blob = usize::MAX; c.max_collect = usize::MAX; }
    let plan = gen::plan(src);
    let (_, mut d) = doc(src, e);
    // Replace the length of some blob with a lie, and maybe put one in front.
    let lie = |src: &mut Src| match src.below(6) {
        0 => 1 << 20,
        1 => (1 << 20) + src.below(1 << 20),
        2 => 1 << src.range(20, 63),
        3 => u64::MAX - src.below(40),
        4 => (1u64 << 63) - 20 + src.below(40),
        _ => 1 << 24,
    };
    let n = d.count_bodies();
    let k = src.below(n as u64) as usize;
    let mut hit = false;
    d.with_body(k, &mut |b| {
        let blobs: Vec<usize> = b.items.iter().enumerate()
            .filter(|(_, i)| matches!(i, Item::Field(_, Node::Blob(_)))).map(|(i, _)| i).collect();
        if !blobs.is_empty() && !src.chance(1, 4) {
            let i = *src.pick(&blobs);
            let keep_rest = src.coin();
            if let Item::Field(_, ref mut n) = b.items[i] {
                if let Node::Blob(v) = n.clone() { *n = Node::RawBlob(lie(src), v); }
            }
            if !keep_rest { b.items.truncate(i + 1); }
            hit = true;
        } else {
            let t = if b.items.is_empty() { 1 } else { match *src.pick(&b.items) { Item::Field(t, _) => t, _ => 1 } };
            let at = src.below(b.items.len() as u64 + 1) as usize;
            let tail = src.bytes(12);
            let l = lie(src);
            let it = match src.below(3) {
                0 => Item::Field(t, Node::RawBlob(l, tail)),
                1 => Item::Field(1 + src.below(63) as u8, Node::RawBlob(l, tail)),
                _ => Item::Field(t, Node::Enum(l, Body::new(Known::Opaque))),
            };
            b.items.insert(at, it);
        }
    });
    cx.label(if hit { "blob lie" } else { "inserted lie" });
    let b = to_bytes(&d);
    bounded(e, way, &b, &c, &plan, cx)
}

/// Nesting far beyond the limit.
fn deep(src: &mut Src, cx: &mut Cx) -> Res {
    let e = if src.coin() {
        let names = ["Tree", "TreeBox", "Chain", "Vec<Chain>", "Option<Tree>", "UnkDeep", "UnkOnly", "UnkPres", "UnkEnum",
            "UnknownFields<'a>", "UnknownField<'a>", "Vec<UnknownField<'a>>", "ZUnk<'a>", "Copied<UnknownFields<'static>>",
            "Vec<Vec<Vec<i16>>>", "Widget", "Option<ZUnk<'a>>", "Vec<UnkEnum>"];
        find(*src.pick(&names))
    } else { pick_entry(src) };
    let way = pick_way(src, e);
    let mut c = Config::default();
    c.ignore_unknown_fields = src.coin();
    let n = match src.below(3) { 0 => src.range(28, 36), 1 => src.range(30, 400), _ => src.range(400, 40_000) };
    let pat: Vec<u8> = match src.below(6) {
        0 => vec![0xC1],
        1 => vec![0xC2],
        2 => vec![0x01, 0x01],
        3 => vec![0x41, 0x05, 0xC2],
        4 => (0..src.range(1, 3)).flat_map(|_| { let t = 1 + src.below(10) as u8; if src.coin() { vec![0xC0 | t] } else { vec![t, src.below(4) as u8] } }).collect(),
        _ => vec![0xC1 + src.below(63) as u8],
    };
    let mut b = Vec::new();
    for _ in 0..n { b.extend_from_slice(&pat); }
    match src.below(3) { 0 => for _ in 0..n + 1 { b.push(0); }, 1 => b.push(0x40), _ => {} }
    cx.label(if n > 1000 { "very deep" } else { "deep" });
    bounded(e, way, &b, &c, &[], cx)
}

/// Very long runs of the same elements: work and stack use must not grow
/// with them beyond one step each.
fn long(src: &mut Src, cx: &mut Cx) -> Res {
    let e = pick_entry(src);
    let way = pick_way(src, e);
    let mut c = rand_config(src);
    if src.coin() { c = Config::default(); }
    let (_, mut d) = doc(src, e);
    if src.chance(1, 4) { gen::mutate(src, &mut d); }
    let mut b = to_bytes(&d);
    let n = match src.below(3) { 0 => src.range(500, 5000), 1 => src.range(5000, 60_000), _ => src.range(100_000, 400_000) };
    let t = 1 + match src.below(3) { 0 => src.below(63), _ => src.below(3) } as u8;
    let (what, pat): (&'static str, Vec<u8>) = match src.below(9) {
        0 | 1 | 2 => ("padding", vec![0xC0]),
        3 => ("integers", vec![0x40 | t, 5]),
        4 => ("empty blobs", vec![0x80 | t, 0]),
        5 => ("empty structs", vec![0xC0 | t, 0]),
        6 => ("empty enums", vec![t, src.below(3) as u8, 0]),
        7 => ("structs opened", vec![0xC0 | t]),
        _ => ("any bytes", src.bytes(3)),
    };
    cx.label(what);
    let at = if src.coin() { 0 } else { src.below(b.len() as u64 + 1) as usize };
    let run: Vec<u8> = pat.iter().cycle().take(n * pat.len()).cloned().collect();
    let tail = b.split_off(at);
    b.extend_from_slice(&run);
    b.extend_from_slice(&tail);
    if src.chance(1, 3) {
        return long_stream(src, cx, &b);
    }
    bounded(e, way, &b, &c, &[], cx)
}

fn long_stream(src: &mut Src, cx: &mut Cx, b: &[u8]) -> Res {
    cx.nontrivial(b);
    let how = src.below(5);
    let fuse = 4096 + 64 * b.len() as u64;
    let dev = Dev::new(Mem::new(b.to_vec()).with_fuse(fuse));
    let mut s = if src.coin() { Stream::new_seek(dev) } else { Stream::new(dev) };
    s.set_graceful_eof(src.coin());
    let (r, u) = measure(|| -> Res {
        let mut left = 8192 + 2 * b.len();
        loop {
            left -= 1;
            if left == 0 { return Err("more elements than bytes".to_string()); }
            let more = match how {
                0 => s.next_field().ok().map(|f| f.is_some()),
                1 => s.next_element().ok().map(|e| !matches!(e, Element::EndOfDoc)),
                2 => match s.next_field() { Ok(Some(f)) => f.skip().ok().map(|_| true), _ => None },
                3 => s.skip_up(0).ok().and_then(|_| s.next_field().ok().map(|f| f.is_some())),
                _ => s.commit().ok().and_then(|_| s.next_element().ok().map(|e| !matches!(e, Element::EndOfDoc))),
            };
            if more != Some(true) { return Ok(()); }
        }
    });
    r?;
    ensure!(u.peak <= 65536, "{} bytes of input caused {} bytes of memory to be allocated", b.len(), u.peak);
    Ok(())
}

/// Operation sequences on low-level streams.
fn streams(src: &mut Src, cx: &mut Cx) -> Res {
    let b = match src.below(4) {
        0 => src.bytes(100),
        1 | 2 => gen::soup(src, 80),
        _ => {
            let e = pick_entry(src);
            let (_, mut d) = doc(src, e);
            for _ in 0..src.below(3) { gen::mutate(src, &mut d); }
            to_bytes(&d)
        }
    };
    let plan = gen::plan(src);
    let kind = src.below(4);
    if b.len() >= 2 {
        cx.nontrivial(&b);
        cx.nontrivial(&[kind as u8]);
        cx.desc(|| format!("source {} [{}]", kind, hex(&b)));
    }
    let nops = src.range(1, 40) as u64;
    let fuse = 4096 + nops * (64 + 4 * b.len() as u64);
    let mut log: Vec<String> = vec![];
    let log_ref = std::cell::RefCell::new(&mut log);
    let r = catch(|| {
        let (_, u) = measure(|| match kind {
            0 => drive(src, &mut Stream::from_slice(&b[..]), nops, &|s| log_ref.borrow_mut().push(s)),
            1 => { let d = Dev::new(Mem::new(b.clone()).with_plan(plan).with_fuse(fuse)); drive(src, &mut Stream::new_seek(d), nops, &|s| log_ref.borrow_mut().push(s)) }
            2 => { let d = Dev::new(Mem::new(b.clone()).with_plan(plan).with_fuse(fuse)); drive(src, &mut Stream::new(d), nops, &|s| log_ref.borrow_mut().push(s)) }
            _ => { let d = Dev::new(Mem::new(b.clone()).with_plan(plan).with_fuse(fuse).no_seek()); drive(src, &mut Stream::new_seek(d), nops, &|s| log_ref.borrow_mut().push(s)) }
        });
        u
    });
    match r {
        Err(p) => Err(format!("source {} [{}]: {} after {}", kind, hex(&b), p, log.join(", "))),
        Ok(u) => {
            let bound = 65536 + 512 * b.len() as u64 + 1024 * nops;
            ensure!(u.peak <= bound, "source {} [{}]: {} bytes allocated after {}", kind, hex(&b), u.peak, log.join(", "));
            Ok(())
        }
    }
}

/// `false` when the error leaves the stream unusable by its documentation.
fn usable(e: &stream::Error) -> bool {
    matches!(*e, stream::Error::Exception(_) | stream::Error::LargeBlob(..) | stream::Error::UnexpectedType(..) | stream::Error::IntegerOutOfRange(_))
}

use super::c11::Rd as Src2;

fn blob_ops<R: Src2>(src: &mut Src, b: &mut Blob<R>, log: &dyn Fn(String)) -> bool {
    let n = src.below(4);
    for _ in 0..n {
        let _ = (b.len(), b.remaining(), b.inner_pos(), b.start_pos(), b.end_pos(), b.stream_pos());
        let ok = match src.below(8) {
            7 => {
                log("blob.slice".into());
                let _ = R::slice(b).map(|r| r.is_ok());
                let _ = R::slice_mut(b, &|_| ()).map(|r| r.is_ok());
                true
            }
            6 => { log("blob.ext_slice".into()); let _ = R::ext(b).map(|r| r.is_ok()); true }
            0 => { let mut buf = vec![0; src.below(40) as usize]; log(format!("blob.read({})", buf.len())); b.read(&mut buf).is_ok() }
            1 => {
                let off = match src.below(4) { 0 => src.below(20) as i64 - 10, 1 => unzz(src.uint(64)), 2 => i64::MIN, _ => i64::MAX };
                let w = match src.below(3) { 0 => SeekFrom::Start(off as u64), 1 => SeekFrom::End(off), _ => SeekFrom::Current(off) };
                log(format!("blob.seek({:?})", w));
                let _ = b.seek(w);
                true
            }
            2 => { let m = src.uint(20) as usize; log(format!("blob.read_fully({})", m)); match b.read_fully(m) { Ok(_) => true, Err(ref e) => usable(e) } }
            3 => { let m = src.uint(64) as usize; log(format!("blob.read_or_trunc({})", m)); b.read_or_trunc(m).is_ok() }
            4 => {
                log("blob.fill_buf".into());
                match b.fill_buf().map(|x| x.len()) {
                    Ok(n) => { let k = src.below(n as u64 + 1) as usize; log(format!("blob.consume({})", k)); b.consume(k); true }
                    Err(_) => false,
                }
            }
            _ => { let mut v = vec![0; src.below(9) as usize]; log(format!("blob.read_exact({})", v.len())); let _ = b.read_exact(&mut v); true }
        };
        if !ok { return false; }
    }
    true
}

fn drive<R: Src2>(src: &mut Src, s: &mut Stream<R>, nops: u64, log: &dyn Fn(String)) {
    s.set_graceful_eof(src.coin());
    for _ in 0..nops {
        let _ = (s.pos(), s.eof(), s.struct_depth());
        let ok = match src.below(10) {
            0 | 1 | 2 => {
                log("next_field".into());
                match s.next_field() {
                    Ok(Some(f)) => field_ops(src, f, log),
                    Ok(None) => true,
                    Err(ref e) => usable(e),
                }
            }
            3 | 4 | 5 => {
                log("next_element".into());
                match s.next_element() {
                    Ok(Element::Field(f)) => field_ops(src, f, log),
                    Ok(Element::Exception(mut b)) => blob_ops(src, &mut b, log),
                    Ok(_) => true,
                    Err(ref e) => usable(e),
                }
            }
            6 => { let d = src.below(4); log(format!("skip_up({})", d)); s.skip_up(d).is_ok() }
            7 => { log("commit".into()); s.commit().is_ok() }
            8 => { log("clear_eof".into()); s.clear_eof(); true }
            _ => {
                let p = src.below(100);
                log(format!("seek(Start({}))", p));
                let _ = s.seek(SeekFrom::Start(p)).is_ok();
                true
            }
        };
        if !ok { return; }
    }
}

fn field_ops<R: Src2>(src: &mut Src, mut f: Field<R>, log: &dyn Fn(String)) -> bool {
    match src.below(6) {
        0 => { log("skip".into()); return f.skip().is_ok(); }
        1 => {
            let v = &f.value;
            let _ = (v.to_u8(), v.to_i8(), v.to_u16(), v.to_i16(), v.to_u32(), v.to_i32());
            let _ = (v.to_u64(), v.to_i64(), v.to_usize(), v.to_isize(), v.to_bool(), v.to_null());
        }
        2 => { let _ = f.value.to_struct().is_ok(); let _ = f.value.to_enum().is_ok(); }
        _ => {}
    }
    match f.value {
        Value::Blob(ref mut b) => blob_ops(src, b, log),
        _ => true,
    }
}
