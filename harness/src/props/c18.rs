//! In-band exceptions and end-of-document markers.
//! technique: property-based testing of generated documents with exceptions and end markers at every nesting level, against an element-level model and the reference decoder
use super::*;
use super::c11::Rd;
use super::c13::{MEl, Model};
use fourleaf::stream::{Element, Value};
use std::io::{BufRead, Cursor, Read};

pub fn prop() -> Prop {
    Prop {
        id: "C18",
        rule: "a case counts as non-trivial when an exception or an end-of-document marker is met while reading; distinct by document, way and reading choices",
        facets: vec![
            facet("low", low, 900_000, 40_000_000),
            facet("values", values, 900_000, 40_000_000),
            facet("endings", endings, 600_000, 25_000_000),
            big!("big-low", low, 300, 6_000),
            big!("big-values", values, 300, 6_000),
            big!("big-endings", endings, 300, 6_000),
        ],
    }
}

/// The message of an exception: around the limit of 256 bytes, with characters cut by it.
fn message(src: &mut Src) -> Vec<u8> {
    if src.big > 0 && src.take_big() { let n = src.big_len(); return src.bytes_n(n); }
    match src.below(5) {
        0 => {
            // a character of two to four bytes across the limit
            let n = src.range(250, 258);
            let c = *src.pick(&['é', '€', '𝄞']);
            let mut b = vec![b'a' + src.below(26) as u8; n];
            let mut u = [0; 4];
            b.extend_from_slice(c.encode_utf8(&mut u).as_bytes());
            for _ in 0..src.below(4) { b.extend_from_slice(c.encode_utf8(&mut u).as_bytes()); }
            b
        }
        1 => { let n = src.range(254, 258); src.bytes_n(n) }
        2 => { let n = if src.chance(1, 20) { src.large() } else { *src.pick(&[127usize, 128, 300, 513, 700, 5000]) }; src.bytes_n(n) }
        3 => src.string(60).into_bytes(),
        _ => src.bytes(60),
    }
}
fn text(b: &[u8]) -> String { String::from_utf8_lossy(&b[..b.len().min(256)]).into_owned() }

/// A document rich in exceptions and end markers.
fn rich(src: &mut Src) -> Vec<u8> {
    let mut out = vec![];
    for _ in 0..src.range(1, 3) {
        let mut d = Body::new(Known::Opaque);
        for _ in 0..src.range(0, 3) { let it = if src.coin() { gen::unknown_item(src, 0, true) } else { gen::any_item(src, 0) }; d.items.push(it); }
        insert(src, &mut d, true);
        if src.chance(1, 3) { let mut n = Random { src, den: 6, wide: true, applied: 0 }; write_body(&d, &mut n, &mut out); } else { write_body(&d, &mut Plain, &mut out); }
        if src.coin() { out.push(END_DOC); }
    }
    if src.chance(1, 8) { let n = src.below(out.len() as u64 + 1) as usize; out.truncate(n); }
    out
}

/// Adds exceptions, and end markers if wanted, to some bodies.
fn insert(src: &mut Src, d: &mut Body, ends: bool) -> bool {
    let n = d.count_bodies() as u64;
    let mut any = false;
    for _ in 0..src.range(1, 3) {
        let k = src.below(n) as usize;
        d.with_body(k, &mut |b| {
            let at = src.below(b.items.len() as u64 + 1) as usize;
            let it = if ends && src.chance(1, 3) { Item::EndDoc } else { Item::Exc(message(src)) };
            b.items.insert(at, it);
            any = true;
        });
    }
    any
}

fn low(src: &mut Src, cx: &mut Cx) -> Res {
    let b = rich(src);
    match src.below(5) {
        0 => walk(src, cx, &b, Stream::from_slice(&b[..]), "slice"),
        1 => walk(src, cx, &b, Stream::new_seek(Cursor::new(&b[..])), "seeking cursor"),
        k => {
            let d = Dev::new(Mem::new(b.clone()).with_plan(gen::plan(src)));
            match k { 2 => walk(src, cx, &b, Stream::new_seek(d), "seeking device"), _ => walk(src, cx, &b, Stream::new(d), "device") }
        }
    }
}

fn io_count(d: &Dev) -> (u64, u64, u64, u64) { let m = d.m(); (m.reads, m.seeks, m.writes, m.pos) }

fn same(e: &stream::Error, k: &SK) -> bool { skind(e) == EK::K(K::Stream(k.clone())) }

fn walk<R: Rd>(src: &mut Src, cx: &mut Cx, b: &[u8], mut s: Stream<R>, what: &str) -> Res {
    let dev = s.get_ref().dev();
    let mut m = Model::new(b);
    let graceful = src.chance(1, 4);
    s.set_graceful_eof(graceful);
    m.rs.graceful = graceful;
    let mut log = format!("{} over [{}]{}", what, hex(b), if graceful { " graceful" } else { "" });
    let fields = src.below(3);
    let mut met = false;
    for _ in 0..60 {
        if m.rs.eof {
            // reported as often as one asks, without touching the source
            let before = dev.as_ref().map(io_count);
            let pos = s.pos();
            for _ in 0..src.range(1, 3) {
                if src.coin() {
                    log.push_str("; next_field at end");
                    match s.next_field() { Ok(None) => {}, r => return Err(format!("{}: {:?}", log, r.map(|f| f.map(|f| f.tag)).map_err(|e| e.to_string()))) }
                } else {
                    log.push_str("; next_element at end");
                    match s.next_element() { Ok(Element::EndOfDoc) => {}, Ok(_) => return Err(format!("{}: another element", log)), Err(e) => return Err(format!("{}: {}", log, e)) }
                }
                s.skip_up(0).map_err(|e| format!("{}; skip_up(0): {}", log, e))?;
                ensure!(s.eof() && s.struct_depth() == 0 && s.pos() == pos, "{}: eof {}, depth {}, position {} instead of {}", log, s.eof(), s.struct_depth(), s.pos(), pos);
                ensure!(dev.as_ref().map(io_count) == before, "{}: the source was touched: (reads, seeks, writes, position) {:?} became {:?}", log, before, dev.as_ref().map(io_count));
            }
            met = true;
            if src.chance(1, 6) { break; }
            log.push_str("; clear_eof");
            s.clear_eof();
            m.rs.eof = false;
            ensure!(!s.eof(), "{}: still at the end", log);
        }
        let got = (s.pos(), s.struct_depth());
        ensure!(got == (m.rs.pos, m.depth), "{}: (position, depth) {:?} instead of {:?}", log, got, (m.rs.pos, m.depth));
        let by_field = match fields { 0 => true, 1 => false, _ => src.coin() };
        if by_field {
            log.push_str("; next_field");
            match (s.next_field(), m.field()) {
                (Ok(Some(f)), Ok(Some(MEl::Field { tag, pos, depth, .. }))) => ensure!((f.tag, f.pos, f.depth) == (tag, pos, depth), "{}: field {:?}", log, (f.tag, f.pos, f.depth)),
                (Ok(None), Ok(None)) => {}
                (Err(ref e), Err(ref k)) if same(e, k) => { if let SK::Exception(_) = *k { met = true; cx.label("exception as error"); } else { break; } }
                (a, w) => return Err(format!("{}: {:?} instead of {:?}", log, a.map(|f| f.map(|f| (f.tag, f.pos))).map_err(|e| e.to_string()), w)),
            }
        } else {
            log.push_str("; next_element");
            match (s.next_element(), m.next()) {
                (Ok(Element::Field(f)), Ok(MEl::Field { tag, pos, depth, .. })) => {
                    ensure!((f.tag, f.pos, f.depth) == (tag, pos, depth), "{}: field {:?}", log, (f.tag, f.pos, f.depth));
                    if let (Value::Blob(mut b), true) = (f.value, src.coin()) { log.push_str("; blob"); if !contents(src, cx, &mut log, &mut m, &mut b)? { break; } }
                }
                (Ok(Element::Exception(mut b)), Ok(MEl::Exc(n))) => {
                    met = true;
                    ensure!(b.len() == n && b.remaining() == n, "{}: exception of {} bytes instead of {}", log, b.len(), n);
                    cx.label("exception as element");
                    if !contents(src, cx, &mut log, &mut m, &mut b)? { break; }
                }
                (Ok(Element::EndOfStruct), Ok(MEl::End)) | (Ok(Element::EndOfDoc), Ok(MEl::Doc)) | (Ok(Element::Padding), Ok(MEl::Pad)) => {}
                (Err(ref e), Err(ref k)) if same(e, k) => break,
                (Ok(_), w) => return Err(format!("{}: another element instead of {:?}", log, w)),
                (Err(e), w) => return Err(format!("{}: {} instead of {:?}", log, e, w)),
            }
        }
    }
    if met { cx.nontrivial(log.as_bytes()); cx.desc(|| log.clone()); }
    Ok(())
}

/// Reads all, some or nothing of a blob; false when the stream is at a loss.
fn contents<R: Rd>(src: &mut Src, cx: &mut Cx, log: &mut String, m: &mut Model, b: &mut stream::Blob<R>) -> Result<bool, String> {
    let (at, end) = (m.rs.pos, m.rs.pending);
    let there = end.min(m.rs.b.len() as u64);
    let whole = &m.rs.b[at as usize..there as usize];
    let cut = end > there;
    match src.below(5) {
        0 => {}
        1 if !cut => {
            let k = src.below(whole.len() as u64 + 1) as usize;
            log.push_str(&format!(" read {}", k));
            let mut v = vec![0; k];
            b.read_exact(&mut v).map_err(|e| format!("{}: {}", log, e))?;
            ensure!(v == whole[..k], "{}: contents [{}]", log, hex(&v));
            m.rs.pos += k as u64;
        }
        2 => {
            let max = src.below(600) as usize;
            log.push_str(&format!(" read_or_trunc({})", max));
            let v = b.read_or_trunc(max).map_err(|e| format!("{}: {}", log, e))?;
            ensure!(v == whole[..whole.len().min(max)], "{}: contents [{}]", log, hex(&v));
            m.rs.pos += v.len() as u64;
        }
        _ => {
            log.push_str(" read_fully");
            match b.read_fully(usize::MAX) {
                Ok(v) => {
                    ensure!(!cut && v == whole, "{}: contents [{}]", log, hex(&v));
                    m.rs.pos = end;
                    if whole.len() > 256 { cx.label("longer than 256 bytes in full"); }
                }
                Err(e) => {
                    ensure!(cut && skind(&e) == EK::K(K::Stream(SK::Truncated(end - there))), "{}: {}", log, e);
                    return Ok(false);
                }
            }
        }
    }
    Ok(true)
}

/// Typed reading of documents with exceptions and end markers, and carrying on afterwards.
fn values(src: &mut Src, cx: &mut Cx) -> Res {
    let e = pick_entry(src);
    let (_, mut d) = doc(src, e);
    insert(src, &mut d, true);
    let c = config(src.chance(1, 3));
    let mut b = vec![];
    if src.chance(1, 4) { let mut n = Random { src, den: 6, wide: true, applied: 0 }; write_body(&d, &mut n, &mut b); } else { b = to_bytes(&d); }
    // something follows
    let body = b.len();
    for _ in 0..src.below(3) { super::c10::any_el(src).bytes(&mut b); }
    let plan = gen::plan(src);
    if e.de_stream.is_none() || src.chance(1, 4) {
        // only the outcome
        let way = pick_way(src, e);
        let r = decode(way_schema(e, way), &b, rcfg(&c), false);
        if r.unspecified { cx.label("exception in skipped field"); return Ok(()); }
        let got = run_way(e, way, &b, &c, &plan).map(|v| canon(&e.copy, &v.0.strip())).map_err(|x| kind(&x));
        let want = r.result.map(|v| canon(&e.copy, &v.strip())).map_err(|x| (EK::K(x.kind), x.path));
        ensure!(got == want, "{} via {:?}: [{}] gives {:?} instead of {:?}", e.name, way, hex(&b), got, want);
        seen(cx, e, &b, &want);
        return Ok(());
    }
    let mut m = Mem::new(b.clone()).with_plan(plan);
    let seek = src.coin();
    if seek && src.chance(1, 4) { m.seek_ok = false; }
    let dev = Dev::new(m);
    let mut s = if seek { Stream::new_seek(dev.clone()) } else { Stream::new(dev.clone()) };
    let mut dec = Dec::new(&b, rcfg(&c));
    let want = dec.body(&e.copy).map(|v| canon(&e.copy, &v.strip())).map_err(|x| (EK::K(x.kind), x.path));
    if dec.rs.exc_in_skip { cx.label("exception in skipped field"); return Ok(()); }
    let got = (e.de_stream.unwrap())(&mut s, DeOp::Body, &c).map(|v| canon(&e.copy, &v.strip())).map_err(|x| kind(&x));
    let about = format!("{}: [{}]", e.name, hex(&b));
    ensure!(got == want, "{} gives {:?} instead of {:?}", about, got, want);
    seen(cx, e, &b, &want);
    let usable = match want { Ok(_) => true, Err((EK::K(K::Stream(SK::Exception(_))), _)) => true, _ => false };
    if !usable { return Ok(()); }
    ensure!(s.pos() == dec.rs.pos && s.eof() == dec.rs.eof, "{}: position {}, eof {} instead of {}, {}", about, s.pos(), s.eof(), dec.rs.pos, dec.rs.eof);
    if s.eof() {
        cx.label("ended by marker");
        ensure!(s.struct_depth() == 0, "{}: depth {} after the end marker", about, s.struct_depth());
        ensure!(dec.rs.pos <= body as u64 && dev.m().max_read == dec.rs.pos, "{}: read beyond the end marker", about);
        // the next value is empty, and is had without touching the source
        let e2 = pick_copy(src);
        let before = io_count(&dev);
        let w = decode(&e2.copy, &[END_DOC], rcfg(&c), false).result.map(|v| canon(&e2.copy, &v.strip())).map_err(|x| EK::K(x.kind));
        let g = (e2.de_stream.unwrap())(&mut s, DeOp::Body, &c).map(|v| canon(&e2.copy, &v.strip())).map_err(|x| kind(&x).0);
        ensure!(g == w, "{} then, at the end, {}: {:?} instead of {:?}", about, e2.name, g, w);
        ensure!(io_count(&dev) == before, "{} then, at the end, {}: the source was touched", about, e2.name);
        s.clear_eof();
    } else if got.is_err() { cx.label("continued after exception"); }
    // whatever follows is read as it would be from there
    let depth = s.struct_depth();
    let Dec { mut rs, .. } = dec;
    rs.eof = false;
    let mut m = Model { rs, depth, blob_start: 0 };
    for i in 0..6 {
        let g = match s.next_element() {
            Ok(Element::Field(f)) => format!("{} {} {}", f.tag, f.pos, f.depth),
            Ok(Element::Exception(b)) => format!("exception of {}", b.len()),
            Ok(Element::EndOfStruct) => "end".into(),
            Ok(Element::EndOfDoc) => "end of document".into(),
            Ok(Element::Padding) => "padding".into(),
            Err(x) => format!("{:?}", skind(&x)),
        };
        let r = m.next();
        let w = match r {
            Ok(MEl::Field { tag, pos, depth, .. }) => format!("{} {} {}", tag, pos, depth),
            Ok(MEl::Exc(n)) => format!("exception of {}", n),
            Ok(MEl::End) => "end".into(),
            Ok(MEl::Doc) => "end of document".into(),
            Ok(MEl::Pad) => "padding".into(),
            Err(ref k) => format!("{:?}", EK::K(K::Stream(k.clone()))),
        };
        ensure!(g == w, "{} gave {:?}; element {} after that is {} instead of {}", about, got, i, g, w);
        if r.is_err() { break; }
    }
    Ok(())
}

fn seen(cx: &mut Cx, e: &Entry, b: &[u8], want: &Result<Val, (EK, String)>) {
    let ex = matches!(*want, Err((EK::K(K::Stream(SK::Exception(_))), _)));
    cx.label(if ex { "exception" } else if want.is_ok() { "accepted" } else { "other error" });
    cx.nontrivial(e.name.as_bytes());
    cx.nontrivial(b);
    cx.desc(|| format!("{}: [{}] -> {}", e.name, hex(b), match *want { Ok(ref v) => short(v), Err(ref x) => format!("{:?}", x) }));
}

/// An end-of-document marker is as good as all the end-of-struct markers it stands for.
fn endings(src: &mut Src, cx: &mut Cx) -> Res {
    let e = pick_entry(src);
    let (_, d) = doc(src, e);
    let mut b = vec![];
    if src.chance(1, 3) { let mut n = Random { src, den: 6, wide: true, applied: 0 }; write_body(&d, &mut n, &mut b); } else { b = to_bytes(&d); }
    // element boundaries with the depth there
    let mut m = Model::new(&b);
    let mut at = vec![(0u64, 1u64)];
    let mut depth = 1u64;
    while depth > 0 {
        match m.next() {
            Ok(MEl::Field { kind, .. }) => if matches!(kind, RK::Struct | RK::Enum(_)) { depth += 1 },
            Ok(MEl::End) => depth -= 1,
            Ok(_) => {}
            Err(k) => return Err(format!("harness: {:?}", k)),
        }
        if depth > 0 { at.push((m.rs.pos.max(m.rs.pending), depth)); }
    }
    let (p, depth) = *src.pick(&at);
    let mut a = b[..p as usize].to_vec();
    let mut z = a.clone();
    a.push(END_DOC);
    for _ in 0..depth { z.push(END_STRUCT); }
    let c = config(src.coin());
    let way = pick_way(src, e);
    let tail = src.bytes(5);
    a.extend_from_slice(&tail);
    let plan = gen::plan(src);
    let k = |r: de::Result<(Val, Option<u64>)>| r.map(|v| (canon(&e.copy, &v.0.strip()), v.1.is_some())).map_err(|x| kind(&x).0);
    let ra = run_way(e, way, &a, &c, &plan);
    if let Ok((_, Some(q))) = ra { ensure!(q == p + 1, "{} via {:?}: [{}] took {} bytes instead of {}", e.name, way, hex(&a), q, p + 1); }
    let ra = k(ra);
    let rz = k(run_way(e, way, &z, &c, &plan));
    ensure!(ra == rz, "{} via {:?}: [{}] with an end marker at {} gives {:?}, but with {} ends of struct {:?}", e.name, way, hex(&a), p, ra, depth, rz);
    cx.label(if ra.is_ok() { "accepted" } else { "refused" });
    if depth > 1 { cx.label("nested"); }
    cx.nontrivial(e.name.as_bytes());
    cx.nontrivial(&a);
    cx.nontrivial(&[way as u8]);
    cx.desc(|| format!("{} via {:?}: [{}] closed at {}, depth {}", e.name, way, hex(&a), p, depth));
    Ok(())
}
