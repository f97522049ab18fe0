//! Truncation.
//! technique: property-based testing with every truncation point enumerated for each generated document, plus differential comparison for graceful end handling
use super::*;
use super::c13::{any_doc, MEl, Model};
use super::c14::{drain, Seen};
use std::io::{Cursor, Read};

pub fn prop() -> Prop {
    Prop {
        id: "C15",
        rule: "a case counts as non-trivial when at least two cuts were tried; distinct by type, way and document",
        facets: vec![
            facet("cuts", cuts, 120_000, 5_000_000),
            facet("graceful", graceful, 60_000, 5_000_000),
            facet("elements", elements, 60_000, 5_000_000),
            facet("wide", super::wide::cut, 200, 40_000),
            facet("blobs", blobs, 200_000, 8_000_000),
        ],
    }
}

/// A valid document for the type, with noise and unknown fields.
fn document(src: &mut Src, e: &Entry, unknown: bool) -> Vec<u8> {
    let (_, mut d) = doc(src, e);
    if unknown && src.coin() {
        let n = d.count_bodies();
        let k = src.below(n as u64) as usize;
        d.with_body(k, &mut |b| {
            let mask = match b.known { Known::Tags(m) => m, Known::All(m) => m, Known::Opaque => 0 };
            // a catch-all would be recorded, which is fine here
            let it = gen::unknown_item(src, mask | if mask == 0 { 2 } else { 0 }, true);
            let at = src.below(b.items.len() as u64 + 1) as usize;
            b.items.insert(at, it);
        });
    }
    let mut b = vec![];
    if src.coin() { let mut n = Random { src, den: 5, wide: src_wide(), applied: 0 }; write_body(&d, &mut n, &mut b); } else { b = to_bytes(&d); }
    b
}
fn src_wide() -> bool { false }

/// The cut positions to try.
fn positions(src: &mut Src, len: usize) -> Vec<usize> {
    if len <= 120 { return (0..len).collect(); }
    let mut v: Vec<usize> = (0..40).map(|_| src.below(len as u64) as usize).collect();
    v.extend(0..10);
    v.extend(len - 10..len);
    v.sort();
    v.dedup();
    v
}

pub fn eofish(k: &EK) -> bool { matches!(*k, EK::K(K::Stream(SK::Eof)) | EK::K(K::Stream(SK::Truncated(_)))) }

fn cuts(src: &mut Src, cx: &mut Cx) -> Res {
    let e = pick_entry(src);
    let b = document(src, e, true);
    let c = config(false);
    let way = pick_way(src, e);
    let plan = gen::plan(src);
    match run_way(e, way, &b, &c, &plan) {
        Err(x) => {
            // UnknownField containers etc. may refuse the addition
            cx.label("refused whole");
            let r = decode(way_schema(e, way), &b, rcfg(&c), false);
            ensure!(r.result.is_err(), "{} via {:?}: [{}] refused: {}", e.name, way, hex(&b), x);
            return Ok(());
        }
        Ok((_, Some(p))) => ensure!(p == b.len() as u64, "{} via {:?}: [{}] consumed {} bytes", e.name, way, hex(&b), p),
        Ok(_) => {}
    }
    let ps = positions(src, b.len());
    cx.evals(ps.len() as u64);
    for &p in &ps {
        match run_way(e, way, &b[..p], &c, &plan) {
            Err(x) => {
                let (k, _) = kind(&x);
                ensure!(eofish(&k), "{} via {:?}: [{}] cut to {} bytes fails with {:?} instead of an end-of-input error", e.name, way, hex(&b), p, k);
            }
            Ok((v, _)) => return Err(format!("{} via {:?}: [{}] cut to {} bytes is accepted as {}", e.name, way, hex(&b), p, short(&v))),
        }
    }
    if ps.len() >= 2 {
        cx.nontrivial(e.name.as_bytes());
        cx.nontrivial(&b);
        cx.nontrivial(&[way as u8]);
        cx.desc(|| format!("{} via {:?}: [{}], {} cuts", e.name, way, hex(&b), ps.len()));
    }
    Ok(())
}

/// Offsets at which an element may start.
fn starts(b: &[u8]) -> Vec<u64> {
    let mut m = Model::new(b);
    let mut v = vec![];
    loop {
        let at = m.rs.pending.max(m.rs.pos);
        if at > b.len() as u64 { break; }
        v.push(at);
        match m.next() { Ok(MEl::Doc) => m.rs.eof = false, Ok(_) => {}, Err(_) => break }
    }
    v
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum How { Borrow, Stream, Seek, Field }

fn run(e: &Entry, how: How, b: &[u8], graceful: bool, c: &Config, plan: &[u8]) -> Result<Val, (EK, String)> {
    let r = match how {
        How::Borrow => (e.de_borrow_stream)(b, graceful, c).map(|v| v.0),
        _ => {
            let d = Dev::new(Mem::new(b.to_vec()).with_plan(plan.to_vec()));
            let mut s = if how == How::Seek { Stream::new_seek(d) } else { Stream::new(d) };
            s.set_graceful_eof(graceful);
            (e.de_stream.unwrap())(&mut s, if how == How::Field { DeOp::Field(1) } else { DeOp::Body }, c)
        }
    };
    r.map(|v| v.strip()).map_err(|x| kind(&x))
}

fn graceful(src: &mut Src, cx: &mut Cx) -> Res {
    let e = pick_entry(src);
    let strict = src.chance(1, 3);
    let mut b = document(src, e, !strict);
    if src.chance(1, 4) { let mut d = Body::new(Known::Opaque); d.items.push(gen::any_item(src, 0)); write_body(&d, &mut Plain, &mut b); }
    let c = config(strict);
    let how = if e.de_stream.is_none() { How::Borrow } else { *src.pick(&[How::Borrow, How::Stream, How::Seek]) };
    let schema = if how == How::Borrow { &e.bor } else { &e.copy };
    let plan = gen::plan(src);
    let st = starts(&b);
    let ps = positions(src, b.len() + 1);
    cx.evals(ps.len() as u64);
    let whole = decode(schema, &b, rcfg(&c), false);
    for &p in &ps {
        let cut = &b[..p];
        let got = run(e, how, cut, true, &c, &plan);
        let about = || format!("{} {:?} strict={}: [{}] cut to {} bytes with graceful end handling", e.name, how, strict, hex(&b), p);
        let canonical = |r: &Result<Val, (EK, String)>| r.as_ref().map(|v| canon(schema, v)).map_err(|x| x.0.clone());
        if st.contains(&(p as u64)) {
            // as if the document ended there
            let mut marked = cut.to_vec();
            marked.push(END_DOC);
            let want = run(e, how, &marked, false, &c, &plan);
            ensure!(canonical(&got) == canonical(&want), "{}: {:?}, but with an end-of-document marker {:?}", about(), got, want);
            let r = decode(schema, &marked, rcfg(&c), false);
            if !r.unspecified {
                let r = r.result.map(|v| canon(schema, &v.strip())).map_err(|x| EK::K(x.kind));
                ensure!(canonical(&got) == r, "{}: {:?} instead of {:?}", about(), got, r);
            }
        } else if whole.result.is_ok() && (p as u64) < whole.pos {
            match got {
                // the value may end before, at an end-of-document marker
                Ok(ref v) => return Err(format!("{}, which is inside an element, is accepted as {}", about(), short(v))),
                Err((ref k, _)) => ensure!(eofish(k), "{}, which is inside an element, fails with {:?}", about(), k),
            }
        }
    }
    if ps.len() >= 2 {
        cx.nontrivial(e.name.as_bytes());
        cx.nontrivial(&b);
        cx.nontrivial(&[how as u8, strict as u8]);
        cx.desc(|| format!("{} {:?} strict={}: [{}], {} cuts, {} of them between elements", e.name, how, strict, hex(&b), ps.len(), st.len()));
    }
    Ok(())
}

/// Low-level reading of cut documents.
fn elements(src: &mut Src, cx: &mut Cx) -> Res {
    let b = any_doc(src);
    let how = src.below(3);
    let whole = drain(&mut Stream::from_slice(&b[..]), how, b.len() + 4);
    let ps = positions(src, b.len());
    let st = starts(&b);
    cx.evals(ps.len() as u64);
    let graceful = src.coin();
    let kind = src.below(4);
    fn go<R: Read>(mut s: Stream<R>, graceful: bool, how: u64, max: usize) -> Vec<Seen> {
        s.set_graceful_eof(graceful);
        // the end is reported for ever
        let mut v = drain(&mut s, how, max);
        if graceful {
            let n = v.iter().rev().take_while(|x| **x == Seen::Doc).count();
            let l = v.len();
            if n > 2 { v.truncate(l - n); v.push(Seen::Doc); }
        }
        v
    }
    for &p in &ps {
        let cut = b[..p].to_vec();
        let plan = if kind == 3 { vec![1, 0, 3] } else { vec![] };
        let mut got = match kind {
            0 => go(Stream::from_slice(cut), graceful, how, whole.len() + 4),
            1 => go(Stream::new(Cursor::new(cut)), graceful, how, whole.len() + 4),
            2 => go(Stream::new_seek(Cursor::new(cut)), graceful, how, whole.len() + 4),
            _ => go(Stream::new_seek(Dev::new(Mem::new(cut).with_plan(plan))), graceful, how, whole.len() + 4),
        };
        let about = || format!("[{}] cut to {} bytes (source {}, blobs read in style {}, graceful {})", hex(&b), p, kind, how, graceful);
        let last = got.pop();
        let mut same = whole.iter().take(got.len()).cloned().collect::<Vec<_>>();
        let between = st.contains(&(p as u64));
        if graceful && between {
            ensure!(last == Some(Seen::Doc), "{}: ends with {:?}", about(), last);
            // one element too many was compared if the document has a marker there
            while got.last() == Some(&Seen::Doc) { got.pop(); }
            while same.last() == Some(&Seen::Doc) { same.pop(); }
        } else {
            match last {
                Some(Seen::Fail(ref k)) if eofish(k) => {}
                l => return Err(format!("{}: ends with {:?} after {} elements", about(), l, got.len())),
            }
        }
        let at = got.iter().zip(&same).position(|(x, y)| x != y).unwrap_or(got.len().min(same.len()));
        ensure!(got == same, "{}: element {} is {:?} instead of {:?}", about(), at, got.get(at), same.get(at));
    }
    if ps.len() >= 2 { cx.nontrivial(&b); cx.nontrivial(&[graceful as u8, kind as u8, how as u8]); cx.desc(|| format!("[{}]: {} cuts", hex(&b), ps.len())); }
    Ok(())
}

/// A truncated blob, taken on its own.
fn blobs(src: &mut Src, cx: &mut Cx) -> Res {
    let n = src.below(300);
    let have = src.below(n + 1);
    let tag = 1 + src.below(63) as u8;
    let exc = src.chance(1, 4);
    let data = src.bytes_n(have as usize);
    let mut b = vec![if exc { EXCEPTION } else { 0x80 | tag }];
    put_uint(n, &mut b);
    b.extend_from_slice(&data);
    let early = src.below(have + 1);
    let kind = src.below(4);
    let graceful = src.coin();
    let how = src.below(6);
    fn go<R: Read>(mut s: Stream<R>, n: u64, have: u64, early: u64, how: u64, graceful: bool, data: &[u8]) -> Res {
        use fourleaf::stream::{Element, Value};
        s.set_graceful_eof(graceful);
        let miss = n - have;
        let trunc = EK::K(K::Stream(SK::Truncated(miss)));
        {
            let mut blob = match s.next_element() {
                Ok(Element::Field(f)) => match f.value { Value::Blob(b) => b, _ => return Err("not a blob".into()) },
                Ok(Element::Exception(b)) => b,
                _ => return Err("no element".into()),
            };
            let mut v = vec![0; early as usize];
            blob.read_exact(&mut v).map_err(|e| format!("reading {} bytes: {}", early, e))?;
            ensure!(v[..] == data[..early as usize], "wrong contents");
            let rest = &data[early as usize..];
            match how {
                0 => match blob.read_fully(1 << 20) {
                    Ok(v) => { ensure!(miss == 0, "read_fully gave {} bytes although {} are missing", v.len(), miss); ensure!(v == rest, "wrong contents"); }
                    Err(e) => ensure!(miss > 0 && skind(&e) == trunc, "read_fully failed with {} when {} bytes are missing", e, miss),
                },
                1 => {
                    let mut v = vec![0; (n - early) as usize];
                    match blob.read_exact(&mut v) {
                        Ok(()) => { ensure!(miss == 0, "read_exact succeeded although {} bytes are missing", miss); ensure!(v == rest, "wrong contents"); }
                        Err(e) => ensure!(miss > 0 && e.kind() == io::ErrorKind::UnexpectedEof, "read_exact failed with {}", e),
                    }
                }
                2 => {
                    let v = blob.read_or_trunc(1 << 20).map_err(|e| format!("read_or_trunc: {}", e))?;
                    ensure!(v == rest, "read_or_trunc gave {} bytes of {}", v.len(), rest.len());
                }
                3 => {
                    let v = blob.read_or_trunc(rest.len()).map_err(|e| format!("read_or_trunc: {}", e))?;
                    ensure!(v == rest, "read_or_trunc gave {} bytes of {}", v.len(), rest.len());
                }
                _ => {}
            }
        }
        // what follows cannot be reached when something is missing
        let r = match how % 2 { 0 => s.commit().map(|_| 0), _ => s.next_field().map(|f| f.is_some() as u8) };
        match r {
            Ok(x) => ensure!(miss == 0 && (how % 2 == 0 || graceful && x == 0), "continuing succeeded when {} bytes are missing", miss),
            Err(e) => ensure!(skind(&e) == trunc || miss == 0 && how % 2 == 1 && !graceful && skind(&e) == EK::K(K::Stream(SK::Eof)), "continuing failed with {} when {} bytes are missing", e, miss),
        }
        Ok(())
    }
    let r = match kind {
        0 => go(Stream::from_slice(b.clone()), n, have, early, how, graceful, &data),
        1 => go(Stream::new(Cursor::new(b.clone())), n, have, early, how, graceful, &data),
        2 => go(Stream::new_seek(Cursor::new(b.clone())), n, have, early, how, graceful, &data),
        _ => { let p = gen::plan(src); go(Stream::new_seek(Dev::new(Mem::new(b.clone()).with_plan(p))), n, have, early, how, graceful, &data) }
    };
    if have < n { cx.nontrivial(&b); cx.nontrivial(&[early as u8, kind as u8, how as u8, graceful as u8]);
        cx.desc(|| format!("blob of {} with {} bytes present, read {} then style {} (source {}, graceful {})", n, have, early, how, kind, graceful)); }
    r.map_err(|m| format!("blob of {} with {} bytes present ([{}]), read {} then style {} (source {}, graceful {}): {}", n, have, hex(&b), early, how, kind, graceful, m))
}
