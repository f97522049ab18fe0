//! Copying elements between streams.
//! technique: property-based testing of generated documents copied element by element, compared with the element list and by byte identity, with truncation and fault injection
use super::*;
use super::c10::El;
use super::c13::{any_doc, MEl, Model};
use fourleaf::stream::Element;
use std::io::{Cursor, Read};

pub fn prop() -> Prop {
    Prop {
        id: "C22",
        rule: "a case counts as non-trivial when at least two elements are copied; distinct by document, source, destination and copying style",
        facets: vec![
            facet("elements", elements, 900_000, 40_000_000),
            facet("truncated", truncated, 500_000, 20_000_000),
            facet("wide", super::wide::copy, 4, 160),
            facet("values", values, 500_000, 20_000_000),
            facet("faults", faults, 500_000, 20_000_000),
            big!("big-elements", elements, 300, 6_000),
            big!("big-values", values, 300, 6_000),
            big!("big-truncated", truncated, 300, 6_000),
            big!("big-faults", faults, 300, 6_000),
        ],
    }
}

/// The elements of a document, as far as they go, with the byte range of each.
fn list(b: &[u8], mut clear: impl FnMut() -> bool) -> (Vec<(El, u64, u64)>, Option<SK>) {
    let mut m = Model::new(b);
    let mut v = vec![];
    loop {
        let start = m.rs.pos.max(m.rs.pending);
        let e = match m.next() {
            Err(k) => return (v, Some(k)),
            Ok(MEl::Field { tag, kind, .. }) => match kind {
                RK::Int(n) => El::Int(tag, n),
                RK::Struct => El::Struct(tag),
                RK::Enum(n) => El::Enum(tag, n),
                RK::Blob(n) => match m.rs.contents(n) { Ok(c) => El::Blob(tag, c.to_vec()), Err(k) => return (v, Some(k)) },
            },
            Ok(MEl::Exc(n)) => match m.rs.contents(n) { Ok(c) => El::Exc(c.to_vec()), Err(k) => return (v, Some(k)) },
            Ok(MEl::End) => El::End,
            Ok(MEl::Pad) => El::Pad,
            Ok(MEl::Doc) => { m.rs.eof = false; v.push((El::Doc, start, m.rs.pos)); if !clear() { return (v, None); } continue }
        };
        v.push((e, start, m.rs.pos));
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Style { Element, Fields, Mixed }

/// How one copying step went.
#[derive(Debug)]
enum Step { Done, Ended, Skipped, SrcErr(EK), DstErr(EK) }

fn step<R: Read>(src: &mut Stream<R>, dst: &mut Stream<Dev>, fields: bool) -> Step {
    let w = |r: stream::Result<()>| match r { Ok(()) => Step::Done, Err(e) => Step::DstErr(skind(&e)) };
    if fields {
        let none = match src.next_field() {
            Ok(Some(ref mut f)) => return w(dst.write_field(f)),
            Ok(None) => true,
            Err(stream::Error::Exception(_)) => return Step::Skipped,
            Err(e) => return Step::SrcErr(skind(&e)),
        };
        let _ = none;
        if src.eof() { return match dst.write_end_doc() { Ok(()) => Step::Ended, Err(e) => Step::DstErr(skind(&e)) }; }
        return w(dst.write_end_struct());
    }
    let r = match src.next_element() {
        Ok(ref mut e) => {
            let ended = matches!(*e, Element::EndOfDoc);
            match (dst.write_element(e), ended) { (Ok(()), true) => Step::Ended, (r, _) => w(r) }
        }
        Err(e) => Step::SrcErr(skind(&e)),
    };
    r
}

fn dest(src: &mut Src) -> (Dev, Stream<Dev>, usize) {
    let before = src.bytes(4);
    let n = before.len();
    let mut m = Mem::new(before).with_plan(gen::plan(src));
    m.pos = n as u64;
    if src.chance(1, 4) { m.seek_ok = false; }
    let d = Dev::new(m);
    let mut s = if src.coin() { Stream::new(d.clone()) } else { Stream::new_seek(d.clone()) };
    if src.chance(1, 3) { s.set_pos(src.uint(60)); }
    (d, s, n)
}

fn elements(src: &mut Src, cx: &mut Cx) -> Res {
    let b = if src.chance(1, 5) { gen::soup(src, 60) } else { any_doc(src) };
    copy(src, cx, &b)
}

fn truncated(src: &mut Src, cx: &mut Cx) -> Res {
    let mut b = any_doc(src);
    if src.coin() {
        // end with a blob or exception, which is then cut
        let c = super::c10::blob(src);
        (if src.coin() { El::Blob(super::c10::tag(src), c) } else { El::Exc(c) }).bytes(&mut b);
        let n = src.range(1, 20).min(b.len());
        b.truncate(b.len() - n);
    } else {
        let n = src.below(b.len() as u64 + 1) as usize;
        b.truncate(n);
    }
    copy(src, cx, &b)
}

fn copy(src: &mut Src, cx: &mut Cx, b: &[u8]) -> Res {
    match src.below(6) {
        0 => run(src, cx, b, Stream::from_slice(b), "slice"),
        1 => run(src, cx, b, Stream::new(Cursor::new(b)), "cursor"),
        2 => run(src, cx, b, Stream::new_seek(Cursor::new(b)), "seeking cursor"),
        k => {
            let mut m = Mem::new(b.to_vec()).with_plan(gen::plan(src));
            if k == 3 { m.seek_ok = false; }
            let d = Dev::new(m);
            if k == 5 { run(src, cx, b, Stream::new(d), "device") } else { run(src, cx, b, Stream::new_seek(d), "seeking device") }
        }
    }
}

fn run<R: Read>(src: &mut Src, cx: &mut Cx, b: &[u8], mut s: Stream<R>, what: &str) -> Res {
    let style = *src.pick(&[Style::Element, Style::Element, Style::Fields, Style::Mixed]);
    let (dev, mut dst, n0) = dest(src);
    let base = dst.pos();
    let clear = src.coin();
    let (els, stop) = list(b, || clear);
    let about = |n: usize| format!("[{}] copied from {} in style {:?}: element {}", hex(b), what, style, n);
    let mut want = vec![];
    let mut same = vec![];
    let mut n = 0;
    let mut exact = true;
    let mut over_padding = false;
    let mut picks = vec![];
    while n < els.len() {
        let fields = match style { Style::Element => false, Style::Fields => true, Style::Mixed => src.coin() };
        if style == Style::Mixed { picks.push(fields as u8); }
        if fields {
            // padding is passed over
            while n < els.len() && els[n].0 == El::Pad { n += 1; exact = false; }
            if n == els.len() { over_padding = true; break; }
        }
        let (ref e, from, to) = els[n];
        let r = step(&mut s, &mut dst, fields);
        match (&r, e) {
            (Step::Skipped, El::Exc(_)) if fields => { exact = false; n += 1; continue; }
            (Step::Done, El::Doc) => return Err(format!("{} (end of document) taken for something else", about(n))),
            (Step::Done, _) | (Step::Ended, El::Doc) => {}
            _ => return Err(format!("{} ({:?}): {:?}", about(n), e, r)),
        }
        let was = want.len();
        e.bytes(&mut want);
        same.extend_from_slice(&b[from as usize..to as usize]);
        ensure!(dst.pos() == base + want.len() as u64, "{} ({:?}): destination at {} instead of {}", about(n), e, dst.pos(), base + want.len() as u64);
        let m = dev.m();
        let g = &m.data[n0..];
        ensure!(g.len() == want.len() && g[was..] == want[was..] && (was > 5000 || g[..] == want[..]), "{} ({:?}): copy is [{}] instead of [{}]", about(n), e, hex(g), hex(&want));
        drop(m);
        if *e == El::Doc { if !clear { break; } s.clear_eof(); }
        n += 1;
    }
    ensure!(dev.m().data[n0..] == want[..], "{}: in the end the copy is [{}] instead of [{}]", about(n), hex(&dev.m().data[n0..]), hex(&want));
    if els.len() >= 2 {
        cx.nontrivial(b);
        cx.nontrivial(&picks);
        cx.nontrivial(what.as_bytes());
        cx.nontrivial(&[style as u8]);
        cx.desc(|| format!("[{}] from {} in style {:?}: {} elements, then {:?}", hex(b), what, style, els.len(), stop));
    }
    if exact && same.len() == want.len() {
        // written as short as can be
        ensure!(same == want, "[{}]: the copy is [{}]", hex(&same), hex(&want));
        cx.label("byte-identical");
    } else { cx.label("equivalent"); }
    let k = match stop { None => { dst.commit().map_err(|e| e.to_string())?; return Ok(()); } Some(k) => k };
    // the document ends badly: the copy must not pass for a whole one
    let fields = style == Style::Fields || over_padding;
    let r = step(&mut s, &mut dst, fields);
    let begun = match (&r, &k) {
        (Step::SrcErr(ref g), k) if *g == EK::K(K::Stream(k.clone())) => false,
        (Step::Skipped, SK::Truncated(_)) => false,
        // longer than what the destination can address
        (Step::DstErr(EK::K(K::Stream(SK::Overlong))), &SK::Truncated(m)) if m.checked_add(dst.pos()).map_or(true, |x| x > u64::MAX - 600) => return Ok(()),
        (Step::DstErr(ref g), k) if *g == EK::K(K::Stream(k.clone())) => true,
        (Step::Done, SK::Truncated(_)) => true,
        _ => return Err(format!("{}: {:?} instead of {:?}", about(n), r, k)),
    };
    if let SK::Truncated(missing) = k {
        cx.label("truncated blob");
        if begun {
            for _ in 0..2 {
                let r = match src.below(4) {
                    0 => dst.commit(),
                    1 => dst.write_end_struct(),
                    2 => dst.write_u64(1, 5),
                    _ => dst.write_blob_data(1, b"x").map(|_| ()),
                };
                match r {
                    Err(stream::Error::IncompleteBlob(m)) if m == missing => {}
                    r => return Err(format!("{}: source lacks {} bytes of a blob, yet the destination goes on with {:?}", about(n), missing, r.map_err(|e| e.to_string()))),
                }
            }
        }
        match step(&mut s, &mut dst, fields) {
            Step::SrcErr(EK::K(K::Stream(SK::Truncated(m)))) if m == missing => {}
            r => return Err(format!("{}: source lacks {} bytes of a blob, then {:?}", about(n), missing, r)),
        }
    } else { cx.label("broken source"); }
    Ok(())
}

/// A value survives having its document copied.
fn values(src: &mut Src, cx: &mut Cx) -> Res {
    let e = pick_entry(src);
    let (v, mut d) = doc(src, e);
    if src.chance(1, 3) { super::c06::reorder(src, &mut d); }
    let mut b = vec![];
    let plain = src.coin();
    if plain { write_body(&d, &mut Plain, &mut b); } else { let mut n = Random { src, den: 5, wide: true, applied: 0 }; write_body(&d, &mut n, &mut b); }
    let mut s = Stream::new(Dev::new(Mem::new(b.clone()).with_plan(gen::plan(src))));
    let out = Dev::new(Mem::new(vec![]).with_plan(gen::plan(src)));
    let mut dst = Stream::new(out.clone());
    let fields = src.coin();
    let mut n = 0;
    while s.pos() < b.len() as u64 {
        match step(&mut s, &mut dst, fields) { Step::Done => {}, r => return Err(format!("{}: [{}]: element {}: {:?}", e.name, hex(&b), n, r)) }
        n += 1;
    }
    dst.commit().map_err(|x| x.to_string())?;
    let g = out.data();
    if plain { ensure!(g == b, "{}: [{}] copied as [{}]", e.name, hex(&b), hex(&g)); }
    let c = config(true);
    let way = pick_way(src, e);
    let (r, _) = run_way(e, way, &g, &c, &[]).map_err(|x| format!("{}: [{}] copied as [{}]: {}", e.name, hex(&b), hex(&g), x))?;
    let (r, v) = (canon(&e.copy, &r.strip()), canon(&e.copy, &v.strip()));
    ensure!(r == v, "{}: [{}] copied as [{}], which is {} instead of {}", e.name, hex(&b), hex(&g), short(&r), short(&v));
    if n >= 2 { cx.nontrivial(e.name.as_bytes()); cx.nontrivial(&b); cx.nontrivial(&[fields as u8]); cx.desc(|| format!("{}: [{}], {} elements", e.name, hex(&b), n)); }
    Ok(())
}

/// Failures of either side surface, and what has been written is a prefix of the copy.
fn faults(src: &mut Src, cx: &mut Cx) -> Res {
    let b = any_doc(src);
    let (els, _) = list(&b, || true);
    let mut whole = vec![];
    for e in &els { e.0.bytes(&mut whole); }
    let mut sm = Mem::new(b.clone()).with_plan(gen::plan(src));
    let mut dm = Mem::new(vec![]).with_plan(gen::plan(src));
    let calls = 3 * els.len() as u64 + 2;
    let f = match src.below(4) { 0 => Fault::Call(src.below(calls)), 1 => Fault::Offset(src.below(b.len() as u64 + 1)), 2 => Fault::Once(src.below(calls)), _ => Fault::Full(src.below(b.len() as u64 + 1)) };
    let in_src = src.coin() && !matches!(f, Fault::Full(_));
    if in_src { sm.fault = f.clone(); } else { dm.fault = f.clone(); }
    let (sd, dd) = (Dev::new(sm), Dev::new(dm));
    let mut s = if src.coin() { Stream::new(sd.clone()) } else { Stream::new_seek(sd.clone()) };
    let mut dst = Stream::new(dd.clone());
    let hit = || sd.m().faults + dd.m().faults;
    let mut done = 0;
    let about = |n: usize| format!("[{}] with {:?} in the {}: element {}", hex(&b), f, if in_src { "source" } else { "destination" }, n);
    let mut failed = false;
    while done < els.len() {
        let r = step(&mut s, &mut dst, false);
        match r {
            Step::Done => ensure!(hit() == 0, "{}: copied in spite of the fault", about(done)),
            Step::Ended => { ensure!(hit() == 0, "{}: copied in spite of the fault", about(done)); s.clear_eof(); }
            Step::SrcErr(EK::Io(_, ref m)) | Step::DstErr(EK::Io(_, ref m)) => {
                ensure!(hit() > 0, "{}: {:?}", about(done), r);
                if f != Fault::None && !matches!(f, Fault::Full(_)) { ensure!(m == FAULT_MSG, "{}: {:?}", about(done), r); }
                failed = true;
                break;
            }
            _ => return Err(format!("{}: {:?}", about(done), r)),
        }
        done += 1;
    }
    let g = dd.data();
    ensure!(whole.starts_with(&g), "{}: what was written, [{}], is not the beginning of [{}]", about(done), hex(&g), hex(&whole));
    ensure!(failed || g == whole, "{}: no failure, yet only [{}] of [{}] was written", about(done), hex(&g), hex(&whole));
    cx.label(if failed { if in_src { "source fails" } else { "destination fails" } } else { "fault not reached" });
    if els.len() >= 2 && failed { cx.nontrivial(&b); cx.nontrivial(format!("{:?}{}", f, in_src).as_bytes()); cx.desc(|| about(done)); }
    Ok(())
}

