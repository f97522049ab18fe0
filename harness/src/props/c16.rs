//! I/O faults.
//! technique: property-based fault injection: generated values and documents combined with generated fault plans, against the fault-free run and the prefix invariant
use super::*;
use super::c10::{any_el, El};
use super::c14::{drain, input, any_config, Seen};
use fourleaf::stream::{Element, Value};
use std::io::{Read, Seek, SeekFrom, Write};

pub fn prop() -> Prop {
    Prop {
        id: "C16",
        rule: "a case counts as non-trivial when the injected fault was actually delivered, or the delivery was interrupted or piecemeal; distinct by type, fault plan and bytes",
        facets: vec![
            facet("read", read, 700_000, 30_000_000),
            facet("write", write, 700_000, 30_000_000),
            facet("sequence", sequence, 600_000, 20_000_000),
            facet("elements", elements, 300_000, 10_000_000),
            facet("blobs", blobs, 500_000, 20_000_000),
            facet("seeks", seeks, 400_000, 15_000_000),
            big!("big-read", read, 300, 6_000),
            big!("big-write", write, 300, 6_000),
            big!("big-elements", elements, 300, 6_000),
            big!("big-sequence", sequence, 300, 6_000),
        ],
    }
}

const KINDS: [io::ErrorKind; 7] = [io::ErrorKind::BrokenPipe, io::ErrorKind::Other, io::ErrorKind::WouldBlock, io::ErrorKind::TimedOut,
    io::ErrorKind::PermissionDenied, io::ErrorKind::ConnectionReset, io::ErrorKind::InvalidData];

fn injected(k: &EK, fk: io::ErrorKind) -> bool { matches!(*k, EK::Io(kk, ref m) if kk == fk && m == FAULT_MSG) }

/// What to do when a source or sink has to fail.
fn fault(src: &mut Src, calls: u64, bytes: u64) -> Fault {
    match src.below(4) {
        0 => Fault::Call(src.below(calls + 1)),
        1 => Fault::Once(src.below(calls + 1)),
        2 => Fault::Zero(src.below(calls + 1)),
        _ => Fault::Offset(src.below(bytes + 1)),
    }
}

fn go(e: &Entry, w: Way, d: &Dev, c: &Config) -> Result<Val, (EK, String)> {
    let r = match w {
        Way::Reader | Way::ReaderRef => (e.de_reader.unwrap())(d.clone(), c),
        _ => {
            let mut s = if w == Way::StreamSeek { Stream::new_seek(d.clone()) } else { Stream::new(d.clone()) };
            (e.de_stream.unwrap())(&mut s, if w == Way::StreamBox { DeOp::BodyBox } else { DeOp::Body }, c)
        }
    };
    r.map(|v| canon(&e.copy, &v.strip())).map_err(|x| kind(&x))
}

fn read(src: &mut Src, cx: &mut Cx) -> Res {
    let e = pick_copy(src);
    let b = input(src, cx, e);
    let c = any_config(src);
    let w = *src.pick(&[Way::Reader, Way::Stream, Way::StreamSeek, Way::StreamBox]);
    let plan = gen::plan(src);
    let clean = Dev::new(Mem::new(b.clone()).with_plan(plan.clone()));
    let want = go(e, w, &clean, &c);
    let (calls, got) = { let m = clean.m(); (m.reads, m.max_read) };
    let f = fault(src, calls, got);
    let fk = *src.pick(&KINDS);
    let mut m = Mem::new(b.clone()).with_plan(plan.clone()).with_fault(f.clone());
    m.fault_kind = fk;
    if src.chance(1, 4) { m.seek_ok = false; }
    let d = Dev::new(m);
    let r = go(e, w, &d, &c);
    let hit = d.m().faults > 0;
    let about = || format!("{} via {:?}: [{}] with {:?} ({:?}; chunks {:?})", e.name, w, hex(&b), f, fk, plan);
    cx.label(if hit { "fault met" } else { "fault not met" });
    if !hit {
        ensure!(r == want, "{}: {:?} instead of {:?} although no fault was met", about(), r, want);
    } else {
        match r {
            Ok(v) => return Err(format!("{}: accepted as {} although the source failed", about(), short(&v))),
            Err((k, _)) => {
                let ok = match f {
                    // an exception's message may be cut short
                    Fault::Zero(_) => matches!(k, EK::K(K::Stream(SK::Eof)) | EK::K(K::Stream(SK::Truncated(_))) | EK::K(K::Stream(SK::Exception(_)))),
                    _ => injected(&k, fk),
                };
                // an error in the document itself may come first
                let ok = ok || match want { Err((ref w, _)) => *w == k, _ => false };
                ensure!(ok, "{}: the error is {:?}", about(), k);
            }
        }
        cx.nontrivial(e.name.as_bytes());
        cx.nontrivial(&b);
        cx.nontrivial(format!("{:?}", f).as_bytes());
        cx.desc(|| about());
    }
    Ok(())
}

fn sink_fault(src: &mut Src, calls: u64, bytes: u64) -> Fault {
    if src.chance(1, 4) { Fault::Full(src.below(bytes + 1)) } else { fault(src, calls, bytes) }
}

/// The error a failing sink leads to.
fn sink_error(k: &EK, f: &Fault, fk: io::ErrorKind) -> bool {
    match *f {
        Fault::Zero(_) | Fault::Full(_) => matches!(*k, EK::Io(io::ErrorKind::WriteZero, _)),
        _ => injected(k, fk),
    }
}

fn ser(e: &Entry, v: &Val, op: Option<SerOp>, d: &Dev) -> Result<Val, EK> {
    match op {
        None => (e.to_writer)(v, d.clone()).map_err(|x| skind(&x)),
        Some(op) => {
            let mut s = Stream::new(d.clone());
            let r = (e.ser)(v, op, &mut s).map_err(|x| skind(&x))?;
            s.commit().map_err(|x| skind(&x))?;
            Ok(r)
        }
    }
}

fn write(src: &mut Src, cx: &mut Cx) -> Res {
    let e = pick_entry(src);
    let v = gen::val(src, &e.copy);
    let tag = 1 + src.below(63) as u8;
    let op = match src.below(7) {
        0 | 1 => None,
        2 => Some(SerOp::ToStream),
        3 => Some(SerOp::Body),
        4 => Some(SerOp::ElemBox(tag)),
        5 if !e.no_field => Some(SerOp::Field(tag)),
        _ => Some(SerOp::Elem(tag)),
    };
    let clean = Dev::of(&[]);
    ser(e, &v, op, &clean).map_err(|k| format!("{}: {:?}", e.name, k))?;
    let want = clean.data();
    let plan = gen::plan(src);
    let fk = *src.pick(&KINDS);
    let f = if src.chance(1, 4) { Fault::None } else {
        let dry = Dev::new(Mem::new(vec![]).with_plan(plan.clone()));
        ser(e, &v, op, &dry).map_err(|k| format!("{} with chunks {:?}: {:?}", e.name, plan, k))?;
        let n = dry.m().writes;
        sink_fault(src, n, want.len() as u64)
    };
    let mut m = Mem::new(vec![]).with_plan(plan.clone()).with_fault(f.clone());
    m.fault_kind = fk;
    let d = Dev::new(m);
    let r = ser(e, &v, op, &d);
    let hit = d.m().faults > 0;
    let got = d.data();
    // unordered collections may be written in another order the second time
    let about = || format!("{} as {:?}: [{}] with {:?} ({:?}; chunks {:?})", e.name, op, hex(&want), f, fk, plan);
    ensure!(got.len() <= want.len() && got[..] == want[..got.len()], "{}: wrote [{}]", about(), hex(&got));
    cx.label(if hit { "fault met" } else if f == Fault::None { "no fault" } else { "fault not met" });
    match r {
        Ok(_) => {
            ensure!(!hit, "{}: reported as written although the sink failed", about());
            ensure!(got == want, "{}: only {} bytes were written", about(), got.len());
        }
        Err(k) => ensure!(hit && sink_error(&k, &f, fk), "{}: failed with {:?}", about(), k),
    }
    if let Fault::Offset(o) | Fault::Full(o) = f {
        ensure!(got.len() as u64 == o.min(want.len() as u64), "{}: wrote {} bytes", about(), got.len());
    }
    if hit || !plan.is_empty() && want.len() > 1 {
        cx.nontrivial(e.name.as_bytes());
        cx.nontrivial(&want);
        cx.nontrivial(format!("{:?}{:?}", f, plan).as_bytes());
        cx.desc(|| about());
    }
    Ok(())
}

fn put(s: &mut Stream<Dev>, e: &El, how: u64) -> Result<(), EK> {
    let st = |r: stream::Result<()>| r.map_err(|x| skind(&x));
    let ioe = |r: io::Result<()>| r.map_err(|x| skind(&stream::Error::Io(x)));
    match *e {
        El::Int(t, n) => st(s.write_u64(t, n)),
        El::Struct(t) => st(s.write_struct(t)),
        El::Enum(t, n) => st(s.write_enum(t, n)),
        El::End => st(s.write_end_struct()),
        El::Doc => st(s.write_end_doc()),
        El::Pad => st(s.write_padding()),
        El::Blob(t, ref b) if how % 2 == 0 => st(s.write_blob_data(t, b).map(|_| ())),
        El::Exc(ref b) if how % 2 == 0 => st(s.write_exception_data(b).map(|_| ())),
        El::Blob(t, ref b) => { let mut h = s.write_blob_alloc(t, b.len() as u64).map_err(|x| skind(&x))?; ioe(h.write_all(b)) }
        El::Exc(ref b) => { let mut h = s.write_exception_alloc(b.len() as u64).map_err(|x| skind(&x))?; ioe(h.write_all(b)) }
    }
}

/// Low-level writing to a failing sink.
fn sequence(src: &mut Src, cx: &mut Cx) -> Res {
    let n = src.range(1, 12);
    let els: Vec<(El, u64)> = (0..n).map(|_| { let e = any_el(src); (e, src.below(2)) }).collect();
    let mut want = vec![];
    for (e, _) in &els { e.bytes(&mut want); }
    let plan = gen::plan(src);
    let f = { let calls = want.len() as u64; sink_fault(src, calls / 2, calls) };
    let fk = *src.pick(&KINDS);
    let mut m = Mem::new(vec![]).with_plan(plan.clone()).with_fault(f.clone());
    m.fault_kind = fk;
    let d = Dev::new(m);
    let mut s = Stream::new(d.clone());
    let about = || format!("{:?} with {:?} ({:?}; chunks {:?})", els, f, fk, plan);
    let mut failed = false;
    for (e, how) in &els {
        let before = d.m().faults;
        let r = put(&mut s, e, *how);
        let hit = d.m().faults > before;
        match r {
            Ok(()) => ensure!(!hit, "{}: writing {:?} succeeded although the sink failed", about(), e),
            Err(k) => { ensure!(hit && sink_error(&k, &f, fk), "{}: writing {:?} failed with {:?}", about(), e, k); failed = true; }
        }
        let got = d.data();
        ensure!(got.len() <= want.len() && got[..] == want[..got.len()], "{}: wrote [{}] instead of a prefix of [{}]", about(), hex(&got), hex(&want));
        if failed { break; }
    }
    if !failed {
        s.commit().map_err(|x| format!("{}: commit: {}", about(), x))?;
        ensure!(d.data() == want, "{}: wrote [{}] instead of [{}]", about(), hex(&d.data()), hex(&want));
    }
    cx.label(if failed { "fault met" } else { "fault not met" });
    if failed || !plan.is_empty() { cx.nontrivial(&want); cx.nontrivial(format!("{:?}{:?}", f, plan).as_bytes()); cx.desc(|| about()); }
    Ok(())
}

/// Low-level reading from a failing source.
fn elements(src: &mut Src, cx: &mut Cx) -> Res {
    let b = if src.chance(1, 5) { gen::soup(src, 60) } else { super::c13::any_doc(src) };
    let how = src.below(3);
    let max = b.len() + 4;
    let plan = gen::plan(src);
    let clean = Dev::new(Mem::new(b.clone()).with_plan(plan.clone()));
    let want = drain(&mut Stream::new(clean.clone()), how, max);
    let (calls, bytes) = { let m = clean.m(); (m.reads, m.max_read) };
    let f = fault(src, calls, bytes);
    let fk = *src.pick(&KINDS);
    let mut m = Mem::new(b.clone()).with_plan(plan.clone()).with_fault(f.clone());
    m.fault_kind = fk;
    let d = Dev::new(m);
    let mut s = if src.coin() { Stream::new(d.clone()) } else { Stream::new_seek(d.clone()) };
    let mut got = drain(&mut s, how, max);
    let about = || format!("[{}] with {:?} ({:?}; chunks {:?}; blobs read in style {})", hex(&b), f, fk, plan, how);
    if d.m().faults > 0 {
        let ok = match got.last() {
            Some(Seen::Fail(k)) => match f { Fault::Zero(_) => matches!(k, EK::K(K::Stream(SK::Eof)) | EK::K(K::Stream(SK::Truncated(_)))), _ => injected(k, fk) },
            _ => false,
        };
        ensure!(ok, "{}: ends with {:?}", about(), got.last());
        got.pop();
        ensure!(want.len() >= got.len() && want[..got.len()] == got[..], "{}: differs from the fault-free run before the fault", about());
        cx.nontrivial(&b);
        cx.nontrivial(format!("{:?} {}", f, how).as_bytes());
        cx.desc(|| about());
        cx.label("fault met");
    } else {
        ensure!(got == want, "{}: differs from the fault-free run although no fault was met", about());
        cx.label("fault not met");
    }
    Ok(())
}

/// Dynamic and rewritten blobs on a failing sink: a fault is always reported,
/// at the latest by the commit.
fn blobs(src: &mut Src, cx: &mut Cx) -> Res {
    let mut pre = vec![];
    for _ in 0..src.below(3) { pre.push(any_el(src)); }
    let f = match src.below(5) {
        0 => Fault::Call(src.below(16)), 1 => Fault::Once(src.below(16)), 2 => Fault::Offset(src.below(60)), 3 => Fault::Full(src.below(60)), _ => Fault::Seek(src.below(5)) };
    let plan = if src.coin() { vec![] } else { gen::plan(src) };
    let fk = *src.pick(&KINDS);
    let mut m = Mem::new(vec![]).with_plan(plan.clone()).with_fault(f.clone());
    m.fault_kind = fk;
    let d = Dev::new(m);
    let mut s = Stream::new(d.clone());
    let tag = 1 + src.below(63) as u8;
    let exc = src.chance(1, 4);
    let data = src.bytes(50);
    let cuts = src.below(4);
    let rewrite = src.chance(1, 3);
    let about = || format!("{:?}, dynamic {} of {} bytes in {} pieces{} with {:?} ({:?}; chunks {:?})", pre, if exc { "exception" } else { "blob" }, data.len(), cuts + 1, if rewrite { " rewritten" } else { "" }, f, fk, plan);
    let mut want = vec![];
    let r: Result<(), EK> = (|| {
        for e in &pre { put(&mut s, e, 0)?; }
        let ioe = |x: io::Error| skind(&stream::Error::Io(x));
        {
            let mut h = if exc { s.write_exception_dynamic() } else { s.write_blob_dynamic(tag) }.map_err(|x| skind(&x))?;
            let mut at = 0;
            for _ in 0..cuts {
                let k = at + src.below((data.len() - at) as u64 + 1) as usize;
                h.write_all(&data[at..k]).map_err(ioe)?;
                at = k;
            }
            h.write_all(&data[at..]).map_err(ioe)?;
            if rewrite {
                h.seek(SeekFrom::Start(0)).map_err(ioe)?;
                h.write_all(&data).map_err(ioe)?;
            }
        }
        s.commit().map_err(|x| skind(&x))?;
        s.write_u64(1, 1).map_err(|x| skind(&x))?;
        s.commit().map_err(|x| skind(&x))
    })();
    for e in &pre { e.bytes(&mut want); }
    want.push(if exc { EXCEPTION } else { 0x80 | tag });
    let hdr = want.len();
    let hit = d.m().faults > 0;
    cx.label(if hit { "fault met" } else { "fault not met" });
    match r {
        Ok(()) => {
            ensure!(!hit, "{}: reported as written although the sink failed", about());
            // the length field is as wide as fixed-width integers are
            let mut s = Stream::new(d.clone());
            d.m().pos = 0;
            d.m().fault = Fault::None;
            let mut seen = drain(&mut s, 0, pre.len() + 2);
            ensure!(seen.len() == pre.len() + 2 && matches!(seen.pop(), Some(Seen::Int(1, _, _, 1))), "{}: reads back as {:?}", about(), seen);
            match seen.pop() {
                Some(Seen::Blob(t, p, _, ref v)) if !exc && t == tag && *v == data && p + 1 == hdr as u64 => {}
                Some(Seen::Exc(ref v)) if exc && *v == data => {}
                o => return Err(format!("{}: reads back as {:?}", about(), o)),
            }
        }
        Err(k) => {
            let ok = if f == Fault::Full(0) || matches!(f, Fault::Full(_)) { matches!(k, EK::Io(io::ErrorKind::WriteZero, _)) } else { injected(&k, fk) };
            ensure!(hit && ok, "{}: failed with {:?}", about(), k);
        }
    }
    if hit { cx.nontrivial(about().as_bytes()); cx.desc(|| about()); }
    Ok(())
}

/// A source that claims to be seekable but fails to seek is read instead.
fn seeks(src: &mut Src, cx: &mut Cx) -> Res {
    let e = pick_copy(src);
    let (_, mut d) = doc(src, e);
    let extra = src.range(1, 3);
    for _ in 0..extra {
        let n = d.count_bodies();
        let k = src.below(n as u64) as usize;
        d.with_body(k, &mut |b| {
            let mask = match b.known { Known::Tags(m) | Known::All(m) => m, Known::Opaque => 0 };
            let it = gen::unknown_item(src, mask, true);
            let at = src.below(b.items.len() as u64 + 1) as usize;
            b.items.insert(at, it);
        });
    }
    let b = to_bytes(&d);
    let mut c = config(false);
    c.max_collect = 1 << 40;
    let want = go(e, Way::Stream, &Dev::of(&b), &c);
    let plan = gen::plan(src);
    let mut m = Mem::new(b.clone()).with_plan(plan.clone());
    if src.coin() { m.seek_ok = false; } else { m.fault = Fault::Seek(src.below(4)); }
    m.fault_kind = *src.pick(&KINDS);
    let dev = Dev::new(m);
    let got = go(e, Way::StreamSeek, &dev, &c);
    let about = || format!("{}: [{}] (chunks {:?})", e.name, hex(&b), plan);
    ensure!(got == want, "{}: {:?} when seeking fails, {:?} without seeking", about(), got, want);
    if dev.m().seeks > 0 { cx.label("seeks failed"); cx.nontrivial(e.name.as_bytes()); cx.nontrivial(&b); cx.desc(|| about()); }
    // and element by element, leaving blobs unread or moving within them
    let mut m = Mem::new(b.clone()).with_plan(plan.clone());
    let refuse = src.below(5);
    m.fault = Fault::Seek(refuse);
    let dev = Dev::new(m);
    let mut s = Stream::new_seek(dev.clone());
    let mut t = Stream::from_slice(&b[..]);
    for _ in 0..60 {
        let a = s.next_element().map_err(|x| format!("{}: next_element with seeks failing after {}: {}", about(), refuse, x))?;
        let z = t.next_element().map_err(|x| format!("{}: next_element: {}", about(), x))?;
        match (a, z) {
            (Element::Field(f), Element::Field(g)) => {
                ensure!((f.tag, f.pos, f.depth) == (g.tag, g.pos, g.depth), "{}: field {} at {} instead of {} at {}", about(), f.tag, f.pos, g.tag, g.pos);
                if let (Value::Blob(mut p), Value::Blob(mut q)) = (f.value, g.value) {
                    ensure!(p.len() == q.len(), "{}: blob length", about());
                    let k = src.below(p.len() + 1);
                    let mut v = vec![0; k as usize];
                    let mut w = vec![0; k as usize];
                    p.read_exact(&mut v).map_err(|x| x.to_string())?;
                    q.read_exact(&mut w).map_err(|x| x.to_string())?;
                    ensure!(v == w, "{}: blob contents", about());
                    if src.chance(1, 3) {
                        let to = src.below(p.len() + 1);
                        let was = p.inner_pos();
                        if p.seek(SeekFrom::Start(to)).is_err() {
                            ensure!(p.inner_pos() == was && p.stream_pos() == dev.pos(), "{}: a failed seek moved the handle", about());
                        } else {
                            ensure!(p.inner_pos() == to && p.stream_pos() == dev.pos(), "{}: seek to {} led to {}", about(), to, p.inner_pos());
                        }
                    }
                }
            }
            (Element::Exception(_), Element::Exception(_)) | (Element::EndOfStruct, Element::EndOfStruct) | (Element::Padding, Element::Padding) => {}
            (Element::EndOfDoc, Element::EndOfDoc) => break,
            _ => return Err(format!("{}: elements differ", about())),
        }
        if t.pos() >= b.len() as u64 { break; }
    }
    Ok(())
}
