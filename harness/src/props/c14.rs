//! The result does not depend on how the input is delivered.
//! technique: differential property-based testing of entry points and delivery schedules against each other
use super::*;
use fourleaf::stream::{Element, Value};
use std::io::{Cursor, Read};

pub fn prop() -> Prop {
    Prop {
        id: "C14",
        rule: "a case counts as non-trivial when the input has at least two bytes and is decoded in at least two ways, or delivered in pieces; distinct by type, limits, ways and bytes",
        facets: vec![
            facet("ways", ways, 1_050_000, 30_000_000),
            facet("elements", elements, 750_000, 20_000_000),
            facet("context", context, 600_000, 15_000_000),
            big!("big-ways", ways, 300, 6_000),
            big!("big-elements", elements, 300, 6_000),
            big!("big-context", context, 300, 6_000),
        ],
    }
}

/// Valid, slightly damaged or arbitrary input for a type.
pub fn input(src: &mut Src, cx: &mut Cx, e: &Entry) -> Vec<u8> {
    match src.below(8) {
        0 => { cx.label("soup"); let mut b = gen::soup(src, 30); for _ in 0..src.below(4) { b.push(0); } b }
        k => {
            let (_, mut d) = doc(src, e);
            if k < 4 { for _ in 0..src.range(1, 3) { gen::mutate(src, &mut d); } }
            let mut b = vec![];
            if src.coin() { let mut n = Random { src, den: 6, wide: true, applied: 0 }; write_body(&d, &mut n, &mut b); } else { b = to_bytes(&d); }
            if k == 4 { gen::mutate_bytes(src, &mut b); }
            if k == 5 { let n = src.below(b.len() as u64 + 1) as usize; b.truncate(n); }
            cx.label(match k { 1..=3 => "mutated", 4 => "byte changed", 5 => "cut", _ => "valid" });
            b
        }
    }
}

/// A random configuration, often with tight limits.
pub fn any_config(src: &mut Src) -> Config {
    let mut c = config(src.coin());
    if src.chance(1, 3) { c.max_blob = src.below(40) as usize; }
    if src.chance(1, 3) { c.max_collect = src.below(12) as usize; }
    if src.chance(1, 4) { c.recursion_limit = src.below(8) as usize; }
    c
}

/// Truncation is reported by whoever meets it first; both kinds are one here.
fn norm(k: EK) -> EK {
    k
}

struct Out { res: Result<Val, (EK, String)>, pos: Option<u64> }

fn run(e: &Entry, w: Way, b: &[u8], c: &Config, plan: &[u8], fence: bool) -> (Out, Option<Dev>) {
    let dev = || {
        let mut m = Mem::new(b.to_vec()).with_plan(plan.to_vec());
        if fence { m.fault = Fault::Offset(b.len() as u64); }
        Dev::new(m)
    };
    let fin = |r: de::Result<Val>, pos: Option<u64>| Out {
        res: r.map(|v| v.strip()).map_err(|x| { let (k, p) = kind(&x); (norm(k), p) }), pos };
    match w {
        Way::Slice => (fin((e.de_slice.unwrap())(b, c), None), None),
        Way::Borrow => (fin((e.de_borrow)(b, c).map(|v| v.0), None), None),
        Way::BorrowStream => match (e.de_borrow_stream)(b, false, c) {
            Ok((v, p)) => (fin(Ok(v), Some(p)), None),
            Err(x) => (fin(Err(x), None), None),
        },
        Way::Reader | Way::ReaderRef => {
            let d = dev();
            let r = (e.de_reader.unwrap())(d.clone(), c);
            let p = if r.is_ok() { Some(d.pos()) } else { None };
            (fin(r, p), Some(d))
        }
        Way::Stream | Way::StreamSeek | Way::StreamBox => {
            let d = dev();
            let mut s = if w == Way::StreamSeek { Stream::new_seek(d.clone()) } else { Stream::new(d.clone()) };
            let op = if w == Way::StreamBox { DeOp::BodyBox } else { DeOp::Body };
            let r = (e.de_stream.unwrap())(&mut s, op, c);
            let p = if r.is_ok() { Some(s.pos()) } else { None };
            (fin(r, p), Some(d))
        }
    }
}

fn show(r: &Result<Val, (EK, String)>) -> String {
    match r { Ok(v) => short(v), Err((k, p)) => format!("{:?} at {}", k, p) }
}

fn ways(src: &mut Src, cx: &mut Cx) -> Res {
    let e = pick_entry(src);
    let mut b = input(src, cx, e);
    let body = b.len();
    if src.coin() { b.extend(src.bytes(6)); }
    let mut c = any_config(src);
    // copied and borrowed data are charged differently
    let zero = src.chance(1, 3) || e.de_slice.is_none();
    if zero { c.max_blob = usize::MAX; }
    let list: Vec<Way> = WAYS.iter().copied().filter(|&w| has_way(e, w) && (zero || !matches!(w, Way::Borrow | Way::BorrowStream))).collect();
    let base = list[src.below(list.len() as u64) as usize];
    let (a, _) = run(e, base, &b, &c, &[], false);
    let a_canon = a.res.as_ref().map(|v| canon(&e.copy, v)).map_err(|x| x.clone());
    cx.label(if a.res.is_ok() { "accepted" } else { "rejected" });
    let mut tried = 0;
    let mut pos = a.pos;
    for &w in &list {
        if list.len() > 3 && !src.coin() { continue; }
        tried += 1;
        let plan = gen::plan(src);
        let (o, d) = run(e, w, &b, &c, &plan, false);
        let o_canon = o.res.as_ref().map(|v| canon(&e.copy, v)).map_err(|x| x.clone());
        ensure!(a_canon == o_canon, "{}: [{}] gives {} via {:?} but {} via {:?} (chunks {:?}; limits {} {} {} strict {})", e.name, hex(&b), show(&a.res), base, show(&o.res), w, plan,
            c.recursion_limit, c.max_blob, c.max_collect, !c.ignore_unknown_fields);
        if let (Some(p), Some(q)) = (pos, o.pos) { ensure!(p == q, "{}: [{}] consumed {} bytes one way but {} via {:?} (chunks {:?})", e.name, hex(&b), p, q, w, plan); }
        pos = pos.or(o.pos);
        if let (Some(ref d), true) = (&d, o.res.is_ok()) {
            let m = d.m();
            let p = o.pos.unwrap();
            ensure!(m.max_read <= p && m.pos == p, "{}: [{}] via {:?}: the value ends at {} but the source was read up to {} and left at {}", e.name, hex(&b), w, p, m.max_read, m.pos);
            ensure!(m.eof_reads == 0, "{}: [{}] via {:?}: the source was asked for more than the value", e.name, hex(&b), w);
        }
    }
    if let (Ok(_), Some(p)) = (&a.res, pos) {
        // a source that fails beyond the value, and one that is no longer
        let p = p as usize;
        if p <= body && e.de_reader.is_some() {
            let w = *src.pick(&[Way::Reader, Way::Stream, Way::StreamSeek, Way::StreamBox]);
            let plan = gen::plan(src);
            let (o, _) = run(e, w, &b[..p], &c, &plan, true);
            let o_canon = o.res.as_ref().map(|v| canon(&e.copy, v)).map_err(|x| x.clone());
            ensure!(a_canon == o_canon, "{}: [{}] gives {} but, when the source fails past the value, {} via {:?}", e.name, hex(&b[..p]), show(&a.res), show(&o.res), w);
            tried += 1;
        }
    }
    cx.evals(tried);
    if b.len() >= 2 && tried > 0 {
        cx.nontrivial(e.name.as_bytes());
        cx.nontrivial(&b);
        cx.nontrivial(format!("{:?} {} {} {}", base, c.max_blob, c.max_collect, tried).as_bytes());
        cx.desc(|| format!("{}: [{}] {} ways -> {}", e.name, hex(&b), tried, show(&a.res)));
    }
    Ok(())
}

/// What a low-level reader sees.
#[derive(Clone, Debug, PartialEq)]
pub enum Seen {
    Int(u8, u64, u64, u64),
    Blob(u8, u64, u64, Vec<u8>),
    Struct(u8, u64, u64),
    Enum(u8, u64, u64, u64),
    End,
    Doc,
    Pad,
    Exc(Vec<u8>),
    Fail(EK),
}

/// Reads all elements, blobs with `how`.
pub fn drain<R: Read>(s: &mut Stream<R>, how: u64, max: usize) -> Vec<Seen> {
    let mut out = vec![];
    let slurp = |b: &mut stream::Blob<R>| -> Result<Vec<u8>, EK> {
        match how {
            0 => b.read_fully(usize::MAX).map_err(|e| skind(&e)),
            1 => { // in pieces
                let mut v = vec![];
                let mut buf = [0u8; 7];
                loop {
                    match b.read(&mut buf) {
                        Ok(0) => break,
                        Ok(n) => v.extend_from_slice(&buf[..n]),
                        Err(ref e) if e.kind() == io::ErrorKind::Interrupted => {}
                        Err(e) => return Err(skind(&stream::Error::Io(e))),
                    }
                }
                if b.remaining() > 0 { return Err(EK::K(K::Stream(SK::Truncated(b.remaining())))); }
                Ok(v)
            }
            _ => {
                let mut v = vec![];
                while b.remaining() > 0 {
                    let got = b.read_or_trunc(13).map_err(|e| skind(&e))?;
                    if got.is_empty() { return Err(EK::K(K::Stream(SK::Truncated(b.remaining())))); }
                    v.extend(got);
                }
                Ok(v)
            }
        }
    };
    while out.len() < max {
        let el = match s.next_element() {
            Ok(Element::Field(mut f)) => {
                let (t, p, d) = (f.tag, f.pos, f.depth);
                match f.value {
                    Value::Integer(n) => Seen::Int(t, p, d, n),
                    Value::Blob(ref mut b) => match slurp(b) { Ok(v) => Seen::Blob(t, p, d, v), Err(k) => Seen::Fail(k) },
                    Value::Struct(_) => Seen::Struct(t, p, d),
                    Value::Enum(n, _) => Seen::Enum(t, p, d, n),
                }
            }
            Ok(Element::Exception(mut b)) => match slurp(&mut b) { Ok(v) => Seen::Exc(v), Err(k) => Seen::Fail(k) },
            Ok(Element::EndOfStruct) => Seen::End,
            Ok(Element::EndOfDoc) => { s.clear_eof(); Seen::Doc }
            Ok(Element::Padding) => Seen::Pad,
            Err(e) => Seen::Fail(skind(&e)),
        };
        let stop = matches!(el, Seen::Fail(_));
        out.push(el);
        if stop { break; }
    }
    out
}

fn elements(src: &mut Src, cx: &mut Cx) -> Res {
    let mut b = if src.chance(1, 4) { gen::soup(src, 60) } else { super::c13::any_doc(src) };
    if src.chance(1, 4) { gen::mutate_bytes(src, &mut b); }
    if src.chance(1, 4) { let n = src.below(b.len() as u64 + 1) as usize; b.truncate(n); }
    let max = b.len() + 4;
    let a = drain(&mut Stream::from_slice(&b[..]), 0, max);
    for _ in 0..2 {
        let how = src.below(3);
        let plan = gen::plan(src);
        let (o, what) = match src.below(5) {
            0 => (drain(&mut Stream::new(Cursor::new(&b)), how, max), "cursor"),
            1 => (drain(&mut Stream::new(io::BufReader::with_capacity(1 + src.below(9) as usize, Cursor::new(&b))), how, max), "buffered cursor"),
            2 => (drain(&mut Stream::new_seek(Cursor::new(&b)), how, max), "seeking cursor"),
            3 => (drain(&mut Stream::new(Dev::new(Mem::new(b.clone()).with_plan(plan.clone()))), how, max), "device"),
            _ => (drain(&mut Stream::new_seek(Dev::new(Mem::new(b.clone()).with_plan(plan.clone()))), how, max), "seeking device"),
        };
        cx.label(what);
        cx.evals(1);
        let at = a.iter().zip(&o).position(|(x, y)| x != y).unwrap_or(a.len().min(o.len()));
        ensure!(a == o, "[{}]: element {} is {:?} from a slice but {:?} from a {} (chunks {:?}, blobs read in style {})", hex(&b), at, a.get(at), o.get(at), what, plan, how);
    }
    if b.len() >= 2 { cx.nontrivial(&b); cx.desc(|| format!("[{}]: {} elements", hex(&b), a.len())); }
    Ok(())
}

/// One value as a field or element, delivered in different ways.
fn context(src: &mut Src, cx: &mut Cx) -> Res {
    let e = pick_copy(src);
    let tag = 1 + src.below(5) as u8;
    let b = {
        let mut d = Body::new(Known::Opaque);
        for _ in 0..src.range(1, 2) {
            let v = canon(&e.copy, &gen::val(src, &e.copy));
            if e.no_field || src.chance(1, 4) { d.items.push(Item::Field(tag, enc_elem(&e.copy, &v))); }
            else { enc_field(&e.copy, &v, tag, &mut d.items); }
        }
        if src.coin() { gen::mutate(src, &mut d); }
        let mut b = to_bytes(&d);
        if src.chance(1, 5) { gen::mutate_bytes(src, &mut b); }
        b
    };
    let c = any_config(src);
    let op = if e.no_field || src.coin() { DeOp::Elem } else { DeOp::Field(tag) };
    let mut first: Option<(Result<Val, (EK, String)>, u64)> = None;
    for _ in 0..3 {
        let plan = if first.is_none() { vec![] } else { gen::plan(src) };
        let mut m = Mem::new(b.clone()).with_plan(plan.clone());
        let seek = src.coin();
        if seek && src.coin() { m.seek_ok = false; }
        let d = Dev::new(m);
        let mut s = if seek { Stream::new_seek(d.clone()) } else { Stream::new(d.clone()) };
        let r = (e.de_stream.unwrap())(&mut s, op, &c).map(|v| canon(&e.copy, &v.strip())).map_err(|x| { let (k, p) = kind(&x); (norm(k), p) });
        let p = s.pos();
        ensure!(r.is_err() || d.m().max_read == p && d.m().eof_reads == 0, "{} as {:?} from [{}]: read up to {}, stream at {}", e.name, op, hex(&b), d.m().max_read, p);
        match first {
            None => first = Some((r, p)),
            Some((ref a, q)) => {
                ensure!(*a == r, "{} as {:?}: [{}] gives {} from one piece but {} in chunks {:?} (seeking {})", e.name, op, hex(&b), show(a), show(&r), plan, seek);
                ensure!(a.is_err() || p == q, "{} as {:?}: [{}] ends at {} or {}", e.name, op, hex(&b), p, q);
            }
        }
    }
    cx.evals(2);
    if b.len() >= 2 {
        cx.nontrivial(e.name.as_bytes());
        cx.nontrivial(&b);
        cx.desc(|| format!("{} as {:?} from [{}]: {}", e.name, op, hex(&b), show(&first.as_ref().unwrap().0)));
    }
    Ok(())
}
