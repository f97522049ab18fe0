//! Skipping and position tracking.
//! technique: stateful (model-based) property-based testing of reading and skipping sequences against an element-level model
use super::*;
use super::c10::any_el;
use super::c11::Rd;
use fourleaf::stream::{Blob, Element, Field, Value};
use std::io::{Cursor, Read, Seek, SeekFrom};

pub fn prop() -> Prop {
    Prop {
        id: "C13",
        rule: "a case counts as non-trivial when something is skipped (a field, a blob left unread, or up to a depth); distinct by source kind, document and operations",
        facets: vec![
            facet("walk", walk, 1_800_000, 50_000_000),
            facet("broken", broken, 900_000, 20_000_000),
            facet("same", same, 750_000, 20_000_000),
            facet("wide", wide, 300_000, 10_000_000),
            big!("big-walk", walk, 300, 6_000),
            big!("big-same", same, 300, 6_000),
        ],
    }
}

/// Element-level model of a reading stream.
pub struct Model<'a> { pub rs: RS<'a>, pub depth: u64, pub blob_start: u64 }

#[derive(Clone, Debug, PartialEq)]
pub enum MEl {
    Field { tag: u8, pos: u64, depth: u64, kind: RK },
    End,
    Doc,
    Pad,
    Exc(u64),
}

impl<'a> Model<'a> {
    pub fn new(b: &'a [u8]) -> Self { Model { rs: RS::new(b), depth: 0, blob_start: 0 } }
    pub fn next(&mut self) -> Result<MEl, SK> {
        if self.rs.eof { self.depth = 0; return Ok(MEl::Doc); }
        Ok(match self.rs.next()? {
            RItem::Field { tag, pos, kind } => {
                if self.depth == 0 { self.depth = 1; }
                let depth = self.depth;
                if matches!(kind, RK::Struct | RK::Enum(_)) { self.depth += 1; }
                self.blob_start = self.rs.pos;
                MEl::Field { tag, pos, depth, kind }
            }
            RItem::EndStruct => { self.depth = self.depth.saturating_sub(1); MEl::End }
            RItem::EndDoc => { self.depth = 0; MEl::Doc }
            RItem::Pad => MEl::Pad,
            RItem::Exc(n) => { self.blob_start = self.rs.pos; MEl::Exc(n) }
        })
    }
    pub fn field(&mut self) -> Result<Option<MEl>, SK> {
        loop {
            match self.next()? {
                MEl::Pad => {}
                MEl::End | MEl::Doc => return Ok(None),
                MEl::Exc(n) => {
                    let avail = self.rs.b.len() as u64 - self.rs.pos;
                    let k = n.min(256).min(avail);
                    let m = String::from_utf8_lossy(&self.rs.b[self.rs.pos as usize..(self.rs.pos + k) as usize]).into_owned();
                    self.rs.pos += k;
                    return Err(SK::Exception(m));
                }
                f => return Ok(Some(f)),
            }
        }
    }
    pub fn skip_up(&mut self, d: u64) -> Result<(), SK> {
        while self.depth > d { self.next()?; }
        Ok(())
    }
}

/// A document with everything that may occur in one.
pub fn any_doc(src: &mut Src) -> Vec<u8> {
    let mut out = vec![];
    if src.chance(1, 4) {
        for _ in 0..src.range(1, 10) { any_el(src).bytes(&mut out); }
        return out;
    }
    for _ in 0..src.range(1, 3) {
        let mut d = Body::new(Known::Opaque);
        for _ in 0..src.range(1, 4) {
            let it = if src.chance(1, 3) { gen::unknown_item(src, 0, true) } else { gen::any_item(src, 0) };
            d.items.push(it);
        }
        let special = src.below(4);
        if special > 0 {
            d.visit_bodies(&mut |b| {
                if src.chance(1, 3) {
                    let at = src.below(b.items.len() as u64 + 1) as usize;
                    let it = match src.below(8) { 0 if special == 1 => Item::EndDoc, 1 | 2 | 3 => Item::Exc(src.bytes(20)), 4 if src.coin() => Item::Exc(src.bytes_n(300)), _ => Item::Pad };
                    b.items.insert(at, it);
                }
            });
        }
        if src.coin() { let mut n = Random { src, den: 6, wide: true, applied: 0 }; write_body(&d, &mut n, &mut out); }
        else { write_body(&d, &mut Plain, &mut out); }
        if src.chance(1, 6) { out.push(END_DOC); }
    }
    out
}

fn walk(src: &mut Src, cx: &mut Cx) -> Res {
    let b = any_doc(src);
    source(src, cx, &b)
}
fn broken(src: &mut Src, cx: &mut Cx) -> Res {
    let mut b = if src.coin() { any_doc(src) } else { gen::soup(src, 80) };
    if src.coin() { let n = src.below(b.len() as u64 + 1) as usize; b.truncate(n); }
    if src.coin() { gen::mutate_bytes(src, &mut b); }
    if src.chance(1, 6) {
        // a blob far longer than the input
        b.push(if src.coin() { 0x80 } else { 0x81 });
        put_uint(src.uint(64), &mut b);
        for _ in 0..src.below(3) { any_el(src).bytes(&mut b); }
    }
    source(src, cx, &b)
}

fn source(src: &mut Src, cx: &mut Cx, b: &[u8]) -> Res {
    match src.below(7) {
        0 => drive(src, cx, b, Stream::from_slice(b), "slice"),
        1 => drive(src, cx, b, Stream::new_seek(Cursor::new(b)), "seeking cursor"),
        2 => drive(src, cx, b, Stream::new(Cursor::new(b)), "cursor"),
        k => {
            let mut m = Mem::new(b.to_vec()).with_plan(gen::plan(src));
            if k == 3 || k == 4 { m = m.no_seek(); }
            let d = Dev::new(m);
            match k {
                3 => drive(src, cx, b, Stream::new_seek(d), "seeking unseekable device"),
                4 => drive(src, cx, b, Stream::new(d), "unseekable device"),
                5 => drive(src, cx, b, Stream::new_seek(d), "seeking device"),
                _ => drive(src, cx, b, Stream::new(d), "device"),
            }
        }
    }
}

fn err_same(e: &stream::Error, k: &SK) -> bool { skind(e) == EK::K(K::Stream(k.clone())) }

fn drive<R: Rd>(src: &mut Src, cx: &mut Cx, bytes: &[u8], mut s: Stream<R>, kind: &'static str) -> Res {
    cx.label(kind);
    let mut m = Model::new(bytes);
    let graceful = src.chance(1, 3);
    s.set_graceful_eof(graceful);
    m.rs.graceful = graceful;
    ensure!(s.graceful_eof() == graceful, "graceful_eof() is {}", s.graceful_eof());
    let dev = s.get_ref().dev();
    let mut log = format!("{} over [{}]{}", kind, hex(bytes), if graceful { " graceful" } else { "" });
    if src.chance(1, 4) {
        // counting from another position
        m.rs.base = src.uint(62);
        log.push_str(&format!(" from {}", m.rs.base));
        if src.coin() { s.set_pos(m.rs.base); } else { s.reset_pos(m.rs.base).map_err(|e| format!("{}: {}", log, e))?; }
    }
    let mut starts: Vec<(u64, u64)> = vec![(0, 0)];
    let mut skipped = false;
    let nops = src.range(1, 40);
    for _ in 0..nops {
        let got = (s.pos(), s.struct_depth(), s.eof());
        let want = (m.rs.base + m.rs.pos, m.depth, m.rs.eof);
        ensure!(got == want, "{}: (pos, depth, eof) = {:?} instead of {:?}", log, got, want);
        if let Some(ref d) = dev { ensure!(d.pos() == m.rs.pos, "{}: device at {} instead of {}", log, d.pos(), m.rs.pos); }
        if !m.rs.eof && m.rs.pending <= m.rs.pos { starts.push((m.rs.pos, m.depth)); }
        let pending = m.rs.pending > m.rs.pos;
        match src.below(17) {
            0..=4 => {
                log.push_str("; next_field");
                skipped |= pending;
                match (s.next_field(), m.field()) {
                    (Ok(Some(f)), Ok(Some(e))) => if !field(src, cx, &mut log, &mut m, f, e, &mut skipped)? { return Ok(()); },
                    (Ok(None), Ok(None)) => {}
                    (Err(ref e), Err(ref k)) if err_same(e, k) => if !matches!(k, SK::Exception(_)) { return over(cx, &log, skipped); },
                    (a, b) => return Err(format!("{}: {:?} instead of {:?}", log, a.map(|f| f.map(|f| (f.tag, f.pos, f.depth))).map_err(|e| e.to_string()), b)),
                }
            }
            5..=9 => {
                log.push_str("; next_element");
                skipped |= pending;
                match (s.next_element(), m.next()) {
                    (Ok(Element::Field(f)), Ok(e @ MEl::Field { .. })) => if !field(src, cx, &mut log, &mut m, f, e, &mut skipped)? { return Ok(()); },
                    (Ok(Element::Exception(b)), Ok(MEl::Exc(n))) => if !partial(src, &mut log, &mut m, b, n)? { return over(cx, &log, skipped); },
                    (Ok(Element::EndOfStruct), Ok(MEl::End)) | (Ok(Element::EndOfDoc), Ok(MEl::Doc)) | (Ok(Element::Padding), Ok(MEl::Pad)) => {}
                    (Err(ref e), Err(ref k)) if err_same(e, k) => return over(cx, &log, skipped),
                    (a, b) => {
                        let a = match a { Ok(Element::Field(f)) => format!("field {} at {} depth {}", f.tag, f.pos, f.depth), Ok(Element::Exception(b)) => format!("exception of {}", b.len()), Ok(Element::EndOfStruct) => "end".into(), Ok(Element::EndOfDoc) => "end of document".into(), Ok(Element::Padding) => "padding".into(), Err(e) => e.to_string() };
                        return Err(format!("{}: {} instead of {:?}", log, a, b));
                    }
                }
            }
            10 => {
                let d = src.below(m.depth + 2);
                log.push_str(&format!("; skip_up({})", d));
                skipped |= m.depth > d;
                match (s.skip_up(d), m.skip_up(d)) {
                    (Ok(()), Ok(())) => {}
                    (Err(ref e), Err(ref k)) if err_same(e, k) => return over(cx, &log, skipped),
                    (a, b) => return Err(format!("{}: {:?} instead of {:?}", log, a.map_err(|e| e.to_string()), b)),
                }
            }
            11 => {
                log.push_str("; commit");
                skipped |= pending;
                match (s.commit(), m.rs.commit()) {
                    (Ok(()), Ok(())) => {}
                    (Err(ref e), Err(ref k)) if err_same(e, k) => return over(cx, &log, skipped),
                    (a, b) => return Err(format!("{}: {:?} instead of {:?}", log, a.map_err(|e| e.to_string()), b)),
                }
            }
            12 => {
                let (p, deep) = *src.pick(&starts);
                let seekable = dev.as_ref().map_or(true, |d| d.m().seek_ok);
                if !seekable { continue; }
                let w = match src.below(3) {
                    0 => SeekFrom::Start(p),
                    1 => SeekFrom::End(p as i64 - bytes.len() as i64),
                    // relative to the end of a blob left unread
                    _ => { if m.rs.pending > bytes.len() as u64 { continue; } SeekFrom::Current(p as i64 - m.rs.pending.max(m.rs.pos) as i64) }
                };
                log.push_str(&format!("; seek({:?})", w));
                match (s.seek(w), m.rs.commit()) {
                    (Ok(q), Ok(())) => {
                        ensure!(q == p, "{}: returned {} instead of {}", log, q, p);
                        m.rs.pos = p;
                        m.rs.pending = 0;
                        m.rs.base = 0;
                        m.depth = 0;
                        if src.coin() {
                            // back to the depth that belongs there
                            log.push_str(&format!("; set_struct_depth({})", deep));
                            s.set_struct_depth(deep);
                            m.depth = deep;
                        }
                    }
                    (Err(ref e), Err(ref k)) if err_same(e, k) => return over(cx, &log, skipped),
                    (a, b) => return Err(format!("{}: {:?} instead of {:?}", log, a.map_err(|e| e.to_string()), b)),
                }
            }
            13 => {
                // around the stream
                let (p, _) = *src.pick(&starts);
                let seekable = dev.as_ref().map_or(true, |d| d.m().seek_ok);
                if !seekable { continue; }
                log.push_str(&format!("; commit; get_mut().seek({})", p));
                skipped |= pending;
                match (s.commit(), m.rs.commit()) {
                    (Ok(()), Ok(())) => {}
                    (Err(ref e), Err(ref k)) if err_same(e, k) => return over(cx, &log, skipped),
                    (a, b) => return Err(format!("{}: {:?} instead of {:?}", log, a.map_err(|e| e.to_string()), b)),
                }
                s.get_mut().seek(SeekFrom::Start(p)).map_err(|e| format!("{}: {}", log, e))?;
                let base = if src.coin() { m.rs.base } else { src.uint(62) };
                log.push_str(&format!("; set_pos({})", base + p));
                s.set_pos(base + p);
                m.rs.pos = p;
                m.rs.pending = 0;
                m.rs.base = base;
            }
            14 => {
                let base = src.uint(62);
                skipped |= pending;
                match m.rs.commit() {
                    Ok(()) => {
                        log.push_str(&format!("; reset_pos({})", base + m.rs.pos));
                        s.reset_pos(base + m.rs.pos).map_err(|e| format!("{}: {}", log, e))?;
                        m.rs.base = base;
                        m.rs.pending = 0;
                    }
                    Err(ref k) => {
                        log.push_str("; reset_pos(0)");
                        match s.reset_pos(0) {
                            Err(ref e) if err_same(e, k) => return over(cx, &log, skipped),
                            a => return Err(format!("{}: {:?} instead of {:?}", log, a.map_err(|e| e.to_string()), k)),
                        }
                    }
                }
            }
            _ => { if m.rs.eof { log.push_str("; clear_eof"); s.clear_eof(); m.rs.eof = false; } }
        }
    }
    let got = (s.pos(), s.struct_depth(), s.eof());
    let want = (m.rs.base + m.rs.pos, m.depth, m.rs.eof);
    ensure!(got == want, "{}: (pos, depth, eof) = {:?} instead of {:?}", log, got, want);
    over(cx, &log, skipped)
}

fn over(cx: &mut Cx, log: &str, skipped: bool) -> Res {
    if skipped { cx.nontrivial(log.as_bytes()); cx.desc(|| log.to_string()); }
    Ok(())
}

/// What is done with a field; false when the stream cannot be used further.
fn field<R: Rd>(src: &mut Src, cx: &mut Cx, log: &mut String, m: &mut Model, f: Field<R>, e: MEl, skipped: &mut bool) -> Result<bool, String> {
    let (tag, pos, depth, kind) = match e { MEl::Field { tag, pos, depth, kind } => (tag, pos, depth, kind), _ => unreachable!() };
    let k = match f.value { Value::Integer(n) => RK::Int(n), Value::Blob(ref b) => RK::Blob(b.len()), Value::Struct(_) => RK::Struct, Value::Enum(n, _) => RK::Enum(n) };
    let pos = m.rs.base + pos;
    ensure!((f.tag, f.pos, f.depth, k) == (tag, pos, depth, kind), "{}: field {:?} instead of {:?}", log, (f.tag, f.pos, f.depth, k), (tag, pos, depth, kind));
    if src.chance(1, 3) {
        log.push_str("; skip");
        *skipped = true;
        let r = f.skip();
        let w = if matches!(kind, RK::Struct | RK::Enum(_)) { m.skip_up(depth) } else { Ok(()) };
        return match (r, w) {
            (Ok(()), Ok(())) => Ok(true),
            (Err(ref e), Err(ref k)) if err_same(e, k) => { over(cx, log, true)?; Ok(false) }
            (a, b) => Err(format!("{}: {:?} instead of {:?}", log, a.map_err(|e| e.to_string()), b)),
        };
    }
    match f.value {
        Value::Blob(b) => { let n = b.len(); partial(src, log, m, b, n) }
        _ => Ok(true),
    }
}

/// Reads part of a blob or moves about in it.
fn partial<R: Rd>(src: &mut Src, log: &mut String, m: &mut Model, mut b: Blob<R>, len: u64) -> Result<bool, String> {
    ensure!(b.len() == len, "{}: blob of {} instead of {}", log, b.len(), len);
    let n = src.below(3);
    for _ in 0..n {
        let here = m.rs.pos;
        let rem = m.rs.pending - here;
        let have = rem.min((m.rs.b.len() as u64).saturating_sub(here));
        match src.below(3) {
            0 | 1 => {
                let k = src.below(have.min(600) + 1);
                log.push_str(&format!("; read {}", k));
                let mut buf = vec![0; k as usize];
                b.read_exact(&mut buf).map_err(|e| format!("{}: {}", log, e))?;
                ensure!(buf[..] == m.rs.b[here as usize..(here + k) as usize], "{}: got [{}]", log, hex(&buf));
                m.rs.pos += k;
            }
            _ => {
                // staying within what is there
                let at = here - m.blob_start;
                let p = src.below(at + have + 1);
                log.push_str(&format!("; blob.seek({})", p));
                if let Ok(q) = b.seek(SeekFrom::Start(p)) {
                    ensure!(q == p, "{}: returned {}", log, q);
                    m.rs.pos = m.blob_start + p;
                }
            }
        }
        ensure!(b.stream_pos() == m.rs.base + m.rs.pos && b.start_pos() == m.rs.base + m.blob_start && b.end_pos() == b.start_pos() + len && b.inner_pos() == m.rs.pos - m.blob_start, "{}: handle at {} in {}..{}", log, b.stream_pos(), b.start_pos(), b.end_pos());
        ensure!(b.remaining() == m.rs.pending - m.rs.pos, "{}: {} remaining instead of {}", log, b.remaining(), m.rs.pending - m.rs.pos);
    }
    Ok(true)
}

/// Skipping a field leads to where reading all of it leads.
fn same(src: &mut Src, cx: &mut Cx) -> Res {
    let mut b = vec![];
    let n = src.range(1, 4);
    let mut first = vec![];
    let it = gen::unknown_item(src, 0, true);
    let mut d = Body::new(Known::Opaque);
    d.items.push(it);
    { let mut n = Random { src, den: 6, wide: true, applied: 0 }; write_items(&d.items, &mut n, &mut first); }
    b.extend_from_slice(&first);
    for _ in 0..n { let e = any_el(src); e.bytes(&mut b); }
    let dev = Dev::new(Mem::new(b.clone()).with_plan(gen::plan(src)));
    let mut s = if src.coin() { Stream::new(dev.clone()) } else { Stream::new_seek(dev.clone()) };
    if src.chance(1, 3) { dev.m().seek_ok = false; }
    let about = || format!("[{}]", hex(&b));
    let how = src.below(3);
    {
        let f = s.next_field().map_err(|e| format!("{}: {}", about(), e))?.ok_or("no field")?;
        let depth = f.depth;
        match how {
            0 => f.skip().map_err(|e| format!("{}: skip: {}", about(), e))?,
            _ => { drop(f);
                let k = if how == 1 { 0 } else { src.below(8) };
                for _ in 0..k {
                    if s.struct_depth() <= depth { break; }
                    s.next_field().map_err(|e| format!("{}: {}", about(), e))?;
                }
                s.skip_up(depth).map_err(|e| format!("{}: skip_up({}): {}", about(), depth, e))?;
            }
        }
    }
    ensure!(s.struct_depth() == 1, "{}: depth {} after skipping the first field", about(), s.struct_depth());
    s.commit().map_err(|e| format!("{}: {}", about(), e))?;
    ensure!(s.pos() == first.len() as u64 && dev.pos() == s.pos(), "{}: at {} after skipping {} bytes", about(), s.pos(), first.len());
    if first.len() > 3 { cx.nontrivial(&b); cx.nontrivial(&[how as u8]); cx.desc(|| format!("skip the first {} bytes of {}", first.len(), about())); }
    Ok(())
}

/// What `wide` does to a blob longer than memory: where its contents begin and
/// end in the short document and in the real one.
struct Giant { at: u64, end: u64, real: u64, real_end: u64 }
fn real(g: &[Giant], p: u64) -> u64 {
    let mut d = 0u64;
    for x in g {
        if p < x.at { break; }
        d = if p < x.end { x.real - x.at } else { x.real_end - x.end };
    }
    p + d
}

/// Documents with blobs of billions of bytes, passed over by seeking.
fn wide(src: &mut Src, cx: &mut Cx) -> Res {
    use super::c10::{tag, El};
    let mut short = vec![];
    let mut segs: Vec<(u64, Vec<u8>)> = vec![(0, vec![])];
    let mut at = 0u64; // position in the real document
    let mut giants: Vec<Giant> = vec![];
    for _ in 0..src.range(1, 12) {
        if giants.len() < 3 && src.chance(1, 4) {
            let unit = 1u64 << *src.pick(&[32u32, 32, 31, 33, 36, 40, 48, 60]);
            let len = unit * src.range(1, 3) as u64 + src.below(20) - 10;
            let h = if src.coin() { 0x80 } else { 0x80 + tag(src) };
            let seg = segs.last_mut().unwrap();
            let n0 = seg.1.len();
            seg.1.push(h);
            put_uint(len, &mut seg.1);
            at += (seg.1.len() - n0) as u64;
            short.push(h);
            put_uint(300, &mut short);
            let c = short.len() as u64;
            for i in 0..300 { short.push(crate::mem::pattern(at + i)); }
            giants.push(Giant { at: c, end: c + 300, real: at, real_end: at + len });
            at += len;
            segs.push((at, vec![]));
        } else {
            let n0 = short.len();
            any_el(src).bytes(&mut short);
            segs.last_mut().unwrap().1.extend_from_slice(&short[n0..]);
            at += (short.len() - n0) as u64;
        }
    }
    let mut dev = crate::mem::Sparse::new(vec![], at, vec![], gen::plan(src));
    dev.segs = segs;
    let base = if src.chance(1, 3) { src.uint(61) } else { 0 };
    let mut s = Stream::new_seek(dev);
    if base != 0 { s.set_pos(base); }
    let mut m = Model::new(&short);
    let r = |p: u64| base + real(&giants, p);
    let mut log = format!("from {}: [{}] with blobs of {:?}", base, hex(&short), giants.iter().map(|g| (g.real, g.real_end - g.real)).collect::<Vec<_>>());
    let mut skipped = false;
    for _ in 0..src.range(1, 16) {
        let got = (s.pos(), s.struct_depth(), s.eof());
        let want = (r(m.rs.pos), m.depth, m.rs.eof);
        ensure!(got == want, "{}: (pos, depth, eof) = {:?} instead of {:?}", log, got, want);
        ensure!(s.get_ref().pos + base == want.0, "{}: device at {} instead of {}", log, s.get_ref().pos, want.0 - base);
        let size = |m: &Model, n: u64| giants.iter().find(|g| g.at == m.rs.pos).map_or(n, |g| g.real_end - g.real);
        skipped |= m.rs.pending > m.rs.pos;
        let over = |e: stream::Error, k: SK, log: &str| -> Res {
            ensure!(err_same(&e, &k), "{}: {} instead of {:?}", log, e, k);
            Ok(())
        };
        match src.below(8) {
            0 => {
                let d = src.below(m.depth + 2);
                log.push_str(&format!("; skip_up({})", d));
                match (s.skip_up(d), m.skip_up(d)) { (Ok(()), Ok(())) => {}, (Err(e), Err(k)) => return over(e, k, &log), (a, b) => return Err(format!("{}: {:?} instead of {:?}", log, a.map_err(|e| e.to_string()), b)) }
            }
            1 => {
                log.push_str("; commit");
                match (s.commit(), m.rs.commit()) { (Ok(()), Ok(())) => {}, (Err(e), Err(k)) => return over(e, k, &log), (a, b) => return Err(format!("{}: {:?} instead of {:?}", log, a.map_err(|e| e.to_string()), b)) }
            }
            2 => if m.rs.eof { s.clear_eof(); m.rs.eof = false; },
            k => {
                let by_field = k < 5;
                log.push_str(if by_field { "; next_field" } else { "; next_element" });
                let (a, e) = if by_field { (s.next_field().map(|f| f.map(Element::Field)), m.field()) } else { (s.next_element().map(Some), m.next().map(Some)) };
                let (b, n) = match (a, e) {
                    (Ok(Some(Element::Field(f))), Ok(Some(MEl::Field { tag, pos, depth, kind }))) => {
                        let want = (tag, r(pos), depth);
                        ensure!((f.tag, f.pos, f.depth) == want, "{}: field {:?} instead of {:?}", log, (f.tag, f.pos, f.depth), want);
                        let kind = if let RK::Blob(n) = kind { RK::Blob(size(&m, n)) } else { kind };
                        let k = match f.value { Value::Integer(n) => RK::Int(n), Value::Blob(ref b) => RK::Blob(b.len()), Value::Struct(_) => RK::Struct, Value::Enum(n, _) => RK::Enum(n) };
                        ensure!(k == kind, "{}: {:?} instead of {:?}", log, k, kind);
                        if src.chance(1, 3) {
                            log.push_str("; skip");
                            skipped = true;
                            let w = if matches!(kind, RK::Struct | RK::Enum(_)) { m.skip_up(depth) } else { Ok(()) };
                            match (f.skip(), w) { (Ok(()), Ok(())) => continue, (Err(e), Err(k)) => return over(e, k, &log), (a, b) => return Err(format!("{}: {:?} instead of {:?}", log, a.map_err(|e| e.to_string()), b)) }
                        }
                        match f.value { Value::Blob(b) => { let n = b.len(); (b, n) } _ => continue }
                    }
                    (Ok(Some(Element::Exception(b))), Ok(Some(MEl::Exc(n)))) => { let n = size(&m, n); (b, n) }
                    (Ok(Some(Element::EndOfStruct)), Ok(Some(MEl::End))) | (Ok(Some(Element::EndOfDoc)), Ok(Some(MEl::Doc))) | (Ok(Some(Element::Padding)), Ok(Some(MEl::Pad))) | (Ok(None), Ok(None)) => continue,
                    (Err(e), Err(k)) => { let x = matches!(k, SK::Exception(_)); over(e, k, &log)?; if x { continue } else { break } }
                    (a, b) => return Err(format!("{}: {} instead of {:?}", log, match a { Ok(Some(_)) => "another element".into(), Ok(None) => "end".into(), Err(e) => e.to_string() }, b)),
                };
                ensure!(b.len() == n && b.remaining() == n && b.stream_pos() == r(m.rs.pos), "{}: blob of {}, {} remaining, at {} instead of {} at {}", log, b.len(), b.remaining(), b.stream_pos(), n, r(m.rs.pos));
                let mut b = b;
                let k = src.below((m.rs.pending - m.rs.pos).min(299) + 1);
                if src.coin() {
                    log.push_str(&format!("; read {}", k));
                    let mut v = vec![0; k as usize];
                    b.read_exact(&mut v).map_err(|e| format!("{}: {}", log, e))?;
                    let p = m.rs.pos as usize;
                    ensure!(v == short[p..p + k as usize], "{}: [{}]", log, hex(&v));
                    m.rs.pos += k;
                }
            }
        }
    }
    cx.label(if giants.is_empty() { "ordinary" } else { "blobs of billions of bytes" });
    if skipped { cx.nontrivial(log.as_bytes()); cx.desc(|| log.clone()); }
    Ok(())
}
