//! Blob handles.
//! technique: stateful (model-based) property-based testing of operation sequences against an in-memory file, with a device log for confinement
use super::*;
use super::c10::{any_el, blob, El};
use fourleaf::io::TransparentCursor;
use fourleaf::stream::{Blob, Element, Value};
use std::io::{BufRead, Cursor, Read, Seek, SeekFrom, Write};

pub fn prop() -> Prop {
    Prop {
        id: "C11",
        rule: "a case counts as non-trivial when at least three operations are applied to a non-empty blob; distinct by source kind, document and operations",
        facets: vec![
            facet("file", file, 3_600_000, 50_000_000),
            facet("short", short_source, 1_200_000, 10_000_000),
            facet("huge", huge, 900_000, 10_000_000),
            facet("wide", wide, 300_000, 8_000_000),
            big!("big-file", file, 300, 6_000),
            big!("big-short", short_source, 300, 6_000),
        ],
    }
}

/// What a source can do beyond reading and seeking.
pub trait Rd: Read + BufRead + Seek + Sized {
    fn put(_: &mut Blob<Self>, _: &[u8]) -> Option<io::Result<usize>> { None }
    fn slice(_: &Blob<Self>) -> Option<stream::Result<Vec<u8>>> { None }
    fn slice_mut(_: &mut Blob<Self>, _: &dyn Fn(&mut [u8])) -> Option<stream::Result<()>> { None }
    fn ext(_: &mut Blob<Self>) -> Option<stream::Result<Vec<u8>>> { None }
    fn all(&self) -> Vec<u8>;
    fn dev(&self) -> Option<Dev> { None }
}
impl Rd for Dev {
    fn put(b: &mut Blob<Self>, d: &[u8]) -> Option<io::Result<usize>> { let r = b.write(d); b.flush().unwrap(); Some(r) }
    fn all(&self) -> Vec<u8> { self.data() }
    fn dev(&self) -> Option<Dev> { Some(self.clone()) }
}
impl Rd for TransparentCursor<Vec<u8>> {
    fn put(b: &mut Blob<Self>, d: &[u8]) -> Option<io::Result<usize>> { let r = b.write(d); b.flush().unwrap(); Some(r) }
    fn slice(b: &Blob<Self>) -> Option<stream::Result<Vec<u8>>> { Some(b.slice().map(|x| x.to_vec())) }
    fn slice_mut(b: &mut Blob<Self>, f: &dyn Fn(&mut [u8])) -> Option<stream::Result<()>> { Some(b.slice_mut().map(|x| f(x))) }
    fn all(&self) -> Vec<u8> { self.0.get_ref().clone() }
}
impl<'a> Rd for TransparentCursor<&'a [u8]> {
    fn slice(b: &Blob<Self>) -> Option<stream::Result<Vec<u8>>> { Some(b.slice().map(|x| x.to_vec())) }
    fn ext(b: &mut Blob<Self>) -> Option<stream::Result<Vec<u8>>> { Some(b.ext_slice().map(|x: &'a [u8]| x.to_vec())) }
    fn all(&self) -> Vec<u8> { self.0.get_ref().to_vec() }
}
impl<'a> Rd for Cursor<&'a [u8]> {
    fn ext(b: &mut Blob<Self>) -> Option<stream::Result<Vec<u8>>> { Some(b.ext_slice().map(|x: &'a [u8]| x.to_vec())) }
    fn all(&self) -> Vec<u8> { self.get_ref().to_vec() }
}

struct Case { before: Vec<El>, blob: Vec<u8>, exc: bool, after: Vec<El>, bytes: Vec<u8>, start: usize, base: u64 }

fn case(src: &mut Src) -> Case {
    let mut before = vec![];
    for _ in 0..src.below(4) { let e = any_el(src); if e != El::Doc { before.push(e); } }
    let blob = if src.chance(1, 500) { let n = src.large(); src.bytes_n(n) } else { blob(src) };
    let exc = src.chance(1, 4);
    let mut after = vec![];
    for _ in 0..src.below(4) { let e = any_el(src); if e != El::Doc { after.push(e); } }
    let mut bytes = vec![];
    for e in &before { e.bytes(&mut bytes); }
    let e = if exc { El::Exc(blob.clone()) } else { El::Blob(1 + src.below(63) as u8, blob.clone()) };
    e.bytes(&mut bytes);
    let start = bytes.len() - blob.len();
    for e in &after { e.bytes(&mut bytes); }
    let base = if src.chance(1, 4) { src.uint(62) } else { 0 };
    Case { before, blob, exc, after, bytes, start, base }
}

fn file(src: &mut Src, cx: &mut Cx) -> Res {
    let c = case(src);
    match src.below(6) {
        0 => { let mut b = c.bytes.clone(); b.shrink_to_fit(); go(src, cx, &c, Stream::from_slice(b), "owned slice") }
        1 => { let b = c.bytes.clone(); go(src, cx, &c, Stream::from_slice(&b[..]), "slice") }
        2 => { let b = c.bytes.clone(); let k = Cursor::new(&b[..]); if src.coin() { go(src, cx, &c, Stream::new(k), "cursor") } else { go(src, cx, &c, Stream::new_seek(k), "seeking cursor") } }
        k => {
            let plan = gen::plan(src);
            let mut m = Mem::new(c.bytes.clone()).with_plan(plan);
            if k == 5 { m = m.no_seek(); }
            let d = Dev::new(m);
            if src.coin() { go(src, cx, &c, Stream::new(d), if k == 5 { "unseekable device" } else { "device" }) } else { go(src, cx, &c, Stream::new_seek(d), if k == 5 { "seeking unseekable device" } else { "seeking device" }) }
        }
    }
}

fn pass<R: Read>(s: &mut Stream<R>, e: &El) -> Result<(), String> {
    let x = s.next_element().map_err(|x| format!("reading {:?}: {}", e, x))?;
    let got = match x {
        Element::Field(f) => { let t = f.tag; match f.value {
            Value::Integer(n) => El::Int(t, n),
            Value::Blob(mut b) => { let n = b.len(); El::Blob(t, b.read_fully(n as usize).map_err(|x| x.to_string())?) }
            Value::Struct(_) => El::Struct(t),
            Value::Enum(n, _) => El::Enum(t, n),
        } }
        Element::EndOfStruct => El::End,
        Element::EndOfDoc => El::Doc,
        Element::Padding => El::Pad,
        Element::Exception(mut b) => { let n = b.len(); El::Exc(b.read_fully(n as usize).map_err(|x| x.to_string())?) }
    };
    if got != *e { return Err(format!("read {:?} instead of {:?}", got, e)); }
    Ok(())
}

fn state<R>(b: &Blob<R>) -> (u64, u64, u64, u64, u64, u64) {
    (b.len(), b.remaining(), b.inner_pos(), b.start_pos(), b.end_pos(), b.stream_pos())
}

fn any_seek(src: &mut Src, len: u64, pos: u64) -> SeekFrom {
    let near = |src: &mut Src, c: i64| c.wrapping_add(src.below(5) as i64 - 2);
    match src.below(10) {
        0 | 1 => SeekFrom::Start(src.below(len + 2)),
        2 => { let o = near(src, len as i64); SeekFrom::Start(o as u64) }
        3 => SeekFrom::End(-(src.below(len + 2) as i64)),
        4 => { let o = near(src, 0); SeekFrom::End(o) }
        5 | 6 => { let o = src.below(len + 3) as i64 - pos as i64 - 1; SeekFrom::Current(o) }
        7 => { let o = near(src, 0); SeekFrom::Current(o) }
        8 => { let o = *src.pick(&[i64::MIN, i64::MIN + 1, i64::MAX, i64::MAX - 1, -1, 1]); match src.below(3) { 0 => SeekFrom::Start(o as u64), 1 => SeekFrom::End(o), _ => SeekFrom::Current(o) } }
        _ => { let o = unzz(src.uint(64)); match src.below(3) { 0 => SeekFrom::Start(o as u64), 1 => SeekFrom::End(o), _ => SeekFrom::Current(o) } }
    }
}
/// Where a seek leads in a file of that length that cannot grow.
fn target(w: SeekFrom, len: u64, pos: u64) -> Option<u64> {
    let t = match w {
        SeekFrom::Start(p) => p as i128,
        SeekFrom::End(o) => len as i128 + o as i128,
        SeekFrom::Current(o) => pos as i128 + o as i128,
    };
    if t < 0 || t > len as i128 { None } else { Some(t as u64) }
}

fn go<R: Rd>(src: &mut Src, cx: &mut Cx, c: &Case, mut s: Stream<R>, kind: &'static str) -> Res {
    cx.label(kind);
    if c.base != 0 { s.set_pos(c.base); }
    let mut log = format!("{} from {} over [{}], blob at {}+{}", kind, c.base, hex(&c.bytes), c.start, c.blob.len());
    let fields = !c.exc && src.coin();
    for e in &c.before { pass(&mut s, e).map_err(|x| format!("{}: {}", log, x))?; }
    let mut model = c.blob.clone();
    let (start, len) = (c.base + c.start as u64, c.blob.len() as u64);
    let dev = s.get_ref().dev();
    let nops = src.below(9) + src.below(4) * src.below(6);
    let mut ops = 0;
    {
        let mut b = if fields {
            match s.next_field() {
                Ok(Some(f)) => match f.value { Value::Blob(b) => b, _ => return Err(format!("{}: no blob", log)) },
                _ => return Err(format!("{}: no field", log)),
            }
        } else {
            match s.next_element() {
                Ok(Element::Field(f)) => match f.value { Value::Blob(b) => b, _ => return Err(format!("{}: no blob", log)) },
                Ok(Element::Exception(b)) => b,
                _ => return Err(format!("{}: no blob", log)),
            }
        };
        let mut pos = 0u64;
        if let Some(ref d) = dev {
            let mut m = d.m();
            m.min_pos = m.pos; m.max_pos = m.pos; m.max_read = m.pos; m.min_written = u64::MAX; m.max_written = 0;
            // whatever touches the device at or after the end of the blob fails
            if m.fault == Fault::None { m.fault = Fault::Offset(c.start as u64 + len); }
        }
        for _ in 0..nops {
            let rem = len - pos;
            let want = (len, rem, pos, start, start + len, start + pos);
            ensure!(state(&b) == want, "{}: handle says (len, remaining, inner_pos, start, end, stream_pos) = {:?} instead of {:?}", log, state(&b), want);
            let here = pos as usize;
            let done = |log: &mut String, t: String| { log.push_str("; "); log.push_str(&t); };
            ops += 1;
            match src.below(14) {
                0 | 1 => {
                    let n = if src.chance(1, 6) { len as usize + 5 } else { src.len(len as usize + 4) };
                    done(&mut log, format!("read({})", n));
                    let mut buf = vec![0xA5; n];
                    match b.read(&mut buf) {
                        Ok(k) => {
                            ensure!(k <= n && k as u64 <= rem, "{}: returned {} with {} remaining", log, k, rem);
                            ensure!(k > 0 || n == 0 || rem == 0, "{}: returned 0 with {} remaining", log, rem);
                            ensure!(buf[..k] == model[here..here + k], "{}: read [{}] instead of [{}]", log, hex(&buf[..k]), hex(&model[here..here + k]));
                            ensure!(buf[k..].iter().all(|&x| x == 0xA5), "{}: wrote past what it returned", log);
                            pos += k as u64;
                        }
                        Err(ref e) if e.kind() == io::ErrorKind::Interrupted => {}
                        Err(e) => return Err(format!("{}: {}", log, e)),
                    }
                }
                2 => {
                    let n = src.len(rem as usize);
                    done(&mut log, format!("read_exact({})", n));
                    let mut buf = vec![0; n];
                    b.read_exact(&mut buf).map_err(|e| format!("{}: {}", log, e))?;
                    ensure!(buf[..] == model[here..here + n], "{}: read [{}]", log, hex(&buf));
                    pos += n as u64;
                }
                3 | 4 => {
                    done(&mut log, "fill_buf".into());
                    let k = match b.fill_buf() {
                        Ok(buf) => {
                            ensure!(buf.len() as u64 <= rem, "{}: {} bytes with {} remaining", log, buf.len(), rem);
                            ensure!(buf.len() > 0 || rem == 0, "{}: empty with {} remaining", log, rem);
                            ensure!(*buf == model[here..here + buf.len()], "{}: [{}]", log, hex(buf));
                            buf.len()
                        }
                        Err(ref e) if e.kind() == io::ErrorKind::Interrupted => continue,
                        Err(e) => return Err(format!("{}: {}", log, e)),
                    };
                    let k = if src.coin() { k } else { src.below(k as u64 + 1) as usize };
                    done(&mut log, format!("consume({})", k));
                    b.consume(k);
                    pos += k as u64;
                }
                5 | 6 | 7 => {
                    let w = any_seek(src, len, pos);
                    done(&mut log, format!("seek({:?})", w));
                    let seekable = dev.as_ref().map_or(true, |d| d.m().seek_ok);
                    match (b.seek(w), target(w, len, pos)) {
                        (Ok(p), Some(t)) if seekable => { ensure!(p == t, "{}: returned {} instead of {}", log, p, t); pos = t; }
                        (Err(_), Some(_)) if !seekable => {}
                        (Err(ref e), None) if e.kind() == io::ErrorKind::InvalidInput => {}
                        (r, t) => return Err(format!("{}: {:?}, should lead to {:?}", log, r, t)),
                    }
                }
                12 => {
                    // past the handle, which is told about it
                    let n = src.below(rem + 1).min(100) as usize;
                    done(&mut log, format!("stream_get_mut().read_exact({})", n));
                    let mut buf = vec![0; n];
                    b.stream_get_mut().read_exact(&mut buf).map_err(|e| format!("{}: {}", log, e))?;
                    ensure!(buf[..] == model[here..here + n], "{}: read [{}]", log, hex(&buf));
                    pos += n as u64;
                    b.stream_set_pos(start + pos);
                    if let Some(d) = b.stream_get_ref().dev() { ensure!(d.pos() == c.start as u64 + pos, "{}: device at {}", log, d.pos()); }
                }
                8 => {
                    let d = if src.chance(1, 5) { src.bytes_n(len as usize + 3) } else { src.bytes(20) };
                    let r = match R::put(&mut b, &d) { Some(r) => r, None => continue };
                    done(&mut log, format!("write({:?})", d));
                    match r {
                        Ok(k) => {
                            ensure!(k <= d.len() && k as u64 <= rem, "{}: returned {} with {} remaining", log, k, rem);
                            ensure!(k > 0 || d.is_empty() || rem == 0, "{}: returned 0 with {} remaining", log, rem);
                            model[here..here + k].copy_from_slice(&d[..k]);
                            pos += k as u64;
                        }
                        Err(ref e) if e.kind() == io::ErrorKind::Interrupted => {}
                        Err(e) => return Err(format!("{}: {}", log, e)),
                    }

                }
                9 => {
                    let max = if src.coin() { src.below(len + 2) as usize } else { src.uint(64) as usize };
                    done(&mut log, format!("read_fully({})", max));
                    match b.read_fully(max) {
                        Ok(v) if rem <= max as u64 => { ensure!(v[..] == model[here..], "{}: [{}] instead of [{}]", log, hex(&v), hex(&model[here..])); pos = len; }
                        Err(stream::Error::LargeBlob(m, r)) if rem > max as u64 && m == max && r == rem => {}
                        r => return Err(format!("{}: {:?} with {} remaining", log, r.map_err(|e| e.to_string()), rem)),
                    }
                }
                10 => {
                    let max = if src.coin() { src.below(len + 2) as usize } else { src.uint(64) as usize };
                    done(&mut log, format!("read_or_trunc({})", max));
                    let v = b.read_or_trunc(max).map_err(|e| format!("{}: {}", log, e))?;
                    let n = (max as u64).min(rem) as usize;
                    ensure!(v[..] == model[here..here + n], "{}: [{}] instead of [{}]", log, hex(&v), hex(&model[here..here + n]));
                    pos += n as u64;
                }
                11 => {
                    if let Some(r) = R::slice(&b) {
                        done(&mut log, "slice".into());
                        let v = r.map_err(|e| format!("{}: {}", log, e))?;
                        ensure!(v[..] == model[here..], "{}: [{}] instead of [{}]", log, hex(&v), hex(&model[here..]));
                    }
                    let k = src.byte();
                    let at = src.below(len + 1) as usize;
                    let seen = std::cell::RefCell::new(vec![]);
                    if let Some(r) = R::slice_mut(&mut b, &|x: &mut [u8]| { *seen.borrow_mut() = x.to_vec(); if at < x.len() { x[at] ^= k; } }) {
                        done(&mut log, format!("slice_mut()[{}] ^= {}", at, k));
                        r.map_err(|e| format!("{}: {}", log, e))?;
                        ensure!(seen.borrow()[..] == model[here..], "{}: [{}] instead of [{}]", log, hex(&seen.borrow()), hex(&model[here..]));
                        if here + at < model.len() { model[here + at] ^= k; }
                    }
                }
                _ => {
                    if let Some(r) = R::ext(&mut b) {
                        done(&mut log, "ext_slice".into());
                        let v = r.map_err(|e| format!("{}: {}", log, e))?;
                        ensure!(v[..] == model[here..], "{}: [{}] instead of [{}]", log, hex(&v), hex(&model[here..]));
                        // documented to consume the rest
                        pos = len;
                    }
                }
            }
        }
        let want = (len, len - pos, pos, start, start + len, start + pos);
        ensure!(state(&b) == want, "{}: handle says (len, remaining, inner_pos, start, end, stream_pos) = {:?} instead of {:?}", log, state(&b), want);
    }
    if let Some(ref d) = dev {
        let mut m = d.m();
        let (lo, hi) = (c.start as u64, c.start as u64 + len);
        ensure!(m.min_pos >= lo && m.max_pos <= hi, "{}: moved to {}..{}, outside of {}..{}", log, m.min_pos, m.max_pos, lo, hi);
        ensure!(m.max_read <= hi, "{}: read up to {}, past {}", log, m.max_read, hi);
        ensure!(m.min_written >= lo && m.max_written <= hi, "{}: wrote {}..{}, outside of {}..{}", log, m.min_written, m.max_written, lo, hi);
        m.fault = Fault::None;
    }
    if ops >= 3 && len > 0 {
        cx.nontrivial(log.as_bytes());
        cx.desc(|| log.clone());
    }
    // the stream goes on
    if src.coin() {
        s.commit().map_err(|e| format!("{}; commit: {}", log, e))?;
        ensure!(s.pos() == start + len, "{}; commit: position {} instead of {}", log, s.pos(), start + len);
    }
    for e in &c.after { pass(&mut s, e).map_err(|x| format!("{}; then {}", log, x))?; }
    s.commit().map_err(|e| format!("{}; commit: {}", log, e))?;
    ensure!(s.pos() == c.base + c.bytes.len() as u64, "{}: ended at {} instead of {}", log, s.pos(), c.base + c.bytes.len() as u64);
    let mut all = c.bytes.clone();
    all[c.start..c.start + model.len()].copy_from_slice(&model);
    let got = s.get_ref().all();
    ensure!(got == all, "{}: the source holds [{}] instead of [{}]", log, hex(&got), hex(&all));
    Ok(())
}

/// The source ends before the blob does.
fn short_source(src: &mut Src, cx: &mut Cx) -> Res {
    let c = case(src);
    let mut bytes = c.bytes[..c.start].to_vec();
    let have = src.below(c.blob.len() as u64 + 1) as usize;
    bytes.extend_from_slice(&c.blob[..have]);
    match src.below(3) {
        0 => short_go(src, cx, &c, have, Stream::from_slice(bytes.clone()), "owned slice"),
        1 => short_go(src, cx, &c, have, Stream::from_slice(&bytes[..]), "slice"),
        _ => short_go(src, cx, &c, have, Stream::new_seek(Cursor::new(&bytes[..])), "cursor"),
    }
}
fn short_go<R: Rd>(src: &mut Src, cx: &mut Cx, c: &Case, have: usize, mut s: Stream<R>, kind: &'static str) -> Res {
    let mut log = format!("{} over [{}] with {} of {} blob bytes", kind, hex(&c.bytes[..c.start + have]), have, c.blob.len());
    for e in &c.before { pass(&mut s, e).map_err(|x| format!("{}: {}", log, x))?; }
    let mut b = match s.next_element() {
        Ok(Element::Field(f)) => match f.value { Value::Blob(b) => b, _ => return Err(format!("{}: no blob", log)) },
        Ok(Element::Exception(b)) => b,
        _ => return Err(format!("{}: no blob", log)),
    };
    let len = c.blob.len() as u64;
    let mut pos = 0u64;
    let n = src.range(1, 6);
    for _ in 0..n {
        let rem = len - pos;
        let avail = (have as u64).saturating_sub(pos);
        let lack = rem - avail.min(rem);
        let here = (pos as usize).min(have);
        ensure!(b.remaining() == rem && b.inner_pos() == pos, "{}: remaining {} inner_pos {} instead of {} {}", log, b.remaining(), b.inner_pos(), rem, pos);
        let sl = |r: stream::Result<Vec<u8>>, log: &str| -> Res {
            match r {
                Ok(v) => ensure!(lack == 0 && v[..] == c.blob[pos as usize..], "{}: [{}] with {} bytes lacking", log, hex(&v), lack),
                Err(stream::Error::TruncatedBlob(n)) => ensure!(lack > 0 && n == lack, "{}: TruncatedBlob({}) with {} bytes lacking", log, n, lack),
                Err(e) => return Err(format!("{}: {}", log, e)),
            }
            Ok(())
        };
        match src.below(7) {
            0 => {
                let k = src.len(len as usize + 2);
                log.push_str(&format!("; read({})", k));
                let mut buf = vec![0; k];
                let r = b.read(&mut buf).map_err(|e| format!("{}: {}", log, e))?;
                ensure!(r as u64 <= avail.min(rem) && (r > 0 || k == 0 || avail == 0), "{}: {} bytes of {}", log, r, avail);
                ensure!(buf[..r] == c.blob[here..here + r], "{}: [{}]", log, hex(&buf[..r]));
                pos += r as u64;
            }
            1 | 2 => {
                let w = any_seek(src, len, pos);
                log.push_str(&format!("; seek({:?})", w));
                match (b.seek(w), target(w, len, pos)) {
                    (Ok(p), Some(t)) => { ensure!(p == t, "{}: returned {} instead of {}", log, p, t); pos = t; }
                    (Err(_), None) => {}
                    (r, t) => return Err(format!("{}: {:?}, should lead to {:?}", log, r, t)),
                }
            }
            3 => {
                log.push_str("; fill_buf");
                let v = b.fill_buf().map_err(|e| format!("{}: {}", log, e))?;
                ensure!(v.len() as u64 <= avail.min(rem) && *v == c.blob[here..here + v.len()], "{}: [{}]", log, hex(v));
            }
            4 => if let Some(r) = R::slice(&b) { log.push_str("; slice"); sl(r, &log)?; },
            5 => {
                let seen = std::cell::RefCell::new(vec![]);
                if let Some(r) = R::slice_mut(&mut b, &|x: &mut [u8]| *seen.borrow_mut() = x.to_vec()) {
                    log.push_str("; slice_mut");
                    sl(r.map(|_| seen.into_inner()), &log)?;
                }
            }
            _ => if let Some(r) = R::ext(&mut b) { log.push_str("; ext_slice"); let ok = r.is_ok(); sl(r, &log)?; if ok { pos = len; } },
        }
    }
    if n >= 3 && len > 0 { cx.nontrivial(log.as_bytes()); cx.desc(|| log.clone()); }
    if (have as u64) < len { cx.label("short"); }
    Ok(())
}

/// Blobs far longer than the data behind them.
fn huge(src: &mut Src, cx: &mut Cx) -> Res {
    let len = src.uint(64).min(u64::MAX - 12);
    let mut h = vec![0x81];
    put_uint(len, &mut h);
    let dev = Dev::new(Mem::new(h.clone()));
    let mut s = Stream::new_seek(dev.clone());
    let start = h.len() as u64;
    if start.checked_add(len).is_none() { return Ok(()); }
    let f = s.next_field().map_err(|e| e.to_string())?.ok_or("no field")?;
    let mut b = match f.value { Value::Blob(b) => b, _ => return Err("no blob".into()) };
    let mut pos = 0u64;
    let mut log = format!("blob of {} bytes", len);
    let n = src.range(1, 10);
    for _ in 0..n {
        let w = match src.below(3) {
            0 => SeekFrom::Start(src.below(len.wrapping_add(2))),
            1 => { let o = src.uint(63) as i64; match src.below(4) { 0 => SeekFrom::Current(o), 1 => SeekFrom::Current(-o), 2 => SeekFrom::End(-o), _ => SeekFrom::Start(o as u64) } }
            _ => any_seek(src, len.min(1 << 62), pos.min(1 << 62)),
        };
        log.push_str(&format!("; seek({:?})", w));
        match (b.seek(w), target(w, len, pos)) {
            (Ok(p), Some(t)) => { ensure!(p == t, "{}: returned {} instead of {}", log, p, t); pos = t; }
            (Err(ref e), None) if e.kind() == io::ErrorKind::InvalidInput => { cx.label("out of range"); }
            // a distance that no single seek can express
            (Err(_), Some(t)) if t.abs_diff(pos) > i64::MAX as u64 => { cx.label("too far"); }
            (r, t) => return Err(format!("{}: {:?}, should lead to {:?}", log, r, t)),
        }
        let want = (len, len - pos, pos, start, start + len, start + pos);
        ensure!(state(&b) == want, "{}: handle says {:?} instead of {:?}", log, state(&b), want);
        ensure!(dev.pos() == start + pos, "{}: device at {} instead of {}", log, dev.pos(), start + pos);
    }
    if n >= 3 { cx.nontrivial(log.as_bytes()); cx.desc(|| log.clone()); }
    // nothing of it is there
    if len > 0 && src.coin() {
        let gone = pos;
        match s.next_element().map(|_| ()) {
            Ok(()) if gone == len => return Err(format!("{}: read past the end", log)),
            // at the end of the blob already, where the input ends too
            Err(stream::Error::Io(ref e)) if gone == len && e.kind() == io::ErrorKind::UnexpectedEof => {}
            Err(stream::Error::TruncatedBlob(n)) if gone < len && n == len - gone => {}
            r => return Err(format!("{}: continues with {:?}", log, r.map_err(|e| e.to_string()))),
        }
    }
    Ok(())
}

/// Blobs longer than 32 bits, or 16, can say, with all of their contents there.
fn wide(src: &mut Src, cx: &mut Cx) -> Res {
    let unit = 1u64 << *src.pick(&[32u32, 32, 32, 31, 33, 16, 20, 24, 40, 48, 56, 62]);
    let near = |src: &mut Src| { let k = src.below(4); (k * unit).wrapping_add(src.below(if k == 0 { 100 } else { 60 })).wrapping_sub(if k == 0 { 0 } else { 20 }) };
    let len = near(src).min(1 << 63);
    let mut head = vec![];
    for _ in 0..src.below(3) { let e = any_el(src); if e != El::Doc { e.bytes(&mut head); } }
    let before = head.len() as u64;
    let mut skip = Stream::from_slice(head.clone());
    let exc = src.chance(1, 4);
    head.push(if exc { 0x80 } else { 0x81 + src.below(63) as u8 });
    put_uint(len, &mut head);
    let base = if src.chance(1, 4) { src.uint(60) } else { 0 };
    let start = head.len() as u64;
    let mut after = vec![];
    let mut tail = vec![];
    for _ in 0..src.range(1, 3) { let e = any_el(src); if e != El::Doc { e.bytes(&mut tail); after.push(e); } }
    let mut s = Stream::new_seek(Sparse::new(head, start + len, tail, gen::plan(src)));
    if base != 0 { s.set_pos(base); }
    while skip.pos() < before {
        skip.next_element().map_err(|e| e.to_string())?;
        s.next_element().map_err(|e| e.to_string())?;
        if skip.commit().is_err() || s.commit().is_err() { return Err("harness".into()); }
    }
    let mut log = format!("blob of {} bytes from {}", len, base);
    let start_pos = base + start;
    let mut over: std::collections::BTreeMap<u64, u8> = Default::default();
    let n = src.range(1, 12);
    let mut pos = 0u64;
    {
        let mut b = match s.next_element() {
            Ok(Element::Field(f)) => match f.value { Value::Blob(b) => b, _ => return Err(format!("{}: no blob", log)) },
            Ok(Element::Exception(b)) => b,
            _ => return Err(format!("{}: no blob", log)),
        };
        { let d = b.stream_get_mut(); d.min = u64::MAX; d.max = 0; }
        for _ in 0..n {
            let rem = len - pos;
            let byte = |over: &std::collections::BTreeMap<u64, u8>, p: u64| over.get(&p).cloned().unwrap_or(pattern(start + p));
            let same = |over: &std::collections::BTreeMap<u64, u8>, v: &[u8]| v.len() as u64 <= rem && (0..v.len() as u64).all(|i| v[i as usize] == byte(over, pos + i));
            match src.below(8) {
                0 => {
                    let k = src.range(0, 50);
                    log.push_str(&format!("; read({})", k));
                    let mut v = vec![0; k];
                    match b.read(&mut v) {
                        Ok(g) => { ensure!((g > 0 || k == 0 || rem == 0) && g <= k && same(&over, &v[..g]), "{}: {} bytes [{}]", log, g, hex(&v[..g])); pos += g as u64; }
                        Err(ref e) if e.kind() == io::ErrorKind::Interrupted => {}
                        Err(e) => return Err(format!("{}: {}", log, e)),
                    }
                }
                1 => {
                    let k = (src.range(0, 50) as u64).min(rem) as usize;
                    log.push_str(&format!("; read_exact({})", k));
                    let mut v = vec![0; k];
                    b.read_exact(&mut v).map_err(|e| format!("{}: {}", log, e))?;
                    ensure!(same(&over, &v), "{}: [{}]", log, hex(&v));
                    pos += k as u64;
                }
                2 => {
                    log.push_str("; fill_buf");
                    let k = match b.fill_buf() {
                        Ok(v) => { ensure!((v.len() > 0 || rem == 0) && same(&over, v), "{}: [{}]", log, hex(v)); v.len() }
                        Err(ref e) if e.kind() == io::ErrorKind::Interrupted => continue,
                        Err(e) => return Err(format!("{}: {}", log, e)),
                    };
                    let k = src.below(k as u64 + 1) as usize;
                    log.push_str(&format!("; consume({})", k));
                    b.consume(k);
                    pos += k as u64;
                }
                3 => {
                    let max = src.range(0, 60);
                    log.push_str(&format!("; read_or_trunc({})", max));
                    let v = b.read_or_trunc(max).map_err(|e| format!("{}: {}", log, e))?;
                    ensure!(same(&over, &v) && v.len() as u64 == rem.min(max as u64), "{}: [{}]", log, hex(&v));
                    pos += v.len() as u64;
                }
                4 => {
                    let max = if rem > 5000 && src.coin() { rem - 1 - src.below(rem - 1) } else { src.below(100) } as usize;
                    log.push_str(&format!("; read_fully({})", max));
                    match b.read_fully(max) {
                        Ok(v) if rem <= max as u64 => { ensure!(v.len() as u64 == rem && same(&over, &v), "{}: [{}]", log, hex(&v)); pos = len; }
                        Err(stream::Error::LargeBlob(m, r)) if rem > max as u64 && m == max && r == rem => {}
                        r => return Err(format!("{}: {:?} with {} remaining", log, r.map(|v| v.len()).map_err(|e| e.to_string()), rem)),
                    }
                }
                5 => {
                    let d = src.bytes(30);
                    log.push_str(&format!("; write({:?})", d));
                    match b.write(&d) {
                        Ok(k) => {
                            ensure!(k <= d.len() && k as u64 <= rem && (k > 0 || d.is_empty() || rem == 0), "{}: returned {}", log, k);
                            for i in 0..k { over.insert(pos + i as u64, d[i]); }
                            pos += k as u64;
                        }
                        Err(ref e) if e.kind() == io::ErrorKind::Interrupted => {}
                        Err(e) => return Err(format!("{}: {}", log, e)),
                    }
                }
                k => {
                    let t = if k == 6 { len.wrapping_sub(near(src)) } else { near(src) };
                    let w = match src.below(3) {
                        0 => SeekFrom::Start(t),
                        1 => SeekFrom::Current((t as i64).wrapping_sub(pos as i64)),
                        _ => SeekFrom::End((t as i64).wrapping_sub(len as i64)),
                    };
                    log.push_str(&format!("; seek({:?})", w));
                    match (b.seek(w), target(w, len, pos)) {
                        (Ok(p), Some(t)) => { ensure!(p == t, "{}: returned {} instead of {}", log, p, t); pos = t; }
                        (Err(ref e), None) if e.kind() == io::ErrorKind::InvalidInput => {}
                        (Err(_), Some(t)) if t.abs_diff(pos) > i64::MAX as u64 => {}
                        (r, t) => return Err(format!("{}: {:?}, should lead to {:?}", log, r, t)),
                    }
                }
            }
            let want = (len, len - pos, pos, start_pos, start_pos + len, start_pos + pos);
            ensure!(state(&b) == want, "{}: handle says {:?} instead of {:?}", log, state(&b), want);
            let d = b.stream_get_ref();
            ensure!(d.pos == start + pos, "{}: device at {} instead of {}", log, d.pos, start + pos);
            ensure!(d.max == 0 || d.min >= start && d.max <= start + len, "{}: touched {}..{} outside of {}..{}", log, d.min, d.max, start, start + len);
        }
    }
    if n >= 3 && len > 0 { cx.nontrivial(log.as_bytes()); cx.nontrivial(&over.values().cloned().collect::<Vec<u8>>()); cx.desc(|| log.clone()); }
    cx.label(if len >= 1 << 32 { "longer than 32 bits" } else if len >= 1 << 16 { "longer than 16 bits" } else { "shorter" });
    if s.commit().is_ok() { ensure!(s.pos() == start_pos + len, "{}; commit: at {}", log, s.pos()); } else { return Err(format!("{}; commit fails", log)); }
    for e in &after { pass(&mut s, e).map_err(|x| format!("{}; then {}", log, x))?; }
    let d = s.get_ref();
    let held: std::collections::BTreeMap<u64, u8> = d.over.iter().map(|(p, b)| (p - start, *b)).collect();
    ensure!(held == over, "{}: {:?} was written instead of {:?}", log, held, over);
    Ok(())
}
