//! Blobs written in pieces.
//! technique: stateful (model-based) property-based testing of write/seek/commit sequences against a model file
use super::*;
use super::c10::{any_el, tag, El};
use fourleaf::stream::{Blob, Element, Value};
use std::io::{Read, Seek, SeekFrom, Write};

pub fn prop() -> Prop {
    Prop {
        id: "C12",
        rule: "a case counts as non-trivial when some blob is written in more than one piece or with seeking (pieces), or the length is within 64 of a limit (limits); distinct by operations and bytes",
        facets: vec![
            facet("pieces", pieces, 3_000_000, 40_000_000),
            facet("limits", limits, 1_200_000, 10_000_000),
            facet("broken", broken, 900_000, 10_000_000),
            facet("wide", wide, 300_000, 8_000_000),
        ],
    }
}

/// The device as it should be: writing past the end fills the gap.
struct ModelFile { data: Vec<u8>, pos: usize }
impl ModelFile {
    fn put(&mut self, b: &[u8]) {
        if b.is_empty() { return; }
        if self.data.len() < self.pos { self.data.resize(self.pos, 0xEE); }
        for &x in b {
            if self.pos < self.data.len() { self.data[self.pos] = x; } else { self.data.push(x); }
            self.pos += 1;
        }
    }
}

fn fixed(n: u64) -> Vec<u8> {
    let mut out = vec![];
    for i in 0..10 {
        let b = (n >> (7 * i).min(63)) as u8 & if i == 9 { 1 } else { 0x7F };
        out.push(b | if i < 9 { 0x80 } else { 0 });
    }
    out
}

/// How a blob is begun.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind { Alloc, Dynamic, ExcAlloc, ExcDynamic }
const KINDS: [Kind; 4] = [Kind::Alloc, Kind::Dynamic, Kind::ExcAlloc, Kind::ExcDynamic];
impl Kind { fn dynamic(self) -> bool { matches!(self, Kind::Dynamic | Kind::ExcDynamic) } }

fn begin<'s, D: Write + Seek>(s: &'s mut Stream<D>, k: Kind, t: u8, len: u64) -> stream::Result<Blob<'s, D>> {
    match k {
        Kind::Alloc => s.write_blob_alloc(t, len),
        Kind::Dynamic => s.write_blob_dynamic(t),
        Kind::ExcAlloc => s.write_exception_alloc(len),
        Kind::ExcDynamic => s.write_exception_dynamic(),
    }
}
fn head(k: Kind, t: u8) -> u8 { if matches!(k, Kind::Alloc | Kind::Dynamic) { 0x80 + t } else { 0x80 } }

fn simple<D: Write + Seek>(s: &mut Stream<D>, e: &El) -> stream::Result<()> {
    match *e {
        El::Int(t, n) => s.write_u64(t, n),
        El::Blob(t, ref b) => s.write_blob_data(t, b).map(|_| ()),
        El::Struct(t) => s.write_struct(t),
        El::Enum(t, n) => s.write_enum(t, n),
        El::End => s.write_end_struct(),
        El::Doc => s.write_end_doc(),
        El::Pad => s.write_padding(),
        El::Exc(ref b) => s.write_exception_data(b).map(|_| ()),
    }
}

fn pieces(src: &mut Src, cx: &mut Cx) -> Res {
    // sometimes over data that is there already
    let old = if src.chance(1, 4) { src.bytes(200) } else { vec![] };
    let dev = Dev::new(Mem::new(old.clone()).with_plan(gen::plan(src)));
    let mut s = if src.coin() { Stream::new(dev.clone()) } else { Stream::new_seek(dev.clone()) };
    let base = if src.chance(1, 4) { src.uint(61) } else { 0 };
    if base != 0 { s.set_pos(base); }
    let mut log = format!("from {} over {} bytes", base, old.len());
    let mut m = ModelFile { data: old, pos: 0 };
    let mut els: Vec<El> = vec![];
    let mut piecewise = false;
    let n = src.range(1, 5);
    for _ in 0..n {
        if src.chance(1, 3) {
            let e = any_el(src);
            if e == El::Doc { continue; }
            log.push_str(&format!("; {:?}", e));
            simple(&mut s, &e).map_err(|x| format!("{}: {}", log, x))?;
            let mut b = vec![];
            e.bytes(&mut b);
            m.put(&b);
            els.push(e);
            continue;
        }
        let k = *src.pick(&KINDS);
        let t = tag(src);
        let len = if src.chance(1, 400) { src.large() } else { src.len(200) };
        log.push_str(&format!("; {:?}({})", k, if k.dynamic() { String::new() } else { len.to_string() }));
        let mut hdr = vec![head(k, t)];
        if k.dynamic() {
            cx.label("dynamic");
            let at = base + m.pos as u64;
            hdr.extend(fixed(u64::MAX - (at + 1) - 10));
        } else {
            cx.label("pre-sized");
            put_uint(len as u64, &mut hdr);
        }
        m.put(&hdr);
        let start = m.pos;
        let mut b = begin(&mut s, k, t, len as u64).map_err(|x| format!("{}: {}", log, x))?;
        let nominal = if k.dynamic() { u64::MAX - base - start as u64 } else { len as u64 };
        let mut high = 0usize; // furthest position written or left at
        let mut pos = 0usize;
        let ops = src.below(8);
        let mut finish = false;
        for i in 0..ops + 1 {
            let want = (nominal, nominal - pos as u64, pos as u64, base + start as u64, base + start as u64 + nominal);
            let got = (b.len(), b.remaining(), b.inner_pos(), b.start_pos(), b.end_pos());
            ensure!(got == want, "{}: handle says (len, remaining, inner_pos, start, end) = {:?} instead of {:?}", log, got, want);
            if i == ops { finish = true; }
            let room = if k.dynamic() { 1 << 20 } else { len - pos };
            match if finish { 9 } else { src.below(9) } {
                0..=3 => {
                    let d = if src.chance(1, 500) { let n = src.large(); src.bytes_n(n) } else { src.bytes(60) };
                    log.push_str(&format!("; write {}", d.len()));
                    if src.coin() {
                        match b.write(&d) {
                            Ok(n) => {
                                ensure!(n <= d.len() && (k.dynamic() || n <= room), "{}: took {} bytes with room for {}", log, n, room);
                                ensure!(n > 0 || d.is_empty() || room == 0, "{}: took nothing with room for {}", log, room);
                                m.put(&d[..n]);
                                pos += n;
                            }
                            Err(ref e) if e.kind() == io::ErrorKind::Interrupted => {}
                            Err(e) => return Err(format!("{}: {}", log, e)),
                        }
                    } else {
                        let fit = if k.dynamic() { d.len() } else { d.len().min(room) };
                        match b.write_all(&d) {
                            Ok(()) => ensure!(fit == d.len(), "{}: write_all accepted {} bytes with room for {}", log, d.len(), room),
                            Err(ref e) if fit < d.len() && e.kind() == io::ErrorKind::WriteZero => { cx.label("too much written"); }
                            Err(e) => return Err(format!("{}: {}", log, e)),
                        }
                        m.put(&d[..fit]);
                        pos += fit;
                    }
                    if i > 0 { piecewise = true; }
                }
                4 | 5 => {
                    let max = if k.dynamic() { high as u64 + 3 } else { len as u64 };
                    let w = match src.below(3) {
                        0 => SeekFrom::Start(src.below(max + 2)),
                        1 => SeekFrom::Current(src.below(max + 2) as i64 - pos as i64),
                        _ if !k.dynamic() => SeekFrom::End(-(src.below(max + 2) as i64)),
                        _ => SeekFrom::Current(0),
                    };
                    log.push_str(&format!("; seek {:?}", w));
                    let t = match w { SeekFrom::Start(p) => p as i128, SeekFrom::Current(o) => pos as i128 + o as i128, SeekFrom::End(o) => nominal as i128 + o as i128 };
                    match b.seek(w) {
                        Ok(p) if t >= 0 && t <= nominal as i128 => { ensure!(p as i128 == t, "{}: returned {} instead of {}", log, p, t); pos = t as usize; }
                        Err(ref e) if e.kind() == io::ErrorKind::InvalidInput && (t < 0 || t > nominal as i128) => {}
                        r => return Err(format!("{}: {:?}", log, r)),
                    }
                    m.pos = start + pos;
                    piecewise = true;
                    cx.label("seek");
                }
                6 => {
                    // read some of it back through the same handle
                    let n = src.len(40).min(m.data.len().saturating_sub(m.pos)).min(room);
                    log.push_str(&format!("; read {}", n));
                    let mut buf = vec![0; n];
                    b.read_exact(&mut buf).map_err(|e| format!("{}: {}", log, e))?;
                    ensure!(n == 0 || buf[..] == m.data[m.pos..m.pos + n], "{}: read [{}]", log, hex(&buf));
                    m.pos += n;
                    pos += n;
                }
                8 => {
                    // past the handle, which is told about it
                    let mut d = src.bytes(60);
                    d.truncate(room);
                    log.push_str(&format!("; write {} directly", d.len()));
                    b.stream_get_mut().write_all(&d).map_err(|e| format!("{}: {}", log, e))?;
                    m.put(&d);
                    pos += d.len();
                    let p = b.stream_pos() + d.len() as u64;
                    b.stream_set_pos(p);
                    ensure!(b.stream_get_ref().pos() == m.pos as u64, "{}: device at {}", log, b.stream_get_ref().pos());
                    piecewise = true;
                }
                7 => { b.flush().map_err(|e| format!("{}: {}", log, e))?; }
                _ => {
                    if k.dynamic() {
                        // back to where it ends
                        b.seek(SeekFrom::Start(high as u64)).map_err(|e| format!("{}: {}", log, e))?;
                        pos = high;
                    } else if src.chance(5, 6) {
                        // the rest
                        let d = src.bytes_n(len - pos);
                        b.write_all(&d).map_err(|e| format!("{}; the last {} bytes: {}", log, d.len(), e))?;
                        m.put(&d);
                        pos = len;
                        log.push_str(&format!("; the last {}", d.len()));
                    }
                    m.pos = start + pos;
                }
            }
            high = high.max(pos);
        }
        if !k.dynamic() && pos != len {
            // reported by whatever comes next, which does nothing else
            cx.label("unfinished");
            let before = dev.data();
            ensure!(before == m.data, "{}: wrote [{}] instead of [{}]", log, hex(&before), hex(&m.data));
            let lacking = (len - pos) as u64;
            for _ in 0..src.range(1, 3) {
                let (what, r) = next_op(src, &mut s);
                match r {
                    Err(stream::Error::IncompleteBlob(n)) if n == lacking => {}
                    r => return Err(format!("{}; {}: {:?} although {} bytes are lacking", log, what, r.map_err(|e| e.to_string()), lacking)),
                }
                ensure!(dev.data() == before && s.pos() == base + m.pos as u64, "{}; {}: changed the output", log, what);
            }
            if piecewise { cx.nontrivial(log.as_bytes()); cx.nontrivial(&m.data); cx.desc(|| log.clone()); }
            return Ok(());
        }
        let size = if k.dynamic() { high } else { len };
        // the gap after a seek to beyond what was written is not filled yet
        let mut content: Vec<u8> = m.data[start.min(m.data.len())..(start + size).min(m.data.len())].to_vec();
        content.resize(size, 0xEE);
        if k.dynamic() { let f = fixed(size as u64); m.data[start - 10..start].copy_from_slice(&f); }
        els.push(if head(k, t) == 0x80 { El::Exc(content) } else { El::Blob(t, content) });
        if k.dynamic() || src.coin() {
            s.commit().map_err(|e| format!("{}; commit: {}", log, e))?;
            ensure!(dev.data() == m.data, "{}: committed [{}] instead of [{}]", log, hex(&dev.data()), hex(&m.data));
        }
        ensure!(s.pos() == base + m.pos as u64, "{}: position {} instead of {}", log, s.pos(), base + m.pos as u64);
        ensure!(dev.pos() == m.pos as u64, "{}: device at {} instead of {}", log, dev.pos(), m.pos);
    }
    // close, and read everything back through the same stream
    s.write_end_struct().map_err(|e| format!("{}; end: {}", log, e))?;
    m.put(&[0]);
    els.push(El::End);
    ensure!(dev.data() == m.data, "{}: wrote [{}] instead of [{}]", log, hex(&dev.data()), hex(&m.data));
    if piecewise { cx.nontrivial(log.as_bytes()); cx.nontrivial(&m.data); cx.desc(|| log.clone()); }
    s.seek(SeekFrom::Start(0)).map_err(|e| format!("{}; seek: {}", log, e))?;
    ensure!(s.pos() == 0, "{}: position {} after seeking to 0", log, s.pos());
    for e in &els { expect(&mut s, e).map_err(|x| format!("{}: [{}]: {}", log, hex(&m.data), x))?; }
    ensure!(s.pos() == m.pos as u64, "{}: [{}]: ends at {}", log, hex(&m.data), s.pos());
    Ok(())
}

/// Blobs of gigabytes on a sparse device: distances beyond what 16, 24, 31, 32
/// or 63 bits can represent, between few bytes actually written.
fn wide(src: &mut Src, cx: &mut Cx) -> Res {
    let unit = 1u64 << *src.pick(&[32u32, 32, 32, 31, 33, 16, 20, 24, 40, 48, 56, 60, 62]);
    let near = |src: &mut Src| { let k = src.below(if unit == 1 << 62 { 3 } else { 4 }); (k * unit).wrapping_add(src.below(if k == 0 { 100 } else { 60 })).wrapping_sub(if k == 0 { 0 } else { 20 }) };
    let mut s = {
        let d = Sparse::new(vec![], 0, vec![], gen::plan(src));
        if src.coin() { Stream::new(d) } else { Stream::new_seek(d) }
    };
    let base = if src.chance(1, 4) { src.uint(60) } else { 0 };
    if base != 0 { s.set_pos(base); }
    let mut log = format!("from {}", base);
    let mut m: std::collections::BTreeMap<u64, u8> = Default::default();
    let mut at = 0u64; // on the device
    fn put(m: &mut std::collections::BTreeMap<u64, u8>, at: &mut u64, d: &[u8]) { for &x in d { m.insert(*at, x); *at += 1; } }
    let differs = |s: &Stream<Sparse>, m: &std::collections::BTreeMap<u64, u8>| -> Option<String> {
        let o = &s.get_ref().over;
        if o == m { return None; }
        let p = o.iter().find(|(k, v)| m.get(k) != Some(v)).or_else(|| m.iter().find(|(k, v)| o.get(k) != Some(v))).unwrap().0;
        Some(format!("at {} there is {:?} instead of {:?}", p, o.get(p), m.get(p)))
    };
    for _ in 0..src.range(1, 4) {
        if at >= 1 << 62 { break; }
        if src.chance(1, 3) {
            let e = any_el(src);
            if e == El::Doc { continue; }
            log.push_str(&format!("; {:?}", e));
            simple(&mut s, &e).map_err(|x| format!("{}: {}", log, x))?;
            let mut b = vec![];
            e.bytes(&mut b);
            put(&mut m, &mut at, &b);
            continue;
        }
        let k = *src.pick(&KINDS);
        let t = tag(src);
        let len = near(src);
        log.push_str(&format!("; {:?}({})", k, if k.dynamic() { String::new() } else { len.to_string() }));
        let mut hdr = vec![head(k, t)];
        if k.dynamic() { hdr.extend(fixed(u64::MAX - (base + at + 1) - 10)); } else { put_uint(len, &mut hdr); }
        put(&mut m, &mut at, &hdr);
        let start = at;
        let nominal = if k.dynamic() { u64::MAX - base - start } else { len };
        let mut b = begin(&mut s, k, t, len).map_err(|x| format!("{}: {}", log, x))?;
        let (mut pos, mut high) = (0u64, 0u64);
        for _ in 0..src.below(6) {
            let want = (nominal, nominal - pos, pos, base + start, base + start + nominal);
            let got = (b.len(), b.remaining(), b.inner_pos(), b.start_pos(), b.end_pos());
            ensure!(got == want, "{}: handle says (len, remaining, inner_pos, start, end) = {:?} instead of {:?}", log, got, want);
            if src.coin() {
                let d = src.bytes(30);
                let fit = (d.len() as u64).min(nominal - pos) as usize;
                log.push_str(&format!("; write {:?}", d));
                match b.write_all(&d) {
                    Ok(()) => ensure!(fit == d.len(), "{}: accepted", log),
                    Err(ref e) if fit < d.len() && e.kind() == io::ErrorKind::WriteZero => {}
                    Err(e) => return Err(format!("{}: {}", log, e)),
                }
                at = start + pos;
                put(&mut m, &mut at, &d[..fit]);
                pos += fit as u64;
            } else {
                let t = if k.dynamic() || src.coin() { near(src) } else { len.wrapping_sub(src.below(40)) };
                let w = match src.below(3) {
                    0 => SeekFrom::Start(t),
                    1 => SeekFrom::Current((t as i64).wrapping_sub(pos as i64)),
                    _ if !k.dynamic() => SeekFrom::End((t as i64).wrapping_sub(len as i64)),
                    _ => SeekFrom::Start(t),
                };
                log.push_str(&format!("; seek {:?}", w));
                let to = match w { SeekFrom::Start(p) => p as i128, SeekFrom::Current(o) => pos as i128 + o as i128, SeekFrom::End(o) => nominal as i128 + o as i128 };
                match b.seek(w) {
                    Ok(p) if to >= 0 && to <= nominal as i128 => { ensure!(p as i128 == to, "{}: returned {} instead of {}", log, p, to); pos = p; }
                    Err(ref e) if e.kind() == io::ErrorKind::InvalidInput && (to < 0 || to > nominal as i128) => {}
                    Err(_) if (to - pos as i128).abs() > i64::MAX as i128 => {}
                    r => return Err(format!("{}: {:?}", log, r)),
                }
                at = start + pos;
            }
            high = high.max(pos);
        }
        let last = if k.dynamic() { high } else if src.chance(1, 5) { pos } else { len };
        for t in [pos + (last - pos) / 2, last] { b.seek(SeekFrom::Start(t)).map_err(|e| format!("{}; to {}: {}", log, t, e))?; }
        at = start + last;
        if last > 60_000 {
            cx.nontrivial(log.as_bytes());
            cx.nontrivial(&base.to_le_bytes());
            cx.desc(|| log.clone());
            cx.label(if k.dynamic() { "dynamic" } else { "pre-sized" });
        }
        if !k.dynamic() && last != len {
            cx.label("unfinished");
            match s.commit() {
                Err(stream::Error::IncompleteBlob(n)) if n == len - last => {}
                r => return Err(format!("{}; commit: {:?} although {} bytes are lacking", log, r.map_err(|e| e.to_string()), len - last)),
            }
            return match differs(&s, &m) { None => Ok(()), Some(x) => Err(format!("{}: {}", log, x)) };
        }
        if k.dynamic() && last + 10 > i64::MAX as u64 {
            // its length could not be put in place
            cx.label("too long");
            match s.commit() {
                Err(stream::Error::OverlongDynamicBlob) => {}
                r => return Err(format!("{}; commit: {:?}", log, r.map_err(|e| e.to_string()))),
            }
            return match differs(&s, &m) { None => Ok(()), Some(x) => Err(format!("{}: {}", log, x)) };
        }
        if k.dynamic() { for (i, x) in fixed(last).into_iter().enumerate() { m.insert(start - 10 + i as u64, x); } }
        log.push_str("; commit");
        s.commit().map_err(|e| format!("{}: {}", log, e))?;
        ensure!(s.pos() == base + at, "{}: position {} instead of {}", log, s.pos(), base + at);
        ensure!(s.get_ref().pos == at, "{}: device at {} instead of {}", log, s.get_ref().pos, at);
        if let Some(x) = differs(&s, &m) { return Err(format!("{}: {}", log, x)); }
    }
    s.write_end_struct().map_err(|e| format!("{}; end: {}", log, e))?;
    put(&mut m, &mut at, &[0]);
    if let Some(x) = differs(&s, &m) { return Err(format!("{}; end: {}", log, x)); }
    Ok(())
}

fn next_op(src: &mut Src, s: &mut Stream<Dev>) -> (&'static str, stream::Result<()>) {
    match src.below(12) {
        0 => ("commit", s.commit()),
        1 => ("write_u64", s.write_u64(1, 2)),
        2 => ("write_struct", s.write_struct(3)),
        3 => ("write_end_struct", s.write_end_struct()),
        4 => ("write_blob_data", s.write_blob_data(1, b"x").map(|_| ())),
        5 => ("write_blob_dynamic", s.write_blob_dynamic(1).map(|_| ())),
        6 => ("write_padding", s.write_padding()),
        7 => ("write_end_doc", s.write_end_doc()),
        8 => ("next_field", s.next_field().map(|_| ())),
        9 => ("reset_pos", s.reset_pos(3)),
        10 => ("seek", s.seek(SeekFrom::Start(0)).map(|_| ())),
        _ => ("pad_to_align", s.pad_to_align(1)),
    }
}

fn expect(s: &mut Stream<Dev>, e: &El) -> Result<(), String> {
    let x = s.next_element().map_err(|x| format!("reading {:?}: {}", e, x))?;
    let got = match x {
        Element::Field(f) => { let t = f.tag; match f.value {
            Value::Integer(n) => El::Int(t, n),
            Value::Blob(mut b) => El::Blob(t, b.read_fully(1 << 20).map_err(|x| x.to_string())?),
            Value::Struct(_) => El::Struct(t),
            Value::Enum(n, _) => El::Enum(t, n),
        } }
        Element::EndOfStruct => El::End,
        Element::EndOfDoc => El::Doc,
        Element::Padding => El::Pad,
        Element::Exception(mut b) => El::Exc(b.read_fully(1 << 20).map_err(|x| x.to_string())?),
    };
    if got != *e { return Err(format!("read {:?} instead of {:?}", got, e)); }
    Ok(())
}

/// Lengths near what 64 bits can represent, when writing and when reading.
fn limits(src: &mut Src, cx: &mut Cx) -> Res {
    let base = match src.below(4) { 0 => 0, 1 => src.uint(64), 2 => u64::MAX - src.below(40), _ => src.below(1000) };
    let len = match src.below(4) { 0 => src.uint(64), 1 => u64::MAX - src.below(40), _ => (u64::MAX - base).wrapping_add(20).wrapping_sub(src.below(60)) };
    let k = *src.pick(&KINDS);
    let t = tag(src);
    let mut hdr = vec![head(k, t)];
    if k.dynamic() { hdr.extend(fixed(0)); } else { put_uint(len, &mut hdr); }
    let end = base as u128 + hdr.len() as u128 + if k.dynamic() { 0 } else { len as u128 };
    let max = u64::MAX as u128;
    let about = format!("{:?} of {} at {}", k, len, base);
    if end.abs_diff(max) < 64 { cx.nontrivial(about.as_bytes()); cx.desc(|| about.clone()); }
    if src.coin() {
        let dev = Dev::of(&[]);
        let mut s = Stream::new(dev.clone());
        s.set_pos(base);
        let r = begin(&mut s, k, t, len).map(|b| (b.len(), b.start_pos(), b.end_pos()));
        match r {
            Ok((l, a, e)) => {
                ensure!(end <= max, "{}: accepted", about);
                if k.dynamic() {
                    cx.label("accepted");
                    ensure!(a == base + 11 && e == u64::MAX && l == e - a, "{}: handle from {} to {}, {} bytes", about, a, e, l);
                    // nothing written: an empty blob
                    s.commit().map_err(|x| format!("{}; commit: {}", about, x))?;
                    let mut want = vec![head(k, t)];
                    want.extend(fixed(0));
                    ensure!(dev.data() == want, "{}: empty blob written as [{}]", about, hex(&dev.data()));
                } else {
                    cx.label("accepted");
                    ensure!(l == len && a == base + hdr.len() as u64 && e == a + len, "{}: handle from {} to {}, {} bytes", about, a, e, l);
                    ensure!(dev.data() == hdr, "{}: header [{}]", about, hex(&dev.data()));
                    if len > 0 {
                        match s.commit() { Err(stream::Error::IncompleteBlob(n)) if n == len => {} r => return Err(format!("{}: commit gave {:?}", about, r.map_err(|e| e.to_string()))) }
                    }
                }
            }
            Err(stream::Error::OverlongBlob) => {
                cx.label("refused");
                // the longest possible header may be allowed for
                ensure!(end - hdr.len() as u128 + 11 > max, "{}: refused", about);
                ensure!(dev.data().is_empty() && s.pos() == base, "{}: refused after writing [{}]", about, hex(&dev.data()));
            }
            Err(e) => return Err(format!("{}: {}", about, e)),
        }
    } else if !k.dynamic() && base as u128 + hdr.len() as u128 <= max {
        // reading the header
        let mut s = Stream::new(io::Cursor::new(hdr.clone()));
        s.set_pos(base);
        let r = match s.next_element() {
            Ok(Element::Exception(b)) => Ok((b.len(), b.end_pos())),
            Ok(Element::Field(f)) => match f.value { Value::Blob(b) => Ok((b.len(), b.end_pos())), _ => return Err("no blob".into()) },
            Ok(_) => return Err("no blob".into()),
            Err(e) => Err(e),
        };
        match r {
            Ok((l, e)) => { cx.label("read"); ensure!(end <= max && l == len && e as u128 == end, "{} read as {} bytes up to {}", about, l, e) }
            Err(stream::Error::OverlongBlob) => { cx.label("refused on reading"); ensure!(end > max, "{}: refused on reading", about) }
            Err(e) => return Err(format!("{} read: {}", about, e)),
        }
    }
    Ok(())
}

/// Dynamic blobs that cannot be finished.
fn broken(src: &mut Src, cx: &mut Cx) -> Res {
    let dev = Dev::of(&[]);
    let mut s = Stream::new(dev.clone());
    for _ in 0..src.below(3) { s.write_u64(1, 5).map_err(|e| e.to_string())?; }
    let k = if src.coin() { Kind::Dynamic } else { Kind::ExcDynamic };
    let mut log = format!("after {} bytes {:?}", s.pos(), k);
    let d = src.bytes(50);
    let mut b = begin(&mut s, k, 2, 0).map_err(|e| e.to_string())?;
    b.write_all(&d).map_err(|e| e.to_string())?;
    log.push_str(&format!("; write {}", d.len()));
    match src.below(4) {
        3 => {
            // moved to before the blob behind the handle's back
            let at = b.stream_pos();
            let start = b.start_pos();
            let back = at - start + 1 + src.below(start);
            log.push_str(&format!("; {} back", back));
            let (how, to) = (src.coin(), at - back);
            b.stream_set_pos(to);
            if how { b.stream_get_mut().seek(SeekFrom::Current(-(back as i64))).map_err(|e| format!("{}: {}", log, e))?; }
            let before = dev.data();
            cx.nontrivial(log.as_bytes());
            cx.nontrivial(&d);
            cx.desc(|| log.clone());
            for _ in 0..src.range(1, 2) {
                let (what, r) = next_op(src, &mut s);
                match r {
                    Err(stream::Error::PositionBeforeStartOfDynamicBlob) => {}
                    r => return Err(format!("{}; {}: {:?}", log, what, r.map_err(|e| e.to_string()))),
                }
                ensure!(dev.data() == before && s.pos() == to, "{}; {}: changed the output", log, what);
            }
        }
        0 => {
            // moved too far for the header to be reached again
            let to = match src.below(3) { 0 => i64::MAX as u64 + 30 - src.below(60), 1 => src.uint(63), _ => src.uint(64).min(u64::MAX - 200) };
            log.push_str(&format!("; seek {}", to));
            match b.seek(SeekFrom::Start(to)) {
                Ok(_) => {}
                Err(_) if to.abs_diff(d.len() as u64) > i64::MAX as u64 => return Ok(()),
                Err(e) => return Err(format!("{}: {}", log, e)),
            }
            let before = dev.data();
            let pos = s.pos();
            cx.nontrivial(log.as_bytes());
            cx.desc(|| log.clone());
            match s.commit() {
                Ok(()) => {
                    cx.label("long");
                    ensure!(to as u128 + 10 <= i64::MAX as u128, "{}: committed", log);
                    let at = before.len() - d.len() - 10;
                    let mut want = before.clone();
                    want[at..at + 10].copy_from_slice(&fixed(to));
                    ensure!(dev.data() == want, "{}: [{}] instead of [{}]", log, hex(&dev.data()), hex(&want));
                    ensure!(s.pos() == pos && dev.pos() == pos, "{}: position {}, device {}", log, s.pos(), dev.pos());
                }
                Err(stream::Error::OverlongDynamicBlob) => {
                    cx.label("too long");
                    ensure!(to as u128 + 10 > i64::MAX as u128, "{}: refused", log);
                    ensure!(dev.data() == before, "{}: refused after changing the output", log);
                }
                Err(e) => return Err(format!("{}: {}", log, e)),
            }
        }
        1 => {
            // the device loses the ability to seek, or fails
            let before = dev.data();
            if src.coin() { dev.m().seek_ok = false; log.push_str("; no more seeking"); }
            else { dev.m().fault = Fault::Seek(0); log.push_str("; seeks fail"); }
            cx.nontrivial(log.as_bytes());
            cx.nontrivial(&d);
            let (what, r) = next_op(src, &mut s);
            match r {
                Err(stream::Error::Io(_)) => {}
                r => return Err(format!("{}; {}: {:?}", log, what, r.map_err(|e| e.to_string()))),
            }
            ensure!(dev.data() == before, "{}; {}: output changed to [{}]", log, what, hex(&dev.data()));
        }
        _ => {
            // rewriting the length fails at any byte
            let at = dev.data().len() - d.len() - 10;
            let n = dev.m().writes + src.below(2);
            dev.m().plan = gen::plan(src);
            dev.m().fault = Fault::Call(n);
            log.push_str("; writes fail");
            cx.nontrivial(log.as_bytes());
            cx.nontrivial(&d);
            let mut before = dev.data();
            match s.commit() {
                Err(stream::Error::Io(ref e)) if e.to_string() == FAULT_MSG => {}
                Ok(()) if n > 0 => { let f = fixed(d.len() as u64); before[at..at + 10].copy_from_slice(&f); ensure!(dev.data() == before, "{}: committed wrongly", log); }
                r => return Err(format!("{}: commit {:?}", log, r.map_err(|e| e.to_string()))),
            }
            let after = dev.data();
            ensure!(after.len() == before.len() && after[..at] == before[..at] && after[at + 10..] == before[at + 10..], "{}: bytes outside of the length changed", log);
        }
    }
    Ok(())
}
