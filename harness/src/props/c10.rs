//! Low-level writing and reading.
//! technique: stateful property-based testing of write sequences against a model encoder, read back against the list of operations
use super::*;
use fourleaf::stream::{Element, Value};
use std::io::{BufRead, Read, Seek, Write};

pub fn prop() -> Prop {
    Prop {
        id: "C10",
        rule: "a case counts as non-trivial when at least three elements are written (sequences) or the position needed padding (alignment) or the tag is invalid (tags); distinct by the bytes written and the method used",
        facets: vec![
            facet("sequence", sequence, 2_000_000, 40_000_000),
            facet("align", align, 600_000, 10_000_000),
            facet("tags", tags, 400_000, 3_000_000),
            facet("wide", super::wide::sequence, 200, 40_000),
            big!("big-sequence", sequence, 300, 6_000),
        ],
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum El {
    Int(u8, u64),
    Blob(u8, Vec<u8>),
    Struct(u8),
    Enum(u8, u64),
    End,
    Doc,
    Pad,
    Exc(Vec<u8>),
}
impl El {
    pub fn bytes(&self, out: &mut Vec<u8>) {
        match *self {
            El::Int(t, n) => { out.push(0x40 + t); put_uint(n, out); }
            El::Blob(t, ref b) => { out.push(0x80 + t); put_uint(b.len() as u64, out); out.extend_from_slice(b); }
            El::Struct(t) => out.push(0xC0 + t),
            El::Enum(t, n) => { out.push(t); put_uint(n, out); }
            El::End => out.push(0),
            El::Doc => out.push(0x40),
            El::Pad => out.push(0xC0),
            El::Exc(ref b) => { out.push(0x80); put_uint(b.len() as u64, out); out.extend_from_slice(b); }
        }
    }
    /// Depth reported with the element (fields) and after it.
    pub fn depth(&self, d: &mut u64) -> u64 {
        match *self {
            El::Int(..) | El::Blob(..) => { *d = (*d).max(1); *d }
            El::Struct(_) | El::Enum(..) => { *d = (*d).max(1); *d += 1; *d - 1 }
            El::End => { *d = d.saturating_sub(1); *d }
            El::Doc => { *d = 0; 0 }
            El::Pad | El::Exc(_) => *d,
        }
    }
    pub fn is_field(&self) -> bool { matches!(*self, El::Int(..) | El::Blob(..) | El::Struct(_) | El::Enum(..)) }
}

pub fn tag(src: &mut Src) -> u8 { match src.below(4) { 0 => 1 + src.below(3) as u8, 1 => *src.pick(&[1, 31, 32, 62, 63]), _ => 1 + src.below(63) as u8 } }

pub fn any_el(src: &mut Src) -> El {
    match src.below(10) {
        0 | 1 => El::Int(tag(src), src.uint(64)),
        2 | 3 => El::Blob(tag(src), blob(src)),
        4 => El::Struct(tag(src)),
        5 => El::Enum(tag(src), src.uint(64)),
        6 | 7 => El::End,
        8 => El::Pad,
        _ => match src.below(3) { 0 => El::Doc, _ => El::Exc(blob(src)) },
    }
}
pub fn blob(src: &mut Src) -> Vec<u8> {
    if src.big > 0 && src.take_big() { let n = src.big_len(); return src.bytes_n(n); }
    match src.below(6) {
        0 => { let n = *src.pick(&[126, 127, 128, 129, 255, 256, 257, 300]); src.bytes_n(n) }
        1 if src.chance(1, 8) => { let n = if src.coin() { src.large() } else { *src.pick(&[16383usize, 16384, 16385, 20000]) }; src.bytes_n(n) }
        _ => src.bytes(60),
    }
}

/// Integer writers: method, tag, raw tape value -> (written integer, result).
fn write_int(src: &mut Src, s: &mut Stream<Dev>, t: u8) -> (u64, &'static str, stream::Result<()>) {
    let n = src.uint(64);
    match src.below(12) {
        0 => (0, "write_null", s.write_null(t)),
        1 => (n, "write_u64", s.write_u64(t, n)),
        2 => (n & 0xFF, "write_u8", s.write_u8(t, n as u8)),
        3 => (n & 0xFFFF, "write_u16", s.write_u16(t, n as u16)),
        4 => (n & 0xFFFF_FFFF, "write_u32", s.write_u32(t, n as u32)),
        5 => (n & usize::MAX as u64, "write_usize", s.write_usize(t, n as usize)),
        6 => (zz(n as i8 as i64), "write_i8", s.write_i8(t, n as i8)),
        7 => (zz(n as i16 as i64), "write_i16", s.write_i16(t, n as i16)),
        8 => (zz(n as i32 as i64), "write_i32", s.write_i32(t, n as i32)),
        9 => (zz(n as i64), "write_i64", s.write_i64(t, n as i64)),
        10 => (zz(n as isize as i64), "write_isize", s.write_isize(t, n as isize)),
        _ => (n & 1, "write_bool", s.write_bool(t, n & 1 == 1)),
    }
}

/// A handle freshly returned for a blob.
fn handle(b: &stream::Blob<Dev>, start: u64, len: u64, at: u64) -> Res {
    let got = (b.len(), b.remaining(), b.inner_pos(), b.start_pos(), b.end_pos(), b.stream_pos());
    let want = (len, len - at, at, start, start + len, start + at);
    ensure!(got == want, "blob handle says (len, remaining, inner_pos, start, end, stream_pos) = {:?} instead of {:?}", got, want);
    Ok(())
}

fn es<T>(r: stream::Result<T>, what: &str) -> Result<T, String> { r.map_err(|e| format!("{}: {}", what, e)) }

fn sequence(src: &mut Src, cx: &mut Cx) -> Res {
    let base = match src.below(4) { 0 => src.uint(62), 1 => src.below(300), _ => 0 };
    let dev = Dev::new(Mem::new(vec![]).with_plan(gen::plan(src)));
    let mut s = if src.coin() { Stream::new(dev.clone()) } else { Stream::new_seek(dev.clone()) };
    if base != 0 { s.set_pos(base); }
    let n = src.range(1, 6 + src.size / 3);
    let mut els: Vec<El> = vec![];
    let mut want = vec![];
    let mut how = vec![];
    for _ in 0..n {
        let start = base + want.len() as u64;
        let e = if src.chance(1, 3) {
            let t = tag(src);
            let (n, m, r) = write_int(src, &mut s, t);
            es(r, m)?;
            how.push(m);
            El::Int(t, n)
        } else {
            let e = any_el(src);
            let hdr = |b: &Vec<u8>| { let mut h = vec![0]; put_uint(b.len() as u64, &mut h); start + h.len() as u64 };
            match e {
                El::Int(t, n) => { how.push("write_u64"); es(s.write_u64(t, n), "write_u64")? }
                El::Struct(t) => { how.push("write_struct"); es(s.write_struct(t), "write_struct")? }
                El::Enum(t, n) => { how.push("write_enum"); es(s.write_enum(t, n), "write_enum")? }
                El::End => { how.push("write_end_struct"); es(s.write_end_struct(), "write_end_struct")? }
                El::Doc => { how.push("write_end_doc"); es(s.write_end_doc(), "write_end_doc")? }
                El::Pad => { how.push("write_padding"); es(s.write_padding(), "write_padding")? }
                El::Blob(t, ref b) => match src.below(3) {
                    0 => {
                        how.push("write_blob_alloc");
                        let mut h = es(s.write_blob_alloc(t, b.len() as u64), "write_blob_alloc")?;
                        handle(&h, hdr(b), b.len() as u64, 0)?;
                        h.write_all(b).map_err(|e| format!("write_blob_alloc then write_all: {}", e))?;
                        handle(&h, hdr(b), b.len() as u64, b.len() as u64)?;
                    }
                    1 => { how.push("write_blob_data"); handle(&es(s.write_blob_data(t, &b[..]), "write_blob_data")?, hdr(b), b.len() as u64, b.len() as u64)? }
                    _ => { how.push("write_blob_data"); es(s.write_blob_data(t, b.clone()), "write_blob_data")?; }
                },
                El::Exc(ref b) => match src.below(2) {
                    0 => {
                        how.push("write_exception_alloc");
                        let mut h = es(s.write_exception_alloc(b.len() as u64), "write_exception_alloc")?;
                        handle(&h, hdr(b), b.len() as u64, 0)?;
                        h.write_all(b).map_err(|e| format!("write_exception_alloc then write_all: {}", e))?;
                    }
                    _ => { how.push("write_exception_data"); handle(&es(s.write_exception_data(&b[..]), "write_exception_data")?, hdr(b), b.len() as u64, b.len() as u64)? }
                },
            }
            e
        };
        e.bytes(&mut want);
        els.push(e);
        ensure!(s.pos() == base + want.len() as u64, "after {:?}: position {} instead of {}", how, s.pos(), base + want.len() as u64);
        if src.chance(1, 6) { es(s.commit(), "commit")?; }
        ensure!(dev.data() == want, "after {:?}: wrote [{}] instead of [{}]", how, hex(&dev.data()), hex(&want));
    }
    es(s.commit(), "commit")?;
    ensure!(dev.data() == want && s.pos() == base + want.len() as u64 && dev.pos() == want.len() as u64,
        "after {:?} and commit: [{}], position {}", how, hex(&dev.data()), s.pos());
    if els.len() >= 3 {
        cx.nontrivial(&want);
        cx.nontrivial(&base.to_le_bytes());
        cx.desc(|| format!("{:?} from {}: [{}]", how, base, hex(&want)));
    }
    if base > 0 { cx.label("nonzero starting position"); }
    // and back
    let d = Dev::new(Mem::new(want.clone()).with_plan(gen::plan(src)));
    match src.below(4) {
        0 => { cx.label("read from slice"); read_back(src, Stream::from_slice(&want[..]), base, &els, &want) }
        1 => { cx.label("read with seeking"); read_back(src, Stream::new_seek(d), base, &els, &want) }
        2 => { cx.label("read with failing seek"); d.m().seek_ok = false; read_back(src, Stream::new_seek(d), base, &els, &want) }
        _ => { cx.label("read without seeking"); read_back(src, Stream::new(d), base, &els, &want) }
    }
}

pub trait Src3: Read + BufRead + Seek {}
impl<T: Read + BufRead + Seek> Src3 for T {}

fn read_back<R: Src3>(src: &mut Src, mut s: Stream<R>, base: u64, els: &[El], all: &[u8]) -> Res {
    if base != 0 { s.set_pos(base); }
    let fields = src.coin();
    let about = format!("[{}] from {} by {}", hex(all), base, if fields { "next_field" } else { "next_element" });
    let graceful = src.coin();
    s.set_graceful_eof(graceful);
    let mut depth = 0;
    let mut pos = base;
    for (i, e) in els.iter().enumerate() {
        let mut b = vec![];
        e.bytes(&mut b);
        let start = pos;
        pos += b.len() as u64;
        let fd = e.depth(&mut depth);
        let about = || format!("{}: element {} {:?} at {}", about, i, e, start);
        if fields && *e == El::Pad { continue; }
        let mut full = true;
        if fields && !e.is_field() {
            let r = s.next_field().map(|x| x.is_none());
            match (e, r) {
                (El::End, Ok(true)) | (El::Doc, Ok(true)) => {}
                (El::Exc(b), Err(stream::Error::Exception(ref m))) => {
                    let w = String::from_utf8_lossy(&b[..b.len().min(256)]).into_owned();
                    ensure!(*m == w, "{}: message {:?}", about(), m);
                    full = b.len() <= 256;
                }
                (_, r) => return Err(format!("{}: next_field gave {:?}", about(), r.map_err(|e| e.to_string()))),
            }
        } else {
            let el = if fields {
                match s.next_field() {
                    Ok(Some(f)) => Element::Field(f),
                    Ok(None) => return Err(format!("{}: next_field gave None", about())),
                    Err(x) => return Err(format!("{}: {}", about(), x)),
                }
            } else { s.next_element().map_err(|x| format!("{}: {}", about(), x))? };
            let rd = |mut b: stream::Blob<R>, n: usize, hdr: u64| -> Result<Vec<u8>, String> {
                let got = (b.len(), b.remaining(), b.inner_pos(), b.start_pos(), b.end_pos(), b.stream_pos());
                let w = (n as u64, n as u64, 0, hdr, hdr + n as u64, hdr);
                ensure!(got == w, "{}: blob handle says {:?} instead of {:?}", about(), got, w);
                b.read_fully(n).map_err(|x| format!("{}: {}", about(), x))
            };
            match el {
                Element::Field(mut f) => {
                    ensure!(e.is_field(), "{}: read as a field with tag {}", about(), f.tag);
                    ensure!(f.pos == start && f.depth == fd, "{}: field pos {} depth {} instead of {} {}", about(), f.pos, f.depth, start, fd);
                    let t = f.tag;
                    let got = match f.value {
                        Value::Integer(n) => El::Int(t, n),
                        Value::Struct(_) => El::Struct(t),
                        Value::Enum(n, _) => El::Enum(t, n),
                        Value::Blob(_) => match f.value {
                            Value::Blob(b) => {
                                if let El::Blob(_, ref w) = *e { El::Blob(t, rd(b, w.len(), pos - w.len() as u64)?) } else { El::Blob(t, vec![]) }
                            }
                            _ => unreachable!(),
                        },
                    };
                    let _ = &mut f.tag;
                    ensure!(got == *e, "{}: read as {:?}", about(), got);
                }
                Element::EndOfStruct => ensure!(*e == El::End, "{}: read as end of struct", about()),
                Element::EndOfDoc => ensure!(*e == El::Doc, "{}: read as end of document", about()),
                Element::Padding => ensure!(*e == El::Pad, "{}: read as padding", about()),
                Element::Exception(b) => {
                    if let El::Exc(ref w) = *e {
                        let g = rd(b, w.len(), pos - w.len() as u64)?;
                        ensure!(g == *w, "{}: exception contents differ", about());
                    } else { return Err(format!("{}: read as exception", about())); }
                }
            }
        }
        if full { ensure!(s.pos() == pos, "{}: position {} instead of {}", about(), s.pos(), pos); }
        ensure!(s.struct_depth() == depth, "{}: depth {} instead of {}", about(), s.struct_depth(), depth);
        ensure!(s.eof() == (*e == El::Doc), "{}: eof {}", about(), s.eof());
        if *e == El::Doc { s.clear_eof(); }
    }
    if fields {
        // passes over padding left at the end
        match s.next_field() {
            Ok(None) if graceful => {}
            Err(stream::Error::Io(ref e)) if !graceful && e.kind() == io::ErrorKind::UnexpectedEof => return Ok(()),
            r => return Err(format!("{}: at the end: {:?}", about, r.map(|f| f.is_some()).map_err(|e| e.to_string()))),
        }
    }
    match s.next_element() {
        Ok(Element::EndOfDoc) if graceful => {}
        Err(stream::Error::Io(ref e)) if !graceful && e.kind() == io::ErrorKind::UnexpectedEof => {}
        Ok(_) => return Err(format!("{}: element after the last one", about)),
        Err(x) => return Err(format!("{}: at the end: {}", about, x)),
    }
    ensure!(s.eof() == graceful && s.pos() == pos, "{}: at the end: eof {} pos {}", about, s.eof(), s.pos());
    Ok(())
}

fn align(src: &mut Src, cx: &mut Cx) -> Res {
    let dev = Dev::new(Mem::new(vec![]).with_plan(gen::plan(src)));
    let mut s = Stream::new(dev.clone());
    let base = match src.below(5) { 0 => 0, 1 => src.uint(62), 2 => { let b = 1 + src.below(62); (1u64 << b) - src.below(9).min(1 << b) } _ => src.below(5000) };
    s.set_pos(base);
    let mut want = vec![];
    let mut pos = base;
    let n = src.range(1, 5);
    let mut log = format!("start {}", base);
    for _ in 0..n {
        match src.below(3) {
            0 => {
                let e = any_el(src);
                e.bytes(&mut want);
                let r = match e {
                    El::Int(t, n) => s.write_u64(t, n),
                    El::Blob(t, ref b) => s.write_blob_data(t, b).map(|_| ()),
                    El::Struct(t) => s.write_struct(t),
                    El::Enum(t, n) => s.write_enum(t, n),
                    El::End => s.write_end_struct(),
                    El::Doc => s.write_end_doc(),
                    El::Pad => s.write_padding(),
                    El::Exc(ref b) => s.write_exception_data(b).map(|_| ()),
                };
                es(r, "write")?;
                pos = base + want.len() as u64;
                log.push_str(&format!(", write up to {}", pos));
            }
            _ => {
                let mut a = 1u64 << match src.below(4) { 0 => src.below(64), _ => src.below(10) };
                let mut need = (a - pos % a) % a;
                while need > 5000 { a >>= 1; need = (a - pos % a) % a; }
                log.push_str(&format!(", align {}", a));
                es(s.pad_to_align(a), "pad_to_align")?;
                for _ in 0..need { want.push(0xC0); }
                pos += need;
                if need > 0 { cx.nontrivial(&a.to_le_bytes()); cx.nontrivial(&pos.to_le_bytes()); }
                if need == 0 { cx.label("already aligned"); } else if need == 1 { cx.label("one byte"); } else { cx.label("several bytes"); }
            }
        }
        ensure!(s.pos() == pos, "{}: position {} instead of {}", log, s.pos(), pos);
        ensure!(dev.data() == want, "{}: wrote [{}] instead of [{}]", log, hex(&dev.data()), hex(&want));
    }
    cx.desc(|| log.clone());
    // an incomplete blob is reported by the alignment itself
    if src.chance(1, 6) {
        let missing = 1 + src.below(40);
        let _ = es(s.write_blob_alloc(1, missing), "write_blob_alloc")?;
        let before = dev.data();
        let a = 1 << src.below(8);
        match s.pad_to_align(a) {
            Err(stream::Error::IncompleteBlob(n)) if n == missing && dev.data() == before => {}
            r => return Err(format!("{}: pad_to_align({}) after a blob lacking {} bytes gave {:?}", log, a, missing, r.map_err(|e| e.to_string()))),
        }
    }
    Ok(())
}

fn tags(src: &mut Src, cx: &mut Cx) -> Res {
    let t = match src.below(5) { 0 => 0, 1 => *src.pick(&[64, 127, 128, 129, 191, 192, 193, 255]), 2 => 64, _ => 64 + src.below(192) as u8 };
    let dev = Dev::new(Mem::new(vec![]).with_plan(gen::plan(src)));
    let mut s = if src.coin() { Stream::new(dev.clone()) } else { Stream::new_seek(dev.clone()) };
    for _ in 0..src.below(3) {
        let t = tag(src);
        let (_, m, r) = write_int(src, &mut s, t);
        es(r, m)?;
    }
    let before = dev.data();
    let pos = s.pos();
    let m = src.below(7);
    let mut what = "";
    let r = catch(|| match m {
        0 | 1 => { let (_, m, r) = write_int(src, &mut s, t); what = m; r }
        2 => { what = "write_blob_data"; s.write_blob_data(t, b"abc").map(|_| ()) }
        3 => { what = "write_blob_alloc"; s.write_blob_alloc(t, 3).map(|_| ()) }
        4 => { what = "write_blob_dynamic"; s.write_blob_dynamic(t).map(|_| ()) }
        5 => { what = "write_struct"; s.write_struct(t) }
        _ => { what = "write_enum"; s.write_enum(t, 5) }
    });
    cx.nontrivial(what.as_bytes());
    cx.nontrivial(&[t]);
    cx.nontrivial(&before);
    cx.desc(|| format!("{} with tag {} after [{}]", what, t, hex(&before)));
    match r {
        Ok(x) => return Err(format!("tag {} accepted ({:?}), writing [{}] after [{}]", t, x.map_err(|e| e.to_string()), hex(&dev.data()[before.len()..]), hex(&before))),
        Err(ref p) if p.contains("FUSE") => return Err(p.clone()),
        Err(_) => {}
    }
    ensure!(dev.data() == before && s.pos() == pos, "tag {}: something was written before the panic: [{}]", t, hex(&dev.data()));
    Ok(())
}
