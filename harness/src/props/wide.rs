//! Slices of four gigabytes and more, which cost nothing: they are mapped, but
//! hardly any of their pages is ever touched.
//! technique: metamorphic property-based testing: a giant blob in place of a short one
use super::*;
use fourleaf::adapt::Copied;
use fourleaf::de::style;
use fourleaf::unknown::{UnknownField, UnknownFields};
use fourleaf::{Deserialize, Serialize};
use fourleaf::io::TransparentCursor;
use std::borrow::Cow;
use std::io::Write;

extern "C" {
    fn mmap(addr: *mut u8, len: usize, prot: i32, flags: i32, fd: i32, off: i64) -> *mut u8;
    fn munmap(addr: *mut u8, len: usize) -> i32;
}

/// Zero bytes without memory behind them until they are written.
pub struct Map { at: *mut u8, len: usize }
impl Map {
    pub fn new(len: usize) -> Option<Map> {
        // read and write; private, anonymous, not reserved
        let at = unsafe { mmap(std::ptr::null_mut(), len, 3, 0x4022, -1, 0) };
        if at as isize == -1 { None } else { Some(Map { at, len }) }
    }
    pub fn bytes(&self) -> &[u8] { unsafe { std::slice::from_raw_parts(self.at, self.len) } }
    pub fn bytes_mut(&mut self) -> &mut [u8] { unsafe { std::slice::from_raw_parts_mut(self.at, self.len) } }
}
impl Drop for Map { fn drop(&mut self) { unsafe { munmap(self.at, self.len); } } }

const SMALL: usize = 1 << 16;

/// What was written, with runs of zeros counted.  Two lists are equal if and
/// only if the bytes are.
#[derive(Clone, Debug, PartialEq)]
pub enum Seg { Bytes(Vec<u8>), Zeros(u64) }

fn zeros(segs: &mut Vec<Seg>, n: usize) {
    if n == 0 { return; }
    if let Some(&mut Seg::Zeros(ref mut m)) = segs.last_mut() { *m += n as u64; return; }
    segs.push(Seg::Zeros(n as u64));
}
fn add(segs: &mut Vec<Seg>, mut b: &[u8]) {
    while !b.is_empty() {
        let n = b.iter().position(|&x| x != 0).unwrap_or(b.len());
        zeros(segs, n);
        b = &b[n..];
        let n = b.iter().position(|&x| x == 0).unwrap_or(b.len());
        if n > 0 {
            match segs.last_mut() {
                Some(&mut Seg::Bytes(ref mut v)) => v.extend_from_slice(&b[..n]),
                _ => segs.push(Seg::Bytes(b[..n].to_vec())),
            }
        }
        b = &b[n..];
    }
}

/// A sink which does not look at what comes straight from the mapping (at that
/// address and of that length), which is zeros.
pub struct Sink { pub segs: Vec<Seg>, most: usize, map: (usize, usize) }
impl Sink {
    fn new(most: usize, map: Option<&Map>) -> Sink { Sink { segs: vec![], most, map: map.map_or((0, 0), |m| (m.at as usize, m.len)) } }
}
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        let n = if b.len() >= SMALL { b.len().min(self.most) } else { b.len() };
        if (b.as_ptr() as usize).wrapping_sub(self.map.0) < self.map.1 { zeros(&mut self.segs, n); } else { add(&mut self.segs, &b[..n]); }
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
fn sink(src: &mut Src, map: &Map) -> Sink { Sink::new(*src.pick(&[usize::MAX, 0x7fff_f000, 1 << 32, (1 << 32) + 1, 1 << 30]), Some(map)) }

pub fn giant(src: &mut Src) -> usize {
    let u = 1u64 << *src.pick(&[32u32, 32, 32, 31, 33, 34]);
    (u * src.range(1, 2) as u64 + src.below(300) - *src.pick(&[0, 0, 2, 300])) as usize
}

/// Elements one after the other, some of them giant.
pub fn sequence(src: &mut Src, cx: &mut Cx) -> Res {
    use super::c10::{any_el, tag, El};
    let len = giant(src);
    let map = match Map::new(len) { Some(m) => m, None => { cx.label("no address space"); return Ok(()); } };
    let mut s = Stream::new(sink(src, &map));
    let mut want: Vec<Seg> = vec![];
    let mut log = String::new();
    let mut pos = 0u64;
    for _ in 0..src.range(1, 8) {
        let way = src.below(6);
        let mut b = vec![];
        if way > 3 {
            let e = any_el(src);
            e.bytes(&mut b);
            if b.len() >= SMALL { continue; }
            log += &format!("{:?}; ", e);
            let r = match e {
                El::Int(t, n) => s.write_u64(t, n),
                El::Blob(t, d) => s.write_blob_data(t, &d).map(|_| ()),
                El::Struct(t) => s.write_struct(t),
                El::Enum(t, n) => s.write_enum(t, n),
                El::End => s.write_end_struct(),
                El::Doc => s.write_end_doc(),
                El::Pad => s.write_padding(),
                El::Exc(d) => s.write_exception_data(&d).map(|_| ()),
            };
            ensure!(r.is_ok(), "{}: {:?}", log, r);
            add(&mut want, &b);
            pos += b.len() as u64;
        } else {
            let t = tag(src);
            let exc = src.chance(1, 4);
            let part = if src.coin() { map.bytes() } else { &map.bytes()[src.below(200) as usize..] };
            b.push(if exc { 0x80 } else { 0x80 + t });
            put_uint(part.len() as u64, &mut b);
            add(&mut want, &b);
            zeros(&mut want, part.len());
            let at = pos + b.len() as u64;
            pos = at + part.len() as u64;
            log += &format!("{} of {} bytes, way {}; ", if exc { "exception".into() } else { format!("blob {}", t) }, part.len(), way);
            let r = (|| -> stream::Result<(u64, u64, u64, u64)> {
                if way < 2 {
                    let h = if exc { s.write_exception_data(part)? } else { s.write_blob_data(t, part)? };
                    return Ok((h.start_pos(), h.end_pos(), h.remaining(), h.stream_pos()));
                }
                let mut h = if exc { s.write_exception_alloc(part.len() as u64)? } else { s.write_blob_alloc(t, part.len() as u64)? };
                let cut = (part.len() as u64 / 5 * src.below(6)) as usize;
                h.write_all(&part[..cut])?;
                if h.remaining() != (part.len() - cut) as u64 { return Ok((0, 0, h.remaining(), 0)); }
                h.write_all(&part[cut..])?;
                Ok((h.start_pos(), h.end_pos(), h.remaining(), h.stream_pos()))
            })();
            ensure!(matches!(r, Ok(x) if x == (at, pos, 0, pos)), "{}: (start, end, remaining, position) = {:?} instead of {:?}", log, r, (at, pos, 0, pos));
            cx.nontrivial(&b);
        }
        ensure!(s.pos() == pos, "{}: position {} instead of {}", log, s.pos(), pos);
    }
    let r = s.commit();
    ensure!(r.is_ok(), "{}: commit: {:?}", log, r);
    let got = s.into_inner().segs;
    ensure!(got == want, "{}: {:x?} instead of {:x?}", log, got, want);
    cx.desc(|| log);
    Ok(())
}

/// The short blobs which stand for the giant ones.
const A: [u8; 300] = [0x5A; 300];
const B: [u8; 301] = [0xA5; 301];

fn unknown<'a>(a: &'a [u8], b: &'a [u8], n: u64) -> UnknownFields<'a> {
    UnknownFields(vec![
        (3, UnknownField::Integer(n)),
        (1, UnknownField::Blob(Cow::Borrowed(a))),
        (7, UnknownField::Struct(UnknownFields(vec![(9, UnknownField::Blob(Cow::Borrowed(b))), (2, UnknownField::Enum(n, UnknownFields(vec![])))]))),
    ])
}

const SHAPES: u64 = 9;
fn write<T: Serialize>(x: T, way: u64, tag: u8, s: &mut Stream<Sink>) -> stream::Result<()> {
    match way {
        0 => fourleaf::to_stream(s, &x)?,
        1 => { x.serialize_field(s, tag)?; }
        2 => { x.serialize_element(s, tag)?; }
        _ => x.serialize_body(s)?,
    }
    s.write_u64(5, 5)?;
    s.commit()
}
fn shape(k: u64, a: &[u8], b: &[u8], n: u64, way: u64, tag: u8, s: &mut Stream<Sink>) -> stream::Result<()> {
    // zeros, or the letters of A, are valid UTF-8
    let text = unsafe { std::str::from_utf8_unchecked(a) };
    match k {
        0 => write(a, way, tag, s),
        1 => write((a, n), way, tag, s),
        2 => write((n, Some(b), a, n), way, tag, s),
        3 => write(vec![a, b, a], way, tag, s),
        4 => write([unknown(a, b, n)], way, tag, s),
        5 => write(Cow::Borrowed(a), way, tag, s),
        6 => write((text, Box::new(Copied(b))), way, tag, s),
        7 => write((std::rc::Rc::new(Cow::Borrowed(text)), n), way, tag, s),
        _ => write((vec![(n, a), (n, b)],), way, tag, s),
    }
}

fn find(h: &[u8], n: &[u8]) -> Option<usize> { h.windows(n.len()).position(|w| w == n) }

/// The document with the giant blobs in place of the short ones: bytes, each
/// followed by a number of zeros.
fn place(doc: &[u8], a: usize, b: usize) -> Vec<(Vec<u8>, usize)> {
    let mut out = vec![];
    let mut rest = doc;
    loop {
        let pa = find(rest, &A);
        let pb = find(rest, &B);
        let (p, short, g) = match (pa, pb) {
            (Some(x), Some(y)) if x < y => (x, &A[..], a),
            (_, Some(y)) => (y, &B[..], b),
            (Some(x), None) => (x, &A[..], a),
            (None, None) => { out.push((rest.to_vec(), 0)); return out; }
        };
        let mut head = rest[..p - 2].to_vec();
        put_uint(g as u64, &mut head);
        out.push((head, g));
        rest = &rest[p + short.len()..];
    }
}

fn short(k: u64, n: u64, way: u64, tag: u8) -> Vec<u8> {
    let mut s = Stream::new(Sink::new(usize::MAX, None));
    shape(k, &A, &B, n, way, tag, &mut s).unwrap();
    let mut out = vec![];
    for x in s.into_inner().segs {
        match x { Seg::Bytes(v) => out.extend(v), Seg::Zeros(n) => out.resize(out.len() + n as usize, 0) }
    }
    out
}

/// Serialisation of values with giant slices.
pub fn bytes(src: &mut Src, cx: &mut Cx) -> Res {
    let (k, n, way, tag) = (src.below(SHAPES), src.uint(63), src.below(4), super::c10::tag(src));
    let (la, lb) = (giant(src), giant(src));
    let map = match Map::new(la.max(lb)) { Some(m) => m, None => { cx.label("no address space"); return Ok(()); } };
    let (a, b) = (&map.bytes()[..la], &map.bytes()[..lb]);
    let parts = place(&short(k, n, way, tag), la, lb);
    let mut want = vec![];
    for &(ref x, n) in &parts { add(&mut want, x); zeros(&mut want, n); }
    let mut s = Stream::new(sink(src, &map));
    let r = shape(k, a, b, n, way, tag, &mut s);
    let log = format!("shape {} with {} and {} bytes and {} in way {} under {}", k, la, lb, n, way, tag);
    ensure!(r.is_ok(), "{}: {:?}", log, r);
    let len: u64 = parts.iter().map(|x| (x.0.len() + x.1) as u64).sum();
    ensure!(s.pos() == len, "{}: position {} instead of {}", log, s.pos(), len);
    let got = s.into_inner().segs;
    ensure!(got == want, "{}: {:x?} instead of {:x?}", log, got, want);
    cx.nontrivial(format!("{} {} {} {}", k, la, lb, way).as_bytes());
    cx.desc(|| log);
    Ok(())
}

type Cur<'a> = TransparentCursor<&'a [u8]>;

/// A document with giant blobs, in memory, and where the blobs are.
fn lay(doc: &[u8], la: usize, lb: usize) -> Option<(Map, Vec<(usize, usize)>)> {
    let parts = place(doc, la, lb);
    let mut m = Map::new(parts.iter().map(|x| x.0.len() + x.1).sum())?;
    let mut at = 0;
    let mut blobs = vec![];
    for (v, n) in parts {
        m.bytes_mut()[at..at + v.len()].copy_from_slice(&v);
        at += v.len();
        if n > 0 { blobs.push((at, n)); at += n; }
    }
    Some((m, blobs))
}

fn slices<'a>(v: &UnknownFields<'a>, out: &mut Vec<&'a [u8]>) {
    for f in &v.0 {
        match f.1 {
            UnknownField::Blob(Cow::Borrowed(b)) => out.push(b),
            UnknownField::Blob(Cow::Owned(_)) => out.push(&[]),
            UnknownField::Struct(ref v) | UnknownField::Enum(_, ref v) => slices(v, out),
            UnknownField::Integer(_) => (),
        }
    }
}

fn cow<'a>(c: &Cow<'a, [u8]>) -> &'a [u8] { match *c { Cow::Borrowed(b) => b, Cow::Owned(_) => &[] } }

/// Zero-copy reading of giant slices, or passing over them.
pub fn borrow(src: &mut Src, cx: &mut Cx) -> Res {
    let k = *src.pick(&[0, 1, 2, 3, 4, 5, 8]);
    let (n, la, lb) = (src.uint(63), giant(src), giant(src));
    let doc = short(k, n, 0, 1);
    let (map, blobs) = match lay(&doc, la, lb) { Some(m) => m, None => { cx.label("no address space"); return Ok(()); } };
    let way = src.below(3);
    let log = format!("shape {} with {} and {} bytes and {}, read in way {}", k, la, lb, n, way);
    let mut s: Stream<Cur> = Stream::from_slice(map.bytes());
    let mut c = config(way == 0);
    c.max_blob = *src.pick(&[0, 0, 1000, 1 << 40]);
    let mut got: Vec<&[u8]> = vec![];
    let mut ints = vec![];
    fn rd<'a, T: Deserialize<Cur<'a>, style::ZeroCopy>>(s: &mut Stream<Cur<'a>>, c: &Config) -> Result<T, String> {
        fourleaf::from_stream_borrow(s, c).map_err(|e| format!("{:?}", e))
    }
    let mut blobs = blobs;
    let r = (|| -> Result<(), String> {
        if way == 2 {
            // element by element
            let e = |e: fourleaf::stream::Error| format!("{:?}", e);
            let mut left = blobs.len();
            while let Some(mut f) = s.next_field().map_err(e)? {
                if let fourleaf::stream::Value::Blob(ref mut b) = f.value {
                    let x = b.slice().map_err(e)?.len();
                    let y: &[u8] = b.ext_slice().map_err(e)?;
                    if y.is_empty() || x != y.len() { return Err(format!("slice of {}, then ext_slice of {}", x, y.len())); }
                    got.push(y);
                    left -= 1;
                    if left == 0 { break; }
                    continue;
                }
                match f.value {
                    fourleaf::stream::Value::Struct(_) | fourleaf::stream::Value::Enum(..) => {
                        // its fields come next, unless they are asked to be skipped
                        drop(f);
                        descend(&mut s, &mut got, &mut left).map_err(e)?;
                        if left == 0 { break; }
                    }
                    _ => (),
                }
            }
            return Ok(());
        }
        if way == 1 {
            // all blobs are unknown fields, which are passed over
            let () = rd(&mut s, &c)?;
            blobs.clear();
            return Ok(());
        }
        match k {
            0 => got.push(rd(&mut s, &c)?),
            1 => { let (x, y): (&[u8], u64) = rd(&mut s, &c)?; got.push(x); ints.push(y); }
            2 => { let (x, p, q, y): (u64, Option<&[u8]>, &[u8], u64) = rd(&mut s, &c)?; got.extend(p); got.push(q); ints.push(x); ints.push(y); }
            3 => { let v: Vec<&[u8]> = rd(&mut s, &c)?; got = v; }
            4 => { let [u]: [UnknownFields; 1] = rd(&mut s, &c)?; slices(&u, &mut got); }
            5 => { let v: Cow<[u8]> = rd(&mut s, &c)?; got.push(cow(&v)); }
            _ => { let (v,): (Vec<(u64, Cow<[u8]>)>,) = rd(&mut s, &c)?; for (x, y) in v { ints.push(x); got.push(cow(&y)); } }
        }
        Ok(())
    })();
    ensure!(r.is_ok(), "{}: {:?}", log, r);
    let base = map.bytes().as_ptr() as usize;
    let got: Vec<(usize, usize)> = got.iter().map(|x| ((x.as_ptr() as usize).wrapping_sub(base), x.len())).collect();
    ensure!(got == blobs, "{}: {:?} instead of {:?}", log, got, blobs);
    ensure!(ints.iter().all(|&x| x == n), "{}: integers {:?}", log, ints);
    if way < 2 {
        let f = s.next_field();
        ensure!(matches!(f, Ok(Some(ref f)) if f.tag == 5 && f.value.to_u64().ok() == Some(5)), "{}: {:?} follows", log, f.map(|f| f.map(|f| f.tag)));
        drop(f);
        ensure!(s.pos() == map.bytes().len() as u64, "{}: at {} of {}", log, s.pos(), map.bytes().len());
    }
    cx.nontrivial(format!("{} {} {} {}", k, la, lb, way).as_bytes());
    cx.desc(|| log);
    Ok(())
}

fn descend<'a>(s: &mut Stream<Cur<'a>>, got: &mut Vec<&'a [u8]>, left: &mut usize) -> stream::Result<()> {
    while *left > 0 {
        let mut f = match s.next_field()? { Some(f) => f, None => return Ok(()) };
        match f.value {
            fourleaf::stream::Value::Blob(ref mut b) => { got.push(b.ext_slice()?); *left -= 1; continue; }
            fourleaf::stream::Value::Struct(_) | fourleaf::stream::Value::Enum(..) => (),
            _ => continue,
        }
        drop(f);
        descend(s, got, left)?;
    }
    Ok(())
}

fn outcome<'a, T: Deserialize<Cur<'a>, style::Copying>>(b: &'a [u8], c: &Config, way: u64) -> Result<(), de::Error> {
    if way == 0 { return fourleaf::from_slice_copy::<T>(b, c).map(|_| ()); }
    let mut s = Stream::from_slice(b);
    fourleaf::from_stream_copy::<_, T>(&mut s, c).map(|_| ())
}

/// Giant blobs are as unacceptable as slightly too long ones.
pub fn arrays(src: &mut Src, cx: &mut Cx) -> Res {
    macro_rules! arr { ($($n:tt)*) => { [$(($n, (|b: &[u8], c: &Config, w: u64| outcome::<[u8; $n]>(b, c, w)) as fn(&[u8], &Config, u64) -> Result<(), de::Error>),)*] } }
    let all = arr!(0 1 2 3 4 5 7 8 9 15 16 17 31 32 64 128 256 512 1024 4096);
    let (n, f) = *src.pick(&all);
    let more = (1u64 << *src.pick(&[32u32, 32, 33, 34])) * src.range(1, 2) as u64;
    let slack = *src.pick(&[0u64, 0, 0, 1, 2]);
    let len = n as u64 + more - slack;
    let mut head = vec![0x81];
    put_uint(len, &mut head);
    let mut map = match Map::new(head.len() + len as usize + 1) { Some(m) => m, None => { cx.label("no address space"); return Ok(()); } };
    map.bytes_mut()[..head.len()].copy_from_slice(&head);
    let mut over = vec![0x81];
    put_uint(n as u64 + 1, &mut over);
    over.resize(over.len() + n + 2, 0);
    let way = src.below(2);
    let c = config(src.coin());
    let got = f(map.bytes(), &c, way);
    let want = f(&over, &c, way);
    let same = match (&got, &want) { (&Err(ref a), &Err(ref b)) => std::mem::discriminant(a) == std::mem::discriminant(b), _ => false };
    ensure!(same, "[u8; {}] from a blob of {} bytes: {:?}, but {:?} from one of {}", n, len, got, want, n + 1);
    cx.nontrivial(&head);
    cx.desc(|| format!("[u8; {}] from {} bytes", n, len));
    Ok(())
}

/// Giant blobs exceed any smaller limit.
pub fn limits(src: &mut Src, cx: &mut Cx) -> Res {
    let len = giant(src);
    let k = src.below(5);
    let mut head = vec![0x81];
    put_uint(len as u64, &mut head);
    let mut map = match Map::new(head.len() + len + 1) { Some(m) => m, None => { cx.label("no address space"); return Ok(()); } };
    map.bytes_mut()[..head.len()].copy_from_slice(&head);
    let mut c = config(src.coin());
    c.max_blob = match src.below(5) {
        0 => len - 1,
        1 => src.below(1000) as usize,
        2 => (len as u32) as usize,
        3 => u32::MAX as usize,
        _ => len / 2,
    };
    if c.max_blob >= len { c.max_blob = len - 1; }
    let way = src.below(2);
    let m = map.bytes();
    let got = match k {
        0 => outcome::<Vec<u8>>(m, &c, way),
        1 => outcome::<String>(m, &c, way),
        2 => outcome::<UnknownFields>(m, &c, way),
        3 => outcome::<Cow<[u8]>>(m, &c, way),
        _ => outcome::<(std::rc::Rc<Vec<u8>>,)>(m, &c, way),
    };
    ensure!(matches!(got, Err(de::Error::MaxBlobExceeded(_))), "type {} from a blob of {} bytes with a limit of {}: {:?}", k, len, c.max_blob, got);
    cx.nontrivial(format!("{} {} {}", k, len, c.max_blob).as_bytes());
    cx.desc(|| format!("type {} from a blob of {} bytes with a limit of {}", k, len, c.max_blob));
    Ok(())
}

/// Documents with giant blobs which end too early.
pub fn cut(src: &mut Src, cx: &mut Cx) -> Res {
    let k = *src.pick(&[0, 1, 2, 3, 4, 5, 8]);
    let (n, la, lb) = (src.uint(63), giant(src), giant(src));
    let doc = short(k, n, 0, 1);
    let (map, blobs) = match lay(&doc, la, lb) { Some(m) => m, None => { cx.label("no address space"); return Ok(()); } };
    // the value ends before the last two bytes
    let end = map.bytes().len() - 2;
    let &(at, len) = src.pick(&blobs);
    let way = src.below(3);
    // where the end is looked for by reading, there is little to read
    let p = match if way == 0 { src.below(6) } else { *src.pick(&[1, 4]) } {
        0 => at + len - 1,
        1 => at + src.below(300) as usize,
        2 => at + (len as u32 as usize).min(len - 1),
        3 => at + src.below(len as u64) as usize,
        4 => end - 1,
        _ => at + len - (1usize << 32).min(len),
    }.min(end - 1);
    let b = &map.bytes()[..p];
    let log = format!("shape {} with {} and {} bytes and {}, cut at {} of {}, read in way {}", k, la, lb, n, p, end, way);
    let c = config(way == 0);
    fn rd<'a, T: Deserialize<Cur<'a>, style::ZeroCopy>>(b: &'a [u8], c: &Config) -> Result<(), EK> {
        fourleaf::from_slice_borrow::<T>(b, c).map(|_| ()).map_err(|e| kind(&e).0)
    }
    let got = match (way, k) {
        (1, _) => rd::<()>(b, &c),
        (2, _) => {
            // skipped, element by element
            let mut s = Stream::from_slice(b);
            loop {
                match s.next_element() {
                    Ok(fourleaf::stream::Element::EndOfDoc) => break Ok(()),
                    Ok(_) => (),
                    Err(e) => break Err(skind(&e)),
                }
            }
        }
        (_, 0) => rd::<&[u8]>(b, &c),
        (_, 1) => rd::<(&[u8], u64)>(b, &c),
        (_, 2) => rd::<(u64, Option<&[u8]>, &[u8], u64)>(b, &c),
        (_, 3) => rd::<Vec<&[u8]>>(b, &c),
        (_, 4) => rd::<[UnknownFields; 1]>(b, &c),
        (_, 5) => rd::<Cow<[u8]>>(b, &c),
        _ => rd::<(Vec<(u64, Cow<[u8]>)>,)>(b, &c),
    };
    ensure!(matches!(got, Err(ref k) if super::c15::eofish(k)), "{}: {:?}", log, got);
    cx.nontrivial(log.as_bytes());
    cx.desc(|| log);
    Ok(())
}

/// A sink which keeps no more than the ends of what it is given.
struct Ends { len: u64, head: Vec<u8>, tail: Vec<u8>, other: u64 }
impl Write for Ends {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.head.len() < SMALL { self.head.extend_from_slice(&b[..b.len().min(SMALL)]); }
        self.tail.extend_from_slice(&b[b.len().saturating_sub(1000)..]);
        let n = self.tail.len();
        if n > SMALL { self.tail.drain(..n - 1000); }
        self.other += b.iter().map(|&x| (x != 0) as u64).sum::<u64>();
        self.len += b.len() as u64;
        Ok(b.len())
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}

/// Copying an element of four gigabytes.
pub fn copy(src: &mut Src, cx: &mut Cx) -> Res {
    let exc = src.chance(1, 3);
    let by_field = !exc && src.coin();
    let t = super::c10::tag(src);
    let len = (1usize << 32) + src.below(300) as usize - *src.pick(&[0, 0, 0, 150]);
    let mut head = vec![0xC0 + t, 0x41, 0x07];
    if by_field { head.remove(0); }
    head.push(if exc { 0x80 } else { 0x80 + t });
    put_uint(len as u64, &mut head);
    let tail = if by_field { vec![0x42, 0x09] } else { vec![0x42, 0x09, 0] };
    let total = head.len() + len + tail.len();
    let mut map = match Map::new(total) { Some(m) => m, None => { cx.label("no address space"); return Ok(()); } };
    map.bytes_mut()[..head.len()].copy_from_slice(&head);
    map.bytes_mut()[head.len() + len..].copy_from_slice(&tail);
    let log = format!("[{}] {} bytes [{}], {}", hex(&head), len, hex(&tail), if by_field { "field by field" } else { "element by element" });
    let mut s = Stream::from_slice(map.bytes());
    let mut d = Stream::new(Ends { len: 0, head: vec![], tail: vec![], other: 0 });
    let n = if by_field { 3 } else { 5 };
    for i in 0..n {
        let r = if by_field { s.next_field().and_then(|f| d.write_field(&mut f.unwrap())) } else { s.next_element().and_then(|mut e| d.write_element(&mut e)) };
        ensure!(r.is_ok(), "{}: element {}: {:?}", log, i, r);
    }
    let r = d.commit();
    ensure!(r.is_ok(), "{}: commit: {:?}", log, r);
    ensure!(d.pos() == total as u64, "{}: destination at {} instead of {}", log, d.pos(), total);
    let d = d.into_inner();
    let set = head.iter().chain(&tail).filter(|&&x| x != 0).count() as u64;
    ensure!(d.len == total as u64 && d.other == set && d.head.starts_with(&head) && d.tail.ends_with(&tail),
        "{}: the copy has {} bytes of {}, {} of {} not zero", log, d.len, total, d.other, set);
    cx.nontrivial(log.as_bytes());
    cx.desc(|| log);
    Ok(())
}
