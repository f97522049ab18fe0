//! Generators: values of a schema, documents, and mutations of documents.

use crate::refm::*;
use crate::src::Src;

pub struct Gen<'a> {
    pub src: &'a mut Src,
    /// remaining nodes
    pub left: i64,
    /// allow blobs / collections beyond the one-byte length range
    pub big: bool,
    pub max_depth: u32,
}

impl<'a> Gen<'a> {
    pub fn new(src: &'a mut Src) -> Self {
        let left = 8 + 2 * src.size as i64;
        Gen { src, left, big: true, max_depth: 10 }
    }

    fn count(&mut self) -> usize {
        if self.left <= 0 { return 0; }
        if self.big && self.src.chance(1, 120) {
            // beyond one-byte lengths
            if self.src.chance(1, 15) { return self.src.log(8000); }
            return self.src.range(60, 200);
        }
        self.src.len(24)
    }

    /// A source of elements of an oversized collection.
    fn each(&mut self) -> impl FnMut(&mut dyn FnMut(&mut Gen) -> usize, usize) {
        let seed = self.src.below(1 << 20);
        let max_depth = self.max_depth.min(4);
        move |f, n| {
            let mut weight = 0;
            for i in 0..n {
                let mut s = Src::random(crate::src::mix(seed, i as u64));
                s.size = 1;
                let mut g = Gen { src: &mut s, left: 6, big: false, max_depth };
                weight += f(&mut g);
                if weight > 400_000 { break; }
            }
        }
    }

    fn blob(&mut self) -> Vec<u8> {
        if self.big && self.src.chance(1, 60) {
            let n = match self.src.below(4) {
                0 => *self.src.pick(&[127usize, 128, 129, 255, 256, 257]),
                1 => *self.src.pick(&[16383usize, 16384, 16385]),
                2 => self.src.range(100, 700),
                _ if self.src.chance(1, 12) => self.src.large(),
                _ => self.src.range(1, 40) * 100,
            };
            return self.src.bytes_n(n);
        }
        self.src.bytes(200)
    }

    fn byte_array(&mut self, n: usize) -> Vec<u8> {
        let x = self.src.bytes_n(n);
        // prefixes that mean something in an address
        let p: &[u8] = match (n, self.src.below(16)) {
            (4, 15) => &[127, 0, 0],
            (4, 14) => &[255, 255, 255],
            (4, 13) => &[169, 254],
            (4, 12) => &[224, 0],
            (16, 15) => &[0xFE, 0x80, 0, 0, 0, 0, 0, 0],
            (16, 14) => &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xFF, 0xFF],
            (16, 13) => &[0xFF, 0x02],
            (16, 12) => &[0x20, 0x01, 0x0D, 0xB8],
            (16, 11) => &[0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1],
            (16, 10) => &[0, 0x64, 0xFF, 0x9B],
            (16, 9) => &[0x20, 0x02],
            (16, 8) => &[0xFC],
            _ => &[],
        };
        p.iter().cloned().chain(x[p.len()..].iter().cloned()).collect()
    }

    pub fn uv(&mut self, depth: u32) -> UV {
        self.left -= 1;
        let n = if depth >= self.max_depth || self.left <= 0 { 2 } else { 4 };
        match self.src.below(n) {
            0 => UV::Int(self.src.uint(64)),
            1 => UV::Blob(self.blob()),
            2 => UV::Struct(self.uvs(depth + 1, 0)),
            _ => { let d = self.src.uint(64); UV::Enum(d, self.uvs(depth + 1, 0)) }
        }
    }
    /// Unknown fields avoiding the tags in `mask`.
    pub fn uvs(&mut self, depth: u32, mask: u64) -> Vec<(u8, UV)> {
        if self.src.big > 0 && self.src.take_big() {
            let (mut each, n) = (self.each(), self.src.big_count());
            let mut out = vec![];
            each(&mut |g| { let t = g.tag(mask); let u = g.uv(depth + 1); let w = uv_weight(&u); out.push((t, u)); w }, n);
            return out;
        }
        let n = if depth > self.max_depth { 0 } else { self.count().min(60) };
        (0..n).map(|_| { let t = self.tag(mask); (t, self.uv(depth)) }).collect()
    }
    pub fn tag(&mut self, mask: u64) -> u8 {
        let mut t = match self.src.below(3) {
            0 => 1 + self.src.below(8),
            1 => 1 + self.src.below(63),
            _ => *self.src.pick(&[1, 63, 31, 32, 62, 2]),
        } as u8;
        for _ in 0..64 {
            if mask >> t & 1 == 0 { return t; }
            t = if t == 63 { 1 } else { t + 1 };
        }
        t
    }

    fn bodydef(&mut self, d: &BodyDef, depth: u32) -> Vec<Val> {
        if let Some((_, ref s)) = d.delegate { return vec![self.val(s, depth)]; }
        let mut out: Vec<Val> = d.fields.iter().map(|f| self.val(&f.schema, depth + 1)).collect();
        if d.catchall.is_some() {
            let mut mask = 0;
            for f in &d.fields { mask |= 1u64 << f.tag; }
            out.push(Val::Unk(self.uvs(depth + 1, mask)));
        }
        out
    }

    pub fn val(&mut self, s: &Schema, depth: u32) -> Val {
        self.left -= 1;
        let deep = depth >= self.max_depth;
        match s {
            Schema::Lazy(f) => self.val(&f(), depth),
            Schema::U(b) => Val::U(self.src.uint(*b)),
            Schema::I(b) => {
                let u = self.src.uint(*b);
                Val::I(unzz(u))
            }
            Schema::Bool => Val::U(self.src.below(2)),
            Schema::Char => Val::U(self.src.chr() as u64),
            Schema::Null | Schema::Unit => Val::Unit,
            Schema::Str { .. } => {
                if self.big && self.src.chance(1, 30) {
                    let n = *self.src.pick(&[127usize, 128, 200, 256, 300, 1000, 16384]);
                    let c = self.src.chr();
                    let s: String = std::iter::repeat(c).take(n / c.len_utf8()).collect();
                    return Val::Bytes(s.into_bytes());
                }
                Val::Bytes(self.src.string(200).into_bytes())
            }
            Schema::Bytes { .. } => Val::Bytes(self.blob()),
            Schema::ByteArr(n, _) => Val::Bytes(self.byte_array(*n)),
            Schema::Arr(n, e, _) => {
                if *n > 16 {
                    // few draws
                    let k = self.src.range(1, 4);
                    let base: Vec<Val> = (0..k).map(|_| self.val(e, depth + 1)).collect();
                    return Val::Seq((0..*n).map(|i| base[i * i % 7 % k].clone()).collect());
                }
                Val::Seq((0..*n).map(|_| self.val(e, depth + 1)).collect())
            }
            Schema::List(e) | Schema::Set(e) | Schema::Heap(e) => {
                if self.src.big > 0 && self.src.take_big() {
                    let (mut each, n) = (self.each(), self.src.big_count());
                    let mut out = vec![];
                    each(&mut |g| { let v = g.val(e, depth + 1); let w = weight(&v); out.push(v); w }, n);
                    return Val::Seq(out);
                }
                let n = if deep { 0 } else { self.count() };
                if n > 30 {
                    let k = self.src.range(1, 6);
                    let base: Vec<Val> = (0..k).map(|_| self.val(e, depth + 1)).collect();
                    // the size of nested copies would otherwise multiply
                    let each = base.iter().map(weight).max().unwrap();
                    let n = n.min(1 + 6000 / each);
                    return Val::Seq((0..n).map(|i| base[i * i % 11 % k].clone()).collect());
                }
                Val::Seq((0..n).map(|_| self.val(e, depth + 1)).collect())
            }
            Schema::Opt(e) => {
                if deep || self.left <= 0 || !self.src.chance(2, 3) { Val::none() } else { Val::some(self.val(e, depth + 1)) }
            }
            Schema::Map(k, v) => {
                if self.src.big > 0 && self.src.take_big() {
                    let (mut each, n) = (self.each(), self.src.big_count());
                    let mut out = vec![];
                    each(&mut |g| { let x = (g.val(k, depth + 1), g.val(v, depth + 1)); let w = weight(&x.0) + weight(&x.1); out.push(x); w }, n);
                    return Val::Map(out);
                }
                let n = if deep { 0 } else { self.count().min(30) };
                Val::Map((0..n).map(|_| { let a = self.val(k, depth + 1); (a, self.val(v, depth + 1)) }).collect())
            }
            Schema::Struct(d) => {
                let mut v = self.bodydef(&d.body, depth);
                if let Some(c) = d.check {
                    if !c(&v) {
                        match (d.name, &mut v[..]) {
                            ("Duration", [_, Val::U(n)]) => *n %= 1_000_000_000,
                            ("Span", v) => v.swap(0, 1),
                            _ => panic!("no repair for {}", d.name),
                        }
                    }
                }
                Val::Struct(v)
            }
            Schema::Enum(d) => {
                let n = d.variants.len() as u64 + d.unknown.is_some() as u64;
                let i = self.src.below(n) as usize;
                match d.variants.get(i) {
                    Some((disc, b)) => Val::Enum(*disc, self.bodydef(b, depth)),
                    None => {
                        let mut disc = self.src.uint(64);
                        while d.variants.iter().any(|v| v.0 == disc) { disc = disc.wrapping_add(1); }
                        Val::Enum(disc, self.bodydef(d.unknown.as_ref().unwrap(), depth))
                    }
                }
            }
            Schema::Unknown { .. } => Val::Unk(self.uvs(depth + 1, 0)),
            Schema::UnkField { .. } => Val::UF(self.uv(depth)),
        }
    }
}

fn uv_weight(u: &UV) -> usize {
    match u {
        UV::Blob(b) => 1 + b.len() / 100,
        UV::Struct(v) | UV::Enum(_, v) => 1 + v.iter().map(|x| uv_weight(&x.1)).sum::<usize>(),
        _ => 1,
    }
}

/// Number of nodes, and of bytes in hundreds.
fn weight(v: &Val) -> usize {
    let one = uv_weight;
    let uv = |b: &[(u8, UV)]| 1 + b.iter().map(|x| one(&x.1)).sum::<usize>();
    match v {
        Val::Bytes(b) | Val::Borrowed(b, _) => 1 + b.len() / 100,
        Val::Seq(v) | Val::Struct(v) | Val::Enum(_, v) => 1 + v.iter().map(weight).sum::<usize>(),
        Val::Map(v) => 1 + v.iter().map(|(a, b)| weight(a) + weight(b)).sum::<usize>(),
        Val::Unk(v) => uv(v),
        Val::UF(u) => one(u),
        _ => 1,
    }
}

fn item_weight(i: &Item) -> usize {
    match i {
        Item::Field(_, Node::Struct(b)) | Item::Field(_, Node::Enum(_, b)) => 1 + b.items.iter().map(item_weight).sum::<usize>(),
        Item::Field(_, Node::Blob(b)) => 1 + b.len() / 100,
        _ => 1,
    }
}

pub fn val(src: &mut Src, s: &Schema) -> Val { Gen::new(src).val(s, 0) }

// ---------------------------------------------------------------- mutations

/// An arbitrary item.
pub fn any_item(src: &mut Src, mask: u64) -> Item {
    let t = Gen::new(src).tag(mask);
    Item::Field(t, any_node(src))
}

pub fn any_node(src: &mut Src) -> Node {
    let mut g = Gen::new(src);
    g.left = 12;
    g.big = false;
    g.max_depth = 4;
    uv_node(&g.uv(0))
}

/// Unknown field subtree, sometimes deep or large, avoiding the tags in `mask`.
/// With `endings`, for data that is skipped, it may be padded and as deep as
/// it likes.
pub fn unknown_item(src: &mut Src, mask: u64, endings: bool) -> Item {
    let t = Gen::new(src).tag(mask);
    let big = src.big > 0 && src.take_big();
    let mut node = match if big { 12 + src.below(3) } else { src.below(12) } {
        12 | 13 => { let n = src.big_len(); Node::Blob(src.bytes_n(n)) }
        14 => { src.big += 1; let mut g = Gen::new(src); let mut u = vec![]; while g.src.big > 0 { u = g.uvs(0, 0); } uv_node(&UV::Struct(u)) }
        0 => {
            // a chain of nested structs
            let n = if endings && src.chance(1, 40) { src.log(3000) } else { src.range(1, 60) };
            let mut nd = any_node(src);
            for i in 0..n {
                let mut b = Body::new(Known::Opaque);
                b.items.push(Item::Field((i % 63) as u8 + 1, nd));
                if i % 5 == 0 { b.items.push(Item::Field(1, Node::Int(i as u64))); }
                nd = if i % 3 == 2 { Node::Enum(i as u64, b) } else { Node::Struct(b) };
            }
            nd
        }
        1 => {
            let n = if src.chance(1, 20) { src.large() } else { src.range(0, 5000) };
            Node::Blob(src.bytes_n(n))
        }
        2 if src.chance(1, 15) => {
            // a long run
            let n = src.log(10_000);
            let k = src.range(1, 3);
            let mut b = Body::new(Known::Opaque);
            let unit: Vec<Item> = (0..k).map(|_| any_item(src, 0)).collect();
            let n = n / unit.iter().map(item_weight).max().unwrap();
            for i in 0..n { b.items.push(unit[i % k].clone()); }
            Node::Struct(b)
        }
        _ => any_node(src),
    };
    opaque(&mut node);
    if endings && src.chance(1, 4) {
        // padding within
        if let Node::Struct(ref mut b) | Node::Enum(_, ref mut b) = node { b.items.push(Item::Pad); }
    }
    Item::Field(t, node)
}

fn opaque(n: &mut Node) {
    if let Node::Struct(b) | Node::Enum(_, b) = n {
        b.visit_bodies(&mut |b| b.known = Known::Opaque);
    }
}

fn tweak_int(src: &mut Src, n: u64) -> u64 {
    match src.below(9) {
        0 => n.wrapping_add(1),
        1 => n.wrapping_sub(1),
        2 => src.uint(64),
        3 => *src.pick(&[255, 256, 127, 128, 65535, 65536, 0xFFFF_FFFF, 0x1_0000_0000, u64::MAX, i64::MAX as u64, 1 << 63]),
        4 => *src.pick(&[0, 1, 2, 3, 0xD7FF, 0xD800, 0xDFFF, 0xE000, 0x10FFFF, 0x110000, 999_999_999, 1_000_000_000]),
        5 => n ^ 1 << src.below(64),
        6 => n.wrapping_mul(2),
        7 => n.wrapping_add(1 << 32),
        _ => n.wrapping_add(256),
    }
}
fn tweak_blob(src: &mut Src, b: &mut Vec<u8>) {
    match src.below(6) {
        0 => { let x = src.byte(); b.push(x); }
        1 => { b.pop(); }
        2 => { if !b.is_empty() { let i = src.below(b.len() as u64) as usize; b[i] = src.byte(); } }
        3 => { let i = if src.coin() { b.len() } else { src.below(b.len() as u64 + 1) as usize };
               let x = *src.pick(&[&[0x80u8][..], &[0xC3], &[0xED, 0xA0, 0x80], &[0xF4, 0x90, 0x80, 0x80], &[0xC0, 0x80], &[0xFF], &[0xE2, 0x82]]);
               for (k, &y) in x.iter().enumerate() { b.insert(i + k, y); } }
        4 => b.clear(),
        _ => *b = src.bytes(40),
    }
}

/// One structural mutation somewhere in the document.
pub fn mutate(src: &mut Src, doc: &mut Body) -> &'static str {
    let n = doc.count_bodies();
    let k = src.below(n as u64) as usize;
    let mut what = "none";
    doc.with_body(k, &mut |b| { what = mutate_body(src, b); });
    what
}

fn mutate_body(src: &mut Src, b: &mut Body) -> &'static str {
    let n = b.items.len();
    let mask = match b.known { Known::Tags(m) | Known::All(m) => m, Known::Opaque => 0 };
    if n == 0 {
        let it = any_item(src, 0);
        b.items.push(it);
        return "insert";
    }
    let i = src.below(n as u64) as usize;
    match src.below(16) {
        0 => { b.items.remove(i); "delete" }
        1 => { let c = b.items[i].clone(); let j = src.below(n as u64 + 1) as usize; b.items.insert(j, c); "duplicate" }
        2 => { let j = src.below(n as u64) as usize; b.items.swap(i, j); "swap" }
        3 | 4 => {
            if let Item::Field(ref mut t, _) = b.items[i] {
                *t = match src.below(3) {
                    0 => (*t % 63) + 1,
                    1 => if *t == 1 { 63 } else { *t - 1 },
                    _ => 1 + src.below(63) as u8,
                };
            }
            "retag"
        }
        5 => { if let Item::Field(_, ref mut nd) = b.items[i] { *nd = any_node(src); } "retype" }
        6 | 7 | 8 | 9 => {
            if let Item::Field(_, ref mut nd) = b.items[i] {
                match *nd {
                    Node::Int(ref mut x) => *x = tweak_int(src, *x),
                    Node::Blob(ref mut x) => tweak_blob(src, x),
                    Node::Enum(ref mut d, _) => *d = tweak_int(src, *d),
                    Node::Struct(ref s) => { let s = s.clone(); *nd = Node::Enum(src.uint(4), s); }
                    _ => {}
                }
            }
            "tweak"
        }
        10 => { let it = any_item(src, 0); b.items.insert(i, it); "insert" }
        11 => { let it = any_item(src, mask); b.items.insert(i, it); "insert unknown" }
        12 => {
            let it = match src.below(4) {
                0 => Item::Exc(src.bytes(20)),
                1 => Item::EndDoc,
                2 => Item::Pad,
                _ => Item::Exc(src.bytes(400)),
            };
            b.items.insert(i, it);
            "special"
        }
        13 => {
            // wrap / unwrap
            if let Item::Field(t, nd) = b.items[i].clone() {
                match nd {
                    Node::Struct(inner) | Node::Enum(_, inner) if src.coin() => { b.items.splice(i..i + 1, inner.items); }
                    nd => {
                        let mut w = Body::new(Known::Opaque);
                        w.items.push(Item::Field(1, nd));
                        b.items[i] = Item::Field(t, Node::Struct(w));
                    }
                }
            }
            "wrap"
        }
        14 => {
            if let Item::Field(_, ref mut nd) = b.items[i] {
                match *nd {
                    Node::Blob(ref x) => {
                        let l = x.len() as u64;
                        let m = match src.below(4) { 0 => l + 1, 1 => l.saturating_sub(1), 2 => l + src.uint(20), _ => src.uint(64) };
                        *nd = Node::RawBlob(m, x.clone());
                    }
                    Node::Int(x) => {
                        let mut raw = vec![];
                        match src.below(5) {
                            0 => { put_uint(x, &mut raw); let l = raw.len(); raw[l - 1] |= 0x80; }
                            1 => raw = vec![0xFF; src.range(1, 12)],
                            2 => { let e = src.range(240, 262); put_uint_long(x, e, &mut raw); }
                            3 => { raw = vec![0xFF; 9]; raw.push(src.byte()); }
                            _ => { put_uint_long(x, 12, &mut raw); let l = raw.len(); raw[l - 1] = src.byte(); }
                        }
                        *nd = Node::RawInt(raw);
                    }
                    _ => {}
                }
            }
            "raw"
        }
        _ => {
            // exchange tag or contents with another field
            let j = src.below(n as u64) as usize;
            if let (Item::Field(t, a), Item::Field(u, c)) = (b.items[i].clone(), b.items[j].clone()) {
                b.items[i] = Item::Field(t, c);
                b.items[j] = Item::Field(u, a);
            }
            "exchange"
        }
    }
}

/// Byte-level mutation.
pub fn mutate_bytes(src: &mut Src, b: &mut Vec<u8>) {
    if b.is_empty() { b.push(src.byte()); return; }
    let i = src.below(b.len() as u64) as usize;
    match src.below(8) {
        0 => b[i] = src.byte(),
        1 => b[i] ^= 1 << src.below(8),
        2 => b[i] = b[i].wrapping_add(1),
        3 => { let x = src.byte(); b.insert(i, x); }
        4 => { b.remove(i); }
        5 => { b.truncate(i); }
        6 => {
            let j = i + src.below((b.len() - i).min(12) as u64 + 1) as usize;
            let c = b[i..j].to_vec();
            let at = src.below(b.len() as u64 + 1) as usize;
            for (k, x) in c.into_iter().enumerate() { b.insert(at + k, x); }
        }
        _ => b[i] = *src.pick(&[0x00, 0x40, 0x80, 0xC0, 0xFF, 0x7F, 0x01, 0x41, 0x81, 0xC1]),
    }
}

/// Bytes with the flavour of a document: descriptors over few tags, small
/// integers, and so on.
pub fn soup(src: &mut Src, max: usize) -> Vec<u8> {
    let n = src.len(max.max(1));
    let mut out = vec![];
    while out.len() < n {
        match src.below(8) {
            0 => out.push(src.byte()),
            1 => out.push(*src.pick(&[0x00, 0x00, 0x40, 0x80, 0xC0])),
            2 => { out.push(0x40 | 1 + src.below(4) as u8); let v = src.uint(12); put_uint(v, &mut out); }
            3 => { out.push(0x80 | 1 + src.below(4) as u8); let v = src.below(5); put_uint(v, &mut out);
                   for _ in 0..v { out.push(src.byte()); } }
            4 => out.push(0xC0 | 1 + src.below(4) as u8),
            5 => { out.push(1 + src.below(4) as u8); let v = src.below(8); put_uint(v, &mut out); }
            6 => { let v = src.uint(64); out.push(0x80 | 1 + src.below(4) as u8); put_uint(v, &mut out); }
            _ => { let b = src.bytes(4); out.extend(b); }
        }
    }
    out
}

/// Cyclic chunk schedule for a device.
pub fn plan(src: &mut Src) -> Vec<u8> {
    match src.below(4) {
        0 => vec![],
        1 => vec![1],
        2 => { let n = src.range(1, 6); (0..n).map(|_| src.below(8) as u8).collect() }
        _ => { let n = src.range(1, 4); (0..n).map(|_| 1 + src.below(40) as u8).collect() }
    }
}
