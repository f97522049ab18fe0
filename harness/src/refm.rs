//! Independent reference of the fourleaf format: schemas, values, documents,
//! encoder and decoder.  Written from the documentation; shares nothing with
//! the crate under test.

use std::sync::Arc;

// ------------------------------------------------------------------ schemas

#[derive(Clone)]
pub enum Schema {
    U(u32),
    I(u32),
    Bool,
    Char,
    /// PhantomData: integer zero
    Null,
    /// ()
    Unit,
    /// UTF-8 blob; `charge`: copied (and so counted against the blob limit)
    Str { charge: bool },
    Bytes { charge: bool },
    /// byte array of exact length
    ByteArr(usize, bool),
    /// non-byte array of exact length
    Arr(usize, Arc<Schema>, bool),
    List(Arc<Schema>),
    Set(Arc<Schema>),
    Heap(Arc<Schema>),
    Opt(Arc<Schema>),
    Map(Arc<Schema>, Arc<Schema>),
    Struct(Arc<StructDef>),
    Enum(Arc<EnumDef>),
    Lazy(fn() -> Schema),
    /// container of arbitrary fields
    Unknown { charge: bool },
    /// one arbitrary field
    UnkField { charge: bool },
}

pub struct FieldDef {
    pub tag: u8,
    pub name: &'static str,
    pub schema: Schema,
}

#[derive(Default)]
pub struct BodyDef {
    pub fields: Vec<FieldDef>,
    pub delegate: Option<(&'static str, Schema)>,
    /// name, and whether blobs are charged
    pub catchall: Option<(&'static str, bool)>,
}

pub struct StructDef {
    pub name: &'static str,
    pub body: BodyDef,
    pub check: Option<fn(&[Val]) -> bool>,
}

pub struct EnumDef {
    pub name: &'static str,
    pub variants: Vec<(u64, BodyDef)>,
    pub unknown: Option<BodyDef>,
}

impl Schema {
    pub fn force(&self) -> Schema {
        match self { Schema::Lazy(f) => f().force(), s => s.clone() }
    }
    pub fn list(s: Schema) -> Schema { Schema::List(Arc::new(s)) }
    pub fn opt(s: Schema) -> Schema { Schema::Opt(Arc::new(s)) }
    pub fn tuple(ss: Vec<Schema>) -> Schema {
        const NAMES: [&str; 16] = ["field_0", "field_1", "field_2", "field_3", "field_4", "field_5", "field_6",
            "field_7", "field_8", "field_9", "field_10", "field_11", "field_12", "field_13", "field_14", "field_15"];
        Schema::Struct(Arc::new(StructDef {
            name: "tuple",
            body: BodyDef {
                fields: ss.into_iter().enumerate().map(|(i, s)| FieldDef { tag: i as u8 + 1, name: NAMES[i], schema: s }).collect(),
                ..BodyDef::default()
            },
            check: None,
        }))
    }
}

// ------------------------------------------------------------------- values

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Val {
    U(u64),
    I(i64),
    Unit,
    /// strings too
    Bytes(Vec<u8>),
    /// borrowed bytes with the offset they were borrowed from (0 if empty)
    Borrowed(Vec<u8>, i64),
    Seq(Vec<Val>),
    Map(Vec<(Val, Val)>),
    /// declared fields in order, then the catch-all if any; or the delegate
    Struct(Vec<Val>),
    Enum(u64, Vec<Val>),
    Unk(Vec<(u8, UV)>),
    UF(UV),
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum UV {
    Int(u64),
    Blob(Vec<u8>),
    BBlob(Vec<u8>, i64),
    Struct(Vec<(u8, UV)>),
    Enum(u64, Vec<(u8, UV)>),
}

impl UV {
    pub fn strip(&self) -> UV {
        let l = |v: &Vec<(u8, UV)>| v.iter().map(|(t, u)| (*t, u.strip())).collect();
        match self {
            UV::Int(n) => UV::Int(*n),
            UV::Blob(b) | UV::BBlob(b, _) => UV::Blob(b.clone()),
            UV::Struct(v) => UV::Struct(l(v)),
            UV::Enum(d, v) => UV::Enum(*d, l(v)),
        }
    }
}

impl Val {
    pub fn none() -> Val { Val::Seq(vec![]) }
    pub fn some(v: Val) -> Val { Val::Seq(vec![v]) }
    /// Forgets where borrowed data came from.
    pub fn strip(&self) -> Val {
        let l = |v: &Vec<Val>| v.iter().map(|x| x.strip()).collect();
        match self {
            Val::Borrowed(b, _) => Val::Bytes(b.clone()),
            Val::Seq(v) => Val::Seq(l(v)),
            Val::Map(v) => Val::Map(v.iter().map(|(a, b)| (a.strip(), b.strip())).collect()),
            Val::Struct(v) => Val::Struct(l(v)),
            Val::Enum(d, v) => Val::Enum(*d, l(v)),
            Val::Unk(v) => Val::Unk(v.iter().map(|(t, u)| (*t, u.strip())).collect()),
            Val::UF(u) => Val::UF(u.strip()),
            v => v.clone(),
        }
    }
}

/// Puts unordered collections into a canonical order.
pub fn canon(s: &Schema, v: &Val) -> Val {
    match (s, v) {
        (Schema::Lazy(f), v) => canon(&f(), v),
        (Schema::Arr(_, s, _), Val::Seq(v)) | (Schema::List(s), Val::Seq(v)) | (Schema::Opt(s), Val::Seq(v)) =>
            Val::Seq(v.iter().map(|x| canon(s, x)).collect()),
        (Schema::Set(s), Val::Seq(v)) => {
            let mut v: Vec<Val> = v.iter().map(|x| canon(s, x)).collect();
            v.sort();
            v.dedup();
            Val::Seq(v)
        }
        (Schema::Heap(s), Val::Seq(v)) => {
            let mut v: Vec<Val> = v.iter().map(|x| canon(s, x)).collect();
            v.sort();
            Val::Seq(v)
        }
        (Schema::Map(ks, vs), Val::Map(v)) => {
            let mut out: Vec<(Val, Val)> = Vec::new();
            let mut at: std::collections::BTreeMap<Val, usize> = std::collections::BTreeMap::new();
            for (k, x) in v {
                let (k, x) = (canon(ks, k), canon(vs, x));
                match at.entry(k.strip()) {
                    std::collections::btree_map::Entry::Occupied(i) => out[*i.get()].1 = x,
                    std::collections::btree_map::Entry::Vacant(e) => { e.insert(out.len()); out.push((k, x)); }
                }
            }
            out.sort();
            Val::Map(out)
        }
        (Schema::Struct(d), Val::Struct(v)) => Val::Struct(canon_body(&d.body, v)),
        (Schema::Enum(d), Val::Enum(n, v)) => {
            match d.variants.iter().find(|x| x.0 == *n).map(|x| &x.1).or(d.unknown.as_ref()) {
                Some(b) => Val::Enum(*n, canon_body(b, v)),
                None => Val::Enum(*n, v.clone()),
            }
        }
        (_, v) => v.clone(),
    }
}
fn canon_body(b: &BodyDef, v: &[Val]) -> Vec<Val> {
    if let Some((_, ref s)) = b.delegate { return vec![canon(s, &v[0])]; }
    v.iter().enumerate().map(|(i, x)| match b.fields.get(i) { Some(f) => canon(&f.schema, x), None => x.clone() }).collect()
}

// ---------------------------------------------------------------- documents

#[derive(Clone, Debug, PartialEq)]
pub enum Node {
    Int(u64),
    Blob(Vec<u8>),
    /// Blob with a declared length different from the bytes present.
    RawBlob(u64, Vec<u8>),
    /// Raw bytes of an integer.
    RawInt(Vec<u8>),
    Struct(Body),
    Enum(u64, Body),
}

#[derive(Clone, Debug, PartialEq)]
pub enum Item {
    Field(u8, Node),
    Exc(Vec<u8>),
    Pad,
    EndDoc,
}

/// What the reader of a body does with tags it does not declare.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Known {
    /// bit set of declared tags
    Tags(u64),
    /// catch-all, with the bit set of declared tags
    All(u64),
    /// inside skipped content
    Opaque,
}

#[derive(Clone, Debug, PartialEq)]
pub struct Body {
    pub items: Vec<Item>,
    pub known: Known,
}

impl Body {
    pub fn new(known: Known) -> Body { Body { items: vec![], known } }
    pub fn visit_bodies<'a>(&'a mut self, f: &mut dyn FnMut(&mut Body)) {
        f(self);
        for it in &mut self.items {
            match it {
                Item::Field(_, Node::Struct(b)) | Item::Field(_, Node::Enum(_, b)) => b.visit_bodies(f),
                _ => {}
            }
        }
    }
    pub fn count_bodies(&mut self) -> usize { let mut n = 0; self.visit_bodies(&mut |_| n += 1); n }
    /// Applies `f` to the `k`th body in pre-order.
    pub fn with_body(&mut self, k: usize, f: &mut dyn FnMut(&mut Body)) {
        let mut n = 0;
        let mut ff = |b: &mut Body| { if n == k { f(b); } n += 1; };
        // visit on a snapshot order: the callback may add bodies below, which
        // is harmless since the target index has been reached by then
        self.visit_bodies(&mut ff);
    }
}

pub fn zz(i: i64) -> u64 {
    if i >= 0 { (i as u64) * 2 } else { (-(i + 1)) as u64 * 2 + 1 }
}
pub fn unzz(u: u64) -> i64 {
    if u % 2 == 0 { (u / 2) as i64 } else { -((u / 2) as i64) - 1 }
}

// ------------------------------------------------------------------ encoder

fn enc_bodydef(d: &BodyDef, v: &[Val]) -> Body {
    if let Some((_, ref s)) = d.delegate { return enc_body(s, &v[0]); }
    let mut mask = 0u64;
    for f in &d.fields { mask |= 1 << f.tag; }
    let mut b = Body::new(if d.catchall.is_some() { Known::All(mask) } else { Known::Tags(mask) });
    for (i, f) in d.fields.iter().enumerate() { enc_field(&f.schema, &v[i], f.tag, &mut b.items); }
    if d.catchall.is_some() {
        match &v[d.fields.len()] {
            Val::Unk(u) => for (t, x) in u { b.items.push(Item::Field(*t, uv_node(x))); },
            o => panic!("bad catch-all value {:?}", o),
        }
    }
    b
}

pub fn uv_node(u: &UV) -> Node {
    match u {
        UV::Int(n) => Node::Int(*n),
        UV::Blob(b) | UV::BBlob(b, _) => Node::Blob(b.clone()),
        UV::Struct(v) => Node::Struct(uv_body(v)),
        UV::Enum(d, v) => Node::Enum(*d, uv_body(v)),
    }
}
pub fn uv_body(v: &[(u8, UV)]) -> Body {
    let mut b = Body::new(Known::All(0));
    for (t, u) in v { b.items.push(Item::Field(*t, uv_node(u))); }
    b
}

/// Struct-body (and top-level) context.
pub fn enc_body(s: &Schema, v: &Val) -> Body {
    match (s, v) {
        (Schema::Lazy(f), v) => enc_body(&f(), v),
        (Schema::Struct(d), Val::Struct(v)) => enc_bodydef(&d.body, v),
        (Schema::Unknown { .. }, Val::Unk(v)) => uv_body(v),
        (s, v) => {
            let mut b = Body::new(Known::Tags(1 << 1));
            enc_field(s, v, 1, &mut b.items);
            b
        }
    }
}

/// Struct-field context.
pub fn enc_field(s: &Schema, v: &Val, tag: u8, out: &mut Vec<Item>) {
    match (s, v) {
        (Schema::Lazy(f), v) => enc_field(&f(), v, tag, out),
        (Schema::Arr(_, s, _), Val::Seq(v)) | (Schema::List(s), Val::Seq(v)) | (Schema::Set(s), Val::Seq(v))
        | (Schema::Heap(s), Val::Seq(v)) | (Schema::Opt(s), Val::Seq(v)) =>
            for x in v { out.push(Item::Field(tag, enc_elem(s, x))); },
        (Schema::Map(ks, vs), Val::Map(v)) => for (k, x) in v {
            let mut b = Body::new(Known::Tags(1 << 1 | 1 << 2));
            enc_field(ks, k, 1, &mut b.items);
            enc_field(vs, x, 2, &mut b.items);
            out.push(Item::Field(tag, Node::Struct(b)));
        },
        (Schema::Unknown { .. }, _) => panic!("unknown fields in field context"),
        (s, v) => out.push(Item::Field(tag, enc_elem(s, v))),
    }
}

/// Collection-element context.
pub fn enc_elem(s: &Schema, v: &Val) -> Node {
    match (s, v) {
        (Schema::Lazy(f), v) => enc_elem(&f(), v),
        (Schema::U(_), Val::U(n)) | (Schema::Bool, Val::U(n)) | (Schema::Char, Val::U(n)) => Node::Int(*n),
        (Schema::I(_), Val::I(n)) => Node::Int(zz(*n)),
        (Schema::Null, _) => Node::Int(0),
        (Schema::Unit, _) => Node::Struct(Body::new(Known::Tags(0))),
        (Schema::Str { .. }, Val::Bytes(b)) | (Schema::Bytes { .. }, Val::Bytes(b)) | (Schema::ByteArr(..), Val::Bytes(b))
        | (Schema::Str { .. }, Val::Borrowed(b, _)) | (Schema::Bytes { .. }, Val::Borrowed(b, _)) => Node::Blob(b.clone()),
        (Schema::Enum(d), Val::Enum(n, v)) => {
            let def = d.variants.iter().find(|x| x.0 == *n).map(|x| &x.1).or(d.unknown.as_ref()).expect("variant");
            Node::Enum(*n, enc_bodydef(def, v))
        }
        (Schema::Struct(d), Val::Struct(v)) => match d.body.delegate {
            Some((_, ref s)) => enc_elem(s, &v[0]),
            None => Node::Struct(enc_bodydef(&d.body, v)),
        },
        (Schema::UnkField { .. }, Val::UF(u)) => uv_node(u),
        // collections and unknown-field containers wrap themselves in a struct
        (s, v) => Node::Struct(enc_body(s, v)),
    }
}

pub fn put_uint(mut n: u64, out: &mut Vec<u8>) {
    while n >= 128 {
        out.push((n % 128) as u8 + 128);
        n /= 128;
    }
    out.push(n as u8);
}

/// Integer with `extra` superfluous continuation groups.
pub fn put_uint_long(n: u64, extra: usize, out: &mut Vec<u8>) {
    put_uint(n, out);
    if extra > 0 {
        let l = out.len();
        out[l - 1] |= 0x80;
        for _ in 0..extra - 1 { out.push(0x80); }
        out.push(0);
    }
}

/// Decides the freedom the format leaves in writing a document.
pub trait Noise {
    /// superfluous groups for an integer
    fn denorm(&mut self) -> usize { 0 }
    /// padding bytes before an element
    fn pad(&mut self) -> usize { 0 }
}
pub struct Plain;
impl Noise for Plain {}

pub struct Random<'a> {
    pub src: &'a mut crate::src::Src,
    pub den: u64,
    pub wide: bool,
    pub applied: u64,
}
impl<'a> Noise for Random<'a> {
    fn denorm(&mut self) -> usize {
        if self.src.chance(1, self.den) {
            self.applied += 1;
            match self.src.below(4) {
                0 | 1 => self.src.range(1, 3),
                2 => self.src.range(1, 12),
                // total at most 257 bytes; a minimal integer takes at most 10
                _ => if self.wide { self.src.range(200, 247) } else { 9 },
            }
        } else { 0 }
    }
    fn pad(&mut self) -> usize {
        if !self.src.chance(1, self.den) { return 0; }
        self.applied += 1;
        match self.src.below(4000) {
            3999 => self.src.log(20_000),
            n if n >= 3900 => self.src.range(1, 300),
            _ => self.src.range(1, 4),
        }
    }
}

const T_ENUM: u8 = 0x00;
const T_INT: u8 = 0x40;
const T_BLOB: u8 = 0x80;
const T_STRUCT: u8 = 0xC0;
pub const END_STRUCT: u8 = 0x00;
pub const END_DOC: u8 = 0x40;
pub const EXCEPTION: u8 = 0x80;
pub const PADDING: u8 = 0xC0;

fn put_n(n: u64, noise: &mut dyn Noise, out: &mut Vec<u8>) {
    let e = noise.denorm();
    put_uint_long(n, e, out);
}

pub fn write_field(tag: u8, n: &Node, noise: &mut dyn Noise, out: &mut Vec<u8>) {
    match n {
        Node::Int(i) => { out.push(T_INT | tag); put_n(*i, noise, out); }
        Node::RawInt(b) => { out.push(T_INT | tag); out.extend_from_slice(b); }
        Node::Blob(b) => { out.push(T_BLOB | tag); put_n(b.len() as u64, noise, out); out.extend_from_slice(b); }
        Node::RawBlob(n, b) => { out.push(T_BLOB | tag); put_n(*n, noise, out); out.extend_from_slice(b); }
        Node::Struct(b) => { out.push(T_STRUCT | tag); write_body(b, noise, out); }
        Node::Enum(d, b) => { out.push(T_ENUM | tag); put_n(*d, noise, out); write_body(b, noise, out); }
    }
}

pub fn write_items(items: &[Item], noise: &mut dyn Noise, out: &mut Vec<u8>) {
    for it in items {
        for _ in 0..noise.pad() { out.push(PADDING); }
        match it {
            Item::Field(t, n) => write_field(*t, n, noise, out),
            Item::Exc(b) => { out.push(EXCEPTION); put_n(b.len() as u64, noise, out); out.extend_from_slice(b); }
            Item::Pad => out.push(PADDING),
            Item::EndDoc => out.push(END_DOC),
        }
    }
}

pub fn write_body(b: &Body, noise: &mut dyn Noise, out: &mut Vec<u8>) {
    write_items(&b.items, noise, out);
    for _ in 0..noise.pad() { out.push(PADDING); }
    out.push(END_STRUCT);
}

pub fn to_bytes(b: &Body) -> Vec<u8> {
    let mut out = Vec::new();
    write_body(b, &mut Plain, &mut out);
    out
}

pub fn encode(s: &Schema, v: &Val) -> Vec<u8> { to_bytes(&enc_body(s, v)) }

// ------------------------------------------------------------------ decoder

/// Stream-level error.
#[derive(Clone, Debug, PartialEq)]
pub enum SK {
    Eof,
    IntOverflow,
    Overwide,
    Exception(String),
    Truncated(u64),
    Overlong,
    UnexpectedType(&'static str, &'static str),
    IntOutOfRange,
}

#[derive(Clone, Debug, PartialEq)]
pub enum K {
    Stream(SK),
    Recursion,
    UnknownField(u8, u64),
    UnknownVariant(u64),
    TooFew(u64),
    TooMany(u64),
    Missing,
    InvalidValue,
    InvalidMsg,
    MaxCollect,
    MaxBlob,
}

#[derive(Clone, Debug, PartialEq)]
pub struct RErr {
    pub kind: K,
    pub path: String,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum RK { Int(u64), Blob(u64), Struct, Enum(u64) }

impl RK {
    fn name(&self) -> &'static str {
        match self { RK::Int(_) => "Integer", RK::Blob(_) => "Blob", RK::Struct => "Struct", RK::Enum(_) => "Enum" }
    }
}

#[derive(Clone, Debug, PartialEq)]
pub enum RItem {
    Field { tag: u8, pos: u64, kind: RK },
    EndStruct,
    EndDoc,
    Exc(u64),
    Pad,
}

pub struct RS<'a> {
    pub b: &'a [u8],
    pub pos: u64,
    pub eof: bool,
    pub graceful: bool,
    pub pending: u64,
    /// An exception was met inside skipped content (unspecified handling).
    pub exc_in_skip: bool,
    /// Stream position of the first byte.
    pub base: u64,
}

impl<'a> RS<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        RS { b, pos: 0, eof: false, graceful: false, pending: 0, exc_in_skip: false, base: 0 }
    }
    fn byte(&mut self) -> Option<u8> {
        let r = self.b.get(self.pos as usize).copied();
        if r.is_some() { self.pos += 1; }
        r
    }
    /// At most 257 bytes; value must fit 64 bits.
    pub fn int(&mut self) -> Result<u64, SK> {
        let mut v: u128 = 0;
        let mut mul: Option<u128> = Some(1);
        for i in 0..257 {
            let b = self.byte().ok_or(SK::Eof)?;
            let low = (b & 0x7F) as u128;
            if low != 0 {
                match mul {
                    Some(m) if m < (1u128 << 64) && low * m < (1u128 << 64) => v += low * m,
                    _ => return Err(SK::IntOverflow),
                }
            }
            mul = mul.and_then(|m| if m < (1u128 << 64) { Some(m * 128) } else { None });
            if b & 0x80 == 0 { return Ok(v as u64); }
            let _ = i;
        }
        Err(SK::Overwide)
    }
    pub fn commit(&mut self) -> Result<(), SK> {
        if self.pending > self.pos {
            let len = self.b.len() as u64;
            if self.pending > len {
                let e = SK::Truncated(self.pending - len);
                return Err(e);
            }
            self.pos = self.pending;
        }
        Ok(())
    }
    pub fn next(&mut self) -> Result<RItem, SK> {
        if self.eof { return Ok(RItem::EndDoc); }
        self.commit()?;
        let pos = self.pos;
        let d = match self.byte() {
            Some(d) => d,
            None if self.graceful => { self.eof = true; return Ok(RItem::EndDoc); }
            None => return Err(SK::Eof),
        };
        let (ty, tag) = (d & 0xC0, d & 0x3F);
        if tag == 0 {
            return Ok(match ty {
                END_STRUCT => RItem::EndStruct,
                END_DOC => { self.eof = true; RItem::EndDoc }
                PADDING => RItem::Pad,
                _ => RItem::Exc(self.blob()?),
            });
        }
        let kind = match ty {
            T_INT => RK::Int(self.int()?),
            T_BLOB => RK::Blob(self.blob()?),
            T_STRUCT => RK::Struct,
            _ => RK::Enum(self.int()?),
        };
        Ok(RItem::Field { tag, pos, kind })
    }
    fn blob(&mut self) -> Result<u64, SK> {
        let n = self.int()?;
        match (self.pos + self.base).checked_add(n) {
            Some(e) => self.pending = e - self.base,
            None => return Err(SK::Overlong),
        }
        Ok(n)
    }
    /// Contents of the blob just announced.
    pub fn contents(&mut self, n: u64) -> Result<&'a [u8], SK> {
        let avail = self.b.len() as u64 - self.pos;
        if n > avail { return Err(SK::Truncated(n - avail)); }
        let r = &self.b[self.pos as usize..(self.pos + n) as usize];
        self.pos += n;
        Ok(r)
    }
    /// The next field, or None at the end of the struct or document.
    pub fn field(&mut self) -> Result<Option<(u8, u64, RK)>, SK> {
        loop {
            match self.next()? {
                RItem::Field { tag, pos, kind } => return Ok(Some((tag, pos, kind))),
                RItem::EndStruct | RItem::EndDoc => return Ok(None),
                RItem::Pad => {}
                RItem::Exc(n) => {
                    let b = self.contents_upto(n, 256);
                    return Err(SK::Exception(String::from_utf8_lossy(b).into_owned()));
                }
            }
        }
    }
    fn contents_upto(&mut self, n: u64, max: u64) -> &'a [u8] {
        let avail = self.b.len() as u64 - self.pos;
        let n = n.min(max).min(avail);
        let r = &self.b[self.pos as usize..(self.pos + n) as usize];
        self.pos += n;
        r
    }
    pub fn skip(&mut self, k: RK) -> Result<(), SK> {
        match k { RK::Int(_) | RK::Blob(_) => return Ok(()), _ => {} }
        let mut depth = 1u64;
        while depth > 0 {
            match self.next()? {
                RItem::Field { kind: RK::Struct, .. } | RItem::Field { kind: RK::Enum(_), .. } => depth += 1,
                RItem::Field { .. } | RItem::Pad => {}
                RItem::EndStruct => depth -= 1,
                RItem::EndDoc => depth = 0,
                RItem::Exc(_) => self.exc_in_skip = true,
            }
        }
        Ok(())
    }
}

#[derive(Clone, Copy, Debug)]
pub struct RCfg {
    pub strict: bool,
    pub limit: u64,
    pub max_blob: u64,
    pub max_collect: u64,
}
impl RCfg {
    pub fn unlimited(strict: bool) -> RCfg { RCfg { strict, limit: 1 << 20, max_blob: 1 << 40, max_collect: 1 << 40 } }
}

pub struct Dec<'a> {
    pub rs: RS<'a>,
    pub cfg: RCfg,
    pub collected: u64,
    pub blob: u64,
    pub max_depth: u64,
    /// When present, defects which leave the rest of the document readable
    /// are noted here and decoding carries on.
    pub soft: Option<Vec<RErr>>,
    path: Vec<(String, u64)>,
}

enum Acc { One(Option<Val>), Many(Vec<Val>), Pairs(Vec<(Val, Val)>) }

type R<T> = Result<T, RErr>;

impl<'a> Dec<'a> {
    pub fn new(b: &'a [u8], cfg: RCfg) -> Self {
        Dec { rs: RS::new(b), cfg, collected: 0, blob: 0, max_depth: 0, soft: None, path: vec![] }
    }
    pub fn path(&self) -> String {
        let mut s = String::from("{0}");
        for (n, p) in &self.path { s.push_str(&format!(".{}{{{}}}", n, p + self.rs.base)); }
        s
    }
    fn err<T>(&self, kind: K) -> R<T> { Err(RErr { kind, path: self.path() }) }
    /// A defect of the value: fatal unless they are being listed.
    fn note(&mut self, kind: K) -> R<()> {
        let e = RErr { kind, path: self.path() };
        match self.soft { Some(ref mut v) => { v.push(e); Ok(()) } None => Err(e) }
    }
    fn st<T>(&self, r: Result<T, SK>) -> R<T> { r.or_else(|e| self.err(K::Stream(e))) }
    fn push(&mut self, n: &str, pos: u64) -> R<()> {
        if self.path.len() as u64 >= self.cfg.limit { return self.err(K::Recursion); }
        self.path.push((n.to_string(), pos));
        self.max_depth = self.max_depth.max(self.path.len() as u64);
        Ok(())
    }
    fn push_tag(&mut self, tag: u8, pos: u64) -> R<()> { self.push(&format!("{:02}", tag), pos) }
    fn pop(&mut self) { self.path.pop(); }
    fn collect1(&mut self) -> R<()> {
        if self.collected + 1 > self.cfg.max_collect { return self.err(K::MaxCollect); }
        self.collected += 1;
        Ok(())
    }
    fn charge(&mut self, n: u64) -> R<()> {
        if self.blob.checked_add(n).map_or(true, |t| t > self.cfg.max_blob) { return self.err(K::MaxBlob); }
        self.blob += n;
        Ok(())
    }

    pub fn body(&mut self, s: &Schema) -> R<Val> {
        match s {
            Schema::Lazy(f) => self.body(&f()),
            Schema::Unit => {
                // written as one field of tag 1 holding the empty struct
                let mut seen = false;
                loop {
                    let r = self.rs.field();
                    match self.st(r)? {
                        None => return Ok(Val::Unit),
                        Some((1, pos, k)) if self.cfg.strict => {
                            self.push("top", pos)?;
                            if seen { self.note(K::TooMany(1))?; }
                            self.elem(&Schema::Unit, pos, k)?;
                            seen = true;
                            self.pop();
                        }
                        Some((tag, pos, k)) => self.unknown(tag, pos, k)?,
                    }
                }
            }
            Schema::Struct(d) => {
                let v = self.fields(&d.body)?;
                self.check(d, v)
            }
            Schema::Unknown { charge } => {
                let mut out = vec![];
                loop {
                    let r = self.rs.field();
                    match self.st(r)? {
                        None => return Ok(Val::Unk(out)),
                        Some((tag, pos, k)) => out.push(self.catch(tag, pos, k, *charge)?),
                    }
                }
            }
            s => {
                let d = BodyDef { fields: vec![FieldDef { tag: 1, name: "top", schema: s.clone() }], ..BodyDef::default() };
                Ok(self.fields(&d)?.pop().unwrap())
            }
        }
    }

    fn check(&mut self, d: &StructDef, v: Vec<Val>) -> R<Val> {
        // the values may be stand-ins once a defect has been noted
        if self.soft.as_ref().map_or(false, |s| !s.is_empty()) { return Ok(Val::Struct(v)); }
        if let Some(c) = d.check { if !c(&v) { self.note(K::InvalidMsg)?; } }
        Ok(Val::Struct(v))
    }

    fn catch(&mut self, tag: u8, pos: u64, k: RK, charge: bool) -> R<(u8, UV)> {
        self.push_tag(tag, pos)?;
        self.collect1()?;
        let u = self.unk(k, charge)?;
        self.pop();
        Ok((tag, u))
    }

    fn unk(&mut self, k: RK, charge: bool) -> R<UV> {
        Ok(match k {
            RK::Int(n) => UV::Int(n),
            RK::Blob(n) => match self.bytes(n, charge)? {
                Val::Bytes(b) => UV::Blob(b),
                Val::Borrowed(b, o) => UV::BBlob(b, o),
                _ => unreachable!(),
            },
            RK::Struct => match self.body(&Schema::Unknown { charge })? { Val::Unk(v) => UV::Struct(v), _ => unreachable!() },
            RK::Enum(d) => match self.body(&Schema::Unknown { charge })? { Val::Unk(v) => UV::Enum(d, v), _ => unreachable!() },
        })
    }

    fn unknown(&mut self, tag: u8, pos: u64, k: RK) -> R<()> {
        if self.cfg.strict { self.note(K::UnknownField(tag, pos + self.rs.base))?; }
        let r = self.rs.skip(k);
        self.st(r)
    }

    fn fields(&mut self, d: &BodyDef) -> R<Vec<Val>> {
        if let Some((name, ref s)) = d.delegate {
            let pos = self.rs.pos;
            self.push(name, pos)?;
            let v = self.body(s)?;
            self.pop();
            return Ok(vec![v]);
        }
        let mut accs: Vec<Acc> = d.fields.iter().map(|f| acc(&f.schema)).collect();
        let mut unk = vec![];
        loop {
            let r = self.rs.field();
            let (tag, pos, k) = match self.st(r)? { None => break, Some(x) => x };
            match d.fields.iter().position(|f| f.tag == tag) {
                Some(i) => {
                    self.push(d.fields[i].name, pos)?;
                    self.field(&mut accs[i], &d.fields[i].schema, pos, k)?;
                    self.pop();
                }
                None => match d.catchall {
                    Some((_, charge)) => unk.push(self.catch(tag, pos, k, charge)?),
                    None => self.unknown(tag, pos, k)?,
                },
            }
        }
        let mut out = vec![];
        for (a, f) in accs.into_iter().zip(&d.fields) {
            let pos = self.rs.pos;
            self.push(f.name, pos)?;
            out.push(self.finish(a, &f.schema)?);
            self.pop();
        }
        if let Some((name, _)) = d.catchall {
            let pos = self.rs.pos;
            self.push(name, pos)?;
            self.pop();
            out.push(Val::Unk(unk));
        }
        Ok(out)
    }

    fn field(&mut self, a: &mut Acc, s: &Schema, pos: u64, k: RK) -> R<()> {
        match s {
            Schema::Lazy(f) => self.field(a, &f(), pos, k),
            Schema::List(e) | Schema::Set(e) | Schema::Heap(e) => {
                self.collect1()?;
                let v = self.elem(e, pos, k)?;
                if let Acc::Many(ref mut m) = *a { m.push(v); }
                Ok(())
            }
            Schema::Map(ks, vs) => {
                self.collect1()?;
                let t = Schema::tuple(vec![(**ks).clone(), (**vs).clone()]);
                if let (Val::Struct(mut v), Acc::Pairs(m)) = (self.elem(&t, pos, k)?, a) {
                    let x = v.pop().unwrap();
                    m.push((v.pop().unwrap(), x));
                }
                Ok(())
            }
            Schema::Opt(e) => match *a {
                Acc::Many(ref m) if !m.is_empty() => { self.note(K::TooMany(1))?; self.elem(e, pos, k).map(drop) }
                Acc::Many(ref mut m) => { m.push(self.elem(e, pos, k)?); Ok(()) }
                _ => unreachable!(),
            },
            Schema::Arr(n, e, _) => match *a {
                Acc::Many(ref m) if m.len() >= *n => { self.note(K::TooMany(*n as u64))?; self.elem(e, pos, k).map(drop) }
                Acc::Many(ref mut m) => { m.push(self.elem(e, pos, k)?); Ok(()) }
                _ => unreachable!(),
            },
            s => match *a {
                Acc::One(Some(_)) => { self.note(K::TooMany(1))?; self.elem(s, pos, k).map(drop) }
                Acc::One(ref mut o) => { *o = Some(self.elem(s, pos, k)?); Ok(()) }
                _ => unreachable!(),
            },
        }
    }

    fn finish(&mut self, a: Acc, s: &Schema) -> R<Val> {
        match (s, a) {
            (Schema::Lazy(f), a) => self.finish(a, &f()),
            (Schema::List(_), Acc::Many(v)) | (Schema::Opt(_), Acc::Many(v)) => Ok(Val::Seq(v)),
            (Schema::Set(_), Acc::Many(mut v)) => { v.sort(); v.dedup(); Ok(Val::Seq(v)) }
            (Schema::Heap(_), Acc::Many(mut v)) => { v.sort(); Ok(Val::Seq(v)) }
            (s @ Schema::Map(..), Acc::Pairs(v)) => Ok(canon(s, &Val::Map(v))),
            (Schema::Arr(n, _, _), Acc::Many(v)) => {
                if v.len() == *n { Ok(Val::Seq(v)) }
                else { self.note(if v.is_empty() { K::Missing } else { K::TooFew(*n as u64) })?; Ok(Val::Unit) }
            }
            (Schema::ByteArr(0, _), Acc::One(None)) => Ok(Val::Bytes(vec![])),
            (_, Acc::One(Some(v))) => Ok(v),
            (_, Acc::One(None)) => { self.note(K::Missing)?; Ok(Val::Unit) }
            _ => unreachable!(),
        }
    }

    /// The element is not of the type expected.
    fn want(&mut self, exp: &'static str, k: RK) -> R<Val> {
        self.note(K::Stream(SK::UnexpectedType(exp, k.name())))?;
        let r = self.rs.skip(k);
        self.st(r)?;
        Ok(Val::Unit)
    }
    fn range(&mut self) -> R<Val> { self.note(K::Stream(SK::IntOutOfRange))?; Ok(Val::Unit) }

    fn bytes(&mut self, n: u64, charge: bool) -> R<Val> {
        if charge { self.charge(n)?; }
        let off = self.rs.pos as i64;
        let r = self.rs.contents(n);
        let b = self.st(r)?.to_vec();
        Ok(if charge { Val::Bytes(b) } else { let o = if b.is_empty() { 0 } else { off }; Val::Borrowed(b, o) })
    }

    /// Collection-element context.
    fn elem(&mut self, s: &Schema, pos: u64, k: RK) -> R<Val> {
        match s {
            Schema::Lazy(f) => self.elem(&f(), pos, k),
            Schema::U(bits) => {
                let n = match k { RK::Int(n) => n, _ => return self.want("Integer", k) };
                if *bits < 64 && n >> bits != 0 { return self.range(); }
                Ok(Val::U(n))
            }
            Schema::I(bits) => {
                let n = match k { RK::Int(n) => unzz(n) as i128, _ => return self.want("Integer", k) };
                let half = 1i128 << (bits - 1);
                if n < -half || n >= half { return self.range(); }
                Ok(Val::I(n as i64))
            }
            Schema::Bool => { let n = match k { RK::Int(n) => n, _ => return self.want("Integer", k) }; if n > 1 { return self.range(); } Ok(Val::U(n)) }
            Schema::Char => {
                let n = match k { RK::Int(n) => n, _ => return self.want("Integer", k) };
                if n > 0xFFFF_FFFF { return self.range(); }
                if n > 0x10FFFF || (n >= 0xD800 && n < 0xE000) { self.note(K::InvalidMsg)?; }
                Ok(Val::U(n))
            }
            Schema::Null => match k { RK::Int(0) => Ok(Val::Unit), RK::Int(_) => self.range(), _ => self.want("Integer", k) },
            Schema::Unit => {
                if k != RK::Struct { return self.want("Struct", k); }
                loop {
                    let r = self.rs.field();
                    match self.st(r)? {
                        None => return Ok(Val::Unit),
                        Some((tag, pos, k)) => self.unknown(tag, pos, k)?,
                    }
                }
            }
            Schema::Str { charge } => {
                let n = match k { RK::Blob(n) => n, _ => return self.want("Blob", k) };
                let v = self.bytes(n, *charge)?;
                let ok = match v { Val::Bytes(ref b) | Val::Borrowed(ref b, _) => std::str::from_utf8(b).is_ok(), _ => false };
                if !ok { self.note(K::InvalidValue)?; }
                Ok(v)
            }
            Schema::Bytes { charge } => { let n = match k { RK::Blob(n) => n, _ => return self.want("Blob", k) }; self.bytes(n, *charge) }
            Schema::ByteArr(len, _) => {
                let n = match k { RK::Blob(n) => n, _ => return self.want("Blob", k) };
                if n != *len as u64 { self.note(K::InvalidMsg)?; return Ok(Val::Unit); }
                let r = self.rs.contents(n);
                Ok(Val::Bytes(self.st(r)?.to_vec()))
            }
            Schema::Struct(d) => match d.body.delegate {
                Some((name, ref s)) => {
                    self.push(name, pos)?;
                    let v = self.elem(s, pos, k)?;
                    self.pop();
                    self.check(d, vec![v])
                }
                None => { if k != RK::Struct { return self.want("Struct", k); } self.body(s) }
            },
            Schema::Enum(d) => {
                let n = match k { RK::Enum(n) => n, _ => return self.want("Enum", k) };
                match d.variants.iter().find(|x| x.0 == n).map(|x| &x.1).or(d.unknown.as_ref()) {
                    Some(b) => Ok(Val::Enum(n, self.fields(b)?)),
                    None => {
                        self.note(K::UnknownVariant(n))?;
                        let r = self.rs.skip(k);
                        self.st(r)?;
                        Ok(Val::Unit)
                    }
                }
            }
            Schema::UnkField { charge } => Ok(Val::UF(self.unk(k, *charge)?)),
            s => { if k != RK::Struct { return self.want("Struct", k); } self.body(s) }
        }
    }
}

fn acc(s: &Schema) -> Acc {
    match s {
        Schema::Lazy(f) => acc(&f()),
        Schema::List(_) | Schema::Set(_) | Schema::Heap(_) | Schema::Opt(_) | Schema::Arr(..) => Acc::Many(vec![]),
        Schema::Map(..) => Acc::Pairs(vec![]),
        _ => Acc::One(None),
    }
}

pub struct Decoded {
    pub result: Result<Val, RErr>,
    pub collected: u64,
    pub blob: u64,
    pub max_depth: u64,
    /// bytes consumed
    pub pos: u64,
    /// The document has an exception within skipped content.
    pub unspecified: bool,
}

pub fn decode(s: &Schema, b: &[u8], cfg: RCfg, graceful: bool) -> Decoded {
    let mut d = Dec::new(b, cfg);
    d.rs.graceful = graceful;
    let result = d.body(s);
    Decoded { result, collected: d.collected, blob: d.blob, max_depth: d.max_depth, pos: d.rs.pos, unspecified: d.rs.exc_in_skip }
}

/// The first error, and every defect of the document up to the first which
/// leaves the rest unreadable.  `base` is the stream position of the first byte.
pub fn errors(s: &Schema, b: &[u8], cfg: RCfg, base: u64) -> Option<(RErr, Vec<RErr>, bool)> {
    let mut d = Dec::new(b, cfg);
    d.rs.base = base;
    let first = match d.body(s) { Ok(_) => return None, Err(e) => e };
    let unspecified = d.rs.exc_in_skip;
    let mut d = Dec::new(b, cfg);
    d.rs.base = base;
    d.soft = Some(vec![]);
    let r = d.body(s);
    let mut v = d.soft.take().unwrap();
    if let Err(e) = r { v.push(e); }
    Some((first, v, unspecified))
}
