//! Registry of concrete Rust types: how each maps to schemas and values, and
//! function pointers for every entry point of the crate under test.

use std::borrow::Cow;
use std::cell::Cell;
use std::collections::hash_map::DefaultHasher;
use std::collections::{BTreeMap, BTreeSet, BinaryHeap, HashMap, HashSet, LinkedList, VecDeque};
use std::hash::{BuildHasherDefault, Hash};
use std::marker::PhantomData;
use std::net::{IpAddr, Ipv4Addr, Ipv6Addr, SocketAddr, SocketAddrV4, SocketAddrV6};
use std::rc::Rc;
use std::sync::{Arc, OnceLock};
use std::time::Duration;

use fourleaf::adapt::Copied;
use fourleaf::de::{self, style, Context, Deserialize};
use fourleaf::io::TransparentCursor;
use fourleaf::ser::Serialize;
use fourleaf::stream::{self, Stream};
use fourleaf::unknown::{UnknownField, UnknownFields};
use fourleaf::DeConfig as Config;

use crate::mem::Dev;
use crate::refm::*;

thread_local! { static BASE: Cell<(usize, usize)> = const { Cell::new((0, 0)) }; }
/// Declares the buffer that borrowed data is expected to point into.
pub fn set_base(b: &[u8]) { BASE.with(|c| c.set((b.as_ptr() as usize, b.len()))); }
fn off(b: &[u8]) -> i64 {
    if b.is_empty() { return 0; }
    let (base, len) = BASE.with(|c| c.get());
    let p = b.as_ptr() as usize;
    if p < base || p + b.len() > base + len { -1 } else { (p - base) as i64 }
}
fn arc<T>(t: T) -> Arc<T> { Arc::new(t) }

/// Model of a Rust type.
pub trait M: Sized {
    fn schema(b: bool) -> Schema;
    fn vec_schema(b: bool) -> Schema { Schema::list(Self::schema(b)) }
    fn arr_schema(n: usize, large: bool, b: bool) -> Schema { Schema::Arr(n, arc(Self::schema(b)), large) }
    fn to_val(&self) -> Val;
    fn from_val(v: &Val) -> Self;
    fn slice_to_val(v: &[Self]) -> Val { Val::Seq(v.iter().map(|x| x.to_val()).collect()) }
    fn vec_from_val(v: &Val) -> Vec<Self> { seq(v).iter().map(|x| Self::from_val(x)).collect() }
}

fn seq(v: &Val) -> &[Val] { match v { Val::Seq(s) => s, o => panic!("not a sequence: {:?}", o) } }
fn un(v: &Val) -> u64 { match v { Val::U(n) => *n, o => panic!("not unsigned: {:?}", o) } }
fn by(v: &Val) -> &[u8] { match v { Val::Bytes(b) => b, Val::Borrowed(b, _) => b, o => panic!("not bytes: {:?}", o) } }
pub fn st(v: &Val) -> &[Val] { match v { Val::Struct(s) => s, o => panic!("not a struct: {:?}", o) } }
fn en(v: &Val) -> (u64, &[Val]) { match v { Val::Enum(d, s) => (*d, s), o => panic!("not an enum: {:?}", o) } }

impl M for u8 {
    fn schema(_: bool) -> Schema { Schema::U(8) }
    fn vec_schema(_: bool) -> Schema { Schema::Bytes { charge: true } }
    fn arr_schema(n: usize, large: bool, _: bool) -> Schema { Schema::ByteArr(n, large) }
    fn to_val(&self) -> Val { Val::U(*self as u64) }
    fn from_val(v: &Val) -> Self { un(v) as u8 }
    fn slice_to_val(v: &[u8]) -> Val { Val::Bytes(v.to_vec()) }
    fn vec_from_val(v: &Val) -> Vec<u8> { by(v).to_vec() }
}
macro_rules! m_uint { ($($t:ty, $b:expr;)*) => { $(impl M for $t {
    fn schema(_: bool) -> Schema { Schema::U($b) }
    fn to_val(&self) -> Val { Val::U(*self as u64) }
    fn from_val(v: &Val) -> Self { un(v) as $t }
})* } }
m_uint! { u16, 16; u32, 32; u64, 64; usize, usize::BITS; }
macro_rules! m_sint { ($($t:ty, $b:expr;)*) => { $(impl M for $t {
    fn schema(_: bool) -> Schema { Schema::I($b) }
    fn to_val(&self) -> Val { Val::I(*self as i64) }
    fn from_val(v: &Val) -> Self { match v { Val::I(n) => *n as $t, o => panic!("not signed: {:?}", o) } }
})* } }
m_sint! { i8, 8; i16, 16; i32, 32; i64, 64; isize, isize::BITS; }
impl M for bool {
    fn schema(_: bool) -> Schema { Schema::Bool }
    fn to_val(&self) -> Val { Val::U(*self as u64) }
    fn from_val(v: &Val) -> Self { un(v) == 1 }
}
impl M for char {
    fn schema(_: bool) -> Schema { Schema::Char }
    fn to_val(&self) -> Val { Val::U(*self as u64) }
    fn from_val(v: &Val) -> Self { char::from_u32(un(v) as u32).unwrap() }
}
impl M for () {
    fn schema(_: bool) -> Schema { Schema::Unit }
    fn to_val(&self) -> Val { Val::Unit }
    fn from_val(_: &Val) -> Self { () }
}
impl<T> M for PhantomData<T> {
    fn schema(_: bool) -> Schema { Schema::Null }
    fn to_val(&self) -> Val { Val::Unit }
    fn from_val(_: &Val) -> Self { PhantomData }
}
impl M for String {
    fn schema(_: bool) -> Schema { Schema::Str { charge: true } }
    fn to_val(&self) -> Val { Val::Bytes(self.as_bytes().to_vec()) }
    fn from_val(v: &Val) -> Self { String::from_utf8(by(v).to_vec()).unwrap() }
}
impl<'a> M for &'a [u8] {
    fn schema(_: bool) -> Schema { Schema::Bytes { charge: false } }
    fn to_val(&self) -> Val { Val::Borrowed(self.to_vec(), off(self)) }
    fn from_val(v: &Val) -> Self { Box::leak(by(v).to_vec().into_boxed_slice()) }
}
impl<'a> M for &'a str {
    fn schema(_: bool) -> Schema { Schema::Str { charge: false } }
    fn to_val(&self) -> Val { Val::Borrowed(self.as_bytes().to_vec(), off(self.as_bytes())) }
    fn from_val(v: &Val) -> Self { std::str::from_utf8(Box::leak(by(v).to_vec().into_boxed_slice())).unwrap() }
}
impl<'a> M for Cow<'a, [u8]> {
    fn schema(b: bool) -> Schema { Schema::Bytes { charge: !b } }
    fn to_val(&self) -> Val {
        match self { Cow::Borrowed(b) => Val::Borrowed(b.to_vec(), off(b)), Cow::Owned(b) => Val::Bytes(b.clone()) }
    }
    fn from_val(v: &Val) -> Self { let b = by(v); if b.len() % 3 == 1 { Cow::Borrowed(Box::leak(b.to_vec().into_boxed_slice())) } else { Cow::Owned(b.to_vec()) } }
}
impl<'a> M for Cow<'a, str> {
    fn schema(b: bool) -> Schema { Schema::Str { charge: !b } }
    fn to_val(&self) -> Val {
        match self {
            Cow::Borrowed(b) => Val::Borrowed(b.as_bytes().to_vec(), off(b.as_bytes())),
            Cow::Owned(b) => Val::Bytes(b.as_bytes().to_vec()),
        }
    }
    fn from_val(v: &Val) -> Self { let s = String::from_utf8(by(v).to_vec()).unwrap(); if s.len() % 3 == 1 { Cow::Borrowed(Box::leak(s.into_boxed_str())) } else { Cow::Owned(s) } }
}
impl<T: M> M for Vec<T> {
    fn schema(b: bool) -> Schema { T::vec_schema(b) }
    fn to_val(&self) -> Val { T::slice_to_val(self) }
    fn from_val(v: &Val) -> Self { T::vec_from_val(v) }
}
macro_rules! m_seq { ($(($($p:tt)*) $t:ty, $s:ident;)*) => { $(impl<$($p)*> M for $t {
    fn schema(b: bool) -> Schema { Schema::$s(arc(T::schema(b))) }
    fn to_val(&self) -> Val { Val::Seq(self.iter().map(|x| x.to_val()).collect()) }
    fn from_val(v: &Val) -> Self { seq(v).iter().map(|x| T::from_val(x)).collect() }
})* } }
pub type BH = BuildHasherDefault<DefaultHasher>;
m_seq! {
    (T: M) LinkedList<T>, List;
    (T: M + Ord) BTreeSet<T>, Set;
    (T: M + Hash + Eq) HashSet<T, BH>, Set;
    (T: M + Ord) BinaryHeap<T>, Heap;
}
impl<T: M> M for VecDeque<T> {
    fn schema(b: bool) -> Schema { Schema::List(arc(T::schema(b))) }
    fn to_val(&self) -> Val { Val::Seq(self.iter().map(|x| x.to_val()).collect()) }
    fn from_val(v: &Val) -> Self {
        // filled from both ends, so that its contents wrap around in memory
        let s = seq(v);
        let k = s.len() / 3;
        let mut d = VecDeque::new();
        for x in &s[k..] { d.push_back(T::from_val(x)); }
        for x in s[..k].iter().rev() { d.push_front(T::from_val(x)); }
        d
    }
}
impl<T: M> M for Option<T> {
    fn schema(b: bool) -> Schema { Schema::opt(T::schema(b)) }
    fn to_val(&self) -> Val { Val::Seq(self.iter().map(|x| x.to_val()).collect()) }
    fn from_val(v: &Val) -> Self { seq(v).first().map(|x| T::from_val(x)) }
}
macro_rules! m_map { ($(($($p:tt)*) $t:ty;)*) => { $(impl<$($p)*> M for $t {
    fn schema(b: bool) -> Schema { Schema::Map(arc(K::schema(b)), arc(V::schema(b))) }
    fn to_val(&self) -> Val { Val::Map(self.iter().map(|(k, v)| (k.to_val(), v.to_val())).collect()) }
    fn from_val(v: &Val) -> Self {
        match v { Val::Map(m) => m.iter().map(|(k, v)| (K::from_val(k), V::from_val(v))).collect(), o => panic!("not a map: {:?}", o) }
    }
})* } }
m_map! {
    (K: M + Ord, V: M) BTreeMap<K, V>;
    (K: M + Hash + Eq, V: M) HashMap<K, V, BH>;
}
impl<T: M, const N: usize> M for [T; N] {
    fn schema(b: bool) -> Schema { T::arr_schema(N, N > 32, b) }
    fn to_val(&self) -> Val { T::slice_to_val(self) }
    fn from_val(v: &Val) -> Self {
        match T::vec_from_val(v).try_into() { Ok(a) => a, Err(_) => panic!("wrong array length") }
    }
}
macro_rules! m_ptr { ($($t:ident)*) => { $(impl<T: M> M for $t<T> {
    fn schema(b: bool) -> Schema { T::schema(b) }
    fn to_val(&self) -> Val { (**self).to_val() }
    fn from_val(v: &Val) -> Self { $t::new(T::from_val(v)) }
})* } }
m_ptr! { Box Rc Arc }
impl<T: M> M for Copied<T> {
    fn schema(_: bool) -> Schema { T::schema(false) }
    fn to_val(&self) -> Val { self.0.to_val() }
    fn from_val(v: &Val) -> Self { Copied(T::from_val(v)) }
}
macro_rules! m_tuple { ($($n:ident $i:tt),*) => { impl<$($n: M),*> M for ($($n,)*) {
    fn schema(b: bool) -> Schema { Schema::tuple(vec![$($n::schema(b)),*]) }
    fn to_val(&self) -> Val { Val::Struct(vec![$(self.$i.to_val()),*]) }
    fn from_val(v: &Val) -> Self { let s = st(v); ($($n::from_val(&s[$i]),)*) }
} } }
m_tuple!(A 0);
m_tuple!(A 0, B 1);
m_tuple!(A 0, B 1, C 2);
m_tuple!(A 0, B 1, C 2, D 3);
m_tuple!(A 0, B 1, C 2, D 3, E 4);
m_tuple!(A 0, B 1, C 2, D 3, E 4, F 5);
m_tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6);
m_tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7);
m_tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8);
m_tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9);
m_tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10);
m_tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11);
m_tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11, N 12);
m_tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11, N 12, O 13);
m_tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11, N 12, O 13, P 14);
m_tuple!(A 0, B 1, C 2, D 3, E 4, F 5, G 6, H 7, I 8, J 9, K 10, L 11, N 12, O 13, P 14, Q 15);

fn uvs(f: &UnknownFields) -> Vec<(u8, UV)> { f.0.iter().map(|&(t, ref x)| (t, uv(x))).collect() }
fn uv(f: &UnknownField) -> UV {
    match *f {
        UnknownField::Integer(n) => UV::Int(n),
        UnknownField::Blob(Cow::Owned(ref b)) => UV::Blob(b.clone()),
        UnknownField::Blob(Cow::Borrowed(b)) => UV::BBlob(b.to_vec(), off(b)),
        UnknownField::Struct(ref s) => UV::Struct(uvs(s)),
        UnknownField::Enum(d, ref s) => UV::Enum(d, uvs(s)),
    }
}
fn to_uf<'a>(v: &[(u8, UV)]) -> UnknownFields<'a> { UnknownFields(v.iter().map(|(t, u)| (*t, to_u(u))).collect()) }
fn to_u<'a>(u: &UV) -> UnknownField<'a> {
    match u {
        UV::Int(n) => UnknownField::Integer(*n),
        UV::Blob(b) | UV::BBlob(b, _) => UnknownField::Blob(Cow::Owned(b.clone())),
        UV::Struct(v) => UnknownField::Struct(to_uf(v)),
        UV::Enum(d, v) => UnknownField::Enum(*d, to_uf(v)),
    }
}
impl<'a> M for UnknownFields<'a> {
    fn schema(b: bool) -> Schema { Schema::Unknown { charge: !b } }
    fn to_val(&self) -> Val { Val::Unk(uvs(self)) }
    fn from_val(v: &Val) -> Self { match v { Val::Unk(u) => to_uf(u), o => panic!("not unknown fields: {:?}", o) } }
}
impl<'a> M for UnknownField<'a> {
    fn schema(b: bool) -> Schema { Schema::UnkField { charge: !b } }
    fn to_val(&self) -> Val { Val::UF(uv(self)) }
    fn from_val(v: &Val) -> Self { match v { Val::UF(u) => to_u(u), o => panic!("not an unknown field: {:?}", o) } }
}

// std retrofits

fn deleg(name: &'static str, field: &'static str, s: Schema) -> Schema {
    Schema::Struct(arc(StructDef { name, body: BodyDef { delegate: Some((field, s)), ..BodyDef::default() }, check: None }))
}
fn dbody(field: &'static str, s: Schema) -> BodyDef { BodyDef { delegate: Some((field, s)), ..BodyDef::default() } }
pub fn fields(v: Vec<(u8, &'static str, Schema)>) -> BodyDef {
    BodyDef { fields: v.into_iter().map(|(tag, name, schema)| FieldDef { tag, name, schema }).collect(), ..BodyDef::default() }
}
fn structure(name: &'static str, v: Vec<(u8, &'static str, Schema)>) -> Schema {
    Schema::Struct(arc(StructDef { name, body: fields(v), check: None }))
}
fn enumeration(name: &'static str, variants: Vec<(u64, BodyDef)>, unknown: Option<BodyDef>) -> Schema {
    Schema::Enum(arc(EnumDef { name, variants, unknown }))
}
fn with_unk(mut b: BodyDef, name: &'static str, charge: bool) -> BodyDef { b.catchall = Some((name, charge)); b }

impl M for Ipv4Addr {
    fn schema(_: bool) -> Schema { deleg("Ipv4Addr", "octets", Schema::ByteArr(4, false)) }
    fn to_val(&self) -> Val { Val::Struct(vec![Val::Bytes(self.octets().to_vec())]) }
    fn from_val(v: &Val) -> Self { let b = by(&st(v)[0]); Ipv4Addr::new(b[0], b[1], b[2], b[3]) }
}
impl M for Ipv6Addr {
    fn schema(_: bool) -> Schema { deleg("Ipv6Addr", "octets", Schema::ByteArr(16, false)) }
    fn to_val(&self) -> Val { Val::Struct(vec![Val::Bytes(self.octets().to_vec())]) }
    fn from_val(v: &Val) -> Self { let mut a = [0u8; 16]; a.copy_from_slice(by(&st(v)[0])); Ipv6Addr::from(a) }
}
impl M for IpAddr {
    fn schema(b: bool) -> Schema {
        enumeration("IpAddr", vec![(4, dbody("ip", Ipv4Addr::schema(b))), (6, dbody("ip", Ipv6Addr::schema(b)))], None)
    }
    fn to_val(&self) -> Val {
        match self { IpAddr::V4(a) => Val::Enum(4, vec![a.to_val()]), IpAddr::V6(a) => Val::Enum(6, vec![a.to_val()]) }
    }
    fn from_val(v: &Val) -> Self {
        match en(v) { (4, s) => IpAddr::V4(M::from_val(&s[0])), (_, s) => IpAddr::V6(M::from_val(&s[0])) }
    }
}
impl M for Duration {
    fn schema(_: bool) -> Schema {
        Schema::Struct(arc(StructDef {
            name: "Duration", body: fields(vec![(1, "secs", Schema::U(64)), (2, "nsecs", Schema::U(32))]),
            check: Some(|v| un(&v[1]) < 1_000_000_000),
        }))
    }
    fn to_val(&self) -> Val { Val::Struct(vec![Val::U(self.as_secs()), Val::U(self.subsec_nanos() as u64)]) }
    fn from_val(v: &Val) -> Self { let s = st(v); Duration::new(un(&s[0]), un(&s[1]) as u32) }
}
impl M for SocketAddrV4 {
    fn schema(b: bool) -> Schema { structure("SocketAddrV4", vec![(1, "ip", Ipv4Addr::schema(b)), (2, "port", Schema::U(16))]) }
    fn to_val(&self) -> Val { Val::Struct(vec![self.ip().to_val(), Val::U(self.port() as u64)]) }
    fn from_val(v: &Val) -> Self { let s = st(v); SocketAddrV4::new(M::from_val(&s[0]), un(&s[1]) as u16) }
}
impl M for SocketAddrV6 {
    fn schema(b: bool) -> Schema {
        structure("SocketAddrV6", vec![(1, "ip", Ipv6Addr::schema(b)), (2, "port", Schema::U(16)),
            (3, "flowinfo", Schema::U(32)), (4, "scope_id", Schema::U(32))])
    }
    fn to_val(&self) -> Val {
        Val::Struct(vec![self.ip().to_val(), Val::U(self.port() as u64), Val::U(self.flowinfo() as u64), Val::U(self.scope_id() as u64)])
    }
    fn from_val(v: &Val) -> Self {
        let s = st(v);
        SocketAddrV6::new(M::from_val(&s[0]), un(&s[1]) as u16, un(&s[2]) as u32, un(&s[3]) as u32)
    }
}
impl M for SocketAddr {
    fn schema(b: bool) -> Schema {
        enumeration("SocketAddr", vec![(4, dbody("v4", SocketAddrV4::schema(b))), (6, dbody("v6", SocketAddrV6::schema(b)))], None)
    }
    fn to_val(&self) -> Val {
        match self { SocketAddr::V4(a) => Val::Enum(4, vec![a.to_val()]), SocketAddr::V6(a) => Val::Enum(6, vec![a.to_val()]) }
    }
    fn from_val(v: &Val) -> Self {
        match en(v) { (4, s) => SocketAddr::V4(M::from_val(&s[0])), (_, s) => SocketAddr::V6(M::from_val(&s[0])) }
    }
}
impl<T: M, E: M> M for Result<T, E> {
    fn schema(b: bool) -> Schema { enumeration("Result", vec![(1, dbody("t", T::schema(b))), (2, dbody("e", E::schema(b)))], None) }
    fn to_val(&self) -> Val { match self { Ok(t) => Val::Enum(1, vec![t.to_val()]), Err(e) => Val::Enum(2, vec![e.to_val()]) } }
    fn from_val(v: &Val) -> Self { match en(v) { (1, s) => Ok(T::from_val(&s[0])), (_, s) => Err(E::from_val(&s[0])) } }
}

// ------------------------------------------------- types using the macro

macro_rules! mk_struct {
    ($name:ident { $([$tag:expr] $f:ident : $t:ty,)* } $(? $u:ident)*) => {
        #[derive(Clone, Debug)]
        pub struct $name { $(pub $f: $t,)* $(pub $u: UnknownFields<'static>,)* }
        fourleaf_retrofit!(struct $name : {} {} {
            |_context, this|
            $([$tag] $f: $t = &this.$f,)*
            $((?) $u: Copied<UnknownFields<'static>> = &this.$u,)*
            { Ok($name { $($f: $f,)* $($u: $u.0,)* }) }
        });
        impl M for $name {
            #[allow(unused_mut)]
            fn schema(_b: bool) -> Schema {
                let mut body = fields(vec![$(($tag, stringify!($f), <$t as M>::schema(_b)),)*]);
                $(body = with_unk(body, stringify!($u), true);)*
                Schema::Struct(arc(StructDef { name: stringify!($name), body, check: None }))
            }
            fn to_val(&self) -> Val { Val::Struct(vec![$(self.$f.to_val(),)* $(self.$u.to_val(),)*]) }
            fn from_val(v: &Val) -> Self {
                let mut _i = st(v).iter();
                $(let $f = M::from_val(_i.next().unwrap());)*
                $(let $u = M::from_val(_i.next().unwrap());)*
                $name { $($f: $f,)* $($u: $u,)* }
            }
        }
    }
}

mk_struct!(Widget { [1] name: String, [2] manufacturer: Option<String>, [3] count: u64, });
mk_struct!(HighTags { [1] a: u8, [63] b: i64, [31] c: Vec<u16>, [32] d: bool, [62] e: Option<Vec<u8>>, });
mk_struct!(Nil { });
mk_struct!(UnkPres { [1] foo: u32, [5] bar: Option<String>, } ? unknown);
mk_struct!(UnkOnly { } ? rest);
mk_struct!(Nested { [2] w: Widget, [4] ws: Vec<Widget>, [6] m: BTreeMap<u16, Widget>, [9] o: Option<Box<Widget>>, [10] u: (), });
mk_struct!(UnkDeep { [3] inner: UnkPres, [7] list: Vec<UnkPres>, [8] e: UnkEnum, } ? unknown);
mk_struct!(AllColl { [1] v: Vec<u32>, [2] d: VecDeque<i16>, [3] l: LinkedList<String>, [4] bs: BTreeSet<u64>,
    [5] hs: HashSet<u8, BH>, [6] bh: BinaryHeap<i32>, [7] bm: BTreeMap<String, Vec<u8>>, [8] hm: HashMap<u32, Option<u8>, BH>,
    [9] arr: [u16; 3], [10] by: [u8; 5], [11] ph: PhantomData<u32>, });
mk_struct!(Tree { [1] val: u32, [2] kids: Vec<TreeBox>, });

/// Breaks the recursion of the schema.
#[derive(Clone, Debug)]
pub struct TreeBox(pub Box<Tree>);
fourleaf_retrofit!(struct TreeBox : {
    impl fourleaf::Serialize for TreeBox
} {
    impl<R : std::io::Read, STYLE> fourleaf::Deserialize<R, STYLE> for TreeBox
} {
    |_context, this|
    (*) t: Box<Tree> = this.0,
    { Ok(TreeBox(t)) }
});
impl M for TreeBox {
    fn schema(_: bool) -> Schema { deleg("TreeBox", "t", Schema::Lazy(|| Tree::schema(false))) }
    fn to_val(&self) -> Val { Val::Struct(vec![self.0.to_val()]) }
    fn from_val(v: &Val) -> Self { TreeBox(M::from_val(&st(v)[0])) }
}

#[derive(Clone, Debug)]
pub struct Chain { pub v: u8, pub next: Option<Box<Chain>> }
fourleaf_retrofit!(struct Chain : {} {} {
    |_context, this|
    [1] v: u8 = this.v,
    [2] next: Option<Box<Chain>> = this.next,
    { Ok(Chain { v: v, next: next }) }
});
impl M for Chain {
    fn schema(_: bool) -> Schema {
        structure("Chain", vec![(1, "v", Schema::U(8)), (2, "next", Schema::opt(Schema::Lazy(|| Chain::schema(false))))])
    }
    fn to_val(&self) -> Val { Val::Struct(vec![self.v.to_val(), self.next.to_val()]) }
    fn from_val(v: &Val) -> Self { let s = st(v); Chain { v: M::from_val(&s[0]), next: M::from_val(&s[1]) } }
}

#[derive(Clone, Debug)]
pub enum Order { Purchase(Vec<Widget>), Notice(String), Pair { foo: u32, bar: i64 }, Empty }
fourleaf_retrofit!(enum Order : {} {} {
    |_context|
    [1] Order::Purchase(ref widgets) => {
        [1] widgets: Vec<Widget> = widgets,
        { Ok(Order::Purchase(widgets)) }
    },
    [2] Order::Notice(ref text) => {
        [1] text: String = text,
        { Ok(Order::Notice(text)) }
    },
    [300] Order::Pair { foo, bar } => {
        [1] foo: u32 = foo,
        [40] bar: i64 = bar,
        { Ok(Order::Pair { foo: foo, bar: bar }) }
    },
    [0] Order::Empty => { { Ok(Order::Empty) } },
});
impl M for Order {
    fn schema(b: bool) -> Schema {
        enumeration("Order", vec![
            (1, fields(vec![(1, "widgets", Vec::<Widget>::schema(b))])),
            (2, fields(vec![(1, "text", String::schema(b))])),
            (300, fields(vec![(1, "foo", Schema::U(32)), (40, "bar", Schema::I(64))])),
            (0, BodyDef::default()),
        ], None)
    }
    fn to_val(&self) -> Val {
        match self {
            Order::Purchase(w) => Val::Enum(1, vec![w.to_val()]),
            Order::Notice(t) => Val::Enum(2, vec![t.to_val()]),
            Order::Pair { foo, bar } => Val::Enum(300, vec![foo.to_val(), bar.to_val()]),
            Order::Empty => Val::Enum(0, vec![]),
        }
    }
    fn from_val(v: &Val) -> Self {
        match en(v) {
            (1, s) => Order::Purchase(M::from_val(&s[0])),
            (2, s) => Order::Notice(M::from_val(&s[0])),
            (300, s) => Order::Pair { foo: M::from_val(&s[0]), bar: M::from_val(&s[1]) },
            _ => Order::Empty,
        }
    }
}

#[derive(Clone, Debug)]
pub enum UnkEnum { Foo(u32, UnknownFields<'static>), Bar(String), Unknown(u64, UnknownFields<'static>) }
fourleaf_retrofit!(enum UnkEnum : {} {} {
    |_context|
    [1] UnkEnum::Foo(a, ref unknown) => {
        [1] a: u32 = a,
        (?) unknown: Copied<UnknownFields<'static>> = unknown,
        { Ok(UnkEnum::Foo(a, unknown.0)) }
    },
    [2] UnkEnum::Bar(ref a) => {
        [1] a: String = a,
        { Ok(UnkEnum::Bar(a)) }
    },
    (?) UnkEnum::Unknown(discriminant, ref fields) => {
        (=) discriminant: u64 = discriminant,
        (?) fields: Copied<UnknownFields<'static>> = fields,
        { Ok(UnkEnum::Unknown(discriminant, fields.0)) }
    },
});
impl M for UnkEnum {
    fn schema(_: bool) -> Schema {
        enumeration("UnkEnum", vec![
            (1, with_unk(fields(vec![(1, "a", Schema::U(32))]), "unknown", true)),
            (2, fields(vec![(1, "a", Schema::Str { charge: true })])),
        ], Some(with_unk(BodyDef::default(), "fields", true)))
    }
    fn to_val(&self) -> Val {
        match self {
            UnkEnum::Foo(a, u) => Val::Enum(1, vec![a.to_val(), u.to_val()]),
            UnkEnum::Bar(a) => Val::Enum(2, vec![a.to_val()]),
            UnkEnum::Unknown(d, u) => Val::Enum(*d, vec![u.to_val()]),
        }
    }
    fn from_val(v: &Val) -> Self {
        match en(v) {
            (1, s) => UnkEnum::Foo(M::from_val(&s[0]), M::from_val(&s[1])),
            (2, s) => UnkEnum::Bar(M::from_val(&s[0])),
            (d, s) => UnkEnum::Unknown(d, M::from_val(&s[0])),
        }
    }
}

/// Catch-all variant with declared fields but no catch-all for fields.
#[derive(Clone, Debug)]
pub enum CatchPlain { A, Max(u8), Other(u64, Option<u32>) }
fourleaf_retrofit!(enum CatchPlain : {} {} {
    |_context|
    [7] CatchPlain::A => { { Ok(CatchPlain::A) } },
    [0xFFFF_FFFF_FFFF_FFFF] CatchPlain::Max(x) => {
        [9] x: u8 = x,
        { Ok(CatchPlain::Max(x)) }
    },
    (?) CatchPlain::Other(d, x) => {
        (=) d: u64 = d,
        [1] x: Option<u32> = x,
        { Ok(CatchPlain::Other(d, x)) }
    },
});
impl M for CatchPlain {
    fn schema(_: bool) -> Schema {
        enumeration("CatchPlain", vec![(7, BodyDef::default()), (u64::MAX, fields(vec![(9, "x", Schema::U(8))]))],
            Some(fields(vec![(1, "x", Schema::opt(Schema::U(32)))])))
    }
    fn to_val(&self) -> Val {
        match self {
            CatchPlain::A => Val::Enum(7, vec![]),
            CatchPlain::Max(x) => Val::Enum(u64::MAX, vec![x.to_val()]),
            CatchPlain::Other(d, x) => Val::Enum(*d, vec![x.to_val()]),
        }
    }
    fn from_val(v: &Val) -> Self {
        match en(v) {
            (7, _) => CatchPlain::A,
            (u64::MAX, s) => CatchPlain::Max(M::from_val(&s[0])),
            (d, s) => CatchPlain::Other(d, M::from_val(&s[0])),
        }
    }
}

#[derive(Clone, Debug)]
pub struct Wrapper(pub Vec<u8>);
fourleaf_retrofit!(struct Wrapper : {} {} { |_context, this| (*) inner: Vec<u8> = &this.0, { Ok(Wrapper(inner)) } });
impl M for Wrapper {
    fn schema(b: bool) -> Schema { deleg("Wrapper", "inner", Vec::<u8>::schema(b)) }
    fn to_val(&self) -> Val { Val::Struct(vec![self.0.to_val()]) }
    fn from_val(v: &Val) -> Self { Wrapper(M::from_val(&st(v)[0])) }
}
#[derive(Clone, Debug)]
pub struct WrapList(pub Vec<u32>);
fourleaf_retrofit!(struct WrapList : {} {} { |_context, this| (*) inner: Vec<u32> = &this.0, { Ok(WrapList(inner)) } });
impl M for WrapList {
    fn schema(b: bool) -> Schema { deleg("WrapList", "inner", Vec::<u32>::schema(b)) }
    fn to_val(&self) -> Val { Val::Struct(vec![self.0.to_val()]) }
    fn from_val(v: &Val) -> Self { WrapList(M::from_val(&st(v)[0])) }
}
#[derive(Clone, Debug)]
pub struct WrapEnum(pub Order);
fourleaf_retrofit!(struct WrapEnum : {} {} { |_context, this| (*) inner: Order = &this.0, { Ok(WrapEnum(inner)) } });
impl M for WrapEnum {
    fn schema(b: bool) -> Schema { deleg("WrapEnum", "inner", Order::schema(b)) }
    fn to_val(&self) -> Val { Val::Struct(vec![self.0.to_val()]) }
    fn from_val(v: &Val) -> Self { WrapEnum(M::from_val(&st(v)[0])) }
}
#[derive(Clone, Debug)]
pub struct WrapStruct(pub Widget);
fourleaf_retrofit!(struct WrapStruct : {} {} { |_context, this| (*) it: Widget = &this.0, { Ok(WrapStruct(it)) } });
impl M for WrapStruct {
    fn schema(b: bool) -> Schema { deleg("WrapStruct", "it", Widget::schema(b)) }
    fn to_val(&self) -> Val { Val::Struct(vec![self.0.to_val()]) }
    fn from_val(v: &Val) -> Self { WrapStruct(M::from_val(&st(v)[0])) }
}

#[derive(Clone, Debug)]
pub enum DelegEnum { Unit, Deleg(Widget), List(Vec<u16>), E(Order), Num(u32) }
fourleaf_retrofit!(enum DelegEnum : {} {} {
    |_context|
    [1] DelegEnum::Unit => { { Ok(DelegEnum::Unit) } },
    [2] DelegEnum::Deleg(ref inner) => { (*) inner: Widget = inner, { Ok(DelegEnum::Deleg(inner)) } },
    [3] DelegEnum::List(ref inner) => { (*) inner: Vec<u16> = inner, { Ok(DelegEnum::List(inner)) } },
    [4] DelegEnum::E(ref inner) => { (*) inner: Order = inner, { Ok(DelegEnum::E(inner)) } },
    [128] DelegEnum::Num(ref inner) => { (*) inner: u32 = inner, { Ok(DelegEnum::Num(inner)) } },
});
impl M for DelegEnum {
    fn schema(b: bool) -> Schema {
        enumeration("DelegEnum", vec![(1, BodyDef::default()), (2, dbody("inner", Widget::schema(b))),
            (3, dbody("inner", Vec::<u16>::schema(b))), (4, dbody("inner", Order::schema(b))), (128, dbody("inner", Schema::U(32)))], None)
    }
    fn to_val(&self) -> Val {
        match self {
            DelegEnum::Unit => Val::Enum(1, vec![]),
            DelegEnum::Deleg(x) => Val::Enum(2, vec![x.to_val()]),
            DelegEnum::List(x) => Val::Enum(3, vec![x.to_val()]),
            DelegEnum::E(x) => Val::Enum(4, vec![x.to_val()]),
            DelegEnum::Num(x) => Val::Enum(128, vec![x.to_val()]),
        }
    }
    fn from_val(v: &Val) -> Self {
        match en(v) {
            (1, _) => DelegEnum::Unit,
            (2, s) => DelegEnum::Deleg(M::from_val(&s[0])),
            (3, s) => DelegEnum::List(M::from_val(&s[0])),
            (4, s) => DelegEnum::E(M::from_val(&s[0])),
            (_, s) => DelegEnum::Num(M::from_val(&s[0])),
        }
    }
}

/// Validation in the constructor.
#[derive(Clone, Debug)]
pub struct Span { pub lo: u16, pub hi: u16 }
fourleaf_retrofit!(struct Span : {} {} {
    |context, this|
    [1] lo: u16 = this.lo,
    [2] hi: u16 = this.hi,
    { if lo <= hi { Ok(Span { lo: lo, hi: hi }) }
      else { Err(fourleaf::de::Error::InvalidValueMsg(context.to_string(), "empty span")) } }
});
impl M for Span {
    fn schema(_: bool) -> Schema {
        Schema::Struct(arc(StructDef { name: "Span", body: fields(vec![(1, "lo", Schema::U(16)), (2, "hi", Schema::U(16))]),
            check: Some(|v| un(&v[0]) <= un(&v[1])) }))
    }
    fn to_val(&self) -> Val { Val::Struct(vec![self.lo.to_val(), self.hi.to_val()]) }
    fn from_val(v: &Val) -> Self { let s = st(v); Span { lo: M::from_val(&s[0]), hi: M::from_val(&s[1]) } }
}

/// Generic over its contents.
#[derive(Clone, Debug)]
pub enum Either<A, B> { A(A), B(B), Both(A, Vec<B>) }
fourleaf_retrofit!(enum Either<A, B> : {
    impl<A : Serialize, B : Serialize> Serialize for Either<A, B>
} {
    impl<R : std::io::Read, STYLE, A : Deserialize<R, STYLE>, B : Deserialize<R, STYLE>>
    Deserialize<R, STYLE> for Either<A, B>
} {
    |_context|
    [1] Either::A(ref a) => { [1] a: A = a, { Ok(Either::A(a)) } },
    [2] Either::B(ref b) => { [1] b: B = b, { Ok(Either::B(b)) } },
    [3] Either::Both(ref a, ref b) => { [1] a: A = a, [2] b: Vec<B> = b, { Ok(Either::Both(a, b)) } },
});
impl<A: M, B: M> M for Either<A, B> {
    fn schema(b: bool) -> Schema {
        enumeration("Either", vec![(1, fields(vec![(1, "a", A::schema(b))])), (2, fields(vec![(1, "b", B::schema(b))])),
            (3, fields(vec![(1, "a", A::schema(b)), (2, "b", Vec::<B>::schema(b))]))], None)
    }
    fn to_val(&self) -> Val {
        match self {
            Either::A(a) => Val::Enum(1, vec![a.to_val()]),
            Either::B(a) => Val::Enum(2, vec![a.to_val()]),
            Either::Both(a, b) => Val::Enum(3, vec![a.to_val(), b.to_val()]),
        }
    }
    fn from_val(v: &Val) -> Self {
        match en(v) {
            (1, s) => Either::A(M::from_val(&s[0])),
            (2, s) => Either::B(M::from_val(&s[0])),
            (_, s) => Either::Both(M::from_val(&s[0]), M::from_val(&s[1])),
        }
    }
}

// versions of one schema

mk_struct!(Msg1 { [1] id: u32, [2] name: String, [3] lvl: i16, [4] kind: Kind1, [5] data: Vec<u8>, [6] flag: bool, });
mk_struct!(Msg2 { [1] id: u64, [2] name: Option<String>, [3] lvl: Vec<i32>, [4] kind: Kind2, [5] data: Vec<Vec<u8>>, [6] flag: u8,
    [7] extra: Option<(u8, Vec<u16>)>, [8] more: BTreeMap<u8, Widget>, [60] late: BTreeSet<String>, });
mk_struct!(Msg3 { [1] id: u8, [3] lvl: Option<i8>, [4] kind: Vec<Kind2>, });
mk_struct!(MsgU { [1] id: u32, [4] kind: KindU, } ? unknown);

#[derive(Clone, Debug)]
pub enum Kind1 { A(u16), B(String) }
fourleaf_retrofit!(enum Kind1 : {} {} {
    |_context|
    [1] Kind1::A(x) => { [1] x: u16 = x, { Ok(Kind1::A(x)) } },
    [2] Kind1::B(ref s) => { [1] s: String = s, { Ok(Kind1::B(s)) } },
});
impl M for Kind1 {
    fn schema(b: bool) -> Schema {
        enumeration("Kind1", vec![(1, fields(vec![(1, "x", Schema::U(16))])), (2, fields(vec![(1, "s", String::schema(b))]))], None)
    }
    fn to_val(&self) -> Val {
        match self { Kind1::A(x) => Val::Enum(1, vec![x.to_val()]), Kind1::B(s) => Val::Enum(2, vec![s.to_val()]) }
    }
    fn from_val(v: &Val) -> Self {
        match en(v) { (1, s) => Kind1::A(M::from_val(&s[0])), (_, s) => Kind1::B(M::from_val(&s[0])) }
    }
}
#[derive(Clone, Debug)]
pub enum Kind2 { A(u32, Option<u8>), B(Vec<String>), C(Widget) }
fourleaf_retrofit!(enum Kind2 : {} {} {
    |_context|
    [1] Kind2::A(x, y) => { [1] x: u32 = x, [2] y: Option<u8> = y, { Ok(Kind2::A(x, y)) } },
    [2] Kind2::B(ref s) => { [1] s: Vec<String> = s, { Ok(Kind2::B(s)) } },
    [3] Kind2::C(ref z) => { [1] z: Widget = z, { Ok(Kind2::C(z)) } },
});
impl M for Kind2 {
    fn schema(b: bool) -> Schema {
        enumeration("Kind2", vec![(1, fields(vec![(1, "x", Schema::U(32)), (2, "y", Option::<u8>::schema(b))])),
            (2, fields(vec![(1, "s", Vec::<String>::schema(b))])), (3, fields(vec![(1, "z", Widget::schema(b))]))], None)
    }
    fn to_val(&self) -> Val {
        match self {
            Kind2::A(x, y) => Val::Enum(1, vec![x.to_val(), y.to_val()]),
            Kind2::B(s) => Val::Enum(2, vec![s.to_val()]),
            Kind2::C(s) => Val::Enum(3, vec![s.to_val()]),
        }
    }
    fn from_val(v: &Val) -> Self {
        match en(v) {
            (1, s) => Kind2::A(M::from_val(&s[0]), M::from_val(&s[1])),
            (2, s) => Kind2::B(M::from_val(&s[0])),
            (_, s) => Kind2::C(M::from_val(&s[0])),
        }
    }
}
#[derive(Clone, Debug)]
pub enum KindU { A(u16, UnknownFields<'static>), Unknown(u64, UnknownFields<'static>) }
fourleaf_retrofit!(enum KindU : {} {} {
    |_context|
    [1] KindU::A(x, ref rest) => {
        [1] x: u16 = x,
        (?) rest: Copied<UnknownFields<'static>> = rest,
        { Ok(KindU::A(x, rest.0)) }
    },
    (?) KindU::Unknown(d, ref rest) => {
        (=) d: u64 = d,
        (?) rest: Copied<UnknownFields<'static>> = rest,
        { Ok(KindU::Unknown(d, rest.0)) }
    },
});
impl M for KindU {
    fn schema(_: bool) -> Schema {
        enumeration("KindU", vec![(1, with_unk(fields(vec![(1, "x", Schema::U(16))]), "rest", true))],
            Some(with_unk(BodyDef::default(), "rest", true)))
    }
    fn to_val(&self) -> Val {
        match self { KindU::A(x, u) => Val::Enum(1, vec![x.to_val(), u.to_val()]), KindU::Unknown(d, u) => Val::Enum(*d, vec![u.to_val()]) }
    }
    fn from_val(v: &Val) -> Self {
        match en(v) { (1, s) => KindU::A(M::from_val(&s[0]), M::from_val(&s[1])), (d, s) => KindU::Unknown(d, M::from_val(&s[0])) }
    }
}

// user implementations of the traits

/// A type with a special form for slices, as `u8` has: a blob of the
/// complemented bytes.
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, PartialOrd, Ord)]
pub struct Flip(pub u8);
impl Serialize for Flip {
    fn serialize_element<W: std::io::Write>(&self, dst: &mut Stream<W>, tag: u8) -> stream::Result<()> { dst.write_u8(tag, self.0) }
    fn serialize_slice<W: std::io::Write>(selves: &[Self], dst: &mut Stream<W>, tag: u8) -> Option<stream::Result<()>> {
        Some(dst.write_blob_data(tag, selves.iter().map(|x| !x.0).collect::<Vec<u8>>()).map(|_| ()))
    }
}
fn low(context: &Context, e: stream::Error) -> de::Error { de::Error::Stream(context.to_string(), e) }
fn flips<R: std::io::Read>(len: Option<usize>, context: &Context, field: &mut stream::Field<R>) -> de::Result<Vec<Flip>> {
    let blob = field.value.to_blob().map_err(|e| low(context, e))?;
    match len {
        Some(n) if n as u64 != blob.len() => return Err(de::Error::InvalidValueMsg(context.to_string(), "wrong length")),
        Some(_) => (),
        None => context.blob(blob.len())?,
    }
    let max = if len.is_some() { usize::MAX } else { context.config.max_blob };
    let r: stream::Result<Vec<u8>> = if let Some(n) = len {
        let mut v = vec![0; n];
        std::io::Read::read_exact(blob, &mut v).map(|_| v).map_err(stream::Error::from)
    } else { blob.read_fully(max) };
    Ok(r.map_err(|e| low(context, e))?.into_iter().map(|b| Flip(!b)).collect())
}
macro_rules! flip_arr { ($m:ident, $n:expr) => {
    fn $m(context: &Context, field: &mut stream::Field<R>) -> Option<de::Result<[Self; $n]>> {
        Some(flips(Some($n), context, field).map(|v| v.try_into().unwrap()))
    }
} }
impl<R: std::io::Read, STYLE> Deserialize<R, STYLE> for Flip {
    type Accum = Option<Flip>;
    fn deserialize_field(accum: &mut Option<Self>, context: &Context, field: &mut stream::Field<R>) -> de::Result<()> {
        if accum.is_some() { return Err(de::Error::FieldOccursTooManyTimes(context.to_string(), 1)); }
        *accum = Some(Flip(field.value.to_u8().map_err(|e| low(context, e))?));
        Ok(())
    }
    fn finish(accum: Option<Self>, context: &Context) -> de::Result<Self> {
        accum.ok_or_else(|| de::Error::RequiredFieldMissing(context.to_string()))
    }
    fn serialized_as_slice() -> bool { true }
    fn deserialize_vec(context: &Context, field: &mut stream::Field<R>) -> Option<de::Result<Vec<Self>>> { Some(flips(None, context, field)) }
    fn deserialize_slice(dst: &mut [Self], context: &Context, field: &mut stream::Field<R>) -> Option<de::Result<()>> {
        Some(flips(Some(dst.len()), context, field).map(|v| dst.copy_from_slice(&v)))
    }
    flip_arr!(deserialize_array_0, 0);
    flip_arr!(deserialize_array_1, 1);
    flip_arr!(deserialize_array_2, 2);
    flip_arr!(deserialize_array_3, 3);
    flip_arr!(deserialize_array_4, 4);
    flip_arr!(deserialize_array_5, 5);
    flip_arr!(deserialize_array_6, 6);
    flip_arr!(deserialize_array_7, 7);
    flip_arr!(deserialize_array_8, 8);
    flip_arr!(deserialize_array_9, 9);
    flip_arr!(deserialize_array_10, 10);
    flip_arr!(deserialize_array_11, 11);
    flip_arr!(deserialize_array_12, 12);
    flip_arr!(deserialize_array_13, 13);
    flip_arr!(deserialize_array_14, 14);
    flip_arr!(deserialize_array_15, 15);
    flip_arr!(deserialize_array_16, 16);
    flip_arr!(deserialize_array_17, 17);
    flip_arr!(deserialize_array_18, 18);
    flip_arr!(deserialize_array_19, 19);
    flip_arr!(deserialize_array_20, 20);
    flip_arr!(deserialize_array_21, 21);
    flip_arr!(deserialize_array_22, 22);
    flip_arr!(deserialize_array_23, 23);
    flip_arr!(deserialize_array_24, 24);
    flip_arr!(deserialize_array_25, 25);
    flip_arr!(deserialize_array_26, 26);
    flip_arr!(deserialize_array_27, 27);
    flip_arr!(deserialize_array_28, 28);
    flip_arr!(deserialize_array_29, 29);
    flip_arr!(deserialize_array_30, 30);
    flip_arr!(deserialize_array_31, 31);
    flip_arr!(deserialize_array_32, 32);
}
impl M for Flip {
    fn schema(_: bool) -> Schema { Schema::U(8) }
    fn vec_schema(_: bool) -> Schema { Schema::Bytes { charge: true } }
    fn arr_schema(n: usize, large: bool, _: bool) -> Schema { Schema::ByteArr(n, large) }
    fn to_val(&self) -> Val { Val::U(self.0 as u64) }
    fn from_val(v: &Val) -> Self { Flip(un(v) as u8) }
    fn slice_to_val(v: &[Self]) -> Val { Val::Bytes(v.iter().map(|x| !x.0).collect()) }
    fn vec_from_val(v: &Val) -> Vec<Self> { by(v).iter().map(|b| Flip(!b)).collect() }
}
/// Only what the traits require: everything else by default.
#[derive(Clone, Debug)]
pub struct Least(pub i32);
impl Serialize for Least {
    fn serialize_element<W: std::io::Write>(&self, dst: &mut Stream<W>, tag: u8) -> stream::Result<()> { dst.write_i32(tag, self.0) }
}
impl<R: std::io::Read, STYLE> Deserialize<R, STYLE> for Least {
    type Accum = Option<Least>;
    fn deserialize_field(accum: &mut Option<Self>, context: &Context, field: &mut stream::Field<R>) -> de::Result<()> {
        if accum.is_some() { return Err(de::Error::FieldOccursTooManyTimes(context.to_string(), 1)); }
        *accum = Some(Least(field.value.to_i32().map_err(|e| low(context, e))?));
        Ok(())
    }
    fn finish(accum: Option<Self>, context: &Context) -> de::Result<Self> {
        accum.ok_or_else(|| de::Error::RequiredFieldMissing(context.to_string()))
    }
}
impl M for Least {
    fn schema(_: bool) -> Schema { Schema::I(32) }
    fn to_val(&self) -> Val { Val::I(self.0 as i64) }
    fn from_val(v: &Val) -> Self { match v { Val::I(n) => Least(*n as i32), o => panic!("not signed: {:?}", o) } }
}
/// Serialises as another type.
#[derive(Clone, Debug)]
pub struct Alias(pub Widget);
impl fourleaf::ser::SerializeAs for Alias {
    type T = Widget;
    fn serialize_as(&self) -> &Widget { &self.0 }
}
impl<R: std::io::Read, STYLE> Deserialize<R, STYLE> for Alias {
    type Accum = <Widget as Deserialize<R, STYLE>>::Accum;
    fn deserialize_body(context: &Context, stream: &mut Stream<R>) -> de::Result<Self> {
        <Widget as Deserialize<R, STYLE>>::deserialize_body(context, stream).map(Alias)
    }
    fn deserialize_field(accum: &mut Self::Accum, context: &Context, field: &mut stream::Field<R>) -> de::Result<()> {
        <Widget as Deserialize<R, STYLE>>::deserialize_field(accum, context, field)
    }
    fn finish(accum: Self::Accum, context: &Context) -> de::Result<Self> {
        <Widget as Deserialize<R, STYLE>>::finish(accum, context).map(Alias)
    }
}
impl M for Alias {
    fn schema(b: bool) -> Schema { Widget::schema(b) }
    fn to_val(&self) -> Val { self.0.to_val() }
    fn from_val(v: &Val) -> Self { Alias(M::from_val(v)) }
}

// zero-copy

#[derive(Clone, Debug)]
pub struct ZC<'a> { pub b: &'a [u8], pub s: &'a str, pub c: Cow<'a, str>, pub l: Vec<Cow<'a, [u8]>>, pub o: Option<&'a str>, pub own: Vec<u8> }
fourleaf_retrofit!(struct ZC<'a> : {
    impl<'a> Serialize for ZC<'a>
} {
    impl<'a, R : std::io::Read, STYLE> Deserialize<R, STYLE> for ZC<'a>
    where &'a [u8]: Deserialize<R, STYLE>, &'a str: Deserialize<R, STYLE>,
          Cow<'a, str>: Deserialize<R, STYLE>, Cow<'a, [u8]>: Deserialize<R, STYLE>
} {
    |_context, this|
    [1] b: &'a [u8] = this.b,
    [2] s: &'a str = this.s,
    [3] c: Cow<'a, str> = this.c,
    [4] l: Vec<Cow<'a, [u8]>> = this.l,
    [5] o: Option<&'a str> = this.o,
    [6] own: Vec<u8> = this.own,
    { Ok(ZC { b: b, s: s, c: c, l: l, o: o, own: own }) }
});
impl<'a> M for ZC<'a> {
    fn schema(b: bool) -> Schema {
        structure("ZC", vec![(1, "b", <&'a [u8]>::schema(b)), (2, "s", <&'a str>::schema(b)), (3, "c", Cow::<'a, str>::schema(b)),
            (4, "l", Vec::<Cow<'a, [u8]>>::schema(b)), (5, "o", Option::<&'a str>::schema(b)), (6, "own", Vec::<u8>::schema(b))])
    }
    fn to_val(&self) -> Val {
        Val::Struct(vec![self.b.to_val(), self.s.to_val(), self.c.to_val(), self.l.to_val(), self.o.to_val(), self.own.to_val()])
    }
    fn from_val(v: &Val) -> Self {
        let s = st(v);
        ZC { b: M::from_val(&s[0]), s: M::from_val(&s[1]), c: M::from_val(&s[2]), l: M::from_val(&s[3]), o: M::from_val(&s[4]), own: M::from_val(&s[5]) }
    }
}
#[derive(Clone, Debug)]
pub struct ZUnk<'a> { pub foo: u32, pub s: Cow<'a, str>, pub unknown: UnknownFields<'a> }
fourleaf_retrofit!(struct ZUnk<'a> : {
    impl<'a> Serialize for ZUnk<'a>
} {
    impl<'a, R : std::io::Read, STYLE> Deserialize<R, STYLE> for ZUnk<'a>
    where Cow<'a, str>: Deserialize<R, STYLE>, UnknownFields<'a>: Deserialize<R, STYLE>
} {
    |_context, this|
    [1] foo: u32 = this.foo,
    [2] s: Cow<'a, str> = this.s,
    (?) unknown: UnknownFields<'a> = &this.unknown,
    { Ok(ZUnk { foo: foo, s: s, unknown: unknown }) }
});
impl<'a> M for ZUnk<'a> {
    fn schema(b: bool) -> Schema {
        Schema::Struct(arc(StructDef { name: "ZUnk",
            body: with_unk(fields(vec![(1, "foo", Schema::U(32)), (2, "s", Schema::Str { charge: !b })]), "unknown", !b), check: None }))
    }
    fn to_val(&self) -> Val { Val::Struct(vec![self.foo.to_val(), self.s.to_val(), self.unknown.to_val()]) }
    fn from_val(v: &Val) -> Self { let s = st(v); ZUnk { foo: M::from_val(&s[0]), s: M::from_val(&s[1]), unknown: M::from_val(&s[2]) } }
}

// ------------------------------------------------------------------ registry

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum SerOp { ToStream, ToStreamRef, Body, Field(u8), Elem(u8), ElemBox(u8), ElemRefMut(u8), BodyRc }
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum DeOp { Body, Field(u8), Elem, BodyBox }

type DR = de::Result<Val>;

pub struct Entry {
    pub name: &'static str,
    /// schema when copying / borrowing
    pub copy: Schema,
    pub bor: Schema,
    pub to_vec: fn(&Val) -> stream::Result<(Vec<u8>, Val)>,
    pub to_writer: fn(&Val, Dev) -> stream::Result<Val>,
    pub ser: fn(&Val, SerOp, &mut Stream<Dev>) -> stream::Result<Val>,
    pub de_slice: Option<fn(&[u8], &Config) -> DR>,
    /// zero-copy from a slice; also re-serialises the borrowed value
    pub de_borrow: fn(&[u8], &Config) -> de::Result<(Val, Vec<u8>)>,
    /// zero-copy from a stream over a slice; returns the stream position too
    pub de_borrow_stream: fn(&[u8], bool, &Config) -> de::Result<(Val, u64)>,
    /// several values, one after another, zero-copy from one stream over a
    /// slice; each with the position after it
    pub de_borrow_seq: fn(&[u8], usize, &Config) -> de::Result<Vec<(Val, u64)>>,
    pub de_reader: Option<fn(Dev, &Config) -> DR>,
    pub de_stream: Option<fn(&mut Stream<Dev>, DeOp, &Config) -> DR>,
    /// size of the Rust type
    pub size: usize,
    /// cannot be used in field context
    pub no_field: bool,
}

fn ser_any<T: M + Serialize>(v: &Val, op: SerOp, s: &mut Stream<Dev>) -> stream::Result<Val> {
    let mut t = T::from_val(v);
    match op {
        SerOp::ToStream => { let e = t.to_val(); fourleaf::to_stream(s, t)?; return Ok(e); }
        SerOp::ToStreamRef => fourleaf::to_stream(s, &t)?,
        SerOp::Body => t.serialize_body(s)?,
        SerOp::BodyRc => { let e = t.to_val(); Arc::new(t).serialize_body(s)?; return Ok(e); }
        SerOp::Field(tag) => t.serialize_field(s, tag)?,
        SerOp::Elem(tag) => t.serialize_element(s, tag)?,
        SerOp::ElemBox(tag) => { let e = t.to_val(); Box::new(t).serialize_element(s, tag)?; return Ok(e); }
        SerOp::ElemRefMut(tag) => { let r = &mut t; (&r).serialize_element(s, tag)? }
    }
    Ok(t.to_val())
}
fn de_dev<T: M + Deserialize<Dev, style::Copying>>(s: &mut Stream<Dev>, op: DeOp, c: &Config) -> DR {
    let ctx = Context::top(c);
    let err = |e: stream::Error| de::Error::Stream(String::new(), e);
    match op {
        DeOp::Body => fourleaf::from_stream_copy::<Dev, T>(s, c).map(|t| t.to_val()),
        DeOp::BodyBox => fourleaf::from_stream_copy::<Dev, Rc<T>>(s, c).map(|t| t.to_val()),
        DeOp::Field(tag) => {
            let mut acc = T::Accum::default();
            while let Some(mut f) = s.next_field().map_err(&err)? {
                if f.tag == tag { T::deserialize_field(&mut acc, &ctx, &mut f)?; } else { f.skip().map_err(&err)?; }
            }
            T::finish(acc, &ctx).map(|t| t.to_val())
        }
        DeOp::Elem => match s.next_field().map_err(&err)? {
            Some(mut f) => T::deserialize_element(&ctx, &mut f).map(|t| t.to_val()),
            None => Err(de::Error::RequiredFieldMissing("harness: no field".into())),
        },
    }
}

macro_rules! own {
    ($v:expr; $($t:ty),* $(,)*) => { $($v.push(Entry {
        name: stringify!($t),
        copy: <$t as M>::schema(false),
        bor: <$t as M>::schema(true),
        to_vec: |v| { let t = <$t as M>::from_val(v); let e = t.to_val(); fourleaf::to_vec(t).map(|b| (b, e)) },
        to_writer: |v, w| { let t = <$t as M>::from_val(v); fourleaf::to_writer(w, &t).map(|_| t.to_val()) },
        ser: ser_any::<$t>,
        de_slice: Some(|b, c| fourleaf::from_slice_copy::<$t>(b, c).map(|t| t.to_val())),
        de_borrow: |b, c| {
            set_base(b);
            let t = fourleaf::from_slice_borrow::<$t>(b, c)?;
            let r = t.to_val();
            Ok((r, fourleaf::to_vec(&t).unwrap_or_default()))
        },
        de_borrow_stream: |b, graceful, c| {
            set_base(b);
            let mut s = Stream::from_slice(b);
            s.set_graceful_eof(graceful);
            let t = fourleaf::from_stream_borrow::<TransparentCursor<&[u8]>, $t>(&mut s, c)?;
            Ok((t.to_val(), s.pos()))
        },
        de_borrow_seq: |b, n, c| {
            set_base(b);
            let mut s = Stream::from_slice(b);
            let mut ts = vec![];
            for _ in 0..n { let t = fourleaf::from_stream_borrow::<TransparentCursor<&[u8]>, $t>(&mut s, c)?; ts.push((t, s.pos())); }
            Ok(ts.iter().map(|x| (x.0.to_val(), x.1)).collect())
        },
        de_reader: Some(|d, c| fourleaf::from_reader::<Dev, $t>(d, c).map(|t| t.to_val())),
        de_stream: Some(de_dev::<$t>),
        size: std::mem::size_of::<$t>(),
        no_field: false,
    });)* }
}
/// Types that can only be deserialised without copying.
macro_rules! bor {
    ($v:expr; $a:lifetime; $($t:ty),* $(,)*) => { $($v.push({
        fn sc<$a>(b: bool) -> Schema { <$t as M>::schema(b) }
        fn tv<$a>(v: &Val) -> stream::Result<(Vec<u8>, Val)> {
            let t = <$t as M>::from_val(v); let e = t.to_val(); fourleaf::to_vec(t).map(|b| (b, e))
        }
        fn tw<$a>(v: &Val, w: Dev) -> stream::Result<Val> {
            let t = <$t as M>::from_val(v); fourleaf::to_writer(w, &t).map(|_| t.to_val())
        }
        fn se<$a>(v: &Val, op: SerOp, s: &mut Stream<Dev>) -> stream::Result<Val> { ser_any::<$t>(v, op, s) }
        fn db<$a>(b: &$a [u8], c: &Config) -> de::Result<(Val, Vec<u8>)> {
            set_base(b);
            let t = fourleaf::from_slice_borrow::<$t>(b, c)?;
            let r = t.to_val();
            Ok((r, fourleaf::to_vec(&t).unwrap_or_default()))
        }
        fn ds<$a>(b: &$a [u8], graceful: bool, c: &Config) -> de::Result<(Val, u64)> {
            set_base(b);
            let mut s = Stream::from_slice(b);
            s.set_graceful_eof(graceful);
            let t = fourleaf::from_stream_borrow::<TransparentCursor<&$a [u8]>, $t>(&mut s, c)?;
            Ok((t.to_val(), s.pos()))
        }
        fn dq<$a>(b: &$a [u8], n: usize, c: &Config) -> de::Result<Vec<(Val, u64)>> {
            set_base(b);
            let mut s = Stream::from_slice(b);
            let mut ts = vec![];
            for _ in 0..n { let t = fourleaf::from_stream_borrow::<TransparentCursor<&$a [u8]>, $t>(&mut s, c)?; ts.push((t, s.pos())); }
            Ok(ts.iter().map(|x| (x.0.to_val(), x.1)).collect())
        }
        fn sz<$a>() -> usize { std::mem::size_of::<$t>() }
        Entry {
            name: stringify!($t), copy: sc(false), bor: sc(true),
            to_vec: tv, to_writer: tw, ser: se, de_slice: None, de_borrow: db, de_borrow_stream: ds, de_borrow_seq: dq,
            de_reader: None, de_stream: None, size: sz(), no_field: false,
        }
    });)* }
}
/// Types usable in both styles, borrowing in zero-copy style.
macro_rules! both {
    ($v:expr; $a:lifetime; $($t:ty),* $(,)*) => { $(
        bor!($v; $a; $t);
        {
            fn sl<$a>(b: &[u8], c: &Config) -> DR { fourleaf::from_slice_copy::<$t>(b, c).map(|t| t.to_val()) }
            fn rd<$a>(d: Dev, c: &Config) -> DR { fourleaf::from_reader::<Dev, $t>(d, c).map(|t| t.to_val()) }
            fn st<$a>(s: &mut Stream<Dev>, op: DeOp, c: &Config) -> DR { de_dev::<$t>(s, op, c) }
            let e: &mut Entry = $v.last_mut().unwrap();
            e.de_slice = Some(sl);
            e.de_reader = Some(rd);
            e.de_stream = Some(st);
        }
    )* }
}

#[path = "gtypes.rs"]
pub mod gtypes;

pub fn registry() -> &'static [Entry] {
    static REG: OnceLock<Vec<Entry>> = OnceLock::new();
    REG.get_or_init(build)
}
/// Every size of array, and further combinations of types.
pub fn extras() -> &'static [Entry] {
    static REG: OnceLock<Vec<Entry>> = OnceLock::new();
    REG.get_or_init(|| {
        let mut v: Vec<Entry> = Vec::new();
        own!(v;
        [u8; 2], [u8; 3], [u8; 5], [u8; 6], [u8; 8], [u8; 9], [u8; 10], [u8; 11], [u8; 12], [u8; 13], [u8; 14], [u8; 15], [u8; 17], [u8; 18], 
        [u8; 19], [u8; 20], [u8; 21], [u8; 22], [u8; 23], [u8; 24], [u8; 25], [u8; 26], [u8; 27], [u8; 28], [u8; 29], [u8; 30], [u8; 31], 
        [u8; 128], [u8; 512], [u8; 1024], [u8; 2048], [u8; 4096], [u16; 2], [u16; 3], [u16; 4], [u16; 5], [u16; 6], [u16; 7], [u16; 8], 
        [u16; 9], [u16; 10], [u16; 11], [u16; 12], [u16; 13], [u16; 14], [u16; 15], [u16; 16], [u16; 17], [u16; 18], [u16; 19], [u16; 20], 
        [u16; 21], [u16; 22], [u16; 23], [u16; 24], [u16; 25], [u16; 26], [u16; 27], [u16; 28], [u16; 29], [u16; 30], [u16; 31], [u16; 32], 
        [String; 4], [bool; 5], [i64; 6], [i8; 9], [Option<u8>; 11], [bool; 13], [i64; 14], [char; 15], [i8; 17], [u32; 18], 
        [Option<u8>; 19], [bool; 21], [i64; 22], [char; 23], [i8; 25], [u32; 26], [Option<u8>; 27], [String; 28], [bool; 29], [i64; 30], 
        [char; 31], [u16; 64], [i8; 256], [u32; 512], [u8; 8192], [u16; 1024], [char; 64], [(u8, i16); 64], [[u8; 4]; 64], [i16; 2048], 
        [(); 64], Rc<Vec<String>>, Arc<[u16; 3]>, Box<(u8, String)>, Rc<Option<Arc<u8>>>, Box<BTreeMap<u8, Rc<String>>>, Vec<Arc<Widget>>, 
        Option<Rc<Order>>, LinkedList<Option<i8>>, VecDeque<VecDeque<u16>>, BTreeSet<Vec<u8>>, BTreeSet<Option<u8>>, HashSet<(u8, u8), BH>, 
        HashSet<i64, BH>, BinaryHeap<(u8, u16)>, BinaryHeap<Vec<u8>>, BTreeMap<char, i64>, BTreeMap<bool, Vec<Option<u8>>>, 
        HashMap<i16, BTreeMap<u8, u8>, BH>, HashMap<char, Option<Vec<u8>>, BH>, Option<BTreeMap<u8, u8>>, Option<BTreeSet<u16>>, 
        Option<[u8; 3]>, Option<[u16; 3]>, Option<Duration>, Option<(u8, u8)>, Result<Vec<Option<u8>>, Option<Vec<u8>>>, 
        Result<[u8; 4], [u16; 2]>, Result<BTreeMap<u8, u8>, BTreeSet<u8>>, Result<Widget, Nested>, Vec<PhantomData<String>>, 
        Option<PhantomData<String>>, (PhantomData<String>, u8), Vec<isize>, Vec<usize>, Vec<i32>, Option<char>, Option<bool>, Option<i64>, 
        Vec<[u8; 5]>, Vec<[u16; 2]>, BTreeMap<[u8; 2], [u16; 2]>, Vec<SocketAddr>, Vec<Ipv6Addr>, Box<SocketAddrV6>, Vec<Duration>, 
        HashMap<Ipv6Addr, Duration, BH>, Copied<String>, Copied<Widget>, Vec<Copied<Vec<u8>>>, Option<Copied<Order>>,
        Flip, Vec<Flip>, [Flip; 0], [Flip; 1], [Flip; 7], [Flip; 32], [Flip; 64], [Flip; 128], Option<Vec<Flip>>, Vec<Vec<Flip>>, VecDeque<Flip>,
        (Flip, Vec<Flip>), BTreeMap<Flip, Vec<Flip>>, Vec<[Flip; 3]>, Either<Vec<Flip>, [Flip; 2]>, Rc<Vec<Flip>>, Vec<Box<Flip>>, BTreeSet<Flip>,
        Option<Flip>, [[Flip; 2]; 3], [Option<Vec<Flip>>; 2],
        Least, Vec<Least>, Option<Least>, [Least; 4], BTreeMap<u8, Least>, (Least, Vec<Least>), Either<Least, Vec<Least>>,
        Alias, Vec<Alias>, Option<Alias>, [Alias; 3], (Alias, Option<Alias>), BTreeMap<u8, Alias>, Result<Alias, Alias>,
        );
        v
    })
}
/// Generated types: random declarations through the macro.
pub fn generated() -> &'static [Entry] {
    static REG: OnceLock<Vec<Entry>> = OnceLock::new();
    REG.get_or_init(gtypes::build)
}
pub fn find(name: &str) -> &'static Entry {
    let n: String = name.chars().filter(|c| *c != ' ').collect();
    registry().iter().chain(extras()).chain(generated()).find(|e| e.name.chars().filter(|c| *c != ' ').collect::<String>() == n)
        .unwrap_or_else(|| panic!("no type {}", name))
}

fn build() -> Vec<Entry> {
    let mut v: Vec<Entry> = Vec::new();
    own!(v;
        u8, u16, u32, u64, usize, i8, i16, i32, i64, isize, bool, char, (), PhantomData<String>, String,
        Vec<u8>, Vec<u16>, Vec<i8>, Vec<bool>, Vec<char>, Vec<()>, Vec<String>, Vec<Vec<u8>>, Vec<Vec<u32>>, Vec<Vec<Vec<i16>>>,
        Vec<Box<u8>>, Vec<Option<u32>>, Vec<Option<Option<String>>>, Option<Vec<Option<u8>>>,
        VecDeque<u8>, VecDeque<String>, LinkedList<i64>, LinkedList<Vec<u8>>,
        BTreeSet<u8>, BTreeSet<String>, BTreeSet<(u8, i16)>, HashSet<u8, BH>, HashSet<String, BH>, HashSet<Vec<u8>, BH>,
        BinaryHeap<u8>, BinaryHeap<i32>, BinaryHeap<String>,
        Option<u32>, Option<u8>, Option<()>, Option<Vec<u8>>, Option<Vec<u32>>, Option<Option<u64>>, Option<Box<String>>,
        BTreeMap<u32, String>, BTreeMap<String, Vec<u8>>, BTreeMap<Vec<u8>, Vec<u16>>, BTreeMap<u8, BTreeMap<i8, bool>>,
        BTreeMap<Option<u8>, Option<()>>, HashMap<u64, Option<String>, BH>, HashMap<String, u8, BH>, HashMap<Vec<u16>, (u8, bool), BH>,
        [u8; 0], [u8; 1], [u8; 7], [u8; 32], [u8; 64], [u8; 256], [u16; 0], [u16; 1], [u32; 3], [i64; 32], [bool; 64], [u16; 128],
        [String; 2], [Vec<u8>; 3], [Option<u32>; 2], [[u8; 4]; 3], [[u16; 2]; 4], [Box<u8>; 4], [(); 5], [Vec<u32>; 2],
        Box<u32>, Box<Vec<u8>>, Rc<String>, Arc<Vec<Rc<u16>>>, Box<Box<Option<u8>>>,
        Copied<u32>, Copied<Vec<u8>>, Copied<Cow<'static, str>>, Copied<UnknownFields<'static>>, Copied<UnknownField<'static>>,
        Vec<Copied<UnknownFields<'static>>>, Vec<Copied<UnknownField<'static>>>, (u8, [Copied<UnknownFields<'static>>; 1]),
        (Copied<UnknownField<'static>>, Option<Copied<UnknownField<'static>>>),
        (u8,), (Vec<u8>,), (Option<u32>, Vec<u16>), (String, u64, bool), (u8, (u16, (u32, (u64,)))), ((), u8, ()),
        (Vec<String>, Option<Vec<u8>>, [u16; 2], BTreeMap<u8, u8>), (i8, i16, i32, i64, isize),
        (u8, u16, u32, u64, usize, char), (u8, bool, u8, bool, u8, bool, u8), (u8, u8, u8, u8, u8, u8, u8, u8),
        (u8, u16, u8, u16, u8, u16, u8, u16, Option<u8>), (u8, u16, u8, u16, u8, u16, u8, u16, u8, Vec<u8>),
        (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, i8), (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, i16),
        (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, i32), (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, i64),
        (u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, u8, String),
        (u8, i8, u8, i8, u8, i8, u8, i8, u8, i8, u8, i8, u8, i8, Option<u8>, Vec<u32>),
        Duration, Ipv4Addr, Ipv6Addr, IpAddr, SocketAddrV4, SocketAddrV6, SocketAddr, Vec<IpAddr>, Option<SocketAddr>,
        (Ipv4Addr, Duration, Option<Ipv6Addr>), BTreeMap<Ipv4Addr, SocketAddr>,
        Result<u32, String>, Result<(), ()>, Result<Vec<u8>, Vec<u16>>, Result<Result<u8, ()>, Widget>, Vec<Result<Option<u8>, Duration>>,
        Widget, HighTags, Nil, UnkPres, UnkOnly, Nested, UnkDeep, AllColl, Tree, TreeBox, Chain, Order, UnkEnum, CatchPlain,
        Wrapper, WrapList, WrapEnum, WrapStruct, DelegEnum, Span, Either<u8, String>, Either<Vec<u8>, Option<u16>>, Either<Nil, Order>,
        Vec<Widget>, Vec<Order>, Option<Order>, Vec<Nil>, BTreeMap<u8, Order>, Vec<Wrapper>, (Wrapper, WrapList, WrapEnum), Option<WrapList>,
        Msg1, Msg2, Msg3, MsgU, Kind1, Kind2, KindU, Vec<Msg2>,
        Vec<u32>, Vec<u64>, VecDeque<u32>, LinkedList<u32>, BTreeSet<u32>, BinaryHeap<u32>, Vec<i64>, Vec<(u32, String)>, VecDeque<(u8, i16)>,
        HashMap<u32, String, BH>, (u64, u32), [u8; 4], [u8; 16], (String, Option<String>, u64), Either<u32, String>, ([u8; 4], u16), (u8, u16),
        Vec<UnkEnum>, Vec<DelegEnum>, Option<Tree>, Vec<Span>, [Widget; 2], [Order; 1], Vec<Chain>, (UnkPres, UnkEnum), Vec<WrapList>,
    );
    bor!(v; 'a;
        &'a [u8], &'a str, Vec<&'a [u8]>, Option<&'a str>, (&'a [u8], &'a str), BTreeMap<&'a str, &'a [u8]>, ZC<'a>, Vec<ZC<'a>>,
        [&'a [u8]; 2], Result<&'a str, &'a [u8]>, (u8, Option<(&'a str, Vec<&'a [u8]>)>), Box<&'a [u8]>,
    );
    both!(v; 'a;
        Cow<'a, str>, Cow<'a, [u8]>, Vec<Cow<'a, [u8]>>, Vec<Cow<'a, str>>, (Cow<'a, str>, Cow<'a, [u8]>, Vec<u8>), UnknownFields<'a>, UnknownField<'a>, ZUnk<'a>,
        Option<ZUnk<'a>>, BTreeMap<u8, Cow<'a, str>>, (Copied<Cow<'a, str>>, Cow<'a, str>), Vec<UnknownField<'a>>, HashMap<u8, Box<Cow<'a, [u8]>>, BH>,
    );
    for e in &mut v {
        e.no_field = matches!(e.copy, Schema::Unknown { .. });
    }
    v
}
