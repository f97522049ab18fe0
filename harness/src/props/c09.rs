//! Schema evolution.
//! technique: property-based testing over schema pairs with an explicit mapping of values
use super::*;

pub fn prop() -> Prop {
    Prop {
        id: "C09",
        rule: "a case counts as non-trivial when the document is longer than one byte and writer and reader differ; distinct by pair, configuration and document",
        facets: vec![
            facet("versions", versions, 700_000, 30_000_000),
            facet("integers", integers, 600_000, 20_000_000),
            facet("shapes", shapes, 700_000, 30_000_000),
            facet("any", any, 500_000, 20_000_000),
            big!("big-versions", versions, 300, 6_000),
            big!("big-any", any, 300, 6_000),
            big!("big-shapes", shapes, 300, 6_000),
        ],
    }
}

fn check(src: &mut Src, cx: &mut Cx, w: &Entry, r: &Entry, v: &Val, strict: bool, want: Option<Val>) -> Res {
    let (b, _) = (w.to_vec)(v).map_err(|x| format!("{}: {}", w.name, x))?;
    let way = pick_way(src, r);
    let s = way_schema(r, way);
    if b.len() > 1 && w.name != r.name {
        cx.nontrivial(w.name.as_bytes());
        cx.nontrivial(r.name.as_bytes());
        cx.nontrivial(&b);
        cx.nontrivial(&[way as u8, strict as u8]);
        cx.desc(|| format!("{} -> {} via {:?} strict={}: [{}]", w.name, r.name, way, strict, hex(&b)));
    }
    let got = run_way(r, way, &b, &config(strict), &[]);
    let about = || format!("{} {} written as [{}], read as {} via {:?} strict={}", w.name, short(v), hex(&b), r.name, way, strict);
    match (want, got) {
        (Some(x), Ok((y, p))) => {
            cx.label("maps");
            let (x, y) = (canon(s, &x), canon(s, &y.strip()));
            ensure!(x == y, "{}: {} instead of {}", about(), short(&y), short(&x));
            if let Some(p) = p { ensure!(p == b.len() as u64, "{}: consumed {}", about(), p); }
            Ok(())
        }
        (None, Err(_)) => { cx.label("rejected"); Ok(()) }
        (Some(x), Err(e)) => Err(format!("{}: {} instead of {}", about(), e, short(&x))),
        (None, Ok((y, _))) => Err(format!("{}: accepted as {}", about(), short(&y))),
    }
}

type Map = fn(&Val, bool) -> Option<Val>;

fn un(v: &Val) -> u64 { if let Val::U(n) = v { *n } else { panic!("{:?}", v) } }
fn int(v: &Val) -> i64 { if let Val::I(n) = v { *n } else { panic!("{:?}", v) } }
fn seq(v: &Val) -> &[Val] { if let Val::Seq(n) = v { n } else { panic!("{:?}", v) } }
fn u(v: &Val, max: u64) -> Option<Val> { if un(v) <= max { Some(v.clone()) } else { None } }
fn i(v: &Val, lo: i64, hi: i64) -> Option<Val> { if int(v) >= lo && int(v) <= hi { Some(v.clone()) } else { None } }
fn only(v: &Val) -> Option<Val> { if seq(v).len() == 1 { Some(seq(v)[0].clone()) } else { None } }
fn one(v: &Val) -> Val { Val::Seq(vec![v.clone()]) }

fn kind12(v: &Val) -> Option<Val> {
    Some(match v {
        Val::Enum(1, f) => Val::Enum(1, vec![f[0].clone(), Val::none()]),
        Val::Enum(2, f) => Val::Enum(2, vec![one(&f[0])]),
        _ => return None,
    })
}
fn kind21(v: &Val, strict: bool) -> Option<Val> {
    match v {
        Val::Enum(1, f) if strict && f[1] != Val::none() => None,
        Val::Enum(1, f) => Some(Val::Enum(1, vec![u(&f[0], 0xFFFF)?])),
        Val::Enum(2, f) => Some(Val::Enum(2, vec![only(&f[0])?])),
        _ => None,
    }
}

const VERSIONS: &[(&str, &str, Map)] = &[
    ("Kind1", "Kind2", |v, _| kind12(v)),
    ("Kind2", "Kind1", |v, s| kind21(v, s)),
    ("Msg1", "Msg2", |v, _| {
        let f = st(v);
        Some(Val::Struct(vec![f[0].clone(), one(&f[1]), one(&f[2]), kind12(&f[3])?, one(&f[4]), f[5].clone(), Val::none(), Val::Map(vec![]), Val::Seq(vec![])]))
    }),
    ("Msg1", "Msg3", |v, strict| {
        // deleted fields
        if strict { return None; }
        let f = st(v);
        Some(Val::Struct(vec![u(&f[0], 255)?, one(&i(&f[2], -128, 127)?), one(&kind12(&f[3])?)]))
    }),
    ("Msg3", "Msg2", |v, _| {
        let f = st(v);
        // new fields that are not optional, unless there is exactly one kind
        let _ = f;
        None
    }),
    ("Msg2", "Msg3", |v, strict| {
        let f = st(v);
        let empty = |v: &Val| match v { Val::Seq(s) => s.is_empty(), Val::Map(m) => m.is_empty(), _ => false };
        let _ = empty;
        if strict { return None; } // the flag is always there
        let l = seq(&f[2]);
        if l.len() > 1 { return None; }
        let l = match l.first() { Some(x) => one(&i(x, -128, 127)?), None => Val::none() };
        Some(Val::Struct(vec![u(&f[0], 255)?, l, one(&f[3])]))
    }),
    ("Msg2", "Msg1", |v, strict| {
        let f = st(v);
        let empty = |v: &Val| match v { Val::Seq(s) => s.is_empty(), Val::Map(m) => m.is_empty(), _ => false };
        if strict && !(empty(&f[6]) && empty(&f[7]) && empty(&f[8])) { return None; }
        Some(Val::Struct(vec![u(&f[0], 0xFFFF_FFFF)?, only(&f[1])?, i(&only(&f[2])?, -32768, 32767)?, kind21(&f[3], strict)?, only(&f[4])?, u(&f[5], 1)?]))
    }),
    ("Chain", "Tree", |v, strict| {
        // field 1 widened, an optional field became repeated
        fn go(v: &Val) -> Val { let f = st(v); Val::Struct(vec![f[0].clone(), Val::Seq(seq(&f[1]).iter().map(|x| Val::Struct(vec![go(x)])).collect())]) }
        let _ = strict;
        Some(go(v))
    }),
    ("Widget", "Nil", |v, strict| { let _ = v; if strict { None } else { Some(Val::Struct(vec![])) } }),
    ("Nil", "Option<u32>", |_, _| Some(Val::none())),
    ("Nil", "Vec<String>", |_, _| Some(Val::none())),
    ("(u8, u16)", "(u8, u16, u8, u16, u8, u16, u8, u16, Option<u8>)", |_, _| None),
    ("(u8,)", "(u8, u16)", |_, _| None),
];

fn versions(src: &mut Src, cx: &mut Cx) -> Res {
    let &(w, r, f) = src.pick(VERSIONS);
    let (w, r) = (find(w), find(r));
    let mut v = canon(&w.copy, &gen::val(src, &w.copy));
    if src.coin() { small(&mut v); cx.label("small"); }
    if w.name == "Msg2" && src.coin() { single(src, &mut v); cx.label("within the older version"); }
    let strict = src.coin();
    let want = f(&v, strict);
    check(src, cx, w, r, &v, strict, want)
}

/// Integers reduced to seven bits.
fn small(v: &mut Val) {
    match v {
        Val::U(n) => *n &= 0x7F,
        Val::I(n) => *n = *n << 57 >> 57,
        Val::Seq(s) | Val::Struct(s) | Val::Enum(_, s) => for x in s { small(x); },
        Val::Map(m) => for x in m { small(&mut x.1); },
        _ => {}
    }
}
/// Makes a Msg2 mostly acceptable to the older version.
fn single(src: &mut Src, v: &mut Val) {
    if let Val::Struct(f) = v {
        if seq(&f[1]).is_empty() { f[1] = one(&Val::Bytes(b"n".to_vec())); }
        if let Val::Seq(ref mut s) = f[2] { s.truncate(1); if s.is_empty() { s.push(Val::I(-5)); } }
        if let Val::Seq(ref mut s) = f[4] { s.truncate(1); if s.is_empty() { s.push(Val::Bytes(vec![1])); } }
        if let Val::U(ref mut n) = f[5] { *n &= 1; }
        if let Val::Enum(3, _) = f[3] { f[3] = Val::Enum(2, vec![one(&Val::Bytes(b"k".to_vec()))]); }
        if src.coin() { f[6] = Val::none(); f[7] = Val::Map(vec![]); f[8] = Val::Seq(vec![]); }
    }
}

fn integers(src: &mut Src, cx: &mut Cx) -> Res {
    const US: [(&str, u32); 6] = [("u8", 8), ("u16", 16), ("u32", 32), ("u64", 64), ("usize", usize::BITS), ("bool", 1)];
    const IS: [(&str, u32); 5] = [("i8", 8), ("i16", 16), ("i32", 32), ("i64", 64), ("isize", isize::BITS)];
    let strict = src.coin();
    if src.coin() {
        let (w, r) = (*src.pick(&US), *src.pick(&US));
        let v = Val::U(match src.below(3) { 0 => src.uint(w.1), _ => {
            // around the reader's limit
            let m = if r.1 >= 64 { u64::MAX } else { (1 << r.1) - 1 };
            let n = m.wrapping_add(src.below(5)).wrapping_sub(2);
            if w.1 >= 64 { n } else { n & ((1 << w.1) - 1) }
        } });
        let want = if r.1 >= 64 || un(&v) >> r.1 == 0 { Some(v.clone()) } else { None };
        check(src, cx, find(w.0), find(r.0), &v, strict, want)
    } else {
        let (w, r) = (*src.pick(&IS), *src.pick(&IS));
        let half = |b: u32| 1i128 << (b - 1);
        let n: i128 = match src.below(3) {
            0 => unzz(src.uint(w.1)) as i128,
            1 => half(r.1) + src.below(5) as i128 - 2,
            _ => -half(r.1) + src.below(5) as i128 - 2,
        };
        let n = n.max(-half(w.1)).min(half(w.1) - 1);
        let v = Val::I(n as i64);
        let want = if n >= -half(r.1) && n < half(r.1) { Some(v.clone()) } else { None };
        check(src, cx, find(w.0), find(r.0), &v, strict, want)
    }
}

fn same(v: &Val, _: bool) -> Option<Val> { Some(v.clone()) }
fn utf8(v: &Val, _: bool) -> Option<Val> { match v { Val::Bytes(b) if std::str::from_utf8(b).is_ok() => Some(v.clone()), _ => None } }
fn len<const N: usize>(v: &Val, _: bool) -> Option<Val> {
    match v { Val::Bytes(b) => if b.len() == N { Some(v.clone()) } else { None }, Val::Seq(b) => if b.len() == N { Some(v.clone()) } else { None }, _ => None }
}
fn wrap(v: &Val, _: bool) -> Option<Val> { Some(Val::Struct(vec![v.clone()])) }
fn unwrap(v: &Val, _: bool) -> Option<Val> { Some(st(v)[0].clone()) }
fn pairs(v: &Val, _: bool) -> Option<Val> {
    if let Val::Map(m) = v { Some(Val::Seq(m.iter().map(|(k, v)| Val::Struct(vec![k.clone(), v.clone()])).collect())) } else { None }
}
fn unpairs(v: &Val, _: bool) -> Option<Val> {
    Some(Val::Map(seq(v).iter().map(|x| (st(x)[0].clone(), st(x)[1].clone())).collect()))
}

/// Types that share a representation.
const CLASSES: &[&[&str]] = &[
    &["Vec<u32>", "VecDeque<u32>", "LinkedList<u32>", "BTreeSet<u32>", "BinaryHeap<u32>", "Vec<u64>"],
    &["Vec<String>", "VecDeque<String>", "BTreeSet<String>", "HashSet<String, BH>", "BinaryHeap<String>", "Vec<Cow<'a, str>>"],
    &["Vec<Vec<u8>>", "LinkedList<Vec<u8>>", "HashSet<Vec<u8>, BH>", "Vec<Cow<'a, [u8]>>", "Vec<&'a [u8]>"],
    &["VecDeque<u8>", "Vec<Box<u8>>", "BTreeSet<u8>", "HashSet<u8, BH>", "BinaryHeap<u8>", "Vec<u16>", "Vec<u32>"],
    &["Vec<(u32, String)>", "Vec<(u32, String)>"],
    &["BTreeMap<u32, String>", "HashMap<u32, String, BH>"],
    &["VecDeque<(u8, i16)>", "BTreeSet<(u8, i16)>"],
    &["String", "Cow<'a, str>", "&'a str", "Copied<Cow<'static, str>>", "Rc<String>", "Vec<u8>", "Cow<'a, [u8]>", "&'a [u8]", "Copied<Vec<u8>>", "Box<Vec<u8>>", "Box<&'a [u8]>"],
    &["Vec<u8>", "Cow<'a, [u8]>", "Copied<Vec<u8>>", "Box<Vec<u8>>", "&'a [u8]", "Box<&'a [u8]>"],
    &["u32", "Box<u32>", "Copied<u32>", "u64"],
    &["Widget", "(String, Option<String>, u64)"],
    &["Result<u32, String>", "Either<u32, String>"],
    &["[u8; 4]", "Vec<u8>"],
    &["[u8; 256]", "Vec<u8>", "Cow<'a, [u8]>"],
    &["[u32; 3]", "Vec<u32>", "VecDeque<u32>", "Vec<u64>"],
    &["[String; 2]", "Vec<String>", "VecDeque<String>"],
    &["[i64; 32]", "Vec<i64>"],
    &["[u16; 128]", "Vec<u16>", "Vec<u32>", "BTreeSet<u32>"],
    &["[u16; 0]", "Vec<u16>", "Vec<String>", "Option<u32>"],
    &["Option<u32>", "Vec<u32>", "VecDeque<u32>"],
    &["(Wrapper, WrapList, WrapEnum)", "(Wrapper, WrapList, WrapEnum)"],
];
const SHAPES: &[(&str, &str, Map)] = &[
    ("BTreeMap<u32, String>", "Vec<(u32, String)>", pairs),
    ("Vec<(u32, String)>", "BTreeMap<u32, String>", unpairs),
    ("Vec<(u32, String)>", "HashMap<u32, String, BH>", unpairs),
    ("Vec<u8>", "String", utf8),
    ("Vec<u8>", "&'a str", utf8),
    ("Vec<u8>", "Cow<'a, str>", utf8),
    ("Vec<u8>", "[u8; 1]", len::<1>),
    ("Vec<u8>", "[u8; 4]", len::<4>),
    ("Vec<u8>", "[u8; 7]", len::<7>),
    ("Vec<u32>", "[u32; 3]", len::<3>),
    ("Vec<String>", "[String; 2]", len::<2>),
    ("Vec<u32>", "Option<u32>", |v, _| if seq(v).len() <= 1 { Some(v.clone()) } else { None }),
    ("Vec<u64>", "Vec<u32>", |v, _| if seq(v).iter().all(|x| un(x) <= 0xFFFF_FFFF) { Some(v.clone()) } else { None }),
    ("Vec<u16>", "BTreeSet<u8>", |v, _| if seq(v).iter().all(|x| un(x) <= 255) { Some(v.clone()) } else { None }),
    ("Duration", "(u64, u32)", same),
    ("(u64, u32)", "Duration", |v, _| if un(&st(v)[1]) < 1_000_000_000 { Some(v.clone()) } else { None }),
    ("(u8, u16)", "Span", |v, _| if un(&st(v)[0]) <= un(&st(v)[1]) { Some(v.clone()) } else { None }),
    ("Ipv4Addr", "[u8; 4]", unwrap),
    ("[u8; 4]", "Ipv4Addr", wrap),
    ("Ipv6Addr", "[u8; 16]", unwrap),
    ("[u8; 16]", "Ipv6Addr", wrap),
    ("SocketAddrV4", "([u8; 4], u16)", |v, _| { let f = st(v); Some(Val::Struct(vec![st(&f[0])[0].clone(), f[1].clone()])) }),
    ("([u8; 4], u16)", "SocketAddrV4", |v, _| { let f = st(v); Some(Val::Struct(vec![Val::Struct(vec![f[0].clone()]), f[1].clone()])) }),
    ("Either<u32, String>", "Result<u32, String>", |v, _| match v { Val::Enum(3, _) => None, v => Some(v.clone()) }),
    ("UnkOnly", "UnknownFields<'a>", unwrap),
    ("UnknownFields<'a>", "UnkOnly", wrap),
    ("Wrapper", "Vec<u8>", unwrap),
    ("Vec<u8>", "Wrapper", wrap),
    ("WrapList", "Vec<u32>", unwrap),
    ("Vec<u32>", "WrapList", wrap),
    ("Order", "WrapEnum", wrap),
    ("WrapEnum", "Order", unwrap),
    ("Widget", "WrapStruct", wrap),
    ("WrapStruct", "Widget", unwrap),
    ("Either<u8, String>", "Either<u32, String>", same),
    ("u8", "char", |v, _| Some(v.clone())),
    ("char", "u32", same),
    ("u32", "char", |v, _| if char::from_u32(un(v) as u32).is_some() { Some(v.clone()) } else { None }),
    ("PhantomData<String>", "u8", |_, _| Some(Val::U(0))),
    ("u8", "PhantomData<String>", |v, _| if un(v) == 0 { Some(Val::Unit) } else { None }),
    ("bool", "PhantomData<String>", |v, _| if un(v) == 0 { Some(Val::Unit) } else { None }),
];

fn shapes(src: &mut Src, cx: &mut Cx) -> Res {
    let strict = src.coin();
    if src.coin() {
        let c = *src.pick(CLASSES);
        let (w, r) = (find(c[0]), find(*src.pick(&c[1..])));
        // any member that stands for the same values may be the writer
        let v = canon(&w.copy, &gen::val(src, &w.copy));
        return check(src, cx, w, r, &v, strict, Some(v.clone()));
    }
    let &(w, r, f) = src.pick(SHAPES);
    let (w, r) = (find(w), find(r));
    let mut v = canon(&w.copy, &gen::val(src, &w.copy));
    if src.coin() { small(&mut v); }
    let want = f(&v, strict);
    check(src, cx, w, r, &v, strict, want)
}

/// Any two types: whatever the format rules assign.
fn any(src: &mut Src, cx: &mut Cx) -> Res {
    let (w, r) = (pick_entry(src), pick_entry(src));
    let (v, _) = doc(src, w);
    let strict = src.chance(1, 4);
    let (b, _) = (w.to_vec)(&v).map_err(|x| format!("{}: {}", w.name, x))?;
    let x = decode(&r.copy, &b, RCfg::unlimited(strict), false);
    check(src, cx, w, r, &v, strict, x.result.ok().map(|v| v.strip()))
}
