//! Errors name the right problem at the right place.
//! technique: mutation fuzzing and boundary-value generation comparing error kind, location and text with an independent reference decoder which lists every defect of the document
use super::*;

pub fn prop() -> Prop {
    Prop {
        id: "C21",
        rule: "a case counts as non-trivial when the document is rejected; distinct by type, way of decoding, configuration, position and bytes",
        facets: vec![
            facet("mutants", mutants, 1_500_000, 60_000_000),
            facet("noisy", noisy, 600_000, 25_000_000),
            facet("limits", limits, 600_000, 25_000_000),
            facet("cut", cut, 500_000, 20_000_000),
            facet("placed", placed, 500_000, 20_000_000),
            big!("big-mutants", mutants, 300, 6_000),
            big!("big-noisy", noisy, 300, 6_000),
            big!("big-placed", placed, 300, 6_000),
        ],
    }
}

fn kname(k: &K) -> &'static str {
    match *k {
        K::Stream(ref s) => match *s {
            SK::Eof => "Eof", SK::IntOverflow => "IntOverflow", SK::Overwide => "Overwide", SK::Exception(_) => "Exception",
            SK::Truncated(_) => "Truncated", SK::Overlong => "Overlong", SK::UnexpectedType(..) => "UnexpectedType", SK::IntOutOfRange => "IntOutOfRange",
        },
        K::Recursion => "Recursion", K::UnknownField(..) => "UnknownField", K::UnknownVariant(_) => "UnknownVariant", K::TooFew(_) => "TooFew",
        K::TooMany(_) => "TooMany", K::Missing => "Missing", K::InvalidValue => "InvalidValue", K::InvalidMsg => "InvalidMsg",
        K::MaxCollect => "MaxCollect", K::MaxBlob => "MaxBlob",
    }
}

/// What the text of the error must mention besides the location.
fn mentions(k: &K) -> Vec<String> {
    match *k {
        K::Stream(SK::Exception(ref s)) => vec![s.clone()],
        K::Stream(SK::Truncated(n)) => vec![n.to_string()],
        K::Stream(SK::UnexpectedType(a, b)) => vec![a.to_string(), b.to_string()],
        K::UnknownField(t, _) => vec![t.to_string()],
        K::UnknownVariant(n) | K::TooFew(n) | K::TooMany(n) => vec![n.to_string()],
        _ => vec![],
    }
}

/// Whether the error is one the reference gives; `at` is the stream position
/// of the first byte.
fn judge(about: &dyn Fn() -> String, s: &Schema, b: &[u8], c: &Config, at: u64, got: de::Result<Val>, cx: &mut Cx) -> Res {
    let (want, all, unspecified) = match errors(s, b, rcfg(c), at) { Some(x) => x, None => { cx.label("accepted"); return Ok(()); } };
    if unspecified { cx.label("unspecified"); return Ok(()); }
    ensure!(all.contains(&want), "HARNESS: {}: {:?} not among {:?}", about(), want, all);
    cx.label(kname(&want.kind));
    let x = match got {
        Ok(v) => return Err(format!("{} accepted as {}, expected {:?}", about(), short(&v), want)),
        Err(x) => x,
    };
    let got = kind(&x);
    // a truncated blob may also be reported as the end of the input
    let eof = got.0 == EK::K(K::Stream(SK::Eof));
    let is = |w: &RErr| got.1 == w.path && (got.0 == EK::K(w.kind.clone()) || eof && matches!(w.kind, K::Stream(SK::Truncated(_))));
    let w = if all.len() > 1 {
        // which one is found first is not promised
        cx.label("several defects");
        match all.iter().find(|w| is(w)) {
            Some(w) => w,
            None => return Err(format!("{} gives {:?}, which is none of its defects {:?}", about(), got, all)),
        }
    } else {
        cx.label("one defect");
        ensure!(is(&want), "{} gives {:?}, expected {:?} at {}", about(), got, want.kind, want.path);
        &want
    };
    let text = x.to_string();
    ensure!(text.contains(&w.path), "{}: the text {:?} does not have the location {}", about(), text, w.path);
    if eof { return Ok(()); }
    for m in mentions(&w.kind) { ensure!(text.contains(&m), "{}: the text {:?} does not mention {}", about(), text, m); }
    Ok(())
}

fn compare(e: &Entry, b: &[u8], c: &Config, way: Way, plan: &[u8], cx: &mut Cx) -> Res {
    let s = way_schema(e, way);
    let about = || format!("{} via {:?} (strict {}, limits {}/{}/{}): [{}]", e.name, way, !c.ignore_unknown_fields, c.max_collect, c.max_blob, c.recursion_limit, hex(b));
    let got = run_way(e, way, b, c, plan).map(|x| x.0);
    if let Err(ref x) = got {
        cx.nontrivial(e.name.as_bytes());
        cx.nontrivial(b);
        cx.nontrivial(&[way as u8, c.max_collect as u8, c.max_blob as u8, c.recursion_limit as u8]);
        cx.desc(|| format!("{} -> {}", about(), x));
    }
    judge(&about, s, b, c, 0, got, cx)
}

fn mutants(src: &mut Src, cx: &mut Cx) -> Res {
    let e = pick_entry(src);
    let (_, mut d) = doc(src, e);
    let w = gen::mutate(src, &mut d);
    cx.label(w);
    let c = config(src.coin());
    let way = pick_way(src, e);
    let plan = gen::plan(src);
    let b = to_bytes(&d);
    compare(e, &b, &c, way, &plan, cx)
}

/// Denormalised and padded documents, several mutations, and damaged bytes.
fn noisy(src: &mut Src, cx: &mut Cx) -> Res {
    let e = pick_entry(src);
    let (_, mut d) = doc(src, e);
    for _ in 0..src.below(3) { gen::mutate(src, &mut d); }
    let mut b = vec![];
    { let mut n = Random { src, den: 4, wide: true, applied: 0 }; write_body(&d, &mut n, &mut b); }
    for _ in 0..src.below(3) { gen::mutate_bytes(src, &mut b); }
    let c = config(src.coin());
    let way = pick_way(src, e);
    let plan = gen::plan(src);
    compare(e, &b, &c, way, &plan, cx)
}

fn limits(src: &mut Src, cx: &mut Cx) -> Res {
    let e = pick_entry(src);
    let way = pick_way(src, e);
    let (_, mut d) = doc(src, e);
    if src.chance(1, 5) { gen::mutate(src, &mut d); }
    let b = to_bytes(&d);
    let mut c = config(src.coin());
    let free = decode(way_schema(e, way), &b, rcfg(&c), false);
    let mut below = |src: &mut Src, n: u64| src.below(n.max(1)) as usize;
    match src.below(4) {
        0 => c.max_collect = below(src, free.collected),
        1 => c.max_blob = below(src, free.blob),
        2 => c.recursion_limit = below(src, free.max_depth),
        _ => {
            c.max_collect = below(src, free.collected * 2);
            c.max_blob = below(src, free.blob * 2);
            c.recursion_limit = below(src, free.max_depth * 2);
        }
    }
    let plan = gen::plan(src);
    compare(e, &b, &c, way, &plan, cx)
}

fn cut(src: &mut Src, cx: &mut Cx) -> Res {
    let e = pick_entry(src);
    let (_, mut d) = doc(src, e);
    if src.chance(1, 5) { gen::mutate(src, &mut d); }
    let mut b = vec![];
    if src.coin() { let mut n = Random { src, den: 4, wide: true, applied: 0 }; write_body(&d, &mut n, &mut b); } else { b = to_bytes(&d); }
    let n = src.below(b.len() as u64) as usize;
    b.truncate(n);
    let c = config(src.coin());
    let way = pick_way(src, e);
    let plan = gen::plan(src);
    compare(e, &b, &c, way, &plan, cx)
}

/// A document which does not start at position zero: locations are stream
/// positions.
fn placed(src: &mut Src, cx: &mut Cx) -> Res {
    let e = pick_copy(src);
    let (_, mut d) = doc(src, e);
    gen::mutate(src, &mut d);
    let b = to_bytes(&d);
    let c = config(src.coin());
    // what goes before: other values, and a starting position
    let start = match src.below(3) { 0 => 0, 1 => src.below(1000), _ => src.uint(60) };
    let mut all = vec![];
    let mut before = vec![];
    for _ in 0..src.below(3) {
        let f = pick_copy(src);
        let (_, d) = doc(src, f);
        all.extend(to_bytes(&d));
        before.push(f);
    }
    let at = start + all.len() as u64;
    all.extend_from_slice(&b);
    let dev = Dev::new(Mem::new(all).with_plan(gen::plan(src)));
    let mut s = if src.coin() { Stream::new_seek(dev.clone()) } else { Stream::new(dev.clone()) };
    s.set_pos(start);
    for f in &before {
        (f.de_stream.unwrap())(&mut s, DeOp::Body, &config(false)).map_err(|x| format!("{} before: {}", f.name, x))?;
    }
    ensure!(s.pos() == at, "the stream is at {} instead of {}", s.pos(), at);
    let got = (e.de_stream.unwrap())(&mut s, if src.coin() { DeOp::Body } else { DeOp::BodyBox }, &c);
    let about = || format!("{} (strict {}) at stream position {}: [{}]", e.name, !c.ignore_unknown_fields, at, hex(&b));
    if let Err(ref x) = got {
        cx.nontrivial(e.name.as_bytes());
        cx.nontrivial(&b);
        cx.nontrivial(&at.to_le_bytes());
        cx.desc(|| format!("{} -> {}", about(), x));
    }
    judge(&about, &e.copy, &b, &c, at, got, cx)
}
