//! Unknown fields.
//! technique: metamorphic property-based testing (insertion of unknown subtrees) plus a reference decoder for catch-alls
use super::*;

pub fn prop() -> Prop {
    Prop {
        id: "C07",
        rule: "a case counts as non-trivial when at least one unknown field was inserted; distinct by type, configuration and document",
        facets: vec![
            facet("declared", declared, 1_200_000, 50_000_000),
            facet("catchall", catchall, 200_000, 20_000_000),
            big!("big-declared", declared, 300, 6_000),
            big!("big-catchall", catchall, 150, 6_000),
        ],
    }
}

/// Inserts unknown fields into bodies selected by `want`; returns how many.
fn insert(src: &mut Src, d: &mut Body, deep: bool, want: &dyn Fn(Known) -> Option<u64>) -> usize {
    let mut targets = vec![];
    let mut i = 0;
    d.visit_bodies(&mut |b| { if let Some(m) = want(b.known) { targets.push((i, m)); } i += 1; });
    if targets.is_empty() { return 0; }
    let n = match src.below(4) { 0 | 1 => 1, 2 => 2, _ => src.range(1, 5) };
    // from the last body to the first, so that indices stay valid
    let mut picks: Vec<(usize, u64)> = (0..n).map(|_| *src.pick(&targets)).collect();
    picks.sort();
    picks.reverse();
    for (k, m) in picks {
        let it = gen::unknown_item(src, m, deep);
        d.with_body(k, &mut |b| { let at = src.below(b.items.len() as u64 + 1) as usize; b.items.insert(at, it.clone()); });
    }
    n
}

fn declared(src: &mut Src, cx: &mut Cx) -> Res {
    let e = pick_entry(src);
    let (_, d) = doc(src, e);
    let way = pick_way(src, e);
    let s = way_schema(e, way);
    let plan = gen::plan(src);
    let a = to_bytes(&d);
    let mut d2 = d.clone();
    let n = insert(src, &mut d2, true, &|k| match k { Known::Tags(m) => Some(m), _ => None });
    if n == 0 { cx.label("nothing to insert into"); return Ok(()); }
    let b = if src.coin() { to_bytes(&d2) } else {
        let mut out = vec![];
        let mut r = Random { src, den: 8, wide: false, applied: 0 };
        write_body(&d2, &mut r, &mut out);
        out
    };
    let plain = to_bytes(&d2);
    // The inserted tag is undeclared where it was inserted, so the documents
    // first differ at the descriptor of the first insertion.
    let at = plain.iter().zip(&a).position(|(x, y)| x != y).unwrap_or(a.len());
    let tag = plain[at] & 0x3F;
    let strict = src.chance(1, 3);
    cx.label(if strict { "strict" } else { "lenient" });
    cx.label(if n > 1 { "several" } else { "one" });
    cx.nontrivial(e.name.as_bytes());
    cx.nontrivial(if strict { &plain } else { &b });
    cx.nontrivial(&[way as u8, strict as u8]);
    cx.desc(|| format!("{} via {:?} strict={}: [{}] with unknown fields [{}]", e.name, way, strict, hex(&a), hex(&b)));
    if strict {
        let x = match run_way(e, way, &plain, &config(true), &plan) {
            Ok((v, _)) => return Err(format!("{} via {:?}: unknown field {} at {} of [{}] accepted as {}", e.name, way, tag, at, hex(&plain), short(&v))),
            Err(x) => x,
        };
        ensure!(kind(&x).0 == EK::K(K::UnknownField(tag, at as u64)), "{} via {:?}: first unknown field of [{}] has tag {} at {}, error is: {}", e.name, way, hex(&plain), tag, at, x);
    } else {
        // Limits are just enough for the value itself: what is skipped must
        // not be charged.
        let free = decode(s, &a, RCfg::unlimited(false), false);
        let mut c = config(false);
        if src.coin() {
            c.max_collect = free.collected as usize;
            c.max_blob = free.blob as usize;
            c.recursion_limit = free.max_depth as usize;
            cx.label("exact limits");
        }
        let (x, _) = run_way(e, way, &a, &c, &[]).map_err(|x| format!("{} via {:?}: [{}]: {}", e.name, way, hex(&a), x))?;
        let (y, p) = run_way(e, way, &b, &c, &plan).map_err(|x| format!("{} via {:?}: [{}] with unknown fields [{}]: {}", e.name, way, hex(&a), hex(&b), x))?;
        let (x, y) = (canon(s, &x.strip()), canon(s, &y.strip()));
        ensure!(x == y, "{} via {:?}: [{}] is {}, with unknown fields [{}] it is {}", e.name, way, hex(&a), short(&x), hex(&b), short(&y));
        if let Some(p) = p { ensure!(p == b.len() as u64, "{} via {:?}: [{}] consumed {} bytes", e.name, way, hex(&b), p); }
    }
    Ok(())
}

pub const CATCHING: [&str; 19] = ["UnkPres", "UnkOnly", "UnkDeep", "UnkEnum", "KindU", "MsgU", "UnknownFields<'a>", "UnknownField<'a>", "ZUnk<'a>",
    "Option<ZUnk<'a>>", "Vec<UnknownField<'a>>", "Vec<UnkEnum>", "(UnkPres, UnkEnum)", "Copied<UnknownFields<'static>>",
    "Copied<UnknownField<'static>>", "Vec<Copied<UnknownFields<'static>>>", "Vec<Copied<UnknownField<'static>>>",
    "(u8, [Copied<UnknownFields<'static>>; 1])", "(Copied<UnknownField<'static>>, Option<Copied<UnknownField<'static>>>)"];

fn catchall(src: &mut Src, cx: &mut Cx) -> Res {
    let e = find(*src.pick(&CATCHING));
    let (_, d) = doc(src, e);
    let way = pick_way(src, e);
    let s = way_schema(e, way);
    let plan = gen::plan(src);
    let mut d2 = d.clone();
    let n = insert(src, &mut d2, false, &|k| match k { Known::All(m) => Some(m), _ => None });
    if n == 0 { cx.label("nothing to insert into"); return Ok(()); }
    let b = to_bytes(&d2);
    let want = match decode(s, &b, RCfg::unlimited(true), false).result {
        Ok(v) => v,
        Err(x) => return Err(format!("reference: {} [{}]: {:?}", e.name, hex(&b), x)),
    };
    cx.nontrivial(e.name.as_bytes());
    cx.nontrivial(&b);
    cx.nontrivial(&[way as u8]);
    cx.desc(|| format!("{} via {:?}: [{}]", e.name, way, hex(&b)));
    for &strict in &[true, false] {
        let (v, p) = run_way(e, way, &b, &config(strict), &plan)
            .map_err(|x| format!("{} via {:?} strict={}: [{}] rejected: {}", e.name, way, strict, hex(&b), x))?;
        let (v, w) = (canon(s, &v.strip()), canon(s, &want.strip()));
        ensure!(v == w, "{} via {:?} strict={}: [{}] is {} instead of {}", e.name, way, strict, hex(&b), short(&v), short(&w));
        if let Some(p) = p { ensure!(p == b.len() as u64, "{}: consumed {} of {}", e.name, p, b.len()); }
    }
    cx.evals(1);
    Ok(())
}
