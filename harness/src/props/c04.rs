//! The decoder accepts exactly the well-formed documents.
//! technique: mutation fuzzing with differential testing against an independent reference decoder
use super::*;

pub fn prop() -> Prop {
    Prop {
        id: "C04",
        rule: "a case counts as non-trivial when the document has at least two bytes; distinct by type, configuration and bytes",
        facets: vec![
            facet("mutants", mutants, 1_500_000, 60_000_000),
            facet("bytes", bytes, 800_000, 30_000_000),
            facet("soup", soup, 600_000, 20_000_000),
            facet("wide", super::wide::arrays, 200, 40_000),
            facet("arrays", |s, c| arrays::case(s, c, arrays::What::Accept), 300, 10_000),
            big!("big-mutants", mutants, 300, 6_000),
            big!("big-bytes", bytes, 600, 6_000),
        ],
    }
}

/// Compares the outcome with the reference decoder.
pub fn check(e: &Entry, doc: &[u8], strict: bool, way: Way, plan: &[u8], cx: &mut Cx) -> Res {
    let c = config(strict);
    let s = way_schema(e, way);
    let r = decode(s, doc, rcfg(&c), false);
    if r.unspecified { cx.label("unspecified"); return Ok(()); }
    if doc.len() >= 2 {
        cx.nontrivial(e.name.as_bytes());
        cx.nontrivial(doc);
        cx.nontrivial(&[strict as u8, way as u8]);
        cx.desc(|| format!("{} strict={} via {:?}: [{}] -> {}", e.name, strict, way, hex(doc), match r.result { Ok(ref v) => short(v), Err(ref x) => format!("{:?}", x) }));
    }
    let got = run_way(e, way, doc, &c, plan);
    match (&r.result, got) {
        (Ok(want), Ok((got, pos))) => {
            cx.label("accepted");
            let (w, g) = (canon(s, &want.strip()), canon(s, &got.strip()));
            ensure!(w == g, "{} strict={} via {:?}: [{}] decodes to {}, the format assigns {}", e.name, strict, way, hex(doc), short(&g), short(&w));
            if let Some(p) = pos {
                ensure!(p == r.pos, "{} via {:?}: [{}] consumed {} bytes, the value has {}", e.name, way, hex(doc), p, r.pos);
            }
            Ok(())
        }
        (Err(_), Err(_)) => { cx.label("rejected"); Ok(()) }
        (Ok(want), Err(x)) => Err(format!("{} strict={} via {:?}: [{}] rejected ({}), the format assigns {}", e.name, strict, way, hex(doc), x, short(want))),
        (Err(x), Ok((got, _))) => Err(format!("{} strict={} via {:?}: [{}] accepted as {}, should be rejected: {:?}", e.name, strict, way, hex(doc), short(&got), x)),
    }
}

fn mutants(src: &mut Src, cx: &mut Cx) -> Res {
    let e = pick_entry(src);
    let (_, mut d) = doc(src, e);
    let n = match src.below(8) { 0 => 0, 1..=5 => 1, 6 => 2, _ => 4 };
    for _ in 0..n { let w = gen::mutate(src, &mut d); cx.label(w); }
    let strict = src.coin();
    let way = pick_way(src, e);
    let plan = gen::plan(src);
    let mut b = to_bytes(&d);
    if src.coin() { b.extend(src.bytes(8)); }
    check(e, &b, strict, way, &plan, cx)
}

fn bytes(src: &mut Src, cx: &mut Cx) -> Res {
    let e = pick_entry(src);
    let (_, d) = doc(src, e);
    let mut b = to_bytes(&d);
    for _ in 0..src.range(1, 3) { gen::mutate_bytes(src, &mut b); }
    let strict = src.coin();
    let way = pick_way(src, e);
    let plan = gen::plan(src);
    check(e, &b, strict, way, &plan, cx)
}

fn soup(src: &mut Src, cx: &mut Cx) -> Res {
    let e = pick_entry(src);
    let mut b = gen::soup(src, 24);
    for _ in 0..src.below(4) { b.push(0); }
    let strict = src.coin();
    let way = pick_way(src, e);
    let plan = gen::plan(src);
    check(e, &b, strict, way, &plan, cx)
}
