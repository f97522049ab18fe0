//! Round trip.
//! technique: property-based round-trip testing over a type registry
use super::*;

pub fn prop() -> Prop {
    Prop {
        id: "C01",
        rule: "a case counts as non-trivial when the serialised form is longer than two bytes; distinct by type, way, configuration and bytes",
        facets: vec![
            facet("top", top, 900_000, 40_000_000),
            facet("ctx", ctx, 600_000, 20_000_000),
            facet("arrays", |s, c| arrays::case(s, c, arrays::What::RoundTrip), 300, 10_000),
            big!("big-top", top, 700, 6_000),
            big!("big-ctx", ctx, 600, 6_000),
        ],
    }
}

fn top(src: &mut Src, cx: &mut Cx) -> Res {
    let e = pick_entry(src);
    let v = gen::val(src, &e.copy);
    let strict = src.coin();
    let way = pick_way(src, e);
    let plan = gen::plan(src);
    let (bytes, orig) = (e.to_vec)(&v).map_err(|x| format!("{}: serialising failed: {}", e.name, x))?;
    // some trailing data, which must stay unread
    let mut all = bytes.clone();
    let tail = src.bytes(6);
    all.extend_from_slice(&tail);
    let c = config(strict);
    cx.label(match way { Way::Borrow | Way::BorrowStream => "zero-copy", _ => "copying" });
    cx.label(if strict { "strict" } else { "lenient" });
    if bytes.len() > 2 {
        cx.nontrivial(e.name.as_bytes());
        cx.nontrivial(&bytes);
        cx.nontrivial(&[way as u8, strict as u8]);
        cx.desc(|| format!("{} via {:?}: {}", e.name, way, hex(&bytes)));
    }
    let want = canon(&e.copy, &orig.strip());
    match run_way(e, way, &all, &c, &plan) {
        Err(x) => Err(format!("{}: {} does not deserialise via {:?} (strict {}): {} [{}]", e.name, short(&orig), way, strict, x, hex(&bytes))),
        Ok((got, pos)) => {
            let g = canon(&e.copy, &got.strip());
            ensure!(g == want, "{}: {} came back as {} via {:?} [{}]", e.name, short(&want), short(&g), way, hex(&bytes));
            if let Some(p) = pos {
                ensure!(p == bytes.len() as u64, "{}: consumed {} of {} bytes via {:?} [{}]", e.name, p, bytes.len(), way, hex(&bytes));
            }
            Ok(())
        }
    }
}

/// As a field and as a collection element.
fn ctx(src: &mut Src, cx: &mut Cx) -> Res {
    let e = pick_copy(src);
    let v = gen::val(src, &e.copy);
    let strict = src.coin();
    let tag = 1 + src.below(63) as u8;
    let field = !e.no_field && src.coin();
    let plan = gen::plan(src);
    let out = Dev::of(&[]);
    let mut s = Stream::new(out.clone());
    let op = if field { SerOp::Field(tag) } else { *src.pick(&[SerOp::Elem(tag), SerOp::ElemBox(tag), SerOp::ElemRefMut(tag)]) };
    let orig = (e.ser)(&v, op, &mut s).map_err(|x| format!("{}: serialising failed: {}", e.name, x))?;
    s.write_end_struct().map_err(|x| x.to_string())?;
    s.commit().map_err(|x| x.to_string())?;
    let bytes = out.data();
    ensure!(s.pos() == bytes.len() as u64, "stream position");
    let d = Dev::new(Mem::new(bytes.clone()).with_plan(plan));
    let mut r = if src.coin() { Stream::new_seek(d.clone()) } else { Stream::new(d.clone()) };
    let c = config(strict);
    cx.label(if field { "field" } else { "element" });
    if bytes.len() > 2 {
        cx.nontrivial(e.name.as_bytes());
        cx.nontrivial(&bytes);
        cx.nontrivial(&[field as u8, strict as u8]);
        cx.desc(|| format!("{} as {:?}: {}", e.name, op, hex(&bytes)));
    }
    let dop = if field { DeOp::Field(tag) } else { DeOp::Elem };
    let want = canon(&e.copy, &orig.strip());
    let got = (e.de_stream.unwrap())(&mut r, dop, &c)
        .map_err(|x| format!("{} as {:?}: {} does not deserialise (strict {}): {} [{}]", e.name, op, short(&want), strict, x, hex(&bytes)))?;
    let g = canon(&e.copy, &got.strip());
    ensure!(g == want, "{} as {:?}: {} came back as {} [{}]", e.name, op, short(&want), short(&g), hex(&bytes));
    let expect = if field { bytes.len() } else { bytes.len() - 1 };
    r.commit().map_err(|x| x.to_string())?;
    ensure!(r.pos() == expect as u64 && d.pos() == expect as u64, "{} as {:?}: consumed {} (device {}) of {} [{}]", e.name, op, r.pos(), d.pos(), expect, hex(&bytes));
    Ok(())
}
