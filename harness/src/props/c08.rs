//! Read-modify-write.
//! technique: property-based testing over generated newer-schema documents and edits, with a reference decoder
use super::*;
use super::c07::CATCHING;

pub fn prop() -> Prop {
    Prop {
        id: "C08",
        rule: "a case counts as non-trivial when the document carries at least one unknown field or variant; distinct by type and document",
        facets: vec![
            facet("edit", edit, 150_000, 30_000_000),
            facet("keepall", keepall, 500_000, 20_000_000),
            facet("newer", newer, 400_000, 15_000_000),
            big!("big-edit", edit, 150, 6_000),
            big!("big-keepall", keepall, 300, 6_000),
            big!("big-newer", newer, 300, 6_000),
        ],
    }
}

/// Regenerates declared data, keeping what is unknown.
fn change(src: &mut Src, s: &Schema, v: &Val, kept: &mut u64) -> Val {
    match (s, v) {
        (Schema::Lazy(f), v) => change(src, &f(), v, kept),
        (_, Val::Unk(_)) | (_, Val::UF(_)) => { *kept += 1; v.clone() }
        (Schema::Struct(d), Val::Struct(vs)) => Val::Struct(body(src, &d.body, vs, kept)),
        (Schema::Enum(d), Val::Enum(n, vs)) => match d.variants.iter().find(|x| x.0 == *n) {
            Some((_, b)) => Val::Enum(*n, body(src, b, vs, kept)),
            None => { *kept += 1; v.clone() }
        },
        (Schema::List(e), Val::Seq(vs)) | (Schema::Opt(e), Val::Seq(vs)) | (Schema::Arr(_, e, _), Val::Seq(vs)) =>
            Val::Seq(vs.iter().map(|x| change(src, e, x, kept)).collect()),
        (s, v) => if src.coin() { gen::val(src, s) } else { v.clone() },
    }
}
fn body(src: &mut Src, d: &BodyDef, vs: &[Val], kept: &mut u64) -> Vec<Val> {
    if let Some((_, ref s)) = d.delegate { return vec![change(src, s, &vs[0], kept)]; }
    vs.iter().enumerate().map(|(i, v)| match d.fields.get(i) {
        Some(f) => change(src, &f.schema, v, kept),
        None => { if let Val::Unk(u) = v { *kept += u.len() as u64; } v.clone() }
    }).collect()
}

fn edit(src: &mut Src, cx: &mut Cx) -> Res {
    let e = find(*src.pick(&CATCHING));
    let (_, mut d) = doc(src, e);
    // a newer schema also has more fields here and there
    for _ in 0..src.below(4) {
        let k = src.below(d.count_bodies() as u64) as usize;
        d.with_body(k, &mut |b| if let Known::All(m) = b.known {
            let it = gen::unknown_item(src, m, false);
            let at = src.below(b.items.len() as u64 + 1) as usize;
            b.items.insert(at, it);
        });
    }
    let way = pick_way(src, e);
    let mut b = vec![];
    if src.coin() { write_body(&d, &mut Random { src, den: 6, wide: true, applied: 0 }, &mut b); } else { b = to_bytes(&d); }
    let s = way_schema(e, way);
    let before = match decode(s, &b, RCfg::unlimited(true), false).result {
        Ok(v) => v.strip(),
        Err(x) => return Err(format!("reference: {} [{}]: {:?}", e.name, hex(&b), x)),
    };
    let (v, _) = run_way(e, way, &b, &config(src.coin()), &gen::plan(src))
        .map_err(|x| format!("{} via {:?}: [{}]: {}", e.name, way, hex(&b), x))?;
    // the same edit of what was read and of what should have been read
    let seed = src.u64();
    let mut kept = 0;
    let ed = |v: &Val, k: &mut u64| change(&mut Src::random(seed), s, v, k);
    let got = ed(&v.strip(), &mut kept);
    let want = canon(s, &ed(&before, &mut 0));
    if kept > 0 {
        cx.nontrivial(e.name.as_bytes());
        cx.nontrivial(&b);
        cx.desc(|| format!("{} via {:?}: [{}] edited to {}", e.name, way, hex(&b), short(&want)));
    }
    cx.label(if got == v.strip() { "unedited" } else { "edited" });
    let (out, _) = (e.to_vec)(&got).map_err(|x| format!("{}: writing back failed: {}", e.name, x))?;
    let after = match decode(&e.copy, &out, RCfg::unlimited(true), false).result {
        Ok(v) => v.strip(),
        Err(x) => return Err(format!("{} via {:?}: [{}] written back as [{}], which is invalid: {:?}", e.name, way, hex(&b), hex(&out), x)),
    };
    let after = canon(s, &after);
    ensure!(after == want, "{} via {:?}: [{}] written back as [{}]: holds {} instead of {}", e.name, way, hex(&b), hex(&out), short(&after), short(&want));
    Ok(())
}

/// Containers of nothing but unknown fields write back exactly the elements
/// they were given.
fn keepall(src: &mut Src, cx: &mut Cx) -> Res {
    let e = find(*src.pick(&["UnkOnly", "UnknownFields<'a>", "Copied<UnknownFields<'static>>", "Vec<UnknownField<'a>>", "Vec<Copied<UnknownField<'static>>>"]));
    let d = if src.coin() && e.name.starts_with('V') {
        let mut b = Body::new(Known::Tags(2));
        for _ in 0..src.len(12) { b.items.push(Item::Field(1, gen::any_node(src))); }
        b
    } else if e.name.starts_with('V') {
        let mut b = Body::new(Known::Tags(2));
        let e2 = pick_entry(src); let (_, d) = doc(src, e2);
        b.items.push(Item::Field(1, if src.coin() { Node::Struct(d) } else { Node::Enum(src.uint(64), d) }));
        b
    } else if src.coin() {
        let mut b = Body::new(Known::All(0));
        for _ in 0..src.len(12) { let it = gen::unknown_item(src, 0, false); b.items.push(it); }
        b
    } else { let e2 = pick_entry(src); doc(src, e2).1 };
    let plain = to_bytes(&d);
    let mut b = vec![];
    if src.coin() { write_body(&d, &mut Random { src, den: 5, wide: true, applied: 0 }, &mut b); } else { b = plain.clone(); }
    let way = pick_way(src, e);
    if plain.len() > 1 {
        cx.nontrivial(e.name.as_bytes());
        cx.nontrivial(&b);
        cx.desc(|| format!("{} via {:?}: [{}]", e.name, way, hex(&b)));
    }
    let (out, how) = if way == Way::Borrow {
        let (_, o) = (e.de_borrow)(&b, &config(true)).map_err(|x| format!("{} zero-copy: [{}]: {}", e.name, hex(&b), x))?;
        (o, "zero-copy")
    } else {
        let (v, _) = run_way(e, way, &b, &config(true), &[]).map_err(|x| format!("{} via {:?}: [{}]: {}", e.name, way, hex(&b), x))?;
        let (o, _) = (e.to_vec)(&v).map_err(|x| format!("{}: {}", e.name, x))?;
        (o, "copied")
    };
    cx.label(how);
    ensure!(out == plain, "{} ({}): [{}] written back as [{}]", e.name, how, hex(&b), hex(&out));
    Ok(())
}

/// An older program edits a message of a newer one.
fn newer(src: &mut Src, cx: &mut Cx) -> Res {
    let new = find("Msg2");
    let old = find("MsgU");
    let mut v = canon(&new.copy, &gen::val(src, &new.copy));
    // within what the older program understands
    if let Val::Struct(ref mut f) = v {
        if let Val::U(ref mut n) = f[0] { *n &= 0xFFFF_FFFF; }
        if let Val::Enum(1, ref mut k) = f[3] { if let Val::U(ref mut n) = k[0] { *n &= 0xFFFF; } }
    }
    let mut d = enc_body(&new.copy, &v);
    if src.coin() {
        // reordered on the way
        d.known = Known::Tags(!0);
        super::c06::reorder(src, &mut d);
    }
    let b = to_bytes(&d);
    let way = pick_way(src, old);
    cx.nontrivial(&b);
    cx.nontrivial(&[way as u8]);
    cx.desc(|| format!("via {:?}: [{}]", way, hex(&b)));
    let (mut o, _) = run_way(old, way, &b, &config(src.coin()), &[]).map_err(|x| format!("MsgU via {:?}: [{}]: {}", way, hex(&b), x))?;
    let mut want = v.clone();
    if let (Val::Struct(f), Val::Struct(w)) = (&mut o, &mut want) {
        if src.coin() { let n = Val::U(src.uint(32)); f[0] = n.clone(); w[0] = n; cx.label("edited id"); }
        if let (Val::Enum(1, k), Val::Enum(1, l)) = (&mut f[1], &mut w[3]) {
            if src.coin() { let n = Val::U(src.uint(16)); k[0] = n.clone(); l[0] = n; cx.label("edited variant"); }
        } else { cx.label("unknown variant"); }
    }
    let (out, _) = (old.to_vec)(&o).map_err(|x| format!("MsgU: {}", x))?;
    let (got, _) = run_way(new, way, &out, &config(true), &[])
        .map_err(|x| format!("[{}] written back by the older program as [{}]: {}", hex(&b), hex(&out), x))?;
    let got = canon(&new.copy, &got.strip());
    ensure!(got == want, "[{}] written back by the older program as [{}]: {} instead of {}", hex(&b), hex(&out), short(&got), short(&want));
    Ok(())
}
