//! Equivalent encodings.
//! technique: metamorphic property-based testing (noisy re-encoding of documents)
use super::*;

pub fn prop() -> Prop {
    Prop {
        id: "C06",
        rule: "a case counts as non-trivial when the re-encoding differs from the plain document; distinct by type, configuration and re-encoded bytes",
        facets: vec![
            facet("reencode", reencode, 1_200_000, 50_000_000),
            facet("stream", elements, 600_000, 20_000_000),
            big!("big-reencode", reencode, 300, 6_000),
            big!("big-stream", elements, 300, 6_000),
        ],
    }
}

fn clean(b: &Body) -> bool {
    b.items.iter().all(|i| match i {
        Item::Exc(_) | Item::EndDoc => false,
        Item::Pad => true,
        Item::Field(_, Node::RawBlob(..)) | Item::Field(_, Node::RawInt(..)) => false,
        Item::Field(_, Node::Struct(b)) | Item::Field(_, Node::Enum(_, b)) => clean(b),
        _ => true,
    })
}

/// Shuffles fields, keeping the order among those that share a destination.
pub fn reorder(src: &mut Src, b: &mut Body) -> bool {
    let key = |t: u8| match b.known { Known::All(m) if m >> t & 1 == 0 => 64, _ => t };
    let tag = |i: &Item| match *i { Item::Field(t, _) => key(t), _ => 65 };
    // random interleaving of the per-key queues
    let mut queues: Vec<(u8, std::collections::VecDeque<Item>)> = vec![];
    for it in &b.items {
        let k = tag(it);
        match queues.iter_mut().find(|q| q.0 == k) {
            Some(q) => q.1.push_back(it.clone()),
            None => queues.push((k, Some(it.clone()).into_iter().collect())),
        }
    }
    let mut out = vec![];
    while !queues.is_empty() {
        let i = src.below(queues.len() as u64) as usize;
        out.push(queues[i].1.pop_front().unwrap());
        if queues[i].1.is_empty() { queues.remove(i); }
    }
    let changed = out != b.items;
    b.items = out;
    changed
}

/// Writes the body with everything from `level` levels deep on along the last
/// fields closed by one end-of-document marker.
fn write_enddoc(b: &Body, level: u64, noise: &mut dyn Noise, out: &mut Vec<u8>) {
    if level > 0 {
        if let Some((Item::Field(t, n), init)) = b.items.split_last() {
            if let Node::Struct(inner) | Node::Enum(_, inner) = n {
                write_items(init, noise, out);
                for _ in 0..noise.pad() { out.push(PADDING); }
                match n {
                    Node::Enum(d, _) => { out.push(*t); let e = noise.denorm(); put_uint_long(*d, e, out); }
                    _ => out.push(0xC0 | *t),
                }
                return write_enddoc(inner, level - 1, noise, out);
            }
        }
    }
    write_items(&b.items, noise, out);
    for _ in 0..noise.pad() { out.push(PADDING); }
    out.push(END_DOC);
}

/// Random re-encoding; returns what was done.
pub fn noisy(src: &mut Src, d: &Body, cx: &mut Cx) -> Vec<u8> {
    let mut d = d.clone();
    if src.coin() {
        let mut any = false;
        d.visit_bodies(&mut |b| { if b.items.len() > 1 && src.coin() { any |= reorder(src, b); } });
        if any { cx.label("reordered"); }
    }
    let end = if src.chance(1, 3) { Some(src.below(6)) } else { None };
    let mut out = vec![];
    if src.chance(4, 5) {
        let den = *src.pick(&[2, 4, 10]);
        let wide = src.coin();
        let mut n = Random { src, den, wide, applied: 0 };
        match end {
            Some(k) => { cx.label("end of document"); write_enddoc(&d, k, &mut n, &mut out) }
            None => write_body(&d, &mut n, &mut out),
        }
        if n.applied > 0 { cx.label("wide integers or padding"); }
    } else {
        match end {
            Some(k) => { cx.label("end of document"); write_enddoc(&d, k, &mut Plain, &mut out) }
            None => write_body(&d, &mut Plain, &mut out),
        }
    }
    out
}

/// Unknown fields sorted by tag, keeping the order within each tag.
fn by_tag(v: &Val) -> Val {
    fn us(u: &[(u8, UV)]) -> Vec<(u8, UV)> {
        let mut u: Vec<(u8, UV)> = u.iter().map(|(t, x)| (*t, uv(x))).collect();
        u.sort_by_key(|x| x.0);
        u
    }
    fn uv(u: &UV) -> UV {
        match u {
            UV::Struct(x) => UV::Struct(us(x)),
            UV::Enum(d, x) => UV::Enum(*d, us(x)),
            u => u.clone(),
        }
    }
    let l = |v: &Vec<Val>| v.iter().map(by_tag).collect();
    match v {
        Val::Seq(v) => Val::Seq(l(v)),
        Val::Map(v) => Val::Map(v.iter().map(|(a, b)| (by_tag(a), by_tag(b))).collect()),
        Val::Struct(v) => Val::Struct(l(v)),
        Val::Enum(d, v) => Val::Enum(*d, l(v)),
        Val::Unk(v) => Val::Unk(us(v)),
        Val::UF(u) => Val::UF(uv(u)),
        v => v.clone(),
    }
}

fn reencode(src: &mut Src, cx: &mut Cx) -> Res {
    let e = pick_entry(src);
    let (_, plain) = doc(src, e);
    let mut d = plain.clone();
    let mut mutated = false;
    for _ in 0..src.below(4) / 2 { gen::mutate(src, &mut d); mutated = true; }
    if src.chance(1, 8) { let it = gen::unknown_item(src, 0, false); d.items.push(it); mutated = true; }
    if !clean(&d) { d = plain; }
    let strict = src.chance(1, 3);
    let way = pick_way(src, e);
    let plan = gen::plan(src);
    let a = to_bytes(&d);
    let b = noisy(src, &d, cx);
    let s = way_schema(e, way);
    let c = config(strict);
    if a != b {
        cx.nontrivial(e.name.as_bytes());
        cx.nontrivial(&b);
        cx.nontrivial(&[way as u8, strict as u8]);
        cx.desc(|| format!("{} via {:?} strict={}: [{}] re-encoded as [{}]", e.name, way, strict, hex(&a), hex(&b)));
    }
    let mut all = b.clone();
    all.extend(src.bytes(4));
    let ra = run_way(e, way, &a, &c, &[]);
    let rb = run_way(e, way, &all, &c, &plan);
    let about = || format!("{} via {:?} strict={}: [{}] re-encoded as [{}]", e.name, way, strict, hex(&a), hex(&b));
    match (ra, rb) {
        (Ok((x, _)), Ok((y, p))) => {
            cx.label("accepted");
            let (mut x, mut y) = (canon(s, &x.strip()), canon(s, &y.strip()));
            // mutation may move a body to where all its fields are unknown, so
            // that the order of different tags shows in the value
            if mutated { x = by_tag(&x); y = by_tag(&y); }
            ensure!(x == y, "{}: {} became {}", about(), short(&x), short(&y));
            if let Some(p) = p { ensure!(p == b.len() as u64, "{}: consumed {} of {} bytes", about(), p, b.len()); }
            Ok(())
        }
        (Err(_), Err(_)) => { cx.label("rejected"); Ok(()) }
        (Ok(_), Err(x)) => Err(format!("{}: accepted as first written, then rejected: {}", about(), x)),
        (Err(x), Ok(_)) => Err(format!("{}: rejected as first written ({}), then accepted", about(), x)),
    }
}

/// The low-level fields are the same too.
fn elements(src: &mut Src, cx: &mut Cx) -> Res {
    let mut d = Body::new(Known::All(0));
    for _ in 0..src.range(1, 6) { let it = gen::any_item(src, 0); d.items.push(it); }
    let a = to_bytes(&d);
    let (b, end) = {
        let den = *src.pick(&[2, 4, 10]);
        let end = if src.coin() { Some(src.below(5)) } else { None };
        let mut out = vec![];
        let mut n = Random { src, den, wide: true, applied: 0 };
        match end { Some(k) => write_enddoc(&d, k, &mut n, &mut out), None => write_body(&d, &mut n, &mut out) }
        (out, end)
    };
    if a != b { cx.nontrivial(&b); cx.desc(|| format!("[{}] re-encoded as [{}]", hex(&a), hex(&b))); }
    if end.is_some() { cx.label("end of document"); }
    let la = listing(&a, false)?;
    let lb = listing(&b, end.is_some())?;
    ensure!(la == lb, "[{}] reads as {:?}, re-encoded as [{}] it reads as {:?}", hex(&a), la, hex(&b), lb);
    Ok(())
}

/// Fields with their depths and contents, ends of structs left out.
fn listing(b: &[u8], ended: bool) -> Result<Vec<(u8, u64, String)>, String> {
    let mut s = Stream::from_slice(b);
    let mut out = vec![];
    let mut depth = 1u64;
    loop {
        match s.next_field().map_err(|e| format!("[{}]: {}", hex(b), e))? {
            None => {
                if s.eof() { break; }
                depth -= 1;
                if depth == 0 { break; }
            }
            Some(f) => {
                let (t, d) = (f.tag, f.depth);
                let v = match f.value {
                    stream::Value::Integer(n) => format!("int {}", n),
                    stream::Value::Blob(mut x) => format!("blob {:?}", x.read_fully(usize::MAX).map_err(|e| e.to_string())?),
                    stream::Value::Struct(_) => { depth += 1; "struct".into() }
                    stream::Value::Enum(n, _) => { depth += 1; format!("enum {}", n) }
                };
                out.push((t, d, v));
            }
        }
    }
    if s.eof() != ended || s.pos() != b.len() as u64 { return Err(format!("[{}]: ended at {} eof {}", hex(b), s.pos(), s.eof())); }
    Ok(out)
}
