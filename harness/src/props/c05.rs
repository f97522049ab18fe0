//! Limits.
//! technique: boundary-value property-based testing against reference totals, and model-based testing of the accounting
use super::*;
use fourleaf::de::Context;

pub fn prop() -> Prop {
    Prop {
        id: "C05",
        rule: "a totals case counts as non-trivial when some limit is at or just below a non-zero total, a context case when it charges at least twice; distinct by type, document and limits, or by operations",
        facets: vec![
            facet("totals", totals, 1_800_000, 40_000_000),
            facet("context", context, 900_000, 20_000_000),
            facet("wide", super::wide::limits, 200, 40_000),
            facet("defaults", defaults, 20_000, 400_000),
            big!("big-totals", totals, 300, 6_000),
        ],
    }
}

fn totals(src: &mut Src, cx: &mut Cx) -> Res {
    let e = pick_entry(src);
    let way = pick_way(src, e);
    let s = way_schema(e, way);
    let (_, mut d) = doc(src, e);
    if src.chance(1, 6) {
        let it = gen::unknown_item(src, 0, false);
        d.items.push(it);
    }
    let b = to_bytes(&d);
    let strict = src.chance(1, 4);
    let free = decode(s, &b, RCfg::unlimited(strict), false);
    let mut c = config(strict);
    let mut hit = false;
    let mut limit = |src: &mut Src, exact: u64| -> usize {
        if exact > 0 { hit = true; }
        let e = exact as usize;
        match src.below(8) {
            0 | 1 => e.saturating_sub(1),
            2 | 3 | 4 => e,
            5 => e + 1,
            6 => usize::MAX,
            _ => { let n = src.below(exact + 1) as usize; n }
        }
    };
    match src.below(5) {
        0 => c.max_collect = limit(src, free.collected),
        1 => c.max_blob = limit(src, free.blob),
        2 => c.recursion_limit = limit(src, free.max_depth),
        3 => {
            c.max_collect = free.collected as usize;
            c.max_blob = free.blob as usize;
            c.recursion_limit = free.max_depth as usize;
            hit = true;
        }
        _ => {
            c.max_collect = limit(src, free.collected);
            c.max_blob = limit(src, free.blob);
            c.recursion_limit = limit(src, free.max_depth);
        }
    }
    let lim = decode(s, &b, rcfg(&c), false);
    if lim.unspecified || free.unspecified { return Ok(()); }
    if hit {
        cx.nontrivial(e.name.as_bytes());
        cx.nontrivial(&b);
        cx.nontrivial(&[c.max_blob as u8, c.max_collect as u8, c.recursion_limit as u8]);
        cx.desc(|| format!("{} via {:?}, totals {}/{}/{}, limits {}/{}/{}: [{}]", e.name, way, free.collected, free.blob, free.max_depth,
                           c.max_collect, c.max_blob, c.recursion_limit, hex(&b)));
    }
    let about = || format!("{} via {:?} [{}]: totals {} elements, {} bytes, depth {}; limits {}, {}, {}", e.name, way, hex(&b),
                           free.collected, free.blob, free.max_depth, c.max_collect, c.max_blob, c.recursion_limit);
    let got = run_way(e, way, &b, &c, &[]);
    match (&lim.result, got) {
        (Ok(_), Ok(_)) => { cx.label("within limits"); Ok(()) }
        (Ok(_), Err(x)) => Err(format!("{}: rejected ({})", about(), x)),
        (Err(r), Ok(_)) => Err(format!("{}: accepted, expected {:?}", about(), r.kind)),
        (Err(r), Err(x)) => {
            let limit_err = matches!(r.kind, K::MaxBlob | K::MaxCollect | K::Recursion);
            cx.label(match r.kind { K::MaxBlob => "blob limit", K::MaxCollect => "collect limit", K::Recursion => "recursion limit", _ => "other error" });
            if limit_err && free.result.is_ok() {
                let (k, _) = kind(&x);
                // with several limits exceeded, any of them may be named
                let fits = match k {
                    EK::K(K::MaxCollect) => free.collected > c.max_collect as u64,
                    EK::K(K::MaxBlob) => free.blob > c.max_blob as u64,
                    EK::K(K::Recursion) => free.max_depth > c.recursion_limit as u64,
                    _ => false,
                };
                ensure!(fits, "{}: {} instead of {:?}", about(), x, r.kind);
            }
            Ok(())
        }
    }
}

/// The documented defaults: 65536 bytes, 256 elements.
fn defaults(src: &mut Src, cx: &mut Cx) -> Res {
    const BLOBS: [&str; 8] = ["Vec<u8>", "String", "Vec<Vec<u8>>", "LinkedList<Vec<u8>>", "(Vec<u8>,)", "Cow<'a,str>", "Vec<Cow<'a,[u8]>>", "Option<Vec<u8>>"];
    const LISTS: [&str; 10] = ["Vec<u32>", "VecDeque<u32>", "LinkedList<u32>", "BTreeSet<u32>", "BinaryHeap<i32>", "BTreeMap<u32,String>",
        "HashMap<u32,String,BH>", "Vec<u64>", "Vec<()>", "Vec<Box<u8>>"];
    let blobs = src.coin();
    let e = find(*src.pick(if blobs { &BLOBS[..] } else { &LISTS[..] }));
    let way = pick_way(src, e);
    let near = |src: &mut Src, n: usize| if src.chance(7, 8) { n - 3 + src.below(7) as usize } else { src.below(2 * n as u64) as usize };
    let total;
    let v = if blobs {
        total = near(src, 65536);
        let many = e.name.contains("Vec<Vec") || e.name.contains("Vec < Vec") || e.name.contains("List") || e.name.starts_with("Vec<Cow");
        let mut parts = vec![];
        let mut left = total;
        let k = if many { src.range(1, 9) } else { 1 };
        for i in 0..k {
            let n = if i + 1 == k { left } else { src.below(left as u64 + 1) as usize };
            parts.push(Val::Bytes(vec![b'a' + i as u8; n]));
            left -= n;
        }
        match e.copy.force() {
            Schema::List(_) | Schema::Opt(_) => Val::Seq(parts),
            Schema::Struct(_) => Val::Struct(parts),
            _ => parts.pop().unwrap(),
        }
    } else {
        total = near(src, 256);
        let name = e.name;
        let item = |i: usize| if name.contains("i32") { Val::I(i as i64) } else if name.contains("()") { Val::Unit } else if name.contains("u8") { Val::U(i as u64 & 255) } else { Val::U(i as u64) };
        match e.copy.force() {
            Schema::Map(..) => Val::Map((0..total).map(|i| (item(i), Val::Bytes(vec![]))).collect()),
            _ => Val::Seq((0..total).map(item).collect()),
        }
    };
    let b = encode(&e.copy, &v);
    let c = Config::default();
    let s = way_schema(e, way);
    let lim = decode(s, &b, RCfg { strict: false, limit: 32, max_blob: 65536, max_collect: 256 }, false);
    cx.label(if lim.result.is_ok() { "within" } else { "beyond" });
    cx.label(e.name);
    cx.nontrivial(format!("{} {:?} {}", e.name, way, total).as_bytes());
    cx.desc(|| format!("{} via {:?} with {} {}", e.name, way, total, if blobs { "bytes" } else { "elements" }));
    let about = || format!("{} via {:?} with {} {} and the default limits", e.name, way, total, if blobs { "bytes" } else { "elements" });
    match (&lim.result, run_way(e, way, &b, &c, &[])) {
        (Ok(_), Ok(_)) => Ok(()),
        (Ok(_), Err(x)) => Err(format!("{}: rejected ({})", about(), x)),
        (Err(r), Ok(_)) => Err(format!("{}: accepted, expected {:?}", about(), r.kind)),
        (Err(r), Err(x)) => {
            ensure!(kind(&x).0 == EK::K(r.kind.clone()), "{}: {} instead of {:?}", about(), x, r.kind);
            Ok(())
        }
    }
}

struct Model { collected: u128, blob: u128, charges: u32, log: Vec<String> }

fn context(src: &mut Src, cx: &mut Cx) -> Res {
    let mut c = Config::default();
    c.max_collect = amount(src);
    c.max_blob = amount(src);
    c.recursion_limit = src.range(0, 8);
    let mut m = Model { collected: 0, blob: 0, charges: 0, log: vec![format!("limits {}/{}/{}", c.max_collect, c.max_blob, c.recursion_limit)] };
    let top = Context::top(&c);
    let r = catch(|| level(src, cx, &top, &mut m, "{0}", 0));
    if m.charges >= 2 {
        cx.nontrivial(m.log.join(",").as_bytes());
        cx.desc(|| m.log.join(", "));
    }
    match r {
        Ok(r) => r,
        Err(p) => Err(format!("{} after {}", p, m.log.join(", "))),
    }
}

fn amount(src: &mut Src) -> usize {
    match src.below(4) { 0 => src.below(12) as usize, 1 => src.below(300) as usize, 2 => src.uint(64) as usize, _ => usize::MAX - src.below(3) as usize }
}

fn level(src: &mut Src, cx: &mut Cx, ctx: &Context, m: &mut Model, path: &str, depth: usize) -> Res {
    ensure!(ctx.to_string() == path, "context displays as {:?}, expected {:?} after {}", ctx.to_string(), path, m.log.join(", "));
    ensure!(ctx.depth == depth, "context depth {} instead of {} after {}", ctx.depth, depth, m.log.join(", "));
    let n = src.below(6);
    for _ in 0..n {
        match src.below(4) {
            0 => {
                let left = (ctx.config.max_collect as u128).saturating_sub(m.collected);
                let n = near(src, left) as usize;
                m.charges += 1;
                m.log.push(format!("collect({})", n));
                let ok = m.collected + n as u128 <= ctx.config.max_collect as u128;
                let r = ctx.collect(n);
                if ok { m.collected += n as u128; }
                cx.label(if ok { "collect ok" } else { "collect refused" });
                verdict(ok, r, m, &EK::K(K::MaxCollect), path)?;
            }
            1 => {
                let left = (ctx.config.max_blob as u128).saturating_sub(m.blob);
                let n = near(src, left);
                m.charges += 1;
                m.log.push(format!("blob({})", n));
                let ok = m.blob + n as u128 <= ctx.config.max_blob as u128;
                let r = ctx.blob(n);
                if ok { m.blob += n as u128; }
                cx.label(if ok { "blob ok" } else { "blob refused" });
                verdict(ok, r, m, &EK::K(K::MaxBlob), path)?;
            }
            _ => {
                let pos = src.uint(64);
                let ok = depth < ctx.config.recursion_limit;
                let name = src.string(6);
                let mut buf = [0u8; 2];
                let tag = src.below(64) as u8;
                let by_tag = src.chance(1, 3);
                let label = if by_tag { format!("{:02}", tag) } else { name.clone() };
                m.log.push(format!("push({:?}, {})", label, pos));
                let r = if by_tag { ctx.push_tag(&mut buf, tag, pos) } else { ctx.push(&name, pos) };
                match r {
                    Ok(mut sub) => {
                        ensure!(ok, "push beyond the recursion limit succeeded after {}", m.log.join(", "));
                        let mut c2 = ctx.config.clone();
                        if src.chance(1, 3) {
                            // deserialisers may tighten the limits for what is below them
                            c2.max_collect = c2.max_collect.min(amount(src));
                            c2.max_blob = c2.max_blob.min(amount(src));
                            c2.recursion_limit = c2.recursion_limit.min(src.range(0, 8));
                            m.log.push(format!("tightened to {}/{}/{}", c2.max_collect, c2.max_blob, c2.recursion_limit));
                            cx.label("tightened");
                        }
                        sub.config = &c2;
                        let p = format!("{}.{}{{{}}}", path, label, pos);
                        level(src, cx, &sub, m, &p, depth + 1)?;
                        m.log.push("pop".into());
                    }
                    Err(ref e) => {
                        ensure!(!ok, "push refused ({}) after {}", e, m.log.join(", "));
                        verdict(false, Err::<(), _>(de_clone(e)), m, &EK::K(K::Recursion), path)?;
                        cx.label("push refused");
                    }
                }
            }
        }
    }
    Ok(())
}

fn de_clone(e: &de::Error) -> de::Error {
    match *e {
        de::Error::RecursionLimitExceeded(ref s) => de::Error::RecursionLimitExceeded(s.clone()),
        ref e => de::Error::InvalidValueMsg(e.to_string(), "other"),
    }
}

fn near(src: &mut Src, left: u128) -> u64 {
    let l = left.min(u64::MAX as u128) as u64;
    match src.below(6) {
        0 => 1,
        1 => l,
        2 => l.saturating_add(1),
        3 => l / 2,
        4 => src.below(10),
        _ => src.uint(64),
    }
}

fn verdict(ok: bool, r: Result<(), de::Error>, m: &Model, want: &EK, path: &str) -> Res {
    let (ok2, err) = match r { Ok(()) => (true, None), Err(e) => (false, Some(e)) };
    ensure!(ok == ok2, "last operation of {} {} ({})", m.log.join(", "), if ok { "was refused" } else { "was allowed" }, err.map(|e| e.to_string()).unwrap_or_default());
    if let Some(e) = err {
        let (k, p) = kind(&e);
        ensure!(k == *want && p == path, "last operation of {} failed with {} instead of {:?} at {}", m.log.join(", "), e, want, path);
    }
    Ok(())
}
