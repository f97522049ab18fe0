//! Values written back to back.
//! technique: property-based testing of generated sequences of values, read back by generated mixtures of entry points, with positions checked against a model
use super::*;
use std::io::Write;

pub fn prop() -> Prop {
    Prop {
        id: "C20",
        rule: "a case counts as non-trivial when at least two values are written and read back; distinct by types, bytes and ways of reading",
        facets: vec![
            facet("sequence", sequence, 500_000, 20_000_000),
            facet("borrowed", borrowed, 300_000, 12_000_000),
            facet("recover", recover, 400_000, 16_000_000),
            facet("many", many, 3_000, 150_000),
            big!("big-sequence", sequence, 300, 6_000),
            big!("big-borrowed", borrowed, 300, 6_000),
            big!("big-recover", recover, 300, 6_000),
        ],
    }
}

struct Part { e: &'static Entry, v: Val, op: SerOp, tag: u8, start: u64, end: u64 }

fn sequence(src: &mut Src, cx: &mut Cx) -> Res {
    let out = Dev::new(Mem::new(vec![]).with_plan(gen::plan(src)));
    let n = src.range(1, 5);
    let mut parts: Vec<Part> = vec![];
    let mut log = String::new();
    let base = match src.below(4) { 0 => src.below(300), 1 => src.uint(60), _ => 0 };
    {
        let mut s = Stream::new(out.clone());
        s.set_pos(base);
        for _ in 0..n {
            if src.chance(1, 3) {
                let a = 1u64 << src.below(7);
                s.pad_to_align(a).map_err(|e| e.to_string())?;
                ensure!(s.pos() % a == 0, "{}: position {} after aligning to {}", log, s.pos(), a);
                log.push_str(&format!(" align({})", a));
            } else if src.chance(1, 4) {
                for _ in 0..src.range(1, 4) { s.write_padding().map_err(|e| e.to_string())?; }
                log.push_str(" padding");
            }
            let e = pick_copy(src);
            let v = gen::val(src, &e.copy);
            let tag = 1 + src.below(63) as u8;
            let start = s.pos();
            ensure!(start - base == out.data().len() as u64, "{}: stream at {} with {} bytes written from {}", log, start, out.data().len(), base);
            let mut op = *src.pick(&[SerOp::Body, SerOp::ToStream, SerOp::ToStreamRef, SerOp::BodyRc, SerOp::Elem(tag), SerOp::ElemBox(tag), SerOp::Field(tag), SerOp::ElemRefMut(tag)]);
            if e.no_field { if let SerOp::Field(_) = op { op = SerOp::Elem(tag); } }
            log.push_str(&format!(" {} {:?}", e.name, op));
            let direct = matches!(op, SerOp::ToStream | SerOp::ToStreamRef) && src.coin();
            let v = if direct {
                // straight to the writer underneath
                s.commit().map_err(|e| e.to_string())?;
                log.push_str(" directly");
                let v = (e.to_writer)(&v, out.clone()).map_err(|x| format!("{}: {}", log, x))?;
                let p = base + out.pos();
                if src.coin() { s.set_pos(p); } else { s.reset_pos(p).map_err(|e| e.to_string())?; }
                v
            } else { (e.ser)(&v, op, &mut s).map_err(|x| format!("{}: {}", log, x))? };
            if let SerOp::Field(_) = op { s.write_end_struct().map_err(|e| e.to_string())?; }
            s.commit().map_err(|e| e.to_string())?;
            parts.push(Part { e, v: canon(&e.copy, &v.strip()), op, tag, start: start - base, end: s.pos() - base });
        }
        s.commit().map_err(|e| e.to_string())?;
        ensure!(s.pos() - base == out.data().len() as u64, "{}: stream at {} with {} bytes written from {}", log, s.pos(), out.data().len(), base);
    }
    let b = out.data();
    let expect = |p: &Part| b[p.start as usize..p.end as usize].to_vec();
    for p in &parts {
        let want = match p.op {
            SerOp::Elem(t) | SerOp::ElemBox(t) | SerOp::ElemRefMut(t) => { let mut o = vec![]; write_field(t, &enc_elem(&p.e.copy, &p.v), &mut Plain, &mut o); o }
            SerOp::Field(t) => { let mut d = Body::new(Known::Opaque); enc_field(&p.e.copy, &p.v, t, &mut d.items); to_bytes(&d) }
            _ => encode(&p.e.copy, &p.v),
        };
        // hash collections have no order of their own
        ensure!(want.len() == expect(p).len(), "{}: {} written as [{}] instead of [{}]", log, p.e.name, hex(&expect(p)), hex(&want));
    }
    // reading
    let c = config(src.coin());
    let mut tail = b.clone();
    tail.extend_from_slice(&src.bytes(4));
    let dev = Dev::new(Mem::new(tail.clone()).with_plan(gen::plan(src)));
    let mut s = if src.coin() { Stream::new(dev.clone()) } else { Stream::new_seek(dev.clone()) };
    let rbase = if src.coin() { 0 } else { src.uint(60) };
    if rbase != 0 { s.set_pos(rbase); }
    let mut how = String::new();
    let order: Vec<usize> = (0..parts.len()).collect();
    for i in order {
        let p = &parts[i];
        let about = |how: &str| format!("{} =[{}], read{}: value {} ({})", log, hex(&b), how, i, p.e.name);
        let dop = match p.op { SerOp::Elem(_) | SerOp::ElemBox(_) | SerOp::ElemRefMut(_) => DeOp::Elem, SerOp::Field(t) => DeOp::Field(t), _ => if src.coin() { DeOp::Body } else { DeOp::BodyBox } };
        let body = matches!(dop, DeOp::Body | DeOp::BodyBox);
        let k = if body { src.below(5) } else { src.below(3) };
        let got = match k {
            3 if body => {
                how.push_str(" from_reader");
                let r = (p.e.de_reader.unwrap())(dev.clone(), &c);
                let q = dev.pos() + rbase;
                if src.coin() { s.set_pos(q) } else { s.reset_pos(q).map_err(|e| format!("{}: {}", about(&how), e))? }
                r
            }
            4 if body => {
                how.push_str(" from_slice");
                // from a slice that begins where the reader is, which is not moved by it
                let r = (p.e.de_slice.unwrap())(&tail[dev.pos() as usize..], &c);
                if let Ok(ref v) = r { let g = canon(&p.e.copy, &v.strip()); ensure!(g == p.v, "{}: {} instead of {}", about(&how), short(&g), short(&p.v)); }
                (p.e.de_stream.unwrap())(&mut s, dop, &c)
            }
            1 => {
                how.push_str(" new stream");
                s = if src.coin() { Stream::new(dev.clone()) } else { Stream::new_seek(dev.clone()) };
                s.set_pos(rbase + dev.pos());
                (p.e.de_stream.unwrap())(&mut s, dop, &c)
            }
            _ => { how.push_str(" stream"); (p.e.de_stream.unwrap())(&mut s, dop, &c) }
        };
        let got = got.map_err(|x| format!("{}: {}", about(&how), x))?;
        s.commit().map_err(|x| format!("{}: {}", about(&how), x))?;
        let g = canon(&p.e.copy, &got.strip());
        ensure!(g == p.v, "{}: {} instead of {}", about(&how), short(&g), short(&p.v));
        // an element's fields may end with the struct left open: then its end follows
        ensure!(s.pos() == rbase + p.end && dev.pos() == p.end, "{}: stream at {} and reader at {} instead of {} (from {})", about(&how), s.pos(), dev.pos(), p.end, rbase);
        ensure!(dev.m().max_read == p.end, "{}: read up to {} instead of {}", about(&how), dev.m().max_read, p.end);
        let _ = p.tag;
    }
    if parts.len() >= 2 {
        cx.nontrivial(log.as_bytes());
        cx.nontrivial(&b);
        cx.nontrivial(how.as_bytes());
        cx.desc(|| format!("{} =[{}], read{}", log, hex(&b), how));
    }
    Ok(())
}

/// Several values borrowed from one stream over a slice.
fn borrowed(src: &mut Src, cx: &mut Cx) -> Res {
    let e = pick_entry(src);
    let n = src.range(1, 4);
    let mut b = vec![];
    let mut want = vec![];
    for _ in 0..n {
        for _ in 0..src.below(3) { b.push(PADDING); }
        let (bytes, v) = (e.to_vec)(&gen::val(src, &e.copy)).map_err(|x| x.to_string())?;
        b.write_all(&bytes).unwrap();
        want.push((canon(&e.copy, &v.strip()), b.len() as u64));
    }
    b.extend_from_slice(&src.bytes(4));
    let c = config(src.coin());
    let got = (e.de_borrow_seq)(&b, n, &c).map_err(|x| format!("{} x {}: [{}]: {}", e.name, n, hex(&b), x))?;
    for (i, (g, w)) in got.iter().zip(&want).enumerate() {
        let v = canon(&e.copy, &g.0.strip());
        ensure!(v == w.0, "{} x {}: [{}]: value {} is {} instead of {}", e.name, n, hex(&b), i, short(&v), short(&w.0));
        ensure!(g.1 == w.1, "{} x {}: [{}]: position {} after value {} instead of {}", e.name, n, hex(&b), g.1, i, w.1);
    }
    if n >= 2 { cx.nontrivial(e.name.as_bytes()); cx.nontrivial(&b); cx.desc(|| format!("{} x {}: [{}]", e.name, n, hex(&b))); }
    Ok(())
}

/// A value that cannot be decoded is passed over, and the following ones read.
fn recover(src: &mut Src, cx: &mut Cx) -> Res {
    let n = src.range(2, 4);
    let mut b = vec![];
    let mut parts = vec![];
    let mut log = String::new();
    let strict = src.coin();
    let mut failing = 0;
    for _ in 0..n {
        let e = pick_copy(src);
        let e2 = if src.chance(1, 3) { pick_copy(src) } else { e };
        let (_, mut d) = doc(src, e2);
        if e2.name == e.name && src.coin() { gen::mutate(src, &mut d); }
        // well formed, only perhaps not what is wanted
        let mut plain = true;
        d.visit_bodies(&mut |b| for it in &b.items { match *it { Item::Exc(_) | Item::EndDoc | Item::Field(_, Node::RawInt(_)) | Item::Field(_, Node::RawBlob(..)) => plain = false, _ => {} } });
        if !plain { continue; }
        for _ in 0..src.below(3) { b.push(PADDING); }
        write_body(&d, &mut Plain, &mut b);
        log.push_str(&format!(" {} as {}", e2.name, e.name));
        parts.push((e, b.len() as u64));
    }
    let mut c = super::c14::any_config(src);
    c.ignore_unknown_fields = !strict;
    let dev = Dev::new(Mem::new(b.clone()).with_plan(gen::plan(src)));
    let mut s = if src.coin() { Stream::new(dev.clone()) } else { Stream::new_seek(dev.clone()) };
    let mut start = 0;
    for (i, &(e, end)) in parts.iter().enumerate() {
        let r = decode(&e.copy, &b[start as usize..], rcfg(&c), false);
        let want = r.result.map(|v| canon(&e.copy, &v.strip())).map_err(|x| EK::K(x.kind));
        let got = (e.de_stream.unwrap())(&mut s, DeOp::Body, &c).map(|v| canon(&e.copy, &v.strip())).map_err(|x| kind(&x).0);
        let about = || format!("{} =[{}] strict={} limits {} {} {}: value {}", log, hex(&b), strict, c.recursion_limit, c.max_blob, c.max_collect, i);
        // where it fails shifts positions within the error, nothing else
        let norm = |r: &Result<Val, EK>| match *r { Err(EK::K(K::UnknownField(t, _))) => Err(EK::K(K::UnknownField(t, 0))), ref x => x.clone() };
        ensure!(norm(&got) == norm(&want), "{}: {:?} instead of {:?}", about(), got, want);
        if got.is_err() {
            failing += 1;
            // refused before anything was read
            if r.pos == 0 { ensure!(s.pos() == start && got == Err(EK::K(K::Recursion)), "{}: {:?} at {}", about(), got, s.pos()); break; }
            s.skip_up(0).map_err(|x| format!("{} failed with {:?}, then skip_up(0): {}", about(), got, x))?;
            s.commit().map_err(|x| x.to_string())?;
        }
        ensure!(s.pos() == end && dev.pos() == end && s.struct_depth() == 0, "{} ({}): stream at {}, reader at {}, depth {} instead of {}", about(), if got.is_ok() { "read" } else { "skipped" }, s.pos(), dev.pos(), s.struct_depth(), end);
        start = end;
    }
    cx.label(match failing { 0 => "no value fails", 1 => "one value fails", _ => "several values fail" });
    if parts.len() >= 2 && failing > 0 { cx.nontrivial(log.as_bytes()); cx.nontrivial(&b); cx.nontrivial(&[c.max_blob as u8, c.max_collect as u8, c.recursion_limit as u8, strict as u8]); cx.desc(|| format!("{} =[{}], {} failing", log, hex(&b), failing)); }
    Ok(())
}

/// Thousands of values in one stream; the limits apply to each on its own.
fn many(src: &mut Src, cx: &mut Cx) -> Res {
    let e = pick_copy(src);
    let mut pool = vec![];
    let mut most = (0, 0, 0);
    let strict = src.coin();
    for _ in 0..src.range(1, 3) {
        src.size = src.size.min(10);
        let (bytes, v) = (e.to_vec)(&gen::val(src, &e.copy)).map_err(|x| x.to_string())?;
        let r = decode(&e.copy, &bytes, RCfg::unlimited(strict), false);
        ensure!(r.result.is_ok(), "{}: [{}] is not valid", e.name, hex(&bytes));
        most = (most.0.max(r.collected), most.1.max(r.blob), most.2.max(r.max_depth));
        pool.push((bytes, canon(&e.copy, &v.strip())));
    }
    let each = pool.iter().map(|p| p.0.len()).max().unwrap_or(1).max(1);
    let n = src.log(5000).min(200_000 / each).max(2);
    let align = if src.coin() { 1u64 << src.below(5) } else { 1 };
    let out = Dev::of(&[]);
    let mut ends = vec![];
    {
        let mut s = Stream::new(out.clone());
        for i in 0..n {
            let p = &pool[i % pool.len()];
            (e.ser)(&p.1, SerOp::Body, &mut s).map_err(|x| x.to_string())?;
            ends.push(s.pos());
            s.pad_to_align(align).map_err(|x| x.to_string())?;
        }
        s.commit().map_err(|x| x.to_string())?;
    }
    let b = out.data();
    // exactly what the largest of them needs
    let mut c = config(strict);
    c.max_collect = most.0 as usize;
    c.max_blob = most.1 as usize;
    c.recursion_limit = most.2 as usize;
    let about = |i: usize| format!("{} x {} of {:?}, aligned to {}: value {}", e.name, n, pool.iter().map(|p| hex(&p.0)).collect::<Vec<_>>(), align, i);
    let dev = Dev::new(Mem::new(b.clone()).with_plan(gen::plan(src)));
    let mut s = if src.coin() { Stream::new(dev.clone()) } else { Stream::new_seek(dev.clone()) };
    for i in 0..n {
        let v = (e.de_stream.unwrap())(&mut s, DeOp::Body, &c).map_err(|x| format!("{}: {}", about(i), x))?;
        let p = &pool[i % pool.len()];
        let v = canon(&e.copy, &v.strip());
        ensure!(v == p.1, "{}: {} instead of {}", about(i), short(&v), short(&p.1));
        ensure!(s.pos() == ends[i] && s.struct_depth() == 0, "{}: at {} depth {} instead of {}", about(i), s.pos(), s.struct_depth(), ends[i]);
    }
    cx.label(if n >= 1000 { "over 1000 values" } else if n >= 100 { "100 to 999 values" } else { "fewer" });
    cx.nontrivial(e.name.as_bytes());
    cx.nontrivial(&b);
    cx.desc(|| about(0));
    Ok(())
}
