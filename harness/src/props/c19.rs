//! Integer encoding.
//! technique: property-based testing (round trips, arbitrary encodings and conversions against a wide-arithmetic reference)
use super::*;
use fourleaf::stream::Value;
use fourleaf::wire::{self, Descriptor, DescriptorType, ParsedDescriptor, SpecialType};
use std::io::{Cursor, Read};

pub fn prop() -> Prop {
    Prop {
        id: "C19",
        rule: "a case counts as non-trivial when the integer takes more than one byte or is negative (round trips), the encoding has at least two bytes (arbitrary encodings), or some conversion succeeds and some fails (conversions); distinct by value and encoding",
        facets: vec![
            facet("codec", codec, 3_000_000, 80_000_000),
            facet("any", any, 3_000_000, 80_000_000),
            facet("narrow", narrow, 2_000_000, 50_000_000),
            facet("descriptors", descriptors, 20_000, 100_000),
        ],
    }
}

fn decode_from<R: Read>(mut r: R, signed: bool) -> (Result<u64, EK>, R) {
    let v = if signed { wire::decode_i64(&mut r).map(|i| i as u64) } else { wire::decode_u64(&mut r) };
    (v.map_err(|e| skind(&e)), r)
}

/// Decodes from some kind of reader; also the number of bytes taken.
fn decode_one(src: &mut Src, b: &[u8], signed: bool) -> (Result<u64, EK>, u64) {
    match src.below(4) {
        0 => { let (v, r) = decode_from(b, signed); (v, (b.len() - r.len()) as u64) }
        1 => { let (v, r) = decode_from(Cursor::new(b), signed); (v, r.position()) }
        _ => { let d = Dev::new(Mem::new(b.to_vec()).with_plan(gen::plan(src))); let (v, d) = decode_from(d, signed); let p = d.pos(); (v, p) }
    }
}

/// A 64-bit value of any magnitude.
fn value(src: &mut Src) -> u64 {
    match src.below(4) {
        // edges of groups of seven bits
        0 => { let k = src.below(10) as u32; let p = if k * 7 >= 64 { 0 } else { 1u64 << (7 * k) }; p.wrapping_add(src.below(5)).wrapping_sub(2) }
        // a single group
        1 => { let k = src.below(10) as u32; (1 + src.below(127)).wrapping_shl(7 * k) }
        _ => src.uint(64),
    }
}

fn codec(src: &mut Src, cx: &mut Cx) -> Res {
    let v = value(src);
    let mut want = vec![];
    put_uint(v, &mut want);
    let plan = gen::plan(src);
    let out = |f: &mut dyn FnMut(&mut Dev) -> stream::Result<()>| -> Result<Vec<u8>, String> {
        let mut d = Dev::new(Mem::new(vec![]).with_plan(plan.clone()));
        f(&mut d).map_err(|e| format!("{}: {}", v, e))?;
        Ok(d.data())
    };
    let got = out(&mut |d| wire::encode_u64(d, v))?;
    ensure!(got == want, "encode_u64({}) wrote [{}] instead of [{}]", v, hex(&got), hex(&want));
    let n = if v == 0 { 1 } else { (64 - v.leading_zeros() as usize + 6) / 7 };
    ensure!(got.len() == n, "encode_u64({}) took {} bytes instead of {}", v, got.len(), n);
    let mut tail = got.clone();
    tail.extend_from_slice(&src.bytes(4));
    let (r, p) = decode_one(src, &tail, false);
    ensure!(r == Ok(v) && p == n as u64, "decode_u64([{}]) = {:?} after {} bytes instead of {}", hex(&tail), r, p, v);
    // every proper prefix is incomplete
    let k = src.below(n as u64) as usize;
    let (r, _) = decode_one(src, &got[..k], false);
    ensure!(r == Err(EK::K(K::Stream(SK::Eof))), "decode_u64([{}]) = {:?}", hex(&got[..k]), r);

    let f = out(&mut |d| wire::encode_fixed_u64(d, v))?;
    let mut w = want.clone();
    while w.len() < 10 { let l = w.len(); w[l - 1] |= 0x80; w.push(0); }
    ensure!(f == w, "encode_fixed_u64({}) wrote [{}] instead of [{}]", v, hex(&f), hex(&w));
    let mut tail = f.clone();
    tail.extend_from_slice(&src.bytes(4));
    let (r, p) = decode_one(src, &tail, false);
    ensure!(r == Ok(v) && p == 10, "decode_u64([{}]) = {:?} after {} bytes instead of {}", hex(&tail), r, p, v);

    // signed
    let i = v as i64;
    let z = wire::zigzag(i);
    ensure!(z == zz(i), "zigzag({}) = {} instead of {}", i, z, zz(i));
    ensure!(wire::unzigzag(z) == i, "unzigzag(zigzag({})) = {}", i, wire::unzigzag(z));
    let u = wire::unzigzag(v);
    ensure!(u == unzz(v), "unzigzag({}) = {} instead of {}", v, u, unzz(v));
    ensure!(wire::zigzag(u) == v, "zigzag(unzigzag({})) = {}", v, wire::zigzag(u));
    let j = value(src) as i64;
    let (a, b) = ((i as i128).abs(), (j as i128).abs());
    ensure!(a == b || (a < b) == (wire::zigzag(i) < wire::zigzag(j)), "zigzag({}) = {} but zigzag({}) = {}", i, wire::zigzag(i), j, wire::zigzag(j));
    let got = out(&mut |d| wire::encode_i64(d, i))?;
    let mut want = vec![];
    put_uint(zz(i), &mut want);
    ensure!(got == want, "encode_i64({}) wrote [{}] instead of [{}]", i, hex(&got), hex(&want));
    let (r, p) = decode_one(src, &got, true);
    ensure!(r == Ok(i as u64) && p == got.len() as u64, "decode_i64([{}]) = {:?} instead of {}", hex(&got), r.map(|x| x as i64), i);
    let (r, p) = decode_one(src, &f, true);
    ensure!(r == Ok(unzz(v) as u64) && p == 10, "decode_i64([{}]) = {:?} instead of {}", hex(&f), r.map(|x| x as i64), unzz(v));
    if n > 1 { cx.nontrivial(&v.to_le_bytes()); cx.nontrivial(&j.to_le_bytes()); cx.desc(|| format!("{} / {} / {}", v, i, j)); }
    Ok(())
}

/// Any encoding, valid or not.
fn encoding(src: &mut Src) -> Vec<u8> {
    let mut b = vec![];
    match src.below(6) {
        // a denormal value, up to just beyond the limit
        0 => {
            put_uint(value(src), &mut b);
            let l = b.len();
            let total = match src.below(3) { 0 => src.range(l, l + 6), 1 => src.range(250, 260), _ => src.range(l, 257) };
            while b.len() < total { let l = b.len(); b[l - 1] |= 0x80; b.push(0); }
        }
        // a few set groups anywhere
        1 => {
            let n = match src.below(3) { 0 => src.range(1, 14), 1 => src.range(9, 11), _ => src.range(1, 262) };
            b = vec![0x80; n];
            for _ in 0..src.below(4) {
                let i = match src.below(3) { 0 => 8 + src.below(4) as usize, _ => src.below(n as u64) as usize }.min(n - 1);
                b[i] = 0x80 | match src.below(3) { 0 => 1u8 << src.below(7), 1 => 127, _ => src.below(128) as u8 };
            }
            if src.chance(5, 6) { b[n - 1] &= 0x7F; }
        }
        // around the top of the range
        2 => {
            b = vec![0xFF; 9];
            for _ in 0..src.below(3) { let i = src.below(9) as usize; b[i] = 0x80 | src.below(128) as u8; }
            b.push(src.below(4) as u8);
            if src.coin() { for _ in 0..src.below(5) { let l = b.len(); b[l - 1] |= 0x80; b.push(src.below(2) as u8); } }
        }
        3 => { let n = src.range(1, 12); for _ in 0..n { b.push(0x80 | src.byte()); } b.push(src.below(128) as u8); }
        4 => { b = src.bytes(20); }
        _ => { b = vec![0x80 | src.byte(); 1]; for _ in 0..src.range(0, 300) { b.push(0x80); } if src.coin() { b.push(src.below(3) as u8); } }
    }
    b
}

fn any(src: &mut Src, cx: &mut Cx) -> Res {
    let b = encoding(src);
    let mut rs = RS::new(&b);
    let want = rs.int().map_err(|k| EK::K(K::Stream(k)));
    cx.label(match want { Ok(_) if rs.pos > 10 => "accepted beyond ten bytes", Ok(_) => "accepted", Err(EK::K(K::Stream(SK::Eof))) => "incomplete", Err(EK::K(K::Stream(SK::Overwide))) => "overwide", _ => "overflow" });
    let (r, p) = decode_one(src, &b, false);
    ensure!(r == want && (r.is_err() || p == rs.pos), "decode_u64([{}]) = {:?} after {} bytes instead of {:?} after {}", hex(&b), r, p, want, rs.pos);
    let (r, p) = decode_one(src, &b, true);
    let w = want.clone().map(|u| unzz(u) as u64);
    ensure!(r == w && (r.is_err() || p == rs.pos), "decode_i64([{}]) = {:?} after {} bytes instead of {:?}", hex(&b), r, p, w);
    // within a stream
    let ty = src.below(3);
    let mut d = vec![match ty { 0 => 0x41u8, 1 => 1, _ => 0x81 }];
    d.extend_from_slice(&b);
    let dev = Dev::new(Mem::new(d.clone()).with_plan(gen::plan(src)));
    let mut s = Stream::new(dev);
    let got = match s.next_field() {
        Ok(Some(f)) => Ok(match f.value { Value::Integer(n) => n, Value::Enum(n, _) => n, Value::Blob(ref b) => b.len(), Value::Struct(_) => return Err(format!("[{}] read as a struct", hex(&d))) }),
        Ok(None) => return Err(format!("[{}]: no field", hex(&d))),
        Err(e) => Err(skind(&e)),
    };
    let want = match want { Ok(n) if ty == 2 && (rs.pos + 1).checked_add(n).is_none() => Err(EK::K(K::Stream(SK::Overlong))), w => w };
    ensure!(got == want, "field [{}] read as {:?} instead of {:?}", hex(&d), got, want);
    if want.is_ok() { ensure!(s.pos() == rs.pos + 1, "field [{}]: position {} instead of {}", hex(&d), s.pos(), rs.pos + 1); }
    if b.len() >= 2 { cx.nontrivial(&d); cx.desc(|| format!("[{}] -> {:?}", hex(&b), want)); }
    Ok(())
}

fn narrow(src: &mut Src, cx: &mut Cx) -> Res {
    let v = value(src);
    let ty = if src.chance(1, 8) { 1 + src.below(3) } else { 0 };
    let mut d = vec![match ty { 0 => 0x41u8, 1 => 0x01, 2 => 0x81, _ => 0xC1 }];
    let extra = if src.chance(1, 6) { src.range(1, 5) } else { 0 };
    if ty < 2 { put_uint_long(v, extra, &mut d); } else { d.push(0); }
    let mut s = Stream::from_slice(&d[..]);
    let mut f = s.next_field().map_err(|e| e.to_string())?.ok_or("no field")?;
    let name = ["Integer", "Enum", "Blob", "Struct"][ty as usize];
    let bad = |exp: &'static str| EK::K(K::Stream(SK::UnexpectedType(exp, name)));
    let out = EK::K(K::Stream(SK::IntOutOfRange));
    let mut oks = 0;
    let mut errs = 0;
    macro_rules! conv { ($($m:ident $fits:expr, $as:expr;)*) => { $( {
        let got = f.value.$m().map_err(|e| skind(&e));
        let want = if ty != 0 { Err(bad("Integer")) } else if $fits { Ok($as) } else { Err(out.clone()) };
        if want.is_ok() { oks += 1 } else { errs += 1 }
        ensure!(got == want, "{} of {} {}: {:?} instead of {:?}", stringify!($m), name, v, got, want);
    } )* } }
    let i = unzz(v);
    conv! {
        to_u8 v < 256, v as u8;
        to_u16 v < 65536, v as u16;
        to_u32 v < 1 << 32, v as u32;
        to_u64 true, v;
        to_usize v <= usize::MAX as u64, v as usize;
        to_i8 v < 256, i as i8;
        to_i16 v < 65536, i as i16;
        to_i32 v < 1 << 32, i as i32;
        to_i64 true, i;
        to_isize true, i as isize;
        to_bool v < 2, v == 1;
        to_null v == 0, ();
    }
    if ty == 0 { ensure!(f.value.to_i64().map_err(|e| e.to_string())? as i128 == { let h = (v >> 1) as i128; if v & 1 == 1 { -h - 1 } else { h } }, "to_i64 of {}", v); }
    let b = f.value.to_blob().map(|b| b.len()).map_err(|e| skind(&e));
    let w = if ty == 2 { Ok(0) } else { Err(bad("Blob")) };
    ensure!(b == w, "to_blob of {}: {:?} instead of {:?}", name, b, w);
    let b = f.value.to_struct().map(|_| ()).map_err(|e| skind(&e));
    let w = if ty == 3 { Ok(()) } else { Err(bad("Struct")) };
    ensure!(b == w, "to_struct of {}: {:?} instead of {:?}", name, b, w);
    let b = f.value.to_enum().map(|x| x.0).map_err(|e| skind(&e));
    let w = if ty == 1 { Ok(v) } else { Err(bad("Enum")) };
    ensure!(b == w, "to_enum of {}: {:?} instead of {:?}", name, b, w);
    cx.label(name);
    if oks > 0 && errs > 0 { cx.nontrivial(&d); cx.desc(|| format!("{} / {}: {} conversions succeed, {} fail", v, i, oks, errs)); }
    Ok(())
}

fn descriptors(src: &mut Src, cx: &mut Cx) -> Res {
    let b = src.byte();
    let p = Descriptor(b).parse();
    let tag = b % 64;
    let want = match (tag, b / 64) {
        (0, 0) => ParsedDescriptor::Special(SpecialType::EndOfStruct),
        (0, 1) => ParsedDescriptor::Special(SpecialType::EndOfDoc),
        (0, 2) => ParsedDescriptor::Special(SpecialType::Exception),
        (0, _) => ParsedDescriptor::Special(SpecialType::Padding),
        (_, 0) => ParsedDescriptor::Pair(DescriptorType::Enum, tag),
        (_, 1) => ParsedDescriptor::Pair(DescriptorType::Integer, tag),
        (_, 2) => ParsedDescriptor::Pair(DescriptorType::Blob, tag),
        (_, _) => ParsedDescriptor::Pair(DescriptorType::Struct, tag),
    };
    ensure!(p == want, "descriptor {:02x} parsed as {:?} instead of {:?}", b, p, want);
    ensure!(Descriptor::from(p).0 == b, "descriptor {:02x} parsed and written as {:02x}", b, Descriptor::from(p).0);
    let mut d = Dev::new(Mem::new(vec![]).with_plan(gen::plan(src)));
    wire::encode_descriptor(&mut d, Descriptor(b)).map_err(|e| e.to_string())?;
    ensure!(d.data() == [b], "descriptor {:02x} written as [{}]", b, hex(&d.data()));
    let mut two = &[b, 7][..];
    let r = wire::decode_descriptor(&mut two).map_err(|e| e.to_string())?;
    ensure!(r.0 == b && two == [7], "descriptor {:02x} read as {:02x}", b, r.0);
    let r = wire::decode_descriptor(&mut &[][..]).map_err(|e| skind(&e));
    ensure!(r == Err(EK::K(K::Stream(SK::Eof))), "empty descriptor: {:?}", r);
    // tags that do not exist
    let t = if src.coin() { 0 } else { 64 + src.below(192) as u8 };
    let ty = *src.pick(&[DescriptorType::Enum, DescriptorType::Integer, DescriptorType::Blob, DescriptorType::Struct]);
    let r = catch(|| Descriptor::from(ParsedDescriptor::Pair(ty, t)));
    ensure!(r.is_err(), "{:?} with tag {} became descriptor {:?}", ty, t, r);
    cx.nontrivial(&[b, t, ty as u8]);
    cx.desc(|| format!("{:02x} <-> {:?}; tag {}", b, p, t));
    Ok(())
}
