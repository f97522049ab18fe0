//! Exact serialised form.
//! technique: property-based differential testing against an independent reference encoder
use super::*;
use fourleaf::ser::Serialize;

pub fn prop() -> Prop {
    Prop {
        id: "C02",
        rule: "a case counts as non-trivial when the serialised form is longer than two bytes; distinct by type, entry point and bytes",
        facets: vec![
            facet("bytes", bytes, 2_500_000, 50_000_000),
            facet("wide", super::wide::bytes, 200, 40_000),
            facet("same", same, 1_500_000, 40_000_000),
            facet("arrays", |s, c| arrays::case(s, c, arrays::What::Bytes), 300, 10_000),
            big!("big-bytes", bytes, 600, 6_000),
            big!("big-same", same, 300, 6_000),
        ],
    }
}

fn bytes(src: &mut Src, cx: &mut Cx) -> Res {
    let e = pick_entry(src);
    let v = gen::val(src, &e.copy);
    let tag = 1 + src.below(63) as u8;
    let plan = gen::plan(src);
    let ops = [SerOp::ToStream, SerOp::ToStreamRef, SerOp::Body, SerOp::BodyRc, SerOp::Elem(tag), SerOp::ElemBox(tag),
               SerOp::ElemRefMut(tag), SerOp::Field(tag), SerOp::Field(tag)];
    let mut k = src.below(11) as usize;
    if e.no_field && (k == 7 || k == 8) { k = 4; }
    let (got, orig, how) = match k {
        9 => { let (b, o) = (e.to_vec)(&v).map_err(|x| format!("{}: {}", e.name, x))?; (b, o, "to_vec".to_string()) }
        10 => {
            let d = Dev::new(Mem::new(vec![]).with_plan(plan));
            let o = (e.to_writer)(&v, d.clone()).map_err(|x| format!("{}: {}", e.name, x))?;
            (d.data(), o, "to_writer".to_string())
        }
        k => {
            let d = Dev::new(Mem::new(vec![]).with_plan(plan));
            let mut s = Stream::new(d.clone());
            let o = (e.ser)(&v, ops[k], &mut s).map_err(|x| format!("{}: {}", e.name, x))?;
            s.commit().map_err(|x| x.to_string())?;
            ensure!(s.pos() == d.data().len() as u64, "{}: stream position {} after writing {} bytes", e.name, s.pos(), d.data().len());
            (d.data(), o, format!("{:?}", ops[k]))
        }
    };
    // `orig` lists unordered collections in their actual iteration order
    let want = match if k < 9 { Some(ops[k]) } else { None } {
        Some(SerOp::Elem(t)) | Some(SerOp::ElemBox(t)) | Some(SerOp::ElemRefMut(t)) => {
            let mut o = vec![];
            write_field(t, &enc_elem(&e.copy, &orig), &mut Plain, &mut o);
            o
        }
        Some(SerOp::Field(t)) => {
            let mut items = vec![];
            enc_field(&e.copy, &orig, t, &mut items);
            let mut o = vec![];
            write_items(&items, &mut Plain, &mut o);
            o
        }
        _ => encode(&e.copy, &orig),
    };
    cx.label(match k { 9 | 10 | 0 | 1 | 2 | 3 => "body", 7 | 8 => "field", _ => "element" });
    if got.len() > 2 {
        cx.nontrivial(e.name.as_bytes());
        cx.nontrivial(&got);
        cx.nontrivial(&[k as u8]);
        cx.desc(|| format!("{} {}: {}", e.name, how, hex(&got)));
    }
    ensure!(got == want, "{} {}: {} serialised as [{}], the format prescribes [{}]", e.name, how, short(&orig), hex(&got), hex(&want));
    Ok(())
}

fn ser<T: Serialize + ?Sized>(t: &T, op: u64, tag: u8) -> Result<Vec<u8>, String> {
    let d = Dev::of(&[]);
    let mut s = Stream::new(d.clone());
    match op {
        0 => t.serialize_body(&mut s),
        1 => t.serialize_element(&mut s, tag),
        _ => t.serialize_field(&mut s, tag),
    }.map_err(|x| x.to_string())?;
    s.commit().map_err(|x| x.to_string())?;
    Ok(d.data())
}

/// References, smart pointers and unsized types serialise as what they hold.
fn same(src: &mut Src, cx: &mut Cx) -> Res {
    use std::borrow::Cow;
    use std::rc::Rc;
    use std::sync::Arc;
    let op = src.below(3);
    let tag = 1 + src.below(63) as u8;
    macro_rules! agree {
        ($base:expr; $($x:expr),* $(,)*) => { {
            let b = ser(&$base, op, tag)?;
            cx.nontrivial(&b);
            cx.nontrivial(&[op as u8, tag]);
            cx.desc(|| hex(&b));
            $({ let o = ser(&$x, op, tag)?;
                ensure!(o == b, "{} serialises as [{}] but {} as [{}]", stringify!($base), hex(&b), stringify!($x), hex(&o)); })*
            b
        } }
    }
    match src.below(5) {
        0 => {
            let mut v = <Vec<u16> as M>::from_val(&gen::val(src, &<Vec<u16> as M>::schema(false)));
            cx.label("u16 slice");
            let w = v.clone();
            let mut w2 = v.clone();
            let b = agree!(v; &v, &&v, w[..], &w[..], &mut w2[..], Box::new(w.clone()), Rc::new(&w), Arc::new(w.clone()), Cow::Borrowed(&w[..]),
                   Cow::<[u16]>::Owned(w.clone()), w.iter().cloned().collect::<std::collections::VecDeque<u16>>(),
                   w.iter().cloned().collect::<std::collections::LinkedList<u16>>());
            let _ = &mut v;
            let mut items = vec![];
            let s = <Vec<u16> as M>::schema(false);
            let val = w.to_val();
            let mut want = vec![];
            match op {
                0 => want = encode(&s, &val),
                1 => write_field(tag, &enc_elem(&s, &val), &mut Plain, &mut want),
                _ => { enc_field(&s, &val, tag, &mut items); write_items(&items, &mut Plain, &mut want) }
            }
            ensure!(b == want, "u16 slice: [{}], expected [{}]", hex(&b), hex(&want));
        }
        1 => {
            let v = src.bytes(300);
            cx.label("bytes");
            agree!(v; &v, v[..], &v[..], Box::new(v.clone()), Cow::Borrowed(&v[..]), Rc::new(v.clone()));
        }
        2 => {
            let v = src.string(200);
            cx.label("string");
            agree!(v; &v, v[..], &v[..], Box::new(v.clone()), Cow::Borrowed(&v[..]), Arc::new(v.clone()), v.as_bytes(), v.as_bytes().to_vec(),
                   fourleaf::adapt::Copied(v.clone()));
        }
        3 => {
            let v = <Order as M>::from_val(&gen::val(src, &Order::schema(false)));
            cx.label("enum");
            let mut v2 = v.clone();
            agree!(v; &v, &&v, &mut v2, Box::new(v.clone()), Rc::new(v.clone()), fourleaf::adapt::Copied(&v), WrapEnum(v.clone()));
        }
        _ => {
            let a = [src.uint(32) as u32, src.uint(32) as u32, src.uint(32) as u32];
            cx.label("array");
            agree!(a; a.to_vec(), a[..], &a, Box::new(a));
        }
    }
    Ok(())
}
