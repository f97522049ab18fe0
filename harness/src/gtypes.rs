//! Generated by tools/gen_types.py; do not edit.
//! Random types declared through the macro, with their schemas.

use super::*;

#[derive(Clone, Debug)]
pub struct G0 { pub f0_map: i8, pub f1_map: Rc<u8>, pub f2_map: u16 }
fourleaf_retrofit!(struct G0 : {} {} {
    |_context, this|
    [33] f0_map: i8 = &this.f0_map,
    [63] f1_map: Rc<u8> = &this.f1_map,
    [1] f2_map: u16 = &this.f2_map,
    { Ok(G0 { f0_map: f0_map, f1_map: f1_map, f2_map: f2_map }) }
});
impl M for G0 {
    fn schema(_b: bool) -> Schema { Schema::Struct(Arc::new(StructDef { name: "G0", body: fields(vec![(33, "f0_map", <i8 as M>::schema(_b)), (63, "f1_map", <Rc<u8> as M>::schema(_b)), (1, "f2_map", <u16 as M>::schema(_b))]), check: None })) }
    fn to_val(&self) -> Val { Val::Struct(vec![self.f0_map.to_val(), self.f1_map.to_val(), self.f2_map.to_val()]) }
    fn from_val(v: &Val) -> Self { let s = st(v); G0 { f0_map: M::from_val(&s[0]), f1_map: M::from_val(&s[1]), f2_map: M::from_val(&s[2]) } }
}

#[derive(Clone, Debug)]
pub struct G1 { pub f0_x: G0, pub f1_v: G0, pub f2_name: bool, pub f3_list: u64, pub f4_x: LinkedList<Vec<u8>>, pub f5_v: HashMap<Vec<u8>, u16, BH>, pub rest: UnknownFields<'static> }
fourleaf_retrofit!(struct G1 : {} {} {
    |_context, this|
    [61] f0_x: G0 = &this.f0_x,
    [9] f1_v: G0 = &this.f1_v,
    [35] f2_name: bool = &this.f2_name,
    [1] f3_list: u64 = &this.f3_list,
    [16] f4_x: LinkedList<Vec<u8>> = &this.f4_x,
    [41] f5_v: HashMap<Vec<u8>, u16, BH> = &this.f5_v,
    (?) rest: Copied<UnknownFields<'static>> = &this.rest,
    { Ok(G1 { f0_x: f0_x, f1_v: f1_v, f2_name: f2_name, f3_list: f3_list, f4_x: f4_x, f5_v: f5_v, rest: rest.0 }) }
});
impl M for G1 {
    fn schema(_b: bool) -> Schema { Schema::Struct(Arc::new(StructDef { name: "G1", body: with_unk(fields(vec![(61, "f0_x", <G0 as M>::schema(_b)), (9, "f1_v", <G0 as M>::schema(_b)), (35, "f2_name", <bool as M>::schema(_b)), (1, "f3_list", <u64 as M>::schema(_b)), (16, "f4_x", <LinkedList<Vec<u8>> as M>::schema(_b)), (41, "f5_v", <HashMap<Vec<u8>, u16, BH> as M>::schema(_b))]), "rest", true), check: None })) }
    fn to_val(&self) -> Val { Val::Struct(vec![self.f0_x.to_val(), self.f1_v.to_val(), self.f2_name.to_val(), self.f3_list.to_val(), self.f4_x.to_val(), self.f5_v.to_val(), self.rest.to_val()]) }
    fn from_val(v: &Val) -> Self { let s = st(v); G1 { f0_x: M::from_val(&s[0]), f1_v: M::from_val(&s[1]), f2_name: M::from_val(&s[2]), f3_list: M::from_val(&s[3]), f4_x: M::from_val(&s[4]), f5_v: M::from_val(&s[5]), rest: M::from_val(&s[6]) } }
}

#[derive(Clone, Debug)]
pub struct G2 { pub f0_v: BTreeSet<Option<u16>>, pub f1_x: [i16; 5], pub f2_v: char, pub rest: UnknownFields<'static> }
fourleaf_retrofit!(struct G2 : {} {} {
    |_context, this|
    [17] f0_v: BTreeSet<Option<u16>> = &this.f0_v,
    [48] f1_x: [i16; 5] = &this.f1_x,
    [47] f2_v: char = &this.f2_v,
    (?) rest: Copied<UnknownFields<'static>> = &this.rest,
    { Ok(G2 { f0_v: f0_v, f1_x: f1_x, f2_v: f2_v, rest: rest.0 }) }
});
impl M for G2 {
    fn schema(_b: bool) -> Schema { Schema::Struct(Arc::new(StructDef { name: "G2", body: with_unk(fields(vec![(17, "f0_v", <BTreeSet<Option<u16>> as M>::schema(_b)), (48, "f1_x", <[i16; 5] as M>::schema(_b)), (47, "f2_v", <char as M>::schema(_b))]), "rest", true), check: None })) }
    fn to_val(&self) -> Val { Val::Struct(vec![self.f0_v.to_val(), self.f1_x.to_val(), self.f2_v.to_val(), self.rest.to_val()]) }
    fn from_val(v: &Val) -> Self { let s = st(v); G2 { f0_v: M::from_val(&s[0]), f1_x: M::from_val(&s[1]), f2_v: M::from_val(&s[2]), rest: M::from_val(&s[3]) } }
}

#[derive(Clone, Debug)]
pub struct G3 { pub f0_map: u8, pub f1_map: G2, pub f2_len: u8, pub f3_len: BTreeSet<(u8, i8)>, pub f4_x: G2, pub f5_v: i8, pub f6_len: G1, pub f7_name: PhantomData<u8> }
fourleaf_retrofit!(struct G3 : {} {} {
    |_context, this|
    [17] f0_map: u8 = &this.f0_map,
    [21] f1_map: G2 = &this.f1_map,
    [31] f2_len: u8 = &this.f2_len,
    [35] f3_len: BTreeSet<(u8, i8)> = &this.f3_len,
    [36] f4_x: G2 = &this.f4_x,
    [50] f5_v: i8 = &this.f5_v,
    [54] f6_len: G1 = &this.f6_len,
    [55] f7_name: PhantomData<u8> = &this.f7_name,
    { Ok(G3 { f0_map: f0_map, f1_map: f1_map, f2_len: f2_len, f3_len: f3_len, f4_x: f4_x, f5_v: f5_v, f6_len: f6_len, f7_name: f7_name }) }
});
impl M for G3 {
    fn schema(_b: bool) -> Schema { Schema::Struct(Arc::new(StructDef { name: "G3", body: fields(vec![(17, "f0_map", <u8 as M>::schema(_b)), (21, "f1_map", <G2 as M>::schema(_b)), (31, "f2_len", <u8 as M>::schema(_b)), (35, "f3_len", <BTreeSet<(u8, i8)> as M>::schema(_b)), (36, "f4_x", <G2 as M>::schema(_b)), (50, "f5_v", <i8 as M>::schema(_b)), (54, "f6_len", <G1 as M>::schema(_b)), (55, "f7_name", <PhantomData<u8> as M>::schema(_b))]), check: None })) }
    fn to_val(&self) -> Val { Val::Struct(vec![self.f0_map.to_val(), self.f1_map.to_val(), self.f2_len.to_val(), self.f3_len.to_val(), self.f4_x.to_val(), self.f5_v.to_val(), self.f6_len.to_val(), self.f7_name.to_val()]) }
    fn from_val(v: &Val) -> Self { let s = st(v); G3 { f0_map: M::from_val(&s[0]), f1_map: M::from_val(&s[1]), f2_len: M::from_val(&s[2]), f3_len: M::from_val(&s[3]), f4_x: M::from_val(&s[4]), f5_v: M::from_val(&s[5]), f6_len: M::from_val(&s[6]), f7_name: M::from_val(&s[7]) } }
}

#[derive(Clone, Debug)]
pub enum G4 { V0(PhantomData<u8>, Arc<()>, i16, UnknownFields<'static>), V1(BTreeMap<u64, HashMap<u16, i32, BH>>, PhantomData<u8>), V2((), SocketAddr, Rc<u32>, UnknownFields<'static>), Other(u64, HashMap<Vec<u8>, G3, BH>, UnknownFields<'static>) }
fourleaf_retrofit!(enum G4 : {} {} {
    |_context|
    [456509005491961] G4::V0(ref f0_len, ref f1_list, ref f2_map, ref rest) => {
        [56] f0_len: PhantomData<u8> = f0_len,
        [29] f1_list: Arc<()> = f1_list,
        [1] f2_map: i16 = f2_map,
        (?) rest: Copied<UnknownFields<'static>> = rest,
        { Ok(G4::V0(f0_len, f1_list, f2_map, rest.0)) }
    },
    [255] G4::V1(ref f0_name, ref f1_v) => {
        [63] f0_name: BTreeMap<u64, HashMap<u16, i32, BH>> = f0_name,
        [23] f1_v: PhantomData<u8> = f1_v,
        { Ok(G4::V1(f0_name, f1_v)) }
    },
    [127] G4::V2(ref f0_len, ref f1_x, ref f2_x, ref rest) => {
        [4] f0_len: () = f0_len,
        [15] f1_x: SocketAddr = f1_x,
        [37] f2_x: Rc<u32> = f2_x,
        (?) rest: Copied<UnknownFields<'static>> = rest,
        { Ok(G4::V2(f0_len, f1_x, f2_x, rest.0)) }
    },
    (?) G4::Other(disc, ref f0_name, ref rest) => {
        (=) disc: u64 = disc,
        [57] f0_name: HashMap<Vec<u8>, G3, BH> = f0_name,
        (?) rest: Copied<UnknownFields<'static>> = rest,
        { Ok(G4::Other(disc, f0_name, rest.0)) }
    },
});
impl M for G4 {
    fn schema(_b: bool) -> Schema { enumeration("G4", vec![(456509005491961, with_unk(fields(vec![(56, "f0_len", <PhantomData<u8> as M>::schema(_b)), (29, "f1_list", <Arc<()> as M>::schema(_b)), (1, "f2_map", <i16 as M>::schema(_b))]), "rest", true)), (255, fields(vec![(63, "f0_name", <BTreeMap<u64, HashMap<u16, i32, BH>> as M>::schema(_b)), (23, "f1_v", <PhantomData<u8> as M>::schema(_b))])), (127, with_unk(fields(vec![(4, "f0_len", <() as M>::schema(_b)), (15, "f1_x", <SocketAddr as M>::schema(_b)), (37, "f2_x", <Rc<u32> as M>::schema(_b))]), "rest", true))], Some(with_unk(fields(vec![(57, "f0_name", <HashMap<Vec<u8>, G3, BH> as M>::schema(_b))]), "rest", true))) }
    fn to_val(&self) -> Val {
        match *self {
            G4::V0(ref f0_len, ref f1_list, ref f2_map, ref rest) => Val::Enum(456509005491961, vec![f0_len.to_val(), f1_list.to_val(), f2_map.to_val(), rest.to_val()]),
            G4::V1(ref f0_name, ref f1_v) => Val::Enum(255, vec![f0_name.to_val(), f1_v.to_val()]),
            G4::V2(ref f0_len, ref f1_x, ref f2_x, ref rest) => Val::Enum(127, vec![f0_len.to_val(), f1_x.to_val(), f2_x.to_val(), rest.to_val()]),
            G4::Other(disc, ref f0_name, ref rest) => Val::Enum(disc, vec![f0_name.to_val(), rest.to_val()]),
        }
    }
    fn from_val(v: &Val) -> Self {
        match en(v) {
            (456509005491961, s) => G4::V0(M::from_val(&s[0]), M::from_val(&s[1]), M::from_val(&s[2]), M::from_val(&s[3])),
            (255, s) => G4::V1(M::from_val(&s[0]), M::from_val(&s[1])),
            (127, s) => G4::V2(M::from_val(&s[0]), M::from_val(&s[1]), M::from_val(&s[2]), M::from_val(&s[3])),
            (d, s) => G4::Other(d, M::from_val(&s[0]), M::from_val(&s[1])),
        }
    }
}

#[derive(Clone, Debug)]
pub enum G5 { V0(bool, usize), V1(BTreeSet<bool>), Other(u64, HashMap<i32, Result<G0, char>, BH>, Result<G2, G2>, UnknownFields<'static>) }
fourleaf_retrofit!(enum G5 : {} {} {
    |_context|
    [16262270953216501] G5::V0(ref f0_x, ref f1_list) => {
        [63] f0_x: bool = f0_x,
        [61] f1_list: usize = f1_list,
        { Ok(G5::V0(f0_x, f1_list)) }
    },
    [127] G5::V1(ref f0_x) => {
        [5] f0_x: BTreeSet<bool> = f0_x,
        { Ok(G5::V1(f0_x)) }
    },
    (?) G5::Other(disc, ref f0_x, ref f1_map, ref rest) => {
        (=) disc: u64 = disc,
        [58] f0_x: HashMap<i32, Result<G0, char>, BH> = f0_x,
        [14] f1_map: Result<G2, G2> = f1_map,
        (?) rest: Copied<UnknownFields<'static>> = rest,
        { Ok(G5::Other(disc, f0_x, f1_map, rest.0)) }
    },
});
impl M for G5 {
    fn schema(_b: bool) -> Schema { enumeration("G5", vec![(16262270953216501, fields(vec![(63, "f0_x", <bool as M>::schema(_b)), (61, "f1_list", <usize as M>::schema(_b))])), (127, fields(vec![(5, "f0_x", <BTreeSet<bool> as M>::schema(_b))]))], Some(with_unk(fields(vec![(58, "f0_x", <HashMap<i32, Result<G0, char>, BH> as M>::schema(_b)), (14, "f1_map", <Result<G2, G2> as M>::schema(_b))]), "rest", true))) }
    fn to_val(&self) -> Val {
        match *self {
            G5::V0(ref f0_x, ref f1_list) => Val::Enum(16262270953216501, vec![f0_x.to_val(), f1_list.to_val()]),
            G5::V1(ref f0_x) => Val::Enum(127, vec![f0_x.to_val()]),
            G5::Other(disc, ref f0_x, ref f1_map, ref rest) => Val::Enum(disc, vec![f0_x.to_val(), f1_map.to_val(), rest.to_val()]),
        }
    }
    fn from_val(v: &Val) -> Self {
        match en(v) {
            (16262270953216501, s) => G5::V0(M::from_val(&s[0]), M::from_val(&s[1])),
            (127, s) => G5::V1(M::from_val(&s[0])),
            (d, s) => G5::Other(d, M::from_val(&s[0]), M::from_val(&s[1]), M::from_val(&s[2])),
        }
    }
}

#[derive(Clone, Debug)]
pub enum G6 { V0([u64; 1], UnknownFields<'static>), V1(Rc<PhantomData<u8>>), V2(G3, char, UnknownFields<'static>), V3(i64), V4(G3, IpAddr, PhantomData<u8>, G1, HashMap<bool, Vec<i64>, BH>), V5, Other(u64, LinkedList<Vec<()>>, UnknownFields<'static>) }
fourleaf_retrofit!(enum G6 : {} {} {
    |_context|
    [18446744073709551615] G6::V0(ref f0_name, ref rest) => {
        [12] f0_name: [u64; 1] = f0_name,
        (?) rest: Copied<UnknownFields<'static>> = rest,
        { Ok(G6::V0(f0_name, rest.0)) }
    },
    [256] G6::V1(ref f0_x) => {
        [52] f0_x: Rc<PhantomData<u8>> = f0_x,
        { Ok(G6::V1(f0_x)) }
    },
    [3] G6::V2(ref f0_list, ref f1_list, ref rest) => {
        [54] f0_list: G3 = f0_list,
        [58] f1_list: char = f1_list,
        (?) rest: Copied<UnknownFields<'static>> = rest,
        { Ok(G6::V2(f0_list, f1_list, rest.0)) }
    },
    [64] G6::V3(ref f0_v) => {
        [18] f0_v: i64 = f0_v,
        { Ok(G6::V3(f0_v)) }
    },
    [128] G6::V4(ref f0_name, ref f1_map, ref f2_list, ref f3_len, ref f4_x) => {
        [6] f0_name: G3 = f0_name,
        [54] f1_map: IpAddr = f1_map,
        [19] f2_list: PhantomData<u8> = f2_list,
        [55] f3_len: G1 = f3_len,
        [5] f4_x: HashMap<bool, Vec<i64>, BH> = f4_x,
        { Ok(G6::V4(f0_name, f1_map, f2_list, f3_len, f4_x)) }
    },
    [55] G6::V5 => {
        { Ok(G6::V5) }
    },
    (?) G6::Other(disc, ref f0_map, ref rest) => {
        (=) disc: u64 = disc,
        [32] f0_map: LinkedList<Vec<()>> = f0_map,
        (?) rest: Copied<UnknownFields<'static>> = rest,
        { Ok(G6::Other(disc, f0_map, rest.0)) }
    },
});
impl M for G6 {
    fn schema(_b: bool) -> Schema { enumeration("G6", vec![(18446744073709551615, with_unk(fields(vec![(12, "f0_name", <[u64; 1] as M>::schema(_b))]), "rest", true)), (256, fields(vec![(52, "f0_x", <Rc<PhantomData<u8>> as M>::schema(_b))])), (3, with_unk(fields(vec![(54, "f0_list", <G3 as M>::schema(_b)), (58, "f1_list", <char as M>::schema(_b))]), "rest", true)), (64, fields(vec![(18, "f0_v", <i64 as M>::schema(_b))])), (128, fields(vec![(6, "f0_name", <G3 as M>::schema(_b)), (54, "f1_map", <IpAddr as M>::schema(_b)), (19, "f2_list", <PhantomData<u8> as M>::schema(_b)), (55, "f3_len", <G1 as M>::schema(_b)), (5, "f4_x", <HashMap<bool, Vec<i64>, BH> as M>::schema(_b))])), (55, fields(vec![]))], Some(with_unk(fields(vec![(32, "f0_map", <LinkedList<Vec<()>> as M>::schema(_b))]), "rest", true))) }
    fn to_val(&self) -> Val {
        match *self {
            G6::V0(ref f0_name, ref rest) => Val::Enum(18446744073709551615, vec![f0_name.to_val(), rest.to_val()]),
            G6::V1(ref f0_x) => Val::Enum(256, vec![f0_x.to_val()]),
            G6::V2(ref f0_list, ref f1_list, ref rest) => Val::Enum(3, vec![f0_list.to_val(), f1_list.to_val(), rest.to_val()]),
            G6::V3(ref f0_v) => Val::Enum(64, vec![f0_v.to_val()]),
            G6::V4(ref f0_name, ref f1_map, ref f2_list, ref f3_len, ref f4_x) => Val::Enum(128, vec![f0_name.to_val(), f1_map.to_val(), f2_list.to_val(), f3_len.to_val(), f4_x.to_val()]),
            G6::V5 => Val::Enum(55, vec![]),
            G6::Other(disc, ref f0_map, ref rest) => Val::Enum(disc, vec![f0_map.to_val(), rest.to_val()]),
        }
    }
    fn from_val(v: &Val) -> Self {
        match en(v) {
            (18446744073709551615, s) => G6::V0(M::from_val(&s[0]), M::from_val(&s[1])),
            (256, s) => G6::V1(M::from_val(&s[0])),
            (3, s) => G6::V2(M::from_val(&s[0]), M::from_val(&s[1]), M::from_val(&s[2])),
            (64, s) => G6::V3(M::from_val(&s[0])),
            (128, s) => G6::V4(M::from_val(&s[0]), M::from_val(&s[1]), M::from_val(&s[2]), M::from_val(&s[3]), M::from_val(&s[4])),
            (55, _) => G6::V5,
            (d, s) => G6::Other(d, M::from_val(&s[0]), M::from_val(&s[1])),
        }
    }
}

#[derive(Clone, Debug)]
pub enum G7 { V0(G4), V1, V2(LinkedList<Duration>, i16, VecDeque<u32>) }
fourleaf_retrofit!(enum G7 : {} {} {
    |_context|
    [18446744073709551615] G7::V0(ref inner) => {
        (*) inner: G4 = inner,
        { Ok(G7::V0(inner)) }
    },
    [4294967295] G7::V1 => {
        { Ok(G7::V1) }
    },
    [3] G7::V2(ref f0_name, ref f1_v, ref f2_x) => {
        [27] f0_name: LinkedList<Duration> = f0_name,
        [28] f1_v: i16 = f1_v,
        [41] f2_x: VecDeque<u32> = f2_x,
        { Ok(G7::V2(f0_name, f1_v, f2_x)) }
    },
});
impl M for G7 {
    fn schema(_b: bool) -> Schema { enumeration("G7", vec![(18446744073709551615, dbody("inner", <G4 as M>::schema(_b))), (4294967295, fields(vec![])), (3, fields(vec![(27, "f0_name", <LinkedList<Duration> as M>::schema(_b)), (28, "f1_v", <i16 as M>::schema(_b)), (41, "f2_x", <VecDeque<u32> as M>::schema(_b))]))], None) }
    fn to_val(&self) -> Val {
        match *self {
            G7::V0(ref inner) => Val::Enum(18446744073709551615, vec![inner.to_val()]),
            G7::V1 => Val::Enum(4294967295, vec![]),
            G7::V2(ref f0_name, ref f1_v, ref f2_x) => Val::Enum(3, vec![f0_name.to_val(), f1_v.to_val(), f2_x.to_val()]),
        }
    }
    fn from_val(v: &Val) -> Self {
        match en(v) {
            (18446744073709551615, s) => G7::V0(M::from_val(&s[0])),
            (4294967295, _) => G7::V1,
            (3, s) => G7::V2(M::from_val(&s[0]), M::from_val(&s[1]), M::from_val(&s[2])),
            _ => panic!("no such variant"),
        }
    }
}

#[derive(Clone, Debug)]
pub struct G8 { pub f0_v: bool, pub f1_len: i16 }
fourleaf_retrofit!(struct G8 : {} {} {
    |_context, this|
    [51] f0_v: bool = &this.f0_v,
    [59] f1_len: i16 = &this.f1_len,
    { Ok(G8 { f0_v: f0_v, f1_len: f1_len }) }
});
impl M for G8 {
    fn schema(_b: bool) -> Schema { Schema::Struct(Arc::new(StructDef { name: "G8", body: fields(vec![(51, "f0_v", <bool as M>::schema(_b)), (59, "f1_len", <i16 as M>::schema(_b))]), check: None })) }
    fn to_val(&self) -> Val { Val::Struct(vec![self.f0_v.to_val(), self.f1_len.to_val()]) }
    fn from_val(v: &Val) -> Self { let s = st(v); G8 { f0_v: M::from_val(&s[0]), f1_len: M::from_val(&s[1]) } }
}

#[derive(Clone, Debug)]
pub struct G9 { pub f0_map: char, pub rest: UnknownFields<'static> }
fourleaf_retrofit!(struct G9 : {} {} {
    |_context, this|
    [17] f0_map: char = &this.f0_map,
    (?) rest: Copied<UnknownFields<'static>> = &this.rest,
    { Ok(G9 { f0_map: f0_map, rest: rest.0 }) }
});
impl M for G9 {
    fn schema(_b: bool) -> Schema { Schema::Struct(Arc::new(StructDef { name: "G9", body: with_unk(fields(vec![(17, "f0_map", <char as M>::schema(_b))]), "rest", true), check: None })) }
    fn to_val(&self) -> Val { Val::Struct(vec![self.f0_map.to_val(), self.rest.to_val()]) }
    fn from_val(v: &Val) -> Self { let s = st(v); G9 { f0_map: M::from_val(&s[0]), rest: M::from_val(&s[1]) } }
}

#[derive(Clone, Debug)]
pub enum G10 { V0(i8), V1, V2, V3(IpAddr, VecDeque<i64>), Other(u64, Box<G1>, G1, isize, Result<i8, char>, Duration, UnknownFields<'static>) }
fourleaf_retrofit!(enum G10 : {} {} {
    |_context|
    [64] G10::V0(ref f0_map) => {
        [35] f0_map: i8 = f0_map,
        { Ok(G10::V0(f0_map)) }
    },
    [255] G10::V1 => {
        { Ok(G10::V1) }
    },
    [16384] G10::V2 => {
        { Ok(G10::V2) }
    },
    [9223372036854775808] G10::V3(ref f0_v, ref f1_map) => {
        [2] f0_v: IpAddr = f0_v,
        [63] f1_map: VecDeque<i64> = f1_map,
        { Ok(G10::V3(f0_v, f1_map)) }
    },
    (?) G10::Other(disc, ref f0_map, ref f1_len, ref f2_v, ref f3_name, ref f4_name, ref rest) => {
        (=) disc: u64 = disc,
        [11] f0_map: Box<G1> = f0_map,
        [13] f1_len: G1 = f1_len,
        [63] f2_v: isize = f2_v,
        [39] f3_name: Result<i8, char> = f3_name,
        [51] f4_name: Duration = f4_name,
        (?) rest: Copied<UnknownFields<'static>> = rest,
        { Ok(G10::Other(disc, f0_map, f1_len, f2_v, f3_name, f4_name, rest.0)) }
    },
});
impl M for G10 {
    fn schema(_b: bool) -> Schema { enumeration("G10", vec![(64, fields(vec![(35, "f0_map", <i8 as M>::schema(_b))])), (255, fields(vec![])), (16384, fields(vec![])), (9223372036854775808, fields(vec![(2, "f0_v", <IpAddr as M>::schema(_b)), (63, "f1_map", <VecDeque<i64> as M>::schema(_b))]))], Some(with_unk(fields(vec![(11, "f0_map", <Box<G1> as M>::schema(_b)), (13, "f1_len", <G1 as M>::schema(_b)), (63, "f2_v", <isize as M>::schema(_b)), (39, "f3_name", <Result<i8, char> as M>::schema(_b)), (51, "f4_name", <Duration as M>::schema(_b))]), "rest", true))) }
    fn to_val(&self) -> Val {
        match *self {
            G10::V0(ref f0_map) => Val::Enum(64, vec![f0_map.to_val()]),
            G10::V1 => Val::Enum(255, vec![]),
            G10::V2 => Val::Enum(16384, vec![]),
            G10::V3(ref f0_v, ref f1_map) => Val::Enum(9223372036854775808, vec![f0_v.to_val(), f1_map.to_val()]),
            G10::Other(disc, ref f0_map, ref f1_len, ref f2_v, ref f3_name, ref f4_name, ref rest) => Val::Enum(disc, vec![f0_map.to_val(), f1_len.to_val(), f2_v.to_val(), f3_name.to_val(), f4_name.to_val(), rest.to_val()]),
        }
    }
    fn from_val(v: &Val) -> Self {
        match en(v) {
            (64, s) => G10::V0(M::from_val(&s[0])),
            (255, _) => G10::V1,
            (16384, _) => G10::V2,
            (9223372036854775808, s) => G10::V3(M::from_val(&s[0]), M::from_val(&s[1])),
            (d, s) => G10::Other(d, M::from_val(&s[0]), M::from_val(&s[1]), M::from_val(&s[2]), M::from_val(&s[3]), M::from_val(&s[4]), M::from_val(&s[5])),
        }
    }
}

#[derive(Clone, Debug)]
pub struct G11 { pub f0_v: Duration, pub f1_len: G7, pub f2_list: Arc<Result<(), SocketAddr>>, pub f3_list: (), pub f4_v: Rc<Option<SocketAddr>>, pub f5_list: G9, pub f6_v: G4, pub f7_len: Option<()>, pub f8_name: String, pub f9_list: i32, pub f10_map: BTreeMap<String, Duration>, pub f11_len: char, pub f12_v: i64, pub f13_len: BTreeMap<i32, Option<u16>>, pub f14_list: Result<G2, BTreeSet<u16>> }
fourleaf_retrofit!(struct G11 : {} {} {
    |_context, this|
    [5] f0_v: Duration = &this.f0_v,
    [6] f1_len: G7 = &this.f1_len,
    [63] f2_list: Arc<Result<(), SocketAddr>> = &this.f2_list,
    [15] f3_list: () = &this.f3_list,
    [17] f4_v: Rc<Option<SocketAddr>> = &this.f4_v,
    [21] f5_list: G9 = &this.f5_list,
    [31] f6_v: G4 = &this.f6_v,
    [33] f7_len: Option<()> = &this.f7_len,
    [36] f8_name: String = &this.f8_name,
    [43] f9_list: i32 = &this.f9_list,
    [47] f10_map: BTreeMap<String, Duration> = &this.f10_map,
    [51] f11_len: char = &this.f11_len,
    [54] f12_v: i64 = &this.f12_v,
    [58] f13_len: BTreeMap<i32, Option<u16>> = &this.f13_len,
    [59] f14_list: Result<G2, BTreeSet<u16>> = &this.f14_list,
    { Ok(G11 { f0_v: f0_v, f1_len: f1_len, f2_list: f2_list, f3_list: f3_list, f4_v: f4_v, f5_list: f5_list, f6_v: f6_v, f7_len: f7_len, f8_name: f8_name, f9_list: f9_list, f10_map: f10_map, f11_len: f11_len, f12_v: f12_v, f13_len: f13_len, f14_list: f14_list }) }
});
impl M for G11 {
    fn schema(_b: bool) -> Schema { Schema::Struct(Arc::new(StructDef { name: "G11", body: fields(vec![(5, "f0_v", <Duration as M>::schema(_b)), (6, "f1_len", <G7 as M>::schema(_b)), (63, "f2_list", <Arc<Result<(), SocketAddr>> as M>::schema(_b)), (15, "f3_list", <() as M>::schema(_b)), (17, "f4_v", <Rc<Option<SocketAddr>> as M>::schema(_b)), (21, "f5_list", <G9 as M>::schema(_b)), (31, "f6_v", <G4 as M>::schema(_b)), (33, "f7_len", <Option<()> as M>::schema(_b)), (36, "f8_name", <String as M>::schema(_b)), (43, "f9_list", <i32 as M>::schema(_b)), (47, "f10_map", <BTreeMap<String, Duration> as M>::schema(_b)), (51, "f11_len", <char as M>::schema(_b)), (54, "f12_v", <i64 as M>::schema(_b)), (58, "f13_len", <BTreeMap<i32, Option<u16>> as M>::schema(_b)), (59, "f14_list", <Result<G2, BTreeSet<u16>> as M>::schema(_b))]), check: None })) }
    fn to_val(&self) -> Val { Val::Struct(vec![self.f0_v.to_val(), self.f1_len.to_val(), self.f2_list.to_val(), self.f3_list.to_val(), self.f4_v.to_val(), self.f5_list.to_val(), self.f6_v.to_val(), self.f7_len.to_val(), self.f8_name.to_val(), self.f9_list.to_val(), self.f10_map.to_val(), self.f11_len.to_val(), self.f12_v.to_val(), self.f13_len.to_val(), self.f14_list.to_val()]) }
    fn from_val(v: &Val) -> Self { let s = st(v); G11 { f0_v: M::from_val(&s[0]), f1_len: M::from_val(&s[1]), f2_list: M::from_val(&s[2]), f3_list: M::from_val(&s[3]), f4_v: M::from_val(&s[4]), f5_list: M::from_val(&s[5]), f6_v: M::from_val(&s[6]), f7_len: M::from_val(&s[7]), f8_name: M::from_val(&s[8]), f9_list: M::from_val(&s[9]), f10_map: M::from_val(&s[10]), f11_len: M::from_val(&s[11]), f12_v: M::from_val(&s[12]), f13_len: M::from_val(&s[13]), f14_list: M::from_val(&s[14]) } }
}

#[derive(Clone, Debug)]
pub struct G12 { pub f0_list: Option<BTreeMap<u8, u32>>, pub f1_list: BTreeMap<u64, i64>, pub f2_len: SocketAddr, pub f3_x: HashMap<bool, i32, BH>, pub f4_list: u32, pub f5_len: Option<G7>, pub f6_v: Box<BTreeMap<u16, i32>>, pub f7_name: G8, pub f8_v: VecDeque<PhantomData<u8>>, pub f9_v: i32, pub f10_v: usize, pub f11_map: Result<u8, u16>, pub f12_name: Vec<G6>, pub f13_len: i8, pub f14_x: i16, pub f15_map: G5, pub f16_map: G5, pub f17_name: G3, pub f18_map: Vec<HashMap<Option<u16>, Option<char>, BH>>, pub f19_v: [i8; 2] }
fourleaf_retrofit!(struct G12 : {} {} {
    |_context, this|
    [63] f0_list: Option<BTreeMap<u8, u32>> = &this.f0_list,
    [54] f1_list: BTreeMap<u64, i64> = &this.f1_list,
    [25] f2_len: SocketAddr = &this.f2_len,
    [4] f3_x: HashMap<bool, i32, BH> = &this.f3_x,
    [40] f4_list: u32 = &this.f4_list,
    [8] f5_len: Option<G7> = &this.f5_len,
    [33] f6_v: Box<BTreeMap<u16, i32>> = &this.f6_v,
    [23] f7_name: G8 = &this.f7_name,
    [41] f8_v: VecDeque<PhantomData<u8>> = &this.f8_v,
    [22] f9_v: i32 = &this.f9_v,
    [1] f10_v: usize = &this.f10_v,
    [24] f11_map: Result<u8, u16> = &this.f11_map,
    [28] f12_name: Vec<G6> = &this.f12_name,
    [59] f13_len: i8 = &this.f13_len,
    [12] f14_x: i16 = &this.f14_x,
    [48] f15_map: G5 = &this.f15_map,
    [11] f16_map: G5 = &this.f16_map,
    [3] f17_name: G3 = &this.f17_name,
    [60] f18_map: Vec<HashMap<Option<u16>, Option<char>, BH>> = &this.f18_map,
    [47] f19_v: [i8; 2] = &this.f19_v,
    { Ok(G12 { f0_list: f0_list, f1_list: f1_list, f2_len: f2_len, f3_x: f3_x, f4_list: f4_list, f5_len: f5_len, f6_v: f6_v, f7_name: f7_name, f8_v: f8_v, f9_v: f9_v, f10_v: f10_v, f11_map: f11_map, f12_name: f12_name, f13_len: f13_len, f14_x: f14_x, f15_map: f15_map, f16_map: f16_map, f17_name: f17_name, f18_map: f18_map, f19_v: f19_v }) }
});
impl M for G12 {
    fn schema(_b: bool) -> Schema { Schema::Struct(Arc::new(StructDef { name: "G12", body: fields(vec![(63, "f0_list", <Option<BTreeMap<u8, u32>> as M>::schema(_b)), (54, "f1_list", <BTreeMap<u64, i64> as M>::schema(_b)), (25, "f2_len", <SocketAddr as M>::schema(_b)), (4, "f3_x", <HashMap<bool, i32, BH> as M>::schema(_b)), (40, "f4_list", <u32 as M>::schema(_b)), (8, "f5_len", <Option<G7> as M>::schema(_b)), (33, "f6_v", <Box<BTreeMap<u16, i32>> as M>::schema(_b)), (23, "f7_name", <G8 as M>::schema(_b)), (41, "f8_v", <VecDeque<PhantomData<u8>> as M>::schema(_b)), (22, "f9_v", <i32 as M>::schema(_b)), (1, "f10_v", <usize as M>::schema(_b)), (24, "f11_map", <Result<u8, u16> as M>::schema(_b)), (28, "f12_name", <Vec<G6> as M>::schema(_b)), (59, "f13_len", <i8 as M>::schema(_b)), (12, "f14_x", <i16 as M>::schema(_b)), (48, "f15_map", <G5 as M>::schema(_b)), (11, "f16_map", <G5 as M>::schema(_b)), (3, "f17_name", <G3 as M>::schema(_b)), (60, "f18_map", <Vec<HashMap<Option<u16>, Option<char>, BH>> as M>::schema(_b)), (47, "f19_v", <[i8; 2] as M>::schema(_b))]), check: None })) }
    fn to_val(&self) -> Val { Val::Struct(vec![self.f0_list.to_val(), self.f1_list.to_val(), self.f2_len.to_val(), self.f3_x.to_val(), self.f4_list.to_val(), self.f5_len.to_val(), self.f6_v.to_val(), self.f7_name.to_val(), self.f8_v.to_val(), self.f9_v.to_val(), self.f10_v.to_val(), self.f11_map.to_val(), self.f12_name.to_val(), self.f13_len.to_val(), self.f14_x.to_val(), self.f15_map.to_val(), self.f16_map.to_val(), self.f17_name.to_val(), self.f18_map.to_val(), self.f19_v.to_val()]) }
    fn from_val(v: &Val) -> Self { let s = st(v); G12 { f0_list: M::from_val(&s[0]), f1_list: M::from_val(&s[1]), f2_len: M::from_val(&s[2]), f3_x: M::from_val(&s[3]), f4_list: M::from_val(&s[4]), f5_len: M::from_val(&s[5]), f6_v: M::from_val(&s[6]), f7_name: M::from_val(&s[7]), f8_v: M::from_val(&s[8]), f9_v: M::from_val(&s[9]), f10_v: M::from_val(&s[10]), f11_map: M::from_val(&s[11]), f12_name: M::from_val(&s[12]), f13_len: M::from_val(&s[13]), f14_x: M::from_val(&s[14]), f15_map: M::from_val(&s[15]), f16_map: M::from_val(&s[16]), f17_name: M::from_val(&s[17]), f18_map: M::from_val(&s[18]), f19_v: M::from_val(&s[19]) } }
}

#[derive(Clone, Debug)]
pub struct G13 { pub f0_v: [Vec<u8>; 1], pub f1_map: G6, pub f2_map: (char,), pub rest: UnknownFields<'static> }
fourleaf_retrofit!(struct G13 : {} {} {
    |_context, this|
    [1] f0_v: [Vec<u8>; 1] = &this.f0_v,
    [33] f1_map: G6 = &this.f1_map,
    [37] f2_map: (char,) = &this.f2_map,
    (?) rest: Copied<UnknownFields<'static>> = &this.rest,
    { Ok(G13 { f0_v: f0_v, f1_map: f1_map, f2_map: f2_map, rest: rest.0 }) }
});
impl M for G13 {
    fn schema(_b: bool) -> Schema { Schema::Struct(Arc::new(StructDef { name: "G13", body: with_unk(fields(vec![(1, "f0_v", <[Vec<u8>; 1] as M>::schema(_b)), (33, "f1_map", <G6 as M>::schema(_b)), (37, "f2_map", <(char,) as M>::schema(_b))]), "rest", true), check: None })) }
    fn to_val(&self) -> Val { Val::Struct(vec![self.f0_v.to_val(), self.f1_map.to_val(), self.f2_map.to_val(), self.rest.to_val()]) }
    fn from_val(v: &Val) -> Self { let s = st(v); G13 { f0_v: M::from_val(&s[0]), f1_map: M::from_val(&s[1]), f2_map: M::from_val(&s[2]), rest: M::from_val(&s[3]) } }
}

#[derive(Clone, Debug)]
pub enum G14 { V0(Result<HashMap<u64, PhantomData<u8>, BH>, BTreeMap<i32, i32>>, UnknownFields<'static>), V1(UnknownFields<'static>), V2(Vec<Vec<u8>>, G10, isize, Vec<G12>, isize, UnknownFields<'static>), V3(Option<Option<Vec<Vec<u8>>>>), V4(UnknownFields<'static>), V5(i32, UnknownFields<'static>) }
fourleaf_retrofit!(enum G14 : {} {} {
    |_context|
    [9223372036854775807] G14::V0(ref f0_v, ref rest) => {
        [52] f0_v: Result<HashMap<u64, PhantomData<u8>, BH>, BTreeMap<i32, i32>> = f0_v,
        (?) rest: Copied<UnknownFields<'static>> = rest,
        { Ok(G14::V0(f0_v, rest.0)) }
    },
    [944] G14::V1(ref rest) => {
        (?) rest: Copied<UnknownFields<'static>> = rest,
        { Ok(G14::V1(rest.0)) }
    },
    [18446744073709551614] G14::V2(ref f0_map, ref f1_v, ref f2_list, ref f3_list, ref f4_x, ref rest) => {
        [3] f0_map: Vec<Vec<u8>> = f0_map,
        [8] f1_v: G10 = f1_v,
        [63] f2_list: isize = f2_list,
        [35] f3_list: Vec<G12> = f3_list,
        [41] f4_x: isize = f4_x,
        (?) rest: Copied<UnknownFields<'static>> = rest,
        { Ok(G14::V2(f0_map, f1_v, f2_list, f3_list, f4_x, rest.0)) }
    },
    [7094823807] G14::V3(ref inner) => {
        (*) inner: Option<Option<Vec<Vec<u8>>>> = inner,
        { Ok(G14::V3(inner)) }
    },
    [4294967296] G14::V4(ref rest) => {
        (?) rest: Copied<UnknownFields<'static>> = rest,
        { Ok(G14::V4(rest.0)) }
    },
    [16383] G14::V5(ref f0_x, ref rest) => {
        [1] f0_x: i32 = f0_x,
        (?) rest: Copied<UnknownFields<'static>> = rest,
        { Ok(G14::V5(f0_x, rest.0)) }
    },
});
impl M for G14 {
    fn schema(_b: bool) -> Schema { enumeration("G14", vec![(9223372036854775807, with_unk(fields(vec![(52, "f0_v", <Result<HashMap<u64, PhantomData<u8>, BH>, BTreeMap<i32, i32>> as M>::schema(_b))]), "rest", true)), (944, with_unk(fields(vec![]), "rest", true)), (18446744073709551614, with_unk(fields(vec![(3, "f0_map", <Vec<Vec<u8>> as M>::schema(_b)), (8, "f1_v", <G10 as M>::schema(_b)), (63, "f2_list", <isize as M>::schema(_b)), (35, "f3_list", <Vec<G12> as M>::schema(_b)), (41, "f4_x", <isize as M>::schema(_b))]), "rest", true)), (7094823807, dbody("inner", <Option<Option<Vec<Vec<u8>>>> as M>::schema(_b))), (4294967296, with_unk(fields(vec![]), "rest", true)), (16383, with_unk(fields(vec![(1, "f0_x", <i32 as M>::schema(_b))]), "rest", true))], None) }
    fn to_val(&self) -> Val {
        match *self {
            G14::V0(ref f0_v, ref rest) => Val::Enum(9223372036854775807, vec![f0_v.to_val(), rest.to_val()]),
            G14::V1(ref rest) => Val::Enum(944, vec![rest.to_val()]),
            G14::V2(ref f0_map, ref f1_v, ref f2_list, ref f3_list, ref f4_x, ref rest) => Val::Enum(18446744073709551614, vec![f0_map.to_val(), f1_v.to_val(), f2_list.to_val(), f3_list.to_val(), f4_x.to_val(), rest.to_val()]),
            G14::V3(ref inner) => Val::Enum(7094823807, vec![inner.to_val()]),
            G14::V4(ref rest) => Val::Enum(4294967296, vec![rest.to_val()]),
            G14::V5(ref f0_x, ref rest) => Val::Enum(16383, vec![f0_x.to_val(), rest.to_val()]),
        }
    }
    fn from_val(v: &Val) -> Self {
        match en(v) {
            (9223372036854775807, s) => G14::V0(M::from_val(&s[0]), M::from_val(&s[1])),
            (944, s) => G14::V1(M::from_val(&s[0])),
            (18446744073709551614, s) => G14::V2(M::from_val(&s[0]), M::from_val(&s[1]), M::from_val(&s[2]), M::from_val(&s[3]), M::from_val(&s[4]), M::from_val(&s[5])),
            (7094823807, s) => G14::V3(M::from_val(&s[0])),
            (4294967296, s) => G14::V4(M::from_val(&s[0])),
            (16383, s) => G14::V5(M::from_val(&s[0]), M::from_val(&s[1])),
            _ => panic!("no such variant"),
        }
    }
}

#[derive(Clone, Debug)]
pub enum G15 { V0(BTreeMap<u8, i64>, Result<i64, Duration>, Option<Duration>, HashMap<Option<u16>, char, BH>, UnknownFields<'static>) }
fourleaf_retrofit!(enum G15 : {} {} {
    |_context|
    [128] G15::V0(ref f0_map, ref f1_v, ref f2_map, ref f3_x, ref rest) => {
        [35] f0_map: BTreeMap<u8, i64> = f0_map,
        [56] f1_v: Result<i64, Duration> = f1_v,
        [63] f2_map: Option<Duration> = f2_map,
        [62] f3_x: HashMap<Option<u16>, char, BH> = f3_x,
        (?) rest: Copied<UnknownFields<'static>> = rest,
        { Ok(G15::V0(f0_map, f1_v, f2_map, f3_x, rest.0)) }
    },
});
impl M for G15 {
    fn schema(_b: bool) -> Schema { enumeration("G15", vec![(128, with_unk(fields(vec![(35, "f0_map", <BTreeMap<u8, i64> as M>::schema(_b)), (56, "f1_v", <Result<i64, Duration> as M>::schema(_b)), (63, "f2_map", <Option<Duration> as M>::schema(_b)), (62, "f3_x", <HashMap<Option<u16>, char, BH> as M>::schema(_b))]), "rest", true))], None) }
    fn to_val(&self) -> Val {
        match *self {
            G15::V0(ref f0_map, ref f1_v, ref f2_map, ref f3_x, ref rest) => Val::Enum(128, vec![f0_map.to_val(), f1_v.to_val(), f2_map.to_val(), f3_x.to_val(), rest.to_val()]),
        }
    }
    fn from_val(v: &Val) -> Self {
        match en(v) {
            (128, s) => G15::V0(M::from_val(&s[0]), M::from_val(&s[1]), M::from_val(&s[2]), M::from_val(&s[3]), M::from_val(&s[4])),
            _ => panic!("no such variant"),
        }
    }
}

#[derive(Clone, Debug)]
pub enum G16 { V0(BTreeMap<Vec<u8>, Option<Vec<bool>>>), V1(u64), V2(Option<Box<i16>>, G7, UnknownFields<'static>), V3(u32, BTreeMap<i32, G7>), V4(Rc<i16>, Result<i64, IpAddr>), V5(IpAddr), V6, V7(BTreeMap<u16, String>, Duration, bool, Result<i8, Vec<bool>>, UnknownFields<'static>), V8 }
fourleaf_retrofit!(enum G16 : {} {} {
    |_context|
    [7157290024467] G16::V0(ref inner) => {
        (*) inner: BTreeMap<Vec<u8>, Option<Vec<bool>>> = inner,
        { Ok(G16::V0(inner)) }
    },
    [3] G16::V1(ref f0_v) => {
        [28] f0_v: u64 = f0_v,
        { Ok(G16::V1(f0_v)) }
    },
    [66] G16::V2(ref f0_list, ref f1_name, ref rest) => {
        [59] f0_list: Option<Box<i16>> = f0_list,
        [63] f1_name: G7 = f1_name,
        (?) rest: Copied<UnknownFields<'static>> = rest,
        { Ok(G16::V2(f0_list, f1_name, rest.0)) }
    },
    [64] G16::V3(ref f0_name, ref f1_map) => {
        [31] f0_name: u32 = f0_name,
        [1] f1_map: BTreeMap<i32, G7> = f1_map,
        { Ok(G16::V3(f0_name, f1_map)) }
    },
    [4294967295] G16::V4(ref f0_v, ref f1_len) => {
        [63] f0_v: Rc<i16> = f0_v,
        [18] f1_len: Result<i64, IpAddr> = f1_len,
        { Ok(G16::V4(f0_v, f1_len)) }
    },
    [16383] G16::V5(ref inner) => {
        (*) inner: IpAddr = inner,
        { Ok(G16::V5(inner)) }
    },
    [127] G16::V6 => {
        { Ok(G16::V6) }
    },
    [4900] G16::V7(ref f0_map, ref f1_list, ref f2_v, ref f3_len, ref rest) => {
        [3] f0_map: BTreeMap<u16, String> = f0_map,
        [18] f1_list: Duration = f1_list,
        [43] f2_v: bool = f2_v,
        [51] f3_len: Result<i8, Vec<bool>> = f3_len,
        (?) rest: Copied<UnknownFields<'static>> = rest,
        { Ok(G16::V7(f0_map, f1_list, f2_v, f3_len, rest.0)) }
    },
    [128] G16::V8 => {
        { Ok(G16::V8) }
    },
});
impl M for G16 {
    fn schema(_b: bool) -> Schema { enumeration("G16", vec![(7157290024467, dbody("inner", <BTreeMap<Vec<u8>, Option<Vec<bool>>> as M>::schema(_b))), (3, fields(vec![(28, "f0_v", <u64 as M>::schema(_b))])), (66, with_unk(fields(vec![(59, "f0_list", <Option<Box<i16>> as M>::schema(_b)), (63, "f1_name", <G7 as M>::schema(_b))]), "rest", true)), (64, fields(vec![(31, "f0_name", <u32 as M>::schema(_b)), (1, "f1_map", <BTreeMap<i32, G7> as M>::schema(_b))])), (4294967295, fields(vec![(63, "f0_v", <Rc<i16> as M>::schema(_b)), (18, "f1_len", <Result<i64, IpAddr> as M>::schema(_b))])), (16383, dbody("inner", <IpAddr as M>::schema(_b))), (127, fields(vec![])), (4900, with_unk(fields(vec![(3, "f0_map", <BTreeMap<u16, String> as M>::schema(_b)), (18, "f1_list", <Duration as M>::schema(_b)), (43, "f2_v", <bool as M>::schema(_b)), (51, "f3_len", <Result<i8, Vec<bool>> as M>::schema(_b))]), "rest", true)), (128, fields(vec![]))], None) }
    fn to_val(&self) -> Val {
        match *self {
            G16::V0(ref inner) => Val::Enum(7157290024467, vec![inner.to_val()]),
            G16::V1(ref f0_v) => Val::Enum(3, vec![f0_v.to_val()]),
            G16::V2(ref f0_list, ref f1_name, ref rest) => Val::Enum(66, vec![f0_list.to_val(), f1_name.to_val(), rest.to_val()]),
            G16::V3(ref f0_name, ref f1_map) => Val::Enum(64, vec![f0_name.to_val(), f1_map.to_val()]),
            G16::V4(ref f0_v, ref f1_len) => Val::Enum(4294967295, vec![f0_v.to_val(), f1_len.to_val()]),
            G16::V5(ref inner) => Val::Enum(16383, vec![inner.to_val()]),
            G16::V6 => Val::Enum(127, vec![]),
            G16::V7(ref f0_map, ref f1_list, ref f2_v, ref f3_len, ref rest) => Val::Enum(4900, vec![f0_map.to_val(), f1_list.to_val(), f2_v.to_val(), f3_len.to_val(), rest.to_val()]),
            G16::V8 => Val::Enum(128, vec![]),
        }
    }
    fn from_val(v: &Val) -> Self {
        match en(v) {
            (7157290024467, s) => G16::V0(M::from_val(&s[0])),
            (3, s) => G16::V1(M::from_val(&s[0])),
            (66, s) => G16::V2(M::from_val(&s[0]), M::from_val(&s[1]), M::from_val(&s[2])),
            (64, s) => G16::V3(M::from_val(&s[0]), M::from_val(&s[1])),
            (4294967295, s) => G16::V4(M::from_val(&s[0]), M::from_val(&s[1])),
            (16383, s) => G16::V5(M::from_val(&s[0])),
            (127, _) => G16::V6,
            (4900, s) => G16::V7(M::from_val(&s[0]), M::from_val(&s[1]), M::from_val(&s[2]), M::from_val(&s[3]), M::from_val(&s[4])),
            (128, _) => G16::V8,
            _ => panic!("no such variant"),
        }
    }
}

#[derive(Clone, Debug)]
pub struct G17 { pub f0_len: G16, pub f1_len: [Arc<isize>; 0], pub f2_map: u32, pub f3_len: Result<u16, Duration>, pub f4_len: Option<Vec<u8>>, pub f5_name: Result<String, u64>, pub f6_list: G9, pub f7_map: u64, pub f8_map: G2, pub f9_name: Result<Duration, Duration>, pub f10_map: Option<Vec<u8>>, pub rest: UnknownFields<'static> }
fourleaf_retrofit!(struct G17 : {} {} {
    |_context, this|
    [63] f0_len: G16 = &this.f0_len,
    [8] f1_len: [Arc<isize>; 0] = &this.f1_len,
    [9] f2_map: u32 = &this.f2_map,
    [13] f3_len: Result<u16, Duration> = &this.f3_len,
    [25] f4_len: Option<Vec<u8>> = &this.f4_len,
    [29] f5_name: Result<String, u64> = &this.f5_name,
    [30] f6_list: G9 = &this.f6_list,
    [32] f7_map: u64 = &this.f7_map,
    [33] f8_map: G2 = &this.f8_map,
    [39] f9_name: Result<Duration, Duration> = &this.f9_name,
    [52] f10_map: Option<Vec<u8>> = &this.f10_map,
    (?) rest: Copied<UnknownFields<'static>> = &this.rest,
    { Ok(G17 { f0_len: f0_len, f1_len: f1_len, f2_map: f2_map, f3_len: f3_len, f4_len: f4_len, f5_name: f5_name, f6_list: f6_list, f7_map: f7_map, f8_map: f8_map, f9_name: f9_name, f10_map: f10_map, rest: rest.0 }) }
});
impl M for G17 {
    fn schema(_b: bool) -> Schema { Schema::Struct(Arc::new(StructDef { name: "G17", body: with_unk(fields(vec![(63, "f0_len", <G16 as M>::schema(_b)), (8, "f1_len", <[Arc<isize>; 0] as M>::schema(_b)), (9, "f2_map", <u32 as M>::schema(_b)), (13, "f3_len", <Result<u16, Duration> as M>::schema(_b)), (25, "f4_len", <Option<Vec<u8>> as M>::schema(_b)), (29, "f5_name", <Result<String, u64> as M>::schema(_b)), (30, "f6_list", <G9 as M>::schema(_b)), (32, "f7_map", <u64 as M>::schema(_b)), (33, "f8_map", <G2 as M>::schema(_b)), (39, "f9_name", <Result<Duration, Duration> as M>::schema(_b)), (52, "f10_map", <Option<Vec<u8>> as M>::schema(_b))]), "rest", true), check: None })) }
    fn to_val(&self) -> Val { Val::Struct(vec![self.f0_len.to_val(), self.f1_len.to_val(), self.f2_map.to_val(), self.f3_len.to_val(), self.f4_len.to_val(), self.f5_name.to_val(), self.f6_list.to_val(), self.f7_map.to_val(), self.f8_map.to_val(), self.f9_name.to_val(), self.f10_map.to_val(), self.rest.to_val()]) }
    fn from_val(v: &Val) -> Self { let s = st(v); G17 { f0_len: M::from_val(&s[0]), f1_len: M::from_val(&s[1]), f2_map: M::from_val(&s[2]), f3_len: M::from_val(&s[3]), f4_len: M::from_val(&s[4]), f5_name: M::from_val(&s[5]), f6_list: M::from_val(&s[6]), f7_map: M::from_val(&s[7]), f8_map: M::from_val(&s[8]), f9_name: M::from_val(&s[9]), f10_map: M::from_val(&s[10]), rest: M::from_val(&s[11]) } }
}

#[derive(Clone, Debug)]
pub enum G18 { V0(Vec<u8>, u32, bool), V1(i16, [u8; 0]), V2(G3), V3, V4(IpAddr, UnknownFields<'static>), V5(HashMap<i8, PhantomData<u8>, BH>, Duration), Other(u64, UnknownFields<'static>) }
fourleaf_retrofit!(enum G18 : {} {} {
    |_context|
    [42798375] G18::V0(ref f0_x, ref f1_v, ref f2_map) => {
        [18] f0_x: Vec<u8> = f0_x,
        [34] f1_v: u32 = f1_v,
        [63] f2_map: bool = f2_map,
        { Ok(G18::V0(f0_x, f1_v, f2_map)) }
    },
    [0] G18::V1(ref f0_v, ref f1_len) => {
        [1] f0_v: i16 = f0_v,
        [45] f1_len: [u8; 0] = f1_len,
        { Ok(G18::V1(f0_v, f1_len)) }
    },
    [16384] G18::V2(ref f0_name) => {
        [6] f0_name: G3 = f0_name,
        { Ok(G18::V2(f0_name)) }
    },
    [22193699] G18::V3 => {
        { Ok(G18::V3) }
    },
    [9223372036854775808] G18::V4(ref f0_list, ref rest) => {
        [1] f0_list: IpAddr = f0_list,
        (?) rest: Copied<UnknownFields<'static>> = rest,
        { Ok(G18::V4(f0_list, rest.0)) }
    },
    [1] G18::V5(ref f0_len, ref f1_len) => {
        [25] f0_len: HashMap<i8, PhantomData<u8>, BH> = f0_len,
        [19] f1_len: Duration = f1_len,
        { Ok(G18::V5(f0_len, f1_len)) }
    },
    (?) G18::Other(disc, ref rest) => {
        (=) disc: u64 = disc,
        (?) rest: Copied<UnknownFields<'static>> = rest,
        { Ok(G18::Other(disc, rest.0)) }
    },
});
impl M for G18 {
    fn schema(_b: bool) -> Schema { enumeration("G18", vec![(42798375, fields(vec![(18, "f0_x", <Vec<u8> as M>::schema(_b)), (34, "f1_v", <u32 as M>::schema(_b)), (63, "f2_map", <bool as M>::schema(_b))])), (0, fields(vec![(1, "f0_v", <i16 as M>::schema(_b)), (45, "f1_len", <[u8; 0] as M>::schema(_b))])), (16384, fields(vec![(6, "f0_name", <G3 as M>::schema(_b))])), (22193699, fields(vec![])), (9223372036854775808, with_unk(fields(vec![(1, "f0_list", <IpAddr as M>::schema(_b))]), "rest", true)), (1, fields(vec![(25, "f0_len", <HashMap<i8, PhantomData<u8>, BH> as M>::schema(_b)), (19, "f1_len", <Duration as M>::schema(_b))]))], Some(with_unk(fields(vec![]), "rest", true))) }
    fn to_val(&self) -> Val {
        match *self {
            G18::V0(ref f0_x, ref f1_v, ref f2_map) => Val::Enum(42798375, vec![f0_x.to_val(), f1_v.to_val(), f2_map.to_val()]),
            G18::V1(ref f0_v, ref f1_len) => Val::Enum(0, vec![f0_v.to_val(), f1_len.to_val()]),
            G18::V2(ref f0_name) => Val::Enum(16384, vec![f0_name.to_val()]),
            G18::V3 => Val::Enum(22193699, vec![]),
            G18::V4(ref f0_list, ref rest) => Val::Enum(9223372036854775808, vec![f0_list.to_val(), rest.to_val()]),
            G18::V5(ref f0_len, ref f1_len) => Val::Enum(1, vec![f0_len.to_val(), f1_len.to_val()]),
            G18::Other(disc, ref rest) => Val::Enum(disc, vec![rest.to_val()]),
        }
    }
    fn from_val(v: &Val) -> Self {
        match en(v) {
            (42798375, s) => G18::V0(M::from_val(&s[0]), M::from_val(&s[1]), M::from_val(&s[2])),
            (0, s) => G18::V1(M::from_val(&s[0]), M::from_val(&s[1])),
            (16384, s) => G18::V2(M::from_val(&s[0])),
            (22193699, _) => G18::V3,
            (9223372036854775808, s) => G18::V4(M::from_val(&s[0]), M::from_val(&s[1])),
            (1, s) => G18::V5(M::from_val(&s[0]), M::from_val(&s[1])),
            (d, s) => G18::Other(d, M::from_val(&s[0])),
        }
    }
}

#[derive(Clone, Debug)]
pub enum G19 { V0(Vec<u8>), V1, V2(BinaryHeap<Vec<u8>>), V3 }
fourleaf_retrofit!(enum G19 : {} {} {
    |_context|
    [0] G19::V0(ref f0_v) => {
        [52] f0_v: Vec<u8> = f0_v,
        { Ok(G19::V0(f0_v)) }
    },
    [256] G19::V1 => {
        { Ok(G19::V1) }
    },
    [4294967296] G19::V2(ref f0_x) => {
        [1] f0_x: BinaryHeap<Vec<u8>> = f0_x,
        { Ok(G19::V2(f0_x)) }
    },
    [560351] G19::V3 => {
        { Ok(G19::V3) }
    },
});
impl M for G19 {
    fn schema(_b: bool) -> Schema { enumeration("G19", vec![(0, fields(vec![(52, "f0_v", <Vec<u8> as M>::schema(_b))])), (256, fields(vec![])), (4294967296, fields(vec![(1, "f0_x", <BinaryHeap<Vec<u8>> as M>::schema(_b))])), (560351, fields(vec![]))], None) }
    fn to_val(&self) -> Val {
        match *self {
            G19::V0(ref f0_v) => Val::Enum(0, vec![f0_v.to_val()]),
            G19::V1 => Val::Enum(256, vec![]),
            G19::V2(ref f0_x) => Val::Enum(4294967296, vec![f0_x.to_val()]),
            G19::V3 => Val::Enum(560351, vec![]),
        }
    }
    fn from_val(v: &Val) -> Self {
        match en(v) {
            (0, s) => G19::V0(M::from_val(&s[0])),
            (256, _) => G19::V1,
            (4294967296, s) => G19::V2(M::from_val(&s[0])),
            (560351, _) => G19::V3,
            _ => panic!("no such variant"),
        }
    }
}

#[derive(Clone, Debug)]
pub struct G20 { pub rest: UnknownFields<'static> }
fourleaf_retrofit!(struct G20 : {} {} {
    |_context, this|
    (?) rest: Copied<UnknownFields<'static>> = &this.rest,
    { Ok(G20 { rest: rest.0 }) }
});
impl M for G20 {
    fn schema(_b: bool) -> Schema { Schema::Struct(Arc::new(StructDef { name: "G20", body: with_unk(fields(vec![]), "rest", true), check: None })) }
    fn to_val(&self) -> Val { Val::Struct(vec![self.rest.to_val()]) }
    fn from_val(v: &Val) -> Self { let s = st(v); G20 { rest: M::from_val(&s[0]) } }
}

#[derive(Clone, Debug)]
pub struct G21 { pub inner: G1 }
fourleaf_retrofit!(struct G21 : {} {} {
    |_context, this|
    (*) inner: G1 = &this.inner,
    { Ok(G21 { inner: inner }) }
});
impl M for G21 {
    fn schema(_b: bool) -> Schema { Schema::Struct(Arc::new(StructDef { name: "G21", body: dbody("inner", <G1 as M>::schema(_b)), check: None })) }
    fn to_val(&self) -> Val { Val::Struct(vec![self.inner.to_val()]) }
    fn from_val(v: &Val) -> Self { let s = st(v); G21 { inner: M::from_val(&s[0]) } }
}

#[derive(Clone, Debug)]
pub struct G22 { pub f0_len: Result<G12, i64> }
fourleaf_retrofit!(struct G22 : {} {} {
    |_context, this|
    [7] f0_len: Result<G12, i64> = &this.f0_len,
    { Ok(G22 { f0_len: f0_len }) }
});
impl M for G22 {
    fn schema(_b: bool) -> Schema { Schema::Struct(Arc::new(StructDef { name: "G22", body: fields(vec![(7, "f0_len", <Result<G12, i64> as M>::schema(_b))]), check: None })) }
    fn to_val(&self) -> Val { Val::Struct(vec![self.f0_len.to_val()]) }
    fn from_val(v: &Val) -> Self { let s = st(v); G22 { f0_len: M::from_val(&s[0]) } }
}

#[derive(Clone, Debug)]
pub enum G23 { V0(i8, i16, UnknownFields<'static>), V1(Vec<G16>), V2(LinkedList<G18>, (i8, Vec<u8>,)), V3(UnknownFields<'static>), V4((Duration, String,)), V5(i64, u64, PhantomData<u8>), V6(i64, SocketAddr), V7(Result<isize, i8>, G17), V8(Rc<PhantomData<u8>>, Vec<bool>) }
fourleaf_retrofit!(enum G23 : {} {} {
    |_context|
    [64] G23::V0(ref f0_name, ref f1_map, ref rest) => {
        [37] f0_name: i8 = f0_name,
        [1] f1_map: i16 = f1_map,
        (?) rest: Copied<UnknownFields<'static>> = rest,
        { Ok(G23::V0(f0_name, f1_map, rest.0)) }
    },
    [18446744073709551614] G23::V1(ref inner) => {
        (*) inner: Vec<G16> = inner,
        { Ok(G23::V1(inner)) }
    },
    [255] G23::V2(ref f0_v, ref f1_v) => {
        [3] f0_v: LinkedList<G18> = f0_v,
        [29] f1_v: (i8, Vec<u8>,) = f1_v,
        { Ok(G23::V2(f0_v, f1_v)) }
    },
    [2] G23::V3(ref rest) => {
        (?) rest: Copied<UnknownFields<'static>> = rest,
        { Ok(G23::V3(rest.0)) }
    },
    [127] G23::V4(ref f0_map) => {
        [1] f0_map: (Duration, String,) = f0_map,
        { Ok(G23::V4(f0_map)) }
    },
    [1] G23::V5(ref f0_map, ref f1_v, ref f2_len) => {
        [37] f0_map: i64 = f0_map,
        [30] f1_v: u64 = f1_v,
        [53] f2_len: PhantomData<u8> = f2_len,
        { Ok(G23::V5(f0_map, f1_v, f2_len)) }
    },
    [16384] G23::V6(ref f0_map, ref f1_list) => {
        [48] f0_map: i64 = f0_map,
        [1] f1_list: SocketAddr = f1_list,
        { Ok(G23::V6(f0_map, f1_list)) }
    },
    [4294967296] G23::V7(ref f0_len, ref f1_list) => {
        [10] f0_len: Result<isize, i8> = f0_len,
        [63] f1_list: G17 = f1_list,
        { Ok(G23::V7(f0_len, f1_list)) }
    },
    [256] G23::V8(ref f0_len, ref f1_x) => {
        [18] f0_len: Rc<PhantomData<u8>> = f0_len,
        [37] f1_x: Vec<bool> = f1_x,
        { Ok(G23::V8(f0_len, f1_x)) }
    },
});
impl M for G23 {
    fn schema(_b: bool) -> Schema { enumeration("G23", vec![(64, with_unk(fields(vec![(37, "f0_name", <i8 as M>::schema(_b)), (1, "f1_map", <i16 as M>::schema(_b))]), "rest", true)), (18446744073709551614, dbody("inner", <Vec<G16> as M>::schema(_b))), (255, fields(vec![(3, "f0_v", <LinkedList<G18> as M>::schema(_b)), (29, "f1_v", <(i8, Vec<u8>,) as M>::schema(_b))])), (2, with_unk(fields(vec![]), "rest", true)), (127, fields(vec![(1, "f0_map", <(Duration, String,) as M>::schema(_b))])), (1, fields(vec![(37, "f0_map", <i64 as M>::schema(_b)), (30, "f1_v", <u64 as M>::schema(_b)), (53, "f2_len", <PhantomData<u8> as M>::schema(_b))])), (16384, fields(vec![(48, "f0_map", <i64 as M>::schema(_b)), (1, "f1_list", <SocketAddr as M>::schema(_b))])), (4294967296, fields(vec![(10, "f0_len", <Result<isize, i8> as M>::schema(_b)), (63, "f1_list", <G17 as M>::schema(_b))])), (256, fields(vec![(18, "f0_len", <Rc<PhantomData<u8>> as M>::schema(_b)), (37, "f1_x", <Vec<bool> as M>::schema(_b))]))], None) }
    fn to_val(&self) -> Val {
        match *self {
            G23::V0(ref f0_name, ref f1_map, ref rest) => Val::Enum(64, vec![f0_name.to_val(), f1_map.to_val(), rest.to_val()]),
            G23::V1(ref inner) => Val::Enum(18446744073709551614, vec![inner.to_val()]),
            G23::V2(ref f0_v, ref f1_v) => Val::Enum(255, vec![f0_v.to_val(), f1_v.to_val()]),
            G23::V3(ref rest) => Val::Enum(2, vec![rest.to_val()]),
            G23::V4(ref f0_map) => Val::Enum(127, vec![f0_map.to_val()]),
            G23::V5(ref f0_map, ref f1_v, ref f2_len) => Val::Enum(1, vec![f0_map.to_val(), f1_v.to_val(), f2_len.to_val()]),
            G23::V6(ref f0_map, ref f1_list) => Val::Enum(16384, vec![f0_map.to_val(), f1_list.to_val()]),
            G23::V7(ref f0_len, ref f1_list) => Val::Enum(4294967296, vec![f0_len.to_val(), f1_list.to_val()]),
            G23::V8(ref f0_len, ref f1_x) => Val::Enum(256, vec![f0_len.to_val(), f1_x.to_val()]),
        }
    }
    fn from_val(v: &Val) -> Self {
        match en(v) {
            (64, s) => G23::V0(M::from_val(&s[0]), M::from_val(&s[1]), M::from_val(&s[2])),
            (18446744073709551614, s) => G23::V1(M::from_val(&s[0])),
            (255, s) => G23::V2(M::from_val(&s[0]), M::from_val(&s[1])),
            (2, s) => G23::V3(M::from_val(&s[0])),
            (127, s) => G23::V4(M::from_val(&s[0])),
            (1, s) => G23::V5(M::from_val(&s[0]), M::from_val(&s[1]), M::from_val(&s[2])),
            (16384, s) => G23::V6(M::from_val(&s[0]), M::from_val(&s[1])),
            (4294967296, s) => G23::V7(M::from_val(&s[0]), M::from_val(&s[1])),
            (256, s) => G23::V8(M::from_val(&s[0]), M::from_val(&s[1])),
            _ => panic!("no such variant"),
        }
    }
}

#[derive(Clone, Debug)]
pub enum G24 { V0((), HashMap<bool, Box<Rc<String>>, BH>), V1(Vec<G12>, isize), Other(u64, Duration, u64) }
fourleaf_retrofit!(enum G24 : {} {} {
    |_context|
    [4294967296] G24::V0(ref f0_name, ref f1_name) => {
        [28] f0_name: () = f0_name,
        [63] f1_name: HashMap<bool, Box<Rc<String>>, BH> = f1_name,
        { Ok(G24::V0(f0_name, f1_name)) }
    },
    [9223372036854775807] G24::V1(ref f0_x, ref f1_map) => {
        [41] f0_x: Vec<G12> = f0_x,
        [63] f1_map: isize = f1_map,
        { Ok(G24::V1(f0_x, f1_map)) }
    },
    (?) G24::Other(disc, ref f0_map, ref f1_map) => {
        (=) disc: u64 = disc,
        [23] f0_map: Duration = f0_map,
        [42] f1_map: u64 = f1_map,
        { Ok(G24::Other(disc, f0_map, f1_map)) }
    },
});
impl M for G24 {
    fn schema(_b: bool) -> Schema { enumeration("G24", vec![(4294967296, fields(vec![(28, "f0_name", <() as M>::schema(_b)), (63, "f1_name", <HashMap<bool, Box<Rc<String>>, BH> as M>::schema(_b))])), (9223372036854775807, fields(vec![(41, "f0_x", <Vec<G12> as M>::schema(_b)), (63, "f1_map", <isize as M>::schema(_b))]))], Some(fields(vec![(23, "f0_map", <Duration as M>::schema(_b)), (42, "f1_map", <u64 as M>::schema(_b))]))) }
    fn to_val(&self) -> Val {
        match *self {
            G24::V0(ref f0_name, ref f1_name) => Val::Enum(4294967296, vec![f0_name.to_val(), f1_name.to_val()]),
            G24::V1(ref f0_x, ref f1_map) => Val::Enum(9223372036854775807, vec![f0_x.to_val(), f1_map.to_val()]),
            G24::Other(disc, ref f0_map, ref f1_map) => Val::Enum(disc, vec![f0_map.to_val(), f1_map.to_val()]),
        }
    }
    fn from_val(v: &Val) -> Self {
        match en(v) {
            (4294967296, s) => G24::V0(M::from_val(&s[0]), M::from_val(&s[1])),
            (9223372036854775807, s) => G24::V1(M::from_val(&s[0]), M::from_val(&s[1])),
            (d, s) => G24::Other(d, M::from_val(&s[0]), M::from_val(&s[1])),
        }
    }
}

#[derive(Clone, Debug)]
pub enum G25 { V0(Vec<i64>, Vec<PhantomData<u8>>), Other(u64) }
fourleaf_retrofit!(enum G25 : {} {} {
    |_context|
    [4294967295] G25::V0(ref f0_x, ref f1_list) => {
        [1] f0_x: Vec<i64> = f0_x,
        [63] f1_list: Vec<PhantomData<u8>> = f1_list,
        { Ok(G25::V0(f0_x, f1_list)) }
    },
    (?) G25::Other(disc) => {
        (=) disc: u64 = disc,
        { Ok(G25::Other(disc)) }
    },
});
impl M for G25 {
    fn schema(_b: bool) -> Schema { enumeration("G25", vec![(4294967295, fields(vec![(1, "f0_x", <Vec<i64> as M>::schema(_b)), (63, "f1_list", <Vec<PhantomData<u8>> as M>::schema(_b))]))], Some(fields(vec![]))) }
    fn to_val(&self) -> Val {
        match *self {
            G25::V0(ref f0_x, ref f1_list) => Val::Enum(4294967295, vec![f0_x.to_val(), f1_list.to_val()]),
            G25::Other(disc) => Val::Enum(disc, vec![]),
        }
    }
    fn from_val(v: &Val) -> Self {
        match en(v) {
            (4294967295, s) => G25::V0(M::from_val(&s[0]), M::from_val(&s[1])),
            (d, _) => G25::Other(d),
        }
    }
}

#[derive(Clone, Debug)]
pub struct G26 { pub f0_len: Box<i64>, pub f1_len: BTreeMap<Vec<u8>, u16>, pub f2_x: char, pub f3_map: PhantomData<u8> }
fourleaf_retrofit!(struct G26 : {} {} {
    |_context, this|
    [1] f0_len: Box<i64> = &this.f0_len,
    [42] f1_len: BTreeMap<Vec<u8>, u16> = &this.f1_len,
    [46] f2_x: char = &this.f2_x,
    [7] f3_map: PhantomData<u8> = &this.f3_map,
    { Ok(G26 { f0_len: f0_len, f1_len: f1_len, f2_x: f2_x, f3_map: f3_map }) }
});
impl M for G26 {
    fn schema(_b: bool) -> Schema { Schema::Struct(Arc::new(StructDef { name: "G26", body: fields(vec![(1, "f0_len", <Box<i64> as M>::schema(_b)), (42, "f1_len", <BTreeMap<Vec<u8>, u16> as M>::schema(_b)), (46, "f2_x", <char as M>::schema(_b)), (7, "f3_map", <PhantomData<u8> as M>::schema(_b))]), check: None })) }
    fn to_val(&self) -> Val { Val::Struct(vec![self.f0_len.to_val(), self.f1_len.to_val(), self.f2_x.to_val(), self.f3_map.to_val()]) }
    fn from_val(v: &Val) -> Self { let s = st(v); G26 { f0_len: M::from_val(&s[0]), f1_len: M::from_val(&s[1]), f2_x: M::from_val(&s[2]), f3_map: M::from_val(&s[3]) } }
}

#[derive(Clone, Debug)]
pub enum G27 { V0(UnknownFields<'static>), V1(BTreeMap<(u8, i8), u64>), V2(PhantomData<u8>, PhantomData<u8>), V3(Vec<Vec<i8>>, G19, Option<i32>, i64, Vec<String>), V4(G12, G24, BTreeMap<String, PhantomData<u8>>, (i32, u8, u8,)), V5(Vec<Vec<usize>>, u8, G2, BTreeSet<char>), V6(char, [Option<Arc<u64>>; 0], UnknownFields<'static>), V7(G2, [(); 5], G25, i64), V8(char, Vec<u8>, SocketAddr, UnknownFields<'static>) }
fourleaf_retrofit!(enum G27 : {} {} {
    |_context|
    [18446744073709551615] G27::V0(ref rest) => {
        (?) rest: Copied<UnknownFields<'static>> = rest,
        { Ok(G27::V0(rest.0)) }
    },
    [2] G27::V1(ref f0_len) => {
        [61] f0_len: BTreeMap<(u8, i8), u64> = f0_len,
        { Ok(G27::V1(f0_len)) }
    },
    [127] G27::V2(ref f0_name, ref f1_v) => {
        [63] f0_name: PhantomData<u8> = f0_name,
        [19] f1_v: PhantomData<u8> = f1_v,
        { Ok(G27::V2(f0_name, f1_v)) }
    },
    [64] G27::V3(ref f0_len, ref f1_map, ref f2_x, ref f3_len, ref f4_x) => {
        [19] f0_len: Vec<Vec<i8>> = f0_len,
        [44] f1_map: G19 = f1_map,
        [63] f2_x: Option<i32> = f2_x,
        [3] f3_len: i64 = f3_len,
        [14] f4_x: Vec<String> = f4_x,
        { Ok(G27::V3(f0_len, f1_map, f2_x, f3_len, f4_x)) }
    },
    [9223372036854775808] G27::V4(ref f0_list, ref f1_list, ref f2_len, ref f3_x) => {
        [63] f0_list: G12 = f0_list,
        [23] f1_list: G24 = f1_list,
        [1] f2_len: BTreeMap<String, PhantomData<u8>> = f2_len,
        [48] f3_x: (i32, u8, u8,) = f3_x,
        { Ok(G27::V4(f0_list, f1_list, f2_len, f3_x)) }
    },
    [873303888326949] G27::V5(ref f0_name, ref f1_x, ref f2_v, ref f3_len) => {
        [61] f0_name: Vec<Vec<usize>> = f0_name,
        [53] f1_x: u8 = f1_x,
        [51] f2_v: G2 = f2_v,
        [37] f3_len: BTreeSet<char> = f3_len,
        { Ok(G27::V5(f0_name, f1_x, f2_v, f3_len)) }
    },
    [63] G27::V6(ref f0_v, ref f1_list, ref rest) => {
        [1] f0_v: char = f0_v,
        [21] f1_list: [Option<Arc<u64>>; 0] = f1_list,
        (?) rest: Copied<UnknownFields<'static>> = rest,
        { Ok(G27::V6(f0_v, f1_list, rest.0)) }
    },
    [0] G27::V7(ref f0_v, ref f1_x, ref f2_x, ref f3_len) => {
        [58] f0_v: G2 = f0_v,
        [57] f1_x: [(); 5] = f1_x,
        [26] f2_x: G25 = f2_x,
        [2] f3_len: i64 = f3_len,
        { Ok(G27::V7(f0_v, f1_x, f2_x, f3_len)) }
    },
    [539570957681100625] G27::V8(ref f0_len, ref f1_name, ref f2_x, ref rest) => {
        [37] f0_len: char = f0_len,
        [41] f1_name: Vec<u8> = f1_name,
        [55] f2_x: SocketAddr = f2_x,
        (?) rest: Copied<UnknownFields<'static>> = rest,
        { Ok(G27::V8(f0_len, f1_name, f2_x, rest.0)) }
    },
});
impl M for G27 {
    fn schema(_b: bool) -> Schema { enumeration("G27", vec![(18446744073709551615, with_unk(fields(vec![]), "rest", true)), (2, fields(vec![(61, "f0_len", <BTreeMap<(u8, i8), u64> as M>::schema(_b))])), (127, fields(vec![(63, "f0_name", <PhantomData<u8> as M>::schema(_b)), (19, "f1_v", <PhantomData<u8> as M>::schema(_b))])), (64, fields(vec![(19, "f0_len", <Vec<Vec<i8>> as M>::schema(_b)), (44, "f1_map", <G19 as M>::schema(_b)), (63, "f2_x", <Option<i32> as M>::schema(_b)), (3, "f3_len", <i64 as M>::schema(_b)), (14, "f4_x", <Vec<String> as M>::schema(_b))])), (9223372036854775808, fields(vec![(63, "f0_list", <G12 as M>::schema(_b)), (23, "f1_list", <G24 as M>::schema(_b)), (1, "f2_len", <BTreeMap<String, PhantomData<u8>> as M>::schema(_b)), (48, "f3_x", <(i32, u8, u8,) as M>::schema(_b))])), (873303888326949, fields(vec![(61, "f0_name", <Vec<Vec<usize>> as M>::schema(_b)), (53, "f1_x", <u8 as M>::schema(_b)), (51, "f2_v", <G2 as M>::schema(_b)), (37, "f3_len", <BTreeSet<char> as M>::schema(_b))])), (63, with_unk(fields(vec![(1, "f0_v", <char as M>::schema(_b)), (21, "f1_list", <[Option<Arc<u64>>; 0] as M>::schema(_b))]), "rest", true)), (0, fields(vec![(58, "f0_v", <G2 as M>::schema(_b)), (57, "f1_x", <[(); 5] as M>::schema(_b)), (26, "f2_x", <G25 as M>::schema(_b)), (2, "f3_len", <i64 as M>::schema(_b))])), (539570957681100625, with_unk(fields(vec![(37, "f0_len", <char as M>::schema(_b)), (41, "f1_name", <Vec<u8> as M>::schema(_b)), (55, "f2_x", <SocketAddr as M>::schema(_b))]), "rest", true))], None) }
    fn to_val(&self) -> Val {
        match *self {
            G27::V0(ref rest) => Val::Enum(18446744073709551615, vec![rest.to_val()]),
            G27::V1(ref f0_len) => Val::Enum(2, vec![f0_len.to_val()]),
            G27::V2(ref f0_name, ref f1_v) => Val::Enum(127, vec![f0_name.to_val(), f1_v.to_val()]),
            G27::V3(ref f0_len, ref f1_map, ref f2_x, ref f3_len, ref f4_x) => Val::Enum(64, vec![f0_len.to_val(), f1_map.to_val(), f2_x.to_val(), f3_len.to_val(), f4_x.to_val()]),
            G27::V4(ref f0_list, ref f1_list, ref f2_len, ref f3_x) => Val::Enum(9223372036854775808, vec![f0_list.to_val(), f1_list.to_val(), f2_len.to_val(), f3_x.to_val()]),
            G27::V5(ref f0_name, ref f1_x, ref f2_v, ref f3_len) => Val::Enum(873303888326949, vec![f0_name.to_val(), f1_x.to_val(), f2_v.to_val(), f3_len.to_val()]),
            G27::V6(ref f0_v, ref f1_list, ref rest) => Val::Enum(63, vec![f0_v.to_val(), f1_list.to_val(), rest.to_val()]),
            G27::V7(ref f0_v, ref f1_x, ref f2_x, ref f3_len) => Val::Enum(0, vec![f0_v.to_val(), f1_x.to_val(), f2_x.to_val(), f3_len.to_val()]),
            G27::V8(ref f0_len, ref f1_name, ref f2_x, ref rest) => Val::Enum(539570957681100625, vec![f0_len.to_val(), f1_name.to_val(), f2_x.to_val(), rest.to_val()]),
        }
    }
    fn from_val(v: &Val) -> Self {
        match en(v) {
            (18446744073709551615, s) => G27::V0(M::from_val(&s[0])),
            (2, s) => G27::V1(M::from_val(&s[0])),
            (127, s) => G27::V2(M::from_val(&s[0]), M::from_val(&s[1])),
            (64, s) => G27::V3(M::from_val(&s[0]), M::from_val(&s[1]), M::from_val(&s[2]), M::from_val(&s[3]), M::from_val(&s[4])),
            (9223372036854775808, s) => G27::V4(M::from_val(&s[0]), M::from_val(&s[1]), M::from_val(&s[2]), M::from_val(&s[3])),
            (873303888326949, s) => G27::V5(M::from_val(&s[0]), M::from_val(&s[1]), M::from_val(&s[2]), M::from_val(&s[3])),
            (63, s) => G27::V6(M::from_val(&s[0]), M::from_val(&s[1]), M::from_val(&s[2])),
            (0, s) => G27::V7(M::from_val(&s[0]), M::from_val(&s[1]), M::from_val(&s[2]), M::from_val(&s[3])),
            (539570957681100625, s) => G27::V8(M::from_val(&s[0]), M::from_val(&s[1]), M::from_val(&s[2]), M::from_val(&s[3])),
            _ => panic!("no such variant"),
        }
    }
}

#[derive(Clone, Debug)]
pub enum G28 { V0(BTreeSet<String>, isize, Rc<u16>, G24, ()) }
fourleaf_retrofit!(enum G28 : {} {} {
    |_context|
    [18446744073709551614] G28::V0(ref f0_x, ref f1_map, ref f2_list, ref f3_len, ref f4_name) => {
        [18] f0_x: BTreeSet<String> = f0_x,
        [22] f1_map: isize = f1_map,
        [28] f2_list: Rc<u16> = f2_list,
        [1] f3_len: G24 = f3_len,
        [50] f4_name: () = f4_name,
        { Ok(G28::V0(f0_x, f1_map, f2_list, f3_len, f4_name)) }
    },
});
impl M for G28 {
    fn schema(_b: bool) -> Schema { enumeration("G28", vec![(18446744073709551614, fields(vec![(18, "f0_x", <BTreeSet<String> as M>::schema(_b)), (22, "f1_map", <isize as M>::schema(_b)), (28, "f2_list", <Rc<u16> as M>::schema(_b)), (1, "f3_len", <G24 as M>::schema(_b)), (50, "f4_name", <() as M>::schema(_b))]))], None) }
    fn to_val(&self) -> Val {
        match *self {
            G28::V0(ref f0_x, ref f1_map, ref f2_list, ref f3_len, ref f4_name) => Val::Enum(18446744073709551614, vec![f0_x.to_val(), f1_map.to_val(), f2_list.to_val(), f3_len.to_val(), f4_name.to_val()]),
        }
    }
    fn from_val(v: &Val) -> Self {
        match en(v) {
            (18446744073709551614, s) => G28::V0(M::from_val(&s[0]), M::from_val(&s[1]), M::from_val(&s[2]), M::from_val(&s[3]), M::from_val(&s[4])),
            _ => panic!("no such variant"),
        }
    }
}

#[derive(Clone, Debug)]
pub struct G29 { pub f0_map: (), pub f1_v: IpAddr, pub f2_len: u16, pub f3_map: Result<i64, i32>, pub f4_x: () }
fourleaf_retrofit!(struct G29 : {} {} {
    |_context, this|
    [63] f0_map: () = &this.f0_map,
    [31] f1_v: IpAddr = &this.f1_v,
    [38] f2_len: u16 = &this.f2_len,
    [48] f3_map: Result<i64, i32> = &this.f3_map,
    [23] f4_x: () = &this.f4_x,
    { Ok(G29 { f0_map: f0_map, f1_v: f1_v, f2_len: f2_len, f3_map: f3_map, f4_x: f4_x }) }
});
impl M for G29 {
    fn schema(_b: bool) -> Schema { Schema::Struct(Arc::new(StructDef { name: "G29", body: fields(vec![(63, "f0_map", <() as M>::schema(_b)), (31, "f1_v", <IpAddr as M>::schema(_b)), (38, "f2_len", <u16 as M>::schema(_b)), (48, "f3_map", <Result<i64, i32> as M>::schema(_b)), (23, "f4_x", <() as M>::schema(_b))]), check: None })) }
    fn to_val(&self) -> Val { Val::Struct(vec![self.f0_map.to_val(), self.f1_v.to_val(), self.f2_len.to_val(), self.f3_map.to_val(), self.f4_x.to_val()]) }
    fn from_val(v: &Val) -> Self { let s = st(v); G29 { f0_map: M::from_val(&s[0]), f1_v: M::from_val(&s[1]), f2_len: M::from_val(&s[2]), f3_map: M::from_val(&s[3]), f4_x: M::from_val(&s[4]) } }
}

#[derive(Clone, Debug)]
pub enum G30 { V0(u64, i32, G15, bool, Option<Duration>, UnknownFields<'static>), V1(PhantomData<u8>, [G22; 2], u64, Vec<u8>, BTreeSet<bool>), Other(u64, HashMap<i32, char, BH>) }
fourleaf_retrofit!(enum G30 : {} {} {
    |_context|
    [256] G30::V0(ref f0_map, ref f1_name, ref f2_len, ref f3_map, ref f4_list, ref rest) => {
        [33] f0_map: u64 = f0_map,
        [5] f1_name: i32 = f1_name,
        [1] f2_len: G15 = f2_len,
        [39] f3_map: bool = f3_map,
        [63] f4_list: Option<Duration> = f4_list,
        (?) rest: Copied<UnknownFields<'static>> = rest,
        { Ok(G30::V0(f0_map, f1_name, f2_len, f3_map, f4_list, rest.0)) }
    },
    [16383] G30::V1(ref f0_v, ref f1_len, ref f2_v, ref f3_len, ref f4_x) => {
        [1] f0_v: PhantomData<u8> = f0_v,
        [11] f1_len: [G22; 2] = f1_len,
        [22] f2_v: u64 = f2_v,
        [27] f3_len: Vec<u8> = f3_len,
        [31] f4_x: BTreeSet<bool> = f4_x,
        { Ok(G30::V1(f0_v, f1_len, f2_v, f3_len, f4_x)) }
    },
    (?) G30::Other(disc, ref f0_x) => {
        (=) disc: u64 = disc,
        [1] f0_x: HashMap<i32, char, BH> = f0_x,
        { Ok(G30::Other(disc, f0_x)) }
    },
});
impl M for G30 {
    fn schema(_b: bool) -> Schema { enumeration("G30", vec![(256, with_unk(fields(vec![(33, "f0_map", <u64 as M>::schema(_b)), (5, "f1_name", <i32 as M>::schema(_b)), (1, "f2_len", <G15 as M>::schema(_b)), (39, "f3_map", <bool as M>::schema(_b)), (63, "f4_list", <Option<Duration> as M>::schema(_b))]), "rest", true)), (16383, fields(vec![(1, "f0_v", <PhantomData<u8> as M>::schema(_b)), (11, "f1_len", <[G22; 2] as M>::schema(_b)), (22, "f2_v", <u64 as M>::schema(_b)), (27, "f3_len", <Vec<u8> as M>::schema(_b)), (31, "f4_x", <BTreeSet<bool> as M>::schema(_b))]))], Some(fields(vec![(1, "f0_x", <HashMap<i32, char, BH> as M>::schema(_b))]))) }
    fn to_val(&self) -> Val {
        match *self {
            G30::V0(ref f0_map, ref f1_name, ref f2_len, ref f3_map, ref f4_list, ref rest) => Val::Enum(256, vec![f0_map.to_val(), f1_name.to_val(), f2_len.to_val(), f3_map.to_val(), f4_list.to_val(), rest.to_val()]),
            G30::V1(ref f0_v, ref f1_len, ref f2_v, ref f3_len, ref f4_x) => Val::Enum(16383, vec![f0_v.to_val(), f1_len.to_val(), f2_v.to_val(), f3_len.to_val(), f4_x.to_val()]),
            G30::Other(disc, ref f0_x) => Val::Enum(disc, vec![f0_x.to_val()]),
        }
    }
    fn from_val(v: &Val) -> Self {
        match en(v) {
            (256, s) => G30::V0(M::from_val(&s[0]), M::from_val(&s[1]), M::from_val(&s[2]), M::from_val(&s[3]), M::from_val(&s[4]), M::from_val(&s[5])),
            (16383, s) => G30::V1(M::from_val(&s[0]), M::from_val(&s[1]), M::from_val(&s[2]), M::from_val(&s[3]), M::from_val(&s[4])),
            (d, s) => G30::Other(d, M::from_val(&s[0])),
        }
    }
}

#[derive(Clone, Debug)]
pub enum G31 { V0(i32), V1(i64, bool, [String; 3], UnknownFields<'static>), V2(i8, isize), V3(IpAddr), Other(u64, Vec<u8>, bool, G11, G26) }
fourleaf_retrofit!(enum G31 : {} {} {
    |_context|
    [72057594037927936] G31::V0(ref inner) => {
        (*) inner: i32 = inner,
        { Ok(G31::V0(inner)) }
    },
    [2147483648] G31::V1(ref f0_list, ref f1_v, ref f2_map, ref rest) => {
        [23] f0_list: i64 = f0_list,
        [29] f1_v: bool = f1_v,
        [57] f2_map: [String; 3] = f2_map,
        (?) rest: Copied<UnknownFields<'static>> = rest,
        { Ok(G31::V1(f0_list, f1_v, f2_map, rest.0)) }
    },
    [18446744073709551614] G31::V2(ref f0_x, ref f1_v) => {
        [12] f0_x: i8 = f0_x,
        [21] f1_v: isize = f1_v,
        { Ok(G31::V2(f0_x, f1_v)) }
    },
    [16383] G31::V3(ref f0_v) => {
        [63] f0_v: IpAddr = f0_v,
        { Ok(G31::V3(f0_v)) }
    },
    (?) G31::Other(disc, ref f0_v, ref f1_name, ref f2_list, ref f3_x) => {
        (=) disc: u64 = disc,
        [1] f0_v: Vec<u8> = f0_v,
        [54] f1_name: bool = f1_name,
        [30] f2_list: G11 = f2_list,
        [62] f3_x: G26 = f3_x,
        { Ok(G31::Other(disc, f0_v, f1_name, f2_list, f3_x)) }
    },
});
impl M for G31 {
    fn schema(_b: bool) -> Schema { enumeration("G31", vec![(72057594037927936, dbody("inner", <i32 as M>::schema(_b))), (2147483648, with_unk(fields(vec![(23, "f0_list", <i64 as M>::schema(_b)), (29, "f1_v", <bool as M>::schema(_b)), (57, "f2_map", <[String; 3] as M>::schema(_b))]), "rest", true)), (18446744073709551614, fields(vec![(12, "f0_x", <i8 as M>::schema(_b)), (21, "f1_v", <isize as M>::schema(_b))])), (16383, fields(vec![(63, "f0_v", <IpAddr as M>::schema(_b))]))], Some(fields(vec![(1, "f0_v", <Vec<u8> as M>::schema(_b)), (54, "f1_name", <bool as M>::schema(_b)), (30, "f2_list", <G11 as M>::schema(_b)), (62, "f3_x", <G26 as M>::schema(_b))]))) }
    fn to_val(&self) -> Val {
        match *self {
            G31::V0(ref inner) => Val::Enum(72057594037927936, vec![inner.to_val()]),
            G31::V1(ref f0_list, ref f1_v, ref f2_map, ref rest) => Val::Enum(2147483648, vec![f0_list.to_val(), f1_v.to_val(), f2_map.to_val(), rest.to_val()]),
            G31::V2(ref f0_x, ref f1_v) => Val::Enum(18446744073709551614, vec![f0_x.to_val(), f1_v.to_val()]),
            G31::V3(ref f0_v) => Val::Enum(16383, vec![f0_v.to_val()]),
            G31::Other(disc, ref f0_v, ref f1_name, ref f2_list, ref f3_x) => Val::Enum(disc, vec![f0_v.to_val(), f1_name.to_val(), f2_list.to_val(), f3_x.to_val()]),
        }
    }
    fn from_val(v: &Val) -> Self {
        match en(v) {
            (72057594037927936, s) => G31::V0(M::from_val(&s[0])),
            (2147483648, s) => G31::V1(M::from_val(&s[0]), M::from_val(&s[1]), M::from_val(&s[2]), M::from_val(&s[3])),
            (18446744073709551614, s) => G31::V2(M::from_val(&s[0]), M::from_val(&s[1])),
            (16383, s) => G31::V3(M::from_val(&s[0])),
            (d, s) => G31::Other(d, M::from_val(&s[0]), M::from_val(&s[1]), M::from_val(&s[2]), M::from_val(&s[3])),
        }
    }
}

#[derive(Clone, Debug)]
pub enum G32 { V0(UnknownFields<'static>) }
fourleaf_retrofit!(enum G32 : {} {} {
    |_context|
    [2] G32::V0(ref rest) => {
        (?) rest: Copied<UnknownFields<'static>> = rest,
        { Ok(G32::V0(rest.0)) }
    },
});
impl M for G32 {
    fn schema(_b: bool) -> Schema { enumeration("G32", vec![(2, with_unk(fields(vec![]), "rest", true))], None) }
    fn to_val(&self) -> Val {
        match *self {
            G32::V0(ref rest) => Val::Enum(2, vec![rest.to_val()]),
        }
    }
    fn from_val(v: &Val) -> Self {
        match en(v) {
            (2, s) => G32::V0(M::from_val(&s[0])),
            _ => panic!("no such variant"),
        }
    }
}

#[derive(Clone, Debug)]
pub enum G33<'a> { V0(BinaryHeap<char>, Cow<'a, str>), V1(u8, HashSet<u16, BH>), V2(Arc<&'a str>), V3(Duration, bool, LinkedList<&'a [u8]>), V4(&'a str), V5(UnknownFields<'a>), V6(Result<Result<IpAddr, [IpAddr; 2]>, Option<Vec<Cow<'a, str>>>>), V7(Cow<'a, [u8]>), V8(Option<Cow<'a, str>>, u64, u8, VecDeque<u8>, UnknownFields<'a>), Other(u64, Cow<'a, str>, BTreeMap<u16, &'a str>, (Vec<G20>,)) }
fourleaf_retrofit!(enum G33<'a> : { impl<'a> Serialize for G33<'a> } {
    impl<'a, R: std::io::Read, STYLE> Deserialize<R, STYLE> for G33<'a> where Cow<'a, str>: Deserialize<R, STYLE>, &'a str: Deserialize<R, STYLE>, &'a [u8]: Deserialize<R, STYLE>, UnknownFields<'a>: Deserialize<R, STYLE>, Cow<'a, [u8]>: Deserialize<R, STYLE>
} {
    |_context|
    [3] G33::V0(ref f0_x, ref f1_list) => {
        [47] f0_x: BinaryHeap<char> = f0_x,
        [45] f1_list: Cow<'a, str> = f1_list,
        { Ok(G33::V0(f0_x, f1_list)) }
    },
    [16384] G33::V1(ref f0_name, ref f1_v) => {
        [2] f0_name: u8 = f0_name,
        [4] f1_v: HashSet<u16, BH> = f1_v,
        { Ok(G33::V1(f0_name, f1_v)) }
    },
    [4294967296] G33::V2(ref f0_list) => {
        [63] f0_list: Arc<&'a str> = f0_list,
        { Ok(G33::V2(f0_list)) }
    },
    [1034492649694198179] G33::V3(ref f0_len, ref f1_name, ref f2_len) => {
        [8] f0_len: Duration = f0_len,
        [53] f1_name: bool = f1_name,
        [63] f2_len: LinkedList<&'a [u8]> = f2_len,
        { Ok(G33::V3(f0_len, f1_name, f2_len)) }
    },
    [0] G33::V4(ref f0_map) => {
        [63] f0_map: &'a str = f0_map,
        { Ok(G33::V4(f0_map)) }
    },
    [9223372036854775808] G33::V5(ref rest) => {
        (?) rest: UnknownFields<'a> = rest,
        { Ok(G33::V5(rest)) }
    },
    [1] G33::V6(ref inner) => {
        (*) inner: Result<Result<IpAddr, [IpAddr; 2]>, Option<Vec<Cow<'a, str>>>> = inner,
        { Ok(G33::V6(inner)) }
    },
    [400616145937697] G33::V7(ref inner) => {
        (*) inner: Cow<'a, [u8]> = inner,
        { Ok(G33::V7(inner)) }
    },
    [62878369558] G33::V8(ref f0_x, ref f1_map, ref f2_x, ref f3_v, ref rest) => {
        [11] f0_x: Option<Cow<'a, str>> = f0_x,
        [63] f1_map: u64 = f1_map,
        [14] f2_x: u8 = f2_x,
        [55] f3_v: VecDeque<u8> = f3_v,
        (?) rest: UnknownFields<'a> = rest,
        { Ok(G33::V8(f0_x, f1_map, f2_x, f3_v, rest)) }
    },
    (?) G33::Other(disc, ref f0_v, ref f1_list, ref f2_list) => {
        (=) disc: u64 = disc,
        [1] f0_v: Cow<'a, str> = f0_v,
        [15] f1_list: BTreeMap<u16, &'a str> = f1_list,
        [35] f2_list: (Vec<G20>,) = f2_list,
        { Ok(G33::Other(disc, f0_v, f1_list, f2_list)) }
    },
});
impl<'a> M for G33<'a> {
    fn schema(_b: bool) -> Schema { enumeration("G33", vec![(3, fields(vec![(47, "f0_x", <BinaryHeap<char> as M>::schema(_b)), (45, "f1_list", <Cow<'a, str> as M>::schema(_b))])), (16384, fields(vec![(2, "f0_name", <u8 as M>::schema(_b)), (4, "f1_v", <HashSet<u16, BH> as M>::schema(_b))])), (4294967296, fields(vec![(63, "f0_list", <Arc<&'a str> as M>::schema(_b))])), (1034492649694198179, fields(vec![(8, "f0_len", <Duration as M>::schema(_b)), (53, "f1_name", <bool as M>::schema(_b)), (63, "f2_len", <LinkedList<&'a [u8]> as M>::schema(_b))])), (0, fields(vec![(63, "f0_map", <&'a str as M>::schema(_b))])), (9223372036854775808, with_unk(fields(vec![]), "rest", !_b)), (1, dbody("inner", <Result<Result<IpAddr, [IpAddr; 2]>, Option<Vec<Cow<'a, str>>>> as M>::schema(_b))), (400616145937697, dbody("inner", <Cow<'a, [u8]> as M>::schema(_b))), (62878369558, with_unk(fields(vec![(11, "f0_x", <Option<Cow<'a, str>> as M>::schema(_b)), (63, "f1_map", <u64 as M>::schema(_b)), (14, "f2_x", <u8 as M>::schema(_b)), (55, "f3_v", <VecDeque<u8> as M>::schema(_b))]), "rest", !_b))], Some(fields(vec![(1, "f0_v", <Cow<'a, str> as M>::schema(_b)), (15, "f1_list", <BTreeMap<u16, &'a str> as M>::schema(_b)), (35, "f2_list", <(Vec<G20>,) as M>::schema(_b))]))) }
    fn to_val(&self) -> Val {
        match *self {
            G33::V0(ref f0_x, ref f1_list) => Val::Enum(3, vec![f0_x.to_val(), f1_list.to_val()]),
            G33::V1(ref f0_name, ref f1_v) => Val::Enum(16384, vec![f0_name.to_val(), f1_v.to_val()]),
            G33::V2(ref f0_list) => Val::Enum(4294967296, vec![f0_list.to_val()]),
            G33::V3(ref f0_len, ref f1_name, ref f2_len) => Val::Enum(1034492649694198179, vec![f0_len.to_val(), f1_name.to_val(), f2_len.to_val()]),
            G33::V4(ref f0_map) => Val::Enum(0, vec![f0_map.to_val()]),
            G33::V5(ref rest) => Val::Enum(9223372036854775808, vec![rest.to_val()]),
            G33::V6(ref inner) => Val::Enum(1, vec![inner.to_val()]),
            G33::V7(ref inner) => Val::Enum(400616145937697, vec![inner.to_val()]),
            G33::V8(ref f0_x, ref f1_map, ref f2_x, ref f3_v, ref rest) => Val::Enum(62878369558, vec![f0_x.to_val(), f1_map.to_val(), f2_x.to_val(), f3_v.to_val(), rest.to_val()]),
            G33::Other(disc, ref f0_v, ref f1_list, ref f2_list) => Val::Enum(disc, vec![f0_v.to_val(), f1_list.to_val(), f2_list.to_val()]),
        }
    }
    fn from_val(v: &Val) -> Self {
        match en(v) {
            (3, s) => G33::V0(M::from_val(&s[0]), M::from_val(&s[1])),
            (16384, s) => G33::V1(M::from_val(&s[0]), M::from_val(&s[1])),
            (4294967296, s) => G33::V2(M::from_val(&s[0])),
            (1034492649694198179, s) => G33::V3(M::from_val(&s[0]), M::from_val(&s[1]), M::from_val(&s[2])),
            (0, s) => G33::V4(M::from_val(&s[0])),
            (9223372036854775808, s) => G33::V5(M::from_val(&s[0])),
            (1, s) => G33::V6(M::from_val(&s[0])),
            (400616145937697, s) => G33::V7(M::from_val(&s[0])),
            (62878369558, s) => G33::V8(M::from_val(&s[0]), M::from_val(&s[1]), M::from_val(&s[2]), M::from_val(&s[3]), M::from_val(&s[4])),
            (d, s) => G33::Other(d, M::from_val(&s[0]), M::from_val(&s[1]), M::from_val(&s[2])),
        }
    }
}

#[derive(Clone, Debug)]
pub struct G34<'a> { pub f0_list: Result<PhantomData<u8>, Cow<'a, str>>, pub f1_map: &'a str, pub f2_name: Option<&'a [u8]>, pub rest: UnknownFields<'a> }
fourleaf_retrofit!(struct G34<'a> : { impl<'a> Serialize for G34<'a> } {
    impl<'a, R: std::io::Read, STYLE> Deserialize<R, STYLE> for G34<'a> where Cow<'a, str>: Deserialize<R, STYLE>, &'a str: Deserialize<R, STYLE>, &'a [u8]: Deserialize<R, STYLE>, UnknownFields<'a>: Deserialize<R, STYLE>
} {
    |_context, this|
    [63] f0_list: Result<PhantomData<u8>, Cow<'a, str>> = &this.f0_list,
    [1] f1_map: &'a str = &this.f1_map,
    [61] f2_name: Option<&'a [u8]> = &this.f2_name,
    (?) rest: UnknownFields<'a> = &this.rest,
    { Ok(G34 { f0_list: f0_list, f1_map: f1_map, f2_name: f2_name, rest: rest }) }
});
impl<'a> M for G34<'a> {
    fn schema(_b: bool) -> Schema { Schema::Struct(Arc::new(StructDef { name: "G34", body: with_unk(fields(vec![(63, "f0_list", <Result<PhantomData<u8>, Cow<'a, str>> as M>::schema(_b)), (1, "f1_map", <&'a str as M>::schema(_b)), (61, "f2_name", <Option<&'a [u8]> as M>::schema(_b))]), "rest", !_b), check: None })) }
    fn to_val(&self) -> Val { Val::Struct(vec![self.f0_list.to_val(), self.f1_map.to_val(), self.f2_name.to_val(), self.rest.to_val()]) }
    fn from_val(v: &Val) -> Self { let s = st(v); G34 { f0_list: M::from_val(&s[0]), f1_map: M::from_val(&s[1]), f2_name: M::from_val(&s[2]), rest: M::from_val(&s[3]) } }
}

#[derive(Clone, Debug)]
pub struct G35<'a> { pub f0_list: Duration, pub f1_list: BTreeMap<String, Vec<u8>>, pub mark: PhantomData<&'a ()> }
fourleaf_retrofit!(struct G35<'a> : { impl<'a> Serialize for G35<'a> } {
    impl<'a, R: std::io::Read, STYLE> Deserialize<R, STYLE> for G35<'a> 
} {
    |_context, this|
    [13] f0_list: Duration = &this.f0_list,
    [53] f1_list: BTreeMap<String, Vec<u8>> = &this.f1_list,
    { Ok(G35 { f0_list: f0_list, f1_list: f1_list, mark: PhantomData }) }
});
impl<'a> M for G35<'a> {
    fn schema(_b: bool) -> Schema { Schema::Struct(Arc::new(StructDef { name: "G35", body: fields(vec![(13, "f0_list", <Duration as M>::schema(_b)), (53, "f1_list", <BTreeMap<String, Vec<u8>> as M>::schema(_b))]), check: None })) }
    fn to_val(&self) -> Val { Val::Struct(vec![self.f0_list.to_val(), self.f1_list.to_val()]) }
    fn from_val(v: &Val) -> Self { let s = st(v); G35 { f0_list: M::from_val(&s[0]), f1_list: M::from_val(&s[1]), mark: PhantomData } }
}

#[derive(Clone, Debug)]
pub struct G36<'a> { pub f0_name: Cow<'a, [u8]> }
fourleaf_retrofit!(struct G36<'a> : { impl<'a> Serialize for G36<'a> } {
    impl<'a, R: std::io::Read, STYLE> Deserialize<R, STYLE> for G36<'a> where Cow<'a, [u8]>: Deserialize<R, STYLE>
} {
    |_context, this|
    [5] f0_name: Cow<'a, [u8]> = &this.f0_name,
    { Ok(G36 { f0_name: f0_name }) }
});
impl<'a> M for G36<'a> {
    fn schema(_b: bool) -> Schema { Schema::Struct(Arc::new(StructDef { name: "G36", body: fields(vec![(5, "f0_name", <Cow<'a, [u8]> as M>::schema(_b))]), check: None })) }
    fn to_val(&self) -> Val { Val::Struct(vec![self.f0_name.to_val()]) }
    fn from_val(v: &Val) -> Self { let s = st(v); G36 { f0_name: M::from_val(&s[0]) } }
}

#[derive(Clone, Debug)]
pub enum G37<'a> { V0(Cow<'a, [u8]>, Box<Arc<Cow<'a, str>>>, Result<Cow<'a, str>, Cow<'a, str>>, BinaryHeap<i8>, UnknownFields<'a>), V1(String, i64, SocketAddr, Duration), V2(BinaryHeap<Option<u16>>, G18, Cow<'a, [u8]>), V3((), G35<'a>, Vec<Cow<'a, str>>), V4(Cow<'a, str>, UnknownFields<'a>), V5(UnknownFields<'a>), V6(BTreeSet<i32>, BTreeMap<i8, PhantomData<u8>>, Result<Cow<'a, str>, Cow<'a, str>>, Option<Cow<'a, [u8]>>, UnknownFields<'a>), V7, V8 }
fourleaf_retrofit!(enum G37<'a> : { impl<'a> Serialize for G37<'a> } {
    impl<'a, R: std::io::Read, STYLE> Deserialize<R, STYLE> for G37<'a> where Cow<'a, [u8]>: Deserialize<R, STYLE>, Cow<'a, str>: Deserialize<R, STYLE>, UnknownFields<'a>: Deserialize<R, STYLE>, G35<'a>: Deserialize<R, STYLE>
} {
    |_context|
    [72057594037927936] G37::V0(ref f0_map, ref f1_name, ref f2_len, ref f3_name, ref rest) => {
        [9] f0_map: Cow<'a, [u8]> = f0_map,
        [12] f1_name: Box<Arc<Cow<'a, str>>> = f1_name,
        [17] f2_len: Result<Cow<'a, str>, Cow<'a, str>> = f2_len,
        [24] f3_name: BinaryHeap<i8> = f3_name,
        (?) rest: UnknownFields<'a> = rest,
        { Ok(G37::V0(f0_map, f1_name, f2_len, f3_name, rest)) }
    },
    [2147483648] G37::V1(ref f0_map, ref f1_list, ref f2_v, ref f3_map) => {
        [63] f0_map: String = f0_map,
        [45] f1_list: i64 = f1_list,
        [50] f2_v: SocketAddr = f2_v,
        [60] f3_map: Duration = f3_map,
        { Ok(G37::V1(f0_map, f1_list, f2_v, f3_map)) }
    },
    [858072763673273] G37::V2(ref f0_list, ref f1_name, ref f2_x) => {
        [32] f0_list: BinaryHeap<Option<u16>> = f0_list,
        [1] f1_name: G18 = f1_name,
        [63] f2_x: Cow<'a, [u8]> = f2_x,
        { Ok(G37::V2(f0_list, f1_name, f2_x)) }
    },
    [9] G37::V3(ref f0_x, ref f1_map, ref f2_list) => {
        [60] f0_x: () = f0_x,
        [6] f1_map: G35<'a> = f1_map,
        [13] f2_list: Vec<Cow<'a, str>> = f2_list,
        { Ok(G37::V3(f0_x, f1_map, f2_list)) }
    },
    [256] G37::V4(ref f0_v, ref rest) => {
        [1] f0_v: Cow<'a, str> = f0_v,
        (?) rest: UnknownFields<'a> = rest,
        { Ok(G37::V4(f0_v, rest)) }
    },
    [16383] G37::V5(ref rest) => {
        (?) rest: UnknownFields<'a> = rest,
        { Ok(G37::V5(rest)) }
    },
    [3] G37::V6(ref f0_name, ref f1_map, ref f2_name, ref f3_map, ref rest) => {
        [45] f0_name: BTreeSet<i32> = f0_name,
        [44] f1_map: BTreeMap<i8, PhantomData<u8>> = f1_map,
        [49] f2_name: Result<Cow<'a, str>, Cow<'a, str>> = f2_name,
        [47] f3_map: Option<Cow<'a, [u8]>> = f3_map,
        (?) rest: UnknownFields<'a> = rest,
        { Ok(G37::V6(f0_name, f1_map, f2_name, f3_map, rest)) }
    },
    [45278523381] G37::V7 => {
        { Ok(G37::V7) }
    },
    [9223372036854775807] G37::V8 => {
        { Ok(G37::V8) }
    },
});
impl<'a> M for G37<'a> {
    fn schema(_b: bool) -> Schema { enumeration("G37", vec![(72057594037927936, with_unk(fields(vec![(9, "f0_map", <Cow<'a, [u8]> as M>::schema(_b)), (12, "f1_name", <Box<Arc<Cow<'a, str>>> as M>::schema(_b)), (17, "f2_len", <Result<Cow<'a, str>, Cow<'a, str>> as M>::schema(_b)), (24, "f3_name", <BinaryHeap<i8> as M>::schema(_b))]), "rest", !_b)), (2147483648, fields(vec![(63, "f0_map", <String as M>::schema(_b)), (45, "f1_list", <i64 as M>::schema(_b)), (50, "f2_v", <SocketAddr as M>::schema(_b)), (60, "f3_map", <Duration as M>::schema(_b))])), (858072763673273, fields(vec![(32, "f0_list", <BinaryHeap<Option<u16>> as M>::schema(_b)), (1, "f1_name", <G18 as M>::schema(_b)), (63, "f2_x", <Cow<'a, [u8]> as M>::schema(_b))])), (9, fields(vec![(60, "f0_x", <() as M>::schema(_b)), (6, "f1_map", <G35<'a> as M>::schema(_b)), (13, "f2_list", <Vec<Cow<'a, str>> as M>::schema(_b))])), (256, with_unk(fields(vec![(1, "f0_v", <Cow<'a, str> as M>::schema(_b))]), "rest", !_b)), (16383, with_unk(fields(vec![]), "rest", !_b)), (3, with_unk(fields(vec![(45, "f0_name", <BTreeSet<i32> as M>::schema(_b)), (44, "f1_map", <BTreeMap<i8, PhantomData<u8>> as M>::schema(_b)), (49, "f2_name", <Result<Cow<'a, str>, Cow<'a, str>> as M>::schema(_b)), (47, "f3_map", <Option<Cow<'a, [u8]>> as M>::schema(_b))]), "rest", !_b)), (45278523381, fields(vec![])), (9223372036854775807, fields(vec![]))], None) }
    fn to_val(&self) -> Val {
        match *self {
            G37::V0(ref f0_map, ref f1_name, ref f2_len, ref f3_name, ref rest) => Val::Enum(72057594037927936, vec![f0_map.to_val(), f1_name.to_val(), f2_len.to_val(), f3_name.to_val(), rest.to_val()]),
            G37::V1(ref f0_map, ref f1_list, ref f2_v, ref f3_map) => Val::Enum(2147483648, vec![f0_map.to_val(), f1_list.to_val(), f2_v.to_val(), f3_map.to_val()]),
            G37::V2(ref f0_list, ref f1_name, ref f2_x) => Val::Enum(858072763673273, vec![f0_list.to_val(), f1_name.to_val(), f2_x.to_val()]),
            G37::V3(ref f0_x, ref f1_map, ref f2_list) => Val::Enum(9, vec![f0_x.to_val(), f1_map.to_val(), f2_list.to_val()]),
            G37::V4(ref f0_v, ref rest) => Val::Enum(256, vec![f0_v.to_val(), rest.to_val()]),
            G37::V5(ref rest) => Val::Enum(16383, vec![rest.to_val()]),
            G37::V6(ref f0_name, ref f1_map, ref f2_name, ref f3_map, ref rest) => Val::Enum(3, vec![f0_name.to_val(), f1_map.to_val(), f2_name.to_val(), f3_map.to_val(), rest.to_val()]),
            G37::V7 => Val::Enum(45278523381, vec![]),
            G37::V8 => Val::Enum(9223372036854775807, vec![]),
        }
    }
    fn from_val(v: &Val) -> Self {
        match en(v) {
            (72057594037927936, s) => G37::V0(M::from_val(&s[0]), M::from_val(&s[1]), M::from_val(&s[2]), M::from_val(&s[3]), M::from_val(&s[4])),
            (2147483648, s) => G37::V1(M::from_val(&s[0]), M::from_val(&s[1]), M::from_val(&s[2]), M::from_val(&s[3])),
            (858072763673273, s) => G37::V2(M::from_val(&s[0]), M::from_val(&s[1]), M::from_val(&s[2])),
            (9, s) => G37::V3(M::from_val(&s[0]), M::from_val(&s[1]), M::from_val(&s[2])),
            (256, s) => G37::V4(M::from_val(&s[0]), M::from_val(&s[1])),
            (16383, s) => G37::V5(M::from_val(&s[0])),
            (3, s) => G37::V6(M::from_val(&s[0]), M::from_val(&s[1]), M::from_val(&s[2]), M::from_val(&s[3]), M::from_val(&s[4])),
            (45278523381, _) => G37::V7,
            (9223372036854775807, _) => G37::V8,
            _ => panic!("no such variant"),
        }
    }
}

#[derive(Clone, Debug)]
pub enum G38<'a> { V0(UnknownFields<'a>) }
fourleaf_retrofit!(enum G38<'a> : { impl<'a> Serialize for G38<'a> } {
    impl<'a, R: std::io::Read, STYLE> Deserialize<R, STYLE> for G38<'a> where UnknownFields<'a>: Deserialize<R, STYLE>
} {
    |_context|
    [9223372036854775807] G38::V0(ref rest) => {
        (?) rest: UnknownFields<'a> = rest,
        { Ok(G38::V0(rest)) }
    },
});
impl<'a> M for G38<'a> {
    fn schema(_b: bool) -> Schema { enumeration("G38", vec![(9223372036854775807, with_unk(fields(vec![]), "rest", !_b))], None) }
    fn to_val(&self) -> Val {
        match *self {
            G38::V0(ref rest) => Val::Enum(9223372036854775807, vec![rest.to_val()]),
        }
    }
    fn from_val(v: &Val) -> Self {
        match en(v) {
            (9223372036854775807, s) => G38::V0(M::from_val(&s[0])),
            _ => panic!("no such variant"),
        }
    }
}

#[derive(Clone, Debug)]
pub enum G39<'a> { V0(Cow<'a, [u8]>), V1(BTreeMap<[u8; 2], &'a [u8]>, Option<Cow<'a, str>>) }
fourleaf_retrofit!(enum G39<'a> : { impl<'a> Serialize for G39<'a> } {
    impl<'a, R: std::io::Read, STYLE> Deserialize<R, STYLE> for G39<'a> where Cow<'a, [u8]>: Deserialize<R, STYLE>, &'a [u8]: Deserialize<R, STYLE>, Cow<'a, str>: Deserialize<R, STYLE>
} {
    |_context|
    [490372149] G39::V0(ref f0_v) => {
        [1] f0_v: Cow<'a, [u8]> = f0_v,
        { Ok(G39::V0(f0_v)) }
    },
    [9223372036854775807] G39::V1(ref f0_v, ref f1_name) => {
        [36] f0_v: BTreeMap<[u8; 2], &'a [u8]> = f0_v,
        [58] f1_name: Option<Cow<'a, str>> = f1_name,
        { Ok(G39::V1(f0_v, f1_name)) }
    },
});
impl<'a> M for G39<'a> {
    fn schema(_b: bool) -> Schema { enumeration("G39", vec![(490372149, fields(vec![(1, "f0_v", <Cow<'a, [u8]> as M>::schema(_b))])), (9223372036854775807, fields(vec![(36, "f0_v", <BTreeMap<[u8; 2], &'a [u8]> as M>::schema(_b)), (58, "f1_name", <Option<Cow<'a, str>> as M>::schema(_b))]))], None) }
    fn to_val(&self) -> Val {
        match *self {
            G39::V0(ref f0_v) => Val::Enum(490372149, vec![f0_v.to_val()]),
            G39::V1(ref f0_v, ref f1_name) => Val::Enum(9223372036854775807, vec![f0_v.to_val(), f1_name.to_val()]),
        }
    }
    fn from_val(v: &Val) -> Self {
        match en(v) {
            (490372149, s) => G39::V0(M::from_val(&s[0])),
            (9223372036854775807, s) => G39::V1(M::from_val(&s[0]), M::from_val(&s[1])),
            _ => panic!("no such variant"),
        }
    }
}

#[derive(Clone, Debug)]
pub struct G40<'a> { pub f0_name: Cow<'a, [u8]>, pub f1_len: IpAddr }
fourleaf_retrofit!(struct G40<'a> : { impl<'a> Serialize for G40<'a> } {
    impl<'a, R: std::io::Read, STYLE> Deserialize<R, STYLE> for G40<'a> where Cow<'a, [u8]>: Deserialize<R, STYLE>
} {
    |_context, this|
    [51] f0_name: Cow<'a, [u8]> = &this.f0_name,
    [18] f1_len: IpAddr = &this.f1_len,
    { Ok(G40 { f0_name: f0_name, f1_len: f1_len }) }
});
impl<'a> M for G40<'a> {
    fn schema(_b: bool) -> Schema { Schema::Struct(Arc::new(StructDef { name: "G40", body: fields(vec![(51, "f0_name", <Cow<'a, [u8]> as M>::schema(_b)), (18, "f1_len", <IpAddr as M>::schema(_b))]), check: None })) }
    fn to_val(&self) -> Val { Val::Struct(vec![self.f0_name.to_val(), self.f1_len.to_val()]) }
    fn from_val(v: &Val) -> Self { let s = st(v); G40 { f0_name: M::from_val(&s[0]), f1_len: M::from_val(&s[1]) } }
}

#[derive(Clone, Debug)]
pub enum G41<'a> { V0(Option<Cow<'a, [u8]>>, Cow<'a, [u8]>), V1(Cow<'a, str>, (), Option<u64>, UnknownFields<'a>), V2(Vec<i64>), V3(IpAddr), V4(Cow<'a, [u8]>, G7, Cow<'a, [u8]>), V5(u32, u8), V6(Cow<'a, str>), V7, V8(G36<'a>) }
fourleaf_retrofit!(enum G41<'a> : { impl<'a> Serialize for G41<'a> } {
    impl<'a, R: std::io::Read, STYLE> Deserialize<R, STYLE> for G41<'a> where Cow<'a, [u8]>: Deserialize<R, STYLE>, Cow<'a, str>: Deserialize<R, STYLE>, UnknownFields<'a>: Deserialize<R, STYLE>, G36<'a>: Deserialize<R, STYLE>
} {
    |_context|
    [1] G41::V0(ref f0_name, ref f1_name) => {
        [7] f0_name: Option<Cow<'a, [u8]>> = f0_name,
        [11] f1_name: Cow<'a, [u8]> = f1_name,
        { Ok(G41::V0(f0_name, f1_name)) }
    },
    [72057594037927936] G41::V1(ref f0_x, ref f1_v, ref f2_len, ref rest) => {
        [26] f0_x: Cow<'a, str> = f0_x,
        [19] f1_v: () = f1_v,
        [44] f2_len: Option<u64> = f2_len,
        (?) rest: UnknownFields<'a> = rest,
        { Ok(G41::V1(f0_x, f1_v, f2_len, rest)) }
    },
    [64] G41::V2(ref inner) => {
        (*) inner: Vec<i64> = inner,
        { Ok(G41::V2(inner)) }
    },
    [18446744073709551614] G41::V3(ref inner) => {
        (*) inner: IpAddr = inner,
        { Ok(G41::V3(inner)) }
    },
    [9223372036854775807] G41::V4(ref f0_len, ref f1_len, ref f2_len) => {
        [1] f0_len: Cow<'a, [u8]> = f0_len,
        [62] f1_len: G7 = f1_len,
        [24] f2_len: Cow<'a, [u8]> = f2_len,
        { Ok(G41::V4(f0_len, f1_len, f2_len)) }
    },
    [0] G41::V5(ref f0_map, ref f1_map) => {
        [57] f0_map: u32 = f0_map,
        [39] f1_map: u8 = f1_map,
        { Ok(G41::V5(f0_map, f1_map)) }
    },
    [4294967295] G41::V6(ref inner) => {
        (*) inner: Cow<'a, str> = inner,
        { Ok(G41::V6(inner)) }
    },
    [2381085712879628567] G41::V7 => {
        { Ok(G41::V7) }
    },
    [3] G41::V8(ref inner) => {
        (*) inner: G36<'a> = inner,
        { Ok(G41::V8(inner)) }
    },
});
impl<'a> M for G41<'a> {
    fn schema(_b: bool) -> Schema { enumeration("G41", vec![(1, fields(vec![(7, "f0_name", <Option<Cow<'a, [u8]>> as M>::schema(_b)), (11, "f1_name", <Cow<'a, [u8]> as M>::schema(_b))])), (72057594037927936, with_unk(fields(vec![(26, "f0_x", <Cow<'a, str> as M>::schema(_b)), (19, "f1_v", <() as M>::schema(_b)), (44, "f2_len", <Option<u64> as M>::schema(_b))]), "rest", !_b)), (64, dbody("inner", <Vec<i64> as M>::schema(_b))), (18446744073709551614, dbody("inner", <IpAddr as M>::schema(_b))), (9223372036854775807, fields(vec![(1, "f0_len", <Cow<'a, [u8]> as M>::schema(_b)), (62, "f1_len", <G7 as M>::schema(_b)), (24, "f2_len", <Cow<'a, [u8]> as M>::schema(_b))])), (0, fields(vec![(57, "f0_map", <u32 as M>::schema(_b)), (39, "f1_map", <u8 as M>::schema(_b))])), (4294967295, dbody("inner", <Cow<'a, str> as M>::schema(_b))), (2381085712879628567, fields(vec![])), (3, dbody("inner", <G36<'a> as M>::schema(_b)))], None) }
    fn to_val(&self) -> Val {
        match *self {
            G41::V0(ref f0_name, ref f1_name) => Val::Enum(1, vec![f0_name.to_val(), f1_name.to_val()]),
            G41::V1(ref f0_x, ref f1_v, ref f2_len, ref rest) => Val::Enum(72057594037927936, vec![f0_x.to_val(), f1_v.to_val(), f2_len.to_val(), rest.to_val()]),
            G41::V2(ref inner) => Val::Enum(64, vec![inner.to_val()]),
            G41::V3(ref inner) => Val::Enum(18446744073709551614, vec![inner.to_val()]),
            G41::V4(ref f0_len, ref f1_len, ref f2_len) => Val::Enum(9223372036854775807, vec![f0_len.to_val(), f1_len.to_val(), f2_len.to_val()]),
            G41::V5(ref f0_map, ref f1_map) => Val::Enum(0, vec![f0_map.to_val(), f1_map.to_val()]),
            G41::V6(ref inner) => Val::Enum(4294967295, vec![inner.to_val()]),
            G41::V7 => Val::Enum(2381085712879628567, vec![]),
            G41::V8(ref inner) => Val::Enum(3, vec![inner.to_val()]),
        }
    }
    fn from_val(v: &Val) -> Self {
        match en(v) {
            (1, s) => G41::V0(M::from_val(&s[0]), M::from_val(&s[1])),
            (72057594037927936, s) => G41::V1(M::from_val(&s[0]), M::from_val(&s[1]), M::from_val(&s[2]), M::from_val(&s[3])),
            (64, s) => G41::V2(M::from_val(&s[0])),
            (18446744073709551614, s) => G41::V3(M::from_val(&s[0])),
            (9223372036854775807, s) => G41::V4(M::from_val(&s[0]), M::from_val(&s[1]), M::from_val(&s[2])),
            (0, s) => G41::V5(M::from_val(&s[0]), M::from_val(&s[1])),
            (4294967295, s) => G41::V6(M::from_val(&s[0])),
            (2381085712879628567, _) => G41::V7,
            (3, s) => G41::V8(M::from_val(&s[0])),
            _ => panic!("no such variant"),
        }
    }
}

#[derive(Clone, Debug)]
pub struct G42<'a> { pub f0_len: BinaryHeap<char>, pub f1_name: Option<Option<usize>>, pub f2_list: IpAddr, pub f3_list: G36<'a>, pub rest: UnknownFields<'a> }
fourleaf_retrofit!(struct G42<'a> : { impl<'a> Serialize for G42<'a> } {
    impl<'a, R: std::io::Read, STYLE> Deserialize<R, STYLE> for G42<'a> where G36<'a>: Deserialize<R, STYLE>, UnknownFields<'a>: Deserialize<R, STYLE>
} {
    |_context, this|
    [8] f0_len: BinaryHeap<char> = &this.f0_len,
    [41] f1_name: Option<Option<usize>> = &this.f1_name,
    [44] f2_list: IpAddr = &this.f2_list,
    [48] f3_list: G36<'a> = &this.f3_list,
    (?) rest: UnknownFields<'a> = &this.rest,
    { Ok(G42 { f0_len: f0_len, f1_name: f1_name, f2_list: f2_list, f3_list: f3_list, rest: rest }) }
});
impl<'a> M for G42<'a> {
    fn schema(_b: bool) -> Schema { Schema::Struct(Arc::new(StructDef { name: "G42", body: with_unk(fields(vec![(8, "f0_len", <BinaryHeap<char> as M>::schema(_b)), (41, "f1_name", <Option<Option<usize>> as M>::schema(_b)), (44, "f2_list", <IpAddr as M>::schema(_b)), (48, "f3_list", <G36<'a> as M>::schema(_b))]), "rest", !_b), check: None })) }
    fn to_val(&self) -> Val { Val::Struct(vec![self.f0_len.to_val(), self.f1_name.to_val(), self.f2_list.to_val(), self.f3_list.to_val(), self.rest.to_val()]) }
    fn from_val(v: &Val) -> Self { let s = st(v); G42 { f0_len: M::from_val(&s[0]), f1_name: M::from_val(&s[1]), f2_list: M::from_val(&s[2]), f3_list: M::from_val(&s[3]), rest: M::from_val(&s[4]) } }
}

#[derive(Clone, Debug)]
pub struct G43<'a> { pub f0_name: G18, pub f1_x: G14, pub f2_map: u64, pub f3_map: Arc<LinkedList<IpAddr>>, pub f4_len: &'a [u8], pub f5_len: [&'a [u8]; 1], pub f6_name: &'a str, pub f7_x: usize, pub f8_x: [u64; 5], pub f9_x: HashSet<u16, BH>, pub f10_map: &'a str, pub f11_list: [usize; 3], pub f12_name: Result<bool, u16>, pub f13_map: char, pub f14_list: usize, pub f15_x: G20, pub f16_map: usize, pub f17_list: G30, pub f18_len: Cow<'a, [u8]>, pub f19_v: SocketAddr }
fourleaf_retrofit!(struct G43<'a> : { impl<'a> Serialize for G43<'a> } {
    impl<'a, R: std::io::Read, STYLE> Deserialize<R, STYLE> for G43<'a> where &'a [u8]: Deserialize<R, STYLE>, &'a str: Deserialize<R, STYLE>, Cow<'a, [u8]>: Deserialize<R, STYLE>
} {
    |_context, this|
    [2] f0_name: G18 = &this.f0_name,
    [4] f1_x: G14 = &this.f1_x,
    [7] f2_map: u64 = &this.f2_map,
    [8] f3_map: Arc<LinkedList<IpAddr>> = &this.f3_map,
    [9] f4_len: &'a [u8] = &this.f4_len,
    [10] f5_len: [&'a [u8]; 1] = &this.f5_len,
    [16] f6_name: &'a str = &this.f6_name,
    [63] f7_x: usize = &this.f7_x,
    [21] f8_x: [u64; 5] = &this.f8_x,
    [23] f9_x: HashSet<u16, BH> = &this.f9_x,
    [25] f10_map: &'a str = &this.f10_map,
    [26] f11_list: [usize; 3] = &this.f11_list,
    [29] f12_name: Result<bool, u16> = &this.f12_name,
    [30] f13_map: char = &this.f13_map,
    [32] f14_list: usize = &this.f14_list,
    [34] f15_x: G20 = &this.f15_x,
    [39] f16_map: usize = &this.f16_map,
    [42] f17_list: G30 = &this.f17_list,
    [55] f18_len: Cow<'a, [u8]> = &this.f18_len,
    [60] f19_v: SocketAddr = &this.f19_v,
    { Ok(G43 { f0_name: f0_name, f1_x: f1_x, f2_map: f2_map, f3_map: f3_map, f4_len: f4_len, f5_len: f5_len, f6_name: f6_name, f7_x: f7_x, f8_x: f8_x, f9_x: f9_x, f10_map: f10_map, f11_list: f11_list, f12_name: f12_name, f13_map: f13_map, f14_list: f14_list, f15_x: f15_x, f16_map: f16_map, f17_list: f17_list, f18_len: f18_len, f19_v: f19_v }) }
});
impl<'a> M for G43<'a> {
    fn schema(_b: bool) -> Schema { Schema::Struct(Arc::new(StructDef { name: "G43", body: fields(vec![(2, "f0_name", <G18 as M>::schema(_b)), (4, "f1_x", <G14 as M>::schema(_b)), (7, "f2_map", <u64 as M>::schema(_b)), (8, "f3_map", <Arc<LinkedList<IpAddr>> as M>::schema(_b)), (9, "f4_len", <&'a [u8] as M>::schema(_b)), (10, "f5_len", <[&'a [u8]; 1] as M>::schema(_b)), (16, "f6_name", <&'a str as M>::schema(_b)), (63, "f7_x", <usize as M>::schema(_b)), (21, "f8_x", <[u64; 5] as M>::schema(_b)), (23, "f9_x", <HashSet<u16, BH> as M>::schema(_b)), (25, "f10_map", <&'a str as M>::schema(_b)), (26, "f11_list", <[usize; 3] as M>::schema(_b)), (29, "f12_name", <Result<bool, u16> as M>::schema(_b)), (30, "f13_map", <char as M>::schema(_b)), (32, "f14_list", <usize as M>::schema(_b)), (34, "f15_x", <G20 as M>::schema(_b)), (39, "f16_map", <usize as M>::schema(_b)), (42, "f17_list", <G30 as M>::schema(_b)), (55, "f18_len", <Cow<'a, [u8]> as M>::schema(_b)), (60, "f19_v", <SocketAddr as M>::schema(_b))]), check: None })) }
    fn to_val(&self) -> Val { Val::Struct(vec![self.f0_name.to_val(), self.f1_x.to_val(), self.f2_map.to_val(), self.f3_map.to_val(), self.f4_len.to_val(), self.f5_len.to_val(), self.f6_name.to_val(), self.f7_x.to_val(), self.f8_x.to_val(), self.f9_x.to_val(), self.f10_map.to_val(), self.f11_list.to_val(), self.f12_name.to_val(), self.f13_map.to_val(), self.f14_list.to_val(), self.f15_x.to_val(), self.f16_map.to_val(), self.f17_list.to_val(), self.f18_len.to_val(), self.f19_v.to_val()]) }
    fn from_val(v: &Val) -> Self { let s = st(v); G43 { f0_name: M::from_val(&s[0]), f1_x: M::from_val(&s[1]), f2_map: M::from_val(&s[2]), f3_map: M::from_val(&s[3]), f4_len: M::from_val(&s[4]), f5_len: M::from_val(&s[5]), f6_name: M::from_val(&s[6]), f7_x: M::from_val(&s[7]), f8_x: M::from_val(&s[8]), f9_x: M::from_val(&s[9]), f10_map: M::from_val(&s[10]), f11_list: M::from_val(&s[11]), f12_name: M::from_val(&s[12]), f13_map: M::from_val(&s[13]), f14_list: M::from_val(&s[14]), f15_x: M::from_val(&s[15]), f16_map: M::from_val(&s[16]), f17_list: M::from_val(&s[17]), f18_len: M::from_val(&s[18]), f19_v: M::from_val(&s[19]) } }
}

#[derive(Clone, Debug)]
pub struct G44<'a> { pub rest: UnknownFields<'a> }
fourleaf_retrofit!(struct G44<'a> : { impl<'a> Serialize for G44<'a> } {
    impl<'a, R: std::io::Read, STYLE> Deserialize<R, STYLE> for G44<'a> where UnknownFields<'a>: Deserialize<R, STYLE>
} {
    |_context, this|
    (?) rest: UnknownFields<'a> = &this.rest,
    { Ok(G44 { rest: rest }) }
});
impl<'a> M for G44<'a> {
    fn schema(_b: bool) -> Schema { Schema::Struct(Arc::new(StructDef { name: "G44", body: with_unk(fields(vec![]), "rest", !_b), check: None })) }
    fn to_val(&self) -> Val { Val::Struct(vec![self.rest.to_val()]) }
    fn from_val(v: &Val) -> Self { let s = st(v); G44 { rest: M::from_val(&s[0]) } }
}

#[derive(Clone, Debug)]
pub struct G45<'a> { pub f0_len: &'a [u8], pub f1_len: i64, pub f2_map: &'a [u8], pub f3_x: &'a [u8], pub f4_v: &'a [u8], pub f5_len: [Duration; 2], pub f6_map: &'a [u8], pub f7_x: Result<Option<Vec<()>>, PhantomData<u8>>, pub rest: UnknownFields<'a> }
fourleaf_retrofit!(struct G45<'a> : { impl<'a> Serialize for G45<'a> } {
    impl<'a, R: std::io::Read, STYLE> Deserialize<R, STYLE> for G45<'a> where &'a [u8]: Deserialize<R, STYLE>, UnknownFields<'a>: Deserialize<R, STYLE>
} {
    |_context, this|
    [49] f0_len: &'a [u8] = &this.f0_len,
    [3] f1_len: i64 = &this.f1_len,
    [9] f2_map: &'a [u8] = &this.f2_map,
    [16] f3_x: &'a [u8] = &this.f3_x,
    [14] f4_v: &'a [u8] = &this.f4_v,
    [25] f5_len: [Duration; 2] = &this.f5_len,
    [63] f6_map: &'a [u8] = &this.f6_map,
    [41] f7_x: Result<Option<Vec<()>>, PhantomData<u8>> = &this.f7_x,
    (?) rest: UnknownFields<'a> = &this.rest,
    { Ok(G45 { f0_len: f0_len, f1_len: f1_len, f2_map: f2_map, f3_x: f3_x, f4_v: f4_v, f5_len: f5_len, f6_map: f6_map, f7_x: f7_x, rest: rest }) }
});
impl<'a> M for G45<'a> {
    fn schema(_b: bool) -> Schema { Schema::Struct(Arc::new(StructDef { name: "G45", body: with_unk(fields(vec![(49, "f0_len", <&'a [u8] as M>::schema(_b)), (3, "f1_len", <i64 as M>::schema(_b)), (9, "f2_map", <&'a [u8] as M>::schema(_b)), (16, "f3_x", <&'a [u8] as M>::schema(_b)), (14, "f4_v", <&'a [u8] as M>::schema(_b)), (25, "f5_len", <[Duration; 2] as M>::schema(_b)), (63, "f6_map", <&'a [u8] as M>::schema(_b)), (41, "f7_x", <Result<Option<Vec<()>>, PhantomData<u8>> as M>::schema(_b))]), "rest", !_b), check: None })) }
    fn to_val(&self) -> Val { Val::Struct(vec![self.f0_len.to_val(), self.f1_len.to_val(), self.f2_map.to_val(), self.f3_x.to_val(), self.f4_v.to_val(), self.f5_len.to_val(), self.f6_map.to_val(), self.f7_x.to_val(), self.rest.to_val()]) }
    fn from_val(v: &Val) -> Self { let s = st(v); G45 { f0_len: M::from_val(&s[0]), f1_len: M::from_val(&s[1]), f2_map: M::from_val(&s[2]), f3_x: M::from_val(&s[3]), f4_v: M::from_val(&s[4]), f5_len: M::from_val(&s[5]), f6_map: M::from_val(&s[6]), f7_x: M::from_val(&s[7]), rest: M::from_val(&s[8]) } }
}

#[derive(Clone, Debug)]
pub struct G46<'a> { pub f0_list: LinkedList<u16>, pub f1_name: Option<&'a str>, pub f2_len: i32, pub f3_len: Cow<'a, str>, pub f4_list: G12, pub f5_list: VecDeque<PhantomData<u8>>, pub f6_x: [Cow<'a, str>; 3], pub f7_list: (HashMap<Option<u16>, G27, BH>, G19,), pub f8_len: i8, pub f9_x: i32, pub f10_v: Vec<Cow<'a, [u8]>> }
fourleaf_retrofit!(struct G46<'a> : { impl<'a> Serialize for G46<'a> } {
    impl<'a, R: std::io::Read, STYLE> Deserialize<R, STYLE> for G46<'a> where &'a str: Deserialize<R, STYLE>, Cow<'a, str>: Deserialize<R, STYLE>, Cow<'a, [u8]>: Deserialize<R, STYLE>
} {
    |_context, this|
    [9] f0_list: LinkedList<u16> = &this.f0_list,
    [13] f1_name: Option<&'a str> = &this.f1_name,
    [14] f2_len: i32 = &this.f2_len,
    [28] f3_len: Cow<'a, str> = &this.f3_len,
    [33] f4_list: G12 = &this.f4_list,
    [34] f5_list: VecDeque<PhantomData<u8>> = &this.f5_list,
    [43] f6_x: [Cow<'a, str>; 3] = &this.f6_x,
    [45] f7_list: (HashMap<Option<u16>, G27, BH>, G19,) = &this.f7_list,
    [47] f8_len: i8 = &this.f8_len,
    [52] f9_x: i32 = &this.f9_x,
    [54] f10_v: Vec<Cow<'a, [u8]>> = &this.f10_v,
    { Ok(G46 { f0_list: f0_list, f1_name: f1_name, f2_len: f2_len, f3_len: f3_len, f4_list: f4_list, f5_list: f5_list, f6_x: f6_x, f7_list: f7_list, f8_len: f8_len, f9_x: f9_x, f10_v: f10_v }) }
});
impl<'a> M for G46<'a> {
    fn schema(_b: bool) -> Schema { Schema::Struct(Arc::new(StructDef { name: "G46", body: fields(vec![(9, "f0_list", <LinkedList<u16> as M>::schema(_b)), (13, "f1_name", <Option<&'a str> as M>::schema(_b)), (14, "f2_len", <i32 as M>::schema(_b)), (28, "f3_len", <Cow<'a, str> as M>::schema(_b)), (33, "f4_list", <G12 as M>::schema(_b)), (34, "f5_list", <VecDeque<PhantomData<u8>> as M>::schema(_b)), (43, "f6_x", <[Cow<'a, str>; 3] as M>::schema(_b)), (45, "f7_list", <(HashMap<Option<u16>, G27, BH>, G19,) as M>::schema(_b)), (47, "f8_len", <i8 as M>::schema(_b)), (52, "f9_x", <i32 as M>::schema(_b)), (54, "f10_v", <Vec<Cow<'a, [u8]>> as M>::schema(_b))]), check: None })) }
    fn to_val(&self) -> Val { Val::Struct(vec![self.f0_list.to_val(), self.f1_name.to_val(), self.f2_len.to_val(), self.f3_len.to_val(), self.f4_list.to_val(), self.f5_list.to_val(), self.f6_x.to_val(), self.f7_list.to_val(), self.f8_len.to_val(), self.f9_x.to_val(), self.f10_v.to_val()]) }
    fn from_val(v: &Val) -> Self { let s = st(v); G46 { f0_list: M::from_val(&s[0]), f1_name: M::from_val(&s[1]), f2_len: M::from_val(&s[2]), f3_len: M::from_val(&s[3]), f4_list: M::from_val(&s[4]), f5_list: M::from_val(&s[5]), f6_x: M::from_val(&s[6]), f7_list: M::from_val(&s[7]), f8_len: M::from_val(&s[8]), f9_x: M::from_val(&s[9]), f10_v: M::from_val(&s[10]) } }
}

#[derive(Clone, Debug)]
pub enum G47<'a> { V0(G33<'a>, &'a [u8], VecDeque<String>, UnknownFields<'a>), V1(G22, Vec<Cow<'a, [u8]>>, char, G44<'a>, IpAddr), V2(u64, bool, isize), Other(u64, bool) }
fourleaf_retrofit!(enum G47<'a> : { impl<'a> Serialize for G47<'a> } {
    impl<'a, R: std::io::Read, STYLE> Deserialize<R, STYLE> for G47<'a> where G33<'a>: Deserialize<R, STYLE>, &'a [u8]: Deserialize<R, STYLE>, UnknownFields<'a>: Deserialize<R, STYLE>, Cow<'a, [u8]>: Deserialize<R, STYLE>, G44<'a>: Deserialize<R, STYLE>
} {
    |_context|
    [0] G47::V0(ref f0_map, ref f1_list, ref f2_x, ref rest) => {
        [12] f0_map: G33<'a> = f0_map,
        [48] f1_list: &'a [u8] = f1_list,
        [59] f2_x: VecDeque<String> = f2_x,
        (?) rest: UnknownFields<'a> = rest,
        { Ok(G47::V0(f0_map, f1_list, f2_x, rest)) }
    },
    [16383] G47::V1(ref f0_v, ref f1_len, ref f2_len, ref f3_map, ref f4_map) => {
        [15] f0_v: G22 = f0_v,
        [30] f1_len: Vec<Cow<'a, [u8]>> = f1_len,
        [39] f2_len: char = f2_len,
        [63] f3_map: G44<'a> = f3_map,
        [58] f4_map: IpAddr = f4_map,
        { Ok(G47::V1(f0_v, f1_len, f2_len, f3_map, f4_map)) }
    },
    [9223372036854775808] G47::V2(ref f0_name, ref f1_v, ref f2_v) => {
        [11] f0_name: u64 = f0_name,
        [21] f1_v: bool = f1_v,
        [32] f2_v: isize = f2_v,
        { Ok(G47::V2(f0_name, f1_v, f2_v)) }
    },
    (?) G47::Other(disc, ref f0_list) => {
        (=) disc: u64 = disc,
        [63] f0_list: bool = f0_list,
        { Ok(G47::Other(disc, f0_list)) }
    },
});
impl<'a> M for G47<'a> {
    fn schema(_b: bool) -> Schema { enumeration("G47", vec![(0, with_unk(fields(vec![(12, "f0_map", <G33<'a> as M>::schema(_b)), (48, "f1_list", <&'a [u8] as M>::schema(_b)), (59, "f2_x", <VecDeque<String> as M>::schema(_b))]), "rest", !_b)), (16383, fields(vec![(15, "f0_v", <G22 as M>::schema(_b)), (30, "f1_len", <Vec<Cow<'a, [u8]>> as M>::schema(_b)), (39, "f2_len", <char as M>::schema(_b)), (63, "f3_map", <G44<'a> as M>::schema(_b)), (58, "f4_map", <IpAddr as M>::schema(_b))])), (9223372036854775808, fields(vec![(11, "f0_name", <u64 as M>::schema(_b)), (21, "f1_v", <bool as M>::schema(_b)), (32, "f2_v", <isize as M>::schema(_b))]))], Some(fields(vec![(63, "f0_list", <bool as M>::schema(_b))]))) }
    fn to_val(&self) -> Val {
        match *self {
            G47::V0(ref f0_map, ref f1_list, ref f2_x, ref rest) => Val::Enum(0, vec![f0_map.to_val(), f1_list.to_val(), f2_x.to_val(), rest.to_val()]),
            G47::V1(ref f0_v, ref f1_len, ref f2_len, ref f3_map, ref f4_map) => Val::Enum(16383, vec![f0_v.to_val(), f1_len.to_val(), f2_len.to_val(), f3_map.to_val(), f4_map.to_val()]),
            G47::V2(ref f0_name, ref f1_v, ref f2_v) => Val::Enum(9223372036854775808, vec![f0_name.to_val(), f1_v.to_val(), f2_v.to_val()]),
            G47::Other(disc, ref f0_list) => Val::Enum(disc, vec![f0_list.to_val()]),
        }
    }
    fn from_val(v: &Val) -> Self {
        match en(v) {
            (0, s) => G47::V0(M::from_val(&s[0]), M::from_val(&s[1]), M::from_val(&s[2]), M::from_val(&s[3])),
            (16383, s) => G47::V1(M::from_val(&s[0]), M::from_val(&s[1]), M::from_val(&s[2]), M::from_val(&s[3]), M::from_val(&s[4])),
            (9223372036854775808, s) => G47::V2(M::from_val(&s[0]), M::from_val(&s[1]), M::from_val(&s[2])),
            (d, s) => G47::Other(d, M::from_val(&s[0])),
        }
    }
}

pub fn build() -> Vec<Entry> {
    let mut v: Vec<Entry> = Vec::new();
    own!(v; G0, G1, G2, G3, G4, G5, G6, G7, G8, G9, G10, G11, G12, G13, G14, G15, G16, G17, G18, G19, G20, G21, G22, G23, G24, G25, G26, G27, G28, G29, G30, G31, G32, Vec<G17>, Option<G1>, BTreeMap<u8, G5>, [G32; 2], (G25, u8), Result<G27, u8>, Box<G23>, Copied<G10>, Vec<G2>);
    bor!(v; 'a; G33<'a>, G34<'a>, G39<'a>, G43<'a>, G45<'a>, G46<'a>, G47<'a>);
    both!(v; 'a; G35<'a>, G36<'a>, G37<'a>, G38<'a>, G40<'a>, G41<'a>, G42<'a>, G44<'a>);
    v
}
