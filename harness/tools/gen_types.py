#!/usr/bin/env python3
"""Writes ../src/gtypes.rs: randomly generated types declared through
fourleaf_retrofit!, with their schemas.  The seed is fixed, so the output is
reproducible: gen_types.py [SEED [COUNT]] > ../src/gtypes.rs"""
import random, sys

R = random.Random(int(sys.argv[1]) if len(sys.argv) > 1 else 20170)
N = int(sys.argv[2]) if len(sys.argv) > 2 else 48

PRIM = ["u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize", "bool", "char", "String", "()",
        "Vec<u8>", "Duration", "IpAddr", "SocketAddr", "PhantomData<u8>"]
KEY = ["u8", "u16", "u64", "i8", "i32", "bool", "char", "String", "Vec<u8>", "(u8, i8)", "Option<u16>", "[u8; 2]"]
own = []      # generated types without lifetime
life = []     # (name, both styles)

def key():
    return R.choice(KEY)

def ty(d, lt):
    """a random type; lt: None, 'cow' or 'ref'"""
    r = R.random()
    if d <= 0 or r < 0.35:
        if lt and R.random() < 0.5:
            c = ["Cow<'a, str>", "Cow<'a, [u8]>"]
            if lt == "ref":
                c += ["&'a str", "&'a [u8]"] * 2
            return R.choice(c)
        return R.choice(PRIM)
    s = lambda: ty(d - 1, lt)
    k = R.randrange(16)
    if k == 0 or k == 1: return "Vec<%s>" % s()
    if k == 2 or k == 3: return "Option<%s>" % s()
    if k == 4: return "%s<%s>" % (R.choice(["Box", "Rc", "Arc"]), s())
    if k == 5: return "BTreeMap<%s, %s>" % (key(), s())
    if k == 6: return "HashMap<%s, %s, BH>" % (key(), s())
    if k == 7: return R.choice(["BTreeSet<%s>", "HashSet<%s, BH>", "BinaryHeap<%s>"]) % key()
    if k == 8: return R.choice(["VecDeque<%s>", "LinkedList<%s>"]) % s()
    if k == 9: return "[%s; %d]" % (s(), R.choice([0, 1, 2, 3, 5]))
    if k == 10: return "(%s,)" % ", ".join(s() for _ in range(R.randint(1, 4)))
    if k == 11: return "Result<%s, %s>" % (s(), s())
    if k == 12 and lt: 
        c = [n for n, b in life if b or lt == "ref"]
        if c: return R.choice(c) + "<'a>"
    if k <= 14 and own: return R.choice(own)
    if own and lt is None: return R.choice(own)
    return R.choice(PRIM)

def tags(n):
    pool = list(range(1, 64))
    if R.random() < 0.5:
        t = R.sample(pool, n)
    else:
        t = sorted(R.sample(pool, n))
    if n and R.random() < 0.3 and 63 not in t:
        t[R.randrange(n)] = 63
    if n and R.random() < 0.3 and 1 not in t:
        t[R.randrange(n)] = 1
    return t

DISC = [0, 1, 2, 3, 63, 64, 127, 128, 255, 256, 16383, 16384, 2**31, 2**32 - 1, 2**32, 2**56, 2**63 - 1, 2**63, 2**64 - 2, 2**64 - 1]
def discs(n):
    s = []
    while len(s) < n:
        d = R.choice(DISC) if R.random() < 0.7 else R.getrandbits(R.randint(1, 64))
        if d not in s: s.append(d)
    return s

def nfields():
    return R.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 8, 11, 15, 20])

def body(lt, small=False, catch=True, deleg=True):
    """(kind, fields, catch-all) of one struct or variant"""
    if deleg and R.random() < 0.15:
        return ("deleg", [(None, "inner", ty(3, lt))], False)
    n = nfields()
    if small: n = min(n, R.randint(0, 5))
    t = tags(n)
    f = [(t[i], "f%d_%s" % (i, R.choice(["x", "len", "name", "list", "map", "v"])), ty(R.choice([0, 1, 1, 2, 3]), lt)) for i in range(n)]
    return ("plain", f, catch and R.random() < 0.3)

def unk(lt):
    return "UnknownFields<'%s>" % ("a" if lt else "static")

def lts(x): return x

def decl_lines(b, acc, lt):
    out = []
    kind, fs, ca = b
    for t, n, ft in fs:
        out.append("%s %s: %s = %s," % ("[%d]" % t if t is not None else "(*)", n, ft, acc(n)))
    if ca:
        ut = unk(lt) if lt else "Copied<UnknownFields<'static>>"
        out.append("(?) rest: %s = %s," % (ut, acc("rest")))
    return out

def bodydef(b, lt):
    kind, fs, ca = b
    if kind == "deleg":
        return 'dbody("inner", <%s as M>::schema(_b))' % fs[0][2]
    s = "fields(vec![%s])" % ", ".join('(%d, "%s", <%s as M>::schema(_b))' % (t, n, ft) for t, n, ft in fs)
    if ca: s = 'with_unk(%s, "rest", %s)' % (s, "!_b" if lt else "true")
    return s

def bounds(bs, lt):
    """where clause over every type mentioning the lifetime"""
    if not lt: return ""
    ts = []
    import re
    for b in bs:
        for _, _, ft in b[1]:
            for m in re.findall(r"Cow<'a, str>|Cow<'a, \[u8\]>|&'a str|&'a \[u8\]|G\d+<'a>", ft):
                if m not in ts: ts.append(m)
        if b[2] and "UnknownFields<'a>" not in ts: ts.append("UnknownFields<'a>")
    return ("where " + ", ".join("%s: Deserialize<R, STYLE>" % t for t in ts)) if ts else ""

def header(kind, full, bs, lt):
    if not lt:
        return "fourleaf_retrofit!(%s %s : {} {} {" % (kind, full)
    return ("fourleaf_retrofit!(%s %s : { impl<'a> Serialize for %s } {\n"
            "    impl<'a, R: std::io::Read, STYLE> Deserialize<R, STYLE> for %s %s\n} {" % (kind, full, full, full, bounds(bs, lt)))

def struct(name, lt):
    b = body(lt)
    full = name + ("<'a>" if lt else "")
    o = []
    fl = ["pub %s: %s" % (n, ft) for _, n, ft in b[1]] + (["pub rest: %s" % unk(lt)] if b[2] else [])
    if lt and not any("'a" in x for x in fl): fl.append("pub mark: PhantomData<&'a ()>")
    o.append("#[derive(Clone, Debug)]\npub struct %s { %s }" % (full, ", ".join(fl)))
    o.append(header("struct", full, [b], lt))
    o.append("    |_context, this|")
    o += ["    " + l for l in decl_lines(b, lambda n: "&this.%s" % n, lt)]
    inits = ["%s: %s" % (n, n) for _, n, _ in b[1]]
    if b[2]: inits.append("rest: rest" + ("" if lt else ".0"))
    mark = any(x.startswith("pub mark") for x in fl)
    if mark: inits.append("mark: PhantomData")
    o.append("    { Ok(%s { %s }) }\n});" % (name, ", ".join(inits)))
    o.append("impl%s M for %s {" % ("<'a>" if lt else "", full))
    o.append('    fn schema(_b: bool) -> Schema { Schema::Struct(Arc::new(StructDef { name: "%s", body: %s, check: None })) }' % (name, bodydef(b, lt)))
    names = [n for _, n, _ in b[1]] + (["rest"] if b[2] else [])
    o.append("    fn to_val(&self) -> Val { Val::Struct(vec![%s]) }" % ", ".join("self.%s.to_val()" % n for n in names))
    fv = ["%s: M::from_val(&s[%d])" % (n, i) for i, n in enumerate(names)] + (["mark: PhantomData"] if mark else [])
    o.append("    fn from_val(v: &Val) -> Self { let %s = st(v); %s { %s } }" % ("s" if names else "_s", name, ", ".join(fv)))
    o.append("}")
    return "\n".join(o)

def enum(name, lt):
    n = R.choice([1, 2, 2, 3, 4, 6, 9])
    bs = [body(lt, small=True) for _ in range(n)]
    ds = discs(n)
    ca = body(lt, small=True, deleg=False) if R.random() < 0.4 else None
    alls = bs + ([ca] if ca else [])
    full = name + ("<'a>" if lt else "")
    mark = False
    def vdecl(vn, b, d):
        ts = (["u64"] if d else []) + [ft for _, _, ft in b[1]] + ([unk(lt)] if b[2] else [])
        return "%s%s" % (vn, "(%s)" % ", ".join(ts) if ts else "")
    vs = [vdecl("V%d" % i, b, False) for i, b in enumerate(bs)] + ([vdecl("Other", ca, True)] if ca else [])
    if lt and not any("'a" in x for x in vs):
        return None
    o = ["#[derive(Clone, Debug)]\npub enum %s { %s }" % (full, ", ".join(vs))]
    def names(b): return [n for _, n, _ in b[1]] + (["rest"] if b[2] else [])
    def pat(vn, b, d, ref="ref "):
        ns = (["%sdisc" % ("" if not ref else "")] if d else []) + [ref + n for n in names(b)]
        return "%s::%s%s" % (name, vn, "(%s)" % ", ".join(ns) if ns else "")
    def cons(vn, b, d):
        ns = (["disc"] if d else []) + [n for _, n, _ in b[1]] + ([("rest" + ("" if lt else ".0"))] if b[2] else [])
        return "%s::%s%s" % (name, vn, "(%s)" % ", ".join(ns) if ns else "")
    o.append(header("enum", full, alls, lt))
    o.append("    |_context|")
    for i, b in enumerate(bs):
        o.append("    [%d] %s => {" % (ds[i], pat("V%d" % i, b, False)))
        o += ["        " + l for l in decl_lines(b, lambda n: n, lt)]
        o.append("        { Ok(%s) }\n    }," % cons("V%d" % i, b, False))
    if ca:
        o.append("    (?) %s => {" % pat("Other", ca, True))
        o.append("        (=) disc: u64 = disc,")
        o += ["        " + l for l in decl_lines(ca, lambda n: n, lt)]
        o.append("        { Ok(%s) }\n    }," % cons("Other", ca, True))
    o.append("});")
    o.append("impl%s M for %s {" % ("<'a>" if lt else "", full))
    o.append('    fn schema(_b: bool) -> Schema { enumeration("%s", vec![%s], %s) }' % (name,
        ", ".join("(%d, %s)" % (ds[i], bodydef(b, lt)) for i, b in enumerate(bs)), "Some(%s)" % bodydef(ca, lt) if ca else "None"))
    o.append("    fn to_val(&self) -> Val {\n        match *self {")
    for i, b in enumerate(bs):
        o.append("            %s => Val::Enum(%d, vec![%s])," % (pat("V%d" % i, b, False), ds[i], ", ".join("%s.to_val()" % n for n in names(b))))
    if ca:
        o.append("            %s => Val::Enum(disc, vec![%s])," % (pat("Other", ca, True), ", ".join("%s.to_val()" % n for n in names(ca))))
    o.append("        }\n    }")
    o.append("    fn from_val(v: &Val) -> Self {\n        match en(v) {")
    def mk(vn, b, d):
        ns = (["d"] if d else []) + ["M::from_val(&s[%d])" % j for j in range(len(names(b)))]
        return "%s::%s%s" % (name, vn, "(%s)" % ", ".join(ns) if ns else "")
    for i, b in enumerate(bs):
        o.append("            (%d, %s) => %s," % (ds[i], "s" if names(b) else "_", mk("V%d" % i, b, False)))
    if ca:
        o.append("            (d, %s) => %s," % ("s" if names(ca) else "_", mk("Other", ca, True)))
    else:
        o.append('            _ => panic!("no such variant"),')
    o.append("        }\n    }\n}")
    return "\n".join(o)

print("//! Generated by tools/gen_types.py; do not edit.\n//! Random types declared through the macro, with their schemas.\n")
print("use super::*;\n")
i = 0
bor = []
both = []
while i < N:
    name = "G%d" % i
    lt = None
    if i > N * 2 // 3: lt = R.choice(["cow", "ref"])
    s = struct(name, lt) if R.random() < 0.55 else enum(name, lt)
    if s is None: continue
    if lt:
        import re
        isb = lt == "cow"
        life.append((name, isb))
        (both if isb else bor).append(name + "<'a>")
    else:
        own.append(name)
    print(s + "\n")
    i += 1
wrapped = [w % R.choice(own) for w in ["Vec<%s>", "Option<%s>", "BTreeMap<u8, %s>", "[%s; 2]", "(%s, u8)", "Result<%s, u8>", "Box<%s>", "Copied<%s>", "Vec<%s>"]]
print("pub fn build() -> Vec<Entry> {\n    let mut v: Vec<Entry> = Vec::new();")
print("    own!(v; %s);" % ", ".join(own + wrapped))
print("    bor!(v; 'a; %s);" % ", ".join(bor))
print("    both!(v; 'a; %s);" % ", ".join(both))
print("    v\n}")
