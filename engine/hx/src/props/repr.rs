//! The representation relation: what bytes a value has, and what value bytes have.

use crate::build::*;
use crate::kit::*;
use crate::*;

/// A union of `t` (field 0) and single bytes (field 1 + i).
fn bytes_of(t: Type, n: u64, al: Align) -> Type {
    let mut f = vec![(size(0), t)];
    for i in 0..n {
        f.push((size(i), u8t()));
    }
    union_ty(&f, size(n), al)
}
fn byte_at(p: PlaceExpr, i: u64) -> PlaceExpr {
    field(p, 1 + i)
}
fn b8(x: Int) -> ValueExpr {
    cint(x, ity(Unsigned, 1))
}
fn layout<T: Target>(t: Type) -> (u64, Align) {
    let l = t.layout::<T>();
    (l.expect_size("").bytes().try_to_usize().unwrap() as u64, l.expect_align(""))
}

/// Where the scalars of a type are: what is specified about it.
#[derive(Clone, Debug)]
struct Leaf {
    off: u64,
    t: Type,
    path: Vec<u64>,
}
fn leaf_size(t: Type) -> u64 {
    match t {
        Type::Int(i) => i.size.bytes().try_to_usize().unwrap() as u64,
        Type::Bool => 1,
        _ => panic!(),
    }
}
fn leaves(t: Type) -> Vec<Leaf> {
    fn go(t: Type, off: u64, path: Vec<u64>, out: &mut Vec<Leaf>) -> u64 {
        match t {
            Type::Int(_) | Type::Bool => {
                out.push(Leaf { off, t, path });
                leaf_size(t)
            }
            Type::Tuple { sized_fields, sized_head_layout, .. } => {
                for (i, (o, f)) in sized_fields.iter().enumerate() {
                    let mut p = path.clone();
                    p.push(i as u64);
                    go(f, off + o.bytes().try_to_usize().unwrap() as u64, p, out);
                }
                sized_head_layout.end.bytes().try_to_usize().unwrap() as u64
            }
            Type::Array { elem, count } => {
                let mut o = 0;
                for i in 0..count.try_to_usize().unwrap() as u64 {
                    let mut p = path.clone();
                    p.push(i);
                    o += go(elem.extract(), off + o, p, out);
                }
                o
            }
            _ => panic!(),
        }
    }
    let mut out = vec![];
    go(t, 0, vec![], &mut out);
    out
}
fn project(p: PlaceExpr, t: Type, path: &[u64]) -> PlaceExpr {
    let Some((&i, rest)) = path.split_first() else { return p };
    match t {
        Type::Tuple { sized_fields, .. } => project(field(p, i), sized_fields.get(Int::from(i)).unwrap().1, rest),
        Type::Array { elem, .. } => project(index(p, usize_c(i)), elem.extract(), rest),
        _ => panic!(),
    }
}
/// The value of the bytes as an integer of type `t`.
fn int_of(b: &[Int], t: IntType, little: bool) -> Int {
    let mut r = Int::ZERO;
    for (k, x) in b.iter().enumerate() {
        let e = if little { k } else { b.len() - 1 - k };
        r = r + *x * pow2(Int::from(8 * e));
    }
    wrap(r, t)
}

/// Any bytes, some of them possibly uninitialized, loaded at `t` and stored again.
fn decode_case<T: Target + serde::de::DeserializeOwned + serde::Serialize>(
    t: Type,
    uninit: bool,
    little: bool,
    scalars: bool,
    pad: Option<u64>,
) {
    let (n, al) = layout::<T>(t);
    let ls = leaves(t);
    let used: Vec<Option<usize>> = (0..n)
        .map(|i| ls.iter().position(|l| l.off <= i && i < l.off + leaf_size(l.t)))
        .collect();
    let b: Vec<Int> = (0..n).map(|i| sym_of(&format!("b{i}"), ity(Unsigned, 1))).collect();
    let init: Vec<bool> = (0..n).map(|i| !uninit || choose(&format!("init{i}"), 2) == 1).collect();
    let r = run_t::<T>(prog1(|f| {
        let u = bytes_of(t, n, al);
        let (x, y) = (live(f, u), live(f, u));
        for i in 0..n {
            if init[i as usize] {
                f.assign(byte_at(x, i), b8(b[i as usize]));
            }
            // something else, in the target
            f.assign(byte_at(y, i), b8(Int::from(0x5a)));
        }
        f.assign(field(y, 0), load(field(x, 0)));
        if scalars {
            for l in &ls {
                f.print(load(project(field(y, 0), t, &l.path)));
            }
        }
        for i in 0..n {
            if used[i as usize].is_some() {
                f.print(load(byte_at(y, i)));
            }
        }
        if let Some(i) = pad {
            f.print(load(byte_at(y, i)));
        }
    }));
    let mut ub = B::from(false);
    for i in 0..n as usize {
        if let Some(l) = used[i] {
            if !init[i] {
                ub = B::from(true);
            } else if ls[l].t == Type::Bool {
                ub = ub | is_lt(1, b[i]);
            }
        }
    }
    if pad.is_some() {
        suppose(!ub);
        return r.must_ub("padding is not copied");
    }
    if !r.ub_iff(ub, "typed copy") {
        return;
    }
    let mut k = 0;
    if scalars {
        for l in &ls {
            let bs: Vec<Int> = (0..leaf_size(l.t)).map(|j| b[(l.off + j) as usize]).collect();
            match l.t {
                Type::Int(it) => check(is_eq(r.int(k), int_of(&bs, it, little)), "the integer the bytes stand for"),
                _ => check(B::from(r.bool(k)).iff(is_eq(bs[0], 1)), "the truth value the byte stands for"),
            }
            k += 1;
        }
    }
    for i in 0..n as usize {
        if used[i].is_some() {
            check(is_eq(r.int(k), b[i]), "the bytes of the value");
            k += 1;
        }
    }
}

/// An integer, stored: its bytes.
fn encode_case<T: Target + serde::de::DeserializeOwned + serde::Serialize>(t: IntType, little: bool) {
    let x = sym_of("x", t);
    let n = t.size.bytes().try_to_usize().unwrap() as u64;
    let r = run_t::<T>(prog1(|f| {
        let y = live(f, bytes_of(ty_of(t), n, t.align::<T>()));
        f.assign(field(y, 0), cint(x, t));
        for i in 0..n {
            f.print(load(byte_at(y, i)));
        }
        f.print(load(field(y, 0)));
    }));
    r.must_exit("storing an integer");
    for i in 0..n {
        let e = if little { i } else { n - 1 - i };
        check(is_eq(r.int(i as usize), byte_of(x, e)), "byte of an integer");
    }
    check(is_eq(r.int(n as usize), x), "storing and loading an integer");
}

/// Pointers: every byte of the result comes from `p`, from the pointer `q` with the same address
/// and other provenance, or from the address of `p` as an integer.
fn ptr_mix_case(wide: bool, copy_ty: usize) {
    let mut from = [0; 8];
    // One symbolic choice per byte would be 3^8 paths: groups of bytes.
    let groups: &[&[usize]] = &[&[0], &[1, 2], &[3, 4, 5, 6], &[7]];
    for (i, g) in groups.iter().enumerate() {
        let c = choose(&format!("g{i}"), 3);
        for &j in *g {
            from[j] = c;
        }
    }
    let raw_wide = raw_ptr_ty(PointerMetaKind::ElementCount);
    let n = if wide { 16 } else { 8 };
    let ptrs = bytes_of(raw(), 8, align(8));
    let r = run(prog1(|f| {
        let (a, b) = (live(f, u8t()), live(f, u8t()));
        f.assign(a, b8(Int::from(7)));
        f.assign(b, b8(Int::from(8)));
        let p = live(f, ptrs);
        let q = live(f, ptrs);
        let i = live(f, ptrs);
        f.assign(field(p, 0), addr(a));
        let diff = ptr_offset_from(addr(a), addr(b), InBounds::No);
        f.assign(field(q, 0), ptr_offset(addr(b), diff, InBounds::No));
        f.assign(field(i, 0), transmute(ptr_addr(addr(a)), raw()));
        let res = live(f, blob(n, 8));
        for j in 0..8u64 {
            let src = [p, q, i][from[j as usize]];
            copy(f, addr(res), j, addr(src), j, 1);
        }
        if wide {
            f.assign(at(addr(res), 8, ty_of(usz())), usize_c(1));
            let l = live(f, raw_wide);
            f.assign(l, load(at(addr(res), 0, raw_wide)));
            f.assign(deref(get_thin_pointer(load(l)), u8t()), b8(Int::from(9)));
        } else {
            let rp = match copy_ty {
                // directly
                0 => load(at(addr(res), 0, raw())),
                // through typed copies
                1 => {
                    let l = live(f, raw());
                    f.assign(l, load(at(addr(res), 0, raw())));
                    load(l)
                }
                2 => {
                    let t = tuple_ty(&[(size(0), raw()), (size(8), u8t())], size(16), align(8));
                    let l = live(f, t);
                    f.assign(field(l, 1), b8(Int::from(0)));
                    f.assign(field(l, 0), load(at(addr(res), 0, raw())));
                    let m = live(f, t);
                    f.assign(m, load(l));
                    load(field(m, 0))
                }
                3 => {
                    let t = array_ty(raw(), 1);
                    let l = live(f, t);
                    f.assign(l, load(at(addr(res), 0, t)));
                    load(index(l, usize_c(0)))
                }
                4 => transmute(load(at(addr(res), 0, blob(8, 1))), raw()),
                5 => {
                    let t = transmute(load(at(addr(res), 0, raw())), blob(8, 8));
                    transmute(t, raw())
                }
                _ => panic!(),
            };
            f.assign(deref(rp, u8t()), b8(Int::from(9)));
        }
        f.print(load(a));
        f.print(load(b));
    }));
    let ok = from.iter().all(|c| *c == 0);
    if r.ub_iff(!ok, "access through assembled pointer") {
        check(is_eq(r.int(0), 9) & is_eq(r.int(1), 8), "the store went to the right place");
    }
}

/// Pointer bytes in the wrong order have no provenance, even if the address comes out right.
fn ptr_rotate_case(perm: usize) {
    let perms: [[u64; 8]; 5] = [
        [0, 1, 2, 3, 4, 5, 6, 7],
        [1, 2, 3, 4, 5, 6, 7, 0],
        [1, 0, 2, 3, 4, 5, 6, 7],
        [0, 1, 2, 3, 4, 5, 7, 6],
        [7, 6, 5, 4, 3, 2, 1, 0],
    ];
    let r = run(prog1(|f| {
        let a = live(f, u8t());
        f.assign(a, b8(Int::from(7)));
        f.print(ptr_addr(addr(a)));
        let p = live(f, raw());
        f.assign(p, addr(a));
        let res = live(f, blob(8, 8));
        for j in 0..8u64 {
            copy(f, addr(res), j, addr(p), perms[perm][j as usize], 1);
        }
        f.print(load(at(addr(res), 0, ty_of(usz()))));
        f.print(load(deref(load(at(addr(res), 0, raw())), u8t())));
    }));
    if is_eq(r.int(0), r.int(1)).decide() {
        reach("same address");
        if perm == 0 {
            r.must_exit("pointer bytes in order");
        } else {
            r.must_ub("permuted pointer bytes");
        }
    } else {
        r.must_ub("access to another address");
    }
}

/// Copying the bytes of a pointer at a type without provenance strips it.
fn ptr_strip_case(how: usize, to: usize) {
    let r = run(prog1(|f| {
        let a = live(f, blob(16, 16));
        f.assign(at(addr(a), 0, u8t()), b8(Int::from(7)));
        let p = live(f, raw());
        f.assign(p, addr(a));
        let q = live(f, blob(8, 8));
        let t: Type = [
            ty_of(usz()),
            ty_of(isz()),
            array_ty(u8t(), 8),
            array_ty(ty_of(ity(Signed, 4)), 2),
            tuple_ty(&[(size(0), ty_of(ity(Unsigned, 4))), (size(4), ty_of(ity(Unsigned, 4)))], size(8), align(4)),
            // these keep it
            blob(8, 8),
            raw(),
            tuple_ty(&[(size(0), raw())], size(8), align(8)),
            array_ty(raw(), 1),
            array_ty(blob(4, 4), 2),
            Type::Ptr(PtrType::Raw { meta_kind: PointerMetaKind::None }),
        ][how];
        f.assign(at(addr(q), 0, t), load(at(addr(p), 0, t)));
        let rp = match to {
            0 => load(at(addr(q), 0, raw())),
            // The same by transmutation.
            _ => transmute(transmute(load(p), t), raw()),
        };
        f.print(relop(RelOp::Eq, rp, load(p)));
        f.print(load(deref(rp, u8t())));
    }));
    check(r.bool(0), "the address is kept");
    if how < 5 {
        r.must_ub("no provenance after a copy at an integer type");
    } else {
        r.must_exit("provenance is kept");
        check(is_eq(r.int(1), 7), "the right place");
    }
}

/// An integer as a pointer: accesses are UB whatever the address, but no other use.
fn int_ptr_case() {
    let x = sym_of("x", usz());
    let r = run(prog1(|f| {
        let a = live(f, u8t());
        f.assign(a, b8(Int::from(1)));
        f.print(ptr_addr(addr(a)));
        let p = live(f, raw());
        f.assign(p, int2raw(x));
        f.print(ptr_addr(load(p)));
        f.print(load(deref(load(p), u8t())));
    }));
    check(is_eq(r.int(1), x), "the address is kept");
    reach(if is_eq(r.int(0), x).decide() { "hits" } else { "misses" });
    r.must_ub("access without provenance");
}

/// Metadata of wide pointers. What is stored is what is loaded; the length has no provenance.
fn wide_case(which: usize) {
    let (a, n) = (sym_of("a", usz()), sym_of("n", usz()));
    let t = raw_ptr_ty(PointerMetaKind::ElementCount);
    let r = run(prog1(|f| {
        let x = live(f, blob(16, 8));
        let c = live(f, u8t());
        f.assign(c, b8(Int::from(7)));
        match which {
            0 => {
                f.assign(at(addr(x), 0, t), construct_wide_pointer(int2raw(a), usize_c(n), t));
                f.print(load(at(addr(x), 0, ty_of(usz()))));
                f.print(load(at(addr(x), 8, ty_of(usz()))));
            }
            1 => {
                f.assign(at(addr(x), 0, ty_of(usz())), usize_c(a));
                f.assign(at(addr(x), 8, ty_of(usz())), usize_c(n));
                f.print(ptr_addr(get_thin_pointer(load(at(addr(x), 0, t)))));
                f.print(get_metadata(load(at(addr(x), 0, t))));
            }
            // The length is not initialized
            2 => {
                f.assign(at(addr(x), 0, ty_of(usz())), usize_c(a));
                f.print(ptr_addr(get_thin_pointer(load(at(addr(x), 0, t)))));
            }
            3 => {
                f.assign(at(addr(x), 8, ty_of(usz())), usize_c(n));
                f.print(get_metadata(load(at(addr(x), 0, t))));
            }
            // The provenance of the metadata
            4 | 5 => {
                f.assign(at(addr(x), 0, raw()), addr(c));
                f.assign(at(addr(x), 8, raw()), addr(c));
                let y = live(f, blob(16, 8));
                f.assign(at(addr(y), 0, t), load(at(addr(x), 0, t)));
                f.print(load(deref(load(at(addr(y), 0, raw())), u8t())));
                f.print(relop(RelOp::Eq, load(at(addr(y), 0, raw())), load(at(addr(y), 8, raw()))));
                if which == 5 {
                    f.print(load(deref(load(at(addr(y), 8, raw())), u8t())));
                }
            }
            _ => panic!(),
        }
    }));
    match which {
        0 | 1 => {
            r.must_exit("wide pointers");
            check(is_eq(r.int(0), a) & is_eq(r.int(1), n), "address and metadata");
        }
        2 | 3 => r.must_ub("half of the wide pointer is not initialized"),
        _ => {
            check(is_eq(r.int(0), 7), "provenance of the address");
            check(r.bool(1), "metadata is kept");
            if which == 5 {
                r.must_ub("the length has no provenance")
            } else {
                r.must_exit("wide pointers")
            }
        }
    }
}

/// Unions: the chunks are kept whatever they are, all else is lost.
fn union_case(byte: u64) {
    // chunks 1..3 and 5..8, of 9 bytes
    let chunks: List<(Offset, Size)> = list![(size(1), size(2)), (size(5), size(3))];
    let keep = |i: u64| (1..3).contains(&i) || (5..8).contains(&i);
    let fields: List<(Offset, Type)> = list![(size(1), array_ty(u8t(), 2)), (size(5), array_ty(u8t(), 3))];
    let t = Type::Union { fields, size: size(9), align: align(1), chunks };
    let b: Vec<Int> = (0..9).map(|i| sym_of(&format!("b{i}"), ity(Unsigned, 1))).collect();
    let init: Vec<bool> = (0..9).map(|i| [1, 6, byte].contains(&i) || choose(&format!("i{i}"), 2) == 1).collect();
    let r = run(prog1(|f| {
        let (x, y) = (live(f, blob(9, 1)), live(f, blob(9, 1)));
        for i in 0..9 {
            if init[i as usize] {
                poke(f, addr(x), i, b[i as usize]);
            }
            poke(f, addr(y), i, Int::ZERO);
        }
        f.assign(at(addr(y), 0, t), load(at(addr(x), 0, t)));
        peek(f, addr(y), byte);
    }));
    if keep(byte) {
        r.must_exit("bytes of chunks are kept");
        check(is_eq(r.int(0), b[byte as usize]), "bytes of chunks are kept");
    } else {
        r.must_ub("bytes outside of chunks are lost");
    }
}
/// Uninitialized bytes and provenance in a chunk.
fn union_uninit_case() {
    let i = choose("i", 8) as u64;
    let r = run(prog1(|f| {
        let (x, y) = (live(f, blob(8, 1)), live(f, blob(8, 1)));
        for j in 0..8 {
            poke(f, addr(y), j, Int::ONE);
            if i != j {
                poke(f, addr(x), j, Int::from(j));
            }
        }
        f.assign(y, load(x));
        for j in 0..8 {
            if j != i {
                peek(f, addr(y), j);
            }
        }
        f.print(cint(Int::from(77), usz()));
        peek(f, addr(y), i);
    }));
    r.must_ub("uninitialized bytes stay uninitialized");
    check(is_eq(r.int(7), 77), "initialized bytes stay");
}

/// `transmute` is storing at one type and loading at the other.
fn transmute_case(from: Type, to: Type) {
    let (n, _) = layout::<x86_64>(from);
    let (m, _) = layout::<x86_64>(to);
    let (fl, tl) = (leaves(from), leaves(to));
    let b: Vec<Int> = (0..n).map(|i| sym_of(&format!("b{i}"), ity(Unsigned, 1))).collect();
    for l in &fl {
        if l.t == Type::Bool {
            suppose(is_le(b[l.off as usize], 1));
        }
    }
    let r = run(prog1(|f| {
        let x = live(f, blob(n, 1));
        for i in 0..n {
            poke(f, addr(x), i, b[i as usize]);
        }
        let s = deref(addr(x), from);
        // the copy has the alignment
        let y = live(f, from);
        for l in &fl {
            let src = at(addr(x), l.off, l.t);
            let _ = s;
            f.assign(
                project(y, from, &l.path),
                if l.t == Type::Bool {
                    load(src)
                } else {
                    transmute(load(at(addr(x), l.off, blob(leaf_size(l.t), 1))), l.t)
                },
            );
        }
        let z = live(f, to);
        f.assign(z, transmute(load(y), to));
        for l in &tl {
            f.print(load(project(z, to, &l.path)));
        }
    }));
    let has = |ls: &[Leaf], i: u64| ls.iter().any(|l| l.off <= i && i < l.off + leaf_size(l.t));
    let mut ub = B::from(n != m);
    if n == m {
        for l in &tl {
            for j in 0..leaf_size(l.t) {
                if !has(&fl, l.off + j) {
                    ub = B::from(true);
                } else if l.t == Type::Bool {
                    ub = ub | is_lt(1, b[l.off as usize]);
                }
            }
        }
    }
    if r.ub_iff(ub, "transmute") {
        for (k, l) in tl.iter().enumerate() {
            let bs: Vec<Int> = (0..leaf_size(l.t)).map(|j| b[(l.off + j) as usize]).collect();
            match l.t {
                Type::Int(it) => check(is_eq(r.int(k), int_of(&bs, it, true)), "transmuted integer"),
                _ => check(B::from(r.bool(k)).iff(is_eq(bs[0], 1)), "transmuted truth value"),
            }
        }
    }
}

fn shapes() -> Vec<(&'static str, Type)> {
    let i = |s, b| ty_of(ity(s, b));
    let t = |f: &[(u64, Type)], n: u64, a: u64| {
        tuple_ty(&f.iter().map(|(o, t)| (size(*o), *t)).collect::<Vec<_>>(), size(n), align(a))
    };
    vec![
        ("(u8, u16)", t(&[(0, i(Unsigned, 1)), (2, i(Unsigned, 2))], 4, 2)),
        ("(u16, u8)", t(&[(0, i(Unsigned, 2)), (2, i(Unsigned, 1))], 4, 2)),
        ("(pad, bool, pad, i16)", t(&[(1, bool_ty()), (4, i(Signed, 2))], 6, 2)),
        ("fields out of order", t(&[(2, i(Signed, 2)), (0, i(Unsigned, 1)), (1, bool_ty())], 4, 2)),
        ("[bool; 3]", array_ty(bool_ty(), 3)),
        ("[u16; 3]", array_ty(i(Unsigned, 2), 3)),
        ("[(u8, bool, pad); 2]", array_ty(t(&[(0, u8t()), (1, bool_ty())], 3, 1), 2)),
        ("(u8, [i16; 2], pad)", t(&[(0, u8t()), (2, array_ty(i(Signed, 2), 2))], 8, 2)),
        ("((bool, pad), u8)", t(&[(0, t(&[(0, bool_ty())], 2, 1)), (2, u8t())], 3, 1)),
        ("()", t(&[], 0, 1)),
        ("only padding", t(&[], 3, 1)),
        ("[u32; 0]", array_ty(i(Unsigned, 4), 0)),
    ]
}

pub fn cases(c: &mut Cases) {
    for t in all_ity() {
        for (n, e) in [("little endian", encode_case::<x86_64> as fn(IntType, bool)), ("16 bit", encode_case::<Le16>)] {
            c.add(format!("encode {} {n}", ityname(t)), move || e(t, true));
        }
        for (n, e) in [("big endian 64", encode_case::<Be64> as fn(IntType, bool)), ("big endian 32", encode_case::<Be32>)] {
            c.add(format!("encode {} {n}", ityname(t)), move || e(t, false));
        }
        let ty = ty_of(t);
        c.add(format!("decode {} little endian", ityname(t)), move || decode_case::<x86_64>(ty, false, true, true, None));
        c.add(format!("decode {} big endian", ityname(t)), move || decode_case::<Be64>(ty, false, false, true, None));
        if leaf_size(ty) <= 4 || c.thorough && leaf_size(ty) <= 8 {
            c.add(format!("decode {} some uninitialized", ityname(t)), move || {
                decode_case::<x86_64>(ty, true, true, true, None)
            });
        } else {
            c.add(format!("decode {} one uninitialized", ityname(t)), move || one_uninit(t));
        }
    }
    c.add("decode bool", || decode_case::<x86_64>(bool_ty(), true, true, true, None)).expect(&["ub", "exit"]);
    for (k, (n, t)) in shapes().into_iter().enumerate() {
        // types are made anew in every path
        let mk = move || shapes()[k].1;
        c.add(format!("decode {n}"), move || decode_case::<x86_64>(mk(), false, true, true, None));
        c.add(format!("decode {n} big endian"), move || decode_case::<Be32>(mk(), false, false, true, None));
        c.add(format!("decode {n} some uninitialized"), move || decode_case::<x86_64>(mk(), true, true, true, None));
        let ls = leaves(t);
        for i in 0..layout::<x86_64>(t).0 {
            if !ls.iter().any(|l| l.off <= i && i < l.off + leaf_size(l.t)) {
                c.add(format!("decode {n} padding {i}"), move || {
                    decode_case::<x86_64>(mk(), false, true, true, Some(i))
                });
            }
        }
        for (j, (m, u)) in shapes().into_iter().enumerate() {
            if c.thorough || layout::<x86_64>(t).0 == layout::<x86_64>(u).0 || n == "()" || m == "()" {
                c.add(format!("transmute {n} to {m}"), move || transmute_case(mk(), shapes()[j].1));
            }
        }
        for u in all_ity() {
            let same = layout::<x86_64>(t).0 == leaf_size(ty_of(u));
            if same || c.thorough {
                c.add(format!("transmute {n} to {}", ityname(u)), move || transmute_case(mk(), ty_of(u)));
                c.add(format!("transmute {} to {n}", ityname(u)), move || transmute_case(ty_of(u), mk()));
            }
        }
    }
    for t in all_ity() {
        for u in all_ity() {
            if c.thorough || t.size == u.size || (t.signed == Unsigned && u.signed == Unsigned) {
                c.add(format!("transmute {} to {}", ityname(t), ityname(u)), move || transmute_case(ty_of(t), ty_of(u)));
            }
        }
        c.add(format!("transmute {} to bool", ityname(t)), move || transmute_case(ty_of(t), bool_ty()));
        c.add(format!("transmute bool to {}", ityname(t)), move || transmute_case(bool_ty(), ty_of(t)));
    }
    for ct in 0..6 {
        c.add(format!("bytes of several pointers, copy {ct}"), move || ptr_mix_case(false, ct)).expect(&["ub", "exit"]);
    }
    c.add("bytes of several pointers, wide", || ptr_mix_case(true, 0)).expect(&["ub", "exit"]);
    for p in 0..5 {
        c.add(format!("permuted pointer bytes {p}"), move || ptr_rotate_case(p)).expect(&["same address"]);
    }
    for how in 0..11 {
        for to in 0..2 {
            c.add(format!("pointer through another type {how} {to}"), move || ptr_strip_case(how, to));
        }
    }
    c.add("integer as pointer", int_ptr_case).expect(&["hits", "misses"]);
    for w in 0..6 {
        c.add(format!("wide pointer {w}"), move || wide_case(w));
    }
    for b in 0..9 {
        c.add(format!("union byte {b}"), move || union_case(b));
    }
    c.add("union of uninitialized bytes", union_uninit_case);
}

fn one_uninit(t: IntType) {
    let n = leaf_size(ty_of(t));
    let i = choose("i", n as usize) as u64;
    let b: Vec<Int> = (0..n).map(|i| sym_of(&format!("b{i}"), ity(Unsigned, 1))).collect();
    let r = run(prog1(|f| {
        let x = live(f, bytes_of(ty_of(t), n, t.align::<x86_64>()));
        for j in 0..n {
            if i != j {
                f.assign(byte_at(x, j), b8(b[j as usize]));
            }
        }
        f.print(load(field(x, 0)));
    }));
    r.must_ub("an uninitialized byte in an integer");
}
