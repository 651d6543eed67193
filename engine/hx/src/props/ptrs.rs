//! Pointer arithmetic (C06) and places (C07).

use crate::build::*;
use crate::kit::*;
use crate::*;

/// Where a pointer comes from, and how much memory its provenance gives access to.
pub struct Src {
    pub at: PlaceExpr,
    pub len: u64,
    heap: bool,
}
pub const SOURCES: [&str; 8] = ["stack", "heap", "empty", "dead", "freed", "none", "global", "function"];
/// A live local with a pointer of the given origin; the first output is its address. The memory is
/// initialized with 0, 1, 2, ..
pub fn source(f: &mut FunctionBuilder, which: usize, n: u64, name: &str, g: PlaceExpr, fun: FnName) -> Src {
    let b = live(f, raw());
    let mut len = n;
    match which {
        0 => {
            let l = live(f, blob(n, 1));
            f.assign(b, addr(l));
        }
        1 => f.allocate(usize_c(n), usize_c(8), b),
        2 => {
            f.allocate(usize_c(0), usize_c(1), b);
            len = 0;
        }
        3 => {
            let l = live(f, blob(n, 1));
            f.assign(b, addr(l));
            f.storage_dead(l);
            len = 0;
        }
        4 => {
            f.allocate(usize_c(n), usize_c(1), b);
            f.deallocate(load(b), usize_c(n), usize_c(1));
            len = 0;
        }
        5 => {
            f.assign(b, int2raw(sym_of(name, usz())));
            len = 0;
        }
        6 => {
            f.assign(b, addr(g));
            len = 8;
        }
        _ => {
            f.assign(b, transmute(fn_ptr(fun), raw()));
            len = 0;
        }
    }
    for i in 0..len {
        poke(f, load(b), i, Int::from(i));
    }
    f.print(ptr_addr(load(b)));
    Src { at: b, len, heap: which == 1 || which == 2 }
}
pub fn drop_src(f: &mut FunctionBuilder, s: &Src, which: usize) {
    if s.heap {
        let al = if which == 1 { 8 } else { 1 };
        f.deallocate(load(s.at), usize_c(s.len), usize_c(al));
    }
}
pub fn env(p: &mut ProgramBuilder) -> (PlaceExpr, FnName) {
    let g = p.declare_global_zero_initialized::<u64>();
    let f = {
        let mut b = p.declare_function();
        b.exit();
        p.finish_function(b)
    };
    (g, f)
}
fn m64() -> Int {
    pow2(Int::from(64))
}
/// Is [a, a+n) not accessible, given that [base, base+len) is?
pub fn outside(base: Int, len: u64, a: Int, n: Int) -> B {
    !is_eq(n, 0) & (is_lt(a, base) | is_lt(base + Int::from(len), a + n))
}
/// Is the range between `a` and `a + d` not accessible?
pub fn outside_signed(base: Int, len: u64, a: Int, d: Int) -> B {
    outside(base, len, ite(is_lt(d, 0), a + d, a), ite(is_lt(d, 0), Int::ZERO - d, d))
}

fn run_on<M: Memory>(p: Program) -> Run {
    run_n::<M>(p, 4000)
}

/// One offset by any amount, after another one without bounds.
fn offset_case<M: Memory>(which: usize, t: IntType, inbounds: bool, shift: bool) {
    let o = sym_of("o", t);
    let s = if shift { sym_of("s", isz()) } else { Int::ZERO };
    let mut p = ProgramBuilder::new();
    let (g, fun) = env(&mut p);
    let mut len = 0;
    let main = main_fn(&mut p, |f| {
        let b = source(f, which, 5, "addr", g, fun);
        len = b.len;
        let q = live(f, raw());
        f.assign(q, ptr_offset(load(b.at), isize_c(s), InBounds::No));
        let r = live(f, raw());
        f.assign(r, ptr_offset(load(q), cint(o, t), if inbounds { InBounds::Yes } else { InBounds::No }));
        f.print(ptr_addr(load(r)));
        // the provenance is still there
        peek(f, load(r), 0);
        drop_src(f, &b, which);
    });
    let r = run_on::<M>(p.finish_program(main));
    if r.out.is_empty() {
        r.must_exit("address printed");
    }
    let base = r.int(0);
    let a = (base + s).rem_euclid_(m64());
    if inbounds {
        let bad = outside_signed(base, len, a, o);
        if r.out.len() == 1 {
            r.must_ub("only UB ends a run early");
            check(bad, "in-bounds offset: UB only if out of bounds");
            reach("offset ub");
            return;
        }
        check(!bad, "in-bounds offset: no UB missed");
        reach("offset ok");
    } else if r.out.len() == 1 {
        r.must_exit("wrapping offset never has UB");
    }
    let to = r.int(1);
    check(is_eq(to, (a + o).rem_euclid_(m64())), "address after an offset");
    if r.ub_iff(outside(base, len, to, Int::ONE), "provenance after an offset") {
        check(is_eq(r.int(2), to - base), "the byte at that address");
    }
}

/// Distance of pointers with the given origins; `same` pointer if the second one is not given.
fn distance_case<M: Memory>(k1: usize, k2: Option<usize>, inbounds: bool, nonneg: bool) {
    let s1 = sym_of("s1", isz());
    let s2 = sym_of("s2", isz());
    let mut p = ProgramBuilder::new();
    let (g, fun) = env(&mut p);
    let (mut l1, mut l2) = (0, 0);
    let main = main_fn(&mut p, |f| {
        let b = source(f, k1, 5, "addr1", g, fun);
        l1 = b.len;
        let c = match k2 {
            None => {
                l2 = l1;
                f.print(ptr_addr(load(b.at)));
                None
            }
            Some(k) => {
                let c = source(f, k, 3, "addr2", g, fun);
                l2 = c.len;
                Some((c, k))
            }
        };
        let (q, w) = (live(f, raw()), live(f, raw()));
        f.assign(q, ptr_offset(load(b.at), isize_c(s1), InBounds::No));
        f.assign(w, ptr_offset(load(c.as_ref().map_or(b.at, |c| c.0.at)), isize_c(s2), InBounds::No));
        f.print(binop(BinOp::PtrOffsetFrom { inbounds, nonneg }, load(q), load(w)));
        drop_src(f, &b, k1);
        if let Some((c, k)) = c {
            drop_src(f, &c, k);
        }
    });
    let r = run_on::<M>(p.finish_program(main));
    let (b1, b2) = (r.int(0), r.int(1));
    let a1 = (b1 + s1).rem_euclid_(m64());
    let a2 = (b2 + s2).rem_euclid_(m64());
    let d = a1 - a2;
    let w = wrap(d, isz());
    let lo = ite(is_lt(a1, a2), a1, a2);
    let n = ite(is_lt(a1, a2), a2 - a1, d);
    let ub = if inbounds {
        outside(b1, l1, lo, n) | outside(b2, l2, lo, n) | (B::from(nonneg) & is_lt(d, 0))
    } else {
        B::from(nonneg) & is_lt(w, 0)
    };
    if r.ub_iff(ub, "distance") {
        check(is_eq(r.int(2), if inbounds { d } else { w }), "the difference of the addresses");
    }
}

/// Offsets on other targets.
fn target_case<T: Target + serde::de::DeserializeOwned + serde::Serialize>(inbounds: bool) {
    let us = IntType { signed: Unsigned, size: T::PTR_SIZE };
    let is = IntType { signed: Signed, size: T::PTR_SIZE };
    let m = pow2(T::PTR_SIZE.bits());
    let (o, s) = (sym_of("o", isz()), sym_of("s", is));
    let r = run_t::<T>(prog1(|f| {
        let b = live(f, blob(5, 1));
        f.print(transmute(addr(b), ty_of(us)));
        let q = live(f, raw());
        f.assign(q, ptr_offset(addr(b), cint(s, is), InBounds::No));
        let r = live(f, raw());
        f.assign(r, ptr_offset(load(q), cint(o, isz()), if inbounds { InBounds::Yes } else { InBounds::No }));
        f.print(transmute(load(r), ty_of(us)));
        f.print(ptr_offset_from(load(r), load(q), if inbounds { InBounds::Yes } else { InBounds::No }));
        f.print(ptr_offset_from(load(q), addr(b), InBounds::No));
    }));
    let base = r.int(0);
    let a = (base + s).rem_euclid_(m);
    let ub = if inbounds { outside_signed(base, 5, a, o) } else { B::from(false) };
    if r.ub_iff(ub, "offset") {
        let to = r.int(1);
        check(is_eq(to, (a + o).rem_euclid_(m)), "address after an offset");
        check(is_eq(r.int(2), wrap(to - a, is)), "distance of that offset");
        check(is_eq(r.int(3), wrap(a - base, is)), "wrapping distance");
    }
}

/// Typed pointers: the result has to be valid, too.
fn ref_offset_case(mutbl: bool, inbounds: bool) {
    let o = sym_of("o", isz());
    let r = run(prog1(|f| {
        let t = ty_of(ity(Unsigned, 2));
        let rt = if mutbl { ref_mut_ty_default_markers_for(t) } else { ref_ty_default_markers_for(t) };
        let l = live(f, array_ty(t, 3));
        f.print(ptr_addr(addr(l)));
        for i in 0..3u64 {
            f.assign(index(l, usize_c(i)), cint(Int::from(i), ity(Unsigned, 2)));
        }
        let x = live(f, rt);
        f.assign(x, addr_of(index(l, usize_c(1)), rt));
        let y = live(f, rt);
        f.assign(y, ptr_offset(load(x), isize_c(o), if inbounds { InBounds::Yes } else { InBounds::No }));
        f.print(transmute(load(y), ty_of(usz())));
        f.print(load(deref(load(y), t)));
    }));
    let base = r.int(0);
    let to = (base + 2 + o).rem_euclid_(m64());
    let bad = is_ne(to.rem_euclid_(Int::from(2)), 0) | outside(base, 6, to, Int::from(2));
    if r.ub_iff(bad, "offset of a reference") {
        check(is_eq(r.int(1), to), "address");
        check(is_eq(r.int(2) * 2, to - base), "element");
    }
}

pub fn arith(c: &mut Cases) {
    let t = |s, b| ity(s, b);
    let quick = [t(Signed, 8), t(Unsigned, 8), t(Signed, 16), t(Signed, 1)];
    for which in 0..8 {
        for (j, ty) in (if c.thorough { all_ity() } else { quick.to_vec() }).into_iter().enumerate() {
            for inb in [true, false] {
                if !c.thorough && j > 0 && which > 1 {
                    continue;
                }
                let n = format!("{} by {} {}", SOURCES[which], ityname(ty), if inb { "in bounds" } else { "wrapping" });
                let k = c.add(n, move || offset_case::<BasicMem>(which, ty, inb, true));
                if inb && which < 2 {
                    k.expect(&["offset ub", "offset ok", "ub", "exit"]);
                }
                if j == 0 && which < 2 {
                    let n = format!("{} by {} {}, tree borrows", SOURCES[which], ityname(ty), if inb { "in bounds" } else { "wrapping" });
                    c.add(n, move || offset_case::<TreeBorrowMem>(which, ty, inb, true));
                }
            }
        }
    }
    for inb in [true, false] {
        for nonneg in [true, false] {
            let n = format!("{}{}", if inb { "in bounds" } else { "wrapping" }, if nonneg { " not negative" } else { "" });
            for k1 in [0, 1, 4, 5] {
                c.add(format!("distance in {} {n}", SOURCES[k1]), move || distance_case::<BasicMem>(k1, None, inb, nonneg));
            }
            for (k1, k2) in [(0, 1), (1, 1), (0, 5), (5, 5), (5, 6), (2, 6), (3, 0), (4, 1), (7, 1), (7, 5)] {
                if !c.thorough && !inb && k1 != 5 {
                    continue;
                }
                c.add(format!("distance from {} to {} {n}", SOURCES[k1], SOURCES[k2]), move || {
                    distance_case::<BasicMem>(k1, Some(k2), inb, nonneg)
                });
            }
            c.add(format!("distance in stack {n}, tree borrows"), move || distance_case::<TreeBorrowMem>(0, None, inb, nonneg));
        }
        c.add(format!("16 bit {inb}"), move || target_case::<Le16>(inb));
        c.add(format!("32 bit {inb}"), move || target_case::<Be32>(inb));
        for m in [false, true] {
            c.add(format!("reference {m} {inb}"), move || ref_offset_case(m, inb)).expect(&["ub", "exit"]);
        }
    }
}

// Places

fn ut(b: u64) -> Type {
    ty_of(ity(Unsigned, b))
}
/// The bytes `k..k+n` of memory that holds 0, 1, 2, .. , as an integer.
fn seq(k: Int, n: u64) -> Int {
    (0..n).fold(Int::ZERO, |a, i| a + (k + Int::from(i)) * pow2(Int::from(8 * i)))
}
/// One step of a projection: offset in bytes.
struct Step {
    off: Int,
    /// Not allowed at all
    bad: B,
}
/// A projection of `q` (base type, place built from the root, steps, final integer type, alignment of the root).
type Proj = (PlaceExpr, Vec<Step>, IntType, Int);

/// Follows the projection, prints the address, loads or stores there.
fn place_case(which: usize, write: bool, proj: impl FnOnce(&mut ProgramBuilder, &mut FunctionBuilder, PlaceExpr) -> Proj) {
    let s = sym_of("s", isz());
    let mut p = ProgramBuilder::new();
    let (g, fun) = env(&mut p);
    let mut len = 0;
    let mut pr = None;
    let mut b = p.declare_function();
    {
        let f = &mut b;
        let src = source(f, which, 8, "addr", g, fun);
        len = src.len;
        let q = live(f, raw());
        f.assign(q, ptr_offset(load(src.at), isize_c(s), InBounds::No));
        let x = proj(&mut p, f, q);
        // evaluating the place is all that happens
        f.place_mention(x.0);
        f.print(ptr_addr(addr(x.0)));
        if write {
            f.assign(x.0, cint(imax(x.2), x.2));
            // through an unrelated pointer
            let off = x.1.iter().fold(Int::ZERO, |a, b| a + b.off);
            suppose(is_lt(off, pow2(Int::from(62))));
            for k in 0..x.2.size.bytes().try_to_usize().unwrap() {
                f.print(load(at(load(q), off + Int::from(k), ut(1))));
            }
        } else {
            f.print(load(x.0));
        }
        drop_src(f, &src, which);
        pr = Some(x);
        f.exit();
    }
    let main = p.finish_function(b);
    let r = run(p.finish_program(main));
    let (_, steps, it, al) = pr.unwrap();
    let base = r.int(0);
    let a = (base + s).rem_euclid_(m64());
    let mut bad = B::from(false);
    let mut to = a;
    for st in &steps {
        bad = bad | st.bad | outside_signed(base, len, to, st.off);
        to = to + st.off;
    }
    if r.out.len() == 1 {
        r.must_ub("only UB ends a run early");
        check(bad, "projection: UB only if specified");
        reach("place ub");
        return;
    }
    check(!bad, "projection: no UB missed");
    reach("place ok");
    check(is_eq(r.int(1), to), "address of the place");
    let n = it.size.bytes();
    let ub = is_ne(a.rem_euclid_(al), 0) | outside(base, len, to, n);
    if r.ub_iff(ub, "access to the place") {
        if write {
            for k in 0..n.try_to_usize().unwrap() {
                check(is_eq(r.int(2 + k), 255), "bytes written at the place");
            }
        } else {
            check(is_eq(r.int(2), seq(to - base, n.try_to_usize().unwrap() as u64)), "value at the place");
        }
    }
}
fn fixed(off: u64) -> Step {
    Step { off: Int::from(off), bad: B::from(false) }
}
fn tup() -> Type {
    tuple_ty(&[(size(0), ut(1)), (size(2), ut(2)), (size(5), array_ty(ut(1), 1))], size(6), align(2))
}
fn idx(t: IntType, count: Int, sz: u64) -> (ValueExpr, Step) {
    let i = sym_of("i", t);
    let bad = is_lt(i, 0) | is_le(count, i);
    // beyond the end nothing else matters
    (cint(i, t), Step { off: ite(bad, Int::ZERO, i) * Int::from(sz), bad })
}
fn slice_at(q: PlaceExpr, n: Int, elem: Type) -> PlaceExpr {
    deref(construct_wide_pointer(load(q), usize_c(n), raw_ptr_ty(PointerMetaKind::ElementCount)), slice_ty(elem))
}
fn wide_at(q: PlaceExpr, n: Int, t: Type) -> PlaceExpr {
    deref(construct_wide_pointer(load(q), usize_c(n), raw_ptr_ty(PointerMetaKind::ElementCount)), t)
}

fn projection(k: usize, it: IntType, p: &mut ProgramBuilder, _f: &mut FunctionBuilder, q: PlaceExpr) -> Proj {
    let u = |b| ity(Unsigned, b);
    match k {
        0 => (field(deref(load(q), tup()), 0), vec![fixed(0)], u(1), Int::from(2)),
        1 => (field(deref(load(q), tup()), 1), vec![fixed(2)], u(2), Int::from(2)),
        2 => {
            // of an array inside of a tuple
            let (i, s) = idx(it, Int::ONE, 1);
            (index(field(deref(load(q), tup()), 2), i), vec![fixed(5), s], u(1), Int::from(2))
        }
        3 => {
            let (i, s) = idx(it, Int::from(3), 2);
            (index(deref(load(q), array_ty(ut(2), 3)), i), vec![s], u(2), Int::from(2))
        }
        4 => {
            // field of an element
            let (i, s) = idx(it, Int::from(2), 4);
            let e = tuple_ty(&[(size(0), ut(1)), (size(3), ut(1))], size(4), align(1));
            (field(index(deref(load(q), array_ty(e, 2)), i), 1), vec![s, fixed(3)], u(1), Int::ONE)
        }
        5 => {
            let n = sym_of("n", usz());
            let (i, s) = idx(it, n, 2);
            (index(slice_at(q, n, ut(2)), i), vec![s], u(2), Int::from(2))
        }
        6 => {
            let un = union_ty(&[(size(0), ut(4)), (size(2), ut(2))], size(4), align(4));
            (field(deref(load(q), un), 1), vec![fixed(2)], u(2), Int::from(4))
        }
        7 => {
            // slice tail
            let n = sym_of("n", usz());
            let (i, s) = idx(it, n, 2);
            let t = unsized_tuple_ty(&[(size(0), ut(1))], slice_ty(ut(2)), size(3), align(1), None);
            (index(field(wide_at(q, n, t), 1), i), vec![fixed(4), s], u(2), Int::from(2))
        }
        8 => {
            // packed
            let n = sym_of("n", usz());
            let (i, s) = idx(it, n, 2);
            let t = unsized_tuple_ty(&[(size(0), ut(1))], slice_ty(ut(2)), size(3), align(1), Some(align(1)));
            (index(field(wide_at(q, n, t), 1), i), vec![fixed(3), s], u(2), Int::ONE)
        }
        9 => {
            // a head field of it
            let n = sym_of("n", usz());
            let t = unsized_tuple_ty(&[(size(1), ut(1)), (size(2), ut(2))], slice_ty(ut(4)), size(4), align(2), None);
            (field(wide_at(q, n, t), 1), vec![fixed(2)], u(2), Int::from(4))
        }
        10 => {
            // nested tails
            let n = sym_of("n", usz());
            let (i, s) = idx(it, n, 2);
            let inner = unsized_tuple_ty(&[(size(0), ut(1))], slice_ty(ut(2)), size(1), align(1), None);
            let t = unsized_tuple_ty(&[(size(0), ut(1))], inner, size(1), align(1), None);
            (index(field(field(wide_at(q, n, t), 1), 1), i), vec![fixed(2), fixed(2), s], u(2), Int::from(2))
        }
        11 => {
            // trait object tail
            let al = 1u64 << choose("vtable align", 3);
            let tr = {
                let t = p.declare_trait();
                p.finish_trait(t)
            };
            let vt = p.declare_vtable(tr, size(4), align(al), List::new());
            let vt = p.finish_vtable(vt);
            let t = unsized_tuple_ty(&[(size(0), ut(1))], trait_object_ty(tr), size(1), align(2), None);
            let kind = PointerMetaKind::VTablePointer(tr);
            let w = construct_wide_pointer(load(q), const_vtable(vt, tr), raw_ptr_ty(kind));
            let tail = field(deref(w, t), 1);
            // the tail as a type that fits its vtable
            let thin = get_thin_pointer(addr_of(tail, raw_ptr_ty(kind)));
            (deref(thin, ut(1)), vec![fixed(al.max(1))], u(1), Int::ONE)
        }
        12 => {
            let e = three();
            (field(downcast(deref(load(q), e), 1), 0), vec![fixed(2)], u(2), Int::from(4))
        }
        13 => {
            let e = three();
            (field(downcast(deref(load(q), e), 2), 1), vec![fixed(1)], u(1), Int::from(4))
        }
        14 => {
            // through another dereference
            (deref(addr(field(deref(load(q), tup()), 1)), ut(2)), vec![fixed(2)], u(2), Int::from(2))
        }
        15 => {
            // an element of zero-sized elements, then back
            let (i, s) = idx(it, Int::from(3), 0);
            let z = array_ty(ut(2), 0);
            (deref(addr(index(deref(load(q), array_ty(z, 3)), i)), ut(1)), vec![s], u(1), Int::ONE)
        }
        _ => unreachable!(),
    }
}
pub fn three() -> Type {
    let v = |fs: &[(Offset, Type)]| enum_variant(tuple_ty(fs, size(4), align(2)), &[(size(0), (ity(Unsigned, 1), Int::ZERO))]);
    enum_ty::<u8>(
        &[(0, v(&[])), (1, v(&[(size(2), ut(2))])), (2, v(&[(size(3), ut(1)), (size(1), ut(1))]))],
        discriminator_known(0),
        size(4),
        align(4),
    )
}

/// The pointer to the unsized tail has the metadata of the whole.
fn tail_meta_case(tr: bool) {
    let n = sym_of("n", usz());
    let mut p = ProgramBuilder::new();
    let t = p.declare_trait();
    let t = p.finish_trait(t);
    let vts: Vec<VTableName> = [(4, 4), (0, 1), (24, 8)]
        .into_iter()
        .map(|(s, a)| {
            let v = p.declare_vtable(t, size(s), align(a), List::new());
            p.finish_vtable(v)
        })
        .collect();
    let k = choose("vtable", 3);
    let main = main_fn(&mut p, |f| {
        let l = live(f, array_ty(ut(8), 16));
        let (meta, kind, tail) = if tr {
            (const_vtable(vts[k], t), PointerMetaKind::VTablePointer(t), trait_object_ty(t))
        } else {
            (usize_c(n), PointerMetaKind::ElementCount, slice_ty(ut(8)))
        };
        let ty = unsized_tuple_ty(&[(size(0), ut(4))], tail, size(4), align(4), None);
        let w = live(f, raw_ptr_ty(kind));
        f.assign(w, construct_wide_pointer(addr(l), meta, raw_ptr_ty(kind)));
        let x = live(f, raw_ptr_ty(kind));
        f.assign(x, addr_of(field(deref(load(w), ty), 1), raw_ptr_ty(kind)));
        f.print(relop(RelOp::Eq, get_metadata(load(x)), meta));
        f.print(ptr_offset_from(get_thin_pointer(load(x)), addr(l), InBounds::No));
        // a head field does not have any
        f.print(ptr_offset_from(addr(field(deref(load(w), ty), 0)), addr(l), InBounds::No));
        for (j, v) in vts.iter().enumerate() {
            if tr {
                f.print(relop(RelOp::Eq, get_metadata(load(x)), const_vtable(*v, t)));
            } else {
                f.print(const_bool(j == k));
            }
        }
    });
    let r = run(p.finish_program(main));
    r.must_exit("tail of a tuple");
    check(r.bool(0), "metadata of the tail");
    check(is_eq(r.int(1), if tr { [4, 4, 8][k] } else { 8 }), "offset of the tail");
    check(is_eq(r.int(2), 0), "offset of the head");
    for j in 0..3 {
        // different vtables may not share an address if they are not empty
        if j == k {
            check(r.bool(3 + j), "the same vtable");
        }
    }
}

/// References used at other types.
fn ref_place_case(al: u64, t: u64, write: bool) {
    let s = sym("s", 0, 12);
    let r = run(prog1(|f| {
        let l = live(f, blob(16, 16));
        for i in 0..16 {
            poke(f, addr(l), i, Int::from(i));
        }
        f.print(ptr_addr(addr(l)));
        let rt = ref_mut_ty_default_markers_for(ut(al));
        let x = live(f, rt);
        f.assign(x, addr_of(at(addr(l), s, ut(al)), rt));
        f.print(transmute(load(x), ty_of(usz())));
        if write {
            f.assign(deref(load(x), ut(t)), cint(Int::from(1), ity(Unsigned, t)));
        }
        f.print(load(deref(load(x), ut(t))));
    }));
    let misref = is_ne(s.rem_euclid_(Int::from(al)), 0);
    if r.out.len() == 1 {
        r.must_ub("only UB ends a run early");
        check(misref | is_lt(16, s + Int::from(al)), "reference: UB only if misaligned");
        return;
    }
    check(!misref, "no UB missed for a misaligned reference");
    check(is_eq(r.int(1), r.int(0) + s), "address of a reference");
    let ub = is_ne(s.rem_euclid_(Int::from(t)), 0) | is_lt(16, s + Int::from(t));
    if r.ub_iff(ub, "use at another type") {
        check(is_eq(r.int(2), if write { Int::ONE } else { seq(s, t) }), "value");
    }
}

/// Places of locals: fixed while live, different, dead ones have none.
fn locals_case() {
    let r = run(prog1(|f| {
        let x = live(f, ut(4));
        let y = live(f, ut(4));
        f.print(ptr_addr(addr(x)));
        f.print(ptr_addr(addr(y)));
        f.assign(x, cint(Int::from(5), ity(Unsigned, 4)));
        f.assign(y, load(x));
        f.print(ptr_addr(addr(x)));
        f.print(ptr_addr(addr(y)));
        f.storage_dead(y);
        f.print(load(x));
        f.print(ptr_addr(addr(y)));
    }));
    r.must_ub("address of a dead local");
    check(is_eq(r.int(0), r.int(2)) & is_eq(r.int(1), r.int(3)), "locals do not move");
    check(is_ne(r.int(0), r.int(1)), "locals are different");
    check(is_eq(r.int(0).rem_euclid_(Int::from(4)), 0), "locals are aligned");
    check(is_eq(r.int(4), 5), "value");
    check(B::from(r.out.len() == 5), "no place of a dead local");
}

pub fn places(c: &mut Cases) {
    let its: Vec<IntType> = if c.thorough { all_ity() } else { vec![isz()] };
    for k in 0..16 {
        let indexed = [2, 3, 4, 5, 7, 8, 10, 15].contains(&k);
        for (j, it) in its.iter().enumerate() {
            if j > 0 && !indexed {
                continue;
            }
            for which in [0, 1, 5, 4] {
                for write in [false, true] {
                    if !c.thorough && which > 0 && write {
                        continue;
                    }
                    let it = *it;
                    let n = format!("{} {k} {} {}", if write { "write" } else { "read" }, SOURCES[which], ityname(it));
                    let x = c.add(n, move || place_case(which, write, |p, f, q| projection(k, it, p, f, q)));
                    if which == 0 {
                        x.expect(&["place ok", "ub", "exit"]);
                    }
                }
            }
        }
        if indexed && !c.thorough {
            for it in [ity(Unsigned, 8), ity(Signed, 16), ity(Signed, 1)] {
                let n = format!("read {k} stack {}", ityname(it));
                c.add(n, move || place_case(0, false, |p, f, q| projection(k, it, p, f, q)));
            }
        }
    }
    c.add("metadata of a slice tail", || tail_meta_case(false));
    c.add("metadata of a trait object tail", || tail_meta_case(true));
    for al in [1, 2, 4, 8] {
        for t in [1, 2, 4, 8] {
            for write in [false, true] {
                c.add(format!("reference {al} {t} {write}"), move || ref_place_case(al, t, write));
            }
        }
    }
    c.add("locals", locals_case);
}
