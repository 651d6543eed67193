//! Sizes and alignments (C08), validity of pointers (C09).

use crate::build::*;
use crate::kit::*;
use crate::*;

fn m64() -> Int {
    pow2(Int::from(64))
}
fn ut(b: u64) -> Type {
    ty_of(ity(Unsigned, b))
}
fn no() -> B {
    B::from(false)
}
pub fn up(x: Int, al: u64) -> Int {
    let al = Int::from(al);
    let r = x.rem_euclid_(al);
    ite(is_eq(r, 0), x, x + al - r)
}
fn bytes(x: Int) -> Size {
    Size::from_bytes(x).unwrap()
}
fn pow_choice(name: &str, n: usize) -> u64 {
    1 << choose(name, n)
}

/// A type with metadata for it and its size and alignment as specified.
struct Ty {
    ty: Type,
    meta: ValueExpr,
    size: Int,
    align: u64,
    /// The program is not well-formed
    ill: B,
    /// A vtable is for a type that is too big; such a program may be rejected
    big: B,
}
fn sized(ty: Type, size: impl Into<Int>, align: u64) -> Ty {
    Ty { ty, meta: unit(), size: size.into(), align, ill: no(), big: no() }
}
struct Tgt {
    us: IntType,
    /// isize::MAX
    max: Int,
    ptr: u64,
    int_max_align: u64,
}
fn tgt<T: Target>(int_max_align: u64) -> Tgt {
    let b = T::PTR_SIZE.bytes().try_to_usize().unwrap() as u64;
    Tgt { us: ity(Unsigned, b), max: pow2(Int::from(8 * b - 1)) - 1, ptr: b, int_max_align }
}

/// Sizes any program could state.
fn any_size(t: &Tgt, name: &str) -> Int {
    sym(name, 0, t.max * 2)
}
/// Element types: type, size, alignment.
fn elem(k: usize, t: &Tgt) -> (Type, u64, u64) {
    let a = |b: u64| b.min(t.int_max_align);
    match k {
        0 => (ut(1), 1, 1),
        1 => (ut(2), 2, a(2)),
        2 => (ut(8), 8, a(8)),
        3 => (tuple_ty(&[(size(0), ut(1)), (size(2), ut(2))], size(4), align(2)), 4, 2),
        4 => (tuple_ty(&[(size(0), ut(1))], size(3), align(2)), 4, 2),
        5 => (tuple_ty(&[], size(0), align(4)), 0, 4),
        6 => (array_ty(ut(1), 3), 3, 1),
        7 => (ut(16), 16, a(16)),
        8 => (blob(24, 8), 24, 8),
        _ => (raw_ptr_ty(PointerMetaKind::ElementCount), 2 * t.ptr, t.ptr),
    }
}
const ELEMS: usize = 10;

/// A tail: slice, trait object, or tuple with such a tail.
fn tail(kind: usize, e: usize, t: &Tgt, p: &mut ProgramBuilder) -> Ty {
    match kind {
        0 => {
            let n = sym_of("count", t.us);
            let (ty, s, a) = elem(e, t);
            Ty { ty: slice_ty(ty), meta: cint(n, t.us), size: n * Int::from(s), align: a, ill: no(), big: no() }
        }
        1 => {
            let tr = {
                let t = p.declare_trait();
                p.finish_trait(t)
            };
            let s = any_size(t, "vtable size");
            let a = pow_choice("vtable align", 5);
            let v = p.declare_vtable(tr, bytes(s), align(a), List::new());
            let v = p.finish_vtable(v);
            // another one, to be confused with
            let w = p.declare_vtable(tr, size(7), align(1), List::new());
            p.finish_vtable(w);
            Ty {
                ty: trait_object_ty(tr),
                meta: const_vtable(v, tr),
                size: s,
                align: a,
                ill: is_ne(s.rem_euclid_(Int::from(a)), 0),
                big: is_lt(t.max, s),
            }
        }
        _ => head(kind - 2, e, "inner ", t, p),
    }
}
/// A tuple with a tail.
fn head(kind: usize, e: usize, pre: &str, t: &Tgt, p: &mut ProgramBuilder) -> Ty {
    let tl = tail(kind, e, t, p);
    let end = any_size(t, &format!("{pre}end"));
    let a = pow_choice(&format!("{pre}align"), 4);
    let pk = choose(&format!("{pre}packed"), 4);
    let packed = if pk == 3 { None } else { Some(1u64 << pk) };
    let ta = packed.map_or(tl.align, |p| tl.align.min(p));
    let al = a.max(ta);
    let ty = unsized_tuple_ty(&[(size(0), ut(1))], tl.ty, bytes(end), align(a), packed.map(align));
    Ty {
        ty,
        meta: tl.meta,
        size: up(up(end, ta) + tl.size, al),
        align: al,
        ill: tl.ill | is_lt(t.max, end) | is_lt(end, 1) | B::from(packed.is_some_and(|p| a > p)),
        big: tl.big,
    }
}

fn size_case<T: Target + serde::de::DeserializeOwned + serde::Serialize>(ima: u64, mk: impl FnOnce(&Tgt, &mut ProgramBuilder) -> Ty) {
    let t = tgt::<T>(ima);
    let mut p = ProgramBuilder::new();
    let x = mk(&t, &mut p);
    let main = main_fn(&mut p, |f| {
        let l = live(f, ty_of(t.us));
        f.assign(l, compute_align(x.ty, x.meta));
        f.print(load(l));
        f.assign(l, compute_size(x.ty, x.meta));
        f.print(load(l));
    });
    let r = run_t::<T>(p.finish_program(main));
    if let End::IllFormed(s) = &r.end {
        check_msg(x.ill | x.big, "only ill-formed types are rejected", s);
        reach("ill-formed");
        return;
    }
    check(!x.ill, "ill-formed types are rejected");
    match &r.end {
        End::Ub(s) => {
            check_msg(is_lt(t.max, x.size), "UB only if the size is too large", s);
            reach("ub");
        }
        End::Exit => {
            check(is_eq(r.int(1), x.size), "size");
            check_known(is_le(x.size, t.max), "F03", "a size that is too large is not UB");
        }
        e => fail("size: UB or regular end", &e.text()),
    }
    check(is_eq(r.int(0), x.align), "alignment");
}

fn sized_type(k: usize, t: &Tgt) -> Ty {
    match k {
        0..10 => {
            let i = all_ity()[k];
            let b = i.size.bytes().try_to_usize().unwrap() as u64;
            sized(ty_of(i), b, b.min(t.int_max_align))
        }
        10 => sized(bool_ty(), 1, 1),
        11 => sized(raw(), t.ptr, t.ptr),
        12 => sized(raw_ptr_ty(PointerMetaKind::ElementCount), 2 * t.ptr, t.ptr),
        13 => sized(Type::Ptr(PtrType::FnPtr), t.ptr, t.ptr),
        14 => {
            // array
            let n = sym("count", -3, pow2(Int::from(70)));
            let e = choose("elem", ELEMS);
            let (ty, s, a) = elem(e, t);
            Ty { ill: is_lt(n, 0) | is_lt(t.max, n * Int::from(s)), ..sized(array_ty(ty, n), n * Int::from(s), a) }
        }
        15 => {
            // sized tuple
            let end = any_size(t, "end");
            let a = pow_choice("align", 5);
            let ty = tuple_ty(&[(size(0), ut(2)), (size(5), ut(1))], bytes(end), align(a));
            let s = up(end, a);
            Ty { ill: is_lt(end, 6) | is_lt(t.max, s), ..sized(ty, s, a) }
        }
        16 => {
            let s = any_size(t, "size");
            let a = pow_choice("align", 5);
            let ty = Type::Union { fields: [(size(1), ut(2))].into_iter().collect(), size: bytes(s), align: align(a), chunks: List::new() };
            Ty { ill: is_lt(s, 3) | is_lt(t.max, s) | is_ne(s.rem_euclid_(Int::from(a)), 0), ..sized(ty, s, a) }
        }
        17 => {
            // fields at any offsets
            let (a, b) = (any_size(t, "a"), any_size(t, "b"));
            let ty = tuple_ty(&[(bytes(a), ut(4)), (bytes(b), ut(1))], size(8), align(1));
            let overlap = is_lt(a, b + 1) & is_lt(b, a + 4);
            Ty { ill: overlap | is_lt(8, a + 4) | is_lt(8, b + 1), ..sized(ty, 8, 1) }
        }
        _ => {
            // an enum
            let s = any_size(t, "size");
            let a = pow_choice("align", 4);
            let va = pow_choice("variant align", 3);
            let v = |k: u64| enum_variant(tuple_ty(&[], bytes(s), align(va)), &[(size(1), (ity(Unsigned, 1), Int::from(k)))]);
            let ty = enum_ty::<u8>(&[(0, v(0)), (1, v(1))], discriminator_known(1), bytes(s), align(a));
            let mis = |a: u64| is_ne(s.rem_euclid_(Int::from(a)), 0);
            Ty { ill: is_lt(s, 2) | is_lt(t.max, s) | mis(a) | mis(va) | B::from(va > a), ..sized(ty, s, a) }
        }
    }
}

pub fn sizes(c: &mut Cases) {
    fn add<T: Target + serde::de::DeserializeOwned + serde::Serialize>(c: &mut Cases, n: &str, ima: u64, all: bool) {
        for k in 0..19 {
            c.add(format!("{n}: sized {k}"), move || size_case::<T>(ima, |t, _| sized_type(k, t)));
        }
        for e in 0..ELEMS {
            c.add(format!("{n}: slice of {e}"), move || size_case::<T>(ima, |t, p| tail(0, e, t, p)));
            if all || e % 3 == 0 {
                c.add(format!("{n}: tuple with slice of {e}"), move || size_case::<T>(ima, |t, p| head(0, e, "", t, p)))
                    .expect(&["ill-formed", "ub", "exit"]);
            }
        }
        c.add(format!("{n}: trait object"), move || size_case::<T>(ima, |t, p| tail(1, 0, t, p)));
        c.add(format!("{n}: tuple with trait object"), move || size_case::<T>(ima, |t, p| head(1, 0, "", t, p)))
            .expect(&["ill-formed", "ub", "exit"]);
        if all {
            for (j, e) in [1, 2].into_iter().enumerate() {
                if j > 0 && !c.thorough {
                    continue;
                }
                c.add(format!("{n}: nested tuple with slice of {e}"), move || size_case::<T>(ima, |t, p| head(2, e, "", t, p)));
            }
            if c.thorough {
                c.add(format!("{n}: nested tuple with trait object"), move || size_case::<T>(ima, |t, p| head(3, 0, "", t, p)));
            }
        }
    }
    let deep = c.thorough;
    add::<x86_64>(c, "x86_64", 16, true);
    add::<Be32>(c, "32 bit", 8, deep);
    add::<Le16>(c, "16 bit", 2, deep);
}

// Validity of pointers

/// The pointee of a pointer, with its metadata.
struct Pointee {
    info: PointeeInfo,
    /// type with that layout, for place expressions
    ty: Type,
    meta: Option<(ValueExpr, Type)>,
    size: Int,
    align: Int,
    inhabited: bool,
    vtable_ok: B,
}
fn frozen(layout: LayoutStrategy, inhabited: bool) -> PointeeInfo {
    PointeeInfo { layout, inhabited, unsafe_cells: from_frozen_layout(layout), freeze: true, unpin: true }
}
const POINTEES: [&str; 6] = ["sized", "slice", "tuple with slice", "trait object", "tuple with trait object", "any trait object"];
fn pointee(k: usize, p: &mut ProgramBuilder, f: &mut FunctionBuilder) -> Pointee {
    let x64 = tgt::<x86_64>(16);
    let inhabited = k > 1 || choose("inhabited", 4) != 0;
    match k {
        0 => {
            let n = sym("size", 0, x64.max);
            let a = [1, 2, 8, 32][choose("align", 4)];
            // the size does not have to be a multiple of the alignment here
            Pointee {
                info: frozen(LayoutStrategy::Sized(bytes(n), align(a)), inhabited),
                ty: tuple_ty(&[], size(0), align(1)),
                meta: None,
                size: n,
                align: Int::from(a),
                inhabited,
                vtable_ok: B::from(true),
            }
        }
        1 | 2 => {
            let n = sym_of("count", usz());
            let (e, s, a) = elem(if k == 1 { [1, 3][choose("elem", 2)] } else { 1 }, &x64);
            let (ty, sz, al) = if k == 1 {
                (slice_ty(e), n * Int::from(s), a)
            } else {
                let end = 3;
                let ha = pow_choice("head align", 3);
                let packed = if choose("packed", 2) == 0 { None } else { Some(ha) };
                let ta = packed.map_or(a, |p| a.min(p));
                let al = ha.max(ta);
                let t = unsized_tuple_ty(&[(size(0), ut(1))], slice_ty(e), size(end), align(ha), packed.map(align));
                (t, up(up(Int::from(end), ta) + n * Int::from(s), al), al)
            };
            Pointee {
                info: frozen(ty.layout::<x86_64>(), inhabited),
                ty,
                meta: Some((usize_c(n), raw_ptr_ty(PointerMetaKind::ElementCount))),
                size: sz,
                align: Int::from(al),
                inhabited,
                vtable_ok: B::from(true),
            }
        }
        _ => {
            let (tr, tr2) = {
                let (a, b) = (p.declare_trait(), p.declare_trait());
                (p.finish_trait(a), p.finish_trait(b))
            };
            let mut vs = vec![];
            let s = sym("vtable size", 0, x64.max);
            let a = if k == 5 { 4 } else { pow_choice("vtable align", 3) };
            suppose(is_eq(s.rem_euclid_(Int::from(a)), 0));
            for (t, s, a) in [(tr, s, a), (tr2, Int::from(1), 1), (tr, Int::from(4), 2)] {
                let v = p.declare_vtable(t, bytes(s), align(a), List::new());
                vs.push(p.finish_vtable(v));
            }
            let obj = trait_object_ty(tr);
            let kind = raw_ptr_ty(PointerMetaKind::VTablePointer(tr));
            let (mut sz, mut al, mut ok) = (s, Int::from(a), B::from(true));
            let mut meta = const_vtable(vs[0], tr);
            if k == 5 {
                // a vtable pointer made from something else
                let which = choose("vtable", 6);
                let d = sym_of("vtable offset", isz());
                let base = match which {
                    0 => transmute(const_vtable(vs[0], tr), raw()),
                    1 => transmute(const_vtable(vs[1], tr2), raw()),
                    2 => transmute(const_vtable(vs[2], tr), raw()),
                    3 => int2raw(Int::from(4096)),
                    4 => transmute(int2raw(Int::ZERO), raw()),
                    _ => {
                        // right address, but no provenance
                        let l = live(f, ty_of(usz()));
                        f.assign(l, transmute(const_vtable(vs[0], tr), ty_of(usz())));
                        transmute(load(l), raw())
                    }
                };
                meta = ptr_offset(base, isize_c(d), InBounds::No);
                ok = is_eq(d, 0) & B::from(which == 0 || which == 2);
                if which == 2 {
                    (sz, al) = (Int::from(4), Int::from(2));
                }
            }
            let ty = if k == 4 {
                let ha = [1, 8][choose("head align", 2)];
                let new_al = ite(is_lt(al, Int::from(ha)), Int::from(ha), al);
                sz = up(up(Int::from(3), a) + sz, a.max(ha));
                al = new_al;
                unsized_tuple_ty(&[(size(0), ut(1))], obj, size(3), align(ha), None)
            } else {
                obj
            };
            Pointee { info: frozen(ty.layout::<x86_64>(), inhabited), ty, meta: Some((meta, kind)), size: sz, align: al, inhabited, vtable_ok: ok }
        }
    }
}
fn safe_ptr(k: usize, i: PointeeInfo) -> Type {
    match k {
        0 => ref_ty(i),
        1 => ref_mut_ty(i),
        _ => box_ty(i),
    }
}

const PRODUCE: [&str; 14] = [
    "transmute", "load", "address of", "wide pointer", "argument", "argument in place", "return", "validate", "tuple", "array", "enum",
    "union field", "transmute of tuple", "validate at function entry",
];

/// Produces a safe pointer from address, provenance and metadata that could be anything.
fn safe_case<M: Memory>(kind: usize, which: usize, pk: usize, how: usize, pin: bool) {
    if pin {
        pin_addresses(|_, _| false);
    }
    let s = sym_of("s", isz());
    let mut p = ProgramBuilder::new();
    let (g, fun) = super::ptrs::env(&mut p);
    let mut b = p.declare_function();
    let f = &mut b;
    let src = super::ptrs::source(f, which, 8, "addr", g, fun);
    let x = pointee(pk, &mut p, f);
    let t = safe_ptr(kind, x.info);
    let q = live(f, raw());
    f.assign(q, ptr_offset(load(src.at), isize_c(s), InBounds::No));
    // as a pair of thin pointer and metadata, and as bytes in memory
    let psize: u64 = if x.meta.is_some() { 16 } else { 8 };
    let (pair_ty, mem) = match x.meta {
        None => (raw(), load(q)),
        Some((m, _)) => {
            let mt = if pk < 3 { ty_of(usz()) } else { raw() };
            let pt = tuple_ty(&[(size(0), raw()), (size(8), mt)], size(16), align(8));
            let m = if pk < 3 || pk == 5 { m } else { transmute(m, raw()) };
            (pt, tuple(&[load(q), m], pt))
        }
    };
    let slot = live(f, pair_ty);
    f.assign(slot, mem);
    let at_type = |t: Type| deref(addr(slot), t);
    let wide_raw = x.meta.map_or(raw(), |m| m.1);
    let out = live(f, t);
    let mut returns = None;
    let mut bad_raw = B::from(false);
    match how {
        0 => f.assign(out, transmute(load(slot), t)),
        1 => f.assign(out, load(at_type(t))),
        2 => {
            // the place is that of a raw pointer
            bad_raw = !x.vtable_ok;
            let pl = deref(transmute(load(slot), wide_raw), x.ty);
            f.assign(out, addr_of(pl, t));
        }
        3 => {
            let m = match &x.meta {
                None => unit(),
                Some((m, _)) if pk == 5 => {
                    let PtrType::Raw { meta_kind: PointerMetaKind::VTablePointer(tr) } = (match x.meta.unwrap().1 {
                        Type::Ptr(t) => t,
                        _ => panic!(),
                    }) else {
                        panic!()
                    };
                    transmute(*m, Type::Ptr(PtrType::VTablePtr(tr)))
                }
                Some((m, _)) => *m,
            };
            f.assign(out, construct_wide_pointer(load(q), m, t));
        }
        4 | 5 => {
            let callee = {
                let mut c = p.declare_function();
                let a = c.declare_arg_with_ty(t);
                c.declare_ret::<()>();
                c.validate(a, false);
                c.return_();
                p.finish_function(c)
            };
            let arg = if how == 4 { by_value(transmute(load(slot), wide_raw)) } else { in_place(at_type(wide_raw)) };
            f.call_nounwind(unit_place(), fn_ptr(callee), &[arg]);
        }
        6 => {
            let callee = {
                let mut c = p.declare_function();
                let a = c.declare_arg_with_ty(wide_raw);
                let r = c.declare_ret::<()>();
                c.assign(deref(addr(r), wide_raw), load(a));
                c.return_();
                p.finish_function(c)
            };
            returns = Some(callee);
            f.call_nounwind(out, fn_ptr(callee), &[by_value(transmute(load(slot), wide_raw))]);
        }
        7 => f.validate(at_type(t), false),
        8 => {
            let tt = tuple_ty(&[(size(0), t)], size(psize), align(8));
            f.place_mention(at_type(tt));
            let o = live(f, tt);
            f.assign(o, load(at_type(tt)));
        }
        9 => f.validate(at_type(array_ty(t, 1)), false),
        10 => {
            let v = enum_variant(tuple_ty(&[(size(0), t)], size(psize), align(8)), &[]);
            let e = enum_ty::<u8>(&[(3, v)], discriminator_known(3), size(psize), align(8));
            f.validate(at_type(e), false);
        }
        11 => {
            let u = union_ty(&[(size(0), t)], size(psize), align(8));
            // the union has no validity requirement
            let w = live(f, u);
            f.assign(w, load(at_type(u)));
            f.validate(w, false);
            f.print(usize_c(77u64));
            f.assign(out, load(field(w, 0)));
        }
        12 => {
            let tt = tuple_ty(&[(size(0), pair_ty)], size(psize), align(8));
            let ta = array_ty(t, 1);
            let o = live(f, ta);
            f.assign(o, transmute(tuple(&[load(slot)], tt), ta));
        }
        _ => {
            let callee = {
                let mut c = p.declare_function();
                let a = c.declare_arg_with_ty(t);
                c.declare_ret::<()>();
                c.validate(a, true);
                c.return_();
                p.finish_function(c)
            };
            f.call_nounwind(unit_place(), fn_ptr(callee), &[by_value(transmute(load(slot), wide_raw))]);
        }
    }
    super::ptrs::drop_src(f, &src, which);
    f.exit();
    let main = p.finish_function(b);
    let mut prog = p.finish_program(main);
    if let Some(c) = returns {
        prog = set_ret(prog, c, t);
    }
    let r = run_n::<M>(prog, 4000);
    let base = r.int(0);
    let a = (base + s).rem_euclid_(m64());
    let bad = is_eq(a, 0)
        | is_ne(a.rem_euclid_(x.align), 0)
        | B::from(!x.inhabited)
        | is_lt(tgt::<x86_64>(16).max, x.size)
        | super::ptrs::outside(base, src.len, a, x.size)
        | !x.vtable_ok
        | bad_raw;
    r.ub_iff(bad, "safe pointer");
    if how == 11 {
        check(is_eq(r.int(1), 77), "unions may hold anything");
    }
}

/// Raw pointers and function pointers: only a vtable has to be right.
fn raw_case(kind: usize, how: usize) {
    let a = sym_of("addr", usz());
    let m = sym_of("meta", usz());
    let mut p = ProgramBuilder::new();
    let (tr, tr2) = {
        let (a, b) = (p.declare_trait(), p.declare_trait());
        (p.finish_trait(a), p.finish_trait(b))
    };
    let v = p.declare_vtable(tr, size(4), align(2), List::new());
    let v = p.finish_vtable(v);
    let v2 = p.declare_vtable(tr2, size(4), align(2), List::new());
    let v2 = p.finish_vtable(v2);
    let t = match kind {
        0 => raw(),
        1 => Type::Ptr(PtrType::FnPtr),
        2 => raw_ptr_ty(PointerMetaKind::ElementCount),
        3 => raw_ptr_ty(PointerMetaKind::VTablePointer(tr)),
        _ => Type::Ptr(PtrType::VTablePtr(tr)),
    };
    let mut ok = B::from(true);
    let main = main_fn(&mut p, |f| {
        let pair = |x: ValueExpr| {
            let t = tuple_ty(&[(size(0), ty_of(usz())), (size(8), raw())], size(16), align(8));
            tuple(&[usize_c(a), x], t)
        };
        let vt = |ok: &mut B| {
            let (c, w) = (choose("vtable", 3), sym_of("offset", isz()));
            *ok = is_eq(w, 0) & B::from(c == 0);
            let b = match c {
                0 => transmute(const_vtable(v, tr), raw()),
                1 => transmute(const_vtable(v2, tr2), raw()),
                _ => int2raw(m),
            };
            ptr_offset(b, isize_c(w), InBounds::No)
        };
        let val = match kind {
            0 | 1 => usize_c(a),
            2 => pair(int2raw(m)),
            3 => pair(vt(&mut ok)),
            _ => vt(&mut ok),
        };
        let l = live(f, t);
        match how {
            0 => f.assign(l, transmute(val, t)),
            _ => {
                let pt = if kind == 2 || kind == 3 {
                    tuple_ty(&[(size(0), ty_of(usz())), (size(8), raw())], size(16), align(8))
                } else if kind == 4 {
                    raw()
                } else {
                    ty_of(usz())
                };
                let s = live(f, pt);
                f.assign(s, val);
                f.validate(deref(addr(s), t), false);
                f.assign(l, load(deref(addr(s), t)));
            }
        }
        if kind == 0 || kind == 1 {
            f.print(transmute(load(l), ty_of(usz())));
        } else if kind == 2 {
            f.print(transmute(get_thin_pointer(load(l)), ty_of(usz())));
            f.print(get_metadata(load(l)));
        } else if kind == 3 {
            f.print(transmute(get_thin_pointer(load(l)), ty_of(usz())));
            f.print(compute_size(trait_object_ty(tr), get_metadata(load(l))));
        }
    });
    let r = run(p.finish_program(main));
    if r.ub_iff(!ok, "raw pointer") {
        if kind < 4 {
            check(is_eq(r.int(0), a), "address of a raw pointer");
        }
        if kind == 2 {
            check(is_eq(r.int(1), m), "element count");
        }
        if kind == 3 {
            check(is_eq(r.int(1), 4), "vtable");
        }
    }
}

/// A reference to memory that is gone by the time it is used.
fn gone_case(kind: usize, how: usize) {
    let dead = choose("dead", 2) == 1;
    let n = sym("size", 0, 8);
    let mut p = ProgramBuilder::new();
    let t = safe_ptr(kind, frozen(LayoutStrategy::Sized(bytes(n), align(1)), true));
    let mut b = p.declare_function();
    let f = &mut b;
    let mut returns = None;
    match how {
        0 => {
            // returned from the function whose local it points to
            let callee = {
                let mut c = p.declare_function();
                let a = c.declare_arg_with_ty(raw());
                let r = c.declare_ret::<()>();
                let l = live(&mut c, blob(8, 1));
                let from = if dead { addr(l) } else { load(a) };
                c.assign(r, transmute(from, t));
                c.return_();
                p.finish_function(c)
            };
            returns = Some(callee);
            let l = live(f, blob(8, 1));
            let out = live(f, t);
            f.call_nounwind(out, fn_ptr(callee), &[by_value(addr(l))]);
            f.print(usize_c(1u64));
        }
        1 => {
            // stored before
            let l = live(f, blob(8, 1));
            let out = live(f, t);
            f.assign(out, transmute(addr(l), t));
            if dead {
                f.storage_dead(l);
            }
            f.print(usize_c(1u64));
            f.assign(out, load(out));
        }
        2 => {
            // only dereferenced
            let l = live(f, blob(8, 1));
            let out = live(f, t);
            f.assign(out, transmute(addr(l), t));
            let w = live(f, raw());
            f.assign(w, addr(out));
            if dead {
                f.storage_dead(l);
            }
            f.print(usize_c(1u64));
            f.place_mention(deref(load(out), tuple_ty(&[], size(0), align(1))));
        }
        _ => {
            // freed by the function that returns it
            let callee = {
                let mut c = p.declare_function();
                let a = c.declare_arg_with_ty(raw());
                let r = c.declare_ret::<()>();
                c.assign(r, transmute(load(a), t));
                if dead {
                    c.deallocate(load(a), usize_c(8u64), usize_c(1u64));
                }
                c.return_();
                p.finish_function(c)
            };
            returns = Some(callee);
            let l = live(f, raw());
            f.allocate(usize_c(8u64), usize_c(1u64), l);
            let out = live(f, t);
            f.print(usize_c(1u64));
            f.call_nounwind(out, fn_ptr(callee), &[by_value(load(l))]);
            if !dead {
                f.deallocate(load(l), usize_c(8u64), usize_c(1u64));
            }
        }
    }
    f.exit();
    let main = p.finish_function(b);
    let mut prog = p.finish_program(main);
    if let Some(c) = returns {
        prog = set_ret(prog, c, t);
    }
    let r = run(prog);
    r.ub_iff(B::from(dead) & is_lt(0, n), "reference to memory that is gone");
    if r.end.is_exit() {
        check(is_eq(r.int(0), 1), "output");
    }
}

pub fn pointers(c: &mut Cases) {
    use super::ptrs::SOURCES;
    let deep = c.thorough;
    for (how, hn) in PRODUCE.into_iter().enumerate() {
        for (pk, pn) in POINTEES.into_iter().enumerate() {
            if how == 3 && pk == 0 {
                continue;
            }
            for which in 0..8 {
                if !deep && !(which < 2 || which == 5 || how < 3) {
                    continue;
                }
                let kinds = if deep || (which == 1 && how < 4) { vec![0, 1, 2] } else { vec![(how + pk + which) % 3] };
                for kind in kinds {
                    let n = format!("{hn} {} {pn}, {}", ["&", "&mut", "box"][kind], SOURCES[which]);
                    let x = c.add(n.clone(), move || safe_case::<BasicMem>(kind, which, pk, how, true));
                    if which < 2 {
                        x.expect(&["ub", "exit"]);
                    }
                    if which < 2 || deep {
                        c.add(format!("{n}, tree borrows"), move || safe_case::<TreeBorrowMem>(kind, which, pk, how, true));
                    }
                    if which == 1 && (how == 0 && pk < 3 || deep) {
                        c.add(format!("{n}, anywhere"), move || safe_case::<BasicMem>(kind, which, pk, how, false));
                    }
                }
            }
        }
    }
    for kind in 0..5 {
        for how in 0..2 {
            let n = ["thin", "function", "slice", "trait object", "vtable"][kind];
            let x = c.add(format!("raw {n} {how}"), move || raw_case(kind, how));
            x.expect(if kind < 3 { &["exit"] } else { &["ub", "exit"] });
        }
    }
    for kind in 0..3 {
        for how in 0..4 {
            let n = ["returned", "loaded", "dereferenced", "freed"][how];
            c.add(format!("gone {n} {kind}"), move || gone_case(kind, how)).expect(&["ub", "exit"]);
        }
    }
}
