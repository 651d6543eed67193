//! Atomic operations (C14).

use crate::build::*;
use crate::kit::*;
use crate::props::ptrs::{SOURCES, drop_src, env, outside, source};
use crate::props::threads::{N, Op, Op::*, build, follow, go, u32i};
use crate::*;

const OPS: [&str; 5] = ["load", "store", "add", "sub", "cas"];

fn intrinsic(op: usize) -> IntrinsicOp {
    match op {
        0 => IntrinsicOp::AtomicLoad,
        1 => IntrinsicOp::AtomicStore,
        2 => IntrinsicOp::AtomicFetchAndOp(IntBinOp::Add),
        3 => IntrinsicOp::AtomicFetchAndOp(IntBinOp::Sub),
        _ => IntrinsicOp::AtomicCompareExchange,
    }
}
/// One operation with operand(s); the previous value ends up in `dest`.
fn emit(f: &mut FunctionBuilder, op: usize, t: IntType, ptr: ValueExpr, x: Int, y: Int, dest: PlaceExpr) {
    match op {
        0 => f.atomic_load(dest, ptr),
        1 => f.atomic_store(ptr, cint(x, t)),
        2 | 3 => f.intrinsic(intrinsic(op), &[ptr, cint(x, t)], dest),
        _ => f.compare_exchange(dest, ptr, cint(x, t), cint(y, t)),
    }
}
fn after(op: usize, t: IntType, old: Int, x: Int, y: Int) -> Int {
    match op {
        0 => old,
        1 => x,
        2 => wrap(old + x, t),
        3 => wrap(old - x, t),
        _ => ite(is_eq(old, x), y, old),
    }
}

/// An operation on a pointer with any offset.
fn place_case<M: Memory>(op: usize, t: IntType, which: usize) {
    let n = t.size.bytes().try_to_usize().unwrap() as u64;
    let o = sym_of("o", isz());
    let x = sym_of("x", t);
    let y = if op == 4 { sym_of("y", t) } else { Int::ZERO };
    let mut p = ProgramBuilder::new();
    let (g, fun) = env(&mut p);
    let mut len = 0;
    let main = main_fn(&mut p, |f| {
        let b = source(f, which, 5, "addr", g, fun);
        len = b.len;
        let d = live(f, ty_of(t));
        f.assign(d, cint(Int::ZERO, t));
        emit(f, op, t, ptr_offset(load(b.at), isize_c(o), InBounds::No), x, y, d);
        f.print(load(d));
        for i in 0..len {
            peek(f, load(b.at), i);
        }
        drop_src(f, &b, which);
    });
    let r = run_n::<M>(p.finish_program(main), 4000);
    if r.out.is_empty() {
        r.must_exit("address printed");
    }
    let base = r.int(0);
    let a = (base + o).rem_euclid_(pow2(Int::from(64)));
    let bad = outside(base, len, a, Int::from(n)) | is_ne(a.rem_euclid_(Int::from(n)), 0);
    if !r.ub_iff(bad, "atomic access") {
        return;
    }
    // in bounds now; the bytes were 0, 1, 2, ..
    let off = a - base;
    let mut old = Int::ZERO;
    for i in 0..n {
        old = old + (off + Int::from(i)) * pow2(Int::from(8 * i));
    }
    let old = wrap(old, t);
    if op == 1 {
        check(is_eq(r.int(1), 0), "a store returns nothing");
    } else {
        check(is_eq(r.int(1), old), "the previous value");
    }
    let new = after(op, t, old, x, y);
    for i in 0..len {
        let k = Int::from(i) - off;
        let mut want = Int::from(i);
        for j in 0..n {
            want = ite(is_eq(k, j), byte_of(new, j), want);
        }
        check(is_eq(r.int(2 + i as usize), want), "exactly the accessed bytes change");
    }
}

/// Any value in memory, any operand, on any target.
fn value_case<T: Target + serde::de::DeserializeOwned + serde::Serialize>(op: usize, t: IntType) {
    pin_addresses(|_, _| false);
    let v = sym_of("v", t);
    let x = sym_of("x", t);
    let y = sym_of("y", t);
    let p = prog1(|f| {
        let u = live(f, array_ty(ty_of(t), 3));
        for i in 0..3u64 {
            f.assign(index(u, const_int_typed_(Int::from(i), u32i())), cint(if i == 1 { v } else { x }, t));
        }
        let d = live(f, ty_of(t));
        f.assign(d, cint(y, t));
        // integers may be aligned to less than their size
        let n = t.size.bytes();
        let big = live(f, array_ty(ty_of(t), 1));
        let _ = (big, n);
        emit(f, op, t, addr(index(u, const_int_typed_(Int::ONE, u32i()))), x, y, d);
        f.print(load(d));
        for i in 0..3u64 {
            f.print(load(index(u, const_int_typed_(Int::from(i), u32i()))));
        }
    });
    let r = run_t::<T>(p);
    let n = t.size;
    if n > T::MAX_ATOMIC_SIZE {
        r.must_ub("too large for an atomic access");
        return;
    }
    if T::INT_MAX_ALIGN.bytes() < n.bytes() {
        if r.end.is_ub() {
            return;
        }
    }
    r.must_exit("atomic operation");
    check(is_eq(r.int(0), if op == 1 { y } else { v }), "the previous value");
    check(is_eq(r.int(1), x), "the neighbour is unchanged");
    check(is_eq(r.int(3), x), "the neighbour is unchanged");
    check(is_eq(r.int(2), after(op, t, v, x, y)), "the new value");
}

fn types() -> Vec<(&'static str, Type)> {
    let u = |b: u64| ty_of(IntType { signed: Unsigned, size: size(b) });
    vec![
        ("bool", Type::Bool),
        ("i8", ty_of(IntType { signed: Signed, size: size(1) })),
        ("u32", u(4)),
        ("u64", u(8)),
        ("u128", u(16)),
        ("raw", raw()),
        ("slice", raw_ptr_ty(PointerMetaKind::ElementCount)),
        ("unit", <()>::get_type()),
        ("bytes1", array_ty(u(1), 1)),
        ("bytes3", array_ty(u(1), 3)),
        ("bytes4", array_ty(u(1), 4)),
        ("bytes6", array_ty(u(1), 6)),
        ("bytes8", array_ty(u(1), 8)),
        ("bytes16", array_ty(u(1), 16)),
        ("bools", array_ty(Type::Bool, 2)),
        ("pair", tuple_ty(&[(size(0), u(1)), (size(2), u(2))], size(4), align(2))),
        ("union", union_ty(&[(size(0), u(1)), (size(0), u(2))], size(2), align(2))),
    ]
}
/// Loading or storing other types.
fn type_case(k: usize, store: bool) {
    pin_addresses(|_, _| false);
    let (_, t) = types()[k].clone();
    let n = t.layout::<x86_64>().expect_size("sized").bytes().try_to_usize().unwrap() as u64;
    let bs: Vec<Int> = (0..16).map(|i| sym(&format!("b{i}"), 0, 255)).collect();
    // of a union or pair, only some bytes are copied
    let used: Vec<u64> = match types()[k].0 {
        "pair" => vec![0, 2, 3],
        _ => (0..n).collect(),
    };
    let p = prog1(|f| {
        let m = live(f, blob(16, 16));
        let v = live(f, t);
        for i in 0..16 {
            poke(f, addr(m), i, bs[i as usize]);
        }
        if store {
            for i in 0..n {
                poke(f, addr(v), i, if i < n { Int::from(1) } else { Int::ZERO });
            }
            f.atomic_store(addr(m), load(v));
            for i in 0..16 {
                if i >= n || used.contains(&i) {
                    peek(f, addr(m), i);
                }
            }
        } else {
            f.atomic_load(v, addr(m));
            for i in used.iter() {
                peek(f, addr(v), *i);
            }
        }
    });
    let r = run(p);
    let bad = !matches!(n, 1 | 2 | 4 | 8);
    let valid = match types()[k].0 {
        "bool" => is_le(bs[0], 1),
        "bools" => is_le(bs[0], 1) & is_le(bs[1], 1),
        _ => B::from(true),
    };
    let ub = B::from(bad) | if store { B::from(false) } else { !valid };
    if !r.ub_iff(ub, "atomic access at a type") {
        return;
    }
    let mut o = 0;
    for i in 0..16u64 {
        if store && (i >= n || used.contains(&i)) {
            check(is_eq(r.int(o), if i < n { Int::ONE } else { bs[i as usize] }), "bytes after the store");
            o += 1;
        }
        if !store && used.contains(&i) {
            check(is_eq(r.int(o), bs[i as usize]), "bytes loaded");
            o += 1;
        }
    }
}

/// Uninitialized memory.
fn uninit_case(op: usize, k: u64) {
    pin_addresses(|_, _| false);
    let t = u32i();
    let x = sym_of("x", t);
    let p = prog1(|f| {
        let m = live(f, blob(4, 4));
        for i in 0..4 {
            if i != k {
                poke(f, addr(m), i, byte_of(x, i));
            }
        }
        let d = live(f, ty_of(t));
        emit(f, op, t, addr(m), x, x, d);
        peek(f, addr(m), k);
        if op != 1 {
            f.print(load(d));
        }
    });
    let r = run(p);
    if op == 1 {
        r.must_exit("storing");
        check(is_eq(r.int(0), byte_of(x, k)), "byte stored");
    } else {
        r.must_ub("an uninitialized byte is read");
    }
}

/// A pointer keeps its provenance.
fn pointer_case(back: bool) {
    pin_addresses(|_, _| false);
    let x = sym_of("x", ity(Unsigned, 1));
    let p = prog1(|f| {
        let m = live(f, raw());
        let t = live(f, u8t());
        let q = live(f, raw());
        if back {
            f.assign(m, addr(t));
            f.atomic_load(q, addr(m));
        } else {
            f.atomic_store(addr(m), addr(t));
            f.assign(q, load(m));
        }
        poke(f, load(q), 0, x);
        f.print(load(t));
    });
    let r = run(p);
    r.must_exit("access through the copy");
    check(is_eq(r.int(0), x), "the same memory");
}

/// Number and types of arguments.
fn args_case(op: usize) {
    pin_addresses(|_, _| false);
    let want = [1, 2, 2, 2, 3][op];
    let count = choose("count", 5);
    let kinds: Vec<usize> = (0..count).map(|i| choose(&format!("arg{i}"), if i == 0 || i < want { 7 } else { 1 })).collect();
    let rt = choose("ret", 7);
    let tys = || {
        vec![
            ty_of(u32i()),
            ty_of(ity(Signed, 4)),
            ty_of(ity(Unsigned, 2)),
            Type::Bool,
            raw(),
            raw_ptr_ty(PointerMetaKind::ElementCount),
            <()>::get_type(),
        ]
    };
    let p = prog1(|f| {
        let m = live(f, blob(16, 16));
        for i in 0..16 {
            poke(f, addr(m), i, Int::ZERO);
        }
        let mut args = vec![];
        for k in kinds.iter() {
            let v = live(f, tys()[*k]);
            match k {
                0..=2 => f.assign(v, ValueExpr::Constant(Constant::Int(Int::ONE), tys()[*k])),
                3 => f.assign(v, const_bool(true)),
                4 => f.assign(v, addr(m)),
                5 => f.assign(v, construct_wide_pointer(addr(m), usize_c(1), tys()[5])),
                _ => {}
            }
            args.push(load(v));
        }
        let ret = live(f, tys()[rt]);
        f.intrinsic(intrinsic(op), &args, ret);
    });
    let r = run(p);
    let ptr = count == want && kinds[0] == 4;
    let ok = ptr
        && match op {
            // zeros are valid at all of them, but pairs and units have no atomic size
            0 => rt <= 4,
            1 => kinds[1] <= 4 && rt == 6,
            2 | 3 => kinds[1] == rt && rt <= 2,
            _ => kinds[1] == rt && kinds[2] == rt && rt <= 2,
        };
    if ok {
        r.must_exit("accepted");
    } else {
        r.must_ub("UB");
    }
}

const V: u64 = 0;
const TID: u64 = 16;
const TID2: u64 = 20;

pub fn cases(c: &mut Cases) {
    for (op, name) in OPS.iter().enumerate() {
        for t in all_ity() {
            c.add(format!("value {name} {}", ityname(t)), move || value_case::<x86_64>(op, t));
            if t.signed == Unsigned || op > 1 {
                c.add(format!("value {name} {} Be32", ityname(t)), move || value_case::<Be32>(op, t));
                c.add(format!("value {name} {} Le16", ityname(t)), move || value_case::<Le16>(op, t));
                c.add(format!("value {name} {} Be64", ityname(t)), move || value_case::<Be64>(op, t));
            }
        }
        for (which, sname) in SOURCES.iter().enumerate() {
            for b in [1u64, 2, 4] {
                let t = ity(if op == 2 { Signed } else { Unsigned }, b);
                let f = move || place_case::<BasicMem>(op, t, which);
                if b == 4 && op < 2 || which < 2 && b < 4 {
                    c.add(format!("place {name} {b} {sname}"), f);
                } else {
                    c.deep(format!("place {name} {b} {sname}"), f);
                }
            }
            c.deep(format!("place {name} 2 {sname} tb"), move || place_case::<TreeBorrowMem>(op, ity(Unsigned, 2), which));
        }
        for k in 0..4 {
            c.add(format!("uninit {name} {k}"), move || uninit_case(op, k));
        }
        c.add(format!("args {name}"), move || args_case(op));
    }
    for k in 0..types().len() {
        for store in [false, true] {
            c.add(format!("type {} {}", types()[k].0, if store { "store" } else { "load" }), move || type_case(k, store));
        }
    }
    for back in [false, true] {
        c.add(format!("pointer {back}"), move || pointer_case(back));
    }
    // Only adding and subtracting.
    {
        use IntBinOp::*;
        for op in [Add, AddUnchecked, Sub, SubUnchecked, Mul, MulUnchecked, Div, DivExact, Rem, Shl, ShlUnchecked, Shr, ShrUnchecked, BitAnd, BitOr, BitXor] {
            c.add(format!("fetch {op:?}"), move || {
                let t = u32i();
                let p = prog1(|f| {
                    let m = live(f, ty_of(t));
                    f.assign(m, cint(Int::ONE, t));
                    f.intrinsic(IntrinsicOp::AtomicFetchAndOp(op), &[addr(m), cint(Int::ONE, t)], m);
                });
                let r = run(p);
                if op == Add || op == Sub {
                    r.must_exit("supported");
                } else {
                    r.must_be("ill-formed", "not supported");
                }
            });
        }
    }
    schedules(c);
}

/// Under all schedules.
fn schedules(c: &mut Cases) {
    let join2 = || vec![Join(N::Var(TID)), Join(N::Var(TID2)), ALd(V, u32i()), PrintPriv, Exit];
    for b in [1u64, 4, 8] {
        for sg in [Signed, Unsigned] {
            let t = ity(sg, b);
            c.add(format!("counter {}", ityname(t)), move || {
                let (x, y) = (sym_of("x", t), sym_of("y", t));
                go(vec![
                    vec![Spawn(1, Int::ZERO, TID), AAdd(V, t, x, false), PrintPriv, Join(N::Var(TID)), Ld(V, t), PrintPriv, Exit],
                    vec![AAdd(V, t, y, true), PrintPriv, AAdd(V, t, x, false), Return],
                ]);
            });
            c.add(format!("exchange {}", ityname(t)), move || {
                let (x, y, v) = (sym_of("x", t), sym_of("y", t), sym_of("v", t));
                go(vec![
                    vec![Spawn(1, Int::ZERO, TID), ACas(V, t, v, x), PrintPriv, Join(N::Var(TID)), Ld(V, t), PrintPriv, Exit],
                    vec![ACas(V, t, Int::ZERO, y), PrintPriv, ACas(V, t, x, v), Return],
                ]);
            });
            c.add(format!("store and load {}", ityname(t)), move || {
                let (x, y) = (sym_of("x", t), sym_of("y", t));
                go(vec![
                    vec![Spawn(1, Int::ZERO, TID), ASt(V, t, x), ALd(V, t), PrintPriv, Exit],
                    vec![ASt(V, t, y), ALd(V, t), PrintPriv, Return],
                ]);
            });
            c.add(format!("two variables {}", ityname(t)), move || {
                let (x, y) = (sym_of("x", t), sym_of("y", t));
                go(vec![
                    vec![Spawn(1, Int::ZERO, TID), ASt(V, t, x), ALd(8, t), PrintPriv, Exit],
                    vec![ASt(8, t, y), ALd(V, t), PrintPriv, Return],
                ]);
            });
        }
    }
    c.add("three threads", move || {
        let t = u32i();
        let (x, y) = (sym_of("x", t), sym_of("y", t));
        let mut m = vec![Spawn(1, Int::ZERO, TID), Spawn(2, Int::ZERO, TID2)];
        m.extend(join2());
        go(vec![m, vec![AAdd(V, t, x, false), AAdd(V, t, y, true), Return], vec![ACas(V, t, x, y), AAdd(V, t, x, false), Return]]);
    });
    // A spin lock made of atomics protects a variable that is not accessed atomically.
    c.add("flag", move || {
        let t = u32i();
        let x = sym_of("x", t);
        go(vec![
            vec![Spawn(1, Int::ZERO, TID), St(4, t, x), ASt(V, t, Int::ONE), Join(N::Var(TID)), Exit],
            vec![ALd(V, t), PrintPriv, ALd(V, t), PrintPriv, Return],
        ]);
    });
    c.deep("three threads, all", move || {
        let t = u32i();
        let (x, y) = (sym_of("x", t), sym_of("y", t));
        let mut m = vec![Spawn(1, Int::ZERO, TID), Spawn(2, Int::ZERO, TID2), AAdd(V, t, x, false), PrintPriv];
        m.extend(join2());
        go(vec![m, vec![AAdd(V, t, y, true), PrintPriv, Return], vec![ACas(V, t, x, y), PrintPriv, Return]]);
    });
}
