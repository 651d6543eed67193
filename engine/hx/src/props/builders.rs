//! Programs put together with every function miniutil's builder has, for all values of their constants.

use super::ints::spec_bin;
use crate::build::*;
use crate::kit::*;
use crate::*;

type Ex = ValueExpr;

fn u(n: u64) -> IntType {
    ity(Unsigned, n)
}
fn i(n: u64) -> IntType {
    ity(Signed, n)
}

/// A truth value that takes both values.
fn boolean(name: &str) -> bool {
    let b = is_eq(sym_of(name, u(1)) % 2, 1).decide();
    reach(&format!("{name} {b}"));
    b
}

// ---------------------------------------------------------------- C01

fn bin(name: &str, op: IntBinOp, f: fn(Ex, Ex) -> Ex, t: IntType) {
    let (a, b) = (sym_of("a", t), sym_of("b", t));
    let r = run(prog1(|m| m.print(f(cint(a, t), cint(b, t)))));
    let (ub, want) = spec_bin(op, t, a, b);
    if r.ub_iff(ub, name) {
        check(is_eq(r.int(0), wrap(want, t)), name)
    }
}

fn overflow(f: fn(Ex, Ex) -> Ex, want: fn(Int, Int) -> Int, t: IntType) {
    let (a, b) = (sym_of("a", t), sym_of("b", t));
    let n = t.size;
    let r = run(prog1(|m| {
        let pair = tuple_ty(&[(Size::ZERO, ty_of(t)), (n, bool_ty())], n + n, align(n.bytes()));
        let l = live(m, pair);
        m.assign(l, f(cint(a, t), cint(b, t)));
        m.print(load(field(l, 0)));
        m.print(load(field(l, 1)));
    }));
    r.must_exit("no UB");
    check(is_eq(r.int(0), wrap(want(a, b), t)), "wrapped result");
    check(B::from(r.bool(1)).iff(!fits(want(a, b), t)), "overflow flag");
}

fn cast<T: TypeConv>(from: IntType, to: IntType) {
    let a = sym_of("a", from);
    let r = run(prog1(|m| m.print(int_cast::<T>(cint(a, from)))));
    r.must_exit("no UB");
    check(is_eq(r.int(0), wrap(a, to)), "cast");
}

/// A constant is accepted exactly if it is one of its type.
fn constant<T: TypeConv>(t: IntType) {
    let a = sym_of("a", i(16)) * 3;
    let r = run(prog1(|m| m.print(const_int_typed::<T>(a))));
    match r.end.kind() {
        "ill-formed" => check(!fits(a, t), "only constants that do not fit are ill-formed"),
        "exit" => {
            check(fits(a, t), "constants that do not fit are ill-formed");
            check(is_eq(r.int(0), a), "constant")
        }
        _ => fail("constant", &r.end.text()),
    }
    reach(r.end.kind());
}

macro_rules! each_int {
    ($m:ident) => {
        $m!(u8, u(1)); $m!(u16, u(2)); $m!(u32, u(4)); $m!(u64, u(8)); $m!(u128, u(16)); $m!(usize, u(8));
        $m!(i8, i(1)); $m!(i16, i(2)); $m!(i32, i(4)); $m!(i64, i(8)); $m!(i128, i(16)); $m!(isize, i(8));
    };
}

pub fn ints(c: &mut Cases) {
    use IntBinOp::*;
    let ops: [(&str, IntBinOp, fn(Ex, Ex) -> Ex); 16] = [
        ("add", Add, add),
        ("add_unchecked", AddUnchecked, add_unchecked),
        ("sub", Sub, sub),
        ("sub_unchecked", SubUnchecked, sub_unchecked),
        ("mul", Mul, mul),
        ("mul_unchecked", MulUnchecked, mul_unchecked),
        ("div", Div, div),
        ("div_exact", DivExact, div_exact),
        ("rem", Rem, rem),
        ("shl", Shl, shl),
        ("shl_unchecked", ShlUnchecked, shl_unchecked),
        ("shr", Shr, shr),
        ("shr_unchecked", ShrUnchecked, shr_unchecked),
        ("bit_and", BitAnd, bit_and),
        ("bit_or", BitOr, bit_or),
        ("bit_xor", BitXor, bit_xor),
    ];
    for (n, op, f) in ops {
        let t = if matches!(op, Div | DivExact | Rem) { i(1) } else { i(2) };
        c.add(format!("built {n}"), move || bin(n, op, f, t));
    }
    c.add("built overflow_add", || overflow(overflow_add, |a, b| a + b, i(2)));
    c.add("built overflow_sub", || overflow(overflow_sub, |a, b| a - b, u(2)));
    c.add("built overflow_mul", || overflow(overflow_mul, |a, b| a * b, i(1)));
    c.add("built unary", || {
        let a = sym_of("a", i(2));
        let r = run(prog1(|m| {
            m.print(neg(cint(a, i(2))));
            m.print(bit_not(cint(a, i(2))));
            m.print(count_ones(cint(a, i(2))));
            m.print(transmute(cint(a, i(2)), int_ty(Unsigned, size(2))));
        }));
        r.must_exit("no UB");
        check(is_eq(r.int(0), wrap(-a, i(2))), "neg");
        check(is_eq(r.int(1), -a - 1), "bit_not");
        let n = (0..16).fold(Int::ZERO, |n, k| n + bit_of(a, k));
        check(is_eq(r.int(2), n), "count_ones");
        check(is_eq(r.int(3), wrap(a, u(2))), "int_ty");
    });
    macro_rules! one {
        ($t:ty, $i:expr) => {
            c.add(concat!("built constant ", stringify!($t)), || constant::<$t>($i)).expect(&["ill-formed", "exit"]);
            c.add(concat!("built cast to ", stringify!($t)), || {
                cast::<$t>(i(4), $i);
                cast::<$t>(u(8), $i);
            });
        };
    }
    each_int!(one);
}

// ---------------------------------------------------------------- C02

pub fn compare(c: &mut Cases) {
    let ops: [(&str, fn(Ex, Ex) -> Ex, fn(Int, Int) -> B); 6] = [
        ("eq", eq, |a, b| is_eq(a, b)),
        ("ne", ne, |a, b| is_ne(a, b)),
        ("lt", lt, |a, b| is_lt(a, b)),
        ("le", le, |a, b| is_le(a, b)),
        ("gt", gt, |a, b| is_lt(b, a)),
        ("ge", ge, |a, b| is_le(b, a)),
    ];
    for (n, f, want) in ops {
        c.add(format!("built {n}"), move || {
            let (a, b) = (sym_of("a", i(8)), sym_of("b", i(8)));
            let r = run(prog1(|m| m.print(f(cint(a, i(8)), cint(b, i(8))))));
            r.must_exit("no UB");
            check(B::from(r.bool(0)).iff(want(a, b)), n);
            reach(if r.bool(0) { "true" } else { "false" });
        })
        .expect(&["true", "false"]);
    }
    c.add("built cmp", || {
        let (a, b) = (sym_of("a", u(4)), sym_of("b", u(4)));
        let r = run(prog1(|m| m.print(cmp(cint(a, u(4)), cint(b, u(4))))));
        r.must_exit("no UB");
        check(is_eq(r.int(0), ite(is_lt(a, b), -1, ite(is_eq(a, b), 0, 1))), "cmp");
    });
    c.add("built boolean operators", || {
        let (a, b) = (sym_of("a", u(1)), sym_of("b", u(1)));
        let r = run(prog1(|m| {
            let x = || transmute(cint(a, u(1)), bool_ty());
            let y = || transmute(cint(b, u(1)), bool_ty());
            for e in [bool_and(x(), y()), bool_or(x(), y()), bool_xor(x(), y()), not(x()), const_bool(true), const_bool(false)] {
                m.print(e)
            }
            m.print(bool_to_int::<u8>(x()));
            m.print(bool_to_int::<i64>(y()));
        }));
        if !r.ub_iff(is_lt(1, a) | is_lt(1, b), "a boolean is 0 or 1") {
            return;
        }
        let (x, y) = (is_eq(a, 1), is_eq(b, 1));
        for (k, want) in [x & y, x | y, (x & !y) | (!x & y), !x, true.into(), false.into()].into_iter().enumerate() {
            check(B::from(r.bool(k)).iff(want), "boolean operator")
        }
        check(is_eq(r.int(6), a) & is_eq(r.int(7), b), "boolean as integer");
    })
    .expect(&["ub", "exit"]);
    c.add("built if_", || {
        let (a, b) = (sym_of("a", i(4)), sym_of("b", i(4)));
        let r = run(prog1(|m| {
            m.if_(
                lt(cint(a, i(4)), cint(b, i(4))),
                |m| {
                    m.print(const_int(1u8));
                    // nested, one branch ends the program
                    m.if_(eq(cint(a, i(4)), const_int(-5i32)), |m| m.exit(), |m| m.print(const_int(2u8)));
                    m.print(const_int(3u8));
                },
                |m| {
                    m.print(const_int(4u8));
                    m.if_(eq(cint(a, i(4)), cint(b, i(4))), |m| m.print(const_int(5u8)), |m| m.abort());
                },
            );
            m.print(const_int(6u8));
        }));
        let l = is_lt(a, b);
        let want: (&str, &[i64]) = if l.decide() {
            if is_eq(a, -5).decide() { ("exit", &[1]) } else { ("exit", &[1, 2, 3, 6]) }
        } else if is_eq(a, b).decide() {
            ("exit", &[4, 5, 6])
        } else {
            ("abort", &[4])
        };
        expect_out(&r, want.0, want.1);
        reach(&format!("{want:?}"));
    })
    .expect(&["(\"exit\", [1])", "(\"exit\", [1, 2, 3, 6])", "(\"exit\", [4, 5, 6])", "(\"abort\", [4])"]);
    c.add("built switch_int", || {
        let a = sym_of("a", i(1));
        let r = run(prog1(|m| {
            m.switch_int(
                cint(a, i(1)),
                &[(3i8, &|m: &mut FunctionBuilder| m.print(const_int(1u8))), (-7i8, &|m: &mut FunctionBuilder| m.exit()), (127i8, &|m: &mut FunctionBuilder| {
                    m.switch_int(const_int(2u16), &[(2u16, &|m: &mut FunctionBuilder| m.print(const_int(2u8)))], |m| m.unreachable())
                })],
                |m| m.print(const_int(3u8)),
            );
            m.print(const_int(4u8));
        }));
        for (v, want) in [(3, &[1, 4][..]), (-7, &[]), (127, &[2, 4])] {
            if is_eq(a, v).decide() {
                reach(&format!("{v}"));
                return expect_out(&r, "exit", want);
            }
        }
        reach("else");
        expect_out(&r, "exit", &[3, 4]);
    })
    .expect(&["3", "-7", "127", "else"]);
    c.add("built while_", || {
        let a = sym_of("a", u(1));
        suppose(is_le(a, 4));
        let stop = sym_of("stop", u(1));
        let r = run(prog1(|m| {
            let n = live(m, ty_of(u(1)));
            m.assign(n, const_int(0u8));
            m.while_(lt(load(n), cint(a, u(1))), |m| {
                m.print(load(n));
                m.if_(eq(load(n), cint(stop, u(1))), |m| m.exit(), |_| {});
                m.assign(n, add(load(n), const_int(1u8)));
            });
            m.print(const_int(100u8));
        }));
        let mut want = vec![];
        for k in 0..5 {
            if !is_lt(k, a).decide() {
                want.push(100);
                break;
            }
            want.push(k);
            if is_eq(k, stop).decide() {
                break;
            }
        }
        expect_out(&r, "exit", &want);
    });
    c.add("blocks by number", || {
        let (a, b) = (sym_of("a", i(2)), sym_of("b", u(8)));
        let p = || cint(b, u(8));
        let bbs = [
            block!(storage_live(0), assign(local(0), cint(a, i(2))), goto(1)),
            block!(if_(lt(load(local(0)), const_int(0i16)), 2, 3)),
            block!(print(const_int(1u8), 4)),
            block!(switch_int(p(), &[(5u64, 5), (1u64 << 40, 2)], 6)),
            block(&[storage_dead(0)], exit(), BbKind::Regular),
            block!(abort()),
            block!(unreachable()),
        ];
        let r = run(program(&[function(Ret::No, 0, &[<i16>::get_type()], &bbs)]));
        if is_lt(a, 0).decide() {
            expect_out(&r, "exit", &[1]);
        } else if is_eq(b, 5).decide() {
            expect_out(&r, "abort", &[]);
        } else if is_eq(b, pow2(Int::from(40))).decide() {
            expect_out(&r, "exit", &[1]);
        } else {
            expect_out(&r, "ub", &[]);
        }
        reach(r.end.kind());
    })
    .expect(&["exit", "abort", "ub"]);
}

/// The run ended this way and printed these numbers.
#[track_caller]
fn expect_out(r: &Run, end: &str, want: &[i64]) {
    r.must_be(end, "the end");
    check(r.out.len() == want.len(), "number of outputs");
    for (k, w) in want.iter().enumerate() {
        check(is_eq(r.int(k), *w), "output");
    }
}
#[track_caller]
fn prints(r: &Run, want: &[Int]) {
    check(r.out.len() == want.len(), "number of outputs");
    for (k, w) in want.iter().enumerate() {
        check(is_eq(r.int(k), *w), "output");
    }
}

// ---------------------------------------------------------------- C03, C07, C08

pub fn layouts(c: &mut Cases) {
    macro_rules! one {
        ($t:ty, $i:expr) => {
            c.add(concat!("built type ", stringify!($t)), || {
                let a = sym_of("a", $i);
                let n = $i.size.bytes().try_to_usize().unwrap() as u64;
                let r = run(prog1(|m| {
                    let l = m.declare_local::<[$t; 3]>();
                    m.storage_live(l);
                    let p = live(m, raw());
                    m.assign(p, addr(l));
                    m.assign(index(l, const_int(1usize)), cint(a, $i));
                    for k in 0..n {
                        peek(m, load(p), n + k);
                    }
                    m.print(compute_size(<$t>::get_type(), unit()));
                    m.print(compute_align(<$t>::get_type(), unit()));
                    m.print(compute_size(<[$t; 3]>::get_type(), unit()));
                    m.print(compute_align(<[$t; 3]>::get_type(), unit()));
                }));
                r.must_exit("no UB");
                let mut want: Vec<Int> = (0..n).map(|k| byte_of(a, k)).collect();
                want.extend([n, n, 3 * n, n].map(Int::from));
                prints(&r, &want);
                check(<$t>::get_size() == size(n) && <$t>::get_align() == align(n), "layout");
            });
        };
    }
    each_int!(one);
    c.add("built aggregates", || {
        let (a, b, d) = (sym_of("a", u(4)), sym_of("b", u(1)), sym_of("d", i(2)));
        let r = run(prog1(|m| {
            let t = tuple_ty(&[(size(0), <u32>::get_type()), (size(4), <u8>::get_type())], size(8), align(4));
            let x = live(m, array_ty(t, 2));
            let p = live(m, raw());
            m.assign(p, addr(x));
            m.assign(x, array(&[tuple(&[const_int(1u32), const_int(2u8)], t), tuple(&[cint(a, u(4)), cint(b, u(1))], t)], t));
            m.print(load(at(load(p), 8, <u32>::get_type())));
            m.print(load(at(load(p), 12, <u8>::get_type())));
            m.print(load(field(index(x, const_int(0usize)), 1)));
            let un = live(m, union_ty(&[(size(0), <u32>::get_type()), (size(2), <i16>::get_type())], size(4), align(4)));
            m.assign(field(un, 0), cint(a, u(4)));
            m.assign(field(un, 1), cint(d, i(2)));
            m.print(load(field(un, 0)));
            m.print(ptr_addr(ptr_to_ptr(addr_of(x, <*const u32>::get_type()), <*mut u8>::get_type())));
            m.print(ptr_addr(load(p)));
            m.print(ptr_addr(null()));
            m.print(ptr_addr(unit_ptr()));
        }));
        r.must_exit("no UB");
        let low = a.rem_euclid_(pow2(Int::from(16)));
        let high = wrap(d, u(2));
        let same = r.int(4);
        prints(&r, &[a, b, Int::from(2), low + high * pow2(Int::from(16)), same, same, Int::ZERO, Int::ONE]);
    });
    c.add("built slice types", || {
        let (n, k) = (sym_of("n", u(8)), sym_of("k", u(8)));
        let r = run(prog1(|m| {
            let x = m.declare_local::<[u32; 4]>();
            m.storage_live(x);
            for j in 0..4u32 {
                m.assign(index(x, const_int(j as usize)), const_int(10 + j));
            }
            let s = m.declare_local::<&[u32]>();
            m.storage_live(s);
            m.assign(s, construct_wide_pointer(addr(x), cint(n, u(8)), <&[u32]>::get_type()));
            m.print(get_metadata(load(s)));
            m.print(eq(get_thin_pointer(load(s)), addr(x)));
            m.print(compute_size(<[u32]>::get_type(), get_metadata(load(s))));
            m.print(compute_align(<[u32]>::get_type(), get_metadata(load(s))));
            m.print(load(index(deref(load(s), <[u32]>::get_type()), cint(k, u(8)))));
        }));
        if r.ub_iff(is_lt(4, n) | is_le(n, k), "slice") {
            check(r.bool(1), "thin pointer");
            check(is_eq(r.int(0), n) & is_eq(r.int(2), n * 4) & is_eq(r.int(3), 4) & is_eq(r.int(4), k + 10), "slice");
        }
    })
    .expect(&["ub", "exit"]);
}

// ---------------------------------------------------------------- C06

pub fn pointers(c: &mut Cases) {
    for (n, f, inb) in [
        ("ptr_offset_from", ptr_offset_from as fn(Ex, Ex, InBounds) -> Ex, true),
        ("ptr_offset_from anywhere", ptr_offset_from, false),
        ("ptr_offset_from_nonneg", ptr_offset_from_nonneg, true),
        ("ptr_offset_from_nonneg anywhere", ptr_offset_from_nonneg, false),
    ] {
        c.add(format!("built {n}"), move || {
            let (a, b) = (sym_of("a", i(8)), sym_of("b", i(8)));
            suppose(is_le(-100, a) & is_le(a, 100) & is_le(-100, b) & is_le(b, 100));
            let r = run(prog1(|m| {
                let x = live(m, array_ty(u8t(), 6));
                m.print(ptr_addr(addr(x)));
                let o = |k| ptr_offset(addr(x), cint(k, i(8)), InBounds::No);
                m.print(f(o(a), o(b), if inb { InBounds::Yes } else { InBounds::No }));
            }));
            // far from the ends of the address space
            let base = match r.out.first() {
                Some(_) => r.int(0),
                None => return fail("prints the address", &r.end.text()),
            };
            suppose(is_lt(1000, base) & is_lt(base, pow2(Int::from(60))));
            let inside = |k: Int| is_le(0, k) & is_le(k, 6);
            let same = is_eq(a, b);
            let ok = if inb { same | (inside(a) & inside(b)) } else { true.into() };
            let nonneg = if n.contains("nonneg") { is_le(b, a) } else { true.into() };
            if r.ub_iff(!(ok & nonneg), n) {
                check(is_eq(r.int(1), a - b), "distance");
            }
        })
        .expect(if n == "ptr_offset_from anywhere" { &["exit"] } else { &["ub", "exit"] });
    }
    c.add("built ptr_offset", || {
        let a = sym_of("a", i(8));
        suppose(is_le(-100, a) & is_le(a, 100));
        let r = run(prog1(|m| {
            let x = live(m, array_ty(u8t(), 6));
            m.print(sub(ptr_addr(ptr_offset(addr(x), cint(a, i(8)), InBounds::No)), ptr_addr(addr(x))));
            m.print(sub(ptr_addr(ptr_offset(addr(x), cint(a, i(8)), InBounds::Yes)), ptr_addr(addr(x))));
        }));
        if r.ub_iff(is_lt(a, 0) | is_lt(6, a), "ptr_offset") {
            check(is_eq(r.int(0), a) & is_eq(r.int(1), a), "offset");
        }
    })
    .expect(&["ub", "exit"]);
}

// ---------------------------------------------------------------- C09

pub fn references(c: &mut Cases) {
    let u32t = || <u32>::get_type();
    for (n, t) in [
        ("&u32", (|| <&u32>::get_type()) as fn() -> Type),
        ("&mut u32", || <&mut u32>::get_type()),
        ("ref_ty", || ref_ty_default_markers_for(<u32>::get_type())),
        ("ref_mut_ty", || ref_mut_ty_default_markers_for(<u32>::get_type())),
        ("box_ty", || {
            let layout = <u32>::get_layout();
            box_ty(PointeeInfo { layout, inhabited: true, unsafe_cells: from_frozen_layout(layout), freeze: true, unpin: true })
        }),
        ("*const u32", || <*const u32>::get_type()),
        ("*mut u32", || <*mut u32>::get_type()),
    ] {
        c.add(format!("built {n}"), move || {
            let k = sym_of("k", i(8));
            suppose(is_le(-9, k) & is_le(k, 9));
            let mut o = None;
            let r = run(prog1(|m| {
                let x = live(m, array_ty(u32t(), 2));
                m.assign(index(x, const_int(0usize)), const_int(7u32));
                m.assign(index(x, const_int(1usize)), const_int(9u32));
                m.print(ptr_addr(addr(x)));
                let p = live(m, t());
                m.assign(p, transmute(ptr_offset(addr(x), cint(k, i(8)), InBounds::No), t()));
                m.print(const_int(1u8));
                m.print(load(deref(load(p), u32t())));
                o = Some(());
            }));
            let fine = is_eq(k, 0) | is_eq(k, 4);
            let valid = if n.starts_with('*') { B::from(true) } else { fine };
            match r.end.kind() {
                "exit" => {
                    check(fine, "valid reference");
                    check(is_eq(r.int(2), ite(is_eq(k, 0), 7, 9)), "what it points to");
                }
                "ub" => {
                    check(!fine, "UB only if not valid");
                    check(B::from(r.out.len() == 2).iff(valid), "where it is UB");
                }
                _ => fail("UB or regular end", &r.end.text()),
            }
            reach(r.end.kind());
        })
        .expect(&["exit", "ub"]);
    }
}

// ---------------------------------------------------------------- C15, C17

pub fn calls(c: &mut Cases) {
    c.add("built calls", || {
        pin_addresses(|_, _| false);
        let (a, b) = (sym_of("a", i(4)), sym_of("b", i(4)));
        let mut p = ProgramBuilder::new();
        // returns a - b
        let minus = {
            let mut f = p.declare_function();
            let x = f.declare_arg::<i32>();
            let ret = f.declare_ret::<i32>();
            let y = f.declare_arg_with_ty(<i32>::get_type());
            f.assign(ret, sub(load(x), load(y)));
            f.return_();
            p.finish_function(f)
        };
        let nothing = {
            let mut f = p.declare_function();
            let x = f.declare_arg::<i32>();
            f.print(load(x));
            f.return_();
            p.finish_function(f)
        };
        let cfn = {
            let mut f = p.declare_function();
            f.set_conv(CallingConvention::C);
            let ret = f.declare_ret::<i32>();
            let x = f.declare_arg::<i32>();
            f.assign(ret, mul(load(x), const_int(2i32)));
            f.return_();
            p.finish_function(f)
        };
        let last = {
            let mut f = p.declare_function();
            let x = f.declare_arg::<i32>();
            f.print(load(x));
            f.exit();
            p.finish_function(f)
        };
        let main = {
            let mut f = p.declare_function();
            let r = f.declare_local::<i32>();
            f.storage_live(r);
            f.call_nounwind(r, fn_ptr(minus), &[by_value(cint(a, i(4))), by_value(cint(b, i(4)))]);
            f.print(load(r));
            let q = live(&mut f, <i32>::get_type());
            f.assign(q, cint(b, i(4)));
            let clean = f.cleanup_block(|f| f.resume_unwind());
            let w = live(&mut f, <i32>::get_type());
            f.call(w, fn_ptr(minus), &[in_place(q), by_value(load(r))], clean);
            f.print(load(w));
            f.call_ignoreret(fn_ptr(nothing), &[by_value(cint(b, i(4)))]);
            f.call_with_conv(r, fn_ptr(cfn), &[by_value(cint(a, i(4)))], CallingConvention::C, clean);
            f.call_noret(unit_place(), fn_ptr(last), &[in_place(r)]);
            p.finish_function(f)
        };
        let r = run(p.finish_program(main));
        r.must_exit("calls");
        let m = wrap(a - b, i(4));
        prints(&r, &[m, wrap(b - m, i(4)), b, wrap(a * 2, i(4))]);
    });
    c.add("functions by number", || {
        pin_addresses(|_, _| false);
        let (a, b) = (sym_of("a", i(4)), sym_of("b", i(8)));
        let (ti, tl) = (<i32>::get_type(), <i64>::get_type());
        let main = function(Ret::No, 0, &[tl], &[
            block!(storage_live(0), call(1, &[by_value(cint(a, i(4))), by_value(cint(b, i(8)))], local(0), Some(1))),
            block!(print(load(local(0)), 2)),
            block!(call(2, &[by_value(cint(b, i(8)))], unit_place(), Some(3))),
            block!(exit()),
        ]);
        // _0: the result, _1, _2: the arguments
        let f = function(Ret::Yes, 2, &[tl, ti, tl], &[
            block!(assign(local(0), load(local(2))), print(load(local(1)), 1)),
            block!(return_()),
        ]);
        let g = function(Ret::No, 1, &[tl], &[block!(print(load(local(0)), 1)), block!(return_())]);
        let r = run(program(&[main, f, g]));
        r.must_exit("calls");
        prints(&r, &[a, b, b]);
    });
    c.add("small programs", || {
        let a = sym_of("a", u(1));
        let r = run(small_program(&[<u8>::get_type(), bool_ty()], &[
            storage_live(0),
            storage_live(1),
            assign(local(0), cint(a, u(1))),
            assign(local(1), transmute(load(local(0)), bool_ty())),
            place_mention(local(1)),
            validate(local(1), false),
            storage_dead(1),
            storage_dead(0),
        ]));
        r.ub_iff(is_lt(1, a), "small program");
    })
    .expect(&["ub", "exit"]);
    c.add("nothing to call", || {
        let k = sym_of("k", u(4));
        suppose(is_le(k, 3));
        let k = concrete_mod(k, Int::from(4)).try_to_usize().unwrap();
        let main = function(Ret::No, 0, &[], &[block!(call(k as u32, &[], unit_place(), Some(1))), block!(exit())]);
        let f = function(Ret::No, 0, &[], &[block!(return_())]);
        let g = function(Ret::No, 0, &[], &[block!(abort())]);
        if k == 0 {
            return;
        }
        let r = run(program(&[main, f, g]));
        r.must_be(["", "exit", "abort", "ill-formed"][k as usize], "function by number");
    });
}

pub fn unwinding(c: &mut Cases) {
    // main catches (or not), the middle frame cleans up (or not), the last one panics (or not)
    c.add("built unwinding", || {
        pin_addresses(|_, _| false);
        let (panics, cleans, catches) = (boolean("panics"), boolean("cleans"), boolean("catches"));
        let v = sym_of("v", u(8));
        let mut p = ProgramBuilder::new();
        let inner = {
            let mut f = p.declare_function();
            let clean = f.cleanup_block(|f| {
                f.print(const_int(1u8));
                f.resume_unwind();
            });
            f.if_(const_bool(panics), |f| f.start_unwind(int2raw(v), clean), |_| {});
            f.print(const_int(2u8));
            f.return_();
            p.finish_function(f)
        };
        let middle = {
            let mut f = p.declare_function();
            if cleans {
                let clean = f.cleanup_block(|f| {
                    f.print(const_int(3u8));
                    f.resume_unwind();
                });
                f.call(unit_place(), fn_ptr(inner), &[], clean);
            } else {
                f.call_ignoreret(fn_ptr(inner), &[]);
            }
            f.print(const_int(4u8));
            f.return_();
            p.finish_function(f)
        };
        let main = {
            let mut f = p.declare_function();
            let got = f.declare_local::<*const ()>();
            f.storage_live(got);
            let after = f.declare_block();
            if catches {
                let catch = f.catch_block(|f| {
                    f.get_unwind_payload(got);
                    f.print(ptr_addr(load(got)));
                    f.stop_unwind(after);
                });
                f.call(unit_place(), fn_ptr(middle), &[], catch);
            } else {
                let t = f.cleanup_block(|f| {
                    let term = f.terminating_block(|f| f.abort());
                    f.call(unit_place(), fn_ptr(middle), &[], term);
                    f.print(const_int(5u8));
                    f.abort();
                });
                f.call(unit_place(), fn_ptr(middle), &[], t);
            }
            f.print(const_int(6u8));
            f.goto(after);
            f.set_cur_block(after, BbKind::Regular);
            f.print(const_int(7u8));
            f.exit();
            p.finish_function(f)
        };
        let r = run(p.finish_program(main));
        let n = |x: u64| Int::from(x);
        let (end, want): (&str, Vec<Int>) = match (panics, cleans, catches) {
            (false, ..) => ("exit", vec![n(2), n(4), n(6), n(7)]),
            (true, false, _) => ("ub", vec![n(1)]),
            (true, true, true) => ("exit", vec![n(1), n(3), v, n(7)]),
            // the second call, in the cleanup, unwinds into the terminating block
            (true, true, false) => ("abort", vec![n(1), n(3), n(1), n(3)]),
        };
        r.must_be(end, "the end");
        prints(&r, &want);
        reach(end);
    })
    .expect(&["exit", "ub", "abort"]);
}

// ---------------------------------------------------------------- C16

fn an_enum() -> Type {
    let tag = |x: i64| [(size(1), (u(1), Int::from(x)))];
    let data = tuple_ty(&[(size(0), <u8>::get_type())], size(2), align(1));
    let empty = tuple_ty(&[], size(2), align(1));
    let disc = discriminator_branch::<u8>(size(1), discriminator_invalid(), &[
        ((3, 4), discriminator_known(-2)),
        ((7, 10), discriminator_branch::<u8>(size(1), discriminator_known(100), &[((9, 10), discriminator_invalid())])),
    ]);
    enum_ty::<i8>(&[(-2, enum_variant(data, &tag(3))), (100, enum_variant(empty, &tag(7)))], disc, size(2), align(1))
}

pub fn enums(c: &mut Cases) {
    c.add("built enum from bytes", || {
        let (d, t) = (sym_of("d", u(1)), sym_of("t", u(1)));
        let r = run(prog1(|m| {
            let x = live(m, an_enum());
            let p = live(m, raw());
            m.assign(p, addr(x));
            poke(m, load(p), 0, d);
            poke(m, load(p), 1, t);
            m.print(get_discriminant(x));
            m.print(load(field(downcast(x, -2), 0)));
        }));
        let (one, two) = (is_eq(t, 3), is_eq(t, 7) | is_eq(t, 8));
        if r.ub_iff(!(one | two), "discriminant") {
            prints(&r, &[ite(one, -2, 100), d]);
        }
    })
    .expect(&["ub", "exit"]);
    c.add("built variants", || {
        let (d, second, set) = (sym_of("d", u(1)), boolean("second"), boolean("set"));
        let r = run(prog1(|m| {
            let x = live(m, an_enum());
            let y = live(m, an_enum());
            let data = tuple_ty(&[(size(0), <u8>::get_type())], size(2), align(1));
            let empty = tuple_ty(&[], size(2), align(1));
            let p = live(m, raw());
            m.assign(p, addr(y));
            m.assign(x, variant(-2, tuple(&[cint(d, u(1))], data), an_enum()));
            if second {
                m.assign(x, variant(100, tuple(&[], empty), an_enum()));
            }
            m.assign(y, load(x));
            if set {
                m.set_discriminant(y, if second { -2 } else { 100 });
            }
            m.print(get_discriminant(y));
            peek(m, load(p), 1);
            peek(m, load(p), 0);
        }));
        let first = second == set;
        let tag = [Int::from(if first { -2 } else { 100 }), Int::from(if first { 3 } else { 7 })];
        if second {
            // the data is not initialized
            r.must_ub("data of the other variant");
            prints(&r, &tag);
        } else {
            r.must_exit("variant");
            prints(&r, &[tag[0], tag[1], d]);
        }
    });
}

// ---------------------------------------------------------------- C19

pub fn globals(c: &mut Cases) {
    c.add("built globals", || {
        let a = sym_of("a", u(4));
        let mut p = ProgramBuilder::new();
        let (x, y) = (p.declare_global_zero_initialized::<u32>(), p.declare_global_zero_initialized::<[u64; 2]>());
        let other = {
            let mut f = p.declare_function();
            f.print(load(x));
            f.print(load(index(y, const_int(1usize))));
            f.assign(x, add(load(x), const_int(1u32)));
            f.return_();
            p.finish_function(f)
        };
        let main = main_fn(&mut p, |f| {
            f.print(load(x));
            f.print(load(index(y, const_int(0usize))));
            f.assign(x, cint(a, u(4)));
            f.assign(index(y, const_int(1usize)), const_int(5u64));
            f.call_ignoreret(fn_ptr(other), &[]);
            f.eprint(load(x));
            f.print(load(index(y, const_int(0usize))));
        });
        let r = run(p.finish_program(main));
        r.must_exit("globals");
        prints(&r, &[Int::ZERO, Int::ZERO, a, Int::from(5), Int::ZERO]);
        check(matches!(r.err.first(), Some(Out::Int(_))) && r.err.len() == 1, "error output");
        if let Some(Out::Int(e)) = r.err.first() {
            check(is_eq(*e, wrap(a + 1, u(4))), "error output");
        }
    });
    c.add("globals by number", || {
        let a = sym_of("a", i(8));
        let main = function(Ret::No, 0, &[], &[
            block!(assign(global::<i64>(0), cint(a, i(8))), print(load(global::<u8>(1)), 1)),
            block!(assign(global::<*const i64>(2), addr_of(global::<i64>(0), <*const i64>::get_type())), print(load(deref(load(global::<*const i64>(2)), <i64>::get_type())), 2)),
            block!(exit()),
        ]);
        let r = run(program_with_globals(&[main], &[global_int::<i64>(), global_int::<u8>(), global_ptr::<i64>()]));
        r.must_exit("globals");
        prints(&r, &[Int::ZERO, a]);
    });
    c.add("built intrinsics", || {
        let (a, b) = (sym_of("a", u(2)), sym_of("b", u(2)));
        let r = run(prog1(|m| {
            let (x, y) = (live(m, <u16>::get_type()), live(m, <u16>::get_type()));
            m.assign(x, cint(a, u(2)));
            m.assign(y, cint(b, u(2)));
            let e = live(m, bool_ty());
            let t = || <&u16>::get_type();
            m.raw_eq(e, addr_of(x, t()), addr_of(y, t()));
            m.print(load(e));
            m.assume(le(load(x), load(y)));
            m.print(const_int(1u8));
        }));
        check(B::from(r.bool(0)).iff(is_eq(a, b)), "raw_eq");
        r.ub_iff(is_lt(b, a), "assume");
    })
    .expect(&["ub", "exit"]);
    c.add("built vtables", || {
        pin_addresses(|_, _| false);
        let (second, a) = (boolean("second"), sym_of("a", u(4)));
        let mut p = ProgramBuilder::new();
        let mut t = p.declare_trait();
        let (m1, m2) = (t.declare_method(), t.declare_method());
        let t = p.finish_trait(t);
        let method = |p: &mut ProgramBuilder, k: u32| {
            let mut f = p.declare_function();
            let this = f.declare_arg::<*const u32>();
            f.print(add(load(deref(load(this), <u32>::get_type())), const_int(k)));
            f.return_();
            p.finish_function(f)
        };
        let fs: Vec<FnName> = (1..5).map(|k| method(&mut p, k)).collect();
        let mut v = p.declare_vtable_for_frozen_ty(t, <u32>::get_type());
        v.add_method(m1, fs[0]);
        v.add_method(m2, fs[1]);
        let v = p.finish_vtable(v);
        let mut w = p.declare_vtable(t, size(12), align(2), list![]);
        w.add_method(m2, fs[3]);
        w.add_method(m1, fs[2]);
        let w = p.finish_vtable(w);
        let main = main_fn(&mut p, |f| {
            let x = live(f, <u32>::get_type());
            f.assign(x, cint(a, u(4)));
            let vt = || const_vtable(if second { w } else { v }, t);
            for m in [m1, m2] {
                f.call_ignoreret(vtable_method_lookup(vt(), m), &[by_value(addr(x))]);
            }
            f.print(compute_size(trait_object_ty(t), vt()));
            f.print(compute_align(trait_object_ty(t), vt()));
        });
        let r = run(p.finish_program(main));
        r.must_exit("vtables");
        let k = if second { 2 } else { 0 };
        let (n, al) = if second { (12, 2) } else { (4, 4) };
        prints(&r, &[wrap(a + 1 + k, u(4)), wrap(a + 2 + k, u(4)), Int::from(n), Int::from(al)]);
    });
}

/// A thread and the main thread change a global under a lock.
pub fn parallel(c: &mut Cases) {
    c.add("threads by number", || {
        pin_addresses(|_, _| false);
        let (a, b) = (sym_of("a", u(8)), sym_of("b", u(8)));
        let t = || <u32>::get_type();
        let g = || global::<u32>(0);
        let n = || global::<u64>(1);
        let arg = || local(0);
        let main = function(Ret::No, 0, &[t()], &[
            block!(storage_live(0), lock_create(g(), 1)),
            block!(assign(n(), cint(b, u(8))), spawn(fn_ptr_internal(1), int2raw(a), local(0), 2)),
            block!(lock_acquire(load(g()), 3)),
            block!(assign(n(), sub(load(n()), const_int(7u64))), lock_release(load(g()), 4)),
            block!(join(load(local(0)), 5)),
            block!(print(load(n()), 6)),
            block!(exit()),
        ]);
        let th = function(Ret::No, 1, &[<*const ()>::get_type()], &[
            block!(lock_acquire(load(g()), 1)),
            block!(assign(n(), add(load(n()), transmute(load(arg()), <u64>::get_type()))), lock_release(load(g()), 2)),
            block!(return_()),
        ]);
        let r = run(program_with_globals(&[main, th], &[global_int::<u32>(), global_int::<u64>()]));
        r.must_exit("threads");
        prints(&r, &[wrap(a + b - Int::from(7), u(8))]);
    });
    c.add("locks by number", || {
        let k = choose("kind", 4);
        let g = || global::<u32>(0);
        let end = block!(exit());
        let blocks = match k {
            0 => vec![block!(lock_create(g(), 1)), block!(lock_release(load(g()), 2)), end],
            1 => vec![block!(lock_acquire(const_int(3u32), 1)), end],
            2 => vec![block!(lock_create(g(), 1)), block!(lock_acquire(load(g()), 2)), block!(lock_release(load(g()), 3)), block!(lock_acquire(load(g()), 4)), end],
            _ => vec![block!(join(const_int(5u32), 1)), end],
        };
        let r = run(program_with_globals(&[function(Ret::No, 0, &[], &blocks)], &[global_int::<u32>()]));
        r.must_be(if k == 2 { "exit" } else { "ub" }, "locks");
    });
}

pub fn atomics(c: &mut Cases) {
    c.add("atomics by number", || {
        pin_addresses(|_, _| false);
        let (a, b, x) = (sym_of("a", u(2)), sym_of("b", u(2)), sym_of("x", u(2)));
        // wrapping around is a known finding, see atomics.rs
        suppose(is_le(x, a + b) & is_lt(a + b, 1 << 16));
        let t = || <u16>::get_type();
        let g = || addr_of(global::<u16>(0), <*const u16>::get_type());
        let v = |k: Int| cint(k, u(2));
        let main = function(Ret::No, 0, &[t()], &[
            block!(storage_live(0), atomic_store(g(), v(a), 1)),
            block!(atomic_fetch(FetchBinOp::Add, local(0), g(), v(b), 2)),
            block!(print(load(local(0)), 3)),
            block!(atomic_load(local(0), g(), 4)),
            block!(print(load(local(0)), 5)),
            block!(atomic_fetch(FetchBinOp::Sub, local(0), g(), v(x), 6)),
            block!(print(load(local(0)), 7)),
            block!(compare_exchange(local(0), g(), v(b), v(x), 8)),
            block!(print(load(local(0)), 9)),
            block!(print(load(global::<u16>(0)), 10)),
            block!(exit()),
        ]);
        let r = run(program_with_globals(&[main], &[global_int::<u16>()]));
        r.must_exit("atomics");
        let s = wrap(a + b, u(2));
        let d = wrap(s - x, u(2));
        prints(&r, &[a, s, s, d, ite(is_eq(d, b), x, d)]);
    });
    c.add("built fetches", || {
        let (a, b) = (sym_of("a", i(4)), sym_of("b", i(4)));
        suppose(fits(a - b, i(4)) & is_ne(a - b, i32::MAX));
        let r = run(prog1(|m| {
            let (x, y) = (live(m, <i32>::get_type()), live(m, <i32>::get_type()));
            m.assign(x, cint(a, i(4)));
            let p = || addr_of(x, <*const i32>::get_type());
            m.atomic_fetch(FetchBinOp::Sub, y, p(), cint(b, i(4)));
            m.print(load(y));
            m.atomic_fetch(FetchBinOp::Add, y, p(), const_int(1i32));
            m.print(load(y));
            m.print(load(x));
        }));
        r.must_exit("fetches");
        let d = wrap(a - b, i(4));
        prints(&r, &[a, d, wrap(d + Int::ONE, i(4))]);
    });
}

pub fn heap(c: &mut Cases) {
    c.add("heap by number", || {
        pin_addresses(|_, _| false);
        let (n, x) = (sym("n", 1, 9), sym_of("x", u(1)));
        let p = || <*mut u8>::get_type();
        let at = || deref(load(local(0)), <u8>::get_type());
        let main = function(Ret::No, 0, &[p()], &[
            block!(storage_live(0), allocate(const_int(4usize), const_int(2usize), local(0), 1)),
            block!(assign(at(), cint(x, u(1))), print(load(at()), 2)),
            block!(deallocate(load(local(0)), cint(n, usz()), const_int(2usize), 3)),
            block!(exit()),
        ]);
        let r = run(program(&[main]));
        prints(&r, &[x]);
        r.ub_iff(is_ne(n, 4), "deallocate");
    })
    .expect(&["ub", "exit"]);
    c.add("other intrinsics by number", || {
        pin_addresses(|_, _| false);
        let (a, b) = (sym_of("a", u(4)), sym_of("b", u(4)));
        let ptr = |n: u32| addr_of(local(n), <&u32>::get_type());
        let main = function(Ret::No, 0, &[<u32>::get_type(), <u32>::get_type(), bool_ty(), <usize>::get_type()], &[
            block!(storage_live(0), storage_live(1), storage_live(2), storage_live(3), assign(local(0), cint(a, u(4))), assign(local(1), cint(b, u(4))), raw_eq(local(2), ptr(0), ptr(1), 1)),
            block!(eprint(load(local(2)), 2)),
            block!(expose_provenance(local(3), addr_of(local(0), <*const u32>::get_type()), 3)),
            block!(print(eq(load(local(3)), ptr_addr(addr_of(local(0), <*const u32>::get_type()))), 4)),
            block!(assume(lt(load(local(0)), load(local(1))), 5)),
            block!(exit()),
        ]);
        let r = run(program(&[main]));
        check(matches!(r.err.first(), Some(Out::Bool(_))), "error output");
        if let Some(Out::Bool(e)) = r.err.first() {
            check(B::from(*e).iff(is_eq(a, b)), "raw_eq");
        }
        check(B::from(r.bool(0)), "the exposed address");
        r.ub_iff(is_le(b, a), "assume");
    })
    .expect(&["ub", "exit"]);
}
