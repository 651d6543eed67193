//! Comparisons and branches: for every pair of operands the relational operators are those of one
//! total order, and a branch goes where its value says.

use crate::build::*;
use crate::kit::*;
use crate::*;

const RELS: [RelOp; 7] = [RelOp::Lt, RelOp::Gt, RelOp::Le, RelOp::Ge, RelOp::Eq, RelOp::Ne, RelOp::Cmp];

/// What an operator has to say, given "less" and "equal".
fn check_rel(op: RelOp, r: &Run, i: usize, lt: B, eq: B) {
    let want = match op {
        RelOp::Lt => lt,
        RelOp::Gt => !(lt | eq),
        RelOp::Le => lt | eq,
        RelOp::Ge => !lt,
        RelOp::Eq => eq,
        RelOp::Ne => !eq,
        RelOp::Cmp => {
            let v = r.int(i);
            check(
                (lt & is_eq(v, -1)) | (eq & is_eq(v, 0)) | (!(lt | eq) & is_eq(v, 1)),
                "three-way comparison",
            );
            return;
        }
    };
    let got = r.bool(i);
    reach(if got { "true" } else { "false" });
    check(B::from(got).iff(want), "comparison");
}

fn rel_case(op: RelOp, operands: impl Fn(&mut FunctionBuilder) -> (ValueExpr, ValueExpr, B, B)) {
    let mut s = None;
    let r = run(prog1(|f| {
        let (x, y, lt, eq) = operands(f);
        f.print(relop(op, x, y));
        s = Some((lt, eq));
    }));
    r.must_exit("comparison never has UB");
    let (lt, eq) = s.unwrap();
    check_rel(op, &r, 0, lt, eq);
}

fn wide(a: Int, n: Int) -> ValueExpr {
    construct_wide_pointer(int2raw(a), usize_c(n), raw_ptr_ty(PointerMetaKind::ElementCount))
}

/// Two pointers into allocations (or the same one), with provenance.
fn provenance_case(op: RelOp, same: bool) {
    let off = sym_int("off", Signed, Size::from_bytes(8).unwrap());
    suppose(is_le(-1000, off) & is_le(off, 1000));
    let r = run(prog1(|f| {
        let a = live(f, array_ty(u8t(), 4));
        let b = if same { a } else { live(f, array_ty(u8t(), 4)) };
        let p = live(f, raw());
        let q = live(f, raw());
        f.assign(p, addr(a));
        f.assign(q, ptr_offset(addr(b), isize_c(off), InBounds::No));
        f.print(relop(op, load(p), load(q)));
        // the same addresses without provenance
        f.print(ptr_addr(load(p)));
        f.print(ptr_addr(load(q)));
        f.print(relop(RelOp::Eq, load(p), transmute(ptr_addr(load(p)), raw())));
    }));
    r.must_exit("pointer comparison never has UB");
    let (x, y) = (r.int(1), r.int(2));
    check_rel(op, &r, 0, is_lt(x, y), is_eq(x, y));
    check(r.bool(3), "provenance does not matter for comparisons");
}

fn fn_ptr_case(op: RelOp) {
    let mut p = ProgramBuilder::new();
    let g = {
        let mut b = p.declare_function();
        b.exit();
        p.finish_function(b)
    };
    let h = {
        let mut b = p.declare_function();
        b.exit();
        p.finish_function(b)
    };
    let main = main_fn(&mut p, |f| {
        f.print(relop(op, fn_ptr(g), fn_ptr(h)));
        f.print(ptr_addr(fn_ptr(g)));
        f.print(ptr_addr(fn_ptr(h)));
        f.print(relop(RelOp::Eq, fn_ptr(g), fn_ptr(g)));
    });
    let r = run(p.finish_program(main));
    r.must_exit("function pointer comparison never has UB");
    let (x, y) = (r.int(1), r.int(2));
    check_rel(op, &r, 0, is_lt(x, y), is_eq(x, y));
    check(is_ne(x, y) & is_ne(x, 0) & is_ne(y, 0), "functions have distinct non-null addresses");
    check(r.bool(3), "a function pointer equals itself");
}

fn vtable_case(op: RelOp) {
    let a = sym_int("a", Unsigned, Size::from_bytes(8).unwrap());
    let b = sym_int("b", Unsigned, Size::from_bytes(8).unwrap());
    let mut p = ProgramBuilder::new();
    let t = p.declare_trait();
    let t = p.finish_trait(t);
    let v1 = p.declare_vtable(t, size(1), align(1), list![]);
    let v1 = p.finish_vtable(v1);
    let v2 = p.declare_vtable(t, size(8), align(8), list![]);
    let v2 = p.finish_vtable(v2);
    let main = main_fn(&mut p, |f| {
        let wide = raw_ptr_ty(PointerMetaKind::VTablePointer(t));
        let x = construct_wide_pointer(int2raw(a), const_vtable(v1, t), wide);
        let y = construct_wide_pointer(int2raw(b), const_vtable(v2, t), wide);
        f.print(relop(op, x, y));
        f.print(ptr_addr(const_vtable(v1, t)));
        f.print(ptr_addr(const_vtable(v2, t)));
        f.print(relop(op, const_vtable(v1, t), const_vtable(v2, t)));
    });
    let r = run(p.finish_program(main));
    r.must_exit("comparison never has UB");
    let (x, y) = (r.int(1), r.int(2));
    check(is_ne(x, y), "vtables have distinct addresses");
    check_rel(op, &r, 0, is_lt(a, b) | (is_eq(a, b) & is_lt(x, y)), is_eq(a, b) & is_eq(x, y));
    check_rel(op, &r, 3, is_lt(x, y), is_eq(x, y));
}

/// A switch over symbolic case values.
fn switch_case(t: IntType, n: usize, mem: bool) {
    let x = sym_of("x", t);
    let mut cases: Vec<Int> = vec![];
    for i in 0..n {
        let c = sym_of(&format!("case{i}"), t);
        for d in &cases {
            suppose(is_ne(*d, c));
        }
        cases.push(c);
    }
    let r = run(prog1(|f| {
        let v = if mem {
            let l = live(f, ty_of(t));
            f.assign(l, cint(x, t));
            load(l)
        } else {
            cint(x, t)
        };
        let arms: Vec<Box<dyn Fn(&mut FunctionBuilder)>> =
            (0..n).map(|i| Box::new(move |f: &mut FunctionBuilder| f.print(cint(Int::from(i), t))) as Box<_>).collect();
        let arms: Vec<(Int, &dyn Fn(&mut FunctionBuilder))> =
            cases.iter().zip(arms.iter()).map(|(c, a)| (*c, &**a)).collect();
        f.switch_int(v, &arms, |f| f.print(cint(Int::from(100), t)));
    }));
    r.must_exit("switch");
    check(r.out.len() == 1, "exactly one branch is taken");
    let got = r.int(0);
    let mut want = Int::from(100);
    for (i, c) in cases.iter().enumerate() {
        want = ite(is_eq(x, *c), i, want);
    }
    reach(if is_eq(got, 100).decide() { "fallback" } else { "arm" });
    check(is_eq(got, want), "the branch taken");
}

fn bool_case(op: RelOp) {
    let (a, b) = (sym_bool("a"), sym_bool("b"));
    rel_case(op, |_| (bconst(a), bconst(b), !a & b, a.iff(b)));
}
/// A constant can not be symbolic if it is a `bool`.
fn bconst(b: B) -> ValueExpr {
    const_bool(b.decide())
}

fn bitop_case() {
    let (a, b, c) = (sym_bool("a").decide(), sym_bool("b").decide(), sym_bool("c").decide());
    let t = ity(Unsigned, 1);
    let r = run(prog1(|f| {
        f.print(bool_and(const_bool(a), const_bool(b)));
        f.print(bool_or(const_bool(a), const_bool(b)));
        f.print(bool_xor(const_bool(a), const_bool(b)));
        f.print(not(const_bool(a)));
        f.print(bool_to_int::<u8>(const_bool(a)));
        f.if_(
            bool_and(bool_or(const_bool(a), const_bool(b)), const_bool(c)),
            |f| f.print(cint(Int::from(1), t)),
            |f| f.print(cint(Int::from(2), t)),
        );
    }));
    r.must_exit("bool operators");
    check(r.bool(0) == (a & b) && r.bool(1) == (a | b) && r.bool(2) == (a ^ b) && r.bool(3) == !a, "bool operators");
    check(is_eq(r.int(4), a as u8), "bool to int");
    check(is_eq(r.int(5), if (a | b) & c { 1 } else { 2 }), "branch");
}

pub fn cases(c: &mut Cases) {
    let tys = if c.thorough { all_ity() } else { vec![ity(Unsigned, 1), ity(Signed, 2), ity(Unsigned, 8), ity(Signed, 16)] };
    for op in RELS {
        for &t in &tys {
            c.add(format!("{op:?} {}", ityname(t)), move || {
                let (a, b) = (sym_of("a", t), sym_of("b", t));
                rel_case(op, |_| (cint(a, t), cint(b, t), is_lt(a, b), is_eq(a, b)))
            });
            c.add(format!("{op:?} {} in memory", ityname(t)), move || {
                let (a, b) = (sym_of("a", t), sym_of("b", t));
                rel_case(op, |f| {
                    let (x, y) = (live(f, ty_of(t)), live(f, ty_of(t)));
                    f.assign(x, cint(a, t));
                    f.assign(y, cint(b, t));
                    (load(x), load(y), is_lt(a, b), is_eq(a, b))
                })
            });
        }
        c.add(format!("{op:?} bool"), move || bool_case(op));
        c.add(format!("{op:?} thin pointers"), move || {
            let (a, b) = (sym_of("a", usz()), sym_of("b", usz()));
            rel_case(op, |_| (int2raw(a), int2raw(b), is_lt(a, b), is_eq(a, b)))
        });
        c.add(format!("{op:?} slice pointers"), move || {
            let (a, b) = (sym_of("a", usz()), sym_of("b", usz()));
            let (m, n) = (sym_of("m", usz()), sym_of("n", usz()));
            rel_case(op, |_| {
                let eq = is_eq(a, b);
                (wide(a, m), wide(b, n), is_lt(a, b) | (eq & is_lt(m, n)), eq & is_eq(m, n))
            })
        });
        c.add(format!("{op:?} into one allocation"), move || provenance_case(op, true));
        c.add(format!("{op:?} into two allocations"), move || provenance_case(op, false));
        c.add(format!("{op:?} function pointers"), move || fn_ptr_case(op));
        c.add(format!("{op:?} trait object pointers"), move || vtable_case(op));
    }
    for &t in &tys {
        for n in 0..=(if c.thorough { 5 } else { 3 }) {
            for mem in [false, true] {
                c.add(format!("switch {} {n}{}", ityname(t), if mem { " in memory" } else { "" }), move || {
                    switch_case(t, n, mem)
                });
            }
        }
    }
    c.add("bool operators", bitop_case);
}
