//! Integer operators: for every pair of operands, the exact result, or UB exactly when specified.

use crate::build::*;
use crate::kit::*;
use crate::*;

type Ex = ValueExpr;

fn binop(op: IntBinOp, l: Ex, r: Ex) -> Ex {
    ValueExpr::BinOp { operator: BinOp::Int(op), left: GcCow::new(l), right: GcCow::new(r) }
}
fn ovop(op: IntBinOpWithOverflow, l: Ex, r: Ex) -> Ex {
    ValueExpr::BinOp { operator: BinOp::IntWithOverflow(op), left: GcCow::new(l), right: GcCow::new(r) }
}
fn unop(op: UnOp, x: Ex) -> Ex {
    ValueExpr::UnOp { operator: op, operand: GcCow::new(x) }
}

/// An integer operand: given as a constant, or read from memory.
fn operand(f: &mut FunctionBuilder, x: Int, t: IntType, mem: bool) -> Ex {
    if !mem {
        return cint(x, t);
    }
    let l = f.declare_local_with_ty(ty_of(t));
    f.storage_live(l);
    f.assign(l, cint(x, t));
    load(l)
}

/// i-th bit of the two's complement representation.
fn bit(x: Int, i: u32) -> Int {
    let p = pow2(Int::from(i));
    let y = x.rem_euclid_(p * 2);
    ite(is_lt(y, p), 0, 1)
}

/// (UB?, the mathematical result before wrapping)
pub fn spec_bin(op: IntBinOp, t: IntType, a: Int, b: Int) -> (B, Int) {
    use IntBinOp::*;
    let no = B::from(false);
    let bits = t.size.bits();
    // Division truncates towards zero: defined by the absolute values.
    let div = |a: Int, b: Int| {
        if bits > 16 {
            // Too hard for the solver if stated differently from the code: rely on `Int`'s own
            // (truncating) division.
            if is_eq(b, 0).decide() {
                return (Int::ZERO, Int::ZERO);
            }
            return (a / b, a % b);
        }
        let (na, nb) = (is_lt(a, 0), is_lt(b, 0));
        let (aa, ab) = (ite(na, -a, a), ite(nb, -b, ite(is_eq(b, 0), 1, b)));
        let q = aa / ab;
        (ite(na.iff(nb), q, -q), ite(na, -(aa % ab), aa % ab))
    };
    let div_ub = is_eq(b, 0) | (is_eq(a, imin(t)) & is_eq(b, -1) & is_lt(imin(t), 0));
    let shift = |n: Int, left: bool| {
        if bits > 32 {
            return if left { a << n } else { a >> n };
        }
        // By all possible amounts.
        let mut r = Int::ZERO;
        for i in 0..bits.try_to_usize().unwrap() {
            let p = pow2(Int::from(i));
            let v = if left {
                a * p
            } else {
                // floor division
                (a - a.rem_euclid_(p)) / p
            };
            r = ite(is_eq(n, i), v, r);
        }
        r
    };
    match op {
        Add => (no, a + b),
        AddUnchecked => (!fits(a + b, t), a + b),
        Sub => (no, a - b),
        SubUnchecked => (!fits(a - b, t), a - b),
        Mul => (no, a * b),
        MulUnchecked => (!fits(a * b, t), a * b),
        Div => (div_ub, div(a, b).0),
        DivExact => (div_ub | is_ne(div(a, b).1, 0), div(a, b).0),
        Rem => (div_ub, div(a, b).1),
        Shl => (no, shift(b.rem_euclid_(bits), true)),
        Shr => (no, shift(b.rem_euclid_(bits), false)),
        ShlUnchecked => (is_lt(b, 0) | is_le(bits, b), shift(b.rem_euclid_(bits), true)),
        ShrUnchecked => (is_lt(b, 0) | is_le(bits, b), shift(b.rem_euclid_(bits), false)),
        BitAnd | BitOr | BitXor => {
            let mut r = Int::ZERO;
            for i in 0..bits.try_to_usize().unwrap() as u32 {
                let (x, y) = (bit(a, i), bit(b, i));
                let z = match op {
                    BitAnd => ite(is_eq(x, 1) & is_eq(y, 1), 1, 0),
                    BitOr => ite(is_eq(x, 0) & is_eq(y, 0), 0, 1),
                    _ => ite(is_eq(x, y), 0, 1),
                };
                r = r + z * pow2(Int::from(i));
            }
            (no, r)
        }
    }
}

const BINOPS: [(IntBinOp, &str); 16] = {
    use IntBinOp::*;
    [
        (Add, "add"),
        (AddUnchecked, "add_unchecked"),
        (Sub, "sub"),
        (SubUnchecked, "sub_unchecked"),
        (Mul, "mul"),
        (MulUnchecked, "mul_unchecked"),
        (Div, "div"),
        (DivExact, "div_exact"),
        (Rem, "rem"),
        (Shl, "shl"),
        (ShlUnchecked, "shl_unchecked"),
        (Shr, "shr"),
        (ShrUnchecked, "shr_unchecked"),
        (BitAnd, "and"),
        (BitOr, "or"),
        (BitXor, "xor"),
    ]
};

fn bin_case(op: IntBinOp, t: IntType, rt: IntType, mem: bool) {
    let a = sym_of("a", t);
    let b = sym_of("b", rt);
    let r = run(prog1(|f| {
        let x = operand(f, a, t, mem);
        let y = operand(f, b, rt, mem);
        f.print(binop(op, x, y));
    }));
    let (ub, res) = spec_bin(op, t, a, b);
    if r.ub_iff(ub, "operator") {
        check(is_eq(r.int(0), wrap(res, t)), "operator result");
    }
}

fn un_case(op: IntUnOp, t: IntType) {
    let a = sym_of("a", t);
    let r = run(prog1(|f| {
        let x = operand(f, a, t, false);
        f.print(unop(UnOp::Int(op), x));
    }));
    r.must_exit("unary operator never has UB");
    let want = match op {
        IntUnOp::Neg => wrap(-a, t),
        IntUnOp::BitNot => wrap(-a - 1, t),
        IntUnOp::CountOnes => {
            let mut n = Int::ZERO;
            for i in 0..t.size.bits().try_to_usize().unwrap() as u32 {
                n = n + if t.size.bits() > 32 { (a >> Int::from(i)) & Int::ONE } else { bit(a, i) };
            }
            n
        }
    };
    check(is_eq(r.int(0), want), "unary operator result");
}

fn overflow_case(op: IntBinOpWithOverflow, t: IntType) {
    let a = sym_of("a", t);
    let b = sym_of("b", t);
    let r = run(prog1(|f| {
        let x = operand(f, a, t, false);
        let y = operand(f, b, t, false);
        // the type of the result: (int, bool)
        let al = t.align::<x86_64>();
        let pair = tuple_ty(
            &[(Size::ZERO, ty_of(t)), (t.size, bool_ty())],
            Size::from_bytes(((t.size.bytes() + al.bytes()) / al.bytes()) * al.bytes()).unwrap(),
            al,
        );
        let l = f.declare_local_with_ty(pair);
        f.storage_live(l);
        f.assign(l, ovop(op, x, y));
        f.print(load(field(l, 0)));
        f.print(load(field(l, 1)));
    }));
    r.must_exit("operator with overflow flag never has UB");
    let res = match op {
        IntBinOpWithOverflow::Add => a + b,
        IntBinOpWithOverflow::Sub => a - b,
        IntBinOpWithOverflow::Mul => a * b,
    };
    check(is_eq(r.int(0), wrap(res, t)), "wrapped result");
    let o = r.bool(1);
    reach(if o { "overflow" } else { "no overflow" });
    check(B::from(o).iff(!fits(res, t)), "overflow flag");
}

fn cast_case(from: IntType, to: IntType) {
    let a = sym_of("a", from);
    let r = run(prog1(|f| {
        let x = operand(f, a, from, false);
        f.print(unop(UnOp::Cast(CastOp::IntToInt(to)), x));
    }));
    r.must_exit("integer cast never has UB");
    check(is_eq(r.int(0), wrap(a, to)), "cast result");
}

pub fn cases(c: &mut Cases) {
    let all = all_ity();
    let few = [ity(Unsigned, 1), ity(Signed, 1), ity(Signed, 4), ity(Unsigned, 8), ity(Signed, 16)];
    let tys: Vec<IntType> = if c.thorough { all.clone() } else { few.to_vec() };
    for &t in &tys {
        for (op, n) in BINOPS {
            use IntBinOp::*;
            // nonlinear ones: the solver decides wide operands only in the trivial cases
            let rts: Vec<IntType> = match op {
                Shl | ShlUnchecked | Shr | ShrUnchecked =>
                    if c.thorough { all.clone() } else { vec![ity(Unsigned, 4), ity(Signed, 1)] },
                _ => vec![t],
            };
            for rt in rts {
                c.add(format!("{n} {} {}", ityname(t), ityname(rt)), move || bin_case(op, t, rt, false));
            }
        }
        for op in [IntUnOp::Neg, IntUnOp::BitNot, IntUnOp::CountOnes] {
            c.add(format!("{op:?} {}", ityname(t)), move || un_case(op, t));
        }
        for op in [IntBinOpWithOverflow::Add, IntBinOpWithOverflow::Sub, IntBinOpWithOverflow::Mul] {
            c.add(format!("overflowing {op:?} {}", ityname(t)), move || overflow_case(op, t))
                .expect(&["overflow", "no overflow"]);
        }
    }
    for &from in &all {
        for &to in &all {
            c.add(format!("cast {} to {}", ityname(from), ityname(to)), move || cast_case(from, to));
        }
    }
}
