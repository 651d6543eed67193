//! Operators.
use crate::kit::*;
use crate::rust::*;
use crate::*;

fn t(name: &str) -> IntType {
    int_type(name)
}
/// For division: the solver is fast up to these.
pub const SMALL: &[&str] = &["i8", "u8", "i16", "u16"];
pub const ALL: &[&str] = &["i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "i128", "u128", "isize", "usize"];

fn bits(n: &str) -> Int {
    t(n).size.bits()
}

/// Integer operators.
pub fn ints(c: &mut Cases) {
    let deep = c.thorough;
    for &n in ALL {
        let ty = t(n);
        c.rust(
            &format!("wrapping {n}"),
            &[("a", n), ("b", n)],
            "fn main() { let (a, b) = (a!(), b!()); print(a.wrapping_add(b)); print(a.wrapping_sub(b)); print(a.wrapping_neg()); print(!a); }",
            move |r| {
                let (a, b) = (r.v[0], r.v[1]);
                r.prints(&[wrap(a + b, ty), wrap(a - b, ty), wrap(-a, ty), wrap(int(-1) - a, ty)])
            },
        );
        for (nm, op) in [("add", "+"), ("sub", "-")] {
            c.rust(
                &format!("checked {nm} {n}"),
                &[("a", n), ("b", n)],
                &format!("fn main() {{ let (a, b) = (a!(), b!()); print(1); print(a {op} b); }}"),
                move |r| {
                    let x = if nm == "add" { r.v[0] + r.v[1] } else { r.v[0] - r.v[1] };
                    r.ends_iff("abort", !fits(x, ty), &[int(1)], &[x])
                },
            );
        }
        c.rust(
            &format!("overflowing {n}"),
            &[("a", n), ("b", n)],
            "fn main() { let (a, b) = (a!(), b!()); let (x, o) = a.overflowing_add(b); print(x); print(o); let (x, o) = a.overflowing_sub(b); print(x); print(o); }",
            move |r| {
                let (a, b) = (r.v[0], r.v[1]);
                r.prints(&[wrap(a + b, ty), b2i(!fits(a + b, ty)), wrap(a - b, ty), b2i(!fits(a - b, ty))])
            },
        );
        // unchecked, without the library's own checks
        for (nm, op) in [("add", "unchecked_add"), ("sub", "unchecked_sub")] {
            c.rust_full(
                &format!("unchecked {nm} {n}"),
                "-Zub-checks=no",
                &[("a", n), ("b", n)],
                &format!("fn main() {{ let (a, b) = (a!(), b!()); print(unsafe {{ a.{op}(b) }}); }}"),
                false,
                move |r| {
                    let x = if nm == "add" { r.v[0] + r.v[1] } else { r.v[0] - r.v[1] };
                    r.ends_iff("ub", !fits(x, ty), &[], &[x])
                },
            );
        }
        if ty.signed == Signed {
            c.rust(&format!("neg {n}"), &[("a", n)], "fn main() { print(-a!()); }", move |r| {
                r.ends_iff("abort", is_eq(r.v[0], imin(ty)), &[], &[-r.v[0]])
            });
        }
        if bits(n) <= 32 {
            c.rust(
                &format!("mul {n}"),
                &[("a", n), ("b", n)],
                "fn main() { let (a, b) = (a!(), b!()); print(a.wrapping_mul(b)); let (_, o) = a.overflowing_mul(b); print(o); print(a * b); }",
                move |r| {
                    let x = r.v[0] * r.v[1];
                    r.ends_iff("abort", !fits(x, ty), &[wrap(x, ty), b2i(!fits(x, ty))], &[x])
                },
            );
        }
        c.rust(&format!("mul const {n}"), &[("a", n)], "fn main() { print(a!().wrapping_mul(100)); print(a!() * 3); }", move |r| {
            let x = r.v[0] * 3;
            r.ends_iff("abort", !fits(x, ty), &[wrap(r.v[0] * 100, ty)], &[x])
        });
        c.rust(
            &format!("divide by const {n}"),
            &[("a", n)],
            "fn main() { let a = a!(); print(a / 7); print(a % 7); print(a / 16); print(a % 100); }",
            move |r| {
                let a = r.v[0];
                // truncating
                let q = |d: i128| {
                    let x = ite(is_lt(a, 0), -a, a);
                    let k = x / int(d);
                    let m = x - k * int(d);
                    (ite(is_lt(a, 0), -k, k), ite(is_lt(a, 0), -m, m))
                };
                r.prints(&[q(7).0, q(7).1, q(16).0, q(100).1])
            },
        );
        c.rust_with(
            &format!("shifts {n}"),
            Opts::pre(move |v| {
                let (s, bt) = (v[1], bits(n));
                if bt > int(32) && !deep {
                    suppose(is_lt(s, 3) | (is_le(bt - 2, s) & is_lt(s, bt + 3)) | is_eq(s, 33) | is_eq(s, pow2(int(31)) + 5));
                }
            }),
            &[("a", n), ("s", "u32")],
            "fn main() { let (a, s) = (a!(), s!()); print(a.wrapping_shl(s)); print(a.wrapping_shr(s)); print(a << s); print(a >> s); }",
            move |r| {
                let bt = bits(n);
                let s = concrete_mod(r.v[1], bt);
                let m = wrap(r.v[0] * pow2(s), ty);
                let p = pow2(s);
                let d = (r.v[0] - r.v[0].rem_euclid_(p)) / p;
                r.ends_iff("abort", !is_lt(r.v[1], bt), &[m, d], &[m, d])
            },
        );
        c.rust(
            &format!("bits {n}"),
            &[("a", n), ("b", n)],
            "fn main() { let (a, b) = (a!(), b!()); print((a & b).wrapping_add(a | b)); print((a ^ b).wrapping_add((a & b) << 1)); print(a & 1); print(a | 1); print(a ^ 1); print((a & b).wrapping_sub(a & b)); print(a & !a); print(a | !a); print(a ^ a); }",
            move |r| {
                let (a, b) = (r.v[0], r.v[1]);
                let odd = a.rem_euclid_(int(2));
                // x + y = (x & y) + (x | y) = (x ^ y) + 2 (x & y)
                r.prints(&[wrap(a + b, ty), wrap(a + b, ty), odd, a + 1 - odd, a + 1 - odd - odd, int(0), int(0), wrap(int(-1), ty), int(0)])
            },
        );
    }
    for &n in &["u8", "i8", "u16", "i16", "u32", "i32", "u64", "i64", "usize"] {
        let ty = t(n);
        let zeros = bits(n) <= int(8);
        if bits(n) > int(16) && !deep {
            continue;
        }
        c.rust(&format!("count ones {n}"), &[("a", n)], if zeros { "fn main() { print(a!().count_ones()); print(a!().count_zeros()); }" } else { "fn main() { print(a!().count_ones()); }" }, move |r| {
            let mut k = int(0);
            let u = r.v[0].rem_euclid_(pow2(ty.size.bits()));
            let nb = ty.size.bits().try_to_usize().unwrap();
            for i in 0..nb {
                k = k + bit_of(u, i as u32);
            }
            if zeros { r.prints(&[k, Int::from(nb as u64) - k]) } else { r.prints(&[k]) }
        });
    }
    for &n in SMALL {
        let ty = t(n);
        if bits(n) > int(8) && !deep {
            continue;
        }
        c.rust(
            &format!("div {n}"),
            &[("a", n), ("b", n)],
            "fn main() { print(a!() / b!()); }",
            move |r| {
                let (a, b) = (r.v[0], r.v[1]);
                let bad = is_eq(b, 0) | (is_eq(a, imin(ty)) & is_eq(b, -1) & is_lt(imin(ty), 0));
                if r.end.kind() == "exit" {
                    check(!bad, "aborts if specified");
                    check(is_eq(r.val(0), a / b), "the quotient");
                } else {
                    r.ends("abort", &[]);
                    check(bad, "aborts only if specified");
                }
            },
        );
        c.rust(
            &format!("rem {n}"),
            &[("a", n), ("b", n)],
            "fn main() { print(a!() % b!()); }",
            move |r| {
                let (a, b) = (r.v[0], r.v[1]);
                let bad = is_eq(b, 0) | (is_eq(a, imin(ty)) & is_eq(b, -1) & is_lt(imin(ty), 0));
                if r.end.kind() == "exit" {
                    check(!bad, "aborts if specified");
                    check(is_eq(r.val(0), a % b), "the remainder");
                } else {
                    r.ends("abort", &[]);
                    check(bad, "aborts only if specified");
                }
            },
        );
    }
    // the intrinsics have UB where the checked operators panic
    c.rust_full("unchecked div", "-Zub-checks=no", &[("a", "i8"), ("b", "i8")], "fn main() { print(unsafe { std::intrinsics::unchecked_div(a!(), b!()) }); }", false, |r| {
        let (a, b) = (r.v[0], r.v[1]);
        let bad = is_eq(b, 0) | (is_eq(a, -128) & is_eq(b, -1));
        let q = if r.end.kind() == "exit" { a / b } else { int(0) };
        r.ends_iff("ub", bad, &[], &[q])
    });
    c.rust_full("unchecked rem", "-Zub-checks=no", &[("a", "i8"), ("b", "i8")], "fn main() { print(unsafe { std::intrinsics::unchecked_rem(a!(), b!()) }); }", false, |r| {
        let (a, b) = (r.v[0], r.v[1]);
        let bad = is_eq(b, 0) | (is_eq(a, -128) & is_eq(b, -1));
        let q = if r.end.kind() == "exit" { a % b } else { int(0) };
        r.ends_iff("ub", bad, &[], &[q])
    });
    c.rust_full("exact div", "-Zub-checks=no", &[("a", "u8"), ("b", "u8")], "fn main() { print(unsafe { std::intrinsics::exact_div(a!(), b!()) }); }", false, |r| {
        let (a, b) = (r.v[0], r.v[1]);
        if r.end.kind() == "exit" {
            check(!is_eq(b, 0), "UB for zero");
            check(is_eq(r.val(0) * b, a), "exact");
        } else {
            r.ub();
            let z = is_eq(b, 0);
            let b1 = ite(z, 1, b);
            check(z | !is_eq(a % b1, 0), "UB only if specified");
        }
    });
    for &n in &["i32", "u64", "i8"] {
        let ty = t(n);
        for (nm, op) in [("shl", "unchecked_shl"), ("shr", "unchecked_shr")] {
            c.rust_full(
                &format!("unchecked {nm} {n}"),
                "-Zub-checks=no",
                &[("a", n), ("s", "u32")],
                &format!("fn main() {{ let (a, s) = (a!(), s!()); print(unsafe {{ std::intrinsics::{op}(a, s) }}); }}"),
                false,
                move |r| {
                    let bt = bits(n);
                    let s = concrete_mod(r.v[1], bt);
                    let p = pow2(s);
                    let x = if nm == "shl" { wrap(r.v[0] * p, ty) } else { (r.v[0] - r.v[0].rem_euclid_(p)) / p };
                    r.ends_iff("ub", !is_lt(r.v[1], bt), &[], &[x])
                },
            );
        }
    }
    c.rust_full("overflow checks off", "-Coverflow-checks=off", &[("a", "i32"), ("b", "i32")], "fn main() { print(a!() + b!()); print(a!() - b!()); print(-a!()); }", false, |r| {
        let (a, b) = (r.v[0], r.v[1]);
        let ty = t("i32");
        r.prints(&[wrap(a + b, ty), wrap(a - b, ty), wrap(-a, ty)])
    });
    c.rust("compound assignment", &[("a", "u32"), ("b", "u16")], "fn main() { let mut x = a!() >> 8; let b = b!() as u32; x += b; print(x); x *= 2; print(x); x -= 1; print(x); x |= 1 << 31; print(x); x ^= 1; print(x); x &= 0xff; print(x); x <<= 4; print(x); x >>= 2; print(x); x /= 3; print(x); x %= 5; print(x); }", |r| {
        let x = (r.v[0] - r.v[0] % int(256)) / int(256) + r.v[1];
        let (x2, x3) = (x * 2, x * 2 - 1);
        suppose(!is_eq(x, 0));
        let x4 = x3 + pow2(int(31));
        let x5 = x4 - 1;
        let x6 = x5 % int(256);
        let x7 = x6 * 16;
        let x8 = x6 * 4;
        let x9 = x8 / int(3);
        r.prints(&[x, x2, x3, x4, x5, x6, x7, x8, x9, x9 % int(5)])
    });
    for (f, g, flag) in [("&", "|", ""), ("|", "&", "")] {
        let _ = flag;
        let and = f == "&";
        c.rust(&format!("bool {}", if and { "and" } else { "or" }), &[("a", "bool"), ("b", "bool")], &format!("fn main() {{ let (a, b) = (a!(), b!()); print(a {f} b); print(!(a {g} b)); print(a ^ b); print(!a); print(a {f}{f} b); print(a == b); print(a != b); print(a < b); print(a <= b); }}"), move |r| {
            let (a, b) = (is_eq(r.v[0], 1), is_eq(r.v[1], 1));
            let (x, y) = if and { (a & b, a | b) } else { (a | b, a & b) };
            r.prints(&[b2i(x), b2i(!y), b2i(!a.iff(b)), b2i(!a), b2i(x), b2i(a.iff(b)), b2i(!a.iff(b)), b2i(!a & b), b2i(!a | b)])
        });
    }
    c.rust("checked arithmetic", &[("a", "i16"), ("b", "i16")], "fn main() { let (a, b) = (a!(), b!()); match a.checked_add(b) { Some(x) => { print(1); print(x); } None => { print(0); print(0); } } print(a.abs_diff(b)); print(a.signum()); print(a.wrapping_abs()); print(a.rem_euclid(7)); print(a.div_euclid(7)); print(a.max(b)); print(a.min(b)); }", |r| {
        let (a, b) = (r.v[0], r.v[1]);
        let ty = t("i16");
        let ok = fits(a + b, ty);
        let d = a - b;
        let m = a.rem_euclid_(int(7));
        r.prints(&[b2i(ok), ite(ok, a + b, 0), ite(is_lt(d, 0), -d, d), ite(is_lt(a, 0), -1, ite(is_eq(a, 0), 0, 1)), ite(is_lt(a, 0), wrap(-a, ty), a), m, (a - m) / int(7), ite(is_lt(a, b), b, a), ite(is_lt(a, b), a, b)])
    });
    c.rust("bytes of integers", &[("a", "u16")], "fn main() { let a = a!(); print(a.to_le_bytes()[1]); print(u16::from_le_bytes([a as u8, 7])); }", |r| {
        let (lo, hi) = (byte_of(r.v[0], 0), byte_of(r.v[0], 1));
        r.prints(&[hi, lo + 7 * 256])
    });
}

/// Casts.
pub fn casts(c: &mut Cases) {
    for &n in ALL {
        let outs: String = ALL.iter().map(|m| format!("print(a as {m}); ")).collect();
        c.rust(&format!("cast {n}"), &[("a", n)], &format!("fn main() {{ let a = a!(); {outs} }}"), |r| {
            r.prints(&ALL.iter().map(|m| wrap(r.v[0], t(m))).collect::<Vec<_>>())
        });
    }
    let outs: String = ALL.iter().map(|m| format!("print(a as {m}); ")).collect();
    c.rust("cast bool", &[("a", "bool")], &format!("fn main() {{ let a = a!(); {outs} }}"), |r| r.prints(&ALL.iter().map(|_| r.v[0]).collect::<Vec<_>>()));
    c.rust("cast char", &[("a", "char")], &format!("fn main() {{ let a = a!(); {outs} }}"), |r| r.prints(&ALL.iter().map(|m| wrap(r.v[0], t(m))).collect::<Vec<_>>()));
    c.rust("cast to char", &[("a", "u8")], "fn main() { let x = a!() as char; print(x as u32); print(x == 'A'); print(x < 'z'); print(char::from(a!()) as u64); }", |r| {
        let a = r.v[0];
        r.prints(&[a, b2i(is_eq(a, 65)), b2i(is_lt(a, 122)), a])
    });
    c.rust("cast chain", &[("a", "i64")], "fn main() { print(a!() as i8 as u32 as i64); print(a!() as u16 as i16 as u64); print(a!() as u8 as i8 as i128 as u32); }", |r| {
        let a = r.v[0];
        r.prints(&[wrap(wrap(a, t("i8")), t("u32")), wrap(wrap(a, t("i16")), t("u64")), wrap(wrap(a, t("i8")), t("u32"))])
    });
    #[rustfmt::skip]
    c.rust("cast enum", &[("a", "u8")], "
#[derive(Clone, Copy)] enum E { A = -3, B, C = 500 } #[repr(u8)] #[derive(Clone, Copy)] enum F { X = 200, Y = 3 }
fn main() { let e = if a!() == 0 { E::A } else if a!() == 1 { E::B } else { E::C }; print(e as i32); print(e as u8); print(e as i64); print(e as u128);
let f = if a!() == 0 { F::X } else { F::Y }; print(f as i8); print(f as u32); }", |r| {
        let (z, o) = (is_eq(r.v[0], 0), is_eq(r.v[0], 1));
        let e = ite(z, -3, ite(o, -2, 500));
        let f = ite(z, 200, 3);
        r.prints(&[e, wrap(e, t("u8")), e, wrap(e, t("u128")), wrap(f, t("i8")), f])
    });
    c.rust("cast pointer", &[("a", "u64")], "fn main() { let p = a!() as usize; let q: *const u8 = std::ptr::without_provenance(p); print(q.addr()); let r = q as *const u64; print(r.addr()); print(r.is_null()); let f = main as fn() as *const u8; print(f.is_null()); }", |r| {
        r.prints(&[r.v[0], r.v[0], b2i(is_eq(r.v[0], 0)), int(0)])
    });
    c.rust("transmute", &[("a", "u32"), ("b", "i64")], "fn main() { unsafe { let x: [u8; 4] = std::mem::transmute(a!()); print(x[0]); print(x[3]); let y: i32 = std::mem::transmute(a!()); print(y); let z: (u32, u32) = std::mem::transmute(b!()); print(std::mem::transmute::<_, i64>(z)); let c: [u16; 2] = std::mem::transmute(x); print(c[1]); } }", |r| {
        let (a, b) = (r.v[0], r.v[1]);
        r.prints(&[byte_of(a, 0), byte_of(a, 3), wrap(a, t("i32")), b, byte_of(a, 2) + byte_of(a, 3) * 256])
    });
    c.rust("transmute to bool", &[("a", "u8")], "fn main() { let b: bool = unsafe { std::mem::transmute(a!()) }; print(b); }", |r| {
        r.ends_iff("ub", !is_le(r.v[0], 1), &[], &[r.v[0]])
    });
}

/// Comparisons.
pub fn compare(c: &mut Cases) {
    for &n in ALL {
        c.rust(
            &format!("compare {n}"),
            &[("a", n), ("b", n)],
            "fn main() { let (a, b) = (a!(), b!()); print(a < b); print(a <= b); print(a > b); print(a >= b); print(a == b); print(a != b); print(a.cmp(&b) as i8); }",
            |r| {
                let (a, b) = (r.v[0], r.v[1]);
                let (lt, eq) = (is_lt(a, b), is_eq(a, b));
                r.prints(&[b2i(lt), b2i(lt | eq), b2i(!lt & !eq), b2i(!lt), b2i(eq), b2i(!eq), ite(lt, -1, ite(eq, 0, 1))])
            },
        );
    }
    c.rust("compare char", &[("a", "char"), ("b", "char")], "fn main() { let (a, b) = (a!(), b!()); print(a < b); print(a >= b); print(a == b); print(a == 'x'); print(a.cmp(&b) as i8); }", |r| {
        let (a, b) = (r.v[0], r.v[1]);
        r.prints(&[b2i(is_lt(a, b)), b2i(!is_lt(a, b)), b2i(is_eq(a, b)), b2i(is_eq(a, 120)), ite(is_lt(a, b), -1, ite(is_eq(a, b), 0, 1))])
    });
    c.rust("compare bool", &[("a", "bool"), ("b", "bool")], "fn main() { let (a, b) = (a!(), b!()); print(a < b); print(a >= b); print(a > b); print(a <= b); print(a == b); print(a.cmp(&b) as i8); }", |r| {
        let (a, b) = (r.v[0], r.v[1]);
        r.prints(&[b2i(is_lt(a, b)), b2i(!is_lt(a, b)), b2i(is_lt(b, a)), b2i(is_le(a, b)), b2i(is_eq(a, b)), a - b])
    });
    c.rust("compare pointers", &[("a", "u64"), ("b", "u64")], "fn main() { let p: *const u8 = std::ptr::without_provenance(a!() as usize); let q: *const u8 = std::ptr::without_provenance(b!() as usize); print(p < q); print(p >= q); print(p == q); print(p != q); print(p > q); print(p <= q); print(p.cmp(&q) as i8); print(std::ptr::eq(p, q)); }", |r| {
        let (a, b) = (r.v[0], r.v[1]);
        let (lt, eq) = (is_lt(a, b), is_eq(a, b));
        r.prints(&[b2i(lt), b2i(!lt), b2i(eq), b2i(!eq), b2i(!lt & !eq), b2i(lt | eq), ite(lt, -1, ite(eq, 0, 1)), b2i(eq)])
    });
    #[rustfmt::skip]
    c.rust("compare tuples", &[("a", "u8"), ("b", "i32"), ("x", "u8"), ("y", "i32")], "
#[derive(PartialEq, Eq, PartialOrd, Ord, Clone, Copy)] struct S { p: u8, q: i32 }
fn main() { let (s, t) = (S { p: a!(), q: b!() }, S { p: x!(), q: y!() }); print(s < t); print(s == t); print(s >= t); print((a!(), b!()) < (x!(), y!())); print(s.cmp(&t) as i8); print([a!(), 3] == [x!(), 3]); print(Some(a!()) == Some(x!())); print(Some(b!()) > None); }", |r| {
        let (a, b, x, y) = (r.v[0], r.v[1], r.v[2], r.v[3]);
        let lt = is_lt(a, x) | (is_eq(a, x) & is_lt(b, y));
        let eq = is_eq(a, x) & is_eq(b, y);
        r.prints(&[b2i(lt), b2i(eq), b2i(!lt), b2i(lt), ite(lt, -1, ite(eq, 0, 1)), b2i(is_eq(a, x)), b2i(is_eq(a, x)), int(1)])
    });
    c.rust("compare slices", &[("a", "u8"), ("b", "u8")], "fn main() { let x = [a!(), 5, 1]; let y = [b!(), 4]; let (s, t): (&[u8], &[u8]) = (&x, &y); print(s[0] < t[0]); let (p, q) = (&raw const x as *const [u8; 3] as *const u8, s.as_ptr()); print(p == q); print(std::ptr::eq(&s[..], &x[..])); }", |r| {
        let (a, b) = (r.v[0], r.v[1]);
        r.prints(&[b2i(is_lt(a, b)), int(1), int(1)])
    });
    // branches
    c.rust("match integer", &[("a", "i16")], "fn main() { print(match a!() { -5 => 1, 0 => 2, 1..=9 => 3, i16::MIN..=-300 => 4, 32767 => 5, -1 | -2 => 6, _ => 7 }); }", |r| {
        let a = r.v[0];
        let e = |x: i128| is_eq(a, int(x));
        r.prints(&[ite(e(-5), 1, ite(e(0), 2, ite(is_le(1, a) & is_le(a, 9), 3, ite(is_le(a, -300), 4, ite(e(32767), 5, ite(e(-1) | e(-2), 6, 7))))))])
    });
    c.rust("match wide", &[("a", "u128"), ("b", "i128"), ("c", "u64")], "fn main() { print(match a!() { 0 => 1, 340282366920938463463374607431768211455 => 2, 18446744073709551616 => 3, _ => 4 }); print(match b!() { -1 => 1, i128::MIN => 2, i128::MAX => 3, _ => 4 }); print(match c!() { u64::MAX => 1, 0x8000_0000_0000_0000 => 2, _ => 3 }); }", |r| {
        let (a, b, c) = (r.v[0], r.v[1], r.v[2]);
        r.prints(&[
            ite(is_eq(a, 0), 1, ite(is_eq(a, imax(t("u128"))), 2, ite(is_eq(a, pow2(int(64))), 3, 4))),
            ite(is_eq(b, -1), 1, ite(is_eq(b, imin(t("i128"))), 2, ite(is_eq(b, imax(t("i128"))), 3, 4))),
            ite(is_eq(c, imax(t("u64"))), 1, ite(is_eq(c, pow2(int(63))), 2, 3)),
        ])
    });
    c.rust("match char", &[("a", "char")], "fn main() { print(match a!() { 'a'..='f' => 1, '\\u{10ffff}' => 2, 'Z' => 3, _ => 4 }); }", |r| {
        let a = r.v[0];
        r.prints(&[ite(is_le(97, a) & is_le(a, 102), 1, ite(is_eq(a, 0x10ffff), 2, ite(is_eq(a, 90), 3, 4)))])
    });
    c.rust("match bool", &[("a", "bool"), ("b", "bool")], "fn main() { print(match (a!(), b!()) { (true, false) => 1, (false, true) => 2, (true, true) => 3, (false, false) => 4 }); print(if a!() { 5 } else if b!() { 6 } else { 7 }); }", |r| {
        let (a, b) = (is_eq(r.v[0], 1), is_eq(r.v[1], 1));
        r.prints(&[ite(a, ite(b, 3, 1), ite(b, 2, 4)), ite(a, 5, ite(b, 6, 7))])
    });
    c.rust("match guard", &[("a", "u8"), ("b", "u8")], "fn main() { let (a, b) = (a!(), b!()); print(match a { x if x > b => 1, 7 => 2, y @ 8..=20 if b == 255 => y as i32, _ => -1 }); }", |r| {
        let (a, b) = (r.v[0], r.v[1]);
        r.prints(&[ite(is_lt(b, a), 1, ite(is_eq(a, 7), 2, ite(is_le(8, a) & is_le(a, 20) & is_eq(b, 255), a, -1)))])
    });
}
