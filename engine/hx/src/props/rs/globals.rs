//! Statics, constants, relocations, intrinsics.
use crate::kit::*;
use crate::rust::*;
use crate::*;

pub fn cases(c: &mut Cases) {
    c.rust("statics of all types", &[("s", "u8")], "
        static A: u8 = 200; static B: i16 = -300; static C: u32 = 4000000000; static D: i64 = -5000000000; static E: u128 = 1 << 100; static F: bool = true; static G: char = 'x'; static H: (u8, u32, i8) = (1, 2, -3); static I: [u16; 4] = [10, 20, 30, 40]; struct S { a: u8, b: [i32; 2], c: Option<u8> } static J: S = S { a: 9, b: [-1, 7], c: Some(3) }; static K: usize = usize::MAX; static L: i128 = i128::MIN; static M: () = ();
        fn main() { match s!() { 0 => print(A), 1 => print(B), 2 => print(C), 3 => print(D), 4 => print(E), 5 => print(F), 6 => print(G as u32), 7 => print(H.0 as i32 + H.1 as i32 * 10 + H.2 as i32 * 100), 8 => print(I[3] + I[0]), 9 => print(J.b[0] + J.a as i32), 10 => print(J.c.is_some()), 11 => print(K), 12 => print(L), 13 => print(match J.c { Some(x) => x, None => 0 }), _ => print(J.b[1]) } }", |r| {
        let v = [int(200), int(-300), int(4000000000), int(-5000000000), pow2(int(100)), int(1), int(120), int(1 + 20 - 300), int(50), int(8), int(1), pow2(int(64)) - 1, int(0) - pow2(int(127)), int(3)];
        for (i, x) in v.iter().enumerate() {
            if is_eq(r.v[0], i as i128).decide() {
                return r.prints(&[*x]);
            }
        }
        r.prints(&[int(7)])
    });
    c.rust("statics keep what is written", &[("x", "u32"), ("i", "usize"), ("n", "u8")], "
        static mut V: [u32; 3] = [1, 2, 3]; static mut N: u8 = 250; fn bump() -> u8 { unsafe { N = N.wrapping_add(1); N } } fn put(i: usize, x: u32) { unsafe { V[i] = x; } }
        fn main() { unsafe { put(i!() % 3, x!()); print(V[0]); print(V[1]); print(V[2]); let mut k = 0; while k < n!() % 8 { bump(); k += 1; } print(N); print(bump()); let p = &raw mut V; (*p)[1] = 9; print(V[1]); let q = &raw mut V as *mut u32; *q.add(2) = 8; print((*p)[2]); } }", |r| {
        let (x, i) = (r.v[0], r.v[1] % int(3));
        let k = concrete_mod(r.v[2], int(8));
        let at = |n: i128, y: i128| ite(is_eq(i, n), x, y);
        r.prints(&[at(0, 1), at(1, 2), at(2, 3), wrap(k + 250, int_type("u8")), wrap(k + 251, int_type("u8")), int(9), int(8)])
    });
    c.rust("relocations", &[("i", "usize"), ("x", "u16")], "
        static A: [u16; 4] = [10, 11, 12, 13]; static P: &u16 = &A[2]; static Q: [&u16; 3] = [&A[3], &A[0], P]; static R: &&u16 = &Q[1]; static S: &[u16] = &A; static T: (u8, &[u16; 4], u32) = (5, &A, 6); static mut M: u16 = 7; struct W(*mut u16, u8); unsafe impl Sync for W {} static U: W = W(&raw mut M, 3); static E: &str = \"hello\"; static Z: &[&str] = &[\"ab\", \"\", \"cde\"];
        fn main() { unsafe { print(*P); print(*Q[i!() % 3]); print(**R); print(S.len()); print(S[i!() % 4]); print(T.1[1]); print(T.2); *U.0 = x!(); print(M); M = 5; print(*U.0); print(U.1); print(E.len()); print(E.as_bytes()[i!() % 5]); print(Z[2].as_bytes()[1]); print(Z[i!() % 3].len()); print(P as *const u16 == &raw const A[2]); print((Q[0] as *const u16).offset_from(Q[1])); } }", |r| {
        let (i, x) = (r.v[0], r.v[1]);
        let sel = |n: i128, v: &[i128]| {
            let m = i % int(n);
            v.iter().enumerate().rev().fold(int(0), |s, (k, y)| ite(is_eq(m, k as i128), *y, s))
        };
        r.prints(&[int(12), sel(3, &[13, 10, 12]), int(10), int(4), sel(4, &[10, 11, 12, 13]), int(11), int(6), x, int(5), int(3), int(5), sel(5, &[104, 101, 108, 108, 111]), int(100), sel(3, &[2, 0, 3]), int(1), int(3)])
    });
    c.rust("cyclic statics", &[("n", "u8")], "
        struct N { v: u8, next: Option<&'static N>, o: &'static [&'static N] } static A: N = N { v: 1, next: Some(&B), o: &[&A, &B] }; static B: N = N { v: 2, next: Some(&C), o: &[] }; static C: N = N { v: 3, next: Some(&A), o: &[&A] }; static L: N = N { v: 9, next: None, o: &[&L] };
        fn main() { let mut p = &A; let mut i = 0; while i < n!() % 6 { p = p.next.unwrap_or(&L); i += 1; } print(p.v); print(p.o.len()); print(A.o[1].next.is_some()); print(L.next.is_some()); print(C.o[0].o[0].v); print(L.o[0].v); }".replace("p.next.unwrap_or(&L)", "match p.next { Some(q) => q, None => &L }").as_str(), |r| {
        let n = concrete_mod(r.v[0], int(6)).try_to_usize().unwrap() % 3;
        r.prints(&[int(n as i128 + 1), int([2, 0, 1][n]), int(1), int(0), int(1), int(9)])
    });
    c.rust("uninitialized statics", &[("s", "u8")], "
        use std::mem::MaybeUninit; static mut U: MaybeUninit<[u8; 4]> = MaybeUninit::uninit(); #[repr(C)] struct P { a: u8, b: u32 } static Q: P = P { a: 1, b: 2 };
        fn main() { unsafe { let p = &raw mut U as *mut u8; *p.add(1) = 5; let q = &raw const Q as *const u8; print(100); print(match s!() { 0 => *p.add(1), 1 => *p.add(2), 2 => *q, 3 => *q.add(4), 4 => *q.add(1), _ => 9 }); } }", |r| {
        let s = r.v[0];
        r.ends_iff("ub", is_eq(s, 1) | is_eq(s, 4), &[int(100)], &[ite(is_eq(s, 0), 5, ite(is_eq(s, 2), 1, ite(is_eq(s, 3), 2, 9)))])
    });
    c.rust("constants", &[("i", "usize"), ("x", "u8")], "
        const fn fib(n: u32) -> u64 { let (mut a, mut b, mut i) = (0, 1, 0); while i < n { let t = a + b; a = b; b = t; i += 1; } a } const F: u64 = fib(20); const T: [u64; 5] = [fib(1), fib(2), fib(3), fib(4), fib(5)]; #[derive(Clone, Copy, PartialEq)] enum E { A, B(u8, u16), C { x: i32 } } const ES: [E; 3] = [E::C { x: -5 }, E::A, E::B(1, 2)]; const O: Option<u8> = Some(4); const NO: Option<&u8> = None; const SO: Option<&'static u8> = Some(&7); const N: i128 = -7; const Q: (bool, char, [(u8, i8); 2]) = (true, 'é', [(1, -1), (2, -2)]); struct K<const M: usize>; impl<const M: usize> K<M> { const D: usize = M * 2 + 1; } const R: &[u16; 2] = &[7, 8]; const B: &[u8] = b\"xyz\"; const NZ: &'static [u8] = &[];
        fn v(e: E) -> i32 { match e { E::A => 1, E::B(a, b) => a as i32 + b as i32 * 10, E::C { x } => x } }
        fn main() { print(F); print(T[i!() % 5]); print(v(ES[i!() % 3])); print(O == Some(x!())); print(NO.is_none()); print(match SO { Some(p) => *p, None => 0 }); print(N); print(Q.0); print(Q.1 as u32); print(Q.2[1].1); print(K::<5>::D); print(R[i!() % 2]); print(B[2]); print(NZ.len()); print(v(const { E::B(3, 4) })); let z = &(x!() as u16 * 0 + 5); print(*z); print(*&(1 + 2) + i8::MIN as i32); }".replace("print(O == Some(x!()));", "print(matches!(O, Some(y) if y == x!()));").as_str(), |r| {
        let (i, x) = (r.v[0], r.v[1]);
        let sel = |n: i128, v: &[i128]| {
            let m = i % int(n);
            v.iter().enumerate().rev().fold(int(0), |s, (k, y)| ite(is_eq(m, k as i128), *y, s))
        };
        r.prints(&[int(6765), sel(5, &[1, 1, 2, 3, 5]), sel(3, &[-5, 1, 21]), b2i(is_eq(x, 4)), int(1), int(7), int(-7), int(1), int(0xe9), int(-2), int(11), sel(2, &[7, 8]), int(122), int(0), int(43), int(5), int(-125)])
    });
    c.rust("promoted and shared constants", &[("x", "u8")], "
        const A: [u8; 3] = [1, 2, 3]; fn f() -> &'static [u8] { &[4, 5, 6] } fn g(c: bool) -> &'static u8 { if c { &8 } else { &A[1] } } static mut S: [u8; 3] = A;
        fn main() { let mut a = A; a[0] = x!(); print(A[0]); print(a[0]); unsafe { S[1] = x!(); print(S[1]); } print(A[1]); print(f()[2]); print(*g(x!() < 10)); let s: &'static str = if x!() == 0 { \"zero\" } else { \"other\" }; print(s.len()); print(s.as_bytes()[0]); }", |r| {
        let x = r.v[0];
        let z = is_eq(x, 0);
        r.prints(&[int(1), x, x, int(2), int(6), ite(is_lt(x, 10), 8, 2), ite(z.clone(), 4, 5), ite(z, 122, 111)])
    });
    c.rust("string slices", &[("i", "usize"), ("j", "usize")], "
        fn main() { let s = \"abcdef\".as_bytes(); let (i, j) = (i!(), j!()); print(100); let t = &s[i..j]; print(t.len()); if t.len() > 0 { print(t[0]); print(t[t.len() - 1]); } }", |r| {
        let (i, j) = (r.v[0], r.v[1]);
        let ok = is_le(i, j) & is_le(j, 6);
        if r.end.is_exit() {
            check(ok, "panics if out of bounds");
            if is_eq(i, j).decide() { r.prints(&[int(100), int(0)]) } else { r.prints(&[int(100), j - i, i + 97, j + 96]) }
        } else {
            check(!ok, "panics only if out of bounds");
            r.ends("abort", &[int(100)])
        }
    });
    c.rust("hints and intrinsics", &[("s", "u8"), ("x", "u8")], "
        fn main() { unsafe { print(1); match s!() { 0 => std::hint::assert_unchecked(x!() < 10), 1 => if x!() > 100 { std::hint::unreachable_unchecked() }, 2 => if x!() > 50 { core::intrinsics::abort() }, 3 => { exit(); } 4 => core::intrinsics::assume(x!() == 7), 5 => { let y = std::hint::black_box_no(x!()); print(y); } 6 => if core::intrinsics::unlikely(x!() == 3) { print(4); }, 7 => { print(core::intrinsics::ctpop(x!())); } 8 => { let (a, b) = ([x!(), 1], [5u8, 1]); print(core::intrinsics::raw_eq(&a, &b)); } 9 => { print(core::intrinsics::exact_div(x!(), 4)); } _ => {} } print(2); } }".replace("5 => { let y = std::hint::black_box_no(x!()); print(y); }", "").as_str(), |r| {
        let (s, x) = (r.v[0], r.v[1]);
        let o = |v: &[Int]| [&[int(1)][..], v, &[int(2)]].concat();
        let ub = |c: B| if r.end.is_ub() { check(c, "UB only if specified"); r.ends("ub", &[int(1)]) } else { check(!c, "UB if specified"); r.prints(&o(&[])) };
        let e = |k: i128| is_eq(s, k).decide();
        if e(0) { ub(is_le(10, x)) }
        else if e(1) { ub(is_lt(100, x)) }
        else if e(2) { r.ends_iff("abort", is_lt(50, x), &[int(1)], &[int(2)]) }
        else if e(3) { r.prints(&[int(1)]) }
        else if e(4) { ub(is_ne(x, 7)) }
        else if e(6) { if is_eq(x, 3).decide() { r.prints(&o(&[int(4)])) } else { r.prints(&o(&[])) } }
        else if e(7) { r.prints(&o(&[(0..8).fold(int(0), |t, k| t + bit_of(x, k))])) }
        else if e(8) { r.prints(&o(&[b2i(is_eq(x, 5))])) }
        else if e(9) { r.ends_iff("ub", is_ne(x % int(4), 0), &[int(1)], &[x / int(4), int(2)]) }
        else { r.prints(&o(&[])) }
    });
    c.rust("output streams", &[("x", "u8"), ("b", "bool")], "
        fn main() { print(x!()); eprint(77); print(b!()); eprint(x!()); print(-5i8); print(true); eprint(b!()); print(u128::MAX); }", |r| {
        let (x, b) = (r.v[0], r.v[1]);
        let e = r.r.err.clone();
        check(e.len() == 3, "three values on the error stream");
        r.prints(&[x, b, int(-5), int(1), pow2(int(128)) - 1]);
        check(is_eq(of(&e[0]), 77) & is_eq(of(&e[1]), x) & is_eq(of(&e[2]), b), "error stream")
    });
}
fn of(o: &Out) -> Int {
    match o {
        Out::Bool(b) => Int::from(*b as u8),
        Out::Int(i) => *i,
        _ => fail("a number is printed", ""),
    }
}
