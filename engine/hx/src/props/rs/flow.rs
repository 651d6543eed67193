//! Control flow.
use crate::kit::*;
use crate::rust::*;
use crate::*;

pub fn cases(c: &mut Cases) {
    c.rust_with("while loop", Opts::pre(|v| suppose(is_le(v[0], 6))), &[("n", "u8"), ("a", "u32")], "fn main() { let mut i = 0u8; let mut s = a!(); while i < n!() { s = s.wrapping_add(i as u32 * 3); i += 1; } print(s); print(i); }", |r| {
        let n = concrete_mod(r.v[0], int(7));
        let mut s = r.v[1];
        let mut i = int(0);
        while i < n {
            s = wrap(s + i * 3, int_type("u32"));
            i = i + 1;
        }
        r.prints(&[s, n])
    });
    c.rust_with("for range", Opts::pre(|v| suppose(is_le(v[0], 4) & is_le(v[1], 4))), &[("n", "u32"), ("m", "u32")], "fn main() { let mut k = 0; for i in n!()..m!() { for j in 0..=i { if j == 3 { continue; } k += i * j + 1; } } print(k); for x in (0..m!()).rev() { print(x); } }", |r| {
        let n = concrete_mod(r.v[0], int(6)).try_to_usize().unwrap();
        let m = concrete_mod(r.v[1], int(6)).try_to_usize().unwrap();
        let mut k = 0;
        for i in n..m {
            for j in 0..=i {
                if j != 3 {
                    k += i * j + 1;
                }
            }
        }
        let mut o = vec![Int::from(k)];
        o.extend((0..m).rev().map(Int::from));
        r.prints(&o)
    });
    c.rust("labelled loops", &[("a", "u8"), ("b", "u8")], "fn main() { let mut n = 0; let r = 'o: loop { n += 1; let mut i = 0; loop { i += 1; if i == 3 { if a!() == n { break 'o i * 10 + n; } continue 'o; } if n == 4 { if b!() > 100 { break 'o 99; } break 'o 98; } } }; print(r); print(n); let y = 'b: { if a!() < b!() { break 'b 1; } if a!() == b!() { break 'b 2; } 3 }; print(y); }", |r| {
        let (a, b) = (r.v[0], r.v[1]);
        let early = is_le(1, a) & is_le(a, 3);
        r.prints(&[
            ite(early, a + 30, ite(is_lt(100, b), 99, 98)),
            ite(early, a, 4),
            ite(is_lt(a, b), 1, ite(is_eq(a, b), 2, 3)),
        ])
    });
    c.rust("early return", &[("a", "i32"), ("b", "i32")], "fn f(a: i32, b: i32) -> i32 { if a < 0 { return -1; } for i in 0..4 { if i == b { return i * 2; } } let Some(x) = (if b > 1000 { Some(b - 1000) } else { None }) else { return 77; }; x } fn main() { print(f(a!(), b!())); print(f(b!(), a!())); }", |r| {
        let f = |a: Int, b: Int| ite(is_lt(a, 0), -1, ite(is_le(0, b) & is_lt(b, 4), b * 2, ite(is_lt(1000, b), b - 1000, 77)));
        r.prints(&[f(r.v[0], r.v[1]), f(r.v[1], r.v[0])])
    });
    c.rust_with("recursion", Opts::pre(|v| suppose(is_le(v[0], 6))), &[("n", "u8"), ("x", "u32")], "fn fact(n: u8, acc: u32) -> u32 { if n == 0 { acc } else { fact(n - 1, acc.wrapping_mul(n as u32)) } } fn even(n: u8) -> bool { if n == 0 { true } else { odd(n - 1) } } fn odd(n: u8) -> bool { if n == 0 { false } else { even(n - 1) } } fn fib(n: u8) -> u32 { match n { 0 => 0, 1 => 1, n => fib(n - 1) + fib(n - 2) } } fn main() { print(fact(n!(), x!())); print(even(n!())); print(odd(n!())); print(fib(n!())); }", |r| {
        let n = concrete_mod(r.v[0], int(7)).try_to_usize().unwrap();
        let f: usize = (1..=n).product();
        let (mut a, mut b) = (0, 1);
        for _ in 0..n {
            (a, b) = (b, a + b);
        }
        r.prints(&[wrap(r.v[1] * Int::from(f), int_type("u32")), Int::from((n % 2 == 0) as u8), Int::from((n % 2) as u8), int(a)])
    });
    #[rustfmt::skip]
    c.rust("iterators: sums", &[("a", "u8"), ("b", "u8"), ("d", "u8")], "fn main() { let v = [a!() as u32, b!() as u32, d!() as u32]; let mut s = 0; for x in v.iter() { s += x; } print(s); let mut s = 0; for i in 0..v.len() { s = s * 3 + v[i]; } print(s); let mut w = v; for x in w.iter_mut() { *x += 1; } print(w[0] + w[2] * 2); print(*v.iter().rev().skip(1).next().unwrap()); }", |r| {
        let (a, b, d) = (r.v[0], r.v[1], r.v[2]);
        r.prints(&[a + b + d, a * 9 + b * 3 + d, a + 1 + (d + 1) * 2, b])
    });
    c.rust("iterators: adapters", &[("a", "u8"), ("b", "u8"), ("d", "u8")], "fn main() { let v = [a!() as u32, b!() as u32, d!() as u32]; print(v.iter().map(|x| x * 2).sum::<u32>()); print(v.iter().enumerate().fold(0, |s, (i, x)| s + i as u32 * x)); print(v.iter().zip([1, 10, 100].iter()).map(|(x, y)| x * y).sum::<u32>()); }", |r| {
        let (a, b, d) = (r.v[0], r.v[1], r.v[2]);
        r.prints(&[(a + b + d) * 2, b + d * 2, a + b * 10 + d * 100])
    });
    c.rust("iterators: filter", &[("a", "u8"), ("b", "u8"), ("d", "u8")], "fn main() { let v = [a!() as u32, b!() as u32, d!() as u32]; print(v.iter().filter(|x| **x > 100).count()); }", |r| {
        let (a, b, d) = (r.v[0], r.v[1], r.v[2]);
        let n = |x: B| ite(x, 1, 0);
        r.prints(&[n(is_lt(100, a)) + n(is_lt(100, b)) + n(is_lt(100, d))])
    });
    c.rust("iterators: any and all", &[("a", "u8"), ("b", "u8"), ("d", "u8")], "fn main() { let v = [a!() as u32, b!() as u32, d!() as u32]; print(v.iter().any(|x| *x == 7)); print(v.iter().all(|x| *x < 200)); }", |r| {
        let (a, b, d) = (r.v[0], r.v[1], r.v[2]);
        r.prints(&[b2i(is_eq(a, 7) | is_eq(b, 7) | is_eq(d, 7)), b2i(is_lt(a, 200) & is_lt(b, 200) & is_lt(d, 200))])
    });
    c.rust("iterators: position", &[("a", "u8"), ("b", "u8"), ("d", "u8")], "fn main() { let v = [a!() as u32, b!() as u32, d!() as u32]; print(match v.iter().position(|x| *x == 9) { Some(i) => i as i32, None => -1 }); }", |r| {
        let (a, b, d) = (r.v[0], r.v[1], r.v[2]);
        r.prints(&[ite(is_eq(a, 9), 0, ite(is_eq(b, 9), 1, ite(is_eq(d, 9), 2, -1)))])
    });
    c.rust("iterators: max", &[("a", "u8"), ("b", "u8"), ("d", "u8")], "fn main() { let v = [a!() as u32, b!() as u32, d!() as u32]; print(*v.iter().max().unwrap()); }", |r| {
        let (a, b, d) = (r.v[0], r.v[1], r.v[2]);
        let mx = ite(is_lt(a, b), b, a);
        let mx = ite(is_lt(mx, d), d, mx);
        r.prints(&[mx])
    });
    c.rust_with("bubble sort", Opts { ..Default::default() }, &[("a", "i16"), ("b", "i16"), ("d", "i16")], "fn main() { let mut v = [a!(), b!(), d!()]; let n = v.len(); for i in 0..n { for j in 0..n - 1 - i { if v[j] > v[j + 1] { let t = v[j]; v[j] = v[j + 1]; v[j + 1] = t; } } } print(v[0]); print(v[1]); print(v[2]); }", |r| {
        let (a, b, d) = (r.v[0], r.v[1], r.v[2]);
        let mn = |x: Int, y: Int| ite(is_lt(x, y), x, y);
        let mx = |x: Int, y: Int| ite(is_lt(x, y), y, x);
        let lo = mn(mn(a, b), d);
        let hi = mx(mx(a, b), d);
        r.prints(&[lo, a + b + d - lo - hi, hi])
    });
    c.rust("binary search", &[("x", "u8")], "fn find(v: &[u8], x: u8) -> Option<usize> { let (mut l, mut h) = (0, v.len()); while l < h { let m = (l + h) / 2; if v[m] == x { return Some(m); } if v[m] < x { l = m + 1; } else { h = m; } } None } fn main() { let v = [2, 3, 5, 7, 11, 13, 200]; match find(&v, x!()) { Some(i) => { print(true); print(i); } None => { print(false); } } }", |r| {
        let t = [2, 3, 5, 7, 11, 13, 200];
        let x = r.v[0];
        if r.out.len() == 2 {
            let want = t.iter().enumerate().fold(int(-1), |s, (i, y)| ite(is_eq(x, *y), Int::from(i), s));
            r.prints(&[int(1), want])
        } else {
            r.prints(&[int(0)]);
            check(all(t.iter().map(|y| !is_eq(x, *y))), "not there")
        }
    });
    c.rust("shadowing and blocks", &[("a", "u16")], "fn main() { let x = a!(); let y = { let x = x as u32 + 1; x * 2 }; let x = { let t = x; if t > 10 { t - 10 } else { t } }; print(x); print(y); let (p, mut q) = (x, 5); q += p as u32; (q, _) = (q + 1, 0); print(q); let (h, .., l) = (x, 1, 2, 3); print(h); print(l); }", |r| {
        let a = r.v[0];
        let x = ite(is_lt(10, a), a - 10, a);
        r.prints(&[x, (a + 1) * 2, x + 6, x, int(3)])
    });
    c.rust("short circuit", &[("a", "u8"), ("b", "u8")], "fn t(x: bool, n: u8) -> bool { print(n); x } fn main() { print(t(a!() > 3, 1) && t(b!() > 3, 2) || t(a!() == b!(), 3)); }", |r| {
        let (a, b) = (r.v[0], r.v[1]);
        let (p, q, s) = (is_lt(3, a), is_lt(3, b), is_eq(a, b));
        if p.decide() {
            if q.decide() { r.prints(&[int(1), int(2), int(1)]) } else { r.prints(&[int(1), int(2), int(3), b2i(s)]) }
        } else {
            r.prints(&[int(1), int(3), b2i(s)])
        }
    });
    c.rust("evaluation order", &[("a", "u8")], "static mut N: u32 = 0; fn t(x: u32) -> u32 { unsafe { N = N * 10 + x; N } } fn f(a: u32, b: u32, c: u32) -> u32 { a + b * 2 + c * 3 } struct S { p: u32, q: u32 } fn main() { let _ = a!(); print(f(t(1), t(2), t(3))); print(t(4) - t(5) + t(6)); let s = S { q: t(7), p: t(8) }; print(s.p); print(s.q); let v = [t(9) % 7, t(1) % 7]; print(v[0]); print(v[1]); }".replace("t(4) - t(5)", "t(5).wrapping_sub(t(4))").replace("+ t(6)", ".wrapping_add(t(6))").as_str(), |r| {
        let u = |x: i128| wrap(int(x), int_type("u32"));
        r.prints(&[u(1 + 12 * 2 + 123 * 3), u(1235 - 12354 + 123546), u(12354678), u(1235467), u(123546789 % 7), u(1235467891 % 7)])
    });
    c.rust("assertions", &[("a", "u8"), ("b", "u8")], "fn main() { assert!(a!() < 200); print(1); assert!(b!() % 2 == 0); print(2); debug_assert!(a!() != b!()); print(3); if a!() == 5 { unreachable!() } if b!() == 6 { panic!(\"no\") } print(4); let o = if a!() == 7 { None } else { Some(8u8) }; match o { Some(x) => print(x), None => unreachable!() } }", |r| {
        let (a, b) = (r.v[0], r.v[1]);
        let ok = [is_lt(a, 200), is_eq(b % int(2), 0), !is_eq(a, b), !is_eq(a, 5) & !is_eq(b, 6), !is_eq(a, 7)];
        let n = r.out.len();
        if r.end.kind() == "exit" {
            check(all(ok), "all hold");
            r.prints(&[int(1), int(2), int(3), int(4), int(8)])
        } else {
            r.ends("abort", &[int(1), int(2), int(3), int(4)][..n]);
            check(all(ok[..n].iter().copied()), "those before hold");
            check(!ok[n], "this one does not")
        }
    });
}

pub fn indexing(c: &mut Cases) {
    c.rust("array indexing", &[("i", "usize"), ("x", "u32")], "fn main() { let mut v = [1, 2, x!(), 4]; print(v[1]); print(v[i!()]); v[i!()] = 9; print(v[0] + v[3]); print(v[2]); }", |r| {
        let (i, x) = (r.v[0], r.v[1]);
        let ok = is_lt(i, 4);
        let e = |k: i128| is_eq(i, int(k));
        r.ends_iff("abort", !ok, &[int(2)], &[ite(e(0), 1, ite(e(1), 2, ite(e(2), x, 4))), ite(e(0), 13, ite(e(3), 10, 5)), ite(e(2), 9, x)])
    });
    c.rust("slice indexing", &[("i", "usize"), ("j", "usize"), ("x", "u16")], "fn main() { let v = [5, x!(), 7, 8]; let s = &v[1..3]; print(s.len()); print(s[0]); print(s[i!() & 1]); let t = &v[i!()..j!()]; print(t.len()); if !t.is_empty() { print(t[0]); } }", |r| {
        let (i, j, x) = (r.v[0], r.v[1], r.v[2]);
        let low = is_eq(i.rem_euclid_(int(2)), 0);
        let pre = [int(2), x, ite(low, x, 7)];
        let ok = is_le(i, j) & is_le(j, 4);
        let v = ite(is_eq(i, 0), 5, ite(is_eq(i, 1), x, ite(is_eq(i, 2), 7, 8)));
        if r.end.kind() == "exit" && r.out.len() == 5 {
            check(is_lt(i, j), "not empty");
            r.ends_iff("abort", !ok, &pre, &[j - i, v])
        } else {
            r.ends_iff("abort", !ok, &pre, &[int(0)]);
            if r.end.kind() == "exit" {
                check(is_eq(i, j), "empty")
            }
        }
    });
}
