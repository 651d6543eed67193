//! Destructors, panics, unwinding.
use crate::kit::*;
use crate::rust::*;
use crate::*;

const PRE: &str = "
    struct D(u8); impl Drop for D { fn drop(&mut self) { print(self.0); } }
    fn no_catch(_: *mut u8, _: *mut u8) { print(250); }
    fn caught(d: *mut u8, p: *mut u8) { print(200); if !d.is_null() { unsafe { *d = (*d).wrapping_add(1); } } }
    fn attempt(f: fn(*mut u8)) -> i32 { unsafe { core::intrinsics::catch_unwind(f, std::ptr::null_mut(), caught) } }
    fn boom(b: bool) { if b { panic!() } }
";
/// What a run prints, decided branch by branch.
struct Log(Vec<Int>);
impl Log {
    fn p(&mut self, x: impl Into<Int>) {
        self.0.push(x.into())
    }
    fn ps(&mut self, x: &[i128]) {
        self.0.extend(x.iter().map(|x| int(*x)))
    }
}
fn lt(a: Int, n: i128) -> bool {
    is_lt(a, n).decide()
}

fn case(c: &mut Cases, name: &str, inputs: &[(&str, &str)], body: &str, f: impl Fn(&[Int], &mut Log) -> &'static str + 'static) {
    case_(c, name, "", inputs, body, f)
}
fn case_(c: &mut Cases, name: &str, flags: &str, inputs: &[(&str, &str)], body: &str, f: impl Fn(&[Int], &mut Log) -> &'static str + 'static) {
    c.rust_full(name, flags, inputs, &format!("{PRE}{body}"), false, move |r| {
        let mut l = Log(vec![]);
        let kind = f(&r.v, &mut l);
        r.ends(kind, &l.0)
    });
}

pub fn drops(c: &mut Cases) {
    case(c, "drop order of locals", &[("a", "u8")], "
        fn main() { let x = D(1); let y = D(a!()); { let z = D(3); let _ = D(4); let _w = D(5); print(100); } let x = D(6); print(101); }", |v, l| {
        l.ps(&[4, 100, 5, 3, 101, 6]);
        l.p(v[0]);
        l.p(1);
        "exit"
    });
    case(c, "drop order of fields", &[("a", "u8")], "
        struct S { a: D, t: (D, D), b: D } struct O(D, S, [D; 2]); impl Drop for O { fn drop(&mut self) { print(100 + self.0.0 % 2); } }
        fn main() { let o = O(D(1), S { b: D(2), a: D(3), t: (D(4), D(a!())) }, [D(6), D(7)]); print(99); let t = (D(8), 5u8, D(9)); let u = t.0; print(98); }", |v, l| {
        l.ps(&[99, 98, 8, 9, 101, 1, 3, 4]);
        l.p(v[0]);
        l.ps(&[2, 6, 7]);
        "exit"
    });
    case(c, "conditional moves", &[("a", "u8"), ("b", "u8")], "
        fn eat(d: D) { print(50); } fn main() { let x = D(1); let y = D(2); let z; if a!() < 10 { eat(x); } if b!() < 10 { z = y; print(60); } else { z = D(3); std::mem::forget(y); } print(70); }", |v, l| {
        let (m, n) = (lt(v[0], 10), lt(v[1], 10));
        if m {
            l.ps(&[50, 1]);
        }
        l.ps(if n { &[60, 70, 2] } else { &[70, 3] });
        // `z` is declared last and dropped first, then `y`, then `x`
        if !m {
            l.p(1)
        }
        "exit"
    });
    case(c, "assignment drops the old value", &[("a", "u8"), ("n", "u8")], "
        fn main() { let mut x = D(1); x = D(a!()); print(100); x.0 = 3; let mut o = Some(D(4)); o = None; print(101); let mut v = [D(5), D(6)]; v[(n!() % 2) as usize] = D(7); print(102); let t = std::mem::replace(&mut x, D(8)); print(103); let u = o.take(); o = Some(D(9)); if let Some(d) = o { print(d.0 + 50); } print(104); }", |v, l| {
        let k = is_eq(v[1] % int(2), 0).decide();
        l.ps(&[1, 100, 4, 101, if k { 5 } else { 6 }, 102, 103, 59, 9, 104, 3]);
        l.ps(if k { &[7, 6] } else { &[5, 7] });
        l.p(8);
        "exit"
    });
    case(c, "temporaries", &[("a", "u8")], "
        fn id(d: &D) -> u8 { d.0 } fn mk(x: u8) -> D { print(100); D(x) }
        fn main() { print(id(&mk(a!()))); let x = id(&D(2)) + id(&D(3)); print(x); match mk(4).0 { 4 => print(101), _ => print(102) } let r = &mk(5); print(103); if mk(6).0 == 6 { print(104); } while mk(7).0 < 7 { } let y = { let t = D(8); t.0 }; print(y); }", |v, l| {
        l.p(100);
        l.p(v[0]);
        l.p(v[0]);
        l.ps(&[3, 2, 5, 100, 101, 4, 100, 103, 100, 6, 104, 100, 7, 8, 8, 5]);
        "exit"
    });
    case(c, "drops in loops", &[("n", "u8"), ("k", "u8")], "
        fn main() { let n = n!() % 4; let k = k!() % 4; let mut i = 0; 'a: loop { let x = D(10 + i); if i == n { break; } let y = D(20 + i); if i == k { i += 1; continue; } { let z = D(30); if i == 2 { break 'a; } } i += 1; print(99); } print(100); }", |v, l| {
        let n = concrete_mod(v[0], int(4));
        let k = concrete_mod(v[1], int(4));
        let mut i = int(0);
        loop {
            if i == n {
                l.p(i + 10);
                break;
            }
            if i == k {
                l.p(i + 20);
                l.p(i + 10);
                i = i + 1;
                continue;
            }
            l.p(30);
            if i == int(2) {
                l.p(i + 20);
                l.p(i + 10);
                break;
            }
            l.p(99);
            l.p(i + 20);
            l.p(i + 10);
            i = i + 1;
        }
        l.p(100);
        "exit"
    });
    case(c, "early return drops", &[("a", "u8")], "
        fn f(a: u8, d: D) -> u8 { let x = D(2); if a < 10 { return 50; } let y = D(3); if a < 20 { return y.0 + 50; } let z = x; a } fn g(a: u8) -> Option<u8> { let d = D(7); let v = if a < 128 { Some(a) } else { None }; let e = D(8); let x = v?; print(90); Some(x) }
        fn main() { print(f(a!(), D(1))); match g(a!()) { Some(x) => print(x), None => print(91) } }", |v, l| {
        if lt(v[0], 10) {
            l.ps(&[2, 1, 50]);
        } else if lt(v[0], 20) {
            l.ps(&[3, 2, 1, 53]);
        } else {
            l.ps(&[2, 3, 1]);
            l.p(v[0]);
        }
        if lt(v[0], 128) {
            l.ps(&[90, 8, 7]);
            l.p(v[0]);
        } else {
            l.ps(&[8, 7, 91]);
        }
        "exit"
    });
    case(c, "enums and generics are dropped", &[("a", "u8")], "
        enum E<T> { A(D, T), B { x: u8, d: D }, C } fn drop_it<T>(t: T) { print(90); }
        fn main() { let e = match a!() { 0 => E::A(D(1), D(2)), 1 => E::B { x: 3, d: D(4) }, _ => E::C }; if a!() == 1 { if let E::B { d, .. } = e { print(91); } } else { drop_it(e); } drop_it((D(5), 6u8)); drop_it([D(7), D(8)]); drop_it(Some(D(9))); std::mem::drop(D(10)); let m = std::mem::ManuallyDrop::new(D(11)); print(92); }", |v, l| {
        if is_eq(v[0], 0).decide() {
            l.ps(&[90, 1, 2]);
        } else if is_eq(v[0], 1).decide() {
            l.ps(&[91, 4]);
        } else {
            l.p(90);
        }
        l.ps(&[90, 5, 90, 7, 8, 90, 9, 10, 92]);
        "exit"
    });
    case(c, "closures drop what they own", &[("a", "u8")], "
        fn call(f: impl FnOnce() -> u8) -> u8 { let r = f(); print(100); r } fn main() { let d = D(a!()); let e = D(2); let g = move || { let x = d; x.0 }; print(90); if a!() < 10 { print(call(g)); } else { print(91); } let h = || e.0; print(h()); }", |v, l| {
        l.p(90);
        if lt(v[0], 10) {
            l.p(v[0]);
            l.p(100);
            l.p(v[0]);
            l.ps(&[2, 2]);
        } else {
            l.ps(&[91, 2]);
            // locals in reverse order: g, then e
            l.p(v[0]);
            l.p(2);
        }
        "exit"
    });
    case(c, "drop in place", &[("a", "u8")], "
        fn main() { unsafe { let mut m = std::mem::ManuallyDrop::new((D(1), D(a!()))); print(90); std::ptr::drop_in_place(&mut m.1); std::ptr::drop_in_place(&mut m.0 as *mut D); print(91); let mut v = std::mem::ManuallyDrop::new([D(3), D(4), D(5)]); std::ptr::drop_in_place(&mut v[1..]); std::ptr::drop_in_place(&mut 5u8); let p = &raw mut v[0]; let d = std::ptr::read(p); print(92); } }", |v, l| {
        l.p(90);
        l.p(v[0]);
        l.ps(&[1, 91, 4, 5, 92, 3]);
        "exit"
    });
}

pub fn panics(c: &mut Cases) {
    case(c, "panics that do not unwind abort", &[("a", "u8"), ("b", "u8")], "
        fn g(b: bool) { let y = D(3); if b { core::panicking::panic_nounwind(\"no\") } print(51); } fn f(_: *mut u8) { let x = D(1); g(a!() < 10); boom(a!() < 20); let z = D(2); if b!() == 7 { core::panicking::panic_nounwind_fmt(format_args!(\"no\"), false) } print(50); }
        fn main() { let w = D(9); print(attempt(f)); print(60); }", |v, l| {
        if lt(v[0], 10) {
            return "abort";
        }
        l.ps(&[51, 3]);
        if lt(v[0], 20) {
            l.ps(&[1, 200, 1, 60, 9]);
            return "exit";
        }
        if is_eq(v[1], 7).decide() {
            return "abort";
        }
        l.ps(&[50, 2, 1, 0, 60, 9]);
        "exit"
    });
    case(c, "unwinding drops what is live", &[("a", "u8"), ("b", "u8")], "
        fn f(_: *mut u8) { let x = D(1); boom(a!() < 10); let y = D(2); let z = y; if b!() < 10 { std::mem::forget(x); } boom(a!() < 20); print(90); boom(a!() < 30); }
        fn main() { print(attempt(f)); print(99); }", |v, l| {
        let kept = |l: &mut Log| {
            l.p(2);
            if !lt(v[1], 10) {
                l.p(1)
            }
        };
        if lt(v[0], 10) {
            l.ps(&[1, 200, 1, 99]);
        } else if lt(v[0], 20) {
            kept(l);
            l.ps(&[200, 1, 99]);
        } else {
            l.p(90);
            kept(l);
            if lt(v[0], 30) {
                l.ps(&[200, 1, 99])
            } else {
                l.ps(&[0, 99])
            }
        }
        "exit"
    });
    case(c, "unwinding through frames", &[("a", "u8"), ("n", "u8")], "
        fn rec(n: u8) -> u8 { let d = D(n); if n == 0 { boom(a!() < 10); return 1; } let r = rec(n - 1); print(50 + r); r + 1 } fn skip(n: u8) { rec(n); } fn f(_: *mut u8) { let d = D(77); skip(n!() % 3); print(60); }
        fn main() { print(attempt(f)); }", |v, l| {
        let n = concrete_mod(v[1], int(3)).try_to_usize().unwrap() as i128;
        if lt(v[0], 10) {
            for i in 0..=n {
                l.p(int(i));
            }
            l.ps(&[77, 200, 1]);
        } else {
            l.p(0);
            for i in 1..=n {
                l.p(int(50 + i));
                l.p(int(i));
            }
            l.ps(&[60, 77, 0]);
        }
        "exit"
    });
    case(c, "a panic in a destructor", &[("a", "u8"), ("b", "u8")], "
        struct P(u8, D); impl Drop for P { fn drop(&mut self) { print(self.0); boom(a!() < 10); print(self.0 + 1); } }
        fn f(_: *mut u8) { let x = D(1); { let y = D(2); let p = P(40, D(3)); let z = D(4); } print(90); }
        fn main() { print(attempt(f)); }", |v, l| {
        l.ps(&[4, 40]);
        if lt(v[0], 10) {
            l.ps(&[3, 2, 1, 200, 1])
        } else {
            l.ps(&[41, 3, 2, 90, 1, 0])
        }
        "exit"
    });
    case(c, "a panic in a destructor while unwinding", &[("a", "u8"), ("b", "u8")], "
        struct P(u8); impl Drop for P { fn drop(&mut self) { print(self.0); boom(a!() < 10); print(self.0 + 1); } }
        fn f(_: *mut u8) { let x = D(1); let p = P(40); boom(b!() < 10); print(90); }
        fn main() { print(attempt(f)); print(91); }", |v, l| {
        match (lt(v[1], 10), lt(v[0], 10)) {
            (true, true) => {
                l.p(40);
                return "abort";
            }
            (true, false) => l.ps(&[40, 41, 1, 200, 1, 91]),
            (false, true) => l.ps(&[90, 40, 1, 200, 1, 91]),
            (false, false) => l.ps(&[90, 40, 41, 1, 0, 91]),
        }
        "exit"
    });
    case(c, "catching in a loop", &[("m", "u8")], "
        static mut I: u8 = 0; fn f(d: *mut u8) { unsafe { let x = D(I); *d += 10; boom(m!() >> I & 1 == 1); *d += 10; } }
        fn main() { let mut n = 0u8; unsafe { while I < 3 { print(core::intrinsics::catch_unwind(f, &mut n, caught)); I += 1; } } print(n); }", |v, l| {
        let mut n = 0;
        for i in 0..3 {
            l.p(int(i as i128));
            if is_eq(bit_of(v[0], i), 1).decide() {
                l.ps(&[200, 1]);
                n += 11;
            } else {
                l.p(0);
                n += 20;
            }
        }
        l.p(int(n));
        "exit"
    });
    case(c, "nested catches", &[("a", "u8")], "
        fn inner(_: *mut u8) { let d = D(1); boom(a!() & 1 == 1); print(50); } fn outer(_: *mut u8) { let d = D(2); print(attempt(inner)); boom(a!() & 2 == 2); print(51); }
        fn again(_: *mut u8, _: *mut u8) { print(60); print(attempt(inner)); print(61); }
        fn main() { print(attempt(outer)); print(unsafe { core::intrinsics::catch_unwind(outer, std::ptr::null_mut(), again) }); }", |v, l| {
        let (i, o) = (is_eq(bit_of(v[0], 0), 1).decide(), is_eq(bit_of(v[0], 1), 1).decide());
        let inner = |l: &mut Log| l.ps(if i { &[1, 200, 1] } else { &[50, 1, 0] });
        for k in 0..2 {
            inner(l);
            if o {
                l.p(2);
                if k == 0 {
                    l.p(200)
                } else {
                    l.p(60);
                    inner(l);
                    l.p(61);
                }
                l.p(1);
            } else {
                l.ps(&[51, 2, 0]);
            }
        }
        "exit"
    });
    case(c, "arguments evaluated before a panic", &[("a", "u8")], "
        fn mk(x: u8) -> D { boom(a!() == x); D(x) } struct T { a: D, b: D, c: D } fn take(x: D, y: D, z: D) { print(90); }
        fn f(_: *mut u8) { take(mk(1), mk(2), mk(3)); let t = T { c: mk(4), a: mk(5), b: mk(6) }; print(91); let v = [mk(7), mk(8)]; print(92); let D(x) = mk(9); let u = (mk(10), mk(11)); }
        fn main() { print(attempt(f)); }", |v, l| {
        let k = (1..=11).find(|k| is_eq(v[0], *k).decide());
        let bad = |l: &mut Log, x: &[i128]| {
            l.ps(x);
            l.ps(&[200, 1]);
            "exit"
        };
        match k {
            Some(1) => return bad(l, &[]),
            Some(2) => return bad(l, &[1]),
            Some(3) => return bad(l, &[2, 1]),
            _ => l.ps(&[90, 3, 2, 1]),
        }
        match k {
            Some(4) => return bad(l, &[]),
            Some(5) => return bad(l, &[4]),
            Some(6) => return bad(l, &[5, 4]),
            _ => l.p(91),
        }
        let t = [5, 6, 4];
        match k {
            Some(7) => return bad(l, &t),
            Some(8) => return bad(l, &[&[7][..], &t].concat()),
            _ => l.p(92),
        }
        let t = [7, 8, 5, 6, 4];
        if k == Some(9) {
            return bad(l, &t);
        }
        l.p(9);
        match k {
            Some(10) => return bad(l, &t),
            Some(11) => return bad(l, &[&[10][..], &t].concat()),
            _ => {}
        }
        l.ps(&[10, 11]);
        l.ps(&t);
        l.p(0);
        "exit"
    });
    case(c, "moved parts are not dropped", &[("a", "u8"), ("b", "u8")], "
        struct T { a: D, b: D } fn eat(d: D) { boom(a!() == 1); print(50); }
        fn f(_: *mut u8) { let t = T { a: D(1), b: D(2) }; if b!() < 10 { eat(t.a); } boom(a!() == 2); let u = t.b; boom(a!() == 3); print(51); }
        fn main() { print(attempt(f)); }", |v, l| {
        let m = lt(v[1], 10);
        let k = (1..=3).find(|k| is_eq(v[0], *k).decide());
        if m {
            if k == Some(1) {
                l.ps(&[1, 2, 200, 1]);
                return "exit";
            }
            l.ps(&[50, 1]);
        }
        let rest = |l: &mut Log| {
            if !m {
                l.p(1)
            }
        };
        match k {
            Some(2) => {
                rest(l);
                l.ps(&[2, 200, 1]);
            }
            Some(3) => {
                l.p(2);
                rest(l);
                l.ps(&[200, 1]);
            }
            _ => {
                l.ps(&[51, 2]);
                rest(l);
                l.p(0);
            }
        }
        "exit"
    });
    case(c, "every kind of check panics", &[("k", "u8"), ("x", "u8"), ("i", "i32")], "
        fn f(_: *mut u8) { let d = D(1); let v = [1u8, 2, 3]; let r = match k!() { 0 => x!() + 200, 1 => 10 - x!(), 2 => x!() * 2, 3 => 100 / x!(), 4 => 100 % x!(), 5 => v[x!() as usize], 6 => 1 << x!(), 7 => (-i!()) as u8, 8 => (i!() / -1) as u8, 9 => v[..x!() as usize].len() as u8, 10 => { assert!(x!() == 5); 0 }, _ => 0 }; print(r); }
        fn main() { print(attempt(f)); }", |v, l| {
        let (k, x, i) = (v[0], v[1], v[2]);
        let min = imin(int_type("i32"));
        let k = (0..=10).find(|n| is_eq(k, *n).decide());
        let (bad, val): (B, Int) = match k {
            Some(0) => (is_lt(55, x), x + 200),
            Some(1) => (is_lt(10, x), int(10) - x),
            Some(2) => (is_lt(127, x), x * 2),
            Some(3) => (is_eq(x, 0), int(100) / x.max_(1)),
            Some(4) => (is_eq(x, 0), int(100) % x.max_(1)),
            Some(5) => (is_le(3, x), x + 1),
            Some(6) => (is_le(8, x), pow2_small(x)),
            Some(7) => (is_eq(i, min), wrap(int(0) - i, int_type("u8"))),
            Some(8) => (is_eq(i, min), wrap(int(0) - i, int_type("u8"))),
            Some(9) => (is_lt(3, x), x),
            Some(10) => (is_ne(x, 5), int(0)),
            _ => (is_lt(1, 0), int(0)),
        };
        if bad.decide() {
            l.ps(&[1, 200, 1])
        } else {
            l.p(val);
            l.ps(&[1, 0])
        }
        "exit"
    });
    case(c, "a panic nobody catches", &[("a", "u8")], "
        fn f() { let d = D(1); boom(a!() < 10); print(50); } fn main() { let d = D(2); f(); print(51); }", |v, l| {
        if lt(v[0], 10) {
            // std may or may not unwind then; the translation of `main` is called by nobody
            l.ps(&[1, 2]);
            "abort"
        } else {
            l.ps(&[50, 1, 51, 2]);
            "exit"
        }
    });
    case_(c, "abort instead of unwinding", "-C panic=abort", &[("a", "u8"), ("k", "u8")], "
        fn f(_: *mut u8) { let d = D(1); match k!() { 0 => boom(a!() < 10), 1 => print(a!() - 10), 2 => print([1u8; 4][a!() as usize]), _ => print(100 / a!()) } print(50); } fn main() { let d = D(2); print(attempt(f)); print(51); }", |v, l| {
        let a = v[0];
        let (bad, val) = if is_eq(v[1], 0).decide() {
            (is_lt(a, 10), None)
        } else if is_eq(v[1], 1).decide() {
            (is_lt(a, 10), Some(a - 10))
        } else if is_eq(v[1], 2).decide() {
            (is_le(4, a), Some(int(1)))
        } else {
            (is_eq(a, 0), Some(int(100) / a.max_(1)))
        };
        if bad.decide() {
            return "abort";
        }
        if let Some(v) = val {
            l.p(v)
        }
        l.ps(&[50, 1, 0, 51, 2]);
        "exit"
    });
    case(c, "unwinding out of a C function", &[("a", "u8")], "
        extern \"C\" fn g() { boom(a!() < 10); print(50); } extern \"C-unwind\" fn h() { let d = D(2); boom(a!() < 20); print(51); } fn f(_: *mut u8) { let d = D(3); g(); h(); }
        fn main() { print(attempt(f)); }", |v, l| {
        if lt(v[0], 10) {
            return "abort";
        }
        l.p(50);
        if lt(v[0], 20) {
            l.ps(&[2, 3, 200, 1])
        } else {
            l.ps(&[51, 2, 3, 0])
        }
        "exit"
    });
    case(c, "unwinding through closures and trait objects", &[("a", "u8")], "
        trait T { fn m(&self, f: &dyn Fn(u8) -> u8) -> u8; } struct S(D); impl T for S { fn m(&self, f: &dyn Fn(u8) -> u8) -> u8 { let d = D(3); let r = f(self.0.0); print(60); r } }
        fn f(_: *mut u8) { let s = S(D(1)); let t: &dyn T = &s; let e = D(2); let r = t.m(&|x| { let y = D(4); boom(a!() < 10); x + e.0 }); print(r); }
        fn main() { print(attempt(f)); }", |v, l| {
        if lt(v[0], 10) {
            l.ps(&[4, 3, 2, 1, 200, 1])
        } else {
            l.ps(&[4, 60, 3, 3, 2, 1, 0])
        }
        "exit"
    });
    case(c, "cleanup sees the state at the panic", &[("a", "u8"), ("i", "u8")], "
        struct G<'a>(&'a mut u8, u8); impl<'a> Drop for G<'a> { fn drop(&mut self) { *self.0 = self.0.wrapping_add(self.1); } }
        fn f(d: *mut u8) { let r = unsafe { &mut *d }; let mut g = G(r, 1); g.1 = 2; *g.0 = a!(); boom(i!() < 10); g.1 = 5; boom(i!() < 20); std::mem::forget(g); }
        fn main() { let mut x = 0u8; print(unsafe { core::intrinsics::catch_unwind(f, &mut x, caught) }); print(x); }", |v, l| {
        let w = |x| wrap(x, int_type("u8"));
        if lt(v[1], 10) {
            l.ps(&[200, 1]);
            l.p(w(v[0] + 3));
        } else if lt(v[1], 20) {
            l.ps(&[200, 1]);
            l.p(w(v[0] + 6));
        } else {
            l.p(0);
            l.p(v[0]);
        }
        "exit"
    });
    case(c, "a loop that panics", &[("n", "u8")], "
        fn f(_: *mut u8) { let d = D(9); for i in 0..3u8 { let x = D(i); if i == n!() { panic!(); } print(50 + i); } }
        fn main() { print(attempt(f)); print(attempt(f)); }", |v, l| {
        for _ in 0..2 {
            let k = (0..3).find(|k| is_eq(v[0], *k).decide());
            for i in 0..3 {
                if k == Some(i) {
                    l.p(int(i));
                    break;
                }
                l.p(int(50 + i));
                l.p(int(i));
            }
            l.p(9);
            if k.is_some() {
                l.ps(&[200, 1])
            } else {
                l.p(0)
            }
        }
        "exit"
    });
}

fn pow2_small(x: Int) -> Int {
    (0..8).fold(int(0), |s, k| ite(is_eq(x, k), int(1 << k), s))
}
trait MaxInt {
    fn max_(self, n: i128) -> Int;
}
impl MaxInt for Int {
    fn max_(self, n: i128) -> Int {
        ite(is_lt(self, n), int(n), self)
    }
}
