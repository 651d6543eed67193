//! Functions, closures, function pointers, generics.
use crate::kit::*;
use crate::rust::*;
use crate::*;

fn w(x: Int, t: &str) -> Int {
    wrap(x, int_type(t))
}

pub fn cases(c: &mut Cases) {
    c.rust("call arguments", &[("a", "u8"), ("b", "i16"), ("d", "u64"), ("e", "bool")], "
        fn f(a: u8, b: i16, c: u64, d: bool) -> u64 { print(a); print(b); print(c); print(d); if d { c } else { a as u64 } }
        fn g(x: [u8; 3], t: (i16, bool), u: ()) -> (bool, i16, u8) { (t.1, t.0, x[2]) }
        fn main() { print(f(a!(), b!(), d!(), e!())); let r = g([1, 2, a!()], (b!(), e!()), ()); print(r.0); print(r.1); print(r.2); }", |r| {
        let (a, b, d, e) = (r.v[0], r.v[1], r.v[2], r.v[3]);
        r.prints(&[a, b, d, e, ite(is_eq(e, 1), d, a), e, b, a])
    });
    c.rust("call leaves the caller's copy alone", &[("a", "u32"), ("b", "u32")], "
        #[derive(Clone, Copy)] struct P { x: u32, y: u32 }
        fn f(mut p: P) -> P { p.x = p.y; p.y = 7; p }
        fn g(mut x: u32) -> u32 { x = x.wrapping_add(1); x }
        struct M { x: u32, y: u32 }
        fn h(mut m: M) -> u32 { m.x = m.x ^ m.y; m.x }
        fn main() { let p = P { x: a!(), y: b!() }; let q = f(p); print(p.x); print(p.y); print(q.x); print(q.y);
            let x = a!(); print(g(x)); print(x); print(g(x)); let m = M { x: a!(), y: b!() }; print(h(m)); }", |r| {
        let (a, b) = (r.v[0], r.v[1]);
        let h = r.val(7);
        let x = w(a + 1, "u32");
        check(all((0..32).map(|i| is_eq(bit_of(h, i), ite(is_eq(bit_of(a, i), bit_of(b, i)), 0, 1)))), "xor");
        r.prints(&[a, b, b, int(7), x, a, x, h])
    });
    c.rust("mutable references as arguments", &[("a", "i32"), ("b", "i32")], "
        fn swap(x: &mut i32, y: &mut i32) { let t = *x; *x = *y; *y = t; }
        fn pick<'a>(c: bool, x: &'a mut i32, y: &'a mut i32) -> &'a mut i32 { if c { x } else { y } }
        fn main() { let (mut x, mut y) = (a!(), b!()); swap(&mut x, &mut y); print(x); print(y); *pick(a!() < b!(), &mut x, &mut y) = 5; print(x); print(y);
            let mut v = [a!(), b!(), 1]; fn set(v: &mut [i32], i: usize) { v[i] = 9; let n = v.len(); v[n - 1] += 1; } set(&mut v, 1); set(&mut v[..2], 0); print(v[0]); print(v[1]); print(v[2]); }", |r| {
        let (a, b) = (r.v[0], r.v[1]);
        let l = is_lt(a, b);
        r.prints(&[b, a, ite(l, 5, b), ite(l, a, 5), int(9), int(10), int(2)])
    });
    c.rust("function pointers", &[("s", "u8"), ("x", "u32")], "
        fn inc(x: u32) -> u32 { x.wrapping_add(1) } fn dbl(x: u32) -> u32 { x.wrapping_mul(2) } fn id<T>(x: T) -> T { x }
        fn twice(f: fn(u32) -> u32, x: u32) -> u32 { f(f(x)) }
        fn main() { let f: fn(u32) -> u32 = match s!() { 0 => inc, 1 => dbl, _ => id::<u32> }; print(f(x!())); print(twice(f, x!()));
            let t: [fn(u32) -> u32; 2] = [inc, dbl]; print(t[(s!() % 2) as usize](x!())); print(f == (inc as fn(u32) -> u32)); print(f == (dbl as fn(u32) -> u32)); }", |r| {
        let (s, x) = (r.v[0], r.v[1]);
        let (z, o) = (is_eq(s, 0), is_eq(s, 1));
        let ap = |x: Int| ite(z, w(x + 1, "u32"), ite(o, w(x * 2, "u32"), x));
        let odd = is_eq(s % int(2), 1);
        r.prints(&[ap(x), ap(ap(x)), ite(odd, w(x * 2, "u32"), w(x + 1, "u32")), b2i(z), b2i(o)])
    });
    c.rust("calling conventions", &[("x", "u32")], "
        extern \"C\" fn f(x: u32) -> u32 { x ^ 1 } fn g(x: u32) -> u32 { x | 1 } unsafe fn h(x: u32) -> u32 { x & 1 }
        fn main() { let p: extern \"C\" fn(u32) -> u32 = f; let q: fn(u32) -> u32 = g; let s: unsafe fn(u32) -> u32 = g; print(f(x!())); print(p(x!())); print(q(x!())); print(unsafe { s(x!()) }); print(unsafe { h(x!()) }); }", |r| {
        let x = r.v[0];
        let odd = x % int(2);
        let fx = x + 1 - odd * 2;
        let gx = x + 1 - odd;
        r.prints(&[fx, fx, gx, gx, odd])
    });
    // Called by the wrong type.
    for (n, from, to, call, ok) in [
        ("same", "fn(u32) -> u32", "fn(u32) -> u32", "f(x!())", true),
        ("signedness", "fn(u32) -> u32", "fn(i32) -> u32", "f(x!() as i32)", false),
        ("wider", "fn(u32) -> u32", "fn(u64) -> u32", "f(x!() as u64)", false),
        ("more", "fn(u32) -> u32", "fn(u32, u32) -> u32", "f(x!(), 1)", false),
        ("fewer", "fn(u32) -> u32", "fn() -> u32", "f() + x!()", false),
        ("convention", "fn(u32) -> u32", "extern \"C\" fn(u32) -> u32", "f(x!())", false),
        ("result", "fn(u32) -> u32", "fn(u32) -> i32", "f(x!())", false),
        ("result size", "fn(u32) -> u32", "fn(u32) -> [u32; 2]", "f(x!())[0]", false),
        ("newtype", "fn(u32) -> u32", "fn(W) -> u32", "f(W(x!()))", false),
    ] {
        c.rust(&format!("called by another type: {n}"), &[("x", "u32")], &format!("
            #[repr(C)] struct W(u32);
            fn id(x: u32) -> u32 {{ x }}
            fn main() {{ let f: {to} = unsafe {{ std::mem::transmute(id as {from}) }}; print(1); print({call}); }}"), move |r| {
            if ok { r.prints(&[int(1), r.v[0]]) } else { r.ends("ub", &[int(1)]) }
        });
    }
    c.rust("not a function", &[("x", "usize"), ("s", "u8")], "
        static D: u8 = 0; fn f() { print(2) } fn main() { let t = f as fn(); let p = match s!() { 0 => t as *const (), 1 => &D as *const u8 as *const (), 2 => (t as *const u8).wrapping_add(1) as *const (), _ => std::ptr::without_provenance(x!()) }; print(1); let g: fn() = unsafe { std::mem::transmute(p) }; g(); }", |r| {
        let (x, s) = (r.v[0], r.v[1]);
        if is_eq(s, 0).decide() { return r.prints(&[int(1), int(2)]) }
        let _ = x;
        r.ends("ub", &[int(1)])
    });
    c.rust("closures", &[("a", "i32"), ("b", "i32")], "
        fn ap<F: Fn(i32) -> i32>(f: F, x: i32) -> i32 { f(f(x)) } fn apm<F: FnMut(i32)>(mut f: F) { f(1); f(2); } fn apo<F: FnOnce() -> i32>(f: F) -> i32 { f() }
        fn main() { let k = a!(); print(ap(|x| x ^ k ^ 3, b!())); let mut s = 0i32; apm(|x| s += x); print(s); let mut t = b!(); { let mut g = || { t = t.wrapping_add(k); t }; g(); g(); } print(t); print(apo(move || k)); print(k);
            let two = |x: i32, y: i32| if x < y { x } else { y }; print(two(a!(), b!())); let nest = |x: i32| { let h = |y: i32| y.wrapping_sub(x); h(k) }; print(nest(b!())); let un = |(p, q): (i32, i32)| p.wrapping_mul(2).wrapping_add(q); print(un((3, k))); }", |r| {
        let (a, b) = (r.v[0], r.v[1]);
        let i = |x| w(x, "i32");
        r.prints(&[b, int(3), i(b + a * 2), a, a, ite(is_lt(a, b), a, b), i(a - b), i(a + 6)])
    });
    c.rust("closures that own", &[("a", "u16"), ("b", "u16")], "
        struct D(u16); impl Drop for D { fn drop(&mut self) { print(self.0) } }
        fn call(f: impl FnOnce() -> u16) { print(f()); print(1); }
        fn main() { let (x, y) = (D(a!()), D(b!())); call(move || { let x = x; x.0 }); print(2); let r = &y; call(|| r.0); print(3); let z = [a!(), b!()]; let mut f = move |i: usize| { let t = z[i]; t }; print(f(1)); print(f(0)); }", |r| {
        let (a, b) = (r.v[0], r.v[1]);
        let _ = (a, b);
        r.prints(&[a, a, int(1), int(2), b, int(1), int(3), b, a, b])
    });
    c.rust("generics", &[("a", "u8"), ("b", "i64")], "
        trait Sz { const N: usize; fn get(&self) -> i64; fn twice(&self) -> i64 { self.get().wrapping_mul(2) } }
        impl Sz for u8 { const N: usize = 1; fn get(&self) -> i64 { *self as i64 } } impl Sz for i64 { const N: usize = 8; fn get(&self) -> i64 { *self } fn twice(&self) -> i64 { 0 } }
        impl<A: Sz, B: Sz> Sz for (A, B) { const N: usize = A::N + B::N; fn get(&self) -> i64 { self.0.get() ^ self.1.get() ^ self.0.get() } }
        fn show<T: Sz>(x: &T) { print(T::N); print(x.get()); print(x.twice()); }
        struct V<T, const N: usize>([T; N]); impl<T: Copy, const N: usize> V<T, N> { fn last(&self) -> T { self.0[N - 1] } }
        fn main() { show(&a!()); show(&b!()); show(&(a!(), b!())); print(V([1, 2, a!()]).last()); print(V([b!()]).last()); }", |r| {
        let (a, b) = (r.v[0], r.v[1]);
        r.prints(&[int(1), a, a * 2, int(8), b, int(0), int(9), b, w(b * 2, "i64"), a, b])
    });
    c.rust("methods and references to self", &[("a", "u32"), ("b", "u32")], "
        struct C { n: u32, log: [u32; 4] } impl C { fn new(n: u32) -> C { C { n, log: [0; 4] } } fn add(&mut self, x: u32) -> &mut C { let i = self.n as usize % 4; self.log[i] = x; self.n = self.n.wrapping_add(1); self } fn done(self) -> (u32, [u32; 4]) { (self.n, self.log) } }
        fn main() { let mut c = C::new(a!()); c.add(b!()).add(7); let (n, l) = c.done(); print(n); print(l[0]); print(l[1]); print(l[2]); print(l[3]); }", |r| {
        let (a, b) = (r.v[0], r.v[1]);
        let m = a % int(4);
        let at = |i: i128| ite(is_eq(m, i), b, ite(is_eq((m + 1) % int(4), i), 7, 0));
        r.prints(&[w(a + 2, "u32"), at(0), at(1), at(2), at(3)])
    });
    c.rust("large values by copy", &[("a", "u64"), ("b", "u64"), ("i", "usize")], "
        #[derive(Clone, Copy)] struct L { v: [u64; 6], t: (u8, u64) }
        fn f(mut l: L, i: usize) -> L { if i < 6 { l.v[i] = 1; } l.t.1 = l.v[0]; l }
        fn main() { let l = L { v: [a!(), 2, 3, 4, 5, b!()], t: (8, 9) }; let m = f(l, i!()); let mut k = 0; while k < 6 { print(m.v[k]); k += 1; } print(m.t.0); print(m.t.1); print(l.v[0]); print(l.t.1); }", |r| {
        let (a, b, i) = (r.v[0], r.v[1], r.v[2]);
        let at = |k: i128, x: Int| ite(is_eq(i, k), 1, x);
        r.prints(&[at(0, a), at(1, int(2)), at(2, int(3)), at(3, int(4)), at(4, int(5)), at(5, b), int(8), at(0, a), a, int(9)])
    });
    c.rust("never returning", &[("a", "u8")], "
        fn die(x: u8) -> ! { print(x); exit(); loop {} } fn f(x: u8) -> u8 { if x > 9 { die(x) } else { x + 1 } } fn main() { print(f(a!())); print(200); let _ = f; }", |r| {
        let a = r.v[0];
        if r.out.len() == 1 {
            check(is_lt(9, a), "left early");
            r.prints(&[a])
        } else {
            check(is_le(a, 9), "went on");
            r.prints(&[a + 1, int(200)])
        }
    });
}
