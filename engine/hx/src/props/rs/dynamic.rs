//! Trait objects, vtables, static dispatch.
use crate::kit::*;
use crate::rust::*;
use crate::*;

const SHAPE: &str = "
    trait Shape { fn area(&self) -> u32; fn grow(&mut self, k: u32) -> u32; fn name(&self) -> u8 { 7 } fn twice(&self) -> u32 { self.area() * 2 } }
    struct Sq(u32); struct Rect { w: u16, h: u32, pad: u64 } struct Unit;
    impl Shape for Sq { fn area(&self) -> u32 { self.0 } fn grow(&mut self, k: u32) -> u32 { self.0 += k; self.0 } }
    impl Shape for Rect { fn area(&self) -> u32 { self.w as u32 + self.h } fn grow(&mut self, k: u32) -> u32 { self.h += k; self.w = 1; self.h } fn name(&self) -> u8 { 8 } }
    impl Shape for Unit { fn area(&self) -> u32 { 3 } fn grow(&mut self, k: u32) -> u32 { k } fn twice(&self) -> u32 { 99 } }
";
fn k(v: Int, n: i128) -> bool {
    is_eq(v, n).decide()
}

pub fn objects(c: &mut Cases) {
    c.rust("dispatch", &[("s", "u8"), ("a", "u16"), ("g", "u8")], &format!("{SHAPE}
        fn pick<'a>(x: &'a mut Sq, y: &'a mut Rect, z: &'a mut Unit) -> &'a mut dyn Shape {{ match s!() {{ 0 => x, 1 => y, _ => z }} }}
        fn main() {{ let (mut x, mut y, mut z) = (Sq(a!() as u32), Rect {{ w: a!(), h: 5, pad: 0 }}, Unit); let d = pick(&mut x, &mut y, &mut z); print(d.area()); print(d.name()); print(d.twice()); print(d.grow(g!() as u32)); print(d.area()); print(x.0); print(y.h); print(y.w); }}"), |r| {
        let (a, g) = (r.v[1], r.v[2]);
        if k(r.v[0], 0) {
            r.prints(&[a, int(7), a * 2, a + g, a + g, a + g, int(5), a])
        } else if k(r.v[0], 1) {
            r.prints(&[a + 5, int(8), a * 2 + 10, g + 5, g + 6, a, g + 5, int(1)])
        } else {
            r.prints(&[int(3), int(7), int(99), g, int(3), a, int(5), a])
        }
    });
    c.rust("many objects", &[("a", "u32"), ("i", "usize")], &format!("{SHAPE}
        fn sum(v: &[&dyn Shape]) -> u32 {{ let mut s = 0u32; for d in v {{ s = s.wrapping_add(d.twice() / 2).wrapping_add(d.name() as u32); }} s }}
        fn main() {{ let (x, y) = (Sq(a!() % 1000), Rect {{ w: 2, h: a!() % 1000, pad: 0 }}); let v: [&dyn Shape; 3] = [&x, &y, &Unit]; print(v[i!() % 3].area()); print(sum(&v)); print(sum(&v[1..])); let w = &v[0]; print(w.area()); struct H<'a> {{ d: &'a dyn Shape, n: u8 }} let h = H {{ d: v[1], n: 1 }}; print(h.d.area()); let o: Option<&dyn Shape> = if a!() > 5 {{ Some(h.d) }} else {{ None }}; print(match o {{ Some(d) => d.area(), None => 0 }}); print(std::mem::size_of_val(&o)); }}"), |r| {
        let (a, i) = (r.v[0] % int(1000), r.v[1] % int(3));
        r.prints(&[ite(is_eq(i, 0), a, ite(is_eq(i, 1), a + 2, 3)), a * 2 + 2 + 49 + 22, a + 2 + 49 + 15, a, a + 2, ite(is_lt(5, r.v[0]), a + 2, 0), int(16)])
    });
    c.rust("size and alignment of an object", &[("s", "u8")], "
        trait T { fn f(&self) {} } #[repr(align(32))] struct A([u8; 40]); impl T for u8 {} impl T for u64 {} impl T for A {} impl T for () {} impl T for [u16; 5] {}
        fn main() { let (a, b, x, u, v) = (1u8, 2u64, A([0; 40]), (), [1u16; 5]); let d: &dyn T = match s!() { 0 => &a, 1 => &b, 2 => &x, 3 => &u, _ => &v }; print(std::mem::size_of_val(d)); print(std::mem::align_of_val(d)); print(std::mem::size_of::<&dyn T>()); }", |r| {
        let p = |s: &[i128]| ite(k_(r.v[0], 0), s[0], ite(k_(r.v[0], 1), s[1], ite(k_(r.v[0], 2), s[2], ite(k_(r.v[0], 3), s[3], s[4]))));
        r.prints(&[p(&[1, 8, 64, 0, 10]), p(&[1, 8, 32, 1, 2]), int(16)])
    });
    c.rust("dropping an object", &[("s", "u8")], "
        struct D(u8); impl Drop for D { fn drop(&mut self) { print(self.0); } } trait T { fn g(&self) -> u8; fn f(&self) {} } impl T for D { fn g(&self) -> u8 { self.0 } } impl T for u8 { fn g(&self) -> u8 { 50 } } struct P { d: D, x: u64, e: D } impl T for P { fn g(&self) -> u8 { 60 } }
        fn main() { unsafe { let (d, x, p) = (std::mem::ManuallyDrop::new(D(1)), 2u8, std::mem::ManuallyDrop::new(P { d: D(3), x: 0, e: D(4) })); let q: *const dyn T = match s!() { 0 => &raw const *d, 1 => &raw const x, _ => &raw const *p }; print((*q).g()); std::ptr::drop_in_place(q as *mut dyn T); print(90); } }", |r| {
        if k(r.v[0], 0) { r.prints(&[int(1), int(1), int(90)]) } else if k(r.v[0], 1) { r.prints(&[int(50), int(90)]) } else { r.prints(&[int(60), int(3), int(4), int(90)]) }
    });
    c.rust("dropping an object without methods", &[("s", "u8")], "
        struct D(u8); impl Drop for D { fn drop(&mut self) { print(self.0); } }
        fn main() { unsafe { let (d, x) = (std::mem::ManuallyDrop::new(D(1)), 2u8); let q: *mut (dyn Send) = match s!() { 0 => &raw const *d as *mut D, _ => &raw const x as *mut u8 }; print(std::mem::size_of_val(&*q)); std::ptr::drop_in_place(q); print(90); } }", |r| {
        if k(r.v[0], 0) { r.prints(&[int(1), int(1), int(90)]) } else { r.prints(&[int(1), int(90)]) }
    });
    c.rust("supertraits", &[("s", "u8"), ("a", "u8")], "
        trait A { fn a(&self) -> u8; fn aa(&self) -> u8 { 10 } } trait B { fn b(&self) -> u8; } trait C: A + B { fn c(&self) -> u8; fn d(&self) -> u8 { self.a() / 2 + self.b() / 2 } }
        struct X(u8); struct Y(u8, u8); impl A for X { fn a(&self) -> u8 { self.0 } } impl B for X { fn b(&self) -> u8 { 1 } } impl C for X { fn c(&self) -> u8 { 2 } } impl A for Y { fn a(&self) -> u8 { self.1 } fn aa(&self) -> u8 { 11 } } impl B for Y { fn b(&self) -> u8 { 3 } } impl C for Y { fn c(&self) -> u8 { 4 } fn d(&self) -> u8 { 5 } }
        fn st<T: C + ?Sized>(t: &T) -> u8 { t.b() } fn main() { let (x, y) = (X(a!()), Y(0, a!())); let d: &dyn C = if s!() == 0 { &x } else { &y }; print(d.a()); print(d.aa()); print(d.b()); print(d.c()); print(d.d()); print(st(d)); print(st(&x)); }", |r| {
        let a = r.v[1];
        if k(r.v[0], 0) { r.prints(&[a, int(10), int(1), int(2), a / int(2), int(1), int(1)]) } else { r.prints(&[a, int(11), int(3), int(4), int(5), int(3), int(1)]) }
    });
    c.rust("closures as objects", &[("s", "u8"), ("a", "u8")], "
        fn app(f: &dyn Fn(u8) -> u8, x: u8) -> u8 { f(x) } fn appm(f: &mut dyn FnMut(u8), n: u8) { for i in 0..n { f(i); } }
        fn main() { let k = a!(); let f = |x: u8| x ^ k; let g = |x: u8| x; let d: &dyn Fn(u8) -> u8 = if s!() == 0 { &f } else { &g }; print(app(d, 0)); print(d(k)); let mut n = 0u32; let mut h = |x: u8| n += x as u32 + k as u32; appm(&mut h, 3); print(n); print(app(&u8::reverse_bits_no, 3)); } trait R { fn reverse_bits_no(self) -> u8; } impl R for u8 { fn reverse_bits_no(self) -> u8 { self + 1 } }", |r| {
        let a = r.v[1];
        if k(r.v[0], 0) { r.prints(&[a, int(0), a * 3 + 3, int(4)]) } else { r.prints(&[int(0), a, a * 3 + 3, int(4)]) }
    });
    c.rust("generic traits as objects", &[("a", "u8"), ("b", "u32")], "
        trait G<T> { fn g(&self, t: T) -> T; fn n(&self) -> u8 where Self: Sized { 1 } } struct S(u8); impl G<u8> for S { fn g(&self, t: u8) -> u8 { t / 2 } } impl G<u32> for S { fn g(&self, t: u32) -> u32 { t / 3 } }
        trait As { type O; const K: u8; fn mk(&self) -> Self::O; } impl As for S { type O = (u8, bool); const K: u8 = 5; fn mk(&self) -> (u8, bool) { (self.0, true) } } fn us<X: As<O = (u8, bool)>>(x: &X) -> u8 { x.mk().0 / X::K }
        fn main() { let s = S(a!()); let (x, y): (&dyn G<u8>, &dyn G<u32>) = (&s, &s); print(x.g(a!())); print(y.g(b!())); print(G::<u8>::n(&s)); print(us(&s)); }", |r| {
        let (a, b) = (r.v[0], r.v[1]);
        r.prints(&[a / int(2), b / int(3), int(1), a / int(5)])
    });
    c.rust("vtables have to match", &[("s", "u8")], "
        trait T { fn f(&self) -> u8; } trait U { fn f(&self) -> u8; } impl T for u8 { fn f(&self) -> u8 { *self } } impl T for u16 { fn f(&self) -> u8 { 1 } } impl U for u8 { fn f(&self) -> u8 { 3 } }
        fn main() { unsafe { let (a, b) = (5u8, 6u16); let (t, t2, u): (&dyn T, &dyn T, &dyn U) = (&a, &b, &a); let p: [*const (); 2] = std::mem::transmute(t); let q: [*const (); 2] = std::mem::transmute(u); let p2: [*const (); 2] = std::mem::transmute(t2);
        let x = match s!() { 0 => [p[0], p[1]], 1 => [p[0], q[1]], 2 => [p[0], std::ptr::null()], 3 => [p[0], p[0]], 4 => [std::ptr::null(), p[1]], 5 => [p2[0], p[1]], 6 => [p[0], p[1].wrapping_byte_add(1)], _ => [p[0], std::ptr::without_provenance(p[1].addr())] }; print(100); let r: &dyn T = std::mem::transmute(x); print(101); print(r.f()); } }", |r| {
        let s = r.v[0];
        let ok = is_eq(s, 0) | is_eq(s, 5);
        // whether a vtable pointer needs provenance is not specified here
        if is_le(7, s).decide() {
            return;
        }
        r.ends_iff("ub", !ok, &[int(100)], &[int(101), ite(is_eq(s, 0), 5, 6)])
    });
    c.rust("reference to an object", &[("o", "usize"), ("s", "u8")], "
        trait T { fn f(&self) -> u64 { 1 } } impl T for u8 {} impl T for u64 {} #[repr(align(8))] struct A([u8; 16]); impl T for A {}
        fn main() { unsafe { let a = A([1; 16]); let d: &dyn T = if s!() == 0 { &1u8 } else { &2u64 }; let q: [*const (); 2] = std::mem::transmute(d); let vt = q[1]; let p = (&raw const a as *const u8).wrapping_add(o!()); print(100); let r: &dyn T = std::mem::transmute((p, vt)); print(101); print(std::mem::size_of_val(r)); } }", |r| {
        let (o, s) = (r.v[0], r.v[1]);
        let small = is_eq(s, 0);
        let ok = (small.clone() & is_lt(o, 16)) | (!small.clone() & (is_eq(o, 0) | is_eq(o, 8)));
        r.ends_iff("ub", !ok, &[int(100)], &[int(101), ite(small, 1, 8)])
    });
}
fn k_(v: Int, n: i128) -> B {
    is_eq(v, n)
}

pub fn statics(c: &mut Cases) {
    c.rust("operator traits", &[("a", "u8"), ("b", "u8")], "
        use std::ops::*; #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Default)] struct V { x: u16, y: u16 }
        impl Add for V { type Output = V; fn add(self, o: V) -> V { V { x: self.x + o.x, y: self.y + o.y } } } impl Mul<u16> for V { type Output = V; fn mul(self, k: u16) -> V { V { x: self.x * k, y: self.y * k } } } impl Neg for V { type Output = V; fn neg(self) -> V { V { x: self.y, y: self.x } } } impl AddAssign<u16> for V { fn add_assign(&mut self, k: u16) { self.x += k; } } impl Index<u8> for V { type Output = u16; fn index(&self, i: u8) -> &u16 { if i == 0 { &self.x } else { &self.y } } } impl IndexMut<u8> for V { fn index_mut(&mut self, i: u8) -> &mut u16 { if i == 0 { &mut self.x } else { &mut self.y } } } impl Deref for W { type Target = V; fn deref(&self) -> &V { &self.0 } } struct W(V); impl From<u8> for V { fn from(x: u8) -> V { V { x: x as u16, y: 1 } } }
        fn main() { let (a, b) = (V { x: a!() as u16, y: b!() as u16 }, V::default()); let mut d = (a + a) * 2; print(d.x); d += 3; print(d[0]); d[1] = 7; print((-d).x); print(a == b); print(a < d); print(a.max(d) == d); print(W(a).y); let v: V = a!().into(); print(v.x + v.y); print(a.clone() == a); print(d != a); print(a.cmp(&d) as i8); }", |r| {
        let (a, b) = (r.v[0], r.v[1]);
        let d0 = a * 4 + 3;
        let e = is_eq(a, 0) & is_eq(b, 0);
        let l = is_lt(a, d0);
        r.prints(&[a * 4, d0, int(7), b2i(e), b2i(l.clone()), int(1), b, a + 1, int(1), int(1), ite(l, -1, 1)])
    });
    c.rust("iterators of one's own", &[("n", "u8")], "
        struct C(u8, u8); impl Iterator for C { type Item = u8; fn next(&mut self) -> Option<u8> { if self.0 < self.1 { self.0 += 1; Some(self.0 * self.0) } else { None } } }
        fn main() { let n = n!() % 4; let mut s = 0u32; for x in C(0, n) { s += x as u32; } print(s); let mut c = C(1, n); print(match c.next() { Some(x) => x as i32, None => -1 }); print(C(0, n).count()); print(match C(0, n).last() { Some(x) => x, None => 99 }); print(C(0, n).map(|x| x as u32 + 1).sum::<u32>()); }", |r| {
        let n = concrete_mod(r.v[0], int(4)).try_to_usize().unwrap() as i128;
        let s: i128 = (1..=n).map(|x| x * x).sum();
        r.prints(&[int(s), int(if n >= 2 { 4 } else { -1 }), int(n), int(if n > 0 { n * n } else { 99 }), int(s + n)])
    });
    c.rust("generic code is instantiated", &[("a", "u8"), ("b", "u64")], "
        trait Z { const N: usize; fn z(x: u64) -> Self; fn w(&self) -> u64; } impl Z for u8 { const N: usize = 1; fn z(x: u64) -> u8 { x as u8 } fn w(&self) -> u64 { *self as u64 } } impl Z for u16 { const N: usize = 2; fn z(x: u64) -> u16 { x as u16 } fn w(&self) -> u64 { *self as u64 } } impl<T: Z, const K: usize> Z for [T; K] { const N: usize = T::N * K; fn z(x: u64) -> Self { std::array::from_fn_no(x) } fn w(&self) -> u64 { self[K - 1].w() } } impl<T: Z, U: Z> Z for (T, U) { const N: usize = T::N + U::N; fn z(x: u64) -> Self { (T::z(x), U::z(x / 256)) } fn w(&self) -> u64 { self.0.w() + self.1.w() } }
        fn go<T: Z>(x: u64) -> u64 { let t = T::z(x); t.w() } fn main() { print(go::<u8>(b!())); print(go::<u16>(b!())); print(go::<(u8, u16)>(b!())); print(<((u8, u16), u16) as Z>::N); print(std::mem::size_of::<((u8, u16), u16)>()); }".replace("impl<T: Z, const K: usize> Z for [T; K] { const N: usize = T::N * K; fn z(x: u64) -> Self { std::array::from_fn_no(x) } fn w(&self) -> u64 { self[K - 1].w() } }", "").as_str(), |r| {
        let b = r.v[1];
        let m = |x: Int, t: &str| wrap(x, int_type(t));
        r.prints(&[m(b, "u8"), m(b, "u16"), m(b, "u8") + m(b / int(256), "u16"), int(5), int(6)])
    });
}
