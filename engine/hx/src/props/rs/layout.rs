//! Layout of types, transmutes, unions, padding.
use crate::kit::*;
use crate::rust::*;
use crate::*;

fn bytes(x: Int, n: u64) -> Vec<Int> {
    (0..n).map(|i| byte_of(x, i)).collect()
}
fn u(x: Int, t: &str) -> Int {
    wrap(x, int_type(t))
}

pub fn sizes(c: &mut Cases) {
    c.rust("size of values", &[("n", "u8"), ("s", "u8")], "
        use std::mem::*; trait T {} impl T for u8 {} impl T for [u16; 3] {} impl T for (u8, u64) {} #[repr(align(32))] struct A(u8); impl T for A {} struct Z; impl T for Z {}
        fn main() { let v = [1u32, 2, 3, 4, 5, 6]; let n = (n!() % 7) as usize; let s = &v[..n]; print(size_of_val(s)); print(align_of_val(s)); let t = &\"hello\"[..5]; print(size_of_val(t)); print(align_of_val(t));
            let (a, b, d, e, z) = (1u8, [1u16, 2, 3], (1u8, 2u64), A(0), Z); let x: &dyn T = match s!() { 0 => &a, 1 => &b, 2 => &d, 3 => &e, _ => &z }; print(size_of_val(x)); print(align_of_val(x)); let w = [[1u16, 2, 3]; 4]; print(size_of_val(&w[..n % 5])); print(align_of_val(&w[..0])); print(size_of_val(&v)); print(align_of_val(&d)); print(size_of_val(&z)); }", |r| {
        let (n, s) = (r.v[0] % int(7), r.v[1]);
        let e = |k: i128| is_eq(s, k);
        r.prints(&[n * 4, int(4), int(5), int(1), ite(e(0), 1, ite(e(1), 6, ite(e(2), 16, ite(e(3), 32, 0)))), ite(e(0), 1, ite(e(1), 2, ite(e(2), 8, ite(e(3), 32, 1)))), (n % int(5)) * 6, int(2), int(24), int(8), int(0)])
    });
    c.rust_with("locals are aligned", Opts { symbolic_addresses: true, ..Default::default() }, &[], " fn ad<X>(x: &X) -> usize { x as *const X as usize } fn main() { let x = 2u64; print(ad(&x) % 8); print(ad(&x) == 0); }", |r| {
        let z = int(0);
        r.prints(&[z, z])
    }).thorough_only();
    c.rust_with("overaligned locals are aligned", Opts { symbolic_addresses: true, ..Default::default() }, &[], "#[repr(align(64))] struct A(u8); #[repr(C)] struct P { a: u8, b: A, c: u16 } fn ad<X>(x: &X) -> usize { x as *const X as usize } fn main() { let z = P { a: 1, b: A(2), c: 3 }; print(ad(&z.b) % 64); print(ad(&z.c) - ad(&z)); }", |r| {
        let z = int(0);
        r.prints(&[z, int(128)])
    }).thorough_only();
    c.rust_with("statics are aligned", Opts { symbolic_addresses: true, ..Default::default() }, &[], "#[repr(align(64))] struct A(u8); static S: u64 = 3; static T: A = A(1); fn ad<X>(x: &X) -> usize { x as *const X as usize } fn main() { print(ad(&S) % 8); print(ad(&T) % 64); }", |r| {
        let z = int(0);
        r.prints(&[z, z])
    }).thorough_only();
    c.rust("field offsets", &[("a", "u8"), ("b", "u32"), ("d", "u16"), ("e", "u64")], "
        #[repr(C)] struct C { a: u8, b: u32, d: u16, e: u64, f: u8 } #[repr(C, packed)] struct K { a: u8, b: u32, d: u16, e: u64 } #[repr(C, packed(2))] struct K2 { a: u8, b: u32, d: u16, e: u64 }
        unsafe fn rd<T: Copy>(p: *const u8, o: usize) -> T { *(p.add(o) as *const T) }
        fn main() { unsafe { let c = C { a: a!(), b: b!(), d: d!(), e: e!(), f: 9 }; let p = &raw const c as *const u8; print(rd::<u8>(p, 0)); print(rd::<u32>(p, 4)); print(rd::<u16>(p, 8)); print(rd::<u64>(p, 16)); print(rd::<u8>(p, 24)); print(std::mem::size_of_val(&c));
            let k = K { a: a!(), b: b!(), d: d!(), e: e!() }; let p = &raw const k as *const u8; let mut i = 0; while i < 15 { print(*p.add(i)); i += 1; } let k = K2 { a: a!(), b: b!(), d: d!(), e: e!() }; let p = &raw const k as *const u8; print(rd::<u16>(p, 2)); print(rd::<u16>(p, 6)); print(rd::<u16>(p, 8)); print(rd::<u16>(p, 14)); let q = (k.b, k.e); print(q.0); print(q.1); print(std::mem::size_of_val(&k)); } }", |r| {
        let (a, b, d, e) = (r.v[0], r.v[1], r.v[2], r.v[3]);
        let mut o = vec![a, b, d, e, int(9), int(32), a];
        o.extend(bytes(b, 4));
        o.extend(bytes(d, 2));
        o.extend(bytes(e, 8));
        o.extend([b % int(65536), d, e % int(65536), byte_of(e, 6) + byte_of(e, 7) * 256, b, e, int(16)]);
        r.prints(&o)
    });
    c.rust("array strides", &[("i", "usize"), ("j", "usize"), ("x", "u16")], "
        #[repr(C)] #[derive(Clone, Copy)] struct E { a: u32, b: u16 } fn main() { let mut v = [[E { a: 1, b: 2 }; 3]; 2]; let (i, j) = (i!() % 2, j!() % 3); v[i][j].b = x!(); let p = &raw const v as *const u8; let o = (&raw const v[i][j]) as usize - p as usize; print(o); unsafe { print(*(p.add(i * 24 + j * 8 + 4) as *const u16)); } let mut s = 0; let mut k = 0; while k < 6 { s += v[k / 3][k % 3].b as u32; k += 1; } print(s); let z = [(); 5]; print(&raw const z[4] as usize - &raw const z as usize); print(z.len()); }", |r| {
        let (i, j, x) = (r.v[0] % int(2), r.v[1] % int(3), r.v[2]);
        r.prints(&[i * 24 + j * 8, x, x + 10, int(0), int(5)])
    });
}

pub fn cases(c: &mut Cases) {
    c.rust("transmute integers", &[("a", "u32"), ("b", "i64"), ("d", "u16")], "
        use std::mem::transmute as t; fn main() { unsafe { let v: [u8; 4] = t(a!()); print(v[0]); print(v[1]); print(v[2]); print(v[3]); print(t::<_, u32>(v)); print(t::<_, i32>(a!())); let h: [u32; 2] = t(b!()); print(h[0]); print(h[1]); print(t::<[u16; 2], u32>([d!(), 7])); let x: (u8, [u8; 1]) = t(d!().to_le_bytes()); print(t::<_, i8>(d!() as u8)); print(u64::from_le_bytes([v[0], v[1], 0, 0, v[2], v[3], 0, 1])); print(a!().to_le_bytes()[3]); } }", |r| {
        let (a, b, d) = (r.v[0], r.v[1], r.v[2]);
        let bu = u(b, "u64");
        let v = bytes(a, 4);
        let p32 = pow2(int(32));
        let h1 = (0..4).fold(int(0), |s, i| s + byte_of(b, 4 + i) * pow2(Int::from(8 * i)));
        r.prints(&[v[0], v[1], v[2], v[3], a, u(a, "i32"), bu % p32, h1, d + int(7 * 65536), u(d, "i8"), v[0] + v[1] * 256 + v[2] * p32 + v[3] * pow2(int(40)) + pow2(int(56)), v[3]])
    });
    c.rust("bytes into a bool", &[("x", "u8")], "fn main() { print(1); let b: bool = unsafe { std::mem::transmute(x!()) }; print(b); if b { print(2) } else { print(3) } print(b as i32 + 5); print(!b); }", |r| {
        let x = r.v[0];
        r.ends_iff("ub", is_lt(1, x), &[int(1)], &[x, int(3) - x, x + 5, int(1) - x])
    });
    c.rust("bool read from memory", &[("x", "u8"), ("s", "u8")], "fn main() { let mut b = true; unsafe { *(&raw mut b as *mut u8) = x!(); } print(1); let v = [b]; print(v[0]); let t: (u8, bool) = (1, b); print(t.1); }", |r| {
        let x = r.v[0];
        r.ends_iff("ub", is_lt(1, x), &[int(1)], &[x, x])
    });
    c.rust("struct of bools from bytes", &[("x", "u32")], "#[repr(C)] struct B { a: bool, b: u8, c: [bool; 2] } fn main() { print(1); let b: B = unsafe { std::mem::transmute(x!()) }; print(b.a); print(b.b); print(b.c[0]); print(b.c[1]); }", |r| {
        let v = bytes(r.v[0], 4);
        r.ends_iff("ub", is_lt(1, v[0]) | is_lt(1, v[2]) | is_lt(1, v[3]), &[int(1)], &[v[0], v[1], v[2], v[3]])
    });
    c.rust("unions", &[("a", "u32"), ("d", "u16")], "
        #[repr(C)] #[derive(Clone, Copy)] union U { a: u32, b: [u8; 4], d: u16, p: (), f: bool } fn main() { unsafe { let mut x = U { a: a!() }; print(x.a); print(x.b[0]); print(x.b[3]); print(x.d); x.d = d!(); print(x.a); let y = x; print(y.a); x.b[3] = 1; print(x.a / 16777216); print(y.b[3]); let z = U { d: d!() }; print(z.d); print(100); print(z.b[2]); } }", |r| {
        let (a, d) = (r.v[0], r.v[1]);
        let hi = byte_of(a, 2) * 65536 + byte_of(a, 3) * 16777216;
        r.ends("ub", &[a, byte_of(a, 0), byte_of(a, 3), byte_of(a, 0) + byte_of(a, 1) * 256, d + hi, d + hi, int(1), byte_of(a, 3), d, int(100)])
    });
    // A copy at a type loses the padding and nothing else.
    c.rust("padding is lost in a copy", &[("i", "usize"), ("x", "u64")], "
        #[repr(C)] #[derive(Clone, Copy)] struct S { a: u8, b: u16, c: u8, d: u16 } fn main() { unsafe { let raw: [u8; 8] = x!().to_le_bytes(); let s = *(&raw const x as *const S); let p = &raw const s as *const u8; let i = i!() % 8; print(1); print(*p.add(i)); } }".replace("&raw const x as *const S", "(&raw const buf.0) as *const S").replace("let raw: [u8; 8] = x!().to_le_bytes();", "#[repr(align(8))] struct Al([u8; 8]); let buf = Al(x!().to_le_bytes());").as_str(), |r| {
        let i = r.v[0] % int(8);
        let x = r.v[1];
        let e = |k: i128| is_eq(i, k);
        let b = (0..8).fold(int(0), |s, k| ite(e(k as i128), byte_of(x, k), s));
        r.ends_iff("ub", e(1) | e(5), &[int(1)], &[b])
    });
    c.rust("unions keep what any field needs", &[("i", "usize"), ("x", "u64")], "
        #[repr(C)] #[derive(Clone, Copy)] struct S(u8, u32); #[repr(C)] #[derive(Clone, Copy)] struct T(u16, u16); #[derive(Clone, Copy)] #[repr(C)] union U { s: S, t: T } #[repr(C, align(8))] struct Al([u8; 8]);
        fn main() { unsafe { let buf = Al(x!().to_le_bytes()); let u = *(&raw const buf as *const U); let p = &raw const u as *const u8; print(1); print(*p.add(i!() % 8)); } }", |r| {
        let i = r.v[0] % int(8);
        let x = r.v[1];
        let b = (0..8).fold(int(0), |s, k| ite(is_eq(i, k as i128), byte_of(x, k), s));
        r.prints(&[int(1), b])
    });
    c.rust("a union with a gap", &[("i", "usize"), ("x", "u64")], "
        #[repr(C)] #[derive(Clone, Copy)] struct S(u8, u16); #[derive(Clone, Copy)] #[repr(C)] union U { s: [S; 2], t: bool, o: Option<()> , e: () } #[repr(C, align(8))] struct Al([u8; 8]);
        fn main() { unsafe { let buf = Al(x!().to_le_bytes()); let u = *(&raw const buf as *const U); let p = &raw const u as *const u8; print(1); print(*p.add(i!() % 8)); } }", |r| {
        let i = r.v[0] % int(8);
        let x = r.v[1];
        let b = (0..8).fold(int(0), |s, k| ite(is_eq(i, k as i128), byte_of(x, k), s));
        r.ends_iff("ub", is_eq(i, 1) | is_eq(i, 5), &[int(1)], &[b])
    });
    // Enums: which bytes survive a copy depends on the variant.
    c.rust("bytes of an enum", &[("s", "u8"), ("i", "usize"), ("a", "u32")], "
        #[repr(C, u8)] #[derive(Clone, Copy)] enum E { A(u32) = 3, B(u8) = 5, C = 250 } fn main() { let e = match s!() { 0 => E::A(a!()), 1 => E::B(6), _ => E::C }; let f = e; let p = &raw const f as *const u8; print(std::mem::size_of_val(&f)); unsafe { print(*p); print(*p.add(i!() % 8)); } }", |r| {
        let (s, i, a) = (r.v[0], r.v[1] % int(8), r.v[2]);
        let tag = ite(is_eq(s, 0), 3, ite(is_eq(s, 1), 5, 250));
        let ok = is_eq(i, 0) | (is_eq(s, 0) & is_le(4, i)) | (is_eq(s, 1) & is_eq(i, 4));
        let d = (0..4).fold(int(6), |x, k| ite(is_eq(i, k as i128 + 4) & is_eq(s, 0), byte_of(a, k), x));
        r.ends_iff("ub", !ok, &[int(8), tag], &[ite(is_eq(i, 0), tag, d)])
    });
    c.rust("uninitialized memory", &[("s", "u8"), ("i", "usize"), ("x", "u16")], "
        use std::mem::MaybeUninit; fn main() { unsafe { let mut m = MaybeUninit::<[u16; 4]>::uninit(); let p = m.as_mut_ptr() as *mut u16; let i = i!() % 4; *p.add(i) = x!(); print(*p.add(i)); *p.add(0) = 1; *p.add(1) = 2; if s!() != 0 { *p.add(2) = 3; } print(4); print(*p.add(2)); if s!() > 1 { *p.add(3) = 5; } let a = m.assume_init(); print(a[0]); print(a[3]); } }", |r| {
        let (s, i, x) = (r.v[0], r.v[1] % int(4), r.v[2]);
        let e = |k: i128| is_eq(i, k);
        let has2 = !is_eq(s, 0) | e(2);
        let has3 = is_lt(1, s) | e(3);
        let v2 = ite(is_eq(s, 0), x, 3);
        if r.end.is_ub() && r.out.len() == 2 {
            check(!has2, "third missing");
            r.ends("ub", &[x, int(4)])
        } else {
            check(has2, "third there");
            r.ends_iff("ub", !has3, &[x, int(4), v2], &[int(1), ite(is_lt(1, s), 5, x)])
        }
    });
    c.rust("struct assignment", &[("a", "u8"), ("b", "u64"), ("i", "u8")], "
        #[derive(Clone, Copy)] struct I { p: u8, q: (u64, u8) } struct O { x: I, y: [I; 2], z: u8 }
        fn main() { let i = I { p: a!(), q: (b!(), 3) }; let mut o = O { x: i, y: [i, I { p: 9, q: (8, 7) }], z: 5 }; o.y[(i!() % 2) as usize].q.0 = 77; o.x.q.1 = o.z; let O { x, y: yy, .. } = o; print(x.p); print(x.q.0); print(x.q.1); print(yy[0].q.0); print(yy[1].q.0); print(yy[1].p); let t = (x, 4u16); let ((I { q: (b, _), .. }), f) = t; print(b); print(f); let u = I { p: 200, ..x }; print(u.p); print(u.q.0); }", |r| {
        let (a, b, i) = (r.v[0], r.v[1], r.v[2] % int(2));
        let z = is_eq(i, 0);
        r.prints(&[a, b, int(5), ite(z, 77, b), ite(z, 8, 77), int(9), b, int(4), int(200), b])
    });
    c.rust("byte order of 128 bits", &[("a", "u64"), ("b", "u64")], "fn main() { let x = (a!() as u128) << 64 | b!() as u128; let v: [u64; 2] = unsafe { std::mem::transmute(x) }; print(v[0]); print(v[1]); let y = x as i128; print((y >> 64) as i64); print(std::mem::align_of_val(&x)); }", |r| {
        let (a, b) = (r.v[0], r.v[1]);
        r.prints(&[b, a, u(a, "i64"), int(16)])
    });
}
