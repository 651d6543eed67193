//! Raw pointers, references, memory.
use crate::kit::*;
use crate::rust::*;
use crate::*;

pub fn memory(c: &mut Cases) {
    c.rust("read within an array", &[("i", "isize"), ("x", "u16")], "fn main() { let v = [1u16, x!(), 3, 4]; let p = &raw const v as *const u16; print(100); print(unsafe { *p.wrapping_offset(i!()) }); }", |r| {
        let (i, x) = (r.v[0], r.v[1]);
        let e = |k: i128| is_eq(i, k);
        // wrapping around the address space counts, too
        let k = i.rem_euclid_(pow2(int(63)));
        r.ends_iff("ub", is_lt(3, k), &[int(100)], &[ite(is_eq(k, 0), 1, ite(is_eq(k, 1), x, ite(is_eq(k, 2), 3, 4)))]);
        let _ = e;
    });
    c.rust("write within an array", &[("i", "usize"), ("x", "u32")], "fn main() { let mut v = [1u32, 2, 3]; let g = [7u32; 2]; let p = &raw mut v as *mut u32; print(100); unsafe { *p.wrapping_add(i!()) = x!(); } print(v[0]); print(v[1]); print(v[2]); print(g[0]); }", |r| {
        let (i, x) = (r.v[0].rem_euclid_(pow2(int(62))), r.v[1]);
        let at = |k: i128, y: i128| ite(is_eq(i, k), x, y);
        r.ends_iff("ub", is_lt(2, i), &[int(100)], &[at(0, 1), at(1, 2), at(2, 3), int(7)])
    });
    c.rust("wide reads at any offset", &[("i", "usize"), ("x", "u64")], "#[repr(align(8))] struct A([u8; 12]); fn main() { let b = x!().to_le_bytes(); let a = A([b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7], 1, 2, 3, 4]); print(100); print(unsafe { *((&raw const a as *const u8).wrapping_add(i!()) as *const u32) }); }", |r| {
        let (i, x) = (r.v[0], r.v[1]);
        let lo = x % pow2(int(32));
        let hi = (0..4).fold(int(0), |s, k| s + byte_of(x, 4 + k) * pow2(Int::from(8 * k)));
        let (a, b, d) = (is_eq(i, 0), is_eq(i, 4), is_eq(i, 8));
        r.ends_iff("ub", !(a | b | d), &[int(100)], &[ite(a, lo, ite(b, hi, 1 + 2 * 256 + 3 * 65536 + 4 * 16777216))])
    });
    c.rust("dead locals", &[("s", "u8"), ("x", "u8")], "fn f() -> *const u8 { let x = 5u8; &raw const x } fn main() { let mut p; let y = x!(); { let z = x!(); p = &raw const z; print(unsafe { *p }); } if s!() == 0 { p = &raw const y; } else if s!() == 1 { p = f(); } print(100); print(unsafe { *p }); }", |r| {
        r.ends_iff("ub", !is_eq(r.v[0], 0), &[r.v[1], int(100)], &[r.v[1]])
    });
    c.rust("a fresh local in every round", &[("s", "u8")], "fn main() { let mut p: *const u8 = std::ptr::null(); let mut i = 0u8; while i < 2 { let x = i + 10; if i == s!() % 2 { p = &raw const x; } print(unsafe { if p.is_null() { 0 } else { *p } }); i += 1; } }", |r| {
        if is_eq(r.v[0] % int(2), 0).decide() { r.ends("ub", &[int(10)]) } else { r.prints(&[int(0), int(11)]) }
    });
    c.rust("statics are read-only", &[("s", "u8"), ("x", "u8")], "static A: u8 = 3; static mut B: u8 = 4; const fn f() -> u8 { 7 } fn main() { unsafe { B = x!(); print(B); print(100); let p = &raw const A as *mut u8; if s!() == 0 { print(*p); } else { B += 0; print(A); } } }", |r| {
        r.prints(&[r.v[1], int(100), int(3)])
    });
}

pub fn heap(c: &mut Cases) {
    c.rust("allocate and use", &[("n", "usize"), ("i", "usize"), ("x", "u8")], "fn main() { unsafe { let n = n!() % 5; let p = allocate(n, 4); print(p as usize % 4); let q = allocate(n, 1); print(p == q && n > 0); print(100); *p.wrapping_add(i!()) = x!(); print(*p.wrapping_add(i!())); deallocate(q, n, 1); deallocate(p, n, 4); print(101); } }", |r| {
        let (n, i, x) = (r.v[0] % int(5), r.v[1], r.v[2]);
        r.ends_iff("ub", is_le(n, i), &[int(0), int(0), int(100)], &[x, int(101)])
    });
    c.rust("deallocation has to match", &[("n", "usize"), ("a", "usize"), ("o", "usize"), ("s", "u8")], "fn main() { unsafe { let p = allocate(8, 4); print(100); deallocate(p.wrapping_add(o!()), n!(), a!()); print(101); if s!() == 0 { *p = 1; } else if s!() == 1 { deallocate(p, 8, 4); } print(102); } }", |r| {
        let (n, a, o, s) = (r.v[0], r.v[1], r.v[2], r.v[3]);
        let ok = is_eq(n, 8) & is_eq(a, 4) & is_eq(o, 0);
        if r.out.len() == 1 {
            check(!ok, "does not match");
            r.ends("ub", &[int(100)])
        } else {
            check(ok, "matches");
            r.ends_iff("ub", is_le(s, 1), &[int(100), int(101)], &[int(102)])
        }
    });
    c.rust("allocation that is not freed", &[("s", "u8")], "fn main() { unsafe { let p = allocate(8, 4); print(1); if s!() == 0 { deallocate(p, 8, 4); } } }", |r| {
        r.ends_iff("leak", !is_eq(r.v[0], 0), &[int(1)], &[])
    });
    c.rust("invalid allocation", &[("n", "usize"), ("a", "usize")], "fn main() { unsafe { print(1); let (n, a) = (n!(), a!()); if a > 64 || (n > 64 && n < 1 << 63) { exit(); } let p = allocate(n, a); print(2); deallocate(p, n, a); } }", |r| {
        let (n, a) = (r.v[0], r.v[1]);
        let skip = is_lt(64, a) | (is_lt(64, n) & is_lt(n, pow2(int(63))));
        let p2 = any([1i128, 2, 4, 8, 16, 32, 64].iter().map(|k| is_eq(a, *k)));
        if r.out.len() == 1 && r.end.is_exit() {
            return check(skip, "not tried");
        }
        check(!skip, "tried");
        r.ends_iff("ub", !p2 | is_le(pow2(int(63)), n), &[int(1)], &[int(2)])
    });
}

pub fn arith(c: &mut Cases) {
    c.rust("in-bounds offsets", &[("i", "isize"), ("j", "isize")], "fn main() { let v = [0u32; 4]; let p = (&raw const v as *const u32).wrapping_add(1); print(100); let q = unsafe { p.offset(i!()) }; print(1); let s = unsafe { q.add(1) }; print(2); let t = unsafe { s.sub(2) }; print(3); print(t == p.wrapping_offset(i!()).wrapping_sub(1)); }", |r| {
        let i = r.v[0];
        let o = [int(100), int(1), int(2), int(3), int(1)];
        // element positions: i + 1, i + 2, i
        let stage = |n: usize| {
            let at = i + 1;
            match n {
                1 => is_le(0, at) & is_le(at, 4),
                2 => is_le(0, at + 1) & is_le(at + 1, 4),
                _ => is_le(0, at - 1) & is_le(at - 1, 4),
            }
        };
        let n = r.out.len();
        if r.end.is_ub() {
            r.ends("ub", &o[..n]);
            check(!stage(n), "leaves the allocation");
            for k in 1..n {
                check(stage(k), "steps before")
            }
        } else {
            r.prints(&o);
            check(stage(1) & stage(2) & stage(3), "stays inside")
        }
    });
    c.rust("distance", &[("i", "usize"), ("j", "usize"), ("k", "usize")], "fn main() { unsafe { let v = [0u32; 4]; let p = &raw const v as *const u32; let (a, b) = (p.add(i!() % 5), p.add(j!() % 5)); print(a.offset_from(b)); print((a as *const u8).offset_from(b as *const u8)); print(100); let d = (a as *const u8).wrapping_add(k!() % 5) as *const u32; print(d.offset_from(b)); } }", |r| {
        let (i, j, k) = (r.v[0] % int(5), r.v[1] % int(5), r.v[2] % int(5));
        let d = i - j;
        let ok = (is_eq(k, 0) | is_eq(k, 4)) & is_le(i * 4 + k, 16);
        r.ends_iff("ub", !ok, &[d, d * 4, int(100)], &[d + ite(is_eq(k, 4), 1, 0)])
    });
    for (n, z, size) in [
        ("[u8; 3]", "[0u8; 3]", 3),
        ("(u32, u8)", "(0u32, 0u8)", 8),
        ("[u16; 5]", "[0u16; 5]", 10),
        ("u128", "0u128", 16),
        ("P", "P(0, 0)", 5),
        ("W", "W(0)", 8),
        ("[W; 2]", "[W(0); 2]", 16),
        ("(u8, bool)", "(0u8, true)", 2),
    ] {
        c.rust(&format!("pointers to {n}"), &[("i", "usize"), ("j", "usize"), ("k", "isize"), ("o", "isize")], &format!("
            #[repr(packed)] #[derive(Copy, Clone)] struct P(u32, u8);
            #[repr(align(8))] #[derive(Copy, Clone)] struct W(u8);
            fn main() {{ unsafe {{
                let v: [{n}; 4] = [{z}; 4]; let p = &raw const v as *const {n};
                let (a, b) = (p.add(i!() % 5), p.wrapping_add(j!() % 5));
                print((a as *const u8).offset_from(b as *const u8)); print(a.offset_from(b)); print(b.wrapping_offset(k!()).addr().wrapping_sub(b.addr()) as isize); print(b == p.add(j!() % 5));
                print(100); let q = b.offset(o!()); print(q.addr().wrapping_sub(p.addr())); print(q.offset_from_unsigned(p)); print(q == a);
            }} }}"), move |r| {
            let (i, j, k, o) = (r.v[0] % int(5), r.v[1] % int(5), r.v[2], r.v[3]);
            let at = j + o;
            let ok = is_le(0, at) & is_le(at, 4);
            let it = int_type("isize");
            r.ends_iff("ub", !ok, &[(i - j) * size, i - j, wrap(k * size, it), int(1), int(100)], &[at * size, at, b2i(is_eq(at, i))])
        });
    }
    for (n, size) in [("[u8; 3]", 3), ("(u32, u8)", 8), ("[u16; 5]", 10), ("()", 0), ("[u64; 0]", 0), ("u128", 16)] {
        c.rust(&format!("addresses of {n} wrap"), &[("a", "usize"), ("i", "isize"), ("n", "usize")], &format!("fn main() {{ let p = std::ptr::without_provenance::<{n}>(a!()); print(p.wrapping_offset(i!()).addr()); print(p.wrapping_add(n!()).addr()); print(p.wrapping_sub(n!()).addr()); }}"), move |r| {
            let (a, i, n) = (r.v[0], r.v[1], r.v[2]);
            let u = |x| wrap(x, int_type("usize"));
            r.prints(&[u(a + i * size), u(a + n * size), u(a - n * size)])
        });
    }
    c.rust("distance between allocations", &[("s", "u8")], "fn main() { unsafe { let (a, b) = ([1u8; 4], [2u8; 4]); let p = &raw const a as *const u8; let q = match s!() { 0 => p.add(4), 1 => &raw const b as *const u8, 2 => p.wrapping_add(5), _ => p.wrapping_sub(1) }; print(100); print(q.offset_from(p)); print(101); } }", |r| {
        r.ends_iff("ub", !is_eq(r.v[0], 0), &[int(100)], &[int(4), int(101)])
    });
    c.rust("unsigned distance", &[("i", "usize"), ("j", "usize")], "fn main() { unsafe { let v = [0u16; 4]; let p = &raw const v as *const u16; let (a, b) = (p.add(i!() % 5), p.add(j!() % 5)); print(100); print(a.offset_from_unsigned(b)); } }", |r| {
        let (i, j) = (r.v[0] % int(5), r.v[1] % int(5));
        r.ends_iff("ub", is_lt(i, j), &[int(100)], &[i - j])
    });
    c.rust("comparing pointers", &[("i", "usize"), ("j", "usize")], "fn main() { let v = [0u32; 8]; let p = &raw const v[0]; let (a, b) = (p.wrapping_add(i!() % 9), p.wrapping_add(j!() % 9)); print(a == b); print(a < b); print(a >= b); print(a.is_null()); print((b as usize).wrapping_sub(a as usize) as isize); print(a.max(b) as usize - p as usize); let n: *const u8 = std::ptr::null(); print(n.is_null()); print(n as usize); print(std::ptr::without_provenance::<u16>(j!()).addr()); print(a.cast::<u8>() == b.cast()); }", |r| {
        let (i, j) = (r.v[0] % int(9), r.v[1] % int(9));
        let m = ite(is_lt(i, j), j, i);
        r.prints(&[b2i(is_eq(i, j)), b2i(is_lt(i, j)), b2i(is_le(j, i)), int(0), (j - i) * 4, m * 4, int(1), int(0), r.v[1], b2i(is_eq(i, j))])
    });
    c.rust("wrapping arithmetic", &[("a", "usize"), ("i", "isize")], "fn main() { let p = std::ptr::without_provenance::<u64>(a!()); print(p.wrapping_offset(i!()).addr()); print(p.wrapping_add(3).addr()); print(p.wrapping_sub(1).addr()); print(p.wrapping_byte_offset(i!()).addr()); print((p as *const u8).wrapping_add(1).cast::<u32>().addr()); }", |r| {
        let (a, i) = (r.v[0], r.v[1]);
        let u = |x| wrap(x, int_type("usize"));
        r.prints(&[u(a + i * 8), u(a + 24), u(a - 8), u(a + i), u(a + 1)])
    });
    c.rust("provenance follows the pointer", &[("s", "u8"), ("x", "u8")], "fn main() { unsafe { let (mut a, mut b) = ([x!(); 4], [5u8; 4]); let (p, q) = (&raw mut a as *mut u8, &raw mut b as *mut u8); let d = (q as usize).wrapping_sub(p as usize); let r = p.wrapping_add(d); print(r == q); let r = match s!() { 0 => r.wrapping_sub(d), 1 => q, 2 => r, _ => std::ptr::without_provenance_mut(p.addr()) }; print(100); print(*r); } }", |r| {
        let (s, x) = (r.v[0], r.v[1]);
        r.ends_iff("ub", is_lt(1, s), &[int(1), int(100)], &[ite(is_eq(s, 0), x, 5)])
    });
    c.rust("pointers in memory", &[("s", "u8"), ("x", "u16")], "fn main() { unsafe { let v = [x!(), 7]; let p = &raw const v[0]; let mut m = [p, p.wrapping_add(1)]; let pp = &raw mut m as *mut *const u16; let b = *(pp as *const [u8; 8]).add(0); let _ = b; } }".replace("let b = *(pp as *const [u8; 8]).add(0); let _ = b;", "print(**pp); print(**pp.add(1)); let t = *pp; *pp = *pp.add(1); *pp.add(1) = t; print(*m[0]); print(*m[1]); let c = *(pp as *const [std::mem::MaybeUninit<u8>; 8]); let r: *const u16 = std::mem::transmute(c); print(*r); print(100); if s!() == 0 { *(pp as *mut u8) = 0; } else if s!() == 1 { let f = *(pp as *mut u8); *(pp as *mut u8) = f; } print(101); print(*m[0]);").as_str(), |r| {
        let (s, x) = (r.v[0], r.v[1]);
        let base = [int(7), x];
        let _ = base;
        if is_eq(s, 1).decide() {
            // reading a byte of a pointer as an integer loses its provenance
            r.ends("ub", &[x, int(7), int(7), x, int(7), int(100)][..r.out.len().min(6)].iter().copied().chain(if r.out.len() > 6 { vec![int(101)] } else { vec![] }).collect::<Vec<_>>())
        } else {
            r.ends_iff("ub", is_eq(s, 0), &[x, int(7), int(7), x, int(7), int(100), int(101)], &[int(7)])
        }
    });
}

pub fn refs(c: &mut Cases) {
    for (n, ty) in [("shared", "&u32"), ("unique", "&mut u32")] {
        let m = if n == "shared" { "&*" } else { "&mut *" };
        c.rust(&format!("{n} reference from an address"), &[("s", "u8"), ("o", "usize")], &format!("
            #[repr(align(16))] struct A([u32; 4]); fn main() {{ unsafe {{ let mut a = A([1, 2, 3, 4]); let p = (&raw mut a as *mut u8).wrapping_add(o!()) as *mut u32; let p = if s!() == 0 {{ p }} else if s!() == 1 {{ std::ptr::null_mut() }} else {{ std::ptr::without_provenance_mut(4) }}; print(100); let r: {ty} = {m}p; print(101); print(*r); }} }}"), |r| {
            let (s, o) = (r.v[0], r.v[1]);
            let ok = is_eq(s, 0) & is_le(o, 12) & is_eq(o % int(4), 0);
            let v = ite(is_eq(o, 0), 1, ite(is_eq(o, 4), 2, ite(is_eq(o, 8), 3, 4)));
            r.ends_iff("ub", !ok, &[int(100)], &[int(101), v])
        });
    }
    c.rust("transmuted references", &[("a", "usize")], "fn main() { unsafe { print(100); let r: &[u32; 0] = std::mem::transmute(std::ptr::without_provenance::<()>(a!())); print(r.len()); let r: &() = std::mem::transmute(r); print(1); } }", |r| {
        let a = r.v[0];
        r.ends_iff("ub", is_eq(a, 0) | !is_eq(a % int(4), 0), &[int(100)], &[int(0), int(1)])
    });
    c.rust("references to the dead", &[("s", "u8")], "fn main() { unsafe { let mut p = std::ptr::null_mut::<u8>(); let mut z = 5; { let mut x = 1; p = &raw mut x; let r = &*p; print(*r); } if s!() == 0 { p = &raw mut z; } print(100); let r = &mut *p; print(101); } }", |r| {
        r.ends_iff("ub", !is_eq(r.v[0], 0), &[int(1), int(100)], &[int(101)])
    });
    c.rust("slices from parts", &[("o", "usize"), ("n", "usize")], "fn main() { unsafe { let v = [1u16, 2, 3, 4]; let p = (&raw const v as *const u16).wrapping_add(o!() % 6); print(100); let s: &[u16] = &*std::ptr::slice_from_raw_parts(p, n!()); print(s.len()); print(101); if s.len() > 0 { print(s[s.len() - 1]); } } }", |r| {
        let (o, n) = (r.v[0] % int(6), r.v[1]);
        // an empty slice may dangle
        let ok = is_le(o + n, 4) | is_eq(n, 0);
        if r.end.is_ub() {
            check(!ok, "UB only if specified");
            r.ends("ub", &[int(100)])
        } else {
            check(ok, "UB if specified");
            let o: Vec<Int> = if r.out.len() == 3 { check(is_eq(n, 0), "empty"); vec![int(100), n, int(101)] } else { vec![int(100), n, int(101), o + n] };
            r.prints(&o)
        }
    });
    c.rust("references to bools", &[("x", "u8")], "fn main() { unsafe { let b = x!(); let r: &bool = &*(&raw const b as *const bool); print(100); let s = r; print(*s); } }", |r| {
        r.ends_iff("ub", is_lt(1, r.v[0]), &[int(100)], &[r.v[0]])
    });
}

pub fn places(c: &mut Cases) {
    c.rust("reborrows and fields", &[("a", "u32"), ("b", "u32"), ("i", "usize")], "
        struct S { x: u32, y: (u32, [u32; 3]) } fn main() { let mut s = S { x: a!(), y: (1, [2, b!(), 4]) }; { let r = &mut s; let q = &mut r.y; let e = &mut q.1[i!() % 3]; *e = 50; q.0 += 1; r.x = r.x.wrapping_add(r.y.0); } let t = &s; let u = &t.y.1; print(t.x); print(u[0]); print(u[1]); print(u[2]); print(s.y.0); let r = &&s; print((**r).x); let S { x, y: (p, ref q) } = s; print(q[i!() % 3]); print(p); print(x); }", |r| {
        let (a, b, i) = (r.v[0], r.v[1], r.v[2] % int(3));
        let at = |k: i128, x: Int| ite(is_eq(i, k), 50, x);
        let x = wrap(a + 2, int_type("u32"));
        r.prints(&[x, at(0, int(2)), at(1, b), at(2, int(4)), int(2), x, int(50), int(2), x])
    });
    c.rust("place expressions are checked", &[("s", "u8"), ("o", "usize")], "fn main() { unsafe { let v = [(1u8, 2u32); 2]; let p = (&raw const v as *const (u8, u32)).wrapping_byte_add(o!()); print(100); match s!() { 0 => { let q = &raw const (*p).1; print(1); } 1 => { let _ = *p; print(2); } 2 => { let _x = (*p).1; print(3); } _ => print(4) } } }", |r| {
        let (s, o) = (r.v[0], r.v[1]);
        let mis = !is_eq(o % int(4), 0);
        let oob = mis | (!is_eq(o, 0) & !is_eq(o, 8));
        let e = |k: i128| is_eq(s, k);
        let _ = mis;
        if r.out.len() == 2 { r.prints(&[int(100), ite(e(0), 1, ite(e(1), 2, ite(e(2), 3, 4)))]) } else { r.ends("ub", &[int(100)]) }
        if r.end.is_ub() { check(is_le(s, 2) & !is_eq(o, 0), "UB only at a wrong place") } else { check(!(e(2) & oob), "no load from elsewhere") }
    });
}
