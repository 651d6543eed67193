//! One case per kind of type: what a typed copy keeps, what a reference to it demands, how large it is.
use crate::kit::*;
use crate::rust::*;
use crate::*;

/// Types for which all initial bytes given are valid: `n` bytes, of which `keep` survive a typed copy.
fn copies(c: &mut Cases, name: &str, n: usize, decl: &str, ty: &str, keep: impl Fn(Int) -> B + Clone + 'static) {
    copies_if(c, name, n, decl, ty, move |i, _| keep(i), |_| true.into())
}
/// The input bytes are `x` (8 at most, repeated); the copy is UB if not `ok`.
fn copies_if(c: &mut Cases, name: &str, n: usize, decl: &str, ty: &str, keep: impl Fn(Int, Int) -> B + Clone + 'static, ok: impl Fn(Int) -> B + Clone + 'static) {
    let pre = format!("{decl} #[repr(C, align(16))] struct Buf([u8; {n}]); const _: () = assert!(std::mem::size_of::<{ty}>() == {n});
        fn buf() -> Buf {{ let x = x!().to_le_bytes(); let mut b = Buf([0; {n}]); let mut i = 0; while i < {n} {{ b.0[i] = x[i % 8]; i += 1; }} b }}
        unsafe fn by<T>(p: *const T, i: usize) -> u8 {{ *(p as *const u8).add(i) }}");
    for (how, code) in [
        ("assigned", format!("let mut v = std::mem::MaybeUninit::<{ty}>::uninit(); unsafe {{ *v.as_mut_ptr() = std::ptr::read(p); }} print(101); print(unsafe {{ by(v.as_ptr(), i!()) }});")),
        ("passed", format!("#[inline(never)] fn f(x: {ty}, i: usize) -> (u8, {ty}) {{ (unsafe {{ by(&raw const x, i) }}, x) }} let y = f(unsafe {{ std::ptr::read(p) }}, i!()); print(101); print(y.0); print(unsafe {{ by(&raw const y.1, i!()) }}); std::mem::forget(y);")),
    ] {
        let two = how == "passed";
        let (keep, ok) = (keep.clone(), ok.clone());
        c.rust(&format!("{how} copy of {name}"), &[("i", "usize"), ("x", "u64")], &format!("{pre} fn main() {{ let b = buf(); let p = &raw const b as *const {ty}; print(100); {code} }}"), move |r| {
            let (i, x) = (r.v[0], r.v[1]);
            suppose(is_lt(i, Int::from(n)));
            let ok = ok(x);
            let k = ok & keep(i, x);
            let v = byte_of_var(x, i % int(8));
            let out: Vec<Int> = if two { vec![int(101), v, v] } else { vec![int(101), v] };
            if r.end.is_ub() {
                check(!k, "UB only if specified");
                let at = r.out.len();
                // where the UB is depends on the way: at the copy, or at reading the byte
                check(at == 1 || (at == 2 && !two), "where");
                if at == 2 {
                    check(ok, "the copy itself is fine");
                }
                r.ends("ub", &[int(100), int(101)][..at.min(2)]);
            } else {
                check(k, "UB if specified");
                let mut o = vec![int(100)];
                o.extend(out);
                r.prints(&o)
            }
        });
    }
}
fn byte_of_var(x: Int, i: Int) -> Int {
    (0..8).fold(int(0), |a, k| ite(is_eq(i, Int::from(k)), byte_of(x, k), a))
}
fn within(l: &'static [(u64, u64)]) -> impl Fn(Int) -> B + Clone {
    move |i| any(l.iter().map(|(a, b)| is_le(*a, i) & is_lt(i, *b)))
}

pub fn copying(c: &mut Cases) {
    c.rust("copied unions keep wide pointers", &[("i", "usize"), ("x", "u8")], "
        use std::cell::Cell; trait Tr { fn f(&self) -> u8; } impl Tr for u8 { fn f(&self) -> u8 { *self } } impl Tr for Cell<u8> { fn f(&self) -> u8 { self.get() ^ 1 } }
        #[derive(Clone, Copy)] union U<'a> { s: &'a [u8], d: &'a dyn Tr, m: *const [u8], o: Option<&'a str>, b: u8 } #[derive(Clone, Copy)] struct W<'a>(u8, U<'a>);
        fn f(u: U) -> U { u } fn g<'a>(w: [W<'a>; 2], i: usize) -> W<'a> { w[i] }
        fn main() { let a = [1u8, 2, x!()]; let c = Cell::new(x!()); unsafe {
            let u = U { s: &a }; let v = u; print(v.s.len()); print(f(v).s[i!() % 3]); print(v.m.len());
            let w = f(U { d: &c }); print(w.d.f()); let y = g([W(1, U { d: &a[2] }), W(2, w)], i!() % 2); print(y.0); print(y.1.d.f());
            print(match f(U { o: Some(\"abc\") }).o { Some(s) => s.len(), None => 77 }); print(f(U { o: None }).o.is_none()); } }", |r| {
        let (i, x) = (r.v[0], r.v[1]);
        let (m, n) = (i % int(3), is_eq(i % int(2), 0));
        let flip = ite(is_eq(x % int(2), 0), x + 1, x - int(1));
        r.prints(&[int(3), ite(is_eq(m, 2), x, m + 1), int(3), flip, ite(n.clone(), 1, 2), ite(n, x, flip), int(3), int(1)])
    });
    let d = "#[derive(Clone, Copy)]";
    copies(c, "u32", 4, "", "u32", |_| true.into());
    copies(c, "an i128", 16, "", "i128", |_| true.into());
    copies(c, "a padded tuple", 8, &format!("#[repr(C)] {d} struct S(u8, u32);"), "S", within(&[(0, 1), (4, 8)]));
    copies(c, "an array of padded structs", 12, &format!("#[repr(C)] {d} struct S(u8, u16);"), "[S; 3]", within(&[(0, 1), (2, 5), (6, 9), (10, 12)]));
    copies(c, "a padded struct in structs", 24, &format!("#[repr(C)] {d} struct S(u8, u16); #[repr(C)] struct T(S, u64, S);"), "T", within(&[(0, 1), (2, 4), (8, 17), (18, 20)]));
    copies(c, "an aligned struct", 16, &format!("#[repr(C, align(16))] {d} struct S(u8, u32);"), "S", within(&[(0, 1), (4, 8)]));
    copies(c, "a packed struct", 7, "#[repr(C, packed)] struct S(u8, u32, u16);", "S", |_| true.into());
    // Unions: what any field needs, and nothing else.
    copies(c, "a union of ints", 8, &format!("#[repr(C)] {d} union U {{ a: u8, b: [u8; 3], c: u64 }}"), "U", |_| true.into());
    copies(c, "a union of bytes in an aligned union", 8, &format!("#[repr(C, align(8))] {d} union U {{ a: u8, b: [u8; 3] }}"), "U", within(&[(0, 3)]));
    copies(c, "a union with a bool", 4, &format!("#[repr(C, align(4))] {d} union U {{ a: bool, b: () }}"), "U", within(&[(0, 1)]));
    copies(c, "a union with a char", 8, &format!("#[repr(C, align(8))] {d} union U {{ a: char, b: bool }}"), "U", within(&[(0, 4)]));
    copies(c, "a union with a pointer", 16, &format!("#[repr(C, align(16))] {d} union U {{ a: *const u8, b: u16 }}"), "U", within(&[(0, 8)]));
    copies(c, "a union with an option of a reference", 16, &format!("#[repr(C, align(16))] {d} union U {{ a: Option<&'static u8>, b: u16 }}"), "U", within(&[(0, 8)]));
    copies(c, "a union with a slice pointer", 32, &format!("#[repr(C)] {d} struct S(*const [u16], u16); #[repr(C, align(16))] {d} union U {{ a: S, b: u16 }}"), "U", within(&[(0, 18)]));
    copies(c, "a union with a trait object pointer", 32, &format!("trait Tr {{}} #[repr(C)] {d} struct S(u8, *const dyn Tr, u16); #[repr(C, align(16))] {d} union U {{ a: S, b: u16 }}"), "U", within(&[(0, 2), (8, 26)]));
    copies(c, "a union with an option of a str", 32, &format!("#[repr(C)] {d} struct S(u16, Option<&'static str>); #[repr(C, align(16))] {d} union U {{ a: S, b: u8 }}"), "U", within(&[(0, 2), (8, 24)]));
    copies(c, "a union with a function pointer", 16, &format!("#[repr(C, align(16))] {d} union U {{ a: Option<fn(u8) -> u8>, b: u8 }}"), "U", within(&[(0, 8)]));
    copies(c, "a union with a struct", 12, &format!("#[repr(C)] {d} struct S(u8, u32, u8); #[repr(C)] {d} union U {{ a: S, b: u16 }}"), "U", within(&[(0, 2), (4, 9)]));
    copies(c, "a union with a nested struct", 16, &format!("#[repr(C)] {d} struct S(u8, u16); #[repr(C)] {d} struct T(u16, S, u64); #[repr(C)] {d} union U {{ a: T }}"), "U", within(&[(0, 3), (4, 6), (8, 16)]));
    copies(c, "a union in a union", 16, &format!("#[repr(C)] {d} struct S(u8, u32); #[repr(C)] {d} union I {{ a: S, b: u16 }} #[repr(C)] {d} struct T(u32, I); #[repr(C, align(16))] {d} union U {{ t: T, u: u8 }}"), "U", within(&[(0, 6), (8, 12)]));
    copies(c, "a union with an array", 32, &format!("#[repr(C)] {d} struct S(u16, u8); #[repr(C, align(16))] {d} union U {{ a: [S; 4], c: [[S; 1]; 5] }}"), "U", within(&[(0, 3), (4, 7), (8, 11), (12, 15), (16, 19)]));
    copies(c, "a union with an enum with data", 16, &format!("#[repr(u8)] {d} enum E {{ A(u16), B(u64), C }} #[repr(C)] {d} union U {{ e: E }}"), "U", within(&[(0, 1), (2, 4), (8, 16)]));
    copies(c, "a union with a repr C enum", 12, &format!("#[repr(C)] {d} enum E {{ A(u8), B(u16, u8) }} #[repr(C, align(4))] {d} union U {{ e: E, x: [u8; 1], y: [u16; 6] }}"), "U", |_| true.into());
    copies(c, "a union with a repr C enum alone", 8, &format!("#[repr(C)] {d} enum E {{ A(u8), B(u16, u8) }} #[repr(C, align(4))] {d} union U {{ e: E, x: [u8; 1] }}"), "U", within(&[(0, 7)]));
    copies(c, "a union with a fieldless enum", 8, &format!("#[repr(u16)] {d} enum E {{ A, B }} #[repr(C, align(8))] {d} union U {{ e: E, x: u8 }}"), "U", within(&[(0, 2)]));
    copies(c, "a union with an option", 8, &format!("#[repr(C)] {d} struct P(u32, bool, u8); #[repr(C)] {d} union U {{ e: Option<P>, x: u8 }}"), "U", within(&[(0, 6)]));
    copies(c, "a union with an option of an int", 16, &format!("#[repr(C)] {d} union U {{ e: Option<u64> }}"), "U", |_| true.into());
    copies(c, "a union with a u128", 32, &format!("#[repr(C, align(16))] {d} union U {{ e: u128, f: [u8; 17] }}"), "U", within(&[(0, 17)]));
    copies(c, "a struct with a union", 16, &format!("#[repr(C)] {d} union I {{ a: u8, b: [u8; 3] }} #[repr(C)] {d} struct S(u32, I, u64);"), "S", within(&[(0, 7), (8, 16)]));
    copies(c, "a union with an empty enum and a never", 4, &format!("enum V {{}} #[repr(C, align(4))] union U {{ v: std::mem::ManuallyDrop<V>, n: std::mem::ManuallyDrop<!>, b: u8 }}"), "U", within(&[(0, 1)]));
    copies(c, "maybe-uninit", 8, &format!("#[repr(C)] {d} struct S(u8, u32);"), "std::mem::MaybeUninit<S>", within(&[(0, 1), (4, 8)]));
    // Data with invalid bytes.
    let b0 = |x: Int| byte_of(x, 0);
    copies_if(c, "an enum with data", 8, &format!("#[repr(u8)] {d} enum E {{ A(u16) = 1, B(u32) = 2, C = 3 }}"), "E", move |i, x| {
        let t = b0(x);
        is_eq(i, 0) | is_eq(t, 1) & is_le(2, i) & is_lt(i, 4) | is_eq(t, 2) & is_le(4, i)
    }, move |x| is_le(1, b0(x)) & is_le(b0(x), 3));
    copies_if(c, "an option of a pair", 8, &format!("#[repr(C)] {d} struct P(bool, u16, u32);"), "Option<P>", move |i, x| {
        is_eq(i, 0) | is_lt(b0(x), 2) & is_le(2, i)
    }, move |x| is_le(b0(x), 2));
    copies_if(c, "a tuple with bools", 4, &format!("#[repr(C)] {d} struct P(bool, bool, u16);"), "P", |_, _| true.into(), move |x| is_lt(byte_of(x, 0), 2) & is_lt(byte_of(x, 1), 2));
    copies_if(c, "an array of bools", 3, "", "[bool; 3]", |_, _| true.into(), move |x| all((0..3).map(|i| is_lt(byte_of(x, i), 2))));
}


pub fn sizes(c: &mut Cases) {
    // size, alignment, stride of slices
    let d = "#[derive(Clone, Copy)]";
    for (n, decl, ty, size, align) in [
        ("u8", "".into(), "u8", 1, 1), ("i16", "".into(), "i16", 2, 2), ("u128", "".into(), "u128", 16, 16), ("char", "".into(), "char", 4, 4), ("unit", "".into(), "()", 0, 1),
        ("bool", "".into(), "bool", 1, 1), ("raw pointer", "".into(), "*const u8", 8, 8), ("wide pointer", "".into(), "*const [u8]", 16, 8),
        ("padded struct", format!("#[repr(C)] {d} struct T(u8, u64);"), "T", 16, 8), ("byte behind a word", format!("#[repr(C)] {d} struct T(u32, u8);"), "T", 8, 4),
        ("aligned struct", format!("#[repr(align(16))] {d} struct T(u8);"), "T", 16, 16), ("aligned zero-sized struct", format!("#[repr(align(8))] {d} struct T;"), "T", 0, 8),
        ("packed struct", format!("#[repr(C, packed)] {d} struct T(u8, u32);"), "T", 5, 1), ("packed(2) struct", format!("#[repr(C, packed(2))] {d} struct T(u8, u64);"), "T", 10, 2),
        ("array", "".into(), "[u16; 3]", 6, 2), ("array of structs", format!("#[repr(C)] {d} struct S(u16, u8);"), "[S; 3]", 12, 2), ("empty array", "".into(), "[u64; 0]", 0, 8),
        ("enum with data", format!("#[repr(u8)] {d} enum T {{ A(u32), B }}"), "T", 8, 4), ("fieldless enum", format!("#[repr(u16)] {d} enum T {{ A, B }}"), "T", 2, 2), ("option", "".into(), "Option<u32>", 8, 4), ("niche option", "".into(), "Option<bool>", 1, 1),
        ("union", format!("#[repr(C)] {d} union T {{ a: u8, b: [u16; 3] }}"), "T", 6, 2), ("tuple", "".into(), "(u8, u32, u8)", 8, 4), ("aligned in a struct", format!("#[repr(align(8))] {d} struct S(u16); #[repr(C)] {d} struct T(u8, S);"), "T", 16, 8),
    ] {
        c.rust(&format!("size of slices: {n}"), &[("n", "u8")], &format!("
            use std::mem::*; {decl} trait Tr {{}} impl Tr for {ty} {{}} fn ad<X: ?Sized>(x: &X) -> usize {{ x as *const X as *const u8 as usize }}
            fn main() {{ let (mv, mw) = (MaybeUninit::<[{ty}; 3]>::uninit(), MaybeUninit::<[[{ty}; 3]; 2]>::uninit()); let v = unsafe {{ &*mv.as_ptr() }}; let n = (n!() % 4) as usize; let s = &v[..n]; print(size_of_val(s)); print(align_of_val(s)); print(size_of_val(v)); print(align_of_val(v)); print(size_of_val(&v[0])); print(align_of_val(&v[0])); let t: &dyn Tr = &v[1]; print(size_of_val(t)); print(align_of_val(t));
                print(ad(&v[1]) - ad(v)); print(ad(&v[n % 3]) - ad(v)); print(ad(&v[n..]) - ad(v)); let w: &[[{ty}; 3]] = unsafe {{ &*mw.as_ptr() }}; print(size_of_val(w)); print(align_of_val(w)); print(size_of::<{ty}>()); print(align_of::<{ty}>()); print(ad(v) % {align}); print(ad(&w[1]) - ad(w)); }}"), move |r| {
            let n = r.v[0] % int(4);
            let (s, a) = (int(size), int(align));
            r.prints(&[n * s, a, s * 3, a, s, a, s, a, s, (n % int(3)) * s, n * s, s * 6, a, s, a, int(0), s * 3])
        });
    }
}

/// `r` is a reference to `ty` built by `mk` from `p: *mut u8`, the address `o!()` bytes from the start of 32 bytes (`align(16)`); `need(o)`: is it valid.
fn refs_to(c: &mut Cases, name: &str, decl: &str, mk: &str, extra: &[(&str, &str)], need: impl Fn(Int, &[Int]) -> B + 'static) {
    let mut ins = vec![("o", "i8")];
    ins.extend(extra);
    c.rust(&format!("references: {name}"), &ins, &format!("{decl} #[repr(align(16))] struct A([u8; 32]);
        fn main() {{ unsafe {{ let mut a = A([0; 32]); let p = (&raw mut a as *mut u8).wrapping_offset(o!() as isize); print(100); {mk} print(101); }} }}"), move |r| {
        r.ends_iff("ub", !need(r.v[0], &r.v[1..]), &[int(100)], &[int(101)])
    });
}

pub fn refs(c: &mut Cases) {
    let d = "#[derive(Clone, Copy)]";
    let fits = |size: i128, align: i128| {
        move |o: Int, _: &[Int]| {
            // dangling is fine for a zero size (but not null, and the address wraps around)
            let inside = if size == 0 { B::from(true) } else { is_le(0, o) & is_le(o + size, 32) };
            inside & is_eq(o % int(align), 0)
        }
    };
    for (n, decl, ty, size, align) in [
        ("u8", "".into(), "u8", 1, 1), ("u64", "".into(), "u64", 8, 8), ("padded struct", format!("#[repr(C)] {d} struct T(u8, u32, u8);"), "T", 12, 4), ("aligned struct", format!("#[repr(align(16))] {d} struct T(u8);"), "T", 16, 16),
        ("array", "".into(), "[u16; 3]", 6, 2), ("packed struct", format!("#[repr(C, packed)] {d} struct T(u8, u32);"), "T", 5, 1), ("option", "".into(), "Option<u32>", 8, 4), ("union", format!("#[repr(C)] {d} union T {{ a: u8, b: [u16; 3] }}"), "T", 6, 2),
    ] {
        let decl: String = decl;
        refs_to(c, &format!("shared, {n}"), &decl, &format!("let r = &*(p as *const {ty});"), &[], fits(size, align));
        refs_to(c, &format!("unique, {n}"), &decl, &format!("let r = &mut *(p as *mut {ty});"), &[], fits(size, align));
        refs_to(c, &format!("transmuted, {n}"), &decl, &format!("let r: &{ty} = std::mem::transmute(p);"), &[], fits(size, align));
        refs_to(c, &format!("in an option, {n}"), &decl, &format!("let r: Option<&mut {ty}> = std::mem::transmute(p);"), &[], fits(size, align));
        refs_to(c, &format!("in a struct, {n}"), &format!("{decl} struct W<'a> {{ x: u8, r: &'a {ty} }}"), &format!("let w = [W {{ x: 1, r: std::mem::transmute(p) }}];"), &[], fits(size, align));
        refs_to(c, &format!("in memory, {n}"), &decl, &format!("let q = &raw const p; let r = std::ptr::read(q as *const (&{ty},));"), &[], fits(size, align));
        refs_to(c, &format!("as an argument, {n}"), &format!("{decl} fn f(x: &{ty}) {{}}"), &format!("let f: fn(*const {ty}) = std::mem::transmute(f as fn(&'static {ty})); f(p as *const {ty});"), &[], move |o, x| fits(size, align)(o, x));
        refs_to(c, &format!("returned, {n}"), &format!("{decl} fn f<'a>(x: *const {ty}) -> &'a {ty} {{ unsafe {{ &*x }} }}"), &format!("f(p as *const {ty});"), &[], fits(size, align));
        refs_to(c, &format!("box, {n}"), &decl, &format!("let b: std::mem::ManuallyDrop<Box<{ty}>> = std::mem::transmute(p);"), &[], fits(size, align));
        refs_to(c, &format!("raw, {n}"), &decl, &format!("let r = &raw const *(p as *const {ty}); let s: *mut {ty} = std::mem::transmute(p);"), &[], |_, _| true.into());
    }
    for (n, decl, ty, size, align) in [
        ("bytes", "".into(), "u8", 1i128, 1i128), ("words", "".into(), "u32", 4, 4), ("aligned zero-sized", format!("#[repr(align(4))] {d} struct T;"), "T", 0, 4), ("units", "".into(), "()", 0, 1), ("padded structs", format!("#[repr(C)] {d} struct T(u32, u8);"), "T", 8, 4), ("arrays", "".into(), "[u16; 3]", 6, 2),
        ("enums", format!("#[repr(u8)] {d} enum T {{ A(u16), B }}"), "T", 4, 2),
    ] {
        let decl: String = decl;
        let ok = move |o: Int, x: &[Int]| {
            let total = x[0] * size;
            let empty = is_eq(total, 0);
            is_le(total, (1i128 << 63) - 1) & is_eq(o % int(align), 0) & (empty | is_le(0, o) & is_le(o + total, 32))
        };
        refs_to(c, &format!("shared slice of {n}"), &decl, &format!("let r: &[{ty}] = &*std::ptr::slice_from_raw_parts(p as *const {ty}, n!());"), &[("n", "usize")], ok);
        refs_to(c, &format!("unique slice of {n}"), &decl, &format!("let r: &mut [{ty}] = std::mem::transmute((p, n!()));"), &[("n", "usize")], ok);
    }
    refs_to(c, "str", "", "let r: &str = std::mem::transmute((p, n!()));", &[("n", "usize")], |o, x| is_eq(x[0], 0) | is_le(0, o) & is_le(o + x[0], 32));
    // Trait objects: the vtable decides about size and alignment.
    refs_to(c, "trait object", "trait Tr {} impl Tr for u8 {} impl Tr for u64 {} impl Tr for [u16; 3] {} impl Tr for () {} #[repr(align(16))] struct T(u8); impl Tr for T {} #[repr(align(8))] struct Z; impl Tr for Z {}",
        "let (t, u, v, w, x, y) = (1u8, 1u64, [1u16; 3], (), T(1), Z); let d: *const dyn Tr = match s!() { 0 => &t, 1 => &u, 2 => &v, 3 => &w, 4 => &x, _ => &y }; let (_, m): (usize, usize) = std::mem::transmute(d); let r: &dyn Tr = std::mem::transmute((p, { let (_, m): (*const u8, *const u8) = std::mem::transmute(d); m }));", &[("s", "u8")], |o, x| {
            let e = |k: i128| is_eq(x[0], k);
            let s = ite(e(0), 1, ite(e(1), 8, ite(e(2), 6, ite(e(3), 0, ite(e(4), 16, 0)))));
            let a = |k: i128| is_eq(o % int(k), 0);
            let al = any([e(0), e(1) & a(8), e(2) & a(2), e(3), e(4) & a(16), is_lt(4, x[0]) & a(8)]);
            al & (is_eq(s, 0) | is_le(0, o) & is_le(o + s, 32))
        });
    // The pointee has to be inhabited.
    for (n, ty) in [("never", "!"), ("empty enum", "V"), ("pair with an empty enum", "(u8, V)"), ("array of an empty enum", "[V; 2]"), ("struct of a never", "S"), ("enum of an empty enum", "E")] {
        c.rust(&format!("references to the uninhabited: {n}"), &[("s", "u8")], &format!("enum V {{}} struct S(u16, !); enum E {{ A(V), B(u8, V) }}
            fn main() {{ unsafe {{ let a = [0u64; 4]; let p = &raw const a as *const {ty}; print(100); if s!() == 0 {{ let r = &*p; }} else if s!() == 1 {{ let r: &mut {ty} = std::mem::transmute(p); }} else if s!() == 2 {{ let b: std::mem::ManuallyDrop<Box<{ty}>> = std::mem::transmute(p); }} else if s!() == 3 {{ let o: Option<&{ty}> = std::mem::transmute(p); }} print(101); }} }}"), |r| {
            r.ends_iff("ub", is_le(r.v[0], 3), &[int(100)], &[int(101)])
        });
    }
    c.rust("references to what is inhabited", &[("s", "u8")], "enum V {} enum E { A(V), B(u8) }
        fn main() { unsafe { let a = [0u64; 4]; let p = &raw const a; print(100); let r: &[V; 0] = &*(p as *const [V; 0]); let r: &E = &*(p as *const E); let r: &Option<V> = &*(p as *const Option<V>); let r: &Result<u8, !> = &*(p as *const Result<u8, !>); let r: &[V] = &*std::ptr::slice_from_raw_parts(p as *const V, s!() as usize & 0); print(r.len()); } }", |r| {
        r.prints(&[int(100), int(0)])
    });
    // Function pointers: no fixed address is a function's, and only a call minds.
    c.rust("made-up function pointers cannot be called", &[("x", "usize")], "fn main() { unsafe { let f: Option<fn()> = std::mem::transmute(a!()); print(100); if let Some(f) = f { f(); } print(0); } }".replace("a!()", "x!()").as_str(), |r| {
        let x = r.v[0];
        r.ends_iff("ub", is_ne(x, 0), &[int(100)], &[int(0)])
    });
    c.rust("function pointers are never null", &[("s", "bool")], "fn g() { print(7); } fn h() { print(8); } fn main() { unsafe { let f: fn() = if s!() { g } else { h }; let a: usize = std::mem::transmute(f as *const ()); print(a == 0); let f: Option<fn()> = Some(f); print(f.is_none()); f.unwrap_unchecked()(); } }", |r| {
        r.prints(&[int(0), int(0), ite(is_ne(r.v[0], 0), int(7), int(8))])
    });
}
