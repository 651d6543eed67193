//! Enums byte by byte: which tags select which variant, what they are written as.
use crate::kit::*;
use crate::rust::*;
use crate::*;

fn lit(t: &str, x: i128) -> Int {
    let _ = t;
    int(x)
}

/// `n` input bytes `b0!()`, ... are an enum of type `ty` (`align` aligned). `arms` are the arms of a match on it
/// which evaluates to an `i128`; `id` is what it has to be (None: UB).
/// `load_ok`: is a load of the whole value fine, given that the discriminant is?
fn bytes_as(c: &mut Cases, name: &str, n: usize, decl: &str, ty: &str, arms: &str, id: impl Fn(&[Int]) -> (B, Int) + Clone + 'static, load_ok: impl Fn(&[Int]) -> B + Clone + 'static) {
    let names: Vec<String> = (0..n).map(|i| format!("b{i}")).collect();
    let ins: Vec<(&str, &str)> = names.iter().map(|n| (n.as_str(), "u8")).collect();
    let vals = names.iter().map(|n| format!("{n}!()")).collect::<Vec<_>>().join(", ");
    let pre = format!("{decl} #[repr(C, align(16))] struct Buf([u8; {n}]); const _: () = assert!(std::mem::size_of::<{ty}>() == {n});");
    // Only the discriminant is looked at, in place.
    let body = format!("{pre} fn main() {{ let b = Buf([{vals}]); let p = &raw const b as *const {ty}; print(100); let x: i128 = unsafe {{ match *p {{ {arms} }} }}; print(x); }}");
    let i2 = id.clone();
    c.rust(&format!("{name}: discriminant"), &ins, &body, move |r| {
        let (ok, x) = i2(&r.v);
        r.ends_iff("ub", !ok, &[int(100)], &[x])
    });
    // The whole value is copied, then looked at; then the copy is looked at byte by byte... which are all there.
    let body = format!("{pre} fn main() {{ let b = Buf([{vals}]); let p = &raw const b as *const {ty}; print(100); let v: {ty} = unsafe {{ std::ptr::read(p) }}; print(101); let x: i128 = match v {{ {arms} }}; print(x); }}");
    c.rust(&format!("{name}: load"), &ins, &body, move |r| {
        let (ok, x) = id(&r.v);
        let ok = ok & load_ok(&r.v);
        r.ends_iff("ub", !ok, &[int(100)], &[int(101), x])
    });
}

/// The values of an integer-like (one tag of type `t`, nothing else), with their tags.
fn tags(c: &mut Cases, name: &str, t: &str, decl: &str, ty: &str, vals: &[(&str, i128)]) {
    let arms: Vec<String> = vals.iter().enumerate().map(|(i, (v, _))| format!("{v} => {i}")).collect();
    let arms = arms.join(", ");
    // what rustc says the tags are
    let tags: Vec<String> = vals.iter().map(|(v, x)| format!("assert!(unsafe {{ std::mem::transmute::<{ty}, {t}>({v}) }} as i128 == {x});")).collect();
    let pre = format!("{decl} const _: () = {{ {} }};", tags.join(" "));
    let vals: Vec<i128> = vals.iter().map(|(_, x)| *x).collect();
    // (For some signed types, rustc allows for a larger range.)
    if ty.starts_with("Option<") && !["option ends i8", "option i16", "option i64"].contains(&name) {
        // Only whether it is `None`. All tags that the type does not allow for are UB even so:
        // the allowed ones are the smallest range (which may wrap around) with all of the values.
        let bits: u32 = t.trim_start_matches(['u', 'i']).parse().unwrap();
        let md = |x: i128| x.rem_euclid(1 << bits);
        let mut us: Vec<i128> = vals.iter().map(|x| md(*x)).collect();
        let none = us[us.len() - 1];
        us.sort();
        // the largest gap, as the last value before it and the first one after it
        let gaps: Vec<(i128, i128, i128)> = (0..us.len()).map(|i| { let (a, b) = (us[i], us[(i + 1) % us.len()]); (md(b - a), a, b) }).collect();
        let &(size, last, first) = gaps.iter().max_by_key(|g| g.0).unwrap();
        assert!(gaps.iter().filter(|g| g.0 == size).count() == 1, "{name}: which range?");
        let body = format!("{pre} fn main() {{ let b = x!(); let p = &raw const b as *const {ty}; print(100); let x = unsafe {{ match *p {{ None => 7, Some(_) => 8 }} }}; print(x); }}");
        let all_vals = us.clone();
        c.rust(&format!("{name}: is it none"), &[("x", t)], &body, move |r| {
            let x = r.v[0] + ite(is_lt(r.v[0], 0), int(1 << bits), 0);
            let inside = if first <= last { is_le(first, x) & is_le(x, last) } else { is_le(first, x) | is_le(x, last) };
            let valid = any(all_vals.iter().map(|v| is_eq(x, *v)));
            if r.end.is_ub() {
                check(!valid, "valid values have a discriminant");
                return r.ends("ub", &[int(100)]);
            }
            check(inside, "UB if no value could have this tag");
            r.ends("exit", &[int(100), ite(is_eq(x, none), 7, 8)])
        });
    }
    let id = move |x: Int| (any(vals.iter().map(|v| is_eq(x, *v))), vals.iter().enumerate().fold(int(-1), |s, (i, v)| ite(is_eq(x, *v), Int::from(i), s)));
    let t2 = t.to_string();
    let body = format!("{pre} fn main() {{ let b = x!(); let p = &raw const b as *const {ty}; print(100); let x: i128 = unsafe {{ match *p {{ {arms} }} }}; print(x); }}");
    let i2 = id.clone();
    c.rust(&format!("{name}: discriminant"), &[("x", t)], &body, move |r| {
        let (ok, x) = i2(lit(&t2, 0) + r.v[0]);
        r.ends_iff("ub", !ok, &[int(100)], &[x])
    });
    let body = format!("{pre} fn f(e: {ty}) -> {ty} {{ e }} fn main() {{ let b = x!(); let p = &raw const b as *const {ty}; print(100); let v = unsafe {{ std::ptr::read(p) }}; print(101); let v = f(v); let w: {t} = unsafe {{ *(&raw const v as *const {t}) }}; print(w); let x: i128 = match v {{ {arms} }}; print(x); }}");
    c.rust(&format!("{name}: load"), &[("x", t)], &body, move |r| {
        let (ok, x) = id(r.v[0]);
        r.ends_iff("ub", !ok, &[int(100)], &[int(101), r.v[0], x])
    });
}

pub fn cases(c: &mut Cases) {
    let some = |vs: &[(&str, i128)]| -> Vec<(String, i128)> { vs.iter().map(|(v, x)| (if *v == "None" { v.to_string() } else { format!("Some({v})") }, *x)).collect() };
    let o = |v: &Vec<(String, i128)>| -> Vec<(&'static str, i128)> { v.iter().map(|(s, x)| (&*Box::leak(s.clone().into_boxed_str()), *x)).collect() };
    let cp = "#[derive(Clone, Copy)]";
    // Valid ranges that wrap around, that touch the ends of the type, signed and unsigned.
    tags(c, "option wraps u8", "u8", &format!("#[repr(u8)] {cp} enum S {{ A = 250, B = 1 }}"), "Option<S>", &o(&some(&[("S::A", 250), ("S::B", 1), ("None", 2)])));
    tags(c, "option ends u8", "u8", &format!("#[repr(u8)] {cp} enum S {{ A = 0, B = 255 }}"), "Option<S>", &o(&some(&[("S::A", 0), ("S::B", 255), ("None", 1)])));
    tags(c, "option high u8", "u8", &format!("#[repr(u8)] {cp} enum S {{ A = 254, B = 255 }}"), "Option<S>", &o(&some(&[("S::A", 254), ("S::B", 255), ("None", 0)])));
    tags(c, "option i8", "i8", &format!("#[repr(i8)] {cp} enum S {{ A = -3, B = 2 }}"), "Option<S>", &o(&some(&[("S::A", -3), ("S::B", 2), ("None", 3)])));
    tags(c, "option ends i8", "i8", &format!("#[repr(i8)] {cp} enum S {{ A = -128, B = 126 }}"), "Option<S>", &o(&some(&[("S::A", -128), ("S::B", 126), ("None", 127)])));
    tags(c, "option negative i8", "i8", &format!("#[repr(i8)] {cp} enum S {{ A = -10, B = -7 }}"), "Option<S>", &o(&some(&[("S::A", -10), ("S::B", -7), ("None", -6)])));
    tags(c, "option top i8", "i8", &format!("#[repr(i8)] {cp} enum S {{ A = 126, B = 127 }}"), "Option<S>", &o(&some(&[("S::A", 126), ("S::B", 127), ("None", 125)])));
    tags(c, "option i16", "i16", &format!("#[repr(i16)] {cp} enum S {{ A = -20000, B = 10000, C = 10001 }}"), "Option<S>", &o(&some(&[("S::A", -20000), ("S::B", 10000), ("S::C", 10001), ("None", 9999)])));
    tags(c, "option option u16", "u16", &format!("#[repr(u16)] {cp} enum S {{ A = 65535, B = 65530 }}"), "Option<Option<S>>", &[("Some(Some(S::A))", 65535), ("Some(Some(S::B))", 65530), ("Some(None)", 0), ("None", 1)]);
    tags(c, "option u32", "u32", &format!("#[repr(u32)] {cp} enum S {{ A = 7, B = 0x8000_0000 }}"), "Option<S>", &o(&some(&[("S::A", 7), ("S::B", 0x8000_0000), ("None", 6)])));
    tags(c, "option i64", "i64", &format!("#[repr(i64)] {cp} enum S {{ A = i64::MIN, B = -1 }}"), "Option<S>", &o(&some(&[("S::A", i64::MIN as i128), ("S::B", -1), ("None", i64::MIN as i128 + 1)])));
    tags(c, "option u64", "u64", &format!("#[repr(u64)] {cp} enum S {{ A = u64::MAX, B = 1 << 63 }}"), "Option<S>", &o(&some(&[("S::A", u64::MAX as i128), ("S::B", 1 << 63), ("None", 0)])));
    tags(c, "option of a bool thrice", "u8", "", "Option<Option<Option<bool>>>", &[("Some(Some(Some(false)))", 0), ("Some(Some(Some(true)))", 1), ("Some(Some(None))", 2), ("Some(None)", 3), ("None", 4)]);
    tags(c, "option of an ordering", "i8", "use std::cmp::Ordering::*;", "Option<std::cmp::Ordering>", &[("Some(Less)", -1), ("Some(Equal)", 0), ("Some(Greater)", 1), ("None", 2)]);
    // Direct tags at the ends of their types.
    tags(c, "tags i8", "i8", &format!("#[repr(i8)] {cp} enum S {{ A = -128, B = -1, C = 0, D = 127 }}"), "S", &[("S::A", -128), ("S::B", -1), ("S::C", 0), ("S::D", 127)]);
    tags(c, "tags i16", "i16", &format!("#[repr(i16)] {cp} enum S {{ A = -32768, B = 255, C = 256 }}"), "S", &[("S::A", -32768), ("S::B", 255), ("S::C", 256)]);
    tags(c, "tags u32", "u32", &format!("#[repr(u32)] {cp} enum S {{ A = 0, B = 0xffff_ffff }}"), "S", &[("S::A", 0), ("S::B", 0xffff_ffff)]);
    tags(c, "tags i32", "i32", &format!("#[repr(C)] {cp} enum S {{ A = -5, B = 70000 }}"), "S", &[("S::A", -5), ("S::B", 70000)]);
    tags(c, "tags u64", "u64", &format!("#[repr(u64)] {cp} enum S {{ A = u64::MAX, B = 0x1_0000_0000 }}"), "S", &[("S::A", u64::MAX as i128), ("S::B", 0x1_0000_0000)]);
    tags(c, "tags i64", "i64", &format!("#[repr(i64)] {cp} enum S {{ A = i64::MIN, B = i64::MAX, C = -1 }}"), "S", &[("S::A", i64::MIN as i128), ("S::B", i64::MAX as i128), ("S::C", -1)]);
    tags(c, "tags isize", "isize", &format!("#[repr(isize)] {cp} enum S {{ A = -2, B = 1 << 40 }}"), "S", &[("S::A", -2), ("S::B", 1 << 40)]);
    tags(c, "tags by default", "u8", &format!("{cp} enum S {{ A, B = 200, C }}"), "S", &[("S::A", 0), ("S::B", 200), ("S::C", 201)]);
    tags(c, "tags by default, signed", "i16", &format!("{cp} enum S {{ A = -200, B, C = 3 }}"), "S", &[("S::A", -200), ("S::B", -199), ("S::C", 3)]);

    // The untagged variant lies between the others: its would-be tag is invalid.
    bytes_as(c, "untagged variant in the middle", 2, &format!("{cp} enum M {{ A, B, C(bool, u8), D }}"), "M", "M::A => 1, M::B => 2, M::C(..) => 3, M::D => 4",
        |b| { let t = tag_byte(b); (is_le(t, 5) & !is_eq(t, 4), ite(is_lt(t, 2), 3, ite(is_eq(t, 2), 1, ite(is_eq(t, 3), 2, 4)))) }, |_| true.into());
    bytes_as(c, "untagged variant first", 2, &format!("{cp} enum M {{ C(bool, u8), A, B(u8) }}"), "M", "M::C(..) => 1, M::A => 2, M::B(_) => 3",
        |b| { let t = tag_byte(b); (is_le(t, 3), ite(is_lt(t, 2), 1, ite(is_eq(t, 2), 2, 3))) }, |_| true.into());
    bytes_as(c, "untagged variant last", 2, &format!("{cp} enum M {{ A, B, C(u8, bool) }}"), "M", "M::A => 1, M::B => 2, M::C(..) => 3",
        |b| { let t = tag_byte(b); (is_le(t, 3), ite(is_lt(t, 2), 3, ite(is_eq(t, 2), 1, 2))) }, |_| true.into());
    bytes_as(c, "niche behind other data", 8, &format!("#[repr(u16)] {cp} enum K {{ A = 100, B = 101 }} #[repr(C)] {cp} struct P {{ x: u32, k: K, y: u16 }}"), "Option<P>", "None => 1, Some(P {{ k: K::A, .. }}) => 2, Some(P {{ k: K::B, .. }}) => 3".replace("{{", "{").replace("}}", "}").as_str(),
        |b| { let t = b[4] + b[5] * 256; (is_le(99, t) & is_le(t, 101), t - 98) }, |_| true.into());
    bytes_as(c, "niche with an uninhabited variant", 2, &format!("enum V {{}} enum M {{ A(V), B(bool, u8), C }}"), "M", "M::B(..) => 1, M::C => 2, M::A(_) => 3",
        |b| { let t = tag_byte(b); (is_le(t, 2), ite(is_lt(t, 2), 1, 2)) }, |_| true.into());
    // Data next to a direct tag.
    bytes_as(c, "repr u8 with data", 4, &format!("#[repr(u8)] {cp} enum M {{ A(u16) = 7, B(bool, u8) = 3, C = 255 }}"), "M", "M::A(x) => x as i128 + 10, M::B(x, y) => 1 + x as i128 + 2 * y as i128, M::C => 0",
        |b| {
            let bb = |x: Int| is_le(x, 1);
            let t = b[0];
            (is_eq(t, 7) | is_eq(t, 3) & bb(b[1]) | is_eq(t, 255), ite(is_eq(t, 7), b[2] + b[3] * 256 + 10, ite(is_eq(t, 3), b[1] + b[2] * 2 + 1, 0)))
        }, |_| true.into());
    bytes_as(c, "repr C with data", 8, &format!("#[repr(C, i16)] {cp} enum M {{ A(u32) = -2, B(bool, u16) = 3 }}"), "M", "M::A(x) => x as i128, M::B(x, y) => -1 - x as i128 - 2 * y as i128",
        |b| {
            let t = b[0] + b[1] * 256;
            let x = b[4] + b[5] * 256 + b[6] * 65536 + b[7] * 0x100_0000;
            (is_eq(t, 65534) | is_eq(t, 3) & is_le(b[4], 1), ite(is_eq(t, 3), int(-1) - b[4] - (b[6] + b[7] * 256) * 2, x))
        }, |_| true.into());
    bytes_as(c, "enum in an enum", 4, &format!("#[repr(u8)] {cp} enum I {{ X = 4, Y = 5 }} #[repr(u8)] {cp} enum M {{ A(I, u8) = 1, B(u16) = 9 }}"), "M", "M::A(I::X, x) => x as i128, M::A(I::Y, x) => 256 + x as i128, M::B(x) => -1 - x as i128",
        |b| {
            let t = b[0];
            (is_eq(t, 1) & (is_eq(b[1], 4) | is_eq(b[1], 5)) | is_eq(t, 9), ite(is_eq(t, 1), ite(is_eq(b[1], 4), 0, 256) + b[2], int(-1) - b[2] - b[3] * 256))
        }, |_| true.into());
    bytes_as(c, "one variant", 2, &format!("{cp} enum M {{ A(bool, u8) }}"), "M", "M::A(x, y) => x as i128 * 1000 + y as i128",
        |b| { let t = tag_byte(b); (is_le(t, 1), t * 1000 + b[1 - tag_at()]) }, |_| true.into());
    bytes_as(c, "one inhabited variant", 1, "enum V {}", "Result<bool, V>", "Ok(x) => x as i128, Err(_) => 7",
        |b| (is_le(b[0], 1), b[0]), |_| true.into());

    let vs = (1..150).map(|i| format!("V{i}")).collect::<Vec<_>>().join(", ");
    c.rust("more variants than the tag has values", &[("s", "u8"), ("o", "bool")], &format!("
        use std::cmp::Ordering; enum E {{ X(Ordering), {vs} }} fn f(e: &E) -> u8 {{ match e {{ E::X(Ordering::Less) => 100, E::X(_) => 1, E::V3 => 2, E::V126 => 3, E::V127 => 4, E::V128 => 5, E::V149 => 6, _ => 7 }} }}
        fn main() {{ let e = match s!() {{ 0 => E::X(if o!() {{ Ordering::Less }} else {{ Ordering::Greater }}), 1 => E::V3, 2 => E::V126, 3 => E::V127, 4 => E::V128, 5 => E::V149, _ => E::V140 }}; print(f(&e)); print(unsafe {{ std::intrinsics::discriminant_value(&e) }}); print(unsafe {{ *(&raw const e as *const i8) }}); }}"), |r| {
        let (s, o) = (r.v[0], r.v[1]);
        let sel = |v: [Int; 7]| v[..6].iter().enumerate().rev().fold(v[6], |a, (i, x)| ite(is_eq(s, Int::from(i)), *x, a));
        let i = |x: i128| int(x);
        let t = |x: i128| int(x + 1 - if x + 1 > 127 { 256 } else { 0 });
        r.prints(&[sel([ite(is_eq(o, 1), 100, 1), i(2), i(3), i(4), i(5), i(6), i(7)]), sel([i(0), i(3), i(126), i(127), i(128), i(149), i(140)]), sel([ite(is_eq(o, 1), -1, 1), t(3), t(126), t(127), t(128), t(149), t(140)])])
    });
    c.rust("only uninhabited variants", &[("s", "u8")], "
        enum V {} enum E { A(V), B(V) } fn f(o: Option<E>) -> u8 { match o { None => 3, Some(E::A(_)) => 4, Some(E::B(_)) => 5 } } fn g(s: u8) -> Result<u8, E> { Ok(s) }
        fn main() { print(f(None)); print(match g(s!()) { Ok(x) => x, Err(E::A(v)) => match v {}, Err(E::B(v)) => match v {} }); if s!() == 9 { let p = &raw const IN as *const E; unsafe { match *p { E::A(_) => print(1), E::B(_) => print(2) } } } }", |r| {
        let s = r.v[0];
        r.ends_iff("ub", is_eq(s, 9), &[int(3), s], &[])
    });
    // Values of enums without variants do not exist.
    c.rust("no variants", &[("x", "u8")], "
        enum V {} fn main() { print(x!()); if x!() == 3 { let v: V = unsafe { std::mem::transmute(()) }; print(1); match v {} } print(2); if x!() == 4 { let p = &raw const IN as *const V; unsafe { match *p {} } } print(3); }", |r| {
        let x = r.v[0];
        if is_eq(x, 3).decide() { r.ends("ub", &[x]) }
        else if is_eq(x, 4).decide() { r.ends("ub", &[x, int(2)]) }
        else { r.prints(&[x, int(2), int(3)]) }
    });
    // Writing a discriminant.
    c.rust("set discriminant", &[("s", "u8"), ("x", "u8"), ("y", "u8")], "
        use std::intrinsics::mir::*;
        #[repr(u8)] #[derive(Clone, Copy)] enum D { A(u8) = 10, B(u8) = 20, C(u8) = 254 }
        #[derive(Clone, Copy)] enum N { P, Q, R(bool, u8), T(u8) }
        #[custom_mir(dialect = \"runtime\", phase = \"optimized\")] fn da(d: *mut D) { mir! { { SetDiscriminant(*d, 0); Return() } } }
        #[custom_mir(dialect = \"runtime\", phase = \"optimized\")] fn db(d: *mut D) { mir! { { SetDiscriminant(*d, 1); Return() } } }
        #[custom_mir(dialect = \"runtime\", phase = \"optimized\")] fn dc(d: *mut D) { mir! { { SetDiscriminant(*d, 2); Return() } } }
        #[custom_mir(dialect = \"runtime\", phase = \"optimized\")] fn np(d: *mut N) { mir! { { SetDiscriminant(*d, 0); Return() } } }
        #[custom_mir(dialect = \"runtime\", phase = \"optimized\")] fn nq(d: *mut N) { mir! { { SetDiscriminant(*d, 1); Return() } } }
        #[custom_mir(dialect = \"runtime\", phase = \"optimized\")] fn nr(d: *mut N) { mir! { { SetDiscriminant(*d, 2); Return() } } }
        #[custom_mir(dialect = \"runtime\", phase = \"optimized\")] fn nt(d: *mut N) { mir! { { SetDiscriminant(*d, 3); Return() } } }
        fn sd(d: D) { match d { D::A(x) => { print(1); print(x) } D::B(x) => { print(2); print(x) } D::C(x) => { print(3); print(x) } } }
        fn main() { let mut d = D::A(x!()); sd(d); match s!() % 4 { 0 => da(&raw mut d), 1 => db(&raw mut d), 2 => dc(&raw mut d), _ => {} } sd(d);
            let mut n = N::T(y!()); match s!() % 3 { 0 => np(&raw mut n), 1 => nq(&raw mut n), _ => {} } print(match n { N::P => 5, N::Q => 6, N::R(..) => 7, N::T(_) => 8 }); nt(&raw mut n); print(match n { N::T(z) => z as i32, _ => -1 }); n = N::R(true, y!()); nr(&raw mut n); print(match n { N::R(b, z) => b as i32 * 1000 + z as i32, _ => -1 }); }", |r| {
        let (s, x, y) = (r.v[0], r.v[1], r.v[2]);
        let (m4, m3) = (s % int(4), s % int(3));
        r.prints(&[int(1), x, ite(is_eq(m4, 1), 2, ite(is_eq(m4, 2), 3, 1)), x, ite(is_eq(m3, 0), 5, ite(is_eq(m3, 1), 6, 8)), y, y + 1000])
    });
    c.rust("discriminant of the untagged variant cannot be set", &[("s", "u8")], "
        use std::intrinsics::mir::*; #[derive(Clone, Copy)] enum N { P, Q, R(bool, u8) }
        #[custom_mir(dialect = \"runtime\", phase = \"optimized\")] fn nr(d: *mut N) { mir! { { SetDiscriminant(*d, 2); Return() } } }
        fn main() { let mut n = match s!() % 3 { 0 => N::P, 1 => N::Q, _ => N::R(true, 5) }; print(1); nr(&raw mut n); print(match n { N::R(..) => 3, N::P => 4, N::Q => 5 }); }", |r| {
        // Nothing is written for the untagged variant: what was there stays. (MiniRust does not check.)
        let m = r.v[0] % int(3);
        r.prints(&[int(1), ite(is_eq(m, 0), 4, ite(is_eq(m, 1), 5, 3))])
    });
    // What is written when a variant is made, byte by byte.
    c.rust("bytes of variants", &[("s", "u8"), ("x", "u8"), ("y", "u16")], "
        enum M { A, B(u16), C(bool, u16), D } #[repr(C, u16)] enum K { A(u8) = 3, B(u16) = 0xfffe } unsafe fn by<T>(t: &T, i: usize) -> u8 { *(t as *const T as *const u8).add(i) }
        fn main() { unsafe { let k = if s!() == 0 { K::A(x!()) } else { K::B(y!()) }; print(by(&k, 0)); print(by(&k, 1)); print(by(&k, 2)); print(std::mem::size_of::<K>());
            let b = if s!() == 0 { None } else { Some(y!() & 1 == 1) }; print(by(&b, 0)); let o: Option<u16> = if s!() == 1 { Some(y!()) } else { None }; print(by(&o, 0)); print(by(&o, 1)); if s!() == 1 { print(by(&o, 2)); print(by(&o, 3)); } print(100); print(by(&k, 3)); } }", |r| {
        let (s, x, y) = (r.v[0], r.v[1], r.v[2]);
        let (z, o) = (is_eq(s, 0), is_eq(s, 1));
        let (lo, hi) = (byte_of(y, 0), byte_of(y, 1));
        let mut out = vec![ite(z, 3, 0xfe), ite(z, 0, 0xff), ite(z, x, lo), int(4), ite(z, 2, bit_of(y, 0)), b2i(o), int(0)];
        if o.decide() { out.extend([lo, hi]) }
        out.push(int(100));
        r.ends_iff("ub", z, &out, &[hi])
    });
}

// rustc puts the field with the niche first
fn tag_at() -> usize { 0 }
fn tag_byte(b: &[Int]) -> Int { b[tag_at()] }
