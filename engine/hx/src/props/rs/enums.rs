//! Enums, `match`, discriminants, niches.
use crate::kit::*;
use crate::rust::*;
use crate::*;

pub fn cases(c: &mut Cases) {
    c.rust("match on integers", &[("x", "i16"), ("y", "u8")], "
        fn f(x: i16) -> u8 { match x { -300 => 1, -1 => 2, 0..=9 => 3, 10 | 20 | 30 => 4, i16::MAX => 5, n if n % 2 == 0 => 6, _ => 7 } }
        fn main() { print(f(x!())); print(match (x!(), y!()) { (0, _) => 1, (_, 0) => 2, (a, b) if a == b as i16 => 3, _ => 4 }); }", |r| {
        let (x, y) = (r.v[0], r.v[1]);
        let e = |k: i128| is_eq(x, k);
        let f = ite(e(-300), 1, ite(e(-1), 2, ite(is_le(0, x) & is_le(x, 9), 3, ite(e(10) | e(20) | e(30), 4, ite(e(32767), 5, ite(is_eq(x.rem_euclid_(int(2)), 0), 6, 7))))));
        r.prints(&[f, ite(e(0), 1, ite(is_eq(y, 0), 2, ite(is_eq(x, y), 3, 4)))])
    });
    for (n, repr, t) in [("u8", "#[repr(u8)]", "u8"), ("i8", "#[repr(i8)]", "i8"), ("u32", "#[repr(u32)]", "u32"), ("default", "", "isize"), ("i64", "#[repr(i64)]", "i64")] {
        let neg = t != "u8" && t != "u32";
        let (x, y) = if neg { (-3i128, 100i128) } else { (3, 200) };
        let body = format!("
            {repr} #[derive(Clone, Copy)] enum E {{ A = {x}, B, C = {y}, D = 0 }}
            fn mk(s: u8) -> E {{ match s {{ 0 => E::A, 1 => E::B, 2 => E::C, _ => E::D }} }}
            fn main() {{ let e = mk(s!()); print(e as {t}); print(e as i32); print(e as u64); print(match e {{ E::A => 10, E::B => 11, E::C => 12, E::D => 13 }}); print(matches!(e, E::B | E::D)); let v = [E::D, e]; print(v[1] as i16); print(v[0] as u8); }}");
        c.rust(&format!("fieldless enum {n}"), &[("s", "u8")], &body, move |r| {
            let s = r.v[0];
            let sel = |a: i128, b: i128, cc: i128, d: i128| ite(is_eq(s, 0), int(a), ite(is_eq(s, 1), int(b), ite(is_eq(s, 2), int(cc), int(d))));
            let v = sel(x, x + 1, y, 0);
            r.prints(&[v, v, wrap(v, int_type("u64")), sel(10, 11, 12, 13), sel(0, 1, 0, 1), v, int(0)])
        });
    }
    // From a number: exactly the discriminants are valid.
    for (t, vals) in [("u8", vec![0i128, 1, 7, 255]), ("i8", vec![-128, -1, 0, 5]), ("u16", vec![2, 3, 300]), ("i32", vec![-5, 70000])] {
        let vs: Vec<String> = vals.iter().enumerate().map(|(i, v)| format!("V{i} = {v}")).collect();
        let arms: Vec<String> = (0..vals.len()).map(|i| format!("E::V{i} => {i}")).collect();
        let body = format!("#[repr({t})] enum E {{ {} }} fn main() {{ print(100); let e: E = unsafe {{ std::mem::transmute(x!()) }}; print(match e {{ {} }}); }}", vs.join(", "), arms.join(", "));
        c.rust(&format!("enum from {t}"), &[("x", t)], &body, move |r| {
            let x = r.v[0];
            let ok = any(vals.iter().map(|v| is_eq(x, *v)));
            let i = vals.iter().enumerate().fold(int(-1), |s, (i, v)| ite(is_eq(x, *v), Int::from(i), s));
            r.ends_iff("ub", !ok, &[int(100)], &[i])
        });
    }
    c.rust("enum with data", &[("s", "u8"), ("a", "u32"), ("b", "i64")], "
        enum E { N, U(u32), S { x: i64, y: u8 }, P(u8, u16) }
        fn mk(s: u8) -> E { match s { 0 => E::N, 1 => E::U(a!()), 2 => E::S { x: b!(), y: 3 }, _ => E::P(4, 5) } }
        fn main() { let mut e = mk(s!()); match &e { E::N => print(0), E::U(x) => print(*x), E::S { x, .. } => print(*x), E::P(p, q) => { print(*p); print(*q) } }
            match &mut e { E::U(x) => *x = 17, E::S { y, .. } => *y = 18, _ => e = E::U(19) } match e { E::N => print(0), E::U(x) => print(x), E::S { x, y } => { print(x); print(y) }, E::P(..) => print(1) } }", |r| {
        let (s, a, b) = (r.v[0], r.v[1], r.v[2]);
        if is_eq(s, 0).decide() { r.prints(&[int(0), int(19)]) }
        else if is_eq(s, 1).decide() { r.prints(&[a, int(17)]) }
        else if is_eq(s, 2).decide() { r.prints(&[b, b, int(18)]) }
        else { r.prints(&[int(4), int(5), int(19)]) }
    });
    c.rust("option and result", &[("s", "u8"), ("a", "u32")], "
        fn f(s: u8) -> Option<u32> { if s > 9 { Some(a!()) } else { None } } fn g(s: u8) -> Result<u32, i8> { if s == 3 { Err(-5) } else { Ok(s as u32) } }
        fn h(s: u8) -> Option<u32> { let x = f(s)?; Some(x ^ 0) } fn k(s: u8) -> Result<u32, i8> { let x = g(s)?; Ok(x + 1) }
        fn main() { let o = f(s!()); print(o.is_some()); if let Some(x) = o { print(x); } else { print(-1); } match h(s!()) { None => print(1), Some(x) => print(x) } match k(s!()) { Ok(x) => print(x), Err(e) => print(e) }
            print(match (f(s!()), g(s!())) { (None, Ok(x)) => x, (None, Err(_)) => 1000, (Some(_), Ok(_)) => 1001, _ => 1002 });
            let mut o = Some(3u8); if s!() == 7 { o = None; } let t = o.take(); print(o.is_none()); print(t.is_some()); print(match t.map(|x| x + 1) { Some(x) => x, None => 0 }); print(f(s!()).unwrap_or(77)); }", |r| {
        let (s, a) = (r.v[0], r.v[1]);
        let some = is_lt(9, s);
        let err = is_eq(s, 3);
        let seven = is_eq(s, 7);
        r.prints(&[b2i(some), ite(some, a, -1), ite(some, a, 1), ite(err, -5, s + 1), ite(some, 1001, ite(err, 1000, s)), int(1), b2i(!seven), ite(seven, 0, 4), ite(some, a, 77)])
    });
    // Niches.
    c.rust("niche of a bool", &[("x", "u8")], "
        fn main() { print(std::mem::size_of::<Option<Option<bool>>>()); print(100); let o: Option<Option<bool>> = unsafe { std::mem::transmute(x!()) }; print(match o { None => 0, Some(None) => 1, Some(Some(false)) => 2, Some(Some(true)) => 3 }); let b: u8 = unsafe { std::mem::transmute(o) }; print(b); }", |r| {
        let x = r.v[0];
        let ok = is_le(x, 3);
        // true and false as they are, then the inner None, the outer one
        let v = ite(is_eq(x, 0), 2, ite(is_eq(x, 1), 3, ite(is_eq(x, 2), 1, 0)));
        r.ends_iff("ub", !ok, &[int(1), int(100)], &[v, x])
    });
    c.rust("niche of a reference", &[("s", "u8"), ("a", "u16"), ("p", "usize")], "
        fn main() { let x = a!(); let o: Option<&u16> = if s!() == 0 { None } else { Some(&x) }; let w: usize = unsafe { std::mem::transmute::<_, *const u16>(o) }.is_null() as usize; print(w); match o { Some(r) => print(*r), None => print(-1) }
            let z: Option<&()> = unsafe { std::mem::transmute(std::ptr::without_provenance::<()>(p!())) }; print(z.is_some()); let f: Option<fn()> = None; print(unsafe { std::mem::transmute::<_, *const ()>(f) }.is_null()); let r: Result<&u16, ()> = if s!() == 1 { Err(()) } else { Ok(&x) }; print(match r { Ok(r) => *r as i32, Err(()) => -2 }); }", |r| {
        let (s, a, p) = (r.v[0], r.v[1], r.v[2]);
        let z = is_eq(s, 0);
        r.prints(&[b2i(z), ite(z, -1, a), b2i(!is_eq(p, 0)), int(1), ite(is_eq(s, 1), -2, a)])
    });
    c.rust("niche in the middle", &[("s", "u8"), ("a", "u8"), ("x", "u8")], "
        #[repr(u8)] #[derive(Clone, Copy)] enum K { A = 10, B = 20, C = 21 }
        enum E { D(u8, K), X, Y(u8), Z }
        fn mk(s: u8) -> E { match s { 0 => E::D(a!(), K::A), 1 => E::D(a!(), K::C), 2 => E::X, 3 => E::Y(a!()), _ => E::Z } }
        fn sh(e: &E) { match e { E::D(p, k) => { print(1); print(*p); print(*k as u8) } E::X => print(2), E::Y(q) => { print(3); print(*q) } E::Z => print(4) } }
        fn main() { let mut e = mk(s!()); sh(&e); e = E::Y(a!() ^ 0); sh(&e); e = E::D(a!(), K::B); sh(&e); }", |r| {
        let (s, a) = (r.v[0], r.v[1]);
        let mut o = if is_eq(s, 0).decide() { vec![int(1), a, int(10)] }
            else if is_eq(s, 1).decide() { vec![int(1), a, int(21)] }
            else if is_eq(s, 2).decide() { vec![int(2)] }
            else if is_eq(s, 3).decide() { vec![int(3), a] }
            else { vec![int(4)] };
        o.extend([int(3), a, int(1), a, int(20)]);
        r.prints(&o)
    });
    c.rust("niche of a char and of an ordering", &[("x", "i32"), ("y", "i8"), ("a", "u8"), ("b", "u8")], "
        use std::cmp::Ordering; fn main() { let o = a!().cmp(&b!()); print(match o { Ordering::Less => -1, Ordering::Equal => 0, Ordering::Greater => 1 }); let so = if y!() == 0 { None } else { Some(o) }; print(match so { None => 5, Some(o) => o as i8 }); print(unsafe { std::mem::transmute::<_, i8>(so) });
            print(100); let t: Option<Ordering> = unsafe { std::mem::transmute(y!()) }; print(t.is_none()); }", |r| {
        let (y, a, b) = (r.v[1], r.v[2], r.v[3]);
        let o = ite(is_lt(a, b), -1, ite(is_eq(a, b), 0, 1));
        let v = ite(is_eq(y, 0), 5, o);
        let raw = ite(is_eq(y, 0), 2, o);
        r.ends_iff("ub", is_lt(y, -1) | is_lt(2, y), &[o, v, raw, int(100)], &[b2i(is_eq(y, 2))])
    });
    c.rust("uninhabited variants", &[("s", "u8"), ("a", "u16")], "
        enum Void {} enum One { V(Void), O(u16) } enum R2 { A(u16), B(Void, u16), C(u8) }
        fn f(s: u8) -> Result<u16, Void> { Ok(s as u16) }
        fn main() { let o = One::O(a!()); match o { One::O(x) => print(x), One::V(_) => print(1) } let Ok(x) = f(s!()); print(x); let t = if s!() == 0 { R2::A(a!()) } else { R2::C(s!()) }; match t { R2::A(x) => print(x), R2::C(y) => print(y), R2::B(..) => print(-1) } let w: Option<Void> = None; print(w.is_none()); }", |r| {
        let (s, a) = (r.v[0], r.v[1]);
        r.prints(&[a, s, ite(is_eq(s, 0), a, s), int(1)])
    });
    c.rust("enum in enum", &[("s", "u8"), ("a", "u32")], "
        enum I2 { A(u32), B, C } enum Out { X(I2), Y, Z(u64) }
        fn mk(s: u8) -> Option<Out> { Some(match s { 0 => Out::X(I2::A(a!())), 1 => Out::X(I2::B), 2 => Out::X(I2::C), 3 => Out::Y, 4 => Out::Z(9), _ => return None }) }
        fn main() { print(match mk(s!()) { Some(Out::X(I2::A(x))) => x as u64, Some(Out::X(I2::B)) => 1, Some(Out::X(I2::C)) => 2, Some(Out::Y) => 3, Some(Out::Z(z)) => z, None => 5 }); }", |r| {
        let (s, a) = (r.v[0], r.v[1]);
        let e = |k: i128| is_eq(s, k);
        r.prints(&[ite(e(0), a, ite(e(1), 1, ite(e(2), 2, ite(e(3), 3, ite(e(4), 9, 5)))))])
    });
    c.rust("match guards and bindings", &[("a", "u8"), ("b", "u8")], "
        struct P { x: u8, y: (u8, bool) } fn main() { let p = P { x: a!(), y: (b!(), a!() > b!()) };
            print(match p { P { x: 0, .. } => 1, P { x, y: (y, true) } if x - y > 5 => 2, P { y: (n @ 3..=9, _), .. } => n as i32 + 100, P { y: (_, f), x } => if f { x as i32 } else { -(x as i32) } });
            let t = (a!(), Some(b!())); if let (x @ (1 | 2), Some(y)) = t { print(x); print(y); } let r = &t; match r { (0, _) => print(300), (q, Some(5)) => print(*q as u32 + 400), _ => print(500) } match (a!() > 3, b!() > 3) { (true, true) => print(1), (false, false) => print(2), (true, _) => print(3), _ => print(4) } }", |r| {
        let (a, b) = (r.v[0], r.v[1]);
        let f = is_lt(b, a);
        let v = ite(is_eq(a, 0), 1, ite(f & is_lt(5, a - b), 2, ite(is_le(3, b) & is_le(b, 9), b + 100, ite(f, a, int(0) - a))));
        let mut o = vec![v];
        if (is_eq(a, 1) | is_eq(a, 2)).decide() { o.extend([a, b]) }
        o.push(ite(is_eq(a, 0), 300, ite(is_eq(b, 5), a + 400, 500)));
        let (p, q) = (is_lt(3, a), is_lt(3, b));
        o.push(ite(p & q, 1, ite(!p & !q, 2, ite(p, 3, 4))));
        r.prints(&o)
    });
    c.rust("discriminant intrinsic", &[("s", "u8")], "
        enum E { A(u32), B, C(bool) } #[repr(i8)] enum F { A = -4, B(u32) = 6 } fn main() { let e = match s!() { 0 => E::A(1), 1 => E::B, _ => E::C(true) }; let g = if s!() < 9 { E::A(2) } else { E::C(false) }; print(std::mem::discriminant(&e) == std::mem::discriminant(&g)); print(unsafe { std::intrinsics::discriminant_value(&e) } as i32); let f = if s!() == 5 { F::A } else { F::B(3) }; print(unsafe { std::intrinsics::discriminant_value(&f) } as i32); print(unsafe { *(&f as *const F as *const i8) }); }", |r| {
        let s = r.v[0];
        let e = ite(is_eq(s, 0), 0, ite(is_eq(s, 1), 1, 2));
        let g = ite(is_lt(s, 9), 0, 2);
        let f = ite(is_eq(s, 5), -4, 6);
        r.prints(&[b2i(is_eq(e, g)), e, f, f])
    });
}

/// Discriminants that are a permutation of the order of the variants, or overlap it: places in a variant.
pub fn permuted(c: &mut Cases) {
    for (n, repr, d) in [
        ("C, u8", "#[repr(C, u8)]", [1, 0, 2]),
        ("C, u8, rotated", "#[repr(C, u8)]", [2, 0, 1]),
        ("C, u8, shifted", "#[repr(C, u8)]", [1, 2, 3]),
        ("i16", "#[repr(i16)]", [2, 1, 0]),
        ("i16, negative", "#[repr(i16)]", [-1, 0, 1]),
        ("u8, mirrored", "#[repr(u8)]", [0, 2, 1]),
        ("C, i32", "#[repr(C, i32)]", [0, 2, 1]),
    ] {
        let body = format!("
            {repr} enum E {{ A(u8, u16, u8) = {}, B {{ x: u32, y: [u8; 3] }} = {}, C(u64, i8) = {} }}
            fn mk(s: u8) -> E {{ match s {{ 0 => E::A(a!(), 600, 7), 1 => E::B {{ x: b!(), y: [1, a!(), 3] }}, _ => E::C(1 << 40, -2) }} }}
            fn get(e: &E) {{ match e {{ E::A(x, y, z) => {{ print(*x); print(*y); print(*z) }} E::B {{ x, y }} => {{ print(*x); print(y[1]); print(y[2]) }} E::C(x, y) => {{ print(*x); print(*y); print(0) }} }} }}
            fn set(e: &mut E) {{ match e {{ E::A(_, y, z) => {{ *y = 5; *z = a!() }} E::B {{ y, .. }} => y[2] = 9, E::C(x, y) => {{ *y = -1; *x = 4 }} }} }}
            fn main() {{ let mut e = mk(s!()); get(&e); set(&mut e); get(&e); match e {{ E::A(x, ..) => print(x), E::B {{ x, y: [p, ..] }} => {{ print(x); print(p) }} E::C(_, y) => print(y) }}
                let mut v = [E::C(3, 4), mk(s!())]; set(&mut v[0]); set(&mut v[1]); get(&v[0]); get(&v[1]); }}", d[0], d[1], d[2]);
        let body = body.replace("E::B { x, y: [p, ..] } => { print(x); print(p) }", "E::B { x, y } => { print(x); print(y[0]) }");
        c.rust(&format!("variants out of order, {n}"), &[("s", "u8"), ("a", "u8"), ("b", "u32")], &body, |r| {
            let (s, a, b) = (r.v[0], r.v[1], r.v[2]);
            let (g1, g2, m) = if is_eq(s, 0).decide() {
                ([a, int(600), int(7)], [a, int(5), a], vec![a])
            } else if is_eq(s, 1).decide() {
                ([b, a, int(3)], [b, a, int(9)], vec![b, int(1)])
            } else {
                ([int(1 << 40), int(-2), int(0)], [int(4), int(-1), int(0)], vec![int(-1)])
            };
            let mut o = g1.to_vec();
            o.extend(g2);
            o.extend(m);
            o.extend([int(4), int(-1), int(0)]);
            o.extend(g2);
            r.prints(&o)
        });
    }
}
