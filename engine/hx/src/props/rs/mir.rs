//! Functions given as MIR, for what surface Rust does not pin down: how arguments are passed, where unwinding
//! goes, when locals have storage.
use crate::kit::*;
use crate::rust::*;
use crate::*;

fn mir(s: &str) -> String {
    format!("use std::intrinsics::mir::*; {}", s.replace("@MIR", "#[custom_mir(dialect = \"runtime\", phase = \"optimized\")]"))
}

/// Arguments that are moved live in the caller's place: it has no value from the call on.
pub fn calls(c: &mut Cases) {
    let body = "match w { 1 => unsafe { (*p).0 }, 2 | 4 => unsafe { (*p).0 = 9; s.0 }, _ => s.0 }";
    let kinds: Vec<(&str, String, &str, &str, &str)> = vec![
        ("a function", format!("fn f(s: S, p: *mut S, w: u8) -> u32 {{ {body} }}"), "", "f(@, p, w)", ""),
        ("a function pointer", format!("fn f(s: S, p: *mut S, w: u8) -> u32 {{ {body} }}"), "g: fn(S, *mut S, u8) -> u32,", "g(@, p, w)", "f,"),
        ("a C function", format!("extern \"C\" fn f(s: S, p: *mut S, w: u8) -> u32 {{ {body} }}"), "", "f(@, p, w)", ""),
        ("a C function pointer", format!("extern \"C\" fn f(s: S, p: *mut S, w: u8) -> u32 {{ {body} }}"), "g: extern \"C\" fn(S, *mut S, u8) -> u32,", "g(@, p, w)", "f,"),
        ("a generic function", format!("fn f<T: Copy, U>(s: S, p: *mut S, w: T) -> u32 where u8: From<T> {{ let w = u8::from(w); {body} }}"), "", "f::<u8, i8>(@, p, w)", ""),
        ("a method", format!("trait Tr {{ fn m(&self, s: S, p: *mut S, w: u8) -> u32; }} impl Tr for u8 {{ fn m(&self, s: S, p: *mut S, w: u8) -> u32 {{ {body} }} }}"), "g: &u8,", "<u8 as Tr>::m(g, @, p, w)", "&3u8,"),
        ("a method of any type", format!("trait Tr {{ fn m(&self, s: S, p: *mut S, w: u8) -> u32; }} impl Tr for u8 {{ fn m(&self, s: S, p: *mut S, w: u8) -> u32 {{ {body} }} }}"), "g: &dyn Tr,", "<dyn Tr as Tr>::m(g, @, p, w)", "&3u8,"),
        ("an argument by value only", format!("fn f(s: S, t: S, p: *mut S, w: u8) -> u32 {{ {body} }}"), "", "f(s, @, p, w)", ""),
    ];
    for (n, decl, par, call, arg) in kinds {
        let (mv, cp) = (call.replace('@', "Move(s)"), call.replace('@', "s"));
        c.rust(&format!("moved to {n}"), &[("x", "u32"), ("w", "u8"), ("m", "bool")], &mir(&format!("
            #[derive(Clone, Copy)] struct S(u32, u64); {decl}
            @MIR fn call({par} s: S, w: u8, by: bool) -> u32 {{ mir! {{
                let p: *mut S; {{ p = &raw mut s; match by {{ true => mv, _ => cp }} }}
                mv = {{ Call(RET = {mv}, ReturnTo(after), UnwindUnreachable()) }}
                cp = {{ Call(RET = {cp}, ReturnTo(after), UnwindUnreachable()) }}
                after = {{ match w {{ 3 => read, 4 => read, _ => ret }} }}
                read = {{ RET = s.0; Goto(ret) }}
                ret = {{ Return() }}
            }} }}
            fn main() {{ print(1); let r = call({arg} S(x!(), 7), w!(), m!()); print(r); print(2); }}")), {
            let later = n == "an argument by value only";
            move |r| {
                let (x, w, m) = (r.v[0], r.v[1], is_ne(r.v[2], 0));
                let _ = later;
                let read = m & (is_eq(w, 1) | is_eq(w, 3));
                r.ends_iff("ub", read, &[int(1)], &[ite(is_eq(w, 4), int(9), x), int(2)])
            }
        });
    }
    // The order of evaluation is visible: a moved argument is gone for those behind it.
    for (n, args, bad) in [("moved first", "Move(s), s", true), ("moved last", "s, Move(s)", false), ("moved twice", "Move(s), Move(s)", true), ("copied", "s, s", false), ("moved first, its copy last", "Move(t), s", false)] {
        for (k, decl, par, call, arg) in [
            ("", "fn f(s: S, t: S) -> u32 { s.0 ^ t.0 ^ (s.1 as u32) }", "", "f", ""),
            (" to a pointer", "fn f(s: S, t: S) -> u32 { s.0 ^ t.0 ^ (s.1 as u32) }", "g: fn(S, S) -> u32,", "g", "f,"),
        ] {
            c.rust(&format!("same argument {n}{k}"), &[("x", "u32")], &mir(&format!("
                #[derive(Clone, Copy)] struct S(u32, u64); {decl}
                @MIR fn call({par} s: S) -> u32 {{ mir! {{ let t: S; {{ t = s; Call(RET = {call}({args}), ReturnTo(ret), UnwindUnreachable()) }} ret = {{ Return() }} }} }}
                fn main() {{ print(1); let r = call({arg} S(x!(), 0)); print(r); }}")), move |r| {
                if bad {
                    r.ends("ub", &[int(1)])
                } else {
                    r.prints(&[int(1), int(0)])
                }
            });
        }
    }
    // Parts of places, and places behind pointers.
    c.rust("moved fields", &[("x", "u32"), ("y", "u32"), ("w", "u8")], &mir("
        #[derive(Clone, Copy)] struct P(u32, u32); struct S(P, u8, P); fn f(a: P, q: *const S, w: u8) -> u32 { match w { 0 => a.0, 1 => unsafe { (*q).2.1 }, 2 => unsafe { (*q).0.0 }, 3 => unsafe { (*q).0.1 }, _ => unsafe { (*q).1 as u32 } } }
        @MIR fn call(s: *mut S, w: u8) -> u32 { mir! { let q: *const S; { q = &raw const *s; Call(RET = f(Move((*s).0), q, w), ReturnTo(ret), UnwindUnreachable()) } ret = { Return() } } }
        fn main() { let mut s = S(P(x!(), y!()), 5, P(1, y!())); print(1); let r = call(&raw mut s, w!()); print(r); print(s.2.1); print(s.1); }"), |r| {
        let (x, y, w) = (r.v[0], r.v[1], r.v[2]);
        r.ends_iff("ub", is_eq(w, 2) | is_eq(w, 3), &[int(1)], &[ite(is_eq(w, 0), x, ite(is_eq(w, 1), y, int(5))), y, int(5)])
    });
    c.rust("moved elements", &[("x", "u32"), ("i", "usize"), ("j", "usize")], &mir("
        fn f(a: u32, q: *const u32) -> u32 { unsafe { *q ^ a } }
        @MIR fn call(s: *mut [u32; 3], i: usize, q: *const u32) -> u32 { mir! { { Call(RET = f(Move((*s)[i]), q), ReturnTo(ret), UnwindUnreachable()) } ret = { Return() } } }
        fn main() { let mut s = [x!(), x!(), x!()]; if i!() < 3 && j!() < 3 { let q = unsafe { (&raw const s as *const u32).add(j!()) }; print(1); let r = call(&raw mut s, i!(), q); print(r); } }"), |r| {
        let (i, j) = (r.v[1], r.v[2]);
        let ok = is_lt(i, 3) & is_lt(j, 3);
        if !ok.decide() {
            return r.prints(&[]);
        }
        r.ends_iff("ub", is_eq(i, j), &[int(1)], &[int(0)])
    });
    // The place for the result has no value from the call on, either.
    for (n, call, bad) in [("reads", "1", true), ("writes", "2", false), ("does nothing with", "0", false)] {
        c.rust(&format!("callee {n} the place of the result"), &[("x", "u32"), ("y", "u64"), ("d", "bool")], &mir(&format!("
            #[derive(Clone, Copy)] struct S(u32, u64); fn f(p: *mut S, s: S) -> S {{ unsafe {{ match {call} {{ 1 => *p, 2 => {{ *p = S(8, 8); s }} _ => s }} }} }}
            @MIR fn call(d: *mut S, s: S) -> () {{ mir! {{ {{ Call(*d = f(d, s), ReturnTo(ret), UnwindUnreachable()) }} ret = {{ Return() }} }} }}
            @MIR fn local(s: S) -> S {{ mir! {{ let p: *mut S; {{ RET = S(4, 4); p = &raw mut RET; Call(RET = f(p, s), ReturnTo(ret), UnwindUnreachable()) }} ret = {{ Return() }} }} }}
            fn main() {{ let mut s = S(1, 2); print(1); if d!() {{ call(&raw mut s, S(x!(), y!())); }} else {{ s = local(S(x!(), y!())); }} print(s.0); print(s.1); }}")), move |r| {
            if bad {
                r.ends("ub", &[int(1)])
            } else {
                r.prints(&[int(1), r.v[0], r.v[1]])
            }
        });
    }
    c.rust("result of a call that does not return", &[("b", "bool"), ("w", "bool")], &mir("
        fn f(b: bool) -> u32 { if b { panic!() } 6 }
        @MIR fn call(b: bool, w: bool) -> u32 { mir! { let s: u32; { RET = 5; s = 4; Call(RET = f(b), ReturnTo(ret), UnwindCleanup(cl)) } ret = { Return() }
            cl (cleanup) = { match w { true => rd, _ => go } } rd (cleanup) = { s = RET; Goto(go) } go (cleanup) = { UnwindResume() } } }
        fn run(_: *mut u8) { print(call(b!(), w!())); } fn caught(_: *mut u8, _: *mut u8) { print(9); }
        fn main() { print(1); print(unsafe { core::intrinsics::catch_unwind(run as fn(*mut u8), std::ptr::null_mut(), caught) }); }"), |r| {
        let (b, w) = (is_ne(r.v[0], 0), is_ne(r.v[1], 0));
        let kind = if (b & w).decide() { "ub" } else { "exit" };
        let out = if kind == "ub" { vec![int(1)] } else if b.decide() { vec![int(1), int(9), int(1)] } else { vec![int(1), int(6), int(0)] };
        r.ends(kind, &out)
    });
    c.rust("result read by an argument", &[("x", "u32"), ("s", "u8")], &mir("
        fn f(x: u32) -> u32 { x }
        @MIR fn a(x: u32) -> u32 { mir! { { RET = x; Call(RET = f(RET), ReturnTo(ret), UnwindUnreachable()) } ret = { Return() } } }
        @MIR fn b(x: u32) -> u32 { mir! { let y: u32; { y = x; Call(RET = f(y), ReturnTo(ret), UnwindUnreachable()) } ret = { Return() } } }
        fn main() { print(1); print(if s!() == 0 { a(x!()) } else { b(x!()) }); }"), |r| {
        r.ends_iff("ub", is_eq(r.v[1], 0), &[int(1)], &[r.v[0]])
    });
    // Arguments given as a tuple.
    for (n, mv) in [("moved", true), ("copied", false)] {
        let t = if mv { "Move(t)" } else { "t" };
        for (k, call, par, ty, arg) in [
            ("a function item", format!("<F as Fn<(S, *mut S, u8)>>::call(g, {t})"), "g: &F", "F: Fn(S, *mut S, u8) -> u32", "f"),
            ("a mutable closure", format!("<F as FnMut<(S, *mut S, u8)>>::call_mut(g, {t})"), "g: &mut F", "F: FnMut(S, *mut S, u8) -> u32", "|s: S, p: *mut S, w: u8| { f(s, p, w) }"),
            ("a closure", format!("<F as Fn<(S, *mut S, u8)>>::call(g, {t})"), "g: &F", "F: Fn(S, *mut S, u8) -> u32", "|s: S, p: *mut S, w: u8| { if !p.is_null() && w == 1 { return unsafe { (*p).0 } } s.0 }"),
            ("a closure called once", format!("<F as FnOnce<(S, *mut S, u8)>>::call_once(Move(g), {t})"), "g: F", "F: FnOnce(S, *mut S, u8) -> u32", "|s: S, p: *mut S, w: u8| { if !p.is_null() && w == 1 { return unsafe { (*p).0 } } s.0 }"),
        ] {
            let amp = if par.contains("&mut") { "&mut " } else if par.contains('&') { "&" } else { "" };
            c.rust(&format!("tuple of arguments {n} to {k}"), &[("x", "u32"), ("w", "u8")], &mir(&format!("
                #[derive(Clone, Copy)] struct S(u32, u64); fn f(s: S, p: *mut S, w: u8) -> u32 {{ {body} }}
                @MIR fn call<{ty}>({par}, s: S, w: u8) -> u32 {{ mir! {{
                    let t: (S, *mut S, u8); let p: *mut S; {{ p = &raw mut t.0; t = (s, p, w); Call(RET = {call}, ReturnTo(after), UnwindUnreachable()) }}
                    after = {{ match w {{ 3 => read, _ => ret }} }} read = {{ RET = t.0.0; Goto(ret) }} ret = {{ Return() }} }} }}
                fn main() {{ print(1); let r = call({amp}({arg}), S(x!(), 7), w!()); print(r); }}")), move |r| {
                let (x, w) = (r.v[0], r.v[1]);
                r.ends_iff("ub", (is_eq(w, 1) | is_eq(w, 3)) & B::from(mv), &[int(1)], &[x])
            });
        }
    }
}

/// Where panics go.
pub fn unwinding(c: &mut Cases) {
    let pre = "fn f(b: bool) -> u32 { print(10); if b { panic!() } 6 } struct D(bool, u8); impl Drop for D { fn drop(&mut self) { print(self.1); if self.0 { panic!() } } }
        fn out(x: u8) { print(x); } fn caught(_: *mut u8, _: *mut u8) { print(99); } fn run(_: *mut u8) { print(go(b!())); }
        fn main() { print(1); print(unsafe { core::intrinsics::catch_unwind(run as fn(*mut u8), std::ptr::null_mut(), caught) }); }";
    let mut case = |n: &str, go: String, ok: Vec<i128>, kind: &'static str, bad: Vec<i128>| {
        c.rust(&format!("unwinding {n}"), &[("b", "bool")], &mir(&format!("{pre} {go}")), move |r| {
            let b = is_ne(r.v[0], 0).decide();
            let k = if b { kind } else { "exit" };
            let o: Vec<Int> = if b { &bad } else { &ok }.iter().map(|x| int(*x)).collect();
            r.ends(k, &o)
        });
    };
    let fine = || vec![1, 10, 6, 0];
    for (n, act, kind, bad) in [
        ("goes on", "UnwindContinue()", "exit", vec![1, 10, 99, 1]),
        ("is not expected", "UnwindUnreachable()", "ub", vec![1, 10]),
        ("is not allowed", "UnwindTerminate(ReasonAbi)", "abort", vec![1, 10]),
        ("is cleaned up after", "UnwindCleanup(cl)", "exit", vec![1, 10, 3, 99, 1]),
    ] {
        let cl = "cl (cleanup) = { Call(u = out(3), ReturnTo(re), UnwindTerminate(ReasonInCleanup)) } re (cleanup) = { UnwindResume() }";
        let cl = if act.contains("cl") { cl } else { "" };
        for (k, par, arg, call) in [("a function", "", "", "f(b)"), ("a pointer", "g: fn(bool) -> u32,", "f,", "g(b)"), ("a virtual call", "g: &dyn Tr,", "&7u8,", "<dyn Tr as Tr>::m(g, b)"), ("a closure", "g: &F,", "&|b: bool| f(b),", "<F as Fn<(bool,)>>::call(g, t)")] {
            let (generics, ex) = if k == "a closure" { ("<F: Fn(bool) -> u32>", "let t: (bool,); { t = (b,);") } else { ("", "{") };
            case(&format!("from {k} {n}"), format!("trait Tr {{ fn m(&self, b: bool) -> u32; }} impl Tr for u8 {{ fn m(&self, b: bool) -> u32 {{ f(b) }} }}
                @MIR fn inner{generics}({par} b: bool) -> u32 {{ mir! {{ let u: (); {ex} Call(RET = {call}, ReturnTo(ret), {act}) }} ret = {{ Return() }} {cl} }} }} fn go(b: bool) -> u32 {{ inner({arg} b) }}"), fine(), kind, bad.clone());
        }
        let with = |o: &[i128]| -> Vec<i128> { o.iter().map(|x| if *x == 10 { 20 } else { *x }).collect() };
        for (k, ty, new) in [("dropping", "D", "D(b, 20)"), ("dropping a field", "(u8, D)", "(1, D(b, 20))"), ("dropping any type", "*mut dyn Tr", "&raw mut d")] {
            let (drop, decl) = if k == "dropping any type" { ("Call(u = std::ptr::drop_in_place::<dyn Tr>(d)", "trait Tr { } impl Tr for D { }") } else { ("Drop(d", "") };
            let new = if k == "dropping any type" { "{ static mut SD: D = D(false, 20); unsafe { SD.0 = b; &raw mut SD as *mut dyn Tr } }" } else { new };
            case(&format!("from {k} {n}"), format!("{decl} @MIR fn inner(d: {ty}) -> u32 {{ mir! {{ let u: (); {{ RET = 6; {drop}, ReturnTo(ret), {act}) }} ret = {{ Return() }} {cl} }} }} fn go(b: bool) -> u32 {{ inner({new}) }}"), with(&fine()), kind, with(&bad));
        }
        // The same while cleaning up: only what terminates, is unreachable or never happens can be asked for.
        if act == "UnwindUnreachable()" || act.contains("Terminate") {
            let act = act.replace("ReasonAbi", "ReasonInCleanup");
            case(&format!("while cleaning up {n}"), format!("fn g() -> u32 {{ print(11); panic!() }} @MIR fn inner(b: bool) -> u32 {{ mir! {{ let v: u32; {{ Call(RET = g(), ReturnTo(ret), UnwindCleanup(cl)) }} ret = {{ Return() }} cl (cleanup) = {{ Call(v = f(b), ReturnTo(re), {act}) }} re (cleanup) = {{ UnwindResume() }} }} }} fn go(b: bool) -> u32 {{ inner(b) }}"),
                vec![1, 11, 10, 99, 1], kind, vec![1, 11, 10]);
            case(&format!("while dropping {n}"), format!("fn g() -> u32 {{ print(11); panic!() }} @MIR fn inner(d: D) -> u32 {{ mir! {{ {{ Call(RET = g(), ReturnTo(ret), UnwindCleanup(cl)) }} ret = {{ Return() }} cl (cleanup) = {{ Drop(d, ReturnTo(re), {act}) }} re (cleanup) = {{ UnwindResume() }} }} }} fn go(b: bool) -> u32 {{ inner(D(b, 20)) }}"),
                vec![1, 11, 20, 99, 1], kind, vec![1, 11, 20]);
        }
    }
    // A cleanup may end in other ways.
    for (n, end, kind) in [("cleanup that is unreachable", "Unreachable()", "ub"), ("cleanup that resumes", "UnwindResume()", "exit")] {
        case(n, format!("@MIR fn inner(b: bool) -> u32 {{ mir! {{ {{ Call(RET = f(b), ReturnTo(ret), UnwindCleanup(cl)) }} ret = {{ Return() }} cl (cleanup) = {{ {end} }} }} }} fn go(b: bool) -> u32 {{ inner(b) }}"), fine(), kind, if kind == "ub" { vec![1, 10] } else { vec![1, 10, 99, 1] });
    }
    case("through blocks of a cleanup", "@MIR fn inner(b: bool, n: u8) -> u32 { mir! { let u: (); let i: u8; { Call(RET = f(b), ReturnTo(ret), UnwindCleanup(cl)) } ret = { Return() } cl (cleanup) = { i = n; Goto(top) }
        top (cleanup) = { match i { 0 => done, _ => more } } more (cleanup) = { Call(u = out(i), ReturnTo(dec), UnwindTerminate(ReasonInCleanup)) } dec (cleanup) = { i = i - 1_u8; Goto(top) } done (cleanup) = { UnwindResume() } } } fn go(b: bool) -> u32 { inner(b, 3) }".into(),
        fine(), "exit", vec![1, 10, 3, 2, 1, 99, 1]);
    // Nothing is left behind by an unwound call: locals are gone.
    case("leaves no locals behind", "static mut P: *const u32 = std::ptr::null(); fn f2(b: bool, x: u32) -> u32 { let y = x; unsafe { P = &raw const y; } f(b) } fn c2(_: *mut u8, _: *mut u8) { print(98); print(unsafe { *P }); } fn r2(_: *mut u8) { print(f2(b!(), 4)); }
        fn go(b: bool) -> u32 { let r = unsafe { core::intrinsics::catch_unwind(r2 as fn(*mut u8), std::ptr::null_mut(), c2) }; r as u32 }".into(), vec![1, 10, 6, 0, 0], "ub", vec![1, 10, 98]);
}

/// Storage of locals, and single statements.
pub fn storage(c: &mut Cases) {
    let mut case = |n: &str, body: &str, f: Box<dyn Fn(&Run_)>| {
        c.rust(&format!("storage {n}"), &[("x", "u32"), ("s", "u8")], &mir(body), move |r| f(&Run_ { x: r.v[0], s: r.v[1], r }));
    };
    case("ends", "@MIR fn f(x: u32, s: u8) -> u32 { mir! { let y: u32; let p: *const u32; { StorageLive(y); y = x; p = &raw const y; match s { 0 => dead, 1 => again, _ => ok } }
        dead = { StorageDead(y); RET = *p; Return() } again = { StorageDead(y); StorageLive(y); y = 3; RET = *p; Return() } ok = { RET = *p; StorageDead(y); Return() } } }
        fn main() { print(1); print(f(x!(), s!())); }", Box::new(|q| q.r.ends_iff("ub", is_le(q.s, 1), &[int(1)], &[q.x])));
    case("starts without a value", "@MIR fn f(x: u32, s: u8) -> u32 { mir! { let y: u32; { StorageLive(y); y = x; match s { 0 => dead, 1 => live, 2 => set, _ => ok } }
        dead = { StorageDead(y); StorageLive(y); RET = y; Return() } live = { StorageLive(y); RET = y; Return() } set = { StorageLive(y); y = x; RET = y; Return() } ok = { RET = y; Return() } } }
        fn main() { print(1); print(f(x!(), s!())); }", Box::new(|q| q.r.ends_iff("ub", is_le(q.s, 1), &[int(1)], &[q.x])));
    case("is needed", "@MIR fn f(x: u32, s: u8) -> u32 { mir! { let y: u32; { match s { 0 => w, 1 => dead, 2 => rd, _ => ok } }
        w = { y = x; RET = x; Return() } dead = { StorageLive(y); StorageDead(y); y = x; RET = x; Return() } rd = { RET = y; Return() } ok = { StorageLive(y); y = x; RET = y; StorageDead(y); Return() } } }
        fn main() { print(1); print(f(x!(), s!())); }", Box::new(|q| q.r.ends_iff("ub", is_le(q.s, 2), &[int(1)], &[q.x])));
    case("may end twice", "@MIR fn f(x: u32, s: u8) -> u32 { mir! { let y: u32; { match s { 0 => a, _ => b } } a = { StorageDead(y); StorageDead(y); RET = x; Return() } b = { StorageLive(y); StorageDead(y); StorageDead(y); RET = x; Return() } } }
        fn main() { print(1); print(f(x!(), s!())); }", Box::new(|q| q.r.prints(&[int(1), q.x])));
    case("without statements lasts", "@MIR fn f(x: u32, s: u8) -> u32 { mir! { let y: u32; let p: *const u32; { match s { 0 => rd, _ => ok } } rd = { RET = y; Return() } ok = { y = x; p = &raw const y; RET = *p; Return() } } }
        fn main() { print(1); print(f(x!(), s!())); }", Box::new(|q| q.r.ends_iff("ub", is_eq(q.s, 0), &[int(1)], &[q.x])));
    case("of arguments and results", "@MIR fn f(x: u32, s: u8) -> u32 { mir! { let p: *mut u32; { match s { 0 => r, 1 => w, _ => ok } } r = { Return() } w = { p = &raw mut RET; *p = x; Return() } ok = { p = &raw mut x; *p = 7; RET = x; Return() } } }
        fn main() { print(1); print(f(x!(), s!())); }", Box::new(|q| q.r.ends_iff("ub", is_eq(q.s, 0), &[int(1)], &[ite(is_eq(q.s, 1), q.x, int(7))])));
    case("in a loop", "@MIR fn f(x: u32, s: u8) -> u32 { mir! { let y: u32; let i: u8; let p: *const u32; let q: *const u32; let b: bool; { i = 0; p = &raw const x; Goto(top) }
        top = { StorageLive(y); y = *p; q = p; p = &raw const y; StorageDead(y); i = i + 1_u8; match i { 2 => out, _ => top } } out = { RET = x; Return() } } }
        fn g(x: u32, s: u8) -> u32 { let mut p = &raw const x; let mut i = 0; while i < 2 { let y = unsafe { *p }; if s == 0 { p = &raw const y; } i += 1; } x }
        fn main() { print(1); print(if s!() < 2 { g(x!(), s!()) } else { f(x!(), s!()) }); }", Box::new(|q| q.r.ends_iff("ub", is_eq(q.s, 0) | is_le(2, q.s), &[int(1)], &[q.x])));
    // Single rvalues.
    case("of statics", "static A: u32 = 5; static mut M: u32 = 6; @MIR fn f(x: u32, s: u8) -> u32 { mir! { let a: &'static u32; let m: *mut u32; { a = Static(A); m = StaticMut(M); match s { 0 => r, 1 => w, _ => b } }
        r = { RET = *a; Return() } w = { *m = x; RET = *m; Return() } b = { RET = *m; Return() } } } fn main() { print(1); print(f(x!(), s!())); print(unsafe { M }); }", Box::new(|q| {
        let (z, o) = (is_eq(q.s, 0), is_eq(q.s, 1));
        q.r.prints(&[int(1), ite(z, int(5), ite(o, q.x, int(6))), ite(o, q.x, int(6))])
    }));
    case("behind metadata", "@MIR fn f(p: *const [u32]) -> usize { mir! { { RET = PtrMetadata(p); Return() } } } @MIR fn g(p: *const u32) -> () { mir! { { RET = PtrMetadata(p); Return() } } }
        fn main() { print(1); let p = std::ptr::slice_from_raw_parts(&x!() as *const u32, s!() as usize); print(f(p)); g(&x!()); }", Box::new(|q| q.r.prints(&[int(1), q.s])));
    case("transmuted", "#[derive(Clone, Copy)] #[repr(C)] struct P(u16, u16); @MIR fn f(x: u32) -> P { mir! { { RET = CastTransmute(x); Return() } } } @MIR fn g(p: P) -> [u8; 4] { mir! { { RET = CastTransmute(p); Return() } } } @MIR fn h(s: u8) -> bool { mir! { { RET = CastTransmute(s); Return() } } }
        fn main() { let p = f(x!()); print(p.0); print(p.1); let b = g(p); print(b[2]); print(h(s!())); }", Box::new(|q| {
        let lo = q.x % int(65536);
        let hi = byte_of(q.x, 2) + byte_of(q.x, 3) * 256;
        q.r.ends_iff("ub", is_le(2, q.s), &[lo, hi, byte_of(q.x, 2)], &[q.s])
    }));
    case("of discriminants", "#[repr(u8)] #[derive(Clone, Copy)] enum E { A = 3, B(u32) = 200, C { x: u8 } = 7 } @MIR fn d(e: E) -> u8 { mir! { { RET = Discriminant(e); Return() } } } @MIR fn b(e: E) -> u32 { mir! { { RET = Field(Variant(e, 1), 0); Return() } } }
        fn main() { print(1); let e = match s!() { 0 => E::A, 1 => E::C { x: 2 }, _ => E::B(x!()) }; print(d(e)); print(b(e)); }", Box::new(|q| {
        // The field of another variant is reached without asking which one is there.
        let (z, o) = (is_eq(q.s, 0), is_eq(q.s, 1));
        q.r.ends_iff("ub", z | o, &[int(1), ite(z, int(3), ite(o, int(7), int(200)))], &[q.x])
    }));
    case("of checked sums", "@MIR fn f(x: u32, s: u32) -> (u32, bool) { mir! { { RET = Checked(x + s); Return() } } } @MIR fn m(x: u32, s: u32) -> (u32, bool) { mir! { { RET = Checked(x - s); Return() } } }
        fn main() { let r = f(x!(), s!() as u32); print(r.0); print(r.1); let r = m(x!(), s!() as u32); print(r.0); print(r.1); }", Box::new(|q| {
        let m = pow2(int(32));
        let (a, d) = (q.x + q.s, q.x - q.s);
        let (o, u) = (is_le(m, a), is_lt(d, 0));
        q.r.prints(&[ite(o, a - m, a), b2i(o), ite(u, d + m, d), b2i(u)])
    }));
    case("of offsets", "@MIR fn f(p: *const u32, n: usize) -> *const u32 { mir! { { RET = Offset(p, n); Return() } } } @MIR fn g(p: *const u32, n: isize) -> *const u32 { mir! { { RET = Offset(p, n); Return() } } }
        fn main() { let a = [4u32, 5, 6]; let p = &raw const a as *const u32; print(1); let q = f(p, s!() as usize); print(2); let r = g(q, -((x!() & 3) as isize)); print(3); print(r as usize - p as usize); }", Box::new(|q| {
        let k = bit_of(q.x, 0) + bit_of(q.x, 1) * 2;
        let (b1, b2) = (is_lt(3, q.s), is_lt(q.s, k));
        if q.r.end.is_ub() {
            check(b1 | b2, "UB only if out of bounds");
            return q.r.ends("ub", &[int(1), int(2)][..if b1.decide() { 1 } else { 2 }]);
        }
        check(!b1 & !b2, "UB if out of bounds");
        q.r.prints(&[int(1), int(2), int(3), (q.s - k) * 4])
    }));
    case("of assumptions", "@MIR fn f(b: bool) -> () { mir! { { Assume(b); Return() } } } fn main() { print(1); f(x!() < 5); print(2); }", Box::new(|q| q.r.ends_iff("ub", is_le(5, q.x), &[int(1)], &[int(2)])));
    case("of unreachable code", "@MIR fn f(b: bool) -> () { mir! { { match b { true => a, _ => r } } a = { Unreachable() } r = { Return() } } } fn main() { print(1); f(x!() < 5); print(2); }", Box::new(|q| q.r.ends_iff("ub", is_lt(q.x, 5), &[int(1)], &[int(2)])));
}
struct Run_<'a> {
    x: Int,
    s: Int,
    r: &'a R,
}
