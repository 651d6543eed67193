//! Threads, locks and atomic accesses, under every schedule with a bounded number of preemptions.
use crate::kit::*;
use crate::rust::*;
use crate::*;

const PRE: &str = "
    fn go(f: extern \"C\" fn(*const ()), p: *const ()) -> usize { spawn(f, p) }
    static mut X: u32 = 5; static mut V: [u16; 4] = [0; 4]; static mut U: [u32; 2] = [0; 2]; static mut L: usize = 0; static mut M: usize = 0;
";
fn sw(n: u32) -> Opts {
    Opts { switches: Some(n), ..Default::default() }
}
fn case<'a>(c: &'a mut Cases, n: u32, name: &str, inputs: &[(&str, &str)], body: &str, f: impl Fn(&R) + 'static) -> &'a mut Case {
    c.rust_with(name, sw(n), inputs, &format!("{PRE}{body}"), f)
}
/// Either a data race, or a regular end with these outputs.
fn maybe_ub(r: &R, want: &[Int]) {
    if r.end.is_ub() {
        reach("ub");
    } else {
        reach("exit");
        r.prints(want);
    }
}

pub fn races(c: &mut Cases) {
    case(c, 2, "race: two writers", &[("a", "u32"), ("b", "u32")], "extern \"C\" fn t(_: *const ()) { unsafe { X = a!(); } } fn main() { unsafe { let i = go(t, std::ptr::null()); X = b!(); join(i); let x = X; print(x == a!() || x == b!()); } }", |r| maybe_ub(r, &[int(1)])).expect(&["ub", "exit"]);
    case(c, 2, "race: writer and reader", &[("a", "u32")], "extern \"C\" fn t(_: *const ()) { unsafe { X = a!(); } } fn main() { unsafe { let i = go(t, std::ptr::null()); let x = X; join(i); print(x == a!() || x == 5); } }", |r| maybe_ub(r, &[int(1)])).expect(&["ub", "exit"]);
    case(c, 2, "race: two readers", &[("a", "u32")], "extern \"C\" fn t(_: *const ()) { unsafe { print(X == a!()); } } fn main() { unsafe { X = a!(); let i = go(t, std::ptr::null()); let x = X; join(i); print(x == a!()); } }", |r| r.prints(&[int(1), int(1)]));
    case(c, 2, "race: spawn and join order", &[("a", "u32"), ("b", "u32")], "extern \"C\" fn t(_: *const ()) { unsafe { print(X); X = b!(); } } fn main() { unsafe { X = a!(); let i = go(t, std::ptr::null()); join(i); print(X); X = 3; print(X); } }", |r| r.prints(&[r.v[0], r.v[1], int(3)]));
    case(c, 2, "race: through the argument", &[("a", "u32"), ("b", "u32")], "extern \"C\" fn t(p: *const ()) { unsafe { let p = p as *mut u32; *p = (*p).wrapping_add(b!()); } } fn main() { unsafe { let mut x = a!(); let i = go(t, &raw mut x as *const ()); join(i); print(x); } }", |r| r.prints(&[wrap(r.v[0] + r.v[1], int_type("u32"))]));
    case(c, 2, "race: elements", &[("i", "usize"), ("j", "usize")], "extern \"C\" fn t(p: *const ()) { unsafe { *(p as *mut u16) = 1; } } fn main() { unsafe { let (i, j) = (i!() % 4, j!() % 4); let (p, q) = (&raw mut V[i], &raw mut V[j]); let k = spawn(t, p as *const ()); *q = 2; join(k); print(*p == 1 || i == j); print(*q == 2 || i == j); } }", |r| {
        if r.end.is_ub() {
            reach("ub");
            check(is_eq(r.v[0] % int(4), r.v[1] % int(4)), "a race only at the same element");
        } else {
            reach("exit");
            r.prints(&[int(1), int(1)]);
        }
    }).expect(&["ub", "exit"]);
    case(c, 2, "race: parts of an integer", &[("o", "usize")], "extern \"C\" fn t(p: *const ()) { unsafe { *(p as *mut u8) = 1; } } fn main() { unsafe { let (p, o) = (&raw mut U as *mut u32, o!() % 8); let q = (p as *mut u8).add(o); let k = spawn(t, q as *const ()); *p = 0x02020202; join(k); print(*q == 1 || o < 4); } }", |r| {
        if r.end.is_ub() {
            reach("ub");
            check(is_lt(r.v[0] % int(8), 4), "a race only within the integer");
        } else {
            reach("exit");
            r.prints(&[int(1)]);
        }
    }).expect(&["ub", "exit"]);
    for (k, t, m, race) in [
        ("stores", "atomic_store(&raw mut X, a!())", "atomic_store(&raw mut X, b!())", false),
        ("store and load", "atomic_store(&raw mut X, a!())", "print(atomic_load(&raw mut X) < 5)", false),
        ("add and exchange", "atomic_fetch_add(&raw mut X, 1)", "compare_exchange(&raw mut X, a!(), 7)", false),
        ("store and plain read", "atomic_store(&raw mut X, a!())", "print(X)", true),
        ("load and plain write", "atomic_load(&raw mut X)", "X = a!()", true),
        ("load and plain read", "atomic_load(&raw mut X)", "print(X > 9)", false),
        ("add and plain read", "atomic_fetch_add(&raw mut X, 1)", "print(X)", true),
        ("exchange and plain read", "compare_exchange(&raw mut X, 5, 3)", "print(X)", true),
        ("failed exchange and plain read", "compare_exchange(&raw mut X, 4, 3)", "print(X)", false),
        ("failed exchange and plain write", "compare_exchange(&raw mut X, 40, 3)", "X = 8", true),
    ] {
        // whether a failed exchange counts as a write is not specified here
        let open = k == "failed exchange and plain read";
        let cs = case(c, 2, &format!("race: atomic {k}"), &[("a", "u32"), ("b", "u32")], &format!("extern \"C\" fn t(_: *const ()) {{ unsafe {{ {t}; }} }} fn main() {{ unsafe {{ let c = (a!(), b!()); let i = go(t, std::ptr::null()); {m}; join(i); }} }}"), move |r| {
            if r.end.is_ub() {
                reach("ub");
                check(race || open, "no race");
            } else {
                reach("exit");
                r.must_exit("regular end");
            }
        });
        if race {
            cs.expect(&["ub", "exit"]);
        } else {
            cs.expect(&["exit"]);
        }
    }
    case(c, 1, "race: guarded by a lock", &[("a", "u32"), ("b", "u32")], "extern \"C\" fn t(_: *const ()) { unsafe { acquire(L); X = X.wrapping_add(a!()); release(L); } } fn main() { unsafe { L = create_lock(); let i = go(t, std::ptr::null()); acquire(L); X = X.wrapping_add(b!()); release(L); join(i); print(X); } }", |r| r.prints(&[wrap(r.v[0] + r.v[1] + 5, int_type("u32"))]));
    case(c, 2, "race: guarded by different locks", &[("a", "u32"), ("b", "u32")], "extern \"C\" fn t(_: *const ()) { unsafe { acquire(M); X = a!(); release(M); } } fn main() { unsafe { L = create_lock(); M = create_lock(); let i = go(t, std::ptr::null()); acquire(L); X = b!(); release(L); join(i); print(1); } }", |r| maybe_ub(r, &[int(1)])).expect(&["ub", "exit"]);
}

pub fn locks(c: &mut Cases) {
    case(c, 2, "locks: order by a lock", &[("a", "u32")], "extern \"C\" fn t(p: *const ()) { let l = unsafe { *(p as *const usize) }; acquire(l); print(1); release(l); } fn main() { let l = create_lock(); acquire(l); let i = spawn(t, &raw const l as *const ()); print(a!()); release(l); join(i); print(2); }", |r| r.prints(&[r.v[0], int(1), int(2)]));
    case(c, 2, "locks: mutual exclusion", &[("a", "u8")], "extern \"C\" fn t(_: *const ()) { unsafe { acquire(L); print(10); X += 1; print(11); release(L); } } fn main() { unsafe { L = create_lock(); let i = go(t, std::ptr::null()); acquire(L); print(20); X += a!() as u32; print(21); release(L); join(i); print(X); } }", |r| {
        let x = r.v[0] + 6;
        r.must_exit("regular end");
        if is_eq(r.val(0), 10).decide() {
            reach("thread first");
            r.prints(&[int(10), int(11), int(20), int(21), x])
        } else {
            reach("main first");
            r.prints(&[int(20), int(21), int(10), int(11), x])
        }
    }).expect(&["thread first", "main first"]);
    case(c, 0, "locks: numbers of locks", &[("n", "usize"), ("s", "u8")], "fn main() { print(create_lock()); print(create_lock()); let n = n!(); match s!() { 0 => { acquire(n); print(3); release(n); print(4); } 1 => { release(n); print(3); } 2 => { acquire(n); acquire(1); print(3); release(1); } _ => { acquire(1); release(n); print(3); acquire(1); } } }", |r| {
        let (n, s) = (r.v[0], r.v[1]);
        let (pre, ok) = ([int(0), int(1)], is_lt(n, 2));
        let is = |k: i128| is_eq(s, k).decide();
        if is(0) {
            r.ends_iff("ub", !ok, &pre, &[int(3), int(4)])
        } else if is(1) {
            r.ends("ub", &pre)
        } else if is(2) {
            if is_eq(n, 1).decide() { r.ends("deadlock", &pre) } else { r.ends_iff("ub", !ok, &pre, &[int(3)]) }
        } else {
            r.ends_iff("ub", is_ne(n, 1), &pre, &[int(3)])
        }
    });
    case(c, 1, "locks: only the owner releases", &[("s", "u8")], "extern \"C\" fn t(_: *const ()) { unsafe { print(7); release(L); } } fn main() { unsafe { L = create_lock(); acquire(L); if s!() == 0 { release(L); } join(go(t, std::ptr::null())); print(8); } }", |r| r.ends("ub", &[int(7)]));
    case(c, 1, "locks: opposite orders", &[("s", "u8")], "extern \"C\" fn t(_: *const ()) { unsafe { acquire(M); acquire(L); print(1); release(L); release(M); } } fn main() { unsafe { L = create_lock(); M = create_lock(); let i = go(t, std::ptr::null()); if s!() == 0 { acquire(M); acquire(L); } else { acquire(L); acquire(M); } print(1); release(L); release(M); join(i); print(3); } }", |r| {
        if r.end.kind() == "deadlock" {
            reach("deadlock");
            check(is_ne(r.v[0], 0), "no deadlock");
            check(r.out.len() == 0, "nothing printed");
        } else {
            reach("exit");
            r.prints(&[int(1), int(1), int(3)]);
        }
    }).expect(&["deadlock", "exit"]);
    case(c, 0, "locks: handed over", &[("a", "u8")], "extern \"C\" fn t(_: *const ()) { unsafe { acquire(L); print(1); release(L); print(2); } } fn main() { unsafe { L = create_lock(); acquire(L); let i = go(t, std::ptr::null()); let j = go(t, std::ptr::null()); print(a!()); release(L); join(j); join(i); acquire(L); print(i); print(j); } }", |r| {
        let (f, g) = (|x: &[i128]| x.iter().map(|x| int(*x)).collect::<Vec<_>>(), [r.v[0]]);
        r.must_exit("regular end");
        if r.out.len() > 2 && is_eq(r.val(2), 1).decide() { r.prints(&[&g[..], &f(&[1, 1, 2, 2, 1, 2])[..]].concat()) } else { r.prints(&[&g[..], &f(&[1, 2, 1, 2, 1, 2])[..]].concat()) }
    });
    case(c, 0, "threads: joining", &[("n", "usize")], "extern \"C\" fn t(_: *const ()) { print(5); } fn main() { let i = go(t, std::ptr::null()); print(i); join(i); join(i); print(6); join(n!()); print(7); }", |r| {
        // the first two outputs come in any order
        let n = r.v[0];
        if is_eq(n, 0).decide() {
            r.r.must_be("deadlock", "joining oneself");
            check(r.out.len() == 3, "three outputs");
        } else if is_eq(n, 1).decide() {
            r.r.must_exit("joining again");
            check(r.out.len() == 4, "four outputs");
        } else {
            r.r.must_be("ub", "joining a thread that does not exist");
            check(r.out.len() == 3, "three outputs");
        }
        check((is_eq(r.val(0), 1) & is_eq(r.val(1), 5)) | (is_eq(r.val(0), 5) & is_eq(r.val(1), 1)), "the thread ran once, and has its number");
        check(is_eq(r.val(2), 6), "6");
    });
    case(c, 1, "threads: the main thread ends it", &[("a", "u8")], "extern \"C\" fn t(_: *const ()) { print(a!()); print(2); } fn main() { go(t, std::ptr::null()); print(77); }", |r| {
        r.must_exit("regular end");
        let n = r.out.len();
        reach(&format!("{n}"));
        check(n >= 1 && n <= 3, "some outputs");
        check((0..n).any(|i| is_eq(r.val(i), 77).decide()), "the main thread printed");
    }).expect(&["1", "3"]);
    case(c, 0, "threads: exit ends all", &[("a", "u8")], "extern \"C\" fn t(_: *const ()) { exit(); } fn main() { let a = a!(); let i = go(t, std::ptr::null()); join(i); print(77); }", |r| r.prints(&[]));
    case(c, 0, "threads: arguments", &[("a", "u64"), ("b", "u64")], "#[repr(C)] struct A(u8, u64, usize); extern \"C\" fn t(p: *const ()) { let a = unsafe { &*(p as *const A) }; print(a.1); if a.0 > 0 { let b = A(a.0 - 1, b!(), 0); join(spawn(t, &raw const b as *const ())); } print(a.0); } fn main() { let x = A(2, a!(), 0); join(spawn(t, &raw const x as *const ())); }", |r| r.prints(&[r.v[0], r.v[1], r.v[1], int(0), int(1), int(2)]));
    case(c, 0, "threads: locals of their own", &[("a", "u32"), ("b", "u32")], "extern \"C\" fn t(p: *const ()) { let mut x = p.addr() as u32; unsafe { acquire(L); release(L); } x = x.wrapping_mul(2); unsafe { acquire(L); print(x); release(L); } } fn main() { unsafe { L = create_lock(); let i = spawn(t, std::ptr::without_provenance(a!() as usize)); let j = spawn(t, std::ptr::without_provenance(b!() as usize)); join(i); join(j); } }", |r| {
        let (x, y) = (wrap(r.v[0] * 2, int_type("u32")), wrap(r.v[1] * 2, int_type("u32")));
        r.must_exit("regular end");
        check(r.out.len() == 2, "two outputs");
        check((is_eq(r.val(0), x) & is_eq(r.val(1), y)) | (is_eq(r.val(0), y) & is_eq(r.val(1), x)), "both results");
    });
}

pub fn atomics(c: &mut Cases) {
    let u32_ = || int_type("u32");
    c.rust("atomic operations", &[("a", "u32"), ("b", "u32"), ("d", "u32")], "fn main() { let mut x = a!(); let p = &raw mut x; unsafe { print(atomic_load(p)); atomic_store(p, b!()); print(x); print(compare_exchange(p, d!(), 7)); print(x); print(compare_exchange(p, 7, a!())); print(x); } }", |r| {
        let (a, b, d) = (r.v[0], r.v[1], r.v[2]);
        let x = ite(is_eq(b, d), 7, b);
        r.prints(&[a, b, b, x, x, ite(is_eq(x, 7), a, x)])
    });
    c.rust("atomic addition", &[("a", "u32"), ("b", "u32")], "fn main() { let mut x = a!(); let p = &raw mut x; unsafe { print(atomic_fetch_add(p, b!())); print(x); } }", move |r| {
        let (a, b) = (r.v[0], r.v[1]);
        r.prints(&[a, wrap(a + b, u32_())])
    }).known("F09", "trying to store Int(");
    c.rust("atomic subtraction", &[("a", "u32"), ("b", "u32")], "fn main() { let mut x = a!(); let p = &raw mut x; unsafe { print(atomic_fetch_sub(p, b!())); print(x); } }", move |r| {
        let (a, b) = (r.v[0], r.v[1]);
        r.prints(&[a, wrap(a - b, u32_())])
    }).known("F09", "trying to store Int(");
    for (k, op) in [("load", "print(atomic_load(p));"), ("store", "atomic_store(p, 1);"), ("exchange", "compare_exchange(p, 0, 1);"), ("add", "atomic_fetch_add(p, 1);"), ("sub", "atomic_fetch_sub(p, 1);")] {
        c.rust(&format!("atomic {k} at any place"), &[("o", "usize"), ("s", "u8")], &format!("static K: [u32; 2] = [5, 6]; fn main() {{ unsafe {{ let mut v = [3u32, 4]; let q = if s!() == 0 {{ &raw mut v as *mut u32 }} else {{ &raw const K as *mut u32 }}; let p = q.wrapping_byte_add(o!()); print(100); {op} print(101); }} }}"), move |r| {
            let o = r.v[0];
            let ok = is_eq(o, 0) | is_eq(o, 4);
            let before = [int(100)];
            if r.end.is_ub() {
                // writing to a static is not specified here
                check(!ok | is_ne(r.v[1], 0), "ub only if specified");
                r.ends("ub", &before);
            } else {
                r.must_exit("ub or regular end");
                check(ok, "ub if specified");
                check(is_eq(r.val(r.out.len() - 1), 101), "goes on");
            }
        });
    }
    case(c, 1, "atomic counter", &[("a", "u8"), ("b", "u8")], "extern \"C\" fn t(_: *const ()) { unsafe { atomic_fetch_add(&raw mut X, a!() as u32); atomic_fetch_sub(&raw mut X, 1); } } fn main() { unsafe { let i = go(t, std::ptr::null()); atomic_fetch_add(&raw mut X, b!() as u32); join(i); print(X); } }", |r| r.prints(&[r.v[0] + r.v[1] + 4]));
    case(c, 1, "atomic exchange has one winner", &[("a", "u8"), ("b", "u8")], "extern \"C\" fn t(_: *const ()) { unsafe { V[0] = (compare_exchange(&raw mut X, 5, 10 + a!() as u32) == 5) as u16; } } fn main() { unsafe { let i = go(t, std::ptr::null()); let w = compare_exchange(&raw mut X, 5, 10 + b!() as u32) == 5; join(i); print(w as u16 + V[0]); print(X); print(w); } }", |r| {
        r.must_exit("regular end");
        check(r.out.len() == 3, "outputs");
        check(is_eq(r.val(0), 1), "one winner");
        check(is_eq(r.val(1), ite(is_eq(r.val(2), 1), r.v[1] + 10, r.v[0] + 10)), "the winner's value");
        if is_eq(r.val(2), 1).decide() { reach("main") } else { reach("thread") }
    }).expect(&["main", "thread"]);
    case(c, 1, "atomic message", &[("a", "u32")], "static mut F: u32 = 0; extern \"C\" fn t(_: *const ()) { unsafe { atomic_store(&raw mut X, a!()); atomic_store(&raw mut F, 1); } } fn main() { unsafe { let i = go(t, std::ptr::null()); if atomic_load(&raw mut F) == 1 { print(atomic_load(&raw mut X)); } else { print(a!()); } join(i); print(X); } }", |r| r.prints(&[r.v[0], r.v[0]]));
}
