//! The runner and the command line (C21): what is seen of a run from outside.

use crate::build::*;
use crate::kit::*;
use crate::stdshim::{Ended, command};
use crate::*;

fn u8t_() -> IntType {
    ity(Unsigned, 1)
}

/// How the program is run.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Via {
    /// the configuration's own function
    Config,
    /// `minirun` reading standard input
    Stdin,
    /// `minirun FILE`, the flags before or after the file's name
    FileLast,
    FileFirst,
}
const VIAS: [Via; 4] = [Via::Config, Via::Stdin, Via::FileLast, Via::FileFirst];

fn go(via: Via, flags: &[&str], prog: Program) -> Ended {
    if via == Via::Config {
        let mut c = cli::MinirustMachineConfig::default();
        return command(&[], vec![], vec![], move || {
            for f in flags {
                check(B::from(c.consume_arg(f)), "the flag is one of the machine's");
            }
            c.run_prog_and_print_errors(prog)
        });
    }
    let j = command(&[], vec![], vec![], move || json::dump_program(&prog));
    check(B::from(j.code.is_none() && j.panic.is_none()), "the program is written as JSON");
    let text = j.out.join("\n").into_bytes();
    let mut args = vec!["minirun"];
    let mut files = vec![("other.json".to_string(), vec![])];
    let mut stdin = vec![];
    match via {
        Via::Stdin => {
            args.extend(flags);
            stdin = text
        }
        Via::FileLast => {
            args.extend(flags);
            args.push("p.json");
            files.push(("p.json".to_string(), text))
        }
        _ => {
            args.push("p.json");
            args.extend(flags);
            files.push(("p.json".to_string(), text))
        }
    }
    command(&args, stdin, files, minirun::vx_main)
}

/// The run ended with the given word in its message, or regularly (`None`), after writing the given numbers.
fn ended(e: &Ended, word: Option<&str>, out: &[Int], err: &[Int]) {
    if let Some(p) = &e.panic {
        fail("the tool reports the end", &format!("panic: {p}"))
    }
    let numbers = |lines: &[String], want: &[Int], what: &str| {
        for (k, w) in want.iter().enumerate() {
            match lines.get(k).and_then(|l| parse_int(l)) {
                Some(i) => check(is_eq(i, *w), what),
                None => fail(what, &format!("{lines:?}")),
            }
        }
    };
    numbers(&e.out, out, "standard output");
    if e.out.len() != out.len() {
        fail("standard output", &format!("{:?}", e.out))
    }
    numbers(&e.err, err, "standard error");
    let rest = e.err[err.len()..].join("\n");
    match word {
        None => {
            if e.code.unwrap_or(0) != 0 {
                fail("a regular end is no error", &format!("status {:?}, {rest}", e.code))
            }
            if !rest.is_empty() {
                fail("a regular end is silent", &rest)
            }
        }
        Some(w) => {
            if e.code.unwrap_or(0) != 101 {
                fail(&format!("{w}: status 101"), &format!("status {:?}, {rest}", e.code))
            }
            if !(rest.starts_with("fatal error: ") && rest.contains(w)) {
                fail(&format!("{w}: the message names the end"), &rest)
            }
        }
    }
}

/// Prints to both outputs, and ends in a way that the input selects; the way.
fn any_end() -> (Program, Option<&'static str>, Vec<Int>, Vec<Int>) {
    let (s, x, y) = (sym_of("s", u8t_()), sym_of("x", ity(Signed, 8)), sym_of("y", u8t_()));
    let ways = [None, Some("abort"), Some("UB"), Some("dead"), Some("leak"), Some("UB")];
    let mut k = 0;
    while k < 5 && !is_eq(s, k as i64).decide() {
        k += 1
    }
    reach(&format!("end {k}"));
    let prog = prog1(|m| {
        let p = live(m, raw());
        let lock = live(m, ty_of(ity(Unsigned, 4)));
        m.print(cint(x, ity(Signed, 8)));
        m.eprint(cint(y, u8t_()));
        let (p, lock) = (&p, &lock);
        m.switch_int(
            cint(s, u8t_()),
            &[
                (0u8, &|m: &mut FunctionBuilder| {
                    m.print(const_int(1u8));
                    m.exit()
                }),
                (1, &|m: &mut FunctionBuilder| m.abort()),
                (2, &|m: &mut FunctionBuilder| m.unreachable()),
                (3, &|m: &mut FunctionBuilder| {
                    m.lock_create(*lock);
                    m.lock_acquire(load(*lock));
                    m.lock_acquire(load(*lock))
                }),
                (4, &|m: &mut FunctionBuilder| {
                    m.allocate(const_int(4usize), const_int(4usize), *p);
                    m.exit()
                }),
            ],
            |m| {
                m.assign(*p, null());
                m.print(load(deref(load(*p), u8t())))
            },
        );
    });
    let out = if k == 0 { vec![x, Int::ONE] } else { vec![x] };
    (prog, ways[k], out, vec![y])
}

/// Has UB exactly under Tree Borrows, and only if the input says so.
fn aliasing() -> (Program, B, Vec<Int>) {
    let (s, x) = (sym_of("s", u8t_()), sym_of("x", u8t_()));
    let prog = prog1(|m| {
        let v = live(m, u8t());
        m.assign(v, cint(x, u8t_()));
        let r = live(m, ref_mut_ty_default_markers_for(u8t()));
        m.assign(r, addr_of(v, ref_mut_ty_default_markers_for(u8t())));
        m.print(load(deref(load(r), u8t())));
        m.assign(v, const_int(3u8));
        m.if_(eq(cint(s, u8t_()), const_int(7u8)), |m| m.print(load(deref(load(r), u8t()))), |m| m.print(load(v)));
    });
    (prog, is_eq(s, 7), vec![x, Int::from(3)])
}

fn vias() -> Vec<(Via, bool, &'static [&'static str], String)> {
    let mut v: Vec<(Via, bool, &'static [&'static str], String)> = vec![];
    // A flag that is given more than once is given.
    for via in [Via::Stdin, Via::FileFirst, Via::FileLast, Via::Config] {
        v.push((via, true, &["--minirust-tree-borrows", "--minirust-tree-borrows"], format!("{via:?}, tree borrows twice")));
    }
    v.push((Via::FileLast, true, &["--minirust-tree-borrows", "--minirust-tree-borrows", "--minirust-tree-borrows"], "FileLast, tree borrows three times".into()));
    for via in VIAS {
        for tb in [false, true] {
            let flags: &[&str] = if tb { &["--minirust-tree-borrows"] } else { &[] };
            v.push((via, tb, flags, format!("{via:?}{}", if tb { ", tree borrows" } else { "" })));
        }
    }
    v
}
/// Ill-formed programs are rejected with a message, and do not start.
pub fn ill_formed(c: &mut Cases) {
    for (via, _, flags, name) in vias() {
        c.add(format!("ill-formed, {name}"), move || {
            let x = sym_of("x", ity(Signed, 4));
            let prog = prog1(|m| m.print(cint(x, u8t_())));
            let ok = fits(x, u8t_()).decide();
            reach(&format!("fits {ok}"));
            ended(&go(via, flags, prog), (!ok).then_some("well-formed"), if ok { std::slice::from_ref(&x) } else { &[] }, &[])
        })
        .expect(&["fits false", "fits true"]);
    }
}

pub fn cases(c: &mut Cases) {
    ill_formed(c);
    for (via, tb, flags, name) in vias() {
            c.add(format!("every end, {name}"), move || {
                pin_addresses(|_, _| false);
                let (prog, word, out, err) = any_end();
                ended(&go(via, flags, prog), word, &out, &err)
            })
            .expect(&["end 0", "end 1", "end 2", "end 3", "end 4", "end 5"]);
            c.add(format!("aliasing, {name}"), move || {
                pin_addresses(|_, _| false);
                let (prog, bad, out) = aliasing();
                let bad = bad.decide();
                reach(&format!("UB {bad}"));
                let ub = bad && tb;
                ended(&go(via, flags, prog), ub.then_some("UB"), if ub { &out[..1] } else { &out }, &[])
            })
            .expect(&["UB false", "UB true"]);
    }
    c.add("other arguments are left alone", || {
        let (prog, bad, out) = aliasing();
        let mut cfg = cli::MinirustMachineConfig::default();
        let e = command(&[], vec![], vec![], move || {
            for a in ["", "-O", "p.json", "tree-borrows", "-tree-borrows", "--tree-borrows", "minirust-tree-borrows", "-minirust-tree-borrows", "--minirust", "--minimize-dump=json", "--edition=2021", " --minirust-tree-borrows"] {
                if cfg.consume_arg(a) {
                    fail("not an argument of the machine", a)
                }
            }
            cfg.run_prog_and_print_errors(prog)
        });
        reach(&format!("{}", bad.decide()));
        ended(&e, None, &out, &[])
    })
    .expect(&["true", "false"]);
    c.add("unknown arguments are errors", || {
        let (prog, _, _, _) = any_end();
        for a in ["--minirust-", "--minirust-tree", "--minirust-tree-borrowss", "--minirust-tree_borrows", "--minirust-Tree-Borrows", "--minirust-tree-borrows=1"] {
            let e = command(&[], vec![], vec![], || {
                cli::MinirustMachineConfig::default().consume_arg(a);
            });
            ended(&e, Some("Unknown argument"), &[], &[]);
            for via in [Via::Stdin, Via::FileLast, Via::FileFirst] {
                ended(&go(via, &[a], prog), Some("Unknown argument"), &[], &[]);
            }
        }
        ended(&go(Via::FileLast, &["other.json"], prog), Some("more than one"), &[], &[]);
    });
    c.add("returned output", || {
        pin_addresses(|_, _| false);
        let (prog, word, out, _) = any_end();
        let mut got = None;
        let e = command(&[], vec![], vec![], || got = Some(run::get_stdout::<BasicMem>(prog)));
        if let Some(p) = e.panic {
            fail("no panic", &p)
        }
        match (got.unwrap(), word) {
            (Ok(lines), None) => {
                check(B::from(lines.len() == out.len()), "number of lines");
                for (l, o) in lines.iter().zip(&out) {
                    match parse_int(l) {
                        Some(i) => check(is_eq(i, *o), "line"),
                        None => fail("line", l),
                    }
                }
            }
            (Err(t), w) => {
                let e = end_of(t);
                let want = w.unwrap_or("exit").to_lowercase();
                check_msg(B::from(e.kind().starts_with(&want)), "kind of end", &format!("{} instead of {want}", e.text()))
            }
            (Ok(l), Some(w)) => fail(w, &format!("regular end with {l:?}")),
        }
    });
    c.add("reported to the caller", || {
        pin_addresses(|_, _| false);
        let (prog, word, out, _) = any_end();
        for tb in [false, true] {
            let mut got = None;
            let e = command(&[], vec![], vec![], || {
                let mut c = cli::MinirustMachineConfig::default();
                if tb {
                    c.consume_arg("--minirust-tree-borrows");
                }
                got = Some(c.run_prog(prog))
            });
            check(B::from(e.panic.is_none() && e.code.is_none()), "returns");
            let t = end_of(got.unwrap());
            let want = word.unwrap_or("exit").to_lowercase();
            check_msg(B::from(t.kind().starts_with(&want)), "kind of end", &format!("{} instead of {want}", t.text()));
            check(B::from(e.out.len() == out.len()), "number of lines");
            for (l, o) in e.out.iter().zip(&out) {
                match parse_int(l) {
                    Some(i) => check(is_eq(i, *o), "line"),
                    None => fail("line", l),
                }
            }
        }
    });
    c.add("JSON round trip", || {
        pin_addresses(|_, _| false);
        let (prog, word, out, err) = any_end();
        let e = command(&[], vec![], vec![], || {
            json::assert_roundtrip(&prog);
            json::dump_program(&prog)
        });
        if let Some(p) = e.panic {
            fail("can be written and read", &p)
        }
        let text = e.out.join("\n");
        let back = json::load_program(text.as_bytes());
        ended(&go(Via::Config, &[], back), word, &out, &err)
    });
}
