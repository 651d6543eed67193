//! Data races (C12), threads and locks (C13), atomic operations (C14).
//!
//! Small concurrent programs, of which each step is one known operation, are executed under all
//! schedules: what the machine picks is an input. An independent simulation follows the schedule.

use crate::build::*;
use crate::kit::*;
use crate::*;
use std::collections::BTreeMap;
use std::rc::Rc;

/// Where a number comes from.
#[derive(Clone)]
pub enum N {
    C(Int),
    /// a `u32` in shared memory
    Var(u64),
}
use N::*;

#[derive(Clone)]
pub enum Op {
    /// Access to shared memory, by offset; the values do not matter.
    Acc { write: bool, atomic: bool, off: Int, n: u64 },
    /// Copy within shared memory.
    Copy { to: Int, from: Int, n: u64 },
    /// Access of size zero.
    Zst { write: bool, off: Int },
    Deinit { off: Int, n: u64 },
    /// Write zeros.
    Zero { off: Int, n: u64 },
    /// Read a variable (into private memory), or write it.
    Ld(u64, IntType),
    St(u64, IntType, Int),
    /// Write the value read last, plus something.
    StPriv(u64, IntType, i64),
    /// Atomic ones.
    ALd(u64, IntType),
    ASt(u64, IntType, Int),
    AAdd(u64, IntType, Int, bool),
    ACas(u64, IntType, Int, Int),
    /// Print the value read last.
    PrintPriv,
    Print(i64),
    /// Print the address the thread got as its argument.
    PrintArg,
    /// Run the given script, with the given argument; the thread's id goes to the variable.
    Spawn(usize, Int, u64),
    Join(N),
    Lock(u64),
    Acquire(N),
    Release(N),
    /// Jump back by this many operations.
    Return,
    Exit,
    Nop,
    /// Return from the thread's function via the end of a function it calls: here only for main.
    Unreachable,
}
use Op::*;

pub fn u32i() -> IntType {
    IntType { signed: Unsigned, size: Size::from_bits_const(32).unwrap() }
}

const G_LEN: u64 = 32;

fn global_of(p: &mut ProgramBuilder, len: u64, al: u64) -> PlaceExpr {
    let bytes = List::from_elem(Some(byte(0)), Int::from(len));
    let name = GlobalName(Name::from_internal(p_next(p)));
    p_insert(p, name, Global { bytes, relocations: list!(), align: align(al) });
    deref(
        ValueExpr::Constant(
            Constant::GlobalPointer(Relocation { name, offset: Size::ZERO }),
            raw_void_ptr_ty(),
        ),
        blob(len, 1),
    )
}
fn p_next(p: &mut ProgramBuilder) -> u32 {
    p.new_global_name()
}
fn p_insert(p: &mut ProgramBuilder, n: GlobalName, g: Global) {
    p.insert_global(n, g)
}

/// Builds the program: script 0 is the main thread.
pub fn build(scripts: &[Vec<Op>]) -> Program {
    let mut p = ProgramBuilder::new();
    let g = global_of(&mut p, G_LEN, 16);
    // The names of the functions have to be known in advance.
    let mut fs: Vec<FunctionBuilder> = scripts.iter().map(|_| p.declare_function()).collect();
    let names: Vec<FnName> = fs.iter().map(|f| f.name()).collect();
    let mut out = vec![];
    for (i, s) in scripts.iter().enumerate() {
        let mut f = fs.remove(0);
        let private = global_of(&mut p, 16, 16);
        let pp = || addr(private);
        let gp = |off: Int| ptr_offset(addr(g), isize_c(off), InBounds::Yes);
        let var = |off: u64, t: IntType| deref(gp(Int::from(off)), ty_of(t));
        let pv = |t: IntType| deref(pp(), ty_of(t));
        let num = |n: &N| match n {
            C(x) => cint(*x, u32i()),
            Var(o) => load(var(*o, u32i())),
        };
        f.set_conv(CallingConvention::C);
        let arg = if i > 0 {
            f.declare_ret::<()>();
            Some(f.declare_arg::<*const ()>())
        } else {
            None
        };
        let mut last: Option<IntType> = None;
        let bytes = |n: u64| blob(n, 1);
        let mut ended = false;
        for op in s {
            match op {
                Acc { write: false, atomic: false, off, n } => f.assign(deref(pp(), bytes(*n)), load(deref(gp(*off), bytes(*n)))),
                Acc { write: true, atomic: false, off, n } => f.assign(
                    deref(gp(*off), bytes(*n)),
                    transmute(cint(Int::ONE, IntType { signed: Unsigned, size: size(*n) }), bytes(*n)),
                ),
                Zero { off, n } => f.assign(
                    deref(gp(*off), bytes(*n)),
                    transmute(cint(Int::ZERO, IntType { signed: Unsigned, size: size(*n) }), bytes(*n)),
                ),
                Acc { write: false, atomic: true, off, n } =>
                    f.atomic_load(pv(IntType { signed: Unsigned, size: size(*n) }), gp(*off)),
                Acc { write: true, atomic: true, off, n } =>
                    f.atomic_store(gp(*off), cint(Int::ONE, IntType { signed: Unsigned, size: size(*n) })),
                Copy { to, from, n } => f.assign(deref(gp(*to), bytes(*n)), load(deref(gp(*from), bytes(*n)))),
                Zst { write: true, off } => f.assign(deref(gp(*off), bytes(0)), load(deref(pp(), bytes(0)))),
                Zst { write: false, off } => f.assign(deref(pp(), bytes(0)), load(deref(gp(*off), bytes(0)))),
                Deinit { off, n } => f.cur_push(Statement::Deinit { place: deref(gp(*off), bytes(*n)) }),
                Ld(o, t) => {
                    last = Some(*t);
                    f.assign(pv(*t), load(var(*o, *t)))
                }
                St(o, t, x) => f.assign(var(*o, *t), cint(*x, *t)),
                StPriv(o, t, d) => f.assign(var(*o, *t), add(load(pv(*t)), cint(Int::from(*d), *t))),
                ALd(o, t) => {
                    last = Some(*t);
                    f.atomic_load(pv(*t), gp(Int::from(*o)))
                }
                ASt(o, t, x) => f.atomic_store(gp(Int::from(*o)), cint(*x, *t)),
                AAdd(o, t, x, sub) => {
                    last = Some(*t);
                    f.atomic_fetch(
                        if *sub { FetchBinOp::Sub } else { FetchBinOp::Add },
                        pv(*t),
                        gp(Int::from(*o)),
                        cint(*x, *t),
                    )
                }
                ACas(o, t, a, b) => {
                    last = Some(*t);
                    f.compare_exchange(pv(*t), gp(Int::from(*o)), cint(*a, *t), cint(*b, *t))
                }
                PrintPriv => f.print(load(pv(last.unwrap()))),
                Print(x) => f.print(cint(Int::from(*x), isz())),
                PrintArg => f.print(ptr_addr(load(arg.unwrap()))),
                Spawn(s, x, o) => {
                    f.spawn(names[*s], int2raw(*x), var(*o, u32i()));
                }
                Join(n) => f.join(num(n)),
                Lock(o) => f.lock_create(var(*o, u32i())),
                Acquire(n) => f.lock_acquire(num(n)),
                Release(n) => f.lock_release(num(n)),
                Return => {
                    f.return_();
                    ended = true
                }
                Exit => {
                    f.exit();
                    ended = true
                }
                Unreachable => {
                    f.unreachable();
                    ended = true
                }
                Nop => f.place_mention(private),
            }
        }
        assert!(ended);
        out.push(p.finish_function(f));
    }
    p.finish_program(out[0])
}

#[derive(Clone, PartialEq, Debug)]
enum St_ {
    Run,
    Join(usize),
    Lock(usize),
    Done,
}
struct Th {
    script: usize,
    pc: usize,
    st: St_,
    private: Int,
    arg: Int,
}
#[derive(Clone)]
struct Access {
    write: bool,
    atomic: bool,
    off: Int,
    n: u64,
}
impl Access {
    fn races(&self, o: &Access) -> B {
        if self.n == 0 || o.n == 0 { B::from(false) } else { self.races_or_empty(o) }
    }
    /// Like the code under test, which counts empty accesses (finding F08).
    fn races_or_empty(&self, o: &Access) -> B {
        if !(self.write | o.write) || (self.atomic && o.atomic) {
            return B::from(false);
        }
        is_lt(self.off, o.off + Int::from(o.n)) & is_lt(o.off, self.off + Int::from(self.n))
    }
}

#[derive(PartialEq, Clone, Debug)]
enum Eff {
    Go,
    Ub(&'static str),
    Exit,
}

pub struct Sim<'a> {
    scripts: &'a [Vec<Op>],
    ths: Vec<Th>,
    locks: Vec<Option<usize>>,
    mem: BTreeMap<u64, Int>,
    out: Vec<Int>,
    prev: Option<(usize, Vec<usize>, Vec<Access>)>,
    /// In programs with one access per thread.
    uninit: Vec<(Int, u64)>,
    /// The threads ever synchronized with: the code under test does not forget them (finding F07).
    stale: Vec<usize>,
}
impl<'a> Sim<'a> {
    fn new(scripts: &'a [Vec<Op>]) -> Self {
        Sim {
            scripts,
            ths: vec![Th { script: 0, pc: 0, st: St_::Run, private: Int::ZERO, arg: Int::ZERO }],
            locks: vec![],
            mem: BTreeMap::new(),
            out: vec![],
            prev: None,
            uninit: vec![],
            stale: vec![],
        }
    }
    fn enabled(&self) -> Vec<usize> {
        (0..self.ths.len()).filter(|i| self.ths[*i].st == St_::Run).collect()
    }
    fn get(&self, o: u64) -> Int {
        self.mem.get(&o).copied().unwrap_or(Int::ZERO)
    }
    fn num(&self, n: &N, acc: &mut Vec<Access>) -> Int {
        match n {
            C(x) => *x,
            Var(o) => {
                acc.push(Access { write: false, atomic: false, off: Int::from(*o), n: 4 });
                self.get(*o)
            }
        }
    }
    /// One step of thread `t`; `handoff` is the rank of the thread a lock is handed to.
    fn step(&mut self, t: usize, handoff: &mut dyn FnMut(usize) -> usize) -> (Eff, B, B) {
        let op = self.scripts[self.ths[t].script][self.ths[t].pc].clone();
        self.ths[t].pc += 1;
        let mut acc: Vec<Access> = vec![];
        let mut sync: Vec<usize> = vec![];
        let var = |write: bool, atomic: bool, o: u64, ty: IntType| Access {
            write,
            atomic,
            off: Int::from(o),
            n: ty.size.bytes().try_to_usize().unwrap() as u64,
        };
        let mut eff = Eff::Go;
        let mut uninit = None;
        match op {
            Acc { write, atomic, off, n } => acc.push(Access { write, atomic, off, n }),
            Copy { to, from, n } => {
                acc.push(Access { write: false, atomic: false, off: from, n });
                acc.push(Access { write: true, atomic: false, off: to, n });
            }
            Zst { write, off } => acc.push(Access { write, atomic: false, off, n: 0 }),
            Zero { off, n } => acc.push(Access { write: true, atomic: false, off, n }),
            Deinit { off, n } => {
                acc.push(Access { write: true, atomic: false, off, n });
                uninit = Some((off, n));
            }
            Ld(o, ty) => {
                acc.push(var(false, false, o, ty));
                self.ths[t].private = self.get(o);
            }
            St(o, ty, x) => {
                acc.push(var(true, false, o, ty));
                self.mem.insert(o, x);
            }
            StPriv(o, ty, d) => {
                acc.push(var(true, false, o, ty));
                let x = wrap(self.ths[t].private + Int::from(d), ty);
                self.mem.insert(o, x);
            }
            ALd(o, ty) => {
                acc.push(var(false, true, o, ty));
                self.ths[t].private = self.get(o);
            }
            ASt(o, ty, x) => {
                acc.push(var(true, true, o, ty));
                self.mem.insert(o, x);
            }
            AAdd(o, ty, x, sub) => {
                acc.push(var(false, true, o, ty));
                acc.push(var(true, true, o, ty));
                let old = self.get(o);
                self.ths[t].private = old;
                self.mem.insert(o, wrap(if sub { old - x } else { old + x }, ty));
            }
            ACas(o, ty, a, b) => {
                acc.push(var(false, true, o, ty));
                let old = self.get(o);
                self.ths[t].private = old;
                if is_eq(old, a).decide() {
                    acc.push(var(true, true, o, ty));
                    self.mem.insert(o, b);
                }
            }
            PrintPriv => self.out.push(self.ths[t].private),
            Print(x) => self.out.push(Int::from(x)),
            PrintArg => self.out.push(self.ths[t].arg),
            Spawn(s, x, o) => {
                let id = self.ths.len();
                self.ths.push(Th { script: s, pc: 0, st: St_::Run, private: Int::ZERO, arg: x });
                acc.push(var(true, false, o, u32i()));
                self.mem.insert(o, Int::from(id));
                sync.push(id);
            }
            Join(n) => {
                let id = self.num(&n, &mut acc);
                if is_lt(id, 0).decide() || is_le(self.ths.len(), id).decide() {
                    eff = Eff::Ub("join of a thread that does not exist");
                } else {
                    let id = id.try_to_usize().unwrap();
                    if self.ths[id].st != St_::Done {
                        self.ths[t].st = St_::Join(id);
                    }
                }
            }
            Lock(o) => {
                acc.push(var(true, false, o, u32i()));
                self.mem.insert(o, Int::from(self.locks.len()));
                self.locks.push(None);
            }
            Acquire(n) => {
                let id = self.num(&n, &mut acc);
                if is_lt(id, 0).decide() || is_le(self.locks.len(), id).decide() {
                    eff = Eff::Ub("acquire a lock that does not exist");
                } else {
                    let id = id.try_to_usize().unwrap();
                    match self.locks[id] {
                        None => self.locks[id] = Some(t),
                        Some(_) => self.ths[t].st = St_::Lock(id),
                    }
                }
            }
            Release(n) => {
                let id = self.num(&n, &mut acc);
                if is_lt(id, 0).decide() || is_le(self.locks.len(), id).decide() {
                    eff = Eff::Ub("release a lock that does not exist");
                } else {
                    let id = id.try_to_usize().unwrap();
                    if self.locks[id] != Some(t) {
                        eff = Eff::Ub("release a lock that is not held");
                    } else {
                        let waiting: Vec<usize> =
                            (0..self.ths.len()).filter(|i| self.ths[*i].st == St_::Lock(id)).collect();
                        if waiting.is_empty() {
                            self.locks[id] = None;
                        } else {
                            let w = waiting[handoff(waiting.len())];
                            self.ths[w].st = St_::Run;
                            self.locks[id] = Some(w);
                            sync.push(w);
                        }
                    }
                }
            }
            Return =>
                if t == 0 {
                    eff = Eff::Ub("the main thread returns");
                } else {
                    self.ths[t].st = St_::Done;
                    for (i, th) in self.ths.iter_mut().enumerate() {
                        if th.st == St_::Join(t) {
                            th.st = St_::Run;
                            sync.push(i);
                        }
                    }
                },
            Exit => eff = Eff::Exit,
            Unreachable => eff = Eff::Ub("unreachable"),
            Nop => {}
        }
        let mut race = B::from(false);
        let mut reported = B::from(false);
        if let Some((pt, psync, pacc)) = &self.prev {
            if *pt != t && eff == Eff::Go {
                for a in &acc {
                    for b in pacc {
                        if !psync.contains(&t) {
                            race = race | a.races(b);
                        }
                        if !self.stale.contains(&t) {
                            reported = reported | a.races_or_empty(b);
                        }
                    }
                }
            }
        }
        self.stale.extend(sync.iter());
        // A typed load of something de-initialized is UB as well.
        for (off, n) in &self.uninit {
            for a in &acc {
                if !a.write && a.atomic {
                    let x = a.races(&Access { write: true, atomic: false, off: *off, n: *n });
                    race = race | x;
                    reported = reported | x;
                }
            }
        }
        self.uninit.extend(uninit);
        self.prev = Some((t, sync, acc));
        (eff, race, reported)
    }
}

/// The position of the chosen value among those allowed.
fn rank(p: &(Vec<Int>, Int)) -> usize {
    for (i, a) in p.0.iter().enumerate() {
        if is_eq(*a, p.1).decide() {
            return i;
        }
    }
    fail("an allowed choice is made", "")
}

/// Follows the run.
pub fn follow(run: &Run, scripts: &[Vec<Op>]) {
    let mut sim = Sim::new(scripts);
    if run.end.is_panic() {
        fail("no panic", &run.end.text());
    }
    let mut ended = false;
    for (k, picks) in run.steps.iter().enumerate() {
        let last = k + 1 == run.steps.len();
        let en = sim.enabled();
        if en.is_empty() {
            if !last || run.end != End::Deadlock {
                fail("deadlock if no thread can run", &run.end.text());
            }
            reach("deadlock");
            ended = true;
            break;
        }
        if last && run.end == End::Deadlock {
            fail("no deadlock if a thread can run", &format!("{en:?}"));
        }
        let mut picks = picks.iter();
        let t = if en.len() == 1 && picks.len() == 0 {
            en[0]
        } else {
            let Some(p) = picks.next() else { fail("a thread is picked", "") };
            check(p.0.len() == en.len(), "exactly the threads that can run may run");
            en[rank(p)]
        };
        let mut handoff = |n: usize| {
            if n == 1 && picks.len() == 0 {
                return 0;
            }
            let Some(p) = picks.next() else { fail("a waiting thread is picked", "") };
            check(p.0.len() == n, "the lock may go to exactly the waiting threads");
            rank(p)
        };
        let (eff, race, reported) = sim.step(t, &mut handoff);
        match eff {
            Eff::Exit => {
                if !(last && run.end.is_exit()) {
                    fail("exit ends the program", &run.end.text());
                }
                reach("exit");
                ended = true;
                break;
            }
            Eff::Ub(what) => {
                if !(last && run.end.is_ub()) {
                    fail(&format!("UB: {what}"), &run.end.text());
                }
                reach(what);
                ended = true;
                break;
            }
            Eff::Go => {
                if last && run.end.is_ub() {
                    check_msg(race | reported, "data race reported only if there is one", &run.end.text());
                    check_known(race, "F08", "an empty access is taken to race");
                    reach("race");
                    ended = true;
                    break;
                }
                check(!(race & reported), "data race reported");
                check_known(!race, "F07", "a race with a thread synchronized earlier is missed");
                if last {
                    fail("the program goes on", &run.end.text());
                }
            }
        }
    }
    if !ended {
        fail("the program ends as specified", &run.end.text());
    }
    check(sim.out.len() == run.out.len(), "number of outputs");
    for (i, x) in sim.out.iter().enumerate() {
        check(is_eq(run.int(i), *x), "values printed");
    }
}

pub fn go(scripts: Vec<Vec<Op>>) {
    pin_addresses(|_, _| false);
    let r = run(build(&scripts));
    follow(&r, &scripts);
}

/// ---------------------------------------------------------------- C12

const KINDS: [&str; 10] = ["read", "write", "aread", "awrite", "copy", "zread", "zwrite", "deinit", "cas", "add"];

/// An access of the given kind somewhere in the first 8 bytes.
fn access(kind: &str, name: &str, n: u64) -> Op {
    let off = |al: bool| {
        let k = if al { n } else { 1 };
        sym(name, 0, (8 - n as i64) / k as i64) * Int::from(k)
    };
    let t = u32i();
    match kind {
        "read" => Acc { write: false, atomic: false, off: off(false), n },
        "write" => Acc { write: true, atomic: false, off: off(false), n },
        "aread" => Acc { write: false, atomic: true, off: off(true), n },
        "awrite" => Acc { write: true, atomic: true, off: off(true), n },
        "copy" => Copy { to: off(false), from: sym(&format!("{name} from"), 0, 8 - n as i64), n },
        "zread" => Zst { write: false, off: sym(name, 0, 8) },
        "zwrite" => Zst { write: true, off: sym(name, 0, 8) },
        "deinit" => Deinit { off: off(false), n },
        // exchanges if `name` is 0
        "cas" => ACas(4, t, sym(name, 0, 1), Int::ZERO),
        _ => AAdd(0, t, Int::ONE, false),
    }
}
const TID: u64 = 16;
const TID2: u64 = 20;
const LK: u64 = 24;
fn z() -> Int {
    Int::ZERO
}

pub fn races(c: &mut Cases) {
    for a in KINDS {
        for b in KINDS {
            for (na, nb) in [(4u64, 4u64), (1, 4), (2, 1)] {
                let fixed = |k: &str| matches!(k, "cas" | "add" | "zread" | "zwrite");
                if na != 4 && fixed(a) && fixed(b) {
                    continue;
                }
                let f = move || {
                    go(vec![
                        vec![Spawn(1, z(), TID), access(a, "a", na), Exit],
                        vec![access(b, "b", nb), Return],
                    ]);
                };
                if na == 4 || (a < b) {
                    c.add(format!("pair {a}{na} {b}{nb}"), f);
                } else {
                    c.deep(format!("pair {a}{na} {b}{nb}"), f);
                }
            }
        }
    }
    // Two accesses on each side: the second one of a thread, and after other steps.
    for a in ["read", "write", "awrite"] {
        for b in ["read", "write", "awrite"] {
            if a == "read" && b == "read" {
                continue;
            }
            c.add(format!("two {a} {b}"), move || {
                go(vec![
                    vec![Spawn(1, z(), TID), access(a, "a", 2), access(b, "c", 2), Exit],
                    vec![access(b, "b", 2), Nop, access(a, "d", 2), Return],
                ]);
            });
            c.add(format!("three threads {a} {b}"), move || {
                go(vec![
                    vec![Spawn(1, z(), TID), Spawn(2, z(), TID2), access(a, "a", 2), Exit],
                    vec![access(b, "b", 2), Return],
                    vec![access(a, "c", 2), Return],
                ]);
            });
        }
    }
    // Synchronization covers the very next step only.
    c.add("spawn orders", || {
        // writes the id at 0
        go(vec![vec![Spawn(1, z(), 0), Exit], vec![access("read", "b", 4), Return]]);
    });
    c.add("spawn orders only the new thread", || {
        go(vec![
            vec![Spawn(1, z(), TID), Spawn(2, z(), 0), Exit],
            vec![access("write", "b", 2), Return],
            vec![access("read", "c", 4), Return],
        ]);
    });
    c.add("spawn orders once", || {
        go(vec![
            vec![Spawn(1, z(), TID), Acc { write: true, atomic: false, off: z(), n: 4 }, Nop, Exit],
            vec![Nop, access("read", "b", 2), Return],
        ]);
    });
    c.add("thread first, then main", || {
        go(vec![
            vec![Spawn(1, z(), TID), Nop, access("read", "a", 2), Exit],
            vec![access("write", "b", 2), access("read", "d", 1), Return],
        ]);
    });
    // Joining.
    for k in ["read", "write", "awrite"] {
        c.add(format!("join {k}"), move || {
            go(vec![
                vec![Spawn(1, z(), TID), Join(Var(TID)), access(k, "a", 4), Exit],
                vec![access("write", "b", 4), Return],
            ]);
        });
        c.add(format!("join orders once {k}"), move || {
            go(vec![
                vec![Spawn(1, z(), TID), Spawn(2, z(), TID2), Join(Var(TID)), access(k, "a", 4), Exit],
                vec![Return],
                vec![access("write", "b", 4), Return],
            ]);
        });
        // The lock protects, but not if someone does not use it.
        c.add(format!("lock {k}"), move || {
            go(vec![
                vec![Lock(LK), Spawn(1, z(), TID), Acquire(C(z())), access(k, "a", 4), Release(C(z())), Join(C(Int::ONE)), Exit],
                vec![Acquire(C(z())), access("write", "b", 4), Release(C(z())), Return],
            ]);
        });
        c.add(format!("no lock {k}"), move || {
            go(vec![
                vec![Lock(LK), Spawn(1, z(), TID), Acquire(C(z())), access(k, "a", 4), Release(C(z())), Exit],
                vec![access("write", "b", 4), Return],
            ]);
        });
        // After a hand-over, that thread is ordered once.
        c.add(format!("hand-over {k}"), move || {
            go(vec![
                vec![Lock(LK), Acquire(C(z())), Spawn(1, z(), TID), Release(C(z())), access(k, "a", 4), Exit],
                vec![Acquire(C(z())), access("write", "b", 4), Nop, access("read", "c", 1), Return],
            ]);
        });
    }
    // The operands of thread operations are accesses as well.
    c.add("operand of join", || {
        go(vec![
            vec![Spawn(1, z(), 0), Nop, Join(Var(0)), Exit],
            vec![Zero { off: sym("b", 1, 8), n: 1 }, Return],
        ]);
    });
    c.add("operand of release", || {
        // The hand-over orders the read of the lock's number before the write.
        go(vec![
            vec![Lock(4), Acquire(Var(4)), Spawn(1, z(), TID), Release(Var(4)), Exit],
            vec![Acquire(C(z())), Acc { write: true, atomic: false, off: sym("b", 4, 8), n: 1 }, Return],
        ]);
    });
    c.add("operand of acquire", || {
        go(vec![
            vec![Lock(4), Spawn(1, z(), TID), Acquire(Var(4)), Exit],
            vec![Nop, Zero { off: sym("b", 0, 8), n: 1 }, Return],
        ]);
    });
    c.add("create a lock", || {
        go(vec![
            vec![Spawn(1, z(), TID), Nop, Lock(4), Exit],
            vec![access("read", "b", 1), access("write", "c", 1), Return],
        ]);
    });
    c.deep("long", || {
        go(vec![
            vec![Spawn(1, z(), TID), access("write", "a", 2), access("read", "b", 2), Exit],
            vec![access("read", "d", 2), access("write", "e", 2), Return],
        ]);
    });
    c.deep("three threads, two accesses", || {
        go(vec![
            vec![Spawn(1, z(), TID), Spawn(2, z(), TID2), access("write", "a", 2), Exit],
            vec![access("write", "c", 2), access("read", "d", 2), Return],
            vec![access("awrite", "f", 2), Return],
        ]);
    });
}

/// ---------------------------------------------------------------- C13

pub fn locks(c: &mut Cases) {
    let l = || C(z());
    let t = u32i();
    // Two threads do something under a lock.
    c.add("mutual exclusion 2", move || {
        let body = || vec![Acquire(l()), Ld(0, t), StPriv(0, t, 1), Release(l())];
        let mut m = vec![Lock(LK), Spawn(1, z(), TID)];
        m.extend(body());
        m.extend(vec![Join(Var(TID)), Acquire(l()), Ld(0, t), PrintPriv, Exit]);
        let mut b = body();
        b.push(Return);
        go(vec![m, b]);
    });
    c.add("mutual exclusion 3", move || {
        let body = |x: i64| vec![Acquire(l()), Ld(0, t), StPriv(0, t, x), Release(l()), Return];
        go(vec![
            vec![
                Lock(LK),
                Spawn(1, z(), TID),
                Spawn(2, z(), TID2),
                Join(Var(TID)),
                Join(Var(TID2)),
                Ld(0, t),
                PrintPriv,
                Exit,
            ],
            body(1),
            body(10),
        ]);
    });
    c.deep("mutual exclusion 3, all", move || {
        let body = |x: i64| vec![Acquire(l()), St(0, t, Int::from(x)), Release(l())];
        let mut m = vec![Lock(LK), Spawn(1, z(), TID), Spawn(2, z(), TID2)];
        m.extend(body(100));
        m.extend(vec![Join(Var(TID)), Ld(0, t), PrintPriv, Exit]);
        let mut a = body(1);
        a.push(Return);
        let mut b = body(10);
        b.push(Return);
        go(vec![m, a, b]);
    });
    // Who gets the lock.
    c.add("hand-over to one of three", move || {
        let body = |x: i64| vec![Acquire(l()), Print(x), Release(l()), Return];
        go(vec![
            vec![
                Lock(LK),
                Acquire(l()),
                Spawn(1, z(), TID),
                Spawn(2, z(), TID2),
                Release(l()),
                Join(Var(TID)),
                Join(Var(TID2)),
                Exit,
            ],
            body(1),
            body(2),
        ]);
    });
    c.deep("hand-over to one of four", move || {
        go(vec![
            vec![
                Lock(LK),
                Acquire(l()),
                Spawn(1, z(), TID),
                Spawn(2, z(), TID2),
                Spawn(3, z(), 28),
                Release(l()),
                Exit,
            ],
            vec![Acquire(l()), Print(1), Return],
            vec![Acquire(l()), Print(2), Return],
            vec![Acquire(l()), Print(3), Return],
        ]);
    });
    c.add("two locks", move || {
        go(vec![
            vec![Lock(LK), Lock(28), Spawn(1, z(), TID), Acquire(C(z())), Acquire(C(Int::ONE)), Print(0), Exit],
            vec![Acquire(C(Int::ONE)), Acquire(C(z())), Print(1), Release(C(z())), Release(C(Int::ONE)), Return],
        ]);
    });
    c.add("locks are different", move || {
        go(vec![
            vec![Lock(LK), Lock(28), Acquire(Var(LK)), Spawn(1, z(), TID), Acquire(Var(28)), Release(Var(LK)), Exit],
            vec![Acquire(C(z())), Print(7), Acquire(C(Int::ONE)), Return],
        ]);
    });
    // Any lock number.
    for held in [false, true] {
        for other in [false, true] {
            c.add(format!("number held={held} other={other}"), move || {
                let x = sym("lock", 0, pow2(Int::from(32)) - 1);
                let y = sym("release", 0, pow2(Int::from(32)) - 1);
                let mut m = vec![Lock(LK), Lock(28)];
                if held {
                    m.push(Acquire(C(Int::ONE)));
                }
                if other {
                    m.extend(vec![Spawn(1, z(), TID), Join(Var(TID)), Release(C(y)), Exit]);
                    go(vec![m, vec![Acquire(C(x)), Release(C(y)), Return]]);
                } else {
                    m.extend(vec![Acquire(C(x)), Release(C(y)), Release(C(x)), Print(1), Exit]);
                    go(vec![m]);
                }
            });
        }
    }
    // negative, or too large
    for signed in [Signed, Unsigned] {
        for bytes in [1u64, 8, 16] {
            for op in 0..3 {
                let ty = IntType { signed, size: size(bytes) };
                c.add(format!("number {} op {op}", ityname(ty)), move || {
                    let x = sym_of("x", ty);
                    let p = prog1(|f| {
                        let l = live(f, ty_of(u32i()));
                        f.lock_create(l);
                        if op == 1 {
                            f.lock_acquire(load(l));
                        }
                        match op {
                            0 => f.lock_acquire(cint(x, ty)),
                            1 => f.lock_release(cint(x, ty)),
                            _ => f.join(cint(x, ty)),
                        }
                    });
                    let r = run(p);
                    if op == 2 && is_eq(x, 0).decide() {
                        r.must_be("deadlock", "joining itself never ends");
                        return;
                    }
                    r.ub_iff(is_ne(x, 0), "thread or lock number");
                });
            }
        }
    }
    // Releasing what is not held.
    c.add("release by another thread", move || {
        go(vec![
            vec![Lock(LK), Spawn(1, z(), TID), Acquire(l()), Nop, Release(l()), Nop, Exit],
            vec![Nop, Release(l()), Return],
        ]);
    });
    c.add("release after hand-over", move || {
        go(vec![
            vec![Lock(LK), Acquire(l()), Spawn(1, z(), TID), Release(l()), Release(l()), Exit],
            vec![Acquire(l()), Nop, Return],
        ]);
    });
    c.add("a lock is not released by returning", move || {
        go(vec![
            vec![Lock(LK), Spawn(1, z(), TID), Join(Var(TID)), Acquire(l()), Exit],
            vec![Acquire(l()), Return],
        ]);
    });
    // Re-acquiring.
    c.add("acquire twice", move || {
        go(vec![
            vec![Lock(LK), Spawn(1, z(), TID), Acquire(l()), Acquire(l()), Print(1), Exit],
            vec![Print(2), Return],
        ]);
    });
    c.add("acquire twice, one helps", move || {
        go(vec![
            vec![Lock(LK), Acquire(l()), Spawn(1, z(), TID), Release(l()), Acquire(l()), Print(1), Exit],
            vec![Acquire(l()), Release(l()), Acquire(l()), Release(l()), Return],
        ]);
    });
    // Joining.
    c.add("join waits", move || {
        go(vec![
            vec![Spawn(1, sym("arg", 0, pow2(Int::from(64)) - 1), TID), Join(Var(TID)), Print(0), Exit],
            vec![Print(1), PrintArg, Print(2), Return],
        ]);
    });
    c.add("join any thread", move || {
        go(vec![
            vec![Spawn(1, z(), TID), Spawn(2, z(), TID2), Join(C(sym("t", 0, pow2(Int::from(32)) - 1))), Print(0), Exit],
            vec![Print(1), Return],
            vec![Print(2), Return],
        ]);
    });
    c.add("join twice", move || {
        go(vec![
            vec![Spawn(1, z(), TID), Spawn(2, z(), TID2), Join(Var(TID)), Join(Var(TID)), Print(0), Exit],
            vec![Print(1), Return],
            vec![Join(C(Int::ONE)), Print(2), Return],
        ]);
    });
    c.add("join each other", move || {
        go(vec![
            vec![Spawn(1, z(), TID), Join(Var(TID)), Print(0), Exit],
            vec![Print(1), Join(C(sym("t", 0, 1))), Print(2), Return],
        ]);
    });
    c.add("join a thread not there yet", move || {
        go(vec![
            vec![Spawn(1, z(), TID), Nop, Spawn(2, z(), TID2), Join(Var(TID)), Exit],
            vec![Join(C(Int::from(2))), Print(1), Return],
            vec![Print(2), Return],
        ]);
    });
    // The main thread.
    c.add("exit does not wait", move || {
        go(vec![vec![Spawn(1, z(), TID), Print(0), Print(1), Exit], vec![Print(2), Print(3), Return]]);
    });
    c.add("a thread can exit", move || {
        go(vec![vec![Spawn(1, z(), TID), Print(0), Print(1), Exit], vec![Print(2), Exit]]);
    });
    c.add("main waits forever", move || {
        go(vec![vec![Lock(LK), Acquire(l()), Spawn(1, z(), TID), Acquire(l()), Exit], vec![Print(2), Exit]]);
    });
    c.add("main returns", move || {
        go(vec![vec![Spawn(1, z(), TID), Print(0), Return], vec![Print(2), Return]]);
    });
    c.add("spawn from a thread", move || {
        let a = sym("arg", 0, 1000);
        go(vec![
            vec![Spawn(1, a, TID), Join(Var(TID)), Print(0), Exit],
            vec![Spawn(2, a + Int::ONE, TID2), PrintArg, Join(Var(TID2)), Return],
            vec![PrintArg, Return],
        ]);
    });
    c.add("the same function twice", move || {
        go(vec![
            vec![Spawn(1, Int::from(5), TID), Spawn(1, Int::from(6), TID2), Join(Var(TID)), Join(Var(TID2)), Exit],
            vec![PrintArg, Print(1), Return],
        ]);
    });
    c.deep("three threads", move || {
        go(vec![
            vec![
                Spawn(1, Int::from(5), TID),
                Spawn(2, Int::from(6), TID2),
                Spawn(1, Int::from(7), 28),
                Join(Var(TID)),
                Join(Var(28)),
                Exit,
            ],
            vec![PrintArg, Return],
            vec![PrintArg, Join(C(Int::ONE)), Return],
        ]);
    });
    intrinsics(c);
}

/// What is UB for thread and lock operations right away.
fn intrinsics(c: &mut Cases) {
    use IntrinsicLockOp as L;
    use IntrinsicOp as I;
    let ops: [(&str, IntrinsicOp, usize); 5] = [
        ("spawn", I::Spawn, 2),
        ("join", I::Join, 1),
        ("create", I::Lock(L::Create), 0),
        ("acquire", I::Lock(L::Acquire), 1),
        ("release", I::Lock(L::Release), 1),
    ];
    for (name, op, n) in ops {
        // Number and type of the arguments, return type.
        for count in 0..4usize {
            for kind in 0..4usize {
                if count == 0 && kind > 0 {
                    continue;
                }
                for rt in 0..4usize {
                    c.add(format!("{name} with {count} arguments {kind} returning {rt}"), move || {
                        pin_addresses(|_, _| false);
                        let mut p = ProgramBuilder::new();
                        let th = {
                            let mut f = p.declare_function();
                            f.set_conv(CallingConvention::C);
                            f.declare_ret::<()>();
                            f.declare_arg::<*const ()>();
                            f.return_();
                            p.finish_function(f)
                        };
                        let main = main_fn(&mut p, |f| {
                            let l = live(f, ty_of(u32i()));
                            f.lock_create(l);
                            if name == "release" {
                                f.lock_acquire(load(l));
                            }
                            if name == "join" {
                                f.spawn(th, null(), l);
                                f.assign(l, cint(Int::ONE, u32i()));
                            }
                            let any = |i: usize| match (kind, i) {
                                (0, 0) if name == "spawn" => fn_ptr(th),
                                (0, 1) => null(),
                                (0, _) => load(l),
                                (1, _) => const_bool(true),
                                (2, _) => null(),
                                (3, 0) if name == "spawn" => fn_ptr(th),
                                _ => load(l),
                            };
                            let args: Vec<ValueExpr> = (0..count).map(any).collect();
                            let ret_ty = match rt {
                                0 => ty_of(u32i()),
                                1 => <()>::get_type(),
                                2 => raw(),
                                _ => Type::Bool,
                            };
                            let ret = live(f, ret_ty);
                            f.intrinsic(op, &args, ret);
                        });
                        let r = run(p.finish_program(main));
                        let args_ok = count == n && (kind == 0 || (kind == 3 && (name == "acquire" || name == "release" || name == "join")) || n == 0);
                        let ret_ok = if name == "spawn" || name == "create" { rt == 0 } else { rt == 1 };
                        let ok = args_ok && ret_ok;
                        if ok {
                            r.must_exit("accepted");
                        } else {
                            r.must_ub("UB");
                        }
                    });
                }
            }
        }
    }
    // The function a thread starts.
    for which in 0..6usize {
        c.add(format!("spawn function {which}"), move || {
            let mut p = ProgramBuilder::new();
            let th = {
                let mut f = p.declare_function();
                if which == 1 {
                    f.declare_ret::<u8>();
                } else {
                    f.declare_ret::<()>();
                }
                match which {
                    2 => {}
                    3 => {
                        f.declare_arg::<*const ()>();
                        f.declare_arg::<*const ()>();
                    }
                    4 => {
                        f.declare_arg::<usize>();
                    }
                    5 => {
                        f.declare_arg::<*const ()>();
                        f.set_conv(CallingConvention::Rust);
                    }
                    _ => {
                        f.declare_arg::<*const ()>();
                    }
                }
                if which != 5 {
                    f.set_conv(CallingConvention::C);
                }
                f.print(const_int(1u8));
                f.exit();
                p.finish_function(f)
            };
            let main = main_fn(&mut p, |f| {
                let l = live(f, ty_of(u32i()));
                f.spawn(th, null(), l);
                f.join(load(l));
            });
            let r = run(p.finish_program(main));
            if which == 0 {
                r.must_exit("the thread runs");
                check(r.out.len() == 1, "once");
            } else {
                r.must_ub("the function does not fit");
            }
        });
    }
    c.add("spawn any address", || {
        let a = sym("address", 0, pow2(Int::from(64)) - 1);
        let p = prog1(|f| {
            let l = live(f, ty_of(u32i()));
            f.intrinsic(I::Spawn, &[transmute(int2raw(a), Type::Ptr(PtrType::FnPtr)), null()], l);
        });
        run(p).must_ub("not a function");
    });
    // The id has to fit the type.
    // (threads: too many schedules)
    for k in ["lock"] {
        c.add(format!("id does not fit {k}"), move || {
            pin_addresses(|_, _| false);
            let t8 = IntType { signed: Signed, size: size(1) };
            let n = 129u64;
            let mut p = ProgramBuilder::new();
            let th = {
                let mut f = p.declare_function();
                f.set_conv(CallingConvention::C);
                f.declare_ret::<()>();
                f.declare_arg::<*const ()>();
                f.return_();
                p.finish_function(f)
            };
            let main = main_fn(&mut p, |f| {
                let l = live(f, ty_of(t8));
                for _ in 0..n {
                    if k == "lock" {
                        f.lock_create(l);
                        f.print(load(l));
                    } else {
                        f.spawn(th, null(), l);
                        f.print(load(l));
                        f.join(load(l));
                    }
                }
            });
            let r = run(p.finish_program(main));
            // -128 would be wrong
            r.must_ub("the id does not fit");
            check(r.out.len() == if k == "lock" { 128 } else { 127 }, "until then it works");
        });
    }
}
