//! What all properties use: running programs, comparing outcomes, cases.

use crate::build::*;
use crate::mock_write::MockWrite;
pub use crate::vx::{pin_addresses, 
    B, SYMBOLIC, assume as suppose, byte, catch, check, check_msg, choose, eq as is_eq, fail, is_concrete, ite,
    kill_path, le as is_le, lt as is_lt, ne as is_ne, note, parse_int, reach, sym, sym_bool, sym_byte, sym_int,
};
use crate::*;
use std::cell::Cell;

pub struct Case {
    pub name: String,
    pub f: Box<dyn Fn()>,
    pub max_secs: u64,
    pub max_paths: u64,
    /// Labels that have to be reached for the case not to be vacuous.
    pub expect: Vec<String>,
    pub thorough_only: bool,
    /// Findings that are known, and what they make it panic with.
    pub known: Vec<(String, String)>,
}
pub struct Cases {
    pub v: Vec<Case>,
    pub thorough: bool,
    /// Rust programs to be translated.
    pub rust: Vec<crate::rust::Src>,
}
impl Cases {
    pub fn add(&mut self, name: impl Into<String>, f: impl Fn() + 'static) -> &mut Case {
        let name = name.into();
        debug_assert!(!self.v.iter().any(|c| c.name == name), "duplicate case {name}");
        let max_secs = if self.thorough { 1200 } else { 120 };
        self.v.push(Case { name, f: Box::new(f), max_secs, max_paths: 1_000_000, expect: vec![], thorough_only: false, known: vec![] });
        self.v.last_mut().unwrap()
    }
    /// Only in the thorough tier.
    pub fn deep(&mut self, name: impl Into<String>, f: impl Fn() + 'static) {
        if self.thorough {
            self.add(name, f);
        }
    }
}
impl Case {
    pub fn expect(&mut self, l: &[&str]) -> &mut Self {
        self.expect.extend(l.iter().map(|s| s.to_string()));
        self
    }
    /// A panic with this text is the known finding `id`.
    pub fn known(&mut self, id: &str, text: &str) -> &mut Self {
        self.known.push((id.to_string(), text.to_string()));
        self
    }
    pub fn go(&self) {
        KNOWN.with(|k| *k.borrow_mut() = self.known.clone());
        (self.f)()
    }
    pub fn thorough_only(&mut self) -> &mut Self {
        self.thorough_only = true;
        self
    }
    pub fn secs(&mut self, s: u64) -> &mut Self {
        self.max_secs = s;
        self
    }
}

thread_local! {
    static KNOWN: std::cell::RefCell<Vec<(String, String)>> = std::cell::RefCell::new(vec![]);
}
/// Ends the path if this panic is a known finding.
pub fn panicked(text: &str) {
    let k = KNOWN.with(|k| k.borrow().iter().find(|k| text.contains(&k.1)).cloned());
    if let Some((id, _)) = k {
        fail(&format!("known {id}"), text)
    }
}
/// What fails is the known finding `id`.
#[track_caller]
pub fn check_known(c: impl Into<B>, id: &str, what: &str) {
    check(c, &format!("known {id}: {what}"))
}
thread_local! {
    static RUNS: Cell<u64> = Cell::new(0);
    static STEPS: Cell<u64> = Cell::new(0);
}
pub fn reset_counters() {
    RUNS.set(0);
    STEPS.set(0);
}
pub fn counters() -> (u64, u64) {
    (RUNS.get(), STEPS.get())
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum End {
    /// The program stopped regularly.
    Exit,
    Ub(String),
    IllFormed(String),
    Abort,
    Deadlock,
    Leak,
    /// The interpreter itself panicked.
    Panic(String),
    /// Still running after the given number of steps.
    Steps,
}
impl End {
    pub fn kind(&self) -> &'static str {
        match self {
            End::Exit => "exit",
            End::Ub(_) => "ub",
            End::IllFormed(_) => "ill-formed",
            End::Abort => "abort",
            End::Deadlock => "deadlock",
            End::Leak => "leak",
            End::Panic(_) => "panic",
            End::Steps => "steps",
        }
    }
    pub fn text(&self) -> String {
        match self {
            End::Ub(s) | End::IllFormed(s) | End::Panic(s) => format!("{}: {s}", self.kind()),
            _ => self.kind().to_string(),
        }
    }
    pub fn is_ub(&self) -> bool {
        matches!(self, End::Ub(_))
    }
    pub fn is_exit(&self) -> bool {
        *self == End::Exit
    }
    pub fn is_panic(&self) -> bool {
        matches!(self, End::Panic(_))
    }
}

#[derive(Clone, Debug)]
pub enum Out {
    Int(Int),
    Bool(bool),
    Other(String),
}
#[derive(Clone, Debug)]
pub struct Run {
    pub end: End,
    pub out: Vec<Out>,
    pub err: Vec<Out>,
    /// Per step: the choices between few values (allowed values, chosen value).
    pub steps: Vec<Vec<(Vec<Int>, Int)>>,
}
impl Run {
    #[track_caller]
    pub fn int(&self, i: usize) -> Int {
        match self.out.get(i) {
            Some(Out::Int(x)) => *x,
            x => fail("prints the expected number of integers", &format!("output {i} is {x:?}, end {}", self.end.text())),
        }
    }
    pub fn bool(&self, i: usize) -> bool {
        match self.out.get(i) {
            Some(Out::Bool(x)) => *x,
            x => fail("prints the expected number of truth values", &format!("output {i} is {x:?}, end {}", self.end.text())),
        }
    }
    /// The run has to have ended regularly.
    #[track_caller]
    pub fn must_exit(&self, what: &str) {
        if !self.end.is_exit() {
            fail(what, &format!("program ended with {}", self.end.text()));
        } else {
            check(true, what);
        }
    }
    /// The run has to have UB.
    #[track_caller]
    pub fn must_ub(&self, what: &str) {
        if !self.end.is_ub() {
            fail(what, &format!("program ended with {}", self.end.text()));
        } else {
            check(true, what);
        }
    }
    pub fn must_be(&self, kind: &str, what: &str) {
        if self.end.kind() != kind {
            fail(what, &format!("program ended with {}", self.end.text()));
        } else {
            check(true, what);
        }
    }
    /// UB if `ub`, otherwise a regular end; `ub` may be symbolic. True if it was a regular end.
    pub fn ub_iff(&self, ub: impl Into<B>, what: &str) -> bool {
        let ub = ub.into();
        match &self.end {
            End::Ub(s) => {
                check_msg(ub, &format!("{what}: UB only if specified"), s);
                reach("ub");
                false
            }
            End::Exit => {
                check(!ub, &format!("{what}: no UB missed"));
                reach("exit");
                true
            }
            e => fail(&format!("{what}: UB or regular end"), &e.text()),
        }
    }
}

pub fn end_of(t: TerminationInfo) -> End {
    match t {
        TerminationInfo::Ub(s) => End::Ub(format!("{s:?}")),
        TerminationInfo::IllFormed(s) => End::IllFormed(format!("{s:?}")),
        TerminationInfo::MachineStop => End::Exit,
        TerminationInfo::Abort => End::Abort,
        TerminationInfo::Deadlock => End::Deadlock,
        TerminationInfo::MemoryLeak => End::Leak,
    }
}

/// Runs `prog` for at most `max` steps. `pick`s the machine makes become inputs.
pub fn run_n<M: Memory>(prog: Program, max: u64) -> Run {
    let out = MockWrite::new();
    let err = MockWrite::new();
    let o = out.clone();
    let e = err.clone();
    RUNS.set(RUNS.get() + 1);
    vx::restart_pins(false);
    vx::take_picks();
    let steps = std::rc::Rc::new(std::cell::RefCell::new(vec![]));
    let steps2 = steps.clone();
    let r: Result<End, String> = catch(move || {
        let res: NdResult<End> = try {
            let mut machine = Machine::<M>::new(prog, DynWrite::new(o), DynWrite::new(e))?;
            let mut n = 0;
            loop {
                if n == max {
                    break End::Steps;
                }
                n += 1;
                STEPS.set(STEPS.get() + 1);
                let r = machine.step();
                steps2.borrow_mut().push(vx::take_picks());
                r?;
            }
        };
        match res.get_internal() {
            Ok(e) => e,
            Err(t) => end_of(t),
        }
    });
    let end = match r {
        Ok(e) => e,
        Err(p) => {
            panicked(&p);
            End::Panic(p)
        }
    };
    note("end", end.kind());
    let parse = |w: MockWrite| {
        w.into_strings()
            .into_iter()
            .map(|s| match s.as_str() {
                "true" => Out::Bool(true),
                "false" => Out::Bool(false),
                s => match parse_int(s) {
                    Some(i) => Out::Int(i),
                    None => Out::Other(s.to_string()),
                },
            })
            .collect()
    };
    let steps = steps.borrow().clone();
    Run { end, out: parse(out), err: parse(err), steps }
}
/// On x86-64 with the basic memory model.
pub fn run(prog: Program) -> Run {
    run_n::<BasicMem>(prog, 4000)
}
pub fn run_tb(prog: Program) -> Run {
    run_n::<TreeBorrowMem>(prog, 4000)
}

/// A program with a single function.
pub fn prog1(f: impl FnOnce(&mut FunctionBuilder)) -> Program {
    let mut p = ProgramBuilder::new();
    let main = main_fn(&mut p, f);
    p.finish_program(main)
}
/// The start function; exits at the end of `f`.
pub fn main_fn(p: &mut ProgramBuilder, f: impl FnOnce(&mut FunctionBuilder)) -> FnName {
    let mut b = p.declare_function();
    f(&mut b);
    b.exit();
    p.finish_function(b)
}

pub fn ity(signed: Signedness, bytes: u64) -> IntType {
    IntType { signed, size: Size::from_bytes(bytes).unwrap() }
}
pub fn ty_of(i: IntType) -> Type {
    Type::Int(i)
}
pub fn ityname(i: IntType) -> String {
    format!("{}{}", if i.signed == Signed { "i" } else { "u" }, i.size.bits())
}
/// All integer types.
pub fn all_ity() -> Vec<IntType> {
    let mut v = vec![];
    for b in [1, 2, 4, 8, 16] {
        for s in [Unsigned, Signed] {
            v.push(ity(s, b));
        }
    }
    v
}
pub fn imin(t: IntType) -> Int {
    if t.signed == Signed { -pow2(t.size.bits() - 1) } else { Int::ZERO }
}
pub fn imax(t: IntType) -> Int {
    if t.signed == Signed { pow2(t.size.bits() - 1) - 1 } else { pow2(t.size.bits()) - 1 }
}
pub fn pow2(n: Int) -> Int {
    let mut r = Int::ONE;
    for _ in 0..n.try_to_usize().unwrap() {
        r = r * 2;
    }
    r
}
pub fn fits(x: Int, t: IntType) -> B {
    is_le(imin(t), x) & is_le(x, imax(t))
}
pub fn sym_of(name: &str, t: IntType) -> Int {
    sym_int(name, t.signed, t.size)
}
/// The integer with the same bits as `x` modulo 2^bits: arithmetic definition.
pub fn wrap(x: Int, t: IntType) -> Int {
    let m = pow2(t.size.bits());
    let r = x.rem_euclid_(m);
    if t.signed == Signed { ite(is_lt(imax(t), r), r - m, r) } else { r }
}
pub trait RemEuclid {
    fn rem_euclid_(self, m: Int) -> Int;
}
impl RemEuclid for Int {
    /// `m` is positive.
    fn rem_euclid_(self, m: Int) -> Int {
        let r = self % m;
        ite(is_lt(r, 0), r + m, r)
    }
}
pub fn cint(x: Int, t: IntType) -> ValueExpr {
    const_int_typed_(x, t)
}
pub fn const_int_typed_(x: Int, t: IntType) -> ValueExpr {
    ValueExpr::Constant(Constant::Int(x), Type::Int(t))
}

/// Thin raw pointer.
pub fn raw() -> Type {
    raw_void_ptr_ty()
}
pub fn u8t() -> Type {
    Type::Int(ity(Unsigned, 1))
}
pub fn usz() -> IntType {
    ity(Unsigned, 8)
}
pub fn isz() -> IntType {
    ity(Signed, 8)
}
/// A type of raw bytes.
pub fn blob(n: u64, al: u64) -> Type {
    union_ty(&[], size(n), align(al))
}
/// A live local.
pub fn live(f: &mut FunctionBuilder, t: Type) -> PlaceExpr {
    let l = f.declare_local_with_ty(t);
    f.storage_live(l);
    l
}
/// A raw pointer to the place.
pub fn addr(p: PlaceExpr) -> ValueExpr {
    addr_of(p, raw())
}
pub fn usize_c(i: impl Into<Int>) -> ValueExpr {
    cint(i.into(), usz())
}
pub fn isize_c(i: impl Into<Int>) -> ValueExpr {
    cint(i.into(), isz())
}
/// The place `off` bytes after `ptr` (no inbounds requirement), at type `t`.
pub fn at(ptr: ValueExpr, off: impl Into<Int>, t: Type) -> PlaceExpr {
    deref(ptr_offset(ptr, isize_c(off), InBounds::No), t)
}
/// Writes one byte.
pub fn poke(f: &mut FunctionBuilder, ptr: ValueExpr, off: u64, b: Int) {
    f.assign(at(ptr, off, u8t()), cint(b, ity(Unsigned, 1)));
}
/// Prints one byte (UB if it is not initialized).
pub fn peek(f: &mut FunctionBuilder, ptr: ValueExpr, off: u64) {
    f.print(load(at(ptr, off, u8t())));
}
/// Copies `n` raw bytes, initialized or not, with provenance.
pub fn copy(f: &mut FunctionBuilder, to: ValueExpr, to_off: u64, from: ValueExpr, from_off: u64, n: u64) {
    f.assign(at(to, to_off, blob(n, 1)), load(at(from, from_off, blob(n, 1))));
}
/// `i`-th byte of the two's complement representation.
pub fn byte_of(x: Int, i: u64) -> Int {
    let p = pow2(Int::from(8 * i));
    let r = x.rem_euclid_(p * 256);
    // floor
    (r - r % p) / p
}
pub fn all(v: impl IntoIterator<Item = B>) -> B {
    v.into_iter().fold(B::from(true), |a, b| a & b)
}
pub fn any(v: impl IntoIterator<Item = B>) -> B {
    v.into_iter().fold(B::from(false), |a, b| a | b)
}
pub fn relop(op: RelOp, l: ValueExpr, r: ValueExpr) -> ValueExpr {
    ValueExpr::BinOp { operator: BinOp::Rel(op), left: GcCow::new(l), right: GcCow::new(r) }
}
pub fn unop(op: UnOp, x: ValueExpr) -> ValueExpr {
    ValueExpr::UnOp { operator: op, operand: GcCow::new(x) }
}
pub fn binop(op: BinOp, l: ValueExpr, r: ValueExpr) -> ValueExpr {
    ValueExpr::BinOp { operator: op, left: GcCow::new(l), right: GcCow::new(r) }
}
/// An integer read as a pointer without provenance.
pub fn int2raw(x: Int) -> ValueExpr {
    transmute(usize_c(x), raw())
}

macro_rules! target {
    ($n:ident, $ptr:expr, $intmax:expr, $e:expr) => {
        #[allow(non_camel_case_types)]
        #[derive(GcCompat, Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, serde::Serialize, serde::Deserialize)]
        pub struct $n;
        impl Target for $n {
            const PTR_SIZE: Size = Size::from_bits_const($ptr).unwrap();
            const PTR_ALIGN: Align = Align::from_bits_const($ptr).unwrap();
            const INT_MAX_ALIGN: Align = Align::from_bits_const($intmax).unwrap();
            const ENDIANNESS: Endianness = $e;
            const MAX_ATOMIC_SIZE: Size = Size::from_bits_const($ptr).unwrap();
            fn valid_size(size: Size) -> bool {
                size.bytes().in_bounds(Signed, Self::PTR_SIZE)
            }
        }
    };
}
target!(Be32, 32, 64, BigEndian);
target!(Le16, 16, 16, LittleEndian);
target!(Be64, 64, 128, BigEndian);
pub fn run_t<T: Target + serde::de::DeserializeOwned + serde::Serialize>(prog: Program) -> Run {
    run_n::<BasicMemory<T>>(prog, 4000)
}

/// Changes the type of the return place of a function.
pub fn set_ret(mut prog: Program, f: FnName, t: Type) -> Program {
    let mut func = prog.functions.get(f).unwrap();
    func.locals.insert(func.ret, t);
    prog.functions.insert(f, func);
    prog
}
/// `x mod m` (`x` not negative), one path per value.
pub fn concrete_mod(x: Int, m: Int) -> Int {
    let n = m.try_to_usize().unwrap() as u64;
    let y = x % m;
    for i in 0..n - 1 {
        if is_eq(y, Int::from(i)).decide() {
            return Int::from(i);
        }
    }
    Int::from(n - 1)
}
/// `i`-th bit of the two's complement representation.
pub fn bit_of(x: Int, i: u32) -> Int {
    let p = pow2(Int::from(i));
    let y = x.rem_euclid_(p * 2);
    ite(is_lt(y, p), 0, 1)
}
