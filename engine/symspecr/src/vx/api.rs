//! The harness interface, symbolic flavour.

use super::explore::*;
use super::term::*;
use crate::{Int, Signedness, Size};
use num_bigint::BigInt;
use std::panic::{AssertUnwindSafe, catch_unwind, resume_unwind};

pub const SYMBOLIC: bool = true;

/// A formula.
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub struct B(pub(crate) Bid);

impl From<bool> for B {
    fn from(b: bool) -> B {
        B(if b { TRUE } else { FALSE })
    }
}
impl std::ops::Not for B {
    type Output = B;
    fn not(self) -> B {
        B(with(|t| t.bnot(self.0)))
    }
}
impl std::ops::BitAnd for B {
    type Output = B;
    fn bitand(self, o: B) -> B {
        B(with(|t| t.band(vec![self.0, o.0])))
    }
}
impl std::ops::BitOr for B {
    type Output = B;
    fn bitor(self, o: B) -> B {
        B(with(|t| t.bor(vec![self.0, o.0])))
    }
}
impl B {
    pub fn implies(self, o: B) -> B {
        !self | o
    }
    pub fn iff(self, o: B) -> B {
        (self & o) | (!self & !o)
    }
    /// Forks on the formula.
    pub fn decide(self) -> bool {
        decide_b(self.0)
    }
    /// 1 or 0
    pub fn int(self) -> Int {
        ite(self, 1, 0)
    }
}

pub fn eq(a: impl Into<Int>, b: impl Into<Int>) -> B {
    let (a, b) = (a.into().tid(), b.into().tid());
    B(with(|t| t.eq(a, b)))
}
pub fn ne(a: impl Into<Int>, b: impl Into<Int>) -> B {
    !eq(a, b)
}
pub fn le(a: impl Into<Int>, b: impl Into<Int>) -> B {
    let (a, b) = (a.into().tid(), b.into().tid());
    B(with(|t| t.le(a, b)))
}
pub fn lt(a: impl Into<Int>, b: impl Into<Int>) -> B {
    let (a, b) = (a.into().tid(), b.into().tid());
    B(with(|t| t.lt(a, b)))
}
pub fn ite(c: B, a: impl Into<Int>, b: impl Into<Int>) -> Int {
    let (a, b) = (a.into().tid(), b.into().tid());
    Int::from_tid(with(|t| t.ite(c.0, a, b)))
}

/// A symbolic input in `lo..=hi`.
pub fn sym(name: &str, lo: impl Into<Int>, hi: impl Into<Int>) -> Int {
    let (lo, hi) = (lo.into().into_inner(), hi.into().into_inner());
    Int::from_tid(st(|s| s.fresh(name, lo, hi)))
}
/// A symbolic input of the given integer type.
pub fn sym_int(name: &str, signed: Signedness, size: Size) -> Int {
    let bits = size.bits().try_to_usize().unwrap() as u32;
    let (lo, hi) = range(bits, matches!(signed, Signedness::Signed));
    Int::from_tid(st(|s| s.fresh(name, lo, hi)))
}
/// A symbolic truth value (does not fork).
pub fn sym_bool(name: &str) -> B {
    eq(sym(name, 0, 1), 1)
}
/// Forks over `0..n`.
pub fn choose(name: &str, n: usize) -> usize {
    assert!(n > 0);
    if n == 1 {
        return 0;
    }
    let t = sym(name, 0, n as i64 - 1).tid();
    concretize_usize(t, n as u32 + 1)
}
/// Remembers something about this path for reports.
pub fn note(key: &str, val: impl std::fmt::Display) {
    let v = val.to_string();
    st(|s| s.note(key.to_string(), v));
}
pub fn assume(c: impl Into<B>) {
    assume_bid(c.into().0)
}
pub fn check(c: impl Into<B>, label: &str) {
    check_bid(c.into().0, label, "")
}
pub fn check_msg(c: impl Into<B>, label: &str, detail: &str) {
    check_bid(c.into().0, label, detail)
}
pub fn fail(label: &str, detail: &str) -> ! {
    check_bid(FALSE, label, detail);
    kill_path()
}
/// Vacuity witness: records that a feasible path reached this point.
pub fn reach(label: &str) {
    st(|s| {
        s.stats.reached.insert(label.to_string());
    });
}
/// Runs `f`, turning panics other than the engine's own into `Err`.
pub fn catch<O>(f: impl FnOnce() -> O) -> Result<O, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(o) => Ok(o),
        Err(e) =>
            if e.is::<Control>() {
                resume_unwind(e)
            } else {
                Err(panic_text(&*e))
            },
    }
}
/// Reads back an integer printed by the program under test.
pub fn parse_int(s: &str) -> Option<Int> {
    if let Some(r) = s.strip_prefix('⟦') {
        let r = r.strip_suffix('⟧')?;
        return Some(Int::from_tid(Tid(r.parse().ok()?)));
    }
    Some(Int::wrap(s.parse::<BigInt>().ok()?))
}
pub fn is_concrete(i: Int) -> bool {
    i.sym_tid().is_none()
}
/// A byte with the given value (in `0..256`).
pub fn byte(i: impl Into<Int>) -> crate::Byte {
    crate::Byte::from_int(i.into())
}
/// A symbolic byte.
pub fn sym_byte(name: &str) -> crate::Byte {
    byte(sym(name, 0, 255))
}
/// Configures the solver.
pub fn set_solver(timeout_ms: u64, cross_every: u64) {
    st(|s| {
        s.solver.timeout_ms = timeout_ms;
        s.solver.cross_every = cross_every;
    })
}
pub fn solver_stats() -> super::smt::SolverStats {
    st(|s| s.solver.stats.clone())
}

thread_local! {
    static PIN: std::cell::RefCell<(Option<std::rc::Rc<dyn Fn(u64, u64) -> bool>>, u64)> = std::cell::RefCell::new((None, 0));
}
/// The addresses of allocations are fixed except for those `keep` (given number and alignment) says to
/// keep symbolic.
pub fn pin_addresses(keep: impl Fn(u64, u64) -> bool + 'static) {
    PIN.with(|p| *p.borrow_mut() = (Some(std::rc::Rc::new(keep)), 0))
}
thread_local! {
    static SWITCHES: std::cell::RefCell<(Option<u32>, Int)> = std::cell::RefCell::new((None, Int::ZERO));
}
/// Bounds how often the choice of a thread differs from the one before although that is possible.
pub fn switches(n: Option<u32>) {
    SWITCHES.with(|s| *s.borrow_mut() = (n, Int::ZERO))
}
/// The possible choices, given the bound; if there is one.
pub(crate) fn few_switches(ok: &[Int]) -> Option<Vec<Int>> {
    let (n, last) = SWITCHES.with(|s| *s.borrow());
    let n = n?;
    if n == 0 && ok.iter().any(|x| eq(*x, last).decide()) { Some(vec![last]) } else { Some(ok.to_vec()) }
}
pub(crate) fn switched(ok: &[Int], to: Int) {
    let (n, last) = SWITCHES.with(|s| *s.borrow());
    let preempted = ok.iter().any(|x| eq(*x, last).decide()) && !eq(to, last).decide();
    SWITCHES.with(|s| *s.borrow_mut() = (n.map(|n| n - preempted as u32), to))
}
pub fn restart_pins(off: bool) {
    PIN.with(|p| {
        let mut p = p.borrow_mut();
        p.1 = 0;
        if off {
            p.0 = None;
        }
    })
}
pub(crate) fn next_pin(al: &BigInt) -> Option<u64> {
    use num_traits::ToPrimitive;
    let (f, n) = PIN.with(|p| {
        let mut p = p.borrow_mut();
        p.1 += 1;
        (p.0.clone(), p.1 - 1)
    });
    let f = f?;
    if f(n, al.to_u64().unwrap_or(0)) { None } else { Some(n) }
}

thread_local! {
    static PICKS: std::cell::RefCell<Vec<(Vec<Int>, Int)>> = std::cell::RefCell::new(vec![]);
}
/// Remembers a choice between few values: those allowed, and the chosen one.
pub fn log_pick(allowed: Vec<Int>, chosen: Int) {
    PICKS.with(|p| p.borrow_mut().push((allowed, chosen)))
}
/// The choices since the last call.
pub fn take_picks() -> Vec<(Vec<Int>, Int)> {
    PICKS.with(|p| std::mem::take(&mut *p.borrow_mut()))
}
