//! The harness interface, native flavour: symbolic inputs take recorded values, formulas are plain
//! booleans, everything is executed by the unmodified code.
//!
//! Added to a copy of the stock `libspecr` when replaying a counterexample.

use crate::{Int, Signedness, Size};
use num_bigint::BigInt;
use std::cell::RefCell;
use std::panic::{AssertUnwindSafe, catch_unwind, panic_any, resume_unwind};

pub const SYMBOLIC: bool = false;

#[derive(Default)]
struct Replay {
    vars: Vec<(String, BigInt)>,
    pos: usize,
    notes: Vec<(String, String)>,
    failed: Vec<(String, String)>,
    passed: Vec<String>,
    mismatch: Option<String>,
}
thread_local! {
    static R: RefCell<Replay> = RefCell::new(Replay::default());
}
fn r<O>(f: impl FnOnce(&mut Replay) -> O) -> O {
    R.with(|x| f(&mut x.borrow_mut()))
}

enum Control {
    Kill,
    Mismatch,
}

#[derive(Clone, Debug, Default)]
pub struct ReplayResult {
    pub failed: Vec<(String, String)>,
    pub passed: Vec<String>,
    pub notes: Vec<(String, String)>,
    /// The run asked for other inputs than recorded, violated an assumption or panicked in the harness.
    pub mismatch: Option<String>,
}

/// Runs `f` once with the recorded inputs.
pub fn replay(vars: Vec<(String, BigInt)>, f: &mut dyn FnMut()) -> ReplayResult {
    r(|x| *x = Replay { vars, ..Default::default() });
    let res = catch_unwind(AssertUnwindSafe(&mut *f));
    r(|x| {
        let mut mismatch = x.mismatch.clone();
        if let Err(e) = res {
            if !e.is::<Control>() {
                mismatch = Some(format!("harness panic: {}", panic_text(&*e)));
            }
        }
        ReplayResult { failed: x.failed.clone(), passed: x.passed.clone(), notes: x.notes.clone(), mismatch }
    })
}
fn mismatch(m: String) -> ! {
    r(|x| x.mismatch = Some(m));
    panic_any(Control::Mismatch)
}
pub(crate) fn next(name: &str, lo: &BigInt, hi: &BigInt) -> BigInt {
    let v = r(|x| {
        let v = x.vars.get(x.pos).cloned();
        x.pos += 1;
        v
    });
    match v {
        // Symbolic execution stops at the violation; what comes later is arbitrary.
        None => lo.clone(),
        Some((n, v)) => {
            if n != name {
                mismatch(format!("the run asks for `{name}`, recorded is `{n}`"));
            }
            if v < *lo || v > *hi {
                mismatch(format!("{v} is out of range for `{name}`"));
            }
            v
        }
    }
}

/// A formula.
#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub struct B(bool);
impl From<bool> for B {
    fn from(b: bool) -> B {
        B(b)
    }
}
impl std::ops::Not for B {
    type Output = B;
    fn not(self) -> B {
        B(!self.0)
    }
}
impl std::ops::BitAnd for B {
    type Output = B;
    fn bitand(self, o: B) -> B {
        B(self.0 & o.0)
    }
}
impl std::ops::BitOr for B {
    type Output = B;
    fn bitor(self, o: B) -> B {
        B(self.0 | o.0)
    }
}
impl B {
    pub fn implies(self, o: B) -> B {
        !self | o
    }
    pub fn iff(self, o: B) -> B {
        B(self.0 == o.0)
    }
    pub fn decide(self) -> bool {
        self.0
    }
    pub fn int(self) -> Int {
        ite(self, 1, 0)
    }
}
pub fn eq(a: impl Into<Int>, b: impl Into<Int>) -> B {
    B(a.into() == b.into())
}
pub fn ne(a: impl Into<Int>, b: impl Into<Int>) -> B {
    !eq(a, b)
}
pub fn le(a: impl Into<Int>, b: impl Into<Int>) -> B {
    B(a.into() <= b.into())
}
pub fn lt(a: impl Into<Int>, b: impl Into<Int>) -> B {
    B(a.into() < b.into())
}
pub fn ite(c: B, a: impl Into<Int>, b: impl Into<Int>) -> Int {
    if c.0 { a.into() } else { b.into() }
}
pub fn sym(name: &str, lo: impl Into<Int>, hi: impl Into<Int>) -> Int {
    let (lo, hi) = (lo.into().into_inner(), hi.into().into_inner());
    Int::wrap(next(name, &lo, &hi))
}
pub fn sym_int(name: &str, signed: Signedness, size: Size) -> Int {
    let bits = size.bits().try_to_usize().unwrap();
    let one = BigInt::from(1);
    let (lo, hi) = match signed {
        Signedness::Signed => (-(&one << (bits - 1)), (&one << (bits - 1)) - 1),
        Signedness::Unsigned => (BigInt::from(0), (&one << bits) - 1),
    };
    Int::wrap(next(name, &lo, &hi))
}
pub fn sym_bool(name: &str) -> B {
    eq(sym(name, 0, 1), 1)
}
pub fn choose(name: &str, n: usize) -> usize {
    assert!(n > 0);
    if n == 1 {
        return 0;
    }
    sym(name, 0, n as i64 - 1).try_to_usize().unwrap()
}
pub fn note(key: &str, val: impl std::fmt::Display) {
    r(|x| x.notes.push((key.to_string(), val.to_string())))
}
pub fn assume(c: impl Into<B>) {
    if !c.into().0 {
        // A violation found earlier stands.
        mismatch("an assumption does not hold".into())
    }
}
pub fn check(c: impl Into<B>, label: &str) {
    check_msg(c, label, "")
}
pub fn check_msg(c: impl Into<B>, label: &str, detail: &str) {
    if c.into().0 {
        r(|x| x.passed.push(label.to_string()));
    } else {
        r(|x| x.failed.push((label.to_string(), detail.to_string())));
        panic_any(Control::Kill)
    }
}
pub fn fail(label: &str, detail: &str) -> ! {
    check_msg(false, label, detail);
    unreachable!()
}
pub fn reach(_label: &str) {}
pub fn catch<O>(f: impl FnOnce() -> O) -> Result<O, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(o) => Ok(o),
        Err(e) =>
            if e.is::<Control>() {
                resume_unwind(e)
            } else {
                Err(panic_text(&*e))
            },
    }
}
pub fn parse_int(s: &str) -> Option<Int> {
    Some(Int::wrap(s.parse::<BigInt>().ok()?))
}
pub fn is_concrete(_i: Int) -> bool {
    true
}
pub fn byte(i: impl Into<Int>) -> u8 {
    i.into().try_to_u8().unwrap()
}
pub fn sym_byte(name: &str) -> u8 {
    byte(sym(name, 0, 255))
}
pub fn kill_path() -> ! {
    panic_any(Control::Kill)
}
pub fn coverage() -> Vec<&'static str> {
    vec![]
}
pub fn panic_text(e: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "<non-string panic>".into()
    }
}

pub fn pin_addresses(_keep: impl Fn(u64, u64) -> bool + 'static) {}
pub fn switches(_n: Option<u32>) {}
pub fn restart_pins(_off: bool) {}

thread_local! {
    static PICKS: std::cell::RefCell<Vec<(Vec<Int>, Int)>> = std::cell::RefCell::new(vec![]);
}
/// Remembers a choice between few values: those allowed, and the chosen one.
pub fn log_pick(allowed: Vec<Int>, chosen: Int) {
    PICKS.with(|p| p.borrow_mut().push((allowed, chosen)))
}
/// The choices since the last call.
pub fn take_picks() -> Vec<(Vec<Int>, Int)> {
    PICKS.with(|p| std::mem::take(&mut *p.borrow_mut()))
}

/// Sorted by the textual form of the keys, numbers in numerical order.
pub fn by_name<K: std::fmt::Debug, V>(mut v: Vec<(K, V)>) -> std::vec::IntoIter<(K, V)> {
    v.sort_by_cached_key(|(k, _)| {
        let s = format!("{k:?}");
        (s.len(), s)
    });
    v.into_iter()
}
