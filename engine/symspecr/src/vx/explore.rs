//! Depth-first exploration of all feasible paths by re-execution.

use super::smt::*;
use super::term::*;
use num_bigint::BigInt;
use num_traits::{One, Signed, ToPrimitive, Zero};
use std::cell::RefCell;
use std::collections::{BTreeSet, HashMap};
use std::panic::{AssertUnwindSafe, catch_unwind, panic_any, resume_unwind};
use std::time::{Duration, Instant};

/// Panic payloads of the engine itself.
pub enum Control {
    /// The path condition is unsatisfiable, or the rest of the path is irrelevant.
    Kill,
    /// Something the engine cannot do; the case is inconclusive.
    Unsupported(String),
}

pub fn unsupported(msg: impl Into<String>) -> ! {
    panic_any(Control::Unsupported(msg.into()))
}
pub fn kill_path() -> ! {
    panic_any(Control::Kill)
}

#[derive(Clone)]
struct Dec {
    taken: bool,
    /// Both sides were feasible.
    branch: bool,
    /// Model for the other side, if it is still to be explored.
    pending: Option<Option<Model>>,
}

/// One level of decisions: the path itself, or the sub-exploration of a predicate.
#[derive(Default)]
struct Level {
    decs: Vec<Dec>,
    pos: usize,
    /// conditions assumed on this level, in order
    conds: Vec<Bid>,
    /// candidate values of the model-guided enumerations, in order
    conc: usize,
    conc_log: Vec<BigInt>,
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub label: String,
    pub detail: String,
    pub vars: Vec<(String, BigInt)>,
    pub choices: Vec<(String, String)>,
}

#[derive(Clone, Debug, Default)]
pub struct Stats {
    pub paths: u64,
    pub killed: u64,
    pub decisions: u64,
    pub forks: u64,
    pub checks: u64,
    pub checks_trivial: u64,
    pub unknowns: u64,
    pub max_depth: usize,
    pub reached: BTreeSet<String>,
    pub violations: Vec<Violation>,
    pub inconclusive: Vec<String>,
    pub wall: Duration,
    pub samples: Vec<String>,
    /// Inputs (and notes) of some completed paths, for validation against the unmodified code.
    pub traces: Vec<(Vec<(String, BigInt)>, Vec<(String, String)>)>,
}

pub struct State {
    levels: Vec<Level>,
    facts: HashMap<Bid, bool>,
    fact_log: Vec<Bid>,
    bounds: HashMap<Tid, (BigInt, BigInt)>,
    pc: Vec<Bid>,
    model: Option<Model>,
    next_var: u32,
    vars: Vec<(String, Tid)>,
    notes: Vec<(String, String)>,
    pub stats: Stats,
    pub solver: Solver,
    deadline: Option<Instant>,
    /// Inside `concrete`: nothing that depends on the inputs may be decided.
    concrete_only: bool,
}

thread_local! {
    static ST: RefCell<State> = RefCell::new(State::new());
}

pub(crate) fn st<O>(f: impl FnOnce(&mut State) -> O) -> O {
    ST.with(|s| f(&mut s.borrow_mut()))
}

#[derive(Clone, Copy, Debug)]
pub struct Limits {
    pub max_paths: u64,
    pub max_time: Duration,
    pub max_violations: usize,
}
impl Default for Limits {
    fn default() -> Self {
        Limits { max_paths: 1_000_000, max_time: Duration::from_secs(600), max_violations: 3 }
    }
}

impl State {
    fn new() -> Self {
        State {
            levels: vec![Level::default()],
            facts: HashMap::new(),
            fact_log: vec![],
            bounds: HashMap::new(),
            pc: vec![],
            model: Some(Model::default()),
            next_var: 0,
            vars: vec![],
            notes: vec![],
            stats: Default::default(),
            solver: Solver::new(),
            deadline: None,
            concrete_only: false,
        }
    }
    fn reset_path(&mut self) {
        self.facts.clear();
        self.fact_log.clear();
        self.bounds.clear();
        self.pc.clear();
        self.next_var = 0;
        self.vars.clear();
        self.notes.clear();
        self.levels.truncate(1);
        self.levels[0].pos = 0;
        self.levels[0].conc = 0;
        self.levels[0].conds.clear();
    }
    pub fn fresh(&mut self, name: &str, lo: BigInt, hi: BigInt) -> Tid {
        let seq = self.next_var;
        self.next_var += 1;
        let t = with(|tab| tab.var(seq, name, lo, hi));
        self.vars.push((name.to_string(), t));
        t
    }
    pub fn note(&mut self, k: String, v: String) {
        self.notes.push((k, v));
    }

    /// Value of `cond` if that follows from the syntactic facts and bounds on this path.
    fn quick(&self, cond: Bid) -> Option<bool> {
        if cond == TRUE {
            return Some(true);
        }
        if cond == FALSE {
            return Some(false);
        }
        if let Some(b) = self.facts.get(&cond) {
            return Some(*b);
        }
        with(|tab| match tab.bn(cond).clone() {
            BNode::Ge0(t) => {
                let (lo, hi) = self.lin_bounds(tab, t);
                if !lo.is_negative() {
                    Some(true)
                } else if hi.is_negative() {
                    Some(false)
                } else {
                    None
                }
            }
            BNode::Eq0(t) => {
                let (lo, hi) = self.lin_bounds(tab, t);
                if lo.is_positive() || hi.is_negative() {
                    Some(false)
                } else if lo.is_zero() && hi.is_zero() {
                    Some(true)
                } else {
                    None
                }
            }
            BNode::Not(x) => match tab.bn(x).clone() {
                BNode::Eq0(t) => {
                    let (lo, hi) = self.lin_bounds(tab, t);
                    if lo.is_positive() || hi.is_negative() {
                        Some(true)
                    } else if lo.is_zero() && hi.is_zero() {
                        Some(false)
                    } else {
                        None
                    }
                }
                _ => None,
            },
            _ => None,
        })
    }
    fn atom_bounds(&self, tab: &Table, t: Tid) -> (BigInt, BigInt) {
        match self.bounds.get(&t) {
            Some(b) => b.clone(),
            None => {
                let i = tab.info(t);
                (i.lo.clone(), i.hi.clone())
            }
        }
    }
    fn lin_bounds(&self, tab: &Table, t: Tid) -> (BigInt, BigInt) {
        let (v, c) = tab.to_lin(t);
        let (mut lo, mut hi) = (c.clone(), c);
        for (x, k) in v {
            let (l, h) = self.atom_bounds(tab, x);
            if k.is_positive() {
                lo += &k * l;
                hi += k * h;
            } else {
                lo += &k * h;
                hi += k * l;
            }
        }
        if let Some((l, h)) = self.bounds.get(&t) {
            lo = lo.max(l.clone());
            hi = hi.min(h.clone());
        }
        (lo, hi)
    }
    fn learn(&mut self, cond: Bid) {
        let neg = with(|t| t.bnot(cond));
        self.facts.insert(cond, true);
        self.facts.insert(neg, false);
        let parts = with(|t| match t.bn(cond).clone() {
            BNode::And(v) => v,
            _ => vec![],
        });
        for p in parts {
            self.learn(p);
        }
        // single-atom bounds
        let upd = with(|tab| match tab.bn(cond).clone() {
            BNode::Ge0(t) | BNode::Eq0(t) => {
                let is_eq = matches!(tab.bn(cond), BNode::Eq0(_));
                let (v, c) = tab.to_lin(t);
                match v.as_slice() {
                    [(x, k)] => {
                        // k*x + c >= 0 (== 0)
                        let (mut lo, mut hi) = self.atom_bounds(tab, *x);
                        use num_integer::Integer;
                        if is_eq {
                            lo = -&c / k;
                            hi = lo.clone();
                        } else if k.is_positive() {
                            lo = lo.max((-&c).div_ceil(k));
                        } else {
                            hi = hi.min((-&c).div_floor(k));
                        }
                        Some((*x, lo, hi))
                    }
                    _ => None,
                }
            }
            BNode::Not(y) => match tab.bn(y).clone() {
                // x != c at the edge of the bounds
                BNode::Eq0(t) => {
                    let (v, c) = tab.to_lin(t);
                    match v.as_slice() {
                        [(x, k)] if k.is_one() => {
                            let (mut lo, mut hi) = self.atom_bounds(tab, *x);
                            let p = -c;
                            if p == lo {
                                lo += 1;
                            } else if p == hi {
                                hi -= 1;
                            }
                            Some((*x, lo, hi))
                        }
                        _ => None,
                    }
                }
                _ => None,
            },
            _ => None,
        });
        if let Some((x, lo, hi)) = upd {
            self.bounds.insert(x, (lo, hi));
        }
    }
    fn assume_true(&mut self, cond: Bid) {
        if cond == TRUE {
            return;
        }
        self.pc.push(cond);
        self.levels.last_mut().unwrap().conds.push(cond);
        self.learn(cond);
    }
    fn model_says(&self, cond: Bid) -> Option<bool> {
        let m = self.model.as_ref()?;
        Some(with(|tab| tab.beval(cond, m, &mut EvalMemo::default())))
    }
    /// Is `pc && cond` satisfiable? On success also a model.
    fn feasible(&mut self, cond: Bid) -> SatOutcome {
        if let Some(d) = self.deadline {
            if Instant::now() > d {
                return SatOutcome::Unknown;
            }
        }
        let q = match &self.model {
            // The rest of the pc is satisfied by the current model.
            Some(_) => slice(&self.pc, cond),
            None => {
                let mut q = self.pc.clone();
                q.push(cond);
                q.sort();
                q.dedup();
                q.retain(|b| *b != TRUE);
                q
            }
        };
        if let (Some(m), true) = (self.model.clone(), q.len() > 4) {
            if let Some(r) = self.refine(&q, cond, &m) {
                return r;
            }
        }
        match self.solver.check(&q) {
            SatResult::Unsat => SatOutcome::Unsat,
            SatResult::Sat(v) => SatOutcome::Sat(self.model.clone().unwrap_or_default().update(v)),
            SatResult::Unknown(e) => {
                self.stats.unknowns += 1;
                if self.stats.inconclusive.len() < 20 {
                    self.stats.inconclusive.push(format!("solver: {e}"));
                }
                SatOutcome::Unknown
            }
        }
    }
    /// Starts with the conjuncts about the variables of `cond` only, adding the others as far as
    /// the current model, changed to satisfy these, violates them. All but `cond` hold in `m`.
    fn refine(&mut self, q: &[Bid], cond: Bid, m: &Model) -> Option<SatOutcome> {
        let mut used: Vec<bool> = with(|tab| {
            let mut mine = std::collections::BTreeSet::new();
            tab.bvars(cond, &mut mine, &mut Default::default());
            q.iter()
                .map(|b| {
                    let mut s = std::collections::BTreeSet::new();
                    tab.bvars(*b, &mut s, &mut Default::default());
                    *b == cond || s.is_subset(&mine)
                })
                .collect()
        });
        for _ in 0..6 {
            if used.iter().all(|u| *u) {
                return None;
            }
            let part: Vec<Bid> = (0..q.len()).filter(|i| used[*i]).map(|i| q[i]).collect();
            match self.solver.check(&part) {
                SatResult::Unsat => return Some(SatOutcome::Unsat),
                SatResult::Unknown(_) => return None,
                SatResult::Sat(v) => {
                    let m = m.update(v);
                    let mut done = true;
                    let mut memo = EvalMemo::default();
                    for i in 0..q.len() {
                        if !used[i] && !with(|tab| tab.beval(q[i], &m, &mut memo)) {
                            used[i] = true;
                            done = false;
                        }
                    }
                    if done {
                        return Some(SatOutcome::Sat(m));
                    }
                }
            }
        }
        None
    }
    fn fail_if_no_model(&mut self) {
        if self.model.is_none() {
            match self.feasible(TRUE) {
                SatOutcome::Sat(m) => self.model = Some(m),
                SatOutcome::Unsat => kill_path(),
                SatOutcome::Unknown => unsupported("solver gave no answer on a path condition"),
            }
        }
    }
    fn decide(&mut self, cond: Bid) -> bool {
        if let Some(b) = self.quick(cond) {
            return b;
        }
        if self.concrete_only {
            kill_path();
        }
        self.stats.decisions += 1;
        let lv = self.levels.last_mut().unwrap();
        let not = with(|t| t.bnot(cond));
        if lv.pos < lv.decs.len() {
            let d = lv.decs[lv.pos].clone();
            lv.pos += 1;
            if d.branch {
                self.assume_true(if d.taken { cond } else { not });
            } else {
                self.learn(if d.taken { cond } else { not });
            }
            return d.taken;
        }
        self.fail_if_no_model();
        let b = self.model_says(cond).unwrap();
        let other = if b { not } else { cond };
        let (branch, pending) = match self.feasible(other) {
            SatOutcome::Unsat => (false, None),
            SatOutcome::Sat(m) => (true, Some(Some(m))),
            SatOutcome::Unknown => (true, Some(None)),
        };
        if branch {
            self.stats.forks += 1;
        }
        let lv = self.levels.last_mut().unwrap();
        lv.decs.push(Dec { taken: b, branch, pending });
        lv.pos += 1;
        if branch {
            self.assume_true(if b { cond } else { not });
        } else {
            self.learn(if b { cond } else { not });
        }
        b
    }
    fn assume(&mut self, cond: Bid) {
        if let Some(b) = self.quick(cond) {
            if !b {
                kill_path();
            }
            return;
        }
        if self.concrete_only {
            kill_path();
        }
        let replaying = {
            let lv = self.levels.last().unwrap();
            lv.pos < lv.decs.len()
        };
        // While replaying, the model stored with the last decision satisfies this, too, if it was
        // assumed before the decision.
        if replaying {
            self.assume_true(cond);
            return;
        }
        if self.model_says(cond) == Some(true) {
            self.assume_true(cond);
            return;
        }
        match self.feasible(cond) {
            SatOutcome::Unsat => kill_path(),
            SatOutcome::Sat(m) => {
                self.model = Some(m);
                self.assume_true(cond);
            }
            SatOutcome::Unknown => {
                self.model = None;
                self.assume_true(cond);
            }
        }
    }
    /// Assumes `cond` about the unconstrained variable `v`; first tries a few values in the hope of
    /// not having to ask the solver for a model.
    fn assume_fresh(&mut self, cond: Bid, v: Tid) {
        let replaying = {
            let lv = self.levels.last().unwrap();
            lv.pos < lv.decs.len()
        };
        if !replaying && self.quick(cond).is_none() && self.model.is_some() && self.model_says(cond) == Some(false) {
            let info = with(|tab| (tab.info(v).lo.clone(), tab.info(v).hi.clone()));
            let n = self.vars.len();
            let mut cands = vec![];
            if &info.1 - &info.0 <= BigInt::from(16) {
                let mut x = info.0.clone();
                while x <= info.1 {
                    cands.push(x.clone());
                    x += 1;
                }
            } else {
                let step: BigInt = &info.1 >> 40u32;
                for m in [n, 2 * n + 1, 4 * n + 3] {
                    cands.push((&info.0 + &step * BigInt::from(m)).min(info.1.clone()));
                }
            }
            for c in cands {
                let m = self.model.as_ref().unwrap().update(vec![(v, c)]);
                if with(|tab| tab.beval(cond, &m, &mut EvalMemo::default())) {
                    self.model = Some(m);
                    break;
                }
            }
        }
        self.assume(cond)
    }
    /// Moves to the next unexplored path of the innermost level; false if there is none.
    fn backtrack(&mut self) -> bool {
        let lv = self.levels.last_mut().unwrap();
        while let Some(mut d) = lv.decs.pop() {
            if let Some(m) = d.pending.take() {
                d.taken = !d.taken;
                lv.decs.push(d);
                self.model = m;
                return true;
            }
        }
        false
    }
    fn violation(&mut self, label: &str, detail: String, m: &Model) {
        let vars = with(|tab| {
            let mut memo = EvalMemo::default();
            self.vars.iter().map(|(n, t)| (n.clone(), tab.eval(*t, m, &mut memo))).collect()
        });
        let v = Violation { label: label.to_string(), detail, vars, choices: self.notes.clone() };
        let known = v.label.starts_with("known ");
        if !self.stats.violations.iter().any(|w| w.label == v.label && (known || w.choices == v.choices)) {
            self.stats.violations.push(v);
        }
    }
    fn check(&mut self, cond: Bid, label: &str, detail: &str) {
        self.stats.checks += 1;
        self.stats.reached.insert(label.to_string());
        match self.quick(cond) {
            Some(true) => {
                self.stats.checks_trivial += 1;
                return;
            }
            Some(false) => {
                self.fail_if_no_model();
                let m = self.model.clone().unwrap();
                self.violation(label, detail.to_string(), &m);
                kill_path()
            }
            None => {}
        }
        let not = with(|t| t.bnot(cond));
        let lv = self.levels.last_mut().unwrap();
        if lv.pos < lv.decs.len() {
            // Already checked on an earlier path with the same prefix.
            let proven = lv.decs[lv.pos].taken;
            lv.pos += 1;
            if proven { self.learn(cond) } else { self.assume_true(cond) }
            return;
        }
        self.fail_if_no_model();
        let slot = {
            let lv = self.levels.last_mut().unwrap();
            lv.decs.push(Dec { taken: false, branch: false, pending: None });
            lv.pos += 1;
            lv.pos - 1
        };
        if self.model_says(cond) == Some(false) {
            let m = self.model.clone().unwrap();
            self.violation(label, detail.to_string(), &m);
        } else {
            match self.feasible(not) {
                SatOutcome::Unsat => {
                    self.levels.last_mut().unwrap().decs[slot].taken = true;
                    self.learn(cond);
                    return;
                }
                SatOutcome::Sat(m) => self.violation(label, detail.to_string(), &m),
                SatOutcome::Unknown => {
                    if self.stats.inconclusive.len() < 20 {
                        self.stats.inconclusive.push(format!("assertion `{label}` not decided"));
                    }
                }
            }
        }
        // Continue on the inputs where it holds.
        self.assume(cond);
    }
}

enum SatOutcome {
    Unsat,
    Sat(Model),
    Unknown,
}

// The engine panics (with `Control`) while `ST` is borrowed; make sure the borrow is released first.
fn guarded<O>(f: impl FnOnce(&mut State) -> O) -> O {
    let r = ST.with(|s| {
        let mut s = s.borrow_mut();
        catch_unwind(AssertUnwindSafe(|| f(&mut s)))
    });
    match r {
        Ok(o) => o,
        Err(e) => resume_unwind(e),
    }
}

pub fn decide_b(cond: Bid) -> bool {
    if cond == TRUE || cond == FALSE {
        return cond == TRUE;
    }
    guarded(|s| s.decide(cond))
}
pub fn assume_bid(cond: Bid) {
    guarded(|s| s.assume(cond))
}
pub fn assume_fresh(cond: Bid, v: Tid) {
    guarded(|s| s.assume_fresh(cond, v))
}
/// Fixes the newest variable.
pub fn fix_fresh(v: Tid, k: BigInt) {
    guarded(|s| {
        let replaying = {
            let lv = s.levels.last().unwrap();
            lv.pos < lv.decs.len()
        };
        if !replaying && s.model.is_some() {
            s.model = Some(s.model.as_ref().unwrap().update(vec![(v, k.clone())]));
        }
        let cond = with(|tab| {
            let c = tab.cst(k);
            tab.eq(v, c)
        });
        s.assume(cond);
    })
}
pub fn newest_var() -> Option<Tid> {
    st(|s| s.vars.last().map(|v| v.1))
}
pub fn check_bid(cond: Bid, label: &str, detail: &str) {
    guarded(|s| s.check(cond, label, detail))
}
pub fn in_predicate() -> bool {
    st(|s| s.levels.len() > 1)
}

/// The result of the pure closure `f` if it does not depend on anything symbolic (beyond what is
/// already known on this path). Cheap.
pub fn concrete(f: &mut dyn FnMut() -> bool) -> Option<bool> {
    if st(|s| std::mem::replace(&mut s.concrete_only, true)) {
        return Some(f());
    }
    let r = catch_unwind(AssertUnwindSafe(&mut *f));
    st(|s| s.concrete_only = false);
    match r {
        Ok(b) => Some(b),
        Err(e) => match e.downcast_ref::<Control>() {
            Some(Control::Kill) => None,
            _ => resume_unwind(e),
        },
    }
}

/// The formula under which the pure closure `f` returns true, given the current path condition.
/// All paths through `f` are explored; nothing forks.
pub fn predicate(f: &mut dyn FnMut() -> bool) -> Bid {
    st(|s| {
        s.levels.push(Level::default());
    });
    let depth = st(|s| s.levels.len());
    let saved = st(|s| (s.facts.clone(), s.bounds.clone(), s.pc.clone(), s.model.clone()));
    let mut alts = vec![];
    let mut falses = vec![];
    let mut count = 0;
    let res = loop {
        count += 1;
        if count > 20_000 {
            break Err(Box::new(Control::Unsupported("predicate with too many paths".into())) as Box<dyn std::any::Any + Send>);
        }
        let r = catch_unwind(AssertUnwindSafe(&mut *f));
        let killed = match r {
            Ok(true) => {
                let c = st(|s| s.levels.last().unwrap().conds.clone());
                alts.push(c);
                false
            }
            Ok(false) => {
                let c = st(|s| s.levels.last().unwrap().conds.clone());
                falses.push(c);
                false
            }
            Err(e) => match e.downcast_ref::<Control>() {
                Some(Control::Kill) => true,
                _ => break Err(e),
            },
        };
        let _ = killed;
        let more = st(|s| {
            assert_eq!(s.levels.len(), depth);
            let more = s.backtrack();
            let m = s.model.clone();
            s.facts = saved.0.clone();
            s.bounds = saved.1.clone();
            s.pc = saved.2.clone();
            s.model = m;
            let lv = s.levels.last_mut().unwrap();
            lv.pos = 0;
            lv.conc = 0;
            lv.conds.clear();
            more
        });
        if !more {
            break Ok(());
        }
    };
    st(|s| {
        s.levels.truncate(depth - 1);
        s.facts = saved.0;
        s.bounds = saved.1;
        s.pc = saved.2;
        s.model = saved.3;
    });
    if let Err(e) = res {
        resume_unwind(e);
    }
    with(|t| {
        if falses.is_empty() {
            return TRUE;
        }
        if alts.len() <= falses.len() {
            let alts = alts.into_iter().map(|v| t.band(v)).collect();
            t.bor(alts)
        } else {
            let fs = falses.into_iter().map(|v| t.band(v)).collect();
            let f = t.bor(fs);
            t.bnot(f)
        }
    })
}

/// All feasible values of `t` on this path, one per (sub)path.
pub fn concretize(t: Tid, limit: u32) -> BigInt {
    let mut n = 0;
    let mut last: Option<BigInt> = None;
    loop {
        let info = with(|tab| tab.as_const(t).cloned());
        if let Some(c) = info {
            return c;
        }
        let v = guarded(|s| {
            let (lo, hi) = with(|tab| s.lin_bounds(tab, t));
            if lo == hi {
                return Err(lo);
            }
            if s.concrete_only {
                kill_path();
            }
            if &hi - &lo < BigInt::from(limit) {
                // small range: fixed order, no model needed
                return Ok(match &last {
                    Some(l) if *l >= lo => (l + BigInt::from(1)).min(hi),
                    _ => lo,
                });
            }
            let lv = s.levels.last_mut().unwrap();
            let idx = lv.conc;
            lv.conc += 1;
            if lv.pos < lv.decs.len() {
                // The order of candidates has to be the same when replaying: it is recorded.
                return Ok(lv.conc_log[idx].clone());
            }
            s.fail_if_no_model();
            let m = s.model.clone().unwrap();
            let c = with(|tab| tab.eval(t, &m, &mut EvalMemo::default()));
            let lv = s.levels.last_mut().unwrap();
            lv.conc_log.truncate(idx);
            lv.conc_log.push(c.clone());
            Ok(c)
        });
        let v = match v {
            Err(c) => return c,
            Ok(v) => v,
        };
        let cond = with(|tab| {
            let c = tab.cst(v.clone());
            tab.eq(t, c)
        });
        if decide_b(cond) {
            return v;
        }
        last = Some(v);
        n += 1;
        if n >= limit {
            unsupported(format!("more than {limit} values to enumerate"));
        }
    }
}

pub fn concretize_usize(t: Tid, limit: u32) -> usize {
    concretize(t, limit).to_usize().unwrap()
}

/// Explores all paths through `f`.
pub fn explore(lim: Limits, f: &mut dyn FnMut()) -> Stats {
    let start = Instant::now();
    st(|s| {
        s.levels = vec![Level::default()];
        s.stats = Stats::default();
        s.model = Some(Model::default());
        s.deadline = Some(start + lim.max_time + Duration::from_secs(30));
        s.solver.clear_cache();
    });
    loop {
        crate::hidden::clear();
        st(|s| s.reset_path());
        let r = catch_unwind(AssertUnwindSafe(&mut *f));
        let more = st(|s| {
            s.stats.paths += 1;
            let d = s.levels[0].decs.len();
            s.stats.max_depth = s.stats.max_depth.max(d);
            s.levels.truncate(1);
            match r {
                Ok(()) => {
                    let n = s.stats.paths;
                    if s.model.is_some() && (n <= 2 || (n.is_power_of_two() && n <= 64)) {
                        let m = s.model.clone().unwrap();
                        let vars = with(|tab| {
                            let mut memo = EvalMemo::default();
                            s.vars.iter().map(|(n, t)| (n.clone(), tab.eval(*t, &m, &mut memo))).collect()
                        });
                        let notes = s.notes.clone();
                        s.stats.traces.push((vars, notes));
                    }
                    if s.stats.samples.len() < 3 {
                        let m = s.model.clone().unwrap_or_default();
                        let txt = with(|tab| {
                            let mut memo = EvalMemo::default();
                            let vs: Vec<_> = s
                                .vars
                                .iter()
                                .take(12)
                                .map(|(n, t)| format!("{n}={}", tab.eval(*t, &m, &mut memo)))
                                .collect();
                            format!("{:?} {}", s.notes, vs.join(" "))
                        });
                        s.stats.samples.push(txt);
                    }
                }
                Err(e) => match e.downcast_ref::<Control>() {
                    Some(Control::Kill) => s.stats.killed += 1,
                    Some(Control::Unsupported(m)) => {
                        if s.stats.inconclusive.len() < 20 {
                            s.stats.inconclusive.push(format!("unsupported: {m} at {:?}", s.notes));
                        }
                    }
                    None => {
                        let m = panic_text(&*e);
                        if s.stats.inconclusive.len() < 20 {
                            s.stats.inconclusive.push(format!("harness panic: {m} at {:?}", s.notes));
                        }
                    }
                },
            }
            if s.stats.paths >= lim.max_paths {
                s.stats.inconclusive.push(format!("path limit {} reached", lim.max_paths));
                return false;
            }
            if start.elapsed() > lim.max_time {
                s.stats.inconclusive.push(format!("time limit {:?} reached", lim.max_time));
                return false;
            }
            if s.stats.violations.iter().filter(|v| !v.label.starts_with("known ")).count() >= lim.max_violations {
                return false;
            }
            s.backtrack()
        });
        if !more {
            break;
        }
    }
    crate::hidden::clear();
    st(|s| {
        s.stats.wall = start.elapsed();
        s.stats.clone()
    })
}

pub fn panic_text(e: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = e.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "<non-string panic>".into()
    }
}
