//! Translation of formulas to QF_BV and a persistent solver process.
//!
//! Every integer term `t` is translated at width `k` to a bit-vector congruent to `t` modulo `2^k`;
//! at `k >= width(t)` (the width of the two's complement interval of `t`) that is the exact value.
//! Comparisons are done at a width that contains the interval, so nothing ever wraps.

use super::lia::Lia;
use super::term::*;
use num_bigint::BigInt;
use num_traits::{One, Signed, Zero};
use std::collections::{BTreeSet, HashMap, HashSet};
use std::fmt::Write as _;
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, Command, Stdio};
use std::time::{Duration, Instant};

pub struct Emit<'a> {
    tab: &'a Table,
    pub text: String,
    done_t: HashMap<(Tid, u32), String>,
    done_b: HashMap<Bid, String>,
    pub vars: BTreeSet<Tid>,
}

fn bv(c: &BigInt, k: u32) -> String {
    let c = low_const(c, k, false);
    format!("(_ bv{c} {k})")
}

/// Bits and signedness of the bit-vector that a variable is declared as.
fn var_shape(lo: &BigInt, hi: &BigInt) -> (u32, bool) {
    if lo.is_negative() {
        (signed_bits(lo).max(signed_bits(hi)), true)
    } else {
        ((hi.bits() as u32).max(1), false)
    }
}

impl<'a> Emit<'a> {
    pub fn new(tab: &'a Table) -> Self {
        Emit { tab, text: String::new(), done_t: HashMap::new(), done_b: HashMap::new(), vars: BTreeSet::new() }
    }
    fn sext(&self, s: String, from: u32, to: u32) -> String {
        match to.cmp(&from) {
            std::cmp::Ordering::Equal => s,
            std::cmp::Ordering::Greater => format!("((_ sign_extend {}) {s})", to - from),
            std::cmp::Ordering::Less => format!("((_ extract {} 0) {s})", to - 1),
        }
    }
    /// The term at width `k`.
    pub fn tr(&mut self, t: Tid, k: u32) -> String {
        assert!(k > 0);
        if let Some(c) = self.tab.as_const(t) {
            return bv(c, k);
        }
        if let Some(s) = self.done_t.get(&(t, k)) {
            return s.clone();
        }
        let w = self.tab.width(t);
        let body = match self.tab.node(t).clone() {
            Node::Var { lo, hi, .. } => {
                let (n, signed) = var_shape(&lo, &hi);
                let name = format!("v{}", t.0);
                if self.vars.insert(t) {
                    writeln!(self.text, "(declare-const {name} (_ BitVec {n}))").unwrap();
                    let (rlo, rhi) = range(n, signed);
                    let (ge, le) = if signed { ("bvsge", "bvsle") } else { ("bvuge", "bvule") };
                    if lo != rlo {
                        writeln!(self.text, "(assert ({ge} {name} {}))", bv(&lo, n)).unwrap();
                    }
                    if hi != rhi {
                        writeln!(self.text, "(assert ({le} {name} {}))", bv(&hi, n)).unwrap();
                    }
                }
                if k < n {
                    format!("((_ extract {} 0) {name})", k - 1)
                } else if k == n {
                    name
                } else if signed {
                    format!("((_ sign_extend {}) {name})", k - n)
                } else {
                    format!("((_ zero_extend {}) {name})", k - n)
                }
            }
            _ if k > w => {
                let s = self.tr(t, w);
                self.sext(s, w, k)
            }
            Node::Lin(v, c) => {
                let mut parts = vec![];
                for (x, q) in &v {
                    let qm = low_const(q, k, true);
                    if qm.is_zero() {
                        continue;
                    }
                    let s = self.tr(*x, k);
                    parts.push(if qm.is_one() {
                        s
                    } else if qm == -BigInt::one() && k > 1 {
                        format!("(bvneg {s})")
                    } else if q.magnitude().count_ones() == 1 {
                        let sh = format!("(bvshl {s} {})", bv(&BigInt::from(q.bits() - 1), k));
                        if q.is_negative() { format!("(bvneg {sh})") } else { sh }
                    } else {
                        format!("(bvmul {} {s})", bv(q, k))
                    });
                }
                if !low_const(&c, k, false).is_zero() || parts.is_empty() {
                    parts.push(bv(&c, k));
                }
                let mut acc = parts.remove(0);
                for p in parts {
                    acc = format!("(bvadd {acc} {p})");
                }
                acc
            }
            Node::Mul(a, b) => {
                let (a, b) = (self.tr(a, k), self.tr(b, k));
                format!("(bvmul {a} {b})")
            }
            Node::And(a, b) | Node::Or(a, b) | Node::Xor(a, b) => {
                let op = match self.tab.node(t) {
                    Node::And(..) => "bvand",
                    Node::Or(..) => "bvor",
                    _ => "bvxor",
                };
                let (a, b) = (self.tr(a, k), self.tr(b, k));
                format!("({op} {a} {b})")
            }
            Node::Div(a, b) | Node::Rem(a, b) => {
                let op = if matches!(self.tab.node(t), Node::Div(..)) { "div" } else { "rem" };
                let (ia, ib) = (self.tab.info(a), self.tab.info(b));
                let unsigned = !ia.lo.is_negative() && !ib.lo.is_negative();
                let mut ww = self.tab.width(a).max(self.tab.width(b)).max(w);
                if unsigned && ww > 1 {
                    ww -= 1; // the sign bit is always zero
                }
                let (a, b) = (self.tr(a, ww), self.tr(b, ww));
                let s = format!("(bv{}{op} {a} {b})", if unsigned { "u" } else { "s" });
                if unsigned && k > ww {
                    format!("((_ zero_extend {}) {s})", k - ww)
                } else {
                    self.sext(s, ww, k)
                }
            }
            Node::Shl(a, s) => {
                let ww = k.max(self.tab.width(s));
                let (a, s) = (self.tr(a, ww), self.tr(s, ww));
                self.sext(format!("(bvshl {a} {s})"), ww, k)
            }
            Node::Shr(a, s) => {
                let wa = self.tab.width(a);
                if let Some(c) = self.tab.as_const(s) {
                    let c: u32 = c.try_into().unwrap();
                    // bits [c, c+k) of a
                    let a = self.tr(a, wa.max(c + k));
                    format!("((_ extract {} {c}) {a})", c + k - 1)
                } else {
                    let ww = wa.max(self.tab.width(s)).max(k);
                    let (a, s) = (self.tr(a, ww), self.tr(s, ww));
                    self.sext(format!("(bvashr {a} {s})"), ww, k)
                }
            }
            Node::Low(a, j, signed) =>
                if k <= j {
                    self.tr(a, k)
                } else {
                    let s = self.tr(a, j);
                    let ext = if signed { "sign_extend" } else { "zero_extend" };
                    format!("((_ {ext} {}) {s})", k - j)
                },
            Node::Ite(c, a, b) => {
                let c = self.b(c);
                let (a, b) = (self.tr(a, k), self.tr(b, k));
                format!("(ite {c} {a} {b})")
            }
        };
        let name = format!("t{}_{k}", t.0);
        writeln!(self.text, "(define-fun {name} () (_ BitVec {k}) {body})").unwrap();
        self.done_t.insert((t, k), name.clone());
        name
    }
    pub fn b(&mut self, b: Bid) -> String {
        if let Some(s) = self.done_b.get(&b) {
            return s.clone();
        }
        let body = match self.tab.bn(b).clone() {
            BNode::False => return "false".into(),
            BNode::True => return "true".into(),
            BNode::Ge0(t) => {
                let (l, r) = self.sides(t);
                format!("(bvsle {r} {l})")
            }
            BNode::Eq0(t) => {
                let (l, r) = self.sides(t);
                format!("(= {l} {r})")
            }
            BNode::Not(x) => {
                let x = self.b(x);
                format!("(not {x})")
            }
            BNode::And(v) => {
                let v: Vec<_> = v.into_iter().map(|x| self.b(x)).collect();
                format!("(and {})", v.join(" "))
            }
            BNode::Or(v) => {
                let v: Vec<_> = v.into_iter().map(|x| self.b(x)).collect();
                format!("(or {})", v.join(" "))
            }
        };
        let name = format!("b{}", b.0);
        writeln!(self.text, "(define-fun {name} () Bool {body})").unwrap();
        self.done_b.insert(b, name.clone());
        name
    }
    /// `t` as a difference of two sides, at a width where both are exact.
    fn sides(&mut self, t: Tid) -> (String, String) {
        let (v, c) = self.tab.to_lin(t);
        // constant to the side where it is not negative, unless that side is otherwise empty
        let mut lo = [BigInt::zero(), BigInt::zero()];
        let mut hi = [BigInt::zero(), BigInt::zero()];
        let mut parts: [Vec<(Tid, BigInt)>; 2] = [vec![], vec![]];
        for (x, q) in &v {
            let i = q.is_negative() as usize;
            let qa = q.abs();
            let info = self.tab.info(*x);
            lo[i] += &qa * &info.lo;
            hi[i] += &qa * &info.hi;
            parts[i].push((*x, qa));
        }
        let mut cs = [BigInt::zero(), BigInt::zero()];
        if parts[1].is_empty() {
            cs[1] = -c;
        } else if parts[0].is_empty() || c.is_positive() {
            cs[0] = c;
        } else {
            cs[1] = -c;
        }
        let mut w = 1;
        for i in 0..2 {
            for x in [&lo[i] + &cs[i], &hi[i] + &cs[i], cs[i].clone()] {
                w = w.max(signed_bits(&x));
            }
        }
        let mut out = vec![];
        for i in 0..2 {
            let mut acc: Option<String> = None;
            for (x, q) in parts[i].clone() {
                let s = self.tr(x, w);
                let s = if q.is_one() {
                    s
                } else if q.magnitude().count_ones() == 1 {
                    format!("(bvshl {s} {})", bv(&BigInt::from(q.bits() - 1), w))
                } else {
                    format!("(bvmul {} {s})", bv(&q, w))
                };
                acc = Some(match acc {
                    None => s,
                    Some(a) => format!("(bvadd {a} {s})"),
                });
            }
            out.push(match acc {
                None => bv(&cs[i], w),
                Some(a) if cs[i].is_zero() => a,
                Some(a) => format!("(bvadd {a} {})", bv(&cs[i], w)),
            });
        }
        let r = out.pop().unwrap();
        (out.pop().unwrap(), r)
    }
}

#[derive(Clone, Debug)]
pub enum SatResult {
    Sat(Vec<(Tid, BigInt)>),
    Unsat,
    Unknown(String),
}

pub struct Proc {
    child: Child,
    stdin: ChildStdin,
    lines: std::sync::mpsc::Receiver<String>,
}

#[derive(Default, Clone, Debug)]
pub struct SolverStats {
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub cache_hits: u64,
    pub time: Duration,
    pub cross_checked: u64,
    pub max_query: Duration,
}

pub struct Solver {
    proc: Option<Proc>,
    pub timeout_ms: u64,
    pub stats: SolverStats,
    cache: HashMap<Vec<Bid>, SatResult>,
    /// Also ask cvc5 about every `n`th query, and fail on disagreement.
    pub cross_every: u64,
}

impl Solver {
    pub fn new() -> Self {
        Solver { proc: None, timeout_ms: 60_000, stats: Default::default(), cache: HashMap::new(), cross_every: 0 }
    }
    pub fn clear_cache(&mut self) {
        self.cache.clear();
    }
    fn start() -> Proc {
        let mut child = Command::new("z3-new")
            .args(["-in", "-smt2"])
            .stdin(Stdio::piped())
            .stdout(Stdio::piped())
            .stderr(Stdio::inherit())
            .spawn()
            .expect("cannot start z3-new");
        let stdin = child.stdin.take().unwrap();
        let stdout = BufReader::new(child.stdout.take().unwrap());
        let (tx, lines) = std::sync::mpsc::channel();
        std::thread::spawn(move || {
            for l in stdout.lines() {
                let Ok(l) = l else { break };
                if tx.send(l).is_err() {
                    break;
                }
            }
        });
        Proc { child, stdin, lines }
    }
    fn ask(&mut self, text: &str, ms: u64) -> Result<Vec<String>, String> {
        // The solver does not always honour its own time limit.
        let deadline = Instant::now() + Duration::from_millis(ms + 1500);
        let p = self.proc.get_or_insert_with(Self::start);
        let r = (|| -> std::io::Result<Vec<String>> {
            p.stdin.write_all(text.as_bytes())?;
            p.stdin.write_all(b"\n(echo \"@@END@@\")\n")?;
            p.stdin.flush()?;
            let mut out = vec![];
            loop {
                let left = deadline.saturating_duration_since(Instant::now());
                let line = p.lines.recv_timeout(left).map_err(|e| match e {
                    std::sync::mpsc::RecvTimeoutError::Timeout => std::io::Error::from(std::io::ErrorKind::TimedOut),
                    _ => std::io::ErrorKind::UnexpectedEof.into(),
                })?;
                let line = line.trim_end();
                if line.contains("@@END@@") {
                    return Ok(out);
                }
                out.push(line.to_string());
            }
        })();
        match r {
            Ok(v) => Ok(v),
            Err(e) => {
                if let Some(mut p) = self.proc.take() {
                    let _ = p.child.kill();
                    let _ = p.child.wait();
                }
                Err(format!("solver process: {e}"))
            }
        }
    }

    fn attempt(&mut self, lia: bool, body: &str, vars: &[Tid], ms: u64) -> SatResult {
        let logic = if lia { "QF_LIA" } else { "QF_BV" };
        let q = format!("(reset)\n(set-option :timeout {ms})\n(set-logic {logic})\n{body}(check-sat)");
        let res = self.ask(&q, ms);
        let mut result = match res {
            Err(e) => SatResult::Unknown(e),
            Ok(lines) => {
                if let Some(l) = lines.iter().find(|l| l.contains("(error")) {
                    SatResult::Unknown(l.clone())
                } else {
                    match lines.first().map(|s| s.as_str()) {
                        Some("unsat") => SatResult::Unsat,
                        Some("sat") => SatResult::Sat(vec![]),
                        _ => SatResult::Unknown(lines.join(" ")),
                    }
                }
            }
        };
        if matches!(result, SatResult::Sat(_)) && !vars.is_empty() {
            let names: Vec<_> = vars.iter().map(|v| format!("v{}", v.0)).collect();
            match self.ask(&format!("(get-value ({}))", names.join(" ")), 20_000) {
                Err(e) => result = SatResult::Unknown(e),
                Ok(lines) => {
                    let txt = lines.join(" ");
                    match parse_values(&txt, vars) {
                        Some(v) => result = SatResult::Sat(v),
                        None => result = SatResult::Unknown(format!("model: {txt}")),
                    }
                }
            }
        }
        result
    }

    /// Is the conjunction satisfiable? The conjuncts need to be sorted and deduplicated.
    pub fn check(&mut self, conj: &[Bid]) -> SatResult {
        if conj.contains(&FALSE) {
            return SatResult::Unsat;
        }
        if let Some(r) = self.cache.get(conj) {
            self.stats.cache_hits += 1;
            return r.clone();
        }
        let (bv_body, lia_body, mods, abs_body) = with(|tab| {
            let mut e = Emit::new(tab);
            let mut asserts = String::new();
            for b in conj {
                let n = e.b(*b);
                writeln!(asserts, "(assert {n})").unwrap();
            }
            let bv = (format!("{}{asserts}", e.text), e.vars.iter().copied().collect::<Vec<Tid>>());
            let mut l = Lia::new(tab);
            let mut asserts = String::new();
            let mut ok = true;
            for b in conj {
                match l.b(*b) {
                    Some(n) => writeln!(asserts, "(assert {n})").unwrap(),
                    None => {
                        ok = false;
                        break;
                    }
                }
            }
            let lia = if ok { Some((format!("{}{asserts}", l.text), l.vars.iter().copied().collect::<Vec<Tid>>())) } else { None };
            let abs = if ok {
                None
            } else {
                let mut l = Lia::new(tab);
                l.abs = true;
                let mut asserts = String::new();
                let mut ok = true;
                for b in conj {
                    match l.b(*b) {
                        Some(n) => writeln!(asserts, "(assert {n})").unwrap(),
                        None => {
                            ok = false;
                            break;
                        }
                    }
                }
                if ok { Some(format!("{}{asserts}", l.text)) } else { None }
            };
            (bv, lia, l.mods, abs)
        });
        let full = self.timeout_ms;
        let mut plan: Vec<(bool, u64)> = match (&lia_body, mods) {
            (None, _) => vec![(false, full)],
            (Some(_), 0) => vec![(true, full / 2), (false, full)],
            (Some(_), _) => vec![(true, 150.min(full)), (false, 1500.min(full)), (true, full / 2), (false, full)],
        };
        let t0 = Instant::now();
        let mut result = SatResult::Unknown("no attempt".into());
        if let Some(a) = &abs_body {
            // Bit-blasting first if it is quick; then the linear abstraction, which can only refute.
            result = self.attempt(false, &bv_body.0, &bv_body.1, 500.min(full));
            if matches!(result, SatResult::Unknown(_)) {
                match self.attempt(true, a, &[], 3000.min(full)) {
                    SatResult::Unsat => result = SatResult::Unsat,
                    _ => {}
                }
            }
            if !matches!(result, SatResult::Unknown(_)) {
                plan.clear();
            }
        }
        for (lia, ms) in plan {
            let (body, vars) = if lia { lia_body.as_ref().unwrap() } else { &bv_body };
            result = self.attempt(lia, body, vars, ms);
            if !matches!(result, SatResult::Unknown(_)) {
                break;
            }
        }
        let body = &bv_body.0;
        let dt = t0.elapsed();
        self.stats.queries += 1;
        self.stats.time += dt;
        self.stats.max_query = self.stats.max_query.max(dt);
        if let Ok(dir) = std::env::var("VX_DUMP_SLOW") {
            if dt > Duration::from_millis(1000) {
                let n = format!("{dir}/slow_{}_{}", std::process::id(), self.stats.queries);
                let _ = std::fs::write(format!("{n}.bv.smt2"), format!("(set-logic QF_BV)\n{body}(check-sat)\n"));
                if let Some((l, _)) = &lia_body {
                    let _ = std::fs::write(format!("{n}.lia.smt2"), format!("(set-logic QF_LIA)\n{l}(check-sat)\n"));
                }
            }
        }
        match &result {
            SatResult::Sat(v) => {
                self.stats.sat += 1;
                // Validate the model against the term semantics.
                let m = Model::default().update(v.clone());
                let ok = with(|tab| {
                    let mut memo = EvalMemo::default();
                    conj.iter().all(|b| tab.beval(*b, &m, &mut memo))
                });
                if !ok {
                    result = SatResult::Unknown("model does not satisfy the query (encoding error)".into());
                    eprintln!("ENCODING ERROR: model does not satisfy query:\n{body}");
                }
            }
            SatResult::Unsat => self.stats.unsat += 1,
            SatResult::Unknown(_) => self.stats.unknown += 1,
        }
        if self.cross_every > 0 && self.stats.queries % self.cross_every == 0 {
            let q = format!("(set-logic QF_BV)\n{body}(check-sat)\n");
            if let Some(other) = cross(&q) {
                self.stats.cross_checked += 1;
                let mine = match &result {
                    SatResult::Sat(_) => "sat",
                    SatResult::Unsat => "unsat",
                    SatResult::Unknown(_) => "unknown",
                };
                if mine != "unknown" && other != mine {
                    eprintln!("SOLVER DISAGREEMENT: z3 {mine}, cvc5 {other}\n{q}");
                    result = SatResult::Unknown("solvers disagree".into());
                }
            }
        }
        if !matches!(result, SatResult::Unknown(_)) {
            self.cache.insert(conj.to_vec(), result.clone());
        }
        result
    }
}

fn cross(q: &str) -> Option<String> {
    let mut c = Command::new("cvc5")
        .args(["--lang=smt2", "--tlimit=20000", "-"])
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .ok()?;
    c.stdin.take()?.write_all(q.as_bytes()).ok()?;
    let out = c.wait_with_output().ok()?;
    let s = String::from_utf8_lossy(&out.stdout).trim().to_string();
    if s == "sat" || s == "unsat" { Some(s) } else { None }
}

fn parse_values(s: &str, vars: &[Tid]) -> Option<Vec<(Tid, BigInt)>> {
    // ((v1 #x00) (v2 #b1) (v3 (- 5)) ...)
    let toks: Vec<&str> = s.split(|c: char| c == '(' || c == ')' || c.is_whitespace()).filter(|t| !t.is_empty()).collect();
    let mut vals: HashMap<&str, (BigInt, Option<u32>)> = HashMap::new();
    let mut i = 0;
    while i + 1 < toks.len() {
        let (n, mut v) = (toks[i], toks[i + 1]);
        i += 2;
        let neg = v == "-";
        if neg {
            v = toks.get(i)?;
            i += 1;
        }
        let (x, k) = if let Some(h) = v.strip_prefix("#x") {
            (BigInt::parse_bytes(h.as_bytes(), 16)?, Some(h.len() as u32 * 4))
        } else if let Some(b) = v.strip_prefix("#b") {
            (BigInt::parse_bytes(b.as_bytes(), 2)?, Some(b.len() as u32))
        } else {
            (v.parse::<BigInt>().ok()?, None)
        };
        vals.insert(n, (if neg { -x } else { x }, k));
    }
    let mut out = vec![];
    for t in vars {
        let name = format!("v{}", t.0);
        let (x, k) = vals.get(name.as_str())?;
        out.push((*t, match k {
            Some(k) => {
                let signed = with(|tab| match tab.node(*t) {
                    Node::Var { lo, hi, .. } => var_shape(lo, hi).1,
                    _ => unreachable!(),
                });
                low_const(x, *k, signed)
            }
            None => x.clone(),
        }));
    }
    Some(out)
}

/// Conjuncts (of those in `pc`) that transitively share variables with `seed`.
pub fn slice(pc: &[Bid], seed: Bid) -> Vec<Bid> {
    with(|tab| {
        let vs: Vec<BTreeSet<Tid>> = pc
            .iter()
            .map(|b| {
                let mut s = BTreeSet::new();
                tab.bvars(*b, &mut s, &mut HashSet::new());
                s
            })
            .collect();
        let mut cur = BTreeSet::new();
        tab.bvars(seed, &mut cur, &mut HashSet::new());
        let mut used = vec![false; pc.len()];
        loop {
            let mut changed = false;
            for i in 0..pc.len() {
                if !used[i] && vs[i].iter().any(|v| cur.contains(v)) {
                    used[i] = true;
                    cur.extend(vs[i].iter().copied());
                    changed = true;
                }
            }
            if !changed {
                break;
            }
        }
        let mut out: Vec<Bid> = (0..pc.len()).filter(|i| used[*i]).map(|i| pc[i]).collect();
        out.push(seed);
        out.sort();
        out.dedup();
        out
    })
}
