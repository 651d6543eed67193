//! Translation of formulas without bitwise operations to linear integer arithmetic (exact).

use super::term::*;
use num_bigint::BigInt;
use num_traits::{One, Signed, Zero};
use std::collections::{BTreeSet, HashMap};
use std::fmt::Write as _;

pub struct Lia<'a> {
    tab: &'a Table,
    pub text: String,
    done_t: HashMap<Tid, String>,
    done_b: HashMap<Bid, String>,
    pub vars: BTreeSet<Tid>,
    /// number of div/mod operations
    pub mods: u32,
    /// Replace what is not linear by unconstrained variables (within the static bounds)?
    pub abs: bool,
    pub abstracted: u32,
}

pub fn num(c: &BigInt) -> String {
    if c.is_negative() { format!("(- {})", -c) } else { c.to_string() }
}

impl<'a> Lia<'a> {
    pub fn new(tab: &'a Table) -> Self {
        Lia { tab, text: String::new(), done_t: HashMap::new(), done_b: HashMap::new(), vars: BTreeSet::new(), mods: 0, abs: false, abstracted: 0 }
    }
    fn sum(&mut self, v: &[(Tid, BigInt)], c: &BigInt) -> Option<String> {
        let mut parts = vec![];
        for (x, k) in v {
            let s = self.tr(*x)?;
            parts.push(if k.is_one() { s } else { format!("(* {} {s})", num(k)) });
        }
        if !c.is_zero() || parts.is_empty() {
            parts.push(num(c));
        }
        Some(if parts.len() == 1 { parts.pop().unwrap() } else { format!("(+ {})", parts.join(" ")) })
    }
    fn tr(&mut self, t: Tid) -> Option<String> {
        if let Some(c) = self.tab.as_const(t) {
            return Some(num(c));
        }
        if let Some(s) = self.done_t.get(&t) {
            return Some(s.clone());
        }
        if self.abs {
            let nonlin = match self.tab.node(t) {
                Node::Shr(_, s) => self.tab.as_const(*s).is_none(),
                Node::Div(_, b) | Node::Rem(_, b) => self.tab.as_const(*b).is_none_or(|d| !d.is_positive()),
                Node::Mul(..) | Node::And(..) | Node::Or(..) | Node::Xor(..) | Node::Shl(..) => true,
                _ => false,
            };
            if nonlin {
                let i = self.tab.info(t);
                let name = format!("a{}", t.0);
                writeln!(self.text, "(declare-const {name} Int)\n(assert (<= {} {name} {}))", num(&i.lo), num(&i.hi)).unwrap();
                self.abstracted += 1;
                self.done_t.insert(t, name.clone());
                return Some(name);
            }
        }
        let body = match self.tab.node(t).clone() {
            Node::Var { lo, hi, .. } => {
                let name = format!("v{}", t.0);
                self.vars.insert(t);
                writeln!(self.text, "(declare-const {name} Int)\n(assert (<= {} {name} {}))", num(&lo), num(&hi)).unwrap();
                self.done_t.insert(t, name.clone());
                return Some(name);
            }
            Node::Lin(v, c) => self.sum(&v, &c)?,
            Node::Low(a, k, signed) => {
                self.mods += 1;
                let a = self.tr(a)?;
                if signed {
                    let h = pow2(k - 1);
                    format!("(- (mod (+ {a} {h}) {}) {h})", pow2(k))
                } else {
                    format!("(mod {a} {})", pow2(k))
                }
            }
            Node::Shr(a, s) => {
                self.mods += 1;
                let s: u32 = self.tab.as_const(s)?.try_into().ok()?;
                format!("(div {} {})", self.tr(a)?, pow2(s))
            }
            Node::Div(a, b) => {
                self.mods += 1;
                let d = self.tab.as_const(b)?.clone();
                if !d.is_positive() {
                    return None;
                }
                let neg = self.tab.info(a).lo.is_negative();
                let a = self.tr(a)?;
                if neg {
                    format!("(ite (>= {a} 0) (div {a} {d}) (- (div (- {a}) {d})))")
                } else {
                    format!("(div {a} {d})")
                }
            }
            Node::Rem(a, b) => {
                self.mods += 1;
                let d = self.tab.as_const(b)?.clone();
                if !d.is_positive() {
                    return None;
                }
                let neg = self.tab.info(a).lo.is_negative();
                let a = self.tr(a)?;
                if neg {
                    format!("(ite (>= {a} 0) (mod {a} {d}) (- (mod (- {a}) {d})))")
                } else {
                    format!("(mod {a} {d})")
                }
            }
            Node::Ite(c, a, b) => {
                let c = self.b(c)?;
                format!("(ite {c} {} {})", self.tr(a)?, self.tr(b)?)
            }
            Node::Mul(..) | Node::And(..) | Node::Or(..) | Node::Xor(..) | Node::Shl(..) => return None,
        };
        let name = format!("t{}", t.0);
        writeln!(self.text, "(define-fun {name} () Int {body})").unwrap();
        self.done_t.insert(t, name.clone());
        Some(name)
    }
    pub fn b(&mut self, b: Bid) -> Option<String> {
        if let Some(s) = self.done_b.get(&b) {
            return Some(s.clone());
        }
        let body = match self.tab.bn(b).clone() {
            BNode::False => return Some("false".into()),
            BNode::True => return Some("true".into()),
            BNode::Ge0(t) => self.rel(">=", t)?,
            BNode::Eq0(t) => self.rel("=", t)?,
            BNode::Not(x) => format!("(not {})", self.b(x)?),
            BNode::And(v) | BNode::Or(v) => {
                let op = if matches!(self.tab.bn(b), BNode::And(_)) { "and" } else { "or" };
                let v: Option<Vec<_>> = v.into_iter().map(|x| self.b(x)).collect();
                format!("({op} {})", v?.join(" "))
            }
        };
        let name = format!("b{}", b.0);
        writeln!(self.text, "(define-fun {name} () Bool {body})").unwrap();
        self.done_b.insert(b, name.clone());
        Some(name)
    }
    fn rel(&mut self, op: &str, t: Tid) -> Option<String> {
        let (v, c) = self.tab.to_lin(t);
        let pos: Vec<_> = v.iter().filter(|(_, k)| k.is_positive()).cloned().collect();
        let neg: Vec<_> = v.iter().filter(|(_, k)| k.is_negative()).map(|(x, k)| (*x, -k)).collect();
        let l = self.sum(&pos, &BigInt::zero())?;
        let r = self.sum(&neg, &-c)?;
        Some(format!("({op} {l} {r})"))
    }
}
