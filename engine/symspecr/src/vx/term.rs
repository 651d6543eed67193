//! Hash-consed terms over the mathematical integers, with interval and congruence information,
//! and formulas over them. Every simplification is an exact identity over the integers.

use num_bigint::BigInt;
use num_integer::Integer;
use num_traits::{One, Signed, ToPrimitive, Zero};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Copy, Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct Tid(pub u32);
#[derive(Copy, Clone, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct Bid(pub u32);

pub const FALSE: Bid = Bid(0);
pub const TRUE: Bid = Bid(1);

pub type Lin = (Vec<(Tid, BigInt)>, BigInt);

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Node {
    Var { seq: u32, name: Rc<str>, lo: BigInt, hi: BigInt },
    /// Linear combination; never a plain `1*t + 0`.
    Lin(Vec<(Tid, BigInt)>, BigInt),
    Mul(Tid, Tid),
    /// Truncated division / remainder (as for Rust's primitive integers and BigInt).
    Div(Tid, Tid),
    Rem(Tid, Tid),
    And(Tid, Tid),
    Or(Tid, Tid),
    Xor(Tid, Tid),
    Shl(Tid, Tid),
    /// Arithmetic (floor) shift.
    Shr(Tid, Tid),
    /// The representative of `t` modulo `2^k` in the signed / unsigned range of `k` bits.
    Low(Tid, u32, bool),
    Ite(Bid, Tid, Tid),
}

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum BNode {
    False,
    True,
    Ge0(Tid),
    Eq0(Tid),
    Not(Bid),
    And(Vec<Bid>),
    Or(Vec<Bid>),
}

#[derive(Clone, Debug)]
pub struct Info {
    pub lo: BigInt,
    pub hi: BigInt,
    /// `t ≡ r (mod m)`; `m == 0` means `t == r`.
    pub m: BigInt,
    pub r: BigInt,
}

#[derive(Default)]
pub struct Table {
    pub nodes: Vec<Node>,
    pub infos: Vec<Info>,
    map: HashMap<Node, Tid>,
    pub bnodes: Vec<BNode>,
    bmap: HashMap<BNode, Bid>,
    /// `b` equals bits `off..off+8` of `t` (exact facts recorded by integer encoding).
    pub origins: HashMap<Tid, Vec<(Tid, u32)>>,
}

thread_local! {
    static TABLE: RefCell<Table> = RefCell::new(Table::new());
}

pub fn with<O>(f: impl FnOnce(&mut Table) -> O) -> O {
    TABLE.with(|t| f(&mut t.borrow_mut()))
}

pub fn pow2(k: u32) -> BigInt {
    BigInt::one() << k
}
/// Number of bits of the smallest two's complement width that contains `x`.
pub fn signed_bits(x: &BigInt) -> u32 {
    if x.is_negative() { ((-x) - 1u32).bits() as u32 + 1 } else { x.bits() as u32 + 1 }
}
fn is_pow2(x: &BigInt) -> Option<u32> {
    if x.is_positive() && x.magnitude().count_ones() == 1 { Some(x.bits() as u32 - 1) } else { None }
}
pub fn low_const(x: &BigInt, k: u32, signed: bool) -> BigInt {
    let m = pow2(k);
    let r = x.mod_floor(&m);
    if signed && r >= pow2(k - 1) { r - m } else { r }
}
pub fn range(k: u32, signed: bool) -> (BigInt, BigInt) {
    if signed { (-pow2(k - 1), pow2(k - 1) - 1) } else { (BigInt::zero(), pow2(k) - 1) }
}

impl Table {
    fn new() -> Self {
        let mut t = Table::default();
        t.bnode(BNode::False);
        t.bnode(BNode::True);
        t
    }

    pub fn add_origin(&mut self, b: Tid, t: Tid, off: u32) {
        if self.as_const(b).is_some() {
            return;
        }
        let v = self.origins.entry(b).or_default();
        if v.len() < 16 && !v.contains(&(t, off)) {
            v.push((t, off));
        }
    }
    pub fn info(&self, t: Tid) -> &Info {
        &self.infos[t.0 as usize]
    }
    pub fn node(&self, t: Tid) -> &Node {
        &self.nodes[t.0 as usize]
    }
    pub fn bn(&self, b: Bid) -> &BNode {
        &self.bnodes[b.0 as usize]
    }
    pub fn width(&self, t: Tid) -> u32 {
        let i = self.info(t);
        signed_bits(&i.lo).max(signed_bits(&i.hi))
    }

    fn intern(&mut self, n: Node) -> Tid {
        if let Some(t) = self.map.get(&n) {
            return *t;
        }
        let info = self.compute_info(&n);
        let id = Tid(self.nodes.len() as u32);
        self.nodes.push(n.clone());
        self.infos.push(info);
        self.map.insert(n, id);
        // A term whose interval is a single point is that constant.
        id
    }

    fn fin(&mut self, n: Node) -> Tid {
        let t = self.intern(n);
        let i = self.info(t);
        if i.lo == i.hi {
            let c = i.lo.clone();
            return self.cst(c);
        }
        t
    }

    fn bnode(&mut self, n: BNode) -> Bid {
        if let Some(b) = self.bmap.get(&n) {
            return *b;
        }
        let id = Bid(self.bnodes.len() as u32);
        self.bnodes.push(n.clone());
        self.bmap.insert(n, id);
        id
    }

    fn compute_info(&self, n: &Node) -> Info {
        let any = |lo: BigInt, hi: BigInt| Info { lo, hi, m: BigInt::one(), r: BigInt::zero() };
        match n {
            Node::Var { lo, hi, .. } => any(lo.clone(), hi.clone()),
            Node::Lin(ts, c) => {
                let (mut lo, mut hi) = (c.clone(), c.clone());
                let (mut m, mut r) = (BigInt::zero(), c.clone());
                for (t, k) in ts {
                    let i = self.info(*t);
                    if k.is_positive() {
                        lo += k * &i.lo;
                        hi += k * &i.hi;
                    } else {
                        lo += k * &i.hi;
                        hi += k * &i.lo;
                    }
                    m = m.gcd(&(k * &i.m));
                    r += k * &i.r;
                }
                if !m.is_zero() {
                    r = r.mod_floor(&m);
                }
                Info { lo, hi, m, r }
            }
            Node::Mul(a, b) => {
                let (a, b) = (self.info(*a), self.info(*b));
                let ps = [&a.lo * &b.lo, &a.lo * &b.hi, &a.hi * &b.lo, &a.hi * &b.hi];
                any(ps.iter().min().unwrap().clone(), ps.iter().max().unwrap().clone())
            }
            Node::Div(a, b) => {
                let (a, b) = (self.info(*a), self.info(*b));
                if b.lo.is_positive() || b.hi.is_negative() {
                    let ps = [&a.lo / &b.lo, &a.lo / &b.hi, &a.hi / &b.lo, &a.hi / &b.hi];
                    let mut lo = ps.iter().min().unwrap().clone();
                    let mut hi = ps.iter().max().unwrap().clone();
                    if a.lo.is_negative() && a.hi.is_positive() {
                        lo = lo.min(BigInt::zero());
                        hi = hi.max(BigInt::zero());
                    }
                    any(lo, hi)
                } else {
                    // |a / b| <= |a|
                    let m = a.lo.abs().max(a.hi.abs());
                    let lo = if !a.lo.is_negative() && !b.lo.is_negative() { BigInt::zero() } else { -m.clone() };
                    any(lo, m)
                }
            }
            Node::Rem(a, b) => {
                let (a, b) = (self.info(*a), self.info(*b));
                let bm: BigInt = b.lo.abs().max(b.hi.abs()) - 1u32;
                let bm = bm.max(BigInt::zero());
                let lo = if a.lo.is_negative() { (-bm.clone()).max(a.lo.clone()) } else { BigInt::zero() };
                let hi = if a.hi.is_positive() { bm.min(a.hi.clone()) } else { BigInt::zero() };
                any(lo, hi)
            }
            Node::And(a, b) | Node::Or(a, b) | Node::Xor(a, b) => {
                let (wa, wb) = (self.width(*a), self.width(*b));
                let (a, b) = (self.info(*a), self.info(*b));
                let w = wa.max(wb);
                let (nna, nnb) = (!a.lo.is_negative(), !b.lo.is_negative());
                match n {
                    Node::And(..) if nna && nnb => any(BigInt::zero(), a.hi.clone().min(b.hi.clone())),
                    Node::And(..) if nna => any(BigInt::zero(), a.hi.clone()),
                    Node::And(..) if nnb => any(BigInt::zero(), b.hi.clone()),
                    _ if nna && nnb => any(BigInt::zero(), pow2(w - 1) - 1),
                    _ => any(-pow2(w - 1), pow2(w - 1) - 1),
                }
            }
            Node::Shl(a, s) => {
                let (a, s) = (self.info(*a), self.info(*s));
                let (s0, s1) = (s.lo.to_u32().unwrap(), s.hi.to_u32().unwrap());
                let ps = [&a.lo << s0, &a.lo << s1, &a.hi << s0, &a.hi << s1];
                any(ps.iter().min().unwrap().clone(), ps.iter().max().unwrap().clone())
            }
            Node::Shr(a, s) => {
                let (a, s) = (self.info(*a), self.info(*s));
                let (s0, s1) = (s.lo.to_u32().unwrap(), s.hi.to_u32().unwrap());
                let ps = [&a.lo >> s0, &a.lo >> s1, &a.hi >> s0, &a.hi >> s1];
                any(ps.iter().min().unwrap().clone(), ps.iter().max().unwrap().clone())
            }
            Node::Low(a, k, signed) => {
                let (lo, hi) = range(*k, *signed);
                let a = self.info(*a);
                let m = a.m.gcd(&pow2(*k));
                let r = a.r.mod_floor(&m);
                Info { lo, hi, m, r }
            }
            Node::Ite(_, a, b) => {
                let (a, b) = (self.info(*a), self.info(*b));
                let m = a.m.gcd(&b.m).gcd(&(&a.r - &b.r));
                let r = if m.is_zero() { a.r.clone() } else { a.r.mod_floor(&m) };
                Info { lo: a.lo.clone().min(b.lo.clone()), hi: a.hi.clone().max(b.hi.clone()), m, r }
            }
        }
    }

    pub fn var(&mut self, seq: u32, name: &str, lo: BigInt, hi: BigInt) -> Tid {
        assert!(lo <= hi, "empty variable range");
        self.fin(Node::Var { seq, name: name.into(), lo, hi })
    }
    pub fn cst(&mut self, c: BigInt) -> Tid {
        self.intern(Node::Lin(vec![], c))
    }
    pub fn as_const(&self, t: Tid) -> Option<&BigInt> {
        match self.node(t) {
            Node::Lin(v, c) if v.is_empty() => Some(c),
            _ => None,
        }
    }
    pub fn to_lin(&self, t: Tid) -> Lin {
        match self.node(t) {
            Node::Lin(v, c) => (v.clone(), c.clone()),
            _ => (vec![(t, BigInt::one())], BigInt::zero()),
        }
    }
    pub fn from_lin(&mut self, l: Lin) -> Tid {
        let (v, c) = l;
        if v.len() == 1 && c.is_zero() && v[0].1.is_one() {
            return v[0].0;
        }
        self.fin(Node::Lin(v, c))
    }
    pub fn lin_comb(&mut self, a: Tid, ka: &BigInt, b: Tid, kb: &BigInt) -> Tid {
        let (va, ca) = self.to_lin(a);
        let (vb, cb) = self.to_lin(b);
        let mut out: Vec<(Tid, BigInt)> = Vec::with_capacity(va.len() + vb.len());
        let (mut i, mut j) = (0, 0);
        while i < va.len() || j < vb.len() {
            if j >= vb.len() || (i < va.len() && va[i].0 < vb[j].0) {
                out.push((va[i].0, &va[i].1 * ka));
                i += 1;
            } else if i >= va.len() || vb[j].0 < va[i].0 {
                out.push((vb[j].0, &vb[j].1 * kb));
                j += 1;
            } else {
                let k = &va[i].1 * ka + &vb[j].1 * kb;
                out.push((va[i].0, k));
                i += 1;
                j += 1;
            }
        }
        out.retain(|(_, k)| !k.is_zero());
        self.from_lin((out, ca * ka + cb * kb))
    }
    pub fn add(&mut self, a: Tid, b: Tid) -> Tid {
        self.lin_comb(a, &BigInt::one(), b, &BigInt::one())
    }
    pub fn sub(&mut self, a: Tid, b: Tid) -> Tid {
        self.lin_comb(a, &BigInt::one(), b, &-BigInt::one())
    }
    pub fn scale(&mut self, a: Tid, k: &BigInt) -> Tid {
        if k.is_zero() {
            return self.cst(BigInt::zero());
        }
        let (v, c) = self.to_lin(a);
        let v = v.into_iter().map(|(t, x)| (t, x * k)).collect();
        self.from_lin((v, c * k))
    }
    pub fn neg(&mut self, a: Tid) -> Tid {
        self.scale(a, &-BigInt::one())
    }
    pub fn addc(&mut self, a: Tid, c: &BigInt) -> Tid {
        let (v, d) = self.to_lin(a);
        self.from_lin((v, d + c))
    }
    pub fn mul(&mut self, a: Tid, b: Tid) -> Tid {
        if let Some(c) = self.as_const(a).cloned() {
            return self.scale(b, &c);
        }
        if let Some(c) = self.as_const(b).cloned() {
            return self.scale(a, &c);
        }
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        self.fin(Node::Mul(a, b))
    }

    /// Splits `t = d * q + r` syntactically with `0 <= r < d` guaranteed by intervals; returns `q`
    /// (so `q = floor(t / d)`).
    fn split_floor(&mut self, t: Tid, d: &BigInt) -> Option<Tid> {
        let (v, c) = self.to_lin(t);
        let mut q = vec![];
        let mut rest = vec![];
        for (x, k) in v {
            if k.is_multiple_of(d) { q.push((x, k / d)) } else { rest.push((x, k)) }
        }
        if q.is_empty() && rest.is_empty() {
            return None;
        }
        // The constant can be split either way: try floor, then everything.
        let cq = c.div_floor(d);
        let cr = c.mod_floor(d);
        let rt = self.from_lin((rest, cr));
        let i = self.info(rt);
        let qf = i.lo.div_floor(d);
        if i.hi.div_floor(d) == qf {
            return Some(self.from_lin((q, cq + qf)));
        }
        None
    }

    /// `b` must not be able to be zero.
    pub fn div(&mut self, a: Tid, b: Tid) -> Tid {
        if let Some(d) = self.as_const(b).cloned() {
            assert!(!d.is_zero());
            if let Some(c) = self.as_const(a) {
                let q = c / &d;
                return self.cst(q);
            }
            if d.is_negative() {
                let p = self.cst(-d);
                let q = self.div(a, p);
                return self.neg(q);
            }
            if d.is_one() {
                return a;
            }
            let i = self.info(a).clone();
            if !i.lo.is_negative() {
                if let Some(q) = self.split_floor(a, &d) {
                    return q;
                }
                if let Some(k) = is_pow2(&d) {
                    let k = self.cst(k.into());
                    return self.shr(a, k);
                }
            } else if !i.hi.is_positive() {
                let n = self.neg(a);
                let q = self.div(n, b);
                return self.neg(q);
            } else {
                let (v, c) = self.to_lin(a);
                if c.is_multiple_of(&d) && v.iter().all(|(_, k)| k.is_multiple_of(&d)) {
                    let v = v.into_iter().map(|(t, k)| (t, k / &d)).collect();
                    return self.from_lin((v, c / &d));
                }
            }
        }
        self.fin(Node::Div(a, b))
    }
    /// `b` must not be able to be zero.
    pub fn rem(&mut self, a: Tid, b: Tid) -> Tid {
        if let Some(d) = self.as_const(b).cloned() {
            assert!(!d.is_zero());
            if let Some(c) = self.as_const(a) {
                let q = c % &d;
                return self.cst(q);
            }
            let d = d.abs();
            let i = self.info(a).clone();
            if i.lo > -d.clone() && i.hi < d {
                return a;
            }
            if i.m.is_multiple_of(&d) || i.m.is_zero() {
                let r = i.r.mod_floor(&d);
                if r.is_zero() || !i.lo.is_negative() {
                    return self.cst(r);
                }
            }
            if !i.lo.is_negative() {
                if let Some(k) = is_pow2(&d) {
                    return self.low(a, k, false);
                }
                if let Some(q) = self.split_floor(a, &d) {
                    return self.lin_comb(a, &BigInt::one(), q, &-d);
                }
            }
            let b = self.cst(d);
            return self.fin(Node::Rem(a, b));
        }
        self.fin(Node::Rem(a, b))
    }
    /// `s` must be known to be in a small non-negative range.
    pub fn shl(&mut self, a: Tid, s: Tid) -> Tid {
        if let Some(c) = self.as_const(s) {
            let k = pow2(c.to_u32().expect("shift amount too large"));
            return self.scale(a, &k);
        }
        if self.as_const(a).is_some_and(|c| c.is_zero()) {
            return a;
        }
        self.fin(Node::Shl(a, s))
    }
    pub fn shr(&mut self, a: Tid, s: Tid) -> Tid {
        if let Some(c) = self.as_const(s) {
            let k = c.to_u32().expect("shift amount too large");
            if k == 0 {
                return a;
            }
            if let Some(x) = self.as_const(a) {
                let r = x >> k;
                return self.cst(r);
            }
            if let Some(q) = self.split_floor(a, &pow2(k)) {
                return q;
            }
            if let Node::Shr(x, j) = self.node(a).clone() {
                if let Some(j) = self.as_const(j).cloned() {
                    let s = self.cst(j + k);
                    return self.shr(x, s);
                }
            }
        }
        if self.as_const(a).is_some_and(|c| c.is_zero()) {
            return a;
        }
        self.fin(Node::Shr(a, s))
    }
    pub fn low(&mut self, a: Tid, k: u32, signed: bool) -> Tid {
        assert!(k > 0 || !signed);
        if k == 0 {
            return self.cst(BigInt::zero());
        }
        let (lo, hi) = range(k, signed);
        let i = self.info(a);
        if i.lo >= lo && i.hi <= hi {
            return a;
        }
        if i.m.is_zero() || i.m.is_multiple_of(&pow2(k)) {
            let c = low_const(&i.r, k, signed);
            return self.cst(c);
        }
        match self.node(a).clone() {
            Node::Low(x, j, _) if j >= k => return self.low(x, k, signed),
            Node::Shr(x, s) => {
                if let Some(s) = self.as_const(s).and_then(|c| c.to_u32()) {
                    if let Node::Low(y, j, _) = *self.node(x) {
                        if s + k <= j {
                            let st = self.cst(s.into());
                            let sh = self.shr(y, st);
                            return self.low(sh, k, signed);
                        }
                    }
                }
            }
            Node::Lin(v, c) => {
                // Coefficients are relevant only modulo 2^k, and so are the summands.
                let mut out = self.cst(low_const(&c, k, false));
                for (t, x) in &v {
                    let x = low_const(x, k, true);
                    let tz = if x.is_zero() { continue } else { x.trailing_zeros().unwrap() as u32 };
                    let t = if tz < k { self.low_strip(*t, k - tz) } else { *t };
                    out = self.lin_comb(out, &BigInt::one(), t, &x);
                }
                if out != a {
                    return self.low(out, k, signed);
                }
            }
            Node::Mul(x, y) => {
                let (x2, y2) = (self.low_strip(x, k), self.low_strip(y, k));
                if (x2, y2) != (x, y) {
                    let m = self.mul(x2, y2);
                    return self.low(m, k, signed);
                }
            }
            Node::And(x, y) => {
                let (x2, y2) = (self.low_strip(x, k), self.low_strip(y, k));
                if (x2, y2) != (x, y) {
                    let m = self.and(x2, y2);
                    return self.low(m, k, signed);
                }
            }
            Node::Or(x, y) => {
                let (x2, y2) = (self.low_strip(x, k), self.low_strip(y, k));
                if (x2, y2) != (x, y) {
                    let m = self.or(x2, y2);
                    return self.low(m, k, signed);
                }
            }
            Node::Xor(x, y) => {
                let (x2, y2) = (self.low_strip(x, k), self.low_strip(y, k));
                if (x2, y2) != (x, y) {
                    let m = self.xor(x2, y2);
                    return self.low(m, k, signed);
                }
            }
            Node::Ite(c, x, y) => {
                let x = self.low(x, k, signed);
                let y = self.low(y, k, signed);
                return self.ite(c, x, y);
            }
            _ => {}
        }
        self.fin(Node::Low(a, k, signed))
    }
    /// Something equal to `t` modulo 2^k, with outer truncations to at least k bits removed.
    fn low_strip(&mut self, t: Tid, k: u32) -> Tid {
        match *self.node(t) {
            Node::Low(x, j, _) if j >= k => self.low_strip(x, k),
            _ => t,
        }
    }
    pub fn and(&mut self, a: Tid, b: Tid) -> Tid {
        if a == b {
            return a;
        }
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        for (x, y) in [(a, b), (b, a)] {
            if let Some(c) = self.as_const(y).cloned() {
                if let Some(d) = self.as_const(x) {
                    let r = c & d;
                    return self.cst(r);
                }
                if c.is_zero() {
                    return y;
                }
                if c == -BigInt::one() {
                    return x;
                }
                if let Some(k) = is_pow2(&(&c + 1u32)) {
                    return self.low(x, k, false);
                }
            }
        }
        self.fin(Node::And(a, b))
    }
    fn disjoint(&self, a: Tid, b: Tid) -> bool {
        // a is a multiple of 2^k, 0 <= b < 2^k
        let (a, b) = (self.info(a), self.info(b));
        if b.lo.is_negative() {
            return false;
        }
        let k = pow2(b.hi.bits() as u32);
        a.r.is_multiple_of(&k) && (a.m.is_zero() || a.m.is_multiple_of(&k))
    }
    pub fn or(&mut self, a: Tid, b: Tid) -> Tid {
        if a == b {
            return a;
        }
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        for (x, y) in [(a, b), (b, a)] {
            if let Some(c) = self.as_const(y).cloned() {
                if let Some(d) = self.as_const(x) {
                    let r = c | d;
                    return self.cst(r);
                }
                if c.is_zero() {
                    return x;
                }
                if c == -BigInt::one() {
                    return y;
                }
            }
            if self.disjoint(x, y) {
                return self.add(x, y);
            }
        }
        self.fin(Node::Or(a, b))
    }
    pub fn xor(&mut self, a: Tid, b: Tid) -> Tid {
        if a == b {
            return self.cst(BigInt::zero());
        }
        let (a, b) = if a <= b { (a, b) } else { (b, a) };
        for (x, y) in [(a, b), (b, a)] {
            if let Some(c) = self.as_const(y).cloned() {
                if let Some(d) = self.as_const(x) {
                    let r = c ^ d;
                    return self.cst(r);
                }
                if c.is_zero() {
                    return x;
                }
                if c == -BigInt::one() {
                    return self.not(x);
                }
            }
        }
        self.fin(Node::Xor(a, b))
    }
    pub fn not(&mut self, a: Tid) -> Tid {
        let n = self.neg(a);
        self.addc(n, &-BigInt::one())
    }
    pub fn ite(&mut self, c: Bid, a: Tid, b: Tid) -> Tid {
        if c == TRUE || a == b {
            return a;
        }
        if c == FALSE {
            return b;
        }
        self.fin(Node::Ite(c, a, b))
    }

    // ---- formulas ----

    pub fn ge0(&mut self, t: Tid) -> Bid {
        let i = self.info(t);
        if !i.lo.is_negative() {
            return TRUE;
        }
        if i.hi.is_negative() {
            return FALSE;
        }
        let (v, c) = self.to_lin(t);
        if let Some(b) = self.ite_cases(&v, &c, |x| !x.is_negative()) {
            return b;
        }
        let g = v.iter().fold(BigInt::zero(), |g, (_, k)| g.gcd(k));
        let t = if g.is_one() {
            t
        } else {
            let v = v.into_iter().map(|(t, k)| (t, k / &g)).collect();
            self.from_lin((v, c.div_floor(&g)))
        };
        let i = self.info(t);
        if !i.lo.is_negative() {
            return TRUE;
        }
        if i.hi.is_negative() {
            return FALSE;
        }
        self.bnode(BNode::Ge0(t))
    }
    fn ite_cases(&mut self, v: &[(Tid, BigInt)], c: &BigInt, f: impl Fn(&BigInt) -> bool) -> Option<Bid> {
        if let [(x, k)] = v {
            if let Node::Ite(cond, a, b) = *self.node(*x) {
                if let (Some(a), Some(b)) = (self.as_const(a), self.as_const(b)) {
                    let ra = f(&(a * k + c));
                    let rb = f(&(b * k + c));
                    return Some(match (ra, rb) {
                        (true, true) => TRUE,
                        (false, false) => FALSE,
                        (true, false) => cond,
                        (false, true) => self.bnot(cond),
                    });
                }
            }
        }
        None
    }
    pub fn eq0(&mut self, t: Tid) -> Bid {
        let i = self.info(t);
        if i.lo.is_positive() || i.hi.is_negative() {
            return FALSE;
        }
        if i.lo.is_zero() && i.hi.is_zero() {
            return TRUE;
        }
        if !i.m.is_zero() && !i.r.mod_floor(&i.m).is_zero() {
            return FALSE;
        }
        let (v, c) = self.to_lin(t);
        if let Some(b) = self.ite_cases(&v, &c, |x| x.is_zero()) {
            return b;
        }
        let mut g = v.iter().fold(BigInt::zero(), |g, (_, k)| g.gcd(k));
        if !c.is_multiple_of(&g) {
            return FALSE;
        }
        if v[0].1.is_negative() {
            g = -g;
        }
        let t = if g.is_one() {
            t
        } else {
            let v = v.into_iter().map(|(t, k)| (t, k / &g)).collect();
            self.from_lin((v, c / &g))
        };
        self.bnode(BNode::Eq0(t))
    }
    pub fn le(&mut self, a: Tid, b: Tid) -> Bid {
        let d = self.sub(b, a);
        self.ge0(d)
    }
    pub fn lt(&mut self, a: Tid, b: Tid) -> Bid {
        let d = self.sub(b, a);
        let d = self.addc(d, &-BigInt::one());
        self.ge0(d)
    }
    pub fn eq(&mut self, a: Tid, b: Tid) -> Bid {
        let d = self.sub(a, b);
        self.eq0(d)
    }
    pub fn bnot(&mut self, b: Bid) -> Bid {
        match self.bn(b).clone() {
            BNode::False => TRUE,
            BNode::True => FALSE,
            BNode::Not(x) => x,
            BNode::Ge0(t) => {
                // not (t >= 0)  <=>  -t - 1 >= 0
                let n = self.not(t);
                self.ge0(n)
            }
            BNode::Eq0(_) => self.bnode(BNode::Not(b)),
            BNode::And(v) => {
                let v = v.into_iter().map(|x| self.bnot(x)).collect();
                self.bor(v)
            }
            BNode::Or(v) => {
                let v = v.into_iter().map(|x| self.bnot(x)).collect();
                self.band(v)
            }
        }
    }
    pub fn band(&mut self, v: Vec<Bid>) -> Bid {
        let mut out = vec![];
        for b in v {
            match self.bn(b) {
                BNode::True => {}
                BNode::False => return FALSE,
                BNode::And(w) => out.extend(w.iter().copied()),
                _ => out.push(b),
            }
        }
        out.sort();
        out.dedup();
        for b in out.clone() {
            if matches!(self.bn(b), BNode::Ge0(_) | BNode::Eq0(_) | BNode::Not(_)) {
                let n = self.bnot(b);
                if out.binary_search(&n).is_ok() {
                    return FALSE;
                }
            }
        }
        match out.len() {
            0 => TRUE,
            1 => out[0],
            _ => self.bnode(BNode::And(out)),
        }
    }
    pub fn bor(&mut self, v: Vec<Bid>) -> Bid {
        let mut out = vec![];
        for b in v {
            match self.bn(b) {
                BNode::False => {}
                BNode::True => return TRUE,
                BNode::Or(w) => out.extend(w.iter().copied()),
                _ => out.push(b),
            }
        }
        out.sort();
        out.dedup();
        for b in out.clone() {
            // (avoid unbounded recursion through De Morgan on compound formulas)
            if matches!(self.bn(b), BNode::Ge0(_) | BNode::Eq0(_) | BNode::Not(_)) {
                let n = self.bnot(b);
                if out.binary_search(&n).is_ok() {
                    return TRUE;
                }
            }
        }
        match out.len() {
            0 => FALSE,
            1 => out[0],
            _ => self.bnode(BNode::Or(out)),
        }
    }

    // ---- evaluation under a model ----

    pub fn eval(&self, t: Tid, m: &Model, memo: &mut EvalMemo) -> BigInt {
        if let Some(x) = memo.t.get(&t) {
            return x.clone();
        }
        let r = match self.node(t) {
            Node::Var { lo, hi, .. } => m.get(t).unwrap_or_else(|| default_value(lo, hi)),
            Node::Lin(v, c) => {
                let mut x = c.clone();
                for (t, k) in v {
                    x += k * self.eval(*t, m, memo);
                }
                x
            }
            Node::Mul(a, b) => self.eval(*a, m, memo) * self.eval(*b, m, memo),
            Node::Div(a, b) => {
                let d = self.eval(*b, m, memo);
                if d.is_zero() { BigInt::zero() } else { self.eval(*a, m, memo) / d }
            }
            Node::Rem(a, b) => {
                let d = self.eval(*b, m, memo);
                if d.is_zero() { self.eval(*a, m, memo) } else { self.eval(*a, m, memo) % d }
            }
            Node::And(a, b) => self.eval(*a, m, memo) & self.eval(*b, m, memo),
            Node::Or(a, b) => self.eval(*a, m, memo) | self.eval(*b, m, memo),
            Node::Xor(a, b) => self.eval(*a, m, memo) ^ self.eval(*b, m, memo),
            Node::Shl(a, s) => self.eval(*a, m, memo) << self.eval(*s, m, memo).to_u32().unwrap(),
            Node::Shr(a, s) => self.eval(*a, m, memo) >> self.eval(*s, m, memo).to_u32().unwrap(),
            Node::Low(a, k, s) => low_const(&self.eval(*a, m, memo), *k, *s),
            Node::Ite(c, a, b) =>
                if self.beval(*c, m, memo) { self.eval(*a, m, memo) } else { self.eval(*b, m, memo) },
        };
        memo.t.insert(t, r.clone());
        r
    }
    pub fn beval(&self, b: Bid, m: &Model, memo: &mut EvalMemo) -> bool {
        if let Some(x) = memo.b.get(&b) {
            return *x;
        }
        let r = match self.bn(b) {
            BNode::False => false,
            BNode::True => true,
            BNode::Ge0(t) => !self.eval(*t, m, memo).is_negative(),
            BNode::Eq0(t) => self.eval(*t, m, memo).is_zero(),
            BNode::Not(x) => !self.beval(*x, m, memo),
            BNode::And(v) => v.iter().all(|x| self.beval(*x, m, memo)),
            BNode::Or(v) => v.iter().any(|x| self.beval(*x, m, memo)),
        };
        memo.b.insert(b, r);
        r
    }

    /// The variables a formula depends on.
    pub fn bvars(&self, b: Bid, out: &mut std::collections::BTreeSet<Tid>, seen: &mut std::collections::HashSet<u64>) {
        if !seen.insert((b.0 as u64) << 1 | 1) {
            return;
        }
        match self.bn(b) {
            BNode::False | BNode::True => {}
            BNode::Ge0(t) | BNode::Eq0(t) => self.tvars(*t, out, seen),
            BNode::Not(x) => self.bvars(*x, out, seen),
            BNode::And(v) | BNode::Or(v) =>
                for x in v {
                    self.bvars(*x, out, seen)
                },
        }
    }
    pub fn tvars(&self, t: Tid, out: &mut std::collections::BTreeSet<Tid>, seen: &mut std::collections::HashSet<u64>) {
        if !seen.insert((t.0 as u64) << 1) {
            return;
        }
        match self.node(t) {
            Node::Var { .. } => {
                out.insert(t);
            }
            Node::Lin(v, _) =>
                for (x, _) in v {
                    self.tvars(*x, out, seen)
                },
            Node::Mul(a, b) | Node::Div(a, b) | Node::Rem(a, b) | Node::And(a, b) | Node::Or(a, b)
            | Node::Xor(a, b) | Node::Shl(a, b) | Node::Shr(a, b) => {
                self.tvars(*a, out, seen);
                self.tvars(*b, out, seen);
            }
            Node::Low(a, ..) => self.tvars(*a, out, seen),
            Node::Ite(c, a, b) => {
                self.bvars(*c, out, seen);
                self.tvars(*a, out, seen);
                self.tvars(*b, out, seen);
            }
        }
    }
}

pub fn default_value(lo: &BigInt, hi: &BigInt) -> BigInt {
    if lo.is_positive() {
        lo.clone()
    } else if hi.is_negative() {
        hi.clone()
    } else {
        BigInt::zero()
    }
}

#[derive(Default)]
pub struct EvalMemo {
    t: HashMap<Tid, BigInt>,
    b: HashMap<Bid, bool>,
}

/// A (partial) assignment of the variables; unassigned variables have their default value.
#[derive(Clone, Default, Debug)]
pub struct Model(pub Rc<HashMap<Tid, BigInt>>);

impl Model {
    pub fn get(&self, t: Tid) -> Option<BigInt> {
        self.0.get(&t).cloned()
    }
    pub fn update(&self, vals: Vec<(Tid, BigInt)>) -> Model {
        let mut m = (*self.0).clone();
        m.extend(vals);
        Model(Rc::new(m))
    }
}
