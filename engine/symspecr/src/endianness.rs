use crate::*;
use crate::vx::term::{Node, Tid, with};

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
/// Either `LittleEndian` or `BigEndian`.
pub enum Endianness {
    #[allow(missing_docs)]
    LittleEndian,
    #[allow(missing_docs)]
    BigEndian,
}
pub use Endianness::*;

/// Ways to see a byte as bits `off..off+8` of another term (exact).
fn origins(b: Tid) -> Vec<(Tid, u32)> {
    with(|tab| {
        let mut out = tab.origins.get(&b).cloned().unwrap_or_default();
        if let Node::Low(x, 8, false) = *tab.node(b) {
            match *tab.node(x) {
                Node::Shr(y, s) if tab.as_const(s).is_some() => {
                    let s: u32 = tab.as_const(s).unwrap().try_into().unwrap();
                    out.push((y, s));
                }
                _ => {}
            }
            out.push((x, 0));
        }
        out.push((b, 0));
        out
    })
}

impl Endianness {
    /// If `signed == Signed` the data is interpreted as two's complement.
    pub fn decode(self, signed: Signedness, bytes: List<Byte>) -> Int {
        let mut v: Vec<Byte> = bytes.iter().collect();
        if matches!(self, BigEndian) {
            v.reverse();
        }
        // now least significant byte first
        assert!(!v.is_empty(), "called `Option::unwrap()` on a `None` value");
        let n = v.len();
        let is_signed = matches!(signed, Signedness::Signed);
        let mut total = Int::ZERO;
        let mut i = 0;
        while i < n {
            // the longest run of consecutive bytes of one term
            let mut best: (usize, Option<(Tid, u32)>) = (1, None);
            if v[i].0.sym_tid().is_some() {
                for (base, off) in origins(v[i].0.tid()) {
                    let mut len = 1;
                    while i + len < n
                        && v[i + len].0.sym_tid().is_some()
                        && origins(v[i + len].0.tid()).contains(&(base, off + 8 * len as u32))
                    {
                        len += 1;
                    }
                    if best.1.is_none() || len > best.0 {
                        best = (len, Some((base, off)));
                    }
                }
            }
            let (len, src) = best;
            let sign_here = is_signed && i + len == n;
            let part = match src {
                Some((base, off)) => {
                    let bits = 8 * len as u32;
                    Int::from_tid(with(|tab| {
                        let s = tab.cst(off.into());
                        let sh = tab.shr(base, s);
                        tab.low(sh, bits, sign_here)
                    }))
                }
                None => {
                    let b = v[i].0;
                    if sign_here && b >= 128 { b - 256 } else { b }
                }
            };
            total = total + (part << (8 * i));
            i += len;
        }
        total
    }

    /// This can fail (return `None`) if the `int` does not fit into `size` bytes
    /// or if it is negative and `signed == Unsigned`.
    pub fn encode(self, signed: Signedness, size: Size, int: Int) -> Option<List<Byte>> {
        if !int.in_bounds(signed, size) {
            return None;
        }
        let n = size.bytes().try_to_usize().unwrap();
        let mut v: Vec<Byte> = Vec::with_capacity(n);
        for j in 0..n {
            match int.sym_tid() {
                Some(t) => {
                    let b = with(|tab| {
                        let s = tab.cst((8 * j).into());
                        let sh = tab.shr(t, s);
                        let b = tab.low(sh, 8, false);
                        tab.add_origin(b, t, 8 * j as u32);
                        b
                    });
                    v.push(Byte(Int::from_tid(b)));
                }
                None => v.push(Byte((int >> (8 * j)) & 255)),
            }
        }
        if matches!(self, BigEndian) {
            v.reverse();
        }
        Some(v.into_iter().collect())
    }
}
