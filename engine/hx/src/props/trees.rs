//! Tree Borrows for types that Rust programs cannot have yet (C11).

use crate::build::*;
use crate::kit::*;
use crate::*;

/// Head (end, alignment, packing, cells) and a slice as tail (size, alignment and cells of its elements, number of them).
#[derive(Clone, Copy)]
struct Shape {
    end: u64,
    align: u64,
    packed: Option<u64>,
    head: &'static [(u64, u64)],
    size: u64,
    ealign: u64,
    elem: &'static [(u64, u64)],
    n: u64,
}

impl Shape {
    fn tail_align(&self) -> u64 {
        self.packed.map_or(self.ealign, |p| p.min(self.ealign))
    }
    fn tail(&self) -> u64 {
        self.end.next_multiple_of(self.tail_align())
    }
    fn total(&self) -> u64 {
        (self.tail() + self.n * self.size).next_multiple_of(self.tail_align().max(self.align))
    }
    fn padded(&self) -> bool {
        self.tail() != self.end || self.total() != self.tail() + self.n * self.size
    }
    fn mutable(&self) -> Vec<(u64, u64)> {
        let mut v = self.head.to_vec();
        for i in 0..self.n {
            v.extend(self.elem.iter().map(|(o, n)| (self.tail() + i * self.size + o, *n)));
        }
        v
    }
}

fn cells(c: &[(u64, u64)]) -> List<(Offset, Size)> {
    c.iter().map(|(o, n)| (offset(*o), size(*n))).collect()
}

/// A reference to the shape is made, a byte is written behind its back, and the byte is read through it.
fn unsized_cells(s: Shape, mutable: bool) {
    pin_addresses(|_, _| false);
    let freeze = s.head.is_empty() && s.elem.is_empty();
    let b = sym("b", 0, 23);
    let ty = unsized_tuple_ty(&[], slice_ty(blob(s.size, s.ealign)), offset(s.end), align(s.align), s.packed.map(align));
    let head = TupleHeadLayout { end: offset(s.end), align: align(s.align), packed_align: s.packed.map(align) };
    let info = PointeeInfo {
        layout: LayoutStrategy::Tuple { head, tail: GcCow::new(LayoutStrategy::Slice(size(s.size), align(s.ealign))) },
        inhabited: true,
        unsafe_cells: UnsafeCellStrategy::Tuple { head_cells: cells(s.head), tail_cells: GcCow::new(UnsafeCellStrategy::Slice { element_cells: cells(s.elem) }) },
        freeze,
        unpin: true,
    };
    let refty = if mutable { ref_mut_ty(info) } else { ref_ty(info) };
    let wide = raw_ptr_ty(PointerMetaKind::ElementCount);
    let r = run_tb(prog1(|m| {
        let v = live(m, blob(24, 8));
        let p = live(m, raw());
        m.assign(p, addr(v));
        for k in 0..24 {
            poke(m, load(p), k, Int::ZERO);
        }
        let w = live(m, wide);
        m.assign(w, construct_wide_pointer(load(p), usize_c(s.n), wide));
        let r = live(m, refty);
        m.assign(r, addr_of(deref(load(w), ty), refty));
        m.assign(at(load(p), b, u8t()), const_int(7u8));
        m.print(const_int(1u8));
        m.print(load(at(get_thin_pointer(load(r)), b, u8t())));
    }));
    reach(r.end.kind());
    let inside = |cells: Vec<(u64, u64)>, beyond: u64| {
        let mut ok = is_le(beyond, b) & B::from(!freeze);
        for (o, n) in cells {
            ok = ok | (is_le(o, b) & is_lt(b, o + n));
        }
        ok
    };
    let ub = r.end.is_ub();
    if !ub && !r.end.is_exit() {
        fail("interior mutability", &r.end.text())
    }
    let right = inside(s.mutable(), s.total()).iff(B::from(!ub));
    if s.padded() {
        // F06: without the padding
        let mut wrong = s.head.to_vec();
        for i in 0..s.n {
            wrong.extend(s.elem.iter().map(|(o, n)| (s.end + i * s.size + o, *n)));
        }
        let known = inside(wrong, s.end + s.n * s.size).iff(B::from(!ub));
        check_msg(right | known, "interior mutability around padding", &r.end.text());
        check_known(right, "F06", "interior mutability around padding")
    } else {
        check_msg(right, "interior mutability", &r.end.text())
    }
    check(is_eq(r.int(0), 1), "output");
}

pub fn cases(c: &mut Cases) {
    let shapes: [(&str, Shape); 9] = [
        ("no cells", Shape { end: 4, align: 4, packed: None, head: &[], size: 4, ealign: 4, elem: &[], n: 2 }),
        ("head cells", Shape { end: 4, align: 4, packed: None, head: &[(1, 2)], size: 4, ealign: 4, elem: &[], n: 2 }),
        ("tail cells", Shape { end: 4, align: 4, packed: None, head: &[], size: 4, ealign: 4, elem: &[(0, 1), (2, 1)], n: 3 }),
        ("both", Shape { end: 8, align: 8, packed: None, head: &[(0, 1), (7, 1)], size: 8, ealign: 8, elem: &[(2, 4)], n: 1 }),
        ("empty tail", Shape { end: 3, align: 1, packed: None, head: &[(1, 1)], size: 1, ealign: 1, elem: &[(0, 1)], n: 0 }),
        ("packed", Shape { end: 3, align: 1, packed: Some(1), head: &[(0, 1)], size: 4, ealign: 4, elem: &[(1, 1)], n: 2 }),
        ("padding before the tail", Shape { end: 1, align: 1, packed: None, head: &[], size: 4, ealign: 4, elem: &[(0, 2)], n: 2 }),
        ("padding after the tail", Shape { end: 4, align: 4, packed: None, head: &[(0, 4)], size: 1, ealign: 1, elem: &[(0, 1)], n: 3 }),
        ("padding and no cells", Shape { end: 5, align: 4, packed: None, head: &[], size: 2, ealign: 2, elem: &[], n: 2 }),
    ];
    for (n, s) in shapes {
        for mutable in [false, true] {
            c.add(format!("unsized tuple, {n}, {}", if mutable { "unique" } else { "shared" }), move || unsized_cells(s, mutable)).expect(
                if s.head.is_empty() && s.elem.is_empty() { &["ub"] } else { &["ub", "exit"] },
            );
        }
    }
    c.add("empty reference anywhere", || {
        let o = sym_of("o", ity(Signed, 8));
        let r = run_tb(prog1(|m| {
            let v = live(m, blob(4, 1));
            let unit = tuple_ty(&[], size(0), align(1));
            let refty = ref_ty_default_markers_for(unit);
            let r = live(m, refty);
            m.print(const_int(1u8));
            m.assign(r, addr_of(deref(ptr_offset(addr(v), isize_c(o), InBounds::No), unit), refty));
            m.print(const_int(2u8));
        }));
        check(is_eq(r.int(0), 1), "output");
        reach(r.end.kind());
        match r.end.kind() {
            // only at the null pointer
            "ub" => check(B::from(r.out.len() == 1), "UB for null"),
            "exit" => check(B::from(r.out.len() == 2), "output"),
            k => fail(&format!("empty reference: {k}"), &r.end.text()),
        }
    })
    .expect(&["exit"]);
}
