//! Aliasing: Tree Borrows on translated programs.
use crate::kit::*;
use crate::rust::*;
use crate::*;

/// A type, its size, its bytes in an `UnsafeCell`, whether it has none at all, and whether it is `Unpin`.
/// `off` gives the cells as (expression for the offset, length).
struct Ty<'a> {
    name: &'a str,
    decl: &'a str,
    ty: &'a str,
    size: u64,
    cells: Cells_,
    freeze: bool,
    unpin: bool,
}
#[derive(Clone)]
enum Cells_ {
    At(&'static [(u64, u64)]),
    /// The program prints the offset of the only cell; it has this many bytes.
    Printed(u64),
}
fn t<'a>(name: &'a str, decl: &'a str, ty: &'a str, size: u64, cells: &'static [(u64, u64)]) -> Ty<'a> {
    Ty { name, decl, ty, size, cells: Cells_::At(cells), freeze: cells.is_empty(), unpin: true }
}
fn sized() -> Vec<Ty<'static>> {
    let mut v = vec![
        t("u32", "", "u32", 4, &[]),
        t("bool, char and a pointer", "#[repr(C)] struct T(char, bool, *const Cell<u8>);", "T", 16, &[]),
        t("a reference to a cell", "", "&'static Cell<u64>", 8, &[]),
        t("an option of a reference to a cell", "", "Option<&'static Cell<u64>>", 8, &[]),
        t("a function of cells", "", "fn(Cell<u8>) -> Cell<u64>", 8, &[]),
        t("a box of a cell", "", "Box<Cell<u64>>", 8, &[]),
        t("a cell", "", "Cell<u32>", 4, &[(0, 4)]),
        t("an unsafe cell of a pair", "", "UnsafeCell<(u8, u16)>", 4, &[(0, 4)]),
        t("an atomic", "", "std::sync::atomic::AtomicU16", 2, &[(0, 2)]),
        t("a cell in a struct", "#[repr(C)] struct T(u8, Cell<u8>, u16);", "T", 4, &[(1, 2)]),
        t("two cells in a struct", "#[repr(C)] struct T { a: u32, b: Cell<u16>, c: UnsafeCell<u8>, d: u8 }", "T", 8, &[(4, 7)]),
        t("cells around a struct", "#[repr(C)] struct T { a: Cell<u8>, b: u8, c: u16, d: Cell<u32>, e: u8 }", "T", 12, &[(0, 1), (4, 8)]),
        t("cells in padding", "#[repr(C, align(8))] struct T { a: Cell<u8>, b: u32 }", "T", 8, &[(0, 1)]),
        t("a packed cell", "#[repr(C, packed)] struct T { a: u8, b: Cell<u32>, c: u8 }", "T", 6, &[(1, 5)]),
        t("a struct in a struct", "#[repr(C)] struct S(u8, Cell<u8>); #[repr(C)] struct T(u16, S, u8, S);", "T", 8, &[(3, 4), (6, 7)]),
        t("an array of cells", "", "[Cell<u16>; 3]", 6, &[(0, 6)]),
        t("a short array of cells", "", "[Cell<u16>; 1]", 2, &[(0, 2)]),
        t("an array of structs with cells", "#[repr(C)] struct S(u8, Cell<u8>, u8);", "[S; 4]", 12, &[(1, 2), (4, 5), (7, 8), (10, 11)]),
        t("an array of arrays of cells", "#[repr(C)] struct S(Cell<u8>, u8);", "[[S; 2]; 2]", 8, &[(0, 1), (2, 3), (4, 5), (6, 7)]),
        t("an array in a struct", "#[repr(C)] struct S(Cell<u8>, u8); #[repr(C)] struct T(u16, [S; 3], u8);", "T", 10, &[(2, 3), (4, 5), (6, 7)]),
        t("an array without cells", "", "[u16; 3]", 6, &[]),
        t("an option of a cell", "", "Option<Cell<u8>>", 2, &[(0, 2)]),
        t("an enum with a cell", "#[repr(C, u8)] enum T { A(u32), B(Cell<u8>), C }", "T", 8, &[(0, 8)]),
        t("an enum without cells", "#[repr(C, u8)] enum T { A(u32), B(&'static Cell<u8>), C }", "T", 16, &[]),
        t("a struct with an enum with a cell", "#[repr(u8)] enum E { A(u8), B(Cell<u8>) } #[repr(C)] struct T(u16, E, u16);", "T", 6, &[(2, 4)]),
        t("a union with a cell", "#[repr(C)] union T { a: ManuallyDrop<Cell<u8>>, b: u32 }", "T", 4, &[(0, 4)]),
        t("a union without cells", "#[repr(C)] union T { a: u8, b: u32 }", "T", 4, &[]),
        t("maybe-uninit of a cell", "", "std::mem::MaybeUninit<Cell<u32>>", 4, &[(0, 4)]),
        t("manually dropped cells", "#[repr(C)] struct S(u8, Cell<u8>);", "ManuallyDrop<S>", 2, &[(1, 2)]),
        t("a generic struct of a cell", "#[repr(C)] struct G<A, B>(A, B, A);", "G<u8, Cell<u16>>", 6, &[(2, 4)]),
        t("a generic struct of no cell", "#[repr(C)] struct G<A, B>(A, B, std::marker::PhantomData<Cell<u32>>, A);", "G<u8, u16>", 6, &[]),
        t("an array of tuples of pointers to cells", "", "[(*mut Cell<u8>, fn(Cell<u8>)); 2]", 32, &[]),
        t("a bigger struct without cells", "#[repr(C)] struct T(u64, [u32; 3], (u8, u16), Option<bool>);", "T", 32, &[]),
        t("a transparent cell", "#[repr(transparent)] struct T(Cell<u16>);", "T", 2, &[(0, 2)]),
        t("a once-cell like struct", "#[repr(C)] struct T { s: UnsafeCell<Option<u16>>, n: u32 }", "T", 8, &[(0, 4)]),
    ];
    v.push(Ty { cells: Cells_::Printed(8), freeze: false, ..t("a reordered struct", "struct T { a: u8, f: Cell<u64>, b: u32, c: u8 }", "T", 16, &[]) });
    v.push(Ty { cells: Cells_::Printed(2), freeze: false, ..t("a reordered struct in between", "struct T { a: u8, b: u64, f: Cell<u16>, c: u32 }", "T", 16, &[]) });
    v.push(Ty { freeze: true, unpin: false, ..t("a pinned struct", "#[repr(C)] struct T(u32, std::marker::PhantomPinned);", "T", 4, &[]) });
    v.push(Ty { unpin: false, ..t("a pinned struct with a cell", "#[repr(C)] struct T(u8, Cell<u8>, u16, std::marker::PhantomPinned);", "T", 4, &[(1, 2)]) });
    v.push(Ty { unpin: false, ..t("an array of pinned structs", "struct S(u8, std::marker::PhantomPinned);", "[S; 3]", 3, &[]) });
    v.push(Ty { unpin: true, ..t("a pointer to a pinned struct", "struct S(u8, std::marker::PhantomPinned);", "*const S", 8, &[]) });
    v.push(Ty { unpin: true, ..t("a struct that says it is unpinned", "#[repr(C)] struct T(u32, std::marker::PhantomPinned); impl Unpin for T {}", "T", 4, &[]) });
    v
}
const PRE: &str = "use std::cell::*; use std::mem::ManuallyDrop;";

/// How a reference is used: what happens is UB depending on whether the byte `i` is in a cell, in the type, ...
/// `mu`: through a mutable reference.
struct Use {
    name: &'static str,
    mu: bool,
    /// `p`: pointer to the place, `base`: pointer to bytes; `i`: which byte (0 at the start of the place)
    code: &'static str,
    /// cell, inside, freeze, unpin
    ub: fn(B, B, bool, bool) -> B,
    /// Prints a second number before the UB.
    late: bool,
}
fn uses() -> Vec<Use> {
    let f = |b: bool| B::from(b);
    let _ = f;
    vec![
        // A shared reference may only be written through where there are cells.
        Use { name: "written through", mu: false, code: "let r: & @ = unsafe { & *p }; let q = r as *const @ as *const u8 as *mut u8; print(1); unsafe { *q.offset(i) = 7; }", ub: |c, ins, fr, _| ite_b(ins, !c, B::from(fr)), late: false },
        // It does not survive foreign writes elsewhere.
        Use { name: "read after a write", mu: false, code: "let r: & @ = unsafe { & *p }; let q = r as *const @ as *const u8; unsafe { *base.offset(i) = 7; } print(1); print(unsafe { *q.offset(i) });", ub: |c, ins, fr, _| ite_b(ins, !c, B::from(fr)), late: false },
        Use { name: "read after a read", mu: false, code: "let r: & @ = unsafe { & *p }; let q = r as *const @ as *const u8; print(1); print(unsafe { *base.offset(i) + *q.offset(i) });", ub: |_, _, _, _| false.into(), late: false },
        // An untouched mutable reference survives foreign writes to cells (or if it is not retagged).
        Use { name: "mutably read after a write", mu: true, code: "let r: &mut @ = unsafe { &mut *p }; let q = r as *mut @ as *mut u8; unsafe { *base.offset(i) = 7; } print(1); print(unsafe { *q.offset(i) });", ub: |c, ins, fr, un| B::from(un) & ite_b(ins, !c, B::from(fr)), late: false },
        // An active one becomes read-only with a foreign read.
        Use { name: "mutably written after a read", mu: true, code: "let r: &mut @ = unsafe { &mut *p }; let q = r as *mut @ as *mut u8; unsafe { *q.offset(i) = 3; let _x = *base.offset(i); } print(1); unsafe { *q.offset(i) = 3; }", ub: |_, _, _, un| un.into(), late: false },
        Use { name: "mutably read after a write twice", mu: true, code: "let r: &mut @ = unsafe { &mut *p }; let q = r as *mut @ as *mut u8; unsafe { *q.offset(i) = 3; *base.offset(i) = 4; } print(1); print(unsafe { *q.offset(i) });", ub: |_, _, _, un| un.into(), late: false },
        // Protected: arguments of a function, for the time of the call.
        Use { name: "argument while written", mu: false, code: "fn f(r: & @, base: *mut u8, i: isize) { print(1); unsafe { *base.offset(i) = 7; } } f(unsafe { & *p }, base, i);", ub: |c, ins, _, _| ins & !c, late: false },
        Use { name: "argument while read", mu: false, code: "fn f(r: & @, base: *mut u8, i: isize) { print(1); unsafe { print(*base.offset(i)); } } f(unsafe { & *p }, base, i);", ub: |_, _, _, _| false.into(), late: false },
        Use { name: "mutable argument while written", mu: true, code: "fn f(r: &mut @, base: *mut u8, i: isize) { print(1); unsafe { *base.offset(i) = 7; } } f(unsafe { &mut *p }, base, i);", ub: |_, ins, _, un| ins & B::from(un), late: false },
        Use { name: "mutable argument written after a read", mu: true, code: "fn f(r: &mut @, base: *mut u8, i: isize) { let q = r as *mut @ as *mut u8; unsafe { let _x = *base.offset(i); } print(1); unsafe { *q.offset(i) = 7; } } f(unsafe { &mut *p }, base, i);", ub: |_, _, _, un| un.into(), late: false },
        Use { name: "mutable argument read after being written", mu: true, code: "fn f(r: &mut @, base: *mut u8, i: isize) { let q = r as *mut @ as *mut u8; unsafe { *q.offset(i) = 7; } print(1); unsafe { let _x = *base.offset(i); } } f(unsafe { &mut *p }, base, i);", ub: |_, _, _, un| un.into(), late: false },
        // The end of the protector is an access of what has been accessed.
        Use { name: "after having been an argument", mu: true, code: "fn f(r: &mut @, i: isize) -> *mut u8 { let q = r as *mut @ as *mut u8; unsafe { *q.offset(i) = 7; } q } let q = f(unsafe { &mut *p }, i); unsafe { *base.offset(i) = 1; } print(1); print(unsafe { *q.offset(i) });", ub: |_, _, _, un| un.into(), late: false },
    ]
}
fn ite_b(c: B, a: B, b: B) -> B {
    (c & a) | (!c & b)
}

/// What the type of a reference says about the bytes it may be used for.
pub fn types(c: &mut Cases) {
    for ty in sized() {
        let n = ty.size;
        for u in uses() {
            let place = if matches!(ty.cells, Cells_::Printed(_)) { format!("print(std::mem::offset_of!({}, f));", ty.ty) } else { "print(0);".into() };
            let body = format!("{PRE} {} #[repr(C, align(8))] struct Buf([u8; {n} + 12]); const _: () = assert!(std::mem::size_of::<{}>() == {n});
                fn main() {{ let mut b = Buf([0; {n} + 12]); let base = unsafe {{ (&raw mut b as *mut u8).add(8) }}; let p = base as *mut {}; let i = i!() as isize; {place} {} print(2); }}", ty.decl, ty.ty, ty.ty, u.code.replace('@', ty.ty));
            let (cells, freeze, unpin, ub) = (ty.cells.clone(), ty.freeze, ty.unpin, u.ub);
            let basic = matches!(u.name, "written through" | "mutably read after a write" | "argument while written");
            let core = matches!(ty.name, "a cell in a struct" | "u32" | "a pinned struct with a cell" | "an enum with a cell" | "an array of arrays of cells");
            let reads = u.code.matches("print(").count() > 1;
            let case = c.rust_tb(&format!("{} {}", ty.name, u.name), &[("i", "i8")], &body, move |r| {
                let i = r.v[0];
                suppose(is_le(-3, i) & is_lt(i, Int::from(n + 3)));
                let at = r.val(0);
                let inside = is_le(0, i) & is_lt(i, Int::from(n));
                let cell = match &cells {
                    Cells_::At(l) => any(l.iter().map(|(a, b)| is_le(*a, i) & is_lt(i, *b))),
                    Cells_::Printed(m) => {
                        check(is_le(0, at) & is_le(at + Int::from(*m), Int::from(n)), "the field is in the type");
                        is_le(at, i) & is_lt(i, at + Int::from(*m))
                    }
                };
                let bad = ub(cell, inside, freeze, unpin);
                let o = r.out.len();
                if r.end.is_ub() {
                    check_msg(bad, "UB only if specified", &r.end.text());
                    reach("ub");
                    check(o == 2, "where");
                    return r.ends("ub", &[at, int(1)]);
                }
                check(!bad, "UB if specified");
                reach("exit");
                let mut out = vec![at, int(1)];
                if reads {
                    out.push(r.val(2));
                }
                out.push(int(2));
                r.ends("exit", &out)
            });
            if !basic && !core {
                case.thorough_only();
            }
        }
    }
}

/// Unsized places: slices, trait objects; boxes; closures.
pub fn wide(c: &mut Cases) {
    let pre = |n: u64| format!("{PRE} #[repr(C)] struct S(u8, Cell<u8>, u8); #[repr(C)] struct N(u8, u16); struct Pin(u8, std::marker::PhantomPinned); trait Tr {{}} impl Tr for u32 {{}} impl Tr for Cell<u16> {{}} impl Tr for S {{}} impl Tr for [S; 2] {{}} impl Tr for Pin {{}} trait Up: Unpin {{}} impl Up for S {{}}
        #[repr(C, align(8))] struct Buf([u8; {n} + 12]);");
    for (n, ty, mk, size, mask, unpin) in [
        ("a slice", "[u8]", "slice_from_raw_parts_mut(base, n)", None, vec![(1, vec![])], true),
        ("a slice of cells", "[Cell<u8>]", "slice_from_raw_parts_mut(base as *mut Cell<u8>, n)", None, vec![(1, vec![0])], true),
        ("a slice of structs with cells", "[S]", "slice_from_raw_parts_mut(base as *mut S, n)", None, vec![(3, vec![1])], true),
        ("a slice of arrays of structs", "[[S; 2]]", "slice_from_raw_parts_mut(base as *mut [S; 2], n)", None, vec![(6, vec![1, 4])], true),
        ("a slice of structs", "[N]", "slice_from_raw_parts_mut(base as *mut N, n)", None, vec![(4, vec![])], true),
        ("a slice of pinned structs", "[Pin]", "slice_from_raw_parts_mut(base as *mut Pin, n)", None, vec![(1, vec![])], false),
        ("a string", "str", "slice_from_raw_parts_mut(base, n) as *mut str", None, vec![(1, vec![])], true),
        // Trait objects have the cells of what is behind them. They may contain cells, and need not be `Unpin`.
        ("any u32", "dyn Tr", "base as *mut u32 as *mut dyn Tr", Some(4), vec![(4, vec![])], false),
        ("any cell", "dyn Tr", "base as *mut Cell<u16> as *mut dyn Tr", Some(2), vec![(2, vec![0, 1])], false),
        ("any struct with a cell", "dyn Tr", "base as *mut S as *mut dyn Tr", Some(3), vec![(3, vec![1])], false),
        ("any array of structs with cells", "dyn Tr", "base as *mut [S; 2] as *mut dyn Tr", Some(6), vec![(6, vec![1, 4])], false),
        ("any unpinned struct with a cell", "dyn Up", "base as *mut S as *mut dyn Up", Some(3), vec![(3, vec![1])], true),
        ("any unpinned struct with a cell, marked", "(dyn Tr + Unpin)", "base as *mut S as *mut (dyn Tr + Unpin)", Some(3), vec![(3, vec![1])], true),
        ("any of two", "dyn Tr", "if n == 1 { base as *mut S as *mut dyn Tr } else { base as *mut Cell<u16> as *mut dyn Tr }", Some(0), vec![(2, vec![0, 1]), (3, vec![1])], false),
    ] {
        let freeze = !ty.contains("dyn") && mask.iter().all(|(_, m)| m.is_empty());
        for u in uses() {
            if !matches!(u.name, "written through" | "mutably read after a write" | "argument while written" | "mutable argument while written" | "read after a write") {
                continue;
            }
            let max: u64 = if size.is_some() { 6 } else { mask[0].0 * 2 };
            let body = format!("{} fn main() {{ use std::ptr::*; let mut b = Buf([0; {max} + 12]); let base = unsafe {{ (&raw mut b as *mut u8).add(8) }}; let n = n!() as usize; let p: *mut {ty} = {mk}; let i = i!() as isize; {} print(2); }}", pre(max), u.code.replace('@', ty));
            let (mask, ub) = (mask.clone(), u.ub);
            let reads = u.code.matches("print(").count() > 1;
            c.rust_tb(&format!("{n} {}", u.name), &[("i", "i8"), ("n", "u8")], &body, move |r| {
                let (i, n) = (r.v[0], r.v[1]);
                suppose(is_le(n, 2) & is_le(-2, i) & is_lt(i, Int::from(max + 2)));
                let one = mask.len() == 1;
                let len = match size {
                    None => n * Int::from(mask[0].0),
                    Some(0) => ite(is_eq(n, 1), 3, 2),
                    Some(k) => int(k),
                };
                let inside = is_le(0, i) & is_lt(i, len);
                let at = |k: usize| {
                    let (w, m) = &mask[k];
                    let j = if one { (i + Int::from(*w * 8)) % Int::from(*w) } else { i };
                    any(m.iter().map(|b| is_eq(j, Int::from(*b))))
                };
                let cell = inside & if one { at(0) } else { ite_b(is_eq(n, 1), at(1), at(0)) };
                let bad = ub(cell, inside, freeze, unpin);
                if r.end.is_ub() {
                    check_msg(bad, "UB only if specified", &r.end.text());
                    return r.ends("ub", &[int(1)]);
                }
                check(!bad, "UB if specified");
                let mut out = vec![int(1)];
                if reads {
                    out.push(r.val(1));
                }
                out.push(int(2));
                r.ends("exit", &out)
            });
        }
    }
}

/// The model of Tree Borrows for one byte.
#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Cell,
    Reserved,
    ReservedIm,
    Active,
    Frozen,
    Disabled,
}
struct Node {
    parent: Option<usize>,
    st: St,
    protected: bool,
    /// used (locally) while protected
    used: bool,
    /// read by others while protected
    conflicted: bool,
}
struct Tree(Vec<Node>);
impl Tree {
    fn new() -> Tree {
        Tree(vec![Node { parent: None, st: St::Active, protected: false, used: true, conflicted: false }])
    }
    fn under(&self, n: usize, m: usize) -> bool {
        n == m || self.0[n].parent.is_some_and(|p| self.under(p, m))
    }
    /// True if that is UB. Skips the nodes under `but`.
    fn access(&mut self, n: usize, write: bool, but: Option<usize>) -> bool {
        for m in 0..self.0.len() {
            if but.is_some_and(|b| self.under(m, b)) {
                continue;
            }
            let local = self.under(n, m);
            let x = &mut self.0[m];
            if local {
                if x.st == St::Disabled || write && (x.st == St::Frozen || x.protected && x.conflicted && x.st == St::Reserved) {
                    return true;
                }
                if write && x.st != St::Cell {
                    x.st = St::Active;
                }
                x.used = true;
            } else {
                match (x.st, write) {
                    (St::Cell, _) | (St::Disabled, _) => {}
                    (St::Active, _) | (_, true) if x.protected && x.used => return true,
                    (St::Active, false) => x.st = St::Frozen,
                    (_, false) => x.conflicted |= x.protected,
                    (St::ReservedIm, true) if !x.protected => {}
                    (_, true) => x.st = St::Disabled,
                }
            }
        }
        false
    }
    /// A new reference derived from `p`.
    fn reborrow(&mut self, p: usize, mu: bool, cell: bool, protected: bool) -> (usize, bool) {
        let st = match (mu, cell) {
            (false, true) => St::Cell,
            (false, false) => St::Frozen,
            (true, true) if !protected => St::ReservedIm,
            _ => St::Reserved,
        };
        let n = self.0.len();
        self.0.push(Node { parent: Some(p), st, protected, used: false, conflicted: false });
        (n, st != St::Cell && self.access(n, false, None))
    }
    fn release(&mut self, n: usize) -> bool {
        let x = &mut self.0[n];
        x.protected = false;
        let (st, used) = (x.st, x.used);
        match st {
            St::Active => self.access(n, true, Some(n)),
            St::Reserved | St::Frozen if used => self.access(n, false, Some(n)),
            _ => false,
        }
    }
}
fn choose(x: Int, n: u64) -> usize {
    for k in 0..n - 1 {
        if is_eq(x, Int::from(k)).decide() {
            return k as usize;
        }
    }
    suppose(is_eq(x, Int::from(n - 1)));
    (n - 1) as usize
}

/// Any sequence of some reborrows and accesses.
pub fn sequences(c: &mut Cases) {
    let pre = format!("{PRE} #[repr(C)] struct T(u8, Cell<u8>); unsafe fn op(p: *mut T, x: u8, o: bool) {{ let p = (p as *mut u8).add(o as usize); if x & 1 == 0 {{ let _y = *p; }} else {{ *p = 5; }} }}
        unsafe fn pick(x: u8, a: *mut T, b: *mut T, c: *mut T) -> *mut T {{ match x >> 1 {{ 0 => a, 1 => b, _ => c }} }}");
    let derive = |v: &str, k: bool, p: &str| if k { format!("let {v} = &mut *{p} as *mut T;") } else { format!("let {v} = & *{p} as *const T as *mut T;") };
    // Two references, accesses in between and behind.
    for (k1, k2, from) in (0..8).map(|i| (i & 1 == 1, i & 2 == 2, i >> 2)) {
        let kind = |k| if k { "mutable" } else { "shared" };
        let body = format!("{pre} fn main() {{ unsafe {{ let mut x = T(1, Cell::new(2)); let p0 = &raw mut x; let o = o!(); {} print(1); op(pick(a!(), p0, p1, p1), a!(), o); print(2); {} print(3); op(pick(b!(), p0, p1, p2), b!(), o); print(4); op(pick(d!(), p0, p1, p2), d!(), o); print(5); }} }}",
            derive("p1", k1, "p0"), derive("p2", k2, ["p0", "p1"][from]));
        c.rust_tb(&format!("{} and {} reference from {}", kind(k1), kind(k2), ["the same", "it"][from]), &[("o", "bool"), ("a", "u8"), ("b", "u8"), ("d", "u8")], &body, move |r| {
            let o = is_ne(r.v[0], 0).decide();
            let (a, b, d) = (choose(r.v[1], 4), choose(r.v[2], 6), choose(r.v[3], 6));
            let mut t = Tree::new();
            let mut log = vec![];
            let ub = (|| {
                let (p1, ub) = t.reborrow(0, k1, o, false);
                if ub {
                    return true;
                }
                log.push(int(1));
                if t.access([0, p1][a >> 1], a & 1 == 1, None) {
                    return true;
                }
                log.push(int(2));
                let (p2, ub) = t.reborrow([0, p1][from], k2, o, false);
                if ub {
                    return true;
                }
                log.push(int(3));
                for (k, x) in [b, d].into_iter().enumerate() {
                    if t.access([0, p1, p2][x >> 1], x & 1 == 1, None) {
                        return true;
                    }
                    log.push(Int::from(4 + k as u64));
                }
                false
            })();
            r.ends(if ub { "ub" } else { "exit" }, &log)
        });
    }
    // A protected reference.
    for (k1, k2, from) in (0..8).map(|i| (i & 1 == 0, i & 2 == 2, i >> 2)) {
        let kind = |k| if k { "mutable" } else { "shared" };
        let (arg, conv) = if k2 { (format!("&mut *{}", ["p0", "p1"][from]), "r as *mut T") } else { (format!("& *{}", ["p0", "p1"][from]), "r as *const T as *mut T") };
        let body = format!("{pre} unsafe fn f(r: {} T, p0: *mut T, p1: *mut T) -> *mut T {{ print(2); let p2 = {conv}; op(pick(a!(), p0, p1, p2), a!(), o!()); print(3); op(pick(b!(), p0, p1, p2), b!(), o!()); print(4); p2 }}
            fn main() {{ unsafe {{ let mut x = T(1, Cell::new(2)); let p0 = &raw mut x; {} print(1); let p2 = f({arg}, p0, p1); print(5); op(pick(d!(), p0, p1, p2), d!(), o!()); print(6); }} }}", if k2 { "&mut" } else { "&" }, derive("p1", k1, "p0"));
        c.rust_tb(&format!("{} reference, {} argument from {}", kind(k1), kind(k2), ["the same", "it"][from]), &[("o", "bool"), ("a", "u8"), ("b", "u8"), ("d", "u8")], &body, move |r| {
            let o = is_ne(r.v[0], 0).decide();
            let (a, b, d) = (choose(r.v[1], 6), choose(r.v[2], 6), choose(r.v[3], 6));
            let mut t = Tree::new();
            let mut log = vec![];
            let ub = (|| {
                let (p1, ub) = t.reborrow(0, k1, o, false);
                if ub {
                    return true;
                }
                log.push(int(1));
                let (q, ub) = t.reborrow([0, p1][from], k2, o, false);
                if ub {
                    return true;
                }
                let (p2, ub) = t.reborrow(q, k2, o, true);
                if ub {
                    return true;
                }
                log.push(int(2));
                for (k, x) in [a, b].into_iter().enumerate() {
                    if t.access([0, p1, p2][x >> 1], x & 1 == 1, None) {
                        return true;
                    }
                    log.push(Int::from(3 + k as u64));
                }
                if t.release(p2) {
                    return true;
                }
                log.push(int(5));
                if t.access([0, p1, p2][d >> 1], d & 1 == 1, None) {
                    return true;
                }
                log.push(int(6));
                false
            })();
            r.ends(if ub { "ub" } else { "exit" }, &log)
        });
    }
}

/// Where references are found in arguments, and what protecting them forbids.
pub fn protectors(c: &mut Cases) {
    // A reference somewhere in an argument: is it protected?
    for (n, decl, ty, mk, bad) in [
        ("plain", "", "&mut u8", "r", true),
        ("in a tuple", "", "(u8, &mut u8)", "(1, r)", true),
        ("in a struct", "struct S<'a> { a: u32, r: &'a mut u8 }", "S<'_>", "S { a: 1, r }", true),
        ("in nested structs", "struct S<'a>(u8, &'a mut u8); struct Q<'a>(u16, S<'a>, bool);", "Q<'_>", "Q(1, S(2, r), true)", true),
        ("in a generic struct", "struct G<T>(u8, T);", "G<G<&mut u8>>", "G(1, G(2, r))", true),
        ("in an array", "", "[&mut u8; 2]", "[&mut *d, r]", true),
        ("in an array of tuples", "", "[(u8, &mut u8); 2]", "[(1, &mut *d), (2, r)]", true),
        ("in an option", "", "Option<&mut u8>", "Some(r)", true),
        ("in a variant", "enum E<'a> { A(u8), B(u16, &'a mut u8), C }", "E<'_>", "E::B(1, r)", true),
        ("in a tagged variant", "#[repr(u8)] enum E<'a> { A(u8) = 3, B(u16, &'a mut u8), C }", "E<'_>", "E::B(1, r)", true),
        ("in a variant of a variant", "enum E<'a> { A(u8), B(Option<&'a mut u8>) }", "E<'_>", "E::B(Some(r))", true),
        ("in a transparent struct", "#[repr(transparent)] struct S<'a>(&'a mut u8);", "S<'_>", "S(r)", true),
        ("as a slice", "", "&mut [u8]", "std::slice::from_mut(r)", true),
        ("as a pinned reference", "", "std::pin::Pin<&mut u8>", "std::pin::Pin::new(r)", true),
        ("shared", "", "&u8", "&*r", true),
        ("shared, in an option", "", "Option<&u8>", "Some(&*r)", true),
        ("as a raw pointer", "", "*mut u8", "r as *mut u8", false),
        ("as a raw pointer in a struct", "struct S(u8, *mut u8);", "S", "S(1, r as *mut u8)", false),
        ("as a pointer that is not null", "", "std::ptr::NonNull<u8>", "std::ptr::NonNull::from(r)", false),
        ("as a box", "", "ManuallyDrop<Box<u8>>", "std::mem::transmute(r)", true),
        ("as a box in a struct", "struct S(u8, ManuallyDrop<Box<u8>>);", "S", "S(1, std::mem::transmute(r))", true),
        ("as a cell", "", "&Cell<u8>", "Cell::from_mut(r)", false),
        ("in a union", "union U<'a> { r: ManuallyDrop<&'a mut u8> }", "U<'_>", "U { r: ManuallyDrop::new(r) }", false),
        ("behind a reference", "", "&mut &mut u8", "&mut { r }", false),
        ("behind a shared reference", "", "&&mut u8", "&r", false),
        ("as a number", "", "usize", "r as *mut u8 as usize", false),
    ] {
        c.rust_tb(&format!("argument {n} protected"), &[("x", "u8"), ("w", "bool")], &format!("{PRE} {decl} fn f(s: {ty}, p: *mut u8, w: bool) {{ print(1); if w {{ unsafe {{ *p = 7; }} }} print(2); }}
            fn main() {{ unsafe {{ let mut v = x!(); let mut e = 0u8; let d = &raw mut e; let p = &raw mut v; let r: &mut u8 = &mut *p; f({mk}, p, w!()); print(v); *p = 9; print(v); }} }}"), move |r| {
            let w = is_ne(r.v[1], 0);
            r.ends_iff("ub", w & B::from(bad), &[int(1)], &[int(2), ite(w, int(7), r.v[0]), int(9)])
        });
    }
    for (n, call, decl) in [
        ("a method", "p2.f(p, w!())", "trait Tr { fn f(self, p: *mut u8, w: bool); } impl Tr for &mut u8 { fn f(self, p: *mut u8, w: bool) { print(1); if w { unsafe { *p = 7; } } print(2); } }"),
        ("a method that borrows", "p2.f(p, w!())", "trait Tr { fn f(&mut self, p: *mut u8, w: bool); } impl Tr for u8 { fn f(&mut self, p: *mut u8, w: bool) { print(1); if w { unsafe { *p = 7; } } print(2); } }"),
        ("a function pointer", "{ let g: fn(&mut u8, *mut u8, bool) = f; g(p2, p, w!()) }", "fn f(r: &mut u8, p: *mut u8, w: bool) { print(1); if w { unsafe { *p = 7; } } print(2); }"),
        ("a closure", "{ let g = |r: &mut u8, p: *mut u8, w: bool| { print(1); if w { unsafe { *p = 7; } } print(2); }; g(p2, p, w!()) }", ""),
        ("a C function", "f(p2, p, w!())", "extern \"C\" fn f(r: &mut u8, p: *mut u8, w: bool) { print(1); if w { unsafe { *p = 7; } } print(2); }"),
        ("a closure that captured it", "{ let g = move |p: *mut u8, w: bool| { let r = p2; print(1); if w { unsafe { *p = 7; } } print(2); }; g(p, w!()) }", ""),
    ] {
        c.rust_tb(&format!("reference protected by {n}"), &[("x", "u8"), ("w", "bool")], &format!("{PRE} {decl} fn main() {{ unsafe {{ let mut v = x!(); let p = &raw mut v; let p2: &mut u8 = &mut *p; {call}; print(v); }} }}"), move |r| {
            let w = is_ne(r.v[1], 0);
            r.ends_iff("ub", w, &[int(1)], &[int(2), r.v[0]])
        });
    }
    // Deallocating what an argument refers to.
    for (n, ty, mk, bad) in [
        ("mutable", "&mut u8", "&mut *p", true),
        ("shared", "&u8", "&*p", true),
        ("second", "&mut u8", "&mut *p.add(1)", true),
        ("cell", "&Cell<u8>", "&*(p as *const Cell<u8>)", false),
        ("mutable cell", "&mut Cell<u8>", "&mut *(p as *mut Cell<u8>)", true),
        ("partial cell", "&(u8, Cell<u8>)", "&*(p as *const (u8, Cell<u8>))", true),
        ("empty", "&mut ()", "&mut *(p as *mut ())", false),
        ("raw", "*mut u8", "p", false),
        ("pinned", "&mut std::marker::PhantomPinned", "&mut *(p as *mut std::marker::PhantomPinned)", false),
        ("boxed", "ManuallyDrop<Box<u8>>", "std::mem::transmute(p)", true),
    ] {
        c.rust_tb(&format!("argument {n} deallocated"), &[("w", "bool")], &format!("{PRE} use intrinsics::*; fn f(r: {ty}, p: *mut u8, w: bool) {{ unsafe {{ print(1); if w {{ deallocate(p, 4, 1); }} print(2); }} }}
            fn main() {{ unsafe {{ let p = allocate(4, 1); *(p as *mut [u8; 4]) = [0; 4]; f({mk}, p, w!()); print(3); if !w!() {{ deallocate(p, 4, 1); }} }} }}"), move |r| {
            let w = is_ne(r.v[0], 0);
            r.ends_iff("ub", w & B::from(bad), &[int(1)], &[int(2), int(3)])
        });
    }
    for (n, ty, mk, q, bad) in [
        ("mutable", "&mut u8", "&mut *p", "r as *mut u8", true),
        ("pinned", "&mut Pin", "&mut *(p as *mut Pin)", "r as *mut Pin as *mut u8", false),
        ("boxed", "ManuallyDrop<Box<u8>>", "std::mem::transmute(p)", "*(&raw const r as *const *mut u8)", false),
        ("boxed pair", "ManuallyDrop<Box<u16>>", "std::mem::transmute(p)", "*(&raw const r as *const *mut u8)", false),
    ] {
        c.rust_tb(&format!("argument {n} deallocated through itself"), &[("w", "bool")], &format!("{PRE} struct Pin(u8, std::marker::PhantomPinned); use intrinsics::*; fn f(r: {ty}, w: bool) {{ unsafe {{ let q = {q}; print(1); if w {{ deallocate(q, 4, 2); }} print(2); }} }}
            fn main() {{ unsafe {{ let p = allocate(4, 2); *(p as *mut [u8; 4]) = [0; 4]; f({mk}, w!()); print(3); if !w!() {{ deallocate(p, 4, 2); }} }} }}"), move |r| {
            let w = is_ne(r.v[0], 0);
            r.ends_iff("ub", w & B::from(bad), &[int(1)], &[int(2), int(3)])
        });
    }
    c.rust_tb("argument slice deallocated", &[("n", "usize"), ("o", "usize")], "use intrinsics::*; fn f(r: &mut [u8], p: *mut u8) { unsafe { print(1); deallocate(p, 4, 1); print(2); } }
        fn main() { unsafe { let p = allocate(4, 1); *(p as *mut [u8; 4]) = [0; 4]; f(std::slice::from_raw_parts_mut(p.add(o!()), n!()), p); } }", |r| {
        let (n, o) = (r.v[0], r.v[1]);
        suppose(is_le(n + o, 4) & is_le(n, 4) & is_le(o, 4));
        r.ends_iff("ub", is_lt(0, n), &[int(1)], &[int(2)])
    });
    c.rust_tb("deallocated through", &[("k", "u8")], "use intrinsics::*; use std::cell::*;
        fn main() { unsafe { let p = allocate(2, 1); *(p as *mut [u8; 2]) = [0; 2]; let q = match k!() { 0 => p, 1 => &mut *p as *mut u8, 2 => & *p as *const u8 as *mut u8, 3 => &mut *p.add(1) as *mut u8, 4 => & *(p as *const Cell<u8>) as *const Cell<u8> as *mut u8, 5 => & *p.add(1) as *const u8 as *mut u8, _ => { let q = &mut *p as *mut u8; *p = 1; q } }; print(1); deallocate(if k!() == 3 || k!() == 5 { q.sub(1) } else { q }, 2, 1); print(2); } }", |r| {
        let k = r.v[0];
        r.ends_iff("ub", is_eq(k, 2) | is_le(5, k), &[int(1)], &[int(2)])
    });
    // Different parts of one place.
    c.rust_tb("references to elements", &[("i", "usize"), ("j", "usize"), ("k", "u8")], "fn main() { unsafe { let mut a = [1u8, 2, 3]; let p = &raw mut a as *mut u8; if i!() < 3 && j!() < 3 { let x = &mut *p.add(i!()); let y = if k!() == 0 { &mut *p.add(j!()) as *mut u8 } else { & *p.add(j!()) as *const u8 as *mut u8 };
        print(1); *x = 7; print(*y); if k!() == 0 { *y = 8; } print(*x); } } }", |r| {
        let (i, j, k) = (r.v[0], r.v[1], r.v[2]);
        if !(is_lt(i, 3) & is_lt(j, 3)).decide() {
            return r.prints(&[]);
        }
        r.ends_iff("ub", is_eq(i, j), &[int(1)], &[j + 1, int(7)]);
        let _ = k;
    });
    c.rust_tb("safe borrows", &[("x", "u8"), ("s", "bool")], "
        struct L { v: [u8; 3], n: usize } impl L { fn last(&mut self) -> Option<&mut u8> { if self.n == 0 { None } else { let i = self.n - 1; Some(&mut self.v[i]) } } fn push(&mut self, x: u8) -> &mut L { self.v[self.n] = x; self.n += 1; self } fn sum(&self) -> u8 { let mut s = 0u8; let mut i = 0; while i < self.n { s = s.wrapping_add(self.v[i]); i += 1; } s } }
        fn longer<'a>(a: &'a mut u8, b: &'a mut u8, c: bool) -> &'a mut u8 { if c { a } else { b } } fn add(a: &mut u8, b: &u8) { *a = a.wrapping_add(*b); }
        fn main() { let mut l = L { v: [0; 3], n: 0 }; print(l.last().is_none()); l.push(x!()).push(4); if let Some(p) = l.last() { *p += 1; } print(l.sum()); let n = l.n; l.push(n as u8); print(l.v[2]);
            let (mut a, mut b) = (x!(), 3); { let r = longer(&mut a, &mut b, s!()); *r = 9; let q = &mut *r; *q += 1; *r += 1; } add(&mut a, &b); print(a); print(b);
            let mut t = (x!(), x!()); let (p, q) = (&mut t.0, &mut t.1); *p = 1; *q = 2; *p += *q; print(t.0); let mut v = [1u8, 2, 3]; let (h, g) = v.split_at_mut(1); h[0] += g[1]; g[0] += h[0]; print(v[1]);
            let c = std::cell::Cell::new(x!()); let (c1, c2) = (&c, &c); c1.set(7); c2.set(c1.get() + 1); print(c.get()); let mut o = Some(x!()); if let Some(z) = &mut o { *z = 6; } print(o.take().is_some()); print(o.is_none()); for z in v.iter_mut() { *z += 1; } print(v[0]); let mut f = || { a = 4; }; f(); f(); print(a); }", |r| {
        let (x, s) = (r.v[0], is_ne(r.v[1], 0));
        let w8 = |x: Int| wrap(x, int_type("u8"));
        let (a, b) = (ite(s, int(11), x), ite(s, int(3), int(11)));
        r.prints(&[int(1), w8(x + 5), int(2), w8(a + b), b, int(3), int(6), int(8), int(1), int(1), int(5), int(4)])
    });
}

/// Closures have the cells of what they capture by value.
pub fn closures(c: &mut Cases) {
    let cl: Vec<(&str, &str, &str, u64, Vec<(i128, i128)>)> = vec![
        ("a captured cell", "", "{ let c = Cell::new(1u32); move || c.get() }", 4, vec![(0, 4)]),
        ("two captured cells", "", "{ let c = Cell::new(1u16); let d = Cell::new(2u16); move || c.get() + d.get() }", 4, vec![(0, 4)]),
        ("a captured number", "", "{ let c = 3u32; move || c }", 4, vec![]),
        ("captured numbers", "", "{ let c = 3u16; let d = [1u8, 2]; move || c + d[0] as u16 }", 4, vec![]),
        ("a cell captured by reference", "", "{ let c: &'static Cell<u32> = unsafe { std::mem::zeroed_() }; move || c.get() }", 8, vec![]),
        ("a captured struct with a cell", "#[repr(C)] #[derive(Clone)] struct S(u8, Cell<u8>, u16); impl S { fn get(&self) -> u8 { self.1.get() } }", "{ let c = S(1, Cell::new(2), 3); move || c.get() }", 4, vec![(1, 2)]),
        ("a captured array of structs with cells", "#[repr(C)] struct S(u8, Cell<u8>); fn get(s: &[S; 2]) -> u8 { s[1].1.get() }", "{ let c = [S(1, Cell::new(2)), S(3, Cell::new(4))]; move || get(&c) }", 4, vec![(1, 2), (3, 4)]),
        ("a captured closure", "", "{ let c = Cell::new(1u32); let f = move || c.get(); move || f() }", 4, vec![(0, 4)]),
        ("a captured option of a cell", "", "{ let c = Some(Cell::new(1u8)); move || c.is_some() }", 2, vec![(0, 2)]),
        ("a mutating closure", "", "{ let mut c = 3u32; move || { c += 1; c } }", 4, vec![]),
    ];
    for (n, decl, mk, size, cells) in cl {
        let mk = if mk.contains("zeroed_") { "{ static mut Z: Cell<u32> = Cell::new(0); let c: &'static Cell<u32> = unsafe { &*&raw const Z }; move || c.get() }".to_string() } else { mk.to_string() };
        for u in uses() {
            if !matches!(u.name, "written through" | "mutably read after a write" | "argument while written" | "mutable argument while written" | "read after a write") {
                continue;
            }
            let code = u.code.replace('@', "F").replace("fn f(", "fn f<F>(");
            let body = format!("{PRE} {decl} #[repr(C, align(8))] struct Buf([u8; {size} + 12]);
                fn go<F>(c: F, i: isize) {{ let mut b = Buf([0; {size} + 12]); let base = unsafe {{ (&raw mut b as *mut u8).add(8) }}; let p = base as *mut F; print(std::mem::size_of::<F>()); unsafe {{ p.write(c); }} {code} print(2); }}
                fn main() {{ let i = i!() as isize; go({mk}, i); }}");
            let (cells, ub) = (cells.clone(), u.ub);
            let reads = u.code.matches("print(").count() > 1;
            c.rust_tb(&format!("{n} {}", u.name), &[("i", "i8")], &body, move |r| {
                let i = r.v[0];
                suppose(is_le(-3, i) & is_lt(i, Int::from(size + 3)));
                let inside = is_le(0, i) & is_lt(i, Int::from(size));
                let cell = any(cells.iter().map(|(a, b)| is_le(*a, i) & is_lt(i, *b)));
                let bad = ub(cell, inside, cells.is_empty(), true);
                if r.end.is_ub() {
                    check_msg(bad, "UB only if specified", &r.end.text());
                    reach("ub");
                    return r.ends("ub", &[Int::from(size), int(1)]);
                }
                check(!bad, "UB if specified");
                reach("exit");
                let mut out = vec![Int::from(size), int(1)];
                if reads {
                    out.push(r.val(2));
                }
                out.push(int(2));
                r.ends("exit", &out)
            });
        }
    }
    c.rust_tb("calling closures with cells", &[("x", "u8"), ("s", "bool")], "
        use std::cell::Cell; fn call<F: Fn() -> u8>(f: &F) -> u8 { f() } fn dynamic(f: &dyn Fn() -> u8) -> u8 { f() } fn twice(mut f: impl FnMut() -> u8) -> u8 { f(); f() }
        fn main() { let c = Cell::new(x!()); let f = move || { c.set(c.get().wrapping_add(1)); c.get() }; print(call(&f)); print(if s!() { call(&f) } else { dynamic(&f) }); print(dynamic(&f)); print(twice(&f)); let mut n = x!(); let mut g = || { n = n.wrapping_mul(3); n }; print(twice(&mut g)); print(twice(f)); print(n); }", |r| {
        let x = r.v[0];
        let w = |x: Int| wrap(x, int_type("u8"));
        r.prints(&[w(x + 1), w(x + 2), w(x + 3), w(x + 5), w(x * int(9)), w(x + 7), w(x * int(9))])
    });
}
