//! The memory interface: histories of operations against a plain reference, and the same at the
//! level of programs.

use crate::build::*;
use crate::kit::*;
use crate::*;

/// A byte as the reference sees it.
#[derive(Clone, Copy, Debug)]
enum RefByte {
    Uninit,
    Data(Int),
    /// data, allocation, position
    Prov(Int, usize, usize),
}
struct RefAlloc<P: Obj> {
    ptr: ThinPointer<P>,
    kind: AllocationKind,
    align: u64,
    live: bool,
    data: Vec<RefByte>,
}
pub struct World<M: Memory> {
    mem: M,
    allocs: Vec<RefAlloc<M::Provenance>>,
    fresh: usize,
}
fn res<T>(r: Result<T, TerminationInfo>) -> Result<T, End> {
    r.map_err(end_of)
}
/// Runs one operation of the code under test.
fn op<T>(what: &str, f: impl FnOnce() -> Result<T, TerminationInfo>) -> Result<T, ()> {
    match catch(f) {
        Ok(Ok(x)) => {
            note(what, "ok");
            Ok(x)
        }
        Ok(Err(TerminationInfo::Ub(_))) => {
            note(what, "ub");
            Err(())
        }
        Ok(Err(t)) => fail("memory operations end with UB or succeed", &end_of(t).text()),
        Err(p) => {
            panicked(&p);
            fail("memory operations never panic", &p)
        }
    }
}
/// Success exactly unless `ub`.
fn ok_iff_not<T>(what: &str, ub: B, r: Result<T, ()>) -> Option<T> {
    match r {
        Ok(x) => {
            check(!ub, &format!("{what}: no UB missed"));
            reach(&format!("{what} ok"));
            Some(x)
        }
        Err(()) => {
            check(ub, &format!("{what}: UB only if specified"));
            reach(&format!("{what} ub"));
            None
        }
    }
}

const KINDS: [AllocationKind; 5] = [
    AllocationKind::Heap,
    AllocationKind::Stack,
    AllocationKind::Global,
    AllocationKind::Function,
    AllocationKind::VTable,
];

impl<M: Memory> World<M>
{
    pub fn new() -> Self {
        World { mem: M::new(), allocs: vec![], fresh: 0 }
    }
    fn name(&mut self, s: &str) -> String {
        self.fresh += 1;
        format!("{s}{}", self.fresh)
    }
    /// Allocates, and checks what is specified about it.
    pub fn allocate(&mut self, kind: AllocationKind, n: u64, al: u64) -> usize {
        let mem = &mut self.mem;
        let r = op("allocate", || mem.allocate(kind, size(n), align(al)).get_internal());
        let Ok(ptr) = r else { fail("small allocations succeed", "UB") };
        let a = ptr.addr;
        check(is_lt(0, a), "allocations are not at null");
        check(is_lt(a + Int::from(n), pow2(M::T::PTR_SIZE.bits())), "allocations are inside the address space");
        check(is_eq(a.rem_euclid_(Int::from(al)), 0), "allocations are aligned");
        for o in &self.allocs {
            if o.live {
                let b = o.ptr.addr;
                let m = Int::from(o.data.len());
                check(is_ne(a, b), "live allocations have different addresses");
                check(is_le(a + Int::from(n), b) | is_le(b + m, a) | B::from(n == 0 || o.data.is_empty()), "live allocations are disjoint");
            } else {
                reach("possibly reused");
            }
        }
        let data = vec![RefByte::Uninit; n as usize];
        self.allocs.push(RefAlloc { ptr, kind, align: al, live: true, data });
        self.allocs.len() - 1
    }
    /// A pointer to allocation `i`, `off` bytes from its start; or without provenance.
    fn ptr(&self, i: Option<usize>, off: Int, base: usize) -> ThinPointer<M::Provenance> {
        let b = &self.allocs[base].ptr;
        ThinPointer {
            addr: b.addr + off,
            provenance: match i {
                Some(i) => self.allocs[i].ptr.provenance,
                None => None,
            },
        }
    }
    /// Is an access through `ptr` with the provenance of `i` UB?
    fn access_ub(&self, i: Option<usize>, p: ThinPointer<M::Provenance>, len: u64, al: u64) -> B {
        let mis = is_ne(p.addr.rem_euclid_(Int::from(al)), 0);
        mis | self.not_deref(i, p, Int::from(len))
    }
    fn not_deref(&self, i: Option<usize>, p: ThinPointer<M::Provenance>, len: Int) -> B {
        let z = is_eq(len, 0);
        let Some(i) = i else { return !z };
        let a = &self.allocs[i];
        if !a.live {
            return !z;
        }
        let off = p.addr - a.ptr.addr;
        !z & (is_lt(off, 0) | is_lt(Int::from(a.data.len()), off + len))
    }
    fn abs(&self, b: RefByte) -> AbstractByte<M::Provenance> {
        match b {
            RefByte::Uninit => AbstractByte::Uninit,
            RefByte::Data(i) => AbstractByte::Init(byte(i), None),
            RefByte::Prov(i, a, p) => AbstractByte::Init(
                byte(i),
                Some(ProvenanceFrag {
                    provenance: self.allocs[a].ptr.provenance.unwrap(),
                    position: Int::from(p),
                }),
            ),
        }
    }
    fn same(&self, got: AbstractByte<M::Provenance>, want: RefByte) {
        let (what, ok) = match (got, self.abs(want)) {
            (AbstractByte::Uninit, AbstractByte::Uninit) => ("uninitialized", B::from(true)),
            (AbstractByte::Init(a, p), AbstractByte::Init(b, q)) => {
                check(p == q, "loads return the provenance last stored");
                ("data", is_eq(a.to_int(), b.to_int()))
            }
            _ => ("initialization", B::from(false)),
        };
        check_msg(ok, "loads return what was last stored", what);
    }
    fn off_in(&self, i: usize, p: ThinPointer<M::Provenance>) -> usize {
        let off = p.addr - self.allocs[i].ptr.addr;
        let n = self.allocs[i].data.len();
        for k in 0..=n {
            if is_eq(off, k).decide() {
                return k;
            }
        }
        fail("accesses are inside of the allocation", "")
    }
    fn store(&mut self, i: Option<usize>, p: ThinPointer<M::Provenance>, v: Vec<RefByte>, al: u64) -> bool {
        let ub = self.access_ub(i, p, v.len() as u64, al);
        let l: List<AbstractByte<M::Provenance>> = v.iter().map(|b| self.abs(*b)).collect();
        let mem = &mut self.mem;
        let r = op("store", || mem.store(p, l, align(al)));
        if ok_iff_not("store", ub, r).is_none() {
            return false;
        }
        if !v.is_empty() {
            let i = i.unwrap();
            let o = self.off_in(i, p);
            for (k, b) in v.into_iter().enumerate() {
                self.allocs[i].data[o + k] = b;
            }
        }
        true
    }
    fn load(&mut self, i: Option<usize>, p: ThinPointer<M::Provenance>, n: u64, al: u64) -> bool {
        let ub = self.access_ub(i, p, n, al);
        let mem = &mut self.mem;
        let r = op("load", || mem.load(p, size(n), align(al)));
        let Some(l) = ok_iff_not("load", ub, r) else { return false };
        check(is_eq(l.len(), n), "loads return as many bytes as asked for");
        if n > 0 {
            let i = i.unwrap();
            let o = self.off_in(i, p);
            for k in 0..n as usize {
                self.same(l.get(Int::from(k)).unwrap(), self.allocs[i].data[o + k]);
            }
        }
        true
    }
    fn dealloc(&mut self, i: Option<usize>, p: ThinPointer<M::Provenance>, kind: AllocationKind, n: Int, al: u64) -> bool {
        let ub = match i {
            None => B::from(true),
            Some(i) => {
                let a = &self.allocs[i];
                B::from(!a.live || a.kind != kind || a.align != al)
                    | is_ne(p.addr, a.ptr.addr)
                    | is_ne(n, a.data.len())
            }
        };
        let mem = &mut self.mem;
        let n = Size::from_bytes(n).unwrap();
        let r = op("deallocate", || mem.deallocate(p, kind, n, align(al)));
        if ok_iff_not("deallocate", ub, r).is_none() {
            return false;
        }
        self.allocs[i.unwrap()].live = false;
        true
    }
    fn deref_check(&mut self, i: Option<usize>, p: ThinPointer<M::Provenance>, n: Int) {
        let ub = self.not_deref(i, p, n);
        let mem = &self.mem;
        let r = op("dereferenceable", || mem.dereferenceable(p, Size::from_bytes(n).unwrap()));
        ok_iff_not("dereferenceable", ub, r);
    }
    /// What all live allocations hold is what it should be; dead ones are not accessible.
    fn finish(&mut self) {
        for i in 0..self.allocs.len() {
            let n = self.allocs[i].data.len() as u64;
            let p = self.allocs[i].ptr;
            self.load(Some(i), p, n, 1);
        }
        let leak = self.allocs.iter().any(|a| a.live && a.kind == AllocationKind::Heap);
        let mem = &self.mem;
        match catch(|| mem.leak_check()) {
            Ok(Ok(())) => check(!leak, "no leak missed"),
            Ok(Err(TerminationInfo::MemoryLeak)) => check(leak, "leak only if there is one"),
            Ok(Err(t)) => fail("leak check", &end_of(t).text()),
            Err(p) => fail("memory operations never panic", &p),
        }
    }
    /// A pointer: which allocation's provenance, which allocation's address, and offset.
    fn any_ptr(&mut self, exact: bool) -> (Option<usize>, ThinPointer<M::Provenance>) {
        let n = self.allocs.len();
        let nm = self.name("prov");
        let i = choose(&nm, n + 1);
        let i = if i == n { None } else { Some(i) };
        let nm = self.name("addr");
        // pointers start at their own allocation: an offset leads to every other
        let base = i.unwrap_or_else(|| choose(&nm, n));
        if exact {
            let nm = self.name("shifted");
            let off = if choose(&nm, 2) == 0 { Int::ZERO } else { self.any_off() };
            return (i, self.ptr(i, off, base));
        }
        let off = self.any_off();
        let p = self.ptr(i, off, base);
        suppose(is_le(0, p.addr) & is_lt(p.addr, pow2(M::T::PTR_SIZE.bits())));
        (i, p)
    }
    fn any_off(&mut self) -> Int {
        let nm = self.name("off");
        let lim = pow2(M::T::PTR_SIZE.bits());
        sym(&nm, -lim, lim)
    }
    fn any_byte(&mut self, k: usize) -> RefByte {
        let nm = self.name("byte");
        let x = sym(&nm, 0, 255);
        match k % 3 {
            0 => RefByte::Data(x),
            1 => RefByte::Uninit,
            _ => RefByte::Prov(x, 0, k),
        }
    }
    /// One arbitrary operation. False if it had UB (and the history is over).
    fn step(&mut self, ops: &[Op], lens: &[u64], aligns: &[u64]) -> bool {
        let nm = self.name("op");
        match ops[choose(&nm, ops.len())] {
            Op::Store => {
                let (i, p) = self.any_ptr(false);
                let nm = self.name("len");
                let n = lens[choose(&nm, lens.len())];
                let nm = self.name("align");
                let al = aligns[choose(&nm, aligns.len())];
                let r = self.fresh;
                let v = (0..n as usize).map(|k| self.any_byte(k + r)).collect();
                self.store(i, p, v, al)
            }
            Op::Load => {
                let (i, p) = self.any_ptr(false);
                let nm = self.name("len");
                let n = lens[choose(&nm, lens.len())];
                let nm = self.name("align");
                let al = aligns[choose(&nm, aligns.len())];
                self.load(i, p, n, al)
            }
            Op::Deref => {
                let (i, p) = self.any_ptr(false);
                let nm = self.name("len");
                let n = sym(&nm, 0, pow2(M::T::PTR_SIZE.bits()));
                self.deref_check(i, p, n);
                true
            }
            Op::Alloc => {
                let nm = self.name("size");
                let n = lens[choose(&nm, lens.len())];
                let nm = self.name("align");
                let al = aligns[choose(&nm, aligns.len())];
                let nm = self.name("kind");
                let k = KINDS[choose(&nm, 2)];
                self.allocate(k, n, al);
                true
            }
            Op::Dealloc => {
                let (i, p) = self.any_ptr(true);
                let nm = self.name("size");
                let n = sym(&nm, 0, pow2(M::T::PTR_SIZE.bits()));
                let nm = self.name("align");
                let al = aligns[choose(&nm, aligns.len())];
                let nm = self.name("kind");
                let k = KINDS[choose(&nm, 2)];
                self.dealloc(i, p, k, n, al)
            }
            // The right way
            Op::Free => {
                let nm = self.name("which");
                let i = choose(&nm, self.allocs.len());
                let a = &self.allocs[i];
                let (p, k, n, al) = (a.ptr, a.kind, Int::from(a.data.len()), a.align);
                self.dealloc(Some(i), p, k, n, al)
            }
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Store,
    Load,
    Deref,
    Alloc,
    Dealloc,
    Free,
}

/// Every history of up to `n` operations on the given allocations (size, alignment, kind).
fn history<M: Memory>(init: &[(u64, u64, usize)], n: usize, ops: &[Op], lens: &[u64], aligns: &[u64]) {
    let mut w = World::<M>::new();
    for (s, a, k) in init {
        w.allocate(KINDS[*k], *s, *a);
    }
    for _ in 0..n {
        if !w.step(ops, lens, aligns) {
            return;
        }
    }
    w.finish();
}

/// Deallocation with every kind, size and alignment.
fn dealloc_case<M: Memory>(kind: usize, al: u64) {
    let mut w = World::<M>::new();
    w.allocate(KINDS[kind], 3, al);
    let k = choose("kind", 5);
    let a = 1u64 << choose("align", 6);
    let n = sym("size", 0, pow2(M::T::PTR_SIZE.bits()));
    let off = sym("off", -1000, 1000);
    let p = w.ptr(Some(0), off, 0);
    if w.dealloc(Some(0), p, KINDS[k], n, a) {
        reach("freed");
        w.finish();
        let q = w.allocs[0].ptr;
        w.dealloc(Some(0), q, KINDS[k], n, a);
    }
}

/// Requests of any size: too big ones are UB.
fn big_case<M: Memory>(al: u64) {
    let n = sym("size", 0, pow2(M::T::PTR_SIZE.bits() + 1));
    let max = pow2(M::T::PTR_SIZE.bits() - 1) - 1;
    suppose(is_le(n, 3) | is_lt(max, n));
    let mut m = M::new();
    let r = op("allocate", || m.allocate(AllocationKind::Heap, Size::from_bytes(n).unwrap(), align(al)).get_internal());
    ok_iff_not("allocate", is_lt(max, n), r);
}

// Programs

/// An access at any offset of a local, heap or global allocation of `n` bytes.
fn access_case(place: usize, n: u64, al: u64, t: Type, write: bool) {
    let off = sym_of("off", isz());
    let nbytes = t.layout::<x86_64>().expect_size("").bytes();
    let tal = t.layout::<x86_64>().expect_align("").bytes();
    let is_int = matches!(t, Type::Int(_));
    let mut p = ProgramBuilder::new();
    let g = if place == 2 {
        Some(p.declare_global_zero_initialized::<[u128; 2]>())
    } else {
        None
    };
    let n = if place == 2 { 32 } else { n };
    let main = main_fn(&mut p, |f| {
        let b = live(f, raw());
        match place {
            0 => {
                let l = live(f, blob(n, al));
                f.assign(b, addr(l));
            }
            1 => f.allocate(usize_c(n), usize_c(al), b),
            _ => f.assign(b, addr(g.unwrap())),
        }
        // every byte is initialized
        let src = live(f, blob(48, 16));
        for i in 0..3 {
            let v = (0..16).fold(Int::ZERO, |a, k| a + Int::from(i * 16 + k) * pow2(Int::from(8 * k)));
            f.assign(at(addr(src), i * 16, ty_of(ity(Unsigned, 16))), cint(v, ity(Unsigned, 16)));
        }
        copy(f, load(b), 0, addr(src), 0, n);
        let q = live(f, raw());
        f.assign(q, ptr_offset(load(b), isize_c(off), InBounds::No));
        f.print(ptr_addr(load(b)));
        f.print(ptr_addr(load(q)));
        let d = deref(load(q), t);
        if write {
            let v = if let Type::Int(it) = t { cint(imax(it), it) } else { load(at(addr(src), 0, t)) };
            f.assign(d, v);
        } else {
            let l = live(f, t);
            f.assign(l, load(d));
            if is_int {
                f.print(load(l));
            }
        }
        if place == 1 {
            f.deallocate(load(b), usize_c(n), usize_c(al));
        }
    });
    let r = run(p.finish_program(main));
    let (base, a) = (r.int(0), r.int(1));
    check(is_eq(a, (base + off).rem_euclid_(pow2(Int::from(64)))), "the address");
    let o = a - base;
    let ub = is_ne(a.rem_euclid_(tal), 0)
        | (B::from(nbytes != Int::ZERO) & (is_lt(o, 0) | is_lt(Int::from(n), o + nbytes)));
    if r.ub_iff(ub, "access") && !write && is_int {
        // little endian, bytes o, o+1, ..
        let mut want = Int::ZERO;
        for k in 0..nbytes.try_to_usize().unwrap() {
            want = want + (o + Int::from(k)) * pow2(Int::from(8 * k));
        }
        check(is_eq(r.int(2), want), "the bytes at that address");
    }
}

/// Storing does not change other bytes, whichever they are.
fn frame_case(heap: bool) {
    let off = sym("off", 0, 6);
    let v = sym_of("v", ity(Unsigned, 2));
    let w = sym_of("w", ity(Unsigned, 1));
    let r = run(prog1(|f| {
        let b = live(f, raw());
        let other = live(f, blob(8, 8));
        if heap {
            f.allocate(usize_c(8), usize_c(8), b);
        } else {
            let l = live(f, blob(8, 8));
            f.assign(b, addr(l));
        }
        for i in 0..8 {
            poke(f, load(b), i, Int::from(i));
            poke(f, addr(other), i, w);
        }
        let t = array_ty(u8t(), 2);
        let x = live(f, blob(2, 2));
        f.assign(at(addr(x), 0, ty_of(ity(Unsigned, 2))), cint(v, ity(Unsigned, 2)));
        f.assign(at(load(b), off, t), load(at(addr(x), 0, t)));
        for i in 0..8 {
            peek(f, load(b), i);
        }
        for i in 0..8 {
            peek(f, addr(other), i);
        }
        if heap {
            f.deallocate(load(b), usize_c(8), usize_c(8));
        }
    }));
    r.must_exit("stores in bounds");
    for i in 0..8 {
        let want = ite(is_eq(off, i), byte_of(v, 0), ite(is_eq(off + 1, i), byte_of(v, 1), i));
        check(is_eq(r.int(i as usize), want), "the bytes of one allocation");
        check(is_eq(r.int(i as usize + 8), w), "the bytes of the other allocation");
    }
}

/// Storage of a local that is not live (any more).
fn storage_case(which: usize) {
    let r = run(prog1(|f| {
        let l = f.declare_local_with_ty(u8t());
        let p = live(f, raw());
        if which > 0 {
            f.storage_live(l);
            f.assign(l, cint(Int::from(1), ity(Unsigned, 1)));
            f.assign(p, addr(l));
            f.print(ptr_addr(load(p)));
        }
        match which {
            // never live
            0 => f.print(load(l)),
            // the pointer dangles
            1 => {
                f.storage_dead(l);
                f.print(load(deref(load(p), u8t())));
            }
            // also after it is live again, whatever its address
            2 => {
                f.storage_dead(l);
                f.storage_live(l);
                f.assign(l, cint(Int::from(2), ity(Unsigned, 1)));
                f.print(ptr_addr(addr(l)));
                f.print(load(deref(load(p), u8t())));
            }
            // the new storage is uninitialized
            3 => {
                f.storage_dead(l);
                f.storage_live(l);
                f.print(load(l));
            }
            // live on live: the same
            4 => {
                f.storage_live(l);
                f.print(load(l));
            }
            // dead
            5 => {
                f.storage_dead(l);
                f.print(load(l));
            }
            // a write, too
            6 => {
                f.storage_dead(l);
                f.assign(deref(load(p), u8t()), cint(Int::from(2), ity(Unsigned, 1)));
            }
            7 => {
                f.storage_dead(l);
                f.storage_dead(l);
                f.storage_live(l);
                f.assign(l, cint(Int::from(3), ity(Unsigned, 1)));
                f.print(load(l));
            }
            _ => panic!(),
        }
    }));
    if which == 2 {
        reach(if is_eq(r.int(0), r.int(1)).decide() { "same address" } else { "other address" });
    }
    if which == 7 {
        r.must_exit("storage statements");
        check(is_eq(r.int(1), 3), "live again");
    } else {
        r.must_ub("access to storage that is not live or not initialized");
    }
}

/// Heap intrinsics with any arguments.
fn heap_alloc_case(signed: bool) {
    let t = if signed { isz() } else { usz() };
    let n = sym_of("size", t);
    let al = sym_of("align", t);
    let max = pow2(Int::from(63)) - 1;
    suppose(is_le(n, 3) | is_lt(max, n));
    let r = run(prog1(|f| {
        let p = live(f, raw());
        f.allocate(cint(n, t), cint(al, t), p);
        f.print(ptr_addr(load(p)));
        f.deallocate(load(p), cint(n, t), cint(al, t));
    }));
    let mut pow = B::from(false);
    for i in 0..64 {
        pow = pow | is_eq(al, pow2(Int::from(i)));
    }
    let ub = is_lt(n, 0) | is_lt(max, n) | !pow;
    if r.ub_iff(ub, "allocate") {
        check(is_lt(0, r.int(0)), "not null");
        for i in 0..64 {
            if is_eq(al, pow2(Int::from(i))).decide() {
                check(is_eq(r.int(0).rem_euclid_(pow2(Int::from(i))), 0), "aligned as asked for");
            }
        }
    }
}
fn heap_free_case(what: usize) {
    let n = sym_of("size", isz());
    let al = sym_of("align", isz());
    let off = sym_of("off", isz());
    let t = isz();
    let r = run(prog1(|f| {
        let p = live(f, raw());
        let l = live(f, blob(4, 4));
        f.allocate(usize_c(4), usize_c(4), p);
        let q = match what {
            0 => {
                suppose(is_eq(off, 0));
                load(p)
            }
            1 => ptr_offset(load(p), isize_c(off), InBounds::No),
            // stack memory
            2 => addr(l),
            3 => transmute(ptr_addr(load(p)), raw()),
            _ => panic!(),
        };
        if what != 0 {
            suppose(is_eq(n, 4) & is_eq(al, 4));
        }
        f.deallocate(q, cint(n, t), cint(al, t));
    }));
    match what {
        0 => {
            r.ub_iff(is_ne(n, 4) | is_ne(al, 4), "deallocate");
        }
        1 => {
            r.ub_iff(is_ne(off, 0), "deallocate");
        }
        _ => r.must_ub("deallocating what is not a heap allocation"),
    }
}
/// Use after free, whatever is allocated in the meantime.
fn use_after_free_case(what: usize) {
    let r = run(prog1(|f| {
        let (p, q) = (live(f, raw()), live(f, raw()));
        f.allocate(usize_c(4), usize_c(4), p);
        f.print(ptr_addr(load(p)));
        f.deallocate(load(p), usize_c(4), usize_c(4));
        f.allocate(usize_c(4), usize_c(4), q);
        f.print(ptr_addr(load(q)));
        poke(f, load(q), 0, Int::from(1));
        match what {
            0 => peek(f, load(p), 0),
            1 => poke(f, load(p), 0, Int::ONE),
            2 => f.deallocate(load(p), usize_c(4), usize_c(4)),
            // in the new one
            3 => peek(f, load(q), 1),
            _ => peek(f, load(q), 0),
        }
        f.deallocate(load(q), usize_c(4), usize_c(4));
    }));
    reach(if is_eq(r.int(0), r.int(1)).decide() { "same address" } else { "other address" });
    if what == 4 {
        r.must_exit("use of the new allocation");
    } else {
        r.must_ub("use after free");
    }
}
/// Some of three allocations are freed.
fn leak_case(by_return: bool) {
    let free: Vec<bool> = (0..3).map(|i| sym_bool(&format!("free{i}")).decide()).collect();
    let mut p = ProgramBuilder::new();
    let mut b = p.declare_function();
    {
        let f = &mut b;
        let _other = live(f, blob(4, 4));
        let ps: Vec<PlaceExpr> = (0..3).map(|_| live(f, raw())).collect();
        for (i, q) in ps.iter().enumerate() {
            f.allocate(usize_c(i as u64), usize_c(1), *q);
        }
        for i in [1, 0, 2] {
            if free[i] {
                f.deallocate(load(ps[i]), usize_c(i as u64), usize_c(1));
            }
        }
        if by_return {
            f.return_();
        } else {
            f.exit();
        }
    }
    let main = p.finish_function(b);
    let r = run(p.finish_program(main));
    r.must_be(if free.iter().all(|x| *x) { "exit" } else { "leak" }, "leaks are reported exactly if there are any");
}

fn access_types() -> Vec<(&'static str, Type)> {
    let i = |b| ty_of(ity(Unsigned, b));
    vec![
        ("u8", i(1)),
        ("u16", i(2)),
        ("u32", i(4)),
        ("u64", i(8)),
        ("u128", i(16)),
        ("[u8; 3]", array_ty(u8t(), 3)),
        ("[u16; 0]", array_ty(i(2), 0)),
        ("(u8, pad)", tuple_ty(&[(size(0), u8t())], size(4), align(2))),
        ("union", blob(5, 1)),
        ("()", tuple_ty(&[], size(0), align(1))),
    ]
}

type BasicBe32 = BasicMemory<Be32>;
type BasicLe16 = BasicMemory<Le16>;

pub fn access(c: &mut Cases) {
    use Op::*;
    let deep = c.thorough;
    fn add<M: Memory>(c: &mut Cases, n: &str, deep: bool)
    {
        c.add(format!("{n}: store, load"), || {
            let mut w = World::<M>::new();
            w.allocate(KINDS[0], 4, 4);
            w.allocate(KINDS[1], 2, 1);
            if w.step(&[Op::Store], &[0, 2, 3], &[1, 8]) && w.step(&[Op::Load], &[0, 4], &[1, 2]) {
                w.finish();
            }
        })
        .expect(&["store ok", "store ub", "load ok", "load ub"]);
        c.add(format!("{n}: store, store"), || {
            history::<M>(&[(4, 4, 0), (2, 1, 1)], 2, &[Op::Store], &[1, 2], &[1])
        });
        c.add(format!("{n}: dereferenceable"), || {
            let mut w = World::<M>::new();
            w.allocate(KINDS[0], 5, 4);
            w.allocate(KINDS[1], 0, 1);
            w.step(&[Op::Deref], &[], &[]);
        })
        .expect(&["dereferenceable ok", "dereferenceable ub"]);
        c.add(format!("{n}: free, access"), || {
            let mut w = World::<M>::new();
            w.allocate(KINDS[0], 2, 1);
            w.allocate(KINDS[1], 2, 1);
            if w.step(&[Op::Free], &[], &[]) {
                w.allocate(KINDS[0], 2, 1);
                if w.step(&[Op::Store, Op::Load, Op::Deref], &[0, 1], &[1]) {
                    w.finish();
                }
            }
        })
        .expect(&["possibly reused", "load ok", "load ub"]);
        c.add(format!("{n}: dead or zero-sized"), || {
            let mut w = World::<M>::new();
            w.allocate(KINDS[0], 0, 1);
            w.allocate(KINDS[1], 1, 1);
            if w.step(&[Op::Store], &[0, 1], &[1, 4]) && w.step(&[Op::Free], &[], &[]) && w.step(&[Op::Load], &[0, 1], &[1, 2]) {
                w.finish();
            }
        });
        if deep {
            c.add(format!("{n}: any three operations"), || {
                history::<M>(&[(3, 2, 0), (2, 1, 1)], 3, &[Op::Store, Op::Load, Op::Free], &[0, 1, 2], &[1, 2])
            });
            c.add(format!("{n}: three stores"), || history::<M>(&[(4, 4, 0), (4, 1, 1)], 3, &[Op::Store], &[1, 3], &[1]));
        }
    }
    add::<BasicMem>(c, "basic", deep);
    add::<TreeBorrowMem>(c, "tree borrows", deep);
    add::<BasicBe32>(c, "32 bit", deep);
    add::<BasicLe16>(c, "16 bit", deep);
    for (k, (n, _)) in access_types().into_iter().enumerate() {
        for write in [false, true] {
            for (place, pn) in [(0, "stack"), (1, "heap"), (2, "global")] {
                for al in [1, 4, 16] {
                    if !c.thorough && !(al == 16 || (al == 1 && place == 0)) {
                        continue;
                    }
                    if place == 2 && al != 16 {
                        continue;
                    }
                    let w = if write { "write" } else { "read" };
                    c.add(format!("{w} {n} {pn} {al}"), move || access_case(place, if al == 16 { 32 } else { 16 + al }, al, access_types()[k].1, write));
                }
            }
        }
    }
    c.add("other bytes, stack", || frame_case(false));
    c.add("other bytes, heap", || frame_case(true));
    for w in 0..8 {
        let k = c.add(format!("storage {w}"), move || storage_case(w));
        if w == 2 {
            k.expect(&["same address", "other address"]);
        }
    }
    let _ = (Alloc, Dealloc);
}

pub fn alloc(c: &mut Cases) {
    fn add<M: Memory>(c: &mut Cases, n: &str, deep: bool)
    {
        c.add(format!("{n}: three allocations"), || {
            history::<M>(&[], 3, &[Op::Alloc], &[0, 1, 3], &[1, 16])
        });
        c.add(format!("{n}: allocate, free, allocate"), || {
            let mut w = World::<M>::new();
            w.step(&[Op::Alloc], &[0, 2], &[1, 8]);
            w.allocate(KINDS[1], 4, 2);
            if w.step(&[Op::Free], &[], &[]) {
                w.step(&[Op::Alloc], &[0, 3], &[1, 4]);
                w.finish();
            }
        })
        .expect(&["possibly reused"]);
        for k in 0..5 {
            c.add(format!("{n}: deallocate kind {k}"), move || dealloc_case::<M>(k, 4)).expect(&["freed"]);
        }
        c.add(format!("{n}: deallocate among two"), || {
            let mut w = World::<M>::new();
            w.allocate(KINDS[0], 2, 2);
            w.allocate(KINDS[1], 4, 2);
            if w.step(&[Op::Dealloc], &[], &[1, 2]) {
                w.finish();
            }
        });
        c.add(format!("{n}: deallocate twice"), || {
            let mut w = World::<M>::new();
            w.allocate(KINDS[0], 2, 2);
            w.allocate(KINDS[0], 2, 2);
            if w.step(&[Op::Free], &[], &[]) {
                w.allocate(KINDS[0], 2, 2);
                if w.step(&[Op::Dealloc, Op::Free], &[], &[2]) {
                    w.finish();
                }
            }
        });
        for al in [1, 64] {
            c.add(format!("{n}: any size, alignment {al}"), move || big_case::<M>(al)).expect(&["allocate ok", "allocate ub"]);
        }
        if deep {
            c.add(format!("{n}: four operations"), || {
                history::<M>(&[(1, 1, 0)], 4, &[Op::Alloc, Op::Free], &[0, 2], &[1, 4])
            });
            c.add(format!("{n}: five allocations"), || history::<M>(&[], 5, &[Op::Alloc], &[0, 2], &[1, 4]));
            c.add(format!("{n}: deallocate, deallocate"), || {
                history::<M>(&[(2, 2, 0), (2, 1, 1), (0, 1, 0)], 2, &[Op::Dealloc], &[], &[1, 2])
            });
        }
    }
    let deep = c.thorough;
    add::<BasicMem>(c, "basic", deep);
    add::<TreeBorrowMem>(c, "tree borrows", deep);
    add::<BasicBe32>(c, "32 bit", deep);
    add::<BasicLe16>(c, "16 bit", deep);
    c.add("allocate usize", || heap_alloc_case(false)).expect(&["ub", "exit"]);
    c.add("allocate isize", || heap_alloc_case(true)).expect(&["ub", "exit"]);
    for w in 0..4 {
        c.add(format!("deallocate {w}"), move || heap_free_case(w));
    }
    for w in 0..5 {
        c.add(format!("use after free {w}"), move || use_after_free_case(w)).expect(&["same address", "other address"]);
    }
    c.add("leaks, exit", || leak_case(false));
}
