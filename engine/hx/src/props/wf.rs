//! Which programs are rejected, and that accepted ones do not crash the interpreter (C18).

use crate::build::*;
use crate::kit::*;
use crate::*;

fn ut(b: u64) -> Type {
    ty_of(ity(Unsigned, b))
}
fn t() -> B {
    B::from(true)
}
fn power_of_two(x: Int, up_to: u64) -> B {
    any((0..=up_to).map(|i| is_eq(x, pow2(Int::from(i)))))
}
fn local_name(n: u64) -> LocalName {
    LocalName(Name::from_internal(n as u32))
}
fn block_name(n: u64) -> BbName {
    BbName(Name::from_internal(n as u32))
}
fn fn_name(n: u64) -> FnName {
    FnName(Name::from_internal(n as u32))
}
fn trait_name(n: u64) -> TraitName {
    TraitName(Name::from_internal(n as u32))
}
fn method_name(n: u64) -> TraitMethodName {
    TraitMethodName(Name::from_internal(n as u32))
}
fn one(x: u64) -> ValueExpr {
    cint(Int::from(x), ity(Unsigned, 4))
}
fn pick(name: &str, n: usize) -> u64 {
    choose(name, n) as u64
}

/// It is rejected before its first step if `ok` does not hold, and otherwise accepted; it never crashes the interpreter.
fn judge(p: Program, ok: impl Into<B>) {
    judge_but(p, ok, "", false)
}
/// The same, but there is a known defect `id` for inputs with `known`.
fn judge_but(p: Program, ok: impl Into<B>, id: &str, known: impl Into<B>) {
    let (ok, known) = (ok.into(), known.into());
    let r = run(p);
    match &r.end {
        End::IllFormed(s) => {
            reach("rejected");
            check_msg(!ok, "rejected only if a rule is broken", s);
            check(r.out.is_empty(), "rejected before the first step");
        }
        End::Panic(s) => {
            check_msg(known, "the interpreter does not panic", s);
            fail(&format!("known {id}"), s)
        }
        e => {
            reach("accepted");
            check_msg(ok | known, "a program that breaks a rule is rejected", &e.text());
            check_known(ok, id, "a program that breaks a rule is rejected");
        }
    }
}
const BOTH: &[&str] = &["rejected", "accepted"];

/// A program whose start function consists of these; the return local comes after the others.
fn raw_main(locals: &[Type], blocks: &[BasicBlock]) -> Function {
    function(Ret::No, 0, locals, blocks)
}
fn with_local(ty: Type) -> Program {
    program(&[raw_main(&[ty], &[block!(storage_live(0), print(one(1), 1)), block!(exit())])])
}
/// The type is that of a place that is only looked at.
fn with_place(ty: Type) -> Program {
    with_stmts(&[], &[place_mention(deref(null(), ty))])
}
/// The statements, after the locals have become live, and a print before.
fn with_stmts(locals: &[Type], stmts: &[Statement]) -> Program {
    let mut s: Vec<Statement> = (0..locals.len()).map(|i| storage_live(i as u32)).collect();
    s.extend(stmts);
    program(&[raw_main(locals, &[block(&[], print(one(1), 1), BbKind::Regular), block(&s, exit(), BbKind::Regular)])])
}

pub fn cases(c: &mut Cases) {
    types(c);
    constants(c);
    valid_pointers(c);
    expressions(c);
    operators(c);
    places(c);
    statements(c);
    terminators(c);
    functions(c);
    programs(c);
}

// Types

fn types(c: &mut Cases) {
    c.add("type: size of integers", || {
        let n = sym("n", 0, 40);
        let ty = Type::Int(IntType { signed: if choose("signed", 2) == 1 { Signed } else { Unsigned }, size: size(n) });
        let ok = power_of_two(n, 5);
        if choose("local", 2) == 1 {
            judge_but(with_local(ty), ok, "F13", !ok)
        } else {
            judge(with_place(ty), ok)
        }
    }).expect(BOTH);
    c.add("type: number of elements", || {
        let n = sym_of("n", ity(Signed, 16));
        let w = 1u64 << pick("w", 4);
        judge(with_place(array_ty(ut(w), n)), is_le(0, n) & is_lt(n * Int::from(w), pow2(Int::from(63))));
    }).expect(BOTH);
    c.add("type: elements of arrays and slices have a size", || {
        let elem = if choose("elem", 2) == 0 { ut(2) } else { slice_ty(ut(2)) };
        let sized = elem.meta_kind() == PointerMetaKind::None;
        let w = raw_ptr_ty(PointerMetaKind::ElementCount);
        let place = choose("where", 5);
        let p = match place {
            0 => with_local(array_ty(elem, 2)),
            1 => with_place(array_ty(elem, 2)),
            2 => with_stmts(&[], &[place_mention(deref(construct_wide_pointer(null(), usize_c(0), w), slice_ty(elem)))]),
            3 => with_place(array_ty(array_ty(elem, 1), 2)),
            _ => with_place(tuple_ty(&[(offset(0), array_ty(elem, 1))], size(8), align(8))),
        };
        judge_but(p, sized, "F13", !sized && (place == 0 || place == 3));
    }).expect(BOTH);
    for n in [2u64, 3] {
        let x = c.add(format!("type: {n} fields of a tuple"), move || {
            let tys = [ut(2), ut(1), ut(4)];
            let lens = [2u64, 1, 4];
            let end = sym("end", 0, 10);
            let f: Vec<(Int, u64, Type)> = (0..n as usize).map(|i| (sym(&format!("o{i}"), 0, 9), lens[i], tys[i])).collect();
            let fields: Vec<(Offset, Type)> = f.iter().map(|(o, _, ty)| (offset(*o), *ty)).collect();
            let al = 1u64 << pick("align", 3);
            let inside = all(f.iter().map(|(o, l, _)| is_le(*o + Int::from(*l), end)));
            let mut apart = t();
            for (i, a) in f.iter().enumerate() {
                for b in &f[..i] {
                    apart = apart & (is_le(a.0 + Int::from(a.1), b.0) | is_le(b.0 + Int::from(b.1), a.0));
                }
            }
            judge(with_local(tuple_ty(&fields, size(end), align(al))), inside & apart);
        });
        x.expect(BOTH);
        if n == 3 {
            x.thorough_only();
        }
    }
    c.add("type: a field of a tuple without a size", || {
        let s = choose("which", 4);
        let unsized_ = slice_ty(ut(1));
        let (p, ok) = match s {
            0 => (with_local(tuple_ty(&[(offset(0), unsized_)], size(8), align(1))), false),
            1 => (with_stmts(&[raw_ptr_ty(PointerMetaKind::None)], &[place_mention(deref(null(), tuple_ty(&[(offset(0), ut(1))], size(8), align(1))))]), true),
            2 => (with_stmts(&[raw_ptr_ty(PointerMetaKind::None)], &[place_mention(deref(null(), unsized_tuple_ty(&[(offset(0), ut(1))], ut(1), size(1), align(1), None)))]), false),
            _ => (with_local(unsized_tuple_ty(&[(offset(0), ut(1))], unsized_, size(1), align(1), None)), false),
        };
        judge(p, ok);
    }).expect(BOTH);
    c.add("type: packed tuples", || {
        // Packed only makes sense with an unsized tail, and caps the alignment of the head.
        let al = 1u64 << pick("align", 4);
        let packed = 1u64 << pick("packed", 4);
        let tail = choose("tail", 2) == 1;
        let wide = raw_ptr_ty(if tail { PointerMetaKind::ElementCount } else { PointerMetaKind::None });
        let ty = if tail {
            unsized_tuple_ty(&[(offset(0), ut(1))], slice_ty(ut(4)), size(1), align(al), Some(align(packed)))
        } else {
            Type::Tuple {
                sized_fields: list![(offset(0), ut(1))],
                sized_head_layout: TupleHeadLayout { end: size(1), align: align(al), packed_align: Some(align(packed)) },
                unsized_field: GcCow::new(None),
            }
        };
        let ptr = if tail { construct_wide_pointer(null(), usize_c(0), wide) } else { null() };
        judge(with_stmts(&[wide], &[place_mention(deref(ptr, ty))]), tail && al <= packed);
    }).expect(BOTH);
    c.add("type: the head of a tuple fits into memory", || {
        let end = sym_of("end", ity(Unsigned, 16));
        let al = 1u64 << pick("align", 4);
        // Rounded up to the alignment it has to be a size.
        judge(with_place(tuple_ty(&[], size(end), align(al))), is_le(end, pow2(Int::from(63)) - Int::from(al)));
    }).expect(BOTH);
    c.add("type: fields of unions", || {
        let (o, p) = (sym("o", 0, 9), sym("p", 0, 9));
        let n = sym("size", 0, 9);
        let ty = Type::Union { fields: list![(offset(o), ut(2)), (offset(p), ut(4))], size: size(n), align: align(1), chunks: list![] };
        judge(with_local(ty), is_le(o + 2, n) & is_le(p + 4, n));
    }).expect(BOTH);
    c.add("type: chunks of unions", || {
        let (o, p) = (sym("o", 0, 9), sym("p", 0, 9));
        let (a, b) = (sym("a", 0, 4), sym("b", 0, 4));
        let n = sym("size", 0, 9);
        let ty = Type::Union { fields: list![], size: size(n), align: align(1), chunks: list![(offset(o), size(a)), (offset(p), size(b))] };
        judge(with_local(ty), is_le(o + a, p) & is_le(p + b, n));
    }).expect(BOTH);
    c.add("type: the size of a union or enum is a multiple of its alignment", || {
        let n = sym_of("size", ity(Unsigned, 16));
        let al = 1u64 << pick("align", 5);
        let ty = if choose("enum", 2) == 1 {
            Type::Enum { variants: Map::new(), size: size(n), align: align(al), discriminator: Discriminator::Invalid, discriminant_ty: ity(Unsigned, 1) }
        } else {
            Type::Union { fields: list![], size: size(n), align: align(al), chunks: list![] }
        };
        judge(with_place(ty), is_eq(n.rem_euclid_(Int::from(al)), 0) & is_lt(n, pow2(Int::from(63))));
    }).expect(BOTH);
    c.add("type: a field of a union without a size", || {
        let s = choose("sized", 2) == 1;
        judge(with_local(union_ty(&[(offset(0), if s { ut(1) } else { slice_ty(ut(1)) })], size(8), align(1))), s);
    }).expect(BOTH);
    enums(c);
    pointees(c);
}

fn an_enum(dty: IntType, variants: &[(Int, Variant)], d: Discriminator, n: Int, al: u64) -> Type {
    Type::Enum { variants: variants.iter().copied().collect(), discriminant_ty: dty, discriminator: d, size: size(n), align: align(al) }
}
fn enums(c: &mut Cases) {
    for dty in [ity(Unsigned, 1), ity(Signed, 1), ity(Unsigned, 8), ity(Signed, 16)] {
        c.add(format!("type: discriminants {}", ityname(dty)), move || {
            let (d, e) = (sym_of("d", ity(Signed, 16)), sym_of("e", ity(Signed, 16)));
            suppose(is_ne(d, e));
            let v = enum_variant(ut(4), &[]);
            judge(with_local(an_enum(dty, &[(d, v), (e, v)], Discriminator::Invalid, Int::from(4), 4)), fits(d, dty) & fits(e, dty));
        }).expect(if dty == ity(Signed, 16) { &["accepted"] } else { BOTH });
    }
    c.add("type: type of discriminants", || {
        let n = sym("n", 0, 20);
        let dty = IntType { signed: if choose("signed", 2) == 1 { Signed } else { Unsigned }, size: size(n) };
        let ty = Type::Enum {
            variants: [(Int::ZERO, enum_variant(tuple_ty(&[], size(0), align(1)), &[]))].into_iter().collect(),
            discriminant_ty: dty,
            discriminator: Discriminator::Known(Int::ZERO),
            size: size(0),
            align: align(1),
        };
        let e = int_cast::<u64>(get_discriminant(local(0)));
        judge_but(with_stmts(&[ty, ut(8)], &[assign(local(1), e)]), power_of_two(n, 4), "F19", !power_of_two(n, 4));
    }).expect(&["accepted"]);
    c.add("type: size and alignment of variants", || {
        let n = sym("size", 0, 16);
        let al = 1u64 << pick("align", 4);
        let len = sym("len", 0, 16);
        let val = 1u64 << pick("val", 4);
        suppose(is_eq(n.rem_euclid_(Int::from(al)), 0) & is_eq(len.rem_euclid_(Int::from(val)), 0));
        let v = enum_variant(Type::Union { fields: list![], size: size(len), align: align(val), chunks: list![] }, &[]);
        judge(with_local(an_enum(ity(Unsigned, 1), &[(Int::ZERO, v)], Discriminator::Known(Int::ZERO), n, al)), is_eq(n, len) & B::from(val <= al));
    }).expect(BOTH);
    for vty in [ity(Unsigned, 1), ity(Signed, 2), ity(Signed, 8)] {
        c.add(format!("type: tagger {}", ityname(vty)), move || {
            let o = sym("o", 0, 18);
            let v = sym_of("v", ity(Signed, 16));
            let var = enum_variant(blob(8, 1), &[(offset(o), (vty, v))]);
            judge(
                with_local(an_enum(ity(Unsigned, 1), &[(Int::ZERO, var)], Discriminator::Known(Int::ZERO), Int::from(8), 1)),
                fits(v, vty) & is_le(o + vty.size.bytes(), 8),
            );
        }).expect(BOTH);
        c.add(format!("type: one branch {}", ityname(vty)), move || {
            let o = sym("o", 0, 18);
            let (s, e) = (sym_of("s", ity(Signed, 16)), sym_of("e", ity(Signed, 16)));
            let k = sym_of("k", ity(Signed, 2));
            let d = Discriminator::Branch {
                offset: offset(o),
                value_type: vty,
                fallback: GcCow::new(Discriminator::Invalid),
                children: [((s, e), Discriminator::Known(k))].into_iter().collect(),
            };
            let var = enum_variant(blob(8, 1), &[]);
            judge(
                with_local(an_enum(ity(Unsigned, 1), &[(Int::from(3), var), (Int::from(200), var)], d, Int::from(8), 1)),
                fits(s, vty) & fits(e - 1, vty) & is_lt(s, e) & is_le(o + vty.size.bytes(), 8) & (is_eq(k, 3) | is_eq(k, 200)),
            );
        }).expect(BOTH);
    }
    c.add("type: two branches", || {
        let vty = ity(Signed, 1);
        let r: Vec<(Int, Int)> = (0..2).map(|i| (sym(&format!("s{i}"), -140, 140), sym(&format!("e{i}"), -140, 140))).collect();
        suppose(is_ne(r[0].0, r[1].0) | is_ne(r[0].1, r[1].1));
        let f = sym("f", 0, 2);
        let d = Discriminator::Branch {
            offset: offset(0),
            value_type: vty,
            fallback: GcCow::new(Discriminator::Known(f)),
            children: r.iter().map(|r| (*r, Discriminator::Known(Int::ONE))).collect(),
        };
        let var = enum_variant(blob(8, 1), &[]);
        judge(
            with_local(an_enum(ity(Unsigned, 1), &[(Int::ZERO, var), (Int::ONE, var)], d, Int::from(8), 1)),
            all(r.iter().map(|(s, e)| fits(*s, vty) & fits(*e - 1, vty) & is_lt(*s, *e)))
                & (is_le(r[0].1, r[1].0) | is_le(r[1].1, r[0].0))
                & is_le(f, 1),
        );
    }).expect(BOTH);
    c.add("type: a variant without a size", || {
        let s = choose("which", 2) == 0;
        let v = enum_variant(if s { ut(1) } else { slice_ty(ut(1)) }, &[]);
        judge(with_local(an_enum(ity(Unsigned, 1), &[(Int::ZERO, v)], Discriminator::Known(Int::ZERO), Int::ONE, 1)), s);
    }).expect(BOTH);
}

fn pointee(layout: LayoutStrategy, cells: UnsafeCellStrategy) -> Type {
    ref_ty(PointeeInfo { layout, inhabited: true, unsafe_cells: cells, freeze: false, unpin: true })
}
fn pointees(c: &mut Cases) {
    c.add("type: size of a pointee", || {
        let n = sym_of("size", ity(Unsigned, 16));
        let slice = choose("slice", 2) == 1;
        let l = if !slice { LayoutStrategy::Sized(size(n), align(2)) } else { LayoutStrategy::Slice(size(n), align(2)) };
        let u = if !slice { UnsafeCellStrategy::Sized { cells: list![] } } else { UnsafeCellStrategy::Slice { element_cells: list![] } };
        judge(with_local(pointee(l, u)), is_lt(n, pow2(Int::from(63))));
    }).expect(BOTH);
    for which in ["sized", "slice", "head", "tail"] {
        c.add(format!("type: cells of a pointee, {which}"), move || {
            let (o, p) = (sym("o", 0, 9), sym("p", 0, 9));
            let (a, b) = (sym("a", 0, 4), sym("b", 0, 4));
            let n = sym("size", 0, 9);
            let cells = list![(offset(o), size(a)), (offset(p), size(b))];
            let head = |end| TupleHeadLayout { end: size(end), align: align(1), packed_align: None };
            let (l, u) = match which {
                "sized" => (LayoutStrategy::Sized(size(n), align(1)), UnsafeCellStrategy::Sized { cells }),
                "slice" => (LayoutStrategy::Slice(size(n), align(1)), UnsafeCellStrategy::Slice { element_cells: cells }),
                "head" => (
                    LayoutStrategy::Tuple { head: head(n), tail: GcCow::new(LayoutStrategy::Slice(size(1), align(1))) },
                    UnsafeCellStrategy::Tuple { head_cells: cells, tail_cells: GcCow::new(UnsafeCellStrategy::Slice { element_cells: list![] }) },
                ),
                _ => (
                    LayoutStrategy::Tuple { head: head(Int::from(20)), tail: GcCow::new(LayoutStrategy::Slice(size(n), align(1))) },
                    UnsafeCellStrategy::Tuple { head_cells: list![], tail_cells: GcCow::new(UnsafeCellStrategy::Slice { element_cells: cells }) },
                ),
            };
            judge(with_local(pointee(l, u)), is_le(o + a, p) & is_le(p + b, n));
        }).expect(BOTH);
    }
    c.add("type: kinds of a pointee", || {
        let head = TupleHeadLayout { end: size(4), align: align(1), packed_align: None };
        let l = [
            LayoutStrategy::Sized(size(4), align(1)),
            LayoutStrategy::Slice(size(4), align(1)),
            LayoutStrategy::TraitObject(trait_name(0)),
            LayoutStrategy::Tuple { head, tail: GcCow::new(LayoutStrategy::Slice(size(4), align(1))) },
            LayoutStrategy::Tuple { head, tail: GcCow::new(LayoutStrategy::TraitObject(trait_name(0))) },
            // Not a layout: the tail has a size; there is no such trait.
            LayoutStrategy::Tuple { head, tail: GcCow::new(LayoutStrategy::Sized(size(4), align(1))) },
            LayoutStrategy::TraitObject(trait_name(1)),
            LayoutStrategy::Tuple { head, tail: GcCow::new(LayoutStrategy::TraitObject(trait_name(1))) },
        ];
        let n = || UnsafeCellStrategy::Slice { element_cells: list![] };
        let u = [
            UnsafeCellStrategy::Sized { cells: list![] },
            n(),
            UnsafeCellStrategy::TraitObject,
            UnsafeCellStrategy::Tuple { head_cells: list![], tail_cells: GcCow::new(n()) },
            UnsafeCellStrategy::Tuple { head_cells: list![], tail_cells: GcCow::new(UnsafeCellStrategy::TraitObject) },
        ];
        let (i, j) = (choose("layout", 8), choose("cells", 5));
        let mut p = with_local(pointee(l[i], u[j]));
        p.traits.insert(trait_name(0), Set::new());
        judge(p, i == j);
    }).expect(BOTH);
    c.add("type: unknown traits", || {
        let name = trait_name(pick("trait", 2));
        let place = choose("where", 4);
        let ty = match place {
            0 => ptr_vtable(name),
            1 => raw_ptr_ty(PointerMetaKind::VTablePointer(name)),
            _ => ut(1),
        };
        let name1 = name == trait_name(1);
        let mut p = if place == 3 {
            // There is no such vtable to call a method of.
            let wide = raw_ptr_ty(PointerMetaKind::VTablePointer(name));
            with_stmts(&[wide, Type::Ptr(PtrType::FnPtr)], &[assign(local(1), vtable_method_lookup(get_metadata(load(local(0))), method_name(0)))])
        } else if place == 2 {
            let wide = raw_ptr_ty(PointerMetaKind::VTablePointer(name));
            with_stmts(&[wide], &[place_mention(deref(load(local(0)), trait_object_ty(name)))])
        } else {
            with_local(ty)
        };
        p.traits.insert(trait_name(0), [method_name(0)].into_iter().collect());
        judge_but(p, !name1, "F12", name1 && (place == 1 || place == 3));
    }).expect(BOTH);
}
fn ptr_vtable(name: TraitName) -> Type {
    Type::Ptr(PtrType::VTablePtr(name))
}

// Constants

fn constants(c: &mut Cases) {
    for ty in all_ity() {
        c.add(format!("constant: {}", ityname(ty)), move || {
            let v = sym_of("v", ity(Signed, 32));
            judge(with_stmts(&[ty_of(ty)], &[assign(local(0), cint(v, ty))]), fits(v, ty));
        }).expect(BOTH);
    }
    c.add("constant: address", || {
        let v = sym_of("v", ity(Signed, 16));
        let e = ValueExpr::Constant(Constant::PointerWithoutProvenance(v), raw());
        judge(with_stmts(&[raw()], &[assign(local(0), e)]), fits(v, usz()));
    }).expect(BOTH);
    c.add("constant: offset in a global", || {
        let off = sym_of("off", ity(Unsigned, 16));
        let n = pick("size", 5);
        let name = pick("name", 2);
        let e = ValueExpr::Constant(Constant::GlobalPointer(Relocation { name: GlobalName(Name::from_internal(name as u32)), offset: offset(off) }), raw());
        let f = raw_main(&[raw()], &[block!(storage_live(0), assign(local(0), e), exit())]);
        let g = Global { bytes: list![Some(sym_byte("g")); Int::from(n)], relocations: list![], align: align(1) };
        judge(program_with_globals(&[f], &[g]), B::from(name == 0) & is_le(off, Int::from(n)));
    }).expect(BOTH);
    c.add("constant: function", || {
        let name = pick("name", 3);
        let e = ValueExpr::Constant(Constant::FnPointer(fn_name(name)), Type::Ptr(PtrType::FnPtr));
        judge(with_stmts(&[Type::Ptr(PtrType::FnPtr)], &[assign(local(0), e)]), name == 0);
    }).expect(BOTH);
    c.add("constant: vtable", || {
        // Vtable 0 is for trait 0.
        let (name, tr) = (pick("name", 2), pick("trait", 3));
        let ty = if tr == 2 { raw() } else { ptr_vtable(trait_name(tr)) };
        let e = ValueExpr::Constant(Constant::VTablePointer(VTableName(Name::from_internal(name as u32))), ty);
        let mut p = with_stmts(&[ty], &[assign(local(0), e)]);
        p.traits.insert(trait_name(0), Set::new());
        p.traits.insert(trait_name(1), Set::new());
        p.vtables.insert(VTableName(Name::from_internal(0)), VTable { trait_name: trait_name(0), size: size(1), align: align(1), cells: list![], methods: Map::new() });
        judge(p, name == 0 && tr == 0);
    }).expect(BOTH);
    c.add("constant: its type", || {
        let consts = [
            Constant::Int(Int::ONE),
            Constant::Bool(true),
            Constant::FnPointer(fn_name(0)),
            Constant::PointerWithoutProvenance(Int::from(16)),
            Constant::GlobalPointer(Relocation { name: GlobalName(Name::from_internal(0)), offset: offset(0) }),
        ];
        let types = [
            ut(1),
            bool_ty(),
            Type::Ptr(PtrType::FnPtr),
            raw(),
            tuple_ty(&[], size(0), align(1)),
            union_ty(&[], size(8), align(8)),
            array_ty(ut(1), 1),
            an_enum(ity(Unsigned, 1), &[], Discriminator::Invalid, Int::ZERO, 1),
            raw_ptr_ty(PointerMetaKind::ElementCount),
            raw_ptr_ty(PointerMetaKind::VTablePointer(trait_name(0))),
        ];
        let (i, j) = (choose("constant", 5), choose("type", types.len()));
        // Pointers without provenance and to globals may have any thin pointer type.
        let ok = match i {
            0..=2 => i == j,
            _ => j == 2 || j == 3,
        };
        let f = raw_main(&[types[j]], &[block!(storage_live(0), assign(local(0), ValueExpr::Constant(consts[i], types[j])), exit())]);
        let g = Global { bytes: list![None; Int::from(4)], relocations: list![], align: align(1) };
        let mut p = program_with_globals(&[f], &[g]);
        p.traits.insert(trait_name(0), Set::new());
        judge_but(p, ok, "F18", i >= 3 && (j == 8 || j == 9));
    }).expect(BOTH);
}

/// Pointers of types that not all pointers are valid for: rejected or UB if it is not.
fn valid_pointers(c: &mut Cases) {
    c.add("constant: pointers that may not be valid", || {
        let info = PointeeInfo { layout: LayoutStrategy::Sized(size(0), align(4)), inhabited: true, unsafe_cells: UnsafeCellStrategy::Sized { cells: list![] }, freeze: true, unpin: true };
        let i = choose("type", 4);
        let ty = [ref_ty(info), ref_mut_ty(info), box_ty(info), ptr_vtable(trait_name(0))][i];
        let a = sym_of("addr", usz());
        let mut p = with_stmts(&[ty], &[assign(local(0), ValueExpr::Constant(Constant::PointerWithoutProvenance(a), ty))]);
        p.traits.insert(trait_name(0), Set::new());
        let valid = B::from(i < 3) & is_ne(a, 0) & is_eq(a.rem_euclid_(Int::from(4)), 0);
        let r = run(p);
        reach(r.end.kind());
        match &r.end {
            End::Panic(s) => {
                check_msg(!valid, "the interpreter does not panic", s);
                fail("known F18", s)
            }
            End::Exit => check(valid, "an invalid pointer is UB or rejected"),
            e => check_msg(!valid, "a valid pointer is accepted", &e.text()),
        }
    }).expect(&["exit"]);
}

// Expressions that build values

/// One value of each kind of type.
fn values() -> Vec<(Type, ValueExpr)> {
    let e = an_enum(ity(Unsigned, 1), &[(Int::ZERO, enum_variant(ut(1), &[]))], Discriminator::Known(Int::ZERO), Int::ONE, 1);
    let w = raw_ptr_ty(PointerMetaKind::ElementCount);
    let u = union_ty(&[(offset(0), ut(1))], size(1), align(1));
    vec![
        (ut(1), cint(Int::ONE, ity(Unsigned, 1))),
        (ut(4), one(7)),
        (ty_of(ity(Signed, 4)), cint(Int::from(-7), ity(Signed, 4))),
        (ty_of(usz()), usize_c(3)),
        (bool_ty(), const_bool(true)),
        (raw(), null()),
        (w, construct_wide_pointer(null(), usize_c(1), w)),
        (Type::Ptr(PtrType::FnPtr), fn_ptr(fn_name(0))),
        (array_ty(ut(1), 2), tuple(&[cint(Int::ONE, ity(Unsigned, 1)); 2], array_ty(ut(1), 2))),
        (tuple_ty(&[(offset(0), ut(1))], size(1), align(1)), tuple(&[cint(Int::ONE, ity(Unsigned, 1))], tuple_ty(&[(offset(0), ut(1))], size(1), align(1)))),
        (u, ValueExpr::Union { field: Int::ZERO, expr: GcCow::new(cint(Int::ONE, ity(Unsigned, 1))), union_ty: u }),
        (e, variant(0, cint(Int::ONE, ity(Unsigned, 1)), e)),
    ]
}
const VALUES: usize = 12;
/// Like the builder's, without its own checks.
fn tuple(args: &[ValueExpr], ty: Type) -> ValueExpr {
    ValueExpr::Tuple(args.iter().copied().collect(), ty)
}
fn is_int(i: usize) -> bool {
    i < 4
}
fn is_ptr(i: usize) -> bool {
    (5..8).contains(&i)
}
fn is_thin(i: usize) -> bool {
    i == 5 || i == 7
}
/// Evaluates the value, into nothing.
fn eval(e: ValueExpr, ty: Type) -> Program {
    with_stmts(&[ty], &[assign(local(0), e)])
}

fn expressions(c: &mut Cases) {
    c.add("value: number of fields", || {
        let n = pick("n", 4);
        let ty = tuple_ty(&[(offset(0), ut(1)), (offset(1), ut(1))], size(2), align(1));
        judge(eval(tuple(&vec![cint(Int::ONE, ity(Unsigned, 1)); n as usize], ty), ty), n == 2);
    }).expect(BOTH);
    c.add("value: number of elements", || {
        let n = pick("n", 4);
        let k = sym("count", -2, 5);
        let ty = array_ty(ut(1), k);
        judge_but(eval(tuple(&vec![cint(Int::ONE, ity(Unsigned, 1)); n as usize], ty), ty), is_eq(k, Int::from(n)), "F13", is_lt(k, 0));
    }).expect(BOTH);
    c.add("value: types of parts", || {
        let have = choose("value", VALUES);
        let (_, v) = values()[have];
        let want = choose("want", VALUES);
        let (w, _) = values()[want];
        let n = w.layout::<x86_64>().expect_size("");
        let a = w.layout::<x86_64>().expect_align("");
        let (ty, e) = match choose("aggregate", 4) {
            0 => {
                let ty = tuple_ty(&[(offset(0), w)], n, a);
                (ty, tuple(&[v], ty))
            }
            1 => {
                let ty = array_ty(w, 1);
                (ty, tuple(&[v], ty))
            }
            2 => {
                let ty = union_ty(&[(offset(0), w)], n, a);
                (ty, ValueExpr::Union { field: Int::ZERO, expr: GcCow::new(v), union_ty: ty })
            }
            _ => {
                let ty = Type::Enum {
                    variants: [(Int::ZERO, enum_variant(w, &[]))].into_iter().collect(),
                    discriminant_ty: ity(Unsigned, 1),
                    discriminator: Discriminator::Known(Int::ZERO),
                    size: n,
                    align: a,
                };
                (ty, variant(0, v, ty))
            }
        };
        judge(eval(e, ty), have == want);
    }).expect(BOTH);
    c.add("value: kinds of aggregates", || {
        let n = choose("type", VALUES);
        let (ty, _) = values()[n];
        let b = cint(Int::ONE, ity(Unsigned, 1));
        let (e, ok) = match choose("aggregate", 3) {
            0 => (tuple(&[b], ty), n == 9),
            1 => (ValueExpr::Union { field: Int::ZERO, expr: GcCow::new(b), union_ty: ty }, n == 10),
            _ => (variant(0, b, ty), n == 11),
        };
        judge(eval(e, ty), ok);
    }).expect(BOTH);
    c.add("value: field of a union", || {
        let f = sym_of("field", ity(Signed, 16));
        let u = union_ty(&[(offset(0), ut(1)), (offset(1), ut(1))], size(2), align(1));
        let e = ValueExpr::Union { field: f, expr: GcCow::new(cint(Int::ONE, ity(Unsigned, 1))), union_ty: u };
        judge_but(eval(e, u), is_le(0, f) & is_lt(f, 2), "F14", is_lt(f, 0));
    }).expect(BOTH);
    c.add("value: variant", || {
        let d = sym_of("d", ity(Signed, 16));
        let v = enum_variant(ut(1), &[]);
        let e = an_enum(ity(Signed, 1), &[(Int::from(-3), v), (Int::from(5), v)], Discriminator::Known(Int::from(5)), Int::ONE, 1);
        // What is built may not be a value of the type, that shows at run time.
        let p = with_stmts(&[e], &[place_mention(local(0)), assign(local(0), variant(d, cint(Int::ONE, ity(Unsigned, 1)), e))]);
        judge(p, is_eq(d, -3) | is_eq(d, 5));
    }).expect(BOTH);
    c.add("value: load and discriminant", || {
        let n = choose("type", VALUES + 1);
        let (ty, p) = if n == VALUES {
            // A place without a size.
            let w = raw_ptr_ty(PointerMetaKind::ElementCount);
            (w, deref(construct_wide_pointer(null(), usize_c(0), w), slice_ty(ut(1))))
        } else {
            (values()[n].0, local(0))
        };
        let disc = choose("disc", 2) == 1;
        let s = if disc { assign(local(1), get_discriminant(p)) } else { assign(local(0), load(p)) };
        let mut init = vec![];
        if n < VALUES {
            init.push(assign(local(0), values()[n].1));
        }
        init.push(s);
        judge(with_stmts(&[ty, ut(1)], &init), if disc { n == 11 } else { n < VALUES });
    }).expect(BOTH);
    c.add("value: address", || {
        let places = [PointerMetaKind::None, PointerMetaKind::ElementCount];
        let (i, j) = (choose("place", 2), choose("pointer", 4));
        let w = raw_ptr_ty(PointerMetaKind::ElementCount);
        let info = |l, u| PointeeInfo { layout: l, inhabited: true, unsafe_cells: u, freeze: true, unpin: true };
        let types = [
            raw(),
            w,
            ref_ty(info(LayoutStrategy::Sized(size(1), align(1)), UnsafeCellStrategy::Sized { cells: list![] })),
            ref_ty(info(LayoutStrategy::Slice(size(1), align(1)), UnsafeCellStrategy::Slice { element_cells: list![] })),
        ];
        let p = if i == 0 { local(1) } else { deref(construct_wide_pointer(addr(local(1)), usize_c(1), w), slice_ty(ut(1))) };
        let _ = places;
        judge(with_stmts(&[types[j], ut(1)], &[assign(local(1), cint(Int::ONE, ity(Unsigned, 1))), assign(local(0), addr_of(p, types[j]))]), i == j % 2);
    }).expect(BOTH);
}

// Operators

fn operators(c: &mut Cases) {
    c.add("operator: one operand", || {
        let v = choose("value", VALUES);
        let (ty, x) = values()[v];
        let op = choose("operator", 10);
        use UnOp::*;
        let slice = slice_ty(ut(1));
        let (o, ret, ok) = match op {
            0 => (Int(IntUnOp::Neg), ty, is_int(v)),
            1 => (Int(IntUnOp::BitNot), ty, is_int(v)),
            2 => (Int(IntUnOp::CountOnes), ut(4), is_int(v)),
            3 => (Cast(CastOp::IntToInt(ity(Signed, 2))), ty_of(ity(Signed, 2)), is_int(v)),
            4 => (Cast(CastOp::Transmute(array_ty(ut(1), 4))), array_ty(ut(1), 4), true),
            5 => (GetThinPointer, raw(), is_ptr(v)),
            6 => (GetMetadata, if v == 6 { ty_of(usz()) } else { tuple_ty(&[], size(0), align(1)) }, is_ptr(v)),
            7 => (ComputeSize(slice), ty_of(usz()), v == 3),
            8 => (ComputeAlign(slice), ty_of(usz()), v == 3),
            _ => (VTableMethodLookup(method_name(0)), Type::Ptr(PtrType::FnPtr), false),
        };
        judge(eval(ValueExpr::UnOp { operator: o, operand: GcCow::new(x) }, ret), ok);
    }).expect(BOTH);
    c.add("operator: two operands", || {
        let (a, b) = (choose("left", VALUES), choose("right", VALUES));
        let ((lty, l), (_, r)) = (values()[a], values()[b]);
        use BinOp::*;
        let w = PtrType::Raw { meta_kind: PointerMetaKind::ElementCount };
        let (o, ret, ok) = match choose("operator", 10) {
            0 => (Int(IntBinOp::Add), lty, is_int(a) && a == b),
            1 => (Int(IntBinOp::BitXor), lty, is_int(a) && a == b),
            2 => (Int(IntBinOp::Shl), lty, is_int(a) && is_int(b)),
            3 => (Int(IntBinOp::ShrUnchecked), lty, is_int(a) && is_int(b)),
            4 => {
                let ret = if let Type::Int(i) = lty { i.with_overflow::<x86_64>() } else { lty };
                (IntWithOverflow(IntBinOpWithOverflow::Mul), ret, is_int(a) && a == b)
            }
            5 => (Rel(RelOp::Lt), bool_ty(), a == b && (is_int(a) || a == 4 || is_ptr(a))),
            6 => (Rel(RelOp::Cmp), ty_of(ity(Signed, 1)), a == b && (is_int(a) || a == 4 || is_ptr(a))),
            7 => (PtrOffset { inbounds: false }, lty, is_thin(a) && is_int(b)),
            8 => (PtrOffsetFrom { inbounds: false, nonneg: false }, ty_of(isz()), is_thin(a) && is_thin(b)),
            _ => (ConstructWidePointer(w), Type::Ptr(w), is_thin(a) && b == 3),
        };
        judge(eval(ValueExpr::BinOp { operator: o, left: GcCow::new(l), right: GcCow::new(r) }, ret), ok);
    }).expect(BOTH).secs(300);
    c.add("operator: types without a size", || {
        let u = choose("target", 2) == 1;
        let ty = if u { slice_ty(ut(1)) } else { ut(1) };
        judge(eval(transmute(cint(Int::ONE, ity(Unsigned, 1)), ty), ut(1)), !u);
    }).expect(BOTH);
    c.add("operator: type of a transmutation", || {
        // The type has a gap at its end if it is packed into less than it needs.
        let (o, n) = (sym("o", 0, 4), sym("size", 0, 4));
        let ty = Type::Tuple {
            sized_fields: list![(offset(o), ut(1))],
            sized_head_layout: TupleHeadLayout { end: size(n), align: align(1), packed_align: None },
            unsized_field: GcCow::new(None),
        };
        // Its value is only looked at.
        let e = transmute(transmute(tuple(&[], tuple_ty(&[], size(0), align(1))), ty), tuple_ty(&[], size(0), align(1)));
        judge_but(eval(e, tuple_ty(&[], size(0), align(1))), is_lt(o, n), "F15", is_le(n, o));
    }).expect(&["accepted"]);
    c.add("operator: type of an integer cast", || {
        let n = sym("n", 0, 20);
        let ty = IntType { signed: Unsigned, size: size(n) };
        let e = int_cast::<u64>(ValueExpr::UnOp { operator: UnOp::Cast(CastOp::IntToInt(ty)), operand: GcCow::new(one(5)) });
        judge_but(eval(e, ty_of(usz())), power_of_two(n, 4), "F15", !power_of_two(n, 4));
    }).expect(&["accepted"]);
    c.add("operator: methods of vtables", || {
        let m = pick("method", 3);
        let v = ValueExpr::Constant(Constant::VTablePointer(VTableName(Name::from_internal(0))), ptr_vtable(trait_name(0)));
        let mut p = eval(vtable_method_lookup(v, method_name(m)), Type::Ptr(PtrType::FnPtr));
        p.traits.insert(trait_name(0), [method_name(0), method_name(1)].into_iter().collect());
        p.traits.insert(trait_name(1), [method_name(2)].into_iter().collect());
        let methods = [(method_name(0), fn_name(0)), (method_name(1), fn_name(0))].into_iter().collect();
        p.vtables.insert(VTableName(Name::from_internal(0)), VTable { trait_name: trait_name(0), size: size(1), align: align(1), cells: list![], methods });
        judge(p, m < 2);
    }).expect(BOTH);
}

// Places

fn places(c: &mut Cases) {
    c.add("place: local", || {
        let n = pick("local", 4);
        judge(with_stmts(&[ut(1), ut(1)], &[place_mention(PlaceExpr::Local(local_name(n)))]), n < 3);
    }).expect(BOTH);
    c.add("place: field", || {
        let f = sym_of("field", ity(Signed, 16));
        let tys = [
            tuple_ty(&[(offset(1), ut(1)), (offset(0), ut(1))], size(2), align(1)),
            union_ty(&[(offset(1), ut(1)), (offset(0), ut(1))], size(2), align(1)),
            tuple_ty(&[], size(2), align(1)),
            union_ty(&[], size(2), align(1)),
        ];
        let i = choose("type", 4);
        let ok = B::from(i < 2) & is_le(0, f) & is_lt(f, 2);
        judge_but(with_stmts(&[tys[i]], &[place_mention(field(local(0), f))]), ok, "F14", is_lt(f, 0) & B::from(i % 2 == 1));
    }).expect(BOTH);
    c.add("place: last field", || {
        let f = sym_of("field", ity(Signed, 16));
        let w = raw_ptr_ty(PointerMetaKind::ElementCount);
        let ty = unsized_tuple_ty(&[(offset(0), ut(1))], slice_ty(ut(1)), size(1), align(1), None);
        let p = deref(construct_wide_pointer(addr(local(0)), usize_c(3), w), ty);
        judge(with_stmts(&[blob(4, 1)], &[place_mention(field(p, f))]), is_le(0, f) & is_le(f, 1));
    }).expect(BOTH);
    c.add("place: downcast", || {
        let d = sym_of("d", ity(Signed, 16));
        let v = enum_variant(ut(1), &[]);
        let e = an_enum(ity(Signed, 1), &[(Int::from(-3), v), (Int::from(5), v)], Discriminator::Known(Int::from(5)), Int::ONE, 1);
        judge(with_stmts(&[e], &[place_mention(downcast(local(0), d))]), is_eq(d, -3) | is_eq(d, 5));
    }).expect(BOTH);
    c.add("place: kinds of projections", || {
        let n = choose("type", VALUES);
        let (ty, _) = values()[n];
        let (p, ok) = match choose("projection", 3) {
            0 => (field(local(0), 0), n == 9 || n == 10),
            1 => (index(local(0), usize_c(0)), n == 8),
            _ => (downcast(local(0), 0), n == 11),
        };
        judge(with_stmts(&[ty], &[place_mention(p)]), ok);
    }).expect(BOTH);
    c.add("place: type of an index", || {
        let n = choose("index", VALUES);
        judge(with_stmts(&[array_ty(ut(1), 8)], &[place_mention(index(local(0), values()[n].1))]), is_int(n));
    }).expect(BOTH);
    c.add("place: pointers", || {
        let n = choose("pointer", VALUES);
        let u = choose("type", 2) == 1;
        let ty = if u { slice_ty(ut(1)) } else { tuple_ty(&[], size(0), align(1)) };
        judge(with_stmts(&[], &[place_mention(deref(values()[n].1, ty))]), if u { n == 6 } else { is_thin(n) });
    }).expect(BOTH);
    c.add("place: type of a place", || {
        let (o, n) = (sym("o", 0, 9), sym("size", 0, 9));
        let ty = tuple_ty(&[(offset(o), ut(4))], size(n), align(1));
        judge(with_stmts(&[blob(16, 1)], &[place_mention(deref(addr(local(0)), ty))]), is_le(o + 4, n));
    }).expect(BOTH);
}

// Statements

fn statements(c: &mut Cases) {
    c.add("statement: assignment", || {
        let (i, j) = (choose("to", VALUES), choose("from", VALUES));
        judge(with_stmts(&[values()[i].0], &[assign(local(0), values()[j].1)]), i == j);
    }).expect(BOTH);
    c.add("statement: discriminant", || {
        let d = sym_of("d", ity(Signed, 16));
        let v = |k: i64| enum_variant(blob(1, 1), &[(offset(0), (ity(Signed, 1), Int::from(k)))]);
        let e = an_enum(ity(Signed, 1), &[(Int::from(-3), v(3)), (Int::from(5), v(4))], Discriminator::Invalid, Int::ONE, 1);
        let is_enum = choose("type", 2) == 0;
        let ty = if is_enum { e } else { blob(1, 1) };
        judge(with_stmts(&[ty], &[set_discriminant(local(0), d)]), B::from(is_enum) & (is_eq(d, -3) | is_eq(d, 5)));
    }).expect(BOTH);
    c.add("statement: places without a size", || {
        let w = raw_ptr_ty(PointerMetaKind::ElementCount);
        let s = choose("sized", 2) == 1;
        let p = if s { local(0) } else { deref(construct_wide_pointer(addr(local(0)), usize_c(3), w), slice_ty(ut(1))) };
        let (st, ok) = match choose("statement", 3) {
            0 => (validate(p, false), s),
            1 => (Statement::Deinit { place: p }, s),
            _ => (place_mention(p), true),
        };
        judge(with_stmts(&[blob(4, 1)], &[st]), ok);
    }).expect(BOTH);
    c.add("statement: storage", || {
        // Local 1 is the argument, 0 the return value.
        let n = pick("local", 5);
        let dead = choose("dead", 2) == 1;
        let name = local_name(n);
        let s = if dead { Statement::StorageDead(name) } else { Statement::StorageLive(name) };
        let unit = tuple_ty(&[], size(0), align(1));
        let f = function(Ret::Yes, 1, &[unit, ut(1), ut(1), ut(1)], &[block!(s, return_())]);
        let m = raw_main(&[unit], &[block!(storage_live(0), call(1, &[by_value(cint(Int::ONE, ity(Unsigned, 1)))], local(0), Some(1))), block!(exit())]);
        judge(program(&[m, f]), if dead { n == 2 || n == 3 } else { n < 4 });
    }).expect(BOTH);
}

// Terminators

const KINDS: [BbKind; 4] = [BbKind::Regular, BbKind::Cleanup, BbKind::Catch, BbKind::Terminate];
/// Blocks that only run on unwinding: 4 is regular, 5 for cleanup, 6 catches, 7 terminates.
fn block_zoo() -> Vec<BasicBlock> {
    vec![
        block(&[], exit(), BbKind::Regular),
        block(&[], Terminator::ResumeUnwind, BbKind::Cleanup),
        block(&[], Terminator::StopUnwind(block_name(4)), BbKind::Catch),
        block(&[], abort(), BbKind::Terminate),
    ]
}
/// A block of the given kind with the given terminator is block 3; nothing jumps there.
fn with_term(kind: BbKind, term: Terminator) -> Program {
    let mut b = vec![block!(storage_live(0), print(one(1), 1)), block!(goto(2)), block!(exit()), block(&[], term, kind)];
    b.extend(block_zoo());
    program(&[raw_main(&[ut(4)], &b)])
}

fn terminators(c: &mut Cases) {
    for ty in [ity(Unsigned, 1), ity(Signed, 2), ity(Unsigned, 16)] {
        c.add(format!("terminator: switch {}", ityname(ty)), move || {
            let (a, b) = (sym_of("a", ity(Signed, 32)), sym_of("b", ity(Signed, 32)));
            suppose(is_ne(a, b));
            let t = Terminator::Switch { value: cint(Int::ONE, ty), cases: [(a, block_name(4)), (b, block_name(4))].into_iter().collect(), fallback: block_name(4) };
            judge(with_term(BbKind::Regular, t), fits(a, ty) & fits(b, ty));
        }).expect(BOTH);
    }
    c.add("terminator: value of a switch", || {
        let n = choose("value", VALUES);
        let t = Terminator::Switch { value: values()[n].1, cases: Map::new(), fallback: block_name(4) };
        judge(with_term(BbKind::Regular, t), is_int(n));
    }).expect(BOTH);
    c.add("terminator: next block", || {
        let k = choose("kind", 4);
        let to = pick("to", 9);
        let b = block_name(to);
        let next = match to {
            0..=2 | 4 => to != 3 && k == 0,
            3 => true,
            5..=7 => k == to as usize - 4,
            _ => false,
        };
        let unit = unit_place();
        let z = cint(Int::ZERO, ity(Unsigned, 1));
        let which = choose("terminator", 7);
        let t = match which {
            0 => Terminator::Goto(b),
            1 => Terminator::Switch { value: z, cases: [(Int::ONE, b)].into_iter().collect(), fallback: block_name(3) },
            2 => Terminator::Switch { value: z, cases: [(Int::ONE, block_name(3))].into_iter().collect(), fallback: b },
            3 => Terminator::Intrinsic { intrinsic: IntrinsicOp::PrintStdout, arguments: list![z], ret: unit, next_block: Some(b) },
            4 => Terminator::Call { callee: fn_ptr(fn_name(0)), calling_convention: CallingConvention::C, arguments: list![], ret: unit, next_block: Some(b), unwind_block: None },
            5 => Terminator::Intrinsic { intrinsic: IntrinsicOp::PrintStdout, arguments: list![z], ret: unit, next_block: None },
            _ => Terminator::Call { callee: fn_ptr(fn_name(0)), calling_convention: CallingConvention::C, arguments: list![], ret: unit, next_block: None, unwind_block: None },
        };
        judge(with_term(KINDS[k], t), which > 4 || next);
    }).expect(BOTH).secs(300);
    c.add("terminator: unwinding", || {
        let k = choose("kind", 4);
        let to = pick("to", 9);
        let to_kind = match to {
            0..=2 | 4 => Some(0),
            3 => Some(k),
            5..=7 => Some(to as usize - 4),
            _ => None,
        };
        // Cleanup and catch blocks from regular ones, terminating ones from cleanup and terminating ones.
        let unwind = match k {
            0 => to_kind == Some(1) || to_kind == Some(2),
            1 | 3 => to_kind == Some(3),
            _ => false,
        };
        let b = block_name(to);
        let (t, ok) = match choose("terminator", 5) {
            0 => {
                let t = Terminator::Call { callee: fn_ptr(fn_name(0)), calling_convention: CallingConvention::C, arguments: list![], ret: unit_place(), next_block: None, unwind_block: Some(b) };
                (t, unwind)
            }
            1 => (Terminator::StartUnwind { unwind_payload: null(), unwind_block: b }, k == 0 && unwind),
            2 => (Terminator::StopUnwind(b), k == 2 && to_kind == Some(0)),
            3 => (Terminator::ResumeUnwind, k == 1),
            _ => (Terminator::Return, k == 0),
        };
        judge(with_term(KINDS[k], t), ok);
    }).expect(BOTH).secs(300);
    c.add("terminator: payload", || {
        let n = choose("payload", VALUES);
        judge(with_term(BbKind::Regular, Terminator::StartUnwind { unwind_payload: values()[n].1, unwind_block: block_name(5) }), n == 5);
    }).expect(BOTH);
    c.add("terminator: callee", || {
        let n = choose("callee", VALUES);
        let t = Terminator::Call { callee: values()[n].1, calling_convention: CallingConvention::C, arguments: list![], ret: unit_place(), next_block: None, unwind_block: None };
        judge(with_term(BbKind::Regular, t), n == 7);
    }).expect(BOTH);
    c.add("terminator: arguments without a size", || {
        let w = raw_ptr_ty(PointerMetaKind::ElementCount);
        let p = deref(construct_wide_pointer(addr(local(0)), usize_c(3), w), slice_ty(ut(1)));
        let thin = local(0);
        let u = choose("unsized", 2) == 1;
        let x = if u { p } else { thin };
        let t = match choose("where", 5) {
            0 => Terminator::Call { callee: fn_ptr(fn_name(0)), calling_convention: CallingConvention::C, arguments: list![ArgumentExpr::InPlace(x)], ret: unit_place(), next_block: None, unwind_block: None },
            1 => Terminator::Call { callee: fn_ptr(fn_name(0)), calling_convention: CallingConvention::C, arguments: list![ArgumentExpr::ByValue(load(x))], ret: unit_place(), next_block: None, unwind_block: None },
            2 => Terminator::Call { callee: fn_ptr(fn_name(0)), calling_convention: CallingConvention::C, arguments: list![], ret: x, next_block: None, unwind_block: None },
            3 => Terminator::Intrinsic { intrinsic: IntrinsicOp::PrintStdout, arguments: list![load(x)], ret: unit_place(), next_block: None },
            _ => Terminator::Intrinsic { intrinsic: IntrinsicOp::PrintStdout, arguments: list![], ret: x, next_block: None },
        };
        judge(with_term(BbKind::Regular, t), !u);
    }).expect(BOTH);
    c.add("terminator: atomic operations", || {
        use IntBinOp::*;
        let ops = [Add, Sub, AddUnchecked, SubUnchecked, Mul, MulUnchecked, Div, DivExact, Rem, Shl, ShlUnchecked, Shr, ShrUnchecked, BitAnd, BitOr, BitXor];
        let n = choose("op", ops.len());
        let t = Terminator::Intrinsic { intrinsic: IntrinsicOp::AtomicFetchAndOp(ops[n]), arguments: list![addr(local(0)), one(1)], ret: local(0), next_block: Some(block_name(4)) };
        judge(with_term(BbKind::Regular, t), n < 2);
    }).expect(BOTH);
}

// Functions and programs

fn functions(c: &mut Cases) {
    c.add("function: arguments", || {
        // Two arguments and the return value among four locals; there is no local 4.
        let (a, b, r) = (pick("a", 5), pick("b", 5), pick("ret", 5));
        let unit = tuple_ty(&[], size(0), align(1));
        let mut f = function(Ret::Yes, 0, &[unit, unit, unit, unit], &[block!(return_())]);
        f.args = list![local_name(a), local_name(b)];
        f.ret = local_name(r);
        let m = raw_main(&[unit], &[block!(storage_live(0), call(1, &[by_value(unit_v()), by_value(unit_v())], local(0), Some(1))), block!(exit())]);
        judge(program(&[m, f]), a < 4 && b < 4 && r < 4 && a != b && a != r && b != r);
    }).expect(BOTH);
    c.add("function: start block", || {
        let n = pick("start", 9);
        let mut b = vec![block!(exit()), block!(exit()), block!(exit()), block!(exit())];
        b.extend(block_zoo());
        let mut f = raw_main(&[], &b);
        f.start = block_name(n);
        judge_but(program(&[f]), n < 5, "F16", n >= 5);
    }).expect(&["accepted"]);
    c.add("function: start block of a function that is called", || {
        let n = pick("start", 9);
        let mut b = vec![block!(return_()), block!(exit()), block!(exit()), block!(exit())];
        b.extend(block_zoo());
        let unit = tuple_ty(&[], size(0), align(1));
        let mut f = function(Ret::Yes, 0, &[unit], &b);
        f.start = block_name(n);
        let m = raw_main(&[unit], &[block!(storage_live(0), call(1, &[], local(0), Some(1))), block!(exit())]);
        judge_but(program(&[m, f]), n < 5, "F16", n >= 5);
    }).expect(&["accepted"]);
    c.add("function: every block is checked", || {
        // One of the blocks, reachable or not, has a statement or terminator that breaks a rule.
        let (i, w) = (choose("block", 4), choose("wrong", 3));
        let good = || block(&[], exit(), BbKind::Regular);
        let bad = match w {
            0 => block(&[place_mention(PlaceExpr::Local(local_name(9)))], exit(), BbKind::Regular),
            1 => block(&[], goto(9), BbKind::Regular),
            _ => good(),
        };
        let b: Vec<BasicBlock> = (0..4).map(|j| if i == j { bad } else { good() }).collect();
        judge(program(&[raw_main(&[ut(1)], &b)]), w == 2);
    }).expect(BOTH);
}
fn unit_v() -> ValueExpr {
    tuple(&[], tuple_ty(&[], size(0), align(1)))
}

fn programs(c: &mut Cases) {
    c.add("program: start function", || {
        let n = pick("start", 3);
        let mut p = program(&[raw_main(&[], &[block!(exit())]), raw_main(&[], &[block!(exit())])]);
        p.start = fn_name(n);
        judge(p, n < 2);
    }).expect(BOTH);
    c.add("program: convention of the start function", || {
        let mut f = raw_main(&[], &[block!(exit())]);
        let rust = choose("rust", 2) == 1;
        f.calling_convention = if rust { CallingConvention::Rust } else { CallingConvention::C };
        let mut p = program(&[raw_main(&[], &[block!(exit())]), raw_main(&[], &[block!(exit())])]);
        p.functions.insert(fn_name(0), f);
        judge(p, !rust);
    }).expect(BOTH);
    c.add("program: return value of the start function", || {
        let n = sym("size", 0, 8);
        let al = 1u64 << pick("align", 3);
        let f = function(Ret::Yes, 0, &[tuple_ty(&[], size(n), align(al))], &[block!(exit())]);
        judge(program(&[f]), is_eq(n, 0) & B::from(al == 1));
    }).expect(BOTH);
    c.add("program: arguments of the start function", || {
        let n = pick("args", 3);
        let unit = tuple_ty(&[], size(0), align(1));
        judge(program(&[function(Ret::Yes, n as usize, &[unit, unit, unit], &[block!(exit())])]), n == 0);
    }).expect(BOTH);
    c.add("program: relocations", || {
        let n = pick("size", 18);
        let at = sym_of("at", ity(Unsigned, 16));
        let off = sym_of("off", ity(Unsigned, 16));
        let name = pick("name", 3);
        let global = |n: u64, r| Global { bytes: list![Some(sym_byte("g")); Int::from(n)], relocations: r, align: align(1) };
        let r = (offset(at), Relocation { name: GlobalName(Name::from_internal(name as u32)), offset: offset(off) });
        let p = program_with_globals(&[raw_main(&[], &[block!(exit())])], &[global(n, list![r]), global(3, list![])]);
        let target = match name {
            0 => is_le(off, Int::from(n)),
            1 => is_le(off, 3),
            _ => B::from(false),
        };
        judge(p, is_le(at + 8, Int::from(n)) & target);
    }).expect(BOTH);
    c.add("program: vtables", || {
        let n = sym("size", 0, 40);
        let al = 1u64 << pick("align", 4);
        let (o, l) = (sym("o", 0, 40), sym("l", 0, 40));
        let tr = pick("trait", 2);
        let mut p = program(&[raw_main(&[], &[block!(exit())])]);
        p.traits.insert(trait_name(0), Set::new());
        p.vtables.insert(VTableName(Name::from_internal(0)), VTable { trait_name: trait_name(tr), size: size(n), align: align(al), cells: list![(offset(o), size(l))], methods: Map::new() });
        judge(p, is_eq(n.rem_euclid_(Int::from(al)), 0) & is_le(o + l, n) & B::from(tr == 0));
    }).expect(BOTH);
    c.add("program: methods of vtables", || {
        let want = pick("want", 4);
        let have = pick("have", 4);
        let f = pick("function", 2);
        let set = |bits: u64| (0..2).filter(move |i| bits >> i & 1 == 1);
        let v = ValueExpr::Constant(Constant::VTablePointer(VTableName(Name::from_internal(0))), ptr_vtable(trait_name(0)));
        let mut p = if want & 1 == 1 { eval(vtable_method_lookup(v, method_name(0)), Type::Ptr(PtrType::FnPtr)) } else { eval(v, ptr_vtable(trait_name(0))) };
        p.traits.insert(trait_name(0), set(want).map(|i| method_name(i)).collect());
        let methods = set(have).map(|i| (method_name(i), fn_name(f))).collect();
        p.vtables.insert(VTableName(Name::from_internal(0)), VTable { trait_name: trait_name(0), size: size(8), align: align(8), cells: list![], methods });
        judge_but(p, want == have && (f == 0 || have == 0), "F17", want == have && f == 1 && have != 0);
    }).expect(BOTH);
}
