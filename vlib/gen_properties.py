"""Writes properties.jsonl."""
import json
P=[]
def p(id,title,st,over,q,why,files,mech,state=None,observe=None):
    a={"files":["spec/"+f for f in files],"mechanism":[{"name":n,"where":"spec/"+w} for n,w in mech]}
    if observe: a["observe_at"]=[observe]
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":q},"why_tests_cant":why,"anchors":a})
OUT="program output and the way the run ends (regular end, UB, abort, deadlock, leak, ill-formed, interpreter panic)"
p("C01","Integer operators compute the exact result or have UB exactly when specified",
 "For every integer type and all operands, each unary, binary, overflowing and cast operator yields the mathematical result brought into the range of its result type (truncating division, Euclidean shift amounts, overflow flag set exactly on overflow). The unchecked and division operators have UB exactly when the result does not fit, the divisor is zero, the exact division leaves a remainder, or the shift amount is out of range. No operand makes the interpreter panic.",
 ["inputs","configurations"],"every operator, every integer type, all operand values",
 "The test programs use a handful of operand pairs per operator; the edge values of other widths and signs are not reached.",
 ["lang/step/operators.md"],[("operator evaluation","lang/step/operators.md (eval_int_bin_op, eval_int_un_op, eval_cast_op)")],observe=OUT)
p("C02","Comparisons agree with one total order and branches follow their value",
 "For all operands of integer, bool, thin pointer, wide pointer, function pointer and vtable pointer type, the seven relational operators give the answers of one total order: by value, and for pointers by address and then metadata, ignoring provenance. A switch continues at the case that equals its value and at the fallback exactly if there is none.",
 ["inputs"],"all operand values, all sets of case values up to the bound",
 "Tests compare a few constants, and never every operator on every operand kind.",
 ["lang/step/operators.md","lang/step/terminators.md"],[("relational operators","lang/step/operators.md (eval_rel_op, compare_ptr)"),("switch","lang/step/terminators.md (Terminator::Switch)")],observe=OUT)
p("C03","Values and bytes: the representation relation round-trips",
 "Storing a value and loading it at the same type gives the same value, with the bytes the target's endianness prescribes; a load is UB exactly if the bytes represent no value (an uninitialized byte in an integer, bool or pointer, a bool other than 0 or 1). Padding and bytes outside union chunks become uninitialized in a typed copy while all other bytes, their initialization and their provenance are kept; a pointer has provenance only if all its bytes carry that provenance in order, and integers never carry any. Transmutation is UB exactly for types of different size or if the bytes are not valid at the new type, and otherwise keeps the bytes.",
 ["inputs","configurations"],"all byte contents and initialization patterns, for the type shapes and targets within the bounds",
 "Tests use a few fixed byte patterns on one target; the relation has to hold for all of them.",
 ["lang/representation.md","lang/values.md","lang/types.md"],[("encode/decode","lang/representation.md"),("transmute","lang/values.md, lang/step/operators.md")],observe=OUT)
p("C04","Accesses: UB exactly out of bounds, dead or misaligned; else last write wins",
 "A load or store through a pointer is UB exactly if its provenance does not cover the whole accessed range in a live allocation, or the address is not aligned as the access demands; zero-sized accesses need only alignment. A load yields for every byte what was stored there last, and nothing (uninitialized) if nothing was; a store changes no other byte.",
 ["inputs","histories"],"all offsets, lengths, alignments, stored data, addresses chosen for allocations",
 "The tests access a few fixed offsets with random base addresses.",
 ["mem/basic.md","lang/representation.md","lang/step/statements.md"],[("bounds check","mem/basic.md (check_ptr, load, store)"),("typed access","lang/representation.md (typed_load, typed_store)")],observe=OUT)
p("C05","Allocation, deallocation and leak detection",
 "Whatever address is chosen, a fresh allocation is aligned, not null, inside the address space, disjoint from and at another address than all live allocations, and uninitialized. Deallocation succeeds exactly for a pointer with live provenance to the start of the allocation, with its size, alignment and kind, and afterwards every access through any pointer to it is UB even if the address is reused. A program that stops regularly with a live heap allocation reports a memory leak, and only then.",
 ["inputs","histories"],"all address choices, sizes, alignments and arguments to deallocation within the bounds",
 "Addresses are sampled at random in tests; adjacency, reuse and address space edges are practically never hit.",
 ["mem/basic.md","lang/step/intrinsics.md"],[("allocate, deallocate, leak_check","mem/basic.md")],observe=OUT)
p("C06","Pointer arithmetic keeps provenance and has UB exactly out of bounds",
 "A pointer offset yields the address plus offset (modulo the address space when wrapping) with the same provenance; the in-bounds version is UB exactly if the range between the old and new address is not inside one live allocation the pointer has provenance for. The distance of two pointers is the difference of their addresses; the in-bounds version is UB exactly if the range between them is not dereferenceable from both, and the non-negative version exactly if the distance is negative. No offset or address makes the interpreter panic.",
 ["inputs"],"all offsets, base addresses and allocation sizes within the bounds",
 "Tests use fixed small offsets; boundary offsets and extreme addresses are not reached.",
 ["lang/step/operators.md","mem/basic.md","mem/interface.md"],[("pointer operators","lang/step/operators.md (ptr_offset_*)"),("signed_dereferenceable","mem/interface.md")],observe=OUT)
p("C07","Places: projections compute the right address, alignment and bounds",
 "A field, array or slice element, variant or dereference denotes the place at its specified offset, with the metadata of the unsized tail kept. Indexing is UB exactly out of range; a projection is UB exactly if it leaves the allocation; a load or store at a place is UB if the place is not aligned for its type as far as known from the pointer it came from; offset and alignment of an unsized tail are the ones of the dynamic type.",
 ["inputs"],"all indices, metadata lengths, base addresses within the bounds",
 "Tests use fixed indices and shapes.",
 ["lang/step/expressions.md","lang/types.md"],[("place projection","lang/step/expressions.md (eval_place_expr)")],observe=OUT)
p("C08","Size and alignment computations agree with memory layout",
 "For every sized or unsized type and metadata, the computed size and alignment are those of the layout rules (array and slice sizes are count times element size; the tail of a wide tuple is placed at its aligned offset and the total is rounded up; packing caps alignment; trait objects take theirs from the vtable), and every element and field lies inside the size. Sizes that do not fit the address space's signed range are rejected rather than wrapped.",
 ["inputs","configurations"],"all element counts, sizes, alignments, packing within the bounds",
 "Tests check a few fixed types.",
 ["lang/types.md","lang/machine.md"],[("compute_size, compute_align","lang/types.md, lang/step/operators.md")],observe=OUT)
p("C09","References are valid exactly if non-null, aligned, dereferenceable, inhabited",
 "Producing a reference or box value (load, transmute, address-of, wide pointer construction, argument passing) is UB exactly if it is null, misaligned for its pointee, not dereferenceable for its size, points to an uninhabited type, has a total size over the signed range, or carries metadata that is not valid (a vtable pointer not pointing to a vtable of that trait). Raw pointers are unrestricted except for their vtable metadata.",
 ["inputs"],"all addresses, offsets, lengths, pointee layouts within the bounds",
 "Tests use one fixed violation each.",
 ["lang/representation.md","lang/step/statements.md","lang/step/expressions.md"],[("check_ptr, check_value","lang/representation.md"),("Validate, AddrOf","lang/step/statements.md, lang/step/expressions.md")],observe=OUT)
p("C10","Exposed provenance: integer-to-pointer casts only recover exposed provenance",
 "A pointer made from an address with exposed provenance has that address and either no provenance or one that was exposed before, chosen in the program's favour; exposing yields the address.",
 ["inputs","histories"],"all addresses, exposure histories",
 "The angelic choice is not executable in the pinned tree, so no test runs it.",
 ["mem/intptrcast.md","lang/step/intrinsics.md"],[("IntPtrCast","mem/intptrcast.md")],observe=OUT)
p("C11","Tree Borrows: aliasing rules for references hold for every access history",
 "Under the aliasing model, for every sequence of reborrows, reads, writes, protectors and deallocations through any of the pointers, an access has UB exactly if the per-byte permission state machine of Tree Borrows forbids it: access by a relative or foreigner moves each tag between reserved, active, frozen and disabled as specified, protected tags turn forbidden foreign accesses and deallocation into UB, and interior-mutable or non-retagged pointers are exempt as specified. Memory behaves as in the basic model otherwise, and no history makes the interpreter panic.",
 ["histories","inputs"],"all histories up to the bounded length over trees up to the bounded size, all access ranges",
 "The tests are a few dozen hand-written sequences; the state space of trees, ranges and access orders is not enumerable by hand.",
 ["mem/tree_borrows/memory.md","mem/tree_borrows/tree.md","mem/tree_borrows/state_machine.md","mem/tree_borrows/node.md"],[("state machine","mem/tree_borrows/state_machine.md"),("tree traversal","mem/tree_borrows/tree.md"),("retag","mem/tree_borrows/memory.md")],observe=OUT)
p("C12","Data races are reported exactly when two steps race",
 "Under every schedule, a program has a data race exactly if two different threads' consecutive steps access overlapping bytes, at least one of them writing and at least one not atomic, with no synchronization (spawn, join, lock) ordering the two steps. Accesses of one thread, disjoint ranges, two reads and two atomic accesses never race.",
 ["schedules","inputs"],"all schedules of the bounded programs; all offsets and sizes of the accesses",
 "Tests run a program many times under random schedules and cannot show absence or presence on every one.",
 ["mem/concurrent.md","lang/machine.md"],[("race check","mem/concurrent.md (DataRaceChecker)"),("scheduling","lang/machine.md (step)")],observe=OUT)
p("C13","Threads and locks: mutual exclusion, hand-off, join and deadlock",
 "Under every schedule at most one thread holds a lock; releasing hands it to one of the waiting threads or frees it; using a lock that does not exist, re-acquiring an owned one (deadlock) and releasing a lock not held behave as specified. Join returns only after the thread ended, spawn starts the function with its argument exactly once, and the machine reports deadlock exactly when no thread can run. The program ends when the main thread does and not before.",
 ["schedules"],"all schedules of the bounded programs",
 "Tests sample random schedules.",
 ["lang/step/locks.md","lang/machine.md","lang/step/intrinsics.md"],[("locks","lang/step/locks.md"),("spawn/join","lang/step/intrinsics.md"),("thread choice","lang/machine.md")],observe=OUT)
p("C14","Atomic operations are indivisible and exact",
 "Atomic load, store, compare-exchange and fetch-add/sub on integers behave as one step under every schedule: they return the previous value, store exactly the specified new one (wrapping), and compare-exchange stores exactly if the values are equal. They are UB exactly for a misaligned, out-of-bounds, over-wide or ill-typed access, and no operands make the interpreter panic.",
 ["schedules","inputs"],"all operand values, all schedules of the bounded programs",
 "Tests use a few small values, and random schedules.",
 ["lang/step/intrinsics.md"],[("atomic intrinsics","lang/step/intrinsics.md")],observe=OUT)
p("C15","Calls: arguments, return values and stack frames",
 "A call passes each argument's value to the callee's parameters and its return value to the destination, runs callee code exactly once and continues in the caller with the caller's locals unchanged. It is UB exactly if the pointer is not to a function, or calling convention, number, layout-compatibility or return type of the arguments do not match; locals, arguments and the return place are fresh storage that is dead after the return, and in-place arguments are inaccessible to the caller's place meanwhile.",
 ["inputs","programs"],"all argument values, all pairs of the type shapes, recursion up to the bound",
 "Tests use single examples per mismatch.",
 ["lang/step/terminators.md","lang/machine.md"],[("call/return","lang/step/terminators.md (create_frame, eval_argument, Return)"),("ABI check","lang/step/terminators.md (check_abi_compatibility)")],observe=OUT)
p("C16","Enums: discriminants and variants are stored and read back consistently",
 "Storing a variant and reading its discriminant or data gives that variant and data, for direct and niche encodings, through typed copies and discriminant writes. Loading an enum or reading its discriminant is UB exactly if the tag bytes select no valid variant or are uninitialized, or (for loads) the variant's data is invalid; setting the discriminant changes only the tag bytes.",
 ["inputs"],"all byte contents; the encodings within the bounds",
 "Tests use a few encodings and values.",
 ["lang/representation.md","lang/step/statements.md","lang/step/expressions.md"],[("decode_discriminant, encode_discriminant","lang/representation.md"),("SetDiscriminant, GetDiscriminant","lang/step/statements.md, lang/step/expressions.md")],observe=OUT)
p("C17","Unwinding runs exactly the right cleanup and catch blocks",
 "A panic carries its payload up the call stack: every frame whose call names a cleanup block runs it exactly once, innermost first; frames without one have UB; a catch block stops the unwinding with the payload available and execution continues regularly; unwinding out of a frame that terminates ends there. Locals of unwound frames are dead and the return destination is not written.",
 ["programs","inputs"],"all placements of cleanup, catch and panic over the bounded call depth; all payloads",
 "Tests hold a few fixed shapes.",
 ["lang/step/terminators.md","lang/step/intrinsics.md"],[("unwinding","lang/step/terminators.md (StartUnwind, ResumeUnwind, StopUnwind)")],observe=OUT)
p("C18","Ill-formed programs are rejected up front and well-formed ones never crash it",
 "A program that breaks a typing or structure rule (operand types, missing blocks, functions, globals, traits, wrong block kinds, overlapping fields, values out of range, ...) is rejected as ill-formed before its first step. A program that is accepted never makes the interpreter panic, whatever it does at run time.",
 ["programs","inputs"],"the single-rule violations and symbolic parameters of the program templates within the bounds",
 "The tests have one example for some of the rules; the absence of panics is over all programs.",
 ["lang/well-formed.md","lang/machine.md"],[("check_wf","lang/well-formed.md")],observe=OUT)
p("C19","Globals, relocations, vtable dispatch and intrinsics",
 "Globals hold their initial bytes, uninitialized bytes and relocated pointers (with provenance and offset) when the program starts, and keep what is written. A vtable lookup yields the method of the pointed-to type's vtable, vtable and function memory can be neither accessed nor deallocated, and vtable size and alignment are those declared. Print writes its arguments in order, raw equality compares exactly the bytes (UB if one is uninitialized), assume is UB exactly on false, abort aborts, exit stops; each is UB exactly on arguments or return types it does not accept.",
 ["inputs","programs"],"all byte contents, relocation offsets, operand values and argument shapes within the bounds",
 "Tests use one example each.",
 ["lang/machine.md","lang/step/intrinsics.md","lang/step/operators.md"],[("machine setup","lang/machine.md (new)"),("intrinsics","lang/step/intrinsics.md"),("vtable lookup","lang/step/operators.md")],observe=OUT)
p("C20","Translation from Rust preserves the meaning of programs",
 "For the supported subset, the MiniRust program produced for a Rust program prints the same, and ends the same way, as the Rust program does on every input.",
 ["programs","inputs"],"all inputs of Rust programs in the supported subset",
 "The tests compare a fixed set of closed Rust programs.",
 ["../tooling/minimize/src/main.rs"],[("translation","../tooling/minimize/src")],observe="output of the translated program")
p("C21","A run is reported as it ended",
 "For every program, the runner writes exactly what the program printed before its end, in order, to standard output and standard error, and reports its end: nothing more and no error for a regular exit; otherwise one message on standard error that begins with `fatal error: ` and names the kind of end (UB, abort, deadlock, leak, not well-formed), with process status 101. The aliasing model is checked exactly if --minirust-tree-borrows is given (before or after the file); other --minirust- flags are errors; all other arguments are left alone. minirun runs the program in the given JSON file, or on standard input, and refuses several files; a program written as JSON and read back behaves the same. Library callers get the same end and output as values.",
 ["inputs","programs"],"all values of the symbolic inputs that decide what is printed and how the program ends",
 "The tests of the repository look at the ends of a fixed set of programs with one way of running them each; minirun has none.",
 ["../tooling/miniutil/src/cli.rs","../tooling/miniutil/src/run.rs","../tooling/miniutil/src/json.rs","../tooling/minirun/src/main.rs"],[("command line","../tooling/miniutil/src/cli.rs"),("runner","../tooling/miniutil/src/run.rs"),("minirun","../tooling/minirun/src/main.rs")],observe="exit status, standard output and standard error")
ADD={'C01': ('A Rust program translated by minimize inherits this: its integer operators, casts, checked arithmetic and integer intrinsics yield what Rust specifies, with overflow ending in a panic where overflow checks are on.', ['tooling/minimize/src/rvalue.rs', 'tooling/minimize/src/bb.rs', 'tooling/miniutil/src/build/expr.rs']), 'C02': ('The same holds for the comparison operators, matches, loops and short-circuit operators of a Rust program translated by minimize.', ['tooling/minimize/src/rvalue.rs', 'tooling/minimize/src/bb.rs']), 'C03': ('For a Rust program translated by minimize, this makes transmutes, unions, struct copies and typed reads from memory keep and check exactly the bytes Rust prescribes for the type.', ['tooling/minimize/src/ty.rs', 'tooling/minimize/src/chunks.rs']), 'C04': ('Reads and writes through raw pointers, of locals, arrays and statics in a Rust program translated by minimize follow these rules.', ['tooling/minimize/src/rvalue.rs', 'tooling/minimize/src/constant.rs']), 'C05': ('The allocate and deallocate intrinsics of a Rust program translated by minimize follow these rules.', ['tooling/minimize/src/bb.rs']), 'C06': ('Pointer methods (add, sub, offset, wrapping_offset, offset_from, ...) of a Rust program translated by minimize follow these rules.', ['tooling/minimize/src/bb.rs', 'tooling/minimize/src/rvalue.rs']), 'C07': ('Field, index, subslice and dereference places of a Rust program translated by minimize follow these rules (an index out of bounds panics).', ['tooling/minimize/src/rvalue.rs', 'tooling/minimize/src/ty.rs']), 'C08': ("For a Rust program translated by minimize, size_of, align_of, size_of_val, align_of_val, field offsets, array strides and the placement of locals and statics are those of Rust's layout.", ['tooling/minimize/src/ty.rs', 'tooling/minimize/src/vtable.rs']), 'C09': ('References created, transmuted, reborrowed or passed in a Rust program translated by minimize are checked this way for their pointee type.', ['tooling/minimize/src/ty.rs', 'tooling/minimize/src/bb.rs']), 'C11': ('For a Rust program translated by minimize, references are retagged where Rust prescribes (with protectors for arguments, and with the UnsafeCell bytes and Unpin-ness of their pointee).', ['tooling/minimize/src/ty.rs', 'tooling/minimize/src/bb.rs']), 'C12': ('The same holds for the threads of a Rust program translated by minimize.', ['tooling/minimize/src/bb.rs']), 'C13': ('The spawn, join and lock intrinsics of a Rust program translated by minimize behave this way.', ['tooling/minimize/src/bb.rs']), 'C14': ('The atomic intrinsics of a Rust program translated by minimize behave this way.', ['tooling/minimize/src/bb.rs']), 'C15': ('Calls of functions, methods, closures and function pointers in a Rust program translated by minimize behave this way.', ['tooling/minimize/src/bb.rs', 'tooling/minimize/src/function.rs']), 'C16': ('The enums (Option, C-like, data-carrying, nested, niche-encoded) of a Rust program translated by minimize behave this way.', ['tooling/minimize/src/enums.rs', 'tooling/minimize/src/rvalue.rs']), 'C17': ("In a Rust program translated by minimize, a panic drops exactly the live values of every frame in Rust's order, catch_unwind catches it, and normal control flow drops each value exactly once.", ['tooling/minimize/src/bb.rs', 'tooling/minimize/src/function.rs']), 'C19': ('The statics, constants, string literals, trait objects, generic instances and intrinsics of a Rust program translated by minimize behave this way.', ['tooling/minimize/src/constant.rs', 'tooling/minimize/src/vtable.rs', 'tooling/minimize/src/program.rs'])}
for x in P:
    if x["id"] in ADD:
        x["statement"]+=" "+ADD[x["id"]][0]
        x["anchors"]["files"]+=["spec/../"+f for f in ADD[x["id"]][1]]
for x in P: 
    for k in ("files",): x["anchors"][k]=[f.replace("spec/../","") for f in x["anchors"][k]]
    for m in x["anchors"]["mechanism"]: m["where"]=m["where"].replace("spec/../","")
open(__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__))),'properties.jsonl'),'w').write("".join(json.dumps(x)+"\n" for x in P))
