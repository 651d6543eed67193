//! Programs translated from Rust by the tree's `minimize`, with symbolic inputs.
//!
//! The inputs of a Rust program are the fields of a static; the translator sees the static with
//! placeholder bytes, and the harness replaces them in the translated program.

use crate::build::*;
use crate::kit::*;
use crate::*;
use std::rc::Rc;

const MAGIC: &[u8; 16] = b"VX-SYMBOLIC-IN!!";

#[derive(Clone)]
pub struct Src {
    pub file: String,
    pub text: String,
}

pub fn file_name(case: &str) -> String {
    case.chars().map(|c| if c.is_ascii_alphanumeric() { c.to_string() } else { format!("_{:x}", c as u32) }).collect()
}
/// size, signed
fn ty(t: &str) -> (u64, bool) {
    match t {
        "bool" => (1, false),
        "char" => (4, false),
        "usize" => (8, false),
        "isize" => (8, true),
        t => (t[1..].parse::<u64>().unwrap() / 8, t.starts_with('i')),
    }
}
pub fn int_type(t: &str) -> IntType {
    let (n, s) = ty(t);
    ity(if s { Signed } else { Unsigned }, n)
}
fn offsets(inputs: &[(String, String)]) -> Vec<u64> {
    let mut o = 16u64;
    inputs
        .iter()
        .map(|(_, t)| {
            let n = ty(t).0;
            o = o.div_ceil(n) * n;
            o += n;
            o - n
        })
        .collect()
}

pub fn text(flags: &str, inputs: &[(String, String)], body: &str) -> String {
    let mut s = format!("// flags: {flags}\n");
    s += "#![allow(warnings, invalid_reference_casting)]\n#![feature(core_intrinsics, never_type, ptr_metadata, raw_ref_op, arbitrary_self_types, custom_mir, unboxed_closures, fn_traits, tuple_trait, freeze, panic_internals, arbitrary_enum_discriminant)]\n";
    s += "extern crate intrinsics;\nuse intrinsics::*;\n";
    s += "#[repr(C)]\nstruct In { magic: [u8; 16], ";
    for (n, t) in inputs {
        s += &format!("{n}: {t}, ");
    }
    s += "}\nstatic mut IN: In = In { magic: *b\"";
    s += std::str::from_utf8(MAGIC).unwrap();
    s += "\", ";
    for (n, t) in inputs {
        let z = match t.as_str() {
            "bool" => "false",
            "char" => "'a'",
            _ => "0",
        };
        s += &format!("{n}: {z}, ");
    }
    s += "};\n";
    for (n, _) in inputs {
        s += &format!("macro_rules! {n} {{ () => {{ unsafe {{ IN.{n} }} }} }}\n");
    }
    s + body + "\n"
}

/// The translated program, with the inputs in place.
pub fn load(file: &str, inputs: &[(String, String)]) -> (Program, Vec<Int>) {
    let dir = std::env::var("VX_RUST").expect("VX_RUST");
    let path = format!("{dir}/{file}");
    let vals: Vec<Int> = inputs
        .iter()
        .map(|(n, t)| match t.as_str() {
            "bool" => sym(n, 0, 1),
            "char" => {
                let c = sym(n, 0, 0x10ffff);
                suppose(is_lt(c, 0xd800) | is_lt(0xdfff, c));
                c
            }
            t => sym_of(n, int_type(t)),
        })
        .collect();
    let Ok(json) = std::fs::read_to_string(format!("{path}.json")) else {
        let e = std::fs::read_to_string(format!("{path}.err")).unwrap_or("no output".to_string());
        fail("the program is translated", e.trim());
    };
    let mut prog: Program = match serde_json::from_str(&json) {
        Ok(p) => p,
        Err(e) => fail("the translated program can be read back", &e.to_string()),
    };
    prog.functions = by_name(prog.functions);
    prog.globals = by_name(prog.globals);
    prog.vtables = by_name(prog.vtables);
    let offs = offsets(inputs);
    let mut found = false;
    for (name, g) in prog.globals.iter() {
        let magic = (0..16).all(|i| g.bytes.get(Int::from(i)).is_some_and(|b| b == Some(vx::byte(MAGIC[i as usize]))));
        if !magic {
            continue;
        }
        let mut g = g;
        found = true;
        for (((_, t), off), v) in inputs.iter().zip(offs.iter()).zip(vals.iter()) {
            let it = if matches!(t.as_str(), "bool" | "char") { ity(Unsigned, ty(t).0) } else { int_type(t) };
            let bytes = DefaultTarget::ENDIANNESS.encode(it.signed, it.size, *v).unwrap();
            for i in 0..ty(t).0 {
                g.bytes.set(Int::from(off + i), Some(bytes.get(Int::from(i)).unwrap()));
            }
        }
        prog.globals.insert(name, g);
    }
    if !found && !inputs.is_empty() {
        fail("the program's inputs are there", "the static with the inputs has disappeared");
    }
    (prog, vals)
}

fn by_name<K: Obj, V: Obj>(m: Map<K, V>) -> Map<K, V> {
    let mut v: Vec<(K, V)> = m.iter().collect();
    v.sort_by_cached_key(|(k, _)| {
        let s = format!("{k:?}");
        (s.len(), s)
    });
    v.into_iter().collect()
}

pub struct R {
    pub v: Vec<Int>,
    pub r: Run,
}
impl std::ops::Deref for R {
    type Target = Run;
    fn deref(&self) -> &Run {
        &self.r
    }
}
impl R {
    /// Ends regularly and prints exactly these.
    #[track_caller]
    pub fn prints(&self, want: &[Int]) {
        self.ends("exit", want);
    }
    /// Ends this way, having printed exactly these.
    #[track_caller]
    pub fn ends(&self, kind: &str, want: &[Int]) {
        self.r.must_be(kind, &format!("ends with {kind}"));
        if self.r.out.len() != want.len() {
            fail("prints the expected number of values", &format!("{} instead of {}", self.r.out.len(), want.len()));
        }
        for (i, w) in want.iter().enumerate() {
            check(is_eq(self.val(i), *w), &format!("output {i}"));
        }
    }
    /// Ends with `kind` exactly if `cond`, having printed `before`; otherwise regularly, having also printed `after`.
    #[track_caller]
    pub fn ends_iff(&self, kind: &str, cond: impl Into<B>, before: &[Int], after: &[Int]) {
        let cond = cond.into();
        if self.r.end.kind() == kind {
            check_msg(cond, &format!("{kind} only if specified"), &self.r.end.text());
            reach(kind);
            self.ends(kind, before);
        } else {
            self.r.must_exit(&format!("{kind} or regular end"));
            check(!cond, &format!("{kind} if specified"));
            reach("exit");
            self.ends("exit", &[before, after].concat());
        }
    }
    #[track_caller]
    pub fn ub(&self) {
        self.r.must_ub("has UB");
    }
    /// An integer, or a truth value as one.
    pub fn val(&self, i: usize) -> Int {
        match self.r.out.get(i) {
            Some(Out::Bool(b)) => Int::from(*b as u8),
            _ => self.r.int(i),
        }
    }
}
pub fn b2i(b: impl Into<B>) -> Int {
    ite(b.into(), Int::ONE, Int::ZERO)
}
pub fn int(i: i128) -> Int {
    Int::from(i)
}

impl Cases {
    pub fn rust(&mut self, name: &str, inputs: &[(&str, &str)], body: &str, f: impl Fn(&R) + 'static) -> &mut Case {
        self.rust_full(name, "", inputs, body, false, f)
    }
    /// With the Tree Borrows memory model.
    pub fn rust_tb(&mut self, name: &str, inputs: &[(&str, &str)], body: &str, f: impl Fn(&R) + 'static) -> &mut Case {
        self.rust_full(name, "", inputs, body, true, f)
    }
    pub fn rust_full(&mut self, name: &str, flags: &str, inputs: &[(&str, &str)], body: &str, tb: bool, f: impl Fn(&R) + 'static) -> &mut Case {
        self.rust_with(name, Opts { flags: flags.to_string(), tb, ..Default::default() }, inputs, body, f)
    }
    pub fn rust_with(&mut self, name: &str, o: Opts, inputs: &[(&str, &str)], body: &str, f: impl Fn(&R) + 'static) -> &mut Case {
        let case = format!("rust {name}");
        let inputs: Vec<(String, String)> = inputs.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
        let file = file_name(&case);
        assert!(self.rust.iter().all(|s| s.file != file), "duplicate case {case}");
        let src = Src { file: file.clone(), text: text(&o.flags, &inputs, body) };
        self.rust.push(src);
        self.add(case, move || {
            let keep = o.symbolic_addresses;
            pin_addresses(move |_, _| keep);
            vx::switches(o.switches);
            let (p, v) = load(&file, &inputs);
            if let Some(pre) = &o.pre {
                pre(&v);
            }
            let r = if o.tb { run_n::<TreeBorrowMem>(p, 40_000) } else { run_n::<BasicMem>(p, 40_000) };
            f(&R { v, r });
        })
    }
}
/// How to translate and run a Rust program.
#[derive(Default)]
pub struct Opts {
    pub flags: String,
    /// With the Tree Borrows memory model.
    pub tb: bool,
    /// Restricts the inputs.
    pub pre: Option<Box<dyn Fn(&[Int])>>,
    pub symbolic_addresses: bool,
    /// How often a thread is preempted at most.
    pub switches: Option<u32>,
}
impl Opts {
    pub fn pre(f: impl Fn(&[Int]) + 'static) -> Opts {
        Opts { pre: Some(Box::new(f)), ..Default::default() }
    }
    pub fn flags(s: &str) -> Opts {
        Opts { flags: s.to_string(), ..Default::default() }
    }
    pub fn tb() -> Opts {
        Opts { tb: true, ..Default::default() }
    }
}
