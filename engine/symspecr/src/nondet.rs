use crate::*;

use std::convert::Infallible;
use std::ops::*;

#[derive(Copy, Clone, GcCompat)]
/// Non-determinism primitive. See [Non-determinism](https://github.com/minirust/minirust/blob/master/README.md#non-determinism).
pub struct Nondet<T>(pub(crate) T);

fn formula(f: &mut dyn FnMut() -> bool) -> vx::term::Bid {
    match vx::concrete(f) {
        Some(true) => vx::term::TRUE,
        Some(false) => vx::term::FALSE,
        None => vx::predicate(f),
    }
}

/// The `pick` function from the minirust spec.  See [Non-determinism](https://github.com/minirust/minirust/blob/master/README.md#non-determinism).
pub fn pick<T: Obj, D: Distribution<T>>(distr: D, f: impl Fn(T) -> bool) -> crate::Nondet<T> {
    if let Some(all) = distr.support() {
        let ok: Vec<T> = all.into_iter().filter(|x| vx::B(formula(&mut || f(*x))).decide()).collect();
        if ok.is_empty() {
            panic!("nothing to pick");
        }
        let s = distr.sample();
        let ints: Vec<Int> = ok.iter().map(|x| D::as_int(*x)).collect();
        if let Some(few) = vx::few_switches(&ints) {
            vx::log_pick(ints, D::as_int(s));
            for x in &few[1..] {
                if vx::eq(D::as_int(s), *x).decide() {
                    vx::switched(&few, *x);
                    return Nondet(s);
                }
            }
            vx::assume(vx::eq(D::as_int(s), few[0]));
            vx::switched(&few, few[0]);
            return Nondet(s);
        }
        vx::log_pick(ok.iter().map(|x| D::as_int(*x)).collect(), D::as_int(s));
        let mut c = vx::eq(0, 1);
        for x in &ok {
            c = c | vx::eq(D::as_int(s), D::as_int(*x));
        }
        vx::assume(c);
        return Nondet(s);
    }
    if let Some((x, k)) = distr.pinned() {
        // One value that works.
        let c = formula(&mut || f(x));
        if c != vx::term::FALSE {
            distr.sample();
            vx::fix_fresh(vx::newest_var().unwrap(), k);
            vx::assume(vx::B(c));
            return Nondet(x);
        }
    }
    // Every value in the support that satisfies the predicate, at once.
    let s = distr.sample();
    let v = vx::newest_var();
    let c = vx::predicate(&mut || f(s));
    match v {
        Some(v) => vx::assume_fresh(c, v),
        None => vx::assume(vx::B(c)),
    }
    Nondet(s)
}

/// The `predict` function from the minirust spec. See [Non-determinism](https://github.com/minirust/minirust/blob/master/README.md#non-determinism).
pub fn predict<T>(_f: impl Fn(T) -> bool) -> crate::Nondet<T> { unimplemented!() }

impl<T> Try for Nondet<T> {
    type Output = T;
    type Residual = Infallible;

    fn from_output(output: Self::Output) -> Self {
        Nondet(output)
    }

    fn branch(self) -> ControlFlow<Self::Residual, Self::Output> {
       ControlFlow::Continue(self.0)
    }
}

impl<T> FromResidual<Infallible> for Nondet<T> {
    fn from_residual(residual: Infallible) -> Self {
        match residual {}
    }
}
